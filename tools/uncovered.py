"""lists the functions of /repo that no rule analyses, by file (a guide to what is not covered yet)"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "analyzer"))
import check
from iba.rules import Ctx, PROPS
check.load_rules()
c = Ctx(sys.argv[1] if len(sys.argv) > 1 else "/repo")
seen = set()
for p in sorted(PROPS):
    check.run(p, c)
    seen |= set(c.fns)
by = {}
n = 0
for f in c.ix.fns if hasattr(c.ix, "fns") else c.ix.functions:
    f = c.ix.fns[f] if isinstance(f, str) else f
    for f in (f if isinstance(f, list) else [f]):
        n += 1
        if f.id not in seen and f.body:
            by.setdefault(f.file, []).append("%s:%s" % (f.id.split("::", 1)[1], f.line))
for k in sorted(by):
    print(k, len(by[k]))
    print("   " + ", ".join(by[k]))
print(n, len(seen))
