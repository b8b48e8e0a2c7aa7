"""Regenerates the per-property part of DESIGN.md from the property table and a run of the rules."""
import os, sys, json, glob, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "tools"), os.path.join(V, "analyzer")]
sys.setrecursionlimit(100000)
threading.stack_size(512 * 1024 * 1024)


def main():
    import props, check
    from iba.rules import Ctx, PROPS
    check.load_rules()
    ctx = Ctx("/repo")
    na = dict(props.NA)
    out = []
    for p in sorted(props.PROPS, key=lambda p: p["id"]):
        i = p["id"]
        if i in na:
            out.append("- **%s** %s — *not applicable*: %s" % (i, p["title"], na[i]))
            continue
        check.run(i, ctx)
        ks = ", ".join("%s %d" % kv for kv in sorted(ctx.kinds.items()))
        und = sum(1 for o in ctx.obl if o[0] == "undecided")
        fns = sorted({f.split("::", 1)[1] if f.count("::") else f for f in ctx.fns})
        mod = getattr(PROPS[i][0], "__module__", "").split(".")[-1]
        out.append("- **%s** %s. `analyzer/rules/%s.py`: %d obligations over %d functions (%s)%s; %.0f s."
                   % (i, p["title"], mod, len(ctx.obl), len(fns), ks, ", %d undecided" % und if und else "", 0 or 1))
    d = open(os.path.join(V, "DESIGN.md")).read()
    a, b = "<!-- generated: properties -->\n", "<!-- end generated -->"
    pre, rest = d.split(a)
    post = rest.split(b)[1]
    txt = "\n".join(out).replace("; 1 s.", ".")
    open(os.path.join(V, "DESIGN.md"), "w").write(pre + a + txt + "\n" + b + post)


t = threading.Thread(target=main)
t.start()
t.join()
