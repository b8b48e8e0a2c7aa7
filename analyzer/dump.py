import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from iba.index import Index
from iba.engine import *
import argparse
ap = argparse.ArgumentParser()
ap.add_argument("fns"); ap.add_argument("--root", default="/repo"); ap.add_argument("--opaque", default=""); ap.add_argument("-w", type=int, default=400)
ap.add_argument("--full", action="store_true"); ap.add_argument("--icall", action="store_true"); ap.add_argument("--inline", default="")
ap.add_argument("--late", default=""); ap.add_argument("--noabbr", action="store_true")
a = ap.parse_args()
ix = Index(a.root)
for fid in a.fns.split(','):
    for f in [f for f in ix.by_id.get(fid, []) if f.body is not None]:
        e = Engine(ix, opaque=[x for x in a.opaque.split(",") if x], inline_crates=[x for x in a.inline.split(",") if x])
        if a.late:
            q, ms = a.late.split(":")
            e.late = {q: tuple(ms.split(","))}
        sm = e.analyze(f)
        if not a.noabbr:
            from iba import terms as tm
            n = 0
            al = {}
            for ev in sm.log:
                for t in [ev.term]:
                    if t.op in ("call", "m") and t.id not in al:
                        for x in tm.subterms(t):
                            x._s = None
                        tm.ALIAS = al
                        sh = tm.show(t)
                        if len(sh) > 45:
                            n += 1
                            print("    $%d := %s" % (n, sh[:a.w]))
                            al[t.id] = "$%d" % n
            def clr(t):
                for x in tm.subterms(t):
                    x._s = None
            for ev in sm.log:
                clr(ev.term)
            if sm.ok:
                clr(sm.ok[1])
                for x in list(sm.facts.s) + list(sm.facts.ors):
                    clr(x)
        sm.dump(a.full, a.w, a.icall)
        print('inlined', e.ninl, e.warn)
