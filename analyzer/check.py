"""python3 check.py ID [--root DIR] : decide one property from the current sources."""
import sys, os, fnmatch, json, time, importlib, glob, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
import threading
threading.stack_size(512 * 1024 * 1024)


def load_rules():
    for f in sorted(glob.glob(os.path.join(HERE, "rules", "*.py"))):
        n = os.path.basename(f)[:-3]
        if n != "__init__":
            importlib.import_module("rules." + n)


STRICT = bool(os.environ.get("IBA_STRICT"))


def run(pid, ctx):
    from iba.rules import PROPS, Missing, NoFunction
    from iba.pat import PatError
    from iba.index import AnalysisError
    ctx.reset(pid)
    for f in PROPS[pid]:
        try:
            f(ctx)
        except NoFunction as e:
            if STRICT:
                raise
            ctx.undecided("anchor", "%s/%s" % (pid, f.__name__), "function present", str(e))
        except (Missing, AnalysisError) as e:
            ctx.bad("anchor", "%s/%s" % (pid, f.__name__), "anchor present", str(e))
        except Exception as e:  # the analyser does not understand the code it met: no verdict from this rule
            if STRICT:
                raise
            ctx.obl.append(("undecided", "%s/%s" % (pid, f.__name__), "analyser failure: %s: %s" % (type(e).__name__, str(e)[:300])))
    return ctx


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--root", default="/repo")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    verif = os.path.dirname(HERE)
    from iba.rules import Ctx, PROPS
    load_rules()
    props = {}
    for l in open(os.path.join(verif, "properties.jsonl")):
        if l.strip():
            d = json.loads(l)
            props[d["id"]] = d
    ctx = Ctx(a.root)
    pids = sorted(PROPS) if a.pid == "all" else sorted(p for p in PROPS if fnmatch.fnmatch(p, a.pid)) if "*" in a.pid else [a.pid]
    rc = 0
    for pid in pids:
        t1 = time.time()
        run(pid, ctx)
        rc |= report(pid, ctx, props.get(pid, {}), verif, a, t1 if a.pid == "all" else t0)
    return rc


def report(pid, ctx, pd, verif, a, t0):
    kf = json.load(open(os.path.join(verif, "known_findings.json")))
    known = {(k["property"], k["key"]): k for k in kf.get("known", [])}
    bad, seen, kn = [], set(), []
    for st, key, detail in ctx.obl:
        if st != "bad" or key in seen:
            continue
        seen.add(key)
        if (pid, key) in known:
            kn.append((key, known[(pid, key)]["what"]))
        else:
            bad.append((key, detail))
    und = sorted({(k, d) for s, k, d in ctx.obl if s == "undecided"})
    n = len(ctx.obl)
    if n == 0:
        bad.append(("%s | coverage | no obligations" % pid, "the rule set produced no obligation"))
    nok = sum(1 for s, _, _ in ctx.obl if s == "ok")
    for key, what in kn:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    tier = os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if not a.no_evidence:
        ed = os.path.join(verif, "evidence")
        os.makedirs(ed, exist_ok=True)
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "other",
            "coverage": {
                "explanation": "Static must-fact / gated value-flow analysis of the syntax trees of /repo's current sources. Every function listed in "
                "`functions` was summarised (same-crate callees inlined, foreign calls kept as events); each obligation is one rule instance decided on those "
                "summaries. `undecided` obligations met a construct the analysis does not interpret and are neither proved nor reported.",
                "functions_analysed": len(ctx.fns), "call_and_effect_sites": ctx.sites, "obligations": n, "obligations_proved": nok,
                "obligations_undecided": len(und), "known_findings": len(kn),
                "rule_kinds": ctx.kinds, "functions": sorted(ctx.fns)[:400],
                "obligation_samples": sorted({k for s, k, d in ctx.obl if s == "ok"})[:200],
                "undecided": ["%s: %s" % (k, d[:200]) for k, d in und][:50],
                "files_indexed": len(ctx.ix.files),
            },
            "assumptions": ["the parsed source is what is compiled (feature-gated items other than tests, benchmarks and try-runtime are all analysed)",
                            "functions of other crates behave as their own rules state; external crates behave as documented",
                            "integer conversions are value preserving where the source uses infallible conversions"] + pd.get("_assumptions", []),
            "wall_s": round(time.time() - t0, 3), "violations": len(bad),
        }
        json.dump(ev, open(os.path.join(ed, pid + ".json"), "w"), indent=1)
    if a.v or a.pid != "all":
        print("%s: %d obligations, %d proved, %d undecided, %d violated, %d known; %d functions, %d sites, %.1fs" % (
            pid, n, nok, len(und), len(bad), len(kn), len(ctx.fns), ctx.sites, time.time() - t0))
    if a.v:
        for k, d in und:
            print("  UNDECIDED %s :: %s" % (k, d))
    if bad:
        path = os.path.join(verif, "evidence", pid + ".violation.txt")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            for key, detail in bad:
                f.write("rule: %s\n  %s\n\n" % (key, detail))
        for key, detail in bad:
            print("  %s\n     %s" % (key, detail))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


if __name__ == "__main__":
    r = []

    def go():
        try:
            r.append(main())
        except SystemExit as e:
            r.append(e.code)
        except BaseException:
            sys.stderr.write(traceback.format_exc()[-1500:])
            r.append(3)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.exit(r[0] if r else 3)
