"""python3 tools/mkseed.py SPEC.py [ID..] : plant, confirm and record the bugs of a spec file (list SEEDS of dicts).
Each: id, property, needs, breaks, edits=[(file, old, new)], demo (rust main program), lib (default bitcoin)."""
import json, os, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/sh
# links demo.rs with the library that build.sh made and runs it; nonzero exit: the property is broken
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d)"
trap 'rm -rf "$out"' EXIT
export RUSTUP_TOOLCHAIN=nightly-2023-04-01
deps=/opt/vp/target/debug/deps
lib=""
for d in $(ls -t $deps/@NAME@-*.d); do
  if grep -q "@MARK@" "$d"; then
    r="$deps/lib$(basename "${d%.d}").rlib"
    if [ -f "$r" ]; then lib="$r"; break; fi
  fi
done
[ -n "$lib" ] || { echo "library not built"; exit 2; }
rustc --edition 2021 -A warnings -C debug-assertions=on -L dependency=$deps @EXTERN@="$lib" "$here/demo.rs" -o "$out/demo" || exit 2
"$out/demo"
'''
LIBS = {"bitcoin": ("bitcoin", "crates/bitcoin/src/parser.rs"), "interbtc_primitives": ("interbtc_primitives", "primitives/src/lib.rs"),
        "btc_swap": ("btc_swap", "btc_swap"), "hello_world": ("hello_world", "hello_world")}


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    only = sys.argv[2:]
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if False else None
    done = []
    for s in seeds:
        if only and s["id"] not in only:
            continue
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        assert not sh("git -C /repo status --porcelain").stdout.strip()
        try:
            for f, old, new in s["edits"]:
                p = os.path.join("/repo", f)
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], f, t.count(old))
                open(p, "w").write(t.replace(old, new))
            open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /repo diff").stdout)
            if "demo" in s:
                lib = s.get("lib", "bitcoin")
                name, mark = LIBS[lib]
                open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("@NAME@", name).replace("@MARK@", mark).replace("@EXTERN@", "--extern " + lib))
                open(os.path.join(d, "demo.rs"), "w").write(s["demo"])
                os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            b = sh("bash /opt/vp/build.sh")
            t = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
            o = json.load(open("/tmp/seed_out.json"))
            failed = o.get("failed", o)
            dm = sh("sh %s/demo.sh" % d, cwd="/repo")
            c = sh("python3 analyzer/check.py all --no-evidence", cwd=V)
            viol = [l.split("property=")[1].split()[0] for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            print("%s build=%d tests=%d/%s demo=%d caught_by=%s %s" % (s["id"], b.returncode, t.returncode, (len(failed) if isinstance(failed, list) else "?"), dm.returncode, viol,
                                                            "" if s["property"] in viol else "  <<< MISSED by " + s["property"]), flush=True)
            if dm.returncode == 2 or b.returncode:
                print(b.stdout[-1500:] if b.returncode else dm.stdout[-1500:])
            done.append(d)
        finally:
            sh("git -C /repo checkout -- .")
    b = sh("bash /opt/vp/build.sh")
    for d in done:
        dm = sh("sh %s/demo.sh" % d, cwd="/repo")
        if dm.returncode:
            print("CLEAN DEMO FAILS", d, dm.returncode, dm.stdout[-800:])


main()
