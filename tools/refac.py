"""python3 tools/refac.py SPEC.py [ID..] : apply behaviour-preserving edits (REFS: id -> [(file, old, new)]) to a scratch copy of the
sources, one at a time, and report every check that raises an alarm or loses obligations."""
import os, subprocess, sys, runpy, shutil, tempfile, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def stat(out):
    r = {}
    for m in re.finditer(r"^(\w+): (\d+) obligations, (\d+) proved, (\d+) undecided, (\d+) violated", out, re.M):
        r[m[1]] = tuple(int(x) for x in m.groups()[1:])
    return r


def main():
    refs = runpy.run_path(sys.argv[1])["REFS"]
    only = sys.argv[2:]
    d = tempfile.mkdtemp(prefix="refac")
    try:
        sh("git -C /repo archive HEAD | tar x -C %s" % d)
        base = stat(sh("python3 %s/analyzer/check.py '%s' -v --no-evidence --root %s" % (V, os.environ.get("CHK", "all"), d)).stdout)
        for i, edits in refs.items():
            if only and i not in only:
                continue
            orig = {}
            for f, old, new in edits:
                p = os.path.join(d, f)
                t = open(p).read()
                orig.setdefault(p, t)
                assert t.count(old) == 1, (i, f, t.count(old), old[:60])
                open(p, "w").write(t.replace(old, new))
            o = sh("python3 %s/analyzer/check.py '%s' -v --no-evidence --root %s" % (V, os.environ.get("CHK", "all"), d)).stdout
            s = stat(o)
            al = [k for k in s if s[k][3]]
            un = ["%s %d" % (k, s[k][2]) for k in s if s[k][2]]
            print("%-28s %s%s%s" % (i, "ALARM " + " ".join(al) if al else "quiet", "  undecided: " + ", ".join(un) if un else "", "" if len(s) == len(base) else "  NO RESULT " + o[-300:]), flush=True)
            if al and (only or os.environ.get("V")):
                print(o)
            for p, t in orig.items():
                open(p, "w").write(t)
    finally:
        shutil.rmtree(d)


main()
