"""python3 tools/mutate.py CHK FILE.. : systematic single-token and single-statement mutants of the given sources (relative to /repo); lists those on which
no check selected by CHK (e.g. 'B*') raises an alarm. A survey of what the rules do not pin down, not a check."""
import os, re, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
import threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SUB = [(r"(?<![<=>!\-+*/&|])<=(?!=)", "<"), (r"(?<=\s)<(?=\s)", "<="), (r"(?<![=\-])>=", ">"), (r"(?<=\s)>(?=\s)", ">="), (r"==", "!="), (r"!=", "=="),
       (r"(?<=\s)\+(?=\s)", "-"), (r"(?<=\s)-(?=\s)", "+"), (r"(?<=\s)\*(?=\s)", "/"), (r"(?<=\s)/(?=\s)", "*"), (r"(?<=\s)\+=", "-="), (r"(?<=\s)-=", "+="),
       (r"&&", "||"), (r"\|\|(?=\s)(?<!\(\|\|)", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<=[\s(])!(?=[a-z(])", ""),
       (r"\bchecked_add\b", "checked_sub"), (r"\bchecked_sub\b", "checked_add"), (r"\bchecked_mul\b", "checked_div"), (r"\bchecked_div\b", "checked_mul"),
       (r"\bsaturating_add\b", "saturating_sub"), (r"\bsaturating_sub\b", "saturating_add"), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
       (r"\bis_some\b", "is_none"), (r"\bis_none\b", "is_some"), (r"\bis_ok\b", "is_err"), (r"\bis_err\b", "is_ok"), (r"\.any\(", ".all("), (r"\.all\(", ".any("),
       (r"\.le\(", ".lt("), (r"\.lt\(", ".le("), (r"\.ge\(", ".gt("), (r"\.gt\(", ".ge("), (r"\.eq\(", ".ne("), (r"\.ne\(", ".eq("),
       (r"\bzero\(\)", "one()"), (r"\bone\(\)", "zero()"), (r"(?<![\w.\"x])(\d+)(?![\w.\"])", None)]


def blank(src):
    """comments, strings, attributes and test modules replaced by spaces (same length)"""
    out = list(src)

    def wipe(a, b):
        for i in range(a, b):
            if out[i] != "\n":
                out[i] = " "
    for m in re.finditer(r"//[^\n]*|/\*.*?\*/|\"(?:\\.|[^\"\\])*\"", src, re.S):
        wipe(*m.span())
    s = "".join(out)
    for m in re.finditer(r"#!?\[[^\]]*\]", s):
        wipe(*m.span())
    for m in re.finditer(r"#\[cfg\((?:test|any\(test[^\]]*|feature = \"(?:std|runtime-benchmarks|try-runtime)\")[^\]]*\)\]", src):
        j = s.find("{", m.end()); k = s.find(";", m.end())
        if j < 0 or (0 <= k < j):
            continue
        d, i = 0, j
        while i < len(s):
            d += (s[i] == "{") - (s[i] == "}")
            if d == 0:
                break
            i += 1
        wipe(m.start(), i + 1)
    return "".join(out)


def bodies(b):
    r, p = [], 0
    for m in re.finditer(r"\bfn\s+\w+", b):
        if m.start() < p:
            continue
        d = 0
        for i in range(m.end(), len(b)):
            if b[i] in "([":
                d += 1
            elif b[i] in ")]":
                d -= 1
            elif b[i] == ";" and d == 0:
                break
            elif b[i] == "{" and d == 0:
                e, j = 0, i
                while j < len(b):
                    e += (b[j] == "{") - (b[j] == "}")
                    if e == 0:
                        break
                    j += 1
                r.append((m.group(0)[3:].strip(), i + 1, j))
                p = j
                break
    return r


def mutants(src):
    b = blank(src)
    out = []
    for fn, a, z in bodies(b):
        body = b[a:z]
        for pat, rep in SUB:
            for m in re.finditer(pat, body):
                t = rep if rep is not None else str(int(m.group(1)) + 1)
                out.append((fn, a + m.start(), a + m.end(), t))
        # statement deletion
        i, n = 0, len(body)
        start = 0
        d = 0
        stack = []
        st = 0
        for i, ch in enumerate(body):
            if ch in "([":
                d += 1
            elif ch in ")]":
                d -= 1
            elif ch == "{":
                stack.append((st, d)); st = i + 1; d = 0
            elif ch == "}":
                if stack:
                    st0, d = stack.pop()
                    st = st0 if d else i + 1
            elif ch == ";" and d == 0:
                txt = body[st:i + 1]
                if txt.strip() and not re.match(r"\s*(let|use|return|const|fn|break|continue)\b", txt):
                    s0 = a + st + len(txt) - len(txt.lstrip())
                    out.append((fn, s0, a + i + 1, ""))
                st = i + 1
        # argument swaps
        for m in re.finditer(r"\b\w+\(([^(),;{}]+(?:\([^(),;{}]*\))?), ([^(),;{}]+(?:\([^(),;{}]*\))?)(?=[,)])", body):
            if m.group(1).strip() != m.group(2).strip() and not re.match(r"(fn|Some|ensure)", m.group(0)):
                out.append((fn, a + m.start(1), a + m.end(2), src[a + m.start(2):a + m.end(2)] + ", " + src[a + m.start(1):a + m.end(1)]))
    return out


def main():
    chk, files = sys.argv[1], sys.argv[2:]
    only = os.environ.get("FN")
    jobs = []
    for f in files:
        src = open("/repo/" + f).read()
        for fn, a, z, t in mutants(src):
            if not only or fn in only.split(","):
                jobs.append((f, src, fn, a, z, t))
    print(len(jobs), "mutants", flush=True)
    nw = int(os.environ.get("J", "7"))
    roots = queue.Queue()
    base = tempfile.mkdtemp(prefix="mutate")
    for i in range(nw):
        d = os.path.join(base, str(i)); os.mkdir(d)
        subprocess.run("git -C /repo archive HEAD | tar x -C " + d, shell=True, check=True)
        roots.put(d)
    cnt = dict(alarm=0, undecided=0, quiet=0, none=0)

    def run(j):
        f, src, fn, a, z, t = j
        d = roots.get()
        try:
            p = os.path.join(d, f)
            open(p, "w").write(src[:a] + t + src[z:])
            o = subprocess.run(["python3", V + "/analyzer/check.py", chk, "-v", "--no-evidence", "--root", d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
            open(p, "w").write(src)
        finally:
            roots.put(d)
        k = "alarm" if "VIOLATION" in o else "none" if not re.search(r"obligations", o) else "undecided" if re.search(r"[1-9]\d* undecided", o) else "quiet"
        return k, j
    try:
        with ThreadPoolExecutor(nw) as ex:
            for k, (f, src, fn, a, z, t) in ex.map(run, jobs):
                cnt[k] += 1
                if k != "alarm":
                    ln = src.count("\n", 0, a) + 1
                    l0 = src.rfind("\n", 0, a) + 1
                    l1 = src.find("\n", a)
                    what = "delete `%s`" % re.sub(r"\s+", " ", src[a:z])[:110] if t == "" and z - a > 1 else "%s  [%s]" % (src[l0:a].strip() + "«" + src[a:z] + "→" + t + "»" + src[z:l1], "")
                    print("%-9s %s:%d %s: %s" % (k.upper(), os.path.basename(f), ln, fn, what[:190]), flush=True)
    finally:
        shutil.rmtree(base)
    print(cnt)


main()
