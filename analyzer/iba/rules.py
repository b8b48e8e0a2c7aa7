import os
"""Rule layer: obligations over function summaries, who-may relations and constant tables."""
import json, os, re, time
from . import terms as tm
from .terms import mk, T, TRUE, FALSE, I, show, contains, subterms
from .engine import Engine, Facts, EMPTY, known, parse_type, mklen
from .index import Index, AnalysisError
from . import pat
from .pat import parse, matches, match, haswild


class Missing(Exception):
    """an anchor of a rule is not there any more"""


class NoFunction(Missing):
    """the analysed function itself is gone: renamed, moved or inlined by a refactoring, so nothing is decided about it"""


PROPS = {}


def prop(pid, title=""):
    def deco(f):
        PROPS.setdefault(pid, []).append(f)
        return f
    return deco


ARITH = {"add", "sub", "mul", "div", "mod", "lt", "le", "eq", "and", "or", "not", "ite", "is", "has", "min", "max", "satsub", "noovf", "bool", "int", "str"}


def leaves(t, out=None):
    """maximal non-arithmetic subterms"""
    if out is None:
        out = set()
    if t.op in ("int", "bool", "str"):
        return out
    if t.op in ARITH:
        for a in t.args:
            if isinstance(a, T):
                leaves(a, out)
    elif t.op not in ("wild", "wildrest"):
        out.add(t)
    return out


COMMUT = {"add", "mul", "eq", "min", "max"}


def show_diff(p, t, d=0):
    """developer aid: where a pattern and a term part ways"""
    if p is t or p == t or not isinstance(p, T) or not isinstance(t, T):
        if p != t:
            print("   DIFF %r | %r" % (p, t))
        return
    if p.op == t.op and len(p.args) == len(t.args) and p.op not in ("wild", "wildrest"):
        if p.op in COMMUT and len(p.args) == 2 and isinstance(p.args[0], T) and p.args[0].op != t.args[0].op or p.op in COMMUT and p.args[0].args[:1] != t.args[0].args[:1]:
            t = mk("commuted", t.args[1], t.args[0])
        for a, b in zip(p.args, t.args):
            show_diff(a, b, d + 1)
    elif p.op not in ("wild", "wildrest"):
        print("   DIFF want %s\n        got  %s" % (show(p)[:300], show(t)[:300]))


UNCLEAR = {"exists", "forall", "fold", "opaque", "bin", "opaquecond", "choice", "foldok", "invoked", "loopmut", "mut", "cloarg", "acc"}


def assume_all(facts, cs):
    """facts extended by conditions; None when contradictory"""
    for c in cs:
        if facts is None:
            return None
        facts = facts.add(c)
    return facts


def entails(facts, p, depth=0):
    """do the must-facts entail pattern p (patterns may contain wildcards)?"""
    if p is TRUE:
        return True
    if p.op == "and":
        if all(entails(facts, x, depth) for x in p.args):
            return True
        if not haswild(p):
            return False
    if not haswild(p):
        if known(p, facts.s) is True or p in facts.ors:
            return True
        if p.op == "or":
            for o in facts.ors:
                if all(a in p.args or known(a, facts.s) is False for a in o.args):
                    return True
            # a clause follows when assuming the negation of all but one disjunct gives that disjunct
            for d in p.args:
                rest = [tm.neg(x) for x in p.args if x is not d]
                f2 = assume_all(facts, rest)
                if f2 is None or known(d, f2.s) is True:
                    return True
            return False
        # refutation: the negation contradicts the facts
        f2 = facts.add(tm.neg(p))
        if f2 is None:
            return True
        if p.op == "le" and p.args[0].op == "int" and 0 < p.args[0].args[0] <= 4 and tm.nonneg(p.args[1]) and all(
                known(tm.eq(p.args[1], tm.I(i)), facts.s) is False for i in range(p.args[0].args[0])):
            return True         # none of the smaller values
        if p.op == "le" and p.args[0].op == "int":
            for f in facts.s:       # what leaves a remainder is not smaller than it
                g = f.args[0] if f.op == "not" else f
                if g.op == "eq" and any(x.op == "mod" and x.args[0] is p.args[1] and y.op == "int" and x.args[1].op == "int" and
                                        (y.args[0] == 0 and p.args[0].args[0] <= 1 if f.op == "not" else 0 < p.args[0].args[0] <= y.args[0])
                                        for x, y in (g.args, g.args[::-1])):
                    return True
        if depth < 2 and facts.ors and by_cases(facts, p, depth):
            return True
        if depth < 2 and p.op in ("le", "lt", "eq"):
            c = next((x.args[0] for a in p.args if isinstance(a, T) for x in subterms(a) if x.op == "ite"), None)
            if c is not None:       # each of the two values
                for y in (c, tm.neg(c)):
                    f2 = facts.add(y)
                    if f2 is not None:
                        q = prune(p, f2)
                        if q is p or not entails(f2, q, depth + 1):
                            return False
                return True
        return False
    for f in facts.s:
        for _ in matches(p, f, {}):
            return True
    for f in facts.ors:
        for _ in matches(p, f, {}):
            return True
    if p.op == "or":
        for d in p.args:
            if entails(facts, d, depth + 1):
                return True
    return False


def at_the_last(f, p):
    """p bounds the counter of a loop from above: it holds if it holds for the last value"""
    if p.op not in ("lt", "le"):
        return False
    small = p.args[0].args if p.args[0].op == "add" else (p.args[0],)
    for x in small:
        if x.op == "elem" and x.args[0].op == "range" and x.args[0].args[1].op != "inf":
            rest = [y for y in small if y is not x]
            if len(rest) == len(small) - 1 and not any(contains(y, lambda z: z is x) for y in rest + [p.args[1]]):
                return entails(f, tm.subst(p, {x.id: tm.sub(x.args[0].args[1], I(1))}))
    return False


def each_listed(f, p):
    """p speaks of an element of a list that is written out: it holds for every one"""
    e = next((x for x in subterms(p) if x.op == "elem" and x.args[0].op == "arr" and 0 < len(x.args[0].args) <= 32), None)
    return e is not None and all(entails(f, tm.subst(p, {e.id: y})) for y in e.args[0].args)


def by_cases(facts, p, depth):
    """split on a disjunction that mentions the atoms of p"""
    pl = leaves(p)
    pi = {y for x in subterms(p) if x.op == "ite" for y in (x.args[0], tm.neg(x.args[0]))}      # what its values depend on
    n = 0
    for o in sorted(facts.ors, key=lambda o: len(o.args)):
        if not (leaves(o) & pl) and not any(x in pi for d in o.args for x in (d.args if d.op == "and" else (d,))):
            continue
        n += 1
        if n > 6:
            break
        ok = True
        for d in o.args:
            f2 = facts.add(d)
            if f2 is None:
                continue
            if not entails(f2, p, depth + 1) and (haswild(p) or not any(x.op == "ite" for x in subterms(p)) or not entails(f2, prune(p, f2), depth + 1)):
                ok = False
                break
        if ok:
            return True
    return False


def fknown(c, facts):
    k = known(c, facts.s)
    if k is not None:
        return k
    if c in facts.ors:
        return True
    n = tm.neg(c)
    if n in facts.ors:
        return False
    if facts.ors and c.op in ("or", "and"):
        if entails(facts, c, 2):
            return True
        if entails(facts, n, 2):
            return False
    return None


def short(x):
    """the condition says that a buffer is shorter than what is asked of it"""
    if x.op == "or":
        return all(short(y) for y in x.args)
    if x.op not in ("lt", "le") or x.args[1].op == "int":
        return False
    a = x.args[0]
    ts = a.args if a.op == "add" else (a,)
    return any(y.op == "len" for y in ts) and (x.op == "lt" or any(y.op == "int" and y.args[0] > 0 for y in ts))


def prune(t, facts, cache=None):
    """simplify a term under facts"""
    if cache is None:
        cache = {}
    if not isinstance(t, T) or not any(isinstance(a, T) for a in t.args):
        return t
    if t.id in cache:
        return cache[t.id]
    if t.op == "ite":
        k = fknown(prune(t.args[0], facts, cache), facts)
        if k is None:
            k = fknown(t.args[0], facts)
        if k is True:
            r = prune(t.args[1], facts, cache)
        elif k is False:
            r = prune(t.args[2], facts, cache)
        else:
            c = prune(t.args[0], facts, cache)
            fa, fb = facts.add(c), facts.add(tm.neg(c))
            a = prune(t.args[1], fa) if fa is not None else t.args[1]
            b = prune(t.args[2], fb) if fb is not None else t.args[2]
            r = tm.ite(c, a, b)
    else:
        na = [prune(a, facts, cache) if isinstance(a, T) else a for a in t.args]
        r = t if all(x is y for x, y in zip(na, t.args)) else tm.rebuild(t, na)
        if (tm.isbool(r) or r.op in ("call", "m")) and known(r, facts.s) is not None:
            r = tm.B(known(r, facts.s))
        if r.op == "ctor" and len(r.args) > 1 and isinstance(r.args[1], T) and r.args[1].op == "payload":
            x = r.args[1].args[-1]
            if all(a is tm.payload(r.args[0], i, x) for i, a in enumerate(r.args[1:])) and known(tm.isv(r.args[0], x), facts.s) is True:
                r = x
        if r.op in ("mapit", "fold") and known(tm.isv("Some", r.args[0]), facts.s) is not None:
            # over the at most one value of an option
            w, one = r.args[0], known(tm.isv("Some", r.args[0]), facts.s)
            m = {mk("elem", w).id: tm.payload("Some", 0, w)}
            if r.op == "mapit":
                r = mk("arr", tm.subst(r.args[1], m)) if one else mk("arr")
            elif len(r.args) == 3:
                r = tm.subst(r.args[2], {**m, mk("acc", 0, "_").id: r.args[1]}) if one else r.args[1]
        if r.op == "mut" and r.args[0] == "extend" and len(r.args) == 3 and r.args[1].op == r.args[2].op == "arr":
            r = mk("arr", *(r.args[1].args + r.args[2].args))
        if r.op in ("min", "max") and len(r.args) == 2:
            a, b = r.args
            k = known(tm.le(a, b), facts.s)
            k = not known(tm.le(b, a), facts.s) if k is None and known(tm.le(b, a), facts.s) is not None else k
            if k is not None:
                r = a if k == (r.op == "min") else b
    cache[t.id] = r
    return r


def refine(f, rounds=4):
    """rewrite facts whose conditional subterms are decided by the other facts"""
    for _ in range(rounds):
        changed = False
        ks = {}
        for x in f.s:
            if x.op == "eq":
                a, b = x.args
                if b.op == "int":
                    a, b = b, a
                if a.op == "int" and b.op in ("index", "field", "p", "payload", "len"):
                    ks[b.id] = a
        if ks:
            for x in list(f.s):
                z = x.args[0] if x.op == "not" else x
                sums = [t for t in z.args if t.op == "add"] + [t.args[1] for t in z.args if t.op == "index" and t.args[1].op == "add"] if z.op in ("eq", "le") else []
                if any(u.id in ks for t in sums for u in t.args if isinstance(u, T)):
                    g = f.add(tm.subst(x, {k: v for k, v in ks.items() if not any(t.id == k for t in z.args)}))
                    if g is None:
                        return None
                    if g.s != f.s:
                        f, changed = g, True
        for x in list(f.all()):
            if x.op == "or":
                parts = [prune_args(d, f) for d in x.args]
                r = tm.disj([TRUE if known(d, f.s) is True else FALSE if known(d, f.s) is False else d for d in parts])
            else:
                r = prune_args(x, f)
            if r is x or r is TRUE:
                continue
            g = f.add(r)
            if g is None:
                return None
            if g.s != f.s or g.ors != f.ors:
                f, changed = g, True
        if not changed:
            break
    return f


def prune_ev(x, f):
    """an event whose arguments are simplified under facts"""
    na = [prune(a, f) if isinstance(a, T) else a for a in x.args]
    return x if all(p is q for p, q in zip(na, x.args)) else tm.rebuild(x, na)


def prune_args(x, f):
    """prune below the top connective"""
    if not contains(x, lambda t: t.op == "ite"):
        return x
    na = [prune(a, f) if isinstance(a, T) else a for a in x.args]
    return x if all(p is q for p, q in zip(na, x.args)) else tm.rebuild(x, na)


def eqmap(facts):
    """representatives of the paths that the facts make equal: id -> term"""
    par = {}

    def root(x):
        while x.id in par:
            x = par[x.id]
        return x
    for f in facts.s:
        if f.op == "eq" and all(isinstance(a, T) and a.op in ("p", "field", "idx", "load", "payload", "call") for a in f.args):
            a, b = root(f.args[0]), root(f.args[1])
            if a is not b and not contains(a, lambda t: t is b) and not contains(b, lambda t: t is a):
                x, y = sorted((a, b), key=lambda t: (len(show(t)), show(t)))
                par[y.id] = x
    return {i: root(x) for i, x in par.items()}


class Ctx:
    def __init__(self, root="/repo", ix=None):
        self.root = root
        self.ix = ix or Index(root)
        self.cache = {}
        self.lost = {}  # analysed function -> private function it was to be analysed over, which is gone
        self.pid = None
        self.reset(None)

    def reset(self, pid):
        self.pid = pid
        self.obl = []  # (status, key, detail)
        self.fns = set()
        self.sites = 0
        self.paths = 0
        self.kinds = {}

    # ---- recording
    def ok(self, kind, fn, what):
        self.obl.append(("ok", "%s | %s | %s" % (fn, kind, what), ""))
        self.kinds[kind] = self.kinds.get(kind, 0) + 1

    def bad(self, kind, fn, what, detail):
        if fn.split("[")[0] in self.ix.gone:
            return self.undecided(kind, fn, what, "this private function has other parameters than it had; %s" % detail)
        if fn.split("[")[0] in self.lost:
            return self.undecided(kind, fn, what, "the private function %s is gone; %s" % (self.lost[fn.split("[")[0]], detail))
        said = what + " " + detail if kind == "anchor" else what
        for g in self.ix.gone:
            if re.search(r"\b%s\b(?!::)" % re.escape(g), said):
                # the rule speaks of a private function that is no more: it cannot tell what took its place
                return self.undecided(kind, fn, what, "the private function %s is gone; %s" % (g, detail))
        self.obl.append(("bad", "%s | %s | %s" % (fn, kind, what), detail))
        self.kinds[kind] = self.kinds.get(kind, 0) + 1

    def undecided(self, kind, fn, what, detail):
        self.obl.append(("undecided", "%s | %s | %s" % (fn, kind, what), detail))
        self.kinds[kind] = self.kinds.get(kind, 0) + 1

    def check(self, cond, kind, fn, what, detail=""):
        if cond:
            self.ok(kind, fn, what)
        else:
            self.bad(kind, fn, what, detail)
        return cond

    # ---- functions
    def summary(self, fid, opaque=(), inline=(), args=None, all_=False, sel=None, late=None):
        k = (fid, tuple(sorted(opaque)), tuple(sorted(inline)), args, sel, tuple(sorted((late or {}).items())))
        if k in self.cache:
            return self.cache[k]
        fs = [f for f in self.ix.by_id.get(fid, []) if f.body is not None]
        if sel:
            fs = [f for f in fs if (sel[1:] == (f.trait or "") if sel[0] == "=" else sel in (f.self_full or "") or sel in (f.trait or ""))]
        if not fs:
            raise NoFunction("function %s%s is not defined (with a body)" % (fid, " [%s]" % sel if sel else ""))
        f = fs[0]
        e = Engine(self.ix, opaque=opaque, inline_crates=inline)
        e.late = late or {}
        an = [a.strip() for a in args.split(",")] if args else None
        s = e.analyze(f, an)
        s.inlined = {x.stack[-1] for x in s.log if x.stack} | {f.id}
        self.cache[k] = s
        return s

    def fn(self, fid, args=None, opaque=(), inline=(), sel=None, late=None):
        s = self.summary(fid, opaque, inline, args, sel=sel, late=late)
        for g in self.ix.gone:
            if g.rsplit("::", 1)[1] in opaque:
                self.lost[fid] = g
        self.fns |= s.inlined
        self.sites += len(s.log)
        return View(self, fid if not sel else "%s[%s]" % (fid, sel), s)

    # ---- constants
    def const(self, crate, name, cont=""):
        """evaluated constant term"""
        ix = self.ix
        c = ix.consts.get((crate, cont, name))
        if c is None:
            l = [v for k, v in ix.consts.items() if k[0] == crate and k[2] == name]
            if len(l) != 1:
                raise Missing("constant %s::%s" % (crate, name))
            c = l[0]
        e = Engine(ix)
        e.crate = crate
        return e.const_val(c, name)

    def enum_is(self, crate, name, idx, why=""):
        """the variants' encoded indices (explicit codec index, else discriminant, else position) are the given ones and no two coincide"""
        ix = self.ix
        if (crate, name) not in ix.enums:
            raise Missing("enum %s::%s" % (crate, name))
        got = {}
        for i, v in enumerate(ix.enums[(crate, name)]):
            d = ix.enum_discr[(crate, name)].get(v)
            k = i
            if d is not None:
                t = Engine(ix).pure(d, None) if d[0] != "lit" else Engine(ix).lit(d)
                k = t.args[0] if t.op == "int" else None
            for a in ix.enum_attrs[(crate, name)].get(v) or ():
                m = re.match(r"codec\(index=(\d+)(?:u8)?\)", a.replace(" ", ""))
                if m:
                    k = int(m[1])
            got[v] = k
        for v, k in idx.items():
            self.check(got.get(v) == k, "encoding", "%s::%s" % (crate, name), "%s encodes as %d%s" % (v, k, "  (%s)" % why if why else ""), "found %s" % got.get(v))
        self.check(len(set(got.values())) == len(got), "encoding", "%s::%s" % (crate, name), "no two variants share an encoding", "found %s" % got)

    def fields_are(self, crate, name, fields, attrs=None, why=""):
        """the encoded field order of a struct; attrs: field -> attribute texts it must carry"""
        ix = self.ix
        if (crate, name) not in ix.structs:
            raise Missing("struct %s::%s" % (crate, name))
        got = [f for f, _ in ix.structs[(crate, name)]]
        if fields is not None:
            self.check(got == list(fields), "encoding", "%s::%s" % (crate, name), "fields encode in the order %s%s" % (", ".join(fields), "  (%s)" % why if why else ""),
                       "found %s" % ", ".join(got))
        for f, ws in (attrs or {}).items():
            a = " ".join(ix.field_attrs[(crate, name)].get(f) or ()).replace(" ", "")
            for w in ws:
                self.check(w in a, "encoding", "%s::%s" % (crate, name), "%s carries %s%s" % (f, w, "  (%s)" % why if why else ""), "found %s" % (a or "none"))

    def const_is(self, crate, name, val, cont="", why=""):
        v = self.const(crate, name, cont)
        self.check(v is I(val), "constant", "%s::%s" % (crate, name), "%s == %s%s" % (name, val, "  (%s)" % why if why else ""), "found %s" % show(v))

    def const_matches(self, crate, name, text, env=None, cont="", why=""):
        """the value of a constant or runtime parameter, functions it calls evaluated, matches a pattern"""
        v = self.const(crate, name, cont)
        ok = any(match(parse(x.strip(), dict(env or {}), self.ix), v) is not None for x in text.split(" ||| "))
        self.check(ok, "constant", "%s::%s" % (crate, name), "%s == %s%s" % (name, text[:200], "  (%s)" % why if why else ""), "found %s" % show(v)[:300])

    def norm_type(self, crate, x):
        """a type of a crate without spaces and module prefixes, the crate's aliases resolved"""
        ix = self.ix
        x = re.sub(r"\s+", "", x).replace(",>", ">").replace(",)", ")")
        for _ in range(12):
            y = re.sub(r"[A-Za-z_][\w:]*", lambda m: ix.types[(crate, m[0])].replace(" ", "") if (crate, m[0]) in ix.types and "<" not in m[0] else m[0], x)
            if y == x:
                break
            x = y
        return re.sub(r"\b(?:[a-z_]\w*::)+(?=[A-Z])", "", x.replace(",>", ">").replace(",)", ")"))

    def type_is(self, crate, name, ty, why=""):
        """a type alias of a crate is the given type, aliases resolved on both sides"""
        if (crate, name) not in self.ix.types:
            return self.undecided("wiring", "%s::%s" % (crate, name), "%s = %s" % (name, ty), "no such type")
        self.check(self.norm_type(crate, name) == self.norm_type(crate, ty), "wiring", "%s::%s" % (crate, name), "%s = %s%s" % (name, ty, "  (%s)" % why if why else ""),
                   "found %s" % self.norm_type(crate, name))

    def config_is(self, crate, trait, name, tys, of="Runtime", why=""):
        """the associated type of an implementation is one of the given types, type aliases of the crate resolved"""
        ix = self.ix
        tr = trait.replace(" ", "")
        got = [v for (c, t, b, n), v in ix.config_impls.items() if c == crate and b == of and n == name and t.replace(" ", "") == tr]
        where = "%s::%s for %s" % (crate, trait, of)
        if not got:
            return self.undecided("wiring", where, "%s = %s" % (name, tys), "no such associated type")
        def norm(x):
            return self.norm_type(crate, x)
        want = [norm(x) for x in ([tys] if isinstance(tys, str) else tys)]
        self.check(norm(got[-1]) in want, "wiring", where, "%s = %s%s" % (name, tys if isinstance(tys, str) else tys[0], "  (%s)" % why if why else ""), "found %s" % got[-1])

    # ---- raw scans (no inlining)
    def raw(self):
        if "#raw" not in self.cache:
            r = {}
            for f in self.ix.fns:
                if f.body is None:
                    continue
                e = Engine(self.ix, inline=False)
                try:
                    s = e.analyze(f)
                    r.setdefault(f.id, []).append((f, s))
                except RecursionError:
                    r.setdefault(f.id, []).append((f, None))
            self.cache["#raw"] = r
        return self.cache["#raw"]

    def callers_map(self):
        if "#callers" not in self.cache:
            m = {}
            for fid, l in self.raw().items():
                for f, s in l:
                    if s is None:
                        continue
                    for e in s.log:
                        if e.kind in ("call", "icall"):
                            m.setdefault(e.name, set()).add(fid)
            self.cache["#callers"] = m
        return self.cache["#callers"]

    def is_entry(self, fid):
        for f in self.ix.by_id.get(fid, []):
            if f.vis == "pub" or f.trait or f.is_call:
                return True
        return False

    def entries(self, fid, seen=None):
        """public functions of the same crate through which fid is reached"""
        top = seen is None
        if top:
            seen = set()
        if fid in seen:
            return set()
        seen.add(fid)
        if self.is_entry(fid):
            return {fid}
        out = set()
        cr = fid.split("::")[0]
        up = [c for c in self.callers_map().get(fid, ()) if c.split("::")[0] == cr]
        for c in up:
            out |= self.entries(c, seen)
        return out or ({fid} if top or not up else set())

    def who_writes(self, storage, ops=("write", "delete", "store")):
        """functions whose own body modifies a storage item"""
        out = {}
        for fid, l in self.raw().items():
            for f, s in l:
                if s is None:
                    continue
                for e in s.log:
                    if e.kind in ops:
                        n = e.name.split(".")[0]
                        if n == storage:
                            out.setdefault(fid, []).append(e)
        return out

    def only_writers(self, storage, allowed, ops=("write", "delete", "store"), why=""):
        """the storage item is modified only through the listed public functions"""
        if tuple(storage.split("::")) not in self.ix.storage:
            raise Missing("storage item %s" % storage)
        w = self.who_writes(storage, ops)
        allowed = set(allowed)
        n = 0
        for fid, evs in sorted(w.items()):
            self.sites += len(evs)
            self.fns.add(fid)
            if not self.is_entry(fid) and fid not in allowed and not set(self.callers_map().get(fid, ())) - {fid}:
                continue        # private and unused
            ents = self.entries(fid) - {fid} if not self.is_entry(fid) and fid not in allowed else {fid}
            ents = ents or {fid}
            badn = sorted(x for x in ents if x not in allowed)
            n += 1
            for b in badn:
                self.bad("who-may-write", b, "%s" % storage, "%s writes %s at %s, reached from %s which is not one of its writers%s" % (
                    fid, storage, evs[0].loc, b, "; " + why if why else ""))
            if not badn:
                self.ok("who-may-write", fid, storage)
        if n == 0:
            self.bad("who-may-write", storage, "some writer", "no function writes %s any more" % storage)

    def who_calls(self, name):
        return self.callers_map().get(name, set())

    def only_callers(self, name, allowed, crates=None, minimum=1, why=""):
        cs = self.who_calls(name)
        if crates:
            cs = {c for c in cs if c.split("::")[0] in crates}
        n = 0
        for c in sorted(cs):
            ents = {c} if c in allowed else (self.entries(c) if not self.is_entry(c) else {c})
            n += 1
            self.sites += 1
            for e in sorted(ents):
                self.check(e in allowed or c in allowed, "who-may-call", e, name, "%s is called from %s (entry %s), which is not one of the callers the rule allows%s" % (name, c, e, "; " + why if why else ""))
        if n < minimum:
            self.bad("who-may-call", name, "at least %d call site(s)" % minimum, "%d call sites found" % n)


def last_place(f, p):
    """a < b of a place a of a loop: it is enough for the last one"""
    if p.op != "lt":
        return False
    a, b = p.args
    own = [x for x in (a.args if a.op == "add" else (a,)) if x.op == "idx"]
    if len(own) != 1 or contains(b, lambda t: t is own[0]):
        return False
    last = tm.sub(tm.sub(a, own[0]), I(0))
    return entails(f, tm.le(tm.add(last, mklen(own[0].args[0])), b))


def small_sum(x, f):
    """x says that the sum of a small number and one known to be small overflows"""
    if x.op != "not" or x.args[0].op != "noovf" or x.args[0].args[0].op != "add":
        return False
    n = 0
    for a in x.args[0].args[0].args:
        if a.op == "int":
            n += a.args[0]
            continue
        hi = [k for k in (8, 16, 32, 64, 100) if entails(f, tm.le(a, tm.I(k)))]
        if not hi:
            return False
        n += hi[0]
    return n < 128


class View:
    """summary of one function with the rule vocabulary"""

    def __init__(self, c, fid, s):
        self.c, self.fid, self.s = c, fid, s
        self.env = {}
        for i, a in enumerate(s.args):
            self.env[a.args[1]] = a
        self.base = s.facts if s.ok else EMPTY

    def some(self):
        """from here on judge the returns that give `Some`, by what is in it (`None` is a failure)"""
        import copy
        st, r = self.s.ok
        yes, no = tm.isv("Some", r), tm.neg(tm.isv("Some", r))
        self.s = copy.copy(self.s)
        self.s.nones = [(st.facts.add(no), tm.mk("ctor", "None"))]
        f = st.facts.add(yes)
        f = f and refine(f)
        if f is None:
            self.s.ok = None
            self.base = EMPTY
            return self
        st = st.copy()
        st.facts = f
        self.s.ok = (st, prune(tm.payload("Some", 0, prune(r, f)), f))
        self.base = f
        self.__dict__.pop("_under", None)
        return self

    def p(self, text):
        return parse(text, self.env, self.c.ix) if isinstance(text, str) else text

    def let(self, name, text):
        self.env[name] = self.p(text)
        return self

    def bind(self, name, text, where="any", opt=False):
        """bind name to the unique term matching a pattern among events, facts and result"""
        p = self.p(text)
        found = self._find(p, where)
        if not found:
            if opt:
                return False
            raise Missing("%s: no term matching `%s`" % (self.fid, text))
        self.env[name] = found[0]
        return True

    def _find(self, p, where="any"):
        out = []

        def scan(t):
            for x in subterms(t):
                if x not in seen:
                    seen.add(x)
                    for _ in matches(p, x, {}):
                        out.append(x)
                        break
        seen = set()
        if where in ("any", "event"):
            for e in self.s.log:
                scan(e.term)
        if where in ("any", "result") and self.s.ok:
            scan(self.s.ok[1])
        if where in ("any", "fact") and self.s.ok:
            for f in self.base.all():
                scan(f)
        return out

    def facts_under(self, when, base=None):
        f = base if base is not None else self.base
        if when:
            ps = [self.p(w) for w in ([when] if isinstance(when, (str, T)) else when)]
            key = (f, tuple(p.id for p in ps))
            memo = self.__dict__.setdefault("_under", {})
            if key in memo:
                return memo[key]
            for p in ps:
                f = f.add(p) if f is not None else None
            if f is not None:
                f = refine(f)
            memo[key] = f
        return f

    def _unclear(self, p, facts):
        """is there a fact over the same leaves whose form the analysis does not decide?"""
        lv = leaves(p)
        if not lv:
            return None
        for f in facts.all():
            if contains(f, lambda t: t.op in UNCLEAR) and all(contains(f, lambda t, l=l: t is l) for l in lv):
                return f
        return None

    def _texts(self, x):
        return [x] if isinstance(x, (str, T)) else list(x)

    def _alts(self, x):
        return [z for y in self._texts(x) for z in (y.split(" ||| ") if isinstance(y, str) else [y])]

    # ---- obligations
    def requires(self, cond, when=None, why="", alt=()):
        """every successful return implies cond"""
        c = self.c
        if not self.s.ok:
            c.ok("must-hold", self.fid, str(cond))
            return True
        f = self.facts_under(when)
        what = "%s%s" % (cond, " when %s" % (when,) if when else "")
        if f is None:
            c.ok("must-hold", self.fid, what)
            return True
        ps = [self.p(x) for x in self._alts(cond) + self._alts(alt)]
        if any(entails(f, p) or entails(f, prune_bool(p, f)) for p in ps):
            c.ok("must-hold", self.fid, what)
            return True
        m = eqmap(f)
        if m:
            g = assume_all(Facts(), [tm.subst(x, m) for x in f.all()])
            if g is None or any(entails(g, tm.subst(p, m)) for p in ps):
                c.ok("must-hold", self.fid, what)
                return True
        u = self._unclear(ps[0], f)
        if u is not None:
            c.undecided("must-hold", self.fid, what, "only an undecided fact mentions it: %s" % show(u)[:300])
            return False
        near = [show(x)[:200] for x in f.all() if leaves(ps[0]) and leaves(ps[0]) & leaves(x)][:6]
        c.bad("must-hold", self.fid, what, "a successful return of %s (%s) does not imply `%s`%s; facts over the same values: %s" % (
            self.fid, self.where(), cond, " (%s)" % why if why else "", near or "none"))
        return False

    def rejects_only(self, conds, why=""):
        """every error exit implies one of the conditions (a failed call `x is Err` is written `!(x is Ok)`)"""
        c = self.c
        ps = [self.p(x) for x in self._texts(conds)]
        what = "fails only when %s" % " or ".join(str(x) for x in self._texts(conds))
        good = True
        for f, v in self.err_leaves():
            if entails(f, tm.disj(ps)) or any(entails(f, p) for p in ps) or any(x.op == "or" and all(any(entails(g, p) for p in ps) if (g := f.add(d)) is not None else True for d in x.args) for x in f.all()):
                c.ok("may-reject", self.fid, what)
                continue
            u = [x for x in f.all() if x.op in UNCLEAR]
            if u and not any(p.op in UNCLEAR for p in ps):
                c.undecided("may-reject", self.fid, what, show(u[0])[:200])
                continue
            good = False
            c.bad("may-reject", self.fid, what, "%s (%s) also fails (%s) where only %s is known%s" % (
                self.fid, self.where(), show(v)[:80], [show(x)[:120] for x in f.all()][:5], " (%s)" % why if why else ""))
        return good

    def err_leaves(self):
        """(facts, error value) of every error exit, split at conditional error values and disjunctive path conditions"""
        out = []

        def go(f, v, depth):
            if f is None:
                return
            if v.op == "ite" and depth < 12:
                go(f.add(v.args[0]), v.args[1], depth + 1)
                go(f.add(tm.neg(v.args[0])), v.args[2], depth + 1)
            else:
                out.append((f, v))
        for st, v in getattr(self.s.eng, "err_exits", ()):
            go(assume_all(st.facts, st.pc), v, 0)
        for f, v in getattr(self.s, "nones", ()):
            go(f, v, 0)
        return out

    def accepts(self, when, why="", explicit=False):
        """no error exit (explicit: none but propagated errors of callees and exhausted arithmetic or bounds) is compatible with the conditions"""
        c = self.c
        ps = [self.p(x) for x in self._texts(when)]
        what = "does not fail %swhen %s" % ("by itself " if explicit else "", " and ".join(str(x) for x in self._texts(when)))
        for f, v in self.err_leaves():
            if explicit and (v.op in ("errof", "tup") or v.op == "ctor" and v.args and "ArithmeticError::" in str(v.args[0]) and any(
                    x.op == "not" and x.args[0].op == "noovf" for x in f.all())):
                continue
            if explicit and any(short(x) for x in f.all()):
                continue        # more is asked for than the buffer holds
            if entails(f, tm.neg(tm.conj(ps))) or any(entails(f, tm.neg(p)) for p in ps):
                c.ok("accepts", self.fid, what)
                continue
            f = assume_all(f, ps)
            f = f and refine(f)
            eq = {x.args[1 - i].id: x.args[i] for x in ps if x.op == "eq" for i in (0, 1) if x.args[i].op == "int"}
            if f is None or any(entails(f, tm.neg(x)) or (eq and settled(x, eq) is FALSE) or small_sum(x, f) for x in f.all()):
                c.ok("accepts", self.fid, what)
                continue
            u = [x for x in f.all() if x.op in UNCLEAR]
            if u and not any(p.op in UNCLEAR for p in ps):
                c.undecided("accepts", self.fid, what, show(u[0])[:200])
                continue
            c.bad("accepts", self.fid, what, "%s (%s) fails (%s) where %s is known%s" % (
                self.fid, self.where(), show(v)[:80], [show(x)[:120] for x in f.all()][:6], " (%s)" % why if why else ""))

    def admits(self, conds, why=""):
        """nothing beyond the conditions is demanded of a successful return (for functions that panic rather than return errors)"""
        c = self.c
        if not self.s.ok:
            c.bad("accepts", self.fid, "succeeds", "%s (%s) never succeeds" % (self.fid, self.where()))
            return
        f = assume_all(Facts(), [self.p(x) for x in self._texts(conds)])
        f = f and refine(f)
        what = "succeeds whenever %s" % " and ".join(str(x) for x in self._texts(conds))
        if f is None:
            c.undecided("accepts", self.fid, what, "the conditions exclude each other")
            return
        for x in self.base.all():
            y = prune_args(x, f)
            if x.op == "noovf" or y is TRUE or entails(f, x) or entails(f, y) or y.op == "le" and entails(f, tm.eq(*y.args)):
                c.ok("accepts", self.fid, what)
            elif contains(x, lambda t: t.op in UNCLEAR):
                c.undecided("accepts", self.fid, what, show(x)[:200])
            else:
                c.bad("accepts", self.fid, what, "%s (%s) also demands %s%s" % (self.fid, self.where(), show(x)[:200], " (%s)" % why if why else ""))

    def where(self):
        return "%s:%s" % (self.s.fn.file, self.s.fn.line)

    def find_events(self, pats, alllog=False, kinds=None):
        ps = [self.p(x) for x in self._alts(pats)]
        out = []
        src = [(TRUE, e) for e in self.s.log] if alllog else list(self.s.events)
        for g, e in src:
            if kinds and e.kind not in kinds:
                continue
            for p in ps:
                b = match(p, e.term)
                if b is not None:
                    out.append((g, e, b))
                    break
        return out

    def guards(self, ev, conds, when=None, why="", minimum=1, alllog=True):
        """wherever an event matching ev happens, the conditions are known to hold"""
        c = self.c
        evs = self.find_events(ev, alllog)
        if when:
            evs = [(g, e, b) for g, e, b in evs if self.facts_under(when, e.facts) is not None]
        if len(evs) < minimum:
            c.bad("guard", self.fid, "%s happens" % self._texts(ev)[0], "no %s found in %s (%s)" % (ev, self.fid, self.where()))
            return False
        good = True
        for cond in self._texts(conds):
            alts = cond.split(" ||| ") if isinstance(cond, str) else [cond]
            for g, e, b in evs:
                what = "%s requires %s" % (self._texts(ev)[0], cond)
                f = self.facts_under(when, e.facts)
                ps = [pat.instantiate(self.p(x), b) for x in alts]
                if any(entails(f, p) for p in ps) or any(entails(f, prune(p, f)) for p in ps if contains(p, lambda t: t.op == "ite")):
                    c.ok("guard", self.fid, what)
                    continue
                u = self._unclear(ps[0], f)
                if u is not None:
                    c.undecided("guard", self.fid, what, show(u)[:300])
                    continue
                near = [show(x)[:200] for x in f.all() if leaves(ps[0]) and leaves(ps[0]) & leaves(x)][:6]
                c.bad("guard", self.fid, what, "%s at %s in %s is reached without `%s`%s; known there over the same values: %s" % (
                    show(e.term)[:160], e.loc, " > ".join(e.stack), cond, " (%s)" % why if why else "", near or "none"))
                good = False
        return good

    def no_panic(self, allow=(), arith=("-", "/", "%"), taint=(), why="malformed input must be rejected, not crash"):
        """every indexing is in bounds, every unwrap succeeds, no subtraction underflows, at every site reached from here"""
        c = self.c
        allowp = [self.p(a) for a in allow]
        taintp = [self.p(a) for a in taint]
        seen = set()
        for e in self.s.log:
            if e.kind not in ("index", "unwrap", "mayfail", "arith", "panic", "alloc") or e.facts is None:
                continue
            conds = None
            if e.kind == "index":
                a, b = e.args[0], e.args[1]
                n = mklen(a)
                if b.op == "range":
                    lo, hi = b.args[0], b.args[1]
                    conds = [tm.le(lo, n)] if hi.op == "inf" else [tm.le(lo, hi), tm.le(hi, n)]
                else:
                    conds = [tm.lt(b, n)]
            elif e.kind in ("unwrap",):
                v = e.args[0]
                conds = [tm.isv("Ok", v), tm.isv("Some", v)]
            elif e.kind == "panic":
                conds = [FALSE]
            elif e.kind == "alloc":
                if not any(contains(e.term, lambda t, p=p: pat.match(p, t) is not None) for p in taintp):
                    continue
                conds = [tm.le(e.args[0], I(1 << 20))]
            elif e.kind == "mayfail":
                if len(e.args) > 1:
                    conds = [FALSE]
                else:
                    conds = [tm.isv("Some", e.args[0])]
            else:
                a, b = e.args
                if e.name in ("+", "*") and taintp and contains(e.term, lambda t: any(pat.match(p, t) is not None for p in taintp)):
                    conds = [mk("noovf", tm.add(a, b) if e.name == "+" else tm.mul(a, b))]
                elif e.name not in arith:
                    continue
                if e.name == "-":
                    conds = [tm.le(b, a)]
                elif e.name in ("/", "%"):
                    conds = [tm.neg(tm.eq(b, I(0)))]
            key = (e.kind, e.term.id, tuple(e.stack[-1:]), e.facts)
            if key in seen:
                continue
            seen.add(key)
            if any(pat.match(p, e.term) is not None for p in allowp):
                continue
            f = refine(e.facts)
            what = "%s in %s" % (e.kind if e.kind != "arith" else "arith " + e.name, e.stack[-1] if e.stack else self.fid)
            if f is None:
                c.ok("no-panic", self.fid, what)
                continue
            if e.kind == "unwrap":
                good = any(entails(f, p) for p in conds)
            else:
                good = all(entails(f, p) or last_place(f, p) or each_listed(f, p) or at_the_last(f, p) for p in conds)
            if good:
                c.ok("no-panic", self.fid, what)
                continue
            u = next((x for x in map(lambda p: self._unclear(p, f), conds) if x is not None), None)
            if u is not None:
                c.undecided("no-panic", self.fid, what, show(u)[:300])
                continue
            c.bad("no-panic", self.fid, what, "%s at %s in %s may panic: `%s` is not known there (%s)" % (
                show(e.term)[:160], e.loc, " > ".join(e.stack), " && ".join(show(p)[:160] for p in conds), why))

    def coverage(self, evs, facts):
        g = tm.disj([g for g, e, b in evs])
        return g

    def must(self, ev, when=None, why="", where=None):
        """every successful return (under `when`) has performed an event matching ev"""
        c = self.c
        what = "%s%s" % (self._texts(ev)[0], " when %s" % (when,) if when else "")
        if not self.s.ok:
            c.ok("must-do", self.fid, what)
            return True
        f = self.facts_under(when)
        if f is None:
            c.ok("must-do", self.fid, what)
            return True
        evs = self.find_events(ev)
        if when:
            ps = [self.p(x) for x in self._alts(ev)]
            for g, e in self.s.events:
                if any(e is y for _, y, _ in evs):
                    continue
                t = prune_ev(e.term, f)
                for p in ps if t is not e.term else ():
                    b = match(p, t)
                    if b is not None:
                        evs.append((g, e, b))
                        break
        m = eqmap(f)
        if m:
            ps = [tm.subst(self.p(x), m) for x in self._alts(ev)]
            for g, e in self.s.events:
                if not any(e is y for _, y, _ in evs):
                    b = next((b for b in (match(p, tm.subst(prune_ev(e.term, f), m)) for p in ps) if b is not None), None)
                    if b is not None:
                        evs.append((g, e, b))
        if not evs:
            if os.environ.get("IBA_DIFF"):
                for p in [self.p(x) for x in self._alts(ev)]:
                    for e in [y for x in self.s.events for y in (x if isinstance(x, tuple) else [x]) if hasattr(y, 'term')]:
                        if e.term.op == p.op and len(e.term.args) == len(p.args) and e.term.args[0] == p.args[0]:
                            show_diff(p, e.term)
            c.bad("must-do", self.fid, what, "%s (%s) can succeed without %s%s" % (self.fid, self.where(), self._texts(ev)[0], " (%s)" % why if why else ""))
            return False
        gs = []
        for g, e, b in evs:
            gs.append(strip_loops(g))
        if covers(gs, f):
            c.ok("must-do", self.fid, what)
            return True
        c.bad("must-do", self.fid, what, "%s (%s) can succeed without %s%s: it happens only under %s" % (
            self.fid, self.where(), self._texts(ev)[0], " (%s)" % why if why else "", [show(g)[:200] for g in gs][:4]))
        return False

    def never(self, ev, when=None, why="", unless=None):
        c = self.c
        evs = self.find_events(ev, True)
        what = "never %s%s" % (self._texts(ev)[0], " when %s" % (when,) if when else "")
        for g, e, b in evs:
            f = self.facts_under(when, e.facts)
            if f is None:
                continue
            c.bad("must-not-do", self.fid, what, "%s at %s%s" % (show(e.term)[:200], e.loc, " (%s)" % why if why else ""))
            return False
        c.ok("must-not-do", self.fid, what)
        return True

    def order(self, first, then, why="", when=None):
        """each `then` event is preceded by a `first` event on every path"""
        c = self.c
        what = "%s before %s" % (self._texts(first)[0], self._texts(then)[0])
        fs, ts = [self.p(x) for x in self._texts(first)], [self.p(x) for x in self._texts(then)]
        evs = list(self.s.events)
        n = 0
        for j, (g2, e2) in enumerate(evs):
            b = None
            for p in ts:
                b = match(p, e2.term)
                if b is not None:
                    break
            if b is None:
                continue
            f = self.base
            f = assume_all(f, [strip_loops(g2)])
            f = self.facts_under(when, f) if f is not None else None
            if f is None:
                continue
            n += 1
            gs = []
            for i in range(j):
                g1, e1 = evs[i]
                for p in fs:
                    if match(pat.instantiate(p, b), e1.term) is not None:
                        gs.append(strip_loops(g1))
                        break
            if gs and covers(gs, f):
                c.ok("order", self.fid, what)
            else:
                c.bad("order", self.fid, what, "%s at %s is not preceded by %s%s" % (show(e2.term)[:160], e2.loc, self._texts(first)[0], " (%s)" % why if why else ""))
                return False
        if n == 0:
            c.bad("order", self.fid, what, "no %s in %s" % (self._texts(then)[0], self.fid))
            return False
        return True

    def returns(self, pats, when=None, why="", path=None):
        """the value of every successful return (under `when`) matches"""
        c = self.c
        what = "returns%s %s%s" % (" ." + path if path else "", self._texts(pats)[0], " when %s" % (when,) if when else "")
        if not self.s.ok:
            c.bad("value", self.fid, what, "never returns")
            return False
        f = self.facts_under(when)
        if f is None:
            c.bad("value", self.fid, what, "not reachable under %s" % (when,))
            return False
        r = self.s.ok[1]
        if path:
            for k in path.split("."):
                r = tm.field(r, k)
        r0 = r
        r = prune(r, f)
        for x in self._alts(pats):
            p = self.p(x)
            if match(p, r) is not None or match(p, r0) is not None or match(prune(p, f), r) is not None:
                c.ok("value", self.fid, what)
                return True
            if tm.isbool(r) and tm.isbool(p) and not haswild(p) and not contains(r, lambda t: t.op in ("exists", "forall")):
                f1, f2 = f.add(r), f.add(tm.neg(r))
                if (f1 is None or entails(f1, p)) and (f2 is None or entails(f2, tm.neg(p))):
                    c.ok("value", self.fid, what)
                    return True
        k = {b.id: a for x in f.s if x.op == "eq" for a, b in (x.args, x.args[::-1]) if tm.isint(a) and not tm.isint(b) and b.op != "len"}
        if k:       # values that are known numbers
            for x in self._alts(pats):
                if match(tm.subst(prune(self.p(x), f), k), tm.subst(r, k)) is not None:
                    c.ok("value", self.fid, what)
                    return True
        return self._badvalue(what, r, pats, why)

    def chain(self, pat, roots, var="x", when=None, why=""):
        """the returned value matches pat, and the buffer it binds was filled by writer calls only, starting from one of `roots`"""
        c = self.c
        what = "%s filled from %s only" % (pat, self._texts(roots)[0])
        f = self.facts_under(when)
        if not self.s.ok or f is None:
            c.bad("value", self.fid, what, "never returns")
            return False
        r = prune(self.s.ok[1], f)
        m = match(self.p(pat), r)
        if m is None:
            return self._badvalue(what, r, pat, why)
        ps = [self.p(x) for x in self._texts(roots)]
        todo, seen = [m[var]], set()
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            if any(match(p, t) is not None for p in ps):
                continue
            if t.op == "havoc" and t.args[0].op in ("m", "call"):
                i = t.args[1] if isinstance(t.args[1], int) else t.args[1].args[0]
                todo.append(t.args[0].args[1 + i])
            elif t.op == "mut":
                todo.append(t.args[1])
            elif t.op == "field" and t.args[1] == "bytes":
                todo.append(t.args[0])
            elif t.op in ("fold", "foldok"):
                todo.append(t.args[1])
            elif t.op == "push":
                todo.append(t.args[0])
            elif t.op == "ite":
                todo += [t.args[1], t.args[2]]
            else:
                return self._badvalue(what, t, pat, why)
        c.ok("value", self.fid, what)
        return True

    def covers(self, heads, templates, why=""):
        """a success implies (at least) one of the templates: assuming the negation of each leaves no successful path"""
        c = self.c
        what = "succeeds only for %s" % ", ".join(heads)
        if not self.s.ok:
            c.bad("must-hold", self.fid, what, "never returns")
            return False
        ps = [[self.p(x) for x in cs] for cs in templates]
        import itertools
        for pick in itertools.product(*ps):
            f = self.base
            for x in pick:
                f = f.add(tm.neg(x)) if f is not None else None
            if f is not None:
                f = refine(f)
            if f is None:
                continue
            r = prune(self.s.ok[1], f)
            if r.op == "ite" or contains(r, lambda t: t.op in UNCLEAR):
                continue
            c.bad("must-hold", self.fid, what, "%s (%s) also succeeds when none of them applies, e.g. with %s: returns %s%s" % (
                self.fid, self.where(), ", ".join(show(tm.neg(x)) for x in pick), show(r)[:200], " (%s)" % why if why else ""))
            return False
        c.ok("must-hold", self.fid, what)
        return True

    def field_of_result(self, path):
        r = self.s.ok[1]
        for k in path.split("."):
            r = tm.field(r, k)
        return r

    def final(self, arg, path=None):
        """value of a (mutable) parameter at a successful return"""
        for i, a in enumerate(self.s.args):
            if a.args[1] == arg:
                pat = self.s.fn.params[i][0]
                n = pat[1] if pat[0] == "pid" else arg
                t = self.s.ok[0].env.get(n, a) if self.s.ok else a
                for k in (path.split(".") if path else ()):
                    t = tm.field(t, k)
                return t
        raise Missing("%s: parameter %s" % (self.fid, arg))

    def ends(self, arg, path, pats, when=None, why=""):
        """the final value of arg.path matches"""
        t = self.final(arg, path)
        f = self.facts_under(when)
        what = "finally %s%s is %s%s" % (arg, "." + path if path else "", self._texts(pats)[0], " when %s" % (when,) if when else "")
        if f is None:
            self.c.bad("value", self.fid, what, "no successful path under %s" % (when,))
            return False
        r = prune(t, f)
        for x in self._alts(pats):
            p = self.p(x)
            if match(p, r) is not None or match(p, t) is not None or match(prune(p, f), r) is not None:
                self.c.ok("value", self.fid, what)
                return True
        return self._badvalue(what, r, pats, why)

    def _badvalue(self, what, r, pats, why):
        if os.environ.get("IBA_DIFF"):
            for x in self._alts(pats):
                show_diff(self.p(x), r)
        if contains(r, lambda t: t.op in ("opaque", "opaquecond", "choice")):
            self.c.undecided("value", self.fid, what, show(r)[:300])
            return False
        self.c.bad("value", self.fid, what, "%s (%s) returns %s%s" % (self.fid, self.where(), show(r)[:500], " (%s)" % why if why else ""))
        return False

    def value(self, name, pats, when=None, why=""):
        """a bound term equals one of the patterns"""
        t = self.env[name] if isinstance(name, str) else name
        f = self.facts_under(when)
        r = prune(t, f)
        what = "%s is %s" % (name, self._texts(pats)[0])
        for x in self._alts(pats):
            p = self.p(x)
            if match(p, r) is not None or match(p, t) is not None:
                self.c.ok("value", self.fid, what)
                return True
        return self._badvalue(what, r, pats, why)

    def parses(self, start, spec, why="", fn="bitcoin::BytesParser::parse", stop=True, probe=False):
        """the cursor starting at `start` is read by exactly this sequence of parse calls. Items: "name" (one value), "name with X" (parse_with),
        "name * N" (N values in a loop). probe: report nothing when it does not match. Binds every name to the value read and `name.at` style cursors as CUR after the item."""
        c = self.c
        cur = self.p(start)
        what = "reads %s" % ", ".join(spec)
        calls = [(g, e) for g, e in self.s.events if e.kind == "call" and (e.name == fn or e.name == fn + "_with")]
        used = set()
        for it in spec:
            n = it.split()[0]
            arg = self.p(it.split(" with ")[1]) if " with " in it else None
            if " * " in it:
                N = self.p(it.split(" * ")[1])
                rng = mk("range", I(0), N)
                pt = mk("call", fn, mk("acc", 0, mk("wild", "_")))
                hit = None
                for g, e in calls:
                    if match(pt, e.term) is not None and contains(g, lambda t: t.op == "loop" and t.args[0] is rng):
                        hit = e
                        break
                if hit is None:
                    if probe:
                        return False
                    c.bad("sequence", self.fid, what, "%s (%s): %s is not read %s times%s" % (self.fid, self.where(), n, show(N)[:80], " (%s)" % why if why else ""))
                    return False
                used.add(id(hit))
                self.env[n] = hit.term
                self.env[n + "R"] = rng
                cur = mk("fold", rng, cur, mk("havoc", mk("call", fn, mk("acc", 0, "_")), 0))
                continue
            t = mk("call", fn, cur) if arg is None else mk("call", fn + "_with", cur, arg)
            hit = [(g, e) for g, e in calls if match(t, e.term) is not None]
            if not hit:
                if probe:
                    return False
                c.bad("sequence", self.fid, what, "%s (%s): %s is not read where it is due%s; reads there: %s" % (
                    self.fid, self.where(), it, " (%s)" % why if why else "", [show(e.term)[:120] for g, e in calls if id(e) not in used][:2]))
                return False
            used.add(id(hit[0][1]))
            t = hit[0][1].term
            self.env[n] = t
            cur = mk("havoc", t, 0)
            self.env["CUR"] = cur
        if stop and len(calls) != len(used):
            if probe:
                return False
            extra = [e for g, e in calls if id(e) not in used]
            c.bad("sequence", self.fid, what, "%s (%s): also reads %s%s" % (self.fid, extra[0].loc, show(extra[0].term)[:160], " (%s)" % why if why else ""))
            return False
        c.ok("sequence", self.fid, what)
        return True

    def builds(self, spec, when=None, path="bytes", why=""):
        """the returned buffer is exactly the concatenation of the given parts"""
        c = self.c
        what = "builds %s%s" % (", ".join(str(x) for x in spec), " when %s" % (when,) if when else "")
        f = self.facts_under(when)
        if not self.s.ok or f is None:
            c.bad("sequence", self.fid, what, "never returns")
            return False
        r = self.s.ok[1]
        for k in path.split(".") if path else ():
            r = tm.field(r, k)
        r = prune(r, f)
        got = byteseq(r)
        if got is None and len(spec) > 1 and any(match(plain(self.p(y)), plain(r)) is not None for x in spec for y in x.split(" ||| ")):
            got = [r]       # one of the parts alone
        if got is None:
            c.undecided("sequence", self.fid, what, "a buffer of a form the rule does not interpret: %s" % show(r)[:300])
            return False
        got = [plain(prune(x, f)) for x in got]
        if any(x.op == "arr" for x in got) and not any("@arr" in x for x in spec):
            got = [y for x in got for y in (x.args if x.op == "arr" else [x])]
        alts = [[plain(self.p(y)) for y in x.split(" ||| ")] for x in spec]
        if len(got) != len(spec) or not all(any(match(a, v) is not None or match(plain(prune(a, f)), v) is not None for a in al) for al, v in zip(alts, got)):
            c.bad("sequence", self.fid, what, "%s (%s) builds %s%s" % (self.fid, self.where(), ", ".join(show(x)[:120] for x in got), " (%s)" % why if why else ""))
            return False
        c.ok("sequence", self.fid, what)
        return True

    EMIT = ("try_format", "write", "append", "extend_from_slice", "extend", "push", "input", "update")

    def emitted(self, names=("try_format", "write")):
        """(gate, event, value) for every event that hands bytes to a writer"""
        out = []
        for g, e in self.s.events:
            t = e.term
            if e.kind not in ("mcall", "call"):
                continue
            if t.op == "m" and t.args[0] in names:
                n = t.args[0]
                v = t.args[1] if n == "try_format" else (t.args[2] if len(t.args) > 2 else None)
            elif t.op == "call" and t.args[0].split("::")[-1] in names and len(t.args) > 2:
                n = t.args[0].split("::")[-1]
                v = t.args[1] if n == "try_format" else t.args[2]
            else:
                continue
            if v is not None:
                out.append((g, e, v))
        return out

    def emits(self, spec, when=None, why="", names=("try_format", "write"), only=None):
        """the exact sequence of values handed to the writer, in order. "each X" stands for X inside a loop, "raw X" for a byte string
        without its length, "framed X" for a vector preceded by its length"""
        c = self.c
        what = "writes %s%s" % (", ".join(str(x) for x in spec), " when %s" % (when,) if when else "")
        f = self.facts_under(when)
        if f is None or not self.s.ok:
            c.bad("sequence", self.fid, what, "not reachable")
            return False
        return self._emits(spec, f, what, why, names, 4)

    def _emits(self, spec, f, what, why, names, splits):
        c = self.c
        got = []
        evs = list(unrolled(self.emitted(names)))
        scratch = {}        # what was written to a buffer that is then written itself
        for g, e, v in evs:
            if e.term.args[0].split("::")[-1] == "write":
                for x in (v, prune(v, f)):
                    for y in fills(x):
                        scratch[y.id] = None
        for g, e, v in evs:
            if scratch and e.term.id in scratch:
                scratch[e.term.id] = e
                continue
            lp = g.op == "loop" or (g.op == "and" and any(x.op == "loop" for x in g.args))
            gg = prune_bool(strip_loops(g), f)
            if gg is not TRUE:
                if gg is FALSE or entails(f, tm.neg(gg)):
                    continue
                if not entails(f, gg):
                    k = threshold(gg)
                    if k is not None and splits:        # both sides of a bound on one number are possible
                        for h in (assume_all(f, [k]), assume_all(f, [tm.neg(k)])):
                            if h is not None and not self._emits(spec, h, what, why, names, splits - 1):
                                return False
                        return True
                    c.undecided("sequence", self.fid, what, "write of %s depends on %s" % (show(v)[:100], show(gg)[:200]))
                    return False
            pv = plain(prune(v, f))
            if pv.op == "elem" and pv.args[0].op == "arr" and not pv.args[0].args:
                continue
            if pv.op == "elem" and pv.args[0].op == "mapit":
                pv = pv.args[0].args[1]
            if pv.op == "arr" and not pv.args and e.term.args[0].split("::")[-1] == "write":
                continue
            if pv.op in ("mut", "push", "havoc") and e.term.args[0].split("::")[-1] == "write" and not lp:
                bs = byteseq(pv)
                if bs is not None and len(bs) > 1:
                    by = {plain(x.term.args[1]).id: x for x in scratch.values() if x is not None and x.term.args[0].split("::")[-1] == "try_format"}
                    got.extend((lp, plain(y), by.get(plain(y).id) or Written(e)) for y in bs)
                    continue
            if pv.op == "arr" and e.term.args[0].split("::")[-1] == "write":
                got.extend((lp, plain(y), e) for y in pv.args)      # a literal byte string is its bytes
            else:
                got.append((lp, pv, e))
        i = 0
        for x in spec:
            each = isinstance(x, str) and x.startswith("each ")
            y = x[5:] if each else x
            fr = y.split()[0] if y.split()[0] in ("raw", "framed") else None
            alts = [plain(self.p(y)) for y in (y[len(fr):] if fr else y).split(" ||| ")]
            if i >= len(got):
                c.bad("sequence", self.fid, what, "%s (%s): nothing is written where %s is due%s" % (self.fid, self.where(), x, " (%s)" % why if why else ""))
                return False
            lp, v, e = got[i]
            if e.kind and not lp and e.term.args[0].split("::")[-1] == "try_format" and any(a.op == "struct" and a.args[0] == "CompactUint" for a in alts):
                got[i:i + 1] = self.unframed(lp, v, e, alts)        # a vector writes its length, then its elements
                lp, v, e = got[i]
            if lp != each or not any(match(a, v) is not None or match(plain(prune(a, f)), v) is not None for a in alts):
                c.bad("sequence", self.fid, what, "%s (%s): writes %s%s where %s is due%s" % (
                    self.fid, e.loc, show(v)[:200], " in a loop" if lp else "", x, " (%s)" % why if why else ""))
                return False
            n = e.term.args[0].split("::")[-1] if e.kind else "write"
            is_ = "raw" if n == "write" else self.s.eng.framing.get(e.term.id)
            if fr and is_ and fr != is_:
                c.bad("sequence", self.fid, what, "%s (%s): writes %s %s its length where it is due %s it%s" % (
                    self.fid, e.loc, show(v)[:200], "without" if is_ == "raw" else "with", "with" if is_ == "raw" else "without", " (%s)" % why if why else ""))
                return False
            i += 1
        if i < len(got):
            c.bad("sequence", self.fid, what, "%s (%s): also writes %s%s" % (self.fid, got[i][2].loc, show(got[i][1])[:200], " (%s)" % why if why else ""))
            return False
        c.ok("sequence", self.fid, what)
        return True

    def unframed(self, lp, v, e, alts):
        """the length and the raw parts that formatting a byte vector writes"""
        is_ = self.s.eng.framing.get(e.term.id)
        if is_ == "raw" or is_ is None and v.op != "mut":
            return [(lp, v, e)]
        parts, x = [], v
        while x.op == "mut" and x.args[0] == "extend" and len(x.args) == 3:
            parts.insert(0, x.args[2])
            x = x.args[1]
        parts.insert(0, x)
        sums = [tm.I(0)]
        for y in parts:
            z = plain(y)
            sums = [tm.add(s, mk("len", k)) for s in sums for k in {y, z, mk("field", z, "bytes")}]
        for s in sums:
            w = mk("struct", "CompactUint", ("value",), s)
            if any(match(a, w) is not None for a in alts):
                raw = Written(e)
                return [(lp, w, raw)] + [(lp, plain(y), raw) for y in parts]
        return [(lp, v, e)]

    def breaks(self, loop, conds, why="", minimum=0):
        """every early exit of a matching loop implies one of the conditions"""
        c, lp = self.c, self.p(loop)
        ps = [self.p(x) for x in self._texts(conds)]
        what = "%s is left early only when %s" % (loop, " or ".join(str(x) for x in self._texts(conds)))
        seen, good = set(), True
        for g, e in self.s.events:
            for x in subterms(g):
                if x.op == "exists" and x not in seen and match(lp, x.args[0]) is not None:
                    seen.add(x)
                    for k in (x.args[1].args if x.args[1].op == "or" else (x.args[1],)):
                        f = assume_all(EMPTY, [k])
                        if f is None or any(entails(f, p) for p in ps) or entails(f, tm.disj(ps)):
                            c.ok("loop-exit", self.fid, what)
                            continue
                        good = False
                        c.bad("loop-exit", self.fid, what, "%s (%s) also leaves the loop under %s%s" % (self.fid, self.where(), show(k)[:300], " (%s)" % why if why else ""))
        if len(seen) < minimum:
            c.check(False, "loop-exit", self.fid, what, "%s (%s) has no early exit of that loop%s" % (self.fid, self.where(), " (%s)" % why if why else ""))
        return good

    def writes_only(self, allowed, why=""):
        """all storage effects of the function (and what it inlines) are in the list"""
        c = self.c
        for e in self.s.log:
            if e.kind in ("write", "delete", "store"):
                what = "writes only %s" % ", ".join(sorted(allowed))
                base = e.name
                ok = base in allowed or base.split(".")[0] in allowed
                c.check(ok, "effect", self.fid, "%s" % base, "%s modifies %s at %s%s" % (self.fid, base, e.loc, " (%s)" % why if why else ""))
        return True

    def count(self, ev, n, why=""):
        k = len({(e.loc, e.stack) for g, e, b in self.find_events(ev, True)})
        self.c.check(k == n, "count", self.fid, "%s occurs %d time(s)" % (self._texts(ev)[0], n), "%d call sites%s" % (k, " (%s)" % why if why else ""))


def threshold(g):
    """a comparison of an unknown number with a constant on which the condition depends"""
    for x in subterms(g):
        if x.op in ("lt", "le", "eq") and len(x.args) == 2 and all(isinstance(y, T) for y in x.args):
            a, b = x.args
            if (a.op == "int") != (b.op == "int") and (b if a.op == "int" else a).op in ("param", "field", "sym", "var"):
                return x
    return None


def settled(x, eq):
    """x under the equations, also those about places the equations settle"""
    for _ in range(3):
        y = tm.subst(x, eq)
        if y is x:
            break
        x = y
    return x


class Written:
    """part of what a call writes"""
    kind = None

    def __init__(self, e):
        self.term, self.loc = e.term, e.loc


def plain(v):
    """the bytes a value stands for, without views and wrappers"""
    while isinstance(v, T):
        if v.op == "field" and v.args[1] in ("content", "bytes"):
            v = v.args[0]
        elif v.op == "m" and v.args[0] in ("to_le_bytes", "as_bytes", "to_bytes_le", "as_ref", "to_vec", "as_slice", "clone", "to_fixed_bytes", "as_fixed_bytes"):
            v = v.args[1]
        elif v.op == "index" and v.args[0].op == "m" and v.args[0].args[0] == "to_le_bytes" and v.args[1].op == "range" and v.args[1].args[0] is tm.I(0) and v.args[1].args[1] in [tm.I(k) for k in (1, 2, 4, 8)]:
            # the low bytes of a number (there are none above eight)
            k = v.args[1].args[1].args[0]
            v = v.args[0].args[1] if k == 8 else mk("cast", "u%d" % (8 * k), v.args[0].args[1])
        elif v.op == "struct" and v.args[0] in ("H256Le", "Script") and len(v.args) == 3:
            v = v.args[2]
        elif v.op == "ite":
            return tm.ite(v.args[0], plain(v.args[1]), plain(v.args[2]))
        elif v.op == "struct" and len(v.args) > 2:
            return mk("struct", v.args[0], v.args[1], *[plain(x) for x in v.args[2:]])
        else:
            break
    return v


def byteseq(t):
    """the parts a byte buffer was filled with, in order (None: not understood)"""
    if t.op == "field" and t.args[1] in ("bytes", "content"):
        return byteseq(t.args[0])
    if t.op == "struct" and len(t.args) == 3:
        return byteseq(t.args[2])
    if t.op == "arr":
        return list(t.args)
    if t.op == "push":
        b = byteseq(t.args[0]) or plainseq(t.args[0])
        return None if b is None else b + [t.args[1]]
    if t.op == "mut" and t.args[0] in ("extend_from_slice", "extend", "append", "push", "write") and len(t.args) == 3:
        b = byteseq(t.args[1]) or plainseq(t.args[1])
        return None if b is None else b + (list(t.args[2].args) if t.args[2].op == "arr" else [t.args[2]])
    if t.op == "havoc":
        x = t.args[0]
        i = t.args[1] if isinstance(t.args[1], int) else t.args[1].args[0]
        n = x.args[0].split("::")[-1] if x.op in ("m", "call") else None
        if n == "try_format" and i == 1:
            b = byteseq(x.args[2])
            return None if b is None else b + [x.args[1]]
        if n in ("write", "extend_from_slice", "extend") and i == 0 and len(x.args) > 2:
            b = byteseq(x.args[1])
            return None if b is None else b + [x.args[2]]
    return None


def fills(t):
    """the formatting calls that filled a byte buffer"""
    out = []
    while True:
        if t.op == "push" or t.op == "mut" and len(t.args) == 3:
            if t.op == "mut" and t.args[0] == "write":
                out.append(mk("m", "write", t.args[1], t.args[2]))
            t = t.args[0] if t.op == "push" else t.args[1]
        elif t.op == "havoc" and t.args[0].op in ("m", "call") and len(t.args[0].args) > 2:
            x = t.args[0]
            n = x.args[0].split("::")[-1]
            if n not in ("try_format", "write", "extend_from_slice", "extend"):
                return out
            out.append(x)
            t = x.args[2] if n == "try_format" else x.args[1]
        else:
            return out


def unrolled(evs):
    """the events of loops over a literal array, once for each of its elements"""
    i = 0
    while i < len(evs):
        g, e, v = evs[i]
        lp = literal_loop(g)
        if lp is None:
            yield evs[i]
            i += 1
            continue
        j = i
        while j < len(evs) and literal_loop(evs[j][0]) is lp:
            j += 1
        for x in lp.args[0].args:
            for g2, e2, v2 in evs[i:j]:
                g3 = TRUE if g2.op == "loop" else tm.conj([y for y in g2.args if y is not lp])
                m = {mk("elem", lp.args[0]).id: x}
                yield tm.subst(g3, m), e2, tm.subst(v2, m)
        i = j


def literal_loop(g):
    ls = [y for y in ((g,) if g.op == "loop" else g.args if g.op == "and" else ()) if y.op == "loop"]
    return ls[0] if len(ls) == 1 and ls[0].args[0].op == "arr" and 0 < len(ls[0].args[0].args) <= 8 else None


def plainseq(t):
    """a buffer that starts as a copy of a given value"""
    if t.op == "arr" and not t.args:
        return []
    return [t] if t.op in ("var", "field", "m", "call", "index", "payload") else None


def strip_loops(g):
    """drop loop-membership markers from a gate"""
    if g.op == "loop":
        return TRUE
    if g.op == "and":
        return tm.conj([x for x in g.args if x.op != "loop"])
    return g


def covers(gs, facts, depth=0):
    """do the facts imply the disjunction of gates?"""
    g = tm.disj([prune_bool(x, facts) for x in gs])
    if g is TRUE:
        return True
    if g is FALSE:
        return False
    if entails(facts, g):
        return True
    if depth > 7:
        return False
    # case split on an atom of the gates
    atoms = []

    def at(x):
        if x.op in ("and", "or"):
            for y in x.args:
                at(y)
        elif x.op == "not":
            at(x.args[0])
        elif x not in atoms:
            atoms.append(x)
    at(g)
    for a in atoms[:1]:
        f1, f2 = facts.add(a), facts.add(tm.neg(a))
        return (f1 is None or covers(gs, f1, depth + 1)) and (f2 is None or covers(gs, f2, depth + 1))
    return False


def prune_bool(g, facts):
    k = known(g, facts.s)
    if k is not None:
        return tm.B(k)
    if g.op == "and":
        return tm.conj([prune_bool(x, facts) for x in g.args])
    if g.op == "or":
        return tm.disj([prune_bool(x, facts) for x in g.args])
    if contains(g, lambda t: t.op == "ite"):
        r = prune_args(g, facts) if g.op != "not" else tm.neg(prune_args(g.args[0], facts))
        return r if r is g else prune_bool(r, facts)
    return g
