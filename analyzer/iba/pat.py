
"""Patterns over terms, written in the notation of terms.show().

  _            any term                 ?x   binds a term
  a::b(x, y)   call                     x.m(y)  method call           x.f   field
  c::S[k]      storage item (when c::S is one), otherwise indexing
  x is V       variant test             x#V   payload of V (x#V1 second field, x#V@f named field)
  @op(a, b)    raw term                 if c {a} else {b}
  x.{f: y}     x with field f replaced
  ..           (last argument) any further arguments
"""
import re
from itertools import permutations
from . import terms as tm
from .terms import mk, I, T, TRUE, FALSE

TOK = re.compile(r"\s*(?:(\d+(?:_\d+)*)|('(?:[^'\\]|\\.)*')|(\?[A-Za-z_]\w*)|(@[a-z_]\w*)|([A-Za-z_]\w*(?:::[A-Za-z_]\w*)*)|(\.\.|&&|\|\||==|!=|<=|>=|<<|>>|[-+*/%<>!&|^().,:\[\]{}#]))")
RAW = {"has", "late", "noovf", "len", "range", "fold", "exists", "forall", "satsub", "default", "cfg", "push", "filter", "opt", "stm", "arr", "elem",
       "first", "rev", "pow", "errof", "acc", "mut", "mres", "havoc", "tryconv", "iterst", "idx", "zip", "invoked", "loopmut", "repeat", "mapit", "cast",
       "write", "delete", "foldok", "str", "abs", "clamp", "iupd", "enumerate", "amount", "conv", "fmt"}


class PatError(Exception):
    pass


class P:
    """parser"""

    def __init__(self, text, env, ix):
        self.t, self.env, self.ix = text, env, ix
        self.toks = []
        i = 0
        while i < len(text):
            if text[i:].strip() == "":
                break
            m = TOK.match(text, i)
            if not m:
                raise PatError("bad pattern at %r in %r" % (text[i:i + 10], text))
            self.toks.append((m.lastindex, m.group(m.lastindex)))
            i = m.end()
        self.i = 0

    def peek(self):
        return self.toks[self.i][1] if self.i < len(self.toks) else None

    def kind(self):
        return self.toks[self.i][0] if self.i < len(self.toks) else None

    def next(self):
        r = self.toks[self.i]
        self.i += 1
        return r

    def eat(self, x):
        if self.peek() != x:
            raise PatError("expected %r at token %d (%r) in %r" % (x, self.i, self.peek(), self.t))
        self.i += 1

    LEV = [["||"], ["&&"], ["is", "==", "!=", "<", "<=", ">", ">="], ["|"], ["^"], ["&"], ["<<", ">>"], ["+", "-"], ["*", "/", "%"]]

    def expr(self, lev=0):
        if lev == len(self.LEV):
            return self.unary()
        a = self.expr(lev + 1)
        while self.peek() in self.LEV[lev] and self.kind() != 2:
            op = self.next()[1]
            if op == "is":
                v = self.variant(self.next()[1])
                a = tm.isv(v, a)
                continue
            b = self.expr(lev + 1)
            a = tm.binop(op, a, b)
        return a

    def variant(self, n):
        if n in ("Some", "None", "Ok", "Err"):
            return n
        if "::" in n:
            n2 = "::".join(n.split("::")[-2:])
            return n2
        raise PatError("unknown variant %s" % n)

    def unary(self):
        if self.peek() == "!":
            self.next()
            return tm.neg(self.unary())
        if self.peek() == "-" and self.kind() == 6:
            self.next()
            return tm.sub(I(0), self.unary())
        return self.post()

    def arglist(self, close):
        r = []
        while self.peek() != close:
            if self.peek() == "..":
                self.next()
                r.append(mk("wildrest", "..")) 
            else:
                r.append(self.expr())
            if self.peek() == ",":
                self.next()
            elif self.peek() != close:
                raise PatError("expected , or %s in %r at %r" % (close, self.t, self.peek()))
        self.eat(close)
        return r

    def post(self):
        a = self.prim()
        while True:
            p = self.peek()
            if p == ".":
                self.next()
                if self.peek() == "{":
                    # a.{f: x, g: y}: a with these fields replaced
                    self.next()
                    while self.peek() != "}":
                        n = self.next()[1]
                        self.eat(":")
                        a = tm.upd(a, n, self.expr())
                        if self.peek() == ",":
                            self.next()
                    self.eat("}")
                    continue
                n = self.next()[1]
                if self.peek() == "(":
                    self.next()
                    a = mk("m", n, a, *self.arglist(")"))
                else:
                    a = tm.field(a, n)
            elif p == "[":
                self.next()
                xs = self.arglist("]")
                if a.op == "load" and len(a.args) == 1:
                    a = mk("load", a.args[0], *xs)
                else:
                    a = tm.index(a, xs[0])
            elif p == "#":
                self.next()
                v = self.next()[1]
                if (self.peek() or "").startswith("@"):
                    a = tm.payload(v, self.next()[1][1:], a)
                    continue
                m = re.match(r"(.*?)(\d*)$", v)
                if "::" in v and any(v.split("::")[-1] in vs for (cr, en), vs in self.ix.enums.items() if en == v.split("::")[-2]):
                    a = tm.payload(v, 0, a)
                    continue
                a = tm.payload(m.group(1), int(m.group(2) or 0), a)
            else:
                return a

    def prim(self):
        k, x = self.next()
        if k == 1:
            return I(int(x.replace("_", "")))
        if k == 2:
            return mk("str", x[1:-1])
        if k == 3:
            return mk("wild", x[1:])
        if k == 4:
            self.eat("(")
            xs = self.arglist(")")
            if x == "@at":
                return tm.index(*xs)        # also where xs is a storage item, of which [i] would be the entry i
            return mk(x[1:], *[y.args[0] if y.op == "str" and x != "@fmt" or (y.op == "int" and x[1:] in ("havoc", "acc", "cloarg", "nth")) else y for y in xs])
        if x == "(":
            if self.peek() == ")":
                self.next()
                return tm.UNIT
            xs = [self.expr()]
            tup = False
            while self.peek() == ",":
                tup = True
                self.next()
                if self.peek() == ")":
                    break
                xs.append(self.expr())
            self.eat(")")
            return mk("tup", *xs) if tup else xs[0]
        if x == "if":
            c = self.expr()
            self.eat("{")
            a = self.expr()
            self.eat("}")
            self.eat("else")
            self.eat("{")
            b = self.expr()
            self.eat("}")
            return tm.ite(c, a, b)
        if k != 5:
            raise PatError("unexpected %r in %r" % (x, self.t))
        if x == "_":
            return mk("wild", "_")
        if x == "true":
            return TRUE
        if x == "false":
            return FALSE
        if self.peek() == "(":
            self.next()
            xs = self.arglist(")")
            if x in ("min", "max"):
                return (tm.tmin if x == "min" else tm.tmax)(*xs)
            if x == "cfg":
                return mk("cfg", str(xs[0].args[-1]))
            if x == "noovf":
                return mk("noovf", *xs)
            if x in RAW:
                return mk(x, *[y.args[0] if y.op == "int" and x in ("havoc", "acc", "cloarg") else y for y in xs])
            last = x.split("::")[-1]
            if last[0].isupper():
                v = "::".join(x.split("::")[-2:]) if "::" in x else x
                return mk("ctor", v, *xs)
            return mk("call", x, *xs)
        if self.peek() == "{" and (x.split("::")[-1][0].isupper() or x.split("::")[-2:-1] == ["Call"]):
            self.next()
            fs = {}
            rest = False
            while self.peek() != "}":
                if self.peek() == "..":
                    self.next()
                    rest = True
                else:
                    n = self.next()[1]
                    self.eat(":")
                    fs[n] = self.expr()
                if self.peek() == ",":
                    self.next()
            self.eat("}")
            nm = "::".join(x.split("::")[-2:])
            ks = tuple(sorted(fs))
            return mk("pstruct" if rest else "struct", nm, ks, *[fs[k2] for k2 in ks])
        if x in self.env:
            return self.env[x]
        if "::" in x:
            cr, n = x.split("::")[0], x.split("::")[-1]
            if (cr, n) in self.ix.storage:
                return mk("load", "%s::%s" % (cr, n))
            return mk("ctor", "::".join(x.split("::")[-2:])) if n[0].isupper() else mk("path", x)
        if x == "None":
            return tm.NONE
        if x == "self":
            return mk("p", 0, "self")
        raise PatError("unknown name %r in pattern %r" % (x, self.t))


def parse(text, env, ix):
    p = P(text, env, ix)
    r = p.expr()
    if p.i != len(p.toks):
        raise PatError("trailing tokens in pattern %r" % text)
    return r


_wild = {}


def haswild(t):
    if not isinstance(t, T):
        return False
    r = _wild.get(t.id)
    if r is None:
        r = t.op in ("wild", "wildrest", "pstruct") or any(haswild(a) for a in t.args if isinstance(a, T))
        _wild[t.id] = r
    return r


COMM = {"add", "mul", "eq", "and", "or", "min", "max", "band", "bor", "bxor"}


def match(p, t, b=None):
    """first match or None"""
    for r in matches(p, t, b or {}):
        return r
    return None


def undefault(p, t):
    """are they equal once an empty list stands for the default of its type?"""
    if p is t or p.op == "arr" and not p.args and t.op == "default" and not t.args:
        return True
    return p.op == t.op and len(p.args) == len(t.args) and all(x is y or isinstance(x, T) and isinstance(y, T) and undefault(x, y) or not isinstance(x, T) and x == y for x, y in zip(p.args, t.args))


def matches(p, t, b):
    if not isinstance(p, T) or not isinstance(t, T):
        if isinstance(p, T) and p.op == "wild" and p.args[0] in b:
            if b[p.args[0]] == t:
                yield b
        elif p == t or (isinstance(p, T) and p.op == "wild" and p.args[0] == "_"):
            yield b
        elif isinstance(p, T) and p.op == "wild" and isinstance(t, str):
            yield {**b, p.args[0]: t}
        return
    if not haswild(p):
        if p is t or undefault(p, t):
            yield b
        return
    if p.op == "wild":
        n = p.args[0]
        if n == "_":
            yield b
        elif n in b:
            if b[n] is t:
                yield b
        else:
            c = dict(b)
            c[n] = t
            yield c
        return
    if p.op == "pstruct":
        if t.op == "struct" and t.args[0] == p.args[0] and all(k in t.args[1] for k in p.args[1]):
            ps = list(p.args[2:])
            ts = [t.args[2 + t.args[1].index(k)] for k in p.args[1]]
            yield from seq(ps, ts, b)
        return
    if p.op != t.op:
        return
    pa, ta = list(p.args), list(t.args)
    if pa and isinstance(pa[-1], T) and pa[-1].op == "wildrest":
        pa = pa[:-1]
        if len(ta) < len(pa):
            return
        ta = ta[:len(pa)]
    if len(pa) != len(ta):
        return
    if p.op in COMM and len(pa) <= 6:
        # fixed parts first
        fix = [x for x in pa if not haswild(x)]
        rest = [x for x in pa if haswild(x)]
        tl = list(ta)
        for x in fix:
            if x in tl:
                tl.remove(x)
            else:
                return
        for pm in permutations(tl):
            yield from seq(rest, pm, b)
        return
    yield from seq(pa, ta, b)


def seq(ps, ts, b):
    if not ps:
        yield b
        return
    for r in matches(ps[0], ts[0], b):
        yield from seq(ps[1:], ts[1:], r)


def instantiate(p, b):
    return tm.subst(p, {mk("wild", k).id: v for k, v in b.items()}) if b else p
