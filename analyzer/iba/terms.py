"""Hash-consed terms with normalising constructors (value numbering)."""


class T:
    __slots__ = ("op", "args", "id", "_s", "leaves")

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def gathered(b, x):
    """the elements of a list at consecutive places, one by one -> that part of the list"""
    xs, i = x.args
    el, n = mk("elem", b), mk("len", b)
    own = [mk("idx", b)]
    if b.op == "range" and b.args[0].op == "int" and b.args[0].args[0] == 0:
        own.append(el)
        n = b.args[1]
    parts = list(i.args) if i.op == "add" else [i]
    at = [p for p in parts if p in own]
    if len(at) != 1:
        return None
    parts.remove(at[0])
    bad = set(own) | {el}
    if any(t in bad for p in parts + [xs] for t in subterms(p)):
        return None
    lo = mk("int", 0)
    for p in parts:
        lo = add(lo, p)
    return index(xs, mk("range", lo, add(lo, n)))


def mk(op, *args):
    if op == "mut" and len(args) == 3 and args[0] in ("append", "extend_from_slice"):
        args = ("extend",) + args[1:]
    if op == "mut" and len(args) == 3 and args[0] == "extend" and args[1].op == "arr" and not args[1].args:
        return args[2]
    k = (op,) + tuple((a.id if isinstance(a, T) else ("#", a)) for a in args)
    t = _tab.get(k)
    if t is None:
        if op == "len" and args[0].op in ("arr", "repeat"):
            r = mk("int", len(args[0].args)) if args[0].op == "arr" else args[0].args[1]
            _tab[k] = r
            return r
        if op == "len" and args[0].op == "call" and args[0].args[0] == "Sha256::digest":
            return mk("int", 32)
        if op == "call" and len(args) == 2 and args[0] in ("U256::from_little_endian", "U256::from_big_endian") and args[1].op == "rev":
            return mk("call", "U256::from_big_endian" if args[0] == "U256::from_little_endian" else "U256::from_little_endian", args[1].args[0])
        if op == "len" and args[0].op == "iupd" and args[0].args[0].op in ("arr", "repeat"):
            return mk("len", args[0].args[0])
        if op == "call" and len(args) == 2 and args[0] in LE_BYTES and args[1].op == "arr" and len(args[1].args) == LE_BYTES[args[0]] and all(
                x.op == "index" and x.args[0] is args[1].args[0].args[0] and x.args[1] is mk("int", i) for i, x in enumerate(args[1].args)) and \
                mk("len", args[1].args[0].args[0]) is mk("int", len(args[1].args)):
            return mk("call", args[0], args[1].args[0].args[0])     # all of its elements in order
        if op == "call" and len(args) == 2 and args[0] in LE_BYTES and args[1].op == "arr" and len(args[1].args) == LE_BYTES[args[0]] and all(
                x.op == "index" and x.args[0] is args[1].args[0].args[0] for x in args[1].args):
            i0 = args[1].args[0].args[1]        # consecutive elements
            if all(x.args[1] is add(i0, mk("int", i)) for i, x in enumerate(args[1].args)):
                return mk("call", args[0], mk("index", args[1].args[0].args[0], mk("range", i0, add(i0, mk("int", len(args[1].args))))))
        if op == "call" and len(args) == 2 and args[0] in LE_BYTES and args[1].op in ("iupd",):
            r = _filled(args[1], LE_BYTES[args[0]])
            if r is not None:
                return mk("call", args[0], mk("arr", *r))
            r = le_bytes(*args)
            if r is not None:
                _tab[k] = r
                return r
        if op == "cast" and args[1].op == "mul" and any(isint(x) and x.args[0] >= 256 and x.args[0] & (x.args[0] - 1) == 0 for x in args[1].args):
            # the low bits of a shifted number are those of its low bits, shifted
            c = [x for x in args[1].args if isint(x)]
            xs = [x for x in args[1].args if not isint(x)]
            r = mul(mk("cast", args[0], xs[0] if len(xs) == 1 else mk("mul", *xs)), c[0])
            _tab[k] = r
            return r
        if op == "iupd" and len(args) == 3 and args[1].op == "range" and args[1].args[0].op == "int" and args[1].args[0].args[0] == 0 and (
                args[1].args[1].op == "inf" or args[1].args[1] is mk("len", args[0])):
            return args[2]
        if op == "filter" and len(args) == 2 and args[0].op == "mapit" and not contains(args[1], lambda x: x is args[0]):
            # chosen by what was mapped: choose first
            b = args[0].args[0]
            return mk("mapit", mk("filter", b.args[0], conj([b.args[1], args[1]])) if b.op == "filter" else mk("filter", b, args[1]), args[0].args[1])
        if op == "mapit" and len(args) == 2 and args[0].op == "rev" and args[1].op == "elem" and args[1].args[0] is args[0].args[0]:
            return args[0]
        if op == "mapit" and len(args) == 2 and args[1].op == "index" and args[1].args[1].op in ("add", "elem", "idx"):
            r = gathered(*args)
            if r is not None:
                _tab[k] = r
                return r
        g = GETTER.get(args[0]) if op in ("m", "call") and len(args) == 2 and isinstance(args[0], str) else None
        if g:
            r = args[1]
            for x in g:
                r = field(r, x)
            _tab[k] = r
            return r
        t = T()
        t.op = op
        t.args = args
        _n[0] += 1
        t.id = _n[0]
        t._s = None
        t.leaves = None
        _tab[k] = t
    return t


# accessors of vault identifiers; rule P04 (primitives) shows that they return these fields
ZERO_DEFAULT = {"u8", "u16", "u32", "u64", "u128", "usize", "U256", "Balance", "AssetBalance"}     # X::default() is zero
GETTER = {n: ("currencies", f) for f in ("wrapped", "collateral") for n in (f + "_currency", "interbtc_primitives::VaultId::%s_currency" % f)}
LE_BYTES = {"%s%d::from_le_bytes" % (s, 8 * n): n for s in "iu" for n in (1, 2, 4, 8, 16)}


def _filled(b, n):
    """the elements of an array of which every one was assigned, or None"""
    got = {}
    while b.op == "iupd" and isint(b.args[1]):
        got.setdefault(b.args[1].args[0], b.args[2])
        b = b.args[0]
    return [got[i] for i in range(n)] if b.op in ("arr", "repeat") and sorted(got) == list(range(n)) else None


def le_bytes(name, b):
    """a zeroed little-endian buffer whose first k bytes are x holds the k-byte integer x"""
    z, at, x = b.args
    if z.op == "repeat" and z.args[0].op == "int" and z.args[0].args[0] == 0 and at.op == "range" and at.args[0].op == "int" and at.args[0].args[0] == 0 and \
            at.args[1].op == "int" and at.args[1].args[0] in (2, 4, 8) and z.args[1].op == "int" and at.args[1].args[0] <= z.args[1].args[0] == LE_BYTES[name] and name.startswith("u"):
        return mk("call", "u%d::from_le_bytes" % (8 * at.args[1].args[0]), x)
    return None


TRUE = mk("bool", True)
FALSE = mk("bool", False)
UNIT = mk("tup")
NONE = mk("ctor", "None")


def I(n):
    return mk("int", n)


def B(b):
    return TRUE if b else FALSE


def isint(t):
    return t.op == "int"


def order(xs):
    return sorted(xs, key=lambda t: t.id)


# ---------------------------------------------------------------- arithmetic
def add(a, b):
    terms = []
    c = 0

    def go(t):
        nonlocal c
        if t.op == "add":
            for x in t.args:
                go(x)
        elif t.op == "int":
            c += t.args[0]
        else:
            terms.append(t)

    go(a)
    go(b)
    if not terms:
        return I(c)
    # cancel (x - y) + y
    subs = [t for t in terms if t.op == "sub"]
    for s in subs:
        if s.args[1] in terms:
            terms.remove(s)
            terms.remove(s.args[1])
            terms.append(s.args[0])
    # n / k, and one more if k does not divide n
    for t in terms:
        u = t
        if t.op == "ite" and t.args[1] is I(1) and t.args[2] is I(0):
            u = t.args[0]
        elif t.op == "ite" and t.args[1] is I(0) and t.args[2] is I(1):
            u = neg(t.args[0])
        elif t.op == "cast" and isbool(t.args[1]):
            u = t.args[1]
        z = None
        if u.op == "not" and u.args[0].op == "eq":
            z = [x for x in u.args[0].args if x.op == "mod"] if I(0) in u.args[0].args else None
        elif u.op == "le" and isint(u.args[0]) and u.args[0].args[0] == 1:
            z = [u.args[1]]
        elif u.op == "lt" and u.args[0] is I(0):
            z = [u.args[1]]
        if z and z[0].op == "mod" and isint(z[0].args[1]) and z[0].args[1].args[0] > 0:
            n, k = z[0].args
            d = div(n, k)
            if d in terms:
                terms.remove(t)
                terms.remove(d)
                terms.append(div(add(n, I(k.args[0] - 1)), k))
                break
    if c != 0:
        terms.append(I(c))
    if len(terms) == 1:
        return terms[0]
    return mk("add", *order(terms))


def sub(a, b):
    if isint(a) and isint(b):
        return I(a.args[0] - b.args[0])
    if a is b:
        return I(0)
    if isint(b):
        if b.args[0] == 0:
            return a
        return add(a, I(-b.args[0]))
    if a.op == "add" and b in a.args:
        l = list(a.args)
        l.remove(b)
        r = l[0]
        for x in l[1:]:
            r = add(r, x)
        return r
    # (a - b) - c => a - (b + c)
    if a.op == "sub":
        return sub(a.args[0], add(a.args[1], b))
    return mk("sub", a, b)


def mul(a, b):
    terms = []
    c = 1

    def go(t):
        nonlocal c
        if t.op == "mul":
            for x in t.args:
                go(x)
        elif t.op == "int":
            c *= t.args[0]
        else:
            terms.append(t)

    go(a)
    go(b)
    if c == 0:
        return I(0)
    if not terms:
        return I(c)
    if c != 1:
        terms.append(I(c))
    if len(terms) == 1:
        return terms[0]
    return mk("mul", *order(terms))


def div(a, b):
    if isint(a) and isint(b) and b.args[0] != 0 and a.args[0] >= 0:
        return I(a.args[0] // b.args[0])
    if isint(b) and b.args[0] == 1:
        return a
    if isint(b) and b.args[0] > 0 and a.op == "div" and isint(a.args[1]) and a.args[1].args[0] > 0:
        return mk("div", a.args[0], I(a.args[1].args[0] * b.args[0]))
    return mk("div", a, b)


def binop(op, a, b):
    if op == "+":
        return add(a, b)
    if op == "-":
        return sub(a, b)
    if op == "*":
        return mul(a, b)
    if op == "/":
        return div(a, b)
    if op == "%":
        if isint(a) and isint(b) and b.args[0]:
            return I(a.args[0] % b.args[0])
        return mk("mod", a, b)
    if op == "==":
        return eq(a, b)
    if op == "!=":
        return neg(eq(a, b))
    if op == "<":
        return lt(a, b)
    if op == ">":
        return lt(b, a)
    if op == "<=":
        return le(a, b)
    if op == ">=":
        return le(b, a)
    if op == "&&":
        return conj([a, b])
    if op == "||":
        return disj([a, b])
    if op in ("<<", ">>"):
        if isint(a) and a.args[0] == 0:
            return a
        if isint(a) and isint(b) and b.args[0] < 4096:
            return I(a.args[0] << b.args[0]) if op == "<<" else I(a.args[0] >> b.args[0])
        if isint(b) and 0 <= b.args[0] < 4096:
            return mul(a, I(1 << b.args[0])) if op == "<<" else div(a, I(1 << b.args[0]))
        # (x >> a) >> b
        if op == ">>" and a.op == "shr":
            return mk("shr", a.args[0], add(a.args[1], b))
        return mk("shl" if op == "<<" else "shr", a, b)
    if op in ("&", "|", "^"):
        if isint(a) and isint(b):
            x, y = a.args[0], b.args[0]
            return I({"&": x & y, "|": x | y, "^": x ^ y}[op])
        if a.op in ("bool",) or b.op in ("bool",) or isbool(a) and isbool(b):
            if op == "&":
                return conj([a, b])
            if op == "|":
                return disj([a, b])
        if op == "&":
            for x, y in ((a, b), (b, a)):
                if isint(y) and y.args[0] > 0 and (y.args[0] & (y.args[0] + 1)) == 0:
                    return binop("%", x, I(y.args[0] + 1))
                if y.op == "bnot" and isint(y.args[0]) and y.args[0].args[0] > 0 and (y.args[0].args[0] & (y.args[0].args[0] + 1)) == 0:
                    return sub(x, binop("%", x, I(y.args[0].args[0] + 1)))
            for x, y in ((a, b), (b, a)):
                # all bits of a 32-bit word from some bit on
                if isint(y) and y.args[0] < 1 << 32 and y.args[0] >= 1 << 31 and ((1 << 32) - y.args[0]) & ((1 << 32) - y.args[0] - 1) == 0 and y.args[0] != 1 << 31:
                    a, b = x, mk("bnot", I((1 << 32) - 1 - y.args[0]))
                    return binop("&", a, b)
        nm = {"&": "band", "|": "bor", "^": "bxor"}[op]
        ts = []
        for x in (a, b):
            if x.op == nm and op != "^":
                ts.extend(x.args)
            else:
                ts.append(x)
        return mk(nm, *order(ts))
    return mk("bin", op, a, b)


BOOLOPS = {"lt", "le", "eq", "not", "and", "or", "is", "has", "bool", "exists", "forall", "imp"}


def isbool(t):
    return t.op in BOOLOPS


# ---------------------------------------------------------------- comparisons
def _split(t, sign, pos, negs):
    """collect linear parts; returns constant"""
    if t.op == "int":
        return sign * t.args[0]
    if t.op == "add":
        return sum(_split(x, sign, pos, negs) for x in t.args)
    if t.op == "sub":
        return _split(t.args[0], sign, pos, negs) + _split(t.args[1], -sign, pos, negs)
    (pos if sign > 0 else negs).append(t)
    return 0


def _balance(a, b):
    """a <> b  ->  (lhs terms, rhs terms, const c)   meaning lhs + c <> rhs"""
    pos, negs = [], []
    c = _split(a, 1, pos, negs)
    c += _split(b, -1, pos, negs)
    for x in list(pos):
        if x in negs:
            pos.remove(x)
            negs.remove(x)
    return pos, negs, c


def _sum(ts, c=0):
    r = I(c)
    for t in order(ts):
        r = add(r, t)
    return r


def lt(a, b):
    if a.op in ("ite",) or b.op in ("ite",):
        pass
    pos, negs, c = _balance(a, b)
    if not pos and not negs:
        return B(c < 0)
    # lhs + c < rhs   <=> lhs + (c+1) <= rhs for integers; canonical form chosen below
    return _cmp(pos, negs, c, True)


def le(a, b):
    pos, negs, c = _balance(a, b)
    if not pos and not negs:
        return B(c <= 0)
    return _cmp(pos, negs, c, False)


def _cmpk(k, c, strict):
    return B(k + c < 0 if strict else k + c <= 0)


def _tail(t):
    """the length of what follows the first elements of a sequence"""
    return t.op == "len" and t.args[0].op == "index" and t.args[0].args[1].op == "range" and isint(t.args[0].args[1].args[0]) and t.args[0].args[1].args[1].op == "inf"


def _whole(t, k):
    """k > 0 against such a length, restated of the whole"""
    x = t.args[0]
    return I(k + x.args[1].args[0].args[0]), mk("len", x.args[0])


def _constarms(t):
    return isint(t) or t.op == "ite" and _constarms(t.args[1]) and _constarms(t.args[2])


def _cmp(pos, negs, c, strict):
    if len(pos) + len(negs) == 1:
        t = (pos or negs)[0]
        if t.op == "ite" and _constarms(t):
            f = lambda x: _cmpk(x.args[0] if pos else -x.args[0], c, strict) if isint(x) else ite(x.args[0], f(x.args[1]), f(x.args[2]))
            return f(t)
    # the larger of a - b and 0: where comparing 0 in its place settles nothing, compare a - b
    for side in (pos, negs):
        i = [k for k, x in enumerate(side) if x.op == "satsub"]
        if len(i) == 1:
            rest = side[:i[0]] + side[i[0] + 1:]
            p, n = (rest, negs) if side is pos else (pos, rest)
            z = _cmp(p, n, c, strict) if p or n else B(c < 0 if strict else c <= 0)
            if z is (TRUE if side is pos else FALSE):
                x = side[i[0]]
                a, b = add(x.args[0], _sum(p, c)), add(x.args[1], _sum(n))
                if side is negs:
                    a, b = add(_sum(p, c), x.args[1]), add(x.args[0], _sum(n))
                return lt(a, b) if strict else le(a, b)
    # canonical: if one side has no symbolic terms, use le with constants
    if not negs:  # pos + c < 0   <=>  pos <= -c-1 / -c
        k = -c - 1 if strict else -c
        l = _sum(pos)
        f = countfold(l)
        if f is not None and k <= 0:
            return mk("forall", f[0], neg(f[1])) if k == 0 else FALSE
        if k < 0 and all(nonneg(p) for p in pos):
            return FALSE
        if k == 0 and all(nonneg(p) for p in pos) and len(pos) == 1:
            return eq(l, I(0))
        if k > 0 and _tail(l):
            return mk("le", *_whole(l, k)[::-1])
        return mk("le", l, I(k))
    if not pos:  # c < negs  <=> c+1 <= negs
        k = c + 1 if strict else c
        r = _sum(negs)
        f = countfold(r)
        if f is not None and k <= 1:
            return mk("exists", f[0], f[1]) if k == 1 else TRUE
        if k <= 0 and all(nonneg(p) for p in negs):
            return TRUE
        if k == 1 and len(negs) == 1 and nonneg(negs[0]):
            return neg(eq(r, I(0)))
        if k > 1 and _tail(r):
            return mk("le", *_whole(r, k))
        return mk("le", I(k), r)
    if c <= 0 and len(pos) == len(negs) == 1 and pos[0].op == "div" and pos[0].args[0] is negs[0] and nonneg(negs[0]) and pos[0].args[1].op == "int" and pos[0].args[1].args[0] > 1:
        return neg(eq(negs[0], I(0))) if strict and c == 0 else TRUE
    # n against k * (n / k), which is at most n
    if c == 0 and len(pos) == len(negs) == 1:
        n, m = (negs[0], pos[0]) if strict else (pos[0], negs[0])
        d = [x for x in m.args if x.op == "div" and x.args[0] is n] if m.op == "mul" and len(m.args) == 2 else []
        if d and isint(d[0].args[1]) and d[0].args[1] in m.args and d[0].args[1].args[0] > 0:
            whole = eq(mk("mod", n, d[0].args[1]), I(0))
            return neg(whole) if strict else whole
    # both sides symbolic: normalise  lhs + c (<|<=) rhs so that |const| minimal w/ sign
    if strict and c < 0:
        # lhs + c < rhs  <=> lhs + (c+1) <= rhs ; c+1<=0  -> lhs <= rhs + (-(c+1))
        return mk("le", _sum(pos), _sum(negs, -(c + 1)))
    if not strict and c > 0:
        # lhs + c <= rhs <=> lhs + (c-1) < rhs
        return mk("lt", _sum(pos, c - 1), _sum(negs))
    if strict:
        return mk("lt", _sum(pos, c), _sum(negs))
    return mk("le", _sum(pos), _sum(negs, -c))


UFIELDS = set()  # names that only ever denote fields of an unsigned integer type
UNS = set()      # terms known to be of an unsigned integer type
UNSIGNED = {"u8", "u16", "u32", "u64", "u128", "usize"}


def nonneg(t):
    """terms known unsigned"""
    if t.op == "p":
        return len(t.args) == 3
    if t.op == "field":
        return t.args[1] in UFIELDS or t.id in UNS
    return t.op in ("len", "idx", "satsub")


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "bool":
        return b if a.args[0] else neg(b)
    if b.op == "bool":
        return a if b.args[0] else neg(a)
    if a.op == "ite" and b.op in ("int", "ctor", "bool", "path", "str"):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == "ite" and a.op in ("int", "ctor", "bool", "path", "str"):
        return eq(b, a)
    for x, y in ((a, b), (b, a)):
        if y.op == "band" and x in y.args and (x.op == "shl" and isint(x.args[0]) and x.args[0].args[0] == 1 or isint(x) and x.args[0] > 0 and x.args[0] & (x.args[0] - 1) == 0):
            return neg(eq(mk("int", 0), y))      # a single bit
    if a.op == "ctor" and b.op == "ctor":
        if a.args[0] != b.args[0]:
            return FALSE
        if len(a.args) == len(b.args):
            return conj([eq(x, y) for x, y in zip(a.args[1:], b.args[1:])])
    if (a is I(0) or b is I(0)) and (a.op == "len" or b.op == "len"):
        x = (a if a.op == "len" else b).args[0]
        if x.op == "filter":
            return mk("forall", x.args[0], neg(x.args[1]))
    for x, y in ((a, b), (b, a)):
        if x.op == "band" and len(x.args) == 2 and y in x.args and y.op == "shl" and y.args[0] is I(1):
            return neg(eq(x, I(0)))     # a single bit is set
    for x, y in ((a, b), (b, a)):
        if x.op in ("min", "max") and len(x.args) == 2 and y in x.args and not isint(y):
            z = x.args[1] if x.args[0] is y else x.args[0]
            return le(y, z) if x.op == "min" else le(z, y)
    if b.op == "ctor":
        a, b = b, a
    if a.op == "ctor":
        cs = [isv(a.args[0], b)]
        for i, x in enumerate(a.args[1:]):
            cs.append(eq(payload(a.args[0], i, b), x))
        return conj(cs)
    for x, y in ((a, b), (b, a)):
        # a piece of a sequence compared with a literal one
        if x.op == "index" and x.args[1].op == "range" and y.op == "arr" and isint(x.args[1].args[0]):
            lo, hi = x.args[1].args
            n = mk("len", x.args[0]) if hi.op == "inf" else hi
            return conj([eq(n, I(lo.args[0] + len(y.args)))] + [eq(index(x.args[0], I(lo.args[0] + i)), z) for i, z in enumerate(y.args)])
    if a.op == "tup" and b.op == "tup" and len(a.args) == len(b.args):
        return conj([eq(x, y) for x, y in zip(a.args, b.args)])
    if a.op in ("bytes", "str") and b.op in ("bytes", "str"):
        return B(a is b)
    pos, negs, c = _balance(a, b)
    if not pos and not negs:
        return B(c == 0)
    if len(pos) + len(negs) == 1 and not (pos and isbool(pos[0])):
        t = (pos or negs)[0]
        k = -c if pos else c
        if t.op == "satsub" and k == 0:
            return le(t.args[0], t.args[1])
        f = countfold(t)
        if f is not None and k <= 0:
            return mk("forall", f[0], neg(f[1])) if k == 0 else FALSE
        b = _bittest(t, k)
        if b is not None:
            return b
        if t.op == "shl" and k == 0 and isint(t.args[0]) and t.args[0].args[0] % 2:
            return FALSE
        if t.op == "bxor" and len(t.args) == 2:
            for i in (0, 1):
                if t.args[i].op == "int" and k >= 0:
                    return eq(t.args[1 - i], I(t.args[i].args[0] ^ k))
        if k > 0 and _tail(t):
            return mk("eq", *order(_whole(t, k)))
        return mk("eq", *order([t, I(k)]))
    if c == 0 and len(pos) == len(negs) == 1:
        for x, y in ((pos[0], negs[0]), (negs[0], pos[0])):
            if y.op == "mod" and y.args[0] is x and isint(y.args[1]):
                return le(x, I(y.args[1].args[0] - 1))
    # choose sides deterministically
    l = _sum(pos, c if c > 0 else 0)
    r = _sum(negs, -c if c < 0 else 0)
    return mk("eq", *order([l, r]))


def countfold(t):
    """the number of elements of b that satisfy c -> (b, c)"""
    if t.op == "fold" and len(t.args) == 3 and t.args[1] is I(0) and t.args[2].op == "ite":
        c, x, y = t.args[2].args
        if x.op == "acc":
            c, x, y = neg(c), y, x
        if y.op == "acc" and y.args[0] == 0 and x is add(y, I(1)) and not _mentions(c, y):
            return t.args[0], c
    return None


def _mentions(t, x):
    todo, seen = [t], set()
    while todo:
        y = todo.pop()
        if y is x:
            return True
        if isinstance(y, T) and y.id not in seen:
            seen.add(y.id)
            todo.extend(y.args)
    return False


def _bittest(t, k):
    """one spelling for the test of a single bit: (x >> i) % 2 == 1, x & (1 << i) == 1 << i and x & (1 << i) != 0 are the same"""
    if t.op == "mod" and t.args[1] is I(2) and k in (0, 1):
        if t.args[0].op == "shr":
            x, i = t.args[0].args
            r = mk("eq", *order([mk("band", *order([x, mk("shl", I(1), i)])), I(0)]))
            return r if k == 0 else mk("not", r)
        if k == 0:  # x % 2 is zero or one
            return mk("not", mk("eq", *order([t, I(1)])))
    if t.op == "band" and len(t.args) == 2:
        for i in (0, 1):
            m = t.args[i]
            if m.op == "int" and m.args[0] > 1 and (m.args[0] & (m.args[0] - 1)) == 0 and k in (0, m.args[0]):
                return eq(mk("mod", div(t.args[1 - i], m), I(2)), I(1 if k else 0))
    return None


def neg(a):
    o = a.op
    if o == "bool":
        return B(not a.args[0])
    if o == "not":
        return a.args[0]
    if o == "lt":
        return le(a.args[1], a.args[0])
    if o == "le":
        return lt(a.args[1], a.args[0])
    if o == "and":
        return disj([neg(x) for x in a.args])
    if o == "or":
        return conj([neg(x) for x in a.args])
    if o == "exists":
        return mk("forall", a.args[0], neg(a.args[1]))
    if o == "forall":
        return mk("exists", a.args[0], neg(a.args[1]))
    if o == "imp":
        return conj([a.args[0], neg(a.args[1])])
    if o == "ite":
        return ite(a.args[0], neg(a.args[1]), neg(a.args[2]))
    if o == "is" and a.args[0] in ("Some", "None", "Ok", "Err"):
        pass
    return mk("not", a)


def conj(xs):
    out = []
    for x in xs:
        if x.op == "and":
            for y in x.args:
                if y not in out:
                    out.append(y)
        elif x is TRUE:
            pass
        elif x is FALSE:
            return FALSE
        elif x not in out:
            out.append(x)
    for x in out:
        if neg_fast(x) in out:
            return FALSE
    # absorb: or(...) containing one of the conjuncts is redundant; unit resolution
    ors = [x for x in out if x.op == "or"]
    for o in ors:
        rest = [y for y in o.args if neg_fast(y) not in out]
        if any(y in out for y in o.args):
            out.remove(o)
        elif len(rest) < len(o.args):
            out.remove(o)
            return conj(out + [disj(rest)])
    for x in list(out):
        if x.op == "lt":
            e = mk("le", x.args[0], x.args[1])
            if e in out:
                out.remove(e)
                return conj(out)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    # constant propagation: `n == 20 && len == n + 5` is `n == 20 && len == 25`
    ks = {}
    for x in out:
        if x.op == "eq":
            a, b = x.args
            if b.op == "int":
                a, b = b, a
            if a.op == "int" and b.op in ("index", "field", "p", "payload", "len"):
                ks[b] = a
    for b, a in ks.items():
        if b.op == "len" and a.args[0] == 1:        # "all" and "any" of a single element
            x0, el = b.args[0], mk("elem", b.args[0])
            for i, y in enumerate(out):
                if y.op in ("forall", "exists") and y.args[0] is x0:
                    return conj(out[:i] + [subst(y.args[1], {el.id: index(x0, mk("int", 0))})] + out[i + 1:])
    if ks:
        new = []
        ch = False
        for x in out:
            y = x
            z = x.args[0] if x.op == "not" else x
            if z.op in ("eq", "le"):
                sums = [t for t in z.args if t.op == "add"] + [t.args[1] for t in z.args if t.op == "index" and t.args[1].op == "add"]
                if any(k in t.args for t in sums for k in ks):
                    y = subst(x, {k.id: v for k, v in ks.items() if k not in z.args})
            if z.op == "le" and any(k in z.args for k in ks):
                y = subst(y, {k.id: v for k, v in ks.items()})
            if y is not x:
                ch = True
            new.append(y)
        if ch:
            return conj(new)
    return mk("and", *order(out))


def disj(xs):
    out = []
    for x in xs:
        if x.op == "or":
            for y in x.args:
                if y not in out:
                    out.append(y)
        elif x is FALSE:
            pass
        elif x is TRUE:
            return TRUE
        elif x not in out:
            out.append(x)
    for x in out:
        if neg_fast(x) in out:
            return TRUE
    ands = [x for x in out if x.op == "and"]
    for o in ands:
        rest = [y for y in o.args if neg_fast(y) not in out]
        if any(y in out for y in o.args):
            out.remove(o)
        elif len(rest) < len(o.args):
            out.remove(o)
            return disj(out + [conj(rest)])
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    # factor common conjuncts: (a&b)|(a&c) -> a&(b|c)
    sets = [set(x.args) if x.op == "and" else {x} for x in out]
    common = set.intersection(*sets)
    if common:
        rests = [conj([y for y in s if y not in common]) for s in sets]
        return conj(list(common) + [disj(rests)])
    # a<b | a==b -> a<=b
    for x in list(out):
        if x.op == "lt":
            e = eq(x.args[0], x.args[1])
            if e in out:
                out.remove(x)
                out.remove(e)
                return disj(out + [le(x.args[0], x.args[1])])
        if x.op == "le":
            for e in (eq(x.args[0], x.args[1]), mk("lt", x.args[0], x.args[1])):
                if e in out:
                    out.remove(e)
                    return disj(out)
    return mk("or", *order(out))


_negc = {}


def neg_fast(x):
    r = _negc.get(x.id)
    if r is None:
        r = neg(x) if x.op in ("not", "lt", "le", "bool", "exists", "forall", "is", "eq", "has") else mk("not", x)
        if x.op in ("and", "or", "imp", "ite"):
            r = mk("not", x)
        _negc[x.id] = r
    return r


def imp(c, f):
    if c is TRUE:
        return f
    if c is FALSE or f is TRUE:
        return TRUE
    return disj([neg(c), f])


def arm_key(c):
    """(scrutinee, key) of a test against a constant or a variant"""
    if c.op == "eq":
        for x, y in (c.args, c.args[::-1]):
            if isint(y) and not isint(x):
                return x, (0, y.args[0], "")
    if c.op == "is":
        return c.args[1], (1, 0, c.args[0])
    return None


def _zero(x):
    return x.op == "int" and x.args[0] == 0


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "forall" or c.op == "or" and all(x.op == "not" for x in c.args):
        return ite(neg(c), b, a)
    if c.op == "eq" and a.op == "div" and isint(a.args[1]) and a.args[1].args[0] > 1 and b is add(a, I(1)) and _zero(c.args[0]) and c.args[1].op == "mod" and \
            c.args[1].args[0] is a.args[0] and c.args[1].args[1] is a.args[1]:
        return div(add(a.args[0], I(a.args[1].args[0] - 1)), a.args[1])     # rounded up
    if c.op == "noovf" and c.args[0].op == "sub":
        # a - b, or what comes out at zero
        z = mk("satsub", *c.args[0].args)
        r = subst(a, {c.args[0].id: z})
        if r is not a and subst(r, {z.id: I(0)}) is b:
            return r
    if c.op == "eq" and b.op == "shl" and b.args[0] in c.args and _zero(c.args[0 if c.args[1] is b.args[0] else 1]) and _zero(a):
        return b        # zero shifted is zero
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return neg(c)
    if a is TRUE:
        return disj([c, b])
    if b is FALSE:
        return conj([c, a])
    if a is FALSE:
        return conj([neg(c), b])
    if b is TRUE:
        return disj([neg(c), a])
    if c.op == "eq" and b.op == "satsub" and (c.args[0] is b.args[0] and _zero(c.args[1]) or c.args[1] is b.args[0] and _zero(c.args[0])) and (a is b.args[0] or _zero(a)):
        return b
    if c.op in ("le", "lt") and b.op in ("clamp", "max") and a in b.args[1:] and isint(a) and a.args[0] >= 0 and (b.op == "max" or b.args[1] is a):
        z = next((z for x in b.args for z in (x.args if x.op == "min" else (x,)) if z.op == "satsub"), None)
        if z is not None and c.args[0] is z.args[0] and c.args[1] is z.args[1]:
            return b        # nothing is left: the lower bound
    # a - b or 0 against a bound
    if c.op in ("le", "lt"):
        for x, k, up in ((b, a, True), (a, b, False)):
            for z in (x.args if x.op in ("min", "max") else (x,)):
                if z.op == "satsub" and z not in c.args:
                    for raw in ((mk("le", z, I(k.args[0] - 1)), mk("le", z, k)) if isint(k) else (mk("le", z, k), mk("lt", z, k))) + ((mk("le", k, z), mk("lt", k, z)) if not isint(k) else (mk("le", k, z),)):
                        if (le if raw.op == "le" else lt)(*raw.args) is c:
                            r = ite(raw, a, b)
                            if r.op != "ite":
                                return r
                elif z.op == "sub" and isint(k) and k.args[0] > 0 and not isint(z.args[0]) and not isint(z.args[1]):
                    for raw in (mk("le", z, I(k.args[0] - 1)), mk("le", z, k), mk("le", k, z)):
                        if le(*raw.args) is c:
                            r = ite(raw, a, b)
                            if r.op != "ite":
                                # where the difference is negative the bound applies
                                return subst(r, {z.id: mk("satsub", *z.args)}) if r.op in ("clamp", "max") and k.args[0] > 0 and raw.args[0] is z and x is b else r
    # canonical polarity for comparisons so that both writings agree
    if c.op == "lt":
        x, y = c.args
        if a is x and b is y:
            return tmin(x, y)
        if a is y and b is x:
            return tmax(x, y)
        # if x - y ... : ite(x<y, 0, x-y) = satsub(x,y)
        if a is I(0) and b is sub(x, y):
            return mk("satsub", x, y)
        if b is I(0) and a is sub(y, x):
            return mk("satsub", y, x)
        # lt(x,y) ? a : b   ->  le(y,x) ? b : a  (keep le form)
        return ite(le(y, x), b, a)
    if c.op == "le":
        x, y = c.args
        if a is x and b is y:
            return tmin(x, y)
        if a is y and b is x:
            return tmax(x, y)
        if isint(y) and b is I(y.args[0] + 1) and a is x:
            return tmin(x, b)
        if isint(y) and a is I(y.args[0] + 1) and b is x:
            return tmax(x, a)
        if isint(y) and isint(a) and a.args[0] - y.args[0] in (0, 1) and b.op == "min" and x in b.args and any(isint(z) and z.args[0] >= a.args[0] for z in b.args):
            return tmax(b, a)
        if isint(y) and isint(b) and b.args[0] - y.args[0] in (0, 1) and a.op == "max" and x in a.args and any(isint(z) and z.args[0] <= b.args[0] for z in a.args):
            return tmin(a, b)
        if isint(x) and b is I(x.args[0] - 1) and a is y:
            return tmax(y, b)
        if isint(x) and a is I(x.args[0] - 1) and b is y:
            return tmin(y, a)
        if a is I(0) and b is sub(x, y):
            return mk("satsub", x, y)
        if b is I(0) and a is sub(y, x):
            return mk("satsub", y, x)
        # canonical polarity for int comparisons: constant on the right
        if isint(x):
            return ite(le(y, I(x.args[0] - 1)), b, a)
    # chains over the same scrutinee are ordered by the tested constant / variant
    k1 = arm_key(c)
    if k1 is not None and b.op == "ite" and b.args[1] is not a:
        k2 = arm_key(b.args[0])
        if k2 is not None and k2[0] is k1[0] and k2[1] < k1[1]:
            return ite(b.args[0], b.args[1], ite(c, a, b.args[2]))
    # same-branch merging: ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
    if b.op == "ite" and b.args[1] is a:
        return ite(disj([c, b.args[0]]), a, b.args[2])
    if b.op == "ite" and b.args[0] is c:
        return ite(c, a, b.args[2])
    if a.op == "ite" and a.args[0] is c:
        return ite(c, a.args[1], b)
    if a.op == "ite" and a.args[2] is b:
        return ite(conj([c, a.args[0]]), a.args[1], b)
    if a.op == "ite" and a.args[1] is b:
        return ite(conj([c, neg(a.args[0])]), a.args[2], b)
    if b.op == "ite" and b.args[2] is a:
        return ite(conj([neg(c), b.args[0]]), b.args[1], a)
    if isbool(a) and isbool(b):
        return disj([conj([c, a]), conj([neg(c), b])])
    # Some/None and Ok wrappers hoisting
    if a.op == "ctor" and b.op == "ctor" and a.args[0] == b.args[0] and len(a.args) == len(b.args) and len(a.args) > 1:
        return mk("ctor", a.args[0], *[ite(c, x, y) for x, y in zip(a.args[1:], b.args[1:])])
    if a.op == "tup" and b.op == "tup" and len(a.args) == len(b.args):
        return mk("tup", *[ite(c, x, y) for x, y in zip(a.args, b.args)])
    if a.op == "struct" and b.op == "struct" and a.args[0] == b.args[0]:
        fa, fb = dict(zip(a.args[1], a.args[2:])), dict(zip(b.args[1], b.args[2:]))
        if fa.keys() == fb.keys():
            ks = sorted(fa)
            return mk("struct", a.args[0], tuple(ks), *[ite(c, fa[k], fb[k]) for k in ks])
    # opt(load) rebuild: ite(has(x), Some(x), None) -> opt(x)
    if c.op == "has" and a.op == "ctor" and a.args[0] == "Some" and b is NONE and a.args[1] is c.args[0]:
        return mk("opt", c.args[0])
    # both updates of the same base
    ab, fa = unupd(a)
    bb, fb = unupd(b)
    if ab is bb and (fa or fb):
        r = ab
        for k in sorted(set(fa) | set(fb), key=str):
            r = upd(r, k, ite(c, fa.get(k) or field(ab, k), fb.get(k) or field(ab, k)))
        return r
    return mk("ite", c, a, b)


def tmin(a, b):
    if isint(a) and isint(b):
        return I(min(a.args[0], b.args[0]))
    for x, y in ((a, b), (b, a)):
        if x.op == "max" and isint(y):
            ints = [z for z in x.args if isint(z)]
            if ints:
                rest = [z for z in x.args if not isint(z)]
                return mk("clamp", rest[0], ints[0], y)
    return lattice("min", a, b)


def tmax(a, b):
    if isint(a) and isint(b):
        return I(max(a.args[0], b.args[0]))
    for x, y in ((a, b), (b, a)):
        if x.op == "min" and isint(y):
            ints = [z for z in x.args if isint(z)]
            if ints:
                rest = [z for z in x.args if not isint(z)]
                return mk("clamp", rest[0], y, ints[0])
    return lattice("max", a, b)


def lattice(op, a, b):
    """minimum and maximum are associative, commutative and idempotent"""
    xs = []

    def go(t):
        if t.op == op:
            go(t.args[0])
            go(t.args[1])
        elif t not in xs:
            xs.append(t)
    go(a)
    go(b)
    xs = order(xs)
    r = xs[0]
    for x in xs[1:]:
        r = mk(op, r, x)
    return r


# ---------------------------------------------------------------- data
def isv(variant, x):
    if x.op == "ctor":
        return B(x.args[0] == variant)
    if x.op == "struct" and "::" in x.args[0]:
        return B(x.args[0] == variant)
    if x.op == "opt":
        if variant == "Some":
            return mk("has", x.args[0])
        if variant == "None":
            return neg(mk("has", x.args[0]))
    if x.op == "ite":
        return ite(x.args[0], isv(variant, x.args[1]), isv(variant, x.args[2]))
    if x.op == "m" and x.args[0] == "cmp" and len(x.args) == 3:
        o = variant.rsplit("::", 1)[-1]
        if o in ("Less", "Greater", "Equal"):
            return eq(x.args[1], x.args[2]) if o == "Equal" else lt(x.args[1], x.args[2]) if o == "Less" else lt(x.args[2], x.args[1])
    if variant == "None":
        return neg(mk("is", "Some", x))
    if variant == "Err":
        return neg(mk("is", "Ok", x))
    return mk("is", variant, x)


def payload(variant, i, x):
    if x.op == "ctor" and x.args[0] == variant and len(x.args) > i + 1:
        return x.args[i + 1]
    if x.op == "opt" and variant == "Some":
        return x.args[0]
    if x.op == "ite":
        a, b = x.args[1], x.args[2]
        fa = a.op == "ctor" and a.args[0] != variant
        fb = b.op == "ctor" and b.args[0] != variant
        if fa and not fb:
            return payload(variant, i, b)
        if fb and not fa:
            return payload(variant, i, a)
        if not fa and not fb:
            return ite(x.args[0], payload(variant, i, a), payload(variant, i, b))
    if variant == "Ok":
        return x
    if x.op == "struct" and i in x.args[1]:
        return field(x, i)
    return mk("payload", variant, i, x)


# records stored under their own identifier; rule V08 (vault_registry.identity) shows that every write keeps them so
SELFKEY = {("vault_registry::Vaults", "id"), ("vault_registry::LiquidationVault", "currency_pair")}


# what a loop changes piece by piece -> (index of the element the current round changes, the list before the loop)
#                                      or (the components that change, the record before the loop)
SLOTS = {}


def field(x, f):
    if x.id in SLOTS and isinstance(SLOTS[x.id][0], frozenset) and f not in SLOTS[x.id][0]:
        return field(SLOTS[x.id][1], f)
    if x.op == "load" and len(x.args) == 2 and (x.args[0], f) in SELFKEY:
        return x.args[1]
    if x.op == "struct":
        if f in x.args[1]:
            return x.args[2 + x.args[1].index(f)]
        if "" in x.args[1]:
            return field(x.args[2 + x.args[1].index("")], f)
    if x.op in ("arr", "repeat") and f == "bytes":
        return x        # a slice where a wrapper of bytes is expected
    if x.op == "amount" and f in ("amount", "currency_id"):
        return x.args[0 if f == "amount" else 1]
    if x.op == "tup" and f.isdigit() and int(f) < len(x.args):
        return x.args[int(f)]
    if x.op == "first" and x.args[2].op == "tup" and f.isdigit():
        return mk("first", x.args[0], x.args[1], field(x.args[2], f))
    if x.op == "upd":
        if x.args[1] == f:
            return x.args[2]
        return field(x.args[0], f)
    if x.op == "ctor" and f.isdigit() and len(x.args) > int(f) + 1:
        return x.args[int(f) + 1]
    if x.op == "ite":
        return ite(x.args[0], field(x.args[1], f), field(x.args[2], f))
    if x.op == "fold" or x.op == "field":
        path, b = [f], x
        while b.op == "field":
            path.append(b.args[1])
            b = b.args[0]
        if b.op == "fold" and len(b.args) == 3:
            # a component the loop body leaves alone keeps its value from before the loop
            step = b.args[2]
            while step.op not in ("upd", "struct", "tup") and step.op == "acc":
                return mk("field", x, f)
            acc = None
            y = step
            while y.op == "upd":
                y = y.args[0]
            if y.op == "acc":
                acc, i, st = y, b.args[1], step
                for k in reversed(path):
                    acc, st, i = field(acc, k), field(st, k), field(i, k)
                if acc is st:
                    return i
    return mk("field", x, f)


def upd(x, f, v):
    if x.op == "amount" and f in ("amount", "currency_id"):
        return mk("amount", v, x.args[1]) if f == "amount" else mk("amount", x.args[0], v)
    if x.op == "struct" and f in x.args[1]:
        l = list(x.args[2:])
        l[x.args[1].index(f)] = v
        return mk("struct", x.args[0], x.args[1], *l)
    if x.op == "tup" and f.isdigit() and int(f) < len(x.args):
        l = list(x.args)
        l[int(f)] = v
        return mk("tup", *l)
    if x is I(0) and f == "content":
        return mk("struct", "H256Le", ("content",), v)      # a zero hash, filled
    base, d = unupd(x)
    d = dict(d)
    d[f] = v
    if v is field(base, f):
        d.pop(f)
    r = base
    for k in sorted(d):
        r = mk("upd", r, k, d[k])
    return r


def unupd(x):
    d = {}
    while x.op == "upd":
        d.setdefault(x.args[1], x.args[2])
        x = x.args[0]
    return x, d


def index(v, i):
    if v.id in SLOTS and SLOTS[v.id][0] is i:
        return index(SLOTS[v.id][1], i)
    if i.op == "idx" and i.args[0] is v:
        return mk("elem", v)
    if i.op == "first" and i.args[0] is v and i.args[2].op == "idx" and i.args[2].args[0] is v:
        return mk("first", v, i.args[1], mk("elem", v))
    if i.op == "elem" and i.args[0].op == "range":
        r = i.args[0]
        if r.args[0] is I(0) and r.args[1].op == "len" and r.args[1].args[0] is v:
            return mk("elem", v)
    if i.op == "range" and i.args[0] is I(0) and i.args[1].op == "inf":
        return v
    if i.op == "range" and i.args[0] is I(0) and i.args[1].op == "len" and i.args[1].args[0] is v:
        return v
    if v.op == "index" and v.args[1].op == "range" and v.args[1].args[0].op != "inf":
        lo = v.args[1].args[0]
        if i.op == "range":
            hi = v.args[1].args[1] if i.args[1].op == "inf" else add(lo, i.args[1])
            return index(v.args[0], mk("range", add(lo, i.args[0]), hi))
        if i.op != "elem":
            return index(v.args[0], add(lo, i))
    if v.op in ("arr",) and isint(i) and 0 <= i.args[0] < len(v.args):
        return v.args[i.args[0]]
    if v.op == "iupd" and v.args[1] is i:
        return v.args[2]
    return mk("index", v, i)


# ---------------------------------------------------------------- traversal
def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for a in x.args:
            if isinstance(a, T):
                st.append(a)


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


_replc = {}


def rebuild(t, args):
    o = t.op
    if o == "add":
        r = I(0)
        for a in args:
            r = add(r, a)
        return r
    if o == "mul":
        r = I(1)
        for a in args:
            r = mul(r, a)
        return r
    if o == "clamp" and isint(args[0]):
        return tmin(tmax(args[0], args[1]), args[2])
    f = {
        "sub": sub,
        "div": div,
        "lt": lt,
        "le": le,
        "eq": eq,
        "not": neg,
        "ite": ite,
        "field": field,
        "upd": upd,
        "is": isv,
        "payload": payload,
        "index": index,
        "min": tmin,
        "max": tmax,
    }.get(o)
    if f:
        return f(*args)
    if o == "and":
        return conj(list(args))
    if o == "or":
        return disj(list(args))
    if o in ("shl", "shr", "band", "bor", "bxor", "mod") and len(args) == 2:
        return binop({"shl": "<<", "shr": ">>", "band": "&", "bor": "|", "bxor": "^", "mod": "%"}[o], *args)
    return mk(o, *args)


def subst(t, m, cache=None):
    """m: dict id->T"""
    if cache is None:
        cache = {}
    if t.id in m:
        return m[t.id]
    if t.id in cache:
        return cache[t.id]
    if not any(isinstance(a, T) for a in t.args):
        return t
    na = [subst(a, m, cache) if isinstance(a, T) else a for a in t.args]
    if all(x is y for x, y in zip(na, t.args)):
        r = t
    else:
        r = rebuild(t, na)
    cache[t.id] = r
    return r


# ---------------------------------------------------------------- printing
INF = {"add": "+", "sub": "-", "mul": "*", "div": "/", "mod": "%", "lt": "<", "le": "<=", "eq": "==",
       "and": "&&", "or": "||", "shl": "<<", "shr": ">>", "band": "&", "bor": "|", "bxor": "^"}


ALIAS = {}


def show(t, d=0, lim=14):
    if not isinstance(t, T):
        return str(t)
    if ALIAS and t.id in ALIAS:
        return ALIAS[t.id]
    if t._s is not None and len(t._s) < 4000:
        return t._s
    if d > lim:
        return "…"
    o, a = t.op, t.args

    def s(x):
        return show(x, d + 1, lim)

    if o == "int" or o == "bool":
        r = str(a[0]).lower() if o == "bool" else str(a[0])
    elif o == "str":
        r = repr(a[0])
    elif o in ("p", "var", "path", "wild"):
        r = str(a[1] if o == "p" else a[-1])
    elif o in INF:
        r = "(" + (" %s " % INF[o]).join(s(x) for x in a) + ")"
    elif o == "not":
        r = "!" + s(a[0])
    elif o == "field":
        r = s(a[0]) + "." + a[1]
    elif o == "index":
        r = "%s[%s]" % (s(a[0]), s(a[1]))
    elif o == "load":
        r = a[0] + ("[" + ", ".join(s(x) for x in a[1:]) + "]" if len(a) > 1 else "")
    elif o == "call":
        r = a[0] + "(" + ", ".join(s(x) for x in a[1:]) + ")"
    elif o == "m":
        r = s(a[1]) + "." + a[0] + "(" + ", ".join(s(x) for x in a[2:]) + ")"
    elif o == "is":
        r = "(%s is %s)" % (s(a[1]), a[0])
    elif o == "ctor":
        r = a[0] + ("(" + ", ".join(s(x) for x in a[1:]) + ")" if len(a) > 1 else "")
    elif o == "payload":
        r = "%s#%s%s" % (s(a[2]), a[0].split("::")[-1], a[1] if a[1] else "")
    elif o == "ite":
        r = "(if %s {%s} else {%s})" % (s(a[0]), s(a[1]), s(a[2]))
    elif o == "upd":
        r = "%s{%s:=%s}" % (s(a[0]), a[1], s(a[2]))
    elif o == "struct":
        r = "%s{%s}" % (a[0], ", ".join("%s: %s" % (k, s(v)) for k, v in zip(a[1], a[2:])))
    elif o == "tup":
        r = "(" + ", ".join(s(x) for x in a) + ")"
    else:
        r = o + "(" + ", ".join(s(x) for x in a) + ")"
    if d == 0:
        t._s = r
    return r
