"""Interprocedural gated value-flow and must-fact analysis over the syntax trees.

For every function the engine computes, by one structured pass (joins at merges, no path enumeration):
  * value numbers (terms) of all expressions, with gated phis (`ite`) at merges and folds for loops;
  * facts: the set of conditions known to hold at a point (branch conditions, ensure!/early returns, `?`);
  * events: calls, storage writes, in order, each with the facts that dominate it and the gates under which it runs.
Functions of the same crate are inlined (extracted helpers are transparent); recursion and foreign calls are opaque.
"""
import copy, re, sys
from . import terms as tm
from .terms import *
from .index import parse_type, parse_expr, split_generics, Index

INTSIZE = {k + str(8 * n): n for k in "ui" for n in (1, 2, 4, 8, 16)}

sys.setrecursionlimit(100000)

MAXDEPTH = 14


class Event:
    __slots__ = ("kind", "name", "args", "term", "facts", "loc", "stack", "seq", "inloop", "st")

    def __init__(s, kind, name, args, term, facts, loc, stack, seq, inloop):
        s.kind, s.name, s.args, s.term, s.facts, s.loc, s.stack, s.seq, s.inloop = kind, name, args, term, facts, loc, stack, seq, inloop

    def __repr__(s):
        return "%s %s" % (s.kind, show(s.term))


class Facts:
    """immutable set of atoms + implications/disjunctions kept as `or` terms"""
    __slots__ = ("s", "ors")

    def __init__(self, s=frozenset(), ors=frozenset()):
        self.s, self.ors = s, ors

    def add(self, t):
        """returns new Facts or None when contradictory"""
        s, ors = set(self.s), set(self.ors)
        work = [t]
        changed = False
        while work:
            f = work.pop()
            if f is TRUE or f in s:
                continue
            if f is FALSE or neg_fast(f) in s:
                return None
            if f.op == "and":
                work.extend(f.args)
                continue
            if f.op == "or":
                r = simp_or(f, s)
                if r is TRUE:
                    continue
                if r.op == "or":
                    if r not in ors:
                        ors.add(r)
                        changed = True
                else:
                    work.append(r)
                continue
            if f.op == "is":
                # other variants are excluded
                for g in s:
                    if g.op == "is" and g.args[1] is f.args[1] and g.args[0] != f.args[0] and same_enum(g.args[0], f.args[0]):
                        return None
            if f.op == "eq" and isint_side(f):
                for g in s:
                    if g.op == "eq" and g is not f and conflict_eq(f, g):
                        return None
            s.add(f)
            changed = True
            # unit propagation
            for o in list(ors):
                if f in o.args or any(a is f or neg_fast(a) is f or rel(a, f) for a in o.args):
                    r = simp_or(o, s)
                    if r is not o:
                        ors.discard(o)
                        if r is not TRUE:
                            work.append(r)
            if f.op == "not" and f.args[0].op == "is":
                r = last_variant(f, s)
                if r is not None:
                    work.append(r)
        if not changed:
            return self
        return Facts(frozenset(s), frozenset(ors))

    def has(self, t):
        return t in self.s or t in self.ors

    def all(self):
        return list(self.s) + list(self.ors)


ENUMS = {}  # variant canonical -> (enum, [all variants])


def same_enum(a, b):
    return a.rsplit("::", 1)[0] == b.rsplit("::", 1)[0] or {a, b} <= {"Some", "None"}


def isint_side(f):
    return f.args[0].op in ("int", "str") or f.args[1].op in ("int", "str")


def conflict_eq(f, g):
    def sp(x):
        return (x.args[1], x.args[0]) if x.args[0].op in ("int", "str") else (x.args[0], x.args[1])
    if not isint_side(g):
        return False
    a, c = sp(f)
    b, d = sp(g)
    return a is b and c is not d


def rel(a, f):
    return a.op == "is" and f.op == "is" and a.args[1] is f.args[1] or a.op in ("and", "not")


def last_variant(f, s):
    is_ = f.args[0]
    en = ENUMS.get(is_.args[0])
    if not en:
        return None
    left = [v for v in en[1] if mk("not", mk("is", v, is_.args[1])) not in s]
    if len(left) == 1:
        return mk("is", left[0], is_.args[1])
    return None


def known(f, s):
    """True/False/None from an atom set"""
    if f is TRUE or f in s:
        return True
    if f is FALSE:
        return False
    n = neg_fast(f)
    if n in s:
        return False
    if f.op == "and":
        ks = [known(x, s) for x in f.args]
        if any(k is False for k in ks):
            return False
        if all(k is True for k in ks):
            return True
        return None
    if f.op == "or":
        ks = [known(x, s) for x in f.args]
        if any(k is True for k in ks):
            return True
        if all(k is False for k in ks):
            return False
        return None
    if f.op == "not":
        k = known(f.args[0], s)
        return None if k is None else not k
    if f.op == "is":
        for g in s:
            if g.op == "is" and g.args[1] is f.args[1] and g.args[0] != f.args[0] and same_enum(g.args[0], f.args[0]):
                return False
        return None
    if f.op == "le" and mk("lt", *f.args) in s:
        return True
    if f.op == "le" and tm.eq(*f.args) in s:
        return True
    if f.op == "lt" and (tm.eq(*f.args) in s or mk("lt", f.args[1], f.args[0]) in s):
        return False
    if f.op == "eq" and not isint_side(f):
        if mk("lt", f.args[0], f.args[1]) in s or mk("lt", f.args[1], f.args[0]) in s:
            return False
    if f.op == "eq" and isint_side(f):
        for g in s:
            if g.op == "eq" and conflict_eq(f, g):
                return False
        k = bounds_known(f, s)
        if k is not None:
            return k
    if f.op == "le" and (isint(f.args[0]) or isint(f.args[1])):
        return bounds_known(f, s)
    return None


def bounds(x, s):
    lo, hi = None, None
    for g in s:
        if g.op == "le":
            a, b = g.args
            if a is x and isint(b):
                hi = b.args[0] if hi is None else min(hi, b.args[0])
            if b is x and isint(a):
                lo = a.args[0] if lo is None else max(lo, a.args[0])
        elif g.op == "eq":
            for a, b in (g.args, g.args[::-1]):
                if a is x and isint(b):
                    return b.args[0], b.args[0]
    return lo, hi


def bounds_known(f, s):
    a, b = f.args
    if f.op == "le":
        if isint(b):
            lo, hi = bounds(a, s)
            if hi is not None and hi <= b.args[0]:
                return True
            if lo is not None and lo > b.args[0]:
                return False
        else:
            lo, hi = bounds(b, s)
            if lo is not None and lo >= a.args[0]:
                return True
            if hi is not None and hi < a.args[0]:
                return False
    else:
        x, c = (a, b) if isint(b) else (b, a)
        if not isint(c):
            return None
        lo, hi = bounds(x, s)
        if lo is not None and c.args[0] < lo or hi is not None and c.args[0] > hi:
            return False
    return None


def simp_or(o, s):
    out = []
    for a in o.args:
        k = known(a, s)
        if k is True:
            return TRUE
        if k is False:
            continue
        if a.op == "and":
            rest = [x for x in a.args if known(x, s) is not True]
            a = conj(rest)
        out.append(a)
    if len(out) == len(o.args) and all(x is y for x, y in zip(out, o.args)):
        return o
    return disj(out)


EMPTY = Facts()


class St:
    __slots__ = ("env", "facts", "events", "pc", "heap", "seqn")

    def __init__(s, env, facts, events, pc, heap):
        s.env, s.facts, s.events, s.pc, s.heap = env, facts, events, pc, heap

    def copy(s):
        return St(dict(s.env), s.facts, s.events, s.pc, s.heap)

    def assume(s, c):
        if c is TRUE:
            return s
        if c is FALSE:
            return None
        k = known(c, s.facts.s)
        if k is True:
            return s
        if k is False:
            return None
        f = s.facts.add(c)
        if f is None:
            return None
        return St(dict(s.env), f, s.events, s.pc + (c,), s.heap)

    def note(s, c):
        """record a fact without making it a branch condition"""
        f = s.facts.add(c)
        if f is None:
            return s
        return St(s.env, f, s.events, s.pc, s.heap)


def join(a, b, c):
    """merge two states; c holds in a, does not hold in b"""
    if a is None:
        return b
    if b is None:
        return a
    if a is b:
        return a
    env = {}
    for k, v in a.env.items():
        w = b.env.get(k)
        if w is None:
            continue
        env[k] = v if v is w else (merge_val(c, v, w))
    s = a.facts.s & b.facts.s
    ors = set(a.facts.ors & b.facts.ors)
    nc = tm.neg(c)
    cset = set(c.args) if c.op == "and" else {c}
    ncset = set(nc.args) if nc.op == "and" else {nc}
    f1 = [x for x in a.facts.s - s if x not in cset]
    f2 = [x for x in b.facts.s - s if x not in ncset]
    if len(f1) <= 60:
        for x in f1:
            # already entailed on the other side?
            if known(x, b.facts.s) is True:
                ors_add(ors, s_add := x, True)
                s = s | {x}
            else:
                d = tm.imp(c, x)
                if d.op == "or" and len(d.args) <= 12:
                    ors.add(d)
    if len(f2) <= 60:
        for x in f2:
            if known(x, a.facts.s) is True:
                s = s | {x}
            else:
                d = tm.imp(nc, x)
                if d.op == "or" and len(d.args) <= 12:
                    ors.add(d)
    o1 = a.facts.ors - b.facts.ors
    o2 = b.facts.ors - a.facts.ors
    for oo, cc in ((o1, c), (o2, nc)):
        if len(oo) <= 40:
            for x in oo:
                d = tm.imp(cc, x)
                if d.op == "or" and len(d.args) <= 8:
                    ors.add(d)
    ev = merge_events(a.events, b.events, c)
    n = 0
    while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]:
        n += 1
    heap = {k: v for k, v in a.heap.items()}
    nh = {}
    for k in set(a.heap) | set(b.heap):
        v, w = a.heap.get(k), b.heap.get(k)
        if v is None:
            v = load_default(k)
        if w is None:
            w = load_default(k)
        if v is None or w is None:
            continue
        nh[k] = v if v is w else tm.ite(c, v, w)
    pc = a.pc[:n]
    if len(a.pc) > n and len(b.pc) > n:
        # what is known to hold on either side
        d = tm.disj([tm.conj(list(a.pc[n:])), tm.conj(list(b.pc[n:]))])
        if d is not TRUE:
            if size_over(d, 80):
                OPQ[0] += 1
                d = mk("opaquecond", "join", OPQ[0])
            pc = pc + (d,)
    r = St(env, Facts(frozenset(s), frozenset(ors)), ev, pc, nh)
    return r


OPQ = [0]


def size_over(t, lim):
    n, work = 0, [t]
    while work:
        x = work.pop()
        n += 1
        if n > lim:
            return True
        if x.op in ("or", "and", "not"):
            work += [a for a in x.args if isinstance(a, T)]
    return False


def ors_add(*a):
    pass


HEAPK = {}


def load_default(k):
    return HEAPK.get(k)


def merge_val(c, v, w):
    if isinstance(v, Clo) or isinstance(w, Clo):
        return v
    return tm.ite(c, v, w)


def merge_events(e1, e2, c):
    if e1 is e2:
        return e1
    n = 0
    m = min(len(e1), len(e2))
    while n < m and e1[n] is e2[n]:
        n += 1
    nc = tm.neg(c)
    out = list(e1[:n])
    out += [(tm.conj([c, g]), e) for g, e in e1[n:]]
    out += [(tm.conj([nc, g]), e) for g, e in e2[n:]]
    return tuple(out)


def cands0(ix, name, r):
    return [f for f in ix.by_name.get(name, []) if f.crate == r[0] and f.self_ty == r[1] and f.body is not None]


class Clo:
    """closure value"""
    op = "closure"
    args = ()

    def __init__(self, pats, body, scope, cap=None):
        self.pats, self.body, self.scope, self.cap = pats, body, scope, cap  # cap: the defining environment once the closure left it
        self.id = -1000000 - id(self)

    def __repr__(self):
        return "<closure>"


class FnRef:
    pass


class Scope:
    def __init__(self, mod, self_ty, crate, trait=None):
        self.mod, self.self_ty, self.crate, self.trait = mod, self_ty, crate, trait
        self.local_consts = {}
        self.generics = {}


class Frame:
    def __init__(self, scope, ret_opt=False, fnid="", is_closure=False):
        self.scope = scope
        self.returns = []  # (st, term)
        self.errs = []
        self.loops = []
        self.ret_opt = ret_opt
        self.chain = False  # body of an and_then: a tail x.ok() is not wrapped again
        self.fnid = fnid
        self.is_closure = is_closure
        self.mutrefs = set()  # parameters of type &mut
        self.shared = set()  # parameters of type & that no pattern of the body hides
        self.patrefs = {}  # names bound by reference into a place: name -> (place, variant, position, number of fields)
        self.refs = {}     # variables that are mutable references: name -> what they refer to (Engine.ref_node)
        self.iters = set()  # variables that are iterators
        self.hold = set()  # references changed by a loop: what they refer to is changed once the loop has ended


TRANSPARENT_M = {
    "clone", "to_owned", "as_ref", "as_mut", "borrow", "borrow_mut", "into", "to_vec", "as_slice", "cloned", "copied", "iter",
    "into_iter", "iter_mut", "unwrap", "expect", "by_ref", "as_mut_slice", "into_inner", "saturated_into", "unique_saturated_into",
    "as_deref", "to_string", "as_str", "to_runtime_string", "to_fixed", "into_boxed_slice", "as_u64", "as_u32", "as_u128", "as_usize",
    "peekable", "ref_into", "as_bytes", "into_vec", "as_mut_ref", "low_u128", "low_u64_x", "defensive", "into_bytes", "chars",
    "then_some_x", "deref", "deref_mut", "low_u32", "low_u64",
}
ERRMAP_M = {"map_err", "ok_or", "ok_or_else", "or_else_err", "context", "expect_err_x", "defensive_ok_or"}
BIN_M = {
    "checked_add": "+", "checked_sub": "-", "checked_mul": "*", "checked_div": "/", "add": "+", "sub": "-", "mul": "*", "div": "/",
    "saturating_add": "+", "saturating_mul": "*", "ensure_add": "+", "ensure_sub": "-", "ensure_mul": "*", "ensure_div": "/",
    "rem": "%", "checked_rem": "%",
    "eq": "==", "ne": "!=", "lt": "<", "gt": ">", "le": "<=", "ge": ">=", "checked_shl": "<<", "checked_shr": ">>", "wrapping_shl": "<<", "wrapping_shr": ">>", "bitand": "&", "bitor": "|",
    "rational_x": "/",
}
SAT_ASSIGN = {"saturating_accrue": ("saturating_add", 1), "saturating_reduce": ("saturating_sub", 1), "saturating_inc": ("saturating_add", 0), "saturating_dec": ("saturating_sub", 0)}
CHECKED_M = {"checked_add", "checked_mul", "checked_div", "checked_sub", "checked_rem", "checked_shl", "checked_shr", "checked_pow"}
AMOUNT_M = {"checked_add", "checked_sub", "saturating_sub", "min", "max", "lt", "le", "gt", "ge", "eq", "ne"}
AMOUNT_U = {"lock_on", "unlock_on", "mint_to", "burn_from", "checked_rounded_mul", "mul_ratio_floor", "convert_to", "to_signed_fixed_point", "to_unsigned_fixed_point", "set_currency",
            "ensure_is_redeemable", "ensure_is_issuable"}  # methods of no other type in the repository
CMP_M = {"eq", "ne", "lt", "gt", "le", "ge"}
MUT_M = {"mul_assign", "push", "insert", "extend", "append", "pop", "remove", "truncate", "sort", "sort_by", "sort_by_key", "reverse", "clear", "dedup", "retain", "drain",
         "push_back", "push_front", "pop_front", "pop_back", "extend_from_slice", "copy_from_slice", "swap", "swap_remove", "resize", "set", "force_push", "try_push", "try_insert",
         "try_append", "take", "replace", "get_or_insert", "bounded_ensure", "rotate_left", "fill", "advance", "dedup_by_key", "try_extend", "push_str",
         "clone_from_slice", "split_off", "sort_unstable", "input", "update", "write", "write_all", "write_slice", "dedup_by", "insert_or_x"}
IMPURE_M = {"parse", "parse_with", "next", "read", "read_exact", "next_word", "read_bytes"}
STORAGE_M = {"get", "try_get", "insert", "put", "set", "remove", "kill", "take", "mutate", "try_mutate", "mutate_exists", "try_mutate_exists",
             "contains_key", "exists", "iter", "iter_prefix", "iter_keys", "iter_values", "append", "try_append", "clear_prefix", "remove_prefix",
             "remove_all", "clear", "drain", "drain_prefix", "iter_prefix_values", "iter_key_prefix", "decode_len", "swap", "translate", "count",
             "iter_from", "iter_keys_from", "translate_values", "get_or_default_x", "counter_prefix_x", "hashed_key_for", "try_get_or_x"}
NARROW = {"u8", "i8", "u16", "i16", "u32", "i32", "i64", "bool"}
IGNORE_MACROS = {"debug", "info", "warn", "error", "trace", "log", "println", "print", "eprintln", "dbg", "frame_support_log", "debug_assert",
                 "debug_assert_eq", "debug_assert_ne"}


class Engine:
    def __init__(self, ix, opaque=(), inline_crates=(), inline=True, maxdepth=MAXDEPTH):
        self.ix = ix
        self.opaque = set(opaque)
        self.inline_crates = set(inline_crates)
        self.inline = inline
        self.maxdepth = maxdepth
        self.stack = []
        self.frames = []
        self.log = []
        self.seq = 0
        self.loopdepth = 0
        self.ty = {}
        tm.UNS.clear()
        self.framing = {}  # x.try_format(w) -> is x written as it is ("raw": a byte slice) or with its length ("framed": a field)? None: unknown
        self.optcalls = set()
        self.narrow_calls = {}
        self.want_len = {}  # call expression -> length of the byte array its result is used as
        self.late = {}  # query -> effects: a call of the query after one of these effects gets the argument @late() (with "#" among the effects: @late(number of effects so far))
        self.fnpath = {}  # term of a path naming a function -> (its syntax, scope)
        self.bools = set()
        self.impure = {}
        self.warn = []
        self.crate = None
        self.ninl = 0
        if not ENUMS:
            for (cr, n), vs in ix.enums.items():
                for v in vs:
                    ENUMS.setdefault("%s::%s" % (n, v), (n, ["%s::%s" % (n, w) for w in vs]))

    # ------------------------------------------------------------ resolve
    def abs_path(self, segs, scope):
        """resolve a path to absolute segments (crate first) or return segs unchanged with None crate"""
        ix = self.ix
        m = scope.mod
        s0 = segs[0]
        seen = 0
        if s0 == "crate":
            return [scope.crate] + list(segs[1:])
        if s0 == "self":
            return [scope.crate] + list(m.path) + list(segs[1:])
        if s0 == "super":
            p = list(m.path)
            r = list(segs)
            while r and r[0] == "super":
                r.pop(0)
                if p:
                    p.pop()
            return [scope.crate] + p + r
        if s0 == "Self":
            return ["Self"] + list(segs[1:])
        mods = [m]
        # nested modules see their own uses only, but FRAME pallet mods use super::*
        p = m.path
        if s0 in m.uses:
            u = m.uses[s0]
            if u[0] in ("crate", "self", "super"):
                return self.abs_path(u, Scope(m, None, m.crate)) + list(segs[1:])
            if u[0] == s0 and len(u) == 1:
                return list(segs)
            if u[0] in m.uses and u[0] != s0:
                return self.abs_path(u, Scope(m, None, m.crate)) + list(segs[1:])
            if (m.crate, m.path + (u[0],)) in ix.mods:
                return [m.crate] + list(m.path) + list(u) + list(segs[1:])
            return list(u) + list(segs[1:])
        if s0 in m.items:
            return [scope.crate] + list(m.path) + list(segs)
        # globs of enums, super, crate
        for g in m.globs:
            if g and s0[:1].isupper():
                ga = self.abs_path(g, Scope(m, scope.self_ty, m.crate)) if g != ["self"] and g[-1] != "super" else g
                en = (self.crate_alias(ga[0]) if len(ga) > 1 else m.crate, ga[-1])
                if en in ix.enums and s0 in ix.enums[en]:
                    return [en[0], en[1]] + list(segs)
            if g and g[0] in ("super", "crate", "self"):
                gp = self.abs_path(g, Scope(m, None, m.crate)) if g != ["self"] else None
                if gp:
                    k = (gp[0], tuple(gp[1:]))
                    mm = ix.mods.get(k)
                    if mm and mm is not m and (s0 in mm.items or s0 in mm.uses) and seen < 6:
                        seen += 1
                        return self.abs_path(segs, Scope(mm, None, mm.crate))
        if self.crate_alias(s0) in ix.crates:
            return list(segs)
        # parent modules (nested pallet mod with `use super::*`)
        if p:
            par = ix.mods.get((m.crate, p[:-1]))
            if par and (s0 in par.items or s0 in par.uses):
                return self.abs_path(segs, Scope(par, None, par.crate))
        root = ix.mods.get((m.crate, ()))
        if root and root is not m and (s0 in root.items or s0 in root.uses):
            return self.abs_path(segs, Scope(root, None, root.crate))
        # workspace globs: use foo::*;
        for g in m.globs + (root.globs if root else []):
            g0 = self.crate_alias(g[0])
            if g0 in ix.crates:
                mm = ix.mods.get((g0, tuple(g[1:]))) or ix.mods.get((g0, ()))
                if mm and (s0 in mm.items or s0 in mm.uses):
                    return [g0] + list(mm.path) + list(segs)
            mm = ix.mods.get((m.crate, tuple(g))) or ix.mods.get((m.crate, m.path + tuple(g)))
            if mm and s0 in mm.items:
                return [m.crate] + list(mm.path) + list(segs)
        return list(segs)

    def crate_alias(self, c):
        return {"primitives": "interbtc_primitives"}.get(c, c)

    def resolve_fn(self, segs, scope, qself=None, first_arg=None):
        """-> (Fn or None, canonical name)"""
        ix = self.ix
        if qself is not None:
            ty, pos = qself
            base = self.resolve_type(ty, scope)
            tail = segs[pos:] if pos else segs
            name = segs[-1]
            if base:
                c, tn = base
                for f in ix.by_name.get(name, []):
                    if f.crate == c and f.self_ty == tn and f.body is not None:
                        return f, f.id
                return None, "%s::%s" % ("::".join([c] + ([tn] if tn != "Pallet" else [])), name)
            b, _ = parse_type(ty)
            if len(b) == 1 and b[0][:1] in "uib":
                for f in ix.by_name.get(name, []):
                    if f.crate == scope.crate and f.self_ty == b[0] and f.body is not None:
                        return f, f.id
            if b and b[0].startswith("<"):
                b = [parse_type(b[0][1:].split(" as ")[0])[0][-1]] + b[1:]
            tr = segs[pos - 1] if pos else None
            if tr and len(b) == 1 and b[0] in ("T", "Self"):
                return None, "%s::%s" % (tr, name)
            return None, "::".join(b + [name])
        name = segs[-1]
        if len(segs) == 1:
            m = scope.mod
            if name in scope.local_consts.get("#fns", {}):
                f = scope.local_consts["#fns"][name]
                return f, f.id
            a = self.abs_path(segs, scope)
            if a != list(segs) or True:
                c = self.crate_alias(a[0])
                if c in ix.crates and len(a) > 1:
                    cands = [f for f in ix.by_name.get(name if name == a[-1] else a[-1], []) if f.crate == c and not f.self_ty]
                    ex = [f for f in cands if list(f.mod) == a[1:-1]]
                    cands = ex or cands
                    if cands:
                        return cands[0], cands[0].id
            if name in ("ensure_root", "ensure_signed", "ensure_none", "ensure_signed_or_root"):
                return None, "frame_system::" + name
            if len(a) > 1:
                return None, "::".join(a[-2:])
            return None, name
        if segs[0] == "Self":
            st = scope.self_ty
            if len(segs) == 2:
                if st:
                    cands = [f for f in ix.by_name.get(name, []) if f.crate == scope.crate and f.self_ty == st and f.body is not None]
                    if scope.trait:
                        tr = [f for f in cands if f.trait == scope.trait]
                        inh = [f for f in cands if not f.trait]
                        cands = inh or tr or cands
                    else:
                        inh = [f for f in cands if not f.trait]
                        cands = inh or cands
                    if cands and (not cands[0].trait or st != "Pallet" or (scope.crate, name) not in ix.getters):
                        return cands[0], cands[0].id
                if (scope.crate, name) in ix.getters:
                    return None, "#getter:" + name
                return None, "Self::" + name
            return None, "::".join(segs)
        if segs[0] in ("T", "I") or (len(segs[0]) == 1 and segs[0].isupper()):
            return None, "::".join(segs)
        a = self.abs_path(segs, scope)
        c = self.crate_alias(a[0])
        if c in ix.crates:
            q = a[-2] if len(a) > 2 else None
            cands = [f for f in ix.by_name.get(a[-1], []) if f.crate == c and f.body is not None]
            if q is not None:
                ty = [f for f in cands if f.self_ty == q]
                if ty:
                    inh = [f for f in ty if not f.trait]
                    if not inh and q == "Pallet" and (c, a[-1]) in ix.getters:
                        return None, "#getter:%s:%s" % (c, a[-1])     # inherent before trait
                    f = (inh or ty)[0]
                    return f, f.id
                # alias type
                al = ix.types.get((c, q))
                if al:
                    r = self.resolve_type(al, scope)
                    if r:
                        ty = [f for f in ix.by_name.get(a[-1], []) if f.crate == r[0] and f.self_ty == r[1] and f.body is not None]
                        if ty:
                            return ty[0], ty[0].id
                md = [f for f in cands if not f.self_ty and f.mod and f.mod[-1] == q]
                if md:
                    return md[0], md[0].id
                if (c, q) in ix.traits:
                    return None, "%s::%s" % (q, a[-1])
                if (c, a[-1]) in ix.getters and q == "Pallet":
                    return None, "#getter:%s:%s" % (c, a[-1])
                # pub use re-export of a type
                if (c, q) not in ix.structs and (c, q) not in ix.enums and q[0].isupper() and q != "Pallet":
                    r = self.resolve_type("::".join(a[:-1]), Scope(ix.mods.get((c, ()), scope.mod), None, c))
                    if r and r != (c, q):
                        ty = [f for f in cands0(ix, a[-1], r)]
                        if ty:
                            f = ([f for f in ty if not f.trait] or ty)[0]
                            return f, f.id
                # pub use re-export of a module's functions
                if (c, q) not in ix.structs and (c, q) not in ix.enums:
                    fr = [f for f in cands if not f.self_ty]
                    if len(fr) == 1 and q not in ("Pallet",):
                        return fr[0], fr[0].id
                return None, "::".join([c] + ([q] if q != "Pallet" else []) + [a[-1]])
            fr = [f for f in cands if not f.self_ty]
            if fr:
                return fr[0], fr[0].id
            return None, "::".join([c, a[-1]])
        # a foreign type for which this crate implements a trait
        if len(segs) == 2:
            ty = [f for f in ix.by_name.get(name, []) if f.crate == scope.crate and f.trait and f.self_ty == segs[0] and f.body is not None]
            if len(ty) == 1:
                return ty[0], ty[0].id
        return None, "::".join(segs[-2:])

    def resolve_type(self, ty, scope, depth=0):
        """-> (crate, TypeName) for workspace types"""
        if ty is None or depth > 6:
            return None
        ix = self.ix
        base, args = parse_type(ty)
        if not base:
            return None
        n = base[-1]
        if base == ["Self"]:
            if scope.self_ty and (scope.crate, scope.self_ty) not in ix.structs and (scope.crate, scope.self_ty) not in ix.enums and scope.self_ty != "Pallet":
                return self.resolve_type(scope.self_ty, Scope(scope.mod, None, scope.crate), depth + 1) or (scope.crate, scope.self_ty)
            return (scope.crate, scope.self_ty) if scope.self_ty else None
        if n in ("Box", "Rc", "Arc", "Option", "Result") and args:
            return self.resolve_type(args[0], scope, depth + 1)
        if base[0].startswith("<"):
            return None
        if n == "BalanceOf" or n == "AccountIdOf":
            return None
        a = self.abs_path(base, scope)
        c = self.crate_alias(a[0])
        if c in ix.crates:
            t = a[-1]
            if (c, t) in ix.structs or (c, t) in ix.enums:
                return (c, t)
            if (c, t) in ix.types:
                r = self.resolve_type(ix.types[(c, t)], Scope(ix.mods.get((c, ()), scope.mod), None, c), depth + 1)
                if r:
                    return r
            if t == "Pallet" or t == "Module":
                return (c, "Pallet")
            # re-export
            mm = ix.mods.get((c, tuple(a[1:-1])))
            if mm and t in mm.uses and depth < 5:
                return self.resolve_type("::".join(mm.uses[t]), Scope(mm, None, c), depth + 1)
            root = ix.mods.get((c, ()))
            if root and t in root.uses and depth < 5:
                return self.resolve_type("::".join(root.uses[t]), Scope(root, None, c), depth + 1)
        else:
            # unqualified, look for a unique local struct/enum/alias
            if len(base) == 1:
                if (scope.crate, n) in ix.structs or (scope.crate, n) in ix.enums:
                    return (scope.crate, n)
                if (scope.crate, n) in ix.types:
                    return self.resolve_type(ix.types[(scope.crate, n)], scope, depth + 1)
        return None

    def storage_of(self, ty_or_segs, scope):
        """storage item dict for a path like Foo / <Foo<T>> / crate::Foo"""
        if isinstance(ty_or_segs, str):
            base, _ = parse_type(ty_or_segs)
        else:
            base = list(ty_or_segs)
        if not base or base[0].startswith("<"):
            return None
        n = base[-1]
        ix = self.ix
        if len(base) == 1:
            if (scope.crate, n) in ix.storage:
                # local shadowing by struct of same name is not a concern in FRAME
                return ix.storage[(scope.crate, n)]
            a = self.abs_path(base, scope)
        else:
            a = self.abs_path(base, scope)
        c = self.crate_alias(a[0])
        return ix.storage.get((c, a[-1]))

    def variant(self, segs, scope):
        """canonical enum variant name or None"""
        n = segs[-1]
        if len(segs) == 1:
            if n in ("Some", "None", "Ok", "Err"):
                return n
            a = self.abs_path(segs, scope)
            if len(a) >= 2:
                c = self.crate_alias(a[0])
                if (c, a[-2]) in self.ix.enums and a[-1] in self.ix.enums[(c, a[-2])]:
                    return "%s::%s" % (a[-2], a[-1])
            return None
        t = segs[-2]
        if segs[0] == "Self" and len(segs) == 2:
            t = scope.self_ty or "Self"
            for (cr, en), vs in self.ix.enums.items():
                if en == t and n in vs:
                    return "%s::%s" % (t, n)
            return None
        if t in ("Option", "Result") and n in ("Some", "None", "Ok", "Err"):
            return n
        a = self.abs_path(segs, scope)
        if len(a) >= 2:
            c = self.crate_alias(a[0])
            t2 = a[-2]
            for cr in (c, scope.crate):
                if (cr, t2) in self.ix.enums and a[-1] in self.ix.enums[(cr, t2)]:
                    return "%s::%s" % (t2, a[-1])
                if (cr, t2) in self.ix.types:
                    r = self.resolve_type(self.ix.types[(cr, t2)], scope)
                    if r and r in self.ix.enums and a[-1] in self.ix.enums[r]:
                        return "%s::%s" % (r[1], a[-1])
            for (cr, en), vs in self.ix.enums.items():
                if en == t2 and a[-1] in vs:
                    return "%s::%s" % (t2, a[-1])
        return None

    def const(self, segs, scope):
        ix = self.ix
        n = segs[-1]
        if len(segs) == 1:
            if n in scope.local_consts:
                return scope.local_consts[n]
            p = scope.mod.path
            while True:
                k = (scope.crate, p[-1] if p else "", n)
                if k in ix.consts:
                    return ix.consts[k]
                if not p:
                    break
                p = p[:-1]
            a = self.abs_path(segs, scope)
        elif segs[0] == "Self":
            k = (scope.crate, scope.self_ty, n)
            return ix.consts.get(k)
        else:
            a = self.abs_path(segs, scope)
        c = self.crate_alias(a[0])
        if c in ix.crates and len(a) > 1:
            for q in ([a[-2]] if len(a) > 2 else []) + [""]:
                k = (c, q, a[-1])
                if k in ix.consts:
                    return ix.consts[k]
            l = [v for k, v in ix.consts.items() if k[0] == c and k[2] == a[-1]]
            if len(l) == 1:
                return l[0]
        if len(a) == 1 or True:
            l = [v for k, v in ix.consts.items() if k[0] == scope.crate and k[2] == n]
            if len(l) == 1 and n.isupper():
                return l[0]
        return None

    # ------------------------------------------------------------ events
    def emit(self, st, kind, name, args, term, line, scope):
        self.seq += 1
        loc = "%s:%s" % (scope.mod.file, line)
        e = Event(kind, name, args, term, st.facts, loc, tuple(self.stack), self.seq, self.loopdepth > 0)
        e.st = None
        self.log.append(e)
        s2 = St(st.env, st.facts, st.events + ((TRUE, e),), st.pc, st.heap)
        return s2

    def note(self, kind, name, args, term, line, scope, st):
        """an event of the log only: it changes no state"""
        self.seq += 1
        e = Event(kind, name, args, term, st.facts, "%s:%s" % (scope.mod.file, line), tuple(self.stack), self.seq, self.loopdepth > 0)
        e.st = None
        self.log.append(e)

    # ------------------------------------------------------------ function analysis
    def fn_scope(self, f):
        sc = Scope(self.ix.mods[(f.crate, f.mod)], f.self_ty, f.crate, f.trait)
        return sc

    def analyze(self, f, argnames=None):
        """analyse a function as an entry point. Parameters become ('p', i, name)."""
        self.crate = f.crate
        sc = self.fn_scope(f)
        args = []
        for i, (pat, ty) in enumerate(f.params):
            n = pat[1] if pat[0] == "pid" else "arg%d" % i
            if argnames and i < len(argnames):
                n = argnames[i]
            t = mk("p", i, n, "u") if isinstance(ty, str) and ty.strip() in tm.UNSIGNED else mk("p", i, n)
            r = self.resolve_type(ty, sc)
            if r:
                self.ty[t.id] = r
            if pat[0] == "pid" and pat[1] == "self" and f.self_ty:
                self.ty[t.id] = self.resolve_type("Self", sc) or (f.crate, f.self_ty)
            args.append(t)
        st = St({}, EMPTY, (), (), {})
        ok, err, _ = self.run_fn(f, args, st, entry=True)
        return Summary(self, f, args, ok, err)

    def run_fn(self, f, args, st, entry=False):
        """evaluate body; returns (ok:(st,val)|None, err:(st,val)|None, is_result)"""
        sc = self.fn_scope(f)
        ret = f.ret or "()"
        rb = parse_type(ret)[0]
        rname = rb[-1] if rb else ""
        is_res = rname in ("Result", "DispatchResult", "DispatchResultWithPostInfo", "PResult", "TransactionValidity", "XcmResult") or rname.endswith("Result")
        fr = Frame(sc, ret_opt=(rname == "Option"), fnid=f.id)
        self.frames.append(fr)
        self.stack.append(f.id)
        saved_env = st.env
        base_pc = st.pc
        env = {}
        s = St(env, st.facts, st.events, st.pc, st.heap)
        for (pat, ty), a in zip(f.params, args):
            if ty and pat[0] == "pid" and (ty.startswith("&mut") or "&mut" in ty[:12] or ty.startswith("&'a mut")):
                fr.mutrefs.add(pat[1])
            elif ty and pat[0] == "pid" and ty.startswith("&") and "Cell" not in ty and (pat[1] == "self" or not rebinds(f.body, pat[1])):
                fr.shared.add(pat[1])
            s = self.bind(pat, a, s)
            if not entry and ty in tm.UNSIGNED and a.op in ("field", "payload", "call", "elem", "ite"):
                s = s.assume(tm.le(I(0), a)) or s
            if ty and isinstance(a, T) and ty.replace(" ", "").lstrip("&").startswith("Option<"):
                self.optcalls.add(a.id)
            if ty and not isinstance(a, Clo):
                r = self.resolve_type(ty, sc)
                if r and a.id not in self.ty and not ty.startswith("Option<") and not ty.startswith("Vec<"):
                    self.ty[a.id] = r
        outs_ok, outs_err = [], []
        if f.body is None:
            self.frames.pop()
            self.stack.pop()
            return (St(saved_env, st.facts, st.events, st.pc, st.heap), mk("call", f.id, *args)), None, is_res
        if is_res:
            o, e = self.res(f.body, s, fr)
            if o:
                fr.returns.append((o[0], mk("ctor", "Ok", o[1])))
            if e:
                fr.errs.append(e)
        else:
            v, s2 = self.ev(f.body, s, fr)
            if s2 is not None:
                fr.returns.append((s2, v))
        self.frames.pop()
        self.stack.pop()
        for s2, v in fr.returns:
            if is_res:
                o, e = split_res(v, s2)
                if o:
                    outs_ok.append(o)
                if e:
                    outs_err.append(e)
            else:
                outs_ok.append((s2, v))
        outs_err += fr.errs
        if not is_res and fr.ret_opt:
            def some(v):
                if isinstance(v, T) and v.op == "ite":
                    return tm.ite(v.args[0], some(v.args[1]), some(v.args[2]))
                if isinstance(v, T) and v.op == "ctor" and v.args[0] in ("Ok", "Err") and "Result" not in (f.ret or ""):
                    return mk("ctor", "Some", v.args[1]) if v.args[0] == "Ok" else NONE
                return mk("ctor", "Some", v) if isinstance(v, T) and v.op in ("add", "sub", "mul", "div", "mod") else v
            outs_ok = [(s2, some(v)) for s2, v in outs_ok]
            outs_ok += [(s2, NONE) for s2, v in fr.errs]
            outs_err = []
        elif not is_res and not entry:
            outs_ok += outs_err
            outs_err = []
        self.last_env = None
        if entry:
            self.err_exits = list(outs_err)
            self.ok_exits = list(outs_ok)
        ok = merge_outs(outs_ok, base_pc)
        err = merge_outs(outs_err, base_pc)
        return ok, err, is_res

    # ------------------------------------------------------------ patterns
    def bind(self, pat, v, st):
        env = dict(st.env)
        self._bind(pat, v, env)
        if self.frames and (self.frames[-1].patrefs or self.frames[-1].refs):
            ns = set()
            pat_names(pat, ns)
            for n in ns:
                self.frames[-1].patrefs.pop(n, None)
                self.frames[-1].refs.pop(n, None)
        return St(env, st.facts, st.events, st.pc, st.heap)

    def _bind(self, pat, v, env):
        k = pat[0]
        if k == "pid":
            env[pat[1]] = v
            if pat[4]:
                self._bind(pat[4], v, env)
        elif k == "ptup":
            rest = [i for i, p in enumerate(pat[1]) if p[0] == "prest"]
            for i, p in enumerate(pat[1]):
                if p[0] != "prest":
                    j = i
                    if rest and i > rest[0]:
                        j = i
                    self._bind(p, tm.field(v, str(j)) if not isinstance(v, Clo) else v, env)
        elif k == "pts":
            sc = self.frames[-1].scope if self.frames else None
            var = self.variant(pat[1], sc) if sc else None
            for i, p in enumerate(pat[2]):
                if p[0] != "prest":
                    pv = tm.payload(var, i, v) if var else tm.field(v, str(i))
                    if var and "::" in var:
                        en = [kk for kk in self.ix.enums if kk[1] == var.split("::")[0]]
                        if en:
                            fl = self.ix.enum_fields[en[0]].get(var.split("::")[1], [])
                            if i < len(fl):
                                r = self.resolve_type(fl[i][1], Scope(self.ix.mods.get((en[0][0], ())) or sc.mod, None, en[0][0]))
                                if r:
                                    self.ty.setdefault(pv.id, r)
                    elif var in ("Some", "Ok") and v.id in self.ty:
                        self.ty.setdefault(pv.id, self.ty[v.id])
                    self._bind(p, pv, env)
        elif k == "pst":
            sc = self.frames[-1].scope if self.frames else None
            var = self.variant(pat[1], sc) if sc and len(pat[1]) > 1 else None
            for fn, p in pat[2]:
                if not var and sc and isinstance(v, T):
                    so = self.resolve_type("::".join(pat[1]), sc)
                    if so in self.ix.structs and (fn, True) in [(x, (t or "").strip() in tm.UNSIGNED) for x, t in self.ix.structs[so]]:
                        tm.UNS.add(tm.field(v, fn).id)
                self._bind(p, tm.payload(var, fn, v) if var else tm.field(v, fn), env)
        elif k == "ptype":
            self._bind(pat[1], v, env)
        elif k == "por":
            names = set()
            pat_names(pat[1][0], names)
            self._bind(pat[1][-1], v, env)
            sc = self.frames[-1].scope if self.frames else None
            for p in reversed(pat[1][:-1]):
                e2 = dict(env)
                self._bind(p, v, e2)
                c = self.pat_cond(p, v, sc) if sc else TRUE
                for n in names:
                    if n in e2 and n in env and isinstance(e2[n], T) and isinstance(env[n], T):
                        env[n] = tm.ite(c, e2[n], env[n]) if not n[0].isupper() else env[n]
        elif k == "pslice":
            n = len(pat[1])
            rest = [i for i, p in enumerate(pat[1]) if is_rest(p)]
            for i, p in enumerate(pat[1]):
                if p[0] == "prest":
                    continue
                if is_rest(p):
                    tail = n - 1 - i
                    hi = tm.sub(mk("len", v), I(tail)) if tail else mk("inf")
                    env[p[1]] = v if (i == 0 and not tail) else tm.index(v, mk("range", I(i), hi))
                elif rest and i > rest[0]:
                    self._bind(p, tm.index(v, tm.sub(mk("len", v), I(n - i))), env)
                else:
                    self._bind(p, tm.index(v, I(i)), env)

    def alias(self, pat, place, fr):
        """bindings of a pattern that is matched against a place refer to that place"""
        if not self.is_lvalue(place):
            return
        if pat[0] == "pts" and not any(p[0] == "prest" for p in pat[2]):
            var = self.variant(pat[1], fr.scope)
            if var:
                for i, p in enumerate(pat[2]):
                    if p[0] == "pid" and (p[2] or not p[3]) and not p[4]:
                        fr.patrefs[p[1]] = (place, var, i, len(pat[2]))

    def ref_node(self, e, fr, bound=(), payload=False):
        """the place that an expression of a mutable reference type refers to"""
        k = e[0]
        if k == "try":
            return self.ref_node(e[2], fr, bound, True)
        if k == "mcall":
            n = e[3]
            if n in ("ok_or", "ok_or_else", "unwrap", "expect", "defensive_ok_or"):
                return self.ref_node(e[2], fr, bound, payload or n in ("unwrap", "expect"))
            if n == "as_mut" and payload and self.is_lvalue(e[2]):
                return ("some", e[2])
            if n == "get_mut" and payload and self.is_lvalue(e[2]) and len(e[5]) == 1:
                return ("place", ["index", e[1], e[2], e[5][0]])
            return None
        if payload:
            return None
        if k == "ref" and e[2] is True and self.is_lvalue(e[3]):
            return ("place", e[3])
        if k == "path" and len(e[2]) == 1:
            n = e[2][0]
            if n in bound or n in fr.patrefs or n in fr.refs:
                return ("place", e)
            return None
        if k == "match":
            arms = []
            for pat, guard, body in e[3]:
                while body[0] == "block" and len(body[2]) == 1 and body[2][0][0] == "sexpr" and not body[2][0][3]:
                    body = body[2][0][2]
                if body[0] == "ret":
                    continue
                ns = set()
                pat_names(pat, ns)
                nd = self.ref_node(body, fr, ns)
                if nd is None or guard is not None:
                    return None
                arms.append((pat, nd))
            return ("arms", e[2], arms) if arms and self.is_lvalue(e[2]) else None
        return None

    def refer(self, pat, init, fr):
        while init[0] in ("paren", "ref") and pat[0] == "pst":
            init = init[-1]
        if pat[0] == "pst" and self.is_lvalue(init) and not (len(pat[1]) > 1 and self.variant(pat[1], fr.scope)):
            for fn, p in pat[2]:
                if p[0] == "pid" and (p[2] or not p[3]) and not p[4]:
                    fr.refs[p[1]] = ("place", ["field", init[1], init, fn])     # a binding by reference (one by value cannot be changed)
            return
        if pat[0] != "pid" or pat[3] or pat[4]:
            return
        names = set()
        nd = self.ref_node(init, fr)
        if nd is None:
            return
        root_name(nd[1], names)
        if pat[1] not in names:
            fr.refs[pat[1]] = nd

    def put(self, nd, v, s, fr):
        """the state after v was stored through a reference"""
        if nd[0] == "place":
            return self.store(nd[1], v, s, fr)
        if nd[0] == "some":
            return self.store(nd[1], mk("ctor", "Some", v), s, fr)
        base, s = self.ev(nd[1], s, fr)
        cur, outs = s, []
        for i, (pat, n2) in enumerate(nd[2]):
            if cur is None:
                break
            c = self.pat_cond(pat, base, fr.scope)
            t = cur.assume(c)
            cur = cur.assume(tm.neg(c))
            if t is None:
                continue
            t = self.bind(pat, base, t)
            self.alias(pat, nd[1], fr)
            outs.append((c, keep(self.put(n2, v, t, fr), s)))
        r = None
        for c, t in reversed(outs):
            r = join(t, r, c) if r is not None else t
        return St(r.env, s.facts, s.events, s.pc, s.heap) if r is not None else s

    def through(self, n, v, st, fr):
        """n was changed: if it is a reference, so was what it refers to"""
        if n in fr.hold or not isinstance(v, T):
            return st
        if n in fr.patrefs:
            place, var, i, k = fr.patrefs[n]
            base, s = self.ev(place, st, fr)
            if s is not None and isinstance(base, T):
                return self.store(place, mk("ctor", var, *[v if j == i else tm.payload(var, j, base) for j in range(k)]), s, fr)
        elif n in fr.refs:
            return self.put(fr.refs[n], v, st, fr)
        return st

    def pat_cond(self, pat, v, scope):
        k = pat[0]
        if k == "pid":
            n = pat[1]
            if pat[4]:
                return self.pat_cond(pat[4], v, scope)
            if n[0].isupper():
                var = self.variant([n], scope)
                if var:
                    return tm.isv(var, v)
                c = self.const([n], scope)
                if c is not None:
                    return tm.eq(v, self.const_val(c, n))
            return TRUE
        if k in ("pwild", "prest"):
            return TRUE
        if k == "ppath":
            var = self.variant(pat[1], scope)
            if var:
                return tm.isv(var, v)
            return tm.eq(v, self.path_val(pat[1], None, None, scope))
        if k == "pts":
            var = self.variant(pat[1], scope)
            if var is None:
                # unknown (foreign) enum variant, or tuple struct
                if len(pat[1]) > 1 or pat[1][0] in ("Unsigned",):
                    var = "::".join(pat[1][-2:])
                else:
                    return tm.conj([self.pat_cond(p, tm.field(v, str(i)), scope) for i, p in enumerate(pat[2])])
            return tm.conj([tm.isv(var, v)] + [self.pat_cond(p, tm.payload(var, i, v), scope) for i, p in enumerate(pat[2])])
        if k == "pst":
            var = self.variant(pat[1], scope) if len(pat[1]) > 1 else None
            if var is None and len(pat[1]) > 1 and pat[1][0] != "Self":
                var = "::".join(pat[1][-2:])
            cs = [tm.isv(var, v)] if var else []
            return tm.conj(cs + [self.pat_cond(p, tm.payload(var, f, v) if var else tm.field(v, f), scope) for f, p in pat[2]])
        if k == "ptup":
            return tm.conj([self.pat_cond(p, tm.field(v, str(i)), scope) for i, p in enumerate(pat[1])])
        if k == "plit":
            return tm.eq(v, self.lit(pat[1]))
        if k == "prange":
            cs = []
            if pat[1]:
                lo = self.pure(pat[1], scope)
                if not (lo is I(0) and not str(self.ty.get(v.id) or "u").lstrip("(\"'").startswith("i")):
                    cs.append(tm.le(lo, v))
            if pat[2] and not (pat[3] and pat[2][0] == "path" and pat[2][2][-1] == "MAX" and len(pat[2][2]) > 1 and pat[2][2][-2] in INTSIZE):    # the end of the type
                hi = self.pure(pat[2], scope)
                cs.append(tm.le(v, hi) if pat[3] else tm.lt(v, hi))
            return tm.conj(cs)
        if k == "por":
            return tm.disj([self.pat_cond(p, v, scope) for p in pat[1]])
        if k == "ptype":
            return self.pat_cond(pat[1], v, scope)
        if k == "pslice":
            cs = []
            rest = [i for i, p in enumerate(pat[1]) if is_rest(p)]
            n = len(pat[1])
            if not rest:
                cs.append(tm.eq(mk("len", v), I(n)))
                for i, p in enumerate(pat[1]):
                    cs.append(self.pat_cond(p, tm.index(v, I(i)), scope))
            else:
                cs.append(tm.le(I(n - 1), mk("len", v)))
                for i, p in enumerate(pat[1][: rest[0]]):
                    cs.append(self.pat_cond(p, tm.index(v, I(i)), scope))
                for i, p in enumerate(pat[1]):
                    if i > rest[0]:
                        cs.append(self.pat_cond(p, tm.index(v, tm.sub(mk("len", v), I(n - i))), scope))
            return tm.conj(cs)
        if k == "popaque":
            m = re.match(r"b?stringify ?! ?\( ?(\w+) ?\)$", pat[1])
            if m:
                return tm.eq(v, mk("str", m[1]))
        return mk("opaquecond", repr(pat)[:80], v)

    def pure(self, e, scope):
        fr = Frame(scope)
        self.frames.append(fr)
        v, _ = self.ev(e, St({}, EMPTY, (), (), {}), fr)
        self.frames.pop()
        return v

    def lit(self, e):
        k, v = e[2], e[3]
        if k == "int":
            return I(int(v))
        if k == "bool":
            return B(v)
        if k in ("str", "bstr"):
            return mk("str", v)
        return mk("lit", v)

    def const_val(self, c, name):
        ty, expr, m = c
        if expr is None:
            return mk("path", name)
        if getattr(self, "_cdepth", 0) > 10:
            return mk("path", name)
        self._cdepth = getattr(self, "_cdepth", 0) + 1
        v = self.pure(expr, Scope(m, None, m.crate))
        self._cdepth -= 1
        if v is None or v is FALSE and False:
            return mk("path", name)
        return v

    def path_val(self, segs, gargs, qself, scope):
        n = segs[-1]
        if qself is None:
            var = self.variant(segs, scope)
            if var:
                return mk("ctor", var)
            if len(segs) == 2 and segs[0] in ("u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "usize"):
                bits = int(segs[0][1:]) if segs[0] != "usize" else 64
                if n == "MAX":
                    return I((1 << bits) - 1 if segs[0][0] == "u" else (1 << (bits - 1)) - 1)
                if n == "MIN":
                    return I(0 if segs[0][0] == "u" else -(1 << (bits - 1)))
                if n == "BITS":
                    return I(bits)
            c = self.const(segs, scope)
            if c is not None:
                return self.const_val(c, n)
            if len(segs) >= 2 and segs[-2] == "Error":
                return mk("ctor", "Error::" + n)
            if len(segs) >= 2:
                a = self.abs_path(segs, scope) if segs[0] != "Self" else list(segs)
                if a[-2][:1].isupper() and n[:1].isupper() and any(x.islower() for x in n):
                    return mk("ctor", "::".join(a[-2:]))  # a variant of a foreign enum
                return mk("path", "::".join(a[-2:]))
            a = self.abs_path(segs, scope)
            if len(a) > 1 and a[-2][:1].isupper() and n[:1].isupper() and any(x.islower() for x in n):
                return mk("ctor", "::".join(a[-2:]))
            if len(a) > 1:
                return mk("path", "::".join(a[-2:]) if a[-2][0].isupper() else a[-1])
            return mk("path", n)
        if qself[0] in ("u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "usize") and not qself[1:2] == ["x"]:
            return self.path_val([qself[0], n], None, None, scope)
        base = self.resolve_type(qself[0], scope)
        if base:
            c = self.ix.consts.get((base[0], base[1], n))
            if c is not None:
                return self.const_val(c, n)
        return mk("path", "%s::%s" % (parse_type(qself[0])[0][-1] if parse_type(qself[0])[0] else qself[0], n))

    # ------------------------------------------------------------ conditions
    def cond(self, e, st, fr):
        """-> (cond term, st_true|None, st_false|None)"""
        k = e[0]
        if k == "let":
            v, s = self.ev(e[3], st, fr)
            if s is None:
                return FALSE, None, None
            c = self.pat_cond(e[2], v, fr.scope)
            t = s.assume(c)
            if t is not None:
                t = self.bind(e[2], v, t)
                self.alias(e[2], e[3], fr)
            f = s.assume(tm.neg(c))
            return c, t, f
        if k == "bin" and e[2] == "&&":
            c1, t1, f1 = self.cond(e[3], st, fr)
            if t1 is None:
                return c1, None, f1
            c2, t2, f2 = self.cond(e[4], t1, fr)
            c = tm.conj([c1, c2])
            if f1 is None:
                return c2, t2, f2
            if f2 is None:
                return c, t2, f1
            f = self.joinf(f1, f2, tm.neg(c1), tm.neg(c), st)
            if t2 is not None:
                t2 = St(t2.env, t2.facts, t2.events, st.pc + (c,), t2.heap)
            return c, t2, f
        if k == "bin" and e[2] == "||":
            c1, t1, f1 = self.cond(e[3], st, fr)
            if f1 is None:
                return c1, t1, None
            c2, t2, f2 = self.cond(e[4], f1, fr)
            c = tm.disj([c1, c2])
            if t1 is None:
                return c2, t2, f2
            if t2 is None:
                return c, t1, f2
            t = self.joinf(t1, t2, c1, c, st)
            if f2 is not None:
                f2 = St(f2.env, f2.facts, f2.events, st.pc + (tm.neg(c),), f2.heap)
            return c, t, f2
        if k == "un" and e[2] == "!":
            c, t, f = self.cond(e[3], st, fr)
            return tm.neg(c), f, t
        if k == "macro" and e[2] == "matches" and e[3] and len(e[3]) == 3:
            v, s = self.ev(e[3][0], st, fr)
            if s is None:
                return FALSE, None, None
            c = self.pat_cond(e[3][1], v, fr.scope)
            if e[3][2]:
                t = s.assume(c)
                if t is None:
                    return FALSE, None, s
                t = self.bind(e[3][1], v, t)
                g, _ = self.ev(e[3][2], t, fr)
                c = tm.conj([c, g])
            return c, s.assume(c), s.assume(tm.neg(c))
        v, s = self.ev(e, st, fr)
        if s is None:
            return FALSE, None, None
        return v, s.assume(v), s.assume(tm.neg(v))

    def joinf(self, a, b, c, cond, st):
        j = join(a, b, c)
        n = j.facts.add(cond)
        pc = st.pc + (cond,)
        return St(j.env, n or j.facts, j.events, pc, j.heap)

    # ------------------------------------------------------------ Result-aware evaluation
    def res(self, e, st, fr):
        """evaluate a Result-typed expression: -> (ok (st,val)|None, err (st,val)|None)"""
        k = e[0]
        if st is None:
            return None, None
        if k == "block":
            s, tail, fs = self.stmts(e[2], st, fr)
            if s is None:
                return None, None
            if tail is None:
                return (self.unscope(s, st), UNIT), None
            if tail == "unit":
                return (self.unscope(s, st), UNIT), None
            o, er = self.res(tail, s, fr)
            o = (self.unscope(o[0], st), o[1]) if o else None
            er = (self.unscope(er[0], st), er[1]) if er else None
            return o, er
        if k == "if":
            c, t, f = self.cond(e[2], st, fr)
            ot, et = self.res(e[3], t, fr) if t is not None else (None, None)
            if e[4] is None:
                of, ef = ((f, UNIT), None) if f is not None else (None, None)
            else:
                of, ef = self.res(e[4], f, fr) if f is not None else (None, None)
            return jo(ot, of, c), jo(et, ef, c)
        if k == "match":
            return self.match(e, st, fr, self.res_arm)
        if k == "call":
            f = e[2]
            if f[0] == "path":
                n = f[2][-1]
                if n == "Ok" and self.variant(f[2], fr.scope) == "Ok":
                    v, s = self.args(e[3], st, fr)
                    return ((s, v[0] if v else UNIT), None) if s is not None else (None, None)
                if n == "Err" and self.variant(f[2], fr.scope) == "Err":
                    v, s = self.args(e[3], st, fr)
                    return (None, (s, v[0])) if s is not None else (None, None)
                return self.call(e, st, fr)
        if k == "mcall":
            if e[3] in ERRMAP_M and e[3] in ("map_err", "context"):
                return self.res(e[2], st, fr)
            if e[3] == "ok" and not e[5] and fr.chain:
                return self.res(e[2], st, fr)
            if e[3] in ("map", "and_then") and len(e[5]) == 1 and not iterlike(e[2]):
                # only if receiver is a fallible call we can split
                o, er = self.res(e[2], st, fr)
                if o is None:
                    return None, er
                self._split_hint = None
                if er is None and isinstance(o[1], T) and (self.is_optionish(o[1]) or e[3] == "map" and self.option_context(o[1], e[3], e[5], e[2])):
                    # Option map: evaluate generically
                    v, s = self.option_hof(e[3], o[1], e[5], o[0], fr, e[1])
                    if s is None:
                        return None, None
                    return split_res(v, s)
                fv = e[5][0]
                if e[3] == "map":
                    v, s = self.apply(fv, [o[1]], o[0], fr)
                    return ((s, v) if s is not None else None), er
                o2, er2 = self.apply_res(fv, [o[1]], o[0], fr, res="chain")
                return o2, jo(er, er2, None)
            return self.mcall(e, st, fr)
        if k == "macro" and e[2] in ("ensure", "fail", "require"):
            v, s = self.ev(e, st, fr)
            return ((s, v) if s is not None else None), None
        if k == "ret" or k == "try":
            v, s = self.ev(e, st, fr)
            if s is None:
                return None, None
            return split_res(v, s)
        v, s = self.ev(e, st, fr)
        if s is None:
            return None, None
        return split_res(v, s)

    def res_arm(self, body, st, fr):
        return self.res(body, st, fr)

    def is_optionish(self, t):
        return t.op in ("opt",) or t.id in self.optcalls or t.op == "ctor" and t.args[0] in ("Some", "None") or (t.op == "ite" and (self.is_optionish(t.args[1]) or self.is_optionish(t.args[2])))

    def unscope(self, s, outer):
        """restore shadowed names: keep only variables of the outer scope, with inner assignments (tracked by name)"""
        return s

    # ------------------------------------------------------------ statements
    def stmts(self, sts, st, fr):
        """-> (st, tail expr | None | 'unit', None); tail is the final expression without semicolon"""
        s = st
        # nested items first
        for x in sts:
            if x[0] == "sitem":
                it = x[2][0]
                if it[0] == "use":
                    m = copy.copy(fr.scope.mod)
                    m.uses, m.globs = dict(m.uses), list(m.globs)
                    for pth, n in it[2]:
                        if n == "*":
                            m.globs.append(pth)
                        else:
                            m.uses[n] = pth
                    fr.scope.mod = m
                elif it[0] == "const":
                    fr.scope.local_consts[it[2]] = (it[3], it[4], fr.scope.mod)
                elif it[0] == "fn":
                    from .index import Fn
                    f = Fn()
                    _, f.line, f.name, f.attrs, f.vis, f.params, f.ret, f.body, f.generics = it
                    f.crate, f.mod, f.file = fr.scope.crate, fr.scope.mod.path, fr.scope.mod.file
                    f.self_ty = f.self_full = f.trait = None
                    f.impl_attrs = ()
                    f.is_call = False
                    fr.scope.local_consts.setdefault("#fns", {})[f.name] = f
        for i, x in enumerate(sts):
            if s is None:
                return None, None, None
            if x[0] == "slet":
                _, l, pat, ty, init, els = x
                if init is None:
                    self.declare(pat, s)
                    if pat[0] == "pid":
                        s = self.bind(pat, mk("uninit"), s)
                    continue
                if ty:
                    init = self.convert_to(init, ty, fr.scope)
                self.let_ty = ty
                v, s = self.ev(init, s, fr)
                self.let_ty = None
                if s is None:
                    return None, None, None
                if ty and not isinstance(v, Clo):
                    m = re.match(r"\[\s*[ui](?:8|16|32|64|128)\s*;\s*(\d+)\s*\]$", ty) if v is mk("default") else None
                    if m:
                        v = mk("repeat", I(0), I(int(m.group(1))))
                    r = self.resolve_type(ty, fr.scope)
                    if r and v.id not in self.ty:
                        self.ty[v.id] = r
                if els is not None:
                    c = self.pat_cond(pat, v, fr.scope)
                    f = s.assume(tm.neg(c))
                    if f is not None:
                        _, f2 = self.ev(els, f, fr)
                    s = s.assume(c)
                    if s is None:
                        return None, None, None
                s = self.bind(pat, v, s)
                if els is None:
                    self.refer(pat, init, fr)
                if pat[0] == "pid":
                    (fr.iters.add if iterating(init) else fr.iters.discard)(pat[1])
            elif x[0] == "sitem":
                continue
            else:
                _, l, e, semi = x
                last = i == len(sts) - 1
                if last and not semi:
                    return s, e, None
                v, s = self.ev(e, s, fr)
                if s is None:
                    return None, None, None
        return s, "unit", None

    def declare(self, pat, s):
        pass

    def block(self, e, st, fr):
        outer = st.env
        names = None
        s, tail, _ = self.stmts(e[2], st, fr)
        if s is None:
            return UNIT, None
        if tail == "unit" or tail is None:
            v = UNIT
        else:
            v, s = self.ev(tail, s, fr)
            if s is None:
                return UNIT, None
        # drop inner lets that shadow outer names
        sh = self.let_names(e[2])
        if sh & outer.keys():
            env = dict(s.env)
            for n in sh:
                if n in outer:
                    env[n] = outer[n]
            s = St(env, s.facts, s.events, s.pc, s.heap)
        return v, s

    def let_names(self, sts):
        out = set()
        for x in sts:
            if x[0] == "slet":
                pat_names(x[2], out)
        return out

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        m = getattr(self, "x_" + e[0], None)
        if m is None:
            return mk("opaque", str(e[0])), st
        return m(e, st, fr)

    def x_lit(self, e, st, fr):
        return self.lit(e), st

    def x_path(self, e, st, fr):
        _, l, segs, gargs, qself = e
        if len(segs) == 1 and qself is None:
            n = segs[0]
            if n in st.env:
                return st.env[n], st
        v = self.path_val(segs, gargs, qself, fr.scope)
        if v.op == "path" and segs[-1][:1].islower():
            self.fnpath[v.id] = (e, fr.scope)
        return v, st

    def apply_val(self, v, vs, s, fr, l):
        """call of a value that holds a constructor or function path, or a choice between such; None: not one of these"""
        if v.op == "ite":
            a = s.assume(v.args[0])
            b = s.assume(tm.neg(v.args[0]))
            if a is None or b is None:
                return self.apply_val(v.args[2] if a is None else v.args[1], vs, s, fr, l)
            x = self.apply_val(v.args[1], vs, a, fr, l)
            y = self.apply_val(v.args[2], vs, b, fr, l)
            if x is None or y is None or x[1] or y[1]:
                return None
            if x[0] is None or y[0] is None:
                return x if y[0] is None else y
            rv, rs = self.join2(x[0][1], x[0][0], y[0][1], y[0][0], v.args[0])
            return (rs, rv), None
        if v.op == "ctor" and len(v.args) == 1 and v.args[0] not in ("None", "Ok", "Err") and vs:
            return (s, mk("ctor", v.args[0], *[x if isinstance(x, T) else mk("opaque", "closure") for x in vs])), None
        if v.op == "path" and v.id in self.fnpath:
            f, scope = self.fnpath[v.id]
            return self.call_path(f, vs, None, s, Frame(scope, fnid=fr.fnid), l)
        return None

    def x_block(self, e, st, fr):
        return self.block(e, st, fr)

    def x_ref(self, e, st, fr):
        return self.ev(e[3], st, fr)

    def x_un(self, e, st, fr):
        if e[2] == "!":
            c, t, f = self.cond(e[3], st, fr)
            # pure evaluation: state of the operand
            v, s = self.ev(e[3], st, fr)
            if s is None:
                return UNIT, None
            if not isbool(v) and v.op not in ("ite",) and self.looks_int(v):
                return mk("bnot", v), s
            return tm.neg(v), s
        v, s = self.ev(e[3], st, fr)
        if s is None:
            return UNIT, None
        if e[2] == "-":
            return tm.sub(I(0), v), s
        return v, s

    def looks_int(self, v):
        return v.op in ("int", "add", "mul", "band", "bor", "shl", "shr")

    def x_bin(self, e, st, fr):
        op = e[2]
        if op in ("&&", "||"):
            c1, t1, f1 = self.cond(e[3], st, fr)
            a = t1 if op == "&&" else f1
            if a is None:
                s = f1 if op == "&&" else t1
                return c1, (s if s is not None else None)
            n0 = len(self.log)
            v2, s2 = self.ev(e[4], a, fr)
            if s2 is None:
                s = f1 if op == "&&" else t1
                return c1, s
            c = tm.conj([c1, v2]) if op == "&&" else tm.disj([c1, v2])
            if s2.events is a.events and s2.heap is a.heap and s2.facts is a.facts:
                # no effects: continue from the state after the left operand
                other = f1 if op == "&&" else t1
                if other is None:
                    return c, a
                base = st
                if other.events is st.events and a.events is st.events:
                    return c, st
            other = f1 if op == "&&" else t1
            if other is None:
                return c, s2
            return c, join(s2, other, c1 if op == "&&" else tm.neg(c1))
        a, s = self.ev(e[3], st, fr)
        if s is None:
            return UNIT, None
        b, s = self.ev(e[4], s, fr)
        if s is None:
            return UNIT, None
        if isinstance(a, Clo) or isinstance(b, Clo):
            return mk("opaque", "clo"), s
        if op in ("-", "/", "%", "+", "*"):
            self.note("arith", op, [a, b], mk("arith", op, a, b), e[1], fr.scope, s)
        r = self.bitop(op, a, b)
        if op == ">>" and "compute_width" in self.opaque and r.op == "shr" and r.args[0].op == "add":
            # the width of a tree level, where its function is kept by name
            one = mk("shl", I(1), r.args[1])
            n = tm.add(tm.sub(r.args[0], one), I(1))
            if one in r.args[0].args and I(-1) in r.args[0].args:
                ids = [f.id for f in self.ix.by_name.get("compute_width", []) if f.body is not None]
                if len(ids) == 1:
                    r = mk("call", ids[0], n, r.args[1])
        return r, s

    def x_field(self, e, st, fr):
        v, s = self.ev(e[2], st, fr)
        if s is None:
            return UNIT, None
        r = tm.field(v, e[3])
        self.field_ty(v, e[3], r, fr)
        return r, s

    def field_ty(self, v, f, r, fr):
        t = self.typeof(v)
        if t and t in self.ix.structs and r.id not in self.ty:
            for fn, ty in self.ix.structs[t]:
                if fn == f:
                    if (ty or "").strip() in tm.UNSIGNED:
                        tm.UNS.add(r.id)
                    rr = self.resolve_type(ty, Scope(self.ix.mods.get((t[0], ())) or fr.scope.mod, t[1], t[0]))
                    if rr and not ty.startswith(("Vec<", "Option<")):
                        self.ty[r.id] = rr

    def typeof(self, v):
        if isinstance(v, Clo):
            return None
        t = self.ty.get(v.id)
        if t:
            return t
        if v.op == "amount":
            return ("currency", "Amount")
        if v.op == "struct":
            for (c, n) in self.ix.structs:
                if n == v.args[0] and c == self.crate:
                    return (c, n)
            for (c, n) in self.ix.structs:
                if n == v.args[0]:
                    return (c, n)
        if v.op == "ite":
            return self.typeof(v.args[1]) or self.typeof(v.args[2])
        if v.op in ("upd", "push"):
            return self.typeof(v.args[0])
        if v.op == "load":
            c, n = v.args[0].split("::")[0], v.args[0].split("::")[-1]
            so = self.ix.storage.get((c, n))
            if so and so["val"]:
                r = self.resolve_type(so["val"], Scope(self.ix.mods.get((c, ())), None, c))
                if r:
                    self.ty[v.id] = r
                return r
        if v.op == "ctor" and "::" in v.args[0]:
            n = v.args[0].split("::")[0]
            for (c, en) in self.ix.enums:
                if en == n:
                    return (c, en)
        if v.op == "field" and str(v.args[1]) in ("1", "2") and v.args[0].op == "elem":
            x = v.args[0].args[0]
            while x.op == "filter":
                x = x.args[0]
            if x.op == "iterst" and x.args[0] in ("iter", "drain"):
                c, n = x.args[1].split("::")[0], x.args[1].split("::")[-1]
                so = self.ix.storage.get((c, n))
                if so and so["val"] and (str(v.args[1]) == "2") == (so["kind"] == "StorageDoubleMap"):
                    return self.resolve_type(so["val"], Scope(self.ix.mods.get((c, ())), None, c))
        return None

    def is_map(self, v):
        """a keyed container held in a struct field"""
        if v.op != "field":
            return False
        ty = self.typeof(v.args[0])
        for f, x in self.ix.structs.get(ty, ()) if ty else ():
            if f == v.args[1]:
                return re.match(r"(\w+::)*(Mapping|BTreeMap|HashMap)<", x) is not None
        return False

    def x_index(self, e, st, fr):
        a, s = self.ev(e[2], st, fr)
        if s is None:
            return UNIT, None
        b, s = self.ev(e[3], s, fr)
        if s is None:
            return UNIT, None
        r = tm.index(a, b)
        if isinstance(a, T) and isinstance(b, T):
            s = self.emit(s, "index", "index", [a, b], mk("indexop", a, b), e[1], fr.scope)
        return r, s

    def x_tup(self, e, st, fr):
        v, s = self.args(e[2], st, fr)
        if s is None:
            return UNIT, None
        return mk("tup", *v), s

    def x_arr(self, e, st, fr):
        v, s = self.args(e[2], st, fr)
        if s is None:
            return UNIT, None
        return mk("arr", *v), s

    def x_repeat(self, e, st, fr):
        a, s = self.ev(e[2], st, fr)
        b, s2 = self.ev(e[3], s, fr)
        self.note("alloc", "repeat", [b], mk("alloc", b), e[1], fr.scope, s)
        return mk("repeat", a, b), s

    def x_range(self, e, st, fr):
        a, s = (self.ev(e[2], st, fr) if e[2] else (I(0), st))
        if s is None:
            return UNIT, None
        b, s = (self.ev(e[3], s, fr) if e[3] else (mk("inf"), s))
        if s is None:
            return UNIT, None
        if e[4] and e[3]:
            b = tm.add(b, I(1))
        return mk("range", a, b), s

    def x_cast(self, e, st, fr):
        v, s = self.ev(e[2], st, fr)
        if s is None:
            return UNIT, None
        return self.cast(v, e[3]), s

    def cast(self, v, ty):
        if v.op == "ctor" and len(v.args) == 1 and "::" in v.args[0]:
            d = self.discriminant(v.args[0])
            if d is not None:
                return I(d)
        en = self.typeof(v) if v.op in ("p", "field", "payload") else None
        if en in self.ix.enums and 0 < len(self.ix.enums[en]) <= 16:
            ds = [(tm.isv("%s::%s" % (en[1], x), v), self.discriminant("%s::%s" % (en[1], x))) for x in self.ix.enums[en]]
            if all(d is not None for _, d in ds):
                r = I(ds[-1][1])
                for k, d in reversed(ds[:-1]):
                    r = tm.ite(k, I(d), r)
                return r
        if ty in NARROW and not isint(v):
            if self.narrow_calls.get(v.id) == ty:
                return v        # already of that type
            if ty in ("u8", "u16", "u32"):
                return mk("cast", ty, v)
            if ty == "i64" or ty == "i32":
                return mk("cast", ty, v)
            return mk("cast", ty, v)
        return v

    def discriminant(self, var):
        en, vn = var.split("::")[-2:]
        ks = [k for k in self.ix.enums if k[1] == en]
        if len(ks) != 1 or vn not in self.ix.enums[ks[0]] or any(self.ix.enum_fields[ks[0]].get(x) for x in self.ix.enums[ks[0]]):
            return None
        cur = -1
        for x in self.ix.enums[ks[0]]:
            e = self.ix.enum_discr[ks[0]].get(x)
            if e is None:
                cur += 1
            elif e[0] == "lit" and e[2] == "int":
                cur = int(e[3])
            else:
                return None
            if x == vn:
                return cur

    def x_closure(self, e, st, fr):
        return Clo(e[2], e[3], fr.scope), st

    def x_struct(self, e, st, fr):
        segs = e[2]
        var = self.variant(segs, fr.scope) if len(segs) > 1 else None
        n = var or (segs[-1] if segs[-1] != "Self" else (fr.scope.self_ty or "Self"))
        if segs[0] == "Self" and var is None:
            n = fr.scope.self_ty or "Self"
        if len(segs) > 1 and var is None and segs[-2] in ("Call", "RuntimeCall"):
            n = "%s::%s" % (segs[-2], segs[-1])
        s = st
        names, vals = [], []
        decl = None
        for f, x in e[3]:
            if x[0] == "mcall" and x[3] == "into":
                if decl is None:
                    decl = dict(self.ix.structs.get(self.resolve_type("::".join(segs), fr.scope)) or ()) if var is None else {}
                if decl.get(f):
                    x = self.convert_to(x, decl[f], fr.scope)
            v, s = self.ev(x, s, fr)
            if s is None:
                return UNIT, None
            if isinstance(v, Clo):
                v = mk("opaque", "closure")
            names.append(f)
            vals.append(v)
        if e[4] is not None:
            b, s = self.ev(e[4], s, fr)
            if s is None:
                return UNIT, None
            t = self.resolve_type("::".join(segs), fr.scope)
            fl = self.ix.structs.get(t)
            ds = {}
            for fn, ty in fl or ():
                if fn not in names and b.op == "default":
                    ds[fn] = plain_default(ty)
                    u = self.resolve_type(ty, fr.scope) if ds[fn] is None else None
                    us = [g for g in self.ix.by_name.get("default", []) if u and g.crate == u[0] and g.self_ty == u[1] and g.body is not None]
                    if len(us) == 1:
                        o, er = self.invoke(us[0], us[0].id, [], [], s, fr, 0)
                        ds[fn] = o[1] if o is not None and er is None else None
            if b.op == "default" and fl and None not in ds.values() and not any(g.crate == t[0] and g.self_ty == t[1] for g in self.ix.by_name.get("default", [])):
                b = mk("struct", n, tuple(sorted(ds)), *[ds[k] for k in sorted(ds)])
            if b.op != "struct":
                r = b
                for f, v in zip(names, vals):
                    r = tm.upd(r, f, v)
                if t:
                    self.ty.setdefault(r.id, t)
                return r, s
            if fl:
                for fn, _ in fl:
                    if fn not in names:
                        names.append(fn)
                        vals.append(tm.field(b, fn))
            else:
                names.append("")
                vals.append(b)
        o = sorted(range(len(names)), key=lambda i: names[i])
        r = mk("struct", n, tuple(names[i] for i in o), *[vals[i] for i in o])
        if n == "Amount" and [names[i] for i in o] == ["amount", "currency_id"]:
            r = mk("amount", *[vals[i] for i in o])
        t = self.resolve_type("::".join(segs), fr.scope)
        if t:
            self.ty.setdefault(r.id, t)
        return r, s

    def args(self, es, st, fr):
        vs = []
        s = st
        for x in es:
            v, s = self.ev(x, s, fr)
            if s is None:
                return vs, None
            vs.append(v)
        return vs, s

    def x_if(self, e, st, fr):
        c, t, f = self.cond(e[2], st, fr)
        vt, t2 = self.ev(e[3], t, fr) if t is not None else (UNIT, None)
        if e[4] is None:
            vf, f2 = UNIT, f
        else:
            vf, f2 = self.ev(e[4], f, fr) if f is not None else (UNIT, None)
        if t2 is not None and t2 is not t:
            t2 = keep(t2, st)
        if f2 is not None:
            f2 = keep(f2, st)
        return self.join2(vt, t2, vf, f2, c)

    def join2(self, vt, t, vf, f, c):
        if t is None and f is None:
            return UNIT, None
        if t is None:
            return vf, f
        if f is None:
            return vt, t
        if isinstance(vt, Clo) or isinstance(vf, Clo):
            return (vt if vt is vf else mk("opaque", "closure")), join(t, f, c)
        ty = self.ty.get(vt.id) or self.ty.get(vf.id)
        r = tm.ite(c, vt, vf)
        if ty:
            self.ty.setdefault(r.id, ty)
        return r, join(t, f, c)

    def x_match(self, e, st, fr):
        o = self.match(e, st, fr, lambda b, s, fr: self.ev_arm(b, s, fr))
        return o

    def ev_arm(self, b, s, fr):
        v, s2 = self.ev(b, s, fr)
        return ("v", v, s2)

    def match(self, e, st, fr, arm):
        v, s = self.ev(e[2], st, fr)
        if s is None:
            return (UNIT, None) if arm.__name__ != "res_arm" else (None, None)
        resmode = arm.__name__ == "res_arm"
        outs = []
        cur = s
        arms = e[3]
        for i, (pat, guard, body) in enumerate(arms):
            if cur is None:
                break
            c = self.pat_cond(pat, v, fr.scope)
            last = i == len(arms) - 1
            t = cur.assume(c)
            if t is not None:
                t = self.bind(pat, v, t)
                self.alias(pat, e[2], fr)
                if guard is not None:
                    g, tg, fg = self.cond(guard, t, fr)
                    if g is TRUE:
                        pass
                    c = tm.conj([c, g])
                    t = tg
            nxt = cur.assume(tm.neg(c)) if not last else (cur.assume(tm.neg(c)) if guard is not None else None)
            if t is not None:
                if resmode:
                    o, er = self.res(body, t, fr)
                    o = (keep(o[0], st), o[1]) if o else None
                    er = (keep(er[0], st), er[1]) if er else None
                    outs.append((c, o, er))
                else:
                    vv, s2 = self.ev(body, t, fr)
                    outs.append((c, vv, keep(s2, st) if s2 is not None else None))
            cur = nxt
        if resmode:
            ro, re_ = None, None
            for c, o, er in reversed(outs):
                ro = jo(o, ro, c)
                re_ = jo(er, re_, c)
            return ro, re_
        rv, rs = UNIT, None
        for c, vv, s2 in reversed(outs):
            if rs is None and s2 is None:
                continue
            rv, rs = self.join2(vv, s2, rv, rs, c)
        return rv, rs

    def x_ret(self, e, st, fr):
        target = fr
        if e[2] is None:
            target.returns.append((st, UNIT))
            return UNIT, None
        o, er = self.res(e[2], st, fr) if self.frame_is_res(fr) else (None, None)
        if self.frame_is_res(fr):
            if o:
                target.returns.append((o[0], mk("ctor", "Ok", o[1])))
            if er:
                target.errs.append(er)
            return UNIT, None
        v, s = self.ev(e[2], st, fr)
        if s is not None:
            target.returns.append((s, v))
        return UNIT, None

    def frame_is_res(self, fr):
        if fr.is_closure:
            return fr.is_closure == "res"
        f = self.ix.fn(fr.fnid)
        return getattr(fr, "isres", None) if getattr(fr, "isres", None) is not None else self._fr_res(fr, f)

    def _fr_res(self, fr, f):
        r = False
        if fr.ret_opt:
            r = False
        elif f is not None and f.ret:
            rb = parse_type(f.ret)[0]
            r = bool(rb) and rb[-1].endswith("Result")
        fr.isres = r
        return r

    def x_brk(self, e, st, fr):
        s = st
        if len(e) > 3 and len(fr.loops) > 1:
            raise NotImplementedError("labelled break out of a nested loop")
        if e[2] is not None:
            v, s = self.ev(e[2], st, fr)
            if s is None:
                return UNIT, None
        else:
            v = UNIT
        if fr.loops:
            fr.loops[-1]["brk"].append((s, v))
        return UNIT, None

    def x_cont(self, e, st, fr):
        if len(e) > 2 and len(fr.loops) > 1:
            raise NotImplementedError("labelled continue of an outer loop")
        if fr.loops:
            fr.loops[-1]["cont"].append(st)
        return UNIT, None

    def x_try(self, e, st, fr):
        o, er = self.res(e[2], st, fr)
        if er is not None:
            if fr.ret_opt and o is not None and isinstance(o[1], T) and self.num_op(o[1]):
                er = (er[0], NONE)
            fr.errs.append(er)
        if o is None:
            return UNIT, None
        s, v = o
        if er is not None and not fr.ret_opt and not fr.is_closure:
            return v, s     # a Result: what it holds may itself be an Option
        # Option try
        if not isinstance(v, Clo) and not self.num_op(v) and (v.op == "opt" or (v.op == "ctor" and v.args[0] in ("Some", "None")) or v.op == "ite" and self.is_optionish(v)
                                       or (fr.ret_opt and v.op not in ("int",))):
            c = tm.isv("Some", v)
            f = s.assume(tm.neg(c))
            if f is not None:
                fr.errs.append((f, NONE))
            s = s.assume(c)
            if s is None:
                return UNIT, None
            v = tm.payload("Some", 0, v)
        return v, s

    # ------------------------------------------------------------ assignment
    def x_assign(self, e, st, fr):
        v, s = self.ev(e[3], st, fr)
        if s is None:
            return UNIT, None
        x = e[2]
        while x[0] in ("un", "ref"):
            x = x[3]
        if x[0] == "try" and self.ref_node(x, fr) is not None:
            _, s = self.ev(x, s, fr)
            if s is None:
                return UNIT, None
        return UNIT, self.store(e[2], v, s, fr)

    def x_opassign(self, e, st, fr):
        v, s = self.ev(e[4], st, fr)
        if s is None:
            return UNIT, None
        old, s = self.ev(e[3], s, fr)
        if s is None:
            return UNIT, None
        op = e[2].rstrip("=")
        if op in ("-", "/", "%", "+", "*") and isinstance(old, T) and isinstance(v, T):
            self.note("arith", op, [old, v], mk("arith", op, old, v), e[1], fr.scope, s)
        return UNIT, self.store(e[3], self.bitop(e[2], old, v), s, fr)

    def isboolean(self, t):
        return tm.isbool(t) or t.id in self.bools

    def bitop(self, op, a, b):
        """`|` `&` `^` on truth values are the logical connectives"""
        if op in ("|", "&", "^") and (self.isboolean(a) or self.isboolean(b)):
            if op == "|":
                return tm.disj([a, b])
            if op == "&":
                return tm.conj([a, b])
            return tm.neg(tm.eq(a, b))
        return tm.binop(op, a, b)

    def store(self, lhs, v, st, fr):
        """assign to an lvalue expression"""
        k = lhs[0]
        if isinstance(v, Clo) and k != "path":
            return st
        if k == "path":
            if len(lhs[2]) == 1:
                env = dict(st.env)
                n = lhs[2][0]
                if n == "_":
                    return st
                old = env.get(n)
                env[n] = v
                if old is not None and not isinstance(old, Clo) and not isinstance(v, Clo) and old.id in self.ty:
                    self.ty.setdefault(v.id, self.ty[old.id])
                st = St(env, st.facts, st.events, st.pc, st.heap)
                return self.through(n, v, st, fr)
            return st
        if k == "un" or k == "ref":
            return self.store(lhs[3], v, st, fr)
        if k in ("try", "mcall"):
            nd = self.ref_node(lhs, fr)
            if nd is not None:
                return self.put(nd, v, st, fr)
        if k == "field":
            base, s = self.ev(lhs[2], st, fr)
            if s is None:
                return st
            return self.store(lhs[2], tm.upd(base, lhs[3], v), s, fr)
        if k == "index":
            base, s = self.ev(lhs[2], st, fr)
            i, s = self.ev(lhs[3], s, fr)
            return self.store(lhs[2], mk("iupd", base, i, v), s, fr)
        if k == "tup":
            for i, x in enumerate(lhs[2]):
                st = self.store(x, tm.field(v, str(i)), st, fr)
            return st
        if k == "mcall" and (lhs[3] in TRANSPARENT_M or self.builder(lhs[3])):
            return self.store(lhs[2], v, st, fr)
        if k == "path" or k == "opaque":
            return st
        return st

    def is_lvalue(self, e):
        k = e[0]
        if k == "path":
            return len(e[2]) == 1
        if k in ("field", "index"):
            return self.is_lvalue(e[2])
        if k in ("un", "ref"):
            return self.is_lvalue(e[3])
        if k == "mcall" and e[3] in ("as_mut", "by_ref", "borrow_mut", "iter_mut", "as_mut_slice", "deref_mut"):
            return self.is_lvalue(e[2])
        if k == "mcall" and self.builder(e[3]):
            return self.is_lvalue(e[2])
        return False

    def builder(self, n):
        """methods that hand back the receiver they were called on"""
        fs = self.ix.by_name.get(n, [])
        return bool(fs) and all((f.ret or "").replace(" ", "") in ("&mutSelf", "&mutself") for f in fs)

    # ------------------------------------------------------------ loops
    def assigned(self, body, out=None):
        """names possibly assigned in a syntax tree"""
        if out is None:
            out = set()
        if isinstance(body, list):
            if body and isinstance(body[0], str):
                k = body[0]
                if k == "assign":
                    root_name(body[2], out)
                elif k == "opassign":
                    root_name(body[3], out)
                elif k == "ref" and body[2] is True:
                    root_name(body[3], out)
                elif k == "mcall":
                    root_name(body[2], out)  # conservatively; unchanged values are restored below
                if k in ("mcall", "call") and self.frames and (self.frames[-1].mutrefs or self.frames[-1].refs or self.frames[-1].patrefs):
                    fm = self.frames[-1]
                    for x in body[-1 if k == "call" else 5] if isinstance(body[-1 if k == "call" else 5], list) else []:
                        if isinstance(x, list) and len(x) > 2 and x[0] == "path" and isinstance(x[2], list) and len(x[2]) == 1 and (x[2][0] in fm.mutrefs or x[2][0] in fm.refs or x[2][0] in fm.patrefs):
                            out.add(x[2][0])
            for x in body:
                if isinstance(x, list):
                    self.assigned(x, out)
        return out

    def last_round(self, v, acc, accs):
        """v = the accumulator, except in the last round of the loop"""
        if not isinstance(v, T) or v.op != "ite":
            return False
        c, a, b = v.args
        if b is not acc and a is acc and c.op == "not":
            c, a, b = c.args[0], b, a
        if b is not acc or c.op != "eq" or any(x in set(accs) for x in tm.subterms(a)):
            return False
        for x, y in (c.args, c.args[::-1]):
            if x.op == "len" and x.args[0].op != "acc":
                if tm.sub(x, y) is tm.sub(x, tm.add(mk("idx", x.args[0]), I(1))):
                    return True
        return False

    def own_slots(self, it, acc, init, step):
        """the parts of an accumulator that are lists of which each round changes the element with its own index"""
        if not isinstance(step, T):
            return {}
        own = [mk("idx", it)] + ([mk("elem", it)] if it.op == "range" else [])
        if step.op == "upd":
            r = {}
            base, d = tm.unupd(step)
            if base is acc:
                r[acc.id] = (frozenset(d), init)        # the other components stay as they were
                for k, v in d.items():
                    r.update(self.own_slots(it, tm.field(acc, k), tm.field(init, k), v))
            return r
        arms, i = [step], None
        while arms:
            x = arms.pop()
            if x.op == "ite":
                arms += x.args[1:]
            elif x.op == "iupd" and x.args[0] is acc and x.args[1] in own and i in (None, x.args[1]):
                i = x.args[1]
            elif x is not acc:
                return {}
        return {acc.id: (i, init)} if i is not None else {}

    def loop_body(self, it, pat, elem, conds, bodyfn, st, fr, body_ast, whilecond=None):
        names = [n for n in sorted(self.assigned(body_ast)) if n in st.env and not isinstance(st.env[n], Clo)]
        depth = len(fr.loops)
        # first pass decides which variables really change
        changed = names
        follow = {}             # x -> the list whose last element it always is
        frozen = set()          # x only changes in the last round: no round sees the change
        ended = {}
        closed = {}             # x is known in each round: moved by as many bits in each of them
        derived = {}            # x is a function of another variable of the loop, before and after each round
        myslots = []            # x[i] only changes in round i, which finds it as it was before the loop
        hold0 = fr.hold
        fr.hold = hold0 | {n for n in names if n in fr.refs or n in fr.patrefs}
        for attempt in (0, 1, 2):
            s = st.copy()
            accs = {}
            for n in changed:
                accs[n] = mk("acc", depth, n)
            for n, l in follow.items():
                accs[n] = tm.index(accs[l], tm.sub(mk("len", accs[l]), I(1)))
            for n in frozen:
                accs[n] = st.env[n]
            for n, v in closed.items():
                accs[n] = v
            for n, (h, g) in derived.items():
                accs[n] = subst(g, {mk("acc", depth, h).id: accs[h]})
            for n in changed:
                if n in closed or n in derived:
                    s.env[n] = accs[n]
                    continue
                if st.env[n].id in self.ty:
                    self.ty.setdefault(accs[n].id, self.ty[st.env[n].id])
                elif tm.isbool(st.env[n]):
                    self.bools.add(accs[n].id)
                s.env[n] = accs[n]
            loop = {"brk": [], "cont": []}
            nret, nerr, nlog, seq0 = len(fr.returns), len(fr.errs), len(self.log), self.seq
            fr.loops.append(loop)
            self.loopdepth += 1
            base_pc = s.pc
            s0 = s
            for c in conds:
                s0 = s0.assume(c) if s0 is not None else None
            cw = TRUE
            exit_f = None
            if whilecond is not None and s0 is not None:
                cw, s0, exit_f = self.cond(whilecond, s0, fr)
            if s0 is not None:
                if pat is not None:
                    s0 = self.bind(pat, elem, s0)
                v, end = bodyfn(s0)
            else:
                end = None
            self.loopdepth -= 1
            fr.loops.pop()
            ends = [(x, UNIT) for x in loop["cont"]] + ([(end, UNIT)] if end is not None else [])
            m = merge_outs(ends, base_pc)
            really = [n for n in changed if any(x is not None and x.env.get(n) is not accs[n] for x in
                                                [m[0] if m else None] + [b[0] for b in loop["brk"]])]
            if attempt == 0 and really != changed:
                del fr.returns[nret:]
                del fr.errs[nerr:]
                del self.log[nlog:]
                changed = really
                continue
            if not follow and not frozen and not closed and attempt < 2 and whilecond is None and m and not loop["brk"] and not loop["cont"]:
                for l in changed:
                    e, i = m[0].env.get(l), st.env[l]
                    if not (isinstance(e, T) and e.op == "push" and e.args[0] is accs[l] and isinstance(i, T) and i.op == "arr" and len(i.args) == 1):
                        continue
                    for n in changed:
                        if n != l and n not in follow and m[0].env.get(n) is e.args[1] and st.env[n] is i.args[0]:
                            follow[n] = l
                if not frozen:
                    frozen = {n for n in changed if n not in follow and isinstance(st.env[n], T) and self.last_round(m[0].env.get(n), accs[n], accs.values())}
                slots = {}
                if not follow and not frozen:
                    for n in changed:
                        if isinstance(st.env[n], T):
                            slots.update(self.own_slots(it, accs[n], st.env[n], m[0].env.get(n)))
                if slots:
                    tm.SLOTS.update(slots)
                    myslots += slots
                if not follow and not frozen and not slots and not conds and isinstance(it, T):
                    i = mk("elem", it) if it.op == "range" and it.args[0] is I(0) and isinstance(elem, T) else mk("idx", it)
                    for n in changed:
                        e, v0 = m[0].env.get(n), st.env[n]
                        k = shift_step(e, accs[n])
                        if k and isinstance(v0, T):
                            closed[n] = tm.binop(k[0], v0, i if k[1] == 1 else tm.mul(I(k[1]), i))
                            ended[n] = tm.binop(k[0], v0, tm.mul(I(k[1]), mklen(it)))
                            t = self.typeof(v0)
                            if t:
                                self.ty.setdefault(closed[n].id, t)
                if follow or frozen or slots or closed:
                    del fr.returns[nret:]
                    del fr.errs[nerr:]
                    del self.log[nlog:]
                    continue
            if not follow and not frozen and not closed and not myslots and not derived and attempt < 2 and m and not loop["brk"] and not loop["cont"]:
                for h in changed:
                    e, i = m[0].env.get(h), st.env[h]
                    if not isinstance(e, T) or e.op in ("int", "bool", "acc", "elem") or not isinstance(i, T) or not contains(e, lambda t: t is accs[h]):
                        continue
                    for n in changed:
                        x, v0 = m[0].env.get(n), st.env[n]
                        if n == h or n in derived or h in derived or not isinstance(x, T) or not isinstance(v0, T) or x is e:
                            continue
                        mark = mk("acc", depth, "#" + h)
                        g = subst(x, {e.id: mark})
                        if g is x or contains(g, lambda t: t in accs.values() or t.op in ("elem", "idx", "havoc", "loopmut")):
                            continue
                        g = subst(g, {mark.id: accs[h]})
                        if subst(g, {accs[h].id: i}) is v0:
                            derived[n] = (h, g)
                if derived:
                    del fr.returns[nret:]
                    del fr.errs[nerr:]
                    del self.log[nlog:]
                    continue
            break
        for k in myslots:
            tm.SLOTS.pop(k, None)
        self.follow, self.ended, self.derived = follow, ended, derived
        fr.hold = hold0
        return changed, accs, m, loop, nret, nerr, base_pc, cw, exit_f

    def for_shape(self, e, st):
        """loop shapes with the same meaning as a plainer loop"""
        pat, it, body = e[2], e[3], e[4]
        if pat[0] != "pid" or it[0] != "range" or len(it) > 4 and it[4] or it[3] is None or body[0] != "block" or not body[2]:
            return e
        i, sts = pat[1], body[2]
        # for i in a..b { if i >= E { break; } rest }  ==  for i in a..min(b, E) { rest }
        b = break_if(sts[0])
        if b is not None and b[1] is None and b[0][0] == "bin" and b[0][2] in (">=", "<=", ">", "<"):
            op, l, r = b[0][2], b[0][3], b[0][4]
            if op in ("<=", "<"):
                op, l, r = (">=" if op == "<=" else ">"), r, l
            rest = ["block", body[1], sts[1:]]
            if l[0] == "path" and l[2] == [i] and not names_in(r) & (self.assigned(rest) | {i}):
                if op == ">":
                    r = ["bin", e[1], "+", r, ["lit", e[1], "int", "1", ""]]
                return self.for_shape(["for", e[1], pat, ["range", it[1], it[2], ["mcall", e[1], it[3], "min", None, [r]], False], rest], st)
        # for i in 0..v.len() { .. v[i] .. }  with v changed only through v[i]  ==  for x in v.iter_mut() { .. x .. }
        lo, hi = it[2], it[3]
        if lo is not None and lo[0] == "lit" and lo[3] == "0" and hi[0] == "mcall" and hi[3] == "len" and not hi[5] and self.is_lvalue(hi[2]):
            v = hi[2]
            rn = set()
            root_name(v, rn)
            if rn & self.assigned(body):
                key, n = bare(v), [0]

                def rw(x):
                    if not isinstance(x, list):
                        return x
                    if x and x[0] == "index" and bare(x[2]) == key and x[3][0] == "path" and x[3][2] == [i]:
                        n[0] += 1
                        return ["path", x[1], ["#el"], [None], None]
                    return [rw(y) for y in x]
                nb = rw(body)
                fn = set()
                free_names(nb, fn)
                if n[0] and not (fn & (rn | {i})):
                    return ["for", e[1], ["pid", "#el", False, False, None], ["ref", e[1], True, v], nb]
        return e

    def x_for(self, e, st, fr):
        e = self.for_shape(e, st)
        it, s = self.ev(e[3], st, fr)
        if s is None:
            return UNIT, None
        # iteration over mutable references: the elements themselves may change
        src, lv = e[3], None
        while src[0] == "paren":
            src = src[2]
        if src[0] == "ref" and src[2] is True:
            lv = src[3]
        elif src[0] == "mcall" and src[3] == "iter_mut":
            lv = src[2]
        elif src[0] == "mcall" and src[3] in ("zip", "enumerate", "take", "skip", "rev", "filter", "step_by", "skip_while", "take_while"):
            x, pat = src, e[2]          # the pattern of the mutable element inside zipped or enumerated tuples
            while x[0] == "mcall" and x[3] in ("zip", "enumerate", "take", "skip", "rev", "filter", "step_by", "skip_while", "take_while"):
                if x[3] in ("zip", "enumerate"):
                    pat = pat[1][0 if x[3] == "zip" else 1] if pat and pat[0] == "ptup" and len(pat[1]) == 2 else None
                elif x[3] not in ("take",):
                    pat = None
                x = x[2]
            if x[0] == "mcall" and x[3] == "iter_mut" and self.is_lvalue(x[2]):
                return self.for_zip_mut(e, x[2], pat, src, it, s, fr)
        pat = e[2]
        if pat[0] == "ptup" and pat[1] and all(x[0] == "pid" for x in pat[1]):
            names = [x[1] for x in pat[1]]
            if lv is None and src[0] == "path" and self.is_lvalue(src) and any(n in deref_assigned(e[4]) for n in names):
                lv = src            # a mutable reference, iterated
            if lv is not None and self.is_lvalue(lv):
                seen = []

                def body(s0):
                    v, s1 = self.ev(e[4], s0, fr)
                    seen.append([s1.env.get(n) for n in names] if s1 is not None else None)
                    return v, s1
                v, s2 = self.for_over(it, pat, body, s, fr, e[4])
                if s2 is not None and seen and seen[-1] and all(isinstance(x, T) for x in seen[-1]) and isinstance(it, T):
                    b, el, cs = self.iter_parts(it)
                    x = mk("tup", *seen[-1])
                    if any(y is not tm.field(el, str(i)) for i, y in enumerate(seen[-1])):
                        s2 = self.store(lv, mk("mut", "each", it) if cs or contains(x, lambda t: t.op == "acc" and t.args[1] != "_") else mk("mapit", b, x), s2, fr)
                return v, s2
        new = []
        if lv is not None and self.is_lvalue(lv) and e[2][0] == "pid":
            name = e[2][1]

            def body(s0):
                v, s1 = self.ev(e[4], s0, fr)
                new.append(s1.env.get(name) if s1 is not None else None)
                return v, s1
            v, s2 = self.for_over(it, e[2], body, s, fr, e[4])
            if s2 is not None and new and isinstance(new[-1], T):
                b, el, cs = self.iter_parts(it)
                if new[-1] is not el:
                    s2 = self.store(lv, mk("mapit", b, new[-1]), s2, fr)
            return v, s2
        v, s2 = self.for_over(it, e[2], lambda s0: self.ev(e[4], s0, fr), s, fr, e[4])
        if s2 is not None and lv is not None and self.is_lvalue(lv) and isinstance(it, T):
            s2 = self.store(lv, mk("mut", "each", it), s2, fr)
        return v, s2

    def for_zip_mut(self, e, lv, pat, src, it, s, fr):
        """for (x, y) in xs.iter_mut().zip(ys) and the like: xs changes"""
        name = pat[1] if pat and pat[0] == "pid" else None
        old, _ = self.ev(lv, s, fr)
        new = []

        def body(s0):
            v, s1 = self.ev(e[4], s0, fr)
            new.append(s1.env.get(name) if s1 is not None and name else None)
            return v, s1
        v, s2 = self.for_over(it, e[2], body, s, fr, e[4])
        if s2 is None:
            return v, s2
        x = new[-1] if new else None
        nv = mk("mut", "each", it)
        if isinstance(x, T) and isinstance(it, T) and isinstance(old, T) and not contains(x, lambda t: t.op == "acc" and t.args[1] != "_"):
            if src[3] == "enumerate" and it.op == "enumerate" and it.args[0] is old:
                b, el, cs = self.iter_parts(old)
                nv = mk("mapit", b, x)
            elif src[3] == "zip" and it.op == "zip" and it.args[0] is old:
                b, el, cs = self.iter_parts(it.args[1])
                if not cs:
                    nv = mk("iupd", old, mk("range", I(0), mklen(it.args[1])), it.args[1] if x is el else mk("mapit", it, x))
        return v, self.store(lv, nv, s2, fr)

    def iter_parts(self, it):
        """-> (base iterator term, elem term, [conds])"""
        if it.op == "filter":
            b, el, cs = self.iter_parts(it.args[0])
            return b, el, cs + [it.args[1]]
        if it.op == "mapit":
            b, el, cs = self.iter_parts(it.args[0])
            return b, it.args[1], cs
        if it.op == "enumerate":
            b, el, cs = self.iter_parts(it.args[0])
            return b, mk("tup", mk("idx", b), el), cs
        if it.op in ("rev",):
            b, el, cs = self.iter_parts(it.args[0])
            return (b.args[0] if b.op == "rev" else mk("rev", b)), el, cs
        if it.op == "zip":
            b1, e1, c1 = self.iter_parts(it.args[0])
            b2, e2, c2 = self.iter_parts(it.args[1])
            return mk("zip", b1, b2), mk("tup", e1, e2), c1 + c2
        if it.op == "arr" and 2 < len(it.args) <= 64 and all(x is I(1 << i) for i, x in enumerate(it.args)):
            r = mk("range", I(0), I(len(it.args)))      # the powers of two
            return r, tm.binop("<<", I(1), mk("elem", r)), []
        if it.op == "repeat" and len(it.args) == 2:
            return mk("range", I(0), it.args[1]), it.args[0], []
        el = mk("elem", it)
        if it.op == "range" and it.args[0] is I(0) and it.args[1].op == "len":
            return it.args[1].args[0], mk("idx", it.args[1].args[0]), []
        t = self.ty.get(it.id)
        if t:
            self.ty.setdefault(el.id, t)
        return it, el, []

    def for_over(self, it, pat, bodyfn, st, fr, body_ast, whilecond=None):
        if isinstance(it, Clo):
            return UNIT, st
        b, el, conds = self.iter_parts(it) if whilecond is None else (it, None, [])
        changed, accs, m, loop, nret, nerr, base_pc, cw, exit_f = self.loop_body(b, pat, el, conds, bodyfn, st, fr, body_ast, whilecond)
        if whilecond is not None:
            free = [n for n in changed if n not in self.derived]
            inits = [st.env[n] for n in free if contains(cw, lambda t: t is accs[n]) and isinstance(st.env[n], T)]
            b = mk("whileit", subst(cw, {accs[n].id: mk("acc", 0, "_") for n in free}) if len(free) == 1 else cw, *inits)
        st0, follow, ended, derived = st, self.follow, self.ended, self.derived
        # facts established by every iteration
        exits = []
        npc = len(base_pc)

        def wrap(s, quant=True):
            suf = tm.conj(list(s.pc[npc:]))
            c = ex(b, suf)
            return c

        newrets = []
        exconds = []
        for lst, n0 in ((fr.returns, nret), (fr.errs, nerr)):
            for i in range(n0, len(lst)):
                s, v = lst[i]
                c = wrap(s)
                exconds.append((c, lst is fr.errs))
                lst[i] = (St(s.env, s.facts, s.events, base_pc + (c,), s.heap), v)
        # normal exit
        s = St(dict(st0.env), st0.facts, st0.events, base_pc, st0.heap)
        final = {}
        end_env = m[0].env if m else {}
        fold = {}
        for n in changed:
            step = end_env.get(n)
            init = st0.env[n]
            if step is None or step is accs[n]:
                final[n] = init if not loop["brk"] else init
                if step is None and loop["brk"]:
                    final[n] = init
            else:
                if conds and isinstance(step, T) and not isinstance(accs[n], Clo):
                    step = tm.ite(tm.conj(conds), step, accs[n])     # elements that are filtered out leave it as it was
                final[n] = self.mkfold(b, init, accs[n], step, accs)
        for n, l in follow.items():
            final[n] = tm.index(final[l], tm.sub(mk("len", final[l]), I(1)))
        final.update({n: v for n, v in ended.items() if n in final})
        for n, (h, g) in derived.items():
            final[n] = subst(g, {accs[h].id: final[h]})
        for n in changed:
            s.env[n] = final[n]
            if st0.env[n].id in self.ty:
                self.ty.setdefault(final[n].id, self.ty[st0.env[n].id])
        sub = {accs[n].id: final[n] for n in changed}
        # events of one iteration, quantified
        evs = list(st0.events)
        if m:
            for g, ev_ in m[0].events[len(st0.events):]:
                evs.append((tm.conj([mk("loop", b), *conds, g]) if g is not TRUE or conds else mk("loop", b), ev_))
        heap = dict(st0.heap)
        if m:
            for k in set(m[0].heap) | set(st0.heap):
                if m[0].heap.get(k) is not st0.heap.get(k):
                    heap.pop(k, None)
        facts = st0.facts
        # universally quantified facts
        if m:
            for f in list(m[0].facts.s - st0.facts.s) + list(m[0].facts.ors - st0.facts.ors):
                if contains(f, lambda t: t is el or t.op in ("elem", "idx", "acc")):
                    if f in conds:
                        continue
                    g = f
                    cs = [c for c in conds]
                    ff = mk("forall", unrev(b, g), tm.imp(tm.conj(cs), g) if cs else g)
                    nf = facts.add(ff)
                    facts = nf or facts
        if not loop["brk"] and exconds:
            # loop ran to completion: no early exit condition held
            pcs = tuple(tm.neg(c) for c, is_err in exconds if not is_err)
        else:
            pcs = ()
        brk_c = []
        for bs, bv in loop["brk"]:
            brk_c.append(wrap(bs))
        for c in brk_c:
            nf = facts.add(tm.neg(c)) if m or whilecond is not None else facts
            if nf is not None:
                facts = nf
        for c, is_err in exconds:
            nf = facts.add(tm.neg(c))
            if nf is not None:
                facts = nf
        if whilecond is not None:
            # exit condition: condition false under final values
            ne = tm.neg(cw)
            if not contains(ne, lambda t: t.op == "bool"):
                ne2 = subst(ne, sub) if sub else ne
                if ne2 is not FALSE:
                    nf = facts.add(ne2)
                    facts = nf or facts
        s = St(s.env, facts, tuple(evs), base_pc + pcs + tuple(tm.neg(c) for c in brk_c), heap)
        held = [n for n in changed if n in fr.refs or n in fr.patrefs]
        for n in held:
            s = self.through(n, s.env[n], s, fr)
        v = UNIT
        is_loop = whilecond is None and b.op == "loopit"
        if is_loop and not loop["brk"]:
            return UNIT, None
        cur = None if is_loop else s
        curv = UNIT
        for (bs, bv), c in reversed(list(zip(loop["brk"], brk_c))):
            env = dict(bs.env)
            for n in list(env):
                if n not in st0.env:
                    env.pop(n)
            bevs = list(st0.events) + [(tm.conj([mk("loop", b), g]) if g is not TRUE else mk("loop", b), e_) for g, e_ in bs.events[len(st0.events):]]
            b2 = St(env, bs.facts, tuple(bevs), base_pc + (c,), bs.heap)
            for n in held:
                b2 = self.through(n, b2.env[n], b2, fr)
            if cur is None:
                cur, curv = b2, bv
            else:
                cur = join(b2, cur, c)
                curv = tm.ite(c, bv, curv) if not isinstance(bv, Clo) else bv
        return curv, cur

    def mkfold(self, it, init, acc, step, accs):
        # boolean accumulators
        if step.op == "or" and acc in step.args:
            rest = tm.disj([a for a in step.args if a is not acc])
            if not contains(rest, lambda t: t is acc):
                return tm.disj([init, ex(it, rest)])
        if step.op == "and" and acc in step.args:
            rest = tm.conj([a for a in step.args if a is not acc])
            if not contains(rest, lambda t: t is acc):
                return tm.conj([init, fa(it, rest)])
        a = mk("acc", 0, "_")
        if step.op == "upd" and acc.op == "acc":
            # a record of which the loop changes components: each on its own
            base, d = tm.unupd(step)
            parts = {}
            for k, v in d.items():
                fk, u = tm.field(acc, k), mk("acc", acc.args[0], acc.args[1] + "." + k)
                w = subst(v, {fk.id: u})
                if base is not acc or contains(w, lambda t: t is acc):
                    parts = None
                    break
                parts[k] = self.mkfold(it, tm.field(init, k), u, w, accs)
            if parts:
                r = init
                for k in sorted(parts):
                    r = tm.upd(r, k, parts[k])
                return r
        st2 = subst(step, {acc.id: a})
        if it.op == "range" and it.args[0].op == "int" and it.args[1].op == "int" and 0 <= it.args[1].args[0] - it.args[0].args[0] <= 3 and \
                not contains(st2, lambda t: t.op in ("acc", "loopmut", "havoc") and t is not a):
            r = init        # a few rounds
            for i in range(it.args[0].args[0], it.args[1].args[0]):
                r = subst(st2, {a.id: r, mk("elem", it).id: I(i), mk("idx", it).id: I(i - it.args[0].args[0])})
            return r
        if it.op == "arr" and len(it.args) <= 4 and not contains(st2, lambda t: t.op in ("acc", "loopmut") and t is not a):
            r = init
            for i, x in enumerate(it.args):
                r = subst(st2, {a.id: r, mk("elem", it).id: x, mk("idx", it).id: I(i)})
            return r
        if st2.op == "iupd" and st2.args[0] is a and it.op == "range" and it.args[0] is I(0) and it.args[1] is mklen(init) and \
                (st2.args[1].op == "elem" and st2.args[1].args[0] is it or st2.args[1].op == "idx" and st2.args[1].args[0] is it) and not contains(st2.args[2], lambda t: t.op == "acc"):
            return mk("mapit", it, st2.args[2])     # all elements are replaced
        # pushing loop == map / filter-map
        if init.op == "arr" and not init.args:
            c, p = TRUE, st2
            if p.op == "ite" and p.args[2] is a:
                c, p = p.args[0], p.args[1]
            elif p.op == "ite" and p.args[1] is a:
                c, p = tm.neg(p.args[0]), p.args[2]
            if p.op == "push" and p.args[0] is a and not contains(p.args[1], lambda t: t.op == "acc") and not contains(c, lambda t: t.op == "acc"):
                x = p.args[1]
                b = it if c is TRUE else mk("filter", it, c)
                return b if x is mk("elem", it) else mk("mapit", b, x)
        return mk("fold", it, init, st2)

    def while_next(self, c, body, fr):
        """while let Some(x) = it.next() { .. }  and  loop { match it.next() { Some(x) => .., None => break } }"""
        while c[0] == "paren":
            c = c[2]
        if c[0] != "let" or c[2][0] != "pts" or c[2][1][-1] != "Some" or len(c[2][2]) != 1:
            return None
        x = c[3]
        if x[0] != "mcall" or x[3] != "next" or x[5] or x[2][0] != "path" or len(x[2][2]) != 1 or x[2][2][0] not in fr.iters:
            return None
        used = set()
        free_names(body, used)
        if x[2][2][0] in used:
            return None
        return c[2][2][0], x[2]

    def x_while(self, e, st, fr):
        nx = self.while_next(e[2], e[3], fr)
        if nx is not None:
            v, s = self.x_for(["for", e[1], nx[0], nx[1], e[3]], st, fr)
            if s is not None:
                s = self.store(nx[1], mk("arr") if not has_brk(e[3]) else mk("mut", "next", s.env[nx[1][2][0]]), s, fr)
            return v, s
        # index loops: while i < n { ..; i += 1 }  with i starting at a known value behave as for i in init..n
        r = self.while_as_for(e, st, fr) or self.countdown(e, st, fr)
        if r is not None:
            return r
        self.loopn = getattr(self, "loopn", 0) + 1
        it = mk("whileit", len(fr.loops))
        return self.for_over(it, None, lambda s0: self.ev(e[3], s0, fr), st, fr, e[3:4] + [e[2]], whilecond=e[2])

    def countdown(self, e, st, fr):
        """while x > 0 { ..; x -= 1 }  and  while x > 0 { x -= 1; .. }"""
        c, body = e[2], e[3]
        while c[0] == "paren":
            c = c[2]
        if c[0] != "bin" or c[2] not in (">", "<", "!="):
            return None
        l, r = (c[4], c[3]) if c[2] == "<" else (c[3], c[4])
        if l[0] != "path" or len(l[2]) != 1 or r[0] != "lit" or r[3] != "0":
            return None
        x, sts = l[2][0], body[2]
        if not sts or not isinstance(st.env.get(x), T):
            return None

        def dec(s):
            if s[0] != "sexpr":
                return False
            a = s[2]
            if a[0] == "opassign":
                return a[2] == "-" and a[3][0] == "path" and a[3][2] == [x] and a[4][0] == "lit" and a[4][3] == "1"
            return a[0] == "assign" and a[2][0] == "path" and a[2][2] == [x] and a[3][0] == "bin" and a[3][2] == "-" and \
                a[3][3][0] == "path" and a[3][3][2] == [x] and a[3][4][0] == "lit" and a[3][4][3] == "1"
        first = dec(sts[0])
        if not first and not dec(sts[-1]):
            return None
        rest = ["block", body[1], sts[1:] if first else sts[:-1]]
        if x in self.assigned_strict(rest) or has_cont(rest):
            return None
        n = st.env[x]
        used = set()
        free_names(rest, used)
        if x not in used:
            it = mk("range", I(0), n)
        elif first:
            it = mk("rev", mk("range", I(0), n))
        else:
            it = mk("rev", mk("range", I(1), tm.add(n, I(1))))
        v, s2 = self.for_over(it, ["pid", x, False, False, None], lambda s0: self.ev(rest, s0, fr), st, fr, rest)
        if s2 is not None:
            env = dict(s2.env)
            env[x] = I(0)
            s2 = St(env, s2.facts, s2.events, s2.pc, s2.heap)
        return v, s2

    def while_as_for(self, e, st, fr):
        c, body = e[2], e[3]
        bounds = []

        def conjuncts(x):
            if x[0] == "bin" and x[2] == "&&":
                return conjuncts(x[3]) and conjuncts(x[4])
            if x[0] == "paren":
                return conjuncts(x[2])
            if x[0] != "bin":
                return False
            l, r, op = x[3], x[4], x[2]
            if op == ">":
                l, r, op = r, l, "<"
            if op not in ("<", "!=") or l[0] != "path" or len(l[2]) != 1:
                return False
            bounds.append((l[2][0], r, op))
            return True
        if not conjuncts(c) or len({b[0] for b in bounds}) != 1 or (len(bounds) > 1 and any(b[2] != "<" for b in bounds)):
            return None
        i = bounds[0][0]
        sts = body[2]
        if not sts or i not in st.env:
            return None
        last = sts[-1]
        if last[0] != "sexpr":
            return None
        le_ = last[2]
        ok = le_[0] == "opassign" and le_[2] == "+" and le_[3][0] == "path" and le_[3][2] == [i] and le_[4][0] == "lit" and le_[4][3] == "1"
        ok = ok or (le_[0] == "assign" and le_[2][0] == "path" and le_[2][2] == [i] and le_[3][0] == "bin" and le_[3][2] == "+" and
                    le_[3][3][0] == "path" and le_[3][3][2] == [i] and le_[3][4][0] == "lit" and le_[3][4][3] == "1")
        if not ok:
            return None
        rest = ["block", body[1], sts[:-1]]
        asg = self.assigned_strict(rest)
        if i in asg or has_cont(rest):
            return None
        s = st
        bnds = []
        names = set()
        for _, be, _ in bounds:
            bnd, s = self.ev(be, s, fr)
            if s is None or isinstance(bnd, Clo):
                return None
            bnds.append(bnd)
            free_names(be, names)
        if names & ((self.assigned(rest) - (fr.shared - self.assigned_strict(rest))) | {i}):
            return None
        bnd = bnds[0]
        for x in bnds[1:]:
            bnd = tm.tmin(bnd, x)
        init = st.env[i]
        it = mk("range", init, bnd)
        v, s2 = self.for_over(it, ["pid", i, False, False, None], lambda s0: self.ev(rest, s0, fr), s, fr, rest)
        if s2 is not None:
            env = dict(s2.env)
            env[i] = tm.tmax(init, bnd) if init is not I(0) else bnd
            s2 = St(env, s2.facts, s2.events, s2.pc, s2.heap)
        return v, s2

    def assigned_strict(self, body, out=None):
        if out is None:
            out = set()
        if isinstance(body, list):
            if body and isinstance(body[0], str):
                if body[0] == "assign":
                    root_name(body[2], out)
                elif body[0] == "opassign":
                    root_name(body[3], out)
                elif body[0] == "ref" and body[2] is True:
                    root_name(body[3], out)
            for x in body:
                if isinstance(x, list):
                    self.assigned_strict(x, out)
        return out

    def x_loop(self, e, st, fr):
        sts = e[2][2] if e[2][0] == "block" else []
        b = break_if(sts[0], True) if sts else None
        if b is not None:
            rest = ["block", e[2][1], sts[1:]]
            if b[1] is None:  # loop { if c { break; } rest }
                return self.x_while(["while", e[1], ["un", e[1], "!", b[0]], rest], st, fr)
            if not has_brk(rest):  # loop { if c { return x; } rest }
                v, s = self.x_while(["while", e[1], ["un", e[1], "!", b[0]], rest], st, fr)
                return self.ev(b[1], s, fr) if s is not None else (UNIT, None)
        r = self.loop_with_lets(e, sts, st, fr) or self.loop_next(e, sts, st, fr)
        if r is not None:
            return r
        it = mk("loopit", len(fr.loops))
        return self.for_over(it, None, lambda s0: self.ev(e[2], s0, fr), st, fr, e[2])

    def loop_next(self, e, sts, st, fr):
        """loop { match it.next() { Some(x) => A, None => return r } rest }  is  for x in it { A; rest }  return r"""
        l, wrap = e[1], None
        if not sts:
            return None
        x = sts[0]
        if x[0] == "sexpr" and x[2][0] == "match":
            m = x[2]
        elif x[0] == "slet" and x[2][0] == "pid" and x[4] is not None and x[5] is None and x[4][0] == "match":
            m = x[4]
        else:
            return None
        it = m[2]
        if len(m[3]) != 2 or it[0] != "mcall" or it[3] != "next" or it[5] or it[2][0] != "path" or len(it[2][2]) != 1 or it[2][2][0] not in fr.iters:
            return None
        (p1, g1, b1), (p2, g2, b2) = m[3]
        if p1[0] != "pts":
            (p1, g1, b1), (p2, g2, b2) = m[3][::-1]
            if p2[0] == "pwild":
                return None
        if p1[0] != "pts" or p1[1][-1] != "Some" or len(p1[2]) != 1 or g1 is not None or g2 is not None or \
                not (p2[0] == "pwild" or p2[0] == "ppath" and p2[1][-1] == "None" or p2[0] == "pid" and p2[1] == "None"):
            return None
        out = b2
        while out[0] == "block" and len(out[2]) == 1 and out[2][0][0] == "sexpr":
            out = out[2][0][2]
        if out[0] not in ("ret", "brk") or out[0] == "brk" and len(out) > 3:
            return None
        if x[0] == "slet":
            body = ["block", l, [x[:4] + [b1] + x[5:]] + sts[1:]]
        else:
            body = ["block", l, [["sexpr", l, b1, True]] + sts[1:]]
        used = set()
        free_names(body, used)
        if it[2][2][0] in used or has_brk(body):
            return None
        v, s = self.x_for(["for", l, p1[2][0], it[2], body], st, fr)
        if s is None:
            return UNIT, None
        s = self.store(it[2], mk("arr"), s, fr)
        if out[0] == "ret":
            return self.ev(out, s, fr)
        return self.ev(out[2], s, fr) if out[2] is not None else (UNIT, s)

    def loop_with_lets(self, e, sts, st, fr):
        """loop { let a = A; if c { return x; } rest }  is  let a; while { a = A; !c } { rest }  return x"""
        k, names = 0, []
        while k < len(sts) and sts[k][0] == "slet" and sts[k][2][0] == "pid" and sts[k][4] is not None and sts[k][5] is None and sts[k][2][-1] is None:
            names.append(sts[k][2][1])
            k += 1
        if not k or k == len(sts) or any(n in st.env for n in names) or len(set(names)) != k:
            return None
        b = break_if(sts[k], True)
        rest = ["block", e[2][1], sts[k + 1:]]
        if b is None or has_brk(rest):
            return None
        l = e[1]
        s = st
        for x in sts[:k]:
            s = self.bind(x[2], mk("uninit"), s)
        pre = [["sexpr", l, ["assign", l, ["path", l, [n], None, None], x[4]], True] for n, x in zip(names, sts[:k])]
        cond = ["block", l, pre + [["sexpr", l, ["un", l, "!", b[0]], False]]]
        v, s = self.x_while(["while", l, cond, rest], s, fr)
        if s is None:
            return UNIT, None
        if b[1] is not None:
            return self.ev(b[1], s, fr)
        return UNIT, s

    # ------------------------------------------------------------ macros
    def x_macro(self, e, st, fr):
        n, args, toks = e[2], e[3], e[4]
        if n in ("ensure", "require") and args:
            c, t, f = self.cond(args[0], st, fr)
            if f is not None:
                ev_, f2 = self.ev(args[1], f, fr) if len(args) > 1 else (UNIT, f)
                if f2 is not None:
                    fr.errs.append((f2, ev_ if not isinstance(ev_, Clo) else UNIT))
            return UNIT, t
        if n == "fail" and args:
            v, s = self.ev(args[0], st, fr)
            if s is not None:
                fr.errs.append((s, v))
            return UNIT, None
        if n == "bail":
            fr.errs.append((st, UNIT))
            return UNIT, None
        if n in ("assert",) and args:
            c, t, f = self.cond(args[0], st, fr)
            if f is not None:
                self.note("panic", n, [c], mk("panic", n, c), e[1], fr.scope, f)
            return UNIT, t
        if n in ("assert_eq", "assert_ne") and args:
            a, s = self.ev(args[0], st, fr)
            b, s = self.ev(args[1], s, fr)
            c = tm.eq(a, b)
            f = s.assume(c if n == "assert_ne" else tm.neg(c))
            if f is not None:
                self.note("panic", n, [c], mk("panic", n, c), e[1], fr.scope, f)
            return UNIT, s.assume(c if n == "assert_eq" else tm.neg(c))
        if n in ("panic", "unreachable", "unimplemented", "todo"):
            self.note("panic", n, [], mk("panic", n), e[1], fr.scope, st)
            return UNIT, None
        if n == "matches":
            c, t, f = self.cond(e, st, fr)
            return c, st
        if n == "vec":
            if args is None:
                return mk("arr"), st
            if len(args) == 1 and args[0][0] == "repeat":
                return self.x_repeat(args[0], st, fr)
            v, s = self.args(args, st, fr)
            if s is None:
                return UNIT, None
            return mk("arr", *[x for x in v if not isinstance(x, Clo)]), s
        if n in IGNORE_MACROS:
            return UNIT, st
        if n in ("format", "write", "writeln", "concat"):
            if not args:
                return mk("opaque", "fmt"), st
            v, s = self.args(args, st, fr)
            if s is None:
                return UNIT, None
            return mk("fmt", *[x for x in v if isinstance(x, T)]), s
        if n in ("stringify", "bstringify"):
            return mk("str", "::".join(args[0][2]) if args and args[0][0] == "path" else toks or ""), st
        if args:
            v, s = self.args(args, st, fr)
            if s is None:
                return UNIT, None
            v = [x for x in v if not isinstance(x, Clo)]
            t = mk("call", n + "!", *v)
            return t, self.emit(s, "call", n + "!", v, t, e[1], fr.scope)
        t = mk("call", n + "!", mk("str", (toks or "")[:200]))
        return t, self.emit(st, "call", n + "!", [], t, e[1], fr.scope)

    def x_opaque(self, e, st, fr):
        return mk("opaque", e[2][:60]), st

    def x_let(self, e, st, fr):
        c, t, f = self.cond(e, st, fr)
        return c, st

    # ------------------------------------------------------------ closures
    def apply(self, f, args, st, fr, want_res=False):
        """f: expr AST (closure / path) or Clo; returns (val, st)"""
        o, er = self.apply_res(f, args, st, fr)
        if o is None and er is None:
            return UNIT, None
        if er is None:
            return o[1], o[0]
        if o is None:
            return mk("ctor", "Err", er[1]), er[0]
        c = cond_between(o[0], er[0])
        if c.op == "is" and c.args[0] == "Ok" and c.args[1] is o[1]:
            return o[1], join(o[0], er[0], c)
        return tm.ite(c, mk("ctor", "Ok", o[1]), mk("ctor", "Err", er[1])), join(o[0], er[0], c)

    def apply_res(self, f, args, st, fr, res=True):
        clo = f
        if isinstance(f, list):
            if f[0] == "closure":
                clo = Clo(f[2], f[3], fr.scope)
            elif f[0] == "path":
                if len(f[2]) == 1 and f[2][0] in st.env and isinstance(st.env[f[2][0]], Clo):
                    clo = st.env[f[2][0]]
                else:
                    if len(f[2]) == 1 and not f[4] and f[2][0] in st.env:
                        o = self.apply_val(st.env[f[2][0]], args, st, fr, f[1])
                        if o is not None:
                            return o
                    var = self.variant(f[2], fr.scope)
                    if var in ("Ok",):
                        return (st, args[0]), None
                    if var == "Err":
                        return None, (st, args[0])
                    if var:
                        return (st, mk("ctor", var, *args)), None
                    return self.call_path(f, args, None, st, fr, f[1])
            else:
                v, st = self.ev(f, st, fr)
                if st is None:
                    return None, None
                clo = v
        if not isinstance(clo, Clo):
            t = mk("call", "apply", *[a for a in args if not isinstance(a, Clo)])
            return (st, t), None
        nf = Frame(clo.scope, fnid=fr.fnid, is_closure="res")
        nf.chain = res == "chain"
        saved = {}
        env = dict(st.env if clo.cap is None else clo.cap)
        names = set()
        for p in clo.pats:
            pat_names(p, names)
        for n in names:
            if n in env:
                saved[n] = env[n]
        s = St(env, st.facts, st.events, st.pc, st.heap)
        self.frames.append(nf)
        for p, a in zip(clo.pats, args):
            s = self.bind(p, a, s)
        if len(clo.pats) == 1 and len(args) == 0:
            pass
        base_pc = st.pc
        o, er = self.res(clo.body, s, nf)
        self.frames.pop()
        oks, errs = [], list(nf.errs)
        if o:
            oks.append(o)
        if er:
            errs.append(er)
        for s2, v in nf.returns:
            a, b = split_res(v, s2)
            if a:
                oks.append(a)
            if b:
                errs.append(b)
        self.clo_env = None

        def fin(m):
            if m is None:
                return None
            s2, v = m
            e2 = dict(s2.env)
            self.clo_env = {n: e2.get(n) for n in names}
            if clo.cap is not None:
                return (St(st.env, s2.facts, s2.events, s2.pc, s2.heap), v)
            for n in names:
                if n in saved:
                    e2[n] = saved[n]
                else:
                    e2.pop(n, None)
            return (St(e2, s2.facts, s2.events, s2.pc, s2.heap), v)
        em = fin(merge_outs(errs, base_pc))
        om = fin(merge_outs(oks, base_pc))
        return om, em

    # ------------------------------------------------------------ calls
    def x_call(self, e, st, fr):
        o, er = self.call(e, st, fr)
        return self.unres(o, er)

    def x_mcall(self, e, st, fr):
        o, er = self.mcall(e, st, fr)
        v, s = self.unres(o, er)
        if s is not None and e[3] in CHECKED_M and er is not None and er[1] is UNIT and isinstance(v, T):
            if v.op == "ite" and all(x.op == "ctor" and x.args[0] in ("Ok", "Err") for x in v.args[1:]):
                v = tm.ite(v.args[0], *[mk("ctor", "Some", *x.args[1:]) if x.args[0] == "Ok" else NONE for x in v.args[1:]])
            elif v.op == "ctor" and v.args[0] == "Err":
                v = NONE
        return v, s

    def unres(self, o, er):
        """combine split outcomes into one value/state"""
        if o is None and er is None:
            return UNIT, None
        if er is None:
            return o[1], o[0]
        if o is None:
            return mk("ctor", "Err", er[1] if isinstance(er[1], T) else UNIT), er[0]
        c = cond_between(o[0], er[0])
        v = o[1]
        if isinstance(v, Clo):
            return v, o[0]
        if c.op == "is" and c.args[0] == "Ok" and c.args[1] is v:
            return v, join(o[0], er[0], c)
        r = tm.ite(c, mk("ctor", "Ok", v), mk("ctor", "Err", er[1] if isinstance(er[1], T) else UNIT))
        return r, join(o[0], er[0], c)

    def call(self, e, st, fr):
        """-> (ok, err) outcomes"""
        _, l, f, args = e
        if f[0] == "path":
            segs, gargs, qself = f[2], f[3], f[4]
            if len(segs) == 1 and qself is None and segs[0] in st.env and isinstance(st.env[segs[0]], Clo):
                clo = st.env[segs[0]]
                vs, s = self.args(args, st, fr)
                if s is None:
                    return None, None
                self.clo_env = None
                o, er = self.apply_res(clo, vs, s, fr)
                if o is not None and self.clo_env:
                    ce, s2 = self.clo_env, o[0]
                    for p, a, v in zip(clo.pats, args, vs):
                        if p[0] == "pid" and (a[0] == "ref" and a[2] is True or a[0] == "path" and not p[3]) and isinstance(ce.get(p[1]), T) and ce[p[1]] is not v and self.is_lvalue(a):
                            s2 = self.store(a, ce[p[1]], s2, fr)
                    o = (s2, o[1])
                return o, er
            if len(segs) == 1 and qself is None and segs[0] in st.env and st.env[segs[0]].op in ("ite", "ctor", "path"):
                vs, s = self.args(args, st, fr)
                if s is None:
                    return None, None
                o = self.apply_val(st.env[segs[0]], vs, s, fr, l)
                if o is not None:
                    return o
            # storage
            so = self.storage_call(e, st, fr)
            if so is not None:
                return so
            var = self.variant(segs, fr.scope) if qself is None else None
            if var == "Ok" or var == "Err" or var:
                vs, s = self.args(args, st, fr)
                if s is None:
                    return None, None
                vs = [v if isinstance(v, T) else mk("opaque", "closure") for v in vs]
                return (s, mk("ctor", var, *vs)), None
            # evaluate args (keep closures unevaluated)
            if segs[-1] in ("from_le_bytes", "from_be_bytes", "from_ne_bytes") and len(args) == 1 and INTSIZE.get(segs[-2] if len(segs) > 1 else (qself or [""])[0]):
                x = args[0]
                while x[0] == "try" or x[0] == "mcall" and x[3] in ("ok_or", "ok_or_else", "map_err", "unwrap", "expect", "unwrap_or_default"):
                    x = x[2]
                if x[0] == "mcall":
                    x = x[2]        # known by its receiver
                    self.want_len[id(x)] = INTSIZE[segs[-2] if len(segs) > 1 else qself[0]]
                if x[0] == "call":
                    self.want_len[id(x)] = INTSIZE[segs[-2] if len(segs) > 1 else qself[0]]
            vs, s = self.args(args, st, fr)
            if s is None:
                return None, None
            if segs[-1] in ("swap", "replace", "take") and (segs[-2:-1] == ["mem"] or len(segs) == 1 and self.abs_path(segs, fr.scope)[-2:-1] == ["mem"]) and all(isinstance(x, T) for x in vs) \
                    and self.is_lvalue(args[0]) and (segs[-1] != "swap" or self.is_lvalue(args[1])):
                s = self.store(args[0], vs[1] if len(vs) > 1 else mk("default"), s, fr)
                if segs[-1] == "swap":
                    return (self.store(args[1], vs[0], s, fr), UNIT), None
                return (s, vs[0]), None
            return self.call_path(f, vs, args, s, fr, l, self.want_len.get(id(e)))
        v, s = self.ev(f, st, fr)
        if s is None:
            return None, None
        vs, s = self.args(args, s, fr)
        if s is None:
            return None, None
        if isinstance(v, Clo):
            return self.apply_res(v, vs, s, fr)
        t = mk("call", "apply", *[x for x in [v] + vs if not isinstance(x, Clo)])
        return (self.emit(s, "call", "apply", vs, t, l, fr.scope), t), None

    def call_path(self, f, vs, args, s, fr, l, want=None):
        segs, gargs, qself = f[2], f[3], f[4]
        n = segs[-1]
        vs = list(vs)
        # builtin constructors / conversions
        if qself is None or True:
            b = self.builtin_path(segs, qself, vs, s, fr, gargs, l)
            if b is not None:
                return b
        # tuple-struct constructor
        if n[0].isupper() and qself is None:
            a = self.abs_path(segs, fr.scope)
            c = self.crate_alias(a[0])
            nm = n if n != "Self" else (fr.scope.self_ty or "Self")
            if (c, n) in self.ix.structs or (fr.scope.crate, n) in self.ix.structs or n == "Self":
                flds = tuple(str(i) for i in range(len(vs)))
                return (s, mk("struct", nm, flds, *[v if isinstance(v, T) else UNIT for v in vs])), None
            if len(segs) >= 2 and segs[-2][0].isupper():
                vt = [v if isinstance(v, T) else UNIT for v in vs]
                return (s, mk("ctor", "::".join(segs[-2:]), *vt)), None
            vt = [v if isinstance(v, T) else UNIT for v in vs]
            return (s, mk("ctor", n, *vt)), None
        fn, name = self.resolve_fn(segs, fr.scope, qself)
        if fn is not None and fn.name == "convert" and fn.trait and len(self.ix.by_id.get(fn.id, ())) > 1:
            fn = None       # overloaded by argument type: not resolved
        if fn is not None and fn.trait and fn.trait.startswith("trait:") and fn.body is None:
            # trait method through Self / T: try receiver type
            t = self.typeof(vs[0]) if vs and isinstance(vs[0], T) else None
            if t:
                for g in self.ix.by_name.get(n, []):
                    if g.crate == t[0] and g.self_ty == t[1] and g.body is not None:
                        fn, name = g, g.id
        if name.startswith("#getter:"):
            p = name.split(":")
            cr = p[1] if len(p) > 2 else fr.scope.crate
            so = self.ix.storage[(cr, self.ix.getters[(cr, n)])]
            return (s, self.load(so, [v for v in vs if isinstance(v, T)], s)), None
        if fn is not None and fn.body is not None and "const " in (fn.generics or "") and self.can_inline(fn, name):
            fn, vs, s = self.bind_consts(fn, vs, gargs, want, s, fr)
            if s is None:
                return None, None
        return self.invoke(fn, name, vs, args, s, fr, l)

    def bind_consts(self, fn, vs, gargs, want, s, fr):
        """const generic parameters become ordinary parameters, with the values given or implied at this call"""
        names = re.findall(r"\bconst (\w+) ?:", fn.generics)
        given = gargs[-1] if gargs else None
        given = split_generics(given[given.index("<") + 1:given.rindex(">")]) if given and "<" in given else []
        order = [x.split(":")[0].strip() for x in split_generics(fn.generics.strip().strip("<>")) if not x.strip().startswith("'")]
        params, vals = list(fn.params), list(vs)
        for n in names:
            v = None
            i = next((i for i, x in enumerate(order) if x == "const " + n), None)
            if i is not None and i < len(given) and given[i].strip() != "_":
                g = given[i].strip().strip("{}").strip()
                v = I(int(re.sub(r"(usize|u\d+|_)", "", g))) if g[:1].isdigit() else s.env.get(g) if g in s.env else self.pure(["path", 0, g.split("::"), [None] * len(g.split("::")), None], fr.scope)
            if v is None:
                for (p, ty), x in zip(fn.params, vs):
                    if isinstance(x, T) and re.search(r"^&?(mut )?\[.*; ?%s ?\]$" % n, ty.strip().replace("& ", "&")):
                        v = mklen(x)
                        break
            if v is None and want is not None and re.search(r"\[ ?u8 ?; ?%s ?\]" % n, fn.ret or ""):
                v = I(want)
            if isinstance(v, T):
                params.append((["pid", n, False, False, None], "usize"))
                vals.append(v)
        if len(params) == len(fn.params) or len(fn.params) != len(vs):
            return fn, vs, s
        g = copy.copy(fn)
        g.params = params
        return g, vals, s

    def builtin_path(self, segs, qself, vs, s, fr, gargs, l):
        n = segs[-1]
        q = segs[-2] if len(segs) > 1 else (parse_type(qself[0])[0][-1] if qself and parse_type(qself[0])[0] else None)
        T0 = vs[0] if vs and isinstance(vs[0], T) else None
        if n in ("zero",) and not vs or (n == "zero" and q == "Amount") or (n == "Zero" and False):
            return (s, I(0)), None
        if n == "one" and not vs:
            if q in ("Ratio", "Rate", "UnsignedFixedPoint", "SignedFixedPoint", "FixedU128", "FixedI128", "Permill", "Perquintill"):
                return (s, mk("call", "one")), None      # not the integer: there are values between it and zero
            return (s, I(1)), None
        if n in ("default",) and not vs:
            if len(segs) > 1 and qself is None and q not in ("Default",):
                r = self.resolve_type("::".join(segs[:-1]), fr.scope)
                if r and any(g.crate == r[0] and g.self_ty == r[1] and g.body is not None for g in self.ix.by_name.get("default", [])):
                    return None
                if q == "Self" and r:
                    q = r[1]
            if q in tm.ZERO_DEFAULT:
                return (s, I(0)), None
            return (s, mk("default", q or "") if q not in ("Default", None, "u32", "u64", "u128", "u8") else mk("default")), None
        if n in ("from", "into", "from_ref") and len(vs) == 1 and T0 is not None:
            m = self.from_impl(T0) or (self.from_into("::".join(segs[:-1]), fr.scope) if n == "from" and len(segs) > 1 and qself is None else None)
            if m is not None:
                return self.invoke(m, m.id, vs, [], s, fr, l)
            # conversions: inline if repo defines From for this type and value class is a repo type, otherwise transparent
            return (s, vs[0]), None
        if n in ("try_from", "try_into") and len(vs) == 1 and T0 is not None:
            k = self.array_len(qself[0] if qself else "::".join(segs[:-1]), fr.scope) if n == "try_from" and (qself or len(segs) > 1) else None
            if k is not None:
                k, s = self.ev(k, s, fr)
                return split_res(tm.ite(tm.eq(mklen(vs[0]), k), mk("ctor", "Ok", vs[0]), mk("ctor", "Err", mk("call", "TryFromSliceError"))), s)
            rt = self.resolve_type(qself[0] if qself else "::".join(segs[:-1]), fr.scope) if (qself or len(segs) > 1) else None
            if rt is None:
                t = mk("conv", q or "", vs[0])
                return split_res(mk("tryconv", vs[0]), s, val=vs[0])
            return None
        if n == "digest" and q in HASHERS and len(vs) == 1 and isinstance(vs[0], T):
            return (s, mkhash(q, vs)), None
        if n in ("min", "max") and len(vs) == 2:
            return (s, (tm.tmin if n == "min" else tm.tmax)(vs[0], vs[1])), None
        if n == "once" and q == "iter" and T0 is not None and len(vs) == 1:
            return (s, mk("arr", T0)), None
        if n in ("drop", "black_box") and len(vs) == 1 and (len(segs) == 1 or segs[-2] in ("mem", "hint")):
            return (s, UNIT), None
        if n == "with_capacity" and vs and isinstance(vs[-1], T):
            self.note("alloc", n, [vs[-1]], mk("alloc", vs[-1]), l, fr.scope, s)
        if n == "with_capacity" or (n == "new" and q in ("Vec", "VecDeque", "String", "BTreeMap", "BTreeSet") and not vs):
            return (s, mk("arr")), None
        if n == "new" and q in ("Some", "Box", "Rc", "RefCell", "Cell", "Arc") and len(vs) == 1:
            return (s, vs[0]), None
        if q == "Amount" and n == "new" and len(vs) == 2:
            return (s, mk("amount", vs[0], vs[1])), None
        if n in BIN_M and len(vs) == 2 and q in ("Add", "Sub", "Mul", "Div", "PartialEq", "PartialOrd", "Ord") and isinstance(vs[1], T):
            return (s, tm.binop(BIN_M[n], vs[0], vs[1])), None
        if n == "with_storage_layer" or n == "with_transaction" and vs:
            if isinstance(vs[-1], Clo):
                return self.apply_res(vs[-1], [], s, fr)
        if n == "from_fn_x":
            return None
        if len(segs) == 3 and segs[0] in ("T", "Self") and n == "get" and not vs:
            return (s, mk("cfg", segs[1])), None
        if len(segs) == 3 and n == "get" and not vs and qself is not None and qself[0] in ("T", "Self") and segs[0] == "Config":
            return (s, mk("cfg", segs[1])), None
        if n == "get" and not vs and qself is None and len(segs) == 2:
            c = self.const([segs[0]], fr.scope)
            if c is not None:
                return (s, self.const_val(c, segs[0])), None
            return (s, mk("cfg", segs[0])), None
        return None

    def can_inline(self, fn, name):
        if not self.inline or fn is None or fn.body is None:
            return False
        if name in self.opaque or fn.id in self.opaque or fn.id.rsplit("::", 1)[-1] in self.opaque:
            return False
        if fn.id in self.stack:
            return False
        if len(self.stack) >= self.maxdepth:
            return False
        if fn.crate != self.crate and fn.crate not in self.inline_crates:
            return False
        return True

    def tuple_ty(self, fn, t):
        """types of the components of a returned tuple"""
        rt = strip_res(fn.ret)
        if rt.startswith("(") and rt.endswith(")") and isinstance(t, T):
            d, cur, parts = 0, "", []
            for ch in rt[1:-1]:
                d += (ch in "<([") - (ch in ">)]")
                if ch == "," and d == 0:
                    parts.append(cur)
                    cur = ""
                else:
                    cur += ch
            for i, x in enumerate(parts + [cur]):
                r = self.resolve_type(x.strip(), self.fn_scope(fn)) if x.strip() and not x.strip().startswith(("Vec<", "Option<", "(")) else None
                if r:
                    self.ty.setdefault(tm.field(t, str(i)).id, r)

    def invoke(self, fn, name, vs, args, s, fr, l, recv_ast=None):
        if name == "currency::Amount::checked_mul" and len(vs) == 2 and self.crate != "currency":
            fn, name, vs = self.ix.fn("currency::Amount::checked_rounded_mul"), "currency::Amount::checked_rounded_mul", list(vs) + [mk("ctor", "Rounding::Down")]
        if name == "currency::Amount::map" and self.crate != "currency" and len(vs) == 2 and isinstance(vs[0], T) and isinstance(vs[1], Clo):
            a = vs[0]
            n, cur = (a.args[0], a.args[1]) if a.op == "amount" else (mk("call", "currency::Amount::amount", a), mk("call", "currency::Amount::currency", a))
            r, s2 = self.apply(vs[1], [n], s, fr)
            if s2 is not None and isinstance(r, T):
                return (s2, mk("amount", r, cur)), None
        tvs = [v if isinstance(v, T) else mk("opaque", "closure") for v in vs]
        if self.late:
            ms = self.late.get(name.split("::")[-1])
            if ms:
                k = sum(e.name.split("::")[-1] in ms for _, e in s.events if e.kind == "call")
                if k:
                    tvs = tvs + [mk("late", I(k)) if "#" in ms else mk("late")]
        t = mk("call", name, *tvs)
        if recv_ast is not None and name.endswith("::try_format"):
            self.framing[t.id] = framing(recv_ast)
        if not self.can_inline(fn, name):
            # closures passed to unknown functions: evaluate once for their events
            if name in ("with_storage_layer",):
                pass
            if fn is not None and fn.ret:
                r = self.resolve_type(strip_res(fn.ret), self.fn_scope(fn))
                if r:
                    self.ty.setdefault(t.id, r)
                self.tuple_ty(fn, t)
            isres = fn is not None and fn.ret and is_result_ty(fn.ret)
            s2 = self.emit(s, "call", name, tvs, t, l, fr.scope)
            s2 = self.havoc(fn, t, vs, args, recv_ast, s2, fr)
            for v in vs:
                if isinstance(v, Clo):
                    n = len(v.pats)
                    r, s3 = self.apply(v, [mk("cloarg", name, i) for i in range(n)], s2, fr)
                    if s3 is not None:
                        s2 = join(s3, s2, mk("invoked", t))
            if fn is not None and not isres and fn.ret is not None:
                if fn.ret.replace(" ", "").startswith("Option<"):
                    self.optcalls.add(t.id)
                if fn.ret in ("u8", "u16", "u32"):
                    self.narrow_calls[t.id] = fn.ret
                return (s2, t), None
            if fn is None and self.infallible_name(name):
                return (s2, t), None
            return split_res(t, s2)
        # inline
        self.ninl += 1
        s1 = self.emit(s, "icall", fn.id, tvs, t, l, fr.scope)
        caller_env = s.env
        vs = [Clo(v.pats, v.body, v.scope, caller_env) if isinstance(v, Clo) and v.cap is None else v for v in vs]
        # by-reference arguments: write back
        ok, err, isres = self.run_fn_wb(fn, vs, s1)
        wb = []
        if args is not None:
            arglist = args
            if recv_ast is not None:
                arglist = [recv_ast] + list(args)
            for i, (p, a) in enumerate(zip(fn.params, arglist)):
                ty = p[1]
                if (ty.startswith("&mut") or "&mut" in ty[:12] or ty.startswith("&'a mut")) and a is not None and self.is_lvalue(a) and p[0][0] == "pid":
                    wb.append((i, p[0][1], a))
                elif ty == "mut self":
                    pass

        def back(o):
            if o is None:
                return None
            s2, v = o
            inner = s2.env
            s3 = St(caller_env, s2.facts, s2.events, s2.pc, s2.heap)
            for i, n, a in wb:
                nv = inner.get(n)
                if nv is not None and isinstance(nv, T) and nv is not vs[i]:
                    s3 = self.store(a, nv, s3, fr)
            return (s3, v)
        ok, err = back(ok), back(err)
        if fn.ret and ok:
            r = self.resolve_type(strip_res(fn.ret), self.fn_scope(fn))
            if r and isinstance(ok[1], T) and not strip_res(fn.ret).startswith(("Vec<", "(", "Option<")):
                self.ty.setdefault(ok[1].id, r)
            self.tuple_ty(fn, ok[1])
        return ok, err

    def havoc(self, fn, t, vs, args, recv_ast, s, fr):
        """arguments passed by mutable reference to a function that is not inlined have unknown values afterwards"""
        if args is None:
            return s
        al = ([recv_ast] if recv_ast is not None else []) + list(args)
        for i, a in enumerate(al):
            if a is None or i >= len(vs) or not isinstance(vs[i], T):
                continue
            mut = a[0] == "ref" and a[2] is True
            if fn is not None and i < len(fn.params):
                ty = fn.params[i][1]
                mut = ty.startswith("&mut") or ty.startswith("&'") and " mut " in ty[:14]
            if mut and self.is_lvalue(a):
                r = mk("havoc", t, i)
                if vs[i].id in self.ty:
                    self.ty.setdefault(r.id, self.ty[vs[i].id])
                s = self.store(a, r, s, fr)
        return s

    def run_fn_wb(self, fn, vs, s):
        ok, err, isres = self.run_fn(fn, vs, s)
        return ok, err, isres

    def infallible_name(self, name):
        return False

    # ------------------------------------------------------------ storage
    def load(self, so, keys, st):
        nm = "%s::%s" % (so["crate"], so["name"])
        t = mk("load", nm, *keys)
        k = t.id
        HEAPK[k] = t if so["query"] == "value" else mk("opt", t)
        if k in st.heap:
            return st.heap[k]
        return HEAPK[k]

    def storage_call(self, e, st, fr):
        _, l, f, args = e
        segs, gargs, qself = f[2], f[3], f[4]
        n = segs[-1]
        if n not in STORAGE_M:
            return None
        so = None
        if qself is not None:
            so = self.storage_of(qself[0], fr.scope)
        elif len(segs) >= 2:
            so = self.storage_of(segs[:-1], fr.scope)
        if so is None:
            return None
        nk = len(so["keys"])
        nm = "%s::%s" % (so["crate"], so["name"])
        opt = so["query"] != "value"
        keyargs, rest = args[:nk], args[nk:]
        keys, s = self.args(keyargs, st, fr)
        if s is None:
            return None, None
        keys = [k for k in keys if isinstance(k, T)]
        if so["kind"] == "StorageNMap" and keys and keys[0].op == "tup" and len(keys) == 1:
            keys = list(keys[0].args)

        def emit_write(s, val, whole=True, old=None):
            return self.write(s, so, keys, val, l, fr, old)
        if n in ("get",):
            return (s, self.load(so, keys, s)), None
        if n == "try_get":
            v = self.load(so, keys, s)
            c = mk("has", mk("load", nm, *keys))
            t, f2 = s.assume(c), s.assume(tm.neg(c))
            val = tm.payload("Some", 0, v) if opt else v
            return ((t, val) if t is not None else None), ((f2, UNIT) if f2 is not None else None)
        if n in ("contains_key", "exists"):
            if opt:
                return (s, tm.isv("Some", self.load(so, keys, s))), None
            return (s, mk("has", mk("load", nm, *keys))), None
        if n in ("insert", "put", "set"):
            v, s = self.args(rest, s, fr)
            if s is None:
                return None, None
            val = v[0] if v and isinstance(v[0], T) else mk("opaque", "val")
            if n == "set" and opt:
                val = val  # Option value
                return (self.write(s, so, keys, val, l, fr, None, optval=True), UNIT), None
            return (self.write(s, so, keys, val, l, fr), UNIT), None
        if n in ("remove", "kill"):
            return (self.delete(s, so, keys, l, fr), UNIT), None
        if n == "take":
            v = self.load(so, keys, s)
            return (self.delete(s, so, keys, l, fr), v), None
        if n in ("mutate", "try_mutate", "mutate_exists", "try_mutate_exists"):
            exists = "exists" in n
            isopt = opt or exists
            t = mk("load", nm, *keys)
            if exists and not opt:
                init = s.heap.get(t.id) or mk("opt", t)
                if init.op not in ("opt", "ctor", "ite"):
                    init = mk("ctor", "Some", init)
            else:
                init = self.load(so, keys, s)
            clo = rest[0] if rest else None
            if clo is not None and clo[0] == "closure":
                pn = clo[2][0]
                vname = "#cell"
                # bind closure parameter as a variable we can read back
                names = set()
                pat_names(pn, names)
                if len(names) != 1:
                    self.warn.append("mutate closure pattern")
                name = sorted(names)[0] if names else "#x"
                ok, er = self.apply_cell(clo, name, init, s, fr)
                try_ = n.startswith("try_")

                def fin(o, write):
                    if o is None:
                        return None
                    s2, v, nv = o
                    if write and nv is not init and isinstance(nv, T):
                        s2 = self.write(s2, so, keys, nv, l, fr, init, optval=isopt)
                    return (s2, v)
                return fin(ok, True), fin(er, not try_)
            v, s = self.args(rest, s, fr)
            val = mk("opaque", "mutated")
            return (self.write(s, so, keys, val, l, fr), UNIT), None
        v, s = self.args(rest, s, fr)
        if s is None:
            return None, None
        v = [x if isinstance(x, T) else mk("opaque", "closure") for x in v]
        if n in ("iter", "iter_prefix", "iter_keys", "iter_values", "iter_prefix_values", "iter_key_prefix", "iter_from", "iter_keys_from"):
            return (s, mk("iterst", n, nm, *(keys if "prefix" in n or nk == 0 else keys), *v)), None
        if n in ("decode_len", "count", "hashed_key_for"):
            return (s, mk("stm", n, nm, *keys)), None
        t = mk("stm", n, nm, *(keys + v))
        s = self.emit(s, "store", nm + "." + n, keys + v, t, l, fr.scope)
        h = {k: x for k, x in s.heap.items() if not (HEAPK.get(k) is not None and heap_nm(HEAPK[k]) == nm)}
        s = St(s.env, s.facts, s.events, s.pc, h)
        return (s, t), None

    def apply_cell(self, clo, name, init, st, fr):
        nf = Frame(fr.scope, fnid=fr.fnid, is_closure="res")
        env = dict(st.env)
        saved = env.get(name)
        s = St(env, st.facts, st.events, st.pc, st.heap)
        self.frames.append(nf)
        s = self.bind(clo[2][0], init, s)
        base_pc = st.pc
        o, er = self.res(clo[3], s, nf)
        self.frames.pop()
        oks, errs = [], list(nf.errs)
        if o:
            oks.append(o)
        if er:
            errs.append(er)
        for s2, v in nf.returns:
            a, b = split_res(v, s2)
            if a:
                oks.append(a)
            if b:
                errs.append(b)

        def fin(m):
            if m is None:
                return None
            s2, v = m
            nv = s2.env.get(name, init)
            e2 = dict(s2.env)
            if saved is not None:
                e2[name] = saved
            else:
                e2.pop(name, None)
            return (St(e2, s2.facts, s2.events, s2.pc, s2.heap), v, nv)
        return fin(merge_outs(oks, base_pc)), fin(merge_outs(errs, base_pc))

    def write(self, s, so, keys, val, l, fr, old=None, optval=False):
        nm = "%s::%s" % (so["crate"], so["name"])
        t = mk("load", nm, *keys)
        # mutate on option: unwrap
        if optval:
            if val.op == "ctor" and val.args[0] == "None":
                return self.delete(s, so, keys, l, fr)
            inner = tm.payload("Some", 0, val) if val.op in ("ctor", "opt", "ite", "payload") or True else val
            # (opt with payload field updates) : upd over payload
            base, d = unupd(val)
            if d and base.op in ("opt",):
                inner = val
        else:
            inner = val
        self.HEAP = None
        stored = val if not optval else val
        parts = self.write_parts(t, inner)
        for path, v in parts:
            term = mk("write", nm + path, v, *keys)
            s = self.emit(s, "write", nm + path, [v] + list(keys), term, l, fr.scope)
        h = {k: x for k, x in s.heap.items() if not (HEAPK.get(k) is not None and heap_nm(HEAPK[k]) == nm)}
        isopt = so["query"] != "value"
        HEAPK[t.id] = mk("opt", t) if isopt else t
        if isopt and not optval:
            h[t.id] = mk("ctor", "Some", val)
        elif optval and not isopt:
            h[t.id] = inner
        else:
            h[t.id] = val
        return St(s.env, s.facts, s.events, s.pc, h)

    def write_parts(self, loadt, val, path=""):
        """field-granular writes for values that update the stored value"""
        base, d = unupd(val)
        if val.op == "struct":
            fs = dict(zip(val.args[1], val.args[2:]))
            d2 = {k: v for k, v in fs.items() if v is not tm.field(loadt, k)}
            if d2 and len(d2) < len(fs):
                base, d = loadt, d2
        if d and base is loadt:
            out = []
            for k in sorted(d):
                out += self.write_parts(tm.field(loadt, k), d[k], path + "." + k)
            return out
        return [(path, val)]

    def delete(self, s, so, keys, l, fr):
        nm = "%s::%s" % (so["crate"], so["name"])
        t = mk("load", nm, *keys)
        s = self.emit(s, "delete", nm, list(keys), mk("delete", nm, *keys), l, fr.scope)
        h = {k: x for k, x in s.heap.items() if not (HEAPK.get(k) is not None and heap_nm(HEAPK[k]) == nm)}
        HEAPK[t.id] = mk("opt", t) if so["query"] != "value" else t
        h[t.id] = NONE if so["query"] != "value" else mk("default")
        return St(s.env, s.facts, s.events, s.pc, h)

    # ------------------------------------------------------------ methods
    def collect_effects(self, recv, turbo, st, fr):
        """it.map(|p| ..).collect() whose closure changes captured variables is the loop that pushes each result"""
        clo = recv[5][0]
        pat, body = clo[2][0], clo[3]
        it, s = self.ev(recv[2], st, fr)
        if s is None or isinstance(it, Clo):
            return None
        s = s.copy()
        s.env["#coll"] = mk("arr")
        nf = Frame(fr.scope, fnid=fr.fnid, is_closure="res")
        self.frames.append(nf)

        def bodyfn(st0):
            o, er = self.res(body, st0, nf)
            if er is not None:
                nf.errs.append(er)
            outs = [o] if o else []
            for s2, v2 in nf.returns:
                a, b2 = split_res(v2, s2)
                if a:
                    outs.append(a)
                if b2:
                    nf.errs.append(b2)
            nf.returns = []
            ends = []
            for s2, v2 in outs:
                s3 = s2.copy()
                s3.env["#coll"] = mk("push", s3.env["#coll"], v2 if isinstance(v2, T) else mk("opaque", "clo"))
                ends.append((s3, UNIT))
            m = merge_outs(ends, st0.pc)
            return UNIT, m[0] if m else None
        nf.loops.extend({"brk": [], "cont": []} for _ in fr.loops)
        try:
            vv, ss = self.for_over(it, pat, bodyfn, s, nf, ["block", recv[1], [body, ["assign", recv[1], ["path", recv[1], ["#coll"], [None], None], None]]])
        finally:
            self.frames.pop()
        em = merge_outs(nf.errs, s.pc)
        out = None
        if ss is not None:
            env = dict(ss.env)
            r = env.pop("#coll")
            out = (St(env, ss.facts, ss.events, ss.pc, ss.heap), r)
        if em is not None and turbo and "Result" not in turbo:
            raise NotImplementedError("a fallible closure collected into a plain collection")
        return out, em

    def mcall(self, e, st, fr):
        _, l, recv, n, turbo, args = e
        if n == "collect" and recv[0] == "mcall" and recv[3] == "map" and len(recv[5]) == 1 and recv[5][0][0] == "closure" and len(recv[5][0][2]) == 1:
            cap = self.assigned(recv[5][0][3]) & {k for k, v in st.env.items() if isinstance(v, T)}
            if cap:
                nlog, seq0 = len(self.log), self.seq
                o, er = self.res(recv, st, fr)
                s1 = o[0] if o else er[0] if er else None
                del self.log[nlog:]
                self.seq = seq0
                if s1 is not None and any(s1.env.get(k) is not st.env[k] for k in cap):
                    r = self.collect_effects(recv, turbo, st, fr)
                    if r is not None:
                        return r
        # evaluate receiver; Result receivers keep outcomes apart for error-mapping methods
        if n in ("map_err",):
            return self.res(recv, st, fr)
        if n in ("ok_or", "ok_or_else"):
            o, er = self.res(recv, st, fr)
            if o is None or er is not None:
                return o, er
            s, v = o
            if not isinstance(v, T):
                return (s, v), None
            if v.op in ("opt", "ctor", "ite") or v.op == "payload":
                c = tm.isv("Some", v)
                t, f = s.assume(c), s.assume(tm.neg(c))
                return ((t, tm.payload("Some", 0, v)) if t is not None else None), ((f, UNIT) if f is not None else None)
            if self.num_op(v):
                return split_checked(v, s)
            c = tm.isv("Some", v)
            t, f = s.assume(c), s.assume(tm.neg(c))
            pv = tm.payload("Some", 0, v)
            if t is not None and v.id in self.ty:
                self.ty.setdefault(pv.id, self.ty[v.id])
            return ((t, pv) if t is not None else None), ((f, UNIT) if f is not None else None)
        if n in ("unwrap", "expect"):
            o, er = self.res(recv, st, fr)
            if o is None:
                return None, None
            s, v = o
            if er is not None:
                self.note("mayfail", n, [v if isinstance(v, T) else UNIT, mk("str", "err")], mk("unwrap", v if isinstance(v, T) else UNIT), l, fr.scope, er[0])
            if not isinstance(v, T):
                return (s, v), None
            if v.op in ("opt",) or v.op == "ctor" and v.args[0] in ("Some", "None") or (v.op == "ite" and self.is_optionish(v)):
                c = tm.isv("Some", v)
                self.note("mayfail", n, [v], mk("unwrap", v), l, fr.scope, s)
                s2 = s.assume(c)
                if s2 is None:
                    return None, None
                return (s2, tm.payload("Some", 0, v)), None
            s = self.emit(s, "unwrap", n, [v], mk("unwrap", v), l, fr.scope)
            return (s, v), None
        if n in ("unwrap_or", "unwrap_or_else", "unwrap_or_default", "unwrap_or_revert"):
            o, er = self.res(recv, st, fr)
            if o is None and er is None:
                return None, None
            if o is not None and er is None:
                s, v = o
                if isinstance(v, T) and self.num_op(v):
                    # checked op fallback
                    d, s2 = self.default_arg(n, args, s, fr)
                    if n == "unwrap_or_default":
                        d = I(0)
                    if v.op == "sub" and d is I(0):
                        return (s2, mk("satsub", *v.args)), None
                    return (s2, tm.ite(mk("noovf", v), v, d)), None
                c = tm.isv("Some", v)
                t, f = s.assume(c), s.assume(tm.neg(c))
                d, f2 = self.default_arg(n, args, f, fr, tm.payload("Some", 0, v)) if f is not None else (UNIT, None)
                v2, s2 = self.join2(tm.payload("Some", 0, v), t, d, f2, c)
                return ((s2, v2) if s2 is not None else None), None
            if o is None:
                d, s2 = self.default_arg(n, args, er[0], fr)
                return ((s2, d) if s2 is not None else None), None
            d, f2 = self.default_arg(n, args, er[0], fr, o[1])
            if n == "unwrap_or_default" and isinstance(o[1], T) and self.num_op(o[1]):
                d = I(0)
            c = cond_between(o[0], er[0])
            if isinstance(o[1], T) and self.num_op(o[1]) and o[1].op == "sub" and d is I(0):
                return (join(o[0], f2, c), mk("satsub", *o[1].args)), None
            v2, s2 = self.join2(o[1], o[0], d, f2, c)
            return ((s2, v2) if s2 is not None else None), None
        if n in ("is_ok", "is_err"):
            o, er = self.res(recv, st, fr)
            if o is None and er is None:
                return None, None
            if er is None:
                s, v = o
                if v.op in ("ctor", "ite", "call", "m"):
                    r = tm.isv("Ok", v) if v.op == "ite" else TRUE
                else:
                    r = TRUE
                return (s, r if n == "is_ok" else tm.neg(r)), None
            if o is None:
                return (er[0], FALSE if n == "is_ok" else TRUE), None
            c = cond_between(o[0], er[0])
            return (join(o[0], er[0], c), c if n == "is_ok" else tm.neg(c)), None
        if n == "ok" and not args:
            o, er = self.res(recv, st, fr)
            if o is None and er is None:
                return None, None
            if er is None:
                return (o[0], mk("ctor", "Some", o[1])), None
            if o is None:
                return (er[0], NONE), None
            c = cond_between(o[0], er[0])
            return (join(o[0], er[0], c), tm.ite(c, mk("ctor", "Some", o[1]), NONE)), None
        if n in ("and", "or", "or_else", "map_or", "map_or_else", "map", "and_then", "filter", "unwrap_or_x", "is_some_and", "xor") and self.maybe_option(recv):
            pass
        o, er = self.res(recv, st, fr)
        if o is None:
            if er is None:
                return None, None
            return None, er
        s, v = o
        # a Result whose error side is still open
        if er is not None:
            if n in ("map",):
                r, s2 = self.apply(args[0], [v], s, fr)
                return ((s2, r) if s2 is not None else None), er
            if n == "and_then":
                o2, e2 = self.apply_res(args[0], [v], s, fr, res="chain")
                return o2, jo(er, e2, None)
            if n in ("or_else", "or"):
                if n == "or":
                    d, s2 = self.ev(args[0], er[0], fr)
                    o2, e2 = split_res(d, s2) if s2 is not None else (None, None)
                else:
                    o2, e2 = self.apply_res(args[0], [UNIT], er[0], fr)
                return jo(o, o2, None), e2
            if n in ("map_or", "map_or_else"):
                r, s2 = self.apply(args[1], [v], s, fr)
                if n == "map_or":
                    d, f2 = self.ev(args[0], er[0], fr)
                else:
                    d, f2 = self.apply(args[0], [UNIT], er[0], fr)
                v2, s3 = self.join2(r, s2, d, f2, cond_between(s, er[0]))
                return ((s3, v2) if s3 is not None else None), None
            if n in ("iter", "into_iter", "iter_mut", "chars", "bytes", "keys", "values", "values_mut", "iter_keys", "iter_values", "lines", "drain"):
                # only collections are iterated: the receiver is no Result
                return self.method(v, n, turbo, args, recv, self.undo_split(o, er), fr, l)
            if n in TRANSPARENT_M:
                return o, er
            if n in ("is_some_and", "is_ok_and"):
                r, s2 = self.apply(args[0], [v], s, fr)
                c = cond_between(s, er[0])
                return (join(s2, er[0], c), tm.conj([c, r])), None
            # an opaque call outcome used as a plain value (e.g. builder patterns, Option-returning functions):
            c = cond_between(s, er[0])
            j = self.undo_split(o, er)
            s = j
        return self.method(v, n, turbo, args, recv, s, fr, l)

    def undo_split(self, o, er):
        """an unknown call was split into ok/err although its value is used directly: take the pre-split state"""
        s = o[0]
        a, b = o[0], er[0]
        if a.events is b.events or a.events == b.events:
            n = 0
            while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]:
                n += 1
            return St(a.env, Facts(a.facts.s & b.facts.s, a.facts.ors & b.facts.ors), a.events, a.pc[:n], a.heap)
        return s

    def maybe_option(self, recv):
        return True

    def num_op(self, v):
        return v.op in ("add", "sub", "mul", "div", "mod", "int", "shl", "shr")

    def default_arg(self, n, args, s, fr, val=None):
        if n == "unwrap_or":
            return self.ev(args[0], s, fr)
        if n == "unwrap_or_else":
            a = args[0]
            np = len(a[2]) if a[0] == "closure" else 0
            return self.apply(a, [UNIT] * np, s, fr)
        t = self.typeof(val) if isinstance(val, T) else None
        ds = [g for g in self.ix.by_name.get("default", []) if t and g.crate == t[0] and g.self_ty == t[1] and g.body is not None]
        if len(ds) == 1 and len(self.stack) < 12:
            o, er = self.invoke(ds[0], ds[0].id, [], [], s, fr, 0)
            if o is not None and er is None:
                return o[1], o[0]
        return mk("default"), s

    def option_hof(self, n, v, args, s, fr, l):
        o, e = self.method(v, n, None, args, None, s, fr, l)
        return self.unres(o, e)

    def method(self, v, n, turbo, args, recv, s, fr, l):
        while recv is not None and recv[0] == "path" and recv[2][0] in fr.iters and len(recv[2]) == 1 and isinstance(v, T) and v.op == "ite" and known(v.args[0], s.facts.s) is not None:
            v = v.args[1] if known(v.args[0], s.facts.s) else v.args[2]
        if isinstance(v, Clo):
            vs, s = self.args(args, s, fr)
            return ((s, mk("opaque", "clo")) if s is not None else None), None
        if n in ("result", "finalize") and not args:
            h = hash_of(v)
            if h is not None:
                return (s, h), None
        if n == "concat" and not args and v.op == "arr":
            r = mk("arr")
            for x in v.args:
                r = mk("mut", "extend", r, x)
            return (s, r), None
        if n in ("starts_with", "ends_with") and len(args) == 1 and v.op != "str":
            a, s2 = self.ev(args[0], s, fr)
            if s2 is not None and isinstance(a, T) and a.op == "arr" and len(a.args) <= 8:
                k, ln = len(a.args), mklen(v)
                return (s2, tm.conj([tm.le(I(k), ln)] + [tm.eq(tm.index(v, I(i) if n == "starts_with" else tm.sub(ln, I(k - i))), x) for i, x in enumerate(a.args)])), None
        if n in ("strip_prefix", "strip_suffix") and len(args) == 1 and v.op != "str":
            a, s2 = self.ev(args[0], s, fr)
            if s2 is not None and isinstance(a, T) and a.op == "arr" and len(a.args) <= 8:
                k, ln = len(a.args), mklen(v)
                c = tm.conj([tm.le(I(k), ln)] + [tm.eq(tm.index(v, I(i) if n == "strip_prefix" else tm.sub(ln, I(k - i))), x) for i, x in enumerate(a.args)])
                rest = v if not k else tm.index(v, mk("range", I(k), mk("inf"))) if n == "strip_prefix" else tm.index(v, mk("range", I(0), tm.sub(ln, I(k))))
                return (s2, tm.ite(c, mk("ctor", "Some", rest), NONE)), None
        # --- options
        if v.op == "zip" and n in ("ok_or", "ok_or_else", "is_some", "is_none", "unwrap", "expect", "and_then", "map_or", "unwrap_or"):
            v = both(v)
        if n == "zip" and len(args) == 1 and recv is not None and recv[0] == "field" and args[0][0] == "field" and not self.is_optionish(v):
            w, s2 = self.ev(args[0], s, fr)
            return ((s2, both(mk("zip", v, w))) if s2 is not None else None), None
        if n in ("is_some", "is_none"):
            c = tm.isv("Some", v)
            return (s, c if n == "is_some" else tm.neg(c)), None
        if self.is_optionish(v) or v.op in ("payload", "call", "field", "m", "p", "index") and n in ("map", "and_then", "map_or", "map_or_else") and self.option_context(v, n, args, recv):
            if n in ("map", "and_then", "map_or", "map_or_else", "filter", "is_some_and", "or", "or_else", "ok_or", "zip", "unwrap_or_default"):
                c = tm.isv("Some", v)
                t, f = s.assume(c), s.assume(tm.neg(c))
                pv = tm.payload("Some", 0, v)
                if n in ("map", "and_then", "filter", "is_some_and"):
                    if t is None:
                        return (f, NONE if n != "is_some_and" else FALSE), None
                    o2, e2 = self.apply_res(args[0], [pv], t, fr)
                    if o2 is None and e2 is None:
                        return (f, NONE), None
                    if e2 is not None or o2 is None:
                        r, s2 = self.unres(o2, e2)
                    else:
                        s2, r = o2
                    if n == "and_then" and isinstance(r, T):
                        r = as_option(r)
                    if n == "map":
                        r = mk("ctor", "Some", r) if isinstance(r, T) else mk("ctor", "Some", UNIT)
                    elif n == "filter":
                        r = tm.ite(r, mk("ctor", "Some", pv), NONE)
                    d = NONE if n != "is_some_and" else FALSE
                    vv, ss = self.join2(r, s2, d, f, c)
                    return ((ss, vv) if ss is not None else None), None
                if n == "zip":
                    w, t2 = self.ev(args[0], s, fr)
                    if t2 is None:
                        return None, None
                    return (t2, tm.ite(tm.conj([c, tm.isv("Some", w)]), mk("ctor", "Some", mk("tup", pv, tm.payload("Some", 0, w))), NONE)), None
                if n in ("or", "or_else"):
                    d, f2 = (self.ev(args[0], f, fr) if n == "or" else self.apply(args[0], [], f, fr)) if f is not None else (UNIT, None)
                    vv, ss = self.join2(mk("ctor", "Some", pv), t, d, f2, c)
                    return ((ss, vv) if ss is not None else None), None
                if n in ("map_or", "map_or_else"):
                    r, t2 = self.apply(args[1], [pv], t, fr) if t is not None else (UNIT, None)
                    if f is None:
                        d, f2 = UNIT, None
                    elif n == "map_or":
                        d, f2 = self.ev(args[0], f, fr)
                    else:
                        d, f2 = self.apply(args[0], [], f, fr)
                    vv, ss = self.join2(r, t2, d, f2, c)
                    if ss is None:
                        return None, None
                    return split_if_res(vv, ss)
        if n == "take" and not args and recv is not None and self.is_lvalue(recv) and (self.typeof(v) is None or self.user_method(v, n, fr, 0) is None):
            # an Option, emptied
            return (self.store(recv, NONE, s, fr), v), None
        if n == "replace" and len(args) == 1 and recv is not None and self.is_lvalue(recv) and (self.typeof(v) is None or self.user_method(v, n, fr, 1) is None):
            # an Option, set
            vs, s = self.args(args, s, fr)
            if s is None:
                return None, None
            if isinstance(vs[0], T):
                return (self.store(recv, mk("ctor", "Some", vs[0]), s, fr), v), None
        # --- iterators with closures
        if n == "take" and len(args) == 1 and args[0][0] == "ref" and recv is not None and self.is_lvalue(recv):
            # a map's entry, removed
            vs, s = self.args(args, s, fr)
            if s is None:
                return None, None
            x = tm.index(v, vs[0])
            r = mk("ite", mk("has", x), mk("ctor", "Some", x), NONE)
            s = self.emit(s, "mcall", ".take", [v] + vs, mk("m", "take", v, *vs), l, fr.scope)
            return (self.store(recv, mk("mut", "remove", v, *vs), s, fr), r), None
        if n in ("map", "filter", "for_each", "try_for_each", "any", "all", "fold", "try_fold", "filter_map", "find", "position", "flat_map", "take_while",
                 "skip_while", "count", "sum", "enumerate", "zip", "rev", "skip", "take", "chain", "collect", "find_map", "product", "step_by", "windows", "chunks",
                 "rposition", "partition", "min_by", "max_by", "min_by_key", "max_by_key", "last", "flatten", "inspect", "unzip") and not (
                     n == "map" and self.typeof(v) == ("currency", "Amount")) and not (n == "take" and not args):
            r = self.iter_method(v, n, turbo, args, s, fr, l)
            if r is not None:
                return r
        if n == "into" and not args:
            if v.op == "ctor" and v.args[0].split("::")[0] in ("InvalidTransaction", "UnknownTransaction"):
                return None, (s, v)
            m = self.from_impl(v)
            if m is not None:
                return self.invoke(m, m.id, [v], [recv] if recv is not None else [], s, fr, l)
        if n in TRANSPARENT_M and (len(args) == 0 or n in ("expect",)):
            m = self.user_method(v, n, fr, len(args or []))
            if m is None or n in ("clone", "iter", "into_iter", "as_ref", "as_mut", "iter_mut", "into"):
                return (s, v), None
        if n == "amount" and not args and v.op == "amount":
            return (s, v.args[0]), None
        if n == "currency" and not args and v.op == "amount":
            return (s, v.args[1]), None
        if n in ("is_zero",) and not args:
            return (s, tm.eq(v, I(0))), None
        if n == "is_one" and not args:
            return (s, tm.eq(v, I(1))), None
        if n == "is_positive" and not args:
            return (s, tm.lt(I(0), v)), None
        if n == "is_negative" and not args:
            return (s, tm.lt(v, I(0))), None
        if n == "len" and not args:
            m = self.user_method(v, n, fr, len(args or []))
            if m is None:
                return (s, mklen(v)), None
        if n == "is_empty" and not args:
            m = self.user_method(v, n, fr, len(args or []))
            if m is None:
                return (s, tm.eq(mklen(v), I(0))), None
        if n == "not" and not args:
            return (s, tm.neg(v)), None
        if n == "#try_array" and len(args) == 1:
            k, s = self.ev(args[0], s, fr)
            return split_res(mk("ite", tm.eq(mklen(v), k), mk("ctor", "Ok", v), mk("ctor", "Err", mk("call", "TryFromSliceError"))), s)
        if n in ("try_into",) and not args:
            return split_res(mk("tryconv", v), s, val=v)
        if n in ("pow", "saturating_pow", "checked_pow") and len(args) == 1:
            a, s = self.ev(args[0], s, fr)
            if s is None:
                return None, None
            if isint(v) and isint(a) and 0 <= a.args[0] < 512:
                return (s, I(v.args[0] ** a.args[0])), None
            return (s, mk("pow", v, a)), None
        if n == "abs" and not args:
            return (s, mk("abs", v)), None
        if n == "contains" and len(args) == 1:
            a, s = self.ev(args[0], s, fr)
            if s is None:
                return None, None
            if v.op == "range":
                return (s, tm.conj([tm.le(v.args[0], a), tm.lt(a, v.args[1])])), None
            if isinstance(a, T):
                return (s, ex(v, tm.eq(mk("elem", v), a)) if v.op != "call" or True else None), None
        if n == "checked_accrue" and self.crate != "currency" and len(args) == 1 and self.is_lvalue(recv):
            o, er = self.mcall(["mcall", l, recv, "checked_add", None, args], s, fr)
            return ((self.store(recv, o[1], o[0], fr), o[1]) if o is not None else None), er
        um = self.user_method(v, n, fr, len(args or [])) if n != "try_format" or framing(recv) != "raw" else None
        amt = um is not None and n in AMOUNT_M and self.crate != "currency" and um.id == "currency::Amount::" + n
        if amt:
            um = None  # arithmetic and comparisons of amounts are read as those of the amounts they carry
        if um is None and n in BIN_M and len(args) == 1:
            a, s = self.ev(args[0], s, fr)
            if s is None:
                return None, None
            if isinstance(a, T):
                if n in CMP_M:
                    return (s, tm.binop(BIN_M[n], v, a)), None
                if n in ("checked_add", "checked_mul", "checked_div", "checked_sub", "checked_rem", "checked_shl", "checked_shr") or n.startswith("ensure_"):
                    r = tm.binop(BIN_M[n], v, a)
                    t = self.typeof(v) or self.typeof(a)
                    if t:
                        self.ty.setdefault(r.id, t)
                    o, er = split_checked(r, s)
                    if amt and er is not None and n in ("checked_add", "checked_sub"):
                        er = (er[0], mk("ctor", "ArithmeticError::" + ("Overflow" if n == "checked_add" else "Underflow")))
                    return o, er
                r = tm.binop(BIN_M[n], v, a)
                t = self.typeof(v) or self.typeof(a)
                if t:
                    self.ty.setdefault(r.id, t)
                return (s, r), None
        if um is None and n in ("saturating_sub",) and len(args) == 1:
            a, s = self.ev(args[0], s, fr)
            if s is None:
                return None, None
            if isint(v) and isint(a):
                return (s, I(max(0, v.args[0] - a.args[0]))), None
            r = mk("satsub", v, a)
            self.keep_type(r, v, a)
            return (s, r), None
        if n in ("min", "max") and len(args) == 1 and um is None:
            a, s = self.ev(args[0], s, fr)
            if s is None:
                return None, None
            r = (tm.tmin if n == "min" else tm.tmax)(v, a)
            self.keep_type(r, v, a)
            return (s, r), None
        if n == "clamp" and len(args) == 2:
            vs, s = self.args(args, s, fr)
            if s is None:
                return None, None
            return (s, tm.tmin(tm.tmax(v, vs[0]), vs[1])), None
        if n in ("then", "then_some") and len(args) == 1 and isbool(v):
            t, f = s.assume(v), s.assume(tm.neg(v))
            if n == "then":
                r, t2 = self.apply(args[0], [], t, fr) if t is not None else (UNIT, None)
            else:
                r, t2 = self.ev(args[0], t, fr) if t is not None else (UNIT, None)
            vv, ss = self.join2(mk("ctor", "Some", r), t2, NONE, f, v)
            return ((ss, vv) if ss is not None else None), None
        if n in ("get", "get_mut") and len(args) == 1 and um is None and not (n == "get_mut" and self.is_map(v)):
            a, s = self.ev(args[0], s, fr)
            if s is None:
                return None, None
            if isinstance(a, T):
                if self.is_map(v):
                    x = tm.index(v, a)
                    return (s, mk("ite", mk("has", x), mk("ctor", "Some", x), NONE)), None
                ln = mklen(v)
                if a.op == "range":
                    c = tm.conj([tm.le(a.args[0], a.args[1]), tm.le(a.args[1], ln)]) if a.args[1].op != "inf" else tm.le(a.args[0], ln)
                    if a.args[0] is I(0):
                        c = tm.le(a.args[1], ln) if a.args[1].op != "inf" else TRUE
                else:
                    c = tm.lt(a, ln)
                return (s, mk("ite", c, mk("ctor", "Some", tm.index(v, a)), NONE)), None
        if n in ("contains", "contains_key") and len(args) == 1 and um is None and self.is_map(v):
            a, s = self.ev(args[0], s, fr)
            if s is None:
                return None, None
            if isinstance(a, T):
                return (s, mk("has", tm.index(v, a))), None
        if n in ("next", "next_back") and not args and recv is not None and recv[0] == "path" and len(recv[2]) == 1 and recv[2][0] in fr.iters and \
                self.iter_parts(v)[0] is v and v.op not in ("iterst", "arr", "rev", "fold", "ite", "mut"):
            ln = mklen(v)
            i, rest = (I(0), mk("range", I(1), mk("inf"))) if n == "next" else (tm.sub(ln, I(1)), mk("range", I(0), tm.sub(ln, I(1))))
            c = tm.neg(tm.eq(ln, I(0)))
            s = self.store(recv, mk("ite", c, tm.index(v, rest), v), s, fr)
            return (s, mk("ite", c, mk("ctor", "Some", tm.index(v, i)), NONE)), None
        if n in ("next", "next_back") and not args and recv is not None and recv[0] == "mcall" and recv[3] in ("iter", "into_iter") and not recv[5] and isinstance(v, T) and \
                v.op not in ("iterst", "ite", "mut") and self.iter_parts(v)[0] is v and not self.is_optionish(v):
            n = "first" if n == "next" else "last"
        if n in ("first", "last") and not args and um is None:
            ln = mklen(v)
            i = I(0) if n == "first" else tm.sub(ln, I(1))
            return (s, mk("ite", tm.neg(tm.eq(ln, I(0))), mk("ctor", "Some", tm.index(v, i)), NONE)), None
        if n in ("split_first", "split_last") and not args and um is None:
            ln = mklen(v)
            i, rest = (I(0), mk("range", I(1), mk("inf"))) if n == "split_first" else (tm.sub(ln, I(1)), mk("range", I(0), tm.sub(ln, I(1))))
            return (s, mk("ite", tm.neg(tm.eq(ln, I(0))), mk("ctor", "Some", mk("tup", tm.index(v, i), tm.index(v, rest))), NONE)), None
        if n == "env" and not args and um is None:
            while v.op == "upd":  # the environment is not part of a contract's storage
                v = v.args[0]
        if n == "split_at" and len(args) == 1 and isinstance(v, T) and v.id not in self.ty:
            vs, s = self.args(args, s, fr)
            if s is None:
                return None, None
            if isinstance(vs[0], T):
                a, b = mk("range", I(0), vs[0]), mk("range", vs[0], mk("inf"))
                s = self.emit(s, "index", "index", [v, a], mk("indexop", v, a), l, fr.scope)
                return (s, mk("tup", tm.index(v, a), tm.index(v, b))), None
        if n == "retain" and um is None and len(args) == 1 and args[0][0] == "closure" and len(args[0][2]) == 1 and self.is_lvalue(recv):
            nv, s = self.ev(("mcall", l, ("mcall", l, recv, "into_iter", None, []), "filter", None, args), s, fr)
            if s is None:
                return None, None
            return (self.store(recv, nv, s, fr), UNIT), None
        if um is None and n in SAT_ASSIGN and len(args) == SAT_ASSIGN[n][1] and self.is_lvalue(recv):
            nv, s = self.ev(("mcall", l, recv, SAT_ASSIGN[n][0], None, args or [("lit", l, "int", "1", "")]), s, fr)
            if s is None:
                return None, None
            return (self.store(recv, nv, s, fr), UNIT), None
        if um is None and n.startswith("sort_unstable"):
            n = "sort" + n[len("sort_unstable"):]
        # user-defined methods
        closures = [a for a in args if a[0] == "closure"]
        vs, s = self.args(args, s, fr)
        if s is None:
            return None, None
        if um is not None:
            if um.body is not None and "const " in (um.generics or "") and self.can_inline(um, um.id):
                um, vs1, s = self.bind_consts(um, [v] + vs, [turbo if turbo and "<" in turbo else "<%s>" % turbo if turbo else None], self.want_len.get(id(recv)), s, fr)
                vs = vs1[1:]
            return self.invoke(um, um.id, [v] + vs, args, s, fr, l, recv_ast=recv)
        tvs = [x if isinstance(x, T) else self.lam(x, n, s, fr) if n in ("sort_by", "sort_by_key", "retain") else mk("opaque", "closure") for x in vs]
        # mutation of local collections
        if n in MUT_M and recv is not None and self.is_lvalue(recv):
            t = mk("m", n, v, *tvs)
            s = self.emit(s, "mcall", "." + n, [v] + tvs, t, l, fr.scope)
            if n in ("push", "push_back", "force_push", "try_push"):
                nv = mk("push", v, *tvs)
                if v.op == "arr":
                    nv = mk("arr", *(list(v.args) + tvs))
                s = self.store(recv, nv, s, fr)
                return (s, UNIT), None
            if n == "take" and not args:
                s = self.store(recv, NONE, s, fr)
                return (s, v), None
            if n == "reverse" and v.op == "rev":
                s = self.store(recv, v.args[0], s, fr)
                return (s, UNIT), None
            if n == "reverse":
                s = self.store(recv, mk("rev", v), s, fr)
                return (s, UNIT), None
            if n in ("copy_from_slice", "clone_from_slice") and tvs:
                s = self.store(recv, tvs[0], s, fr)
                return (s, UNIT), None
            nv = mk("mut", n, v, *tvs)
            if n == "resize" and len(tvs) == 2 and isint(tvs[0]) and known(tm.le(mklen(v), tvs[0]), s.facts.s) is True:
                nv = mk("iupd", mk("repeat", tvs[1], tvs[0]), mk("range", I(0), mklen(v)), v)    # filled up
            s = self.store(recv, nv, s, fr)
            if n == "swap_remove" or n == "remove" and len(tvs) == 1 and tvs[0].op == "first":
                return (s, tm.index(v, tvs[0])), None       # what was at that place
            if n == "append" and len(args) == 1 and args[0][0] == "ref" and self.is_lvalue(args[0]):
                s = self.store(args[0], mk("arr"), s, fr)
            return (s, mk("mres", n, v, *tvs)), None
        if n in IMPURE_M:
            k = (n, v.id, tuple(x.id for x in tvs), turbo)
            cnt = sum(1 for g, ev_ in s.events if ev_.kind == "mcall" and ev_.name == "." + n and ev_.args and ev_.args[0] is v)
            tt = mk("m", n, v, *(tvs + [mk("nth", cnt)] + ([mk("str", turbo)] if turbo else [])))
            s = self.emit(s, "mcall", "." + n, [v] + tvs, tt, l, fr.scope)
            return split_res(tt, s)
        t = mk("m", n, v, *tvs)
        if n == "try_format":
            self.framing[t.id] = framing(recv)
        s2 = self.emit(s, "mcall", "." + n, [v] + tvs, t, l, fr.scope)
        for i, (a, x) in enumerate(zip(args, vs)):
            if isinstance(x, T) and (a[0] == "ref" and a[2] is True or a[0] == "path" and len(a[2]) == 1 and a[2][0] in fr.mutrefs) and self.is_lvalue(a):
                s2 = self.store(a, mk("havoc", t, i + 1), s2, fr)
        for x in vs:
            if isinstance(x, Clo):
                r, s3 = self.apply(x, [mk("cloarg", "." + n, i) for i in range(len(x.pats))], s2, fr)
                if s3 is not None:
                    s2 = join(s3, s2, mk("invoked", t))
        if n in PURE_M:
            return (s2, t), None
        return split_res(t, s2)

    def lam(self, x, n, s, fr):
        """a pure closure as a term over its parameters"""
        if fr is None or not isinstance(x, Clo):
            return mk("opaque", "closure")
        r, s3 = self.apply(x, [mk("cloarg", "." + n, i) for i in range(len(x.pats))], s, fr)
        if s3 is None or not isinstance(r, T) or any(e.kind not in ("mcall", "icall", "call") for g, e in s3.events[len(s.events):]):
            return mk("opaque", "closure")
        return mk("lam", r)

    def option_context(self, v, n, args, recv):
        """heuristic: `map` etc. on unknown value with a closure: Option if value's type says so"""
        if v.op == "payload" and v.args[0] == "Some":
            return False
        t = getattr(self, "opt_terms", None)
        if n in ("map_or", "map_or_else"):
            return True
        if v.op == "payload" and "::" in v.args[0]:
            en, vn = v.args[0].split("::")[-2:]
            ks = [k for k in self.ix.enums if k[1] == en and vn in self.ix.enums[k]]
            fs = self.ix.enum_fields[ks[0]].get(vn, []) if len(ks) == 1 else []
            return v.args[1] < len(fs) and fs[v.args[1]][1].startswith("Option<") if isinstance(v.args[1], int) else False
        if v.op == "field":
            t = self.typeof(v.args[0])
            return any(f == v.args[1] and ty.startswith("Option<") for f, ty in self.ix.structs.get(t, []))
        return False

    def keep_type(self, r, *xs):
        for x in xs:
            t = self.typeof(x)
            if t:
                self.ty.setdefault(r.id, t)
                return

    def from_impl(self, v):
        """the one `impl From<type of v> for Wrapper` of the workspace, where the wrapper is a struct around it"""
        t = self.typeof(v)
        if not t:
            return None
        out = []
        for f in self.ix.by_name.get("from", []):
            if f.crate != t[0] or f.body is None or not f.params or not f.self_ty or "From<" not in (f.trait or "") or f.params[0][1] is None:
                continue
            sc = self.fn_scope(f)
            if self.resolve_type(f.params[0][1].lstrip("&"), sc) == t and self.alias_ty(f) != t:
                out.append(f)
        return out[0] if len(out) == 1 else None

    def from_into(self, ty, scope):
        """the one `impl From<..> for` an enum of the workspace"""
        t = self.resolve_type(ty, scope)
        if t is None or t not in self.ix.enums:
            return None
        out = [f for f in self.ix.by_name.get("from", []) if f.crate == t[0] and f.self_ty == t[1] and f.body is not None and "From<" in (f.trait or "")]
        return out[0] if len(out) == 1 else None

    def convert_to(self, e, ty, scope):
        """`x.into()` where a type is expected, as the conversion it stands for"""
        if e[0] == "mcall" and e[3] == "into" and not e[5] and self.from_into(ty, scope) is not None:
            return ["call", e[1], ["path", e[1], ty.replace(" ", "").split("::") + ["from"], None, None], [e[2]]]
        n = self.array_len(ty, scope)
        if n is not None:
            return sized_try_into(e, n)
        return e

    def array_len(self, ty, scope, depth=0):
        """the length of the array type, as an expression"""
        ty = ty.replace(" ", "").lstrip("&")
        m = re.match(r"\[(?:u8|H256Le|H256);(\w+)\]$", ty)
        if m:
            k = m.group(1)
            return ["lit", 0, "int", re.sub(r"usize$|_", "", k), ""] if k[0].isdigit() else ["path", 0, [k], [None], None]
        if re.match(r"\w+$", ty) and depth < 4 and (scope.crate, ty) in self.ix.types:
            return self.array_len(self.ix.types[(scope.crate, ty)], scope, depth + 1)
        return None

    def user_method(self, v, n, fr, nargs=None):
        t = self.typeof(v)
        cands = [f for f in self.ix.by_name.get(n, []) if f.self_ty and f.params and f.params[0][0][0] == "pid" and f.params[0][0][1] == "self"
                 and (nargs is None or len(f.params) == nargs + 1)]
        if t:
            ex_ = [f for f in cands if f.crate == t[0] and f.self_ty == t[1] and f.body is not None]
            if ex_:
                inh = [f for f in ex_ if not f.trait]
                return (inh or ex_)[0]
            # extension traits defined in the current crate on that type name
            ex_ = [f for f in cands if f.crate == self.crate and f.body is not None and (f.self_ty == t[1] or (f.crate, f.self_ty) in self.ix.types and self.alias_ty(f) == t)]
            if ex_:
                return ex_[0]
        if n in AMOUNT_U and t is None:
            ex_ = [f for f in cands if f.crate == "currency" and f.self_ty == "Amount" and f.body is not None]
            if len(ex_) == 1:
                return ex_[0]
        if n in AMBIG_M:
            return None
        loc = [f for f in cands if f.crate == self.crate and f.self_ty != "GenesisConfig" and f.body is not None and not (f.trait or "").startswith("trait:")]
        if t and t[0] != self.crate and not any(f.self_ty == t[1] for f in loc):
            return None
        if len(loc) == 1 and t is None:
            if self.crate != "currency" and any(f.crate == "currency" and f.self_ty == "Amount" for f in cands):
                return None
            return loc[0]
        if t is None:
            for ic in self.inline_crates:
                loc = [f for f in cands if f.crate == ic and f.body is not None and not (f.trait or "").startswith("trait:")]
                if len(loc) == 1:
                    return loc[0]
        return None

    def alias_ty(self, f):
        return self.resolve_type(f.self_ty, Scope(self.ix.mods.get((f.crate, ())), None, f.crate))

    def iter_method(self, v, n, turbo, args, s, fr, l):
        if n == "enumerate":
            return (s, mk("enumerate", v)), None
        if n in ("rev",):
            return (s, mk("rev", v)), None
        if n == "collect":
            return split_maybe(v, s, turbo)
        if n == "count" and not args:
            b, el, cs = self.iter_parts(v)
            if not cs and v.op not in ("filter",):
                return (s, mklen(v)), None
            return (s, mk("fold", b, I(0), tm.ite(tm.conj(cs), tm.add(mk("acc", 0, "_"), I(1)), mk("acc", 0, "_")))), None
        if n == "sum" and not args:
            b, el, cs = self.iter_parts(v)
            a = mk("acc", 0, "_")
            return (s, mk("fold", b, I(0), tm.ite(tm.conj(cs), tm.add(a, el), a))), None
        if n in ("zip", "chain", "skip", "take", "step_by", "windows", "chunks"):
            vs, s = self.args(args, s, fr)
            if s is None:
                return None, None
            if n == "chain" and len(vs) == 1 and isinstance(vs[0], T) and hash_of(v) is not None:
                return (s, mk("mut", "chain", v, vs[0])), None
            if n == "chain" and len(vs) == 1 and isinstance(vs[0], T):
                b = mk("arr") if v.op == "arr" and not v.args else v if v.op == "mut" and v.args[0] == "extend" else mk("mut", "extend", mk("arr"), v)
                return (s, mk("mut", "extend", b, vs[0])), None
            return (s, mk(n, v, *[x for x in vs if isinstance(x, T)])), None
        if n == "unzip" and not args and v.op == "mapit" and len(v.args) == 2 and v.args[1].op == "tup" and len(v.args[1].args) == 2:
            return (s, mk("tup", *[mk("mapit", v.args[0], x) for x in v.args[1].args])), None
        if n in ("flatten", "last", "product", "unzip", "inspect"):
            return None
        clo = args[0] if args else None
        if n in ("fold", "try_fold"):
            clo = args[1]
        if clo is None or not (clo[0] in ("closure", "path")):
            return None
        b, el, cs = self.iter_parts(v)
        base = s
        s0 = s
        for c in cs:
            s0 = s0.assume(c) if s0 is not None else None
        if s0 is None:
            s0 = s
        self.loopdepth += 1
        try:
            if n in ("map", "any", "all", "filter", "find", "position", "filter_map", "find_map", "flat_map", "take_while", "skip_while",
                     "min_by_key", "max_by_key", "rposition"):
                o, er = self.apply_res(clo, [el], s0, fr)
                if o is None and er is None:
                    return None
                r, s1 = self.unres(o, er)
                if s1 is None:
                    return None
                if not isinstance(r, T):
                    r = mk("opaque", "clo")
                s2 = self.loop_effects(base, s1, b)
                if n == "map":
                    res = mk("mapit", self.filt(b, cs), r)
                    t = self.typeof(r)
                    return (s2, res), None
                if n == "filter":
                    return (s2, mk("filter", v, r) if v.op != "mapit" else mk("filter", v, r)), None
                if n == "any":
                    return (s2, ex(b, tm.conj(cs + [r]))), None
                if n == "all":
                    return (s2, fa(b, tm.imp(tm.conj(cs), r))), None
                if n == "find":
                    c = ex(b, tm.conj(cs + [r]))
                    return (s2, tm.ite(c, mk("ctor", "Some", mk("first", b, tm.conj(cs + [r]), el)), NONE)), None
                if n == "position" and b is v and v.op in ("load", "field", "var", "p", "call", "m", "payload", "iterst"):
                    c = tm.conj(cs + [r])
                    return (s2, tm.ite(ex(b, c), mk("ctor", "Some", mk("first", b, c, mk("idx", b))), NONE)), None
                if n in ("filter_map", "find_map") and er is not None:  # `?` inside: leaving early is None
                    okc, r = (cond_between(o[0], er[0]), o[1]) if o is not None else (FALSE, NONE)
                    if not isinstance(r, T):
                        r = mk("opaque", "clo")
                else:
                    okc = TRUE
                if n == "filter_map":
                    c = tm.conj([okc, tm.isv("Some", r)])
                    return (s2, mk("mapit", mk("filter", self.filt(b, cs), c), tm.payload("Some", 0, r))), None
                if n == "find_map":
                    c = tm.conj(cs + [okc, tm.isv("Some", r)])
                    return (s2, tm.ite(ex(b, c), mk("ctor", "Some", mk("first", b, c, tm.payload("Some", 0, r))), NONE)), None
                return (s2, mk(n, v, r)), None
            if n in ("for_each", "try_for_each"):
                pat = clo[2][0] if clo[0] == "closure" else ["pid", "#e", False, False, None]
                body = clo[3] if clo[0] == "closure" else None
                if n == "for_each" and body is not None:
                    self.loopdepth -= 1
                    try:
                        vv, ss = self.for_over(v, pat, lambda st0: self.ev(body, st0, fr), s, fr, body)
                    finally:
                        self.loopdepth += 1
                    return ((ss, UNIT) if ss is not None else None), None
                if body is not None:
                    nf = Frame(fr.scope, fnid=fr.fnid, is_closure="res")
                    self.frames.append(nf)

                    def bodyfn(st0):
                        o, er = self.res(body, st0, nf)
                        if er is not None:
                            nf.errs.append(er)
                        conts = [x for x in nf.returns]
                        nf.returns = []
                        if o is None and not conts:
                            return UNIT, None
                        outs = ([o] if o else [])
                        for s2, v2 in conts:
                            a, b2 = split_res(v2, s2)
                            if a:
                                outs.append(a)
                            if b2:
                                nf.errs.append(b2)
                        m = merge_outs(outs, s.pc)
                        return UNIT, m[0] if m else None
                    nf.loops.append({"brk": [], "cont": []})
                    self.loopdepth -= 1
                    try:
                        vv, ss = self.for_over(v, pat, bodyfn, s, nf, body)
                    finally:
                        self.loopdepth += 1
                    self.frames.pop()
                    em = merge_outs(nf.errs, s.pc)
                    return ((ss, UNIT) if ss is not None else None), em
                return None
            if n in ("fold", "try_fold"):
                init, s = self.ev(args[0], s, fr)
                if s is None:
                    return None, None
                acc = mk("acc", 0, "_")
                if isinstance(init, T) and init.id in self.ty:
                    self.ty.setdefault(acc.id, self.ty[init.id])
                o, er = self.apply_res(clo, [acc, el], s, fr)
                if o is None:
                    return None
                r = o[1]
                s2 = self.loop_effects(s, o[0], b)
                step = tm.ite(tm.conj(cs), r, acc)
                w = INTSIZE.get(args[0][4]) if args[0][0] == "lit" and args[0][2] == "int" else None
                if w and init is I(0) and b.op == "rev" and er is None and step in (tm.binop("|", mk("elem", b.args[0]), tm.binop("<<", acc, I(8))), tm.binop("|", tm.binop("<<", acc, I(8)), mk("elem", b.args[0])),
                                                                                  tm.add(tm.binop("<<", acc, I(8)), mk("elem", b.args[0]))):
                    # the last byte counts most
                    return (s2, mk("call", "u%d::from_le_bytes" % (8 * w), mk("iupd", mk("repeat", I(0), I(w)), mk("range", I(0), mklen(b.args[0])), b.args[0]))), None
                res = self.mkfold(b, init, acc, step, {})
                if er is not None:
                    e2 = self.loop_effects(s, er[0], b)
                    c = mk("foldok", b, step)
                    return (s2.assume(c) or s2, res), (e2.assume(tm.neg(c)) or e2, er[1])
                return (s2, res), None
        finally:
            self.loopdepth -= 1
        return None

    def filt(self, b, cs):
        for c in cs:
            b = mk("filter", b, c)
        return b

    def loop_effects(self, base, s1, it):
        if s1 is None:
            return base
        evs = base.events
        if s1.events is not base.events:
            evs = tuple(list(base.events) + [(tm.conj([mk("loop", it), g]) if g is not TRUE else mk("loop", it), e) for g, e in s1.events[len(base.events):]])
        env = base.env
        ch = {k: v for k, v in s1.env.items() if k in env and v is not env[k]}
        if ch:
            env = dict(env)
            for k, v in ch.items():
                if isinstance(v, T):
                    env[k] = mk("loopmut", it, env[k] if isinstance(env[k], T) else UNIT, v)
        return St(env, base.facts, evs, base.pc, base.heap)


AMBIG_M = {"input", "result", "update", "finish", "get", "insert", "len", "push", "remove", "contains", "new", "is_empty", "append", "extend", "take", "write", "read"}
PURE_M = {"cmp", "total_cmp", "saturating_pow", "integer_sqrt", "leading_zeros", "trailing_zeros", "is_even", "bits", "bit", "to_le_bytes", "to_be_bytes", "swap_bytes",
          "to_bytes_le", "to_bytes_be", "hash160", "split_at", "last_mut_x", "get_dispatch_info", "block_number", "as_fixed_bytes", "byte", "into_account_truncating"}


def heap_nm(t):
    if t.op == "opt":
        t = t.args[0]
    return t.args[0]


HASHERS = ("Sha256", "Sha512", "Blake2b", "Ripemd160", "Keccak256")


def plain_default(ty):
    """the default of a number, flag, vector or option"""
    ty = ty.replace(" ", "")
    return I(0) if re.match(r"[ui](8|16|32|64|128|size)$", ty) else FALSE if ty == "bool" else mk("arr") if ty.startswith("Vec<") else NONE if ty.startswith("Option<") else None


def hash_of(v):
    """the digest of a hasher fed piece by piece"""
    parts = []
    while v.op == "mut" and v.args[0] in ("input", "update", "chain", "chain_update") and len(v.args) == 3:
        parts.insert(0, v.args[2])
        v = v.args[1]
    if v.op == "call" and v.args[0].split("::")[-1] in ("default", "new") and v.args[0].split("::")[0] in HASHERS and len(v.args) == 1:
        return mkhash(v.args[0].split("::")[0], parts)
    if v.op == "default" and v.args and str(v.args[0]) in HASHERS:
        return mkhash(str(v.args[0]), parts)
    return None


def mkhash(alg, parts):
    out = []

    def go(x):
        if x.op == "mut" and x.args[0] in ("extend", "extend_from_slice", "append") and len(x.args) == 3 and rooted(x):
            go(x.args[1])
            go(x.args[2])
        elif x.op == "arr" and not x.args:
            pass
        else:
            out.append(x)

    def rooted(x):
        while x.op == "mut" and len(x.args) == 3:
            if x.args[0] not in ("extend", "extend_from_slice", "append"):
                return False
            x = x.args[1]
        return x.op not in ("acc", "loopmut", "fold")
    for p in parts:
        go(p)
    return mk("call", alg + "::digest", *out)


def mklen(v):
    if v.op == "arr":
        return I(len(v.args))
    if v.op == "repeat":
        return v.args[1]
    if v.op in ("rev", "mapit", "enumerate"):
        return mklen(v.args[0])
    if v.op == "filter" and v.args[0].op == "mapit":  # the condition is over the elements below
        return mklen(mk("filter", v.args[0].args[0], v.args[1]))
    if v.op == "range":
        return tm.sub(v.args[1], v.args[0])
    if v.op == "index" and v.args[1].op == "range":
        a, b = v.args[1].args
        return tm.sub(mklen(v.args[0]) if b.op == "inf" else b, a)
    if v.op == "push":
        return tm.add(mklen(v.args[0]), I(1))
    if v.op == "str":
        return I(len(v.args[0]))
    if v.op == "iupd":
        return mklen(v.args[0])
    if v.op == "mut" and v.args[0] in ("sort", "sort_by", "sort_by_key"):
        return mklen(v.args[1])
    return mk("len", v)


def split_maybe(v, s, turbo):
    if turbo and "Result" in turbo:
        return split_res(v, s)
    if turbo and "Option" in turbo:
        return (s, mk("collopt", v)), None
    return split_res(v, s) if v.op == "mapit" and v.args[1].op in ("ite",) else ((s, v), None)


ITER_AST = {"iter", "into_iter", "iter_mut", "enumerate", "zip", "rev", "filter", "filter_map", "chars", "bytes", "keys", "values", "skip", "take", "chain", "windows",
            "chunks", "step_by", "drain", "flat_map", "flatten", "cloned", "copied", "iter_keys", "iter_values", "iter_prefix", "lines", "take_while", "skip_while",
            "iter_prefix_values", "inspect", "peekable", "split", "by_ref"}


def framing(e):
    while e and e[0] in ("paren", "ref"):
        e = e[-1]
    if e and e[0] == "mcall" and e[3] in ("as_bytes", "as_slice", "to_le_bytes", "to_be_bytes"):
        return "raw"
    if e and e[0] == "index":
        return "raw" if e[3][0] == "range" else None
    if e and e[0] == "field":
        return "framed"
    return None


def iterlike(e):
    """is this receiver expression an iterator?"""
    while e and e[0] in ("paren", "ref"):
        e = e[-1]
    if e[0] == "range":
        return True
    if e[0] == "mcall":
        if e[3] in ("cloned", "copied", "take", "by_ref", "filter", "zip", "flatten"):
            return iterlike(e[2])
        if e[3] == "map":
            return iterlike(e[2])
        return e[3] in ITER_AST
    if e[0] == "call" and e[2][0] == "path":
        return e[2][2][-1] in ("iter", "iter_prefix", "iter_keys", "iter_values", "iter_prefix_values", "iter_key_prefix", "drain", "repeat", "once")
    return False


def unrev(b, c):
    """quantifiers do not depend on the iteration order, unless the condition refers to accumulated state"""
    if b.op == "rev" and not has_acc(c):
        return b.args[0]
    return b


def has_acc(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if isinstance(x, T) and x.id not in seen:
            seen.add(x.id)
            if x.op in ("acc", "loopmut"):
                return True
            todo.extend(x.args)
    return False


def ex(b, c):
    b = unrev(b, c)
    if c is FALSE:
        return FALSE
    if c is TRUE:
        if b.op in ("whileit", "loopit"):
            return mk("exists", b, TRUE)
        return tm.neg(tm.eq(mklen(b), I(0)))
    if b.op == "arr" and len(b.args) <= 16:
        return tm.disj([subst(c, {mk("elem", b).id: x}) for x in b.args])
    return mk("exists", b, c)


def fa(b, c):
    return tm.neg(ex(b, tm.neg(c)))


def deref_assigned(x, out=None):
    """names n of which *n is assigned to"""
    out = set() if out is None else out
    if isinstance(x, list):
        t = x[2] if x and x[0] == "assign" else x[3] if x and x[0] == "opassign" else None
        if t is not None and t[0] == "un" and t[2] == "*" and t[3][0] == "path" and len(t[3][2]) == 1:
            out.add(t[3][2][0])
        for y in x:
            if isinstance(y, list):
                deref_assigned(y, out)
    return out


def root_name(e, out):
    k = e[0]
    if k == "path" and len(e[2]) == 1:
        out.add(e[2][0])
    elif k in ("field", "index"):
        root_name(e[2], out)
    elif k in ("un", "ref"):
        root_name(e[3], out)
    elif k == "mcall":
        root_name(e[2], out)
    elif k == "tup":
        for x in e[2]:
            root_name(x, out)


def is_rest(p):
    return p[0] == "prest" or (p[0] == "pid" and p[4] and p[4][0] == "prest")


def rebinds(e, n):
    if isinstance(e, list):
        return len(e) > 1 and e[0] == "pid" and e[1] == n or any(rebinds(x, n) for x in e)
    return False


def pat_names(p, out):
    k = p[0]
    if k == "pid":
        out.add(p[1])
        if p[4]:
            pat_names(p[4], out)
    elif k in ("ptup", "por", "pslice"):
        for x in p[1]:
            pat_names(x, out)
    elif k == "pts":
        for x in p[2]:
            pat_names(x, out)
    elif k == "pst":
        for f, x in p[2]:
            pat_names(x, out)
    elif k == "ptype":
        pat_names(p[1], out)


def names_in(e):
    out = set()
    free_names(e, out)
    return out


def free_names(e, out):
    if isinstance(e, list):
        if e and e[0] == "path" and len(e) > 2 and isinstance(e[2], list) and len(e[2]) == 1:
            out.add(e[2][0])
        for x in e:
            if isinstance(x, list):
                free_names(x, out)


def bare(e):
    """syntax tree without line numbers"""
    if isinstance(e, list):
        if len(e) > 1 and isinstance(e[0], str) and isinstance(e[1], int) and not isinstance(e[1], bool):
            return (e[0],) + tuple(bare(x) for x in e[2:])
        return tuple(bare(x) for x in e)
    return e


def both(z):
    """a pair of options as an option of a pair"""
    a, b = z.args
    return tm.ite(tm.conj([tm.isv("Some", a), tm.isv("Some", b)]), mk("ctor", "Some", mk("tup", tm.payload("Some", 0, a), tm.payload("Some", 0, b))), NONE)


def break_if(s, ret=False):
    """statement `if c { break; }` -> (c, None); with ret also `if c { return x; }` -> (c, the return)"""
    if s[0] != "sexpr" or s[2][0] != "if" or len(s[2]) > 4 and s[2][4] is not None or s[2][2][0] == "let":
        return None
    blk = s[2][3]
    if blk[0] != "block" or len(blk[2]) != 1 or blk[2][0][0] != "sexpr":
        return None
    x = blk[2][0][2]
    if x[0] == "brk" and (len(x) < 3 or x[2] is None):
        return s[2][2], None
    if ret and x[0] == "brk" and len(x) == 3:
        return s[2][2], x[2]
    if ret and x[0] == "ret":
        return s[2][2], x
    return None


def has_brk(e):
    if isinstance(e, list):
        if e and e[0] == "brk":
            return True
        if e and e[0] in ("for", "while", "loop", "closure"):
            return False
        return any(has_brk(x) for x in e)
    return False


def has_cont(e):
    if isinstance(e, list):
        if e and e[0] in ("cont",):
            return True
        if e and e[0] in ("for", "while", "loop", "closure"):
            return any(has_cont(x) for x in e[:-1] if isinstance(x, list))
        return any(has_cont(x) for x in e if isinstance(x, list))
    return False


def keep(s, outer):
    """leaving a block: forget names not known outside"""
    if s is None:
        return None
    if s.env.keys() == outer.env.keys():
        return s
    return St({k: v for k, v in s.env.items() if k in outer.env}, s.facts, s.events, s.pc, s.heap)


def strip_res(ty):
    b, a = parse_type(ty)
    if b and (b[-1].endswith("Result") or b[-1] == "Option") and a:
        return a[0]
    return ty


def is_result_ty(ty):
    b, a = parse_type(ty)
    return bool(b) and b[-1].endswith("Result")


def fits(v, s=None):
    """arithmetic that cannot overflow: division by a positive literal, x[j] - x[i] of a sorted x with i <= j, a + (b - a) / k"""
    if v.op in ("div", "mod") and isint(v.args[1]) and v.args[1].args[0] > 0:
        return True
    h = [x for x in v.args if x.op == "div" and x.args[1] is I(2)] if v.op in ("add", "sub") and len(v.args) == 2 else []
    if s is not None and h and v is tm.sub(h[0], I(1)):  # half of an even number other than 0
        x = h[0].args[0]
        return known(tm.eq(x, I(0)), s.facts.s) is False and known(tm.eq(mk("mod", x, I(2)), I(1)), s.facts.s) is False
    if v.op == "sub":
        b, a = v.args
        return a.op == b.op == "index" and a.args[0] is b.args[0] and a.args[0].op == "mut" and a.args[0].args[0] == "sort" and tm.le(a.args[1], b.args[1]) is TRUE
    if v.op == "add" and len(v.args) == 2:
        for a, d in (v.args, v.args[::-1]):
            if d.op == "div" and fits(d) and d.args[0].op == "sub" and d.args[0].args[1] is a:
                return True
    return False


def shift_step(e, acc):
    """e = acc moved by a fixed number of bits -> (operator, bits)"""
    if not isinstance(e, T):
        return None
    if e.op in ("shr", "shl") and e.args[0] is acc and e.args[1].op == "int":
        return (">>" if e.op == "shr" else "<<"), e.args[1].args[0]
    if e.op == "mul" and len(e.args) == 2 and acc in e.args:
        k = e.args[1 - e.args.index(acc)]
        if k.op == "int" and k.args[0] > 1 and k.args[0] & (k.args[0] - 1) == 0:
            return "<<", k.args[0].bit_length() - 1
    if e.op == "div" and e.args[0] is acc and e.args[1].op == "int" and e.args[1].args[0] > 1 and e.args[1].args[0] & (e.args[1].args[0] - 1) == 0:
        return ">>", e.args[1].args[0].bit_length() - 1
    return None


def split_checked(v, s):
    """checked arithmetic: the error side is overflow/underflow"""
    c = mk("noovf", v)
    if isint(v) or fits(v, s):
        return (s, v), None
    if v.op == "add" and len(v.args) == 2 and any(isint(x) and x.args[0] < 0 for x in v.args):
        k, x = v.args if isint(v.args[0]) else v.args[::-1]
        if x.op == "p" and len(x.args) == 3:        # an unsigned number from which a constant is taken
            c = tm.neg(tm.eq(x, I(0))) if k.args[0] == -1 else tm.le(I(-k.args[0]), x)
            t, f = s.assume(c), s.assume(tm.neg(c))
            return ((t, v) if t is not None else None), ((f, UNIT) if f is not None else None)
    t, f = s.note(c), s.assume(tm.neg(c))
    t = St(t.env, t.facts, t.events, t.pc, t.heap)
    return (t, v), ((f, UNIT) if f is not None else None)


def iterating(e):
    """does the expression make an iterator over a sequence?"""
    while e and e[0] in ("paren", "ref"):
        e = e[-1]
    while e and e[0] == "mcall" and e[3] in ("copied", "cloned", "by_ref", "peekable", "fuse") and not e[5]:
        e = e[2]
    return bool(e) and e[0] == "mcall" and e[3] in ("iter", "into_iter", "bytes") and not e[5]


def sized_try_into(e, n):
    """the conversion inside x.try_into().map_err(..)? and the like, told the length that is expected"""
    if e[0] in ("paren", "try"):
        return e[:2] + [sized_try_into(e[2], n)] + e[3:]
    if e[0] == "mcall" and e[3] == "try_into" and not e[5]:
        return ["mcall", e[1], e[2], "#try_array", e[4], [n]]
    if e[0] == "mcall" and e[3] in ("map_err", "ok", "ok_or", "ok_or_else", "unwrap", "expect"):
        return e[:2] + [sized_try_into(e[2], n)] + e[3:]
    return e


def as_option(r):
    """the closure of an Option's and_then yields an Option: a Result there went through `ok`"""
    if r.op == "ctor" and r.args[0] == "Ok":
        x = r.args[1] if len(r.args) > 1 else UNIT
        return x if x.op == "ctor" and x.args[0] == "Some" else mk("ctor", "Some", *r.args[1:])
    if r.op == "ctor" and r.args[0] == "Err":
        return NONE
    if r.op == "ite":
        return tm.ite(r.args[0], as_option(r.args[1]), as_option(r.args[2]))
    return r


def split_res(v, s, val=None):
    """split a Result-valued term into ok/err outcomes"""
    if not isinstance(v, T):
        return (s, v), None
    if v.op == "ctor":
        if v.args[0] == "Ok":
            return (s, v.args[1] if len(v.args) > 1 else UNIT), None
        if v.args[0] == "Err":
            return None, (s, v.args[1] if len(v.args) > 1 else UNIT)
        return (s, v), None
    if v.op == "ite":
        a, b = v.args[1], v.args[2]

        def resy(x):
            return x.op == "ctor" and x.args[0] in ("Ok", "Err") or (x.op == "ite" and (resy(x.args[1]) or resy(x.args[2])))
        if resy(a) or resy(b):
            t, f = s.assume(v.args[0]), s.assume(tm.neg(v.args[0]))
            o1, e1 = split_res(a, t) if t is not None else (None, None)
            o2, e2 = split_res(b, f) if f is not None else (None, None)
            return jo(o1, o2, v.args[0]), jo(e1, e2, v.args[0])
        return (s, v), None
    if v.op in ("call", "m", "tryconv", "mapit", "mres"):
        c = mk("is", "Ok", v)
        t, f = s.assume(c), s.assume(tm.neg(c))
        r = val if val is not None else v
        return ((t, r) if t is not None else None), ((f, mk("errof", v)) if f is not None else None)
    return (s, v), None


def split_if_res(v, s):
    if v.op == "ite" or v.op == "ctor":
        return split_res(v, s)
    return (s, v), None


def cond_between(a, b):
    """condition that separates two states (true in a)"""
    n = 0
    while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]:
        n += 1
    ca = tm.conj(list(a.pc[n:])) if len(a.pc) > n else None
    cb = tm.conj(list(b.pc[n:])) if len(b.pc) > n else None
    if ca is not None and ca is not TRUE:
        return ca
    if cb is not None and cb is not TRUE:
        return tm.neg(cb)
    return mk("choice", len(a.events), len(b.events))


def jo(a, b, c):
    if a is None:
        return b
    if b is None:
        return a
    if c is None:
        c = cond_between(a[0], b[0])
    if isinstance(a[1], Clo) or isinstance(b[1], Clo):
        return (join(a[0], b[0], c), a[1])
    return (join(a[0], b[0], c), tm.ite(c, a[1], b[1]))


def merge_outs(outs, base_pc):
    outs = [o for o in outs if o is not None and o[0] is not None]
    if not outs:
        return None
    s, v = merge_tree(outs, 0)
    n = len(base_pc)
    if len(outs) > 1 and s.pc[:n] != base_pc:
        s = St(s.env, s.facts, s.events, base_pc, s.heap)
    return (s, v)


def merge_tree(outs, n):
    """merge outcomes following the decision tree recorded in their path conditions: the guard of a merge is the
    condition that separates the two groups, not everything assumed after it"""
    if len(outs) == 1:
        return outs[0]
    pcs = [o[0].pc for o in outs]
    m = min(len(p) for p in pcs)
    while n < m and all(p[n] is pcs[0][n] for p in pcs):
        n += 1
    if n < m:
        for k in range(len(outs)):
            c = pcs[k][n]
            nc = tm.neg(c)
            g1 = [o for o, p in zip(outs, pcs) if p[n] is c]
            g2 = [o for o, p in zip(outs, pcs) if p[n] is nc]
            if g2 and len(g1) + len(g2) == len(outs):
                return jo(merge_tree(g1, n + 1), merge_tree(g2, n + 1), c)
    cur = outs[-1]
    for o in reversed(outs[:-1]):
        c = cond_between(o[0], cur[0])
        cur = jo(o, cur, c)
    return cur


class Summary:
    def __init__(self, eng, fn, args, ok, err):
        self.eng, self.fn, self.args, self.ok, self.err = eng, fn, args, ok, err
        self.log = list(eng.log)

    @property
    def facts(self):
        return self.ok[0].facts if self.ok else None

    @property
    def events(self):
        return self.ok[0].events if self.ok else ()

    @property
    def result(self):
        return self.ok[1] if self.ok else None

    def dump(self, full=False, w=400, icall=False):
        print("== %s (%s:%s)" % (self.fn.id, self.fn.file, self.fn.line))
        if not self.ok:
            print("  never returns ok")
        else:
            print("  result:", show(self.ok[1])[:w * 6])
            for f in sorted(map(show, self.facts.s)):
                print("   fact", f[:w])
            for f in sorted(map(show, self.facts.ors)):
                if full or len(f) < 300:
                    print("   or  ", f[:w])
            for g, e in self.events:
                if e.kind == "icall" and not icall:
                    continue
                print("   ev  [%s] %s %s" % ("" if g is TRUE else show(g)[:w // 2], e.kind, show(e.term)[:w]))
