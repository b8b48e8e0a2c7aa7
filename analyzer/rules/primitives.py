from iba.rules import prop

P = "interbtc_primitives::"
TOKENS = (("DOT", "Polkadot", 10, 0), ("IBTC", "interBTC", 8, 1), ("INTR", "Interlay", 10, 2), ("KSM", "Kusama", 12, 10), ("KBTC", "kBTC", 8, 11), ("KINT", "Kintsugi", 12, 12))


def others(x, vs, p="TokenSymbol::"):
    return ["!(self is %s%s)" % (p, o) for o in vs if o != x]


@prop("P01")
def tokens(c):
    names = [t[0] for t in TOKENS]
    T = P + "TokenSymbol::"
    f = c.fn(T + "try_from", args="v", sel="TryFrom<u8>")
    g = c.fn(T + "try_from", args="v", sel="TryFrom<Vec<u8>>")
    i, d, n, s, o = (c.fn(T + k, args="self") for k in ("into", "decimals", "name", "symbol", "one"))
    info = c.fn(T + "get_info", args="")
    for sym, name, dec, code in TOKENS:
        w = ["self is TokenSymbol::" + sym] + others(sym, names)
        f.returns("TokenSymbol::" + sym, when=["v == %d" % code], why="codes and symbols correspond one to one")
        g.returns("TokenSymbol::" + sym, when=["v == '%s'" % sym], why="the ticker names the symbol")
        i.returns(str(code), when=w, why="codes and symbols correspond one to one")
        d.returns(str(dec), when=w, why="decimals of the token")
        o.returns(["@pow(10, @cast('u32', %d))" % dec, "@pow(10, %d)" % dec, str(10 ** dec), "fold(@range(0, %d), 1, 10 * @acc(0, _))" % dec], when=w, why="one whole unit")
        n.returns("'%s'" % name, when=w)
        s.returns("'%s'" % sym, when=w)
    f.requires(" || ".join("v == %d" % t[3] for t in TOKENS), why="unknown codes are rejected")
    g.requires(" || ".join("v == '%s'" % t[0] for t in TOKENS), why="unknown tickers are rejected")
    info.returns("@arr(%s)" % ", ".join("('%s', %d)" % (t[0], t[2]) for t in TOKENS), why="tickers with their decimals")
    c.enum_is("interbtc_primitives", "TokenSymbol", {t[0]: t[3] for t in TOKENS}, why="stored balances are keyed by the encoding")
    c.enum_is("interbtc_primitives", "CurrencyId", {"Token": 0, "ForeignAsset": 1, "LendToken": 2, "LpToken": 3, "StableLpToken": 4}, why="stored balances are keyed by the encoding")
    c.enum_is("interbtc_primitives", "LpToken", {"Token": 0, "ForeignAsset": 1, "StableLpToken": 2}, why="stored balances are keyed by the encoding")


@prop("P02")
def lp_tokens(c):
    K = ("Token", "ForeignAsset", "StableLpToken")
    C = P + "CurrencyId::"
    j = c.fn(C + "join_lp_token", args="a,b")
    for x in K:
        for y in K:
            w = ["a is CurrencyId::" + x, "b is CurrencyId::" + y] + ["!(a is CurrencyId::%s)" % z for z in K if z != x] + ["!(b is CurrencyId::%s)" % z for z in K if z != y]
            j.returns("Some(CurrencyId::LpToken(LpToken::%s(a#CurrencyId::%s), LpToken::%s(b#CurrencyId::%s)))" % (x, x, y, y), when=w, why="the pair keeps both currencies in the given order")
    for z in ("a", "b"):
        j.returns("None", when=["!(%s is CurrencyId::%s)" % (z, x) for x in K], why="lend tokens and pairs cannot be pooled")
    i = c.fn(P + "LpToken::into", args="self") if c.ix.fn(P + "LpToken::into") else c.fn(C + "from", args="self", sel="From<LpToken>")
    for x in K:
        i.returns("CurrencyId::%s(self#LpToken::%s)" % (x, x), when=["self is LpToken::" + x] + others(x, K, "LpToken::"), why="inverse of joining")
    s = c.fn(C + "sort", args="self")
    L, R = "self#CurrencyId::LpToken0", "self#CurrencyId::LpToken1"
    s.ends("self", None, "CurrencyId::LpToken(%s, %s)" % (R, L), when=["self is CurrencyId::LpToken", "%s < %s" % (R, L)], why="pairs have one canonical order")
    s.ends("self", None, "self", when=["self is CurrencyId::LpToken", "%s <= %s" % (L, R)])
    s.ends("self", None, "self", when="!(self is CurrencyId::LpToken)")
    p = c.fn(C + "is_lp_token", args="self")
    p.returns("self is CurrencyId::Token || self is CurrencyId::ForeignAsset || self is CurrencyId::StableLpToken")
    l = c.fn(C + "is_lend_token", args="self")
    l.returns("self is CurrencyId::LendToken")
    a = " ".join(c.ix.type_attrs.get(("interbtc_primitives", "LpToken"), ()))
    for d in ("PartialOrd", "Ord"):
        c.check(d in a.replace("(", " ").replace(")", " ").replace(",", " ").split(), "encoding", P + "LpToken", "the order of pool currencies is the derived one (%s)" % d, "derives " + a)


@prop("P03")
def requests(c):
    S = ('serialize_with="serialize_as_string"', 'deserialize_with="deserialize_from_string"')
    for n, fs in (("IssueRequest", ("griefing_collateral", "amount", "fee")), ("RedeemRequest", ("fee", "transfer_fee_btc", "amount_btc", "premium")),
                  ("ReplaceRequest", ("amount", "griefing_collateral", "collateral")), ("BalanceWrapper", ("amount",))):
        c.fields_are("interbtc_primitives", n, None, {f: S for f in fs}, why="a JSON number cannot carry 128 bits")
    s = c.fn(P + "serialize_as_string", args="t,s")
    s.returns(["s.serialize_str(t)", "s.serialize_str(t.to_string())", "s.serialize_str(@fmt('{}', t))", "s.collect_str(t)"], why="amounts are written in decimal")
    d = c.fn(P + "deserialize_from_string", args="d")
    d.returns(["_.parse(..)", "_.from_str(..)", "T::from_str(..)"])
    d.requires("_.parse(..) is Ok", alt=["_.from_str(..) is Ok", "T::from_str(..) is Ok"], why="text that is not a number is refused")
    for n, vs in (("IssueRequestStatus", ("Pending", "Completed", "Cancelled")), ("RedeemRequestStatus", ("Pending", "Completed", "Reimbursed", "Retried")),
                  ("ReplaceRequestStatus", ("Pending", "Completed", "Cancelled"))):
        c.enum_is("interbtc_primitives", n, {v: i for i, v in enumerate(vs)}, why="stored requests keep their status")
        f = c.fn(P + n + "::default", args="")
        f.returns(n + "::Pending", why="requests start out pending")
    c.enum_is("interbtc_primitives", "Key", {"ExchangeRate": 0, "FeeEstimation": 1})
    c.fields_are("interbtc_primitives", "VaultId", ("account_id", "currencies"))
    c.fields_are("interbtc_primitives", "VaultCurrencyPair", ("collateral", "wrapped"))
    c.fields_are("interbtc_primitives", "IssueRequest", ("vault", "opentime", "period", "griefing_collateral", "griefing_currency", "amount", "fee", "requester", "btc_address", "btc_public_key",
                                                         "btc_height", "status"), why="open requests are stored in this layout")
    c.fields_are("interbtc_primitives", "RedeemRequest", ("vault", "opentime", "period", "fee", "transfer_fee_btc", "amount_btc", "premium", "redeemer", "btc_address", "btc_height", "status"),
                 why="open requests are stored in this layout")
    c.fields_are("interbtc_primitives", "ReplaceRequest", ("old_vault", "new_vault", "amount", "griefing_collateral", "collateral", "accept_time", "period", "btc_address", "btc_height", "status"),
                 why="open requests are stored in this layout")


@prop("P04")
def vault_ids(c):
    V = P + "VaultId::"
    for v, a, x, y in ((c.fn(V + "new", args="a,c,w"), "a", "c", "w"), (c.fn(V + "from", args="t"), "t.0", "t.1.collateral", "t.1.wrapped")):
        v.returns(a, path="account_id")
        v.returns(x, path="currencies.collateral", why="collateral and wrapped currency keep their roles")
        v.returns(y, path="currencies.wrapped", why="collateral and wrapped currency keep their roles")
    f = c.fn(V + "from_pair", args="a,p")
    f.returns("VaultId{account_id: a, currencies: p}")
    c.fn(V + "collateral_currency", args="self").returns("self.currencies.collateral")
    c.fn(V + "wrapped_currency", args="self").returns("self.currencies.wrapped")


@prop("P05")
def fixed_point(c):
    for t in ("SignedFixedPoint", "UnsignedFixedPoint"):
        f = c.fn(P + t + "::truncate_to_inner", args="self")
        f.let("A", "interbtc_primitives::%s::accuracy()" % t)
        f.returns(["(if noovf(self / A) {Some(self / A)} else {None})", "(if noovf(self / _) {Some(self / _)} else {None})", "Some(self / A)", "Some(self / Self::accuracy())"], why="truncation divides the inner value by the accuracy")
    b = c.fn(P + "Balance::to_fixed", args="self")
    b.returns(P + "SignedFixedPoint::checked_from_integer(self)", when="@tryconv(self) is Ok")
    b.returns("None", when="!(@tryconv(self) is Ok)", why="amounts that do not fit are reported, not wrapped")
