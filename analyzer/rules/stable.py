from iba.rules import prop

S = "dex_stable::"
MC = "T::MultiCurrency::"
FEE = "10000000000"
UT = ("get_d", "get_y", "get_yd", "xp", "get_a_precise", "distance", "sum_of", "calculate_fee_per_token", "do_transfer_in", "get_pool_virtual_price")
BASE = ("base_pool_add_liquidity", "base_pool_swap", "base_pool_remove_liquidity_one_currency", "base_pool_remove_liquidity_imbalance",
        "calculate_base_virtual_price", "calculate_base_remove_liquidity_imbalance", "calculate_base_remove_liquidity_one_token",
        "calculate_base_swap_amount", "calculate_base_mint_amount", "calculate_base_remove_liquidity", "calculate_base_currency_amount")
META = ("meta_pool_add_liquidity", "meta_pool_swap", "meta_pool_remove_liquidity_one_currency", "meta_pool_remove_liquidity_imbalance", "meta_pool_swap_underlying", "meta_pool_update_virtual_price",
        "calculate_meta_virtual_price", "meta_pool_xp", "meta_pool_base_virtual_price", "calculate_meta_remove_liquidity_one_currency", "calculate_meta_currency_amount",
        "calculate_meta_remove_liquidity_imbalance", "calculate_meta_swap_amount", "calculate_meta_swap_underlying")
POOL = ("inner_add_liquidity", "inner_swap", "inner_remove_liquidity", "inner_remove_liquidity_one_currency", "inner_remove_liquidity_imbalance", "inner_add_pool_and_base_pool_liquidity",
        "inner_remove_pool_and_base_pool_liquidity", "inner_remove_pool_and_base_pool_liquidity_one_currency", "inner_swap_pool_from_base", "inner_swap_pool_to_base", "inner_create_base_pool",
        "calculate_currency_amount", "stable_amm_calculate_swap_amount", "stable_amm_calculate_remove_liquidity_one_currency", "get_currency_index", "get_lp_currency")
N = "@len(pool.currency_ids)"


def ops(*but):
    return [x for x in UT + BASE + META + POOL if x not in but]


def newton(v, y, c, b, d):
    """the step y' = (y^2 + c) / (2y + b - d), until it moves by one at most"""
    v.let("Y", "@acc(0, ?y)").let("STEP", "(Y * Y + %s) / (2 * Y + %s - %s)" % (c, b, d))


@prop("T01")
def invariant(c):
    v = c.fn(S + "xp", args="bs,rs", opaque=ops("xp")).some()
    v.returns("@mapit(bs, elem(bs) * rs[idx(bs)])", why="balances are compared at eighteen decimals")
    v.requires("@forall(bs, @noovf(elem(bs) * rs[idx(bs)]))")
    v = c.fn(S + "sum_of", args="bs", opaque=ops("sum_of")).some()
    v.returns("fold(bs, 0, elem(bs) + @acc(0, _)) ||| fold(bs, 0, elem(bs) + @acc(0, _))")
    v = c.fn(S + "distance", args="x,y", opaque=ops("distance"))
    v.returns("(if (x <= y) {y - x} else {x - y}) ||| (if (x < y) {y - x} else {x - y})")
    v = c.fn(S + "get_d", args="bs,a", opaque=ops("get_d")).some()
    v.let("N", "@len(bs)").let("SUM", S + "sum_of(bs)#Some").let("D", "@acc(0, ?d)")
    v.returns("0", when=["SUM == 0"])
    v.let("P", "fold(bs, D, (D * @acc(0, _)) / (N * elem(bs)))")
    v.let("NEXT", "(D * ((a * N * SUM) / 100 + N * P)) / ((D * (a * N - 100)) / 100 + (N + 1) * P)")
    v.returns("NEXT", when=["!(SUM == 0)"], why="Newton's step for the invariant")
    v.requires("@exists(@range(0, 255), " + S + "distance(NEXT, D) <= 1) ||| @exists(@range(0, 255), " + S + "distance(D, NEXT) <= 1)", when=["!(SUM == 0)"], why="only a converged value is used")
    v.let("START", "SUM")
    # the balance of one currency that keeps the invariant
    v = c.fn(S + "get_y", args="pool,i,j,x,xs", opaque=ops("get_y")).some()
    v.let("N", N).let("AMP", S + "get_a_precise(pool)#Some").let("D", S + "get_d(xs, AMP)#Some")
    v.let("XS", "@take(@enumerate(xs), N)").let("I", "elem(XS).0").let("X", "(if (i == I) {x} else {elem(XS).1})")
    v.let("C", "(D * fold(XS, D, (if (j == I) {@acc(0, _)} else {(D * @acc(0, _)) / (N * X)})) * 100) / (N * N * AMP)")
    v.let("B", "fold(XS, 0, (if (j == I) {@acc(0, _)} else {X + @acc(0, _)})) + (D * 100) / (N * AMP)")
    newton(v, "y", "C", "B", "D")
    v.returns("STEP", why="Newton's step for the balance")
    CONV = "@exists(@range(0, 255), " + S + "distance(STEP, Y) <= 1) ||| @exists(@range(0, 255), " + S + "distance(Y, STEP) <= 1)"
    v.requires(CONV, why="only a converged value is used")
    v = c.fn(S + "get_yd", args="pool,a,j,xs,d", opaque=ops("get_yd")).some()
    v.let("N", N).let("I", "@cast('u32', idx(xs))")
    v.let("C", "(d * fold(xs, d, (if (j == I) {@acc(0, _)} else {(d * @acc(0, _)) / (N * elem(xs))})) * 100) / (N * N * a)")
    v.let("B", "fold(xs, 0, (if (j == I) {@acc(0, _)} else {elem(xs) + @acc(0, _)})) + (d * 100) / (N * a)")
    newton(v, "y", "C", "B", "d")
    v.returns("STEP", why="Newton's step for the balance")
    v.requires(CONV, why="only a converged value is used")
    v.requires("j < @cast('u32', N)")
    v = c.fn(S + "do_transfer_in", args="cur,from,to,n", opaque=ops("do_transfer_in"), late={"free_balance": ("transfer",)})
    B0 = MC + "free_balance(cur, to)"
    v.requires(MC + "transfer(cur, from, to, n) is Ok")
    v.count(MC + "transfer(..)", 1)
    v.returns(MC + "free_balance(cur, to, @late()) - " + B0, why="what arrived counts, not what was asked for")
    v = c.fn(S + "get_a_precise", args="pool", opaque=ops("get_a_precise")).some()
    v.let("NOW", "T::TimeProvider::now().as_secs()").let("T0", "pool.initial_a_time").let("T1", "pool.future_a_time")
    v.returns("pool.future_a", when="T1 <= NOW")
    v.returns("pool.initial_a + ((pool.future_a - pool.initial_a) * (NOW - T0)) / (T1 - T0)", when=["!(T1 <= NOW)", "pool.initial_a < pool.future_a"], why="the amplification moves linearly")
    v.returns("pool.initial_a - ((pool.initial_a - pool.future_a) * (NOW - T0)) / (T1 - T0)", when=["!(T1 <= NOW)", "pool.future_a < pool.initial_a"])
    v = c.fn(S + "calculate_fee_per_token", args="pool", opaque=ops("calculate_fee_per_token")).some()
    v.returns("(" + N + " * pool.fee) / (4 * (" + N + " - 1))", why="a one-sided deposit pays about half the fee of a swap")
    for k, n in (("FEE_DENOMINATOR", 10**10), ("A_PRECISION", 100), ("POOL_TOKEN_COMMON_DECIMALS", 18), ("POOL_LP_CURRENCY_ID_DECIMAL", 18), ("BASE_VIRTUAL_PRICE_PRECISION", 10**18),
                 ("MAX_A", 10**6), ("MAX_ADMIN_FEE", 10**10), ("MAX_SWAP_FEE", 10**8), ("MAX_A_CHANGE", 10), ("MIN_RAMP_TIME", 86400)):
        c.const_is("dex_stable", k, n)


def conv(v):
    """the invariant of the pool as it is"""
    v.let("XP", S + "xp(pool.balances, pool.token_multipliers)#Some").let("AMP", S + "get_a_precise(pool)#Some").let("D0", S + "get_d(XP, AMP)#Some")
    v.let("LP", "pool.lp_currency_id").let("SUPPLY", MC + "total_issuance(LP)").let("PER", S + "calculate_fee_per_token(pool)#Some")
    return v


SAME = ("currency_ids", "lp_currency_id", "token_multipliers", "fee", "admin_fee", "account", "admin_fee_receiver", "initial_a", "future_a", "initial_a_time", "future_a_time")


@prop("T02")
def base_liquidity(c):
    # how much a deposit mints
    v = conv(c.fn(S + "calculate_base_mint_amount", args="pool,bs,d0,d1,fee,amp,n", opaque=ops("calculate_base_mint_amount")).some())
    v.let("C", "pool.currency_ids").let("I", "idx(C)")
    v.let("F", "(fee * " + S + "distance((d1 * pool.balances[I]) / d0, bs[I])) / " + FEE)
    v.let("D2", S + "get_d(" + S + "xp(fold(C, bs, @iupd(@acc(0, _), I, bs[I] - F)), pool.token_multipliers)#Some, amp)#Some")
    v.returns("(n * (D2 - d0)) / d0", path="0", why="shares follow the growth of the invariant after fees")
    v.returns("fold(C, _, @iupd(@acc(0, _), I, F))", path="1")
    v.ends("d1", "", "D2")
    v.ends("pool", "balances", "fold(C, pool.balances, @iupd(@acc(0, _), I, bs[I] - (F * pool.admin_fee) / %s))" % FEE, why="the admin's part of the fee does not belong to the providers")
    v.requires("d0 <= D2 ||| @noovf(D2 - d0)")
    for k in SAME:
        v.ends("pool", k, "pool." + k)
    v = conv(c.fn(S + "base_pool_add_liquidity", args="who,id,pool,am,min,to", opaque=ops("base_pool_add_liquidity")))
    v.let("C", "pool.currency_ids").let("I", "idx(C)").let("IN", S + "do_transfer_in(elem(C), who, pool.account, am[I])")
    v.requires("@forall(C, IN is Ok)", why="every amount is paid in")
    v.count(S + "do_transfer_in(..)", 1)
    v.requires("@len(C) == @len(am)")
    v.requires("@forall(C, !(0 == SUPPLY) || !(0 == am[I]))", why="the first deposit has every currency")
    v.let("BS", "fold(C, pool.balances, @iupd(@acc(0, _), I, IN + pool.balances[I]))")
    v.let("D1", S + "get_d(" + S + "xp(BS, pool.token_multipliers)#Some, AMP)#Some")
    v.let("OLD", "(if (SUPPLY <= 0) {0} else {D0})")
    v.requires("OLD < D1", why="a deposit grows the invariant")
    v.let("CALC", S + "calculate_base_mint_amount(pool, BS, OLD, D1, PER, AMP, SUPPLY)")
    v.returns("D1", when="SUPPLY == 0")
    v.returns("CALC#Some.0", when="!(SUPPLY == 0)")
    v.requires("min <= D1", when=["SUPPLY == 0"])
    v.requires("min <= CALC#Some.0", when=["!(SUPPLY == 0)"], why="never less than the minimum given")
    v.requires("CALC is Some", when=["!(SUPPLY == 0)"])
    v.requires(MC + "deposit(LP, to, D1) is Ok", when="SUPPLY == 0")
    v.requires(MC + "deposit(@havoc(CALC, 0).lp_currency_id, to, CALC#Some.0) is Ok", when="!(SUPPLY == 0)", why="the shares go to the recipient")
    v.count(MC + "deposit(..)", 1)
    v.ends("pool", "balances", "BS", when="SUPPLY == 0")
    v.ends("pool", "", "@havoc(CALC, 0)", when="!(SUPPLY == 0)", why="the pool's record is what the calculation made it")
    v.must("Self::deposit_event(Event::AddLiquidity{pool_id: id, who: who, to: to, supply_amounts: am, fees: _, new_d: D1, mint_amount: D1})", when=["SUPPLY == 0"])
    v.must("Self::deposit_event(Event::AddLiquidity{pool_id: id, who: who, to: to, supply_amounts: am, fees: CALC#Some.1, new_d: @havoc(CALC, 3), mint_amount: CALC#Some.0})", when=["!(SUPPLY == 0)"])
    # all currencies in proportion
    v = conv(c.fn(S + "calculate_base_remove_liquidity", args="pool,n", opaque=ops("calculate_base_remove_liquidity")).some())
    v.returns("@mapit(pool.balances, (n * elem(pool.balances)) / SUPPLY)", why="in proportion, rounded down")
    v.requires("n <= SUPPLY")
    # one currency
    v = conv(c.fn(S + "calculate_base_remove_liquidity_one_token", args="pool,n,j", opaque=ops("calculate_base_remove_liquidity_one_token")).some())
    v.let("D1", "D0 - (n * D0) / SUPPLY").let("NY", S + "get_yd(pool, AMP, j, XP, D1)#Some").let("X", "elem(XP)")
    v.let("RED", "fold(XP, _, @iupd(@acc(0, _), idx(XP), X - (PER * (if (j == @cast('u32', idx(XP))) {(X * D1) / D0 - NY} else {X - (X * D1) / D0})) / %s))" % FEE)
    v.let("MUL", "pool.token_multipliers[j]")
    v.let("DY", "(RED[j] - " + S + "get_yd(pool, AMP, j, RED, D1)#Some - 1) / MUL")
    v.returns("DY", path="0", why="what the invariant gives for the shares, less fees and one unit")
    v.returns("(XP[j] - NY) / MUL - DY", path="1")
    v.requires("j < @cast('u32', @len(pool.currency_ids))")
    v = conv(c.fn(S + "base_pool_remove_liquidity_one_currency", args="id,pool,who,n,j,min,to", opaque=ops("base_pool_remove_liquidity_one_currency")))
    v.let("R", S + "calculate_base_remove_liquidity_one_token(pool, n, j)").let("DY", "R#Some.0")
    v.requires("R is Some")
    v.requires("min <= DY")
    v.requires("1 <= SUPPLY ||| !(SUPPLY == 0)")
    v.requires("n <= " + MC + "free_balance(LP, who)")
    v.requires(MC + "withdraw(LP, who, n) is Ok", why="the shares are burned")
    v.requires(MC + "transfer(pool.currency_ids[j], pool.account, to, DY) is Ok")
    v.count(MC + "withdraw(..)", 1)
    v.count(MC + "transfer(..)", 1)
    v.returns("DY")
    v.ends("pool", "balances", "@iupd(pool.balances, j, pool.balances[j] - (DY + (R#Some.1 * pool.admin_fee) / %s))" % FEE, why="what was paid and the admin's part of the fee leave the providers' balance")
    for k in SAME:
        v.ends("pool", k, "pool." + k)
    v.must("Self::deposit_event(Event::RemoveLiquidityOneCurrency{pool_id: id, who: who, to: to, out_index: j, burn_amount: n, out_amount: DY})")
    # chosen amounts
    v = conv(c.fn(S + "calculate_base_remove_liquidity_imbalance", args="pool,am,n", opaque=ops("calculate_base_remove_liquidity_imbalance")).some())
    v.let("BS", "pool.balances").let("I", "idx(BS)").let("NEW", "fold(am, BS, @iupd(@acc(0, _), idx(am), BS[idx(am)] - elem(am)))")
    v.let("D1", S + "get_d(" + S + "xp(NEW, pool.token_multipliers)#Some, AMP)#Some")
    v.let("F", "(PER * " + S + "distance(NEW[I], (D1 * elem(BS)) / D0)) / " + FEE)
    v.let("D2", S + "get_d(" + S + "xp(fold(BS, NEW, @iupd(@acc(0, _), I, NEW[I] - F)), pool.token_multipliers)#Some, AMP)#Some")
    v.returns("(n * (D0 - D2)) / D0", path="0", why="shares follow the fall of the invariant with fees")
    v.returns("fold(BS, _, @iupd(@acc(0, _), I, F))", path="1")
    v.returns("D2", path="2")
    v.ends("pool", "balances", "@mapit(BS, NEW[I] - (F * pool.admin_fee) / %s)" % FEE)
    for k in SAME:
        v.ends("pool", k, "pool." + k)
    v = conv(c.fn(S + "base_pool_remove_liquidity_imbalance", args="who,id,pool,am,max,to", opaque=ops("base_pool_remove_liquidity_imbalance")))
    v.let("CALC", S + "calculate_base_remove_liquidity_imbalance(pool, am, SUPPLY)").let("BURN", "CALC#Some.0 + 1").let("Q", "@havoc(CALC, 0)")
    v.requires("CALC is Some")
    v.requires("1 <= CALC#Some.0 ||| !(CALC#Some.0 == 0)")
    v.requires("BURN <= max", why="never more than the maximum given")
    v.requires("@len(am) == @len(pool.currency_ids)")
    v.requires(MC + "withdraw(Q.lp_currency_id, who, BURN) is Ok", why="rounded against the one who leaves")
    v.requires("@forall(am, elem(am) <= 0 || " + MC + "transfer(Q.currency_ids[idx(am)], Q.account, to, elem(am)) is Ok) ||| @forall(am, elem(am) == 0 || " + MC + "transfer(Q.currency_ids[idx(am)], Q.account, to, elem(am)) is Ok)")
    v.count(MC + "withdraw(..)", 1)
    v.count(MC + "transfer(..)", 1)
    v.ends("pool", "", "Q")
    v.must("Self::deposit_event(Event::RemoveLiquidityImbalance{pool_id: id, who: who, to: to, amounts: am, fees: CALC#Some.1, new_d: CALC#Some.2, new_total_supply: SUPPLY - BURN})")


@prop("T03")
def base_swap(c):
    v = conv(c.fn(S + "base_pool_swap", args="who,id,pool,i,j,n,min,to", opaque=ops("base_pool_swap")))
    v.let("IN", S + "do_transfer_in(pool.currency_ids[i], who, pool.account, n)").let("MUL", "pool.token_multipliers")
    v.let("Y", S + "get_y(pool, i, j, IN * MUL[i] + XP[i], XP)#Some").let("RAW", "XP[j] - Y - 1").let("F", "(RAW * pool.fee) / " + FEE)
    v.let("DY", "(RAW - F) / MUL[j]").let("ADMIN", "((F * pool.admin_fee) / %s) / MUL[j]" % FEE)
    v.requires("IN is Ok")
    v.requires("min <= DY", why="never less than the minimum given")
    v.requires("@noovf(XP[j] - Y)")
    v.requires("i < " + N)
    v.requires("j < " + N)
    v.requires(MC + "transfer(pool.currency_ids[j], pool.account, to, DY) is Ok")
    v.count(MC + "transfer(..)", 1)
    v.count(S + "do_transfer_in(..)", 1)
    v.returns("DY", why="what keeps the invariant, less one unit and the fee, in units of the currency rounded down")
    v.let("B1", "@iupd(pool.balances, i, IN + pool.balances[i])")
    v.ends("pool", "balances", "@iupd(B1, j, B1[j] - DY - ADMIN) ||| @iupd(B1, j, B1[j] - (DY + ADMIN))", why="the rest of the fee stays with the providers")
    for k in SAME:
        v.ends("pool", k, "pool." + k)
    v.must("Self::deposit_event(Event::CurrencyExchange{pool_id: id, who: who, to: to, in_index: @cast('u32', i), in_amount: IN, out_index: @cast('u32', j), out_amount: DY})")
    v = conv(c.fn(S + "calculate_base_swap_amount", args="pool,i,j,n", opaque=ops("calculate_base_swap_amount")).some())
    v.let("MUL", "pool.token_multipliers").let("Y", S + "get_y(pool, i, j, n * MUL[i] + XP[i], XP)#Some").let("RAW", "(XP[j] - Y - 1) / MUL[j]")
    v.returns("RAW - (RAW * pool.fee) / %s - 1" % FEE, why="the quote is no more than what the swap pays")
    v.requires("!(i == j)")
    v.requires("i < @len(pool.currency_ids)")
    v.requires("j < @len(pool.currency_ids)")
    v = conv(c.fn(S + "calculate_base_virtual_price", args="pool", opaque=ops("calculate_base_virtual_price")).some())
    v.returns("(D0 * %d) / SUPPLY" % 10**18)
    v.requires("1 <= SUPPLY ||| !(SUPPLY == 0)")


PREC = 10**18
UVP = S + "meta_pool_update_virtual_price(mp)"


def meta(v, q="mp", **lets):
    """the pool q of which the last currency counts at the base pool's virtual price VP"""
    for k, t in lets.items():
        v.let(k, t)
    v.let("I0", q + ".info").let("BAL", q + ".info.balances").let("MULT", q + ".info.token_multipliers")
    v.let("AMP", S + "get_a_precise(I0)#Some").let("PER", S + "calculate_fee_per_token(I0)#Some")
    return v


def mxp(bs, vp="VP"):
    return S + "meta_pool_xp(%s, MULT, %s)#Some" % (bs, vp)


@prop("T04")
def meta_pools(c):
    NOW = "T::TimeProvider::now().as_secs()"
    FRESH = NOW + " <= mp.base_cache_last_updated + 36000"
    v = c.fn(S + "meta_pool_xp", args="bs,rs,p", opaque=ops("meta_pool_xp")).some()
    v.let("X", S + "xp(bs, rs)#Some").let("L", "@len(bs) - 1")
    v.returns("@iupd(X, L, (X[L] * p) / %d)" % PREC, why="the base pool's shares count at their price")
    v = c.fn(S + "meta_pool_update_virtual_price", args="mp", opaque=ops("meta_pool_update_virtual_price")).some()
    v.let("P", S + "Pools[mp.base_pool_id]").let("V", S + "get_pool_virtual_price(P)#Some")
    v.returns("mp.base_virtual_price", when=FRESH)
    v.returns("V", when="!(%s)" % FRESH, why="an old price is not used")
    v.ends("mp", "base_virtual_price", "V", when="!(%s)" % FRESH)
    v.ends("mp", "base_cache_last_updated", NOW, when="!(%s)" % FRESH)
    v.ends("mp", "base_virtual_price", "mp.base_virtual_price", when=FRESH)
    v.ends("mp", "base_cache_last_updated", "mp.base_cache_last_updated", when=FRESH)
    v.ends("mp", "info", "mp.info")
    v.ends("mp", "base_pool_id", "mp.base_pool_id")
    v.ends("mp", "base_currencies", "mp.base_currencies")
    v = c.fn(S + "meta_pool_base_virtual_price", args="mp", opaque=ops("meta_pool_base_virtual_price")).some()
    v.let("P", S + "Pools[mp.base_pool_id]")
    v.returns("mp.base_virtual_price", when=FRESH)
    v.returns(S + "calculate_base_virtual_price(P#Pool::Base)#Some", when=["!(%s)" % FRESH, "P is Pool::Base"], why="a quote uses the price that the swap would")
    v.returns(S + "calculate_meta_virtual_price(P#Pool::Meta)#Some", when=["!(%s)" % FRESH, "P is Pool::Meta"])
    v = c.fn(S + "get_pool_virtual_price", args="p", opaque=ops("get_pool_virtual_price")).some()
    v.returns(S + "calculate_base_virtual_price(p#Pool::Base)#Some", when="p is Pool::Base")
    v.returns(S + "calculate_meta_virtual_price(p#Pool::Meta)#Some", when="p is Pool::Meta")
    v = meta(c.fn(S + "calculate_meta_virtual_price", args="mp", opaque=ops("calculate_meta_virtual_price")).some())
    v.let("VP", S + "meta_pool_base_virtual_price(mp)#Some").let("SUPPLY", MC + "total_issuance(I0.lp_currency_id)")
    v.returns("(" + S + "get_d(" + mxp("BAL") + ", AMP)#Some * %d) / SUPPLY" % PREC)
    v.requires("1 <= SUPPLY ||| !(SUPPLY == 0)")
    # swaps
    v = meta(c.fn(S + "calculate_meta_swap_amount", args="mp,i,j,n,VP", opaque=ops("calculate_meta_swap_amount")).some())
    v.let("XP", mxp("BAL")).let("L", "@len(XP) - 1")
    v.let("X", "(if (i == L) {(n * MULT[i] * VP) / %d} else {n * MULT[i]}) + XP[i]" % PREC).let("Y", S + "get_y(I0, i, j, X, XP)#Some").let("G", "XP[j] - Y - 1")
    v.let("RAW", "(if (j == L) {(G * %d) / VP} else {G})" % PREC).let("F", "(RAW * I0.fee) / " + FEE)
    v.returns("(RAW - F) / MULT[j]", path="0", why="what keeps the invariant, less one unit and the fee, in units of the currency")
    v.returns("F", path="1")
    v.requires("!(i == j)")
    v.requires("i < @len(I0.currency_ids)")
    v.requires("j < @len(I0.currency_ids)")
    v = meta(c.fn(S + "meta_pool_swap", args="who,id,mp,i,j,n,min,to", opaque=ops("meta_pool_swap")), "Q", Q="@havoc(%s, 0)" % UVP)
    v.let("VP", UVP + "#Some")
    v.let("IN", S + "do_transfer_in(mp.info.currency_ids[i], who, mp.info.account, n)").let("R", S + "calculate_meta_swap_amount(Q, i, j, IN, VP)").let("DY", "R#Some.0")
    v.let("ADMIN", "((R#Some.1 * I0.admin_fee) / %s) / MULT[j]" % FEE)
    v.requires("IN is Ok")
    v.requires("R is Some")
    v.requires("min <= DY", why="never less than the minimum given")
    v.requires("i < @len(mp.info.currency_ids)")
    v.requires("j < @len(mp.info.currency_ids)")
    v.requires(MC + "transfer(I0.currency_ids[j], I0.account, to, DY) is Ok")
    v.count(MC + "transfer(..)", 1)
    v.count(S + "do_transfer_in(..)", 1)
    v.returns("DY")
    v.let("B1", "@iupd(BAL, i, IN + BAL[i])")
    v.ends("mp", "info.balances", "@iupd(B1, j, B1[j] - (DY + ADMIN)) ||| @iupd(B1, j, B1[j] - DY - ADMIN)")
    for k in SAME:
        v.ends("mp", "info." + k, "I0." + k)
    v.must("Self::deposit_event(Event::CurrencyExchange{pool_id: id, who: who, to: to, in_index: @cast('u32', i), in_amount: IN, out_index: @cast('u32', j), out_amount: DY})")
    # deposits
    v = meta(c.fn(S + "meta_pool_add_liquidity", args="who,id,mp,am,min,to", opaque=ops("meta_pool_add_liquidity")), "Q", Q="@havoc(%s, 0)" % UVP)
    v.let("VP", UVP + "#Some").let("SUPPLY", MC + "total_issuance(mp.info.lp_currency_id)").let("AMP", S + "get_a_precise(mp.info)#Some")
    v.let("C", "I0.currency_ids").let("I", "idx(C)").let("IN", S + "do_transfer_in(elem(C), who, I0.account, am[I])")
    v.requires("@forall(C, am[I] == 0 || IN is Ok)", why="every amount is paid in")
    v.requires("@len(mp.info.currency_ids) == @len(am)")
    v.requires("@forall(C, !(0 == SUPPLY) || !(0 == am[I]))", why="the first deposit has every currency")
    v.let("BS", "fold(C, BAL, (if (am[I] == 0) {@acc(0, _)} else {@iupd(@acc(0, _), I, IN + BAL[I])}))")
    v.let("D0", S + "get_d(" + mxp("BAL") + ", AMP)#Some").let("D1", S + "get_d(" + mxp("BS") + ", AMP)#Some")
    v.let("F", "(PER * " + S + "distance((D1 * BAL[I]) / D0, BS[I])) / " + FEE)
    v.let("D2", S + "get_d(" + mxp("fold(C, BS, @iupd(@acc(0, _), I, BS[I] - F))") + ", AMP)#Some").let("MINT", "(SUPPLY * (D2 - D0)) / D0")
    v.returns("D1", when="SUPPLY == 0")
    v.returns("MINT", when="!(SUPPLY == 0)", why="shares follow the growth of the invariant after fees")
    v.requires("D0 < D1", when=["!(SUPPLY == 0)"])
    v.requires("min <= D1", when=["SUPPLY == 0"])
    v.requires("min <= MINT", when=["!(SUPPLY == 0)"], why="never less than the minimum given")
    v.requires(MC + "deposit(I0.lp_currency_id, to, D1) is Ok", when="SUPPLY == 0")
    v.requires(MC + "deposit(I0.lp_currency_id, to, MINT) is Ok", when="!(SUPPLY == 0)")
    v.count(MC + "deposit(..)", 1)
    v.ends("mp", "info.balances", "BS", when="SUPPLY == 0")
    v.ends("mp", "info.balances", "fold(C, BAL, @iupd(@acc(0, _), I, BS[I] - (F * I0.admin_fee) / %s))" % FEE, when="!(SUPPLY == 0)", why="the admin's part of the fee does not belong to the providers")
    for k in SAME:
        v.ends("mp", "info." + k, "I0." + k)
    v.must("Self::deposit_event(Event::AddLiquidity{pool_id: id, who: who, to: to, supply_amounts: am, fees: _, new_d: D1, mint_amount: D1})", when=["SUPPLY == 0"])
    v.must("Self::deposit_event(Event::AddLiquidity{pool_id: id, who: who, to: to, supply_amounts: am, fees: _, new_d: D1, mint_amount: MINT})", when=["!(SUPPLY == 0)"])
    # one currency
    v = meta(c.fn(S + "calculate_meta_remove_liquidity_one_currency", args="mp,n,j,SUPPLY", opaque=ops("calculate_meta_remove_liquidity_one_currency")).some())
    v.let("VP", S + "meta_pool_base_virtual_price(mp)#Some").let("XP", mxp("BAL")).let("X", "elem(XP)").let("LAST", "@len(XP) - 1")
    v.let("D0", S + "get_d(XP, AMP)#Some").let("D1", "D0 - (n * D0) / SUPPLY").let("NY", S + "get_yd(I0, AMP, @cast('u32', j), XP, D1)#Some")
    v.let("RED", "fold(XP, _, @iupd(@acc(0, _), idx(XP), X - (PER * (if (j == idx(XP)) {(X * D1) / D0 - NY} else {X - (X * D1) / D0})) / %s))" % FEE)
    v.let("G", "RED[j] - " + S + "get_yd(I0, AMP, @cast('u32', j), RED, D1)#Some")
    v.let("DY", "(G - 1) / MULT[j]").let("DYB", "((G * %d) / VP - 1) / MULT[j]" % PREC)
    v.returns("DY", path="0", when="!(j == LAST)", why="what the invariant gives for the shares, less fees and one unit")
    v.returns("DYB", path="0", when="j == LAST")
    v.returns("(XP[j] - NY) / MULT[j] - DY", path="1", when="!(j == LAST)")
    v.returns("((XP[j] * %d) / VP - (NY * %d) / VP) / MULT[j] - DYB" % (PREC, PREC), path="1", when="j == LAST")
    v.requires("j < @len(I0.currency_ids)")
    v = meta(c.fn(S + "meta_pool_remove_liquidity_one_currency", args="id,mp,who,n,j,min,to", opaque=ops("meta_pool_remove_liquidity_one_currency")), "Q", Q="@havoc(%s, 0)" % UVP)
    v.let("SUPPLY", MC + "total_issuance(mp.info.lp_currency_id)")
    v.let("R", S + "calculate_meta_remove_liquidity_one_currency(Q, n, j, SUPPLY)").let("DY", "R#Some.0")
    v.requires("R is Some")
    v.requires("min <= DY")
    v.requires("n <= SUPPLY")
    v.requires("j < @len(mp.info.currency_ids) ||| j < @cast('u32', @len(mp.info.currency_ids))")
    v.requires("n <= " + MC + "free_balance(mp.info.lp_currency_id, who)")
    v.requires(MC + "withdraw(I0.lp_currency_id, who, n) is Ok", why="the shares are burned")
    v.requires(MC + "transfer(I0.currency_ids[j], I0.account, to, DY) is Ok")
    v.count(MC + "withdraw(..)", 1)
    v.count(MC + "transfer(..)", 1)
    v.returns("DY")
    v.ends("mp", "info.balances", "@iupd(BAL, j, BAL[j] - (DY + (R#Some.1 * I0.admin_fee) / %s))" % FEE)
    for k in SAME:
        v.ends("mp", "info." + k, "I0." + k)
    v.must("Self::deposit_event(Event::RemoveLiquidityOneCurrency{pool_id: id, who: who, to: to, out_index: j, burn_amount: n, out_amount: DY})")
    # chosen amounts
    v = meta(c.fn(S + "calculate_meta_remove_liquidity_imbalance", args="mp,am,n,VP", opaque=ops("calculate_meta_remove_liquidity_imbalance")).some())
    v.let("I", "idx(BAL)").let("NEW", "fold(am, BAL, @iupd(@acc(0, _), idx(am), BAL[idx(am)] - elem(am)))").let("D0", S + "get_d(" + mxp("BAL") + ", AMP)#Some")
    v.let("D1", S + "get_d(" + mxp("NEW") + ", AMP)#Some").let("F", "(PER * " + S + "distance(NEW[I], (D1 * elem(BAL)) / D0)) / " + FEE)
    v.let("D2", S + "get_d(" + mxp("fold(BAL, NEW, @iupd(@acc(0, _), I, NEW[I] - F))") + ", AMP)#Some")
    v.returns("(n * (D0 - D2)) / D0", path="0", why="shares follow the fall of the invariant with fees")
    v.returns("fold(BAL, _, @iupd(@acc(0, _), I, F))", path="1")
    v.returns("D2", path="2")
    v.ends("mp", "info.balances", "@mapit(BAL, NEW[I] - (F * I0.admin_fee) / %s)" % FEE)
    for k in SAME:
        v.ends("mp", "info." + k, "I0." + k)
    v = meta(c.fn(S + "meta_pool_remove_liquidity_imbalance", args="who,id,mp,am,max,to", opaque=ops("meta_pool_remove_liquidity_imbalance")), "Q", Q0="@havoc(%s, 0)" % UVP, SUPPLY=MC + "total_issuance(mp.info.lp_currency_id)",
             CALC=S + "calculate_meta_remove_liquidity_imbalance(Q0, am, SUPPLY, %s#Some)" % UVP, Q="@havoc(CALC, 0)")
    v.let("BURN", "CALC#Some.0 + 1")
    v.requires("CALC is Some")
    v.requires("1 <= CALC#Some.0 ||| !(CALC#Some.0 == 0)")
    v.requires("BURN <= max", why="never more than the maximum given")
    v.requires("@len(am) == @len(mp.info.currency_ids)")
    v.requires(MC + "withdraw(I0.lp_currency_id, who, BURN) is Ok", why="rounded against the one who leaves")
    v.requires("@forall(am, elem(am) <= 0 || " + MC + "transfer(I0.currency_ids[idx(am)], I0.account, to, elem(am)) is Ok) ||| @forall(am, elem(am) == 0 || " + MC + "transfer(I0.currency_ids[idx(am)], I0.account, to, elem(am)) is Ok)")
    v.count(MC + "withdraw(..)", 1)
    v.count(MC + "transfer(..)", 1)
    v.ends("mp", "", "Q")
    v.must("Self::deposit_event(Event::RemoveLiquidityImbalance{pool_id: id, who: who, to: to, amounts: am, fees: CALC#Some.1, new_d: CALC#Some.2, new_total_supply: SUPPLY - BURN})")


def LP_IN(pool, lp, idx="idx(%s)"):
    """where the list of a meta pool's currencies has the base pool's shares"""
    return "fold(%s, None, (if (elem(%s) == %s) {Some(%s)} else {@acc(0, '_')}))" % (pool, pool, lp, idx % pool)


@prop("T05")
def both_pools(c):
    P, B, M = S + "Pools[id]", S + "Pools[base]", S + "Pools[id]#Pool::Meta"
    ADD, SWAP, RM, RM1 = S + "inner_add_liquidity", S + "inner_swap", S + "inner_remove_liquidity", S + "inner_remove_liquidity_one_currency"
    def own(v):
        v.requires("@has(%s)" % P)
        v.requires("@has(%s)" % B)
        v.requires("%s is Pool::Meta" % P)
        v.requires("base == %s.base_pool_id" % M, why="only the meta pool's own base pool")
    v = c.fn(S + "inner_add_pool_and_base_pool_liquidity", args="who,id,base,ma,ba,min,to", opaque=ops("inner_add_pool_and_base_pool_liquidity"), late={"free_balance": ("inner_add_liquidity", "#")})
    own(v)
    v.let("LP", "dex_stable::Pool::get_lp_currency(%s)" % B).let("C", M + ".info.currency_ids").let("ANY", "@exists(ba, 1 <= elem(ba))").let("GOT", ADD + "(who, base, ba, 0, who)")
    v.requires("@len(ma) == @len(C)")
    v.must("GOT", when=["ANY"])
    v.let("AM", "fold(C, ma, (if (elem(C) == LP) {@iupd(@acc(0, _), idx(C), (if (ANY) {GOT} else {0}))} else {@acc(0, _)}))")
    v.requires(ADD + "(who, id, AM, min, to) is Ok", why="the shares received for the base currencies are supplied, all of them, and the minimum applies to the result")
    v.count(ADD + "(..)", 2)
    v.requires("Config::free_balance(LP, who, @late(2)) + GOT - Config::free_balance(LP, who, @late(1)) == 0 ||| GOT + Config::free_balance(LP, who, @late(2)) == Config::free_balance(LP, who, @late(1))", when=["ANY"], why="no base shares are left behind")
    v = c.fn(S + "inner_remove_pool_and_base_pool_liquidity", args="who,id,base,n,mm,mb,to", opaque=ops("inner_remove_pool_and_base_pool_liquidity"), late={"free_balance": ("inner_remove_liquidity", "#")})
    v.let("LP", "dex_stable::Pool::get_lp_currency(%s)" % B)
    v.requires("@has(%s)" % B)
    v.requires(RM + "(id, who, n, mm, who) is Ok")
    v.requires(RM + "(base, who, Config::free_balance(LP, who, @late(1)) - Config::free_balance(LP, who), mb, to) is Ok", why="exactly the base shares that came out are redeemed")
    v.count(RM + "(..)", 2)
    v = c.fn(S + "inner_remove_pool_and_base_pool_liquidity_one_currency", args="who,id,base,n,i,min,to", opaque=ops("inner_remove_pool_and_base_pool_liquidity_one_currency"), late={"free_balance": ("inner_remove_liquidity_one_currency", "#")})
    own(v)
    v.let("LP", "dex_stable::Pool::get_lp_currency(%s)" % B).let("K", LP_IN(M + ".info.currency_ids", "LP", "@cast('u32', idx(%s))"))
    v.requires("K is Some")
    v.requires(RM1 + "(id, who, n, K#Some, 0, who) is Ok")
    v.requires(RM1 + "(base, who, Config::free_balance(LP, who, @late(1)) - Config::free_balance(LP, who), i, min, to) is Ok", why="the minimum applies to what is paid in the end")
    v.count(RM1 + "(..)", 2)
    v = c.fn(S + "inner_swap_pool_from_base", args="who,id,base,i,j,n,min,to", opaque=ops("inner_swap_pool_from_base"))
    own(v)
    v.let("BC", "(if (%s is Pool::Base) {%s#Pool::Base.currency_ids} else {%s#Pool::Meta.info.currency_ids})" % (B, B, B))
    v.let("LP", "(if (%s is Pool::Base) {%s#Pool::Base.lp_currency_id} else {%s#Pool::Meta.info.lp_currency_id})" % (B, B, B)).let("K", LP_IN(M + ".info.currency_ids", "LP"))
    v.let("AM", "@iupd(@repeat(0, @len(BC)), i, n)")
    v.requires("K is Some")
    v.requires("i < @len(BC)")
    v.returns(ADD + "(who, base, AM, min, to)", when="j == K#Some", why="the base shares themselves go to the recipient, at least the minimum")
    v.returns(SWAP + "(who, id, K#Some, j, " + ADD + "(who, base, AM, 0, who), min, to)", when="!(j == K#Some)", why="all base shares are swapped, for at least the minimum")
    v.requires(ADD + "(who, base, AM, min, to) is Ok", when=["j == K#Some"])
    v.requires(ADD + "(who, base, AM, 0, who) is Ok", when=["!(j == K#Some)"])
    v.requires(SWAP + "(who, id, K#Some, j, " + ADD + "(who, base, AM, 0, who), min, to) is Ok", when=["!(j == K#Some)"])
    v = c.fn(S + "inner_swap_pool_to_base", args="who,id,base,i,j,n,min,to", opaque=ops("inner_swap_pool_to_base"))
    v.let("K", S + "get_currency_index(id, " + S + "get_lp_currency(base)#Some)")
    v.requires(S + "get_lp_currency(base) is Some")
    v.requires("K is Some")
    v.returns(RM1 + "(base, who, n, j, min, to)", when="i == K#Some", why="base shares that are given are redeemed as they are")
    v.returns(RM1 + "(base, who, " + SWAP + "(who, id, i, K#Some, n, 0, who), j, min, to)", when="!(i == K#Some)", why="all that the swap paid is redeemed, for at least the minimum")
    v.requires(SWAP + "(who, id, i, K#Some, n, 0, who) is Ok", when=["!(i == K#Some)"])
    v = c.fn(S + "get_lp_currency", args="id", opaque=ops("get_lp_currency"))
    v.returns("(if (@has(%s)) {Some((if (%s is Pool::Base) {%s#Pool::Base.lp_currency_id} else {%s#Pool::Meta.info.lp_currency_id}))} else {None})" % (P, P, P, P))
    v = c.fn(S + "get_currency_index", args="id,cur", opaque=ops("get_currency_index"))
    v.let("C", "(if (%s is Pool::Base) {%s#Pool::Base.currency_ids} else {%s#Pool::Meta.info.currency_ids})" % (P, P, P))
    v.returns("(if (@has(%s) && @exists(C, elem(C) == cur)) {Some(@cast('u32', idx(C)))} else {None})" % P)


@prop("T06")
def underlying(c):
    """swaps between the meta pool's own currencies and those of its base pool"""
    LATE = ("inner_remove_liquidity_one_currency", "inner_swap", "#")
    v = meta(c.fn(S + "meta_pool_swap_underlying", args="mp,id,who,to,n,min,i,j", opaque=ops("meta_pool_swap_underlying"), late={"free_balance": LATE}), "Q", Q="@havoc(%s, 0)" % UVP)
    v.let("VP", UVP + "#Some").let("K", "@len(mp.info.currency_ids) - 1").let("B", "Q.base_currencies").let("XP", mxp("BAL"))
    FB, TB = "@len(mp.info.currency_ids) <= i + 1", "@len(mp.info.currency_ids) <= j + 1"
    F_, T_, BF, BT = "!(%s)" % FB, "!(%s)" % TB, FB, TB
    v.requires("!(i == j)")
    v.requires("i + 1 < @len(mp.info.currency_ids) + @len(B)")
    v.requires("j + 1 < @len(mp.info.currency_ids) + @len(B)")
    v.count(MC + "transfer(..)", 1)
    v.count(S + "do_transfer_in(..)", 1)
    for a, fr, mi in ((F_, "I0.currency_ids[i]", "i"), (BF, "B[i - K]", "K")):
        for b, to, mj in ((T_, "I0.currency_ids[j]", "j"), (BT, "B[j - K]", "K")):
            w = [a, b]
            IN = S + "do_transfer_in(%s, who, I0.account, n)" % fr
            v.requires(IN + " is Ok", when=w)
            HAD = MC + "free_balance(%s, I0.account" % to
            if a is BF and b is BT:
                out = HAD + ", @late(1)) - " + HAD + ")"
                v.requires(S + "inner_swap(I0.account, Q.base_pool_id, i - K, j - K, %s, min, I0.account) is Ok" % IN, when=w, why="both currencies are the base pool's: it is swapped there, for at least the minimum")
                v.guards(S + "inner_swap(..)", w)
                for k in SAME:
                    v.ends("mp", "info." + k, "I0." + k, when=w)
                v.ends("mp", "info.balances", "BAL", when=w)
            else:
                dx = IN if a is F_ else S + "inner_add_liquidity(I0.account, Q.base_pool_id, @iupd(@repeat(0, @len(B)), i - K, %s), 0, I0.account)" % IN
                x = "%s * MULT[i] + XP[i]" % IN if a is F_ else "(%s * VP) / %d + XP[K]" % (dx, PREC)
                g = "(XP[%s] - %sget_y(I0, %s, %s, %s, XP)#Some - 1)" % (mj, S, mi, mj, x)
                raw = g if b is T_ else "((%s * %d) / VP)" % (g, PREC)
                fee = "((%s * I0.fee) / %s)" % (raw, FEE)
                dy = "((%s - %s) / MULT[%s])" % (raw, fee, mj)
                adm = "(((%s * I0.admin_fee) / %s) / MULT[%s])" % (fee, FEE, mj)
                if a is BF:
                    v.requires(dx + " is Ok", when=w, why="what was paid in is supplied to the base pool")
                if b is T_:
                    out = dy
                else:
                    out = HAD + ", @late(1)) - " + HAD + ")"
                    v.requires(S + "inner_remove_liquidity_one_currency(Q.base_pool_id, I0.account, %s, @cast('u32', j - K), 0, I0.account) is Ok" % dy, when=w, why="the shares that were bought are redeemed")
                v.requires("min <= " + out, when=w, why="never less than the minimum given")
                for k in SAME:
                    v.ends("mp", "info." + k, "I0." + k, when=w)
                v.let("B1", "@iupd(BAL, %s, %s + BAL[%s])" % (mi, dx, mi))
                v.ends("mp", "info.balances", "@iupd(B1, %s, BAL[%s] - %s - %s)" % (mj, mj, dy, adm), when=w, why="the pool gives up what was paid and the admin's part of the fee")
            v.returns(out, when=w)
            v.requires(MC + "transfer(%s, I0.account, to, %s) is Ok" % (to, out), when=w)
            v.must("Self::deposit_event(Event::CurrencyExchangeUnderlying{pool_id: id, account: who, in_amount: n, out_amount: %s, currency_index_from: @cast('u32', i), currency_index_to: @cast('u32', j), to: to})" % out, when=w)
    # quotes
    v = c.fn(S + "calculate_meta_swap_underlying", args="id,n,i,j", opaque=ops("calculate_meta_swap_underlying"))
    P = S + "Pools[id]"
    v.let("M", P + "#Pool::Meta")
    meta(v, "M").let("VP", S + "meta_pool_base_virtual_price(M)#Some").let("K", "@len(I0.currency_ids) - 1").let("B", "M.base_currencies").let("XP", mxp("BAL"))
    FB, TB = "@len(I0.currency_ids) <= i + 1", "@len(I0.currency_ids) <= j + 1"
    v.requires("@has(%s)" % P)
    v.requires("%s is Pool::Meta" % P)
    v.requires("!(i == j)")
    v.requires("i + 1 < @len(I0.currency_ids) + @len(B)")
    v.requires("j + 1 < @len(I0.currency_ids) + @len(B)")
    BP = S + "Pools[M.base_pool_id]"
    for a, mi in (("!(%s)" % FB, "i"), (FB, "K")):
        for b, mj in (("!(%s)" % TB, "j"), (TB, "K")):
            w = [a, b]
            if a is FB and b is TB:
                v.returns(S + "StableAmmApi::stable_amm_calculate_swap_amount(M.base_pool_id, i - K, j - K, n)#Some", when=w)
                continue
            if a is FB:
                v.let("SH", "(%scalculate_currency_amount(M.base_pool_id, @iupd(@repeat(0, @len(B)), i - K, n), true) * VP) / %d" % (S, PREC))
                v.let("BF", "(if (%s is Pool::Base) {%s#Pool::Base.fee} else {%s#Pool::Meta.info.fee})" % (BP, BP, BP))
                x = "(SH - (SH * BF) / 20000000000 + XP[K])"
            else:
                x = "(n * MULT[i] + XP[i])"
            g = "(XP[%s] - %sget_y(I0, %s, %s, %s, XP)#Some - 1)" % (mj, S, mi, mj, x)
            d = "(%s - (%s * I0.fee) / %s)" % (g, g, FEE)
            if b is TB:
                v.returns(S + "StableAmmApi::stable_amm_calculate_remove_liquidity_one_currency(M.base_pool_id, (%s * %d) / VP, @cast('u32', j - K))#Some" % (d, PREC), when=w)
            else:
                v.returns("%s / MULT[j]" % d, when=w, why="a quote follows the swap")
    for m, q in (("base", "pool"), ("meta", "mp.info")):
        v = c.fn(S + "calculate_%s_currency_amount" % m, args="%s,am,dep" % q.split(".")[0], opaque=ops("calculate_%s_currency_amount" % m))
        v.let("I0", q).let("BAL", q + ".balances").let("MULT", q + ".token_multipliers").let("AMP", S + "get_a_precise(I0)#Some").let("SUPPLY", MC + "total_issuance(I0.lp_currency_id)")
        if m == "base":
            v.requires("@len(am) == @len(I0.currency_ids) ||| @len(am) <= @len(I0.currency_ids)")
        if m == "meta":
            v.let("VP", S + "meta_pool_base_virtual_price(mp)#Some")
        x = mxp if m == "meta" else lambda bs: S + "xp(%s, MULT)#Some" % bs
        v.let("D0", S + "get_d(%s, AMP)#Some" % x("BAL"))
        for d, op in (("dep", "+"), ("!dep", "-")):
            v.let("D1", S + "get_d(%s, AMP)#Some" % x("fold(am, BAL, @iupd(@acc(0, _), idx(am), BAL[idx(am)] %s elem(am)))" % op))
            v.returns("D1", when=["SUPPLY == 0", d])
            v.returns("(SUPPLY * (%s)) / D0" % ("D1 - D0" if op == "+" else "D0 - D1"), when=["!(SUPPLY == 0)", d])


@prop("T07")
def dispatch(c):
    """every operation reaches its own pool, which is stored again as the formulas left it"""
    P = S + "Pools[id]"
    B, M = P + "#Pool::Base", P + "#Pool::Meta"
    for f, args, call, pos in (("inner_add_liquidity", "who,id,am,min,to", "add_liquidity(who, id, {}, am, min, to)", 2),
                               ("inner_swap", "who,id,i,j,n,min,to", "swap(who, id, {}, i, j, n, min, to)", 2),
                               ("inner_remove_liquidity_one_currency", "id,who,n,j,min,to", "remove_liquidity_one_currency(id, {}, who, n, j, min, to)", 1),
                               ("inner_remove_liquidity_imbalance", "who,id,am,max,to", "remove_liquidity_imbalance(who, id, {}, am, max, to)", 2)):
        v = c.fn(S + f, args=args, opaque=ops(f))
        v.requires("@has(%s)" % P)
        for var, q in (("Base", B), ("Meta", M)):
            k = S + var.lower() + "_pool_" + call.format(q)
            w = P + " is Pool::" + var
            v.requires(k + " is Ok", when=w)
            v.must("@write('dex_stable::Pools', Pool::%s(@havoc(%s, %d)), id)" % (var, k, pos), when=w)
            v.guards(S + var.lower() + "_pool_" + call.split("(")[0] + "(..)", [w])
            if f != "inner_remove_liquidity_imbalance":
                v.returns(k, when=w)
        v.count("@write('dex_stable::Pools', ..)", 1)
        if f == "inner_swap":
            v.requires("!(i == j)")
        if f.endswith("one_currency"):
            v.requires("!(n == 0) ||| 1 <= n")
    # shares for a part of everything
    v = c.fn(S + "inner_remove_liquidity", args="id,who,n,min,to", opaque=ops("inner_remove_liquidity"))
    v.requires("@has(%s)" % P)
    v.requires("!(n == 0) ||| 1 <= n")
    for var, q in (("Base", B), ("Meta", M + ".info")):
        w = P + " is Pool::" + var
        v.let("Q", q).let("OUT", S + "calculate_base_remove_liquidity(Q, n)").let("O", "OUT#Some")
        v.requires("OUT is Some", when=w)
        v.requires("n <= " + MC + "total_issuance(Q.lp_currency_id)", when=w)
        v.requires("@len(min) == @len(Q.currency_ids)", when=w)
        v.requires("@forall(O, min[idx(O)] <= elem(O))", when=w, why="never less than the minimum given")
        v.requires("@forall(O, " + MC + "transfer(Q.currency_ids[idx(O)], Q.account, to, elem(O)) is Ok)", when=w)
        v.requires(MC + "withdraw(Q.lp_currency_id, who, n) is Ok", when=w, why="the shares are burned")
        NB = "fold(O, Q.balances, @iupd(@acc(0, _), idx(O), Q.balances[idx(O)] - elem(O)))"
        v.must("@write('dex_stable::Pools', Pool::%s(%s), id)" % (var, "Q.{balances: %s}" % NB if var == "Base" else M + ".{info: Q.{balances: %s}}" % NB), when=w, why="the pool accounts for what was paid, nothing else")
        v.must("Self::deposit_event(Event::RemoveLiquidity{pool_id: id, who: who, to: to, amounts: O, fees: _, new_total_supply: _})", when=w)
    v.count(MC + "withdraw(..)", 1)
    v.count(MC + "transfer(..)", 1)
    # a user's calls
    WHO = "frame_system::ensure_signed(o)"
    for f, args, call in (("add_liquidity", "id,am,min,to", "inner_add_liquidity(W, id, am, min, to)"),
                          ("swap", "id,i,j,n,min,to", "inner_swap(W, id, i, j, n, min, to)"),
                          ("remove_liquidity", "id,n,min,to", "inner_remove_liquidity(id, W, n, min, to)"),
                          ("remove_liquidity_one_currency", "id,n,j,min,to", "inner_remove_liquidity_one_currency(id, W, n, j, min, to)"),
                          ("remove_liquidity_imbalance", "id,am,max,to", "inner_remove_liquidity_imbalance(W, id, am, max, to)"),
                          ("add_pool_and_base_pool_liquidity", "id,base,ma,ba,min,to", "inner_add_pool_and_base_pool_liquidity(W, id, base, ma, ba, min, to)"),
                          ("remove_pool_and_base_pool_liquidity", "id,base,n,mm,mb,to", "inner_remove_pool_and_base_pool_liquidity(W, id, base, n, mm, mb, to)"),
                          ("remove_pool_and_base_pool_liquidity_one_currency", "id,base,n,i,min,to", "inner_remove_pool_and_base_pool_liquidity_one_currency(W, id, base, n, i, min, to)"),
                          ("swap_pool_from_base", "id,base,i,j,n,min,to", "inner_swap_pool_from_base(W, id, base, i, j, n, min, to)"),
                          ("swap_pool_to_base", "id,base,i,j,n,min,to", "inner_swap_pool_to_base(W, id, base, i, j, n, min, to)"),
                          ("swap_meta_pool_underlying", "id,i,j,n,min,to", "meta_pool_swap_underlying(%s, id, W, to, n, min, i, j)" % M)):
        v = c.fn(S + f, args="o," + args + ",end", opaque=ops())
        v.requires(WHO + " is Ok")
        v.requires("Pallet::block_number() < end", why="not after the deadline")
        k = S + call.replace("W", WHO)
        v.requires(k + " is Ok", why="the caller's own funds, as asked for")
        v.count(S + call.split("(")[0] + "(..)", 1)
        if f == "swap_meta_pool_underlying":
            v.requires("@has(%s)" % P)
            v.requires("%s is Pool::Meta" % P)
            v.must("@write('dex_stable::Pools', Pool::Meta(@havoc(%s, 0)), id)" % k)
    for f, args, call in (("add_liquidity", "who,id,am,min,to", "inner_add_liquidity(who, id, am, min, to)"),
                          ("swap", "who,id,i,j,n,min,to", "inner_swap(who, id, i, j, n, min, to)"),
                          ("remove_liquidity", "who,id,n,min,to", "inner_remove_liquidity(id, who, n, min, to)"),
                          ("remove_liquidity_one_currency", "who,id,n,j,min,to", "inner_remove_liquidity_one_currency(id, who, n, j, min, to)"),
                          ("remove_liquidity_imbalance", "who,id,am,max,to", "inner_remove_liquidity_imbalance(who, id, am, max, to)"),
                          ("swap_pool_from_base", "who,id,base,i,j,n,min,to", "inner_swap_pool_from_base(who, id, base, i, j, n, min, to)"),
                          ("swap_pool_to_base", "who,id,base,i,j,n,min,to", "inner_swap_pool_to_base(who, id, base, i, j, n, min, to)"),
                          ("stable_amm_calculate_currency_amount", "id,am,dep", "calculate_currency_amount(id, am, dep)")):
        v = c.fn(S + "StableAmmApi::" + f, args=args, opaque=ops())
        v.returns(S + call, why="other pallets trade through the same operations")
    v = c.fn(S + "StableAmmApi::stable_amm_calculate_swap_amount", args="id,i,j,n", opaque=ops("stable_amm_calculate_swap_amount")).some()
    v.requires("@has(%s)" % P)
    v.returns(S + "calculate_base_swap_amount(%s, i, j, n)#Some" % B, when=P + " is Pool::Base")
    v.returns(S + "calculate_meta_swap_amount(%s, i, j, n, %smeta_pool_base_virtual_price(%s)#Some)#Some.0" % (M, S, M), when=P + " is Pool::Meta")
    v = c.fn(S + "StableAmmApi::stable_amm_calculate_remove_liquidity", args="id,n", opaque=ops("stable_amm_calculate_remove_liquidity")).some()
    v.returns(S + "calculate_base_remove_liquidity(%s, n)#Some" % B, when=P + " is Pool::Base")
    v.returns(S + "calculate_base_remove_liquidity(%s.info, n)#Some" % M, when=P + " is Pool::Meta")
    v = c.fn(S + "StableAmmApi::stable_amm_calculate_remove_liquidity_one_currency", args="id,n,j", opaque=ops("stable_amm_calculate_remove_liquidity_one_currency")).some()
    v.returns(S + "calculate_base_remove_liquidity_one_token(%s, n, j)#Some.0" % B, when=P + " is Pool::Base")
    v.returns(S + "calculate_meta_remove_liquidity_one_currency(%s, n, j, %stotal_issuance(%s.info.lp_currency_id))#Some.0" % (M, MC, M), when=P + " is Pool::Meta")
    v = c.fn(S + "calculate_currency_amount", args="id,am,dep", opaque=ops("calculate_currency_amount"))
    v.requires("@has(%s)" % P)
    v.returns(S + "calculate_base_currency_amount(%s, am, dep)" % B, when=P + " is Pool::Base")
    v.returns(S + "calculate_meta_currency_amount(%s, am, dep)" % M, when=P + " is Pool::Meta")


@prop("T08")
def admin(c):
    """pools are created and governed by root only, within bounds"""
    P = S + "Pools[id]"
    ROOT = "frame_system::ensure_root(o) is Ok"
    v = c.fn(S + "inner_create_base_pool", args="cs,ds,a,fee,adm,rcv,sym", opaque=ops("inner_create_base_pool"))
    v.let("ID", S + "NextPoolId").let("LP", "T::LpGenerate::generate_by_pool_id(ID)")
    v.requires("T::EnsurePoolAsset::validate_pooled_currency(cs)")
    v.requires("@len(cs) == @len(ds)")
    v.requires("1 <= a ||| !(a == 0)")
    v.requires("a < 1000000")
    v.requires("fee <= 100000000", why="at most 1%")
    v.requires("adm <= 10000000000", why="at most the whole fee")
    v.requires("@forall(cs, ds[idx(cs)] <= 18)")
    v.requires("!@has(%sLpCurrencies[LP])" % S, why="shares of two pools are never the same currency")
    v.returns("BasePool{currency_ids: cs, lp_currency_id: LP, token_multipliers: @mapit(cs, traits::checked_pow(10, 18 - ds[idx(cs)])), balances: @repeat(0, @len(cs)), fee: fee, admin_fee: adm, initial_a: a * 100, future_a: a * 100, initial_a_time: 0, future_a_time: 0, "
              "account: @cfg('PalletId').into_sub_account_truncating(ID), admin_fee_receiver: rcv, lp_currency_symbol: sym, lp_currency_decimal: 18}", path="0")
    v.returns("ID", path="1")
    EV = "Self::deposit_event(Event::CreatePool{pool_id: R.1, currency_ids: cs, lp_currency_id: R.0.lp_currency_id, a: a, account: R.0.account, swap_fee: fee, admin_fee: adm, admin_fee_receiver: rcv})"
    for f in ("create_base_pool", "create_meta_pool"):
        v = c.fn(S + f, args="o,cs,ds,a,fee,adm,rcv,sym", opaque=ops())
        v.let("R", S + "inner_create_base_pool(cs, ds, a, fee, adm, rcv, sym)").let("BID", S + "LpCurrencies[cs[@len(cs) - 1]]").let("BP", S + "Pools[BID]")
        v.requires(ROOT)
        v.requires("R is Ok")
        v.requires("!@has(%sPools[R.1])" % S, why="an existing pool is never replaced")
        v.must("@write('dex_stable::LpCurrencies', R.1, R.0.lp_currency_id)")
        v.must("@write('dex_stable::NextPoolId', %sNextPoolId + 1)" % S)
        v.requires("@noovf(%sNextPoolId + 1)" % S)
        v.must(EV)
        v.count("@write('dex_stable::Pools', ..)", 1)
        if f == "create_base_pool":
            v.must("@write('dex_stable::Pools', Pool::Base(R.0), R.1)")
        else:
            v.requires("!(@len(cs) == 0) ||| 1 <= @len(cs)")
            v.requires("@has(BID)", why="the last currency is the shares of a pool")
            v.requires("@has(BP)")
            for w in ("Base", "Meta"):
                v.must("@write('dex_stable::Pools', Pool::Meta(MetaPool{base_pool_id: BID, base_virtual_price: %sget_pool_virtual_price(BP)#Some, base_cache_last_updated: T::TimeProvider::now().as_secs(), base_currencies: %s, info: R.0}), R.1)"
                       % (S, "BP#Pool::Base.currency_ids" if w == "Base" else "BP#Pool::Meta.info.currency_ids"), when="BP is Pool::" + w)
    def both(v, upd, w=()):
        v.requires(ROOT)
        v.requires("@has(%s)" % P)
        B, M = P + "#Pool::Base", P + "#Pool::Meta"
        v.must("@write('dex_stable::Pools', Pool::Base(%s.{%s}), id)" % (B, upd), when=P + " is Pool::Base")
        v.must("@write('dex_stable::Pools', Pool::Meta(%s.{info: %s.info.{%s}}), id)" % (M, M, upd), when=P + " is Pool::Meta")
        v.count("@write('dex_stable::Pools', ..)", 1)
    v = c.fn(S + "update_fee_receiver", args="o,id,r", opaque=ops())
    v.let("R", "T::Lookup::lookup(r)")
    both(v, "admin_fee_receiver: R")
    v.requires("R is Ok")
    v.must("Self::deposit_event(Event::UpdateAdminFeeReceiver{pool_id: id, admin_fee_receiver: R})")
    v = c.fn(S + "set_swap_fee", args="o,id,f", opaque=ops())
    both(v, "fee: f")
    v.requires("f <= 100000000")
    v.must("Self::deposit_event(Event::NewSwapFee{pool_id: id, new_swap_fee: f})")
    v = c.fn(S + "set_admin_fee", args="o,id,f", opaque=ops())
    both(v, "admin_fee: f")
    v.requires("f <= 10000000000")
    v.must("Self::deposit_event(Event::NewAdminFee{pool_id: id, new_admin_fee: f})")
    NOW = "T::TimeProvider::now().as_secs()"
    for var, q in (("Base", P + "#Pool::Base"), ("Meta", P + "#Pool::Meta.info")):
        w = P + " is Pool::" + var
        wr = "@write('dex_stable::Pools', Pool::%s(%s), id)"
        def rec(u):
            return wr % (var, q + ".{%s}" % u if var == "Base" else P + "#Pool::Meta.{info: %s.{%s}}" % (q, u))
        v = c.fn(S + "ramp_a", args="o,id,a,t", opaque=ops())
        v.let("A", S + "get_a_precise(%s)#Some" % q)
        v.requires(ROOT)
        v.requires("@has(%s)" % P)
        v.requires("%s.initial_a_time + 86400 <= %s" % (q, NOW), when=w, why="at most one change a day")
        v.requires("%s + 86400 <= t" % NOW, when=w, why="the change takes a day at least")
        v.requires("1 <= a ||| !(a == 0)")
        v.requires("a < 1000000")
        v.requires("A <= a * 1000", when=[w, "a * 100 < A"], why="at most tenfold")
        v.requires("a * 100 <= A * 10", when=[w, "!(a * 100 < A)"])
        v.must(rec("initial_a: A, future_a: a * 100, initial_a_time: %s, future_a_time: t" % NOW), when=w)
        v.count("@write('dex_stable::Pools', ..)", 1)
        v.must("Self::deposit_event(Event::RampA{pool_id: id, initial_a_precise: A, future_a_precise: a * 100, now: %s, future_a_time: t})" % NOW, when=w)
        v = c.fn(S + "stop_ramp_a", args="o,id", opaque=ops())
        v.let("A", S + "get_a_precise(%s)#Some" % q)
        v.requires(ROOT)
        v.requires("@has(%s)" % P)
        v.requires("%s < %s.future_a_time" % (NOW, q), when=w)
        v.must(rec("initial_a: A, future_a: A, initial_a_time: %s, future_a_time: %s" % (NOW, NOW)), when=w, why="the value stays what it is now")
        v.must("Self::deposit_event(Event::StopRampA{pool_id: id, current_a: A, now: %s})" % NOW, when=w)
        v = c.fn(S + "withdraw_admin_fee", args="o,id", opaque=ops())
        v.let("Q", q).let("BS", "Q.balances").let("C", "Q.currency_ids[idx(BS)]").let("X", MC + "free_balance(C, Q.account) - elem(BS)")
        v.requires("frame_system::ensure_signed(o) is Ok")
        v.requires("@has(%s)" % P)
        v.requires("@forall(BS, X == 0 || " + MC + "transfer(C, Q.account, Q.admin_fee_receiver, X) is Ok)", when=w, why="what the pool's account has beyond the providers' balances goes to the receiver")
        v.requires("@forall(BS, @noovf(X))", when=w)
        v.count(MC + "transfer(..)", 1)
        v.must("Self::deposit_event(Event::CollectProtocolFee{pool_id: id, currency_id: C, fee_amount: X})", when=w)
        v = c.fn(S + "get_admin_balance", args="id,i", opaque=ops()).some()
        v.returns(MC + "free_balance(%s.currency_ids[i], %s.account) - %s.balances[i]" % (q, q, q), when=w)
        v.requires("i < @len(%s.currency_ids)" % q, when=w)
    v = c.fn(S + "pool_account_id", args="id")
    v.returns("@cfg('PalletId').into_sub_account_truncating(id)", why="no two pools share an account")
    new = {S + "create_base_pool", S + "create_meta_pool"}
    inner = {S + "inner_" + x for x in ("add_liquidity", "swap", "remove_liquidity", "remove_liquidity_one_currency", "remove_liquidity_imbalance")}
    c.only_writers("dex_stable::LpCurrencies", new)
    c.only_writers("dex_stable::NextPoolId", new)
    c.only_writers("dex_stable::Pools", new | inner | {S + x for x in ("swap_meta_pool_underlying", "update_fee_receiver", "set_swap_fee", "set_admin_fee", "ramp_a", "stop_ramp_a", "withdraw_admin_fee")})
