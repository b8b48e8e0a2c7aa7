from iba.rules import prop

F = "farming::"
RS = F + "RewardSchedules"
MC = "T::MultiCurrency::"
RP = "T::RewardPools::"
RT = ("interlay_runtime_parachain", "kintsugi_runtime_parachain")
SIGNED = "frame_system::ensure_signed(origin)"
POOL = "@mut('sort', pool_currency_id)"
OPS = ("try_distribute_reward", "pool_account_id")


@prop("Y01")
def schedules(c):
    v = c.fn(F + "RewardSchedule::total", args="s")
    v.returns("(if (@noovf(s.per_period * s.period_count)) {Some(s.per_period * s.period_count)} else {None})")
    v = c.fn(F + "Hooks::on_initialize", args="now", opaque=OPS)
    IT = "@iterst('iter', '" + RS + "')"
    v.let("S", "elem(%s).2" % IT).let("LP", "elem(%s).0" % IT).let("R", "elem(%s).1" % IT).let("DUE", "now % @cfg('RewardPeriod') == 0")
    DIST = F + "try_distribute_reward(LP, R, S.per_period)"
    v.must(DIST, when=["DUE", "!(S.period_count == 0)"], why="every schedule with periods left pays, once each period")
    v.guards(DIST, ["DUE", "!(S.period_count == 0)"])
    v.count(F + "try_distribute_reward(..)", 1)
    PAID = ["DUE", "!(S.period_count == 0)", DIST + " is Ok"]
    v.must("@write('%s', S.{period_count: @satsub(S.period_count, 1)}, LP, R)" % RS, when=PAID, why="a period is used up when it was paid")
    v.guards("@write('%s', ..)" % RS, PAID, why="and only when it was paid")
    v.count("@write('%s', ..)" % RS, 1)
    v.must("Self::deposit_event(Event::RewardDistributed{pool_currency_id: LP, reward_currency_id: R, amount: S.per_period})", when=PAID)
    v.guards("@delete('%s', LP, R)" % RS, ["DUE", "S.period_count == 0"], why="a schedule goes when nothing of it is left")
    v.must("@delete('%s', LP, R)" % RS, when=["DUE", "S.period_count == 0"])
    v = c.fn(F + "try_distribute_reward", args="p,r,n", opaque=("pool_account_id",))
    v.requires(RP + "distribute_reward(p, r, n) is Ok")
    v.count(RP + "distribute_reward(..)", 1)
    c.only_callers(F + "try_distribute_reward", [F + "Hooks::on_initialize"])
    # set and removed by root
    v = c.fn(F + "update_reward_schedule", opaque=OPS)
    v.let("P", POOL).let("S", RS + "[P, reward_currency_id]").let("A", F + "pool_account_id(P)").let("N", "S.period_count + period_count")
    v.requires("frame_system::ensure_root(origin) is Ok")
    v.requires(MC + "transfer(reward_currency_id, @cfg('TreasuryAccountId'), A, amount) is Ok", why="a promise is funded when it is made")
    v.count(MC + "transfer(..)", 1)
    v.requires("@noovf(S.period_count + period_count)")
    v.let("ALL", "S.per_period * S.period_count + amount")
    v.requires("@noovf(ALL)")
    v.let("EACH", "(if (@noovf((ALL) / (N))) {(ALL) / (N)} else {0})")
    v.must("@write('%s.period_count', N, P, reward_currency_id)" % RS)
    v.must("@write('%s.per_period', EACH, P, reward_currency_id)" % RS, why="what was still to be paid and what is added, evenly over the periods and rounded down; rewards waiting to be claimed are not spent again")
    v.must("Self::deposit_event(Event::RewardScheduleUpdated{pool_currency_id: P, reward_currency_id: reward_currency_id, period_count: N, per_period: EACH})")
    v = c.fn(F + "remove_reward_schedule", opaque=OPS)
    v.let("P", POOL).let("A", F + "pool_account_id(P)")
    v.requires("frame_system::ensure_root(origin) is Ok")
    v.let("S", RS + "[P, reward_currency_id]")
    v.requires(MC + "transfer(reward_currency_id, A, @cfg('TreasuryAccountId'), S.per_period * S.period_count) is Ok", why="what was still to be paid goes back, not what is waiting to be claimed")
    v.count(MC + "transfer(..)", 1)
    v.must("@delete('%s', P, reward_currency_id)" % RS)
    v.must("Self::deposit_event(Event::RewardScheduleUpdated{pool_currency_id: P, reward_currency_id: reward_currency_id, period_count: 0, per_period: 0})")
    c.only_writers(RS, {F + "Hooks::on_initialize", F + "update_reward_schedule", F + "remove_reward_schedule"})
    v = c.fn(F + "total_rewards", args="p,r", opaque=("pool_account_id",))
    v.let("S", RS + "[@mut('sort', p), r]")
    v.returns("(if (@noovf(S.per_period * S.period_count)) {S.per_period * S.period_count} else {@default()})")


@prop("Y02")
def stake(c):
    v = c.fn(F + "deposit", opaque=OPS)
    v.let("P", POOL).let("W", SIGNED).let("N", MC + "free_balance(P, W)")
    LEN = RP + "reward_currencies_len(P) <= length_rewards"
    v.requires("W is Ok")
    v.requires(LEN, why="the weight charged covers the work")
    v.requires(MC + "reserve(P, W, N) is Ok", why="stake cannot be spent")
    v.requires(RP + "deposit_stake(P, W, N) is Ok", why="stake counts for what was locked")
    v.accepts(["W is Ok", LEN, MC + "reserve(P, W, N) is Ok", RP + "deposit_stake(P, W, N) is Ok"], explicit=True)
    v.count(MC + "reserve(..)", 1)
    v.count(RP + "deposit_stake(..)", 1)
    v = c.fn(F + "withdraw", opaque=OPS)
    v.let("P", POOL).let("W", SIGNED).let("U", MC + "unreserve(P, W, amount)")
    v.requires("W is Ok")
    v.requires(LEN)
    v.requires("U == 0", why="all of it was there to release")
    v.requires(RP + "withdraw_stake(P, W, amount) is Ok", why="what is released stops earning, and nothing is released that was not stake")
    v.accepts(["W is Ok", LEN, "U == 0", RP + "withdraw_stake(P, W, amount) is Ok"], explicit=True)
    v.count(MC + "unreserve(..)", 1)
    v.count(RP + "withdraw_stake(..)", 1)
    v = c.fn(F + "claim", opaque=OPS)
    v.let("P", POOL).let("W", SIGNED).let("N", RP + "withdraw_reward(P, W, reward_currency_id)")
    v.requires("W is Ok")
    v.requires("N is Ok")
    v.requires(MC + "transfer(reward_currency_id, " + F + "pool_account_id(P), W, N) is Ok", why="the claimant gets what the pool says was earned, from that pool's own account")
    v.accepts(["W is Ok", "N is Ok", MC + "transfer(reward_currency_id, " + F + "pool_account_id(P), W, N) is Ok"], explicit=True)
    v.count(MC + "transfer(..)", 1)
    v.count(RP + "withdraw_reward(..)", 1)
    v.must("Self::deposit_event(Event::RewardClaimed{account_id: W, pool_currency_id: P, reward_currency_id: reward_currency_id, amount: N})")
    v = c.fn(F + "pool_account_id", args="p")
    v.returns("@cfg('FarmingPalletId').into_sub_account_truncating(p)", why="each pool has an account of its own")

    for r in RT:
        c.config_is(r, "farming::Config", "RewardPools", "FarmingRewards")
        c.config_is(r, "farming::Config", "MultiCurrency", "Tokens")
        c.config_is(r, "farming::Config", "TreasuryAccountId", "TreasuryAccount")


M = "multi_transaction_payment::"


@prop("M01")
def payment(c):
    v = c.fn(M + "OnChargeTransaction::withdraw_fee", args="who,call,info,fee,tip")
    v.let("K", "call.is_sub_type()#Some").let("V", "K")
    IS = ["!(fee == 0)", "call.is_sub_type() is Some", "K is Call::with_fee_swap_path"]
    SWAP = "T::Dex::inner_swap_assets_for_exact_assets(who, fee, V.amount_in_max, V.path, who)"
    v.requires(SWAP + " is Ok", when=IS, why="the swap buys the fee, for at most what the payer allowed, from and to the payer")
    v.guards(SWAP, IS, why="only who asked for it has something swapped")
    v.count("T::Dex::inner_swap_assets_for_exact_assets(..)", 1)
    v.requires("!(@len(V.path) == 0)", when=IS)
    v.requires("V.path[@len(V.path) - 1] == @cfg('GetNativeCurrencyId')", when=IS, why="the swap ends in the currency fees are taken in")
    D = "SubstrateDefaultPayment::withdraw_fee(who, call, info, fee, tip)"
    v.requires(D + " is Ok", when=["!(fee == 0)"], why="the fee is taken whether swapped for or not")
    v.returns("(if (fee == 0) {None} else {" + D + "})")
    v.order(SWAP, D, when=IS, why="bought before it is taken")
    v.accepts(["fee == 0 || !(call.is_sub_type() is Some && K is Call::with_fee_swap_path) || (" + SWAP + " is Ok && !(@len(V.path) == 0) && V.path[@len(V.path) - 1] == @cfg('GetNativeCurrencyId'))",
               "fee == 0 || " + D + " is Ok"], explicit=True)
    v = c.fn(M + "OnChargeTransaction::correct_and_deposit_fee", args="who,di,pi,fee,tip,paid")
    v.returns("SubstrateDefaultPayment::correct_and_deposit_fee(who, di, pi, fee, tip, paid)", why="what was overpaid goes back to the payer")
    v.requires("SubstrateDefaultPayment::correct_and_deposit_fee(who, di, pi, fee, tip, paid) is Ok")
    v = c.fn(M + "with_fee_swap_path", args="origin,path,max,call")
    v.requires("call.dispatch(origin) is Ok", why="the inner call runs with the caller's own origin")
    v.count("call.dispatch(..)", 1)

    for r in RT:
        c.config_is(r, "pallet_transaction_payment::Config", "OnChargeTransaction", "MultiTransactionPayment")
        c.config_is(r, "multi_transaction_payment::Config", "Dex", "DexGeneral")
        c.config_is(r, "multi_transaction_payment::Config", "Currency", "NativeCurrency", why="fees are taken in the currency that was bought")


R = "dex_swap_router::"
ROPS = ("stable_swap", "swap", "validate_routes", "currency_index_from_stable_pool")


@prop("M02")
def router(c):
    v = c.fn(R + "swap_exact_tokens_for_tokens", opaque=ROPS)
    v.let("W", SIGNED).let("E", "elem(routes)").let("N", "@acc(0, _)").let("TO", "(if (@len(routes) == idx(routes) + 1) {to} else {W})")
    v.let("GS", "T::GeneralAmm::get_amount_out_by_path(N, E#Route::General)").let("G", "GS[@len(GS) - 1]")
    v.let("ST", R + "stable_swap(W, E#Route::Stable, N, TO)").let("SW", R + "swap(W, N, E#Route::General, TO)")
    v.requires("W is Ok")
    v.requires("Pallet::block_number() < deadline ||| frame_system::Pallet::block_number() < deadline")
    v.requires(R + "validate_routes(routes) is Ok")
    v.requires("@forall(routes, !(E is Route::General) || SW is Ok)", why="each trade spends what the one before gave; the last pays the recipient")
    v.requires("@forall(routes, !(E is Route::General) || GS is Ok)")
    v.requires("@forall(routes, E is Route::General || ST is Ok)")
    v.requires("amount_out_min <= fold(routes, amount_in, (if (E is Route::General) {G} else {ST}))", why="the user's limit is on what comes out of the last trade")
    v.order("GS", "SW", when=["E is Route::General"], why="priced before the trade moves the price")
    v.count("SW", 1)
    v.count("ST", 1)
    v = c.fn(R + "stable_swap", args="who,p,n,to", opaque=[o for o in ROPS if o != "stable_swap"])
    IX = R + "currency_index_from_stable_pool(p.%s, p.%s)"
    outs = []
    for mode, fn, pools, f, t in (("Single", "swap", "p.pool_id", "pool_id", "pool_id"), ("FromBase", "swap_pool_from_base", "p.pool_id, p.base_pool_id", "base_pool_id", "pool_id"),
                                  ("ToBase", "swap_pool_to_base", "p.pool_id, p.base_pool_id", "pool_id", "base_pool_id")):
        on = ["p.mode is StableSwapMode::" + mode]
        src, dst = IX % (f, "from_currency"), IX % (t, "to_currency")
        call = "T::StableAmm::%s(who, %s, %s, %s, n, 0, to)" % (fn, pools, src, dst)
        v.requires(call + " is Ok", when=on, why="the currencies named are the ones traded")
        v.requires(src + " is Ok", when=on)
        v.requires(dst + " is Ok", when=on)
        v.guards(call, on)
        outs.append((on[0], call))
    A, B, C = outs
    v.returns("(if (%s) {%s} else {(if (%s) {%s} else {%s})}) ||| (if (%s) {%s} else {(if (%s) {%s} else {%s})})" % (
        A[0], A[1], B[0], B[1], C[1], B[0], B[1], A[0], A[1], C[1]))
    v = c.fn(R + "swap", args="who,n,p,to", opaque=[o for o in ROPS if o != "swap"])
    v.requires("T::GeneralAmm::inner_swap_exact_assets_for_assets(who, n, 0, p, to) is Ok")
    v.count("T::GeneralAmm::inner_swap_exact_assets_for_assets(..)", 1)
    v = c.fn(R + "currency_index_from_stable_pool", args="p,x")
    v.returns("T::StableAmm::currency_index(p, x)")
    v.requires("T::StableAmm::currency_index(p, x) is Ok ||| T::StableAmm::currency_index(p, x) is Some")
    v = c.fn(R + "validate_routes", args="r")
    W = "r.array_windows()"
    v.let("X", "elem(%s)[0]" % W).let("Z", "elem(%s)[1]" % W)
    v.requires("@forall(%s, (if (X is Route::General) {X#Route::General[@len(X#Route::General) - 1]} else {X#Route::Stable.to_currency}) == "
               "(if (Z is Route::General) {Z#Route::General[0]} else {Z#Route::Stable.from_currency}))" % W, why="each trade starts in the currency the one before ended in")
    v.requires("@forall(%s, !(X is Route::General) || !(0 == @len(X#Route::General)))" % W)
    v.requires("@forall(%s, !(Z is Route::General) || !(0 == @len(Z#Route::General)))" % W)
    for r in RT:
        c.config_is(r, "dex_swap_router::Config", "GeneralAmm", "DexGeneral")
        c.config_is(r, "dex_swap_router::Config", "StableAmm", "DexStable")
