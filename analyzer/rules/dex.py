from iba.rules import prop

D = "dex_general::"
ST = D + "PairStatuses"
MC = "T::MultiCurrency::"
BAL = MC + "free_balance"
BLOCK = "Pallet::block_number()"
OPS = ("sort_asset_id", "pair_account_id", "lp_asset_id", "bootstrap_account_id", "calculate_added_amount", "calculate_liquidity", "calculate_share_amount",
       "get_amount_in", "get_amount_out", "mint_protocol_fee", "pair_swap", "bootstrap_disable", "bootstrap_distribute_reward", "mutate_lp_pairs",
       "get_amount_out_by_path", "get_amount_in_by_path", "bootstrap_check_limits", "swap", "fee_rate")
INNER = ("inner_add_liquidity", "inner_remove_liquidity", "inner_swap_exact_assets_for_assets", "inner_swap_assets_for_exact_assets",
         "do_bootstrap_contribute", "do_end_bootstrap", "do_bootstrap_claim", "do_bootstrap_refund")
LATE = {"free_balance": ("transfer",)}
SIGNED = "frame_system::ensure_signed(origin)"
DEST = "T::Lookup::lookup(recipient)"


def pair(v, x="x", y="y"):
    v.let("P", D + "sort_asset_id(%s, %s)" % (x, y)).let("S", ST + "[P]")
    return v


@prop("Q01")
def swapping(c):
    # the price of one hop
    v = c.fn(D + "get_amount_out", args="n,x,y,f", opaque=OPS)
    v.returns("(n * y * @satsub(10000, f)) / (n * @satsub(10000, f) + x * 10000)", why="constant product on the input less the fee, rounded against the buyer")
    for q in ("n", "x", "y"):
        v.requires("!(%s == 0)" % q)
    v.requires("@noovf(x * 10000)")
    v = c.fn(D + "get_amount_in", args="n,x,y,f", opaque=OPS)
    v.returns("(n * x * 10000) / ((y - n) * @satsub(10000, f)) + 1", why="rounded against the buyer")
    for q in ("n", "x", "y"):
        v.requires("!(%s == 0)" % q)
    v.requires("@noovf(y - n)")
    v = c.fn(D + "PairStatus::fee_rate", args="s")
    v.returns("(if (s is PairStatus::Trading) {s#PairStatus::Trading.fee_rate} else {30})")
    # along a path
    v = c.fn(D + "get_amount_out_by_path", args="n,p", opaque=OPS)
    v.let("W", "p.array_windows()").let("X", "elem(W)[0]").let("Y", "elem(W)[1]").let("ACC", D + "pair_account_id(X, Y)")
    v.let("RX", BAL + "(X, ACC)").let("RY", BAL + "(Y, ACC)").let("F", D + "PairStatus::fee_rate(" + ST + "[" + D + "sort_asset_id(X, Y)])")
    v.let("OUT", D + "get_amount_out(@acc(0, _)[@len(@acc(0, _)) - 1], RX, RY, F)")
    v.requires("2 <= @len(p)")
    v.returns("fold(W, @arr(n), @push(@acc(0, _), OUT))", why="each hop takes what the one before gave, in the pair's own reserves and fee")
    v.requires("@forall(W, OUT is Ok)")
    v.requires("@forall(W, 1 <= OUT)")
    v.requires("@forall(W, RX * RY <= (@acc(0, _)[@len(@acc(0, _)) - 1] + RX) * (RY - OUT))", why="no hop lowers the product of the reserves")
    v = c.fn(D + "get_amount_in_by_path", args="n,p", opaque=OPS)
    v.let("W", "@range(1, @len(p))").let("X", "p[elem(W)]").let("Y", "p[elem(W) - 1]").let("ACC", D + "pair_account_id(X, Y)")
    v.let("RX", BAL + "(X, ACC)").let("RY", BAL + "(Y, ACC)").let("F", D + "PairStatus::fee_rate(" + ST + "[" + D + "sort_asset_id(X, Y)])")
    v.let("WANT", "@acc(0, _)[@len(p) - 1 - elem(W)]").let("IN", D + "get_amount_in(WANT, RY, RX, F)")
    v.requires("2 <= @len(p)")
    v.returns("rev(fold(rev(W), @arr(n), @push(@acc(0, _), IN)))", why="the path is priced from its end")
    v.requires("@forall(rev(W), IN is Ok)")
    v.requires("@forall(rev(W), 1 <= IN)")
    v.requires("@forall(rev(W), RX * RY <= (RY + IN) * (RX - WANT))", why="no hop lowers the product of the reserves")
    # the swap
    for name, args, amounts, spent, limit in (
            ("inner_swap_exact_assets_for_assets", "who,n,m,p,to", "get_amount_out_by_path(n, p)", "n", "m <= AM[@len(AM) - 1]"),
            ("inner_swap_assets_for_exact_assets", "who,n,m,p,to", "get_amount_in_by_path(n, p)", "AM[0]", "AM[0] <= m")):
        v = c.fn(D + name, args=args, opaque=OPS)
        v.let("AM", D + amounts)
        v.requires("AM is Ok")
        v.requires(limit, why="never worse than the limit the user gave")
        v.requires(MC + "transfer(p[0], who, " + D + "pair_account_id(p[0], p[1]), " + spent + ") is Ok", why="paid to the first pair of the path before it gives anything")
        v.requires(D + "swap(AM, p, to) is Ok")
        v.order(MC + "transfer(..)", D + "swap(..)", why="paid before it gives")
        v.accepts(["AM is Ok", limit, MC + "transfer(p[0], who, " + D + "pair_account_id(p[0], p[1]), " + spent + ") is Ok", D + "swap(AM, p, to) is Ok",
                   "@forall(p, T::EnsurePairAsset::validate_asset(elem(p)))"], explicit=True, why="the limit itself is good enough")
        v.count(MC + "transfer(..)", 1)
        v.count(D + "swap(..)", 1)
        v.must("Self::deposit_event(Event::AssetSwap{balances: AM, owner: who, recipient: to, swap_path: p})")
    v.requires("@forall(p, T::EnsurePairAsset::validate_asset(elem(p)))")
    v = c.fn(D + "swap", args="a,p,to", opaque=[x for x in OPS if x != "swap"])
    v.let("W", "@range(0, @len(a) - 1)").let("I", "elem(W)").let("X", "p[I]").let("Y", "p[I + 1]").let("P", D + "sort_asset_id(X, Y)")
    v.let("ACC", D + "pair_account_id(P.0, P.1)").let("RX", BAL + "(X, ACC)").let("RY", BAL + "(Y, ACC)")
    v.requires("@forall(W, (RX - a[I]) * RY <= RX * (RY - a[I + 1]))", why="the reserves at the time of each hop: a path may pass through a pair more than once")
    v.let("O0", "(if (X == P.0) {0} else {a[I + 1]})").let("O1", "(if (X == P.0) {a[I + 1]} else {0})")
    NEXT = D + "pair_account_id(Y, p[I + 2])"
    v.requires("@forall(W, @len(a) <= I + 2 || " + D + "pair_swap(P.0, P.1, ACC, O0, O1, " + NEXT + ") is Ok)", why="each hop pays the next pair")
    v.requires("@forall(W, I + 2 < @len(a) || " + D + "pair_swap(P.0, P.1, ACC, O0, O1, to) is Ok)", why="the last hop pays the recipient")
    v.guards(D + "pair_swap(P.0, P.1, ACC, O0, O1, " + NEXT + ")", ["I + 2 < @len(a)"])
    v.guards(D + "pair_swap(P.0, P.1, ACC, O0, O1, to)", ["@len(a) <= I + 2"])
    v = c.fn(D + "pair_swap", args="x,y,acc,n,m,to", opaque=[o for o in OPS if o != "pair_swap"])
    pair(v)
    v.requires("S is PairStatus::Trading")
    v.requires("n <= " + BAL + "(x, acc)")
    v.requires("m <= " + BAL + "(y, acc)")
    v.accepts(["S is PairStatus::Trading", "n <= " + BAL + "(x, acc)", "m <= " + BAL + "(y, acc)", "n <= 0 || " + MC + "transfer(x, acc, to, n) is Ok",
               "m <= 0 || " + MC + "transfer(y, acc, to, m) is Ok"], explicit=True)
    v.requires("n <= 0 || " + MC + "transfer(x, acc, to, n) is Ok")
    v.requires("m <= 0 || " + MC + "transfer(y, acc, to, m) is Ok")
    v.count(MC + "transfer(x, ..)", 1)
    v.count(MC + "transfer(y, ..)", 1)
    c.only_callers(D + "pair_swap", [D + "swap"])
    # the calls
    for name, inner, ns in (("swap_exact_assets_for_assets", "inner_swap_exact_assets_for_assets", "amount_in, amount_out_min"),
                            ("swap_assets_for_exact_assets", "inner_swap_assets_for_exact_assets", "amount_out, amount_in_max")):
        v = c.fn(D + name, opaque=OPS + INNER)
        v.requires(SIGNED + " is Ok")
        v.requires(DEST + " is Ok")
        v.requires(BLOCK + " < deadline")
        v.requires(D + inner + "(" + SIGNED + ", " + ns + ", path, " + DEST + ") is Ok")
    v = c.fn(D + "swap_exact_assets_for_assets", opaque=OPS + INNER)
    v.requires("@forall(path, T::EnsurePairAsset::validate_asset(elem(path)))")
    X = "ExportDexGeneral::"
    for name in ("inner_swap_assets_for_exact_assets", "inner_swap_exact_assets_for_assets"):
        v = c.fn(D + X + name, args="who,n,m,p,to", opaque=OPS + INNER)
        v.requires(D + name + "(who, n, m, p, to) is Ok")
    for name in ("get_amount_in_by_path", "get_amount_out_by_path"):
        v = c.fn(D + X + name, args="n,p", opaque=OPS + INNER)
        v.returns(D + name + "(n, p)")
    # identities
    v = c.fn(D + "sort_asset_id", args="x,y")
    v.returns("(min(x, y), max(x, y))", why="a pair has one record whatever order its assets come in")
    v = c.fn(D + "pair_account_id", args="x,y", opaque=OPS)
    pair(v)
    v.returns("@cfg('PalletId').into_sub_account_truncating(T::Hashing::hash_of((P.0, P.1)))")
    v = c.fn(D + "bootstrap_account_id", args="", opaque=())
    v.returns("@cfg('PalletId').into_sub_account_truncating('boot')")


@prop("Q02")
def liquidity(c):
    FEE = D + "FeeMeta"
    v = c.fn(D + "calculate_share_amount", args="n,x,y", opaque=())
    v.returns("(if (@tryconv(n * y / x) is Ok) {n * y / x} else {0})", why="a share of the reserve, rounded down")
    v = c.fn(D + "calculate_liquidity", args="a,b,x,y,s", opaque=OPS)
    SH = D + "calculate_share_amount"
    v.returns("(if (s == 0) {(if (@tryconv((a * b).integer_sqrt()) is Ok) {(a * b).integer_sqrt()} else {0})} else {min(" + SH + "(a, x, s), " + SH + "(b, y, s))})",
              why="the lesser of the two shares, so that nobody's share shrinks")
    v = c.fn(D + "calculate_added_amount", args="a,b,m,k,x,y", opaque=OPS)
    v.let("E", "x == 0 || y == 0").let("OB", SH + "(a, x, y)").let("OA", SH + "(b, y, x)")
    v.returns("((if (x == 0 || y == 0 || OB <= b) {a} else {OA}), (if (x == 0 || y == 0) {b} else {min(b, OB)}))")
    v.requires("x == 0 || y == 0 || b < OB || k <= OB", why="never less than the minimum the provider gave")
    v.requires("x == 0 || y == 0 || OB <= b || m <= OA")
    v.requires("x == 0 || y == 0 || OB <= b || OA <= a")
    v.accepts(["x == 0 || y == 0 || b < OB || k <= OB", "x == 0 || y == 0 || OB <= b || m <= OA", "x == 0 || y == 0 || OB <= b || OA <= a"], explicit=True)
    v = c.fn(D + "mint_protocol_fee", args="a,b,x,y,s", opaque=OPS)
    pair(v)
    v.let("K", D + "KLast[P]").let("R", "(a * b).integer_sqrt()").let("L", "K.integer_sqrt()").let("N", "(s * (R - L)) / (L + R * " + FEE + ".1)")
    v.returns("(if (" + FEE + ".0 is Some && !(K == 0) && L < R) {(if (@tryconv(N) is Ok) {N} else {0})} else {0})"
              + " ||| (if (" + FEE + ".0 is Some && !(K == 0) && L < R) {max(0, (if (@tryconv(N) is Ok) {N} else {0}))} else {0})",
              why="the receiver's part of the growth of the root of the product, which providers keep the rest of")
    v.guards("@write('dex_general::KLast', 0, P)", ["!(" + FEE + ".0 is Some)", "!(K == 0)"])
    v.must("@write('dex_general::KLast', 0, P)", when=["!(" + FEE + ".0 is Some)", "!(K == 0)"], why="what grew while the fee was off is not charged later")
    for name, args in (("inner_add_liquidity", "who,x,y,a,b,m,k"), ("inner_remove_liquidity", "who,x,y,l,m,k,to")):
        v = c.fn(D + name, args=args, opaque=OPS, late=LATE)
        pair(v)
        v.let("META", "S#PairStatus::Trading").let("ACC", "META.pair_account").let("RX", BAL + "(x, ACC)").let("RY", BAL + "(y, ACC)")
        v.let("LP", D + "LiquidityPairs[P]#Some").let("MF", D + "mint_protocol_fee(RX, RY, x, y, META.total_supply)")
        v.let("SUP", "(if (" + FEE + ".0 is Some && 1 <= MF) {META.total_supply + MF} else {META.total_supply})")
        v.requires("S is PairStatus::Trading")
        v.requires(D + "LiquidityPairs[P] is Some")
        v.requires("MF is Ok", why="the fee on past growth is taken before the supply changes")
        PAYFEE = MC + "deposit(LP, " + FEE + ".0#Some, MF)"
        v.requires("!(" + FEE + ".0 is Some) || MF <= 0 || " + PAYFEE + " is Ok")
        v.guards(PAYFEE, [FEE + ".0 is Some"])
        AFTER = "(" + BAL + "(x, ACC, @late()) * " + BAL + "(y, ACC, @late()))"
        v.must("@write('dex_general::KLast', " + AFTER + ", P)", when=[FEE + ".0 is Some"], why="the next fee is on growth since this change, with the reserves it left")
        v.count("@write('dex_general::KLast', ..)", 1)
        if name == "inner_add_liquidity":
            v.let("ADD", D + "calculate_added_amount(a, b, m, k, RX, RY)").let("N", D + "calculate_liquidity(ADD.0, ADD.1, RX, RY, SUP)")
            v.requires("ADD is Ok")
            v.requires("1 <= N")
            v.requires("ADD.0 <= " + BAL + "(x, who)")
            v.requires("ADD.1 <= " + BAL + "(y, who)")
            v.requires(MC + "deposit(LP, who, N) is Ok")
            v.requires(MC + "transfer(x, who, ACC, ADD.0) is Ok", why="what the share is of is paid in")
            v.requires(MC + "transfer(y, who, ACC, ADD.1) is Ok")
            v.must("@write('dex_general::PairStatuses', PairStatus::Trading(META.{total_supply: SUP + N}), P)", why="the supply on record is the supply minted")
            v.accepts(["S is PairStatus::Trading", D + "LiquidityPairs[P] is Some", "MF is Ok", "!(" + FEE + ".0 is Some) || MF <= 0 || " + PAYFEE + " is Ok", "ADD is Ok", "1 <= N",
                       "ADD.0 <= " + BAL + "(x, who)", "ADD.1 <= " + BAL + "(y, who)", MC + "deposit(LP, who, N) is Ok", MC + "transfer(x, who, ACC, ADD.0) is Ok",
                       MC + "transfer(y, who, ACC, ADD.1) is Ok", "@noovf(SUP + N)", "@noovf(META.total_supply + MF)", "@noovf" + AFTER], explicit=True)
            v.count(MC + "deposit(..)", 2)
            v.count(MC + "withdraw(..)", 0)
            v.must("Self::deposit_event(Event::LiquidityAdded{add_balance_0: ADD.0, add_balance_1: ADD.1, asset_0: x, asset_1: y, mint_balance_lp: N, owner: who})")
        else:
            v.let("OX", SH + "(l, SUP, RX)").let("OY", SH + "(l, SUP, RY)")
            v.requires("m <= OX", why="never less than the minimum the provider gave")
            v.requires("k <= OY")
            v.requires(MC + "withdraw(LP, who, l) is Ok", why="the share is burned")
            v.requires(MC + "transfer(x, ACC, to, OX) is Ok", why="a share of the whole supply, the fee's included")
            v.requires(MC + "transfer(y, ACC, to, OY) is Ok")
            v.must("@write('dex_general::PairStatuses', PairStatus::Trading(META.{total_supply: SUP - l}), P)", why="the supply on record is the supply there is")
            v.requires("@noovf(SUP - l)")
            v.accepts(["S is PairStatus::Trading", D + "LiquidityPairs[P] is Some", "MF is Ok", "!(" + FEE + ".0 is Some) || MF <= 0 || " + PAYFEE + " is Ok", "m <= OX", "k <= OY",
                       MC + "withdraw(LP, who, l) is Ok", MC + "transfer(x, ACC, to, OX) is Ok", MC + "transfer(y, ACC, to, OY) is Ok", "@noovf(SUP - l)",
                       "@noovf(META.total_supply + MF)", "@noovf" + AFTER], explicit=True, why="liquidity can always be taken back")
            v.count(MC + "deposit(..)", 1)
            v.count(MC + "withdraw(..)", 1)
            v.must("Self::deposit_event(Event::LiquidityRemoved{asset_0: x, asset_1: y, burn_balance_lp: l, owner: who, recipient: to, rm_balance_0: OX, rm_balance_1: OY})")
        v.count(MC + "transfer(..)", 2)
        v.count("@write('dex_general::PairStatuses', ..)", 1)
    v = c.fn(D + "add_liquidity", opaque=OPS + INNER)
    v.requires(D + "inner_add_liquidity(" + SIGNED + ", asset_0, asset_1, amount_0_desired, amount_1_desired, amount_0_min, amount_1_min) is Ok")
    w = c.fn(D + "remove_liquidity", opaque=OPS + INNER)
    w.requires(D + "inner_remove_liquidity(" + SIGNED + ", asset_0, asset_1, liquidity, amount_0_min, amount_1_min, " + DEST + ") is Ok")
    w.requires(DEST + " is Ok")
    for q in (v, w):
        q.requires(SIGNED + " is Ok")
        q.requires(BLOCK + " < deadline")
        q.requires("T::EnsurePairAsset::validate_asset(asset_0)")
        q.requires("T::EnsurePairAsset::validate_asset(asset_1)")
    v = c.fn(D + "ExportDexGeneral::inner_add_liquidity", args="who,x,y,a,b,m,k", opaque=OPS + INNER)
    v.requires(D + "inner_add_liquidity(who, x, y, a, b, m, k) is Ok")
    v = c.fn(D + "ExportDexGeneral::inner_remove_liquidity", args="who,x,y,l,m,k,to", opaque=OPS + INNER)
    v.requires(D + "inner_remove_liquidity(who, x, y, l, m, k, to) is Ok")
    v = c.fn(D + "mutate_lp_pairs", args="x,y", opaque=OPS)
    pair(v)
    v.requires(D + "lp_asset_id(x, y) is Some")
    v.must("@write('dex_general::LiquidityPairs', Some(" + D + "lp_asset_id(x, y)#Some), P)")
    v = c.fn(D + "lp_asset_id", args="x,y", opaque=[o for o in OPS if o != "lp_asset_id"])
    pair(v)
    v.returns("T::LpGenerate::generate_lp_asset_id(P.0, P.1)")
    c.only_writers("dex_general::LiquidityPairs", {D + "mutate_lp_pairs"})
    c.only_writers("dex_general::KLast", {D + "mutate_k_last"})
    c.only_callers(D + "mutate_k_last", [D + "inner_add_liquidity", D + "inner_remove_liquidity", D + "mint_protocol_fee"])
    c.only_writers("dex_general::PairStatuses", {D + x for x in ("inner_add_liquidity", "inner_remove_liquidity", "set_exchange_fee", "create_pair", "bootstrap_create", "bootstrap_update",
                                                                "do_bootstrap_contribute", "do_end_bootstrap", "do_bootstrap_refund")})


@prop("Q03")
def bootstrap(c):
    PS = D + "BootstrapPersonalSupply"
    v = c.fn(D + "bootstrap_disable", args="b", opaque=())
    v.returns("b.end_block_number < " + BLOCK + " && (b.accumulated_supply.0 < b.target_supply.0 || b.accumulated_supply.1 < b.target_supply.1)",
              why="a bootstrap failed if either target was missed")
    v = c.fn(D + "bootstrap_check_limits", args="x,y,who", opaque=OPS)
    pair(v)
    v.let("LIM", D + "BootstrapLimits[P]")
    v.returns("@forall(LIM, elem(LIM).1 <= " + BAL + "(elem(LIM).0, who))")
    v = c.fn(D + "bootstrap_contribute", args="o,x,y,a,b,until", opaque=OPS + INNER)
    v.let("WHO", "frame_system::ensure_signed(o)")
    v.requires("WHO is Ok")
    v.requires(D + "bootstrap_check_limits(x, y, WHO)")
    v.requires(BLOCK + " < until")
    v.requires(D + "do_bootstrap_contribute(WHO, x, y, a, b) is Ok")
    v = c.fn(D + "do_bootstrap_contribute", args="who,x,y,a,b", opaque=OPS)
    pair(v)
    v.let("B", "S#PairStatus::Bootstrap")
    v.let("A0", "(if (x == P.0) {a} else {b})").let("B0", "(if (x == P.0) {b} else {a})")
    v.let("C0", "(if (A0 + B.accumulated_supply.0 <= B.capacity_supply.0) {A0} else {B.capacity_supply.0 - B.accumulated_supply.0})")
    v.let("C1", "(if (B0 + B.accumulated_supply.1 <= B.capacity_supply.1) {B0} else {B.capacity_supply.1 - B.accumulated_supply.1})")
    v.requires("S is PairStatus::Bootstrap")
    v.requires(BLOCK + " < B.end_block_number")
    BOOT = D + "bootstrap_account_id()"
    v.requires(MC + "transfer(P.0, who, " + BOOT + ", C0) is Ok", why="what is credited is paid, up to the capacity left")
    v.requires(MC + "transfer(P.1, who, " + BOOT + ", C1) is Ok")
    v.requires("1 <= C0 || 1 <= C1")
    v.count(MC + "transfer(..)", 2)
    v.accepts(["S is PairStatus::Bootstrap", BLOCK + " < B.end_block_number", MC + "transfer(P.0, who, " + BOOT + ", C0) is Ok", MC + "transfer(P.1, who, " + BOOT + ", C1) is Ok",
               "1 <= C0 || 1 <= C1", "@noovf(C0 + " + PS + "[(P, who)].0)", "@noovf(C1 + " + PS + "[(P, who)].1)", "@noovf(A0 + B.accumulated_supply.0)", "@noovf(B0 + B.accumulated_supply.1)",
               "@noovf(C0 + B.accumulated_supply.0)", "@noovf(C1 + B.accumulated_supply.1)", "@noovf(B.capacity_supply.0 - B.accumulated_supply.0)",
               "@noovf(B.capacity_supply.1 - B.accumulated_supply.1)"], explicit=True, why="one of the two assets is enough")
    v.must("@write('dex_general::BootstrapPersonalSupply.0', C0 + " + PS + "[(P, who)].0, (P, who))")
    v.must("@write('dex_general::BootstrapPersonalSupply.1', C1 + " + PS + "[(P, who)].1, (P, who))")
    v.must("@write('dex_general::PairStatuses', PairStatus::Bootstrap(B.{accumulated_supply: (B.accumulated_supply.0 + C0, B.accumulated_supply.1 + C1)}), P)",
           why="the total is the sum of the contributions")
    v.count("@write('dex_general::PairStatuses', ..)", 1)
    v.must("Self::deposit_event(Event::BootstrapContribute{who: who, asset_0: P.0, asset_1: P.1, asset_0_contribute: C0, asset_1_contribute: C1})")
    # the end
    v = c.fn(D + "do_end_bootstrap", args="x,y", opaque=OPS)
    pair(v)
    v.let("B", "S#PairStatus::Bootstrap").let("ACC", D + "pair_account_id(P.0, P.1)").let("N", D + "calculate_liquidity(B.accumulated_supply.0, B.accumulated_supply.1, 0, 0, 0)")
    v.requires("S is PairStatus::Bootstrap")
    v.requires("B.end_block_number <= " + BLOCK)
    v.requires("B.target_supply.0 <= B.accumulated_supply.0")
    v.requires("B.target_supply.1 <= B.accumulated_supply.1")
    v.requires("1 <= N")
    v.requires(D + "LiquidityPairs[P] is Some")
    v.requires(MC + "transfer(P.0, B.pair_account, ACC, B.accumulated_supply.0) is Ok", why="all that was contributed becomes the reserves")
    v.requires(MC + "transfer(P.1, B.pair_account, ACC, B.accumulated_supply.1) is Ok")
    v.requires(MC + "deposit(" + D + "LiquidityPairs[P]#Some, ACC, N) is Ok")
    v.must("@write('dex_general::PairStatuses', PairStatus::Trading(PairMetadata{fee_rate: 30, pair_account: ACC, total_supply: N}), P)")
    v.accepts(["S is PairStatus::Bootstrap", "B.end_block_number <= " + BLOCK, "B.target_supply.0 <= B.accumulated_supply.0", "B.target_supply.1 <= B.accumulated_supply.1", "1 <= N",
               D + "LiquidityPairs[P] is Some", MC + "transfer(P.0, B.pair_account, ACC, B.accumulated_supply.0) is Ok", MC + "transfer(P.1, B.pair_account, ACC, B.accumulated_supply.1) is Ok",
               MC + "deposit(" + D + "LiquidityPairs[P]#Some, ACC, N) is Ok"], explicit=True, why="reaching the targets is enough")
    v.must("@write('dex_general::BootstrapEndStatus', PairStatus::Bootstrap(B), P)", why="claims are shares of the totals at the end")
    v.must("Self::deposit_event(Event::BootstrapEnd{asset_0: P.0, asset_0_amount: B.accumulated_supply.0, asset_1: P.1, asset_1_amount: B.accumulated_supply.1, total_lp_supply: N})")
    v.count(MC + "transfer(..)", 2)
    v.count(MC + "deposit(..)", 1)
    v = c.fn(D + "bootstrap_end", args="o,x,y", opaque=OPS + INNER)
    v.requires("frame_system::ensure_signed(o) is Ok")
    v.requires(D + "mutate_lp_pairs(x, y) is Ok")
    v.requires(D + "do_end_bootstrap(x, y) is Ok")
    # claims
    v = c.fn(D + "do_bootstrap_claim", args="who,to,x,y", opaque=OPS)
    pair(v)
    v.let("E", D + "BootstrapEndStatus[P]").let("B", "E#PairStatus::Bootstrap").let("MINE", PS + "[(P, who)]").let("T0", "B.accumulated_supply.0").let("T1", "B.accumulated_supply.1")
    v.let("V", "(MINE.0 * T1 + MINE.1 * T0)").let("N", "((V / (T1 * 2)) * (V / (T0 * 2))).integer_sqrt()")
    v.requires("S is PairStatus::Trading")
    v.requires("E is PairStatus::Bootstrap")
    v.requires("!" + D + "bootstrap_disable(B)")
    v.requires("@has(MINE)")
    v.requires(MC + "transfer(" + D + "LiquidityPairs[P]#Some, " + D + "pair_account_id(P.0, P.1), to, N) is Ok", why="half the share of each side, rounded down")
    v.requires(D + "bootstrap_distribute_reward(who, B.pair_account, P.0, P.1, N, (T1 * T0).integer_sqrt()) is Ok")
    v.must("@delete('dex_general::BootstrapPersonalSupply', (P, who))", why="a contribution is claimed once")
    v.count(MC + "transfer(..)", 1)
    v.must("Self::deposit_event(Event::BootstrapClaim{asset_0: P.0, asset_0_refund: MINE.0, asset_1: P.1, asset_1_refund: MINE.1, bootstrap_pair_account: "
           + D + "pair_account_id(P.0, P.1), claimer: who, lp_amount: N, receiver: to})")
    v = c.fn(D + "bootstrap_claim", opaque=OPS + INNER)
    v.requires(SIGNED + " is Ok")
    v.requires(DEST + " is Ok")
    v.requires(BLOCK + " < deadline")
    v.requires(D + "do_bootstrap_claim(" + SIGNED + ", " + DEST + ", asset_0, asset_1) is Ok")
    v = c.fn(D + "do_bootstrap_refund", args="who,x,y", opaque=OPS)
    pair(v)
    v.let("E", D + "BootstrapEndStatus[P]").let("MINE", PS + "[(P, who)]").let("B", "S#PairStatus::Bootstrap")
    v.requires("@has(MINE)")
    v.requires("!(S is PairStatus::Bootstrap) || " + D + "bootstrap_disable(B)", why="only of a bootstrap that failed")
    v.requires("S is PairStatus::Bootstrap || E is PairStatus::Bootstrap")
    v.requires("S is PairStatus::Bootstrap || " + D + "bootstrap_disable(E#PairStatus::Bootstrap)")
    v.requires(MC + "transfer(P.0, " + BOOT + ", who, MINE.0) is Ok", why="exactly what was contributed")
    v.requires(MC + "transfer(P.1, " + BOOT + ", who, MINE.1) is Ok")
    v.count(MC + "transfer(..)", 2)
    v.must("@delete('dex_general::BootstrapPersonalSupply', (P, who))", why="once")
    v.must("@write('dex_general::PairStatuses', PairStatus::Bootstrap(B.{accumulated_supply: B.accumulated_supply.{0: B.accumulated_supply.0 - MINE.0}.{1: B.accumulated_supply.1 - MINE.1}}), P)",
           when=["S is PairStatus::Bootstrap"], why="the total is the sum of the contributions left")
    v.must("Self::deposit_event(Event::BootstrapRefund{asset_0: P.0, asset_0_refund: MINE.0, asset_1: P.1, asset_1_refund: MINE.1, bootstrap_pair_account: " + BOOT + ", caller: who})")
    v = c.fn(D + "bootstrap_refund", args="o,x,y", opaque=OPS + INNER)
    v.requires("frame_system::ensure_signed(o) is Ok")
    v.requires(D + "do_bootstrap_refund(frame_system::ensure_signed(o), x, y) is Ok")
    # rewards
    v = c.fn(D + "bootstrap_distribute_reward", args="who,from,x,y,n,s", opaque=OPS)
    pair(v)
    v.let("R", D + "BootstrapRewards[P]").let("PART", "(n * elem(R).1 / s)")
    v.requires("@forall(R, " + MC + "transfer(elem(R).0, from, who, PART) is Ok)", why="a share of each reward, rounded down")
    v.requires("@forall(R, @tryconv(PART) is Ok)")
    v.count(MC + "transfer(..)", 1)
    v.must("Self::deposit_event(Event::DistributeReward{asset_0: P.0, asset_1: P.1, reward_holder: from, rewards: @mapit(R, (elem(R).0, PART))})", when=["!(@len(R) == 0)"])
    v.must("@write('dex_general::BootstrapRewards', ..)", why="what was paid can no longer be withdrawn")
    v = c.fn(D + "bootstrap_charge_reward", args="o,x,y,r", opaque=OPS)
    pair(v)
    v.let("WHO", "frame_system::ensure_signed(o)")
    v.requires("WHO is Ok")
    v.requires("@len(r) == @len(" + D + "BootstrapRewards[P]) ")
    v.requires("@forall(r, " + MC + "transfer(elem(r).0, WHO, " + BOOT + ", elem(r).1) is Ok)", why="what is credited is paid")
    v.count(MC + "transfer(..)", 1)
    v.must("@write('dex_general::BootstrapRewards', fold(r, " + D + "BootstrapRewards[P], @mut('try_insert', @acc(0, _), elem(r).0, elem(r).1 + @acc(0, _)[elem(r).0])), P)",
           why="in addition to what was charged before")
    v.must("Self::deposit_event(Event::ChargeReward{asset_0: P.0, asset_1: P.1, who: WHO, charge_rewards: r})")
    v = c.fn(D + "bootstrap_withdraw_reward", args="o,x,y,recipient", opaque=OPS)
    pair(v)
    v.let("R", D + "BootstrapRewards[P]")
    v.requires("frame_system::ensure_root(o) is Ok")
    v.requires(DEST + " is Ok")
    v.requires("@forall(R, " + MC + "transfer(elem(R).0, " + BOOT + ", " + DEST + ", elem(R).1) is Ok)")
    v.count(MC + "transfer(..)", 1)
    v.must("@write('dex_general::BootstrapRewards', @mapit(R, (elem(R).0, 0)), P)", why="what was withdrawn is no longer there")
    v.must("Self::deposit_event(Event::WithdrawReward{asset_0: P.0, asset_1: P.1, recipient: " + DEST + "})")
    c.only_writers("dex_general::BootstrapPersonalSupply", {D + "do_bootstrap_contribute", D + "do_bootstrap_claim", D + "do_bootstrap_refund"})
    c.only_writers("dex_general::BootstrapEndStatus", {D + "do_end_bootstrap", D + "create_pair"})
    c.only_writers("dex_general::BootstrapLimits", {D + "bootstrap_create", D + "bootstrap_update"})


@prop("Q04")
def administration(c):
    ROOT = "frame_system::ensure_root(o) is Ok"
    c.const_is("dex_general", "FEE_ADJUSTMENT", 10000)
    c.const_is("dex_general", "DEFAULT_FEE_RATE", 30)
    v = c.fn(D + "set_fee_receiver", args="o,to", opaque=OPS)
    v.requires(ROOT)
    v.requires("!(to is Some) || T::Lookup::lookup(to#Some) is Ok")
    v.must("@write('dex_general::FeeMeta.0', (if (to is Some) {Some(T::Lookup::lookup(to#Some))} else {to}))"
           + " ||| @write('dex_general::FeeMeta.0', (if (to is Some) {Some(T::Lookup::lookup(to#Some))} else {None}))")
    v = c.fn(D + "set_fee_point", args="o,n", opaque=OPS)
    v.requires(ROOT)
    v.must("@write('dex_general::FeeMeta.1', n)")
    v.must("Self::deposit_event(Event::NewFeePoint{new_fee_point: n})")
    v = c.fn(D + "set_exchange_fee", args="o,x,y,n", opaque=OPS)
    pair(v)
    v.requires(ROOT)
    v.requires("n <= 9999", why="something of the input is always traded")
    v.accepts([ROOT, "n <= 9999", "S is PairStatus::Trading"], explicit=True)
    v.requires("S is PairStatus::Trading")
    v.must("@write('dex_general::PairStatuses', PairStatus::Trading(PairMetadata{fee_rate: n, pair_account: S#PairStatus::Trading.pair_account, total_supply: S#PairStatus::Trading.total_supply}), P)"
           + " ||| @write('dex_general::PairStatuses', PairStatus::Trading(S#PairStatus::Trading.{fee_rate: n}), P)", why="the supply stays")
    v.must("Self::deposit_event(Event::NewFeeRate{asset_0: x, asset_1: y, new_fee_rate: n})")
    v = c.fn(D + "create_pair", args="o,x,y,n", opaque=OPS)
    pair(v)
    v.requires(ROOT)
    v.requires("!(x == y)")
    v.requires("n <= 9999")
    v.requires("T::EnsurePairAsset::validate_asset(x)")
    v.requires("T::EnsurePairAsset::validate_asset(y)")
    v.requires("!(S is PairStatus::Trading)", why="a pair's supply is never reset")
    v.requires("!(S is PairStatus::Bootstrap) || " + D + "bootstrap_disable(S#PairStatus::Bootstrap)")
    v.requires(D + "mutate_lp_pairs(x, y) is Ok")
    v.must("@write('dex_general::PairStatuses', PairStatus::Trading(PairMetadata{fee_rate: n, pair_account: " + D + "pair_account_id(P.0, P.1), total_supply: 0}), P)")
    v.must("@write('dex_general::BootstrapEndStatus', PairStatus::Bootstrap(S#PairStatus::Bootstrap), P)", when=["S is PairStatus::Bootstrap"], why="contributions to the failed bootstrap can still be refunded")
    v.must("Self::deposit_event(Event::PairCreated{asset_0: x, asset_1: y, fee_rate: n})")
    ARGS = "o,x,y,t0,t1,c0,c1,end,rewards,limits"
    for name in ("bootstrap_create", "bootstrap_update"):
        v = c.fn(D + name, args=ARGS, opaque=OPS)
        pair(v)
        for q, a, b in (("T0", "t0", "t1"), ("T1", "t1", "t0"), ("C0", "c0", "c1"), ("C1", "c1", "c0")):
            v.let(q, "(if (x == P.0) {%s} else {%s})" % (a, b))
        v.requires(ROOT)
        v.requires("!(S is PairStatus::Trading)")
        v.requires("@tryconv(limits) is Ok")
        v.requires("@tryconv(@mapit(rewards, (elem(rewards), 0))) is Ok")
        v.must("@write('dex_general::BootstrapRewards', @mapit(rewards, (elem(rewards), 0)), P)")
        v.must("@write('dex_general::BootstrapLimits', limits, P)")
        kept = "S#PairStatus::Bootstrap.accumulated_supply"
        if name == "bootstrap_create":
            kept = "(if (S is PairStatus::Bootstrap) {S#PairStatus::Bootstrap.accumulated_supply} else {(0, 0)})"
            v.requires("!(S is PairStatus::Bootstrap) || " + D + "bootstrap_disable(S#PairStatus::Bootstrap)")
            v.requires("!(S is PairStatus::Bootstrap) || @forall(" + D + "BootstrapRewards[P], elem(" + D + "BootstrapRewards[P]).1 == 0)", why="rewards that were charged are not forgotten")
            who, kind, tail = D + "bootstrap_account_id()", "BootstrapCreated", ""
        else:
            v.requires("S is PairStatus::Bootstrap")
            v.requires("@forall(" + D + "BootstrapRewards[P], elem(" + D + "BootstrapRewards[P]).1 == 0)", why="rewards that were charged are not forgotten")
            who, kind = D + "pair_account_id(x, y)", "BootstrapUpdate"
        v.must("@write('dex_general::PairStatuses', PairStatus::Bootstrap(BootstrapParameter{accumulated_supply: " + kept
               + ", capacity_supply: (C0, C1), end_block_number: end, pair_account: " + D + "bootstrap_account_id(), target_supply: (T0, T1)}), P)",
               why="contributions made before count")
        v.count("@write('dex_general::PairStatuses', ..)", 1)
        v.must("Self::deposit_event(Event::" + kind + "{asset_0: P.0, asset_1: P.1, bootstrap_pair_account: " + who
               + ", capacity_supply_0: C0, capacity_supply_1: C1, end: end, total_supply_0: T0, total_supply_1: T1})")
    c.only_writers("dex_general::FeeMeta", {D + "set_fee_receiver", D + "set_fee_point", D + "GenesisConfig::build"})
    v = c.fn(D + "GenesisConfig::build", args="")
    v.must("@write('dex_general::FeeMeta', (self.fee_receiver, self.fee_point))")
    for rt in ("kintsugi", "interlay"):
        v = c.fn(rt + "_runtime_parachain::PairLpIdentity::generate_lp_asset_id", args="x,y")
        v.returns(rt + "_runtime_parachain::CurrencyId::join_lp_token(x, y)")
