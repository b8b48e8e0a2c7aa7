from iba.rules import prop

L = "loans::"
TR = L + "LoansTrait::"
A = "currency::Amount::"
POT = "@cfg('PalletId').into_account_truncating()"
FARM = "@cfg('PalletId').into_sub_account_truncating('6661726d696e67')"
INCENTIVE = "@cfg('PalletId').into_sub_account_truncating('696e63656e74697665')"
EACH = "elem(@iterst('iter', 'loans::Markets'))"
MARKETS = "@iterst('iter', 'loans::Markets')"
NOW = "T::UnixTime::now().as_secs()"
LAST = "loans::LastAccruedInterestTime"
OPS = ("ensure_active_market", "accrue_interest", "update_reward_supply_index", "update_reward_borrow_index", "distribute_supplier_reward",
       "distribute_borrower_reward", "current_borrow_balance", "total_borrows", "total_reserves", "account_deposits", "get_total_cash", "balance",
       "to_lend_token", "to_underlying", "get_asset_value", "lend_token_id", "underlying_id", "total_supply", "market")
LIQ = ("total_borrowed_value", "total_collateral_value", "total_liquidation_threshold_value", "collateral_amount_value", "ensure_liquidity",
       "ensure_under_supply_cap", "ensure_under_borrow_cap", "ensure_enough_cash", "redeem_allowed", "borrow_allowed", "liquidate_borrow_allowed",
       "free_lend_tokens", "reserved_lend_tokens")
WRITES = ("AccountBorrows", "TotalBorrows")


def snapshot(v, asset, who, principal, total):
    v.must("@write('loans::AccountBorrows', BorrowSnapshot{principal: %s, borrow_index: loans::BorrowIndex[%s]}, %s, %s)" % (principal, asset, asset, who),
           why="a debt is stored with the index up to which it has grown")
    v.must("@write('loans::TotalBorrows', %s, %s)" % (total, asset), why="the market's total follows its debts")
    for w in WRITES:
        v.count("@write('loans::%s', ..)" % w, 1)


@prop("L01")
def borrowing(c):
    v = c.fn(TR + "do_borrow", args="who,b", opaque=OPS + LIQ)
    v.let("C", A + "currency(b)")
    CALLS = [L + "ensure_active_market(C)", L + "accrue_interest(C)", L + "borrow_allowed(who, b)", L + "update_reward_borrow_index(C)", L + "distribute_borrower_reward(C, who)"]
    for x in CALLS:
        v.requires(x + " is Ok")
    v.requires(A + "transfer(b, " + POT + ", who) is Ok", why="the borrower gets what it owes")
    v.count(A + "transfer(..)", 1)
    snapshot(v, "C", "who", A + "amount(" + L + "current_borrow_balance(who, C) + b)", A + "amount(" + L + "total_borrows(C) + b)")
    v.order(CALLS[1], CALLS[2], why="limits are checked against the interest of now")
    v.order(CALLS[1], CALLS[3])
    v.order(CALLS[1], L + "current_borrow_balance(..)")
    v.order(CALLS[2], "@write('loans::AccountBorrows', ..)")
    v.order(CALLS[3], CALLS[4])
    v.order(CALLS[4], "@write('loans::AccountBorrows', ..)", why="rewards are settled on the debt before it changes")
    v.must("Self::deposit_event(Event::Borrowed{account_id: who, currency_id: C, amount: " + A + "amount(b)})")
    v = c.fn(L + "borrow_allowed", args="who,b", opaque=OPS + LIQ)
    v.requires(L + "ensure_under_borrow_cap(b) is Ok")
    v.requires(L + "ensure_enough_cash(b) is Ok")
    v.requires(L + "get_asset_value(b) is Ok")
    v.requires(L + "ensure_liquidity(who, " + L + "get_asset_value(b)) is Ok", why="the new debt is covered by the account's collateral")
    v = c.fn(L + "ensure_liquidity", args="who,n", opaque=OPS + LIQ)
    v.requires("n <= @satsub(" + L + "total_collateral_value(who), " + L + "total_borrowed_value(who))", why="only collateral above the present debts counts")
    v.accepts(["n <= @satsub(" + L + "total_collateral_value(who), " + L + "total_borrowed_value(who))", L + "total_collateral_value(who) is Ok", L + "total_borrowed_value(who) is Ok",
               "@noovf(" + L + "total_collateral_value(who) - " + L + "total_borrowed_value(who))", "@noovf(" + L + "total_borrowed_value(who) - " + L + "total_collateral_value(who))"], explicit=True, why="all of it counts")
    v.requires(L + "total_collateral_value(who) is Ok")
    v.requires(L + "total_borrowed_value(who) is Ok")
    v = c.fn(L + "ensure_under_borrow_cap", args="b", opaque=OPS)
    v.requires(A + "amount(" + L + "total_borrows(" + A + "currency(b)) + b) <= " + L + "market(" + A + "currency(b)).borrow_cap")
    v.accepts([A + "amount(" + L + "total_borrows(" + A + "currency(b)) + b) <= " + L + "market(" + A + "currency(b)).borrow_cap", L + "market(" + A + "currency(b)) is Ok"], explicit=True, why="the whole cap can be borrowed")
    v = c.fn(L + "ensure_enough_cash", args="b", opaque=OPS)
    v.requires("b + " + L + "total_reserves(" + A + "currency(b)) <= " + L + "get_total_cash(" + A + "currency(b))", why="the reserves are not lent out")
    v.accepts(["b + " + L + "total_reserves(" + A + "currency(b)) <= " + L + "get_total_cash(" + A + "currency(b))"], explicit=True, why="the rest is")
    v = c.fn(L + "get_total_cash", args="x")
    v.returns("@amount(Pallet::reducible_balance(x, " + POT + ", Preservation::Expendable, Fortitude::Polite), x)")
    ACTIVE = EACH + ".1.state is MarketState::Active"
    v = c.fn(L + "total_borrowed_value", args="who", opaque=OPS)
    v.let("D", L + "current_borrow_balance(who, " + EACH + ".0)")
    v.returns("fold(" + MARKETS + ", 0, (if (" + ACTIVE + " && !(D == 0)) {acc(0, _) + " + L + "get_asset_value(D)} else {acc(0, _)}))"
              + " ||| fold(" + MARKETS + ", 0, (if (" + ACTIVE + ") {acc(0, _) + " + L + "get_asset_value(D)} else {acc(0, _)}))", why="every debt counts")
    v.requires("@forall(" + MARKETS + ", !(" + ACTIVE + ") || D is Ok)")
    v.requires("@forall(" + MARKETS + ", !(" + ACTIVE + ") || D == 0 || " + L + "get_asset_value(D) is Ok)", why="no debt is left out for want of a price")
    for name, val, fac in (("total_collateral_value", "collateral_asset_value", "collateral_factor"), ("total_liquidation_threshold_value", "liquidation_threshold_asset_value", "liquidation_threshold")):
        v = c.fn(L + name, args="who", opaque=OPS + (val,))
        v.let("V", L + val + "(who, " + EACH + ".0)")
        v.returns("fold(" + MARKETS + ", 0, (if (" + ACTIVE + ") {acc(0, _) + V} else {acc(0, _)}))", why="collateral counts in active markets only, once each")
        v.requires("@forall(" + MARKETS + ", !(" + ACTIVE + ") || V is Ok)")
        v = c.fn(L + val, args="who,x", opaque=OPS)
        v.let("DEP", L + "account_deposits(" + L + "lend_token_id(x), who)").let("U", L + "to_underlying(DEP)").let("U", L + "Amount::to_underlying(DEP)")
        m = L + "market(" + A + "currency(U))" if val == "collateral_asset_value" else L + "market(x)"
        v.returns(L + "get_asset_value(@amount(" + m + "." + fac + ".mul_ceil(" + A + "amount(U)), " + A + "currency(U)))",
                  when=["DEP != 0"] + ([] if val == "collateral_asset_value" else ["@has(loans::AccountDeposits[" + L + "lend_token_id(x), who])"]),
                  why="a deposit backs debt only up to the market's factor")
        v.returns("0", when="DEP == 0")
    v = c.fn(L + "account_deposits", args="x,who")
    v.returns("@amount(loans::AccountDeposits[x, who], x)", why="only lend tokens locked as collateral back a debt")
    for n in ("total_borrows", "total_reserves"):
        v = c.fn(L + n, args="x")
        v.returns("@amount(loans::T" + n[1:].replace("_b", "B").replace("_r", "R") + "[x], x)")
    v = c.fn(L + "collateral_amount_value", args="n", opaque=OPS)
    v.let("U", L + "Amount::to_underlying(n)")
    v.returns(L + "get_asset_value(@amount(" + L + "market(" + A + "currency(U)).collateral_factor.mul_ceil(" + A + "amount(U)), " + A + "currency(U)))")
    v = c.fn(L + "get_asset_value", args="n")
    v.returns(A + "convert_to(n, @cfg('ReferenceAssetId'))", why="all values are in one currency")
    v = c.fn(L + "current_borrow_balance", args="who,x", opaque=("borrow_balance_from_old_and_new_index",))
    v.let("S", "loans::AccountBorrows[x, who]")
    v.returns(L + "borrow_balance_from_old_and_new_index(S.borrow_index, loans::BorrowIndex[x], @amount(S.principal, x), Rounding::Up)",
              when=["S.principal != 0", "S.borrow_index != 0"], why="a debt is never rounded down")
    v.returns("0", when="S.principal == 0")
    v = c.fn(L + "borrow_balance_from_old_and_new_index", args="o,n,a,r")
    v.returns(A + "checked_rounded_mul(a, n / o, r)", why="a debt grows as the market's index does")
    v.requires("@noovf(n / o)")
    v = c.fn(L + "borrow", args="o,x,n", opaque=OPS + ("do_borrow",))
    v.requires("frame_system::ensure_signed(o) is Ok")
    v.requires("n != 0")
    v.requires(TR + "do_borrow(frame_system::ensure_signed(o), @amount(n, x)) is Ok")
    v = c.fn(L + "AccountLiquidity::from_collateral_and_debt", args="k,d")
    v.returns("AccountLiquidity::Liquidity(k - d)", when="d < k")
    v.returns("AccountLiquidity::Shortfall(d - k)", when="k <= d")
    v = c.fn(L + "AccountLiquidity::liquidity", args="s")
    v.returns("s#AccountLiquidity::Liquidity", when="s is AccountLiquidity::Liquidity")
    v.returns("0", when="s is AccountLiquidity::Shortfall")
    v = c.fn(L + "AccountLiquidity::shortfall", args="s")
    v.returns("s#AccountLiquidity::Shortfall", when="s is AccountLiquidity::Shortfall")
    v.returns("0", when="s is AccountLiquidity::Liquidity")
    v = c.fn(L + "active_markets")
    v.returns("filter(" + MARKETS + ", " + ACTIVE + ")")
    v = c.fn(L + "ensure_active_market", args="x", opaque=("market",))
    v.requires("@exists(" + MARKETS + ", " + EACH + ".0 == x && " + ACTIVE + ")", why="a market that is pending takes no part")
    c.only_writers("loans::AccountBorrows", [TR + "do_borrow", L + "do_repay_borrow_with_amount", L + "liquidated_transfer"])
    c.only_writers("loans::TotalBorrows", [TR + "do_borrow", L + "do_repay_borrow_with_amount", L + "liquidated_transfer", L + "accrue_interest"])


@prop("L02")
def repaying(c):
    v = c.fn(L + "do_repay_borrow_with_amount", args="who,x,d,n", opaque=OPS)
    v.requires("n <= d", why="nobody repays more than the debt")
    v.requires(L + "update_reward_borrow_index(x) is Ok")
    v.requires(L + "distribute_borrower_reward(x, who) is Ok")
    v.requires(A + "transfer(n, who, " + POT + ") is Ok", why="a debt shrinks only by what is paid in")
    snapshot(v, "x", "who", A + "amount(d - n)", A + "amount(@satsub(" + L + "total_borrows(x), n))")
    v.accepts(["n <= d", L + "update_reward_borrow_index(x) is Ok", L + "distribute_borrower_reward(x, who) is Ok", A + "transfer(n, who, " + POT + ") is Ok"],
              explicit=True, why="a debt can always be repaid")
    v.order(L + "update_reward_borrow_index(x)", L + "distribute_borrower_reward(x, who)")
    v.order(L + "distribute_borrower_reward(x, who)", "@write('loans::AccountBorrows', ..)", why="rewards are settled on the debt before it changes")
    v = c.fn(TR + "do_repay_borrow", args="who,n", opaque=OPS + ("do_repay_borrow_with_amount",))
    v.let("C", A + "currency(n)")
    REP = L + "do_repay_borrow_with_amount(who, C, " + L + "current_borrow_balance(who, C), n)"
    for x in (L + "ensure_active_market(C)", L + "accrue_interest(C)", REP):
        v.requires(x + " is Ok")
    v.order(L + "accrue_interest(C)", L + "current_borrow_balance(who, C)", why="the debt includes the interest of now")
    v.must("Self::deposit_event(Event::RepaidBorrow{account_id: who, currency_id: C, amount: " + A + "amount(n)})")
    v = c.fn(L + "repay_borrow", args="o,x,n", opaque=OPS + ("do_repay_borrow",))
    v.requires("n != 0")
    v.requires(TR + "do_repay_borrow(frame_system::ensure_signed(o), @amount(n, x)) is Ok")
    v = c.fn(L + "repay_borrow_all", args="o,x", opaque=OPS + ("do_repay_borrow",))
    v.let("D", L + "current_borrow_balance(frame_system::ensure_signed(o), x)")
    v.requires("D != 0")
    v.requires(L + "ensure_active_market(x) is Ok")
    v.requires(TR + "do_repay_borrow(frame_system::ensure_signed(o), D) is Ok", why="the whole debt is repaid")
    v.order(L + "accrue_interest(x)", "D")


@prop("L03")
def liquidation(c):
    v = c.fn(L + "liquidate_borrow_allowed", args="who,n,m", opaque=OPS + LIQ)
    v.let("D", L + "current_borrow_balance(who, " + A + "currency(n))")
    v.requires(L + "total_liquidation_threshold_value(who) < " + L + "total_borrowed_value(who)", why="only an account below the liquidation threshold is liquidated")
    v.requires(L + "get_asset_value(n) <= m.close_factor.mul_ceil(" + L + "get_asset_value(D))", why="one liquidation repays no more than the close factor allows")
    for x in (L + "total_liquidation_threshold_value(who)", L + "total_borrowed_value(who)", "D", L + "get_asset_value(D)", L + "get_asset_value(n)"):
        v.requires(x + " is Ok")
    v.accepts([L + "total_liquidation_threshold_value(who) < " + L + "total_borrowed_value(who)", L + "get_asset_value(n) <= m.close_factor.mul_ceil(" + L + "get_asset_value(D))"]
              + [x + " is Ok" for x in (L + "total_liquidation_threshold_value(who)", L + "total_borrowed_value(who)", "D", L + "get_asset_value(D)", L + "get_asset_value(n)")]
              + ["@noovf(" + L + "total_borrowed_value(who) - " + L + "total_liquidation_threshold_value(who))"], explicit=True, why="bad debt can be liquidated by anyone")
    v = c.fn(L + "do_liquidate_borrow", args="l,b,n,k", opaque=OPS + LIQ + ("liquidated_transfer",))
    v.let("C", A + "currency(n)").let("M", L + "market(C)").let("DEP", L + "account_deposits(" + L + "lend_token_id(k), b)")
    v.let("SEIZE", A + "checked_rounded_mul(" + L + "get_asset_value(n), M.liquidate_incentive, Rounding::Down)")
    v.requires(L + "ensure_active_market(C) is Ok")
    v.requires(L + "ensure_active_market(k) is Ok")
    v.requires("b != l", why="nobody liquidates itself")
    v.requires(L + "liquidate_borrow_allowed(b, n, M) is Ok")
    v.requires("DEP != 0", why="only what was deposited as collateral is seized")
    v.requires("SEIZE <= " + L + "get_asset_value(" + L + "Amount::to_underlying(DEP))", why="no more is seized than the collateral is worth")
    v.requires(L + "liquidated_transfer(l, b, n, " + A + "convert_to(SEIZE, k), M) is Ok", why="what is seized is worth the repaid debt plus the incentive")
    v.accepts([L + "ensure_active_market(C) is Ok", L + "ensure_active_market(k) is Ok", "M is Ok", "b != l", L + "liquidate_borrow_allowed(b, n, M) is Ok", L + "lend_token_id(k) is Ok", "DEP != 0",
               L + "Amount::to_underlying(DEP) is Ok", L + "get_asset_value(" + L + "Amount::to_underlying(DEP)) is Ok", L + "get_asset_value(n) is Ok", "SEIZE is Ok",
               "SEIZE <= " + L + "get_asset_value(" + L + "Amount::to_underlying(DEP))", A + "convert_to(SEIZE, k) is Ok", L + "liquidated_transfer(l, b, n, " + A + "convert_to(SEIZE, k), M) is Ok"], explicit=True,
              why="even all of the collateral can be seized")
    v = c.fn(L + "liquidated_transfer", args="l,b,n,k,m", opaque=OPS)
    v.let("C", A + "currency(n)").let("K", A + "currency(k)").let("T", L + "Amount::to_lend_token(k)").let("LT", L + "lend_token_id(K)")
    v.let("RES", A + "mul_ratio_floor(" + A + "checked_div(T, m.liquidate_incentive), m.liquidate_incentive_reserved_factor)")
    for x in (L + "update_reward_borrow_index(C)", L + "distribute_borrower_reward(C, b)", L + "update_reward_supply_index(K)", L + "distribute_supplier_reward(K, l)",
              L + "distribute_supplier_reward(K, b)", L + "distribute_supplier_reward(K, " + INCENTIVE + ")"):
        v.requires(x + " is Ok")
    v.requires(A + "transfer(n, l, " + POT + ") is Ok", why="the liquidator pays the debt")
    snapshot(v, "C", "b", A + "amount(" + L + "current_borrow_balance(b, C) - n)", A + "amount(@satsub(" + L + "total_borrows(C), n))")
    v.order(L + "update_reward_borrow_index(C)", L + "distribute_borrower_reward(C, b)")
    v.order(L + "distribute_borrower_reward(C, b)", "@write('loans::AccountBorrows', ..)", why="rewards are settled on the debt before it changes")
    v.order(L + "update_reward_supply_index(K)", L + "distribute_supplier_reward(K, l)")
    v.order(L + "distribute_supplier_reward(K, b)", A + "transfer(T - RES, b, l)")
    v.must("@write('loans::AccountDeposits', (if (@has(loans::AccountDeposits[LT, b])) {loans::AccountDeposits[LT, b]} else {@default()}) - " + A + "amount(T), LT, b)"
           " ||| @write('loans::AccountDeposits', loans::AccountDeposits[LT, b] - " + A + "amount(T), LT, b)", why="the seized collateral leaves the borrower's deposit")
    v.requires(A + "unlock_on(T, b) is Ok")
    v.requires(A + "transfer(T - RES, b, l) is Ok", why="the liquidator gets what is seized less the reserve's share")
    v.requires(A + "transfer(RES, b, " + INCENTIVE + ") is Ok")
    v.count(A + "transfer(..)", 3)
    v.order(A + "unlock_on(T, b)", A + "transfer(T - RES, b, l)")
    v.must("Self::deposit_event(Event::LiquidatedBorrow{liquidator: l, borrower: b, liquidation_currency_id: C, collateral_currency_id: K, repay_amount: " + A + "amount(n), collateral_underlying_amount: " + A + "amount(k)})")
    v = c.fn(L + "liquidate_borrow", args="o,b,x,n,k", opaque=OPS + ("do_liquidate_borrow",))
    DO = L + "do_liquidate_borrow(frame_system::ensure_signed(o), b, @amount(n, x), k)"
    v.requires("n != 0")
    v.requires(DO + " is Ok")
    for y in ("x", "k"):
        v.requires(L + "accrue_interest(" + y + ") is Ok")
        v.order(L + "accrue_interest(" + y + ")", DO, why="both markets are up to date before the check")
    c.only_callers(L + "liquidated_transfer", [L + "do_liquidate_borrow"])


@prop("L04")
def supply(c):
    v = c.fn(TR + "do_mint", args="who,n", opaque=OPS + LIQ)
    v.let("C", A + "currency(n)").let("T", L + "Amount::to_lend_token(n)")
    SEQ = [L + "accrue_interest(C)", L + "update_reward_supply_index(C)", L + "distribute_supplier_reward(C, who)"]
    for x in [L + "ensure_active_market(C)", L + "ensure_under_supply_cap(n)"] + SEQ:
        v.requires(x + " is Ok")
    v.requires("T != 0", why="nobody supplies for nothing")
    v.requires(A + "transfer(n, who, " + POT + ") is Ok", why="lend tokens are created only against what is paid in")
    v.requires(A + "mint_to(T, who) is Ok")
    v.count(A + "mint_to(..)", 1)
    v.count(A + "transfer(..)", 1)
    v.order(SEQ[0], "T", why="the exchange rate is that of now")
    v.order("T", A + "transfer(n, who, " + POT + ")", why="the rate is taken before the payment changes it")
    v.order(SEQ[1], SEQ[2])
    v.order(SEQ[2], A + "mint_to(T, who)")
    v.must("Self::deposit_event(Event::Deposited{account_id: who, currency_id: C, amount: " + A + "amount(n)})")
    v = c.fn(TR + "do_redeem", args="who,n,t", opaque=OPS + LIQ + ("do_withdraw_collateral",))
    v.let("C", A + "currency(n)").let("DEP", L + "account_deposits(" + A + "currency(t), who)")
    WD = TR + "do_withdraw_collateral(who, t)"
    SEQ = [L + "accrue_interest(C)", L + "redeem_allowed(who, t)", L + "update_reward_supply_index(C)", L + "distribute_supplier_reward(C, who)"]
    v.requires(L + "ensure_active_market(C) is Ok")
    v.requires("DEP == 0 || " + WD + " is Ok", why="collateral is freed only if the debts stay covered")
    for x in SEQ:
        v.requires(x + " is Ok")
    v.requires(A + "lock_on(t, who) is Ok")
    v.requires(A + "burn_from(t, who) is Ok", why="what is redeemed is destroyed")
    v.requires(A + "transfer(n, " + POT + ", who) is Ok")
    v.count(A + "transfer(..)", 1)
    v.count(A + "burn_from(..)", 1)
    v.order(SEQ[0], SEQ[1])
    v.order(SEQ[2], SEQ[3])
    v.order(SEQ[3], A + "burn_from(t, who)")
    v.order(A + "lock_on(t, who)", A + "burn_from(t, who)")
    v.must("Self::deposit_event(Event::Redeemed{account_id: who, currency_id: C, amount: " + A + "amount(n)})")
    v = c.fn(L + "redeem_allowed", args="who,t", opaque=OPS + LIQ)
    v.let("X", L + "LoansTrait::underlying_id(" + A + "currency(t))")
    v.requires("t != 0")
    v.requires("t <= " + L + "balance(" + A + "currency(t), who)")
    v.requires(L + "ensure_enough_cash(" + L + "Amount::to_underlying(t)) is Ok")
    v.requires("t <= " + L + "free_lend_tokens(X, who)", why="locked lend tokens are not redeemed")
    v.accepts(["X is Ok", "t != 0", "t <= " + L + "balance(" + A + "currency(t), who)", L + "Amount::to_underlying(t) is Ok", L + "ensure_enough_cash(" + L + "Amount::to_underlying(t)) is Ok",
               L + "free_lend_tokens(X, who) is Ok", "t <= " + L + "free_lend_tokens(X, who)"], explicit=True, why="every free lend token is redeemable")
    v = c.fn(L + "ensure_under_supply_cap", args="n", opaque=OPS)
    v.requires(A + "amount(n + " + L + "balance(" + A + "currency(n), " + POT + ")) <= " + L + "market(" + A + "currency(n)).supply_cap")
    v.accepts([A + "amount(n + " + L + "balance(" + A + "currency(n), " + POT + ")) <= " + L + "market(" + A + "currency(n)).supply_cap", L + "market(" + A + "currency(n)) is Ok"], explicit=True)
    v = c.fn(L + "mint", args="o,x,n", opaque=("do_mint",))
    v.requires("n != 0")
    v.requires(TR + "do_mint(frame_system::ensure_signed(o), @amount(n, x)) is Ok")
    v = c.fn(L + "redeem", args="o,x,n", opaque=OPS + ("do_redeem",))
    v.requires("n != 0")
    v.requires(TR + "do_redeem(frame_system::ensure_signed(o), @amount(n, x), " + L + "Amount::to_lend_token(@amount(n, x))) is Ok", why="what is paid out is what its lend tokens are worth")
    v = c.fn(L + "redeem_all", args="o,x", opaque=OPS + ("do_redeem",))
    v.let("B", L + "balance(" + L + "lend_token_id(x), frame_system::ensure_signed(o))")
    v.requires(TR + "do_redeem(frame_system::ensure_signed(o), " + L + "Amount::to_underlying(B), B) is Ok")
    v = c.fn(L + "reduce_incentive_reserves", args="o,r,x,n", opaque=OPS + ("do_redeem",))
    v.requires("T::ReserveOrigin::ensure_origin(o) is Ok")
    v.requires("n != 0")
    v.requires(TR + "do_redeem(" + INCENTIVE + ", @amount(n, x), " + L + "Amount::to_lend_token(@amount(n, x))) is Ok")
    v.requires(A + "transfer(@amount(n, x), " + INCENTIVE + ", T::Lookup::lookup(r)) is Ok")
    v.requires(L + "ensure_active_market(x) is Ok")
    v.requires(L + "accrue_interest(x) is Ok")
    v.order(L + "accrue_interest(x)", L + "Amount::to_lend_token(..)", why="the exchange rate is that of now")
    v.must("Self::deposit_event(Event::IncentiveReservesReduced{receiver: T::Lookup::lookup(r), currency_id: x, amount: n})")
    v = c.fn(L + "balance", args="x,who")
    v.returns("@amount(orml_tokens::Pallet::total_balance(x, who), x)")
    v = c.fn(L + "total_supply", args="x", opaque=("lend_token_id",))
    v.returns("@amount(Pallet::total_issuance(" + L + "lend_token_id(x)), " + L + "lend_token_id(x))")
    v = c.fn(L + "free_lend_tokens", args="x,who", opaque=("lend_token_id",))
    v.returns("@amount(Pallet::free_balance(" + L + "lend_token_id(x), who), " + L + "lend_token_id(x))")
    v = c.fn(L + "reserved_lend_tokens", args="x,who", opaque=("lend_token_id",))
    v.returns("@amount(Pallet::reserved_balance(" + L + "lend_token_id(x), who), " + L + "lend_token_id(x))")
    v = c.fn(L + "Amount::to_lend_token", args="n", opaque=("lend_token_id",))
    v.returns(A + "convert_to(n, " + L + "lend_token_id(" + A + "currency(n)))")
    v = c.fn(L + "Amount::to_underlying", args="n", opaque=("underlying_id",))
    v.returns(A + "convert_to(n, " + TR + "underlying_id(" + A + "currency(n)))")
    v = c.fn(TR + "recompute_underlying_amount", args="t", opaque=OPS + ("exchange_rate_stored",))
    v.let("X", TR + "underlying_id(" + A + "currency(t))")
    v.returns(A + "set_currency(" + A + "checked_rounded_mul(t, " + L + "exchange_rate_stored(X), Rounding::Down), X)")
    v.requires(L + "ensure_active_market(X) is Ok")
    v.requires(L + "accrue_interest(X) is Ok")
    v.order(L + "accrue_interest(X)", L + "exchange_rate_stored(X)", why="the exchange rate is that of now")
    v = c.fn(TR + "recompute_collateral_amount", args="n", opaque=OPS + ("exchange_rate_stored",))
    v.let("C", A + "currency(n)")
    v.returns(A + "set_currency(" + A + "checked_div(n, " + L + "exchange_rate_stored(C)), " + L + "lend_token_id(C))")
    v.requires(L + "ensure_active_market(C) is Ok")
    v.requires(L + "accrue_interest(C) is Ok")
    v.order(L + "accrue_interest(C)", L + "exchange_rate_stored(C)")
    v = c.fn(L + "exchange_rate_stored", args="x", opaque=OPS + ("calculate_exchange_rate",))
    v.returns(L + "calculate_exchange_rate(" + L + "total_supply(x), " + L + "get_total_cash(x), " + L + "total_borrows(x), " + L + "total_reserves(x))")
    v = c.fn(L + "calculate_exchange_rate", args="s,k,b,r")
    v.let("R", "interbtc_primitives::Rate::checked_from_rational(" + A + "amount(k + b - r), " + A + "amount(s))")
    v.returns("loans::MinExchangeRate", when="s == 0", why="the first supplier starts at the lowest rate")
    v.returns("R", when="s != 0", why="lend tokens share the market's cash and debts less its reserves")
    v.requires("s == 0 || loans::MinExchangeRate <= R")
    v.accepts(["s != 0", "R is Ok", "loans::MinExchangeRate <= R", "R < loans::MaxExchangeRate"], explicit=True)
    v.requires("s == 0 || R < loans::MaxExchangeRate", why="a rate blown up by a donation is refused")


@prop("L05")
def interest(c):
    v = c.fn(L + "accrue_interest", args="x", opaque=("get_market_status", "on_exchange_rate_change"))
    S = L + "get_market_status(x)"
    DUE = [LAST + "[x] != 0", LAST + "[x] < " + NOW]
    v.must("@write('" + LAST + "', " + NOW + ", x)", when=LAST + "[x] == 0")
    v.must("@write('" + LAST + "', " + NOW + ", x)", when=DUE, why="no time is counted twice")
    for n, i in (("TotalBorrows", 4), ("TotalReserves", 5), ("BorrowIndex", 6), ("UtilizationRatio", 3), ("BorrowRate", 0), ("SupplyRate", 1), ("ExchangeRate", 2)):
        v.must("@write('loans::%s', %s.%d, x)" % (n, S, i), when=DUE, why="the market takes over the state of now")
        v.guards("@write('loans::%s', ..)" % n, DUE)
        v.count("@write('loans::%s', ..)" % n, 1)
    v.must(L + "OnExchangeRateChange::on_exchange_rate_change(x)", when=DUE)
    v.must("Self::deposit_event(Event::InterestAccrued{underlying_currency_id: x, total_borrows: %s.4, total_reserves: %s.5, borrow_index: %s.6, utilization_ratio: %s.3, borrow_rate: %s.0, supply_rate: %s.1, exchange_rate: %s.2})" % ((S,) * 7), when=DUE)
    v.order(S, "@write('" + LAST + "', ..)", when=DUE, why="the elapsed time is taken before it is reset")
    v = c.fn(L + "get_market_status", args="x", opaque=("market", "total_supply", "get_total_cash", "total_borrows", "total_reserves", "calc_utilization_ratio", "get_borrow_rate",
             "get_supply_rate", "accrue_index", "borrow_balance_from_old_and_new_index", "calculate_exchange_rate"))
    U = L + "calc_utilization_ratio(" + L + "get_total_cash(x), " + L + "total_borrows(x), " + L + "total_reserves(x))"
    R = L + "InterestRateModel::get_borrow_rate(" + L + "market(x).rate_model, " + U + ")#Some"
    IDX = L + "accrue_index(" + R + ", loans::BorrowIndex[x], " + NOW + " - " + LAST + "[x])"
    GROWN = L + "borrow_balance_from_old_and_new_index(loans::BorrowIndex[x], " + IDX + ", " + L + "total_borrows(x), Rounding::Down)"
    RES = L + "total_reserves(x) + " + L + "market(x).reserve_factor.mul_floor(" + GROWN + " - " + L + "total_borrows(x))"
    SUP = "InterestRateModel::get_supply_rate(" + R + ", " + U + ", " + L + "market(x).reserve_factor)"
    v.returns("(" + ", ".join([R, SUP, L + "calculate_exchange_rate(" + L + "total_supply(x), " + L + "get_total_cash(x), " + GROWN + ", " + RES + ")", U, A + "amount(" + GROWN + ")", A + "amount(" + RES + ")", IDX]) + ")",
              when=LAST + "[x] < " + NOW, why="the total debt grows with the index, rounded down, and the reserves by their share of the growth")
    v.returns("(" + ", ".join([R, SUP, L + "calculate_exchange_rate(" + L + "total_supply(x), " + L + "get_total_cash(x), " + L + "total_borrows(x), " + L + "total_reserves(x))", U, A + "amount(" + L + "total_borrows(x))", A + "amount(" + L + "total_reserves(x))", "loans::BorrowIndex[x]"]) + ")",
              when=NOW + " <= " + LAST + "[x]", why="without elapsed time nothing grows")
    v = c.fn(L + "accrue_index", args="r,i,t")
    v.returns("i * @pow(one() + r / FixedU128::saturating_from_integer(31536000), usize::saturated_from(t)) ||| i * @pow(one() + r / Rate::saturating_from_integer(31536000), usize::saturated_from(t))", why="interest compounds every second")
    v = c.fn(L + "calc_utilization_ratio", args="k,b,r")
    v.returns("0", when="b == 0")
    v.returns("interbtc_primitives::Ratio::from_rational(" + A + "amount(b), " + A + "amount(k + b - r)) ||| Ratio::from_rational(" + A + "amount(b), " + A + "amount(k + b - r))", when="b != 0")
    v = c.fn(L + "JumpModel::get_borrow_rate", args="m,u")
    v.let("LOW", "m.base_rate + (m.jump_rate - m.base_rate) * u / m.jump_utilization")
    v.let("HIGH", "m.jump_rate + (m.full_rate - m.jump_rate) * @satsub(u, m.jump_utilization) / @satsub(one(), m.jump_utilization)")
    v.returns("(if (@noovf(m.jump_rate - m.base_rate) && @noovf((m.jump_rate - m.base_rate) * u / m.jump_utilization) && @noovf(LOW)) {Some(LOW)} else {None})", when="u <= m.jump_utilization", why="the rate rises evenly to the jump rate")
    v.returns("(if (@noovf(m.full_rate - m.jump_rate) && @noovf((m.full_rate - m.jump_rate) * @satsub(u, m.jump_utilization) / @satsub(one(), m.jump_utilization)) && @noovf(HIGH)) {Some(HIGH)} else {None})", when="m.jump_utilization < u", why="and from there to the full rate")
    v = c.fn(L + "JumpModel::check_model", args="m")
    v.let("F", "interbtc_primitives::Rate::from_inner")
    for x in ("m.base_rate <= interbtc_primitives::Rate::from_inner(100000000000000000)", "m.jump_rate <= interbtc_primitives::Rate::from_inner(1000000000000000000)",
              "m.full_rate <= interbtc_primitives::Rate::from_inner(5000000000000000000)", "m.base_rate <= m.jump_rate", "m.jump_rate <= m.full_rate", "m.jump_utilization != 0"):
        v.returns("false", when="!(" + x + ")", why="a rate model has a rate for every utilisation")
    v.returns("true", when=["m.base_rate <= interbtc_primitives::Rate::from_inner(100000000000000000)", "m.jump_rate <= interbtc_primitives::Rate::from_inner(1000000000000000000)",
              "m.full_rate <= interbtc_primitives::Rate::from_inner(5000000000000000000)", "m.base_rate <= m.jump_rate", "m.jump_rate <= m.full_rate", "m.jump_utilization != 0"])
    v = c.fn(L + "CurveModel::get_borrow_rate", args="m,u")
    v.returns("(if (@noovf(m.base_rate + @pow(u, 9))) {Some(m.base_rate + @pow(u, 9))} else {None})")
    v = c.fn(L + "CurveModel::check_model", args="m")
    v.returns("m.base_rate <= interbtc_primitives::Rate::from_inner(100000000000000000)")
    v = c.fn(L + "InterestRateModel::get_borrow_rate", args="m,u", opaque=(L + "JumpModel::get_borrow_rate", L + "CurveModel::get_borrow_rate"))
    v.returns(L + "JumpModel::get_borrow_rate(m#InterestRateModel::Jump, u)", when="m is InterestRateModel::Jump")
    v.returns(L + "CurveModel::get_borrow_rate(m#InterestRateModel::Curve, u)", when="m is InterestRateModel::Curve")
    v = c.fn(L + "InterestRateModel::check_model", args="m", opaque=(L + "JumpModel::check_model", L + "CurveModel::check_model"))
    v.returns(L + "JumpModel::check_model(m#InterestRateModel::Jump)", when="m is InterestRateModel::Jump")
    v.returns(L + "CurveModel::check_model(m#InterestRateModel::Curve)", when="m is InterestRateModel::Curve")
    v = c.fn(L + "InterestRateModel::get_supply_rate", args="b,u,r")
    v.returns("b * @satsub(one(), r) * u", why="suppliers earn what borrowers pay less the reserve's share")
    for w in ("BorrowIndex", "ExchangeRate"):
        c.only_writers("loans::" + w, [L + "accrue_interest", L + "add_market"])
    c.only_writers(LAST, [L + "accrue_interest", L + "update_last_accrued_interest_time"])
    c.only_callers(L + "update_last_accrued_interest_time", [L + "accrue_interest"])


@prop("L06")
def markets(c):
    UPD = "T::UpdateOrigin::ensure_origin(o) is Ok"
    v = c.fn(L + "add_market", args="o,x,m", opaque=("check_model",))
    v.requires(UPD)
    v.requires("!@has(loans::Markets[x])")
    v.requires("m.state is MarketState::Pending")
    v.requires(L + "InterestRateModel::check_model(m.rate_model)")
    v.requires("m.collateral_factor < one()")
    v.requires("m.collateral_factor <= m.liquidation_threshold", why="nobody can borrow straight into liquidation")
    v.requires("m.liquidation_threshold < one()")
    v.requires("0 < m.reserve_factor")
    v.requires("m.reserve_factor < one()")
    v.requires("m.liquidate_incentive_reserved_factor < one()")
    v.requires("0 < m.supply_cap")
    v.requires("!@has(loans::UnderlyingAssetId[m.lend_token_id])", why="no lend token stands for two currencies")
    v.requires("!@has(loans::Markets[m.lend_token_id])")
    v.must("@write('loans::Markets', m, x)")
    v.must("@write('loans::UnderlyingAssetId', x, m.lend_token_id)")
    v.must("@write('loans::ExchangeRate', loans::MinExchangeRate, x)")
    v.must("@write('loans::BorrowIndex', one(), x)")
    v.must("Self::deposit_event(Event::InterestAccrued{underlying_currency_id: x, total_borrows: 0, total_reserves: 0, borrow_index: one(), utilization_ratio: 0, borrow_rate: 0, supply_rate: 0, exchange_rate: loans::MinExchangeRate})")
    v.accepts([UPD, "!@has(loans::Markets[x])", "m.state is MarketState::Pending", L + "InterestRateModel::check_model(m.rate_model)", "0 <= m.collateral_factor", "m.collateral_factor < one()",
               "m.collateral_factor <= m.liquidation_threshold", "m.liquidation_threshold < one()", "0 < m.reserve_factor", "m.reserve_factor < one()", "m.liquidate_incentive_reserved_factor < one()",
               "0 < m.supply_cap", "!@has(loans::UnderlyingAssetId[m.lend_token_id])", "!@has(loans::Markets[m.lend_token_id])"], explicit=True)
    v.must("Self::deposit_event(Event::NewMarket{underlying_currency_id: x, market: m})")
    v = c.fn(L + "activate_market", args="o,x")
    v.requires(UPD)
    v.requires("@has(loans::Markets[x])")
    v.must("@write('loans::Markets.state', MarketState::Active, x)")
    v.must("Self::deposit_event(Event::ActivatedMarket{underlying_currency_id: x})")
    v = c.fn(L + "update_rate_model", args="o,x,r", opaque=("check_model",))
    v.requires(UPD)
    v.requires(L + "InterestRateModel::check_model(r)")
    v.must("@write('loans::Markets.rate_model', r, x)")
    v.must("Self::deposit_event(Event::UpdatedMarket{underlying_currency_id: x, market: _})")
    F = ("collateral_factor", "liquidation_threshold", "reserve_factor", "close_factor", "liquidate_incentive_reserved_factor", "liquidate_incentive", "supply_cap", "borrow_cap")
    v = c.fn(L + "update_market", args="o,x," + ",".join(F), opaque=("market",))
    N = {f: "(if (%s is Some) {%s#Some} else {loans::market(x).%s})" % (f, f, f) for f in F}
    v.requires(UPD)
    v.requires(N["collateral_factor"] + " < one()")
    v.requires(N["collateral_factor"] + " <= " + N["liquidation_threshold"])
    v.requires(N["liquidation_threshold"] + " < one()")
    v.requires("0 < " + N["reserve_factor"])
    v.requires(N["reserve_factor"] + " < one()")
    v.requires(N["liquidate_incentive_reserved_factor"] + " < one()", why="the checked value is the one that is stored")
    v.requires("0 < " + N["supply_cap"])
    v.accepts([UPD, L + "market(x) is Ok", "@has(loans::Markets[x])", "0 <= " + N["collateral_factor"], N["collateral_factor"] + " < one()", N["collateral_factor"] + " <= " + N["liquidation_threshold"],
               N["liquidation_threshold"] + " < one()", "0 < " + N["reserve_factor"], N["reserve_factor"] + " < one()", N["liquidate_incentive_reserved_factor"] + " < one()", "0 < " + N["supply_cap"]],
              explicit=True)
    v.must("Self::deposit_event(Event::UpdatedMarket{underlying_currency_id: x, market: _})")
    for f in F:
        v.must("@write('loans::Markets.%s', %s, x)" % (f, N[f]), why="an update changes what it names and keeps the rest")
    for f in ("state", "lend_token_id", "rate_model"):
        v.count("@write('loans::Markets.%s', ..)" % f, 0)
    v = c.fn(L + "force_update_market", args="o,x,m", opaque=("check_model", "underlying_id"))
    v.requires(UPD)
    v.requires("@has(loans::Markets[x])")
    v.requires(L + "InterestRateModel::check_model(m.rate_model)")
    v.requires("!@has(loans::UnderlyingAssetId[m.lend_token_id]) || " + TR + "underlying_id(m.lend_token_id) == x", why="no lend token stands for two currencies")
    v.must("@write('loans::UnderlyingAssetId', x, m.lend_token_id)")
    v.must("@write('loans::Markets', m, x)")
    v.must("Self::deposit_event(Event::UpdatedMarket{underlying_currency_id: x, market: m})")
    v = c.fn(L + "market", args="x")
    v.returns("loans::Markets[x]")
    v.requires("@has(loans::Markets[x])")
    v = c.fn(L + "lend_token_id", args="x", opaque=("market",))
    v.returns("loans::market(x).lend_token_id")
    v.requires("loans::market(x) is Ok")
    v = c.fn(TR + "underlying_id", args="x")
    v.returns("loans::UnderlyingAssetId[x]")
    v.requires("@has(loans::UnderlyingAssetId[x])")
    v = c.fn(L + "add_reserves", args="o,p,x,n", opaque=OPS)
    v.requires("T::ReserveOrigin::ensure_origin(o) is Ok")
    v.requires("@amount(n, x) != 0 ||| n != 0")
    v.requires(L + "ensure_active_market(x) is Ok")
    v.requires(A + "transfer(@amount(n, x), T::Lookup::lookup(p), " + POT + ") is Ok")
    v.must("@write('loans::TotalReserves', " + A + "amount(" + L + "total_reserves(x) + @amount(n, x)), x)")
    v.must("Self::deposit_event(Event::ReservesAdded{payer: T::Lookup::lookup(p), currency_id: x, amount: n, new_reserve_amount: " + A + "amount(" + L + "total_reserves(x) + @amount(n, x))})")
    v.order(L + "accrue_interest(x)", L + "total_reserves(x)")
    v = c.fn(L + "reduce_reserves", args="o,p,x,n", opaque=OPS)
    v.requires("T::ReserveOrigin::ensure_origin(o) is Ok")
    v.requires("@amount(n, x) != 0 ||| n != 0")
    v.requires("@amount(n, x) <= " + L + "total_reserves(x)", why="only reserves leave this way")
    v.requires(L + "ensure_active_market(x) is Ok")
    v.accepts(["T::ReserveOrigin::ensure_origin(o) is Ok", "T::Lookup::lookup(p) is Ok", L + "ensure_active_market(x) is Ok", L + "accrue_interest(x) is Ok", "@amount(n, x) != 0",
               "@amount(n, x) <= " + L + "total_reserves(x)", A + "transfer(@amount(n, x), " + POT + ", T::Lookup::lookup(p)) is Ok"], explicit=True)
    v.requires(A + "transfer(@amount(n, x), " + POT + ", T::Lookup::lookup(p)) is Ok")
    v.must("@write('loans::TotalReserves', " + A + "amount(" + L + "total_reserves(x) - @amount(n, x)), x)")
    v.must("Self::deposit_event(Event::ReservesReduced{receiver: T::Lookup::lookup(p), currency_id: x, amount: n, new_reserve_amount: " + A + "amount(" + L + "total_reserves(x) - @amount(n, x))})")
    v.order(L + "accrue_interest(x)", L + "total_reserves(x)")
    v = c.fn(L + "GenesisConfig::build")
    v.must("@write('loans::MaxExchangeRate', self.max_exchange_rate)")
    v.must("@write('loans::MinExchangeRate', self.min_exchange_rate)")
    c.only_writers("loans::TotalReserves", [L + "add_reserves", L + "reduce_reserves", L + "accrue_interest"])
    c.only_writers("loans::Markets", [L + "add_market", L + "mutate_market", L + "activate_market", L + "update_rate_model", L + "update_market", L + "force_update_market"])
    c.only_writers("loans::UnderlyingAssetId", [L + "add_market", L + "force_update_market"])
    for w in ("MinExchangeRate", "MaxExchangeRate"):
        c.only_writers("loans::" + w, [L + "GenesisConfig::build", "interlay_runtime_parachain::SetLoansExchangeRates::on_runtime_upgrade"])
    for r, org in (("interlay_runtime_parachain", "EnsureRoot<AccountId>"), ("kintsugi_runtime_parachain", "EnsureRoot<AccountId>")):
        for k in ("ReserveOrigin", "UpdateOrigin"):
            c.config_is(r, "loans::Config", k, org, why="only governance administers markets")


@prop("L07")
def incentives(c):
    BN = "frame_system::Pallet::block_number()"
    for side, share, op in (("Supply", A + "amount(" + L + "total_supply(x))", "supply"), ("Borrow", A + "amount(" + A + "checked_div(" + L + "total_borrows(x), loans::BorrowIndex[x]))", "borrow")):
        v = c.fn(L + "update_reward_%s_index" % op, args="x", opaque=OPS + ("calculate_reward_delta_index",))
        ST = "loans::Reward%sState" % side
        SPEED = "loans::Reward%sSpeed[x]" % side
        D = L + "calculate_reward_delta_index(@satsub(%s, %s[x].block), %s, %s)" % (BN, ST, SPEED, share)
        v.must("@write('%s.block', max(%s, %s[x].block), x)" % (ST, BN, ST), why="no block is rewarded twice")
        v.must("@write('%s.index', (if (%s <= %s[x].block || %s == 0) {%s[x].index} else {%s[x].index + %s}), x)" % (ST, BN, ST, SPEED, ST, ST, D),
               why="the reward of the elapsed blocks is shared by what is held")
        c.only_writers(ST, [L + "update_reward_%s_index" % op])
        c.only_writers("loans::Reward%sSpeed" % side, [L + "update_market_reward_speed"])
    v = c.fn(L + "calculate_reward_delta_index", args="t,s,n")
    v.returns("0", when="n == 0")
    v.returns("(t.get_big_uint() * s.get_big_uint() * 1000000000000.get_big_uint() / n.get_big_uint()).to_u128()", when="n != 0")
    v = c.fn(L + "calculate_reward_delta", args="n,d")
    v.returns("(n.get_big_uint() * d.get_big_uint() / 1000000000000.get_big_uint()).to_u128()")
    v = c.fn(L + "distribute_supplier_reward", args="x,who", opaque=OPS + ("calculate_reward_delta",))
    D = L + "calculate_reward_delta(" + A + "amount(" + L + "balance(" + L + "lend_token_id(x), who)), loans::RewardSupplyState[x].index - loans::RewardSupplierIndex[x, who])"
    v.must("@write('loans::RewardAccrued', loans::RewardAccrued[who] + " + D + ", who)", why="an account earns on what it holds since it was last settled")
    v.must("@write('loans::RewardSupplierIndex', loans::RewardSupplyState[x].index, x, who)", why="and earns it once")
    v.must("Self::deposit_event(Event::DistributedSupplierReward{underlying_currency_id: x, supplier: who, reward_delta: " + D + ", supply_reward_index: loans::RewardSupplyState[x].index})")
    v = c.fn(L + "distribute_borrower_reward", args="x,who", opaque=OPS + ("calculate_reward_delta",))
    D = L + "calculate_reward_delta(" + A + "amount(" + A + "checked_div(" + L + "current_borrow_balance(who, x), loans::BorrowIndex[x])), loans::RewardBorrowState[x].index - loans::RewardBorrowerIndex[x, who])"
    v.must("@write('loans::RewardAccrued', loans::RewardAccrued[who] + " + D + ", who)", why="an account earns on what it owes since it was last settled")
    v.must("@write('loans::RewardBorrowerIndex', loans::RewardBorrowState[x].index, x, who)")
    v.must("Self::deposit_event(Event::DistributedBorrowerReward{underlying_currency_id: x, borrower: who, reward_delta: " + D + ", borrow_reward_index: loans::RewardBorrowState[x].index})")
    for w, k in (("Supplier", "supplier"), ("Borrower", "borrower")):
        c.only_writers("loans::Reward%sIndex" % w, [L + "distribute_%s_reward" % k])
    c.only_writers("loans::RewardAccrued", [L + "distribute_supplier_reward", L + "distribute_borrower_reward", L + "pay_reward"])
    v = c.fn(L + "collect_market_reward", args="x,who", opaque=OPS)
    SEQ = [L + "update_reward_supply_index(x)", L + "distribute_supplier_reward(x, who)", L + "update_reward_borrow_index(x)", L + "distribute_borrower_reward(x, who)"]
    for s in SEQ:
        v.requires(s + " is Ok")
    v.order(SEQ[0], SEQ[1])
    v.order(SEQ[2], SEQ[3])
    v = c.fn(L + "pay_reward", args="who")
    R = "loans::RewardAccrued[who]"
    T = A + "transfer(@amount(" + R + ", @cfg('RewardAssetId')), " + FARM + ", who)"
    v.requires(R + " <= 0 || " + T + " is Ok ||| " + R + " == 0 || " + T + " is Ok", why="the whole accrued reward is paid")
    v.must("@delete('loans::RewardAccrued', who)", when="0 < " + R, why="and paid once")
    v.count(A + "transfer(..)", 1)
    v.must("Self::deposit_event(Event::RewardPaid{receiver: who, amount: " + R + "})")
    v = c.fn(L + "claim_reward", args="o", opaque=("collect_market_reward", "pay_reward"))
    COL = L + "collect_market_reward(elem(@iterst('iter_keys', 'loans::Markets')), frame_system::ensure_signed(o))"
    v.requires("@forall(@iterst('iter_keys', 'loans::Markets'), " + COL + " is Ok)")
    v.requires(L + "pay_reward(frame_system::ensure_signed(o)) is Ok")
    v.order(COL, L + "pay_reward(..)")
    v = c.fn(L + "claim_reward_for_market", args="o,x", opaque=("collect_market_reward", "pay_reward"))
    v.requires(L + "collect_market_reward(x, frame_system::ensure_signed(o)) is Ok")
    v.requires(L + "pay_reward(frame_system::ensure_signed(o)) is Ok")
    v.order(L + "collect_market_reward(..)", L + "pay_reward(..)")
    v = c.fn(L + "add_reward", args="o,n")
    v.requires("n != 0")
    v.requires(A + "transfer(@amount(n, @cfg('RewardAssetId')), frame_system::ensure_signed(o), " + FARM + ") is Ok")
    v.must("Self::deposit_event(Event::RewardAdded{payer: frame_system::ensure_signed(o), amount: n})")
    v = c.fn(L + "update_market_reward_speed", args="o,x,s,b", opaque=OPS)
    v.requires("T::UpdateOrigin::ensure_origin(o) is Ok")
    v.requires(L + "ensure_active_market(x) is Ok")
    for p, side, op in (("s", "Supply", "supply"), ("b", "Borrow", "borrow")):
        CH = [p + " is Some", p + "#Some != loans::Reward%sSpeed[x]" % side]
        v.must("@write('loans::Reward%sSpeed', %s#Some, x)" % (side, p), when=CH)
        v.order(L + "update_reward_%s_index(x)" % op, "@write('loans::Reward%sSpeed', ..)" % side, when=CH, why="past blocks are rewarded at the old speed")
    v.must("Self::deposit_event(Event::MarketRewardSpeedUpdated{underlying_currency_id: x, supply_reward_per_block: (if (s is Some) {s#Some} else {loans::RewardSupplySpeed[x]}), borrow_reward_per_block: (if (b is Some) {b#Some} else {loans::RewardBorrowSpeed[x]})})")
    # every movement of lend tokens settles first
    for imp, fn, args, who in (("OnSlashHook", "on_slash", "x,f,n", ("f",)), ("PreDeposit", "on_deposit", "x,f,n", ("f",)), ("PreTransfer", "on_transfer", "x,f,t,n", ("f", "t"))):
        v = c.fn(L + imp + "::" + fn, args=args, opaque=OPS)
        U = TR + "underlying_id(x)"
        LT = "x.is_lend_token()"
        ok = ["x.is_lend_token()"] if imp != "OnSlashHook" else ["x.is_lend_token()", U + " is Ok"]
        v.must(L + "update_reward_supply_index(" + U + ")", when=ok, why="holders are settled before their lend tokens move")
        for w in who:
            D = L + "distribute_supplier_reward(" + U + ", " + w + ")"
            v.must(D, when=ok + ([L + "update_reward_supply_index(" + U + ") is Ok"] if imp == "OnSlashHook" else []))
            v.order(L + "update_reward_supply_index(" + U + ")", D, when=ok)
            if imp != "OnSlashHook":
                v.requires("!(" + LT + ") || " + D + " is Ok")


@prop("L08")
def toggle(c):
    v = c.fn(TR + "do_deposit_collateral", args="who,t", opaque=OPS)
    v.let("C", A + "currency(t)")
    v.requires(L + "ensure_active_market(" + TR + "underlying_id(C)) is Ok", why="only a market's lend token is collateral")
    v.requires(A + "lock_on(t, who) is Ok", why="collateral cannot be moved")
    v.must("@write('loans::AccountDeposits', " + A + "amount(t + " + L + "account_deposits(C, who)), C, who)")
    v.must("Self::deposit_event(Event::DepositCollateral{account_id: who, currency_id: C, amount: " + A + "amount(t)})")
    v = c.fn(TR + "do_withdraw_collateral", args="who,t", opaque=OPS + LIQ)
    v.let("C", A + "currency(t)")
    v.requires(L + "ensure_active_market(" + TR + "underlying_id(C)) is Ok")
    v.requires(L + "collateral_amount_value(t) + " + L + "total_borrowed_value(who) <= " + L + "total_collateral_value(who)", why="what remains covers the debts")
    v.accepts([TR + "underlying_id(C) is Ok", L + "ensure_active_market(" + TR + "underlying_id(C)) is Ok", L + "collateral_amount_value(t) is Ok", L + "total_borrowed_value(who) is Ok", L + "total_collateral_value(who) is Ok",
               L + "collateral_amount_value(t) + " + L + "total_borrowed_value(who) <= " + L + "total_collateral_value(who)", A + "unlock_on(t, who) is Ok"], explicit=True, why="collateral that is not needed can be freed")
    for x in (L + "collateral_amount_value(t)", L + "total_borrowed_value(who)", L + "total_collateral_value(who)"):
        v.requires(x + " is Ok")
    v.requires(A + "unlock_on(t, who) is Ok")
    v.must("@write('loans::AccountDeposits', (if (@has(loans::AccountDeposits[C, who])) {loans::AccountDeposits[C, who]} else {@default()}) - " + A + "amount(t), C, who)"
           " ||| @write('loans::AccountDeposits', loans::AccountDeposits[C, who] - " + A + "amount(t), C, who)", why="freed collateral leaves the deposit")
    v.must("Self::deposit_event(Event::WithdrawCollateral{account_id: who, currency_id: C, amount: " + A + "amount(t)})")
    v = c.fn(L + "deposit_all_collateral", args="o,x", opaque=OPS + LIQ + ("do_deposit_collateral",))
    v.let("W", "frame_system::ensure_signed(o)")
    v.requires(L + "free_lend_tokens(x, W) != 0")
    v.requires(L + "reserved_lend_tokens(x, W) == 0", why="lend tokens locked elsewhere are not pledged twice")
    v.requires(TR + "do_deposit_collateral(W, " + L + "free_lend_tokens(x, W)) is Ok", why="all or nothing")
    v = c.fn(L + "withdraw_all_collateral", args="o,x", opaque=OPS + LIQ + ("do_withdraw_collateral",))
    v.let("W", "frame_system::ensure_signed(o)").let("DEP", L + "account_deposits(" + L + "lend_token_id(x), W)")
    v.requires("DEP != 0")
    v.requires(TR + "do_withdraw_collateral(W, DEP) is Ok")
    v = c.fn(L + "lock_if_account_deposited", args="who,t", opaque=OPS + ("do_deposit_collateral",))
    v.requires(L + "account_deposits(" + A + "currency(t), who) == 0 || " + TR + "do_deposit_collateral(who, t) is Ok", why="what arrives joins the deposit")
    v.guards(TR + "do_deposit_collateral(..)", [L + "account_deposits(" + A + "currency(t), who) != 0"])
    for imp, fn, args, w in (("PostDeposit", "on_deposit", "x,f,n", "f"), ("PostTransfer", "on_transfer", "x,f,t,n", "t")):
        v = c.fn(L + imp + "::" + fn, args=args, opaque=("lock_if_account_deposited",))
        v.requires("!(x.is_lend_token()) || " + L + "lock_if_account_deposited(" + w + ", @amount(n, x)) is Ok")
    c.only_writers("loans::AccountDeposits", [TR + "do_deposit_collateral", TR + "do_withdraw_collateral", L + "liquidated_transfer"])
