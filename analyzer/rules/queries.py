from iba.rules import prop
from iba.terms import mk

RT = ("interlay_runtime_parachain", "kintsugi_runtime_parachain")
# RPC crate -> server struct -> {method: parameters}
RPC = {
    "btc_relay_rpc::BtcRelay": {"verify_block_header_inclusion": "block_hash"},
    "dex_general_rpc::DexGeneral": {"get_amount_in_price": "supply,path", "get_amount_out_price": "supply,path",
                                    "get_estimate_lptoken": "asset_0,asset_1,amount_0_desired,amount_1_desired,amount_0_min,amount_1_min",
                                    "get_pair_by_asset_id": "asset_0,asset_1", "calculate_remove_liquidity": "asset_0,asset_1,amount"},
    "dex_stable_rpc::DexStable": {"get_virtual_price": "pool_id", "get_a": "pool_id", "get_a_precise": "pool_id", "get_currencies": "pool_id", "get_currency": "pool_id,index",
                                  "get_lp_currency": "pool_id", "get_currency_index": "pool_id,currency", "get_currency_precision_multipliers": "pool_id", "get_currency_balances": "pool_id",
                                  "get_number_of_currencies": "pool_id", "get_admin_balances": "pool_id", "get_admin_balance": "pool_id,index",
                                  "calculate_currency_amount": "pool_id,amounts,deposit", "calculate_swap": "pool_id,in_index,out_index,in_amount",
                                  "calculate_remove_liquidity": "pool_id,amount", "calculate_remove_liquidity_one_currency": "pool_id,amount,index"},
    "escrow_rpc::Escrow": {"balance_at": "account_id,height", "free_stakable": "account_id", "total_supply": "height"},
    "issue_rpc::Issue": {"get_issue_requests": "account_id", "get_vault_issue_requests": "vault_id"},
    "loans_rpc::Loans": {"get_account_liquidity": "account", "get_market_status": "asset_id", "get_liquidation_threshold_liquidity": "account"},
    "oracle_rpc::Oracle": {"wrapped_to_collateral": "amount,currency_id", "collateral_to_wrapped": "amount,currency_id"},
    "redeem_rpc::Redeem": {"get_premium_redeem_vaults": "", "get_redeem_requests": "account_id", "get_vault_redeem_requests": "vault_id"},
    "replace_rpc::Replace": {"get_new_vault_replace_requests": "vault_id", "get_old_vault_replace_requests": "vault_id"},
    "reward_rpc::Reward": {"compute_escrow_reward": "account_id,currency_id", "compute_farming_reward": "account_id,pool_currency_id,reward_currency_id",
                           "compute_vault_reward": "vault_id,currency_id", "estimate_escrow_reward_rate": "account_id,amount,lock_time",
                           "estimate_farming_reward": "account_id,pool_currency_id,reward_currency_id", "estimate_vault_reward_rate": "vault_id"},
    "vault_registry_rpc::VaultRegistry": {"get_vault_collateral": "vault_id", "get_vaults_by_account_id": "account_id", "get_vault_total_collateral": "vault_id",
                                          "get_vaults_with_issuable_tokens": "", "get_vaults_with_redeemable_tokens": "", "get_issuable_tokens_from_vault": "vault",
                                          "get_collateralization_from_vault": "vault,only_issued", "get_collateralization_from_vault_and_collateral": "vault,collateral,only_issued",
                                          "get_required_collateral_for_wrapped": "amount_btc,currency_id", "get_required_collateral_for_vault": "vault_id"},
}
LISTS = ("get_currency_precision_multipliers", "get_currency_balances", "get_admin_balances", "calculate_remove_liquidity")


@prop("U02")
def servers(c):
    for s, methods in RPC.items():
        names = tuple(methods)
        for m, ps in methods.items():
            args = ",".join(x for x in ("self", ps, "at") if x)
            v = c.fn(s + "::" + m, args=args, opaque=tuple(x for x in names if x != m))
            v.let("AT", "(if (at is Some) {at#Some} else {self.client.info().best_hash})")
            name = {"get_currency_index": "get_currencies", "get_admin_balance": "get_admin_balances"}.get(m, m)
            params = "pool_id" if name != m else ps
            v.let("R", s + "::" + name + "(self.client.runtime_api(), AT" + (", " + params if params else "") + ")")
            why = "the answer of the runtime at the block that was asked for"
            if m == "get_currency_index":
                v.returns("@cast('u32', idx(R))", why=why)
                v.requires("currency == elem(R)")
            elif m == "get_admin_balance":
                v.returns("elem(R)", why=why)
                v.requires("@cast('u32', idx(R)) == index")
            elif m == "get_market_status":
                v.returns("(R.0, R.1, R.2, R.3, R.4, R.5, R.6)", why=why)
            elif m in LISTS and s.startswith("dex_stable"):
                v.returns("R ||| @mapit(R, (if (@tryconv(elem(R)) is Ok) {Ok(elem(R))} else {Err(_)}))", why=why)
            elif m in ("get_currency", "get_lp_currency"):
                v.returns("R#Some ||| (if (R is Ok) {(if (R is Some) {Ok(R#Some)} else {Err(?e)})} else {Err(?f)}) ||| (if (R is Some) {Ok(R#Some)} else {Err(_)}) ||| (if ((R is Ok) && (R is Some)) {Ok(R#Some)} else {Err(_)})", why=why)
            elif m == "get_pair_by_asset_id":
                f = ("asset_0", "asset_1", "account", "total_liquidity", "holding_liquidity", "reserve_0", "reserve_1", "lp_asset_id", "status")
                v.returns("PairInfo{" + ", ".join("%s: R.%s" % (x, x) for x in f) + "} ||| Some(R) ||| R", why=why)
            else:
                v.returns("R", why=why)


# runtime API: parameters, answer ("B(x)" wraps a balance)
API = {
    "verify_block_header_inclusion": ("block_hash", "()"),
    "wrapped_to_collateral": ("amount,currency_id", "B(Oracle::wrapped_to_collateral(amount.amount, currency_id))"),
    "collateral_to_wrapped": ("amount,currency_id", "B(Oracle::collateral_to_wrapped(amount.amount, currency_id))"),
    "get_vault_collateral": ("v", "B(VaultRegistry::compute_collateral(v).amount())"),
    "get_vaults_by_account_id": ("a", "VaultRegistry::get_vaults_by_account_id(a)"),
    "get_vault_total_collateral": ("v", "B(VaultRegistry::get_backing_collateral(v).amount())"),
    "get_vaults_with_issuable_tokens": ("", "L(VaultRegistry::get_vaults_with_issuable_tokens())"),
    "get_vaults_with_redeemable_tokens": ("", "L(VaultRegistry::get_vaults_with_redeemable_tokens())"),
    "get_issuable_tokens_from_vault": ("v", "B(VaultRegistry::get_issuable_tokens_from_vault(v).amount())"),
    "get_collateralization_from_vault": ("v,o", "VaultRegistry::get_collateralization_from_vault(v, o)"),
    "get_collateralization_from_vault_and_collateral": ("v,k,o", "VaultRegistry::get_collateralization_from_vault_and_collateral(v, @amount(k.amount, v.currencies.collateral), o)"),
    "get_required_collateral_for_wrapped": ("a,k", "B(VaultRegistry::get_required_collateral_for_wrapped(@amount(a.amount, WRAPPED), k).amount())"),
    "get_required_collateral_for_vault": ("v", "B(VaultRegistry::get_required_collateral_for_vault(v).amount())"),
    "balance_at": ("a,h", "B(Escrow::balance_at(a, h))"),
    "free_stakable": ("a", "B(Escrow::free_stakable(a))"),
    "total_supply": ("h", "B(Escrow::total_supply(h))"),
    "compute_escrow_reward": ("a,k", "B(EscrowRewards::compute_reward((), a, k))"),
    "compute_farming_reward": ("a,p,k", "B(FarmingRewards::compute_reward(p, a, k))"),
    "compute_vault_reward": ("v,k", "B(Fee::compute_vault_rewards(v, v.account_id, k).amount())"),
    "estimate_farming_reward": ("a,p,k", "B(FarmingRewards::compute_reward(p, a, k))"),
    "estimate_escrow_reward_rate": ("a,n,t", "runtime_common::estimate_escrow_reward_rate(a, n, t)"),
    "estimate_vault_reward_rate": ("v", "runtime_common::estimate_vault_reward_rate(v)"),
    "get_issue_requests": ("a", "Issue::get_issue_requests_for_account(a)"),
    "get_vault_issue_requests": ("a", "Issue::get_issue_requests_for_vault(a)"),
    "get_redeem_requests": ("a", "Redeem::get_redeem_requests_for_account(a)"),
    "get_vault_redeem_requests": ("a", "Redeem::get_redeem_requests_for_vault(a)"),
    "get_premium_redeem_vaults": ("", "L(Redeem::get_premium_redeem_vaults())"),
    "get_old_vault_replace_requests": ("a", "Replace::get_replace_requests_for_old_vault(a)"),
    "get_new_vault_replace_requests": ("a", "Replace::get_replace_requests_for_new_vault(a)"),
    "get_account_liquidity": ("a", "Loans::get_account_liquidity(a).to_rpc_tuple()"),
    "get_liquidation_threshold_liquidity": ("a", "Loans::get_account_liquidation_threshold_liquidity(a).to_rpc_tuple()"),
    "get_market_status": ("k", "Loans::get_market_status(k)"),
    "get_pair_by_asset_id": ("a,b", "DexGeneral::get_pair_by_asset_id(a, b)"),
    "get_amount_in_price": ("n,p", "DexGeneral::desired_in_amount(n, p)"),
    "get_amount_out_price": ("n,p", "DexGeneral::supply_out_amount(n, p)"),
    "get_estimate_lptoken": ("a,b,c,d,e,f", "DexGeneral::get_estimate_lptoken(a, b, c, d, e, f)"),
    # calculate_remove_liquidity exists in two APIs, see below
    "get_virtual_price": ("p", "DexStable::get_virtual_price(p)"),
    "get_a": ("p", "DexStable::get_a(p)"),
    "get_a_precise": ("p", "DexStable::get_a_precise_by_id(p)"),
    "get_currencies": ("p", "DexStable::get_currencies(p)"),
    "get_currency": ("p,i", "DexStable::get_currency(p, i)"),
    "get_lp_currency": ("p", "DexStable::get_lp_currency(p)"),
    "get_currency_precision_multipliers": ("p", "DexStable::get_currency_precision_multipliers(p)"),
    "get_currency_balances": ("p", "DexStable::get_currency_balances(p)"),
    "get_number_of_currencies": ("p", "DexStable::get_number_of_currencies(p)"),
    "get_admin_balances": ("p", "DexStable::get_admin_balances(p)"),
    "calculate_currency_amount": ("p,a,d", "Z(DexStable::stable_amm_calculate_currency_amount(p, a, d))"),
    "calculate_swap": ("p,i,j,n", "Z(DexStable::stable_amm_calculate_swap_amount(p, i, j, n))"),
    "calculate_remove_liquidity_one_currency": ("p,n,i", "Z(DexStable::stable_amm_calculate_remove_liquidity_one_currency(p, n, i))"),
}


def answer(v, s):
    f, x = (s[0], s[2:-1]) if s[1] == "(" and s[0] in "BLZ" else ("", s)
    v.let("X", x)
    return {"B": "BalanceWrapper{amount: X}", "L": "@mapit(X, (elem(X).0, BalanceWrapper{amount: elem(X).1.amount()}))", "Z": "(if (X is Ok) {X} else {@default()})", "": "X"}[f]


@prop("U03")
def answers(c):
    for rt, wrapped in zip(RT, ("IBTC", "KBTC")):
        for m, (args, a) in API.items():
            v = c.fn(rt + "::Runtime::" + m, args=args, opaque=("runtime_common::estimate_escrow_reward_rate", "runtime_common::estimate_vault_reward_rate"))
            a = a.replace("WRAPPED", rt + "::CurrencyId::Token(" + rt + "::TokenSymbol::" + wrapped + ")")
            v.returns(answer(v, a), why="the pallet's own computation")
            if m == "verify_block_header_inclusion":
                v.requires("BTCRelay::verify_block_header_inclusion(block_hash, None) is Ok")
            if m == "estimate_farming_reward":
                v.order("FarmingRewards::withdraw_reward(p, a, k)", "FarmingRewards::distribute_reward(p, k, Farming::total_rewards(p, k))")
                v.order("FarmingRewards::distribute_reward(p, k, Farming::total_rewards(p, k))", "FarmingRewards::compute_reward(p, a, k)", why="what was earned before is not counted")
        v = c.fn(rt + "::Runtime::calculate_remove_liquidity", args="p,n", sel="DexStableApi")
        v.returns(answer(v, "Z(DexStable::stable_amm_calculate_remove_liquidity(p, n))"), why="the pallet's own computation")
        v = c.fn(rt + "::Runtime::calculate_remove_liquidity", args="a,b,n", sel="DexGeneralApi")
        v.returns("DexGeneral::calculate_remove_liquidity(a, b, n)", why="the pallet's own computation")


@prop("U05")
def estimates(c):
    A = "runtime_common::"
    YEAR = "2628000"
    v = c.fn(A + "estimate_escrow_reward_rate", args="a,n,t", opaque=("round_height_and_deposit_for", "min_reward_per_block"))
    v.let("C", "@cfg('GetNativeCurrencyId')")
    W = "EscrowRewardsApi::withdraw_reward((), a, C)"
    L = "escrow::round_height_and_deposit_for(a, (if (n is Some) {n#Some} else {@default()}), (if (t is Some) {t#Some} else {@default()}))"
    D = "EscrowRewardsApi::distribute_reward((), C, annuity::min_reward_per_block() * %s)" % YEAR
    R = "EscrowRewardsApi::compute_reward((), a, C)"
    v.must(W, why="earlier rewards are not counted")
    v.must(L, why="the asked-for lock")
    v.must(D, why="the rewards of a year")
    v.order(W, D)
    v.order(L, D)
    v.order(W, L)
    v.order(D, R)
    v.let("X", "interbtc_primitives::UnsignedFixedPoint::checked_from_rational(%s, escrow::Locked[a].amount)" % R)
    v.returns("(if (X is Ok) {X} else {@default()})", why="rewards of a year per token locked")
    v = c.fn(A + "estimate_vault_reward_rate", args="v", opaque=("distribute_vault_rewards", "min_reward_per_block", "compute_vault_rewards", "mint_to", "fee_pool_account_id", "currency::Amount::convert_to"))
    v.let("C", "@cfg('GetNativeCurrencyId')").let("N", "annuity::min_reward_per_block() * %s" % YEAR)
    P = "fee::distribute_vault_rewards(v, C)"
    W = "VaultStakingApi::withdraw_reward((None, v), v.account_id, C)"
    D = "VaultCapacityApi::distribute_reward((), C, N)"
    R = "fee::compute_vault_rewards(v, v.account_id, C)"
    v.must(P)
    v.must(W, why="earlier rewards are not counted")
    v.must(D, why="the rewards of a year")
    v.must("currency::Amount::mint_to(@amount(N, C), fee::fee_pool_account_id())", why="what is distributed is there")
    v.order(P, W)
    v.order(W, D)
    v.order(D, R)
    v.let("X", "interbtc_primitives::UnsignedFixedPoint::checked_from_rational(currency::Amount::amount(currency::Amount::convert_to(%s, v.currencies.collateral)), VaultStakingApi::get_stake((None, v), v.account_id))" % R)
    v.returns("(if (X is Ok) {X} else {@default()})", why="rewards of a year per unit of collateral")


@prop("L09")
def markets(c):
    L = "loans::"
    v = c.fn(L + "LoansMarketDataProvider::get_market_status", args="k", opaque=("loans::get_market_status",))
    v.let("S", L + "get_market_status(k)")
    v.returns("MarketStatus{borrow_rate: S.0, supply_rate: S.1, exchange_rate: S.2, utilization: S.3, total_borrows: S.4, total_reserves: S.5, borrow_index: S.6}", why="the same status by name")
    v = c.fn(L + "LoansMarketDataProvider::get_market_info", args="k", opaque=("get_full_interest_rate",))
    v.let("M", L + "Markets[k]")
    v.returns("MarketInfo{" + ", ".join("%s: M.%s" % (x, x) for x in ("collateral_factor", "liquidation_threshold", "reserve_factor", "close_factor"))
              + ", full_rate: " + L + "LoansMarketDataProvider::get_full_interest_rate(k)#Some}", why="the market's own parameters")
    v.requires("@has(M)")
    v = c.fn(L + "LoansMarketDataProvider::get_full_interest_rate", args="k")
    v.let("M", L + "Markets[k]")
    v.returns("(if (@has(M) && (M.rate_model is InterestRateModel::Jump)) {Some(M.rate_model#InterestRateModel::Jump.full_rate)} else {None})")
    v = c.fn(L + "OnExchangeRateChange::on_exchange_rate_change", args="k")
    v.must("T::OnExchangeRateChange::on_exchange_rate_change(" + L + "Markets[k].lend_token_id)", when=["@has(" + L + "Markets[k])"], why="vault thresholds follow the lend token of that market")
    v = c.fn(L + "AccountLiquidity::to_rpc_tuple", args="s", opaque=("currency::Amount::to_unsigned_fixed_point", "currency::Amount::currency"))
    F = "currency::Amount::to_unsigned_fixed_point(%s)"
    v.returns("(" + F % "(if (s is AccountLiquidity::Liquidity) {s#AccountLiquidity::Liquidity} else {@amount(0, ?k)})" + ", " + F % "(if (s is AccountLiquidity::Shortfall) {s#AccountLiquidity::Shortfall} else {@amount(0, ?k)})" + ") ||| "
              + "(" + F % "(if (s is AccountLiquidity::Liquidity) {s#AccountLiquidity::Liquidity} else {0})" + ", " + F % "(if (s is AccountLiquidity::Shortfall) {s#AccountLiquidity::Shortfall} else {0})" + ")", why="liquidity first, shortfall second, one of them zero")


@prop("Q05")
def exchange(c):
    D = "dex_general::"
    v = c.fn(D + "supply_out_amount", args="n,p", opaque=("get_amount_out_by_path",))
    v.let("X", D + "get_amount_out_by_path(n, p)")
    v.returns("(if ((X is Ok) && !(@len(X) == 0)) {X[@len(X) - 1]} else {0})", why="what the last hop pays")
    v = c.fn(D + "desired_in_amount", args="n,p", opaque=("get_amount_in_by_path",))
    v.let("X", D + "get_amount_in_by_path(n, p)")
    v.returns("(if ((X is Ok) && !(@len(X) == 0)) {X[0]} else {0})", why="what the first hop takes")
    v = c.fn(D + "get_estimate_lptoken", args="a,b,x,y,xm,ym", opaque=("sort_asset_id", "calculate_added_amount", "calculate_liquidity"))
    v.let("S", D + "PairStatuses[" + D + "sort_asset_id(a, b)]").let("M", "S#PairStatus::Trading")
    v.let("R0", "T::MultiCurrency::free_balance(a, M.pair_account)").let("R1", "T::MultiCurrency::free_balance(b, M.pair_account)")
    v.let("X", D + "calculate_added_amount(x, y, xm, ym, R0, R1)")
    v.returns("(if ((S is PairStatus::Trading) && (X is Ok)) {" + D + "calculate_liquidity(X.0, X.1, R0, R1, M.total_supply)} else {0})", why="the shares adding liquidity would mint")
    v = c.fn(D + "get_pair_by_asset_id", args="a,b", opaque=("sort_asset_id", "pair_account_id", "lp_asset_id"))
    v.let("S", D + "PairStatuses[" + D + "sort_asset_id(a, b)]").let("K", D + "lp_asset_id(a, b)").let("P", D + "pair_account_id(a, b)")
    v.returns("(if ((K is Some) && ((S is PairStatus::Trading) || (S is PairStatus::Bootstrap))) {Some(PairInfo{asset_0: a, asset_1: b, account: P, holding_liquidity: 0, lp_asset_id: K#Some, "
              "reserve_0: T::MultiCurrency::free_balance(a, P), reserve_1: T::MultiCurrency::free_balance(b, P), status: (if (S is PairStatus::Trading) {0} else {1}), "
              "total_liquidity: T::MultiCurrency::total_issuance(K#Some)})} else {None})", why="the pair's reserves and shares")
    v = c.fn(D + "calculate_remove_liquidity", args="a,b,n", opaque=("pair_account_id", "lp_asset_id", "calculate_share_amount"))
    v.let("K", D + "lp_asset_id(a, b)").let("P", D + "pair_account_id(a, b)")
    v.let("N", "T::MultiCurrency::total_issuance(K#Some)")
    v.returns("(if (K is Some) {Some((" + D + "calculate_share_amount(n, N, T::MultiCurrency::free_balance(a, P)), " + D + "calculate_share_amount(n, N, T::MultiCurrency::free_balance(b, P))))} else {None})",
              why="each reserve in proportion to the shares")


@prop("T09")
def stable(c):
    S = "dex_stable::"
    ops = ("get_pool_virtual_price", "dex_stable::get_a_precise", "get_admin_balance")
    I = "(if (P is Pool::Base) {P#Pool::Base} else {P#Pool::Meta.info})"

    def q(name, args="p", opaque=ops):
        v = c.fn(S + name, args=args, opaque=opaque)
        v.let("P", S + "Pools[p]").let("I", I).let("KS", "(if (P is Pool::Base) {P#Pool::Base.currency_ids} else {P#Pool::Meta.info.currency_ids})")
        return v

    def of(f):
        return "(if (P is Pool::Base) {P#Pool::Base.%s} else {P#Pool::Meta.info.%s})" % (f, f)
    v = q("get_virtual_price").let("X", S + "get_pool_virtual_price(P)")
    v.returns("(if @has(P) {(if (X is Some) {X#Some} else {@default()})} else {0})")
    v = q("get_a").let("X", S + "get_a_precise(I)")
    v.returns("(if @has(P) {((if (X is Some) {X#Some} else {@default()}) / 100)} else {0})", why="the amplification in force, rounded")
    v = q("get_a_precise_by_id").let("X", S + "get_a_precise(I)")
    v.returns("(if @has(P) {(if (X is Some) {X#Some} else {@default()})} else {0})", why="the amplification in force, in hundredths")
    for f, x, none in (("get_currencies", "currency_ids", "@arr()"), ("get_currency_precision_multipliers", "token_multipliers", "@arr()"), ("get_currency_balances", "balances", "@arr()")):
        q(f).returns("(if @has(P) {%s} else {%s})" % (of(x), none))
    q("get_lp_currency").returns("(if @has(P) {Some(%s)} else {None})" % of("lp_currency_id"))
    q("get_number_of_currencies").returns("(if @has(P) {@cast('u32', @len(KS))} else {0})")
    v = q("get_currency", args="p,i")
    v.returns("(if (@has(P) && (i < @len(KS))) {Some(KS[i])} else {None})", why="an index out of range has no currency")
    v.no_panic()
    v = q("get_admin_balances").let("X", S + "get_admin_balance(p, idx(KS))")
    v.returns("(if @has(P) {@mapit(KS, (if (X is Some) {X#Some} else {@default()}))} else {@arr()})", why="what the pool owns beyond its balances, per currency")


K = "kintsugi_runtime_parachain"


@prop("U01")
def contracts(c):
    v = c.fn(K + "::BtcRelayExtension::call", args="s,e", opaque=("get_and_verify_issue_payment",))
    v.let("B", "e.buf_in_buf_out()").let("IN", "B.read_as_unbounded(B.in_len())").let("A", "Decode::decode(IN.1)")
    v.let("P", "btc_relay::get_and_verify_issue_payment(IN.0, A)")
    v.requires("e.func_id() == 1101", why="the only extension")
    v.requires("IN is Ok")
    v.must("e.charge_weight(..) ||| B.charge_weight(..)", why="the proof is paid for")
    v.requires("A is Ok", why="an address that does not decode is refused")
    v.must("B.write((if ((P is Ok) && (@tryconv(P) is Ok)) {Some(P)} else {None}).encode(), false, None)", why="the contract learns the amount proved, or that nothing is")
    v.returns("RetVal::Converging(0)", why="and goes on")
    v.no_panic()
    c.fn(K + "::BtcRelayExtension::enabled").returns("true")
    for n, a in (("total_issuance", ""), ("active_issuance", ""), ("total_balance", "a"), ("balance", "a"), ("reducible_balance", "a,b,c"), ("can_deposit", "a,b,c"), ("can_withdraw", "a,b"),
                 ("can_reserve", "a,b"), ("slash_reserved", "a,b"), ("reserved_balance", "a"), ("reserve", "a,b"), ("unreserve", "a,b"), ("repatriate_reserved", "a,b,c,d"),
                 ("can_slash", "a,b"), ("deactivate", "a"), ("reactivate", "a"), ("burn", "a"), ("issue", "a"), ("pair", "a"), ("free_balance", "a"), ("ensure_can_withdraw", "a,b,c,d"),
                 ("transfer", "a,b,c,d"), ("slash", "a,b"), ("deposit_into_existing", "a,b"), ("resolve_into_existing", "a,b"), ("deposit_creating", "a,b"), ("resolve_creating", "a,b"),
                 ("withdraw", "a,b,c,d"), ("settle", "a,b,c,d"), ("make_free_balance_be", "a,b")):
        for sel in (("fungible", "frame_support::traits::Currency") if n in ("total_issuance", "active_issuance", "total_balance") else (None,)):
            v = c.fn(K + "::NativeCurrencyWithEd::" + n, args=a, **({"sel": sel if sel != "fungible" else "Inspect<"} if sel else {}))
            T = "NativeCurrency::%s(%s)" % (n, a.replace(",", ", "))
            T2 = T + " ||| kintsugi_runtime_parachain::" + T
            if n in ("deactivate", "reactivate", "resolve_creating"):
                v.must(T, why="contracts use the native currency itself")
                v.count(T, 1)
            else:
                v.returns(T2, why="contracts use the native currency itself")
    for sel in ("Inspect<", "frame_support::traits::Currency"):
        c.fn(K + "::NativeCurrencyWithEd::minimum_balance", sel=sel).returns("1")
    c.const_matches(K, "EnableContracts", "false", why="until governance decides otherwise")
    c.const_matches(K, "UnsafeUnstableInterface", "false")
    E = K + "::EnableContracts::get()"
    DIS = "ContractResult{debug_message: @default(), events: @default(), gas_consumed: @default(), gas_required: @default(), storage_deposit: @default(), result: Err(_)}"
    v = c.fn(K + "::Runtime::call", args="o,d,n,g,s,i", sel="ContractsApi")
    v.returns(DIS, when="!" + E, why="nothing runs while disabled")
    v.guards("Contracts::bare_call(..)", [E])
    v.must("Contracts::bare_call(o, d, n, _, s, i, _, _, _)", when=E)
    v = c.fn(K + "::Runtime::instantiate", args="o,n,g,s,k,d,t")
    v.returns(DIS, when="!" + E, why="nothing runs while disabled")
    v.guards("Contracts::bare_instantiate(..)", [E])
    v.must("Contracts::bare_instantiate(o, n, _, s, k, d, t, _, _)", when=E)
    v = c.fn(K + "::Runtime::upload_code", args="o,k,s,d")
    v.requires(E, why="nothing is stored while disabled")
    v.returns("Contracts::bare_upload_code(o, k, s, d)")
    for k, t in (("Currency", "NativeCurrencyWithEd"), ("CallFilter", "Nothing"), ("ChainExtension", "BtcRelayExtension"), ("UnsafeUnstableInterface", "UnsafeUnstableInterface"), ("CallStack", "[pallet_contracts::Frame<Self>; 1]")):
        c.config_is(K, "pallet_contracts::Config", k, t, why="contracts call nothing else in the runtime")


@prop("U04")
def evm(c):
    for r in RT:
        R = r + "::RuntimeCall::"
        v = c.fn(R + "is_self_contained", args="x")
        v.returns("(x is RuntimeCall::Ethereum) && " + R + "is_self_contained(x.0)", why="only Ethereum transactions carry their own signature")
        v = c.fn(R + "check_self_contained", args="x", opaque=("runtime_common::Transaction::action", "runtime_common::GetTransactionAction::action"))
        v.let("E", r + "::EnableCreate::get()").let("A", r + "::GetTransactionAction::action(x.0.transaction)")
        v.returns("None", when="!(x is RuntimeCall::Ethereum)")
        C = ["x is RuntimeCall::Ethereum", "x.0 is Call::transact", "!E", "A is TransactionAction::Create"]
        v.returns("Some(Err(TransactionValidityError::Invalid(InvalidTransaction::Call)))", when=C, why="no contract is created while that is disabled")
        S = R + "check_self_contained(x.0)"
        v.returns(S, when=["x is RuntimeCall::Ethereum", "!(x.0 is Call::transact)"], why="the signer is recovered")
        v.returns(S, when=C[:2] + ["E"])
        v.returns(S, when=C[:3] + ["!(A is TransactionAction::Create)"])
        for f in ("validate_self_contained", "pre_dispatch_self_contained"):
            v = c.fn(R + f, args="x,i,d,l")
            v.returns("(if (x is RuntimeCall::Ethereum) {" + R + f + "(x.0, i, d, l)} else {None})", why="nonce, fee and validity are checked by the pallet")
        v = c.fn(R + "apply_self_contained", args="x,i")
        v.returns("(if ((x is RuntimeCall::Ethereum) && (x#RuntimeCall::Ethereum is Call::transact)) {Some(x.dispatch(RawOrigin::EthereumTransaction(i)))} else {None})", why="dispatched as the recovered signer, nothing else")
        c.const_matches(r, "EnableCreate", "false", why="until governance decides otherwise")
        v = c.fn(r + "::Runtime::create", args="f,d,n,g,m,p,o,e,l")
        v.requires(r + "::EnableCreate::get()", why="nor over RPC")
        v = c.fn(r + "::FindAuthorTruncated::find_author", args="d")
        v.let("A", r + "::Aura::authorities()[F::find_author(d)#Some].to_raw_vec()")
        v.returns("(if (F::find_author(d) is Some) {Some(H160::from_slice(A[@range(4, 24)]))} else {None})")
        v = c.fn(r + "::TransactionConverter::convert_transaction", args="s,t", sel="ConvertTransaction<UncheckedExtrinsic")
        v.returns(r + "::UncheckedExtrinsic::new_unsigned(Call::transact{transaction: t})")
        for k, t in (("CallOrigin", "EnsureAddressRoot<AccountId>"), ("WithdrawOrigin", "EnsureAddressTruncated"), ("ChainId", "EVMChainId"), ("Currency", "NativeCurrency"), ("FeeCalculator", "BaseFee"),
                     ("PrecompilesType", "InterBtcPrecompiles<Self>"), ("AddressMapping", "HashedAddressMapping<BlakeTwo256>"), ("Runner", "pallet_evm::runner::stack::Runner<Self>")):
            c.config_is(r, "pallet_evm::Config", k, t, why="only governance acts as an address")
    A = "runtime_common::"
    v = c.fn(A + "InterBtcPrecompiles::execute", args="s,h")
    H = ["h.code_address() == H160::from_low_u64_be(%d)" % i for i in range(1, 6)]
    for i, n in enumerate(("ECRecover", "Sha256", "Ripemd160", "Identity", "Modexp")):
        no = ["!(%s)" % x for x in H[:i]]
        v.returns("Some(%s::execute(h))" % n, when=no + [H[i]], why="Ethereum's own numbering")
    v.returns("None", when=["!(%s)" % x for x in H])
    v = c.fn(A + "InterBtcPrecompiles::is_precompile", args="s,a,g")
    HA = ["a == H160::from_low_u64_be(%d)" % i for i in range(1, 6)]
    for i in range(5):
        v.returns("Answer{extra_cost: 0, is_precompile: true}", when=["!(%s)" % x for x in HA[:i]] + [HA[i]])
    v.returns("Answer{extra_cost: 0, is_precompile: false}", when=["!(%s)" % x for x in HA], why="exactly those that execute")
    v = c.fn(A + "InterBtcPrecompiles::used_addresses")
    v.returns("@arr(%s)" % ", ".join("H160::from_low_u64_be(%d)" % i for i in range(1, 6)))
    for f, x in (("lower", "0"), ("ideal", "Permill::from_parts(500000)"), ("upper", "Permill::from_parts(1000000)")):
        c.fn(A + "BaseFeeThreshold::" + f).returns(x, why="the base fee rises above half-full blocks and falls below")
    v = c.fn(A + "Transaction::action", args="t")
    v.returns("t.0.action", why="creation is recognised in every transaction type")
    v = c.fn(A + "SetEvmChainId::on_runtime_upgrade")
    v.must("ChainId::put(Pallet::parachain_id())", why="signatures name this chain")


@prop("U06")
def xcm(c):
    for r, tok, base, own, wr, div in ((RT[0], "DOT", 5706, "INTR", "IBTC", 226600), (RT[1], "KSM", 50000, "KINT", "KBTC", 1500000)):
        env = {n: mk("path", n) for n in ("WEIGHT_REF_TIME_PER_SECOND", "DOT", "KSM", "INTR", "KINT", "IBTC", "KBTC")}
        S = "(WEIGHT_REF_TIME_PER_SECOND / @cfg('ExtrinsicBaseWeight').ref_time()) * (%s.one() / %d)" % (tok, base)
        X = r + "::xcm_config::"
        P = "%sPerSecond" % tok.title()
        KEY = "CurrencyId::Token(%s)"
        c.const_matches(r, P, "(MultiLocation::parent(), %s, 0)" % S, env=env, why="the relay chain's token pays the base rate")
        GK = "GeneralKey{data: @iupd(@repeat(0, 32), @range(0, @len(%s.encode())), %s.encode()), length: @cast('u8', @len(%s.encode()))}"
        for t, price in ((own, "((%s) * 4) / 3" % S), (wr, "(%s) / %d" % (S, div))):
            k = "CurrencyId::Token(%s)" % t
            g = GK % (k, k, k)
            c.const_matches(r, t.title() + "PerSecond", "(MultiLocation::new(1, X2(Parachain(@cfg('ParachainInfo')), %s)), %s, 0)" % (g, price), env=env, why="own tokens pay at their fixed ratio")
            c.const_matches(r, "Canonicalized" + t.title() + "PerSecond", "(MultiLocation::new(0, X1(%s)), %s, 0)" % (g, price), env=env, why="the same wherever they are named from")
        to = "ToAuthor" if tok == "DOT" else "ToTreasury"
        o, w = own.title(), wr.title()
        tr = ([P, "Canonicalized%sPerSecond" % o, "Canonicalized%sPerSecond" % w, "%sPerSecond" % o, "%sPerSecond" % w] if tok == "DOT" else
              [P, "%sPerSecond" % o, "%sPerSecond" % w, "Canonicalized%sPerSecond" % o, "Canonicalized%sPerSecond" % w])
        Q = dict(of="XcmConfig")
        c.config_is(r, "xcm_executor::Config", "Trader", "(" + ",".join("FixedRateOfFungible<%s,%s>" % (x, to) for x in tr) + ",AssetRegistryTrader<FixedRateAssetRegistryTrader<MyFixedConversionRateProvider>,%s>)" % to, **Q)
        c.config_is(r, "xcm_executor::Config", "Barrier", "Transactless<(TakeWeightCredit,AllowTopLevelPaidExecutionFrom<Everything>,AllowKnownQueryResponses<PolkadotXcm>,AllowSubscriptionsFrom<Everything>)>",
                    why="incoming messages pay for their execution and dispatch no calls", **Q)
        c.config_is(r, "xcm_executor::Config", "Weigher", "FixedWeightBounds<UnitWeightCost,RuntimeCall,MaxInstructions>", **Q)
        c.config_is(r, "xcm_executor::Config", "AssetExchanger", "()", **Q)
        c.config_is(r, "xcm_executor::Config", "AssetLocker", "()", **Q)
        c.config_is(r, "xcm_executor::Config", "Aliasers", "Nothing", why="no origin stands in for another", **Q)
        c.config_is(r, "xcm_executor::Config", "UniversalAliases", "Nothing", **Q)
        L = "(ParentIsPreset<AccountId>,SiblingParachainConvertsVia<Sibling,AccountId>,AccountId32Aliases<ParentNetwork,AccountId>)"
        c.config_is(r, "pallet_xcm::Config", "SovereignAccountOf", L, why="each chain acts from its own account")
        c.config_is(r, "xcm_executor::Config", "OriginConverter", "(SovereignSignedViaLocation<" + L + ",RuntimeOrigin>,RelayChainAsNative<RelayChainOrigin,RuntimeOrigin>,"
                    "SiblingParachainAsNative<cumulus_pallet_xcm::Origin,RuntimeOrigin>,SignedAccountId32AsNative<ParentNetwork,RuntimeOrigin>,XcmPassthrough<RuntimeOrigin>)", **Q)
        c.const_matches(r, "ParentLocation", "MultiLocation::parent()")
        for k in ("ParentNetwork", "RelayNetwork"):
            c.const_matches(r, k, "NetworkId::" + ("Polkadot" if tok == "DOT" else "Kusama"))
        c.const_matches(r, "UniversalLocation", "X2(GlobalConsensus(NetworkId::%s), Parachain(ParachainInfo::parachain_id()))" % ("Polkadot" if tok == "DOT" else "Kusama"))
        c.config_is(r, "pallet_xcm::Config", "AdminOrigin", "EnsureRoot<AccountId>", why="governance")
        for k in ("ExecuteOverweightOrigin", "ControllerOrigin"):
            c.config_is(r, "cumulus_pallet_xcmp_queue::Config", k, "EnsureRoot<AccountId>", why="governance")
        c.config_is(r, "cumulus_pallet_dmp_queue::Config", "ExecuteOverweightOrigin", "EnsureRoot<AccountId>", why="governance")
        v = c.fn(r + "::MyFixedConversionRateProvider::get_fee_per_second", args="l")
        v.let("M", "AssetRegistry::fetch_metadata_by_location(l)")
        v.returns("(if ((M is Ok) && (M is Some)) {Some(M#Some.additional.fee_per_second)} else {None})", why="other assets pay what governance set")
    A = "runtime_common::"
    v = c.fn(A + "Transactless::should_execute", args="o,i,w,p")
    v.requires("@forall(i, !(elem(i) is Instruction::Transact))", why="no message dispatches a call here")
    v.requires("T::should_execute(o, i, w, p) is Ok", why="and the inner barrier agrees")
    v = c.fn(A + "AndBarrier::should_execute", args="o,i,w,p")
    for t in "TU":
        v.requires("%s::should_execute(o, i, w, p) is Ok" % t)
    v = c.fn(A + "ToTreasury::on_nonzero_unbalanced", args="a")
    v.must("NativeCurrency::resolve_creating(@cfg('TreasuryAccount'), a)", why="what is slashed goes to the treasury")
