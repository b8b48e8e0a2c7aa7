from iba.rules import prop

R, V, A = "redeem::", "vault_registry::", "currency::Amount::"
OPQ = ("release_replace_collateral", "get_open_redeem_request_from_id", "set_redeem_status", "insert_redeem_request", "get_current_inclusion_fee")
POOL = "fee::fee_pool_account_id()"


@prop("D01")
def request(c):
    v = c.fn(R + "_request_redeem", args="who,n,addr,vid", opaque=("release_replace_collateral", "get_current_inclusion_fee"))
    v.let("W", "@amount(n, vid.wrapped_currency())").let("FEE", "(if (who == vid.account_id) {0} else {fee::get_redeem_fee(W)})").let("INC", R + "get_current_inclusion_fee(vid.wrapped_currency())")
    v.let("BURN", "W - FEE").let("BTC", "W - (FEE + INC)")
    v.let("PRE", "min(" + A + "checked_rounded_mul(" + A + "convert_to(BTC, vid.collateral_currency()), fee::premium_redeem_reward_rate(), Rounding::Down), " + V + "get_vault_max_premium_redeem(vid))")
    v.requires("W <= currency::get_free_balance(vid.wrapped_currency(), who)", why="users redeem only what they own")
    v.requires("addr != 0", why="paying an all-zero address loses the bitcoin")
    v.requires("fee::get_redeem_fee(W) is Ok", when="who != vid.account_id")
    v.requires("INC is Ok")
    v.requires(V + "ensure_not_banned(vid) is Ok")
    v.requires("FEE + INC + @amount(redeem::RedeemBtcDustValue, vid.wrapped_currency()) <= W", why="dust payments cannot be relayed")
    v.requires("@noovf(BTC)")
    v.accepts(["W <= currency::get_free_balance(vid.wrapped_currency(), who)", "addr != 0", "FEE + INC + @amount(redeem::RedeemBtcDustValue, vid.wrapped_currency()) <= W"], explicit=True, why="a user may redeem everything down to the dust value")
    v.requires(V + "try_increase_to_be_redeemed_tokens(vid, BURN) is Ok", why="the vault's issued tokens are reserved, without the fee it does not lose")
    v.requires(A + "lock_on(W, who) is Ok", why="the full amount including fee is locked")
    v.requires(R + "release_replace_collateral(vid, BURN) is Ok")
    v.must("@write('redeem::RedeemRequests', RedeemRequest{vault: vid, opentime: security::active_block_number(), fee: " + A + "amount(FEE), "
           "transfer_fee_btc: " + A + "amount(INC), amount_btc: " + A + "amount(BTC), premium: " + A + "amount(PRE), period: redeem::RedeemPeriod, redeemer: who, btc_address: addr, "
           "btc_height: btc_relay::get_best_block_height(), status: RedeemRequestStatus::Pending}, security::get_secure_id(who))", why="payment, transfer fee and protocol fee add up to the locked amount")
    v.order(V + "get_vault_max_premium_redeem(vid)", V + "try_increase_to_be_redeemed_tokens(..)", why="the premium is computed on the state before the redeem")
    v.returns("security::get_secure_id(who)")
    v.must("Self::deposit_event(Event::RequestRedeem{redeem_id: security::get_secure_id(who), redeemer: who, amount: " + A + "amount(BTC), fee: " + A + "amount(FEE), premium: " + A + "amount(PRE), "
           "vault_id: vid, btc_address: addr, transfer_fee: " + A + "amount(INC)})", why="vaults pay what the event announces")
    for n, x in (("get_redeem_requests_for_account", "redeemer"), ("get_redeem_requests_for_vault", "vault.account_id")):
        c.fn(R + n, args="a").returns("mapit(filter(@iterst('iter', 'redeem::RedeemRequests'), elem(@iterst('iter', 'redeem::RedeemRequests')).1.%s == a), elem(@iterst('iter', 'redeem::RedeemRequests')).0)" % x, why="queries list exactly the account's requests")
    q = c.fn(R + "get_open_or_completed_redeem_request_from_id", args="id")
    q.returns("redeem::RedeemRequests[id]")
    q.requires("redeem::RedeemRequests[id].status is RedeemRequestStatus::Pending || redeem::RedeemRequests[id].status is RedeemRequestStatus::Completed")
    f = c.fn(R + "get_current_inclusion_fee", args="w")
    f.returns(V + "calculate_inclusion_fee(w, redeem::RedeemTransactionSize)")
    p = c.fn(R + "release_replace_collateral", args="vid,b")
    p.let("D", V + "decrease_to_be_replaced_tokens(vid, b)")
    p.requires("D is Ok")
    p.requires(V + "transfer_funds(CurrencySource::AvailableReplaceCollateral(vid), CurrencySource::FreeBalance(vid.account_id), D.1) is Ok", when="D.1 != 0",
               why="collateral locked for a replace request that redeeming fulfils goes back to the vault")
    e = c.fn(R + "request_redeem", args="o,n,addr,vid", opaque=("_request_redeem",))
    e.requires("frame_system::ensure_signed(o) is Ok")
    e.must(R + "_request_redeem(frame_system::ensure_signed(o), n, addr, vid)")
    s = c.fn(R + "set_redeem_period", args="o,p")
    s.requires("frame_system::ensure_root(o) is Ok")
    s.must("@write('redeem::RedeemPeriod', p)")
    b = c.fn(R + "GenesisConfig::build", args="self")
    for n, f in (("RedeemPeriod", "redeem_period"), ("RedeemBtcDustValue", "redeem_btc_dust_value"), ("RedeemTransactionSize", "redeem_transaction_size")):
        b.must("@write('redeem::%s', self.%s)" % (n, f))
    c.only_writers("redeem::RedeemRequests", [R + x for x in ("request_redeem", "execute_redeem", "cancel_redeem", "mint_tokens_for_reimbursed_redeem", "Migration::on_runtime_upgrade")],
                   why="requests change only through these calls")
    for n in ("RedeemPeriod", "RedeemBtcDustValue", "RedeemTransactionSize"):
        c.only_writers(R + n, [R + "GenesisConfig::build"] + ([R + "set_redeem_period"] if n == "RedeemPeriod" else []), why="parameters change only by governance")


@prop("D02")
def execute(c):
    v = c.fn(R + "_execute_redeem", args="id,tx", opaque=OPQ)
    v.let("Q", R + "get_open_redeem_request_from_id(id)").let("W", "interbtc_primitives::VaultId::wrapped_currency(Q.vault)")
    v.let("BURN", "@amount(Q.amount_btc, W) + @amount(Q.transfer_fee_btc, W)").let("FEE", "@amount(Q.fee, W)")
    v.requires("Q is Ok")
    v.requires("btc_relay::verify_and_validate_op_return_transaction(tx, Q.btc_address, Q.amount_btc, id) is Ok", why="the relay verified a payment of the exact amount to the redeemer's address tagged with this request")
    v.requires(A + "burn_from(BURN, Q.redeemer) is Ok", why="everything that left the vault in bitcoin is burned")
    v.requires("@noovf(BURN)")
    v.requires(A + "unlock_on(FEE, Q.redeemer) is Ok")
    v.requires(A + "transfer(FEE, Q.redeemer, " + POOL + ") is Ok", why="the fee goes to the fee pool")
    v.requires("fee::distribute_rewards(FEE) is Ok")
    v.requires(V + "redeem_tokens(Q.vault, BURN, @amount(Q.premium, interbtc_primitives::VaultId::collateral_currency(Q.vault)), Q.redeemer) is Ok", why="the vault's liability falls by what was burned and the premium is paid")
    v.must(R + "set_redeem_status(id, RedeemRequestStatus::Completed)", why="a request is settled once")
    v.count(R + "set_redeem_status(..)", 1)
    v.count(A + "burn_from(..)", 1)
    v.must("Self::deposit_event(Event::ExecuteRedeem{redeem_id: id, redeemer: Q.redeemer, vault_id: Q.vault, amount: Q.amount_btc, fee: Q.fee, transfer_fee: Q.transfer_fee_btc})")
    g = c.fn(R + "get_open_redeem_request_from_id", args="id")
    g.returns("redeem::RedeemRequests[id]")
    g.requires("@has(redeem::RedeemRequests[id])")
    g.requires("redeem::RedeemRequests[id].status is RedeemRequestStatus::Pending", why="settled requests are closed")
    s = c.fn(R + "set_redeem_status", args="id,st")
    s.returns("st")
    s.must("@write('redeem::RedeemRequests.status', st, id)", when="@has(redeem::RedeemRequests[id])")
    e = c.fn(R + "execute_redeem", args="o,id,tx", opaque=("_execute_redeem",))
    e.requires("frame_system::ensure_signed(o) is Ok")
    e.must(R + "_execute_redeem(id, tx)")


@prop("D03")
def cancel(c):
    v = c.fn(R + "_cancel_redeem", args="who,id,rb", opaque=OPQ)
    v.let("Q", R + "get_open_redeem_request_from_id(id)").let("W", "interbtc_primitives::VaultId::wrapped_currency(Q.vault)").let("C", "interbtc_primitives::VaultId::collateral_currency(Q.vault)")
    v.let("BURN", "@amount(Q.amount_btc, W) + @amount(Q.transfer_fee_btc, W)").let("FEE", "@amount(Q.fee, W)").let("VA", V + "get_vault_from_id(Q.vault)")
    v.let("EXP", "btc_relay::has_request_expired(Q.opentime, Q.btc_height, max(redeem::RedeemPeriod, Q.period))")
    v.let("COL", A + "convert_to(BURN, C)").let("PUN", "fee::get_punishment_fee(COL)").let("LQ", V + "Vault::is_liquidated(VA)").let("BELOW", V + "is_vault_below_secure_threshold(Q.vault)")
    v.let("CONF", V + "calculate_collateral(" + V + "get_liquidated_collateral(Q.vault), BURN, @amount(VA.to_be_redeemed_tokens, W))")
    v.requires("Q is Ok")
    v.requires("who == Q.redeemer", why="only the redeemer cancels")
    v.requires("EXP is Ok")
    v.requires("EXP", why="the vault has had the whole period")
    # slashing
    v.requires(V + "decrease_liquidated_collateral(Q.vault, CONF) is Ok", when="LQ")
    v.requires(V + "transfer_funds(CurrencySource::LiquidatedCollateral(Q.vault), CurrencySource::FreeBalance(who), CONF) is Ok", when=["LQ", "rb"], why="of a liquidated vault the redeemer gets the share of the collateral set aside")
    v.requires(V + "transfer_funds(CurrencySource::LiquidatedCollateral(Q.vault), CurrencySource::LiquidationVault(Q.vault.currencies), CONF) is Ok", when=["LQ", "!rb"], why="a retried redeem leaves the collateral to the liquidation vault")
    v.requires(V + "transfer_funds_saturated(CurrencySource::Collateral(Q.vault), CurrencySource::FreeBalance(who), COL + PUN) is Ok", when=["!LQ", "rb"], why="reimbursing pays the full value and the punishment")
    v.requires(V + "transfer_funds_saturated(CurrencySource::Collateral(Q.vault), CurrencySource::FreeBalance(who), PUN) is Ok", when=["!LQ", "!rb"], why="retrying pays the punishment")
    v.must(V + "ban_vault(Q.vault)", when="!LQ", why="a failing vault is banned")
    v.must("Self::deposit_event(Event::CancelRedeem{redeem_id: id, redeemer: who, vault_id: Q.vault, slashed_amount: " + A + "amount(_), status: _})")
    # settlement
    for cond in (["rb"],):
        v.requires(A + "unlock_on(FEE, Q.redeemer) is Ok", when=cond)
        v.requires(A + "transfer(FEE, Q.redeemer, " + POOL + ") is Ok", when=cond)
        v.requires("fee::distribute_rewards(FEE) is Ok", when=cond)
    for cond, st in ((["rb", "LQ"], "true"), (["rb", "!LQ", "BELOW"], "false")):
        v.requires(A + "burn_from(BURN, who) is Ok", when=cond, why="reimbursed tokens the vault cannot back are burned")
        v.requires(V + "decrease_tokens(Q.vault, Q.redeemer, BURN) is Ok", when=cond)
        v.must(R + "set_redeem_status(id, RedeemRequestStatus::Reimbursed(%s))" % st, when=cond, why="only an unliquidated vault may mint the tokens later")
        v.never(A + "unlock_on(BURN, _)", when=cond)
    cond = ["rb", "!LQ", "!BELOW"]
    v.requires(A + "unlock_on(BURN, Q.redeemer) is Ok", when=cond)
    v.requires(A + "transfer(BURN, Q.redeemer, Q.vault.account_id) is Ok", when=cond, why="the slashed vault gets the tokens it paid for")
    v.requires(V + "decrease_to_be_redeemed_tokens(Q.vault, BURN) is Ok", when=cond)
    v.must(R + "set_redeem_status(id, RedeemRequestStatus::Reimbursed(true))", when=cond)
    v.never(A + "burn_from(..)", when=cond)
    cond = ["!rb"]
    v.requires(A + "unlock_on(BURN + FEE, who) is Ok", when=cond, why="the redeemer gets all locked tokens back")
    v.requires(V + "decrease_to_be_redeemed_tokens(Q.vault, BURN) is Ok", when=cond)
    v.must(R + "set_redeem_status(id, RedeemRequestStatus::Retried)", when=cond)
    v.never(A + "burn_from(..)", when=cond)
    v.never(A + "transfer(..)", when=cond)
    e = c.fn(R + "cancel_redeem", args="o,id,rb", opaque=("_cancel_redeem",))
    e.requires("frame_system::ensure_signed(o) is Ok")
    e.must(R + "_cancel_redeem(frame_system::ensure_signed(o), id, rb)")


@prop("D04")
def others(c):
    v = c.fn(R + "_mint_tokens_for_reimbursed_redeem", args="vid,id", opaque=OPQ)
    v.let("Q", "redeem::RedeemRequests[id]").let("W", "interbtc_primitives::VaultId::wrapped_currency(Q.vault)").let("X", "@amount(Q.amount_btc, W) + @amount(Q.transfer_fee_btc, W)")
    v.requires("@has(Q)")
    v.requires("Q.status is RedeemRequestStatus::Reimbursed")
    v.requires("!Q.status#RedeemRequestStatus::Reimbursed", why="tokens are minted once, and only if none were given at cancelling")
    v.requires("Q.vault == vid", why="only the slashed vault mints")
    v.requires(V + "try_increase_to_be_issued_tokens(vid, X) is Ok", why="the vault can back what it mints")
    v.requires(V + "issue_tokens(vid, X) is Ok")
    v.requires(A + "mint_to(X, vid.account_id) is Ok")
    v.must(R + "set_redeem_status(id, RedeemRequestStatus::Reimbursed(true))")
    v.must("Self::deposit_event(Event::MintTokensForReimbursedRedeem{redeem_id: id, vault_id: Q.vault, amount: " + A + "amount(X)})")
    e = c.fn(R + "mint_tokens_for_reimbursed_redeem", args="o,pair,id", opaque=("_mint_tokens_for_reimbursed_redeem",))
    e.requires("frame_system::ensure_signed(o) is Ok")
    e.must(R + "_mint_tokens_for_reimbursed_redeem(interbtc_primitives::VaultId::new(frame_system::ensure_signed(o), pair.collateral, pair.wrapped), id)")
    s = c.fn(R + "self_redeem::execute", args="vid,w", opaque=OPQ)
    s.let("FEE", "(if (w == " + V + "get_free_redeemable_tokens(vid)) {0} else {fee::get_redeem_fee(w)})").let("X", "w - FEE")
    s.requires(V + "ensure_not_banned(vid) is Ok")
    s.requires("w != 0")
    s.requires(V + "get_free_redeemable_tokens(vid) is Ok")
    s.requires("fee::get_redeem_fee(w) is Ok", when="w != " + V + "get_free_redeemable_tokens(vid)", why="redeeming is free only for the last tokens")
    s.requires("@noovf(X)")
    s.requires(A + "lock_on(X, vid.account_id) is Ok")
    s.requires(A + "burn_from(X, vid.account_id) is Ok", why="the vault burns its own tokens")
    s.requires(A + "transfer(FEE, vid.account_id, " + POOL + ") is Ok")
    s.requires("fee::distribute_rewards(FEE) is Ok")
    s.requires(V + "try_increase_to_be_redeemed_tokens(vid, X) is Ok")
    s.requires(V + "redeem_tokens(vid, X, 0, vid.account_id) is Ok", why="its liability falls by exactly what it burned and no premium is paid")
    s.requires(R + "release_replace_collateral(vid, X) is Ok")
    s.order(A + "burn_from(..)", V + "redeem_tokens(..)")
    s.must("redeem::deposit_event(Event::SelfRedeem{vault_id: vid, amount: " + A + "amount(X), fee: " + A + "amount(FEE)})")
    e = c.fn(R + "self_redeem", args="o,pair,n", opaque=("execute",))
    e.requires("frame_system::ensure_signed(o) is Ok")
    e.must(R + "self_redeem::execute(interbtc_primitives::VaultId::new(frame_system::ensure_signed(o), pair.collateral, pair.wrapped), @amount(n, interbtc_primitives::VaultId::wrapped_currency(interbtc_primitives::VaultId::new(frame_system::ensure_signed(o), pair.collateral, pair.wrapped))))", why="a vault redeems its own tokens")
    l = c.fn(R + "_liquidation_redeem", args="who,cur,n")
    l.let("W", "@amount(n, cur.wrapped)")
    l.requires("W <= currency::get_free_balance(cur.wrapped, who)")
    l.accepts("W <= currency::get_free_balance(cur.wrapped, who)", explicit=True)
    l.requires(A + "lock_on(W, who) is Ok")
    l.requires(A + "burn_from(W, who) is Ok", why="tokens are burned for the collateral")
    l.requires(V + "redeem_tokens_liquidation(cur.collateral, who, W) is Ok")
    l.must("Self::deposit_event(Event::LiquidationRedeem{redeemer: who, amount: n})")
    e = c.fn(R + "liquidation_redeem", args="o,cur,n", opaque=("_liquidation_redeem",))
    e.requires("frame_system::ensure_signed(o) is Ok")
    e.must(R + "_liquidation_redeem(frame_system::ensure_signed(o), cur, n)")
