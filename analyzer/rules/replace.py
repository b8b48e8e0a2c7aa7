from iba.rules import prop

R, V, A = "replace::", "vault_registry::", "currency::Amount::"
OPQ = ("get_open_replace_request", "get_open_or_cancelled_replace_request", "set_replace_status", "insert_replace_request", "accept_replace_tokens")
Q = "replace::ReplaceRequests"
WC, CC = "interbtc_primitives::VaultId::wrapped_currency", "interbtc_primitives::VaultId::collateral_currency"


@prop("X01")
def request(c):
    v = c.fn(R + "_request_replace", args="vid,n", opaque=OPQ)
    v.let("M", "min(@amount(n, vid.wrapped_currency()), " + V + "requestable_to_be_replaced_tokens(vid))").let("T", V + "try_increase_to_be_replaced_tokens(vid, M)")
    v.let("G", "fee::get_replace_griefing_collateral(" + A + "convert_to(M, @cfg('GetGriefingCollateralCurrencyId')))")
    v.requires(V + "ensure_not_banned(vid) is Ok")
    v.requires("!nomination::is_opted_in(vid)", why="nominated vaults cannot be replaced")
    v.requires("M != 0")
    v.requires("T is Ok")
    v.requires("@amount(replace::ReplaceBtcDustValue, vid.wrapped_currency()) <= T", why="the pending total can be paid in bitcoin")
    v.accepts(["!nomination::is_opted_in(vid)", "M != 0", "@amount(replace::ReplaceBtcDustValue, vid.wrapped_currency()) <= T"], explicit=True)
    v.requires("G is Ok")
    v.requires(V + "transfer_funds(CurrencySource::FreeBalance(vid.account_id), CurrencySource::AvailableReplaceCollateral(vid), G) is Ok", why="collateral is locked in proportion to what is added")
    v.must("Self::deposit_event(Event::RequestReplace{old_vault_id: vid, amount: " + A + "amount(M), griefing_collateral: " + A + "amount(G)})")
    w = c.fn(R + "_withdraw_replace_request", args="vid,n")
    w.let("D", V + "withdraw_replace_request(vid, @amount(n, vid.wrapped_currency()))")
    w.requires("D is Ok")
    w.requires("D.0 != 0", why="there was something to withdraw")
    w.must("Self::deposit_event(Event::WithdrawReplace{old_vault_id: vid, withdrawn_tokens: " + A + "amount(D.0), withdrawn_griefing_collateral: " + A + "amount(D.1)})")
    VID = "interbtc_primitives::VaultId::new(frame_system::ensure_signed(o), pair.collateral, pair.wrapped)"
    for n, args in (("request_replace", "o,pair,n"), ("withdraw_replace", "o,pair,n")):
        e = c.fn(R + n, args=args, opaque=("_request_replace", "_withdraw_replace_request"))
        e.requires("frame_system::ensure_signed(o) is Ok")
        e.must(R + ("_request_replace" if n == "request_replace" else "_withdraw_replace_request") + "(%s, n)" % VID, why="vaults manage their own requests")
    s = c.fn(R + "set_replace_period", args="o,p")
    s.requires("frame_system::ensure_root(o) is Ok")
    s.must("@write('replace::ReplacePeriod', p)")
    b = c.fn(R + "GenesisConfig::build", args="self")
    for n, f in (("ReplacePeriod", "replace_period"), ("ReplaceBtcDustValue", "replace_btc_dust_value")):
        b.must("@write('replace::%s', self.%s)" % (n, f))
        c.only_writers(R + n, [R + "GenesisConfig::build"] + ([R + "set_replace_period"] if n == "ReplacePeriod" else []), why="parameters change only by governance")
    for n, x in (("get_replace_requests_for_old_vault", "old_vault.account_id"), ("get_replace_requests_for_new_vault", "new_vault.account_id")):
        c.fn(R + n, args="a").returns("mapit(filter(@iterst('iter', 'replace::ReplaceRequests'), elem(@iterst('iter', 'replace::ReplaceRequests')).1.%s == a), elem(@iterst('iter', 'replace::ReplaceRequests')).0)" % x)


@prop("X02")
def accept(c):
    v = c.fn(R + "_accept_replace", args="ov,nv,n,col,addr", opaque=OPQ)
    v.let("W", "@amount(n, ov.wrapped_currency())").let("D", V + "decrease_to_be_replaced_tokens(ov, W)").let("C", V + "calculate_collateral(@amount(col, nv.collateral_currency()), D.0, W)")
    v.let("ID", "security::get_secure_id(ov.account_id)")
    v.requires("ov != nv", why="a vault cannot replace itself")
    v.requires("ov.wrapped_currency() == nv.wrapped_currency()", why="both vaults back the same token")
    v.requires(V + "ensure_not_banned(nv) is Ok")
    v.requires("D is Ok")
    v.requires("@amount(replace::ReplaceBtcDustValue, ov.wrapped_currency()) <= D.0")
    v.accepts(["ov != nv", "ov.wrapped_currency() == nv.wrapped_currency()", "@amount(replace::ReplaceBtcDustValue, ov.wrapped_currency()) <= D.0"], explicit=True)
    v.requires("C is Ok")
    v.requires(V + "try_deposit_collateral(nv, C) is Ok", why="the new vault locks its offer in proportion to what it takes over")
    v.requires(R + "accept_replace_tokens(ov, nv, D.0) is Ok")
    v.requires(V + "transfer_funds(CurrencySource::AvailableReplaceCollateral(ov), CurrencySource::ActiveReplaceCollateral(ov), D.1) is Ok")
    v.must(R + "insert_replace_request(ID, ReplaceRequest{old_vault: ov, new_vault: nv, accept_time: security::active_block_number(), collateral: " + A + "amount(C), btc_address: addr, griefing_collateral: " + A + "amount(D.1), "
           "amount: " + A + "amount(D.0), period: replace::ReplacePeriod, btc_height: btc_relay::get_best_block_height(), status: ReplaceRequestStatus::Pending})")
    v.order(V + "try_deposit_collateral(..)", R + "accept_replace_tokens(..)", why="the deposit counts towards the required collateral")
    v.must("Self::deposit_event(Event::AcceptReplace{replace_id: ID, old_vault_id: ov, new_vault_id: nv, amount: " + A + "amount(D.0), collateral: " + A + "amount(C), btc_address: addr})")
    i = c.fn(R + "insert_replace_request", args="k,r")
    i.must("@write('replace::ReplaceRequests', r, k)")
    t = c.fn(R + "accept_replace_tokens", args="ov,nv,x")
    t.requires(V + "try_increase_to_be_redeemed_tokens(ov, x) is Ok", why="the old vault's tokens are reserved")
    t.requires(V + "try_increase_to_be_issued_tokens(nv, x) is Ok", why="the new vault can back them")
    e = c.fn(R + "accept_replace", args="o,pair,ov,n,col,addr", opaque=("_accept_replace",))
    e.requires("frame_system::ensure_signed(o) is Ok")
    e.must(R + "_accept_replace(ov, interbtc_primitives::VaultId::new(frame_system::ensure_signed(o), pair.collateral, pair.wrapped), n, col, addr)", why="vaults accept for themselves")
    c.only_writers("replace::ReplaceRequests", [R + x for x in ("accept_replace", "execute_replace", "cancel_replace", "Migration::on_runtime_upgrade")])


@prop("X03")
def settle(c):
    v = c.fn(R + "_execute_replace", args="id,tx", opaque=OPQ)
    v.let("Q", R + "get_open_or_cancelled_replace_request(id)").let("X", "@amount(Q.amount, %s(Q.old_vault))" % WC).let("G", "@amount(Q.griefing_collateral, @cfg('GetGriefingCollateralCurrencyId'))")
    v.let("C", "@amount(Q.collateral, %s(Q.new_vault))" % CC)
    P = ["Q.status is ReplaceRequestStatus::Pending"]
    N = ["!(Q.status is ReplaceRequestStatus::Pending)"]
    v.requires("Q is Ok")
    v.requires("btc_relay::verify_and_validate_op_return_transaction(tx, Q.btc_address, Q.amount, id) is Ok", why="the relay verified a payment of the exact amount to the new vault tagged with this request")
    v.requires(V + "transfer_funds(CurrencySource::ActiveReplaceCollateral(Q.old_vault), CurrencySource::FreeBalance(Q.old_vault.account_id), G) is Ok", when=P, why="the old vault gets its collateral back")
    v.never(V + "transfer_funds(..)", when=N, why="it was slashed at cancelling")
    v.requires(R + "accept_replace_tokens(Q.old_vault, Q.new_vault, X) is Ok", when=N, why="cancelling released the reservations")
    v.never(R + "accept_replace_tokens(..)", when=P)
    v.requires(V + "replace_tokens(Q.old_vault, Q.new_vault, X, C) is Ok", when=P)
    v.requires(V + "replace_tokens(Q.old_vault, Q.new_vault, X, 0) is Ok", when=N)
    v.must(R + "set_replace_status(id, ReplaceRequestStatus::Completed)", why="a request is settled once")
    v.must("Self::deposit_event(Event::ExecuteReplace{replace_id: id, old_vault_id: Q.old_vault, new_vault_id: Q.new_vault})")
    k = c.fn(R + "_cancel_replace", args="id", opaque=OPQ)
    k.let("Q", R + "get_open_replace_request(id)").let("X", "@amount(Q.amount, %s(Q.old_vault))" % WC).let("G", "@amount(Q.griefing_collateral, @cfg('GetGriefingCollateralCurrencyId'))")
    k.let("C", "@amount(Q.collateral, %s(Q.new_vault))" % CC).let("EXP", "btc_relay::has_request_expired(Q.accept_time, Q.btc_height, max(replace::ReplacePeriod, Q.period))")
    k.requires("Q is Ok")
    k.requires("EXP is Ok")
    k.requires("EXP", why="the old vault has had the whole period")
    k.requires(V + "cancel_replace_tokens(Q.old_vault, Q.new_vault, X) is Ok", why="both reservations are returned")
    k.requires(V + "transfer_funds(CurrencySource::ActiveReplaceCollateral(Q.old_vault), CurrencySource::FreeBalance(Q.new_vault.account_id), G) is Ok", why="the new vault is compensated")
    LQ, AL = V + "is_vault_liquidated(Q.new_vault)", V + "is_allowed_to_withdraw_collateral(Q.new_vault, Some(C))"
    k.requires(V + "force_withdraw_collateral(Q.new_vault, C) is Ok", when=["!" + LQ, AL], why="collateral locked for the request is released")
    k.never(V + "force_withdraw_collateral(..)", when=[LQ], why="a liquidated vault has no collateral of its own")
    k.never(V + "force_withdraw_collateral(..)", when=["!" + LQ, "!" + AL], why="releasing must not leave the vault undercollateralised")
    k.order(V + "cancel_replace_tokens(..)", V + "is_allowed_to_withdraw_collateral(..)")
    k.must(R + "set_replace_status(id, ReplaceRequestStatus::Cancelled)")
    k.must("Self::deposit_event(Event::CancelReplace{replace_id: id, new_vault_id: Q.new_vault, old_vault_id: Q.old_vault, griefing_collateral: Q.griefing_collateral})")
    for n, sts in (("get_open_replace_request", ("Pending",)), ("get_open_or_cancelled_replace_request", ("Pending", "Cancelled")), ("get_open_or_completed_replace_request", ("Pending", "Completed"))):
        g = c.fn(R + n, args="id")
        g.returns("replace::ReplaceRequests[id]")
        g.requires("@has(replace::ReplaceRequests[id])")
        for st in ("Pending", "Cancelled", "Completed"):
            if st not in sts:
                g.requires("!(replace::ReplaceRequests[id].status is ReplaceRequestStatus::%s)" % st, why="settled requests are closed")
    s = c.fn(R + "set_replace_status", args="id,st")
    s.must("@write('replace::ReplaceRequests.status', st, id)", when="@has(replace::ReplaceRequests[id])")
    for n, a in (("execute_replace", "o,id,tx"), ("cancel_replace", "o,id")):
        e = c.fn(R + n, args=a, opaque=("_execute_replace", "_cancel_replace"))
        e.requires("frame_system::ensure_signed(o) is Ok")
        e.must(R + "_" + n + "(" + a[2:] + ")")
