from iba.rules import prop

I, V = "issue::", "vault_registry::"
Q = I + "IssueRequests"
WC = "interbtc_primitives::VaultId::wrapped_currency"


def am(r, f="amount"):
    return "@amount((%s).%s, %s((%s).vault))" % (r, f, WC, r)


def gc(r):
    return "@amount(%s.griefing_collateral, %s.griefing_currency)" % (r, r)


@prop("I01")
def request(c):
    v = c.fn(I + "_request_issue", args="who,n,vid,gc")
    v.let("A", "@amount(n, vid.wrapped_currency())").let("VA", V + "get_active_vault_from_id(vid)").let("FEE", "fee::get_issue_fee(A)")
    v.let("G", "fee::get_issue_griefing_collateral(currency::Amount::convert_to(A, gc))").let("ID", "security::get_secure_id(who)")
    v.requires("btc_relay::is_fully_initialized()", why="the relay must have history to verify the payment against")
    v.requires("VA is Ok")
    v.requires("VA.status is VaultStatus::Active")
    v.requires("VA.status#Active", alt="VA.status#VaultStatus::Active", why="the vault accepts new issues")
    v.requires(V + "ensure_not_banned(vid) is Ok")
    v.requires("currency::Amount::lock_on(G, who) is Ok", why="griefing collateral is locked before anything is reserved")
    v.requires("@amount(issue::IssueBtcDustValue, _) <= A", why="dust payments cannot be relayed")
    v.requires(V + "try_increase_to_be_issued_tokens(vid, A) is Ok", why="the full amount is reserved with the vault")
    v.requires(V + "register_deposit_address(vid, ID) is Ok", why="the deposit address is derived from the request's own id")
    GC = ("currency::Amount::currency(G)", "gc")
    v.must([("@write('issue::IssueRequests', IssueRequest{vault: vid, opentime: security::active_block_number(), requester: who, btc_address: " + V + "register_deposit_address(vid, ID), "
           "btc_public_key: " + V + "get_bitcoin_public_key(vid.account_id), amount: currency::Amount::amount(A - FEE), fee: currency::Amount::amount(FEE), "
           "griefing_collateral: currency::Amount::amount(G), griefing_currency: currency::Amount::currency(G), period: issue::IssuePeriod, "
           "btc_height: btc_relay::get_best_block_height(), status: IssueRequestStatus::Pending}, ID)").replace(GC[0], g) for g in GC], why="fee and user amount add up to the reserved amount")
    v.must([("Self::deposit_event(Event::RequestIssue{issue_id: ID, requester: who, amount: currency::Amount::amount(A - FEE), fee: currency::Amount::amount(FEE), griefing_collateral: currency::Amount::amount(G), griefing_currency: currency::Amount::currency(G), "
           "vault_id: vid, vault_address: " + V + "register_deposit_address(vid, ID), vault_public_key: " + V + "get_bitcoin_public_key(vid.account_id)})").replace(GC[0], g) for g in GC], why="requesters pay to the announced address")
    v.returns("ID")
    v.requires("@noovf(A - FEE)")
    e = c.fn(I + "request_issue", args="o,n,vid,gc", opaque=("_request_issue",))
    e.requires("frame_system::ensure_signed(o) is Ok")
    e.must(I + "_request_issue(frame_system::ensure_signed(o), n, vid, gc)")
    s = c.fn(I + "set_issue_period", args="o,p")
    s.requires("frame_system::ensure_root(o) is Ok")
    s.must("@write('issue::IssuePeriod', p)")
    c.only_writers("issue::IssueRequests", [I + "request_issue", I + "execute_issue", I + "cancel_issue", I + "Migration::on_runtime_upgrade"], why="requests change only through the three calls")
    b = c.fn(I + "GenesisConfig::build", args="self")
    for n, f in (("IssuePeriod", "issue_period"), ("IssueBtcDustValue", "issue_btc_dust_value")):
        b.must("@write('issue::%s', self.%s)" % (n, f))
    for n, x in (("get_issue_requests_for_account", "requester"), ("get_issue_requests_for_vault", "vault.account_id")):
        c.fn(I + n, args="a").returns("mapit(filter(@iterst('iter', 'issue::IssueRequests'), elem(@iterst('iter', 'issue::IssueRequests')).1.%s == a), elem(@iterst('iter', 'issue::IssueRequests')).0)" % x, why="queries list exactly the account's requests")
    c.only_writers("issue::IssueBtcDustValue", [I + "GenesisConfig::build"])
    c.only_writers("issue::IssuePeriod", [I + "set_issue_period", I + "GenesisConfig::build"])


@prop("I02")
def execute(c):
    v = c.fn(I + "_execute_issue", args="who,id,tx", opaque=("set_issue_amount", "decrease_issue_amount", "try_increase_issue_amount", "set_issue_status", "get_issue_request_from_id"))
    v.let("R", I + "get_issue_request_from_id(id)").let("PAID", "btc_relay::get_and_verify_issue_payment(tx, R.btc_address)")
    v.let("X", am("R") + " + " + am("R", "fee"))
    v.bind("P", "@amount(PAID, _)")
    CAN, PEN = ["R.status is IssueRequestStatus::Cancelled"], ["!(R.status is IssueRequestStatus::Cancelled)"]
    v.requires("R is Ok")
    v.requires("!(R.status is IssueRequestStatus::Completed)", why="a request is executed once")
    v.requires("PAID is Ok", why="the payment goes to the request's own deposit address and is verified by the relay")
    # cancelled requests need new capacity
    v.requires(V + "ensure_accepting_new_issues(R.vault) is Ok", when=CAN)
    v.requires(V + "try_increase_to_be_issued_tokens(R.vault, P) is Ok", when=CAN, why="cancelling returned the reservation")
    v.requires("who == R.requester", when=["P < X"], why="only the requester may accept an underpayment")
    v.must(I + "set_issue_amount(id, R, P, 0)", when=CAN + ["P != X"], why="what is minted is what was paid")
    v.must(I + "decrease_issue_amount(id, R, P, X)", when=PEN + ["P < X"])
    v.must(I + "try_increase_issue_amount(id, R, P, X)", when=PEN + ["X < P", "!" + V + "is_vault_liquidated(R.vault)"])
    v.never(I + "try_increase_issue_amount(..)", when=PEN + ["P <= X"])
    v.never(I + "try_increase_issue_amount(..)", when=PEN + ["X < P", V + "is_vault_liquidated(R.vault)"], why="a liquidated vault takes no new tokens")
    v.never(I + "decrease_issue_amount(..)", when=PEN + ["X <= P"])
    v.requires("currency::Amount::unlock_on(" + I + "decrease_issue_amount(id, R, P, X), R.requester) is Ok", when=PEN + ["P < X"], why="the unslashed collateral goes back")
    v.requires("currency::Amount::unlock_on(%s, R.requester) is Ok" % gc("R"), when=PEN + ["P == X"], why="the griefing collateral goes back")
    v.never("currency::Amount::unlock_on(..)", when=CAN, why="it was settled when the request was cancelled")
    # minted amounts
    for pre, cond, r in ((PEN, ["P == X"], "R"), (CAN, ["P == X"], "R"), (CAN, ["P != X"], "@havoc(" + I + "set_issue_amount(id, R, P, 0), 1)"),
                         (PEN, ["P < X"], "@havoc(" + I + "decrease_issue_amount(id, R, P, X), 1)")):
        a, f = am(r), am(r, "fee")
        v.requires(V + "issue_tokens(R.vault, %s + %s) is Ok" % (a, f), alt=[V + "issue_tokens((%s).vault, %s + %s) is Ok" % (r, a, f)], when=pre + cond, why="the vault's liability grows by everything minted")
        v.requires("currency::Amount::mint_to(%s, R.requester) is Ok" % a, when=pre + cond, why="the requester receives the amount net of fee")
        v.requires("currency::Amount::mint_to(%s, fee::fee_pool_account_id()) is Ok" % f, when=pre + cond, why="the fee is minted to the fee pool")
        v.requires("fee::distribute_rewards(%s) is Ok" % f, when=pre + cond, why="exactly the fee is distributed")
    v.must(I + "set_issue_status(id, IssueRequestStatus::Completed)")
    v.must("Self::deposit_event(Event::ExecuteIssue{issue_id: id, requester: R.requester, vault_id: _, amount: currency::Amount::amount(_), fee: _})")
    e = c.fn(I + "execute_issue", args="o,id,tx", opaque=("_execute_issue",))
    e.requires("frame_system::ensure_signed(o) is Ok")
    e.must(I + "_execute_issue(frame_system::ensure_signed(o), id, tx)")


@prop("I02")
def amounts(c):
    s = c.fn(I + "set_issue_amount", args="id,r,paid,conf")
    s.let("F", "currency::Amount::amount(fee::get_issue_fee(paid))")
    s.must("@write('issue::IssueRequests.fee', F, id)")
    s.must("@write('issue::IssueRequests.amount', currency::Amount::amount(paid - @amount(F, _)), id)", why="fee and amount add up to what was paid")
    s.ends("r", "fee", "F")
    s.ends("r", "amount", "currency::Amount::amount(paid - @amount(F, _))")
    d = c.fn(I + "decrease_issue_amount", args="id,r,paid,exp", opaque=("set_issue_amount",))
    d.let("REL", V + "calculate_collateral(@amount(r.griefing_collateral, r.griefing_currency), paid, exp)")
    d.requires(V + "decrease_to_be_issued_tokens(r.vault, exp - paid) is Ok", why="the unpaid part of the reservation is returned")
    d.requires(V + "transfer_funds(CurrencySource::UserGriefing(r.requester), CurrencySource::FreeBalance(@cfg('TreasuryPalletId').into_account_truncating()), @amount(r.griefing_collateral, r.griefing_currency) - REL) is Ok",
               why="collateral is slashed in proportion to the shortfall")
    d.returns("REL", why="the rest is released")
    d.must(I + "set_issue_amount(id, r, paid, _)")
    t = c.fn(I + "try_increase_issue_amount", args="id,r,paid,exp", opaque=("set_issue_amount",))
    t.let("M", "min(paid - exp, " + V + "get_issuable_tokens_from_vault(r.vault))").let("T", V + "try_increase_to_be_issued_tokens(r.vault, M)")
    t.must(I + "set_issue_amount(id, r, exp + M, 0)", when="T is Ok", why="the surplus is minted as far as the vault can back it")
    t.never(I + "set_issue_amount(..)", when="!(T is Ok)")
    t.must("T")


@prop("I03")
def cancel(c):
    v = c.fn(I + "_cancel_issue", args="who,id", opaque=("get_pending_issue", "set_issue_status"))
    v.let("R", I + "get_pending_issue(id)").let("PER", "max(issue::IssuePeriod, R.period)").let("EXP", "btc_relay::has_request_expired(R.opentime, R.btc_height, PER)")
    v.let("G", gc("R"))
    v.let("CC", V + "calculate_collateral(G, @amount(T::BlockNumberToBalance::convert(@satsub(security::active_block_number(), R.opentime)), _), @amount(T::BlockNumberToBalance::convert(PER), _))")
    v.let("S", "min(CC, G)").let("SL", "(if (EXP) {G} else {S})").let("LIQ", V + "is_vault_liquidated(R.vault)")
    v.requires("R is Ok")
    v.requires("EXP is Ok")
    v.requires("who == R.requester", when="!EXP", why="others can cancel only after expiry")
    v.requires("currency::Amount::unlock_on(@satsub(G, S), who) is Ok", alt=["currency::Amount::unlock_on(G - S, who) is Ok"], when="!EXP", why="what is not slashed is released")
    v.requires("currency::Amount::unlock_on(SL, R.requester) is Ok", when="LIQ", why="a liquidated vault's request costs the requester nothing")
    v.requires(V + "transfer_funds(CurrencySource::UserGriefing(R.requester), CurrencySource::FreeBalance(@cfg('TreasuryPalletId').into_account_truncating()), SL) is Ok",
               when="!LIQ", why="slashed collateral goes to the treasury")
    v.requires(V + "decrease_to_be_issued_tokens(R.vault, %s + %s) is Ok" % (am("R"), am("R", "fee")), why="the whole reservation is returned")
    v.must(I + "set_issue_status(id, IssueRequestStatus::Cancelled)")
    v.must("Self::deposit_event(Event::CancelIssue{issue_id: id, requester: who, griefing_collateral: currency::Amount::amount(SL)})")
    g = c.fn(I + "get_pending_issue", args="id")
    g.returns(Q + "[id]")
    g.requires("@has(issue::IssueRequests[id])")
    g.requires("issue::IssueRequests[id].status is IssueRequestStatus::Pending", why="a request is settled once")
    h = c.fn(I + "get_issue_request_from_id", args="id")
    h.returns(Q + "[id]")
    h.requires("@has(issue::IssueRequests[id])")
    h.requires("!(issue::IssueRequests[id].status is IssueRequestStatus::Completed)")
    s = c.fn(I + "set_issue_status", args="id,st")
    s.must("@write('issue::IssueRequests.status', st, id)")
    e = c.fn(I + "cancel_issue", args="o,id", opaque=("_cancel_issue",))
    e.requires("frame_system::ensure_signed(o) is Ok")
    e.must(I + "_cancel_issue(frame_system::ensure_signed(o), id)")
