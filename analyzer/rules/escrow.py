from iba.rules import prop

E = "escrow::"
NOW, MAX, SPAN = "Pallet::block_number()", "@cfg('MaxPeriod')", "@cfg('Span')"
ROUND = "(h / @cfg('Span')) * @cfg('Span')"
WHO = "frame_system::ensure_signed(o)"


@prop("E01")
def locks(c):
    v = c.fn(E + "create_lock", args="o,n,h", opaque=("deposit_for",))
    v.let("W", WHO).let("NOW", NOW).let("UNTIL", ROUND)
    v.requires("W is Ok")
    v.requires("n != 0")
    v.requires("escrow::Locked[W].amount == 0", why="one lock at a time")
    v.requires("NOW < UNTIL", why="a lock ends in the future")
    v.requires("UNTIL <= NOW + " + MAX, why="and within the longest period")
    v.requires(E + "deposit_for(W, n, UNTIL) is Ok", why="ends fall on spans, where the total is adjusted")
    v.accepts(["W is Ok", "n != 0", "escrow::Locked[W].amount == 0", "NOW < UNTIL", "UNTIL <= NOW + " + MAX], explicit=True)
    v = c.fn(E + "increase_amount", args="o,n", opaque=("deposit_for",))
    v.let("W", WHO).let("NOW", NOW)
    v.requires("n != 0")
    v.requires("escrow::Locked[W].amount != 0")
    v.requires("NOW < escrow::Locked[W].end", why="a lock that ended gains nothing")
    v.requires(E + "deposit_for(W, n, 0) is Ok")
    v = c.fn(E + "increase_unlock_height", args="o,h", opaque=("deposit_for",))
    v.let("W", WHO).let("NOW", NOW).let("UNTIL", ROUND)
    v.requires("escrow::Locked[W].amount != 0")
    v.requires("NOW < escrow::Locked[W].end")
    v.requires("escrow::Locked[W].end < UNTIL", why="a lock is never shortened")
    v.requires("UNTIL <= NOW + " + MAX)
    v.requires(E + "deposit_for(W, 0, UNTIL) is Ok")
    v.accepts(["W is Ok", "escrow::Locked[W].amount != 0", "NOW < escrow::Locked[W].end", "escrow::Locked[W].end < UNTIL", "UNTIL <= NOW + " + MAX], explicit=True)
    v = c.fn(E + "update_user_stake", args="o,w", opaque=("deposit_for",))
    v.requires("frame_system::ensure_signed(o) is Ok")
    v.requires(E + "deposit_for(w, 0, 0) is Ok", why="anybody may refresh a stake, without changing the lock")
    v = c.fn(E + "withdraw", args="o", opaque=("remove_lock",))
    v.requires(E + "remove_lock(" + WHO + ") is Ok")
    d = c.fn(E + "deposit_for", args="w,n,h", opaque=("checkpoint", "get_free_balance", "balance_at"))
    d.let("OLD", "escrow::Locked[w]").let("END", "(if (0 < h) {h} else {OLD.end})")
    d.requires("T::BlockNumberToBalance::convert(" + MAX + ") <= OLD.amount + n", why="below that the voting power would round to nothing")
    d.requires("OLD.amount + n <= " + E + "get_free_balance(w)", why="only one's own free balance can be locked")
    d.accepts(["T::BlockNumberToBalance::convert(" + MAX + ") <= OLD.amount + n", "OLD.amount + n <= " + E + "get_free_balance(w)"], explicit=True)
    d.must("T::Currency::set_lock('657363726f776564', w, OLD.amount + n, WithdrawReasons::all())", why="what votes cannot be spent")
    d.must("@write('escrow::Locked.amount', OLD.amount + n, w) ||| @write('escrow::Locked', OLD.{amount: OLD.amount + n, end: END}, w)")
    d.must("@write('escrow::Locked.end', END, w) ||| @write('escrow::Locked', OLD.{amount: OLD.amount + n, end: END}, w)")
    d.must(E + "checkpoint(w, OLD, OLD.{amount: OLD.amount + n, end: END})", why="the history moves from the old lock to the new one")
    d.requires("T::EscrowRewards::withdraw_all_stake((), w) is Ok")
    d.requires("T::EscrowRewards::deposit_stake((), w, " + E + "balance_at(w, None)) is Ok", why="rewards follow voting power")
    d.order(E + "checkpoint(..)", E + "balance_at(..)")
    d.order(E + "checkpoint(..)", "T::EscrowRewards::deposit_stake(..)")
    d.order("T::EscrowRewards::withdraw_all_stake(..)", "T::EscrowRewards::deposit_stake(..)")
    d.must("Self::deposit_event(Event::Deposit{amount: n, unlock_height: h, who: w})")
    r = c.fn(E + "remove_lock", args="w", opaque=("checkpoint",))
    r.let("OLD", "escrow::Locked[w]")
    r.requires("OLD.end <= " + NOW, why="nothing is withdrawn before the lock ends")
    r.accepts(["OLD.end <= " + NOW, "T::EscrowRewards::withdraw_all_stake((), w) is Ok"], explicit=True)
    r.must("@delete('escrow::Locked', w)")
    r.must("T::Currency::remove_lock('657363726f776564', w)", why="and then all of it")
    r.requires("T::EscrowRewards::withdraw_all_stake((), w) is Ok", why="no rewards without a lock")
    r.must(E + "checkpoint(w, OLD, @default())")
    r.must("Self::deposit_event(Event::Withdraw{amount: OLD.amount, who: w})")
    c.only_writers("escrow::Locked", [E + x for x in ("deposit_for", "remove_lock")])
    g = c.fn(E + "get_free_balance", args="w")
    FB = "T::Currency::free_balance(w)"
    g.returns("0", when="escrow::Blocks[w]", why="blocked accounts lock nothing")
    g.returns(FB, when=["!escrow::Blocks[w]", "!@has(escrow::Limits[w])"])
    g = c.fn(E + "get_free_balance", args="w", opaque=("new", "reverse_balance_at"))
    g.returns(E + "Point::reverse_balance_at(" + E + "Point::new(" + FB + ", escrow::Limits[w].0, escrow::Limits[w].1, @satsub(escrow::Limits[w].1, escrow::Limits[w].0)), escrow::Limits[w].1, " + NOW + ")", when=["!escrow::Blocks[w]", "@has(escrow::Limits[w])"], why="limited accounts gain their balance over the period")
    p = c.fn(E + "Point::reverse_balance_at", args="s,e,h")
    p.returns("@satsub(s.bias, s.slope * BlockNumberToBalance::convert(@satsub(e, h)))")
    f = c.fn(E + "free_stakable", args="w", opaque=("get_free_balance",))
    f.returns("@satsub(" + E + "get_free_balance(w), escrow::Locked[w].amount)")
    l = c.fn(E + "set_account_limit", args="o,w,a,b")
    l.requires("frame_system::ensure_root(o) is Ok", why="only root limits an account")
    l.must("@write('escrow::Limits', (a, b), w)")
    l = c.fn(E + "set_account_block", args="o,w")
    l.requires("frame_system::ensure_root(o) is Ok")
    l.must("@write('escrow::Blocks', true, w)")
    c.only_writers("escrow::Limits", [E + "set_account_limit"])
    c.only_writers("escrow::Blocks", [E + "set_account_block"])


@prop("E02")
def power(c):
    p = c.fn(E + "Point::new", args="n,a,b,m")
    p.let("SL", "(if (@noovf(n / BlockNumberToBalance::convert(m))) {n / BlockNumberToBalance::convert(m)} else {0})")
    p.returns("Point{bias: SL * BlockNumberToBalance::convert(@satsub(b, a)), slope: SL, ts: a}", why="power is proportional to the amount and to the time that remains")
    p = c.fn(E + "Point::balance_at", args="s,h")
    p.returns("@satsub(s.bias, s.slope * BlockNumberToBalance::convert(@satsub(h, s.ts)))", why="it falls linearly and never below zero")
    b = c.fn(E + "balance_at", args="w,h")
    b.let("AT", "(if (h is Some) {h#Some} else {" + NOW + "})").let("P", "escrow::UserPointHistory[w, escrow::UserPointEpoch[w]]")
    b.returns("@satsub(P.bias, P.slope * BlockNumberToBalance::convert(@satsub(AT, P.ts)))" + " ||| " + E + "Point::balance_at(P, AT)")
    k = c.fn(E + "checkpoint", args="w,o,n", opaque=("new",))
    k.let("NOW", NOW)
    for x, y in (("UO", "o"), ("UN", "n")):
        k.let(x, "(if (NOW < %s.end && 1 <= %s.amount) {%sPoint::new(%s.amount, NOW, %s.end, %s)} else {@default()})" % (y, y, E, y, y, MAX))
    k.must("@write('escrow::UserPointHistory', UN, w, escrow::UserPointEpoch[w] + 1)", why="the account's power is that of its new lock")
    k.must("@write('escrow::UserPointEpoch', escrow::UserPointEpoch[w] + 1, w)")
    k.must("@write('escrow::PointHistory', ?p.{bias: ?b + @satsub(UN.bias, UO.bias), slope: ?s + @satsub(UN.slope, UO.slope)}, ?e)", why="the total changes by what the account gains")
    k.must("@write('escrow::SlopeChanges', escrow::SlopeChanges[n.end] + UN.slope, n.end)", when=["NOW < n.end", "o.end < n.end"], why="the total stops falling by this lock's slope when the lock ends")
    k.must("@write('escrow::SlopeChanges', (if (n.end == o.end) {@satsub(escrow::SlopeChanges[o.end], UO.slope) + UN.slope} else {@satsub(escrow::SlopeChanges[o.end], UO.slope)}), o.end)", when="NOW < o.end", why="a lock that is prolonged is no longer expected to end at its old height")
    k.never("@write('escrow::PointHistory', ?p.{bias: @satsub(?p.bias, _), slope: ?p.slope + (if (_) {escrow::SlopeChanges[_]} else {0}), ts: _}, _)", why="the total falls more slowly, not faster, once a lock has ended")
    t = c.fn(E + "total_supply", args="h", opaque=("supply_at",))
    t.returns(E + "supply_at(escrow::PointHistory[escrow::Epoch], (if (h is Some) {h#Some} else {" + NOW + "}))")
    r = c.fn(E + "remove_lock", args="w", opaque=("checkpoint",))
    r.must("@stm('clear_prefix', 'escrow::UserPointHistory', w, ..)")
    for it in ("UserPointHistory", "UserPointEpoch", "PointHistory", "Epoch", "SlopeChanges"):
        c.only_writers("escrow::" + it, [E + "checkpoint"] + ([E + "remove_lock", E + "Currency::make_free_balance_be"] if it == "UserPointHistory" else []))
    f = c.fn(E + "Currency::total_balance", args="w", opaque=("balance_at",))
    f.returns(E + "balance_at(w, None)")
    f = c.fn(E + "Currency::total_issuance", opaque=("total_supply",))
    f.returns(E + "total_supply(None)")
    f = c.fn(E + "Currency::free_balance", args="w", opaque=("balance_at",))
    f.returns("@satsub(" + E + "balance_at(w, None), escrow::Reserved[w])" + " ||| " + "@satsub(" + E + "balance_at(w, None), " + E + "ReservableCurrency::reserved_balance(w))", why="reserved power is not used twice")
    q = c.fn(E + "ReservableCurrency::can_reserve", args="w,n", opaque=("balance_at",))
    R = "escrow::Reserved[w]"
    q.returns("(@satsub(" + E + "balance_at(w, None), " + R + ") - n) is Some" + " ||| " + "n <= @satsub(" + E + "balance_at(w, None), " + R + ")")
    q = c.fn(E + "ReservableCurrency::reserved_balance", args="w")
    q.returns("escrow::Reserved[w]")
    q = c.fn(E + "ReservableCurrency::reserve", args="w,n", opaque=("can_reserve",))
    q.requires(E + "ReservableCurrency::can_reserve(w, n)")
    q.must("@write('escrow::Reserved', escrow::Reserved[w] + n, w)")
    q = c.fn(E + "ReservableCurrency::unreserve", args="w,n")
    q.must("@write('escrow::Reserved', (if (n <= escrow::Reserved[w]) {@satsub(escrow::Reserved[w], n)} else {0}), w)" + " ||| " + "@write('escrow::Reserved', @satsub(escrow::Reserved[w], n), w)")
    q.returns("(if (n <= escrow::Reserved[w]) {0} else {@satsub(n, escrow::Reserved[w])}) ||| @satsub(n, escrow::Reserved[w])", why="what was not reserved is reported back")
    for n, r in (("slash", "(0, 0)"), ("deposit_creating", "0"), ("burn", "0"), ("issue", "0"), ("can_slash", "false")):
        u = c.fn(E + "Currency::" + n)
        u.returns(r, why="voting power is neither minted nor slashed")
        u.never("@write(..)")
    for n in ("transfer", "ensure_can_withdraw", "deposit_into_existing", "withdraw"):
        u = c.fn(E + "Currency::" + n)
        u.requires("false", why="voting power is not transferable")
        u.never("@write(..)")
    c.only_writers("escrow::Reserved", [E + "ReservableCurrency::reserve", E + "ReservableCurrency::unreserve"])
