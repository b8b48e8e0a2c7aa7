from iba.rules import prop

N, A, V, P = "nomination::", "currency::Amount::", "vault_registry::", "vault_registry::PoolManager::"


@prop("N01")
def withdraw(c):
    v = c.fn(N + "_withdraw_collateral", args="v,a,n,i", opaque=("is_opted_in",))
    v.let("NOW", "T::VaultStaking::nonce(v)").let("IX", "min(NOW, i)").let("CUR", "v.currencies.collateral").let("WANT", "(if (n is Some) {Some(@amount(n#Some, CUR))} else {None})")
    v.let("GOT", P + "withdraw_collateral(v, a, WANT, Some(IX))")
    v.requires(V + "is_allowed_to_withdraw_collateral(v, WANT)", when="NOW <= i", why="collateral that backs a vault cannot be withdrawn below the secure threshold")
    v.requires("nomination::NominationEnabled", when=["NOW <= i", "v.account_id != a"])
    v.requires("@has(nomination::Vaults[v])", when=["NOW <= i", "v.account_id != a"], alt=[N + "is_opted_in(v)"])
    v.requires("GOT is Ok", why="the stake is taken from the pool that was asked for")
    v.requires(A + "unlock_on(GOT, v.account_id) is Ok")
    v.requires(A + "transfer(GOT, v.account_id, a) is Ok", why="what was staked goes to its staker, neither more nor less")
    v.order(A + "unlock_on(..)", A + "transfer(..)")
    v.count(A + "transfer(..)", 1)
    v.requires(V + "decrease_total_backing_collateral(v.currencies, GOT) is Ok", when="NOW <= i", why="the total of locked collateral follows")
    v.never(V + "decrease_total_backing_collateral(..)", when="i < NOW", why="refunded nominations were deducted when the vault opted out")
    v.must("Self::deposit_event(Event::WithdrawCollateral{amount: " + A + "amount(GOT), nominator_id: a, vault_id: v})")
    e = c.fn(N + "withdraw_collateral", args="o,v,n,i", opaque=("_withdraw_collateral",))
    e.let("S", "frame_system::ensure_signed(o)").requires("S is Ok")
    e.requires(N + "_withdraw_collateral(v, S, n, (if (i is Some) {i#Some} else {_})) is Ok", why="only the staker withdraws its stake", alt=[N + "_withdraw_collateral(v, S, n, (if (i is Some) {i#Some} else {T::VaultStaking::nonce(v)})) is Ok"])
    c.only_callers(N + "_withdraw_collateral", [N + "withdraw_collateral"])


@prop("N02")
def deposit(c):
    d = c.fn(N + "_deposit_collateral", args="v,a,n", opaque=("get_total_nominated_collateral", "get_nomination_limit", "is_opted_in"))
    OTHER = "v.account_id != a"
    d.let("X", "@amount(n, v.currencies.collateral)").let("SUM", N + "get_total_nominated_collateral(v) + X")
    d.requires("nomination::NominationEnabled", when=OTHER)
    d.requires("@has(nomination::Vaults[v])", when=OTHER, alt=[N + "is_opted_in(v)"], why="only vaults that opted in are nominated")
    d.requires("SUM <= " + N + "get_nomination_limit(v)", when=OTHER, why="nominations stay within the vault's limit")
    d.accepts([OTHER, "nomination::NominationEnabled", "@has(nomination::Vaults[v])", N + "is_opted_in(v)", N + "get_total_nominated_collateral(v) is Ok", "SUM is Ok", "SUM <= " + N + "get_nomination_limit(v)"], explicit=True)
    d.requires(A + "transfer(X, a, v.account_id) is Ok", when=OTHER, why="the nominator pays")
    d.never(A + "transfer(..)", when="v.account_id == a")
    d.requires(P + "deposit_collateral(v, a, X) is Ok", why="and gets exactly that stake")
    d.requires(A + "lock_on(X, v.account_id) is Ok")
    d.requires(V + "try_increase_total_backing_collateral(v.currencies, X) is Ok", why="within the system's ceiling")
    d.must("Self::deposit_event(Event::DepositCollateral{amount: n, nominator_id: a, vault_id: v})")
    d.order(A + "transfer(..)", A + "lock_on(..)", when=OTHER)
    e = c.fn(N + "deposit_collateral", args="o,v,n", opaque=("_deposit_collateral",))
    e.requires(N + "_deposit_collateral(v, frame_system::ensure_signed(o), n) is Ok")
    t = c.fn(N + "NominationApi::deposit_vault_collateral", args="v,x", opaque=("_deposit_collateral",))
    t.requires(N + "_deposit_collateral(v, v.account_id, " + A + "amount(x)) is Ok")
    g = c.fn(N + "get_total_nominated_collateral", args="v")
    g.returns(V + "get_backing_collateral(v) - " + V + "compute_collateral(v)", why="nominated is what backs the vault without being its own")
    g.requires(V + "get_backing_collateral(v) is Ok")
    c.fn(N + "get_nomination_limit", args="v").returns("@amount(nomination::NominationLimit[v], v.currencies.collateral)")
    n = c.fn(N + "NominationApi::ensure_opted_in_to_nomination", args="v")
    n.requires("@has(nomination::Vaults[v])")


@prop("N02")
def opting(c):
    ID = "interbtc_primitives::VaultId::new(frame_system::ensure_signed(o), p.collateral, p.wrapped)"
    i = c.fn(N + "_opt_in_to_nomination", args="v")
    i.requires("nomination::NominationEnabled")
    i.requires(V + "vault_exists(v)", alt=["@has(vault_registry::Vaults[v])"])
    i.requires("!@has(nomination::Vaults[v])")
    i.must("@write('nomination::Vaults', true, v)")
    i.must("Self::deposit_event(Event::NominationOptIn{vault_id: v})")
    o = c.fn(N + "_opt_out_of_nomination", args="v", opaque=("is_opted_in", "get_total_nominated_collateral"))
    o.let("TOT", N + "get_total_nominated_collateral(v)").let("K", P + "kick_nominators(v)")
    o.requires("@has(nomination::Vaults[v])", alt=[N + "is_opted_in(v)"])
    o.requires("TOT is Ok")
    o.requires(V + "is_allowed_to_withdraw_collateral(v, Some(TOT))", why="a vault stays secure without its nominators")
    o.requires("K is Ok")
    o.requires(V + "decrease_total_backing_collateral(v.currencies, K) is Ok", why="what they staked backs nothing any more")
    o.must("@delete('nomination::Vaults', v)")
    o.must("Self::deposit_event(Event::NominationOptOut{vault_id: v})")
    o.order(V + "is_allowed_to_withdraw_collateral(..)", P + "kick_nominators(..)")
    for n in ("opt_in_to_nomination", "opt_out_of_nomination"):
        e = c.fn(N + n, args="o,p", opaque=("_" + n,))
        e.requires("frame_system::ensure_signed(o) is Ok")
        e.requires(N + "_" + n + "(" + ID + ") is Ok", why="only the vault itself decides")
    l = c.fn(N + "set_nomination_limit", args="o,p,n")
    l.requires("frame_system::ensure_signed(o) is Ok")
    l.must("@write('nomination::NominationLimit', n, " + ID + ")", why="a vault sets only its own limit")
    s = c.fn(N + "set_nomination_enabled", args="o,b")
    s.requires("frame_system::ensure_root(o) is Ok")
    s.must("@write('nomination::NominationEnabled', b)")
    c.only_writers("nomination::NominationEnabled", [N + "set_nomination_enabled", N + "GenesisConfig::build"])
    c.only_writers("nomination::NominationLimit", [N + "set_nomination_limit"])
    c.only_writers("nomination::Vaults", [N + "opt_in_to_nomination", N + "opt_out_of_nomination", N + "NominationApi::opt_in_to_nomination"])
