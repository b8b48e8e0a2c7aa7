from iba.rules import prop

R, S = "reward::", "staking::"
LOOPW = "@write('reward::RewardTally', reward::RewardTally[elem(CUR), (p, s)] %s n * reward::RewardPerToken[elem(CUR), p], elem(CUR), (p, s))"


@prop("F03")
def pools(c):
    for n, op in (("deposit_stake", "+"), ("withdraw_stake", "-")):
        v = c.fn(R + n, args="p,s,n")
        v.let("CUR", "reward::RewardCurrencies[p]")
        v.must("@write('reward::Stake', reward::Stake[(p, s)] %s n, (p, s))" % op)
        v.must("@write('reward::TotalStake', reward::TotalStake[p] %s n, p)" % op, why="the total is the sum of the stakes")
        v.must(LOOPW % op, why="a change of stake neither gains nor loses rewards distributed before it")
        for t in ("Stake", "TotalStake", "RewardTally"):
            v.count("@write('reward::%s', ..)" % t, 1)
        v.must("Self::deposit_event(Event::%s{amount: n, pool_id: p, stake_id: s})" % ("DepositStake" if op == "+" else "WithdrawStake"))
        if op == "-":
            v.requires("n <= reward::Stake[(p, s)]", why="nobody withdraws more than their stake")
        for e in ("reward::Stake[(p, s)] %s n" % op, "reward::TotalStake[p] %s n" % op):
            v.requires("@noovf(%s)" % e)
        t = c.fn(R + "RewardsApi::" + n, args="p,s,n", opaque=(n,))
        t.requires("n is Some", why="an amount outside the fixed-point range is an error")
        t.returns(R + n + "(p, s, n#Some)")
    d = c.fn(R + "distribute_reward", args="p,c,n")
    Z = "n != 0"
    d.requires("reward::TotalStake[p] != 0", when=Z, why="a reward without stakers is refused, so that its owner can keep it")
    d.must("@write('reward::RewardCurrencies', @mut('try_insert', reward::RewardCurrencies[p], c), p)", when=Z, why="later stakers are tallied in this currency")
    d.must("@write('reward::RewardPerToken', reward::RewardPerToken[c, p] + n / reward::TotalStake[p], c, p)", when=Z, why="every unit of stake earns the same")
    d.must("@write('reward::TotalRewards', reward::TotalRewards[c] + n, c)", when=Z)
    d.must("Self::deposit_event(Event::DistributeReward{amount: n, currency_id: c})", when=Z)
    d.never("@write(..)", when="n == 0")
    for e in ("reward::RewardPerToken[c, p] + n / reward::TotalStake[p]", "reward::TotalRewards[c] + n"):
        d.requires("@noovf(%s)" % e, when=Z)
    EARN = "(reward::Stake[(p, s)] * reward::RewardPerToken[c, p] - reward::RewardTally[c, (p, s)]).truncate_to_inner()"
    q = c.fn(R + "compute_reward", args="p,s,c")
    q.requires(EARN + " is Ok", alt=[EARN + " is Some"])
    q.returns(EARN, why="a staker's reward is its share of every distribution since it staked, less what it withdrew")
    w = c.fn(R + "withdraw_reward", args="p,s,c", opaque=("compute_reward",))
    w.let("Q", R + "compute_reward(p, s, c)").bind("F", R + "SignedFixedPoint::checked_from_integer(Q)")
    w.requires("Q is Ok")
    w.returns("Q")
    w.must("@write('reward::TotalRewards', reward::TotalRewards[c] - F, c)")
    w.must("@write('reward::RewardTally', reward::Stake[(p, s)] * reward::RewardPerToken[c, p], c, (p, s))", why="a reward is paid once")
    w.must("Self::deposit_event(Event::WithdrawReward{amount: F, currency_id: c, pool_id: p, stake_id: s})")
    w.order(R + "compute_reward(..)", "@write('reward::RewardTally', ..)", why="computed before it is settled")
    for n in ("withdraw_reward", "compute_reward"):
        t = c.fn(R + "RewardsApi::" + n, args="p,s,c", opaque=(n,))
        t.returns(R + n + "(p, s, c)")
        t.requires("@tryconv(" + R + n + "(p, s, c)) is Ok")
    t = c.fn(R + "RewardsApi::distribute_reward", args="p,c,n", opaque=("distribute_reward",))
    t.returns(R + "distribute_reward(p, c, n#Some)")
    t = c.fn(R + "RewardsApi::set_stake", args="p,s,n")
    t.let("CUR", "Self::get_stake(p, s)").requires("CUR is Ok")
    t.requires("Self::deposit_stake(p, s, @satsub(n, CUR)) is Ok", when="CUR < n", alt=["Self::deposit_stake(p, s, n - CUR) is Ok"])
    t.requires("Self::withdraw_stake(p, s, @satsub(CUR, n)) is Ok", when="n < CUR", alt=["Self::withdraw_stake(p, s, CUR - n) is Ok"])
    t.never("Self::deposit_stake(..)", when="n <= CUR", why="the stake ends at exactly the new amount")
    t.never("Self::withdraw_stake(..)", when="CUR <= n")
    t = c.fn(R + "RewardsApi::withdraw_all_stake", args="p,s")
    t.requires("Self::withdraw_stake(p, s, Self::get_stake(p, s)) is Ok")
    t.returns("Self::get_stake(p, s)")
    for n, i in (("get_stake", "reward::Stake[(p, s)]"), ("get_total_stake", "reward::TotalStake[p]")):
        t = c.fn(R + "RewardsApi::" + n, args="p,s" if n == "get_stake" else "p")
        t.returns(i + ".truncate_to_inner()")
    DW = [R + "deposit_stake", R + "withdraw_stake"]
    API = [R + "RewardsApi::" + x for x in ("deposit_stake", "withdraw_stake", "distribute_reward", "withdraw_reward")]
    c.only_writers("reward::Stake", DW + API, why="stakes change only by deposit and withdrawal")
    c.only_writers("reward::TotalStake", DW + API)
    c.only_writers("reward::RewardPerToken", [R + "distribute_reward"] + API)
    c.only_writers("reward::TotalRewards", [R + "distribute_reward", R + "withdraw_reward"] + API)
    c.only_writers("reward::RewardTally", DW + [R + "withdraw_reward"] + API)


STAKE, SPT, TALLY = "staking::Stake[i, (v, a)]", "staking::SlashPerToken[i, v]", "staking::SlashTally[i, (v, a)]"
SLASHED = "%s - (%s * %s - %s)" % (STAKE, STAKE, SPT, TALLY)
CURS = "@arr(v.currencies.wrapped, @cfg('GetNativeCurrencyId'))"


def nonce(s, i):
    return s.replace("[i", "[" + i).replace("(i,", "(" + i + ",").replace(", i, ", ", " + i + ", ")


@prop("S01")
def stakes(c):
    N = "staking::Nonce[v]"
    for n, op in (("deposit_stake", "+"), ("withdraw_stake", "-")):
        v = c.fn(S + n, args="v,a,n" + (",x" if op == "-" else ""), opaque=("apply_slash",))
        if op == "-":
            v.let("I", "(if (x is Some) {x#Some} else {staking::Nonce[v]})")
        else:
            v.let("I", N)
        W = "n != 0" if op == "-" else None
        v.let("AP", S + "apply_slash(I, v, a)")
        v.requires("AP is Ok", why="past slashes of this very pool are settled first")
        for item, k in (("Stake", "I, (v, a)"), ("TotalStake", "I, v"), ("TotalCurrentStake", "I, v")):
            v.must("@write('staking::%s', staking::%s[%s] %s n, %s)" % (item, item, k, op, k), when=W, why="stake and totals of the same pool change by the amount")
            v.requires("@noovf(staking::%s[%s] %s n)" % (item, k, op), when=W)
            v.count("@write('staking::%s', ..)" % item, 1)
            v.order(S + "apply_slash(..)", "@write('staking::%s', ..)" % item)
        v.must("@write('staking::SlashTally', staking::SlashTally[I, (v, a)] %s n * staking::SlashPerToken[I, v], I, (v, a))" % op, when=W, why="new stake is not slashed for the past")
        for cur in ("v.currencies.wrapped", "@cfg('GetNativeCurrencyId')"):
            v.requires("@noovf(n * staking::RewardPerToken[%s, (I, v)])" % cur, when=W)
        v.let("CS", CURS)
        v.must("@write('staking::RewardTally', staking::RewardTally[elem(CS), (I, v, a)] %s n * staking::RewardPerToken[elem(CS), (I, v)], elem(CS), (I, v, a))" % op, when=W, why="a change of stake neither gains nor loses rewards")
        v.must("Self::deposit_event(Event::%s{amount: n, nominator_id: a, vault_id: v})" % ("DepositStake" if op == "+" else "WithdrawStake"), when=W)
        if op == "-":
            v.requires("n <= AP", when="n != 0", why="nobody withdraws more than remains of their stake in this pool")
            v.never("@write(..)", when="n == 0")
            v.accepts(["n != 0", "AP is Ok", "n <= AP"], explicit=True)
            v.must("@delete('staking::TotalCurrentStake', I, v)", when=["n != 0", "n == staking::TotalStake[I, v]"], why="no dust remains in an empty pool")
            v.never("@delete('staking::TotalCurrentStake', ..)", when="n != staking::TotalStake[I, v]")
    p = c.fn(S + "apply_slash", args="i,v,a")
    p.let("NEW", SLASHED)
    p.returns("NEW")
    p.must("@write('staking::Stake', NEW, i, (v, a))", why="the stake shrinks by its share of the slashes since it was settled")
    p.must("@write('staking::TotalStake', staking::TotalStake[i, v] - (%s * %s - %s), i, v)" % (STAKE, SPT, TALLY), why="and so does the total")
    p.must("@write('staking::SlashTally', (NEW) * %s, i, (v, a))" % SPT, why="each slash is settled once")
    q = c.fn(S + "compute_precise_stake_at_index", args="i,v,a")
    q.returns("max(%s, 0)" % SLASHED, why="the stake that is reported is what could be withdrawn")
    q = c.fn(S + "compute_stake_at_index", args="i,v,a", opaque=("compute_precise_stake_at_index",))
    q.returns(S + "compute_precise_stake_at_index(i, v, a).truncate_to_inner()")
    k = c.fn(S + "slash_stake", args="v,n", opaque=("increase_rewards",))
    Z = "n != 0"
    k.let("I", N).let("CS", CURS)
    k.requires("staking::TotalStake[I, v] != 0", when=Z)
    k.must("@write('staking::SlashPerToken', staking::SlashPerToken[I, v] + n / staking::TotalStake[I, v], I, v)", when=Z, why="a slash hits every staker in proportion")
    k.must("@write('staking::TotalCurrentStake', staking::TotalCurrentStake[I, v] - n, I, v)", when=Z)
    k.must(S + "increase_rewards(I, elem(CS), v, n * staking::RewardPerToken[elem(CS), (I, v)])", when=Z, why="slashing takes stake, not rewards earned before")
    k.order("@write('staking::TotalCurrentStake', ..)", S + "increase_rewards(..)", when=Z, why="the rewards of the slashed stake are spread over what remains")
    k.never("@write(..)", when="n == 0")
    f = c.fn(S + "force_refund", args="v", opaque=("compute_stake_at_index", "withdraw_stake", "increment_nonce", "deposit_stake"))
    f.let("I", N).let("OWN", S + "compute_stake_at_index(I, v, v.account_id)").bind("ST", S + "SignedFixedPoint::checked_from_integer(OWN)")
    f.requires(S + "withdraw_stake(v, v.account_id, ST, Some(I)) is Ok")
    f.requires(S + "increment_nonce(v) is Ok", why="nominators are left in a pool of their own")
    f.requires(S + "deposit_stake(v, v.account_id, ST) is Ok", why="and the vault takes its own stake to the new one")
    f.order(S + "withdraw_stake(..)", S + "increment_nonce(..)")
    f.order(S + "increment_nonce(..)", S + "deposit_stake(..)")
    f.must("Self::deposit_event(Event::ForceRefund{vault_id: v})")
    f.returns("(staking::TotalCurrentStake[I, v] - ST).truncate_to_inner()", why="what stops backing the vault is exactly what the others had staked")
    i = c.fn(S + "increment_nonce", args="v")
    i.must("@write('staking::Nonce', staking::Nonce[v] + 1, v)")
    i.requires("@noovf(staking::Nonce[v] + 1)")
    w = c.fn(S + "RewardsApi::withdraw_all_stake", args="p,a", opaque=("compute_precise_stake_at_index", "withdraw_stake"))
    w.bind("IX", "(if (p.0 is Some) {p.0#Some} else {staking::Nonce[p.1]})")
    w.let("ALL", S + "compute_precise_stake_at_index(IX, p.1, a)")
    w.requires(S + "withdraw_stake(p.1, a, ALL, Some(IX)) is Ok", why="withdrawing everything leaves nothing")
    w.returns("ALL.truncate_to_inner()")
    t = c.fn(S + "RewardsApi::withdraw_stake", args="p,a,n", opaque=("withdraw_stake",))
    t.returns(S + "withdraw_stake(p.1, a, n#Some, p.0)")
    t = c.fn(S + "RewardsApi::deposit_stake", args="p,a,n", opaque=("deposit_stake",))
    t.returns(S + "deposit_stake(p.1, a, n#Some)")
    t = c.fn(S + "StakingApi::slash_stake", args="v,n", opaque=("slash_stake",))
    t.returns(S + "slash_stake(v, n#Some)")
    c.only_callers(S + "increment_nonce", [S + "force_refund"])
    c.only_callers(S + "force_refund", [S + "StakingApi::force_refund"])


@prop("S02")
def rewards(c):
    N = "staking::Nonce[v]"
    i = c.fn(S + "increase_rewards", args="i,c,v,n")
    T = "staking::TotalCurrentStake[i, v]"
    i.must("@write('staking::RewardPerToken', staking::RewardPerToken[c, (i, v)] + n / %s, c, (i, v))" % T, when=T + " != 0", why="every unit of stake that remains earns the same")
    i.never("@write(..)", when=T + " == 0")
    i.returns("(if (%s == 0) {0} else {n})" % T)
    d = c.fn(S + "distribute_reward", args="c,v,n", opaque=("increase_rewards",))
    d.let("I", N).let("X", S + "increase_rewards(I, c, v, n)")
    d.requires("X is Ok")
    d.must("@write('staking::TotalRewards', staking::TotalRewards[c, (I, v)] + X, c, (I, v))", when="X != 0")
    d.must("Self::deposit_event(Event::DistributeReward{amount: X, currency_id: c, vault_id: v})", when="X != 0")
    q = c.fn(S + "compute_reward_at_index", args="i,c,v,a", opaque=("compute_precise_stake_at_index",))
    q.returns("max((%scompute_precise_stake_at_index(i, v, a) * staking::RewardPerToken[c, (i, v)] - staking::RewardTally[c, (i, v, a)]).truncate_to_inner(), 0)" % S, why="the share of every distribution since the stake was made, less what was withdrawn")
    w = c.fn(S + "withdraw_reward_at_index", args="i,c,v,a", opaque=("apply_slash", "compute_reward_at_index"))
    w.let("Q", S + "compute_reward_at_index(i, c, v, a)").bind("F", S + "SignedFixedPoint::checked_from_integer(Q)")
    w.requires(S + "apply_slash(i, v, a) is Ok", why="the tally is based on the slashed stake of this pool")
    w.requires("Q is Ok")
    w.returns("Q")
    w.must("@write('staking::TotalRewards', staking::TotalRewards[c, (i, v)] - F, c, (i, v))")
    w.must("@write('staking::RewardTally', %s * staking::RewardPerToken[c, (i, v)], c, (i, v, a))" % STAKE, why="a reward is paid once")
    w.must("Self::deposit_event(Event::WithdrawReward{amount: F, currency_id: c, nominator_id: a, nonce: i, vault_id: v})")
    w.order(S + "apply_slash(..)", "@write('staking::RewardTally', ..)")
    w.order(S + "compute_reward_at_index(..)", "@write('staking::RewardTally', ..)")
    t = c.fn(S + "RewardsApi::distribute_reward", args="p,c,n", opaque=("distribute_reward",))
    t.requires(S + "distribute_reward(c, p.1, n#Some) is Ok")
    for n in ("compute_reward", "withdraw_reward"):
        t = c.fn(S + "RewardsApi::" + n, args="p,a,c", opaque=(n + "_at_index",))
        t.returns(S + n + "_at_index((if (p.0 is Some) {p.0#Some} else {staking::Nonce[p.1]}), c, p.1, a)")
    API = [S + "RewardsApi::" + x for x in ("deposit_stake", "withdraw_stake", "withdraw_all_stake", "distribute_reward", "withdraw_reward")] + [S + "StakingApi::slash_stake", S + "StakingApi::force_refund"]
    ANY = API + [S + x for x in ("deposit_stake", "withdraw_stake", "slash_stake", "distribute_reward", "withdraw_reward", "withdraw_reward_at_index", "force_refund", "apply_slash", "increase_rewards")]
    for item in ("Stake", "TotalStake", "TotalCurrentStake", "RewardPerToken", "SlashPerToken", "SlashTally", "RewardTally", "TotalRewards", "Nonce"):
        c.only_writers("staking::" + item, ANY + [S + "migration::fix_broken_state"] + ([S + "increment_nonce"] if item == "Nonce" else []), why="pools change only through the staking interface")
