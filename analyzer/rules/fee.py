from iba.rules import prop

F, A = "fee::", "currency::Amount::"
POOL = "@cfg('FeePalletId').into_account_truncating()"
PAR = [("IssueFee", "issue_fee"), ("IssueGriefingCollateral", "issue_griefing_collateral"), ("RedeemFee", "redeem_fee"), ("PremiumRedeemFee", "premium_redeem_fee"),
       ("PunishmentFee", "punishment_fee"), ("ReplaceGriefingCollateral", "replace_griefing_collateral")]


@prop("F01")
def parameters(c):
    for item, n in PAR:
        v = c.fn(F + "set_" + n, args="o,x")
        v.requires("frame_system::ensure_root(o) is Ok", why="fees are set by governance")
        v.requires("x <= @cfg('MaxExpectedValue')", why="and stay sane")
        v.must("@write('fee::%s', x)" % item)
        v.accepts(["frame_system::ensure_root(o) is Ok", "x <= @cfg('MaxExpectedValue')"])
        c.only_writers("fee::" + item, [F + "set_" + n, F + "GenesisConfig::build"])
        g = c.fn(F + "GenesisConfig::build", args="self")
        g.must("@write('fee::%s', self.%s)" % (item, n))
        r = "Rounding::Down" if item == "PremiumRedeemFee" else "Rounding::NearestPrefUp"
        q = c.fn(F + "get_" + n, args="a")
        q.returns(A + "checked_rounded_mul(a, fee::%s, %s)" % (item, r), why="each fee is its own share of the amount")
    c.fn(F + "premium_redeem_reward_rate").returns("fee::PremiumRedeemFee")
    c.fn(F + "get_redeem_fee_value").returns("fee::RedeemFee")
    v = c.fn(F + "set_commission", args="o,p,x")
    v.let("S", "frame_system::ensure_signed(o)").let("ID", "interbtc_primitives::VaultId::from_pair(S, p)")
    v.requires("S is Ok")
    v.requires("T::NominationApi::ensure_opted_in_to_nomination(ID) is Ok", why="only vaults with nominators charge a commission")
    v.requires("x <= one()", alt=["x <= one()"], why="a vault cannot take more than everything")
    v.accepts(["S is Ok", "x <= one()"], explicit=True)
    v.must("@write('fee::Commission', x, ID)", why="and only for its own vaults")
    c.only_writers("fee::Commission", [F + "set_commission"])
    c.fn(F + "get_commission_rate", args="v").returns("(if (@has(fee::Commission[v])) {fee::Commission[v]} else {0})")
    c.fn(F + "fee_pool_account_id").returns(POOL)


@prop("F02")
def flow(c):
    v = c.fn(F + "distribute_rewards", args="a")
    v.let("D", "T::CapacityRewards::distribute_reward((), " + A + "currency(a), " + A + "amount(a))")
    v.must("D", why="all of it goes to the pools")
    v.must("T::OnSweep::on_sweep(" + POOL + ", a)", when=["D is Err", "a != 0"], why="or to the treasury when there is nobody to reward")
    v.never("T::OnSweep::on_sweep(..)", when="D is Ok")
    v = c.fn(F + "distribute_vault_rewards", args="id,cur", opaque=("get_commission_rate",))
    v.let("COL", "id.collateral_currency()").let("R1", "T::CapacityRewards::withdraw_reward((), COL, cur)").let("R2", "T::VaultRewards::withdraw_reward(COL, id, cur)")
    v.let("COM", A + "checked_rounded_mul(@amount(R2, cur), " + F + "get_commission_rate(id), Rounding::Down)").let("REST", "@amount(R2, cur) - COM")
    v.requires("R1 is Ok")
    v.requires("T::VaultRewards::distribute_reward(COL, cur, R1) is Ok", why="what a currency earned goes to its vaults")
    v.requires("R2 is Ok")
    v.requires(A + "transfer(COM, " + POOL + ", id.account_id) is Ok", why="the vault takes its commission")
    v.requires("T::VaultStaking::distribute_reward((None, id), cur, " + A + "amount(REST)) is Ok", why="and the rest goes to vault and nominators")
    v.order("T::VaultRewards::distribute_reward(..)", "T::VaultRewards::withdraw_reward(..)", why="nothing is left behind")
    for t in ("T::CapacityRewards::withdraw_reward(..)", "T::VaultRewards::distribute_reward(..)", "T::VaultRewards::withdraw_reward(..)", "T::VaultStaking::distribute_reward(..)", A + "transfer(..)"):
        v.count(t, 1)
    W = c.fn(F + "withdraw_vault_rewards", args="id,who,index,cur", opaque=("distribute_vault_rewards",))
    W.let("R", "T::VaultStaking::withdraw_reward((index, id), who, cur)")
    W.requires(F + "distribute_vault_rewards(id, cur) is Ok")
    W.requires("R is Ok")
    W.requires(A + "transfer(@amount(R, cur), " + POOL + ", who) is Ok", why="exactly the staker's reward is paid, to the staker")
    W.order(F + "distribute_vault_rewards(..)", "T::VaultStaking::withdraw_reward(..)", why="including what is still in the pools")
    W.count(A + "transfer(..)", 1)
    w = c.fn(F + "withdraw_rewards", args="o,id,index", opaque=("withdraw_vault_rewards",))
    w.let("S", "frame_system::ensure_signed(o)")
    w.requires("S is Ok")
    for x in ("id.wrapped_currency()", "@cfg('GetNativeCurrencyId')"):
        w.requires(F + "withdraw_vault_rewards(id, S, index, %s) is Ok" % x, why="a staker withdraws its own rewards in both currencies")
    q = c.fn(F + "compute_vault_rewards", args="id,who,cur", opaque=("withdraw_vault_rewards",))
    q.returns("TransactionOutcome::Rollback(_)", why="asking for a reward changes nothing")
    q.must(F + "withdraw_vault_rewards(id, who, None, cur)", why="what is reported is what a withdrawal would pay")
    d = c.fn(F + "distribute_all_vault_rewards", args="id", opaque=("distribute_vault_rewards",))
    for x in ("id.wrapped_currency()", "@cfg('GetNativeCurrencyId')"):
        d.requires(F + "distribute_vault_rewards(id, %s) is Ok" % x)
    c.only_callers(F + "withdraw_vault_rewards", [F + "withdraw_rewards", F + "compute_vault_rewards"])
