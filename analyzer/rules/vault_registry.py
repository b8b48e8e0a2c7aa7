from iba.rules import prop

V, A, RV, SV, PM, CS = "vault_registry::", "currency::Amount::", "vault_registry::RichVault::", "vault_registry::RichSystemVault::", "vault_registry::PoolManager::", "vault_registry::CurrencySource::"
POOLS = ("withdraw_collateral", "slash_collateral", "deposit_collateral", "update_reward_stake", "on_vault_settings_change")
OPQ = ("issuable_tokens", "get_backing_collateral", "compute_collateral", "transfer_funds", "calculate_max_wrapped_from_collateral_for_threshold", "get_liquidation_vault",
       "get_bitcoin_public_key", "calculate_collateral", "decrease_total_backing_collateral", "try_increase_total_backing_collateral", "try_deposit_collateral") + POOLS
PARAMS = ("MinimumCollateralVault", "SystemCollateralCeiling", "SecureCollateralThreshold", "PremiumRedeemThreshold", "LiquidationCollateralThreshold")


def rec(k):
    return "vault_registry::Vaults[%s]" % k


def amt(k, f):
    return "@amount(%s.%s, %s.wrapped_currency())" % (rec(k), f, k)


def lv(f, l="L"):
    return "@amount(%s.%s, %s.currency_pair.wrapped)" % (l, f, l)


def lwrite(f, v, l="L"):
    return "@write('vault_registry::LiquidationVault', %s.{%s: %s}, %s.currency_pair)" % (l, f, v, l)


@prop("V01")
def thresholds(c):
    W = "self.data.id.wrapped_currency()"
    v = c.fn(V + "calculate_max_wrapped_from_collateral_for_threshold", args="c,w,t")
    v.returns(A + "checked_div(" + A + "convert_to(c, w), t)", why="tokens backed by collateral at a ratio")
    v = c.fn(V + "get_required_collateral_for_wrapped_with_threshold", args="w,t,cur")
    v.returns(A + "convert_to(" + A + "checked_rounded_mul(w, t, Rounding::Up), cur)", why="required collateral is rounded up")
    v = c.fn(V + "is_collateral_below_threshold", args="c,b,t", opaque=("calculate_max_wrapped_from_collateral_for_threshold",))
    v.let("M", V + "calculate_max_wrapped_from_collateral_for_threshold(c, " + A + "currency(b), t)")
    v.requires("M is Ok")
    v.returns("M < b", why="exactly at the threshold a vault is not below it")
    v = c.fn(V + "is_vault_below_liquidation_threshold", args="v,t", opaque=("is_collateral_below_threshold", "get_backing_collateral"))
    v.returns(V + "is_collateral_below_threshold(" + V + "get_backing_collateral(v.id), @amount(v.issued_tokens, v.id.wrapped_currency()), t)", why="liquidation considers issued tokens only")
    v = c.fn(V + "is_vault_below_certain_threshold", args="k,t", opaque=("is_collateral_below_threshold", "get_backing_collateral"))
    v.returns(V + "is_collateral_below_threshold(" + V + "get_backing_collateral(k), " + amt("k", "issued_tokens") + ", t)")
    v = c.fn(V + "is_vault_below_secure_threshold", args="k", opaque=("is_vault_below_certain_threshold",))
    v.let("G", "vault_registry::SecureCollateralThreshold[k.currencies]").let("X", rec("k") + ".secure_collateral_threshold")
    v.requires("@has(vault_registry::SecureCollateralThreshold[k.currencies])")
    v.returns(V + "is_vault_below_certain_threshold(k, max(G, (if (X is Some) {X#Some} else {0})))")
    v = c.fn(V + "will_be_below_premium_threshold", args="k", opaque=("is_collateral_below_threshold", "get_backing_collateral"))
    v.requires("@has(vault_registry::PremiumRedeemThreshold[k.currencies])")
    v.returns((V + "is_collateral_below_threshold(" + V + "get_backing_collateral(k), @amount((REC.issued_tokens + REC.to_be_issued_tokens) - REC.to_be_redeemed_tokens, k.wrapped_currency()), "
               "vault_registry::PremiumRedeemThreshold[k.currencies])").replace("REC", rec("k")), why="pending issues and redeems count for the premium")
    v = c.fn(V + "is_collateral_below_vault_secure_threshold", args="c,w,v", opaque=("is_collateral_below_threshold",))
    v.let("X", "v.data.secure_collateral_threshold")
    v.requires("@has(vault_registry::SecureCollateralThreshold[v.data.id.currencies])")
    v.returns(V + "is_collateral_below_threshold(c, w, max(vault_registry::SecureCollateralThreshold[v.data.id.currencies], (if (X is Some) {X#Some} else {0})))", why="the stricter of the vault's and the global threshold")
    v = c.fn(RV + "get_secure_threshold", args="self")
    v.let("X", "self.data.secure_collateral_threshold").let("G", "vault_registry::SecureCollateralThreshold[self.data.id.currencies]")
    v.requires("@has(G)")
    v.returns("max(G, (if (X is Some) {X#Some} else {0}))", why="a custom threshold only ever raises the requirement")
    v = c.fn(V + "get_vault_secure_threshold", args="k", opaque=("get_secure_threshold",))
    v.requires("@has(" + rec("k") + ")")
    v.returns(RV + "get_secure_threshold(RichVault{data: " + rec("k") + "})")
    v = c.fn(V + "get_global_secure_threshold", args="p")
    v.requires("@has(vault_registry::SecureCollateralThreshold[p])")
    v.returns("vault_registry::SecureCollateralThreshold[p]")
    v = c.fn(RV + "backed_tokens", args="self")
    v.returns("@amount(self.data.issued_tokens + self.data.to_be_issued_tokens, %s)" % W, why="pending issues are backed too")
    v = c.fn(RV + "to_be_backed_tokens", args="self")
    v.returns("@amount((self.data.issued_tokens + self.data.to_be_issued_tokens) - self.data.to_be_redeemed_tokens, %s)" % W)
    v = c.fn(RV + "get_used_collateral", args="self,t", opaque=("get_backing_collateral",))
    v.let("USED", A + "checked_rounded_mul(" + A + "convert_to(@amount(self.data.issued_tokens + self.data.to_be_issued_tokens, %s), self.data.id.currencies.collateral), t, Rounding::Down)" % W)
    v.requires("USED is Ok")
    v.returns("min(USED, " + V + "get_backing_collateral(self.data.id))")
    v = c.fn(RV + "get_free_collateral", args="self", opaque=("get_backing_collateral", "get_used_collateral", "get_secure_threshold"))
    v.returns(V + "get_backing_collateral(self.data.id) - " + RV + "get_used_collateral(self, " + RV + "get_secure_threshold(self))", why="free collateral is what secures no token yet")
    v = c.fn(RV + "is_banned", args="self")
    v.returns("self.data.banned_until is Some && security::active_block_number() <= self.data.banned_until#Some", why="banned up to and including the block")
    v = c.fn(RV + "ensure_not_banned", args="self")
    v.requires("!(self.data.banned_until is Some) || self.data.banned_until#Some < security::active_block_number()")
    v = c.fn(RV + "issuable_tokens", args="self", opaque=("get_free_collateral", "get_secure_threshold", "calculate_max_wrapped_from_collateral_for_threshold", "is_banned"))
    v.returns("(if (" + RV + "is_banned(self)) {@amount(0, %s)} else {" % W + V + "calculate_max_wrapped_from_collateral_for_threshold(" + RV + "get_free_collateral(self), %s, " % W
              + RV + "get_secure_threshold(self))})", why="new tokens need free collateral at the secure threshold")
    v = c.fn(RV + "redeemable_tokens", args="self", opaque=("is_banned",))
    v.returns("(if (" + RV + "is_banned(self)) {@amount(0, %s)} else {@amount(self.data.issued_tokens, %s) - @amount(self.data.to_be_redeemed_tokens, %s)})" % (W, W, W))
    v = c.fn(RV + "freely_redeemable_tokens", args="self")
    v.returns("@amount(self.data.issued_tokens, %s) - @amount(self.data.to_be_redeemed_tokens, %s)" % (W, W))
    v = c.fn(V + "get_free_redeemable_tokens", args="k")
    v.returns(amt("k", "issued_tokens") + " - " + amt("k", "to_be_redeemed_tokens"))
    v = c.fn(V + "is_allowed_to_withdraw_collateral", args="k,a", opaque=("get_backing_collateral", "is_collateral_below_vault_secure_threshold"))
    v.let("B", V + "get_backing_collateral(k)").let("MIN", "@amount(vault_registry::MinimumCollateralVault[k.currencies.collateral], k.currencies.collateral)").let("BT", "@amount(REC.issued_tokens + REC.to_be_issued_tokens, k.wrapped_currency())".replace("REC", rec("k")))
    v.accepts(["a is Some", "@noovf(B - a#Some)", "MIN <= B - a#Some", "@has(%s)" % rec("k")], explicit=True, why="exactly the minimum may stay")
    v.requires("B - a#Some == 0 || MIN <= B - a#Some", when=["a is Some", "@noovf(B - a#Some)"], why="a vault keeps the minimum collateral or none")
    v.returns("!" + V + "is_collateral_below_vault_secure_threshold(B - a#Some, BT, RichVault{data: %s})" % rec("k"), when=["a is Some", "@noovf(B - a#Some)"], why="tokens, pending issues included, stay secured")
    v.returns("false", when=["B is Ok", "a is Some", "!@noovf(B - a#Some)"], why="more than there is cannot be withdrawn")
    v.returns("!" + V + "is_collateral_below_vault_secure_threshold(0, BT, RichVault{data: %s})" % rec("k"), when="!(a is Some)", why="withdrawing everything leaves nothing to secure tokens")
    v = c.fn(V + "get_required_collateral_for_wrapped", args="w,cur", opaque=("get_required_collateral_for_wrapped_with_threshold",))
    v.let("P", "VaultCurrencyPair{collateral: cur, wrapped: " + A + "currency(w)}")
    v.requires("@has(vault_registry::SecureCollateralThreshold[P])")
    v.returns(V + "get_required_collateral_for_wrapped_with_threshold(w, vault_registry::SecureCollateralThreshold[P], cur)")
    v = c.fn(V + "get_required_collateral_for_vault", args="k", opaque=("get_required_collateral_for_wrapped_with_threshold", "get_secure_threshold", "backed_tokens"))
    v.returns(V + "get_required_collateral_for_wrapped_with_threshold(" + RV + "backed_tokens(RichVault{data: %s}), " % rec("k") + RV + "get_secure_threshold(RichVault{data: %s}), k.currencies.collateral)" % rec("k"))
    v = c.fn(V + "get_vault_max_premium_redeem", args="k", opaque=("get_required_collateral_for_wrapped", "get_backing_collateral", "vault_to_be_backed_tokens"))
    v.let("R", "fee::premium_redeem_reward_rate()").let("S", "vault_registry::SecureCollateralThreshold[k.currencies]")
    v.let("MISSING", "@satsub(" + V + "get_required_collateral_for_wrapped(" + V + "vault_to_be_backed_tokens(k), k.collateral_currency()), " + V + "get_backing_collateral(k))")
    v.requires("@has(S)")
    v.requires("@noovf(S - R)", why="the premium rate stays below the secure threshold")
    v.returns(A + "checked_rounded_mul(MISSING, R / (S - R), Rounding::Down)", why="premiums bring a vault back to, not beyond, its secure threshold")
    v = c.fn(V + "vault_to_be_backed_tokens", args="k", opaque=("to_be_backed_tokens",))
    v.requires("%s.status is VaultStatus::Active" % rec("k"))
    v.returns(RV + "to_be_backed_tokens(RichVault{data: %s})" % rec("k"))
    v = c.fn(V + "calculate_collateral", args="c,n,d")
    v.requires("@noovf(" + A + "amount(c) * " + A + "amount(n))", when="n != 0")
    v.returns("(if (n == 0 && d == 0) {c} else {@amount((" + A + "amount(c) * " + A + "amount(n)) / " + A + "amount(d), " + A + "currency(c))})", why="collateral is shared in proportion, multiplying before dividing")
    v = c.fn(V + "get_collateralization", args="c,i")
    v.returns(A + "ratio(c, i)")
    v = c.fn(V + "get_collateralization_from_vault_and_collateral", args="k,c,o", opaque=("backed_tokens",))
    v.let("I", "(if (o) {" + amt("k", "issued_tokens") + "} else {" + RV + "backed_tokens(RichVault{data: %s})})" % rec("k"))
    v.requires("I != 0")
    v.requires("%s.status is VaultStatus::Active" % rec("k"))
    v.returns(A + "ratio(" + A + "convert_to(c, k.wrapped_currency()), I)")
    v = c.fn(V + "get_collateralization_from_vault", args="k,o", opaque=("get_collateralization_from_vault_and_collateral", "get_backing_collateral"))
    v.returns(V + "get_collateralization_from_vault_and_collateral(k, " + V + "get_backing_collateral(k), o)")
    v = c.fn(V + "compute_capacity", args="k", opaque=("compute_collateral", "get_secure_threshold", "calculate_max_wrapped_from_collateral_for_threshold"))
    v.returns(V + "calculate_max_wrapped_from_collateral_for_threshold(" + V + "compute_collateral(k), k.currencies.wrapped, " + RV + "get_secure_threshold(RichVault{data: %s}))" % rec("k"))


@prop("V02")
def tokens(c):
    """Reservation of a vault's tokens."""
    D = "self.data"
    W = "self.data.id.wrapped_currency()"
    for n, f, sign in (("increase_issued", "issued_tokens", "+"), ("decrease_issued", "issued_tokens", "-"), ("decrease_to_be_issued", "to_be_issued_tokens", "-")):
        v = c.fn(RV + n, args="self,t", opaque=("get_liquidation_vault",))
        v.let("L", V + "get_liquidation_vault(self.data.id.currencies)").let("NEW", "@amount(%s.%s, %s) %s t" % (D, f, W, sign)).let("LNEW", "%s %s t" % (lv(f), sign))
        v.requires("@noovf(NEW)", when="!(self.data.status is VaultStatus::Liquidated)")
        v.requires("@noovf(LNEW)", when="self.data.status is VaultStatus::Liquidated")
        v.must("@write('vault_registry::Vaults', self.data.{%s: " % f + A + "amount(NEW)}, self.data.id)", when="!(self.data.status is VaultStatus::Liquidated)")
        v.never("@write('vault_registry::Vaults', ..)", when="self.data.status is VaultStatus::Liquidated", why="a liquidated vault's tokens belong to the liquidation vault")
        v.must(lwrite(f, A + "amount(LNEW)"), when="self.data.status is VaultStatus::Liquidated", why="a liquidated vault's tokens belong to the liquidation vault")
        v.never("@write('vault_registry::LiquidationVault', ..)", when="!(self.data.status is VaultStatus::Liquidated)")
    for n, f in (("increase_to_be_issued", "to_be_issued_tokens"), ("increase_to_be_redeemed", "to_be_redeemed_tokens")):
        v = c.fn(RV + n, args="self,t")
        v.let("NEW", "@amount(%s.%s, %s) + t" % (D, f, W))
        v.requires("!(self.data.status is VaultStatus::Liquidated)", why="a liquidated vault takes no new requests")
        v.requires("@noovf(NEW)")
        v.must("@write('vault_registry::Vaults', self.data.{%s: " % f + A + "amount(NEW)}, self.data.id)")
    v = c.fn(RV + "decrease_to_be_redeemed", args="self,t", opaque=("get_liquidation_vault",))
    v.let("L", V + "get_liquidation_vault(self.data.id.currencies)").let("NEW", "@amount(self.data.to_be_redeemed_tokens, %s) - t" % W).let("LNEW", lv("to_be_redeemed_tokens") + " - t")
    v.requires("@noovf(NEW)")
    v.requires("@noovf(LNEW)", when="self.data.status is VaultStatus::Liquidated")
    v.must("@write('vault_registry::Vaults', self.data.{to_be_redeemed_tokens: " + A + "amount(NEW)}, self.data.id)", why="pending redeems stay with the vault even when liquidated")
    v.must(lwrite("to_be_redeemed_tokens", A + "amount(LNEW)"), when="self.data.status is VaultStatus::Liquidated", why="and are mirrored in the liquidation vault")
    for f in ("issued", "to_be_issued", "to_be_redeemed"):
        for n, sign in (("increase", "+"), ("decrease", "-")):
            v = c.fn(SV + n + "_" + f, args="self,t")
            v.let("NEW", "@amount(self.data.%s_tokens, self.data.currency_pair.wrapped) %s t" % (f, sign))
            v.requires("@noovf(NEW)")
            v.must("@write('vault_registry::LiquidationVault', self.data.{%s_tokens: " % f + A + "amount(NEW)}, self.data.currency_pair)")
    for n, sign in (("increase_collateral", "+"), ("decrease_collateral", "-")):
        v = c.fn(SV + n, args="self,t")
        v.let("NEW", "@amount(self.data.collateral, self.data.currency_pair.collateral) %s t" % sign)
        v.requires("@noovf(NEW)")
        v.must("@write('vault_registry::LiquidationVault', self.data.{collateral: " + A + "amount(NEW)}, self.data.currency_pair)")
    v = c.fn(SV + "burn_issued", args="self,t", opaque=("decrease_issued",))
    v.must(SV + "decrease_issued(self, t)")
    v = c.fn(SV + "redeemable_tokens", args="self")
    v.returns("@amount(self.data.issued_tokens, self.data.currency_pair.wrapped) - @amount(self.data.to_be_redeemed_tokens, self.data.currency_pair.wrapped)")
    v = c.fn(SV + "to_be_backed_tokens", args="self")
    v.returns("(%s + %s) - %s" % tuple("@amount(self.data.%s_tokens, self.data.currency_pair.wrapped)" % x for x in ("issued", "to_be_issued", "to_be_redeemed")))
    for n, f in (("available_replace_collateral", "replace_collateral"), ("active_replace_collateral", "active_replace_collateral"), ("liquidated_collateral", "liquidated_collateral")):
        for p, sign in (("increase", "+"), ("decrease", "-")):
            v = c.fn(RV + p + "_" + n, args="self,t")
            v.let("NEW", "self.data.%s %s " % (f, sign) + A + "amount(t)")
            v.requires("@noovf(NEW)")
            v.must("@write('vault_registry::Vaults', self.data.{%s: NEW}, self.data.id)" % f)
    v = c.fn(RV + "set_to_be_replaced_amount", args="self,t")
    v.must("@write('vault_registry::Vaults', self.data.{to_be_replaced_tokens: " + A + "amount(t)}, self.data.id)")
    v = c.fn(V + "try_increase_to_be_issued_tokens", args="k,t", opaque=OPQ)
    v.let("I", RV + "issuable_tokens(RichVault{data: %s})" % rec("k"))
    v.requires("%s.status is VaultStatus::Active" % rec("k"), why="liquidated vaults issue nothing")
    v.requires("t <= I", why="no more is issued than the free collateral secures")
    v.must("@write('vault_registry::Vaults.to_be_issued_tokens', " + A + "amount(%s + t), k)" % amt("k", "to_be_issued_tokens"))
    v.accepts(["@has(%s)" % rec("k"), "%s.status is VaultStatus::Active" % rec("k"), "t <= I"], explicit=True)
    v.must("Self::deposit_event(Event::IncreaseToBeIssuedTokens{vault_id: k, increase: " + A + "amount(t)})")
    v = c.fn(V + "try_increase_to_be_redeemed_tokens", args="k,t", opaque=OPQ)
    v.requires("%s.status is VaultStatus::Active" % rec("k"))
    v.requires("t <= %s - %s" % (amt("k", "issued_tokens"), amt("k", "to_be_redeemed_tokens")), why="no token is redeemed twice")
    v.must("@write('vault_registry::Vaults.to_be_redeemed_tokens', " + A + "amount(%s + t), k)" % amt("k", "to_be_redeemed_tokens"))
    v.accepts(["@has(%s)" % rec("k"), "%s.status is VaultStatus::Active" % rec("k"), "t <= %s - %s" % (amt("k", "issued_tokens"), amt("k", "to_be_redeemed_tokens"))], explicit=True)
    v.must("Self::deposit_event(Event::IncreaseToBeRedeemedTokens{vault_id: k, increase: " + A + "amount(t)})")
    v = c.fn(V + "requestable_to_be_replaced_tokens", args="k")
    v.requires("%s.status is VaultStatus::Active" % rec("k"))
    v.returns("(%s - %s) - %s" % (amt("k", "issued_tokens"), amt("k", "to_be_replaced_tokens"), amt("k", "to_be_redeemed_tokens")))
    v = c.fn(V + "try_increase_to_be_replaced_tokens", args="k,t", opaque=OPQ)
    v.let("NEW", amt("k", "to_be_replaced_tokens") + " + t")
    v.requires("%s.status is VaultStatus::Active" % rec("k"))
    v.requires("NEW + %s <= %s" % (amt("k", "to_be_redeemed_tokens"), amt("k", "issued_tokens")), why="only tokens not already leaving can be replaced")
    v.must("@write('vault_registry::Vaults.to_be_replaced_tokens', " + A + "amount(NEW), k)")
    v.accepts(["@has(%s)" % rec("k"), "%s.status is VaultStatus::Active" % rec("k"), "NEW + %s <= %s" % (amt("k", "to_be_redeemed_tokens"), amt("k", "issued_tokens"))], explicit=True)
    v.returns("NEW")
    v.must("Self::deposit_event(Event::IncreaseToBeReplacedTokens{vault_id: k, increase: " + A + "amount(t)})")
    v = c.fn(V + "decrease_to_be_replaced_tokens", args="k,t", opaque=OPQ)
    v.let("OLD", amt("k", "to_be_replaced_tokens")).let("G", "@amount(%s.replace_collateral, @cfg('GetGriefingCollateralCurrencyId'))" % rec("k"))
    v.let("USED", "min(t, OLD)").let("COL", V + "calculate_collateral(G, USED, OLD)")
    v.requires("COL is Ok")
    v.must("@write('vault_registry::Vaults.to_be_replaced_tokens', " + A + "amount(OLD - USED), k)")
    v.returns("(USED, min(G, COL))", why="griefing collateral is released in proportion, never more than there is")
    v.must("Self::deposit_event(Event::DecreaseToBeReplacedTokens{vault_id: k, decrease: " + A + "amount(USED)})", why="the event reports what was taken")
    LQ = "%s.status is VaultStatus::Liquidated" % rec("k")
    for n, parts, ev in (("decrease_to_be_issued_tokens", (("to_be_issued_tokens", "-"),), "Event::DecreaseToBeIssuedTokens{vault_id: k, decrease: %s}"),
                         ("issue_tokens", (("to_be_issued_tokens", "-"), ("issued_tokens", "+")), "Event::IssueTokens{vault_id: k, increase: %s}"),
                         ("decrease_to_be_redeemed_tokens", (("to_be_redeemed_tokens", "-"),), "Event::DecreaseToBeRedeemedTokens{vault_id: k, decrease: %s}"),
                         ("decrease_tokens", (("to_be_redeemed_tokens", "-"), ("issued_tokens", "-")), "Event::DecreaseTokens{vault_id: k, user_id: u, decrease: %s}")):
        v = c.fn(V + n, args="k,u,t" if n == "decrease_tokens" else "k,t", opaque=OPQ)
        v.let("L", V + "get_liquidation_vault(k.currencies)")
        moves(v, "k", parts, LQ)
        v.must("Self::deposit_event(%s)" % (ev % (A + "amount(t)")))
    v = c.fn(V + "decrease_liquidated_collateral", args="k,a")
    v.let("NEW", rec("k") + ".liquidated_collateral - " + A + "amount(a)")
    v.requires("@noovf(NEW)")
    v.must("@write('vault_registry::Vaults.liquidated_collateral', NEW, k)")
    v = c.fn(V + "get_liquidation_vault", args="p")
    v.returns("vault_registry::LiquidationVault[p]", when="@has(vault_registry::LiquidationVault[p])")
    v.returns("DefaultSystemVault{to_be_issued_tokens: 0, issued_tokens: 0, to_be_redeemed_tokens: 0, collateral: 0, currency_pair: p}", when="!@has(vault_registry::LiquidationVault[p])")
    for n, f in (("get_to_be_issued_tokens_from_vault", "to_be_issued_tokens"),):
        v = c.fn(V + n, args="k")
        v.requires("%s.status is VaultStatus::Active" % rec("k"))
        v.returns(amt("k", f))


def moves(v, k, parts, liq, l="L", t="t", alone=True):
    """every named counter of the vault moves by t; those a liquidated vault no longer owns move in the liquidation vault instead"""
    for f, sign in parts:
        new, lnew = "%s %s %s" % (amt(k, f), sign, t), "%s %s %s" % (lv(f, l), sign, t)
        own = f == "to_be_redeemed_tokens"
        w = "@write('vault_registry::Vaults.%s', %samount(%s), %s)" % (f, A, new, k)
        v.requires("@noovf(%s)" % new, when=None if own else "!(%s)" % liq)
        v.requires("@noovf(%s)" % lnew, when=liq)
        v.must(w, when=None if own else "!(%s)" % liq)
        v.must(lwrite(f, A + "amount(%s)" % lnew, l), when=liq)
        if alone:
            v.never("@write('vault_registry::LiquidationVault', ..)", when="!(%s)" % liq)


@prop("V03")
def redeeming(c):
    """Completing redeems, replaces and liquidation redeems."""
    LQ = rec("k") + ".status is VaultStatus::Liquidated"
    TBR = amt("k", "to_be_redeemed_tokens")
    v = c.fn(V + "redeem_tokens", args="k,t,p,u", opaque=OPQ)
    v.let("L", V + "get_liquidation_vault(k.currencies)")
    moves(v, "k", (("to_be_redeemed_tokens", "-"), ("issued_tokens", "-")), LQ)
    v.let("REL", V + "calculate_collateral(@amount(%s.liquidated_collateral, k.currencies.collateral), t, %s)" % (rec("k"), TBR))
    v.must(V + "transfer_funds(CurrencySource::Collateral(k), CurrencySource::FreeBalance(u), p)", when=["!(%s)" % LQ, "p != 0"], why="the redeemer gets the premium")
    v.never(V + "transfer_funds(..)", when=LQ, why="a liquidated vault's collateral pays no premium")
    v.requires("REL is Ok", when=LQ)
    v.must(V + "decrease_total_backing_collateral(k.currencies, REL)", when=LQ)
    v.must("@write('vault_registry::Vaults.liquidated_collateral', %s.liquidated_collateral - " % rec("k") + A + "amount(REL), k)", when=LQ, why="the share of collateral kept for this redeem is released")
    v.must(A + "unlock_on(REL, k.account_id)", when=LQ, why="and becomes the vault's free balance")
    v.never(A + "unlock_on(..)", when="!(%s)" % LQ)
    v.must("Self::deposit_event(Event::RedeemTokens{vault_id: k, redeemed_amount: " + A + "amount(t)})", when=["!(%s)" % LQ, "p == 0"])
    v.must("Self::deposit_event(Event::RedeemTokensPremium{vault_id: k, redeemed_amount: " + A + "amount(t), collateral: " + A + "amount(p), user_id: u})", when=["!(%s)" % LQ, "p != 0"])
    v.must("Self::deposit_event(Event::RedeemTokensLiquidatedVault{vault_id: k, tokens: " + A + "amount(t), collateral: " + A + "amount(REL)})", when=LQ)
    v = c.fn(V + "redeem_tokens_liquidation", args="cur,u,t", opaque=OPQ)
    v.let("P", "VaultCurrencyPair{collateral: cur, wrapped: " + A + "currency(t)}").let("L", V + "get_liquidation_vault(P)")
    v.let("SHARE", V + "calculate_collateral(@amount(L.collateral, cur), t, (%s + %s) - %s)" % (lv("issued_tokens"), lv("to_be_issued_tokens"), lv("to_be_redeemed_tokens")))
    v.requires("t <= %s - %s" % (lv("issued_tokens"), lv("to_be_redeemed_tokens")), why="tokens other redeems will burn are not burned twice")
    v.requires("SHARE is Ok")
    v.accepts(["t <= %s - %s" % (lv("issued_tokens"), lv("to_be_redeemed_tokens"))], explicit=True)
    v.requires(V + "transfer_funds(CurrencySource::LiquidationVault(P), CurrencySource::FreeBalance(u), SHARE) is Ok", why="burning buys the proportional share of the liquidation vault's collateral")
    v.must(lwrite("issued_tokens", A + "amount(%s - t)" % lv("issued_tokens")))
    v.order(V + "transfer_funds(..)", "@write('vault_registry::LiquidationVault', ..)")
    v.must("Self::deposit_event(Event::RedeemTokensLiquidation{redeemer_id: u, burned_tokens: " + A + "amount(t), transferred_collateral: " + A + "amount(SHARE)})")
    v = c.fn(V + "replace_tokens", args="k,n,t,a", opaque=OPQ)
    v.let("L", V + "get_liquidation_vault(k.currencies)").let("LN", V + "get_liquidation_vault(n.currencies)")
    v.let("REL", V + "calculate_collateral(@amount(%s.liquidated_collateral, k.currencies.collateral), t, %s)" % (rec("k"), TBR))
    NL = rec("n") + ".status is VaultStatus::Liquidated"
    v.requires("REL is Ok", when=LQ)
    v.must("@write('vault_registry::Vaults.liquidated_collateral', %s.liquidated_collateral - " % rec("k") + A + "amount(REL), k)", when=LQ)
    v.requires(PM + "deposit_collateral(k, k.account_id, REL) is Ok", when=LQ, why="the replaced vault gets the collateral kept for these tokens back")
    v.never(PM + "deposit_collateral(..)", when="!(%s)" % LQ)
    moves2(v, "k", (("to_be_redeemed_tokens", "-"), ("issued_tokens", "-")), LQ, "L")
    moves2(v, "n", (("to_be_issued_tokens", "-"), ("issued_tokens", "+")), NL, "LN")
    v.must("Self::deposit_event(Event::ReplaceTokens{old_vault_id: k, new_vault_id: n, amount: " + A + "amount(t), additional_collateral: " + A + "amount(a)})")
    v = c.fn(V + "cancel_replace_tokens", args="k,n,t", opaque=OPQ)
    v.let("L", V + "get_liquidation_vault(k.currencies)").let("LN", V + "get_liquidation_vault(n.currencies)")
    v.let("REL", V + "calculate_collateral(@amount(%s.liquidated_collateral, k.currencies.collateral), t, %s)" % (rec("k"), TBR))
    v.requires("REL is Ok", when=LQ)
    v.must("@write('vault_registry::Vaults.liquidated_collateral', %s.liquidated_collateral - " % rec("k") + A + "amount(REL), k)", when=LQ)
    v.requires(V + "transfer_funds(CurrencySource::LiquidatedCollateral(k), CurrencySource::LiquidationVault(k.currencies), REL) is Ok", when=LQ,
               why="tokens that stay in the liquidation vault keep their collateral there")
    v.never(V + "transfer_funds(..)", when="!(%s)" % LQ)
    moves2(v, "k", (("to_be_redeemed_tokens", "-"),), LQ, "L")
    moves2(v, "n", (("to_be_issued_tokens", "-"),), NL, "LN")
    v = c.fn(V + "withdraw_replace_request", args="k,a", opaque=OPQ + ("decrease_to_be_replaced_tokens",))
    v.let("D", V + "decrease_to_be_replaced_tokens(k, a)")
    v.requires("D is Ok")
    v.requires(V + "transfer_funds(CurrencySource::AvailableReplaceCollateral(k), CurrencySource::FreeBalance(k.account_id), D.1) is Ok", why="unused griefing collateral goes back to the vault")
    v.returns("(D.0, D.1)")


def moves2(v, k, parts, liq, l):
    moves(v, k, parts, liq, l, alone=False)


SRC = ("Collateral", "AvailableReplaceCollateral", "ActiveReplaceCollateral", "UserGriefing", "FreeBalance", "LiquidatedCollateral", "LiquidationVault")


@prop("V04")
def funds(c):
    """Moving collateral between its places."""
    v = c.fn(CS + "account_id", args="self", opaque=("liquidation_vault_account_id",))
    for n in SRC:
        acc = V + "liquidation_vault_account_id()" if n == "LiquidationVault" else "self#CurrencySource::%s" % n if n in ("UserGriefing", "FreeBalance") else "self#CurrencySource::%s.account_id" % n
        v.returns(acc, when="self is CurrencySource::%s" % n)
    v = c.fn(CS + "current_balance", args="self,cur", opaque=("get_backing_collateral", "get_liquidation_vault"))
    GR = "@cfg('GetGriefingCollateralCurrencyId')"
    for n, r in (("Collateral", V + "get_backing_collateral(self#CurrencySource::Collateral)"), ("AvailableReplaceCollateral", "@amount(vault_registry::Vaults[self#CurrencySource::AvailableReplaceCollateral].replace_collateral, %s)" % GR),
                 ("ActiveReplaceCollateral", "@amount(vault_registry::Vaults[self#CurrencySource::ActiveReplaceCollateral].active_replace_collateral, %s)" % GR), ("UserGriefing", "currency::get_reserved_balance(cur, self#CurrencySource::UserGriefing)"),
                 ("FreeBalance", "currency::get_free_balance(cur, self#CurrencySource::FreeBalance)"), ("LiquidatedCollateral", "@amount(vault_registry::Vaults[self#CurrencySource::LiquidatedCollateral].liquidated_collateral, self#CurrencySource::LiquidatedCollateral.collateral_currency())"),
                 ("LiquidationVault", "@amount(" + V + "get_liquidation_vault(self#CurrencySource::LiquidationVault).collateral, self#CurrencySource::LiquidationVault.collateral)")):
        v.returns(r, when="self is CurrencySource::%s" % n)
    v = c.fn(V + "transfer_funds_saturated", args="f,g,a", opaque=("transfer_funds", "current_balance"))
    v.let("B", CS + "current_balance(f, " + A + "currency(a))")
    v.requires("B is Ok")
    v.let("X", "min(a, B)")
    v.requires(V + "transfer_funds(f, g, X) is Ok")
    v.returns("X", why="what was really moved is reported")
    v = c.fn(V + "transfer_funds", args="f,g,a", opaque=OPQ + ("slash_backing_collateral", "account_id"))
    v.let("FA", CS + "account_id(f)").let("GA", CS + "account_id(g)")
    v.requires(A + "transfer(a, FA, GA) is Ok", why="the funds move between exactly these accounts")
    is_ = lambda x, n: "%s is CurrencySource::%s" % (x, n)
    v.requires("f#CurrencySource::Collateral.currencies.collateral == " + A + "currency(a)", when=is_("f", "Collateral"), why="only the vault's own collateral currency is slashed")
    v.requires(V + "slash_backing_collateral(f#CurrencySource::Collateral, a) is Ok", when=is_("f", "Collateral"))
    v.requires("g#CurrencySource::Collateral.currencies.collateral == " + A + "currency(a)", when=is_("g", "Collateral"))
    v.requires(V + "try_deposit_collateral(g#CurrencySource::Collateral, a) is Ok", when=is_("g", "Collateral"))
    for n in SRC:
        if n not in ("Collateral", "FreeBalance"):
            v.requires(A + "unlock_on(a, FA) is Ok", when=is_("f", n), why="reserved funds are released before they move")
            v.requires(A + "lock_on(a, GA) is Ok", when=is_("g", n), why="and reserved again where they arrive")
        v.never(A + "unlock_on(..)", when=is_("f", "FreeBalance"))
        v.never(A + "lock_on(..)", when=is_("g", "FreeBalance"), why="free balance stays free")
    for n, f in (("AvailableReplaceCollateral", "replace_collateral"), ("ActiveReplaceCollateral", "active_replace_collateral")):
        v.must("@write('vault_registry::Vaults.%s', vault_registry::Vaults[f#CurrencySource::%s].%s - " % (f, n, f) + A + "amount(a), f#CurrencySource::%s)" % n, when=is_("f", n))
        v.must("@write('vault_registry::Vaults.%s', vault_registry::Vaults[g#CurrencySource::%s].%s + " % (f, n, f) + A + "amount(a), g#CurrencySource::%s)" % n, when=is_("g", n))
        v.requires("@noovf(vault_registry::Vaults[f#CurrencySource::%s].%s - " % (n, f) + A + "amount(a))", when=is_("f", n))
    for x in "fg":
        v.requires("vault_registry::Vaults[%s#CurrencySource::AvailableReplaceCollateral].status is VaultStatus::Active" % x, when=is_(x, "AvailableReplaceCollateral"), why="liquidated vaults have no open replace request")
    for n, p in (("LiquidatedCollateral", ".currencies"), ("LiquidationVault", "")):
        v.must(V + "decrease_total_backing_collateral(f#CurrencySource::%s%s, a)" % (n, p), when=is_("f", n), why="the total of locked collateral is kept")
        v.must(V + "try_increase_total_backing_collateral(g#CurrencySource::%s%s, a)" % (n, p), when=is_("g", n))
    for x, sign in (("f", "-"), ("g", "+")):
        L = V + "get_liquidation_vault(%s#CurrencySource::LiquidationVault)" % x
        v.must("@write('vault_registry::LiquidationVault', %s.{collateral: " % L + A + "amount(@amount(%s.collateral, %s.currency_pair.collateral) %s a)}, %s.currency_pair)" % (L, L, sign, L), when=is_(x, "LiquidationVault"))
    for n in SRC:
        if n not in ("Collateral", "FreeBalance"):
            v.order(A + "unlock_on(..)", A + "transfer(..)", when=is_("f", n))
    v.order(V + "slash_backing_collateral(..)", A + "transfer(..)", when=is_("f", "Collateral"))
    v.order(A + "transfer(..)", A + "lock_on(..)")
    v.order(A + "transfer(..)", V + "try_deposit_collateral(..)")
    v.count(A + "transfer(..)", 1)
    v = c.fn(V + "slash_backing_collateral", args="k,a", opaque=OPQ)
    v.requires(A + "unlock_on(a, k.account_id) is Ok")
    v.requires(V + "decrease_total_backing_collateral(k.currencies, a) is Ok")
    v.requires(PM + "slash_collateral(k, a) is Ok", why="vault and nominators share the loss")
    v = c.fn(V + "force_withdraw_collateral", args="k,a", opaque=OPQ)
    v.requires(A + "unlock_on(a, k.account_id) is Ok")
    v.requires(V + "decrease_total_backing_collateral(k.currencies, a) is Ok")
    v.requires(PM + "withdraw_collateral(k, k.account_id, Some(a), None) is Ok")
    v = c.fn(V + "try_deposit_collateral", args="k,a")
    v.returns("T::NominationApi::deposit_vault_collateral(k, a)")
    v = c.fn(V + "try_increase_total_backing_collateral", args="p,a")
    v.let("T", "@amount(vault_registry::TotalUserVaultCollateral[p], p.collateral)")
    v.requires("@has(vault_registry::SystemCollateralCeiling[p])", why="currencies without a ceiling take no collateral")
    v.requires("T + a <= @amount(vault_registry::SystemCollateralCeiling[p], p.collateral)", why="locked collateral stays within the ceiling")
    v.must("@write('vault_registry::TotalUserVaultCollateral', " + A + "amount(T + a), p)")
    v.accepts(["@has(vault_registry::SystemCollateralCeiling[p])", "T + a <= @amount(vault_registry::SystemCollateralCeiling[p], p.collateral)"], explicit=True)
    v.must("Self::deposit_event(Event::IncreaseLockedCollateral{currency_pair: p, delta: " + A + "amount(a), total: " + A + "amount(T + a)})")
    v = c.fn(V + "decrease_total_backing_collateral", args="p,a")
    v.let("T", "@amount(vault_registry::TotalUserVaultCollateral[p], p.collateral)")
    v.requires("@noovf(T - a)")
    v.must("@write('vault_registry::TotalUserVaultCollateral', " + A + "amount(T - a), p)")
    v.must("Self::deposit_event(Event::DecreaseLockedCollateral{currency_pair: p, delta: " + A + "amount(a), total: " + A + "amount(T - a)})")
    c.only_writers("vault_registry::TotalUserVaultCollateral", [V + "try_increase_total_backing_collateral", V + "decrease_total_backing_collateral"], why="the total changes with the locked collateral")


@prop("V05")
def liquidation(c):
    v = c.fn(V + "report_undercollateralized_vault", args="o,k", opaque=("is_vault_below_liquidation_threshold", "liquidate_vault"))
    T = "vault_registry::LiquidationCollateralThreshold[k.currencies]"
    v.requires("@has(%s)" % rec("k"))
    v.requires("@has(%s)" % T)
    v.requires(V + "is_vault_below_liquidation_threshold(%s, %s)" % (rec("k"), T), why="a vault is liquidated only below the liquidation threshold")
    v.requires(V + "liquidate_vault(k) is Ok")
    v = c.fn(V + "liquidate_vault", args="k", opaque=("liquidate", "get_backing_collateral"))
    v.requires("%s.status is VaultStatus::Active" % rec("k"), why="a vault is liquidated once")
    v.let("S", RV + "liquidate(RichVault{data: %s})" % rec("k"))
    v.requires("S is Ok")
    v.returns("S")
    v.must("Self::deposit_event(Event::LiquidateVault{vault_id: k, issued_tokens: REC.issued_tokens, to_be_issued_tokens: REC.to_be_issued_tokens, to_be_redeemed_tokens: REC.to_be_redeemed_tokens, "
           "to_be_replaced_tokens: REC.to_be_replaced_tokens, backing_collateral: AMT(vault_registry::get_backing_collateral(k)), status: VaultStatus::Liquidated, replace_collateral: REC.replace_collateral})".replace("REC", rec("k")).replace("AMT", A + "amount"),
           why="the event reports the vault as it was")
    v.order(V + "get_backing_collateral(k)", RV + "liquidate(..)")
    v = c.fn(RV + "liquidate", args="self", opaque=OPQ + ("backed_tokens", "get_used_collateral", "withdraw_replace_request"))
    K = "self.data.id"
    R = rec(K)
    v.let("K", K).let("R", R).let("W", K + ".wrapped_currency()")
    v.let("U", RV + "get_used_collateral(self, vault_registry::LiquidationCollateralThreshold[%s.currencies])" % K)
    v.let("B", RV + "backed_tokens(RichVault{data: R})")
    v.let("X", V + "calculate_collateral(U, B - @amount(R.to_be_redeemed_tokens, W), B)")
    v.let("OWN", V + "compute_collateral(K)")
    v.let("KEEP", "min(@satsub(U, X), OWN)")
    v.let("L", V + "get_liquidation_vault(K.currencies)")
    v.requires("@has(vault_registry::LiquidationCollateralThreshold[%s.currencies])" % K)
    v.requires("U is Ok")
    v.requires(V + "withdraw_replace_request(K, @amount(self.data.to_be_replaced_tokens, W)) is Ok", why="replace requests end with the vault")
    v.requires("X is Ok")
    v.must("@write('vault_registry::Vaults.liquidated_collateral', R.liquidated_collateral + " + A + "amount(KEEP), K)", why="collateral for pending redeems is set aside")
    v.requires(PM + "withdraw_collateral(K, K.account_id, Some(KEEP), None) is Ok")
    v.requires(PM + "withdraw_collateral(K, K.account_id, Some((if (@noovf(X - OWN)) {OWN} else {X})), None) is Ok", why="the vault pays first")
    v.requires(PM + "slash_collateral(K, X - OWN) is Ok", when="@noovf(X - OWN)", why="nominators pay only what the vault cannot")
    v.never(PM + "slash_collateral(..)", when="!@noovf(X - OWN)")
    v.requires(V + "transfer_funds(CurrencySource::LiquidatedCollateral(K), CurrencySource::LiquidationVault(K.currencies), X) is Ok")
    for f in ("issued", "to_be_issued", "to_be_redeemed"):
        v.requires("@noovf(%s + @amount(R.%s_tokens, W))" % (lv(f + "_tokens"), f), why="all tokens move to the liquidation vault")
    v.must("@write('vault_registry::LiquidationVault', L.{issued_tokens: AMT(%s + @amount(R.issued_tokens, W)), to_be_issued_tokens: AMT(%s + @amount(R.to_be_issued_tokens, W)), "
           "to_be_redeemed_tokens: AMT(%s + @amount(R.to_be_redeemed_tokens, W))}, L.currency_pair)".replace("AMT", A + "amount") % tuple(lv(f + "_tokens") for f in ("issued", "to_be_issued", "to_be_redeemed")),
           why="all tokens move to the liquidation vault")
    v.must("@write('vault_registry::Vaults.issued_tokens', 0, K)")
    v.must("@write('vault_registry::Vaults.to_be_issued_tokens', 0, K)")
    v.must("@write('vault_registry::Vaults.status', VaultStatus::Liquidated, K)")
    v.never("@write('vault_registry::Vaults.to_be_redeemed_tokens', ..)", why="pending redeems stay with the vault")
    v.returns("X")
    v.order(V + "withdraw_replace_request(..)", "@write('vault_registry::Vaults.status', ..)")
    v.order(V + "transfer_funds(..)", V + "get_liquidation_vault(..)", why="the liquidation vault is read after its collateral grew")
    v.order(RV + "get_used_collateral(..)", PM + "withdraw_collateral(..)")
    v.order("@write('vault_registry::Vaults.status', VaultStatus::Liquidated, K)", PM + "update_reward_stake(..)", why="a liquidated vault earns nothing")
    v.must(PM + "update_reward_stake(K)")
    v = c.fn(V + "undercollateralized_vaults", args="", opaque=("is_vault_below_liquidation_threshold",))
    E = "elem(@iterst('iter', 'vault_registry::Vaults'))"
    v.let("B", V + "is_vault_below_liquidation_threshold(%s.1, vault_registry::LiquidationCollateralThreshold[%s.1.id.currencies])" % (E, E))
    v.returns("mapit(filter(@iterst('iter', 'vault_registry::Vaults'), @has(vault_registry::LiquidationCollateralThreshold[%s.1.id.currencies]) && B is Ok && B), %s.0)" % (E, E), why="exactly the vaults below the threshold are reported")
    v = c.fn(V + "_offchain_worker", args="", opaque=("undercollateralized_vaults",))
    v.must("SubmitTransaction::submit_unsigned_transaction(Call::report_undercollateralized_vault{vault_id: elem(" + V + "undercollateralized_vaults())})")
    v = c.fn(V + "ValidateUnsigned::validate_unsigned", args="s,call")
    v.requires("!(s is TransactionSource::External)", why="reports from the network are not accepted")
    v.requires("call is Call::report_undercollateralized_vault", why="no other call may be unsigned")
    v.returns("?x.propagate(false).build()", why="reports stay with the block producer")
    c.fn(V + "Hooks::offchain_worker", args="n", opaque=("_offchain_worker",)).must(V + "_offchain_worker()")
    v = c.fn(V + "is_vault_liquidated", args="k")
    v.requires("@has(%s)" % rec("k"))
    v.returns("%s.status is VaultStatus::Liquidated" % rec("k"))
    v = c.fn(V + "recover_vault_id", args="o,p", opaque=OPQ)
    v.let("K", "interbtc_primitives::VaultId::new(frame_system::ensure_signed(o), p.collateral, p.wrapped)")
    v.requires("frame_system::ensure_signed(o) is Ok")
    v.requires("%s.status is VaultStatus::Liquidated" % rec("K"))
    v.requires(amt("K", "to_be_redeemed_tokens") + " == 0", why="a vault with pending redeems stays liquidated")
    v.must("@write('vault_registry::Vaults.status', VaultStatus::Active(true), K)")
    v.requires(PM + "on_vault_settings_change(K) is Ok", why="its remaining collateral earns rewards again")
    v.order("@write('vault_registry::Vaults.status', ..)", PM + "on_vault_settings_change(..)")


@prop("V06")
def registration(c):
    v = c.fn(V + "_register_vault", args="k,n", opaque=OPQ)
    C = "k.currencies"
    for n in ("SecureCollateralThreshold", "PremiumRedeemThreshold", "LiquidationCollateralThreshold", "SystemCollateralCeiling"):
        v.requires("@has(vault_registry::%s[%s])" % (n, C), why="only configured currency pairs have vaults")
    v.requires("@has(vault_registry::MinimumCollateralVault[k.collateral_currency()])")
    v.requires(V + "get_bitcoin_public_key(k.account_id) is Ok")
    v.requires("@amount(vault_registry::MinimumCollateralVault[k.currencies.collateral], k.currencies.collateral) <= @amount(n, k.currencies.collateral)")
    v.requires("!@has(%s)" % rec("k"), why="a vault registers once")
    v.accepts(["@has(vault_registry::%s[%s])" % (n, C) for n in ("SecureCollateralThreshold", "PremiumRedeemThreshold", "LiquidationCollateralThreshold", "SystemCollateralCeiling")]
              + ["@has(vault_registry::MinimumCollateralVault[k.collateral_currency()])", V + "get_bitcoin_public_key(k.account_id) is Ok",
                 "@amount(vault_registry::MinimumCollateralVault[k.currencies.collateral], k.currencies.collateral) <= @amount(n, k.currencies.collateral)", "!@has(%s)" % rec("k")], explicit=True, why="the minimum itself is enough")
    v.requires(V + "try_deposit_collateral(k, @amount(n, k.currencies.collateral)) is Ok")
    v.order("@write('vault_registry::Vaults.status', ..)", V + "try_deposit_collateral(..)", why="collateral is deposited into an existing vault")
    v.must("Self::deposit_event(Event::RegisterVault{vault_id: k, collateral: n})")
    z = ("issued_tokens", "to_be_issued_tokens", "to_be_redeemed_tokens", "to_be_replaced_tokens", "replace_collateral", "active_replace_collateral", "liquidated_collateral")
    n = c.fn("vault_registry::Vault::new", args="k")
    n.returns("Vault{id: k, banned_until: None, status: VaultStatus::Active(true), secure_collateral_threshold: @default(), " + ", ".join("%s: @default()" % x for x in z) + "}", why="a new vault owes nothing")
    c.fn("vault_registry::Vault::is_liquidated", args="self").returns("self.status is VaultStatus::Liquidated")
    c.fn("vault_registry::Vault::accepts_new_issues", args="self").returns("self.status is VaultStatus::Active && self.status#VaultStatus::Active")
    v = c.fn(V + "register_vault", args="o,p,n", opaque=("_register_vault",))
    v.requires("frame_system::ensure_signed(o) is Ok")
    v.requires(V + "_register_vault(interbtc_primitives::VaultId::new(frame_system::ensure_signed(o), p.collateral, p.wrapped), n) is Ok", why="accounts register vaults for themselves")
    v = c.fn(V + "register_public_key", args="o,pk")
    S = "frame_system::ensure_signed(o)"
    v.requires(S + " is Ok")
    v.requires("!@has(vault_registry::VaultBitcoinPublicKey[%s])" % S, why="deposit addresses in use derive from the key")
    v.must("@write('vault_registry::VaultBitcoinPublicKey', pk, %s)" % S)
    v.must("Self::deposit_event(Event::UpdatePublicKey{account_id: %s, public_key: pk})" % S)
    v = c.fn(V + "accept_new_issues", args="o,p,b", opaque=OPQ)
    v.let("K", "interbtc_primitives::VaultId::new(%s, p.collateral, p.wrapped)" % S)
    v.requires(S + " is Ok")
    v.requires("%s.status is VaultStatus::Active" % rec("K"), why="a liquidated vault cannot reactivate itself this way")
    v.must("@write('vault_registry::Vaults.status', VaultStatus::Active(b), K)")
    v.requires(PM + "on_vault_settings_change(K) is Ok", why="vaults that accept no issues earn no rewards")
    v.order("@write('vault_registry::Vaults.status', ..)", PM + "on_vault_settings_change(..)")
    v.must("Self::deposit_event(Event::SetAcceptNewIssues{vault_id: K, accept_new_issues: b})")
    v = c.fn(V + "set_custom_secure_threshold", args="o,p,t", opaque=OPQ + ("try_set_vault_custom_secure_threshold",))
    v.let("K", "interbtc_primitives::VaultId::new(%s, p.collateral, p.wrapped)" % S)
    v.requires(S + " is Ok")
    v.requires(V + "try_set_vault_custom_secure_threshold(K, t) is Ok")
    v.requires(PM + "on_vault_settings_change(K) is Ok", why="the reward stake depends on the threshold")
    v.order(V + "try_set_vault_custom_secure_threshold(..)", PM + "on_vault_settings_change(..)")
    v.must("Self::deposit_event(Event::SetCustomSecureThreshold{vault_id: K, custom_threshold: t})")
    v = c.fn(V + "try_set_vault_custom_secure_threshold", args="k,t")
    G = "vault_registry::SecureCollateralThreshold[k.currencies]"
    v.requires("@has(%s)" % G, when="t is Some")
    v.requires("%s < t#Some" % G, when="t is Some", why="a vault cannot lower its requirement")
    v.requires("@has(%s)" % rec("k"))
    v.must("@write('vault_registry::Vaults.secure_collateral_threshold', t, k)")
    v = c.fn(V + "ensure_accepting_new_issues", args="k")
    v.requires("%s.status is VaultStatus::Active" % rec("k"))
    v.requires("%s.status#VaultStatus::Active" % rec("k"))
    v.accepts(["@has(%s)" % rec("k"), "%s.status is VaultStatus::Active" % rec("k"), "%s.status#VaultStatus::Active" % rec("k")])
    v = c.fn(V + "get_active_vault_from_id", args="k")
    v.requires("%s.status is VaultStatus::Active" % rec("k"))
    v.returns(rec("k"))
    v.accepts(["@has(%s)" % rec("k"), "%s.status is VaultStatus::Active" % rec("k")])
    v = c.fn(V + "get_vault_from_id", args="k")
    v.requires("@has(%s)" % rec("k"))
    v.returns(rec("k"))
    v = c.fn(V + "get_bitcoin_public_key", args="a")
    v.requires("@has(vault_registry::VaultBitcoinPublicKey[a])")
    v.returns("vault_registry::VaultBitcoinPublicKey[a]")
    c.fn(V + "vault_exists", args="k").returns("@has(%s)" % rec("k"))
    v = c.fn(V + "ban_vault", args="k", opaque=())
    v.let("U", "security::active_block_number() + vault_registry::PunishmentDelay")
    v.requires("%s.status is VaultStatus::Active" % rec("k"))
    v.must("@write('vault_registry::Vaults.banned_until', Some(U), k)")
    v.must("Self::deposit_event(Event::BanVault{vault_id: k, banned_until: U})")
    v = c.fn(V + "ensure_not_banned", args="k", opaque=("is_banned",))
    v.requires("%s.status is VaultStatus::Active" % rec("k"))
    v.requires("!" + RV + "is_banned(RichVault{data: %s})" % rec("k"))
    v.accepts(["@has(%s)" % rec("k"), "%s.status is VaultStatus::Active" % rec("k"), "!" + RV + "is_banned(RichVault{data: %s})" % rec("k")])
    b = c.fn(V + "GenesisConfig::build", args="self")
    for n, f in zip(PARAMS, ("minimum_collateral_vault", "system_collateral_ceiling", "secure_collateral_threshold", "premium_redeem_threshold", "liquidation_collateral_threshold")):
        b.must("@write('vault_registry::%s', elem(self.%s).1, elem(self.%s).0)" % (n, f, f))
    b.must("@write('vault_registry::PunishmentDelay', self.punishment_delay)")
    for n, call, ev in (("MinimumCollateralVault", "set_minimum_collateral", None), ("SystemCollateralCeiling", "set_system_collateral_ceiling", None), ("SecureCollateralThreshold", "set_secure_collateral_threshold", "SetSecureCollateralThreshold"),
                        ("PremiumRedeemThreshold", "set_premium_redeem_threshold", "SetPremiumRedeemThreshold"), ("LiquidationCollateralThreshold", "set_liquidation_collateral_threshold", "SetLiquidationCollateralThreshold")):
        v = c.fn(V + call, args="o,p,x")
        v.requires("frame_system::ensure_root(o) is Ok", why="governance only")
        v.must("@write('vault_registry::%s', x, p)" % n)
        if ev:
            v.must("Self::deposit_event(Event::%s{currency_pair: p, threshold: x})" % ev)
        ss = "_set_minimum_collateral_vault" if n == "MinimumCollateralVault" else "_" + call
        c.only_writers("vault_registry::" + n, [V + call, V + "GenesisConfig::build"] + ([V + ss] if ss else []), why="risk parameters change only by governance")
        if ss:
            c.only_callers(V + ss, [V + call], minimum=0)
    c.only_writers("vault_registry::PunishmentDelay", [V + "GenesisConfig::build"])
    c.only_writers("vault_registry::VaultBitcoinPublicKey", [V + "register_public_key"])
    v = c.fn(RV + "new_deposit_address", args="self,s", opaque=("get_bitcoin_public_key",))
    v.let("PK", "bitcoin::PublicKey::new_deposit_public_key(" + V + "get_bitcoin_public_key(self.data.id.account_id), s)")
    v.requires("PK is Ok")
    v.returns("Address::P2WPKHv0(bitcoin::PublicKey::to_hash(PK))", why="deposits go to a key only the vault can derive, distinct per request")
    for n in ("register_deposit_address", "new_vault_deposit_address"):
        v = c.fn(V + n, args="k,s", opaque=("get_bitcoin_public_key",))
        v.let("PK", "bitcoin::PublicKey::new_deposit_public_key(" + V + "get_bitcoin_public_key(k.account_id), s)")
        v.requires("%s.status is VaultStatus::Active" % rec("k"))
        v.returns("Address::P2WPKHv0(bitcoin::PublicKey::to_hash(PK))")
        if n[0] == "r":
            v.must("Self::deposit_event(Event::RegisterAddress{vault_id: k, address: Address::P2WPKHv0(bitcoin::PublicKey::to_hash(PK))})")


@prop("V07")
def pools(c):
    """Collateral changes reach the staking, reward and capacity pools."""
    D = "fee::distribute_all_vault_rewards(k)"
    OP = ("update_reward_stake", "update_capacity_stake")
    v = c.fn(PM + "deposit_collateral", args="k,n,a", opaque=OP)
    v.requires("T::VaultStaking::deposit_stake((None, k), n, " + A + "amount(a)) is Ok")
    _pool(v, "T::VaultStaking::deposit_stake(..)")
    v = c.fn(PM + "withdraw_collateral", args="k,n,a,i", opaque=OP)
    v.requires("T::VaultStaking::withdraw_stake((i, k), n, " + A + "amount(a#Some)) is Ok", when="a is Some")
    v.requires("T::VaultStaking::withdraw_all_stake((i, k), n) is Ok", when="!(a is Some)")
    v.returns("(if (a is Some) {a#Some} else {@amount(T::VaultStaking::withdraw_all_stake((i, k), n), k.collateral_currency())})")
    _pool(v, "T::VaultStaking::withdraw_stake(..)", when="a is Some")
    v.order(D, "T::VaultStaking::withdraw_all_stake(..)")
    v.order("T::VaultStaking::withdraw_all_stake(..)", PM + "update_reward_stake(k)", when="!(a is Some)")
    v = c.fn(PM + "slash_collateral", args="k,a", opaque=OP)
    v.requires("T::VaultStaking::slash_stake(k, " + A + "amount(a)) is Ok")
    _pool(v, "T::VaultStaking::slash_stake(..)")
    v = c.fn(PM + "kick_nominators", args="k", opaque=OP)
    v.requires("T::VaultStaking::force_refund(k) is Ok")
    v.returns("@amount(T::VaultStaking::force_refund(k), k.collateral_currency())")
    _pool(v, "T::VaultStaking::force_refund(..)")
    v = c.fn(PM + "on_vault_settings_change", args="k", opaque=OP)
    v.requires(D + " is Ok", why="rewards earned so far are paid at the old stake")
    v.requires(PM + "update_reward_stake(k) is Ok")
    v.order(D, PM + "update_reward_stake(k)")
    v = c.fn(PM + "update_reward_stake", args="k", opaque=("update_capacity_stake", "get_secure_threshold"))
    v.let("OPEN", "%s.status is VaultStatus::Active && %s.status#VaultStatus::Active" % (rec("k"), rec("k")))
    v.let("TOTAL", "T::VaultStaking::get_total_stake((None, k))").let("TH", RV + "get_secure_threshold(RichVault{data: %s})" % rec("k"))
    v.let("STAKE", A + "checked_div(@amount(TOTAL, k.collateral_currency()), TH)")
    v.requires("TOTAL is Ok", when="OPEN")
    v.requires("STAKE is Ok", when="OPEN")
    v.must("T::VaultRewards::set_stake(k.collateral_currency(), k, " + A + "amount((if (OPEN) {STAKE} else {0})))", why="reward stake is collateral over threshold, and zero for vaults that issue nothing")
    v.requires("T::VaultRewards::set_stake(k.collateral_currency(), k, " + A + "amount((if (OPEN) {STAKE} else {0}))) is Ok")
    v.requires(PM + "update_capacity_stake(k.collateral_currency()) is Ok")
    v.order("T::VaultRewards::set_stake(..)", PM + "update_capacity_stake(..)")
    v = c.fn(PM + "update_capacity_stake", args="cur")
    v.let("TOTAL", "T::VaultRewards::get_total_stake(cur)")
    v.let("CAP", A + "convert_to(@amount(TOTAL, cur), @cfg('GetWrappedCurrencyId'))")
    v.requires("TOTAL is Ok")
    v.requires("CAP is Ok")
    v.must("T::CapacityRewards::set_stake((), cur, " + A + "amount(CAP))", why="a currency's capacity is its total reward stake in the wrapped currency")
    v.requires("T::CapacityRewards::set_stake((), cur, " + A + "amount(CAP)) is Ok")
    v = c.fn(PM + "on_exchange_rate_change", args="cur", opaque=("update_capacity_stake",))
    v.must(PM + "update_capacity_stake(cur)", why="capacity follows the exchange rate")
    v = c.fn(V + "compute_collateral", args="k")
    v.returns("@amount(T::VaultStaking::get_stake((None, k), k.account_id), k.currencies.collateral)")
    v = c.fn(V + "get_backing_collateral", args="k")
    v.returns("@amount(T::VaultStaking::get_total_stake((None, k)), k.collateral_currency())", why="backing collateral includes nominations")


def _pool(v, change, when=None):
    D = "fee::distribute_all_vault_rewards(k)"
    v.requires(D + " is Ok", why="rewards earned so far are paid at the old stake")
    v.requires(PM + "update_reward_stake(k) is Ok", why="the reward stake follows the collateral")
    v.order(D, change)
    v.order(change, PM + "update_reward_stake(k)", when=when)


@prop("V08")
def queries(c):
    E = "elem(@iterst('iter', 'vault_registry::Vaults'))"
    v = c.fn(V + "get_issuable_tokens_from_vault", args="k", opaque=("issuable_tokens",))
    v.requires("%s.status is VaultStatus::Active" % rec("k"))
    v.returns("(if (%s.status#VaultStatus::Active) {" % rec("k") + RV + "issuable_tokens(RichVault{data: %s})} else {@amount(0, k.wrapped_currency())})" % rec("k"), why="a vault closed for issues offers nothing, in the currency it issues")
    v = c.fn(V + "get_vaults_with_issuable_tokens", args="", opaque=("get_issuable_tokens_from_vault",))
    v.let("I", V + "get_issuable_tokens_from_vault(%s.0)" % E)
    v.returns("@mut('sort_by', mapit(filter(@iterst('iter', 'vault_registry::Vaults'), I is Ok && !(I == 0)), (%s.0, I)), @lam(@cloarg('.sort_by', 1).1.amount().cmp(@cloarg('.sort_by', 0).1.amount())))" % E, why="largest first")
    v = c.fn(V + "get_vaults_with_redeemable_tokens", args="", opaque=("redeemable_tokens",))
    v.let("I", RV + "redeemable_tokens(RichVault{data: %s.1})" % E)
    v.returns("@mut('sort_by', mapit(filter(@iterst('iter', 'vault_registry::Vaults'), I is Ok && !(I == 0)), (%s.0, I)), @lam(@cloarg('.sort_by', 1).1.amount().cmp(@cloarg('.sort_by', 0).1.amount())))" % E, why="largest first")
    v = c.fn(V + "get_vaults_by_account_id", args="a")
    v.returns("mapit(filter(@iterst('iter', 'vault_registry::Vaults'), %s.0.account_id == a), %s.0)" % (E, E))
    v = c.fn(V + "calculate_inclusion_fee", args="w,n")
    v.let("F", "oracle::get_price(OracleKey::FeeEstimation)")
    v.requires("F is Ok")
    v.returns("@amount(F.checked_mul_int(n), w)")
    v = c.fn(V + "get_premium_redeem_vaults", args="n", opaque=("get_vault_max_premium_redeem", "calculate_inclusion_fee", "ensure_not_banned", "will_be_below_premium_threshold"))
    v.let("P", V + "get_vault_max_premium_redeem(%s.0)" % E).let("BURN", A + "convert_to(" + A + "checked_div(P, fee::premium_redeem_reward_rate()), %s.0.wrapped_currency())" % E)
    v.let("INC", V + "calculate_inclusion_fee(%s.0.wrapped_currency(), n)" % E)
    v.let("WILL", V + "will_be_below_premium_threshold(%s.0)" % E)
    v.let("R", A + "checked_div(BURN + INC, @satsub(one(), fee::get_redeem_fee_value()))")
    v.returns("@mut('sort_by', mapit(filter(@iterst('iter', 'vault_registry::Vaults'), P is Ok && " + A + "checked_div(P, fee::premium_redeem_reward_rate()) is Ok && BURN is Ok && INC is Ok && @noovf(BURN + INC) && R is Ok "
              "&& " + V + "ensure_not_banned(%s.0) is Ok && !(R == 0) && WILL is Ok && WILL), (%s.0, R)), @lam(@cloarg('.sort_by', 1).1.amount().cmp(@cloarg('.sort_by', 0).1.amount())))" % (E, E))
    c.fn(V + "get_liquidated_collateral", args="k").returns("@amount(%s.liquidated_collateral, k.currencies.collateral)" % rec("k"))


@prop("V06")
def identity(c):
    """Records are stored under their own identifier (the term language relies on it: terms.SELFKEY)."""
    for ty, st, k in ((RV, "Vaults", "id"), (SV, "LiquidationVault", "currency_pair")):
        v = c.fn(ty + "update", args="self,f")
        v.must("@write('vault_registry::%s', ?x, ?x.%s)" % (st, k), why="records are stored under their own identifier")
        v.count("@write('vault_registry::%s', ..)" % st, 1)
    c.only_writers("vault_registry::Vaults", [RV + "update", V + "insert_vault"], why="vault records change only through their own update function")
    c.only_writers("vault_registry::LiquidationVault", [SV + "update"], why="vault records change only through their own update function")
    c.only_callers(V + "insert_vault", [V + "_register_vault"], why="only registration creates vaults")
    v = c.fn(V + "_register_vault", args="k,n", opaque=OPQ + ("insert_vault",))
    v.must(V + "insert_vault(k, ?x)")
    v.guards(V + "insert_vault(k, ?x)", ["?x.id == k"], why="a vault is stored under its own identifier")
    v.count(V + "insert_vault(..)", 1)
    c.fn(V + "_set_minimum_collateral_vault", args="p,x").must("@write('vault_registry::MinimumCollateralVault', x, p)")
    c.fn("vault_registry::v1::migrate_v1_to_v6", args="").must("@write('vault_registry::StorageVersion', Version::V6)", when="vault_registry::StorageVersion is Version::V1")
    c.fn("vault_registry::VaultStatus::default", args="").returns("VaultStatus::Active(true)")
    v = c.fn(V + "insert_vault", args="k,v")
    v.must("@write('vault_registry::Vaults', v, k)")
