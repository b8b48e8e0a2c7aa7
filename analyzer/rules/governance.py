from iba.rules import prop

RT = ("interlay_runtime_parachain", "kintsugi_runtime_parachain")
CORE = ("System", "Session", "Timestamp", "ParachainSystem", "Sudo", "Democracy", "Escrow", "TechnicalCommittee")
ROOT = ("EnsureRoot<AccountId>",)
TP = "tx_pause::"


@prop("G01")
def pause(c):
    PAUSED = "!T::WhitelistCallNames::contains((n.0, n.1)) && (@has(tx_pause::PausedCalls[(n.0, None)]) || @has(tx_pause::PausedCalls[n]))"
    v = c.fn(TP + "is_paused", args="n")
    v.returns(PAUSED, why="a call is paused by its own name or with its whole pallet, unless it cannot be paused")
    v = c.fn(TP + "pause", args="o,n", opaque=("ensure_can_pause",))
    v.requires("T::PauseOrigin::ensure_origin(o) is Ok")
    v.requires(TP + "ensure_can_pause(n) is Ok")
    v.accepts(["T::PauseOrigin::ensure_origin(o) is Ok", TP + "ensure_can_pause(n) is Ok"], explicit=True)
    v.must("@write('tx_pause::PausedCalls', (), n)")
    v.must("Self::deposit_event(Event::SomethingPaused{full_name: n})")
    v = c.fn(TP + "unpause", args="o,n", opaque=("ensure_can_unpause",))
    v.requires("T::UnpauseOrigin::ensure_origin(o) is Ok")
    v.requires(TP + "ensure_can_unpause(n) is Ok")
    v.accepts(["T::UnpauseOrigin::ensure_origin(o) is Ok", TP + "ensure_can_unpause(n) is Ok"], explicit=True)
    v.must("@delete('tx_pause::PausedCalls', n)")
    v.must("Self::deposit_event(Event::SomethingUnpaused{full_name: n})")
    v = c.fn(TP + "ensure_can_pause", args="n", opaque=("is_paused",))
    v.requires("n.0 != tx_pause::name()", why="else nothing could be resumed")
    v.requires("!T::WhitelistCallNames::contains(n)")
    v.requires("!" + TP + "is_paused(n)")
    v.accepts(["n.0 != tx_pause::name()", "!T::WhitelistCallNames::contains(n)", "!" + TP + "is_paused(n)"], explicit=True)
    v = c.fn(TP + "ensure_can_unpause", args="n", opaque=("is_paused",))
    v.requires(TP + "is_paused(n)")
    v.accepts([TP + "is_paused(n)"], explicit=True)
    v = c.fn(TP + "is_paused_unbound", args="p,f", opaque=("is_paused",))
    v.returns(TP + "is_paused((p, Some(f)))", when=["@tryconv(p) is Ok", "@tryconv(f) is Ok"])
    v.returns("@cfg('PauseTooLongNames')", when="!(@tryconv(p) is Ok)")
    v.returns("@cfg('PauseTooLongNames')", when="!(@tryconv(f) is Ok)")
    v = c.fn(TP + "Contains::contains", args="x", opaque=("is_paused_unbound",))
    v.returns("!" + TP + "is_paused_unbound(x.get_call_metadata().pallet_name, x.get_call_metadata().function_name)", why="the filter stops exactly the paused calls")
    v = c.fn(TP + "GenesisConfig::build")
    v.must("@write('tx_pause::PausedCalls', (), _)")
    c.only_writers("tx_pause::PausedCalls", [TP + "pause", TP + "unpause", TP + "GenesisConfig::build"])
    for r in RT:
        for k in ("PauseOrigin", "UnpauseOrigin"):
            c.config_is(r, "tx_pause::Config", k, ROOT[0], why="only governance pauses")


@prop("G02")
def filters(c):
    for r in RT:
        v = c.fn(r + "::BaseCallFilter::contains", args="x")
        for k in CORE:
            v.returns("true", when="x is RuntimeCall::" + k, why="governance cannot be switched off")
        v.returns("false", when="x is RuntimeCall::EVM", why="no transaction runs contracts of the EVM directly")
        v.returns("x.0 is Call::send", when="x is RuntimeCall::PolkadotXcm", why="users send XCM but execute none")
        v.returns("TxPause::contains(x)", when=["!(x is RuntimeCall::%s)" % k for k in CORE + ("EVM", "PolkadotXcm")], why="every other call can be paused")
        c.config_is(r, "frame_system::Config", "BaseCallFilter", "BaseCallFilter")
        v = c.fn(r + "::SafeCallFilter::contains", args="x")
        for k in ("Sudo", "Proxy", "Multisig", "Utility", "MultiTransactionPayment"):
            v.returns("false", when="x is RuntimeCall::" + k, why="no nested calls from other chains")
        for k in ("Issue", "Replace", "Redeem", "BTCRelay"):
            v.returns("false", when="x is RuntimeCall::" + k, why="no unbounded Bitcoin transactions from other chains")
        c.config_is(r, "xcm_executor::Config", "SafeCallFilter", "SafeCallFilter", of="XcmConfig")
        c.config_is(r, "xcm_executor::Config", "CallDispatcher", "WithOriginFilter<SafeCallFilter>", of="XcmConfig")
        c.config_is(r, "xcm_executor::Config", "IsTeleporter", "Nothing", of="XcmConfig", why="no assets are created by teleport")
        c.config_is(r, "xcm_executor::Config", "IsReserve", "MultiNativeAsset<AbsoluteReserveProvider>", of="XcmConfig", why="only an asset's own reserve creates it here")
        c.config_is(r, "pallet_xcm::Config", "XcmExecuteFilter", "Nothing")


@prop("G03")
def emission(c):
    s = c.fn("supply::begin_block", args="h")
    DUE = ["@has(supply::StartHeight)", "h == supply::StartHeight"]
    INF = "supply::Inflation.checked_mul_int(T::Currency::total_issuance())"
    POT = "@cfg('SupplyPalletId').into_account_truncating()"
    s.must("@write('supply::StartHeight', supply::StartHeight + @cfg('InflationPeriod'))", when=DUE, why="each period inflates once")
    s.must("@write('supply::LastEmission', " + INF + ")", when=DUE)
    s.must("T::Currency::deposit_creating(" + POT + ", " + INF + ")", when=DUE, why="the issuance grows by its rate")
    s.must("T::OnInflation::on_inflation(" + POT + ", " + INF + ")", when=DUE, why="exactly what was created is passed on")
    s.must("Self::deposit_event(Event::Inflation{total_inflation: " + INF + "})", when=DUE)
    for e in ("T::Currency::deposit_creating(..)", "T::OnInflation::on_inflation(..)", "@write('supply::StartHeight', ..)"):
        s.guards(e, DUE)
    s.count("T::Currency::deposit_creating(..)", 1)
    h = c.fn("supply::Hooks::on_initialize", args="h", opaque=("begin_block",))
    h.must("supply::begin_block(h)")
    v = c.fn("supply::set_start_height_and_inflation", args="o,h,r")
    v.requires("frame_system::ensure_root(o) is Ok")
    v.must("@write('supply::StartHeight', h)")
    v.must("@write('supply::Inflation', r)")
    v = c.fn("supply::GenesisConfig::build")
    v.must("T::Currency::deposit_creating(" + POT + ", self.initial_supply)")
    v.must("@write('supply::StartHeight', self.start_height)")
    v.must("@write('supply::Inflation', self.inflation)")
    c.only_writers("supply::Inflation", ["supply::set_start_height_and_inflation", "supply::GenesisConfig::build"])
    REW = "(if (@has(annuity::RewardPerWrapped)) {min(annuity::RewardPerBlock, annuity::RewardPerWrapped * @cfg('TotalWrapped'))} else {annuity::RewardPerBlock})"
    APOT = "@cfg('AnnuityPalletId').into_account_truncating()"
    v = c.fn("annuity::min_reward_per_block")
    v.returns(REW, why="never more than planned for the block")
    v = c.fn("annuity::begin_block", opaque=("min_reward_per_block",))
    v.must("T::BlockRewardProvider::distribute_block_reward(" + APOT + ", annuity::min_reward_per_block())")
    v.must("Self::deposit_event(Event::BlockReward(annuity::min_reward_per_block()))")
    v = c.fn("annuity::Hooks::on_initialize", opaque=("begin_block",))
    v.must("annuity::begin_block(..)")
    PER = "T::Currency::total_balance(" + APOT + ") / T::BlockNumberToBalance::convert(@cfg('EmissionPeriod'))"
    v = c.fn("annuity::update_reward_per_block")
    v.must("@write('annuity::RewardPerBlock', (if (@noovf(%s)) {%s} else {0}))" % (PER, PER), why="what is held lasts for the whole period")
    v = c.fn("annuity::update_rewards", args="o", opaque=("update_reward_per_block",))
    v.requires("frame_system::ensure_root(o) is Ok")
    v.must("annuity::update_reward_per_block()")
    v = c.fn("annuity::set_reward_per_wrapped", args="o,n")
    v.requires("frame_system::ensure_root(o) is Ok")
    v.must("@write('annuity::RewardPerWrapped', n)")
    v = c.fn("annuity::withdraw_rewards", args="o")
    v.let("W", "frame_system::ensure_signed(o)").let("N", "T::BlockRewardProvider::withdraw_reward(W)")
    v.requires("W is Ok")
    v.requires("N is Ok")
    v.requires("T::Currency::transfer(" + APOT + ", W, N, ExistenceRequirement::AllowDeath) is Ok", why="the caller gets exactly its own reward")
    v.count("T::Currency::transfer(..)", 1)
    for r in RT:
        k = "interlay" in r
        d = c.fn(r + "::DealWithRewards::on_inflation", args="w,n")
        VA, EA, TR = ["PalletId('%s').into_account_truncating()" % x for x in ("766c742f616e6e75", "6573632f616e6e75", "6d6f642f74727379")]
        V, E = "n * Permill::from_percent(40)", "n * Permill::from_parts(67000)"
        for to, x in ((VA, V), (EA, E), (TR, "@satsub(@satsub(n, %s), %s)" % (V, E))):
            d.must("Self::Currency::transfer(w, %s, %s, ..)" % (to, x), why="vaults, voters and the treasury share all of the inflation")
        d.count("Self::Currency::transfer(..)", 3)
        d.must("VaultAnnuity::update_reward_per_block()")
        d.must("EscrowAnnuity::update_reward_per_block()")
        d.order("Self::Currency::transfer(w, " + VA + ", ..)", "VaultAnnuity::update_reward_per_block()", why="the rate follows the new balance")
        d.order("Self::Currency::transfer(w, " + EA + ", ..)", "EscrowAnnuity::update_reward_per_block()")
        NAT = "CurrencyId::Token(TokenSymbol::%s)" % ("INTR" if "interlay" in r else "KINT")
        p = c.fn(r + "::VaultBlockRewardProvider::distribute_block_reward", args="w,n")
        p.requires("Self::Currency::transfer(w, PalletId('6d6f642f66656573').into_account_truncating(), n, ..) is Ok", why="vaults are paid from the fee pool, which must hold what is distributed")
        p.requires("VaultCapacity::distribute_reward((), " + NAT + ", n) is Ok")
        p = c.fn(r + "::VaultBlockRewardProvider::withdraw_reward", args="w")
        p.requires("false", why="vaults withdraw through the fee pallet")
        p = c.fn(r + "::EscrowBlockRewardProvider::distribute_block_reward", args="w,n")
        p.requires("EscrowRewards::distribute_reward((), " + NAT + ", n) is Ok")
        p = c.fn(r + "::EscrowBlockRewardProvider::withdraw_reward", args="w")
        p.returns("EscrowRewards::withdraw_reward((), w, " + NAT + ")")
        p = c.fn(r + "::DealWithFees::on_unbalanceds", args="x")
        F, T = "x.next(@nth(0))", "x.next(@nth(1))"
        p.must("CurrencyAdapter::resolve_creating(Pallet::author()#Some, _)", when=[F + " is Some", "Pallet::author() is Some"], why="the block's author earns the fees")
        p.must(T + "#Some.merge_into(" + F + "#Some)", when=[F + " is Some", T + " is Some"], why="and the tips")
        for t, k, w in (("annuity::Config<EscrowAnnuityInstance>", "BlockRewardProvider", "EscrowBlockRewardProvider"), ("annuity::Config<EscrowAnnuityInstance>", "AnnuityPalletId", "EscrowAnnuityPalletId"),
                        ("annuity::Config<VaultAnnuityInstance>", "BlockRewardProvider", "VaultBlockRewardProvider"), ("annuity::Config<VaultAnnuityInstance>", "AnnuityPalletId", "VaultAnnuityPalletId"),
                        ("supply::Config", "OnInflation", "DealWithRewards"), ("supply::Config", "Currency", "NativeCurrency"), ("escrow::Config", "EscrowRewards", "EscrowRewards")):
            c.config_is(r, t, k, w)


@prop("G04")
def ids(c):
    s = c.fn("security::get_secure_id", args="w", opaque=("get_nonce",))
    s.returns("H256(Sha256::digest(w.encode(), security::get_nonce().encode(), Pallet::parent_hash()))", why="an id commits to its owner, its position and the chain's past")
    n = c.fn("security::get_nonce")
    n.returns("security::Nonce.overflowing_add(1).0")
    n.must("@write('security::Nonce', security::Nonce.overflowing_add(1).0)", why="no position is used twice")
    c.only_writers("security::Nonce", ["security::get_nonce"])
    a = c.fn("security::increment_active_block")
    a.must("@write('security::ActiveBlockCount', security::ActiveBlockCount + 1)", when="!security::IsDeactivated")
    a.guards("@write('security::ActiveBlockCount', ..)", ["!security::IsDeactivated"], why="deadlines do not run while the bridge is switched off")
    c.only_writers("security::ActiveBlockCount", ["security::increment_active_block", "security::set_active_block_number"])
    c.only_callers("security::set_active_block_number", [], minimum=0, why="for tests only")
    c.only_callers("security::increment_active_block", ["security::Hooks::on_initialize"])
    h = c.fn("security::Hooks::on_initialize", opaque=("increment_active_block",))
    h.must("security::increment_active_block()", why="deadlines advance by one a block")
    h.count("security::increment_active_block()", 1)
    r = c.fn("security::activate_counter", args="o,b")
    r.requires("frame_system::ensure_root(o) is Ok")
    r.must("@write('security::IsDeactivated', !b)")
    r.must("Self::deposit_event(Event::Activated)", when="b")
    r.must("Self::deposit_event(Event::Deactivated)", when="!b")
    c.only_writers("security::IsDeactivated", ["security::activate_counter"])
    x = c.fn("security::parachain_block_expired", args="a,b")
    x.returns("a + b < security::ActiveBlockCount")
    for f, st, ev in (("current", "Current", "Apply"), ("pending", "Pending", "Notify")):
        k = c.fn("clients_info::set_%s_client_release" % f, args="o,k,v")
        k.requires("frame_system::ensure_root(o) is Ok", why="only governance says which client vaults run")
        k.must("@write('clients_info::%sClientReleases', v, k)" % st)
        k.must("Self::deposit_event(Event::%sClientRelease{release: v})" % ev)
    u = c.fn("clients_info::upgrade_client_releases::try_upgrade_current_client_releases")
    P = "@stm('drain', 'clients_info::PendingClientReleases')"
    u.must("clients_info::deposit_event(Event::ApplyClientRelease{release: elem(" + P + ").1})")
    u.must("@write('clients_info::CurrentClientReleases', elem(" + P + ").1, elem(" + P + ").0)", why="every pending release becomes current with the upgrade")


@prop("G05")
def locations(c):
    for r, par, wr, nat in ((RT[0], "DOT", "IBTC", "INTR"), (RT[1], "KSM", "KBTC", "KINT")):
        v = c.fn(r + "::CurrencyIdConvert::convert", args="k", sel="Convert<CurrencyId,", opaque=("non_canonical_currency_location",))
        X = r + "::xcm_config::"
        T = "k#CurrencyId::Token is TokenSymbol::"
        v.returns("Some(MultiLocation::parent())", when=["k is CurrencyId::Token", T + par], why="the relay chain's token is reserved at the relay chain")
        for t in (wr, nat):
            v.returns("Some(" + X + "non_canonical_currency_location(k))", when=["k is CurrencyId::Token", T + t], why="own tokens are reserved here")
        v = c.fn(X + "non_canonical_currency_location", args="k", opaque=("general_key_of",))
        v.returns("MultiLocation::new(1, X2(Parachain(@cfg('ParachainInfo')), " + X + "general_key_of(k)))")
        v = c.fn(X + "canonical_currency_location", args="k", opaque=("general_key_of",))
        v.returns("MultiLocation::new(0, X1(" + X + "general_key_of(k)))")
        v = c.fn(X + "general_key_of", args="k")
        v.requires("len(k.encode()) <= 32")
        v.returns("GeneralKey{data: @iupd(_, _, k.encode()), length: @cast('u8', len(k.encode()))}", why="the key is the encoded currency")
        v.accepts(["len(k.encode()) <= 32"])
        b = c.fn(r + "::CurrencyIdConvert::convert", args="l", sel="Convert<MultiLocation,")
        FA = "AssetRegistry::location_to_asset_id(l)"
        b.returns("Some(CurrencyId::Token(TokenSymbol::%s))" % par, when="MultiLocation::parent() == l")
        HERE = ["!(MultiLocation::parent() == l)", "1 == l.parents", "@cfg('ParachainInfo') == l.interior.0.0"]
        ANCH = ["!(MultiLocation::parent() == l)", "!(1 == l.parents)", "0 == l.parents"]
        for w, j in ((HERE, "l.interior.1"), (ANCH, "l.interior.0")):
            K = "CurrencyId::decode(%s.data[@range(0, %s.length)])" % (j, j)
            F = w + ["%s.length <= len(%s.data)" % (j, j), K + " is Ok"]
            for t in (wr, nat):
                b.returns("Some(" + K + ")", when=F + [K + " is CurrencyId::Token", K + "#CurrencyId::Token is TokenSymbol::" + t], why="an own token is found at both of its locations")
            NOT = (w + ["len(%s.data) < %s.length" % (j, j)], w + [K + " is Err"], F + ["!(" + K + " is CurrencyId::Token)"],
                   F + [K + " is CurrencyId::Token"] + ["!(%s#CurrencyId::Token is TokenSymbol::%s)" % (K, t) for t in (wr, nat)])
            for x in NOT:
                b.returns("Some(CurrencyId::ForeignAsset(" + FA + ")) ||| Some(CurrencyId::ForeignAsset(" + FA + "#Some))", when=x + [FA + " is Ok"], why="no other key stands for a currency of this chain")
        ELSE = ["!(MultiLocation::parent() == l)", "!(1 == l.parents)", "!(0 == l.parents)"]
        b.returns("Some(CurrencyId::ForeignAsset(" + FA + ")) ||| Some(CurrencyId::ForeignAsset(" + FA + "#Some))", when=ELSE + [FA + " is Ok"], why="any other location is what the registry says")
        b.returns("None", when=ELSE + ["!(" + FA + " is Ok)"])
        m = c.fn(r + "::CurrencyIdConvert::convert", args="x", sel="Convert<MultiAsset,")
        m.returns(r + "::CurrencyIdConvert::convert(x.id.0)")
        t = c.fn(r + ("::ToAuthor" if "interlay" in r else "::ToTreasury") + "::take_revenue", args="x")
        W = r + "::CurrencyIdConvert::convert(x.id.0)"
        TR = "PalletId('6d6f642f74727379').into_account_truncating()"
        A = "Pallet::author()"
        if "interlay" in r:
            t.must("Tokens::deposit(%s#Some, %s#Some, x.fun.0)" % (W, A), when=[W + " is Some", A + " is Some"], why="the fee is paid out in full, once")
            t.must("Tokens::deposit(%s#Some, %s, x.fun.0)" % (W, TR), when=[W + " is Some", "!(" + A + " is Some)"])
        else:
            t.must("Tokens::deposit(%s#Some, %s, x.fun.0)" % (W, TR), when=W + " is Some")
        for tr, of in (("orml_xtokens::Config", "Runtime"),):
            c.config_is(r, tr, "CurrencyIdConvert", "CurrencyIdConvert", of=of)


@prop("G06")
def wiring(c):
    for r in RT:
        for t, k in (("loans::Config", "ReserveOrigin"), ("loans::Config", "UpdateOrigin"), ("pallet_collective::Config<TechnicalCommitteeInstance>", "SetMembersOrigin"),
                     ("pallet_membership::Config", "AddOrigin"), ("pallet_membership::Config", "RemoveOrigin"), ("pallet_membership::Config", "SwapOrigin"), ("pallet_membership::Config", "ResetOrigin"),
                     ("pallet_membership::Config", "PrimeOrigin"), ("pallet_scheduler::Config", "ScheduleOrigin"), ("pallet_preimage::Config", "ManagerOrigin"), ("pallet_xcm::Config", "AdminOrigin"),
                     ("pallet_identity::Config", "ForceOrigin"), ("pallet_identity::Config", "RegistrarOrigin"), ("cumulus_pallet_xcmp_queue::Config", "ExecuteOverweightOrigin"),
                     ("cumulus_pallet_xcmp_queue::Config", "ControllerOrigin"), ("cumulus_pallet_dmp_queue::Config", "ExecuteOverweightOrigin")):
            c.config_is(r, t, k, ROOT, why="only governance")
        c.config_is(r, "democracy::Config", "FastTrackOrigin", ["EitherOfDiverse<EnsureRoot<AccountId>,pallet_collective::EnsureProportionAtLeast<AccountId,TechnicalCommitteeInstance,1,1>>"], why="fast tracking takes the whole committee")
        c.config_is(r, "collator_selection::Config", "UpdateOrigin", "EitherOfDiverse<EnsureRoot<AccountId>,EnsureXcm<IsMajorityOfBody<ParentLocation,ExecutiveBody>>>")
        a = c.fn(r + "::AssetAuthority::try_origin", args="o,k")
        a.requires("EnsureRoot::try_origin(o) is Ok", why="only governance registers assets")
        c.config_is(r, "orml_asset_registry::Config", "AuthorityOrigin", "AssetAuthority")
        for t, k, w in (("fee::Config", "CapacityRewards", "VaultCapacity"), ("fee::Config", "VaultRewards", "VaultRewards"), ("fee::Config", "VaultStaking", "VaultStaking"), ("fee::Config", "NominationApi", "Nomination"),
                        ("farming::Config", "RewardPools", "FarmingRewards"), ("currency::Config", "CurrencyConversion", "currency::CurrencyConvert<Runtime,Oracle,Loans>"),
                        ("currency::Config", "GetWrappedCurrencyId", "GetWrappedCurrencyId"), ("currency::Config", "GetNativeCurrencyId", "GetNativeCurrencyId"), ("currency::Config", "GetRelayChainCurrencyId", "GetRelayChainCurrencyId"),
                        ("vault_registry::Config", "GetGriefingCollateralCurrencyId", "GetNativeCurrencyId"), ("democracy::Config", "Currency", "Escrow"), ("collator_selection::Config", "StakingCurrency", "Escrow"),
                        ("collator_selection::Config", "RewardsCurrency", "NativeCurrency"), ("escrow::Config", "Currency", "NativeCurrency"), ("democracy::Config", "TreasuryCurrency", "NativeCurrency"),
                        ("reward::Config<VaultCapacityInstance>", "StakeId", "CurrencyId"), ("reward::Config<VaultRewardsInstance>", "PoolId", "CurrencyId"), ("reward::Config<VaultRewardsInstance>", "StakeId", "VaultId"),
                        ("loans::Config", "ReferenceAssetId", "GetWrappedCurrencyId"), ("loans::Config", "RewardAssetId", "GetNativeCurrencyId"), ("frame_system::Config", "BaseCallFilter", "BaseCallFilter"),
                        ("pallet_transaction_payment::Config", "OnChargeTransaction", "MultiTransactionPayment")):
            c.config_is(r, t, k, w)
        for t, k, w in (("orml_tokens::Config", "CurrencyHooks", "CurrencyHooks<Runtime>"), ("oracle::Config", "OnExchangeRateChange", "(vault_registry::PoolManager<Runtime>,Loans)"), ("loans::Config", "OnExchangeRateChange", "vault_registry::PoolManager<Runtime>")):
            c.config_is(r, t, k, w, why="thresholds and rewards follow prices, stakes and lend balances")
        H = "MutationHooks<T::AccountId,T::CurrencyId,<T as currency::Config>::Balance>"
        for k in ("OnSlash", "PreDeposit", "PostDeposit", "PreTransfer", "PostTransfer"):
            c.config_is(r, H, k, k + ("Hook<T>" if k == "OnSlash" else "<T>"), of="CurrencyHooks", why="lend token rewards are settled before balances change")
        p = c.fn(r + "::BlockNumberToBalance::convert", args="n")
        p.returns("n")
