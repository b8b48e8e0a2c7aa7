from iba.rules import prop
from iba.terms import mk, show

RT = ("interlay_runtime_parachain", "kintsugi_runtime_parachain")
# pallet -> (associated type of its account's id, constant)
OWN = {"fee::Config": ("FeePalletId", "FeePalletId"), "supply::Config": ("SupplyPalletId", "SupplyPalletId"), "issue::Config": ("TreasuryPalletId", "TreasuryPalletId"),
       "collator_selection::Config": ("PotId", "CollatorPotId"), "vault_registry::Config": ("PalletId", "VaultRegistryPalletId"), "loans::Config": ("PalletId", "LoansPalletId"),
       "farming::Config": ("FarmingPalletId", "FarmingPalletId"), "dex_general::Config": ("PalletId", "DexGeneralPalletId"), "dex_stable::Config": ("PalletId", "DexStablePalletId"),
       "annuity::Config<EscrowAnnuityInstance>": ("AnnuityPalletId", "EscrowAnnuityPalletId"), "annuity::Config<VaultAnnuityInstance>": ("AnnuityPalletId", "VaultAnnuityPalletId")}
ACCOUNTS = {"FeeAccount": "FeePalletId", "SupplyAccount": "SupplyPalletId", "EscrowAnnuityAccount": "EscrowAnnuityPalletId", "VaultAnnuityAccount": "VaultAnnuityPalletId",
            "TreasuryAccount": "TreasuryPalletId", "CollatorSelectionAccount": "CollatorPotId", "VaultRegistryAccount": "VaultRegistryPalletId", "LoansAccount": "LoansPalletId",
            "FarmingAccount": "FarmingPalletId"}


@prop("H01")
def accounts(c):
    for r in RT:
        ids = {}
        for (cr, cont, name), (ty, _, _) in sorted(c.ix.consts.items()):
            if cr == r and ty.replace(" ", "").endswith("PalletId"):
                ids.setdefault(show(c.const(r, name, cont)), []).append(name)
        for val, names in sorted(ids.items()):
            c.check(len(names) == 1, "constant", "%s::%s" % (r, names[0]), "%s names an account of its own" % names[0], "%s all are %s" % (", ".join(names), val))
        for tr, (name, const) in OWN.items():
            c.config_is(r, tr, name, const, why="each pallet keeps its funds in its own account")
        val = {}
        for a, p in ACCOUNTS.items():
            val[a] = c.const(r, p)
            c.const_matches(r, a, "ID.into_account_truncating()", env={"ID": val[a]}, why="derived from the pallet's id")
        v = c.fn(r + "::DustRemovalWhitelist::contains", args="a")
        v.let("N1", "Loans::incentive_reward_account_id()").let("N2", "Loans::reward_account_id()")
        own = ["a == %s.into_account_truncating()" % show(val[x]) for x in ACCOUNTS]
        for x in own + ["a == Loans::incentive_reward_account_id()", "a == Loans::reward_account_id()"]:
            v.returns("true", when=[x], why="the chain's own accounts keep any balance")
        c.config_is(r, "orml_tokens::Config", "DustRemovalWhitelist", "DustRemovalWhitelist")
        c.config_is(r, "MutationHooks<T::AccountId,T::CurrencyId,<Tascurrency::Config>::Balance>", "OnDust", "orml_tokens::TransferDust<T,FeeAccount>", of="CurrencyHooks", why="dust is kept, not burned")
        c.config_is(r, "fee::Config", "OnSweep", "currency::SweepFunds<Runtime,FeeAccount>")
        for n in ("EscrowAnnuityInstance", "VaultAnnuityInstance"):
            c.config_is(r, "annuity::Config<%s>" % n, "TotalWrapped", "TotalWrapped")
        v = c.fn(r + "::TotalWrapped::get")
        v.returns("orml_tokens::CurrencyAdapter::total_issuance() ||| CurrencyAdapter::total_issuance()", why="what was ever wrapped and not redeemed")


@prop("H02")
def trading(c):
    for r in RT:
        D = r + "::"
        c.fn(D + "PairLpIdentity::generate_lp_asset_id", args="a,b").returns(D + "CurrencyId::join_lp_token(a, b) ||| CurrencyId::join_lp_token(a, b)", why="one share currency per pair")
        c.fn(D + "DexGeneralVerifyPairAsset::validate_asset", args="a").returns("a.is_lp_token()", why="only currencies that can be joined")
        c.fn(D + "PoolLpGenerate::generate_by_pool_id", args="p").returns("CurrencyId::StableLpToken(p)", why="one share currency per pool")
        v = c.fn(D + "DexStableVerifyPoolAsset::validate_pool_lp_currency", args="k")
        v.returns("!(" + D + "Tokens::total_issuance(k) > 0)", why="nobody holds shares of a new pool")
        for t, n, x in (("dex_general", "MultiCurrency", "Tokens"), ("dex_general", "AssetId", "CurrencyId"), ("dex_general", "EnsurePairAsset", "DexGeneralVerifyPairAsset"), ("dex_general", "LpGenerate", "PairLpIdentity"),
                        ("dex_stable", "MultiCurrency", "Tokens"), ("dex_stable", "CurrencyId", "CurrencyId"), ("dex_stable", "EnsurePoolAsset", "DexStableVerifyPoolAsset"), ("dex_stable", "LpGenerate", "PoolLpGenerate"),
                        ("dex_stable", "TimeProvider", "Timestamp"), ("dex_stable", "PoolId", "StablePoolId"), ("dex_swap_router", "GeneralAmm", "DexGeneral"), ("dex_swap_router", "StableAmm", "DexStable"),
                        ("dex_swap_router", "StablePoolId", "StablePoolId")):
            c.config_is(r, t + "::Config", n, x)


@prop("H03")
def time(c):
    for r in RT:
        v = c.fn(r + "::CheckInherents::check_inherents", args="b,p")
        v.returns("InherentDataProvider::from_relay_chain_slot_and_duration(p.read_slot(), Duration::from_secs(6)).create_inherent_data().check_extrinsics(b)", why="the relay's slot fixes the block's time")
        c.config_is(r, "pallet_timestamp::Config", "OnTimestampSet", "runtime_common::ConsensusOnTimestampSet<Self,EnableManualSeal>")
        c.config_is(r, "pallet_timestamp::Config", "Moment", "Moment")
        c.config_is(r, "pallet_aura::Config", "AllowMultipleBlocksPerSlot", "ConstBool<false>", why="one block per slot")
        c.config_is(r, "pallet_aura::Config", "AuthorityId", "AuraId")
        c.config_is(r, "cumulus_pallet_parachain_system::Config", "CheckAssociatedRelayNumber", "cumulus_pallet_parachain_system::RelayNumberStrictlyIncreases", why="relay blocks do not go back")
        for n, x in (("SelfParaId", "parachain_info::Pallet<Runtime>"), ("DmpMessageHandler", "DmpQueue"), ("XcmpMessageHandler", "XcmpQueue"), ("OutboundXcmpMessageSource", "XcmpQueue")):
            c.config_is(r, "cumulus_pallet_parachain_system::Config", n, x)
        c.config_is(r, "pallet_authorship::Config", "FindAuthor", "pallet_session::FindAccountFromAuthorIndex<Self,Aura>", why="whoever held the slot")
        for n in ("ShouldEndSession", "NextSessionRotation"):
            c.config_is(r, "pallet_session::Config", n, "pallet_session::PeriodicSessions<Period,Offset>")
        c.config_is(r, "pallet_session::Config", "ValidatorIdOf", "collator_selection::IdentityCollator")
        c.const_matches(r, "MILLISECS_PER_BLOCK", "12000", cont="time")
        c.const_matches(r, "SLOT_DURATION", "12000", cont="time", why="two of the relay's slots")
        c.const_matches(r, "MinimumPeriod", "6000", why="half a slot")
        for n, x in (("MINUTES", 5), ("HOURS", 300), ("DAYS", 7200), ("WEEKS", 50400), ("YEARS", 2628000), ("BITCOIN_BLOCK_SPACING", 50)):
            c.const_matches(r, n, str(x), cont="time", why="in blocks of twelve seconds")
        c.fn(r + "::Runtime::slot_duration").returns("SlotDuration::from_millis(Aura::slot_duration())")
        c.fn(r + "::Runtime::authorities").returns("Aura::authorities().into_inner() ||| Aura::authorities()")
    v = c.fn("runtime_common::ConsensusOnTimestampSet::on_timestamp_set", args="m")
    v.must("pallet_aura::Pallet::on_timestamp_set(m)", when="!@cfg('EnableManualSeal')", why="a block's time must lie in its slot")


@prop("H04")
def pipeline(c):
    E = "(frame_system::CheckSpecVersion<Runtime>,frame_system::CheckTxVersion<Runtime>,frame_system::CheckGenesis<Runtime>,frame_system::CheckEra<Runtime>,frame_system::CheckNonce<Runtime>,frame_system::CheckWeight<Runtime>,pallet_transaction_payment::ChargeTransactionPayment<Runtime>)"
    for r in RT:
        c.type_is(r, "SignedExtra", E, why="a transaction is for this chain and version, once, in time, within the block's weight and paid for")
        c.type_is(r, "UncheckedExtrinsic", "fp_self_contained::UncheckedExtrinsic<AccountId,RuntimeCall,Signature,SignedExtra>")
        c.type_is(r, "CheckedExtrinsic", "fp_self_contained::CheckedExtrinsic<AccountId,RuntimeCall,SignedExtra,H160>")
        c.type_is(r, "Executive", "frame_executive::Executive<Runtime,Block,frame_system::ChainContext<Runtime>,Runtime,AllPalletsWithSystem,(evm::SetEvmChainId<Runtime>,)>")
        R = r + "::Runtime::"
        for f, a, x in (("execute_block", "b", "X::execute_block(b)"), ("initialize_block", "h", "X::initialize_block(h)"), ("offchain_worker", "h", "X::offchain_worker(h)")):
            v = c.fn(R + f, args=a)
            x = x.replace("X::", r + "::Executive::")
            v.must(x)
            v.count(x, 1)
        for f, a, x in (("apply_extrinsic", "x", "X::apply_extrinsic(x)"), ("finalize_block", "", "X::finalize_block()"), ("inherent_extrinsics", "d", "d.create_extrinsics()"),
                        ("check_inherents", "b,d", "d.check_extrinsics(b)"), ("validate_transaction", "s,x,h", "X::validate_transaction(s, x, h)"), ("account_nonce", "a", "System::account_nonce(a)"),
                        ("query_info", "x,n", "TransactionPayment::query_info(x, n)"), ("query_fee_details", "x,n", "TransactionPayment::query_fee_details(x, n)"),
                        ("query_weight_to_fee", "w", "TransactionPayment::weight_to_fee(w)"), ("query_length_to_fee", "n", "TransactionPayment::length_to_fee(n)"),
                        ("collect_collation_info", "h", "ParachainSystem::collect_collation_info(h)"), ("generate_session_keys", "s", "SessionKeys::generate(s)"),
                        ("decode_session_keys", "e", "SessionKeys::decode_into_raw_public_keys(e)")):
            c.fn(R + f, args=a).returns(x.replace("X::", r + "::Executive::"), why="the standard pipeline")
        for n, x in (("AccountId", "AccountId"), ("Lookup", "IdentityLookup<AccountId>"), ("Hashing", "BlakeTwo256"), ("OnSetCode", "cumulus_pallet_parachain_system::ParachainSetCode<Self>"), ("BlockWeights", "RuntimeBlockWeights"),
                     ("BlockLength", "RuntimeBlockLength"), ("DbWeight", "RocksDbWeight"), ("Version", "Version"), ("Nonce", "Nonce")):
            c.config_is(r, "frame_system::Config", n, x)
        c.config_is(r, "pallet_transaction_payment::Config", "WeightToFee", "IdentityFee<Balance>")
        c.config_is(r, "pallet_transaction_payment::Config", "LengthToFee", "ConstantMultiplier<Balance,TransactionByteFee>", why="bytes are paid for")
        c.config_is(r, "pallet_transaction_payment::Config", "FeeMultiplierUpdate", "SlowAdjustingFeeUpdate<Self>")
        for t, n, x in (("pallet_scheduler", "OriginPrivilegeCmp", "EqualPrivilegeOnly"), ("pallet_scheduler", "Preimages", "Preimage"), ("pallet_scheduler", "PalletsOrigin", "OriginCaller"), ("pallet_utility", "PalletsOrigin", "OriginCaller"),
                        ("pallet_proxy", "ProxyType", "ProxyType"), ("pallet_proxy", "Currency", "NativeCurrency"), ("pallet_multisig", "Currency", "NativeCurrency"), ("pallet_proxy", "CallHasher", "BlakeTwo256")):
            c.config_is(r, t + "::Config", n, x)
        v = c.fn(r + "::EnsureKintsugiLabs::try_origin", args="o")
        v.requires("o is RawOrigin::Signed", why="a signed origin")
        v.returns("o.0", why="as itself")
        c.config_is(r, "orml_vesting::Config", "VestedTransferOrigin", "EnsureKintsugiLabs", why="nobody else starts vesting")
        c.config_is(r, "orml_vesting::Config", "Currency", "NativeCurrency")
        v = c.fn(r + "::AccountIdToMultiLocation::convert", args="a")
        v.returns("X1(AccountId32{id: a, network: None})")
    for r, t, per, item in ((RT[0], "INTR", 100, "one() * 20"), (RT[1], "KINT", 30000, "one() / 30000 * 2000")):
        v = c.fn(r + "::currency::deposit", args="i,b")
        U = "interbtc_primitives::TokenSymbol::one(TokenSymbol::%s)" % t
        if t == "INTR":
            v.returns("(i * 20 * %s) + (b * 100 * (%s / 100000))" % (U, U), why="state is paid for by items and bytes")
        else:
            v.returns("(i * 2000 * (%s / 30000)) + (b * 100 * (%s / 30000000))" % (U, U), why="state is paid for by items and bytes")
