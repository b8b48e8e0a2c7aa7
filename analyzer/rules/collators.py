from iba.rules import prop

C = "collator_selection::"
WHO = "frame_system::ensure_signed(o)"
CA, INV = C + "Candidates", C + "Invulnerables"
RT = ("interlay_runtime_parachain", "kintsugi_runtime_parachain")
HERE = "@first(%s, w == elem(%s).who, %%s(%s))" % (CA, CA, CA)
LEN = ["@cast('u32', (if (@stm('decode_len', '%s') is Some) {@stm('decode_len', '%s')#Some} else {@default()}))" % (CA, CA),
       "@cast('u32', @len(%s))" % CA, "@len(%s)" % CA]


@prop("J01")
def candidates(c):
    v = c.fn(C + "register_as_candidate", args="o")
    v.let("W", WHO).let("BOND", C + "CandidacyBond").let("KEY", "T::ValidatorIdOf::convert(W)")
    v.requires("W is Ok", why="candidates register themselves")
    v.requires(["%s < %sDesiredCandidates" % (x, C) for x in LEN], why="no more candidates than are wanted")
    v.requires(["@forall(%s, W != elem(%s))" % (INV, INV)], why="fixed collators need no bond")
    v.requires("@forall(%s, W != elem(%s).who)" % (CA, CA), why="a candidate is listed once, for one bond")
    v.requires("KEY is Ok ||| KEY is Some")
    v.requires("T::ValidatorRegistration::is_registered(KEY) ||| T::ValidatorRegistration::is_registered(KEY#Some)", why="its session keys are known")
    v.requires("T::StakingCurrency::reserve(W, BOND) is Ok", why="the bond is reserved first")
    v.count("T::StakingCurrency::reserve(..)", 1)
    v.must("@write('%s', @push(%s, CandidateInfo{who: W, deposit: BOND}))" % (CA, CA), why="what was reserved is recorded")
    v.must("@write('%sLastAuthoredBlock', Pallet::block_number() + @cfg('KickThreshold'), W) ||| @write('%sLastAuthoredBlock', frame_system::Pallet::block_number() + @cfg('KickThreshold'), W)" % (C, C),
           why="it only becomes active in a later session")
    v.must("Self::deposit_event(Event::CandidateAdded{account_id: W, deposit: BOND})")
    r = c.fn(C + "try_remove_candidate", args="w")
    at, it = HERE % "idx", HERE % "elem"
    r.requires("@exists(%s, w == elem(%s).who)" % (CA, CA), why="only a candidate can be removed")
    r.must("T::StakingCurrency::unreserve(w, %s.deposit)" % it, why="exactly what it reserved is returned to it")
    r.count("T::StakingCurrency::unreserve(..)", 1)
    r.must(" ||| ".join("@write('%s', @mut('%s', %s, %s))" % (CA, m, CA, at) for m in ("remove", "swap_remove")), why="it is no longer a candidate")
    r.must("@delete('%sLastAuthoredBlock', w)" % C)
    r.must("Self::deposit_event(Event::CandidateRemoved{account_id: w})")
    l = c.fn(C + "leave_intent", args="o", opaque=("try_remove_candidate",))
    l.let("W", WHO)
    l.requires("W is Ok", why="nobody is removed by others")
    l.requires(["@cfg('MinCandidates') < " + x for x in LEN], why="the chain keeps its minimum of candidates")
    l.requires("%stry_remove_candidate(W) is Ok" % C)
    l.count("%stry_remove_candidate(..)" % C, 1)
    l.accepts(["W is Ok", "@cfg('MinCandidates') < @cast('u32', @len(%s))" % CA, "%stry_remove_candidate(W) is Ok" % C])
    b = c.fn(C + "set_candidacy_bond", args="o,b")
    b.requires("T::UpdateOrigin::ensure_origin(o) is Ok", why="only governance sets the bond")
    b.must("@write('%sCandidacyBond', b)" % C)
    b.must("Self::deposit_event(Event::NewCandidacyBond{bond_amount: b})")
    d = c.fn(C + "set_desired_candidates", args="o,m")
    d.requires("T::UpdateOrigin::ensure_origin(o) is Ok", why="only governance sets how many candidates are wanted")
    d.must("@write('%sDesiredCandidates', m)" % C)
    d.must("Self::deposit_event(Event::NewDesiredCandidates{desired_candidates: m})")
    c.only_writers(CA, {C + "register_as_candidate", C + "try_remove_candidate"})
    c.only_writers(C + "CandidacyBond", {C + "set_candidacy_bond", C + "GenesisConfig::build"})
    c.only_writers(C + "DesiredCandidates", {C + "set_desired_candidates", C + "GenesisConfig::build"})
    c.only_callers(C + "try_remove_candidate", {C + "leave_intent", C + "kick_stale_candidates"}, minimum=2)


@prop("J02")
def sessions(c):
    k = c.fn(C + "kick_stale_candidates", args="xs", opaque=("try_remove_candidate",))
    k.let("X", "elem(xs).who")
    B = ("Pallet::block_number()", "frame_system::Pallet::block_number()")
    idle = ["@cfg('KickThreshold') <= @satsub(%s, %sLastAuthoredBlock[X])" % (b, C) for b in B]
    busy = ["@satsub(%s, %sLastAuthoredBlock[X]) < @cfg('KickThreshold')" % (b, C) for b in B]
    poor, rich = "T::StakingCurrency::total_balance(X) < %sCandidacyBond" % C, "%sCandidacyBond <= T::StakingCurrency::total_balance(X)" % C
    out = "%stry_remove_candidate(X)" % C
    k.guards(out, ["@cfg('MinCandidates') < @cast('u32', @len(%s))" % CA], why="the minimum of candidates is kept, counted after each removal")
    k.guards(out, [" ||| ".join("(%s) || (%s)" % (i, poor) for i in idle)], why="only idle or underfunded candidates are kicked")
    k.count("%stry_remove_candidate(..)" % C, 1)
    kept = ["@mapit(filter(xs, ((%s) && (%s)) || @cast('u32', @len(%s)) <= @cfg('MinCandidates')), X)" % (b, rich, CA) for b in busy]
    k.returns(kept, why="everybody else stays active")
    a = c.fn(C + "assemble_collators", args="xs")
    a.returns(["@mut('extend', %s, xs)" % INV], why="the fixed collators come first, then the candidates")
    n = c.fn(C + "SessionManager::new_session", args="i", opaque=("kick_stale_candidates", "assemble_collators"))
    n.returns("Some({0}assemble_collators({0}kick_stale_candidates({1}))) ||| {0}assemble_collators({0}kick_stale_candidates({1}))".format(C, CA), why="the session is run by the fixed collators and the active candidates")
    w = c.fn(C + "EventHandler::note_author", args="a")
    w.let("POT", "@cfg('PotId').into_account_truncating()")
    w.must("T::RewardsCurrency::transfer(POT, a, @satsub(T::RewardsCurrency::free_balance(POT), T::RewardsCurrency::minimum_balance()) / 2, ExistenceRequirement::KeepAlive)",
           why="the author receives half of the pot, which is kept alive")
    w.count("T::RewardsCurrency::transfer(..)", 1)
    w.must("@write('%sLastAuthoredBlock', Pallet::block_number(), a) ||| @write('%sLastAuthoredBlock', frame_system::Pallet::block_number(), a)" % (C, C), why="its activity is recorded")
    s = c.fn(C + "set_invulnerables", args="o,xs")
    s.requires("T::UpdateOrigin::ensure_origin(o) is Ok", why="only governance names fixed collators")
    s.requires("@forall(xs, T::ValidatorIdOf::convert(elem(xs)) is Ok) ||| @forall(xs, T::ValidatorIdOf::convert(elem(xs)) is Some)")
    s.requires("@forall(xs, T::ValidatorRegistration::is_registered(T::ValidatorIdOf::convert(elem(xs))))", why="all of them have session keys")
    s.must("@write('%s', xs)" % INV)
    s.must("Self::deposit_event(Event::NewInvulnerables{invulnerables: xs})")
    c.only_writers(INV, {C + "set_invulnerables", C + "GenesisConfig::build"})
    c.only_writers(C + "LastAuthoredBlock", {C + "register_as_candidate", C + "try_remove_candidate", C + "EventHandler::note_author"})
    g = c.fn(C + "GenesisConfig::build", args="g")
    g.requires("g.desired_candidates <= @cfg('MaxCandidates')")
    g.must("@write('%s', g.invulnerables)" % INV)
    g.must("@write('%sCandidacyBond', g.candidacy_bond)" % C)
    g.must("@write('%sDesiredCandidates', g.desired_candidates)" % C)
    for rt in RT:
        c.config_is(rt, "collator_selection::Config", "StakingCurrency", "Escrow", why="candidates bond locked voting power")
        c.config_is(rt, "collator_selection::Config", "RewardsCurrency", "NativeCurrency")
        c.config_is(rt, "collator_selection::Config", "ValidatorRegistration", "Session", why="session keys are those of the session pallet")
        c.config_is(rt, "collator_selection::Config", "KickThreshold", "Period", why="a whole session without a block is idle")
        c.config_is(rt, "collator_selection::Config", "UpdateOrigin", "CollatorSelectionUpdateOrigin")
        c.config_is(rt, "pallet_session::Config", "SessionManager", "CollatorSelection", why="the sessions are assembled here")
        c.config_is(rt, "pallet_authorship::Config", "EventHandler", "(CollatorSelection,)", why="authors are noted here")
