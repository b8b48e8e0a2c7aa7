from iba.rules import prop

D = "democracy::"
WHO = "frame_system::ensure_signed(o)"
DEP = "democracy::DepositOf[%s]"
REF = "democracy::ReferendumInfoOf[%s]"
ON = "ReferendumInfo::Ongoing"
PP = "democracy::PublicProps"
FIRST = "@first(%s, i == elem(%s).0, %%s(%s))" % (PP, PP, PP)
AT, IT = "@first(%s, i == elem(%s).0, idx(%s))" % (PP, PP, PP), "@first(%s, i == elem(%s).0, elem(%s))" % (PP, PP, PP)
REM = " ||| ".join("@write('democracy::PublicProps', @mut('%s', %s, %s))" % (m, PP, "%s") for m in ("swap_remove", "remove"))


@prop("K01")
def deposits(c):
    v = c.fn(D + "propose", args="o,p,d")
    v.let("W", WHO).let("N", "democracy::PublicPropCount")
    v.requires("W is Ok")
    v.requires("@cfg('MinimumDeposit') <= d", why="proposing costs at least the minimum deposit")
    v.requires(["@cast('u32', (if (@stm('decode_len', '%s') is Some) {@stm('decode_len', '%s')#Some} else {0})) < @cfg('MaxProposals')" % (PP, PP), "@len(%s) < @cfg('MaxProposals')" % PP])
    v.requires("T::Preimages::have(p)", why="a proposal nobody can read is refused")
    v.requires("T::Currency::reserve(W, d) is Ok", why="the deposit is taken")
    v.accepts(["W is Ok", "d == @cfg('MinimumDeposit')", "@cast('u32', (if (@stm('decode_len', '%s') is Some) {@stm('decode_len', '%s')#Some} else {0})) < @cfg('MaxProposals')" % (PP, PP), "@len(%s) < @cfg('MaxProposals')" % PP, "T::Preimages::have(p)", "T::Currency::reserve(W, d) is Ok"], explicit=True)
    v.must("T::Preimages::hold(p)", why="its content stays available")
    v.must("@write('democracy::PublicPropCount', N + 1)", why="every proposal has its own number")
    v.must("@write('democracy::DepositOf', (_, d), N)")
    v.must("BoundedVec::truncate_from(@arr(W)) ||| @write('democracy::DepositOf', (@arr(W), d), N)", why="the proposer is the first depositor")
    v.must("@stm('try_append', '%s', (N, p, W)) ||| @write('%s', @push(%s, (N, p, W)))" % (PP, PP, PP))
    v.must("Self::deposit_event(Event::Proposed{proposal_index: N, deposit: d})")
    s = c.fn(D + "second", args="o,i", opaque=("len_of_deposit_of",))
    s.let("W", WHO).let("DEP", DEP % "i")
    s.requires("W is Ok")
    s.requires("@has(DEP)", why="only a proposal that is waiting can be seconded")
    s.requires("T::Currency::reserve(W, DEP.1) is Ok", why="for the same deposit as the proposal's")
    s.requires("democracy::len_of_deposit_of(i)#Some < @cfg('MaxDeposits') ||| @len(DEP.0) < @cfg('MaxDeposits')")
    s.must("@write('democracy::DepositOf.0', @push(DEP.0, W), i) ||| @write('democracy::DepositOf', DEP.{0: @push(DEP.0, W)}, i)", why="the seconder is recorded")
    l = c.fn(D + "decode_compact_u32_at", args="k").some()
    l.let("R", "storage::read(k, _, 0)")
    l.requires("storage::read(k, _, 0) is Some")
    n = c.fn(D + "len_of_deposit_of", args="i", opaque=("decode_compact_u32_at",))
    n.returns("democracy::decode_compact_u32_at(@stm('hashed_key_for', 'democracy::DepositOf', i))")
    for fn, args, opq in (("cancel_proposal", "o,i", ()), ("fast_track_with_voting_period", "i,d,p", ("inject_referendum",))):
        v = c.fn(D + fn, args=args, opaque=opq)
        v.let("DEP", DEP % "i")
        v.requires("@exists(%s, i == elem(%s).0)" % (PP, PP), why="only a proposal that is waiting")
        v.must(REM.replace("%s", AT), why="it leaves the queue")
        v.must("@delete('democracy::DepositOf', i)", why="deposits are returned once")
        v.must("T::Currency::unreserve(elem(DEP.0), DEP.1)", when=["@has(DEP)"], why="everybody who deposited gets the deposit back")
        v.count("T::Currency::unreserve(..)", 1)
    v = c.fn(D + "cancel_proposal", args="o,i")
    v.requires("%s is Ok || frame_system::ensure_root(o) is Ok" % WHO)
    v.requires(["!(%s is Ok) || %s == %s.2" % (WHO, WHO, IT)], why="others than root cancel only their own proposals")
    v.must("T::Preimages::drop(%s.1)" % IT, why="its content need no longer be held")
    v.must("Self::deposit_event(Event::CancelledProposal{prop_index: i})")
    p = c.fn(D + "launch_public", args="n", opaque=("inject_referendum",))
    p.bind("M", "@max_by_key(@enumerate(%s), ?k)#Some.0" % PP)
    p.let("P", "@at(%s, M)" % PP).let("DEP", DEP % "P.0")
    p.must(REM.replace("%s", "M"), why="it leaves the queue")
    p.must("@delete('democracy::DepositOf', P.0)")
    p.must("T::Currency::unreserve(elem(DEP.0), DEP.1)", when=["@has(DEP)"], why="everybody who deposited gets the deposit back")
    p.count("T::Currency::unreserve(..)", 1)
    x = c.fn(D + "clear_public_proposals", args="o")
    x.requires("frame_system::ensure_root(o) is Ok")
    x.must("@delete('democracy::PublicProps') ||| @stm('take', 'democracy::PublicProps') ||| @write('democracy::PublicProps', @arr()) ||| @write('democracy::PublicProps', @default())")
    x.must("T::Currency::unreserve(_, _)", why="deposits for proposals that leave the queue are returned")
    c.only_writers("democracy::DepositOf", {D + "propose", D + "second", D + "cancel_proposal", D + "fast_track_with_voting_period", D + "launch_public"})
    c.only_writers("democracy::PublicProps", {D + "propose", D + "clear_public_proposals", D + "cancel_proposal", D + "fast_track_with_voting_period", D + "launch_public", D + "Migration::on_runtime_upgrade"})
    c.only_writers("democracy::PublicPropCount", {D + "propose", D + "GenesisConfig::build"})


@prop("K02")
def votes(c):
    v = c.fn(D + "vote", args="o,r,v", opaque=("try_vote",))
    v.requires("democracy::try_vote(%s, r, v) is Ok" % WHO, why="one votes for oneself")
    v.accepts(["democracy::try_vote(%s, r, v) is Ok" % WHO, "%s is Ok" % WHO])
    v = c.fn(D + "remove_vote", args="o,r", opaque=("try_remove_vote",))
    v.requires("democracy::try_remove_vote(%s, r) is Ok" % WHO)
    OPQ = ("democracy::Tally::add", "democracy::Tally::remove")
    v = c.fn(D + "try_vote", args="w,r,v", opaque=OPQ)
    v.let("R", REF % "r").let("S", "R#" + ON).let("VS", "democracy::VotingOf[w].votes")
    v.requires("@has(R)")
    v.requires("R is " + ON, why="nothing counts once voting is over")
    v.requires("v.balance <= T::Currency::free_balance(w)", why="no more counts than the voter's power")
    v.accepts(["@has(R)", "R is " + ON, "v.balance == T::Currency::free_balance(w)", "!(VS.binary_search_by_key(r, _) is Ok)"], explicit=True, why="all of the voter's power can be used")
    v.bind("B", "VS.binary_search_by_key(r, _)")
    v.bind("A", "democracy::Tally::add(_, v)")
    v.let("M", "democracy::Tally::remove(S.tally, VS[B].1)")
    v.requires("!(B is Ok) || M is Some", why="a vote replaces the account's earlier one")
    v.requires("democracy::Tally::add((if (B is Ok) {@havoc(M, 0)} else {S.tally}), v) is Some", why="and is counted once")
    v.must("@write('democracy::VotingOf.votes', (if (B is Ok) {@iupd(VS, B, VS[B].{1: v})} else {@mut(_, VS, B#Err, (r, v))}), w)", why="what was counted is remembered, in order")
    v.must("@write('democracy::ReferendumInfoOf', %s(S.{tally: @havoc(A, 0)}), r)" % ON)
    v = c.fn(D + "try_remove_vote", args="w,r", opaque=OPQ)
    v.let("R", REF % "r").let("S", "R#" + ON).let("VS", "democracy::VotingOf[w].votes")
    v.bind("B", "VS.binary_search_by_key(r, _)")
    v.let("M", "democracy::Tally::remove(S.tally, VS[B].1)")
    v.requires("B is Ok", why="only a vote that was given can be removed")
    on = ["@has(R)", "R is " + ON]
    v.requires("!(@has(R)) || !(R is %s) || M is Some" % ON, why="exactly what was given is subtracted")
    v.must("@write('democracy::ReferendumInfoOf', %s(S.{tally: @havoc(M, 0)}), r)" % ON, when=on)
    v.guards("@write('democracy::ReferendumInfoOf', ..)", on, why="a finished referendum keeps its result")
    v.must("@write('democracy::VotingOf.votes', @mut('remove', VS, B), w)")
    v.accepts(["B is Ok", "R is ReferendumInfo::Finished", "!(R is %s)" % ON])
    c.only_writers("democracy::VotingOf", {D + "try_vote", D + "try_remove_vote"})
    c.config_is("kintsugi_runtime_parachain", "democracy::Config", "Currency", "Escrow", why="voting power is what is locked")


@prop("K02")
def tally(c):
    for fn, op in (("add", "+"), ("remove", "-")):
        t = c.fn(D + "Tally::" + fn, args="self,v").some()
        t.requires("@noovf(self.turnout %s v.balance)" % op)
        t.ends("self", "turnout", "self.turnout %s v.balance" % op, why="turnout counts every vote")
        t.ends("self", "ayes", "self.ayes %s v.balance" % op, when="v.aye")
        t.ends("self", "nays", "self.nays", when="v.aye")
        t.ends("self", "nays", "self.nays %s v.balance" % op, when="!v.aye")
        t.ends("self", "ayes", "self.ayes", when="!v.aye")


@prop("K03")
def outcome(c):
    a = c.fn(D + "VoteThreshold::approved", args="self,t,e", opaque=("compare_rationals",))
    C = "democracy::vote_threshold::compare_rationals"
    a.let("SV", "t.turnout.integer_sqrt()").let("SE", "max(e, t.turnout).integer_sqrt()")
    a.returns("false", when=["SV == 0"])
    a.returns("false", when=["SE == 0"], why="no votes, no approval")
    some = ["SV != 0", "SE != 0"]
    V = ("SuperMajorityApprove", "SuperMajorityAgainst", "SimpleMajority")
    for k, r in zip(V, (C + "(t.nays, SV, t.ayes, SE)", C + "(t.nays, SE, t.ayes, SV)", "t.nays < t.ayes")):
        a.returns(r, when=some + ["self is VoteThreshold::" + k] + ["!(self is VoteThreshold::%s)" % x for x in V if x != k], why="low turnout asks for a larger majority, one way or the other")
    r = c.fn(C, args="a,b,x,y")
    r.let("W", "@whileit(?c, b, y, a, x)")
    b = c.fn(D + "bake_referendum", args="n,i,s", opaque=("VoteThreshold::approved", "democracy::VoteThreshold::approved"))
    b.let("OK", "democracy::VoteThreshold::approved(s.threshold, s.tally, T::Currency::total_issuance())")
    b.returns("OK", why="the tally decides, against all voting power there is")
    b.must("T::Scheduler::schedule_named(('64656d6f63726163', i).encode_into(), DispatchTime::At(n + max(s.delay, 1)), None, 63, RawOrigin::Root, s.proposal)", when="OK",
           why="an approved proposal is enacted by root, after its delay, not before the next block")
    b.guards("T::Scheduler::schedule_named(..)", ["OK"], why="nothing else is")
    b.must("T::Preimages::drop(s.proposal)", when="!OK")
    b.guards("T::Preimages::drop(..)", ["!OK"])
    b.must("Self::deposit_event(Event::Passed{ref_index: i})", when="OK")
    b.must("Self::deposit_event(Event::NotPassed{ref_index: i})", when="!OK")
    g = c.fn(D + "begin_block", args="n", opaque=("bake_referendum", "maturing_referenda_at_inner", "launch_public", "should_launch"))
    g.let("LO", "democracy::LowestUnbaked").let("HI", "democracy::ReferendumCount")
    g.let("DUE", "democracy::maturing_referenda_at_inner(n, range(LO, HI))")
    g.let("B", "democracy::bake_referendum(n, elem(DUE).0, elem(DUE).1)")
    g.requires("@forall(DUE, B is Ok)", why="every referendum that ends now is decided")
    g.must("@write('democracy::ReferendumInfoOf', ReferendumInfo::Finished{end: n, approved: B}, elem(DUE).0)", why="and closed with its result")
    A = REF % "@acc(0, _)"
    g.must("@write('democracy::LowestUnbaked', fold(@whileit(@acc(0, _) < HI && (!@has(%s) || %s is ReferendumInfo::Finished), LO), LO, @acc(0, _) + 1))" % (A, A),
           why="finished referenda are not read again every block, open ones are")
    m = c.fn(D + "maturing_referenda_at_inner", args="n,r")
    q = "democracy::ReferendumInfoOf[elem(r)]"
    m.returns(["@mapit(@filter(r, @has(%s) && %s is %s && n == %s#%s.end), (elem(r), %s#%s))" % (q, q, ON, q, ON, q, ON)], why="all referenda that are open and end in this block")
    m = c.fn(D + "maturing_referenda_at", args="n", opaque=("maturing_referenda_at_inner",))
    m.returns("democracy::maturing_referenda_at_inner(n, range(LO, HI))".replace("LO", "democracy::LowestUnbaked").replace("HI", "democracy::ReferendumCount"))
    h = c.fn("democracy::Hooks::on_initialize", args="n", opaque=("begin_block",))
    h.must("democracy::begin_block(n)", why="every block")
    c.only_callers(D + "bake_referendum", {D + "begin_block"}, minimum=1)


@prop("K04")
def tabling(c):
    TR = "T::FastTrackOrigin::ensure_origin(o) is Ok"
    for fn, cfg in (("fast_track", "FastTrackVotingPeriod"), ("table_proposal", "VotingPeriod")):
        v = c.fn(D + fn, args="o,i,d", opaque=("fast_track_with_voting_period",))
        v.requires(TR, why="only the fast track origin")
        v.requires("democracy::fast_track_with_voting_period(i, d, @cfg('%s')) is Ok" % cfg)
        v.accepts([TR, "democracy::fast_track_with_voting_period(i, d, @cfg('%s')) is Ok" % cfg])
    NOW = ("frame_system::Pallet::block_number()", "Pallet::block_number()")
    v = c.fn(D + "fast_track_with_voting_period", args="i,d,p", opaque=("inject_referendum",))
    inj = " ||| ".join("democracy::inject_referendum(p + %s, %s.1, VoteThreshold::SuperMajorityApprove, d)" % (n, IT) for n in NOW)
    v.must(inj, why="the proposal itself is voted on, for the whole period, and passes only by a supermajority")
    v.count("democracy::inject_referendum(..)", 1)
    v.must(" ||| ".join("Self::deposit_event(Event::FastTrack{ref_index: %s})" % x for x in inj.split(" ||| ")))
    v = c.fn(D + "fast_track_referendum", args="o,r")
    v.let("R", REF % "r").let("S", "R#" + ON).let("END", "frame_system::Pallet::block_number() + @cfg('FastTrackVotingPeriod')")
    v.requires(TR)
    v.requires(["@has(R)"])
    v.requires("R is " + ON, why="a decided referendum is not opened again")
    v.requires("END < S.end", why="voting is only ever shortened")
    v.must("@write('democracy::ReferendumInfoOf', %s(S.{end: END}), r) ||| @write('democracy::ReferendumInfoOf', %s(S.{end: END}), r)" % (ON, ON), why="to the fast track period, at least")
    v.must("Self::deposit_event(Event::FastTrackReferendum{ref_index: r})")
    v.accepts([TR, "@has(R)", "R is " + ON, "END < S.end"])
    v = c.fn(D + "cancel_referendum", args="o,r", opaque=("internal_cancel_referendum",))
    v.requires("frame_system::ensure_root(o) is Ok")
    v.must("democracy::internal_cancel_referendum(r)")
    v = c.fn(D + "internal_cancel_referendum", args="r")
    v.let("R", REF % "r")
    v.must("@delete('democracy::ReferendumInfoOf', r) ||| @stm('take', 'democracy::ReferendumInfoOf', r)")
    v.must("T::Preimages::drop(R#%s.proposal)" % ON, when=["@has(R)", "R is " + ON])
    v.guards("T::Preimages::drop(..)", ["R is " + ON], why="an enacted proposal still needs its content")
    v.must("Self::deposit_event(Event::Cancelled{ref_index: r})")
    v = c.fn(D + "spend_from_treasury", args="o,n,w")
    v.requires("frame_system::ensure_root(o) is Ok", why="only governance spends from the treasury")
    v.requires("T::TreasuryCurrency::transfer(@cfg('TreasuryAccount'), w, n, ExistenceRequirement::AllowDeath) is Ok")
    v = c.fn(D + "clear_public_proposals", args="o")
    v.requires("frame_system::ensure_root(o) is Ok")
    v = c.fn(D + "inject_referendum", args="e,p,t,d")
    v.let("N", "democracy::ReferendumCount")
    v.returns("N")
    v.must("@write('democracy::ReferendumCount', N + 1)", why="every referendum has its own number")
    for z in ("@default()",):
        v.must("@write('democracy::ReferendumInfoOf', %s(ReferendumStatus{end: e, proposal: p, threshold: t, delay: d, tally: %s}), N)" % (ON, z), why="voting starts from nothing")
    v.must("Self::deposit_event(Event::Started{ref_index: N, threshold: t})")
    v = c.fn(D + "internal_start_referendum", args="p,t,d", opaque=("inject_referendum",))
    v.must(" ||| ".join("democracy::inject_referendum(%s + @cfg('VotingPeriod'), p, t, d)" % n for n in NOW))
    c.only_writers("democracy::ReferendumInfoOf", {D + x for x in ("try_vote", "try_remove_vote", "inject_referendum", "fast_track_referendum", "internal_cancel_referendum", "begin_block")} | {D + "Migration::on_runtime_upgrade"})
    c.only_writers("democracy::ReferendumCount", {D + "inject_referendum", D + "GenesisConfig::build"})
    c.only_writers("democracy::LowestUnbaked", {D + "begin_block", D + "GenesisConfig::build"})
    c.only_writers("democracy::NextLaunchTimestamp", {D + "should_launch", D + "GenesisConfig::build", D + "Migration::on_runtime_upgrade"})


@prop("K04")
def launching(c):
    p = c.fn(D + "launch_public", args="n", opaque=("inject_referendum", "backing_for"))
    p.bind("M", "@max_by_key(@enumerate(%s), ?k)#Some.0" % PP)
    B = "democracy::backing_for(elem(%s).0)" % PP
    p.let("P", "@at(%s, M)" % PP).let("DEP", DEP % "P.0")
    p.requires("@max_by_key(@enumerate(%s), (if (%s is Some) {%s#Some} else {0})) is Some" % (PP, B, B), why="the proposal with most backing is next")
    inj = "democracy::inject_referendum(n + @cfg('VotingPeriod'), P.1, VoteThreshold::SuperMajorityApprove, @cfg('EnactmentPeriod'))"
    p.must(inj, when=["@has(DEP)"], why="the proposal itself is voted on, for the whole period, and passes only by a supermajority")
    p.count("democracy::inject_referendum(..)", 1)
    p.must("Self::deposit_event(Event::Tabled{proposal_index: P.0, deposit: DEP.1})", when=["@has(DEP)"])
    b = c.fn(D + "backing_for", args="i").some()
    b.let("DEP", DEP % "i")
    b.returns(["DEP.1 * @cast('u32', @len(DEP.0))", "DEP.1 * @len(DEP.0)"], why="everybody's deposit counts")
    s = c.fn(D + "should_launch", args="t")
    s.let("N", "democracy::NextLaunchTimestamp").let("L", "@cfg('LaunchPeriod')")
    s.returns("N <= t", why="not before the time is reached")
    s.must(["@write('democracy::NextLaunchTimestamp', N + L * (@satsub(t, N).saturating_div(L) + 1))", "@write('democracy::NextLaunchTimestamp', N + L * (@satsub(t, N) / L + 1))"], when="N <= t",
           why="the next launch lies in the future, on the same grid")
    s.guards("@write('democracy::NextLaunchTimestamp', ..)", ["N <= t"])
    g = c.fn(D + "begin_block", args="n", opaque=("bake_referendum", "maturing_referenda_at_inner", "launch_public", "should_launch"))
    S = "democracy::should_launch(T::UnixTime::now().as_secs())"
    g.must("democracy::launch_public(n)", when=[S])
    g.guards("democracy::launch_public(n)", [S], why="proposals are launched once per period")
    c.only_callers(D + "launch_public", {D + "launch_next"}, minimum=1)
    c.only_callers(D + "launch_next", {D + "begin_block"}, minimum=1)
    c.only_callers(D + "fast_track_with_voting_period", {D + "fast_track", D + "table_proposal"}, minimum=2)
