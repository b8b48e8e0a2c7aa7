from iba.rules import prop

R = "btc_relay::"
CH, CI, BH = R + "Chains", R + "ChainsIndex", R + "BlockHeaders"


@prop("R01")
def initialise(c):
    v = c.fn(R + "initialize", args="o,h,n", opaque=("create_and_store_blockchain", "update_hash", "ensure_version"))
    v.requires("!@has(btc_relay::BestBlock)", why="the relay is initialised once")
    v.requires("btc_relay::DisableDifficultyCheck || n % 2016 == 0", why="the first block starts a difficulty period")
    v.requires("frame_system::ensure_signed(o) is Ok")
    v.requires("bitcoin::BlockHeader::ensure_version(h) is Ok")
    v.must("bitcoin::BlockHeader::update_hash(..)", why="the hash is recomputed, not taken from the submitter")
    v.order("bitcoin::BlockHeader::update_hash(..)", "btc_relay::create_and_store_blockchain(..)")
    v.requires("btc_relay::create_and_store_blockchain(n, _) is Ok")
    v.must("@write('btc_relay::BestBlock', _.hash)")
    v.must("@write('btc_relay::BestBlockHeight', n)")
    v.must("@write('btc_relay::StartBlockHeight', n)")
    v.must("Self::deposit_event(Event::Initialized{block_height: n, block_hash: _.hash, relayer_id: _})")
    g = c.fn(R + "GenesisConfig::build", args="g")
    for item, field in (("StableBitcoinConfirmations", "bitcoin_confirmations"), ("StableParachainConfirmations", "parachain_confirmations"),
                        ("DisableDifficultyCheck", "disable_difficulty_check"), ("DisableInclusionCheck", "disable_inclusion_check")):
        g.must("@write('btc_relay::%s', g.%s)" % (item, field), why="the genesis parameters take effect")


@prop("R01")
def store(c):
    v = c.fn(R + "store_block_header", args="o,h,fb", opaque=("_store_block_header", "update_hash", "ensure_version"))
    v.requires("frame_system::ensure_signed(o) is Ok")
    v.requires("@cast('u32', btc_relay::ChainCounter) + 1 <= fb", alt=["btc_relay::ChainCounter + 1 <= fb", "btc_relay::ChainCounter < fb"], why="the caller pays for at least as many forks as there are")
    v.requires("bitcoin::BlockHeader::ensure_version(h) is Ok")
    v.order("bitcoin::BlockHeader::update_hash(..)", "btc_relay::_store_block_header(..)", why="the hash is recomputed, not taken from the submitter")
    v.must("btc_relay::_store_block_header(..)")
    s = c.fn(R + "_store_block_header", args="r,h", opaque=("verify_block_header", "create_and_store_blockchain", "extend_blockchain", "reorganize_chains"))
    s.let("P", BH + "[h.hash_prev_block]").let("C", CI + "[P.chain_id]").let("H", "P.block_height + 1")
    s.requires("@has(P)", why="the parent is known")
    s.requires("btc_relay::verify_block_header(h, H, P) is Ok", why="the header is checked against its parent at the height it gets")
    s.let("F", "P.block_height != C.max_height")
    s.must("btc_relay::create_and_store_blockchain(H, h)", when="F", why="a block on a parent that is not a tip starts a fork")
    s.must("btc_relay::extend_blockchain(H, h, C)", when="!(F)", why="a block on a tip extends its chain")
    s.never("btc_relay::create_and_store_blockchain(..)", when="!(F)")
    s.never("btc_relay::extend_blockchain(..)", when="F")
    s.let("X", "btc_relay::extend_blockchain(H, h, C)")
    s.must("btc_relay::reorganize_chains(X)", when=["!(F)", "X.chain_id != 0"], why="a longer fork may have to move up")
    s.must("@write('btc_relay::BestBlock', h.hash)", when=["!(F)", "X.chain_id == 0"])
    s.must("@write('btc_relay::BestBlockHeight', H)", when=["!(F)", "X.chain_id == 0"])
    s.never("@write('btc_relay::BestBlock', h.hash)", when="F", why="a fork does not move the tip")
    s.never("@write('btc_relay::BestBlock', h.hash)", when=["X.chain_id != 0"], why="a fork does not move the tip")
    s.must("Self::deposit_event(Event::StoreMainChainHeader{block_height: H, block_hash: h.hash, relayer_id: r})", when=["!(F)", "X.chain_id == 0"])
    s.must("Self::deposit_event(Event::StoreForkHeader{chain_id: _, fork_height: H, block_hash: h.hash, relayer_id: r})", when=["F", "btc_relay::BestBlock != h.hash"])


@prop("R01")
def stored(c):
    hdr = "RichBlockHeader{block_header: h, block_height: n, chain_id: %s, para_height: security::active_block_number()}"
    v = c.fn(R + "create_and_store_blockchain", args="n,h", opaque=("insert_sorted",))
    v.let("CC", "btc_relay::ChainCounter")
    v.requires("@noovf(CC + 1)")
    v.must("@write('btc_relay::ChainCounter', CC + 1)", why="chain ids are never reused")
    v.must("@write('btc_relay::ChainsHashes', h.hash, CC, n)")
    v.must("@write('btc_relay::ChainsIndex', BlockChain{chain_id: CC, start_height: n, max_height: n}, CC)")
    v.must("btc_relay::insert_sorted(BlockChain{chain_id: CC, start_height: n, max_height: n})")
    v.must("@write('btc_relay::BlockHeaders', %s, h.hash)" % (hdr % "CC"))
    v.returns("CC")
    e = c.fn(R + "extend_blockchain", args="n,h,b")
    e.requires("!@has(btc_relay::ChainsHashes[b.chain_id, n])", why="no block is overwritten")
    e.must("@write('btc_relay::ChainsHashes', h.hash, b.chain_id, n)")
    e.bind("NB", "@upd(b, 'max_height', n)", opt=True)
    e.must("@write('btc_relay::ChainsIndex', _, b.chain_id)")
    e.must("@write('btc_relay::BlockHeaders', %s, h.hash)" % (hdr % "b.chain_id"), why="the block records its height, its chain and when it was stored")
    e.returns("n", path="max_height")
    e.returns("b.chain_id", path="chain_id")
    e.returns("b.start_height", path="start_height")


@prop("R02")
def verify(c):
    v = c.fn(R + "verify_block_header", args="h,n,p", opaque=("get_last_retarget_time",))
    v.requires("!@has(btc_relay::BlockHeaders[h.hash])", why="no block is stored twice")
    v.requires("bitcoin::H256Le::as_u256(h.hash) < h.target", why="proof of work")
    v.let("ON", "!btc_relay::DisableDifficultyCheck")
    v.let("W", "bitcoin::pow::calculate_next_work_required(p.block_header.target, btc_relay::get_last_retarget_time(p.chain_id, n), p.block_header.timestamp)")
    v.requires("h.target == p.block_header.target", when=["ON", "n % 2016 != 0"], why="the target is the parent's within a period")
    v.requires("h.target == p.block_header.target", when=["ON", "n < 2016"])
    v.requires("h.target == U256::set_compact(W)", when=["ON", "n % 2016 == 0", "2016 <= n"], why="the target is the retargeted one at a period's start")
    v.requires("W is Ok", when=["ON", "n % 2016 == 0", "2016 <= n"])
    g = c.fn(R + "get_last_retarget_time", args="k,n", opaque=("get_block_header_from_height", "get_block_chain_from_id"))
    g.let("CUR", "@fold(@whileit(_, _), btc_relay::get_block_chain_from_id(k), btc_relay::get_block_chain_from_id(btc_relay::BlockHeaders[btc_relay::get_block_header_from_height(@acc(0, _), @acc(0, _).start_height).block_header.hash_prev_block].chain_id))")
    g.returns(["btc_relay::get_block_header_from_height(CUR, n - 2016).block_header.timestamp"], why="the period began 2016 blocks earlier, on the chain the fork grew from")
    g.bind("LOOP", "@whileit(n < 2016 + @acc(0, _).start_height, _)", opt=False)
    t = c.fn(R + "get_block_header_from_height", args="b,n")
    t.returns("btc_relay::BlockHeaders[btc_relay::ChainsHashes[b.chain_id, n]]")
    t.requires("@has(btc_relay::ChainsHashes[b.chain_id, n])")
    t.requires("@has(btc_relay::BlockHeaders[btc_relay::ChainsHashes[b.chain_id, n]])")
    c.const_is("btc_relay", "DIFFICULTY_ADJUSTMENT_INTERVAL", 2016)
    c.const_is("btc_relay", "MAIN_CHAIN_ID", 0)
    c.only_writers("btc_relay::DisableDifficultyCheck", [R + "GenesisConfig::build", R + "set_disable_difficulty_check"], why="difficulty checks cannot be switched off by a transaction")
    c.only_callers("btc_relay::set_disable_difficulty_check", [], minimum=0)
    c.only_writers("btc_relay::DisableInclusionCheck", [R + "GenesisConfig::build"], why="inclusion checks cannot be switched off")


@prop("R03")
def forks(c):
    v = c.fn(R + "reorganize_chains", args="f", opaque=("swap_main_blockchain", "get_block_chain_from_id", "get_chain_position_from_chain_id"))
    v.let("K", R + "StableBitcoinConfirmations")
    v.let("PREV", R + "get_block_chain_from_id(?id)")
    v.guards(R + "swap_main_blockchain(f)", [R + "get_block_chain_from_id(_).max_height + K <= f.max_height ||| @cast('u32', " + R + "get_block_chain_from_id(_).max_height) + K <= f.max_height"],
             why="the main chain is replaced only by a fork ahead by the stability parameter")
    v.guards("@stm('swap', 'btc_relay::Chains', ?a, ?b)", ["!@has(btc_relay::Chains[?a]) ||| btc_relay::get_block_chain_from_id(btc_relay::Chains[?a]).max_height < f.max_height"],
             why="a fork moves up past every fork that is lower than itself")
    v.bind("LOOP", "@whileit(1 <= @acc(0, _), btc_relay::get_chain_position_from_chain_id(f.chain_id))")
    v.guards("@stm('swap', 'btc_relay::Chains', ?a, ?b)", ["?a == @satsub(?b, 1) ||| ?b == ?a + 1 ||| ?b == @satsub(?a, 1) ||| ?a == ?b + 1"], why="a fork moves one position at a time")
    v.breaks("@whileit(_, _)", ["f.max_height <= " + R + "get_block_chain_from_id(_).max_height", CH + "[_] == 0"], why="the fork moves up until a chain at least as high, or the main chain, is above it")
    s = c.fn(R + "swap_main_blockchain", args="f", opaque=("swap_block_to_mainchain", "enumerate_chain_links", "get_block_chain_from_id", "get_chain_position_from_chain_id"))
    s.let("TIP", "btc_relay::ChainsHashes[f.chain_id, f.max_height]")
    s.must("@write('btc_relay::BestBlock', TIP)")
    s.must("@write('btc_relay::BestBlockHeight', f.max_height)")
    s.let("E", "@elem(btc_relay::enumerate_chain_links(TIP))")
    s.guards("@write('btc_relay::ChainsIndex', ?b, ?k)", ["?k == 0 ||| E.1.chain_id != E.0.chain_id"])
    s.must(R + "swap_block_to_mainchain(E.0, f.chain_id)")
    s.breaks("btc_relay::enumerate_chain_links(TIP)", ["E.1.chain_id == 0"], why="blocks move until the main chain is reached", minimum=1)
    s.guards("@write('btc_relay::ChainsIndex', ?b, ?k)", ["?k == 0 || ?k == f.chain_id"], when=["E.1.chain_id == 0"], why="the displaced main chain takes the fork's id")
    s.guards("@stm('swap', 'btc_relay::Chains', ?a, ?b)", ["?b == ?a + 1 ||| ?a == ?b + 1"], why="neighbours are compared and swapped")
    s.breaks("@range(btc_relay::get_chain_position_from_chain_id(f.chain_id), _)", ["!@has(btc_relay::Chains[1 + elem(_)])", "btc_relay::get_block_chain_from_id(btc_relay::Chains[1 + elem(_)]).max_height <= btc_relay::get_block_chain_from_id(btc_relay::Chains[elem(_)]).max_height"],
             why="the displaced chain moves down until a lower one follows", minimum=1)
    s.returns("(TIP, f.max_height)")
    s.guards("@write('btc_relay::ChainsIndex', ?b, ?k)", ["?b.max_height == f.max_height ||| ?b.start_height == E.1.block_height + 1"],
             why="the main chain gets the fork's height, a chain that lost its lower part starts above the branch point")
    s.guards("@write('btc_relay::ChainsIndex', ?b, ?k)", ["?k == 0 ||| ?k == f.chain_id && E.1.chain_id == 0 ||| ?k == E.1.chain_id ||| ?k == ?b.chain_id"])
    s.must("@write('btc_relay::ChainsIndex', _, 0)")
    s.guards("@stm('swap', 'btc_relay::Chains', ?a, ?b)", ["btc_relay::get_block_chain_from_id(btc_relay::Chains[?a]).max_height < btc_relay::get_block_chain_from_id(btc_relay::Chains[?b]).max_height"])
    m = c.fn(R + "swap_block_to_mainchain", args="b,k")
    m.let("OLD", "btc_relay::ChainsHashes[0, b.block_height]")
    m.must("@delete('btc_relay::ChainsHashes', b.chain_id, b.block_height)")
    m.must("@write('btc_relay::ChainsHashes', b.block_header.hash, 0, b.block_height)")
    m.must("@write('btc_relay::BlockHeaders.chain_id', 0, b.block_header.hash)")
    m.must("@write('btc_relay::ChainsHashes', OLD, k, b.block_height)", when="@has(OLD)", why="a displaced block moves to the fork's chain")
    m.must("@write('btc_relay::BlockHeaders.chain_id', k, OLD)", when="@has(OLD)")
    m.order("@delete('btc_relay::ChainsHashes', b.chain_id, b.block_height)", "@write('btc_relay::ChainsHashes', OLD, k, b.block_height)", why="the displaced block is not removed again")
    i = c.fn(R + "insert_sorted", args="b", opaque=("get_block_chain_from_id",))
    i.must("@write('btc_relay::Chains', b.chain_id, _)")
    if i.bind("X", "@exists(@skip(?all, 1), ?cond)", opt=True):
        i.bind("L", "@skip(_, 1)")
        q = "btc_relay::get_block_chain_from_id(elem(L).1)"
        c.check(i.bind("XX", "exists(L, (%s is Ok) && %s.max_height < b.max_height)" % (q, q), opt=True), "value", i.fid, "a new fork goes before the first lower one",
                "the position is searched with another condition")
        i.must("@stm('swap', 'btc_relay::Chains', 1 + elem(@range((if (X) {elem(L).0} else {_}), _)), elem(@range((if (X) {elem(L).0} else {_}), _)))")
    elif not i.bind("X", "@exists(@skip(_, _), _)", opt=True):
        c.undecided("value", i.fid, "position of a new fork", "the search for its position has a shape the rule does not interpret")
    else:
        c.bad("value", i.fid, "position of a new fork", "the search does not start right below the main chain")
    l = c.fn(R + "enumerate_chain_links", args="s", opaque=("get_block_header_from_hash",))
    G = R + "get_block_header_from_hash"
    l.guards(G + "(?x)", ["?x == s ||| ?x == %s(s).block_header.hash_prev_block ||| ?x == @cloarg('iter::successors', 0).1.block_header.hash_prev_block" % G], why="each step goes to the parent of the last parent")
    g = c.fn(R + "get_chain_position_from_chain_id", args="k")
    it = "@iterst('iter', 'btc_relay::Chains')"
    g.returns(["elem(%s).0" % it, "@first(%s, k == elem(%s).1, elem(%s).0)" % (it, it, it)], why="the position of that chain")
    g.requires("k == elem(%s).1" % it, alt=["exists(%s, k == elem(%s).1)" % (it, it)])
    for n, ws in (("Chains", ()), ("ChainsIndex", ()), ("ChainsHashes", ()), ("BlockHeaders", ()), ("BestBlock", ()), ("BestBlockHeight", ()), ("ChainCounter", ()), ("StartBlockHeight", ())):
        c.only_writers(R + n, [R + "initialize", R + "store_block_header", R + "_initialize", R + "_store_block_header"], why="relay state changes only by accepted headers")


@prop("R04")
def inclusion(c):
    v = c.fn(R + "_verify_transaction_inclusion", args="u,k", opaque=("verify_proof", "is_coinbase", "verify_block_header_inclusion"))
    v.let("U", "bitcoin::PartialTransactionProof::verify_proof(u.user_tx_proof)").let("C", "bitcoin::PartialTransactionProof::verify_proof(u.coinbase_proof)")
    v.let("H", R + "verify_block_header_inclusion(U.block_hash, k)")
    on = "!btc_relay::DisableInclusionCheck"
    for q, w in (("U is Ok", "the transaction's proof"), ("C is Ok", "the coinbase's proof"), ("C.transaction_position == 0", "the coinbase is the first leaf"),
                 ("U.extracted_root == C.extracted_root", "same tree"), ("U.block_hash == C.block_hash", "same block"), ("U.tx_count == C.tx_count", "same tree height"),
                 ("bitcoin::Transaction::is_coinbase(C.transaction)", "the first leaf is a coinbase, so no inner node passes for a transaction"),
                 ("H is Ok", "the block is confirmed on the main chain"), ("U.extracted_root == H.merkle_root", "the tree is the stored block's")):
        v.requires(q, when=on, why=w)
    v.returns("U.transaction", when=on)
    h = c.fn(R + "verify_block_header_inclusion", args="b,k", opaque=("check_bitcoin_confirmations",))
    h.let("B", BH + "[b]").let("N", R + "BestBlockHeight").let("F", CI + "[" + CH + "[1]]").let("K", R + "StableBitcoinConfirmations")
    h.requires("@has(B)")
    h.requires("B.chain_id == 0", why="only main chain blocks count")
    h.requires("F.max_height + K <= N", when="@has(btc_relay::Chains[1])", why="no fork is close to the main chain")
    h.requires("B.para_height + btc_relay::StableParachainConfirmations <= security::active_block_number()", why="relayed long enough ago")
    h.returns("B.block_header")
    h.requires(R + "check_bitcoin_confirmations(N, k, B.block_height) is Ok", why="deep enough in the main chain")
    q = c.fn(R + "check_bitcoin_confirmations", args="n,k,t")
    for q0, w in (("k#Some", "k is Some"), ("btc_relay::StableBitcoinConfirmations", "!(k is Some)")):
        a = "(t + %s)" % q0
        q.requires("@satsub(%s, 1) <= n" % a, alt=["(if @noovf(%s - 1) {%s - 1} else {%s}) <= n" % (a, a, z) for z in ("0", "@default()")] + ["%s <= n + 1" % a, "%s - 1 <= n" % a], when=w, why="as many blocks on top as required")
    c.only_callers(R + "_verify_transaction_inclusion", [R + "get_and_verify_issue_payment", R + "verify_and_validate_op_return_transaction"], minimum=2)


@prop("R05")
def payments(c):
    A = "elem(t.outputs).extract_address()"
    v = c.fn(R + "get_issue_payment", args="t,a", opaque=("extract_address",))
    v.requires("exists(t.outputs, (%s is Ok) && a == %s)" % (A, A), why="an output pays the deposit address")
    v.returns("@first(t.outputs, (%s is Ok) && a == %s, elem(t.outputs).value)" % (A, A), why="the value of that output")
    w = c.fn(R + "get_and_verify_issue_payment", args="u,a", opaque=("_verify_transaction_inclusion", "get_issue_payment"))
    w.let("T", R + "_verify_transaction_inclusion(u, None)")
    w.requires("T is Ok", why="verified with the stable number of confirmations")
    w.returns(R + "get_issue_payment(T, a)")
    o = c.fn(R + "verify_and_validate_op_return_transaction", args="u,a,n,id", opaque=("_verify_transaction_inclusion", "validate_op_return_transaction"))
    o.let("T", R + "_verify_transaction_inclusion(u, None)")
    o.requires("T is Ok", why="verified with the stable number of confirmations")
    o.requires(R + "validate_op_return_transaction(T, a, n, id) is Ok")
    p = c.fn(R + "validate_op_return_transaction", args="t,a,n,id", opaque=("btc_relay::OpReturnPaymentData::try_from", "ensure_valid_payment_to"))
    p.let("D", R + "OpReturnPaymentData::try_from(t)")
    p.requires("D is Ok")
    p.requires(R + "OpReturnPaymentData::ensure_valid_payment_to(D, n, a, Some(id)) is Ok")
    x = c.fn(R + "_validate_transaction", args="t,n,a,id", opaque=("validate_op_return_transaction", "get_issue_payment"))
    x.requires(R + "validate_op_return_transaction(t, a, n, id#Some) is Ok", when="id is Some")
    x.requires(R + "get_issue_payment(t, a) is Ok", when="!(id is Some)")
    x.requires("n == " + R + "get_issue_payment(t, a)", when="!(id is Some)", why="exactly the expected amount is paid")
    e = c.fn(R + "OpReturnPaymentData::ensure_valid_payment_to", args="self,n,a,id")
    e.requires("id#Some == self.op_return", when="id is Some", why="the payment names this request")
    e.requires("exists(self.payments, a == elem(self.payments).1)")
    e.requires("n == @first(self.payments, a == elem(self.payments).1, elem(self.payments).0)", why="exactly the requested amount is paid")
    d = c.fn("btc_relay::OpReturnPaymentData::try_from", args="t", opaque=("extract_address", "extract_op_return_data"))
    d.let("DATA", "elem(t.outputs).script.extract_op_return_data()").let("PAYS", "@filter(t.outputs, %s is Ok)" % A)
    d.requires("len(t.outputs) <= 3")
    d.requires("forall(t.outputs, (%s is Ok) || (DATA is Ok))" % A, why="every output is a payment or an op-return")
    d.requires("forall(t.outputs, (%s is Ok) || elem(t.outputs).value == 0)" % A, why="nothing is burnt")
    d.requires("forall(t.outputs, (%s is Ok) || len(DATA) == 32)" % A)
    d.requires("len(@filter(t.outputs, !(%s is Ok))) == 1" % A, why="exactly one identifier")
    d.requires("len(PAYS) == 1 || len(PAYS) == 2")
    d.bind("PS", "@mapit(PAYS, _)")
    d.requires("PS[0].1 != PS[1].1", when="len(PAYS) == 2", why="the recipient is not paid twice")
    d.returns("PS", path="payments")


@prop("R06")
def expiry(c):
    v = c.fn(R + "has_request_expired", args="o,b,p", opaque=("bitcoin_expiry_height",))
    v.returns("security::parachain_block_expired(o, p) && btc_relay::bitcoin_expiry_height(b, p) < btc_relay::BestBlockHeight", why="expired on both clocks, strictly")
    e = c.fn(R + "bitcoin_expiry_height", args="b,p")
    e.let("N", "@cfg('ParachainBlocksPerBitcoinBlock')")
    e.returns("b + (p + N - 1) / N", why="the period in Bitcoin blocks, rounded up")
    e.requires("@noovf(b + (p + N - 1) / N)")
    s = c.fn("security::parachain_block_expired", args="o,p")
    s.returns("o + p < security::ActiveBlockCount", why="counted in active blocks only")
    h = c.fn(R + "is_fully_initialized", args="")
    h.returns("@has(btc_relay::StartBlockHeight) && btc_relay::StartBlockHeight + btc_relay::StableBitcoinConfirmations <= btc_relay::BestBlockHeight")
