from iba.rules import prop

P = "bitcoin::BytesParser::parse"
PARSE = (P, P + "_with")


@prop("B08")
def tx_parse(c):
    v = c.fn("bitcoin::Transaction::parse", args="b,pos", opaque=PARSE)
    v.let("S", "BytesParser{position: 0, raw_bytes: b[range(pos, @inf())]}").let("V", P + "(S)").let("I1", P + "_with(@havoc(V, 0), V)")
    v.let("F", P + "(@havoc(I1, 0))").let("I2", P + "_with(@havoc(F, 0), V)").let("wit", "0 == V & 1073741824")
    why = "BIP 141 marker/flag/witness layout"
    v.requires("V is Ok")
    v.requires("V == 1 || V == 2", why="only transaction versions 1 and 2 are understood")
    v.returns("V", path="0.version")
    # without marker
    leg = ["len(I1) != 0"]
    v.let("O1", P + "(@havoc(I1, 0))").let("L1", P + "(@havoc(O1, 0))")
    v.returns("I1", when=leg, path="0.inputs")
    v.returns("O1", when=leg, path="0.outputs")
    v.returns("LockTime::BlockHeight(L1)", when=leg + ["L1 <= 499999999"], path="0.lock_at", why="lock times below 500000000 are block heights")
    v.returns("LockTime::Time(L1)", when=leg + ["500000000 <= L1"], path="0.lock_at")
    v.returns("@havoc(L1, 0).position", when=leg, path="1")
    for x in ("I1", "O1", "L1"):
        v.requires(x + " is Ok", when=leg)
    # with marker
    seg = ["len(I1) == 0", "wit"]
    v.let("O2", P + "(@havoc(I2, 0))")
    v.requires("F == 0 || F == 1", when=seg, why="unknown flag bits are rejected")
    one, none = seg + ["F % 2 == 1"], seg + ["F % 2 == 0"]
    v.let("L2n", P + "(@havoc(O2, 0))")
    v.returns("O2", when=seg, path="0.outputs", why=why)
    v.returns("I2", when=none, path="0.inputs", why=why)
    v.returns("@havoc(L2n, 0).position", when=none, path="1")
    v.requires("F is Ok", when=seg)
    v.requires("I2 is Ok", when=seg)
    v.bind("W", P + "(@acc(0, _))", "event")
    v.let("L2", P + "(fold(I2, @havoc(O2, 0), @havoc(" + P + "(@acc(0, '_')), 0)))")
    v.let("WI", "elem(I2).{witness: W}")
    v.returns("mapit(I2, WI)", when=one, path="0.inputs", why="every input gets its witness stack")
    v.requires("exists(I2, len(WI.witness) != 0)", when=one, why="a set witness flag with only empty witnesses is rejected")
    v.requires("forall(I2, W is Ok)", when=one)
    v.returns("@havoc(L2, 0).position", when=one, path="1", why=why)
    v.requires("L2 is Ok", when=one)
    for l, cs in (("L2", one), ("L2n", none)):
        v.returns("LockTime::BlockHeight(%s)" % l, when=cs + ["%s <= 499999999" % l], path="0.lock_at")
        v.returns("LockTime::Time(%s)" % l, when=cs + ["500000000 <= %s" % l], path="0.lock_at")
    for ver in ("V == 1", "V == 2"):
        v.accepts(leg + [ver], explicit=True)
        v.accepts(seg + ["F == 0", ver], explicit=True)
        v.accepts(seg + ["F == 1", ver, "exists(I2, len(WI.witness) != 0)"], explicit=True)
    w = c.fn("bitcoin::TransactionInput::with_witness", args="self,w")
    w.ends("self", "witness", "w")
    for k in ("source", "script", "sequence"):
        w.ends("self", k, "self." + k)
    t = c.fn("bitcoin::parser::parse_transaction", args="b", opaque=("bitcoin::Transaction::parse",))
    t.returns("bitcoin::Transaction::parse(b, 0).0")
    t.requires("bitcoin::Transaction::parse(b, 0) is Ok")


@prop("B08")
def tx_input_parse(c):
    v = c.fn("bitcoin::parser::parse_transaction_input", args="b,ver", opaque=PARSE)
    v.let("H", P + "(BytesParser{position: 0, raw_bytes: b})").let("X", P + "(@havoc(H, 0))").let("N", P + "(@havoc(X, 0))").let("Z", P + "(@havoc(N, 0))")
    v.let("C1", "@havoc(N, 0)").let("C2", "@havoc(Z, 0)")
    v.requires("H is Ok")
    cb, cb2, nc = ["H == 0", "ver == 1"], ["H == 0", "ver == 2"], ["H != 0"]
    v.requires("X == 4294967295", when="H == 0", why="a coinbase input has no previous output")
    v.let("after", "C2.position + Z.value").let("rest", "N.value - (Z.value + 1)")
    v.requires("Z is Ok", when=cb2)
    v.requires("Z.value <= 4", when=cb2, why="the height must fit into four bytes")
    v.requires("rest <= 100", when=cb2, why="coinbase scripts have at most 100 bytes")
    v.requires("N.value <= 100", when=cb, why="coinbase scripts have at most 100 bytes")
    v.returns("TransactionInputSource::FromOutput(H, X)", when=nc, path="0.source")
    v.returns("TransactionInputSource::Coinbase(None)", when=cb, path="0.source", why="version 1 coinbases carry no height")
    v.let("HB", "C2.raw_bytes[range(C2.position, after)]")
    v.returns(["TransactionInputSource::Coinbase(Some(u32::from_le_bytes(iupd(@repeat(0, 4), range(0, Z.value), HB))))",
               "TransactionInputSource::Coinbase(Some(u32::from_le_bytes(@fold(_, @repeat(0, 4), @iupd(@acc(0, _), _, HB[_])))))"], when=cb2, path="0.source")
    for cs in (nc, cb):
        v.returns("C1.raw_bytes[range(C1.position, C1.position + N.value)]", when=cs, path="0.script")
        v.requires("C1.position + N.value <= len(C1.raw_bytes)", when=cs)
    v.returns("C2.raw_bytes[range(after, after + rest)]", when=cb2, path="0.script", why="the script follows the height")
    v.let("SQ0", v.field_of_result("0.sequence"))
    v.value("SQ0", P + "(_)")
    v.returns("@havoc(SQ0, 0).position", path="1", why="the consumed length is the final cursor")
    v.returns("@arr()", path="0.witness")
    v.accepts(nc, explicit=True)
    v.accepts(["H == 0", "X == 4294967295", "ver == 1", "N.value <= 100"], explicit=True)
    v.accepts(["H == 0", "X == 4294967295", "ver == 2", "Z.value <= 4", "Z.value < N.value", "rest <= 100"], explicit=True)
    o = c.fn("bitcoin::parser::parse_transaction_output", args="b", opaque=PARSE)
    o.let("A", P + "(BytesParser{position: 0, raw_bytes: b})").let("N", P + "(@havoc(A, 0))").let("C", "@havoc(N, 0)")
    o.requires("A is Ok")
    o.requires("N is Ok")
    o.accepts(["N.value <= 10000"], explicit=True)
    o.requires("N.value <= 10000", why="output scripts have at most 10000 bytes")
    o.returns("A", path="0.value")
    o.returns(["C.raw_bytes[range(C.position, C.position + N.value)]", "Script{bytes: C.raw_bytes[range(C.position, C.position + N.value)]}"], path="0.script")
    o.returns("C.position + N.value", path="1")


@prop("B08")
@prop("B12")
def cursor(c):
    r = c.fn("bitcoin::BytesParser::read", args="self,n")
    r.requires("self.position + n <= len(self.raw_bytes)")
    r.returns("self.raw_bytes[range(self.position, self.position + n)]")
    r.ends("self", "position", "self.position + n")
    r.ends("self", "raw_bytes", "self.raw_bytes")
    p = c.fn("bitcoin::BytesParser::parse", args="self")
    p.let("R", "T::parse(self.raw_bytes, self.position)")
    p.requires("R is Ok")
    p.returns("R.0")
    p.ends("self", "position", "self.position + R.1")
    p.ends("self", "raw_bytes", "self.raw_bytes")
    q = c.fn("bitcoin::BytesParser::parse_with", args="self,x")
    q.let("R", "T::parse_with(self.raw_bytes, self.position, x)")
    q.requires("R is Ok")
    q.returns("R.0")
    q.ends("self", "position", "self.position + R.1")
    n = c.fn("bitcoin::BytesParser::new", args="b")
    n.returns("BytesParser{position: 0, raw_bytes: b}")
    for fn, args, call in (("bitcoin::Vec::parse", "b,pos", P + "(%s)"), ("bitcoin::Vec::parse_with", "b,pos,x", P + "_with(%s, x)")):
        v = c.fn(fn, args=args, opaque=PARSE, sel="<T>" if fn.endswith("parse") else None)
        v.let("N", P + "(BytesParser{position: 0, raw_bytes: b[range(pos, @inf())]})").let("R", "range(0, N.value)")
        v.requires("N is Ok")
        v.bind("E", call % "@acc(0, _)", "event")
        v.requires("forall(R, E is Ok)")
        v.returns(["mapit(R, E)", "fold(R, @arr(), push(@acc(0, _), E))"], path="0", why="as many elements as the length prefix announces")
        v.returns("fold(R, @havoc(N, 0), @havoc(%s, 0)).position" % (call % "@acc(0, '_')"), path="1")
    b = c.fn("bitcoin::Vec::parse", args="b,pos", sel="<bool>")
    b.returns("(mapit(range(0, 8), 0 != (b[pos] & (1 << elem(range(0, 8))))), 1)", why="flag bits are packed least significant first")
    b.requires("pos < len(b)")
    h = c.fn("bitcoin::H256Le::parse", args="b,pos")
    h.returns("32", path="1")
    h.returns(["b[range(pos, pos + 32)]", "H256Le{content: b[range(pos, pos + 32)]}"], path="0")
    h.requires("pos + 32 <= len(b)")


@prop("B12")
def no_panic(c):
    for fn, args, opaque, sel in (
        ("bitcoin::BytesParser::read", "self,n", (), None),
        ("bitcoin::BytesParser::parse", "self", (), None),
        ("bitcoin::BytesParser::parse_with", "self,x", (), None),
        ("bitcoin::Vec::parse", "b,pos", PARSE, "<T>"),
        ("bitcoin::Vec::parse", "b,pos", PARSE, "<bool>"),
        ("bitcoin::Vec::parse_with", "b,pos,x", PARSE, None),
        ("bitcoin::H256Le::parse", "b,pos", (), None),
        ("bitcoin::U256::parse", "b,pos", (), None),
        ("bitcoin::u8::parse", "b,pos", (), None),
        ("bitcoin::u16::parse", "b,pos", (), None),
        ("bitcoin::u32::parse", "b,pos", (), None),
        ("bitcoin::u64::parse", "b,pos", (), None),
        ("bitcoin::i32::parse", "b,pos", (), None),
        ("bitcoin::i64::parse", "b,pos", (), None),
        ("bitcoin::CompactUint::parse", "b,pos", (), None),
        ("bitcoin::BlockHeader::parse", "b,pos", PARSE, None),
        ("bitcoin::BlockHeader::from_bytes", "b", PARSE, None),
        ("bitcoin::BlockHeader::from_hex", "s", PARSE, None),
        ("bitcoin::parser::parse_block_header", "b", PARSE, None),
        ("bitcoin::parser::parse_compact_uint", "b", (), None),
        ("bitcoin::parser::parse_transaction", "b", PARSE, None),
        ("bitcoin::Transaction::parse", "b,pos", PARSE, None),
        ("bitcoin::TransactionInput::parse_with", "b,pos,x", PARSE, None),
        ("bitcoin::TransactionOutput::parse", "b,pos", PARSE, None),
        ("bitcoin::MerkleProof::parse", "b,pos", PARSE, None),
        ("bitcoin::PartialTransactionProof::verify_proof", "self", ("tx_id_bounded", "traverse_and_extract"), None),
        ("bitcoin::MerkleProof::traverse_and_extract", "self,h,pos,tr", (), None),
        ("bitcoin::Transaction::tx_id_bounded", "self,n", (), None),
        ("bitcoin::Address::from_script_pub_key", "s", (), None),
        ("bitcoin::Script::extract_op_return_data", "self", (), None),
        ("bitcoin::Script::is_p2pkh", "self", (), None),
        ("bitcoin::Script::is_p2sh", "self", (), None),
        ("bitcoin::Script::is_p2wpkh_v0", "self", (), None),
        ("bitcoin::Script::is_p2wsh_v0", "self", (), None),
        ("bitcoin::TransactionOutput::extract_address", "self", (), None),
        ("bitcoin::U256::set_compact", "c", (), None),
        ("bitcoin::U256::get_compact", "c", (), None),
        ("bitcoin::pow::calculate_next_work_required", "t,a,b", (), None),
        ("bitcoin::Transaction::is_coinbase", "self", (), None),
    ):
        c.fn(fn, args=args, opaque=opaque, sel=sel).no_panic(taint=["n"] if fn == "bitcoin::BytesParser::read" else ["bitcoin::BytesParser::parse(..)"], allow=[
            "@arith('-', _ + (1 << _), 1)",  # a power of two is at least one
            "@indexop(self.merkle_proof.hashes, @havoc(_, _).hash_position#Some)",  # set together with a bounds check by the traversal (B02)
        ])
