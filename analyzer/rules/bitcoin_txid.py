from iba.rules import prop

SER = ("bitcoin::LockTime::try_format", "sha256d_le", "sha256d")
HASW = "exists(self.inputs, len(elem(self.inputs).witness) != 0)"
NOW = "forall(self.inputs, len(elem(self.inputs).witness) == 0)"
LEGACY = ["self.version", "framed self.inputs", "framed self.outputs", "self.lock_at"]

X4 = "4294967295 ||| @repeat(255, 4)"


@prop("B09")
def tx_format(c):
    v = c.fn("bitcoin::Transaction::try_format", args="self,w", opaque=SER)
    v.emits(LEGACY, when=NOW, why="without witnesses the legacy layout is used")
    v.emits(["self.version", "0", "1", "framed self.inputs", "framed self.outputs", "each framed elem(self.inputs).witness", "self.lock_at"], when=HASW, why="BIP 144 layout")
    h = c.fn("bitcoin::Transaction::has_witness", args="self")
    h.returns(HASW)
    l = c.fn("bitcoin::LockTime::try_format", args="self,w")
    l.emits(["self#LockTime::Time"], when="self is LockTime::Time")
    l.emits(["self#LockTime::BlockHeight"], when=["self is LockTime::BlockHeight", "!(self is LockTime::Time)"])
    o = c.fn("bitcoin::TransactionOutput::try_format", args="self,w")
    o.emits(["self.value", "self.script"])
    s = c.fn("bitcoin::Script::try_format", args="self,w", opaque=("bitcoin::Vec::try_format",))
    s.emits(["framed self.bytes"])
    for fn in ("bitcoin::Transaction::hash",):
        t = c.fn(fn, args="self", opaque=SER)
        t.emits(LEGACY, when=NOW)
        t.emits(["self.version", "0", "1", "framed self.inputs", "framed self.outputs", "each framed elem(self.inputs).witness", "self.lock_at"], when=HASW)
        t.chain("bitcoin::utils::sha256d_le(?x)", "@arr()")


@prop("B09")
def input_format(c):
    v = c.fn("bitcoin::TransactionInput::try_format", args="self,w", opaque=("bitcoin::CompactUint::try_format", "bitcoin::Script::height"))
    v.let("HB", "bitcoin::Script::height(self.source#TransactionInputSource::Coinbase#Some).bytes")
    cbh = ["self.source is TransactionInputSource::Coinbase", "self.source#TransactionInputSource::Coinbase is Some"]
    cb0 = ["self.source is TransactionInputSource::Coinbase", "!(self.source#TransactionInputSource::Coinbase is Some)"]
    fo = ["!(self.source is TransactionInputSource::Coinbase)", "self.source is TransactionInputSource::FromOutput"]
    z = "0 ||| @repeat(0, 32) ||| H256Le{content: @repeat(0, 32)} ||| bitcoin::H256Le::zero()"
    v.emits([z, X4, "CompactUint{value: len(self.script) + len(HB)}", "raw HB", "raw self.script", "self.sequence"], when=cbh, why="the height is part of the coinbase script")
    v.emits([z, X4, "CompactUint{value: len(self.script)}", "raw self.script", "self.sequence"], when=cb0)
    v.emits(["self.source#TransactionInputSource::FromOutput", "self.source#TransactionInputSource::FromOutput1", "CompactUint{value: len(self.script)}", "raw self.script", "self.sequence"], when=fo)


@prop("B10")
def txid(c):
    for fn, root in (("tx_id", "@arr()"), ("size_no_witness", "@arr()"), ("tx_id_bounded", "BoundedWriter{bytes: @arr(), length_bound: n}")):
        v = c.fn("bitcoin::Transaction::" + fn, args="self,n" if fn == "tx_id_bounded" else "self", opaque=SER)
        v.emits(LEGACY, why="the id does not cover witnesses")
        pat = {"tx_id": "bitcoin::utils::sha256d_le(?x)", "size_no_witness": "@len(?x)", "tx_id_bounded": "bitcoin::utils::sha256d_le(?x.bytes)"}[fn]
        v.chain(pat, root, why="the id is the double hash of exactly the bytes written")
    w = c.fn("bitcoin::BoundedWriter::write", args="self,b")
    w.requires("@noovf(self.length_bound - @cast('u32', len(b)))", alt=["len(b) <= self.length_bound", "@cast('u32', len(b)) <= self.length_bound"], why="not more than the bound is ever buffered")
    w.ends("self", "length_bound", ["self.length_bound - @cast('u32', len(b))", "self.length_bound - len(b)"])
    w.ends("self", "bytes", "@mut('extend', self.bytes, b)")
    n = c.fn("bitcoin::BoundedWriter::new", args="n")
    n.returns("BoundedWriter{bytes: @arr(), length_bound: n}")
    r = c.fn("bitcoin::BoundedWriter::result", args="self")
    r.returns("self.bytes")
    f = c.fn("bitcoin::Vec::write", args="self,b")
    f.ends("self", None, ["@mut('extend', self, b)", "fold(b, self, @push(@acc(0, _), elem(b)))"])
    d = c.fn("bitcoin::utils::sha256d", args="b")
    d.returns(["Sha256::digest(Sha256::digest(b))"], why="double SHA-256")
    d = c.fn("bitcoin::utils::sha256d_le", args="b", opaque=("bitcoin::utils::sha256d",))
    d.returns("H256Le{content: bitcoin::utils::sha256d(b)}")


@prop("B15")
def h256le(c):
    from_le = c.fn("bitcoin::H256Le::from_bytes_le", args="b")
    from_le.returns("H256Le{content: b}")
    from_be = c.fn("bitcoin::H256Le::from_bytes_be", args="b")
    from_be.returns("H256Le{content: @rev(b)}")
    t = c.fn("bitcoin::H256Le::to_bytes_be", args="self")
    t.returns("@rev(self.content)")
    t = c.fn("bitcoin::H256Le::to_bytes_le", args="self")
    t.returns("self.content")
    t = c.fn("bitcoin::H256Le::as_u256", args="self")
    t.returns("U256::from_little_endian(self.content)", why="the proof-of-work value is the little-endian number")
    t = c.fn("bitcoin::H256Le::is_zero", args="self")
    t.returns(["self.content == @repeat(0, 32)", "forall(self.content, elem(self.content) == 0)", "forall(self.content, elem(self.content) <= 0)"])
    t = c.fn("bitcoin::H256Le::zero", args="")
    t.returns("H256Le{content: @repeat(0, 32)}")
    t = c.fn("bitcoin::H256Le::from_hex_le", args="s")
    t.returns("H256Le{content: hex::decode(s)}")
    t = c.fn("bitcoin::H256Le::from_hex_be", args="s")
    t.returns("H256Le{content: @rev(hex::decode(s))}")
    t = c.fn("bitcoin::H256Le::to_hex_le", args="self")
    t.returns("hex::encode(self.content)")
    t = c.fn("bitcoin::H256Le::to_hex_be", args="self")
    t.returns("hex::encode(@rev(self.content))")
    t = c.fn("bitcoin::H256::eq", args="self,o", sel="=PartialEq<H256Le>")
    t.returns(["o == H256Le{content: @rev(self)}", "self == @rev(o.content)", "self.0 == @rev(o.content)"])
    t = c.fn("bitcoin::H256Le::eq", args="self,o", sel="=PartialEq<H256>")
    t.returns(["self == o", "o == H256Le{content: @rev(self)}", "self == H256Le{content: @rev(o)}", "o == @rev(self.content)"])
    t = c.fn("bitcoin::H256Le::sha256d", args="self", opaque=("bitcoin::utils::sha256d",))
    t.returns("H256Le{content: bitcoin::utils::sha256d(self.content)}")
    f = c.fn("bitcoin::H256Le::from", args="x")
    f.let("B", "x.to_le_bytes()")
    f.returns(["@fold(B, _, @iupd(@acc(0, _), idx(B), elem(B)))", "@iupd(_, range(0, len(B)), B)"], path="content", why="integers are little endian")
    for i, pre in (("Display", "0x{}"), ("LowerHex", "{}")):
        f = c.fn("bitcoin::H256Le::fmt", args="self,f", sel=i)
        f.returns("fmt(f, '%s', hex::encode(@rev(self.content)))" % pre, why="displayed big endian")
    t = c.fn("bitcoin::utils::sha256d_be", args="b", opaque=("bitcoin::utils::sha256d",))
    t.returns(["H256::from_slice(bitcoin::utils::sha256d(b))", "H256(bitcoin::utils::sha256d(b))"])
    t = c.fn("bitcoin::utils::hash256_merkle_step", args="a,b", opaque=("bitcoin::utils::sha256d",))
    t.returns("H256Le{content: bitcoin::utils::sha256d(@mut('extend', a, b))}", why="the left sibling is hashed first")


@prop("B11")
def retarget(c):
    v = c.fn("bitcoin::pow::calculate_next_work_required", args="t,a,b", opaque=("get_compact",))
    v.let("N", "(t * clamp(@satsub(b, a), 302400, 4838400)) / 1209600").let("G", "bitcoin::U256::get_compact(min(N, U256(@arr(18446744073709551615, 18446744073709551615, 18446744073709551615, 4294967295))))")
    v.returns("G#Some", why="the new target is the old one scaled by the clamped timespan over two weeks, capped at the proof-of-work limit")
    v.requires("G is Some")
    v.rejects_only("!(G is Some)")


@prop("B19")
def sizes(c):
    v = c.fn("bitcoin::utils::var_int_size", args="n")
    for lo, hi, r in ((0, 252, 1), (253, 65535, 3), (65536, 4294967295, 5)):
        v.returns(str(r), when=["n <= %d" % hi] + (["%d <= n" % lo] if lo else []))
    s = c.fn("bitcoin::utils::script_length_size", args="n")
    for lo, hi, r in ((0, 75, 1), (76, 255, 2), (256, 65535, 3)):
        s.returns(str(r), when=["n <= %d" % hi] + (["%d <= n" % lo] if lo else []))
    s.returns("5", when="65536 <= n")
    w = c.fn("bitcoin::utils::transaction_weight", args="i,o", opaque=("script_length_size", "var_int_size", "transaction_header_weight"))
    w.let("outs", "34 * o.num_p2pkh + 32 * o.num_p2sh + 31 * o.num_p2wpkh + 34 * o.num_op_return")
    w.let("H", "bitcoin::utils::transaction_header_weight(i.script_type, i.count, o.num_p2pkh + o.num_p2sh + o.num_p2wpkh + o.num_op_return)")
    w.returns("592 * i.count + 4 * (outs) + H", when="i.script_type is InputType::P2PKH")
    w.let("R", "34 * i.script_type#InputType::P2SH@num_pubkeys + 3").let("S", "73 * i.script_type#InputType::P2SH@num_signatures + R + 1 + bitcoin::utils::script_length_size(R)")
    w.returns("4 * i.count * (S + 40 + bitcoin::utils::var_int_size(S)) + 4 * (outs) + H", when=["i.script_type is InputType::P2SH", "!(i.script_type is InputType::P2PKH)", "!(i.script_type is InputType::P2WPKHv0)"])
    w.returns("271 * i.count + 4 * (outs) + H", when=["!(i.script_type is InputType::P2PKH)", "i.script_type is InputType::P2WPKHv0"])
    t = c.fn("bitcoin::utils::transaction_header_weight", args="t,i,o", opaque=("var_int_size",))
    t.let("base", "4 * (8 + bitcoin::utils::var_int_size(i) + bitcoin::utils::var_int_size(o))")
    t.returns("base", when="t is InputType::P2PKH")
    t.returns("base", when="t is InputType::P2SH")
    t.returns("base + 2 + bitcoin::utils::var_int_size(i)", when=["t is InputType::P2WPKHv0", "!(t is InputType::P2PKH)", "!(t is InputType::P2SH)"])
    z = c.fn("bitcoin::utils::virtual_transaction_size", args="i,o", opaque=("transaction_weight",))
    z.returns(["(bitcoin::utils::transaction_weight(i, o) + 3) / 4", "bitcoin::utils::transaction_weight(i, o).div_ceil(4)",
               "bitcoin::utils::transaction_weight(i, o) / 4 + (if 0 == bitcoin::utils::transaction_weight(i, o) % 4 {0} else {1})"], why="virtual sizes round up")
