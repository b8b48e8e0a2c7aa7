from iba import terms as tm
from iba.rules import prop

HF = "bitcoin::BlockHeader::"


@prop("B18")
def miner(c):
    v = c.fn("bitcoin::BlockBuilder::mine", args="self,t", opaque=(HF + "hash", "bitcoin::BlockBuilder::compute_merkle_root", "as_u256"))
    v.requires("len(self.block.transactions) != 0", why="a block has a coinbase")
    v.bind("R", "bitcoin::BlockBuilder::compute_merkle_root(_)")
    v.requires("R is Ok")
    v.returns("t", path="header.target", why="the block claims the target it was mined for")
    v.returns("R", path="header.merkle_root", why="the header commits to the block's transactions")
    v.returns("self.block.header.version", path="header.version")
    v.returns("self.block.header.timestamp", path="header.timestamp")
    v.returns("self.block.header.hash_prev_block", path="header.hash_prev_block")
    v.returns("self.block.transactions", path="transactions")
    v.requires("forall(@whileit(..), t <= bitcoin::H256Le::as_u256(bitcoin::BlockHeader::hash(_)))", why="mining goes on until the hash is below the target")
    r = c.fn("bitcoin::BlockBuilder::compute_merkle_root", args="self", opaque=("tx_id", "compute_root", "log2", "compute_height"))
    r.let("T", "self.block.transactions").let("n", "len(T)")
    r.returns(["bitcoin::MerkleTree::compute_root(0, bitcoin::utils::log2(n), @cast('u32', n), mapit(T, bitcoin::Transaction::tx_id(elem(T))))",
               "bitcoin::MerkleTree::compute_root(0, bitcoin::MerkleTree::compute_height(@cast('u32', n)), @cast('u32', n), mapit(T, bitcoin::Transaction::tx_id(elem(T))))"],
              why="the root covers the ids of all transactions in order")
    u = c.fn("bitcoin::H256Le::as_u256", args="self")
    u.returns("U256::from_little_endian(self.content)")


@prop("B18")
def logs(c):
    for fn, d in (("log2", 2), ("log256", 256)):
        v = c.fn("bitcoin::utils::" + fn, args="n")
        if v.s.ok and v.s.ok[1].op != "fold":
            c.undecided("value", v.fid, "counts the divisions", "not written as a counting loop")
            continue
        v.returns("@fold(@whileit(_, n - 1), 0, 1 + _)", why="the number of times n - 1 can be divided before nothing is left")
        v.requires("@fold(_, n - 1, _ / %d) <= 0" % d, alt=["@fold(_, n - 1, _ / %d) == 0" % d])
        v.requires("forall(@whileit(_, n - 1), 1 <= @acc(0, _))", alt=["forall(@whileit(_, n - 1), @acc(0, _) != 0)"])


@prop("B18")
def builders(c):
    B, T, I = "bitcoin::BlockBuilder::", "bitcoin::TransactionBuilder::", "bitcoin::TransactionInputBuilder::"
    b = c.fn(B + "new", args="")
    b.returns("4", path="block.header.version")
    for fn, arg, path, val in (
        (B + "with_timestamp", "x", "block.header.timestamp", "x"),
        (B + "with_previous_hash", "x", "block.header.hash_prev_block", "x"),
        (B + "with_version", "x", "block.header.version", "x"),
        (B + "add_transaction", "x", "block.transactions", ["push(self.block.transactions, x)"]),
        (T + "with_version", "x", "transaction.version", "x"),
        (T + "with_block_height", "x", "transaction.lock_at", "LockTime::BlockHeight(x)"),
        (T + "with_locktime", "x", "transaction.lock_at", "LockTime::Time(x)"),
        (T + "add_input", "x", "transaction.inputs", "push(self.transaction.inputs, x)"),
        (T + "add_output", "x", "transaction.outputs", "push(self.transaction.outputs, x)"),
        (I + "with_source", "x", "transaction_input.source", "x"),
        (I + "with_script", "x", "transaction_input.script", "x"),
        (I + "with_sequence", "x", "transaction_input.sequence", "x"),
        (I + "add_witness", "x", "transaction_input.witness", "push(self.transaction_input.witness, x)"),
        (I + "with_p2wpkh", "k,s", "transaction_input.witness", ["@arr(s, k.0)", "@arr(s, bitcoin::PublicKey::as_bytes(k))"]),
        (I + "with_p2wsh", "k,s", "transaction_input.witness", "@arr(s, bitcoin::PublicKey::to_redeem_script(k))"),
        (I + "with_p2pkh", "k,s", "transaction_input.script", ["bitcoin::PublicKey::to_p2pkh_script_sig(k, s).bytes", "bitcoin::PublicKey::to_p2pkh_script_sig(k, s)"]),
        (I + "with_p2sh", "k,s", "transaction_input.script", ["bitcoin::PublicKey::to_p2sh_script_sig(k, s).bytes", "bitcoin::PublicKey::to_p2sh_script_sig(k, s)"]),
    ):
        v = c.fn(fn, args="self," + arg, opaque=("to_redeem_script", "to_p2pkh_script_sig", "to_p2sh_script_sig"))
        v.returns(val, path=path, why="builder methods set what they name")
        v.writes_only("self", path)
    n = c.fn(B + "with_coinbase", args="self,a,r,h", opaque=("generate_coinbase_transaction",))
    n.returns("@mut('insert', self.block.transactions, 0, bitcoin::types::generate_coinbase_transaction(a, r, h, None, None))", path="block.transactions",
              why="the coinbase is the first transaction")
    for fn, path in ((T + "build", "transaction"), (I + "build", "transaction_input")):
        c.fn(fn, args="self").returns("self." + path)
    d = c.fn(T + "new", args="")
    d.returns("2", path="transaction.version")
    d.returns("@arr()", path="transaction.inputs")
    d.returns("@arr()", path="transaction.outputs")
    d.returns("LockTime::BlockHeight(0)", path="transaction.lock_at")
    c.fn("bitcoin::TransactionInputBuilder::default", args="").returns("TransactionInput{source: TransactionInputSource::FromOutput(0, 0), script: @arr(), sequence: 0, witness: @arr()}", path="transaction_input")
    c.fn("bitcoin::LockTime::default", args="").returns("LockTime::BlockHeight(0)")


def depends(x, y):
    """whether x says anything about y but its length"""
    if x is y:
        return True
    return x.op != "len" and any(depends(a, y) for a in x.args if isinstance(a, tm.T))


@prop("B20")
def proof_codec(c):
    P = "bitcoin::BytesParser::parse"
    v = c.fn("bitcoin::MerkleProof::parse", args="b", opaque=(P, P + "_with"))
    B = "BytesParser{position: 0, raw_bytes: b}"
    if v.parses(B, ["header", "count", "hv", "nf", "f * nf.value"], probe=True):      # the hashes as one length-prefixed vector
        for x in ("header is Ok", "count is Ok", "hv is Ok", "nf is Ok", "forall(fR, f is Ok)"):
            v.requires(x)
        v.returns("header", path="block_header")
        v.returns("count", path="transactions_count")
        v.returns("hv", path="hashes")
        v.returns("fold(fR, @arr(), @mut('extend', @acc(0, _), f))", path="flag_bits")
    elif v.parses(B, ["header", "count", "nh", "h * nh.value", "nf", "f * nf.value"], why="the layout of gettxoutproof"):
        for x in ("header", "count", "nh", "nf", "forall(hR, h)", "forall(fR, f)"):
            v.requires(x + " is Ok" if "(" not in x else x[:-1] + " is Ok)")
        v.returns("header", path="block_header")
        v.returns("count", path="transactions_count")
        v.returns(["mapit(hR, h)", "fold(hR, @arr(), push(@acc(0, _), h))"], path="hashes")
        v.returns("fold(fR, @arr(), @mut('extend', @acc(0, _), f))", path="flag_bits")
    f = c.fn("bitcoin::MerkleProof::try_format", args="self,w", opaque=(HF + "try_format",))
    f.emits(["self.block_header", "self.transactions_count", "framed self.hashes", "_"], why="the layout of gettxoutproof")
    f.let("FB", "self.flag_bits")
    if f.bind("pack", "fold(FB, _, _)", opt=True):
        sh = ("(%s << (idx(FB) % 8))", "(%s << @cast('u8', idx(FB) % 8))", "(%s << @cast('u32', idx(FB) % 8))")
        put = "@iupd(@acc(0, _), idx(FB) / 8, %s | @acc(0, _)[idx(FB) / 8])"
        bit = [put % s.replace("%s", x) for s in sh for x in ("@cast('u8', elem(FB))", "elem(FB)")]
        bit += ["(if (elem(FB)) {%s} else {@acc(0, _)})" % (put % s.replace("%s", "1")) for s in sh]
        f.value("pack", ["fold(FB, @repeat(0, %s), %s)" % (n, x) for x in bit for n in ("(len(FB) + 7) / 8", "@divceil(len(FB), 8)")],
                why="flag i is bit i % 8 of byte i / 8")
    elif f.emitted() and not depends(f.emitted()[-1][2], f.p("FB")):
        f.c.bad("value", f.fid, "flag bits are packed least significant first", "%s (%s) writes bytes that do not depend on the flags" % (f.fid, f.where()))
    else:
        f.c.undecided("value", f.fid, "flag bits are packed least significant first", "the packing loop has a shape the rule does not interpret")
    b = c.fn("bitcoin::Block::try_format", args="self,w", opaque=(HF + "try_format",))
    b.emits(["self.header", "framed self.transactions"])


@prop("B08")
@prop("B04")
def int_parse(c):
    for t, n in (("u8", 1), ("u16", 2), ("u32", 4), ("u64", 8), ("i8", 1), ("i16", 2), ("i32", 4), ("i64", 8)):
        v = c.fn("bitcoin::%s::parse" % t, args="b,pos")
        v.requires("pos + %d <= len(b)" % n)
        v.returns(str(n), path="1")
        v.returns("%s::from_le_bytes(b[range(pos, pos + %d)])" % (t, n), path="0", why="integers are little endian")
    o = c.fn("bitcoin::TransactionOutput::parse", args="b,pos", opaque=("parse_transaction_output",))
    o.returns("bitcoin::parser::parse_transaction_output(b[range(pos, @inf())])")
    i = c.fn("bitcoin::TransactionInput::parse_with", args="b,pos,x", opaque=("parse_transaction_input",))
    i.returns("bitcoin::parser::parse_transaction_input(b[range(pos, @inf())], x)")


@prop("B09")
@prop("B05")
def int_format(c):
    for t in ("u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"):
        v = c.fn("bitcoin::%s::try_format" % t, args="self,w")
        v.emits(["self.to_le_bytes()"], names=("write",), why="integers are little endian")
    c.fn("bitcoin::Vec::write", args="self,x").ends("self", None, ["@mut('extend', self, x)", "fold(x, self, @push(@acc(0, _), elem(x)))"])
    b = c.fn("bitcoin::bool::try_format", args="self,w")
    b.emits(["@cast('u8', self) ||| (if (self) {1} else {0})"])
    s = c.fn("bitcoin::[u8]::try_format", args="self,w")
    s.emits(["self"], names=("write",))
    t = c.fn("bitcoin::T::try_format", args="self,w")
    t.emits(["self"])
