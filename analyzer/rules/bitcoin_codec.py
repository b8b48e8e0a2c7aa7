from iba.rules import prop

PARSE = ("bitcoin::BytesParser::parse", "bitcoin::BytesParser::parse_with")
HASH = ("sha256d_le", "sha256d")
WIRE = ["self.version", "self.hash_prev_block", "self.merkle_root", "self.timestamp", "self.target ||| bitcoin::U256::get_compact(self.target)#Some", "self.nonce"]


@prop("B04")
def header_parse(c):
    v = c.fn("bitcoin::parser::parse_block_header", args="b", opaque=PARSE + HASH)
    ok = v.parses("BytesParser{position: 0, raw_bytes: b}", ["ver", "prev", "root", "time", "bits", "nonce"], why="wire order of a block header")
    if ok:
        v.returns("ver", path="version")
        v.returns("prev", path="hash_prev_block")
        v.returns("root", path="merkle_root")
        v.returns("time", path="timestamp")
        v.returns("bits", path="target")
        v.returns("nonce", path="nonce")
        for x in ("ver", "prev", "root", "time", "bits", "nonce"):
            v.requires(x + " is Ok")
    v.returns("bitcoin::utils::sha256d_le(b)", path="hash", why="the hash covers exactly the parsed bytes")
    p = c.fn("bitcoin::BlockHeader::parse", args="b,pos", opaque=PARSE + HASH + ("parse_block_header",))
    p.let("S", "b[range(pos, pos + 80)]")
    p.returns("(bitcoin::parser::parse_block_header(S), 80)")
    p.requires("pos + 80 <= len(b)")
    p.requires("bitcoin::parser::parse_block_header(S) is Ok")
    f = c.fn("bitcoin::BlockHeader::from_bytes", args="b", opaque=PARSE + HASH + ("parse_block_header",))
    f.requires("len(b) == 80", why="a header is exactly 80 bytes")
    f.rejects_only(["len(b) != 80", "!(bitcoin::parser::parse_block_header(b) is Ok)"])
    f.returns("bitcoin::parser::parse_block_header(b)", why="the very bytes given are parsed")
    h = c.fn("bitcoin::BlockHeader::from_hex", args="s", opaque=PARSE + HASH + ("parse_block_header", "bitcoin::BlockHeader::from_bytes"))
    h.returns("bitcoin::BlockHeader::from_bytes(hex::decode(s))")
    e = c.fn("bitcoin::BlockHeader::ensure_version", args="self")
    e.requires("4 <= self.version", why="BIP 65: only version 4 and later")
    e.rejects_only("self.version < 4")


@prop("B05")
def header_format(c):
    f = c.fn("bitcoin::BlockHeader::try_format", args="self,w")
    f.emits(WIRE, why="wire order of a block header")
    h = c.fn("bitcoin::BlockHeader::hash", args="self", opaque=HASH)
    h.emits(WIRE)
    h.returns("bitcoin::utils::sha256d_le(?x)")
    u = c.fn("bitcoin::BlockHeader::update_hash", args="self", opaque=HASH + ("bitcoin::BlockHeader::hash",))
    u.ends("self", "hash", "bitcoin::BlockHeader::hash(self)", why="the cached hash is the recomputed one")
    u.returns("bitcoin::BlockHeader::hash(self)")
    for k in ("version", "hash_prev_block", "merkle_root", "timestamp", "target", "nonce"):
        u.ends("self", k, "self." + k)


@prop("B06")
def compact_target(c):
    v = c.fn("bitcoin::U256::set_compact", args="c")
    v.let("S", "c / 16777216").let("W", "c % 8388608").let("sh", "W >> (8 * (3 - S))").let("neg", "c & 8388608 != 0").let("V", "W << (8 * (S - 3))")
    why = "compact targets decode as in Bitcoin's arith_uint256"
    v.returns("Some(sh)", when=["S <= 3", "!neg"], why=why)
    v.returns("Some(sh)", when=["S <= 3", "sh == 0"], why=why)
    v.returns("None", when=["S <= 3", "sh != 0", "neg"], why="negative targets are rejected")
    v.returns("Some(V)", when=["4 <= S", "W == 0"], why=why)
    v.returns("None", when=["4 <= S", "W != 0", "neg"], why="negative targets are rejected")
    v.returns("None", when=["35 <= S", "W != 0"], why="overflowing targets are rejected")
    v.returns("None", when=["S == 34", "256 <= W"], why="overflowing targets are rejected")
    v.returns("None", when=["S == 33", "65536 <= W"], why="overflowing targets are rejected")
    v.returns("Some(V)", when=["4 <= S", "S <= 32", "!neg"], why=why)
    v.returns("Some(V)", when=["S == 33", "W <= 65535", "!neg"], why=why)
    v.returns("Some(V)", when=["S == 34", "W <= 255", "!neg"], why=why)
    g = c.fn("bitcoin::U256::get_compact", args="x")
    g.let("z", "(x.bits() + 7) / 8").let("lo", "@cast('u32', x << (8 * (3 - z)))").let("hi", "x >> (8 * (z - 3))")
    for m, cs in (("lo", ["z <= 3"]), ("hi", ["4 <= z"])):
        g.let("m", m).let("m8", "m / 256")
        g.returns("Some(m | @cast('u32', z << 24)) ||| Some(m | @cast('u32', z * 16777216))".split(" ||| "), when=cs + ["m & 8388608 == 0", "m & @bnot(8388607) == 0", "z <= 255"],
                  why="the encoding carries the mantissa and the size")
        g.returns("Some(m8 | @cast('u32', (z + 1) << 24)) ||| Some(m8 | @cast('u32', (z + 1) * 16777216))".split(" ||| "),
                  when=cs + ["m & 8388608 != 0", "m8 & @bnot(8388607) == 0", "z <= 254"], why="a mantissa with the sign bit set is shifted down")
        g.returns("None", when=cs + ["m & 8388608 == 0", "m & @bnot(8388607) != 0"])
        g.returns("None", when=cs + ["m & 8388608 == 0", "256 <= z"])
    p = c.fn("bitcoin::U256::parse", args="b,pos", opaque=("set_compact",))
    p.let("C", "bitcoin::U256::set_compact(u32::from_le_bytes(b[range(pos, pos + 4)]))")
    p.requires("C is Some", why="invalid compact encodings are rejected")
    p.returns("(C#Some, 4)")
    p.requires("pos + 4 <= len(b)")
    f = c.fn("bitcoin::U256::try_format", args="x,w", opaque=("get_compact",))
    f.emits(["bitcoin::U256::get_compact(x)#Some"])
    f.requires("bitcoin::U256::get_compact(x) is Some")


@prop("B07")
def compact_uint(c):
    p = c.fn("bitcoin::parser::parse_compact_uint", args="b")
    p.requires("len(b) != 0")
    for tag, n, ty in ((253, 2, "u16"), (254, 4, "u32"), (255, 8, "u64")):
        p.returns("(%s::from_le_bytes(b[range(1, %d)]), %d)" % (ty, n + 1, n + 1), when="b[0] == %d" % tag, why="tag %d announces %d little-endian bytes" % (tag, n))
        p.requires("%d <= len(b)" % (n + 1), when="b[0] == %d" % tag)
    p.returns("(b[0], 1)", when=["b[0] <= 252"])
    q = c.fn("bitcoin::CompactUint::parse", args="b,pos", opaque=("parse_compact_uint",))
    q.let("P", "bitcoin::parser::parse_compact_uint(b[range(pos, @inf())])")
    q.returns("(CompactUint{value: P.0}, P.1)")
    q.requires("P is Ok")
    f = c.fn("bitcoin::CompactUint::try_format", args="self,w")
    f.let("v", "self.value")
    f.emits(["@cast('u8', v)"], when="v <= 252")
    f.emits(["253", "@cast('u16', v)"], when=["253 <= v", "v <= 65535"], why="the shortest form is used, as Bitcoin requires")
    f.emits(["254", "@cast('u32', v)"], when=["65536 <= v", "v <= 4294967295"], why="the shortest form is used, as Bitcoin requires")
    f.emits(["255", "v"], when=["4294967296 <= v"])
    u = c.fn("bitcoin::CompactUint::from_usize", args="n")
    u.returns("n ||| @cast('u64', n)".split(" ||| "), path="value")
    l = c.fn("bitcoin::Vec::try_format", args="self,w", opaque=("bitcoin::CompactUint::try_format",))
    l.emits(["CompactUint{value: len(self)}", "each elem(self)"], why="a vector is its length followed by its elements")
