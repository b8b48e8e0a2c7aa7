from iba import terms as tm
from iba.rules import prop

FROM = "bitcoin::Address::from_script_pub_key"


@prop("B13")
def address_of_script(c):
    v = c.fn(FROM, args="s")
    v.let("b", "s.bytes")
    tpl = {
        "P2PKH": (["len(b) == 25", "b[0] == 118", "b[1] == 169", "b[2] == 20", "b[23] == 136", "b[24] == 172"], "H160::from_slice(b[range(3, %s)])", ("len(b) - 2", "23", "2 + len(b) - 4")),
        "P2SH": (["len(b) == 23", "b[0] == 169", "b[1] == 20", "b[22] == 135"], "H160::from_slice(b[range(2, %s)])", ("len(b) - 1", "22")),
        "P2WPKHv0": (["len(b) == 22", "b[0] == 0", "b[1] == 20"], "H160::from_slice(b[range(2, %s)])", ("@inf()", "22", "len(b)")),
        "P2WSHv0": (["len(b) == 34", "b[0] == 0", "b[1] == 32"], "H256::from_slice(b[range(2, %s)])", ("@inf()", "34", "len(b)")),
    }
    for k, (cs, t, ends) in tpl.items():
        v.returns(["Address::%s(%s)" % (k, t % e) for e in ends], when=cs, why="standard %s template" % k)
        v.accepts(cs, why="standard %s template" % k)
    v.covers(["Address::" + k for k in tpl], [cs for cs, _, _ in tpl.values()], why="only standard scripts yield an address")
    for name, k in (("is_p2pkh", "P2PKH"), ("is_p2sh", "P2SH"), ("is_p2wpkh_v0", "P2WPKHv0"), ("is_p2wsh_v0", "P2WSHv0")):
        w = c.fn("bitcoin::Script::" + name, args="self")
        w.let("b", "self.bytes")
        w.returns(" && ".join(tpl[k][0]), why="standard %s template" % k)


@prop("B13")
def script_of_address(c):
    v = c.fn("bitcoin::Address::to_script_pub_key", args="self")
    for k, pre, post in (("P2PKH", ["118", "169", "20"], ["136", "172"]), ("P2SH", ["169", "20"], ["135"]), ("P2WPKHv0", ["0", "20"], []), ("P2WSHv0", ["0", "32"], [])):
        ws = ["self is Address::" + k] + ["!(self is Address::%s)" % x for x in ("P2PKH", "P2SH", "P2WPKHv0", "P2WSHv0") if x != k]
        pre = [x if x not in ("20", "32") else "%s ||| @cast('u8', len(self#Address::%s)) ||| len(self#Address::%s)" % (x, k, k) for x in pre]
        v.builds(pre + ["self#Address::" + k] + post, when=ws, why="standard %s template" % k)
    a = c.fn("bitcoin::Script::append", args="self,x")
    a.emits(["x"])
    for fn, t in (("H160", "self"), ("H256", "self")):
        f = c.fn("bitcoin::%s::try_format" % fn, args="self,w")
        f.emits([t])
    f = c.fn("bitcoin::OpCode::try_format", args="self,w")
    f.emits(["@cast('u8', self)"])
    p = c.fn("bitcoin::TransactionOutput::payment", args="v,a", opaque=("to_script_pub_key",))
    p.returns("TransactionOutput{value: v, script: bitcoin::Address::to_script_pub_key(a)}")
    e = c.fn("bitcoin::TransactionOutput::extract_address", args="self", opaque=("from_script_pub_key",))
    e.returns(FROM + "(self.script)")
    e.requires(FROM + "(self.script) is Ok")
    z = c.fn("bitcoin::Address::is_zero", args="self")
    for k in ("P2PKH", "P2SH", "P2WPKHv0", "P2WSHv0"):
        z.returns("self#Address::%s == 0" % k, when=["self is Address::" + k] + ["!(self is Address::%s)" % x for x in ("P2PKH", "P2SH", "P2WPKHv0", "P2WSHv0") if x != k])
    x = c.fn("bitcoin::Address::try_from", args="p", opaque=("from_script_pub_key",))
    x.returns(FROM + "(p.script_pubkey().to_bytes())")
    y = c.fn("bitcoin::Payload::try_from", args="a", opaque=("to_script_pub_key",))
    y.returns("_")


@prop("B14")
def op_return(c):
    v = c.fn("bitcoin::Script::extract_op_return_data", args="s")
    v.let("b", "s.bytes")
    v.requires("b[0] == 106", why="OP_RETURN")
    v.requires("2 <= len(b)")
    v.requires("len(b) <= 83", why="standardness limit of OP_RETURN outputs")
    v.requires("len(b) == b[1] + 2", why="the pushed length is the length of the data")
    v.returns("b[range(2, @inf())]")
    v.rejects_only(["len(b) <= 1", "b[0] != 106", "84 <= len(b)", "len(b) != b[1] + 2"])
    o = c.fn("bitcoin::Script::op_return", args="d")
    o.builds(["106", "@cast('u8', len(d))", "d"])
    t = c.fn("bitcoin::TransactionOutput::op_return", args="v,d", opaque=("bitcoin::Script::op_return",))
    t.returns("TransactionOutput{value: v, script: bitcoin::Script::op_return(d)}")


@prop("B16")
def coinbase(c):
    v = c.fn("bitcoin::Transaction::is_coinbase", args="self")
    v.returns(["len(self.inputs) == 1 && len(self.inputs) != 0 && self.inputs[0].source is TransactionInputSource::Coinbase",
               "len(self.inputs) == 1 && self.inputs[0].source is TransactionInputSource::Coinbase"], why="exactly one input, without previous output")
    g = c.fn("bitcoin::types::generate_coinbase_transaction", args="a,r,h,s,w", opaque=("payment", "op_return"))
    g.let("I", "TransactionInput{source: TransactionInputSource::Coinbase(Some(h)), script: (if s is Some {s#Some} else {@arr()}), sequence: 4294967295, witness: @arr(@repeat(0, 32))}")
    g.returns("@arr(I)", path="inputs", why="one input carrying the height")
    g.returns("@arr(bitcoin::TransactionOutput::payment(r, a))", path="outputs", when="!(w is Some)")
    g.returns("@arr(bitcoin::TransactionOutput::payment(r, a), bitcoin::TransactionOutput::op_return(0, w#Some))", path="outputs", when="w is Some")
    h = c.fn("bitcoin::Script::height", args="h")
    h.let("R", "@rev(range(1, 4))")
    cut = next((m for m in ("@mut('remove', @acc(0, _), elem(range(1, 4)))", "@mut('truncate', @acc(0, _), elem(range(1, 4)))", "@mut('pop', @acc(0, _))")
                if h.bind("_cut", "@fold(R, _, %s)" % m.replace("elem(range(1, 4))", "_"), opt=True)), None)
    loop = None if cut else next((w for w in ("2 <= len(@acc(0, _)) && 0 != len(@acc(0, _)) && 0 == @acc(0, _)[len(@acc(0, _)) - 1]", "2 <= len(@acc(0, _)) && 0 == @acc(0, _)[len(@acc(0, _)) - 1]")
                                  if h.bind("_cut", "@fold(@whileit(%s, h.to_le_bytes()), h.to_le_bytes(), @mut('pop', @acc(0, _)))" % w, opt=True)), None)
    B = "h.to_le_bytes()"
    size = not cut and not loop and h.bind("_cut", "%s[range(0, @fold(@whileit(2 <= @acc(0, _) && 0 == %s[@acc(0, _) - 1], 4), 4, @acc(0, _) - 1))]" % (B, B), opt=True)
    if size:
        h.let("N", "@fold(@whileit(2 <= @acc(0, _) && 0 == %s[@acc(0, _) - 1], 4), 4, @acc(0, _) - 1)" % B)
        h.builds([" ||| ".join("(if %s {push(%s[@range(0, N)], 0)} else {%s[@range(0, N)]})" % (t % (B + "[N - 1]"), B, B) for t in ("%s & 128 != 0", "128 <= %s", "%s / 128 == 1"))],
                 why="minimal little-endian push: zero bytes at the top are dropped, one is added where the sign bit is set")
    elif h.builds(["?x"], why="one push holding the height") and (cut or loop):
        if cut:
            h.let("C", "(if exists(R, @acc(0, _)[elem(range(1, 4))] != 0) {@acc(0, _)} else {@fold(R, h.to_le_bytes(), %s)})" % cut)
        else:
            h.let("C", "@fold(@whileit(%s, h.to_le_bytes()), h.to_le_bytes(), @mut('pop', @acc(0, _)))" % loop)
        top = ["C[len(C) - 1] & 128 != 0", "128 <= C[len(C) - 1]", "C[len(C) - 1] / 128 == 1"]
        h.builds([" ||| ".join("(if %s(%s) {push(C, 0)} else {C})" % (g, t) for g in ("(0 != len(C)) && ", "") for t in top)],
                 why="minimal little-endian push: zero bytes at the top are dropped, one is added where the sign bit is set")
    elif h.s.ok and not tm.contains(tm.field(h.s.ok[1], "bytes"), lambda t: t.op in ("fold", "mut", "whileit", "range", "lam", "filter", "takewhile", "rev") or
                                    t.op in ("m", "call") and t.args[0] not in ("to_le_bytes", "try_format", "bitcoin::Script::append")):
        c.bad("value", h.fid, "minimal push of the height", "%s (%s) pushes all four bytes of the height: zero bytes at the top are not dropped" % (h.fid, h.where()))
    else:
        c.undecided("value", h.fid, "minimal push of the height", "the trimming loop has a shape the rule does not interpret")


@prop("B17")
def keys(c):
    k = c.fn("bitcoin::PublicKey::new_secret_key", args="self,id")
    k.returns("Sha256::digest(self.0, id)", why="sha256(public key || id)")
    d = c.fn("bitcoin::PublicKey::new_deposit_public_key", args="self,id", opaque=("new_secret_key", "new_deposit_public_key_with_secret"))
    d.returns("bitcoin::PublicKey::new_deposit_public_key_with_secret(self, bitcoin::PublicKey::new_secret_key(self, id))")
    m = c.fn("bitcoin::PublicKey::new_deposit_public_key_with_secret", args="self,s")
    m.returns(["@mut('mul_assign', Secp256k1PublicKey::from_slice(self.0), _, s).serialize()"], path="0", why="D = V * c")
    m.requires("Secp256k1PublicKey::from_slice(self.0) is Ok")
    r = c.fn("bitcoin::PublicKey::to_redeem_script", args="self")
    r.builds(["self.0", "172"], path="", why="key, OP_CHECKSIG")
    s = c.fn("bitcoin::PublicKey::to_p2pkh_script_sig", args="self,x")
    s.builds(["x", "self.0"], path="bytes")
    s = c.fn("bitcoin::PublicKey::to_p2sh_script_sig", args="self,x", opaque=("to_redeem_script",))
    s.builds(["0", "x", "bitcoin::PublicKey::to_redeem_script(self)"], path="bytes")
    x = c.fn("bitcoin::PublicKey::to_hash", args="self")
    x.returns("Hash160::hash(self.0)")
