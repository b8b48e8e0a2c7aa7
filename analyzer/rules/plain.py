"""Values that are compared and copied field by field: the derived comparison, or one written out that does the same.

Every other rule reads `==` and `.clone()` on these types structurally, so this is what makes that reading right."""
from iba.rules import prop

B, P = "bitcoin", "interbtc_primitives"
TYPES = {
    "B01": [(B, "H256Le")],
    "B05": [(B, "BlockHeader")],
    "B09": [(B, t) for t in ("Transaction", "TransactionInput", "TransactionOutput", "TransactionInputSource", "LockTime")],
    "B13": [(B, "Address"), (B, "Script")],
    "B15": [(B, "H256Le")],
    "B20": [(B, t) for t in ("MerkleProof", "PartialTransactionProof", "FullTransactionProof", "Block")],
    "P01": [(P, "TokenSymbol")],
    "P02": [(P, "CurrencyId"), (P, "LpToken")],
    "P04": [(P, "VaultId"), (P, "VaultCurrencyPair")],
}


def plain(c, crate, ty):
    fid = "%s::%s" % (crate, ty)
    fields = c.ix.structs.get((crate, ty))
    for f in [f for n in ("eq", "ne", "clone") for f in c.ix.by_id.get(fid + "::" + n, ()) if f.body is not None and f.trait]:
        tr = f.trait.replace(" ", "")
        if tr not in ("PartialEq", "Clone", "PartialEq<Self>", "PartialEq<%s>" % f.self_full.replace(" ", "")):
            continue
        v = c.fn(fid + "::" + f.name, args="self,o" if f.name != "clone" else "self", sel="=" + f.trait)
        if f.name == "clone":
            want = ["self"]
            if fields and fields[0][0] and not str(fields[0][0]).isdigit():
                want.append("%s{%s}" % (ty, ", ".join("%s: self.%s" % (n, n) for n, _ in fields)))
        else:
            want = ["self == o"]
            if fields:
                want.append(" && ".join("self.%s == o.%s" % (n or i, n or i) for i, (n, _) in enumerate(fields)))
            if f.name == "ne":
                want = ["!(%s)" % w for w in want]
        if fields is None:
            # a comparison of an enum written out: nothing is decided about it
            c.undecided("value", fid + "::" + f.name, "compares and copies every variant", "written out by hand")
        else:
            v.returns(want, why="values of %s are compared and copied field by field" % ty)
    c.ok("value", fid, "comparison and copies are derived, or checked where written out")


def rule(pid):
    def run(c):
        for crate, ty in TYPES[pid]:
            plain(c, crate, ty)
    run.__name__ = "plain_values"
    prop(pid)(run)


for _pid in TYPES:
    rule(_pid)
