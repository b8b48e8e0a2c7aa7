from iba.rules import prop

HASHING = ("hash256_merkle_step",)
LEAF = "(0 == h || !self.flag_bits[tr.bits_used])"


@prop("B01")
def verify_proof(c):
    v = c.fn("bitcoin::PartialTransactionProof::verify_proof", args="self",
             opaque=("traverse_and_extract", "compute_height", "tx_id_bounded"))
    v.bind("tr", "bitcoin::MerkleProof::traverse_and_extract(self.merkle_proof, _, _, _)")
    v.bind("st", "@havoc(tr, _)")
    v.requires("self.merkle_proof.transactions_count != 0", why="an empty block proves nothing")
    v.requires("self.merkle_proof.transactions_count <= 16666", why="4_000_000 / (4 * 60) transactions at most")
    v.requires("len(self.merkle_proof.hashes) <= len(self.merkle_proof.flag_bits)")
    v.requires("tr is Ok")
    v.value("tr", "bitcoin::MerkleProof::traverse_and_extract(self.merkle_proof, bitcoin::MerkleTree::compute_height(self.merkle_proof.transactions_count), 0, "
            "MerkleProofTraversal{bits_used: 0, hashes_used: 0, merkle_position: None, hash_position: None})", why="the traversal starts at the root with nothing consumed")
    v.requires("st.hashes_used == len(self.merkle_proof.hashes)", why="all hashes must be consumed")
    v.requires("(st.bits_used + 7) / 8 == (len(self.merkle_proof.flag_bits) + 7) / 8", why="all flag bits but padding must be consumed")
    v.requires("st.merkle_position is Some")
    v.requires("st.hash_position is Some")
    v.rejects_only(["self.merkle_proof.transactions_count == 0", "16666 < self.merkle_proof.transactions_count", "len(self.merkle_proof.flag_bits) < len(self.merkle_proof.hashes)", "!(tr is Ok)",
                    "st.hashes_used != len(self.merkle_proof.hashes)", "(st.bits_used + 7) / 8 != (len(self.merkle_proof.flag_bits) + 7) / 8", "!(st.merkle_position is Some)",
                    "!(st.hash_position is Some)", "!(bitcoin::Transaction::tx_id_bounded(_, _) is Ok)", "self.merkle_proof.hashes[st.hash_position#Some] != bitcoin::Transaction::tx_id_bounded(_, _)",
                    "!(self.merkle_proof.hashes[st.hash_position#Some] is Some)", "len(self.merkle_proof.hashes) <= st.hash_position#Some", "!@noovf(_)"], why="a genuine proof is accepted")
    v.bind("txid", "bitcoin::Transaction::tx_id_bounded(_, _)")
    v.value("txid", "bitcoin::Transaction::tx_id_bounded(self.transaction, self.tx_encoded_len)")
    v.requires("txid is Ok")
    v.requires("self.merkle_proof.hashes[st.hash_position#Some] == txid", why="the matched leaf is the transaction's id")
    v.returns("tr", path="extracted_root")
    v.returns(["self.merkle_proof.hashes[st.hash_position#Some]", "txid"], path="transaction_hash")
    v.returns("st.merkle_position#Some", path="transaction_position")
    v.returns("self.transaction", path="transaction")
    v.returns("self.merkle_proof.transactions_count", path="tx_count")
    v.returns("self.merkle_proof.block_header.hash", path="block_hash")


@prop("B02")
def traversal(c):
    v = c.fn("bitcoin::MerkleProof::traverse_and_extract", args="self,h,pos,tr", opaque=HASHING + ("compute_width",))
    leaf, inner = "0 == h || !self.flag_bits[tr.bits_used]", ["h != 0", "self.flag_bits[tr.bits_used]"]
    v.requires("tr.bits_used < len(self.flag_bits)", why="one flag bit is consumed per visited node")
    v.requires("tr.hashes_used < len(self.hashes)", when=leaf)
    v.let("st", "tr")
    v.bind("L", "bitcoin::MerkleProof::traverse_and_extract(self, h - 1, 2 * pos, _)", "event")
    v.bind("R", "bitcoin::MerkleProof::traverse_and_extract(self, h - 1, 2 * pos + 1, _)", "event")
    v.let("nl", "bitcoin::MerkleTree::compute_width(self.transactions_count, h - 1) <= 2 * pos + 1")
    v.never("bitcoin::MerkleProof::traverse_and_extract(..)", when=leaf, why="a leaf or an unflagged node does not descend")
    v.must("L", when=inner)
    v.must("R", when=inner + ["2 * pos + 1 < bitcoin::MerkleTree::compute_width(self.transactions_count, h - 1)"])
    v.guards("R", ["2 * pos + 1 < bitcoin::MerkleTree::compute_width(self.transactions_count, h - 1)"], why="the right child exists only inside the level's width")
    v.requires("L is Ok", when=inner)
    v.requires("nl || R is Ok", when=inner)
    v.returns("self.hashes[tr.hashes_used]", when=leaf)
    v.returns("bitcoin::utils::hash256_merkle_step(L.content, L.content)", when=inner + ["nl"], why="a missing right child is replaced by the left one")
    v.returns("bitcoin::utils::hash256_merkle_step(L.content, R.content)", when=inner + ["2 * pos + 1 < bitcoin::MerkleTree::compute_width(self.transactions_count, h - 1)"])
    v.ends("tr", "bits_used", "tr.bits_used + 1", when=leaf)
    v.ends("tr", "hashes_used", "tr.hashes_used + 1", when=leaf)
    hit = ["h == 0", "self.flag_bits[tr.bits_used]"]
    v.ends("tr", "merkle_position", "Some(pos)", when=hit)
    v.ends("tr", "hash_position", "Some(tr.hashes_used)", when=hit)
    v.ends("tr", "merkle_position", "tr.merkle_position", when=["!self.flag_bits[tr.bits_used]"], why="only a flagged leaf is a match")
    v.ends("tr", "hash_position", "tr.hash_position", when=["!self.flag_bits[tr.bits_used]"])
    v.bind("TL", "bitcoin::MerkleProof::traverse_and_extract(self, h - 1, 2 * pos, ?t)", "event")
    v.ends("tr", None, "@havoc(R, _)", when=inner + ["2 * pos + 1 < bitcoin::MerkleTree::compute_width(self.transactions_count, h - 1)"])
    v.ends("tr", None, "@havoc(L, _)", when=inner + ["nl"])


@prop("B02")
@prop("B03")
def tree_shape(c):
    w = c.fn("bitcoin::MerkleTree::compute_width", args="n,h")
    w.returns(["(n + (1 << h) - 1) >> h", "(n + (1 << h) - 1) / (1 << h)", "n.div_ceil(1 << h)"])
    h = c.fn("bitcoin::MerkleTree::compute_height", args="n", opaque=("compute_width",))
    h.returns("@fold(@whileit(2 <= bitcoin::MerkleTree::compute_width(n, _), 0), 0, 1 + _)", why="the height is the first level of width one")
    s = c.fn("bitcoin::utils::hash256_merkle_step", args="a,b", opaque=("sha256d_le", "sha256d"))
    s.bind("H", "bitcoin::H256Le::sha256d_le(_)", opt=True)


@prop("B03")
def builder(c):
    r = c.fn("bitcoin::MerkleTree::compute_root", args="i,h,n,hs", opaque=HASHING + ("compute_width",))
    r.let("L", "bitcoin::MerkleTree::compute_root(2 * i, h - 1, n, hs)").let("R", "bitcoin::MerkleTree::compute_root(2 * i + 1, h - 1, n, hs)")
    inw = "2 * i + 1 < bitcoin::MerkleTree::compute_width(n, h - 1)"
    r.returns("hs[i]", when="h == 0")
    r.returns("bitcoin::utils::hash256_merkle_step(L.content, R.content)", when=["h != 0", inw])
    r.returns("bitcoin::utils::hash256_merkle_step(L.content, L.content)", when=["h != 0", "bitcoin::MerkleTree::compute_width(n, h - 1) <= 2 * i + 1"])
    v = c.fn("bitcoin::MerkleProof::traverse_and_build", args="self,h,pos,ids,m", opaque=HASHING + ("compute_width", "compute_root"))
    v.let("R", "range(pos << h, min((pos + 1) << h, self.transactions_count))").let("M", "exists(R, m[elem(R)])")
    v.let("leaf", "h == 0 || !M").let("H", "bitcoin::MerkleTree::compute_root(pos, h, self.transactions_count, ids)")
    v.must("self.flag_bits.push(M)", why="one flag per visited node, set when a match lies below it")
    v.count("self.flag_bits.push(_)", 1)
    v.must("_.push(H)", when="leaf", why="a leaf or a subtree without match contributes its hash")
    v.guards("_.push(H)", "leaf")
    v.requires("H is Ok", when="leaf")
    v.bind("L", "bitcoin::MerkleProof::traverse_and_build(_, h - 1, 2 * pos, ids, m)", "event")
    v.bind("R2", "bitcoin::MerkleProof::traverse_and_build(_, h - 1, 2 * pos + 1, ids, m)", "event")
    v.order("self.flag_bits.push(M)", ["L", "R2"], why="flags are emitted in depth-first order")
    v.must("L", when="!leaf")
    v.order("L", "R2")
    v.guards(["L", "R2"], "!leaf", minimum=2)
    v.must("R2", when=["!leaf", "2 * pos + 1 < bitcoin::MerkleTree::compute_width(_, h - 1)"]) if False else None
    v.guards("R2", "2 * pos + 1 < bitcoin::MerkleTree::compute_width(_, h - 1)")
    v.bind("W", "bitcoin::MerkleTree::compute_width(_, h - 1)")
    v.must("R2", when=["!leaf", "2 * pos + 1 < W"])
    v.requires("L is Ok", when="!leaf")
    b = c.fn("bitcoin::Block::merkle_proof", args="self,inc", opaque=HASHING + ("compute_width", "compute_root", "compute_height", "traverse_and_build", "tx_id"))
    b.bind("B", "bitcoin::MerkleProof::traverse_and_build(..)", "event")
    b.let("T", "self.transactions").let("id", "bitcoin::Transaction::tx_id(elem(T))")
    b.requires("B is Ok")
    b.bind("P", "MerkleProof{..}", "event")
    b.value("P", "MerkleProof{block_header: self.header, transactions_count: @cast('u32', len(T)), flag_bits: @arr(), hashes: @arr()}")
    b.value("B", "bitcoin::MerkleProof::traverse_and_build(P, bitcoin::MerkleTree::compute_height(@cast('u32', len(T))), 0, ?ids, ?ms)",
            why="the build starts at the root, over all transactions of the block")
    b.bind("B2", "bitcoin::MerkleProof::traverse_and_build(_, _, _, mapit(T, id), _)", "event")
    b.bind("B2", "bitcoin::MerkleProof::traverse_and_build(_, _, _, _, mapit(T, exists(inc, id == elem(inc))))", "event")
    b.returns("@havoc(B, 0)")
