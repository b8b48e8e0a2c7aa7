"""Twenty-second round: private items moved, turned into methods or free functions, split and merged."""
import re
BT = "crates/bitcoin/src/"
P, T, U, S, F, M = BT + "parser.rs", BT + "types.rs", BT + "utils.rs", BT + "script.rs", BT + "formatter.rs", BT + "merkle.rs"
L, C = "primitives/src/lib.rs", "contracts/btc_swap/lib.rs"


def src(f):
    return open("/repo/" + f).read()


def cut(f, a, b):
    t = src(f)
    i = t.index(a)
    return t[i:t.index(b, i)]


OUTF = cut(P, "fn parse_transaction_output(", "#[cfg(test)]\npub(crate) mod tests")
INF = cut(P, "/// Parses a transaction input\nfn", "fn parse_transaction_output(")
TRAV = cut(M, "    /// Performs a depth-first traversal of the partial merkle tree\n    /// and returns the computed merkle root\n", "    /// Performs a depth-first", ) if False else None
t = src(M)
i = t.index("    fn traverse_and_extract(")
j = t.index("\n    }\n", i) + len("\n    }\n")
TRAV = t[i:j]
METHOD = (TRAV.replace("fn traverse_and_extract(", "fn extract(").replace("        &self,\n", "        &mut self,\n        proof: &MerkleProof,\n").replace("        traversal: &mut MerkleProofTraversal,\n", "")
    .replace("self.flag", "proof.flag").replace("self.hashes", "proof.hashes").replace("self.compute", "proof.compute").replace("traversal.", "self.")
    .replace("self.traverse_and_extract(next_height, left_index, traversal)", "self.extract(proof, next_height, left_index)").replace("self.traverse_and_extract(next_height, right_index, traversal)", "self.extract(proof, next_height, right_index)"))
FREE = (TRAV.replace("fn traverse_and_extract(", "fn extract(").replace("        &self,\n", "    proof: &MerkleProof,\n")
    .replace("self.traverse_and_extract(", "extract(proof, ").replace("self.", "proof."))
REFS = {
 # the output parser as a method of the type it makes
 "mv-output": [(P, OUTF, ""), (P, "        parse_transaction_output(slice)", "        TransactionOutput::read_from(slice)"),
               (P, "/// Parses a transaction input\nfn", "impl TransactionOutput {\n    " + OUTF.strip().replace("fn parse_transaction_output(", "fn read_from(").replace("\n", "\n    ") + "\n}\n\n/// Parses a transaction input\nfn")],
 "mv-input": [(P, INF, "impl TransactionInput {\n    " + INF.strip().replace("fn parse_transaction_input(", "fn read_from(").replace("\n", "\n    ") + "\n}\n\n"), (P, "        parse_transaction_input(slice, version)", "        TransactionInput::read_from(slice, version)")],
 "mv-reduce-free": [(F, cut(F, "    fn checked_reduce(", "    pub(crate) fn result("), ""), (F, "self.checked_reduce(buf.len() as u32)?;", "charge(&mut self.length_bound, buf.len() as u32)?;"),
                    (F, "impl BoundedWriter {", '''fn charge(left: &mut u32, bytes: u32) -> Result<(), Error> {
    *left = left.checked_sub(bytes).ok_or(Error::BoundExceeded)?;
    Ok(())
}

impl BoundedWriter {''')],
 "mv-reduce-inline": [(F, cut(F, "    fn checked_reduce(", "    pub(crate) fn result("), ""), (F, "self.checked_reduce(buf.len() as u32)?;", "let bytes = buf.len() as u32;\n        if bytes > self.length_bound {\n            return Err(Error::BoundExceeded);\n        }\n        self.length_bound -= bytes;")],
 "mv-consts": [(M, cut(M, "const MAX_BLOCK_WEIGHT", "const MIN_TRANSACTION"), ""), (M, cut(M, "const MIN_TRANSACTION_WEIGHT", "\n\n"), "mod limits {\n    const BLOCK_WEIGHT: u32 = 4_000_000;\n    const SCALE: u32 = 4;\n    const SMALLEST: u32 = SCALE * 60;\n    /// most transactions a block can hold\n    pub(super) const TRANSACTIONS: u32 = BLOCK_WEIGHT / SMALLEST;\n}\nuse limits::TRANSACTIONS as MAX_TRANSACTIONS_IN_PROOF;")],
 "mv-lock": [(P, "const LOCKTIME_THRESHOLD: u32 = 500_000_000;", "const FIRST_TIMESTAMP: u32 = 500 * 1_000_000;"), (P, "< LOCKTIME_THRESHOLD", "< FIRST_TIMESTAMP")],

 "mv-trav-method": [(M, "        let root = self.merkle_proof.traverse_and_extract(\n            self.merkle_proof.compute_partial_tree_height(),\n            0,\n            &mut traversal,\n        )?;",
     "        let root = traversal.extract(&self.merkle_proof, self.merkle_proof.compute_partial_tree_height(), 0)?;"),
   (M, TRAV, ""),
   (M, "impl MerkleTree {", "impl MerkleProofTraversal {\n" + METHOD + "}\n\nimpl MerkleTree {")],
 "mv-trav-free": [(M, "        let root = self.merkle_proof.traverse_and_extract(\n            self.merkle_proof.compute_partial_tree_height(),",
     "        let root = extract(\n            &self.merkle_proof,\n            self.merkle_proof.compute_partial_tree_height(),"),
   (M, TRAV, ""),
   (M, "impl MerkleTree {", FREE + "\nimpl MerkleTree {")],
 "mv-reduce-const": [(U, cut(U, "const fn script_length_size", "const fn var_int_size"), "impl TransactionInputMetadata {\n    const fn push_size(length: u32) -> u32 {\n        if length <= 75 {\n            1\n        } else if length <= 255 {\n            2\n        } else if length <= 65535 {\n            3\n        } else {\n            5\n        }\n    }\n}\n\n"),
   (U, "script_length_size(", "TransactionInputMetadata::push_size(")] if False else [(U, "const fn var_int_size(length: u32) -> u32 {\n    if length < 253 {\n        1\n    } else if length <= 65535 {\n        3\n    } else {\n        5\n    }", "const fn var_int_size(length: u32) -> u32 {\n    match length {\n        0..=252 => 1,\n        253..=65535 => 3,\n        _ => 5,\n    }")],

 "sig-trav-swap": [(M, TRAV, TRAV.replace("        height: u32,\n        pos: u32,\n", "        pos: u32,\n        height: u32,\n").replace("(next_height, left_index,", "(left_index, next_height,").replace("(next_height, right_index,", "(right_index, next_height,")),
     (M, "            self.merkle_proof.compute_partial_tree_height(),\n            0,\n", "            0,\n            self.merkle_proof.compute_partial_tree_height(),\n")],
 "sig-trav-node": [(M, TRAV, TRAV.replace("        height: u32,\n        pos: u32,\n", "        (height, pos): (u32, u32),\n").replace("(next_height, left_index,", "((next_height, left_index),").replace("(next_height, right_index,", "((next_height, right_index),")),
     (M, "            self.merkle_proof.compute_partial_tree_height(),\n            0,\n", "            (self.merkle_proof.compute_partial_tree_height(), 0),\n")],
 "sig-input-bool": [(P, "parse_transaction_input(slice, version)", "parse_transaction_input(slice, version == 2)"), (P, "fn parse_transaction_input(raw_input: &[u8], version: i32)", "fn parse_transaction_input(raw_input: &[u8], has_height: bool)"), (P, "        let height = if version != 2 {", "        let height = if !has_height {")],
 "sig-output-parser": [(P, "        parse_transaction_output(slice)", "        parse_transaction_output(BytesParser::new(slice))"), (P, "fn parse_transaction_output(raw_output: &[u8]) -> Result<(TransactionOutput, usize), Error> {\n    let mut parser = BytesParser::new(raw_output);\n", "fn parse_transaction_output(mut parser: BytesParser) -> Result<(TransactionOutput, usize), Error> {\n")],
 "sig-coinbase": [(T, "generate_coinbase_transaction(address, reward, height, None, None));", "generate_coinbase_transaction(height, address, reward, None, None));"), (T, "    address: &Address,\n    reward: Value,\n    height: u32,\n    input_script", "    height: u32,\n    address: &Address,\n    reward: Value,\n    input_script")],
 "sig-reduce": [(F, "fn checked_reduce(&mut self, bytes: u32) -> Result<(), Error> {\n        self.length_bound\n            .checked_sub(bytes)", "fn checked_reduce(&mut self, buf: &[u8]) -> Result<(), Error> {\n        self.length_bound\n            .checked_sub(buf.len() as u32)"), (F, "self.checked_reduce(buf.len() as u32)", "self.checked_reduce(buf)")],
 "sig-weights": [(U, "const fn transaction_header_weight(input_type: InputType, input_count: u32, output_count: u32)", "const fn transaction_header_weight(input_count: u32, output_count: u32, input_type: InputType)")] + [(U, cut(U, "transaction_header_weight(input.", ")") if "transaction_header_weight(input." in src(U) else "XX", "")][:0],
}
