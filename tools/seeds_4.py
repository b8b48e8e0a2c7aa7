import os, runpy
BT = "crates/bitcoin/src/"
PR = "primitives/src/lib.rs"
COM = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds_1.py"))["COM"]
KEY = "02" "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"
SEEDS = [
 dict(id="b20-flag-bytes", property="B20", needs="a proof whose number of flags is one more than a multiple of eight", breaks="such a proof cannot be written: its last flag has no byte",
  edits=[(BT + "formatter.rs", "            .checked_add(7)\n            .ok_or(Error::ArithmeticOverflow)?\n            .checked_div(8)\n            .ok_or(Error::ArithmeticUnderflow)?;\n        let mut bytes",
          "            .checked_add(6)\n            .ok_or(Error::ArithmeticOverflow)?\n            .checked_div(8)\n            .ok_or(Error::ArithmeticUnderflow)?;\n        let mut bytes")],
  demo=COM + '''fn main() { for n in 1..30usize { let p = MerkleProof { block_header: block(1).header, transactions_count: 3, hashes: vec![], flag_bits: vec![true; n] }; let mut w: Vec<u8> = vec![]; p.try_format(&mut w).unwrap(); assert_eq!(w.len(), 80 + 4 + 1 + 1 + (n + 7) / 8); } }'''),
 dict(id="b07-count-cast", property="B07", needs="a vector of at least 65536 elements", breaks="the count is written modulo 65536, so the elements are misread",
  edits=[(BT + "formatter.rs", "            value: self.len() as u64,", "            value: self.len() as u16 as u64,")],
  demo=COM + '''fn main() { for (v, n) in [(0usize, 1usize), (252, 1), (253, 3), (254, 3), (65534, 3), (65535, 3), (65536, 5), (100000, 5)] { let mut w: Vec<u8> = vec![]; vec![0u8; v].try_format(&mut w).unwrap(); assert_eq!(w.len() - v, n, "{}", v); } }'''),
 dict(id="b01-count-bound", property="B01", needs="a block of exactly 16666 transactions", breaks="a valid proof for the largest plausible block is rejected",
  edits=[(BT + "merkle.rs", "self.merkle_proof.transactions_count > MAX_TRANSACTIONS_IN_PROOF", "self.merkle_proof.transactions_count >= MAX_TRANSACTIONS_IN_PROOF")],
  demo=COM + '''fn main() { for (n, ok) in [(16665u32, true), (16666, true), (16667, false)] { let b = block(1); let t = b.transactions[0].clone(); let mut hashes = vec![t.tx_id()]; for i in 0..15u8 { hashes.push(H256Le::from_bytes_le(&[i + 1; 32])); } let mut flag_bits = vec![true; 16]; flag_bits.extend(vec![false; 16]); let p = PartialTransactionProof { tx_encoded_len: t.size_no_witness() as u32, transaction: t, merkle_proof: MerkleProof { block_header: b.header, transactions_count: n, hashes, flag_bits } }; assert_eq!(p.verify_proof().is_ok(), ok, "{}", n); } }'''),
 dict(id="b01-encoded-slack", property="B01", needs="a declared transaction length one byte below the real one", breaks="the transaction id is computed beyond the length that was declared and paid for",
  edits=[(BT + "merkle.rs", "self.transaction.tx_id_bounded(self.tx_encoded_len)?", "self.transaction.tx_id_bounded(self.tx_encoded_len.saturating_add(4))?")],
  demo=COM + '''fn main() { let b = block(5); for i in 0..5 { let p = proof(&b, i); assert!(p.clone().verify_proof().is_ok()); for d in 1..6 { let mut q = p.clone(); q.tx_encoded_len -= d; assert!(q.verify_proof().is_err(), "{}", d); } } }'''),
]
