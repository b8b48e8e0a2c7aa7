import runpy
BT="crates/bitcoin/src/"
COM=runpy.run_path("/verif/tools/seeds_1.py")["COM"]
SEEDS=[
dict(id="b02-first-position", property="B02", needs="a proof that matches two transactions, verified for the second", breaks="the reported position belongs to another transaction than the verified one",
 edits=[(BT+"merkle.rs","traversal.merkle_position = Some(pos);","traversal.merkle_position.get_or_insert(pos);")],
 demo=COM+'''fn main() { let b = block(7); let t = b.transactions[5].clone(); let p = PartialTransactionProof { tx_encoded_len: t.size_no_witness() as u32, transaction: t.clone(), merkle_proof: b.merkle_proof(&[b.transactions[2].tx_id(), t.tx_id()]).unwrap() }; let r = p.verify_proof().unwrap(); assert_eq!((r.transaction_position, r.transaction_hash), (5, t.tx_id())); }'''),
dict(id="b12-hash-underrun", property="B12", needs="a partial tree whose flags ask for one hash more than supplied", breaks="verification panics instead of failing",
 edits=[(BT+"merkle.rs","if traversal.hashes_used >= self.hashes.len() {","if traversal.hashes_used > self.hashes.len() {")],
 demo=COM+'''fn main() { let b = block(6); let mut p = proof(&b, 2); p.merkle_proof.hashes.pop(); assert!(p.verify_proof().is_err()); }'''),
dict(id="b16-extra-inputs", property="B16", needs="a transaction with further inputs after a null outpoint", breaks="a transaction with several inputs counts as coinbase",
 edits=[(BT+"types.rs","        self.inputs.len() == 1\n            && matches!","        self.inputs.len() >= 1\n            && matches!")],
 demo=COM+'''fn main() { let mut t = block(1).transactions[0].clone(); assert!(!t.is_coinbase()); t.inputs[0].source = TransactionInputSource::Coinbase(None); assert!(t.is_coinbase()); t.inputs.push(t.inputs[0].clone()); assert!(!t.is_coinbase()); }'''),
dict(id="b03-last-leaf", property="B03", needs="a block with an odd number of transactions, a proof for the last one", breaks="the flag of the last transaction is lost",
 edits=[(BT+"merkle.rs","while p < (pos + 1) << height && p < self.transactions_count {","while p < (pos + 1) << height && p < (self.transactions_count & !1).max(1) {")],
 demo=COM+'''fn main() { for n in 1..24u32 { let b = block(n); for i in 0..n as usize { let r = proof(&b, i).verify_proof().expect("honest proof"); assert_eq!(r.transaction_position, i as u32); } } }'''),
dict(id="b15-be-from", property="B15", needs="a hash whose big-endian hex has odd nibbles in its last byte", breaks="x",
 edits=[(BT+"types.rs","XX","YY")], demo="fn main(){}"),
]
SEEDS.pop()
