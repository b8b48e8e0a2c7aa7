BT="crates/bitcoin/src/"
COM='''use bitcoin::types::*; use bitcoin::merkle::*; use bitcoin::formatter::TryFormat; use bitcoin::parser::*; use bitcoin::*;
fn block(n: u32) -> Block {
    let mut txs = vec![];
    for i in 0..n { txs.push(TransactionBuilder::new().with_version(2).add_input(TransactionInputBuilder::new().with_source(TransactionInputSource::FromOutput(H256Le::from_bytes_le(&[7u8; 32]), i)).build()).build()); }
    let h = parse_block_header(&{ let mut b = [0u8; 80]; b[0] = 4; b }).unwrap();
    Block { header: h, transactions: txs }
}
fn root(ids: &[H256Le]) -> H256Le {
    let mut l: Vec<H256Le> = ids.to_vec();
    while l.len() > 1 { if l.len() % 2 == 1 { l.push(*l.last().unwrap()); }
        l = l.chunks(2).map(|c| { let mut b = c[0].to_bytes_le().to_vec(); b.extend(c[1].to_bytes_le()); H256Le::from_bytes_le(&bitcoin::utils::sha256d_le(&b).to_bytes_le()) }).collect(); }
    l[0]
}
fn proof(b: &Block, i: usize) -> PartialTransactionProof {
    let t = b.transactions[i].clone();
    PartialTransactionProof { tx_encoded_len: t.size_no_witness() as u32, transaction: t.clone(), merkle_proof: b.merkle_proof(&[t.tx_id()]).unwrap() }
}
'''
SEEDS=[
dict(id="b01-flag-surplus", property="B01", needs="a proof padded with whole bytes of unused flag bits", breaks="proofs with surplus flag bytes are accepted",
 edits=[(BT+"merkle.rs","            .ok_or(Error::ArithmeticUnderflow)?\n            != self","            .ok_or(Error::ArithmeticUnderflow)?\n            > self")],
 demo=COM+'''fn main() { let b = block(5); let mut p = proof(&b, 3); assert!(p.clone().verify_proof().is_ok()); for _ in 0..16 { p.merkle_proof.flag_bits.push(false); } assert!(p.verify_proof().is_err(), "surplus flag bytes accepted"); }'''),
dict(id="b02-width-rounding", property="B02", needs="a block whose transaction count is even but not a multiple of the level size, six or ten for instance", breaks="the width of inner levels is rounded down, so honest proofs of such blocks give a wrong root",
 edits=[(BT+"merkle.rs","(transactions_count + (1 << height) - 1) >> height","(transactions_count >> height) + (transactions_count & 1)")],
 demo=COM+'''fn main() { for n in 1..40u32 { let b = block(n); let ids: Vec<H256Le> = b.transactions.iter().map(|t| t.tx_id()).collect(); for i in 0..n as usize { let r = proof(&b, i).verify_proof().expect("honest proof"); assert_eq!(r.extracted_root, root(&ids), "root of {} transactions", n); assert_eq!(r.transaction_position, i as u32); } } }'''),
dict(id="b06-overflow-bound", property="B06", needs="a compact target with exponent 35 and a one-byte mantissa", breaks="a target overflowing 256 bits is decoded (to zero) instead of being rejected",
 edits=[(BT+"math.rs","((size > 34)","((size > 35)")],
 demo='''use bitcoin::*; use bitcoin::parser::parse_block_header;
fn main() { let mut b = [0u8; 80]; b[0] = 4; for (bits, ok) in [(0x1d00ffffu32, true), (0x22000001, true), (0x23000001, false), (0x24000001, false), (0x2100ffff, true), (0x22000100, false)] { b[72..76].copy_from_slice(&bits.to_le_bytes()); assert_eq!(parse_block_header(&b).is_ok(), ok, "{:x}", bits); } }'''),
dict(id="b08-witness-all", property="B08", needs="a segwit transaction in which one input has a witness and another has none", breaks="such transactions are rejected although they are valid",
 edits=[(BT+"parser.rs","inputs.iter().all(|input| input.witness.is_empty())","inputs.iter().any(|input| input.witness.is_empty())")],
 demo=COM+'''fn main() { let mut t = block(1).transactions[0].clone(); t.inputs.push(t.inputs[0].clone()); t.inputs[1].witness = vec![vec![1, 2, 3]]; let mut w: Vec<u8> = vec![]; t.try_format(&mut w).unwrap(); assert_eq!(parse_transaction(&w).expect("valid transaction"), t); }'''),
dict(id="b08-locktime-class", property="B08", needs="a lock time of exactly 500000000", breaks="the first time-based lock time is read as a block height",
 edits=[(BT+"parser.rs","locktime_or_blockheight < LOCKTIME_THRESHOLD","locktime_or_blockheight <= LOCKTIME_THRESHOLD")],
 demo=COM+'''fn main() { for (l, time) in [(499_999_999u32, false), (500_000_000, true), (500_000_001, true)] { let mut t = block(1).transactions[0].clone(); t.lock_at = LockTime::Time(l); let mut w: Vec<u8> = vec![]; t.try_format(&mut w).unwrap(); let p = parse_transaction(&w).unwrap(); assert_eq!(matches!(p.lock_at, LockTime::Time(_)), time, "{}", l); } }'''),
dict(id="b10-bound-inclusive", property="B10", needs="a declared length one byte shorter than the transaction, the missing byte falling on the last write", breaks="the bounded id is computed for a transaction longer than declared",
 edits=[(BT+"formatter.rs","        self.checked_reduce(buf.len() as u32)?;\n","        self.checked_reduce(buf.len().saturating_sub(1).max(1) as u32)?;\n")],
 demo=COM+'''fn main() { let t = block(1).transactions[0].clone(); let n = t.size_no_witness() as u32; assert!(t.tx_id_bounded(n).is_ok()); for k in 0..n { assert!(t.tx_id_bounded(k).is_err(), "bound {} of {}", k, n); } }'''),
dict(id="b11-clamp-low", property="B11", needs="a period mined more than four times too fast", breaks="difficulty may rise by a factor of five in one period",
 edits=[(BT+"pow.rs","    if actual_timespan < TARGET_TIMESPAN / TARGET_TIMESPAN_DIVISOR {\n        actual_timespan = TARGET_TIMESPAN / TARGET_TIMESPAN_DIVISOR;","    if actual_timespan < TARGET_TIMESPAN / (TARGET_TIMESPAN_DIVISOR + 1) {\n        actual_timespan = TARGET_TIMESPAN / (TARGET_TIMESPAN_DIVISOR + 1);")],
 demo='''use bitcoin::*; use bitcoin::types::U256;
fn main() { let t = U256::set_compact(0x1c05a3f4).unwrap(); let w = 1209600u64; for d in [0u64, 1, w / 5, w / 5 + 1, w / 4 - 1, w / 4, w / 2, w, 3 * w, 4 * w, 4 * w + 1, 9 * w] { let c = d.max(w / 4).min(4 * w); let want = (t * U256::from(c) / U256::from(w)).get_compact().unwrap(); assert_eq!(bitcoin::pow::calculate_next_work_required(t, 1000, 1000 + d).unwrap(), want, "{}", d); } }'''),
dict(id="b13-p2sh-tail", property="B13", needs="a 23-byte script that starts like P2SH and ends in another opcode", breaks="unspendable look-alike scripts count as payments to a P2SH address",
 edits=[(BT+"address.rs","&[OP_HASH_160, HASH160_SIZE_HEX, ref addr @ .., OP_EQUAL] if addr","&[OP_HASH_160, HASH160_SIZE_HEX, ref addr @ .., OP_EQUAL | OP_EQUAL_VERIFY] if addr")],
 demo='''use bitcoin::*;
fn main() { let mut b = vec![0xa9u8, 0x14]; b.extend([3u8; 20]); b.push(0x87); assert!(Address::from_script_pub_key(&Script::from(b.clone())).is_ok()); for x in 0..=255u8 { if x != 0x87 { b[22] = x; assert!(Address::from_script_pub_key(&Script::from(b.clone())).is_err(), "final opcode {:x}", x); } } }'''),
dict(id="b14-pushlen", property="B14", needs="an op-return script whose declared push length exceeds the data that follows", breaks="truncated op-return data is reported as if complete",
 edits=[(BT+"script.rs","if result.len() != output_script[1] as usize {","if result.len() > output_script[1] as usize {")],
 demo='''use bitcoin::*;
fn main() { let mut b = vec![0x6au8, 32]; b.extend([3u8; 32]); assert!(Script::from(b.clone()).extract_op_return_data().is_ok()); b.pop(); assert!(Script::from(b).extract_op_return_data().is_err(), "short push"); }'''),
dict(id="b16-height-sign", property="B16", needs="a height whose most significant byte is exactly 0x80", breaks="such heights are encoded as negative script numbers",
 edits=[(BT+"script.rs","            if (x & 0x80) != 0 {","            if *x > 0x80 {")],
 demo='''use bitcoin::types::*; use bitcoin::*;
fn main() { for h in [1u32, 127, 128, 129, 255, 256, 32767, 32768, 0x80ff, 8388607, 8388608, 0x800001, 0x7fffffff] { let t = generate_coinbase_transaction(&Address::default(), 5, h, None, None); let mut w: Vec<u8> = vec![]; bitcoin::formatter::TryFormat::try_format(&t, &mut w).unwrap();
 let mut e = h.to_le_bytes().to_vec(); while e.len() > 1 && e.last() == Some(&0) { e.pop(); } if e.last().unwrap() & 0x80 != 0 { e.push(0); } let mut want = vec![e.len() as u8]; want.extend(e); assert_eq!(&w[42..42 + want.len()], &want[..], "height {:x}", h); } }'''),
]
