import os, runpy
BT = "crates/bitcoin/src/"
PR = "primitives/src/lib.rs"
COM = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds_1.py"))["COM"]
SEEDS = [
 dict(id="p01-ticker-case", property="P01", lib="interbtc_primitives", needs="a ticker spelled in lower case", breaks="a second spelling names the same token, so tickers are no longer unique",
  edits=[(PR, "match v.as_slice() {", "match v.to_ascii_uppercase().as_slice() {")],
  demo='''use interbtc_primitives::*; use std::convert::TryFrom;
fn main() { for (t, s) in [("DOT", DOT), ("IBTC", IBTC), ("INTR", INTR), ("KSM", KSM), ("KBTC", KBTC), ("KINT", KINT)] { assert_eq!(TokenSymbol::try_from(t.as_bytes().to_vec()), Ok(s)); assert!(TokenSymbol::try_from(t.to_lowercase().into_bytes()).is_err()); } }'''),
 dict(id="p02-stable-second", property="P02", lib="interbtc_primitives", needs="a pair whose second side is a stable pool token", breaks="the pool token names a foreign asset instead of the stable pool",
  edits=[(PR, "            CurrencyId::StableLpToken(stable_pool_id) => LpToken::StableLpToken(stable_pool_id),\n            _ => return None,\n        };\n        Some(",
          "            CurrencyId::StableLpToken(stable_pool_id) => LpToken::ForeignAsset(stable_pool_id),\n            _ => return None,\n        };\n        Some(")],
  demo='''use interbtc_primitives::*;
fn main() { let cs = [CurrencyId::Token(DOT), CurrencyId::ForeignAsset(3), CurrencyId::StableLpToken(4)]; for a in cs { for b in cs { match CurrencyId::join_lp_token(a, b) { Some(CurrencyId::LpToken(x, y)) => { let (x, y): (CurrencyId, CurrencyId) = (x.into(), y.into()); assert_eq!((x, y), (a, b)); } _ => panic!() } } } }'''),
 dict(id="p02-sort-kind", property="P02", lib="interbtc_primitives", needs="a pool of two stable pool tokens given in descending order", breaks="the pair has two identifiers, so its liquidity splits over two currencies",
  edits=[(PR, "                if x > y {", "                if x > y && !matches!((x, y), (LpToken::StableLpToken(_), LpToken::StableLpToken(_))) {")],
  demo='''use interbtc_primitives::*;
fn main() { let cs = [LpToken::Token(DOT), LpToken::Token(KINT), LpToken::ForeignAsset(3), LpToken::ForeignAsset(9), LpToken::StableLpToken(4), LpToken::StableLpToken(5)]; for a in cs { for b in cs { let (mut x, mut y) = (CurrencyId::LpToken(a, b), CurrencyId::LpToken(b, a)); x.sort(); y.sort(); assert_eq!(x, y); } } }'''),
 dict(id="p04-pair-swap", property="P04", lib="interbtc_primitives", needs="a vault identifier built from a pair of two different currencies", breaks="collateral and wrapped currency are exchanged",
  edits=[(PR, "VaultId::new(account_id, currencies.collateral, currencies.wrapped)", "VaultId::new(account_id, currencies.wrapped, currencies.collateral)")],
  demo='''use interbtc_primitives::*;
fn main() { let v: VaultId<u8, CurrencyId> = (7u8, VaultCurrencyPair { collateral: CurrencyId::Token(DOT), wrapped: CurrencyId::Token(IBTC) }).into(); assert_eq!((v.account_id, v.collateral_currency(), v.wrapped_currency()), (7, CurrencyId::Token(DOT), CurrencyId::Token(IBTC))); }'''),
 dict(id="c02-sticky-flip", property="C02", lib="hello_world", needs="a second flip", breaks="flipping a set value leaves it set",
  edits=[("contracts/hello_world/lib.rs", "            self.value = !self.value;", "            self.value |= !self.value;")],
  demo='''use hello_world::flipper::Flipper;
fn main() { let mut f = Flipper::new(false); for i in 0..4 { assert_eq!(f.get(), i % 2 == 1); f.flip(); } }'''),
 dict(id="b15-wide-int", property="B15", needs="a 64-bit integer above 2^32", breaks="the upper half of the integer is lost in the hash",
  edits=[(BT + "types.rs", "for i in 0..le_bytes.len() {", "for i in 0..le_bytes.len().min(4) {")],
  demo='''use bitcoin::types::H256Le;
fn main() { for x in [0u64, 1, 255, 1 << 31, 1 << 32, u64::MAX, 0x090a0b0c0d0e0f10] { let h = H256Le::from(x); let mut e = [0u8; 32]; e[..8].copy_from_slice(&x.to_le_bytes()); assert_eq!(h.to_bytes_le(), e); } }'''),
 dict(id="b04-long-header", property="B04", needs="more than eighty bytes of header data", breaks="trailing bytes after a header are ignored",
  edits=[(BT + "types.rs", "        if slice.len() != 80 {\n            return Err(Error::InvalidHeaderSize);\n        }\n        let mut result = [0u8; 80];\n        result.copy_from_slice(slice);",
          "        if slice.len() < 80 {\n            return Err(Error::InvalidHeaderSize);\n        }\n        let mut result = [0u8; 80];\n        result.copy_from_slice(&slice[..80]);")],
  demo='''use bitcoin::*; use bitcoin::types::*;
fn main() { let mut b = vec![0u8; 80]; b[0] = 4; assert!(BlockHeader::from_bytes(&b).is_ok()); b.push(0); assert!(BlockHeader::from_bytes(&b).is_err()); b.truncate(79); assert!(BlockHeader::from_bytes(&b).is_err()); }'''),
 dict(id="b09-first-witness", property="B09", needs="a transaction of which only a later input has a witness", breaks="the witness is dropped from the serialised transaction",
  edits=[(BT + "types.rs", "self.inputs.iter().any(|v| !v.witness.is_empty())", "self.inputs.first().map_or(false, |v| !v.witness.is_empty())")],
  demo=COM + '''fn main() { for k in 0..3usize { let mut t = block(1).transactions[0].clone(); t.outputs.push(TransactionOutput::payment(5, &Address::default())); for _ in 0..2 { t.inputs.push(t.inputs[0].clone()); } t.inputs[k].witness = vec![vec![1, 2, 3]]; let mut v = vec![]; t.try_format(&mut v).unwrap(); let u = parse_transaction(&v).unwrap(); assert_eq!(u.inputs[k].witness, t.inputs[k].witness); } }'''),
 dict(id="b18-late-coinbase", property="B18", needs="a coinbase added after other transactions", breaks="the coinbase is not the first transaction of the block",
  edits=[(BT + "types.rs", "            .insert(0, generate_coinbase_transaction(address, reward, height, None, None));", "            .push(generate_coinbase_transaction(address, reward, height, None, None));")],
  demo=COM + '''fn main() { let mut b = BlockBuilder::new(); let t = block(1).transactions[0].clone(); b.with_version(4).add_transaction(t).with_coinbase(&Address::default(), 50, 3).with_timestamp(1); let mut h = [0u8; 80]; h[0] = 4; h[72..76].copy_from_slice(&0x207fffffu32.to_le_bytes()); let m = b.mine(parse_block_header(&h).unwrap().target).unwrap(); assert!(m.transactions[0].outputs.len() == 1 && m.transactions[0].outputs[0].value == 50); }'''),
 dict(id="b13-p2wsh-push", property="B13", needs="a 34-byte script that starts with zero but does not push 32 bytes", breaks="a non-standard script is taken for a witness script hash",
  edits=[(BT + "address.rs", "&[OP_0, HASH256_SIZE_HEX, ref addr @ ..] if addr.len()", "&[OP_0, _, ref addr @ ..] if addr.len()")],
  demo=COM + '''fn main() { for n in 0..=255u8 { let mut s = vec![0u8, n]; s.extend([9u8; 32]); assert_eq!(Address::from_script_pub_key(&Script::from(s)).is_ok(), n == 32); } }'''),
 dict(id="b14-full-length", property="B14", needs="an op-return script of exactly 83 bytes", breaks="the longest standard op-return output is rejected",
  edits=[(BT + "script.rs", "if output_script.len() > MAX_OPRETURN_SIZE {", "if output_script.len() >= MAX_OPRETURN_SIZE {")],
  demo=COM + '''fn main() { for n in 0..=81usize { let d: Vec<u8> = (0..n as u8).collect(); let s = Script::op_return(&d); assert_eq!(s.extract_op_return_data().unwrap(), d); } }'''),
 dict(id="b19-redeem-len", property="B19", needs="a P2SH input with a redeem script between 76 and 252 bytes", breaks="the length prefix of the redeem script counts as one byte instead of two",
  edits=[(BT + "utils.rs", "                    + script_length_size(redeem_script_size)", "                    + var_int_size(redeem_script_size)")],
  demo='''use bitcoin::utils::*;
fn main() { for m in 1..4u32 { for n in m..12u32 { let redeem = 3 + n * 34; let push = if redeem < 76 { 1 } else if redeem < 256 { 2 } else { 3 }; let sig = 1 + m * 73 + push + redeem; let v = if sig < 253 { 1 } else { 3 }; let w = 4 * (40 + v + sig) + 4 * 34 + 4 * 10; assert_eq!(virtual_transaction_size(TransactionInputMetadata { script_type: InputType::P2SH { num_signatures: m, num_pubkeys: n }, count: 1 }, TransactionOutputMetadata { num_p2pkh: 1, num_p2sh: 0, num_p2wpkh: 0, num_op_return: 0 }), (w + 3) / 4); } } }'''),
]
