"""Twenty-first round: input and output parsing, builders, hashes, sizes, currencies and the contract rewritten once more."""
BT = "crates/bitcoin/src/"
P, T, U, S, F = BT + "parser.rs", BT + "types.rs", BT + "utils.rs", BT + "script.rs", BT + "formatter.rs"
L, C = "primitives/src/lib.rs", "contracts/btc_swap/lib.rs"


def cut(f, a, b):
    t = open("/repo/" + f).read()
    i = t.index(a)
    return t[i:t.index(b, i)]


IN = cut(P, "    // coinbase input has no previous hash", "    let script = parser.read(script_size as usize)?;")
HEIGHT = cut(P, "            let height_size: u64 = parser.parse", "        TransactionInputSource::Coinbase(height)")
REFS = {
 "z-in-helper": [(P, HEIGHT, '''            let height_size: u64 = parser.parse::<CompactUint>()?.value;
            script_size = height_size
                .checked_add(1)
                .and_then(|size| script_size.checked_sub(size))
                .ok_or(Error::EndOfFile)?;
            Some(read_height(&mut parser, height_size)?)
        };

'''), (P, "/// Parses a transaction input\nfn", '''/// Reads the block height of a coinbase input, of the given size
fn read_height(parser: &mut BytesParser, size: u64) -> Result<u32, Error> {
    // fail if the height does not fit in four bytes
    if size > 4 {
        return Err(Error::MalformedTransaction);
    }
    let mut buffer = [0u8; 4];
    let bytes = parser.read(size as usize)?;
    buffer[..bytes.len()].copy_from_slice(&bytes);
    Ok(u32::from_le_bytes(buffer))
}

/// Parses a transaction input
fn''')],
 "z-in-fold": [(P, '''            let bytes = parser.read(height_size as usize)?;
            buffer[..(height_size as usize)]
                .copy_from_slice(bytes.get(0..(height_size as usize)).ok_or(Error::EndOfFile)?);
            Some(u32::from_le_bytes(buffer))
''', '''            for (target, byte) in buffer.iter_mut().zip(parser.read(height_size as usize)?) {
                *target = byte;
            }
            Some(u32::from_le_bytes(buffer))
''')],
 "z-in-match": [(P, '''    if is_coinbase && previous_index != u32::MAX {
        return Err(Error::MalformedTransaction);
    }
''', '''    match (is_coinbase, previous_index) {
        (true, u32::MAX) | (false, _) => (),
        (true, _) => return Err(Error::MalformedTransaction),
    }
''')],
 "z-in-iszero": [(P, "    let is_coinbase = previous_hash == H256Le::zero();", "    let is_coinbase = previous_hash.is_zero();")],
 "z-in-late": [(P, '''    let script = parser.read(script_size as usize)?;
    // fail if coinbase script is longer than 100 bytes
    if is_coinbase && script.len() > 100 {
        return Err(Error::MalformedTransaction);
    }

    let sequence: u32 = parser.parse()?;
    let consumed_bytes = parser.position;

    Ok((
        TransactionInput {
            source,
            script,
            sequence,
            witness: vec![],
        },
        consumed_bytes,
    ))
''', '''    let input = TransactionInput {
        source,
        script: parser.read(script_size as usize)?,
        sequence: parser.parse()?,
        witness: Vec::new(),
    };
    // fail if coinbase script is longer than 100 bytes
    let too_long = input.script.len() > 100;
    if is_coinbase && too_long {
        Err(Error::MalformedTransaction)
    } else {
        Ok((input, parser.position))
    }
''')],
 "z-out-order": [(P, cut(P, "    let mut parser = BytesParser::new(raw_output);", "#[cfg(test)]\npub(crate) mod tests"), '''    const MAX_SCRIPT_SIZE: u64 = 10_000;
    let mut parser = BytesParser::new(raw_output);
    let value = parser.parse::<i64>()?;
    let script = match parser.parse::<CompactUint>()?.value {
        size @ 0..=MAX_SCRIPT_SIZE => Script::from(parser.read(size as usize)?),
        _ => return Err(Error::MalformedTransaction),
    };
    Ok((TransactionOutput { value, script }, parser.position))
}

'''), (P, "#[cfg(test)]\npub(crate) mod tests {\n    use super::*;\n    use crate::{\n        formatter::{BoundedWriter, TryFormat},\n        Address, Script,\n    };", "#[cfg(test)]\npub(crate) mod tests {\n    use super::*;\n    use crate::{\n        formatter::{BoundedWriter, TryFormat},\n        Address,\n    };"), (P, "use crate::{", "use crate::script::Script;\nuse crate::{") if False else (P, "const SERIALIZE_TRANSACTION_NO_WITNESS", "use crate::Script;\n\nconst SERIALIZE_TRANSACTION_NO_WITNESS")],
 "z-hdr-direct": [(P, cut(P, "    let version: i32 = parser.parse()?;\n    let hash_prev_block", "    Ok(block_header)\n}\n\n/// Returns the value"), '''    let block_header = BlockHeader {
        version: parser.parse()?,
        hash_prev_block: parser.parse()?,
        merkle_root: parser.parse()?,
        timestamp: parser.parse()?,
        target: parser.parse()?,
        nonce: parser.parse()?,
        hash: sha256d_le(bytes),
    };

''')],
 "z-vec-collect": [(P, '''        for _ in 0..count.value {
            result.push(parser.parse()?);
        }
        Ok((result, parser.position))
''', '''        let mut left = count.value;
        while left > 0 {
            result.push(parser.parse()?);
            left -= 1;
        }
        Ok((result, parser.position))
''')],
 "z-fb-tryinto": [(T, '''        let slice = bytes.as_ref();
        if slice.len() != 80 {
            return Err(Error::InvalidHeaderSize);
        }
        let mut result = [0u8; 80];
        result.copy_from_slice(slice);
        parse_block_header(&result)
''', '''        match bytes.as_ref() {
            header if header.len() == 80 => parse_block_header(header),
            _ => Err(Error::InvalidHeaderSize),
        }
''')],
 "z-hash-map": [(T, '''        let mut bytes = vec![];
        self.try_format(&mut bytes)?;
        Ok(sha256d_le(&bytes))
''', '''        let mut bytes = Vec::with_capacity(80);
        self.try_format(&mut bytes).map(|()| sha256d_le(&bytes))
''')],
 "z-txid-bound": [(T, '''        let mut bytes = BoundedWriter::new(length_bound);
        self.format_no_witness(&mut bytes)?;
        Ok(sha256d_le(&bytes.result()))
''', '''        let mut writer = BoundedWriter::new(length_bound);
        match self.format_no_witness(&mut writer) {
            Ok(()) => {
                let bytes = writer.result();
                Ok(sha256d_le(&bytes))
            }
            Err(err) => Err(err),
        }
''')],
 "z-cb-slice": [(T, cut(T, "        self.inputs.len() == 1\n            && matches!(", "    }\n"), '''        match self.inputs.as_slice() {
            [input] => matches!(input.source, TransactionInputSource::Coinbase(..)),
            _ => false,
        }
''')],
 "z-cb-gen": [(T, cut(T, "    let mut tx_builder = TransactionBuilder::new();\n\n    let mut input_builder", "    // FIXME: this is most likely"), '''    let input = TransactionInput {
        source: TransactionInputSource::Coinbase(Some(height)),
        script: input_script.unwrap_or_default(),
        sequence: u32::MAX,
        witness: vec![vec![0; 32]],
    };
    let mut tx_builder = TransactionBuilder::new();
    tx_builder.add_input(input);

''')],
 "z-mine-loop": [(T, '''        while self.block.header.update_hash()?.as_u256() >= target {
            self.block.header.nonce = nonce;
            nonce += 1;
        }
        Ok(self.block.clone())
''', '''        loop {
            let hash = self.block.header.update_hash()?.as_u256();
            if hash < target {
                return Ok(self.block.clone());
            }
            self.block.header.nonce = nonce;
            nonce += 1;
        }
''')],
 "z-root-map": [(T, '''        let height = log2(self.block.transactions.len() as u64);
        let mut tx_ids = Vec::with_capacity(self.block.transactions.len());
        for tx in &self.block.transactions {
            tx_ids.push(tx.tx_id());
        }
        MerkleTree::compute_root(0, height, tx_ids.len() as u32, &tx_ids)
''', '''        let tx_ids: Vec<_> = self.block.transactions.iter().map(Transaction::tx_id).collect();
        let count = tx_ids.len();
        MerkleTree::compute_root(0, log2(count as u64), count as u32, &tx_ids)
''')],
 "z-bmp-once": [(T, cut(T, "        let mut tx_ids = Vec::with_capacity(self.transactions.len());\n        for tx in self.transactions.iter()", "        let height = proof.compute_partial"), '''        let tx_ids: Vec<H256Le> = self.transactions.iter().map(|tx| tx.tx_id()).collect();
        let matches: Vec<bool> = tx_ids.iter().map(|tx_id| include.contains(tx_id)).collect();

''')],
 "z-h256-int": [(T, '''                let mut bytes: [u8; 32] = Default::default();
                let le_bytes = value.to_le_bytes();
                for i in 0..le_bytes.len() {
                    bytes[i] = le_bytes[i];
                }
                H256Le { content: bytes }
''', '''                let le_bytes = value.to_le_bytes();
                let mut content = [0u8; 32];
                content[..le_bytes.len()].copy_from_slice(&le_bytes);
                H256Le { content }
''')],
 "z-h256-be": [(T, '''        let bytes_le = reverse_endianness(bytes);
        let mut content: [u8; 32] = Default::default();
        content.copy_from_slice(&bytes_le);
        H256Le { content }
''', '''        let mut hash = H256Le::from_bytes_le(bytes);
        hash.content.reverse();
        hash
''')],
 "z-h256-eq": [(T, '''        let bytes_le = H256Le::from_bytes_be(self.as_bytes());
        bytes_le == *other
''', '''        self.as_bytes() == &other.to_bytes_be()[..]
''')],
 "z-script-len": [(S, "            && self.bytes[0] == OpCode::OpDup as u8\n            && self.bytes[1] == OpCode::OpHash160 as u8\n            && self.bytes[2] == HASH160_SIZE_HEX\n            && self.bytes[23] == OpCode::OpEqualVerify as u8\n            && self.bytes[24] == OpCode::OpCheckSig as u8",
   "            && self.bytes[..3] == [OpCode::OpDup as u8, OpCode::OpHash160 as u8, HASH160_SIZE_HEX]\n            && self.bytes[23..] == [OpCode::OpEqualVerify as u8, OpCode::OpCheckSig as u8]")],
 "z-opret-raw": [(S, '''        let mut script = Script::new();
        script.append(OpCode::OpReturn);
        script.append(return_content.len() as u8);
        script.append(return_content);
        script
''', '''        let mut bytes = vec![OpCode::OpReturn as u8, return_content.len() as u8];
        bytes.extend_from_slice(return_content);
        Script { bytes }
''')],
 "z-size-const": [(U, cut(U, "    let output_weight = 4\n", "    let header_weight"), '''    let TransactionOutputMetadata {
        num_p2pkh,
        num_p2sh,
        num_p2wpkh,
        num_op_return,
    } = output;
    let output_size = num_p2pkh * P2PKH_OUT_SIZE
        + num_p2sh * P2SH_OUT_SIZE
        + num_p2wpkh * P2WPKH_OUT_SIZE
        + num_op_return * OP_RETURN_OUT_SIZE;
    let output_weight = output_size * 4;
    let output_count = num_p2pkh + num_p2sh + num_p2wpkh + num_op_return;
''')],
 "z-size-p2sh": [(U, cut(U, "            } => {\n                let redeem_script_size", "    let output_weight = 4\n"), '''            } => p2sh_input_weight(num_signatures, num_pubkeys),
        };

'''), (U, "/// Bytes in the witnesses cost only 1/4th", '''/// Weight of an input that spends from a `num_signatures` of `num_pubkeys` multisig script hash
const fn p2sh_input_weight(num_signatures: u32, num_pubkeys: u32) -> u32 {
    let redeem_script_size = 3 + num_pubkeys * (1 + PUBKEY_SIZE);
    let signatures_size = num_signatures * (1 + SIGNATURE_SIZE);
    let script_sig_size = 1 + signatures_size + script_length_size(redeem_script_size) + redeem_script_size;
    4 * (40 + var_int_size(script_sig_size) + script_sig_size)
}

/// Bytes in the witnesses cost only 1/4th''')],
 "z-vsize": [(U, '''    let weight = transaction_weight(input, output);
    (weight + 3) / 4
''', '''    let weight = transaction_weight(input, output);
    if weight % 4 == 0 {
        weight / 4
    } else {
        weight / 4 + 1
    }
''')],
 "z-cur-sort": [(L, cut(L, "        match *self {\n            CurrencyId::LpToken(x, y) => {", "    }\n\n    pub fn is_lend_token"), '''        if let CurrencyId::LpToken(ref mut x, ref mut y) = self {
            if *x > *y {
                core::mem::swap(x, y);
            }
        }
''')],
 "z-cur-join": [(L, cut(L, "        let lp_token_0 = match currency_id_0 {", "    }\n\n    pub fn is_lp_token"), '''        let side = |currency_id: Self| match currency_id {
            CurrencyId::Token(symbol) => Some(LpToken::Token(symbol)),
            CurrencyId::ForeignAsset(id) => Some(LpToken::ForeignAsset(id)),
            CurrencyId::StableLpToken(id) => Some(LpToken::StableLpToken(id)),
            CurrencyId::LendToken(_) | CurrencyId::LpToken(..) => None,
        };
        side(currency_id_0).and_then(|first| Some(CurrencyId::LpToken(first, side(currency_id_1)?)))
''')],
 "z-swap-checks": [(C, '''            let transferred_sats = self
                .env()
                .extension()
                .get_and_verify_bitcoin_payment(full_proof, order.btc_address)
                .unwrap()
                .unwrap_or(0);

            assert!(transferred_sats >= order.min_satoshis);
''', '''            let LimitOrder {
                btc_address,
                min_satoshis,
                ..
            } = order;
            let payment = self
                .env()
                .extension()
                .get_and_verify_bitcoin_payment(full_proof, btc_address)
                .unwrap();
            let enough = match payment {
                Some(sats) => sats >= min_satoshis,
                None => min_satoshis == 0,
            };
            assert!(enough);
''')],
 "z-vsize-bool": [(U, "    (weight + 3) / 4\n", "    weight / 4 + (weight % 4 != 0) as u32\n")],
 "z-vsize-neg": [(U, "    (weight + 3) / 4\n", "    let whole = weight / 4;\n    if whole * 4 < weight {\n        whole + 1\n    } else {\n        whole\n    }\n")],
 "z-vsize-shift": [(U, "    (weight + 3) / 4\n", "    let padded = weight + 3;\n    padded >> 2\n")],
 "z-vsize-match": [(U, "    (weight + 3) / 4\n", "    match weight % 4 {\n        0 => weight / 4,\n        _ => weight / 4 + 1,\n    }\n")],
}
