K = "crates/bitcoin/src/merkle.rs"
P = "crates/bitcoin/src/parser.rs"
S = "crates/bitcoin/src/script.rs"
D = "crates/bitcoin/src/address.rs"
U = "crates/bitcoin/src/utils.rs"
M = "crates/bitcoin/src/math.rs"
W = "crates/bitcoin/src/pow.rs"
F = "crates/bitcoin/src/formatter.rs"
T = "crates/bitcoin/src/types.rs"
C = "contracts/btc_swap/lib.rs"
R = {x: open("/repo/" + x).read() for x in (K, P, S, D, U, M, W, F, T, C)}


def cut(f, a, b):
    x = R[f]
    i = x.index(a)
    return x[i:x.index(b, i)]


ROOT = cut(K, "        if height == 0 {\n            // at height 0" if "        if height == 0 {\n            // at height 0" in R[K] else "        if height == 0 {", "impl PartialTransactionProof")
TRAV = cut(K, "        let parent_of_hash = *self.flag_bits", "    /// Computes" if "    /// Computes" in R[K][R[K].index("let parent_of_hash = *self"):] else "    pub(crate) fn traverse_and_build(")
BUILD = cut(K, "        let mut parent_of_match = false;", "        self.flag_bits.push(parent_of_match);")
HEIGHT = cut(K, "        let mut height = 0;", "    /// Computes the root" if "    /// Computes the root" in R[K] else "    pub fn compute_root(")
INPEND = "    let script = parser.read(script_size as usize)?;\n    // fail if coinbase"
INP = cut(P, "    let mut script_size: u64 = parser.parse::<CompactUint>()?.value;", INPEND)
INP2 = cut(P, INPEND, "fn parse_transaction_output(")
OUT = cut(P, "    let value: i64 = parser.parse()?;\n    let script_size", "#[cfg(test)]")
CU = cut(P, "    match varint.get(0).ok_or(Error::EndOfFile)? {", "/// Tries to parse a bitcoin transaction" if "/// Tries to parse a bitcoin transaction" in R[P] else "pub fn parse_transaction(")
SH = cut(S, "        let mut script = Script::new();\n\n        // The format", "    pub fn op_return(")
EX = cut(S, "        let output_script = &self.bytes;", "    pub fn as_bytes(")
OPR = cut(S, "        let mut script = Script::new();\n        script.append(OpCode::OpReturn);", "    pub fn is_p2wpkh_v0(")
FSP = cut(D, "        match bytes {", "    pub fn to_script_pub_key(")
TSP = cut(D, "        match self {\n            Self::P2PKH(pub_key_hash) => {", "    #[cfg(feature = \"std\")]\n    pub fn random(")
SIG1 = cut(D, "        let mut script = Script::new();\n        script.append(&sig);\n        script.append(self.0.to_vec());", "    /// Construct the redeemScript")
SIG2 = cut(D, "        let mut script = Script::new();\n        script.append(OpCode::Op0);\n        script.append(&sig);", "    #[cfg(any(feature = \"runtime-benchmarks\", feature = \"std\"))]\n    pub const fn dummy() -> Self {\n        PublicKey")
SHA = cut(U, "    let mut hasher = Sha256::default();", "/// Computes Bitcoin's double SHA256 hash over two" if "/// Computes Bitcoin's double SHA256 hash over two" in R[U] else "pub fn hash256_merkle_step(")
L256 = cut(U, "    let mut current = value - 1;\n    let mut result: u8 = 0;", "/// Computes Bitcoin's double SHA256" if "/// Computes Bitcoin's double SHA256" in R[U][R[U].index("let mut result: u8"):] else "pub fn sha256d_be(")
EXE = cut(C, "            let transferred_sats = self", "            // an order pays")
CRE = cut(C, "            let order = LimitOrder {", "        #[ink(message)]\n        pub fn execute_trade")
SLN = cut(U, "    if length <= 75 {", "/// Gets the size" if "/// Gets the size" in R[U] else "const fn var_int_size")
PTX = cut(P, "        let mut flags: u8 = 0;\n", "        let locktime_or_blockheight")
LOCK = cut(P, "        let lock_at = if locktime_or", "        if flags != 0 {")


REFS = {
    "v-root-bits": [(K, ROOT, """        let next_height = match height.checked_sub(1) {
            None => return Ok(hashes[index as usize]),
            Some(next_height) => next_height,
        };
        let left_index = index.checked_mul(2).ok_or(Error::ArithmeticOverflow)?;
        let right_index = left_index.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
        let left = Self::compute_root(left_index, next_height, transactions_count, hashes)?;
        let mut right = left;
        if right_index < Self::compute_width(transactions_count, next_height) {
            right = Self::compute_root(right_index, next_height, transactions_count, hashes)?;
        }
        Ok(hash256_merkle_step(&left.to_bytes_le(), &right.to_bytes_le()))
    }
}

""")],
    "v-trav-leaf": [(K, TRAV, """        let bit_position = traversal.bits_used;
        let parent_of_hash = match self.flag_bits.get(bit_position) {
            Some(bit) => *bit,
            None => return Err(Error::EndOfFile),
        };
        traversal.bits_used = bit_position.checked_add(1).ok_or(Error::ArithmeticOverflow)?;

        if parent_of_hash && height > 0 {
            self.traverse_children(height, pos, traversal)
        } else {
            let hash_position = traversal.hashes_used;
            let hash = *self.hashes.get(hash_position).ok_or(Error::MalformedMerkleProof)?;
            traversal.hashes_used = hash_position.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
            if parent_of_hash {
                traversal.merkle_position = Some(pos);
                traversal.hash_position = Some(hash_position);
            }
            Ok(hash)
        }
    }

    fn traverse_children(
        &self,
        height: u32,
        pos: u32,
        traversal: &mut MerkleProofTraversal,
    ) -> Result<H256Le, Error> {
        let next_height = height.checked_sub(1).ok_or(Error::ArithmeticUnderflow)?;
        let left_index = pos.checked_mul(2).ok_or(Error::ArithmeticOverflow)?;
        let right_index = left_index.checked_add(1).ok_or(Error::ArithmeticOverflow)?;

        let left = self.traverse_and_extract(next_height, left_index, traversal)?;
        if right_index >= self.compute_partial_tree_width(next_height) {
            return Ok(hash256_merkle_step(&left.to_bytes_le(), &left.to_bytes_le()));
        }
        let right = self.traverse_and_extract(next_height, right_index, traversal)?;
        Ok(hash256_merkle_step(&left.to_bytes_le(), &right.to_bytes_le()))
    }

""")],
    "v-build-skip": [(K, BUILD, """        let first = pos << height;
        let end = ((pos + 1) << height).min(self.transactions_count);
        let parent_of_match = (first..end).any(|p| matches[p as usize]);

""")],
    "v-build-rev": [(K, BUILD, """        let mut parent_of_match = false;
        for p in (pos << height)..((pos + 1) << height) {
            if p >= self.transactions_count {
                break;
            }
            if matches[p as usize] {
                parent_of_match = true;
            }
        }

""")],
    "v-height-rec": [(K, HEIGHT, """        let mut height = 0;
        let mut width = Self::compute_width(transactions_count, height);
        while width > 1 {
            height += 1;
            width = Self::compute_width(transactions_count, height);
        }
        height
    }

""")],
    "v-input-match": [(P, INP, """    let script_size: u64 = parser.parse::<CompactUint>()?.value;
    let (source, script_size) = match (is_coinbase, version) {
        (false, _) => (
            TransactionInputSource::FromOutput(previous_hash, previous_index),
            script_size,
        ),
        (true, 2) => {
            let height_size: u64 = parser.parse::<CompactUint>()?.value;
            let remaining = height_size
                .checked_add(1)
                .and_then(|size| script_size.checked_sub(size))
                .ok_or(Error::EndOfFile)?;
            if height_size > 4 {
                return Err(Error::MalformedTransaction);
            }
            let mut buffer = [0u8; 4];
            for (slot, byte) in buffer.iter_mut().zip(parser.read(height_size as usize)?) {
                *slot = byte;
            }
            (TransactionInputSource::Coinbase(Some(u32::from_le_bytes(buffer))), remaining)
        }
        (true, _) => (TransactionInputSource::Coinbase(None), script_size),
    };

""")],
    "v-input-resize": [(P, INP, """    let mut script_size: u64 = parser.parse::<CompactUint>()?.value;
    let source = if !is_coinbase {
        TransactionInputSource::FromOutput(previous_hash, previous_index)
    } else if version == 2 {
        let height_size: u64 = parser.parse::<CompactUint>()?.value;
        let prefix_size = height_size.checked_add(1).ok_or(Error::EndOfFile)?;
        script_size = script_size.checked_sub(prefix_size).ok_or(Error::EndOfFile)?;
        if height_size > 4 {
            return Err(Error::MalformedTransaction);
        }
        let mut bytes = parser.read(height_size as usize)?;
        bytes.resize(4, 0);
        let mut buffer = [0u8; 4];
        buffer.copy_from_slice(&bytes);
        TransactionInputSource::Coinbase(Some(u32::from_le_bytes(buffer)))
    } else {
        TransactionInputSource::Coinbase(None)
    };

""")],
    "v-input-tail": [(P, INP2, """    let script = parser.read(script_size as usize)?;
    match source {
        TransactionInputSource::Coinbase(_) if script.len() > 100 => return Err(Error::MalformedTransaction),
        _ => {}
    }

    let input = TransactionInput {
        source,
        script,
        sequence: parser.parse()?,
        witness: Vec::new(),
    };
    Ok((input, parser.position))
}

""")],
    "v-out-struct": [(P, OUT, """    const MAX_SCRIPT_SIZE: u64 = 10_000;

    let value = parser.parse::<i64>()?;
    let CompactUint { value: script_size } = parser.parse()?;
    if !(0..=MAX_SCRIPT_SIZE).contains(&script_size) {
        return Err(Error::MalformedTransaction);
    }
    let output = TransactionOutput {
        value,
        script: Script::from(parser.read(script_size as usize)?),
    };
    Ok((output, parser.position))
}

"""), (P, "use crate::{types::*, utils::sha256d_le, Error, SetCompact};", "use crate::{types::*, utils::sha256d_le, Error, Script, SetCompact};"),
        (P, "        Address, Script,\n    };", "        Address,\n    };")],
    "v-cuint-width": [(P, CU, """    let first = *varint.first().ok_or(Error::EndOfFile)?;
    let width = match first {
        0xfd => 2,
        0xfe => 4,
        0xff => 8,
        n => return Ok((u64::from(n), 1)),
    };
    let mut num_bytes = [0u8; 8];
    num_bytes[..width].copy_from_slice(varint.get(1..1 + width).ok_or(Error::EndOfFile)?);
    Ok((u64::from_le_bytes(num_bytes), 1 + width))
}

""")],
    "v-cuint-split": [(P, CU, """    let (first, rest) = varint.split_first().ok_or(Error::EndOfFile)?;
    let width = match first {
        0xfd => 2,
        0xfe => 4,
        0xff => 8,
        n => return Ok((*n as u64, 1)),
    };
    let bytes = rest.get(..width).ok_or(Error::EndOfFile)?;
    let value = bytes.iter().rev().fold(0u64, |value, byte| (value << 8) | *byte as u64);
    Ok((value, width + 1))
}

""")],
    "v-height-zeros": [(S, SH, """        let height_bytes = height.to_le_bytes();
        let mut size = 4;
        while size > 1 && height_bytes[size - 1] == 0 {
            size -= 1;
        }

        let mut number = height_bytes[..size].to_vec();
        if number[size - 1] & 0x80 != 0 {
            // keep the number positive
            number.push(0);
        }

        let mut script = Script::new();
        script.append(number);
        script
    }

""")],
    "v-height-lz": [(S, SH, """        let mut script = Script::new();
        let mut height_bytes = height.to_le_bytes().to_vec();
        while height_bytes.len() > 1 && height_bytes.ends_with(&[0]) {
            height_bytes.pop();
        }
        if height_bytes.last().map_or(false, |x| x >= &0x80) {
            height_bytes.push(0);
        }
        script.append(height_bytes);
        script
    }

""")],
    "v-extract-split": [(S, EX, """        let opcode = *self.bytes.first().ok_or(Error::EndOfFile)?;
        if opcode != OpCode::OpReturn as u8 || self.len() > MAX_OPRETURN_SIZE {
            return Err(Error::MalformedOpReturnOutput);
        }

        let data = self.bytes.get(2..).ok_or(Error::EndOfFile)?;
        if usize::from(self.bytes[1]) == data.len() {
            Ok(data.to_vec())
        } else {
            Err(Error::MalformedOpReturnOutput)
        }
    }

""")],
    "v-opret-vec": [(S, OPR, """        let mut bytes = Vec::with_capacity(return_content.len() + 2);
        bytes.push(OpCode::OpReturn as u8);
        bytes.push(return_content.len() as u8);
        bytes.extend_from_slice(return_content);
        Script { bytes }
    }

""")],
    "v-from-tail": [(D, FSP, """        if script.is_p2pkh() {
            return Ok(Self::P2PKH(H160::from_slice(&bytes[3..23])));
        }
        if script.is_p2sh() {
            return Ok(Self::P2SH(H160::from_slice(&bytes[2..22])));
        }
        match bytes {
            &[OP_0, HASH256_SIZE_HEX, ref addr @ ..] if addr.len() == 32 => Ok(Self::P2WSHv0(H256::from_slice(addr))),
            &[OP_0, HASH160_SIZE_HEX, ref addr @ ..] if addr.len() == 20 => Ok(Self::P2WPKHv0(H160::from_slice(addr))),
            _ => Err(Error::InvalidBtcAddress),
        }
    }

"""), (D, "        const OP_DUP: u8 = OpCode::OpDup as u8;\n        const OP_HASH_160: u8 = OpCode::OpHash160 as u8;\n        const OP_EQUAL_VERIFY: u8 = OpCode::OpEqualVerify as u8;\n        const OP_CHECK_SIG: u8 = OpCode::OpCheckSig as u8;\n        const OP_EQUAL: u8 = OpCode::OpEqual as u8;\n", "")],
    "v-to-push": [(D, TSP, """        let mut script = Script::new();
        match self {
            Self::P2PKH(pub_key_hash) => {
                script.append(OpCode::OpDup);
                script.append(OpCode::OpHash160);
                Self::push_hash(&mut script, pub_key_hash.as_bytes());
                script.append(OpCode::OpEqualVerify);
                script.append(OpCode::OpCheckSig);
            }
            Self::P2SH(script_hash) => {
                script.append(OpCode::OpHash160);
                Self::push_hash(&mut script, script_hash.as_bytes());
                script.append(OpCode::OpEqual);
            }
            Self::P2WPKHv0(pub_key_hash) => {
                script.append(OpCode::Op0);
                Self::push_hash(&mut script, pub_key_hash.as_bytes());
            }
            Self::P2WSHv0(script_hash) => {
                script.append(OpCode::Op0);
                Self::push_hash(&mut script, script_hash.as_bytes());
            }
        }
        script
    }

    fn push_hash(script: &mut Script, hash: &[u8]) {
        script.append(hash.len() as u8);
        script.append(hash);
    }

""")],
    "v-sig-bytes": [(D, SIG1, """        let mut script = Script::new();
        for item in [sig, self.0.to_vec()] {
            script.append(item);
        }
        script
    }

""")],
    "v-sig-redeem": [(D, SIG2, """        let redeem_script = self.to_redeem_script();
        let mut script = Script::new();
        script.append(OpCode::Op0);
        for item in [&sig, &redeem_script] {
            script.append(item);
        }
        script
    }

""")],
    "v-sha-digest": [(U, SHA, """    let mut digest = [0; 32];
    digest.copy_from_slice(&Sha256::digest(&Sha256::digest(bytes))[..]);
    digest
}

""")],
    "v-log256-loop": [(U, L256, """    let mut result: u8 = 0;
    let mut current = *value - U256::one();
    loop {
        if current.is_zero() {
            break result;
        }
        current = current >> 8;
        result += 1;
    }
}

""")],
    "v-exe-match": [(C, EXE, """            let payment = self
                .env()
                .extension()
                .get_and_verify_bitcoin_payment(full_proof, order.btc_address)
                .unwrap();
            match payment {
                Some(transferred_sats) => assert!(transferred_sats >= order.min_satoshis),
                None => assert!(order.min_satoshis == 0),
            }

""")],
    "v-cre-take": [(C, CRE, """            let refund = self.orders.get(caller).map(|replaced| replaced.plancks);
            self.orders.insert(
                caller,
                &LimitOrder {
                    plancks: offer,
                    min_satoshis,
                    btc_address: btc_address.encode(),
                },
            );

            // return what the replaced order had locked
            match refund {
                Some(plancks) => self.env().transfer(caller, plancks).unwrap(),
                None => (),
            }
        }

""")],
    "v-sln-match": [(U, SLN, """    match length {
        0..=75 => 1,
        76..=255 => 2,
        256..=65535 => 3,
        _ => 5,
    }
}

""")],
    "v-ptx-segwit": [(P, PTX, """        let mut flags: u8 = 0;
        if allow_witness && inputs.is_empty() {
            flags = parser.parse()?;
            inputs = parser.parse_with(version)?;
        }

        let outputs: Vec<TransactionOutput> = parser.parse()?;

        let has_witness = allow_witness && flags % 2 == 1;
        if has_witness {
            flags -= 1;
            let mut any_witness = false;
            for input in inputs.iter_mut() {
                input.with_witness(parser.parse()?);
                any_witness |= !input.witness.is_empty();
            }
            if !any_witness {
                return Err(Error::MalformedTransaction);
            }
        }

""")],
    "v-lock-match": [(P, LOCK, """        let lock_at = match locktime_or_blockheight {
            0..=499_999_999 => LockTime::BlockHeight(locktime_or_blockheight),
            LOCKTIME_THRESHOLD..=u32::MAX => LockTime::Time(locktime_or_blockheight),
        };

""")],
}
