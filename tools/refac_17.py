K = "crates/bitcoin/src/merkle.rs"
P = "crates/bitcoin/src/parser.rs"
S = "crates/bitcoin/src/script.rs"
D = "crates/bitcoin/src/address.rs"
U = "crates/bitcoin/src/utils.rs"
M = "crates/bitcoin/src/math.rs"
W = "crates/bitcoin/src/pow.rs"
F = "crates/bitcoin/src/formatter.rs"
T = "crates/bitcoin/src/types.rs"
C = "contracts/btc_swap/lib.rs"
R = {x: open("/repo/" + x).read() for x in (K, P, S, D, U, M, W, F, T, C)}


def cut(f, a, b):
    x = R[f]
    i = x.index(a)
    return x[i:x.index(b, i)]


VER1 = cut(K, "        // fail if no transactions" if "        // fail if no transactions" in R[K] else "        if self.merkle_proof.transactions_count == 0 {", "        let root = self.merkle_proof.traverse_and_extract(")
VER2 = cut(K, "        let merkle_position = traversal.merkle_position.ok_or", "        let tx_id = self.transaction.tx_id_bounded")
VER3 = cut(K, "        let tx_id = self.transaction.tx_id_bounded", "        Ok(ProofResult {")
WORK = cut(W, "    let mut actual_timespan", "// https://github.com/bitcoin/bitcoin/blob/7fcf53f7b4524572d1d0c9a5fdc388e87eb02416/src/test/pow_tests")
GC = cut(M, "        let mut size = (self.bits()", "pub trait SetCompact")
SC = cut(M, "        let size = compact >> 24;", "// https://github.com/bitcoin/bitcoin/blob/7fcf53f7b4524572d1d0c9a5fdc388e87eb02416/src/test/arith")
CUF = cut(F, "        if self.value < 0xfd {", "impl<T> TryFormat for Vec<T>")
INF = cut(F, "        let (previous_hash, previous_index) = match self.source", "impl TryFormat for Script {")
TXF = cut(F, "        self.version.try_format(w)?;\n\n", "// https" if "// https" in R[F][R[F].index("        self.version.try_format(w)?;\n\n"):R[F].index("impl TryFormat for U256")] else "impl TryFormat for U256")
VECF = cut(F, "        CompactUint {\n            value: self.len() as u64,", "impl TryFormat for TransactionInput {")
MPF = cut(F, "        let mut bytes: Vec<u8> = vec![0; len];", "#[cfg(test)]")
HDR = cut(F, "        self.version.try_format(w)?;\n        self.hash_prev_block", "impl TryFormat for Block {")
BLK = cut(T, "        let mut proof = MerkleProof {\n            block_header: self.header,", "/// Generates a new block" if "/// Generates a new block" in R[T] else "pub struct BlockBuilder")
MINE = cut(T, "        let mut nonce: u32 = 0;", "    pub fn add_transaction(&mut self")
ROOT = cut(T, "        let height = log2(self.block.transactions.len() as u64);", "    #[cfg(feature = \"runtime-benchmarks\")]\n    pub fn build_max(previous_hash")
GEN = cut(T, "    let mut tx_builder = TransactionBuilder::new();\n\n    let mut input_builder", "#[derive(Encode, Decode, Default, Clone, PartialEq, Debug, TypeInfo, MaxEncodedLen)]\npub struct BlockChain" if "#[derive(Encode, Decode, Default, Clone, PartialEq, Debug, TypeInfo, MaxEncodedLen)]\npub struct BlockChain" in R[T] else "/// Bitcoin Enriched")
FB = cut(T, "        let slice = bytes.as_ref();", "    #[cfg(all(feature = \"std\", any(feature = \"parser\", test)))]\n    pub fn from_hex")
H256I = cut(T, "                let mut bytes: [u8; 32] = Default::default();\n                let le_bytes", "            }\n        }\n    };\n}\n\nimpl_h256le_from_integer!(u8);")
PARSEP = cut(K, "        let mut proof_parser = BytesParser::new(merkle_proof);", "#[cfg(test)]")
PBH = cut(P, "    let mut parser = BytesParser::new(bytes);\n    let version: i32", "/// Returns the value of a compactly")
VB = cut(P, "        let byte = *raw_bytes.get(position).ok_or(Error::EndOfFile)?;", "impl Parsable for Transaction {")
PV = cut(P, "        let mut result: Vec<T> = Vec::new();\n        let slice = raw_bytes.get(position..).ok_or(Error::EndOfFile)?;\n        let mut parser = BytesParser::new(slice);\n        let count: CompactUint = parser.parse()?;\n        for _ in 0..count.value {\n            result.push(parser.parse_with", "impl Parsable for Vec<bool>")

REFS = {
    "m-ver-helper": [(K, VER1, """        self.merkle_proof.ensure_well_formed()?;

"""), (K, "    fn traverse_and_extract(", """    fn ensure_well_formed(&self) -> Result<(), Error> {
        let plausible_count = (1..=MAX_TRANSACTIONS_IN_PROOF).contains(&self.transactions_count);
        if !plausible_count || self.hashes.len() > self.flag_bits.len() {
            return Err(Error::MalformedMerkleProof);
        }
        Ok(())
    }

    fn traverse_and_extract(""")],
    "m-ver-consumed": [(K, VER2, """        let consumed_bytes = |bits: usize| -> Result<usize, Error> {
            Ok(bits.checked_add(7).ok_or(Error::ArithmeticOverflow)? / 8)
        };

        let (merkle_position, hash_position) = match (traversal.merkle_position, traversal.hash_position) {
            (Some(merkle_position), Some(hash_position)) => (merkle_position, hash_position),
            _ => return Err(Error::InvalidMerkleProof),
        };

        let all_hashes_used = traversal.hashes_used == self.merkle_proof.hashes.len();
        if !all_hashes_used
            || consumed_bytes(traversal.bits_used)? != consumed_bytes(self.merkle_proof.flag_bits.len())?
        {
            return Err(Error::MalformedMerkleProof);
        }

""")],
    "m-ver-hash": [(K, VER3, """        let expected_tx_id = self.merkle_proof.hashes[hash_position];
        match self.transaction.tx_id_bounded(self.tx_encoded_len)? {
            tx_id if tx_id == expected_tx_id => (),
            _ => return Err(Error::InvalidTxid),
        }

""")],
    "m-work-steps": [(W, WORK, """    const MIN_TIMESPAN: u64 = TARGET_TIMESPAN / TARGET_TIMESPAN_DIVISOR;
    const MAX_TIMESPAN: u64 = TARGET_TIMESPAN * TARGET_TIMESPAN_DIVISOR;

    let actual_timespan = if last_block_time <= first_block_time {
        MIN_TIMESPAN
    } else {
        match last_block_time - first_block_time {
            timespan if timespan < MIN_TIMESPAN => MIN_TIMESPAN,
            timespan if timespan > MAX_TIMESPAN => MAX_TIMESPAN,
            timespan => timespan,
        }
    };

    let scaled = previous_target * U256::from(actual_timespan) / U256::from(TARGET_TIMESPAN);
    scaled
        .min(UNROUNDED_MAX_TARGET)
        .get_compact()
        .ok_or(Error::InvalidCompact)
}

""")],
    "m-gc-mantissa": [(M, GC, """        const SIGN_BIT: u32 = 0x0080_0000;
        const MANTISSA_MASK: u32 = 0x007f_ffff;

        fn mantissa(value: U256, size: usize) -> u32 {
            match size {
                0..=3 => (value.low_u64() << (8 * (3 - size))) as u32,
                _ => (value >> (8 * (size - 3))).low_u32(),
            }
        }

        let size = (self.bits() + 7) / 8;
        let compact = mantissa(self, size);
        let (compact, size) = if compact & SIGN_BIT == 0 {
            (compact, size)
        } else {
            (compact >> 8, size + 1)
        };

        if compact & !MANTISSA_MASK != 0 || size >= 256 {
            return None;
        }
        Some(compact | (size << 24) as u32)
    }
}

""")],
    "m-sc-flags": [(M, SC, """        let exponent = compact >> 24;
        let mantissa = compact & 0x007fffff;
        let sign = compact & 0x00800000 != 0;

        if exponent <= 3 {
            let word = mantissa >> (8 * (3 - exponent));
            return if sign && word != 0 { None } else { Some(U256::from(word)) };
        }

        let overflow = exponent > 34 || (exponent > 33 && mantissa > 0xff) || (exponent > 32 && mantissa > 0xffff);
        if mantissa != 0 && (sign || overflow) {
            return None;
        }
        Some(U256::from(mantissa) << (8 * (exponent - 3)))
    }
}

""")],
    "m-cuf-bytes": [(F, CUF, """        let mut bytes = Vec::with_capacity(9);
        if self.value < 0xfd {
            bytes.push(self.value as u8);
        } else if self.value <= 0xffff {
            bytes.push(0xfd);
            bytes.extend_from_slice(&(self.value as u16).to_le_bytes());
        } else if self.value <= 0xffff_ffff {
            bytes.push(0xfe);
            bytes.extend_from_slice(&(self.value as u32).to_le_bytes());
        } else {
            bytes.push(0xff);
            bytes.extend_from_slice(&self.value.to_le_bytes());
        }
        w.write(&bytes)
    }
}

""")],
    "m-cuf-tag": [(F, CUF, """        match self.value {
            value @ 0..=0xfc => (value as u8).try_format(w),
            value @ 0xfd..=0xffff => {
                w.write(&[0xfd])?;
                (value as u16).try_format(w)
            }
            value @ 0x10000..=0xffff_ffff => {
                w.write(&[0xfe])?;
                (value as u32).try_format(w)
            }
            value => {
                w.write(&[0xff])?;
                value.try_format(w)
            }
        }
    }
}

""")],
    "m-inf-height": [(F, INF, """        match self.source {
            TransactionInputSource::Coinbase(height) => {
                H256Le::zero().try_format(w)?;
                u32::MAX.try_format(w)?;
                let prefix = height.map(Script::height).unwrap_or_default();
                CompactUint::from_usize(self.script.len().saturating_add(prefix.len())).try_format(w)?;
                w.write(prefix.as_bytes())?;
            }
            TransactionInputSource::FromOutput(hash, index) => {
                hash.try_format(w)?;
                index.try_format(w)?;
                CompactUint::from_usize(self.script.len()).try_format(w)?;
            }
        }
        w.write(&self.script)?;
        self.sequence.try_format(w)
    }
}

""")],
    "m-txf-flag": [(F, TXF, """        let has_witness = self.has_witness();

        self.version.try_format(w)?;
        if has_witness {
            for byte in [WITNESS_MARKER, WITNESS_FLAG] {
                byte.try_format(w)?;
            }
        }
        self.inputs.try_format(w)?;
        self.outputs.try_format(w)?;
        if has_witness {
            self.inputs.iter().try_for_each(|input| input.witness.try_format(w))?;
        }
        self.lock_at.try_format(w)
    }
}

""")],
    "m-vecf-each": [(F, VECF, """        CompactUint::from_usize(self.len()).try_format(w)?;
        let mut values = self.iter();
        while let Some(value) = values.next() {
            value.try_format(w)?;
        }
        Ok(())
    }
}

""")],
    "m-mpf-set": [(F, MPF, """        let mut bytes: Vec<u8> = vec![0; len];
        for (position, _) in self.flag_bits.iter().enumerate().filter(|(_, bit)| **bit) {
            bytes[position / 8] |= 1 << (position % 8);
        }
        bytes.try_format(w)
    }
}

""")],
    "m-mpf-pairs": [(F, MPF, """        let mut bytes: Vec<u8> = vec![0; len];
        for (p, bit) in self.flag_bits.iter().enumerate() {
            if *bit {
                bytes[p >> 3] |= 1u8 << (p & 7);
            }
        }
        bytes.try_format(w)
    }
}

""")],
    "m-hdr-buf": [(F, HDR, """        let mut bytes = Vec::with_capacity(80);
        self.version.try_format(&mut bytes)?;
        self.hash_prev_block.try_format(&mut bytes)?;
        self.merkle_root.try_format(&mut bytes)?;
        self.timestamp.try_format(&mut bytes)?;
        self.target.try_format(&mut bytes)?;
        self.nonce.try_format(&mut bytes)?;
        w.write(&bytes)
    }
}

""")],
    "m-blk-unzip": [(T, BLK, """        let (tx_ids, matches): (Vec<H256Le>, Vec<bool>) = self
            .transactions
            .iter()
            .map(|tx| {
                let tx_id = tx.tx_id();
                (tx_id, include.contains(&tx_id))
            })
            .unzip();

        let mut proof = MerkleProof {
            block_header: self.header,
            transactions_count: self.transactions.len() as u32,
            flag_bits: Vec::with_capacity(include.len()),
            hashes: Vec::new(),
        };
        let height = proof.compute_partial_tree_height();
        proof.traverse_and_build(height, 0, &tx_ids, &matches)?;
        Ok(proof)
    }
}

""" + ("" if "/// Generates a new block" in R[T] else ""))],
    "m-blk-pushes": [(T, BLK, """        let mut tx_ids = vec![];
        let mut matches = vec![];
        for tx in &self.transactions {
            let tx_id = tx.tx_id();
            matches.push(include.iter().any(|included| *included == tx_id));
            tx_ids.push(tx_id);
        }

        let mut proof = MerkleProof {
            block_header: self.header,
            transactions_count: tx_ids.len() as u32,
            ..Default::default()
        };
        let height = proof.compute_partial_tree_height();
        proof.traverse_and_build(height, 0, &tx_ids, &matches).map(|_| proof)
    }
}

""")],
    "m-mine-range": [(T, MINE, """        let mut nonce: u32 = 0;
        loop {
            let hash = self.block.header.update_hash()?;
            if hash.as_u256() < target {
                return Ok(self.block.clone());
            }
            self.block.header.nonce = nonce;
            nonce += 1;
        }
    }

""")],
    "m-gen-builder": [(T, GEN, """    let mut input_builder = TransactionInputBuilder::new();
    if let Some(script) = &input_script {
        input_builder.with_script(script);
    }
    let input = input_builder
        .with_source(TransactionInputSource::Coinbase(Some(height)))
        .with_sequence(u32::MAX)
        .add_witness(&[0; 32])
        .build();

    let commitment_output = witness_commitment.map(|commitment| TransactionOutput::op_return(0, &commitment));

    let mut tx_builder = TransactionBuilder::new();
    tx_builder
        .add_input(input)
        .add_output(TransactionOutput::payment(reward, address));
    if let Some(output) = commitment_output {
        tx_builder.add_output(output);
    }
    tx_builder.build()
}

""")],
    "m-fb-tryfrom": [(T, FB, """        let header: [u8; 80] = bytes.as_ref().try_into().map_err(|_| Error::InvalidHeaderSize)?;
        parse_block_header(&header)
    }

""")],
    "m-h256-zip": [(T, H256I, """                let mut content = [0u8; 32];
                for (slot, byte) in content.iter_mut().zip(value.to_le_bytes()) {
                    *slot = byte;
                }
                H256Le { content }
""")],
    "m-parse-proof": [(K, PARSEP, """        let mut parser = BytesParser::new(merkle_proof);
        let mut proof = MerkleProof {
            block_header: parser.parse()?,
            transactions_count: parser.parse()?,
            hashes: parser.parse()?,
            flag_bits: Vec::new(),
        };

        let CompactUint { value: flag_bytes } = parser.parse()?;
        for _ in 0..flag_bytes {
            let mut bits: Vec<bool> = parser.parse()?;
            proof.flag_bits.append(&mut bits);
        }
        Ok(proof)
    }
}

""")],
    "m-pbh-literal": [(P, PBH, """    let mut parser = BytesParser::new(bytes);
    let version = parser.parse()?;
    let hash_prev_block = parser.parse()?;
    let merkle_root = parser.parse()?;
    let timestamp = parser.parse()?;
    let target = parser.parse()?;
    Ok(BlockHeader {
        version,
        hash_prev_block,
        merkle_root,
        timestamp,
        target,
        nonce: parser.parse()?,
        hash: sha256d_le(bytes),
    })
}

""")],
    "m-vb-vec": [(P, VB, """        let mut byte = *raw_bytes.get(position).ok_or(Error::EndOfFile)?;
        let mut flag_bits = vec![false; 8];
        for bit in flag_bits.iter_mut() {
            *bit = byte & 1 == 1;
            byte /= 2;
        }
        Ok((flag_bits, 1))
    }
}

""")],
    "m-pv-count": [(P, PV, """        let slice = raw_bytes.get(position..).ok_or(Error::EndOfFile)?;
        let mut parser = BytesParser::new(slice);
        let mut remaining = parser.parse::<CompactUint>()?.value;
        let mut result: Vec<T> = Vec::new();
        while remaining > 0 {
            let item = parser.parse_with(extra)?;
            result.push(item);
            remaining -= 1;
        }
        Ok((result, parser.position))
    }
}

""")],
    "m-root-once": [(T, ROOT, """        let tx_ids: Vec<H256Le> = self.block.transactions.iter().map(Transaction::tx_id).collect();
        let transactions_count = tx_ids.len();
        let height = log2(transactions_count as u64);
        MerkleTree::compute_root(0, height, transactions_count as u32, &tx_ids)
    }

""")],
}
