M = "crates/bitcoin/src/merkle.rs"
P = "crates/bitcoin/src/parser.rs"
W = "crates/bitcoin/src/pow.rs"
A = "crates/bitcoin/src/math.rs"
S = "crates/bitcoin/src/script.rs"
F = "crates/bitcoin/src/formatter.rs"
T = "crates/bitcoin/src/types.rs"
U = "crates/bitcoin/src/utils.rs"
D = "crates/bitcoin/src/address.rs"

REFS = {
    # --- merkle
    "o-width-local": [(M, "        (transactions_count + (1 << height) - 1) >> height\n", "        let leaves_below = 1u32 << height;\n        (transactions_count + leaves_below - 1) / leaves_below\n")],
    "o-height-from": [(M, """        let mut height = 0;
        while Self::compute_width(transactions_count, height) > 1 {
            height += 1;
        }
        height
""", """        let mut height = 0;
        loop {
            let width = Self::compute_width(transactions_count, height);
            if width <= 1 {
                return height;
            }
            height += 1;
        }
""")],
    "o-verify-checks": [(M, """        // fail if no transactions
        if self.merkle_proof.transactions_count == 0 {
            return Err(Error::MalformedMerkleProof);
        }

        // fail if too many transactions
        if self.merkle_proof.transactions_count > MAX_TRANSACTIONS_IN_PROOF {
            return Err(Error::MalformedMerkleProof);
        }

        // fail if not at least one bit per hash
        if self.merkle_proof.flag_bits.len() < self.merkle_proof.hashes.len() {
            return Err(Error::MalformedMerkleProof);
        }
""", """        self.merkle_proof.ensure_well_formed()?;
"""), (M, """impl MerkleProof {
""", """impl MerkleProof {
    /// Cheap checks that do not need the tree to be traversed
    fn ensure_well_formed(&self) -> Result<(), Error> {
        let MerkleProof {
            transactions_count,
            flag_bits,
            hashes,
            ..
        } = self;
        let valid_count = (1..=MAX_TRANSACTIONS_IN_PROOF).contains(transactions_count);
        if valid_count && flag_bits.len() >= hashes.len() {
            Ok(())
        } else {
            Err(Error::MalformedMerkleProof)
        }
    }

""")],
    "o-verify-hash": [(M, """        if self.merkle_proof.hashes[hash_position] != tx_id {
            return Err(Error::InvalidTxid);
        }
""", """        let transaction_hash = self.merkle_proof.hashes[hash_position];
        if tx_id.ne(&transaction_hash) {
            return Err(Error::InvalidTxid);
        }
"""), (M, """            transaction_hash: self.merkle_proof.hashes[hash_position],
""", """            transaction_hash,
""")],
    "o-verify-txid-early": [(M, """        let merkle_position = traversal.merkle_position.ok_or(Error::InvalidMerkleProof)?;
        let hash_position = traversal.hash_position.ok_or(Error::InvalidMerkleProof)?;
""", """        let (merkle_position, hash_position) = match (traversal.merkle_position, traversal.hash_position) {
            (Some(merkle_position), Some(hash_position)) => (merkle_position, hash_position),
            _ => return Err(Error::InvalidMerkleProof),
        };
""")],
    "o-bytes-closure": [(M, """        if traversal
            .bits_used
            .checked_add(7)
            .ok_or(Error::ArithmeticOverflow)?
            .checked_div(8)
            .ok_or(Error::ArithmeticUnderflow)?
            != self
                .merkle_proof
                .flag_bits
                .len()
                .checked_add(7)
                .ok_or(Error::ArithmeticOverflow)?
                .checked_div(8)
                .ok_or(Error::ArithmeticUnderflow)?
        {
""", """        let whole_bytes = |bits: usize| -> Result<usize, Error> {
            let rounded = bits.checked_add(7).ok_or(Error::ArithmeticOverflow)?;
            Ok(rounded / 8)
        };
        if whole_bytes(traversal.bits_used)? != whole_bytes(self.merkle_proof.flag_bits.len())? {
""")],
    "o-traverse-leaf-fn": [(M, """            if traversal.hashes_used >= self.hashes.len() {
                return Err(Error::MalformedMerkleProof);
            }
            let hash = self.hashes[traversal.hashes_used];
            if height == 0 && parent_of_hash {
                // in case of height 0, we have a matched txid
                traversal.merkle_position = Some(pos);
                traversal.hash_position = Some(traversal.hashes_used);
            }
            traversal.hashes_used = traversal.hashes_used.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
            return Ok(hash);
""", """            let hash_index = traversal.hashes_used;
            let hash = self.hashes.get(hash_index).copied().ok_or(Error::MalformedMerkleProof)?;
            traversal.hashes_used = hash_index.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
            if parent_of_hash && height == 0 {
                traversal.merkle_position.replace(pos);
                traversal.hash_position.replace(hash_index);
            }
            return Ok(hash);
""")],
    "o-traverse-struct": [(M, """        let parent_of_hash = *self.flag_bits.get(traversal.bits_used).ok_or(Error::EndOfFile)?;
        traversal.bits_used = traversal.bits_used.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
""", """        let parent_of_hash = traversal.next_bit(&self.flag_bits)?;
"""), (M, """impl MerkleTree {
""", """impl MerkleProofTraversal {
    fn next_bit(&mut self, bits: &[bool]) -> Result<bool, Error> {
        match bits.get(self.bits_used) {
            Some(&bit) => {
                self.bits_used = self.bits_used.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
                Ok(bit)
            }
            None => Err(Error::EndOfFile),
        }
    }
}

impl MerkleTree {
""")],
    "o-build-min": [(M, """        let mut parent_of_match = false;
        let mut p = pos << height;
        while p < (pos + 1) << height && p < self.transactions_count {
            parent_of_match |= matches[p as usize];
            p += 1;
        }
""", """        let first = pos << height;
        let end = ((pos + 1) << height).min(self.transactions_count);
        let parent_of_match = (first..end).any(|p| matches[p as usize]);
""")],
    # --- parser
    "o-int-get": [(P, """                if position + $bytes > raw_bytes.len() {
                    return Err(Error::EndOfFile);
                }
                let mut value_bytes: [u8; $bytes] = Default::default();
                value_bytes.copy_from_slice(&raw_bytes[position..position + $bytes]);
                Ok((<$type>::from_le_bytes(value_bytes), $bytes))
""", """                let end = position.checked_add($bytes).ok_or(Error::EndOfFile)?;
                let mut value_bytes = [0u8; $bytes];
                value_bytes.copy_from_slice(raw_bytes.get(position..end).ok_or(Error::EndOfFile)?);
                Ok((<$type>::from_le_bytes(value_bytes), $bytes))
""")],
    "o-int-tryinto": [(P, """                if position + $bytes > raw_bytes.len() {
                    return Err(Error::EndOfFile);
                }
                let mut value_bytes: [u8; $bytes] = Default::default();
                value_bytes.copy_from_slice(&raw_bytes[position..position + $bytes]);
                Ok((<$type>::from_le_bytes(value_bytes), $bytes))
""", """                raw_bytes
                    .get(position..position + $bytes)
                    .and_then(|slice| slice.try_into().ok())
                    .map(|value_bytes| (<$type>::from_le_bytes(value_bytes), $bytes))
                    .ok_or(Error::EndOfFile)
""")],
    "o-header-direct": [(P, """    let block_header = BlockHeader {
        merkle_root,
        target,
        timestamp,
        version,
        hash_prev_block,
        nonce,
        hash,
    };

    Ok(block_header)
""", """    Ok(BlockHeader {
        version,
        hash_prev_block,
        merkle_root,
        timestamp,
        target,
        nonce,
        hash,
    })
""")],
    "o-header-fields": [(P, """    let mut parser = BytesParser::new(bytes);
    let version: i32 = parser.parse()?;
    let hash_prev_block: H256Le = parser.parse()?;
    let merkle_root: H256Le = parser.parse()?;
    let timestamp: u32 = parser.parse()?;
    let target: U256 = parser.parse()?;
    let nonce: u32 = parser.parse()?;
    let hash: H256Le = sha256d_le(bytes);

    let block_header = BlockHeader {
        merkle_root,
        target,
        timestamp,
        version,
        hash_prev_block,
        nonce,
        hash,
    };

    Ok(block_header)
""", """    let mut parser = BytesParser::new(bytes);
    Ok(BlockHeader {
        version: parser.parse()?,
        hash_prev_block: parser.parse()?,
        merkle_root: parser.parse()?,
        timestamp: parser.parse()?,
        target: parser.parse()?,
        nonce: parser.parse()?,
        hash: sha256d_le(bytes),
    })
""")],
    "o-vec-trycollect": [(P, """        let count: CompactUint = parser.parse()?;
        for _ in 0..count.value {
            result.push(parser.parse_with(extra)?);
        }
        Ok((result, parser.position))
""", """        let CompactUint { value: count } = parser.parse()?;
        let mut parsed = 0;
        while parsed < count {
            result.push(parser.parse_with(extra)?);
            parsed += 1;
        }
        Ok((result, parser.position))
""")],
    "o-bool-vec": [(P, """        let mut flag_bits = Vec::new();
        for i in 0..8 {
            let mask = 1 << i;
            let bit = (byte & mask) != 0;
            flag_bits.push(bit);
        }
        Ok((flag_bits, 1))
""", """        let flag_bits = (0..8).map(|i| (byte >> i) & 1 == 1).collect();
        Ok((flag_bits, 1))
""")],
    "o-tx-flags-match": [(P, """        let mut flags: u8 = 0;
        if inputs.is_empty() && allow_witness {
            flags = parser.parse()?;
            inputs = parser.parse_with(version)?;
        }
""", """        let mut flags: u8 = if allow_witness && inputs.is_empty() {
            let marker_flags = parser.parse()?;
            inputs = parser.parse_with(version)?;
            marker_flags
        } else {
            0
        };
""")],
    "o-tx-wit-const": [(P, """        if (flags & 1) != 0 && allow_witness {
            flags ^= 1;
            for input in &mut inputs {
                input.with_witness(parser.parse()?);
            }

            if inputs.iter().all(|input| input.witness.is_empty()) {
""", """        if allow_witness && flags & WITNESS_FLAG == WITNESS_FLAG {
            flags &= !WITNESS_FLAG;
            let mut has_witness = false;
            for input in inputs.iter_mut() {
                let witness: Vec<Vec<u8>> = parser.parse()?;
                has_witness |= !witness.is_empty();
                input.with_witness(witness);
            }

            if !has_witness {
"""), (P, "const SERIALIZE_TRANSACTION_NO_WITNESS: i32 = 0x4000_0000;\n", "const SERIALIZE_TRANSACTION_NO_WITNESS: i32 = 0x4000_0000;\nconst WITNESS_FLAG: u8 = 1;\n")],
    "o-tx-assemble": [(P, """        // https://en.bitcoin.it/wiki/NLockTime
        let locktime_or_blockheight: u32 = parser.parse()?;
        let lock_at = if locktime_or_blockheight < LOCKTIME_THRESHOLD {
            LockTime::BlockHeight(locktime_or_blockheight)
        } else {
            LockTime::Time(locktime_or_blockheight)
        };

        if flags != 0 {
            return Err(Error::MalformedTransaction);
        }

        Ok((
            Transaction {
                version,
                inputs,
                outputs,
                lock_at,
            },
            parser.position,
        ))
""", """        // https://en.bitcoin.it/wiki/NLockTime
        let lock_at = match parser.parse::<u32>()? {
            height @ 0..=499_999_999 => LockTime::BlockHeight(height),
            time => LockTime::Time(time),
        };

        match flags {
            0 => {
                let transaction = Transaction {
                    version,
                    inputs,
                    outputs,
                    lock_at,
                };
                Ok((transaction, parser.position))
            }
            _ => Err(Error::MalformedTransaction),
        }
""")],
    "o-u256-use": [(P, """        if position + 4 > raw_bytes.len() {
            return Err(Error::EndOfFile);
        }

        let mut bytes: [u8; 4] = Default::default();
        bytes.copy_from_slice(&raw_bytes[position..position + 4]);

        let bits = u32::from_le_bytes(bytes);
        let compact = U256::set_compact(bits).ok_or(Error::InvalidCompact)?;
        Ok((compact, 4))
""", """        let (bits, consumed) = <u32 as Parsable>::parse(raw_bytes, position)?;
        match U256::set_compact(bits) {
            Some(target) => Ok((target, consumed)),
            None => Err(Error::InvalidCompact),
        }
""")],
    "o-parser-advance": [(P, """        let (result, bytes_consumed) = T::parse(&self.raw_bytes, self.position)?;
        self.position = self
            .position
            .checked_add(bytes_consumed)
            .ok_or(Error::ArithmeticOverflow)?;
        Ok(result)
""", """        T::parse(&self.raw_bytes, self.position).and_then(|(result, bytes_consumed)| {
            let next = self.position.checked_add(bytes_consumed);
            self.position = next.ok_or(Error::ArithmeticOverflow)?;
            Ok(result)
        })
""")],
    "o-read-split": [(P, """        let bytes = self.raw_bytes.get(self.position..end).ok_or(Error::EndOfFile)?;
        self.position = end;
        Ok(Vec::from(bytes))
""", """        if end > self.raw_bytes.len() {
            return Err(Error::EndOfFile);
        }
        let start = core::mem::replace(&mut self.position, end);
        Ok(self.raw_bytes[start..end].to_vec())
""")],
    "o-input-zero": [(P, """    let is_coinbase = previous_hash == H256Le::zero();
""", """    let is_coinbase = previous_hash.is_zero();
""")],
    "o-input-height-iter": [(P, """            let mut buffer = [0u8; 4];
            // fail if the height does not fit in four bytes
            if height_size > buffer.len() as u64 {
                return Err(Error::MalformedTransaction);
            }
            let bytes = parser.read(height_size as usize)?;
            buffer[..(height_size as usize)]
                .copy_from_slice(bytes.get(0..(height_size as usize)).ok_or(Error::EndOfFile)?);
            Some(u32::from_le_bytes(buffer))
""", """            // fail if the height does not fit in four bytes
            if height_size > 4 {
                return Err(Error::MalformedTransaction);
            }
            let mut bytes = parser.read(height_size as usize)?;
            bytes.resize(4, 0);
            Some(u32::from_le_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]))
""")],
    "o-output-let": [(P, """    let script_size: CompactUint = parser.parse()?;
    if script_size.value > 10_000 {
        return Err(Error::MalformedTransaction);
    }
    let script = parser.read(script_size.value as usize)?;
""", """    let script_size = match parser.parse::<CompactUint>()?.value {
        size if size <= 10_000 => size as usize,
        _ => return Err(Error::MalformedTransaction),
    };
    let script = parser.read(script_size)?;
""")],
    "o-ptx-match": [(P, """    Transaction::parse(raw_transaction, 0).map(|(tx, _len)| tx)
""", """    let (transaction, _) = Transaction::parse(raw_transaction, 0)?;
    Ok(transaction)
""")],
    # --- pow / math
    "o-pow-consts": [(W, """    let mut actual_timespan = last_block_time.saturating_sub(first_block_time);

    if actual_timespan < TARGET_TIMESPAN / TARGET_TIMESPAN_DIVISOR {
        actual_timespan = TARGET_TIMESPAN / TARGET_TIMESPAN_DIVISOR;
    }

    if actual_timespan > TARGET_TIMESPAN * TARGET_TIMESPAN_DIVISOR {
        actual_timespan = TARGET_TIMESPAN * TARGET_TIMESPAN_DIVISOR;
    }

    let target = previous_target * actual_timespan;
    let target = target / TARGET_TIMESPAN;

    // ensure target does not exceed max
    if target > UNROUNDED_MAX_TARGET {
        UNROUNDED_MAX_TARGET
    } else {
        target
    }
    .get_compact()
    .ok_or(Error::InvalidCompact)
""", """    const SHORTEST: u64 = TARGET_TIMESPAN / TARGET_TIMESPAN_DIVISOR;
    const LONGEST: u64 = TARGET_TIMESPAN * TARGET_TIMESPAN_DIVISOR;
    let actual_timespan = match last_block_time.saturating_sub(first_block_time) {
        timespan if timespan < SHORTEST => SHORTEST,
        timespan if timespan > LONGEST => LONGEST,
        timespan => timespan,
    };

    let scaled = previous_target * actual_timespan / TARGET_TIMESPAN;
    let next_target = core::cmp::min(scaled, UNROUNDED_MAX_TARGET);
    match next_target.get_compact() {
        Some(bits) => Ok(bits),
        None => Err(Error::InvalidCompact),
    }
""")],
    "o-get-match": [(A, """        if !(compact & !0x007fffff == 0) {
            None
        } else if !(size < 256) {
            None
        } else {
            Some(compact | (size << 24) as u32)
        }
""", """        let fits = compact & 0xff800000 == 0 && size <= 0xff;
        fits.then(|| compact | ((size as u32) << 24))
""")],
    "o-get-size": [(A, """        let mut size = (self.bits() + 7) / 8;
        let mut compact = if size <= 3 {
            (self.low_u64() << (8 * (3 - size))) as u32
        } else {
            let bn = self >> (8 * (size - 3));
            bn.low_u32()
        };

        if (compact & 0x00800000) != 0 {
            compact >>= 8;
            size += 1;
        }
""", """        const SIGN_BIT: u32 = 0x0080_0000;
        let bytes = (self.bits() + 7) / 8;
        let mantissa = if bytes > 3 {
            (self >> (8 * (bytes - 3))).low_u32()
        } else {
            (self.low_u64() << (8 * (3 - bytes))) as u32
        };

        let (compact, size) = if mantissa & SIGN_BIT == 0 {
            (mantissa, bytes)
        } else {
            (mantissa >> 8, bytes + 1)
        };
""")],
    # --- script
    "o-height-trunc": [(S, """        for i in (1..4).rev() {
            // remove trailing zeroes, but always keep first byte even if it's zero
            if height_bytes[i] == 0 {
                height_bytes.remove(i);
            } else {
                break;
            }
        }
""", """        // remove trailing zeroes, but always keep first byte even if it's zero
        while height_bytes.len() > 1 && height_bytes.last() == Some(&0) {
            height_bytes.pop();
        }
""")],
    "o-height-sign": [(S, """        if let Some(x) = height_bytes.last() {
            if (x & 0x80) != 0 {
                height_bytes.push(0);
            }
        }
""", """        let negative = height_bytes.last().map_or(false, |byte| byte >> 7 == 1);
        if negative {
            height_bytes.push(0);
        }
""")],
    "o-p2wsh-bytes": [(S, """        self.len() == P2WSH_V0_SCRIPT_SIZE as usize
            && self.bytes[0] == OpCode::Op0 as u8
            && self.bytes[1] == HASH256_SIZE_HEX
""", """        if self.len() != P2WSH_V0_SCRIPT_SIZE as usize {
            return false;
        }
        self.bytes.starts_with(&[OpCode::Op0 as u8, HASH256_SIZE_HEX])
""")],
    "o-p2pkh-slice": [(S, """        self.len() == P2PKH_SCRIPT_SIZE as usize
            && self.bytes[0] == OpCode::OpDup as u8
            && self.bytes[1] == OpCode::OpHash160 as u8
            && self.bytes[2] == HASH160_SIZE_HEX
            && self.bytes[23] == OpCode::OpEqualVerify as u8
            && self.bytes[24] == OpCode::OpCheckSig as u8
""", """        self.len() == P2PKH_SCRIPT_SIZE as usize
            && self.bytes[..3] == [OpCode::OpDup as u8, OpCode::OpHash160 as u8, HASH160_SIZE_HEX]
            && self.bytes[23..] == [OpCode::OpEqualVerify as u8, OpCode::OpCheckSig as u8]
""")],
    # --- formatter
    "o-cuint-prefix": [(F, """        if self.value < 0xfd {
            (self.value as u8).try_format(w)?;
        } else if self.value <= u16::MAX as u64 {
            0xfd_u8.try_format(w)?;
            (self.value as u16).try_format(w)?;
        } else if self.value <= u32::MAX as u64 {
            0xfe_u8.try_format(w)?;
            (self.value as u32).try_format(w)?;
        } else {
            0xff_u8.try_format(w)?;
            self.value.try_format(w)?;
        }
        Ok(())
""", """        let (prefix, width) = match self.value {
            0..=0xfc => return w.write(&[self.value as u8]),
            0xfd..=0xffff => (0xfd_u8, 2),
            0x1_0000..=0xffff_ffff => (0xfe, 4),
            _ => (0xff, 8),
        };
        w.write(&[prefix])?;
        w.write(&self.value.to_le_bytes()[..width])
""")],
    "o-tx-shared": [(F, """        if !self.has_witness() {
            self.inputs.try_format(w)?;
            self.outputs.try_format(w)?;
        } else {
            WITNESS_MARKER.try_format(w)?;
            WITNESS_FLAG.try_format(w)?;
            self.inputs.try_format(w)?;
            self.outputs.try_format(w)?;
            for input in self.inputs.iter() {
                input.witness.try_format(w)?;
            }
        }

        self.lock_at.try_format(w)?;
        Ok(())
""", """        let has_witness = self.has_witness();
        if has_witness {
            w.write(&[WITNESS_MARKER, WITNESS_FLAG])?;
        }
        self.inputs.try_format(w)?;
        self.outputs.try_format(w)?;
        if has_witness {
            self.inputs.iter().try_for_each(|input| input.witness.try_format(w))?;
        }
        self.lock_at.try_format(w)
""")],
    "o-proof-chunks": [(F, """        let len = self
            .flag_bits
            .len()
            .checked_add(7)
            .ok_or(Error::ArithmeticOverflow)?
            .checked_div(8)
            .ok_or(Error::ArithmeticUnderflow)?;
        let mut bytes: Vec<u8> = vec![0; len];
        for p in 0..self.flag_bits.len() {
            bytes[p.checked_div(8).ok_or(Error::ArithmeticUnderflow)?] |= (self.flag_bits[p] as u8) << (p % 8) as u8;
        }
        bytes.try_format(w)?;
        Ok(())
""", """        let mut bytes = vec![0u8; (self.flag_bits.len() + 7) / 8];
        for (p, &bit) in self.flag_bits.iter().enumerate() {
            if bit {
                bytes[p / 8] |= 1 << (p % 8);
            }
        }
        bytes.try_format(w)
""")],
    "o-reduce-match": [(F, """        self.length_bound
            .checked_sub(bytes)
            .map(|new_self| self.length_bound = new_self)
            .ok_or(Error::BoundExceeded)
""", """        if bytes > self.length_bound {
            return Err(Error::BoundExceeded);
        }
        self.length_bound -= bytes;
        Ok(())
""")],
    "o-vec-foreach": [(F, """        for value in self.iter() {
            value.try_format(w)?;
        }
        Ok(())
    }
}

impl TryFormat for TransactionInput {
""", """        self.iter().try_for_each(|value| value.try_format(w))
    }
}

impl TryFormat for TransactionInput {
""")],
    # --- utils / types / address
    "o-sha-chain": [(U, """    let mut hasher = Sha256::default();
    hasher.input(bytes);
    let digest = hasher.result();

    let mut second_hasher = Sha256::default();
    second_hasher.input(digest);

    let mut ret = [0; 32];
    ret.copy_from_slice(&second_hasher.result()[..]);
    ret
""", """    let first = Sha256::digest(bytes);
    let second = Sha256::digest(&first);
    second.into()
""")],
    "o-step-concat": [(U, """    let mut res: Vec<u8> = vec![];
    res.extend(a);
    res.extend(b);
    H256Le::from_bytes_le(&sha256d(&res))
""", """    sha256d_le(&[a, b].concat())
""")],
    "o-wit-find": [(T, "        self.inputs.iter().any(|v| !v.witness.is_empty())\n", "        self.inputs.iter().find(|input| input.witness.len() > 0).is_some()\n")],
    "o-coinbase-slice": [(T, """        self.inputs.len() == 1
            && matches!(
                self.inputs.get(0),
                Some(&TransactionInput {
                    source: TransactionInputSource::Coinbase(_),
                    ..
                })
            )
""", """        match self.inputs.as_slice() {
            [input] => matches!(input.source, TransactionInputSource::Coinbase(_)),
            _ => false,
        }
""")],
    "o-proof-once": [(T, """        let mut tx_ids = Vec::with_capacity(self.transactions.len());
        for tx in self.transactions.iter() {
            tx_ids.push(tx.tx_id());
        }

        let matches: Vec<bool> = self
            .transactions
            .iter()
            .map(|tx| include.contains(&tx.tx_id()))
            .collect();
""", """        let tx_ids: Vec<H256Le> = self.transactions.iter().map(Transaction::tx_id).collect();
        let matches: Vec<bool> = tx_ids.iter().map(|tx_id| include.contains(tx_id)).collect();
""")],
    "o-tobe": [(T, """        let mut content: [u8; 32] = Default::default();
        content.copy_from_slice(&reverse_endianness(&self.content[..]));
        content
""", """        let mut content = self.to_bytes_le();
        content.reverse();
        content
""")],
    "o-fromint": [(T, """                for i in 0..le_bytes.len() {
                    bytes[i] = le_bytes[i];
                }
""", """                bytes[..le_bytes.len()].copy_from_slice(&le_bytes);
""")],
    "o-spk-helper": [(D, """            Self::P2SH(script_hash) => {
                let mut script = Script::new();
                script.append(OpCode::OpHash160);
                script.append(HASH160_SIZE_HEX);
                script.append(script_hash);
                script.append(OpCode::OpEqual);
                script
            }
            Self::P2WPKHv0(pub_key_hash) => {
                let mut script = Script::new();
                script.append(OpCode::Op0);
                script.append(HASH160_SIZE_HEX);
                script.append(pub_key_hash);
                script
            }
            Self::P2WSHv0(script_hash) => {
                let mut script = Script::new();
                script.append(OpCode::Op0);
                script.append(HASH256_SIZE_HEX);
                script.append(script_hash);
                script
            }
""", """            Self::P2SH(script_hash) => {
                let mut script = Script::new();
                script.append(OpCode::OpHash160);
                script.append(HASH160_SIZE_HEX);
                script.append(script_hash);
                script.append(OpCode::OpEqual);
                script
            }
            Self::P2WPKHv0(pub_key_hash) => Self::witness_v0(HASH160_SIZE_HEX, pub_key_hash.as_bytes()),
            Self::P2WSHv0(script_hash) => Self::witness_v0(HASH256_SIZE_HEX, script_hash.as_bytes()),
"""), (D, """    pub fn is_zero(&self) -> bool {
        match self {
            Self::P2PKH""", """    fn witness_v0(size: u8, program: &[u8]) -> Script {
        let mut script = Script::new();
        script.append(OpCode::Op0);
        script.append(size);
        script.append(program);
        script
    }

    pub fn is_zero(&self) -> bool {
        match self {
            Self::P2PKH""")],
    "o-spk-predicates": [(D, """        match bytes {
            &[OP_DUP, OP_HASH_160, HASH160_SIZE_HEX, ref addr @ .., OP_EQUAL_VERIFY, OP_CHECK_SIG]
                if addr.len() == HASH160_SIZE_HEX as usize =>
            {
                Ok(Self::P2PKH(H160::from_slice(addr)))
            }
            &[OP_HASH_160, HASH160_SIZE_HEX, ref addr @ .., OP_EQUAL] if addr.len() == HASH160_SIZE_HEX as usize => {
                Ok(Self::P2SH(H160::from_slice(addr)))
            }
            &[OP_0, HASH256_SIZE_HEX, ref addr @ ..] if addr.len() == HASH256_SIZE_HEX as usize => {
                Ok(Self::P2WSHv0(H256::from_slice(addr)))
            }
            &[OP_0, HASH160_SIZE_HEX, ref addr @ ..] if addr.len() == HASH160_SIZE_HEX as usize => {
                Ok(Self::P2WPKHv0(H160::from_slice(addr)))
            }
            _ => Err(Error::InvalidBtcAddress),
        }
""", """        let _ = (OP_DUP, OP_HASH_160, OP_EQUAL_VERIFY, OP_CHECK_SIG, OP_EQUAL, OP_0);
        if script.is_p2pkh() {
            Ok(Self::P2PKH(H160::from_slice(&bytes[3..23])))
        } else if script.is_p2sh() {
            Ok(Self::P2SH(H160::from_slice(&bytes[2..22])))
        } else if script.is_p2wsh_v0() {
            Ok(Self::P2WSHv0(H256::from_slice(&bytes[2..])))
        } else if script.is_p2wpkh_v0() {
            Ok(Self::P2WPKHv0(H160::from_slice(&bytes[2..])))
        } else {
            Err(Error::InvalidBtcAddress)
        }
""")],
    "o-fromspk-order": [(D, """            &[OP_0, HASH256_SIZE_HEX, ref addr @ ..] if addr.len() == HASH256_SIZE_HEX as usize => {
                Ok(Self::P2WSHv0(H256::from_slice(addr)))
            }
            &[OP_0, HASH160_SIZE_HEX, ref addr @ ..] if addr.len() == HASH160_SIZE_HEX as usize => {
                Ok(Self::P2WPKHv0(H160::from_slice(addr)))
            }
""", """            &[OP_0, size, ref addr @ ..] if addr.len() == size as usize => match size {
                HASH160_SIZE_HEX => Ok(Self::P2WPKHv0(H160::from_slice(addr))),
                HASH256_SIZE_HEX => Ok(Self::P2WSHv0(H256::from_slice(addr))),
                _ => Err(Error::InvalidBtcAddress),
            },
""")],
}
