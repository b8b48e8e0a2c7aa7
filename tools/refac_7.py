"""more behaviour-preserving edits of the Bitcoin library, primitives and contracts"""
B = "crates/bitcoin/src/"
PA, TY, ME, FO, MA, PW, SC, AD, UT = (B + x + ".rs" for x in ("parser", "types", "merkle", "formatter", "math", "pow", "script", "address", "utils"))
PR, CO, HE = "primitives/src/lib.rs", "contracts/btc_swap/lib.rs", "contracts/hello_world/lib.rs"
R = REFS = {}

# ---- parser
R["g-int-get"] = [(PA, """                if position + $bytes > raw_bytes.len() {
                    return Err(Error::EndOfFile);
                }
                let mut value_bytes: [u8; $bytes] = Default::default();
                value_bytes.copy_from_slice(&raw_bytes[position..position + $bytes]);
                Ok((<$type>::from_le_bytes(value_bytes), $bytes))
""", """                let end = position + $bytes;
                let source = raw_bytes.get(position..end).ok_or(Error::EndOfFile)?;
                let mut value_bytes = [0u8; $bytes];
                value_bytes.copy_from_slice(source);
                let value = <$type>::from_le_bytes(value_bytes);
                Ok((value, $bytes))
""")]
R["g-int-acc"] = [(PA, """                let mut value_bytes: [u8; $bytes] = Default::default();
                value_bytes.copy_from_slice(&raw_bytes[position..position + $bytes]);
                Ok((<$type>::from_le_bytes(value_bytes), $bytes))
""", """                let mut value_bytes = [0u8; $bytes];
                for (i, b) in value_bytes.iter_mut().enumerate() {
                    *b = raw_bytes[position + i];
                }
                Ok((<$type>::from_le_bytes(value_bytes), $bytes))
""")]
R["g-vec-while"] = [(PA, """        let count: CompactUint = parser.parse()?;
        for _ in 0..count.value {
            result.push(parser.parse_with(extra)?);
        }
        Ok((result, parser.position))
""", """        let mut remaining = parser.parse::<CompactUint>()?.value;
        while remaining > 0 {
            let item = parser.parse_with(extra)?;
            result.push(item);
            remaining -= 1;
        }
        Ok((result, parser.position))
""")]
R["g-vec-while2"] = [(PA, """        let count: CompactUint = parser.parse()?;
        for _ in 0..count.value {
            result.push(parser.parse()?);
        }
        Ok((result, parser.position))
""", """        let count: CompactUint = parser.parse()?;
        let mut i = 0u64;
        while i < count.value {
            result.push(parser.parse()?);
            i += 1;
        }
        Ok((result, parser.position))
""")]
R["g-vecbool-shift"] = [(PA, """        for i in 0..8 {
            let mask = 1 << i;
            let bit = (byte & mask) != 0;
            flag_bits.push(bit);
        }
""", """        for i in 0..8 {
            flag_bits.push((byte >> i) & 1 == 1);
        }
""")]
R["g-vecbool-while"] = [(PA, """        for i in 0..8 {
            let mask = 1 << i;
            let bit = (byte & mask) != 0;
            flag_bits.push(bit);
        }
""", """        let mut rest = byte;
        for _ in 0..8 {
            flag_bits.push(rest & 1 != 0);
            rest >>= 1;
        }
""")]
R["g-tx-locktime-helper"] = [(PA, """        let lock_at = if locktime_or_blockheight < LOCKTIME_THRESHOLD {
            LockTime::BlockHeight(locktime_or_blockheight)
        } else {
            LockTime::Time(locktime_or_blockheight)
        };

        if flags != 0 {
            return Err(Error::MalformedTransaction);
        }

        Ok((
            Transaction {
                version,
                inputs,
                outputs,
                lock_at,
            },
            parser.position,
        ))
    }
}
""", """
        if flags != 0 {
            return Err(Error::MalformedTransaction);
        }

        let transaction = Transaction {
            version,
            inputs,
            outputs,
            lock_at: classify_lock_time(locktime_or_blockheight),
        };
        Ok((transaction, parser.position))
    }
}

fn classify_lock_time(raw: u32) -> LockTime {
    match raw {
        height if height < LOCKTIME_THRESHOLD => LockTime::BlockHeight(height),
        time => LockTime::Time(time),
    }
}
""")]
R["g-tx-witness-fn"] = [(PA, """            flags ^= 1;
            for input in &mut inputs {
                input.with_witness(parser.parse()?);
            }

            if inputs.iter().all(|input| input.witness.is_empty()) {
""", """            flags ^= 1;
            let mut found = false;
            for input in inputs.iter_mut() {
                let witness: Vec<Vec<u8>> = parser.parse()?;
                found = found || !witness.is_empty();
                input.witness = witness;
            }

            if !found {
""")]
R["g-tx-reorder"] = [(PA, """        // https://en.bitcoin.it/wiki/NLockTime
        let locktime_or_blockheight: u32 = parser.parse()?;
""", """        // https://en.bitcoin.it/wiki/NLockTime
        let raw_lock: u32 = parser.parse()?;
        let locktime_or_blockheight = raw_lock;
"""), (PA, """        if version != 1 && version != 2 {
            return Err(Error::MalformedTransaction);
        }

        let allow_witness""", """        let supported = version == 1 || version == 2;
        if !supported {
            return Err(Error::MalformedTransaction);
        }

        let allow_witness""")]
R["g-tx-const"] = [(PA, """        // fail if incorrect version: we only support version 1 and 2
        if version != 1 && version != 2 {
""", """        // fail if incorrect version: we only support version 1 and 2
        const SUPPORTED: [i32; 2] = [1, 2];
        if !SUPPORTED.contains(&version) {
""")]
R["g-input-buffer"] = [(PA, """            let mut buffer = [0u8; 4];
            // fail if the height does not fit in four bytes
            if height_size > buffer.len() as u64 {
                return Err(Error::MalformedTransaction);
            }
            let bytes = parser.read(height_size as usize)?;
            buffer[..(height_size as usize)]
                .copy_from_slice(bytes.get(0..(height_size as usize)).ok_or(Error::EndOfFile)?);
            Some(u32::from_le_bytes(buffer))
""", """            const MAX_HEIGHT_BYTES: usize = 4;
            // fail if the height does not fit in four bytes
            if height_size > MAX_HEIGHT_BYTES as u64 {
                return Err(Error::MalformedTransaction);
            }
            let bytes = parser.read(height_size as usize)?;
            let mut buffer = [0u8; MAX_HEIGHT_BYTES];
            buffer[..bytes.len()].copy_from_slice(&bytes);
            Some(u32::from_le_bytes(buffer))
""")]
R["g-input-fold"] = [(PA, """            let bytes = parser.read(height_size as usize)?;
            buffer[..(height_size as usize)]
                .copy_from_slice(bytes.get(0..(height_size as usize)).ok_or(Error::EndOfFile)?);
            Some(u32::from_le_bytes(buffer))
""", """            let bytes = parser.read(height_size as usize)?;
            for (slot, byte) in buffer.iter_mut().zip(bytes.iter()) {
                *slot = *byte;
            }
            Some(u32::from_le_bytes(buffer))
""")]
R["g-input-size-match"] = [(PA, """            script_size = height_size
                .checked_add(1)
                .and_then(|size| script_size.checked_sub(size))
                .ok_or(Error::EndOfFile)?;
""", """            let consumed = match height_size.checked_add(1) {
                Some(size) => size,
                None => return Err(Error::EndOfFile),
            };
            script_size = script_size.checked_sub(consumed).ok_or(Error::EndOfFile)?;
""")]
R["g-output-helper"] = [(PA, """    let script_size: CompactUint = parser.parse()?;
    if script_size.value > 10_000 {
        return Err(Error::MalformedTransaction);
    }
    let script = parser.read(script_size.value as usize)?;
    Ok((
        TransactionOutput {
            value,
            script: script.into(),
        },
        parser.position,
    ))
}
""", """    let script = parse_output_script(&mut parser)?;
    Ok((TransactionOutput { value, script }, parser.position))
}

fn parse_output_script(parser: &mut BytesParser) -> Result<crate::Script, Error> {
    let size = parser.parse::<CompactUint>()?.value;
    match size {
        0..=10_000 => Ok(parser.read(size as usize)?.into()),
        _ => Err(Error::MalformedTransaction),
    }
}
""")]
R["g-parser-advance"] = [(PA, """        let (result, bytes_consumed) = T::parse(&self.raw_bytes, self.position)?;
        self.position = self
            .position
            .checked_add(bytes_consumed)
            .ok_or(Error::ArithmeticOverflow)?;
        Ok(result)
    }

    /// This is""", """        let (result, bytes_consumed) = T::parse(&self.raw_bytes, self.position)?;
        match self.position.checked_add(bytes_consumed) {
            Some(next) => self.position = next,
            None => return Err(Error::ArithmeticOverflow),
        }
        Ok(result)
    }

    /// This is""")]
R["g-read-slice"] = [(PA, """        let bytes = self.raw_bytes.get(self.position..end).ok_or(Error::EndOfFile)?;
        self.position = end;
        Ok(Vec::from(bytes))
""", """        if end > self.raw_bytes.len() || self.position > end {
            return Err(Error::EndOfFile);
        }
        let bytes = self.raw_bytes[self.position..end].to_vec();
        self.position = end;
        Ok(bytes)
""")]
R["g-parse-tx"] = [(PA, "    Transaction::parse(raw_transaction, 0).map(|(tx, _len)| tx)\n", "    let (transaction, _) = Transaction::parse(raw_transaction, 0)?;\n    Ok(transaction)\n")]
R["g-header-direct"] = [(PA, """    let hash: H256Le = sha256d_le(bytes);

    let block_header = BlockHeader {
        merkle_root,
        target,
        timestamp,
        version,
        hash_prev_block,
        nonce,
        hash,
    };

    Ok(block_header)
""", """
    Ok(BlockHeader {
        hash: sha256d_le(bytes),
        version,
        hash_prev_block,
        merkle_root,
        timestamp,
        target,
        nonce,
    })
""")]
R["g-cuint-helper2"] = [(PA, """    match varint.get(0).ok_or(Error::EndOfFile)? {
        0xfd => {""", """    let first = varint.first().ok_or(Error::EndOfFile)?;
    match first {
        0xfd => {""")]

# ---- merkle
R["g-height-loop2"] = [(ME, """        let mut height = 0;
        while Self::compute_width(transactions_count, height) > 1 {
            height += 1;
        }
        height
""", """        let mut height = 0;
        loop {
            if Self::compute_width(transactions_count, height) <= 1 {
                return height;
            }
            height += 1;
        }
""")]
R["g-root-index"] = [(ME, """            let left = Self::compute_root(
                index.checked_mul(2).ok_or(Error::ArithmeticOverflow)?,
                height.checked_sub(1).ok_or(Error::ArithmeticUnderflow)?,
                transactions_count,
                hashes,
            )?;
            let right_index = index
                .checked_mul(2)
                .ok_or(Error::ArithmeticOverflow)?
                .checked_add(1)
                .ok_or(Error::ArithmeticOverflow)?;
            let right = if right_index < Self::compute_width(transactions_count, height - 1) {
                Self::compute_root(
                    right_index,
                    height.checked_sub(1).ok_or(Error::ArithmeticUnderflow)?,
                    transactions_count,
                    hashes,
                )?
            } else {
                left
            };
""", """            let child_height = height.checked_sub(1).ok_or(Error::ArithmeticUnderflow)?;
            let left_index = index.checked_mul(2).ok_or(Error::ArithmeticOverflow)?;
            let right_index = left_index.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
            let width = Self::compute_width(transactions_count, child_height);

            let left = Self::compute_root(left_index, child_height, transactions_count, hashes)?;
            let right = match right_index < width {
                true => Self::compute_root(right_index, child_height, transactions_count, hashes)?,
                false => left,
            };
""")]
R["g-verify-bytes-fn"] = [(ME, """        if traversal
            .bits_used
            .checked_add(7)
            .ok_or(Error::ArithmeticOverflow)?
            .checked_div(8)
            .ok_or(Error::ArithmeticUnderflow)?
            != self
                .merkle_proof
                .flag_bits
                .len()
                .checked_add(7)
                .ok_or(Error::ArithmeticOverflow)?
                .checked_div(8)
                .ok_or(Error::ArithmeticUnderflow)?
        {
            return Err(Error::MalformedMerkleProof);
        }
""", """        let whole_bytes = |bits: usize| -> Result<usize, Error> { Ok(bits.checked_add(7).ok_or(Error::ArithmeticOverflow)? / 8) };
        let used = whole_bytes(traversal.bits_used)?;
        let given = whole_bytes(self.merkle_proof.flag_bits.len())?;
        if used != given {
            return Err(Error::MalformedMerkleProof);
        }
""")]
R["g-verify-range"] = [(ME, """        // fail if no transactions
        if self.merkle_proof.transactions_count == 0 {
            return Err(Error::MalformedMerkleProof);
        }

        // fail if too many transactions
        if self.merkle_proof.transactions_count > MAX_TRANSACTIONS_IN_PROOF {
            return Err(Error::MalformedMerkleProof);
        }
""", """        // fail if no or too many transactions
        if !(1..=MAX_TRANSACTIONS_IN_PROOF).contains(&self.merkle_proof.transactions_count) {
            return Err(Error::MalformedMerkleProof);
        }
""")]
R["g-verify-order"] = [(ME, """        let merkle_position = traversal.merkle_position.ok_or(Error::InvalidMerkleProof)?;
        let hash_position = traversal.hash_position.ok_or(Error::InvalidMerkleProof)?;

        // fail if all hashes are not used
        if traversal.hashes_used != self.merkle_proof.hashes.len() {
            return Err(Error::MalformedMerkleProof);
        }
""", """        // fail if all hashes are not used
        if traversal.hashes_used != self.merkle_proof.hashes.len() {
            return Err(Error::MalformedMerkleProof);
        }
        let (merkle_position, hash_position) = match (traversal.merkle_position, traversal.hash_position) {
            (Some(merkle), Some(hash)) => (merkle, hash),
            _ => return Err(Error::InvalidMerkleProof),
        };
""")]
R["g-verify-matched"] = [(ME, """        // fail if the transaction hash is invalid
        if self.merkle_proof.hashes[hash_position] != tx_id {
            return Err(Error::InvalidTxid);
        }
""", """        // fail if the transaction hash is invalid
        let matched = self.merkle_proof.hashes.get(hash_position).ok_or(Error::InvalidTxid)?;
        if *matched != tx_id {
            return Err(Error::InvalidTxid);
        }
"""), (ME, "            transaction_hash: self.merkle_proof.hashes[hash_position],\n", "            transaction_hash: tx_id,\n")]
R["g-verify-default"] = [(ME, """        let mut traversal = MerkleProofTraversal {
            bits_used: 0,
            hashes_used: 0,
            merkle_position: None,
            hash_position: None,
        };
""", "        let mut traversal = MerkleProofTraversal::start();\n"), (ME, """impl PartialTransactionProof {
""", """impl MerkleProofTraversal {
    fn start() -> Self {
        Self {
            bits_used: 0,
            hashes_used: 0,
            merkle_position: None,
            hash_position: None,
        }
    }
}

impl PartialTransactionProof {
""")]
R["g-traverse-methods"] = [(ME, """            if traversal.hashes_used >= self.hashes.len() {
                return Err(Error::MalformedMerkleProof);
            }
            let hash = self.hashes[traversal.hashes_used];
            if height == 0 && parent_of_hash {
""", """            let hash = match self.hashes.get(traversal.hashes_used) {
                Some(hash) => *hash,
                None => return Err(Error::MalformedMerkleProof),
            };
            if parent_of_hash && height == 0 {
""")]
R["g-traverse-flip"] = [(ME, """        if height == 0 || !parent_of_hash {
            // if at height 0, or nothing interesting below, use stored hash and do not descend
            if traversal.hashes_used >= self.hashes.len() {
                return Err(Error::MalformedMerkleProof);
            }
            let hash = self.hashes[traversal.hashes_used];
            if height == 0 && parent_of_hash {
                // in case of height 0, we have a matched txid
                traversal.merkle_position = Some(pos);
                traversal.hash_position = Some(traversal.hashes_used);
            }
            traversal.hashes_used = traversal.hashes_used.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
            return Ok(hash);
        }

        let next_height = height.checked_sub(1).ok_or(Error::ArithmeticUnderflow)?;
        let left_index = pos.checked_mul(2).ok_or(Error::ArithmeticOverflow)?;
        let right_index = left_index.checked_add(1).ok_or(Error::ArithmeticOverflow)?;

        let left = self.traverse_and_extract(next_height, left_index, traversal)?;
        let right = if right_index < self.compute_partial_tree_width(next_height) {
            self.traverse_and_extract(next_height, right_index, traversal)?
        } else {
            left
        };

        let hashed_bytes = hash256_merkle_step(&left.to_bytes_le(), &right.to_bytes_le());
        Ok(hashed_bytes)
    }
""", """        if height > 0 && parent_of_hash {
            let next_height = height.checked_sub(1).ok_or(Error::ArithmeticUnderflow)?;
            let left_index = pos.checked_mul(2).ok_or(Error::ArithmeticOverflow)?;
            let right_index = left_index.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
            let has_right = right_index < self.compute_partial_tree_width(next_height);

            let left = self.traverse_and_extract(next_height, left_index, traversal)?;
            let mut right = left;
            if has_right {
                right = self.traverse_and_extract(next_height, right_index, traversal)?;
            }
            return Ok(hash256_merkle_step(&left.to_bytes_le(), &right.to_bytes_le()));
        }

        // at height 0, or nothing interesting below: use the stored hash and do not descend
        self.take_hash(height == 0 && parent_of_hash, pos, traversal)
    }

    fn take_hash(&self, matched: bool, pos: u32, traversal: &mut MerkleProofTraversal) -> Result<H256Le, Error> {
        let index = traversal.hashes_used;
        if index >= self.hashes.len() {
            return Err(Error::MalformedMerkleProof);
        }
        if matched {
            traversal.merkle_position = Some(pos);
            traversal.hash_position = Some(index);
        }
        traversal.hashes_used = index.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
        Ok(self.hashes[index])
    }
""")]
R["g-build-range"] = [(ME, """        let mut p = pos << height;
        while p < (pos + 1) << height && p < self.transactions_count {
            parent_of_match |= matches[p as usize];
            p += 1;
        }
""", """        let first = pos << height;
        let end = core::cmp::min((pos + 1) << height, self.transactions_count);
        for p in first..end {
            if matches[p as usize] {
                parent_of_match = true;
            }
        }
""")]
R["g-mparse-for"] = [(ME, """        let hashes_count: CompactUint = proof_parser.parse()?;
        let mut hashes = Vec::<H256Le>::new();
        for _ in 0..hashes_count.value {
            hashes.push(proof_parser.parse()?);
        }
""", """        let hashes: Vec<H256Le> = proof_parser.parse()?;
""")]
R["g-mparse-append"] = [(ME, """            flag_bits.extend(proof_parser.parse::<Vec<bool>>()?);
""", """            let mut bits: Vec<bool> = proof_parser.parse()?;
            flag_bits.append(&mut bits);
""")]

# ---- formatter
R["g-fw-match"] = [(FO, """        self.length_bound
            .checked_sub(bytes)
            .map(|new_self| self.length_bound = new_self)
            .ok_or(Error::BoundExceeded)
""", """        if bytes > self.length_bound {
            return Err(Error::BoundExceeded);
        }
        self.length_bound -= bytes;
        Ok(())
""")]
R["g-fcuint-early"] = [(FO, """        if self.value < 0xfd {
            (self.value as u8).try_format(w)?;
        } else if self.value <= u16::MAX as u64 {
""", """        if self.value < 0xfd {
            return (self.value as u8).try_format(w);
        }
        if self.value <= u16::MAX as u64 {
""")]
R["g-ftx-let"] = [(FO, """        if !self.has_witness() {
            self.inputs.try_format(w)?;
            self.outputs.try_format(w)?;
        } else {
            WITNESS_MARKER.try_format(w)?;
            WITNESS_FLAG.try_format(w)?;
            self.inputs.try_format(w)?;
            self.outputs.try_format(w)?;
            for input in self.inputs.iter() {
                input.witness.try_format(w)?;
            }
        }

        self.lock_at.try_format(w)?;
        Ok(())
""", """        let has_witness = self.has_witness();
        if has_witness {
            WITNESS_MARKER.try_format(w)?;
            WITNESS_FLAG.try_format(w)?;
        }
        self.inputs.try_format(w)?;
        self.outputs.try_format(w)?;
        if has_witness {
            self.inputs.iter().try_for_each(|input| input.witness.try_format(w))?;
        }
        self.lock_at.try_format(w)
""")]
R["g-finput-script"] = [(FO, """        if let TransactionInputSource::Coinbase(Some(height)) = self.source {
            let height_bytes = Script::height(height);
            // account for the height in version 2 blocks
            let script_len = self.script.len().saturating_add(height_bytes.len());

            CompactUint::from_usize(script_len).try_format(w)?;
            height_bytes.as_bytes().try_format(w)?;
        } else {
            CompactUint::from_usize(self.script.len()).try_format(w)?;
        }
        w.write(&self.script)?; // we already formatted the length
        self.sequence.try_format(w)?;
        Ok(())
""", """        match self.source {
            TransactionInputSource::Coinbase(Some(height)) => {
                let height_script = Script::height(height);
                let total = height_script.len().saturating_add(self.script.len());
                CompactUint { value: total as u64 }.try_format(w)?;
                w.write(&height_script.bytes)?;
            }
            _ => CompactUint::from_usize(self.script.len()).try_format(w)?,
        }
        w.write(&self.script)?; // we already formatted the length
        self.sequence.try_format(w)
""")]
R["g-fproof-enum"] = [(FO, """        for p in 0..self.flag_bits.len() {
            bytes[p.checked_div(8).ok_or(Error::ArithmeticUnderflow)?] |= (self.flag_bits[p] as u8) << (p % 8) as u8;
        }
""", """        for (p, bit) in self.flag_bits.iter().enumerate() {
            if *bit {
                bytes[p / 8] |= 1 << (p % 8);
            }
        }
""")]
R["g-flock"] = [(FO, """        match self {
            LockTime::BlockHeight(b) | LockTime::Time(b) => b.try_format(w),
        }
""", """        let raw = match self {
            LockTime::BlockHeight(height) => height,
            LockTime::Time(time) => time,
        };
        raw.try_format(w)
""")]
R["g-fbh"] = [(FO, """        self.target.try_format(w)?;
        self.nonce.try_format(w)?;
        Ok(())
""", """        self.target.try_format(w)?;
        self.nonce.try_format(w)
""")]

# ---- math / pow
R["g-set-early"] = [(MA, """        let value = if size <= 3 {
            word >>= 8 * (3 - size);
            U256::from(word)
        } else {
            let word = U256::from(word);
            word << 8 * (size - 3)
        };

        if word != 0 && (compact & 0x00800000) != 0 {
            // negative
            None
        } else if word != 0 && ((size > 34) || (word > 0xff && size > 33) || (word > 0xffff && size > 32)) {
            // overflow
            None
        } else {
            Some(value)
        }
""", """        if size <= 3 {
            word >>= 8 * (3 - size);
        }
        let negative = word != 0 && (compact & 0x00800000) != 0;
        let overflow = word != 0 && ((size > 34) || (word > 0xff && size > 33) || (word > 0xffff && size > 32));
        if negative || overflow {
            return None;
        }

        if size <= 3 {
            Some(U256::from(word))
        } else {
            Some(U256::from(word) << 8 * (size - 3))
        }
""")]
R["g-get-flat"] = [(MA, """        if !(compact & !0x007fffff == 0) {
            None
        } else if !(size < 256) {
            None
        } else {
            Some(compact | (size << 24) as u32)
        }
""", """        let fits = compact & !0x007fffff == 0 && size < 256;
        fits.then(|| compact | (size << 24) as u32)
""")]
R["g-get-flat2"] = [(MA, """        if !(compact & !0x007fffff == 0) {
            None
        } else if !(size < 256) {
            None
        } else {
            Some(compact | (size << 24) as u32)
        }
""", """        if (compact & !0x007fffff) != 0 || size >= 256 {
            return None;
        }
        Some(compact | (size << 24) as u32)
""")]
R["g-pow-consts"] = [(PW, """    let mut actual_timespan = last_block_time.saturating_sub(first_block_time);

    if actual_timespan < TARGET_TIMESPAN / TARGET_TIMESPAN_DIVISOR {
        actual_timespan = TARGET_TIMESPAN / TARGET_TIMESPAN_DIVISOR;
    }

    if actual_timespan > TARGET_TIMESPAN * TARGET_TIMESPAN_DIVISOR {
        actual_timespan = TARGET_TIMESPAN * TARGET_TIMESPAN_DIVISOR;
    }

    let target = previous_target * actual_timespan;
    let target = target / TARGET_TIMESPAN;

    // ensure target does not exceed max
    if target > UNROUNDED_MAX_TARGET {
        UNROUNDED_MAX_TARGET
    } else {
        target
    }
    .get_compact()
    .ok_or(Error::InvalidCompact)
}
""", """    let target = previous_target * bounded_timespan(first_block_time, last_block_time) / TARGET_TIMESPAN;
    // ensure target does not exceed max
    let bounded = target.min(UNROUNDED_MAX_TARGET);
    match bounded.get_compact() {
        Some(compact) => Ok(compact),
        None => Err(Error::InvalidCompact),
    }
}

fn bounded_timespan(first_block_time: u64, last_block_time: u64) -> u64 {
    const SHORTEST: u64 = TARGET_TIMESPAN / TARGET_TIMESPAN_DIVISOR;
    const LONGEST: u64 = TARGET_TIMESPAN * TARGET_TIMESPAN_DIVISOR;
    let elapsed = last_block_time.saturating_sub(first_block_time);
    if elapsed < SHORTEST {
        SHORTEST
    } else if elapsed > LONGEST {
        LONGEST
    } else {
        elapsed
    }
}
""")]

# ---- script / address / utils
R["g-sh-iter"] = [(SC, """        if let Some(x) = height_bytes.last() {
            if (x & 0x80) != 0 {
                height_bytes.push(0);
            }
        }
""", """        let needs_sign_byte = height_bytes.last().map_or(false, |x| x & 0x80 != 0);
        if needs_sign_byte {
            height_bytes.push(0);
        }
""")]
R["g-sh-truncate"] = [(SC, """        for i in (1..4).rev() {
            // remove trailing zeroes, but always keep first byte even if it's zero
            if height_bytes[i] == 0 {
                height_bytes.remove(i);
            } else {
                break;
            }
        }
""", """        // remove trailing zeroes, but always keep first byte even if it's zero
        while height_bytes.len() > 1 && height_bytes[height_bytes.len() - 1] == 0 {
            height_bytes.pop();
        }
""")]
R["g-is-slice"] = [(SC, """        self.len() == P2SH_SCRIPT_SIZE as usize
            && self.bytes[0] == OpCode::OpHash160 as u8
            && self.bytes[1] == HASH160_SIZE_HEX
            && self.bytes[22] == OpCode::OpEqual as u8
""", """        if self.bytes.len() != P2SH_SCRIPT_SIZE as usize {
            return false;
        }
        let prefix_ok = self.bytes[0] == OpCode::OpHash160 as u8 && self.bytes[1] == HASH160_SIZE_HEX;
        let suffix_ok = self.bytes[22] == OpCode::OpEqual as u8;
        prefix_ok && suffix_ok
""")]
R["g-opret-order"] = [(SC, """        let output_script = &self.bytes;
        if *output_script.get(0).ok_or(Error::EndOfFile)? != OpCode::OpReturn as u8 {
            return Err(Error::MalformedOpReturnOutput);
        }
""", """        let output_script = self.as_bytes();
        let first = output_script.first().copied().ok_or(Error::EndOfFile)?;
        if first != OpCode::OpReturn as u8 {
            return Err(Error::MalformedOpReturnOutput);
        }
""")]
R["g-op-return-vec"] = [(SC, """        let mut script = Script::new();
        script.append(OpCode::OpReturn);
        script.append(return_content.len() as u8);
        script.append(return_content);
        script
""", """        let mut bytes = vec![OpCode::OpReturn as u8, return_content.len() as u8];
        bytes.extend_from_slice(return_content);
        Script::from(bytes)
""")]
R["g-addr-vec"] = [(AD, """                let mut script = Script::new();
                script.append(OpCode::OpHash160);
                script.append(HASH160_SIZE_HEX);
                script.append(script_hash);
                script.append(OpCode::OpEqual);
                script
""", """                let mut bytes = Vec::with_capacity(P2SH_SCRIPT_SIZE as usize);
                bytes.push(OpCode::OpHash160 as u8);
                bytes.push(HASH160_SIZE_HEX);
                bytes.extend_from_slice(script_hash.as_bytes());
                bytes.push(OpCode::OpEqual as u8);
                Script::from(bytes)
""")]
R["g-addr-arms"] = [(AD, """            &[OP_0, HASH256_SIZE_HEX, ref addr @ ..] if addr.len() == HASH256_SIZE_HEX as usize => {
                Ok(Self::P2WSHv0(H256::from_slice(addr)))
            }
            &[OP_0, HASH160_SIZE_HEX, ref addr @ ..] if addr.len() == HASH160_SIZE_HEX as usize => {
                Ok(Self::P2WPKHv0(H160::from_slice(addr)))
            }
""", """            &[OP_0, HASH160_SIZE_HEX, ref addr @ ..] if addr.len() == HASH160_SIZE_HEX as usize => {
                Ok(Self::P2WPKHv0(H160::from_slice(addr)))
            }
            &[OP_0, HASH256_SIZE_HEX, ref addr @ ..] if addr.len() == HASH256_SIZE_HEX as usize => {
                Ok(Self::P2WSHv0(H256::from_slice(addr)))
            }
""")]
R["g-addr-is"] = [(AD, """        match bytes {
            &[OP_DUP, OP_HASH_160""", """        if script.is_p2sh() {
            return Ok(Self::P2SH(H160::from_slice(&bytes[2..22])));
        }

        match bytes {
            &[OP_DUP, OP_HASH_160""")]
R["g-pk-secret"] = [(AD, """        let mut hasher = Sha256::default();
        // input compressed public key
        hasher.input(&self.0);
        // input secure id
        hasher.input(secure_id.as_bytes());

        let mut bytes = [0; 32];
        bytes.copy_from_slice(&hasher.result()[..]);
        bytes
""", """        let mut preimage = self.0.to_vec();
        preimage.extend_from_slice(secure_id.as_bytes());
        let mut hasher = Sha256::default();
        hasher.input(&preimage);

        let mut bytes = [0; 32];
        bytes.copy_from_slice(&hasher.result()[..]);
        bytes
""")]
R["g-log2-for"] = [(UT, """    let mut current = value - 1;
    let mut result: u32 = 0;
    while current > 0 {
        current >>= 1;
        result += 1;
    }
    result
""", """    let mut result: u32 = 0;
    let mut current = value - 1;
    loop {
        if current == 0 {
            break result;
        }
        current /= 2;
        result += 1;
    }
""")]
R["g-sha-digest"] = [(UT, """    let mut hasher = Sha256::default();
    hasher.input(bytes);
    let digest = hasher.result();

    let mut second_hasher = Sha256::default();
    second_hasher.input(digest);

    let mut ret = [0; 32];
    ret.copy_from_slice(&second_hasher.result()[..]);
    ret
""", """    let first = Sha256::digest(bytes);
    let second = Sha256::digest(&first);
    let mut ret = [0; 32];
    ret.copy_from_slice(&second[..]);
    ret
""")]
R["g-weight-sum"] = [(UT, """    let header_bytes = 4 // nVersion
        + var_int_size(input_count) // number of inputs
        + var_int_size(output_count) // number of outputs
        + 4; // nLockTime

    header_bytes * 4 + extra_witness_weight
""", """    let counts = var_int_size(input_count) + var_int_size(output_count);
    let fixed = 4 + 4; // nVersion and nLockTime
    4 * (fixed + counts) + extra_witness_weight
""")]

# ---- types
R["g-ver-ensure"] = [(TY, """        if self.version < 4 {
            // as per""", """        let outdated = !(self.version >= 4);
        if outdated {
            // as per""")]
R["g-txid-shared"] = [(TY, """        let mut bytes = vec![];
        self.format_no_witness(&mut bytes).expect("Not bounded");
        sha256d_le(&bytes)
    }
""", """        sha256d_le(&self.bytes_no_witness())
    }

    fn bytes_no_witness(&self) -> Vec<u8> {
        let mut bytes = vec![];
        self.format_no_witness(&mut bytes).expect("Not bounded");
        bytes
    }
"""), (TY, """        let mut bytes = vec![];
        self.format_no_witness(&mut bytes).expect("Not bounded");
        bytes.len()
""", """        self.bytes_no_witness().len()
""")]
R["g-mproof-once"] = [(TY, """        let matches: Vec<bool> = self
            .transactions
            .iter()
            .map(|tx| include.contains(&tx.tx_id()))
            .collect();
""", """        let matches: Vec<bool> = tx_ids.iter().map(|id| include.contains(id)).collect();
""")]
R["g-mproof-collect"] = [(TY, """        let mut tx_ids = Vec::with_capacity(self.transactions.len());
        for tx in self.transactions.iter() {
            tx_ids.push(tx.tx_id());
        }

        let matches""", """        let tx_ids: Vec<H256Le> = self.transactions.iter().map(|tx| tx.tx_id()).collect();

        let matches""")]
R["g-mine-loop"] = [(TY, """        while self.block.header.update_hash()?.as_u256() >= target {
            self.block.header.nonce = nonce;
            nonce += 1;
        }
        Ok(self.block.clone())
""", """        loop {
            let hash = self.block.header.update_hash()?;
            if hash.as_u256() < target {
                return Ok(self.block.clone());
            }
            self.block.header.nonce = nonce;
            nonce += 1;
        }
""")]
R["g-h256-rev"] = [(TY, """        let bytes_le = reverse_endianness(bytes);
        let mut content: [u8; 32] = Default::default();
        content.copy_from_slice(&bytes_le);
        H256Le { content }
""", """        let mut content: [u8; 32] = Default::default();
        content.copy_from_slice(bytes);
        content.reverse();
        H256Le { content }
""")]
R["g-h256-frombe"] = [(TY, """        let bytes_le = reverse_endianness(bytes);
        let mut content: [u8; 32] = Default::default();
        content.copy_from_slice(&bytes_le);
        H256Le { content }
""", """        Self::from_bytes_le(&reverse_endianness(bytes))
""")]
R["g-update-hash"] = [(TY, """        let new_hash = self.hash()?;

        self.hash = new_hash;
        Ok(self.hash)
""", """        self.hash = self.hash()?;
        Ok(self.hash)
""")]
R["g-coinbase-match"] = [(TY, """        self.inputs.len() == 1
            && matches!(
                self.inputs.get(0),
                Some(&TransactionInput {
                    source: TransactionInputSource::Coinbase(_),
                    ..
                })
            )
""", """        match self.inputs.as_slice() {
            [only] => matches!(only.source, TransactionInputSource::Coinbase(_)),
            _ => false,
        }
""")]
R["g-payment-let"] = [(TY, """        TransactionOutput {
            value,
            script: address.to_script_pub_key(),
        }
""", """        let script = address.to_script_pub_key();
        TransactionOutput { value, script }
""")]

# ---- contracts
R["g-exe-early"] = [(CO, """            assert!(transferred_sats >= order.min_satoshis);
""", """            if transferred_sats < order.min_satoshis {
                panic!("payment below the limit of the order");
            }
""")]
R["g-exe-pay"] = [(CO, """            self.env().transfer(caller, order.plancks).unwrap();
        }
    }
""", """            self.pay(caller, order.plancks);
        }

        fn pay(&self, to: AccountId, amount: u128) {
            self.env().transfer(to, amount).unwrap();
        }
    }
""")]
R["g-create-order"] = [(CO, """            let replaced = self.orders.get(caller);
            self.orders.insert(caller, &order);

            // return what the replaced order had locked
            if let Some(replaced) = replaced {
                self.env().transfer(caller, replaced.plancks).unwrap();
            }
""", """            let refund = self.orders.get(caller).map(|replaced| replaced.plancks);
            self.orders.insert(caller, &order);

            // return what the replaced order had locked
            match refund {
                Some(plancks) => self.env().transfer(caller, plancks).unwrap(),
                None => (),
            }
""")]
