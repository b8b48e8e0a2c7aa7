"""More behaviour-preserving edits of crates/bitcoin, in other styles than refac_1..3."""
B = "crates/bitcoin/src/"
ME, PA, TY, AD, FO, SC, MA, PO, UT = [B + f + ".rs" for f in "merkle parser types address formatter script math pow utils".split()]
R = REFS = {}

# ---- merkle
R["w-ceil"] = [(ME, "        (transactions_count + (1 << height) - 1) >> height", "        let span = 1u32 << height;\n        (transactions_count + span - 1) / span")]
R["h-loop-break"] = [(ME, """        let mut height = 0;
        while Self::compute_width(transactions_count, height) > 1 {
            height += 1;
        }
        height
""", """        let mut height = 0;
        loop {
            if Self::compute_width(transactions_count, height) <= 1 {
                return height;
            }
            height += 1;
        }
""")]
R["root-early"] = [(ME, """        if height == 0 {
            Ok(hashes[index as usize])
        } else {
            let left = Self::compute_root(
                index.checked_mul(2).ok_or(Error::ArithmeticOverflow)?,
                height.checked_sub(1).ok_or(Error::ArithmeticUnderflow)?,
                transactions_count,
                hashes,
            )?;
            let right_index = index
                .checked_mul(2)
                .ok_or(Error::ArithmeticOverflow)?
                .checked_add(1)
                .ok_or(Error::ArithmeticOverflow)?;
            let right = if right_index < Self::compute_width(transactions_count, height - 1) {
                Self::compute_root(
                    right_index,
                    height.checked_sub(1).ok_or(Error::ArithmeticUnderflow)?,
                    transactions_count,
                    hashes,
                )?
            } else {
                left
            };
            Ok(hash256_merkle_step(&left.to_bytes_le(), &right.to_bytes_le()))
        }
""", """        if height == 0 {
            return Ok(hashes[index as usize]);
        }
        let below = height - 1;
        let left_index = index.checked_mul(2).ok_or(Error::ArithmeticOverflow)?;
        let right_index = left_index.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
        let left = Self::compute_root(left_index, below, transactions_count, hashes)?;
        let mut right = left;
        if right_index < Self::compute_width(transactions_count, below) {
            right = Self::compute_root(right_index, below, transactions_count, hashes)?;
        }
        Ok(hash256_merkle_step(&left.to_bytes_le(), &right.to_bytes_le()))
""")]
R["root-match"] = [(ME, """            let right = if right_index < Self::compute_width(transactions_count, height - 1) {
                Self::compute_root(
                    right_index,
                    height.checked_sub(1).ok_or(Error::ArithmeticUnderflow)?,
                    transactions_count,
                    hashes,
                )?
            } else {
                left
            };
""", """            let width = Self::compute_width(transactions_count, height - 1);
            let right = match right_index >= width {
                true => left,
                false => Self::compute_root(right_index, height - 1, transactions_count, hashes)?,
            };
""")]
R["vp-merge-checks"] = [(ME, """        // fail if no transactions
        if self.merkle_proof.transactions_count == 0 {
            return Err(Error::MalformedMerkleProof);
        }

        // fail if too many transactions
        if self.merkle_proof.transactions_count > MAX_TRANSACTIONS_IN_PROOF {
            return Err(Error::MalformedMerkleProof);
        }

        // fail if not at least one bit per hash
        if self.merkle_proof.flag_bits.len() < self.merkle_proof.hashes.len() {
            return Err(Error::MalformedMerkleProof);
        }
""", """        let count = self.merkle_proof.transactions_count;
        let has_bit_per_hash = self.merkle_proof.hashes.len() <= self.merkle_proof.flag_bits.len();
        if count == 0 || count > MAX_TRANSACTIONS_IN_PROOF || !has_bit_per_hash {
            return Err(Error::MalformedMerkleProof);
        }
""")]
R["vp-range"] = [(ME, """        // fail if no transactions
        if self.merkle_proof.transactions_count == 0 {
            return Err(Error::MalformedMerkleProof);
        }

        // fail if too many transactions
        if self.merkle_proof.transactions_count > MAX_TRANSACTIONS_IN_PROOF {
            return Err(Error::MalformedMerkleProof);
        }
""", """        if !(1..=MAX_TRANSACTIONS_IN_PROOF).contains(&self.merkle_proof.transactions_count) {
            return Err(Error::MalformedMerkleProof);
        }
""")]
R["vp-traversal-new"] = [(ME, """        let mut traversal = MerkleProofTraversal {
            bits_used: 0,
            hashes_used: 0,
            merkle_position: None,
            hash_position: None,
        };
""", "        let mut traversal = MerkleProofTraversal::new();\n"), (ME, "impl MerkleTree {\n", """impl MerkleProofTraversal {
    fn new() -> Self {
        Self {
            bits_used: 0,
            hashes_used: 0,
            merkle_position: None,
            hash_position: None,
        }
    }
}

impl MerkleTree {
""")]
R["vp-letelse"] = [(ME, """        let merkle_position = traversal.merkle_position.ok_or(Error::InvalidMerkleProof)?;
        let hash_position = traversal.hash_position.ok_or(Error::InvalidMerkleProof)?;
""", """        let (merkle_position, hash_position) = match (traversal.merkle_position, traversal.hash_position) {
            (Some(merkle_position), Some(hash_position)) => (merkle_position, hash_position),
            _ => return Err(Error::InvalidMerkleProof),
        };
""")]
R["vp-letelse2"] = [(ME, """        let merkle_position = traversal.merkle_position.ok_or(Error::InvalidMerkleProof)?;
        let hash_position = traversal.hash_position.ok_or(Error::InvalidMerkleProof)?;
""", """        let MerkleProofTraversal { bits_used: _, hashes_used: _, merkle_position, hash_position } = traversal;
        let Some(merkle_position) = merkle_position else {
            return Err(Error::InvalidMerkleProof);
        };
        let Some(hash_position) = hash_position else {
            return Err(Error::InvalidMerkleProof);
        };
""")]
R["vp-bytes-closure"] = [(ME, """        if traversal
            .bits_used
            .checked_add(7)
            .ok_or(Error::ArithmeticOverflow)?
            .checked_div(8)
            .ok_or(Error::ArithmeticUnderflow)?
            != self
                .merkle_proof
                .flag_bits
                .len()
                .checked_add(7)
                .ok_or(Error::ArithmeticOverflow)?
                .checked_div(8)
                .ok_or(Error::ArithmeticUnderflow)?
        {
            return Err(Error::MalformedMerkleProof);
        }
""", """        let in_bytes = |bits: usize| -> Result<usize, Error> {
            Ok(bits.checked_add(7).ok_or(Error::ArithmeticOverflow)? / 8)
        };
        let used_bytes = in_bytes(traversal.bits_used)?;
        let given_bytes = in_bytes(self.merkle_proof.flag_bits.len())?;
        if used_bytes != given_bytes {
            return Err(Error::MalformedMerkleProof);
        }
""")]
R["vp-bytes-shift"] = [(ME, """        if traversal
            .bits_used
            .checked_add(7)
            .ok_or(Error::ArithmeticOverflow)?
            .checked_div(8)
            .ok_or(Error::ArithmeticUnderflow)?
            != self
                .merkle_proof
                .flag_bits
                .len()
                .checked_add(7)
                .ok_or(Error::ArithmeticOverflow)?
                .checked_div(8)
                .ok_or(Error::ArithmeticUnderflow)?
        {
            return Err(Error::MalformedMerkleProof);
        }
""", """        let used_bytes = traversal.bits_used.checked_add(7).ok_or(Error::ArithmeticOverflow)? >> 3;
        let flag_bytes = self.merkle_proof.flag_bits.len().checked_add(7).ok_or(Error::ArithmeticOverflow)? >> 3;
        if !(used_bytes == flag_bytes) {
            return Err(Error::MalformedMerkleProof);
        }
""")]
R["vp-order-txid"] = [(ME, """        let tx_id = self.transaction.tx_id_bounded(self.tx_encoded_len)?;

        // fail if the transaction hash is invalid
        if self.merkle_proof.hashes[hash_position] != tx_id {
            return Err(Error::InvalidTxid);
        }
        // ensure!(self.merkle_proof.hashes[hash_position] == tx_id, Error::InvalidTxid);

        Ok(ProofResult {
            extracted_root: root,
            transaction_hash: self.merkle_proof.hashes[hash_position],
""", """        let proven_hash = self.merkle_proof.hashes[hash_position];
        match self.transaction.tx_id_bounded(self.tx_encoded_len)? {
            tx_id if tx_id == proven_hash => (),
            _ => return Err(Error::InvalidTxid),
        }

        Ok(ProofResult {
            extracted_root: root,
            transaction_hash: proven_hash,
""")]
R["vp-txid-return"] = [(ME, """            transaction_hash: self.merkle_proof.hashes[hash_position],
            transaction_position: merkle_position,
            transaction: self.transaction,
""", """            transaction_hash: tx_id,
            transaction_position: merkle_position,
            transaction: self.transaction,
""")]
R["vp-helper-used"] = [(ME, """        // fail if all hashes are not used
        if traversal.hashes_used != self.merkle_proof.hashes.len() {
            return Err(Error::MalformedMerkleProof);
        }
""", """        self.merkle_proof.ensure_all_hashes_used(&traversal)?;
"""), (ME, "    /// Performs a depth-first traversal of the partial merkle tree\n", """    fn ensure_all_hashes_used(&self, traversal: &MerkleProofTraversal) -> Result<(), Error> {
        if traversal.hashes_used == self.hashes.len() {
            Ok(())
        } else {
            Err(Error::MalformedMerkleProof)
        }
    }

    /// Performs a depth-first traversal of the partial merkle tree
""")]
R["tr-next-bit"] = [(ME, """        let parent_of_hash = *self.flag_bits.get(traversal.bits_used).ok_or(Error::EndOfFile)?;
        traversal.bits_used = traversal.bits_used.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
""", """        let parent_of_hash = traversal.next_bit(&self.flag_bits)?;
"""), (ME, "impl MerkleTree {\n", """impl MerkleProofTraversal {
    fn next_bit(&mut self, bits: &[bool]) -> Result<bool, Error> {
        let bit = match bits.get(self.bits_used) {
            Some(bit) => *bit,
            None => return Err(Error::EndOfFile),
        };
        self.bits_used = self.bits_used.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
        Ok(bit)
    }
}

impl MerkleTree {
""")]
R["tr-copied"] = [(ME, "        let parent_of_hash = *self.flag_bits.get(traversal.bits_used).ok_or(Error::EndOfFile)?;\n        traversal.bits_used = traversal.bits_used.checked_add(1).ok_or(Error::ArithmeticOverflow)?;", "        let parent_of_hash = self.flag_bits.get(traversal.bits_used).copied().ok_or(Error::EndOfFile)?;\n        traversal.bits_used += 1;")]
R["tr-nested"] = [(ME, """            let hash = self.hashes[traversal.hashes_used];
            if height == 0 && parent_of_hash {
                // in case of height 0, we have a matched txid
                traversal.merkle_position = Some(pos);
                traversal.hash_position = Some(traversal.hashes_used);
            }
            traversal.hashes_used = traversal.hashes_used.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
            return Ok(hash);
""", """            let position = traversal.hashes_used;
            traversal.hashes_used = position.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
            if parent_of_hash {
                traversal.hash_position = Some(position);
                traversal.merkle_position = Some(pos);
            }
            return Ok(self.hashes[position]);
""")]
R["tr-else"] = [(ME, """        let right = if right_index < self.compute_partial_tree_width(next_height) {
            self.traverse_and_extract(next_height, right_index, traversal)?
        } else {
            left
        };

        let hashed_bytes = hash256_merkle_step(&left.to_bytes_le(), &right.to_bytes_le());
        Ok(hashed_bytes)
    }
""", """        if right_index >= self.compute_partial_tree_width(next_height) {
            let bytes = left.to_bytes_le();
            return Ok(hash256_merkle_step(&bytes, &bytes));
        }
        let right = self.traverse_and_extract(next_height, right_index, traversal)?;
        Ok(hash256_merkle_step(&left.to_bytes_le(), &right.to_bytes_le()))
    }
""")]
R["bu-end"] = [(ME, """        let mut p = pos << height;
        while p < (pos + 1) << height && p < self.transactions_count {
            parent_of_match |= matches[p as usize];
            p += 1;
        }
""", """        let start = pos << height;
        let end = ((pos + 1) << height).min(self.transactions_count);
        for p in start..end {
            if matches[p as usize] {
                parent_of_match = true;
            }
        }
""")]
R["bu-early"] = [(ME, """        if height == 0 || !parent_of_match {
            let hash = self.compute_merkle_root(pos, height, tx_ids)?;
            self.hashes.push(hash);
        } else {
            let next_height = height.checked_sub(1).ok_or(Error::ArithmeticUnderflow)?;
            let left_index = pos.checked_mul(2).ok_or(Error::ArithmeticOverflow)?;
            let right_index = left_index.checked_add(1).ok_or(Error::ArithmeticOverflow)?;

            self.traverse_and_build(next_height, left_index, tx_ids, matches)?;
            if right_index < self.compute_partial_tree_width(next_height) {
                self.traverse_and_build(next_height, right_index, tx_ids, matches)?;
            }
        }

        Ok(())
""", """        if height == 0 || !parent_of_match {
            self.hashes.push(self.compute_merkle_root(pos, height, tx_ids)?);
            return Ok(());
        }

        let next_height = height - 1;
        let left_index = pos.checked_mul(2).ok_or(Error::ArithmeticOverflow)?;
        self.traverse_and_build(next_height, left_index, tx_ids, matches)?;

        let right_index = left_index.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
        if right_index >= self.compute_partial_tree_width(next_height) {
            return Ok(());
        }
        self.traverse_and_build(next_height, right_index, tx_ids, matches)
""")]
R["mp-cap"] = [(ME, """        let mut hashes = Vec::<H256Le>::new();
        for _ in 0..hashes_count.value {
            hashes.push(proof_parser.parse()?);
        }
""", """        let mut hashes = Vec::<H256Le>::new();
        let mut remaining = hashes_count.value;
        while remaining > 0 {
            let hash: H256Le = proof_parser.parse()?;
            hashes.push(hash);
            remaining -= 1;
        }
""")]
R["mp-hashes-vec"] = [(ME, """        let hashes_count: CompactUint = proof_parser.parse()?;
        let mut hashes = Vec::<H256Le>::new();
        for _ in 0..hashes_count.value {
            hashes.push(proof_parser.parse()?);
        }
""", """        let hashes: Vec<H256Le> = proof_parser.parse()?;
""")]
R["mp-append"] = [(ME, """            flag_bits.extend(proof_parser.parse::<Vec<bool>>()?);
""", """            let mut byte_bits: Vec<bool> = proof_parser.parse()?;
            flag_bits.append(&mut byte_bits);
""")]

# ---- parser
R["pi-tryinto"] = [(PA, """                if position + $bytes > raw_bytes.len() {
                    return Err(Error::EndOfFile);
                }
                let mut value_bytes: [u8; $bytes] = Default::default();
                value_bytes.copy_from_slice(&raw_bytes[position..position + $bytes]);
                Ok((<$type>::from_le_bytes(value_bytes), $bytes))
""", """                let slice = raw_bytes.get(position..position + $bytes).ok_or(Error::EndOfFile)?;
                let mut value_bytes = [0u8; $bytes];
                value_bytes.copy_from_slice(slice);
                Ok((<$type>::from_le_bytes(value_bytes), $bytes))
""")]
R["pi-end"] = [(PA, """                if position + $bytes > raw_bytes.len() {
                    return Err(Error::EndOfFile);
                }
                let mut value_bytes: [u8; $bytes] = Default::default();
                value_bytes.copy_from_slice(&raw_bytes[position..position + $bytes]);
                Ok((<$type>::from_le_bytes(value_bytes), $bytes))
""", """                let end = position + $bytes;
                if raw_bytes.len() < end {
                    Err(Error::EndOfFile)
                } else {
                    let mut value_bytes: [u8; $bytes] = [0; $bytes];
                    value_bytes.copy_from_slice(&raw_bytes[position..end]);
                    let value = <$type>::from_le_bytes(value_bytes);
                    Ok((value, $bytes))
                }
""")]
R["pc-map"] = [(PA, """        let (value, bytes_consumed) = parse_compact_uint(raw_bytes.get(position..).ok_or(Error::EndOfFile)?)?;
        Ok((CompactUint { value }, bytes_consumed))
""", """        let remaining = raw_bytes.get(position..).ok_or(Error::EndOfFile)?;
        parse_compact_uint(remaining).map(|(value, bytes_consumed)| (CompactUint { value }, bytes_consumed))
""")]
R["ph-const"] = [(PA, """        let header_bytes = raw_bytes.get(position..position + 80).ok_or(Error::EndOfFile)?;
        let block_header = parse_block_header(&header_bytes)?;
        Ok((block_header, 80))
""", """        const HEADER_SIZE: usize = 80;
        match raw_bytes.get(position..position + HEADER_SIZE) {
            Some(header_bytes) => Ok((parse_block_header(header_bytes)?, HEADER_SIZE)),
            None => Err(Error::EndOfFile),
        }
""")]
R["phash-map"] = [(PA, """        let slice = raw_bytes.get(position..position + 32).ok_or(Error::EndOfFile)?;
        Ok((H256Le::from_bytes_le(slice), 32))
""", """        raw_bytes
            .get(position..position + 32)
            .map(|slice| (H256Le::from_bytes_le(slice), 32))
            .ok_or(Error::EndOfFile)
""")]
R["pbool-shift"] = [(PA, """        for i in 0..8 {
            let mask = 1 << i;
            let bit = (byte & mask) != 0;
            flag_bits.push(bit);
        }
""", """        for i in 0..8 {
            flag_bits.push((byte >> i) & 1 == 1);
        }
""")]
R["pbool-shift2"] = [(PA, """        let mut flag_bits = Vec::new();
        for i in 0..8 {
            let mask = 1 << i;
            let bit = (byte & mask) != 0;
            flag_bits.push(bit);
        }
        Ok((flag_bits, 1))
""", """        let flag_bits = (0..8).map(|i| (byte & (1 << i)) != 0).collect::<Vec<bool>>();
        Ok((flag_bits, 1))
""")]
R["ptx-version-fn"] = [(PA, """        if version != 1 && version != 2 {
            return Err(Error::MalformedTransaction);
        }
""", """        ensure_supported_version(version)?;
"""), (PA, "impl ParsableMeta<i32> for TransactionInput {\n", """fn ensure_supported_version(version: i32) -> Result<(), Error> {
    match version {
        1 | 2 => Ok(()),
        _ => Err(Error::MalformedTransaction),
    }
}

impl ParsableMeta<i32> for TransactionInput {
""")]
R["ptx-flags-match"] = [(PA, """        let mut inputs: Vec<TransactionInput> = parser.parse_with(version)?;

        let mut flags: u8 = 0;
        if inputs.is_empty() && allow_witness {
            flags = parser.parse()?;
            inputs = parser.parse_with(version)?;
        }
""", """        let first_inputs: Vec<TransactionInput> = parser.parse_with(version)?;
        let is_extended = allow_witness && first_inputs.is_empty();
        let mut flags: u8 = if is_extended { parser.parse()? } else { 0 };
        let mut inputs = if is_extended { parser.parse_with(version)? } else { first_inputs };
""")]
R["ptx-flags-tuple"] = [(PA, """        let mut inputs: Vec<TransactionInput> = parser.parse_with(version)?;

        let mut flags: u8 = 0;
        if inputs.is_empty() && allow_witness {
            flags = parser.parse()?;
            inputs = parser.parse_with(version)?;
        }
""", """        let inputs: Vec<TransactionInput> = parser.parse_with(version)?;
        let (mut flags, mut inputs) = if inputs.len() == 0 && allow_witness {
            let flags: u8 = parser.parse()?;
            (flags, parser.parse_with::<Vec<TransactionInput>, _>(version)?)
        } else {
            (0u8, inputs)
        };
""")]
R["ptx-witness-inline"] = [(PA, """                input.with_witness(parser.parse()?);
""", """                let stack: Vec<Vec<u8>> = parser.parse()?;
                input.witness = stack;
""")]
R["ptx-flags-noflip"] = [(PA, """            flags ^= 1;
            for input in &mut inputs {
""", """            flags &= !1;
            for input in inputs.iter_mut() {
""")]
R["ptx-locktime-map"] = [(PA, """        let lock_at = if locktime_or_blockheight < LOCKTIME_THRESHOLD {
            LockTime::BlockHeight(locktime_or_blockheight)
        } else {
            LockTime::Time(locktime_or_blockheight)
        };
""", """        let lock_at = match locktime_or_blockheight {
            height if height < LOCKTIME_THRESHOLD => LockTime::BlockHeight(height),
            time => LockTime::Time(time),
        };
""")]
R["ptx-locktime-swap"] = [(PA, """        let lock_at = if locktime_or_blockheight < LOCKTIME_THRESHOLD {
            LockTime::BlockHeight(locktime_or_blockheight)
        } else {
            LockTime::Time(locktime_or_blockheight)
        };
""", """        let is_timestamp = locktime_or_blockheight >= LOCKTIME_THRESHOLD;
        let constructor = if is_timestamp { LockTime::Time } else { LockTime::BlockHeight };
        let lock_at = constructor(locktime_or_blockheight);
""")]
R["ptx-flags-order"] = [(PA, """        // https://en.bitcoin.it/wiki/NLockTime
        let locktime_or_blockheight: u32 = parser.parse()?;
""", """        if flags > 0 {
            return Err(Error::MalformedTransaction);
        }
        let locktime_or_blockheight: u32 = parser.parse()?;
"""), (PA, """        if flags != 0 {
            return Err(Error::MalformedTransaction);
        }

        Ok((
""", """        Ok((
""")]
R["pu256-via-u32"] = [(PA, """        if position + 4 > raw_bytes.len() {
            return Err(Error::EndOfFile);
        }

        let mut bytes: [u8; 4] = Default::default();
        bytes.copy_from_slice(&raw_bytes[position..position + 4]);

        let bits = u32::from_le_bytes(bytes);
        let compact = U256::set_compact(bits).ok_or(Error::InvalidCompact)?;
        Ok((compact, 4))
""", """        let (bits, consumed) = <u32 as Parsable>::parse(raw_bytes, position)?;
        let target = U256::set_compact(bits).ok_or(Error::InvalidCompact)?;
        Ok((target, consumed))
""")]
R["pp-advance-replace"] = [(PA, """        let end = self
            .position
            .checked_add(bytes_count)
            .ok_or(Error::ArithmeticOverflow)?;
        let bytes = self.raw_bytes.get(self.position..end).ok_or(Error::EndOfFile)?;
        self.position = end;
        Ok(Vec::from(bytes))
""", """        let start = self.position;
        let end = start.checked_add(bytes_count).ok_or(Error::ArithmeticOverflow)?;
        let bytes = match self.raw_bytes.get(start..end) {
            Some(bytes) => bytes.to_vec(),
            None => return Err(Error::EndOfFile),
        };
        self.position = end;
        Ok(bytes)
""")]
R["pp-read-slices"] = [(PA, """        let bytes = self.raw_bytes.get(self.position..end).ok_or(Error::EndOfFile)?;
        self.position = end;
        Ok(Vec::from(bytes))
""", """        if end > self.raw_bytes.len() {
            return Err(Error::EndOfFile);
        }
        let bytes = self.raw_bytes[self.position..end].to_vec();
        self.position = end;
        Ok(bytes)
""")]
R["pbh-struct-order"] = [(PA, """    let hash: H256Le = sha256d_le(bytes);

    let block_header = BlockHeader {
        merkle_root,
        target,
        timestamp,
        version,
        hash_prev_block,
        nonce,
        hash,
    };

    Ok(block_header)
""", """    Ok(BlockHeader {
        version,
        hash_prev_block,
        merkle_root,
        timestamp,
        target,
        nonce,
        hash: sha256d_le(bytes),
    })
""")]
R["pbh-inline"] = [(PA, """    let version: i32 = parser.parse()?;
    let hash_prev_block: H256Le = parser.parse()?;
    let merkle_root: H256Le = parser.parse()?;
    let timestamp: u32 = parser.parse()?;
    let target: U256 = parser.parse()?;
    let nonce: u32 = parser.parse()?;
    let hash: H256Le = sha256d_le(bytes);

    let block_header = BlockHeader {
        merkle_root,
        target,
        timestamp,
        version,
        hash_prev_block,
        nonce,
        hash,
    };

    Ok(block_header)
""", """    let mut header = BlockHeader::default();
    header.version = parser.parse()?;
    header.hash_prev_block = parser.parse()?;
    header.merkle_root = parser.parse()?;
    header.timestamp = parser.parse()?;
    header.target = parser.parse()?;
    header.nonce = parser.parse()?;
    header.hash = sha256d_le(bytes);
    Ok(header)
""")]
R["pcu-split"] = [(PA, """    match varint.get(0).ok_or(Error::EndOfFile)? {
        0xfd => {
""", """    let prefix = *varint.first().ok_or(Error::EndOfFile)?;
    match prefix {
        0xfd => {
"""), (PA, "        &n => Ok((n as u64, 1)),", "        n => Ok((u64::from(n), 1)),")]
R["pcu-early"] = [(PA, """    match varint.get(0).ok_or(Error::EndOfFile)? {
        0xfd => {
            let mut num_bytes: [u8; 2] = Default::default();
            num_bytes.copy_from_slice(&varint.get(1..3).ok_or(Error::EndOfFile)?);
            Ok((u16::from_le_bytes(num_bytes) as u64, 3))
        }
        0xfe => {
            let mut num_bytes: [u8; 4] = Default::default();
            num_bytes.copy_from_slice(&varint.get(1..5).ok_or(Error::EndOfFile)?);
            Ok((u32::from_le_bytes(num_bytes) as u64, 5))
        }
        0xff => {
            let mut num_bytes: [u8; 8] = Default::default();
            num_bytes.copy_from_slice(&varint.get(1..9).ok_or(Error::EndOfFile)?);
            Ok((u64::from_le_bytes(num_bytes) as u64, 9))
        }
        &n => Ok((n as u64, 1)),
    }
""", """    let prefix = *varint.get(0).ok_or(Error::EndOfFile)?;
    if prefix < 0xfd {
        return Ok((prefix as u64, 1));
    }
    if prefix == 0xfd {
        let mut num_bytes = [0u8; 2];
        num_bytes.copy_from_slice(varint.get(1..3).ok_or(Error::EndOfFile)?);
        return Ok((u16::from_le_bytes(num_bytes) as u64, 3));
    }
    if prefix == 0xfe {
        let mut num_bytes = [0u8; 4];
        num_bytes.copy_from_slice(varint.get(1..5).ok_or(Error::EndOfFile)?);
        return Ok((u32::from_le_bytes(num_bytes) as u64, 5));
    }
    let mut num_bytes = [0u8; 8];
    num_bytes.copy_from_slice(varint.get(1..9).ok_or(Error::EndOfFile)?);
    Ok((u64::from_le_bytes(num_bytes), 9))
""")]
R["pcu-parsable"] = [(PA, """            let mut num_bytes: [u8; 2] = Default::default();
            num_bytes.copy_from_slice(&varint.get(1..3).ok_or(Error::EndOfFile)?);
            Ok((u16::from_le_bytes(num_bytes) as u64, 3))
""", """            let (value, consumed) = u16::parse(varint, 1)?;
            Ok((value as u64, consumed + 1))
""")]
R["ptx-fn"] = [(PA, "    Transaction::parse(raw_transaction, 0).map(|(tx, _len)| tx)", "    let (transaction, _) = Transaction::parse(raw_transaction, 0)?;\n    Ok(transaction)")]
R["pin-version"] = [(PA, """        let height = if version != 2 {
            // version 1 does not include height
            None
        } else {
""", """        let height = if version == 1 {
            // version 1 does not include height
            None
        } else {
""")]
R["pin-checked"] = [(PA, """            script_size = height_size
                .checked_add(1)
                .and_then(|size| script_size.checked_sub(size))
                .ok_or(Error::EndOfFile)?;
""", """            let encoded_size = height_size.checked_add(1).ok_or(Error::EndOfFile)?;
            script_size = script_size.checked_sub(encoded_size).ok_or(Error::EndOfFile)?;
""")]
R["pin-buf"] = [(PA, """            let mut buffer = [0u8; 4];
            // fail if the height does not fit in four bytes
            if height_size > buffer.len() as u64 {
                return Err(Error::MalformedTransaction);
            }
            let bytes = parser.read(height_size as usize)?;
            buffer[..(height_size as usize)]
                .copy_from_slice(bytes.get(0..(height_size as usize)).ok_or(Error::EndOfFile)?);
            Some(u32::from_le_bytes(buffer))
""", """            // fail if the height does not fit in four bytes
            if height_size > 4 {
                return Err(Error::MalformedTransaction);
            }
            let height_size = height_size as usize;
            let mut buffer = [0u8; 4];
            let bytes = parser.read(height_size)?;
            buffer[..height_size].copy_from_slice(&bytes);
            Some(u32::from_le_bytes(buffer))
""")]
R["pin-early-script"] = [(PA, """    let script = parser.read(script_size as usize)?;
    // fail if coinbase script is longer than 100 bytes
    if is_coinbase && script.len() > 100 {
        return Err(Error::MalformedTransaction);
    }
""", """    const MAX_COINBASE_SCRIPT: usize = 100;
    let script = parser.read(script_size as usize)?;
    // fail if coinbase script is longer than 100 bytes
    match (is_coinbase, script.len()) {
        (true, len) if len > MAX_COINBASE_SCRIPT => return Err(Error::MalformedTransaction),
        _ => (),
    }
""")]
R["pin-iszero"] = [(PA, """    let is_coinbase = previous_hash == H256Le::zero();

    // fail if transaction is coinbase and previous index is not 0xffffffff
    // previous_hash
    if is_coinbase && previous_index != u32::MAX {
        return Err(Error::MalformedTransaction);
    }
""", """    let is_coinbase = previous_hash.is_zero();

    // fail if transaction is coinbase and previous index is not 0xffffffff
    if is_coinbase {
        if previous_index != 0xffff_ffff {
            return Err(Error::MalformedTransaction);
        }
    }
""")]
R["pin-struct"] = [(PA, """    let sequence: u32 = parser.parse()?;
    let consumed_bytes = parser.position;

    Ok((
        TransactionInput {
            source,
            script,
            sequence,
            witness: vec![],
        },
        consumed_bytes,
    ))
""", """    let input = TransactionInput {
        source,
        script,
        sequence: parser.parse()?,
        witness: Vec::new(),
    };
    Ok((input, parser.position))
""")]
R["pout-map"] = [(PA, """    let script_size: CompactUint = parser.parse()?;
    if script_size.value > 10_000 {
        return Err(Error::MalformedTransaction);
    }
    let script = parser.read(script_size.value as usize)?;
    Ok((
        TransactionOutput {
            value,
            script: script.into(),
        },
        parser.position,
    ))
""", """    let script_size = parser.parse::<CompactUint>()?.value;
    let script = match script_size {
        0..=10_000 => Script::from(parser.read(script_size as usize)?),
        _ => return Err(Error::MalformedTransaction),
    };
    let output = TransactionOutput { value, script };
    Ok((output, parser.position))
"""), (PA, "use crate::{types::*, utils::sha256d_le, Error, SetCompact};", "use crate::{types::*, utils::sha256d_le, Error, Script, SetCompact};")]

# ---- types
R["y-hash-map"] = [(TY, """        let mut bytes = vec![];
        self.try_format(&mut bytes)?;
        Ok(sha256d_le(&bytes))
    }

    pub fn ensure_version""", """        let mut bytes = Vec::with_capacity(80);
        self.try_format(&mut bytes).map(|_| sha256d_le(&bytes))
    }

    pub fn ensure_version""")]
R["y-version-match"] = [(TY, """        if self.version < 4 {
""", """        const MIN_VERSION: i32 = 4;
        if !(self.version >= MIN_VERSION) {
""")]
R["y-update"] = [(TY, """        let new_hash = self.hash()?;

        self.hash = new_hash;
        Ok(self.hash)
""", """        self.hash = self.hash()?;
        Ok(self.hash)
""")]
R["y-frombytes-array"] = [(TY, """        if slice.len() != 80 {
            return Err(Error::InvalidHeaderSize);
        }
        let mut result = [0u8; 80];
        result.copy_from_slice(slice);
        parse_block_header(&result)
""", """        match slice.len() {
            80 => parse_block_header(slice),
            _ => Err(Error::InvalidHeaderSize),
        }
""")]
R["y-haswit-find"] = [(TY, "        self.inputs.iter().any(|v| !v.witness.is_empty())", "        self.inputs.iter().find(|input| input.witness.len() > 0).is_some()")]
R["y-haswit-not-all"] = [(TY, "        self.inputs.iter().any(|v| !v.witness.is_empty())", "        !self.inputs.iter().all(|input| input.witness.is_empty())")]
R["y-coinbase-slice"] = [(TY, """        self.inputs.len() == 1
            && matches!(
                self.inputs.get(0),
                Some(&TransactionInput {
                    source: TransactionInputSource::Coinbase(_),
                    ..
                })
            )
""", """        match self.inputs.as_slice() {
            [input] => matches!(input.source, TransactionInputSource::Coinbase(_)),
            _ => false,
        }
""")]
R["y-proof-once"] = [(TY, """        let mut tx_ids = Vec::with_capacity(self.transactions.len());
        for tx in self.transactions.iter() {
            tx_ids.push(tx.tx_id());
        }

        let matches: Vec<bool> = self
            .transactions
            .iter()
            .map(|tx| include.contains(&tx.tx_id()))
            .collect();
""", """        let tx_ids: Vec<H256Le> = self.transactions.iter().map(Transaction::tx_id).collect();
        let matches: Vec<bool> = tx_ids.iter().map(|tx_id| include.contains(tx_id)).collect();
""")]
R["y-proof-helper"] = [(TY, """        let mut tx_ids = Vec::with_capacity(self.transactions.len());
        for tx in self.transactions.iter() {
            tx_ids.push(tx.tx_id());
        }

        let matches""", """        let tx_ids = self.tx_ids();
        let matches"""), (TY, """impl Block {
""", """impl Block {
    fn tx_ids(&self) -> Vec<H256Le> {
        let mut ids = vec![];
        for tx in &self.transactions {
            ids.push(tx.tx_id());
        }
        ids
    }

""")]
R["y-mine-loop"] = [(TY, """        while self.block.header.update_hash()?.as_u256() >= target {
            self.block.header.nonce = nonce;
            nonce += 1;
        }
        Ok(self.block.clone())
""", """        loop {
            if self.block.header.update_hash()?.as_u256() < target {
                break;
            }
            self.block.header.nonce = nonce;
            nonce += 1;
        }
        Ok(self.block.clone())
""")]
R["y-genesis-coinbase"] = [(TY, """    tx_builder.add_input(input_builder.build());

    // FIXME: this is most likely not what real-world transactions look like
    tx_builder.add_output(TransactionOutput::payment(reward, address));

    if let Some(commitment) = witness_commitment {
        // https://github.com/bitcoin/bips/blob/master/bip-0141.mediawiki#commitment-structure
        tx_builder.add_output(TransactionOutput::op_return(0, &commitment));
    }

    tx_builder.build()
""", """    let payment = TransactionOutput::payment(reward, address);
    tx_builder.add_output(payment).add_input(input_builder.build());

    match witness_commitment {
        Some(commitment) => {
            tx_builder.add_output(TransactionOutput::op_return(0, &commitment));
        }
        None => {}
    }

    tx_builder.build()
""")]
R["y-le-tryinto"] = [(TY, """        let mut content: [u8; 32] = Default::default();
        content.copy_from_slice(&bytes);
        H256Le { content }
""", """        let mut content = [0u8; 32];
        content[..].copy_from_slice(bytes);
        Self { content }
""")]
R["y-be-rev"] = [(TY, """        let mut content: [u8; 32] = Default::default();
        content.copy_from_slice(&reverse_endianness(&self.content[..]));
        content
""", """        let mut content = self.content;
        content.reverse();
        content
""")]
R["y-int-zip"] = [(TY, """                for i in 0..le_bytes.len() {
                    bytes[i] = le_bytes[i];
                }
""", """                for (to, from) in bytes.iter_mut().zip(le_bytes.iter()) {
                    *to = *from;
                }
""")]
R["y-int-slice"] = [(TY, """                for i in 0..le_bytes.len() {
                    bytes[i] = le_bytes[i];
                }
""", """                bytes[..le_bytes.len()].copy_from_slice(&le_bytes);
""")]
R["y-pay-into"] = [(TY, """        TransactionOutput {
            value,
            script: address.to_script_pub_key(),
        }
""", """        let script = address.to_script_pub_key();
        Self { value, script }
""")]
R["y-wpkh"] = [(TY, """        self.transaction_input.witness = vec![sig, public_key.as_bytes().to_vec()];
        self
""", """        let mut witness = Vec::new();
        witness.push(sig);
        witness.push(public_key.0.to_vec());
        self.transaction_input.witness = witness;
        self
""")]
R["y-builder-new"] = [(TY, """        let mut ret = Self::default();
        ret.block.header.version = 4;
        ret
""", """        let mut block = Block::default();
        block.header.version = 4;
        Self { block }
""")]

# ---- address
R["ad-consts"] = [(AD, "        if bytes.len() > MAX_ADDRESS_BYTES {\n", "        let too_long = bytes.len() >= MAX_ADDRESS_BYTES + 1;\n        if too_long {\n")]
R["ad-nolen"] = [(AD, "        let bytes = script.as_bytes();\n", "        let bytes: &[u8] = &script.bytes;\n")]
R["ad-ops"] = [(AD, """                let mut script = Script::new();
                script.append(OpCode::OpHash160);
                script.append(HASH160_SIZE_HEX);
                script.append(script_hash);
                script.append(OpCode::OpEqual);
                script
""", """                let mut bytes = vec![OpCode::OpHash160 as u8, HASH160_SIZE_HEX];
                bytes.extend_from_slice(script_hash.as_bytes());
                bytes.push(OpCode::OpEqual as u8);
                Script::from(bytes)
""")]
R["ad-witness-helper"] = [(AD, """                let mut script = Script::new();
                script.append(OpCode::Op0);
                script.append(HASH256_SIZE_HEX);
                script.append(script_hash);
                script
""", """                witness_program(script_hash.as_bytes())
"""), (AD, "impl Default for Address {\n", """fn witness_program(hash: &[u8]) -> Script {
    let mut script = Script::new();
    script.append(OpCode::Op0);
    script.append(hash.len() as u8);
    script.append(hash);
    script
}

impl Default for Address {
""")]
R["ad-predicates"] = [(AD, """        match bytes {
            &[OP_DUP, OP_HASH_160, HASH160_SIZE_HEX, ref addr @ .., OP_EQUAL_VERIFY, OP_CHECK_SIG]
                if addr.len() == HASH160_SIZE_HEX as usize =>
            {
                Ok(Self::P2PKH(H160::from_slice(addr)))
            }
""", """        if script.is_p2pkh() {
            return Ok(Self::P2PKH(H160::from_slice(&bytes[3..23])));
        }

        match bytes {
""")]
R["ad-match-ref"] = [(AD, """            &[OP_HASH_160, HASH160_SIZE_HEX, ref addr @ .., OP_EQUAL] if addr.len() == HASH160_SIZE_HEX as usize => {
""", """            [OP_HASH_160, HASH160_SIZE_HEX, addr @ .., OP_EQUAL] if addr.len() == usize::from(HASH160_SIZE_HEX) => {
""")]
R["ad-iszero"] = [(AD, """            Self::P2PKH(hash) | Self::P2SH(hash) | Self::P2WPKHv0(hash) => hash.is_zero(),
            Self::P2WSHv0(hash) => hash.is_zero(),
""", """            Self::P2WSHv0(hash) => *hash == H256::zero(),
            Self::P2PKH(hash) | Self::P2SH(hash) | Self::P2WPKHv0(hash) => *hash == H160::zero(),
""")]
R["ad-secret-concat"] = [(AD, """        let mut hasher = Sha256::default();
        // input compressed public key
        hasher.input(&self.0);
        // input secure id
        hasher.input(secure_id.as_bytes());

        let mut bytes = [0; 32];
        bytes.copy_from_slice(&hasher.result()[..]);
        bytes
""", """        let preimage = [&self.0[..], secure_id.as_bytes()].concat();
        let digest = Sha256::digest(&preimage);
        let mut bytes = [0u8; 32];
        bytes.copy_from_slice(digest.as_slice());
        bytes
""")]
R["ad-secret-chain"] = [(AD, """        let mut hasher = Sha256::default();
        // input compressed public key
        hasher.input(&self.0);
        // input secure id
        hasher.input(secure_id.as_bytes());

        let mut bytes = [0; 32];
        bytes.copy_from_slice(&hasher.result()[..]);
        bytes
""", """        Sha256::new().chain(&self.0).chain(secure_id.as_bytes()).result().into()
""")]
R["ad-mul"] = [(AD, """        let mut public_key = Secp256k1PublicKey::from_slice(&self.0)?;
        // D = V * c
        public_key.mul_assign(global::SECP256K1, secret_key)?;
        Ok(Self(public_key.serialize()))
""", """        Secp256k1PublicKey::from_slice(&self.0).and_then(|mut public_key| {
            public_key.mul_assign(global::SECP256K1, secret_key)?;
            Ok(Self(public_key.serialize()))
        })
""")]
R["ad-sigscript"] = [(AD, """        let mut script = Script::new();
        script.append(OpCode::Op0);
        script.append(&sig);
        script.append(self.to_redeem_script());
        script
""", """        let redeem_script = self.to_redeem_script();
        let mut script = Script::default();
        script.append(OpCode::Op0);
        script.append(sig);
        script.append(redeem_script);
        script
""")]

# ---- formatter
R["fo-reduce-q"] = [(FO, """        self.length_bound
            .checked_sub(bytes)
            .map(|new_self| self.length_bound = new_self)
            .ok_or(Error::BoundExceeded)
""", """        if bytes > self.length_bound {
            return Err(Error::BoundExceeded);
        }
        self.length_bound -= bytes;
        Ok(())
""")]
R["fo-write-inline"] = [(FO, """        self.checked_reduce(buf.len() as u32)?;
        self.bytes.extend_from_slice(buf);
        Ok(())
    }
}

/// Type to be""", """        self.checked_reduce(buf.len() as u32)
            .map(|()| self.bytes.extend_from_slice(buf))
    }
}

/// Type to be""")]
R["fo-cuint-bytes"] = [(FO, """            0xfd_u8.try_format(w)?;
            (self.value as u16).try_format(w)?;
        } else if""", """            w.write(&[0xfd])?;
            w.write(&(self.value as u16).to_le_bytes())?;
        } else if""")]
R["fo-cuint-range"] = [(FO, """        if self.value < 0xfd {
            (self.value as u8).try_format(w)?;
        } else if self.value <= u16::MAX as u64 {
            0xfd_u8.try_format(w)?;
            (self.value as u16).try_format(w)?;
        } else if self.value <= u32::MAX as u64 {
            0xfe_u8.try_format(w)?;
            (self.value as u32).try_format(w)?;
        } else {
            0xff_u8.try_format(w)?;
            self.value.try_format(w)?;
        }
        Ok(())
""", """        match self.value {
            value @ 0..=0xfc => (value as u8).try_format(w),
            value @ 0xfd..=0xffff => {
                0xfd_u8.try_format(w)?;
                (value as u16).try_format(w)
            }
            value @ 0x1_0000..=0xffff_ffff => {
                0xfe_u8.try_format(w)?;
                (value as u32).try_format(w)
            }
            value => {
                0xff_u8.try_format(w)?;
                value.try_format(w)
            }
        }
""")]
R["fo-vec-from"] = [(FO, """        CompactUint {
            value: self.len() as u64,
        }
        .try_format(w)?;
        for value in self.iter() {
            value.try_format(w)?;
        }
        Ok(())
""", """        CompactUint::from_usize(self.len()).try_format(w)?;
        self.iter().try_for_each(|value| value.try_format(w))
""")]
R["fo-input-len"] = [(FO, """        if let TransactionInputSource::Coinbase(Some(height)) = self.source {
            let height_bytes = Script::height(height);
            // account for the height in version 2 blocks
            let script_len = self.script.len().saturating_add(height_bytes.len());

            CompactUint::from_usize(script_len).try_format(w)?;
            height_bytes.as_bytes().try_format(w)?;
        } else {
            CompactUint::from_usize(self.script.len()).try_format(w)?;
        }
        w.write(&self.script)?; // we already formatted the length
""", """        let prefix: Vec<u8> = match self.source {
            TransactionInputSource::Coinbase(Some(height)) => Script::height(height).as_bytes().to_vec(),
            _ => vec![],
        };
        CompactUint::from_usize(self.script.len().saturating_add(prefix.len())).try_format(w)?;
        w.write(&prefix)?;
        w.write(&self.script)?; // we already formatted the length
""")]
R["fo-input-prev"] = [(FO, """        let (previous_hash, previous_index) = match self.source {
            TransactionInputSource::Coinbase(_) => (H256Le::zero(), u32::MAX),
            TransactionInputSource::FromOutput(hash, index) => (hash, index),
        };
        previous_hash.try_format(w)?;
        previous_index.try_format(w)?;
""", """        match &self.source {
            TransactionInputSource::FromOutput(hash, index) => {
                hash.try_format(w)?;
                index.try_format(w)?;
            }
            TransactionInputSource::Coinbase(_) => {
                H256Le::zero().try_format(w)?;
                u32::MAX.try_format(w)?;
            }
        }
""")]
R["fo-tx-flat"] = [(FO, """        if !self.has_witness() {
            self.inputs.try_format(w)?;
            self.outputs.try_format(w)?;
        } else {
            WITNESS_MARKER.try_format(w)?;
            WITNESS_FLAG.try_format(w)?;
            self.inputs.try_format(w)?;
            self.outputs.try_format(w)?;
            for input in self.inputs.iter() {
                input.witness.try_format(w)?;
            }
        }

        self.lock_at.try_format(w)?;
        Ok(())
""", """        let with_witness = self.has_witness();
        if with_witness {
            w.write(&[WITNESS_MARKER, WITNESS_FLAG])?;
        }
        self.inputs.try_format(w)?;
        self.outputs.try_format(w)?;
        if with_witness {
            self.inputs.iter().try_for_each(|input| input.witness.try_format(w))?;
        }
        self.lock_at.try_format(w)
""")]
R["fo-tx-early"] = [(FO, """        if !self.has_witness() {
            self.inputs.try_format(w)?;
            self.outputs.try_format(w)?;
        } else {
""", """        if !self.has_witness() {
            self.inputs.try_format(w)?;
            self.outputs.try_format(w)?;
            return self.lock_at.try_format(w);
        } else {
""")]
R["fo-nowitness"] = [(TY, """        self.version.try_format(w)?;
        self.inputs.try_format(w)?;
        self.outputs.try_format(w)?;
        self.lock_at.try_format(w)?;
        Ok(())
""", """        let Transaction { version, inputs, outputs, lock_at } = self;
        version.try_format(w)?;
        inputs.try_format(w)?;
        outputs.try_format(w)?;
        lock_at.try_format(w)
""")]
R["fo-hdr-last"] = [(FO, """        self.nonce.try_format(w)?;
        Ok(())
""", """        self.nonce.try_format(w)
""")]
R["fo-u256"] = [(FO, """        let bits = self.clone().get_compact().ok_or(Error::InvalidCompact)?;
        w.write(&bits.to_le_bytes())
""", """        match self.get_compact() {
            Some(bits) => bits.try_format(w),
            None => Err(Error::InvalidCompact),
        }
""")]
R["fo-proof-chunks"] = [(FO, """            bytes[p.checked_div(8).ok_or(Error::ArithmeticUnderflow)?] |= (self.flag_bits[p] as u8) << (p % 8) as u8;
""", """            let (byte_index, bit_index) = (p / 8, p % 8);
            if self.flag_bits[p] {
                bytes[byte_index] |= 1u8 << bit_index;
            }
""")]
R["fo-proof-enum"] = [(FO, """        for p in 0..self.flag_bits.len() {
            bytes[p.checked_div(8).ok_or(Error::ArithmeticUnderflow)?] |= (self.flag_bits[p] as u8) << (p % 8) as u8;
        }
""", """        for (p, bit) in self.flag_bits.iter().enumerate() {
            bytes[p / 8] |= u8::from(*bit) << (p % 8);
        }
""")]
R["fo-locktime"] = [(FO, """            LockTime::BlockHeight(b) | LockTime::Time(b) => b.try_format(w),
""", """            LockTime::BlockHeight(height) => height.try_format(w),
            LockTime::Time(time) => time.try_format(w),
""")]

# ---- script
R["sc-height-pop"] = [(SC, """        for i in (1..4).rev() {
            // remove trailing zeroes, but always keep first byte even if it's zero
            if height_bytes[i] == 0 {
                height_bytes.remove(i);
            } else {
                break;
            }
        }
""", """        for i in (1..4).rev() {
            // remove trailing zeroes, but always keep first byte even if it's zero
            if height_bytes[i] != 0 {
                break;
            }
            height_bytes.truncate(i);
        }
""")]
R["sc-height-sign"] = [(SC, """        if let Some(x) = height_bytes.last() {
            if (x & 0x80) != 0 {
                height_bytes.push(0);
            }
        }
""", """        let needs_sign_byte = height_bytes.last().map_or(false, |x| *x >= 0x80);
        if needs_sign_byte {
            height_bytes.push(0);
        }
""")]
R["sc-p2pkh-slice"] = [(SC, """        self.len() == P2PKH_SCRIPT_SIZE as usize
            && self.bytes[0] == OpCode::OpDup as u8
            && self.bytes[1] == OpCode::OpHash160 as u8
            && self.bytes[2] == HASH160_SIZE_HEX
            && self.bytes[23] == OpCode::OpEqualVerify as u8
            && self.bytes[24] == OpCode::OpCheckSig as u8
""", """        let bytes = self.as_bytes();
        bytes.len() == P2PKH_SCRIPT_SIZE as usize
            && bytes[..3] == [OpCode::OpDup as u8, OpCode::OpHash160 as u8, HASH160_SIZE_HEX]
            && bytes[23..] == [OpCode::OpEqualVerify as u8, OpCode::OpCheckSig as u8]
""")]
R["sc-p2pkh-early"] = [(SC, """        self.len() == P2PKH_SCRIPT_SIZE as usize
            && self.bytes[0] == OpCode::OpDup as u8
            && self.bytes[1] == OpCode::OpHash160 as u8
            && self.bytes[2] == HASH160_SIZE_HEX
            && self.bytes[23] == OpCode::OpEqualVerify as u8
            && self.bytes[24] == OpCode::OpCheckSig as u8
""", """        if self.bytes.len() != 25 {
            return false;
        }
        let has_prefix = self.bytes[0] == OpCode::OpDup as u8
            && self.bytes[1] == OpCode::OpHash160 as u8
            && self.bytes[2] == HASH160_SIZE_HEX;
        let has_suffix = self.bytes[23] == OpCode::OpEqualVerify as u8 && self.bytes[24] == OpCode::OpCheckSig as u8;
        has_prefix && has_suffix
""")]
R["sc-p2wsh-starts"] = [(SC, """        self.len() == P2WSH_V0_SCRIPT_SIZE as usize
            && self.bytes[0] == OpCode::Op0 as u8
            && self.bytes[1] == HASH256_SIZE_HEX
""", """        self.len() == P2WSH_V0_SCRIPT_SIZE as usize && self.bytes.starts_with(&[OpCode::Op0 as u8, HASH256_SIZE_HEX])
""")]
R["sc-witness-helper"] = [(SC, """        self.len() == P2WSH_V0_SCRIPT_SIZE as usize
            && self.bytes[0] == OpCode::Op0 as u8
            && self.bytes[1] == HASH256_SIZE_HEX
    }
""", """        self.is_witness_v0(HASH256_SIZE_HEX)
    }

    fn is_witness_v0(&self, program_len: u8) -> bool {
        self.len() == program_len as usize + 2 && self.bytes[0] == OpCode::Op0 as u8 && self.bytes[1] == program_len
    }
""")]
R["sc-extract-match"] = [(SC, """        let output_script = &self.bytes;
        if *output_script.get(0).ok_or(Error::EndOfFile)? != OpCode::OpReturn as u8 {
            return Err(Error::MalformedOpReturnOutput);
        }
""", """        let output_script = &self.bytes;
        match output_script.first() {
            None => return Err(Error::EndOfFile),
            Some(op) if *op == OpCode::OpReturn as u8 => {}
            Some(_) => return Err(Error::MalformedOpReturnOutput),
        }
""")]
R["sc-extract-then"] = [(SC, """        if result.len() != output_script[1] as usize {
            return Err(Error::MalformedOpReturnOutput);
        }

        Ok(result.to_vec())
""", """        let declared_len = usize::from(output_script[1]);
        if result.len() == declared_len {
            Ok(Vec::from(result))
        } else {
            Err(Error::MalformedOpReturnOutput)
        }
""")]
R["sc-extract-split"] = [(SC, """        let result = output_script.get(2..).ok_or(Error::EndOfFile)?;

        if result.len() != output_script[1] as usize {
            return Err(Error::MalformedOpReturnOutput);
        }

        Ok(result.to_vec())
""", """        if output_script.len() < 2 {
            return Err(Error::EndOfFile);
        }
        let (head, result) = output_script.split_at(2);
        if head[1] as usize != result.len() {
            return Err(Error::MalformedOpReturnOutput);
        }
        Ok(result.to_vec())
""")]
R["sc-opreturn-bytes"] = [(SC, """        let mut script = Script::new();
        script.append(OpCode::OpReturn);
        script.append(return_content.len() as u8);
        script.append(return_content);
        script
""", """        let mut bytes = vec![OpCode::OpReturn as u8, return_content.len() as u8];
        bytes.extend_from_slice(return_content);
        Script { bytes }
""")]
R["sc-empty"] = [(SC, "        self.len() == 0", "        self.bytes.is_empty()")]

# ---- math
R["mx-set-helper"] = [(MA, """        } else if word != 0 && ((size > 34) || (word > 0xff && size > 33) || (word > 0xffff && size > 32)) {
            // overflow
            None
""", """        } else if overflows(word, size) {
            // overflow
            None
"""), (MA, "pub trait SetCompact {\n", """fn overflows(word: u32, size: u32) -> bool {
    if word == 0 {
        return false;
    }
    size > 34 || (size > 33 && word > 0xff) || (size > 32 && word > 0xffff)
}

pub trait SetCompact {
""")]
R["mx-set-early"] = [(MA, """        if word != 0 && (compact & 0x00800000) != 0 {
            // negative
            None
        } else if word != 0 && ((size > 34) || (word > 0xff && size > 33) || (word > 0xffff && size > 32)) {
            // overflow
            None
        } else {
            Some(value)
        }
""", """        if word == 0 {
            return Some(value);
        }
        let is_negative = compact & 0x00800000 != 0;
        let is_overflow = (size > 34) || (word > 0xff && size > 33) || (word > 0xffff && size > 32);
        if is_negative || is_overflow {
            None
        } else {
            Some(value)
        }
""")]
R["mx-get-q"] = [(MA, """        if !(compact & !0x007fffff == 0) {
            None
        } else if !(size < 256) {
            None
        } else {
            Some(compact | (size << 24) as u32)
        }
""", """        let mantissa_fits = compact & !0x007fffff == 0;
        (mantissa_fits && size < 256).then(|| compact | (size << 24) as u32)
""")]
R["mx-get-match"] = [(MA, """        let mut compact = if size <= 3 {
            (self.low_u64() << (8 * (3 - size))) as u32
        } else {
            let bn = self >> (8 * (size - 3));
            bn.low_u32()
        };
""", """        let mut compact = match size {
            0..=3 => (self.low_u64() << (8 * (3 - size))) as u32,
            _ => (self >> (8 * (size - 3))).low_u32(),
        };
""")]
R["mx-set-branch"] = [(MA, """        let value = if size <= 3 {
            word >>= 8 * (3 - size);
            U256::from(word)
        } else {
            let word = U256::from(word);
            word << 8 * (size - 3)
        };
""", """        let value;
        if size > 3 {
            value = U256::from(word) << (8 * (size - 3));
        } else {
            word = word >> (8 * (3 - size));
            value = U256::from(word);
        }
""")]

# ---- pow
R["po-consts"] = [(PO, """    let mut actual_timespan = last_block_time.saturating_sub(first_block_time);

    if actual_timespan < TARGET_TIMESPAN / TARGET_TIMESPAN_DIVISOR {
        actual_timespan = TARGET_TIMESPAN / TARGET_TIMESPAN_DIVISOR;
    }

    if actual_timespan > TARGET_TIMESPAN * TARGET_TIMESPAN_DIVISOR {
        actual_timespan = TARGET_TIMESPAN * TARGET_TIMESPAN_DIVISOR;
    }
""", """    const MIN_TIMESPAN: u64 = TARGET_TIMESPAN / TARGET_TIMESPAN_DIVISOR;
    const MAX_TIMESPAN: u64 = TARGET_TIMESPAN * TARGET_TIMESPAN_DIVISOR;
    let elapsed = last_block_time.saturating_sub(first_block_time);
    let actual_timespan = if elapsed < MIN_TIMESPAN {
        MIN_TIMESPAN
    } else if elapsed > MAX_TIMESPAN {
        MAX_TIMESPAN
    } else {
        elapsed
    };
""")]
R["po-elapsed"] = [(PO, "    let mut actual_timespan = last_block_time.saturating_sub(first_block_time);\n", """    let mut actual_timespan = if last_block_time > first_block_time {
        last_block_time - first_block_time
    } else {
        0
    };
""")]
R["po-min"] = [(PO, """    let target = previous_target * actual_timespan;
    let target = target / TARGET_TIMESPAN;

    // ensure target does not exceed max
    if target > UNROUNDED_MAX_TARGET {
        UNROUNDED_MAX_TARGET
    } else {
        target
    }
    .get_compact()
    .ok_or(Error::InvalidCompact)
""", """    let scaled = previous_target * U256::from(actual_timespan) / U256::from(TARGET_TIMESPAN);
    let target = core::cmp::min(scaled, UNROUNDED_MAX_TARGET);
    match target.get_compact() {
        Some(bits) => Ok(bits),
        None => Err(Error::InvalidCompact),
    }
""")]

# ---- utils
R["ut-log2-for"] = [(UT, """    let mut current = value - 1;
    let mut result: u32 = 0;
    while current > 0 {
        current >>= 1;
        result += 1;
    }
    result
""", """    let mut remaining = value - 1;
    let mut bits = 0u32;
    loop {
        if remaining == 0 {
            return bits;
        }
        remaining /= 2;
        bits += 1;
    }
""")]
R["ut-sha-twice"] = [(UT, """    let mut hasher = Sha256::default();
    hasher.input(bytes);
    let digest = hasher.result();

    let mut second_hasher = Sha256::default();
    second_hasher.input(digest);

    let mut ret = [0; 32];
    ret.copy_from_slice(&second_hasher.result()[..]);
    ret
""", """    Sha256::digest(Sha256::digest(bytes).as_slice()).into()
""")]
R["ut-sha-new"] = [(UT, """    let mut hasher = Sha256::default();
    hasher.input(bytes);
    let digest = hasher.result();

    let mut second_hasher = Sha256::default();
    second_hasher.input(digest);
""", """    let digest = {
        let mut first_hasher = Sha256::new();
        first_hasher.input(bytes);
        first_hasher.result()
    };

    let mut second_hasher = Sha256::new();
    second_hasher.input(&digest[..]);
""")]
R["ut-merkle-array"] = [(UT, """    let mut res: Vec<u8> = vec![];
    res.extend(a);
    res.extend(b);
    H256Le::from_bytes_le(&sha256d(&res))
""", """    let concatenated = [a, b].concat();
    sha256d_le(&concatenated)
""")]
R["ut-merkle-chain"] = [(UT, """    let mut res: Vec<u8> = vec![];
    res.extend(a);
    res.extend(b);
    H256Le::from_bytes_le(&sha256d(&res))
""", """    let res: Vec<u8> = a.iter().chain(b.iter()).copied().collect();
    H256Le::from_bytes_le(&sha256d(&res))
""")]
R["ut-rev"] = [(UT, """    let mut vec = Vec::from(bytes);
    vec.reverse();
    vec
""", """    let mut reversed = Vec::with_capacity(bytes.len());
    for byte in bytes.iter().rev() {
        reversed.push(*byte);
    }
    reversed
""")]
R["ut-scriptlen-match"] = [(UT, """    if length <= 75 {
        1
    } else if length <= 255 {
        2
    } else if length <= 65535 {
        3
    } else {
        5
    }
""", """    match length {
        0..=75 => 1,
        76..=0xff => 2,
        0x100..=0xffff => 3,
        _ => 5,
    }
""")]
R["ut-header"] = [(UT, """    let header_bytes = 4 // nVersion
        + var_int_size(input_count) // number of inputs
        + var_int_size(output_count) // number of outputs
        + 4; // nLockTime

    header_bytes * 4 + extra_witness_weight
""", """    const VERSION_SIZE: u32 = 4;
    const LOCKTIME_SIZE: u32 = 4;
    let counts = var_int_size(input_count) + var_int_size(output_count);

    extra_witness_weight + 4 * (VERSION_SIZE + counts + LOCKTIME_SIZE)
""")]
R["ut-input-fn"] = [(UT, """    let input_weight = input.count
        * match input.script_type {
            InputType::P2PKH => P2PKH_IN_WEIGHT,
            InputType::P2WPKHv0 => P2WPKH_IN_WEIGHT,
            InputType::P2SH {
                num_signatures,
                num_pubkeys,
            } => {
                let redeem_script_size = 1              // OP_M
                    + num_pubkeys * (1 + PUBKEY_SIZE)   // OP_PUSH33 <pubkey>
                    + 1                                 // OP_N
                    + 1; // OP_CHECKMULTISIG
                let script_sig_size = 1                     // size(0)
                    + num_signatures * (1 + SIGNATURE_SIZE) // size(SIGNATURE_SIZE) + signature
                    + script_length_size(redeem_script_size)
                    + redeem_script_size;
                let input_size = 32 + 4 + var_int_size(script_sig_size) + script_sig_size + 4;

                input_size * 4
            }
        };
""", """    let weight_per_input = match input.script_type {
        InputType::P2SH {
            num_signatures,
            num_pubkeys,
        } => p2sh_input_weight(num_signatures, num_pubkeys),
        InputType::P2PKH => P2PKH_IN_WEIGHT,
        InputType::P2WPKHv0 => P2WPKH_IN_WEIGHT,
    };
    let input_weight = weight_per_input * input.count;
"""), (UT, "pub const fn virtual_transaction_size", """const fn p2sh_input_weight(num_signatures: u32, num_pubkeys: u32) -> u32 {
    let redeem_script_size = 3 + num_pubkeys * (1 + PUBKEY_SIZE);
    let script_sig_size =
        1 + num_signatures * (1 + SIGNATURE_SIZE) + script_length_size(redeem_script_size) + redeem_script_size;
    4 * (40 + var_int_size(script_sig_size) + script_sig_size)
}

pub const fn virtual_transaction_size""")]
R["ut-vsize"] = [(UT, """    let weight = transaction_weight(input, output);
    (weight + 3) / 4
""", """    const SCALE: u32 = 4;
    (transaction_weight(input, output) + (SCALE - 1)) / SCALE
""")]
