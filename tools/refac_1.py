B = "crates/bitcoin/src/"
P, M = B + "parser.rs", B + "merkle.rs"
REFS = {
 "slice-helper": [(P, """impl<T: Parsable> Parsable for Vec<T> {
    fn parse(raw_bytes: &[u8], position: usize) -> Result<(Vec<T>, usize), Error> {
        let mut result: Vec<T> = Vec::new();
        let slice = raw_bytes.get(position..).ok_or(Error::EndOfFile)?;
        let mut parser = BytesParser::new(slice);
""", """fn parser_at(raw_bytes: &[u8], position: usize) -> Result<BytesParser, Error> {
    let tail = raw_bytes.get(position..).ok_or(Error::EndOfFile)?;
    Ok(BytesParser::new(tail))
}

impl<T: Parsable> Parsable for Vec<T> {
    fn parse(raw_bytes: &[u8], position: usize) -> Result<(Vec<T>, usize), Error> {
        let mut result: Vec<T> = Vec::new();
        let mut parser = parser_at(raw_bytes, position)?;
""")],
 "vec-collect": [(P, """        let count: CompactUint = parser.parse()?;
        for _ in 0..count.value {
            result.push(parser.parse()?);
        }
        Ok((result, parser.position))""", """        let count: CompactUint = parser.parse()?;
        let mut remaining = count.value;
        while remaining > 0 {
            result.push(parser.parse()?);
            remaining -= 1;
        }
        Ok((result, parser.position))""")],
 "vec-collect2": [(P, """        let mut result: Vec<T> = Vec::new();
        let slice = raw_bytes.get(position..).ok_or(Error::EndOfFile)?;
        let mut parser = BytesParser::new(slice);
        let count: CompactUint = parser.parse()?;
        for _ in 0..count.value {
            result.push(parser.parse()?);
        }
        Ok((result, parser.position))""", """        let slice = raw_bytes.get(position..).ok_or(Error::EndOfFile)?;
        let mut parser = BytesParser::new(slice);
        let CompactUint { value: count } = parser.parse()?;
        let result = (0..count).map(|_| parser.parse()).collect::<Result<Vec<T>, Error>>()?;
        Ok((result, parser.position))""")],
 "bool-map": [(P, """        let mut flag_bits = Vec::new();
        for i in 0..8 {
            let mask = 1 << i;
            let bit = (byte & mask) != 0;
            flag_bits.push(bit);
        }
        Ok((flag_bits, 1))""", """        let flag_bits = (0..8).map(|i| (byte >> i) & 1 == 1).collect();
        Ok((flag_bits, 1))""")],
 "tx-version-match": [(P, """        if version != 1 && version != 2 {
            return Err(Error::MalformedTransaction);
        }
""", """        match version {
            1 | 2 => (),
            _ => return Err(Error::MalformedTransaction),
        }
""")],
 "tx-version-matches": [(P, """        if version != 1 && version != 2 {
            return Err(Error::MalformedTransaction);
        }
""", """        if !matches!(version, 1 | 2) {
            return Err(Error::MalformedTransaction);
        }
""")],
 "tx-version-range": [(P, """        if version != 1 && version != 2 {
            return Err(Error::MalformedTransaction);
        }
""", """        if !(1..=2).contains(&version) {
            return Err(Error::MalformedTransaction);
        }
""")],
 "tx-flags-if": [(P, """        let mut inputs: Vec<TransactionInput> = parser.parse_with(version)?;

        let mut flags: u8 = 0;
        if inputs.is_empty() && allow_witness {
            flags = parser.parse()?;
            inputs = parser.parse_with(version)?;
        }
""", """        let first: Vec<TransactionInput> = parser.parse_with(version)?;
        let (mut flags, mut inputs): (u8, Vec<TransactionInput>) = if first.is_empty() && allow_witness {
            let marker_flags = parser.parse()?;
            (marker_flags, parser.parse_with(version)?)
        } else {
            (0, first)
        };
""")],
 "tx-witness-any": [(P, """            if inputs.iter().all(|input| input.witness.is_empty()) {""", """            let has_witness = inputs.iter().any(|input| !input.witness.is_empty());
            if !has_witness {""")],
 "tx-witness-helper": [(P, """            for input in &mut inputs {
                input.with_witness(parser.parse()?);
            }
""", """            for input in inputs.iter_mut() {
                let stack: Vec<Vec<u8>> = parser.parse()?;
                input.with_witness(stack);
            }
""")],
 "tx-witness-idx": [(P, """            for input in &mut inputs {
                input.with_witness(parser.parse()?);
            }
""", """            for i in 0..inputs.len() {
                let stack = parser.parse()?;
                inputs[i].with_witness(stack);
            }
""")],
 "locktime-helper": [(P, """        let lock_at = if locktime_or_blockheight < LOCKTIME_THRESHOLD {
            LockTime::BlockHeight(locktime_or_blockheight)
        } else {
            LockTime::Time(locktime_or_blockheight)
        };

        if flags != 0 {
            return Err(Error::MalformedTransaction);
        }
""", """        if flags != 0 {
            return Err(Error::MalformedTransaction);
        }

        let lock_at = classify_lock_time(locktime_or_blockheight);
"""), (P, "impl ParsableMeta<i32> for TransactionInput {", """fn classify_lock_time(raw: u32) -> LockTime {
    if raw >= LOCKTIME_THRESHOLD {
        LockTime::Time(raw)
    } else {
        LockTime::BlockHeight(raw)
    }
}

impl ParsableMeta<i32> for TransactionInput {""")],
 "u256-get": [(P, """        if position + 4 > raw_bytes.len() {
            return Err(Error::EndOfFile);
        }

        let mut bytes: [u8; 4] = Default::default();
        bytes.copy_from_slice(&raw_bytes[position..position + 4]);

        let bits = u32::from_le_bytes(bytes);
""", """        let (bits, _) = u32::parse(raw_bytes, position)?;
""")],
 "u256-get2": [(P, """        if position + 4 > raw_bytes.len() {
            return Err(Error::EndOfFile);
        }

        let mut bytes: [u8; 4] = Default::default();
        bytes.copy_from_slice(&raw_bytes[position..position + 4]);
""", """        let slice = raw_bytes.get(position..position + 4).ok_or(Error::EndOfFile)?;
        let mut bytes = [0u8; 4];
        bytes.copy_from_slice(slice);
""")],
 "cursor-advance": [(P, """        let (result, bytes_consumed) = T::parse(&self.raw_bytes, self.position)?;
        self.position = self
            .position
            .checked_add(bytes_consumed)
            .ok_or(Error::ArithmeticOverflow)?;
        Ok(result)""", """        let (result, bytes_consumed) = T::parse(&self.raw_bytes, self.position)?;
        self.advance(bytes_consumed)?;
        Ok(result)"""), (P, """    pub(crate) fn parse_with<T, U>""", """    fn advance(&mut self, count: usize) -> Result<(), Error> {
        self.position = self.position.checked_add(count).ok_or(Error::ArithmeticOverflow)?;
        Ok(())
    }

    pub(crate) fn parse_with<T, U>""")],
 "cuint-helper": [(P, """        0xfd => {
            let mut num_bytes: [u8; 2] = Default::default();
            num_bytes.copy_from_slice(&varint.get(1..3).ok_or(Error::EndOfFile)?);
            Ok((u16::from_le_bytes(num_bytes) as u64, 3))
        }
        0xfe => {
            let mut num_bytes: [u8; 4] = Default::default();
            num_bytes.copy_from_slice(&varint.get(1..5).ok_or(Error::EndOfFile)?);
            Ok((u32::from_le_bytes(num_bytes) as u64, 5))
        }
        0xff => {
            let mut num_bytes: [u8; 8] = Default::default();
            num_bytes.copy_from_slice(&varint.get(1..9).ok_or(Error::EndOfFile)?);
            Ok((u64::from_le_bytes(num_bytes) as u64, 9))
        }
""", """        0xfd => Ok((read_le(varint, 2)?, 3)),
        0xfe => Ok((read_le(varint, 4)?, 5)),
        0xff => Ok((read_le(varint, 8)?, 9)),
"""), (P, "/// Tries to parse the raw bytes into a Bitcoin transaction" if False else "pub fn parse_transaction(raw", """fn read_le(varint: &[u8], width: usize) -> Result<u64, Error> {
    let mut buf = [0u8; 8];
    let src = varint.get(1..1 + width).ok_or(Error::EndOfFile)?;
    buf[..width].copy_from_slice(src);
    Ok(u64::from_le_bytes(buf))
}

pub fn parse_transaction(raw""")],
 "cuint-if": [(P, """        0xfd => {
            let mut num_bytes: [u8; 2] = Default::default();
            num_bytes.copy_from_slice(&varint.get(1..3).ok_or(Error::EndOfFile)?);
            Ok((u16::from_le_bytes(num_bytes) as u64, 3))
        }
""", """        0xfd => {
            let (n, consumed) = u16::parse(varint, 1)?;
            Ok((u64::from(n), consumed + 1))
        }
""")],
 "input-height-helper": [(P, """            let mut buffer = [0u8; 4];
            // fail if the height does not fit in four bytes
            if height_size > buffer.len() as u64 {
                return Err(Error::MalformedTransaction);
            }
            let bytes = parser.read(height_size as usize)?;
            buffer[..(height_size as usize)]
                .copy_from_slice(bytes.get(0..(height_size as usize)).ok_or(Error::EndOfFile)?);
            Some(u32::from_le_bytes(buffer))
""", """            Some(read_height(&mut parser, height_size)?)
"""), (P, "fn parse_transaction_output(raw", """fn read_height(parser: &mut BytesParser, height_size: u64) -> Result<u32, Error> {
    // fail if the height does not fit in four bytes
    if height_size > 4 {
        return Err(Error::MalformedTransaction);
    }
    let mut buffer = [0u8; 4];
    let bytes = parser.read(height_size as usize)?;
    buffer[..bytes.len()].copy_from_slice(&bytes);
    Ok(u32::from_le_bytes(buffer))
}

fn parse_transaction_output(raw""")],
 "input-source-match": [(P, """        let height = if version != 2 {
            // version 1 does not include height
            None
        } else {""", """        let height = if version == 1 {
            // version 1 does not include height
            None
        } else {""")] if False else [(P, """    if is_coinbase && previous_index != u32::MAX {
        return Err(Error::MalformedTransaction);
    }
""", """    if is_coinbase {
        if previous_index != u32::MAX {
            return Err(Error::MalformedTransaction);
        }
    }
""")],
 "input-late-check": [(P, """    let script = parser.read(script_size as usize)?;
    // fail if coinbase script is longer than 100 bytes
    if is_coinbase && script.len() > 100 {
        return Err(Error::MalformedTransaction);
    }

    let sequence: u32 = parser.parse()?;
""", """    // fail if coinbase script is longer than 100 bytes
    if is_coinbase && script_size > 100 {
        return Err(Error::MalformedTransaction);
    }
    let script = parser.read(script_size as usize)?;

    let sequence: u32 = parser.parse()?;
""")],
 "output-const": [(P, """    if script_size.value > 10_000 {
        return Err(Error::MalformedTransaction);
    }
    let script = parser.read(script_size.value as usize)?;
""", """    let script_len = script_size.value;
    if !(script_len <= MAX_SCRIPT_SIZE) {
        return Err(Error::MalformedTransaction);
    }
    let script = parser.read(script_len as usize)?;
"""), (P, "fn parse_transaction_output(raw", "const MAX_SCRIPT_SIZE: u64 = 10_000;\n\nfn parse_transaction_output(raw")],
 "header-reorder": [(P, """    let mut parser = BytesParser::new(bytes);
    let version: i32 = parser.parse()?;
    let hash_prev_block: H256Le = parser.parse()?;
    let merkle_root: H256Le = parser.parse()?;
    let timestamp: u32 = parser.parse()?;
    let target: U256 = parser.parse()?;
    let nonce: u32 = parser.parse()?;
    let hash: H256Le = sha256d_le(bytes);

    let block_header = BlockHeader {
        merkle_root,
        target,
        timestamp,
        version,
        hash_prev_block,
        nonce,
        hash,
    };

    Ok(block_header)""", """    let hash = sha256d_le(bytes);
    let mut parser = BytesParser::new(bytes);
    Ok(BlockHeader {
        version: parser.parse()?,
        hash_prev_block: parser.parse()?,
        merkle_root: parser.parse()?,
        timestamp: parser.parse()?,
        target: parser.parse()?,
        nonce: parser.parse()?,
        hash,
    })""")],
 "m-width-div": [(M, "        (transactions_count + (1 << height) - 1) >> height", "        let span = 1 << height;\n        (transactions_count + span - 1) >> height")],
 "m-height-loop": [(M, """        let mut height = 0;
        while Self::compute_width(transactions_count, height) > 1 {
            height += 1;
        }
        height""", """        let mut height = 0;
        loop {
            if Self::compute_width(transactions_count, height) <= 1 {
                return height;
            }
            height += 1;
        }""")],
 "m-root-children": [(M, """        if height == 0 {
            Ok(hashes[index as usize])
        } else {
            let left = Self::compute_root(
                index.checked_mul(2).ok_or(Error::ArithmeticOverflow)?,
                height.checked_sub(1).ok_or(Error::ArithmeticUnderflow)?,
                transactions_count,
                hashes,
            )?;
            let right_index = index
                .checked_mul(2)
                .ok_or(Error::ArithmeticOverflow)?
                .checked_add(1)
                .ok_or(Error::ArithmeticOverflow)?;
            let right = if right_index < Self::compute_width(transactions_count, height - 1) {
                Self::compute_root(
                    right_index,
                    height.checked_sub(1).ok_or(Error::ArithmeticUnderflow)?,
                    transactions_count,
                    hashes,
                )?
            } else {
                left
            };
            Ok(hash256_merkle_step(&left.to_bytes_le(), &right.to_bytes_le()))
        }""", """        if height == 0 {
            return Ok(hashes[index as usize]);
        }
        let child_height = height.checked_sub(1).ok_or(Error::ArithmeticUnderflow)?;
        let left_index = index.checked_mul(2).ok_or(Error::ArithmeticOverflow)?;
        let right_index = left_index.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
        let left = Self::compute_root(left_index, child_height, transactions_count, hashes)?;
        let has_right = right_index < Self::compute_width(transactions_count, child_height);
        let mut right = left;
        if has_right {
            right = Self::compute_root(right_index, child_height, transactions_count, hashes)?;
        }
        Ok(hash256_merkle_step(&left.to_bytes_le(), &right.to_bytes_le()))""")],
 "m-verify-helper": [(M, """        // fail if no transactions
        if self.merkle_proof.transactions_count == 0 {
            return Err(Error::MalformedMerkleProof);
        }

        // fail if too many transactions
        if self.merkle_proof.transactions_count > MAX_TRANSACTIONS_IN_PROOF {
            return Err(Error::MalformedMerkleProof);
        }

        // fail if not at least one bit per hash
        if self.merkle_proof.flag_bits.len() < self.merkle_proof.hashes.len() {
            return Err(Error::MalformedMerkleProof);
        }
""", """        self.merkle_proof.ensure_well_formed()?;
"""), (M, """impl MerkleProof {
""", """impl MerkleProof {
    fn ensure_well_formed(&self) -> Result<(), Error> {
        let count = self.transactions_count;
        // fail if there are no or too many transactions, or not at least one bit per hash
        if count == 0 || count > MAX_TRANSACTIONS_IN_PROOF || self.flag_bits.len() < self.hashes.len() {
            Err(Error::MalformedMerkleProof)
        } else {
            Ok(())
        }
    }

""")],
 "m-verify-bytes": [(M, """        if traversal
            .bits_used
            .checked_add(7)
            .ok_or(Error::ArithmeticOverflow)?
            .checked_div(8)
            .ok_or(Error::ArithmeticUnderflow)?
            != self
                .merkle_proof
                .flag_bits
                .len()
                .checked_add(7)
                .ok_or(Error::ArithmeticOverflow)?
                .checked_div(8)
                .ok_or(Error::ArithmeticUnderflow)?
        {
            return Err(Error::MalformedMerkleProof);
        }
""", """        if bytes_for_bits(traversal.bits_used)? != bytes_for_bits(self.merkle_proof.flag_bits.len())? {
            return Err(Error::MalformedMerkleProof);
        }
"""), (M, "impl PartialTransactionProof {", """fn bytes_for_bits(bits: usize) -> Result<usize, Error> {
    Ok(bits.checked_add(7).ok_or(Error::ArithmeticOverflow)? / 8)
}

impl PartialTransactionProof {""")],
 "m-verify-destruct": [(M, """        let tx_id = self.transaction.tx_id_bounded(self.tx_encoded_len)?;

        // fail if the transaction hash is invalid
        if self.merkle_proof.hashes[hash_position] != tx_id {
            return Err(Error::InvalidTxid);
        }
        // ensure!(self.merkle_proof.hashes[hash_position] == tx_id, Error::InvalidTxid);

        Ok(ProofResult {
            extracted_root: root,
            transaction_hash: self.merkle_proof.hashes[hash_position],
""", """        let matched = self.merkle_proof.hashes[hash_position];
        let tx_id = self.transaction.tx_id_bounded(self.tx_encoded_len)?;

        // fail if the transaction hash is invalid
        if tx_id != matched {
            return Err(Error::InvalidTxid);
        }

        Ok(ProofResult {
            extracted_root: root,
            transaction_hash: tx_id,
""")],
 "m-traverse-take": [(M, """            if traversal.hashes_used >= self.hashes.len() {
                return Err(Error::MalformedMerkleProof);
            }
            let hash = self.hashes[traversal.hashes_used];
""", """            let hash = *self
                .hashes
                .get(traversal.hashes_used)
                .ok_or(Error::MalformedMerkleProof)?;
""")],
 "m-traverse-match": [(M, """        let right = if right_index < self.compute_partial_tree_width(next_height) {
            self.traverse_and_extract(next_height, right_index, traversal)?
        } else {
            left
        };

        let hashed_bytes = hash256_merkle_step(&left.to_bytes_le(), &right.to_bytes_le());
        Ok(hashed_bytes)""", """        let width = self.compute_partial_tree_width(next_height);
        let right = match right_index < width {
            true => self.traverse_and_extract(next_height, right_index, traversal)?,
            false => left,
        };

        Ok(hash256_merkle_step(&left.to_bytes_le(), &right.to_bytes_le()))""")],
 "m-build-any": [(M, """        let mut parent_of_match = false;
        let mut p = pos << height;
        while p < (pos + 1) << height && p < self.transactions_count {
            parent_of_match |= matches[p as usize];
            p += 1;
        }
""", """        let first = pos << height;
        let end = ((pos + 1) << height).min(self.transactions_count);
        let parent_of_match = (first..end).any(|p| matches[p as usize]);
""")],
 "m-build-for": [(M, """        let mut parent_of_match = false;
        let mut p = pos << height;
        while p < (pos + 1) << height && p < self.transactions_count {
            parent_of_match |= matches[p as usize];
            p += 1;
        }
""", """        let mut parent_of_match = false;
        for p in (pos << height)..((pos + 1) << height) {
            if p >= self.transactions_count {
                break;
            }
            if matches[p as usize] {
                parent_of_match = true;
            }
        }
""")],
 "m-parse-map": [(M, """        let mut hashes = Vec::<H256Le>::new();
        for _ in 0..hashes_count.value {
            hashes.push(proof_parser.parse()?);
        }
""", """        let hashes = (0..hashes_count.value)
            .map(|_| proof_parser.parse::<H256Le>())
            .collect::<Result<Vec<_>, _>>()?;
""")],
}
