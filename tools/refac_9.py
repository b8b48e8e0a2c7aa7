"""behaviour-preserving edits of the Bitcoin library: helpers on other types, matches, iterators"""
B = "crates/bitcoin/src/"
PA, TY, ME, FO, MA, PW, SC, AD, UT = (B + x + ".rs" for x in ("parser", "types", "merkle", "formatter", "math", "pow", "script", "address", "utils"))
PR, CO, HE = "primitives/src/lib.rs", "contracts/btc_swap/lib.rs", "contracts/hello_world/lib.rs"
R = REFS = {}
R["n-verify-shape"] = [(ME, """        // fail if no transactions
        if self.merkle_proof.transactions_count == 0 {
            return Err(Error::MalformedMerkleProof);
        }

        // fail if too many transactions
        if self.merkle_proof.transactions_count > MAX_TRANSACTIONS_IN_PROOF {
            return Err(Error::MalformedMerkleProof);
        }

        // fail if not at least one bit per hash
        if self.merkle_proof.flag_bits.len() < self.merkle_proof.hashes.len() {
            return Err(Error::MalformedMerkleProof);
        }
""", """        self.merkle_proof.ensure_shape()?;
"""), (ME, """        // fail if all bits are not used
        if traversal
            .bits_used
            .checked_add(7)
            .ok_or(Error::ArithmeticOverflow)?
            .checked_div(8)
            .ok_or(Error::ArithmeticUnderflow)?
            != self
                .merkle_proof
                .flag_bits
                .len()
                .checked_add(7)
                .ok_or(Error::ArithmeticOverflow)?
                .checked_div(8)
                .ok_or(Error::ArithmeticUnderflow)?
        {
            return Err(Error::MalformedMerkleProof);
        }
""", """        // fail if all bits are not used
        let used = Self::bytes_for(traversal.bits_used)?;
        let given = Self::bytes_for(self.merkle_proof.flag_bits.len())?;
        if used != given {
            return Err(Error::MalformedMerkleProof);
        }
"""), (ME, """impl PartialTransactionProof {
""", """impl PartialTransactionProof {
    fn bytes_for(bits: usize) -> Result<usize, Error> {
        bits.checked_add(7)
            .ok_or(Error::ArithmeticOverflow)?
            .checked_div(8)
            .ok_or(Error::ArithmeticUnderflow)
    }

"""), (ME, """impl MerkleProof {
    /// Returns the width""", """impl MerkleProof {
    fn ensure_shape(&self) -> Result<(), Error> {
        let MerkleProof {
            transactions_count,
            flag_bits,
            hashes,
            ..
        } = self;
        let enough_bits = flag_bits.len() >= hashes.len();
        match transactions_count {
            1..=MAX_TRANSACTIONS_IN_PROOF if enough_bits => Ok(()),
            _ => Err(Error::MalformedMerkleProof),
        }
    }

    /// Returns the width""")]
R["n-verify-zip"] = [(ME, """        let merkle_position = traversal.merkle_position.ok_or(Error::InvalidMerkleProof)?;
        let hash_position = traversal.hash_position.ok_or(Error::InvalidMerkleProof)?;
""", """        let (merkle_position, hash_position) = traversal
            .merkle_position
            .zip(traversal.hash_position)
            .ok_or(Error::InvalidMerkleProof)?;
"""), (ME, """        // fail if the transaction hash is invalid
        if self.merkle_proof.hashes[hash_position] != tx_id {
            return Err(Error::InvalidTxid);
        }
""", """        let transaction_hash = self.merkle_proof.hashes[hash_position];

        // fail if the transaction hash is invalid
        if transaction_hash != tx_id {
            return Err(Error::InvalidTxid);
        }
"""), (ME, "            transaction_hash: self.merkle_proof.hashes[hash_position],\n", "            transaction_hash,\n")]
R["n-traverse-take"] = [(ME, """        let parent_of_hash = *self.flag_bits.get(traversal.bits_used).ok_or(Error::EndOfFile)?;
        traversal.bits_used = traversal.bits_used.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
""", """        let parent_of_hash = traversal.next_bit(&self.flag_bits)?;
"""), (ME, """            if traversal.hashes_used >= self.hashes.len() {
                return Err(Error::MalformedMerkleProof);
            }
            let hash = self.hashes[traversal.hashes_used];
            if height == 0 && parent_of_hash {
                // in case of height 0, we have a matched txid
                traversal.merkle_position = Some(pos);
                traversal.hash_position = Some(traversal.hashes_used);
            }
            traversal.hashes_used = traversal.hashes_used.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
            return Ok(hash);
""", """            let (index, hash) = traversal.next_hash(&self.hashes)?;
            if height == 0 && parent_of_hash {
                // in case of height 0, we have a matched txid
                traversal.merkle_position = Some(pos);
                traversal.hash_position = Some(index);
            }
            return Ok(hash);
"""), (ME, """impl MerkleTree {
""", """impl MerkleProofTraversal {
    fn next_bit(&mut self, bits: &[bool]) -> Result<bool, Error> {
        let bit = *bits.get(self.bits_used).ok_or(Error::EndOfFile)?;
        self.bits_used = self.bits_used.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
        Ok(bit)
    }

    fn next_hash(&mut self, hashes: &[H256Le]) -> Result<(usize, H256Le), Error> {
        let index = self.hashes_used;
        let hash = *hashes.get(index).ok_or(Error::MalformedMerkleProof)?;
        self.hashes_used = index.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
        Ok((index, hash))
    }
}

impl MerkleTree {
""")]
R["n-height-find"] = [(ME, """        let mut height = 0;
        while Self::compute_width(transactions_count, height) > 1 {
            height += 1;
        }
        height
""", """        let mut height = 0;
        loop {
            let width = Self::compute_width(transactions_count, height);
            if width <= 1 {
                break height;
            }
            height += 1;
        }
""")]
R["n-root-sub"] = [(ME, """        if height == 0 {
            Ok(hashes[index as usize])
        } else {
            let left = Self::compute_root(
                index.checked_mul(2).ok_or(Error::ArithmeticOverflow)?,
                height.checked_sub(1).ok_or(Error::ArithmeticUnderflow)?,
                transactions_count,
                hashes,
            )?;
            let right_index = index
                .checked_mul(2)
                .ok_or(Error::ArithmeticOverflow)?
                .checked_add(1)
                .ok_or(Error::ArithmeticOverflow)?;
            let right = if right_index < Self::compute_width(transactions_count, height - 1) {
                Self::compute_root(
                    right_index,
                    height.checked_sub(1).ok_or(Error::ArithmeticUnderflow)?,
                    transactions_count,
                    hashes,
                )?
            } else {
                left
            };
            Ok(hash256_merkle_step(&left.to_bytes_le(), &right.to_bytes_le()))
        }
""", """        let below = match height.checked_sub(1) {
            Some(below) => below,
            None => return Ok(hashes[index as usize]),
        };
        let left_index = index.checked_mul(2).ok_or(Error::ArithmeticOverflow)?;
        let right_index = left_index.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
        let left = Self::compute_root(left_index, below, transactions_count, hashes)?;
        let mut right = left;
        if Self::compute_width(transactions_count, below) > right_index {
            right = Self::compute_root(right_index, below, transactions_count, hashes)?;
        }
        Ok(hash256_merkle_step(&left.to_bytes_le(), &right.to_bytes_le()))
""")]
R["n-build-any"] = [(ME, """        let mut parent_of_match = false;
        let mut p = pos << height;
        while p < (pos + 1) << height && p < self.transactions_count {
            parent_of_match |= matches[p as usize];
            p += 1;
        }
""", """        let first = pos << height;
        let end = ((pos + 1) << height).min(self.transactions_count);
        let parent_of_match = (first..end).any(|p| matches[p as usize]);
""")]
R["n-parse-collect"] = [(ME, """        let mut hashes = Vec::<H256Le>::new();
        for _ in 0..hashes_count.value {
            hashes.push(proof_parser.parse()?);
        }
""", """        let hashes = (0..hashes_count.value)
            .map(|_| proof_parser.parse())
            .collect::<Result<Vec<H256Le>, Error>>()?;
""")]
R["n-txid-bytes"] = [(TY, """    pub fn tx_id(&self) -> H256Le {
        let mut bytes = vec![];
        self.format_no_witness(&mut bytes).expect("Not bounded");
        sha256d_le(&bytes)
    }
""", """    pub fn tx_id(&self) -> H256Le {
        sha256d_le(&self.bytes_no_witness())
    }

    fn bytes_no_witness(&self) -> Vec<u8> {
        let mut bytes = Vec::new();
        self.format_no_witness(&mut bytes).expect("Not bounded");
        bytes
    }
"""), (TY, """        let mut bytes = vec![];
        self.format_no_witness(&mut bytes).expect("Not bounded");
        bytes.len()
""", """        self.bytes_no_witness().len()
""")]
R["n-coinbase-slice"] = [(TY, """        self.inputs.len() == 1
            && matches!(
                self.inputs.get(0),
                Some(&TransactionInput {
                    source: TransactionInputSource::Coinbase(_),
                    ..
                })
            )
""", """        match self.inputs.as_slice() {
            [input] => matches!(input.source, TransactionInputSource::Coinbase(_)),
            _ => false,
        }
""")]
R["n-proof-ids"] = [(TY, """        let mut tx_ids = Vec::with_capacity(self.transactions.len());
        for tx in self.transactions.iter() {
            tx_ids.push(tx.tx_id());
        }

        let matches: Vec<bool> = self
            .transactions
            .iter()
            .map(|tx| include.contains(&tx.tx_id()))
            .collect();
""", """        let tx_ids: Vec<H256Le> = self.transactions.iter().map(Transaction::tx_id).collect();
        let matches: Vec<bool> = tx_ids.iter().map(|tx_id| include.contains(tx_id)).collect();
""")]
R["n-mine-loop"] = [(TY, """        while self.block.header.update_hash()?.as_u256() >= target {
            self.block.header.nonce = nonce;
            nonce += 1;
        }
        Ok(self.block.clone())
""", """        loop {
            let hash = self.block.header.update_hash()?;
            if hash.as_u256() < target {
                return Ok(self.block.clone());
            }
            self.block.header.nonce = nonce;
            nonce += 1;
        }
""")]
R["n-be-reverse"] = [(TY, """        let mut content: [u8; 32] = Default::default();
        content.copy_from_slice(&reverse_endianness(&self.content[..]));
        content
""", """        let mut content = self.content;
        content.reverse();
        content
"""), (TY, """        let bytes_le = reverse_endianness(bytes);
        let mut content: [u8; 32] = Default::default();
        content.copy_from_slice(&bytes_le);
        H256Le { content }
""", """        let mut hash = Self::from_bytes_le(bytes);
        hash.content.reverse();
        hash
""")]
R["n-be-rev-iter"] = [(TY, """        let bytes_le = reverse_endianness(bytes);
        let mut content: [u8; 32] = Default::default();
        content.copy_from_slice(&bytes_le);
        H256Le { content }
""", """        Self::from_bytes_le(&reverse_endianness(bytes))
""")]
R["n-version-then"] = [(TY, """        if self.version < 4 {
            // as per bip65""", """        const MIN_VERSION: i32 = 4;
        let supported = self.version >= MIN_VERSION;
        if !supported {
            // as per bip65""")]
R["n-pow-clamp"] = [(PW, """    let mut actual_timespan = last_block_time.saturating_sub(first_block_time);

    if actual_timespan < TARGET_TIMESPAN / TARGET_TIMESPAN_DIVISOR {
        actual_timespan = TARGET_TIMESPAN / TARGET_TIMESPAN_DIVISOR;
    }

    if actual_timespan > TARGET_TIMESPAN * TARGET_TIMESPAN_DIVISOR {
        actual_timespan = TARGET_TIMESPAN * TARGET_TIMESPAN_DIVISOR;
    }

    let target = previous_target * actual_timespan;
    let target = target / TARGET_TIMESPAN;

    // ensure target does not exceed max
    if target > UNROUNDED_MAX_TARGET {
        UNROUNDED_MAX_TARGET
    } else {
        target
    }
    .get_compact()
    .ok_or(Error::InvalidCompact)
""", """    const MIN_TIMESPAN: u64 = TARGET_TIMESPAN / TARGET_TIMESPAN_DIVISOR;
    const MAX_TIMESPAN: u64 = TARGET_TIMESPAN * TARGET_TIMESPAN_DIVISOR;

    let actual_timespan = match last_block_time.saturating_sub(first_block_time) {
        timespan if timespan <= MIN_TIMESPAN => MIN_TIMESPAN,
        timespan if timespan >= MAX_TIMESPAN => MAX_TIMESPAN,
        timespan => timespan,
    };

    let scaled = previous_target * U256::from(actual_timespan) / U256::from(TARGET_TIMESPAN);
    scaled
        .min(UNROUNDED_MAX_TARGET)
        .get_compact()
        .ok_or(Error::InvalidCompact)
""")]
R["n-height-pop"] = [(SC, """        for i in (1..4).rev() {
            // remove trailing zeroes, but always keep first byte even if it's zero
            if height_bytes[i] == 0 {
                height_bytes.remove(i);
            } else {
                break;
            }
        }
""", """        // remove trailing zeroes, but always keep first byte even if it's zero
        while height_bytes.len() > 1 && height_bytes.last() == Some(&0) {
            height_bytes.pop();
        }
""")]
R["n-script-starts"] = [(SC, """        self.len() == P2WPKH_V0_SCRIPT_SIZE as usize
            && self.bytes[0] == OpCode::Op0 as u8
            && self.bytes[1] == HASH160_SIZE_HEX
""", """        self.has_program(P2WPKH_V0_SCRIPT_SIZE, HASH160_SIZE_HEX)
"""), (SC, """        self.len() == P2WSH_V0_SCRIPT_SIZE as usize
            && self.bytes[0] == OpCode::Op0 as u8
            && self.bytes[1] == HASH256_SIZE_HEX
    }
""", """        self.has_program(P2WSH_V0_SCRIPT_SIZE, HASH256_SIZE_HEX)
    }

    fn has_program(&self, script_size: u32, hash_size: u8) -> bool {
        if self.len() != script_size as usize {
            return false;
        }
        self.bytes[0] == OpCode::Op0 as u8 && self.bytes[1] == hash_size
    }
""")]
R["n-opreturn-match"] = [(SC, """        let output_script = &self.bytes;
        if *output_script.get(0).ok_or(Error::EndOfFile)? != OpCode::OpReturn as u8 {
            return Err(Error::MalformedOpReturnOutput);
        }
        // Check for max OP_RETURN size
        // 83 in total, see here: https://github.com/bitcoin/bitcoin/blob/f018d0c9cd7f408dac016b6bfc873670de713d27/src/script/standard.h#L30
        if output_script.len() > MAX_OPRETURN_SIZE {
            return Err(Error::MalformedOpReturnOutput);
        }

        let result = output_script.get(2..).ok_or(Error::EndOfFile)?;

        if result.len() != output_script[1] as usize {
            return Err(Error::MalformedOpReturnOutput);
        }

        Ok(result.to_vec())
""", """        let (op_code, rest) = self.bytes.split_first().ok_or(Error::EndOfFile)?;
        // Check for max OP_RETURN size
        // 83 in total, see here: https://github.com/bitcoin/bitcoin/blob/f018d0c9cd7f408dac016b6bfc873670de713d27/src/script/standard.h#L30
        if *op_code != OpCode::OpReturn as u8 || self.len() > MAX_OPRETURN_SIZE {
            return Err(Error::MalformedOpReturnOutput);
        }

        let (size, data) = rest.split_first().ok_or(Error::EndOfFile)?;
        if data.len() == *size as usize {
            Ok(data.to_vec())
        } else {
            Err(Error::MalformedOpReturnOutput)
        }
""")]
R["n-address-is"] = [(AD, """        match bytes {
            &[OP_DUP, OP_HASH_160, HASH160_SIZE_HEX, ref addr @ .., OP_EQUAL_VERIFY, OP_CHECK_SIG]
                if addr.len() == HASH160_SIZE_HEX as usize =>
            {
                Ok(Self::P2PKH(H160::from_slice(addr)))
            }
            &[OP_HASH_160, HASH160_SIZE_HEX, ref addr @ .., OP_EQUAL] if addr.len() == HASH160_SIZE_HEX as usize => {
                Ok(Self::P2SH(H160::from_slice(addr)))
            }
            &[OP_0, HASH256_SIZE_HEX, ref addr @ ..] if addr.len() == HASH256_SIZE_HEX as usize => {
                Ok(Self::P2WSHv0(H256::from_slice(addr)))
            }
            &[OP_0, HASH160_SIZE_HEX, ref addr @ ..] if addr.len() == HASH160_SIZE_HEX as usize => {
                Ok(Self::P2WPKHv0(H160::from_slice(addr)))
            }
            _ => Err(Error::InvalidBtcAddress),
        }
""", """        let is_hash160 = |addr: &[u8]| addr.len() == HASH160_SIZE_HEX as usize;
        let is_hash256 = |addr: &[u8]| addr.len() == HASH256_SIZE_HEX as usize;

        let address = match bytes {
            [OP_DUP, OP_HASH_160, HASH160_SIZE_HEX, addr @ .., OP_EQUAL_VERIFY, OP_CHECK_SIG] if is_hash160(addr) => {
                Self::P2PKH(H160::from_slice(addr))
            }
            [OP_HASH_160, HASH160_SIZE_HEX, addr @ .., OP_EQUAL] if is_hash160(addr) => {
                Self::P2SH(H160::from_slice(addr))
            }
            [OP_0, HASH256_SIZE_HEX, addr @ ..] if is_hash256(addr) => Self::P2WSHv0(H256::from_slice(addr)),
            [OP_0, HASH160_SIZE_HEX, addr @ ..] if is_hash160(addr) => Self::P2WPKHv0(H160::from_slice(addr)),
            _ => return Err(Error::InvalidBtcAddress),
        };
        Ok(address)
""")]
R["n-address-tail"] = [(AD, """            Self::P2SH(script_hash) => {
                let mut script = Script::new();
                script.append(OpCode::OpHash160);
                script.append(HASH160_SIZE_HEX);
                script.append(script_hash);
                script.append(OpCode::OpEqual);
                script
            }
            Self::P2WPKHv0(pub_key_hash) => {
                let mut script = Script::new();
                script.append(OpCode::Op0);
                script.append(HASH160_SIZE_HEX);
                script.append(pub_key_hash);
                script
            }
            Self::P2WSHv0(script_hash) => {
                let mut script = Script::new();
                script.append(OpCode::Op0);
                script.append(HASH256_SIZE_HEX);
                script.append(script_hash);
                script
            }
        }
    }
""", """            Self::P2SH(script_hash) => {
                let mut script = Self::script_with(OpCode::OpHash160, HASH160_SIZE_HEX, script_hash);
                script.append(OpCode::OpEqual);
                script
            }
            Self::P2WPKHv0(pub_key_hash) => Self::script_with(OpCode::Op0, HASH160_SIZE_HEX, pub_key_hash),
            Self::P2WSHv0(script_hash) => Self::script_with(OpCode::Op0, HASH256_SIZE_HEX, script_hash),
        }
    }

    fn script_with<T: crate::formatter::TryFormat>(op_code: OpCode, size: u8, hash: T) -> Script {
        let mut script = Script::default();
        script.append(op_code);
        script.append(size);
        script.append(hash);
        script
    }
""")]
R["n-compact-generic"] = [(PA, """    match varint.get(0).ok_or(Error::EndOfFile)? {
        0xfd => {
            let mut num_bytes: [u8; 2] = Default::default();
            num_bytes.copy_from_slice(&varint.get(1..3).ok_or(Error::EndOfFile)?);
            Ok((u16::from_le_bytes(num_bytes) as u64, 3))
        }
        0xfe => {
            let mut num_bytes: [u8; 4] = Default::default();
            num_bytes.copy_from_slice(&varint.get(1..5).ok_or(Error::EndOfFile)?);
            Ok((u32::from_le_bytes(num_bytes) as u64, 5))
        }
        0xff => {
            let mut num_bytes: [u8; 8] = Default::default();
            num_bytes.copy_from_slice(&varint.get(1..9).ok_or(Error::EndOfFile)?);
            Ok((u64::from_le_bytes(num_bytes) as u64, 9))
        }
        &n => Ok((n as u64, 1)),
    }
""", """    let prefix = *varint.get(0).ok_or(Error::EndOfFile)?;
    let size = match prefix {
        0xfd => 2,
        0xfe => 4,
        0xff => 8,
        n => return Ok((n as u64, 1)),
    };
    let mut num_bytes: [u8; 8] = Default::default();
    num_bytes[..size].copy_from_slice(varint.get(1..1 + size).ok_or(Error::EndOfFile)?);
    Ok((u64::from_le_bytes(num_bytes), 1 + size))
""")]
R["n-bool-shift"] = [(PA, """        let mut flag_bits = Vec::new();
        for i in 0..8 {
            let mask = 1 << i;
            let bit = (byte & mask) != 0;
            flag_bits.push(bit);
        }
        Ok((flag_bits, 1))
""", """        let flag_bits = (0..8).map(|i| (byte >> i) & 1 == 1).collect();
        Ok((flag_bits, 1))
""")]
R["n-tx-tuple"] = [(PA, """        let mut inputs: Vec<TransactionInput> = parser.parse_with(version)?;

        let mut flags: u8 = 0;
        if inputs.is_empty() && allow_witness {
            flags = parser.parse()?;
            inputs = parser.parse_with(version)?;
        }
""", """        let legacy_inputs: Vec<TransactionInput> = parser.parse_with(version)?;

        let (mut flags, mut inputs): (u8, Vec<TransactionInput>) = if legacy_inputs.is_empty() && allow_witness {
            (parser.parse()?, parser.parse_with(version)?)
        } else {
            (0, legacy_inputs)
        };
""")]
R["n-lock-from"] = [(PA, """        let locktime_or_blockheight: u32 = parser.parse()?;
        let lock_at = if locktime_or_blockheight < LOCKTIME_THRESHOLD {
            LockTime::BlockHeight(locktime_or_blockheight)
        } else {
            LockTime::Time(locktime_or_blockheight)
        };
""", """        let lock_at: LockTime = parser.parse::<u32>()?.into();
"""), (PA, """impl ParsableMeta<i32> for TransactionInput {""", """impl From<u32> for LockTime {
    fn from(value: u32) -> Self {
        match value {
            time if time >= LOCKTIME_THRESHOLD => LockTime::Time(time),
            height => LockTime::BlockHeight(height),
        }
    }
}

impl ParsableMeta<i32> for TransactionInput {""")]
R["n-input-height"] = [(PA, """        let height = if version != 2 {
            // version 1 does not include height
            None
        } else {
            // version 2 transactions include a height as the first 4 bytes, see
            // https://github.com/bitcoin/bips/blob/master/bip-0034.mediawiki
            let height_size: u64 = parser.parse::<CompactUint>()?.value;
            script_size = height_size
                .checked_add(1)
                .and_then(|size| script_size.checked_sub(size))
                .ok_or(Error::EndOfFile)?;

            let mut buffer = [0u8; 4];
            // fail if the height does not fit in four bytes
            if height_size > buffer.len() as u64 {
                return Err(Error::MalformedTransaction);
            }
            let bytes = parser.read(height_size as usize)?;
            buffer[..(height_size as usize)]
                .copy_from_slice(bytes.get(0..(height_size as usize)).ok_or(Error::EndOfFile)?);
            Some(u32::from_le_bytes(buffer))
        };
""", """        // version 1 does not include height
        let mut height = None;
        if version == 2 {
            // version 2 transactions include a height as the first 4 bytes, see
            // https://github.com/bitcoin/bips/blob/master/bip-0034.mediawiki
            let height_size: u64 = parser.parse::<CompactUint>()?.value;
            let used = height_size.checked_add(1).ok_or(Error::EndOfFile)?;
            script_size = script_size.checked_sub(used).ok_or(Error::EndOfFile)?;
            height = Some(read_height(&mut parser, height_size)?);
        }
"""), (PA, """fn parse_transaction_output(""", """fn read_height(parser: &mut BytesParser, height_size: u64) -> Result<u32, Error> {
    let mut buffer = [0u8; 4];
    // fail if the height does not fit in four bytes
    if height_size > buffer.len() as u64 {
        return Err(Error::MalformedTransaction);
    }
    let size = height_size as usize;
    let bytes = parser.read(size)?;
    buffer[..size].copy_from_slice(&bytes);
    Ok(u32::from_le_bytes(buffer))
}

fn parse_transaction_output(""")]
R["n-input-fields"] = [(PA, """    let script = parser.read(script_size as usize)?;
    // fail if coinbase script is longer than 100 bytes
    if is_coinbase && script.len() > 100 {
        return Err(Error::MalformedTransaction);
    }

    let sequence: u32 = parser.parse()?;
    let consumed_bytes = parser.position;

    Ok((
        TransactionInput {
            source,
            script,
            sequence,
            witness: vec![],
        },
        consumed_bytes,
    ))
""", """    let script = parser.read(script_size as usize)?;
    // fail if coinbase script is longer than 100 bytes
    match source {
        TransactionInputSource::Coinbase(_) if script.len() > 100 => return Err(Error::MalformedTransaction),
        _ => {}
    }

    let input = TransactionInput {
        source,
        script,
        sequence: parser.parse()?,
        witness: Vec::new(),
    };
    Ok((input, parser.position))
""")]
R["n-vec-while"] = [(PA, """        let mut result: Vec<T> = Vec::new();
        let slice = raw_bytes.get(position..).ok_or(Error::EndOfFile)?;
        let mut parser = BytesParser::new(slice);
        let count: CompactUint = parser.parse()?;
        for _ in 0..count.value {
            result.push(parser.parse()?);
        }
        Ok((result, parser.position))
""", """        let slice = raw_bytes.get(position..).ok_or(Error::EndOfFile)?;
        let mut parser = BytesParser::new(slice);
        let CompactUint { value: count } = parser.parse()?;
        let mut result: Vec<T> = vec![];
        let mut remaining = count;
        while remaining > 0 {
            let item = parser.parse()?;
            result.push(item);
            remaining -= 1;
        }
        Ok((result, parser.position))
""")]
R["n-u256-via-u32"] = [(PA, """        if position + 4 > raw_bytes.len() {
            return Err(Error::EndOfFile);
        }

        let mut bytes: [u8; 4] = Default::default();
        bytes.copy_from_slice(&raw_bytes[position..position + 4]);

        let bits = u32::from_le_bytes(bytes);
        let compact = U256::set_compact(bits).ok_or(Error::InvalidCompact)?;
        Ok((compact, 4))
""", """        let (bits, consumed) = <u32 as Parsable>::parse(raw_bytes, position)?;
        U256::set_compact(bits)
            .map(|target| (target, consumed))
            .ok_or(Error::InvalidCompact)
""")]
R["n-bytes-advance"] = [(PA, """        let (result, bytes_consumed) = T::parse(&self.raw_bytes, self.position)?;
        self.position = self
            .position
            .checked_add(bytes_consumed)
            .ok_or(Error::ArithmeticOverflow)?;
        Ok(result)
""", """        let (result, bytes_consumed) = T::parse(&self.raw_bytes, self.position)?;
        self.position = self.end_of(bytes_consumed)?;
        Ok(result)
"""), (PA, """        let (result, bytes_consumed) = T::parse_with(&self.raw_bytes, self.position, extra)?;
        self.position = self
            .position
            .checked_add(bytes_consumed)
            .ok_or(Error::ArithmeticOverflow)?;
        Ok(result)
""", """        let (result, bytes_consumed) = T::parse_with(&self.raw_bytes, self.position, extra)?;
        self.position = self.end_of(bytes_consumed)?;
        Ok(result)
"""), (PA, """        let end = self
            .position
            .checked_add(bytes_count)
            .ok_or(Error::ArithmeticOverflow)?;
        let bytes = self.raw_bytes.get(self.position..end).ok_or(Error::EndOfFile)?;
        self.position = end;
        Ok(Vec::from(bytes))
    }
""", """        let end = self.end_of(bytes_count)?;
        let range = core::mem::replace(&mut self.position, end)..end;
        let bytes = self.raw_bytes.get(range);
        bytes.map(Vec::from).ok_or(Error::EndOfFile)
    }

    fn end_of(&self, bytes_count: usize) -> Result<usize, Error> {
        self.position.checked_add(bytes_count).ok_or(Error::ArithmeticOverflow)
    }
""")]
del R["n-bytes-advance"][2]     # moving the head of a parser that fails is not the same
R["n-bytes-advance"].append((PA, """    /// Reads `bytes_count` from the bytes parser""", """    fn end_of(&self, bytes_count: usize) -> Result<usize, Error> {
        self.position.checked_add(bytes_count).ok_or(Error::ArithmeticOverflow)
    }

    /// Reads `bytes_count` from the bytes parser"""))
R["n-compact-size"] = [(MA, """        if !(compact & !0x007fffff == 0) {
            None
        } else if !(size < 256) {
            None
        } else {
            Some(compact | (size << 24) as u32)
        }
""", """        let fits = compact & !0x007fffff == 0 && size < 256;
        fits.then(|| compact | (size << 24) as u32)
""")]
R["n-setcompact-named"] = [(MA, """        if word != 0 && (compact & 0x00800000) != 0 {
            // negative
            None
        } else if word != 0 && ((size > 34) || (word > 0xff && size > 33) || (word > 0xffff && size > 32)) {
            // overflow
            None
        } else {
            Some(value)
        }
""", """        if word == 0 {
            return Some(value);
        }
        let negative = (compact & 0x00800000) != 0;
        let overflow = match size {
            0..=32 => false,
            33 => word > 0xffff,
            34 => word > 0xff,
            _ => true,
        };
        if negative || overflow {
            return None;
        }
        Some(value)
""")]
R["n-order-ok"] = [(CO, """            let transferred_sats = self
                .env()
                .extension()
                .get_and_verify_bitcoin_payment(full_proof, order.btc_address)
                .unwrap()
                .unwrap_or(0);

            assert!(transferred_sats >= order.min_satoshis);
""", """            let paid = self
                .env()
                .extension()
                .get_and_verify_bitcoin_payment(full_proof, order.btc_address);
            let transferred_sats = match paid {
                Ok(amount) => amount.unwrap_or_default(),
                Err(_) => panic!("payment could not be verified"),
            };

            if transferred_sats < order.min_satoshis {
                panic!("payment too small");
            }
""")]
