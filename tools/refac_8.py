"""behaviour-preserving edits of the Bitcoin library with larger steps"""
B = "crates/bitcoin/src/"
PA, TY, ME, FO, MA, PW, SC, AD, UT = (B + x + ".rs" for x in ("parser", "types", "merkle", "formatter", "math", "pow", "script", "address", "utils"))
PR, CO, HE = "primitives/src/lib.rs", "contracts/btc_swap/lib.rs", "contracts/hello_world/lib.rs"
R = REFS = {}
R["k-int-tryinto"] = [(PA, """                if position + $bytes > raw_bytes.len() {
                    return Err(Error::EndOfFile);
                }
                let mut value_bytes: [u8; $bytes] = Default::default();
                value_bytes.copy_from_slice(&raw_bytes[position..position + $bytes]);
                Ok((<$type>::from_le_bytes(value_bytes), $bytes))
""", """                let value_bytes: [u8; $bytes] = raw_bytes
                    .get(position..position + $bytes)
                    .and_then(|slice| slice.try_into().ok())
                    .ok_or(Error::EndOfFile)?;
                Ok((<$type>::from_le_bytes(value_bytes), $bytes))
""")]
R["k-int-not"] = [(PA, """                if position + $bytes > raw_bytes.len() {
                    return Err(Error::EndOfFile);
                }
                let mut""", """                let remaining = raw_bytes.len().saturating_sub(position);
                if remaining < $bytes {
                    return Err(Error::EndOfFile);
                }
                let mut""")]
R["k-slice-fn"] = [(PA, """        let slice = raw_bytes.get(position..position + 32).ok_or(Error::EndOfFile)?;
        Ok((H256Le::from_bytes_le(slice), 32))
""", """        const LENGTH: usize = 32;
        let slice = slice_of(raw_bytes, position, LENGTH)?;
        Ok((H256Le::from_bytes_le(slice), LENGTH))
"""), (PA, """        let header_bytes = raw_bytes.get(position..position + 80).ok_or(Error::EndOfFile)?;
""", """        let header_bytes = slice_of(raw_bytes, position, 80)?;
"""), (PA, "impl Parsable for CompactUint {", """fn slice_of(raw_bytes: &[u8], position: usize, length: usize) -> Result<&[u8], Error> {
    raw_bytes.get(position..position + length).ok_or(Error::EndOfFile)
}

impl Parsable for CompactUint {""")]
R["k-tx-split"] = [(PA, """        if (flags & 1) != 0 && allow_witness {
            flags ^= 1;
            for input in &mut inputs {
                input.with_witness(parser.parse()?);
            }

            if inputs.iter().all(|input| input.witness.is_empty()) {
                // A transaction with a set witness-flag must actually include witnesses in the transaction.
                // see https://github.com/bitcoin/bitcoin/blob/be4171679b8eab8205e04ff86140329bd67878a0/src/primitives/transaction.h#L214-L217
                return Err(Error::MalformedTransaction);
            }
        }
""", """        if allow_witness && flags & 1 == 1 {
            flags &= !1;
            parse_witnesses(&mut parser, &mut inputs)?;
        }
"""), (PA, "impl ParsableMeta<i32> for TransactionInput {", """fn parse_witnesses(parser: &mut BytesParser, inputs: &mut [TransactionInput]) -> Result<(), Error> {
    for input in inputs.iter_mut() {
        let witness = parser.parse()?;
        input.with_witness(witness);
    }
    // A transaction with a set witness-flag must actually include witnesses in the transaction.
    if inputs.iter().any(|input| !input.witness.is_empty()) {
        Ok(())
    } else {
        Err(Error::MalformedTransaction)
    }
}

impl ParsableMeta<i32> for TransactionInput {""")]
R["k-tx-flags-opt"] = [(PA, """        let mut flags: u8 = 0;
        if inputs.is_empty() && allow_witness {
            flags = parser.parse()?;
            inputs = parser.parse_with(version)?;
        }
""", """        let extended = allow_witness && inputs.is_empty();
        let mut flags: u8 = if extended { parser.parse()? } else { 0 };
        if extended {
            inputs = parser.parse_with(version)?;
        }
""")]
R["k-input-struct"] = [(PA, """    // coinbase input has no previous hash
    let is_coinbase = previous_hash == H256Le::zero();

    // fail if transaction is coinbase and previous index is not 0xffffffff
    // previous_hash
    if is_coinbase && previous_index != u32::MAX {
        return Err(Error::MalformedTransaction);
    }
""", """    // coinbase input has no previous hash
    let is_coinbase = previous_hash.is_zero();

    // fail if transaction is coinbase and previous index is not 0xffffffff
    // previous_hash
    match (is_coinbase, previous_index) {
        (true, u32::MAX) | (false, _) => (),
        (true, _) => return Err(Error::MalformedTransaction),
    }
""")]
R["k-input-source-fn"] = [(PA, """    let source = if is_coinbase {
        let height = if version != 2 {
            // version 1 does not include height
            None
        } else {
            // version 2 transactions""", """    let source = if !is_coinbase {
        TransactionInputSource::FromOutput(previous_hash, previous_index)
    } else {
        let height = if version != 2 {
            // version 1 does not include height
            None
        } else {
            // version 2 transactions"""), (PA, """        TransactionInputSource::Coinbase(height)
    } else {
        TransactionInputSource::FromOutput(previous_hash, previous_index)
    };
""", """        TransactionInputSource::Coinbase(height)
    };
""")]
R["k-output-order"] = [(PA, """    if script_size.value > 10_000 {
        return Err(Error::MalformedTransaction);
    }
    let script = parser.read(script_size.value as usize)?;
""", """    const MAX_SCRIPT_SIZE: u64 = 10_000;
    let script = if script_size.value <= MAX_SCRIPT_SIZE {
        parser.read(script_size.value as usize)?
    } else {
        return Err(Error::MalformedTransaction);
    };
""")]
R["k-cuint-ranges"] = [(PA, """    match varint.get(0).ok_or(Error::EndOfFile)? {
        0xfd => {
            let mut num_bytes: [u8; 2] = Default::default();
            num_bytes.copy_from_slice(&varint.get(1..3).ok_or(Error::EndOfFile)?);
            Ok((u16::from_le_bytes(num_bytes) as u64, 3))
        }
        0xfe => {
            let mut num_bytes: [u8; 4] = Default::default();
            num_bytes.copy_from_slice(&varint.get(1..5).ok_or(Error::EndOfFile)?);
            Ok((u32::from_le_bytes(num_bytes) as u64, 5))
        }
        0xff => {
            let mut num_bytes: [u8; 8] = Default::default();
            num_bytes.copy_from_slice(&varint.get(1..9).ok_or(Error::EndOfFile)?);
            Ok((u64::from_le_bytes(num_bytes) as u64, 9))
        }
        &n => Ok((n as u64, 1)),
    }
""", """    let tag = *varint.get(0).ok_or(Error::EndOfFile)?;
    let width = match tag {
        0xfd => 2,
        0xfe => 4,
        0xff => 8,
        n => return Ok((n as u64, 1)),
    };
    let payload = varint.get(1..1 + width).ok_or(Error::EndOfFile)?;
    let mut num_bytes = [0u8; 8];
    num_bytes[..width].copy_from_slice(payload);
    Ok((u64::from_le_bytes(num_bytes), 1 + width))
""")]
R["k-cuint-parse"] = [(PA, """        0xfd => {
            let mut num_bytes: [u8; 2] = Default::default();
            num_bytes.copy_from_slice(&varint.get(1..3).ok_or(Error::EndOfFile)?);
            Ok((u16::from_le_bytes(num_bytes) as u64, 3))
        }
""", """        0xfd => {
            let (value, length) = u16::parse(varint, 1)?;
            Ok((value as u64, length + 1))
        }
""")]
R["k-width-shift"] = [(ME, "        (transactions_count + (1 << height) - 1) >> height\n", "        let leaves_per_node = 1 << height;\n        (transactions_count + leaves_per_node - 1) / leaves_per_node\n")]
R["k-verify-split"] = [(ME, """        // fail if no transactions
        if self.merkle_proof.transactions_count == 0 {
            return Err(Error::MalformedMerkleProof);
        }

        // fail if too many transactions
        if self.merkle_proof.transactions_count > MAX_TRANSACTIONS_IN_PROOF {
            return Err(Error::MalformedMerkleProof);
        }

        // fail if not at least one bit per hash
        if self.merkle_proof.flag_bits.len() < self.merkle_proof.hashes.len() {
            return Err(Error::MalformedMerkleProof);
        }
""", """        self.merkle_proof.ensure_well_formed()?;
"""), (ME, """impl MerkleProof {
""", """impl MerkleProof {
    fn ensure_well_formed(&self) -> Result<(), Error> {
        let count_ok = self.transactions_count > 0 && self.transactions_count <= MAX_TRANSACTIONS_IN_PROOF;
        // at least one bit per hash
        let bits_ok = self.flag_bits.len() >= self.hashes.len();
        if count_ok && bits_ok {
            Ok(())
        } else {
            Err(Error::MalformedMerkleProof)
        }
    }

""")]
R["k-verify-destructure"] = [(ME, """        let root = self.merkle_proof.traverse_and_extract(
            self.merkle_proof.compute_partial_tree_height(),
            0,
            &mut traversal,
        )?;
        let merkle_position = traversal.merkle_position.ok_or(Error::InvalidMerkleProof)?;
        let hash_position = traversal.hash_position.ok_or(Error::InvalidMerkleProof)?;

        // fail if all hashes are not used
        if traversal.hashes_used != self.merkle_proof.hashes.len() {
            return Err(Error::MalformedMerkleProof);
        }
""", """        let proof = &self.merkle_proof;
        let height = proof.compute_partial_tree_height();
        let root = proof.traverse_and_extract(height, 0, &mut traversal)?;
        let MerkleProofTraversal {
            hashes_used,
            merkle_position,
            hash_position,
            ..
        } = traversal;
        let merkle_position = merkle_position.ok_or(Error::InvalidMerkleProof)?;
        let hash_position = hash_position.ok_or(Error::InvalidMerkleProof)?;

        // fail if all hashes are not used
        if hashes_used != proof.hashes.len() {
            return Err(Error::MalformedMerkleProof);
        }
""")]
R["k-traverse-next"] = [(ME, """        let parent_of_hash = *self.flag_bits.get(traversal.bits_used).ok_or(Error::EndOfFile)?;
        traversal.bits_used = traversal.bits_used.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
""", """        let parent_of_hash = traversal.next_flag(&self.flag_bits)?;
"""), (ME, """#[derive(Clone, Debug, PartialEq)]
pub struct ProofResult {""", """impl MerkleProofTraversal {
    fn next_flag(&mut self, flags: &[bool]) -> Result<bool, Error> {
        let flag = flags.get(self.bits_used).copied().ok_or(Error::EndOfFile)?;
        self.bits_used = self.bits_used.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
        Ok(flag)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct ProofResult {""")]
R["k-traverse-node"] = [(ME, """        let left = self.traverse_and_extract(next_height, left_index, traversal)?;
        let right = if right_index < self.compute_partial_tree_width(next_height) {
            self.traverse_and_extract(next_height, right_index, traversal)?
        } else {
            left
        };

        let hashed_bytes = hash256_merkle_step(&left.to_bytes_le(), &right.to_bytes_le());
        Ok(hashed_bytes)
""", """        let left = self.traverse_and_extract(next_height, left_index, traversal)?;
        if right_index >= self.compute_partial_tree_width(next_height) {
            // an odd level: the last node is paired with itself
            let bytes = left.to_bytes_le();
            return Ok(hash256_merkle_step(&bytes, &bytes));
        }
        let right = self.traverse_and_extract(next_height, right_index, traversal)?;
        Ok(hash256_merkle_step(&left.to_bytes_le(), &right.to_bytes_le()))
""")]
R["k-build-any"] = [(ME, """        let mut parent_of_match = false;
        let mut p = pos << height;
        while p < (pos + 1) << height && p < self.transactions_count {
            parent_of_match |= matches[p as usize];
            p += 1;
        }
""", """        let start = pos << height;
        let end = ((pos + 1) << height).min(self.transactions_count);
        let parent_of_match = (start..end).any(|p| matches[p as usize]);
""")]
R["k-build-early"] = [(ME, """        if height == 0 || !parent_of_match {
            let hash = self.compute_merkle_root(pos, height, tx_ids)?;
            self.hashes.push(hash);
        } else {
            let next_height""", """        if !parent_of_match || height == 0 {
            self.hashes.push(self.compute_merkle_root(pos, height, tx_ids)?);
            return Ok(());
        }
        {
            let next_height""")]
R["k-root-leaf"] = [(ME, """        if height == 0 {
            Ok(hashes[index as usize])
        } else {
            let left""", """        if height < 1 {
            let leaf = hashes[index as usize];
            Ok(leaf)
        } else {
            let left""")]
R["k-fw-bounded"] = [(FO, """        self.checked_reduce(buf.len() as u32)?;
        self.bytes.extend_from_slice(buf);
        Ok(())
""", """        let result = self.checked_reduce(buf.len() as u32);
        if result.is_ok() {
            self.bytes.extend(buf.iter());
        }
        result
""")]
R["k-fvec-len"] = [(FO, """        CompactUint {
            value: self.len() as u64,
        }
        .try_format(w)?;
        for value in self.iter() {
            value.try_format(w)?;
        }
        Ok(())
""", """        let length = CompactUint::from_usize(self.len());
        length.try_format(w)?;
        self.iter().try_for_each(|value| value.try_format(w))
""")]
R["k-finput-tuple"] = [(FO, """        let (previous_hash, previous_index) = match self.source {
            TransactionInputSource::Coinbase(_) => (H256Le::zero(), u32::MAX),
            TransactionInputSource::FromOutput(hash, index) => (hash, index),
        };
        previous_hash.try_format(w)?;
        previous_index.try_format(w)?;
""", """        match self.source {
            TransactionInputSource::FromOutput(hash, index) => {
                hash.try_format(w)?;
                index.try_format(w)?;
            }
            TransactionInputSource::Coinbase(_) => {
                H256Le::zero().try_format(w)?;
                u32::MAX.try_format(w)?;
            }
        }
""")]
R["k-finput-cat"] = [(FO, """            let script_len = self.script.len().saturating_add(height_bytes.len());

            CompactUint::from_usize(script_len).try_format(w)?;
            height_bytes.as_bytes().try_format(w)?;
        } else {
            CompactUint::from_usize(self.script.len()).try_format(w)?;
        }
        w.write(&self.script)?; // we already formatted the length
""", """            let mut full_script = height_bytes.as_bytes().to_vec();
            full_script.extend_from_slice(&self.script);
            full_script.try_format(w)?;
        } else {
            self.script.try_format(w)?;
        }
""")]
R["k-fproof-len"] = [(FO, """        let len = self
            .flag_bits
            .len()
            .checked_add(7)
            .ok_or(Error::ArithmeticOverflow)?
            .checked_div(8)
            .ok_or(Error::ArithmeticUnderflow)?;
        let mut bytes""", """        let len = self.flag_bits.len().checked_add(7).ok_or(Error::ArithmeticOverflow)? >> 3;
        let mut bytes""")]
R["k-fproof-chunks"] = [(FO, """        let mut bytes: Vec<u8> = vec![0; len];
        for p in 0..self.flag_bits.len() {
            bytes[p.checked_div(8).ok_or(Error::ArithmeticUnderflow)?] |= (self.flag_bits[p] as u8) << (p % 8) as u8;
        }
        bytes.try_format(w)?;
        Ok(())
""", """        let mut bytes: Vec<u8> = vec![0; len];
        for (p, flag) in self.flag_bits.iter().enumerate() {
            let byte_index = p / 8;
            let bit_index = p % 8;
            bytes[byte_index] |= (*flag as u8) << bit_index;
        }
        bytes.try_format(w)
""")]
R["k-get-size"] = [(MA, """        let mut compact = if size <= 3 {
            (self.low_u64() << (8 * (3 - size))) as u32
        } else {
            let bn = self >> (8 * (size - 3));
            bn.low_u32()
        };

        if (compact & 0x00800000) != 0 {
            compact >>= 8;
            size += 1;
        }
""", """        let mut compact: u32 = match size {
            0..=3 => (self.low_u64() << (8 * (3 - size))) as u32,
            _ => (self >> (8 * (size - 3))).low_u32(),
        };

        // the sign bit must stay clear
        const SIGN_BIT: u32 = 0x0080_0000;
        if compact & SIGN_BIT == SIGN_BIT {
            compact >>= 8;
            size += 1;
        }
""")]
R["k-set-match"] = [(MA, """        if word != 0 && (compact & 0x00800000) != 0 {
            // negative
            None
        } else if word != 0 && ((size > 34) || (word > 0xff && size > 33) || (word > 0xffff && size > 32)) {
            // overflow
            None
        } else {
            Some(value)
        }
""", """        let is_negative = (compact & 0x00800000) != 0;
        let is_overflow = size > 34 || (size > 33 && word > 0xff) || (size > 32 && word > 0xffff);
        match (word, is_negative || is_overflow) {
            (0, _) => Some(value),
            (_, true) => None,
            (_, false) => Some(value),
        }
""")]
R["k-set-nonzero"] = [(MA, """        if word != 0 && (compact & 0x00800000) != 0 {
            // negative
            None
        } else if word != 0 && ((size > 34) || (word > 0xff && size > 33) || (word > 0xffff && size > 32)) {
            // overflow
            None
        } else {
            Some(value)
        }
""", """        if word != 0 {
            let negative = (compact & 0x00800000) != 0;
            let overflow = (size > 34) || (word > 0xff && size > 33) || (word > 0xffff && size > 32);
            if negative || overflow {
                return None;
            }
        }
        Some(value)
""")]
R["k-pow-max"] = [(PW, """    if actual_timespan < TARGET_TIMESPAN / TARGET_TIMESPAN_DIVISOR {
        actual_timespan = TARGET_TIMESPAN / TARGET_TIMESPAN_DIVISOR;
    }

    if actual_timespan > TARGET_TIMESPAN * TARGET_TIMESPAN_DIVISOR {
        actual_timespan = TARGET_TIMESPAN * TARGET_TIMESPAN_DIVISOR;
    }

    let target = previous_target * actual_timespan;
    let target = target / TARGET_TIMESPAN;

    // ensure target does not exceed max
    if target > UNROUNDED_MAX_TARGET {
        UNROUNDED_MAX_TARGET
    } else {
        target
    }
    .get_compact()
    .ok_or(Error::InvalidCompact)
""", """    let (min_timespan, max_timespan) = (
        TARGET_TIMESPAN / TARGET_TIMESPAN_DIVISOR,
        TARGET_TIMESPAN * TARGET_TIMESPAN_DIVISOR,
    );
    if actual_timespan < min_timespan {
        actual_timespan = min_timespan;
    } else if actual_timespan > max_timespan {
        actual_timespan = max_timespan;
    }

    let mut target = previous_target * actual_timespan / TARGET_TIMESPAN;

    // ensure target does not exceed max
    if target > UNROUNDED_MAX_TARGET {
        target = UNROUNDED_MAX_TARGET;
    }
    target.get_compact().ok_or(Error::InvalidCompact)
""")]
R["k-sh-rposition"] = [(SC, """        let mut height_bytes = height.to_le_bytes().to_vec();
        for i in (1..4).rev() {
            // remove trailing zeroes, but always keep first byte even if it's zero
            if height_bytes[i] == 0 {
                height_bytes.remove(i);
            } else {
                break;
            }
        }
""", """        let mut height_bytes = height.to_le_bytes().to_vec();
        // remove trailing zeroes, but always keep first byte even if it's zero
        while height_bytes.len() > 1 && height_bytes.last() == Some(&0) {
            height_bytes.pop();
        }
""")]
R["k-is-starts"] = [(SC, """        self.len() == P2WPKH_V0_SCRIPT_SIZE as usize
            && self.bytes[0] == OpCode::Op0 as u8
            && self.bytes[1] == HASH160_SIZE_HEX
""", """        self.is_witness_program(P2WPKH_V0_SCRIPT_SIZE, HASH160_SIZE_HEX)
"""), (SC, """        self.len() == P2WSH_V0_SCRIPT_SIZE as usize
            && self.bytes[0] == OpCode::Op0 as u8
            && self.bytes[1] == HASH256_SIZE_HEX
    }
""", """        self.is_witness_program(P2WSH_V0_SCRIPT_SIZE, HASH256_SIZE_HEX)
    }

    fn is_witness_program(&self, script_size: u32, program_size: u8) -> bool {
        self.len() == script_size as usize && self.bytes[0] == OpCode::Op0 as u8 && self.bytes[1] == program_size
    }
""")]
R["k-opret-pattern"] = [(SC, """        let result = output_script.get(2..).ok_or(Error::EndOfFile)?;

        if result.len() != output_script[1] as usize {
            return Err(Error::MalformedOpReturnOutput);
        }

        Ok(result.to_vec())
""", """        let data = output_script.get(2..).ok_or(Error::EndOfFile)?;
        let declared_length = usize::from(output_script[1]);
        match data.len() == declared_length {
            true => Ok(data.to_vec()),
            false => Err(Error::MalformedOpReturnOutput),
        }
""")]
R["k-addr-helper"] = [(AD, """                let mut script = Script::new();
                script.append(OpCode::Op0);
                script.append(HASH160_SIZE_HEX);
                script.append(pub_key_hash);
                script
            }
            Self::P2WSHv0(script_hash) => {
                let mut script = Script::new();
                script.append(OpCode::Op0);
                script.append(HASH256_SIZE_HEX);
                script.append(script_hash);
                script
            }
        }
    }
""", """                Self::witness_program(HASH160_SIZE_HEX, pub_key_hash)
            }
            Self::P2WSHv0(script_hash) => Self::witness_program(HASH256_SIZE_HEX, script_hash),
        }
    }

    fn witness_program<T: crate::formatter::TryFormat>(size: u8, program: T) -> Script {
        let mut script = Script::new();
        script.append(OpCode::Op0);
        script.append(size);
        script.append(program);
        script
    }
""")]
R["k-addr-len"] = [(AD, """        if bytes.len() > MAX_ADDRESS_BYTES {
            // the `match` below might be O(bytes.len()) due to the binding of slices
            // Provide an early exit here to make sure this function is O(1)
            return Err(Error::InvalidBtcAddress);
        }

        match bytes {""", """        match bytes {
            // the arms below might be O(bytes.len()) due to the binding of slices
            // Provide an early exit here to make sure this function is O(1)
            too_long if too_long.len() > MAX_ADDRESS_BYTES => Err(Error::InvalidBtcAddress),""")]
R["k-addr-if"] = [(AD, """        match bytes {
            &[OP_DUP, OP_HASH_160, HASH160_SIZE_HEX, ref addr @ .., OP_EQUAL_VERIFY, OP_CHECK_SIG]
                if addr.len() == HASH160_SIZE_HEX as usize =>
            {
                Ok(Self::P2PKH(H160::from_slice(addr)))
            }
""", """        if let [OP_DUP, OP_HASH_160, HASH160_SIZE_HEX, hash @ .., OP_EQUAL_VERIFY, OP_CHECK_SIG] = bytes {
            if hash.len() == HASH160_SIZE_HEX as usize {
                return Ok(Self::P2PKH(H160::from_slice(hash)));
            }
        }

        match bytes {
""")]
R["k-addr-iszero"] = [(AD, """        match self {
            Self::P2PKH(hash) | Self::P2SH(hash) | Self::P2WPKHv0(hash) => hash.is_zero(),
            Self::P2WSHv0(hash) => hash.is_zero(),
        }
""", """        match *self {
            Self::P2PKH(hash) => hash == H160::zero(),
            Self::P2SH(hash) => hash == H160::zero(),
            Self::P2WPKHv0(hash) => hash == H160::zero(),
            Self::P2WSHv0(hash) => hash == H256::zero(),
        }
""")]
R["k-pk-sig"] = [(AD, """        let mut script = Script::new();
        script.append(&sig);
        script.append(self.0.to_vec());
        script
""", """        let public_key = self.as_bytes().to_vec();
        let mut script = Script::new();
        for item in [sig, public_key] {
            script.append(item);
        }
        script
""")]
R["k-pk-deposit"] = [(AD, """        self.new_deposit_public_key_with_secret(&self.new_secret_key(secure_id))
""", """        let secret = self.new_secret_key(secure_id);
        let deposit_key = self.new_deposit_public_key_with_secret(&secret)?;
        Ok(deposit_key)
""")]
R["k-pk-with"] = [(AD, """        let mut public_key = Secp256k1PublicKey::from_slice(&self.0)?;
        // D = V * c
        public_key.mul_assign(global::SECP256K1, secret_key)?;
        Ok(Self(public_key.serialize()))
""", """        // D = V * c
        Secp256k1PublicKey::from_slice(&self.0).and_then(|mut key| {
            key.mul_assign(global::SECP256K1, secret_key)?;
            Ok(Self(key.serialize()))
        })
""")]
R["k-merkle-step"] = [(UT, """    let mut res: Vec<u8> = vec![];
    res.extend(a);
    res.extend(b);
    H256Le::from_bytes_le(&sha256d(&res))
""", """    let concatenated = [a, b].concat();
    sha256d_le(&concatenated)
""")]
R["k-merkle-step2"] = [(UT, """    let mut res: Vec<u8> = vec![];
    res.extend(a);
    res.extend(b);
    H256Le::from_bytes_le(&sha256d(&res))
""", """    let mut res = a.to_vec();
    res.extend_from_slice(b);
    sha256d_le(&res)
""")]
R["k-rev-iter"] = [(UT, """    let mut vec = Vec::from(bytes);
    vec.reverse();
    vec
""", """    bytes.iter().rev().copied().collect()
""")]
R["k-rev-loop"] = [(UT, """    let mut vec = Vec::from(bytes);
    vec.reverse();
    vec
""", """    let mut reversed = Vec::with_capacity(bytes.len());
    for byte in bytes.iter().rev() {
        reversed.push(*byte);
    }
    reversed
""")]
R["k-log256"] = [(UT, """    let mut current = value - 1;
    let mut result: u8 = 0;
    while current > 0.into() {
        current >>= 8;
        result += 1;
    }
    result
""", """    let mut bytes: u8 = 0;
    let mut rest = value - 1;
    while !rest.is_zero() {
        rest = rest >> 8;
        bytes += 1;
    }
    bytes
""")]
R["k-weight-match"] = [(UT, """    let input_weight = input.count
        * match input.script_type {
            InputType::P2PKH => P2PKH_IN_WEIGHT,
            InputType::P2WPKHv0 => P2WPKH_IN_WEIGHT,
            InputType::P2SH {
                num_signatures,
                num_pubkeys,
            } => {
                let redeem_script_size = 1              // OP_M
                    + num_pubkeys * (1 + PUBKEY_SIZE)   // OP_PUSH33 <pubkey>
                    + 1                                 // OP_N
                    + 1; // OP_CHECKMULTISIG
                let script_sig_size = 1                     // size(0)
                    + num_signatures * (1 + SIGNATURE_SIZE) // size(SIGNATURE_SIZE) + signature
                    + script_length_size(redeem_script_size)
                    + redeem_script_size;
                let input_size = 32 + 4 + var_int_size(script_sig_size) + script_sig_size + 4;

                input_size * 4
            }
        };
""", """    let single_input_weight = match input.script_type {
        InputType::P2PKH => P2PKH_IN_WEIGHT,
        InputType::P2WPKHv0 => P2WPKH_IN_WEIGHT,
        InputType::P2SH {
            num_signatures,
            num_pubkeys,
        } => multisig_input_weight(num_signatures, num_pubkeys),
    };
    let input_weight = input.count * single_input_weight;
"""), (UT, """const fn transaction_weight(""", """const fn multisig_input_weight(num_signatures: u32, num_pubkeys: u32) -> u32 {
    // OP_M (OP_PUSH33 <pubkey>)* OP_N OP_CHECKMULTISIG
    let redeem_script_size = 3 + num_pubkeys * (1 + PUBKEY_SIZE);
    // size(0) (size(SIGNATURE_SIZE) + signature)* push of the redeem script
    let script_sig_size =
        1 + num_signatures * (1 + SIGNATURE_SIZE) + script_length_size(redeem_script_size) + redeem_script_size;
    (40 + var_int_size(script_sig_size) + script_sig_size) * 4
}

const fn transaction_weight(""")]
R["k-vsize"] = [(UT, """    let weight = transaction_weight(input, output);
    (weight + 3) / 4
""", """    const SCALE: u32 = 4;
    // rounded up
    (transaction_weight(input, output) + SCALE - 1) / SCALE
""")]
R["k-hash-map"] = [(TY, """        let mut bytes = vec![];
        self.try_format(&mut bytes)?;
        Ok(sha256d_le(&bytes))
    }

    pub fn ensure""", """        let mut serialized = Vec::new();
        self.try_format(&mut serialized).map(|_| sha256d_le(&serialized))
    }

    pub fn ensure""")]
R["k-header-tryinto"] = [(TY, """        if slice.len() != 80 {
            return Err(Error::InvalidHeaderSize);
        }
        let mut result = [0u8; 80];
        result.copy_from_slice(slice);
        parse_block_header(&result)
""", """        match slice.len() {
            80 => parse_block_header(slice),
            _ => Err(Error::InvalidHeaderSize),
        }
""")]
R["k-coinbase-gen"] = [(TY, """    let mut input_builder = TransactionInputBuilder::new();
    input_builder
        .with_source(TransactionInputSource::Coinbase(Some(height)))
        .add_witness(&[0; 32])
        .with_sequence(u32::MAX);
    if let Some(script) = input_script {
        input_builder.with_script(&script);
    }
    tx_builder.add_input(input_builder.build());
""", """    tx_builder.add_input(TransactionInput {
        source: TransactionInputSource::Coinbase(Some(height)),
        script: input_script.unwrap_or_default(),
        sequence: u32::MAX,
        witness: vec![vec![0; 32]],
    });
""")]
R["k-h256-eq"] = [(TY, """        let bytes_le = H256Le::from_bytes_be(self.as_bytes());
        bytes_le == *other
""", """        self.as_bytes() == &other.to_bytes_be()[..]
""")]
R["k-h256-int"] = [(TY, """                for i in 0..le_bytes.len() {
                    bytes[i] = le_bytes[i];
                }
""", """                bytes[..le_bytes.len()].copy_from_slice(&le_bytes);
""")]
R["k-bounded"] = [(TY, """        let mut bytes = BoundedWriter::new(length_bound);
        self.format_no_witness(&mut bytes)?;
        Ok(sha256d_le(&bytes.result()))
""", """        let mut writer = BoundedWriter::new(length_bound);
        match self.format_no_witness(&mut writer) {
            Ok(()) => Ok(sha256d_le(&writer.result())),
            Err(error) => Err(error),
        }
""")]
R["k-swap-take"] = [(CO, """            let order = self.orders.get(&counterparty).unwrap();

            let transferred_sats = self
                .env()
                .extension()
                .get_and_verify_bitcoin_payment(full_proof, order.btc_address)
                .unwrap()
                .unwrap_or(0);

            assert!(transferred_sats >= order.min_satoshis);
""", """            let LimitOrder {
                btc_address,
                min_satoshis,
                plancks,
            } = self.orders.get(&counterparty).expect("no such order");

            let payment = self.env().extension().get_and_verify_bitcoin_payment(full_proof, btc_address);
            let transferred_sats = payment.unwrap().unwrap_or_default();

            assert!(transferred_sats >= min_satoshis, "payment too small");
"""), (CO, "            self.env().transfer(caller, order.plancks).unwrap();\n", "            self.env().transfer(caller, plancks).unwrap();\n")]
