"""Twentieth round: labelled blocks, let-else, closures called at once, matches on tuples and slices, iterator adaptors."""
BT = "crates/bitcoin/src/"
PR = "primitives/src/lib.rs"


def cut(f, a, b):
    t = open("/repo/" + f).read()
    i = t.index(a)
    return t[i:t.index(b, i)]


def r(f, a, b, new):
    return [(f, cut(f, a, b), new)]


REFS = {
 "y-mtn-tuple": [(BT + "merkle.rs", cut(BT + "merkle.rs", "        if height == 0 || !parent_of_hash {", "        let next_height"), '''        match (height, parent_of_hash) {
            (0, matched) => {
                let index = traversal.hashes_used;
                let hash = *self.hashes.get(index).ok_or(Error::MalformedMerkleProof)?;
                if matched {
                    traversal.merkle_position = Some(pos);
                    traversal.hash_position = Some(index);
                }
                traversal.hashes_used = index.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
                return Ok(hash);
            }
            (_, false) => {
                let hash = *self.hashes.get(traversal.hashes_used).ok_or(Error::MalformedMerkleProof)?;
                traversal.hashes_used = traversal.hashes_used.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
                return Ok(hash);
            }
            (_, true) => {}
        }

''')],
 "y-mtn-letelse": [(BT + "merkle.rs", '''        let parent_of_hash = *self.flag_bits.get(traversal.bits_used).ok_or(Error::EndOfFile)?;
''', '''        let Some(&parent_of_hash) = self.flag_bits.get(traversal.bits_used) else {
            return Err(Error::EndOfFile);
        };
''')],
 "y-mtn-take": [(BT + "merkle.rs", "            let hash = self.hashes[traversal.hashes_used];\n            if height == 0 && parent_of_hash {\n                // in case of height 0, we have a matched txid\n                traversal.merkle_position = Some(pos);\n                traversal.hash_position = Some(traversal.hashes_used);\n            }\n            traversal.hashes_used = traversal.hashes_used.checked_add(1).ok_or(Error::ArithmeticOverflow)?;\n            return Ok(hash);",
   "            let taken = traversal.hashes_used;\n            traversal.hashes_used = taken.checked_add(1).ok_or(Error::ArithmeticOverflow)?;\n            if parent_of_hash {\n                // a flagged node gets here only at height 0: it is the matched txid\n                traversal.merkle_position = Some(pos);\n                traversal.hash_position = Some(taken);\n            }\n            return Ok(self.hashes[taken]);")],
 "y-mtb-any": [(BT + "merkle.rs", '''        let mut parent_of_match = false;
        let mut p = pos << height;
        while p < (pos + 1) << height && p < self.transactions_count {
            parent_of_match |= matches[p as usize];
            p += 1;
        }
''', '''        let first = pos << height;
        let end = core::cmp::min((pos + 1) << height, self.transactions_count);
        let parent_of_match = (first..end).any(|p| matches[p as usize]);
''')],
 "y-mtb-slice": [(BT + "merkle.rs", '''        let mut parent_of_match = false;
        let mut p = pos << height;
        while p < (pos + 1) << height && p < self.transactions_count {
            parent_of_match |= matches[p as usize];
            p += 1;
        }
''', '''        let end = ((pos + 1) << height).min(self.transactions_count);
        let mut parent_of_match = false;
        for p in (pos << height)..end {
            if matches[p as usize] {
                parent_of_match = true;
                break;
            }
        }
''')],
 "y-vp-ensure": [(BT + "merkle.rs", cut(BT + "merkle.rs", "        // fail if no transactions", "        let root ="), '''        let ensure = |condition: bool| {
            if condition {
                Ok(())
            } else {
                Err(Error::MalformedMerkleProof)
            }
        };
        let count = self.merkle_proof.transactions_count;
        // the number of transactions must be plausible
        ensure(count != 0)?;
        ensure(count <= MAX_TRANSACTIONS_IN_PROOF)?;
        // at least one bit per hash
        ensure(self.merkle_proof.flag_bits.len() >= self.merkle_proof.hashes.len())?;

''')],
 "y-vp-range": [(BT + "merkle.rs", cut(BT + "merkle.rs", "        // fail if no transactions", "        // fail if not at least"), '''        // fail if the number of transactions is not plausible
        if !matches!(self.merkle_proof.transactions_count, 1..=MAX_TRANSACTIONS_IN_PROOF) {
            return Err(Error::MalformedMerkleProof);
        }

''')],
 "y-vp-destruct": [(BT + "merkle.rs", '''        let merkle_position = traversal.merkle_position.ok_or(Error::InvalidMerkleProof)?;
        let hash_position = traversal.hash_position.ok_or(Error::InvalidMerkleProof)?;
''', '''        let (merkle_position, hash_position) = match (traversal.merkle_position, traversal.hash_position) {
            (Some(merkle_position), Some(hash_position)) => (merkle_position, hash_position),
            _ => return Err(Error::InvalidMerkleProof),
        };
''')],
 "y-vp-bytes": [(BT + "merkle.rs", cut(BT + "merkle.rs", "        // fail if all bits are not used", "        let tx_id ="), '''        // fail if all bits are not used
        let bytes_of = |bits: usize| -> Result<usize, Error> {
            let padded = bits.checked_add(7).ok_or(Error::ArithmeticOverflow)?;
            Ok(padded >> 3)
        };
        if bytes_of(traversal.bits_used)? != bytes_of(self.merkle_proof.flag_bits.len())? {
            return Err(Error::MalformedMerkleProof);
        }

''')],
 "y-cr-match": [(BT + "merkle.rs", '''        if height == 0 {
            Ok(hashes[index as usize])
        } else {
            let left''', '''        if height < 1 {
            return hashes.get(index as usize).copied().ok_or(Error::EndOfFile);
        } else {
            let left''')],
 "y-ch-succ": [(BT + "merkle.rs", '''        let mut height = 0;
        while Self::compute_width(transactions_count, height) > 1 {
            height += 1;
        }
        height
''', '''        let mut height = 0;
        loop {
            if Self::compute_width(transactions_count, height) <= 1 {
                break height;
            }
            height += 1;
        }
''')],
 "y-fcu-range": [(BT + "formatter.rs", cut(BT + "formatter.rs", "        if self.value < 0xfd {", "        Ok(())"), '''        match self.value {
            small @ 0..=0xfc => w.write(&[small as u8])?,
            medium @ 0xfd..=0xffff => {
                w.write(&[0xfd])?;
                w.write(&(medium as u16).to_le_bytes())?;
            }
            large @ 0x1_0000..=0xffff_ffff => {
                w.write(&[0xfe])?;
                w.write(&(large as u32).to_le_bytes())?;
            }
            huge => {
                w.write(&[0xff])?;
                w.write(&huge.to_le_bytes())?;
            }
        }
''')],
 "y-ftx-closure": [(BT + "formatter.rs", '''        if !self.has_witness() {
            self.inputs.try_format(w)?;
            self.outputs.try_format(w)?;
        } else {
            WITNESS_MARKER.try_format(w)?;
            WITNESS_FLAG.try_format(w)?;
            self.inputs.try_format(w)?;
            self.outputs.try_format(w)?;
            for input in self.inputs.iter() {
                input.witness.try_format(w)?;
            }
        }

        self.lock_at.try_format(w)?;
        Ok(())
''', '''        let segwit = self.has_witness();
        if segwit {
            [WITNESS_MARKER, WITNESS_FLAG].iter().try_for_each(|byte| byte.try_format(w))?;
        }
        self.inputs.try_format(w)?;
        self.outputs.try_format(w)?;
        if segwit {
            self.inputs.iter().try_for_each(|input| input.witness.try_format(w))?;
        }
        self.lock_at.try_format(w)
''')],
 "y-fin-script": [(BT + "formatter.rs", cut(BT + "formatter.rs", "        if let Some(height) = self.source", "        w.write(&self.script)") if False else cut(BT + "formatter.rs", "        if let TransactionInputSource::Coinbase(Some(height)) = self.source {", "        w.write(&self.script)?;"), '''        // account for the height in version 2 blocks
        let prefix = match self.source {
            TransactionInputSource::Coinbase(Some(height)) => Some(Script::height(height)),
            _ => None,
        };
        let prefix_len = prefix.as_ref().map_or(0, |script| script.len());
        CompactUint::from_usize(self.script.len().saturating_add(prefix_len)).try_format(w)?;
        if let Some(script) = &prefix {
            script.as_bytes().try_format(w)?;
        }
''')],
 "y-pcu-arr": [(BT + "parser.rs", cut(BT + "parser.rs", "    match varint.get(0).ok_or(Error::EndOfFile)? {", "}\n\n/// Parses a single bitcoin transaction\n"), '''    let (&first, rest) = varint.split_first().ok_or(Error::EndOfFile)?;
    match (first, rest) {
        (0xfd, [a, b, ..]) => Ok((u16::from_le_bytes([*a, *b]) as u64, 3)),
        (0xfe, [a, b, c, d, ..]) => Ok((u32::from_le_bytes([*a, *b, *c, *d]) as u64, 5)),
        (0xff, [a, b, c, d, e, f, g, h, ..]) => Ok((u64::from_le_bytes([*a, *b, *c, *d, *e, *f, *g, *h]), 9)),
        (0xfd..=0xff, _) => Err(Error::EndOfFile),
        (n, _) => Ok((n as u64, 1)),
    }
''')],
 "y-pbool-map": [(BT + "parser.rs", '''        let mut flag_bits = Vec::new();
        for i in 0..8 {
            let mask = 1 << i;
            let bit = (byte & mask) != 0;
            flag_bits.push(bit);
        }
        Ok((flag_bits, 1))
''', '''        let flag_bits = (0..8).map(|i| (byte >> i) & 1 == 1).collect();
        Ok((flag_bits, 1))
''')],
 "y-ptx-label": [(BT + "parser.rs", '''            if inputs.iter().all(|input| input.witness.is_empty()) {
                // A''', '''            let mut witnessed = false;
            for input in inputs.iter() {
                witnessed = witnessed || !input.witness.is_empty();
            }
            if !witnessed {
                // A''')],
 "y-ptx-lock": [(BT + "parser.rs", '''        let lock_at = if locktime_or_blockheight < LOCKTIME_THRESHOLD {
            LockTime::BlockHeight(locktime_or_blockheight)
        } else {
            LockTime::Time(locktime_or_blockheight)
        };
''', '''        let wrap = match locktime_or_blockheight >= LOCKTIME_THRESHOLD {
            true => LockTime::Time,
            false => LockTime::BlockHeight,
        };
        let lock_at = wrap(locktime_or_blockheight);
''')],
 "y-pread-split": [(BT + "parser.rs", '''        let bytes = self.raw_bytes.get(self.position..end).ok_or(Error::EndOfFile)?;
        self.position = end;
        Ok(Vec::from(bytes))
''', '''        if end > self.raw_bytes.len() {
            return Err(Error::EndOfFile);
        }
        let start = core::mem::replace(&mut self.position, end);
        Ok(self.raw_bytes[start..end].to_vec())
''')],
 "y-pu256-arr": [(BT + "parser.rs", '''        let mut bytes: [u8; 4] = Default::default();
        bytes.copy_from_slice(&raw_bytes[position..position + 4]);

        let bits = u32::from_le_bytes(bytes);
        let compact = U256::set_compact(bits).ok_or(Error::InvalidCompact)?;
        Ok((compact, 4))
''', '''        let (bits, consumed) = u32::parse(raw_bytes, position)?;
        match U256::set_compact(bits) {
            Some(compact) => Ok((compact, consumed)),
            None => Err(Error::InvalidCompact),
        }
''')],
 "y-sor-pattern": [(BT + "script.rs", cut(BT + "script.rs", "        let output_script = &self.bytes;", "    }\n\n    pub fn as_bytes"), '''        match self.bytes.as_slice() {
            [] => Err(Error::EndOfFile),
            [opcode, ..] if *opcode != OpCode::OpReturn as u8 => Err(Error::MalformedOpReturnOutput),
            script if script.len() > MAX_OPRETURN_SIZE => Err(Error::MalformedOpReturnOutput),
            [_] => Err(Error::EndOfFile),
            [_, length, data @ ..] if data.len() == *length as usize => Ok(data.to_vec()),
            _ => Err(Error::MalformedOpReturnOutput),
        }
''')],
 "y-sor-letelse": [(BT + "script.rs", '''        let result = output_script.get(2..).ok_or(Error::EndOfFile)?;

        if result.len() != output_script[1] as usize {
            return Err(Error::MalformedOpReturnOutput);
        }

        Ok(result.to_vec())
''', '''        let [_, declared, result @ ..] = output_script.as_slice() else {
            return Err(Error::EndOfFile);
        };
        (usize::from(*declared) == result.len())
            .then(|| result.to_vec())
            .ok_or(Error::MalformedOpReturnOutput)
''')],
 "y-sh-trunc": [(BT + "script.rs", cut(BT + "script.rs", "        let mut height_bytes = height.to_le_bytes().to_vec();", "        // If the most"), '''        let significant = core::cmp::max(1, (32 - height.leading_zeros() as usize + 7) / 8);
        let mut height_bytes = height.to_le_bytes()[..significant].to_vec();

''')],
 "y-sh-pop": [(BT + "script.rs", cut(BT + "script.rs", "        for i in (1..4).rev() {", "        // If the most"), '''        // remove trailing zeroes, but always keep first byte even if it's zero
        while height_bytes.len() > 1 && height_bytes.ends_with(&[0]) {
            height_bytes.pop();
        }

''')],
 "y-s-slicepat": [(BT + "script.rs", cut(BT + "script.rs", "        self.len() == P2SH_SCRIPT_SIZE as usize", "    }\n\n    pub fn append"), '''        self.len() == P2SH_SCRIPT_SIZE as usize
            && self.bytes.starts_with(&[OpCode::OpHash160 as u8, HASH160_SIZE_HEX])
            && self.bytes.last() == Some(&(OpCode::OpEqual as u8))
''')],
 "y-addr-ifs": [(BT + "address.rs", cut(BT + "address.rs", "        match bytes {\n            &[OP_DUP", "    }\n\n    pub fn to_script"), '''        const LEN_160: usize = HASH160_SIZE_HEX as usize;
        const LEN_256: usize = HASH256_SIZE_HEX as usize;
        match (bytes.len().checked_sub(2), bytes) {
            (Some(len), [OP_0, HASH256_SIZE_HEX, hash @ ..]) if len == LEN_256 => Ok(Self::P2WSHv0(H256::from_slice(hash))),
            (Some(len), [OP_0, HASH160_SIZE_HEX, hash @ ..]) if len == LEN_160 => Ok(Self::P2WPKHv0(H160::from_slice(hash))),
            (_, [OP_HASH_160, HASH160_SIZE_HEX, hash @ .., OP_EQUAL]) if hash.len() == LEN_160 => {
                Ok(Self::P2SH(H160::from_slice(hash)))
            }
            (_, [OP_DUP, OP_HASH_160, HASH160_SIZE_HEX, hash @ .., OP_EQUAL_VERIFY, OP_CHECK_SIG])
                if hash.len() == LEN_160 =>
            {
                Ok(Self::P2PKH(H160::from_slice(hash)))
            }
            _ => Err(Error::InvalidBtcAddress),
        }
''')],
 "y-gc-let": [(BT + "math.rs", '''        if !(compact & !0x007fffff == 0) {
            None
        } else if !(size < 256) {
            None
        } else {
            Some(compact | (size << 24) as u32)
        }
''', '''        (compact <= 0x007fffff && size <= 255).then(|| ((size as u32) << 24) | compact)
''')],
 "y-sc-filter": [(BT + "math.rs", cut(BT + "math.rs", "        if word != 0 && (compact & 0x00800000) != 0 {", "    }\n}\n\n// https"), '''        let negative = compact & 0x00800000 != 0;
        let overflow = match size {
            0..=32 => false,
            33 => word > 0xffff,
            34 => word > 0xff,
            _ => true,
        };
        Some(value).filter(|_| word == 0 || !(negative || overflow))
''')],
 "y-pow-clamp": [(BT + "pow.rs", cut(BT + "pow.rs", "    let mut actual_timespan =", "    let target = previous_target"), '''    const SHORTEST: u64 = TARGET_TIMESPAN / TARGET_TIMESPAN_DIVISOR;
    const LONGEST: u64 = TARGET_TIMESPAN * TARGET_TIMESPAN_DIVISOR;
    let actual_timespan = match last_block_time.checked_sub(first_block_time) {
        Some(timespan) => timespan.max(SHORTEST).min(LONGEST),
        None => SHORTEST,
    };

''')],
 "y-ms-arr": [(BT + "utils.rs", '''    let mut res: Vec<u8> = vec![];
    res.extend(a);
    res.extend(b);
    H256Le::from_bytes_le(&sha256d(&res))
''', '''    sha256d_le(&[a, b].concat())
''')],
 "y-sls-match": [(BT + "utils.rs", cut(BT + "utils.rs", "    if length <= 75 {", "}\n\n"), '''    match length {
        0..=75 => 1,
        76..=255 => 2,
        256..=65535 => 3,
        _ => 5,
    }
''')],
}
