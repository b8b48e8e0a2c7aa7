M = "crates/bitcoin/src/merkle.rs"
P = "crates/bitcoin/src/parser.rs"
W = "crates/bitcoin/src/pow.rs"
A = "crates/bitcoin/src/math.rs"
S = "crates/bitcoin/src/script.rs"
F = "crates/bitcoin/src/formatter.rs"
T = "crates/bitcoin/src/types.rs"
U = "crates/bitcoin/src/utils.rs"
D = "crates/bitcoin/src/address.rs"
PR = "primitives/src/lib.rs"

p = open("/repo/" + P).read()
CU = p[p.index("    match varint.get(0).ok_or(Error::EndOfFile)? {"):p.index("/// Parses a single bitcoin transaction\n")]
HEIGHT = p[p.index("        let height = if version != 2 {"):p.index("        TransactionInputSource::Coinbase(height)\n")]
f = open("/repo/" + F).read()
CF = f[f.index("        if self.value < 0xfd {"):f.index("impl<T> TryFormat for Vec<T>")]
INF = f[f.index("        let (previous_hash, previous_index) = match self.source"):f.index("impl TryFormat for Script {")]
PACK = f[f.index("        let mut bytes: Vec<u8> = vec![0; len];"):f.index("#[cfg(test)]\nmod tests")]
LEN = f[f.index("        let len = self\n            .flag_bits"):f.index("        let mut bytes: Vec<u8> = vec![0; len];")]
TXF = f[f.index("        if !self.has_witness() {"):f.index("        self.lock_at.try_format(w)?;\n        Ok(())\n    }\n}\n\n// https://developer")]
m = open("/repo/" + M).read()
BITS = m[m.index("        if traversal\n            .bits_used"):m.index("        let tx_id = self.transaction.tx_id_bounded")]
MP = m[m.index("        let mut p = pos << height;"):m.index("        self.flag_bits.push(parent_of_match);")]
a = open("/repo/" + A).read()
GC = a[a.index("        let mut size = (self.bits() + 7) / 8;"):a.index("pub trait SetCompact")]

REFS = {
    # --- loops by iterator
    "r-haswit-next": [(T, "        self.inputs.iter().any(|v| !v.witness.is_empty())\n", """        let mut inputs = self.inputs.iter();
        while let Some(input) = inputs.next() {
            if !input.witness.is_empty() {
                return true;
            }
        }
        false
""")],
    "r-vec-next": [(F, """        for value in self.iter() {
            value.try_format(w)?;
        }
        Ok(())
""", """        let mut values = self.iter();
        while let Some(value) = values.next() {
            value.try_format(w)?;
        }
        Ok(())
""")],
    "r-vec-loop": [(F, """        for value in self.iter() {
            value.try_format(w)?;
        }
        Ok(())
""", """        let mut values = self.iter();
        loop {
            match values.next() {
                Some(value) => value.try_format(w)?,
                None => return Ok(()),
            }
        }
""")],
    "r-vec-index": [(F, """        for value in self.iter() {
            value.try_format(w)?;
        }
        Ok(())
""", """        for i in 0..self.len() {
            (&self[i]).try_format(w)?;
        }
        Ok(())
""")],
    "r-vec-tryfold": [(F, """        for value in self.iter() {
            value.try_format(w)?;
        }
        Ok(())
""", """        self.iter().try_fold((), |_, value| value.try_format(w))
""")],
    "r-wit-loop": [(F, """            for input in self.inputs.iter() {
                input.witness.try_format(w)?;
            }
""", """            self.inputs.iter().try_for_each(|input| input.witness.try_format(w))?;
""")],
    "r-txf-once": [(F, TXF, """        let segwit = self.has_witness();
        if segwit {
            w.write(&[WITNESS_MARKER, WITNESS_FLAG])?;
        }
        self.inputs.try_format(w)?;
        self.outputs.try_format(w)?;
        if segwit {
            for TransactionInput { witness, .. } in &self.inputs {
                witness.try_format(w)?;
            }
        }

""")],
    "r-txf-match": [(F, TXF, """        match self.has_witness() {
            false => {
                self.inputs.try_format(w)?;
                self.outputs.try_format(w)?;
            }
            true => {
                WITNESS_MARKER.try_format(w)?;
                WITNESS_FLAG.try_format(w)?;
                self.inputs.try_format(w)?;
                self.outputs.try_format(w)?;
                let mut i = 0;
                while i < self.inputs.len() {
                    self.inputs[i].witness.try_format(w)?;
                    i += 1;
                }
            }
        }

""")],
    "r-cuint-match": [(F, CF, """        match self.value {
            n @ 0..=0xfc => w.write(&[n as u8]),
            n @ 0xfd..=0xffff => {
                w.write(&[0xfd])?;
                w.write(&(n as u16).to_le_bytes())
            }
            n @ 0x1_0000..=0xffff_ffff => {
                w.write(&[0xfe])?;
                w.write(&(n as u32).to_le_bytes())
            }
            n => {
                w.write(&[0xff])?;
                w.write(&n.to_le_bytes())
            }
        }
    }
}

""")],
    "r-cuint-prefix": [(F, CF, """        let (prefix, width): (u8, usize) = if self.value < 0xfd {
            return (self.value as u8).try_format(w);
        } else if self.value <= u16::MAX.into() {
            (0xfd, 2)
        } else if self.value <= u32::MAX.into() {
            (0xfe, 4)
        } else {
            (0xff, 8)
        };
        prefix.try_format(w)?;
        w.write(&self.value.to_le_bytes()[..width])
    }
}

""")],
    "r-inf-src": [(F, INF, """        let height_bytes = match self.source {
            TransactionInputSource::Coinbase(height) => {
                H256Le::zero().try_format(w)?;
                u32::MAX.try_format(w)?;
                height.map(Script::height)
            }
            TransactionInputSource::FromOutput(hash, index) => {
                hash.try_format(w)?;
                index.try_format(w)?;
                None
            }
        };

        let script_len = match &height_bytes {
            Some(height) => self.script.len().saturating_add(height.len()),
            None => self.script.len(),
        };
        CompactUint::from_usize(script_len).try_format(w)?;
        if let Some(height) = height_bytes {
            height.as_bytes().try_format(w)?;
        }
        w.write(&self.script)?;
        self.sequence.try_format(w)
    }
}

""")],
    "r-inf-len": [(F, INF, """        let coinbase_height = match self.source {
            TransactionInputSource::Coinbase(height) => height.map(|height| Script::height(height)),
            _ => None,
        };
        match self.source {
            TransactionInputSource::Coinbase(_) => {
                w.write(&[0u8; 32])?;
                w.write(&[0xff; 4])?;
            }
            TransactionInputSource::FromOutput(hash, index) => {
                w.write(&hash.to_bytes_le())?;
                w.write(&index.to_le_bytes())?;
            }
        }
        let prefix: &[u8] = coinbase_height.as_ref().map_or(&[], |script| script.as_bytes());
        CompactUint::from_usize(self.script.len().saturating_add(prefix.len())).try_format(w)?;
        w.write(prefix)?;
        w.write(&self.script)?;
        self.sequence.try_format(w)
    }
}

""")],
    "r-pack-chunks": [(F, LEN + PACK, """        let bytes: Vec<u8> = self
            .flag_bits
            .chunks(8)
            .map(|bits| {
                bits.iter()
                    .enumerate()
                    .fold(0u8, |byte, (i, bit)| byte | ((*bit as u8) << i))
            })
            .collect();
        bytes.try_format(w)
    }
}

""")],
    "r-pack-enum": [(F, PACK, """        let mut bytes: Vec<u8> = vec![0; len];
        for (position, bit) in self.flag_bits.iter().enumerate() {
            if *bit {
                bytes[position / 8] |= 1u8 << (position % 8);
            }
        }
        bytes.try_format(w)
    }
}

""")],
    "r-pack-while": [(F, PACK, """        let mut bytes: Vec<u8> = vec![0; len];
        let mut p = 0;
        while p < self.flag_bits.len() {
            let shift = (p & 7) as u8;
            bytes[p >> 3] |= u8::from(self.flag_bits[p]) << shift;
            p += 1;
        }
        bytes.try_format(w)
    }
}

""")],
    "r-len-ceil": [(F, LEN, "        let len = self.flag_bits.len() / 8 + usize::from(self.flag_bits.len() % 8 != 0);\n")],
    "r-len-simple": [(F, LEN, "        let len = self.flag_bits.len().checked_add(7).ok_or(Error::ArithmeticOverflow)? / 8;\n")],
    # --- compact parse
    "r-cu-first": [(P, CU, """    let (&first, rest) = varint.split_first().ok_or(Error::EndOfFile)?;
    let width = match first {
        0xfd => 2,
        0xfe => 4,
        0xff => 8,
        n => return Ok((n as u64, 1)),
    };
    let mut bytes = [0u8; 8];
    bytes[..width].copy_from_slice(rest.get(..width).ok_or(Error::EndOfFile)?);
    Ok((u64::from_le_bytes(bytes), width + 1))
}

""")],
    "r-cu-tryinto": [(P, CU, """    use core::convert::TryInto;

    match *varint.first().ok_or(Error::EndOfFile)? {
        0xfd => {
            let bytes: [u8; 2] = varint.get(1..3).ok_or(Error::EndOfFile)?.try_into().map_err(|_| Error::EndOfFile)?;
            Ok((u16::from_le_bytes(bytes).into(), 3))
        }
        0xfe => {
            let bytes: [u8; 4] = varint.get(1..5).ok_or(Error::EndOfFile)?.try_into().map_err(|_| Error::EndOfFile)?;
            Ok((u32::from_le_bytes(bytes).into(), 5))
        }
        0xff => {
            let bytes: [u8; 8] = varint.get(1..9).ok_or(Error::EndOfFile)?.try_into().map_err(|_| Error::EndOfFile)?;
            Ok((u64::from_le_bytes(bytes), 9))
        }
        n => Ok((n.into(), 1)),
    }
}

""")],
    "r-cu-pattern": [(P, CU, """    match *varint {
        [] => Err(Error::EndOfFile),
        [0xfd, a, b, ..] => Ok((u16::from_le_bytes([a, b]) as u64, 3)),
        [0xfe, a, b, c, d, ..] => Ok((u32::from_le_bytes([a, b, c, d]) as u64, 5)),
        [0xff, a, b, c, d, e, f, g, h, ..] => Ok((u64::from_le_bytes([a, b, c, d, e, f, g, h]), 9)),
        [0xfd..=0xff, ..] => Err(Error::EndOfFile),
        [n, ..] => Ok((n as u64, 1)),
    }
}

""")],
    "r-cu-helper": [(P, CU, """    let prefix = *varint.get(0).ok_or(Error::EndOfFile)?;
    match prefix {
        0xfd => Ok((little_endian(varint, 2)?, 3)),
        0xfe => Ok((little_endian(varint, 4)?, 5)),
        0xff => Ok((little_endian(varint, 8)?, 9)),
        n => Ok((n as u64, 1)),
    }
}

fn little_endian(varint: &[u8], size: usize) -> Result<u64, Error> {
    let source = varint.get(1..1 + size).ok_or(Error::EndOfFile)?;
    let mut buffer = [0u8; 8];
    buffer[..size].copy_from_slice(source);
    Ok(u64::from_le_bytes(buffer))
}

""")],
    "r-int-get": [(P, """                if position + $bytes > raw_bytes.len() {
                    return Err(Error::EndOfFile);
                }
                let mut value_bytes: [u8; $bytes] = Default::default();
                value_bytes.copy_from_slice(&raw_bytes[position..position + $bytes]);
                Ok((<$type>::from_le_bytes(value_bytes), $bytes))
""", """                let slice = raw_bytes.get(position..position + $bytes).ok_or(Error::EndOfFile)?;
                let mut value_bytes = [0u8; $bytes];
                value_bytes.copy_from_slice(slice);
                Ok((<$type>::from_le_bytes(value_bytes), $bytes))
""")],
    "r-int-zip": [(P, """                let mut value_bytes: [u8; $bytes] = Default::default();
                value_bytes.copy_from_slice(&raw_bytes[position..position + $bytes]);
                Ok((<$type>::from_le_bytes(value_bytes), $bytes))
""", """                let mut value_bytes = [0u8; $bytes];
                for i in 0..$bytes {
                    value_bytes[i] = raw_bytes[position + i];
                }
                Ok((<$type>::from_le_bytes(value_bytes), $bytes))
""")],
    "r-bool-map": [(P, """        let mut flag_bits = Vec::new();
        for i in 0..8 {
            let mask = 1 << i;
            let bit = (byte & mask) != 0;
            flag_bits.push(bit);
        }
        Ok((flag_bits, 1))
""", """        let flag_bits = (0..8).map(|i| (byte >> i) & 1 == 1).collect();
        Ok((flag_bits, 1))
""")],
    "r-bool-shift": [(P, """        let mut flag_bits = Vec::new();
        for i in 0..8 {
            let mask = 1 << i;
            let bit = (byte & mask) != 0;
            flag_bits.push(bit);
        }
        Ok((flag_bits, 1))
""", """        let mut flag_bits = Vec::with_capacity(8);
        let mut mask = 1u8;
        for _ in 0..8 {
            flag_bits.push(byte & mask == mask);
            mask = mask.wrapping_shl(1);
        }
        Ok((flag_bits, 1))
""")],
    "r-vec-collect": [(P, """        let count: CompactUint = parser.parse()?;
        for _ in 0..count.value {
            result.push(parser.parse()?);
        }
        Ok((result, parser.position))
    }
}

impl<T, U: Copy>""", """        let CompactUint { value: mut remaining } = parser.parse()?;
        while remaining > 0 {
            let item = parser.parse()?;
            result.push(item);
            remaining -= 1;
        }
        Ok((result, parser.position))
    }
}

impl<T, U: Copy>""")],
    "r-slice-helper": [(P, """impl Parsable for H256Le {
    fn parse(raw_bytes: &[u8], position: usize) -> Result<(H256Le, usize), Error> {
        let slice = raw_bytes.get(position..position + 32).ok_or(Error::EndOfFile)?;
        Ok((H256Le::from_bytes_le(slice), 32))
    }
}
""", """fn window(raw_bytes: &[u8], position: usize, size: usize) -> Result<&[u8], Error> {
    match raw_bytes.get(position..position + size) {
        Some(slice) => Ok(slice),
        None => Err(Error::EndOfFile),
    }
}

impl Parsable for H256Le {
    fn parse(raw_bytes: &[u8], position: usize) -> Result<(H256Le, usize), Error> {
        const SIZE: usize = 32;
        window(raw_bytes, position, SIZE).map(|slice| (H256Le::from_bytes_le(slice), SIZE))
    }
}
"""), (P, """        let header_bytes = raw_bytes.get(position..position + 80).ok_or(Error::EndOfFile)?;
""", """        let header_bytes = window(raw_bytes, position, 80)?;
""")],
    "r-height-fn": [(P, HEIGHT, """        let height = match version {
            2 => {
                let height_size = parser.parse::<CompactUint>()?.value;
                script_size = match height_size.checked_add(1) {
                    Some(size) if size <= script_size => script_size - size,
                    _ => return Err(Error::EndOfFile),
                };
                Some(parse_height(&mut parser, height_size)?)
            }
            _ => None,
        };

"""), (P, "fn parse_transaction_output(", """fn parse_height(parser: &mut BytesParser, size: u64) -> Result<u32, Error> {
    let mut buffer = [0u8; 4];
    if size > 4 {
        return Err(Error::MalformedTransaction);
    }
    let size = size as usize;
    let bytes = parser.read(size)?;
    buffer[..size].copy_from_slice(&bytes[..size]);
    Ok(u32::from_le_bytes(buffer))
}

fn parse_transaction_output(""")],
    "r-height-shift": [(P, """            let bytes = parser.read(height_size as usize)?;
            buffer[..(height_size as usize)]
                .copy_from_slice(bytes.get(0..(height_size as usize)).ok_or(Error::EndOfFile)?);
            Some(u32::from_le_bytes(buffer))
""", """            let bytes = parser.read(height_size as usize)?;
            for (slot, byte) in buffer.iter_mut().zip(bytes) {
                *slot = byte;
            }
            Some(u32::from_le_bytes(buffer))
""")],
    "r-read-split": [(P, """        let end = self
            .position
            .checked_add(bytes_count)
            .ok_or(Error::ArithmeticOverflow)?;
        let bytes = self.raw_bytes.get(self.position..end).ok_or(Error::EndOfFile)?;
        self.position = end;
        Ok(Vec::from(bytes))
""", """        let start = self.position;
        let end = start.checked_add(bytes_count).ok_or(Error::ArithmeticOverflow)?;
        if end > self.raw_bytes.len() {
            return Err(Error::EndOfFile);
        }
        self.position = end;
        Ok(self.raw_bytes[start..end].to_vec())
""")],
    "r-advance": [(P, """        let (result, bytes_consumed) = T::parse(&self.raw_bytes, self.position)?;
        self.position = self
            .position
            .checked_add(bytes_consumed)
            .ok_or(Error::ArithmeticOverflow)?;
        Ok(result)
""", """        let (result, bytes_consumed) = T::parse(&self.raw_bytes, self.position)?;
        self.advance(bytes_consumed).map(|_| result)
"""), (P, """        let (result, bytes_consumed) = T::parse_with(&self.raw_bytes, self.position, extra)?;
        self.position = self
            .position
            .checked_add(bytes_consumed)
            .ok_or(Error::ArithmeticOverflow)?;
        Ok(result)
    }
""", """        let (result, bytes_consumed) = T::parse_with(&self.raw_bytes, self.position, extra)?;
        self.advance(bytes_consumed)?;
        Ok(result)
    }

    fn advance(&mut self, bytes_consumed: usize) -> Result<(), Error> {
        match self.position.checked_add(bytes_consumed) {
            Some(position) => {
                self.position = position;
                Ok(())
            }
            None => Err(Error::ArithmeticOverflow),
        }
    }
""")],
    "r-ptx-lock": [(P, """        let locktime_or_blockheight: u32 = parser.parse()?;
        let lock_at = if locktime_or_blockheight < LOCKTIME_THRESHOLD {
            LockTime::BlockHeight(locktime_or_blockheight)
        } else {
            LockTime::Time(locktime_or_blockheight)
        };
""", """        let lock_at = match parser.parse::<u32>()? {
            height @ 0..=499_999_999 => LockTime::BlockHeight(height),
            time => LockTime::Time(time),
        };
""")],
    "r-ptx-ver": [(P, """        if version != 1 && version != 2 {
            return Err(Error::MalformedTransaction);
        }
""", """        match version {
            1 | 2 => (),
            _ => return Err(Error::MalformedTransaction),
        }
""")],
    "r-ptx-wit": [(P, """            for input in &mut inputs {
                input.with_witness(parser.parse()?);
            }

            if inputs.iter().all(|input| input.witness.is_empty()) {
""", """            let mut any_witness = false;
            for input in inputs.iter_mut() {
                input.witness = parser.parse()?;
                any_witness |= !input.witness.is_empty();
            }

            if !any_witness {
""")],
    "r-out-guard": [(P, """    let script_size: CompactUint = parser.parse()?;
    if script_size.value > 10_000 {
        return Err(Error::MalformedTransaction);
    }
    let script = parser.read(script_size.value as usize)?;
""", """    const MAX_SCRIPT_SIZE: u64 = 10_000;
    let script = match parser.parse::<CompactUint>()?.value {
        size if size <= MAX_SCRIPT_SIZE => parser.read(size as usize)?,
        _ => return Err(Error::MalformedTransaction),
    };
""")],
    # --- merkle
    "r-bits-helper": [(M, BITS, """        let bytes_for = |bits: usize| -> Result<usize, Error> { Ok(bits.checked_add(7).ok_or(Error::ArithmeticOverflow)? / 8) };
        if bytes_for(traversal.bits_used)? != bytes_for(self.merkle_proof.flag_bits.len())? {
            return Err(Error::MalformedMerkleProof);
        }

""")],
    "r-bits-fn": [(M, BITS, """        if flag_bytes(traversal.bits_used)? != flag_bytes(self.merkle_proof.flag_bits.len())? {
            return Err(Error::MalformedMerkleProof);
        }

"""), (M, "impl PartialTransactionProof {", """/// Number of bytes that the given number of flag bits takes up
fn flag_bytes(bits: usize) -> Result<usize, Error> {
    let padded = bits.checked_add(7).ok_or(Error::ArithmeticOverflow)?;
    padded.checked_div(8).ok_or(Error::ArithmeticUnderflow)
}

impl PartialTransactionProof {""")],
    "r-matches-any": [(M, "        let mut parent_of_match = false;\n" + MP, """        let first = pos << height;
        let last = ((pos + 1) << height).min(self.transactions_count);
        let parent_of_match = (first..last).any(|p| matches[p as usize]);

""")],
    "r-matches-for": [(M, MP, """        for p in (pos << height)..core::cmp::min((pos + 1) << height, self.transactions_count) {
            if matches[p as usize] {
                parent_of_match = true;
            }
        }

""")],
    "r-root-right": [(M, """            let right_index = index
                .checked_mul(2)
                .ok_or(Error::ArithmeticOverflow)?
                .checked_add(1)
                .ok_or(Error::ArithmeticOverflow)?;
            let right = if right_index < Self::compute_width(transactions_count, height - 1) {
                Self::compute_root(
                    right_index,
                    height.checked_sub(1).ok_or(Error::ArithmeticUnderflow)?,
                    transactions_count,
                    hashes,
                )?
            } else {
                left
            };
""", """            let right_index = index
                .checked_mul(2)
                .and_then(|left_index| left_index.checked_add(1))
                .ok_or(Error::ArithmeticOverflow)?;
            let below = height - 1;
            let mut right = left;
            if right_index < Self::compute_width(transactions_count, below) {
                right = Self::compute_root(right_index, below, transactions_count, hashes)?;
            }
""")],
    "r-leaf-fn": [(M, """            // if at height 0, or nothing interesting below, use stored hash and do not descend
            if traversal.hashes_used >= self.hashes.len() {
                return Err(Error::MalformedMerkleProof);
            }
            let hash = self.hashes[traversal.hashes_used];
            if height == 0 && parent_of_hash {
                // in case of height 0, we have a matched txid
                traversal.merkle_position = Some(pos);
                traversal.hash_position = Some(traversal.hashes_used);
            }
            traversal.hashes_used = traversal.hashes_used.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
            return Ok(hash);
        }
""", """            return self.take_hash(height == 0 && parent_of_hash, pos, traversal);
        }
"""), (M, "    pub(crate) fn traverse_and_build(", """    /// Uses the next stored hash
    fn take_hash(&self, matched: bool, pos: u32, traversal: &mut MerkleProofTraversal) -> Result<H256Le, Error> {
        let index = traversal.hashes_used;
        let hash = self.hashes.get(index).copied().ok_or(Error::MalformedMerkleProof)?;
        if matched {
            traversal.hash_position = Some(index);
            traversal.merkle_position = Some(pos);
        }
        traversal.hashes_used = index.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
        Ok(hash)
    }

    pub(crate) fn traverse_and_build(""")],
    "r-mp-collect": [(M, """        let mut hashes = Vec::<H256Le>::new();
        for _ in 0..hashes_count.value {
            hashes.push(proof_parser.parse()?);
        }
""", """        let hashes = (0..hashes_count.value)
            .map(|_| proof_parser.parse())
            .collect::<Result<Vec<H256Le>, Error>>()?;
""")],
    "r-mp-flags": [(M, """        let mut flag_bits = Vec::new();
        for _ in 0..flag_bits_count.value {
            flag_bits.extend(proof_parser.parse::<Vec<bool>>()?);
        }
""", """        let mut flag_bits: Vec<bool> = Vec::new();
        for _ in 0..flag_bits_count.value {
            let mut bits: Vec<bool> = proof_parser.parse()?;
            flag_bits.append(&mut bits);
        }
""")],
    # --- pow, math
    "r-pow-clamp": [(W, """    let mut actual_timespan = last_block_time.saturating_sub(first_block_time);

    if actual_timespan < TARGET_TIMESPAN / TARGET_TIMESPAN_DIVISOR {
        actual_timespan = TARGET_TIMESPAN / TARGET_TIMESPAN_DIVISOR;
    }

    if actual_timespan > TARGET_TIMESPAN * TARGET_TIMESPAN_DIVISOR {
        actual_timespan = TARGET_TIMESPAN * TARGET_TIMESPAN_DIVISOR;
    }

    let target = previous_target * actual_timespan;
    let target = target / TARGET_TIMESPAN;

    // ensure target does not exceed max
    if target > UNROUNDED_MAX_TARGET {
        UNROUNDED_MAX_TARGET
    } else {
        target
    }
    .get_compact()
    .ok_or(Error::InvalidCompact)
""", """    const SHORTEST: u64 = TARGET_TIMESPAN / TARGET_TIMESPAN_DIVISOR;
    const LONGEST: u64 = TARGET_TIMESPAN * TARGET_TIMESPAN_DIVISOR;

    let timespan = match last_block_time.saturating_sub(first_block_time) {
        span if span < SHORTEST => SHORTEST,
        span if span > LONGEST => LONGEST,
        span => span,
    };

    let retargeted = (previous_target * timespan) / TARGET_TIMESPAN;
    let bounded = core::cmp::min(retargeted, UNROUNDED_MAX_TARGET);
    match bounded.get_compact() {
        Some(bits) => Ok(bits),
        None => Err(Error::InvalidCompact),
    }
""")],
    "r-gc-tuple": [(A, GC, """        let bytes = (self.bits() + 7) / 8;
        let mantissa = if bytes > 3 {
            (self >> (8 * (bytes - 3))).low_u32()
        } else {
            (self.low_u64() << (8 * (3 - bytes))) as u32
        };

        // the sign bit must not be set
        let (mantissa, size) = if mantissa & 0x0080_0000 == 0 {
            (mantissa, bytes)
        } else {
            (mantissa >> 8, bytes + 1)
        };

        if mantissa & !0x007f_ffff != 0 || size >= 256 {
            return None;
        }
        Some(mantissa | (size << 24) as u32)
    }
}

""")],
    # --- primitives
    "r-islp-into": [(PR, """        match self {
            Self::Token(_) | Self::ForeignAsset(_) | Self::StableLpToken(_) => true,
            _ => false,
        }
""", """        if let Self::Token(_) = self {
            return true;
        }
        if let Self::ForeignAsset(_) = self {
            return true;
        }
        if let Self::StableLpToken(_) = self {
            return true;
        }
        false
""")],
    "r-opret-first": [(S, "        if *output_script.get(0).ok_or(Error::EndOfFile)? != OpCode::OpReturn as u8 {\n", "        let op = output_script.iter().next().ok_or(Error::EndOfFile)?;\n        if *op != OpCode::OpReturn as u8 {\n")],
}
