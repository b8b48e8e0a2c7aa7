M = "crates/bitcoin/src/merkle.rs"
P = "crates/bitcoin/src/parser.rs"
S = "crates/bitcoin/src/script.rs"
F = "crates/bitcoin/src/formatter.rs"
D = "crates/bitcoin/src/address.rs"
p = open("/repo/" + P).read()
m = open("/repo/" + M).read()
s = open("/repo/" + S).read()
f = open("/repo/" + F).read()
d = open("/repo/" + D).read()


def cut(x, a, b):
    i = x.index(a)
    return x[i:x.index(b, i)]


TRAV = cut(m, "        let parent_of_hash = *self", "    pub(crate) fn traverse_and_build")
VER = cut(m, "        // fail if no transactions\n", "        let root = self.merkle_proof.traverse")
BITS = cut(m, "        // fail if all bits are not used", "        let tx_id = self.transaction")
BUILD = cut(m, "        let mut parent_of_match = false;", "    /// Parses a merkle proof as produced")
ROOT = cut(m, "        if height == 0 {\n            Ok(hashes[index as usize])", "impl PartialTransactionProof {")
INT = cut(p, "                if position + $bytes >", "            }\n        }\n    };")
WIT = cut(p, "        if (flags & 1) != 0 && allow_witness {", "        let locktime_or_blockheight")
LOCK = cut(p, "        let lock_at = if locktime", "        if flags != 0 {")
TXIN = cut(p, "    let is_coinbase = previous_hash", "    let sequence: u32 = parser.parse()?;")
CU = cut(p, "    match varint.get(0)", "/// Parses a single bitcoin transaction\n")
VB = cut(p, "        let mut flag_bits = Vec::new();\n        for i in 0..8", "        Ok((flag_bits, 1))")
HB = cut(s, "        for i in (1..4).rev()", "        script.append(height_bytes);")
OPR = cut(s, "        let output_script = &self.bytes;", "    pub fn as_bytes")
FCU = cut(f, "        if self.value < 0xfd {", "        Ok(())\n    }\n}\n\nimpl<T> TryFormat for Vec<T>")
TOS = cut(d, "        match self {\n            Self::P2PKH(pub_key_hash) => {\n                let mut script", "    #[cfg(feature = \"std\")]\n    pub fn random()")

REFS = {
    "x-trav-methods": [(M, TRAV, """        let parent_of_hash = traversal.next_bit(&self.flag_bits)?;

        if height != 0 && parent_of_hash {
            return self.descend(height, pos, traversal);
        }

        let (hash_position, hash) = traversal.next_hash(&self.hashes)?;
        if parent_of_hash {
            traversal.merkle_position.replace(pos);
            traversal.hash_position.replace(hash_position);
        }
        Ok(hash)
    }

    fn descend(&self, height: u32, pos: u32, traversal: &mut MerkleProofTraversal) -> Result<H256Le, Error> {
        let child_height = height.checked_sub(1).ok_or(Error::ArithmeticUnderflow)?;
        let left_index = pos.checked_mul(2).ok_or(Error::ArithmeticOverflow)?;
        let right_index = left_index.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
        let left = self.traverse_and_extract(child_height, left_index, traversal)?;
        let has_right = self.compute_partial_tree_width(child_height) > right_index;
        let right = match has_right {
            true => self.traverse_and_extract(child_height, right_index, traversal)?,
            false => left,
        };
        Ok(hash256_merkle_step(&left.to_bytes_le(), &right.to_bytes_le()))
    }

"""), (M, "impl MerkleProof {\n", """impl MerkleProofTraversal {
    fn next_bit(&mut self, flag_bits: &[bool]) -> Result<bool, Error> {
        let bit = flag_bits.get(self.bits_used).copied().ok_or(Error::EndOfFile)?;
        self.bits_used = self.bits_used.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
        Ok(bit)
    }

    fn next_hash(&mut self, hashes: &[H256Le]) -> Result<(usize, H256Le), Error> {
        let position = self.hashes_used;
        let hash = *hashes.get(position).ok_or(Error::MalformedMerkleProof)?;
        self.hashes_used = position.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
        Ok((position, hash))
    }
}

impl MerkleProof {
""")],
    "x-trav-match": [(M, TRAV, """        let parent_of_hash = match self.flag_bits.get(traversal.bits_used) {
            Some(bit) => *bit,
            None => return Err(Error::EndOfFile),
        };
        traversal.bits_used = traversal.bits_used.checked_add(1).ok_or(Error::ArithmeticOverflow)?;

        match (height, parent_of_hash) {
            (0, _) | (_, false) => {
                let index = traversal.hashes_used;
                let hash = match self.hashes.get(index) {
                    None => return Err(Error::MalformedMerkleProof),
                    Some(&hash) => hash,
                };
                traversal.hashes_used = index.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
                if let (0, true) = (height, parent_of_hash) {
                    traversal.merkle_position = Some(pos);
                    traversal.hash_position = Some(index);
                }
                Ok(hash)
            }
            _ => {
                let next_height = height.checked_sub(1).ok_or(Error::ArithmeticUnderflow)?;
                let children = [
                    pos.checked_mul(2).ok_or(Error::ArithmeticOverflow)?,
                    pos.checked_mul(2).and_then(|x| x.checked_add(1)).ok_or(Error::ArithmeticOverflow)?,
                ];
                let left = self.traverse_and_extract(next_height, children[0], traversal)?;
                let mut right = left;
                if children[1] < self.compute_partial_tree_width(next_height) {
                    right = self.traverse_and_extract(next_height, children[1], traversal)?;
                }
                Ok(hash256_merkle_step(&left.to_bytes_le(), &right.to_bytes_le()))
            }
        }
    }

""")],
    "x-ver-check": [(M, VER, """        self.merkle_proof.check_counts()?;

"""), (M, "impl MerkleProof {\n", """impl MerkleProof {
    fn check_counts(&self) -> Result<(), Error> {
        let count_is_valid = (1..=MAX_TRANSACTIONS_IN_PROOF).contains(&self.transactions_count);
        let enough_bits = self.hashes.len() <= self.flag_bits.len();
        if count_is_valid && enough_bits {
            Ok(())
        } else {
            Err(Error::MalformedMerkleProof)
        }
    }

""")],
    "x-ver-bytes": [(M, BITS, """        if full_bytes(traversal.bits_used)? != full_bytes(self.merkle_proof.flag_bits.len())? {
            return Err(Error::MalformedMerkleProof);
        }

"""), (M, "impl MerkleProof {\n", """fn full_bytes(bits: usize) -> Result<usize, Error> {
    Ok(bits.checked_add(7).ok_or(Error::ArithmeticOverflow)? / 8)
}

impl MerkleProof {
""")],
    "x-ver-shift": [(M, BITS, """        let used = traversal.bits_used.checked_add(7).ok_or(Error::ArithmeticOverflow)? >> 3;
        let given = self.merkle_proof.flag_bits.len().checked_add(7).ok_or(Error::ArithmeticOverflow)? >> 3;
        if used != given {
            return Err(Error::MalformedMerkleProof);
        }

""")],
    "x-build-any": [(M, BUILD, """        let first = pos << height;
        let last = ((pos + 1) << height).min(self.transactions_count);
        let parent_of_match = (first..last).any(|p| matches[p as usize]);
        self.flag_bits.push(parent_of_match);

        if height > 0 && parent_of_match {
            let next_height = height.checked_sub(1).ok_or(Error::ArithmeticUnderflow)?;
            let left_index = pos.checked_mul(2).ok_or(Error::ArithmeticOverflow)?;
            let right_index = left_index.checked_add(1).ok_or(Error::ArithmeticOverflow)?;
            self.traverse_and_build(next_height, left_index, tx_ids, matches)?;
            if right_index >= self.compute_partial_tree_width(next_height) {
                return Ok(());
            }
            return self.traverse_and_build(next_height, right_index, tx_ids, matches);
        }

        self.hashes.push(self.compute_merkle_root(pos, height, tx_ids)?);
        Ok(())
    }

""")],
    "x-root-match": [(M, ROOT, """        let next_height = match height {
            0 => return Ok(hashes[index as usize]),
            h => h - 1,
        };
        let child = |offset: u32| index.checked_mul(2).and_then(|i| i.checked_add(offset)).ok_or(Error::ArithmeticOverflow);
        let left = Self::compute_root(child(0)?, next_height, transactions_count, hashes)?;
        let right_index = child(1)?;
        let right = if Self::compute_width(transactions_count, next_height) <= right_index {
            left
        } else {
            Self::compute_root(right_index, next_height, transactions_count, hashes)?
        };
        Ok(hash256_merkle_step(&left.to_bytes_le(), &right.to_bytes_le()))
    }
}

""")],
    "x-int-get": [(P, INT, """                let value_bytes = raw_bytes
                    .get(position..)
                    .and_then(|rest| rest.get(..$bytes))
                    .and_then(|bytes| <[u8; $bytes]>::try_from(bytes).ok())
                    .ok_or(Error::EndOfFile)?;
                Ok((<$type>::from_le_bytes(value_bytes), $bytes))
""")],
    "x-wit-fn": [(P, WIT, """        let has_witness = allow_witness && flags & 1 == 1;
        if has_witness {
            flags &= !1;
            parse_witnesses(&mut parser, &mut inputs)?;
        }

"""), (P, "fn parse_transaction_input(", """fn parse_witnesses(parser: &mut BytesParser, inputs: &mut [TransactionInput]) -> Result<(), Error> {
    for input in inputs.iter_mut() {
        let witness = parser.parse()?;
        input.with_witness(witness);
    }
    if inputs.iter().any(|input| !input.witness.is_empty()) {
        Ok(())
    } else {
        Err(Error::MalformedTransaction)
    }
}

fn parse_transaction_input(""")],
    "x-lock-from": [(P, LOCK, """        let lock_at = lock_time(locktime_or_blockheight);

"""), (P, "fn parse_transaction_input(", """fn lock_time(value: u32) -> LockTime {
    match value {
        LOCKTIME_THRESHOLD..=u32::MAX => LockTime::Time(value),
        _ => LockTime::BlockHeight(value),
    }
}

fn parse_transaction_input(""")],
    "x-txin-fn": [(P, TXIN, """    let is_coinbase = previous_hash == H256Le::zero();
    if is_coinbase && previous_index != u32::MAX {
        return Err(Error::MalformedTransaction);
    }

    let declared: u64 = parser.parse::<CompactUint>()?.value;
    let (source, script_size) = match is_coinbase {
        false => (TransactionInputSource::FromOutput(previous_hash, previous_index), declared),
        true if version == 2 => {
            let (height, rest) = parse_coinbase_height(&mut parser, declared)?;
            (TransactionInputSource::Coinbase(Some(height)), rest)
        }
        true => (TransactionInputSource::Coinbase(None), declared),
    };

    let script = parser.read(script_size as usize)?;
    if script.len() > 100 && is_coinbase {
        return Err(Error::MalformedTransaction);
    }

"""), (P, "fn parse_transaction_input(", """fn parse_coinbase_height(parser: &mut BytesParser, script_size: u64) -> Result<(u32, u64), Error> {
    let height_size: u64 = parser.parse::<CompactUint>()?.value;
    let prefix = height_size.checked_add(1).ok_or(Error::EndOfFile)?;
    let rest = script_size.checked_sub(prefix).ok_or(Error::EndOfFile)?;
    if height_size > 4 {
        return Err(Error::MalformedTransaction);
    }
    let height = parser
        .read(height_size as usize)?
        .iter()
        .rev()
        .fold(0u32, |height, byte| height << 8 | u32::from(*byte));
    Ok((height, rest))
}

fn parse_transaction_input(""")],
    "x-txin-copy": [(P, TXIN, TXIN.replace("""            let mut buffer = [0u8; 4];
            if height_size > buffer.len() as u64 {
                return Err(Error::MalformedTransaction);
            }
            let bytes = parser.read(height_size as usize)?;
            buffer[..(height_size as usize)]
                .copy_from_slice(bytes.get(0..(height_size as usize)).ok_or(Error::EndOfFile)?);
""", """            if height_size > 4 {
                return Err(Error::MalformedTransaction);
            }
            let mut buffer = [0u8; 4];
            for (target, byte) in buffer.iter_mut().zip(parser.read(height_size as usize)?) {
                *target = byte;
            }
"""))],
    "x-cu-generic": [(P, CU, """    let (first, rest) = varint.split_first().ok_or(Error::EndOfFile)?;
    match first {
        0xfd => Ok((u16::from_le_bytes(take(rest)?) as u64, 3)),
        0xfe => Ok((u32::from_le_bytes(take(rest)?) as u64, 5)),
        0xff => Ok((u64::from_le_bytes(take(rest)?), 9)),
        n => Ok((u64::from(*n), 1)),
    }
}

fn take<const N: usize>(bytes: &[u8]) -> Result<[u8; N], Error> {
    let mut taken = [0u8; N];
    taken.copy_from_slice(bytes.get(..N).ok_or(Error::EndOfFile)?);
    Ok(taken)
}

""")],
    "x-vb-map": [(P, VB, """        let flag_bits: Vec<bool> = (0..8u32).map(|i| (byte >> i) & 1 == 1).collect();
""")],
    "x-vb-arr": [(P, VB, """        const MASKS: [u8; 8] = [1, 2, 4, 8, 16, 32, 64, 128];
        let flag_bits = MASKS.iter().map(|mask| byte & mask == *mask).collect();
""")],
    "x-height-trunc": [(S, HB, """        while height_bytes.len() > 1 && height_bytes.last() == Some(&0) {
            height_bytes.pop();
        }
        if height_bytes.last().map_or(false, |x| *x >= 0x80) {
            height_bytes.push(0x00);
        }

""")],
    "x-opr-pattern": [(S, OPR, """        match self.bytes.as_slice() {
            [] => Err(Error::EndOfFile),
            [op, ..] if *op != OpCode::OpReturn as u8 => Err(Error::MalformedOpReturnOutput),
            bytes if bytes.len() > MAX_OPRETURN_SIZE => Err(Error::MalformedOpReturnOutput),
            [_, len, data @ ..] if data.len() == *len as usize => Ok(data.to_vec()),
            [_, _, ..] => Err(Error::MalformedOpReturnOutput),
            _ => Err(Error::EndOfFile),
        }
    }

""")],
    "x-fcu-match": [(F, FCU, """        match self.value {
            0..=0xfc => w.write(&[self.value as u8])?,
            0xfd..=0xffff => {
                w.write(&[0xfd])?;
                w.write(&(self.value as u16).to_le_bytes())?;
            }
            0x1_0000..=0xffff_ffff => {
                w.write(&[0xfe])?;
                w.write(&(self.value as u32).to_le_bytes())?;
            }
            _ => {
                w.write(&[0xff])?;
                w.write(&self.value.to_le_bytes())?;
            }
        }
""")],
    "x-fcu-tryfrom": [(F, FCU, """        if self.value < 0xfd {
            return (self.value as u8).try_format(w);
        }
        if let Ok(short) = u16::try_from(self.value) {
            0xfd_u8.try_format(w)?;
            return short.try_format(w);
        }
        if let Ok(int) = u32::try_from(self.value) {
            0xfe_u8.try_format(w)?;
            return int.try_format(w);
        }
        0xff_u8.try_format(w)?;
        self.value.try_format(w)?;
""")],
    "x-tos-vec": [(D, TOS, """        let mut bytes = Vec::new();
        match self {
            Self::P2PKH(hash) => {
                bytes.extend_from_slice(&[OpCode::OpDup as u8, OpCode::OpHash160 as u8, HASH160_SIZE_HEX]);
                bytes.extend_from_slice(hash.as_bytes());
                bytes.extend_from_slice(&[OpCode::OpEqualVerify as u8, OpCode::OpCheckSig as u8]);
            }
            Self::P2SH(hash) => {
                bytes.extend_from_slice(&[OpCode::OpHash160 as u8, HASH160_SIZE_HEX]);
                bytes.extend_from_slice(hash.as_bytes());
                bytes.push(OpCode::OpEqual as u8);
            }
            Self::P2WPKHv0(hash) => {
                bytes.extend_from_slice(&[OpCode::Op0 as u8, HASH160_SIZE_HEX]);
                bytes.extend_from_slice(hash.as_bytes());
            }
            Self::P2WSHv0(hash) => {
                bytes.extend_from_slice(&[OpCode::Op0 as u8, HASH256_SIZE_HEX]);
                bytes.extend_from_slice(hash.as_bytes());
            }
        }
        bytes.into()
    }

""")],
    "x-tos-parts": [(D, TOS, """        fn assemble(prefix: &[u8], hash: &[u8], suffix: &[u8]) -> Script {
            let mut script = Script::new();
            script.append(prefix);
            script.append(hash);
            script.append(suffix);
            script
        }
        match self {
            Self::P2PKH(hash) => assemble(
                &[OpCode::OpDup as u8, OpCode::OpHash160 as u8, HASH160_SIZE_HEX],
                hash.as_bytes(),
                &[OpCode::OpEqualVerify as u8, OpCode::OpCheckSig as u8],
            ),
            Self::P2SH(hash) => assemble(&[OpCode::OpHash160 as u8, HASH160_SIZE_HEX], hash.as_bytes(), &[OpCode::OpEqual as u8]),
            Self::P2WPKHv0(hash) => assemble(&[OpCode::Op0 as u8, HASH160_SIZE_HEX], hash.as_bytes(), &[]),
            Self::P2WSHv0(hash) => assemble(&[OpCode::Op0 as u8, HASH256_SIZE_HEX], hash.as_bytes(), &[]),
        }
    }

""")],
}
