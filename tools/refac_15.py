N = "primitives/src/lib.rs"
M = "crates/bitcoin/src/math.rs"
W = "crates/bitcoin/src/pow.rs"
F = "crates/bitcoin/src/formatter.rs"
P = "crates/bitcoin/src/parser.rs"
D = "crates/bitcoin/src/address.rs"
K = "crates/bitcoin/src/merkle.rs"
R = {x: open("/repo/" + x).read() for x in (N, M, W, F, P, D, K)}


def cut(f, a, b):
    x = R[f]
    i = x.index(a)
    return x[i:x.index(b, i)]


SORT = cut(N, "        match *self {\n            CurrencyId::LpToken(x, y) => {", "    pub fn is_lend_token")
JOIN = cut(N, "        let lp_token_0 = match currency_id_0", "    pub fn is_lp_token")
WORK = cut(W, "    let mut actual_timespan =", "// https://github.com/bitcoin/bitcoin/blob/7fcf53f7b4524572d1d0c9a5fdc388e87eb02416/src/test/pow_tests")
GC = cut(M, "        let mut size = (self.bits()", "pub trait SetCompact")
SC = cut(M, "        let size = compact >> 24;", "// https://github.com/bitcoin/bitcoin/blob/7fcf53f7b4524572d1d0c9a5fdc388e87eb02416/src/test/arith")
INF = cut(F, "        let (previous_hash, previous_index) = match self.source", "impl TryFormat for Script {")
TXF = cut(F, "        if !self.has_witness() {", "        self.lock_at.try_format(w)?;\n        Ok(())\n    }\n}\n\n// https")
MPF = cut(F, "        let len = self\n            .flag_bits", "#[cfg(test)]")
RED = cut(F, "        self.length_bound\n            .checked_sub(bytes)", "    pub(crate) fn result")
BP = cut(P, "        let (result, bytes_consumed) = T::parse(&self.raw_bytes, self.position)?;", "    /// This is the same as `parse`")
BPW = cut(P, "        let (result, bytes_consumed) = T::parse_with(&self.raw_bytes, self.position, extra)?;", "    /// Reads `bytes_count`")
BR = cut(P, "        let end = self\n            .position", "/// Allows to parse the given")
PVB = cut(P, "        let mut result: Vec<T> = Vec::new();\n        let slice = raw_bytes.get(position..).ok_or(Error::EndOfFile)?;\n        let mut parser = BytesParser::new(slice);\n        let count: CompactUint = parser.parse()?;\n        for _ in 0..count.value {\n            result.push(parser.parse()?)", "impl<T, U: Copy> ParsableMeta")
PH = cut(P, "    let mut parser = BytesParser::new(bytes);\n    let version: i32 = parser.parse()?;\n    let hash_prev", "/// Returns the value of a compactly")
PU = cut(P, "        if position + 4 > raw_bytes.len() {\n            return Err(Error::EndOfFile);\n        }\n\n        let mut bytes: [u8; 4]", "/// BytesParser is a stateful")
MPP = cut(K, "        let hashes_count: CompactUint = proof_parser.parse()?;", "#[cfg(test)]")
NSK = cut(D, "        let mut hasher = Sha256::default();", "    pub fn new_deposit_public_key(")

REFS = {
    "w-sort-if": [(N, SORT, """        if let CurrencyId::LpToken(ref mut x, ref mut y) = self {
            if *y < *x {
                core::mem::swap(x, y);
            }
        }
    }

""")],
    "w-sort-minmax": [(N, SORT, """        if let CurrencyId::LpToken(x, y) = *self {
            *self = CurrencyId::LpToken(x.min(y), x.max(y));
        }
    }

""")],
    "w-join-fn": [(N, JOIN, """        fn lp_token(currency_id: CurrencyId) -> Option<LpToken> {
            Some(match currency_id {
                CurrencyId::Token(symbol) => LpToken::Token(symbol),
                CurrencyId::ForeignAsset(id) => LpToken::ForeignAsset(id),
                CurrencyId::StableLpToken(id) => LpToken::StableLpToken(id),
                CurrencyId::LendToken(_) | CurrencyId::LpToken(..) => return None,
            })
        }
        lp_token(currency_id_0)
            .and_then(|token_0| lp_token(currency_id_1).map(|token_1| CurrencyId::LpToken(token_0, token_1)))
    }

""")],
    "w-join-zip": [(N, JOIN, """        let lp_token = |currency_id| match currency_id {
            Self::Token(symbol) => Some(LpToken::Token(symbol)),
            Self::ForeignAsset(id) => Some(LpToken::ForeignAsset(id)),
            Self::StableLpToken(id) => Some(LpToken::StableLpToken(id)),
            _ => None,
        };
        match (lp_token(currency_id_0), lp_token(currency_id_1)) {
            (Some(first), Some(second)) => Some(Self::LpToken(first, second)),
            _ => None,
        }
    }

""")],
    "w-work-clamp": [(W, WORK, """    const LOWEST: u64 = TARGET_TIMESPAN / TARGET_TIMESPAN_DIVISOR;
    const HIGHEST: u64 = TARGET_TIMESPAN * TARGET_TIMESPAN_DIVISOR;
    let timespan = last_block_time
        .checked_sub(first_block_time)
        .unwrap_or_default()
        .clamp(LOWEST, HIGHEST);
    let target = (previous_target * timespan / TARGET_TIMESPAN).min(UNROUNDED_MAX_TARGET);
    match target.get_compact() {
        Some(bits) => Ok(bits),
        None => Err(Error::InvalidCompact),
    }
}

""")],
    "w-work-match": [(W, WORK, """    const LOWEST: u64 = TARGET_TIMESPAN / TARGET_TIMESPAN_DIVISOR;
    const HIGHEST: u64 = TARGET_TIMESPAN * TARGET_TIMESPAN_DIVISOR;
    let timespan = match last_block_time.saturating_sub(first_block_time) {
        t if t < LOWEST => LOWEST,
        t if t > HIGHEST => HIGHEST,
        t => t,
    };
    limit(previous_target * timespan / TARGET_TIMESPAN)
        .get_compact()
        .ok_or(Error::InvalidCompact)
}

fn limit(target: U256) -> U256 {
    if target <= UNROUNDED_MAX_TARGET {
        return target;
    }
    UNROUNDED_MAX_TARGET
}

""")],
    "w-gc-match": [(M, GC, """        let bytes = (self.bits() + 7) / 8;
        let mantissa = match bytes {
            0..=3 => (self.low_u64() << (8 * (3 - bytes))) as u32,
            _ => (self >> (8 * (bytes - 3))).low_u32(),
        };
        let (compact, size) = if mantissa & 0x00800000 == 0 {
            (mantissa, bytes)
        } else {
            (mantissa >> 8, bytes + 1)
        };
        if compact & !0x007fffff == 0 && size < 256 {
            Some(compact | (size << 24) as u32)
        } else {
            None
        }
    }
}

""")],
    "w-sc-early": [(M, SC, """        let size = compact >> 24;
        let mantissa = compact & 0x007fffff;
        let is_signed = compact & 0x00800000 != 0;

        if size <= 3 {
            let word = mantissa >> (8 * (3 - size));
            return if word != 0 && is_signed { None } else { Some(U256::from(word)) };
        }
        if mantissa == 0 {
            return Some(U256::zero());
        }
        let overflows = size > 34 || size > 33 && mantissa > 0xff || size > 32 && mantissa > 0xffff;
        if is_signed || overflows {
            return None;
        }
        Some(U256::from(mantissa) << (8 * (size - 3)))
    }
}

""")],
    "w-in-split": [(F, INF, """        match self.source {
            TransactionInputSource::FromOutput(hash, index) => {
                hash.try_format(w)?;
                index.try_format(w)?;
            }
            TransactionInputSource::Coinbase(_) => {
                H256Le::zero().try_format(w)?;
                u32::MAX.try_format(w)?;
            }
        }

        let prefix = match self.source {
            TransactionInputSource::Coinbase(Some(height)) => Some(Script::height(height)),
            _ => None,
        };
        let prefix_len = prefix.as_ref().map_or(0, |prefix| prefix.len());
        CompactUint::from_usize(self.script.len().saturating_add(prefix_len)).try_format(w)?;
        if let Some(prefix) = prefix {
            prefix.as_bytes().try_format(w)?;
        }
        w.write(&self.script)?;
        self.sequence.try_format(w)
    }
}

""")],
    "w-in-match": [(F, INF, """        let (previous_hash, previous_index, height) = match self.source {
            TransactionInputSource::Coinbase(height) => (H256Le::zero(), u32::MAX, height),
            TransactionInputSource::FromOutput(hash, index) => (hash, index, None),
        };
        w.write(&previous_hash.to_bytes_le())?;
        w.write(&previous_index.to_le_bytes())?;
        match height.map(Script::height) {
            Some(height_script) => {
                CompactUint::from_usize(height_script.len().saturating_add(self.script.len())).try_format(w)?;
                w.write(height_script.as_bytes())?;
            }
            None => CompactUint::from_usize(self.script.len()).try_format(w)?,
        }
        self.script.as_slice().try_format(w)?;
        self.sequence.try_format(w)
    }
}

""")],
    "w-tx-flag": [(F, TXF, """        let has_witness = self.has_witness();
        if has_witness {
            w.write(&[WITNESS_MARKER, WITNESS_FLAG])?;
        }
        self.inputs.try_format(w)?;
        self.outputs.try_format(w)?;
        if has_witness {
            self.inputs.iter().try_for_each(|input| input.witness.try_format(w))?;
        }

""")],
    "w-tx-iter": [(F, TXF, """        let witnesses: Vec<&Vec<Vec<u8>>> = match self.has_witness() {
            true => self.inputs.iter().map(|input| &input.witness).collect(),
            false => Vec::new(),
        };
        if self.has_witness() {
            WITNESS_MARKER.try_format(w)?;
            WITNESS_FLAG.try_format(w)?;
        }
        self.inputs.try_format(w)?;
        self.outputs.try_format(w)?;
        for witness in witnesses {
            witness.try_format(w)?;
        }

""")],
    "w-mp-chunks": [(F, MPF, """        let bytes: Vec<u8> = self
            .flag_bits
            .chunks(8)
            .map(|bits| bits.iter().enumerate().fold(0u8, |byte, (i, bit)| byte | (*bit as u8) << i))
            .collect();
        bytes.try_format(w)
    }
}

""")],
    "w-mp-enum": [(F, MPF, """        let mut bytes = vec![0u8; (self.flag_bits.len() + 7) / 8];
        for (p, bit) in self.flag_bits.iter().enumerate() {
            if *bit {
                bytes[p / 8] |= 1 << (p % 8);
            }
        }
        bytes.try_format(w)
    }
}

""")],
    "w-reduce-match": [(F, RED, """        match self.length_bound.checked_sub(bytes) {
            Some(left) => {
                self.length_bound = left;
                Ok(())
            }
            None => Err(Error::BoundExceeded),
        }
    }

""")],
    "w-reduce-cmp": [(F, RED, """        if bytes > self.length_bound {
            return Err(Error::BoundExceeded);
        }
        self.length_bound -= bytes;
        Ok(())
    }

""")],
    "w-bp-advance": [(P, BP, """        let (result, bytes_consumed) = T::parse(&self.raw_bytes, self.position)?;
        self.advance(bytes_consumed).map(|_| result)
    }

    fn advance(&mut self, bytes: usize) -> Result<(), Error> {
        self.position = self.position.checked_add(bytes).ok_or(Error::ArithmeticOverflow)?;
        Ok(())
    }

"""), (P, BPW, """        let (result, bytes_consumed) = T::parse_with(&self.raw_bytes, self.position, extra)?;
        self.advance(bytes_consumed)?;
        Ok(result)
    }

""")],
    "w-bp-replace": [(P, BR, """        let start = self.position;
        let end = start.checked_add(bytes_count).ok_or(Error::ArithmeticOverflow)?;
        match self.raw_bytes.get(start..end) {
            Some(bytes) => {
                self.position = end;
                Ok(bytes.to_vec())
            }
            None => Err(Error::EndOfFile),
        }
    }
}

""")],
    "w-vec-collect": [(P, PVB, """        let slice = raw_bytes.get(position..).ok_or(Error::EndOfFile)?;
        let mut parser = BytesParser::new(slice);
        let CompactUint { value: count } = parser.parse()?;
        let result = (0..count).map(|_| parser.parse::<T>()).collect::<Result<Vec<T>, Error>>()?;
        Ok((result, parser.position))
    }
}

""")],
    "w-vec-while": [(P, PVB, """        let mut parser = BytesParser::new(raw_bytes.get(position..).ok_or(Error::EndOfFile)?);
        let mut remaining = parser.parse::<CompactUint>()?.value;
        let mut result = Vec::new();
        while remaining > 0 {
            result.push(parser.parse()?);
            remaining -= 1;
        }
        Ok((result, parser.position))
    }
}

""")],
    "w-head-struct": [(P, PH, """    let mut parser = BytesParser::new(bytes);
    Ok(BlockHeader {
        version: parser.parse()?,
        hash_prev_block: parser.parse()?,
        merkle_root: parser.parse()?,
        timestamp: parser.parse()?,
        target: parser.parse()?,
        nonce: parser.parse()?,
        hash: sha256d_le(bytes),
    })
}

""")],
    "w-u256-u32": [(P, PU, """        let (bits, bytes_consumed) = u32::parse(raw_bytes, position)?;
        U256::set_compact(bits)
            .map(|target| (target, bytes_consumed))
            .ok_or(Error::InvalidCompact)
    }
}

""")],
    "w-mpp-vec": [(K, MPP, """        let hashes: Vec<H256Le> = proof_parser.parse()?;

        let flag_bytes = proof_parser.parse::<CompactUint>()?.value;
        let mut flag_bits = Vec::new();
        for _ in 0..flag_bytes {
            let bits: Vec<bool> = proof_parser.parse()?;
            flag_bits.extend_from_slice(&bits);
        }

        Ok(MerkleProof {
            block_header,
            flag_bits,
            transactions_count,
            hashes,
        })
    }
}

""")],
    "w-sk-concat": [(D, NSK, """        let preimage = [self.as_bytes(), secure_id.as_bytes()].concat();
        let mut secret_key = [0; 32];
        secret_key.copy_from_slice(&Sha256::digest(&preimage));
        secret_key
    }

""")],
    "w-sk-chain": [(D, NSK, """        let mut hasher = Sha256::new();
        for part in [self.as_bytes(), secure_id.as_bytes()] {
            hasher.input(part);
        }
        let digest = hasher.result();
        let mut secret_key = [0u8; 32];
        secret_key.copy_from_slice(digest.as_slice());
        secret_key
    }

""")],
}
