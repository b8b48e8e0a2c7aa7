B = "crates/bitcoin/src/"
F, MA, PW, S, A, U, T = B + "formatter.rs", B + "math.rs", B + "pow.rs", B + "script.rs", B + "address.rs", B + "utils.rs", B + "types.rs"
REFS = {
 "f-reduce": [(F, """        self.length_bound
            .checked_sub(bytes)
            .map(|new_self| self.length_bound = new_self)
            .ok_or(Error::BoundExceeded)""", """        let remaining = self.length_bound.checked_sub(bytes).ok_or(Error::BoundExceeded)?;
        self.length_bound = remaining;
        Ok(())""")],
 "f-reduce2": [(F, """        self.length_bound
            .checked_sub(bytes)
            .map(|new_self| self.length_bound = new_self)
            .ok_or(Error::BoundExceeded)""", """        if bytes > self.length_bound {
            return Err(Error::BoundExceeded);
        }
        self.length_bound -= bytes;
        Ok(())""")],
 "f-write": [(F, """        self.checked_reduce(buf.len() as u32)?;
        self.bytes.extend_from_slice(buf);
        Ok(())""", """        let len = buf.len() as u32;
        match self.checked_reduce(len) {
            Ok(()) => {
                self.bytes.extend_from_slice(buf);
                Ok(())
            }
            Err(e) => Err(e),
        }""")],
 "f-cuint-match": [(F, """        if self.value < 0xfd {
            (self.value as u8).try_format(w)?;
        } else if self.value <= u16::MAX as u64 {
            0xfd_u8.try_format(w)?;
            (self.value as u16).try_format(w)?;
        } else if self.value <= u32::MAX as u64 {
            0xfe_u8.try_format(w)?;
            (self.value as u32).try_format(w)?;
        } else {
            0xff_u8.try_format(w)?;
            self.value.try_format(w)?;
        }
        Ok(())""", """        match self.value {
            n @ 0..=0xfc => (n as u8).try_format(w),
            n @ 0xfd..=0xffff => {
                0xfd_u8.try_format(w)?;
                (n as u16).try_format(w)
            }
            n @ 0x10000..=0xffff_ffff => {
                0xfe_u8.try_format(w)?;
                (n as u32).try_format(w)
            }
            n => {
                0xff_u8.try_format(w)?;
                n.try_format(w)
            }
        }""")],
 "f-vec": [(F, """        CompactUint {
            value: self.len() as u64,
        }
        .try_format(w)?;
        for value in self.iter() {
            value.try_format(w)?;
        }
        Ok(())""", """        CompactUint::from_usize(self.len()).try_format(w)?;
        self.iter().try_for_each(|value| value.try_format(w))""")],
 "f-input": [(F, """        if let TransactionInputSource::Coinbase(Some(height)) = self.source {
            let height_bytes = Script::height(height);
            // account for the height in version 2 blocks
            let script_len = self.script.len().saturating_add(height_bytes.len());

            CompactUint::from_usize(script_len).try_format(w)?;
            height_bytes.as_bytes().try_format(w)?;
        } else {
            CompactUint::from_usize(self.script.len()).try_format(w)?;
        }
""", """        let height_prefix = match self.source {
            TransactionInputSource::Coinbase(Some(height)) => Script::height(height),
            _ => Script::new(),
        };
        let script_len = self.script.len().saturating_add(height_prefix.len());
        CompactUint::from_usize(script_len).try_format(w)?;
        w.write(height_prefix.as_bytes())?;
""")],
 "f-input2": [(F, """        if let TransactionInputSource::Coinbase(Some(height)) = self.source {
            let height_bytes = Script::height(height);
            // account for the height in version 2 blocks
            let script_len = self.script.len().saturating_add(height_bytes.len());

            CompactUint::from_usize(script_len).try_format(w)?;
            height_bytes.as_bytes().try_format(w)?;
        } else {
            CompactUint::from_usize(self.script.len()).try_format(w)?;
        }
""", """        match self.source {
            TransactionInputSource::Coinbase(Some(height)) => {
                let height_bytes = Script::height(height);
                let total = height_bytes.len().saturating_add(self.script.len());
                CompactUint::from_usize(total).try_format(w)?;
                height_bytes.as_bytes().try_format(w)?;
            }
            TransactionInputSource::Coinbase(None) | TransactionInputSource::FromOutput(..) => {
                CompactUint::from_usize(self.script.len()).try_format(w)?;
            }
        }
""")],
 "f-tx": [(F, """        if !self.has_witness() {
            self.inputs.try_format(w)?;
            self.outputs.try_format(w)?;
        } else {
            WITNESS_MARKER.try_format(w)?;
            WITNESS_FLAG.try_format(w)?;
            self.inputs.try_format(w)?;
            self.outputs.try_format(w)?;
            for input in self.inputs.iter() {
                input.witness.try_format(w)?;
            }
        }
""", """        let segwit = self.has_witness();
        if segwit {
            WITNESS_MARKER.try_format(w)?;
            WITNESS_FLAG.try_format(w)?;
        }
        self.inputs.try_format(w)?;
        self.outputs.try_format(w)?;
        if segwit {
            for TransactionInput { witness, .. } in self.inputs.iter() {
                witness.try_format(w)?;
            }
        }
""")],
 "f-proof": [(F, """        let mut bytes: Vec<u8> = vec![0; len];
        for p in 0..self.flag_bits.len() {
            bytes[p.checked_div(8).ok_or(Error::ArithmeticUnderflow)?] |= (self.flag_bits[p] as u8) << (p % 8) as u8;
        }
""", """        let mut bytes: Vec<u8> = vec![0; len];
        for (p, flag) in self.flag_bits.iter().enumerate() {
            bytes[p / 8] |= (*flag as u8) << (p % 8) as u8;
        }
""")],
 "f-proof2": [(F, """        let mut bytes: Vec<u8> = vec![0; len];
        for p in 0..self.flag_bits.len() {
            bytes[p.checked_div(8).ok_or(Error::ArithmeticUnderflow)?] |= (self.flag_bits[p] as u8) << (p % 8) as u8;
        }
""", """        let mut bytes: Vec<u8> = vec![0; len];
        for (p, flag) in self.flag_bits.iter().enumerate() {
            if *flag {
                bytes[p / 8] |= 1 << (p % 8);
            }
        }
""")],
 "f-proof3": [(F, """        let mut bytes: Vec<u8> = vec![0; len];
        for p in 0..self.flag_bits.len() {
            bytes[p.checked_div(8).ok_or(Error::ArithmeticUnderflow)?] |= (self.flag_bits[p] as u8) << (p % 8) as u8;
        }
""", """        let mut bytes: Vec<u8> = Vec::with_capacity(len);
        for chunk in self.flag_bits.chunks(8) {
            let mut byte = 0u8;
            for (i, flag) in chunk.iter().enumerate() {
                byte |= (*flag as u8) << i;
            }
            bytes.push(byte);
        }
""")],
 "ma-get": [(MA, """        if !(compact & !0x007fffff == 0) {
            None
        } else if !(size < 256) {
            None
        } else {
            Some(compact | (size << 24) as u32)
        }""", """        if compact & !0x007fffff != 0 || size >= 256 {
            return None;
        }
        Some(compact | (size << 24) as u32)""")],
 "ma-get2": [(MA, """        let mut compact = if size <= 3 {
            (self.low_u64() << (8 * (3 - size))) as u32
        } else {
            let bn = self >> (8 * (size - 3));
            bn.low_u32()
        };
""", """        let mut compact = if size > 3 {
            (self >> (8 * (size - 3))).low_u32()
        } else {
            let shift = 8 * (3 - size);
            (self.low_u64() << shift) as u32
        };
""")],
 "ma-set": [(MA, """        let value = if size <= 3 {
            word >>= 8 * (3 - size);
            U256::from(word)
        } else {
            let word = U256::from(word);
            word << 8 * (size - 3)
        };
""", """        let value = match size {
            0..=3 => {
                word >>= 8 * (3 - size);
                U256::from(word)
            }
            _ => U256::from(word) << (8 * (size - 3)),
        };
""")],
 "ma-set2": [(MA, """        if word != 0 && (compact & 0x00800000) != 0 {
            // negative
            None
        } else if word != 0 && ((size > 34) || (word > 0xff && size > 33) || (word > 0xffff && size > 32)) {
            // overflow
            None
        } else {
            Some(value)
        }""", """        let negative = word != 0 && (compact & 0x00800000) != 0;
        let overflow = word != 0 && (size > 34 || (size > 33 && word > 0xff) || (size > 32 && word > 0xffff));
        if negative || overflow {
            None
        } else {
            Some(value)
        }""")],
 "pw-clamp": [(PW, """    let mut actual_timespan = last_block_time.saturating_sub(first_block_time);

    if actual_timespan < TARGET_TIMESPAN / TARGET_TIMESPAN_DIVISOR {
        actual_timespan = TARGET_TIMESPAN / TARGET_TIMESPAN_DIVISOR;
    }

    if actual_timespan > TARGET_TIMESPAN * TARGET_TIMESPAN_DIVISOR {
        actual_timespan = TARGET_TIMESPAN * TARGET_TIMESPAN_DIVISOR;
    }

    let target = previous_target * actual_timespan;
    let target = target / TARGET_TIMESPAN;

    // ensure target does not exceed max
    if target > UNROUNDED_MAX_TARGET {
        UNROUNDED_MAX_TARGET
    } else {
        target
    }
    .get_compact()
    .ok_or(Error::InvalidCompact)""", """    let actual_timespan = last_block_time.saturating_sub(first_block_time).clamp(
        TARGET_TIMESPAN / TARGET_TIMESPAN_DIVISOR,
        TARGET_TIMESPAN * TARGET_TIMESPAN_DIVISOR,
    );
    let target = previous_target * actual_timespan / TARGET_TIMESPAN;
    target.min(UNROUNDED_MAX_TARGET).get_compact().ok_or(Error::InvalidCompact)""")],
 "pw-minmax": [(PW, """    let mut actual_timespan = last_block_time.saturating_sub(first_block_time);

    if actual_timespan < TARGET_TIMESPAN / TARGET_TIMESPAN_DIVISOR {
        actual_timespan = TARGET_TIMESPAN / TARGET_TIMESPAN_DIVISOR;
    }

    if actual_timespan > TARGET_TIMESPAN * TARGET_TIMESPAN_DIVISOR {
        actual_timespan = TARGET_TIMESPAN * TARGET_TIMESPAN_DIVISOR;
    }
""", """    let actual_timespan = bounded_timespan(first_block_time, last_block_time);
"""), (PW, "pub fn calculate_next_work_required(", """fn bounded_timespan(start: u64, end: u64) -> u64 {
    let lower = TARGET_TIMESPAN / TARGET_TIMESPAN_DIVISOR;
    let upper = TARGET_TIMESPAN * TARGET_TIMESPAN_DIVISOR;
    end.saturating_sub(start).max(lower).min(upper)
}

pub fn calculate_next_work_required(""")],
 "s-height-while": [(S, """        for i in (1..4).rev() {
            // remove trailing zeroes, but always keep first byte even if it's zero
            if height_bytes[i] == 0 {
                height_bytes.remove(i);
            } else {
                break;
            }
        }
""", """        while height_bytes.len() > 1 && height_bytes.last() == Some(&0) {
            height_bytes.pop();
        }
""")],
 "s-height-push": [(S, """        if let Some(x) = height_bytes.last() {
            if (x & 0x80) != 0 {
                height_bytes.push(0);
            }
        }
""", """        if height_bytes[height_bytes.len() - 1] >= 0x80 {
            height_bytes.push(0);
        }
""")],
 "s-p2wpkh": [(S, """        self.len() == P2WPKH_V0_SCRIPT_SIZE as usize
            && self.bytes[0] == OpCode::Op0 as u8
            && self.bytes[1] == HASH160_SIZE_HEX""", """        if self.len() != P2WPKH_V0_SCRIPT_SIZE as usize {
            return false;
        }
        self.bytes.starts_with(&[OpCode::Op0 as u8, HASH160_SIZE_HEX])""")],
 "s-p2sh-match": [(S, """        self.len() == P2SH_SCRIPT_SIZE as usize
            && self.bytes[0] == OpCode::OpHash160 as u8
            && self.bytes[1] == HASH160_SIZE_HEX
            && self.bytes[22] == OpCode::OpEqual as u8""", """        if self.len() != P2SH_SCRIPT_SIZE as usize {
            return false;
        }
        let bytes = &self.bytes;
        bytes[0] == OpCode::OpHash160 as u8 && bytes[1] == HASH160_SIZE_HEX && bytes[22] == OpCode::OpEqual as u8""")],
 "s-extract": [(S, """        if *output_script.get(0).ok_or(Error::EndOfFile)? != OpCode::OpReturn as u8 {
            return Err(Error::MalformedOpReturnOutput);
        }""", """        let op_code = *output_script.first().ok_or(Error::EndOfFile)?;
        if op_code != OpCode::OpReturn as u8 {
            return Err(Error::MalformedOpReturnOutput);
        }""")],
 "s-extract2": [(S, """        let result = output_script.get(2..).ok_or(Error::EndOfFile)?;

        if result.len() != output_script[1] as usize {
            return Err(Error::MalformedOpReturnOutput);
        }

        Ok(result.to_vec())""", """        let declared_len = *output_script.get(1).ok_or(Error::EndOfFile)? as usize;
        let result = &output_script[2..];
        if result.len() == declared_len {
            Ok(result.to_vec())
        } else {
            Err(Error::MalformedOpReturnOutput)
        }""")],
 "s-opreturn": [(S, """        let mut script = Script::new();
        script.append(OpCode::OpReturn);
        script.append(return_content.len() as u8);
        script.append(return_content);
        script
""", """        let mut bytes = vec![OpCode::OpReturn as u8, return_content.len() as u8];
        bytes.extend_from_slice(return_content);
        Script { bytes }
""")],
 "a-helper": [(A, """            Self::P2WPKHv0(pub_key_hash) => {
                let mut script = Script::new();
                script.append(OpCode::Op0);
                script.append(HASH160_SIZE_HEX);
                script.append(pub_key_hash);
                script
            }
            Self::P2WSHv0(script_hash) => {
                let mut script = Script::new();
                script.append(OpCode::Op0);
                script.append(HASH256_SIZE_HEX);
                script.append(script_hash);
                script
            }
        }
    }
""", """            Self::P2WPKHv0(pub_key_hash) => Self::witness_program(HASH160_SIZE_HEX, pub_key_hash.as_bytes()),
            Self::P2WSHv0(script_hash) => Self::witness_program(HASH256_SIZE_HEX, script_hash.as_bytes()),
        }
    }

    fn witness_program(push_len: u8, program: &[u8]) -> Script {
        let mut script = Script::new();
        script.append(OpCode::Op0);
        script.append(push_len);
        script.append(program);
        script
    }
""")],
 "a-hoist": [(A, """        match self {
            Self::P2PKH(pub_key_hash) => {
                let mut script = Script::new();
                script.append(OpCode::OpDup);""", """        let mut script = Script::new();
        match self {
            Self::P2PKH(pub_key_hash) => {
                script.append(OpCode::OpDup);""")],
 "a-iszero": [(A, """            Self::P2PKH(hash) | Self::P2SH(hash) | Self::P2WPKHv0(hash) => hash.is_zero(),
            Self::P2WSHv0(hash) => hash.is_zero(),""", """            Self::P2PKH(hash) => hash.is_zero(),
            Self::P2SH(hash) => hash.is_zero(),
            Self::P2WPKHv0(hash) => hash.is_zero(),
            Self::P2WSHv0(hash) => *hash == H256::zero(),""")],
 "a-ifs": [(A, """        match bytes {
            &[OP_DUP, OP_HASH_160, HASH160_SIZE_HEX, ref addr @ .., OP_EQUAL_VERIFY, OP_CHECK_SIG]
                if addr.len() == HASH160_SIZE_HEX as usize =>
            {
                Ok(Self::P2PKH(H160::from_slice(addr)))
            }
""", """        if script.is_p2pkh() {
            return Ok(Self::P2PKH(H160::from_slice(&bytes[3..23])));
        }

        match bytes {
""")],
 "u-sha": [(U, """    let mut hasher = Sha256::default();
    hasher.input(bytes);
    let digest = hasher.result();

    let mut second_hasher = Sha256::default();
    second_hasher.input(digest);

    let mut ret = [0; 32];
    ret.copy_from_slice(&second_hasher.result()[..]);
    ret""", """    let digest = Sha256::digest(bytes);
    let second = Sha256::digest(&digest);

    let mut ret = [0; 32];
    ret.copy_from_slice(&second);
    ret""")],
 "u-sha-helper": [(U, """    let mut hasher = Sha256::default();
    hasher.input(bytes);
    let digest = hasher.result();

    let mut second_hasher = Sha256::default();
    second_hasher.input(digest);

    let mut ret = [0; 32];
    ret.copy_from_slice(&second_hasher.result()[..]);
    ret""", """    sha256_once(&sha256_once(bytes))"""), (U, "pub fn hash256_merkle_step(", """fn sha256_once(bytes: &[u8]) -> [u8; 32] {
    let mut hasher = Sha256::default();
    hasher.input(bytes);
    let mut out = [0; 32];
    out.copy_from_slice(&hasher.result()[..]);
    out
}

pub fn hash256_merkle_step(""")],
 "u-merkle": [(U, """    let mut res: Vec<u8> = vec![];
    res.extend(a);
    res.extend(b);
    H256Le::from_bytes_le(&sha256d(&res))""", """    let res = [a, b].concat();
    sha256d_le(&res)""")],
 "u-merkle2": [(U, """    let mut res: Vec<u8> = vec![];
    res.extend(a);
    res.extend(b);
    H256Le::from_bytes_le(&sha256d(&res))""", """    let mut res: Vec<u8> = Vec::with_capacity(a.len() + b.len());
    res.extend_from_slice(a);
    res.extend_from_slice(b);
    sha256d_le(&res)""")],
 "u-rev": [(U, """    let mut vec = Vec::from(bytes);
    vec.reverse();
    vec""", """    bytes.iter().rev().copied().collect()""")],
 "u-log2": [(U, """    let mut current = value - 1;
    let mut result: u32 = 0;
    while current > 0 {
        current >>= 1;
        result += 1;
    }
    result
}

""", """    let mut result: u32 = 0;
    let mut current = value - 1;
    while current != 0 {
        result += 1;
        current /= 2;
    }
    result
}

""")],
 "u-log2-lz": [(U, """    let mut current = value - 1;
    let mut result: u32 = 0;
    while current > 0 {
        current >>= 1;
        result += 1;
    }
    result
}

""", """    let current = value - 1;
    u64::BITS - current.leading_zeros()
}

""")],
 "u-varint-match": [(U, """    if length <= 75 {
        1
    } else if length <= 255 {
        2
    } else if length <= 65535 {
        3
    } else {
        5
    }""", """    match length {
        0..=75 => 1,
        76..=255 => 2,
        256..=65535 => 3,
        _ => 5,
    }""")],
 "u-weight": [(U, """    let output_weight = 4
        * (output.num_p2pkh * P2PKH_OUT_SIZE
            + output.num_p2sh * P2SH_OUT_SIZE
            + output.num_p2wpkh * P2WPKH_OUT_SIZE
            + output.num_op_return * OP_RETURN_OUT_SIZE);
""", """    let output_size = output.num_op_return * OP_RETURN_OUT_SIZE
        + output.num_p2wpkh * P2WPKH_OUT_SIZE
        + output.num_p2sh * P2SH_OUT_SIZE
        + output.num_p2pkh * P2PKH_OUT_SIZE;
    let output_weight = output_size * 4;
""")],
 "u-vsize": [(U, """    let weight = transaction_weight(input, output);
    (weight + 3) / 4""", """    let weight = transaction_weight(input, output);
    weight / 4 + if weight % 4 == 0 { 0 } else { 1 }""")],
}
