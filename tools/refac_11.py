M = "crates/bitcoin/src/merkle.rs"
P = "crates/bitcoin/src/parser.rs"
W = "crates/bitcoin/src/pow.rs"
A = "crates/bitcoin/src/math.rs"
S = "crates/bitcoin/src/script.rs"
F = "crates/bitcoin/src/formatter.rs"
T = "crates/bitcoin/src/types.rs"
U = "crates/bitcoin/src/utils.rs"
D = "crates/bitcoin/src/address.rs"
PR = "primitives/src/lib.rs"
C = "contracts/btc_swap/lib.rs"
H = "contracts/hello_world/lib.rs"

IS_P2PKH = """        self.len() == P2PKH_SCRIPT_SIZE as usize
            && self.bytes[0] == OpCode::OpDup as u8
            && self.bytes[1] == OpCode::OpHash160 as u8
            && self.bytes[2] == HASH160_SIZE_HEX
            && self.bytes[23] == OpCode::OpEqualVerify as u8
            && self.bytes[24] == OpCode::OpCheckSig as u8
"""
MATCH = open("/repo/" + D).read()
i = MATCH.index("        match bytes {\n            &[OP_DUP")
FROM = MATCH[i:MATCH.index("    pub fn to_script_pub_key")]
i = MATCH.index("        match self {\n            Self::P2PKH(pub_key_hash) => {\n                let mut script")
TO = MATCH[i:MATCH.index("    #[cfg(feature = \"std\")]\n    pub fn random")]
OPR = """        let output_script = &self.bytes;
        if *output_script.get(0).ok_or(Error::EndOfFile)? != OpCode::OpReturn as u8 {
            return Err(Error::MalformedOpReturnOutput);
        }
        // Check for max OP_RETURN size
        // 83 in total, see here: https://github.com/bitcoin/bitcoin/blob/f018d0c9cd7f408dac016b6bfc873670de713d27/src/script/standard.h#L30
        if output_script.len() > MAX_OPRETURN_SIZE {
            return Err(Error::MalformedOpReturnOutput);
        }

        let result = output_script.get(2..).ok_or(Error::EndOfFile)?;

        if result.len() != output_script[1] as usize {
            return Err(Error::MalformedOpReturnOutput);
        }

        Ok(result.to_vec())
"""

REFS = {
    # --- script
    "q-p2pkh-slices": [(S, IS_P2PKH, """        const PREFIX: [u8; 3] = [OpCode::OpDup as u8, OpCode::OpHash160 as u8, HASH160_SIZE_HEX];
        const SUFFIX: [u8; 2] = [OpCode::OpEqualVerify as u8, OpCode::OpCheckSig as u8];
        self.len() == P2PKH_SCRIPT_SIZE as usize && self.bytes[..3] == PREFIX && self.bytes[23..] == SUFFIX
""")],
    "q-p2pkh-starts": [(S, IS_P2PKH, """        self.len() == P2PKH_SCRIPT_SIZE as usize
            && self
                .bytes
                .starts_with(&[OpCode::OpDup as u8, OpCode::OpHash160 as u8, HASH160_SIZE_HEX])
            && self
                .bytes
                .ends_with(&[OpCode::OpEqualVerify as u8, OpCode::OpCheckSig as u8])
""")],
    "q-p2pkh-early": [(S, IS_P2PKH, """        if self.bytes.len() != P2PKH_SCRIPT_SIZE as usize {
            return false;
        }
        let expected = [
            (0, OpCode::OpDup as u8),
            (1, OpCode::OpHash160 as u8),
            (2, HASH160_SIZE_HEX),
            (23, OpCode::OpEqualVerify as u8),
            (24, OpCode::OpCheckSig as u8),
        ];
        expected.iter().all(|&(position, byte)| self.bytes[position] == byte)
""")],
    "q-opr-first": [(S, OPR, """        match self.bytes.first() {
            None => return Err(Error::EndOfFile),
            Some(&op) if op == OpCode::OpReturn as u8 => {}
            Some(_) => return Err(Error::MalformedOpReturnOutput),
        }
        if self.bytes.len() > MAX_OPRETURN_SIZE {
            return Err(Error::MalformedOpReturnOutput);
        }
        if self.bytes.len() < 2 {
            return Err(Error::EndOfFile);
        }
        let (header, payload) = self.bytes.split_at(2);
        if usize::from(header[1]) == payload.len() {
            Ok(Vec::from(payload))
        } else {
            Err(Error::MalformedOpReturnOutput)
        }
""")],
    "q-opr-match": [(S, OPR, """        const OP_RETURN: u8 = OpCode::OpReturn as u8;
        match self.bytes.as_slice() {
            [] => Err(Error::EndOfFile),
            [op, ..] if *op != OP_RETURN => Err(Error::MalformedOpReturnOutput),
            script if script.len() > MAX_OPRETURN_SIZE => Err(Error::MalformedOpReturnOutput),
            [_] => Err(Error::EndOfFile),
            [_, size, data @ ..] if data.len() == *size as usize => Ok(data.to_vec()),
            _ => Err(Error::MalformedOpReturnOutput),
        }
""")],
    "q-opr-iter": [(S, OPR, """        let mut bytes = self.bytes.iter().copied();
        let op = bytes.next().ok_or(Error::EndOfFile)?;
        if op != OpCode::OpReturn as u8 || self.bytes.len() > MAX_OPRETURN_SIZE {
            return Err(Error::MalformedOpReturnOutput);
        }
        let size = bytes.next().ok_or(Error::EndOfFile)?;
        let result: Vec<u8> = bytes.collect();
        if result.len() != size as usize {
            return Err(Error::MalformedOpReturnOutput);
        }
        Ok(result)
""")],
    "q-height-while": [(S, """        for i in (1..4).rev() {
            // remove trailing zeroes, but always keep first byte even if it's zero
            if height_bytes[i] == 0 {
                height_bytes.remove(i);
            } else {
                break;
            }
        }
""", """        while height_bytes.len() > 1 && height_bytes[height_bytes.len() - 1] == 0 {
            height_bytes.pop();
        }
""")],
    "q-height-sign": [(S, """        if let Some(x) = height_bytes.last() {
            if (x & 0x80) != 0 {
                height_bytes.push(0);
            }
        }
""", """        let needs_sign_byte = height_bytes.last().map_or(false, |x| *x >= 0x80);
        if needs_sign_byte {
            height_bytes.push(0);
        }
""")],
    "q-opret-chain": [(S, """        let mut script = Script::new();
        script.append(OpCode::OpReturn);
        script.append(return_content.len() as u8);
        script.append(return_content);
        script
""", """        let mut bytes = Vec::with_capacity(2 + return_content.len());
        bytes.push(OpCode::OpReturn as u8);
        bytes.push(return_content.len() as u8);
        bytes.extend_from_slice(return_content);
        Script { bytes }
""")],
    "q-opret-concat": [(S, """        let mut script = Script::new();
        script.append(OpCode::OpReturn);
        script.append(return_content.len() as u8);
        script.append(return_content);
        script
""", """        Script::from([&[OpCode::OpReturn as u8, return_content.len() as u8][..], return_content].concat())
""")],
    # --- address
    "q-from-kinds": [(D, FROM, """        let parsed = match bytes {
            [OP_DUP, OP_HASH_160, HASH160_SIZE_HEX, hash @ .., OP_EQUAL_VERIFY, OP_CHECK_SIG] if hash.len() == 20 => {
                Some(Self::P2PKH(H160::from_slice(hash)))
            }
            [OP_HASH_160, HASH160_SIZE_HEX, hash @ .., OP_EQUAL] if hash.len() == 20 => {
                Some(Self::P2SH(H160::from_slice(hash)))
            }
            [OP_0, HASH160_SIZE_HEX, hash @ ..] if hash.len() == 20 => Some(Self::P2WPKHv0(H160::from_slice(hash))),
            [OP_0, HASH256_SIZE_HEX, hash @ ..] if hash.len() == 32 => Some(Self::P2WSHv0(H256::from_slice(hash))),
            _ => None,
        };
        parsed.ok_or(Error::InvalidBtcAddress)
    }

""")],
    "q-from-is": [(D, FROM, """        if script.is_p2pkh() {
            return Ok(Self::P2PKH(H160::from_slice(&bytes[3..23])));
        }
        if script.is_p2sh() {
            return Ok(Self::P2SH(H160::from_slice(&bytes[2..22])));
        }
        match bytes {
            &[OP_0, HASH256_SIZE_HEX, ref addr @ ..] if addr.len() == HASH256_SIZE_HEX as usize => {
                Ok(Self::P2WSHv0(H256::from_slice(addr)))
            }
            &[OP_0, HASH160_SIZE_HEX, ref addr @ ..] if addr.len() == HASH160_SIZE_HEX as usize => {
                Ok(Self::P2WPKHv0(H160::from_slice(addr)))
            }
            _ => Err(Error::InvalidBtcAddress),
        }
    }

"""), (D, """        const OP_DUP: u8 = OpCode::OpDup as u8;
        const OP_HASH_160: u8 = OpCode::OpHash160 as u8;
        const OP_EQUAL_VERIFY: u8 = OpCode::OpEqualVerify as u8;
        const OP_CHECK_SIG: u8 = OpCode::OpCheckSig as u8;
        const OP_EQUAL: u8 = OpCode::OpEqual as u8;
""", "")],
    "q-from-len": [(D, FROM, """        match bytes.len() {
            25 if bytes[..3] == [OP_DUP, OP_HASH_160, HASH160_SIZE_HEX]
                && bytes[23..] == [OP_EQUAL_VERIFY, OP_CHECK_SIG] =>
            {
                Ok(Self::P2PKH(H160::from_slice(&bytes[3..23])))
            }
            23 if bytes[..2] == [OP_HASH_160, HASH160_SIZE_HEX] && bytes[22] == OP_EQUAL => {
                Ok(Self::P2SH(H160::from_slice(&bytes[2..22])))
            }
            22 if bytes[0] == OP_0 && bytes[1] == HASH160_SIZE_HEX => {
                Ok(Self::P2WPKHv0(H160::from_slice(&bytes[2..])))
            }
            34 if bytes[0] == OP_0 && bytes[1] == HASH256_SIZE_HEX => {
                Ok(Self::P2WSHv0(H256::from_slice(&bytes[2..])))
            }
            _ => Err(Error::InvalidBtcAddress),
        }
    }

""")],
    "q-to-once": [(D, TO, """        let mut script = Script::new();
        match self {
            Self::P2PKH(hash) => {
                script.append(OpCode::OpDup);
                script.append(OpCode::OpHash160);
                script.append(HASH160_SIZE_HEX);
                script.append(hash);
                script.append(OpCode::OpEqualVerify);
                script.append(OpCode::OpCheckSig);
            }
            Self::P2SH(hash) => {
                script.append(OpCode::OpHash160);
                script.append(HASH160_SIZE_HEX);
                script.append(hash);
                script.append(OpCode::OpEqual);
            }
            Self::P2WPKHv0(hash) => {
                script.append(OpCode::Op0);
                script.append(HASH160_SIZE_HEX);
                script.append(hash);
            }
            Self::P2WSHv0(hash) => {
                script.append(OpCode::Op0);
                script.append(HASH256_SIZE_HEX);
                script.append(hash);
            }
        }
        script
    }

""")],
    "q-to-parts": [(D, TO, """        fn join(prefix: &[u8], hash: &[u8], suffix: &[u8]) -> Script {
            let mut bytes = prefix.to_vec();
            bytes.extend_from_slice(hash);
            bytes.extend_from_slice(suffix);
            Script::from(bytes)
        }

        match self {
            Self::P2PKH(hash) => join(
                &[OpCode::OpDup as u8, OpCode::OpHash160 as u8, HASH160_SIZE_HEX],
                hash.as_bytes(),
                &[OpCode::OpEqualVerify as u8, OpCode::OpCheckSig as u8],
            ),
            Self::P2SH(hash) => join(
                &[OpCode::OpHash160 as u8, HASH160_SIZE_HEX],
                hash.as_bytes(),
                &[OpCode::OpEqual as u8],
            ),
            Self::P2WPKHv0(hash) => join(&[OpCode::Op0 as u8, HASH160_SIZE_HEX], hash.as_bytes(), &[]),
            Self::P2WSHv0(hash) => join(&[OpCode::Op0 as u8, HASH256_SIZE_HEX], hash.as_bytes(), &[]),
        }
    }

""")],
    "q-iszero": [(D, """        match self {
            Self::P2PKH(hash) | Self::P2SH(hash) | Self::P2WPKHv0(hash) => hash.is_zero(),
            Self::P2WSHv0(hash) => hash.is_zero(),
        }
""", """        match *self {
            Self::P2WSHv0(hash) => hash == H256::zero(),
            Self::P2PKH(hash) => hash == H160::zero(),
            Self::P2SH(hash) => hash == H160::zero(),
            Self::P2WPKHv0(hash) => hash == H160::zero(),
        }
""")],
    "q-pk-secret": [(D, """        let mut hasher = Sha256::default();
        // input compressed public key
        hasher.input(&self.0);
        // input secure id
        hasher.input(secure_id.as_bytes());

        let mut bytes = [0; 32];
        bytes.copy_from_slice(&hasher.result()[..]);
        bytes
""", """        let preimage = [self.as_bytes(), secure_id.as_bytes()].concat();
        let mut hasher = Sha256::default();
        hasher.input(&preimage);
        hasher.result().into()
""")],
    "q-pk-chain": [(D, """        let mut bytes = [0; 32];
        bytes.copy_from_slice(&hasher.result()[..]);
        bytes
""", """        let digest = hasher.result();
        let mut bytes = [0u8; 32];
        for (target, source) in bytes.iter_mut().zip(digest.iter()) {
            *target = *source;
        }
        bytes
""")],
    "q-pk-redeem": [(D, """        let mut redeem_script = self.0.to_vec();
        redeem_script.push(OpCode::OpCheckSig as u8);
        redeem_script
""", """        self.0
            .iter()
            .copied()
            .chain(core::iter::once(OpCode::OpCheckSig as u8))
            .collect()
""")],
    "q-pk-map": [(D, """        let mut public_key = Secp256k1PublicKey::from_slice(&self.0)?;
        // D = V * c
        public_key.mul_assign(global::SECP256K1, secret_key)?;
        Ok(Self(public_key.serialize()))
""", """        Secp256k1PublicKey::from_slice(&self.0).and_then(|mut point| {
            point.mul_assign(global::SECP256K1, secret_key)?;
            Ok(Self(point.serialize()))
        })
""")],
    # --- utils
    "q-log2-rec": [(U, """    let mut current = value - 1;
    let mut result: u32 = 0;
    while current > 0 {
        current >>= 1;
        result += 1;
    }
    result
}

/// Returns the (ceiled) log base 256""", """    let mut result: u32 = 0;
    let mut current = value - 1;
    loop {
        if current == 0 {
            break result;
        }
        current /= 2;
        result += 1;
    }
}

/// Returns the (ceiled) log base 256""")],
    "q-log256": [(U, """    let mut current = value - 1;
    let mut result: u8 = 0;
    while current > 0.into() {
        current >>= 8;
        result += 1;
    }
    result
""", """    let mut remaining: U256 = value - 1;
    let mut bytes: u8 = 0;
    while !remaining.is_zero() {
        remaining = remaining >> 8;
        bytes += 1;
    }
    bytes
""")],
    "q-sha-once": [(U, """    let mut hasher = Sha256::default();
    hasher.input(bytes);
    let digest = hasher.result();

    let mut second_hasher = Sha256::default();
    second_hasher.input(digest);

    let mut ret = [0; 32];
    ret.copy_from_slice(&second_hasher.result()[..]);
    ret
""", """    let mut ret = [0; 32];
    ret.copy_from_slice(&Sha256::digest(&Sha256::digest(bytes))[..]);
    ret
""")],
    "q-sha-closure": [(U, """    let mut hasher = Sha256::default();
    hasher.input(bytes);
    let digest = hasher.result();

    let mut second_hasher = Sha256::default();
    second_hasher.input(digest);

    let mut ret = [0; 32];
    ret.copy_from_slice(&second_hasher.result()[..]);
    ret
""", """    let round = |input: &[u8]| {
        let mut hasher = Sha256::new();
        hasher.input(input);
        hasher.result()
    };
    let first = round(bytes);
    let second = round(first.as_slice());
    let mut ret = [0u8; 32];
    ret.copy_from_slice(second.as_slice());
    ret
""")],
    "q-merkle-arr": [(U, """    let mut res: Vec<u8> = vec![];
    res.extend(a);
    res.extend(b);
    H256Le::from_bytes_le(&sha256d(&res))
""", """    let mut preimage = Vec::with_capacity(a.len() + b.len());
    for byte in a.iter().chain(b.iter()) {
        preimage.push(*byte);
    }
    sha256d_le(&preimage)
""")],
    "q-rev": [(U, """    let mut vec = Vec::from(bytes);
    vec.reverse();
    vec
""", """    let mut vec = Vec::with_capacity(bytes.len());
    for byte in bytes.iter().rev() {
        vec.push(*byte);
    }
    vec
""")],
    "q-weight-split": [(U, """    let input_weight = input.count
        * match input.script_type {
            InputType::P2PKH => P2PKH_IN_WEIGHT,
            InputType::P2WPKHv0 => P2WPKH_IN_WEIGHT,
            InputType::P2SH {
                num_signatures,
                num_pubkeys,
            } => {
                let redeem_script_size = 1              // OP_M
                    + num_pubkeys * (1 + PUBKEY_SIZE)   // OP_PUSH33 <pubkey>
                    + 1                                 // OP_N
                    + 1; // OP_CHECKMULTISIG
                let script_sig_size = 1                     // size(0)
                    + num_signatures * (1 + SIGNATURE_SIZE) // size(SIGNATURE_SIZE) + signature
                    + script_length_size(redeem_script_size)
                    + redeem_script_size;
                let input_size = 32 + 4 + var_int_size(script_sig_size) + script_sig_size + 4;

                input_size * 4
            }
        };
""", """    let single_input_weight = match input.script_type {
        InputType::P2PKH => P2PKH_IN_WEIGHT,
        InputType::P2SH {
            num_signatures: m,
            num_pubkeys: n,
        } => 4 * multisig_input_size(m, n),
        InputType::P2WPKHv0 => P2WPKH_IN_WEIGHT,
    };
    let input_weight = single_input_weight * input.count;
"""), (U, """pub const fn virtual_transaction_size(""", """const fn multisig_input_size(num_signatures: u32, num_pubkeys: u32) -> u32 {
    const OUTPOINT_SIZE: u32 = 32 + 4;
    const SEQUENCE_SIZE: u32 = 4;
    let redeem_script_size = 3 + num_pubkeys * (PUBKEY_SIZE + 1);
    let signatures_size = num_signatures * (SIGNATURE_SIZE + 1);
    let script_sig_size = 1 + signatures_size + script_length_size(redeem_script_size) + redeem_script_size;
    OUTPOINT_SIZE + var_int_size(script_sig_size) + script_sig_size + SEQUENCE_SIZE
}

pub const fn virtual_transaction_size(""")],
    "q-header-if": [(U, """    let extra_witness_weight = match input_type {
        InputType::P2PKH | InputType::P2SH { .. } => 0,
        InputType::P2WPKHv0 => var_int_size(input_count) + 2, // sigwit marker, flag & witness element count
    };

    let header_bytes = 4 // nVersion
        + var_int_size(input_count) // number of inputs
        + var_int_size(output_count) // number of outputs
        + 4; // nLockTime

    header_bytes * 4 + extra_witness_weight
""", """    let inputs_size = var_int_size(input_count);
    let base = 4 * (8 + inputs_size + var_int_size(output_count));
    if let InputType::P2WPKHv0 = input_type {
        base + inputs_size + 2
    } else {
        base
    }
""")],
    "q-vsize-div": [(U, """    let weight = transaction_weight(input, output);
    (weight + 3) / 4
""", """    (transaction_weight(input, output) + 3) >> 2
""")],
    "q-lens": [(U, """    if length <= 75 {
        1
    } else if length <= 255 {
        2
    } else if length <= 65535 {
        3
    } else {
        5
    }
""", """    match length {
        0..=75 => 1,
        76..=0xff => 2,
        0x100..=0xffff => 3,
        _ => 5,
    }
"""), (U, """    if length < 253 {
        1
    } else if length <= 65535 {
        3
    } else {
        5
    }
""", """    if length > u16::MAX as u32 {
        5
    } else if length > 0xfc {
        3
    } else {
        1
    }
""")],
    # --- types
    "q-header-hash": [(T, """        let mut bytes = vec![];
        self.try_format(&mut bytes)?;
        Ok(sha256d_le(&bytes))
    }

    pub fn ensure_version""", """        let mut bytes = Vec::with_capacity(80);
        self.try_format(&mut bytes).map(|()| sha256d_le(&bytes))
    }

    pub fn ensure_version""")],
    "q-version": [(T, """            Err(Error::InvalidBlockVersion)
        } else {
            Ok(())
        }
""", """            return Err(Error::InvalidBlockVersion);
        }
        Ok(())
""")],
    "q-version-const": [(T, """        if self.version < 4 {
""", """        const MIN_BLOCK_VERSION: i32 = 4;
        if !(self.version >= MIN_BLOCK_VERSION) {
""")],
    "q-update": [(T, """        let new_hash = self.hash()?;

        self.hash = new_hash;
        Ok(self.hash)
""", """        self.hash().map(|digest| {
            self.hash = digest;
            digest
        })
""")],
    "q-frombytes": [(T, """        let slice = bytes.as_ref();
        if slice.len() != 80 {
            return Err(Error::InvalidHeaderSize);
        }
        let mut result = [0u8; 80];
        result.copy_from_slice(slice);
        parse_block_header(&result)
""", """        use core::convert::TryInto;

        let header: [u8; 80] = bytes.as_ref().try_into().map_err(|_| Error::InvalidHeaderSize)?;
        parse_block_header(&header)
""")],
    "q-frombytes2": [(T, """        let slice = bytes.as_ref();
        if slice.len() != 80 {
            return Err(Error::InvalidHeaderSize);
        }
        let mut result = [0u8; 80];
        result.copy_from_slice(slice);
        parse_block_header(&result)
""", """        match <[u8; 80] as core::convert::TryFrom<&[u8]>>::try_from(bytes.as_ref()) {
            Ok(header) => parse_block_header(&header),
            Err(_) => Err(Error::InvalidHeaderSize),
        }
""")],
    "q-txid-share": [(T, """        let mut bytes = vec![];
        self.format_no_witness(&mut bytes).expect("Not bounded");
        sha256d_le(&bytes)
    }
""", """        sha256d_le(&self.stripped_bytes())
    }

    fn stripped_bytes(&self) -> Vec<u8> {
        let mut bytes = vec![];
        self.format_no_witness(&mut bytes).expect("Not bounded");
        bytes
    }
"""), (T, """        let mut bytes = vec![];
        self.format_no_witness(&mut bytes).expect("Not bounded");
        bytes.len()
""", """        self.stripped_bytes().len()
""")],
    "q-txid-bounded": [(T, """        let mut bytes = BoundedWriter::new(length_bound);
        self.format_no_witness(&mut bytes)?;
        Ok(sha256d_le(&bytes.result()))
""", """        let mut writer = BoundedWriter::new(length_bound);
        match self.format_no_witness(&mut writer) {
            Ok(()) => Ok(sha256d_le(&writer.result())),
            Err(reason) => Err(reason),
        }
""")],
    "q-haswit-loop": [(T, """        self.inputs.iter().any(|v| !v.witness.is_empty())
""", """        for input in &self.inputs {
            if input.witness.len() > 0 {
                return true;
            }
        }
        false
""")],
    "q-haswit-all": [(T, """        self.inputs.iter().any(|v| !v.witness.is_empty())
""", """        !self.inputs.iter().all(|TransactionInput { witness, .. }| witness.is_empty())
""")],
    "q-coinbase-slice": [(T, """        self.inputs.len() == 1
            && matches!(
                self.inputs.get(0),
                Some(&TransactionInput {
                    source: TransactionInputSource::Coinbase(_),
                    ..
                })
            )
""", """        match self.inputs.as_slice() {
            [input] => matches!(input.source, TransactionInputSource::Coinbase(_)),
            _ => false,
        }
""")],
    "q-coinbase-let": [(T, """        self.inputs.len() == 1
            && matches!(
                self.inputs.get(0),
                Some(&TransactionInput {
                    source: TransactionInputSource::Coinbase(_),
                    ..
                })
            )
""", """        if self.inputs.len() != 1 {
            return false;
        }
        match self.inputs[0].source {
            TransactionInputSource::Coinbase(_) => true,
            TransactionInputSource::FromOutput(_, _) => false,
        }
""")],
    "q-mine-loop": [(T, """        while self.block.header.update_hash()?.as_u256() >= target {
            self.block.header.nonce = nonce;
            nonce += 1;
        }
        Ok(self.block.clone())
""", """        loop {
            let hash = self.block.header.update_hash()?;
            if hash.as_u256() < target {
                return Ok(self.block.clone());
            }
            self.block.header.nonce = nonce;
            nonce += 1;
        }
""")],
    "q-mine-assert": [(T, """        if self.block.transactions.is_empty() {
            panic!("trying to mine a block without a coinbase");
        }
        self.block.header.target = target;
        self.block.header.merkle_root = self.compute_merkle_root()?;
""", """        assert!(
            !self.block.transactions.is_empty(),
            "trying to mine a block without a coinbase"
        );
        let merkle_root = self.compute_merkle_root()?;
        self.block.header.merkle_root = merkle_root;
        self.block.header.target = target;
""")],
    "q-root-map": [(T, """        let height = log2(self.block.transactions.len() as u64);
        let mut tx_ids = Vec::with_capacity(self.block.transactions.len());
        for tx in &self.block.transactions {
            tx_ids.push(tx.tx_id());
        }
        MerkleTree::compute_root(0, height, tx_ids.len() as u32, &tx_ids)
""", """        let tx_ids: Vec<H256Le> = self.block.transactions.iter().map(Transaction::tx_id).collect();
        let tx_count = tx_ids.len();
        MerkleTree::compute_root(0, log2(tx_count as u64), tx_count as u32, &tx_ids)
""")],
    "q-coinbase-gen": [(T, """    let mut tx_builder = TransactionBuilder::new();

    let mut input_builder = TransactionInputBuilder::new();
    input_builder
        .with_source(TransactionInputSource::Coinbase(Some(height)))
        .add_witness(&[0; 32])
        .with_sequence(u32::MAX);
    if let Some(script) = input_script {
        input_builder.with_script(&script);
    }
    tx_builder.add_input(input_builder.build());

    // FIXME: this is most likely not what real-world transactions look like
    tx_builder.add_output(TransactionOutput::payment(reward, address));

    if let Some(commitment) = witness_commitment {
        // https://github.com/bitcoin/bips/blob/master/bip-0141.mediawiki#commitment-structure
        tx_builder.add_output(TransactionOutput::op_return(0, &commitment));
    }

    tx_builder.build()
""", """    let input = TransactionInput {
        source: TransactionInputSource::Coinbase(Some(height)),
        script: input_script.unwrap_or_default(),
        sequence: u32::MAX,
        witness: vec![vec![0; 32]],
    };
    let mut outputs = vec![TransactionOutput::payment(reward, address)];
    outputs.extend(
        witness_commitment
            .iter()
            .map(|commitment| TransactionOutput::op_return(0, commitment)),
    );
    Transaction {
        version: 2,
        inputs: vec![input],
        outputs,
        lock_at: LockTime::BlockHeight(0),
    }
""")],
    "q-h256-cmp": [(T, "        self.content == [0; 32]\n", "        self.content.iter().all(|byte| *byte == 0)\n")],
    "q-h256-be": [(T, """        let bytes_le = reverse_endianness(bytes);
        let mut content: [u8; 32] = Default::default();
        content.copy_from_slice(&bytes_le);
        H256Le { content }
""", """        Self::from_bytes_le(&reverse_endianness(bytes))
""")],
    "q-h256-be2": [(T, """        let bytes_le = reverse_endianness(bytes);
        let mut content: [u8; 32] = Default::default();
        content.copy_from_slice(&bytes_le);
        H256Le { content }
""", """        let mut content = [0u8; 32];
        content.copy_from_slice(bytes);
        content.reverse();
        H256Le { content }
""")],
    "q-h256-tobe": [(T, """        let mut content: [u8; 32] = Default::default();
        content.copy_from_slice(&reverse_endianness(&self.content[..]));
        content
""", """        let mut content = self.content;
        content.reverse();
        content
""")],
    "q-h256-u256": [(T, "        U256::from_little_endian(&self.to_bytes_le())\n", "        U256::from_big_endian(&self.to_bytes_be())\n")],
    "q-h256-eq": [(T, "        *other == *self\n", "        other.eq(self)\n")],
    # --- pow / math
    "q-proof-builder": [(T, """        let mut tx_ids = Vec::with_capacity(self.transactions.len());
        for tx in self.transactions.iter() {
            tx_ids.push(tx.tx_id());
        }

        let matches: Vec<bool> = self
            .transactions
            .iter()
            .map(|tx| include.contains(&tx.tx_id()))
            .collect();
""", """        let tx_ids: Vec<H256Le> = self.transactions.iter().map(|tx| tx.tx_id()).collect();
        let matches: Vec<bool> = tx_ids.iter().map(|tx_id| include.contains(tx_id)).collect();
""")],
    # --- primitives
    "q-sort-min": [(PR, """        match *self {
            CurrencyId::LpToken(x, y) => {
                if x > y {
                    *self = CurrencyId::LpToken(y, x)
                }
            }
            _ => {}
        }
""", """        if let CurrencyId::LpToken(x, y) = self {
            if *y < *x {
                core::mem::swap(x, y);
            }
        }
""")],
    "q-sort-tuple": [(PR, """        match *self {
            CurrencyId::LpToken(x, y) => {
                if x > y {
                    *self = CurrencyId::LpToken(y, x)
                }
            }
            _ => {}
        }
""", """        *self = match *self {
            CurrencyId::LpToken(x, y) => {
                let (low, high) = if x <= y { (x, y) } else { (y, x) };
                CurrencyId::LpToken(low, high)
            }
            other => other,
        };
""")],
    "q-join-q": [(PR, """        let lp_token_0 = match currency_id_0 {
            CurrencyId::Token(symbol) => LpToken::Token(symbol),
            CurrencyId::ForeignAsset(foreign_asset_id) => LpToken::ForeignAsset(foreign_asset_id),
            CurrencyId::StableLpToken(stable_pool_id) => LpToken::StableLpToken(stable_pool_id),
            _ => return None,
        };
        let lp_token_1 = match currency_id_1 {
            CurrencyId::Token(symbol) => LpToken::Token(symbol),
            CurrencyId::ForeignAsset(foreign_asset_id) => LpToken::ForeignAsset(foreign_asset_id),
            CurrencyId::StableLpToken(stable_pool_id) => LpToken::StableLpToken(stable_pool_id),
            _ => return None,
        };
        Some(CurrencyId::LpToken(lp_token_0, lp_token_1))
""", """        currency_id_0
            .as_lp_token()
            .and_then(|first| currency_id_1.as_lp_token().map(|second| (first, second)))
            .map(|(first, second)| CurrencyId::LpToken(first, second))
    }

    fn as_lp_token(self) -> Option<LpToken> {
        Some(match self {
            CurrencyId::Token(symbol) => LpToken::Token(symbol),
            CurrencyId::ForeignAsset(id) => LpToken::ForeignAsset(id),
            CurrencyId::StableLpToken(id) => LpToken::StableLpToken(id),
            CurrencyId::LendToken(_) | CurrencyId::LpToken(_, _) => return None,
        })
""")],
    "q-islp": [(PR, """        match self {
            Self::Token(_) | Self::ForeignAsset(_) | Self::StableLpToken(_) => true,
            _ => false,
        }
""", """        !matches!(self, Self::LendToken(_) | Self::LpToken(..))
""")],
    "q-trunc-op": [(PR, "self.into_inner().checked_div(UnsignedFixedPoint::accuracy())", "{\n                let accuracy = <UnsignedFixedPoint as FixedPointNumber>::DIV;\n                self.into_inner().checked_div(accuracy)\n            }")],
    "q-fixed-match": [(PR, """            SignedFixedPoint::checked_from_integer(
                TryInto::<<SignedFixedPoint as FixedPointNumber>::Inner>::try_into(self).ok()?,
            )
""", """            match SignedInner::try_from(self) {
                Ok(inner) => SignedFixedPoint::checked_from_integer(inner),
                Err(_) => None,
            }
""")],
    "q-vault-pair": [(PR, """        VaultId::new(account_id, currencies.collateral, currencies.wrapped)
""", """        Self::from_pair(account_id, currencies)
""")],
    "q-one": [(PR, "10u128.pow(self.decimals() as u32)", "{\n                let digits = self.decimals() as u32;\n                10u128.pow(digits)\n                }")],
    # --- contracts
    "q-exe-guard": [(C, """            let transferred_sats = self
                .env()
                .extension()
                .get_and_verify_bitcoin_payment(full_proof, order.btc_address)
                .unwrap()
                .unwrap_or(0);

            assert!(transferred_sats >= order.min_satoshis);

            // an order pays out only once
            self.orders.remove(&counterparty);

            self.env().transfer(caller, order.plancks).unwrap();
""", """            let LimitOrder {
                btc_address,
                min_satoshis,
                plancks,
            } = order;

            let payment = self.env().extension().get_and_verify_bitcoin_payment(full_proof, btc_address);
            let sufficient = match payment.unwrap() {
                Some(satoshis) => satoshis >= min_satoshis,
                None => min_satoshis == 0,
            };
            if !sufficient {
                panic!("payment too low");
            }

            self.orders.remove(counterparty);
            if self.env().transfer(caller, plancks).is_err() {
                panic!("transfer failed");
            }
""")],
    "q-exe-order": [(C, """            let caller = self.env().caller();
            let order = self.orders.get(&counterparty).unwrap();

            let transferred_sats""", """            let order = match self.orders.get(&counterparty) {
                Some(order) => order,
                None => panic!("no such order"),
            };

            let transferred_sats"""), (C, """            self.env().transfer(caller, order.plancks).unwrap();
        }
    }
}""", """            let recipient = self.env().caller();
            self.pay(recipient, order.plancks);
        }

        fn pay(&mut self, recipient: AccountId, plancks: u128) {
            self.env().transfer(recipient, plancks).unwrap();
        }
    }
}""")],
    "q-cre-take": [(C, """            let replaced = self.orders.get(caller);
            self.orders.insert(caller, &order);

            // return what the replaced order had locked
            if let Some(replaced) = replaced {
                self.env().transfer(caller, replaced.plancks).unwrap();
            }
""", """            let refund = self.orders.get(caller).map(|previous| previous.plancks);
            self.orders.insert(caller, &order);
            match refund {
                Some(plancks) => self.env().transfer(caller, plancks).unwrap(),
                None => {}
            }
""")],
    "q-cre-ne": [(C, "            assert!(min_satoshis > 0);\n", "            assert_ne!(min_satoshis, 0, \"a price is required\");\n")],
    "q-status": [(C, """        match status_code {
            0 => Ok(()),
            1 => Err(Self::SomeFailure),
            _ => panic!("encountered unknown status code"),
        }
""", """        if status_code == 0 {
            return Ok(());
        }
        assert_eq!(status_code, 1, "encountered unknown status code");
        Err(RuntimeErr::SomeFailure)
""")],
    "q-flip": [(H, "            self.value = !self.value;\n", "            let flipped = !self.get();\n            self.value = flipped;\n")],
    "q-flip2": [(H, "            self.value = !self.value;\n", "            self.value ^= true;\n")],
    "q-flip3": [(H, "            self.value = !self.value;\n", "            if self.value {\n                self.value = false;\n            } else {\n                self.value = true;\n            }\n")],
}
