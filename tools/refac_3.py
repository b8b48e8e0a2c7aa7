B = "crates/bitcoin/src/"
F, MA, PW, S, A, U, T = B + "formatter.rs", B + "math.rs", B + "pow.rs", B + "script.rs", B + "address.rs", B + "utils.rs", B + "types.rs"
REFS = {
 "t-version": [(T, """        if self.version < 4 {""", """        const MIN_VERSION: i32 = 4;
        if !(self.version >= MIN_VERSION) {""")],
 "t-from-bytes": [(T, """        let slice = bytes.as_ref();
        if slice.len() != 80 {
            return Err(Error::InvalidHeaderSize);
        }
        let mut result = [0u8; 80];
        result.copy_from_slice(slice);
        parse_block_header(&result)""", """        let slice = bytes.as_ref();
        match slice.len() {
            80 => parse_block_header(slice),
            _ => Err(Error::InvalidHeaderSize),
        }""")],
 "t-txid-helper": [(T, """        let mut bytes = vec![];
        self.format_no_witness(&mut bytes).expect("Not bounded");
        sha256d_le(&bytes)""", """        sha256d_le(&self.bytes_no_witness())"""), (T, """        let mut bytes = vec![];
        self.format_no_witness(&mut bytes).expect("Not bounded");
        bytes.len()
    }
""", """        self.bytes_no_witness().len()
    }

    fn bytes_no_witness(&self) -> Vec<u8> {
        let mut bytes = vec![];
        self.format_no_witness(&mut bytes).expect("Not bounded");
        bytes
    }
""")],
 "t-haswit": [(T, "        self.inputs.iter().any(|v| !v.witness.is_empty())", "        !self.inputs.iter().all(|v| v.witness.is_empty())")],
 "t-haswit-loop": [(T, "        self.inputs.iter().any(|v| !v.witness.is_empty())", """        for input in &self.inputs {
            if !input.witness.is_empty() {
                return true;
            }
        }
        false""")],
 "t-haswit-count": [(T, "        self.inputs.iter().any(|v| !v.witness.is_empty())", "        self.inputs.iter().filter(|v| v.witness.len() > 0).count() > 0")],
 "t-coinbase": [(T, """        self.inputs.len() == 1
            && matches!(
                self.inputs.get(0),
                Some(&TransactionInput {
                    source: TransactionInputSource::Coinbase(_),
                    ..
                })
            )""", """        match self.inputs.as_slice() {
            [input] => matches!(input.source, TransactionInputSource::Coinbase(_)),
            _ => false,
        }""")],
 "t-coinbase2": [(T, """        self.inputs.len() == 1
            && matches!(
                self.inputs.get(0),
                Some(&TransactionInput {
                    source: TransactionInputSource::Coinbase(_),
                    ..
                })
            )""", """        if self.inputs.len() != 1 {
            return false;
        }
        let input = &self.inputs[0];
        if let TransactionInputSource::Coinbase(_) = input.source {
            true
        } else {
            false
        }""")],
 "t-coinbase3": [(T, """        self.inputs.len() == 1
            && matches!(
                self.inputs.get(0),
                Some(&TransactionInput {
                    source: TransactionInputSource::Coinbase(_),
                    ..
                })
            )""", """        self.inputs.len() == 1
            && self
                .inputs
                .first()
                .map(|input| matches!(input.source, TransactionInputSource::Coinbase(..)))
                .unwrap_or(false)""")],
 "t-merkle-proof": [(T, """        let mut tx_ids = Vec::with_capacity(self.transactions.len());
        for tx in self.transactions.iter() {
            tx_ids.push(tx.tx_id());
        }

        let matches: Vec<bool> = self
            .transactions
            .iter()
            .map(|tx| include.contains(&tx.tx_id()))
            .collect();
""", """        let tx_ids: Vec<H256Le> = self.transactions.iter().map(|tx| tx.tx_id()).collect();
        let matches: Vec<bool> = tx_ids.iter().map(|id| include.contains(id)).collect();
""")],
 "t-merkle-proof2": [(T, """        let matches: Vec<bool> = self
            .transactions
            .iter()
            .map(|tx| include.contains(&tx.tx_id()))
            .collect();
""", """        let matches: Vec<bool> = self
            .transactions
            .iter()
            .map(|tx| {
                let id = tx.tx_id();
                include.iter().any(|wanted| *wanted == id)
            })
            .collect();
""")],
 "t-mine": [(T, """        while self.block.header.update_hash()?.as_u256() >= target {
            self.block.header.nonce = nonce;
            nonce += 1;
        }
        Ok(self.block.clone())""", """        loop {
            let hash = self.block.header.update_hash()?;
            if hash.as_u256() < target {
                return Ok(self.block.clone());
            }
            self.block.header.nonce = nonce;
            nonce += 1;
        }""")],
 "t-root": [(T, """        let mut tx_ids = Vec::with_capacity(self.block.transactions.len());
        for tx in &self.block.transactions {
            tx_ids.push(tx.tx_id());
        }
        MerkleTree""", """        let tx_ids = self.block.transactions.iter().map(Transaction::tx_id).collect::<Vec<_>>();
        MerkleTree""")],
 "t-gen-coinbase": [(T, """    input_builder
        .with_source(TransactionInputSource::Coinbase(Some(height)))
        .add_witness(&[0; 32])
        .with_sequence(u32::MAX);
    if let Some(script) = input_script {
        input_builder.with_script(&script);
    }
    tx_builder.add_input(input_builder.build());

    // FIXME: this is most likely not what real-world transactions look like
    tx_builder.add_output(TransactionOutput::payment(reward, address));
""", """    input_builder.with_sequence(u32::MAX);
    input_builder.with_source(TransactionInputSource::Coinbase(Some(height)));
    input_builder.add_witness(&[0; 32]);
    match input_script {
        Some(script) => {
            input_builder.with_script(&script);
        }
        None => (),
    }

    // FIXME: this is most likely not what real-world transactions look like
    tx_builder
        .add_output(TransactionOutput::payment(reward, address))
        .add_input(input_builder.build());
""")],
 "t-h256-be": [(T, """        let bytes_le = reverse_endianness(bytes);
        let mut content: [u8; 32] = Default::default();
        content.copy_from_slice(&bytes_le);
        H256Le { content }
    }
""", """        H256Le::from_bytes_le(&reverse_endianness(bytes))
    }
""")],
 "t-h256-be2": [(T, """        let bytes_le = reverse_endianness(bytes);
        let mut content: [u8; 32] = Default::default();
        content.copy_from_slice(&bytes_le);
        H256Le { content }
    }
""", """        let mut content = [0u8; 32];
        content.copy_from_slice(bytes);
        content.reverse();
        H256Le { content }
    }
""")],
 "t-h256-tobe": [(T, """        let mut content: [u8; 32] = Default::default();
        content.copy_from_slice(&reverse_endianness(&self.content[..]));
        content
""", """        let mut content = self.content;
        content.reverse();
        content
""")],
 "t-h256-int": [(T, """                for i in 0..le_bytes.len() {
                    bytes[i] = le_bytes[i];
                }
""", """                bytes[..le_bytes.len()].copy_from_slice(&le_bytes);
""")],
 "t-h256-iszero": [(T, "        self.content == [0; 32]", "        self.content.iter().all(|b| *b == 0)")],
 "t-h256-eq": [(T, """        let bytes_le = H256Le::from_bytes_be(self.as_bytes());
        bytes_le == *other""", """        self.as_bytes() == &other.to_bytes_be()[..]""")],
 "t-builder-chain": [(T, """        let mut ret = Self::default();
        ret.block.header.version = 4;
        ret
""", """        let mut builder = BlockBuilder::default();
        builder.with_version(4);
        builder
""")],
 "a-secret": [(A, """        let mut hasher = Sha256::default();
        // input compressed public key
        hasher.input(&self.0);
        // input secure id
        hasher.input(secure_id.as_bytes());
""", """        let mut preimage = self.0.to_vec();
        preimage.extend_from_slice(secure_id.as_bytes());
        let mut hasher = Sha256::default();
        hasher.input(&preimage);
""")],
 "a-redeem": [(A, """        let mut redeem_script = self.0.to_vec();
        redeem_script.push(OpCode::OpCheckSig as u8);
        redeem_script
""", """        let mut redeem_script = Vec::with_capacity(self.0.len() + 1);
        redeem_script.extend_from_slice(&self.0);
        redeem_script.push(OpCode::OpCheckSig as u8);
        redeem_script
""")],
 "a-scriptsig": [(A, """        let mut script = Script::new();
        script.append(OpCode::Op0);
        script.append(&sig);
        script.append(self.to_redeem_script());
        script
""", """        let redeem_script = self.to_redeem_script();
        let mut script = Script::default();
        script.append(OpCode::Op0);
        script.append(sig);
        script.append(redeem_script);
        script
""")],
 "a-deposit": [(A, "        self.new_deposit_public_key_with_secret(&self.new_secret_key(secure_id))", "        let secret = self.new_secret_key(secure_id);\n        self.new_deposit_public_key_with_secret(&secret)")],
}
