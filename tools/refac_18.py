"""refactorings of functions that no earlier round touched"""
K = "crates/bitcoin/src/merkle.rs"
P = "crates/bitcoin/src/parser.rs"
S = "crates/bitcoin/src/script.rs"
D = "crates/bitcoin/src/address.rs"
U = "crates/bitcoin/src/utils.rs"
F = "crates/bitcoin/src/formatter.rs"
T = "crates/bitcoin/src/types.rs"
L = "primitives/src/lib.rs"

REFS = {
    "o-writer-loop": [(F, "        self.extend_from_slice(buf);\n        Ok(())", "        self.reserve(buf.len());\n        for byte in buf {\n            self.push(*byte);\n        }\n        Ok(())")],
    "o-bound-inline": [(F, "        self.checked_reduce(buf.len() as u32)?;\n        self.bytes.extend_from_slice(buf);\n        Ok(())",
                        "        let size = buf.len() as u32;\n        match self.length_bound.checked_sub(size) {\n            None => Err(Error::BoundExceeded),\n            Some(rest) => {\n                self.length_bound = rest;\n                self.bytes.extend(buf.iter().copied());\n                Ok(())\n            }\n        }"),
                       (F, """    fn checked_reduce(&mut self, bytes: u32) -> Result<(), Error> {
        self.length_bound
            .checked_sub(bytes)
            .map(|new_self| self.length_bound = new_self)
            .ok_or(Error::BoundExceeded)
    }

""", "")],
    "o-bool-match": [(F, "impl TryFormat for bool {\n    fn try_format<W: Writer>(&self, w: &mut W) -> Result<(), Error> {\n        (*self as u8).try_format(w)", "impl TryFormat for bool {\n    fn try_format<W: Writer>(&self, w: &mut W) -> Result<(), Error> {\n        let byte: u8 = if *self { 1 } else { 0 };\n        byte.try_format(w)")],
    "o-h256-write": [(F, "        w.write(&self.to_bytes_le())\n", "        let bytes = self.to_bytes_le();\n        w.write(&bytes[..])\n")],
    "o-int-bytes": [(F, "                w.write(&self.to_le_bytes())", "                let bytes = self.to_le_bytes();\n                w.write(bytes.as_ref())")],
    "o-in-parse": [(P, "        let slice = raw_bytes.get(position..).ok_or(Error::EndOfFile)?;\n        parse_transaction_input(slice, version)",
                    "        match raw_bytes.get(position..) {\n            Some(rest) => parse_transaction_input(rest, version),\n            None => Err(Error::EndOfFile),\n        }")],
    "o-out-parse": [(P, "        let slice = raw_bytes.get(position..).ok_or(Error::EndOfFile)?;\n        parse_transaction_output(slice)",
                     "        if position > raw_bytes.len() {\n            return Err(Error::EndOfFile);\n        }\n        let (_, rest) = raw_bytes.split_at(position);\n        parse_transaction_output(rest)")],
    "o-bp-advance": [(P, """        let (result, bytes_consumed) = T::parse(&self.raw_bytes, self.position)?;
        self.position = self
            .position
            .checked_add(bytes_consumed)
            .ok_or(Error::ArithmeticOverflow)?;
        Ok(result)
    }
""", """        let (result, bytes_consumed) = T::parse(&self.raw_bytes, self.position)?;
        self.advance(bytes_consumed)?;
        Ok(result)
    }

    fn advance(&mut self, bytes: usize) -> Result<(), Error> {
        let position = self.position.checked_add(bytes).ok_or(Error::ArithmeticOverflow)?;
        self.position = position;
        Ok(())
    }
"""), (P, """        let (result, bytes_consumed) = T::parse_with(&self.raw_bytes, self.position, extra)?;
        self.position = self
            .position
            .checked_add(bytes_consumed)
            .ok_or(Error::ArithmeticOverflow)?;
        Ok(result)
""", """        let (result, bytes_consumed) = T::parse_with(&self.raw_bytes, self.position, extra)?;
        self.advance(bytes_consumed)?;
        Ok(result)
""")],
    "o-bp-read": [(P, """        let bytes = self.raw_bytes.get(self.position..end).ok_or(Error::EndOfFile)?;
        self.position = end;
        Ok(Vec::from(bytes))""", """        if end > self.raw_bytes.len() {
            return Err(Error::EndOfFile);
        }
        let bytes = self.raw_bytes[self.position..end].to_vec();
        self.position += bytes_count;
        Ok(bytes)""")],
    "o-bp-map": [(P, """        let bytes = self.raw_bytes.get(self.position..end).ok_or(Error::EndOfFile)?;
        self.position = end;
        Ok(Vec::from(bytes))""", """        let start = core::mem::replace(&mut self.position, end);
        match self.raw_bytes.get(start..end) {
            Some(bytes) => Ok(bytes.to_vec()),
            None => {
                self.position = start;
                Err(Error::EndOfFile)
            }
        }""")],
    "o-op-return": [(S, """        let mut script = Script::new();
        script.append(OpCode::OpReturn);
        script.append(return_content.len() as u8);
        script.append(return_content);
        script
""", """        let mut bytes = Vec::with_capacity(2 + return_content.len());
        bytes.push(OpCode::OpReturn as u8);
        bytes.push(return_content.len() as u8);
        bytes.extend_from_slice(return_content);
        Script { bytes }
""")],
    "o-extract": [(T, "        Address::from_script_pub_key(&self.script)\n", "        let TransactionOutput { script, .. } = self;\n        Address::from_script_pub_key(script)\n")],
    "o-tx-hash": [(T, "        let mut bytes = vec![];\n        self.try_format(&mut bytes).expect(\"Not bounded\");\n        sha256d_le(&bytes)",
                   "        let mut bytes: Vec<u8> = Vec::with_capacity(256);\n        match self.try_format(&mut bytes) {\n            Ok(()) => sha256d_le(bytes.as_slice()),\n            Err(_) => unreachable!(\"Not bounded\"),\n        }")],
    "o-size": [(T, "        let mut bytes = vec![];\n        self.format_no_witness(&mut bytes).expect(\"Not bounded\");\n        bytes.len()\n",
                "        self.serialize_no_witness().len()\n"),
               (T, "        let mut bytes = vec![];\n        self.format_no_witness(&mut bytes).expect(\"Not bounded\");\n        sha256d_le(&bytes)\n    }\n",
                "        sha256d_le(&self.serialize_no_witness())\n    }\n\n    fn serialize_no_witness(&self) -> Vec<u8> {\n        let mut bytes = vec![];\n        self.format_no_witness(&mut bytes).expect(\"Not bounded\");\n        bytes\n    }\n")],
    "o-nowit-chain": [(T, """        self.version.try_format(w)?;
        self.inputs.try_format(w)?;
        self.outputs.try_format(w)?;
        self.lock_at.try_format(w)?;
        Ok(())
""", """        let Transaction {
            version,
            inputs,
            outputs,
            lock_at,
        } = self;
        version.try_format(w)?;
        inputs.try_format(w)?;
        outputs.try_format(w)?;
        lock_at.try_format(w)
""")],
    "o-builder-new": [(T, "        let mut ret = Self::default();\n        ret.block.header.version = 4;\n        ret\n", "        let mut builder = BlockBuilder { block: Block::default() };\n        builder.with_version(4);\n        builder\n")],
    "o-coinbase": [(T, "        self.block\n            .transactions\n            .insert(0, generate_coinbase_transaction(address, reward, height, None, None));\n        self\n",
                    "        let coinbase = generate_coinbase_transaction(address, reward, height, None, None);\n        let transactions = &mut self.block.transactions;\n        transactions.insert(0, coinbase);\n        self\n")],
    "o-le-mut": [(T, "        let mut content: [u8; 32] = Default::default();\n        content.copy_from_slice(&bytes);\n        H256Le { content }\n    }\n\n    /// Creates a H256Le from big",
                  "        let mut hash = H256Le::zero();\n        hash.content.copy_from_slice(bytes);\n        hash\n    }\n\n    /// Creates a H256Le from big")],
    "o-be-le": [(T, "        let bytes_le = reverse_endianness(bytes);\n        let mut content: [u8; 32] = Default::default();\n        content.copy_from_slice(&bytes_le);\n        H256Le { content }\n",
                 "        H256Le::from_bytes_le(&reverse_endianness(bytes))\n")],
    "o-be-rev": [(T, "        let mut content: [u8; 32] = Default::default();\n        content.copy_from_slice(&reverse_endianness(&self.content[..]));\n        content\n",
                  "        let mut content = self.content;\n        content.reverse();\n        content\n")],
    "o-int-slice": [(T, "                for i in 0..le_bytes.len() {\n                    bytes[i] = le_bytes[i];\n                }\n", "                bytes[..le_bytes.len()].copy_from_slice(&le_bytes);\n")],
    "o-int-zip": [(T, "                for i in 0..le_bytes.len() {\n                    bytes[i] = le_bytes[i];\n                }\n", "                for (to, from) in bytes.iter_mut().zip(le_bytes.iter()) {\n                    *to = *from;\n                }\n")],
    "o-eq-rev": [(T, "        let bytes_le = H256Le::from_bytes_be(self.as_bytes());\n        bytes_le == *other\n", "        self.as_bytes() == &other.to_bytes_be()[..]\n")],
    "o-txb-default": [(T, "                inputs: vec![],\n                outputs: vec![],\n                lock_at: LockTime::BlockHeight(0),\n", "                ..Transaction::default()\n")],
    "o-merkle-inline": [(K, "    pub fn compute_partial_tree_width(&self, height: u32) -> u32 {\n        MerkleTree::compute_width(self.transactions_count, height)",
                         "    pub fn compute_partial_tree_width(&self, height: u32) -> u32 {\n        let count = self.transactions_count;\n        (count + (1 << height) - 1) >> height")],
    "o-root-slice": [(K, "MerkleTree::compute_root(index, height, self.transactions_count, &tx_ids.to_vec())", "MerkleTree::compute_root(index, height, self.transactions_count, tx_ids)")],
    "o-sha-digest": [(U, """    let mut hasher = Sha256::default();
    hasher.input(bytes);
    let digest = hasher.result();

    let mut second_hasher = Sha256::default();
    second_hasher.input(digest);

    let mut ret = [0; 32];
    ret.copy_from_slice(&second_hasher.result()[..]);
    ret
""", """    let once = |data: &[u8]| {
        let mut hasher = Sha256::default();
        hasher.input(data);
        hasher.result()
    };
    let first = once(bytes);
    let second = once(&first[..]);
    let mut ret = [0u8; 32];
    ret.copy_from_slice(&second);
    ret
""")],
    "o-rev-iter": [(U, "    let mut vec = Vec::from(bytes);\n    vec.reverse();\n    vec\n", "    bytes.iter().rev().copied().collect()\n")],
    "o-rev-loop": [(U, "    let mut vec = Vec::from(bytes);\n    vec.reverse();\n    vec\n", "    let mut reversed = Vec::with_capacity(bytes.len());\n    for byte in bytes.iter().rev() {\n        reversed.push(*byte);\n    }\n    reversed\n")],
    "o-hdr-len": [(T, "        let mut result = [0u8; 80];\n        result.copy_from_slice(slice);\n        parse_block_header(&result)\n", "        parse_block_header(slice)\n")],
    "o-empty": [(S, "        self.len() == 0\n", "        self.bytes.is_empty()\n")],
    "o-vid": [(L, "        VaultId::new(account_id, currencies.collateral, currencies.wrapped)\n", "        VaultId::from_pair(account_id, currencies)\n")],
    "o-sc-append": [(S, "        value.try_format(&mut self.bytes).expect(\"Not bounded\");\n", "        let result = value.try_format(&mut self.bytes);\n        result.expect(\"Not bounded\");\n")],
}
