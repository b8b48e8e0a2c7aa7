T = "crates/bitcoin/src/types.rs"
U = "crates/bitcoin/src/utils.rs"
S = "crates/bitcoin/src/script.rs"
D = "crates/bitcoin/src/address.rs"
M = "crates/bitcoin/src/math.rs"
W = "crates/bitcoin/src/pow.rs"
F = "crates/bitcoin/src/formatter.rs"
K = "contracts/btc_swap/lib.rs"
R = {x: open("/repo/" + x).read() for x in (T, U, S, D, M, W, F, K)}


def cut(f, a, b):
    x = R[f]
    i = x.index(a)
    return x[i:x.index(b, i)]


FS = cut(D, "        let bytes = script.as_bytes();\n\n        if bytes.len() > MAX", "    pub fn to_script_pub_key")
TX = cut(K, "            let transferred_sats = self", "            // an order pays out only once")
CT = cut(K, "            let replaced = self.orders.get(caller);", "        #[ink(message)]\n        pub fn execute_trade")
MP = cut(T, "        let mut proof = MerkleProof {\n            block_header: self.header", "/// Generates a new block")
CB = cut(T, "        self.inputs.len() == 1\n", "// https://en.bitcoin.it/wiki/NLockTime")
PKH = cut(S, "        self.len() == P2PKH_SCRIPT_SIZE", "    pub fn is_p2sh")
SH = cut(S, "        self.len() == P2SH_SCRIPT_SIZE", "    pub fn append")
SHA = cut(U, "    let mut hasher = Sha256::default();", "pub fn hash256_merkle_step")
HI = cut(T, "                let mut bytes: [u8; 32] = Default::default();\n                let le_bytes", "            }\n        }\n    };\n}\n\nimpl_h256le")

REFS = {
    "z-from-if": [(D, FS, """        let bytes = script.as_bytes();
        let short_hash = HASH160_SIZE_HEX as usize;
        let long_hash = HASH256_SIZE_HEX as usize;

        match bytes.len() {
            25 if bytes.starts_with(&[OP_DUP, OP_HASH_160, HASH160_SIZE_HEX]) && bytes.ends_with(&[OP_EQUAL_VERIFY, OP_CHECK_SIG]) => {
                Ok(Self::P2PKH(H160::from_slice(&bytes[3..3 + short_hash])))
            }
            23 if bytes.starts_with(&[OP_HASH_160, HASH160_SIZE_HEX]) && bytes.ends_with(&[OP_EQUAL]) => {
                Ok(Self::P2SH(H160::from_slice(&bytes[2..2 + short_hash])))
            }
            MAX_ADDRESS_BYTES if bytes.starts_with(&[OP_0, HASH256_SIZE_HEX]) => {
                Ok(Self::P2WSHv0(H256::from_slice(&bytes[2..2 + long_hash])))
            }
            22 if bytes.starts_with(&[OP_0, HASH160_SIZE_HEX]) => {
                Ok(Self::P2WPKHv0(H160::from_slice(&bytes[2..])))
            }
            _ => Err(Error::InvalidBtcAddress),
        }
    }

""")],
    "z-from-is": [(D, FS, """        let bytes = script.as_bytes();
        if script.is_p2pkh() {
            Ok(Self::P2PKH(H160::from_slice(&bytes[3..23])))
        } else if script.is_p2sh() {
            Ok(Self::P2SH(H160::from_slice(&bytes[2..22])))
        } else if script.is_p2wpkh_v0() {
            Ok(Self::P2WPKHv0(H160::from_slice(&bytes[2..22])))
        } else if script.is_p2wsh_v0() {
            Ok(Self::P2WSHv0(H256::from_slice(&bytes[2..34])))
        } else {
            Err(Error::InvalidBtcAddress)
        }
    }

"""), (D, """        const OP_DUP: u8 = OpCode::OpDup as u8;
        const OP_HASH_160: u8 = OpCode::OpHash160 as u8;
        const OP_EQUAL_VERIFY: u8 = OpCode::OpEqualVerify as u8;
        const OP_CHECK_SIG: u8 = OpCode::OpCheckSig as u8;
        const OP_EQUAL: u8 = OpCode::OpEqual as u8;
        const OP_0: u8 = OpCode::Op0 as u8;
        const MAX_ADDRESS_BYTES: usize = HASH256_SIZE_HEX as usize + 2; // max length is for P2WSHv0; see the match below

""", "")],
    "z-from-strip": [(D, FS, """        let bytes = script.as_bytes();

        if bytes.len() > MAX_ADDRESS_BYTES {
            return Err(Error::InvalidBtcAddress);
        }

        fn between<'a>(bytes: &'a [u8], prefix: &[u8], suffix: &[u8], size: u8) -> Option<&'a [u8]> {
            bytes
                .strip_prefix(prefix)
                .and_then(|rest| rest.strip_suffix(suffix))
                .filter(|hash| hash.len() == size as usize)
        }

        if let Some(hash) = between(bytes, &[OP_DUP, OP_HASH_160, HASH160_SIZE_HEX], &[OP_EQUAL_VERIFY, OP_CHECK_SIG], HASH160_SIZE_HEX) {
            return Ok(Self::P2PKH(H160::from_slice(hash)));
        }
        if let Some(hash) = between(bytes, &[OP_HASH_160, HASH160_SIZE_HEX], &[OP_EQUAL], HASH160_SIZE_HEX) {
            return Ok(Self::P2SH(H160::from_slice(hash)));
        }
        if let Some(hash) = between(bytes, &[OP_0, HASH256_SIZE_HEX], &[], HASH256_SIZE_HEX) {
            return Ok(Self::P2WSHv0(H256::from_slice(hash)));
        }
        if let Some(hash) = between(bytes, &[OP_0, HASH160_SIZE_HEX], &[], HASH160_SIZE_HEX) {
            return Ok(Self::P2WPKHv0(H160::from_slice(hash)));
        }
        Err(Error::InvalidBtcAddress)
    }

""")],
    "z-swap-match": [(K, TX, """            let verified = self
                .env()
                .extension()
                .get_and_verify_bitcoin_payment(full_proof, order.btc_address)
                .unwrap();
            let transferred_sats = match verified {
                Some(sats) => sats,
                None => 0,
            };
            if transferred_sats < order.min_satoshis {
                panic!("insufficient payment");
            }

""")],
    "z-swap-map": [(K, TX, """            let paid_enough = self
                .env()
                .extension()
                .get_and_verify_bitcoin_payment(full_proof, order.btc_address)
                .unwrap()
                .map_or(false, |sats| sats >= order.min_satoshis);
            assert!(paid_enough);

""")],
    "z-swap-insert": [(K, CT, """            let refund = self.orders.get(caller).map(|replaced| replaced.plancks);
            self.orders.insert(caller, &order);
            if let Some(plancks) = refund {
                self.env().transfer(caller, plancks).unwrap();
            }
        }

""")],
    "z-swap-fn": [(K, CT, """            let replaced = self.orders.get(caller);
            self.orders.insert(caller, &order);
            match replaced {
                Some(LimitOrder { plancks, .. }) => self.pay(caller, plancks),
                None => {}
            }
        }

        fn pay(&self, to: AccountId, plancks: u128) {
            self.env().transfer(to, plancks).expect("transfer failed");
        }

""")],
    "z-proof-ids": [(T, MP, """        let tx_ids: Vec<H256Le> = self.transactions.iter().map(|tx| tx.tx_id()).collect();
        let matches: Vec<bool> = tx_ids.iter().map(|tx_id| include.contains(tx_id)).collect();

        let mut proof = MerkleProof {
            block_header: self.header,
            transactions_count: tx_ids.len() as u32,
            flag_bits: vec![],
            hashes: vec![],
        };
        let height = proof.compute_partial_tree_height() as u32;
        proof.traverse_and_build(height, 0, &tx_ids, &matches)?;
        Ok(proof)
    }
}

""")],
    "z-proof-loop": [(T, MP, """        let mut tx_ids = Vec::with_capacity(self.transactions.len());
        let mut matches = Vec::with_capacity(self.transactions.len());
        for tx in &self.transactions {
            let tx_id = tx.tx_id();
            matches.push(include.iter().any(|included| *included == tx_id));
            tx_ids.push(tx_id);
        }

        let mut proof = MerkleProof {
            block_header: self.header,
            transactions_count: self.transactions.len() as u32,
            flag_bits: Vec::with_capacity(include.len()),
            hashes: vec![],
        };
        let height = proof.compute_partial_tree_height();
        proof.traverse_and_build(height as u32, 0, &tx_ids, &matches).map(|_| proof)
    }
}

""")],
    "z-cb-slice": [(T, CB, """        match self.inputs.as_slice() {
            [input] => matches!(input.source, TransactionInputSource::Coinbase(_)),
            _ => false,
        }
    }
}

""")],
    "z-cb-all": [(T, CB, """        self.inputs.len() == 1
            && self.inputs.iter().all(|input| match input.source {
                TransactionInputSource::Coinbase(_) => true,
                TransactionInputSource::FromOutput(..) => false,
            })
    }
}

""")],
    "z-pkh-match": [(S, PKH, """        const OP_DUP: u8 = OpCode::OpDup as u8;
        const OP_HASH160: u8 = OpCode::OpHash160 as u8;
        const OP_EQUAL_VERIFY: u8 = OpCode::OpEqualVerify as u8;
        const OP_CHECK_SIG: u8 = OpCode::OpCheckSig as u8;
        matches!(
            self.bytes.as_slice(),
            [OP_DUP, OP_HASH160, HASH160_SIZE_HEX, hash @ .., OP_EQUAL_VERIFY, OP_CHECK_SIG] if hash.len() == 20
        )
    }

"""), (S, SH, """        self.len() == P2SH_SCRIPT_SIZE as usize
            && self.bytes.starts_with(&[OpCode::OpHash160 as u8, HASH160_SIZE_HEX])
            && self.bytes.ends_with(&[OpCode::OpEqual as u8])
    }

""")],
    "z-sha-fn": [(U, SHA, """    let once = sha256(bytes);
    sha256(&once)
}

fn sha256(bytes: &[u8]) -> [u8; 32] {
    let mut hasher = Sha256::new();
    hasher.input(bytes);
    let mut digest = [0u8; 32];
    digest.copy_from_slice(hasher.result().as_slice());
    digest
}

""")],
    "z-sha-fold": [(U, SHA, """    let mut data = bytes.to_vec();
    for _ in 0..2 {
        data = Sha256::digest(&data).to_vec();
    }
    let mut ret = [0; 32];
    ret.copy_from_slice(&data);
    ret
}

""")],
    "z-step-concat": [(U, """    let mut res: Vec<u8> = vec![];
    res.extend(a);
    res.extend(b);
    H256Le::from_bytes_le(&sha256d(&res))
""", """    sha256d_le(&[a, b].concat())
""")],
    "z-rev-iter": [(U, """    let mut vec = Vec::from(bytes);
    vec.reverse();
    vec
""", """    bytes.iter().rev().copied().collect()
""")],
    "z-rev-swap": [(U, """    let mut vec = Vec::from(bytes);
    vec.reverse();
    vec
""", """    let mut reversed = Vec::with_capacity(bytes.len());
    for byte in bytes.iter().rev() {
        reversed.push(*byte);
    }
    reversed
""")],
    "z-hash-int": [(T, HI, """                let mut bytes = [0u8; 32];
                let le_bytes = value.to_le_bytes();
                bytes[..le_bytes.len()].copy_from_slice(&le_bytes);
                H256Le { content: bytes }
""")],
    "z-be-rev": [(T, """        let bytes_le = reverse_endianness(bytes);
        let mut content: [u8; 32] = Default::default();
        content.copy_from_slice(&bytes_le);
        H256Le { content }
""", """        let mut hash = H256Le::from_bytes_le(bytes);
        hash.content.reverse();
        hash
"""), (T, """        let mut content: [u8; 32] = Default::default();
        content.copy_from_slice(&reverse_endianness(&self.content[..]));
        content
""", """        let mut content = self.content;
        content.reverse();
        content
""")],
    "z-u256-be": [(T, """        U256::from_little_endian(&self.to_bytes_le())
""", """        U256::from_big_endian(&self.to_bytes_be())
""")],
    "z-eq-be": [(T, """        let bytes_le = H256Le::from_bytes_be(self.as_bytes());
        bytes_le == *other
""", """        self.0 == other.to_bytes_be()
""")],
    "z-witness-not": [(T, """        self.inputs.iter().any(|v| !v.witness.is_empty())
""", """        !self.inputs.iter().all(|input| input.witness.is_empty())
""")],
    "z-version-ok": [(T, """            Err(Error::InvalidBlockVersion)
        } else {
            Ok(())
        }
""", """            return Err(Error::InvalidBlockVersion);
        }
        Ok(())
""")],
    "z-from-bytes-try": [(T, """        let slice = bytes.as_ref();
        if slice.len() != 80 {
            return Err(Error::InvalidHeaderSize);
        }
        let mut result = [0u8; 80];
        result.copy_from_slice(slice);
        parse_block_header(&result)
""", """        <[u8; 80]>::try_from(bytes.as_ref())
            .map_err(|_| Error::InvalidHeaderSize)
            .and_then(|header| parse_block_header(&header))
""")],
    "z-update-hash": [(T, """        let new_hash = self.hash()?;

        self.hash = new_hash;
        Ok(self.hash)
""", """        self.hash().map(|new_hash| {
            self.hash = new_hash;
            new_hash
        })
""")],
    "z-txid-size": [(T, """        let mut bytes = vec![];
        self.format_no_witness(&mut bytes).expect("Not bounded");
        sha256d_le(&bytes)
    }
""", """        sha256d_le(&self.bytes_no_witness())
    }

    fn bytes_no_witness(&self) -> Vec<u8> {
        let mut bytes = vec![];
        self.format_no_witness(&mut bytes).expect("Not bounded");
        bytes
    }
"""), (T, """        let mut bytes = vec![];
        self.format_no_witness(&mut bytes).expect("Not bounded");
        bytes.len()
""", """        self.bytes_no_witness().len()
""")],
}
