"""refactorings of primitives, keys, fees and the contract"""
K = "crates/bitcoin/src/merkle.rs"
P = "crates/bitcoin/src/parser.rs"
D = "crates/bitcoin/src/address.rs"
U = "crates/bitcoin/src/utils.rs"
F = "crates/bitcoin/src/formatter.rs"
T = "crates/bitcoin/src/types.rs"
L = "primitives/src/lib.rs"
C = "contracts/btc_swap/lib.rs"
R = {x: open("/repo/" + x).read() for x in (K, P, D, U, F, T, L, C)}


def cut(f, a, b):
    x = R[f]
    i = x.index(a)
    return x[i:x.index(b, i)]


SORT = cut(L, "        match *self {\n            CurrencyId::LpToken(x, y) => {", "    pub fn is_lend_token")
JOIN = cut(L, "        let lp_token_0 = match currency_id_0 {", "    pub fn is_lp_token")
INTO = cut(L, "impl Into<CurrencyId> for LpToken {", "#[cfg(feature = \"runtime-benchmarks\")]\nimpl From<u32>")
ISLP = cut(L, "        match self {\n            Self::Token(_) | Self::ForeignAsset(_)", "impl Into<CurrencyId> for LpToken")
TW = cut(U, "    let output_weight = 4\n", "    let output_count")
HW = cut(U, "    let header_bytes = 4", "/// Bytes in the witnesses")
SLS = cut(U, "    if length <= 75 {", "const fn var_int_size")
VIS = cut(U, "    if length < 253 {", "const fn transaction_header_weight")
L256 = cut(U, "    let mut current = value - 1;\n    let mut result: u8", "pub fn sha256d_be")
CU = cut(P, "        // note: passing entire remaining buffer", "impl Parsable for BlockHeader")
VP = cut(P, "        let mut result: Vec<T> = Vec::new();\n        let slice = raw_bytes.get(position..).ok_or(Error::EndOfFile)?;\n        let mut parser = BytesParser::new(slice);\n        let count: CompactUint = parser.parse()?;\n        for _ in 0..count.value {\n            result.push(parser.parse()?);", "impl<T, U: Copy>")
SEC = cut(D, "        let mut hasher = Sha256::default();\n        // input compressed", "    /// Generates an ephemeral")
DEP = cut(D, "        let mut public_key = Secp256k1PublicKey::from_slice(&self.0)?;", "    /// Calculates the RIPEMD")
ISZ = cut(D, "        match self {\n            Self::P2PKH(hash) | Self::P2SH(hash)", "impl Default for Address")
EXEC = cut(C, "            let caller = self.env().caller();\n            let order = self.orders.get(&counterparty)", "        }\n    }\n}")
SWAP = cut(C, "            assert!(min_satoshis > 0);", "        #[ink(message)]\n        pub fn execute_trade")

REFS = {
    "q-sort-guard": [(L, SORT, """        *self = match *self {
            CurrencyId::LpToken(x, y) if x > y => CurrencyId::LpToken(y, x),
            other => other,
        };
    }

""")],
    "q-sort-swap": [(L, SORT, """        if let CurrencyId::LpToken(x, y) = self {
            if *y < *x {
                core::mem::swap(x, y);
            }
        }
    }

""")],
    "q-sort-cmp": [(L, SORT, """        let sorted = match self {
            CurrencyId::LpToken(x, y) => match x.cmp(&y) {
                core::cmp::Ordering::Greater => CurrencyId::LpToken(*y, *x),
                _ => return,
            },
            _ => return,
        };
        *self = sorted;
    }

""")],
    "q-join-try": [(L, JOIN, """        let lp_token_0 = LpToken::try_from(currency_id_0).ok()?;
        let lp_token_1 = LpToken::try_from(currency_id_1).ok()?;
        Some(CurrencyId::LpToken(lp_token_0, lp_token_1))
    }

"""), (L, "impl Into<CurrencyId> for LpToken {", """impl TryFrom<CurrencyId> for LpToken {
    type Error = ();

    fn try_from(currency_id: CurrencyId) -> Result<Self, Self::Error> {
        match currency_id {
            CurrencyId::Token(symbol) => Ok(LpToken::Token(symbol)),
            CurrencyId::ForeignAsset(foreign_asset_id) => Ok(LpToken::ForeignAsset(foreign_asset_id)),
            CurrencyId::StableLpToken(stable_pool_id) => Ok(LpToken::StableLpToken(stable_pool_id)),
            CurrencyId::LendToken(_) | CurrencyId::LpToken(_, _) => Err(()),
        }
    }
}

impl Into<CurrencyId> for LpToken {""")],
    "q-join-closure": [(L, JOIN, """        let part = |currency_id: Self| match currency_id {
            CurrencyId::Token(symbol) => Some(LpToken::Token(symbol)),
            CurrencyId::ForeignAsset(id) => Some(LpToken::ForeignAsset(id)),
            CurrencyId::StableLpToken(id) => Some(LpToken::StableLpToken(id)),
            _ => None,
        };
        part(currency_id_0).zip(part(currency_id_1)).map(|(x, y)| CurrencyId::LpToken(x, y))
    }

""")],
    "q-into-from": [(L, INTO, """impl From<LpToken> for CurrencyId {
    fn from(token: LpToken) -> Self {
        match token {
            LpToken::Token(symbol) => Self::Token(symbol),
            LpToken::ForeignAsset(id) => Self::ForeignAsset(id),
            LpToken::StableLpToken(id) => Self::StableLpToken(id),
        }
    }
}

""")],
    "q-islp-neg": [(L, ISLP, """        !matches!(self, Self::LendToken(_) | Self::LpToken(_, _))
    }
}

""")],
    "q-one-loop": [(L, "                10u128.pow(self.decimals() as u32)\n", """                let mut unit: Balance = 1;
                let mut left = self.decimals();
                while left > 0 {
                    unit *= 10;
                    left -= 1;
                }
                unit
""")],
    "q-tok-u8": [(L, "				match self {\n					$(TokenSymbol::$symbol => ($val),)*\n				}\n", "				self as u8\n")],
    "q-tok-try": [(L, "				match v {\n					$($val => Ok(TokenSymbol::$symbol),)*\n					_ => Err(()),\n				}\n", "				$(if v == $val {\n					return Ok(TokenSymbol::$symbol);\n				})*\n				Err(())\n")],
    "q-vid-new": [(L, """        Self {
            account_id,
            currencies: VaultCurrencyPair::<CurrencyId> {
                collateral: collateral_currency,
                wrapped: wrapped_currency,
            },
        }
""", """        let currencies = VaultCurrencyPair {
            collateral: collateral_currency,
            wrapped: wrapped_currency,
        };
        Self::from_pair(account_id, currencies)
""")],
    "q-ser-str": [(L, "    serializer.serialize_str(&t.to_string())\n", "    let text = format!(\"{}\", t);\n    serializer.serialize_str(text.as_str())\n")],
    "q-de-match": [(L, "    s.parse::<T>()\n        .map_err(|_| serde::de::Error::custom(\"Parse from string failed\"))\n", "    match T::from_str(&s) {\n        Ok(value) => Ok(value),\n        Err(_) => Err(serde::de::Error::custom(\"Parse from string failed\")),\n    }\n")],
    "q-fixed-and": [(L, """            SignedFixedPoint::checked_from_integer(
                TryInto::<<SignedFixedPoint as FixedPointNumber>::Inner>::try_into(self).ok()?,
            )
""", """            let inner: SignedInner = self.try_into().ok()?;
            SignedFixedPoint::checked_from_integer(inner)
""")],
    "q-tw-order": [(U, TW, """    let output_size = output.num_op_return * OP_RETURN_OUT_SIZE
        + output.num_p2wpkh * P2WPKH_OUT_SIZE
        + output.num_p2sh * P2SH_OUT_SIZE
        + output.num_p2pkh * P2PKH_OUT_SIZE;
    let output_weight = output_size * 4;

""")],
    "q-hw-const": [(U, HW, """    const VERSION_SIZE: u32 = 4;
    const LOCK_TIME_SIZE: u32 = 4;
    let header_bytes = VERSION_SIZE + LOCK_TIME_SIZE + var_int_size(input_count) + var_int_size(output_count);

    4 * header_bytes + extra_witness_weight
}

""")],
    "q-sls-match": [(U, SLS, """    match length {
        0..=75 => 1,
        76..=255 => 2,
        256..=65535 => 3,
        _ => 5,
    }
}

""")],
    "q-vis-early": [(U, VIS, """    if length > u16::MAX as u32 {
        return 5;
    }
    if length >= 0xfd {
        return 3;
    }
    1
}

""")],
    "q-log256-loop": [(U, L256, """    let mut rest = value - 1;
    let mut digits = 0u8;
    loop {
        if rest.is_zero() {
            break digits;
        }
        rest = rest >> 8;
        digits += 1;
    }
}

""")],
    "q-cu-map": [(P, CU, """        let rest = raw_bytes.get(position..).ok_or(Error::EndOfFile)?;
        parse_compact_uint(rest).map(|(value, consumed)| (CompactUint { value }, consumed))
    }
}

""")],
    "q-vp-while": [(P, VP, """        let mut parser = BytesParser::new(raw_bytes.get(position..).ok_or(Error::EndOfFile)?);
        let count = parser.parse::<CompactUint>()?.value;
        let result = (0..count).map(|_| parser.parse()).collect::<Result<Vec<T>, Error>>()?;
        Ok((result, parser.position))
    }
}

""")],
    "q-sec-concat": [(D, SEC, """        let preimage = [&self.0[..], secure_id.as_bytes()].concat();
        let mut hasher = Sha256::default();
        hasher.input(&preimage);
        hasher.result().into()
    }

""")],
    "q-dep-and": [(D, DEP, """        Secp256k1PublicKey::from_slice(&self.0).and_then(|mut key| {
            key.mul_assign(global::SECP256K1, secret_key)?;
            Ok(PublicKey(key.serialize()))
        })
    }

""")],
    "q-isz-arms": [(D, ISZ, """        match *self {
            Self::P2PKH(ref hash) => *hash == H160::zero(),
            Self::P2SH(ref hash) => *hash == H160::zero(),
            Self::P2WPKHv0(ref hash) => *hash == H160::zero(),
            Self::P2WSHv0(ref hash) => *hash == H256::zero(),
        }
    }
}

""")],
    "q-p2sh-sig": [(D, "        script.append(OpCode::Op0);\n        script.append(&sig);\n        script.append(self.to_redeem_script());\n        script\n", "        let redeem_script = self.to_redeem_script();\n        script.append(OpCode::Op0);\n        for item in [sig, redeem_script] {\n            script.append(item);\n        }\n        script\n")],
    "q-redeem": [(D, "        let mut redeem_script = self.0.to_vec();\n        redeem_script.push(OpCode::OpCheckSig as u8);\n        redeem_script\n", "        self.0.iter().copied().chain(core::iter::once(OpCode::OpCheckSig as u8)).collect()\n")],
    "q-redeem-cap": [(D, "        let mut redeem_script = self.0.to_vec();\n        redeem_script.push(OpCode::OpCheckSig as u8);\n        redeem_script\n", "        let mut redeem_script = Vec::with_capacity(PUBLIC_KEY_SIZE + 1);\n        redeem_script.extend_from_slice(self.as_bytes());\n        redeem_script.push(OpCode::OpCheckSig as u8);\n        redeem_script\n")],
    "q-u256-fmt": [(F, "        let bits = self.clone().get_compact().ok_or(Error::InvalidCompact)?;\n        w.write(&bits.to_le_bytes())\n", "        match self.get_compact() {\n            Some(bits) => bits.try_format(w),\n            None => Err(Error::InvalidCompact),\n        }\n")],
    "q-lock-let": [(F, "        match self {\n            LockTime::BlockHeight(b) | LockTime::Time(b) => b.try_format(w),\n        }\n", "        let value = match self {\n            LockTime::BlockHeight(height) => height,\n            LockTime::Time(time) => time,\n        };\n        w.write(&value.to_le_bytes())\n")],
    "q-exec-match": [(C, EXEC, """            let order = self.orders.get(&counterparty).unwrap();

            let verified = self
                .env()
                .extension()
                .get_and_verify_bitcoin_payment(full_proof, order.btc_address)
                .unwrap();
            match verified {
                Some(transferred_sats) => assert!(transferred_sats >= order.min_satoshis),
                None => panic!("no payment"),
            }

            self.orders.remove(&counterparty);

            let caller = self.env().caller();
            self.env().transfer(caller, order.plancks).unwrap();
""")],
    "q-exec-take": [(C, EXEC, """            let LimitOrder {
                btc_address,
                min_satoshis,
                plancks,
            } = self.orders.take(&counterparty).expect("no such order");

            let sats = self
                .env()
                .extension()
                .get_and_verify_bitcoin_payment(full_proof, btc_address)
                .unwrap()
                .unwrap_or_default();
            if sats < min_satoshis {
                panic!("payment too low");
            }

            let caller = self.env().caller();
            self.env().transfer(caller, plancks).unwrap();
""")],
    "q-trade-refund": [(C, SWAP, """            assert_ne!(min_satoshis, 0);

            let caller = self.env().caller();
            let refund = self.orders.get(&caller).map(|order| order.plancks);

            self.orders.insert(
                &caller,
                &LimitOrder {
                    btc_address: btc_address.encode(),
                    min_satoshis,
                    plancks: self.env().transferred_value(),
                },
            );

            match refund {
                Some(plancks) => self.env().transfer(caller, plancks).unwrap(),
                None => {}
            }
        }

""")],
}
