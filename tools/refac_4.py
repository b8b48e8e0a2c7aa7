PR, CT, HW = "primitives/src/lib.rs", "contracts/btc_swap/lib.rs", "contracts/hello_world/lib.rs"
SORT = """        match *self {
            CurrencyId::LpToken(x, y) => {
                if x > y {
                    *self = CurrencyId::LpToken(y, x)
                }
            }
            _ => {}
        }"""
JOIN = """        let lp_token_0 = match currency_id_0 {
            CurrencyId::Token(symbol) => LpToken::Token(symbol),
            CurrencyId::ForeignAsset(foreign_asset_id) => LpToken::ForeignAsset(foreign_asset_id),
            CurrencyId::StableLpToken(stable_pool_id) => LpToken::StableLpToken(stable_pool_id),
            _ => return None,
        };
        let lp_token_1 = match currency_id_1 {
            CurrencyId::Token(symbol) => LpToken::Token(symbol),
            CurrencyId::ForeignAsset(foreign_asset_id) => LpToken::ForeignAsset(foreign_asset_id),
            CurrencyId::StableLpToken(stable_pool_id) => LpToken::StableLpToken(stable_pool_id),
            _ => return None,
        };
        Some(CurrencyId::LpToken(lp_token_0, lp_token_1))
    }
"""
HELP = """
    fn as_lp_token(self) -> Option<LpToken> {
        match self {
            CurrencyId::Token(symbol) => Some(LpToken::Token(symbol)),
            CurrencyId::ForeignAsset(id) => Some(LpToken::ForeignAsset(id)),
            CurrencyId::StableLpToken(id) => Some(LpToken::StableLpToken(id)),
            CurrencyId::LendToken(_) | CurrencyId::LpToken(..) => None,
        }
    }
"""
ISLP = """        match self {
            Self::Token(_) | Self::ForeignAsset(_) | Self::StableLpToken(_) => true,
            _ => false,
        }"""
EXE = """            let transferred_sats = self
                .env()
                .extension()
                .get_and_verify_bitcoin_payment(full_proof, order.btc_address)
                .unwrap()
                .unwrap_or(0);

            assert!(transferred_sats >= order.min_satoshis);

            // an order pays out only once
            self.orders.remove(&counterparty);

            self.env().transfer(caller, order.plancks).unwrap();"""
CRE = """            let caller = self.env().caller();
            let offer = self.env().transferred_value();

            let order = LimitOrder {
                btc_address: btc_address.encode(),
                min_satoshis,
                plancks: offer,
            };
            let replaced = self.orders.get(caller);
            self.orders.insert(caller, &order);

            // return what the replaced order had locked
            if let Some(replaced) = replaced {
                self.env().transfer(caller, replaced.plancks).unwrap();
            }"""
NEW = """        Self {
            account_id,
            currencies: VaultCurrencyPair::<CurrencyId> {
                collateral: collateral_currency,
                wrapped: wrapped_currency,
            },
        }"""
REFS = {
 "p-sort-iflet": [(PR, SORT, """        if let CurrencyId::LpToken(x, y) = *self {
            if y < x {
                *self = CurrencyId::LpToken(y, x);
            }
        }""")],
 "p-sort-guard": [(PR, SORT, """        match *self {
            CurrencyId::LpToken(x, y) if x > y => *self = CurrencyId::LpToken(y, x),
            _ => {}
        }""")],
 "p-sort-minmax": [(PR, SORT, """        if let CurrencyId::LpToken(x, y) = *self {
            *self = CurrencyId::LpToken(x.min(y), x.max(y));
        }""")],
 "p-sort-swap": [(PR, SORT, """        if let CurrencyId::LpToken(x, y) = self {
            if *x > *y {
                core::mem::swap(x, y);
            }
        }""")],
 "p-sort-arms": [(PR, SORT, """        match *self {
            CurrencyId::LpToken(x, y) => {
                if x <= y {
                    return;
                }
                *self = CurrencyId::LpToken(y, x);
            }
            CurrencyId::Token(_) | CurrencyId::ForeignAsset(_) | CurrencyId::LendToken(_) | CurrencyId::StableLpToken(_) => {}
        }""")],
 "p-sort-cmp": [(PR, SORT, """        if let CurrencyId::LpToken(x, y) = *self {
            if x.cmp(&y) == core::cmp::Ordering::Greater {
                *self = CurrencyId::LpToken(y, x);
            }
        }""")],
 "p-sort-assign": [(PR, SORT, """        *self = match *self {
            CurrencyId::LpToken(x, y) if x > y => CurrencyId::LpToken(y, x),
            other => other,
        };""")],
 "p-join-helper": [(PR, JOIN, """        let lp_token_0 = currency_id_0.as_lp_token()?;
        let lp_token_1 = currency_id_1.as_lp_token()?;
        Some(CurrencyId::LpToken(lp_token_0, lp_token_1))
    }
""" + HELP)],
 "p-join-zip": [(PR, JOIN, """        currency_id_0
            .as_lp_token()
            .zip(currency_id_1.as_lp_token())
            .map(|(a, b)| CurrencyId::LpToken(a, b))
    }
""" + HELP)],
 "p-join-match2": [(PR, JOIN, """        match (currency_id_0.as_lp_token(), currency_id_1.as_lp_token()) {
            (Some(a), Some(b)) => Some(CurrencyId::LpToken(a, b)),
            _ => None,
        }
    }
""" + HELP)],
 "p-join-closure": [(PR, JOIN, """        let convert = |currency_id: Self| match currency_id {
            CurrencyId::Token(symbol) => Some(LpToken::Token(symbol)),
            CurrencyId::ForeignAsset(foreign_asset_id) => Some(LpToken::ForeignAsset(foreign_asset_id)),
            CurrencyId::StableLpToken(stable_pool_id) => Some(LpToken::StableLpToken(stable_pool_id)),
            _ => None,
        };
        Some(CurrencyId::LpToken(convert(currency_id_0)?, convert(currency_id_1)?))
    }
""")],
 "p-join-tryfrom": [(PR, JOIN, """        let a = LpToken::try_from(currency_id_0).ok()?;
        let b = LpToken::try_from(currency_id_1).ok()?;
        Some(CurrencyId::LpToken(a, b))
    }
"""), (PR, "impl Into<CurrencyId> for LpToken {", """impl TryFrom<CurrencyId> for LpToken {
    type Error = ();

    fn try_from(currency_id: CurrencyId) -> Result<Self, Self::Error> {
        match currency_id {
            CurrencyId::Token(symbol) => Ok(LpToken::Token(symbol)),
            CurrencyId::ForeignAsset(id) => Ok(LpToken::ForeignAsset(id)),
            CurrencyId::StableLpToken(id) => Ok(LpToken::StableLpToken(id)),
            _ => Err(()),
        }
    }
}

impl Into<CurrencyId> for LpToken {""")],
 "p-islp-matches": [(PR, ISLP, "        matches!(self, Self::Token(_) | Self::ForeignAsset(_) | Self::StableLpToken(_))")],
 "p-islp-neg": [(PR, ISLP, "        !matches!(self, Self::LendToken(_) | Self::LpToken(..))")],
 "p-islp-arms": [(PR, ISLP, """        match *self {
            CurrencyId::LendToken(_) => false,
            CurrencyId::LpToken(_, _) => false,
            CurrencyId::Token(_) | CurrencyId::ForeignAsset(_) | CurrencyId::StableLpToken(_) => true,
        }""")],
 "p-islend-match": [(PR, "        matches!(self, CurrencyId::LendToken(_))", """        match self {
            CurrencyId::LendToken(_) => true,
            _ => false,
        }""")],
 "p-islend-iflet": [(PR, "        matches!(self, CurrencyId::LendToken(_))", """        if let CurrencyId::LendToken(_) = self {
            return true;
        }
        false""")],
 "p-into-from": [(PR, """impl Into<CurrencyId> for LpToken {
    fn into(self) -> CurrencyId {
        match self {""", """impl From<LpToken> for CurrencyId {
    fn from(lp_token: LpToken) -> CurrencyId {
        match lp_token {""")],
 "p-into-self": [(PR, """impl Into<CurrencyId> for LpToken {
    fn into(self) -> CurrencyId {
        match self {
            LpToken::Token(token) => CurrencyId::Token(token),""", """impl Into<CurrencyId> for LpToken {
    fn into(self) -> CurrencyId {
        use CurrencyId as C;
        match self {
            Self::Token(token) => C::Token(token),""")],
 "p-trunc-helper": [(PR, "            self.into_inner().checked_div(SignedFixedPoint::accuracy())", """            let inner = self.into_inner();
            let accuracy = SignedFixedPoint::accuracy();
            inner.checked_div(accuracy)""")],
 "p-trunc-div": [(PR, "            self.into_inner().checked_div(UnsignedFixedPoint::accuracy())", "            Some(self.into_inner() / Self::accuracy())")],
 "p-trunc-self": [(PR, "            self.into_inner().checked_div(UnsignedFixedPoint::accuracy())", "            self.into_inner().checked_div(Self::accuracy())")],
 "p-tofixed": [(PR, """            SignedFixedPoint::checked_from_integer(
                TryInto::<<SignedFixedPoint as FixedPointNumber>::Inner>::try_into(self).ok()?,
            )""", """            let inner: SignedInner = self.try_into().ok()?;
            SignedFixedPoint::checked_from_integer(inner)""")],
 "p-tofixed-andthen": [(PR, """            SignedFixedPoint::checked_from_integer(
                TryInto::<<SignedFixedPoint as FixedPointNumber>::Inner>::try_into(self).ok()?,
            )""", """            SignedInner::try_from(self).ok().and_then(SignedFixedPoint::checked_from_integer)""")],
 "p-vault-from": [(PR, "        VaultId::new(account_id, currencies.collateral, currencies.wrapped)", "        Self::from_pair(account_id, currencies)")],
 "p-vault-new": [(PR, NEW, """        let currencies = VaultCurrencyPair {
            collateral: collateral_currency,
            wrapped: wrapped_currency,
        };
        Self::from_pair(account_id, currencies)""")],
 "p-vault-new-impl": [(PR, NEW, """        Self::from_pair(account_id, VaultCurrencyPair::new(collateral_currency, wrapped_currency))"""),
    (PR, "impl<AccountId, CurrencyId: Copy> VaultId<AccountId, CurrencyId> {", """impl<CurrencyId: Copy> VaultCurrencyPair<CurrencyId> {
    fn new(collateral: CurrencyId, wrapped: CurrencyId) -> Self {
        Self { collateral, wrapped }
    }
}

impl<AccountId, CurrencyId: Copy> VaultId<AccountId, CurrencyId> {""")],
 "p-vault-destr": [(PR, """    fn from((account_id, currencies): (AccountId, VaultCurrencyPair<CurrencyId>)) -> Self {
        VaultId::new(account_id, currencies.collateral, currencies.wrapped)""", """    fn from(pair: (AccountId, VaultCurrencyPair<CurrencyId>)) -> Self {
        let (account_id, VaultCurrencyPair { collateral, wrapped }) = pair;
        Self::new(account_id, collateral, wrapped)""")],
 "p-deser-q": [(PR, """    let s = String::deserialize(deserializer)?;
    s.parse::<T>()
        .map_err(|_| serde::de::Error::custom("Parse from string failed"))""", """    String::deserialize(deserializer)?
        .parse()
        .map_err(|_| serde::de::Error::custom("Parse from string failed"))""")],
 "p-deser-match": [(PR, """    s.parse::<T>()
        .map_err(|_| serde::de::Error::custom("Parse from string failed"))""", """    match T::from_str(&s) {
        Ok(value) => Ok(value),
        Err(_) => Err(serde::de::Error::custom("Parse from string failed")),
    }""")],
 "p-ser-collect": [(PR, "    serializer.serialize_str(&t.to_string())", """    let text = t.to_string();
    serializer.serialize_str(text.as_str())""")],
 "p-ser-format": [(PR, "    serializer.serialize_str(&t.to_string())", """    serializer.serialize_str(&format!("{}", t))""")],
 "p-ser-collectstr": [(PR, "    serializer.serialize_str(&t.to_string())", """    serializer.collect_str(t)""")],
 "p-default-self": [(PR, """    impl Default for IssueRequestStatus {
        fn default() -> Self {
            IssueRequestStatus::Pending""", """    impl Default for IssueRequestStatus {
        fn default() -> Self {
            Self::Pending""")],
 "p-macro-one": [(PR, "                10u128.pow(self.decimals() as u32)", """                let decimals = self.decimals() as u32;
                (10 as Balance).pow(decimals)""")],
 "p-macro-loop": [(PR, "                10u128.pow(self.decimals() as u32)", """                let exponent: u32 = self.decimals() as u32;
                10u128.pow(exponent)""")],
 "p-macro-name": [(PR, """			fn name(&self) -> &str {
				match self {
					$(TokenSymbol::$symbol => $name,)*
				}
			}""", """			fn name(&self) -> &str {
				match *self {
					$(Self::$symbol => $name,)*
				}
			}""")],
 "p-macro-slice": [(PR, "				match v.as_slice() {", "				match &v[..] {")],
 "p-macro-info": [(PR, """				vec![
					$((stringify!($symbol), $deci),)*
				]""", """				[
					$((stringify!($symbol), $deci),)*
				]
				.to_vec()""")],
 "c-exe-match": [(CT, EXE, """            let payment = self
                .env()
                .extension()
                .get_and_verify_bitcoin_payment(full_proof, order.btc_address)
                .unwrap();
            let transferred_sats = match payment {
                Some(sats) => sats,
                None => 0,
            };

            assert!(!(transferred_sats < order.min_satoshis));

            // an order pays out only once
            self.orders.remove(counterparty);

            self.env().transfer(caller, order.plancks).unwrap();""")],
 "c-exe-default": [(CT, "                .unwrap_or(0);", "                .unwrap_or_default();")],
 "c-exe-if": [(CT, "            assert!(transferred_sats >= order.min_satoshis);", """            if transferred_sats < order.min_satoshis {
                panic!("insufficient payment");
            }""")],
 "c-exe-some": [(CT, EXE, """            let LimitOrder {
                btc_address,
                min_satoshis,
                plancks,
            } = order;
            let transferred_sats = self
                .env()
                .extension()
                .get_and_verify_bitcoin_payment(full_proof, btc_address)
                .unwrap()
                .unwrap_or(0);

            assert!(min_satoshis <= transferred_sats, "insufficient payment");
            self.orders.remove(&counterparty);
            self.env().transfer(caller, plancks).unwrap();""")],
 "c-exe-expect": [(CT, "            let order = self.orders.get(&counterparty).unwrap();", "            let order = self.orders.get(counterparty).expect(\"no such order\");")],
 "c-exe-letelse": [(CT, "            let order = self.orders.get(&counterparty).unwrap();", """            let order = match self.orders.get(&counterparty) {
                Some(order) => order,
                None => panic!("no such order"),
            };""")],
 "c-exe-take": [(CT, "            let order = self.orders.get(&counterparty).unwrap();", "            let order = self.orders.take(&counterparty).unwrap();"), (CT, """            // an order pays out only once
            self.orders.remove(&counterparty);

""", "")],
 "c-exe-env": [(CT, EXE, """            let env = self.env();
            let transferred_sats = env
                .extension()
                .get_and_verify_bitcoin_payment(full_proof, order.btc_address)
                .unwrap()
                .unwrap_or(0);

            assert!(transferred_sats >= order.min_satoshis);
            self.orders.remove(&counterparty);

            self.env().transfer(caller, order.plancks).unwrap();""")],
 "c-exe-helper": [(CT, EXE, """            let transferred_sats = self.verified_payment(full_proof, order.btc_address);
            assert!(transferred_sats >= order.min_satoshis);

            // an order pays out only once
            self.orders.remove(&counterparty);
            self.payout(caller, order.plancks);"""), (CT, """        #[ink(message)]
        pub fn execute_trade""", """        fn verified_payment(&self, full_proof: FullTransactionProof, btc_address: Vec<u8>) -> u64 {
            self.env()
                .extension()
                .get_and_verify_bitcoin_payment(full_proof, btc_address)
                .unwrap()
                .unwrap_or(0)
        }

        fn payout(&self, to: AccountId, amount: Balance) {
            self.env().transfer(to, amount).unwrap();
        }

        #[ink(message)]
        pub fn execute_trade""")],
 "c-exe-mapor": [(CT, EXE, """            let payment = self
                .env()
                .extension()
                .get_and_verify_bitcoin_payment(full_proof, order.btc_address)
                .unwrap();
            assert!(payment.map_or(0, |sats| sats) >= order.min_satoshis);
            self.orders.remove(&counterparty);
            if self.env().transfer(caller, order.plancks).is_err() {
                panic!("transfer failed");
            }""")],
 "c-cre-inline": [(CT, CRE, """            let caller = self.env().caller();
            let replaced = self.orders.get(&caller);
            let order = LimitOrder {
                btc_address: btc_address.encode(),
                min_satoshis,
                plancks: self.env().transferred_value(),
            };
            self.orders.insert(&caller, &order);
            match replaced {
                Some(LimitOrder { plancks, .. }) => self.env().transfer(caller, plancks).unwrap(),
                None => (),
            }""")],
 "c-cre-refundfirst": [(CT, CRE, """            let caller = self.env().caller();
            if let Some(replaced) = self.orders.get(caller) {
                self.env().transfer(caller, replaced.plancks).unwrap();
            }
            let order = LimitOrder {
                btc_address: btc_address.encode(),
                min_satoshis,
                plancks: self.env().transferred_value(),
            };
            self.orders.insert(caller, &order);""")],
 "c-cre-assert": [(CT, "            assert!(min_satoshis > 0);", "            assert_ne!(min_satoshis, 0);")],
 "c-cre-assert2": [(CT, "            assert!(min_satoshis > 0);", "            assert!(min_satoshis >= 1, \"a price is needed\");")],
 "c-cre-if": [(CT, "            assert!(min_satoshis > 0);", "            if min_satoshis == 0 {\n                panic!(\"a price is needed\");\n            }")],
 "c-cre-newfn": [(CT, CRE, """            let caller = self.env().caller();
            let order = LimitOrder::new(&btc_address, min_satoshis, self.env().transferred_value());
            let replaced = self.orders.get(caller);
            self.orders.insert(caller, &order);
            if let Some(replaced) = replaced {
                self.env().transfer(caller, replaced.plancks).unwrap();
            }"""), (CT, """    impl BtcSwap {
""", """    impl LimitOrder {
        fn new(btc_address: &BtcAddress, min_satoshis: u64, plancks: u128) -> Self {
            Self {
                btc_address: btc_address.encode(),
                min_satoshis,
                plancks,
            }
        }
    }

    impl BtcSwap {
""")],
 "c-status": [(CT, """            match status_code {
            0 => Ok(()),
            1 => Err(Self::SomeFailure),
            _ => panic!("encountered unknown status code"),
        }""".replace("            match", "        match", 1), """        if status_code == 0 {
            return Ok(());
        }
        if status_code == 1 {
            return Err(RuntimeErr::SomeFailure);
        }
        panic!("encountered unknown status code")""")],
}
REFS.update({
 "h-flip-xor": [(HW, "            self.value = !self.value;", "            self.value ^= true;")],
 "h-flip-if": [(HW, "            self.value = !self.value;", "            if self.value {\n                self.value = false;\n            } else {\n                self.value = true;\n            }")],
 "h-flip-get": [(HW, "            self.value = !self.value;", "            let current = self.get();\n            self.value = !current;")],
 "h-flip-set": [(HW, "            self.value = !self.value;\n        }", "            self.set(!self.value);\n        }\n\n        fn set(&mut self, value: bool) {\n            self.value = value;\n        }")],
 "h-def": [(HW, "            Self::new(Default::default())", "            Self { value: bool::default() }")],
 "h-def-false": [(HW, "            Self::new(Default::default())", "            Self::new(false)")],
})
