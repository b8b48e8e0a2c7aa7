From d618b381468cd1c2027143d155aefb6c13c0db1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 01/33] fix: write compact sizes of exactly 0xffff and
 0xffffffff in their shortest form

---
 crates/bitcoin/src/formatter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bitcoin/src/formatter.rs b/crates/bitcoin/src/formatter.rs
index e7ad33b..3b34cf9 100644
--- a/crates/bitcoin/src/formatter.rs
+++ b/crates/bitcoin/src/formatter.rs
@@ -103,10 +103,10 @@ impl TryFormat for CompactUint {
     fn try_format<W: Writer>(&self, w: &mut W) -> Result<(), Error> {
         if self.value < 0xfd {
             (self.value as u8).try_format(w)?;
-        } else if self.value < u16::MAX as u64 {
+        } else if self.value <= u16::MAX as u64 {
             0xfd_u8.try_format(w)?;
             (self.value as u16).try_format(w)?;
-        } else if self.value < u32::MAX as u64 {
+        } else if self.value <= u32::MAX as u64 {
             0xfe_u8.try_format(w)?;
             (self.value as u32).try_format(w)?;
         } else {
-- 
2.43.0


From 6ad76684e6c425d1232e40f6f010b32fa5a48ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 02/33] fix: reject malformed lengths in transaction inputs
 instead of panicking

---
 crates/bitcoin/src/parser.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/bitcoin/src/parser.rs b/crates/bitcoin/src/parser.rs
index e684e66..4e2ca39 100644
--- a/crates/bitcoin/src/parser.rs
+++ b/crates/bitcoin/src/parser.rs
@@ -248,14 +248,12 @@ impl BytesParser {
     /// Reads `bytes_count` from the bytes parser and moves the head
     /// Fails if there are not enough bytes to read
     pub(crate) fn read(&mut self, bytes_count: usize) -> Result<Vec<u8>, Error> {
-        let bytes = self
-            .raw_bytes
-            .get(self.position..self.position + bytes_count)
-            .ok_or(Error::EndOfFile)?;
-        self.position = self
+        let end = self
             .position
             .checked_add(bytes_count)
             .ok_or(Error::ArithmeticOverflow)?;
+        let bytes = self.raw_bytes.get(self.position..end).ok_or(Error::EndOfFile)?;
+        self.position = end;
         Ok(Vec::from(bytes))
     }
 }
@@ -359,9 +357,16 @@ fn parse_transaction_input(raw_input: &[u8], version: i32) -> Result<(Transactio
             // version 2 transactions include a height as the first 4 bytes, see
             // https://github.com/bitcoin/bips/blob/master/bip-0034.mediawiki
             let height_size: u64 = parser.parse::<CompactUint>()?.value;
-            script_size = script_size.checked_sub(height_size + 1).ok_or(Error::EndOfFile)?;
+            script_size = height_size
+                .checked_add(1)
+                .and_then(|size| script_size.checked_sub(size))
+                .ok_or(Error::EndOfFile)?;
 
             let mut buffer = [0u8; 4];
+            // fail if the height does not fit in four bytes
+            if height_size > buffer.len() as u64 {
+                return Err(Error::MalformedTransaction);
+            }
             let bytes = parser.read(height_size as usize)?;
             buffer[..(height_size as usize)]
                 .copy_from_slice(bytes.get(0..(height_size as usize)).ok_or(Error::EndOfFile)?);
-- 
2.43.0


From d3f52b54bc666699ab91e16a78f40dc1ffbd5a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:24 +0000
Subject: [PATCH 03/33] fix: remove a BTC swap order when it is executed

execute_trade left the order in storage, so one Bitcoin payment proof could be
submitted again and again and paid the locked amount every time, out of the
funds other users have locked in the contract.
---
 contracts/btc_swap/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/contracts/btc_swap/lib.rs b/contracts/btc_swap/lib.rs
index a97ea4f..eb7cf50 100755
--- a/contracts/btc_swap/lib.rs
+++ b/contracts/btc_swap/lib.rs
@@ -126,6 +126,9 @@ mod btc_swap {
 
             assert!(transferred_sats >= order.min_satoshis);
 
+            // an order pays out only once
+            self.orders.remove(&counterparty);
+
             self.env().transfer(caller, order.plancks).unwrap();
         }
     }
-- 
2.43.0


From b4afcdbf75b7e9fc80f3e96641f218a10bc6e31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:31 +0000
Subject: [PATCH 04/33] fix: return the locked amount when a BTC swap order is
 replaced

create_trade overwrote the caller's open order, so what it had locked stayed in
the contract for good.
---
 contracts/btc_swap/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/contracts/btc_swap/lib.rs b/contracts/btc_swap/lib.rs
index eb7cf50..a6eebcc 100755
--- a/contracts/btc_swap/lib.rs
+++ b/contracts/btc_swap/lib.rs
@@ -109,7 +109,13 @@ mod btc_swap {
                 min_satoshis,
                 plancks: offer,
             };
+            let replaced = self.orders.get(caller);
             self.orders.insert(caller, &order);
+
+            // return what the replaced order had locked
+            if let Some(replaced) = replaced {
+                self.env().transfer(caller, replaced.plancks).unwrap();
+            }
         }
 
         #[ink(message)]
-- 
2.43.0


From 158d7e53d1654e1b415d07625a224699c8437b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 05/33] fix: move an extended fork past every lower fork in
 Chains

After the first swap the height of the displaced chain was compared instead of
the height of the fork that is moving, so the fork moved up by one position
only. With several forks of equal height the highest one was then not at
position 1, where ensure_no_ongoing_fork looks for it.
---
 crates/btc-relay/src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/btc-relay/src/lib.rs b/crates/btc-relay/src/lib.rs
index c2937d2..631aea2 100644
--- a/crates/btc-relay/src/lib.rs
+++ b/crates/btc-relay/src/lib.rs
@@ -1156,7 +1156,7 @@ impl<T: Config> Pallet<T> {
         let fork_position: u32 = Self::get_chain_position_from_chain_id(fork.chain_id)?;
         // check if the previous element in Chains has a lower block_height
         let mut current_position = fork_position;
-        let mut current_height = fork.max_height;
+        let current_height = fork.max_height;
 
         // swap elements as long as previous block height is smaller
         while current_position > 0 {
@@ -1207,9 +1207,8 @@ impl<T: Config> Pallet<T> {
                     Self::swap_chain(prev_position, current_position);
                 }
 
-                // update the current chain to the previous one
+                // the fork is now at the previous position
                 current_position = prev_position;
-                current_height = prev_height;
             } else {
                 break;
             }
-- 
2.43.0


From 0db2fb36ebf42a331913dfb725357fa10fe3d619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 06/33] fix: find the start of the difficulty period of a fork
 in the chain it forked from

get_last_retarget_time looked for the first block of the period in the fork's
own chain only, so every fork that started within a period was rejected with
MissingBlockHeight at the next retarget. After a stale block just before a
retarget the relay could no longer follow the longest chain.
---
 crates/btc-relay/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/btc-relay/src/lib.rs b/crates/btc-relay/src/lib.rs
index 631aea2..dd9e293 100644
--- a/crates/btc-relay/src/lib.rs
+++ b/crates/btc-relay/src/lib.rs
@@ -994,8 +994,15 @@ impl<T: Config> Pallet<T> {
     /// * `chain_id` - BlockChain identifier
     /// * `block_height` - current block height
     fn get_last_retarget_time(chain_id: u32, block_height: u32) -> Result<u64, DispatchError> {
-        let block_chain = Self::get_block_chain_from_id(chain_id)?;
+        let mut block_chain = Self::get_block_chain_from_id(chain_id)?;
         let period_start_height = block_height - DIFFICULTY_ADJUSTMENT_INTERVAL;
+        // a fork that started after the period did only holds the blocks from its own start on,
+        // so follow it down to the chain that holds the first block of the period
+        while period_start_height < block_chain.start_height {
+            let first_header = Self::get_block_header_from_height(&block_chain, block_chain.start_height)?;
+            let parent_header = Self::get_block_header_from_hash(first_header.block_header.hash_prev_block)?;
+            block_chain = Self::get_block_chain_from_id(parent_header.chain_id)?;
+        }
         let last_retarget_header = Self::get_block_header_from_height(&block_chain, period_start_height)?;
         Ok(last_retarget_header.block_header.timestamp as u64)
     }
-- 
2.43.0


From 95a8bee322bf2db31eb00daa111a859cc63a0ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 07/33] fix: count length prefixes of 75, 65535 and 2^32-1 in
 their shortest form when estimating transaction sizes

---
 crates/bitcoin/src/utils.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/bitcoin/src/utils.rs b/crates/bitcoin/src/utils.rs
index 5d1ab42..28b8a14 100644
--- a/crates/bitcoin/src/utils.rs
+++ b/crates/bitcoin/src/utils.rs
@@ -128,7 +128,7 @@ pub struct TransactionOutputMetadata {
 }
 
 const fn script_length_size(length: u32) -> u32 {
-    if length < 75 {
+    if length <= 75 {
         1
     } else if length <= 255 {
         2
@@ -142,12 +142,10 @@ const fn script_length_size(length: u32) -> u32 {
 const fn var_int_size(length: u32) -> u32 {
     if length < 253 {
         1
-    } else if length < 65535 {
+    } else if length <= 65535 {
         3
-    } else if length < 4294967295 {
-        5
     } else {
-        9
+        5
     }
 }
 
-- 
2.43.0


From 7e400f0da011d790f5034ea91c9670877681a8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:03 +0000
Subject: [PATCH 08/33] fix: report the issuable tokens of a vault that accepts
 no issues in its wrapped currency

---
 crates/vault-registry/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/vault-registry/src/lib.rs b/crates/vault-registry/src/lib.rs
index c89e03a..46580c3 100644
--- a/crates/vault-registry/src/lib.rs
+++ b/crates/vault-registry/src/lib.rs
@@ -1778,7 +1778,7 @@ impl<T: Config> Pallet<T> {
         // make sure the vault accepts new issue requests.
         // NOTE: get_vaults_with_issuable_tokens depends on this check
         if vault.data.status != VaultStatus::Active(true) {
-            Ok(Amount::new(0u32.into(), vault_id.currencies.collateral))
+            Ok(Amount::new(0u32.into(), vault_id.wrapped_currency()))
         } else {
             vault.issuable_tokens()
         }
-- 
2.43.0


From 42d0f136350d51091a412c6615e354593bbd6cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:03 +0000
Subject: [PATCH 09/33] fix: restore the reward stake of a recovered vault

---
 crates/vault-registry/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/vault-registry/src/lib.rs b/crates/vault-registry/src/lib.rs
index 46580c3..5983afa 100644
--- a/crates/vault-registry/src/lib.rs
+++ b/crates/vault-registry/src/lib.rs
@@ -386,6 +386,7 @@ pub mod pallet {
 
             // Vault accepts new issues by default
             vault.set_accept_new_issues(true)?;
+            PoolManager::<T>::on_vault_settings_change(&vault_id)?;
 
             Ok(())
         }
-- 
2.43.0


From 46a61107feb38ee5af2fed26b3af086accd99375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:03 +0000
Subject: [PATCH 10/33] fix: withdraw the stake of a liquidated vault from the
 capacity pool too

---
 crates/vault-registry/src/types.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/vault-registry/src/types.rs b/crates/vault-registry/src/types.rs
index cb57a18..73633ae 100644
--- a/crates/vault-registry/src/types.rs
+++ b/crates/vault-registry/src/types.rs
@@ -624,9 +624,6 @@ impl<T: Config> RichVault<T> {
         liquidation_vault.increase_to_be_redeemed(&self.to_be_redeemed_tokens())?;
         // todo: clear replace collateral?
 
-        // withdraw stake from the reward pool
-        ext::reward::set_stake::<T>(&vault_id, &Amount::zero(vault_id.wrapped_currency()))?;
-
         // Update vault: clear to_be_issued & issued_tokens, but don't touch to_be_redeemed
         let _ = self.update(|v| {
             v.to_be_issued_tokens = Zero::zero();
@@ -635,6 +632,9 @@ impl<T: Config> RichVault<T> {
             Ok(())
         });
 
+        // withdraw stake from the reward pool, and propagate to the capacity pool
+        PoolManager::<T>::update_reward_stake(&vault_id)?;
+
         Ok(liquidated_collateral_excluding_to_be_redeemed)
     }
 
-- 
2.43.0


From 11204689fe81bee6e0d2588dca576d7b6fffe5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:03 +0000
Subject: [PATCH 11/33] fix: report the tokens actually taken from a replace
 request in the event

---
 crates/vault-registry/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/vault-registry/src/lib.rs b/crates/vault-registry/src/lib.rs
index 5983afa..148ea6d 100644
--- a/crates/vault-registry/src/lib.rs
+++ b/crates/vault-registry/src/lib.rs
@@ -1092,7 +1092,7 @@ impl<T: Config> Pallet<T> {
 
         Self::deposit_event(Event::<T>::DecreaseToBeReplacedTokens {
             vault_id: vault.id(),
-            decrease: tokens.amount(),
+            decrease: used_tokens.amount(),
         });
 
         Ok((used_tokens, used_collateral))
-- 
2.43.0


From 9439ce4c77426c74ed4f3a9b8a9844ec8e25b3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:08 +0000
Subject: [PATCH 12/33] fix: keep the median of two oracle values from
 overflowing and freezing the price

---
 crates/oracle/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/oracle/src/lib.rs b/crates/oracle/src/lib.rs
index 3af135e..89113f9 100644
--- a/crates/oracle/src/lib.rs
+++ b/crates/oracle/src/lib.rs
@@ -352,10 +352,11 @@ impl<T: Config> Pallet<T> {
                 // even number - get avg of 2 values
                 let value_1 = raw_values.get(mid_index.checked_sub(1)?)?;
                 let value_2 = raw_values.get(mid_index)?;
-                let value = value_1
-                    .checked_add(&value_2)?
+                // sorted, so `value_2 >= value_1`; the sum of the two could overflow
+                let half_difference = value_2
+                    .checked_sub(value_1)?
                     .checked_div(&UnsignedFixedPoint::<T>::from(2u32.into()))?;
-                Some(value)
+                value_1.checked_add(&half_difference)
             }
             _ => Some(*raw_values.get(mid_index)?),
         }
-- 
2.43.0


From 642a9eebda4b2a78ac74acbe2c0f1d127a375670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:42 +0000
Subject: [PATCH 13/33] fix: apply slashes to and check the stake of the
 staking pool that is withdrawn from

---
 crates/staking/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/staking/src/lib.rs b/crates/staking/src/lib.rs
index 61a7583..527bc88 100644
--- a/crates/staking/src/lib.rs
+++ b/crates/staking/src/lib.rs
@@ -378,7 +378,7 @@ impl<T: Config> Pallet<T> {
         amount: SignedFixedPoint<T>,
     ) -> DispatchResult {
         let nonce = Self::nonce(vault_id);
-        Self::apply_slash(vault_id, nominator_id)?;
+        Self::apply_slash(nonce, vault_id, nominator_id)?;
 
         checked_add_mut!(Stake<T>, nonce, (vault_id, nominator_id), &amount);
         checked_add_mut!(TotalStake<T>, nonce, vault_id, &amount);
@@ -601,10 +601,10 @@ impl<T: Config> Pallet<T> {
     }
 
     fn apply_slash(
+        nonce: T::Nonce,
         vault_id: &DefaultVaultId<T>,
         nominator_id: &T::AccountId,
     ) -> Result<SignedFixedPoint<T>, DispatchError> {
-        let nonce = Self::nonce(vault_id);
         let stake = Self::stake_at_index(nonce, vault_id, nominator_id);
         let slash_per_token = Self::slash_per_token_at_index(nonce, vault_id);
         let slash_tally = Self::slash_tally_at_index(nonce, vault_id, nominator_id);
@@ -630,7 +630,7 @@ impl<T: Config> Pallet<T> {
         index: Option<T::Nonce>,
     ) -> DispatchResult {
         let nonce = index.unwrap_or(Self::nonce(vault_id));
-        let stake = Self::apply_slash(vault_id, nominator_id)?;
+        let stake = Self::apply_slash(nonce, vault_id, nominator_id)?;
 
         if amount.is_zero() {
             return Ok(());
@@ -696,7 +696,7 @@ impl<T: Config> Pallet<T> {
         vault_id: &DefaultVaultId<T>,
         nominator_id: &T::AccountId,
     ) -> Result<<SignedFixedPoint<T> as FixedPointNumber>::Inner, DispatchError> {
-        Self::apply_slash(vault_id, nominator_id)?;
+        Self::apply_slash(nonce, vault_id, nominator_id)?;
 
         let reward = Self::compute_reward_at_index(nonce, currency_id, vault_id, nominator_id)?;
         let reward_as_fixed = SignedFixedPoint::<T>::checked_from_integer(reward).ok_or(Error::<T>::TryIntoIntError)?;
-- 
2.43.0


From 96698feafae82984a6acdfc637e130fbcfd566f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:50 +0000
Subject: [PATCH 14/33] fix: deduct nominated collateral from the system total
 once when a vault opts out

---
 crates/nomination/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/nomination/src/lib.rs b/crates/nomination/src/lib.rs
index 843afb2..d5d52a2 100644
--- a/crates/nomination/src/lib.rs
+++ b/crates/nomination/src/lib.rs
@@ -254,7 +254,10 @@ impl<T: Config> Pallet<T> {
         amount.unlock_on(&vault_id.account_id)?;
         amount.transfer(&vault_id.account_id, &nominator_id)?;
 
-        ext::vault_registry::decrease_total_backing_collateral(&vault_id.currencies, &amount)?;
+        // the nominations in stale pools stopped backing the vault when it opted out
+        if index == nonce {
+            ext::vault_registry::decrease_total_backing_collateral(&vault_id.currencies, &amount)?;
+        }
 
         Self::deposit_event(Event::<T>::WithdrawCollateral {
             vault_id: vault_id.clone(),
-- 
2.43.0


From 79cd741a0731355977e0c705d5e586c0996263ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:41 +0000
Subject: [PATCH 15/33] fix: XCM Transact filter let calls wrapped by
 with_fee_swap_path through

---
 parachain/runtime/interlay/src/xcm_config.rs | 6 +++++-
 parachain/runtime/kintsugi/src/xcm_config.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/parachain/runtime/interlay/src/xcm_config.rs b/parachain/runtime/interlay/src/xcm_config.rs
index 0baafdd..306e982 100644
--- a/parachain/runtime/interlay/src/xcm_config.rs
+++ b/parachain/runtime/interlay/src/xcm_config.rs
@@ -176,7 +176,11 @@ impl Contains<RuntimeCall> for SafeCallFilter {
         // we need to filter all calls that can recurse. We're being a bit overly conservative here
         // by completely blocking the pallets below rather than filter per specific call.
         match call {
-            RuntimeCall::Sudo(..) | RuntimeCall::Proxy(..) | RuntimeCall::Multisig(..) | RuntimeCall::Utility(..) => {
+            RuntimeCall::Sudo(..)
+            | RuntimeCall::Proxy(..)
+            | RuntimeCall::Multisig(..)
+            | RuntimeCall::Utility(..)
+            | RuntimeCall::MultiTransactionPayment(..) => {
                 // these calls can recurse - disallow
                 false
             }
diff --git a/parachain/runtime/kintsugi/src/xcm_config.rs b/parachain/runtime/kintsugi/src/xcm_config.rs
index d853546..2aaab96 100644
--- a/parachain/runtime/kintsugi/src/xcm_config.rs
+++ b/parachain/runtime/kintsugi/src/xcm_config.rs
@@ -170,7 +170,11 @@ impl Contains<RuntimeCall> for SafeCallFilter {
         // we need to filter all calls that can recurse. We're being a bit overly conservative here
         // by completly blocking the pallets below rather than filter per specific call.
         match call {
-            RuntimeCall::Sudo(..) | RuntimeCall::Proxy(..) | RuntimeCall::Multisig(..) | RuntimeCall::Utility(..) => {
+            RuntimeCall::Sudo(..)
+            | RuntimeCall::Proxy(..)
+            | RuntimeCall::Multisig(..)
+            | RuntimeCall::Utility(..)
+            | RuntimeCall::MultiTransactionPayment(..) => {
                 // these calls can recurse - disallow
                 false
             }
-- 
2.43.0


From 7abe87518b752d9a588d292aa65df395d43242eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:35 +0000
Subject: [PATCH 16/33] fix: validate the new liquidation reserve factor when
 updating a market

---
 crates/loans/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/loans/src/lib.rs b/crates/loans/src/lib.rs
index e1f4d83..2c76bbe 100644
--- a/crates/loans/src/lib.rs
+++ b/crates/loans/src/lib.rs
@@ -775,7 +775,7 @@ pub mod pallet {
                 Error::<T>::InvalidFactor
             );
             ensure!(
-                market.liquidate_incentive_reserved_factor < Ratio::one(),
+                liquidate_incentive_reserved_factor < Ratio::one(),
                 Error::<T>::InvalidFactor,
             );
             ensure!(supply_cap > Zero::zero(), Error::<T>::InvalidSupplyCap);
-- 
2.43.0


From 44727b0942c549c77f2602c60fbc35c7778968b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:35 +0000
Subject: [PATCH 17/33] fix: settle the borrower's reward, not the
 liquidator's, before a liquidation reduces the debt

---
 crates/loans/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/loans/src/lib.rs b/crates/loans/src/lib.rs
index 2c76bbe..b59f3ba 100644
--- a/crates/loans/src/lib.rs
+++ b/crates/loans/src/lib.rs
@@ -1595,7 +1595,7 @@ impl<T: Config> Pallet<T> {
 
         // update borrow index after accrue interest.
         Self::update_reward_borrow_index(liquidation_asset_id)?;
-        Self::distribute_borrower_reward(liquidation_asset_id, liquidator)?;
+        Self::distribute_borrower_reward(liquidation_asset_id, borrower)?;
 
         // 1.liquidator repays borrower's debt,
         // transfer from liquidator to module account
-- 
2.43.0


From d641e5ee9ae5d3251e19127e314c265dcce98a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:45 +0000
Subject: [PATCH 18/33] fix: let a liquidation repay a debt whose rounded-down
 total is smaller

---
 crates/loans/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/loans/src/lib.rs b/crates/loans/src/lib.rs
index b59f3ba..84b8817 100644
--- a/crates/loans/src/lib.rs
+++ b/crates/loans/src/lib.rs
@@ -1604,7 +1604,8 @@ impl<T: Config> Pallet<T> {
         // 2.the system reduces borrower's debt
         let account_borrows_new =
             Self::current_borrow_balance(borrower, liquidation_asset_id)?.checked_sub(&repayment)?;
-        let total_borrows_new = Self::total_borrows(liquidation_asset_id).checked_sub(&repayment)?;
+        // Use `saturating_sub` here because `total_borrows` is rounded down, see `do_repay_borrow_with_amount`.
+        let total_borrows_new = Self::total_borrows(liquidation_asset_id).saturating_sub(&repayment)?;
         AccountBorrows::<T>::insert(
             liquidation_asset_id,
             borrower,
-- 
2.43.0


From b00173bb682c05e9cd76f29dc42eeb00de5133c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:01 +0000
Subject: [PATCH 19/33] fix: reject a jump rate model whose jump utilisation is
 zero

---
 crates/loans/src/rate_model.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/loans/src/rate_model.rs b/crates/loans/src/rate_model.rs
index 80af6aa..c967bbd 100644
--- a/crates/loans/src/rate_model.rs
+++ b/crates/loans/src/rate_model.rs
@@ -137,6 +137,10 @@ impl JumpModel {
         if self.base_rate > self.jump_rate || self.jump_rate > self.full_rate {
             return false;
         }
+        // `get_borrow_rate` divides by the jump utilization
+        if self.jump_utilization.is_zero() {
+            return false;
+        }
 
         true
     }
-- 
2.43.0


From 13bc1264cdb10b3d15cdd98e7515e602b66423e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:22 +0000
Subject: [PATCH 20/33] fix: check the invariant of each pair with its reserves
 at the time of the swap

The amounts along a path were calculated, and their invariants checked,
with the reserves before the first hop. A path through the same pair
more than once, such as A B C A B, swapped at stale prices and decreased
the pair's invariant at the expense of its liquidity providers.
---
 crates/dex-general/src/swap/mod.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/crates/dex-general/src/swap/mod.rs b/crates/dex-general/src/swap/mod.rs
index ddddf6c..209aac2 100644
--- a/crates/dex-general/src/swap/mod.rs
+++ b/crates/dex-general/src/swap/mod.rs
@@ -558,6 +558,23 @@ impl<T: Config> Pallet<T> {
 
             let pair_account = Self::pair_account_id(asset_0, asset_1);
 
+            // The amounts were calculated with the reserves before the first hop: if the path
+            // passes through a pair more than once, its reserves have changed since.
+            let reserve_in = T::MultiCurrency::free_balance(input, &pair_account);
+            let reserve_out = T::MultiCurrency::free_balance(output, &pair_account);
+            let invariant_before_swap: U256 = reserve_in
+                .checked_sub(amounts[i])
+                .and_then(|n| U256::from(n).checked_mul(U256::from(reserve_out)))
+                .ok_or(Error::<T>::Overflow)?;
+            let invariant_after_swap: U256 = reserve_out
+                .checked_sub(amounts[i + 1])
+                .and_then(|n| U256::from(n).checked_mul(U256::from(reserve_in)))
+                .ok_or(Error::<T>::Overflow)?;
+            ensure!(
+                invariant_after_swap >= invariant_before_swap,
+                Error::<T>::InvariantCheckFailed,
+            );
+
             if i < (amounts.len() - 2) {
                 let mid_account = Self::pair_account_id(output, path[i + 2]);
                 Self::pair_swap(asset_0, asset_1, &pair_account, amount0_out, amount1_out, &mid_account)?;
-- 
2.43.0


From a88e21edd0660a7ef6601b56f77230de67ecb1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:32 +0000
Subject: [PATCH 21/33] fix: share the reserves with the protocol fee when
 removing liquidity

The withdrawn amounts were calculated with the supply before the protocol
fee was minted, so the fee receiver's share was paid out of the remaining
liquidity. After removing all liquidity the minted fee was left without
any reserves, and adding liquidity to the pair failed from then on.
---
 crates/dex-general/src/swap/mod.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/crates/dex-general/src/swap/mod.rs b/crates/dex-general/src/swap/mod.rs
index 209aac2..e030090 100644
--- a/crates/dex-general/src/swap/mod.rs
+++ b/crates/dex-general/src/swap/mod.rs
@@ -157,14 +157,6 @@ impl<T: Config> Pallet<T> {
                 let reserve_0 = T::MultiCurrency::free_balance(asset_0, &parameter.pair_account);
                 let reserve_1 = T::MultiCurrency::free_balance(asset_1, &parameter.pair_account);
 
-                let amount_0 = Self::calculate_share_amount(remove_liquidity, parameter.total_supply, reserve_0);
-                let amount_1 = Self::calculate_share_amount(remove_liquidity, parameter.total_supply, reserve_1);
-
-                ensure!(
-                    amount_0 >= amount_0_min && amount_1 >= amount_1_min,
-                    Error::<T>::InsufficientTargetAmount
-                );
-
                 let lp_asset_id = Self::lp_pairs(pair).ok_or(Error::<T>::InsufficientAssetBalance)?;
 
                 let mint_fee = Self::mint_protocol_fee(reserve_0, reserve_1, asset_0, asset_1, parameter.total_supply)?;
@@ -178,6 +170,15 @@ impl<T: Config> Pallet<T> {
                     }
                 }
 
+                // the fee is part of the supply that shares the reserves
+                let amount_0 = Self::calculate_share_amount(remove_liquidity, parameter.total_supply, reserve_0);
+                let amount_1 = Self::calculate_share_amount(remove_liquidity, parameter.total_supply, reserve_1);
+
+                ensure!(
+                    amount_0 >= amount_0_min && amount_1 >= amount_1_min,
+                    Error::<T>::InsufficientTargetAmount
+                );
+
                 parameter.total_supply = parameter
                     .total_supply
                     .checked_sub(remove_liquidity)
-- 
2.43.0


From f3f25b992e89eb02859f4edf40e361240acc73c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:32 +0000
Subject: [PATCH 22/33] fix: report each capacity for its own asset when a
 bootstrap is created

---
 crates/dex-general/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/dex-general/src/lib.rs b/crates/dex-general/src/lib.rs
index 3547be2..55c6ff0 100644
--- a/crates/dex-general/src/lib.rs
+++ b/crates/dex-general/src/lib.rs
@@ -833,8 +833,8 @@ pub mod pallet {
                 asset_1: pair.1,
                 total_supply_0: target_supply_0,
                 total_supply_1: target_supply_1,
-                capacity_supply_0: capacity_supply_1,
-                capacity_supply_1: capacity_supply_0,
+                capacity_supply_0,
+                capacity_supply_1,
                 end,
             });
             Ok(())
-- 
2.43.0


From 5df9c7a6dba32bb2512f9ee5ce7eb98085e4b565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:55 +0000
Subject: [PATCH 23/33] fix: farming schedules no longer spend rewards that are
 distributed but unclaimed

---
 crates/farming/src/lib.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/farming/src/lib.rs b/crates/farming/src/lib.rs
index 17afa32..0daadb8 100644
--- a/crates/farming/src/lib.rs
+++ b/crates/farming/src/lib.rs
@@ -43,7 +43,7 @@ use primitives::CurrencyId;
 use reward::RewardsApi;
 use scale_info::TypeInfo;
 use sp_runtime::{
-    traits::{AccountIdConversion, AtLeast32Bit, CheckedDiv, Saturating, Zero},
+    traits::{AccountIdConversion, AtLeast32Bit, CheckedAdd, CheckedDiv, Saturating, Zero},
     ArithmeticError, DispatchError,
 };
 use sp_std::vec::Vec;
@@ -232,8 +232,13 @@ pub mod pallet {
                     .period_count
                     .checked_add(period_count)
                     .ok_or(ArithmeticError::Overflow)?;
-                let total_free = T::MultiCurrency::free_balance(reward_currency_id, &pool_account_id);
-                let total_per_period = total_free.checked_div(&total_period_count.into()).unwrap_or_default();
+                // rewards which were distributed but not yet claimed are
+                // still held by the pool account, so do not use its balance
+                let total_amount = reward_schedule
+                    .total()
+                    .and_then(|remaining| remaining.checked_add(&amount))
+                    .ok_or(ArithmeticError::Overflow)?;
+                let total_per_period = total_amount.checked_div(&total_period_count.into()).unwrap_or_default();
 
                 reward_schedule.period_count = total_period_count;
                 reward_schedule.per_period = total_per_period;
@@ -261,14 +266,17 @@ pub mod pallet {
             ensure_root(origin)?;
             pool_currency_id.sort();
 
-            // transfer unspent rewards to treasury
+            // transfer unspent rewards to treasury, rewards which were
+            // distributed but not yet claimed must stay in the pool account
             let treasury_account_id = T::TreasuryAccountId::get();
             let pool_account_id = Self::pool_account_id(&pool_currency_id);
             T::MultiCurrency::transfer(
                 reward_currency_id,
                 &pool_account_id,
                 &treasury_account_id,
-                T::MultiCurrency::free_balance(reward_currency_id, &pool_account_id),
+                RewardSchedules::<T>::get(pool_currency_id, reward_currency_id)
+                    .total()
+                    .ok_or(ArithmeticError::Overflow)?,
             )?;
 
             RewardSchedules::<T>::remove(pool_currency_id, reward_currency_id);
-- 
2.43.0


From c0c1f7ea3675b37101a7ca48bd475c53d81140e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:46 +0000
Subject: [PATCH 24/33] fix: swapping from a base pool fails instead of
 panicking on an unknown currency index

---
 crates/dex-stable/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/dex-stable/src/lib.rs b/crates/dex-stable/src/lib.rs
index 18cfb5f..572289c 100644
--- a/crates/dex-stable/src/lib.rs
+++ b/crates/dex-stable/src/lib.rs
@@ -1406,7 +1406,9 @@ impl<T: Config> Pallet<T> {
         let base_pool_len = base_pool.currency_ids.len();
 
         let mut base_amounts = vec![Balance::default(); base_pool_len];
-        base_amounts[in_index as usize] = dx;
+        *base_amounts
+            .get_mut(in_index as usize)
+            .ok_or(Error::<T>::CurrencyIndexOutRange)? = dx;
 
         let base_lp_amount = Self::inner_add_liquidity(who, base_pool_id, &base_amounts, 0, who)?;
 
-- 
2.43.0


From 25c2aeda667a859815e0b6982a923f3e1678d2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:46 +0000
Subject: [PATCH 25/33] fix: swapping from a base pool to its lp currency
 respects the minimum and the recipient

---
 crates/dex-stable/src/lib.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/crates/dex-stable/src/lib.rs b/crates/dex-stable/src/lib.rs
index 572289c..31ba3ee 100644
--- a/crates/dex-stable/src/lib.rs
+++ b/crates/dex-stable/src/lib.rs
@@ -1410,20 +1410,22 @@ impl<T: Config> Pallet<T> {
             .get_mut(in_index as usize)
             .ok_or(Error::<T>::CurrencyIndexOutRange)? = dx;
 
+        if base_pool_lp_currency_in_meta_index == (out_index as usize) {
+            // the lp currency of the base pool is what was asked for
+            return Self::inner_add_liquidity(who, base_pool_id, &base_amounts, min_dy, to);
+        }
+
         let base_lp_amount = Self::inner_add_liquidity(who, base_pool_id, &base_amounts, 0, who)?;
 
-        let mut out_amount: Balance = 0;
-        if base_pool_lp_currency_in_meta_index != (out_index as usize) {
-            out_amount = Self::inner_swap(
-                who,
-                meta_pool_id,
-                base_pool_lp_currency_in_meta_index,
-                out_index as usize,
-                base_lp_amount,
-                min_dy,
-                to,
-            )?;
-        }
+        let out_amount = Self::inner_swap(
+            who,
+            meta_pool_id,
+            base_pool_lp_currency_in_meta_index,
+            out_index as usize,
+            base_lp_amount,
+            min_dy,
+            to,
+        )?;
 
         Ok(out_amount)
     }
-- 
2.43.0


From 30b44d61b3df976e57479234419a12dea7cf39ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:46 +0000
Subject: [PATCH 26/33] fix: the lp currency of a base pool can be swapped to
 the base pool

---
 crates/dex-stable/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dex-stable/src/lib.rs b/crates/dex-stable/src/lib.rs
index 31ba3ee..1f92568 100644
--- a/crates/dex-stable/src/lib.rs
+++ b/crates/dex-stable/src/lib.rs
@@ -1444,7 +1444,7 @@ impl<T: Config> Pallet<T> {
         let base_pool_currency_index =
             Self::get_currency_index(pool_id, base_pool_currency).ok_or(Error::<T>::InvalidBasePool)?;
 
-        let mut base_lp_amount = Balance::default();
+        let mut base_lp_amount = dx;
         if base_pool_currency_index != in_index {
             base_lp_amount = Self::inner_swap(
                 who,
-- 
2.43.0


From 4c28635fd7fa4eb05af6b5f7bbf4a13c3ecf52b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:46 +0000
Subject: [PATCH 27/33] fix: an underlying swap within the base pool reports
 the amount that was paid

---
 crates/dex-stable/src/meta_pool.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dex-stable/src/meta_pool.rs b/crates/dex-stable/src/meta_pool.rs
index 4ccaa4f..b139dea 100644
--- a/crates/dex-stable/src/meta_pool.rs
+++ b/crates/dex-stable/src/meta_pool.rs
@@ -456,7 +456,7 @@ impl<T: Config> Pallet<T> {
                 currency_index_to - base_lp_currency_index,
                 dx,
                 min_out_amount,
-                to,
+                &meta_pool.info.account,
             )?;
             dy = T::MultiCurrency::free_balance(currency_to, &meta_pool.info.account)
                 .checked_sub(dy)
-- 
2.43.0


From 545cb8b01bffc1de05bf36ed1246358aae61227c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:54 +0000
Subject: [PATCH 28/33] fix: dex-stable: meta pool quotes price the base LP
 currency with the base pool's virtual price

The quotes of swaps in a meta pool used the meta pool's own virtual price where
the swaps use that of the base pool.
---
 crates/dex-stable/src/meta_pool.rs | 4 ++--
 crates/dex-stable/src/traits.rs    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/dex-stable/src/meta_pool.rs b/crates/dex-stable/src/meta_pool.rs
index b139dea..3fbfb03 100644
--- a/crates/dex-stable/src/meta_pool.rs
+++ b/crates/dex-stable/src/meta_pool.rs
@@ -532,7 +532,7 @@ impl<T: Config> Pallet<T> {
         Some(xp)
     }
 
-    fn meta_pool_base_virtual_price(
+    pub(crate) fn meta_pool_base_virtual_price(
         meta_pool: &MetaPool<T::PoolId, T::CurrencyId, T::AccountId, T::PoolCurrencyLimit, T::PoolCurrencySymbolLimit>,
     ) -> Option<Balance> {
         let now = T::TimeProvider::now().as_secs();
@@ -811,7 +811,7 @@ impl<T: Config> Pallet<T> {
             .checked_sub(One::one())
             .ok_or(Error::<T>::Arithmetic)?;
 
-        let base_virtual_price = Self::calculate_meta_virtual_price(&meta_pool).ok_or(Error::<T>::Arithmetic)?;
+        let base_virtual_price = Self::meta_pool_base_virtual_price(&meta_pool).ok_or(Error::<T>::Arithmetic)?;
 
         let base_pool_currency_len = meta_pool.base_currencies.len();
 
diff --git a/crates/dex-stable/src/traits.rs b/crates/dex-stable/src/traits.rs
index ad8a805..39ebe86 100644
--- a/crates/dex-stable/src/traits.rs
+++ b/crates/dex-stable/src/traits.rs
@@ -126,7 +126,7 @@ impl<T: Config> StableAmmApi<T::PoolId, T::CurrencyId, T::AccountId, Balance> fo
             return match pool {
                 Pool::Base(bp) => Self::calculate_base_swap_amount(&bp, i, j, in_balance),
                 Pool::Meta(mp) => {
-                    let virtual_price = Self::calculate_meta_virtual_price(&mp)?;
+                    let virtual_price = Self::meta_pool_base_virtual_price(&mp)?;
                     let res = Self::calculate_meta_swap_amount(&mp, i, j, in_balance, virtual_price)?;
                     Some(res.0)
                 }
-- 
2.43.0


From 1c2f5816f4da33f0483cb70ed904593bac4fe0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:14 +0000
Subject: [PATCH 29/33] fix: advance LowestUnbaked past finished referenda in
 democracy

begin_block never moved the index, so every block read every referendum there ever was.
---
 crates/democracy/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/democracy/src/lib.rs b/crates/democracy/src/lib.rs
index ceb7c63..bd0dad4 100644
--- a/crates/democracy/src/lib.rs
+++ b/crates/democracy/src/lib.rs
@@ -948,6 +948,16 @@ impl<T: Config> Pallet<T> {
             weight = max_block_weight;
         }
 
+        // skip the referenda at the front that are finished or cancelled
+        LowestUnbaked::<T>::mutate(|ref_index| {
+            while *ref_index < last
+                && Self::referendum_info(*ref_index)
+                    .map_or(true, |info| matches!(info, ReferendumInfo::Finished { .. }))
+            {
+                *ref_index += 1;
+            }
+        });
+
         Ok(weight)
     }
 
-- 
2.43.0


From 3b76611a5c78f052274a17ebcdc062eebefb3f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:46 +0000
Subject: [PATCH 30/33] fix: dex-stable: get_currency returns the currency at
 the index instead of indexing out of bounds

---
 crates/dex-stable/src/rpc.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/dex-stable/src/rpc.rs b/crates/dex-stable/src/rpc.rs
index e15701b..4a40822 100644
--- a/crates/dex-stable/src/rpc.rs
+++ b/crates/dex-stable/src/rpc.rs
@@ -56,9 +56,7 @@ impl<T: Config> Pallet<T> {
     pub fn get_currency(pool_id: T::PoolId, index: u32) -> Option<T::CurrencyId> {
         if let Some(pool) = Self::pools(pool_id) {
             let currency_ids = pool.get_currency_ids();
-            if currency_ids.len() < index as usize {
-                return Some(currency_ids[index as usize]);
-            }
+            return currency_ids.get(index as usize).copied();
         };
         None
     }
-- 
2.43.0


From 912789aac02cf46a57f8b239d3ca27f10880b91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:46 +0000
Subject: [PATCH 31/33] fix: dexStable_getAPrecise reports the precise
 amplification, not the rounded one times 100

---
 parachain/runtime/interlay/src/lib.rs | 2 +-
 parachain/runtime/kintsugi/src/lib.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parachain/runtime/interlay/src/lib.rs b/parachain/runtime/interlay/src/lib.rs
index 90daff8..3b953b7 100644
--- a/parachain/runtime/interlay/src/lib.rs
+++ b/parachain/runtime/interlay/src/lib.rs
@@ -1663,7 +1663,7 @@ impl_runtime_apis! {
         }
 
         fn get_a_precise(pool_id: StablePoolId) -> Balance {
-            DexStable::get_a(pool_id) * 100
+            DexStable::get_a_precise_by_id(pool_id)
         }
 
         fn get_currencies(pool_id: StablePoolId) -> Vec<CurrencyId> {
diff --git a/parachain/runtime/kintsugi/src/lib.rs b/parachain/runtime/kintsugi/src/lib.rs
index e689706..e30d92a 100644
--- a/parachain/runtime/kintsugi/src/lib.rs
+++ b/parachain/runtime/kintsugi/src/lib.rs
@@ -1928,7 +1928,7 @@ impl_runtime_apis! {
         }
 
         fn get_a_precise(pool_id: StablePoolId) -> Balance {
-            DexStable::get_a(pool_id) * 100
+            DexStable::get_a_precise_by_id(pool_id)
         }
 
         fn get_currencies(pool_id: StablePoolId) -> Vec<CurrencyId> {
-- 
2.43.0


From a8fa809a0c3b9b3b564f9ca2e2afa38b87096a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:46 +0000
Subject: [PATCH 32/33] fix: a malformed address passed to the btc-relay chain
 extension fails the call instead of panicking

---
 parachain/runtime/kintsugi/src/contracts.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parachain/runtime/kintsugi/src/contracts.rs b/parachain/runtime/kintsugi/src/contracts.rs
index 0c5d778..130ae0d 100644
--- a/parachain/runtime/kintsugi/src/contracts.rs
+++ b/parachain/runtime/kintsugi/src/contracts.rs
@@ -230,7 +230,8 @@ impl ChainExtension<Runtime> for BtcRelayExtension {
                 let (unchecked_proof, btc_address): (FullTransactionProof, Vec<u8>) =
                     env.read_as_unbounded(env.in_len())?;
 
-                let btc_address = Decode::decode(&mut &btc_address[..]).unwrap();
+                let btc_address =
+                    Decode::decode(&mut &btc_address[..]).map_err(|_| DispatchError::Other("Invalid btc address"))?;
                 let sats: Option<u64> =
                     btc_relay::Pallet::<Runtime>::get_and_verify_issue_payment::<Balance>(unchecked_proof, btc_address)
                         .ok()
-- 
2.43.0


From f7fb159a007b606b17e29973d12860629490dd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:26 +0000
Subject: [PATCH 33/33] fix: interlay names Polkadot, not Kusama, as the
 network of its parent chain and its accounts

---
 parachain/runtime/interlay/src/xcm_config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parachain/runtime/interlay/src/xcm_config.rs b/parachain/runtime/interlay/src/xcm_config.rs
index 306e982..ec2e6a3 100644
--- a/parachain/runtime/interlay/src/xcm_config.rs
+++ b/parachain/runtime/interlay/src/xcm_config.rs
@@ -26,7 +26,7 @@ use xcm_executor::{traits::WithOriginFilter, XcmExecutor};
 
 parameter_types! {
     pub const ParentLocation: MultiLocation = MultiLocation::parent();
-    pub const ParentNetwork: NetworkId = NetworkId::Kusama;
+    pub const ParentNetwork: NetworkId = NetworkId::Polkadot;
     pub RelayChainOrigin: RuntimeOrigin = cumulus_pallet_xcm::Origin::Relay.into();
     pub Ancestry: MultiLocation = Parachain(ParachainInfo::parachain_id().into()).into();
 }
-- 
2.43.0

