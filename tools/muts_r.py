L = "crates/btc-relay/src/lib.rs"
T = "crates/btc-relay/src/types.rs"
REFS = {
 "m-init-twice": [(L, "        ensure!(!Self::best_block_exists(), Error::<T>::AlreadyInitialized);\n", "")],
 "m-init-height": [(L, "Self::disable_difficulty_check() || block_height % DIFFICULTY_ADJUSTMENT_INTERVAL == 0,", "Self::disable_difficulty_check() || block_height % TARGET_SPACING == 0,")],
 "m-nohash": [(L, "        block_header.update_hash().map_err(Error::<T>::from)?;\n", "")],
 "m-fork-tip": [(L, "let is_new_fork = prev_blockchain.max_height != prev_block_height;", "let is_new_fork = prev_blockchain.max_height > current_block_height;")],
 "m-noverify": [(L, "        Self::verify_block_header(&basic_block_header, current_block_height, prev_header)?;\n", "")],
 "m-verify-height": [(L, "Self::verify_block_header(&basic_block_header, current_block_height, prev_header)?", "Self::verify_block_header(&basic_block_header, prev_block_height, prev_header)?")],
 "m-head": [(L, "                Self::reorganize_chains(&blockchain)?;\n            } else {\n                Self::update_chain_head(&basic_block_header, current_block_height);\n            }", "                Self::reorganize_chains(&blockchain)?;\n            }\n            Self::update_chain_head(&basic_block_header, current_block_height);")],
 "m-lowdiff": [(L, "block_header.hash.as_u256() < block_header.target,", "block_header.hash.as_u256() <= block_header.target,")],
 "m-dup": [(L, "        ensure!(\n            !Self::block_header_exists(block_header.hash),\n            Error::<T>::DuplicateBlock\n        );\n", "")],
 "m-retarget-when": [(L, "if block_height >= DIFFICULTY_ADJUSTMENT_INTERVAL && block_height % DIFFICULTY_ADJUSTMENT_INTERVAL == 0 {", "if block_height >= DIFFICULTY_ADJUSTMENT_INTERVAL && block_height % DIFFICULTY_ADJUSTMENT_INTERVAL == 1 {")],
 "m-retarget-time": [(L, "let last_block_time = prev_block_header.block_header.timestamp as u64;", "let last_block_time = first_block_time + 1209600;")],
 "m-period": [(L, "let period_start_height = block_height - DIFFICULTY_ADJUSTMENT_INTERVAL;", "let period_start_height = block_height - DIFFICULTY_ADJUSTMENT_INTERVAL + 1;")],
 "m-target-ge": [(L, "ensure!(block_header.target == expected_target,", "ensure!(block_header.target <= expected_target,")],
 "m-reorg-conf": [(L, "if prev_height.saturating_add(Self::get_stable_transaction_confirmations()) <= current_height {", "if prev_height <= current_height {")],
 "m-reorg-height": [(L, "                // the fork is now at the previous position\n                current_position = prev_position;", "                current_position = prev_position;\n                break;")],
 "m-swap-noold": [(L, "            BlockHeaders::<T>::mutate(&replaced_block_hash, |header| {\n                header.chain_id = chain_id_for_old_main_blocks\n            });\n", "")],
 "m-swap-start": [(L, "                new_fork.start_height = parent\n                    .block_height\n                    .checked_add(1)\n                    .ok_or(Error::<T>::ArithmeticOverflow)?;\n", "")],
 "m-swap-max": [(L, "                max_height: fork.max_height,\n                ..Self::get", "                max_height: fork.max_height - 1,\n                ..Self::get")],
 "m-insert-pos": [(L, "if blockchain.max_height > curr_height {", "if blockchain.max_height < curr_height {")],
 "m-insert-skip": [(L, "in chains.iter().skip(1) {", "in chains.iter().skip(2) {")],
 "m-links": [(L, "Ok((_, child)) => match", "Ok((child, _)) => match")],
 "m-cb-pos": [(L, "coinbase_proof_result.transaction_position == 0,", "coinbase_proof_result.transaction_position <= 1,")],
 "m-cb-count": [(L, "user_proof_result.tx_count == coinbase_proof_result.tx_count,", "user_proof_result.tx_count >= coinbase_proof_result.tx_count,")],
 "m-cb-self": [(L, "let coinbase_proof_result = Self::verify_merkle_proof(unchecked_transaction.coinbase_proof)?;", "let coinbase_proof_result = Self::verify_merkle_proof(unchecked_transaction.user_tx_proof.clone())?;")],
 "m-cb-is": [(L, "coinbase_proof_result.transaction.is_coinbase(),", "!user_proof_result.transaction.is_coinbase(),")],
 "m-root": [(L, "proof_result.extracted_root == block_header.merkle_root", "proof_result.extracted_root == block_header.merkle_root || block_header.merkle_root.is_zero()")],
 "m-main": [(L, "        ensure!(rich_header.chain_id == MAIN_CHAIN_ID, Error::<T>::InvalidChainID);\n", "")],
 "m-fork-check": [(L, "                    best_block_height >= next_best_fork_height + Self::get_stable_transaction_confirmations(),", "                    best_block_height >= next_best_fork_height,")],
 "m-fork-pos": [(L, "match Self::get_chain_id_from_position(1) {", "match Self::get_chain_id_from_position(2) {")],
 "m-conf": [(L, "        if main_chain_height >= required_mainchain_height {", "        if main_chain_height >= required_mainchain_height.saturating_sub(1) {")],
 "m-conf-req": [(L, "req_confs.unwrap_or_else(Self::get_stable_transaction_confirmations);", "req_confs.unwrap_or_default();")],
 "m-para": [(L, "            para_height + Self::parachain_confirmations() <= current_height,", "            para_height <= current_height + Self::parachain_confirmations(),")],
 "m-para-hdr": [(L, "        Self::check_parachain_confirmations(rich_header.para_height)?;\n", "")],
 "m-issue-any": [(L, "Ok(address) if address == recipient_btc_address => Some(x.value),", "Ok(_) => Some(x.value),")],
 "m-noincl": [(L, "let transaction = Self::_verify_transaction_inclusion(unchecked_transaction, None)?;\n\n        // Check", "let transaction = unchecked_transaction.user_tx_proof.transaction;\n\n        // Check")],
 "m-confs0": [(L, "let transaction = Self::_verify_transaction_inclusion(unchecked_transaction, None)?;\n\n        Self::get", "let transaction = Self::_verify_transaction_inclusion(unchecked_transaction, Some(1))?;\n\n        Self::get")],
 "m-opid": [(L, "            Some(op_return_id),\n", "            None,\n")],
 "m-amount": [(T, "ensure!(paid_amount == expected_amount,", "ensure!(paid_amount >= expected_amount,")],
 "m-outs": [(T, "ensure!(payments[0].1 != payments[1].1,", "ensure!(payments[0] != payments[1],")],
 "m-burn": [(T, "                ensure!(tx.value == 0, Error::<T>::InvalidOpReturnTransaction);\n", "")],
 "m-unknown": [(T, "            } else {\n                return Err(Error::<T>::InvalidOpReturnTransaction.into());\n            }", "            }")],
 "m-expire-or": [(L, "parachain_block_expired::<T>(opentime, period)?\n            && Self", "parachain_block_expired::<T>(opentime, period)?\n            || Self")],
 "m-expire-ge": [(L, "Self::get_best_block_height() > expiration_height", "Self::get_best_block_height() >= expiration_height")],
 "m-expire-round": [(L, "            .checked_sub(&BlockNumberFor::<T>::one())\n            .ok_or(Error::<T>::ArithmeticUnderflow)?\n", "")],
}
