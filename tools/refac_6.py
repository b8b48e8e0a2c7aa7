"""behaviour-preserving edits of the issue and redeem pallets"""
IS, RE = "crates/issue/src/lib.rs", "crates/redeem/src/lib.rs"
R = REFS = {}

# ---- issue
R["is-status-ne"] = [(IS, """        // ensure that the vault is accepting new issues
        ensure!(
            vault.status == VaultStatus::Active(true),
            Error::<T>::VaultNotAcceptingNewIssues
        );
""", """        // ensure that the vault is accepting new issues
        if vault.status != VaultStatus::Active(true) {
            return Err(Error::<T>::VaultNotAcceptingNewIssues.into());
        }
""")]
R["is-status-matches"] = [(IS, "            vault.status == VaultStatus::Active(true),\n            Error::<T>::VaultNotAcceptingNewIssues\n", "            matches!(vault.status, VaultStatus::Active(true)),\n            Error::<T>::VaultNotAcceptingNewIssues\n")]
R["is-dust-lt"] = [(IS, """        ensure!(
            amount_requested.ge(&Self::issue_btc_dust_value(vault_id.wrapped_currency()))?,
            Error::<T>::AmountBelowDustAmount
        );
""", """        let dust_value = Self::issue_btc_dust_value(vault_id.wrapped_currency());
        if amount_requested.lt(&dust_value)? {
            return Err(Error::<T>::AmountBelowDustAmount.into());
        }
""")]
R["is-dust-first"] = [(IS, """        // calculate griefing collateral based on the total amount of tokens to be issued
        let amount_collateral = amount_requested.convert_to(griefing_currency)?;
        let griefing_collateral = ext::fee::get_issue_griefing_collateral::<T>(&amount_collateral)?;
        griefing_collateral.lock_on(&requester)?;

        // only continue if the payment is above the dust value
        ensure!(
            amount_requested.ge(&Self::issue_btc_dust_value(vault_id.wrapped_currency()))?,
            Error::<T>::AmountBelowDustAmount
        );
""", """        // only continue if the payment is above the dust value
        ensure!(
            amount_requested.ge(&Self::issue_btc_dust_value(vault_id.wrapped_currency()))?,
            Error::<T>::AmountBelowDustAmount
        );

        let griefing_collateral = Self::lock_issue_griefing_collateral(&requester, &amount_requested, griefing_currency)?;
"""), (IS, """    fn decrease_issue_amount(
""", """    /// calculate griefing collateral based on the total amount of tokens to be issued, and lock it
    fn lock_issue_griefing_collateral(
        requester: &T::AccountId,
        amount_requested: &Amount<T>,
        griefing_currency: CurrencyId<T>,
    ) -> Result<Amount<T>, DispatchError> {
        let amount_collateral = amount_requested.convert_to(griefing_currency)?;
        let griefing_collateral = ext::fee::get_issue_griefing_collateral::<T>(&amount_collateral)?;
        griefing_collateral.lock_on(requester)?;
        Ok(griefing_collateral)
    }

    fn decrease_issue_amount(
""")]
R["is-request-locals"] = [(IS, """        let request = IssueRequest {
            vault: vault_id,
            opentime: ext::security::active_block_number::<T>(),
            requester,
            btc_address,
            btc_public_key,
            amount: amount_user.amount(),
            fee: fee.amount(),
            griefing_collateral: griefing_collateral.amount(),
            griefing_currency: griefing_collateral.currency(),
            period: Self::issue_period(),
            btc_height: ext::btc_relay::get_best_block_height::<T>(),
            status: IssueRequestStatus::Pending,
        };
""", """        let opentime = ext::security::active_block_number::<T>();
        let btc_height = ext::btc_relay::get_best_block_height::<T>();
        let request = IssueRequest {
            status: IssueRequestStatus::Pending,
            vault: vault_id,
            requester,
            amount: amount_user.amount(),
            fee: fee.amount(),
            griefing_collateral: griefing_collateral.amount(),
            griefing_currency,
            btc_address,
            btc_public_key,
            opentime,
            btc_height,
            period: IssuePeriod::<T>::get(),
        };
""")]
R["is-exec-completed-first"] = [(IS, """        let mut issue = Self::get_issue_request_from_id(&issue_id)?;
        // allow anyone to complete issue request
        let requester = issue.requester.clone();
""", """        let mut issue = Self::get_issue_request_from_id(&issue_id)?;
        ensure!(issue.status != IssueRequestStatus::Completed, Error::<T>::IssueCompleted);
        // allow anyone to complete issue request
        let requester = issue.requester.clone();
""")]
R["is-exec-if"] = [(IS, """                if amount_transferred.lt(&expected_total_amount)? {
                    ensure!(requester == executor, Error::<T>::InvalidExecutor);
                }
                if amount_transferred.ne(&expected_total_amount)? {
""", """                let underpaid = amount_transferred.lt(&expected_total_amount)?;
                ensure!(!underpaid || executor == requester, Error::<T>::InvalidExecutor);
                if !amount_transferred.eq(&expected_total_amount)? {
""")]
R["is-exec-early-cancel"] = [(IS, """                ext::vault_registry::ensure_accepting_new_issues::<T>(&issue.vault)?;

                // first try to increase the to-be-issued tokens - if the vault does not
                // have sufficient collateral then this aborts
                ext::vault_registry::try_increase_to_be_issued_tokens::<T>(&issue.vault, &amount_transferred)?;

                if amount_transferred.lt(&expected_total_amount)? {
                    ensure!(requester == executor, Error::<T>::InvalidExecutor);
                }
""", """                if amount_transferred.lt(&expected_total_amount)? && requester != executor {
                    return Err(Error::<T>::InvalidExecutor.into());
                }

                ext::vault_registry::ensure_accepting_new_issues::<T>(&issue.vault)?;

                // try to increase the to-be-issued tokens - if the vault does not
                // have sufficient collateral then this aborts
                ext::vault_registry::try_increase_to_be_issued_tokens::<T>(&issue.vault, &amount_transferred)?;
""")]
R["is-exec-release"] = [(IS, """                let to_release_griefing_collateral = if amount_transferred.lt(&expected_total_amount)? {
                    // only the requester of the issue can execute payments with insufficient amounts
                    ensure!(requester == executor, Error::<T>::InvalidExecutor);
                    Self::decrease_issue_amount(&issue_id, &mut issue, amount_transferred, expected_total_amount)?
                } else {
                    if amount_transferred.gt(&expected_total_amount)?
                        && !ext::vault_registry::is_vault_liquidated::<T>(&issue.vault)?
                    {
                        Self::try_increase_issue_amount(
                            &issue_id,
                            &mut issue,
                            amount_transferred,
                            expected_total_amount,
                        )?;
                    }
                    issue.griefing_collateral()
                };

                to_release_griefing_collateral.unlock_on(&requester)?;
""", """                if amount_transferred.lt(&expected_total_amount)? {
                    // only the requester of the issue can execute payments with insufficient amounts
                    ensure!(requester == executor, Error::<T>::InvalidExecutor);
                    let to_release =
                        Self::decrease_issue_amount(&issue_id, &mut issue, amount_transferred, expected_total_amount)?;
                    to_release.unlock_on(&requester)?;
                } else {
                    if amount_transferred.gt(&expected_total_amount)? {
                        if !ext::vault_registry::is_vault_liquidated::<T>(&issue.vault)? {
                            Self::try_increase_issue_amount(
                                &issue_id,
                                &mut issue,
                                amount_transferred,
                                expected_total_amount,
                            )?;
                        }
                    }
                    issue.griefing_collateral().unlock_on(&requester)?;
                }
""")]
R["is-exec-mint-helper"] = [(IS, """        // mint issued tokens
        issue_amount.mint_to(&requester)?;

        // mint wrapped fees
        issue_fee.mint_to(&ext::fee::fee_pool_account_id::<T>())?;

        // distribute rewards
        ext::fee::distribute_rewards::<T>(&issue_fee)?;
""", """        Self::mint_issued(&requester, &issue_amount, &issue_fee)?;
"""), (IS, """    fn decrease_issue_amount(
""", """    fn mint_issued(requester: &T::AccountId, amount: &Amount<T>, fee: &Amount<T>) -> DispatchResult {
        // mint wrapped fees
        fee.mint_to(&ext::fee::fee_pool_account_id::<T>())?;
        // mint issued tokens
        amount.mint_to(requester)?;
        // distribute rewards
        ext::fee::distribute_rewards::<T>(fee)
    }

    fn decrease_issue_amount(
""")]
R["is-exec-status-early"] = [(IS, """        // mint issued tokens
        issue_amount.mint_to(&requester)?;
""", """        Self::set_issue_status(issue_id, IssueRequestStatus::Completed);

        // mint issued tokens
        issue_amount.mint_to(&requester)?;
"""), (IS, """        ext::fee::distribute_rewards::<T>(&issue_fee)?;

        Self::set_issue_status(issue_id, IssueRequestStatus::Completed);

""", """        ext::fee::distribute_rewards::<T>(&issue_fee)?;

""")]
R["is-cancel-match"] = [(IS, """        if ext::vault_registry::is_vault_liquidated::<T>(&issue.vault)? {
            // return slashed griefing collateral if the vault is liquidated
            to_be_slashed_collateral.unlock_on(&issue.requester)?;
        } else {
""", """        let is_liquidated = ext::vault_registry::is_vault_liquidated::<T>(&issue.vault)?;
        if is_liquidated {
            // return slashed griefing collateral if the vault is liquidated
            to_be_slashed_collateral.unlock_on(&issue.requester)?;
        }
        if !is_liquidated {
""")]
R["is-cancel-tokens-first"] = [(IS, """        // decrease to-be-issued tokens
        let full_amount = issue.amount().checked_add(&issue.fee())?;
        ext::vault_registry::decrease_to_be_issued_tokens::<T>(&issue.vault, &full_amount)?;

        Self::set_issue_status(issue_id, IssueRequestStatus::Cancelled);
""", """        Self::set_issue_status(issue_id, IssueRequestStatus::Cancelled);

        // decrease to-be-issued tokens
        let full_amount = issue.fee().checked_add(&issue.amount())?;
        ext::vault_registry::decrease_to_be_issued_tokens::<T>(&issue.vault, &full_amount)?;
""")]
R["is-cancel-expired"] = [(IS, """        let to_be_slashed_collateral =
            if ext::btc_relay::has_request_expired::<T>(issue.opentime, issue.btc_height, issue_period)? {
""", """        let has_expired = ext::btc_relay::has_request_expired::<T>(issue.opentime, issue.btc_height, issue_period)?;
        let to_be_slashed_collateral =
            if has_expired {
""")]
R["is-cancel-released"] = [(IS, """                // refund anything not slashed
                let released_collateral = griefing_collateral.saturating_sub(&slashed_collateral)?;
                released_collateral.unlock_on(&requester)?;
""", """                // refund anything not slashed
                griefing_collateral
                    .checked_sub(&slashed_collateral)?
                    .unlock_on(&issue.requester)?;
""")]
R["is-decrease-order"] = [(IS, """        // decrease the to-be-issued tokens that will not be issued after all
        let deficit = expected_total_amount.checked_sub(&amount_transferred)?;
        ext::vault_registry::decrease_to_be_issued_tokens::<T>(&issue.vault, &deficit)?;

        // slash/release griefing collateral proportionally to the amount sent
        let to_release_collateral = ext::vault_registry::calculate_collateral::<T>(
            &issue.griefing_collateral(),
            &amount_transferred,
            &expected_total_amount,
        )?;
        let slashed_collateral = issue.griefing_collateral().checked_sub(&to_release_collateral)?;
""", """        // slash/release griefing collateral proportionally to the amount sent
        let griefing_collateral = issue.griefing_collateral();
        let to_release_collateral = ext::vault_registry::calculate_collateral::<T>(
            &griefing_collateral,
            &amount_transferred,
            &expected_total_amount,
        )?;
        let slashed_collateral = griefing_collateral.checked_sub(&to_release_collateral)?;

        // decrease the to-be-issued tokens that will not be issued after all
        ext::vault_registry::decrease_to_be_issued_tokens::<T>(
            &issue.vault,
            &expected_total_amount.checked_sub(&amount_transferred)?,
        )?;
""")]

# ---- redeem
R["re-fees-match"] = [(RE, """        let fees = if redeemable_tokens.eq(&requested_redeem_amount)? {
            Amount::zero(vault_id.wrapped_currency())
        } else {
            ext::fee::get_redeem_fee::<T>(&requested_redeem_amount)?
        };
""", """        let redeems_everything = redeemable_tokens.eq(&requested_redeem_amount)?;
        let fees = match redeems_everything {
            true => Amount::zero(vault_id.wrapped_currency()),
            false => ext::fee::get_redeem_fee::<T>(&requested_redeem_amount)?,
        };
""")]
R["re-take-helper"] = [(RE, """        // burn the tokens that the vault no longer is backing
        consumed_issued_tokens
            .lock_on(account_id)
            .map_err(|_| Error::<T>::AmountExceedsUserBalance)?;
        consumed_issued_tokens.burn_from(account_id)?;

        // transfer fees to pool
        fees.transfer(account_id, &ext::fee::fee_pool_account_id::<T>())
            .map_err(|_| Error::<T>::AmountExceedsUserBalance)?;
        ext::fee::distribute_rewards::<T>(fees)?;

        Ok(())
""", """        // transfer fees to pool
        let fee_pool = ext::fee::fee_pool_account_id::<T>();
        fees.transfer(account_id, &fee_pool)
            .map_err(|_| Error::<T>::AmountExceedsUserBalance)?;
        ext::fee::distribute_rewards::<T>(fees)?;

        // burn the tokens that the vault no longer is backing
        consumed_issued_tokens
            .lock_on(account_id)
            .map_err(|_| Error::<T>::AmountExceedsUserBalance)?;
        consumed_issued_tokens.burn_from(account_id)
""")]
R["re-balance-gt"] = [(RE, """        let amount_wrapped = Amount::new(amount_wrapped, vault_id.wrapped_currency());

        let redeemer_balance = ext::treasury::get_balance::<T>(&redeemer, vault_id.wrapped_currency());
        ensure!(
            amount_wrapped.le(&redeemer_balance)?,
            Error::<T>::AmountExceedsUserBalance
        );
""", """        let wrapped_currency = vault_id.wrapped_currency();
        let amount_wrapped = Amount::new(amount_wrapped, wrapped_currency);

        if amount_wrapped.gt(&ext::treasury::get_balance::<T>(&redeemer, wrapped_currency))? {
            return Err(Error::<T>::AmountExceedsUserBalance.into());
        }
""")]
R["re-fee-neg"] = [(RE, """        let fee_wrapped = if redeemer == vault_id.account_id {
            Amount::zero(vault_id.wrapped_currency())
        } else {
            ext::fee::get_redeem_fee::<T>(&amount_wrapped)?
        };
""", """        let mut fee_wrapped = Amount::zero(vault_id.wrapped_currency());
        if redeemer != vault_id.account_id {
            fee_wrapped = ext::fee::get_redeem_fee::<T>(&amount_wrapped)?;
        }
""")]
R["re-premium-fn"] = [(RE, """        let premium_collateral = {
            let redeem_amount_wrapped_in_collateral = user_to_be_received_btc.convert_to(currency_id)?;
            let premium_redeem_rate = ext::fee::premium_redeem_reward_rate::<T>();
            let premium_for_redeem_amount =
                redeem_amount_wrapped_in_collateral.checked_rounded_mul(&premium_redeem_rate, Rounding::Down)?;

            let max_premium = ext::vault_registry::get_vault_max_premium_redeem(&vault_id)?;
            max_premium.min(&premium_for_redeem_amount)?
        };
""", """        let premium_collateral = Self::premium_for(&vault_id, &user_to_be_received_btc, currency_id)?;
"""), (RE, """    fn _liquidation_redeem(
""", """    fn premium_for(
        vault_id: &DefaultVaultId<T>,
        redeem_amount: &Amount<T>,
        currency_id: CurrencyId<T>,
    ) -> Result<Amount<T>, DispatchError> {
        let max_premium = ext::vault_registry::get_vault_max_premium_redeem(vault_id)?;
        let premium = redeem_amount
            .convert_to(currency_id)?
            .checked_rounded_mul(&ext::fee::premium_redeem_reward_rate::<T>(), Rounding::Down)?;
        premium.min(&max_premium)
    }

    fn _liquidation_redeem(
""")]
R["re-request-order"] = [(RE, """        ext::vault_registry::ensure_not_banned::<T>(&vault_id)?;

        // only allow requests of amount above above the minimum
""", """        // only allow requests of amount above above the minimum
"""), (RE, """        let currency_id = vault_id.collateral_currency();

        // Calculate the premium""", """        ext::vault_registry::ensure_not_banned::<T>(&vault_id)?;

        let currency_id = vault_id.collateral_currency();

        // Calculate the premium""")]
R["re-request-struct"] = [(RE, """        Self::insert_redeem_request(
            &redeem_id,
            &RedeemRequest {
                vault: vault_id.clone(),
                opentime: ext::security::active_block_number::<T>(),
                fee: fee_wrapped.amount(),
                transfer_fee_btc: inclusion_fee.amount(),
                amount_btc: user_to_be_received_btc.amount(),
                premium: premium_collateral.amount(),
                period: Self::redeem_period(),
                redeemer: redeemer.clone(),
                btc_address,
                btc_height: ext::btc_relay::get_best_block_height::<T>(),
                status: RedeemRequestStatus::Pending,
            },
        );
""", """        let request = RedeemRequest {
            redeemer: redeemer.clone(),
            vault: vault_id.clone(),
            amount_btc: user_to_be_received_btc.amount(),
            fee: fee_wrapped.amount(),
            transfer_fee_btc: inclusion_fee.amount(),
            premium: premium_collateral.amount(),
            btc_address,
            opentime: ext::security::active_block_number::<T>(),
            period: Self::redeem_period(),
            btc_height: ext::btc_relay::get_best_block_height::<T>(),
            status: RedeemRequestStatus::Pending,
        };
        RedeemRequests::<T>::insert(&redeem_id, &request);
""")]
R["re-exec-fee-helper"] = [(RE, """        // send fees to pool
        let fee = redeem.fee();
        fee.unlock_on(&redeem.redeemer)?;
        fee.transfer(&redeem.redeemer, &ext::fee::fee_pool_account_id::<T>())?;
        ext::fee::distribute_rewards::<T>(&fee)?;

        ext::vault_registry::redeem_tokens""", """        Self::collect_fee(&redeem)?;

        ext::vault_registry::redeem_tokens"""), (RE, """            let fee = redeem.fee();
            fee.unlock_on(&redeem.redeemer)?;
            fee.transfer(&redeem.redeemer, &ext::fee::fee_pool_account_id::<T>())?;
            ext::fee::distribute_rewards::<T>(&fee)?;
""", """            Self::collect_fee(&redeem)?;
"""), (RE, """    fn _liquidation_redeem(
""", """    /// move the fee out of the locked tokens of the redeemer to the fee pool
    fn collect_fee(redeem: &DefaultRedeemRequest<T>) -> DispatchResult {
        let fee = redeem.fee();
        fee.unlock_on(&redeem.redeemer)?;
        fee.transfer(&redeem.redeemer, &ext::fee::fee_pool_account_id::<T>())?;
        ext::fee::distribute_rewards::<T>(&fee)?;
        Ok(())
    }

    fn _liquidation_redeem(
""")]
R["re-exec-order"] = [(RE, """        // burn amount (without parachain fee, but including transfer fee)
        let burn_amount = redeem.amount_btc().checked_add(&redeem.transfer_fee_btc())?;
        burn_amount.burn_from(&redeem.redeemer)?;

        // send fees to pool
        let fee = redeem.fee();
        fee.unlock_on(&redeem.redeemer)?;
        fee.transfer(&redeem.redeemer, &ext::fee::fee_pool_account_id::<T>())?;
        ext::fee::distribute_rewards::<T>(&fee)?;

        ext::vault_registry::redeem_tokens::<T>(&redeem.vault, &burn_amount, &redeem.premium()?, &redeem.redeemer)?;
""", """        let burn_amount = redeem.transfer_fee_btc().checked_add(&redeem.amount_btc())?;
        let premium = redeem.premium()?;
        ext::vault_registry::redeem_tokens::<T>(&redeem.vault, &burn_amount, &premium, &redeem.redeemer)?;

        // burn amount (without parachain fee, but including transfer fee)
        burn_amount.burn_from(&redeem.redeemer)?;

        // send fees to pool
        let fee = redeem.fee();
        fee.unlock_on(&redeem.redeemer)?;
        fee.transfer(&redeem.redeemer, &ext::fee::fee_pool_account_id::<T>())?;
        ext::fee::distribute_rewards::<T>(&fee)?;
""")]
R["re-cancel-ne"] = [(RE, "        ensure!(redeemer == redeem.redeemer, Error::<T>::UnauthorizedRedeemer);\n", "        if redeem.redeemer != redeemer {\n            return Err(Error::<T>::UnauthorizedRedeemer.into());\n        }\n")]
R["re-cancel-period"] = [(RE, """        ensure!(
            ext::btc_relay::has_request_expired::<T>(
                redeem.opentime,
                redeem.btc_height,
                Self::redeem_period().max(redeem.period)
            )?,
            Error::<T>::TimeNotExpired
        );
""", """        let period = redeem.period.max(Self::redeem_period());
        let expired = ext::btc_relay::has_request_expired::<T>(redeem.opentime, redeem.btc_height, period)?;
        ensure!(expired, Error::<T>::TimeNotExpired);
""")]
R["re-cancel-liq-dest"] = [(RE, """            let slashing_destination = if reimburse {
                CurrencySource::FreeBalance(redeemer.clone())
            } else {
                CurrencySource::LiquidationVault(vault_id.currencies.clone())
            };
            ext::vault_registry::decrease_liquidated_collateral::<T>(&vault_id, &confiscated_collateral)?;
            ext::vault_registry::transfer_funds::<T>(
                CurrencySource::LiquidatedCollateral(vault_id.clone()),
                slashing_destination,
                &confiscated_collateral,
            )?;
""", """            ext::vault_registry::decrease_liquidated_collateral::<T>(&vault_id, &confiscated_collateral)?;
            let source = CurrencySource::LiquidatedCollateral(vault_id.clone());
            if !reimburse {
                let destination = CurrencySource::LiquidationVault(vault_id.currencies.clone());
                ext::vault_registry::transfer_funds::<T>(source, destination, &confiscated_collateral)?;
            } else {
                let destination = CurrencySource::FreeBalance(redeemer.clone());
                ext::vault_registry::transfer_funds::<T>(source, destination, &confiscated_collateral)?;
            }
""")]
R["re-cancel-slash-mut"] = [(RE, """            let amount_to_slash = if reimburse {
                // 100% + punishment fee on reimburse
                amount_wrapped_in_collateral.checked_add(&punishment_fee_in_collateral)?
            } else {
                punishment_fee_in_collateral
            };
""", """            let mut amount_to_slash = punishment_fee_in_collateral;
            if reimburse {
                // 100% + punishment fee on reimburse
                amount_to_slash = amount_to_slash.checked_add(&amount_wrapped_in_collateral)?;
            }
""")]
R["re-cancel-merge"] = [(RE, """            if vault.is_liquidated() {
                // In this situation, tokens are burned and the collateral gets transferred
                // to the user. This is similar to what happens in a liquidation_redeem.
                vault_to_be_burned_tokens.burn_from(&redeemer)?;
                ext::vault_registry::decrease_tokens::<T>(&redeem.vault, &redeem.redeemer, &vault_to_be_burned_tokens)?;
                // set to Reimbursed(true) such that the vault can't mint the ibtc/kbtc later on
                Self::set_redeem_status(redeem_id, RedeemRequestStatus::Reimbursed(true))
            } else if ext::vault_registry::is_vault_below_secure_threshold::<T>(&redeem.vault)? {
                // vault can not afford to back the tokens that it would receive, so we burn it
                vault_to_be_burned_tokens.burn_from(&redeemer)?;
                ext::vault_registry::decrease_tokens::<T>(&redeem.vault, &redeem.redeemer, &vault_to_be_burned_tokens)?;
                Self::set_redeem_status(redeem_id, RedeemRequestStatus::Reimbursed(false))
            } else {
""", """            let liquidated = vault.is_liquidated();
            if liquidated || ext::vault_registry::is_vault_below_secure_threshold::<T>(&redeem.vault)? {
                // vault can not afford to back the tokens that it would receive, so we burn it
                vault_to_be_burned_tokens.burn_from(&redeem.redeemer)?;
                ext::vault_registry::decrease_tokens::<T>(&redeem.vault, &redeem.redeemer, &vault_to_be_burned_tokens)?;
                // a liquidated vault can't mint the ibtc/kbtc later on
                Self::set_redeem_status(redeem_id, RedeemRequestStatus::Reimbursed(liquidated))
            } else {
""")]
R["re-cancel-status"] = [(RE, """            total_wrapped.unlock_on(&redeemer)?;
            ext::vault_registry::decrease_to_be_redeemed_tokens::<T>(&vault_id, &vault_to_be_burned_tokens)?;
            Self::set_redeem_status(redeem_id, RedeemRequestStatus::Retried)
""", """            ext::vault_registry::decrease_to_be_redeemed_tokens::<T>(&vault_id, &vault_to_be_burned_tokens)?;
            total_wrapped.unlock_on(&redeemer)?;
            let status = RedeemRequestStatus::Retried;
            Self::set_redeem_status(redeem_id, status)
""")]
R["re-mint-not"] = [(RE, """        ensure!(
            matches!(redeem.status, RedeemRequestStatus::Reimbursed(false)),
            Error::<T>::RedeemCancelled
        );

        ensure!(redeem.vault == vault_id, Error::<T>::UnauthorizedVault);
""", """        ensure!(vault_id == redeem.vault, Error::<T>::UnauthorizedVault);

        match redeem.status {
            RedeemRequestStatus::Reimbursed(false) => {}
            _ => return Err(Error::<T>::RedeemCancelled.into()),
        }
""")]
R["re-mint-tryget"] = [(RE, "        let redeem = RedeemRequests::<T>::try_get(&redeem_id).or(Err(Error::<T>::RedeemIdNotFound))?;\n        ensure!(\n            matches!", "        let redeem = RedeemRequests::<T>::get(&redeem_id).ok_or(Error::<T>::RedeemIdNotFound)?;\n        ensure!(\n            matches!")]
R["re-release-if"] = [(RE, """        if !griefing_collateral.is_zero() {
            ext::vault_registry::transfer_funds(
                CurrencySource::AvailableReplaceCollateral(vault_id.clone()),
                CurrencySource::FreeBalance(vault_id.account_id.clone()),
                &griefing_collateral,
            )?;
        }
        Ok(())
""", """        if griefing_collateral.is_zero() {
            return Ok(());
        }
        ext::vault_registry::transfer_funds(
            CurrencySource::AvailableReplaceCollateral(vault_id.clone()),
            CurrencySource::FreeBalance(vault_id.account_id.clone()),
            &griefing_collateral,
        )
""")]
R["re-status-if"] = [(RE, """        <RedeemRequests<T>>::mutate_exists(id, |request| {
            *request = request.clone().map(|request| DefaultRedeemRequest::<T> {
                status: status.clone(),
                ..request
            });
        });
""", """        <RedeemRequests<T>>::mutate_exists(id, |maybe_request| {
            if let Some(request) = maybe_request {
                request.status = status.clone();
            }
        });
""")]
