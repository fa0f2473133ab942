From 3e130153a03ec99ad1f7a1e08ac7ff6eea3d6d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:40 +0000
Subject: [PATCH 01/12] fix: bind tokenized positions to their recorded pool
 and ticks

increase_liquidity, decrease_liquidity and collect_from_tokenized never
checked that the supplied pool and tick accounts are the ones the NFT was
minted for, so a cheap position could be used to withdraw from another
pool or range.
---
 programs/core/src/access_control.rs | 25 +++++++++++++++++++++++++
 programs/core/src/error.rs          |  4 ++++
 programs/core/src/lib.rs            | 29 +++++++++++++++++++++++++++++
 3 files changed, 58 insertions(+)

diff --git a/programs/core/src/access_control.rs b/programs/core/src/access_control.rs
index e8f2b41..846e5c8 100644
--- a/programs/core/src/access_control.rs
+++ b/programs/core/src/access_control.rs
@@ -1,4 +1,5 @@
 use crate::error::ErrorCode;
+use crate::states::tokenized_position::TokenizedPositionState;
 use anchor_lang::prelude::*;
 use anchor_spl::token::TokenAccount;
 
@@ -36,3 +37,27 @@ pub fn is_authorized_for_token<'info>(
     );
     Ok(())
 }
+
+/// Ensures that the pool and tick accounts in use are the ones recorded in the tokenized position
+///
+/// # Arguments
+///
+/// * `tokenized_position` - The tokenized position being operated upon
+/// * `pool_id` - Address of the pool account
+/// * `tick_lower` - The lower tick of the supplied tick account
+/// * `tick_upper` - The upper tick of the supplied tick account
+///
+pub fn check_position_accounts(
+    tokenized_position: &TokenizedPositionState,
+    pool_id: Pubkey,
+    tick_lower: i32,
+    tick_upper: i32,
+) -> Result<()> {
+    require!(
+        tokenized_position.pool_id == pool_id
+            && tokenized_position.tick_lower == tick_lower
+            && tokenized_position.tick_upper == tick_upper,
+        ErrorCode::InvalidPositionAccounts
+    );
+    Ok(())
+}
diff --git a/programs/core/src/error.rs b/programs/core/src/error.rs
index 47e9398..b7adb1f 100644
--- a/programs/core/src/error.rs
+++ b/programs/core/src/error.rs
@@ -94,4 +94,8 @@ pub enum ErrorCode {
     // Swap router
     #[msg("Too little received")]
     TooLittleReceived,
+
+    // Non fungible position manager
+    #[msg("The supplied accounts do not belong to the position")]
+    InvalidPositionAccounts,
 }
diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 6c2171a..e9640d4 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1660,6 +1660,13 @@ pub mod cyclos_core {
             AccountLoader::<TickState>::try_from(&ctx.accounts.tick_upper_state.to_account_info())?;
         let tick_upper = tick_upper_state.load()?.tick;
 
+        check_position_accounts(
+            ctx.accounts.tokenized_position_state.load()?.deref(),
+            ctx.accounts.pool_state.key(),
+            tick_lower,
+            tick_upper,
+        )?;
+
         let mut accs = MintContext {
             minter: ctx.accounts.payer.clone(),
             token_account_0: ctx.accounts.token_account_0.clone(),
@@ -1744,6 +1751,17 @@ pub mod cyclos_core {
     ) -> Result<()> {
         assert!(liquidity > 0);
 
+        check_position_accounts(
+            ctx.accounts.tokenized_position_state.load()?.deref(),
+            ctx.accounts.pool_state.key(),
+            AccountLoader::<TickState>::try_from(&ctx.accounts.tick_lower_state.to_account_info())?
+                .load()?
+                .tick,
+            AccountLoader::<TickState>::try_from(&ctx.accounts.tick_upper_state.to_account_info())?
+                .load()?
+                .tick,
+        )?;
+
         let position_state = AccountLoader::<PositionState>::try_from(
             &ctx.accounts.core_position_state.to_account_info(),
         )?;
@@ -1826,6 +1844,17 @@ pub mod cyclos_core {
         assert!(amount_0_max > 0 || amount_1_max > 0);
 
         let mut tokenized_position = ctx.accounts.tokenized_position_state.load_mut()?;
+        check_position_accounts(
+            tokenized_position.deref(),
+            ctx.accounts.pool_state.key(),
+            AccountLoader::<TickState>::try_from(&ctx.accounts.tick_lower_state.to_account_info())?
+                .load()?
+                .tick,
+            AccountLoader::<TickState>::try_from(&ctx.accounts.tick_upper_state.to_account_info())?
+                .load()?
+                .tick,
+        )?;
+
         let mut tokens_owed_0 = tokenized_position.tokens_owed_0;
         let mut tokens_owed_1 = tokenized_position.tokens_owed_1;
 
-- 
2.43.0


From cd3e4dc705d04f219ec4a0a2a97ef4890d9c92cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:57 +0000
Subject: [PATCH 02/12] fix: validate the vaults in collect

collect paid out of any token account owned by the pool address, so a
position owner could pass the other vault and take token_1 for owed token_0.
---
 programs/core/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index e9640d4..b1ffb42 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -854,6 +854,15 @@ pub mod cyclos_core {
             tick_upper.tick,
         )?;
 
+        assert!(
+            ctx.accounts.vault_0.key()
+                == get_associated_token_address(&pool_state.key(), &pool.token_0)
+        );
+        assert!(
+            ctx.accounts.vault_1.key()
+                == get_associated_token_address(&pool_state.key(), &pool.token_1)
+        );
+
         require!(pool.unlocked, ErrorCode::LOK);
         pool.unlocked = false;
 
-- 
2.43.0


From 0b4faa0554498f376cc76ba8c97e3ac06475f638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:58 +0000
Subject: [PATCH 03/12] fix: report the swap output from exact_input_internal

The increase of the input vault was returned as the amount out, so the
amount_out_minimum check was meaningless and multi-hop swaps chained the
wrong amount.
---
 programs/core/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index b1ffb42..64c3623 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -2131,7 +2131,7 @@ pub fn exact_input_internal<'info>(
     let pool_state = AccountLoader::<PoolState>::try_from(&accounts.pool_state)?;
     let zero_for_one = accounts.input_vault.mint == pool_state.load()?.token_0;
 
-    let balance_before = accounts.input_vault.amount;
+    let balance_before = accounts.output_vault.amount;
     swap(
         Context::new(&ID, accounts, remaining_accounts, BTreeMap::default()),
         i64::try_from(amount_in).unwrap(),
@@ -2146,8 +2146,8 @@ pub fn exact_input_internal<'info>(
         },
     )?;
 
-    accounts.input_vault.reload()?;
-    Ok(accounts.input_vault.amount - balance_before)
+    accounts.output_vault.reload()?;
+    Ok(balance_before - accounts.output_vault.amount)
 }
 
 /// Common checks for a valid tick input.
-- 
2.43.0


From 07972ecefa8ca98da60d35e4b5903dd4eb9b24fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:59 +0000
Subject: [PATCH 04/12] fix: report the upper tick in BurnEvent

---
 programs/core/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 64c3623..f86715d 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -794,7 +794,7 @@ pub mod cyclos_core {
             pool_state: ctx.accounts.pool_state.key(),
             owner: ctx.accounts.owner.key(),
             tick_lower: tick_lower.tick,
-            tick_upper: tick_lower.tick,
+            tick_upper: tick_upper.tick,
             amount,
             amount_0,
             amount_1,
-- 
2.43.0


From 2afb49dc45de2579dceeb92ea530f66a8bafcaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:00 +0000
Subject: [PATCH 05/12] fix: reject removing more liquidity than the tokenized
 position holds

---
 programs/core/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index f86715d..2c93be4 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1823,7 +1823,10 @@ pub mod cyclos_core {
 
         tokenized_position.fee_growth_inside_0_last_x32 = fee_growth_inside_0_last_x32;
         tokenized_position.fee_growth_inside_1_last_x32 = fee_growth_inside_1_last_x32;
-        tokenized_position.liquidity -= liquidity;
+        tokenized_position.liquidity = tokenized_position
+            .liquidity
+            .checked_sub(liquidity)
+            .ok_or(ErrorCode::LS)?;
 
         emit!(DecreaseLiquidityEvent {
             token_id: tokenized_position.mint,
-- 
2.43.0


From 54f23018aeeb19e74ff53238ec9038a14483cb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:01 +0000
Subject: [PATCH 06/12] fix: credit only the burned principal to the tokenized
 position

decrease_liquidity credited the fees accrued by the whole shared core
position to the caller and let them satisfy the slippage minimums.
---
 programs/core/src/lib.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 2c93be4..47bb100 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1774,8 +1774,7 @@ pub mod cyclos_core {
         let position_state = AccountLoader::<PositionState>::try_from(
             &ctx.accounts.core_position_state.to_account_info(),
         )?;
-        let tokens_owed_0_before = position_state.load()?.tokens_owed_0;
-        let tokens_owed_1_before = position_state.load()?.tokens_owed_1;
+        let core_position_before = *position_state.load()?.deref();
 
         let mut core_position_owner = ctx.accounts.factory_state.to_account_info();
         core_position_owner.is_signer = true;
@@ -1799,8 +1798,19 @@ pub mod cyclos_core {
             liquidity,
         )?;
         let updated_core_position = accounts.position_state.load()?;
-        let amount_0 = updated_core_position.tokens_owed_0 - tokens_owed_0_before;
-        let amount_1 = updated_core_position.tokens_owed_1 - tokens_owed_1_before;
+        // leave out the fees which the burn credited to the shared core position
+        let core_fees_0 = (updated_core_position.fee_growth_inside_0_last_x32
+            - core_position_before.fee_growth_inside_0_last_x32)
+            .mul_div_floor(core_position_before.liquidity, fixed_point_32::Q32)
+            .unwrap();
+        let core_fees_1 = (updated_core_position.fee_growth_inside_1_last_x32
+            - core_position_before.fee_growth_inside_1_last_x32)
+            .mul_div_floor(core_position_before.liquidity, fixed_point_32::Q32)
+            .unwrap();
+        let amount_0 =
+            updated_core_position.tokens_owed_0 - core_position_before.tokens_owed_0 - core_fees_0;
+        let amount_1 =
+            updated_core_position.tokens_owed_1 - core_position_before.tokens_owed_1 - core_fees_1;
         require!(
             amount_0 >= amount_0_min && amount_1 >= amount_1_min,
             ErrorCode::PriceSlippageCheck
-- 
2.43.0


From 73342540be54d2c32405a8dbe2c3e53d4154ddca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:02 +0000
Subject: [PATCH 07/12] fix: record the oracle observation with the tick before
 the swap

---
 programs/core/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 47bb100..7eb9d0f 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1310,7 +1310,6 @@ pub mod cyclos_core {
             } else {
                 last_observation_state.load_mut()?
             };
-            pool.tick = state.tick;
             pool.observation_cardinality_next = next_observation.update(
                 cache.block_timestamp,
                 pool.tick,
@@ -1318,6 +1317,7 @@ pub mod cyclos_core {
                 pool.observation_cardinality,
                 pool.observation_cardinality_next,
             );
+            pool.tick = state.tick;
         }
         pool.sqrt_price_x32 = state.sqrt_price_x32;
 
-- 
2.43.0


From e191d71d346cec48d5f8164e7b106850bb9c53c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:03 +0000
Subject: [PATCH 08/12] fix: advance the observation index on swaps

---
 programs/core/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 7eb9d0f..29bcea0 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1317,6 +1317,7 @@ pub mod cyclos_core {
                 pool.observation_cardinality,
                 pool.observation_cardinality_next,
             );
+            pool.observation_index = next_observation.index;
             pool.tick = state.tick;
         }
         pool.sqrt_price_x32 = state.sqrt_price_x32;
-- 
2.43.0


From 40d07f8b87c7a5ae8fff342b7907e334996fdaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:04 +0000
Subject: [PATCH 09/12] fix: store the updated cardinality in
 observation_cardinality

The value returned by the oracle update is the number of populated slots;
storing it in observation_cardinality_next dropped slots already paid for.
---
 programs/core/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 29bcea0..5c89b70 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1310,7 +1310,7 @@ pub mod cyclos_core {
             } else {
                 last_observation_state.load_mut()?
             };
-            pool.observation_cardinality_next = next_observation.update(
+            pool.observation_cardinality = next_observation.update(
                 cache.block_timestamp,
                 pool.tick,
                 cache.liquidity_start,
@@ -2276,7 +2276,7 @@ pub fn _modify_position<'info>(
                 last_observation_state.load_mut()?
             };
 
-            pool_state.observation_cardinality_next = new_observation.update(
+            pool_state.observation_cardinality = new_observation.update(
                 timestamp,
                 pool_state.tick,
                 pool_state.liquidity,
-- 
2.43.0


From c7b0827893ba5bc8afdd99c7e9604e033c3ac4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:06 +0000
Subject: [PATCH 10/12] fix: continue the oracle accumulators when moving to
 the next slot

The next slot was extrapolated from its own stale contents instead of the
latest observation.
---
 programs/core/src/lib.rs           |  8 ++++++--
 programs/core/src/states/oracle.rs | 13 +++++++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 5c89b70..5d903d6 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1285,6 +1285,7 @@ pub mod cyclos_core {
         }
         let partition_current_timestamp = cache.block_timestamp / 14;
         let partition_last_timestamp = latest_observation.block_timestamp / 14;
+        let last_observation = *latest_observation.deref();
         drop(latest_observation);
 
         // update tick and write an oracle entry if the tick changes
@@ -1297,7 +1298,7 @@ pub mod cyclos_core {
                 next_observation_state = AccountLoader::<ObservationState>::try_from(
                     &remaining_accounts.next().unwrap(),
                 )?;
-                let next_observation = next_observation_state.load_mut()?;
+                let mut next_observation = next_observation_state.load_mut()?;
                 msg!("observation loaded");
 
                 pool.validate_observation_address(
@@ -1305,6 +1306,7 @@ pub mod cyclos_core {
                     next_observation.bump,
                     true,
                 )?;
+                next_observation.resume_from(&last_observation);
 
                 next_observation
             } else {
@@ -2258,18 +2260,20 @@ pub fn _modify_position<'info>(
             let timestamp = oracle::_block_timestamp();
             let partition_current_timestamp = timestamp / 14;
             let partition_last_timestamp = latest_observation.block_timestamp / 14;
+            let last_observation = *latest_observation.deref();
             drop(latest_observation);
 
             let next_observation_state;
             let mut new_observation = if partition_current_timestamp > partition_last_timestamp {
                 next_observation_state =
                     AccountLoader::<ObservationState>::try_from(&remaining_accounts[0])?;
-                let next_observation = next_observation_state.load_mut()?;
+                let mut next_observation = next_observation_state.load_mut()?;
                 pool_state.validate_observation_address(
                     &next_observation_state.key(),
                     next_observation.bump,
                     true,
                 )?;
+                next_observation.resume_from(&last_observation);
 
                 next_observation
             } else {
diff --git a/programs/core/src/states/oracle.rs b/programs/core/src/states/oracle.rs
index 8614b3a..72481ae 100644
--- a/programs/core/src/states/oracle.rs
+++ b/programs/core/src/states/oracle.rs
@@ -69,6 +69,19 @@ impl ObservationState {
         }
     }
 
+    /// Carries the accumulators of the latest observation over to the account which will hold
+    /// the next one, so that the next observation continues from it.
+    ///
+    /// # Arguments
+    ///
+    /// * `last` - The latest observation of the pool
+    ///
+    pub fn resume_from(&mut self, last: &ObservationState) {
+        self.block_timestamp = last.block_timestamp;
+        self.tick_cumulative = last.tick_cumulative;
+        self.seconds_per_liquidity_cumulative_x32 = last.seconds_per_liquidity_cumulative_x32;
+    }
+
     /// Writes an oracle observation to the account, returning the updated cardinality.
     /// Writable at most once per second. Index represents the most recently written element.
     /// cardinality and index must be tracked externally.
-- 
2.43.0


From 9c35b31261d2d481f2d2903dc19d68e99c175c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:53 +0000
Subject: [PATCH 11/12] fix: check the sum in the payment check of mint

---
 programs/core/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 5d903d6..3087838 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -667,13 +667,13 @@ pub mod cyclos_core {
 
         if amount_0 > 0 {
             require!(
-                balance_0_before + amount_0 <= ctx.accounts.vault_0.amount,
+                balance_0_before.checked_add(amount_0).unwrap() <= ctx.accounts.vault_0.amount,
                 ErrorCode::M0
             );
         }
         if amount_1 > 0 {
             require!(
-                balance_1_before + amount_1 <= ctx.accounts.vault_1.amount,
+                balance_1_before.checked_add(amount_1).unwrap() <= ctx.accounts.vault_1.amount,
                 ErrorCode::M1
             );
         }
-- 
2.43.0


From eb548d712a562b767665252f310f87a8a9526252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:22 +0000
Subject: [PATCH 12/12] fix: check the sum of a swap step's input and fee

---
 programs/core/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 3087838..f5f8d6c 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1190,7 +1190,7 @@ pub mod cyclos_core {
 
             if exact_input {
                 state.amount_specified_remaining -=
-                    i64::try_from(step.amount_in + step.fee_amount).unwrap();
+                    i64::try_from(step.amount_in.checked_add(step.fee_amount).unwrap()).unwrap();
                 state.amount_calculated = state
                     .amount_calculated
                     .checked_sub(i64::try_from(step.amount_out).unwrap())
@@ -1199,7 +1199,10 @@ pub mod cyclos_core {
                 state.amount_specified_remaining += i64::try_from(step.amount_out).unwrap();
                 state.amount_calculated = state
                     .amount_calculated
-                    .checked_add(i64::try_from(step.amount_in + step.fee_amount).unwrap())
+                    .checked_add(
+                        i64::try_from(step.amount_in.checked_add(step.fee_amount).unwrap())
+                            .unwrap(),
+                    )
                     .unwrap();
             }
 
-- 
2.43.0

