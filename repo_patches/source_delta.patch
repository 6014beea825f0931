From 530e5d5dfdc30d7a97217bd73e05a05269b9abe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:11 +0000
Subject: [PATCH 1/9] fix: payment check of mint must not wrap around

---
 programs/core/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 6c2171a..972f352 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -667,13 +667,13 @@ pub mod cyclos_core {
 
         if amount_0 > 0 {
             require!(
-                balance_0_before + amount_0 <= ctx.accounts.vault_0.amount,
+                balance_0_before.checked_add(amount_0).unwrap() <= ctx.accounts.vault_0.amount,
                 ErrorCode::M0
             );
         }
         if amount_1 > 0 {
             require!(
-                balance_1_before + amount_1 <= ctx.accounts.vault_1.amount,
+                balance_1_before.checked_add(amount_1).unwrap() <= ctx.accounts.vault_1.amount,
                 ErrorCode::M1
             );
         }
-- 
2.43.0


From df2677f15426de646275d6d1bd3af28e9c10bcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:11 +0000
Subject: [PATCH 2/9] fix: BurnEvent reports the upper tick

---
 programs/core/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 972f352..6bce85f 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -794,7 +794,7 @@ pub mod cyclos_core {
             pool_state: ctx.accounts.pool_state.key(),
             owner: ctx.accounts.owner.key(),
             tick_lower: tick_lower.tick,
-            tick_upper: tick_lower.tick,
+            tick_upper: tick_upper.tick,
             amount,
             amount_0,
             amount_1,
-- 
2.43.0


From 0100c3e172b7b93f7afbf2ef1562cf0b4e026da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:11 +0000
Subject: [PATCH 3/9] fix: decrease_liquidity is limited to the liquidity of
 the position token

---
 programs/core/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 6bce85f..6b07313 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1743,6 +1743,7 @@ pub mod cyclos_core {
         deadline: i64,
     ) -> Result<()> {
         assert!(liquidity > 0);
+        assert!(liquidity <= ctx.accounts.tokenized_position_state.load()?.liquidity);
 
         let position_state = AccountLoader::<PositionState>::try_from(
             &ctx.accounts.core_position_state.to_account_info(),
-- 
2.43.0


From 6a45e6b3111d4cdadd91a886bf0a4c02b4a56750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:58 +0000
Subject: [PATCH 4/9] fix: position tokens operate only on the pool and range
 they were minted for

---
 programs/core/src/lib.rs | 49 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 6b07313..f2bde73 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -10,7 +10,7 @@ use crate::libraries::tick_math;
 use crate::states::oracle;
 use crate::states::oracle::ObservationState;
 use crate::states::tokenized_position::{
-    CollectTokenizedEvent, DecreaseLiquidityEvent, IncreaseLiquidityEvent,
+    CollectTokenizedEvent, DecreaseLiquidityEvent, IncreaseLiquidityEvent, TokenizedPositionState,
 };
 use crate::{
     libraries::{fixed_point_32, swap_math},
@@ -1650,6 +1650,13 @@ pub mod cyclos_core {
         amount_1_min: u64,
         deadline: i64,
     ) -> Result<()> {
+        check_tokenized_position(
+            &ctx.accounts.tokenized_position_state,
+            &ctx.accounts.pool_state,
+            &ctx.accounts.tick_lower_state,
+            &ctx.accounts.tick_upper_state,
+        )?;
+
         let pool_state =
             AccountLoader::<PoolState>::try_from(&ctx.accounts.pool_state.to_account_info())?;
         let tick_lower_state =
@@ -1744,6 +1751,12 @@ pub mod cyclos_core {
     ) -> Result<()> {
         assert!(liquidity > 0);
         assert!(liquidity <= ctx.accounts.tokenized_position_state.load()?.liquidity);
+        check_tokenized_position(
+            &ctx.accounts.tokenized_position_state,
+            &ctx.accounts.pool_state,
+            &ctx.accounts.tick_lower_state,
+            &ctx.accounts.tick_upper_state,
+        )?;
 
         let position_state = AccountLoader::<PositionState>::try_from(
             &ctx.accounts.core_position_state.to_account_info(),
@@ -1825,6 +1838,12 @@ pub mod cyclos_core {
         amount_1_max: u64,
     ) -> Result<()> {
         assert!(amount_0_max > 0 || amount_1_max > 0);
+        check_tokenized_position(
+            &ctx.accounts.tokenized_position_state,
+            &ctx.accounts.pool_state,
+            &ctx.accounts.tick_lower_state,
+            &ctx.accounts.tick_upper_state,
+        )?;
 
         let mut tokenized_position = ctx.accounts.tokenized_position_state.load_mut()?;
         let mut tokens_owed_0 = tokenized_position.tokens_owed_0;
@@ -2140,6 +2159,34 @@ pub fn check_ticks(tick_lower: i32, tick_upper: i32) -> Result<()> {
     Ok(())
 }
 
+/// The pool and tick accounts must be those for which the position token was minted
+///
+/// # Arguments
+///
+/// * `tokenized_position_state` - The tokenized position
+/// * `pool_state` - The pool account provided by the caller
+/// * `tick_lower_state` - The lower tick account provided by the caller
+/// * `tick_upper_state` - The upper tick account provided by the caller
+///
+pub fn check_tokenized_position<'info>(
+    tokenized_position_state: &AccountLoader<'info, TokenizedPositionState>,
+    pool_state: &UncheckedAccount<'info>,
+    tick_lower_state: &UncheckedAccount<'info>,
+    tick_upper_state: &UncheckedAccount<'info>,
+) -> Result<()> {
+    let position = tokenized_position_state.load()?;
+    let tick_lower = AccountLoader::<TickState>::try_from(tick_lower_state)?
+        .load()?
+        .tick;
+    let tick_upper = AccountLoader::<TickState>::try_from(tick_upper_state)?
+        .load()?
+        .tick;
+    assert!(position.pool_id == pool_state.key());
+    assert!(position.tick_lower == tick_lower);
+    assert!(position.tick_upper == tick_upper);
+    Ok(())
+}
+
 /// Credit or debit liquidity to a position, and find the amount of token_0 and token_1
 /// required to produce this change.
 /// Returns amount of token_0 and token_1 owed to the pool, negative if the pool should
-- 
2.43.0


From 39edb0569e8e1edc07352e586b7dd495828ee11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:58 +0000
Subject: [PATCH 5/9] fix: exact input swaps return the amount received

---
 programs/core/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index f2bde73..ea4dbe6 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -2113,7 +2113,7 @@ pub fn exact_input_internal<'info>(
     let pool_state = AccountLoader::<PoolState>::try_from(&accounts.pool_state)?;
     let zero_for_one = accounts.input_vault.mint == pool_state.load()?.token_0;
 
-    let balance_before = accounts.input_vault.amount;
+    let balance_before = accounts.output_vault.amount;
     swap(
         Context::new(&ID, accounts, remaining_accounts, BTreeMap::default()),
         i64::try_from(amount_in).unwrap(),
@@ -2128,8 +2128,10 @@ pub fn exact_input_internal<'info>(
         },
     )?;
 
-    accounts.input_vault.reload()?;
-    Ok(accounts.input_vault.amount - balance_before)
+    accounts.output_vault.reload()?;
+    Ok(balance_before
+        .checked_sub(accounts.output_vault.amount)
+        .unwrap())
 }
 
 /// Common checks for a valid tick input.
-- 
2.43.0


From d240a2846973f46c930af0af26a9d577fb176f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:58 +0000
Subject: [PATCH 6/9] fix: decrease_liquidity credits only the amounts of the
 removed liquidity

---
 programs/core/src/lib.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index ea4dbe6..b6d1078 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1761,8 +1761,7 @@ pub mod cyclos_core {
         let position_state = AccountLoader::<PositionState>::try_from(
             &ctx.accounts.core_position_state.to_account_info(),
         )?;
-        let tokens_owed_0_before = position_state.load()?.tokens_owed_0;
-        let tokens_owed_1_before = position_state.load()?.tokens_owed_1;
+        let core_position_before = *position_state.load()?.deref();
 
         let mut core_position_owner = ctx.accounts.factory_state.to_account_info();
         core_position_owner.is_signer = true;
@@ -1786,8 +1785,22 @@ pub mod cyclos_core {
             liquidity,
         )?;
         let updated_core_position = accounts.position_state.load()?;
-        let amount_0 = updated_core_position.tokens_owed_0 - tokens_owed_0_before;
-        let amount_1 = updated_core_position.tokens_owed_1 - tokens_owed_1_before;
+
+        // the burn also credits fees earned by the aggregate position, which are not part of the amounts
+        let core_fees_0 = (updated_core_position.fee_growth_inside_0_last_x32
+            - core_position_before.fee_growth_inside_0_last_x32)
+            .mul_div_floor(core_position_before.liquidity, fixed_point_32::Q32)
+            .unwrap();
+        let core_fees_1 = (updated_core_position.fee_growth_inside_1_last_x32
+            - core_position_before.fee_growth_inside_1_last_x32)
+            .mul_div_floor(core_position_before.liquidity, fixed_point_32::Q32)
+            .unwrap();
+        let amount_0 = updated_core_position.tokens_owed_0
+            - core_position_before.tokens_owed_0
+            - core_fees_0;
+        let amount_1 = updated_core_position.tokens_owed_1
+            - core_position_before.tokens_owed_1
+            - core_fees_1;
         require!(
             amount_0 >= amount_0_min && amount_1 >= amount_1_min,
             ErrorCode::PriceSlippageCheck
-- 
2.43.0


From 01576c78cc013c563b838841b873a650adbb2f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:58 +0000
Subject: [PATCH 7/9] fix: collect pays from the vaults of the pool only

---
 programs/core/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index b6d1078..18ce2b2 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -854,6 +854,15 @@ pub mod cyclos_core {
             tick_upper.tick,
         )?;
 
+        assert!(
+            ctx.accounts.vault_0.key()
+                == get_associated_token_address(&pool_state.key(), &pool.token_0)
+        );
+        assert!(
+            ctx.accounts.vault_1.key()
+                == get_associated_token_address(&pool_state.key(), &pool.token_1)
+        );
+
         require!(pool.unlocked, ErrorCode::LOK);
         pool.unlocked = false;
 
-- 
2.43.0


From 598bbe57b8d0e3aef1bf081d14700cbe8273bc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:58 +0000
Subject: [PATCH 8/9] fix: the input of a swap step must not wrap around

---
 programs/core/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 18ce2b2..88f681b 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1190,7 +1190,7 @@ pub mod cyclos_core {
 
             if exact_input {
                 state.amount_specified_remaining -=
-                    i64::try_from(step.amount_in + step.fee_amount).unwrap();
+                    i64::try_from(step.amount_in.checked_add(step.fee_amount).unwrap()).unwrap();
                 state.amount_calculated = state
                     .amount_calculated
                     .checked_sub(i64::try_from(step.amount_out).unwrap())
@@ -1199,7 +1199,10 @@ pub mod cyclos_core {
                 state.amount_specified_remaining += i64::try_from(step.amount_out).unwrap();
                 state.amount_calculated = state
                     .amount_calculated
-                    .checked_add(i64::try_from(step.amount_in + step.fee_amount).unwrap())
+                    .checked_add(
+                        i64::try_from(step.amount_in.checked_add(step.fee_amount).unwrap())
+                            .unwrap(),
+                    )
                     .unwrap();
             }
 
-- 
2.43.0


From 62a65f17f490322e247c598ecbd38ac851ff1b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:58 +0000
Subject: [PATCH 9/9] fix: oracle records continue the latest record and the
 ring can grow

---
 programs/core/src/lib.rs           | 15 ++++++++++-----
 programs/core/src/states/oracle.rs | 13 +++++++++++++
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 88f681b..ffbef7d 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1288,6 +1288,7 @@ pub mod cyclos_core {
         }
         let partition_current_timestamp = cache.block_timestamp / 14;
         let partition_last_timestamp = latest_observation.block_timestamp / 14;
+        let last_observation = *latest_observation.deref();
         drop(latest_observation);
 
         // update tick and write an oracle entry if the tick changes
@@ -1300,7 +1301,7 @@ pub mod cyclos_core {
                 next_observation_state = AccountLoader::<ObservationState>::try_from(
                     &remaining_accounts.next().unwrap(),
                 )?;
-                let next_observation = next_observation_state.load_mut()?;
+                let mut next_observation = next_observation_state.load_mut()?;
                 msg!("observation loaded");
 
                 pool.validate_observation_address(
@@ -1308,19 +1309,21 @@ pub mod cyclos_core {
                     next_observation.bump,
                     true,
                 )?;
+                next_observation.follow(&last_observation);
 
                 next_observation
             } else {
                 last_observation_state.load_mut()?
             };
-            pool.tick = state.tick;
-            pool.observation_cardinality_next = next_observation.update(
+            pool.observation_cardinality = next_observation.update(
                 cache.block_timestamp,
                 pool.tick,
                 cache.liquidity_start,
                 pool.observation_cardinality,
                 pool.observation_cardinality_next,
             );
+            pool.observation_index = next_observation.index;
+            pool.tick = state.tick;
         }
         pool.sqrt_price_x32 = state.sqrt_price_x32;
 
@@ -2281,25 +2284,27 @@ pub fn _modify_position<'info>(
             let timestamp = oracle::_block_timestamp();
             let partition_current_timestamp = timestamp / 14;
             let partition_last_timestamp = latest_observation.block_timestamp / 14;
+            let last_observation = *latest_observation.deref();
             drop(latest_observation);
 
             let next_observation_state;
             let mut new_observation = if partition_current_timestamp > partition_last_timestamp {
                 next_observation_state =
                     AccountLoader::<ObservationState>::try_from(&remaining_accounts[0])?;
-                let next_observation = next_observation_state.load_mut()?;
+                let mut next_observation = next_observation_state.load_mut()?;
                 pool_state.validate_observation_address(
                     &next_observation_state.key(),
                     next_observation.bump,
                     true,
                 )?;
+                next_observation.follow(&last_observation);
 
                 next_observation
             } else {
                 last_observation_state.load_mut()?
             };
 
-            pool_state.observation_cardinality_next = new_observation.update(
+            pool_state.observation_cardinality = new_observation.update(
                 timestamp,
                 pool_state.tick,
                 pool_state.liquidity,
diff --git a/programs/core/src/states/oracle.rs b/programs/core/src/states/oracle.rs
index 8614b3a..4a014c8 100644
--- a/programs/core/src/states/oracle.rs
+++ b/programs/core/src/states/oracle.rs
@@ -106,6 +106,19 @@ impl ObservationState {
         }
     }
 
+    /// Continues the accumulators of the most recently written observation in this slot,
+    /// so that the next update extends them
+    ///
+    /// # Arguments
+    ///
+    /// * `last` - The most recently written observation
+    ///
+    pub fn follow(&mut self, last: &ObservationState) {
+        self.block_timestamp = last.block_timestamp;
+        self.tick_cumulative = last.tick_cumulative;
+        self.seconds_per_liquidity_cumulative_x32 = last.seconds_per_liquidity_cumulative_x32;
+    }
+
     /// Makes a new observation for the current block timestamp
     ///
     /// # Arguments
-- 
2.43.0

