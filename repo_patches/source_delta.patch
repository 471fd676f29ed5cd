From 8634f9a5b14af94b0609b74b46d060f13b02b4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:48 +0000
Subject: [PATCH 01/17] fix: exact-output price step for token 0 no longer
 overflows on valid amounts

get_next_sqrt_price_from_amount_0_rounding_up multiplied amount * sqrt_price in u64 on the
remove path and panicked although the 96-bit numerator makes larger products valid.
---
 programs/core/src/libraries/sqrt_price_math.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/programs/core/src/libraries/sqrt_price_math.rs b/programs/core/src/libraries/sqrt_price_math.rs
index 0452d87..6e6ac2b 100644
--- a/programs/core/src/libraries/sqrt_price_math.rs
+++ b/programs/core/src/libraries/sqrt_price_math.rs
@@ -73,10 +73,10 @@ pub fn get_next_sqrt_price_from_amount_0_rounding_up(
         )
         .as_u64()
     } else {
-        // if the product overflows, we know the denominator underflows
-        // in addition, we must check that the denominator does not underflow
-        // assert!(product / amount == sqrt_p_x32 && numerator_1 > product);
-        let product = U128::from(amount.checked_mul(sqrt_p_x32).unwrap());
+        // the product of two u64 values always fits in a U128, and can exceed u64::MAX for valid
+        // amounts since numerator_1 is up to 96 bits wide
+        // we must check that the denominator does not underflow
+        let product = U128::from(amount) * U128::from(sqrt_p_x32);
         assert!(numerator_1 > product);
 
         let denominator = numerator_1 - product;
-- 
2.43.0


From f51f7d2fb2a60d8620077327d236a474211a1874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:48 +0000
Subject: [PATCH 02/17] fix: swap refuses a step whose input plus fee exceeds
 u64 instead of wrapping

In release builds the sum wrapped around, so an exact-output swap could leave the pool nearly unpaid.
---
 programs/core/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 6c2171a..0247b8f 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1179,9 +1179,11 @@ pub mod cyclos_core {
             step.amount_out = swap_step.amount_out;
             step.fee_amount = swap_step.fee_amount;
 
+            // the input plus its fee must not wrap around u64
+            let amount_in_with_fee =
+                i64::try_from(step.amount_in.checked_add(step.fee_amount).unwrap()).unwrap();
             if exact_input {
-                state.amount_specified_remaining -=
-                    i64::try_from(step.amount_in + step.fee_amount).unwrap();
+                state.amount_specified_remaining -= amount_in_with_fee;
                 state.amount_calculated = state
                     .amount_calculated
                     .checked_sub(i64::try_from(step.amount_out).unwrap())
@@ -1190,7 +1192,7 @@ pub mod cyclos_core {
                 state.amount_specified_remaining += i64::try_from(step.amount_out).unwrap();
                 state.amount_calculated = state
                     .amount_calculated
-                    .checked_add(i64::try_from(step.amount_in + step.fee_amount).unwrap())
+                    .checked_add(amount_in_with_fee)
                     .unwrap();
             }
 
-- 
2.43.0


From 0a8c11ca1a355c4acff074a44ee9bd89c2554fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:48 +0000
Subject: [PATCH 03/17] fix: mint's payment check no longer wraps around u64

vault balance + amount owed wrapped in release builds, so liquidity needing close to 2^64 tokens
passed the check without any payment.
---
 programs/core/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 0247b8f..7f5008b 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -667,13 +667,13 @@ pub mod cyclos_core {
 
         if amount_0 > 0 {
             require!(
-                balance_0_before + amount_0 <= ctx.accounts.vault_0.amount,
+                balance_0_before.checked_add(amount_0).unwrap() <= ctx.accounts.vault_0.amount,
                 ErrorCode::M0
             );
         }
         if amount_1 > 0 {
             require!(
-                balance_1_before + amount_1 <= ctx.accounts.vault_1.amount,
+                balance_1_before.checked_add(amount_1).unwrap() <= ctx.accounts.vault_1.amount,
                 ErrorCode::M1
             );
         }
-- 
2.43.0


From a8d5d87ecda48bf67f1dffa2efcc045658ed54f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:24 +0000
Subject: [PATCH 04/17] fix: the router measures the output received, not the
 input paid

exact_input_internal returned the increase of the input vault, so amount_out_minimum never
protected the trader and multi-hop swaps passed the wrong amount to the next pool.
---
 programs/core/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 7f5008b..15aa3ed 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -2095,7 +2095,7 @@ pub fn exact_input_internal<'info>(
     let pool_state = AccountLoader::<PoolState>::try_from(&accounts.pool_state)?;
     let zero_for_one = accounts.input_vault.mint == pool_state.load()?.token_0;
 
-    let balance_before = accounts.input_vault.amount;
+    let balance_before = accounts.output_vault.amount;
     swap(
         Context::new(&ID, accounts, remaining_accounts, BTreeMap::default()),
         i64::try_from(amount_in).unwrap(),
@@ -2110,8 +2110,9 @@ pub fn exact_input_internal<'info>(
         },
     )?;
 
-    accounts.input_vault.reload()?;
-    Ok(accounts.input_vault.amount - balance_before)
+    // the amount received is what left the output vault
+    accounts.output_vault.reload()?;
+    Ok(balance_before - accounts.output_vault.amount)
 }
 
 /// Common checks for a valid tick input.
-- 
2.43.0


From f2424d88101c9b23c9477b8b842413dbd79bf29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:24 +0000
Subject: [PATCH 05/17] fix: BurnEvent reports the upper tick of the position

---
 programs/core/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 15aa3ed..007eb99 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -794,7 +794,7 @@ pub mod cyclos_core {
             pool_state: ctx.accounts.pool_state.key(),
             owner: ctx.accounts.owner.key(),
             tick_lower: tick_lower.tick,
-            tick_upper: tick_lower.tick,
+            tick_upper: tick_upper.tick,
             amount,
             amount_0,
             amount_1,
-- 
2.43.0


From d22c11c6847006989616f4a54f711b54b5778016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:24 +0000
Subject: [PATCH 06/17] fix: collect pays only from the pool's own vaults of
 each token

The vault accounts were not checked, so a position could collect the token_1 amount it is owed
out of the token_0 vault or the reverse.
---
 programs/core/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 007eb99..8d4a369 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -854,6 +854,15 @@ pub mod cyclos_core {
             tick_upper.tick,
         )?;
 
+        assert!(
+            ctx.accounts.vault_0.key()
+                == get_associated_token_address(&pool_state.key(), &pool.token_0)
+        );
+        assert!(
+            ctx.accounts.vault_1.key()
+                == get_associated_token_address(&pool_state.key(), &pool.token_1)
+        );
+
         require!(pool.unlocked, ErrorCode::LOK);
         pool.unlocked = false;
 
-- 
2.43.0


From 5d889c6ec4887d7c3c69835a31a677d472ad9cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:24 +0000
Subject: [PATCH 07/17] fix: tokenized position instructions require the
 position's own pool and ticks

increase_liquidity, decrease_liquidity and collect_from_tokenized accepted any pool and tick
accounts, so an NFT holder could withdraw the liquidity and fees of other NFT positions.
---
 programs/core/src/lib.rs                      | 31 +++++++++++++++++++
 .../core/src/states/tokenized_position.rs     | 23 ++++++++++++++
 2 files changed, 54 insertions(+)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 8d4a369..6cb4f90 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1671,6 +1671,11 @@ pub mod cyclos_core {
             AccountLoader::<TickState>::try_from(&ctx.accounts.tick_upper_state.to_account_info())?;
         let tick_upper = tick_upper_state.load()?.tick;
 
+        ctx.accounts
+            .tokenized_position_state
+            .load()?
+            .validate_core_position(&pool_state.key(), tick_lower, tick_upper)?;
+
         let mut accs = MintContext {
             minter: ctx.accounts.payer.clone(),
             token_account_0: ctx.accounts.token_account_0.clone(),
@@ -1755,6 +1760,19 @@ pub mod cyclos_core {
     ) -> Result<()> {
         assert!(liquidity > 0);
 
+        let tick_lower =
+            AccountLoader::<TickState>::try_from(&ctx.accounts.tick_lower_state.to_account_info())?
+                .load()?
+                .tick;
+        let tick_upper =
+            AccountLoader::<TickState>::try_from(&ctx.accounts.tick_upper_state.to_account_info())?
+                .load()?
+                .tick;
+        ctx.accounts
+            .tokenized_position_state
+            .load()?
+            .validate_core_position(&ctx.accounts.pool_state.key(), tick_lower, tick_upper)?;
+
         let position_state = AccountLoader::<PositionState>::try_from(
             &ctx.accounts.core_position_state.to_account_info(),
         )?;
@@ -1836,7 +1854,20 @@ pub mod cyclos_core {
     ) -> Result<()> {
         assert!(amount_0_max > 0 || amount_1_max > 0);
 
+        let tick_lower =
+            AccountLoader::<TickState>::try_from(&ctx.accounts.tick_lower_state.to_account_info())?
+                .load()?
+                .tick;
+        let tick_upper =
+            AccountLoader::<TickState>::try_from(&ctx.accounts.tick_upper_state.to_account_info())?
+                .load()?
+                .tick;
         let mut tokenized_position = ctx.accounts.tokenized_position_state.load_mut()?;
+        tokenized_position.validate_core_position(
+            &ctx.accounts.pool_state.key(),
+            tick_lower,
+            tick_upper,
+        )?;
         let mut tokens_owed_0 = tokenized_position.tokens_owed_0;
         let mut tokens_owed_1 = tokenized_position.tokens_owed_1;
 
diff --git a/programs/core/src/states/tokenized_position.rs b/programs/core/src/states/tokenized_position.rs
index 6b5f295..8db94fa 100644
--- a/programs/core/src/states/tokenized_position.rs
+++ b/programs/core/src/states/tokenized_position.rs
@@ -39,6 +39,29 @@ pub struct TokenizedPositionState {
     pub tokens_owed_1: u64,
 }
 
+impl TokenizedPositionState {
+    /// Validates that a pool and tick range are the ones this position was created for
+    ///
+    /// # Arguments
+    ///
+    /// * `self` - The tokenized position
+    /// * `pool_id` - The address of the pool
+    /// * `tick_lower` - The lower tick of the core position
+    /// * `tick_upper` - The upper tick of the core position
+    ///
+    pub fn validate_core_position(
+        self,
+        pool_id: &Pubkey,
+        tick_lower: i32,
+        tick_upper: i32,
+    ) -> Result<()> {
+        let position_pool = self.pool_id;
+        assert!(position_pool == *pool_id);
+        assert!(self.tick_lower == tick_lower && self.tick_upper == tick_upper);
+        Ok(())
+    }
+}
+
 /// Emitted when liquidity is increased for a position NFT.
 /// Also emitted when a token is minted
 #[event]
-- 
2.43.0


From 2123bc63a9111e372009cc726b722585e4ca6ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:24 +0000
Subject: [PATCH 08/17] fix: decrease_liquidity cannot remove more than the
 tokenized position holds

The subtraction wrapped in release builds, letting an NFT burn liquidity of other NFTs that share
the same core position.
---
 programs/core/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 6cb4f90..51c9b0d 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1825,7 +1825,8 @@ pub mod cyclos_core {
 
         tokenized_position.fee_growth_inside_0_last_x32 = fee_growth_inside_0_last_x32;
         tokenized_position.fee_growth_inside_1_last_x32 = fee_growth_inside_1_last_x32;
-        tokenized_position.liquidity -= liquidity;
+        tokenized_position.liquidity =
+            tokenized_position.liquidity.checked_sub(liquidity).unwrap();
 
         emit!(DecreaseLiquidityEvent {
             token_id: tokenized_position.mint,
-- 
2.43.0


From 4a46318edbd8923b1d4c14f7bb14e732ce1b8dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:24 +0000
Subject: [PATCH 09/17] fix: decrease_liquidity credits the burned amounts
 without other positions' fees

The change of the core position's tokens owed includes the fees accrued by every NFT sharing it,
which were credited to the caller and counted towards the minimum amounts.
---
 programs/core/src/lib.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 51c9b0d..9944110 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1776,8 +1776,7 @@ pub mod cyclos_core {
         let position_state = AccountLoader::<PositionState>::try_from(
             &ctx.accounts.core_position_state.to_account_info(),
         )?;
-        let tokens_owed_0_before = position_state.load()?.tokens_owed_0;
-        let tokens_owed_1_before = position_state.load()?.tokens_owed_1;
+        let core_position_before = *position_state.load()?.deref();
 
         let mut core_position_owner = ctx.accounts.factory_state.to_account_info();
         core_position_owner.is_signer = true;
@@ -1801,8 +1800,20 @@ pub mod cyclos_core {
             liquidity,
         )?;
         let updated_core_position = accounts.position_state.load()?;
-        let amount_0 = updated_core_position.tokens_owed_0 - tokens_owed_0_before;
-        let amount_1 = updated_core_position.tokens_owed_1 - tokens_owed_1_before;
+        // the burn also credits the core position with the fees accrued by all its liquidity,
+        // which do not belong to the amounts withdrawn
+        let fees_0 = (updated_core_position.fee_growth_inside_0_last_x32
+            - core_position_before.fee_growth_inside_0_last_x32)
+            .mul_div_floor(core_position_before.liquidity, fixed_point_32::Q32)
+            .unwrap();
+        let fees_1 = (updated_core_position.fee_growth_inside_1_last_x32
+            - core_position_before.fee_growth_inside_1_last_x32)
+            .mul_div_floor(core_position_before.liquidity, fixed_point_32::Q32)
+            .unwrap();
+        let amount_0 =
+            updated_core_position.tokens_owed_0 - core_position_before.tokens_owed_0 - fees_0;
+        let amount_1 =
+            updated_core_position.tokens_owed_1 - core_position_before.tokens_owed_1 - fees_1;
         require!(
             amount_0 >= amount_0_min && amount_1 >= amount_1_min,
             ErrorCode::PriceSlippageCheck
-- 
2.43.0


From 1e4a47ccb85698a52c1be5f6716383503a02f8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:12 +0000
Subject: [PATCH 10/17] fix: swap accumulates the oracle with the tick from
 before the swap

The elapsed time was multiplied by the post-swap tick, so a single swap could rewrite the price
history since the last observation.
---
 programs/core/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 9944110..3b2479f 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1312,7 +1312,7 @@ pub mod cyclos_core {
             } else {
                 last_observation_state.load_mut()?
             };
-            pool.tick = state.tick;
+            // the time since the last observation was spent at the tick from before the swap
             pool.observation_cardinality_next = next_observation.update(
                 cache.block_timestamp,
                 pool.tick,
@@ -1320,6 +1320,7 @@ pub mod cyclos_core {
                 pool.observation_cardinality,
                 pool.observation_cardinality_next,
             );
+            pool.tick = state.tick;
         }
         pool.sqrt_price_x32 = state.sqrt_price_x32;
 
-- 
2.43.0


From f784024f3e2fe000240d25abac5471af15108357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:12 +0000
Subject: [PATCH 11/17] fix: swap moves the pool to the observation slot it
 wrote

pool.observation_index was not advanced, leaving the latest observation unreachable.
---
 programs/core/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 3b2479f..081d0a9 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1320,6 +1320,7 @@ pub mod cyclos_core {
                 pool.observation_cardinality,
                 pool.observation_cardinality_next,
             );
+            pool.observation_index = next_observation.index;
             pool.tick = state.tick;
         }
         pool.sqrt_price_x32 = state.sqrt_price_x32;
-- 
2.43.0


From ccdba102929a4ed42280eaebbf384dea65a2fc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:12 +0000
Subject: [PATCH 12/17] fix: a new observation continues from the latest one
 and keeps the slot counts

A new slot accumulated from its own stale contents instead of the latest observation, and the
resulting cardinality was stored in observation_cardinality_next, which forgot created slots.
observation_cardinality now counts the initialized slots as described in the README.
---
 programs/core/src/lib.rs           | 10 ++++++----
 programs/core/src/states/oracle.rs | 21 ++++++++++++---------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 081d0a9..b1ea343 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1287,6 +1287,7 @@ pub mod cyclos_core {
         }
         let partition_current_timestamp = cache.block_timestamp / 14;
         let partition_last_timestamp = latest_observation.block_timestamp / 14;
+        let last_observation = *latest_observation.deref();
         drop(latest_observation);
 
         // update tick and write an oracle entry if the tick changes
@@ -1313,12 +1314,12 @@ pub mod cyclos_core {
                 last_observation_state.load_mut()?
             };
             // the time since the last observation was spent at the tick from before the swap
-            pool.observation_cardinality_next = next_observation.update(
+            pool.observation_cardinality = next_observation.update(
+                &last_observation,
                 cache.block_timestamp,
                 pool.tick,
                 cache.liquidity_start,
                 pool.observation_cardinality,
-                pool.observation_cardinality_next,
             );
             pool.observation_index = next_observation.index;
             pool.tick = state.tick;
@@ -2263,6 +2264,7 @@ pub fn _modify_position<'info>(
             let timestamp = oracle::_block_timestamp();
             let partition_current_timestamp = timestamp / 14;
             let partition_last_timestamp = latest_observation.block_timestamp / 14;
+            let last_observation = *latest_observation.deref();
             drop(latest_observation);
 
             let next_observation_state;
@@ -2281,12 +2283,12 @@ pub fn _modify_position<'info>(
                 last_observation_state.load_mut()?
             };
 
-            pool_state.observation_cardinality_next = new_observation.update(
+            pool_state.observation_cardinality = new_observation.update(
+                &last_observation,
                 timestamp,
                 pool_state.tick,
                 pool_state.liquidity,
                 pool_state.observation_cardinality,
-                pool_state.observation_cardinality_next,
             );
             pool_state.observation_index = new_observation.index;
 
diff --git a/programs/core/src/states/oracle.rs b/programs/core/src/states/oracle.rs
index 8614b3a..66ec4b7 100644
--- a/programs/core/src/states/oracle.rs
+++ b/programs/core/src/states/oracle.rs
@@ -72,35 +72,38 @@ impl ObservationState {
     /// Writes an oracle observation to the account, returning the updated cardinality.
     /// Writable at most once per second. Index represents the most recently written element.
     /// cardinality and index must be tracked externally.
-    /// If the index is at the end of the allowable array length (according to cardinality),
-    /// and the next cardinality is greater than the current one, cardinality may be increased.
-    /// This restriction is created to preserve ordering.
+    /// Slots are written in order, so cardinality increases when a slot is written for the first time.
     ///
     /// # Arguments
     ///
     /// * `self` - The observation account to write in
+    /// * `last` - The latest observation of the pool. Same as `self` when it is being overwritten
     /// * `block_timestamp` - The timestamp of the new observation
     /// * `tick` - The active tick at the time of the new observation
     /// * `liquidity` - The total in-range liquidity at the time of the new observation
     /// * `cardinality` - The number of populated elements in the oracle array
-    /// * `cardinality_next` - The new length of the oracle array, independent of population
     ///
     pub fn update(
         &mut self,
+        last: &ObservationState,
         block_timestamp: u32,
         tick: i32,
         liquidity: u64,
         cardinality: u16,
-        cardinality_next: u16,
     ) -> u16 {
-        if self.block_timestamp == block_timestamp {
+        if last.block_timestamp == block_timestamp {
             return cardinality;
         }
 
-        *self = self.transform(block_timestamp, tick, liquidity);
+        let newly_initialized = !self.initialized;
+        *self = ObservationState {
+            bump: self.bump,
+            index: self.index,
+            ..last.transform(block_timestamp, tick, liquidity)
+        };
 
-        if cardinality_next > cardinality && self.index == (cardinality - 1) {
-            cardinality_next
+        if newly_initialized {
+            cardinality + 1
         } else {
             cardinality
         }
-- 
2.43.0


From 1018b097beb9f94462536281da50eed31225833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:33 +0000
Subject: [PATCH 13/17] fix: oracle growth works when the observation address
 already holds lamports

create_account fails for a funded address, so anyone could block the growth of a pool's oracle for
good by sending one lamport to the next observation address.
---
 programs/core/src/lib.rs | 62 ++++++++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 18 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index b1ea343..0f22b99 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -18,7 +18,7 @@ use crate::{
 };
 use anchor_lang::prelude::*;
 use anchor_lang::solana_program;
-use anchor_lang::solana_program::system_instruction::create_account;
+use anchor_lang::solana_program::system_instruction::{allocate, assign, create_account, transfer};
 use anchor_lang::{solana_program::instruction::Instruction, InstructionData};
 use anchor_spl::associated_token::get_associated_token_address;
 use anchor_spl::token;
@@ -225,23 +225,49 @@ pub mod cyclos_core {
             let space = 8 + size_of::<ObservationState>();
             let rent = Rent::get()?;
             let lamports = rent.minimum_balance(space);
-            let ix = create_account(
-                ctx.accounts.payer.key,
-                &ctx.remaining_accounts[i].key,
-                lamports,
-                space as u64,
-                ctx.program_id,
-            );
-
-            solana_program::program::invoke_signed(
-                &ix,
-                &[
-                    ctx.accounts.payer.to_account_info(),
-                    ctx.remaining_accounts[i].to_account_info(),
-                    ctx.accounts.system_program.to_account_info(),
-                ],
-                &[&observation_account_seeds[..]],
-            )?;
+            let observation_account = &ctx.remaining_accounts[i];
+            let account_infos = [
+                ctx.accounts.payer.to_account_info(),
+                observation_account.to_account_info(),
+                ctx.accounts.system_program.to_account_info(),
+            ];
+            if observation_account.lamports() == 0 {
+                solana_program::program::invoke_signed(
+                    &create_account(
+                        ctx.accounts.payer.key,
+                        observation_account.key,
+                        lamports,
+                        space as u64,
+                        ctx.program_id,
+                    ),
+                    &account_infos,
+                    &[&observation_account_seeds[..]],
+                )?;
+            } else {
+                // anyone can transfer lamports to the address in advance, for which
+                // `create_account` would fail
+                let required_lamports = lamports.saturating_sub(observation_account.lamports());
+                if required_lamports > 0 {
+                    solana_program::program::invoke(
+                        &transfer(
+                            ctx.accounts.payer.key,
+                            observation_account.key,
+                            required_lamports,
+                        ),
+                        &account_infos,
+                    )?;
+                }
+                solana_program::program::invoke_signed(
+                    &allocate(observation_account.key, space as u64),
+                    &account_infos,
+                    &[&observation_account_seeds[..]],
+                )?;
+                solana_program::program::invoke_signed(
+                    &assign(observation_account.key, ctx.program_id),
+                    &account_infos,
+                    &[&observation_account_seeds[..]],
+                )?;
+            }
 
             let observation_state_loader = AccountLoader::<ObservationState>::try_from_unchecked(
                 &cyclos_core::id(),
-- 
2.43.0


From ea1a87106ce8628907eb924277b0ac851a744ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:33 +0000
Subject: [PATCH 14/17] fix: enforce the minimum output of exact_input when the
 path is empty

---
 programs/core/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 0f22b99..fb3debb 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -2115,6 +2115,10 @@ pub mod cyclos_core {
                 input_token_account = output_token_account;
             }
         }
+        // a path without pools delivers nothing
+        if additional_accounts_per_pool.is_empty() {
+            amount_in_internal = 0;
+        }
         require!(
             amount_in_internal >= amount_out_minimum,
             ErrorCode::TooLittleReceived
-- 
2.43.0


From 964fe9f5778cf11a4b3cd4f08ae65e9b521ac6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:20 +0000
Subject: [PATCH 15/17] fix: create observation slots at their canonical
 addresses only

---
 programs/core/src/lib.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index fb3debb..7d98cd6 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -212,13 +212,15 @@ pub mod cyclos_core {
                 &[observation_account_bumps[i]],
             ];
 
+            // the slot must be at its canonical address, where everyone looks for it
             require!(
-                ctx.remaining_accounts[i].key()
-                    == Pubkey::create_program_address(
-                        &observation_account_seeds[..],
-                        &ctx.program_id
-                    )
-                    .unwrap(),
+                (
+                    ctx.remaining_accounts[i].key(),
+                    observation_account_bumps[i]
+                ) == Pubkey::find_program_address(
+                    &observation_account_seeds[..5],
+                    &ctx.program_id
+                ),
                 ErrorCode::OS
             );
 
-- 
2.43.0


From bc39e56dfb009dce1a6c17e97d518dadb6d8685c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:01 +0000
Subject: [PATCH 16/17] fix: a closed tick that outlived its closing can be
 initialized again

Lamports sent to a tick account in the transaction that closes it keep the account alive, marked as
closed, for which it could never be initialized again. Anyone could so disable an unused tick of any
pool, and with it the collection of tokens owed to positions that end there.
---
 programs/core/src/context.rs |   9 +--
 programs/core/src/lib.rs     | 151 +++++++++++++++++++++++------------
 2 files changed, 106 insertions(+), 54 deletions(-)

diff --git a/programs/core/src/context.rs b/programs/core/src/context.rs
index a308b36..4b78d62 100644
--- a/programs/core/src/context.rs
+++ b/programs/core/src/context.rs
@@ -205,8 +205,9 @@ pub struct InitTickAccount<'info> {
     pub pool_state: AccountLoader<'info, PoolState>,
 
     /// The tick account to be initialized
+    /// CHECK: The account is created inside function body
     #[account(
-        init,
+        mut,
         seeds = [
             TICK_SEED.as_bytes(),
             pool_state.load()?.token_0.as_ref(),
@@ -214,11 +215,9 @@ pub struct InitTickAccount<'info> {
             &pool_state.load()?.fee.to_be_bytes(),
             &tick.to_be_bytes()
         ],
-        bump,
-        payer = signer,
-        space = 8 + size_of::<TickState>()
+        bump
     )]
-    pub tick_state: AccountLoader<'info, TickState>,
+    pub tick_state: UncheckedAccount<'info>,
 
     /// Program to initialize the tick account
     pub system_program: Program<'info, System>,
diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 7d98cd6..f2af514 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -17,6 +17,7 @@ use crate::{
     states::{oracle::OBSERVATION_SEED, tick_bitmap},
 };
 use anchor_lang::prelude::*;
+use anchor_lang::__private::CLOSED_ACCOUNT_DISCRIMINATOR;
 use anchor_lang::solana_program;
 use anchor_lang::solana_program::system_instruction::{allocate, assign, create_account, transfer};
 use anchor_lang::{solana_program::instruction::Instruction, InstructionData};
@@ -224,52 +225,14 @@ pub mod cyclos_core {
                 ErrorCode::OS
             );
 
-            let space = 8 + size_of::<ObservationState>();
-            let rent = Rent::get()?;
-            let lamports = rent.minimum_balance(space);
-            let observation_account = &ctx.remaining_accounts[i];
-            let account_infos = [
-                ctx.accounts.payer.to_account_info(),
-                observation_account.to_account_info(),
-                ctx.accounts.system_program.to_account_info(),
-            ];
-            if observation_account.lamports() == 0 {
-                solana_program::program::invoke_signed(
-                    &create_account(
-                        ctx.accounts.payer.key,
-                        observation_account.key,
-                        lamports,
-                        space as u64,
-                        ctx.program_id,
-                    ),
-                    &account_infos,
-                    &[&observation_account_seeds[..]],
-                )?;
-            } else {
-                // anyone can transfer lamports to the address in advance, for which
-                // `create_account` would fail
-                let required_lamports = lamports.saturating_sub(observation_account.lamports());
-                if required_lamports > 0 {
-                    solana_program::program::invoke(
-                        &transfer(
-                            ctx.accounts.payer.key,
-                            observation_account.key,
-                            required_lamports,
-                        ),
-                        &account_infos,
-                    )?;
-                }
-                solana_program::program::invoke_signed(
-                    &allocate(observation_account.key, space as u64),
-                    &account_infos,
-                    &[&observation_account_seeds[..]],
-                )?;
-                solana_program::program::invoke_signed(
-                    &assign(observation_account.key, ctx.program_id),
-                    &account_infos,
-                    &[&observation_account_seeds[..]],
-                )?;
-            }
+            create_program_account(
+                &ctx.accounts.payer.to_account_info(),
+                &ctx.remaining_accounts[i],
+                &ctx.accounts.system_program.to_account_info(),
+                8 + size_of::<ObservationState>(),
+                &observation_account_seeds[..],
+                ctx.program_id,
+            )?;
 
             let observation_state_loader = AccountLoader::<ObservationState>::try_from_unchecked(
                 &cyclos_core::id(),
@@ -424,10 +387,31 @@ pub mod cyclos_core {
     pub fn init_tick_account(ctx: Context<InitTickAccount>, tick: i32) -> Result<()> {
         let pool_state = ctx.accounts.pool_state.load()?;
         check_tick(tick, pool_state.tick_spacing)?;
-        let mut tick_state = ctx.accounts.tick_state.load_init()?;
-        tick_state.bump = *ctx.bumps.get("tick_state").unwrap();
+        let bump = *ctx.bumps.get("tick_state").unwrap();
+        let tick_account = ctx.accounts.tick_state.to_account_info();
+        create_program_account(
+            &ctx.accounts.signer.to_account_info(),
+            &tick_account,
+            &ctx.accounts.system_program.to_account_info(),
+            8 + size_of::<TickState>(),
+            &[
+                TICK_SEED.as_bytes(),
+                pool_state.token_0.as_ref(),
+                pool_state.token_1.as_ref(),
+                &pool_state.fee.to_be_bytes(),
+                &tick.to_be_bytes(),
+                &[bump],
+            ],
+            ctx.program_id,
+        )?;
+
+        let tick_state_loader =
+            AccountLoader::<TickState>::try_from_unchecked(ctx.program_id, &tick_account)?;
+        let mut tick_state = tick_state_loader.load_init()?;
+        tick_state.bump = bump;
         tick_state.tick = tick;
-        Ok(())
+        drop(tick_state);
+        tick_state_loader.exit(ctx.program_id)
     }
 
     /// Reclaims lamports from a cleared tick account
@@ -2509,3 +2493,72 @@ pub fn add_liquidity<'info>(
 
     Ok((liquidity, amount_0, amount_1))
 }
+
+/// Creates a rent exempt program account with zeroed contents at a program derived address.
+///
+/// The address may already hold lamports, as anyone can transfer some to it, in which case
+/// `create_account` would fail. It may also hold an account which was closed by this program but
+/// received lamports in the same transaction, for which it was never removed.
+///
+/// # Arguments
+///
+/// * `payer` - Pays for the account
+/// * `account` - The account to create
+/// * `system_program` - Program to create the account
+/// * `space` - Size of the account
+/// * `seeds` - Seeds of the account address, including the bump
+/// * `program_id` - Address of this program, the owner of the account
+///
+fn create_program_account<'info>(
+    payer: &AccountInfo<'info>,
+    account: &AccountInfo<'info>,
+    system_program: &AccountInfo<'info>,
+    space: usize,
+    seeds: &[&[u8]],
+    program_id: &Pubkey,
+) -> Result<()> {
+    let rent_lamports = Rent::get()?.minimum_balance(space);
+    let account_infos = [payer.clone(), account.clone(), system_program.clone()];
+    if account.lamports() == 0 && account.owner != program_id {
+        solana_program::program::invoke_signed(
+            &create_account(
+                payer.key,
+                account.key,
+                rent_lamports,
+                space as u64,
+                program_id,
+            ),
+            &account_infos,
+            &[seeds],
+        )?;
+        return Ok(());
+    }
+
+    let required_lamports = rent_lamports.saturating_sub(account.lamports());
+    if required_lamports > 0 {
+        solana_program::program::invoke(
+            &transfer(payer.key, account.key, required_lamports),
+            &account_infos,
+        )?;
+    }
+    if account.owner == program_id {
+        let mut data = account.try_borrow_mut_data()?;
+        require!(
+            data.len() == space && data.starts_with(&CLOSED_ACCOUNT_DISCRIMINATOR),
+            anchor_lang::error::ErrorCode::AccountDiscriminatorAlreadySet
+        );
+        data.fill(0);
+    } else {
+        solana_program::program::invoke_signed(
+            &allocate(account.key, space as u64),
+            &account_infos,
+            &[seeds],
+        )?;
+        solana_program::program::invoke_signed(
+            &assign(account.key, program_id),
+            &account_infos,
+            &[seeds],
+        )?;
+    }
+    Ok(())
+}
-- 
2.43.0


From 8e094b62d84e1cee83b688172f3feba166bc5f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:17 +0000
Subject: [PATCH 17/17] fix: cap a tick's liquidity so that its net always fits

A deposit next to somebody else's position could make the signed net
liquidity of their shared tick overflow when the other position is
withdrawn, so that withdrawal failed for as long as the deposit stayed.
---
 programs/core/src/states/tick.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/programs/core/src/states/tick.rs b/programs/core/src/states/tick.rs
index 393a20b..fbd52d2 100644
--- a/programs/core/src/states/tick.rs
+++ b/programs/core/src/states/tick.rs
@@ -81,6 +81,13 @@ impl TickState {
         // entire tick range can never be traversed
         // require!(liquidity_gross_after <= max_liquidity, ErrorCode::LO);
 
+        // The net liquidity is signed, and any subset of the positions at a tick can remain as others leave.
+        // It always fits as long as their total does; otherwise a large deposit could block withdrawals.
+        require!(
+            liquidity_delta < 0 || liquidity_gross_after <= i64::MAX as u64,
+            ErrorCode::LO
+        );
+
         // Either liquidity_gross_after becomes 0 (uninitialized) XOR liquidity_gross_before
         // was zero (initialized)
         let flipped = (liquidity_gross_after == 0) != (liquidity_gross_before == 0);
-- 
2.43.0

