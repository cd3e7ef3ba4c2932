From cec17bd0109e43e56e2253d518919636baf9708c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 01/18] fix: stable pool update_config must require the admin's
 authorization

---
 contracts/pool_stable/src/contract.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/contracts/pool_stable/src/contract.rs b/contracts/pool_stable/src/contract.rs
index 6948dd4..601c428 100644
--- a/contracts/pool_stable/src/contract.rs
+++ b/contracts/pool_stable/src/contract.rs
@@ -570,6 +570,7 @@ impl StableLiquidityPoolTrait for StableLiquidityPool {
         max_allowed_slippage_bps: Option<i64>,
         max_allowed_spread_bps: Option<i64>,
     ) {
+        sender.require_auth();
         if sender != utils::get_admin(&env) {
             log!(&env, "Pool Stable: UpdateConfig: Unauthorized");
             panic_with_error!(&env, ContractError::Unauthorized);
-- 
2.43.0


From bd8fc28f76f31944d4029506a146e64e0647c83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:10 +0000
Subject: [PATCH 02/18] fix: stable pool invariant must use the same
 amplification as its swap curve

compute_d scaled the leverage by 1e18 while the balances it is combined with
are plain integers, so the invariant degenerated to the sum of the balances.
Swaps on an imbalanced pool were then priced against a curve the pool is not
on: they were refused or paid far too little in both directions, and
one-sided deposits were credited as if both assets were worth the same.
The first deposit, which only sets the scale of a share, still issues one
share per token. The solver's tolerance is brought below one unit of a
7 decimals token.
---
 contracts/pool_stable/src/contract.rs | 17 ++++++++---------
 contracts/pool_stable/src/math.rs     | 10 ++++------
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/contracts/pool_stable/src/contract.rs b/contracts/pool_stable/src/contract.rs
index 601c428..809cab4 100644
--- a/contracts/pool_stable/src/contract.rs
+++ b/contracts/pool_stable/src/contract.rs
@@ -342,19 +342,18 @@ impl StableLiquidityPoolTrait for StableLiquidityPool {
         let new_balance_a = convert_i128_to_u128(actual_received_a + old_balance_a);
         let new_balance_b = convert_i128_to_u128(actual_received_b + old_balance_b);
 
-        let new_invariant = compute_d(
-            &env,
-            amp as u128,
-            &[
-                scale_value(new_balance_a, token_a_decimals, DECIMAL_PRECISION),
-                scale_value(new_balance_b, token_b_decimals, DECIMAL_PRECISION),
-            ],
-        );
+        let new_pools = [
+            scale_value(new_balance_a, token_a_decimals, DECIMAL_PRECISION),
+            scale_value(new_balance_b, token_b_decimals, DECIMAL_PRECISION),
+        ];
+        let new_invariant = compute_d(&env, amp as u128, &new_pools);
 
         let total_shares = utils::get_total_shares(&env);
         let shares = if total_shares == 0 {
             let divisor = 10u128.pow(DECIMAL_PRECISION - greatest_precision);
-            let share = (new_invariant
+            // the first deposit only sets the scale of a share: one per token, which is the
+            // invariant at the highest amplification
+            let share = (compute_d(&env, (MAX_AMP * AMP_PRECISION) as u128, &new_pools)
                 .to_u128()
                 .expect("Pool stable: provide_liquidity: conversion to u128 failed")
                 / divisor)
diff --git a/contracts/pool_stable/src/math.rs b/contracts/pool_stable/src/math.rs
index d0badba..faba4aa 100644
--- a/contracts/pool_stable/src/math.rs
+++ b/contracts/pool_stable/src/math.rs
@@ -13,12 +13,10 @@ pub const AMP_PRECISION: u64 = 100;
 const ITERATIONS: u8 = 64;
 /// N = 2
 const N_COINS: u128 = 2;
-/// N = 2 with DECIMAL_PRECISION (18) digits
-const N_COINS_PRECISION: u128 = 2000000000000000000;
 /// 1*10**18
 const DECIMAL_FRACTIONAL: u128 = 1_000_000_000_000_000_000;
-/// 1e-6
-const TOL: u128 = 1000000000000;
+/// 1e-9, well below one unit of the usual 7 decimals tokens
+const TOL: u128 = 1_000_000_000;
 
 pub fn scale_value(atomics: u128, decimal_places: u32, target_decimal_places: u32) -> u128 {
     const TEN: u128 = 10;
@@ -73,7 +71,7 @@ pub(crate) fn compute_current_amp(env: &Env, amp_params: &AmplifierParameters) -
 ///
 /// A * sum(x_i) * n**n + D = A * D * n**n + D**(n+1) / (n**n * prod(x_i))
 pub fn compute_d(env: &Env, amp: u128, pools: &[u128]) -> U256 {
-    let leverage = U256::from_u128(env, (amp / AMP_PRECISION as u128) * N_COINS_PRECISION);
+    let leverage = U256::from_u128(env, amp * N_COINS / AMP_PRECISION as u128);
     let amount_a_times_coins = pools[0] * N_COINS;
     let amount_b_times_coins = pools[1] * N_COINS;
 
@@ -94,7 +92,7 @@ pub fn compute_d(env: &Env, amp: u128, pools: &[u128]) -> U256 {
         ));
         d_previous = d.clone();
         d = calculate_step(env, &d, &leverage, &sum_x, &d_product);
-        // Equality with the precision of 1e-6
+        // Equality with the precision of 1e-9
         if abs_diff(&d, &d_previous) <= U256::from_u128(env, TOL) {
             return d;
         }
-- 
2.43.0


From 6d4ad21bbd92ffbbb07a58e3d29454b80e8be8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:28 +0000
Subject: [PATCH 03/18] fix: stable pool math must not overflow at ordinary
 pool sizes

With balances scaled to 18 digits the product of the balances overflowed 128
bits beyond about 9 tokens a side, the cube of the invariant times the
amplification overflowed 256 bits, and the share ratio overflowed for
deposits above 170 tokens, so ordinary deposits and swaps were refused.
---
 contracts/pool_stable/src/contract.rs | 21 +++++++--------------
 contracts/pool_stable/src/math.rs     | 27 +++++++++++++++------------
 2 files changed, 22 insertions(+), 26 deletions(-)

diff --git a/contracts/pool_stable/src/contract.rs b/contracts/pool_stable/src/contract.rs
index 809cab4..c491723 100644
--- a/contracts/pool_stable/src/contract.rs
+++ b/contracts/pool_stable/src/contract.rs
@@ -4,6 +4,7 @@ use phoenix::{
 };
 use soroban_sdk::{
     contract, contractimpl, contractmeta, log, panic_with_error, Address, BytesN, Env, String,
+    U256,
 };
 
 use crate::{
@@ -383,22 +384,14 @@ impl StableLiquidityPoolTrait for StableLiquidityPool {
                         DECIMAL_PRECISION,
                     ),
                 ],
-            )
-            .to_u128()
-            .expect("Pool stable: provide_liquidity: conversion to u128 failed");
-
-            // Calculate the proportion of the change in invariant
-            let invariant_delta = convert_u128_to_i128(
-                new_invariant
-                    .to_u128()
-                    .expect("Pool stable: provide_liquidity: conversion to u128 failed")
-                    - initial_invariant,
             );
 
-            let initial_invariant = convert_u128_to_i128(initial_invariant);
-            convert_i128_to_u128(
-                total_shares * (Decimal::new(invariant_delta) / Decimal::new(initial_invariant)),
-            )
+            // The issued shares grow as much as the invariant
+            U256::from_u128(&env, convert_i128_to_u128(total_shares))
+                .mul(&new_invariant.sub(&initial_invariant))
+                .div(&initial_invariant)
+                .to_u128()
+                .expect("Pool stable: provide_liquidity: conversion to u128 failed")
         };
 
         if let Some(min_shares) = min_shares_to_receive {
diff --git a/contracts/pool_stable/src/math.rs b/contracts/pool_stable/src/math.rs
index faba4aa..7826a86 100644
--- a/contracts/pool_stable/src/math.rs
+++ b/contracts/pool_stable/src/math.rs
@@ -13,8 +13,6 @@ pub const AMP_PRECISION: u64 = 100;
 const ITERATIONS: u8 = 64;
 /// N = 2
 const N_COINS: u128 = 2;
-/// 1*10**18
-const DECIMAL_FRACTIONAL: u128 = 1_000_000_000_000_000_000;
 /// 1e-9, well below one unit of the usual 7 decimals tokens
 const TOL: u128 = 1_000_000_000;
 
@@ -72,8 +70,8 @@ pub(crate) fn compute_current_amp(env: &Env, amp_params: &AmplifierParameters) -
 /// A * sum(x_i) * n**n + D = A * D * n**n + D**(n+1) / (n**n * prod(x_i))
 pub fn compute_d(env: &Env, amp: u128, pools: &[u128]) -> U256 {
     let leverage = U256::from_u128(env, amp * N_COINS / AMP_PRECISION as u128);
-    let amount_a_times_coins = pools[0] * N_COINS;
-    let amount_b_times_coins = pools[1] * N_COINS;
+    let amount_a_times_coins = U256::from_u128(env, pools[0]).mul(&U256::from_u128(env, N_COINS));
+    let amount_b_times_coins = U256::from_u128(env, pools[1]).mul(&U256::from_u128(env, N_COINS));
 
     let sum_x = U256::from_u128(env, pools[0] + pools[1]); // sum(x_i), a.k.a S
     let zero = U256::from_u128(env, 0u128);
@@ -86,10 +84,12 @@ pub fn compute_d(env: &Env, amp: u128, pools: &[u128]) -> U256 {
 
     // Newton's method to approximate D
     for _ in 0..ITERATIONS {
-        let d_product = d.pow(3).div(&U256::from_u128(
-            env,
-            amount_a_times_coins * amount_b_times_coins,
-        ));
+        // one factor at a time to stay within 256 bits
+        let d_product = d
+            .pow(2)
+            .div(&amount_a_times_coins)
+            .mul(&d)
+            .div(&amount_b_times_coins);
         d_previous = d.clone();
         d = calculate_step(env, &d, &leverage, &sum_x, &d_product);
         // Equality with the precision of 1e-9
@@ -153,13 +153,16 @@ pub(crate) fn calc_y(
     let new_amount = U256::from_u128(env, new_amount);
 
     let d = compute_d(env, amp, xp);
-    let leverage = U256::from_u128(env, amp * DECIMAL_FRACTIONAL * N_COINS);
-    let amp_prec = U256::from_u128(env, AMP_PRECISION as u128 * DECIMAL_FRACTIONAL);
+    let leverage = U256::from_u128(env, amp * N_COINS);
+    let amp_prec = U256::from_u128(env, AMP_PRECISION as u128);
 
+    // one factor at a time to stay within 256 bits
     let c = d
-        .pow(3)
+        .pow(2)
+        .div(&new_amount.mul(&n_coins))
+        .mul(&d)
         .mul(&amp_prec)
-        .div(&new_amount.mul(&n_coins.mul(&n_coins)).mul(&leverage));
+        .div(&leverage.mul(&n_coins));
 
     let b = new_amount.add(&d.mul(&amp_prec).div(&leverage));
 
-- 
2.43.0


From ec669aac375bc6cc9ed813f3da967326eed2afd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:01 +0000
Subject: [PATCH 04/18] fix: stable pool swaps must scale each token by its own
 decimals

With tokens of different decimals the offered balance was scaled by the
greater of the two precisions and the solved balance was read in it, so that
every swap and quote was refused or mispriced.
---
 contracts/pool_stable/src/contract.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/contracts/pool_stable/src/contract.rs b/contracts/pool_stable/src/contract.rs
index c491723..b771eea 100644
--- a/contracts/pool_stable/src/contract.rs
+++ b/contracts/pool_stable/src/contract.rs
@@ -1010,25 +1010,28 @@ pub fn compute_swap(
     let amp_parameters = get_amp(env);
     let amp = compute_current_amp(env, &amp_parameters);
 
-    let greatest_precision = get_greatest_precision(env);
-
-    let new_ask_pool = calc_y(
+    let mut new_ask_pool = calc_y(
         env,
         amp as u128,
         scale_value(
             offer_pool + offer_amount,
-            greatest_precision,
+            offer_pool_precision,
             DECIMAL_PRECISION,
         ),
         &[
             scale_value(offer_pool, offer_pool_precision, DECIMAL_PRECISION),
             scale_value(ask_pool, ask_pool_precision, DECIMAL_PRECISION),
         ],
-        greatest_precision,
+        ask_pool_precision,
     );
+    // a fraction of a unit of a coarser ask token must not buy the whole unit
+    if ask_pool_precision < offer_pool_precision {
+        new_ask_pool += 1;
+    }
 
     let return_amount = ask_pool - new_ask_pool;
     // We consider swap rate 1:1 in stable swap thus any difference is considered as spread.
+    let offer_amount = scale_value(offer_amount, offer_pool_precision, ask_pool_precision);
     let spread_amount = if offer_amount > return_amount {
         convert_u128_to_i128(offer_amount - return_amount)
     } else {
@@ -1065,29 +1068,28 @@ pub fn compute_offer_amount(
     let inv_one_minus_commission = Decimal::one() / one_minus_commission;
     let before_commission = inv_one_minus_commission * convert_u128_to_i128(ask_amount);
 
-    let greatest_precision = get_greatest_precision(env);
-
     let new_offer_pool = calc_y(
         env,
         amp as u128,
         scale_value(
             ask_pool - convert_i128_to_u128(before_commission),
-            greatest_precision,
+            ask_pool_precision,
             DECIMAL_PRECISION,
         ),
         &[
             scale_value(offer_pool, offer_pool_precision, DECIMAL_PRECISION),
             scale_value(ask_pool, ask_pool_precision, DECIMAL_PRECISION),
         ],
-        greatest_precision,
+        offer_pool_precision,
     );
 
     let offer_amount = new_offer_pool - offer_pool;
 
     let ask_before_commission = convert_u128_to_i128(ask_amount) * inv_one_minus_commission;
     // We consider swap rate 1:1 in stable swap thus any difference is considered as spread.
-    let spread_amount = if offer_amount > ask_amount {
-        offer_amount - ask_amount
+    let offer_value = scale_value(offer_amount, offer_pool_precision, ask_pool_precision);
+    let spread_amount = if offer_value > ask_amount {
+        offer_value - ask_amount
     } else {
         // saturating sub equivalent
         0
-- 
2.43.0


From 3d91efc85c80281097b887cd465f6b8b6278e15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:46 +0000
Subject: [PATCH 05/18] fix: stake rewards must not underflow for stakes bonded
 after a distribution

---
 contracts/stake/src/distribution.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contracts/stake/src/distribution.rs b/contracts/stake/src/distribution.rs
index 4587ce7..06fe297 100644
--- a/contracts/stake/src/distribution.rs
+++ b/contracts/stake/src/distribution.rs
@@ -100,8 +100,10 @@ pub fn calculate_pending_rewards(
                     for stake in user_info.stakes.iter() {
                         // Calculate the user's share of the total staked amount at the time
                         let user_share = stake.stake as u128 * daily_reward / total_staked;
-                        let stake_age_days =
-                            (staking_reward_day - stake.stake_timestamp) / SECONDS_PER_DAY;
+                        // a stake bonded after the distribution has no age at it
+                        let stake_age_days = staking_reward_day
+                            .saturating_sub(stake.stake_timestamp)
+                            / SECONDS_PER_DAY;
                         let multiplier = if stake_age_days >= 60 {
                             Decimal::one()
                         } else {
-- 
2.43.0


From b5c4f734b28b22f6801aa0ab6bf26791269813e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:51 +0000
Subject: [PATCH 06/18] fix: stake distributions at one ledger time must add
 up, not overwrite each other

---
 contracts/stake/src/contract.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/contracts/stake/src/contract.rs b/contracts/stake/src/contract.rs
index c767a81..44fc407 100644
--- a/contracts/stake/src/contract.rs
+++ b/contracts/stake/src/contract.rs
@@ -241,12 +241,17 @@ impl StakingTrait for Staking {
         let current_timestamp = env.ledger().timestamp();
         let total_staked_amount = get_total_staked_counter(&env);
 
+        // several distributions can share one ledger time: they add up, and the stakes counted
+        // are those of the first one (a stake bonded since then has not earned anything yet)
         let mut total_staked_history = get_total_staked_history(&env);
-        total_staked_history.set(current_timestamp, total_staked_amount as u128);
-        save_total_staked_history(&env, total_staked_history);
+        if !total_staked_history.contains_key(current_timestamp) {
+            total_staked_history.set(current_timestamp, total_staked_amount as u128);
+            save_total_staked_history(&env, total_staked_history);
+        }
 
         let mut reward_history = get_reward_history(&env, &reward_token);
-        reward_history.set(current_timestamp, amount as u128);
+        let distributed = reward_history.get(current_timestamp).unwrap_or(0);
+        reward_history.set(current_timestamp, distributed + amount as u128);
         save_reward_history(&env, &reward_token, reward_history);
 
         token_contract::Client::new(&env, &reward_token).transfer(
-- 
2.43.0


From 225c232185a6c1627168421c4e535f793e025cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:12 +0000
Subject: [PATCH 07/18] fix: stake distribution right after a withdrawal at the
 same ledger time must not be lost

---
 contracts/stake/src/contract.rs |  8 +++++++-
 contracts/stake/src/storage.rs  | 12 ++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/contracts/stake/src/contract.rs b/contracts/stake/src/contract.rs
index 44fc407..42351ff 100644
--- a/contracts/stake/src/contract.rs
+++ b/contracts/stake/src/contract.rs
@@ -238,7 +238,12 @@ impl StakingTrait for Staking {
             panic_with_error!(&env, ContractError::DistributionNotFound);
         }
 
-        let current_timestamp = env.ledger().timestamp();
+        // whoever has withdrawn at this ledger time is only paid for later times: a distribution
+        // that follows counts for the next second, or it would be lost to them
+        let mut current_timestamp = env.ledger().timestamp();
+        if utils::get_last_withdrawal(&env) == Some(current_timestamp) {
+            current_timestamp += 1;
+        }
         let total_staked_amount = get_total_staked_counter(&env);
 
         // several distributions can share one ledger time: they add up, and the stakes counted
@@ -286,6 +291,7 @@ impl StakingTrait for Staking {
         }
         stakes.last_reward_time = env.ledger().timestamp();
         save_stakes(&env, &sender, &stakes);
+        utils::save_last_withdrawal(&env, stakes.last_reward_time);
     }
 
     // QUERIES
diff --git a/contracts/stake/src/storage.rs b/contracts/stake/src/storage.rs
index aa87ffd..b9c92b3 100644
--- a/contracts/stake/src/storage.rs
+++ b/contracts/stake/src/storage.rs
@@ -112,6 +112,7 @@ pub mod utils {
         Distributions = 2,
         Initialized = 3,
         StakeRewards = 4,
+        LastWithdrawal = 5,
     }
 
     impl TryFromVal<Env, DataKey> for Val {
@@ -206,6 +207,17 @@ pub mod utils {
         total_staked
     }
 
+    // Ledger time of the most recent withdrawal of rewards by anybody
+    pub fn save_last_withdrawal(e: &Env, timestamp: u64) {
+        e.storage()
+            .instance()
+            .set(&DataKey::LastWithdrawal, &timestamp);
+    }
+
+    pub fn get_last_withdrawal(e: &Env) -> Option<u64> {
+        e.storage().instance().get(&DataKey::LastWithdrawal)
+    }
+
     // Keep track of all distributions to be able to iterate over them
     pub fn add_distribution(e: &Env, asset: &Address) {
         let mut distributions = get_distributions(e);
-- 
2.43.0


From 25525670c2672d3f42278a466f891f9d321366ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:01 +0000
Subject: [PATCH 08/18] fix: multihop reverse quote must pass the stable pool
 the asset being offered

---
 contracts/multihop/src/contract.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/multihop/src/contract.rs b/contracts/multihop/src/contract.rs
index dcd39a6..bf73edd 100644
--- a/contracts/multihop/src/contract.rs
+++ b/contracts/multihop/src/contract.rs
@@ -265,8 +265,9 @@ impl MultihopTrait for Multihop {
                 }
                 PoolType::Stable => {
                     let lp_client = stable_pool::Client::new(&env, &pool_address);
+                    // unlike the xyk pool, the stable pool takes the asset being offered
                     let simulated_reverse_swap =
-                        lp_client.simulate_reverse_swap(&op.ask_asset, &next_ask_amount);
+                        lp_client.simulate_reverse_swap(&op.offer_asset, &next_ask_amount);
 
                     let token_symbol = token_contract::Client::new(&env, &op.ask_asset).symbol();
 
-- 
2.43.0


From 3a820e1e7389c3ab32cab14204e4a29c8e4adcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:01 +0000
Subject: [PATCH 09/18] fix: trader must trade its own balance when no amount
 is given

---
 contracts/trader/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/trader/src/contract.rs b/contracts/trader/src/contract.rs
index 4dae3a9..093fcd3 100644
--- a/contracts/trader/src/contract.rs
+++ b/contracts/trader/src/contract.rs
@@ -149,7 +149,7 @@ impl TraderTrait for Trader {
         let amount = if let Some(amount) = amount {
             amount as i128
         } else {
-            token_client.balance(&sender)
+            token_client.balance(&env.current_contract_address())
         };
 
         let amount_swapped = lp_client.swap(
-- 
2.43.0


From 6473a348864b7bb7ec0376aca069c69906c3c39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:08 +0000
Subject: [PATCH 10/18] fix: trader must authorize the pool to take the tokens
 it trades

---
 contracts/trader/src/contract.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/contracts/trader/src/contract.rs b/contracts/trader/src/contract.rs
index 093fcd3..5ea6a81 100644
--- a/contracts/trader/src/contract.rs
+++ b/contracts/trader/src/contract.rs
@@ -1,6 +1,8 @@
 use phoenix::ttl::{INSTANCE_BUMP_AMOUNT, INSTANCE_LIFETIME_THRESHOLD};
 use soroban_sdk::{
-    contract, contractimpl, contractmeta, log, panic_with_error, Address, Env, String,
+    auth::{ContractContext, InvokerContractAuthEntry, SubContractInvocation},
+    contract, contractimpl, contractmeta, log, panic_with_error, symbol_short, vec, Address, Env,
+    IntoVal, String,
 };
 
 use crate::{
@@ -152,6 +154,24 @@ impl TraderTrait for Trader {
             token_client.balance(&env.current_contract_address())
         };
 
+        // the pool takes the tokens with a call of its own, which has to be authorized
+        env.authorize_as_current_contract(vec![
+            &env,
+            InvokerContractAuthEntry::Contract(SubContractInvocation {
+                context: ContractContext {
+                    contract: token_to_swap.clone(),
+                    fn_name: symbol_short!("transfer"),
+                    args: (
+                        env.current_contract_address(),
+                        liquidity_pool.clone(),
+                        amount,
+                    )
+                        .into_val(&env),
+                },
+                sub_invocations: vec![&env],
+            }),
+        ]);
+
         let amount_swapped = lp_client.swap(
             &env.current_contract_address(),
             &token_to_swap,
-- 
2.43.0


From f5f580aa528574839e72f8823ff13185bef07b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:45 +0000
Subject: [PATCH 11/18] fix: a reward distribution must last its duration from
 its start and never lock its tokens for ever

---
 contracts/stake_rewards/src/contract.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/contracts/stake_rewards/src/contract.rs b/contracts/stake_rewards/src/contract.rs
index 3c2e1c8..fbb1193 100644
--- a/contracts/stake_rewards/src/contract.rs
+++ b/contracts/stake_rewards/src/contract.rs
@@ -375,7 +375,7 @@ impl StakingRewardsTrait for StakingRewards {
         let reward_token_client = token_contract::Client::new(&env, &config.reward_token);
         reward_token_client.transfer(&admin, &env.current_contract_address(), &token_amount);
 
-        let end_time = current_time + distribution_duration;
+        let end_time = start_time + distribution_duration;
         // define a distribution curve starting at start_time with token_amount of tokens
         // and ending at end_time with 0 tokens
         let new_reward_distribution = Curve::saturating_linear(
@@ -386,7 +386,12 @@ impl StakingRewardsTrait for StakingRewards {
         // Validate the the curve locks at most the amount provided and
         // also fully unlocks all rewards sent
         let (min, max) = new_reward_distribution.range();
-        if min != 0 || max > convert_i128_to_u128(token_amount) {
+        if new_reward_distribution
+            .validate_monotonic_decreasing()
+            .is_err()
+            || min != 0
+            || max > convert_i128_to_u128(token_amount)
+        {
             log!(
                 &env,
                 "Stake rewards: Fund distribution: Rewards validation failed"
-- 
2.43.0


From 580e445094ff8eaf1bf5daab803cb1819d01af50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:55 +0000
Subject: [PATCH 12/18] fix: the annualized reward must not shrink with every
 distribution made

---
 contracts/stake_rewards/src/contract.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/contracts/stake_rewards/src/contract.rs b/contracts/stake_rewards/src/contract.rs
index fbb1193..91d452c 100644
--- a/contracts/stake_rewards/src/contract.rs
+++ b/contracts/stake_rewards/src/contract.rs
@@ -470,14 +470,9 @@ impl StakingRewardsTrait for StakingRewards {
             };
         }
 
-        // get distribution data for the given reward
-        let distribution = get_distribution(&env, &config.reward_token);
         let curve = get_reward_curve(&env, &config.reward_token);
         let annualized_payout = calculate_annualized_payout(curve, now);
-        let apr = annualized_payout
-            / convert_u128_to_i128(
-                convert_i128_to_u128(total_stake_power) * distribution.shares_per_point,
-            );
+        let apr = annualized_payout / total_stake_power;
 
         AnnualizedRewardResponse {
             asset: config.reward_token.clone(),
-- 
2.43.0


From 61e2ac736e0a4e26518e5cd14526b43282e7e2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 13/18] fix: distributing rewards must not fail when combined
 curves round up the locked amount

---
 contracts/stake_rewards/src/contract.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/contracts/stake_rewards/src/contract.rs b/contracts/stake_rewards/src/contract.rs
index 91d452c..c933e4d 100644
--- a/contracts/stake_rewards/src/contract.rs
+++ b/contracts/stake_rewards/src/contract.rs
@@ -258,7 +258,9 @@ impl StakingRewardsTrait for StakingRewards {
         // Calculate how much we have received since the last time Distributed was called,
         // including only the reward config amount that is eligible for distribution.
         // This is the amount we will distribute to all mem
-        let amount = undistributed_rewards - withdrawable - curve.value(env.ledger().timestamp());
+        // Combining curves rounds their values up, so slightly more can be locked than is left.
+        let amount = (undistributed_rewards - withdrawable)
+            .saturating_sub(curve.value(env.ledger().timestamp()));
 
         if amount == 0 {
             return;
-- 
2.43.0


From a44cd484cce95a00286bcf61146bcc683e200228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 14/18] fix: Decimal must print and parse negative fractions
 with their sign

---
 packages/decimal/src/decimal.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/packages/decimal/src/decimal.rs b/packages/decimal/src/decimal.rs
index ed89696..697a543 100644
--- a/packages/decimal/src/decimal.rs
+++ b/packages/decimal/src/decimal.rs
@@ -363,7 +363,12 @@ impl FromStr for Decimal {
             let exp = Self::DECIMAL_PLACES - fractional_part.len() as i32;
             assert!(exp >= 0, "There must be at least one fractional digit");
             let fractional_factor = 10i128.pow(exp as u32);
-            atomics += fractional * fractional_factor;
+            // The sign of the whole part applies to the fractional part too
+            if whole_part.starts_with('-') {
+                atomics -= fractional * fractional_factor;
+            } else {
+                atomics += fractional * fractional_factor;
+            }
         }
 
         assert!(parts_iter.next().is_none(), "Unexpected number of dots");
@@ -375,7 +380,9 @@ impl FromStr for Decimal {
 impl fmt::Display for Decimal {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         let whole = self.0 / Self::DECIMAL_FRACTIONAL;
-        let fractional = self.0 % Self::DECIMAL_FRACTIONAL;
+        let fractional = (self.0 % Self::DECIMAL_FRACTIONAL).unsigned_abs();
+        // A whole part of zero does not show the sign
+        let sign = if self.0 < 0 && whole == 0 { "-" } else { "" };
 
         if fractional == 0 {
             write!(f, "{}", whole)
@@ -386,7 +393,8 @@ impl fmt::Display for Decimal {
                 padding = Self::DECIMAL_PLACES as usize
             );
             f.write_fmt(format_args!(
-                "{}.{}",
+                "{}{}.{}",
+                sign,
                 whole,
                 fractional_string.trim_end_matches('0')
             ))
-- 
2.43.0


From aec8fd2f18e106874e14c7901cba054491de7d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 15/18] fix: Decimal::abs_diff must fail rather than wrap when
 the difference does not fit

---
 packages/decimal/src/decimal.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/decimal/src/decimal.rs b/packages/decimal/src/decimal.rs
index 697a543..d576015 100644
--- a/packages/decimal/src/decimal.rs
+++ b/packages/decimal/src/decimal.rs
@@ -263,7 +263,12 @@ impl Decimal {
     }
 
     pub const fn abs_diff(self, other: Self) -> Self {
-        Self(self.0.abs_diff(other.0) as i128)
+        let diff = self.0.abs_diff(other.0);
+        assert!(
+            diff <= i128::MAX as u128,
+            "attempt to subtract with overflow"
+        );
+        Self(diff as i128)
     }
 }
 
-- 
2.43.0


From 84c0d8a8c05762672bb6cd38cf0c57023816d775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 16/18] fix: pool upgrade refuses a default slippage out of
 range

---
 contracts/pool/src/contract.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/contracts/pool/src/contract.rs b/contracts/pool/src/contract.rs
index ca9e8d6..aeb1ec9 100644
--- a/contracts/pool/src/contract.rs
+++ b/contracts/pool/src/contract.rs
@@ -583,6 +583,7 @@ impl LiquidityPoolTrait for LiquidityPool {
     fn upgrade(env: Env, new_wasm_hash: BytesN<32>, new_default_slippage_bps: i64) {
         let admin: Address = utils::get_admin(&env);
         admin.require_auth();
+        validate_bps!(new_default_slippage_bps);
 
         env.deployer().update_current_contract_wasm(new_wasm_hash);
         save_default_slippage_bps(&env, new_default_slippage_bps);
-- 
2.43.0


From 40e2ba5720b1f486a8c40b51948c548ee972226c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 17/18] fix: removing an account from the factory whitelist
 removes every mention of it

---
 contracts/factory/src/contract.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/factory/src/contract.rs b/contracts/factory/src/contract.rs
index 6970225..5ae365f 100644
--- a/contracts/factory/src/contract.rs
+++ b/contracts/factory/src/contract.rs
@@ -264,7 +264,8 @@ impl FactoryTrait for Factory {
         });
 
         to_remove.into_iter().for_each(|addr| {
-            if let Some(id) = whitelisted_accounts.iter().position(|x| x == addr) {
+            // the accounts given at initialization may name somebody more than once
+            while let Some(id) = whitelisted_accounts.iter().position(|x| x == addr) {
                 whitelisted_accounts.remove(id as u32);
             }
         });
-- 
2.43.0


From bd6e0250f0a4355569d0f9971fd8f45971dea769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:25 +0000
Subject: [PATCH 18/18] fix: the reward distribution's records must be kept
 from expiring while in use

---
 contracts/stake_rewards/src/distribution.rs | 66 +++++++++++----------
 1 file changed, 36 insertions(+), 30 deletions(-)

diff --git a/contracts/stake_rewards/src/distribution.rs b/contracts/stake_rewards/src/distribution.rs
index 745607e..2e903d4 100644
--- a/contracts/stake_rewards/src/distribution.rs
+++ b/contracts/stake_rewards/src/distribution.rs
@@ -1,3 +1,4 @@
+use phoenix::ttl::{PERSISTENT_BUMP_AMOUNT, PERSISTENT_LIFETIME_THRESHOLD};
 use phoenix::utils::convert_i128_to_u128;
 use soroban_sdk::{contracttype, Address, Env, Vec};
 
@@ -38,17 +39,28 @@ pub enum DistributionDataKey {
     WithdrawAdjustment(WithdrawAdjustmentKey),
 }
 
+// records in use are kept from expiring
+fn extend_ttl(env: &Env, key: &DistributionDataKey) {
+    if env.storage().persistent().has(key) {
+        env.storage().persistent().extend_ttl(
+            key,
+            PERSISTENT_LIFETIME_THRESHOLD,
+            PERSISTENT_BUMP_AMOUNT,
+        );
+    }
+}
+
 // one reward distribution curve over one denom
 pub fn save_reward_curve(env: &Env, asset: Address, distribution_curve: &Curve) {
-    env.storage()
-        .persistent()
-        .set(&DistributionDataKey::Curve(asset), distribution_curve);
+    let key = DistributionDataKey::Curve(asset);
+    env.storage().persistent().set(&key, distribution_curve);
+    extend_ttl(env, &key);
 }
 
 pub fn get_reward_curve(env: &Env, asset: &Address) -> Option<Curve> {
-    env.storage()
-        .persistent()
-        .get(&DistributionDataKey::Curve(asset.clone()))
+    let key = DistributionDataKey::Curve(asset.clone());
+    extend_ttl(env, &key);
+    env.storage().persistent().get(&key)
 }
 
 #[contracttype]
@@ -69,17 +81,15 @@ pub struct Distribution {
 }
 
 pub fn save_distribution(env: &Env, asset: &Address, distribution: &Distribution) {
-    env.storage().persistent().set(
-        &DistributionDataKey::Distribution(asset.clone()),
-        distribution,
-    );
+    let key = DistributionDataKey::Distribution(asset.clone());
+    env.storage().persistent().set(&key, distribution);
+    extend_ttl(env, &key);
 }
 
 pub fn get_distribution(env: &Env, asset: &Address) -> Distribution {
-    env.storage()
-        .persistent()
-        .get(&DistributionDataKey::Distribution(asset.clone()))
-        .unwrap()
+    let key = DistributionDataKey::Distribution(asset.clone());
+    extend_ttl(env, &key);
+    env.storage().persistent().get(&key).unwrap()
 }
 
 pub fn update_rewards(
@@ -138,13 +148,12 @@ pub fn save_withdraw_adjustment(
     distribution: &Address,
     adjustment: &WithdrawAdjustment,
 ) {
-    env.storage().persistent().set(
-        &DistributionDataKey::WithdrawAdjustment(WithdrawAdjustmentKey {
-            user: user.clone(),
-            asset: distribution.clone(),
-        }),
-        adjustment,
-    );
+    let key = DistributionDataKey::WithdrawAdjustment(WithdrawAdjustmentKey {
+        user: user.clone(),
+        asset: distribution.clone(),
+    });
+    env.storage().persistent().set(&key, adjustment);
+    extend_ttl(env, &key);
 }
 
 pub fn get_withdraw_adjustment(
@@ -152,15 +161,12 @@ pub fn get_withdraw_adjustment(
     user: &Address,
     distribution: &Address,
 ) -> WithdrawAdjustment {
-    env.storage()
-        .persistent()
-        .get(&DistributionDataKey::WithdrawAdjustment(
-            WithdrawAdjustmentKey {
-                user: user.clone(),
-                asset: distribution.clone(),
-            },
-        ))
-        .unwrap_or_default()
+    let key = DistributionDataKey::WithdrawAdjustment(WithdrawAdjustmentKey {
+        user: user.clone(),
+        asset: distribution.clone(),
+    });
+    extend_ttl(env, &key);
+    env.storage().persistent().get(&key).unwrap_or_default()
 }
 
 pub fn withdrawable_rewards(
-- 
2.43.0

