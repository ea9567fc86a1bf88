From f71614a33fa39ca5a117a4270c929eab6d97c27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 01/10] fix: settle a token transfer on any error reply, not
 only on a decodable one

---
 src/invariant_service.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/invariant_service.rs b/src/invariant_service.rs
index 84828a8..0ab92df 100644
--- a/src/invariant_service.rs
+++ b/src/invariant_service.rs
@@ -1223,8 +1223,11 @@ fn reply_with_err_and_leave(err: InvariantError) {
 
 pub fn reply_handler(token: ActorId, msg_id: MessageId) {
     let invariant = InvariantStorage::as_mut();
+    // an error reply does not have to carry a decodable payload, the reply code tells that the transfer has failed
+    if matches!(msg::reply_code(), Ok(code) if code.is_error()) {
+        handle_panic(invariant, token, msg_id)
     // message is a valid reply
-    if let Ok(msg) = msg::load::<(String, String, bool)>() {
+    } else if let Ok(msg) = msg::load::<(String, String, bool)>() {
         if msg.0 == "Vft" && msg.1 == "TransferFrom" {
             handle_valid_reply(invariant, token, msg_id, msg.2)
         } else {
-- 
2.43.0


From 171075f27d0883484be07a369d946f238a09267c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 02/10] fix: keep a timed out token transfer recorded until its
 reply arrives

---
 src/invariant_service.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/invariant_service.rs b/src/invariant_service.rs
index 0ab92df..41e3454 100644
--- a/src/invariant_service.rs
+++ b/src/invariant_service.rs
@@ -1189,6 +1189,16 @@ where
         token: ActorId,
         transfer_type: TransferType,
     ) -> Result<(), InvariantError> {
+        // The token has not answered yet. Its reply can still arrive, so the transfer has to
+        // stay recorded for the reply handler to settle it.
+        if matches!(&message, Err(e) if e.timed_out())
+            && invariant
+                .awaiting_transfers
+                .contains_key(&(message_id, token))
+        {
+            return Err(InvariantError::ReplyHandlingFailed);
+        }
+
         if invariant
             .awaiting_transfers
             .remove(&(message_id, token))
-- 
2.43.0


From 4fafd747cbd9497ed823560ed228762665ad6fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 03/10] fix: count liquidity ticks of the last tickmap chunk

---
 src/invariant_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/invariant_storage.rs b/src/invariant_storage.rs
index a38a977..74fa58a 100644
--- a/src/invariant_storage.rs
+++ b/src/invariant_storage.rs
@@ -307,7 +307,7 @@ impl Invariant {
 
     pub fn liquidity_ticks_count(&self, pool_key: PoolKey) -> u32 {
         let mut sum = 0;
-        for chunk_index in 0..get_max_chunk(pool_key.fee_tier.tick_spacing) {
+        for chunk_index in 0..=get_max_chunk(pool_key.fee_tier.tick_spacing) {
             if let Some(chunk) = self.tickmap.bitmap.get(&(chunk_index, pool_key)) {
                 sum += chunk.count_ones()
             }
-- 
2.43.0


From 9315889995a06dd4be4894784e525e12ac7dd06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 04/10] fix: cross a tick whose price is exactly the limit of
 an upward swap

When the price limit of a y to x swap equals the price of an initialised tick
and the swap ends exactly there, the current tick became that tick without
its liquidity being added or removed.
---
 sdk/src/wasm/collections/tickmap.rs  | 4 +++-
 src/contracts/collections/tickmap.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/sdk/src/wasm/collections/tickmap.rs b/sdk/src/wasm/collections/tickmap.rs
index 3841b9e..ea3eeac 100644
--- a/sdk/src/wasm/collections/tickmap.rs
+++ b/sdk/src/wasm/collections/tickmap.rs
@@ -258,8 +258,10 @@ impl Tickmap {
             Some(index) => {
                 let sqrt_price = calculate_sqrt_price(index).unwrap();
 
+                // a tick is crossed upwards as soon as its price is reached, so it
+                // limits the step even if its price is exactly the price limit
                 if (x_to_y && sqrt_price > sqrt_price_limit)
-                    || (!x_to_y && sqrt_price < sqrt_price_limit)
+                    || (!x_to_y && sqrt_price <= sqrt_price_limit)
                 {
                     Ok((sqrt_price, Some((index, true))))
                 } else {
diff --git a/src/contracts/collections/tickmap.rs b/src/contracts/collections/tickmap.rs
index c0cfbae..e614104 100644
--- a/src/contracts/collections/tickmap.rs
+++ b/src/contracts/collections/tickmap.rs
@@ -195,8 +195,10 @@ impl Tickmap {
             Some(index) => {
                 let sqrt_price = calculate_sqrt_price(index).unwrap();
 
+                // a tick is crossed upwards as soon as its price is reached, so it
+                // limits the step even if its price is exactly the price limit
                 if (x_to_y && sqrt_price > sqrt_price_limit)
-                    || (!x_to_y && sqrt_price < sqrt_price_limit)
+                    || (!x_to_y && sqrt_price <= sqrt_price_limit)
                 {
                     Ok((sqrt_price, Some((index, true))))
                 } else {
-- 
2.43.0


From e031a5939e5a7b56ff010be3890b26869a291849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 05/10] fix: do not step back onto a tick just crossed by a
 downward swap

When the rest of a downward swap is too small to move the price any further,
the current tick was recomputed from the price, which is still that of the
crossed tick: the tick's liquidity stayed active above its range.
---
 sdk/src/wasm/storage/pool.rs  | 10 +++++++++-
 src/contracts/storage/pool.rs | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/sdk/src/wasm/storage/pool.rs b/sdk/src/wasm/storage/pool.rs
index d081737..c889fc2 100644
--- a/sdk/src/wasm/storage/pool.rs
+++ b/sdk/src/wasm/storage/pool.rs
@@ -50,11 +50,19 @@ impl Pool {
         let mut total_amount = TokenAmount::new(U256::from(0));
 
         if UpdatePoolTick::NoTick == *tick || swap_limit != result.next_sqrt_price {
-            self.current_tick_index = unwrap!(get_tick_at_sqrt_price(
+            let tick_index = unwrap!(get_tick_at_sqrt_price(
                 result.next_sqrt_price,
                 fee_tier.tick_spacing as u16
             )) as i64;
 
+            // a swap downwards which does not move the price any further must not
+            // step back onto the tick it has just crossed
+            self.current_tick_index = if x_to_y {
+                tick_index.min(self.current_tick_index)
+            } else {
+                tick_index
+            };
+
             return Ok((total_amount, remaining_amount, has_crossed));
         };
 
diff --git a/src/contracts/storage/pool.rs b/src/contracts/storage/pool.rs
index f8ecacf..fa6ef97 100644
--- a/src/contracts/storage/pool.rs
+++ b/src/contracts/storage/pool.rs
@@ -156,11 +156,19 @@ impl Pool {
         let mut total_amount = TokenAmount::new(U256::from(0));
 
         if UpdatePoolTick::NoTick == *tick || swap_limit != result.next_sqrt_price {
-            self.current_tick_index = unwrap!(get_tick_at_sqrt_price(
+            let tick_index = unwrap!(get_tick_at_sqrt_price(
                 result.next_sqrt_price,
                 fee_tier.tick_spacing
             ));
 
+            // a swap downwards which does not move the price any further must not
+            // step back onto the tick it has just crossed
+            self.current_tick_index = if x_to_y {
+                tick_index.min(self.current_tick_index)
+            } else {
+                tick_index
+            };
+
             return (total_amount, remaining_amount, has_crossed);
         };
 
-- 
2.43.0


From 97fdd0543a91df407beccc6a7f1b6866a3b4b8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:02 +0000
Subject: [PATCH 06/10] fix: stop a swap step at its target price when rounding
 would carry it past

---
 calc/math/clamm.rs    | 55 +++++++++++++++++++++++++++++++++----------
 sdk/src/wasm/clamm.rs | 55 +++++++++++++++++++++++++++++++++----------
 2 files changed, 86 insertions(+), 24 deletions(-)

diff --git a/calc/math/clamm.rs b/calc/math/clamm.rs
index 3eacc5a..4341c97 100644
--- a/calc/math/clamm.rs
+++ b/calc/math/clamm.rs
@@ -31,6 +31,7 @@ pub fn compute_swap_step(
 
     let x_to_y = current_sqrt_price >= target_sqrt_price;
     let next_sqrt_price: SqrtPrice;
+    let mut amount_exhausted = false;
     let (mut amount_in, mut amount_out) = (
         TokenAmount::new(U256::from(0)),
         TokenAmount::new(U256::from(0)),
@@ -48,12 +49,20 @@ pub fn compute_swap_step(
         if amount_after_fee >= amount_in {
             next_sqrt_price = target_sqrt_price
         } else {
-            next_sqrt_price = ok_or_mark_trace!(get_next_sqrt_price_from_input(
-                current_sqrt_price,
-                liquidity,
-                amount_after_fee,
+            // amount_in is rounded up, so less than it may already pay for the whole step,
+            // but the step must never go past its target
+            next_sqrt_price = limit_to_target(
+                ok_or_mark_trace!(get_next_sqrt_price_from_input(
+                    current_sqrt_price,
+                    liquidity,
+                    amount_after_fee,
+                    x_to_y,
+                ))?,
+                target_sqrt_price,
                 x_to_y,
-            ))?;
+            );
+            amount_in = amount_after_fee;
+            amount_exhausted = true;
         };
     } else {
         amount_out = ok_or_mark_trace!(if x_to_y {
@@ -65,12 +74,16 @@ pub fn compute_swap_step(
         if amount >= amount_out {
             next_sqrt_price = target_sqrt_price
         } else {
-            next_sqrt_price = ok_or_mark_trace!(get_next_sqrt_price_from_output(
-                current_sqrt_price,
-                liquidity,
-                amount,
-                x_to_y
-            ))?;
+            next_sqrt_price = limit_to_target(
+                ok_or_mark_trace!(get_next_sqrt_price_from_output(
+                    current_sqrt_price,
+                    liquidity,
+                    amount,
+                    x_to_y
+                ))?,
+                target_sqrt_price,
+                x_to_y,
+            );
         }
     }
 
@@ -117,7 +130,7 @@ pub fn compute_swap_step(
         amount_out = amount;
     }
 
-    let fee_amount = if by_amount_in && next_sqrt_price != target_sqrt_price {
+    let fee_amount = if amount_exhausted {
         amount - amount_in
     } else {
         amount_in.big_mul_up(fee)
@@ -131,6 +144,24 @@ pub fn compute_swap_step(
     })
 }
 
+fn limit_to_target(
+    next_sqrt_price: SqrtPrice,
+    target_sqrt_price: SqrtPrice,
+    x_to_y: bool,
+) -> SqrtPrice {
+    let past_target = if x_to_y {
+        next_sqrt_price < target_sqrt_price
+    } else {
+        next_sqrt_price > target_sqrt_price
+    };
+
+    if past_target {
+        target_sqrt_price
+    } else {
+        next_sqrt_price
+    }
+}
+
 pub fn get_delta_x(
     sqrt_price_a: SqrtPrice,
     sqrt_price_b: SqrtPrice,
diff --git a/sdk/src/wasm/clamm.rs b/sdk/src/wasm/clamm.rs
index 92e7278..5fef61c 100644
--- a/sdk/src/wasm/clamm.rs
+++ b/sdk/src/wasm/clamm.rs
@@ -60,6 +60,7 @@ pub fn compute_swap_step(
 
     let x_to_y = current_sqrt_price >= target_sqrt_price;
     let next_sqrt_price: SqrtPrice;
+    let mut amount_exhausted = false;
     let (mut amount_in, mut amount_out) = (
         TokenAmount::new(U256::from(0)),
         TokenAmount::new(U256::from(0)),
@@ -77,12 +78,20 @@ pub fn compute_swap_step(
         if amount_after_fee >= amount_in {
             next_sqrt_price = target_sqrt_price
         } else {
-            next_sqrt_price = ok_or_mark_trace!(get_next_sqrt_price_from_input(
-                current_sqrt_price,
-                liquidity,
-                amount_after_fee,
+            // amount_in is rounded up, so less than it may already pay for the whole step,
+            // but the step must never go past its target
+            next_sqrt_price = limit_to_target(
+                ok_or_mark_trace!(get_next_sqrt_price_from_input(
+                    current_sqrt_price,
+                    liquidity,
+                    amount_after_fee,
+                    x_to_y,
+                ))?,
+                target_sqrt_price,
                 x_to_y,
-            ))?;
+            );
+            amount_in = amount_after_fee;
+            amount_exhausted = true;
         };
     } else {
         amount_out = ok_or_mark_trace!(if x_to_y {
@@ -94,12 +103,16 @@ pub fn compute_swap_step(
         if amount >= amount_out {
             next_sqrt_price = target_sqrt_price
         } else {
-            next_sqrt_price = ok_or_mark_trace!(get_next_sqrt_price_from_output(
-                current_sqrt_price,
-                liquidity,
-                amount,
-                x_to_y
-            ))?;
+            next_sqrt_price = limit_to_target(
+                ok_or_mark_trace!(get_next_sqrt_price_from_output(
+                    current_sqrt_price,
+                    liquidity,
+                    amount,
+                    x_to_y
+                ))?,
+                target_sqrt_price,
+                x_to_y,
+            );
         }
     }
 
@@ -146,7 +159,7 @@ pub fn compute_swap_step(
         amount_out = amount;
     }
 
-    let fee_amount = if by_amount_in && next_sqrt_price != target_sqrt_price {
+    let fee_amount = if amount_exhausted {
         amount - amount_in
     } else {
         amount_in.big_mul_up(fee)
@@ -160,6 +173,24 @@ pub fn compute_swap_step(
     })
 }
 
+fn limit_to_target(
+    next_sqrt_price: SqrtPrice,
+    target_sqrt_price: SqrtPrice,
+    x_to_y: bool,
+) -> SqrtPrice {
+    let past_target = if x_to_y {
+        next_sqrt_price < target_sqrt_price
+    } else {
+        next_sqrt_price > target_sqrt_price
+    };
+
+    if past_target {
+        target_sqrt_price
+    } else {
+        next_sqrt_price
+    }
+}
+
 #[wasm_wrapper("_getDeltaX")]
 pub fn get_delta_x(
     sqrt_price_a: SqrtPrice,
-- 
2.43.0


From a36531a3eb594e08fc21bd8218c91815a21abfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:37 +0000
Subject: [PATCH 07/10] fix: crossing a tick out of a thin range must not trap

When the amount left is far larger than the liquidity of the range that is
being left, the price it would lead to cannot be represented and the check
whether the amount suffices to change the price returned an error that was
unwrapped: swaps which the following range could serve were refused.
---
 src/contracts/storage/pool.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/contracts/storage/pool.rs b/src/contracts/storage/pool.rs
index fa6ef97..fa82655 100644
--- a/src/contracts/storage/pool.rs
+++ b/src/contracts/storage/pool.rs
@@ -172,14 +172,17 @@ impl Pool {
             return (total_amount, remaining_amount, has_crossed);
         };
 
-        let is_enough_amount_to_cross = unwrap!(is_enough_amount_to_change_price(
+        // an amount so large for the liquidity of this range that the price it would lead to
+        // cannot even be represented does change the price
+        let is_enough_amount_to_cross = is_enough_amount_to_change_price(
             remaining_amount,
             result.next_sqrt_price,
             self.liquidity,
             fee_tier.fee,
             by_amount_in,
             x_to_y,
-        ));
+        )
+        .unwrap_or(true);
 
         let tick_index = match tick {
             UpdatePoolTick::TickInitialized(tick) => {
-- 
2.43.0


From 15a52e646a066a66e6ca78ac3e18aa22629bc833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 08/10] fix: a zero-fee swap must not trap on the rounding of
 its own input

When the whole amount is used up, the input that the price change costs is
rounded up and could exceed the amount by one unit; with no fee left to
absorb it, amount - amount_in underflowed and the swap was refused.
---
 calc/math/clamm.rs    | 5 +++++
 sdk/src/wasm/clamm.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/calc/math/clamm.rs b/calc/math/clamm.rs
index 4341c97..d5f1da1 100644
--- a/calc/math/clamm.rs
+++ b/calc/math/clamm.rs
@@ -130,6 +130,11 @@ pub fn compute_swap_step(
         amount_out = amount;
     }
 
+    // all of the amount is used up, rounding up what the price change costs can not exceed it
+    if amount_exhausted && amount_in > amount {
+        amount_in = amount;
+    }
+
     let fee_amount = if amount_exhausted {
         amount - amount_in
     } else {
diff --git a/sdk/src/wasm/clamm.rs b/sdk/src/wasm/clamm.rs
index 5fef61c..3f74e0f 100644
--- a/sdk/src/wasm/clamm.rs
+++ b/sdk/src/wasm/clamm.rs
@@ -159,6 +159,11 @@ pub fn compute_swap_step(
         amount_out = amount;
     }
 
+    // all of the amount is used up, rounding up what the price change costs can not exceed it
+    if amount_exhausted && amount_in > amount {
+        amount_in = amount;
+    }
+
     let fee_amount = if amount_exhausted {
         amount - amount_in
     } else {
-- 
2.43.0


From 5c3785b3beebd4d5e7ef48ac8433919d06ab5c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:34 +0000
Subject: [PATCH 09/10] fix: the SDK's fee tier of 100 % is refused, as the
 contract does

---
 sdk/src/wasm/storage/fee_tier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/src/wasm/storage/fee_tier.rs b/sdk/src/wasm/storage/fee_tier.rs
index 67cd52e..0b8fc88 100644
--- a/sdk/src/wasm/storage/fee_tier.rs
+++ b/sdk/src/wasm/storage/fee_tier.rs
@@ -22,7 +22,7 @@ impl FeeTier {
             return Err(InvariantError::InvalidTickSpacing);
         }
 
-        if fee > Percentage::from_integer(1) {
+        if fee >= Percentage::from_integer(1) {
             return Err(InvariantError::InvalidFee);
         }
 
-- 
2.43.0


From c758ce91ebd7477d7359ea9caaec88cb9e893f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:37 +0000
Subject: [PATCH 10/10] fix: refuse pools beyond the number that the list of
 pools can count

PoolKeys counts pools with a u16 that wraps around in release builds: with the
65,536th pool the list returned by get_pool_keys starts over from zero and all
pools disappear from it.
---
 src/contracts/collections/pool_keys.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/contracts/collections/pool_keys.rs b/src/contracts/collections/pool_keys.rs
index db858e9..002dc79 100644
--- a/src/contracts/collections/pool_keys.rs
+++ b/src/contracts/collections/pool_keys.rs
@@ -18,10 +18,17 @@ impl PoolKeys {
             return Err(InvariantError::PoolKeyAlreadyExist);
         }
 
+        // the number of pools is limited by the type of their index, if it started
+        // over from zero then all of the pools would disappear from the list
+        let pool_keys_length = self
+            .pool_keys_length
+            .checked_add(1)
+            .expect("too many pools to be listed");
+
         self.pool_keys.insert(*pool_key, self.pool_keys_length);
         self.pool_keys_by_index
             .insert(self.pool_keys_length, *pool_key);
-        self.pool_keys_length += 1;
+        self.pool_keys_length = pool_keys_length;
 
         Ok(())
     }
-- 
2.43.0

