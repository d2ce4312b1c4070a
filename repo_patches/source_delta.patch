From 79032a9c2fea3ba1caa91b285a265e00a8c09adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:35 +0000
Subject: [PATCH 1/3] fix: round the swap output down so that it never exceeds
 the constant product

---
 contracts/halo-pair/src/contract.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/contracts/halo-pair/src/contract.rs b/contracts/halo-pair/src/contract.rs
index dfa45cb..8285f84 100644
--- a/contracts/halo-pair/src/contract.rs
+++ b/contracts/halo-pair/src/contract.rs
@@ -608,13 +608,10 @@ fn compute_swap(
     // hoanm: EQUATION - B = (R_B - \frac{K}{R_A + A}) * (1 - F)
     // ask_amount = (ask_pool - cp / (offer_pool + offer_amount)) * (1 - commission_rate)
 
-    // cp (constant product) is K  in the EQUATION
-    let cp: Uint256 = offer_pool * ask_pool;
-
     // calculate the ask_amount without commission
-    let return_amount: Uint256 = (Decimal256::from_uint256(ask_pool)
-        - Decimal256::from_ratio(cp, offer_pool + offer_amount))
-        * Uint256::one();
+    // R_B - K / (R_A + A) is the same as A * R_B / (R_A + A), which is rounded down here so that
+    // the pool never pays more than the constant product allows
+    let return_amount: Uint256 = ask_pool.multiply_ratio(offer_amount, offer_pool + offer_amount);
 
     // calculate the spread_amount
     // hoanm: EQUATION - SPREAD = (A * \frac{R_B}{R_A}) - B
-- 
2.43.0


From 2f7fbf4598a313a7e61803842e171c9011508592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 2/3] fix: start a page of pairs strictly after the given pair,
 skipping none

---
 contracts/halo-factory/src/state.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/contracts/halo-factory/src/state.rs b/contracts/halo-factory/src/state.rs
index 9a7dc05..159bd49 100644
--- a/contracts/halo-factory/src/state.rs
+++ b/contracts/halo-factory/src/state.rs
@@ -52,18 +52,13 @@ pub fn read_pairs(
         .collect::<StdResult<Vec<PairInfo>>>()
 }
 
-// this will set the first key after the provided key, by appending a 1 byte
+// this is the key of the provided pair: the range starts strictly after it
 fn calc_range_start(start_after: Option<[AssetInfoRaw; 2]>) -> Option<Vec<u8>> {
     start_after.map(|asset_infos| {
         let mut asset_infos = asset_infos.to_vec();
         asset_infos.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));
 
-        let mut v = [asset_infos[0].as_bytes(), asset_infos[1].as_bytes()]
-            .concat()
-            .as_slice()
-            .to_vec();
-        v.push(1);
-        v
+        [asset_infos[0].as_bytes(), asset_infos[1].as_bytes()].concat()
     })
 }
 
-- 
2.43.0


From e55135f7a046e8fce3b159fe0cd366239c6ec488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:01 +0000
Subject: [PATCH 3/3] fix: refuse a pair of one token given in two spellings of
 its address

---
 contracts/halo-factory/src/contract.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/halo-factory/src/contract.rs b/contracts/halo-factory/src/contract.rs
index 2b2e98a..49dc545 100644
--- a/contracts/halo-factory/src/contract.rs
+++ b/contracts/halo-factory/src/contract.rs
@@ -133,6 +133,11 @@ pub fn execute_create_pair(
         asset_infos[1].to_raw(deps.api)?,
     ];
 
+    // the same token may be given in two spellings of its address
+    if raw_infos[0] == raw_infos[1] {
+        return Err(StdError::generic_err("same asset"));
+    }
+
     let asset_decimals = [asset_1_decimal, asset_2_decimal];
 
     let pair_key = pair_key(&raw_infos);
-- 
2.43.0

