From d77c65669cd0d614e6a320fca5a19a4e79221634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:57 +0000
Subject: [PATCH 1/6] fix: count a liquidation payment only for what earlier
 payments of the same token left owed

---
 controller/src/positions/liquidation.rs | 27 +++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/controller/src/positions/liquidation.rs b/controller/src/positions/liquidation.rs
index 42fe9f1..df9f821 100644
--- a/controller/src/positions/liquidation.rs
+++ b/controller/src/positions/liquidation.rs
@@ -548,7 +548,13 @@ pub trait PositionLiquidationModule:
         >,
     ) {
         let mut total_repaid = self.ray_zero();
-        let mut repaid_tokens = ManagedVec::new();
+        let mut repaid_tokens: ManagedVec<
+            MultiValue3<
+                EgldOrEsdtTokenPayment,
+                ManagedDecimal<Self::Api, NumDecimals>,
+                PriceFeedShort<Self::Api>,
+            >,
+        > = ManagedVec::new();
         for payment_ref in repayments {
             let token_price_feed = self.token_price(&payment_ref.token_identifier, cache);
             let original_borrow_position =
@@ -560,8 +566,25 @@ pub trait PositionLiquidationModule:
                 self.token_egld_value_ray(&payment_amount_decimal, &token_price_feed.price_wad);
 
             let outstanding_debt_ray = self.total_amount_ray(&original_borrow_position, cache);
-            let outstanding_debt_egld_ray =
+            let mut outstanding_debt_egld_ray =
                 self.token_egld_value_ray(&outstanding_debt_ray, &token_price_feed.price_wad);
+
+            // Earlier payments of the same token already count towards this debt
+            let mut already_counted_egld_ray = self.ray_zero();
+            for repaid_token in &repaid_tokens {
+                let (repaid_payment, repaid_egld_ray, _) = repaid_token.clone().into_tuple();
+                if repaid_payment.token_identifier == payment_ref.token_identifier {
+                    already_counted_egld_ray += repaid_egld_ray;
+                }
+            }
+            if already_counted_egld_ray > self.ray_zero() {
+                if already_counted_egld_ray >= outstanding_debt_egld_ray {
+                    refunds.push(payment_ref.clone());
+                    continue;
+                }
+                outstanding_debt_egld_ray -= already_counted_egld_ray;
+            }
+
             let mut adjusted_payment = payment_ref.clone();
             if payment_egld_value_ray > outstanding_debt_egld_ray {
                 let excess_egld_ray = payment_egld_value_ray - outstanding_debt_egld_ray.clone();
-- 
2.43.0


From 171d5723f99d433ba7b949d21453824a24d634b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:57 +0000
Subject: [PATCH 2/6] fix: keep the isolated debt tracker in WAD precision for
 every asset

---
 controller/src/router.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/controller/src/router.rs b/controller/src/router.rs
index 722bd17..9617af8 100644
--- a/controller/src/router.rs
+++ b/controller/src/router.rs
@@ -199,8 +199,10 @@ pub trait RouterModule:
         self.pools().insert(address.clone());
 
         // Init ManagedDecimal for future usage and avoiding storage decode errors for checks
+        // The tracker holds a USD value, so its scale is WAD whatever the decimals of the asset are
+        let _ = asset_decimals;
         self.isolated_asset_debt_usd(&base_asset)
-            .set(self.to_decimal(BigUint::zero(), asset_decimals));
+            .set(self.wad_zero());
 
         require!(
             liquidation_threshold_bps > ltv,
-- 
2.43.0


From ef9e0dadc74382b867e944cf5f4945e8988464b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:08 +0000
Subject: [PATCH 3/6] fix: liquidation bonus does not underflow when the
 minimum bonus is above the cap

---
 controller/src/helpers/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/controller/src/helpers/mod.rs b/controller/src/helpers/mod.rs
index 812e7c1..a725086 100644
--- a/controller/src/helpers/mod.rs
+++ b/controller/src/helpers/mod.rs
@@ -460,7 +460,12 @@ pub trait MathsModule: common_math::SharedMathModule {
         let clamped_term_ray = self.min(scaled_term_ray, self.ray());
         // Calculate the bonus range: max_bonus - min_bonus
 
-        let bonus_range_ray = max_bonus.rescale(RAY_PRECISION) - min_bonus.clone();
+        // (an asset configured above the cap keeps its own bonus instead of blocking liquidations)
+        let max_bonus_ray = max_bonus.rescale(RAY_PRECISION);
+        if *min_bonus >= max_bonus_ray {
+            return min_bonus.clone();
+        }
+        let bonus_range_ray = max_bonus_ray - min_bonus.clone();
 
         // Calculate the bonus increment: bonus_range * clamped_term
         let bonus_increment_ray =
-- 
2.43.0


From 9a120a0abe474ac1f97e0a760e48785cb77a2169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:18 +0000
Subject: [PATCH 4/6] fix: borrowing must leave the account healthy under its
 stored liquidation thresholds

---
 controller/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/controller/src/lib.rs b/controller/src/lib.rs
index 99c0c93..8c9e336 100644
--- a/controller/src/lib.rs
+++ b/controller/src/lib.rs
@@ -274,6 +274,10 @@ pub trait Controller:
                 &ltv_collateral,
             );
         }
+
+        // Positions keep the liquidation threshold they were opened with, which can be below the
+        // current LTV, so the LTV check alone does not keep the account out of liquidation
+        self.validate_is_healthy(account_nonce, &mut cache, None);
     }
 
     /// Repays borrowed assets for an account.
-- 
2.43.0


From 03f2be70b3eaf2456c99e43532da5f995801369d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:29 +0000
Subject: [PATCH 5/6] fix: a liquidation with worthless payments is refused
 instead of being sized as if no payment were given

---
 controller/src/positions/liquidation.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/controller/src/positions/liquidation.rs b/controller/src/positions/liquidation.rs
index df9f821..7273c5a 100644
--- a/controller/src/positions/liquidation.rs
+++ b/controller/src/positions/liquidation.rs
@@ -106,6 +106,12 @@ pub trait PositionLiquidationModule:
             map_debt_indexes,
             cache,
         );
+        // Payments too small to have a value must not be taken for "no payments",
+        // which the estimation below answers with the full liquidation.
+        require!(
+            debt_payments.is_empty() || debt_payment_in_egld_ray > self.ray_zero(),
+            ERROR_NO_DEBT_PAYMENTS_TO_PROCESS
+        );
 
         let (liquidation_collateral, total_collateral, _) =
             self.calculate_collateral_values(&deposit_positions, cache);
-- 
2.43.0


From 39deb857d2c1e18bd1178e54e8c9ae64d9bdb04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 6/6] fix: lock the protocol while the swap router runs

A strategy calls the router after it has changed the pools but before the
account's positions are stored. A router (or anything it calls) could re-enter
the controller at that point, e.g. clean the account's bad debt and so write the
just borrowed debt off against the suppliers. Flash loans are locked against
this; strategies were not.
---
 controller/src/strategy.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/controller/src/strategy.rs b/controller/src/strategy.rs
index efc8116..5ff9783 100644
--- a/controller/src/strategy.rs
+++ b/controller/src/strategy.rs
@@ -877,6 +877,9 @@ pub trait SnapModule:
         caller: &ManagedAddress,
         args: ManagedArgBuffer<Self::Api>,
     ) -> EgldOrEsdtTokenPayment {
+        // Lock the protocol while external code runs, as for flash loans
+        self.flash_loan_ongoing().set(true);
+
         // Execute swap via external router with source tokens and configuration
         let back_transfers = self
             .tx()
@@ -887,6 +890,8 @@ pub trait SnapModule:
             .returns(ReturnsBackTransfers) // Reset to capture all return transfers
             .sync_call();
 
+        self.flash_loan_ongoing().set(false);
+
         // Initialize result container for target token accumulation
         let mut target_token_result =
             EgldOrEsdtTokenPayment::new(wanted_token.clone(), 0, BigUint::from(0u32));
-- 
2.43.0

