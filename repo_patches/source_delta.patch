From 75803fbf77a7e866368ca5b5da9a4385b623c608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 1/7] fix: do not panic in the omnipool withdrawal fee when the
 spot price is far above the oracle price

---
 math/src/omnipool/math.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/math/src/omnipool/math.rs b/math/src/omnipool/math.rs
index c7d6324..3a7689d 100644
--- a/math/src/omnipool/math.rs
+++ b/math/src/omnipool/math.rs
@@ -303,6 +303,11 @@ pub fn calculate_withdrawal_fee(
 		return min_fee;
 	}
 
+	// a difference of at least the oracle price is worth 100%, and dividing it by the oracle price could overflow
+	if price_diff >= oracle_price {
+		return FixedU128::one();
+	}
+
 	price_diff.div(oracle_price).clamp(min_fee, FixedU128::one())
 }
 
-- 
2.43.0


From ad23431e7432fbaa58003369e39b2f359f0d9dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:53 +0000
Subject: [PATCH 2/7] fix: do not panic in the XYK spot price when the reserve
 ratio does not fit an 18 decimal number

---
 math/src/xyk/math.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/math/src/xyk/math.rs b/math/src/xyk/math.rs
index 2542c0e..9335994 100644
--- a/math/src/xyk/math.rs
+++ b/math/src/xyk/math.rs
@@ -5,6 +5,8 @@ use crate::{
 use core::convert::TryFrom;
 use num_traits::{CheckedMul, CheckedSub, Zero};
 use primitive_types::U256;
+use sp_arithmetic::helpers_128bit::multiply_by_rational_with_rounding;
+use sp_arithmetic::per_things::Rounding;
 use sp_arithmetic::{FixedPointNumber, FixedU128};
 
 type Balance = u128;
@@ -53,7 +55,11 @@ pub fn calculate_spot_price_with_fee(
 ) -> Result<FixedU128, MathError> {
 	ensure!(in_reserve != 0, ZeroReserve);
 
-	let spot_price_without_fee = FixedU128::from_rational(out_reserve, in_reserve);
+	// `FixedU128::from_rational` panics if the ratio does not fit
+	let spot_price_without_fee =
+		multiply_by_rational_with_rounding(FixedU128::DIV, out_reserve, in_reserve, Rounding::NearestPrefDown)
+			.map(FixedU128::from_inner)
+			.ok_or(Overflow)?;
 
 	if let Some((n, d)) = fee_rate {
 		// Formula: spot-price-with-fee = BA-spot-price-without-fee * (1 - fee)
-- 
2.43.0


From 6c4b84eb474622ff1438f134c1eb1713c1402187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:54 +0000
Subject: [PATCH 3/7] fix: saturate the dynamic fee volume ratio instead of
 panicking when it does not fit an 18 decimal number

---
 math/src/dynamic_fees/math.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/math/src/dynamic_fees/math.rs b/math/src/dynamic_fees/math.rs
index ee1354f..034f361 100644
--- a/math/src/dynamic_fees/math.rs
+++ b/math/src/dynamic_fees/math.rs
@@ -1,8 +1,10 @@
 use super::types::*;
 use crate::dynamic_fees::types::NetVolumeDirection::{InOut, OutIn};
 use num_traits::Zero;
-use sp_arithmetic::traits::Saturating;
-use sp_arithmetic::{FixedPointOperand, FixedU128, PerThing};
+use sp_arithmetic::helpers_128bit::multiply_by_rational_with_rounding;
+use sp_arithmetic::per_things::Rounding;
+use sp_arithmetic::traits::{Bounded, Saturating};
+use sp_arithmetic::{FixedPointNumber, FixedPointOperand, FixedU128, PerThing};
 
 /// Recalculate Omnipool's asset fee given previously calculated fee and oracle data.
 ///
@@ -66,7 +68,11 @@ where
 	// 2. if protocol fee, direction InOut: x = (Vi - Vo) / L
 	let (x, x_neg) = if !volume.liquidity.is_zero() {
 		let (diff, neg) = volume.net_volume(direction);
-		(FixedU128::from_rational(diff, volume.liquidity), neg)
+		// `FixedU128::from_rational` panics if the ratio does not fit
+		let x = multiply_by_rational_with_rounding(FixedU128::DIV, diff, volume.liquidity, Rounding::NearestPrefDown)
+			.map(FixedU128::from_inner)
+			.unwrap_or_else(FixedU128::max_value);
+		(x, neg)
 	} else {
 		(FixedU128::zero(), false)
 	};
-- 
2.43.0


From bf96536862dbbbe08fe24656f339f4301893cacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:38 +0000
Subject: [PATCH 4/7] fix: log2 returns an error when the inverse of the
 operand overflows

---
 math/src/transcendental.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/src/transcendental.rs b/math/src/transcendental.rs
index 8d6971e..aeb1b7c 100644
--- a/math/src/transcendental.rs
+++ b/math/src/transcendental.rs
@@ -77,7 +77,7 @@ where
 
 	let operand = D::from(operand);
 	if operand < D::one() {
-		let inverse = D::one().checked_div(operand).unwrap(); // Unwrap is safe because operand is always > 0
+		let inverse = D::one().checked_div(operand).ok_or(())?; // Overflows when operand is close to 0
 		return Ok((log2_inner::<D, D>(inverse), true));
 	}
 	Ok((log2_inner::<D, D>(operand), false))
-- 
2.43.0


From 523cb86b0f1e13ac8f1eb5f0ec668a979d2a024e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:38 +0000
Subject: [PATCH 5/7] fix: exp returns an error when its first sum overflows

---
 math/src/transcendental.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/src/transcendental.rs b/math/src/transcendental.rs
index aeb1b7c..6e2b156 100644
--- a/math/src/transcendental.rs
+++ b/math/src/transcendental.rs
@@ -113,7 +113,7 @@ where
 	}
 
 	let operand = D::from(operand);
-	let mut result = operand + D::one();
+	let mut result = operand.checked_add(D::one()).ok_or(())?;
 	let mut term = operand;
 
 	let max_iter = D::FRAC_NBITS.checked_mul(3).ok_or(())?;
-- 
2.43.0


From abf9f1ef678a0805ce16e7f3b02566ec1d00932a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 6/7] fix: staking votes with Locked5x conviction counted four
 times instead of five

---
 pallets/staking/src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/staking/src/types.rs b/pallets/staking/src/types.rs
index a4fc396..9364667 100644
--- a/pallets/staking/src/types.rs
+++ b/pallets/staking/src/types.rs
@@ -98,7 +98,7 @@ impl Conviction {
 			Conviction::Locked2x => FixedU128::from(2_u128),
 			Conviction::Locked3x => FixedU128::from(3_u128),
 			Conviction::Locked4x => FixedU128::from(4_u128),
-			Conviction::Locked5x => FixedU128::from(4_u128),
+			Conviction::Locked5x => FixedU128::from(5_u128),
 			Conviction::Locked6x => FixedU128::from(6_u128),
 		}
 	}
-- 
2.43.0


From 7decb2f0a3ff1edcf297da20f735d6906a42c524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:09 +0000
Subject: [PATCH 7/7] fix: xyk buy reports traded amounts in asset order to the
 oracle

---
 pallets/xyk/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/xyk/src/lib.rs b/pallets/xyk/src/lib.rs
index 0090e2c..caaea28 100644
--- a/pallets/xyk/src/lib.rs
+++ b/pallets/xyk/src/lib.rs
@@ -1043,8 +1043,8 @@ impl<T: Config> AMM<T::AccountId, AssetId, AssetPair, Balance> for Pallet<T> {
 			T::OracleSource::get(),
 			transfer.assets.asset_in,
 			transfer.assets.asset_out,
-			transfer.amount,
 			transfer.amount_b,
+			transfer.amount,
 			liquidity_in,
 			liquidity_out,
 			Ratio::new(liquidity_in, liquidity_out),
-- 
2.43.0

