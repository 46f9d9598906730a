From d0d0862bbc5fc4ed9b179e3baa9d43cf055dc184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:25 +0000
Subject: [PATCH 01/23] fix: classify reports NaNs with an empty high payload
 as normal

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 42406f4..19b23d3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -539,7 +539,7 @@ impl f256 {
         match abs_bits_sticky {
             0 => FpCategory::Zero,
             INF_HI => FpCategory::Infinite,
-            NAN_HI => FpCategory::Nan,
+            INF_HI.. => FpCategory::Nan,
             ..=HI_FRACTION_MASK => FpCategory::Subnormal,
             _ => FpCategory::Normal,
         }
-- 
2.43.0


From a1881f0dfe971de622fd923226abfb06a5e3b8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:50 +0000
Subject: [PATCH 02/23] fix: a zero remainder loses the sign of the dividend

---
 src/binops/rem.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/binops/rem.rs b/src/binops/rem.rs
index 114425f..f6245bf 100644
--- a/src/binops/rem.rs
+++ b/src/binops/rem.rs
@@ -64,8 +64,11 @@ pub(crate) fn rem(x: f256, y: f256) -> f256 {
     let mut signif_y = signif(&abs_bits_y);
 
     // If the significands are equal, |x| is an integral multiple of |y|.
+    // A zero result has the sign of x.
     if signif_x == signif_y {
-        return f256::ZERO;
+        return f256 {
+            bits: U256::new(sign_bits_hi(&x), 0),
+        };
     }
 
     let n_bits = exp_bits_x + norm_bit_y - exp_bits_y - norm_bit_x;
@@ -81,7 +84,9 @@ pub(crate) fn rem(x: f256, y: f256) -> f256 {
         }
     }
     if abs_bits_z.is_zero() {
-        return f256::ZERO;
+        return f256 {
+            bits: U256::new(sign_bits_hi(&x), 0),
+        };
     }
     let shift_z = min(
         FRACTION_BITS - abs_bits_z.msb(),
-- 
2.43.0


From cba242318ebc9e5338e2922bd8667ce2fa748ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:57 +0000
Subject: [PATCH 03/23] fix: rounding to integral values loses the sign of zero
 and misses values just above one half

---
 src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 19b23d3..d1a3275 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -910,7 +910,8 @@ impl f256 {
             return match (sign, adj(sign)) {
                 (0, true) => Self::ONE,
                 (1, true) => Self::NEG_ONE,
-                (..) => Self::ZERO,
+                (0, _) => Self::ZERO,
+                (..) => Self::NEG_ZERO,
             };
         }
         // 1 < |self| < 2²³⁶
@@ -1046,7 +1047,7 @@ impl f256 {
         }
         if abs_bits.hi.0 < ONE_HALF.bits.hi.0 {
             // 0 < |self| < ½
-            return Self::ZERO;
+            return [Self::ZERO, Self::NEG_ZERO][self.sign() as usize];
         }
         if abs_bits.hi.0 <= ONE.bits.hi.0 {
             // ½ <= |self| <= 1
@@ -1098,9 +1099,9 @@ impl f256 {
             // |self| >= 2²³⁶, i. e. self is integral.
             return *self;
         }
-        if abs_bits.hi.0 <= ONE_HALF.bits.hi.0 {
+        if abs_bits <= ONE_HALF.bits {
             // 0 < |self| <= ½
-            return Self::ZERO;
+            return [Self::ZERO, Self::NEG_ZERO][self.sign() as usize];
         }
         if abs_bits.hi.0 <= ONE.bits.hi.0 {
             // ½ < |self| <= 1
-- 
2.43.0


From 1f59da7e3832606d70c7eb392c4d28c6f9d55f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:36 +0000
Subject: [PATCH 04/23] fix: scaling by powers of two at the edge of the
 subnormal range

---
 src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d1a3275..1e57c05 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1146,7 +1146,10 @@ impl f256 {
         }
         // self is finite and non-zero.
         let exp_bits = exp_bits(&abs_bits);
-        if exp_bits.saturating_add(n) >= EXP_MAX {
+        // Exponent bits of the result (+ FRACTION_BITS, because normalizing a
+        // subnormal value lowers its exponent)
+        let msb_bits = exp_bits.max(1) + signif(&abs_bits).msb();
+        if msb_bits.saturating_add(n) >= EXP_MAX + FRACTION_BITS {
             return [Self::INFINITY, Self::NEG_INFINITY]
                 [self.sign() as usize];
         }
@@ -1223,14 +1226,15 @@ impl f256 {
         }
         // self is finite and non-zero.
         let exp_bits = exp_bits(&abs_bits);
-        if exp_bits < n {
+        if n > 0 && exp_bits <= n {
             // result is subnornal or underflows to zero
             const EXP: i32 = 1 - (EXP_BIAS as i32 + FRACTION_BITS as i32);
             let shr = n - exp_bits + norm_bit(&abs_bits);
-            if shr > self.bits.msb() {
+            let signif = signif(&abs_bits);
+            if shr > signif.msb() + 1 {
                 return [Self::ZERO, Self::NEG_ZERO][self.sign() as usize];
             }
-            let signif = signif(&abs_bits).rounding_div_pow2(shr);
+            let signif = signif.rounding_div_pow2(shr);
             if signif.is_zero() {
                 return [Self::ZERO, Self::NEG_ZERO][self.sign() as usize];
             }
-- 
2.43.0


From a25b1c82e7aa8feb1d14b3f7bc9aed154b6b7e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:08 +0000
Subject: [PATCH 05/23] fix: fused multiply-add with subnormal operands or
 results

---
 src/fused_ops/fma.rs | 71 ++++++++++++++++++++++++++------------------
 1 file changed, 42 insertions(+), 29 deletions(-)

diff --git a/src/fused_ops/fma.rs b/src/fused_ops/fma.rs
index 07fa345..2194a25 100644
--- a/src/fused_ops/fma.rs
+++ b/src/fused_ops/fma.rs
@@ -94,6 +94,22 @@ impl u768 {
         (self.hi, borrow) = self.hi.borrowing_sub(rhs.hi, borrow);
     }
 
+    /// Shift right, keeping a sticky bit for the bits shifted out.
+    fn ishr_sticky(&mut self, mut shr: u32) {
+        let mut sticky = false;
+        while shr > 0 && !(self.hi.is_zero() && self.mi.is_zero()) {
+            let n = min(shr, 255);
+            let t = &self.lo << (256 - n);
+            sticky |= !t.is_zero();
+            let (hi, carry) = self.hi.widening_shr(n);
+            let (mi, carry) = self.mi.carrying_shr(n, &carry);
+            let (lo, _) = self.lo.carrying_shr(n, &carry);
+            (self.hi, self.mi, self.lo) = (hi, mi, lo);
+            shr -= n;
+        }
+        self.lo.lo.0 |= sticky as u128;
+    }
+
     fn leading_zeros(&self) -> u32 {
         let hi_is_zero = self.hi.is_zero();
         let hi_and_mi_are_zero = hi_is_zero && self.mi.is_zero();
@@ -266,16 +282,17 @@ pub(crate) fn fma(x: &f256, y: &f256, a: &f256) -> f256 {
 
     // Calculate x * y + a, rounded tie to even.
 
-    // Extract biased exponents and significands.
-    let exp_bits_x = exp_bits(&abs_bits_x) as i32;
+    // Extract biased exponents and significands, the latter normalized, so that
+    // the exponents give the magnitudes of the operands, even for subnormals.
+    let (signif_x, shift_x) = norm_signif(&abs_bits_x);
+    let exp_bits_x = exp_bits(&abs_bits_x) as i32 - shift_x as i32;
     let norm_bit_x = norm_bit(&abs_bits_x) as i32;
-    let signif_x = signif(&abs_bits_x);
-    let exp_bits_y = exp_bits(&abs_bits_y) as i32;
+    let (signif_y, shift_y) = norm_signif(&abs_bits_y);
+    let exp_bits_y = exp_bits(&abs_bits_y) as i32 - shift_y as i32;
     let norm_bit_y = norm_bit(&abs_bits_y) as i32;
-    let signif_y = signif(&abs_bits_y);
-    let exp_bits_a = exp_bits(&abs_bits_a) as i32;
+    let (signif_a, shift_a) = norm_signif(&abs_bits_a);
+    let exp_bits_a = exp_bits(&abs_bits_a) as i32 - shift_a as i32;
     let norm_bit_a = norm_bit(&abs_bits_a) as i32;
-    let signif_a = signif(&abs_bits_a);
 
     // The significand of product x * y has 2 * FRACTION_BITS = 472 fractional
     // bits. Shifting one operand 2 bits left, gets its radix point aligned at
@@ -341,8 +358,7 @@ pub(crate) fn fma(x: &f256, y: &f256, a: &f256) -> f256 {
         }
         _ => {
             // Product too small.
-            signif_a_shifted = u768::from_u256_shifted(&signif_a, 0);
-            (&mut signif_a_shifted, &signif_p, sign_bits_hi_a)
+            return *a;
         }
     };
     // Calculate |p + a|.
@@ -356,26 +372,23 @@ pub(crate) fn fma(x: &f256, y: &f256, a: &f256) -> f256 {
         return f256::ZERO;
     }
     // Calculate exponent and normalize result.
-    let (exp_bits_m1_z, shl) = if d <= ADDEND_ANCHORED_UPPER_LIMIT {
-        let n = signif_z_nlz - EXP_BITS;
-        let carry = REL_OFFSET as i32 - n as i32;
-        let t = exp_bits_p + carry + 1;
-        // If the result overflows the range of values representable as
-        // `f256`, return +/- Infinity.
-        if t >= EXP_MAX as i32 {
-            return f256 {
-                bits: U256::new(sign_bits_hi_z | INF_HI, 0),
-            };
-        }
-        if t >= 1 {
-            (t - 1, n)
-        } else {
-            (0, REL_OFFSET)
-        }
-    } else {
-        (exp_bits_a - 1, 0)
-    };
-    *signif_z <<= shl;
+    let n = signif_z_nlz as i32 - EXP_BITS as i32;
+    let carry = REL_OFFSET as i32 - n;
+    let t = exp_bits_p + carry + 1;
+    // If the result overflows the range of values representable as `f256`,
+    // return +/- Infinity.
+    if t >= EXP_MAX as i32 {
+        return f256 {
+            bits: U256::new(sign_bits_hi_z | INF_HI, 0),
+        };
+    }
+    // If the result underflows the range of normal values, it has to be
+    // denormalized.
+    let exp_bits_m1_z = max(t, 1) - 1;
+    match n - (exp_bits_m1_z + 1 - t) {
+        shl @ 0.. => *signif_z <<= shl as u32,
+        shr => signif_z.ishr_sticky(shr.unsigned_abs()),
+    }
     // Now we have the results preliminary significand in signif_z.hi, before
     // rounding.
     debug_assert!(signif_z.hi.leading_zeros() >= EXP_BITS);
-- 
2.43.0


From 02560f230d47d9f40a54c4fbb741d12c0f2550c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:44 +0000
Subject: [PATCH 06/23] fix: parsing rounds exact ties down and reads stale
 decimal digits

---
 src/conv/big_decimal.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/conv/big_decimal.rs b/src/conv/big_decimal.rs
index c6db9ae..7b4a296 100644
--- a/src/conv/big_decimal.rs
+++ b/src/conv/big_decimal.rs
@@ -474,12 +474,14 @@ impl Decimal {
         }
         let dp = self.decimal_point as usize;
         let mut n = U256::ZERO;
+        // The content of the digit buffer behind the last digit is undefined.
+        let digit = |i| if i < self.n_digits { self.digits[i] } else { 0 };
         for i in 0..dp {
-            imul10_add(&mut n, self.digits[i]);
+            imul10_add(&mut n, digit(i));
         }
-        if self.digits[dp] > 5
-            || self.digits[dp] == 5
-                && (dp < self.n_digits - 1 || self.truncated)
+        if digit(dp) > 5
+            || digit(dp) == 5
+                && (dp < self.n_digits - 1 || self.truncated || n.is_odd())
         {
             n.incr();
         }
-- 
2.43.0


From 92cfaa8c96d29aef8442cda36e918d4394af2415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:05 +0000
Subject: [PATCH 07/23] fix: parsing flushes some representable subnormal
 values to zero

---
 src/conv/from_str/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/conv/from_str/mod.rs b/src/conv/from_str/mod.rs
index cf8add4..1fafb4c 100644
--- a/src/conv/from_str/mod.rs
+++ b/src/conv/from_str/mod.rs
@@ -24,8 +24,9 @@ use super::big_decimal::{Decimal, MAX_DIGITS};
 use crate::{f256, HI_FRACTION_BIAS, MIN_GT_ZERO_10_EXP, U256};
 
 /// Minimum possible subnormal power of 10 exponent - adjustment of
-/// significand: ⌊(Eₘᵢₙ + 1 - p) × log₁₀(2)⌋ - ⌈p × log₁₀(2)⌉.
-const MIN_10_EXP_CUTOFF: i32 = -79056;
+/// significand: ⌊(Eₘᵢₙ + 1 - p) × log₁₀(2)⌋ - max. number of digits of the
+/// significand (= 77).
+const MIN_10_EXP_CUTOFF: i32 = -79061;
 
 // The internals of ParseFloatError are not public. The following hack is used
 // to return the same errors as f64.
@@ -81,12 +82,12 @@ impl FromStr for f256 {
                 //  • ±0 if w = 0 or e < Eₘᵢₙ + 1 - p,
                 //  • ±Infinity if e > Eₘₐₓ.
 
-                // k < ⌊(Eₘᵢₙ + 1 - p) × log₁₀(2)⌋ - ⌈p × log₁₀(2)⌉
+                // k < ⌊(Eₘᵢₙ + 1 - p) × log₁₀(2)⌋ - 77 and w < 10⁷⁷
                 // => e < Eₘᵢₙ + 1 - p
                 if signif10.is_zero() || exp10 < MIN_10_EXP_CUTOFF {
                     return Ok([Self::ZERO, Self::NEG_ZERO][sign as usize]);
                 }
-                // k > ⌊(Eₘᵢₙ + 1 - p) × log₁₀(2)⌋ - ⌈p × log₁₀(2)⌉ and
+                // k >= ⌊(Eₘᵢₙ + 1 - p) × log₁₀(2)⌋ - 77 and
                 // k < ⌊(Eₘᵢₙ + 1 - p) × log₁₀(2)⌋
                 // => e < Eₘᵢₙ
                 if exp10 < MIN_GT_ZERO_10_EXP {
-- 
2.43.0


From b25961b771b5c3eb4d5c0ac4da38d036c79986ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:15 +0000
Subject: [PATCH 08/23] fix: adjusting a huge decimal exponent overflows while
 parsing

---
 src/conv/from_str/float_repr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/conv/from_str/float_repr.rs b/src/conv/from_str/float_repr.rs
index 37286d1..97cba94 100644
--- a/src/conv/from_str/float_repr.rs
+++ b/src/conv/from_str/float_repr.rs
@@ -313,14 +313,14 @@ impl FloatRepr {
             lit.state.start_pos_signif.saturating_sub(pos_radix_point);
         let n_truncated_int_digits =
             n_int_digits.saturating_sub(PartialSignif::MAX_N_DIGITS);
-        exponent += n_truncated_int_digits as i32;
+        exponent = exponent.saturating_add(n_truncated_int_digits as i32);
         let n_frac_digits =
             pos_radix_point.saturating_sub(lit.state.end_pos_signif + 1);
-        exponent -= n_frac_digits as i32;
+        exponent = exponent.saturating_sub(n_frac_digits as i32);
 
         // Get normalized significand and adjust exponent
         let n_trailing_zeroes = partial_signif.normalize();
-        exponent += n_trailing_zeroes as i32;
+        exponent = exponent.saturating_add(n_trailing_zeroes as i32);
         let significand = partial_signif.significand();
         Self::Number(DecNumRepr {
             sign,
-- 
2.43.0


From 59df9a15d5d3eac7bfb26ad5b446ffdc66b5cba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:13 +0000
Subject: [PATCH 09/23] fix: parsing accepts incomplete number literals and
 loses the sign of -0

---
 src/conv/from_str/common.rs     |  2 ++
 src/conv/from_str/float_repr.rs | 14 +++++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/conv/from_str/common.rs b/src/conv/from_str/common.rs
index c12c42c..4e175c2 100644
--- a/src/conv/from_str/common.rs
+++ b/src/conv/from_str/common.rs
@@ -255,6 +255,8 @@ impl<'a> AsciiNumLit<'a> {
                     } else {
                         return None;
                     }
+                } else {
+                    return None;
                 }
                 while let Some(c) = self.first() {
                     let d = c.wrapping_sub(b'0');
diff --git a/src/conv/from_str/float_repr.rs b/src/conv/from_str/float_repr.rs
index 97cba94..bbdf1d7 100644
--- a/src/conv/from_str/float_repr.rs
+++ b/src/conv/from_str/float_repr.rs
@@ -270,8 +270,15 @@ impl FloatRepr {
 
         lit.skip_leading_zeroes(true);
         if lit.is_empty() {
+            if start_pos == 1 && lit.state.pos_radix_point.is_some() {
+                // Just a radix point, but no digit.
+                return Self::Invalid;
+            }
             // There must have been atleast one zero.
-            return Self::Number(DecNumRepr::default());
+            return Self::Number(DecNumRepr {
+                sign,
+                ..DecNumRepr::default()
+            });
         }
 
         // Parse significant digits.
@@ -287,6 +294,11 @@ impl FloatRepr {
             return Self::parse_special(&mut lit, sign);
         }
 
+        // A radix point without any digit is not a number.
+        if lit.state.pos_radix_point.is_some() && start_pos == lit.len() + 1 {
+            return Self::Invalid;
+        }
+
         // Set implicit radix point if no one was detected.
         if lit.state.pos_radix_point.is_none() {
             lit.state.pos_radix_point = Some(lit.len());
-- 
2.43.0


From 04dc3e71d8899d2b9ba0749f63ecf4cb44081014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:38 +0000
Subject: [PATCH 10/23] fix: formatting NaN ignores the fill character

---
 src/conv/to_str/mod.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/conv/to_str/mod.rs b/src/conv/to_str/mod.rs
index 1520b09..06194ec 100644
--- a/src/conv/to_str/mod.rs
+++ b/src/conv/to_str/mod.rs
@@ -32,15 +32,16 @@ const MAX_PREC: usize = 75;
 
 fn format_nan(form: &mut fmt::Formatter<'_>) -> fmt::Result {
     let nan = "NaN".to_owned();
-    let s = if let Some(width) = form.width() {
-        match form.align() {
-            Some(fmt::Alignment::Center) => format!("{:^width$}", nan),
-            Some(fmt::Alignment::Left) => format!("{:<width$}", nan),
-            _ => format!("{:>width$}", nan),
-        }
-    } else {
-        nan
+    let n_to_fill = form.width().unwrap_or(0).saturating_sub(nan.len());
+    let n_to_fill_pre = match form.align() {
+        Some(fmt::Alignment::Center) => n_to_fill / 2,
+        Some(fmt::Alignment::Left) => 0,
+        _ => n_to_fill,
     };
+    let fill = form.fill().to_string();
+    let s = fill.repeat(n_to_fill_pre)
+        + &nan
+        + &fill.repeat(n_to_fill - n_to_fill_pre);
     form.write_str(s.as_str())
 }
 
-- 
2.43.0


From 9533018861cb6c8c69b0a057828d788190572407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:38 +0000
Subject: [PATCH 11/23] fix: scientific format misplaces the decimal exponent
 next to powers of ten

---
 src/conv/to_str/common.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/conv/to_str/common.rs b/src/conv/to_str/common.rs
index ec66d52..e3523ca 100644
--- a/src/conv/to_str/common.rs
+++ b/src/conv/to_str/common.rs
@@ -9,7 +9,7 @@
 
 use core::f64::consts::LOG10_2;
 
-use crate::U256;
+use crate::{BigUInt, HiLo, U256, U512};
 
 /// Returns ⌊log₁₀(2ⁱ)⌋.
 #[inline(always)]
@@ -18,12 +18,26 @@ pub(crate) const fn floor_log10_pow2(i: i32) -> i32 {
     ((i as i128 * 169464822037455) >> 49) as i32
 }
 
-/// Returns ⌊log₁₀(m × 2ⁱ)⌋.
-#[inline(always)]
+/// Returns ⌊log₁₀(m × 2ⁱ)⌋ for 1 <= m × 2ⁱ < 2⁵¹².
 #[allow(clippy::cast_possible_truncation)]
 #[allow(clippy::cast_precision_loss)]
+#[allow(clippy::cast_sign_loss)]
 pub(crate) fn floor_log10f(m: U256, i: i32) -> i32 {
-    (((m.hi.0 as f64).log2() + 128_f64 + (i as f64)) * LOG10_2).trunc() as i32
+    let log10 = ((m.hi.0 as f64).log2() + 128_f64 + (i as f64)) * LOG10_2;
+    // log10 is just an approximation, which can't tell on which side of a
+    // nearby power of ten the exact value is. So, check the nearest one.
+    let n = log10.round() as i32;
+    let mut value = U512::from_hi_lo(U256::ZERO, m);
+    let mut pow10 = U512::from_hi_lo(U256::ZERO, U256::ONE);
+    for _ in 0..n {
+        pow10 *= &10_u128;
+    }
+    if i < 0 {
+        pow10 <<= i.unsigned_abs();
+    } else {
+        value <<= i as u32;
+    }
+    n - (value < pow10) as i32
 }
 
 // The following code is copied from rust stdlib.
-- 
2.43.0


From 606e945bef23b295faffb9c878051b3875fa00bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:32 +0000
Subject: [PATCH 12/23] fix: shortest decimal representation of powers of two
 and exact ties

---
 src/conv/to_str/dec_repr.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/conv/to_str/dec_repr.rs b/src/conv/to_str/dec_repr.rs
index 97aaf32..0b9ed0c 100644
--- a/src/conv/to_str/dec_repr.rs
+++ b/src/conv/to_str/dec_repr.rs
@@ -17,7 +17,7 @@ use super::{
 };
 use crate::{
     big_uint::{HiLo, U128},
-    f256, BigUInt, DivRem, U256, U512,
+    f256, BigUInt, DivRem, EMIN, FRACTION_BITS, U256, U512,
 };
 
 /// Returns ⌊log₁₀(5ⁱ)⌋ for 0 <= i <= 262380.
@@ -141,9 +141,13 @@ impl DecNumRepr {
 
         // Step 2: Compute the halfway points to the next smaller and larger
         // floating point values.
-        let is_non_integer = exp2 < -(signif2.trailing_zeros() as i32);
+        // The distance to the next smaller value is half the distance to the
+        // next larger one, if f is a power of 2 (except for the smallest
+        // normal value), otherwise both distances are equal.
+        let has_equal_dists = exp2 <= EMIN - FRACTION_BITS as i32 - 2
+            || signif2.trailing_zeros() != FRACTION_BITS + 2;
         let lower_signif2 =
-            &signif2 - &U256::from(1 + is_non_integer as u128);
+            &signif2 - &U256::from(1 + has_equal_dists as u128);
         let upper_signif2 = &signif2 + &U256::TWO;
 
         // Step 3: Convert the interval to a decimal power base.
@@ -213,13 +217,13 @@ impl DecNumRepr {
                 // zero bits.
                 rem_zero = true;
                 if accept_bounds {
-                    // lower_signif2 = signif2 - 1 - is_non_integer, so it has
-                    // a trailing zero bit if f is not an integer.
-                    lower_rem_zero = is_non_integer;
+                    // lower_signif2 = signif2 - 1 - has_equal_dists, so it
+                    // has a trailing zero bit if the distances are equal.
+                    lower_rem_zero = has_equal_dists;
                 } else {
                     // uppper_signif2 = signif2 + 2, so it always has at least
                     // one trailing zero bit.
-                    signif10.decr();
+                    upper_signif10.decr();
                 }
             } else if g <= 238 {
                 // signif2 has atmost 239 bits, i.e atmost 238 trailing
@@ -238,8 +242,8 @@ impl DecNumRepr {
             let (mut upper_quot, mut upper_rem) =
                 upper_signif10.div_rem(10_u64);
             while lower_quot < upper_quot {
-                (signif10, round_digit) = signif10.div_rem(10_u64);
                 rem_zero &= round_digit == 0;
+                (signif10, round_digit) = signif10.div_rem(10_u64);
                 lower_signif10 = lower_quot;
                 lower_rem_zero &= lower_rem == 0;
                 upper_signif10 = upper_quot;
@@ -249,8 +253,8 @@ impl DecNumRepr {
             }
             if lower_rem_zero {
                 while lower_rem == 0 && !lower_signif10.is_zero() {
-                    (signif10, round_digit) = signif10.div_rem(10_u64);
                     rem_zero &= round_digit == 0;
+                    (signif10, round_digit) = signif10.div_rem(10_u64);
                     lower_signif10 = lower_quot;
                     (lower_quot, lower_rem) = lower_signif10.div_rem(10_u64);
                     i += 1;
@@ -259,6 +263,9 @@ impl DecNumRepr {
             if round_digit > 5  // need to round up
                 || (round_digit == 5    // need to round to even
                 && (!rem_zero || signif10.lo.is_odd()))
+                // lower bound is not part of the interval
+                || (signif10 == lower_signif10
+                && !(accept_bounds && lower_rem_zero))
             {
                 signif10.incr();
             }
-- 
2.43.0


From 3ee151a03fc1cbe65a4fe178c83db20a847b938e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:50 +0000
Subject: [PATCH 13/23] fix: scientific format rounds exact ties of small
 values up

---
 src/conv/to_str/to_fixed_prec.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/conv/to_str/to_fixed_prec.rs b/src/conv/to_str/to_fixed_prec.rs
index 56339c8..43d7f9c 100644
--- a/src/conv/to_str/to_fixed_prec.rs
+++ b/src/conv/to_str/to_fixed_prec.rs
@@ -528,15 +528,16 @@ fn bin_fract_2_scientific(
         round = Round::Up;
     } else if rem == tie {
         // Need to check whether we really have a tie, i.e.
-        // signif2 * 10 ^ (prec + 1) / 2 ^ -exp2 is an integer.
+        // signif2 * 10 ^ (prec - exp10 + 1) / 2 ^ -exp2 is an integer.
         // This is the case if the number of trailing zeroes of the numerator
         // is greater than or equal to -exp2.
-        round =
-            if (signif2.trailing_zeros() + prec as u32 + 1) as i32 >= -exp2 {
-                Round::ToEven
-            } else {
-                Round::Up
-            };
+        round = if signif2.trailing_zeros() as i32 + prec as i32 - exp10 + 1
+            >= -exp2
+        {
+            Round::ToEven
+        } else {
+            Round::Up
+        };
     }
     if n_digits > 0 {
         buf.push_str(
-- 
2.43.0


From 388a7c60c5ba76136c5c88ede459b9a349bbe66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:09 +0000
Subject: [PATCH 14/23] fix: to_degrees and to_radians of zero, subnormal, huge
 and special values

---
 src/lib.rs | 54 +++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1e57c05..0527649 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -59,7 +59,12 @@
 extern crate alloc;
 extern crate core;
 
-use core::{cmp::Ordering, convert::Into, num::FpCategory, ops::Neg};
+use core::{
+    cmp::{max, Ordering},
+    convert::Into,
+    num::FpCategory,
+    ops::Neg,
+};
 
 use crate::big_uint::{BigUInt, DivRem, HiLo, U1024, U128, U256, U512};
 
@@ -627,12 +632,40 @@ impl f256 {
         Self::ONE / self
     }
 
+    /// Returns self * m / 2ⁿ, where m >= 2²⁵⁵.
+    #[allow(clippy::cast_possible_wrap)]
+    #[allow(clippy::cast_sign_loss)]
+    fn mul_approx(self, m: &U256, n: i32) -> Self {
+        if self.is_special() {
+            // self is NaN, infinite or zero
+            return self;
+        }
+        let exp = self.quantum_exponent() - n;
+        let (lo, hi) = m.widening_mul(&self.integral_significand());
+        let mut t = U512::from_hi_lo(hi, lo);
+        // Number of bits to be cut off.
+        let sh = max(
+            (t.msb() + 1 - SIGNIFICAND_BITS) as i32,
+            EMIN - FRACTION_BITS as i32 - exp,
+        );
+        t = t.rounding_div_pow2(sh as u32);
+        if t.is_zero() {
+            // Underflow
+            return [Self::ZERO, Self::NEG_ZERO][self.sign() as usize];
+        }
+        if exp + sh + t.msb() as i32 > EMAX {
+            // Overflow
+            return [Self::INFINITY, Self::NEG_INFINITY]
+                [self.sign() as usize];
+        }
+        Self::encode(self.sign(), exp + sh, t.lo)
+    }
+
     /// Converts radians to degrees.
     ///
     /// Returns self * (180 / π)
     #[must_use]
     #[inline]
-    #[allow(clippy::cast_possible_wrap)]
     pub fn to_degrees(self) -> Self {
         // 1 rad = 180 / π ≅ M / 2²⁵⁰
         const M: U256 = U256::new(
@@ -640,13 +673,7 @@ impl f256 {
             69798147688063442975655060594812004816,
         );
         const SH: i32 = 250_i32;
-        let signif = self.integral_significand();
-        let exp = self.quantum_exponent();
-        let (lo, hi) = M.widening_mul(&signif);
-        let mut t = U512::from_hi_lo(hi, lo);
-        let sh = signif.msb() + 256 - SIGNIFICAND_BITS;
-        t = t.rounding_div_pow2(sh);
-        Self::encode(self.sign(), exp - SH + sh as i32, t.lo)
+        self.mul_approx(&M, SH)
     }
 
     /// Converts degrees to radians.
@@ -654,7 +681,6 @@ impl f256 {
     /// Returns self * (π / 180)
     #[must_use]
     #[inline]
-    #[allow(clippy::cast_possible_wrap)]
     pub fn to_radians(self) -> Self {
         // π / 180 ≅ M / 2²⁶¹
         const M: U256 = U256::new(
@@ -662,13 +688,7 @@ impl f256 {
             953738875812114979603059177117484306,
         );
         const SH: i32 = 261_i32;
-        let signif = self.integral_significand();
-        let exp = self.quantum_exponent();
-        let (lo, hi) = M.widening_mul(&signif);
-        let mut t = U512::from_hi_lo(hi, lo);
-        let sh = signif.msb() + 256 - SIGNIFICAND_BITS;
-        t = t.rounding_div_pow2(sh);
-        Self::encode(self.sign(), exp - SH + sh as i32, t.lo)
+        self.mul_approx(&M, SH)
     }
 
     /// Returns the maximum of the two numbers, ignoring NaN.
-- 
2.43.0


From e93d0d806eea3f415fc2ede31f7c021016474a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:09 +0000
Subject: [PATCH 15/23] fix: sine and tangent of zero and tiny values

---
 src/math/circular_fns/mod.rs     |  4 ++++
 src/math/circular_fns/sin.rs     | 10 +++++++---
 src/math/circular_fns/sin_cos.rs | 10 +++++++---
 src/math/circular_fns/tan.rs     |  4 ++--
 4 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/math/circular_fns/mod.rs b/src/math/circular_fns/mod.rs
index c35c737..b333da8 100644
--- a/src/math/circular_fns/mod.rs
+++ b/src/math/circular_fns/mod.rs
@@ -21,3 +21,7 @@ mod tan;
 mod two_over_pi;
 
 use super::{BigFloat, FP492, U256};
+
+// For |x| < 2⁻¹¹⁹ the correctly rounded values of sine x and tangent x are
+// both equal to x.
+const SMALL_EXP_CUT_OFF: i32 = -119;
diff --git a/src/math/circular_fns/sin.rs b/src/math/circular_fns/sin.rs
index ffc03fa..e4ecf84 100644
--- a/src/math/circular_fns/sin.rs
+++ b/src/math/circular_fns/sin.rs
@@ -9,7 +9,7 @@
 
 use super::{
     approx_cos::approx_cos, approx_sin::approx_sin, reduce::reduce, BigFloat,
-    FP492,
+    FP492, SMALL_EXP_CUT_OFF,
 };
 use crate::{f256, HI_ABS_MASK};
 
@@ -22,8 +22,12 @@ impl f256 {
             if (self.bits.hi.0 & HI_ABS_MASK) > Self::MAX.bits.hi.0 {
                 return Self::NAN;
             }
-            // x = 0 => sine x = 0
-            return Self::ZERO;
+            // x = ±0 => sine x = ±0
+            return *self;
+        }
+        if self.exponent() < SMALL_EXP_CUT_OFF {
+            // |x| is very small => sine x ≅ x
+            return *self;
         }
         // Calculate ⌈x/½π⌋ % 4 and x % ½π.
         let (quadrant, fx) = reduce(&self.abs());
diff --git a/src/math/circular_fns/sin_cos.rs b/src/math/circular_fns/sin_cos.rs
index 3f78ccd..c432725 100644
--- a/src/math/circular_fns/sin_cos.rs
+++ b/src/math/circular_fns/sin_cos.rs
@@ -7,7 +7,7 @@
 // $Source$
 // $Revision$
 
-use super::U256;
+use super::{SMALL_EXP_CUT_OFF, U256};
 use crate::{
     consts::FRAC_PI_2,
     f256,
@@ -29,8 +29,12 @@ impl f256 {
             if (self.bits.hi.0 & HI_ABS_MASK) > f256::MAX.bits.hi.0 {
                 return (f256::NAN, f256::NAN);
             }
-            // x = 0 => sine x = 0 and cosine x = 1
-            return (f256::ZERO, f256::ONE);
+            // x = ±0 => sine x = ±0 and cosine x = 1
+            return (*self, f256::ONE);
+        }
+        if self.exponent() < SMALL_EXP_CUT_OFF {
+            // |x| is very small => sine x ≅ x and cosine x ≅ 1
+            return (*self, f256::ONE);
         }
         // Calculate ⌈|x|/½π⌋ % 4 and |x| % ½π.
         let (quadrant, fx) = reduce(&self.abs());
diff --git a/src/math/circular_fns/tan.rs b/src/math/circular_fns/tan.rs
index f3d3886..01428c3 100644
--- a/src/math/circular_fns/tan.rs
+++ b/src/math/circular_fns/tan.rs
@@ -18,8 +18,8 @@ impl f256 {
             if (self.bits.hi.0 & HI_ABS_MASK) > f256::MAX.bits.hi.0 {
                 return f256::NAN;
             }
-            // x = 0 => tangent x = 0
-            return f256::ZERO;
+            // x = ±0 => tangent x = ±0
+            return *self;
         }
         // Calculate tangent x = sine x / cosine x.
         let (sin, cos) = self.sin_cos();
-- 
2.43.0


From c701411af3af0ad6a14c2ded35e7dd39fa96ade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:09 +0000
Subject: [PATCH 16/23] fix: asin and acos lose precision near one

---
 src/math/circular_fns/asin_acos.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/math/circular_fns/asin_acos.rs b/src/math/circular_fns/asin_acos.rs
index c6bf43c..7688b7e 100644
--- a/src/math/circular_fns/asin_acos.rs
+++ b/src/math/circular_fns/asin_acos.rs
@@ -60,6 +60,16 @@ fn atan(x: &BigFloat) -> FP492 {
     }
 }
 
+/// Computes √(1-x²), for |x| < 1.
+fn sqrt_1_minus_square(x: &BigFloat) -> BigFloat {
+    if x.exp < -1 {
+        (BigFloat::ONE - &x.square()).sqrt()
+    } else {
+        // 1-x² = (1-x)⋅(1+x), the latter avoids cancellation if |x| is near 1
+        ((BigFloat::ONE - x) * &(BigFloat::ONE + x)).sqrt()
+    }
+}
+
 // Cut-off for small values
 // 4.34011792384841269241918479487309437935796941860057715139559227691773315e-36
 const SMALL_CUT_OFF_ASIN: f256 = f256 {
@@ -98,7 +108,7 @@ impl f256 {
         // Now we have ε < |self| < 1
         // asin(x) = atan(x/√(1-x²))
         let mut x = BigFloat::from(self);
-        x.idiv(&(BigFloat::ONE - &x.square()).sqrt());
+        x.idiv(&sqrt_1_minus_square(&x));
         Self::from(&atan(&x))
     }
 
@@ -123,7 +133,7 @@ impl f256 {
         // Now we have ε < |self| < 1
         // acos(x) = ½π - asin(x) = ½π - atan(x/√(1-x²))
         let mut x = BigFloat::from(self);
-        x.idiv(&(BigFloat::ONE - &x.square()).sqrt());
+        x.idiv(&sqrt_1_minus_square(&x));
         Self::from(&(&FP492_FRAC_PI_2 - &atan(&x)))
     }
 }
-- 
2.43.0


From da7eb414f6b5d09152b01057eab0a41b973e26fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:09 +0000
Subject: [PATCH 17/23] fix: atan2 with one infinite operand, equal operands
 and tiny quotients

---
 src/math/circular_fns/atan.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/math/circular_fns/atan.rs b/src/math/circular_fns/atan.rs
index 07358cd..8e743d1 100644
--- a/src/math/circular_fns/atan.rs
+++ b/src/math/circular_fns/atan.rs
@@ -9,7 +9,7 @@
 
 use core::cmp::max;
 
-use super::{approx_atan::approx_atan, BigFloat, FP492};
+use super::{approx_atan::approx_atan, BigFloat, FP492, SMALL_EXP_CUT_OFF};
 use crate::{
     abs_bits, abs_bits_sticky,
     consts::{FRAC_PI_2, FRAC_PI_4, PI},
@@ -108,14 +108,18 @@ impl f256 {
                 // self = 0, other < 0 => π
                 return [f256::ZERO, PI][other.sign() as usize];
             }
-            // Both operands are infinite.
-            return match (self.sign(), other.sign()) {
-                (0, 0) => FRAC_PI_4,
+            // Atleast one operand is infinite.
+            let x_is_inf = abs_bits_sticky_x == HI_EXP_MASK;
+            let y_is_inf = abs_bits_sticky_y == HI_EXP_MASK;
+            let res = match (y_is_inf, x_is_inf, other.sign()) {
+                (true, true, 0) => FRAC_PI_4,
                 // TODO: replace by constant FRAC_3_PI_2
-                (0, 1) => &PI - &FRAC_PI_4,
-                (1, 0) => -FRAC_PI_4,
-                _ => &FRAC_PI_4 - &PI,
+                (true, true, _) => &PI - &FRAC_PI_4,
+                (true, false, _) => FRAC_PI_2,
+                (false, _, 0) => f256::ZERO,
+                (false, _, _) => PI,
             };
+            return [res, -res][self.sign() as usize];
         }
 
         // Both operands are finite and non-zero.
@@ -124,14 +128,19 @@ impl f256 {
         let mut atan = if abs_bits_y < abs_bits_x {
             let mut q = BigFloat::from(self);
             q.idiv(&BigFloat::from(other));
-            BigFloat::from(&approx_atan(&FP492::from(&q)))
+            if q.exp < SMALL_EXP_CUT_OFF {
+                // |q| is very small => atan q ≅ q
+                q
+            } else {
+                BigFloat::from(&approx_atan(&FP492::from(&q)))
+            }
         } else if abs_bits_y > abs_bits_x {
             let mut q = BigFloat::from(other);
             q.idiv(&BigFloat::from(self));
             [BigFloat::FRAC_PI_2, -BigFloat::FRAC_PI_2][sign_q as usize]
                 - &BigFloat::from(&approx_atan(&FP492::from(&q)))
         } else {
-            [BigFloat::FRAC_PI_2, -BigFloat::FRAC_PI_2][sign_q as usize]
+            [BigFloat::FRAC_PI_4, -BigFloat::FRAC_PI_4][sign_q as usize]
         };
         match (self.sign(), other.sign()) {
             (0, 1) => {
-- 
2.43.0


From 0f555a6ddff02a5595ddca24bcbe97f29431de61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:18 +0000
Subject: [PATCH 18/23] fix: fused sum of squares drops the sticky bit when
 normalizing

---
 src/fused_ops/sos.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fused_ops/sos.rs b/src/fused_ops/sos.rs
index a11ee76..651cb5b 100644
--- a/src/fused_ops/sos.rs
+++ b/src/fused_ops/sos.rs
@@ -109,7 +109,10 @@ pub(crate) fn sos(x: &f256, y: &f256) -> f256 {
     let shr = max(-exp_bits_z, EXP_BITS as i32 - nlz);
     let shl =
         max(exp_bits_z - EXP_MAX as i32, nlz - EXP_BITS as i32).clamp(0, 236);
-    signif_z >>= shr.clamp(0, 511) as u32;
+    // Keep a sticky bit for the bits shifted out.
+    let t;
+    (signif_z, t) = signif_z.widening_shr(shr.clamp(0, 511) as u32);
+    signif_z.lo.lo.0 |= (!t.is_zero()) as u128;
     signif_z <<= shl as u32;
     exp_bits_z += shr - shl + (signif_z.hi.hi.0 > HI_FRACTION_MASK) as i32;
     if exp_bits_z >= EXP_MAX as i32 {
-- 
2.43.0


From 056480a3d167cc3920c5531a5414df94e1f505b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 19/23] fix: parsing mistakes values just above the middle of
 two numbers for ties

---
 src/conv/from_str/fast_approx.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/conv/from_str/fast_approx.rs b/src/conv/from_str/fast_approx.rs
index d7b14cf..cd98c72 100644
--- a/src/conv/from_str/fast_approx.rs
+++ b/src/conv/from_str/fast_approx.rs
@@ -47,7 +47,8 @@ pub(super) fn fast_approx(
         signif10 <<= signif10_nlz;
         // Compute w' * T[k]
         let (p5hi, p5lo, mut exp2) = get_power_of_five(exp10);
-        let mut signif2 = signif10.truncating_mul(&U256::new(p5hi, p5lo));
+        let (signif2_rem, mut signif2) =
+            signif10.widening_mul(&U256::new(p5hi, p5lo));
         // As both multiplicands have their highest bit set, the result has
         // atmost one leading zero. We have to shift the highest bit to the
         // position of the hidden bit, i.e. by EXP_BITS - number of leading
@@ -77,9 +78,10 @@ pub(super) fn fast_approx(
             }
             Ordering::Equal => {
                 // Check edge cases.
-                // If 5ᵏ ∈ [1..2²⁵⁶) we can be sure to have a tie, otherwise
+                // If 5ᵏ ∈ [1..2²⁵⁶) the product w' * T[k] is exact. So, if its
+                // lower half is zero, we can be sure to have a tie, otherwise
                 // we have "a tie and a little bit more".
-                if (0..=110).contains(&exp10) {
+                if (0..=110).contains(&exp10) && signif2_rem.is_zero() {
                     Some(signif2.lo.is_odd())
                 } else {
                     Some(true)
-- 
2.43.0


From 3502e87b90526397942fc5d72a26d56a9fc8e6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:48 +0000
Subject: [PATCH 20/23] fix: sine of small reduced arguments is off by up to a
 third of an ulp

---
 src/math/circular_fns/approx_sin.rs     |  8 ++++----
 src/math/circular_fns/approx_sin_cos.rs | 12 +-----------
 2 files changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/math/circular_fns/approx_sin.rs b/src/math/circular_fns/approx_sin.rs
index 8405c93..e98579b 100644
--- a/src/math/circular_fns/approx_sin.rs
+++ b/src/math/circular_fns/approx_sin.rs
@@ -231,12 +231,12 @@ const COEFFS: [FP492; N] = [
     ),
 ];
 
-// 4.34011192927290911129289122290072654677561270925175391536078950032040224e-36
-// 4.34011192927290911129289122290072654677561270925175391536078950032040224e-36
+// 2⁻¹²⁸ (a reduced argument has more significant bits than an f256, so for a
+// value that is not much smaller, sine x = x is not accurate enough)
 const SMALL_CUT_OFF: FP492 = FP492::new(
     0x00000000000000000000000000000000,
-    0x005c4dd12448fbd973779fc5b15b8c99,
-    0xf02871b5584367dcb9d6fe24cc9ce800,
+    0x00001000000000000000000000000000,
+    0x00000000000000000000000000000000,
     0x00000000000000000000000000000000,
 );
 
diff --git a/src/math/circular_fns/approx_sin_cos.rs b/src/math/circular_fns/approx_sin_cos.rs
index 85d19ff..6c8f3b9 100644
--- a/src/math/circular_fns/approx_sin_cos.rs
+++ b/src/math/circular_fns/approx_sin_cos.rs
@@ -7,18 +7,8 @@
 // $Source$
 // $Revision$
 
-use super::{
-    approx_cos::{approx_cos, SMALL_CUT_OFF},
-    approx_sin::approx_sin,
-    FP492,
-};
+use super::{approx_cos::approx_cos, approx_sin::approx_sin, FP492};
 
 pub(crate) fn approx_sin_cos(x: &FP492) -> (FP492, FP492) {
-    let mut x_abs = *x;
-    x_abs.iabs();
-    // If x is zero or very small, cosine x == 1 and sine x == x.
-    if x_abs <= SMALL_CUT_OFF {
-        return (*x, FP492::ONE);
-    };
     (approx_sin(x), approx_cos(x))
 }
-- 
2.43.0


From 77e231403602de2038b997f7a500b08dc1de3541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:22 +0000
Subject: [PATCH 21/23] fix: remainder by divisors with more than 128
 significant bits can be wrong when the scaled dividend fits 256 bits

---
 src/big_uint/uint_generic/binops/divrem.rs | 44 ++++++----------------
 1 file changed, 12 insertions(+), 32 deletions(-)

diff --git a/src/big_uint/uint_generic/binops/divrem.rs b/src/big_uint/uint_generic/binops/divrem.rs
index 50d4142..8e64abf 100644
--- a/src/big_uint/uint_generic/binops/divrem.rs
+++ b/src/big_uint/uint_generic/binops/divrem.rs
@@ -8,7 +8,6 @@
 // $Revision$
 
 use core::{
-    cmp::Ordering,
     convert::From,
     ops::{Div, Rem},
 };
@@ -111,41 +110,22 @@ where
             // self < rhs
             return (UInt::<SubUInt>::ZERO, *self);
         } else {
-            // estimate the quotient
-            let nlz = self.hi.leading_zeros();
-            let mut quot = UInt::<SubUInt>::from_hi_lo(
-                SubUInt::ZERO,
-                (self << nlz).hi / (rhs << nlz).hi,
-            );
+            // Estimate the quotient by dividing by the normalized high part of
+            // the divisor (Hacker's Delight, 9-5). Halving the dividend avoids
+            // an overflow. The decremented estimate is at most 1 too small.
+            let shift = rhs.hi.leading_zeros();
+            let (mut quot, _) =
+                (self >> 1).div_rem_subuint_special(&(rhs << shift).hi);
+            quot >>= SubUInt::BITS - 1 - shift;
+            quot.decr_if(!quot.is_zero());
             // trim the estimate
             let mut t = *rhs;
             t *= &quot;
-            match (&t).cmp(&self) {
-                Ordering::Greater => {
-                    let mut d = &t - self;
-                    let (mut n, _) = d.div_rem(*rhs);
-                    n.incr();
-                    debug_assert!(n.hi.is_zero());
-                    quot -= &n;
-                    d = *rhs;
-                    d *= &n;
-                    t -= &d;
-                }
-                Ordering::Less => {
-                    let (u, ovl) = t.overflowing_add(&rhs);
-                    if ovl {
-                        let mut d = self - &t;
-                        let (n, _) = d.div_rem(*rhs);
-                        debug_assert!(n.hi.is_zero());
-                        quot += &n;
-                        d = *rhs;
-                        d *= &n;
-                        t += &d;
-                    }
-                }
-                Ordering::Equal => return (quot, UInt::<SubUInt>::ZERO),
+            let mut rem = self - &t;
+            if rem >= *rhs {
+                quot.incr();
+                rem -= rhs;
             }
-            let rem = self - &t;
             (quot, rem)
         }
     }
-- 
2.43.0


From 335a236163b39656cd92ad770d1e28956211e5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 22/23] fix: fused sum of squares ignores a subnormal operand

---
 src/fused_ops/sos.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/fused_ops/sos.rs b/src/fused_ops/sos.rs
index 651cb5b..194b3f7 100644
--- a/src/fused_ops/sos.rs
+++ b/src/fused_ops/sos.rs
@@ -40,16 +40,21 @@ pub(crate) fn sos(x: &f256, y: &f256) -> f256 {
             // Atleast one operand is NAN.
             return f256::NAN;
         }
-        if abs_bits_sticky_x <= HI_FRACTION_MASK {
-            // x is zero or subnormal.
+        if max_abs_bits_sticky == HI_EXP_MASK {
+            // Atleast one operand is infinite.
+            return f256::INFINITY;
+        }
+        if abs_bits_sticky_x == 0 {
+            // x is zero.
             return y.square();
         }
-        if abs_bits_sticky_y <= HI_FRACTION_MASK {
-            // y is zero or subnormal.
+        if abs_bits_sticky_y == 0 {
+            // y is zero.
             return x.square();
         }
-        // For all other special cases the result is INF.
-        return f256::INFINITY;
+        // One operand is subnormal, the other one is normal. Even if the
+        // square of the subnormal operand is far below, it decides in case
+        // the other square is exactly halfway between two numbers.
     }
 
     // Both operands are finite and non-zero.
-- 
2.43.0


From 27d4c3c2e71b8ff935a71dc0d11752495e68d225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:39 +0000
Subject: [PATCH 23/23] fix: product with a short significand loses the sticky
 bit when it is subnormal

---
 src/binops/mul.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binops/mul.rs b/src/binops/mul.rs
index 394e3ea..0a5bef6 100644
--- a/src/binops/mul.rs
+++ b/src/binops/mul.rs
@@ -30,7 +30,7 @@ fn mul_signifs(x: &U256, y: &U256) -> (U256, u32, u32) {
     let shift = EXP_BITS - 1 + carry;
     let rem = hi.rem_pow2(shift).lo;
     let rnd_bits = (rem.0 >> (shift - 2)) as u32
-        | (rem.0 > (1 << (shift - 1))) as u32
+        | (rem.0 & ((1 << (shift - 2)) - 1) != 0) as u32
         | !lo.is_zero() as u32;
     hi >>= shift;
     (hi, carry, rnd_bits)
-- 
2.43.0

