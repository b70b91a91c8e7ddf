From f00ee3dca2abaf00f238ab8e52d7d6a2391c1f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 01/10] fix: rmul panics in the Nearest mode if 2*loss
 overflows the layout

---
 src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5351f2c..ce16864 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -289,8 +289,12 @@ macro_rules! impl_fixed_point {
                 let sign = self.inner.signum() * rhs.inner.signum();
 
                 let add_signed_one = if mode == RoundMode::Nearest {
-                    sign as i32 >= 0 && loss + loss >= Self::COEF
-                                     || loss + loss <= Self::NEG_COEF
+                    // `loss + loss` can overflow if `COEF` is close to `MAX`.
+                    if sign as i32 >= 0 {
+                        loss >= Self::COEF - loss
+                    } else {
+                        loss <= Self::NEG_COEF - loss
+                    }
                 } else {
                     loss != 0 && mode as i32 == sign as i32
                 };
-- 
2.43.0


From 050822f327d753c8c643fdd7d3fb953405166a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 02/10] fix: rdiv panics in the Nearest mode for divisors over
 the half of the range

---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ce16864..bb4db84 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -336,8 +336,9 @@ macro_rules! impl_fixed_point {
                     let sign = self.inner.signum() * rhs.inner.signum();
 
                     let add_signed_one = if mode == RoundMode::Nearest {
-                        let loss_abs = loss.abs();
-                        loss_abs + loss_abs >= rhs.inner.abs()
+                        // `loss + loss` and `rhs.abs()` can overflow, `|loss| < |rhs|`.
+                        let loss_abs = loss.unsigned_abs();
+                        loss_abs >= rhs.inner.unsigned_abs() - loss_abs
                     } else {
                         mode as i32 == sign as i32
                     };
-- 
2.43.0


From 82ac962ae3bd1005943e648809e0b6b106fad1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 03/10] fix: integer rdiv panics on MIN / -1 and on divisors
 over the half of the range

---
 src/ops/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 81f41c3..b7302d8 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -452,15 +452,17 @@ macro_rules! impl_for_ints {
                     return Err(ArithmeticError::DivisionByZero);
                 }
 
-                let mut result = self / rhs;
+                // `MIN / -1` overflows.
+                let mut result = self.checked_div(rhs).ok_or(ArithmeticError::Overflow)?;
                 let loss = self - result * rhs;
 
                 if loss != 0 {
                     let sign = self.signum() * rhs.signum();
 
                     let add_signed_one = if mode == RoundMode::Nearest {
-                        let loss_abs = loss.abs();
-                        loss_abs + loss_abs >= rhs.abs()
+                        // `loss + loss` and `rhs.abs()` can overflow, `|loss| < |rhs|`.
+                        let loss_abs = loss.unsigned_abs();
+                        loss_abs >= rhs.unsigned_abs() - loss_abs
                     } else {
                         mode as i32 == sign as i32
                     };
-- 
2.43.0


From 49fbdb8238ac51c79db4fb5101db0be8c454dbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 04/10] fix: integral panics on MIN and on large fractions

---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bb4db84..dbc7241 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -505,10 +505,11 @@ macro_rules! impl_fixed_point {
             #[inline]
             pub fn integral(self, mode: RoundMode) -> $layout {
                 let sign = self.inner.signum();
-                let (mut int, frac) = (self.inner / Self::COEF, self.inner.abs() % Self::COEF);
+                let (mut int, frac) = (self.inner / Self::COEF, (self.inner % Self::COEF).abs());
 
                 let add_signed_one = if mode == RoundMode::Nearest {
-                    frac + frac >= Self::COEF
+                    // `frac + frac` can overflow if `COEF` is close to `MAX`.
+                    frac >= Self::COEF - frac
                 } else {
                     mode as i32 == sign as i32 && frac > 0
                 };
-- 
2.43.0


From aa0dcf22dda91532300af225e8b52257342e6a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 05/10] fix: from_decimal panics or wraps if the multiplier
 overflows the layout

---
 src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index dbc7241..03ce959 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -676,11 +676,14 @@ macro_rules! impl_fixed_point {
                     return Err(ConvertError::new("unsupported exponent"));
                 }
 
+                if mantissa == 0 {
+                    return Ok(Self::ZERO);
+                }
+
                 let ten: $layout = 10;
-                let multiplier = ten.pow((exponent + Self::PRECISION) as u32);
 
-                mantissa
-                    .checked_mul(multiplier)
+                ten.checked_pow((exponent + Self::PRECISION) as u32)
+                    .and_then(|multiplier| mantissa.checked_mul(multiplier))
                     .map(Self::from_bits)
                     .map_or_else(|| Err(ConvertError::new("too big mantissa")), Ok)
             }
-- 
2.43.0


From 6efb29209520344281380a726775fbcb084aa00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 06/10] fix: formatting overflows its buffer or panics on
 extreme numbers

---
 src/string.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 6e59efc..da833a7 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -108,14 +108,14 @@ macro_rules! impl_for {
                     let _ = buf.push('-');
                 }
 
-                let integral = (self.inner / Self::COEF).abs();
-                let fractional = (self.inner % Self::COEF).abs();
+                let integral = (self.inner / Self::COEF).unsigned_abs();
+                let fractional = (self.inner % Self::COEF).unsigned_abs();
 
                 let _ = buf.push_str(fmt.format(integral));
                 let _ = buf.push('.');
 
                 if fractional > 0 {
-                    let fractional_with_leading_one = fractional + Self::COEF;
+                    let fractional_with_leading_one = fractional + Self::COEF.unsigned_abs();
                     let s = &fmt.format(fractional_with_leading_one)[1..];
                     let _ = buf.push_str(s.trim_end_matches('0'));
                 } else {
@@ -127,9 +127,9 @@ macro_rules! impl_for {
 }
 
 // Serialize as a string in case of human readable formats.
-// The maximum length can be calculated as `len(str(-2**bits)) + 1`,
-// where `1` is reserved for `.` after integral part.
-const MAX_LEN: usize = if cfg!(feature = "i128") { 41 } else { 21 };
+// The maximum length can be calculated as `len(str(-2**(bits-1))) + 2`,
+// where `2` is reserved for `.0` after integral part in case of zero precision.
+const MAX_LEN: usize = if cfg!(feature = "i128") { 42 } else { 22 };
 
 // TODO: try `staticvec` after stabilization.
 // Now it works faster than `arrayvec`.
-- 
2.43.0


From 7775ee38adeddfe2a60e27da8823472eb7d58fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 07/10] fix: parsing with rounding to zero precision fails

---
 src/string.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index da833a7..6c91d79 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -78,9 +78,13 @@ macro_rules! impl_for {
 
                 debug_assert!(exp <= Self::COEF);
 
-                let fractional: $layout = fractional_str
-                    .parse()
-                    .map_err(|_| ConvertError::new("can't parse fractional part"))?;
+                let fractional: $layout = if prec == 0 && !EXACT && !str.ends_with('.') {
+                    0 // All digits are taken into account by rounding.
+                } else {
+                    fractional_str
+                        .parse()
+                        .map_err(|_| ConvertError::new("can't parse fractional part"))?
+                };
 
                 let final_integral = integral
                     .checked_mul(Self::COEF)
-- 
2.43.0


From aa424c20eeee2776166cf615077a1c2a42bbbe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 08/10] fix: conversion from f64 rejects the minimum value

---
 src/float.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/float.rs b/src/float.rs
index e833677..bdc30bd 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -168,6 +168,11 @@ macro_rules! impl_try_from_f64 {
                     bits = rdiv_by_exponent_10(bits, (-Self::PRECISION - exponent10) as u32);
                 }
 
+                // The magnitude of `MIN` doesn't fit in the layout.
+                if !positive && bits == $layout::MIN.unsigned_abs() as u128 {
+                    return Ok(Self::from_bits($layout::MIN));
+                }
+
                 let bits: $layout = bits
                     .try_into()
                     .map_err(|_| ConvertError::new("too big number"))?;
-- 
2.43.0


From 6b923096a21a19f9e8845b7ad1180dab63223398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:50 +0000
Subject: [PATCH 09/10] fix: literals reject the minimum value and long leading
 zeros

---
 src/const_fn.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/const_fn.rs b/src/const_fn.rs
index 997ac30..d2d8834 100644
--- a/src/const_fn.rs
+++ b/src/const_fn.rs
@@ -70,14 +70,14 @@ const fn parse_digit(byte: u8) -> Int {
     digit as _
 }
 
-const fn parse_int(bytes: &[u8], start: usize, end: usize) -> Int {
+// Returns the negated value: it covers the minimum of `Int`, unlike the positive one.
+const fn parse_int_neg(bytes: &[u8], start: usize, end: usize) -> Int {
     let mut result: Int = 0;
     let mut i = start;
 
     while i < end {
-        let digit = parse_digit(bytes[i]);
+        result = result * 10 - parse_digit(bytes[i]);
         i += 1;
-        result += digit * pow10((end - i) as i32);
     }
 
     result
@@ -86,7 +86,7 @@ const fn parse_int(bytes: &[u8], start: usize, end: usize) -> Int {
 // TODO: check overflow explicitly.
 pub const fn parse_fixed(str: &str, coef: Int) -> Int {
     let bytes = str.as_bytes();
-    let signum = if bytes[0] == b'-' { -1 } else { 1 };
+    let negative = bytes[0] == b'-';
 
     let start = if bytes[0] == b'-' || bytes[0] == b'+' {
         1
@@ -97,20 +97,25 @@ pub const fn parse_fixed(str: &str, coef: Int) -> Int {
     let point = match find(bytes, b'.') {
         Some(point) => point,
         None => {
-            let integral = parse_int(bytes, start, bytes.len());
-            return signum * integral * coef;
+            let result = parse_int_neg(bytes, start, bytes.len()) * coef;
+            return if negative { result } else { -result };
         }
     };
 
-    let integral = parse_int(bytes, start, point);
+    let integral = parse_int_neg(bytes, start, point);
     let exp = pow10((bytes.len() - point - 1) as i32);
     const_assert!(exp <= coef);
 
-    let fractional = parse_int(bytes, point + 1, bytes.len());
+    let fractional = parse_int_neg(bytes, point + 1, bytes.len());
     let final_integral = integral * coef;
     let final_fractional = coef / exp * fractional;
 
-    signum * (final_integral + final_fractional)
+    let result = final_integral + final_fractional;
+    if negative {
+        result
+    } else {
+        -result
+    }
 }
 
 #[test]
-- 
2.43.0


From ccf24d59d916a2fd0933b02ae90f1cf4e506f7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:34 +0000
Subject: [PATCH 10/10] hook: expose I256 to the verification harness under
 cfg(fixnum_verif)

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 03ce959..7e7d23a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -176,6 +176,14 @@ pub mod _priv {
     pub use crate::ops::*;
 }
 
+// Access for the verification harness, only under `--cfg fixnum_verif`.
+#[doc(hidden)]
+#[allow(unexpected_cfgs, missing_docs)]
+pub mod _verif {
+    #[cfg(all(fixnum_verif, feature = "i128"))]
+    pub use crate::i256::I256;
+}
+
 type Result<T, E = ArithmeticError> = core::result::Result<T, E>;
 
 /// Abstraction over fixed point numbers of arbitrary (but only compile-time specified) size
-- 
2.43.0

