From 83906815fd67a0736f6c22b50c1d617ccf88946c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:50 +0000
Subject: [PATCH 01/24] fix: BigInt operations with the most negative machine
 integer overflowed in abs()

---
 src/bigint/arith/add.rs | 8 ++++----
 src/bigint/arith/div.rs | 4 ++--
 src/bigint/arith/mul.rs | 4 ++--
 src/bigint/arith/rem.rs | 6 +++---
 src/bigint/arith/sub.rs | 8 ++++----
 src/bigint/comp.rs      | 8 ++++----
 src/bigint/convert.rs   | 6 +++---
 src/ratio/arith/pow.rs  | 8 ++++----
 8 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/bigint/arith/add.rs b/src/bigint/arith/add.rs
index 12ba334..a31bcc0 100644
--- a/src/bigint/arith/add.rs
+++ b/src/bigint/arith/add.rs
@@ -56,11 +56,11 @@ impl BigInt {
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn add_i32(&self, other: i32) -> Self {
         if self.is_neg() == (other < 0) {
-            BigInt::from_ubi(self.val.add_u32(other.abs() as u32), self.is_neg())
+            BigInt::from_ubi(self.val.add_u32(other.unsigned_abs()), self.is_neg())
         }
 
         else {
-            let other_abs = other.abs() as u32;
+            let other_abs = other.unsigned_abs();
             let self_less = self.val.lt_u32(other_abs);
             let abs_diff = if self_less {
                 UBigInt::from_u32(other_abs - self.val.to_u32().unwrap())
@@ -79,11 +79,11 @@ impl BigInt {
 
     pub fn add_i32_mut(&mut self, other: i32) {
         if self.is_neg() == (other < 0) {
-            self.val.add_u32_mut(other.abs() as u32);
+            self.val.add_u32_mut(other.unsigned_abs());
         }
 
         else {
-            let other_abs = other.abs() as u32;
+            let other_abs = other.unsigned_abs();
             let self_less = self.val.lt_u32(other_abs);
             if self_less {
                 self.val = UBigInt::from_u32(other_abs - self.val.to_u32().unwrap());
diff --git a/src/bigint/arith/div.rs b/src/bigint/arith/div.rs
index ff7b35a..a82a78e 100644
--- a/src/bigint/arith/div.rs
+++ b/src/bigint/arith/div.rs
@@ -22,7 +22,7 @@ impl BigInt {
 
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn div_i32(&self, other: i32) -> Self {
-        let val = self.val.div_u32(other.abs() as u32);
+        let val = self.val.div_u32(other.unsigned_abs());
         let is_neg = !val.is_zero() && self.is_neg() != (other < 0);
 
         let result = BigInt::from_ubi(val, is_neg);
@@ -33,7 +33,7 @@ impl BigInt {
     }
 
     pub fn div_i32_mut(&mut self, other: i32) {
-        self.val.div_u32_mut(other.abs() as u32);
+        self.val.div_u32_mut(other.unsigned_abs());
         self._is_neg = !self.val.is_zero() && self.is_neg() != (other < 0);
         #[cfg(test)] assert!(self.is_valid());
     }
diff --git a/src/bigint/arith/mul.rs b/src/bigint/arith/mul.rs
index 5a3fb94..4e74bb5 100644
--- a/src/bigint/arith/mul.rs
+++ b/src/bigint/arith/mul.rs
@@ -22,7 +22,7 @@ impl BigInt {
 
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn mul_i32(&self, other: i32) -> Self {
-        let val = self.val.mul_u32(other.abs() as u32);
+        let val = self.val.mul_u32(other.unsigned_abs());
         let is_neg = !val.is_zero() && self.is_neg() != (other < 0);
 
         let result = BigInt::from_ubi(val, is_neg);
@@ -33,7 +33,7 @@ impl BigInt {
     }
 
     pub fn mul_i32_mut(&mut self, other: i32) {
-        self.val.mul_u32_mut(other.abs() as u32);
+        self.val.mul_u32_mut(other.unsigned_abs());
         self._is_neg = !self.val.is_zero() && self.is_neg() != (other < 0);
         #[cfg(test)] assert!(self.is_valid());
     }
diff --git a/src/bigint/arith/rem.rs b/src/bigint/arith/rem.rs
index 6dd52f2..49265a1 100644
--- a/src/bigint/arith/rem.rs
+++ b/src/bigint/arith/rem.rs
@@ -26,7 +26,7 @@ impl BigInt {
     // x % y = -(-x % y)
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn rem_i32(&self, other: i32) -> Self {
-        let new_val = self.val.rem_u32(other.abs() as u32);
+        let new_val = self.val.rem_u32(other.unsigned_abs());
         let is_neg = self.is_neg() & !new_val.is_zero();
 
         let result = BigInt::from_ubi(new_val, is_neg);
@@ -37,7 +37,7 @@ impl BigInt {
     }
 
     pub fn rem_i32_mut(&mut self, other: i32) {
-        self.val.rem_u32_mut(other.abs() as u32);
+        self.val.rem_u32_mut(other.unsigned_abs());
         self._is_neg = self.is_neg() & !self.val.is_zero();
         #[cfg(test)] assert!(self.is_valid());
     }
@@ -45,7 +45,7 @@ impl BigInt {
     /// `other` must be a power of 2
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn rem_pow2(&self, other: i32) -> Self {
-        let new_val = self.val.rem_pow2(other.abs() as u32);
+        let new_val = self.val.rem_pow2(other.unsigned_abs());
         let is_neg = self.is_neg() & !new_val.is_zero();
 
         BigInt::from_ubi(new_val, is_neg)
diff --git a/src/bigint/arith/sub.rs b/src/bigint/arith/sub.rs
index db3507f..2ac23c4 100644
--- a/src/bigint/arith/sub.rs
+++ b/src/bigint/arith/sub.rs
@@ -60,11 +60,11 @@ impl BigInt {
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn sub_i32(&self, other: i32) -> Self {
         let result = if self.is_neg() != (other < 0) {
-            BigInt::from_ubi(self.val.add_u32(other.abs() as u32), self.is_neg())
+            BigInt::from_ubi(self.val.add_u32(other.unsigned_abs()), self.is_neg())
         }
 
         else {
-            let other_abs = other.abs() as u32;
+            let other_abs = other.unsigned_abs();
             let self_less = self.val.lt_u32(other_abs);
             let abs_diff = if self_less {
                 UBigInt::from_u32(other_abs - self.val.to_u32().unwrap())
@@ -83,11 +83,11 @@ impl BigInt {
 
     pub fn sub_i32_mut(&mut self, other: i32) {
         if self.is_neg() != (other < 0) {
-            self.val.add_u32_mut(other.abs() as u32);
+            self.val.add_u32_mut(other.unsigned_abs());
         }
 
         else {
-            let other_abs = other.abs() as u32;
+            let other_abs = other.unsigned_abs();
             let self_less = self.val.lt_u32(other_abs);
 
             if self_less {
diff --git a/src/bigint/comp.rs b/src/bigint/comp.rs
index 7da3c53..e6d7005 100644
--- a/src/bigint/comp.rs
+++ b/src/bigint/comp.rs
@@ -102,7 +102,7 @@ impl BigInt {
         }
 
         else {
-            match self.val.comp_u32(other.abs() as u32) {
+            match self.val.comp_u32(other.unsigned_abs()) {
                 Ordering::Equal => false,
 
                 // -3 > -4
@@ -127,7 +127,7 @@ impl BigInt {
         }
 
         else {
-            match self.val.comp_u32(other.abs() as u32) {
+            match self.val.comp_u32(other.unsigned_abs()) {
                 Ordering::Equal => false,
 
                 // -3 > -4
@@ -151,7 +151,7 @@ impl BigInt {
         }
 
         else {
-            self.val.to_u32().unwrap() == other.abs() as u32
+            self.val.to_u32().unwrap() == other.unsigned_abs()
         }
     }
 
@@ -181,7 +181,7 @@ impl BigInt {
         }
 
         else {
-            match self.val.comp_u32(other.abs() as u32) {
+            match self.val.comp_u32(other.unsigned_abs()) {
                 Ordering::Equal => Ordering::Equal,
                 Ordering::Less if self.is_neg() => Ordering::Greater,
                 Ordering::Less => Ordering::Less,
diff --git a/src/bigint/convert.rs b/src/bigint/convert.rs
index abf2702..2cec4d9 100644
--- a/src/bigint/convert.rs
+++ b/src/bigint/convert.rs
@@ -11,7 +11,7 @@ impl BigInt {
         let _is_neg = n < 0;
 
         BigInt {
-            val: UBigInt::from_u32(n.abs() as u32),
+            val: UBigInt::from_u32(n.unsigned_abs()),
             _is_neg,
         }
     }
@@ -33,7 +33,7 @@ impl BigInt {
         let _is_neg = n < 0;
 
         BigInt {
-            val: UBigInt::from_u64(n.abs() as u64),
+            val: UBigInt::from_u64(n.unsigned_abs()),
             _is_neg,
         }
     }
@@ -55,7 +55,7 @@ impl BigInt {
         let _is_neg = n < 0;
 
         BigInt {
-            val: UBigInt::from_u128(n.abs() as u128),
+            val: UBigInt::from_u128(n.unsigned_abs()),
             _is_neg,
         }
     }
diff --git a/src/ratio/arith/pow.rs b/src/ratio/arith/pow.rs
index f49e9e6..c625843 100644
--- a/src/ratio/arith/pow.rs
+++ b/src/ratio/arith/pow.rs
@@ -7,8 +7,8 @@ impl Ratio {
 
         // Safety: if a and b are coprime, a^n and b^n are coprime.
         let mut result = Ratio::from_denom_and_numer_raw(
-            self.denom.pow_u32(exp.abs() as u32),
-            self.numer.pow_u32(exp.abs() as u32),
+            self.denom.pow_u32(exp.unsigned_abs()),
+            self.numer.pow_u32(exp.unsigned_abs()),
         );
 
         if exp < 0 {
@@ -21,8 +21,8 @@ impl Ratio {
     }
 
     pub fn pow_i32_mut(&mut self, exp: i32) {
-        self.denom.pow_u32_mut(exp.abs() as u32);
-        self.numer.pow_u32_mut(exp.abs() as u32);
+        self.denom.pow_u32_mut(exp.unsigned_abs());
+        self.numer.pow_u32_mut(exp.unsigned_abs());
 
         if exp < 0 {
             self.reci_mut();
-- 
2.43.0


From 2954ec34054c5f7779ffee2e8b904a7e30bdcecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:50 +0000
Subject: [PATCH 02/24] fix: UBigInt::rem_u32_mut overflowed its 32-bit
 products

---
 src/ubigint/arith/rem.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ubigint/arith/rem.rs b/src/ubigint/arith/rem.rs
index d12c44d..bd3ce54 100644
--- a/src/ubigint/arith/rem.rs
+++ b/src/ubigint/arith/rem.rs
@@ -45,17 +45,18 @@ impl UBigInt {
     }
 
     pub fn rem_u32_mut(&mut self, other: u32) {
-        let unit = ((1 << 32) % other as u64) as u32;
+        let other = other as u64;
+        let unit = (1 << 32) % other;
         let mut curr_power = 1;
         let mut result = 0;
 
         for d in self.0.iter() {
-            result += (d % other) * curr_power % other;
+            result += (*d as u64 % other) * curr_power % other;
             curr_power *= unit;
             curr_power %= other;
         }
 
-        *self = UBigInt::from_u32(result % other);
+        *self = UBigInt::from_u32((result % other) as u32);
 
         #[cfg(test)] {
             let mut t = self.rem(&UBigInt::from_u32(other as u32));
-- 
2.43.0


From 7c8a942b5ef3129c168ec091ccdbcfcedc917657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:50 +0000
Subject: [PATCH 03/24] fix: BigInt::eq_i32 panicked on values wider than 32
 bits

---
 src/bigint/comp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/comp.rs b/src/bigint/comp.rs
index e6d7005..8c93a5b 100644
--- a/src/bigint/comp.rs
+++ b/src/bigint/comp.rs
@@ -151,7 +151,7 @@ impl BigInt {
         }
 
         else {
-            self.val.to_u32().unwrap() == other.unsigned_abs()
+            self.val.eq_u32(other.unsigned_abs())
         }
     }
 
-- 
2.43.0


From 32a7cfc3fb1e45e3440073c20407f8661d29fd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:50 +0000
Subject: [PATCH 04/24] fix: BigInt::to_i128 rejected i128::MIN

---
 src/bigint/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bigint/convert.rs b/src/bigint/convert.rs
index 2cec4d9..f4493f8 100644
--- a/src/bigint/convert.rs
+++ b/src/bigint/convert.rs
@@ -64,8 +64,8 @@ impl BigInt {
         match self.val.to_u128() {
             Ok(n) => if !self.is_neg() && n <= i128::MAX as u128 {
                 Ok(n as i128)
-            } else if self.is_neg() && n < (1 << 127) {
-                Ok(-(n as i128))
+            } else if self.is_neg() && n <= i128::MIN.unsigned_abs() {
+                Ok((n as i128).wrapping_neg())
             } else {
                 Err(ConversionError::NotInRange { permitted: "-1.7e38~1.7e38".to_string(), error: self.to_scientific_notation(5) })
             },
-- 
2.43.0


From 6d9962e566876c9687a8fdf83eeac3606cec4278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:07 +0000
Subject: [PATCH 05/24] fix: usize::try_from(UBigInt) rejected values above
 u32::MAX

---
 src/ubigint/convert/into.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ubigint/convert/into.rs b/src/ubigint/convert/into.rs
index 4392a13..a2c4176 100644
--- a/src/ubigint/convert/into.rs
+++ b/src/ubigint/convert/into.rs
@@ -54,7 +54,7 @@ impl_trivial_try_from!(&UBigInt, u32, to_u32);
 impl_trivial_try_from!(&UBigInt, u64, to_u64);
 impl_trivial_try_from!(&UBigInt, u128, to_u128);
 
-impl_trivial_try_from!(Fallible, &UBigInt, usize, to_u32);
+impl_trivial_try_from!(Fallible, &UBigInt, usize, to_u64);
 impl_trivial_try_from!(Fallible, &UBigInt, i8, to_u32);
 impl_trivial_try_from!(Fallible, &UBigInt, i16, to_u32);
 impl_trivial_try_from!(Fallible, &UBigInt, i32, to_u32);
-- 
2.43.0


From 6a7a75799c805303aca3a9a39cc46ae556fd44cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:07 +0000
Subject: [PATCH 06/24] fix: Ratio division by zero returned a fraction with a
 zero denominator

---
 src/ratio/arith/div.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/ratio/arith/div.rs b/src/ratio/arith/div.rs
index f6cb86a..5808c65 100644
--- a/src/ratio/arith/div.rs
+++ b/src/ratio/arith/div.rs
@@ -4,6 +4,10 @@ impl Ratio {
 
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn div(&self, other: &Ratio) -> Self {
+        if other.is_zero() {
+            panic!("Attempt to divide by zero: {self:?} / {other:?}");
+        }
+
         let result = Ratio::from_denom_and_numer(
             self.denom.mul(&other.numer),
             self.numer.mul(&other.denom),
@@ -15,6 +19,10 @@ impl Ratio {
     }
 
     pub fn div_mut(&mut self, other: &Ratio) {
+        if other.is_zero() {
+            panic!("Attempt to divide by zero: {self:?} / {other:?}");
+        }
+
         self.denom.mul_mut(&other.numer);
         self.numer.mul_mut(&other.denom);
         self.fit();
@@ -56,6 +64,10 @@ impl Ratio {
 
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn div_i32(&self, other: i32) -> Self {
+        if other == 0 {
+            panic!("Attempt to divide by zero: {self:?} / {other:?}");
+        }
+
         let result = Ratio::from_denom_and_numer(
             self.denom.mul_i32(other),
             self.numer.clone(),
@@ -67,6 +79,10 @@ impl Ratio {
     }
 
     pub fn div_i32_mut(&mut self, other: i32) {
+        if other == 0 {
+            panic!("Attempt to divide by zero: {self:?} / {other:?}");
+        }
+
         self.denom.mul_i32_mut(other);
         self.fit();
 
-- 
2.43.0


From 65553081d7f24d403ad280fd12da8e946c00eec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:19 +0000
Subject: [PATCH 07/24] fix: Ratio::from_denom_and_numer_i32 overflowed on
 i32::MIN

---
 src/ratio/convert.rs | 10 ++++++----
 src/utils.rs         | 13 +++++++++++++
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/ratio/convert.rs b/src/ratio/convert.rs
index f0ca69c..d829f63 100644
--- a/src/ratio/convert.rs
+++ b/src/ratio/convert.rs
@@ -1,6 +1,6 @@
 use crate::{Ratio, BigInt, UBigInt};
 use crate::err::ConversionError;
-use crate::utils::gcd_i32;
+use crate::utils::gcd_i64;
 use crate::ubigint::convert::_to_scientific_notation;
 use std::str::FromStr;
 
@@ -19,8 +19,10 @@ impl Ratio {
     }
 
     /// optimized version of `Ratio::From<(D, N)>` and `Ratio::from_denom_and_numer`
-    pub fn from_denom_and_numer_i32(mut denom: i32, mut numer: i32) -> Self {
-        let r = gcd_i32(denom, numer);
+    pub fn from_denom_and_numer_i32(denom: i32, numer: i32) -> Self {
+        // `i32::MIN` cannot be negated in `i32`
+        let (mut denom, mut numer) = (denom as i64, numer as i64);
+        let r = gcd_i64(denom, numer);
 
         if r != 1 {
             denom /= r;
@@ -32,7 +34,7 @@ impl Ratio {
             numer *= -1;
         }
 
-        Ratio::from_denom_and_numer_raw(BigInt::from_i32(denom), BigInt::from_i32(numer))
+        Ratio::from_denom_and_numer_raw(BigInt::from_i64(denom), BigInt::from_i64(numer))
     }
 
     /// This function does not do any safety checks. Use this function only when you're sure that the properties below are satisfied.
diff --git a/src/utils.rs b/src/utils.rs
index 2fb9b4c..d162298 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -45,6 +45,19 @@ pub fn gcd_i32(mut a: i32, mut b: i32) -> i32 {
     b
 }
 
+pub fn gcd_i64(mut a: i64, mut b: i64) -> i64 {
+    a = a.abs();
+    b = b.abs();
+
+    while a != 0 {
+        let r = b % a;
+        b = a;
+        a = r;
+    }
+
+    b
+}
+
 #[cfg(test)]
 pub fn are_close(a: &crate::Ratio, b: &crate::Ratio, thres: f64) -> bool {
     if b.is_zero() {
-- 
2.43.0


From ca337438a4cf5c7edab5b188ff1450bf64d6ab9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:57 +0000
Subject: [PATCH 08/24] fix: UBigInt::pow_u32 overflowed its exponent counter
 for exponents of 2^31 and more

---
 src/ubigint/arith/pow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ubigint/arith/pow.rs b/src/ubigint/arith/pow.rs
index cc12a38..5a00113 100644
--- a/src/ubigint/arith/pow.rs
+++ b/src/ubigint/arith/pow.rs
@@ -25,7 +25,7 @@ impl UBigInt {
         let mut curr_exp = 1;
         powers.push(self.clone());
 
-        while curr_exp * 2 <= exp {
+        while curr_exp <= exp / 2 {
             powers.push(powers[powers.len() - 1].mul(&powers[powers.len() - 1]));
             curr_exp *= 2;
         }
-- 
2.43.0


From cc3714b2ff357625a64bc5433810143ebee41a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:36 +0000
Subject: [PATCH 09/24] fix: Matrix::inverse of a 1 by 1 matrix returned the
 identity

---
 src/matrix/inv.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/matrix/inv.rs b/src/matrix/inv.rs
index 4cbd3a3..de27c0b 100644
--- a/src/matrix/inv.rs
+++ b/src/matrix/inv.rs
@@ -21,8 +21,11 @@ impl Matrix {
         let n = self.cols;
 
         if n < 5 {
-            if n < 2 {
+            if n == 0 {
                 self.clone()
+            } else if n == 1 {
+                // the determinant of the empty minor is 1
+                Matrix::identity(1)
             } else if n == 2 {
                 Matrix::from_raw(
                     vec![
-- 
2.43.0


From 350e030f8c734f40cfa5a5c1bd6ebfce00a573cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:36 +0000
Subject: [PATCH 10/24] fix: Polynomial::from_vec_generic kept leading zero
 coefficients

---
 src/poly.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/poly.rs b/src/poly.rs
index aa5fff8..00d887c 100644
--- a/src/poly.rs
+++ b/src/poly.rs
@@ -33,9 +33,7 @@ impl Polynomial {
     }
 
     pub fn from_vec_generic<T: Into<Ratio>>(coeffs: Vec<T>) -> Self {
-        if coeffs.is_empty() { return Polynomial::from_vec(vec![]); }
-
-        Polynomial { coeffs: coeffs.into_iter().map(|n| n.into()).collect() }
+        Polynomial::from_vec(coeffs.into_iter().map(|n| n.into()).collect())
     }
 
     pub fn to_vec(&self) -> &Vec<Ratio> {
-- 
2.43.0


From 8e38a67f0fbeb31c7720ca7dcbd7edaf62afbc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:37 +0000
Subject: [PATCH 11/24] fix: F192::mul_i32 overflowed when the product carries
 into the next power of two, and on i32::MIN

---
 src/fp192/arith/mul.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/fp192/arith/mul.rs b/src/fp192/arith/mul.rs
index 22ee2c8..f147e27 100644
--- a/src/fp192/arith/mul.rs
+++ b/src/fp192/arith/mul.rs
@@ -57,7 +57,7 @@ impl F192 {
 
         let mut digits = self.digits | SIGN_MASK;
         let mut exp = self.exp;
-        let a_abs = a.abs() as u128;
+        let a_abs = a.unsigned_abs() as u128;
         let mut rem = (digits & 0xffff_ffff) * a_abs;
 
         digits >>= 32;
@@ -71,7 +71,15 @@ impl F192 {
         }
 
         rem >>= 32;
-        digits += rem;
+
+        // the carry of the lower digits may reach 2^128
+        digits = match digits.checked_add(rem) {
+            Some(digits) => digits,
+            None => {
+                exp += 1;
+                digits.wrapping_add(rem) >> 1 | SIGN_MASK
+            },
+        };
 
         F192 {
             digits: digits & !SIGN_MASK | (((self.is_neg() != (a < 0)) as u128) << 127),
-- 
2.43.0


From 72d596166591b99b3f1d98765f07d72684675f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:37 +0000
Subject: [PATCH 12/24] fix: F192::div_i32 overflowed on i32::MIN

---
 src/fp192/arith/div.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp192/arith/div.rs b/src/fp192/arith/div.rs
index 62e8b6b..e19f07b 100644
--- a/src/fp192/arith/div.rs
+++ b/src/fp192/arith/div.rs
@@ -57,7 +57,7 @@ impl F192 {
 
         let mut digits = self.digits | SIGN_MASK;
         let mut exp = self.exp;
-        let a_abs = a.abs() as u128;
+        let a_abs = a.unsigned_abs() as u128;
         let mut rem = digits % a_abs;
 
         digits /= a_abs;
-- 
2.43.0


From 8f85d6634b548a8b1a03a519dd79037671701a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:37 +0000
Subject: [PATCH 13/24] fix: F192::from(i128::MIN) overflowed

---
 src/fp192/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index f6e1a82..31d662b 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -24,7 +24,7 @@ impl F192 {
 
     const fn from_i128(n: i128) -> Self {
         if n < 0 {
-            let mut result = F192::from_u128(n.abs() as u128);
+            let mut result = F192::from_u128(n.unsigned_abs());
             result.digits |= SIGN_MASK;
 
             result
-- 
2.43.0


From 3793dae2f460d17d5010fe069de24481658927ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:37 +0000
Subject: [PATCH 14/24] fix: F192 to i128 conversion rejected i128::MIN

---
 src/fp192/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index 31d662b..caab17d 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -53,8 +53,8 @@ impl F192 {
         if self.is_neg() {
             let n = self.neg().to_u128()?;
 
-            if n < (1 << 127) {
-                Ok(-(n as i128))
+            if n <= (1 << 127) {
+                Ok((n as i128).wrapping_neg())
             }
 
             else {
-- 
2.43.0


From 8fc0ca223eecdf499cb8217cbd3efaf2814d730e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:37 +0000
Subject: [PATCH 15/24] fix: F192 to integer conversion overflowed its shift on
 numbers below 1

---
 src/fp192/convert.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index caab17d..e0646fd 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -44,6 +44,11 @@ impl F192 {
             return Err(());
         }
 
+        // less than 1
+        if EXP_COEFF - self.exp > 127 {
+            return Ok(0);
+        }
+
         let digits = self.digits | SIGN_MASK;
 
         Ok(digits >> (EXP_COEFF - self.exp))
-- 
2.43.0


From 24331a75d9ae059a792c25551d97645663379a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:37 +0000
Subject: [PATCH 16/24] fix: F192::from(&Ratio) flipped the sign when rounding
 up to a power of two

---
 src/fp192/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index e0646fd..315fe4e 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -307,7 +307,7 @@ impl From<&Ratio> for F192 {
         let mut digits: u128 = n_abs.truncate_bi().try_into().unwrap();
 
         if n_abs_rem > 15 {
-            if digits != u128::MAX {
+            if digits != !SIGN_MASK {
                 digits += 1;
             }
 
-- 
2.43.0


From 5dafe9a3499d74d69f1b20655d4ffc7f0b5f79e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:18 +0000
Subject: [PATCH 17/24] fix: F192 to f32/f64 conversion: NaN at the top of the
 range, wrong values in the subnormal range

---
 src/fp192/convert.rs | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index 315fe4e..f491bfe 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -186,6 +186,20 @@ impl From<F192> for f32 {
         // 254 = 127 + 127 = f32 exp bias + f192 digit bias
         let mut exp = n.exp as i64 - EXP_COEFF as i64 + 254;
 
+        // subnormal numbers: an integer multiple of the smallest f32
+        if exp <= 0 {
+            let shift = 105 - exp;
+
+            if shift > 128 {
+                return 0.0;
+            }
+
+            let half = (n.digits | SIGN_MASK) >> (shift - 1);
+            let mant = (half >> 1) + (half & 1);
+
+            return f32::from_bits(((n.is_neg() as u32) << 31) | mant as u32);
+        }
+
         if rem > 15 {
             mant += 1;
 
@@ -195,9 +209,7 @@ impl From<F192> for f32 {
             }
         }
 
-        if exp < 0 {
-            0.0
-        } else if exp > 255 {
+        if exp >= 255 {
             if n.is_neg() {
                 f32::NEG_INFINITY
             } else {
@@ -220,6 +232,20 @@ impl From<F192> for f64 {
         // 1150 = 1023 + 127 = f64 exp bias + f192 digit bias
         let mut exp = n.exp as i64 - EXP_COEFF as i64 + 1150;
 
+        // subnormal numbers: an integer multiple of the smallest f64
+        if exp <= 0 {
+            let shift = 76 - exp;
+
+            if shift > 128 {
+                return 0.0;
+            }
+
+            let half = (n.digits | SIGN_MASK) >> (shift - 1);
+            let mant = (half >> 1) + (half & 1);
+
+            return f64::from_bits(((n.is_neg() as u64) << 63) | mant as u64);
+        }
+
         if rem > 15 {
             mant += 1;
 
@@ -229,9 +255,7 @@ impl From<F192> for f64 {
             }
         }
 
-        if exp < 0 {
-            0.0
-        } else if exp > 2047 {
+        if exp >= 2047 {
             if n.is_neg() {
                 f64::NEG_INFINITY
             } else {
-- 
2.43.0


From 6c1dd957da9dbb8ad0eacc7e3f3ef25c418a05c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:18 +0000
Subject: [PATCH 18/24] fix: F192::sub ignored the upper 32 bits of the
 exponents

---
 src/fp192/arith/sub.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/fp192/arith/sub.rs b/src/fp192/arith/sub.rs
index 0ce307d..c443a31 100644
--- a/src/fp192/arith/sub.rs
+++ b/src/fp192/arith/sub.rs
@@ -1,4 +1,5 @@
 use crate::{F192, Ratio};
+use crate::fp192::EXP_COEFF;
 
 impl F192 {
 
@@ -23,6 +24,30 @@ impl F192 {
         }
 
         // TODO
-        Ratio::from(self).sub(&other.into()).into()
+        let base = self.exp.min(other.exp);
+
+        // too far apart to have an effect
+        if self.exp - base > 130 {
+            return self.clone();
+        }
+
+        if other.exp - base > 130 {
+            return other.neg();
+        }
+
+        // the common exponent is taken out: it may not fit in a `Ratio`
+        let s = F192 { exp: self.exp - base + EXP_COEFF, ..*self };
+        let o = F192 { exp: other.exp - base + EXP_COEFF, ..*other };
+        let result: F192 = Ratio::from(s).sub(&o.into()).into();
+
+        let exp = result.exp as i128 - EXP_COEFF as i128 + base as i128;
+
+        if result.is_zero() || exp < 0 {
+            F192::ZERO
+        }
+
+        else {
+            F192 { exp: exp as u64, ..result }
+        }
     }
 }
-- 
2.43.0


From 9aa7140f60f31a75927484e3eecb2950753a9eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:18 +0000
Subject: [PATCH 19/24] fix: F192::powi overflowed on i64::MIN

---
 src/fp192/funcs/pow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp192/funcs/pow.rs b/src/fp192/funcs/pow.rs
index 0f5f344..aa07749 100644
--- a/src/fp192/funcs/pow.rs
+++ b/src/fp192/funcs/pow.rs
@@ -47,7 +47,7 @@ impl F192 {
 
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn powi(&self, n: i64) -> Self {
-        let n_abs = n.abs() as u64;
+        let n_abs = n.unsigned_abs();
         let result = powi_abs(self, n_abs);
 
         if n < 0 {
-- 
2.43.0


From 00330d318946df71c493da45661f87939f4e9ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:18 +0000
Subject: [PATCH 20/24] fix: F192::from_str dropped the sign of hexadecimal,
 octal and binary numbers

---
 src/fp192/convert/string.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fp192/convert/string.rs b/src/fp192/convert/string.rs
index e17c1fe..ea47eb4 100644
--- a/src/fp192/convert/string.rs
+++ b/src/fp192/convert/string.rs
@@ -159,6 +159,10 @@ impl FromStr for F192 {
                     result = result.add(&F192::from(curr));
                 }
 
+                if is_neg {
+                    result = result.neg();
+                }
+
                 Ok(result)
             },
             ParseState::ReadDigit
-- 
2.43.0


From f033da4c469a4d68d174a723e159af2b698e3be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:33 +0000
Subject: [PATCH 21/24] fix: Ratio to f32/f64 lost the carry of the rounding,
 returned inf/NaN, and rounded subnormals twice

---
 src/ratio/convert/ieee754.rs | 94 +++++++++++++++---------------------
 1 file changed, 38 insertions(+), 56 deletions(-)

diff --git a/src/ratio/convert/ieee754.rs b/src/ratio/convert/ieee754.rs
index 4834ecb..4a66c59 100644
--- a/src/ratio/convert/ieee754.rs
+++ b/src/ratio/convert/ieee754.rs
@@ -73,46 +73,37 @@ impl Ratio {
             exp -= 1;
         }
 
-        let (mut frac, frac_rem) = self_clone.sub_i32(1).mul_i32(1 << 23).truncate_and_frac();
+        // number of bits below the leading one: the smallest representable number is 2^-149
+        let precision = (exp + 149).min(23);
+
+        // less than half of the smallest representable number
+        if precision < -1 {
+            return Ok(0.0);
+        }
+
+        let (mut frac, frac_rem) = if precision < 0 {
+            self_clone.div_i32(2)
+        } else {
+            self_clone.mul_bi(&BigInt::pow2(precision as u32))
+        }.truncate_and_frac();
 
         // IEEE754 chooses the closest approximation
         if frac_rem.gt(&Ratio::from_denom_and_numer_i32(2, 1)) {
             frac.add_i32_mut(1);
         }
 
-        let mut frac = frac.to_i32().unwrap() as u32;
-
-        if exp < -126 {
-            frac += 1 << 23;
-            frac *= 16;
-
-            if exp < -127 {
-                frac >>= (-127 - exp).min(31);
-                exp = -127;
-            }
-
-            // it has to choose the closest value
-            if frac % 32 > 15 {
-                frac /= 32;
-                frac += 1;
-            }
-
-            else {
-                frac /= 32;
-            }
-
-            if frac == 0 {
-                return Ok(0.0);
-            }
+        if frac.is_zero() {
+            return Ok(0.0);
         }
 
-        exp += 127;
+        // the leading one, and a carry out of the rounding, are added to the exponent bits
+        let result = (((exp + 126).max(0) as u32) << 23) + frac.to_i32().unwrap() as u32;
 
-        if exp < 0 || exp > 255 {
+        if result >= 255 << 23 {
             return Err(ConversionError::NotInRange { permitted: "1.18e-38~3.4e38".to_string(), error: self.to_scientific_notation(5) });
         }
 
-        let result = ((neg as u32) << 31) | ((exp as u32) << 23) | frac;
+        let result = ((neg as u32) << 31) | result;
         let rp = &result as *const u32 as *const f32;
 
         unsafe { Ok(*rp) }
@@ -189,46 +180,37 @@ impl Ratio {
             exp -= 1;
         }
 
-        let (mut frac, frac_rem) = self_clone.sub_i32(1).mul_bi(&BigInt::from_i64(1 << 52)).truncate_and_frac();
+        // number of bits below the leading one: the smallest representable number is 2^-1074
+        let precision = (exp + 1074).min(52);
+
+        // less than half of the smallest representable number
+        if precision < -1 {
+            return Ok(0.0);
+        }
+
+        let (mut frac, frac_rem) = if precision < 0 {
+            self_clone.div_i32(2)
+        } else {
+            self_clone.mul_bi(&BigInt::pow2(precision as u32))
+        }.truncate_and_frac();
 
         // IEEE754 chooses the closest approximation
         if frac_rem.gt(&Ratio::from_denom_and_numer_i32(2, 1)) {
             frac.add_i32_mut(1);
         }
 
-        let mut frac = frac.to_i64().unwrap() as u64;
-
-        if exp < -1022 {
-            frac += 1 << 52;
-            frac *= 16;
-
-            if exp < -1023 {
-                frac >>= (-1023 - exp).min(63);
-                exp = -1023;
-            }
-
-            // it has to choose the closest value
-            if frac % 32 > 15 {
-                frac /= 32;
-                frac += 1;
-            }
-
-            else {
-                frac /= 32;
-            }
-
-            if frac == 0 {
-                return Ok(0.0);
-            }
+        if frac.is_zero() {
+            return Ok(0.0);
         }
 
-        exp += 1023;
+        // the leading one, and a carry out of the rounding, are added to the exponent bits
+        let result = (((exp + 1022).max(0) as u64) << 52) + frac.to_i64().unwrap() as u64;
 
-        if exp < 0 || exp > 2047 {
+        if result >= 2047 << 52 {
             return Err(ConversionError::NotInRange { permitted: "2.23e-308~1.8e308".to_string(), error: self.to_scientific_notation(5) });
         }
 
-        let result = ((neg as u64) << 63) | ((exp as u64) << 52) | frac;
+        let result = ((neg as u64) << 63) | result;
         let rp = &result as *const u64 as *const f64;
 
         unsafe { Ok(*rp) }
-- 
2.43.0


From 23e9b0aaf12167c67c9dbe3e9ff7885eee097dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:52 +0000
Subject: [PATCH 22/24] fix: UBigInt::sqrt overflowed (endless loop) when the
 two leading limbs are close to 2^64

---
 src/ubigint/funcs.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ubigint/funcs.rs b/src/ubigint/funcs.rs
index c26e0a3..acbd4b5 100644
--- a/src/ubigint/funcs.rs
+++ b/src/ubigint/funcs.rs
@@ -321,7 +321,9 @@ fn sqrt_u64(n: u64) -> u64 {
 
     let d = (1 << (l2 / 2)) * s;
 
-    let mut result = d / (1 << 28);
+    // `result` may exceed 2^32 on the way: its square doesn't always fit in u64
+    let n = n as u128;
+    let mut result = d as u128 / (1 << 28);
 
     // see the comments in `UBigInt::sqrt`
     let mut div = (n.abs_diff(result * result) / (2 * result)).max(1);
@@ -364,7 +366,7 @@ fn sqrt_u64(n: u64) -> u64 {
         if div == 0 {
             #[cfg(test)] assert!(result * result <= n && n <= (result + 1) * (result + 1));
 
-            return result;
+            return result as u64;
         }
     }
 }
-- 
2.43.0


From 182ae6604eab6b808557fa39654472babf7fb496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:30 +0000
Subject: [PATCH 23/24] fix: prime_factorial never ended for numbers whose
 second largest factor exceeds 2^32

---
 src/ubigint/funcs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ubigint/funcs.rs b/src/ubigint/funcs.rs
index acbd4b5..1cc05f2 100644
--- a/src/ubigint/funcs.rs
+++ b/src/ubigint/funcs.rs
@@ -249,7 +249,8 @@ impl UBigInt {
 
         let mut div = 3;
 
-        while self_clone.geq(&UBigInt::from_u64(div as u64 * div as u64)) {
+        // larger divisors don't fit in u32: they're handled by the next loop
+        while div < u32::MAX && self_clone.geq(&UBigInt::from_u64(div as u64 * div as u64)) {
             while self_clone.rem_u32(div).is_zero() {
                 self_clone.div_u32_mut(div);
                 result.push(UBigInt::from_u32(div));
-- 
2.43.0


From 649b945df7513a597fa5e97f588705a98d55fd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:44 +0000
Subject: [PATCH 24/24] fix: accept underscores in rational literals that start
 with zero

get_non_decimal_char took the underscore of 0.0_5 for a base prefix, so the
literal was refused although 1.0_5 is accepted.
---
 src/ratio/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ratio/convert.rs b/src/ratio/convert.rs
index d829f63..426a1a2 100644
--- a/src/ratio/convert.rs
+++ b/src/ratio/convert.rs
@@ -489,7 +489,7 @@ impl Ratio {
 fn get_non_decimal_char(s: &str) -> Option<char> {
     for c in s.chars() {
         match c.to_ascii_lowercase() {
-            '-' | '0' | '.' => { continue; },
+            '-' | '0' | '.' | '_' => { continue; },
             x if x.is_digit(10) => { return None; },
             _ => { return Some(c); },
         }
-- 
2.43.0

