From d8644f1c7e06f4a114459e873a58449be613684a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:45 +0000
Subject: [PATCH 01/16] fix: take magnitudes with unsigned_abs so that iN::MIN
 operands do not overflow

---
 src/bigint/arith/add.rs | 8 ++++----
 src/bigint/arith/div.rs | 4 ++--
 src/bigint/arith/mul.rs | 4 ++--
 src/bigint/arith/rem.rs | 6 +++---
 src/bigint/arith/sub.rs | 8 ++++----
 src/bigint/comp.rs      | 8 ++++----
 src/bigint/convert.rs   | 6 +++---
 src/fp192/arith/div.rs  | 2 +-
 src/fp192/arith/mul.rs  | 2 +-
 src/fp192/convert.rs    | 2 +-
 src/ratio/arith/pow.rs  | 8 ++++----
 11 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/bigint/arith/add.rs b/src/bigint/arith/add.rs
index 12ba334..a31bcc0 100644
--- a/src/bigint/arith/add.rs
+++ b/src/bigint/arith/add.rs
@@ -56,11 +56,11 @@ impl BigInt {
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn add_i32(&self, other: i32) -> Self {
         if self.is_neg() == (other < 0) {
-            BigInt::from_ubi(self.val.add_u32(other.abs() as u32), self.is_neg())
+            BigInt::from_ubi(self.val.add_u32(other.unsigned_abs()), self.is_neg())
         }
 
         else {
-            let other_abs = other.abs() as u32;
+            let other_abs = other.unsigned_abs();
             let self_less = self.val.lt_u32(other_abs);
             let abs_diff = if self_less {
                 UBigInt::from_u32(other_abs - self.val.to_u32().unwrap())
@@ -79,11 +79,11 @@ impl BigInt {
 
     pub fn add_i32_mut(&mut self, other: i32) {
         if self.is_neg() == (other < 0) {
-            self.val.add_u32_mut(other.abs() as u32);
+            self.val.add_u32_mut(other.unsigned_abs());
         }
 
         else {
-            let other_abs = other.abs() as u32;
+            let other_abs = other.unsigned_abs();
             let self_less = self.val.lt_u32(other_abs);
             if self_less {
                 self.val = UBigInt::from_u32(other_abs - self.val.to_u32().unwrap());
diff --git a/src/bigint/arith/div.rs b/src/bigint/arith/div.rs
index ff7b35a..a82a78e 100644
--- a/src/bigint/arith/div.rs
+++ b/src/bigint/arith/div.rs
@@ -22,7 +22,7 @@ impl BigInt {
 
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn div_i32(&self, other: i32) -> Self {
-        let val = self.val.div_u32(other.abs() as u32);
+        let val = self.val.div_u32(other.unsigned_abs());
         let is_neg = !val.is_zero() && self.is_neg() != (other < 0);
 
         let result = BigInt::from_ubi(val, is_neg);
@@ -33,7 +33,7 @@ impl BigInt {
     }
 
     pub fn div_i32_mut(&mut self, other: i32) {
-        self.val.div_u32_mut(other.abs() as u32);
+        self.val.div_u32_mut(other.unsigned_abs());
         self._is_neg = !self.val.is_zero() && self.is_neg() != (other < 0);
         #[cfg(test)] assert!(self.is_valid());
     }
diff --git a/src/bigint/arith/mul.rs b/src/bigint/arith/mul.rs
index 5a3fb94..4e74bb5 100644
--- a/src/bigint/arith/mul.rs
+++ b/src/bigint/arith/mul.rs
@@ -22,7 +22,7 @@ impl BigInt {
 
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn mul_i32(&self, other: i32) -> Self {
-        let val = self.val.mul_u32(other.abs() as u32);
+        let val = self.val.mul_u32(other.unsigned_abs());
         let is_neg = !val.is_zero() && self.is_neg() != (other < 0);
 
         let result = BigInt::from_ubi(val, is_neg);
@@ -33,7 +33,7 @@ impl BigInt {
     }
 
     pub fn mul_i32_mut(&mut self, other: i32) {
-        self.val.mul_u32_mut(other.abs() as u32);
+        self.val.mul_u32_mut(other.unsigned_abs());
         self._is_neg = !self.val.is_zero() && self.is_neg() != (other < 0);
         #[cfg(test)] assert!(self.is_valid());
     }
diff --git a/src/bigint/arith/rem.rs b/src/bigint/arith/rem.rs
index 6dd52f2..49265a1 100644
--- a/src/bigint/arith/rem.rs
+++ b/src/bigint/arith/rem.rs
@@ -26,7 +26,7 @@ impl BigInt {
     // x % y = -(-x % y)
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn rem_i32(&self, other: i32) -> Self {
-        let new_val = self.val.rem_u32(other.abs() as u32);
+        let new_val = self.val.rem_u32(other.unsigned_abs());
         let is_neg = self.is_neg() & !new_val.is_zero();
 
         let result = BigInt::from_ubi(new_val, is_neg);
@@ -37,7 +37,7 @@ impl BigInt {
     }
 
     pub fn rem_i32_mut(&mut self, other: i32) {
-        self.val.rem_u32_mut(other.abs() as u32);
+        self.val.rem_u32_mut(other.unsigned_abs());
         self._is_neg = self.is_neg() & !self.val.is_zero();
         #[cfg(test)] assert!(self.is_valid());
     }
@@ -45,7 +45,7 @@ impl BigInt {
     /// `other` must be a power of 2
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn rem_pow2(&self, other: i32) -> Self {
-        let new_val = self.val.rem_pow2(other.abs() as u32);
+        let new_val = self.val.rem_pow2(other.unsigned_abs());
         let is_neg = self.is_neg() & !new_val.is_zero();
 
         BigInt::from_ubi(new_val, is_neg)
diff --git a/src/bigint/arith/sub.rs b/src/bigint/arith/sub.rs
index db3507f..2ac23c4 100644
--- a/src/bigint/arith/sub.rs
+++ b/src/bigint/arith/sub.rs
@@ -60,11 +60,11 @@ impl BigInt {
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn sub_i32(&self, other: i32) -> Self {
         let result = if self.is_neg() != (other < 0) {
-            BigInt::from_ubi(self.val.add_u32(other.abs() as u32), self.is_neg())
+            BigInt::from_ubi(self.val.add_u32(other.unsigned_abs()), self.is_neg())
         }
 
         else {
-            let other_abs = other.abs() as u32;
+            let other_abs = other.unsigned_abs();
             let self_less = self.val.lt_u32(other_abs);
             let abs_diff = if self_less {
                 UBigInt::from_u32(other_abs - self.val.to_u32().unwrap())
@@ -83,11 +83,11 @@ impl BigInt {
 
     pub fn sub_i32_mut(&mut self, other: i32) {
         if self.is_neg() != (other < 0) {
-            self.val.add_u32_mut(other.abs() as u32);
+            self.val.add_u32_mut(other.unsigned_abs());
         }
 
         else {
-            let other_abs = other.abs() as u32;
+            let other_abs = other.unsigned_abs();
             let self_less = self.val.lt_u32(other_abs);
 
             if self_less {
diff --git a/src/bigint/comp.rs b/src/bigint/comp.rs
index 7da3c53..e6d7005 100644
--- a/src/bigint/comp.rs
+++ b/src/bigint/comp.rs
@@ -102,7 +102,7 @@ impl BigInt {
         }
 
         else {
-            match self.val.comp_u32(other.abs() as u32) {
+            match self.val.comp_u32(other.unsigned_abs()) {
                 Ordering::Equal => false,
 
                 // -3 > -4
@@ -127,7 +127,7 @@ impl BigInt {
         }
 
         else {
-            match self.val.comp_u32(other.abs() as u32) {
+            match self.val.comp_u32(other.unsigned_abs()) {
                 Ordering::Equal => false,
 
                 // -3 > -4
@@ -151,7 +151,7 @@ impl BigInt {
         }
 
         else {
-            self.val.to_u32().unwrap() == other.abs() as u32
+            self.val.to_u32().unwrap() == other.unsigned_abs()
         }
     }
 
@@ -181,7 +181,7 @@ impl BigInt {
         }
 
         else {
-            match self.val.comp_u32(other.abs() as u32) {
+            match self.val.comp_u32(other.unsigned_abs()) {
                 Ordering::Equal => Ordering::Equal,
                 Ordering::Less if self.is_neg() => Ordering::Greater,
                 Ordering::Less => Ordering::Less,
diff --git a/src/bigint/convert.rs b/src/bigint/convert.rs
index abf2702..2cec4d9 100644
--- a/src/bigint/convert.rs
+++ b/src/bigint/convert.rs
@@ -11,7 +11,7 @@ impl BigInt {
         let _is_neg = n < 0;
 
         BigInt {
-            val: UBigInt::from_u32(n.abs() as u32),
+            val: UBigInt::from_u32(n.unsigned_abs()),
             _is_neg,
         }
     }
@@ -33,7 +33,7 @@ impl BigInt {
         let _is_neg = n < 0;
 
         BigInt {
-            val: UBigInt::from_u64(n.abs() as u64),
+            val: UBigInt::from_u64(n.unsigned_abs()),
             _is_neg,
         }
     }
@@ -55,7 +55,7 @@ impl BigInt {
         let _is_neg = n < 0;
 
         BigInt {
-            val: UBigInt::from_u128(n.abs() as u128),
+            val: UBigInt::from_u128(n.unsigned_abs()),
             _is_neg,
         }
     }
diff --git a/src/fp192/arith/div.rs b/src/fp192/arith/div.rs
index 62e8b6b..e19f07b 100644
--- a/src/fp192/arith/div.rs
+++ b/src/fp192/arith/div.rs
@@ -57,7 +57,7 @@ impl F192 {
 
         let mut digits = self.digits | SIGN_MASK;
         let mut exp = self.exp;
-        let a_abs = a.abs() as u128;
+        let a_abs = a.unsigned_abs() as u128;
         let mut rem = digits % a_abs;
 
         digits /= a_abs;
diff --git a/src/fp192/arith/mul.rs b/src/fp192/arith/mul.rs
index 22ee2c8..f072efc 100644
--- a/src/fp192/arith/mul.rs
+++ b/src/fp192/arith/mul.rs
@@ -57,7 +57,7 @@ impl F192 {
 
         let mut digits = self.digits | SIGN_MASK;
         let mut exp = self.exp;
-        let a_abs = a.abs() as u128;
+        let a_abs = a.unsigned_abs() as u128;
         let mut rem = (digits & 0xffff_ffff) * a_abs;
 
         digits >>= 32;
diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index f6e1a82..31d662b 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -24,7 +24,7 @@ impl F192 {
 
     const fn from_i128(n: i128) -> Self {
         if n < 0 {
-            let mut result = F192::from_u128(n.abs() as u128);
+            let mut result = F192::from_u128(n.unsigned_abs());
             result.digits |= SIGN_MASK;
 
             result
diff --git a/src/ratio/arith/pow.rs b/src/ratio/arith/pow.rs
index f49e9e6..c625843 100644
--- a/src/ratio/arith/pow.rs
+++ b/src/ratio/arith/pow.rs
@@ -7,8 +7,8 @@ impl Ratio {
 
         // Safety: if a and b are coprime, a^n and b^n are coprime.
         let mut result = Ratio::from_denom_and_numer_raw(
-            self.denom.pow_u32(exp.abs() as u32),
-            self.numer.pow_u32(exp.abs() as u32),
+            self.denom.pow_u32(exp.unsigned_abs()),
+            self.numer.pow_u32(exp.unsigned_abs()),
         );
 
         if exp < 0 {
@@ -21,8 +21,8 @@ impl Ratio {
     }
 
     pub fn pow_i32_mut(&mut self, exp: i32) {
-        self.denom.pow_u32_mut(exp.abs() as u32);
-        self.numer.pow_u32_mut(exp.abs() as u32);
+        self.denom.pow_u32_mut(exp.unsigned_abs());
+        self.numer.pow_u32_mut(exp.unsigned_abs());
 
         if exp < 0 {
             self.reci_mut();
-- 
2.43.0


From 029b15b6ec341aafac1623a6b604f0100d4d139e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:45 +0000
Subject: [PATCH 02/16] fix: BigInt::eq_i32 answers false instead of panicking
 on values wider than 32 bits

---
 src/bigint/comp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/comp.rs b/src/bigint/comp.rs
index e6d7005..8c93a5b 100644
--- a/src/bigint/comp.rs
+++ b/src/bigint/comp.rs
@@ -151,7 +151,7 @@ impl BigInt {
         }
 
         else {
-            self.val.to_u32().unwrap() == other.unsigned_abs()
+            self.val.eq_u32(other.unsigned_abs())
         }
     }
 
-- 
2.43.0


From 806701e728efc310cf5bfc0d6218226f5844d614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:45 +0000
Subject: [PATCH 03/16] fix: BigInt::to_i128 accepts i128::MIN

---
 src/bigint/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bigint/convert.rs b/src/bigint/convert.rs
index 2cec4d9..42b5aaf 100644
--- a/src/bigint/convert.rs
+++ b/src/bigint/convert.rs
@@ -64,8 +64,8 @@ impl BigInt {
         match self.val.to_u128() {
             Ok(n) => if !self.is_neg() && n <= i128::MAX as u128 {
                 Ok(n as i128)
-            } else if self.is_neg() && n < (1 << 127) {
-                Ok(-(n as i128))
+            } else if self.is_neg() && n <= (1 << 127) {
+                Ok((n as i128).wrapping_neg())  // i128::MIN.abs() > i128::MAX.abs()
             } else {
                 Err(ConversionError::NotInRange { permitted: "-1.7e38~1.7e38".to_string(), error: self.to_scientific_notation(5) })
             },
-- 
2.43.0


From 4dab80a5438457b78557d46dfbc640a45168180d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:06 +0000
Subject: [PATCH 04/16] fix: UBigInt to usize goes through u64, not u32

---
 src/ubigint/convert/into.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ubigint/convert/into.rs b/src/ubigint/convert/into.rs
index 4392a13..a2c4176 100644
--- a/src/ubigint/convert/into.rs
+++ b/src/ubigint/convert/into.rs
@@ -54,7 +54,7 @@ impl_trivial_try_from!(&UBigInt, u32, to_u32);
 impl_trivial_try_from!(&UBigInt, u64, to_u64);
 impl_trivial_try_from!(&UBigInt, u128, to_u128);
 
-impl_trivial_try_from!(Fallible, &UBigInt, usize, to_u32);
+impl_trivial_try_from!(Fallible, &UBigInt, usize, to_u64);
 impl_trivial_try_from!(Fallible, &UBigInt, i8, to_u32);
 impl_trivial_try_from!(Fallible, &UBigInt, i16, to_u32);
 impl_trivial_try_from!(Fallible, &UBigInt, i32, to_u32);
-- 
2.43.0


From 30dcd0d62ef401c0ace1d8263f1855c5c0a39b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:06 +0000
Subject: [PATCH 05/16] fix: UBigInt::pow_u32 no longer overflows its loop
 counter for exponents >= 2^31

---
 src/ubigint/arith/pow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ubigint/arith/pow.rs b/src/ubigint/arith/pow.rs
index cc12a38..5a00113 100644
--- a/src/ubigint/arith/pow.rs
+++ b/src/ubigint/arith/pow.rs
@@ -25,7 +25,7 @@ impl UBigInt {
         let mut curr_exp = 1;
         powers.push(self.clone());
 
-        while curr_exp * 2 <= exp {
+        while curr_exp <= exp / 2 {
             powers.push(powers[powers.len() - 1].mul(&powers[powers.len() - 1]));
             curr_exp *= 2;
         }
-- 
2.43.0


From c88c6978385f49ef4223fa7908d797bf0e45d591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:06 +0000
Subject: [PATCH 06/16] fix: UBigInt::rem_u32_mut computes in 64 bits like
 rem_u32

---
 src/ubigint/arith/rem.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/ubigint/arith/rem.rs b/src/ubigint/arith/rem.rs
index d12c44d..93f7f78 100644
--- a/src/ubigint/arith/rem.rs
+++ b/src/ubigint/arith/rem.rs
@@ -45,17 +45,8 @@ impl UBigInt {
     }
 
     pub fn rem_u32_mut(&mut self, other: u32) {
-        let unit = ((1 << 32) % other as u64) as u32;
-        let mut curr_power = 1;
-        let mut result = 0;
-
-        for d in self.0.iter() {
-            result += (d % other) * curr_power % other;
-            curr_power *= unit;
-            curr_power %= other;
-        }
-
-        *self = UBigInt::from_u32(result % other);
+        let result = self.rem_u32(other);
+        *self = result;
 
         #[cfg(test)] {
             let mut t = self.rem(&UBigInt::from_u32(other as u32));
-- 
2.43.0


From e1b308c74f9413c3c21cd741010396b32226c35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:06 +0000
Subject: [PATCH 07/16] fix: a Ratio with a zero denominator is rejected
 instead of being built

---
 src/ratio.rs         | 4 ++++
 src/ratio/convert.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/ratio.rs b/src/ratio.rs
index 4d68c42..5b39596 100644
--- a/src/ratio.rs
+++ b/src/ratio.rs
@@ -82,6 +82,10 @@ impl Ratio {
 
     // TODO: better name
     fn fit(&mut self) {
+        if self.denom.is_zero() {
+            panic!("Attempt to divide by zero: {:?} / {:?}", self.numer, self.denom);
+        }
+
         if self.denom.is_neg() {
             self.denom.neg_mut();
             self.numer.neg_mut();
diff --git a/src/ratio/convert.rs b/src/ratio/convert.rs
index f0ca69c..87179f9 100644
--- a/src/ratio/convert.rs
+++ b/src/ratio/convert.rs
@@ -20,6 +20,10 @@ impl Ratio {
 
     /// optimized version of `Ratio::From<(D, N)>` and `Ratio::from_denom_and_numer`
     pub fn from_denom_and_numer_i32(mut denom: i32, mut numer: i32) -> Self {
+        if denom == 0 {
+            panic!("Attempt to divide by zero: {numer} / {denom}");
+        }
+
         let r = gcd_i32(denom, numer);
 
         if r != 1 {
-- 
2.43.0


From 097f20f0ba98ce593b799faedf193e9ee8f8fa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:06 +0000
Subject: [PATCH 08/16] fix: Ratio::from_denom_and_numer_i32 accepts i32::MIN

---
 src/ratio/convert.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ratio/convert.rs b/src/ratio/convert.rs
index 87179f9..87ebb45 100644
--- a/src/ratio/convert.rs
+++ b/src/ratio/convert.rs
@@ -24,6 +24,11 @@ impl Ratio {
             panic!("Attempt to divide by zero: {numer} / {denom}");
         }
 
+        // the magnitude of `i32::MIN` does not fit in `i32`
+        if denom == i32::MIN || numer == i32::MIN {
+            return Ratio::from_denom_and_numer(BigInt::from_i32(denom), BigInt::from_i32(numer));
+        }
+
         let r = gcd_i32(denom, numer);
 
         if r != 1 {
-- 
2.43.0


From dbafd0d366f6facb3e87174c510f59aeaccc2a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:57 +0000
Subject: [PATCH 09/16] fix: the inverse of a 1 by 1 matrix is its reciprocal,
 not one times itself

---
 src/matrix/inv.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/matrix/inv.rs b/src/matrix/inv.rs
index 4cbd3a3..0508237 100644
--- a/src/matrix/inv.rs
+++ b/src/matrix/inv.rs
@@ -22,7 +22,8 @@ impl Matrix {
 
         if n < 5 {
             if n < 2 {
-                self.clone()
+                // the adjugate of any 1 by 1 matrix is [1]
+                Matrix::identity(n)
             } else if n == 2 {
                 Matrix::from_raw(
                     vec![
-- 
2.43.0


From dae577e9f192077d52d1e92e83c9ec70e7453774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:57 +0000
Subject: [PATCH 10/16] fix: Polynomial::from_vec_generic drops leading zeros
 like from_vec

---
 src/poly.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/poly.rs b/src/poly.rs
index aa5fff8..00d887c 100644
--- a/src/poly.rs
+++ b/src/poly.rs
@@ -33,9 +33,7 @@ impl Polynomial {
     }
 
     pub fn from_vec_generic<T: Into<Ratio>>(coeffs: Vec<T>) -> Self {
-        if coeffs.is_empty() { return Polynomial::from_vec(vec![]); }
-
-        Polynomial { coeffs: coeffs.into_iter().map(|n| n.into()).collect() }
+        Polynomial::from_vec(coeffs.into_iter().map(|n| n.into()).collect())
     }
 
     pub fn to_vec(&self) -> &Vec<Ratio> {
-- 
2.43.0


From cb9f1ad607bd9389da883dc34912f53a8f795bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:05 +0000
Subject: [PATCH 11/16] fix: F192::mul_i32 overflows when the carry of the low
 half rounds the digits up to 2^128

---
 src/fp192/arith/mul.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fp192/arith/mul.rs b/src/fp192/arith/mul.rs
index f072efc..71f3ae7 100644
--- a/src/fp192/arith/mul.rs
+++ b/src/fp192/arith/mul.rs
@@ -71,7 +71,14 @@ impl F192 {
         }
 
         rem >>= 32;
-        digits += rem;
+
+        digits = match digits.checked_add(rem) {
+            Some(digits) => digits,
+            None => {
+                exp += 1;
+                digits / 2 + rem / 2 + (digits % 2 + rem % 2) / 2
+            },
+        };
 
         F192 {
             digits: digits & !SIGN_MASK | (((self.is_neg() != (a < 0)) as u128) << 127),
-- 
2.43.0


From fed8e3071e88b59593ccff5245e2692982c22313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:05 +0000
Subject: [PATCH 12/16] fix: a Ratio that rounds up to a power of 2 becomes a
 negative F192

---
 src/fp192/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index 31d662b..946d4b9 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -302,7 +302,7 @@ impl From<&Ratio> for F192 {
         let mut digits: u128 = n_abs.truncate_bi().try_into().unwrap();
 
         if n_abs_rem > 15 {
-            if digits != u128::MAX {
+            if digits != !SIGN_MASK {
                 digits += 1;
             }
 
-- 
2.43.0


From 95f1cd8895b43b350ba72d3a4cf3ae2e14e15b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:05 +0000
Subject: [PATCH 13/16] fix: converting an F192 less than 1 to an integer
 overflows the shift

---
 src/fp192/convert.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index 946d4b9..8eb5f66 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -45,8 +45,14 @@ impl F192 {
         }
 
         let digits = self.digits | SIGN_MASK;
+        let shift = EXP_COEFF - self.exp;
 
-        Ok(digits >> (EXP_COEFF - self.exp))
+        // the absolute value is less than 1
+        if shift > 127 {
+            return Ok(0);
+        }
+
+        Ok(digits >> shift)
     }
 
     fn to_i128(&self) -> Result<i128, ()> {
-- 
2.43.0


From d443f3fb30cff77bb8559897ca178fbf584295ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:05 +0000
Subject: [PATCH 14/16] fix: i128::MIN cannot be converted from an F192

---
 src/fp192/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index 8eb5f66..e865ab9 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -59,8 +59,8 @@ impl F192 {
         if self.is_neg() {
             let n = self.neg().to_u128()?;
 
-            if n < (1 << 127) {
-                Ok(-(n as i128))
+            if n <= SIGN_MASK {
+                Ok((n as i128).wrapping_neg())
             }
 
             else {
-- 
2.43.0


From 07b28a8fe0b2b85c7a06f702fe2e7fb875e48b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:27 +0000
Subject: [PATCH 15/16] fix: F192 to f32/f64 turns numbers just out of the
 normal range into NaN or denormals of another value

---
 src/fp192/convert.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index e865ab9..5fb5330 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -196,9 +196,9 @@ impl From<F192> for f32 {
             }
         }
 
-        if exp < 0 {
+        if exp < 1 {
             0.0
-        } else if exp > 255 {
+        } else if exp > 254 {
             if n.is_neg() {
                 f32::NEG_INFINITY
             } else {
@@ -230,9 +230,9 @@ impl From<F192> for f64 {
             }
         }
 
-        if exp < 0 {
+        if exp < 1 {
             0.0
-        } else if exp > 2047 {
+        } else if exp > 2046 {
             if n.is_neg() {
                 f64::NEG_INFINITY
             } else {
-- 
2.43.0


From ba12d2f04d6c17a0e35ff6836db4f8a88b355143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:28 +0000
Subject: [PATCH 16/16] fix: Ratio to f32/f64 loses the carry of its rounding
 and returns NaN just above the largest number

---
 src/ratio/convert/ieee754.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ratio/convert/ieee754.rs b/src/ratio/convert/ieee754.rs
index 4834ecb..36402e3 100644
--- a/src/ratio/convert/ieee754.rs
+++ b/src/ratio/convert/ieee754.rs
@@ -82,6 +82,12 @@ impl Ratio {
 
         let mut frac = frac.to_i32().unwrap() as u32;
 
+        // it's rounded up to the next power of 2
+        if frac == 1 << 23 {
+            frac = 0;
+            exp += 1;
+        }
+
         if exp < -126 {
             frac += 1 << 23;
             frac *= 16;
@@ -108,7 +114,7 @@ impl Ratio {
 
         exp += 127;
 
-        if exp < 0 || exp > 255 {
+        if exp < 0 || exp > 254 {
             return Err(ConversionError::NotInRange { permitted: "1.18e-38~3.4e38".to_string(), error: self.to_scientific_notation(5) });
         }
 
@@ -198,6 +204,12 @@ impl Ratio {
 
         let mut frac = frac.to_i64().unwrap() as u64;
 
+        // it's rounded up to the next power of 2
+        if frac == 1 << 52 {
+            frac = 0;
+            exp += 1;
+        }
+
         if exp < -1022 {
             frac += 1 << 52;
             frac *= 16;
@@ -224,7 +236,7 @@ impl Ratio {
 
         exp += 1023;
 
-        if exp < 0 || exp > 2047 {
+        if exp < 0 || exp > 2046 {
             return Err(ConversionError::NotInRange { permitted: "2.23e-308~1.8e308".to_string(), error: self.to_scientific_notation(5) });
         }
 
-- 
2.43.0

