From 5706680b42e80166e6a27bdd4ab321bd768473cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 01/41] hook: expose the arena manager to external monitors
 under cfg(nanvm_verif)

---
 nanvm-lib/src/lib.rs       |  1 +
 nanvm-lib/src/mem/arena.rs | 14 ++++++++++++++
 nanvm-lib/src/mem/mod.rs   |  3 +++
 3 files changed, 18 insertions(+)

diff --git a/nanvm-lib/src/lib.rs b/nanvm-lib/src/lib.rs
index 273f790..1cc9ca0 100644
--- a/nanvm-lib/src/lib.rs
+++ b/nanvm-lib/src/lib.rs
@@ -1,4 +1,5 @@
 #![allow(dead_code)]
+#![allow(unexpected_cfgs)]
 #![allow(clippy::assertions_on_constants)]
 #![allow(clippy::missing_safety_doc)]
 pub mod app;
diff --git a/nanvm-lib/src/mem/arena.rs b/nanvm-lib/src/mem/arena.rs
index f2554e4..b9f3e85 100644
--- a/nanvm-lib/src/mem/arena.rs
+++ b/nanvm-lib/src/mem/arena.rs
@@ -58,6 +58,20 @@ impl Manager for &Arena<'_> {
     }
 }
 
+/// Gives an external monitor access to an arena (only with `--cfg nanvm_verif`).
+#[cfg(nanvm_verif)]
+pub mod hook {
+    use super::{Arena, Manager};
+
+    pub trait ArenaVisitor {
+        fn visit<M: Manager>(self, manager: M);
+    }
+
+    pub fn with_arena(buffer: &mut [u8], visitor: impl ArenaVisitor) {
+        visitor.visit(&Arena::new(buffer));
+    }
+}
+
 #[cfg(test)]
 mod test {
     use wasm_bindgen_test::wasm_bindgen_test;
diff --git a/nanvm-lib/src/mem/mod.rs b/nanvm-lib/src/mem/mod.rs
index 43636f2..cfa7e59 100644
--- a/nanvm-lib/src/mem/mod.rs
+++ b/nanvm-lib/src/mem/mod.rs
@@ -15,6 +15,9 @@ pub mod optional_ref;
 pub mod ref_;
 mod ref_counter_update;
 
+#[cfg(nanvm_verif)]
+pub use arena::hook as arena_hook;
+
 #[cfg(test)]
 mod test {
     use std::mem::{align_of, size_of};
-- 
2.43.0


From a4c1340c8ab3ebf67c61309fbd0d7c523b467eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 02/41] fix: dropping the last generic reference to a bigint
 panicked

---
 nanvm-lib/src/js/any_internal.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nanvm-lib/src/js/any_internal.rs b/nanvm-lib/src/js/any_internal.rs
index dfc1ace..44b553d 100644
--- a/nanvm-lib/src/js/any_internal.rs
+++ b/nanvm-lib/src/js/any_internal.rs
@@ -13,6 +13,7 @@ use crate::{
 use super::{
     bitset::{ref_type, REF, REF_SUBSET_SUPERPOSITION},
     js_array::JsArray,
+    js_bigint::JsBigint,
     js_object::JsObject,
     js_string::JsString,
 };
@@ -71,6 +72,7 @@ impl<D: Dealloc> OptionalBlock for AnyInternal<D> {
             bitset::REF_TYPE_STRING => p.block::<JsString, D>().delete(),
             bitset::REF_TYPE_OBJECT => p.block::<JsObject<D>, D>().delete(),
             bitset::REF_TYPE_ARRAY => p.block::<JsArray<D>, D>().delete(),
+            bitset::REF_TYPE_BIGINT => p.block::<JsBigint, D>().delete(),
             _ => unreachable!(),
         }
     }
-- 
2.43.0


From 5928b50614de7a4951c13a29f034d5b7e57464a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 03/41] fix: NaN payloads were taken for values of other types

---
 nanvm-lib/src/js/number.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/js/number.rs b/nanvm-lib/src/js/number.rs
index 114a2c9..beb4703 100644
--- a/nanvm-lib/src/js/number.rs
+++ b/nanvm-lib/src/js/number.rs
@@ -9,7 +9,12 @@ impl<D: Dealloc> AnyCast<D> for f64 {
     }
     #[inline(always)]
     unsafe fn move_to_any_internal(self) -> u64 {
-        self.to_bits()
+        // Other NaN bit patterns overlap with the encodings of the other types.
+        if self.is_nan() {
+            f64::NAN.to_bits()
+        } else {
+            self.to_bits()
+        }
     }
     #[inline(always)]
     unsafe fn from_any_internal(u: u64) -> Self {
-- 
2.43.0


From f5a0ba09b8aa4cc61ccf14516eb192c01842b689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 04/41] fix: order of negative bigints of the same length was
 reversed

---
 nanvm-lib/src/js/js_bigint.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index 8d86358..9c5972c 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -129,7 +129,10 @@ pub fn is_zero(value: &JsBigint) -> bool {
 impl JsBigint {
     pub fn compare(&self, other: &Self) -> Ordering {
         match self.header_len().cmp(&other.header_len()) {
-            Ordering::Equal => cmp_vec(self.items(), other.items()),
+            Ordering::Equal => match self.sign() {
+                Sign::Positive => cmp_vec(self.items(), other.items()),
+                Sign::Negative => cmp_vec(other.items(), self.items()),
+            },
             Ordering::Less => Ordering::Less,
             Ordering::Greater => Ordering::Greater,
         }
-- 
2.43.0


From f7cca0dc31daec530001ccdafa3a1c7358273953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:12 +0000
Subject: [PATCH 05/41] fix: bigint division with a multi-word divisor gave
 wrong digits

---
 nanvm-lib/src/js/js_bigint.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index 9c5972c..1b45cb4 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -237,25 +237,25 @@ pub fn div_mod<M: Manager>(
                 let b_high_digit = b.len() - 1;
                 let a_high = a[a_high_digit];
                 let b_high = b[b_high_digit];
-                let (q_index, q_digit) = match b_high.cmp(&a_high) {
-                    Ordering::Less | Ordering::Equal => {
-                        (a_high_digit - b_high_digit, a_high / b_high)
-                    }
-                    Ordering::Greater => {
-                        let a_high_2 = ((a_high as u128) << 64) + a[a_high_digit - 1] as u128;
-                        (
-                            a_high_digit - b_high_digit - 1,
-                            (a_high_2 / b_high as u128) as u64,
-                        )
-                    }
+                // The lower digits of `b` are rounded up, so the estimate is never too big.
+                let b_high_up = b_high as u128 + (b_high_digit > 0) as u128;
+                let (q_index, q_digit) = if a_high as u128 >= b_high_up {
+                    (
+                        a_high_digit - b_high_digit,
+                        (a_high as u128 / b_high_up) as u64,
+                    )
+                } else if a_high_digit == b_high_digit {
+                    (0, 1)
+                } else {
+                    let a_high_2 = ((a_high as u128) << 64) + a[a_high_digit - 1] as u128;
+                    (
+                        a_high_digit - b_high_digit - 1,
+                        (a_high_2 / b_high_up) as u64,
+                    )
                 };
                 let mut q = new_resize(q_index + 1);
                 q[q_index] = q_digit;
-                let mut m = mul_vec(b, &q);
-                if a.cmp(&m) == Ordering::Less {
-                    q[q_index] = q_digit - 1;
-                    m = mul_vec(b, &q);
-                }
+                let m = mul_vec(b, &q);
                 a = sub_vec(&a, &m);
                 a = normalize_vec(a);
                 result = add_vec(&result, &q);
-- 
2.43.0


From 165b6c63e4fda4a5a655e33a67eaed5d44f221f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 06/41] fix: odd powers of the bigint -1 were 1

---
 nanvm-lib/src/js/js_bigint.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index 1b45cb4..aa1c50a 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -270,7 +270,11 @@ pub fn pow<M: Manager>(m: M, lhs: &JsBigint, rhs: &JsBigint) -> JsBigintMutRef<M
     }
 
     if lhs.items().len() == 1 && lhs.items()[0] == 1 {
-        return from_u64(m, Sign::Positive, 1);
+        let sign = match rhs.get_last_bit() {
+            0 => Sign::Positive,
+            _ => lhs.sign(),
+        };
+        return from_u64(m, sign, 1);
     }
 
     if is_zero(lhs) {
-- 
2.43.0


From db4d31af708a43590de94037d5bf99cb250e3333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 07/41] fix: bigint right shift lost bits carried between words

---
 nanvm-lib/src/js/js_bigint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index aa1c50a..db7e8cb 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -590,7 +590,7 @@ pub fn shr_on_u64<M: Manager>(m: M, lhs: &JsBigint, rhs: u64) -> JsBigintMutRef<
     let shift_mod = rhs & ((1 << 6) - 1);
     if shift_mod > 0 {
         let len = vec.len();
-        let mask = 1 << (shift_mod - 1);
+        let mask = (1 << shift_mod) - 1;
         let mut i = 0;
         loop {
             vec[i] >>= shift_mod;
-- 
2.43.0


From 4d4292709796c2f2f3f13740a4201b82092131b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 08/41] fix: right shift of a negative bigint did not round
 down

---
 nanvm-lib/src/js/js_bigint.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index db7e8cb..be5a867 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -588,6 +588,8 @@ pub fn shr_on_u64<M: Manager>(m: M, lhs: &JsBigint, rhs: u64) -> JsBigintMutRef<
     let mut vec = lhs.items().to_vec();
     vec = vec.split_off(number_to_remove);
     let shift_mod = rhs & ((1 << 6) - 1);
+    let is_exact = lhs.items()[..number_to_remove].iter().all(|&d| d == 0)
+        && vec[0] & ((1 << shift_mod) - 1) == 0;
     if shift_mod > 0 {
         let len = vec.len();
         let mask = (1 << shift_mod) - 1;
@@ -603,8 +605,8 @@ pub fn shr_on_u64<M: Manager>(m: M, lhs: &JsBigint, rhs: u64) -> JsBigintMutRef<
     }
 
     vec = normalize_vec(vec);
-    if vec.is_empty() && lhs.sign() == Sign::Negative {
-        return from_u64(m, Sign::Negative, 1);
+    if !is_exact && lhs.sign() == Sign::Negative {
+        vec = add_vec(&vec, &[1]);
     }
     new_bigint(m, lhs.sign(), vec)
 }
-- 
2.43.0


From 3505bfcf00c908a65c9b99f097c893988b41fbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 09/41] fix: negative results of bigint and/or/xor lost high
 words

---
 nanvm-lib/src/js/js_bigint.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index be5a867..6b4f508 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -407,17 +407,13 @@ fn to_twos_complement(value: &JsBigint) -> TwosComplement {
 
 fn from_twos_complement<M: Manager>(m: M, value: TwosComplement) -> JsBigintMutRef<M::Dealloc> {
     match value.sign {
-        Sign::Positive => new_bigint(m, Sign::Positive, value.vec),
+        Sign::Positive => new_bigint(m, Sign::Positive, normalize_vec(value.vec)),
         Sign::Negative => {
-            let sub = sub_vec(&value.vec, &[1]);
             let mut res: Vec<u64> = default();
-            for d in sub {
+            for d in value.vec {
                 res.push(!d);
             }
-            res = normalize_vec(res);
-            if res.is_empty() {
-                return from_u64(m, Sign::Negative, 1);
-            }
+            res = add_vec(&normalize_vec(res), &[1]);
             new_bigint(m, Sign::Negative, res)
         }
     }
@@ -432,7 +428,6 @@ fn and_twos_complement(lhs: TwosComplement, rhs: TwosComplement) -> TwosCompleme
     for (a, b) in twos_complement_zip(&lhs, &rhs) {
         vec.push(a & b);
     }
-    vec = normalize_vec(vec);
     TwosComplement { sign, vec }
 }
 
@@ -445,7 +440,6 @@ fn or_twos_complement(lhs: TwosComplement, rhs: TwosComplement) -> TwosComplemen
     for (a, b) in twos_complement_zip(&lhs, &rhs) {
         vec.push(a | b);
     }
-    vec = normalize_vec(vec);
     TwosComplement { sign, vec }
 }
 
@@ -458,7 +452,6 @@ fn xor_twos_complement(lhs: TwosComplement, rhs: TwosComplement) -> TwosCompleme
     for (a, b) in twos_complement_zip(&lhs, &rhs) {
         vec.push(a ^ b);
     }
-    vec = normalize_vec(vec);
     TwosComplement { sign, vec }
 }
 
-- 
2.43.0


From 7583a3660ac79e3d8bf6f945df80eb907fd47595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 10/41] fix: BigUint division with a multi-word divisor gave
 wrong digits

---
 nanvm-lib/src/big_numbers/big_uint.rs | 33 +++++++++++++--------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_uint.rs b/nanvm-lib/src/big_numbers/big_uint.rs
index a474620..700d059 100644
--- a/nanvm-lib/src/big_numbers/big_uint.rs
+++ b/nanvm-lib/src/big_numbers/big_uint.rs
@@ -118,28 +118,27 @@ impl BigUint {
                     let b_high_digit = b.len() - 1;
                     let a_high = a.value[a_high_digit];
                     let b_high = b.value[b_high_digit];
-                    let (q_index, q_digit) = match b_high.cmp(&a_high) {
-                        Ordering::Less | Ordering::Equal => {
-                            (a_high_digit - b_high_digit, a_high / b_high)
-                        }
-                        Ordering::Greater => {
-                            let a_high_2 =
-                                ((a_high as u128) << 64) + a.value[a_high_digit - 1] as u128;
-                            (
-                                a_high_digit - b_high_digit - 1,
-                                (a_high_2 / b_high as u128) as u64,
-                            )
-                        }
+                    // The lower digits of `b` are rounded up, so the estimate is never too big.
+                    let b_high_up = b_high as u128 + (b_high_digit > 0) as u128;
+                    let (q_index, q_digit) = if a_high as u128 >= b_high_up {
+                        (
+                            a_high_digit - b_high_digit,
+                            (a_high as u128 / b_high_up) as u64,
+                        )
+                    } else if a_high_digit == b_high_digit {
+                        (0, 1)
+                    } else {
+                        let a_high_2 = ((a_high as u128) << 64) + a.value[a_high_digit - 1] as u128;
+                        (
+                            a_high_digit - b_high_digit - 1,
+                            (a_high_2 / b_high_up) as u64,
+                        )
                     };
                     let mut q = BigUint {
                         value: new_resize(q_index + 1),
                     };
                     q.value[q_index] = q_digit;
-                    let mut m = b * &q;
-                    if a.cmp(&m) == Ordering::Less {
-                        q.value[q_index] = q_digit - 1;
-                        m = b * &q;
-                    }
+                    let m = b * &q;
                     a = &a - &m;
                     result = &result + &q;
                 }
-- 
2.43.0


From 33c92ed72e3cf7a96cb8276fb9dceadf4ba5b530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:43 +0000
Subject: [PATCH 11/41] fix: BigUint right shift lost bits carried between
 words and high words of the count

---
 nanvm-lib/src/big_numbers/big_uint.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_uint.rs b/nanvm-lib/src/big_numbers/big_uint.rs
index 700d059..579973e 100644
--- a/nanvm-lib/src/big_numbers/big_uint.rs
+++ b/nanvm-lib/src/big_numbers/big_uint.rs
@@ -323,7 +323,7 @@ impl Shr for &BigUint {
         }
 
         let number_to_remove = (rhs.value[0] / 64) as usize;
-        if number_to_remove >= self.len() {
+        if rhs.len() > 1 || number_to_remove >= self.len() {
             return BigUint::ZERO;
         }
 
@@ -332,7 +332,7 @@ impl Shr for &BigUint {
         let shift_mod = rhs.value[0] & ((1 << 6) - 1);
         if shift_mod > 0 {
             let len = value.len();
-            let mask = 1 << (shift_mod - 1);
+            let mask = (1 << shift_mod) - 1;
             let mut i = 0;
             loop {
                 value[i] >>= shift_mod;
-- 
2.43.0


From b61b43827cfdd5ceb23e662b31385e7b048baa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:55 +0000
Subject: [PATCH 12/41] fix: zero and i64::MIN were converted to malformed big
 numbers

---
 nanvm-lib/src/big_numbers/big_int.rs  | 8 ++------
 nanvm-lib/src/big_numbers/big_uint.rs | 4 +++-
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_int.rs b/nanvm-lib/src/big_numbers/big_int.rs
index 78ee4be..ac6f29e 100644
--- a/nanvm-lib/src/big_numbers/big_int.rs
+++ b/nanvm-lib/src/big_numbers/big_int.rs
@@ -3,8 +3,6 @@ use std::{
     ops::{Add, Div, Mul, Neg, Sub},
 };
 
-use crate::common::cast::Cast;
-
 use super::big_uint::BigUint;
 
 #[derive(Debug, PartialEq, Clone, Eq, Default)]
@@ -49,7 +47,7 @@ impl BigInt {
     pub fn from_u64(n: u64) -> Self {
         BigInt {
             sign: Sign::Positive,
-            value: BigUint { value: [n].cast() },
+            value: BigUint::from_u64(n),
         }
     }
 
@@ -71,9 +69,7 @@ impl BigInt {
         };
         BigInt {
             sign,
-            value: BigUint {
-                value: [(n * sign as i64) as u64].cast(),
-            },
+            value: BigUint::from_u64(n.unsigned_abs()),
         }
     }
 
diff --git a/nanvm-lib/src/big_numbers/big_uint.rs b/nanvm-lib/src/big_numbers/big_uint.rs
index 579973e..84fa8ca 100644
--- a/nanvm-lib/src/big_numbers/big_uint.rs
+++ b/nanvm-lib/src/big_numbers/big_uint.rs
@@ -45,7 +45,9 @@ impl BigUint {
     }
 
     pub fn from_u64(n: u64) -> Self {
-        BigUint { value: [n].cast() }
+        let mut result = BigUint { value: [n].cast() };
+        result.normalize();
+        result
     }
 
     pub fn pow(&self, exp: &BigUint) -> BigUint {
-- 
2.43.0


From 26bac09f6dbc8fb2a19b7705c496df07c801108a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 13/41] fix: BigInt division gave negative zeros and remainders
 with the sign of the quotient

---
 nanvm-lib/src/big_numbers/big_int.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_int.rs b/nanvm-lib/src/big_numbers/big_int.rs
index ac6f29e..47b671a 100644
--- a/nanvm-lib/src/big_numbers/big_int.rs
+++ b/nanvm-lib/src/big_numbers/big_int.rs
@@ -84,7 +84,14 @@ impl BigInt {
         };
 
         let (q, r) = self.value.div_mod(&d.value);
-        (BigInt { sign, value: q }, BigInt { sign, value: r })
+        let mut q = BigInt { sign, value: q };
+        q.normalize();
+        let mut r = BigInt {
+            sign: self.sign,
+            value: r,
+        };
+        r.normalize();
+        (q, r)
     }
 }
 
@@ -196,7 +203,9 @@ impl Div for &BigInt {
         };
 
         let value = &self.value / &d.value;
-        BigInt { sign, value }
+        let mut result = BigInt { sign, value };
+        result.normalize();
+        result
     }
 }
 
-- 
2.43.0


From 0a220f9c0ccde50199739592194dca98059f2aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 14/41] fix: order of negative BigInts was reversed

---
 nanvm-lib/src/big_numbers/big_int.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/big_numbers/big_int.rs b/nanvm-lib/src/big_numbers/big_int.rs
index 47b671a..be7196c 100644
--- a/nanvm-lib/src/big_numbers/big_int.rs
+++ b/nanvm-lib/src/big_numbers/big_int.rs
@@ -167,7 +167,10 @@ impl Ord for BigInt {
             return self.sign.cmp(&other.sign);
         }
 
-        self.value.cmp(&other.value)
+        match self.sign {
+            Sign::Positive => self.value.cmp(&other.value),
+            Sign::Negative => other.value.cmp(&self.value),
+        }
     }
 }
 
-- 
2.43.0


From 37f96049b9087657e14c5a8cb72548a22165b20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:27 +0000
Subject: [PATCH 15/41] fix: negative zero literals lost their sign

---
 nanvm-lib/src/big_numbers/big_float.rs |  5 ++++-
 nanvm-lib/src/tokenizer/mod.rs         | 13 ++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_float.rs b/nanvm-lib/src/big_numbers/big_float.rs
index 77e01ad..68bedde 100644
--- a/nanvm-lib/src/big_numbers/big_float.rs
+++ b/nanvm-lib/src/big_numbers/big_float.rs
@@ -83,7 +83,10 @@ impl<const BASE: u32, M: Manager> BigFloat<BASE, M> {
 impl<M: Manager> BigFloat<10, M> {
     pub fn to_bin(self, precision: u8) -> BigFloat<2, M> {
         if is_zero(self.significand.deref()) {
-            return float_zero(self.manager);
+            return BigFloat {
+                sign: self.sign,
+                ..float_zero(self.manager)
+            };
         }
 
         if self.exp == 0 {
diff --git a/nanvm-lib/src/tokenizer/mod.rs b/nanvm-lib/src/tokenizer/mod.rs
index 97ade5c..23af787 100644
--- a/nanvm-lib/src/tokenizer/mod.rs
+++ b/nanvm-lib/src/tokenizer/mod.rs
@@ -158,7 +158,7 @@ impl<D: Dealloc + 'static> TokenizerState<D> {
             | TokenizerState::ParseMultilineCommentAsterix => {
                 [JsonToken::ErrorToken(ErrorType::CommentClosingExpected)].cast()
             }
-            TokenizerState::ParseZero(_) => [JsonToken::Number(default())].cast(),
+            TokenizerState::ParseZero(s) => [zero_to_number_token(s)].cast(),
             TokenizerState::ParseInt(s) => [int_state_into_number_token(manager, s)].cast(),
             TokenizerState::ParseFrac(s) => [float_state_into_token(manager, s)].cast(),
             TokenizerState::ParseExp(s) => [exp_state_into_token(manager, s)].cast(),
@@ -258,6 +258,13 @@ impl<D: Dealloc> IntState<D> {
     }
 }
 
+const fn zero_to_number_token<D: Dealloc>(s: Sign) -> JsonToken<D> {
+    JsonToken::Number(match s {
+        Sign::Positive => 0.0,
+        Sign::Negative => -0.0,
+    })
+}
+
 fn int_state_into_number_token<M: Manager>(
     manager: M,
     state: IntState<M::Dealloc>,
@@ -694,10 +701,10 @@ fn create_zero_transactions<M: Manager + 'static>() -> TransitionMap<Sign, M> {
                         )
                     }) as Func<M>,
                 ),
-                create_range_map(terminal_for_number(), |manager, _, c, maps| {
+                create_range_map(terminal_for_number(), |manager, s, c, maps| {
                     transfer_state(
                         manager,
-                        [JsonToken::Number(default())].cast(),
+                        [zero_to_number_token(s)].cast(),
                         TokenizerState::Initial,
                         c,
                         maps,
-- 
2.43.0


From 465f78931373c65b7579de07d9f7254a6f9a0e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:30 +0000
Subject: [PATCH 16/41] fix: numbers between half of the smallest double and it
 were read as zero

---
 nanvm-lib/src/big_numbers/big_float.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/big_numbers/big_float.rs b/nanvm-lib/src/big_numbers/big_float.rs
index 68bedde..45261b3 100644
--- a/nanvm-lib/src/big_numbers/big_float.rs
+++ b/nanvm-lib/src/big_numbers/big_float.rs
@@ -213,7 +213,8 @@ impl<M: Manager> BigFloat<2, M> {
                 bits |= frac_bits;
                 bits
             }
-            -1074..=-1023 => {
+            // the value can be rounded up to the smallest subnormal number when f64_exp is -1075
+            -1075..=-1023 => {
                 let subnormal_precision = (f64_exp + 1076) as u64;
                 value.decrease_significand(subnormal_precision);
                 let frac = value.get_frac_round();
-- 
2.43.0


From f1fd0760d996d8d76774d38c1e6460822c202c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 17/41] fix: numbers with an exponent without digits were
 accepted

---
 nanvm-lib/src/tokenizer/mod.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/nanvm-lib/src/tokenizer/mod.rs b/nanvm-lib/src/tokenizer/mod.rs
index 23af787..b3e9391 100644
--- a/nanvm-lib/src/tokenizer/mod.rs
+++ b/nanvm-lib/src/tokenizer/mod.rs
@@ -108,9 +108,8 @@ impl<D: Dealloc + 'static> TokenizerState<D> {
             TokenizerState::ParseExpBegin(s) => {
                 get_next_state(manager, s, c, &maps.exp_begin, maps)
             }
-            TokenizerState::ParseExpSign(s) | TokenizerState::ParseExp(s) => {
-                get_next_state(manager, s, c, &maps.exp, maps)
-            }
+            TokenizerState::ParseExpSign(s) => get_next_state(manager, s, c, &maps.exp_sign, maps),
+            TokenizerState::ParseExp(s) => get_next_state(manager, s, c, &maps.exp, maps),
             TokenizerState::ParseBigInt(s) => get_next_state(manager, s, c, &maps.big_int, maps),
             TokenizerState::ParseNewLine => get_next_state(manager, (), c, &maps.new_line, maps),
             TokenizerState::ParseCommentStart => {
@@ -445,6 +444,7 @@ pub struct TransitionMaps<M: Manager> {
     frac_begin: TransitionMap<IntState<M::Dealloc>, M>,
     frac: TransitionMap<FloatState<M::Dealloc>, M>,
     exp_begin: TransitionMap<ExpState<M::Dealloc>, M>,
+    exp_sign: TransitionMap<ExpState<M::Dealloc>, M>,
     exp: TransitionMap<ExpState<M::Dealloc>, M>,
     big_int: TransitionMap<JsBigintMutRef<M::Dealloc>, M>,
     new_line: TransitionMap<(), M>,
@@ -468,6 +468,7 @@ pub fn create_transition_maps<M: Manager + 'static>() -> TransitionMaps<M> {
         frac_begin: create_frac_begin_transactions(),
         frac: create_frac_transactions(),
         exp_begin: create_exp_begin_transactions(),
+        exp_sign: create_exp_sign_transactions(),
         exp: create_exp_transactions(),
         big_int: create_big_int_transactions(),
         new_line: create_new_line_transactions(),
@@ -849,21 +850,23 @@ fn create_exp_begin_transactions<M: Manager + 'static>() -> TransitionMap<ExpSta
                         TokenizerState::ParseExpSign(s)
                     })
                 }),
-                create_range_map(terminal_for_number(), |manager, s, c, maps| {
-                    transfer_state(
-                        manager,
-                        [exp_state_into_token(manager, s)].cast(),
-                        TokenizerState::Initial,
-                        c,
-                        maps,
-                    )
-                }),
             ]
             .cast(),
         ),
     }
 }
 
+fn create_exp_sign_transactions<M: Manager + 'static>() -> TransitionMap<ExpState<M::Dealloc>, M> {
+    type Func<M> = TransitionFunc<M, ExpState<<M as Manager>::Dealloc>>;
+    TransitionMap {
+        def: (|manager, _, c, maps| tokenize_invalid_number(manager, c, maps)) as Func<M>,
+        rm: from_range(
+            '0'..='9',
+            (|_, s, c, _| (default(), TokenizerState::ParseExp(s.add_digit(c)))) as Func<M>,
+        ),
+    }
+}
+
 fn create_exp_transactions<M: Manager + 'static>() -> TransitionMap<ExpState<M::Dealloc>, M> {
     type Func<M> = TransitionFunc<M, ExpState<<M as Manager>::Dealloc>>;
     TransitionMap {
-- 
2.43.0


From 35a55db04ebf0b59d00e6b8f63991b0220a6e9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 18/41] fix: huge exponents overflowed or took forever

---
 nanvm-lib/src/tokenizer/mod.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/nanvm-lib/src/tokenizer/mod.rs b/nanvm-lib/src/tokenizer/mod.rs
index b3e9391..768dd25 100644
--- a/nanvm-lib/src/tokenizer/mod.rs
+++ b/nanvm-lib/src/tokenizer/mod.rs
@@ -206,7 +206,12 @@ impl ParseUnicodeCharState {
     }
 }
 
-pub fn bigfloat_to_f64<M: Manager>(bf_10: BigFloat<10, M>) -> f64 {
+pub fn bigfloat_to_f64<M: Manager>(mut bf_10: BigFloat<10, M>) -> f64 {
+    // Beyond these limits the result is an infinity or a zero, whatever the exponent is: a
+    // significand is less than 10^20 per word. It's important that the exponent is not used as a
+    // power then.
+    let max_digits = 20 * bf_10.significand.items().len() as i64;
+    bf_10.exp = bf_10.exp.clamp(-400 - max_digits, 400);
     let bf_2 = bf_10.to_bin(54);
     bf_2.to_f64()
 }
@@ -324,7 +329,10 @@ pub struct ExpState<D: Dealloc> {
 
 impl<D: Dealloc> ExpState<D> {
     const fn add_digit(mut self, c: char) -> ExpState<D> {
-        self.e = self.e * 10 + digit_to_number(c) as i64;
+        self.e = self
+            .e
+            .saturating_mul(10)
+            .saturating_add(digit_to_number(c) as i64);
         self
     }
 }
@@ -333,11 +341,10 @@ fn exp_state_into_token<M: Manager>(
     manager: M,
     state: ExpState<M::Dealloc>,
 ) -> JsonToken<M::Dealloc> {
-    let exp = state.fe
-        + match state.es {
-            Sign::Positive => state.e,
-            Sign::Negative => -state.e,
-        };
+    let exp = state.fe.saturating_add(match state.es {
+        Sign::Positive => state.e,
+        Sign::Negative => -state.e,
+    });
     JsonToken::Number(bigfloat_to_f64(BigFloat {
         manager,
         significand: state.b,
-- 
2.43.0


From 41ddd186cc9418d7dbc665db9ccdbcc748f211b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 19/41] fix: atomic reference counts did not order the uses of
 a value before its destruction

---
 nanvm-lib/src/mem/block_header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nanvm-lib/src/mem/block_header.rs b/nanvm-lib/src/mem/block_header.rs
index b957f8f..12f41b1 100644
--- a/nanvm-lib/src/mem/block_header.rs
+++ b/nanvm-lib/src/mem/block_header.rs
@@ -23,7 +23,7 @@ pub trait BlockHeader: Default + Sized {
 impl BlockHeader for AtomicIsize {
     #[inline(always)]
     unsafe fn ref_counter_update(&self, val: RefCounterUpdate) -> isize {
-        self.fetch_add(val as isize, Ordering::Relaxed)
+        self.fetch_add(val as isize, Ordering::AcqRel)
     }
 }
 
-- 
2.43.0


From 9f410f19b980f3afb937732eeb83c0b30169b2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:17 +0000
Subject: [PATCH 20/41] fix: sizes of huge blocks wrapped around

---
 nanvm-lib/src/mem/field_layout.rs       | 9 ++++++++-
 nanvm-lib/src/mem/flexible_array/mod.rs | 8 +++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/mem/field_layout.rs b/nanvm-lib/src/mem/field_layout.rs
index 91eb098..899fd81 100644
--- a/nanvm-lib/src/mem/field_layout.rs
+++ b/nanvm-lib/src/mem/field_layout.rs
@@ -42,7 +42,14 @@ impl<T, A> FieldLayout<T, A> {
     }
     #[inline(always)]
     pub const fn layout(&self, a_size: usize) -> Layout {
-        unsafe { Layout::from_size_align_unchecked(self.size + a_size, self.align) }
+        let size = match self.size.checked_add(a_size) {
+            Some(size) => size,
+            None => panic!("capacity overflow"),
+        };
+        match Layout::from_size_align(size, self.align) {
+            Ok(layout) => layout,
+            Err(_) => panic!("capacity overflow"),
+        }
     }
 }
 
diff --git a/nanvm-lib/src/mem/flexible_array/mod.rs b/nanvm-lib/src/mem/flexible_array/mod.rs
index 8468d4c..a03d221 100644
--- a/nanvm-lib/src/mem/flexible_array/mod.rs
+++ b/nanvm-lib/src/mem/flexible_array/mod.rs
@@ -40,7 +40,13 @@ impl<I, T: FlexibleArrayHeader> FlexibleArray<I, T> {
     }
     #[inline(always)]
     pub const fn flexible_size(len: usize) -> usize {
-        Self::FLEXIBLE_HEADER_LAYOUT.size + len * size_of::<I>()
+        match size_of::<I>().checked_mul(len) {
+            Some(items_size) => match items_size.checked_add(Self::FLEXIBLE_HEADER_LAYOUT.size) {
+                Some(size) => size,
+                None => panic!("capacity overflow"),
+            },
+            None => panic!("capacity overflow"),
+        }
     }
 }
 
-- 
2.43.0


From 0773ba8f111e1d9f7d7a3cd26635d8c953b807de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:20 +0000
Subject: [PATCH 21/41] fix: a failed allocation was written through the null
 pointer

---
 nanvm-lib/src/mem/local.rs   |  7 +++++--
 nanvm-lib/src/mem/manager.rs | 10 +++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/nanvm-lib/src/mem/local.rs b/nanvm-lib/src/mem/local.rs
index 029d5a9..a0dd38a 100644
--- a/nanvm-lib/src/mem/local.rs
+++ b/nanvm-lib/src/mem/local.rs
@@ -1,4 +1,4 @@
-use core::{alloc::Layout, cell::Cell, sync::atomic::AtomicIsize};
+use core::{alloc::Layout, cell::Cell, ptr::null_mut, sync::atomic::AtomicIsize};
 
 use crate::common::default::default;
 
@@ -60,9 +60,12 @@ impl Manager for &Local {
     type Dealloc = Self;
     unsafe fn alloc(self, block_layout: Layout) -> *mut u8 {
         let (header_layout, layout) = Local::layout(block_layout);
+        let p = GLOBAL.alloc(layout) as *mut Header;
+        if p.is_null() {
+            return null_mut();
+        }
         self.counter.ref_counter_update(RefCounterUpdate::AddRef);
         self.size.set(self.size.get() + layout.size());
-        let p = GLOBAL.alloc(layout) as *mut Header;
         *p = self;
         header_layout.to_adjacent(&*p) as *mut u8
     }
diff --git a/nanvm-lib/src/mem/manager.rs b/nanvm-lib/src/mem/manager.rs
index e64b6c3..627f615 100644
--- a/nanvm-lib/src/mem/manager.rs
+++ b/nanvm-lib/src/mem/manager.rs
@@ -1,5 +1,6 @@
 use core::alloc::Layout;
 use core::fmt::Debug;
+use std::alloc::handle_alloc_error;
 
 use crate::common::ref_mut::RefMut;
 
@@ -28,9 +29,12 @@ pub trait Manager: Sized + Copy + Debug {
     #[allow(clippy::wrong_self_convention)]
     fn new<N: Constructor>(self, new_in_place: N) -> MutRef<N::Result, Self::Dealloc> {
         unsafe {
-            let p = self.alloc(Block::<N::Result, Self::Dealloc>::block_layout(
-                new_in_place.result_size(),
-            )) as *mut Block<N::Result, Self::Dealloc>;
+            let layout =
+                Block::<N::Result, Self::Dealloc>::block_layout(new_in_place.result_size());
+            let p = self.alloc(layout) as *mut Block<N::Result, Self::Dealloc>;
+            if p.is_null() {
+                handle_alloc_error(layout);
+            }
             {
                 let block = &mut *p;
                 block
-- 
2.43.0


From dc4f69a296d91d0a309877a9bc07a4b8504ec2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 22/41] fix: arena moved its pointer outside the buffer before
 refusing a request

---
 nanvm-lib/src/mem/arena.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/nanvm-lib/src/mem/arena.rs b/nanvm-lib/src/mem/arena.rs
index b9f3e85..2aee81f 100644
--- a/nanvm-lib/src/mem/arena.rs
+++ b/nanvm-lib/src/mem/arena.rs
@@ -43,18 +43,15 @@ impl Dealloc for &Arena<'_> {
 impl Manager for &Arena<'_> {
     type Dealloc = Self;
     unsafe fn alloc(self, layout: Layout) -> *mut u8 {
-        let result = {
-            let result = self.start.get();
-            result.byte_add(result.align_offset(layout.align()))
-        };
-        {
-            let start = result.byte_add(layout.size());
-            if start > self.end {
-                panic!("out of memory");
+        let start = self.start.get();
+        let offset = start.align_offset(layout.align());
+        match offset.checked_add(layout.size()) {
+            Some(size) if size <= self.end as usize - start as usize => {
+                self.start.set(start.byte_add(size));
+                start.byte_add(offset)
             }
-            self.start.set(start);
+            _ => panic!("out of memory"),
         }
-        result
     }
 }
 
-- 
2.43.0


From 6b4ad89748e03df5c3f99d66b3986ad8c72c0e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 23/41] fix: escaped surrogate pairs in strings were rejected

---
 nanvm-lib/src/tokenizer/mod.rs | 76 ++++++++++++++++++++++++++++++++--
 1 file changed, 73 insertions(+), 3 deletions(-)

diff --git a/nanvm-lib/src/tokenizer/mod.rs b/nanvm-lib/src/tokenizer/mod.rs
index 768dd25..50b26ff 100644
--- a/nanvm-lib/src/tokenizer/mod.rs
+++ b/nanvm-lib/src/tokenizer/mod.rs
@@ -64,6 +64,8 @@ pub enum TokenizerState<D: Dealloc> {
     ParseString(String),
     ParseEscapeChar(String),
     ParseUnicodeChar(ParseUnicodeCharState),
+    ParseLowSurrogateBegin(ParseUnicodeCharState),
+    ParseLowSurrogateEscapeChar(ParseUnicodeCharState),
     ParseMinus,
     ParseZero(Sign),
     ParseInt(IntState<D>),
@@ -98,6 +100,12 @@ impl<D: Dealloc + 'static> TokenizerState<D> {
             TokenizerState::ParseUnicodeChar(s) => {
                 get_next_state(manager, s, c, &maps.unicode_char, maps)
             }
+            TokenizerState::ParseLowSurrogateBegin(s) => {
+                get_next_state(manager, s, c, &maps.low_surrogate_begin, maps)
+            }
+            TokenizerState::ParseLowSurrogateEscapeChar(s) => {
+                get_next_state(manager, s, c, &maps.low_surrogate_escape_char, maps)
+            }
             TokenizerState::ParseZero(s) => get_next_state(manager, s, c, &maps.zero, maps),
             TokenizerState::ParseInt(s) => get_next_state(manager, s, c, &maps.int, maps),
             TokenizerState::ParseMinus => get_next_state(manager, (), c, &maps.minus, maps),
@@ -147,7 +155,9 @@ impl<D: Dealloc + 'static> TokenizerState<D> {
             TokenizerState::ParseId(s) => [JsonToken::Id(s)].cast(),
             TokenizerState::ParseString(_)
             | TokenizerState::ParseEscapeChar(_)
-            | TokenizerState::ParseUnicodeChar(_) => {
+            | TokenizerState::ParseUnicodeChar(_)
+            | TokenizerState::ParseLowSurrogateBegin(_)
+            | TokenizerState::ParseLowSurrogateEscapeChar(_) => {
                 [JsonToken::ErrorToken(ErrorType::MissingQuotes)].cast()
             }
             TokenizerState::ParseCommentStart => {
@@ -173,8 +183,12 @@ impl<D: Dealloc + 'static> TokenizerState<D> {
     }
 }
 
+const HIGH_SURROGATES: RangeInclusive<u32> = 0xD800..=0xDBFF;
+const LOW_SURROGATES: RangeInclusive<u32> = 0xDC00..=0xDFFF;
+
 pub struct ParseUnicodeCharState {
     s: String,
+    high_surrogate: Option<u32>,
     unicode: u32,
     index: u8,
 }
@@ -187,8 +201,20 @@ impl ParseUnicodeCharState {
         let new_unicode = self.unicode | (i << ((3 - self.index) * 4));
         match self.index {
             3 => {
-                let c = char::from_u32(new_unicode);
-                match c {
+                let code_point = match self.high_surrogate {
+                    None if HIGH_SURROGATES.contains(&new_unicode) => {
+                        self.high_surrogate = Some(new_unicode);
+                        return (default(), TokenizerState::ParseLowSurrogateBegin(self));
+                    }
+                    None => Some(new_unicode),
+                    Some(high) if LOW_SURROGATES.contains(&new_unicode) => Some(
+                        0x10000
+                            + ((high - HIGH_SURROGATES.start()) << 10)
+                            + (new_unicode - LOW_SURROGATES.start()),
+                    ),
+                    Some(_) => None,
+                };
+                match code_point.and_then(char::from_u32) {
                     Some(c) => continue_string_state::<M>(self.s, c),
                     None => (
                         [JsonToken::ErrorToken(ErrorType::InvalidHex)].cast(),
@@ -445,6 +471,8 @@ pub struct TransitionMaps<M: Manager> {
     string: TransitionMap<String, M>,
     escape_char: TransitionMap<String, M>,
     unicode_char: TransitionMap<ParseUnicodeCharState, M>,
+    low_surrogate_begin: TransitionMap<ParseUnicodeCharState, M>,
+    low_surrogate_escape_char: TransitionMap<ParseUnicodeCharState, M>,
     zero: TransitionMap<Sign, M>,
     int: TransitionMap<IntState<M::Dealloc>, M>,
     minus: TransitionMap<(), M>,
@@ -469,6 +497,8 @@ pub fn create_transition_maps<M: Manager + 'static>() -> TransitionMaps<M> {
         string: create_string_transactions(),
         escape_char: create_escape_char_transactions(),
         unicode_char: create_unicode_char_transactions(),
+        low_surrogate_begin: create_low_surrogate_begin_transactions(),
+        low_surrogate_escape_char: create_low_surrogate_escape_char_transactions(),
         zero: create_zero_transactions(),
         int: create_int_transactions(),
         minus: create_minus_transactions(),
@@ -626,6 +656,7 @@ fn create_escape_char_transactions<M: Manager + 'static>() -> TransitionMap<Stri
                         default(),
                         TokenizerState::ParseUnicodeChar(ParseUnicodeCharState {
                             s,
+                            high_surrogate: None,
                             unicode: 0,
                             index: 0,
                         }),
@@ -670,6 +701,45 @@ fn create_unicode_char_transactions<M: Manager + 'static>(
     }
 }
 
+fn tokenize_lone_surrogate<M: Manager + 'static>(
+    manager: M,
+    c: char,
+    maps: &TransitionMaps<M>,
+) -> (Vec<JsonToken<M::Dealloc>>, TokenizerState<M::Dealloc>) {
+    transfer_state(
+        manager,
+        [JsonToken::ErrorToken(ErrorType::InvalidHex)].cast(),
+        TokenizerState::Initial,
+        c,
+        maps,
+    )
+}
+
+fn create_low_surrogate_begin_transactions<M: Manager + 'static>(
+) -> TransitionMap<ParseUnicodeCharState, M> {
+    TransitionMap {
+        def: |manager, _, c, maps| tokenize_lone_surrogate(manager, c, maps),
+        rm: from_one('\\', |_, state, _, _| {
+            (
+                default(),
+                TokenizerState::ParseLowSurrogateEscapeChar(state),
+            )
+        }),
+    }
+}
+
+fn create_low_surrogate_escape_char_transactions<M: Manager + 'static>(
+) -> TransitionMap<ParseUnicodeCharState, M> {
+    TransitionMap {
+        def: |manager, _, c, maps| tokenize_lone_surrogate(manager, c, maps),
+        rm: from_one('u', |_, mut state, _, _| {
+            state.unicode = 0;
+            state.index = 0;
+            (default(), TokenizerState::ParseUnicodeChar(state))
+        }),
+    }
+}
+
 fn create_zero_transactions<M: Manager + 'static>() -> TransitionMap<Sign, M> {
     type Func<M> = TransitionFunc<M, Sign>;
     TransitionMap {
-- 
2.43.0


From 0513f528ff0927650fb9a6daaa6aae832d545f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:22 +0000
Subject: [PATCH 24/41] fix: ranges starting at the first character or after
 the surrogates covered wrong characters

---
 nanvm-lib/src/range_map.rs | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/nanvm-lib/src/range_map.rs b/nanvm-lib/src/range_map.rs
index 7732c09..b5aad81 100644
--- a/nanvm-lib/src/range_map.rs
+++ b/nanvm-lib/src/range_map.rs
@@ -162,25 +162,37 @@ where
     res
 }
 
+fn previous(c: char) -> Option<char> {
+    match c {
+        // there are no characters between U+D7FF and U+E000.
+        '\u{E000}' => Some('\u{D7FF}'),
+        _ => (c as u32).checked_sub(1).and_then(char::from_u32),
+    }
+}
+
 pub fn from_range<T>(range: RangeInclusive<char>, value: T) -> RangeMap<char, State<T>> {
+    let entry = Entry {
+        key: *range.end(),
+        value: State { value: Some(value) },
+    };
     RangeMap {
-        list: [
-            Entry {
-                key: char::from_u32(*range.start() as u32 - 1).unwrap_or(*range.start()),
-                value: State { value: None },
-            },
-            Entry {
-                key: *range.end(),
-                value: State { value: Some(value) },
-            },
-        ]
-        .cast(),
+        list: match previous(*range.start()) {
+            Some(p) => [
+                Entry {
+                    key: p,
+                    value: State { value: None },
+                },
+                entry,
+            ]
+            .cast(),
+            None => [entry].cast(),
+        },
     }
 }
 
 pub fn from_one<T>(c: char, value: T) -> RangeMap<char, State<T>> {
     RangeMap {
-        list: match char::from_u32(c as u32 - 1) {
+        list: match previous(c) {
             Some(p) => [
                 Entry {
                     key: p,
-- 
2.43.0


From 3c2436899ad8642ea0a32098498c8c53a722bcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 25/41] fix: a semicolon in a constant's value crashed the
 parser

---
 nanvm-lib/src/parser/const_state.rs | 37 +++++++++++++----------------
 nanvm-lib/src/parser/parser.rs      | 33 +++++++++++--------------
 2 files changed, 30 insertions(+), 40 deletions(-)

diff --git a/nanvm-lib/src/parser/const_state.rs b/nanvm-lib/src/parser/const_state.rs
index 9f9b057..70bf373 100644
--- a/nanvm-lib/src/parser/const_state.rs
+++ b/nanvm-lib/src/parser/const_state.rs
@@ -12,28 +12,23 @@ pub struct ConstState<M: Manager> {
 
 impl<M: Manager> ConstState<M> {
     pub fn parse(self, manager: M, token: JsonToken<M::Dealloc>) -> JsonState<M> {
-        match token {
-            JsonToken::Semicolon => todo!(),
-            _ => {
-                // TODO: use import_path in place of _ below to track possible errors -
-                // or provide an explanation on why it's not necessary.
-                let (any_result, _) = self.state.parse(manager, token);
-                match any_result {
-                    AnyResult::Continue(state) => JsonState::ParseConst(ConstState {
-                        key: self.key,
-                        state,
-                    }),
-                    AnyResult::Success(mut success) => {
-                        success.state.consts.insert(self.key, success.value);
-                        JsonState::ParseRoot(RootState {
-                            status: RootStatus::Initial,
-                            state: success.state,
-                            new_line: false,
-                        })
-                    }
-                    AnyResult::Error(error) => JsonState::Error(error),
-                }
+        // TODO: use import_path in place of _ below to track possible errors -
+        // or provide an explanation on why it's not necessary.
+        let (any_result, _) = self.state.parse(manager, token);
+        match any_result {
+            AnyResult::Continue(state) => JsonState::ParseConst(ConstState {
+                key: self.key,
+                state,
+            }),
+            AnyResult::Success(mut success) => {
+                success.state.consts.insert(self.key, success.value);
+                JsonState::ParseRoot(RootState {
+                    status: RootStatus::Initial,
+                    state: success.state,
+                    new_line: false,
+                })
             }
+            AnyResult::Error(error) => JsonState::Error(error),
         }
     }
 }
diff --git a/nanvm-lib/src/parser/parser.rs b/nanvm-lib/src/parser/parser.rs
index ef2584d..d6c30d8 100644
--- a/nanvm-lib/src/parser/parser.rs
+++ b/nanvm-lib/src/parser/parser.rs
@@ -41,26 +41,21 @@ fn const_state_parse<M: Manager + 'static, I: Io>(
     context: &mut Context<M, I>,
     token: JsonToken<M::Dealloc>,
 ) -> JsonState<M> {
-    match token {
-        JsonToken::Semicolon => todo!(),
-        _ => {
-            let result = any_state_parse(const_state.state, context, token);
-            match result {
-                AnyResult::Continue(state) => JsonState::ParseConst(ConstState {
-                    key: const_state.key,
-                    state,
-                }),
-                AnyResult::Success(mut success) => {
-                    success.state.consts.insert(const_state.key, success.value);
-                    JsonState::ParseRoot(RootState {
-                        status: RootStatus::Initial,
-                        state: success.state,
-                        new_line: false,
-                    })
-                }
-                AnyResult::Error(error) => JsonState::Error(error),
-            }
+    let result = any_state_parse(const_state.state, context, token);
+    match result {
+        AnyResult::Continue(state) => JsonState::ParseConst(ConstState {
+            key: const_state.key,
+            state,
+        }),
+        AnyResult::Success(mut success) => {
+            success.state.consts.insert(const_state.key, success.value);
+            JsonState::ParseRoot(RootState {
+                status: RootStatus::Initial,
+                state: success.state,
+                new_line: false,
+            })
         }
+        AnyResult::Error(error) => JsonState::Error(error),
     }
 }
 
-- 
2.43.0


From 366d3d4711076b88ed48cc0daa92e5553659ffe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 26/41] fix: semicolons after statements were rejected

---
 nanvm-lib/src/parser/root_state.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nanvm-lib/src/parser/root_state.rs b/nanvm-lib/src/parser/root_state.rs
index 1b6c122..2a36b00 100644
--- a/nanvm-lib/src/parser/root_state.rs
+++ b/nanvm-lib/src/parser/root_state.rs
@@ -41,6 +41,14 @@ impl<M: Manager> RootState<M> {
                     }),
                     None,
                 ),
+                // a statement ends with a new line or a semicolon.
+                JsonToken::Semicolon if !self.new_line => (
+                    JsonState::ParseRoot(RootState {
+                        new_line: true,
+                        ..self
+                    }),
+                    None,
+                ),
                 JsonToken::Id(s) => match self.new_line {
                     true => match s.as_ref() {
                         "const" => (
-- 
2.43.0


From 3ac7f134959a4e081dbb09799665f2768c1a2baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:44 +0000
Subject: [PATCH 27/41] fix: unquoted keys were accepted only for the first
 property

---
 nanvm-lib/src/parser/any_state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nanvm-lib/src/parser/any_state.rs b/nanvm-lib/src/parser/any_state.rs
index 59716bb..5b441f0 100644
--- a/nanvm-lib/src/parser/any_state.rs
+++ b/nanvm-lib/src/parser/any_state.rs
@@ -352,6 +352,7 @@ impl<M: Manager> AnyState<M> {
     pub fn parse_object_comma(self, manager: M, token: JsonToken<M::Dealloc>) -> AnyResult<M> {
         match token {
             JsonToken::String(s) => self.push_key(s),
+            JsonToken::Id(s) if self.data_type.is_djs() => self.push_key(s),
             JsonToken::ObjectEnd => self.end_object(manager),
             _ => AnyResult::Error(ParseError::UnexpectedToken),
         }
-- 
2.43.0


From 3ffa728c2f6e61de3e53b86e8f3cc2db89b1d5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 28/41] fix: require was rejected as the first element of an
 array

---
 nanvm-lib/src/parser/any_state.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/parser/any_state.rs b/nanvm-lib/src/parser/any_state.rs
index 5b441f0..6863ec2 100644
--- a/nanvm-lib/src/parser/any_state.rs
+++ b/nanvm-lib/src/parser/any_state.rs
@@ -262,7 +262,7 @@ impl<M: Manager> AnyState<M> {
         match token {
             JsonToken::ArrayBegin => self.begin_array(),
             JsonToken::ObjectBegin => self.begin_object(),
-            JsonToken::Id(s) if self.data_type == DataType::Cjs && s == "require" => {
+            JsonToken::Id(s) if self.data_type.is_cjs_compatible() && s == "require" => {
                 self.begin_import()
             }
             JsonToken::ArrayEnd => self.end_array(manager),
@@ -281,6 +281,9 @@ impl<M: Manager> AnyState<M> {
             JsonToken::ArrayBegin => self.begin_array(),
             JsonToken::ArrayEnd => self.end_array(manager),
             JsonToken::ObjectBegin => self.begin_object(),
+            JsonToken::Id(s) if self.data_type.is_cjs_compatible() && s == "require" => {
+                self.begin_import()
+            }
             _ => {
                 let option_any = token.try_to_any(manager, &self.consts);
                 match option_any {
-- 
2.43.0


From 6165ad0e0463c218137f5d288bd49074af98c6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:49 +0000
Subject: [PATCH 29/41] fix: a second definition of a name silently replaced
 the first one

---
 nanvm-lib/src/parser/root_state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/parser/root_state.rs b/nanvm-lib/src/parser/root_state.rs
index 2a36b00..ba37bb4 100644
--- a/nanvm-lib/src/parser/root_state.rs
+++ b/nanvm-lib/src/parser/root_state.rs
@@ -139,7 +139,7 @@ impl<M: Manager> RootState<M> {
                 _ => (JsonState::Error(ParseError::WrongExportStatement), None),
             },
             RootStatus::Const => match token {
-                JsonToken::Id(s) => (
+                JsonToken::Id(s) if !self.state.consts.contains_key(&s) => (
                     JsonState::ParseRoot(RootState {
                         status: RootStatus::ConstId(s),
                         state: self.state,
@@ -160,7 +160,7 @@ impl<M: Manager> RootState<M> {
                 _ => (JsonState::Error(ParseError::WrongConstStatement), None),
             },
             RootStatus::Import => match token {
-                JsonToken::Id(s) => (
+                JsonToken::Id(s) if !self.state.consts.contains_key(&s) => (
                     JsonState::ParseRoot(RootState {
                         status: RootStatus::ImportId(s),
                         state: self.state,
-- 
2.43.0


From ad8d27719cea3978089a450f7175f808932ad055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:09 +0000
Subject: [PATCH 30/41] fix: absolute module paths became relative and current
 directory steps made other modules

---
 nanvm-lib/src/parser/path.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/parser/path.rs b/nanvm-lib/src/parser/path.rs
index 79f97e7..11837b9 100644
--- a/nanvm-lib/src/parser/path.rs
+++ b/nanvm-lib/src/parser/path.rs
@@ -1,17 +1,20 @@
 use crate::common::default::default;
 
 pub fn normalize(path: &str) -> String {
+    let absolute = path.starts_with('/');
     let path_split: Vec<_> = path.split('/').collect();
     let mut result_split: Vec<&str> = Vec::new();
     for &dir in path_split.iter() {
         match dir {
-            "" => {}
+            "" | "." => {}
             ".." => {
                 let last = result_split.last();
                 match last {
                     Some(x) if x != &".." => {
                         result_split.pop();
                     }
+                    // the parent of the root directory is the root directory.
+                    None if absolute => {}
                     _ => {
                         result_split.push(dir);
                     }
@@ -22,10 +25,17 @@ pub fn normalize(path: &str) -> String {
             }
         }
     }
-    result_split.join("/")
+    let result = result_split.join("/");
+    match absolute {
+        true => "/".to_string() + &result,
+        false => result,
+    }
 }
 
 pub fn concat(a: &str, b: &str) -> String {
+    if a.is_empty() || b.starts_with('/') {
+        return normalize(b);
+    }
     let mut concat = a.to_string();
     concat.push('/');
     concat.push_str(b);
@@ -35,6 +45,7 @@ pub fn concat(a: &str, b: &str) -> String {
 pub fn split(path: &str) -> (&str, &str) {
     match path.rsplit_once('/') {
         None => (default(), path),
+        Some(("", name)) => ("/", name),
         Some(t) => t,
     }
 }
-- 
2.43.0


From b50c923edb7dd655c0f2797eafb60c04c9874450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 31/41] fix: imports of imported modules were looked for in the
 directory of the root module

---
 nanvm-lib/src/parser/parser.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/nanvm-lib/src/parser/parser.rs b/nanvm-lib/src/parser/parser.rs
index d6c30d8..240fb32 100644
--- a/nanvm-lib/src/parser/parser.rs
+++ b/nanvm-lib/src/parser/parser.rs
@@ -11,6 +11,7 @@ use crate::{
     mem::manager::Manager,
     tokenizer::{tokenize, JsonToken},
 };
+use core::mem::replace;
 use io_trait::Io;
 
 pub struct Context<'a, M: Manager, I: Io> {
@@ -75,6 +76,19 @@ fn any_state_parse_for_module<M: Manager + 'static, I: Io>(
     }
 }
 
+fn parse_imported<M: Manager + 'static, I: Io>(
+    context: &mut Context<M, I>,
+    path: &str,
+    source: String,
+) -> Result<ParseResult<M::Dealloc>, ParseError> {
+    let tokens = tokenize(context.manager, source);
+    // paths of imports are relative to the module which contains them.
+    let importer_path = replace(&mut context.path, path.to_string());
+    let result = parse_with_tokens(context, tokens.into_iter());
+    context.path = importer_path;
+    result
+}
+
 fn any_state_parse_import_value<M: Manager + 'static, I: Io>(
     any_state: AnyState<M>,
     context: &mut Context<M, I>,
@@ -97,8 +111,7 @@ fn any_state_parse_import_value<M: Manager + 'static, I: Io>(
             let read_result = context.io.read_to_string(current_path.as_str());
             match read_result {
                 Ok(s) => {
-                    let tokens = tokenize(context.manager, s);
-                    let res = parse_with_tokens(context, tokens.into_iter());
+                    let res = parse_imported(context, &current_path, s);
                     match res {
                         Ok(r) => {
                             context.module_cache.progress.remove(&current_path);
@@ -170,8 +183,7 @@ fn root_state_parse<M: Manager + 'static, I: Io>(
                 let read_result = context.io.read_to_string(current_path.as_str());
                 match read_result {
                     Ok(s) => {
-                        let tokens = tokenize(context.manager, s);
-                        let res = parse_with_tokens(context, tokens.into_iter());
+                        let res = parse_imported(context, &current_path, s);
                         match res {
                             Ok(r) => {
                                 context.module_cache.progress.remove(&current_path);
-- 
2.43.0


From 0a5521a716ea9ffca93f5b58e5bc5546084cce6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 32/41] fix: a reused module cache reported circular
 dependencies that do not exist

---
 nanvm-lib/src/parser/parser.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/nanvm-lib/src/parser/parser.rs b/nanvm-lib/src/parser/parser.rs
index 240fb32..4f01ce8 100644
--- a/nanvm-lib/src/parser/parser.rs
+++ b/nanvm-lib/src/parser/parser.rs
@@ -2,7 +2,7 @@ use super::{
     any_state::{AnyResult, AnyState},
     const_state::ConstState,
     json_state::JsonState,
-    path::{concat, split},
+    path::{concat, normalize, split},
     root_state::{RootState, RootStatus},
     shared::{JsonElement, ModuleCache, ParseError, ParseResult, ParsingStatus},
 };
@@ -112,9 +112,9 @@ fn any_state_parse_import_value<M: Manager + 'static, I: Io>(
             match read_result {
                 Ok(s) => {
                     let res = parse_imported(context, &current_path, s);
+                    context.module_cache.progress.remove(&current_path);
                     match res {
                         Ok(r) => {
-                            context.module_cache.progress.remove(&current_path);
                             context
                                 .module_cache
                                 .complete
@@ -128,7 +128,10 @@ fn any_state_parse_import_value<M: Manager + 'static, I: Io>(
                         Err(e) => AnyResult::Error(e),
                     }
                 }
-                Err(_) => AnyResult::<M>::Error(ParseError::CannotReadFile),
+                Err(_) => {
+                    context.module_cache.progress.remove(&current_path);
+                    AnyResult::<M>::Error(ParseError::CannotReadFile)
+                }
             }
         }
         _ => AnyResult::Error(ParseError::WrongRequireStatement),
@@ -184,9 +187,9 @@ fn root_state_parse<M: Manager + 'static, I: Io>(
                 match read_result {
                     Ok(s) => {
                         let res = parse_imported(context, &current_path, s);
+                        context.module_cache.progress.remove(&current_path);
                         match res {
                             Ok(r) => {
-                                context.module_cache.progress.remove(&current_path);
                                 context
                                     .module_cache
                                     .complete
@@ -201,7 +204,10 @@ fn root_state_parse<M: Manager + 'static, I: Io>(
                             Err(e) => JsonState::Error(e),
                         }
                     }
-                    Err(_) => JsonState::Error(ParseError::CannotReadFile),
+                    Err(_) => {
+                        context.module_cache.progress.remove(&current_path);
+                        JsonState::Error(ParseError::CannotReadFile)
+                    }
                 }
             }
             _ => panic!("JsonState::ParseRoot expected when root_state.parse returns import"),
@@ -232,15 +238,18 @@ fn json_state_push<M: Manager + 'static, I: Io>(
 pub fn parse<M: Manager + 'static, I: Io>(
     context: &mut Context<M, I>,
 ) -> Result<ParseResult<M::Dealloc>, ParseError> {
-    context.module_cache.progress.insert(context.path.clone());
+    let module_path = normalize(&context.path);
+    context.module_cache.progress.insert(module_path.clone());
     let read_result = context.io.read_to_string(context.path.as_str());
-    match read_result {
+    let result = match read_result {
         Ok(s) => {
             let tokens = tokenize(context.manager, s);
             parse_with_tokens(context, tokens.into_iter())
         }
         Err(_) => Err(ParseError::CannotReadFile),
-    }
+    };
+    context.module_cache.progress.remove(&module_path);
+    result
 }
 
 pub fn parse_with_tokens<M: Manager + 'static, I: Io>(
-- 
2.43.0


From 9eb379ceeb910c8e8cd3b52ab7912dbbde69f131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 33/41] fix: infinities and NaN were written as text that is
 not JSON and refers to undefined names

---
 nanvm-lib/src/serializer/to_djs.rs  | 6 ++++++
 nanvm-lib/src/serializer/to_json.rs | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/nanvm-lib/src/serializer/to_djs.rs b/nanvm-lib/src/serializer/to_djs.rs
index 4df0d51..aa5c720 100644
--- a/nanvm-lib/src/serializer/to_djs.rs
+++ b/nanvm-lib/src/serializer/to_djs.rs
@@ -157,6 +157,12 @@ fn write_with_const_refs<D: Dealloc>(
                 )
             }
         }
+        Type::Number => match any.try_move::<f64>().unwrap() {
+            // literals which overflow denote infinities.
+            f64::INFINITY => write_json.write_str("1e1000"),
+            f64::NEG_INFINITY => write_json.write_str("-1e1000"),
+            n => write_json.write_json(Any::<D>::move_from(n)),
+        },
         _ => write_json.write_json(any),
     }
 }
diff --git a/nanvm-lib/src/serializer/to_json.rs b/nanvm-lib/src/serializer/to_json.rs
index cf18014..3b16d68 100644
--- a/nanvm-lib/src/serializer/to_json.rs
+++ b/nanvm-lib/src/serializer/to_json.rs
@@ -74,6 +74,8 @@ pub trait WriteJson: Write {
 
     fn write_json(&mut self, any: Any<impl Dealloc>) -> fmt::Result {
         match to_visitor(any) {
+            // JSON has neither infinities nor NaN.
+            Visitor::Number(n) if !n.is_finite() => Err(fmt::Error),
             // TODO: replace with proper JSON number serializer.
             Visitor::Number(n) => self.write_str(n.to_string().as_str()),
             Visitor::Null => self.write_str("null"),
-- 
2.43.0


From 38d44f1050da7cea73962d4b557567d14f6aac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:51 +0000
Subject: [PATCH 34/41] fix: writing big integers crashed

---
 nanvm-lib/src/serializer/to_djs.rs  | 36 ++++++++++++++++++++++++++++-
 nanvm-lib/src/serializer/to_json.rs |  3 ++-
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/serializer/to_djs.rs b/nanvm-lib/src/serializer/to_djs.rs
index aa5c720..5c7b04f 100644
--- a/nanvm-lib/src/serializer/to_djs.rs
+++ b/nanvm-lib/src/serializer/to_djs.rs
@@ -1,5 +1,11 @@
 use crate::{
-    js::{any::Any, js_array::JsArrayRef, js_object::JsObjectRef, type_::Type},
+    js::{
+        any::Any,
+        js_array::JsArrayRef,
+        js_bigint::{JsBigint, JsBigintRef},
+        js_object::JsObjectRef,
+        type_::Type,
+    },
     mem::manager::Dealloc,
 };
 
@@ -163,10 +169,38 @@ fn write_with_const_refs<D: Dealloc>(
             f64::NEG_INFINITY => write_json.write_str("-1e1000"),
             n => write_json.write_json(Any::<D>::move_from(n)),
         },
+        Type::Bigint => write_bigint(write_json, &any.try_move::<JsBigintRef<D>>().unwrap()),
         _ => write_json.write_json(any),
     }
 }
 
+/// Writes `b` as a decimal big integer literal.
+fn write_bigint(write_json: &mut (impl WriteJson + ?Sized), b: &JsBigint) -> fmt::Result {
+    const CHUNK: u64 = 10_000_000_000_000_000_000;
+    let mut words = b.items().to_vec();
+    let mut chunks = Vec::new();
+    while words.iter().any(|&w| w != 0) {
+        let mut rem = 0;
+        for w in words.iter_mut().rev() {
+            let n = ((rem as u128) << 64) | *w as u128;
+            *w = (n / CHUNK as u128) as u64;
+            rem = (n % CHUNK as u128) as u64;
+        }
+        if words.last() == Some(&0) {
+            words.pop();
+        }
+        chunks.push(rem);
+    }
+    if b.header_len() < 0 {
+        write_json.write_char('-')?;
+    }
+    write!(write_json, "{}", chunks.pop().unwrap_or(0))?;
+    for chunk in chunks.iter().rev() {
+        write!(write_json, "{chunk:019}")?;
+    }
+    write_json.write_char('n')
+}
+
 pub trait WriteDjs: WriteJson {
     /// Writes a DAG referred by `any` with const definitions for objects, arrays that are referred
     /// multiple times.
diff --git a/nanvm-lib/src/serializer/to_json.rs b/nanvm-lib/src/serializer/to_json.rs
index 3b16d68..148098b 100644
--- a/nanvm-lib/src/serializer/to_json.rs
+++ b/nanvm-lib/src/serializer/to_json.rs
@@ -87,7 +87,8 @@ pub trait WriteJson: Write {
                 w.write_json(v.clone())
             }),
             Visitor::Array(a) => self.write_list('[', ']', a, |w, i| w.write_json(i.clone())),
-            Visitor::Bigint(_) => todo!(),
+            // JSON has no big integers.
+            Visitor::Bigint(_) => Err(fmt::Error),
         }
     }
 }
-- 
2.43.0


From acf3ad85ba09f5eaaf76dab47e345bec069c0f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 35/41] fix: order and names of constants in a module depended
 on hash seeds

---
 nanvm-lib/src/serializer/to_djs.rs | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/nanvm-lib/src/serializer/to_djs.rs b/nanvm-lib/src/serializer/to_djs.rs
index 5c7b04f..946dd44 100644
--- a/nanvm-lib/src/serializer/to_djs.rs
+++ b/nanvm-lib/src/serializer/to_djs.rs
@@ -108,24 +108,6 @@ fn write_consts_and_any<D: Dealloc>(
     fmt::Result::Ok(())
 }
 
-/// Peeks one value from a hash map. This helper resolves a borrowing issue in write_consts - that
-/// function needs to iterate through a hash map while mutating that hash map.
-fn peek<D: Dealloc>(hash_map: &HashMap<Any<D>, Seen>) -> Option<Any<D>> {
-    Some(hash_map.iter().next()?.0.clone())
-}
-
-/// Writes const definitions for objects, arrays in the right order (with no forward references).
-fn write_consts<D: Dealloc>(
-    write_json: &mut (impl WriteJson + ?Sized),
-    to_be_consts: &mut HashMap<Any<D>, Seen>,
-    const_refs: &mut HashMap<Any<D>, usize>,
-) -> fmt::Result {
-    while let Some(any) = peek(to_be_consts) {
-        write_consts_and_any(write_json, &any, to_be_consts, const_refs)?;
-    }
-    fmt::Result::Ok(())
-}
-
 /// Writes `any` using const references.
 fn write_with_const_refs<D: Dealloc>(
     write_json: &mut (impl WriteJson + ?Sized),
@@ -213,7 +195,8 @@ pub trait WriteDjs: WriteJson {
         const_tracker
             .visited
             .retain(|_, seen| *seen == Seen::Repeatedly);
-        write_consts(self, &mut const_tracker.visited, &mut const_refs)?;
+        // the order of definitions is the order of the traversal, it doesn't depend on hashes.
+        write_consts_and_any(self, &any, &mut const_tracker.visited, &mut const_refs)?;
         if common_js {
             self.write_str("module.exports=")?;
         } else {
-- 
2.43.0


From c5da1594c55f73e7a1a4ddc4dd79981f806da1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:57 +0000
Subject: [PATCH 36/41] fix: writing nested shared containers took exponential
 time

---
 nanvm-lib/src/serializer/to_djs.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nanvm-lib/src/serializer/to_djs.rs b/nanvm-lib/src/serializer/to_djs.rs
index 946dd44..01b895d 100644
--- a/nanvm-lib/src/serializer/to_djs.rs
+++ b/nanvm-lib/src/serializer/to_djs.rs
@@ -76,6 +76,9 @@ fn write_compound_const<D: Dealloc>(
     to_be_consts: &mut HashMap<Any<D>, Seen>,
     const_refs: &mut HashMap<Any<D>, usize>,
 ) -> fmt::Result {
+    if const_refs.contains_key(any) {
+        return fmt::Result::Ok(());
+    }
     any.for_each(|_k, v| write_consts_and_any(write_json, v, to_be_consts, const_refs))?;
     if to_be_consts.remove(any).is_some() {
         let id = const_refs.len();
-- 
2.43.0


From c31c3b564ba42ae363cd79bc7c0928d6949b1fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 37/41] fix: missing command line arguments crashed the program

---
 nanvm-lib/src/app/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nanvm-lib/src/app/mod.rs b/nanvm-lib/src/app/mod.rs
index b574a57..90642b7 100644
--- a/nanvm-lib/src/app/mod.rs
+++ b/nanvm-lib/src/app/mod.rs
@@ -13,9 +13,10 @@ use crate::{
 
 pub fn run(io: &impl Io) -> io::Result<()> {
     let mut a = io.args();
-    a.next().unwrap();
-    let input = a.next().unwrap();
-    let output = a.next().unwrap();
+    let mut next_arg = || a.next().ok_or(Error::other("missing argument"));
+    next_arg()?;
+    let input = next_arg()?;
+    let output = next_arg()?;
 
     let mc = &mut default();
     let mut context = Context::new(GLOBAL, io, input, mc);
-- 
2.43.0


From 9419f4b4721d86c189918c8c83c93ae16e395eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:02 +0000
Subject: [PATCH 38/41] fix: the program ended with success after a failure

---
 nanvm/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nanvm/src/main.rs b/nanvm/src/main.rs
index 3662f75..e9573ad 100644
--- a/nanvm/src/main.rs
+++ b/nanvm/src/main.rs
@@ -1,6 +1,6 @@
 use io_impl::RealIo;
 use nanvm_lib::app::run;
 
-fn main() {
-    let _ = run(&RealIo::default());
+fn main() -> std::io::Result<()> {
+    run(&RealIo::default())
 }
-- 
2.43.0


From 78f05fea5a5e03603629f8541dca189f6dc38394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:34 +0000
Subject: [PATCH 39/41] fix: powers and left shifts of zero by a word crashed

---
 nanvm-lib/src/js/js_bigint.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index 6b4f508..854eefe 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -297,6 +297,9 @@ pub fn pow<M: Manager>(m: M, lhs: &JsBigint, rhs: &JsBigint) -> JsBigintMutRef<M
 }
 
 pub fn pow_u64<M: Manager>(m: M, lhs: &JsBigint, mut rhs: u64) -> JsBigintMutRef<M::Dealloc> {
+    if is_zero(lhs) && rhs != 0 {
+        return zero(m);
+    }
     let mut res = [1].to_vec();
     let mut b = lhs.items().to_vec();
     let sign = if lhs.sign() == Sign::Positive || rhs & 1 == 0 {
@@ -553,7 +556,7 @@ pub fn shl_on_u64<M: Manager>(m: M, lhs: &JsBigint, rhs: u64) -> JsBigintMutRef<
     if shift_mod > 0 {
         let len = vec.len();
         vec.push(0);
-        for i in (0..=len - 1).rev() {
+        for i in (0..len).rev() {
             let mut digit = vec[i] as u128;
             digit <<= shift_mod;
             vec[i + 1] |= (digit >> 64) as u64;
-- 
2.43.0


From d8e049bd86ad4b3c896fa53488978e097edfa62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 40/41] fix: a const statement keeps the module style, so that
 styles can't be mixed

---
 nanvm-lib/src/parser/any_state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/parser/any_state.rs b/nanvm-lib/src/parser/any_state.rs
index 6863ec2..5bd63e4 100644
--- a/nanvm-lib/src/parser/any_state.rs
+++ b/nanvm-lib/src/parser/any_state.rs
@@ -48,7 +48,8 @@ impl<M: Manager> Default for AnyState<M> {
 impl<M: Manager> AnyState<M> {
     pub fn set_djs(self) -> Self {
         AnyState {
-            data_type: DataType::Djs,
+            // a style of modules which is already in use stays in use.
+            data_type: self.data_type.to_djs(),
             ..self
         }
     }
-- 
2.43.0


From b46e4f3b453823f74d95653c7234d5a77135b4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:50 +0000
Subject: [PATCH 41/41] fix: a token pushed after an import nobody resolved
 crashed the incremental parser

---
 nanvm-lib/src/parser/any_state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/parser/any_state.rs b/nanvm-lib/src/parser/any_state.rs
index 5bd63e4..a317de0 100644
--- a/nanvm-lib/src/parser/any_state.rs
+++ b/nanvm-lib/src/parser/any_state.rs
@@ -186,7 +186,8 @@ impl<M: Manager> AnyState<M> {
                 };
                 new_state.push_value(any)
             }
-            _ => unreachable!(),
+            // nobody supplied the value of the import.
+            _ => AnyResult::Error(ParseError::WrongRequireStatement),
         }
     }
 
-- 
2.43.0

