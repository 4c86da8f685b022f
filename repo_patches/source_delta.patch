From 33528aa9d2805f0f5532a5ce85ea7dfd75192baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:07 +0000
Subject: [PATCH 1/9] fix: reduce operator shift amounts modulo 256 in release
 builds

Without debug assertions the primitive integer operators mask the shift
amount; the native intrinsics were given the unmasked amount and shifted by
something else (and differed from the llvm-intrinsics build).
---
 src/macros/ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macros/ops.rs b/src/macros/ops.rs
index e735359..2c8b718 100644
--- a/src/macros/ops.rs
+++ b/src/macros/ops.rs
@@ -269,7 +269,7 @@ macro_rules! __impl_ops_shift {
                 }
 
                 let mut result = ::core::mem::MaybeUninit::uninit();
-                $op3(&mut result, self, rhs);
+                $op3(&mut result, self, rhs & 0xff);
 
                 unsafe { result.assume_init() }
             }
@@ -457,7 +457,7 @@ macro_rules! __impl_ops_shift_assign {
             fn $method(&mut self, rhs: u32) {
                 #[cfg(not(debug_assertions))]
                 {
-                    $op2(self, rhs);
+                    $op2(self, rhs & 0xff);
                 }
                 #[cfg(debug_assertions)]
                 {
-- 
2.43.0


From bfced180f2cb05cf02a2b98b73d52d7d74d560ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 2/9] fix: panic when dividing I256::MIN by -1 with the
 operators

The primitive integer operators panic when a signed division or remainder
overflows, in every build; / % /= %= returned a wrapped value instead, and
so div_euclid and rem_euclid did not panic as they document.
---
 src/macros/ops.rs | 63 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 53 insertions(+), 10 deletions(-)

diff --git a/src/macros/ops.rs b/src/macros/ops.rs
index 2c8b718..7b78e7e 100644
--- a/src/macros/ops.rs
+++ b/src/macros/ops.rs
@@ -30,10 +30,12 @@ macro_rules! impl_ops {
             for $int | $prim
 
             impl Div {
-                / div => $div3; "divide by zero"
+                / div => $div3; "divide by zero", "divide with overflow"
             }
             impl Rem {
-                % rem => $rem3; "calculate the remainder with a divisor of zero"
+                % rem => $rem3;
+                "calculate the remainder with a divisor of zero",
+                "calculate the remainder with overflow"
             }
         }
 
@@ -77,20 +79,27 @@ macro_rules! impl_ops {
             impl AddAssign {
                 += add_assign => $add2, +;
             }
-            impl DivAssign {
-                /= div_assign => $div2, /;
-            }
             impl MulAssign {
                 *= mul_assign => $mul2, *;
             }
-            impl RemAssign {
-                %= rem_assign => $rem2, %;
-            }
             impl SubAssign {
                 -= sub_assign => $sub2, -;
             }
         }
 
+        __impl_ops_divmod_assign! {
+            for $int | $prim
+
+            impl DivAssign {
+                /= div_assign => $div2; "divide by zero", "divide with overflow"
+            }
+            impl RemAssign {
+                %= rem_assign => $rem2;
+                "calculate the remainder with a divisor of zero",
+                "calculate the remainder with overflow"
+            }
+        }
+
         __impl_ops_shift_assign! {
             for $int
 
@@ -224,7 +233,7 @@ macro_rules! __impl_ops_divmod {
         for $int:ident | $prim:ident
         $(
             impl $op:ident {
-                $x:tt $method:ident => $op3:path; $msg:expr
+                $x:tt $method:ident => $op3:path; $zero:expr, $overflow:expr
             }
         )*
     ) => {$(
@@ -234,7 +243,11 @@ macro_rules! __impl_ops_divmod {
             #[inline]
             fn $method(self, rhs: Self) -> Self::Output {
                 if *rhs == 0 {
-                    panic!(concat!("attempt to ", $msg));
+                    panic!(concat!("attempt to ", $zero));
+                }
+                // Only signed division can overflow, by dividing `MIN` by -1.
+                if $int::MIN != 0 && *rhs == !$int::ZERO && *self == $int::MIN {
+                    panic!(concat!("attempt to ", $overflow));
                 }
 
                 let mut result = ::core::mem::MaybeUninit::uninit();
@@ -249,6 +262,36 @@ macro_rules! __impl_ops_divmod {
     )*};
 }
 
+macro_rules! __impl_ops_divmod_assign {
+    (
+        for $int:ident | $prim:ident
+        $(
+            impl $op:ident {
+                $x:tt $method:ident => $op2:path; $zero:expr, $overflow:expr
+            }
+        )*
+    ) => {$(
+        impl ::core::ops::$op<&'_ $int> for $int {
+            #[inline]
+            fn $method(&mut self, rhs: &'_ $int) {
+                if *rhs == 0 {
+                    panic!(concat!("attempt to ", $zero));
+                }
+                // Only signed division can overflow, by dividing `MIN` by -1.
+                if $int::MIN != 0 && *rhs == !$int::ZERO && *self == $int::MIN {
+                    panic!(concat!("attempt to ", $overflow));
+                }
+
+                $op2(self, rhs);
+            }
+        }
+
+        __impl_ops_binop_assign_extra_variants! {
+            impl $op for $int | $prim { $method = $x }
+        }
+    )*};
+}
+
 macro_rules! __impl_ops_shift {
     (
         for $int:ident
-- 
2.43.0


From 9ec79bbaa392afcf41547b223591a1684dffb8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 3/9] fix: Euclidean division with remainder by I256::MIN in
 debug builds

|I256::MIN| as a signed value wraps to I256::MIN, so subtracting the
remainder of a negative dividend from it panicked with an overflow, although
the remainder is in range.
---
 src/int.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/int.rs b/src/int.rs
index ff9d35d..f9ce89e 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -538,8 +538,9 @@ impl I256 {
 
         let adjust_remainder = dividend_sign && remainder != 0;
         if adjust_remainder {
-            remainder = abs_divisor.as_i256() - remainder;
-            // cannot overflow
+            // The difference is in range, but the minuend wraps to `MIN` if that
+            // is the divisor.
+            remainder = abs_divisor.as_i256().wrapping_sub(remainder);
         }
         if remainder.is_negative() || remainder.as_u256() >= abs_divisor {
             debug_assert!(false);
-- 
2.43.0


From 8a3e167d9ddc7fd6c16c926451b6cca94943ef62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:19 +0000
Subject: [PATCH 4/9] fix: saturate when casting an infinite f32

The exponent bits of an f32 infinity denote 2^128, which is in range, so it
was converted to that instead of the maximum or minimum value.
---
 src/int/convert.rs  | 2 +-
 src/uint/convert.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/int/convert.rs b/src/int/convert.rs
index a013240..400672b 100644
--- a/src/int/convert.rs
+++ b/src/int/convert.rs
@@ -141,7 +141,7 @@ macro_rules! impl_as_i256_float {
                     let mantissa = (bits & MAN_MASK) | MAN_ONE;
                     if exponent <= M {
                         (I256::from(mantissa >> (M - exponent))) * sign
-                    } else if exponent < 255 {
+                    } else if exponent < 255 && self.is_finite() {
                         (I256::from(mantissa) << (exponent - M)) * sign
                     } else if sign > 0 {
                         I256::MAX
diff --git a/src/uint/convert.rs b/src/uint/convert.rs
index da2bdd3..b543081 100644
--- a/src/uint/convert.rs
+++ b/src/uint/convert.rs
@@ -142,7 +142,7 @@ macro_rules! impl_as_u256_float {
                     let mantissa = (bits & MAN_MASK) | MAN_ONE;
                     if exponent <= M {
                         U256::from(mantissa >> (M - exponent))
-                    } else if exponent < 256 {
+                    } else if exponent < 256 && self.is_finite() {
                         U256::from(mantissa) << (exponent - M)
                     } else {
                         U256::MAX
-- 
2.43.0


From ce45977dc3333290208008287ae7a8efd2dd099a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:43 +0000
Subject: [PATCH 5/9] fix: round once when casting to floating point

U256::as_f64 rounded the high word, the low word and their sum separately,
and I256::as_f32 rounded to f64 first, so some values were not converted to
the nearest float.
---
 src/int.rs  |  3 ++-
 src/uint.rs | 19 ++++++++++++++-----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/int.rs b/src/int.rs
index f9ce89e..2a72c21 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -263,7 +263,8 @@ impl I256 {
     /// Cast to a primitive `f32`.
     #[inline]
     pub fn as_f32(self) -> f32 {
-        self.as_f64() as _
+        let sign = self.signum128() as f32;
+        self.unsigned_abs().as_f32() * sign
     }
 
     /// Cast to a primitive `f64`.
diff --git a/src/uint.rs b/src/uint.rs
index 3a1e89f..a71a87c 100644
--- a/src/uint.rs
+++ b/src/uint.rs
@@ -269,11 +269,20 @@ impl U256 {
     /// Cast to a primitive `f64`.
     #[inline]
     pub fn as_f64(self) -> f64 {
-        // NOTE: Binary representation of 2**128. This is used because `powi` is
-        // neither `const` nor `no_std`.
-        const HI: u64 = 0x47f0000000000000;
-        let (hi, lo) = self.into_words();
-        (hi as f64) * f64::from_bits(HI) + (lo as f64)
+        match self.into_words() {
+            (0, lo) => lo as _,
+            (hi, _) => {
+                // Normalize, so that the high word has all the significant bits
+                // and the low word can be folded into its lowest one. This way,
+                // the value is rounded only once.
+                let shift = hi.leading_zeros();
+                let (hi, lo) = (self << shift).into_words();
+                let value = (hi | (lo != 0) as u128) as f64;
+                // NOTE: Binary representation of `2**(128 - shift)`. This is
+                // used because `powi` is neither `const` nor `no_std`.
+                value * f64::from_bits(u64::from(1023 + 128 - shift) << 52)
+            }
+        }
     }
 
     /// Performs integer and division and returns the quotient and the remainder as a tuple. This is faster than computing the quotient and remainder separately.
-- 
2.43.0


From 031fbba3592e6c92e259cb8f18056c574e1673a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 6/9] fix: carry between the words when evaluating literals

A carry out of the low word was mistaken for an overflow, so some literals
in range, such as 340282366920938463463374607431768211460, were rejected.
---
 src/parse.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index dca813c..02e8b8f 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -158,9 +158,9 @@ pub(crate) const fn const_from_str_prefixed(bytes: &[u8], start: usize) -> U256
         let (hi, overflow) = hi.overflowing_mul(r);
         check(overflow);
 
-        let (lo, overflow) = ll.overflowing_add(lh << 64);
-        check(overflow);
-        let (hi, overflow) = hi.overflowing_add(lh >> 64);
+        let (lo, carry) = ll.overflowing_add(lh << 64);
+        // cannot overflow: `lh` is at most `r * 2**64`
+        let (hi, overflow) = hi.overflowing_add((lh >> 64) + carry as u128);
         check(overflow);
 
         U256::from_words(hi, lo)
-- 
2.43.0


From 676a1085c3bbee8f2c8788b89911226dc16ef095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 7/9] fix: keep the sign when compressing I256 bytes

Positive values whose leading byte has its top bit set lost their sign bit
(255 was written as [0xff] and read back as -1), and the big endian form was
extended from the sign of its last byte instead of its first.
---
 src/serde.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 2df9aff..f07774c 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -462,6 +462,7 @@ pub mod bytes {
 /// Serde compressed byte serialization for 256-bit integer types.
 pub mod compressed_bytes {
     use crate::{I256, U256};
+    use core::cmp::Ordering;
 
     #[doc(hidden)]
     pub trait CompressedBytes {
@@ -471,9 +472,11 @@ pub mod compressed_bytes {
 
     impl CompressedBytes for I256 {
         fn leading_bits(&self) -> u32 {
-            match self.is_negative() {
-                true => self.leading_ones() - 1,
-                false => self.leading_zeros(),
+            // Leave one sign bit, except for zero which needs no bytes at all.
+            match (*self).cmp(&I256::ZERO) {
+                Ordering::Less => self.leading_ones() - 1,
+                Ordering::Equal => self.leading_zeros(),
+                Ordering::Greater => self.leading_zeros() - 1,
             }
         }
 
@@ -493,7 +496,7 @@ pub mod compressed_bytes {
     }
 
     macro_rules! endianness {
-        ($name:literal; $parent:ident, |$tb:ident| $to:block, |$fb:ident| $from:block) => {
+        ($name:literal; $parent:ident, |$tb:ident| $to:block, |$fb:ident| $from:block, $msb:ident) => {
             use super::CompressedBytes;
             use crate::serde::bytes::$parent::Bytes;
             use core::{
@@ -538,7 +541,7 @@ pub mod compressed_bytes {
                         return Err(E::invalid_length(v.len(), &self));
                     }
 
-                    let extend = T::extend(v.last().copied().unwrap_or_default());
+                    let extend = T::extend(v.$msb().copied().unwrap_or_default());
                     let mut bytes = [extend; 32];
                     let $fb = v.len();
                     let index = { $from };
@@ -594,7 +597,7 @@ pub mod compressed_bytes {
     /// integer types. This will serialize integer types with as few bytes as
     /// possible.
     pub mod le {
-        endianness!("little"; le, |l| { ..32 - l }, |l| { ..l });
+        endianness!("little"; le, |l| { ..32 - l }, |l| { ..l }, last);
     }
 
     /// Module for `#[serde(with = "ethnum::serde::compressed_bytes::be")]`
@@ -602,7 +605,7 @@ pub mod compressed_bytes {
     /// integer types. This will serialize integer types with as few bytes as
     /// possible.
     pub mod be {
-        endianness!("big"; be, |l| { l.. }, |l| { 32 - l.. });
+        endianness!("big"; be, |l| { l.. }, |l| { 32 - l.. }, first);
     }
 
     /// Module for `#[serde(with = "ethnum::serde::compressed_bytes::ne")]`
-- 
2.43.0


From cd95fc970b6abfbe7cc3664af31a14fbee1e3bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 8/9] fix: reject negative numbers when permissively
 deserializing U256

They were sign extended, so -1 was read as U256::MAX.
---
 src/serde.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index f07774c..d9e6d80 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -197,18 +197,18 @@ pub mod permissive {
 
     #[doc(hidden)]
     pub trait Permissive: Prefixed {
-        fn cast(value: I256) -> Self;
+        fn cast(value: I256) -> Option<Self>;
     }
 
     impl Permissive for I256 {
-        fn cast(value: I256) -> Self {
-            value
+        fn cast(value: I256) -> Option<Self> {
+            Some(value)
         }
     }
 
     impl Permissive for U256 {
-        fn cast(value: I256) -> Self {
-            value.as_u256()
+        fn cast(value: I256) -> Option<Self> {
+            value.try_into().ok()
         }
     }
 
@@ -221,6 +221,16 @@ pub mod permissive {
         value.serialize(serializer)
     }
 
+    fn cast<T, E>(value: I256) -> Result<T, E>
+    where
+        T: Permissive,
+        E: de::Error,
+    {
+        T::cast(value).ok_or_else(|| {
+            de::Error::custom("invalid conversion from negative number to unsigned integer")
+        })
+    }
+
     struct PermissiveVisitor<T>(PhantomData<T>);
 
     impl<T> Visitor<'_> for PermissiveVisitor<T>
@@ -237,28 +247,28 @@ pub mod permissive {
         where
             E: de::Error,
         {
-            Ok(T::cast(v.as_i256()))
+            cast(v.as_i256())
         }
 
         fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
         where
             E: de::Error,
         {
-            Ok(T::cast(v.as_i256()))
+            cast(v.as_i256())
         }
 
         fn visit_i128<E>(self, v: i128) -> Result<Self::Value, E>
         where
             E: de::Error,
         {
-            Ok(T::cast(v.as_i256()))
+            cast(v.as_i256())
         }
 
         fn visit_u128<E>(self, v: u128) -> Result<Self::Value, E>
         where
             E: de::Error,
         {
-            Ok(T::cast(v.as_i256()))
+            cast(v.as_i256())
         }
 
         fn visit_f32<E>(self, v: f32) -> Result<Self::Value, E>
@@ -299,7 +309,7 @@ pub mod permissive {
                 ));
             }
 
-            Ok(T::cast(i.as_i256()))
+            cast(i.as_i256())
         }
 
         fn visit_str<E>(self, v: &str) -> Result<Self::Value, E>
-- 
2.43.0


From ee2c3725d61c67d96562adb4cd8227810de373aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:17 +0000
Subject: [PATCH 9/9] fix: refuse -2^24 and -2^53 as floating point numbers

The permissive deserializers document the open ranges (-2^24, 2^24) and
(-2^53, 2^53): the number at the end of the range may be the rounding of an
integer outside of it, so that -9007199254740993.0 was read as -2^53.
---
 src/serde.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index d9e6d80..7cc200d 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -276,7 +276,7 @@ pub mod permissive {
             E: de::Error,
         {
             const N: f32 = (1_u64 << 24) as _;
-            if !(-N..N).contains(&v) {
+            if !(-N < v && v < N) {
                 return Err(de::Error::custom(
                     "invalid conversion from single precision floating point \
                      number outside of valid integer range (-2^24, 2^24)",
@@ -291,7 +291,7 @@ pub mod permissive {
             E: de::Error,
         {
             const N: f64 = (1_u64 << 53) as _;
-            if !(-N..N).contains(&v) {
+            if !(-N < v && v < N) {
                 return Err(de::Error::custom(
                     "invalid conversion from double precision floating point \
                      number outside of valid integer range (-2^53, 2^53)",
-- 
2.43.0

