From 833d49be8a25ed343e9ca92700a3375fb1f164c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:15 +0000
Subject: [PATCH 01/36] fix: start the sum of U256 values from zero

---
 algebra/u256/src/additive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/u256/src/additive.rs b/algebra/u256/src/additive.rs
index 822111f..ad9a87d 100644
--- a/algebra/u256/src/additive.rs
+++ b/algebra/u256/src/additive.rs
@@ -104,7 +104,7 @@ impl Neg for &U256 {
 
 impl core::iter::Sum for U256 {
     fn sum<I: Iterator<Item = U256>>(iter: I) -> Self {
-        iter.fold(Self::ONE, Add::add)
+        iter.fold(Self::ZERO, Add::add)
     }
 }
 
-- 
2.43.0


From da54fca050fe2e365ddfa2b818fc2693ec055b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:15 +0000
Subject: [PATCH 02/36] fix: U256 division when numerator and divisor prefixes
 are equal

---
 algebra/u256/src/arch/generic/knuth_division.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/algebra/u256/src/arch/generic/knuth_division.rs b/algebra/u256/src/arch/generic/knuth_division.rs
index 00fbee2..e5b05ae 100644
--- a/algebra/u256/src/arch/generic/knuth_division.rs
+++ b/algebra/u256/src/arch/generic/knuth_division.rs
@@ -52,10 +52,16 @@ fn div_3by2(n: &[u64; 3], d: &[u64; 2]) -> u64 {
     // The highest bit of d needs to be set
     debug_assert!(d[1] >> 63 == 1);
 
-    // The quotient needs to fit u64. For this we need [n2 n1] < [d1 d0]
-    debug_assert!(val_2(n[1], n[2]) < val_2(d[0], d[1]));
+    // The numerator prefix can not exceed the divisor prefix.
+    debug_assert!(val_2(n[1], n[2]) <= val_2(d[0], d[1]));
 
     if n[2] == d[1] {
+        if n[1] == d[0] {
+            // [n2 n1] = [d1 d0], so the quotient of the prefixes does not fit u64.
+            // The full quotient word does fit, so use the largest value. The add
+            // back step corrects it when it turns out to be one too large.
+            return 0xffff_ffff_ffff_ffff_u64;
+        }
         // From [n2 n1] < [d1 d0] and n2 = d1 it follows that n[1] < d[0].
         debug_assert!(n[1] < d[0]);
         // We start by subtracting 2^64 times the divisor, resulting in a
-- 
2.43.0


From fe3fc52759a4f125dff02f9a34214111207415f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:38 +0000
Subject: [PATCH 03/36] fix: return an error for non-ASCII decimal strings
 instead of panicking

---
 algebra/u256/src/encoding.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebra/u256/src/encoding.rs b/algebra/u256/src/encoding.rs
index b810af5..822580c 100644
--- a/algebra/u256/src/encoding.rs
+++ b/algebra/u256/src/encoding.rs
@@ -25,12 +25,12 @@ impl U256 {
         // TODO: Implement as trait
         // OPT: Convert 19 digits at a time using u64.
         let mut result = Self::ZERO;
-        for (i, _c) in s.chars().enumerate() {
+        for c in s.chars() {
             if result > max10 {
                 return Err(ParseError::Overflow);
             }
             result *= Self::from(10_u64);
-            let digit = Self::from(u64::from_str_radix(&s[i..=i], 10)?);
+            let digit = Self::from(u64::from_str_radix(c.encode_utf8(&mut [0; 4]), 10)?);
             if &result + &digit < result {
                 return Err(ParseError::Overflow);
             }
-- 
2.43.0


From 0c6af0fb744973990411f18198a98f7d2bb2c9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:38 +0000
Subject: [PATCH 04/36] fix: detect overflow of decimal strings from 2^256 to
 2^256 + 3

---
 algebra/u256/src/encoding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/u256/src/encoding.rs b/algebra/u256/src/encoding.rs
index 822580c..1d933cf 100644
--- a/algebra/u256/src/encoding.rs
+++ b/algebra/u256/src/encoding.rs
@@ -26,7 +26,7 @@ impl U256 {
         // OPT: Convert 19 digits at a time using u64.
         let mut result = Self::ZERO;
         for c in s.chars() {
-            if result > max10 {
+            if result >= max10 {
                 return Err(ParseError::Overflow);
             }
             result *= Self::from(10_u64);
-- 
2.43.0


From 8cc34205105a4c12ab0d3e3a35882693ca78c6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:19 +0000
Subject: [PATCH 05/36] fix: convert the most negative integers to field
 elements correctly

---
 algebra/primefield/src/convert.rs | 37 ++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/algebra/primefield/src/convert.rs b/algebra/primefield/src/convert.rs
index 2d21ae7..a71bd68 100644
--- a/algebra/primefield/src/convert.rs
+++ b/algebra/primefield/src/convert.rs
@@ -5,15 +5,20 @@ use zkp_u256::U256;
 
 // TODO: Move upstream to `num_traits`
 pub trait MaybeSigned {
+    /// Unsigned type that can hold every absolute value.
+    type Abs;
+
     /// True if negative
-    fn as_sign_abs(self) -> (bool, Self);
+    fn as_sign_abs(self) -> (bool, Self::Abs);
 }
 
 macro_rules! maybe_unsigned {
     ($type:ident) => {
         impl MaybeSigned for $type {
+            type Abs = Self;
+
             #[inline(always)]
-            fn as_sign_abs(self) -> (bool, Self) {
+            fn as_sign_abs(self) -> (bool, Self::Abs) {
                 (false, self)
             }
         }
@@ -21,15 +26,15 @@ macro_rules! maybe_unsigned {
 }
 
 macro_rules! maybe_signed {
-    ($type:ident) => {
+    ($type:ident, $unsigned:ident) => {
         impl MaybeSigned for $type {
+            type Abs = $unsigned;
+
+            // The absolute value of the minimum only fits the unsigned type.
+            #[allow(clippy::cast_sign_loss)]
             #[cfg_attr(feature = "inline", inline(always))]
-            fn as_sign_abs(self) -> (bool, Self) {
-                if self >= 0 {
-                    (false, self)
-                } else {
-                    (true, -self)
-                }
+            fn as_sign_abs(self) -> (bool, Self::Abs) {
+                (self < 0, self.wrapping_abs() as $unsigned)
             }
         }
     };
@@ -43,12 +48,12 @@ maybe_unsigned!(u128);
 maybe_unsigned!(U256);
 maybe_unsigned!(usize);
 
-maybe_signed!(i8);
-maybe_signed!(i16);
-maybe_signed!(i32);
-maybe_signed!(i64);
-maybe_signed!(i128);
-maybe_signed!(isize);
+maybe_signed!(i8, u8);
+maybe_signed!(i16, u16);
+maybe_signed!(i32, u32);
+maybe_signed!(i64, u64);
+maybe_signed!(i128, u128);
+maybe_signed!(isize, usize);
 
 // HACK: Ideally we implement two generic traits based on the `Signed` and
 // `Unsigned` traits. but this leads to conflicting implementations and is
@@ -56,7 +61,7 @@ maybe_signed!(isize);
 
 impl<U, P, Other> From<Other> for PrimeField<P>
 where
-    U: UInt + From<Other>,
+    U: UInt + From<Other::Abs>,
     P: Parameters<UInt = U>,
     Other: MaybeSigned,
 {
-- 
2.43.0


From 730c7b1efbeacbb96e67a68ddece9dc735abec09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:19 +0000
Subject: [PATCH 06/36] fix: raise field elements to the power isize::MIN
 without overflow

---
 algebra/primefield/src/prime_field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/primefield/src/prime_field.rs b/algebra/primefield/src/prime_field.rs
index 7167239..24c3136 100644
--- a/algebra/primefield/src/prime_field.rs
+++ b/algebra/primefield/src/prime_field.rs
@@ -302,7 +302,7 @@ impl<P: Parameters> Pow<isize> for &PrimeField<P> {
 
     fn pow(self, exponent: isize) -> Self::Output {
         let negative = exponent < 0;
-        let abs = exponent.abs() as usize;
+        let abs = exponent.wrapping_abs() as usize;
         if negative {
             self.inv().map(|n| n.pow(&abs))
         } else {
-- 
2.43.0


From 23ef52210b6ad60fe258aba6b2d6c126ab2fc8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:19 +0000
Subject: [PATCH 07/36] fix: skip past the end of a geometric series

---
 algebra/primefield/src/geometric_series.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/primefield/src/geometric_series.rs b/algebra/primefield/src/geometric_series.rs
index cb785d1..c01c954 100644
--- a/algebra/primefield/src/geometric_series.rs
+++ b/algebra/primefield/src/geometric_series.rs
@@ -33,7 +33,7 @@ where
 
     pub fn skip(mut self, n: usize) -> Self {
         self.current *= self.step.pow(n);
-        self.length -= n;
+        self.length = self.length.saturating_sub(n);
         self
     }
 
-- 
2.43.0


From 8f56318eabb39bf5e32ecb84c206facfa601dbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:19 +0000
Subject: [PATCH 08/36] fix: keep the last partial step in
 GeometricIter::step_by

---
 algebra/primefield/src/geometric_series.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algebra/primefield/src/geometric_series.rs b/algebra/primefield/src/geometric_series.rs
index c01c954..7f31b20 100644
--- a/algebra/primefield/src/geometric_series.rs
+++ b/algebra/primefield/src/geometric_series.rs
@@ -46,7 +46,8 @@ where
     pub fn step_by(mut self, step: usize) -> Self {
         assert!(step > 0);
         self.step = self.step.pow(step);
-        self.length /= step;
+        // The first item is kept, and every `step`-th one after that.
+        self.length = self.length / step + if self.length % step == 0 { 0 } else { 1 };
         self
     }
 }
-- 
2.43.0


From b71ad13c6edd14af6fc081b0fe602c0b0bdda09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:19 +0000
Subject: [PATCH 09/36] fix: reject encodings of field elements that are not
 canonical

---
 algebra/primefield/src/parity_codec.rs | 6 +++++-
 algebra/primefield/src/serde.rs        | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/algebra/primefield/src/parity_codec.rs b/algebra/primefield/src/parity_codec.rs
index 95beb6d..5a76d3c 100644
--- a/algebra/primefield/src/parity_codec.rs
+++ b/algebra/primefield/src/parity_codec.rs
@@ -35,7 +35,11 @@ where
     P: Parameters<UInt = U>,
 {
     fn decode<I: Input>(value: &mut I) -> Result<Self, Error> {
-        Ok(Self::from_uint(&U::decode(value)?))
+        let uint = U::decode(value)?;
+        if uint >= Self::modulus() {
+            return Err("field element is not less than the modulus".into());
+        }
+        Ok(Self::from_uint(&uint))
     }
 }
 
diff --git a/algebra/primefield/src/serde.rs b/algebra/primefield/src/serde.rs
index 7ca23e3..a602cba 100644
--- a/algebra/primefield/src/serde.rs
+++ b/algebra/primefield/src/serde.rs
@@ -1,6 +1,6 @@
 use crate::{uint::UInt, Parameters, PrimeField};
 use serde::{
-    de::{Deserialize, Deserializer},
+    de::{Deserialize, Deserializer, Error},
     ser::{Serialize, Serializer},
 };
 
@@ -27,6 +27,9 @@ where
         D: Deserializer<'de>,
     {
         let u = U::deserialize(deserializer)?;
+        if u >= Self::modulus() {
+            return Err(D::Error::custom("field element is not less than the modulus"));
+        }
         Ok(Self::from_uint(&u))
     }
 }
-- 
2.43.0


From ebba139476e76d399915a1bf1c6c5df77b7f094b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:19 +0000
Subject: [PATCH 10/36] fix: detect doubling in mixed Jacobian and affine
 addition

---
 algebra/elliptic-curve/src/jacobian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/elliptic-curve/src/jacobian.rs b/algebra/elliptic-curve/src/jacobian.rs
index 0dc9d4f..a6a761c 100644
--- a/algebra/elliptic-curve/src/jacobian.rs
+++ b/algebra/elliptic-curve/src/jacobian.rs
@@ -193,7 +193,7 @@ impl AddAssign<&Affine> for Jacobian {
                 let u2 = x * &z1z1;
                 let s2 = y * &self.z * &z1z1;
                 if self.x == u2 {
-                    return if self.x == s2 {
+                    return if self.y == s2 {
                         self.double_assign()
                     } else {
                         *self = Self::ZERO
-- 
2.43.0


From 615c95abf20c3d563f1d3f0560bf3259b0f847c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:19 +0000
Subject: [PATCH 11/36] fix: test the digit of the first scalar in double_mul

---
 algebra/elliptic-curve/src/wnaf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/elliptic-curve/src/wnaf.rs b/algebra/elliptic-curve/src/wnaf.rs
index c3e2f76..b451bd0 100644
--- a/algebra/elliptic-curve/src/wnaf.rs
+++ b/algebra/elliptic-curve/src/wnaf.rs
@@ -171,7 +171,7 @@ pub fn double_mul(
         r.double_assign();
         if snaf_expansion_a[i] > 0 {
             r += &naf_table_a[(snaf_expansion_a[i] >> 1) as usize];
-        } else if snaf_expansion_b[i] < 0 {
+        } else if snaf_expansion_a[i] < 0 {
             r -= &naf_table_a[(-snaf_expansion_a[i] >> 1) as usize];
         }
         if snaf_expansion_b[i] > 0 {
-- 
2.43.0


From f3228f12121e91a454f662b31e0b944e8a6eeace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:19 +0000
Subject: [PATCH 12/36] fix: handle the point at infinity in batch conversion
 to affine

---
 algebra/elliptic-curve/src/wnaf.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/algebra/elliptic-curve/src/wnaf.rs b/algebra/elliptic-curve/src/wnaf.rs
index b451bd0..2a11cb8 100644
--- a/algebra/elliptic-curve/src/wnaf.rs
+++ b/algebra/elliptic-curve/src/wnaf.rs
@@ -6,7 +6,7 @@ use std::prelude::v1::*;
 
 use crate::{curve::Affine, jacobian::Jacobian, ScalarFieldElement};
 use itertools::izip;
-use zkp_primefield::{FieldElement, Inv, One, SquareInline};
+use zkp_primefield::{FieldElement, Inv, One, SquareInline, Zero};
 use zkp_u256::{Binary, U256};
 
 pub(crate) fn window_table(p: &Affine, naf: &mut [Jacobian]) {
@@ -41,10 +41,11 @@ pub(crate) fn batch_convert(jacobians: &[Jacobian], affines: &mut [Affine]) {
     let mut acc = FieldElement::one();
     // OPT: Check if `izip!` has overhead
     for (jac, val) in izip!(jacobians.iter(), vals.iter_mut()) {
-        // TODO: Handle zeros
         // OPT: First mul is with one, can be removed
         *val = acc.clone();
-        acc *= &jac.z;
+        if !jac.z.is_zero() {
+            acc *= &jac.z;
+        }
     }
 
     // Invert accumulator
@@ -53,6 +54,11 @@ pub(crate) fn batch_convert(jacobians: &[Jacobian], affines: &mut [Affine]) {
 
     // Compute inverses and affine points
     for (jac, val, aff) in izip!(jacobians.iter(), vals.into_iter(), affines.iter_mut()).rev() {
+        if jac.z.is_zero() {
+            *aff = Affine::Zero;
+            continue;
+        }
+
         // Compute zi
         // OPT: Last mul is with one, can be removed
         let zi = &acc * val;
-- 
2.43.0


From a9e423bcd6b13d80f4feaab21b7a2ba4df4c4fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:19 +0000
Subject: [PATCH 13/36] fix: reject instead of panic when verifying malformed
 signatures or keys

---
 crypto/elliptic-curve-crypto/src/public_key.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crypto/elliptic-curve-crypto/src/public_key.rs b/crypto/elliptic-curve-crypto/src/public_key.rs
index 79d7d8f..a825764 100644
--- a/crypto/elliptic-curve-crypto/src/public_key.rs
+++ b/crypto/elliptic-curve-crypto/src/public_key.rs
@@ -20,9 +20,9 @@ impl PublicKey {
     }
 
     pub fn verify(&self, digest: &ScalarFieldElement, signature: &Signature) -> bool {
-        assert!(!signature.r().is_zero());
-        assert!(!signature.w().is_zero());
-        assert!(self.0.is_on_curve());
+        if signature.r().is_zero() || signature.w().is_zero() || !self.0.is_on_curve() {
+            return false;
+        }
 
         let generator_factor = digest * signature.w();
         let pubkey_factor = signature.r() * signature.w();
-- 
2.43.0


From aea689ada313f4affc136340684825a29f271791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:16 +0000
Subject: [PATCH 14/36] fix: check that Merkle proofs open exactly the leaves
 they were made for

---
 crypto/merkle-tree/src/proof.rs  | 9 ++++++++-
 crypto/merkle-tree/src/result.rs | 2 ++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/crypto/merkle-tree/src/proof.rs b/crypto/merkle-tree/src/proof.rs
index 6a8a9ed..94cc650 100644
--- a/crypto/merkle-tree/src/proof.rs
+++ b/crypto/merkle-tree/src/proof.rs
@@ -45,7 +45,6 @@ impl Proof {
 
     pub fn verify<Leaf: Hashable>(&self, leafs: &[(usize, Leaf)]) -> Result<()> {
         // TODO: Pass leafs by reference?
-        // TODO: Check if the indices line up.
 
         // Construct the leaf nodes
         let mut nodes = leafs
@@ -65,6 +64,14 @@ impl Proof {
             Error::DuplicateLeafMismatch
         );
         nodes.dedup_by_key(|(index, _)| *index);
+        // The leafs must be exactly the ones the proof was made for
+        require!(
+            nodes
+                .iter()
+                .map(|(index, _)| *index)
+                .eq(self.commitment.sort_indices(&self.indices)?),
+            Error::LeafIndexMismatch
+        );
         let mut nodes: VecDeque<(Index, Hash)> = nodes.into_iter().collect();
 
         // Create a mutable closure to pop hashes from the list
diff --git a/crypto/merkle-tree/src/result.rs b/crypto/merkle-tree/src/result.rs
index 4d222bc..15c9b3e 100644
--- a/crypto/merkle-tree/src/result.rs
+++ b/crypto/merkle-tree/src/result.rs
@@ -10,6 +10,7 @@ pub enum Error {
     IndexOutOfRange,
     IndicesUnsortedOrDuplicate,
     DuplicateLeafMismatch,
+    LeafIndexMismatch,
     NotEnoughHashes,
     RootHashMismatch,
 }
@@ -26,6 +27,7 @@ impl fmt::Display for Error {
             IndexOutOfRange => write!(f, "Index out of range"),
             IndicesUnsortedOrDuplicate => write!(f, "Indices are unsorted or duplicate"),
             DuplicateLeafMismatch => write!(f, "Duplicate leaf mismatch"),
+            LeafIndexMismatch => write!(f, "Leaf indices do not match the proof"),
             NotEnoughHashes => write!(f, "Not enough hashes to verify proof"),
             RootHashMismatch => write!(f, "Verification failed since root hashes don't match"),
         }
-- 
2.43.0


From 1a95dc1c9e7399b9980c8d5a1db7ad4807038f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:16 +0000
Subject: [PATCH 15/36] fix: do not drop uninitialized or dropped elements in
 MmapVec, and drop the live ones

---
 utils/mmap-vec/src/mmap_vec.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/utils/mmap-vec/src/mmap_vec.rs b/utils/mmap-vec/src/mmap_vec.rs
index 3affb39..b8b6658 100644
--- a/utils/mmap-vec/src/mmap_vec.rs
+++ b/utils/mmap-vec/src/mmap_vec.rs
@@ -14,7 +14,7 @@ use std::{
     marker::PhantomData,
     mem::size_of,
     ops::{Deref, DerefMut},
-    ptr::drop_in_place,
+    ptr::{drop_in_place, write},
     slice,
 };
 
@@ -76,9 +76,13 @@ impl<T: Clone> MmapVec<T> {
         if self.length == self.capacity {
             panic!("MmapVec is at capacity")
         }
-        let end = self.length;
+        // The slot is uninitialized (or holds a value that was already dropped),
+        // so its content must not be dropped by an assignment.
+        unsafe {
+            let end = (self.mmap.as_mut_ptr() as *mut T).add(self.length);
+            write(end, next);
+        }
         self.length += 1;
-        self[end] = next;
     }
 
     pub fn clear(&mut self) {
@@ -112,16 +116,14 @@ impl<T: Clone> MmapVec<T> {
         while self.length < size {
             self.push(fill.clone());
         }
-        self.length = size;
+        self.truncate(size);
     }
 
     pub fn extend_from_slice(&mut self, slice: &[T]) {
         if self.length + slice.len() > self.capacity {
             panic!("MmapVec would grow beyond capacity")
         }
-        let start = self.length;
-        self.length += slice.len();
-        self.as_mut_slice()[start..].clone_from_slice(slice);
+        self.extend(slice);
     }
 
     #[inline]
@@ -154,6 +156,12 @@ impl<T: Clone> Clone for MmapVec<T> {
     }
 }
 
+impl<T: Clone> Drop for MmapVec<T> {
+    fn drop(&mut self) {
+        self.clear()
+    }
+}
+
 impl<T: Clone> Extend<T> for MmapVec<T> {
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
         // The function signature is for compatibility with Vec::extend.
-- 
2.43.0


From afc8e3ba21d45aad38d81ca4c61611bf0a4b05df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:16 +0000
Subject: [PATCH 16/36] fix: include the current allocation in the peak

---
 utils/logging-allocator/src/logging_allocator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/logging-allocator/src/logging_allocator.rs b/utils/logging-allocator/src/logging_allocator.rs
index f9720cf..0a3a67a 100644
--- a/utils/logging-allocator/src/logging_allocator.rs
+++ b/utils/logging-allocator/src/logging_allocator.rs
@@ -107,7 +107,7 @@ unsafe impl GlobalAlloc for LoggingAllocator {
         if !result.is_null() {
             // TODO: We are doing a lot of atomic operations here, what is
             // the performance impact?
-            let allocated = self.allocated.fetch_add(layout.size(), Relaxed);
+            let allocated = self.allocated.fetch_add(layout.size(), Relaxed) + layout.size();
             let _ = self.total_allocated.fetch_add(layout.size(), Relaxed);
             let _ = self.num_allocations.fetch_add(1, Relaxed);
             // HACK: Using `allocated` here again is not completely fool proof
-- 
2.43.0


From d8657792fd52c0ea22b5efe160e0908862e1e4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:16 +0000
Subject: [PATCH 17/36] fix: do not underflow when printing sizes just below a
 power of 1000

---
 utils/logging-allocator/src/size_bytes.rs | 36 +++++++++--------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/utils/logging-allocator/src/size_bytes.rs b/utils/logging-allocator/src/size_bytes.rs
index c5c4e26..1bfc244 100644
--- a/utils/logging-allocator/src/size_bytes.rs
+++ b/utils/logging-allocator/src/size_bytes.rs
@@ -10,35 +10,27 @@ pub(crate) struct SizeBytes(usize);
 impl fmt::Display for SizeBytes {
     // We only want three digits accuracy, so f32 is fine.
     #[allow(clippy::cast_precision_loss)]
-    // Conversions f32 -> usize are safe here.
-    #[allow(clippy::cast_possible_truncation)]
-    // We have no negative numbers here (not even .log10() < 0).
-    #[allow(clippy::cast_sign_loss)]
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        // Number of decimals to get three digits from a value in [1, 1000).
+        fn decimals(value: f32) -> usize {
+            if value < 10.0 {
+                2
+            } else if value < 100.0 {
+                1
+            } else {
+                0
+            }
+        }
+
         let size = self.0 as f32;
         if size < 1.0e3 {
             write!(f, "{} B", size)
         } else if size < 1.0e6 {
-            write!(
-                f,
-                "{:.1$} kB",
-                size / 1.0e3,
-                5 - (size.log10().floor() as usize)
-            )
+            write!(f, "{:.1$} kB", size / 1.0e3, decimals(size / 1.0e3))
         } else if size < 1.0e9 {
-            write!(
-                f,
-                "{:.1$} MB",
-                size / 1.0e6,
-                8 - (size.log10().floor() as usize)
-            )
+            write!(f, "{:.1$} MB", size / 1.0e6, decimals(size / 1.0e6))
         } else if size < 1.0e12 {
-            write!(
-                f,
-                "{:.1$} GB",
-                size / 1.0e9,
-                11 - (size.log10().floor() as usize)
-            )
+            write!(f, "{:.1$} GB", size / 1.0e9, decimals(size / 1.0e9))
         } else {
             write!(f, "{} TB", size / 1.0e12)
         }
-- 
2.43.0


From 583b5106ad3d6392f191142a79925186b8bf42e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:00 +0000
Subject: [PATCH 18/36] fix: verify proofs that have no FRI layers

---
 crypto/stark/src/solidity_seralizer.rs |  2 +-
 crypto/stark/src/verifier.rs           | 20 +++++++++++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/crypto/stark/src/solidity_seralizer.rs b/crypto/stark/src/solidity_seralizer.rs
index e86fc1f..b412406 100644
--- a/crypto/stark/src/solidity_seralizer.rs
+++ b/crypto/stark/src/solidity_seralizer.rs
@@ -203,7 +203,7 @@ pub fn proof_serialize(
     let mut fri_indices: Vec<usize> = queries
         .to_vec()
         .iter()
-        .map(|x| x / coset_sizes[0])
+        .map(|x| x / coset_sizes.first().unwrap_or(&1))
         .collect();
 
     let mut previous_indices = queries.to_vec();
diff --git a/crypto/stark/src/verifier.rs b/crypto/stark/src/verifier.rs
index b2a62b3..a231f23 100644
--- a/crypto/stark/src/verifier.rs
+++ b/crypto/stark/src/verifier.rs
@@ -281,11 +281,29 @@ pub fn verify(constraints: &Constraints, proof: &Proof) -> Result<()> {
     let mut fri_indices: Vec<usize> = queries
         .to_vec()
         .iter()
-        .map(|x| x / coset_sizes[0])
+        .map(|x| x / coset_sizes.first().unwrap_or(&1))
         .collect();
 
     // Folded fri values from the previous layer
     let mut fri_folds: BTreeMap<usize, FieldElement> = BTreeMap::new();
+    if fri_commitments.is_empty() {
+        // Without FRI layers the last layer polynomial has to match the queries.
+        for (z, index) in queries.iter().enumerate() {
+            let _old_value = fri_folds.insert(
+                *index,
+                out_of_domain_element(
+                    &eval_x[fft::permute_index(eval_domain_size, *index)],
+                    &lde_values[z].1,
+                    &constraint_values[z].1,
+                    &oods_point,
+                    &claimed_trace_map,
+                    &claimed_constraint_values,
+                    &oods_coefficients,
+                    trace_length,
+                )?,
+            );
+        }
+    }
 
     let mut previous_indices = queries.to_vec();
     let mut step = 1;
-- 
2.43.0


From 8b65083bf222c32e9726b6af1139009022424ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:51 +0000
Subject: [PATCH 19/36] fix: reject instead of panic on truncated proofs and
 invalid field elements

---
 crypto/stark/src/channel.rs            | 62 +++++++++++++++++---------
 crypto/stark/src/solidity_seralizer.rs |  4 ++
 2 files changed, 45 insertions(+), 21 deletions(-)

diff --git a/crypto/stark/src/channel.rs b/crypto/stark/src/channel.rs
index 1b39dfb..bc817d8 100644
--- a/crypto/stark/src/channel.rs
+++ b/crypto/stark/src/channel.rs
@@ -5,7 +5,7 @@ use std::{convert::TryInto, prelude::v1::*};
 use tiny_keccak::{Hasher, Keccak};
 use zkp_hash::Hash;
 use zkp_macros_decl::u256h;
-use zkp_primefield::FieldElement;
+use zkp_primefield::{FieldElement, Zero};
 use zkp_u256::U256;
 
 pub(crate) trait RandomGenerator<T> {
@@ -45,6 +45,7 @@ pub(crate) struct VerifierChannel {
     pub(crate) coin:  PublicCoin,
     pub(crate) proof: Vec<u8>,
     proof_index:      usize,
+    malformed:        bool,
 }
 
 impl PublicCoin {
@@ -78,6 +79,7 @@ impl VerifierChannel {
             coin: PublicCoin::default(),
             proof,
             proof_index: 0,
+            malformed: false,
         }
     }
 
@@ -86,7 +88,39 @@ impl VerifierChannel {
     }
 
     pub(crate) fn at_end(self) -> bool {
-        self.proof_index == self.proof.len()
+        !self.malformed && self.proof_index == self.proof.len()
+    }
+
+    /// True if the proof ended early or contained an invalid field element.
+    ///
+    /// The values read are then meaningless.
+    pub(crate) fn is_malformed(&self) -> bool {
+        self.malformed
+    }
+
+    // Reads bytes from the proof. If the proof is too short it is marked as
+    // malformed and padded with zeros.
+    fn read_bytes(&mut self, size: usize) -> Vec<u8> {
+        let rest = &self.proof[self.proof_index..];
+        let mut bytes = rest[..size.min(rest.len())].to_vec();
+        self.proof_index += bytes.len();
+        if bytes.len() < size {
+            self.malformed = true;
+            bytes.resize(size, 0);
+        }
+        self.coin.write(&bytes[..]);
+        bytes
+    }
+
+    // Interpret an integer as a field element in Montgomery form. If it exceeds
+    // the modulus the proof is marked as malformed.
+    fn field_element(&mut self, montgomery: U256) -> FieldElement {
+        if montgomery < FieldElement::MODULUS {
+            FieldElement::from_montgomery(montgomery)
+        } else {
+            self.malformed = true;
+            FieldElement::zero()
+        }
     }
 
     pub(crate) fn get_coefficients(&mut self, n: usize) -> Vec<FieldElement> {
@@ -97,28 +131,18 @@ impl VerifierChannel {
     // updates the public coin once, with the contents of the entire layer, instead
     // of onces for each FieldElement in the layer.
     pub(crate) fn replay_fri_layer(&mut self, size: usize) -> Vec<FieldElement> {
-        let start_index = self.proof_index;
-        self.proof_index += 32 * size;
-        let layer_contents = &self.proof[start_index..self.proof_index];
-
-        self.coin.write(layer_contents);
+        let layer_contents = self.read_bytes(32 * size);
 
         layer_contents
             .chunks_exact(32)
-            .map(|bytes| {
-                FieldElement::from_montgomery(U256::from_bytes_be(bytes.try_into().unwrap()))
-            })
+            .map(|bytes| self.field_element(U256::from_bytes_be(bytes.try_into().unwrap())))
             .collect()
     }
 
     fn read_32_bytes(&mut self) -> [u8; 32] {
         let mut holder = [0_u8; 32];
-        let from = self.proof_index;
-        let to = from + 32;
-        self.proof_index = to;
         // OPT: Use arrayref crate or similar to avoid copy
-        holder.copy_from_slice(&self.proof[from..to]);
-        self.coin.write(&holder[..]);
+        holder.copy_from_slice(&self.read_bytes(32));
         holder
     }
 }
@@ -140,11 +164,7 @@ impl Writable<proof_of_work::Response> for ProverChannel {
 impl Replayable<proof_of_work::Response> for VerifierChannel {
     fn replay(&mut self) -> proof_of_work::Response {
         let mut holder = [0_u8; 8];
-        let from = self.proof_index;
-        let to = from + 8;
-        self.proof_index = to;
-        holder.copy_from_slice(&self.proof[from..to]);
-        self.coin.write(&holder[..]);
+        holder.copy_from_slice(&self.read_bytes(8));
         let nonce = u64::from_be_bytes(holder);
         proof_of_work::Response::from_nonce(nonce)
     }
@@ -297,7 +317,7 @@ impl Replayable<U256> for VerifierChannel {
 impl Replayable<FieldElement> for VerifierChannel {
     fn replay(&mut self) -> FieldElement {
         let montgomery_modulus: U256 = self.replay();
-        FieldElement::from_montgomery(montgomery_modulus)
+        self.field_element(montgomery_modulus)
     }
 }
 
diff --git a/crypto/stark/src/solidity_seralizer.rs b/crypto/stark/src/solidity_seralizer.rs
index b412406..4e53666 100644
--- a/crypto/stark/src/solidity_seralizer.rs
+++ b/crypto/stark/src/solidity_seralizer.rs
@@ -236,6 +236,10 @@ pub fn proof_serialize(
         }
     }
 
+    if channel.is_malformed() {
+        return Err(MerkleError::NotEnoughHashes);
+    }
+
     result_string.push_str(&format!("\"fri_values\": {}, \n", fri_values.sol_encode()));
     result_string.push_str(&format!(
         "\"fri_decommitments\": {} \n",
-- 
2.43.0


From 8d4f2ddee4cb5a3479246f59bbaa821b083d6ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:51 +0000
Subject: [PATCH 20/36] fix: serialize empty lists as valid JSON

---
 crypto/stark/src/solidity_seralizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/stark/src/solidity_seralizer.rs b/crypto/stark/src/solidity_seralizer.rs
index 4e53666..866cfda 100644
--- a/crypto/stark/src/solidity_seralizer.rs
+++ b/crypto/stark/src/solidity_seralizer.rs
@@ -41,7 +41,7 @@ impl<T: SoliditySeralize> SoliditySeralize for Vec<T> {
     fn sol_encode(&self) -> String {
         let mut res: String = "".to_string();
         if self.is_empty() {
-            return res;
+            return "[]".to_string();
         }
 
         let (last, rest) = self.split_last().unwrap();
-- 
2.43.0


From 4be2b994cd8edabb38aeb7bce666d7a06836e5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:05 +0000
Subject: [PATCH 21/36] fix: check a specific constraint at the row it is asked
 for

---
 crypto/stark/src/constraint_check.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/crypto/stark/src/constraint_check.rs b/crypto/stark/src/constraint_check.rs
index 27a7367..70f3893 100644
--- a/crypto/stark/src/constraint_check.rs
+++ b/crypto/stark/src/constraint_check.rs
@@ -71,12 +71,7 @@ pub(crate) fn check_specific_constraint(
     which_constraint: usize,
 ) -> bool {
     let trace_generator = FieldElement::root(table.num_rows()).unwrap();
-    let x;
-    if row == 0 {
-        x = FieldElement::one();
-    } else {
-        x = trace_generator.pow(row - 1)
-    }
+    let x = trace_generator.pow(row);
     let len = table.num_rows();
 
     let trace = |i: usize, j: isize| {
-- 
2.43.0


From acc85afe3e16b3753cab3df03808d6b36662ed37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:18 +0000
Subject: [PATCH 22/36] fix: use the inverse when checking inverted expressions

---
 crypto/stark/src/rational_expression.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crypto/stark/src/rational_expression.rs b/crypto/stark/src/rational_expression.rs
index 5f2bdec..deef715 100644
--- a/crypto/stark/src/rational_expression.rs
+++ b/crypto/stark/src/rational_expression.rs
@@ -265,11 +265,9 @@ impl RationalExpression {
             Inv(a) => {
                 let (res_a, a_ok) = a.clone().check(x, trace);
                 if a_ok {
-                    if res_a == FieldElement::zero() {
-                        (FieldElement::one(), false)
-                    } else {
-                        (res_a, true)
-                    }
+                    res_a
+                        .inv()
+                        .map_or((FieldElement::one(), false), |inv| (inv, true))
                 } else {
                     match *(a.clone()) {
                         Inv(b) => b.check(x, trace),
-- 
2.43.0


From 0f94f2bb15169e81c6ca57456cca67af6f20ccab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:01 +0000
Subject: [PATCH 23/36] fix: wrap trace offsets that go back more than the
 trace length

---
 crypto/stark/src/algebraic_dag.rs    |  2 +-
 crypto/stark/src/constraint_check.rs | 30 ++++++++--------------------
 2 files changed, 9 insertions(+), 23 deletions(-)

diff --git a/crypto/stark/src/algebraic_dag.rs b/crypto/stark/src/algebraic_dag.rs
index 1885090..1e3e994 100644
--- a/crypto/stark/src/algebraic_dag.rs
+++ b/crypto/stark/src/algebraic_dag.rs
@@ -520,7 +520,7 @@ impl AlgebraicGraph {
                         // Sizes are small enough
                         #[allow(clippy::cast_possible_wrap)]
                         let row = (self.row + i) as isize;
-                        let row = (n + row + trace_blowup * *o) % n;
+                        let row = (row + trace_blowup * *o).rem_euclid(n);
                         // Sizes are small enough
                         #[allow(clippy::cast_sign_loss)]
                         let row = row as usize;
diff --git a/crypto/stark/src/constraint_check.rs b/crypto/stark/src/constraint_check.rs
index 70f3893..e10f704 100644
--- a/crypto/stark/src/constraint_check.rs
+++ b/crypto/stark/src/constraint_check.rs
@@ -42,17 +42,10 @@ pub fn check_constraints(
     for row in 0..len {
         // Note - Still in col row form
         let trace = |i: usize, j: isize| {
-            if j.is_positive() {
-                let j: usize = j.try_into().unwrap();
-                table[((j + row) % len, i)].clone()
-            } else {
-                let j: usize = j.abs().try_into().unwrap();
-                if row < j {
-                    table[(len + row - j, i)].clone()
-                } else {
-                    table[(row - j, i)].clone()
-                }
-            }
+            let len: isize = len.try_into().unwrap();
+            let row: isize = row.try_into().unwrap();
+            let row: usize = (row + j).rem_euclid(len).try_into().unwrap();
+            table[(row, i)].clone()
         };
         for (which, expression) in constraints.expressions().iter().enumerate() {
             if !expression.check(&current_root, &trace).1 {
@@ -75,17 +68,10 @@ pub(crate) fn check_specific_constraint(
     let len = table.num_rows();
 
     let trace = |i: usize, j: isize| {
-        if j.is_positive() {
-            let j: usize = j.try_into().unwrap();
-            table[((j + row) % len, i)].clone()
-        } else {
-            let j: usize = j.abs().try_into().unwrap();
-            if row < j {
-                table[(len + row - j, i)].clone()
-            } else {
-                table[(row - j, i)].clone()
-            }
-        }
+        let len: isize = len.try_into().unwrap();
+        let row: isize = row.try_into().unwrap();
+        let row: usize = (row + j).rem_euclid(len).try_into().unwrap();
+        table[(row, i)].clone()
     };
 
     constraints.expressions()[which_constraint]
-- 
2.43.0


From 27e678113ba1853cb8286d29b8409fe4c6313edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:14 +0000
Subject: [PATCH 24/36] fix: do not overstate the security by half a bit per
 query

---
 crypto/stark/src/constraints.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/stark/src/constraints.rs b/crypto/stark/src/constraints.rs
index e8140e0..15c0d8a 100644
--- a/crypto/stark/src/constraints.rs
+++ b/crypto/stark/src/constraints.rs
@@ -211,7 +211,7 @@ impl Constraints {
     pub fn security_bits(&self) -> usize {
         // Our conservative formula is (1/2^blowup_log)^(queries/2)*(1/2^pow_bits)
         // So the bit security should be blowup_log*(queries/2) + pow_bits
-        let blowup_log = (64 - (self.blowup as u64).leading_zeros()) as usize;
+        let blowup_log = 63_u32.saturating_sub((self.blowup as u64).leading_zeros()) as usize;
         blowup_log * (self.num_queries / 2) + self.pow_bits
     }
 
-- 
2.43.0


From c86508902ceb7b373e6880f9b7c78a484c2cdba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:08 +0000
Subject: [PATCH 25/36] fix: make max_proof_size an upper bound for every
 configuration

---
 crypto/stark/src/constraints.rs         | 35 +++++++++++--------------
 crypto/stark/src/rational_expression.rs |  5 ++--
 2 files changed, 19 insertions(+), 21 deletions(-)

diff --git a/crypto/stark/src/constraints.rs b/crypto/stark/src/constraints.rs
index 15c0d8a..02b465d 100644
--- a/crypto/stark/src/constraints.rs
+++ b/crypto/stark/src/constraints.rs
@@ -221,28 +221,25 @@ impl Constraints {
     // TODO - Improve bound by removing the elements of overlap in
     // worst cases.
     pub fn max_proof_size(&self) -> usize {
-        let trace_len_log = self.trace_nrows().trailing_zeros() as usize;
-        // First we decommit two proofs for each query [one which is the evaluation
-        // domain decommitment and one is the constraints]
-        let mut total_decommitment =
-            self.num_queries * (trace_len_log * self.trace_ncolumns() + trace_len_log);
-        // Now we account for the first layer which is 8 elements [assuming the worst
-        // case we need to decommit 7 other elements].
-        let mut current_size = trace_len_log - 3;
-        total_decommitment += self.num_queries * (current_size + 7);
-
+        let domain_log = (self.trace_nrows() * self.blowup).trailing_zeros() as usize;
+        let constraint_polynomials = self.degree().next_power_of_two();
+        // Commitments to the trace and constraints and their values at the out of
+        // domain point.
+        let mut total_elements = 2 + self.trace_arguments().len() + constraint_polynomials;
+        // For each query we decommit two leaves and two Merkle paths, one for the
+        // evaluation domain and one for the constraints.
+        total_elements +=
+            self.num_queries * (self.trace_ncolumns() + constraint_polynomials + 2 * domain_log);
+        // Each FRI layer has a commitment. This worst case assumes that only one in
+        // each group is from the previous layer and that no paths overlap.
+        let mut current_size = domain_log;
         for &i in &self.fri_layout {
-            // This worst case assumes that only one in each group is from the previous
-            // layer.
             current_size -= i;
-            total_decommitment += self.num_queries * (current_size + (1 << i) - 1);
-        }
-        // Decommits all of the remaining elements
-        let final_list = 1 << current_size;
-        if final_list > self.num_queries {
-            total_decommitment += final_list - self.num_queries;
+            total_elements += 1 + self.num_queries * (current_size + (1 << i) - 1);
         }
-        32 * total_decommitment
+        // Finally the coefficients of the last layer and the proof of work nonce.
+        total_elements += (1 << current_size) / self.blowup;
+        32 * total_elements + 8
     }
 
     pub fn combine(&self, constraint_coefficients: &[FieldElement]) -> RationalExpression {
diff --git a/crypto/stark/src/rational_expression.rs b/crypto/stark/src/rational_expression.rs
index deef715..9a018b0 100644
--- a/crypto/stark/src/rational_expression.rs
+++ b/crypto/stark/src/rational_expression.rs
@@ -323,12 +323,13 @@ impl RationalExpression {
                 let _ = s.insert((i, j));
             }
             X | Constant(_) => (),
-            Polynomial(_, a) | Exp(a, _) | Neg(a) | Inv(a) => a.trace_arguments_impl(s),
+            Polynomial(_, a) | ClaimPolynomial(_, _, a, _) | Exp(a, _) | Neg(a) | Inv(a) => {
+                a.trace_arguments_impl(s)
+            }
             Add(a, b) | Mul(a, b) => {
                 a.trace_arguments_impl(s);
                 b.trace_arguments_impl(s);
             }
-            ClaimPolynomial(..) => panic!("ClaimPolynomial should be substituted by Polynomial"),
         }
     }
 }
-- 
2.43.0


From 45ba417f23b56a3287d28b823ef0021c69722d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:48 +0000
Subject: [PATCH 26/36] fix: count denominators in the degree of polynomials of
 rational expressions

---
 crypto/stark/src/rational_expression.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crypto/stark/src/rational_expression.rs b/crypto/stark/src/rational_expression.rs
index 9a018b0..be04155 100644
--- a/crypto/stark/src/rational_expression.rs
+++ b/crypto/stark/src/rational_expression.rs
@@ -170,12 +170,13 @@ impl RationalExpression {
             Constant(_) => (0, 0),
             Trace(..) => (trace_degree, 0),
             Polynomial(p, a) => {
+                // The lower order terms of `p` get multiplied by the denominator.
                 let (n, d) = a.degree_impl(x_degree, trace_degree);
-                (p.degree() * n, p.degree() * d)
+                (p.degree() * std::cmp::max(n, d), p.degree() * d)
             }
             ClaimPolynomial(_, degree_bound, a, _) => {
                 let (n, d) = a.degree_impl(x_degree, trace_degree);
-                (degree_bound * n, degree_bound * d)
+                (degree_bound * std::cmp::max(n, d), degree_bound * d)
             }
             Add(a, b) => {
                 let (a_numerator, a_denominator) = a.degree_impl(x_degree, trace_degree);
-- 
2.43.0


From 0c118f6e57c5e961f37f027fe2055d35f48ebdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:08 +0000
Subject: [PATCH 27/36] fix: reject trace lengths that are not a power of two

---
 crypto/stark/src/constraints.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crypto/stark/src/constraints.rs b/crypto/stark/src/constraints.rs
index 02b465d..5c440c4 100644
--- a/crypto/stark/src/constraints.rs
+++ b/crypto/stark/src/constraints.rs
@@ -1,7 +1,7 @@
 use crate::{polynomial::DensePolynomial, rational_expression::RationalExpression};
 use itertools::Itertools;
 use std::{collections::BTreeSet, fmt, prelude::v1::*};
-use zkp_primefield::{FieldElement, Root};
+use zkp_primefield::FieldElement;
 
 #[derive(Clone, Debug)]
 pub enum Error {
@@ -104,7 +104,9 @@ impl Constraints {
         channel_seed: Vec<u8>,
         expressions: Vec<RationalExpression>,
     ) -> Result<Self, Error> {
-        let _ = FieldElement::root(trace_nrows).ok_or(Error::InvalidTraceLength)?;
+        if !trace_nrows.is_power_of_two() {
+            return Err(Error::InvalidTraceLength);
+        }
         // TODO: Hash expressions into channel seed
         // TODO - Examine if we want to up these security params further.
         // 22.5*4  + 0 queries = 90
@@ -138,7 +140,9 @@ impl Constraints {
         op_num_queries: Option<usize>,
         op_fri_layout: Option<Vec<usize>>,
     ) -> Result<Self, Error> {
-        let _ = FieldElement::root(trace_nrows).ok_or(Error::InvalidTraceLength)?;
+        if !trace_nrows.is_power_of_two() {
+            return Err(Error::InvalidTraceLength);
+        }
         // TODO: Hash expressions into channel seed
         // 15*4 + 30 queries = 90
         Ok(Self {
-- 
2.43.0


From 2e748256bd2c58b116d7cee55de08b72deff11ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:22 +0000
Subject: [PATCH 28/36] Allow the parallel runtime to be replaced in
 verification builds

---
 algebra/primefield/src/lib.rs | 5 +++++
 crypto/merkle-tree/src/lib.rs | 5 +++++
 crypto/stark/src/lib.rs       | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/algebra/primefield/src/lib.rs b/algebra/primefield/src/lib.rs
index 6208727..cf5a78a 100644
--- a/algebra/primefield/src/lib.rs
+++ b/algebra/primefield/src/lib.rs
@@ -45,6 +45,11 @@
 // TODO: Provide two versions of hot functions `_inlined` and plain.
 #![allow(clippy::inline_always)]
 
+// Verification builds replace `rayon` by a stand-in that runs parallel tasks
+// under a controlled scheduler and re-exports `std` with schedulable atomics.
+#[cfg(all(openzkp_verif, feature = "rayon"))]
+extern crate rayon as std;
+
 mod convert;
 pub mod fft;
 pub mod geometric_series;
diff --git a/crypto/merkle-tree/src/lib.rs b/crypto/merkle-tree/src/lib.rs
index 081c3d9..816d75d 100644
--- a/crypto/merkle-tree/src/lib.rs
+++ b/crypto/merkle-tree/src/lib.rs
@@ -43,6 +43,11 @@
 // TODO: Add `must_use` attributes
 #![allow(clippy::must_use_candidate)]
 
+// Verification builds replace `rayon` by a stand-in that runs parallel tasks
+// under a controlled scheduler and re-exports `std` with schedulable atomics.
+#[cfg(all(openzkp_verif, feature = "rayon"))]
+extern crate rayon as std;
+
 #[cfg(not(feature = "std"))]
 extern crate no_std_compat as std;
 
diff --git a/crypto/stark/src/lib.rs b/crypto/stark/src/lib.rs
index beaa6be..a85a2af 100644
--- a/crypto/stark/src/lib.rs
+++ b/crypto/stark/src/lib.rs
@@ -47,6 +47,11 @@
 // TODO: False positives <https://github.com/rust-lang/rust-clippy/issues/5917>
 #![allow(clippy::wildcard_imports)]
 
+// Verification builds replace `rayon` by a stand-in that runs parallel tasks
+// under a controlled scheduler and re-exports `std` with schedulable atomics.
+#[cfg(all(openzkp_verif, feature = "rayon"))]
+extern crate rayon as std;
+
 mod channel;
 mod constraints;
 mod polynomial;
-- 
2.43.0


From 7a58cbd9c0f0ebae44b96b422f762098b02f208f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:27 +0000
Subject: [PATCH 29/36] fix: the verifier contract returns true for a proof it
 accepts

---
 crypto/stark-verifier-ethereum/contracts/stark_verifier.sol | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol b/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
index 15bb844..67b09f0 100644
--- a/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
+++ b/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
@@ -70,6 +70,7 @@ contract StarkVerifier is Trace, ProofOfWork, Fri, ProofTypes {
         check_out_of_domain_sample_result(proof, oods_point, constraint_evaluated_oods_point);
 
         trace('verify_proof', false);
+        return true;
     }
 
     // This function write to the channel and reads from the channel to get the randomized data
-- 
2.43.0


From 2f6b3e5e854692574b7c03832c502a504f02e49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:27 +0000
Subject: [PATCH 30/36] fix: the verifier contract checks the sizes of the
 parts of a proof

---
 .../contracts/default_cs.sol                  |  2 ++
 .../contracts/stark_verifier.sol              | 29 +++++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/crypto/stark-verifier-ethereum/contracts/default_cs.sol b/crypto/stark-verifier-ethereum/contracts/default_cs.sol
index 770ae8c..a6cf101 100644
--- a/crypto/stark-verifier-ethereum/contracts/default_cs.sol
+++ b/crypto/stark-verifier-ethereum/contracts/default_cs.sol
@@ -52,6 +52,8 @@ abstract contract DefaultConstraintSystem is ConstraintSystem, Trace  {
         }
 
         uint256[] memory layout = layout_col_major();
+        // The layout has two entries for each trace value which takes part in the constraints
+        require(layout.length == 2 * data.trace_oods_values.length, 'Wrong number of trace oods values');
         for (uint256 i = 0; i < queries.length; i++) {
             uint256 result = 0;
             {
diff --git a/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol b/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
index 67b09f0..ee0ea9d 100644
--- a/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
+++ b/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
@@ -27,6 +27,7 @@ contract StarkVerifier is Trace, ProofOfWork, Fri, ProofTypes {
             proof.public_inputs
         );
         trace('initalize_system', false);
+        check_proof_shape(proof, constraint_parameters);
         // Write data to the coin and read random data from it
         trace('write_data_and_read_random', true);
         (
@@ -73,6 +74,34 @@ contract StarkVerifier is Trace, ProofOfWork, Fri, ProofTypes {
         return true;
     }
 
+    // Checks that the parts of the proof have the sizes implied by the parameters.
+    // The parts below are read up to their own length, so a proof with missing or
+    // additional values would otherwise be judged by a different set of equations.
+    function check_proof_shape(StarkProof memory proof, ProofParameters memory constraint_parameters) internal pure {
+        uint256 num_queries = constraint_parameters.number_of_queries;
+        uint256 constraint_degree = constraint_parameters.constraint_degree;
+        require(
+            proof.trace_values.length == num_queries * constraint_parameters.number_of_columns,
+            'Wrong number of trace values'
+        );
+        require(
+            proof.constraint_values.length == num_queries * constraint_degree,
+            'Wrong number of constraint values'
+        );
+        require(
+            proof.constraint_oods_values.length == constraint_degree,
+            'Wrong number of constraint oods values'
+        );
+        uint256 last_layer_length = uint256(1) << constraint_parameters.log_trace_length;
+        for (uint256 i = 0; i < constraint_parameters.fri_layout.length; i++) {
+            last_layer_length >>= constraint_parameters.fri_layout[i];
+        }
+        require(
+            proof.last_layer_coefficients.length == last_layer_length,
+            'Wrong number of last layer coefficients'
+        );
+    }
+
     // This function write to the channel and reads from the channel to get the randomized data
     function write_data_and_read_random(
         StarkProof memory proof,
-- 
2.43.0


From a621864bf93b58ff4f128caaa89ed859d01e3670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:20 +0000
Subject: [PATCH 31/36] fix: the verifier contract accepts proofs in which a
 query occurs twice

---
 .../stark-verifier-ethereum/contracts/fri.sol |  8 +++++++
 .../contracts/stark_verifier.sol              | 22 +++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/crypto/stark-verifier-ethereum/contracts/fri.sol b/crypto/stark-verifier-ethereum/contracts/fri.sol
index 10496f4..afaea0b 100644
--- a/crypto/stark-verifier-ethereum/contracts/fri.sol
+++ b/crypto/stark-verifier-ethereum/contracts/fri.sol
@@ -233,6 +233,14 @@ contract Fri is Trace, MerkleVerifier {
                     coset[index - coset_start] = values[read_index];
                     // Advance the index from the read
                     read_index += 1;
+                    // The same index can be queried several times, all with the same value
+                    while (read_index < indices.length && indices[read_index] == index) {
+                        require(
+                            coset[index - coset_start] == values[read_index],
+                            'Different values for the same query'
+                        );
+                        read_index += 1;
+                    }
                     if (read_index < indices.length) {
                         // Set the current index to the next one
                         next_index = indices[read_index];
diff --git a/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol b/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
index ee0ea9d..c3912eb 100644
--- a/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
+++ b/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
@@ -170,11 +170,15 @@ contract StarkVerifier is Trace, ProofOfWork, Fri, ProofTypes {
             merkle_hashes,
             query_copy
         );
+        remove_repeated_queries(query_copy, merkle_hashes);
         require(
             verify_merkle_proof(proof.trace_commitment, merkle_hashes, query_copy, proof.trace_decommitment),
             'Trace commitment proof failed'
         );
 
+        // The arrays may have been shortened, so they can not be used again.
+        merkle_hashes = new bytes32[](constraint_parameters.number_of_queries);
+        query_copy = new uint256[](queries.length);
         prepare_hashes_and_queries(
             proof.constraint_values,
             uint256(constraint_parameters.constraint_degree),
@@ -183,6 +187,7 @@ contract StarkVerifier is Trace, ProofOfWork, Fri, ProofTypes {
             merkle_hashes,
             query_copy
         );
+        remove_repeated_queries(query_copy, merkle_hashes);
         require(
             verify_merkle_proof(proof.constraint_commitment, merkle_hashes, query_copy, proof.constraint_decommitment),
             'Constraint commitment proof failed'
@@ -216,6 +221,23 @@ contract StarkVerifier is Trace, ProofOfWork, Fri, ProofTypes {
         delete group;
     }
 
+    // The random queries can contain the same index several times. The merkle proof has
+    // each of them only once. The indices are sorted, so equal ones are next to each other.
+    function remove_repeated_queries(uint256[] memory indices, bytes32[] memory hashes) internal pure {
+        uint256 write_index = 0;
+        for (uint256 i = 0; i < indices.length; i++) {
+            if (write_index > 0 && indices[write_index - 1] == indices[i]) {
+                require(hashes[write_index - 1] == hashes[i], 'Different values for the same query');
+            } else {
+                indices[write_index] = indices[i];
+                hashes[write_index] = hashes[i];
+                write_index += 1;
+            }
+        }
+        indices.truncate(write_index);
+        hashes.truncate(write_index);
+    }
+
     function check_out_of_domain_sample_result(
         ProofTypes.StarkProof memory proof,
         uint256 oods_point,
-- 
2.43.0


From 49cec9b65bf32b452aec2537ed8e6b2a627fbd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:20 +0000
Subject: [PATCH 32/36] fix: constraint degree of the generated contracts when
 it is not a power of two

---
 crypto/stark/src/solidity_verifier.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crypto/stark/src/solidity_verifier.rs b/crypto/stark/src/solidity_verifier.rs
index d45dbfc..09eb6a3 100644
--- a/crypto/stark/src/solidity_verifier.rs
+++ b/crypto/stark/src/solidity_verifier.rs
@@ -558,8 +558,14 @@ fn autogen_oods_contract(
         .max()
         .expect("No constraints");
 
-    let trace_contract =
-        autogen_trace_layout(&trace_keys, n_cols, max_degree, blowup, system_name)?;
+    // The prover splits the combined constraint polynomial in a power of two parts
+    let trace_contract = autogen_trace_layout(
+        &trace_keys,
+        n_cols,
+        max_degree.next_power_of_two(),
+        blowup,
+        system_name,
+    )?;
 
     // TODO - Variable naming
     let name = format!("{}/{}Trace.sol", output_directory, system_name);
-- 
2.43.0


From d4e83f8afe710915060e6c0b8cf71ebb3023a027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:20 +0000
Subject: [PATCH 33/36] fix: read_many_bytes32 of the public coin contract
 returns what it read

---
 crypto/stark-verifier-ethereum/contracts/public_coin.sol | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crypto/stark-verifier-ethereum/contracts/public_coin.sol b/crypto/stark-verifier-ethereum/contracts/public_coin.sol
index 0557472..239e530 100644
--- a/crypto/stark-verifier-ethereum/contracts/public_coin.sol
+++ b/crypto/stark-verifier-ethereum/contracts/public_coin.sol
@@ -78,6 +78,7 @@ library PublicCoin {
         for (uint256 i = 0; i < how_many; i++) {
             result[i] = read_bytes32(coin);
         }
+        return result;
     }
 
     // Adds a new coin with the starting bytes of data hashed to form the digest.
-- 
2.43.0


From 33b86fb2d53e852753c7e6168b752d21ce5f5bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:27 +0000
Subject: [PATCH 34/36] fix: the merkle verifier contract accepts the proof of
 a single odd leaf

---
 crypto/stark-verifier-ethereum/contracts/merkle.sol | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crypto/stark-verifier-ethereum/contracts/merkle.sol b/crypto/stark-verifier-ethereum/contracts/merkle.sol
index 593ed07..c2fd9bc 100644
--- a/crypto/stark-verifier-ethereum/contracts/merkle.sol
+++ b/crypto/stark-verifier-ethereum/contracts/merkle.sol
@@ -58,8 +58,10 @@ contract MerkleVerifier is Trace {
                 }
 
                 // Check if the next index in the ring is the right sibbling.
-                // `index | 1` turns index into the right sibbling (no-op if it already is)
-                switch eq(or(index, 1), mload(add(indices, read_index)))
+                // `index ^ 1` turns a left index into its right sibbling. The left sibbling of a
+                // right index is never next in the ring (if there is only a single leaf, the
+                // next in the ring is the leaf itself).
+                switch eq(xor(index, 1), mload(add(indices, read_index)))
                 case 0 {
                     // No merge with right sibbling, read a decommitment
                     // Decommitment goes in left or right, opposite of the index bit.
-- 
2.43.0


From 3b3d8330be739ea727edcd59e7a546cf06b1d3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:33 +0000
Subject: [PATCH 35/36] Allow the atomics of the logging allocator to be
 scheduled in verification builds

---
 utils/logging-allocator/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils/logging-allocator/src/lib.rs b/utils/logging-allocator/src/lib.rs
index 4d9b89c..5c90a31 100644
--- a/utils/logging-allocator/src/lib.rs
+++ b/utils/logging-allocator/src/lib.rs
@@ -39,6 +39,11 @@
 // rand_xoshiro v0.4.0 is required for a zkp-stark example and v0.3.1 for criterion
 #![allow(clippy::multiple_crate_versions)]
 
+// Verification builds replace `std` by a stand-in that re-exports it with
+// atomics that run under a controlled scheduler.
+#[cfg(openzkp_verif)]
+extern crate rayon as std;
+
 mod logging_allocator;
 mod size_bytes;
 
-- 
2.43.0


From 6122f038ce8003889f0ba54a70f2da952661ad57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:11 +0000
Subject: [PATCH 36/36] fix: refuse capacities of MmapVec that overflow instead
 of mapping too little memory

---
 utils/mmap-vec/src/mmap_vec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/mmap-vec/src/mmap_vec.rs b/utils/mmap-vec/src/mmap_vec.rs
index b8b6658..99a0e97 100644
--- a/utils/mmap-vec/src/mmap_vec.rs
+++ b/utils/mmap-vec/src/mmap_vec.rs
@@ -34,7 +34,10 @@ impl<T: Clone> MmapVec<T> {
     pub fn with_capacity(capacity: usize) -> Self {
         // TODO: Round up to nearest 4KB
         // Note: mmaped files can not be empty, so we use at leas one byte.
-        let size = max(1, capacity * size_of::<T>());
+        let size = capacity
+            .checked_mul(size_of::<T>())
+            .expect("MmapVec capacity overflow");
+        let size = max(1, size);
         trace!("Allocating {} MB in anonymous mmap", size / 1_000_000);
         let mmap = MmapOptions::new()
             .len(size)
-- 
2.43.0

