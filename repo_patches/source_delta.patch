From 976272d2966d15d77e77b556abf7dac19b17bc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:48 +0000
Subject: [PATCH 01/16] fix: Knuth division when the two leading limbs equal
 those of the divisor

div_3by2 required [n2 n1] < [d1 d0], but for divisors of three or four limbs the
leading two limbs of the running remainder can equal those of the divisor.
Debug builds panicked; release builds produced a wrong quotient digit.
---
 algebra/u256/src/arch/generic/knuth_division.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/algebra/u256/src/arch/generic/knuth_division.rs b/algebra/u256/src/arch/generic/knuth_division.rs
index 00fbee2..e9a720a 100644
--- a/algebra/u256/src/arch/generic/knuth_division.rs
+++ b/algebra/u256/src/arch/generic/knuth_division.rs
@@ -52,8 +52,14 @@ fn div_3by2(n: &[u64; 3], d: &[u64; 2]) -> u64 {
     // The highest bit of d needs to be set
     debug_assert!(d[1] >> 63 == 1);
 
-    // The quotient needs to fit u64. For this we need [n2 n1] < [d1 d0]
-    debug_assert!(val_2(n[1], n[2]) < val_2(d[0], d[1]));
+    // In long division the leading digits never exceed those of the divisor
+    debug_assert!(val_2(n[1], n[2]) <= val_2(d[0], d[1]));
+
+    // The quotient fits u64 only if [n2 n1] < [d1 d0]. When they are equal (which
+    // happens for divisors of three or more limbs) the digit is the largest one.
+    if n[2] == d[1] && n[1] == d[0] {
+        return 0xffff_ffff_ffff_ffff_u64;
+    }
 
     if n[2] == d[1] {
         // From [n2 n1] < [d1 d0] and n2 = d1 it follows that n[1] < d[0].
-- 
2.43.0


From 7e0517bf189ae51440e7c5cd7cf249164bac3105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:48 +0000
Subject: [PATCH 02/16] fix: the sum of an iterator of U256 starts at zero, not
 one

---
 algebra/u256/src/additive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/u256/src/additive.rs b/algebra/u256/src/additive.rs
index 822111f..ad9a87d 100644
--- a/algebra/u256/src/additive.rs
+++ b/algebra/u256/src/additive.rs
@@ -104,7 +104,7 @@ impl Neg for &U256 {
 
 impl core::iter::Sum for U256 {
     fn sum<I: Iterator<Item = U256>>(iter: I) -> Self {
-        iter.fold(Self::ONE, Add::add)
+        iter.fold(Self::ZERO, Add::add)
     }
 }
 
-- 
2.43.0


From 5e0dfd75bcbb8ae38a88e532c3916bffb10ddb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:55 +0000
Subject: [PATCH 03/16] fix: decimal parsing rejects 2^256 and above and
 non-ASCII text without panicking

---
 algebra/u256/src/encoding.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algebra/u256/src/encoding.rs b/algebra/u256/src/encoding.rs
index b810af5..af5dbfe 100644
--- a/algebra/u256/src/encoding.rs
+++ b/algebra/u256/src/encoding.rs
@@ -25,12 +25,12 @@ impl U256 {
         // TODO: Implement as trait
         // OPT: Convert 19 digits at a time using u64.
         let mut result = Self::ZERO;
-        for (i, _c) in s.chars().enumerate() {
-            if result > max10 {
+        for (i, c) in s.char_indices() {
+            if result >= max10 {
                 return Err(ParseError::Overflow);
             }
             result *= Self::from(10_u64);
-            let digit = Self::from(u64::from_str_radix(&s[i..=i], 10)?);
+            let digit = Self::from(u64::from_str_radix(&s[i..i + c.len_utf8()], 10)?);
             if &result + &digit < result {
                 return Err(ParseError::Overflow);
             }
-- 
2.43.0


From 8deae18a77e9c328bccbd7b31f72d0c29c092d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:27 +0000
Subject: [PATCH 04/16] fix: mixed Jacobian-affine addition compares y
 coordinates when x agrees

---
 algebra/elliptic-curve/src/jacobian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/elliptic-curve/src/jacobian.rs b/algebra/elliptic-curve/src/jacobian.rs
index 0dc9d4f..a6a761c 100644
--- a/algebra/elliptic-curve/src/jacobian.rs
+++ b/algebra/elliptic-curve/src/jacobian.rs
@@ -193,7 +193,7 @@ impl AddAssign<&Affine> for Jacobian {
                 let u2 = x * &z1z1;
                 let s2 = y * &self.z * &z1z1;
                 if self.x == u2 {
-                    return if self.x == s2 {
+                    return if self.y == s2 {
                         self.double_assign()
                     } else {
                         *self = Self::ZERO
-- 
2.43.0


From 5f9120dce368f787368643c9496ea1482c4663d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:27 +0000
Subject: [PATCH 05/16] fix: double_mul takes the sign of the first scalar's
 digit from the first scalar

---
 algebra/elliptic-curve/src/wnaf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/elliptic-curve/src/wnaf.rs b/algebra/elliptic-curve/src/wnaf.rs
index c3e2f76..b451bd0 100644
--- a/algebra/elliptic-curve/src/wnaf.rs
+++ b/algebra/elliptic-curve/src/wnaf.rs
@@ -171,7 +171,7 @@ pub fn double_mul(
         r.double_assign();
         if snaf_expansion_a[i] > 0 {
             r += &naf_table_a[(snaf_expansion_a[i] >> 1) as usize];
-        } else if snaf_expansion_b[i] < 0 {
+        } else if snaf_expansion_a[i] < 0 {
             r -= &naf_table_a[(-snaf_expansion_a[i] >> 1) as usize];
         }
         if snaf_expansion_b[i] > 0 {
-- 
2.43.0


From 7246765b280a8cbe366e51bab904c0c79ff8e2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:27 +0000
Subject: [PATCH 06/16] fix: batch conversion to affine handles the point at
 infinity instead of panicking

---
 algebra/elliptic-curve/src/wnaf.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/algebra/elliptic-curve/src/wnaf.rs b/algebra/elliptic-curve/src/wnaf.rs
index b451bd0..f01334f 100644
--- a/algebra/elliptic-curve/src/wnaf.rs
+++ b/algebra/elliptic-curve/src/wnaf.rs
@@ -6,7 +6,7 @@ use std::prelude::v1::*;
 
 use crate::{curve::Affine, jacobian::Jacobian, ScalarFieldElement};
 use itertools::izip;
-use zkp_primefield::{FieldElement, Inv, One, SquareInline};
+use zkp_primefield::{FieldElement, Inv, One, SquareInline, Zero};
 use zkp_u256::{Binary, U256};
 
 pub(crate) fn window_table(p: &Affine, naf: &mut [Jacobian]) {
@@ -41,10 +41,11 @@ pub(crate) fn batch_convert(jacobians: &[Jacobian], affines: &mut [Affine]) {
     let mut acc = FieldElement::one();
     // OPT: Check if `izip!` has overhead
     for (jac, val) in izip!(jacobians.iter(), vals.iter_mut()) {
-        // TODO: Handle zeros
         // OPT: First mul is with one, can be removed
         *val = acc.clone();
-        acc *= &jac.z;
+        if !jac.z.is_zero() {
+            acc *= &jac.z;
+        }
     }
 
     // Invert accumulator
@@ -53,6 +54,12 @@ pub(crate) fn batch_convert(jacobians: &[Jacobian], affines: &mut [Affine]) {
 
     // Compute inverses and affine points
     for (jac, val, aff) in izip!(jacobians.iter(), vals.into_iter(), affines.iter_mut()).rev() {
+        // The point at infinity has no inverse and was not accumulated
+        if jac.z.is_zero() {
+            *aff = Affine::ZERO;
+            continue;
+        }
+
         // Compute zi
         // OPT: Last mul is with one, can be removed
         let zi = &acc * val;
-- 
2.43.0


From 1b058917132c463fdecfa2eef7dcc435620dd804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:27 +0000
Subject: [PATCH 07/16] fix: striding a geometric series keeps its last
 element, skipping past the end yields an empty series

---
 algebra/primefield/src/geometric_series.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algebra/primefield/src/geometric_series.rs b/algebra/primefield/src/geometric_series.rs
index cb785d1..fbc216c 100644
--- a/algebra/primefield/src/geometric_series.rs
+++ b/algebra/primefield/src/geometric_series.rs
@@ -33,7 +33,7 @@ where
 
     pub fn skip(mut self, n: usize) -> Self {
         self.current *= self.step.pow(n);
-        self.length -= n;
+        self.length = self.length.saturating_sub(n);
         self
     }
 
@@ -46,7 +46,8 @@ where
     pub fn step_by(mut self, step: usize) -> Self {
         assert!(step > 0);
         self.step = self.step.pow(step);
-        self.length /= step;
+        // Round up: the first element is always included.
+        self.length = self.length / step + (self.length % step != 0) as usize;
         self
     }
 }
-- 
2.43.0


From 924fbfdc9915e8a4edca19bb639f64e085cbb99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:48 +0000
Subject: [PATCH 08/16] fix: field elements convert from and to the most
 negative signed integers

---
 algebra/primefield/src/convert.rs | 41 ++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/algebra/primefield/src/convert.rs b/algebra/primefield/src/convert.rs
index 2d21ae7..fe1f33b 100644
--- a/algebra/primefield/src/convert.rs
+++ b/algebra/primefield/src/convert.rs
@@ -5,15 +5,20 @@ use zkp_u256::U256;
 
 // TODO: Move upstream to `num_traits`
 pub trait MaybeSigned {
+    /// Type for the absolute value
+    type Abs;
+
     /// True if negative
-    fn as_sign_abs(self) -> (bool, Self);
+    fn as_sign_abs(self) -> (bool, Self::Abs);
 }
 
 macro_rules! maybe_unsigned {
     ($type:ident) => {
         impl MaybeSigned for $type {
+            type Abs = Self;
+
             #[inline(always)]
-            fn as_sign_abs(self) -> (bool, Self) {
+            fn as_sign_abs(self) -> (bool, Self::Abs) {
                 (false, self)
             }
         }
@@ -21,14 +26,18 @@ macro_rules! maybe_unsigned {
 }
 
 macro_rules! maybe_signed {
-    ($type:ident) => {
+    ($type:ident, $abs:ident) => {
         impl MaybeSigned for $type {
+            type Abs = $abs;
+
+            // The absolute value fits the unsigned type, also for the minimum.
+            #[allow(clippy::cast_sign_loss)]
             #[cfg_attr(feature = "inline", inline(always))]
-            fn as_sign_abs(self) -> (bool, Self) {
+            fn as_sign_abs(self) -> (bool, Self::Abs) {
                 if self >= 0 {
-                    (false, self)
+                    (false, self as $abs)
                 } else {
-                    (true, -self)
+                    (true, self.wrapping_neg() as $abs)
                 }
             }
         }
@@ -43,12 +52,12 @@ maybe_unsigned!(u128);
 maybe_unsigned!(U256);
 maybe_unsigned!(usize);
 
-maybe_signed!(i8);
-maybe_signed!(i16);
-maybe_signed!(i32);
-maybe_signed!(i64);
-maybe_signed!(i128);
-maybe_signed!(isize);
+maybe_signed!(i8, u8);
+maybe_signed!(i16, u16);
+maybe_signed!(i32, u32);
+maybe_signed!(i64, u64);
+maybe_signed!(i128, u128);
+maybe_signed!(isize, usize);
 
 // HACK: Ideally we implement two generic traits based on the `Signed` and
 // `Unsigned` traits. but this leads to conflicting implementations and is
@@ -56,7 +65,7 @@ maybe_signed!(isize);
 
 impl<U, P, Other> From<Other> for PrimeField<P>
 where
-    U: UInt + From<Other>,
+    U: UInt + From<<Other as MaybeSigned>::Abs>,
     P: Parameters<UInt = U>,
     Other: MaybeSigned,
 {
@@ -88,7 +97,11 @@ where
             // UInt should not have interior mutability
             #[allow(clippy::borrow_interior_mutable_const)]
             let val = P::MODULUS.sub(&val);
-            val.to_i128().and_then(i128::checked_neg)
+            // The most negative value has no positive counterpart in `i128`.
+            #[allow(clippy::cast_possible_wrap)]
+            val.to_u128()
+                .filter(|abs| *abs <= 1 << 127)
+                .map(|abs| (abs as i128).wrapping_neg())
         }
     }
 
-- 
2.43.0


From 83b2b066b641b0eff572a8ed6b070ac5e0de6b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:24 +0000
Subject: [PATCH 09/16] fix: MmapVec never drops uninitialised or already
 dropped slots and drops its elements

---
 utils/mmap-vec/src/mmap_vec.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/utils/mmap-vec/src/mmap_vec.rs b/utils/mmap-vec/src/mmap_vec.rs
index 3affb39..63091b0 100644
--- a/utils/mmap-vec/src/mmap_vec.rs
+++ b/utils/mmap-vec/src/mmap_vec.rs
@@ -14,7 +14,7 @@ use std::{
     marker::PhantomData,
     mem::size_of,
     ops::{Deref, DerefMut},
-    ptr::drop_in_place,
+    ptr::{self, drop_in_place},
     slice,
 };
 
@@ -77,8 +77,14 @@ impl<T: Clone> MmapVec<T> {
             panic!("MmapVec is at capacity")
         }
         let end = self.length;
+        #[allow(unsafe_code)]
+        unsafe {
+            // The slot at `end` is within capacity and does not hold a live value:
+            // it is either uninitialized or was dropped by `truncate`. Move the
+            // value in without dropping the previous contents.
+            ptr::write((self.mmap.as_mut_ptr() as *mut T).add(end), next);
+        }
         self.length += 1;
-        self[end] = next;
     }
 
     pub fn clear(&mut self) {
@@ -112,16 +118,16 @@ impl<T: Clone> MmapVec<T> {
         while self.length < size {
             self.push(fill.clone());
         }
-        self.length = size;
+        self.truncate(size);
     }
 
     pub fn extend_from_slice(&mut self, slice: &[T]) {
         if self.length + slice.len() > self.capacity {
             panic!("MmapVec would grow beyond capacity")
         }
-        let start = self.length;
-        self.length += slice.len();
-        self.as_mut_slice()[start..].clone_from_slice(slice);
+        for element in slice {
+            self.push(element.clone());
+        }
     }
 
     #[inline]
@@ -137,6 +143,12 @@ impl<T: Clone> MmapVec<T> {
     }
 }
 
+impl<T: Clone> Drop for MmapVec<T> {
+    fn drop(&mut self) {
+        self.clear()
+    }
+}
+
 impl<T: Clone + PartialEq> PartialEq for MmapVec<T> {
     fn eq(&self, other: &Self) -> bool {
         if self.len() != other.len() {
-- 
2.43.0


From 806699251d9d6adacbb162dfc7f43038b7476824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:47 +0000
Subject: [PATCH 10/16] fix: MmapVec capacity in bytes is computed without
 wrapping

---
 utils/mmap-vec/src/mmap_vec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/mmap-vec/src/mmap_vec.rs b/utils/mmap-vec/src/mmap_vec.rs
index 63091b0..39e0fb0 100644
--- a/utils/mmap-vec/src/mmap_vec.rs
+++ b/utils/mmap-vec/src/mmap_vec.rs
@@ -34,7 +34,10 @@ impl<T: Clone> MmapVec<T> {
     pub fn with_capacity(capacity: usize) -> Self {
         // TODO: Round up to nearest 4KB
         // Note: mmaped files can not be empty, so we use at leas one byte.
-        let size = max(1, capacity * size_of::<T>());
+        let size = capacity
+            .checked_mul(size_of::<T>())
+            .expect("MmapVec capacity overflow");
+        let size = max(1, size);
         trace!("Allocating {} MB in anonymous mmap", size / 1_000_000);
         let mmap = MmapOptions::new()
             .len(size)
-- 
2.43.0


From e7722b096eada0e695466ec479e91db99a12edba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:47 +0000
Subject: [PATCH 11/16] fix: Merkle proof verification requires the claimed
 leaves to be those the proof opens

---
 crypto/merkle-tree/src/proof.rs  | 7 ++++++-
 crypto/merkle-tree/src/result.rs | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/crypto/merkle-tree/src/proof.rs b/crypto/merkle-tree/src/proof.rs
index 6a8a9ed..00ef919 100644
--- a/crypto/merkle-tree/src/proof.rs
+++ b/crypto/merkle-tree/src/proof.rs
@@ -45,7 +45,6 @@ impl Proof {
 
     pub fn verify<Leaf: Hashable>(&self, leafs: &[(usize, Leaf)]) -> Result<()> {
         // TODO: Pass leafs by reference?
-        // TODO: Check if the indices line up.
 
         // Construct the leaf nodes
         let mut nodes = leafs
@@ -65,6 +64,12 @@ impl Proof {
             Error::DuplicateLeafMismatch
         );
         nodes.dedup_by_key(|(index, _)| *index);
+        // The claimed leaves must be exactly the leaves that this proof opens
+        let indices = self.commitment.sort_indices(&self.indices)?;
+        require!(
+            nodes.iter().map(|(index, _)| index).eq(indices.iter()),
+            Error::LeafIndexMismatch
+        );
         let mut nodes: VecDeque<(Index, Hash)> = nodes.into_iter().collect();
 
         // Create a mutable closure to pop hashes from the list
diff --git a/crypto/merkle-tree/src/result.rs b/crypto/merkle-tree/src/result.rs
index 4d222bc..f07bba3 100644
--- a/crypto/merkle-tree/src/result.rs
+++ b/crypto/merkle-tree/src/result.rs
@@ -10,6 +10,7 @@ pub enum Error {
     IndexOutOfRange,
     IndicesUnsortedOrDuplicate,
     DuplicateLeafMismatch,
+    LeafIndexMismatch,
     NotEnoughHashes,
     RootHashMismatch,
 }
@@ -26,6 +27,7 @@ impl fmt::Display for Error {
             IndexOutOfRange => write!(f, "Index out of range"),
             IndicesUnsortedOrDuplicate => write!(f, "Indices are unsorted or duplicate"),
             DuplicateLeafMismatch => write!(f, "Duplicate leaf mismatch"),
+            LeafIndexMismatch => write!(f, "Leaf indices don't match the proof"),
             NotEnoughHashes => write!(f, "Not enough hashes to verify proof"),
             RootHashMismatch => write!(f, "Verification failed since root hashes don't match"),
         }
-- 
2.43.0


From 4a44cf7ffdaf4deac814f3554de5e0203f91eb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:47 +0000
Subject: [PATCH 12/16] fix: checking an inverse expression evaluates to the
 inverse

---
 crypto/stark/src/rational_expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/stark/src/rational_expression.rs b/crypto/stark/src/rational_expression.rs
index 5f2bdec..6f3fcb0 100644
--- a/crypto/stark/src/rational_expression.rs
+++ b/crypto/stark/src/rational_expression.rs
@@ -268,7 +268,7 @@ impl RationalExpression {
                     if res_a == FieldElement::zero() {
                         (FieldElement::one(), false)
                     } else {
-                        (res_a, true)
+                        (res_a.inv().expect("divided by zero"), true)
                     }
                 } else {
                     match *(a.clone()) {
-- 
2.43.0


From 556f27ea8b5dedea1775228f87727b20b07ac29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:47 +0000
Subject: [PATCH 13/16] fix: a specified constraint is checked at its own row

---
 crypto/stark/src/constraint_check.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/crypto/stark/src/constraint_check.rs b/crypto/stark/src/constraint_check.rs
index 27a7367..70f3893 100644
--- a/crypto/stark/src/constraint_check.rs
+++ b/crypto/stark/src/constraint_check.rs
@@ -71,12 +71,7 @@ pub(crate) fn check_specific_constraint(
     which_constraint: usize,
 ) -> bool {
     let trace_generator = FieldElement::root(table.num_rows()).unwrap();
-    let x;
-    if row == 0 {
-        x = FieldElement::one();
-    } else {
-        x = trace_generator.pow(row - 1)
-    }
+    let x = trace_generator.pow(row);
     let len = table.num_rows();
 
     let trace = |i: usize, j: isize| {
-- 
2.43.0


From 9a243a6f0a004069e9613dd4b53d75322063d1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:47 +0000
Subject: [PATCH 14/16] fix: verifying a truncated proof returns an error
 instead of panicking

---
 crypto/stark/src/channel.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/crypto/stark/src/channel.rs b/crypto/stark/src/channel.rs
index 1b39dfb..57361f7 100644
--- a/crypto/stark/src/channel.rs
+++ b/crypto/stark/src/channel.rs
@@ -97,11 +97,9 @@ impl VerifierChannel {
     // updates the public coin once, with the contents of the entire layer, instead
     // of onces for each FieldElement in the layer.
     pub(crate) fn replay_fri_layer(&mut self, size: usize) -> Vec<FieldElement> {
-        let start_index = self.proof_index;
-        self.proof_index += 32 * size;
-        let layer_contents = &self.proof[start_index..self.proof_index];
-
-        self.coin.write(layer_contents);
+        let mut layer_contents = vec![0_u8; 32 * size];
+        self.read_bytes(&mut layer_contents);
+        self.coin.write(layer_contents.as_slice());
 
         layer_contents
             .chunks_exact(32)
@@ -111,13 +109,19 @@ impl VerifierChannel {
             .collect()
     }
 
+    // Reads the next bytes of the proof. Reading past the end of the proof leaves
+    // the missing bytes as they are and makes `at_end` false.
+    fn read_bytes(&mut self, holder: &mut [u8]) {
+        let from = self.proof_index.min(self.proof.len());
+        let available = holder.len().min(self.proof.len() - from);
+        holder[..available].copy_from_slice(&self.proof[from..from + available]);
+        self.proof_index += holder.len();
+    }
+
     fn read_32_bytes(&mut self) -> [u8; 32] {
         let mut holder = [0_u8; 32];
-        let from = self.proof_index;
-        let to = from + 32;
-        self.proof_index = to;
         // OPT: Use arrayref crate or similar to avoid copy
-        holder.copy_from_slice(&self.proof[from..to]);
+        self.read_bytes(&mut holder);
         self.coin.write(&holder[..]);
         holder
     }
@@ -140,10 +144,7 @@ impl Writable<proof_of_work::Response> for ProverChannel {
 impl Replayable<proof_of_work::Response> for VerifierChannel {
     fn replay(&mut self) -> proof_of_work::Response {
         let mut holder = [0_u8; 8];
-        let from = self.proof_index;
-        let to = from + 8;
-        self.proof_index = to;
-        holder.copy_from_slice(&self.proof[from..to]);
+        self.read_bytes(&mut holder);
         self.coin.write(&holder[..]);
         let nonce = u64::from_be_bytes(holder);
         proof_of_work::Response::from_nonce(nonce)
-- 
2.43.0


From 8aeffad7392011dbc5aba7ae4d30da9412ab9eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:33 +0000
Subject: [PATCH 15/16] fix: the last common ancestor of a node and itself or
 its descendant is that node

---
 crypto/merkle-tree/src/index.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crypto/merkle-tree/src/index.rs b/crypto/merkle-tree/src/index.rs
index caf86cb..9c0c4be 100644
--- a/crypto/merkle-tree/src/index.rs
+++ b/crypto/merkle-tree/src/index.rs
@@ -169,8 +169,11 @@ impl Index {
         let a = self.0 << self.0.leading_zeros();
         let b = other.0 << other.0.leading_zeros();
 
-        // Extract the longest common prefix
-        let prefix_length = (a ^ b).leading_zeros();
+        // Extract the longest common prefix (at most the shorter of both paths)
+        let prefix_length = (a ^ b)
+            .leading_zeros()
+            .min(0_usize.count_zeros() - self.0.leading_zeros())
+            .min(0_usize.count_zeros() - other.0.leading_zeros());
         let prefix = a >> (0_usize.count_zeros() - prefix_length);
         Self(prefix)
     }
-- 
2.43.0


From d672847e52f8d1106748bdc2de872c3ccb1d157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:22 +0000
Subject: [PATCH 16/16] fix: degree bound of a polynomial of an expression with
 a dominant denominator

P(n / d) has a numerator of degree deg(P) * max(deg n, deg d); with
deg n < deg d the bound was too low, and proving a satisfied claim failed.
---
 crypto/stark/src/rational_expression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/stark/src/rational_expression.rs b/crypto/stark/src/rational_expression.rs
index 6f3fcb0..1786527 100644
--- a/crypto/stark/src/rational_expression.rs
+++ b/crypto/stark/src/rational_expression.rs
@@ -171,11 +171,11 @@ impl RationalExpression {
             Trace(..) => (trace_degree, 0),
             Polynomial(p, a) => {
                 let (n, d) = a.degree_impl(x_degree, trace_degree);
-                (p.degree() * n, p.degree() * d)
+                (p.degree() * std::cmp::max(n, d), p.degree() * d)
             }
             ClaimPolynomial(_, degree_bound, a, _) => {
                 let (n, d) = a.degree_impl(x_degree, trace_degree);
-                (degree_bound * n, degree_bound * d)
+                (degree_bound * std::cmp::max(n, d), degree_bound * d)
             }
             Add(a, b) => {
                 let (a_numerator, a_denominator) = a.degree_impl(x_degree, trace_degree);
-- 
2.43.0

