From 7b1779df5168576cf73df0308e857bfaf28c3ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 01/63] fix: polynomial equality compares the leading
 coefficient

---
 sunscreen_math/src/poly/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_math/src/poly/mod.rs b/sunscreen_math/src/poly/mod.rs
index 57fda40..aaecc73 100644
--- a/sunscreen_math/src/poly/mod.rs
+++ b/sunscreen_math/src/poly/mod.rs
@@ -43,7 +43,7 @@ where
             return false;
         }
 
-        for i in 0..lhs_degree {
+        for i in 0..=lhs_degree {
             if self.coeffs[i] != other.coeffs[i] {
                 return false;
             }
-- 
2.43.0


From 8d1ecf30ee58b91f088ed5ef4b277c04e92a8ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 02/63] fix: polynomial division panics on the divisors it
 documents as unsupported

---
 sunscreen_math/src/poly/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sunscreen_math/src/poly/mod.rs b/sunscreen_math/src/poly/mod.rs
index aaecc73..8028a2d 100644
--- a/sunscreen_math/src/poly/mod.rs
+++ b/sunscreen_math/src/poly/mod.rs
@@ -117,15 +117,21 @@ where
     pub fn vartime_div_rem_restricted_rhs(&self, rhs: &Self) -> (Self, Self) {
         let mut rem = self.clone();
 
+        // Will panic if rhs is `Self::zero()`
+        let rhs_degree = rhs.vartime_degree();
+
+        assert_eq!(
+            rhs.coeffs[rhs_degree],
+            R::one(),
+            "The divisor's leading coefficient must be one."
+        );
+
         if self.vartime_is_zero() {
             return (Self::zero(), Self::zero());
         }
 
         let lhs_degree = self.vartime_degree();
 
-        // Will panic if rhs is `Self::zero()`
-        let rhs_degree = rhs.vartime_degree();
-
         // If the denominator is higher degree than the numerator, then we're done.
         if lhs_degree < rhs_degree {
             return (Self::zero(), rem);
-- 
2.43.0


From 0b6a465da00b5c34e82744819334e812eea80219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 03/63] fix: counting combinations does not overflow on
 intermediate products

---
 sunscreen_math/src/combination.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sunscreen_math/src/combination.rs b/sunscreen_math/src/combination.rs
index 683fe5f..2672c8b 100644
--- a/sunscreen_math/src/combination.rs
+++ b/sunscreen_math/src/combination.rs
@@ -38,9 +38,11 @@ fn number_combinations(n: usize, mut k: usize) -> usize {
         k = n - k;
     }
 
-    let mut result = 1;
+    let mut result = 1usize;
     for i in 1..=k {
-        result = result * (n - k + i) / i;
+        // The intermediate product may exceed a usize even when the result doesn't.
+        let next = result as u128 * (n - k + i) as u128 / i as u128;
+        result = usize::try_from(next).expect("number of combinations overflows a usize");
     }
 
     result
-- 
2.43.0


From 005e17ad68663bd074a85828a455cfbba9e3aefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 04/63] fix: security level lookup accepts dimensions down to
 the documented 368

---
 sunscreen_math/src/security.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_math/src/security.rs b/sunscreen_math/src/security.rs
index 53dcfbc..0aa575e 100644
--- a/sunscreen_math/src/security.rs
+++ b/sunscreen_math/src/security.rs
@@ -246,7 +246,7 @@ pub fn lwe_std_to_security_level(dimension: usize, std: f64) -> SecurityLevelRes
 
     let std_polytope = ConvexPolytope2D {
         half_spaces: vec![
-            HalfSpace2D::new((-1.0, 0.0), -386.0),
+            HalfSpace2D::new((-1.0, 0.0), -368.0),
             HalfSpace2D::new((1.0, 0.0), 2048.0),
             // Half spaces to define the general region where the standard deviation is valid.
             HalfSpace2D::new((-0.012501482876757172, -1.0), -0.5040411014606384),
-- 
2.43.0


From b39f476f109db3eb1a17997c6b889b9dbd862c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:54 +0000
Subject: [PATCH 05/63] fix: a refused AtomicRefCell borrow leaves the borrow
 state untouched

---
 parasol_concurrency/src/lib.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/parasol_concurrency/src/lib.rs b/parasol_concurrency/src/lib.rs
index b3ba051..be972ba 100644
--- a/parasol_concurrency/src/lib.rs
+++ b/parasol_concurrency/src/lib.rs
@@ -73,15 +73,20 @@ impl<T> AtomicRefCell<T> {
     /// # Panics
     /// If the underlying value is already mutably borrowed.
     pub fn borrow(&self) -> Ref<T> {
-        let old = self.state.fetch_add(1, Ordering::Acquire);
-
-        if old == 0 {
-            panic!("AtomicRefCell already borrowed as mut");
-        }
+        // A refused borrow must leave the state untouched, or it would release (or corrupt) the
+        // borrows that are in force.
+        let result = self
+            .state
+            .fetch_update(Ordering::Acquire, Ordering::Relaxed, |old| {
+                (old != 0 && old < usize::MAX / 2).then(|| old + 1)
+            });
 
-        if old >= usize::MAX / 2 {
-            self.state.fetch_sub(1, Ordering::Acquire);
-            panic!("AtomicRefCell says I think you have enough references, buddy.");
+        match result {
+            Ok(_) => {}
+            Err(0) => panic!("AtomicRefCell already borrowed as mut"),
+            Err(_) => {
+                panic!("AtomicRefCell says I think you have enough references, buddy.")
+            }
         }
 
         Ref {
-- 
2.43.0


From c72cc485301506c6054793393629b311bb18655c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:19 +0000
Subject: [PATCH 06/63] Revert "fix: security level lookup accepts dimensions
 down to the documented 368"

This reverts commit 005e17ad68663bd074a85828a455cfbba9e3aefa.
---
 sunscreen_math/src/security.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_math/src/security.rs b/sunscreen_math/src/security.rs
index 0aa575e..53dcfbc 100644
--- a/sunscreen_math/src/security.rs
+++ b/sunscreen_math/src/security.rs
@@ -246,7 +246,7 @@ pub fn lwe_std_to_security_level(dimension: usize, std: f64) -> SecurityLevelRes
 
     let std_polytope = ConvexPolytope2D {
         half_spaces: vec![
-            HalfSpace2D::new((-1.0, 0.0), -368.0),
+            HalfSpace2D::new((-1.0, 0.0), -386.0),
             HalfSpace2D::new((1.0, 0.0), 2048.0),
             // Half spaces to define the general region where the standard deviation is valid.
             HalfSpace2D::new((-0.012501482876757172, -1.0), -0.5040411014606384),
-- 
2.43.0


From 09c534f028ee445187bb265de6f444f43ae1b028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 07/63] mc: hook (cfg spf_mc) exposing private tfhe helpers to
 the checkers

---
 sunscreen_tfhe/src/lib.rs      | 10 ++++++++++
 sunscreen_tfhe/src/math/mod.rs |  9 +++++++++
 2 files changed, 19 insertions(+)

diff --git a/sunscreen_tfhe/src/lib.rs b/sunscreen_tfhe/src/lib.rs
index 4b6b40a..c2efd7c 100644
--- a/sunscreen_tfhe/src/lib.rs
+++ b/sunscreen_tfhe/src/lib.rs
@@ -30,6 +30,16 @@ mod macros;
 pub mod rand;
 mod scratch;
 
+/// Access for external checkers to items that are otherwise private; only
+/// present when built with `--cfg spf_mc`.
+#[allow(unexpected_cfgs)]
+#[cfg(spf_mc)]
+pub mod mc_hooks {
+    pub use crate::iteration::*;
+    pub use crate::math::mc_hooks::*;
+    pub use crate::scratch::*;
+}
+
 /// A high-level API for interfacing with TFHE. Allocates, computes with and returns
 /// objects as you would expect from a Rust API.
 pub mod high_level;
diff --git a/sunscreen_tfhe/src/math/mod.rs b/sunscreen_tfhe/src/math/mod.rs
index 4d009b8..8923ff9 100644
--- a/sunscreen_tfhe/src/math/mod.rs
+++ b/sunscreen_tfhe/src/math/mod.rs
@@ -20,6 +20,15 @@ pub use basic::*;
 
 pub(crate) mod simd;
 
+/// Access for external checkers to items that are otherwise private; only
+/// present when built with `--cfg spf_mc`.
+#[allow(unexpected_cfgs)]
+#[cfg(spf_mc)]
+pub mod mc_hooks {
+    pub use super::goldilocks_field::*;
+    pub use super::simd::*;
+}
+
 /// Types where the roots of unity in the given field can be found.
 pub trait RootOfUnity
 where
-- 
2.43.0


From fc9ccce2e2ff13ff65687dce61d5908015dc51fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 08/63] fix: Torus::decode computes its mask in the torus word

The mask was a 32-bit shift, so decoding with 32 or more plaintext bits
dropped most of the message.
---
 sunscreen_tfhe/src/math/torus.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/math/torus.rs b/sunscreen_tfhe/src/math/torus.rs
index e03ad0e..9d5d4ae 100644
--- a/sunscreen_tfhe/src/math/torus.rs
+++ b/sunscreen_tfhe/src/math/torus.rs
@@ -294,7 +294,8 @@ impl<S: TorusOps> Torus<S> {
         assert!(plain_bits.0 < S::BITS);
 
         let round_bit = self.0.wrapping_shr(S::BITS - plain_bits.0 - 1) & S::from(0x1);
-        let mask = S::from((0x1 << plain_bits.0) - 1);
+        let one = <S as sunscreen_math::One>::one();
+        let mask = one.wrapping_shl(plain_bits.0).wrapping_sub(&one);
 
         (self.0.wrapping_shr(S::BITS - plain_bits.0) + round_bit) & mask
     }
-- 
2.43.0


From 2e37dd65b894576ac41aeb93be11fe73d263b3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:56 +0000
Subject: [PATCH 09/63] fix: radix decomposition that keeps every bit of the
 word

RadixDecomposition documents count * radix_log equal to the word size as
valid, but rounding then shifted by -1 (and a word-sized digit by the word
size), which wraps.
---
 sunscreen_tfhe/src/math/radix.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sunscreen_tfhe/src/math/radix.rs b/sunscreen_tfhe/src/math/radix.rs
index 21e71bd..0f4aefa 100644
--- a/sunscreen_tfhe/src/math/radix.rs
+++ b/sunscreen_tfhe/src/math/radix.rs
@@ -33,6 +33,11 @@ impl<S: TorusOps> ScalarRadixIterator<S> {
 
 #[inline(always)]
 fn get_next_digit<S: TorusOps>(cur: &mut S, radix_log: usize) -> S {
+    // A digit as wide as the word is the value itself.
+    if radix_log == S::BITS as usize {
+        return *cur;
+    }
+
     let mask = S::from_u64((0x1u64 << radix_log) - 1);
 
     // Interpreting the digits over [-B/2,B/2) reduces noise by half a bit on average.
@@ -156,6 +161,12 @@ pub fn scale_by_decomposition_factor<S: TorusOps>(
 /// Rounds the given [`Torus`] element and returns the value interpreted as an integer.
 fn round<S: TorusOps>(x: Torus<S>, radix: &RadixDecomposition) -> S {
     let shift = S::BITS as usize - radix.radix_log.0 * radix.count.0;
+
+    // The decomposition keeps every bit, so there is nothing to round.
+    if shift == 0 {
+        return x.inner();
+    }
+
     let round_bit = (x.inner() >> (shift - 1)) & S::from_u64(0x1);
 
     (x.inner() >> shift).wrapping_add(&round_bit)
-- 
2.43.0


From f455b876cd28c14d5810799591f0395c61f46d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:32 +0000
Subject: [PATCH 10/63] fix: div_rounded returns the nearest integer

The remainder was compared with the truncated half of the divisor, so odd
divisors (1 included) rounded up too early and negative operands were
rounded the wrong way.
---
 sunscreen_tfhe/src/math/basic.rs | 38 ++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/sunscreen_tfhe/src/math/basic.rs b/sunscreen_tfhe/src/math/basic.rs
index 19cc422..d978c99 100644
--- a/sunscreen_tfhe/src/math/basic.rs
+++ b/sunscreen_tfhe/src/math/basic.rs
@@ -16,7 +16,31 @@ macro_rules! div_rounded {
                 // inputs in half before overflow.
                 let q = self / divisor;
                 let r = self % divisor;
-                if r >= divisor / 2 { q + 1 } else { q }
+                if r >= divisor - r { q + 1 } else { q }
+            }
+        }
+    };
+}
+
+macro_rules! signed_div_rounded {
+    ($t:ty) => {
+        impl RoundedDiv for $t {
+            #[inline(always)]
+            fn div_rounded(&self, divisor: $t) -> $t {
+                let q = self / divisor;
+                let r = (self % divisor).unsigned_abs();
+
+                // Truncated division rounds towards zero, so rounding moves
+                // the quotient away from zero.
+                if r >= divisor.unsigned_abs() - r {
+                    if (*self < 0) == (divisor < 0) {
+                        q + 1
+                    } else {
+                        q - 1
+                    }
+                } else {
+                    q
+                }
             }
         }
     };
@@ -28,12 +52,12 @@ div_rounded!(u32);
 div_rounded!(u64);
 div_rounded!(u128);
 div_rounded!(usize);
-div_rounded!(i8);
-div_rounded!(i16);
-div_rounded!(i32);
-div_rounded!(i64);
-div_rounded!(i128);
-div_rounded!(isize);
+signed_div_rounded!(i8);
+signed_div_rounded!(i16);
+signed_div_rounded!(i32);
+signed_div_rounded!(i64);
+signed_div_rounded!(i128);
+signed_div_rounded!(isize);
 
 #[cfg(test)]
 mod tests {
-- 
2.43.0


From 6874b431c64e629d020777fa676283d7c2d4e83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 11/63] fix: polynomial_pow_k for even and for very large
 exponents

Even powers map several coefficients to the same index, which have to be
summed (the last one won), and i * k could wrap for large k.
---
 sunscreen_tfhe/src/ops/polynomial/mod.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sunscreen_tfhe/src/ops/polynomial/mod.rs b/sunscreen_tfhe/src/ops/polynomial/mod.rs
index a1b3410..c0cd0b4 100644
--- a/sunscreen_tfhe/src/ops/polynomial/mod.rs
+++ b/sunscreen_tfhe/src/ops/polynomial/mod.rs
@@ -1,4 +1,4 @@
-use std::ops::Mul;
+use std::ops::{Add, Mul};
 
 use crate::{PlaintextBits, Torus, TorusOps, entities::PolynomialRef, simd::VectorOps};
 
@@ -61,13 +61,19 @@ pub fn decode_polynomial<S>(
 /// If p.len() is not a power of 2.
 pub fn polynomial_pow_k<S, T>(p_k: &mut PolynomialRef<S>, p: &PolynomialRef<S>, k: usize)
 where
-    S: Clone + Copy + Mul<T, Output = S>,
+    S: Clone + Copy + Zero + Add<S, Output = S> + Mul<T, Output = S>,
     T: Clone + Copy + One + Zero + WrappingSub<Output = T>,
 {
     assert_eq!(p.len(), p_k.len());
     assert!(p.len().is_power_of_two());
 
     let degree = p.len();
+
+    // X^2N = 1
+    let k = k % (2 * degree);
+
+    p_k.coeffs_mut().fill(S::zero());
+
     let one = T::one();
     let minus_one = T::zero().wrapping_sub(&one);
 
@@ -82,7 +88,8 @@ where
             minus_one
         };
 
-        p_k.coeffs_mut()[i_k] = p.coeffs()[i] * sign;
+        // When k is even, several powers land on the same index.
+        p_k.coeffs_mut()[i_k] = p_k.coeffs()[i_k] + p.coeffs()[i] * sign;
     }
 }
 
-- 
2.43.0


From 76022edfaf8022aae736c9e698e5d778f8712fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 12/63] fix: a rounded right shift by zero places is the
 identity

n - 1 wrapped, so the top bit was added to every coefficient.
---
 sunscreen_tfhe/src/math/simd/scalar.rs      | 9 +++++++++
 sunscreen_tfhe/src/math/simd/x86_64/avx2.rs | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/sunscreen_tfhe/src/math/simd/scalar.rs b/sunscreen_tfhe/src/math/simd/scalar.rs
index aa7d863..ed9340c 100644
--- a/sunscreen_tfhe/src/math/simd/scalar.rs
+++ b/sunscreen_tfhe/src/math/simd/scalar.rs
@@ -135,6 +135,15 @@ pub fn vector_shr_round<S>(c: &mut [S], a: &[S], n: u32)
 where
     S: Clone + Copy + Shr<u32, Output = S> + BitAnd<S, Output = S> + One + WrappingAdd<Output = S>,
 {
+    // Nothing is shifted out, so there is nothing to round.
+    if n == 0 {
+        for (c, a) in c.iter_mut().zip(a.iter()) {
+            *c = *a;
+        }
+
+        return;
+    }
+
     for (c, a) in c.iter_mut().zip(a.iter()) {
         let round_bit = (*a >> (n - 1)) & S::one();
 
diff --git a/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs b/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
index f4cfcd0..00218e1 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
@@ -127,6 +127,15 @@ pub fn vector_mod_pow2_q_f64_u64(c: &mut [u64], a: &[f64], log2_q: u64) {
 #[target_feature(enable = "avx2,fma")]
 #[inline]
 pub fn vector_shr_round(c: &mut [u64], a: &[u64], n: u32) {
+    // Nothing is shifted out, so there is nothing to round.
+    if n == 0 {
+        for (c, a) in c.iter_mut().zip(a.iter()) {
+            *c = *a;
+        }
+
+        return;
+    }
+
     for (c, a) in c.iter_mut().zip(a.iter()) {
         let round_bit = (*a >> (n - 1)) & 0x1;
 
-- 
2.43.0


From b9ace65878ec056afaec9aa586160a06b765d088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 13/63] fix: AVX-512 vector_scalar_mad for every length,
 alignment and CPU

It processed 16 words at a time whatever the length, writing past the end
of shorter vectors, faulted on unaligned slices, and used an AVX512DQ
instruction after only checking for AVX512F.
---
 sunscreen_tfhe/src/math/simd/x86_64/avx512.rs | 24 +++++++++++++------
 sunscreen_tfhe/src/math/simd/x86_64/mod.rs    | 15 +++++++++++-
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/sunscreen_tfhe/src/math/simd/x86_64/avx512.rs b/sunscreen_tfhe/src/math/simd/x86_64/avx512.rs
index ee80f84..ae19ba2 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/avx512.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/avx512.rs
@@ -78,9 +78,19 @@ pub unsafe fn complex_mad_avx_512_unchecked(
     }
 }
 
+/// Compute vector `c += a * s`.
+///
+/// # Remarks
+/// The CPU must support AVX512F and AVX512DQ (for `vpmullq`).
 pub fn vector_scalar_mad(c: &mut [u64], a: &[u64], s: u64) {
     let mut i = 0;
 
+    // The asm below works on whole blocks of 16 words. The rest is done one at a time.
+    let len = usize::min(c.len(), a.len());
+    let blocks_len = len - len % 16;
+
+    crate::simd::scalar::vector_scalar_mad(&mut c[blocks_len..len], &a[blocks_len..len], s);
+
     // Complex<T> is declared as repr(C), so the location of re and im are guaranteed
     // at address offsets 0 and 8 for Complex<f64>. This allows us to treat
     // &[Complex<f64>] as &[f64] for the below asm snippet.
@@ -95,19 +105,19 @@ pub fn vector_scalar_mad(c: &mut [u64], a: &[u64], s: u64) {
     let s_ptr = s.0.as_ptr();
 
     // Each complex is 2 f64 values.
-    while i < c.len() {
+    while i < blocks_len {
         unsafe {
             asm!(
                 // TODO: Move loading s outside the loop.
                 "vmovdqa64 zmm7, [{s_ptr}]",
 
                 // Load 2 __m512d of u64 from a
-                "vmovdqa64 zmm0, [{a_ptr}+8*{i}]",
-                "vmovdqa64 zmm1, [{a_ptr}+8*{i}+64]",
+                "vmovdqu64 zmm0, [{a_ptr}+8*{i}]",
+                "vmovdqu64 zmm1, [{a_ptr}+8*{i}+64]",
 
                 // Load 2 __m512d of u64 from c
-                "vmovdqa64 zmm2, [{c_ptr}+8*{i}]",
-                "vmovdqa64 zmm3, [{c_ptr}+8*{i}+64]",
+                "vmovdqu64 zmm2, [{c_ptr}+8*{i}]",
+                "vmovdqu64 zmm3, [{c_ptr}+8*{i}+64]",
 
                 "vpmullq zmm4, zmm0, zmm7", // multiply 64-bit words in zmm0 and zmm2
                 "vpmullq zmm5, zmm1, zmm7", // multiply 64-bit words in zmm1 and zmm3
@@ -115,8 +125,8 @@ pub fn vector_scalar_mad(c: &mut [u64], a: &[u64], s: u64) {
                 "vpaddq zmm2, zmm2, zmm4", // Add zmm0 scaled by s
                 "vpaddq zmm3, zmm3, zmm5", // Add zmm1 scaled by s
 
-                "vmovdqa64 [{c_ptr}+8*{i}], zmm2",
-                "vmovdqa64 [{c_ptr}+8*{i}+64], zmm3",
+                "vmovdqu64 [{c_ptr}+8*{i}], zmm2",
+                "vmovdqu64 [{c_ptr}+8*{i}+64], zmm3",
 
                 a_ptr = in(reg) a_ptr,
                 c_ptr = in(reg) c_ptr,
diff --git a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
index bf04674..0ac679f 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
@@ -24,6 +24,19 @@ fn avx_512_available() -> bool {
     })
 }
 
+#[inline(always)]
+fn avx_512_dq_available() -> bool {
+    static AVX512_DQ_AVAILABLE: OnceLock<bool> = OnceLock::new();
+
+    *AVX512_DQ_AVAILABLE.get_or_init(|| {
+        if let Some(e) = CpuId::new().get_extended_feature_info() {
+            e.has_avx512dq()
+        } else {
+            false
+        }
+    })
+}
+
 #[inline(always)]
 fn avx2_available() -> bool {
     static AVX2_AVAILABLE: OnceLock<bool> = OnceLock::new();
@@ -174,7 +187,7 @@ impl VectorOps for u64 {
 
     #[inline(always)]
     fn vector_scalar_mad(c: &mut [Self], a: &[Self], s: Self) {
-        if avx_512_available() {
+        if avx_512_available() && avx_512_dq_available() {
             avx512::vector_scalar_mad(c, a, s);
         } else {
             scalar::vector_scalar_mad(c, a, s);
-- 
2.43.0


From 24f601dee4b75367007b6e6d3d3381ec097d6774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:46 +0000
Subject: [PATCH 14/63] fix: u64 vector_sub without AVX2 subtracts

The portable fallback called vector_add.
---
 sunscreen_tfhe/src/math/simd/x86_64/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
index 0ac679f..bea6b79 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
@@ -163,7 +163,7 @@ impl VectorOps for u64 {
         if avx2_available() {
             unsafe { avx2::vector_sub_u64(c, a, b) };
         } else {
-            scalar::vector_add(c, a, b);
+            scalar::vector_sub(c, a, b);
         }
     }
 
-- 
2.43.0


From 549cd690c8db2bd295cd611a7ba01275eb09e368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:46 +0000
Subject: [PATCH 15/63] fix: reduce -q/2 modulo q to itself

-q/2 already lies in [-q/2, q/2). Moving it to q/2 made the conversion to
an integer saturate at q/2 - 1.
---
 sunscreen_tfhe/src/math/simd/scalar.rs      | 2 +-
 sunscreen_tfhe/src/math/simd/x86_64/avx2.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunscreen_tfhe/src/math/simd/scalar.rs b/sunscreen_tfhe/src/math/simd/scalar.rs
index ed9340c..5a7e8fa 100644
--- a/sunscreen_tfhe/src/math/simd/scalar.rs
+++ b/sunscreen_tfhe/src/math/simd/scalar.rs
@@ -110,7 +110,7 @@ pub fn vector_mod_pow2_q_f64<T: FromF64>(c: &mut [T], a: &[f64], log2_q: u64) {
         // point.
         if ifft >= q_div_2 {
             ifft -= q;
-        } else if ifft <= -q_div_2 {
+        } else if ifft < -q_div_2 {
             ifft += q;
         }
 
diff --git a/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs b/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
index 00218e1..98331f8 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
@@ -116,7 +116,7 @@ pub fn vector_mod_pow2_q_f64_u64(c: &mut [u64], a: &[f64], log2_q: u64) {
         // point.
         if ifft >= q_div_2 {
             ifft -= q;
-        } else if ifft <= -q_div_2 {
+        } else if ifft < -q_div_2 {
             ifft += q;
         }
 
-- 
2.43.0


From 769af14cc7242027a0158e7e4f387cf8864013cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:59 +0000
Subject: [PATCH 16/63] fix: packed iterators report exactly how many parts are
 left

---
 sunscreen_tfhe/src/dst.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/dst.rs b/sunscreen_tfhe/src/dst.rs
index ae6ee10..9ee0501 100644
--- a/sunscreen_tfhe/src/dst.rs
+++ b/sunscreen_tfhe/src/dst.rs
@@ -179,7 +179,7 @@ macro_rules! dst_iter {
             impl<'a, T> std::iter::ExactSizeIterator for $t<'a, T> where T: Clone $(+ $t_bounds)* {
                 #[inline(always)]
                 fn len(&self) -> usize {
-                    self.data.len() / self.stride
+                    (self.back_idx + self.stride as i64 - self.front_idx as i64) as usize / self.stride
                 }
             }
 
@@ -203,6 +203,13 @@ macro_rules! dst_iter {
 
                     Some(data)
                 }
+
+                #[inline(always)]
+                fn size_hint(&self) -> (usize, Option<usize>) {
+                    let len = std::iter::ExactSizeIterator::len(self);
+
+                    (len, Some(len))
+                }
             }
 
             impl<'a, T> std::iter::DoubleEndedIterator for $t<'a, T> where T: Clone $(+ $t_bounds)* {
@@ -361,6 +368,13 @@ macro_rules! dst_iter {
 
                     Some(<$item_ref<T> as crate::dst::FromMutSlice<$wrapper_type<T>>>::from_mut_slice(slice))
                 }
+
+                #[inline(always)]
+                fn size_hint(&self) -> (usize, Option<usize>) {
+                    let len = std::iter::ExactSizeIterator::len(self);
+
+                    (len, Some(len))
+                }
             }
 
             impl<'a, T> std::iter::ExactSizeIterator for $t_mut<'a, T> where T: Clone $(+ $t_bounds)* {
-- 
2.43.0


From 20b79278848880131492ab8603af696f88063000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:04 +0000
Subject: [PATCH 17/63] fix: Goldilocks values stay below the prime (new(p),
 negated zero)

---
 sunscreen_tfhe/src/math/goldilocks_field.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunscreen_tfhe/src/math/goldilocks_field.rs b/sunscreen_tfhe/src/math/goldilocks_field.rs
index 915913b..1f8f114 100644
--- a/sunscreen_tfhe/src/math/goldilocks_field.rs
+++ b/sunscreen_tfhe/src/math/goldilocks_field.rs
@@ -36,7 +36,7 @@ impl RootOfUnity for Fg {
 impl Fg {
     /// Returns `x % GOLDILOCKS_PRIME`
     pub fn new(x: u64) -> Self {
-        if x > GOLDILOCKS_PRIME {
+        if x >= GOLDILOCKS_PRIME {
             Self(x - GOLDILOCKS_PRIME)
         } else {
             Self(x)
@@ -139,7 +139,7 @@ impl Neg for Fg {
     type Output = Fg;
 
     fn neg(self) -> Self::Output {
-        Self(GOLDILOCKS_PRIME - self.0)
+        Fg(0) - self
     }
 }
 
-- 
2.43.0


From 0552a2e2a2173f18722c44b7e2c5f1b054a9b297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:04 +0000
Subject: [PATCH 18/63] fix: pow reads each exponent bit once, whatever the
 exponent's width

---
 sunscreen_tfhe/src/math/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/math/mod.rs b/sunscreen_tfhe/src/math/mod.rs
index 8923ff9..e4093e8 100644
--- a/sunscreen_tfhe/src/math/mod.rs
+++ b/sunscreen_tfhe/src/math/mod.rs
@@ -74,7 +74,7 @@ where
         let mut result = U::one();
         let mut power = *self;
 
-        for i in 0..64 {
+        for i in 0..8 * std::mem::size_of::<T>() as u32 {
             if (exp >> i) & T::one() == T::one() {
                 result = result * power
             }
-- 
2.43.0


From f75fd97ddba1fa5abbd21175900984388d838e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 19/63] fix: encrypting into a used GLWE buffer does not add to
 its old body

---
 sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs b/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
index b53e431..38ec73f 100644
--- a/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
+++ b/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
@@ -42,7 +42,7 @@ pub fn encrypt_glwe_ciphertext_secret_generic<S>(
     }
 
     // b = A * S
-    polynomial_add_assign(b, &tmp);
+    b.clone_from_ref(&tmp);
 
     // b = A * S + m
     polynomial_add_assign(b, msg);
-- 
2.43.0


From 0e5d61f20282d0a23c3df37adfa91977e07ffca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 20/63] fix: encrypt_rlev_ciphertext neither prints the message
 nor needs 16 coefficients

---
 sunscreen_tfhe/src/ops/encryption/glev_encryption.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs b/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
index bd0e79f..bd91437 100644
--- a/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
+++ b/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
@@ -155,8 +155,6 @@ pub fn encrypt_rlev_ciphertext<S>(
     for (j, glwe) in rlev_ciphertext.glwe_ciphertexts_mut(params).enumerate() {
         scale_msg_by_gadget_factor(scaled_msg, msg, radix.radix_log.0, j);
 
-        dbg!(&scaled_msg.coeffs()[0..16]);
-
         rlwe_encrypt_public(glwe, scaled_msg, rlwe_public_key, params);
     }
 }
-- 
2.43.0


From 0a6d665f1f20f14213675c6ee37970a368391fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:15 +0000
Subject: [PATCH 21/63] fix: private_functional_keyswitch does not add to the
 output's old content

---
 .../src/ops/keyswitch/private_functional_keyswitch.rs           | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs b/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
index 5a09a6d..a3298f9 100644
--- a/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
+++ b/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
@@ -124,6 +124,8 @@ pub fn private_functional_keyswitch<S: TorusOps>(
 
     let mut ksk_glevs = pfksk.glevs(to_glwe, radix);
 
+    output.clear();
+
     for input in inputs.iter() {
         for i in 0..from_lwe.dim.0 + 1 {
             // Treating the z'th ciphertext as slice of length n + 1 allows us to iterate
-- 
2.43.0


From 8ef38ce0467d85ff6676813c6c531576e38b8fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:15 +0000
Subject: [PATCH 22/63] fix: public_functional_keyswitch hands the map a zeroed
 polynomial, as documented

---
 sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs b/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
index 4c30992..9cac4e0 100644
--- a/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
+++ b/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
@@ -126,6 +126,7 @@ pub fn public_functional_keyswitch<S, F>(
 
         row.fft(glev_fft, to_glwe);
 
+        poly.clear();
         f(poly, lwe_vals);
 
         let decomp = PolynomialRadixIterator::new(poly, decomp_scratch, radix);
@@ -138,6 +139,7 @@ pub fn public_functional_keyswitch<S, F>(
         lwe_vals[j] = *b;
     }
 
+    poly.clear();
     f(poly, lwe_vals);
 
     output_fft.ifft(output, to_glwe);
-- 
2.43.0


From c61e9e79480a8a16d8abf9650032a214d6e26f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:33 +0000
Subject: [PATCH 23/63] fix: multi-function tables with one slot per message
 keep each function at its index

---
 .../src/ops/bootstrapping/programmable_bootstrapping.rs  | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sunscreen_tfhe/src/ops/bootstrapping/programmable_bootstrapping.rs b/sunscreen_tfhe/src/ops/bootstrapping/programmable_bootstrapping.rs
index 1d4f9be..30ce717 100644
--- a/sunscreen_tfhe/src/ops/bootstrapping/programmable_bootstrapping.rs
+++ b/sunscreen_tfhe/src/ops/bootstrapping/programmable_bootstrapping.rs
@@ -176,12 +176,15 @@ pub(crate) fn generate_lut<S, F>(
     }
 
     // Negate the first half of p_0 in the LUT in preparation for it to be
-    // rotated.
-    c[0..stride / 2].iter_mut().for_each(|c| {
+    // rotated. We only rotate by whole groups of functions so each function
+    // stays at its index.
+    let half_stride = stride / 2 / ceil_v * ceil_v;
+
+    c[0..half_stride].iter_mut().for_each(|c| {
         *c = num::traits::WrappingNeg::wrapping_neg(c);
     });
 
-    c.rotate_left(stride / 2);
+    c.rotate_left(half_stride);
 }
 
 /// Programmable bootstrapping with a univariate function.
-- 
2.43.0


From b361e61c15d2453147c1226a8e294e495bd80c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:18 +0000
Subject: [PATCH 24/63] fix: scheme_switch_fft does not add to the output's old
 content

---
 sunscreen_tfhe/src/ops/fft_ops.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sunscreen_tfhe/src/ops/fft_ops.rs b/sunscreen_tfhe/src/ops/fft_ops.rs
index eb47ee8..d177369 100644
--- a/sunscreen_tfhe/src/ops/fft_ops.rs
+++ b/sunscreen_tfhe/src/ops/fft_ops.rs
@@ -264,6 +264,9 @@ fn scheme_switch_glwe_operation<S>(
 
     let a_i = x_i.a(params);
 
+    // The other components must be zero, whatever the output held before.
+    y_i_j.clear();
+
     // Generate encrypted secret key component for this specific GLWE
     update_encrypted_secret_key_component_fft(y_i_j, x_i, j, params);
 
-- 
2.43.0


From a2c1c4550859f24795b18dc495cee9656fce7880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:35 +0000
Subject: [PATCH 25/63] fix: arbitrary_width_borrowing_sub must work at width
 128

The shift by 128 wrapped, so the mask was 0 and every difference was 0.
---
 mux_circuits/src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mux_circuits/src/util.rs b/mux_circuits/src/util.rs
index 2051b18..510ecfb 100644
--- a/mux_circuits/src/util.rs
+++ b/mux_circuits/src/util.rs
@@ -31,7 +31,7 @@ pub fn arbitrary_width_borrowing_sub(
     borrow: u128,
     width: u32,
 ) -> (u128, u128) {
-    let diff_mask = (0x1 << width) - 1;
+    let diff_mask = u128::MAX.checked_shr(u128::BITS - width).unwrap_or(0);
 
     let (diff, borrow) = borrowing_sub(lhs, rhs, borrow != 0);
 
-- 
2.43.0


From f86cd6ff5b405230409581d15205ae3fbf5e1058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:35 +0000
Subject: [PATCH 26/63] fix: try_to_bits must accept values of 64 and more bits

The shift by the width wrapped, so every value but 0 was refused.
---
 mux_circuits/src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mux_circuits/src/util.rs b/mux_circuits/src/util.rs
index 510ecfb..b08273e 100644
--- a/mux_circuits/src/util.rs
+++ b/mux_circuits/src/util.rs
@@ -47,7 +47,7 @@ pub fn arbitrary_width_borrowing_sub(
 pub fn try_to_bits(val: u64, bits: usize) -> Result<Vec<Bit>, Error> {
     let mut result = vec![Bit(false); bits];
 
-    if val >= 0x1 << bits {
+    if bits < u64::BITS as usize && val >= 0x1 << bits {
         return Err(Error::OutOfRange);
     }
 
-- 
2.43.0


From 44d87f234db0782d2a5bc2ed0c8882861ed46000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:42 +0000
Subject: [PATCH 27/63] fix: test_mux_circuit must return the outputs in output
 order

They came back in node order, which differs for circuits whose output nodes were not created in order.
---
 mux_circuits/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mux_circuits/src/lib.rs b/mux_circuits/src/lib.rs
index 6ce161b..37ae328 100644
--- a/mux_circuits/src/lib.rs
+++ b/mux_circuits/src/lib.rs
@@ -506,7 +506,7 @@ pub fn test_mux_circuit(circuit: &MuxCircuit, inputs: &[Bit]) -> Vec<Bit> {
         })
         .collect::<Vec<_>>();
 
-    outputs.sort();
+    outputs.sort_by_key(|(_, idx)| *idx);
     outputs.iter().map(|(x, _)| Bit(data[x.index()])).collect()
 }
 
-- 
2.43.0


From 7bdbfa493d32efba6d0551afd600efc764996626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:32 +0000
Subject: [PATCH 28/63] fix: common subexpression elimination must collapse
 each gate once

A gate fed twice by the same node was collapsed twice, leaving its successors with duplicate inputs, and an edge moved to an already deleted gate panicked.
---
 mux_circuits/src/opt.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/mux_circuits/src/opt.rs b/mux_circuits/src/opt.rs
index 21029ed..57bc1e4 100644
--- a/mux_circuits/src/opt.rs
+++ b/mux_circuits/src/opt.rs
@@ -336,15 +336,24 @@ pub(crate) fn common_subexpression_elimination<O: Operation, E: Clone + Copy + E
         let mut visited_nodes =
             HashMap::<(NodeIndex, Option<NodeIndex>, Option<NodeIndex>, &O), NodeIndex>::new();
 
+        // A child appears once per edge it shares with this node, but must only be
+        // collapsed once.
+        let mut seen_children = HashSet::new();
+        let mut removed_nodes = vec![];
+
         // Look through out immediate children. If we find any of the
         // type that share an edge with another node, consolidate them into
         // one and fix up their outputs.
         for e in query.neighbors_directed(index, Direction::Outgoing) {
+            if !seen_children.insert(e) {
+                continue;
+            }
+
             // Unwrapping is okay because index e is a node in the graph.
             let child_node = query.get_node(e).unwrap();
 
             // Moves all the edges from removed_node to node_to_add and
-            // deleted removed_node
+            // marks removed_node for deletion
             let mut move_edges = |node_to_add, removed_node| {
                 let node_to_add = TransformNodeIndex::NodeIndex(node_to_add);
 
@@ -355,9 +364,7 @@ pub(crate) fn common_subexpression_elimination<O: Operation, E: Clone + Copy + E
                     transforms.push(Transform::AddEdge(node_to_add, edge, *info));
                 }
 
-                transforms.push(Transform::RemoveNode(TransformNodeIndex::NodeIndex(
-                    removed_node,
-                )));
+                removed_nodes.push(removed_node);
             };
 
             let child_op = child_node;
@@ -393,6 +400,12 @@ pub(crate) fn common_subexpression_elimination<O: Operation, E: Clone + Copy + E
             };
         }
 
+        // Delete the collapsed nodes only after moving every edge, as moved edges may
+        // themselves lead to a collapsed node.
+        for n in removed_nodes {
+            transforms.push(Transform::RemoveNode(TransformNodeIndex::NodeIndex(n)));
+        }
+
         Ok::<_, Infallible>(transforms)
     })
     .expect("Traverse closure should be infallible.");
-- 
2.43.0


From 2808036267c2679ffac205c3c4ffb1bc779a2613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:10 +0000
Subject: [PATCH 29/63] fix: give the constant caches an entry for every
 ciphertext kind

CiphertextType::L1GlevCiphertext is 4, so BitNode::<L1GlevCiphertext>::one and zero,
and resizing an unsigned GLEV integer, indexed past the end of the 4-entry caches.
---
 parasol_runtime/src/fluent/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parasol_runtime/src/fluent/mod.rs b/parasol_runtime/src/fluent/mod.rs
index 2eb68b9..dbded84 100644
--- a/parasol_runtime/src/fluent/mod.rs
+++ b/parasol_runtime/src/fluent/mod.rs
@@ -50,8 +50,8 @@ pub use uint::*;
 pub struct FheCircuitCtx {
     /// The underlying [`FheCircuit`].
     pub circuit: AtomicRefCell<FheCircuit>,
-    one_cache: AtomicRefCell<[Option<NodeIndex>; 4]>,
-    zero_cache: AtomicRefCell<[Option<NodeIndex>; 4]>,
+    one_cache: AtomicRefCell<[Option<NodeIndex>; 5]>,
+    zero_cache: AtomicRefCell<[Option<NodeIndex>; 5]>,
     allocator: Bump,
 }
 
@@ -66,8 +66,8 @@ impl FheCircuitCtx {
     pub fn new() -> Self {
         Self {
             circuit: AtomicRefCell::new(FheCircuit::new()),
-            one_cache: AtomicRefCell::new([None; 4]),
-            zero_cache: AtomicRefCell::new([None; 4]),
+            one_cache: AtomicRefCell::new([None; 5]),
+            zero_cache: AtomicRefCell::new([None; 5]),
             allocator: Bump::new(),
         }
     }
-- 
2.43.0


From e64e8d50e390f8fb82837f999a72ba963b585fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 30/63] fix: extend plain integers correctly to widths over 128
 bits

Int256 and UInt256 exist, but converting a plain value to more than 128 bits shifted by
an amount taken modulo 128, which repeated the low bits in the high ones (or rejected
the value), and converting back mixed the high bits into the low ones.
---
 parasol_runtime/src/fluent/int.rs  | 14 ++++++++++----
 parasol_runtime/src/fluent/uint.rs |  7 ++++---
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/parasol_runtime/src/fluent/int.rs b/parasol_runtime/src/fluent/int.rs
index 57e8372..30ca8f1 100644
--- a/parasol_runtime/src/fluent/int.rs
+++ b/parasol_runtime/src/fluent/int.rs
@@ -19,17 +19,22 @@ pub struct Signed;
 
 impl PlaintextOps for i128 {
     fn assert_in_bounds(&self, bits: usize) {
+        // Every i128 fits in 128 or more bits.
+        if bits >= 128 {
+            return;
+        }
+
         let max_val = ((0x1u128 << (bits - 1)) - 1).cast_signed();
         let min_val = -(0x1u128 << (bits - 1)).cast_signed();
 
-        assert!(bits == 128 || *self <= max_val);
-        assert!(bits == 128 || *self >= min_val);
+        assert!(*self <= max_val);
+        assert!(*self >= min_val);
     }
 
     fn from_bits<I: Iterator<Item = bool>>(bits: I) -> Self {
         let mut num_bits = 0;
 
-        let mut val = bits.enumerate().fold(0i128, |s, (i, x)| {
+        let mut val = bits.take(128).enumerate().fold(0i128, |s, (i, x)| {
             num_bits += 1;
             s | ((x as i128) << i)
         });
@@ -45,7 +50,8 @@ impl PlaintextOps for i128 {
     }
 
     fn to_bits(&self, len: usize) -> impl Iterator<Item = bool> {
-        (0..len).map(|i| ((*self >> i) & 0x1) == 0x1)
+        // Bits past the 127th are copies of the sign.
+        (0..len).map(|i| ((*self >> i.min(127)) & 0x1) == 0x1)
     }
 }
 
diff --git a/parasol_runtime/src/fluent/uint.rs b/parasol_runtime/src/fluent/uint.rs
index f81e38d..2a1f04e 100644
--- a/parasol_runtime/src/fluent/uint.rs
+++ b/parasol_runtime/src/fluent/uint.rs
@@ -19,16 +19,17 @@ pub struct Unsigned;
 
 impl PlaintextOps for u128 {
     fn assert_in_bounds(&self, bits: usize) {
-        assert!(bits == 128 || *self < 0x1 << bits);
+        assert!(bits >= 128 || *self < 0x1 << bits);
     }
 
     fn from_bits<I: Iterator<Item = bool>>(iter: I) -> Self {
-        iter.enumerate()
+        iter.take(128)
+            .enumerate()
             .fold(0u128, |s, (i, x)| s | ((x as u128) << i))
     }
 
     fn to_bits(&self, len: usize) -> impl Iterator<Item = bool> {
-        (0..len).map(|i| ((*self >> i) & 0x1) == 0x1)
+        (0..len).map(|i| i < 128 && ((*self >> i) & 0x1) == 0x1)
     }
 }
 
-- 
2.43.0


From 7745ed241438d199f562ee066d54dffe45f865ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:28 +0000
Subject: [PATCH 31/63] fix: sign-extend the shorter operand when comparing
 signed integers

Comparisons of integers with different lengths padded the shorter operand with zeros
whatever its sign, so that e.g. the 2-bit -2 was not equal to the 4-bit -2.
---
 .../fluent/dynamic_generic_int_graph_nodes.rs | 64 ++++++++++---------
 1 file changed, 34 insertions(+), 30 deletions(-)

diff --git a/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs b/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
index f674268..5450236 100644
--- a/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
+++ b/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
@@ -206,6 +206,37 @@ impl<U: Sign> DynamicGenericIntGraphNodes<'_, L1GlweCiphertext, U> {
 }
 
 impl<'a, V: Sign> DynamicGenericIntGraphNodes<'a, L1GgswCiphertext, V> {
+    /// Interleave the bits of `self` and `other`, extending the shorter of the two (with its
+    /// sign for signed integers, with zero otherwise) to the length of the longer.
+    fn interleave_extended(
+        &self,
+        other: &DynamicGenericIntGraphNodes<L1GgswCiphertext, V>,
+        ctx: &FheCircuitCtx,
+    ) -> Vec<NodeIndex> {
+        let max_len = self.bits.len().max(other.bits.len());
+        let zero = ctx.circuit.borrow_mut().add_node(FheOp::ZeroGgsw1);
+
+        let extended = |bits: &[BitNode<L1GgswCiphertext>]| {
+            let (_, _, use_msb) = V::resize_config(bits.len(), max_len);
+            let fill = match bits.last() {
+                Some(msb) if use_msb => msb.node,
+                _ => zero,
+            };
+
+            bits.iter()
+                .map(|x| x.node)
+                .chain(std::iter::repeat(fill))
+                .take(max_len)
+                .collect::<Vec<_>>()
+        };
+
+        extended(self.bits)
+            .into_iter()
+            .zip(extended(other.bits))
+            .flat_map(|(a, b)| [a, b])
+            .collect()
+    }
+
     pub(crate) fn cmp<OutCt: Muxable>(
         &self,
         other: &DynamicGenericIntGraphNodes<L1GgswCiphertext, V>,
@@ -219,16 +250,7 @@ impl<'a, V: Sign> DynamicGenericIntGraphNodes<'a, L1GgswCiphertext, V> {
         let max_len = m.max(n);
         let mux_circuit = V::gen_compare_circuit(max_len, gt, eq);
 
-        let zero = ctx.circuit.borrow_mut().add_node(FheOp::ZeroGgsw1);
-
-        let interleaved = self
-            .bits
-            .iter()
-            .zip(other.bits.iter())
-            .flat_map(|(a, b)| [a.node, b.node])
-            .chain(self.bits.iter().skip(m).flat_map(|x| [x.node, zero]))
-            .chain(other.bits.iter().skip(n).flat_map(|x| [zero, x.node]))
-            .collect::<Vec<_>>();
+        let interleaved = self.interleave_extended(other, ctx);
 
         let cmp_result = ctx.circuit.borrow_mut().insert_mux_circuit(
             &mux_circuit,
@@ -258,16 +280,7 @@ impl<'a, V: Sign> DynamicGenericIntGraphNodes<'a, L1GgswCiphertext, V> {
         let max_len = m.max(n);
         let mux_circuit = compare_equal(max_len);
 
-        let zero = ctx.circuit.borrow_mut().add_node(FheOp::ZeroGgsw1);
-
-        let interleaved = self
-            .bits
-            .iter()
-            .zip(other.bits.iter())
-            .flat_map(|(a, b)| [a.node, b.node])
-            .chain(self.bits.iter().skip(m).flat_map(|x| [x.node, zero]))
-            .chain(other.bits.iter().skip(n).flat_map(|x| [zero, x.node]))
-            .collect::<Vec<_>>();
+        let interleaved = self.interleave_extended(other, ctx);
 
         let eq = ctx.circuit.borrow_mut().insert_mux_circuit(
             &mux_circuit,
@@ -297,16 +310,7 @@ impl<'a, V: Sign> DynamicGenericIntGraphNodes<'a, L1GgswCiphertext, V> {
         let max_len = m.max(n);
         let mux_circuit = compare_not_equal(max_len);
 
-        let zero = ctx.circuit.borrow_mut().add_node(FheOp::ZeroGgsw1);
-
-        let interleaved = self
-            .bits
-            .iter()
-            .zip(other.bits.iter())
-            .flat_map(|(a, b)| [a.node, b.node])
-            .chain(self.bits.iter().skip(m).flat_map(|x| [x.node, zero]))
-            .chain(other.bits.iter().skip(n).flat_map(|x| [zero, x.node]))
-            .collect::<Vec<_>>();
+        let interleaved = self.interleave_extended(other, ctx);
 
         let eq = ctx.circuit.borrow_mut().insert_mux_circuit(
             &mux_circuit,
-- 
2.43.0


From beb6338bb138333851871d156ee86abaeee44137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:00 +0000
Subject: [PATCH 32/63] fix: multiply operands when only one is wider than 16
 bits

The branch for one long operand split the partial product at the wrong bit and kept the
adder's carry out, so it always panicked (e.g. 32 by 16 or 17 by 1 bits).
---
 parasol_runtime/src/circuits/mul.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parasol_runtime/src/circuits/mul.rs b/parasol_runtime/src/circuits/mul.rs
index 7185e79..95e2bee 100644
--- a/parasol_runtime/src/circuits/mul.rs
+++ b/parasol_runtime/src/circuits/mul.rs
@@ -130,9 +130,9 @@ fn mul_impl<OutCt: Muxable>(
 
         let adder_inputs = hi
             .iter()
-            .zip(a_hi_b_lo.iter().take(a_lo_len))
+            .zip(a_hi_b_lo.iter().take(b_lo_len))
             .flat_map(|(x, y)| [*x, *y])
-            .chain(a_hi_b_lo.iter().skip(a_lo_len).copied())
+            .chain(a_hi_b_lo.iter().skip(b_lo_len).copied())
             .map(|x| {
                 insert_ciphertext_conversion(
                     uop_graph,
@@ -143,7 +143,10 @@ fn mul_impl<OutCt: Muxable>(
             }) // Convert the ciphertexts back to GGSW
             .collect::<Vec<_>>();
 
-        let sum_out = uop_graph.insert_mux_circuit(&adder, &adder_inputs, OutCt::MUX_MODE);
+        let mut sum_out = uop_graph.insert_mux_circuit(&adder, &adder_inputs, OutCt::MUX_MODE);
+
+        // The product fits in a.len() + b.len() bits, so the carry out is always zero.
+        sum_out.truncate(a_hi_len + b_lo_len);
 
         assert_eq!(lo.len() + sum_out.len(), a.len() + b.len());
 
-- 
2.43.0


From fa0c6d5cf25b06038ad8061b23abdd96288d3009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:00 +0000
Subject: [PATCH 33/63] fix: convert from the requested ciphertext kind when
 reducing partial products

Multiplications wider than 16 bits producing GLEV outputs treated the GLEV partial
products as GLWE ciphertexts, giving an ill-typed circuit.
---
 parasol_runtime/src/circuits/mul.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parasol_runtime/src/circuits/mul.rs b/parasol_runtime/src/circuits/mul.rs
index 95e2bee..1b68277 100644
--- a/parasol_runtime/src/circuits/mul.rs
+++ b/parasol_runtime/src/circuits/mul.rs
@@ -183,7 +183,7 @@ fn mul_impl<OutCt: Muxable>(
                 insert_ciphertext_conversion(
                     uop_graph,
                     x,
-                    CiphertextType::L1GlweCiphertext,
+                    OutCt::CIPHERTEXT_TYPE,
                     CiphertextType::L1GgswCiphertext,
                 )
             })
-- 
2.43.0


From d780d89ba5b122f6eea837fa3e50b78fa45a203b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:19 +0000
Subject: [PATCH 34/63] fix: keep other handles valid when multiplying fluent
 integers

mul replaced the whole circuit by a renumbered copy, so every other handle into the same
FheCircuitCtx (the operands, earlier results, cached constants) pointed to unrelated or
missing nodes. Remove only the unneeded nodes that the multiplication itself added.
---
 .../fluent/dynamic_generic_int_graph_nodes.rs | 40 +++++++------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs b/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
index 5450236..2e568f5 100644
--- a/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
+++ b/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
@@ -6,7 +6,7 @@ use mux_circuits::{
     sub::full_subtractor,
 };
 use petgraph::stable_graph::NodeIndex;
-use std::marker::PhantomData;
+use std::{collections::HashSet, marker::PhantomData};
 
 use crate::{
     Encryption, FheEdge, FheOp, L1GgswCiphertext, L1GlweCiphertext,
@@ -14,7 +14,6 @@ use crate::{
         BitNode, CiphertextOps, DynamicGenericInt, FheCircuitCtx, Muxable,
         PackedDynamicGenericIntGraphNode, Sign,
     },
-    prune,
 };
 
 /// A collection of graph nodes resulting from FHE operations over dynamic generic integers (e.g. the
@@ -488,35 +487,24 @@ impl<'a, V: Sign> DynamicGenericIntGraphNodes<'a, L1GgswCiphertext, V> {
 
         let mut circuit_mut = ctx.circuit.borrow_mut();
 
-        // TODO: introduce a mul_lo so we don't have to do this pruning in the first place.
-        let existing_outputs = circuit_mut
-            .node_indices()
-            .filter(|x| {
-                let node_type = matches!(
-                    circuit_mut.node_weight(*x).unwrap(),
-                    FheOp::OutputGgsw1(_)
-                        | FheOp::OutputGlev1(_)
-                        | FheOp::OutputGlwe1(_)
-                        | FheOp::OutputLwe0(_)
-                        | FheOp::OutputLwe1(_)
-                );
-
-                node_type
-                    && circuit_mut
-                        .neighbors_directed(*x, petgraph::Direction::Outgoing)
-                        .count()
-                        == 0
-            })
-            .collect::<Vec<_>>();
+        let existing = circuit_mut.node_indices().collect::<HashSet<_>>();
 
         let (lo, _hi) = V::append_multiply::<OutCt>(&mut circuit_mut, &a, &b);
 
-        let to_keep = [lo.clone(), existing_outputs].concat();
+        // TODO: introduce a mul_lo so we don't have to do this pruning in the first place.
+        // Only remove nodes we just added, as callers may still use any of the others.
+        let mut needed = HashSet::new();
+        let mut stack = lo.clone();
+
+        while let Some(x) = stack.pop() {
+            if !existing.contains(&x) && needed.insert(x) {
+                stack.extend(circuit_mut.neighbors_directed(x, petgraph::Direction::Incoming));
+            }
+        }
 
-        let (pruned, rename) = prune(&circuit_mut, &to_keep);
-        circuit_mut.graph = pruned;
+        circuit_mut.retain_nodes(|_, x| existing.contains(&x) || needed.contains(&x));
 
-        let lo = lo.into_iter().map(|x| *rename.get(&x).unwrap());
+        let lo = lo.into_iter();
 
         DynamicGenericIntGraphNodes::from_nodes(lo, &ctx.allocator)
     }
-- 
2.43.0


From f1e695c33f9ac23d6fc1aa2936881c304070c984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:01 +0000
Subject: [PATCH 35/63] fix: refuse serialised integers whose bit count does
 not fit the type

---
 parasol_runtime/src/fluent/generic_int.rs        | 8 ++++++++
 parasol_runtime/src/fluent/packed_generic_int.rs | 6 +++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/parasol_runtime/src/fluent/generic_int.rs b/parasol_runtime/src/fluent/generic_int.rs
index 4951016..5413b91 100644
--- a/parasol_runtime/src/fluent/generic_int.rs
+++ b/parasol_runtime/src/fluent/generic_int.rs
@@ -87,6 +87,10 @@ impl<const N: usize, T: CiphertextOps, U: Sign> GetSize for GenericInt<N, T, U>
     }
 
     fn check_is_valid(&self, params: &crate::Params) -> crate::Result<()> {
+        if self.inner.bits.len() != N {
+            return Err(sunscreen_tfhe::Error::InvalidSize.into());
+        }
+
         for b in &self.inner.bits {
             b.borrow().check_is_valid(params)?;
         }
@@ -205,6 +209,10 @@ impl<T: CiphertextOps + PolynomialCiphertextOps, U: Sign> GetSize
     }
 
     fn check_is_valid(&self, params: &crate::Params) -> crate::Result<()> {
+        if self.bit_len as usize >= T::poly_degree(params).0 {
+            return Err(sunscreen_tfhe::Error::InvalidSize.into());
+        }
+
         self.ct.borrow().check_is_valid(params)
     }
 }
diff --git a/parasol_runtime/src/fluent/packed_generic_int.rs b/parasol_runtime/src/fluent/packed_generic_int.rs
index 93ac28a..e885530 100644
--- a/parasol_runtime/src/fluent/packed_generic_int.rs
+++ b/parasol_runtime/src/fluent/packed_generic_int.rs
@@ -93,7 +93,11 @@ impl<const N: usize, T: CiphertextOps + PolynomialCiphertextOps, U: Sign> GetSiz
     }
 
     fn check_is_valid(&self, params: &crate::Params) -> crate::Result<()> {
-        self.inner.ct.borrow().check_is_valid(params)
+        if self.inner.bit_len as usize != N {
+            return Err(sunscreen_tfhe::Error::InvalidSize.into());
+        }
+
+        self.inner.check_is_valid(params)
     }
 }
 
-- 
2.43.0


From e6e8055fa1d8b0c23f57a33e475bcf2cb69e80b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:49 +0000
Subject: [PATCH 36/63] fix: let the last retiring task see what the others did

CompletionHandler::retire only released its count, so the task that
retired last could signal completion without having seen the outputs
(still locked for writing, to the submitter) or the error of the others.
---
 parasol_runtime/src/circuit_processor/completion_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parasol_runtime/src/circuit_processor/completion_handler.rs b/parasol_runtime/src/circuit_processor/completion_handler.rs
index 9c4bc5e..1055383 100644
--- a/parasol_runtime/src/circuit_processor/completion_handler.rs
+++ b/parasol_runtime/src/circuit_processor/completion_handler.rs
@@ -35,7 +35,7 @@ impl CompletionHandler {
     }
 
     pub(crate) fn retire(&self) {
-        if self.ops_remaining.fetch_sub(1, Ordering::Release) == 1 {
+        if self.ops_remaining.fetch_sub(1, Ordering::AcqRel) == 1 {
             (self.callback)(self.error.get().map(|x| x.to_owned()));
         }
     }
-- 
2.43.0


From b55d62d42037705eca89e53293d0fc9073b25314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:16 +0000
Subject: [PATCH 37/63] fix: decoding an instruction with stray high bits
 returns an error instead of panicking

---
 parasol_cpu/src/proc/assembly.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parasol_cpu/src/proc/assembly.rs b/parasol_cpu/src/proc/assembly.rs
index 39e19db..e9d151f 100644
--- a/parasol_cpu/src/proc/assembly.rs
+++ b/parasol_cpu/src/proc/assembly.rs
@@ -120,7 +120,9 @@ macro_rules! define_op {
                                         let value = value >> $unused_width;
                                     )*
 
-                                    assert_eq!(value, 0);
+                                    if value != 0 {
+                                        return Err(Error::IllegalInstruction(0));
+                                    }
 
                                     $inst_name :: $op_name(
                                         $($dst_name,)*
-- 
2.43.0


From fa2e29590d25aae10714e4e4f2f92baa2a5ef2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:55 +0000
Subject: [PATCH 38/63] fix: 128-bit plain operands, signed comparison and xor
 masks use the full register width

---
 parasol_cpu/src/proc/ops/add.rs         | 22 ++++++++++++++--------
 parasol_cpu/src/proc/ops/and.rs         |  4 ++--
 parasol_cpu/src/proc/ops/casting.rs     |  8 ++++----
 parasol_cpu/src/proc/ops/comparisons.rs |  4 ++--
 parasol_cpu/src/proc/ops/mod.rs         |  5 +++++
 parasol_cpu/src/proc/ops/neg.rs         |  4 ++--
 parasol_cpu/src/proc/ops/not.rs         |  8 ++++++--
 parasol_cpu/src/proc/ops/or.rs          |  4 ++--
 parasol_cpu/src/proc/ops/sub.rs         |  8 ++++++--
 parasol_cpu/src/proc/ops/xor.rs         | 10 +++++++---
 10 files changed, 50 insertions(+), 27 deletions(-)

diff --git a/parasol_cpu/src/proc/ops/add.rs b/parasol_cpu/src/proc/ops/add.rs
index e2381fb..4d41923 100644
--- a/parasol_cpu/src/proc/ops/add.rs
+++ b/parasol_cpu/src/proc/ops/add.rs
@@ -2,7 +2,11 @@ use parasol_runtime::circuits::add::add_circuit;
 
 use crate::{
     Ciphertext, Error, Register, Result, check_register_width,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::make_parent_op},
+    proc::{
+        DispatchIsaOp,
+        fhe_processor::FheProcessor,
+        ops::{make_parent_op, width_mask},
+    },
     register_to_l1glwe_by_trivial_lift,
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
@@ -35,7 +39,7 @@ impl FheProcessor {
                 },
             ) = (a, b)
             {
-                let mask = (0x1 << width1) - 1;
+                let mask = width_mask(*width1);
 
                 *dst = Register::Plaintext {
                     val: val1.wrapping_add(*val2) & mask,
@@ -178,12 +182,14 @@ impl FheProcessor {
 
 /// Add two plaintext numbers together, returning the sum and the carry out.
 fn add_with_carry(a: u128, b: u128, carry_in: u128, width: u32) -> (u128, u128) {
-    let sum_mask = (0x1 << width) - 1;
-
-    let full_sum = a.wrapping_add(b).wrapping_add(carry_in);
-
-    let sum = full_sum & sum_mask;
-    let carry = (full_sum >> width) & 1;
+    let (partial_sum, carry_a) = a.overflowing_add(b);
+    let (full_sum, carry_b) = partial_sum.overflowing_add(carry_in);
+
+    let sum = full_sum & width_mask(width);
+    let carry = match full_sum.checked_shr(width) {
+        Some(high) => high & 1,
+        None => (carry_a | carry_b) as u128,
+    };
 
     (sum, carry)
 }
diff --git a/parasol_cpu/src/proc/ops/and.rs b/parasol_cpu/src/proc/ops/and.rs
index f933080..d0fa54b 100644
--- a/parasol_cpu/src/proc/ops/and.rs
+++ b/parasol_cpu/src/proc/ops/and.rs
@@ -9,7 +9,7 @@ use crate::{
     unwrap_registers,
 };
 
-use super::make_parent_op;
+use super::{make_parent_op, width_mask};
 
 impl FheProcessor {
     /// Execute an and instruction, where each element in the vector is a bit.
@@ -35,7 +35,7 @@ impl FheProcessor {
                 },
             ) = (a, b)
             {
-                let mask = (0x1 << width) - 1;
+                let mask = width_mask(*width);
 
                 *dst = Register::Plaintext {
                     val: val1 & val2 & mask,
diff --git a/parasol_cpu/src/proc/ops/casting.rs b/parasol_cpu/src/proc/ops/casting.rs
index bf7d654..578b946 100644
--- a/parasol_cpu/src/proc/ops/casting.rs
+++ b/parasol_cpu/src/proc/ops/casting.rs
@@ -4,7 +4,7 @@ use parasol_concurrency::AtomicRefCell;
 
 use crate::{
     Ciphertext, Register, Result,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::width_mask},
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
 };
@@ -80,8 +80,8 @@ impl FheProcessor {
                             if val >> (width - 1) == 0 {
                                 *val
                             } else {
-                                let old_mask = (1 << width) - 1;
-                                let new_mask = (1 << new_width) - 1;
+                                let old_mask = width_mask(*width);
+                                let new_mask = width_mask(new_width);
                                 (val | !old_mask) & new_mask
                             }
                         } else {
@@ -153,7 +153,7 @@ impl FheProcessor {
 
             match src {
                 Register::Plaintext { val, width: _ } => {
-                    let mask = (0x1 << new_width) - 1;
+                    let mask = width_mask(new_width);
                     *dst = Register::Plaintext {
                         val: (*val) & mask,
                         width: new_width,
diff --git a/parasol_cpu/src/proc/ops/comparisons.rs b/parasol_cpu/src/proc/ops/comparisons.rs
index 4a26566..fc4db6a 100644
--- a/parasol_cpu/src/proc/ops/comparisons.rs
+++ b/parasol_cpu/src/proc/ops/comparisons.rs
@@ -12,14 +12,14 @@ use crate::{
     unwrap_registers,
 };
 
-use super::make_parent_op;
+use super::{make_parent_op, width_mask};
 
 fn to_signed(val: u128, width: u32) -> i128 {
     let sign = 1 << (width - 1);
     if sign & val == 0 {
         val as i128
     } else {
-        (!((sign << 1) - 1) | val) as i128
+        (!width_mask(width) | val) as i128
     }
 }
 
diff --git a/parasol_cpu/src/proc/ops/mod.rs b/parasol_cpu/src/proc/ops/mod.rs
index 22ac6ab..87d0c95 100644
--- a/parasol_cpu/src/proc/ops/mod.rs
+++ b/parasol_cpu/src/proc/ops/mod.rs
@@ -128,6 +128,11 @@ pub fn make_parent_op(retirement_info: &RetirementInfo<DispatchIsaOp>) -> Arc<Co
     }))
 }
 
+/// A mask of the low `width` bits, for `width` in `0..=128`.
+pub(crate) fn width_mask(width: u32) -> u128 {
+    u128::MAX.checked_shr(u128::BITS - width).unwrap_or(0)
+}
+
 pub(crate) fn is_invalid_load_store_alignment(addr: Ptr32, num_bytes: u32) -> bool {
     num_bytes == 0 || addr.0 % num_bytes != 0 || num_bytes > 16 || !num_bytes.is_power_of_two()
 }
diff --git a/parasol_cpu/src/proc/ops/neg.rs b/parasol_cpu/src/proc/ops/neg.rs
index 2091e21..38f719a 100644
--- a/parasol_cpu/src/proc/ops/neg.rs
+++ b/parasol_cpu/src/proc/ops/neg.rs
@@ -1,6 +1,6 @@
 use crate::{
     Ciphertext, Register, Result,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::width_mask},
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
 };
@@ -23,7 +23,7 @@ impl FheProcessor {
                     val: val1,
                     width: width1,
                 } => {
-                    let mask = (0x1 << width1) - 1;
+                    let mask = width_mask(*width1);
 
                     *dst = Register::Plaintext {
                         val: val1.wrapping_neg() & mask,
diff --git a/parasol_cpu/src/proc/ops/not.rs b/parasol_cpu/src/proc/ops/not.rs
index 41afcac..48bd9b9 100644
--- a/parasol_cpu/src/proc/ops/not.rs
+++ b/parasol_cpu/src/proc/ops/not.rs
@@ -5,7 +5,11 @@ use parasol_runtime::{FheCircuit, FheEdge, FheOp};
 
 use crate::{
     Ciphertext, Error, Register, Result,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::make_parent_op},
+    proc::{
+        DispatchIsaOp,
+        fhe_processor::FheProcessor,
+        ops::{make_parent_op, width_mask},
+    },
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
 };
@@ -25,7 +29,7 @@ impl FheProcessor {
 
             match src {
                 Register::Plaintext { val, width } => {
-                    let mask = (0x1 << width) - 1;
+                    let mask = width_mask(*width);
 
                     *dst = Register::Plaintext {
                         val: (!val) & mask,
diff --git a/parasol_cpu/src/proc/ops/or.rs b/parasol_cpu/src/proc/ops/or.rs
index 839e515..d20d0c7 100644
--- a/parasol_cpu/src/proc/ops/or.rs
+++ b/parasol_cpu/src/proc/ops/or.rs
@@ -9,7 +9,7 @@ use crate::{
     unwrap_registers,
 };
 
-use super::make_parent_op;
+use super::{make_parent_op, width_mask};
 
 impl FheProcessor {
     /// Execute an or instruction, where each element in the vector is a bit.
@@ -35,7 +35,7 @@ impl FheProcessor {
                 },
             ) = (a, b)
             {
-                let mask = (0x1 << width) - 1;
+                let mask = width_mask(*width);
 
                 *dst = Register::Plaintext {
                     val: (val1 | val2) & mask,
diff --git a/parasol_cpu/src/proc/ops/sub.rs b/parasol_cpu/src/proc/ops/sub.rs
index d885f6a..234f367 100644
--- a/parasol_cpu/src/proc/ops/sub.rs
+++ b/parasol_cpu/src/proc/ops/sub.rs
@@ -3,7 +3,11 @@ use parasol_runtime::circuits::sub_circuit;
 
 use crate::{
     Ciphertext, Error, Register, Result, check_register_width,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::make_parent_op},
+    proc::{
+        DispatchIsaOp,
+        fhe_processor::FheProcessor,
+        ops::{make_parent_op, width_mask},
+    },
     register_to_l1glwe_by_trivial_lift,
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
@@ -36,7 +40,7 @@ impl FheProcessor {
                 },
             ) = (a, b)
             {
-                let mask = (0x1 << width1) - 1;
+                let mask = width_mask(*width1);
 
                 *dst = Register::Plaintext {
                     val: val1.wrapping_sub(*val2) & mask,
diff --git a/parasol_cpu/src/proc/ops/xor.rs b/parasol_cpu/src/proc/ops/xor.rs
index fc49af5..6a43258 100644
--- a/parasol_cpu/src/proc/ops/xor.rs
+++ b/parasol_cpu/src/proc/ops/xor.rs
@@ -5,7 +5,11 @@ use parasol_runtime::{FheCircuit, FheEdge, FheOp};
 
 use crate::{
     Ciphertext, Register, Result, check_register_width,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::make_parent_op},
+    proc::{
+        DispatchIsaOp,
+        fhe_processor::FheProcessor,
+        ops::{make_parent_op, width_mask},
+    },
     register_to_l1glwe_by_trivial_lift,
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
@@ -38,10 +42,10 @@ impl FheProcessor {
                 },
             ) = (a, b)
             {
-                let mask = (0x1 << width1) - 1;
+                let mask = width_mask(*width1);
 
                 *dst = Register::Plaintext {
-                    val: val1 ^ val2 & mask,
+                    val: (val1 ^ val2) & mask,
                     width: *width1,
                 };
 
-- 
2.43.0


From 7a8dd1e2fb95c0c85f64b8b5b6a30cbdf29b3744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:55 +0000
Subject: [PATCH 39/63] fix: shifts and rotations by plain amounts at or beyond
 the register width

---
 parasol_cpu/src/proc/ops/bitshift.rs | 65 ++++++++++++++++++----------
 1 file changed, 43 insertions(+), 22 deletions(-)

diff --git a/parasol_cpu/src/proc/ops/bitshift.rs b/parasol_cpu/src/proc/ops/bitshift.rs
index 2edef37..f485753 100644
--- a/parasol_cpu/src/proc/ops/bitshift.rs
+++ b/parasol_cpu/src/proc/ops/bitshift.rs
@@ -15,41 +15,54 @@ use crate::{
     unwrap_registers,
 };
 
-use super::make_parent_op;
+use super::{make_parent_op, width_mask};
+
+fn shift_right_arbitrary_width(val: u128, shift: u128, width: u32) -> u128 {
+    if shift >= width as u128 {
+        0
+    } else {
+        val >> shift
+    }
+}
+
+fn shift_left_arbitrary_width(val: u128, shift: u128, width: u32) -> u128 {
+    if shift >= width as u128 {
+        0
+    } else {
+        (val << shift) & width_mask(width)
+    }
+}
 
 fn arithmetic_shift_right_arbitrary_width(val: u128, shift: u128, width: u32) -> u128 {
-    let right = val >> shift;
+    let right = shift_right_arbitrary_width(val, shift, width);
 
     // check if the number if positive
     if (0x1 << (width - 1)) & val == 0 {
         right
     } else {
-        let signs = ((0x1 << (shift + 1)) - 1) << (width as u128 - shift);
+        let shift = shift.min(width as u128) as u32;
+        let signs = width_mask(width) & !width_mask(width - shift);
         signs | right
     }
 }
 
 fn rotate_right_arbitrary_width(val: u128, shift: u128, width: u32) -> u128 {
-    let mask = (0x1 << width) - 1;
-
-    let left = val << (width as u128 - shift);
-    let right = val >> shift;
+    let shift = shift % width as u128;
 
-    (left | right) & mask
+    shift_left_arbitrary_width(val, width as u128 - shift, width)
+        | shift_right_arbitrary_width(val, shift, width)
 }
 
 fn rotate_left_arbitrary_width(val: u128, shift: u128, width: u32) -> u128 {
-    let mask = (0x1 << width) - 1;
+    let shift = shift % width as u128;
 
-    let left = val << shift;
-    let right = val >> (width as u128 - shift);
-
-    (left | right) & mask
+    shift_left_arbitrary_width(val, shift, width)
+        | shift_right_arbitrary_width(val, width as u128 - shift, width)
 }
 
 fn encrypted_value_plain_shift(
     c: &[Arc<AtomicRefCell<L1GlweCiphertext>>],
-    shift: u32,
+    shift: u128,
     l1glwe_zero: &L1GlweCiphertext,
     dir: ShiftDirection,
     mode: ShiftMode,
@@ -58,15 +71,23 @@ fn encrypted_value_plain_shift(
 
     let old_msb = result.last().unwrap().clone();
 
+    // Rotations wrap around the width, while shifting by more than the width is the same as
+    // shifting by the width.
+    let width = result.len() as u128;
+    let shift = match mode {
+        ShiftMode::Rotation => shift % width,
+        ShiftMode::Logical | ShiftMode::Arithmetic => shift.min(width),
+    } as usize;
+
     // The processor is little endian, so a right shift is a left rotation.
     match dir {
-        ShiftDirection::Left => result.rotate_right(shift as usize),
-        ShiftDirection::Right => result.rotate_left(shift as usize),
+        ShiftDirection::Left => result.rotate_right(shift),
+        ShiftDirection::Right => result.rotate_left(shift),
     }
 
     match mode {
         ShiftMode::Logical => {
-            for i in 0..shift as usize {
+            for i in 0..shift {
                 let ix = match dir {
                     ShiftDirection::Left => i,
                     ShiftDirection::Right => result.len() - i - 1,
@@ -77,7 +98,7 @@ fn encrypted_value_plain_shift(
         ShiftMode::Rotation => {}
         ShiftMode::Arithmetic => {
             assert_eq!(dir, ShiftDirection::Right);
-            for i in 0..shift as usize {
+            for i in 0..shift {
                 let ix = result.len() - i - 1;
                 result[ix] = old_msb.clone();
             }
@@ -92,7 +113,7 @@ type ShiftOperation = fn(u128, u128, u32) -> u128;
 // (c, shift, l1glwe_zero) -> Vec<Arc<AtomicRefCell<L1GlweCiphertext>>>
 type ShiftOperationCiphertext = fn(
     &[Arc<AtomicRefCell<L1GlweCiphertext>>],
-    u32,
+    u128,
     &L1GlweCiphertext,
 ) -> Vec<Arc<AtomicRefCell<L1GlweCiphertext>>>;
 
@@ -133,7 +154,7 @@ impl FheProcessor {
                         width: _,
                     },
                 ) => {
-                    let output = plain_shift(c, *shift as u32, &self.aux_data.l1glwe_zero);
+                    let output = plain_shift(c, *shift, &self.aux_data.l1glwe_zero);
 
                     *dst = Register::Ciphertext(Ciphertext::L1Glwe { data: output });
 
@@ -201,7 +222,7 @@ impl FheProcessor {
             dst,
             src,
             shift,
-            |val, shift, _| val >> shift,
+            shift_right_arbitrary_width,
             |c, shift, l1glwe_zero| {
                 encrypted_value_plain_shift(
                     c,
@@ -267,7 +288,7 @@ impl FheProcessor {
             dst,
             src,
             shift,
-            |val, shift, _| val << shift,
+            shift_left_arbitrary_width,
             |c, shift, l1glwe_zero| {
                 encrypted_value_plain_shift(
                     c,
-- 
2.43.0


From 0a0768b2613ceb2f5f1b48c30faa763e013e2072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:44 +0000
Subject: [PATCH 40/63] fix: shifts and rotations by encrypted amounts of any
 width no longer panic

---
 parasol_cpu/src/proc/ops/bitshift.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/parasol_cpu/src/proc/ops/bitshift.rs b/parasol_cpu/src/proc/ops/bitshift.rs
index f485753..2070094 100644
--- a/parasol_cpu/src/proc/ops/bitshift.rs
+++ b/parasol_cpu/src/proc/ops/bitshift.rs
@@ -127,6 +127,7 @@ impl FheProcessor {
         shift: RobEntryRef<Register>,
         plain_operation: ShiftOperation,
         plain_shift: ShiftOperationCiphertext,
+        mode: ShiftMode,
         circuit_gen: fn(usize, usize) -> MuxCircuit,
     ) {
         let mut shift_impl = || -> Result<()> {
@@ -168,6 +169,27 @@ impl FheProcessor {
                     )?;
 
                     let input_width = c.len();
+
+                    // Rotations by an encrypted amount would need a modulus circuit for any
+                    // other width.
+                    if mode == ShiftMode::Rotation && !input_width.is_power_of_two() {
+                        return Err(Error::WidthMismatch {
+                            inst_id: *retirement_info.scoreboard_entry.id,
+                            pc: retirement_info.scoreboard_entry.pc,
+                        });
+                    }
+
+                    // The circuit needs enough shift bits to represent the input width, so
+                    // zero-extend shift amounts that have fewer.
+                    let mut c_shift = c_shift.to_owned();
+                    let min_shift_width = (input_width.next_power_of_two().ilog2() as usize).max(1);
+
+                    while c_shift.len() < min_shift_width {
+                        c_shift.push(Arc::new(AtomicRefCell::new(
+                            self.aux_data.l1glwe_zero.clone(),
+                        )));
+                    }
+
                     let shift_width = c_shift.len();
 
                     let mut graph = FheCircuit::new();
@@ -232,6 +254,7 @@ impl FheProcessor {
                     ShiftMode::Logical,
                 )
             },
+            ShiftMode::Logical,
             |inputs, shift_size| {
                 bitshift(
                     inputs as u16,
@@ -265,6 +288,7 @@ impl FheProcessor {
                     ShiftMode::Arithmetic,
                 )
             },
+            ShiftMode::Arithmetic,
             |inputs, shift_size| {
                 bitshift(
                     inputs as u16,
@@ -298,6 +322,7 @@ impl FheProcessor {
                     ShiftMode::Logical,
                 )
             },
+            ShiftMode::Logical,
             |inputs, shift_size| {
                 bitshift(
                     inputs as u16,
@@ -331,6 +356,7 @@ impl FheProcessor {
                     ShiftMode::Rotation,
                 )
             },
+            ShiftMode::Rotation,
             |inputs, shift_size| {
                 bitshift(
                     inputs as u16,
@@ -364,6 +390,7 @@ impl FheProcessor {
                     ShiftMode::Rotation,
                 )
             },
+            ShiftMode::Rotation,
             |inputs, shift_size| {
                 bitshift(
                     inputs as u16,
-- 
2.43.0


From 490df8501ac03302163051e18969a31e6b2c1260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:45 +0000
Subject: [PATCH 41/63] fix: LoadI accepts every immediate in range at widths
 of 64 bits and more

---
 parasol_cpu/src/proc/ops/loadi.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parasol_cpu/src/proc/ops/loadi.rs b/parasol_cpu/src/proc/ops/loadi.rs
index 82adae1..fe89cde 100644
--- a/parasol_cpu/src/proc/ops/loadi.rs
+++ b/parasol_cpu/src/proc/ops/loadi.rs
@@ -1,6 +1,6 @@
 use crate::{
     Error, Register, Result,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::width_mask},
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
 };
@@ -24,15 +24,15 @@ impl FheProcessor {
             // the number -90 in 2's complement with 8 bit will be 0xA6, but
             // in the encoding we have 32 bit for the immediate so it's
             // 0xFFFFFFA6, not 0x000000A6
-            let in_range_unsigned = (imm as u64) < (1 << width);
-            let in_range_signed_neg = imm >= 0xFFFFFFFF << (width - 1);
+            let in_range_unsigned = imm as u128 <= width_mask(width);
+            let in_range_signed_neg = width < 32 && imm >= 0xFFFFFFFF << (width - 1);
 
             if !in_range_unsigned && !in_range_signed_neg {
                 return Err(Error::out_of_range(instruction_id, pc));
             }
 
             *dst = Register::Plaintext {
-                val: imm as u128 & ((1 << width) - 1),
+                val: imm as u128 & width_mask(width),
                 width,
             };
 
-- 
2.43.0


From bdb3855ab71cb1b422095e6a300a1a2bf97b6c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:01 +0000
Subject: [PATCH 42/63] fix: Neg of an encrypted register negates it instead of
 panicking

---
 parasol_cpu/src/proc/ops/neg.rs | 42 +++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/parasol_cpu/src/proc/ops/neg.rs b/parasol_cpu/src/proc/ops/neg.rs
index 38f719a..2e33f87 100644
--- a/parasol_cpu/src/proc/ops/neg.rs
+++ b/parasol_cpu/src/proc/ops/neg.rs
@@ -1,6 +1,12 @@
+use parasol_runtime::circuits::sub_circuit;
+
 use crate::{
-    Ciphertext, Register, Result,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::width_mask},
+    Ciphertext, Error, Register, Result,
+    proc::{
+        DispatchIsaOp,
+        fhe_processor::FheProcessor,
+        ops::{make_parent_op, trivially_encrypt_value_l1glwe, width_mask},
+    },
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
 };
@@ -15,7 +21,7 @@ impl FheProcessor {
         _instruction_id: usize,
         _pc: u32,
     ) {
-        let neg_impl = || -> Result<()> {
+        let mut neg_impl = || -> Result<()> {
             unwrap_registers!((mut dst) (src));
 
             match src {
@@ -32,15 +38,31 @@ impl FheProcessor {
 
                     FheProcessor::retire(&retirement_info, Ok(()));
                 }
-                Register::Ciphertext(Ciphertext::L1Glwe { data: _c1 }) => {
-                    todo!()
-                    // let output = add_l1glwe_cipher_cipher(c1, c2);
+                Register::Ciphertext(Ciphertext::L1Glwe { data: c }) => {
+                    let width = c.len();
 
-                    // *dst = Register::Ciphertext(Ciphertext::L1GlweCiphertext { data: output });
-                }
-                _ => {
-                    todo!()
+                    // -c = 0 - c
+                    let zero = trivially_encrypt_value_l1glwe(
+                        0,
+                        width as u32,
+                        &self.aux_data.l1glwe_zero,
+                        &self.aux_data.l1glwe_one,
+                    );
+
+                    let (graph, output) = sub_circuit(width, &zero, c, None, &self.aux_data.enc);
+
+                    let parent_op = make_parent_op(&retirement_info);
+
+                    self.aux_data
+                        .uop_processor
+                        .spawn_graph(&graph, &self.aux_data.flow, parent_op);
+
+                    // There is a borrow out bit that we will ignore
+                    *dst = Register::Ciphertext(Ciphertext::L1Glwe {
+                        data: output[0..output.len() - 1].to_owned(),
+                    });
                 }
+                _ => return Err(Error::EncryptionMismatch),
             };
 
             Ok(())
-- 
2.43.0


From 0f89f9c782930a2d6904abd04660d9e7068118f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:49 +0000
Subject: [PATCH 43/63] fix: Store of an encrypted register narrower than the
 store, or of its own address register

---
 parasol_cpu/src/proc/ops/store.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/parasol_cpu/src/proc/ops/store.rs b/parasol_cpu/src/proc/ops/store.rs
index e448547..1a1c77f 100644
--- a/parasol_cpu/src/proc/ops/store.rs
+++ b/parasol_cpu/src/proc/ops/store.rs
@@ -1,3 +1,7 @@
+use std::sync::Arc;
+
+use parasol_concurrency::AtomicRefCell;
+
 use crate::{
     Byte, Error, Memory, Ptr32, Register, Result,
     proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::is_invalid_load_store_alignment},
@@ -20,10 +24,7 @@ impl FheProcessor {
         pc: u32,
     ) {
         let store_impl = || -> Result<()> {
-            let mut dst = dst.entry_force_mut();
-            let dst = &mut **dst;
-
-            unwrap_registers!((src));
+            unwrap_registers!((dst)(src));
 
             match dst {
                 Register::Plaintext { val: ptr, width: _ } => {
@@ -44,9 +45,19 @@ impl FheProcessor {
                             }
                             Register::Ciphertext(val) => {
                                 let val = val.try_into_l1glwe()?;
-                                let val = &val[8 * i as usize..8 * i as usize + 8];
 
-                                Byte::try_from(val.to_owned()).unwrap()
+                                // As with plaintexts, the bits past the end of a register
+                                // narrower than the store are zero.
+                                let bits = (8 * i as usize..8 * i as usize + 8)
+                                    .map(|bit| match val.get(bit) {
+                                        Some(bit) => bit.clone(),
+                                        None => Arc::new(AtomicRefCell::new(
+                                            self.aux_data.l1glwe_zero.clone(),
+                                        )),
+                                    })
+                                    .collect::<Vec<_>>();
+
+                                Byte::try_from(bits).unwrap()
                             }
                         };
 
-- 
2.43.0


From 1bc0a815a46cd686f98fef6ab7b72f126361bea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:17 +0000
Subject: [PATCH 44/63] fix: a misaligned load or store faults instead of
 waiting forever for an instruction that never issues

---
 parasol_cpu/src/proc/fhe_processor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index 5cb02a4..5836b04 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -353,7 +353,6 @@ impl FheProcessor {
         scoreboard_entry.set_instruction(&disp_inst);
 
         self.current_instruction += 1;
-        self.instructions_inflight += 1;
 
         // Increment our dependency count to 1 to prevent any dependents
         // from issuing our new instruction until we've finished processing
@@ -369,6 +368,9 @@ impl FheProcessor {
             pc,
         )?;
 
+        // From here on, the instruction is guaranteed to eventually retire.
+        self.instructions_inflight += 1;
+
         for dep in deps.into_iter().flatten() {
             // If we take a dependency on ourself, we somehow fucked up.
             assert_ne!(dep.id, scoreboard_entry.id);
-- 
2.43.0


From dd0a2304cc83c76d790f263eacbac8c3e1afd2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:21 +0000
Subject: [PATCH 45/63] fix: range checks stop at the last byte of the range
 and do not wrap

---
 parasol_cpu/src/memory/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index 586c42b..1faf3db 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -712,14 +712,18 @@ impl Memory {
     /// Returns an error if pointer arithmetic wraps for an address in the given range
     /// has no page mapping.
     pub fn check_range_is_mapped(&self, ptr: Ptr32, len: u32) -> Result<()> {
+        if len == 0 {
+            return Ok(());
+        }
+
         let start_page = ptr.0 / PAGE_SIZE;
-        let end_page = (ptr.0 + len) / PAGE_SIZE;
+        let end_page = ptr.try_offset(len - 1)?.0 / PAGE_SIZE;
 
         let pages = self.pages.lock().unwrap();
 
         for i in start_page..=end_page {
             if pages[i as usize].is_none() {
-                return Err(Error::AccessViolation(ptr.try_offset(i * PAGE_SIZE)?.0));
+                return Err(Error::AccessViolation(ptr.0.max(i * PAGE_SIZE)));
             }
         }
 
-- 
2.43.0


From facdd9296591c5be67c50d1c20cfbba3c6bee0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:21 +0000
Subject: [PATCH 46/63] fix: map only the pages a segment or stack needs

---
 parasol_cpu/src/memory/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index 1faf3db..69a1788 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -509,7 +509,8 @@ impl Memory {
         }
 
         let start_page_id = Page::page_id_from_pointer(virtual_address) as usize;
-        let end_page_id = Page::page_id_from_pointer(virtual_address.try_offset(len)?) as usize;
+        let last_address = virtual_address.try_offset(len)?.try_signed_offset(-1)?;
+        let end_page_id = Page::page_id_from_pointer(last_address) as usize;
 
         let mut pages = self.pages.lock().unwrap();
 
-- 
2.43.0


From a4c66db200970de6e85eb72cc08d40ad39bc0efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:22 +0000
Subject: [PATCH 47/63] fix: an impossible stack placement is an error instead
 of a panic

---
 parasol_cpu/src/memory/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index 69a1788..ea12ea7 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -334,7 +334,7 @@ impl Memory {
     /// `elf_data` should contain the contents of an executable ELF file generated by the Parasol
     /// linker.
     pub fn new_from_elf_with_config(elf_data: &[u8], config: &MemoryConfig) -> Result<Self> {
-        let mut memory = Self::new(config.stack_top, config.stack_size);
+        let mut memory = Self::new(config.stack_top, config.stack_size)?;
 
         let elf = ElfBytes::<LittleEndian>::minimal_parse(elf_data)?;
 
@@ -413,25 +413,25 @@ impl Memory {
         Ok(memory)
     }
 
-    pub(crate) fn new(stack_start: Ptr32, stack_size: u32) -> Self {
+    pub(crate) fn new(stack_start: Ptr32, stack_size: u32) -> Result<Self> {
         // Stacks grow downward, so initialize the pointer to the end of the stack rather than
         // the start.
         let memory = Self {
             pages: Mutex::new(vec![None; TOTAL_PAGES as usize]),
-            stack_ptr: Mutex::new(stack_start.try_offset(stack_size).unwrap()),
+            stack_ptr: Mutex::new(stack_start.try_offset(stack_size)?),
             symbols: HashMap::new(),
         };
 
-        memory.try_allocate_at(stack_start, stack_size).unwrap();
+        memory.try_allocate_at(stack_start, stack_size)?;
 
-        memory
+        Ok(memory)
     }
 
     /// Create a new [`Memory`] object with a default stack starting at
     /// 0x8000_0000. This is mostly useful if you are generating your own
     /// program in assembly.
     pub fn new_default_stack() -> Self {
-        Memory::new(Ptr32::from(0x8000_0000), 4096)
+        Memory::new(Ptr32::from(0x8000_0000), 4096).unwrap()
     }
 
     /// Allocate a program in this memory and return the address of the
-- 
2.43.0


From 4cdfdd1d3eb32e89364e03a1b538fc07562d4965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:22 +0000
Subject: [PATCH 48/63] fix: allocation sizes within a page of 2^32 no longer
 wrap to zero pages

---
 parasol_cpu/src/memory/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index ea12ea7..98fa491 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -602,7 +602,7 @@ impl Memory {
         }
 
         let mut pages = self.pages.lock().unwrap();
-        let num_pages = len.next_multiple_of(PAGE_SIZE) / PAGE_SIZE;
+        let num_pages = len.div_ceil(PAGE_SIZE);
 
         // Never allocate the zero page for end-user use. We don't want to ever
         // give a valid null virtual address to user applications, as many languages generate
-- 
2.43.0


From c253e0fa794d9372e50f9e8bb81f0053c9a3317c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:22 +0000
Subject: [PATCH 49/63] fix: values pushed onto the stack are aligned, and a
 push that does not fit has no effect

---
 parasol_cpu/src/memory/mod.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index 98fa491..aa4cd6e 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -475,21 +475,22 @@ impl Memory {
 
         let alignment = data.alignment as u32;
 
-        let padding_bytes = (alignment - stack_ptr.0 % alignment) % alignment;
-
-        // Push padding to align data
-        for i in 0..padding_bytes {
-            self.try_store(*stack_ptr, Byte::from(0))?;
-            *stack_ptr = stack_ptr.try_signed_offset(-1)?;
-        }
+        // Make room for the data, aligning its address by leaving any padding above it.
+        let data_ptr = stack_ptr
+            .0
+            .checked_sub(data.bytes.len() as u32)
+            .ok_or(Error::PointerOverflow)?;
+        let data_ptr = Ptr32(data_ptr - data_ptr % alignment);
 
-        *stack_ptr = stack_ptr.try_signed_offset(-(data.bytes.len() as i32))?;
+        self.check_range_is_mapped(data_ptr, data.bytes.len() as u32)?;
 
         // Write the bytes in the argument
         for (i, b) in data.bytes.iter().enumerate() {
-            self.try_store(stack_ptr.try_offset(i as u32)?, b.clone())?;
+            self.try_store(data_ptr.try_offset(i as u32)?, b.clone())?;
         }
 
+        *stack_ptr = data_ptr;
+
         Ok(*stack_ptr)
     }
 
-- 
2.43.0


From c50404378d63ea65b0cd102b0cf01e209371c6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:23 +0000
Subject: [PATCH 50/63] fix: coalesced allocations keep using the space left in
 their pages

---
 parasol_cpu/src/memory/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index aa4cd6e..b5b7a5e 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -875,13 +875,13 @@ impl Allocation {
         let padded = existing.next_free.next_multiple_of(alignment);
 
         // If we lack space in this allocation, make another.
-        if padded + len >= existing.size {
+        if len > existing.size || padded > existing.size - len {
             return Self::new(memory, len);
         }
 
         let ptr = existing.base.try_offset(padded)?;
 
-        existing.next_free = ptr.0 + len;
+        existing.next_free = padded + len;
 
         Ok((existing, ptr))
     }
-- 
2.43.0


From c2e54e4e0a4631b0fb175faff48e9b8f05c61c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:28 +0000
Subject: [PATCH 51/63] fix: read arrays whose elements are padded

[T; N]::try_from_bytes handed each element its padding as well, which every T
refuses, so arrays of types whose size is no multiple of their alignment could
be passed but never read back or returned.
---
 parasol_cpu/src/proc/args.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parasol_cpu/src/proc/args.rs b/parasol_cpu/src/proc/args.rs
index 61742a7..7d69d05 100644
--- a/parasol_cpu/src/proc/args.rs
+++ b/parasol_cpu/src/proc/args.rs
@@ -305,16 +305,16 @@ impl<const N: usize, T: ToArg> ToArg for [T; N] {
             return Ok(as_vec.unwrap_or_else(|_| unreachable!()));
         }
 
+        if data.len() != Self::size() {
+            return Err(Error::TypeSizeMismatch);
+        }
+
         let as_vec = data
             // Strip off the padding and recreate the Ts
             .chunks(T::size().next_multiple_of(T::alignment()))
-            .map(|x| T::try_from_bytes(x.to_owned()))
+            .map(|x| T::try_from_bytes(x[..T::size()].to_owned()))
             .collect::<Result<Vec<_>>>()?;
 
-        if as_vec.len() != N {
-            return Err(Error::TypeSizeMismatch);
-        }
-
         Ok(as_vec.try_into().unwrap_or_else(|_| unreachable!()))
     }
 }
-- 
2.43.0


From 6f8e955ccd02c156fdcd98026eb19ce072d63c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:29 +0000
Subject: [PATCH 52/63] fix: place call data with alignments above 16 inside
 its stack allocation

The allocation was only aligned to 16 bytes while its size was computed from an
aligned start, so an argument or return value such as UInt256 was moved past the
end of the allocation, over the caller's stack or past the top of the stack.
---
 parasol_cpu/src/proc/args.rs          | 12 ++++++++++++
 parasol_cpu/src/proc/fhe_processor.rs |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/parasol_cpu/src/proc/args.rs b/parasol_cpu/src/proc/args.rs
index 7d69d05..2ce41c6 100644
--- a/parasol_cpu/src/proc/args.rs
+++ b/parasol_cpu/src/proc/args.rs
@@ -510,6 +510,18 @@ pub struct CallData<T> {
 }
 
 impl<T> CallData<T> {
+    /// Returns the required alignment for this call data, which satisfies each argument and the
+    /// return value and is no less than the stack pointer's 16-byte alignment.
+    pub fn alignment(&self) -> usize {
+        let ret = (self.return_value.size > 0).then_some(self.return_value.alignment);
+
+        self.args
+            .iter()
+            .map(|x| x.alignment)
+            .chain(ret)
+            .fold(16, usize::max)
+    }
+
     /// Returns the required size for this call data, including aligning the stack pointer
     /// to a 16-byte boundary
     pub fn alloc_size(&self) -> usize {
diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index 5836b04..50ef5fc 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -547,7 +547,7 @@ impl FheProcessor {
 
         memory.try_push_arg_onto_stack(&Arg {
             bytes: vec![Byte::Plaintext(0); call_data_size],
-            alignment: 16,
+            alignment: args.alignment(),
         })?;
 
         let sp = memory.stack_ptr();
-- 
2.43.0


From 96a936402d2a21a2a06b4af4e311eb4e891cb8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:29 +0000
Subject: [PATCH 53/63] fix: release the call data when a program ends

Every run moved the memory's stack pointer down for good, so a memory could only
serve a limited number of runs (256 on the default stack) before every further
run failed with an access violation.
---
 parasol_cpu/src/memory/mod.rs         | 5 +++++
 parasol_cpu/src/proc/fhe_processor.rs | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index b5b7a5e..81364cd 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -499,6 +499,11 @@ impl Memory {
         *self.stack_ptr.lock().unwrap()
     }
 
+    /// Set the current stack pointer, releasing anything pushed since it had this value.
+    pub(crate) fn set_stack_ptr(&self, ptr: Ptr32) {
+        *self.stack_ptr.lock().unwrap() = ptr;
+    }
+
     /// Allocates `len / PAGE_SIZE` pages starting at `virtual_address`.
     ///
     /// # Remarks
diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index 50ef5fc..f7cca95 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -644,6 +644,7 @@ impl FheProcessor {
         let gas_limit = options.gas_limit();
 
         self.reset()?;
+        let caller_sp = memory.stack_ptr();
         let return_data = self.set_up_function_call(memory, args)?;
         self.aux_data.memory = Some(memory.clone());
         self.debug_handlers = options.debug_handlers.clone();
@@ -696,6 +697,9 @@ impl FheProcessor {
         self.aux_data.inflight_memory_ops.clear();
         self.aux_data.memory = None;
 
+        // The program is done, so release its stack frame.
+        memory.set_stack_ptr(caller_sp);
+
         if let Some(e) = self.aux_data.fault.get() {
             return Err(e.clone());
         }
-- 
2.43.0


From 82e06bdb5f11ebf480becaac2f74d91156fe61e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:08 +0000
Subject: [PATCH 54/63] fix: wait for branch conditions and pointers that are
 still being computed

These registers are read while dispatching. When the instruction producing one
was waiting for an encrypted operation (e.g. a load behind an encrypted store to
the same address, or a move of an encrypted value), the default value 0 was read
instead: branches went the wrong way and loads and stores had the wrong memory
dependencies, depending on timing.
---
 parasol_cpu/src/proc/fhe_processor.rs | 34 +++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index f7cca95..6c54b60 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -217,6 +217,38 @@ impl FheProcessor {
         Ok(())
     }
 
+    /// Branch conditions and load/store pointers are read while dispatching, so the instruction
+    /// that produces them must have executed by then. If it hasn't (e.g. it's waiting for an
+    /// encrypted operation), waits for the outstanding instructions.
+    fn resolve_frontend_register(
+        &mut self,
+        inst: &IsaOp,
+        options: &RunProgramOptions,
+    ) -> Result<()> {
+        let register = match inst {
+            IsaOp::Store(ptr, ..) => *ptr,
+            IsaOp::Load(_, ptr, ..) => *ptr,
+            IsaOp::BranchNonZero(cond, ..) | IsaOp::BranchZero(cond, ..) => *cond,
+            _ => return Ok(()),
+        };
+
+        let is_pending = self
+            .registers
+            .get_instruction(register)
+            .is_some_and(|x| x.instruction.borrow().is_some());
+
+        if is_pending {
+            self.wait(options);
+
+            // If something faulted while waiting, the producer may not have executed.
+            if let Some(e) = self.aux_data.fault.get() {
+                return Err(e.clone());
+            }
+        }
+
+        Ok(())
+    }
+
     /// Figures out the gas cost for the given instruction
     fn compute_gas(&self, dispatched_op: &crate::proc::DispatchIsaOp) -> u32 {
         fn is_register_ciphertext(reg: &RobEntryRef<Register>) -> bool {
@@ -316,6 +348,8 @@ impl FheProcessor {
 
         inst.validate(self.current_instruction, pc)?;
 
+        self.resolve_frontend_register(&inst, options)?;
+
         let srcs = (&self.registers, ());
 
         if options.log_instruction_execution {
-- 
2.43.0


From 2ed909932d1d7303c7711c353798a5f2c7d845b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:04 +0000
Subject: [PATCH 55/63] fix: meter gas when instructions execute and limit the
 total

The limit was compared with the cost of each instruction alone, so programs (even
endless ones) could use any amount of gas. The cost was also computed while
dispatching, when operands still being computed look like plaintexts, so the gas
reported for a program depended on timing.
---
 parasol_cpu/src/proc/fhe_processor.rs | 72 ++++++++++++++++-----------
 1 file changed, 44 insertions(+), 28 deletions(-)

diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index 6c54b60..a93c3dd 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -119,6 +119,9 @@ where
 
     pc: u32,
 
+    /// The gas used by the instructions executed so far in the current run.
+    gas_used: u32,
+
     /// The number of instructions currently dispatched or executing
     pub instructions_inflight: usize,
 
@@ -139,6 +142,7 @@ impl FheProcessor {
             registers,
             aux_data,
             pc: 0,
+            gas_used: 0,
             current_instruction: 0,
             instructions_inflight: 0,
             ready_instructions: mpsc::channel(),
@@ -338,12 +342,36 @@ impl FheProcessor {
         }
     }
 
+    /// Adds the gas cost of an instruction that's about to execute to the amount used so far.
+    ///
+    /// # Remarks
+    /// The instruction's operands must be resolved, as its cost depends on whether they're
+    /// encrypted.
+    fn charge_gas(
+        &mut self,
+        dispatched_op: &crate::proc::DispatchIsaOp,
+        options: &RunProgramOptions,
+    ) -> Result<()> {
+        let gas = self.compute_gas(dispatched_op);
+        let total = self.gas_used.saturating_add(gas);
+
+        if let Some(gas_limit) = options.gas_limit {
+            if gas > gas_limit - self.gas_used {
+                return Err(Error::OutOfGas(total, gas_limit));
+            }
+        }
+
+        self.gas_used = total;
+
+        Ok(())
+    }
+
     pub fn dispatch_instruction(
         &mut self,
         inst: IsaOp,
         pc: u32,
         options: &RunProgramOptions,
-    ) -> Result<(u32, u32)> {
+    ) -> Result<u32> {
         use crate::tomasulo::{GetDeps, ToDispatchedOp};
 
         inst.validate(self.current_instruction, pc)?;
@@ -376,14 +404,6 @@ impl FheProcessor {
         let disp_inst =
             inst.to_dispatched_op(srcs, scoreboard_entry.clone(), self.current_instruction, pc)?;
 
-        let gas = self.compute_gas(&disp_inst);
-
-        if let Some(gas_limit) = options.gas_limit {
-            if gas > gas_limit {
-                return Err(Error::OutOfGas(gas, gas_limit));
-            }
-        }
-
         scoreboard_entry.set_instruction(&disp_inst);
 
         self.current_instruction += 1;
@@ -431,9 +451,7 @@ impl FheProcessor {
         // Execute any ready instructions (possibly including the one we just dispatched)
         self.execute_ready_instructions(false, options);
 
-        let next_pc = self.next_program_counter(disp_inst, pc)?;
-
-        Ok((next_pc, gas))
+        self.next_program_counter(disp_inst, pc)
     }
 
     fn execute_ready_instructions(&mut self, blocking: bool, options: &RunProgramOptions) {
@@ -637,6 +655,7 @@ impl FheProcessor {
         }
 
         self.debug_handlers = vec![];
+        self.gas_used = 0;
 
         // Clear any fault
         self.aux_data.fault = Arc::new(OnceLock::new());
@@ -675,8 +694,6 @@ impl FheProcessor {
         args: &CallData<T>,
         options: &RunProgramOptions,
     ) -> Result<(u32, T)> {
-        let gas_limit = options.gas_limit();
-
         self.reset()?;
         let caller_sp = memory.stack_ptr();
         let return_data = self.set_up_function_call(memory, args)?;
@@ -685,7 +702,6 @@ impl FheProcessor {
 
         let mut run_program_impl = || {
             self.pc = initial_pc.0;
-            let mut gas = 0;
 
             loop {
                 // If an async error occurred, stop issuing new instructions.
@@ -699,8 +715,7 @@ impl FheProcessor {
                 let pc_result = self.dispatch_instruction(inst, self.pc, options);
 
                 match pc_result {
-                    Ok((next_pc, used_gas)) => {
-                        gas += used_gas;
+                    Ok(next_pc) => {
                         self.pc = next_pc;
                     }
                     Err(e) => match e {
@@ -712,18 +727,14 @@ impl FheProcessor {
                 }
             }
 
-            Ok::<_, Error>(gas)
+            Ok::<_, Error>(())
         };
 
-        let gas = match run_program_impl() {
-            Ok(gas) => gas,
-            Err(e) => {
-                // Attempt to overwrite the current fault. If the frontend returned
-                // an error due to a previous fault, this will fail, but whatever.
-                let _ = self.aux_data.fault.set(e);
-                gas_limit.unwrap_or_default()
-            }
-        };
+        if let Err(e) = run_program_impl() {
+            // Attempt to overwrite the current fault. If the frontend returned
+            // an error due to a previous fault, this will fail, but whatever.
+            let _ = self.aux_data.fault.set(e);
+        }
 
         self.wait(options);
 
@@ -739,7 +750,7 @@ impl FheProcessor {
         }
 
         self.try_capture_return_value(memory, args, return_data)
-            .map(|ret_val| (gas, ret_val))
+            .map(|ret_val| (self.gas_used, ret_val))
     }
 
     /// Runs the given program using the passed user `data` as arguments.
@@ -795,6 +806,11 @@ impl Tomasulo for FheProcessor {
             return;
         }
 
+        if let Err(e) = self.charge_gas(&instruction, options) {
+            FheProcessor::retire(&retirement_info, Err(e));
+            return;
+        }
+
         match instruction {
             Load(dst, src, width, offset) => {
                 self.load(
-- 
2.43.0


From 62d9d54bb9ced0b0cb24132778f86d5bb3a51dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:57 +0000
Subject: [PATCH 56/63] fix: refuse radix decompositions whose digit count
 overflows

---
 sunscreen_tfhe/src/params.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/params.rs b/sunscreen_tfhe/src/params.rs
index 599e7bc..0acfd21 100644
--- a/sunscreen_tfhe/src/params.rs
+++ b/sunscreen_tfhe/src/params.rs
@@ -121,7 +121,12 @@ impl RadixDecomposition {
     pub fn assert_valid<S: TorusOps>(&self) {
         assert!(self.count.0 > 0);
         assert!(self.radix_log.0 > 0);
-        assert!(self.count.0 * self.radix_log.0 <= S::BITS as usize);
+        assert!(
+            self.count
+                .0
+                .checked_mul(self.radix_log.0)
+                .is_some_and(|bits| bits <= S::BITS as usize)
+        );
     }
 }
 
-- 
2.43.0


From 9d617532be1e9cbcb0b9115e8e132968be26595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:57 +0000
Subject: [PATCH 57/63] fix: refuse LWE keys and ciphertexts that do not fit
 the parameters

---
 sunscreen_tfhe/src/entities/lwe_secret_key.rs       | 3 +++
 sunscreen_tfhe/src/ops/encryption/lwe_encryption.rs | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/sunscreen_tfhe/src/entities/lwe_secret_key.rs b/sunscreen_tfhe/src/entities/lwe_secret_key.rs
index 9ec357d..0db84c6 100644
--- a/sunscreen_tfhe/src/entities/lwe_secret_key.rs
+++ b/sunscreen_tfhe/src/entities/lwe_secret_key.rs
@@ -40,6 +40,8 @@ where
     S: TorusOps,
 {
     fn generate(params: &LweDef, torus_element_generator: fn() -> S) -> Self {
+        params.assert_valid();
+
         let len = LweSecretKeyRef::<S>::size(params.dim);
 
         LweSecretKey {
@@ -92,6 +94,7 @@ where
     pub fn decrypt_without_decode(&self, ct: &LweCiphertextRef<S>, params: &LweDef) -> Torus<S> {
         params.assert_valid();
         ct.assert_is_valid(params.dim);
+        self.assert_is_valid(params.dim);
 
         let (a, b) = ct.a_b(params);
 
diff --git a/sunscreen_tfhe/src/ops/encryption/lwe_encryption.rs b/sunscreen_tfhe/src/ops/encryption/lwe_encryption.rs
index 57bfa57..4b55680 100644
--- a/sunscreen_tfhe/src/ops/encryption/lwe_encryption.rs
+++ b/sunscreen_tfhe/src/ops/encryption/lwe_encryption.rs
@@ -43,6 +43,8 @@ where
     S: TorusOps,
 {
     params.assert_valid();
+    ct.assert_is_valid(params.dim);
+    sk.assert_is_valid(params.dim);
 
     let (a, b) = ct.a_b_mut(params);
     *b = Torus::zero();
-- 
2.43.0


From a31309a601920dadc4ac395adde713db59f0728f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:57 +0000
Subject: [PATCH 58/63] fix: refuse GLWE, GLEV and GGSW operands that do not
 fit the parameters when encrypting and decrypting

---
 .../src/ops/encryption/ggsw_encryption.rs        |  8 ++++++++
 .../src/ops/encryption/glev_encryption.rs        |  1 +
 .../src/ops/encryption/glwe_encryption.rs        | 16 +++++++++++++++-
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/ops/encryption/ggsw_encryption.rs b/sunscreen_tfhe/src/ops/encryption/ggsw_encryption.rs
index 32f38b2..379e107 100644
--- a/sunscreen_tfhe/src/ops/encryption/ggsw_encryption.rs
+++ b/sunscreen_tfhe/src/ops/encryption/ggsw_encryption.rs
@@ -29,6 +29,14 @@ pub(crate) fn encrypt_ggsw_ciphertext_generic<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    radix.assert_valid::<S>();
+    ggsw_ciphertext.assert_is_valid((params.dim, radix.count));
+    msg.assert_is_valid(params.dim.polynomial_degree);
+    glwe_secret_key.assert_is_valid(params.dim);
+
+    assert!(plaintext_bits.0 < S::BITS);
+
     let max_val = S::from_u64(0x1 << plaintext_bits.0);
     assert!(msg.coeffs().iter().all(|x| *x < max_val));
 
diff --git a/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs b/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
index bd91437..d996a15 100644
--- a/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
+++ b/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
@@ -35,6 +35,7 @@ pub(crate) fn encrypt_secret_glev_ciphertext_generic<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
     radix.assert_valid::<S>();
     glev_ciphertext.assert_is_valid((params.dim, radix.count));
     msg.assert_is_valid(params.dim.polynomial_degree);
diff --git a/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs b/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
index 38ec73f..468a630 100644
--- a/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
+++ b/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
@@ -1,7 +1,7 @@
 use num::Zero;
 
 use crate::{
-    GlweDef, Torus, TorusOps,
+    GlweDef, OverlaySize, Torus, TorusOps,
     entities::{GlweCiphertextRef, GlweSecretKeyRef, Polynomial, PolynomialRef},
     polynomial::{polynomial_add_assign, polynomial_external_mad, polynomial_sub_assign},
     rand::{normal_torus, uniform_torus},
@@ -27,6 +27,11 @@ pub fn encrypt_glwe_ciphertext_secret_generic<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    c.assert_is_valid(params.dim);
+    msg.assert_is_valid(params.dim.polynomial_degree);
+    sk.assert_is_valid(params.dim);
+
     let mut tmp = Polynomial::zero(params.dim.polynomial_degree.0);
 
     let (a, b) = c.a_b_mut(params);
@@ -83,6 +88,10 @@ pub fn trivially_encrypt_glwe_ciphertext<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    c.assert_is_valid(params.dim);
+    msg.assert_is_valid(params.dim.polynomial_degree);
+
     let (a, b) = c.a_b_mut(params);
 
     // tmp = A_i * S_i
@@ -109,6 +118,11 @@ pub fn decrypt_glwe_ciphertext<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    msg.assert_is_valid(params.dim.polynomial_degree);
+    ct.assert_is_valid(params.dim);
+    sk.assert_is_valid(params.dim);
+
     let (a, b) = ct.a_b(params);
 
     let mut tmp = Polynomial::zero(b.len());
-- 
2.43.0


From ddb820e9dcd15d22fba7ff45e6e7bed835fc9d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:57 +0000
Subject: [PATCH 59/63] fix: refuse keys and ciphertexts that do not fit the
 parameters in Fourier transforms

---
 sunscreen_tfhe/src/entities/automorphism_key.rs  | 5 +++++
 sunscreen_tfhe/src/entities/bootstrap_key.rs     | 3 +++
 sunscreen_tfhe/src/entities/ggsw_ciphertext.rs   | 2 ++
 sunscreen_tfhe/src/entities/glwe_ciphertext.rs   | 1 +
 sunscreen_tfhe/src/entities/scheme_switch_key.rs | 2 ++
 5 files changed, 13 insertions(+)

diff --git a/sunscreen_tfhe/src/entities/automorphism_key.rs b/sunscreen_tfhe/src/entities/automorphism_key.rs
index 58dcfd2..777f644 100644
--- a/sunscreen_tfhe/src/entities/automorphism_key.rs
+++ b/sunscreen_tfhe/src/entities/automorphism_key.rs
@@ -71,6 +71,11 @@ impl<S: TorusOps> AutomorphismKeyRef<S> {
         glwe: &GlweDef,
         radix: &RadixDecomposition,
     ) {
+        glwe.assert_valid();
+        radix.assert_valid::<S>();
+        self.assert_is_valid((glwe.dim, radix.count));
+        result.assert_is_valid((glwe.dim, radix.count));
+
         for (i, o) in self
             .keyswitch_keys(glwe, radix)
             .zip(result.keyswitch_keys_mut(glwe, radix))
diff --git a/sunscreen_tfhe/src/entities/bootstrap_key.rs b/sunscreen_tfhe/src/entities/bootstrap_key.rs
index ed12d5f..b723186 100644
--- a/sunscreen_tfhe/src/entities/bootstrap_key.rs
+++ b/sunscreen_tfhe/src/entities/bootstrap_key.rs
@@ -96,6 +96,9 @@ impl<S: TorusOps> BootstrapKeyRef<S> {
         glwe: &GlweDef,
         radix: &RadixDecomposition,
     ) {
+        lwe.assert_valid();
+        glwe.assert_valid();
+        radix.assert_valid::<S>();
         self.assert_is_valid((lwe.dim, glwe.dim, radix.count));
         result.assert_is_valid((lwe.dim, glwe.dim, radix.count));
 
diff --git a/sunscreen_tfhe/src/entities/ggsw_ciphertext.rs b/sunscreen_tfhe/src/entities/ggsw_ciphertext.rs
index db902c2..6a4d3d6 100644
--- a/sunscreen_tfhe/src/entities/ggsw_ciphertext.rs
+++ b/sunscreen_tfhe/src/entities/ggsw_ciphertext.rs
@@ -101,6 +101,8 @@ where
         params: &GlweDef,
         radix: &RadixDecomposition,
     ) {
+        params.assert_valid();
+        radix.assert_valid::<S>();
         self.assert_is_valid((params.dim, radix.count));
         result.assert_is_valid((params.dim, radix.count));
 
diff --git a/sunscreen_tfhe/src/entities/glwe_ciphertext.rs b/sunscreen_tfhe/src/entities/glwe_ciphertext.rs
index 5b55304..bddc004 100644
--- a/sunscreen_tfhe/src/entities/glwe_ciphertext.rs
+++ b/sunscreen_tfhe/src/entities/glwe_ciphertext.rs
@@ -139,6 +139,7 @@ where
 
     /// Create an FFT transformed version of `self` stored to result.
     pub fn fft(&self, result: &mut GlweCiphertextFftRef<Complex<f64>>, params: &GlweDef) {
+        params.assert_valid();
         self.assert_is_valid(params.dim);
         result.assert_is_valid(params.dim);
 
diff --git a/sunscreen_tfhe/src/entities/scheme_switch_key.rs b/sunscreen_tfhe/src/entities/scheme_switch_key.rs
index f823f82..10b9114 100644
--- a/sunscreen_tfhe/src/entities/scheme_switch_key.rs
+++ b/sunscreen_tfhe/src/entities/scheme_switch_key.rs
@@ -177,6 +177,8 @@ where
         params: &GlweDef,
         radix: &RadixDecomposition,
     ) {
+        params.assert_valid();
+        radix.assert_valid::<S>();
         self.assert_is_valid((params.dim, radix.count));
         result.assert_is_valid((params.dim, radix.count));
 
-- 
2.43.0


From 8d953831fce2a906aa6dae028c586436f9259534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:57 +0000
Subject: [PATCH 60/63] fix: multiplex GLEVs with a different level count than
 the selector, refuse mismatched ones

---
 sunscreen_tfhe/src/high_level.rs  | 16 ++++++++++++++--
 sunscreen_tfhe/src/ops/fft_ops.rs | 16 +++++++++++++++-
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/sunscreen_tfhe/src/high_level.rs b/sunscreen_tfhe/src/high_level.rs
index 5945914..d7199fa 100644
--- a/sunscreen_tfhe/src/high_level.rs
+++ b/sunscreen_tfhe/src/high_level.rs
@@ -929,7 +929,8 @@ pub mod evaluation {
     use num::Complex;
 
     use crate::{
-        GlweDef, LweDef, RadixDecomposition,
+        GlweDef, LweDef, OverlaySize, RadixCount, RadixDecomposition,
+        dst::AsSlice,
         entities::{
             AutomorphismKeyFftRef, BootstrapKeyFft, BootstrapKeyFftRef, GgswCiphertextFft,
             GgswCiphertextFftRef, GlevCiphertext, GlevCiphertextRef, GlweCiphertext,
@@ -1002,7 +1003,18 @@ pub mod evaluation {
         params: &GlweDef,
         radix: &RadixDecomposition,
     ) -> GlevCiphertext<u64> {
-        let mut result = GlevCiphertext::new(params, radix);
+        params.assert_valid();
+
+        // `radix` describes `b_fft`; the result has as many levels as the GLEVs.
+        let mut result = GlevCiphertext::new(
+            params,
+            &RadixDecomposition {
+                count: RadixCount(
+                    d_0.as_slice().len() / GlweCiphertextRef::<u64>::size(params.dim),
+                ),
+                radix_log: radix.radix_log,
+            },
+        );
 
         crate::ops::fft_ops::glev_cmux(&mut result, d_0, d_1, b_fft, params, radix);
 
diff --git a/sunscreen_tfhe/src/ops/fft_ops.rs b/sunscreen_tfhe/src/ops/fft_ops.rs
index d177369..b1cd6fc 100644
--- a/sunscreen_tfhe/src/ops/fft_ops.rs
+++ b/sunscreen_tfhe/src/ops/fft_ops.rs
@@ -2,7 +2,7 @@ use num::Complex;
 
 use crate::{
     GlweDef, RadixDecomposition, TorusOps,
-    dst::{FromMutSlice, OverlaySize},
+    dst::{AsSlice, FromMutSlice, OverlaySize},
     entities::{
         GgswCiphertextFftRef, GlevCiphertextFftRef, GlevCiphertextRef, GlweCiphertextFftRef,
         GlweCiphertextRef, GlweKeyswitchKeyFftRef, PolynomialFftRef, PolynomialRef,
@@ -210,6 +210,17 @@ pub fn glev_cmux<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    ggsw_radix.assert_valid::<S>();
+    b_fft.assert_is_valid((params.dim, ggsw_radix.count));
+
+    // The GLEVs share a level count of their own.
+    let glwe_len = GlweCiphertextRef::<S>::size(params.dim);
+    assert!(!c.as_slice().is_empty());
+    assert!(c.as_slice().len() % glwe_len == 0);
+    assert_eq!(c.as_slice().len(), d_0.as_slice().len());
+    assert_eq!(c.as_slice().len(), d_1.as_slice().len());
+
     for ((c, d_0), d_1) in c
         .glwe_ciphertexts_mut(params)
         .zip(d_0.glwe_ciphertexts(params))
@@ -413,6 +424,9 @@ pub fn scheme_switch_fft<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    radix_ggsw.assert_valid::<S>();
+    radix_ss.assert_valid::<S>();
     ssk_fft.assert_is_valid((params.dim, radix_ss.count));
     output.assert_is_valid((params.dim, radix_ggsw.count));
     glev_ciphertext.assert_is_valid((params.dim, radix_ggsw.count));
-- 
2.43.0


From 09ced39fa84c70bdef9215da4a049a7a9ed8bd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:57 +0000
Subject: [PATCH 61/63] fix: refuse operands that do not fit the parameters in
 bootstrapping, extraction and keyswitching

---
 .../src/ops/bootstrapping/programmable_bootstrapping.rs     | 3 +++
 sunscreen_tfhe/src/ops/bootstrapping/scheme_switch.rs       | 3 +++
 sunscreen_tfhe/src/ops/ciphertext/glwe_ciphertext_ops.rs    | 2 ++
 .../src/ops/keyswitch/private_functional_keyswitch.rs       | 4 ++++
 .../src/ops/keyswitch/public_functional_keyswitch.rs        | 6 ++++++
 5 files changed, 18 insertions(+)

diff --git a/sunscreen_tfhe/src/ops/bootstrapping/programmable_bootstrapping.rs b/sunscreen_tfhe/src/ops/bootstrapping/programmable_bootstrapping.rs
index 30ce717..d714569 100644
--- a/sunscreen_tfhe/src/ops/bootstrapping/programmable_bootstrapping.rs
+++ b/sunscreen_tfhe/src/ops/bootstrapping/programmable_bootstrapping.rs
@@ -603,6 +603,9 @@ pub fn programmable_bootstrap_bivariate<S>(
     // 5. Add the left and right encrypted inputs together.
     // 6. Perform the programmable bootstrapping with this combined input.
 
+    left_input.assert_is_valid(lwe_params.dim);
+    right_input.assert_is_valid(lwe_params.dim);
+
     let shift = (1 << plaintext_bits.0) as u64;
 
     allocate_scratch_ref!(pbs_input, LweCiphertextRef<S>, (lwe_params.dim));
diff --git a/sunscreen_tfhe/src/ops/bootstrapping/scheme_switch.rs b/sunscreen_tfhe/src/ops/bootstrapping/scheme_switch.rs
index 61cd0d7..45629eb 100644
--- a/sunscreen_tfhe/src/ops/bootstrapping/scheme_switch.rs
+++ b/sunscreen_tfhe/src/ops/bootstrapping/scheme_switch.rs
@@ -261,6 +261,9 @@ pub fn scheme_switch<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    radix_ggsw.assert_valid::<S>();
+    radix_ss.assert_valid::<S>();
     ssk.assert_is_valid((params.dim, radix_ss.count));
     output.assert_is_valid((params.dim, radix_ggsw.count));
     glev_ciphertext.assert_is_valid((params.dim, radix_ggsw.count));
diff --git a/sunscreen_tfhe/src/ops/ciphertext/glwe_ciphertext_ops.rs b/sunscreen_tfhe/src/ops/ciphertext/glwe_ciphertext_ops.rs
index e1dc3f3..8456211 100644
--- a/sunscreen_tfhe/src/ops/ciphertext/glwe_ciphertext_ops.rs
+++ b/sunscreen_tfhe/src/ops/ciphertext/glwe_ciphertext_ops.rs
@@ -36,6 +36,8 @@ pub fn sample_extract<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    output.assert_is_valid(params.as_lwe_def().dim);
     glwe.assert_is_valid(params.dim);
     assert!(h < params.dim.polynomial_degree.0);
 
diff --git a/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs b/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
index a3298f9..d9ff292 100644
--- a/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
+++ b/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
@@ -122,6 +122,10 @@ pub fn private_functional_keyswitch<S: TorusOps>(
 
     assert_eq!(lwe_count.0, inputs.len());
 
+    for input in inputs {
+        input.assert_is_valid(from_lwe.dim);
+    }
+
     let mut ksk_glevs = pfksk.glevs(to_glwe, radix);
 
     output.clear();
diff --git a/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs b/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
index 9cac4e0..65ee20c 100644
--- a/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
+++ b/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
@@ -34,6 +34,9 @@ pub fn generate_public_functional_keyswitch_key<S: TorusOps>(
     to_glwe: &GlweDef,
     radix: &RadixDecomposition,
 ) {
+    from_lwe.assert_valid();
+    to_glwe.assert_valid();
+    radix.assert_valid::<S>();
     from_sk.assert_is_valid(from_lwe.dim);
     to_sk.assert_is_valid(to_glwe.dim);
     output.assert_is_valid((from_lwe.dim, to_glwe.dim, radix.count));
@@ -83,6 +86,9 @@ pub fn public_functional_keyswitch<S, F>(
     S: TorusOps,
     F: Fn(&mut PolynomialRef<Torus<S>>, &[Torus<S>]),
 {
+    from_lwe.assert_valid();
+    to_glwe.assert_valid();
+    radix.assert_valid::<S>();
     pufksk.assert_is_valid((from_lwe.dim, to_glwe.dim, radix.count));
     output.assert_is_valid(to_glwe.dim);
 
-- 
2.43.0


From 278bbf16eb0a8035f1457af27391cc4fd8dd92c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:53 +0000
Subject: [PATCH 62/63] fix: refuse lookup tables with more functions than
 coefficients per message

---
 .../src/ops/bootstrapping/programmable_bootstrapping.rs      | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/ops/bootstrapping/programmable_bootstrapping.rs b/sunscreen_tfhe/src/ops/bootstrapping/programmable_bootstrapping.rs
index d714569..dac0bf3 100644
--- a/sunscreen_tfhe/src/ops/bootstrapping/programmable_bootstrapping.rs
+++ b/sunscreen_tfhe/src/ops/bootstrapping/programmable_bootstrapping.rs
@@ -148,7 +148,10 @@ pub(crate) fn generate_lut<S, F>(
 
     let ceil_v = 0x1usize << log_v;
 
-    assert!(n >= p);
+    assert!(
+        n / p >= ceil_v,
+        "The lookup table has fewer coefficients per message than functions"
+    );
 
     let stride = n / p;
 
-- 
2.43.0


From 1a0934eb781d5d129eab7ff7c6001d0715a3e5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:43 +0000
Subject: [PATCH 63/63] fix: derive IntoBytes for tuple structs and for any
 field names

---
 parasol_cpu_macros/src/lib.rs | 55 ++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/parasol_cpu_macros/src/lib.rs b/parasol_cpu_macros/src/lib.rs
index e5d5654..6a59859 100644
--- a/parasol_cpu_macros/src/lib.rs
+++ b/parasol_cpu_macros/src/lib.rs
@@ -5,8 +5,8 @@
 extern crate proc_macro;
 use proc_macro::TokenStream;
 use proc_macro2::TokenStream as TokenStream2;
-use quote::quote;
-use syn::{Data, DeriveInput, Fields, parse_macro_input};
+use quote::{format_ident, quote};
+use syn::{Data, DeriveInput, Fields, Index, parse_macro_input};
 
 #[proc_macro_derive(IntoBytes)]
 /// Allows you to `#[derive(IntoBytes)]` on structures where each member impls
@@ -30,28 +30,29 @@ fn derive_into_bytes_impl(item: DeriveInput) -> TokenStream2 {
         }
     };
 
-    let field_idents = match &fields {
-        Fields::Unnamed(x) => x
-            .unnamed
-            .iter()
-            .enumerate()
-            .map(|(i, _)| quote! { #i })
-            .collect::<Vec<_>>(),
-        Fields::Named(x) => x
-            .named
-            .iter()
-            .map(|f| {
-                let ident = f.ident.clone().unwrap();
-
-                quote! { #ident }
-            })
-            .collect::<Vec<_>>(),
-        Fields::Unit => {
-            return quote! {
-                compile_error("Structs must have at least one member.")
-            };
-        }
-    };
+    if matches!(fields, Fields::Unit) {
+        return quote! {
+            compile_error!("Structs must have at least one member.")
+        };
+    }
+
+    // How to refer to each field (a name or, in a tuple struct, an index) and a binding to hold
+    // its value that can't collide with the other names in the generated code.
+    let field_members = fields
+        .iter()
+        .enumerate()
+        .map(|(i, f)| match &f.ident {
+            Some(ident) => quote! { #ident },
+            None => {
+                let i = Index::from(i);
+
+                quote! { #i }
+            }
+        })
+        .collect::<Vec<_>>();
+    let field_values = (0..fields.len())
+        .map(|i| format_ident!("__field_{i}"))
+        .collect::<Vec<_>>();
 
     let field_types = fields.iter().cloned().map(|x| x.ty).collect::<Vec<_>>();
 
@@ -102,7 +103,7 @@ fn derive_into_bytes_impl(item: DeriveInput) -> TokenStream2 {
                     cur_offset = cur_offset.next_multiple_of(<#field_types as tfhe_cpu::IntoBytes>::alignment());
 
                     let byte_slice = &mut data[cur_offset..cur_offset + <#field_types as tfhe_cpu::IntoBytes>::size()];
-                    <#field_types as tfhe_cpu::IntoBytes>::try_into_bytes(&self. #field_idents, byte_slice)?;
+                    <#field_types as tfhe_cpu::IntoBytes>::try_into_bytes(&self. #field_members, byte_slice)?;
                 )*
 
                 Ok(())
@@ -120,12 +121,12 @@ fn derive_into_bytes_impl(item: DeriveInput) -> TokenStream2 {
                     cur_offset = cur_offset.next_multiple_of(<#field_types as tfhe_cpu::IntoBytes>::alignment());
 
                     let byte_slice = &data[cur_offset..cur_offset + <#field_types as tfhe_cpu::IntoBytes>::size()];
-                    let #field_idents = <#field_types as tfhe_cpu::IntoBytes>::try_from_bytes( byte_slice)?;
+                    let #field_values = <#field_types as tfhe_cpu::IntoBytes>::try_from_bytes( byte_slice)?;
                 )*
 
 
                 Ok(Self {
-                    #(#field_idents,)*
+                    #(#field_members: #field_values,)*
                 })
             }
         }
-- 
2.43.0

