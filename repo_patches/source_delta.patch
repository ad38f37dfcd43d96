From 0a54c8169cf7f6ab8ff516e6a0481d46b9ac706a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 1/6] fix: hashing circuit constants no longer panics in the
 MDS layer

---
 poseidon-permutation/src/r1cs.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/poseidon-permutation/src/r1cs.rs b/poseidon-permutation/src/r1cs.rs
index 71b3a59..d3cc4f3 100644
--- a/poseidon-permutation/src/r1cs.rs
+++ b/poseidon-permutation/src/r1cs.rs
@@ -173,8 +173,14 @@ impl<
                             * y
                     })
                     .collect();
-                let result = temp_vec.iter().sum();
-                result
+                // `FpVar::sum` requires at least one variable among the terms.
+                if temp_vec.iter().all(|term| term.is_constant()) {
+                    temp_vec
+                        .iter()
+                        .fold(FpVar::zero(), |total, term| total + term)
+                } else {
+                    temp_vec.iter().sum()
+                }
             })
             .collect();
     }
-- 
2.43.0


From ff05543ee892726c1e610202833363265f4354ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:30 +0000
Subject: [PATCH 2/6] fix: inverting the 1x1 zero matrix reports
 NoMatrixInverse instead of panicking

---
 poseidon-parameters/src/matrix.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/poseidon-parameters/src/matrix.rs b/poseidon-parameters/src/matrix.rs
index 45a0517..a090096 100644
--- a/poseidon-parameters/src/matrix.rs
+++ b/poseidon-parameters/src/matrix.rs
@@ -211,11 +211,11 @@ impl<const N_ROWS: usize, const N_ELEMENTS: usize> SquareMatrixOperations
         let identity = Self::identity();
 
         if self.n_rows() == 1 {
-            let elements = [self
+            let element = self
                 .get_element(0, 0)
                 .inverse()
-                .expect("inverse of single element must exist for 1x1 matrix")];
-            return Ok(Self::new(&elements));
+                .ok_or(PoseidonParameterError::NoMatrixInverse)?;
+            return Ok(Self::new(&[element]));
         }
 
         let determinant = self.determinant();
-- 
2.43.0


From b37fa6833c16e8809b27aa6783a317c9f1231362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:30 +0000
Subject: [PATCH 3/6] fix: row_vector returns a one-row matrix for matrices of
 several rows

---
 poseidon-parameters/src/matrix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poseidon-parameters/src/matrix.rs b/poseidon-parameters/src/matrix.rs
index a090096..19586f1 100644
--- a/poseidon-parameters/src/matrix.rs
+++ b/poseidon-parameters/src/matrix.rs
@@ -146,7 +146,7 @@ impl<const N_ROWS: usize, const N_COLS: usize, const N_ELEMENTS: usize>
     Matrix<N_ROWS, N_COLS, N_ELEMENTS>
 {
     /// Get row vector at a specified row index
-    pub fn row_vector(&self, i: usize) -> Matrix<1, N_COLS, N_ELEMENTS> {
+    pub fn row_vector(&self, i: usize) -> Matrix<1, N_COLS, N_COLS> {
         let mut row_elements = [Fq::default(); N_COLS];
         for j in 0..N_COLS {
             row_elements[j] = self.get_element(i, j);
@@ -322,7 +322,7 @@ impl<const N_ROWS: usize, const N_ELEMENTS: usize> Mul<Fq> for SquareMatrix<N_RO
 
 impl<const N_ROWS: usize, const N_ELEMENTS: usize> SquareMatrix<N_ROWS, N_ELEMENTS> {
     /// Get row vector at a specified row index.
-    pub fn row_vector(&self, i: usize) -> Matrix<1, N_ROWS, N_ELEMENTS> {
+    pub fn row_vector(&self, i: usize) -> Matrix<1, N_ROWS, N_ROWS> {
         self.0.row_vector(i)
     }
 
-- 
2.43.0


From 5836ba6ec5c477a0e8027347d187f064234c8c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 4/6] fix: inverse S-box maps zero to zero instead of panicking

---
 poseidon-permutation/src/permutation.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/poseidon-permutation/src/permutation.rs b/poseidon-permutation/src/permutation.rs
index a3c1c70..18f2c4e 100644
--- a/poseidon-permutation/src/permutation.rs
+++ b/poseidon-permutation/src/permutation.rs
@@ -219,7 +219,10 @@ impl<
     fn partial_sub_words(&mut self) {
         match self.parameters.alpha {
             Alpha::Exponent(exp) => self.state_words[0] = (self.state_words[0]).power([exp as u64]),
-            Alpha::Inverse => self.state_words[0] = Fq::from(1u64) / self.state_words[0],
+            // The inverse S-box maps zero to zero.
+            Alpha::Inverse => {
+                self.state_words[0] = self.state_words[0].inverse().unwrap_or(Fq::ZERO)
+            }
         }
     }
 
@@ -231,9 +234,10 @@ impl<
                     self.state_words[i] = self.state_words[i].power([exp as u64]);
                 }
             }
+            // The inverse S-box maps zero to zero.
             Alpha::Inverse => {
                 for i in 0..STATE_SIZE {
-                    self.state_words[i] = Fq::from(1u64) / self.state_words[i];
+                    self.state_words[i] = self.state_words[i].inverse().unwrap_or(Fq::ZERO);
                 }
             }
         }
-- 
2.43.0


From 89944a4a687528f7ae64a12cf716e8b73b7be160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:45 +0000
Subject: [PATCH 5/6] fix: keep the precision of utils::log2 for every modulus
 size

The loop shifted by 48 bits while the value exceeded 2^50, which left as few
as three significant bits (51-, 99-, 147-, 195- and 243-bit moduli), so the
derived log_2(p) was off by up to 0.3 bits there.
---
 poseidon-paramgen/src/utils.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/poseidon-paramgen/src/utils.rs b/poseidon-paramgen/src/utils.rs
index c010682..bc64457 100644
--- a/poseidon-paramgen/src/utils.rs
+++ b/poseidon-paramgen/src/utils.rs
@@ -8,12 +8,10 @@ where
     P: BigInteger,
 {
     let mut p_biguint: BigUint = x.into();
-    let two_to_50: BigUint = 1125899906842624u64.into(); // 2**50
-    let mut log_bit_boundaries = 0;
-    while p_biguint > two_to_50 {
-        p_biguint >>= 48u64;
-        log_bit_boundaries += 48;
-    }
+    // Keep the 40 most significant bits: these fit in an `f64` exactly, and
+    // the rest does not contribute to the result.
+    let log_bit_boundaries = p_biguint.bits().saturating_sub(40);
+    p_biguint >>= log_bit_boundaries;
     let mut p_le_bytes = p_biguint.to_bytes_le();
     // `u64::from_le_bytes` takes `[u8; 8]` but `p_le_bytes` is a Vec<u8>
     // so we must pad the vec to the proper size:
-- 
2.43.0


From e600d8a1ef693c478dd98ca4c7202a0cb678ff89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:45 +0000
Subject: [PATCH 6/6] fix: test the exponent candidate itself for coprimality

The candidate was reduced modulo p first, so for p = 3 the candidate 3 (which
is coprime to p - 1 = 2) became 0 and 7 was chosen instead.
---
 poseidon-paramgen/src/alpha.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/poseidon-paramgen/src/alpha.rs b/poseidon-paramgen/src/alpha.rs
index 5dd51c0..5988ff1 100644
--- a/poseidon-paramgen/src/alpha.rs
+++ b/poseidon-paramgen/src/alpha.rs
@@ -62,11 +62,9 @@ pub fn generate<F: PrimeField>(p: F::BigInt, allow_inverse: bool) -> Alpha {
 }
 
 fn alpha_coprime_to_p_minus_one<F: PrimeField>(alpha: u32, p: F::BigInt) -> bool {
-    let one: BigUint = F::one().into();
-    let p_minus_one: BigUint = p.into() - one;
-    let alpha_bigint: BigUint = F::from(alpha).into();
-    let computed_gcd = gcd(alpha_bigint, p_minus_one);
-    F::from(computed_gcd) == F::one()
+    let one = BigUint::from(1u32);
+    let p_minus_one: BigUint = p.into() - &one;
+    gcd(BigUint::from(alpha), p_minus_one) == one
 }
 
 #[cfg(test)]
-- 
2.43.0

