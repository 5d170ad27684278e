From 80836f3b063307b988cd6abcb6ac59ab0dbacd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:15 +0000
Subject: [PATCH 01/13] fix: SIMD slot index map must halve the index of the
 second row

---
 src/bfv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 1c06d09..1447aaa 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -147,7 +147,7 @@ impl BfvParameters {
         let mut matrix_reps_index_map = vec![0usize; degree];
         for i in 0..row_size {
             let index1 = (pos - 1) >> 1;
-            let index2 = (m - pos - 1);
+            let index2 = (m - pos - 1) >> 1;
 
             matrix_reps_index_map[i] = index1.reverse_bits() >> (degree.leading_zeros() + 1);
             matrix_reps_index_map[row_size | i] =
-- 
2.43.0


From cb44325e0df9775e95479b74c79440adb66f7a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:15 +0000
Subject: [PATCH 02/13] fix: adding a plaintext polynomial must leave c1
 unchanged

---
 src/bfv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 1447aaa..1a8b320 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -444,7 +444,7 @@ impl Add<&Poly> for &BfvCipherText {
         assert!(self.cts[0].context == rhs.context);
 
         let c0 = &self.cts[0] + rhs;
-        let c1 = &self.cts[1] + rhs;
+        let c1 = self.cts[1].clone();
 
         BfvCipherText {
             params: self.params.clone(),
-- 
2.43.0


From 4188c5d622e0759727cffb99eadbdc1f7fca980d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:15 +0000
Subject: [PATCH 03/13] fix: ciphertext product must accumulate the cross terms
 of the tensor

---
 src/bfv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 1a8b320..dd77004 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -496,7 +496,7 @@ impl Mul<&BfvCipherText> for &BfvCipherText {
         ];
         for i in 0..self.cts.len() {
             for j in 0..rhs.cts.len() {
-                cs[i + j] = &self_scaled[i] * &other_scaled[j];
+                cs[i + j] += &(&self_scaled[i] * &other_scaled[j]);
             }
         }
 
-- 
2.43.0


From f70d03474225ef1124c9e6c5d99afadad05c8ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:15 +0000
Subject: [PATCH 04/13] fix: encrypt_poly must record the level of the
 polynomial it encrypts

---
 src/bfv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index dd77004..10b78a7 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -324,7 +324,7 @@ impl SecretKey {
         BfvCipherText {
             cts: vec![b, a],
             params: self.params.clone(),
-            level: 0, // FIXME: change this
+            level: self.params.ctx_level(&pt.context).unwrap(),
         }
     }
 
-- 
2.43.0


From daefa6e7a09abd227b9cd5a754d3c88d2567efbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:50 +0000
Subject: [PATCH 05/13] fix: Modulus::bits must count the bits of p

---
 src/modulus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modulus.rs b/src/modulus.rs
index d1a8ddb..654648b 100644
--- a/src/modulus.rs
+++ b/src/modulus.rs
@@ -256,6 +256,6 @@ impl Modulus {
     }
 
     pub fn bits(&self) -> u64 {
-        u64::MAX - self.p.leading_zeros().to_u64().unwrap()
+        64 - self.p.leading_zeros().to_u64().unwrap()
     }
 }
-- 
2.43.0


From 815781584c202ef239eabbca675df33656661398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:50 +0000
Subject: [PATCH 06/13] fix: build X^-(2^i) directly, an even exponent is not a
 valid substitution

---
 src/evaluations.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/evaluations.rs b/src/evaluations.rs
index bbe39a4..2e790ff 100644
--- a/src/evaluations.rs
+++ b/src/evaluations.rs
@@ -300,13 +300,12 @@ impl Evaluation {
 
     fn gen_x_pows(n: usize, ctx: &Arc<RqContext>) -> Vec<Poly> {
         let mut polys = Vec::<Poly>::new();
-        // X
-        let x = Poly::try_from_vec_u64(&ctx, &[0u64, 1]);
         for i in 0..ilog2(n) {
-            let mut xi = x.clone();
             // X^-(2^i) = -X^(N - 2^i), since X^-k = -(X^(N-k))
             let ex = n - 2usize.pow(i as u32);
-            xi = -&xi.substitute(&Substitution::new(&x.context, ex));
+            let mut coeffs = vec![0u64; n];
+            coeffs[ex] = 1;
+            let xi = -&Poly::try_from_vec_u64(ctx, &coeffs);
             polys.push(xi);
         }
         polys
-- 
2.43.0


From 357d933b1dd3b0c1641bc0d335153d3246e37c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:41 +0000
Subject: [PATCH 07/13] fix: only the common prefix of two bases can be copied
 unscaled

---
 src/rq.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rq.rs b/src/rq.rs
index 052b80d..142b5a1 100644
--- a/src/rq.rs
+++ b/src/rq.rs
@@ -89,8 +89,8 @@ impl RqScaler {
         let mut number_common_moduli = 0;
         if scaling_factor.is_one() {
             number_common_moduli = izip!(&from.moduli_64, &to.moduli_64)
-                .into_iter()
-                .fold(0, |acc, (from, to)| if from == to { acc + 1 } else { acc });
+                .take_while(|(from, to)| from == to)
+                .count();
         }
 
         let rns_scaler = RnsScaler::new(&from.rns, &to.rns, scaling_factor.clone());
-- 
2.43.0


From e6e30bf326de34ddd7aabf5e521094debade415b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:41 +0000
Subject: [PATCH 08/13] verif: re-export internals under cfg(verif_hooks)

---
 src/evaluations.rs |  7 +++++++
 src/lib.rs         | 38 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 45 insertions(+)

diff --git a/src/evaluations.rs b/src/evaluations.rs
index 2e790ff..1d5b709 100644
--- a/src/evaluations.rs
+++ b/src/evaluations.rs
@@ -586,3 +586,10 @@ mod tests {
         dbg!(count);
     }
 }
+
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    pub type Client = super::Client;
+    pub type Server = super::Server;
+    pub type Evaluation = super::Evaluation;
+}
diff --git a/src/lib.rs b/src/lib.rs
index 252fdca..5f0b058 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -9,3 +9,41 @@ mod rgsw;
 mod rns;
 mod rq;
 mod utils;
+
+/// Re-exports for the verification harness; compiled only with `--cfg verif_hooks`.
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    pub mod bfv {
+        pub use crate::bfv::*;
+    }
+    pub mod evaluations {
+        pub use crate::evaluations::verif_hooks::*;
+    }
+    pub mod ksk {
+        pub use crate::ksk::*;
+    }
+    pub mod modulus {
+        pub use crate::modulus::*;
+    }
+    pub mod ntt {
+        pub use crate::ntt::*;
+    }
+    pub mod pvw {
+        pub use crate::pvw::*;
+    }
+    pub mod rgsw {
+        pub use crate::rgsw::*;
+    }
+    pub mod rns {
+        pub use crate::rns::*;
+    }
+    pub mod rq {
+        pub use crate::rq::*;
+        pub fn scale(scaler: &RqScaler, p: &Poly) -> Poly {
+            scaler.scale(p)
+        }
+    }
+    pub mod utils {
+        pub use crate::utils::*;
+    }
+}
-- 
2.43.0


From 3f0292f04cd3d3bd200028ccd12c74b05bf0b11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:57 +0000
Subject: [PATCH 09/13] fix: is_prime rejected primes on which the dependency's
 Lucas test fails

---
 src/utils.rs | 52 ++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 50 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 67235f6..19ab6d7 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,5 +1,5 @@
 use num_bigint::BigUint;
-use num_bigint_dig::{prime::probably_prime, BigUint as BigUintDig, ModInverse};
+use num_bigint_dig::{BigUint as BigUintDig, ModInverse};
 use num_traits::{FromPrimitive, One, PrimInt, ToPrimitive, Zero};
 use rand::{CryptoRng, RngCore};
 use rand_distr::{Distribution, Uniform};
@@ -107,8 +107,56 @@ pub fn div_ceil<T: PrimInt>(a: T, b: T) -> T {
 // Ref: https://github.com/tlepoint/fhe.rs/blob/a0287ba3842fcf19b45fd380c56ba7b5e52a387b/crates/fhe-util/src/lib.rs#L0-L1
 
 /// Returns whether the modulus p is prime; this function is 100% accurate.
+///
+/// Miller-Rabin with the first 12 primes as bases is deterministic for every u64
+/// (https://oeis.org/A014233). `probably_prime` isn't used here because its Lucas test
+/// rejects some primes, for ex 1243545601.
 pub fn is_prime(p: u64) -> bool {
-    probably_prime(&BigUintDig::from(p), 0)
+    if p < 2 {
+        return false;
+    }
+    for base in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
+        if p % base == 0 {
+            return p == base;
+        }
+        if !is_strong_probable_prime(p, base) {
+            return false;
+        }
+    }
+    true
+}
+
+/// Miller-Rabin test of odd `p` > 2 for a single base
+fn is_strong_probable_prime(p: u64, base: u64) -> bool {
+    // p - 1 = d * 2^s
+    let mut d = p - 1;
+    let mut s = 0u32;
+    while d % 2 == 0 {
+        d /= 2;
+        s += 1;
+    }
+
+    // base^d mod p
+    let mut x = 1u64;
+    let mut power = base;
+    while d > 0 {
+        if d % 2 == 1 {
+            x = ((x as u128 * power as u128) % p as u128) as u64;
+        }
+        power = ((power as u128 * power as u128) % p as u128) as u64;
+        d /= 2;
+    }
+
+    if x == 1 || x == p - 1 {
+        return true;
+    }
+    for _ in 1..s {
+        x = ((x as u128 * x as u128) % p as u128) as u64;
+        if x == p - 1 {
+            return true;
+        }
+    }
+    false
 }
 
 /// Generate a `num_bits`-bit prime, congruent to 1 mod `modulo`, strictly
-- 
2.43.0


From 864f0fcf08aaa93b0157c4531e40a62791a19602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:59 +0000
Subject: [PATCH 10/13] verif: wrap the private PIR types under
 cfg(verif_hooks)

---
 src/evaluations.rs | 50 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 3 deletions(-)

diff --git a/src/evaluations.rs b/src/evaluations.rs
index 1d5b709..191e6c6 100644
--- a/src/evaluations.rs
+++ b/src/evaluations.rs
@@ -589,7 +589,51 @@ mod tests {
 
 #[cfg(verif_hooks)]
 pub mod verif_hooks {
-    pub type Client = super::Client;
-    pub type Server = super::Server;
-    pub type Evaluation = super::Evaluation;
+    use super::*;
+
+    pub struct Client(super::Client);
+    impl Client {
+        pub fn new(first_dim: usize, dim: usize) -> Self {
+            Client(super::Client::new(first_dim, dim))
+        }
+        pub fn encode(
+            &self,
+            query_dims: Vec<usize>,
+            db_rows: usize,
+            params: &Arc<BfvParameters>,
+            sk: &SecretKey,
+        ) -> Vec<u64> {
+            self.0.encode(query_dims, db_rows, params, sk)
+        }
+    }
+
+    pub struct Evaluation(super::Evaluation);
+    impl Evaluation {
+        pub fn build(sk: &SecretKey, params: &Arc<BfvParameters>) -> Self {
+            Evaluation(super::Evaluation::build(sk, params))
+        }
+        pub fn unpack(&self, ct: BfvCipherText) -> Vec<BfvCipherText> {
+            self.0.unpack(ct)
+        }
+    }
+
+    pub struct Server(super::Server);
+    impl Server {
+        pub fn new(
+            first_dim: usize,
+            dim: usize,
+            db: &Vec<Plaintext>,
+            params: &Arc<BfvParameters>,
+        ) -> Self {
+            Server(super::Server::new(first_dim, dim, db, params))
+        }
+        pub fn decode(
+            &self,
+            query_cts: Vec<BfvCipherText>,
+            eval_key: &Evaluation,
+            params: &Arc<BfvParameters>,
+        ) -> Vec<BfvCipherText> {
+            self.0.decode(query_cts, &eval_key.0, params)
+        }
+    }
 }
-- 
2.43.0


From 68ccdd80345c651c0e139b582caf7c0a48c05b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:16 +0000
Subject: [PATCH 11/13] fix: keep the high bits of v * theta_gamma in
 RnsScaler::scale

The 256-bit product dropped the upper half of v_hi * theta_lo (and every bit
above 192), so once v exceeds 64 bits (bases of many 62-bit moduli) the scaled
value was off by a small integer.
---
 src/rns.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rns.rs b/src/rns.rs
index 771a6b4..6481577 100644
--- a/src/rns.rs
+++ b/src/rns.rs
@@ -363,20 +363,20 @@ impl RnsScaler {
             let vt_hi_hi = ((v >> 64) as u128) * (self.theta_gamma_hi as u128);
             let vt_mi =
                 (vt_lo_lo >> 64) + ((vt_lo_hi as u64) as u128) + ((vt_hi_lo as u64) as u128);
-            let vt_hi = (vt_lo_hi >> 64) + (vt_mi >> 64) + ((vt_hi_hi as u64) as u128);
+            let vt_hi = (vt_lo_hi >> 64) + (vt_hi_lo >> 64) + (vt_mi >> 64) + vt_hi_hi;
             if self.theta_gamma_sign {
                 sum_theta_omega.wrapping_add_assign(U256::from([
                     vt_lo_lo as u64,
                     vt_mi as u64,
                     vt_hi as u64,
-                    0,
+                    (vt_hi >> 64) as u64,
                 ]))
             } else {
                 sum_theta_omega.wrapping_sub_assign(U256::from([
                     vt_lo_lo as u64,
                     vt_mi as u64,
                     vt_hi as u64,
-                    0,
+                    (vt_hi >> 64) as u64,
                 ]))
             }
 
-- 
2.43.0


From df2518d6a8290041392c2cd010bf813f36acea22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:41 +0000
Subject: [PATCH 12/13] fix: linear ciphertext operations dropped components
 beyond the second

---
 src/bfv.rs | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 10b78a7..c3e333c 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -8,7 +8,7 @@ use crate::{
     utils::{generate_prime, sample_vec_cbd},
 };
 
-use itertools::Itertools;
+use itertools::{izip, Itertools};
 use ndarray::Axis;
 use num_bigint::BigUint;
 use num_traits::{FromPrimitive, One, ToPrimitive};
@@ -427,12 +427,15 @@ impl Add<&BfvCipherText> for &BfvCipherText {
         assert!(self.params == rhs.params);
         assert!(self.level == rhs.level);
 
-        let c0 = &self.cts[0] + &rhs.cts[0];
-        let c1 = &self.cts[1] + &rhs.cts[1];
+        assert!(self.cts.len() == rhs.cts.len());
+
+        let cts = izip!(self.cts.iter(), rhs.cts.iter())
+            .map(|(a, b)| a + b)
+            .collect_vec();
 
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts,
             level: self.level,
         }
     }
@@ -443,12 +446,12 @@ impl Add<&Poly> for &BfvCipherText {
     fn add(self, rhs: &Poly) -> Self::Output {
         assert!(self.cts[0].context == rhs.context);
 
-        let c0 = &self.cts[0] + rhs;
-        let c1 = self.cts[1].clone();
+        let mut cts = self.cts.clone();
+        cts[0] += rhs;
 
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts,
             level: self.level,
         }
     }
@@ -460,12 +463,15 @@ impl Sub<&BfvCipherText> for &BfvCipherText {
         assert!(self.params == rhs.params);
         assert!(self.level == rhs.level);
 
-        let c0 = &self.cts[0] - &rhs.cts[0];
-        let c1 = &self.cts[1] - &rhs.cts[1];
+        assert!(self.cts.len() == rhs.cts.len());
+
+        let cts = izip!(self.cts.iter(), rhs.cts.iter())
+            .map(|(a, b)| a - b)
+            .collect_vec();
 
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts,
             level: self.level,
         }
     }
@@ -522,12 +528,11 @@ impl Mul<&Plaintext> for &BfvCipherText {
         let mut pt_poly = Poly::try_from_vec_u64(&self.params.q_ctxs[self.level], &rhs.values);
         pt_poly.change_representation(Representation::Ntt);
 
-        let c0 = &self.cts[0] * &pt_poly;
-        let c1 = &self.cts[1] * &pt_poly;
+        let cts = self.cts.iter().map(|c| c * &pt_poly).collect_vec();
 
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts,
             level: self.level,
         }
     }
@@ -539,12 +544,11 @@ impl Mul<&Poly> for &BfvCipherText {
         assert!(rhs.context == self.cts[0].context);
         assert!(rhs.representation == Representation::Ntt);
 
-        let c0 = &self.cts[0] * rhs;
-        let c1 = &self.cts[1] * rhs;
+        let cts = self.cts.iter().map(|c| c * rhs).collect_vec();
 
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts,
             level: self.level,
         }
     }
@@ -553,12 +557,11 @@ impl Mul<&Poly> for &BfvCipherText {
 impl Mul<&BigUint> for &BfvCipherText {
     type Output = BfvCipherText;
     fn mul(self, rhs: &BigUint) -> Self::Output {
-        let c0 = &self.cts[0] * rhs;
-        let c1 = &self.cts[1] * rhs;
+        let cts = self.cts.iter().map(|c| c * rhs).collect_vec();
 
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts,
             level: self.level,
         }
     }
-- 
2.43.0


From 13ee42d9a047d845e48d5a3b335384558484ff71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:49 +0000
Subject: [PATCH 13/13] fix: count the PIR dimensions exactly for any dim

Server::decode derived the number of dimensions from integer logarithms,
which is wrong unless dim is a power of two (dim = 3 with two folded
dimensions gave 4): the response decrypted to zero.
---
 src/evaluations.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/evaluations.rs b/src/evaluations.rs
index 191e6c6..6933587 100644
--- a/src/evaluations.rs
+++ b/src/evaluations.rs
@@ -117,7 +117,14 @@ impl Server {
         let mut first_dim_cts = eval_key.unpack(query_cts[0].clone());
         first_dim_cts = first_dim_cts.as_slice()[..self.first_dim].to_vec();
 
-        let dimensions = ilog2(self.db.len() / self.first_dim) / ilog2(self.dim) + 1;
+        // db.len() == first_dim * dim^(dimensions - 1), for any dim
+        let mut dimensions = 1;
+        let mut rows = self.first_dim;
+        while rows < self.db.len() {
+            assert!(self.dim > 1);
+            rows *= self.dim;
+            dimensions += 1;
+        }
 
         let rgsws_count = (dimensions - 1) * self.dim;
         let mut rgsws = vec![];
-- 
2.43.0

