From 1b1eb23fe55268956c7e2e847b177a86cce8a0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:39 +0000
Subject: [PATCH 01/11] fix: use a quadratic non-residue as the generator of
 the BN256 JubJub scalar field

7 is a square modulo this prime, so the derived root of unity was not
primitive and Num::<bn256::Fs>::sqrt looped forever on many squares.
---
 src/native/bn256.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/native/bn256.rs b/src/native/bn256.rs
index 4020a8e..2f57ab3 100644
--- a/src/native/bn256.rs
+++ b/src/native/bn256.rs
@@ -11,7 +11,7 @@ pub use bellman::pairing::bn256::Fr;
 
 #[derive(PrimeField)]
 #[PrimeFieldModulus = "2736030358979909402780800718157159386076813972158567259200215660948447373041"]
-#[PrimeFieldGenerator = "7"]
+#[PrimeFieldGenerator = "31"]
 pub struct Fs(FsRepr);
 
 #[derive(Clone)]
-- 
2.43.0


From 00eeac468f9c3dd0cc61cbc57530eb1476de46fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:50 +0000
Subject: [PATCH 02/11] fix: dividing a constant by a signal returned the
 inverse quotient

---
 src/circuit/num.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/circuit/num.rs b/src/circuit/num.rs
index 7793fbd..ab9f68d 100644
--- a/src/circuit/num.rs
+++ b/src/circuit/num.rs
@@ -495,11 +495,8 @@ impl<'l, 'a, CS: ConstraintSystem> MulAssign<&'l CNum<'a, CS>> for CNum<'a, CS>
 impl<'l, 'a, CS: ConstraintSystem> DivAssign<&'l CNum<'a, CS>> for CNum<'a, CS> {
     #[inline]
     fn div_assign(&mut self, other: &'l CNum<'a, CS>) {
-        match (self.as_const(), other.as_const()) {
-            (Some(a), _) => {
-                *self = other / a;
-            }
-            (_, Some(b)) => *self /= b,
+        match other.as_const() {
+            Some(b) => *self /= b,
             _ => {
                 let value = match (self.get_value(), other.get_value()) {
                     (Some(a), Some(b)) => Some(a / b),
-- 
2.43.0


From 639eb59a3367f4745cc6ae30dd3533efebdc2d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:23 +0000
Subject: [PATCH 03/11] fix: constrain allocated boolean signals to 0 or 1

---
 src/circuit/bitify.rs | 1 -
 src/circuit/bool.rs   | 4 +++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/circuit/bitify.rs b/src/circuit/bitify.rs
index 379314c..9c8a59f 100644
--- a/src/circuit/bitify.rs
+++ b/src/circuit/bitify.rs
@@ -37,7 +37,6 @@ pub fn c_into_bits_le<'a, CS: ConstraintSystem>(
             for i in 1..limit {
                 k = k.double();
                 let s = signal.derive_alloc::<CBool<'a, CS>>(value_bits[i].as_ref());
-                s.assert();
                 remained_signal -= &s.0 * k;
                 bits[i] = s;
             }
diff --git a/src/circuit/bool.rs b/src/circuit/bool.rs
index 2e9be42..2e03576 100644
--- a/src/circuit/bool.rs
+++ b/src/circuit/bool.rs
@@ -33,7 +33,9 @@ impl<'a, CS: ConstraintSystem> Signal<'a, CS> for CBool<'a, CS> {
     }
 
     fn alloc(cs: &'a CS, value: Option<&Self::Value>) -> Self {
-        CBool(CNum::alloc(cs, value.map(|v| Num::from(*v)).as_ref()))
+        let res = CBool(CNum::alloc(cs, value.map(|v| Num::from(*v)).as_ref()));
+        res.assert();
+        res
     }
 
     fn switch(&self, bit: &CBool<'a, CS>, if_else: &Self) -> Self {
-- 
2.43.0


From 823cb18a609e8b4bda1a07eb57fbb3aad0841994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:13 +0000
Subject: [PATCH 04/11] fix: convert the most negative machine integers without
 overflow

abs() of i64::MIN / i32::MIN overflows: a debug build panics and a release
build turned Num::from(i32::MIN) into -(2^64 - 2^31).
---
 src/native/num.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/native/num.rs b/src/native/num.rs
index e58594a..06e02a4 100644
--- a/src/native/num.rs
+++ b/src/native/num.rs
@@ -287,7 +287,7 @@ impl<T: Field> From<BigInt> for Num<T> {
 impl<T: Field> From<i64> for Num<T> {
     fn from(n: i64) -> Self {
         let mut repr = T::zero().into_raw_repr();
-        repr.as_mut()[0] = n.abs() as u64;
+        repr.as_mut()[0] = n.unsigned_abs();
         if n >= 0 {
             Num::new(T::from_repr(repr).unwrap())
         } else {
@@ -307,7 +307,7 @@ impl<T: Field> From<u32> for Num<T> {
 impl<T: Field> From<i32> for Num<T> {
     fn from(n: i32) -> Self {
         let mut repr = T::zero().into_raw_repr();
-        repr.as_mut()[0] = n.abs() as u64;
+        repr.as_mut()[0] = n.unsigned_abs() as u64;
         if n >= 0 {
             Num::new(T::from_repr(repr).unwrap())
         } else {
-- 
2.43.0


From d2b17c5118d2d23ac44e0d9e5eeab497a705493a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:11 +0000
Subject: [PATCH 05/11] fix: reject fixed-length vectors of the wrong length
 when decoding

Deserialising a SizedVec accepted any number of elements, so a Merkle proof
with missing or surplus siblings decoded successfully.
---
 src/core/sizedvec.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/sizedvec.rs b/src/core/sizedvec.rs
index fdb2204..cf5b12a 100644
--- a/src/core/sizedvec.rs
+++ b/src/core/sizedvec.rs
@@ -7,7 +7,7 @@ use std::{
 };
 
 use serde::{
-    de::{Deserialize, Deserializer},
+    de::{self, Deserialize, Deserializer},
     ser::{Serialize, Serializer},
 };
 use typenum::Unsigned;
@@ -33,7 +33,11 @@ impl<T: Serialize, L: Unsigned> Serialize for SizedVec<T, L> {
 
 impl<'de, T: Deserialize<'de>, L: Unsigned> Deserialize<'de> for SizedVec<T, L> {
     fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<SizedVec<T, L>, D::Error> {
-        Vec::<T>::deserialize(deserializer).map(|v| SizedVec::<T, L>(v, PhantomData))
+        let v = Vec::<T>::deserialize(deserializer)?;
+        if v.len() != L::USIZE {
+            return Err(de::Error::custom("Wrong length of SizedVec"));
+        }
+        Ok(SizedVec::<T, L>(v, PhantomData))
     }
 }
 
-- 
2.43.0


From 64dff9ab4e92ba7bca66f76a7f408554ccadf8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:47 +0000
Subject: [PATCH 06/11] fix: compare with every bit of the constant, not only
 those the signal covers

c_comp_constant dropped the bits of the constant above the length of the
signal, so a short signal compared greater than a larger constant.
---
 src/circuit/bitify.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/circuit/bitify.rs b/src/circuit/bitify.rs
index 9c8a59f..89d0412 100644
--- a/src/circuit/bitify.rs
+++ b/src/circuit/bitify.rs
@@ -56,6 +56,10 @@ pub fn c_comp_constant<'a, CS: ConstraintSystem>(
     let siglen = signal.len();
     assert!(siglen > 0, "should be at least one input signal");
     let cs = signal[0].get_cs();
+    if ct.iterbit_le().skip(siglen).any(|bit| bit) {
+        // ct has a bit above the signal, so no value of the signal is greater
+        return CBool::c_false(cs);
+    }
     let nsteps = (siglen >> 1) + (siglen & 1);
     let sig_zero = if siglen & 1 == 1 {
         vec![CBool::c_false(cs)]
-- 
2.43.0


From a9ca3d61f2c775b6f543331547788974b9ba5e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:42 +0000
Subject: [PATCH 07/11] fix: reject BN256 G2 points outside the prime-order
 subgroup when decoding

The twist of BN256 has a large cofactor, so a point that satisfies the curve
equation need not be in the pairing subgroup. The BLS12-381 conversions check
membership; the BN256 one did not, so proofs and keys with such points were
accepted by the decoders.
---
 src/helpers/groth16/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/helpers/groth16/mod.rs b/src/helpers/groth16/mod.rs
index 78d1f4c..a82290c 100644
--- a/src/helpers/groth16/mod.rs
+++ b/src/helpers/groth16/mod.rs
@@ -134,7 +134,12 @@ impl Into<bn256::G2Affine> for G2PointData<bn256::Fq> {
             is_on_curve(x, y, is_zero, &BN256_B_COEFF_FQ2),
             "point should be in curve"
         );
-        unsafe { transmute::<_, bn256::G2Affine>((x, y, is_zero)) }
+        let res = unsafe { transmute::<_, bn256::G2Affine>((x, y, is_zero)) };
+        assert!(
+            res.mul(bn256::Fr::char()).is_zero(),
+            "point should be in subgroup"
+        );
+        res
     }
 }
 
-- 
2.43.0


From 4e6b320d122813f63384f32c7e419a55709da1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:39 +0000
Subject: [PATCH 08/11] fix: reject compressed BN256 G2 points outside the
 prime-order subgroup

Decompression of BN256 points in pairing_ce checks the curve equation only
(unlike BLS12-381), so Proof::read and TruncatedVerifyingKey::read accepted
points outside the pairing subgroup.
---
 src/helpers/groth16/prover.rs   | 14 +++++++++++---
 src/helpers/groth16/verifier.rs | 10 ++++++++++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/helpers/groth16/prover.rs b/src/helpers/groth16/prover.rs
index 64a35b0..f110736 100644
--- a/src/helpers/groth16/prover.rs
+++ b/src/helpers/groth16/prover.rs
@@ -1,12 +1,12 @@
 use std::io::{self, Read, Write};
 
 use bellman::{self, SynthesisError};
-use pairing::{bls12_381, bn256, Engine};
+use pairing::{bls12_381, bn256, CurveAffine, CurveProjective, Engine};
 use serde::{Deserialize, Serialize};
 
 use crate::{
     core::cs::Circuit,
-    core::field::Field,
+    core::field::{Field, PrimeField},
     core::osrng::OsRng,
     helpers::groth16::Groth16CS,
     helpers::groth16::{G1PointData, G2PointData},
@@ -76,7 +76,15 @@ impl Proof<bn256::Bn256> {
     }
 
     pub fn read<R: Read>(reader: R) -> io::Result<Self> {
-        Ok(Self(bellman::groth16::Proof::read(reader)?))
+        let proof = bellman::groth16::Proof::<bn256::Bn256>::read(reader)?;
+        // decompression of bn256 points does not check the subgroup
+        if !proof.b.mul(bn256::Fr::char()).is_zero() {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "point is not in subgroup",
+            ));
+        }
+        Ok(Self(proof))
     }
 }
 
diff --git a/src/helpers/groth16/verifier.rs b/src/helpers/groth16/verifier.rs
index 35e7b61..0240aaf 100644
--- a/src/helpers/groth16/verifier.rs
+++ b/src/helpers/groth16/verifier.rs
@@ -178,6 +178,16 @@ impl<E: Engine> TruncatedVerifyingKey<E> {
             ic.push(g1);
         }
 
+        // decompression of bn256 points does not check the subgroup
+        for p in [beta_g2, gamma_g2, delta_g2].iter() {
+            if !p.mul(E::Fr::char()).is_zero() {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    "point is not in subgroup",
+                ));
+            }
+        }
+
         Ok(TruncatedVerifyingKey {
             alpha_g1: alpha_g1,
             beta_g2: beta_g2,
-- 
2.43.0


From 7748c49731dc6eda5e7cfdc61afe8acfab73c459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:57 +0000
Subject: [PATCH 09/11] fix: reading a fixed-length vector with an unknown
 component gives None instead of panicking

---
 src/core/signal.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/signal.rs b/src/core/signal.rs
index d1af1cd..fe92848 100644
--- a/src/core/signal.rs
+++ b/src/core/signal.rs
@@ -53,7 +53,8 @@ impl<'a, CS: 'a + ConstraintSystem, T: Signal<'a, CS>, L: Unsigned> Signal<'a, C
     type Value = SizedVec<T::Value, L>;
 
     fn get_value(&self) -> Option<Self::Value> {
-        self.iter().map(|v| v.get_value()).collect()
+        let value = self.iter().map(|v| v.get_value()).collect::<Option<Vec<_>>>()?;
+        Some(value.into_iter().collect())
     }
 
     fn switch(&self, bit: &CBool<'a, CS>, if_else: &Self) -> Self {
@@ -72,7 +73,8 @@ impl<'a, CS: 'a + ConstraintSystem, T: Signal<'a, CS>, L: Unsigned> Signal<'a, C
     }
 
     fn as_const(&self) -> Option<Self::Value> {
-        self.iter().map(|v| v.as_const()).collect()
+        let value = self.iter().map(|v| v.as_const()).collect::<Option<Vec<_>>>()?;
+        Some(value.into_iter().collect())
     }
 
     fn alloc(cs: &'a CS, value: Option<&Self::Value>) -> Self {
-- 
2.43.0


From f7900a4aef31041702cf405094f8b27bf395fd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:14 +0000
Subject: [PATCH 10/11] fix: generate uint256 array literals for G2 points of
 any size

The Solidity type of [a, b] is the smallest integer type that holds both literals, and such an
array does not convert to uint256[2]: the contract of a key with a G2 coordinate pair below 2^248
(about one key in 400) did not compile.
---
 src/helpers/groth16/ethereum.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/helpers/groth16/ethereum.rs b/src/helpers/groth16/ethereum.rs
index 07f2ce3..4d44f4c 100644
--- a/src/helpers/groth16/ethereum.rs
+++ b/src/helpers/groth16/ethereum.rs
@@ -200,8 +200,9 @@ contract Verifier {
     }
 
     fn stringify_g2(p: &G2PointData<Fq>) -> String {
+        // the explicit type matters: an array of short literals is not a uint256 array
         format!(
-            "[{}, {}], [{}, {}]",
+            "[uint256({}), {}], [uint256({}), {}]",
             p.0 .0.to_string(),
             p.0 .1.to_string(),
             p.1 .0.to_string(),
-- 
2.43.0


From 8386db6d39e2631a37a55f853d7b2f24b8af746d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:25 +0000
Subject: [PATCH 11/11] fix: reduce machine integers in fields narrower than
 the integer

Num::from(u64/i64/u32/i32) panicked when the integer was not below the field
prime, although big integers and byte strings are reduced.
---
 src/native/num.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/native/num.rs b/src/native/num.rs
index 06e02a4..d93e5e0 100644
--- a/src/native/num.rs
+++ b/src/native/num.rs
@@ -244,7 +244,11 @@ impl<T: Field> From<u64> for Num<T> {
     fn from(n: u64) -> Self {
         let mut repr = T::zero().into_raw_repr();
         repr.as_mut()[0] = n;
-        Num::new(T::from_repr(repr).unwrap())
+        match T::from_repr(repr) {
+            Ok(x) => Num::new(x),
+            // the field is narrower than the integer
+            Err(_) => Num::from(BigUint::from(n)),
+        }
     }
 }
 
@@ -286,32 +290,28 @@ impl<T: Field> From<BigInt> for Num<T> {
 
 impl<T: Field> From<i64> for Num<T> {
     fn from(n: i64) -> Self {
-        let mut repr = T::zero().into_raw_repr();
-        repr.as_mut()[0] = n.unsigned_abs();
+        let abs = Num::from(n.unsigned_abs());
         if n >= 0 {
-            Num::new(T::from_repr(repr).unwrap())
+            abs
         } else {
-            -Num::new(T::from_repr(repr).unwrap())
+            -abs
         }
     }
 }
 
 impl<T: Field> From<u32> for Num<T> {
     fn from(n: u32) -> Self {
-        let mut repr = T::zero().into_raw_repr();
-        repr.as_mut()[0] = n as u64;
-        Num::new(T::from_repr(repr).unwrap())
+        Num::from(n as u64)
     }
 }
 
 impl<T: Field> From<i32> for Num<T> {
     fn from(n: i32) -> Self {
-        let mut repr = T::zero().into_raw_repr();
-        repr.as_mut()[0] = n.unsigned_abs() as u64;
+        let abs = Num::from(n.unsigned_abs());
         if n >= 0 {
-            Num::new(T::from_repr(repr).unwrap())
+            abs
         } else {
-            -Num::new(T::from_repr(repr).unwrap())
+            -abs
         }
     }
 }
-- 
2.43.0

