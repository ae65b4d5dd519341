From d186eca67f2f22195649be27fbc1c07ccd67206d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:28 +0000
Subject: [PATCH 01/10] fix: lexicographically_largest is strict for (p-1)/2

(p-1)/2 is smaller than its negation (p+1)/2, but the comparison was against
(p-1)/2 itself and so reported it as the larger one.
---
 derive/src/field/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/field/mod.rs b/derive/src/field/mod.rs
index 566fb9e..c203f5c 100644
--- a/derive/src/field/mod.rs
+++ b/derive/src/field/mod.rs
@@ -113,7 +113,7 @@ pub(crate) fn impl_field(input: TokenStream) -> TokenStream {
     let modulus_limbs_32_ident = quote! {[#(#modulus_limbs_32,)*]};
 
     let to_token = |e: &BigUint| big_to_token(e, num_limbs);
-    let half_modulus = (&modulus - 1usize) >> 1;
+    let half_modulus = (&modulus + 1usize) >> 1;
     let half_modulus = to_token(&half_modulus);
 
     // binary modulus
-- 
2.43.0


From 325cf19900194ede5cd1e75ab729696e3a9380cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 02/10] fix: CubicExtField::is_zero looks at all three
 coefficients

---
 src/ff_ext/cubic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff_ext/cubic.rs b/src/ff_ext/cubic.rs
index 70af416..27a0a39 100644
--- a/src/ff_ext/cubic.rs
+++ b/src/ff_ext/cubic.rs
@@ -201,7 +201,7 @@ where
     }
 
     fn is_zero(&self) -> subtle::Choice {
-        self.c0.is_zero() & self.c1.is_zero()
+        self.c0.is_zero() & self.c1.is_zero() & self.c2.is_zero()
     }
 
     fn square(&self) -> Self {
-- 
2.43.0


From fca8eae75f0406f319137fdbc87a87198a35b05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:56 +0000
Subject: [PATCH 03/10] fix: extension field decoding refuses non-canonical
 coordinates instead of panicking

---
 src/derive/field/tower.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/derive/field/tower.rs b/src/derive/field/tower.rs
index 9f508fb..de55de5 100644
--- a/src/derive/field/tower.rs
+++ b/src/derive/field/tower.rs
@@ -41,13 +41,7 @@ macro_rules! impl_tower2 {
             pub fn from_bytes(bytes: &[u8; $base::SIZE * 2]) -> CtOption<$field> {
                 let c0 = $base::from_bytes(bytes[0..$base::SIZE].try_into().unwrap());
                 let c1 = $base::from_bytes(bytes[$base::SIZE..$base::SIZE * 2].try_into().unwrap());
-                CtOption::new(
-                    $field {
-                        c0: c0.unwrap(),
-                        c1: c1.unwrap(),
-                    },
-                    c0.is_some() & c1.is_some(),
-                )
+                c0.and_then(|c0| c1.map(|c1| $field { c0, c1 }))
             }
 
             /// Converts an element of `$base` into a byte representation in
@@ -132,7 +126,7 @@ macro_rules! impl_tower2 {
                 let c1: <$base as PrimeField>::Repr = c1.into();
                 let c1 = $base::from_repr(c1);
 
-                CtOption::new($field::new(c0.unwrap(), c1.unwrap()), Choice::from(1))
+                c0.and_then(|c0| c1.map(|c1| $field::new(c0, c1)))
             }
 
             fn to_repr(&self) -> Self::Repr {
-- 
2.43.0


From 2a91cf300159df135972242e2285e1d4f8ab31f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:13 +0000
Subject: [PATCH 04/10] fix: projective is_on_curve rejects (x, y, 0) and (0,
 0, 0)

---
 src/derive/curve.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/derive/curve.rs b/src/derive/curve.rs
index 84f4c56..4920232 100644
--- a/src/derive/curve.rs
+++ b/src/derive/curve.rs
@@ -433,7 +433,7 @@ macro_rules! new_curve_impl {
 
                     (self.z * self.y.square() - self.x.square() * self.x)
                         .ct_eq(&(self.z.square() * self.z * $constant_b))
-                        | self.z.is_zero()
+                        & !(self.y.is_zero() & self.z.is_zero())
                 } else {
                     // Check (Y/Z)^2 = (X/Z)^3 + a(X/Z) + b
                     // <=>    Z Y^2 - X^3 - a(X Z^2) = Z^3 b
@@ -441,7 +441,7 @@ macro_rules! new_curve_impl {
                     let z2 = self.z.square();
                     (self.z * self.y.square() - (self.x.square() + $constant_a * z2) * self.x)
                         .ct_eq(&(z2 * self.z * $constant_b))
-                        | self.z.is_zero()
+                        & !(self.y.is_zero() & self.z.is_zero())
                 }
             }
 
-- 
2.43.0


From ea9e9687f119d072a50d0bf1ff79c9bea36b2cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:47 +0000
Subject: [PATCH 05/10] fix: read_raw of points checks that the point is on the
 curve

---
 src/derive/curve.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/derive/curve.rs b/src/derive/curve.rs
index 4920232..79bb708 100644
--- a/src/derive/curve.rs
+++ b/src/derive/curve.rs
@@ -645,7 +645,11 @@ macro_rules! new_curve_impl {
                 let x = $base::read_raw(reader)?;
                 let y = $base::read_raw(reader)?;
                 let z = $base::read_raw(reader)?;
-                Ok(Self { x, y, z })
+                let res = Self { x, y, z };
+                // Check that the point is on the curve.
+                bool::from(res.is_on_curve()).then(|| res).ok_or_else(|| {
+                    std::io::Error::new(std::io::ErrorKind::InvalidData, "input is not a point on the curve")
+                })
             }
             fn write_raw<W: std::io::Write>(&self, writer: &mut W) -> std::io::Result<()> {
                 self.x.write_raw(writer)?;
@@ -745,7 +749,11 @@ macro_rules! new_curve_impl {
             fn read_raw<R: std::io::Read>(reader: &mut R) -> std::io::Result<Self> {
                 let x = $base::read_raw(reader)?;
                 let y = $base::read_raw(reader)?;
-                Ok(Self { x, y })
+                let res = Self { x, y };
+                // Check that the point is on the curve.
+                bool::from(res.is_on_curve()).then(|| res).ok_or_else(|| {
+                    std::io::Error::new(std::io::ErrorKind::InvalidData, "input is not a point on the curve")
+                })
             }
             fn write_raw<W: std::io::Write>(&self, writer: &mut W) -> std::io::Result<()> {
                 self.x.write_raw(writer)?;
-- 
2.43.0


From 55c5ca8b6441a328398694f3789f20973411564d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:08 +0000
Subject: [PATCH 06/10] fix: compressed decoding accepts points with x = 0

---
 src/serde.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 1377993..b9685dd 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -349,9 +349,9 @@ where
                     // * sign must not be set
 
                     // identity flag not set:
-                    // * x must not be zero
+                    // * any x that resolves to a point, zero included
 
-                    let is_valid = (is_identity & is_zero & !sign) ^ (!is_identity & !is_zero);
+                    let is_valid = (is_identity & is_zero & !sign) ^ !is_identity;
 
                     (is_valid, is_identity)
                 }
-- 
2.43.0


From 32841beb7cd95c877bc540351adf4ea854d77cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:44 +0000
Subject: [PATCH 07/10] fix: quadratic extension is_odd and point sign follow
 sgn0 when c0 is zero

---
 src/derive/curve.rs       | 4 ++--
 src/derive/field/tower.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/derive/curve.rs b/src/derive/curve.rs
index 79bb708..65d309c 100644
--- a/src/derive/curve.rs
+++ b/src/derive/curve.rs
@@ -69,11 +69,11 @@ macro_rules! new_curve_impl {
             impl $crate::serde::Compressed<$name_affine> for [<$name:upper Compressed >] {
                 const CONFIG: $crate::serde::CompressedFlagConfig = $flag_config;
                 fn sign(c: &$name_affine) -> subtle::Choice {
-                    Choice::from(c.y.to_repr()[0] as u8 & 1) & !c.is_identity()
+                    c.y.is_odd() & !c.is_identity()
                 }
                 fn resolve(x: $base, sign_set: Choice) -> CtOption<$name_affine> {
                     $name_affine::y2(x).sqrt().map(|y| {
-                        let y = $base::conditional_select(&y, &-y, sign_set ^ Choice::from(y.to_repr()[0] as u8 & 1));
+                        let y = $base::conditional_select(&y, &-y, sign_set ^ y.is_odd());
                         $name_affine { x, y }
                     })
                 }
diff --git a/src/derive/field/tower.rs b/src/derive/field/tower.rs
index de55de5..c2ed4b6 100644
--- a/src/derive/field/tower.rs
+++ b/src/derive/field/tower.rs
@@ -139,7 +139,7 @@ macro_rules! impl_tower2 {
             }
 
             fn is_odd(&self) -> Choice {
-                Choice::from(self.to_repr().as_ref()[0] & 1)
+                self.c0.is_odd() | (self.c0.is_zero() & self.c1.is_odd())
             }
         }
 
-- 
2.43.0


From 80376f16729d8142cd35d915c1fb991737572de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:18 +0000
Subject: [PATCH 08/10] hook: expose CurveEndo under cfg(halo2curves_verif)

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f5caae2..766a660 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -23,5 +23,12 @@ pub use group;
 pub use pairing;
 pub use pasta_curves::arithmetic::{Coordinates, CurveAffine, CurveExt};
 
+/// Private items that the external verification harness calls.
+#[cfg(halo2curves_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use crate::arithmetic::CurveEndo;
+}
+
 #[cfg(test)]
 pub mod tests;
-- 
2.43.0


From af0dd39066eb045ed5aacdc4998bbaf06a64a1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:17 +0000
Subject: [PATCH 09/10] fix: into_subgroup returns the point itself and only
 when it is in the subgroup

---
 src/bls12381/g1.rs      | 2 +-
 src/bls12381/g2.rs      | 2 +-
 src/bn256/curve.rs      | 2 +-
 src/pluto_eris/curve.rs | 3 +--
 4 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/bls12381/g1.rs b/src/bls12381/g1.rs
index 451f1f0..7495269 100644
--- a/src/bls12381/g1.rs
+++ b/src/bls12381/g1.rs
@@ -51,7 +51,7 @@ impl group::cofactor::CofactorGroup for G1 {
     }
 
     fn into_subgroup(self) -> CtOption<Self::Subgroup> {
-        CtOption::new(self, 1.into())
+        CtOption::new(self, self.is_torsion_free())
     }
 
     fn is_torsion_free(&self) -> Choice {
diff --git a/src/bls12381/g2.rs b/src/bls12381/g2.rs
index df77bb5..a5829a2 100644
--- a/src/bls12381/g2.rs
+++ b/src/bls12381/g2.rs
@@ -123,7 +123,7 @@ impl group::cofactor::CofactorGroup for G2 {
     }
 
     fn into_subgroup(self) -> CtOption<Self::Subgroup> {
-        CtOption::new(self, 1.into())
+        CtOption::new(self, self.is_torsion_free())
     }
 
     /// Returns true if this point is free of an $h$-torsion component, and so it
diff --git a/src/bn256/curve.rs b/src/bn256/curve.rs
index dadf31d..ea3f8bb 100644
--- a/src/bn256/curve.rs
+++ b/src/bn256/curve.rs
@@ -226,7 +226,7 @@ impl CofactorGroup for G2 {
     }
 
     fn into_subgroup(self) -> CtOption<Self::Subgroup> {
-        unimplemented!();
+        CtOption::new(self, self.is_torsion_free())
     }
 
     fn is_torsion_free(&self) -> Choice {
diff --git a/src/pluto_eris/curve.rs b/src/pluto_eris/curve.rs
index e0452a9..2156099 100644
--- a/src/pluto_eris/curve.rs
+++ b/src/pluto_eris/curve.rs
@@ -202,8 +202,7 @@ impl CofactorGroup for G2 {
     }
 
     fn into_subgroup(self) -> CtOption<Self::Subgroup> {
-        // TODO: Handle the case where the point is already in the subgroup.
-        CtOption::new(self.clear_cofactor(), 1.into())
+        CtOption::new(self, self.is_torsion_free())
     }
 
     fn is_torsion_free(&self) -> Choice {
-- 
2.43.0


From 6a2902381efc61839edd2abe6e123b172031b0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:17 +0000
Subject: [PATCH 10/10] fix: multiplication by the curve parameter does not
 print to standard output

---
 src/bn256/curve.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/bn256/curve.rs b/src/bn256/curve.rs
index ea3f8bb..4e7aeca 100644
--- a/src/bn256/curve.rs
+++ b/src/bn256/curve.rs
@@ -165,8 +165,6 @@ fn exp_by_x(g2: &G2) -> G2 {
     let x = super::BN_X;
 
     (0..62).rev().fold(g2.clone(), |mut acc, i| {
-        println!("{}", ((x >> i) & 1) == 1);
-
         acc = acc.double();
         (((x >> i) & 1) == 1).then(|| acc += g2);
         acc
-- 
2.43.0

