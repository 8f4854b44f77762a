From 79b2263a2f9b6bdedee33df2c3ffd1fb344e87c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 01/22] fix: iterating the zero scalar left-to-right must not
 underflow

0*P (and iter_lr of zero) computed l - 1 for l=0, which panics with
overflow checks on.
---
 src/edwards/scalar.rs     | 2 +-
 src/montgomery/scalar.rs  | 2 +-
 src/weierstrass/scalar.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/edwards/scalar.rs b/src/edwards/scalar.rs
index c941de1..bead76c 100644
--- a/src/edwards/scalar.rs
+++ b/src/edwards/scalar.rs
@@ -144,7 +144,7 @@ impl std::iter::Iterator for Iterino {
 impl Scalar {
     pub fn iter_lr(&self) -> impl std::iter::Iterator<Item = bool> {
         let l = self.k.bits() as usize;
-        let i = l - 1usize;
+        let i = l.wrapping_sub(1usize);
         let (_, v) = self.k.to_u32_digits();
         let is_lr = true;
         Iterino { l, i, v, is_lr }
diff --git a/src/montgomery/scalar.rs b/src/montgomery/scalar.rs
index 15f8d6c..f78fe52 100644
--- a/src/montgomery/scalar.rs
+++ b/src/montgomery/scalar.rs
@@ -138,7 +138,7 @@ impl std::iter::Iterator for Iterino {
 impl Scalar {
     pub fn iter_lr(&self) -> impl std::iter::Iterator<Item = bool> {
         let l = self.k.bits() as usize;
-        let i = l - 1usize;
+        let i = l.wrapping_sub(1usize);
         let (_, v) = self.k.to_u32_digits();
         let is_lr = true;
         Iterino { l, i, v, is_lr }
diff --git a/src/weierstrass/scalar.rs b/src/weierstrass/scalar.rs
index 1db28da..8e24cd2 100644
--- a/src/weierstrass/scalar.rs
+++ b/src/weierstrass/scalar.rs
@@ -138,7 +138,7 @@ impl std::iter::Iterator for Iterino {
 impl Scalar {
     pub fn iter_lr(&self) -> impl std::iter::Iterator<Item = bool> {
         let l = self.k.bits() as usize;
-        let i = l - 1usize;
+        let i = l.wrapping_sub(1usize);
         let (_, v) = self.k.to_u32_digits();
         let is_lr = true;
         Iterino { l, i, v, is_lr }
-- 
2.43.0


From 6a6fbe504dba3ba4047cb85c6dbdf9bf106878c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 02/22] fix: (0,-1) is not the identity of an Edwards curve

It is the point of order two, which maps to (0,0) on curve25519.
---
 src/edwards/point.rs           | 2 +-
 src/instances/rational_maps.rs | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/edwards/point.rs b/src/edwards/point.rs
index f456424..7884dac 100644
--- a/src/edwards/point.rs
+++ b/src/edwards/point.rs
@@ -29,7 +29,7 @@ pub struct Point {
 impl ScMulRef<Scalar> for Point {}
 impl EcPoint<Scalar> for Point {
     fn is_zero(&self) -> bool {
-        self.c.x.is_zero() && !self.c.y.is_zero() && self.c.t.is_zero() && !self.c.z.is_zero()
+        self.c.x.is_zero() && self.c.t.is_zero() && !self.c.z.is_zero() && self.c.y == self.c.z
     }
 }
 impl Encode for Point {
diff --git a/src/instances/rational_maps.rs b/src/instances/rational_maps.rs
index 568c194..b0b5036 100644
--- a/src/instances/rational_maps.rs
+++ b/src/instances/rational_maps.rs
@@ -1,3 +1,5 @@
+use num_traits::identities::Zero;
+
 use crate::edwards;
 use crate::edwards::Curve as EdCurve;
 use crate::edwards::Point as TePoint;
@@ -42,6 +44,10 @@ impl RationalMap for Ed2Mt25519 {
     fn push(&self, p: TePoint) -> MtPoint {
         if p.is_zero() {
             self.e1.identity()
+        } else if p.c.x.is_zero() {
+            // (0,-1) is the point of order two
+            let ff = self.e1.get_field();
+            self.e1.new_point(ff.zero(), ff.zero())
         } else {
             let (x, y, z) = (&p.c.x, &p.c.y, &p.c.z);
             let t0 = z + y;
-- 
2.43.0


From dcb204c490327309020215247bca27518f429682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 03/22] fix: recognize points of order two with any z

is_two_torsion required z=1.
---
 src/montgomery/point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/montgomery/point.rs b/src/montgomery/point.rs
index 72c193a..966d9bb 100644
--- a/src/montgomery/point.rs
+++ b/src/montgomery/point.rs
@@ -113,7 +113,7 @@ impl Point {
         q
     }
     pub fn is_two_torsion(&self) -> bool {
-        self.c.y.is_zero() && self.c.z.is_one()
+        self.c.y.is_zero() && !self.c.z.is_zero()
     }
 }
 
-- 
2.43.0


From 695cbe35746031c86874b3fe53ac1b29879c8015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 04/22] fix: the isogeny from curve448 to edwards448 maps (0,0)
 to the identity

The formulas give (0:0:0:0) for this point of the kernel.
---
 src/instances/rational_maps.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instances/rational_maps.rs b/src/instances/rational_maps.rs
index b0b5036..1a207c2 100644
--- a/src/instances/rational_maps.rs
+++ b/src/instances/rational_maps.rs
@@ -132,7 +132,7 @@ impl RationalMap for Ed4isoMt448 {
         }
     }
     fn pull(&self, p: MtPoint) -> TePoint {
-        if p.is_zero() {
+        if p.is_zero() || p.is_two_torsion() {
             self.e0.identity()
         } else {
             let ff = self.e0.get_field();
-- 
2.43.0


From 9e025a0406359ad9cc2d266f7f3815c4ae4fa011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 05/22] fix: evaluate isogenies on points with any z, the
 identity and the kernel

The z-coordinate was ignored, and neither the identity nor the points of
the kernel were sent to the identity.
---
 src/instances/rational_maps.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/instances/rational_maps.rs b/src/instances/rational_maps.rs
index 1a207c2..315ff9c 100644
--- a/src/instances/rational_maps.rs
+++ b/src/instances/rational_maps.rs
@@ -216,7 +216,14 @@ impl Isogeny for Isosecp256k1 {
     fn codomain(&self) -> Self::E1 {
         self.e1.clone()
     }
-    fn push(&self, p: <Self::E0 as EllipticCurve>::Point) -> <Self::E1 as EllipticCurve>::Point {
+    fn push(
+        &self,
+        mut p: <Self::E0 as EllipticCurve>::Point,
+    ) -> <Self::E1 as EllipticCurve>::Point {
+        if p.is_zero() {
+            return self.e1.identity();
+        }
+        p.normalize();
         let f = self.e0.get_field();
         let x = p.c.x;
         let y = p.c.y;
@@ -231,6 +238,10 @@ impl Isogeny for Isosecp256k1 {
             y_num = (y_num * &x) + &self.y_num[i];
             y_den = (y_den * &x) + &self.y_den[i];
         }
+        if x_den.is_zero() || y_den.is_zero() {
+            // points of the kernel
+            return self.e1.identity();
+        }
         let xx = x_num / x_den;
         let yy = y * (y_num / y_den);
         self.e1.new_point(xx, yy)
@@ -329,7 +340,14 @@ impl Isogeny for IsoBls12381G1 {
     fn codomain(&self) -> Self::E1 {
         self.e1.clone()
     }
-    fn push(&self, p: <Self::E0 as EllipticCurve>::Point) -> <Self::E1 as EllipticCurve>::Point {
+    fn push(
+        &self,
+        mut p: <Self::E0 as EllipticCurve>::Point,
+    ) -> <Self::E1 as EllipticCurve>::Point {
+        if p.is_zero() {
+            return self.e1.identity();
+        }
+        p.normalize();
         let f = self.e0.get_field();
         let x = p.c.x;
         let y = p.c.y;
@@ -347,6 +365,10 @@ impl Isogeny for IsoBls12381G1 {
             y_den = (y_den * &x) + &self.y_den[i];
         }
 
+        if x_den.is_zero() || y_den.is_zero() {
+            // points of the kernel
+            return self.e1.identity();
+        }
         let xx = x_num / x_den;
         let yy = y * (y_num / y_den);
         self.e1.new_point(xx, yy)
-- 
2.43.0


From 9f4b8e102a1c86637ac6ea2657e8528e26c2b5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 06/22] fix: Elligator2 on Montgomery curves with B other than
 one

The coefficient of the monic curve is A/B.
---
 src/montgomery/elligator2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/montgomery/elligator2.rs b/src/montgomery/elligator2.rs
index a74c048..449b025 100644
--- a/src/montgomery/elligator2.rs
+++ b/src/montgomery/elligator2.rs
@@ -19,7 +19,7 @@ impl Ell2 {
             panic!("wrong input parameters")
         } else {
             let inb = 1u32 / &e.b;
-            let ca = &e.a / &inb;
+            let ca = &e.a * &inb;
             let cb = inb ^ 2u32;
             Ell2 { e, z, ca, cb }
         }
-- 
2.43.0


From b17f8794b205c9d504b0c7b590b9830f8e6c3104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 07/22] fix: Elligator2 requires Z to be a non-square

With a square Z the map fails for some inputs.
---
 src/montgomery/elligator2.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/montgomery/elligator2.rs b/src/montgomery/elligator2.rs
index 449b025..9b4ab3b 100644
--- a/src/montgomery/elligator2.rs
+++ b/src/montgomery/elligator2.rs
@@ -15,7 +15,7 @@ pub struct Ell2 {
 
 impl Ell2 {
     pub fn new(e: Curve, z: FpElt) -> Ell2 {
-        if !Ell2::verify(&e) {
+        if !Ell2::verify(&e, &z) {
             panic!("wrong input parameters")
         } else {
             let inb = 1u32 / &e.b;
@@ -24,10 +24,11 @@ impl Ell2 {
             Ell2 { e, z, ca, cb }
         }
     }
-    fn verify(e: &Curve) -> bool {
+    fn verify(e: &Curve, z: &FpElt) -> bool {
         let cond1 = !e.a.is_zero();
         let cond2 = !e.b.is_zero();
-        cond1 && cond2
+        let cond3 = !z.is_square();
+        cond1 && cond2 && cond3
     }
 }
 
-- 
2.43.0


From 96981b58808bb1e7597b97a475e19822b2718a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 08/22] fix: points of different curves are different

Comparing them panicked when the curves are over different fields.
---
 src/edwards/point.rs     | 5 ++++-
 src/montgomery/point.rs  | 5 ++++-
 src/weierstrass/point.rs | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/edwards/point.rs b/src/edwards/point.rs
index 7884dac..ffd1a2d 100644
--- a/src/edwards/point.rs
+++ b/src/edwards/point.rs
@@ -107,13 +107,16 @@ impl Eq for Point {}
 
 impl PartialEq for Point {
     fn eq(&self, other: &Self) -> bool {
+        if self.e != other.e {
+            return false;
+        }
         let x1z2 = &self.c.x * &other.c.z;
         let z1x2 = &self.c.z * &other.c.x;
         let y1z2 = &self.c.y * &other.c.z;
         let z1y2 = &self.c.z * &other.c.y;
         let t1z2 = &self.c.t * &other.c.z;
         let z1t2 = &self.c.z * &other.c.t;
-        self.e == other.e && x1z2 == z1x2 && y1z2 == z1y2 && t1z2 == z1t2
+        x1z2 == z1x2 && y1z2 == z1y2 && t1z2 == z1t2
     }
 }
 
diff --git a/src/montgomery/point.rs b/src/montgomery/point.rs
index 966d9bb..268bfcb 100644
--- a/src/montgomery/point.rs
+++ b/src/montgomery/point.rs
@@ -121,11 +121,14 @@ impl Eq for Point {}
 
 impl PartialEq for Point {
     fn eq(&self, other: &Self) -> bool {
+        if self.e != other.e {
+            return false;
+        }
         let x1z2 = &self.c.x * &other.c.z;
         let z1x2 = &self.c.z * &other.c.x;
         let y1z2 = &self.c.y * &other.c.z;
         let z1y2 = &self.c.z * &other.c.y;
-        self.e == other.e && x1z2 == z1x2 && y1z2 == z1y2
+        x1z2 == z1x2 && y1z2 == z1y2
     }
 }
 
diff --git a/src/weierstrass/point.rs b/src/weierstrass/point.rs
index 8fb2239..5a54e9f 100644
--- a/src/weierstrass/point.rs
+++ b/src/weierstrass/point.rs
@@ -206,11 +206,14 @@ impl Eq for Point {}
 
 impl PartialEq for Point {
     fn eq(&self, other: &Self) -> bool {
+        if self.e != other.e {
+            return false;
+        }
         let x1z2 = &self.c.x * &other.c.z;
         let z1x2 = &self.c.z * &other.c.x;
         let y1z2 = &self.c.y * &other.c.z;
         let z1y2 = &self.c.z * &other.c.y;
-        self.e == other.e && x1z2 == z1x2 && y1z2 == z1y2
+        x1z2 == z1x2 && y1z2 == z1y2
     }
 }
 
-- 
2.43.0


From 08352d6b71c44cd5bf9e4c4a56ecfb59bf77c2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 09/22] fix: addition on Montgomery curves with B other than
 one

The formulas ignored the coefficient of y^2.
---
 src/montgomery/point.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/montgomery/point.rs b/src/montgomery/point.rs
index 268bfcb..5ae9a5d 100644
--- a/src/montgomery/point.rs
+++ b/src/montgomery/point.rs
@@ -80,8 +80,9 @@ impl Point {
     fn core_add(&self, p: &Point) -> Point {
         let (x1, y1, z1) = (&self.c.x, &self.c.y, &self.c.z);
         let (x2, y2, z2) = (&p.c.x, &p.c.y, &p.c.z);
-        let (a_ec, s_ec) = (&self.e.a, &self.e.s);
-        let (t0, t1, t2) = (x1 * x2, y1 * y2, z1 * z2);
+        let (a_ec, b_ec, s_ec) = (&self.e.a, &self.e.b, &self.e.s);
+        let bs_ec = &(b_ec * s_ec);
+        let (t0, t1, t2) = (x1 * x2, b_ec * y1 * y2, z1 * z2);
         let (t3, t4) = (x1 * y2, x2 * y1);
         let (t5, t6) = (y1 * z2, y2 * z1);
         let (t7, t8) = (x1 * z2, x2 * z1);
@@ -90,12 +91,12 @@ impl Point {
         let rr = &t5 + &t6;
         let tt = &ta - &t1;
         let vv = t9 * a_ec + &t0 + &t0 + &t0 + &t2;
-        let ss = (&t3 - &t4) * s_ec + t0 - t2;
+        let ss = (&t3 - &t4) * bs_ec + t0 - t2;
         let uu = (t7 - t8) * s_ec - t3 - t4;
-        let ww = (t5 - t6) * s_ec + ta + t1;
-        let x3 = &rr * &ss - &tt * &uu;
+        let ww = (t5 - t6) * bs_ec + ta + t1;
+        let x3 = (&rr * &ss - &tt * &uu) * b_ec;
         let y3 = tt * &ww - &vv * &ss;
-        let z3 = vv * uu - rr * ww;
+        let z3 = (vv * uu - rr * ww) * b_ec;
         self.e.new_proy_point(ProyCoordinates {
             x: x3,
             y: y3,
-- 
2.43.0


From 7bf4345910ebe24a38a8196f19b8f6f91969f356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 10/22] fix: cofactor of BLS12381G1_11ISO

---
 src/instances/weier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instances/weier.rs b/src/instances/weier.rs
index d648cf5..741f416 100644
--- a/src/instances/weier.rs
+++ b/src/instances/weier.rs
@@ -100,7 +100,7 @@ static BLS12381G1_11ISO_PARAMS: &Params = &Params {
     a: "0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d",
     b: "0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0",
     r: "52435875175126190479447740508185965837690552500527637822603658699938581184513",
-    h: "15132376222941642753",
+    h: "76329603384216526031706109802092473003",
     gx: "0x6a0ead062ba73a09984eb7351a2d851bc817625345ce033a6eb7d78242b6466c877e022dda626a79ddb85bce57997e2",
     gy: "0x3b89d8bb9326270e46b6b74e19f7b3f10082fbf1a46df72da50c6571b969afc570d6529350b1b9b05ab4fe5c29920b4",
 };
-- 
2.43.0


From 5ab712ced6ff3ccf06545d668ab02f0b7259af6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 11/22] fix: decode one-byte inputs instead of panicking

The x-coordinate was sliced out of the buffer before its length was known
to be enough, so decoding the point at infinity panicked.
---
 src/montgomery/curve.rs  | 21 +++++++++++----------
 src/weierstrass/curve.rs | 21 +++++++++++----------
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/montgomery/curve.rs b/src/montgomery/curve.rs
index 5139f6d..7163718 100644
--- a/src/montgomery/curve.rs
+++ b/src/montgomery/curve.rs
@@ -99,6 +99,13 @@ impl Decode for Curve {
             return Err(Error::new(ErrorKind::Other, "Wrong input buffer size."));
         }
         let tag = buf[0];
+        if blen == 1 {
+            // only the point at infinity is encoded as a single byte
+            return match tag {
+                0x00 => Ok(self.identity()),
+                _ => Err(Error::new(ErrorKind::Other, "Invalid tag specified")),
+            };
+        }
         // check x coordinate is in the valid range, Sign::Plus => > 0
         let x_val = BigInt::from_bytes_be(Sign::Plus, &buf[1..size + 1]);
         let p = self.f.get_modulus();
@@ -106,16 +113,10 @@ impl Decode for Curve {
             return Err(Error::new(ErrorKind::Other, "Invalid x coordinate"));
         }
         match tag {
-            0x00 => {
-                // return point of infinity
-                if buf.len() != 1 {
-                    return Err(Error::new(
-                        ErrorKind::Other,
-                        "Point at infinity should just be a single zero byte",
-                    ));
-                }
-                Ok(self.identity())
-            }
+            0x00 => Err(Error::new(
+                ErrorKind::Other,
+                "Point at infinity should just be a single zero byte",
+            )),
             0x04 => {
                 if buf.len() != 2 * size + 1 {
                     return Err(Error::new(
diff --git a/src/weierstrass/curve.rs b/src/weierstrass/curve.rs
index f1a6322..7829e1a 100644
--- a/src/weierstrass/curve.rs
+++ b/src/weierstrass/curve.rs
@@ -97,6 +97,13 @@ impl Decode for Curve {
             return Err(Error::new(ErrorKind::Other, "Wrong input buffer size."));
         }
         let tag = buf[0];
+        if blen == 1 {
+            // only the point at infinity is encoded as a single byte
+            return match tag {
+                0x00 => Ok(self.identity()),
+                _ => Err(Error::new(ErrorKind::Other, "Invalid tag specified")),
+            };
+        }
         // check x coordinate is in the valid range, Sign::Plus => > 0
         let x_val = BigInt::from_bytes_be(Sign::Plus, &buf[1..size + 1]);
         let p = self.f.get_modulus();
@@ -104,16 +111,10 @@ impl Decode for Curve {
             return Err(Error::new(ErrorKind::Other, "Invalid x coordinate"));
         }
         match tag {
-            0x00 => {
-                // return point of infinity
-                if buf.len() != 1 {
-                    return Err(Error::new(
-                        ErrorKind::Other,
-                        "Point at infinity should just be a single zero byte",
-                    ));
-                }
-                Ok(self.identity())
-            }
+            0x00 => Err(Error::new(
+                ErrorKind::Other,
+                "Point at infinity should just be a single zero byte",
+            )),
             0x04 => {
                 if buf.len() != 2 * size + 1 {
                     return Err(Error::new(
-- 
2.43.0


From 5a7d56c9a7dd88a59711a9eb19bfcfbc4830278e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 12/22] fix: decode returns an error for coordinates that are
 not on the curve

Decoding built the point through new_point, which panics on untrusted
input.
---
 src/edwards/curve.rs     | 22 +++++++++++++++++++++-
 src/montgomery/curve.rs  | 23 +++++++++++++++++++++--
 src/weierstrass/curve.rs | 23 +++++++++++++++++++++--
 3 files changed, 63 insertions(+), 5 deletions(-)

diff --git a/src/edwards/curve.rs b/src/edwards/curve.rs
index 5b61dd0..c02541b 100644
--- a/src/edwards/curve.rs
+++ b/src/edwards/curve.rs
@@ -38,6 +38,26 @@ impl Curve {
     }
 }
 
+impl Curve {
+    /// Returns the affine point (x,y), or an error if it is not on the curve.
+    fn check_point(&self, x: FpElt, y: FpElt) -> Result<Point, Error> {
+        let pt = Point {
+            c: ProyCoordinates {
+                t: &x * &y,
+                x,
+                y,
+                z: self.f.one(),
+            },
+            e: self.clone(),
+        };
+        if self.is_on_curve(&pt) {
+            Ok(pt)
+        } else {
+            Err(Error::new(ErrorKind::Other, "Point is not on the curve"))
+        }
+    }
+}
+
 impl EllipticCurve for Curve {
     type F = Fp;
     type Scalar = Scalar;
@@ -142,7 +162,7 @@ impl Decode for Curve {
         if tag != x_0 {
             x = -x;
         }
-        Ok(self.new_point(x, y))
+        self.check_point(x, y)
     }
 }
 
diff --git a/src/montgomery/curve.rs b/src/montgomery/curve.rs
index 7163718..623c03d 100644
--- a/src/montgomery/curve.rs
+++ b/src/montgomery/curve.rs
@@ -41,6 +41,25 @@ impl Curve {
     }
 }
 
+impl Curve {
+    /// Returns the affine point (x,y), or an error if it is not on the curve.
+    fn check_point(&self, x: FpElt, y: FpElt) -> Result<Point, Error> {
+        let pt = Point {
+            c: ProyCoordinates {
+                x,
+                y,
+                z: self.f.one(),
+            },
+            e: self.clone(),
+        };
+        if self.is_on_curve(&pt) {
+            Ok(pt)
+        } else {
+            Err(Error::new(ErrorKind::Other, "Point is not on the curve"))
+        }
+    }
+}
+
 impl EllipticCurve for Curve {
     type F = Fp;
     type Scalar = Scalar;
@@ -130,7 +149,7 @@ impl Decode for Curve {
                     return Err(Error::new(ErrorKind::Other, "Invalid y coordinate"));
                 }
                 let y = self.f.elt(y_val);
-                Ok(self.new_point(x, y))
+                self.check_point(x, y)
             }
             0x02 | 0x03 => {
                 if buf.len() != size + 1 {
@@ -155,7 +174,7 @@ impl Decode for Curve {
                 if tag != deser_tag {
                     y = -y;
                 }
-                Ok(self.new_point(x, y))
+                self.check_point(x, y)
             }
             _ => Err(Error::new(ErrorKind::Other, "Invalid tag specified")),
         }
diff --git a/src/weierstrass/curve.rs b/src/weierstrass/curve.rs
index 7829e1a..897c1fe 100644
--- a/src/weierstrass/curve.rs
+++ b/src/weierstrass/curve.rs
@@ -37,6 +37,25 @@ impl Curve {
     }
 }
 
+impl Curve {
+    /// Returns the affine point (x,y), or an error if it is not on the curve.
+    fn check_point(&self, x: FpElt, y: FpElt) -> Result<Point, Error> {
+        let pt = Point {
+            c: ProyCoordinates {
+                x,
+                y,
+                z: self.f.one(),
+            },
+            e: self.clone(),
+        };
+        if self.is_on_curve(&pt) {
+            Ok(pt)
+        } else {
+            Err(Error::new(ErrorKind::Other, "Point is not on the curve"))
+        }
+    }
+}
+
 impl EllipticCurve for Curve {
     type F = Fp;
     type Scalar = Scalar;
@@ -128,7 +147,7 @@ impl Decode for Curve {
                     return Err(Error::new(ErrorKind::Other, "Invalid y coordinate"));
                 }
                 let y = self.f.elt(y_val);
-                Ok(self.new_point(x, y))
+                self.check_point(x, y)
             }
             0x02 | 0x03 => {
                 if buf.len() != size + 1 {
@@ -150,7 +169,7 @@ impl Decode for Curve {
                 if tag != deser_tag {
                     y = -y;
                 }
-                Ok(self.new_point(x, y))
+                self.check_point(x, y)
             }
             _ => Err(Error::new(ErrorKind::Other, "Invalid tag specified")),
         }
-- 
2.43.0


From 80e18ff9857cff7a503601b0b12aa51c40bc6eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 13/22] fix: reject compressed points with y=0 and the sign bit
 set

A point of order two had two accepted encodings.
---
 src/montgomery/curve.rs  | 3 +++
 src/weierstrass/curve.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/montgomery/curve.rs b/src/montgomery/curve.rs
index 623c03d..f841325 100644
--- a/src/montgomery/curve.rs
+++ b/src/montgomery/curve.rs
@@ -170,6 +170,9 @@ impl Decode for Curve {
                 let y_sqrt = yy.sqrt();
                 let s = y_sqrt.sgn0();
                 let deser_tag = (((s >> 1) & 0x1) + 2) as u8;
+                if y_sqrt.is_zero() && tag == 0x03 {
+                    return Err(Error::new(ErrorKind::Other, "Invalid sign of zero"));
+                }
                 let mut y = y_sqrt;
                 if tag != deser_tag {
                     y = -y;
diff --git a/src/weierstrass/curve.rs b/src/weierstrass/curve.rs
index 897c1fe..fc51494 100644
--- a/src/weierstrass/curve.rs
+++ b/src/weierstrass/curve.rs
@@ -165,6 +165,9 @@ impl Decode for Curve {
                 let y_sqrt = xxx_ax_b.sqrt();
                 let s = y_sqrt.sgn0();
                 let deser_tag = (((s >> 1) & 0x1) + 2) as u8;
+                if y_sqrt.is_zero() && tag == 0x03 {
+                    return Err(Error::new(ErrorKind::Other, "Invalid sign of zero"));
+                }
                 let mut y = y_sqrt;
                 if tag != deser_tag {
                     y = -y;
-- 
2.43.0


From 8affe941fcfb84e2b02d8c47eb4c3f2a5d63c2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 14/22] fix: normalize keeps the point at infinity

Normalizing the identity gave (0 : 0 : 1), so it was also encoded as if
it were an affine point.
---
 src/montgomery/point.rs  | 6 ++++++
 src/weierstrass/point.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/montgomery/point.rs b/src/montgomery/point.rs
index 5ae9a5d..cd62eb6 100644
--- a/src/montgomery/point.rs
+++ b/src/montgomery/point.rs
@@ -65,6 +65,12 @@ impl Encode for Point {
 
 impl Point {
     pub fn normalize(&mut self) {
+        if self.c.z.is_zero() {
+            // the point at infinity has no affine form, use (0 : 1 : 0).
+            self.c.x.set_zero();
+            self.c.y.set_one();
+            return;
+        }
         let inv_z = 1u32 / &self.c.z;
         self.c.x = &self.c.x * &inv_z;
         self.c.y = &self.c.y * &inv_z;
diff --git a/src/weierstrass/point.rs b/src/weierstrass/point.rs
index 5a54e9f..eba5bf3 100644
--- a/src/weierstrass/point.rs
+++ b/src/weierstrass/point.rs
@@ -70,6 +70,12 @@ impl Encode for Point {
 
 impl Point {
     pub fn normalize(&mut self) {
+        if self.c.z.is_zero() {
+            // the point at infinity has no affine form, use (0 : 1 : 0).
+            self.c.x.set_zero();
+            self.c.y.set_one();
+            return;
+        }
         let inv_z = 1u32 / &self.c.z;
         self.c.x = &self.c.x * &inv_z;
         self.c.y = &self.c.y * &inv_z;
-- 
2.43.0


From ba5161efa0a9c034d810be3e4d1fec5f1a6039d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 15/22] fix: inversion in Fp2 must conjugate

1/(a+bi) is (a-bi)/(a^2+b^2).
---
 src/quadraticfield/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 95a7ed0..23a4d0b 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -189,7 +189,7 @@ impl Fp2Elt {
         let n0 = &self.n[0];
         let n1 = &self.n[1];
         let den = 1u32 / &(n0 * n0 + n1 * n1);
-        self.elt(&den * n0, den * n1)
+        self.elt(&den * n0, -(den * n1))
     }
 }
 
-- 
2.43.0


From 14c5d760c1c969c1a748f98a90b1c54b154eaa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 16/22] fix: exponentiation in Fp2 uses all the bits of the
 exponent

It skipped the top bit of each 32-bit digit, and started from
Fp2Elt::one(), which is unimplemented.
---
 src/quadraticfield/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 23a4d0b..8506377 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -240,9 +240,9 @@ impl<'a, 'b> BitXor<&'b BigUint> for &'a Fp2Elt {
     #[inline]
     fn bitxor(self, exp: &'b BigUint) -> Self::Output {
         let v = exp.to_u32_digits();
-        let mut out = Fp2Elt::one();
+        let mut out = self.f.one();
         for vi in v.iter().rev() {
-            for j in (0..31).rev() {
+            for j in (0..32).rev() {
                 out = &out * &out;
                 let bit = (*vi >> j) & 1;
                 if bit == 1 {
-- 
2.43.0


From 79dc00b49f48252427ede1c4ec667421beee0e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 17/22] fix: negative exponents in Fp2

---
 src/quadraticfield/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 8506377..7a9e800 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -3,7 +3,7 @@
 //! The quadraticfield module is meant to be used for bar.
 
 use atomic_refcell::AtomicRefCell;
-use num_bigint::{BigInt, BigUint};
+use num_bigint::{BigInt, BigUint, Sign};
 use num_traits::cast::ToPrimitive;
 use num_traits::identities::{One, Zero};
 
@@ -258,8 +258,10 @@ impl<'a, 'b> BitXor<&'b BigInt> for &'a Fp2Elt {
     type Output = Fp2Elt;
     #[inline]
     fn bitxor(self, exp: &'b BigInt) -> Self::Output {
-        let expo = &exp.to_biguint().unwrap();
-        self ^ expo
+        match exp.sign() {
+            Sign::Minus => &self.inv_mod() ^ exp.magnitude(),
+            _ => self ^ exp.magnitude(),
+        }
     }
 }
 
-- 
2.43.0


From ce6cc1d60436bc5fadb586f812715095864595e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 18/22] fix: zero is a square in Fp2

---
 src/quadraticfield/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 7a9e800..efe0d5f 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -300,7 +300,7 @@ impl Sqrt for Fp2Elt {
         let t0 = n0 * n0 + n1 * n1;
         let exp = (self.f.get_modulus() - 1u32) >> 1usize;
         let t1 = &t0 ^ &exp;
-        t1 == self.f.0.base.one()
+        t1.is_one() || t1.is_zero()
     }
     fn sqrt(&self) -> Fp2Elt {
         let pre = self.f.get_sqrt_precmp();
-- 
2.43.0


From c43d48ebbdd4049ad181a1bf3fcdaa572511c35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:14 +0000
Subject: [PATCH 19/22] fix: sign of an element of Fp2

The sign is that of the first non-zero coordinate; x and -x had the same
sign for some x.
---
 src/quadraticfield/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index efe0d5f..d297653 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -326,10 +326,11 @@ impl Sqrt for Fp2Elt {
 
 impl Sgn0 for Fp2Elt {
     fn sgn0(&self) -> i32 {
-        let s0 = self.n[0].sgn0();
-        let z0 = self.n[0].is_zero() as i32;
-        let s1 = self.n[1].sgn0();
-        s0 | (z0 ^ s1)
+        if self.n[0].is_zero() {
+            self.n[1].sgn0()
+        } else {
+            self.n[0].sgn0()
+        }
     }
 }
 
-- 
2.43.0


From 3c3b1f0882f2fe11c41547b6db416243fd4f4193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 20/22] fix: zero to the power of a non-zero multiple of p-1 is
 zero

The exponent was reduced modulo p-1, so this gave one.
---
 src/primefield/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/primefield/mod.rs b/src/primefield/mod.rs
index de6f7bf..8369312 100644
--- a/src/primefield/mod.rs
+++ b/src/primefield/mod.rs
@@ -238,6 +238,9 @@ impl<'a, 'b> BitXor<&'b BigInt> for &'a FpElt {
     type Output = FpElt;
     #[inline]
     fn bitxor(self, exp: &'b BigInt) -> Self::Output {
+        if self.is_zero() && !exp.is_zero() {
+            return self.clone();
+        }
         let expo = &exp.mod_floor(&(&self.f.0.p - 1)).to_biguint().unwrap();
         self ^ expo
     }
-- 
2.43.0


From 1004a0cf04b04e1b4d9b25c85fea717fb23122e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 21/22] fix: cached square-root constants must not keep the
 field alive

For p=5 mod 8 the cache of a field held an element of the same field,
hence a cycle of reference counts that was never freed.
---
 src/primefield/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/primefield/mod.rs b/src/primefield/mod.rs
index 8369312..d57bfaf 100644
--- a/src/primefield/mod.rs
+++ b/src/primefield/mod.rs
@@ -251,7 +251,7 @@ impl CMov for FpElt {}
 #[derive(Clone, std::cmp::PartialEq)]
 enum SqrtPrecmp {
     P3MOD4 { exp: BigInt },
-    P5MOD8 { exp: BigInt, sqrt_minus_one: FpElt },
+    P5MOD8 { exp: BigInt, sqrt_minus_one: BigInt },
     P9MOD16,
     P1MOD16,
 }
@@ -277,7 +277,7 @@ impl Fp {
             t0 = t0 + self.one(); //       2t^2+1
             t0 = t0 * t; //             t(2t^2+1)
             let exp = k + 1;
-            let sqrt_minus_one = t0;
+            let sqrt_minus_one = t0.n;
             SqrtPrecmp::P5MOD8 {
                 exp,
                 sqrt_minus_one,
@@ -308,7 +308,7 @@ impl Sqrt for FpElt {
                 let t0 = self ^ &exp;
                 let t1 = &t0 ^ 2u32;
                 let e = *self == t1;
-                let t1 = &t0 * sqrt_minus_one;
+                let t1 = &t0 * self.f.elt(sqrt_minus_one);
                 FpElt::cmov(&t1, &t0, e)
             }
             SqrtPrecmp::P9MOD16 => unimplemented!(),
-- 
2.43.0


From dc474c75a7d9d7f4dcff5536685d08c88b2d4bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 22/22] fix: concurrent square roots in one field

Two threads computing square roots of elements of the same field panicked
with "already mutably borrowed".
---
 src/primefield/mod.rs     | 16 +++++++++++-----
 src/quadraticfield/mod.rs | 16 +++++++++++-----
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/primefield/mod.rs b/src/primefield/mod.rs
index d57bfaf..aefcb59 100644
--- a/src/primefield/mod.rs
+++ b/src/primefield/mod.rs
@@ -257,11 +257,17 @@ enum SqrtPrecmp {
 }
 impl Fp {
     fn get_sqrt_precmp(&self) -> SqrtPrecmp {
-        self.0
-            .sqrt_precmp
-            .borrow_mut()
-            .get_or_insert(self.calc_sqrt_precmp())
-            .clone()
+        if let Ok(cache) = self.0.sqrt_precmp.try_borrow() {
+            if let Some(pre) = cache.as_ref() {
+                return pre.clone();
+            }
+        }
+        let pre = self.calc_sqrt_precmp();
+        // another thread may be using the cache, then do not store.
+        if let Ok(mut cache) = self.0.sqrt_precmp.try_borrow_mut() {
+            *cache = Some(pre.clone());
+        }
+        pre
     }
     fn calc_sqrt_precmp(&self) -> SqrtPrecmp {
         let p = &self.0.p;
diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index d297653..60bb782 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -274,11 +274,17 @@ enum SqrtPrecmp {
 
 impl Fp2 {
     fn get_sqrt_precmp(&self) -> SqrtPrecmp {
-        self.0
-            .sqrt_precmp
-            .borrow_mut()
-            .get_or_insert(self.calc_sqrt_precmp())
-            .clone()
+        if let Ok(cache) = self.0.sqrt_precmp.try_borrow() {
+            if let Some(pre) = cache.as_ref() {
+                return pre.clone();
+            }
+        }
+        let pre = self.calc_sqrt_precmp();
+        // another thread may be using the cache, then do not store.
+        if let Ok(mut cache) = self.0.sqrt_precmp.try_borrow_mut() {
+            *cache = Some(pre.clone());
+        }
+        pre
     }
     fn calc_sqrt_precmp(&self) -> SqrtPrecmp {
         let p = self.get_modulus();
-- 
2.43.0

