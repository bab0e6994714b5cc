From bf5c7e5f3dacd931a331ef06cbc6188992611fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:12 +0000
Subject: [PATCH 1/7] fix: print scalars and secret keys in big-endian
 hexadecimal

The limbs of a Scalar are stored least significant first; LowerHex wrote
them in storage order, so {:x} of a SecretKey was not the hexadecimal
form of serialize() and could not be parsed back to the same key.
---
 core/src/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/scalar.rs b/core/src/scalar.rs
index 91615d2..2a055f3 100644
--- a/core/src/scalar.rs
+++ b/core/src/scalar.rs
@@ -1022,7 +1022,7 @@ impl<'a> Neg for &'a Scalar {
 
 impl core::fmt::LowerHex for Scalar {
     fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
-        for word in &self.0[..] {
+        for word in self.0.iter().rev() {
             for byte in word.to_be_bytes().iter() {
                 write!(f, "{:02x}", byte)?;
             }
-- 
2.43.0


From 6194fe4d7851b6b88c78fdd6299060c63c6a46f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:12 +0000
Subject: [PATCH 2/7] fix: report allocation failure when creating a boxed
 context

new_boxed passed the result of alloc straight to Box::from_raw and wrote
through it, so a failed allocation was undefined behaviour (a write
through a null pointer) instead of a call to handle_alloc_error.
---
 core/src/ecmult.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/core/src/ecmult.rs b/core/src/ecmult.rs
index 8c892a4..b114331 100644
--- a/core/src/ecmult.rs
+++ b/core/src/ecmult.rs
@@ -4,7 +4,7 @@ use crate::{
     scalar::Scalar,
 };
 use alloc::{
-    alloc::{alloc, Layout},
+    alloc::{alloc, handle_alloc_error, Layout},
     boxed::Box,
     vec,
     vec::Vec,
@@ -67,7 +67,11 @@ impl ECMultContext {
         // because the struct is big. All values in `ECMultContext` are manually
         // initialized after allocation.
         let mut this = unsafe {
-            let ptr = alloc(Layout::new::<ECMultContext>()) as *mut ECMultContext;
+            let layout = Layout::new::<ECMultContext>();
+            let ptr = alloc(layout) as *mut ECMultContext;
+            if ptr.is_null() {
+                handle_alloc_error(layout);
+            }
             let mut this = Box::from_raw(ptr);
 
             for i in 0..ECMULT_TABLE_SIZE_G {
@@ -192,7 +196,11 @@ impl ECMultGenContext {
         // because the struct is big. All values in `ECMultGenContext` are
         // manually initialized after allocation.
         let mut this = unsafe {
-            let ptr = alloc(Layout::new::<ECMultGenContext>()) as *mut ECMultGenContext;
+            let layout = Layout::new::<ECMultGenContext>();
+            let ptr = alloc(layout) as *mut ECMultGenContext;
+            if ptr.is_null() {
+                handle_alloc_error(layout);
+            }
             let mut this = Box::from_raw(ptr);
 
             for j in 0..64 {
-- 
2.43.0


From 9653e660b1c4f9ab4dc1b673b37110103e7e1aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:38 +0000
Subject: [PATCH 3/7] fix: build without the std feature again

base64 is only used by the serde implementations, which need std; the
unconditional import is unused without it and unused_imports is denied,
so every --no-default-features build failed.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8b09b0e..57b063f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -17,11 +17,12 @@
 pub use libsecp256k1_core::*;
 
 use arrayref::{array_mut_ref, array_ref};
-use base64::{engine::Engine as _, prelude::BASE64_STANDARD};
 use core::convert::TryFrom;
 use digest::{generic_array::GenericArray, Digest};
 use rand::Rng;
 
+#[cfg(feature = "std")]
+use base64::{engine::Engine as _, prelude::BASE64_STANDARD};
 #[cfg(feature = "std")]
 use core::fmt;
 #[cfg(feature = "hmac")]
-- 
2.43.0


From 2b388965542550c94e9bf7905a5e7720509d5795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:33 +0000
Subject: [PATCH 4/7] fix: treat (n-1)/2 as a low scalar

Scalar::is_high compared the lowest limb with >=, so that s = (n-1)/2, the
largest low value, was taken for a high one: signing and normalize_s then
turned it into (n+1)/2, which is high.
---
 core/src/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/scalar.rs b/core/src/scalar.rs
index 2a055f3..c35238a 100644
--- a/core/src/scalar.rs
+++ b/core/src/scalar.rs
@@ -282,7 +282,7 @@ impl Scalar {
         yes |= Choice::from((self.0[2] > SECP256K1_N_H_2) as u8) & !no;
         no |= Choice::from((self.0[1] < SECP256K1_N_H_1) as u8) & !yes;
         yes |= Choice::from((self.0[1] > SECP256K1_N_H_1) as u8) & !no;
-        yes |= Choice::from((self.0[0] >= SECP256K1_N_H_0) as u8) & !no;
+        yes |= Choice::from((self.0[0] > SECP256K1_N_H_0) as u8) & !no;
         yes.into()
     }
 
-- 
2.43.0


From 0933613fcdbe9c9a36b0d667966caf1d3d694fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:27 +0000
Subject: [PATCH 5/7] fix: compare field elements of any magnitude

Field's PartialEq negated the left side with its own magnitude and added
the right side, which overflows the limbs once the magnitudes add up to
more than 31: equal elements compared unequal (or panicked with overflow
checks), depending on which side was which.
---
 core/src/field.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/src/field.rs b/core/src/field.rs
index 7e1b39f..4e57e4a 100644
--- a/core/src/field.rs
+++ b/core/src/field.rs
@@ -1748,8 +1748,14 @@ impl MulAssign<Field> for Field {
 
 impl PartialEq for Field {
     fn eq(&self, other: &Field) -> bool {
-        let mut na = self.neg(self.magnitude);
-        na += other;
+        // Bring both sides to magnitude one first: the magnitude of the
+        // difference must stay within bounds whatever theirs are.
+        let mut a = *self;
+        a.normalize_weak();
+        let mut b = *other;
+        b.normalize_weak();
+        let mut na = a.neg(1);
+        na += &b;
         na.normalizes_to_zero()
     }
 }
-- 
2.43.0


From 6d2c24088d77cfc2672ea8e63298e04a40b366d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:57 +0000
Subject: [PATCH 6/7] fix: check the point being doubled, not the destination

double_nonzero_in_place may not be given infinity, but its assertion
looked at the destination's previous content: with debug assertions it
panicked on valid calls and let the forbidden one through.
---
 core/src/group.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/group.rs b/core/src/group.rs
index e713a62..8ece3c4 100644
--- a/core/src/group.rs
+++ b/core/src/group.rs
@@ -335,7 +335,7 @@ impl Jacobian {
     /// a->z * *rzr (where infinity means an implicit z = 0). a may
     /// not be zero. Constant time.
     pub fn double_nonzero_in_place(&mut self, a: &Jacobian, rzr: Option<&mut Field>) {
-        debug_assert!(!self.is_infinity());
+        debug_assert!(!a.is_infinity());
         self.double_var_in_place(a, rzr);
     }
 
-- 
2.43.0


From e05e40e7cc6eb3e45891479ced3848692d6c73fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:19 +0000
Subject: [PATCH 7/7] fix: accept empty tables

Both table conversions handle an empty table, but computed its last
index first: with overflow checks that panicked.
---
 core/src/group.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/group.rs b/core/src/group.rs
index 8ece3c4..9edb98f 100644
--- a/core/src/group.rs
+++ b/core/src/group.rs
@@ -217,10 +217,10 @@ impl Affine {
 pub fn set_table_gej_var(r: &mut [Affine], a: &[Jacobian], zr: &[Field]) {
     debug_assert!(r.len() == a.len());
 
-    let mut i = r.len() - 1;
     let mut zi: Field;
 
     if !r.is_empty() {
+        let mut i = r.len() - 1;
         zi = a[i].z.inv();
         r[i].set_gej_zinv(&a[i], &zi);
 
@@ -235,10 +235,10 @@ pub fn set_table_gej_var(r: &mut [Affine], a: &[Jacobian], zr: &[Field]) {
 pub fn globalz_set_table_gej(r: &mut [Affine], globalz: &mut Field, a: &[Jacobian], zr: &[Field]) {
     debug_assert!(r.len() == a.len() && a.len() == zr.len());
 
-    let mut i = r.len() - 1;
     let mut zs: Field;
 
     if !r.is_empty() {
+        let mut i = r.len() - 1;
         r[i].x = a[i].x;
         r[i].y = a[i].y;
         *globalz = a[i].z;
-- 
2.43.0

