From 908443136707b397b90434a02eb0ffcb80ac5c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:15 +0000
Subject: [PATCH 1/4] fix: encrypt_rgsw scales the gadget by the base of the
 output ciphertext

---
 src/rlwe.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rlwe.rs b/src/rlwe.rs
index 8295b77..65997f7 100644
--- a/src/rlwe.rs
+++ b/src/rlwe.rs
@@ -448,11 +448,13 @@ impl RLWESecretKey {
         ctx: &mut Context,
     ) {
         // first create a constant encryption of 0, then add the decomposed encoded value to it
+        // the gadget follows the decomposition parameters of the output, which may differ from ctx.base_log
         self.encrypt_constant_rgsw(out, &Plaintext(Scalar::zero()), ctx);
+        let base_log = out.decomposition_base_log().0;
         let mut buf = PlaintextList::allocate(Scalar::zero(), ctx.plaintext_count());
         for (i, mut m) in out.0.as_mut_glwe_list().ciphertext_iter_mut().enumerate() {
             let level = (i / 2) + 1;
-            let shift: usize = (Scalar::BITS as usize) - ctx.base_log.0 * level;
+            let shift: usize = (Scalar::BITS as usize) - base_log * level;
             buf.as_mut_tensor().fill_with_copy(encoded.as_tensor());
             mul_const(buf.as_mut_tensor(), 1 << shift);
             if i % 2 == 0 {
-- 
2.43.0


From 82c43a4442df08e7166a89577e4411591c5c6000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:24 +0000
Subject: [PATCH 2/4] fix: compute_noise_ternary encodes the ternary plaintext
 before comparing

---
 src/rlwe.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rlwe.rs b/src/rlwe.rs
index 65997f7..bde70e6 100644
--- a/src/rlwe.rs
+++ b/src/rlwe.rs
@@ -1291,7 +1291,7 @@ where
 {
     let mut tmp = PlaintextList::allocate(Scalar::zero(), ptxt.count());
     tmp.as_mut_tensor().fill_with_copy(ptxt.as_tensor());
-    Codec::poly_ternary_decode(&mut tmp.as_mut_polynomial());
+    Codec::poly_ternary_encode(&mut tmp.as_mut_polynomial());
     compute_noise(sk, ct, &tmp)
 }
 
-- 
2.43.0


From b675a1a0de241766bb763c607e960c837c5c94dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 3/4] fix: hash_to_mapping panics when every slot of an index
 is taken instead of dropping it

---
 src/naive_hash.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/naive_hash.rs b/src/naive_hash.rs
index 1fb1441..167f34b 100644
--- a/src/naive_hash.rs
+++ b/src/naive_hash.rs
@@ -73,15 +73,17 @@ impl NaiveHash {
         // TODO this is just a greedy algorithm, can be improved
         let mut out: HashMap<usize, (usize, usize)> = HashMap::new();
         for i in is {
+            let mut placed = false;
             for h in 0..self.h_count() {
                 let (r, c) = self.hash_to_tuple(h, *i, d);
                 if let Entry::Vacant(e) = out.entry(r) {
                     e.insert((c, *i));
+                    placed = true;
                     break;
                 }
-                if h >= self.h_count() {
-                    panic!("all slots are taken for i={}", i);
-                }
+            }
+            if !placed {
+                panic!("all slots are taken for i={}", i);
             }
         }
         out
-- 
2.43.0


From 717ce0abd41406abb79a92d811b8d846ccd08a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 4/4] fix: update_body_with_mul multiplies the body instead of
 clearing it

---
 src/rlwe.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rlwe.rs b/src/rlwe.rs
index bde70e6..a368b99 100644
--- a/src/rlwe.rs
+++ b/src/rlwe.rs
@@ -148,7 +148,11 @@ impl RLWECiphertext {
             .as_mut_tensor()
             .fill_with_copy(self.get_body().as_tensor());
         self.get_mut_body().as_mut_tensor().fill_with(Scalar::zero);
-        naive_update_with_mul(&mut self.get_mut_body().as_mut_polynomial(), other);
+        naive_update_with_mul_acc(
+            &mut self.get_mut_body().as_mut_polynomial(),
+            &poly_buffer.as_mut_view(),
+            other,
+        );
     }
 
     pub fn update_body_with_mul_with_buf(&mut self, other: &Polynomial<&[Scalar]>) {
-- 
2.43.0

