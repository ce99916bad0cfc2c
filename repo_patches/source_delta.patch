From 5fe2ab2cb2fad029c5885663d81c246b46ec7fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:42 +0000
Subject: [PATCH 1/9] hook: AppInst constructor under cfg(iota_mam_verif)

---
 src/app/core/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/app/core/mod.rs b/src/app/core/mod.rs
index 60f47bf..5e15a95 100644
--- a/src/app/core/mod.rs
+++ b/src/app/core/mod.rs
@@ -11,6 +11,14 @@ pub struct AppInst {
     pub(crate) id: Trits,
 }
 
+/// Verification hook: an `AppInst` cannot be constructed outside of this crate otherwise.
+#[cfg(iota_mam_verif)]
+impl AppInst {
+    pub fn verif_from_trits(id: Trits) -> Self {
+        AppInst { id }
+    }
+}
+
 pub const MSGID_SIZE: usize = 81;
 
 #[derive(PartialEq, Eq, Clone)]
-- 
2.43.0


From eb7aa5f695f349a449ccf46a4740f5b30f0cef16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:42 +0000
Subject: [PATCH 2/9] fix: carry into the next trit when incrementing a trit
 slice

inc never advanced past the first trit: incrementing [2, ..] wrapped the
first trit to 0, then incremented it again to 1 and reported success.
ntru::gen_r consequently tried only nonces 0, 1, 2, 1, 2, ... and never
terminated when none of these gives an invertible polynomial.
---
 src/trits/slice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trits/slice.rs b/src/trits/slice.rs
index 52e4b6d..aa07f3b 100644
--- a/src/trits/slice.rs
+++ b/src/trits/slice.rs
@@ -644,13 +644,14 @@ where
     }
 
     /// Increment trits in the range `[d..n)` as integer.
-    pub fn inc(self) -> bool {
+    pub fn inc(mut self) -> bool {
         while !self.is_empty() {
             let t = (1 + self.as_const().get_trit()) % 3;
             self.put_trit(t);
             if 0 != t {
                 return true;
             }
+            self = self.drop(1);
         }
         false
     }
-- 
2.43.0


From 29ed85f138e3f8f911c28f02224646ce5f1c2cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:42 +0000
Subject: [PATCH 3/9] fix: compare positions of both slices in is_same

is_same used the offset of self for both sides, so two different regions
of one buffer were considered to be the same trit. Spongos encr/decr then
processed the output region in place and ignored the input region.
---
 src/trits/slice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trits/slice.rs b/src/trits/slice.rs
index aa07f3b..5154717 100644
--- a/src/trits/slice.rs
+++ b/src/trits/slice.rs
@@ -257,7 +257,7 @@ where
     /// Check whether `x` slice points to the same trit in memory as `self`.
     pub fn is_same(self, x: Self) -> bool {
         unsafe {
-            true && self.p.add(self.r.d / TW::SIZE) == x.p.add(self.r.d / TW::SIZE)
+            true && self.p.add(self.r.d / TW::SIZE) == x.p.add(x.r.d / TW::SIZE)
                 && (self.r.d % TW::SIZE) == (x.r.d % TW::SIZE)
         }
         //self.p == x.p && self.r.d == x.r.d //&& self.r.n == x.r.n
@@ -670,7 +670,7 @@ where
     /// Check whether `x` slice points to the same trit in memory as `self`.
     pub fn is_same(self, x: Self) -> bool {
         unsafe {
-            true && self.p.add(self.r.d / TW::SIZE) == x.p.add(self.r.d / TW::SIZE)
+            true && self.p.add(self.r.d / TW::SIZE) == x.p.add(x.r.d / TW::SIZE)
                 && (self.r.d % TW::SIZE) == (x.r.d % TW::SIZE)
         }
         //self.p == x.p && self.r.d == x.r.d //&& self.r.n == x.r.n
-- 
2.43.0


From 179c640bfb1f55234282bfc47aba91e643173606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:42 +0000
Subject: [PATCH 4/9] fix: check the buffer size before unwrapping a masked
 integer

A truncated masked trint field was read past the end of the buffer.
---
 src/pb3/typ/trint.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pb3/typ/trint.rs b/src/pb3/typ/trint.rs
index db47c90..3da507d 100644
--- a/src/pb3/typ/trint.rs
+++ b/src/pb3/typ/trint.rs
@@ -63,6 +63,7 @@ where
     /// `decr` codeword into a temp buffer and `decode` value.
     fn unwrap_mask_sized(s: &mut Spongos, b: &mut TritSlice) -> Result<Self> {
         let n = Self::sizeof();
+        guard(n <= b.size(), Err::Eof)?;
         let mut t = trits::Trits::zero(n);
         s.decr(b.advance(n), t.slice_mut());
         Self::decode_sized(&mut t.slice())
-- 
2.43.0


From 7a3fae5dcccc0b761453bfb96e2427a383da0e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:42 +0000
Subject: [PATCH 5/9] fix: check the claimed size before allocating trytes

The size field of trytes was used for allocation before it was compared
with the size of the buffer: a short message could abort the process.
---
 src/pb3/typ/trytes.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pb3/typ/trytes.rs b/src/pb3/typ/trytes.rs
index d36fe38..4e54c05 100644
--- a/src/pb3/typ/trytes.rs
+++ b/src/pb3/typ/trytes.rs
@@ -87,6 +87,7 @@ pub fn wrap_absorb_trytes(x: &Trits, s: &mut Spongos, b: &mut TritSliceMut) {
 
 pub fn unwrap_absorb_trytes(s: &mut Spongos, b: &mut TritSlice) -> Result<Trits> {
     let n = Size::unwrap_absorb_sized(s, b)?;
+    guard(n.0 <= b.size() / 3, Err::Eof)?;
     let mut x = Trits::zero(n.0 * 3);
     unwrap_absorb_trits(x.slice_mut(), s, b)?;
     Ok(x)
@@ -100,6 +101,7 @@ pub fn wrap_mask_trytes(x: &Trits, s: &mut Spongos, b: &mut TritSliceMut) {
 
 pub fn unwrap_mask_trytes(s: &mut Spongos, b: &mut TritSlice) -> Result<Trits> {
     let n = Size::unwrap_mask_sized(s, b)?;
+    guard(n.0 <= b.size() / 3, Err::Eof)?;
     let mut x = Trits::zero(n.0 * 3);
     unwrap_mask_trits(x.slice_mut(), s, b)?;
     Ok(x)
-- 
2.43.0


From 95a656b20cc2206131cfc6df2c94f0c377076e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:42 +0000
Subject: [PATCH 6/9] fix: check the buffer size before skipping keyload
 entries

Entries for other recipients were skipped without comparing their sizes
and the claimed number of entries with the size of the buffer.
---
 src/app/channel/msg/keyload.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/app/channel/msg/keyload.rs b/src/app/channel/msg/keyload.rs
index dde8a3a..72fb479 100644
--- a/src/app/channel/msg/keyload.rs
+++ b/src/app/channel/msg/keyload.rs
@@ -176,11 +176,13 @@ pub fn unwrap(
                 key.unwrap_mask(&mut fork, b)?;
                 key_found = true;
             } else {
+                guard(pb3::sizeof_ntrytes(81) <= b.size(), Err::Eof)?;
                 b.advance(pb3::sizeof_ntrytes(81));
             }
         }
 
         let sizeof_keyloadpsk = pb3::sizeof_ntrytes(27) + pb3::sizeof_ntrytes(81);
+        guard(psks_count.0 - n <= b.size() / sizeof_keyloadpsk, Err::Eof)?;
         b.advance((psks_count.0 - n) * sizeof_keyloadpsk);
     }
 
@@ -201,11 +203,13 @@ pub fn unwrap(
                 pb3::ntrukem::unwrap_ntrukem(key.slice_mut(), ntrusk, &mut fork, b)?;
                 key_found = true;
             } else {
+                guard(pb3::ntrukem::sizeof_ntrukem() <= b.size(), Err::Eof)?;
                 b.advance(pb3::ntrukem::sizeof_ntrukem());
             }
         }
 
         let sizeof_keyloadntru = pb3::sizeof_ntrytes(27) + pb3::ntrukem::sizeof_ntrukem();
+        guard(ntrus_count.0 - n <= b.size() / sizeof_keyloadntru, Err::Eof)?;
         b.advance((ntrus_count.0 - n) * sizeof_keyloadntru);
     }
 
-- 
2.43.0


From f0e8ae74ae020d4f191f69ed0717c094e8833ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:42 +0000
Subject: [PATCH 7/9] fix: keep the root of an exhausted complete Merkle tree

All nodes including the root were dropped after the last leaf, so
root() and hence PrivateKey::public_key() panicked for an exhausted key.
---
 src/mss/mtcomplete.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mss/mtcomplete.rs b/src/mss/mtcomplete.rs
index 9f1dfff..c10219a 100644
--- a/src/mss/mtcomplete.rs
+++ b/src/mss/mtcomplete.rs
@@ -80,14 +80,16 @@ where
         }
 
         if self.skn == max_skn(self.height) {
-            self.nodes = Vec::new();
+            // Cleanup nodes except for the root.
+            self.nodes = self.nodes.split_off(self.nodes.len() - 1);
         }
 
         self.skn != max_skn(self.height)
     }
 
     fn root(&self) -> &H {
-        self.node(0, 0)
+        // The root is always the last node, even if it's the only one left.
+        &self.nodes[self.nodes.len() - 1]
     }
 
     /// MT height.
@@ -117,7 +119,7 @@ where
     }
 
     fn load(height: Height, skn: Idx, nodes: Vec<H>) -> Option<Self> {
-        if skn == max_skn(height) && nodes.is_empty() {
+        if skn == max_skn(height) && 1 == nodes.len() {
         } else if skn < max_skn(height) && tree_size(height) == nodes.len() {
         } else {
             return None;
-- 
2.43.0


From d70055d34b95b42783d053312ca4a6fbf4c9978d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:59 +0000
Subject: [PATCH 8/9] fix: saturate the offset in take_min, drop_min and
 split_at_min

self.d + n overflowed for large n: a panic in debug builds, a range
ending before its start (and reads out of bounds) in release builds.
---
 src/trits/slice.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/trits/slice.rs b/src/trits/slice.rs
index 5154717..2e9fafe 100644
--- a/src/trits/slice.rs
+++ b/src/trits/slice.rs
@@ -64,7 +64,7 @@ impl SliceRange {
     #[inline]
     pub fn take_min(self, n: usize) -> Self {
         Self {
-            n: std::cmp::min(self.n, self.d + n),
+            n: std::cmp::min(self.n, self.d.saturating_add(n)),
             d: self.d,
         }
     }
@@ -84,7 +84,7 @@ impl SliceRange {
     pub fn drop_min(self, n: usize) -> Self {
         Self {
             n: self.n,
-            d: std::cmp::min(self.n, self.d + n),
+            d: std::cmp::min(self.n, self.d.saturating_add(n)),
         }
     }
 
@@ -107,7 +107,7 @@ impl SliceRange {
     /// Take and drop no more than `n` trits from the current range.
     #[inline]
     pub fn split_at_min(self, n: usize) -> (Self, Self) {
-        let m = std::cmp::min(self.n, self.d + n);
+        let m = std::cmp::min(self.n, self.d.saturating_add(n));
         (Self { n: m, d: self.d }, Self { n: self.n, d: m })
     }
 
-- 
2.43.0


From 8114e6e1a402abca4e0cb7678ddf089f1e02d447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:58 +0000
Subject: [PATCH 9/9] fix: keep the coefficients of small3_add1 in range

The sum was not reduced, so the result compared unequal to the same
polynomial, and a coefficient of -1 plus one was taken for invertible.
---
 src/poly.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/poly.rs b/src/poly.rs
index 107ed0e..120d2d8 100644
--- a/src/poly.rs
+++ b/src/poly.rs
@@ -167,7 +167,7 @@ impl Poly {
         }
     }
     pub fn small3_add1(&mut self) {
-        self.coeffs[0] += COEFF_ONE;
+        self.coeffs[0] = coeff_add(self.coeffs[0], COEFF_ONE);
     }
     pub fn small_mul3(&mut self) {
         for i in 0..N {
-- 
2.43.0

