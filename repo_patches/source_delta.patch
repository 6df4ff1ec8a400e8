From 39deca92affad658d2c7789d6bcec173acfa21c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 1/7] fix: chacha20: do not overflow in RNG `get_block_pos`
 after counter wrap-around

---
 chacha20/src/rng.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chacha20/src/rng.rs b/chacha20/src/rng.rs
index d8c2824..c0025da 100644
--- a/chacha20/src/rng.rs
+++ b/chacha20/src/rng.rs
@@ -252,7 +252,10 @@ macro_rules! impl_chacha_rng {
                 let counter = self.core.core.get_block_pos();
                 let offset = self.core.word_offset();
                 if offset != 0 {
-                    counter - u64::from(BUF_BLOCKS) + offset as u64 / u64::from(BLOCK_WORDS)
+                    // the block counter may have wrapped around since the buffer was filled
+                    counter
+                        .wrapping_sub(u64::from(BUF_BLOCKS))
+                        .wrapping_add(offset as u64 / u64::from(BLOCK_WORDS))
                 } else {
                     counter
                 }
-- 
2.43.0


From fa17bc3207cdf01d91bc50cb69f12b0399979715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 2/7] fix: salsa20: do not overflow when generating the last
 keystream block

---
 salsa20/src/backends/soft.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salsa20/src/backends/soft.rs b/salsa20/src/backends/soft.rs
index caf2693..7c3c0fd 100644
--- a/salsa20/src/backends/soft.rs
+++ b/salsa20/src/backends/soft.rs
@@ -22,7 +22,7 @@ impl<R: Unsigned> StreamCipherBackend for Backend<'_, R> {
     fn gen_ks_block(&mut self, block: &mut Block<Self>) {
         let res = run_rounds::<R>(&self.0.state);
 
-        self.0.set_block_pos(self.0.get_block_pos() + 1);
+        self.0.set_block_pos(self.0.get_block_pos().wrapping_add(1));
 
         for (chunk, val) in block.chunks_exact_mut(4).zip(res.iter()) {
             chunk.copy_from_slice(&val.to_le_bytes());
-- 
2.43.0


From fd369144f73cb590e35997bc9abeec40c5462661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 3/7] fix: chacha20: `ChaChaCore::from_seed` panicked with the
 IETF variant

---
 chacha20/src/rng.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chacha20/src/rng.rs b/chacha20/src/rng.rs
index c0025da..0f7df08 100644
--- a/chacha20/src/rng.rs
+++ b/chacha20/src/rng.rs
@@ -37,7 +37,9 @@ impl<R: Rounds, V: Variant> SeedableRng for ChaChaCore<R, V> {
 
     #[inline]
     fn from_seed(seed: Self::Seed) -> Self {
-        ChaChaCore::new_internal(&seed, &[0u8; 8])
+        // the nonce occupies what the counter leaves of the last state row
+        let iv = &[0u8; 16][size_of::<V::Counter>()..];
+        ChaChaCore::new_internal(&seed, iv)
     }
 }
 
-- 
2.43.0


From 350a43de0b4e6268c047f19cf1841de25834ffa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 4/7] fix: chacha20: use the 64-bit block counter throughout
 SSE2 and NEON block generation

---
 chacha20/src/backends/neon.rs | 13 +++++++------
 chacha20/src/backends/sse2.rs |  5 +++--
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/chacha20/src/backends/neon.rs b/chacha20/src/backends/neon.rs
index 147ebac..1745024 100644
--- a/chacha20/src/backends/neon.rs
+++ b/chacha20/src/backends/neon.rs
@@ -10,7 +10,7 @@ use crate::{Rounds, STATE_WORDS, Variant};
 use core::{arch::aarch64::*, marker::PhantomData};
 
 #[cfg(feature = "rng")]
-use crate::ChaChaCore;
+use crate::{ChaChaCore, variants::Legacy};
 
 #[cfg(feature = "cipher")]
 use crate::chacha::Block;
@@ -253,25 +253,26 @@ impl<R: Rounds, V: Variant> Backend<R, V> {
     /// overwritten, or else it could produce undefined behavior
     #[cfg(feature = "rng")]
     unsafe fn write_par_ks_blocks(&mut self, buffer: &mut [u32; 64]) {
+        // the block counter of the generator is always 64-bit
         let mut blocks = [
             [self.state[0], self.state[1], self.state[2], self.state[3]],
             [
                 self.state[0],
                 self.state[1],
                 self.state[2],
-                add_counter!(self.state[3], self.ctrs[0], V),
+                add_counter!(self.state[3], self.ctrs[0], Legacy),
             ],
             [
                 self.state[0],
                 self.state[1],
                 self.state[2],
-                add_counter!(self.state[3], self.ctrs[1], V),
+                add_counter!(self.state[3], self.ctrs[1], Legacy),
             ],
             [
                 self.state[0],
                 self.state[1],
                 self.state[2],
-                add_counter!(self.state[3], self.ctrs[2], V),
+                add_counter!(self.state[3], self.ctrs[2], Legacy),
             ],
         ];
 
@@ -288,7 +289,7 @@ impl<R: Rounds, V: Variant> Backend<R, V> {
             if block > 0 {
                 add_assign_vec!(
                     blocks[block][3],
-                    add_counter!(self.state[3], self.ctrs[block - 1], V)
+                    add_counter!(self.state[3], self.ctrs[block - 1], Legacy)
                 );
             } else {
                 add_assign_vec!(blocks[block][3], self.state[3]);
@@ -303,7 +304,7 @@ impl<R: Rounds, V: Variant> Backend<R, V> {
             }
             dest_ptr = dest_ptr.add(64);
         }
-        self.state[3] = add_counter!(self.state[3], self.ctrs[3], V);
+        self.state[3] = add_counter!(self.state[3], self.ctrs[3], Legacy);
     }
 }
 
diff --git a/chacha20/src/backends/sse2.rs b/chacha20/src/backends/sse2.rs
index f6479a1..8c0b5fc 100644
--- a/chacha20/src/backends/sse2.rs
+++ b/chacha20/src/backends/sse2.rs
@@ -9,7 +9,7 @@
 use crate::{Rounds, Variant};
 
 #[cfg(feature = "rng")]
-use crate::ChaChaCore;
+use crate::{ChaChaCore, variants::Legacy};
 
 #[cfg(feature = "cipher")]
 use crate::{STATE_WORDS, chacha::Block};
@@ -139,7 +139,8 @@ impl<R: Rounds, V: Variant> Backend<R, V> {
     fn gen_ks_blocks(&mut self, block: &mut [u32; 64]) {
         const _: () = assert!(4 * PAR_BLOCKS * size_of::<__m128i>() == size_of::<[u32; 64]>());
         unsafe {
-            let res = rounds::<R, V>(&self.v);
+            // the block counter of the generator is always 64-bit
+            let res = rounds::<R, Legacy>(&self.v);
             self.v[3] = _mm_add_epi64(self.v[3], _mm_set_epi64x(0, PAR_BLOCKS as i64));
 
             let blocks_ptr = block.as_mut_ptr().cast::<__m128i>();
-- 
2.43.0


From 285fb34313f76fea0eb279a98d2d956af249fbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 5/7] fix: chacha20: make `chacha20_backend = "avx512"` build
 without `chacha20_avx512`

---
 chacha20/src/backends.rs | 2 +-
 chacha20/src/lib.rs      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/chacha20/src/backends.rs b/chacha20/src/backends.rs
index f6305b2..dc12221 100644
--- a/chacha20/src/backends.rs
+++ b/chacha20/src/backends.rs
@@ -7,7 +7,7 @@ cfg_if! {
         pub(crate) mod soft;
     } else if #[cfg(any(target_arch = "x86", target_arch = "x86_64"))] {
         cfg_if! {
-            if #[cfg(all(chacha20_avx512, chacha20_backend = "avx512"))] {
+            if #[cfg(chacha20_backend = "avx512")] {
                 pub(crate) mod avx512;
                 // AVX-2 backend needed for RNG if enabled
                 #[cfg(feature = "rng")]
diff --git a/chacha20/src/lib.rs b/chacha20/src/lib.rs
index dbf726c..0e2f032 100644
--- a/chacha20/src/lib.rs
+++ b/chacha20/src/lib.rs
@@ -84,7 +84,7 @@ cfg_if! {
         type Tokens = ();
     } else if #[cfg(any(target_arch = "x86", target_arch = "x86_64"))] {
         cfg_if! {
-            if #[cfg(all(chacha20_avx512, chacha20_backend = "avx512"))] {
+            if #[cfg(chacha20_backend = "avx512")] {
                 #[cfg(not(all(target_feature = "avx512f", target_feature = "avx512vl")))]
                 compile_error!("You must enable `avx512f` and `avx512vl` target features with \
                     `chacha20_backend = "avx512"` configuration option");
@@ -245,7 +245,7 @@ impl<R: Rounds, V: Variant> StreamCipherCore for ChaChaCore<R, V> {
                 f.call(&mut backends::soft::Backend(self));
             } else if #[cfg(any(target_arch = "x86", target_arch = "x86_64"))] {
                 cfg_if! {
-                    if #[cfg(all(chacha20_avx512, chacha20_backend = "avx512"))] {
+                    if #[cfg(chacha20_backend = "avx512")] {
                         unsafe {
                             backends::avx512::inner::<R, _, V>(&mut self.state, f);
                         }
-- 
2.43.0


From 1274748aa033c6658e9fae77820e2019fc077df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:38 +0000
Subject: [PATCH 6/7] fix: chacha20: name the counter type unambiguously in the
 NEON counter addition

---
 chacha20/src/backends/neon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chacha20/src/backends/neon.rs b/chacha20/src/backends/neon.rs
index 1745024..5304cb4 100644
--- a/chacha20/src/backends/neon.rs
+++ b/chacha20/src/backends/neon.rs
@@ -29,7 +29,7 @@ struct Backend<R: Rounds, V: Variant> {
 
 macro_rules! add_counter {
     ($a:expr, $b:expr, $variant:ty) => {
-        match size_of::<<$variant>::Counter>() {
+        match size_of::<<$variant as Variant>::Counter>() {
             4 => vaddq_u32($a, $b),
             8 => vreinterpretq_u32_u64(vaddq_u64(
                 vreinterpretq_u64_u32($a),
-- 
2.43.0


From 3f673ca9add3f64c1e094781467941873c6a4d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 7/7] fix: chacha20: do not use an SSE4.1 instruction in the
 SSE2 backend

---
 chacha20/src/backends/sse2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chacha20/src/backends/sse2.rs b/chacha20/src/backends/sse2.rs
index 8c0b5fc..5611e8d 100644
--- a/chacha20/src/backends/sse2.rs
+++ b/chacha20/src/backends/sse2.rs
@@ -51,7 +51,7 @@ where
 
     state[12] = _mm_cvtsi128_si32(backend.v[3]) as u32;
     if size_of::<V::Counter>() == 8 {
-        state[13] = _mm_extract_epi32(backend.v[3], 1) as u32;
+        state[13] = _mm_cvtsi128_si32(_mm_srli_si128(backend.v[3], 4)) as u32;
     }
 }
 
@@ -130,7 +130,7 @@ where
     backend.gen_ks_blocks(buffer);
 
     core.state[12] = _mm_cvtsi128_si32(backend.v[3]) as u32;
-    core.state[13] = _mm_extract_epi32(backend.v[3], 1) as u32;
+    core.state[13] = _mm_cvtsi128_si32(_mm_srli_si128(backend.v[3], 4)) as u32;
 }
 
 #[cfg(feature = "rng")]
-- 
2.43.0

