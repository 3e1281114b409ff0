From bd1f3346b7f53929f8f2519a5245ed4237457bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:18 +0000
Subject: [PATCH 01/14] fix: bup: restart the rolling sum after an edge in
 RollSumIncr

RollSum::find_chunk_edge() (like upstream bup and the rollsum crate) starts
every chunk with a fresh sum and an empty window. RollSumIncr::push() kept
rolling over the bytes of the finished chunk, so the two disagreed on edges
within one window of the previous edge.
---
 src/bup.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/bup.rs b/src/bup.rs
index c888096..9712af2 100644
--- a/src/bup.rs
+++ b/src/bup.rs
@@ -190,6 +190,14 @@ impl RollSumIncr {
         self.state.digest()
     }
 
+    fn reset(&mut self) {
+        self.state = (&RollSum::with_window(self.window.len())).into();
+        for v in self.window.iter_mut() {
+            *v = 0;
+        }
+        self.wofs = Wrapping(0);
+    }
+
     fn add(&mut self, drop: u8, add: u8) {
         self.state.add(self.window.len(), drop, add);
     }
@@ -226,6 +234,7 @@ impl ChunkIncr for RollSumIncr {
         for (i, &v) in data.iter().enumerate() {
             self.roll_byte(v);
             if self.at_split() {
+                self.reset();
                 return Some(i + 1);
             }
         }
-- 
2.43.0


From d31bea24bc7dfac439851f35fd7783c8dca53f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:18 +0000
Subject: [PATCH 02/14] fix: bup: advance the RollSumIncr window for any window
 length

Masking with `len - 1` only wraps correctly when the window length is a power
of two, but RollSum::with_window() accepts any length.
---
 src/bup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bup.rs b/src/bup.rs
index 9712af2..7fd090c 100644
--- a/src/bup.rs
+++ b/src/bup.rs
@@ -206,7 +206,7 @@ impl RollSumIncr {
         let w = self.window[self.wofs.0];
         self.add(w, ch);
         self.window[self.wofs.0] = ch;
-        self.wofs = Wrapping((self.wofs + Wrapping(1)).0 & (self.window.len() - 1));
+        self.wofs = Wrapping((self.wofs + Wrapping(1)).0 % self.window.len());
     }
 
     #[cfg(test)]
-- 
2.43.0


From 1b1e2e53837bf3025e2dbcb36e2d8f7b9758e66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:18 +0000
Subject: [PATCH 03/14] fix: buzhash: rotate the removed byte's hash by k
 modulo the hash width

The hash is 32 bits wide, so a byte leaving a k byte window has been rotated by
k % 32. Using k % 8 never removed it for any k with k % 32 >= 8.
---
 src/buzhash.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzhash.rs b/src/buzhash.rs
index e54789c..da5ed19 100644
--- a/src/buzhash.rs
+++ b/src/buzhash.rs
@@ -214,7 +214,7 @@ impl BuzHashState {
     fn add_overflow<H: BuzHashHash>(&mut self, params: &BuzHash<H>, add_v: u8, remove_v: u8) {
         let h = self.h.rotate_left(1);
         // need to find and "remove" a entry
-        let drop = params.h.hash(remove_v).rotate_left((params.k % 8) as u32);
+        let drop = params.h.hash(remove_v).rotate_left((params.k % 32) as u32);
         self.h = h ^ drop ^ params.h.hash(add_v);
     }
 }
-- 
2.43.0


From 4f2dee35498f3b243a961b0881aae3aa2a2a210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:18 +0000
Subject: [PATCH 04/14] fix: buzhash: apply max_chunk_size in find_chunk_edge()

Only BuzHashIncr honored it. Track the number of bytes since the previous edge
in the search state so that both interfaces emit the same edges.
---
 src/buzhash.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/buzhash.rs b/src/buzhash.rs
index da5ed19..1bfa4ec 100644
--- a/src/buzhash.rs
+++ b/src/buzhash.rs
@@ -138,15 +138,11 @@ impl<H: BuzHashHash + Clone> Chunk for BuzHash<H> {
                 return (Some(i + 1), i + 1);
             }
 
-            /*
-             * broken: `i` is not the number of bytes since prev chunk.
-             * need to track internal last chunk
-            if i as u64 > self.max_chunk_size {
+            state.input_idx += 1;
+            if state.input_idx > self.max_chunk_size {
                 state.reset();
-                println!(" <- CHUNK: {}", i + 1);
                 return (Some(i + 1), i + 1);
             }
-            */
         }
 
         // keep k elements = discard all but k
@@ -173,11 +169,15 @@ impl<H: BuzHashHash + Clone> ToChunkIncr for BuzHash<H> {
 pub struct BuzHashSearchState {
     offset: usize,
     state: BuzHashState,
+
+    /// number of bytes examined since the previous edge
+    input_idx: u64,
 }
 
 impl BuzHashSearchState {
     fn reset(&mut self) {
         self.offset = 0;
+        self.input_idx = 0;
         self.state.reset();
     }
 }
-- 
2.43.0


From 4540b7e11ff92d3b012481ef44fa5d631c837094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:18 +0000
Subject: [PATCH 05/14] fix: fastcdc: keep chunks from find_chunk_edge() within
 max_size

When no match was found, find_chunk_edge() emitted chunks of max_size + 1
bytes. If the data ended exactly at max_size the edge was past the end of the
slice.
---
 src/fastcdc.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fastcdc.rs b/src/fastcdc.rs
index 1a8b430..bc180f7 100644
--- a/src/fastcdc.rs
+++ b/src/fastcdc.rs
@@ -75,8 +75,17 @@ impl<'a> Chunk for FastCdc<'a> {
         state: &mut Self::SearchState,
         data: &[u8],
     ) -> (Option<usize>, usize) {
+        let prev_len = state.l;
         match state.push(self, data) {
-            Some(i) => (Some(i + 1), i + 1),
+            Some(i) => {
+                // a cut at `max_size` is placed before `data[i]`, all others are after it
+                let edge = if prev_len + i as u64 >= self.max_size {
+                    i
+                } else {
+                    i + 1
+                };
+                (Some(edge), edge)
+            }
             None => (None, data.len()),
         }
     }
-- 
2.43.0


From f9487f9a0468cb30a6af8d7bccf240f533b0f52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:19 +0000
Subject: [PATCH 06/14] fix: gear: return the edge from GearIncr32::push(), not
 the byte before it

push() returned the index of the last byte of the chunk, unlike
Gear32::find_chunk_edge() and the other ChunkIncr implimentations. As a result
the byte was fed again into the next chunk, and iter_slices() emitted empty
slices without end when a single byte matched.
---
 src/gear.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gear.rs b/src/gear.rs
index 184b405..84a3247 100644
--- a/src/gear.rs
+++ b/src/gear.rs
@@ -111,7 +111,7 @@ impl<'a> ChunkIncr for GearIncr32<'a> {
         for (i, v) in data.iter().enumerate() {
             if self.state.push(&self.params, *v) {
                 self.state.reset();
-                return Some(i);
+                return Some(i + 1);
             }
         }
 
-- 
2.43.0


From 2ccb3b2d7de78af05e1ceeb3bf4a449bdca0a429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:19 +0000
Subject: [PATCH 07/14] fix: ram: return the edge from RamIncr::push(), not the
 byte before it

push() returned the index of the last byte of the chunk, unlike
Ram::find_chunk_edge() and the other ChunkIncr implimentations.
---
 src/ram.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ram.rs b/src/ram.rs
index c2b53a4..dfb3964 100644
--- a/src/ram.rs
+++ b/src/ram.rs
@@ -106,6 +106,6 @@ pub struct RamIncr {
 
 impl ChunkIncr for RamIncr {
     fn push(&mut self, data: &[u8]) -> Option<usize> {
-        self.state.push(&self.params, data)
+        self.state.push(&self.params, data).map(|i| i + 1)
     }
 }
-- 
2.43.0


From 3e785671af4a2a71243c74bb56d8f464b5a1a3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:19 +0000
Subject: [PATCH 08/14] fix: zstd: return the edge from ZstdIncr::push(), not
 the byte before it

push() returned the index of the last byte of the chunk, unlike
Zstd::find_chunk_edge() and the other ChunkIncr implimentations.
---
 src/zstd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zstd.rs b/src/zstd.rs
index 04fafd4..80e6909 100644
--- a/src/zstd.rs
+++ b/src/zstd.rs
@@ -256,7 +256,7 @@ impl ChunkIncr for ZstdIncr {
 
             if self.state.at_split(&self.params) {
                 // NOTE: don't clear window
-                return Some(i + use_len);
+                return Some(i + use_len + 1);
             }
         }
 
-- 
2.43.0


From ae542757f7a5d30cc446538fea975b267cd224c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:56 +0000
Subject: [PATCH 09/14] fix: zstd: don't skip the data after an edge in
 find_chunk_edge()

On an edge, all but the last window of the passed data was discarded, no matter
where the edge was: bytes after the edge were never examined and later edges
were missed.

state.offset is always RSYNC_LENGTH once the window is filled, also if the
caller passes less than a window of data after an edge.
---
 src/zstd.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/zstd.rs b/src/zstd.rs
index 80e6909..5c1a7ff 100644
--- a/src/zstd.rs
+++ b/src/zstd.rs
@@ -211,14 +211,15 @@ impl Chunk for Zstd {
             let to_add = data[i];
             state.rotate(to_remove, to_add, self.prime_power);
             if state.at_split(self) {
-                let discard_ct = data.len().saturating_sub(RSYNC_LENGTH);
+                // keep the window preceding the edge, resume right after it
+                let discard_ct = i + 1 - RSYNC_LENGTH;
+                state.offset = RSYNC_LENGTH;
                 return (Some(i + 1), discard_ct);
             }
         }
 
         let discard_ct = data.len().saturating_sub(RSYNC_LENGTH);
-        let keep_ct = data.len() - discard_ct;
-        state.offset = keep_ct;
+        state.offset = RSYNC_LENGTH;
         (None, discard_ct)
     }
 }
-- 
2.43.0


From 8a5cdc2f575db98255a5232727f2721de11af229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:56 +0000
Subject: [PATCH 10/14] fix: zpaq: use the number of bytes in the chunk in
 find_chunk_edge()

`state.idx` already counts the current byte. Adding one to it applied the
minimum and maximum one byte early, unlike ZpaqIncr (and zpaq).
---
 src/zpaq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index bbd199a..7fa1f28 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -207,7 +207,7 @@ impl Chunk for Zpaq {
     ) -> (Option<usize>, usize) {
         for (i, v) in data.iter().enumerate() {
             let h = state.feed(*v);
-            if self.split_here(h, (state.idx + 1) as u64) {
+            if self.split_here(h, state.idx) {
                 *state = self.to_search_state();
                 return (Some(i + 1), i + 1);
             }
-- 
2.43.0


From 7ddd930425138be5e0d45b2932253f478f936c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:56 +0000
Subject: [PATCH 11/14] fix: zpaq: use zpaq's maximum for the default range

zpaq's limits are `64 << fragment` and `8128 << fragment` with `fragment` in
KiB, which is `fragment_ave - 10` here. The maximum was 1024 times too large:
508 MiB instead of the documented 508 KiB for the default.
---
 src/zpaq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index 7fa1f28..c64fbd9 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -83,7 +83,7 @@ impl Zpaq {
     fn range_from_fragment_ave(fragment_ave: u8) -> impl RangeBounds<u64> {
         assert!(fragment_ave <= 32);
         assert!(fragment_ave >= 10);
-        64 << (fragment_ave - 10)..8128 << fragment_ave
+        64 << (fragment_ave - 10)..8128 << (fragment_ave - 10)
     }
 
     fn range_from_max(max: u64) -> impl RangeBounds<u64> {
-- 
2.43.0


From 552a6ba9c4cf20c19b6cd6279a65b1e68898a91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:56 +0000
Subject: [PATCH 12/14] fix: mii: start every chunk in the same state in
 MiiIncr

After a split `prev` was set to 0 rather than 0xff, so the first byte of the
next chunk counted as an increment, unlike in the first chunk and in
Mii::find_chunk_edge().
---
 src/mii.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mii.rs b/src/mii.rs
index 718cb70..fb822d5 100644
--- a/src/mii.rs
+++ b/src/mii.rs
@@ -126,8 +126,7 @@ impl ChunkIncr for MiiIncr {
                 self.increment += 1;
                 if self.increment == self.w {
                     // this is a split
-                    self.increment = 0;
-                    self.prev = 0;
+                    self.reset();
                     return Some(i + 1);
                 }
             } else {
-- 
2.43.0


From 26801455bfae49ae544093595c7c12853f8d4751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:35 +0000
Subject: [PATCH 13/14] fix: zpaq: emit chunks within the configured range

A chunk was only ended once its length already exceeded the range: with
`min..=max` chunks of max + 1 bytes were emitted, with `min..max` chunks of max
bytes. End it when one more byte would exceed the range, and use inclusive
ranges for the constructors that are given (or define) the maximum size, so
that they keep emitting chunks of up to that size.
---
 src/zpaq.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index c64fbd9..736c1a8 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -83,11 +83,11 @@ impl Zpaq {
     fn range_from_fragment_ave(fragment_ave: u8) -> impl RangeBounds<u64> {
         assert!(fragment_ave <= 32);
         assert!(fragment_ave >= 10);
-        64 << (fragment_ave - 10)..8128 << (fragment_ave - 10)
+        64 << (fragment_ave - 10)..=8128 << (fragment_ave - 10)
     }
 
     fn range_from_max(max: u64) -> impl RangeBounds<u64> {
-        max / 64..max
+        max / 64..=max
     }
 
     fn max_hash_from_fragment_ave(fragment_ave: u8) -> u32 {
@@ -153,7 +153,8 @@ impl Zpaq {
     */
 
     fn split_here(&self, hash: u32, index: u64) -> bool {
-        (hash < self.max_hash && !self.range.under_min(&index)) || self.range.exceeds_max(&index)
+        (hash < self.max_hash && !self.range.under_min(&index))
+            || self.range.exceeds_max(&(index + 1))
     }
 }
 
-- 
2.43.0


From e37debd34a4e6bb596d65470940d4dcb2eec85a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:35 +0000
Subject: [PATCH 14/14] fix: zpaq: make the average chunk size a quarter of the
 max size

The average derived from a maximum size is documented to be max / 4, as in
go-dedup. go-dedup's fragment value is in KiB, but it was used as if in bytes,
making the average max / 4096 (less than the minimum of max / 64) and
panicking for any max below 8192.
---
 src/zpaq.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index 736c1a8..73264de 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -52,10 +52,13 @@ pub struct Zpaq {
 }
 
 impl Zpaq {
-    /* this is taken from go-dedup */
+    /*
+     * this is taken from go-dedup, which uses log2(max / (64 * 64)) for an average in KiB: an
+     * average of 1/4 of the max. Limited to what `max_hash_from_fragment_ave()` can represent.
+     */
     fn fragment_ave_from_max(max: u64) -> u8 {
-        /* TODO: convert this to pure integer math */
-        (max as f64 / (64f64 * 64f64)).log2() as u8
+        let max_log2 = 63 - (max | 1).leading_zeros();
+        max_log2.saturating_sub(2).max(1).min(32) as u8
     }
 
     /* these are based on the zpaq (not go-dedup) calculations */
-- 
2.43.0

