From 948a8902a01bf739eed645a7f1ed0c8615dc65fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:38 +0000
Subject: [PATCH 1/9] fix: export SelectSupport so that select can be called
 from outside the crate

---
 succinct_neo/src/rank_select/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/succinct_neo/src/rank_select/mod.rs b/succinct_neo/src/rank_select/mod.rs
index e5d5323..82ee5f2 100644
--- a/succinct_neo/src/rank_select/mod.rs
+++ b/succinct_neo/src/rank_select/mod.rs
@@ -1,5 +1,5 @@
 pub mod flat_popcount;
 mod traits;
 
-pub use traits::RankSupport;
+pub use traits::{RankSupport, SelectSupport};
 pub use flat_popcount::FlatPopcount;
-- 
2.43.0


From c8cecb8c21f33ffd3e3a60b501709f56b2cd8d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:49 +0000
Subject: [PATCH 2/9] fix: refuse rank queries past the end and do not read
 past the last word

---
 succinct_neo/src/rank_select/flat_popcount/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/succinct_neo/src/rank_select/flat_popcount/mod.rs b/succinct_neo/src/rank_select/flat_popcount/mod.rs
index d82cff9..5d62348 100644
--- a/succinct_neo/src/rank_select/flat_popcount/mod.rs
+++ b/succinct_neo/src/rank_select/flat_popcount/mod.rs
@@ -215,6 +215,12 @@ impl<'a, T> FlatPopcount<'a, T> {
 
 impl<T> RankSupport for FlatPopcount<'_, T> {
     fn rank<const TARGET: bool>(&self, index: usize) -> usize {
+        if index > self.len() {
+            panic!("index is {index} but length is {}", self.len())
+        }
+        if index == 0 {
+            return 0;
+        }
         let l1_index = index >> L1_BLOCK_SIZE_EXP;
         let l2_index = (index >> L2_BLOCK_SIZE_EXP) & 0b0111;
         // The index inside of the L2 block
@@ -234,9 +240,12 @@ impl<T> RankSupport for FlatPopcount<'_, T> {
         }
 
         // Add the rest bits
-        unsafe {
-            ones += (raw_backing.get_unchecked(word_start + full_remaining_words) & ((1 << rest_bits) - 1))
-                .count_ones() as usize
+        // If there are none, there might not be another word
+        if rest_bits > 0 {
+            ones += unsafe {
+                (raw_backing.get_unchecked(word_start + full_remaining_words) & ((1 << rest_bits) - 1))
+                    .count_ones() as usize
+            }
         }
 
         if TARGET {
-- 
2.43.0


From 79a06ed4c6b82dabc3cfce653d858588ff01fa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:49 +0000
Subject: [PATCH 3/9] fix: select must not run past the last block or the last
 one

---
 succinct_neo/src/rank_select/flat_popcount/mod.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/succinct_neo/src/rank_select/flat_popcount/mod.rs b/succinct_neo/src/rank_select/flat_popcount/mod.rs
index 5d62348..b090297 100644
--- a/succinct_neo/src/rank_select/flat_popcount/mod.rs
+++ b/succinct_neo/src/rank_select/flat_popcount/mod.rs
@@ -258,18 +258,15 @@ impl<T> RankSupport for FlatPopcount<'_, T> {
 
 impl<Strat: SelectStrategy> SelectSupport<true> for FlatPopcount<'_, Strat> {
     fn select(&self, mut rank: usize) -> Option<usize> {
-        if rank > self.number_of_ones {
+        if rank >= self.number_of_ones {
             return None;
         }
         let mut l1_index = self.sampled_ones.get(rank >> 13);
-        // SAFETY: The data in sampled_ones should be correct, so this must work too
-        let mut l1 = unsafe { self.l1(l1_index) };
         // Find the l1 block that contains the 1 we need
-        while l1 <= rank && l1_index < self.l1_index.len() {
+        // SAFETY: The index is in bounds
+        while l1_index + 1 < self.l1_index.len() && unsafe { self.l1(l1_index + 1) } <= rank {
             l1_index += 1;
-            l1 = unsafe { self.l1(l1_index) };
         }
-        l1_index -= 1;
         rank -= unsafe { self.l1(l1_index) };
 
         // Find the correct l2 block inside the l1 block
-- 
2.43.0


From 6df43668995d1837d221789f5764454a12ea83dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:49 +0000
Subject: [PATCH 4/9] fix: report exact size hints from the exact-size
 iterators

---
 succinct_neo/src/bit_vec/slice/trait_impls.rs | 4 ++++
 succinct_neo/src/int_vec/mod.rs               | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/succinct_neo/src/bit_vec/slice/trait_impls.rs b/succinct_neo/src/bit_vec/slice/trait_impls.rs
index 95a3015..81b8559 100644
--- a/succinct_neo/src/bit_vec/slice/trait_impls.rs
+++ b/succinct_neo/src/bit_vec/slice/trait_impls.rs
@@ -62,6 +62,10 @@ impl<Backing: BitGet> Iterator for Iter<Backing> {
         self.current += 1;
         Some(v)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<Backing: BitGet> ExactSizeIterator for Iter<Backing> {
diff --git a/succinct_neo/src/int_vec/mod.rs b/succinct_neo/src/int_vec/mod.rs
index 2d07b9e..9818634 100644
--- a/succinct_neo/src/int_vec/mod.rs
+++ b/succinct_neo/src/int_vec/mod.rs
@@ -200,6 +200,10 @@ impl Iterator for IntoIter {
         self.i += 1;
         Some(res)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl ExactSizeIterator for IntoIter {
@@ -225,6 +229,10 @@ impl Iterator for Iter<'_> {
         self.i += 1;
         Some(res)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl ExactSizeIterator for Iter<'_> {
-- 
2.43.0


From 60571b2b9c04080dfa5130090833dc2ae3e328f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:49 +0000
Subject: [PATCH 5/9] fix: support packed integers that are 64 bits wide

---
 succinct_neo/src/int_vec/mod.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/succinct_neo/src/int_vec/mod.rs b/succinct_neo/src/int_vec/mod.rs
index 9818634..13e616c 100644
--- a/succinct_neo/src/int_vec/mod.rs
+++ b/succinct_neo/src/int_vec/mod.rs
@@ -41,7 +41,7 @@ impl IntVec {
 
     #[inline]
     const fn mask(&self) -> usize {
-        (1 << self.width) - 1
+        usize::MAX >> (Self::block_width() - self.width)
     }
 
     /// Calculates the current offset inside the last used block where the next integer would be
@@ -52,12 +52,12 @@ impl IntVec {
     }
 
     pub fn push(&mut self, v: usize) {
-        if v >= (1 << self.width) {
+        if v > self.mask() {
             panic!("value too large for {}-bit integer", self.width)
         }
         let offset = self.current_offset();
         let mask = self.mask();
-        if offset == 0 {
+        if offset == 0 && self.width < Self::block_width() {
             *self.data.last_mut().unwrap() |= v & mask;
             self.size += 1;
             return;
@@ -66,10 +66,9 @@ impl IntVec {
         // If we're wrapping into the next block
         if offset + self.width >= Self::block_width() {
             let fitting_bits = Self::block_width() - offset;
-            let fitting_mask = (1 << fitting_bits) - 1;
-            let mask = (1 << self.width) - 1;
+            let fitting_mask = usize::MAX >> offset;
             *self.data.last_mut().unwrap() |= (v & fitting_mask) << offset;
-            let hi = (v & mask) >> fitting_bits;
+            let hi = (v & mask).checked_shr(fitting_bits as u32).unwrap_or(0);
             self.data.push(hi);
             self.capacity = self.data.capacity() * Self::block_width() / self.width;
             self.size += 1;
@@ -115,7 +114,7 @@ impl IntAccess for IntVec {
         let index_offset = (index * self.width) % Self::block_width();
 
         // If we're on the border between blocks
-        if index_offset + self.width >= Self::block_width() {
+        if index_offset + self.width > Self::block_width() {
             let fitting_bits = Self::block_width() - index_offset;
             let remaining_bits = self.width - fitting_bits;
             let lo = self.data[index_block] >> index_offset;
@@ -124,7 +123,7 @@ impl IntAccess for IntVec {
             return (hi << fitting_bits) | lo;
         }
 
-        let mask = (1 << self.width) - 1;
+        let mask = self.mask();
         (self.data[index_block] >> index_offset) & mask
     }
 
@@ -132,20 +131,20 @@ impl IntAccess for IntVec {
         if index >= self.len() {
             panic!("length is {} but index is {index}", self.len())
         }
-        if value >= (1 << self.width) {
+        if value > self.mask() {
             panic!("value {value} too large for {}-bit integer", self.width)
         }
         unsafe { self.set_unchecked(index, value) }
     }
 
     unsafe fn set_unchecked(&mut self, index: usize, value: usize) {
-        let mask = (1 << self.width) - 1;
+        let mask = self.mask();
         let value = value & mask;
         let index_block = (index * self.width) / Self::block_width();
         let index_offset = (index * self.width) % Self::block_width();
 
         // If we're on the border between blocks
-        if index_offset + self.width >= Self::block_width() {
+        if index_offset + self.width > Self::block_width() {
             let fitting_bits = Self::block_width() - index_offset;
             unsafe {
                 let lower_block = self.data.get_unchecked_mut(index_block);
-- 
2.43.0


From b6a4311d8ef3ee4d76602b75231878ef7ca64766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:50 +0000
Subject: [PATCH 6/9] fix: refuse packed integer vectors of unsupported widths

---
 succinct_neo/src/int_vec/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/succinct_neo/src/int_vec/mod.rs b/succinct_neo/src/int_vec/mod.rs
index 13e616c..cd0b3ba 100644
--- a/succinct_neo/src/int_vec/mod.rs
+++ b/succinct_neo/src/int_vec/mod.rs
@@ -21,6 +21,9 @@ impl IntVec {
     #[inline]
     pub fn with_capacity(width: usize, capacity: usize) -> Self {
         let block_size = Self::block_width();
+        if width == 0 || width > block_size {
+            panic!("width is {width} but must be between 1 and {block_size}")
+        }
         let num_blocks = (capacity * width) / block_size;
 
         let mut temp = Self {
-- 
2.43.0


From fed1138d46ae947cba74eee4ff0c540132ebaf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:09 +0000
Subject: [PATCH 7/9] fix: refuse slices whose bounds overflow instead of
 wrapping around

---
 succinct_neo/src/bit_vec/slice/slicing.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/succinct_neo/src/bit_vec/slice/slicing.rs b/succinct_neo/src/bit_vec/slice/slicing.rs
index eca194f..d4468e8 100644
--- a/succinct_neo/src/bit_vec/slice/slicing.rs
+++ b/succinct_neo/src/bit_vec/slice/slicing.rs
@@ -64,13 +64,13 @@ impl<Backing> BitSlice<Backing> {
     /// ```
     pub fn slice(&self, r: impl RangeBounds<usize>) -> BitSlice<&Backing> {
         let start = match r.start_bound() {
-            Bound::Excluded(&s) => s + 1,
+            Bound::Excluded(&s) => s.checked_add(1).expect("left bound overflows"),
             Bound::Included(&s) => s,
             Bound::Unbounded => 0,
         };
         let end = match r.end_bound() {
             Bound::Excluded(&e) => e,
-            Bound::Included(&e) => e + 1,
+            Bound::Included(&e) => e.checked_add(1).expect("right bound overflows"),
             Bound::Unbounded => self.len(),
         };
 
@@ -163,13 +163,13 @@ impl<Backing> BitSlice<Backing> {
     /// ```
     pub fn slice_mut(&mut self, r: impl RangeBounds<usize>) -> BitSlice<&mut Backing> {
         let start = match r.start_bound() {
-            Bound::Excluded(&s) => s + 1,
+            Bound::Excluded(&s) => s.checked_add(1).expect("left bound overflows"),
             Bound::Included(&s) => s,
             Bound::Unbounded => 0,
         };
         let end = match r.end_bound() {
             Bound::Excluded(&e) => e,
-            Bound::Included(&e) => e + 1,
+            Bound::Included(&e) => e.checked_add(1).expect("right bound overflows"),
             Bound::Unbounded => self.len(),
         };
 
-- 
2.43.0


From dae2714e5c682ce487a995ace04940521bfc2949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:09 +0000
Subject: [PATCH 8/9] fix: refuse reversed bit slices in every build

---
 succinct_neo/src/bit_vec/slice/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/succinct_neo/src/bit_vec/slice/mod.rs b/succinct_neo/src/bit_vec/slice/mod.rs
index 1e9e16a..dddd1dd 100644
--- a/succinct_neo/src/bit_vec/slice/mod.rs
+++ b/succinct_neo/src/bit_vec/slice/mod.rs
@@ -54,7 +54,7 @@ impl<Backing> BitSlice<Backing> {
     /// assert_eq!(false, slice.get_bit(3));
     /// ```
     pub fn new(backing: Backing, start: usize, end: usize) -> Self {
-        debug_assert!(
+        assert!(
             start <= end,
             "end index must be greater or equal to the start index"
         );
-- 
2.43.0


From 865bb7cccf1aa3357c46361d6b6dc15fe7484ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:09 +0000
Subject: [PATCH 9/9] fix: views that are longer than their storage must not
 access memory outside of it

---
 succinct_neo/src/bit_vec/mod.rs               |  4 ++--
 succinct_neo/src/bit_vec/slice/trait_impls.rs | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/succinct_neo/src/bit_vec/mod.rs b/succinct_neo/src/bit_vec/mod.rs
index 789e891..59cfd77 100644
--- a/succinct_neo/src/bit_vec/mod.rs
+++ b/succinct_neo/src/bit_vec/mod.rs
@@ -94,7 +94,7 @@ impl BitModify for BitVec {
         if index >= self.len() {
             panic!("index is {index} but length is {}", self.size)
         }
-        unsafe { self.set_bit_unchecked(index, value) }
+        self.data.set_bit(index, value)
     }
 
     #[inline]
@@ -107,7 +107,7 @@ impl BitModify for BitVec {
         if index >= self.len() {
             panic!("index is {index} but length is {}", self.size)
         }
-        unsafe { self.flip_bit_unchecked(index) }
+        self.data.flip_bit(index)
     }
 }
 
diff --git a/succinct_neo/src/bit_vec/slice/trait_impls.rs b/succinct_neo/src/bit_vec/slice/trait_impls.rs
index 81b8559..b734a54 100644
--- a/succinct_neo/src/bit_vec/slice/trait_impls.rs
+++ b/succinct_neo/src/bit_vec/slice/trait_impls.rs
@@ -19,7 +19,7 @@ impl<Backing: BitGet> BitGet for BitSlice<Backing> {
         if index >= self.len() {
             panic!("index is {index} but length is {}", self.len())
         }
-        unsafe { self.get_bit_unchecked(index) }
+        self.backing.get_bit(self.start + index)
     }
 }
 
@@ -34,7 +34,7 @@ impl<Backing: BitModify> BitModify for BitSlice<Backing> {
         if index >= self.len() {
             panic!("index is {index} but length is {}", self.len())
         }
-        unsafe { self.set_bit_unchecked(index, value) }
+        self.backing.set_bit(self.start + index, value)
     }
 
     #[inline]
@@ -47,7 +47,7 @@ impl<Backing: BitModify> BitModify for BitSlice<Backing> {
         if index >= self.len() {
             panic!("index is {index} but length is {}", self.len())
         }
-        unsafe { self.flip_bit_unchecked(index) }
+        self.backing.flip_bit(self.start + index)
     }
 }
 
@@ -58,7 +58,7 @@ impl<Backing: BitGet> Iterator for Iter<Backing> {
         if self.current >= self.end {
             return None;
         }
-        let v = unsafe { self.backing.get_bit_unchecked(self.current) };
+        let v = self.backing.get_bit(self.current);
         self.current += 1;
         Some(v)
     }
@@ -70,7 +70,7 @@ impl<Backing: BitGet> Iterator for Iter<Backing> {
 
 impl<Backing: BitGet> ExactSizeIterator for Iter<Backing> {
     fn len(&self) -> usize {
-        self.end - self.current
+        self.end.saturating_sub(self.current)
     }
 }
 
-- 
2.43.0

