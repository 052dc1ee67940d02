From 7877ac42b321843babf2ce1fa4985e4e0161ce41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:09 +0000
Subject: [PATCH 1/8] fix: never split a leaf inside a group of equal ikeys

When the inserted ikey was greater than a group of equal ikeys straddling the
midpoint, calculate_split_point stopped inside the group. The part of the group
left in the old leaf then compared >= the new leaf's bound and became
unreachable.
---
 src/leaf24.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/leaf24.rs b/src/leaf24.rs
index d1f3ff1..85dfb71 100644
--- a/src/leaf24.rs
+++ b/src/leaf24.rs
@@ -1211,18 +1211,15 @@ impl<S: ValueSlot + Send + Sync + 'static> crate::leaf_trait::TreeLeafNode<S> fo
             if left_ikey == right_ikey {
                 // Equal keys - check if insert_ikey matches
                 match insert_ikey.cmp(&left_ikey) {
-                    std::cmp::Ordering::Equal => {
-                        // Insert goes with this group - move split right
+                    std::cmp::Ordering::Equal | std::cmp::Ordering::Greater => {
+                        // Insert goes with this group or right of it - move split
+                        // right so the whole group stays in the left leaf
                         split_pos += 1;
                     }
                     std::cmp::Ordering::Less => {
                         // Insert goes left - move split left
                         split_pos -= 1;
                     }
-                    std::cmp::Ordering::Greater => {
-                        // Insert goes right - done
-                        break;
-                    }
                 }
             } else {
                 break;
-- 
2.43.0


From b6012719548d82d0a3a641889d96c6cafc8752a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 2/8] fix: count_le_u64_avx2 compares keys as unsigned

_mm256_cmpgt_epi64 is a signed comparison, so keys or targets >= 2^63 were
ordered as negative and the count disagreed with the scalar version.
---
 src/ksearch/simd.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ksearch/simd.rs b/src/ksearch/simd.rs
index ed63f5b..dd3d389 100644
--- a/src/ksearch/simd.rs
+++ b/src/ksearch/simd.rs
@@ -256,13 +256,19 @@ mod avx2_impl {
         }
 
         unsafe {
-            let target_vec = _mm256_set1_epi64x(target as i64);
+            // AVX2 only compares signed lanes: flip the sign bit of both sides so
+            // the signed comparison orders unsigned keys.
+            let sign_vec = _mm256_set1_epi64x(i64::MIN);
+            let target_vec = _mm256_xor_si256(_mm256_set1_epi64x(target as i64), sign_vec);
             let mut count = 0;
             let mut i = 0;
 
             // Process 4 keys at a time
             while i + 4 <= size {
-                let keys_vec = _mm256_loadu_si256(keys.as_ptr().add(i).cast());
+                let keys_vec = _mm256_xor_si256(
+                    _mm256_loadu_si256(keys.as_ptr().add(i).cast()),
+                    sign_vec,
+                );
 
                 // AVX2 has _mm256_cmpgt_epi64: gives 1s where key > target
                 // We want key <= target, which is !(key > target)
-- 
2.43.0


From 7a8aabe88f13d699c73aab24d3c2707e9866ab27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:48 +0000
Subject: [PATCH 3/8] fix: readers revalidate against an in-progress write

has_changed ignores LOCK and INSERTING, so a reader whose snapshot overlapped a
locked writer's stores (e.g. a value slot being turned into a layer pointer)
could accept a torn (keylenx, pointer) pair.
---
 src/tree/generic.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index 0f8368d..2194c72 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -584,7 +584,7 @@ where
                     }
 
                     // Validate version AFTER all reads
-                    if leaf.version().has_changed(version) {
+                    if leaf.version().has_changed_or_locked(version) {
                         let (advanced, new_version) =
                             self.advance_to_key_generic(leaf, key, version, guard);
 
@@ -742,7 +742,7 @@ where
                     }
 
                     // Validate version AFTER all reads
-                    if leaf.version().has_changed(version) {
+                    if leaf.version().has_changed_or_locked(version) {
                         // Version changed - follow B-link chain if split occurred
                         let (advanced, new_version) =
                             self.advance_to_key_generic(leaf, key, version, guard);
@@ -909,7 +909,7 @@ where
             }
 
             // Check if internode changed during our read
-            if inode.version().has_changed(v) {
+            if inode.version().has_changed_or_locked(v) {
                 // Version changed - check for split
                 if inode.version().has_split(v) {
                     // Key might have escaped to sibling - retry from start
-- 
2.43.0


From fcc9801edaeff0be4b84ebda2c86a55c32023890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:24 +0000
Subject: [PATCH 4/8] fix: follow the B-link of a leaf whose next pointer is
 marked

A reader that missed its key in a leaf skipped the sibling check while a second
split was linking a new sibling, and reported a present key as absent.
---
 src/tree/generic.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index 2194c72..e18bc90 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -504,7 +504,7 @@ where
         use crate::leaf_trait::TreePermutation;
         use crate::leaf24::KSUF_KEYLENX;
         use crate::leaf24::LAYER_KEYLENX;
-        use crate::link::{is_marked, unmark_ptr};
+        use crate::link::unmark_ptr;
 
         // Start at tree root
         let mut layer_root: *const u8 = self.load_root_ptr_generic(guard);
@@ -622,7 +622,9 @@ where
 
                     let next_raw: *mut L = leaf.next_raw();
                     let next_ptr: *mut L = unmark_ptr(next_raw);
-                    if !next_ptr.is_null() && !is_marked(next_raw) {
+                    // A mark only says that a new sibling is being linked in before `next_ptr`;
+                    // keys at or beyond the old bound still live to the right.
+                    if !next_ptr.is_null() {
                         let next_bound: u64 = unsafe { (*next_ptr).ikey_bound() };
                         if target_ikey >= next_bound {
                             leaf_ptr = next_ptr;
@@ -646,7 +648,9 @@ where
         use crate::leaf_trait::TreePermutation;
         use crate::leaf24::KSUF_KEYLENX;
         use crate::leaf24::LAYER_KEYLENX;
-        use crate::link::{is_marked, unmark_ptr};
+        #[cfg(feature = "tracing")]
+        use crate::link::is_marked;
+        use crate::link::unmark_ptr;
 
         #[cfg(feature = "tracing")]
         let target_ikey_for_trace: u64 = key.ikey();
@@ -787,7 +791,9 @@ where
                     // Check if key belongs to a right sibling via B-link
                     let next_raw: *mut L = leaf.next_raw();
                     let next_ptr: *mut L = unmark_ptr(next_raw);
-                    if !next_ptr.is_null() && !is_marked(next_raw) {
+                    // A mark only says that a new sibling is being linked in before `next_ptr`;
+                    // keys at or beyond the old bound still live to the right.
+                    if !next_ptr.is_null() {
                         // SAFETY: next_ptr is valid
                         let next_bound: u64 = unsafe { (*next_ptr).ikey_bound() };
                         if target_ikey >= next_bound {
-- 
2.43.0


From 48b774310e05c987be63d6fd812927128b8d5bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 5/8] fix: re-descend from the layer's own root after too many
 sibling hops

Inside a deeper layer the key is already shifted; restarting from the main
root stored the key under its remaining bytes in the main tree.
---
 src/tree/generic.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index e18bc90..3b31e3e 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -1592,9 +1592,13 @@ where
             // B-link advance if needed
             let (leaf, exceeded_hop_limit) = self.advance_to_key_by_bound_generic(leaf, key, guard);
 
-            // If we exceeded the hop limit, re-traverse from root
+            // If we exceeded the hop limit, re-traverse from the root of this layer.
+            // (In a sublayer the key is already shifted, so the main root would be wrong;
+            // `maybe_parent_generic` finds the current root of the layer.)
             if exceeded_hop_limit {
-                layer_root = self.load_root_ptr_generic(guard);
+                if !in_sublayer {
+                    layer_root = self.load_root_ptr_generic(guard);
+                }
                 continue;
             }
 
-- 
2.43.0


From 1dea73bb8c72509a54bdee59c9433363df9b052a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 6/8] fix: order the dirty mark before the changes it announces
 on weakly ordered processors

lock()/try_lock() set the dirty bits with an acquire CAS only, so relaxed stores
of the section (take_leaf_value_ptr, internode keys) could become visible
first; and readers validated behind a compiler fence only.
---
 src/nodeversion.rs | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/nodeversion.rs b/src/nodeversion.rs
index 1996bbd..242d6fd 100644
--- a/src/nodeversion.rs
+++ b/src/nodeversion.rs
@@ -464,7 +464,7 @@ impl NodeVersion {
     ///
     /// # Compiler Fence Requirement
     ///
-    /// This method includes a **compiler fence** before the version load.
+    /// This method includes an **acquire fence** before the version load.
     /// This is critical for correctness: the optimistic read protocol is
     /// "read fields → validate version". Without the fence, the compiler
     /// could reorder field reads to occur AFTER the version check, defeating
@@ -486,16 +486,14 @@ impl NodeVersion {
     /// AFTER the load. It does NOT prevent the compiler from moving reads
     /// that occurred BEFORE the `has_changed()` call to occur after it.
     ///
-    /// The compiler fence ensures all prior reads (slot data) complete before
+    /// The acquire fence ensures all prior reads (slot data) complete before
     /// we load the version for validation.
     #[must_use]
     #[inline(always)]
     pub fn has_changed(&self, old: u32) -> bool {
-        // Compiler fence: ensures all prior reads complete before version check.
-        // This matches C++ fence() in nodeversion.hh:72.
-        // OPTIMIZATION: Acquire is sufficient - we only need to prevent reordering
-        // of reads before this fence, not full sequential consistency.
-        compiler_fence(Ordering::Acquire);
+        // Acquire fence: ensures all prior reads complete before version check, on weakly
+        // ordered processors as well (no instruction on x86).
+        fence(Ordering::Acquire);
 
         // XOR the versions, change = differing bits above LOCK_BIT | INSERTING_BIT.
         //
@@ -513,13 +511,13 @@ impl NodeVersion {
     ///
     /// Returns true if the split version counter changed.
     ///
-    /// Uses the same compiler fence as `has_changed()` for correctness.
+    /// Uses the same acquire fence as `has_changed()` for correctness.
     /// See [`has_changed`] for the full explanation.
     #[must_use]
     #[inline(always)]
     pub fn has_split(&self, old: u32) -> bool {
-        // Compiler fence: ensures all prior reads complete before version check.
-        compiler_fence(Ordering::SeqCst);
+        // Acquire fence: ensures all prior reads complete before version check.
+        fence(Ordering::Acquire);
 
         (old ^ self.value.load(Ordering::Acquire)) >= VSPLIT_LOWBIT
     }
@@ -561,7 +559,7 @@ impl NodeVersion {
     #[inline(always)]
     pub fn has_changed_or_locked(&self, old: u32) -> bool {
         // OPTIMIZATION: Acquire fence is sufficient for preventing read reordering.
-        compiler_fence(Ordering::Acquire);
+        fence(Ordering::Acquire);
 
         let current: u32 = self.value.load(Ordering::Acquire);
 
@@ -650,6 +648,10 @@ impl NodeVersion {
                         }
                     }
 
+                    // The dirty mark must be visible before any later store of the critical
+                    // section (C++ `mark_insert()`: `release_fence()`).
+                    fence(Ordering::Release);
+
                     return LockGuard {
                         version: std::ptr::from_ref(self),
                         // locked_value now includes INSERTING_BIT
@@ -700,12 +702,17 @@ impl NodeVersion {
             .value
             .compare_exchange(value, locked, Ordering::Acquire, Ordering::Relaxed)
         {
-            Ok(_) => Some(LockGuard {
-                version: std::ptr::from_ref(self),
-                locked_value: locked,
-                _lifetime: PhantomData,
-                _marker: PhantomData,
-            }),
+            Ok(_) => {
+                // See `lock()`: the dirty mark is visible before any later store.
+                fence(Ordering::Release);
+
+                Some(LockGuard {
+                    version: std::ptr::from_ref(self),
+                    locked_value: locked,
+                    _lifetime: PhantomData,
+                    _marker: PhantomData,
+                })
+            }
 
             Err(_) => None,
         }
-- 
2.43.0


From e22463e5f7c99baa004afcd18da961d3bc0a30d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 7/8] fix: is_empty loads the root once, so that a root growing
 meanwhile is not read as a leaf

---
 src/tree/generic.rs | 40 +++++++++++++++-------------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index 3b31e3e..feaf96c 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -168,10 +168,21 @@ where
     #[must_use]
     #[inline(always)]
     pub fn is_empty(&self) -> bool {
-        if self.root_is_leaf_generic() {
-            // SAFETY: root_is_leaf_generic confirmed this is a leaf
-            let leaf_ptr: *const L = self.root_ptr.load(AtomicOrdering::Acquire).cast();
-            unsafe { (*leaf_ptr).is_empty() }
+        // Load the root once: a concurrent insert may replace a leaf root by an
+        // internode between two loads.
+        let root: *const u8 = self.root_ptr.load(AtomicOrdering::Acquire);
+
+        // SAFETY: `root_ptr` always points to a valid node.
+        // `NodeVersion` is the first field of both leaf and internode types.
+        #[expect(
+            clippy::cast_ptr_alignment,
+            reason = "root points to L or L::Internode, both properly aligned"
+        )]
+        let version_ptr: *const NodeVersion = root.cast::<NodeVersion>();
+
+        if unsafe { (*version_ptr).is_leaf() } {
+            // SAFETY: is_leaf() confirmed this is a leaf node
+            unsafe { (*root.cast::<L>()).is_empty() }
         } else {
             // Internode implies at least one key
             false
@@ -225,27 +236,6 @@ where
             .map(|_| ())
     }
 
-    /// Check if the current root is a leaf node.
-    ///
-    /// # Safety
-    /// Reads the version field through a raw pointer. The `root_ptr` must
-    /// point to a valid node (guaranteed by construction).
-    #[inline(always)]
-    #[expect(
-        clippy::cast_ptr_alignment,
-        reason = "root_ptr points to L or L::Internode, both have NodeVersion \
-                  as first field with proper alignment"
-    )]
-    fn root_is_leaf_generic(&self) -> bool {
-        let root: *const u8 = self.root_ptr.load(AtomicOrdering::Acquire);
-
-        // SAFETY: `root_ptr` always points to a valid node.
-        // `NodeVersion` is the first field of both leaf and internode types.
-        let version_ptr: *const NodeVersion = root.cast::<NodeVersion>();
-
-        unsafe { (*version_ptr).is_leaf() }
-    }
-
     /// Get a mutable reference to the allocator.
     #[inline(always)]
     pub(crate) const fn allocator_mut(&mut self) -> &mut A {
-- 
2.43.0


From c9e81f7d4eb7f22333e19c5cf6b62ce3b8e7df6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:04 +0000
Subject: [PATCH 8/8] fix: a reader racing an in-place suffix assignment must
 not slice past the data it sees

---
 src/suffix.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/suffix.rs b/src/suffix.rs
index a43e3c7..b46fe7f 100644
--- a/src/suffix.rs
+++ b/src/suffix.rs
@@ -182,14 +182,10 @@ impl<const WIDTH: usize> SuffixBag<WIDTH> {
         let start: usize = meta.offset as usize;
         let end: usize = start + meta.len as usize;
 
-        // INVARIANT: Valid metadata points to valid data range.
-        debug_assert!(
-            end <= self.data.len(),
-            "suffix metadata points past data end: {end} > {}",
-            self.data.len()
-        );
-
-        Some(&self.data[start..end])
+        // Valid metadata points to a valid data range, but a reader that is about to
+        // fail version validation can see the metadata of an in-place assignment
+        // before the data length that goes with it: no suffix to compare with then.
+        self.data.get(start..end)
     }
 
     /// Get the suffix for a slot, or empty slice if no suffix.
-- 
2.43.0

