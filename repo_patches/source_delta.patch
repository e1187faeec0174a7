From 3e6e7de44361bf10b6ec5dbefd6670fdde8b9d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:31 +0000
Subject: [PATCH 01/24] sim: announce reference-count operations to a hook
 under cfg(sherman_sim)

---
 src/lib.rs      |  4 +++
 src/param.rs    |  3 ++
 src/sim.rs      | 96 +++++++++++++++++++++++++++++++++++++++++++++++++
 src/tree/cow.rs |  3 ++
 4 files changed, 106 insertions(+)
 create mode 100644 src/sim.rs

diff --git a/src/lib.rs b/src/lib.rs
index e1b9a9a..cc01f0f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -50,6 +50,7 @@
 //! [General Sherman]: https://en.wikipedia.org/wiki/General_Sherman_(tree)
 
 #![deny(unsafe_op_in_unsafe_fn, rustdoc::broken_intra_doc_links)]
+#![allow(unexpected_cfgs)] // `cfg(sherman_sim)`, see src/sim.rs
 #![cfg_attr(
     feature = "nightly",
     allow(incomplete_features),
@@ -70,6 +71,9 @@ pub mod range;
 #[cfg(feature = "fuzz")]
 pub mod mock;
 
+#[cfg(sherman_sim)]
+pub mod sim;
+
 mod const_math_hack;
 mod cursor;
 mod public_traits;
diff --git a/src/param.rs b/src/param.rs
index 574cfe8..3e46555 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -278,7 +278,10 @@ impl<I, S, const M: usize> RleTreeConfig<I, S, M> for AllowCow {
 
     const COW: bool = true;
     const SLICE_REFS: bool = false;
+    #[cfg(not(sherman_sim))]
     type StrongCount = std::sync::atomic::AtomicUsize;
+    #[cfg(sherman_sim)]
+    type StrongCount = crate::sim::AtomicUsize;
 
     type SliceRefStore = ();
 }
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..49734da
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,96 @@
+//! Simulation hooks, compiled only with `--cfg sherman_sim`
+//!
+//! The only nondeterminism in this crate that a caller cannot already control is the order in
+//! which threads operate on the shared reference counts of clone-on-write nodes. With
+//! `--cfg sherman_sim`, those counts use the [`AtomicUsize`] below, which announces every
+//! operation to a registered hook *before* performing it, so that a deterministic scheduler can
+//! decide which thread goes next. Without the cfg, this module does not exist and the counts are
+//! plain [`std::sync::atomic::AtomicUsize`]s.
+
+use std::sync::atomic::AtomicUsize as StdAtomicUsize;
+use std::sync::OnceLock;
+
+pub use std::sync::atomic::Ordering;
+
+/// Kind of an operation on a shared reference count
+#[derive(Debug, Copy, Clone, PartialEq, Eq)]
+pub enum Op {
+    /// A read
+    Load,
+    /// An unconditional write
+    Store,
+    /// An unconditional or conditional read-modify-write
+    Rmw,
+    /// A fence
+    Fence,
+}
+
+/// Function called immediately before every operation, with its kind and the count's address
+pub type Hook = fn(Op, usize);
+
+static HOOK: OnceLock<Hook> = OnceLock::new();
+
+/// Registers the hook; only the first registration counts
+pub fn set_hook(hook: Hook) {
+    let _ = HOOK.set(hook);
+}
+
+fn announce(op: Op, addr: usize) {
+    if let Some(hook) = HOOK.get() {
+        hook(op, addr);
+    }
+}
+
+/// Announced counterpart to [`std::sync::atomic::fence`]
+pub fn fence(order: Ordering) {
+    announce(Op::Fence, 0);
+    std::sync::atomic::fence(order);
+}
+
+/// Announced counterpart to [`std::sync::atomic::AtomicUsize`]
+#[derive(Debug, Default)]
+#[repr(transparent)]
+pub struct AtomicUsize(StdAtomicUsize);
+
+#[rustfmt::skip]
+#[allow(missing_docs)]
+impl AtomicUsize {
+    pub const fn new(v: usize) -> Self { AtomicUsize(StdAtomicUsize::new(v)) }
+    pub fn get_mut(&mut self) -> &mut usize { self.0.get_mut() }
+    pub fn into_inner(self) -> usize { self.0.into_inner() }
+
+    fn at(&self, op: Op) -> &StdAtomicUsize {
+        announce(op, self as *const Self as usize);
+        &self.0
+    }
+
+    pub fn load(&self, o: Ordering) -> usize { self.at(Op::Load).load(o) }
+    pub fn store(&self, v: usize, o: Ordering) { self.at(Op::Store).store(v, o) }
+    pub fn swap(&self, v: usize, o: Ordering) -> usize { self.at(Op::Rmw).swap(v, o) }
+    pub fn fetch_add(&self, v: usize, o: Ordering) -> usize { self.at(Op::Rmw).fetch_add(v, o) }
+    pub fn fetch_sub(&self, v: usize, o: Ordering) -> usize { self.at(Op::Rmw).fetch_sub(v, o) }
+    pub fn fetch_and(&self, v: usize, o: Ordering) -> usize { self.at(Op::Rmw).fetch_and(v, o) }
+    pub fn fetch_or(&self, v: usize, o: Ordering) -> usize { self.at(Op::Rmw).fetch_or(v, o) }
+    pub fn fetch_max(&self, v: usize, o: Ordering) -> usize { self.at(Op::Rmw).fetch_max(v, o) }
+    pub fn fetch_min(&self, v: usize, o: Ordering) -> usize { self.at(Op::Rmw).fetch_min(v, o) }
+
+    pub fn compare_exchange(&self, old: usize, new: usize, s: Ordering, f: Ordering) -> Result<usize, usize> {
+        self.at(Op::Rmw).compare_exchange(old, new, s, f)
+    }
+
+    pub fn compare_exchange_weak(&self, old: usize, new: usize, s: Ordering, f: Ordering) -> Result<usize, usize> {
+        // never fails spuriously, so that one schedule is one execution
+        self.at(Op::Rmw).compare_exchange(old, new, s, f)
+    }
+
+    pub fn fetch_update(&self, s: Ordering, f: Ordering, mut func: impl FnMut(usize) -> Option<usize>) -> Result<usize, usize> {
+        let mut prev = self.load(f);
+        while let Some(next) = func(prev) {
+            match self.compare_exchange_weak(prev, next, s, f) {
+                Ok(x) => return Ok(x),
+                Err(p) => prev = p,
+            }
+        }
+        Err(prev)
+    }
+}
diff --git a/src/tree/cow.rs b/src/tree/cow.rs
index 4153b15..661aa2a 100644
--- a/src/tree/cow.rs
+++ b/src/tree/cow.rs
@@ -1,6 +1,9 @@
 //! Internal handling for concurrent clone-on-write functionality
 
 use crate::param;
+#[cfg(sherman_sim)]
+use crate::sim::{AtomicUsize, Ordering};
+#[cfg(not(sherman_sim))]
 use std::sync::atomic::{AtomicUsize, Ordering};
 
 #[rustfmt::skip]
-- 
2.43.0


From 936c591caba9e11c353103b385c98ec1d56f95f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 02/24] fix: use the matching side in directional arithmetic

Positions after an insertion, and SliceEntry::size, were computed with
subtraction from the wrong side, which only shows for index types whose
addition does not commute.
---
 src/tree/entry.rs  | 2 +-
 src/tree/fix.rs    | 6 +++---
 src/tree/insert.rs | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tree/entry.rs b/src/tree/entry.rs
index 37ed52c..fc51234 100644
--- a/src/tree/entry.rs
+++ b/src/tree/entry.rs
@@ -89,7 +89,7 @@ where
     ///
     /// This is essentially a convenience method roughly equivalent to `self.range().len()`.
     pub fn size(&self) -> I {
-        self.range_end.sub_right(self.range_start)
+        self.range_end.sub_left(self.range_start)
     }
 
     /// Returns a reference to the slice for this entry
diff --git a/src/tree/fix.rs b/src/tree/fix.rs
index 2e53b2c..a245c0e 100644
--- a/src/tree/fix.rs
+++ b/src/tree/fix.rs
@@ -539,7 +539,7 @@ where
                         .leaf()
                         .try_key_pos(c_idx)
                         .unwrap_or_else(|| node.leaf().subtree_size());
-                    next_key_pos.sub_left(self.old_size)
+                    next_key_pos.sub_right(self.old_size)
                 });
 
                 (node.erase_type(), c_idx, Some(c_idx), pos)
@@ -730,7 +730,7 @@ pub(super) unsafe fn shift_keys<'t, Ty, I, S, P, const M: usize, const IS_INCREA
     // Of course, this is only valid if `new_end < old_end` -- so if `IS_INCREASE` is false.
     // Naturally, there's a rephrasing for when `new_end > old_end`:
     //
-    //   k_pos.add_left(new_end.sub_left(old_end))           FIXME: prove this?
+    //   k_pos.add_left(new_end.sub_right(old_end))
     //
     // This one is to be used when `IS_INCREASE` is true.
     //
@@ -742,7 +742,7 @@ pub(super) unsafe fn shift_keys<'t, Ty, I, S, P, const M: usize, const IS_INCREA
     let new_end = pos.add_right(new_size);
 
     let abs_difference = match IS_INCREASE {
-        true => new_end.sub_left(old_end),
+        true => new_end.sub_right(old_end),
         false => old_end.sub_right(new_end),
     };
 
diff --git a/src/tree/insert.rs b/src/tree/insert.rs
index b9047af..c46429c 100644
--- a/src/tree/insert.rs
+++ b/src/tree/insert.rs
@@ -1076,7 +1076,7 @@ where
                             .leaf()
                             .try_key_pos(c_idx)
                             .unwrap_or_else(|| node.leaf().subtree_size());
-                        next_key_pos.sub_left(sizes.old_size)
+                        next_key_pos.sub_right(sizes.old_size)
                     }
                 });
 
-- 
2.43.0


From 09a014a46c16d628408daf48d58bb7c99a80420b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 03/24] fix: do not form a mutable reference to a shared node's
 child pointer

into_child created a `&mut` to the child pointer for immutable borrows too;
for nodes shared between copy-on-write trees that is a data race.
---
 src/tree/node.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/tree/node.rs b/src/tree/node.rs
index c2fe71b..6b7c676 100644
--- a/src/tree/node.rs
+++ b/src/tree/node.rs
@@ -345,7 +345,7 @@ pub(super) mod borrow {
     /// The implementation for `Mut` requires `P: SupportsInsert`, and sets `Param = P`. The
     /// implementation for `Immut` sets an arbitrary `Param` and does nothing.
     ///
-    /// The name "cast" for `cast_ref_if_mut` isn't quite accurate; it either returns its input
+    /// The name "cast" for `cast_ptr_if_mut` isn't quite accurate; it either returns its input
     /// (with added guarantees about the types), or does nothing.
     pub trait SupportsInsertIfMut<I, S, P, const M: usize>
     where
@@ -353,21 +353,21 @@ pub(super) mod borrow {
     {
         type Param: RleTreeConfig<I, S, M> + SupportsInsert<I, S, M>;
 
-        fn cast_ref_if_mut(
-            r: &mut NodePtr<I, S, P, M>,
-        ) -> Option<&mut NodePtr<I, S, Self::Param, M>>;
+        fn cast_ptr_if_mut(
+            r: *mut NodePtr<I, S, P, M>,
+        ) -> Option<*mut NodePtr<I, S, Self::Param, M>>;
     }
     impl<'a, I, S, P, const M: usize> SupportsInsertIfMut<I, S, P, M> for Immut<'a>
     where
         P: RleTreeConfig<I, S, M>,
     {
-        // This may not match `P`, but is still sound because `cast_ref_if_mut` will always return
+        // This may not match `P`, but is still sound because `cast_ptr_if_mut` will always return
         // `None`, meaning that it's never used.
         type Param = crate::param::NoFeatures;
 
-        fn cast_ref_if_mut(
-            _: &mut NodePtr<I, S, P, M>,
-        ) -> Option<&mut NodePtr<I, S, Self::Param, M>> {
+        fn cast_ptr_if_mut(
+            _: *mut NodePtr<I, S, P, M>,
+        ) -> Option<*mut NodePtr<I, S, Self::Param, M>> {
             None
         }
     }
@@ -377,7 +377,7 @@ pub(super) mod borrow {
     {
         type Param = P;
 
-        fn cast_ref_if_mut(r: &mut NodePtr<I, S, P, M>) -> Option<&mut NodePtr<I, S, P, M>> {
+        fn cast_ptr_if_mut(r: *mut NodePtr<I, S, P, M>) -> Option<*mut NodePtr<I, S, P, M>> {
             Some(r)
         }
     }
@@ -2062,9 +2062,11 @@ where
             p as *mut _
         };
 
-        let ptr_ref = unsafe { &mut *child_ptr_ptr };
-
-        if let Some(r) = B::cast_ref_if_mut(ptr_ref) {
+        if let Some(r) = B::cast_ptr_if_mut(child_ptr_ptr) {
+            // SAFETY: a mutable borrow means that access to the node is unique, so there can't be
+            // any other references to the child pointer. (With shared borrows, there may well be;
+            // possibly on other threads.)
+            let r = unsafe { &mut *r };
             unsafe { ensure_unique(r, self.height.get() - 1) };
 
             // Because we have unique mutable access now, make sure that the child's parent pointer
@@ -2081,7 +2083,8 @@ where
         }
 
         NodeHandle {
-            ptr: *ptr_ref,
+            // SAFETY: the child at `child_idx` is initialized, and we're allowed to read it
+            ptr: unsafe { *child_ptr_ptr },
             height: self.height.get() - 1,
             borrow: self.borrow,
         }
-- 
2.43.0


From 9a789c1305968b8d5a64d0b04aad8d8a3ed5a53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 04/24] fix: cursor_to continues from the child, not its
 parent, past a shared node

---
 src/tree/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index f4988a6..47e42d1 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -495,7 +495,7 @@ where
                             let mismatched_parent = P::COW
                                 && matches!(child.leaf().parent(), Some(p) if p.ptr != n.ptr());
                             if mismatched_parent {
-                                let mut c: C = recurse(node, target);
+                                let mut c: C = recurse(child, target);
                                 c.prepend_to_path(PathComponent { child_idx: c_idx });
                                 break c;
                             }
-- 
2.43.0


From c8ec4d016f4647bc07937d02de0cf608a711b52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 05/24] fix: keep track of holes left by a panicking try_join

is_hole only looked at one of the two, and inserting keys before a hole moved
the values without moving the hole, so uninitialised values were read and
dropped later.
---
 src/tree/node.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/tree/node.rs b/src/tree/node.rs
index 6b7c676..9116eaa 100644
--- a/src/tree/node.rs
+++ b/src/tree/node.rs
@@ -2190,6 +2190,7 @@ where
                 leaf.keys.get_mut_unchecked(key_idx as usize).write(pos);
                 leaf.vals.get_mut_unchecked(key_idx as usize).write(slice);
                 leaf.refs.get_mut_unchecked(key_idx as usize).write(refid);
+                leaf.shift_holes(key_idx);
                 leaf.len += 1;
 
                 // Update the positions of all the references to the new, shifted indexes
@@ -2508,6 +2509,7 @@ where
 
             // Now that we've initialized everything (shifted, leaving an uninitialized hole, then
             // initialized the hole), we can update the length.
+            internal.leaf.shift_holes(key_idx);
             internal.leaf.len += 1;
 
             // Step 3: update the positions of the values
@@ -2719,6 +2721,17 @@ where
         self.holes[1].is_some()
     }
 
+    /// Moves the holes at or after `from` one to the right, alongside their keys
+    fn shift_holes(&mut self, from: u8) {
+        for hole in self.holes.iter_mut().flatten() {
+            // `hole` is one more than the index of its key, so `hole > from` iff `index >= from`.
+            // There was room for another key, so the addition can't overflow.
+            if hole.get() > from {
+                *hole = hole.saturating_add(1);
+            }
+        }
+    }
+
     /// Returns whether `self` has a hole at `k_idx`
     ///
     /// ## Safety
@@ -2740,7 +2753,7 @@ where
         //
         // It's worth optimizing this function in this way because `is_hole` may be quite hot.
         let hole_x = self.holes[0].map(|x| x.get()).unwrap_or(0); // no-op
-        let hole_y = self.holes[0].map(|y| y.get()).unwrap_or(0); // no-op
+        let hole_y = self.holes[1].map(|y| y.get()).unwrap_or(0); // no-op
 
         let plus_one = k_idx + 1;
         plus_one == hole_x || plus_one == hole_y
-- 
2.43.0


From 9ce368ce612be56ee7bf550df83f6cd45659836d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 06/24] fix: reject slices of non-positive size when
 deserializing

They panicked, instead of producing an error.
---
 src/serde.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/serde.rs b/src/serde.rs
index 4c043ef..ab3e0a3 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -50,6 +50,11 @@ where
     fn visit_seq<A: de::SeqAccess<'de>>(self, mut seq: A) -> Result<Self::Value, A::Error> {
         let mut this = RleTree::new_empty();
         while let Some((size, slice)) = seq.next_element()? {
+            if size <= I::ZERO {
+                return Err(de::Error::custom(format_args!(
+                    "invalid slice size {size:?}, not greater than zero"
+                )));
+            }
             let idx = this.size();
             this.insert(idx, slice, size);
         }
-- 
2.43.0


From 2cc53d2c7e9b114c03abacb8bb76cabfbd6eb64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 07/24] fix: cursor to a slice that the insertion was joined
 into

When the inserted slice joined with the left half of the slice it split, the
returned cursor contained a spurious segment if that slice was in an internal
node, and could follow the wrong half of a split node.
---
 src/tree/fix.rs    | 21 +++++++++++++++------
 src/tree/insert.rs | 41 ++++++++---------------------------------
 2 files changed, 23 insertions(+), 39 deletions(-)

diff --git a/src/tree/fix.rs b/src/tree/fix.rs
index a245c0e..293de34 100644
--- a/src/tree/fix.rs
+++ b/src/tree/fix.rs
@@ -115,10 +115,6 @@ where
             ChildOrKey::Child((ci, n)) => (n.untyped_mut(), ChildOrKey::Child(*ci)),
         };
 
-        if let Some(map_cursor) = f.cursor.as_mut() {
-            map_cursor(node, self.cursor_builder.reborrow());
-        }
-
         if let Some(map_sizes) = f.sizes.as_mut() {
             let new_sizes = map_sizes(node, child_or_key, OpUpdateStateSizes {
                 override_pos: self.override_pos,
@@ -508,7 +504,7 @@ where
                 return;
             }
 
-            match self.do_upward_step() {
+            match self.do_upward_step(map_state.cursor.as_deref_mut()) {
                 Ok(()) => return,
                 Err(new_state) => self = new_state,
             }
@@ -519,7 +515,15 @@ where
     /// root
     ///
     /// Typically this method will not be used directly, and instead
-    pub(super) fn do_upward_step(mut self) -> Result<(), Self> {
+    pub(super) fn do_upward_step<'m>(
+        mut self,
+        map_cursor: Option<
+            &mut (dyn for<'b> FnMut(
+                &NodeHandle<ty::Unknown, borrow::Mut<'t>, I, S, P, M>,
+                CursorBuilder<'b>,
+            ) + 'm),
+        >,
+    ) -> Result<(), Self> {
         // The first part of the traversal step starts with repositioning all of the keys after
         // `self.child_or_key`.
 
@@ -571,6 +575,11 @@ where
             self.cursor_builder.prepend_to_path(PathComponent { child_idx });
         }
 
+        // The mapping is applied after adding the segment through `node`, so that it may remove it
+        if let Some(f) = map_cursor {
+            f(&node, self.cursor_builder.reborrow());
+        }
+
         // Update `self` to the parent, if there is one. Otherwise, this is the root node so we
         // should return `Err` with the cursor and reference to the insertion.
         match node.into_parent().ok() {
diff --git a/src/tree/insert.rs b/src/tree/insert.rs
index c46429c..5ecdd42 100644
--- a/src/tree/insert.rs
+++ b/src/tree/insert.rs
@@ -1109,36 +1109,8 @@ where
                 sizes
             };
 
-        // Track the position of the inserted `fst`, so that we can update
-        let fst_handle: Cell<Option<(node::NodePtr<I, S, P, M>, u8, u8)>> = Cell::new(None);
-
         let remap_cursor = cursor_mode == CursorMode::Lhs && !cursor_builder.is_nop();
 
-        let mut new_updates_callback;
-        let updates_callback: UpdatesCallback<I, S, P, M> = if remap_cursor {
-            new_updates_callback = |upd: TraverseUpdate<I, S, P, M>| {
-                match (&upd, fst_handle.get()) {
-                    (&TraverseUpdate::Insertion { ptr, height, idx }, None) => {
-                        fst_handle.set(Some((ptr, height, idx)));
-                    }
-                    (
-                        TraverseUpdate::Move { old_ptr, old_range, new_ptr, new_height, new_range },
-                        Some((fst_ptr, _, fst_idx)),
-                    ) if *old_ptr == fst_ptr && old_range.contains(&fst_idx) => {
-                        let new_idx = new_range.start + (old_range.start - fst_idx);
-
-                        fst_handle.set(Some((*new_ptr, *new_height, new_idx)));
-                    }
-                    _ => (),
-                }
-
-                updates_callback(upd);
-            };
-            &mut new_updates_callback
-        } else {
-            updates_callback
-        };
-
         let mut map_cursor = |node: &ty![NodeHandle], mut builder: CursorBuilder| {
             if node.height() == lhs_height {
                 builder.reset();
@@ -1146,12 +1118,15 @@ where
         };
 
         let mut map_cursor_side = |lhs: &ty![NodeHandle], mut side| {
+            // If the node containing `lhs` was split, then it was split so that (with the insertion
+            // to the right of `lhs`) `M` keys starting from the left are in the left-hand node,
+            // with the next one between the two halves.
             if lhs.height() == lhs_height {
-                match fst_handle.get() {
-                    None => side = Some(Side::Left),
-                    Some((ptr, _, 0)) if ptr != lhs.ptr() => side = None,
-                    _ => (),
-                }
+                side = match (lhs_k_idx as usize).cmp(&M) {
+                    Ordering::Less => Some(Side::Left),
+                    Ordering::Equal => None,
+                    Ordering::Greater => Some(Side::Right),
+                };
             }
             side
         };
-- 
2.43.0


From f306194071ad473759250decaafe61790d744bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:51 +0000
Subject: [PATCH 08/24] fix: BoundedCursor keeps every component it has room
 for

Its path started with an unset component, and the last one was dropped.
---
 src/cursor.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 5ffc1b2..9c2165f 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -96,8 +96,7 @@ impl<const LEN: usize> Cursor for BoundedCursor<LEN> {
     fn new_empty() -> Self {
         let len_u8 = match u8::try_from(LEN) {
             Err(_) => panic!("tried to construct BoundedCursor with LEN > u8::MAX"),
-            Ok(0) => 0,
-            Ok(len) => len - 1,
+            Ok(len) => len,
         };
 
         BoundedCursor {
@@ -116,8 +115,8 @@ impl<const LEN: usize> Cursor for BoundedCursor<LEN> {
             self.path.copy_within(0..LEN - 1, 1);
             self.path[0] = component;
         } else {
-            self.path[self.start_at as usize] = component;
             self.start_at -= 1;
+            self.path[self.start_at as usize] = component;
         }
     }
 
-- 
2.43.0


From 3aba804393a7d9e430b7c9215f6f572478dbf19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 09/24] fix: count every clone of a SliceRef

Cloning a SliceRef that was already invalid (or whose tree was gone) did
not increase the weak count, but dropping the clone decreased it, so the
shared allocation was released while references to it remained.
---
 src/tree/slice_ref.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tree/slice_ref.rs b/src/tree/slice_ref.rs
index 5442c00..90c2239 100644
--- a/src/tree/slice_ref.rs
+++ b/src/tree/slice_ref.rs
@@ -844,11 +844,14 @@ impl<I, S, const M: usize> SliceRef<I, S, M> {
 /// Cloning a `SliceRef` -- even an invalid one -- is always possible, and will never panic
 impl<I, S, const M: usize> Clone for SliceRef<I, S, M> {
     fn clone(&self) -> Self {
+        // The weak count is decreased when *any* `SliceRef` is dropped, including the ones without
+        // an `id`, so it must be increased for them as well.
+        bump_weak_count(&self.inner().weak_count);
+
         let id = self.id.take().and_then(|this_id| match self.get_refs_without_borrow() {
             None => None,
             Some(r) => {
                 let refs = r.borrow();
-                bump_weak_count(&self.inner().weak_count);
                 let new_id = refs.clone(&this_id);
                 self.id.set(Some(this_id));
                 Some(new_id)
-- 
2.43.0


From 3bc9c3960a0409872002a47d23947795394f2322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 10/24] fix: keep slice references usable until the last borrow
 ends

Dropping a tree while one of its slices was borrowed emptied the table of
references, even though the tree itself stays alive until the borrow ends;
using any SliceRef in the meantime indexed out of bounds.
---
 src/tree/slice_ref.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tree/slice_ref.rs b/src/tree/slice_ref.rs
index 90c2239..8e3de2c 100644
--- a/src/tree/slice_ref.rs
+++ b/src/tree/slice_ref.rs
@@ -457,7 +457,12 @@ impl<I, S, const M: usize> Drop for SliceRefStore<I, S, M> {
 
         // drop(ish) the inner contents. `false` because the tree's already handled by our caller,
         // in `destruct_root`
-        inner.drop(false);
+        //
+        // If there's still borrows on the tree, then both `refs` and the tree have to stay as they
+        // are until the last of them is released, which will drop the contents itself.
+        if matches!(new_state, BorrowState::Dropped) {
+            inner.drop(false);
+        }
 
         // If everything has been *completely* dropped, and there's no weak references left (in the
         // form of `SliceRef`s), then we can deallocate the backing allocation.
-- 
2.43.0


From f9e4ac26e37aa8c0e7d0e2fbba560a3deb5a4963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 11/24] fix: release what was copied when cloning a slice
 panics

In deep_clone, the copied slices of an internal node were left without an
owner while its children were being cloned, so they were leaked if that
panicked.
---
 src/tree/node.rs | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/tree/node.rs b/src/tree/node.rs
index 9116eaa..531d239 100644
--- a/src/tree/node.rs
+++ b/src/tree/node.rs
@@ -1136,23 +1136,29 @@ where
             }
         }
 
-        let new_leaf: Leaf<I, S, param::NoFeatures, M> = Leaf {
-            parent: None,
-            idx_in_parent: MaybeUninit::uninit(),
-            holes: [None; 2],
-            len: this_leaf.len,
-            strong_count: (),
-            keys: this_leaf.keys,
-            vals: vals.into_uninit(),
-            // Note: We can leave `refs` uninitialized because `param::NoFeatures` has
-            // `OptionRefId = ()`, so the total size of `refs` is zero.
-            refs: KeyArray::new(),
-            total_size: this_leaf.subtree_size(),
-        };
+        // Only called once everything has been cloned; until then, `vals` has to be kept as is, so
+        // that the slices in it are dropped if cloning any other slice panics.
+        let make_leaf =
+            |vals: GradualInitArray<KeyArray<S, M>>| -> Leaf<I, S, param::NoFeatures, M> {
+                Leaf {
+                    parent: None,
+                    idx_in_parent: MaybeUninit::uninit(),
+                    holes: [None; 2],
+                    len: this_leaf.len,
+                    strong_count: (),
+                    keys: this_leaf.keys,
+                    vals: vals.into_uninit(),
+                    // Note: We can leave `refs` uninitialized because `param::NoFeatures` has
+                    // `OptionRefId = ()`, so the total size of `refs` is zero.
+                    refs: KeyArray::new(),
+                    total_size: this_leaf.subtree_size(),
+                }
+            };
 
         match self.typed_ref() {
             Type::Leaf(_) => NodeHandle {
-                ptr: alloc_aligned(new_leaf).cast::<AbstractNode<I, S, param::NoFeatures, M>>(),
+                ptr: alloc_aligned(make_leaf(vals))
+                    .cast::<AbstractNode<I, S, param::NoFeatures, M>>(),
                 height: self.height,
                 borrow: PhantomData,
             },
@@ -1174,7 +1180,7 @@ where
                 }
 
                 let new_internal = Internal {
-                    leaf: new_leaf,
+                    leaf: make_leaf(vals),
                     child_ptrs: child_ptrs.into_uninit().map_array_with_index(|i, p| {
                         if i as u8 <= this_leaf.len {
                             // SAFETY: the bound `i <= this_leaf.len` means `p` is initialized
-- 
2.43.0


From 556bf010a112c9b7fabdd5637493a45c3d113977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:34 +0000
Subject: [PATCH 12/24] fix: release the new right half when growing the root
 panics

make_new_parent runs user-defined index arithmetic, but held the right half
of the old root as a bare handle, so its slices were leaked if that panicked.
---
 src/tree/insert.rs |  2 +-
 src/tree/node.rs   | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/tree/insert.rs b/src/tree/insert.rs
index 5ecdd42..6b7e204 100644
--- a/src/tree/insert.rs
+++ b/src/tree/insert.rs
@@ -161,7 +161,7 @@ where
                 // SAFETY: `make_new_parent` requires that `owned_root` and `rhs` not have any
                 // parent already and are at the same height, which is guaranteed by `NewRoot`
                 unsafe {
-                    owned_root.make_new_parent(&mut root.refs_store, key, key_size, rhs.take());
+                    owned_root.make_new_parent(&mut root.refs_store, key, key_size, rhs);
                 }
 
                 if P::SLICE_REFS && insertion.is_none() {
diff --git a/src/tree/node.rs b/src/tree/node.rs
index 531d239..a375976 100644
--- a/src/tree/node.rs
+++ b/src/tree/node.rs
@@ -1697,15 +1697,15 @@ where
         store: &mut resolve![P::SliceRefStore],
         key: Key<I, S, P, M>,
         key_size: I,
-        mut rhs: Self,
+        rhs: NodeBox<ty::Unknown, I, S, P, M>,
     ) where
         I: Index,
     {
         // SAFETY: guaranteed by caller
         unsafe {
             weak_assert!(self.leaf().parent.is_none());
-            weak_assert!(rhs.leaf().parent.is_none());
-            weak_assert!(self.height == rhs.height);
+            weak_assert!(rhs.as_ref().leaf().parent.is_none());
+            weak_assert!(self.height == rhs.as_ref().height);
         }
 
         let new_height = match self.height.checked_add(1) {
@@ -1716,7 +1716,10 @@ where
         };
 
         let key_pos = self.leaf().subtree_size();
-        let total_size = key_pos.add_right(key_size).add_right(rhs.leaf().subtree_size());
+        let total_size = key_pos.add_right(key_size).add_right(rhs.as_ref().leaf().subtree_size());
+
+        // There's no more user-defined code to run, so `rhs` doesn't need its destructor anymore.
+        let mut rhs = rhs.take();
 
         let new_internal: NonNull<Internal<I, S, P, M>> = alloc_aligned(Internal {
             leaf: Leaf {
-- 
2.43.0


From 630e74b8e5b672965a5a8b52bef2b5fb98f6cd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 13/24] fix: follow an inserted slice when its internal node is
 split

When an inserted slice joined with the slice to its left in an internal node,
and inserting what was right of it caused that node to split, the reference
returned by insert_ref pointed to the old place of the slice.
---
 src/tree/fix.rs    |  6 +++---
 src/tree/insert.rs | 12 ++++++++++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/tree/fix.rs b/src/tree/fix.rs
index 293de34..74f20a4 100644
--- a/src/tree/fix.rs
+++ b/src/tree/fix.rs
@@ -250,14 +250,14 @@ where
         }
     }
 
-    /// Creates an iterator of `TraverseUpdate`s corresponding to splitting the given node at the
-    /// index
+    /// Creates the `TraverseUpdate`s corresponding to splitting the given node at the index: the
+    /// `Move` of everything after it, and the `Remove` of the slice at the index itself
     #[rustfmt::skip]
     pub(super) fn split<Ty: ty::TypeHint, B>(
         lhs: &NodeHandle<Ty, B, I, S, P, M>,
         idx: u8,
         rhs: &NodeHandle<Ty, borrow::UniqueOwned, I, S, P, M>,
-    ) -> impl IntoIterator<Item = TraverseUpdate<I, S, P, M>> {
+    ) -> [TraverseUpdate<I, S, P, M>; 2] {
         [
             Self::Move {
                 old_ptr: lhs.ptr(), old_range: idx + 1..idx + 1 + rhs.leaf().len(),
diff --git a/src/tree/insert.rs b/src/tree/insert.rs
index 6b7e204..4a9349e 100644
--- a/src/tree/insert.rs
+++ b/src/tree/insert.rs
@@ -2035,6 +2035,11 @@ where
         let mut rhs = NodeBox::new(rhs);
         parent.set_subtree_size(midpoint_key.pos);
 
+        // The inserted value might be one of the keys that we just moved, if it was joined with an
+        // existing slice in `parent`. That slice is always the key directly before `self.lhs`.
+        let [moved, midpoint_removed] = TraverseUpdate::split(&parent, midpoint_idx, &rhs.node);
+        updates_callback(moved);
+
         // We want to find `rhs_start` (i.e. the position of the first child in `rhs`), but there's
         // a couple edge cases we have to handle first:
         //
@@ -2183,6 +2188,13 @@ where
             let inserted_handle = unsafe { insert_into.borrow().into_slice_handle(new_key_idx) };
             updates_callback(make_update(&inserted_handle));
 
+            // Now that `self.key` is back in the tree, we can signal that the midpoint isn't. It
+            // can only be the inserted value when `self.lhs` is the first child of `rhs`; in all
+            // other cases its old index might have been reused.
+            if let Side::Right = side {
+                updates_callback(midpoint_removed);
+            }
+
             BubbleStepResult::KeepGoing(BubbledInsertState {
                 lhs: parent.erase_type(),
                 key: midpoint_key,
-- 
2.43.0


From a4ab6f28ed1df51c2bfac07fb2f9f92603248836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 14/24] fix: cursor_to checks the child's index in a shared
 node's parent too

---
 src/tree/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index 47e42d1..0af43a1 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -491,9 +491,14 @@ where
 
                             // SAFETY: search_step guarantees that c_idx is valid
                             let child = unsafe { n.into_child(c_idx) };
+                            // The parent of a shared node may be another one, or this one with the
+                            // index it had when it was last unique.
                             // note: adding P::COW means the compiler knows it will always be false
                             let mismatched_parent = P::COW
-                                && matches!(child.leaf().parent(), Some(p) if p.ptr != n.ptr());
+                                && !matches!(
+                                    child.leaf().parent(),
+                                    Some(p) if p.ptr == n.ptr() && p.idx_in_parent == c_idx
+                                );
                             if mismatched_parent {
                                 let mut c: C = recurse(child, target);
                                 c.prepend_to_path(PathComponent { child_idx: c_idx });
-- 
2.43.0


From 8ba12202a9fadb8a66265153ad15baa8362dd699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:08 +0000
Subject: [PATCH 15/24] fix: do not hold a reference to a borrowed slice while
 the tree is dropped

---
 src/tree/slice_ref.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/tree/slice_ref.rs b/src/tree/slice_ref.rs
index 8e3de2c..139eac4 100644
--- a/src/tree/slice_ref.rs
+++ b/src/tree/slice_ref.rs
@@ -228,7 +228,11 @@ pub enum ShouldDrop {
 // conditions *created* during its destructor
 pub struct Borrow<'a, T> {
     /// The original `Slice`, or a reference produced from it
-    val: &'a T,
+    ///
+    /// This is a pointer because dropping the `Borrow` may drop the tree containing the value, and
+    /// a reference passed into a function must stay valid until the function returns.
+    val: NonNull<T>,
+    marker: PhantomData<&'a T>,
     /// The state of the original borrow
     ///
     /// Existence of this `Ref` guarantees the borrow is `Immutable { .. }`, except for the few
@@ -920,7 +924,8 @@ impl<'r, I, S, const M: usize> TemporaryBorrow<'r, I, S, M> {
 
         self.ownership_transferred = true;
         Borrow {
-            val,
+            val: NonNull::from(val),
+            marker: PhantomData,
             borrow: &self.inner.borrow,
             data_ptr: NonNull::from(self.inner).cast::<()>(),
             drop_fn: Self::drop_tree_once_no_borrows,
@@ -1009,7 +1014,8 @@ impl<'a, T> Deref for Borrow<'a, T> {
     type Target = T;
 
     fn deref(&self) -> &T {
-        self.val
+        // SAFETY: the value is borrowed for as long as `self` exists
+        unsafe { self.val.as_ref() }
     }
 }
 
@@ -1020,7 +1026,8 @@ impl<'a, T> Borrow<'a, T> {
     /// itself. As such, it must be called as `Borrow::map(...)`.
     pub fn map<U>(this: Self, f: impl FnOnce(&T) -> &U) -> Borrow<'a, U> {
         let new = Borrow {
-            val: f(this.val),
+            val: NonNull::from(f(&this)),
+            marker: PhantomData,
             borrow: this.borrow,
             data_ptr: this.data_ptr,
             drop_fn: this.drop_fn,
@@ -1045,6 +1052,7 @@ impl<'a, T> Clone for Borrow<'a, T> {
 
         Borrow {
             val: self.val,
+            marker: PhantomData,
             borrow: self.borrow,
             data_ptr: self.data_ptr,
             drop_fn: self.drop_fn,
-- 
2.43.0


From 793f595fc43a3ca7793de34b6458235cfffaba4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:11 +0000
Subject: [PATCH 16/24] simulation hook: check and mark what release builds
 assume

---
 src/macros.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index 9bbb11c..50bdd17 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -6,6 +6,10 @@ use std::sync::atomic::AtomicBool;
 // Macro that is `unreachable!` in debug mode, but `unreachable_unchecked` in release mode.
 macro_rules! weak_unreachable {
     ($($tt:tt)*) => {{
+        // Simulations check this in release builds too, and tell it from ordinary panics.
+        #[cfg(sherman_sim)]
+        panic!(concat!("debug assertion failed: reached line ", line!()));
+        #[cfg(not(sherman_sim))]
         if cfg!(debug_assertions) {
             unreachable!($($tt)*);
         } else {
@@ -21,7 +25,7 @@ macro_rules! weak_assert {
         if !$cond {
             // We use `if cfg!(...)` here so that any formatting arguments will be marked as used
             // by the macro, even in release mode (where they are definitely not used).
-            if cfg!(debug_assertions) {
+            if cfg!(any(debug_assertions, sherman_sim)) {
                 panic!(weak_assert!(@panic_args $cond $(, $($tt)+)?));
             } else {
                 std::hint::unreachable_unchecked()
-- 
2.43.0


From 6395bd258ee2815cbaaca90edec952a998eae30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:35 +0000
Subject: [PATCH 17/24] fix: do not read a key of a leaf that an interrupted
 split left without any

---
 src/tree/iter.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tree/iter.rs b/src/tree/iter.rs
index a882570..fdd30bd 100644
--- a/src/tree/iter.rs
+++ b/src/tree/iter.rs
@@ -318,9 +318,13 @@ where
                 // Use the key or child immediately to the left.
                 match head_node.into_typed() {
                     Type::Leaf(_) => {
-                        let i = len - 1;
-                        // SAFETY: `len` is guaranteed to be `>= 1`, so `len - 1` can't overflow,
-                        // and key indexes must be `< len`.
+                        // If an insertion panicked while it was splitting a node, there may be
+                        // leaves without any keys.
+                        let i = match len.checked_sub(1) {
+                            Some(i) => i,
+                            None => panic_internal_error_or_bad_index::<I>(),
+                        };
+                        // SAFETY: `i` is `len - 1`, and key indexes must be `< len`.
                         let p = unsafe { head_node.leaf().key_pos(i) };
                         ChildOrKey::Key((i, p))
                     }
-- 
2.43.0


From ccf0da56be9b035afa0aa71210ff7ba57b31999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:10 +0000
Subject: [PATCH 18/24] fix: do not keep the reference table borrowed while a
 reference calls user code

---
 src/tree/slice_ref.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/tree/slice_ref.rs b/src/tree/slice_ref.rs
index 139eac4..ea2b919 100644
--- a/src/tree/slice_ref.rs
+++ b/src/tree/slice_ref.rs
@@ -697,9 +697,15 @@ impl<I, S, const M: usize> SliceRef<I, S, M> {
             "slice handles should not be suspended while the tree is not mutably borrowed";
 
         Ok(TemporaryBorrow {
+            // Don't keep the `cell::Ref`: the handle is used to call user code (index arithmetic and
+            // cursors), which may create new `SliceRef`s, and those need to modify `refs`.
+            //
+            // SAFETY: `clone_slice_ref` requires that the new handle isn't accessed at the same time
+            // as the original's borrow. Neither is used mutably: `borrow_refs` has marked the tree
+            // as immutably borrowed until the `TemporaryBorrow` is dropped.
             handle: self
                 .collapse_refs(refs)
-                .map(|r| cell::Ref::map(r, |opt| opt.as_ref().expect(unwrap_msg))),
+                .map(|r| unsafe { r.as_ref().expect(unwrap_msg).clone_slice_ref() }),
             inner: self.inner(),
             ownership_transferred: false,
         })
@@ -876,10 +882,7 @@ impl<I, S, const M: usize> Clone for SliceRef<I, S, M> {
 }
 
 struct TemporaryBorrow<'r, I, S, const M: usize> {
-    // the `cell::Ref` needs to be behind a `ManuallyDrop` so that we don't try to drop the
-    // contents of the `InnerStore` while it's still borrowed; we need to drop the `Ref` first.
-    handle:
-        Option<cell::Ref<'r, SliceHandle<ty::Unknown, borrow::SliceRef, I, S, AllowSliceRefs, M>>>,
+    handle: Option<SliceHandle<ty::Unknown, borrow::SliceRef, I, S, AllowSliceRefs, M>>,
     inner: &'r InnerStore<I, S, M>,
     ownership_transferred: bool,
 }
@@ -940,11 +943,6 @@ impl<'r, I, S, const M: usize> TemporaryBorrow<'r, I, S, M> {
 
 impl<'r, I, S, const M: usize> Drop for TemporaryBorrow<'r, I, S, M> {
     fn drop(&mut self) {
-        // Explicitly drop the `cell::Ref` early so that we don't run into borrow conflicts if we
-        // need to drop the `InnerStore` as well.
-        if let Some(handle_ref) = self.handle.take() {
-            drop(handle_ref);
-        }
         if self.ownership_transferred {
             return;
         }
-- 
2.43.0


From 88e3c2e43ddcb53811629fd5cccef97dd00afbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:31 +0000
Subject: [PATCH 19/24] fix: implementing RleTreeIsSend or SupportsInsert for
 one's own types is unsafe

---
 src/param.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/param.rs b/src/param.rs
index 3e46555..8466fcb 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -75,7 +75,12 @@ pub trait RleTreeConfig<I, S, const M: usize>: Sized {
 /// implemented outside this crate.
 ///
 /// This trait is implemented for everything except `AllowCow` when `S` doesn't implement `Clone`.
-pub trait SupportsInsert<I, S, const M: usize>: sealed::YouCantImplementThis {
+///
+/// ## Safety
+///
+/// The configuration alone doesn't keep other crates from implementing this trait for their own `I`
+/// and `S`. `clone_slice` must return a clone of the slice if it's implemented for [`AllowCow`].
+pub unsafe trait SupportsInsert<I, S, const M: usize>: sealed::YouCantImplementThis {
     /// Shim to access the implementation of `Clone` for `S` *only when used with `AllowCow`*. All
     /// other implementations are equivalent to [`std::hint::unreachable_unchecked`].
     ///
@@ -144,9 +149,14 @@ pub trait SupportsInsert<I, S, const M: usize>: sealed::YouCantImplementThis {
 /// the trait bound `AllowSliceRefs: RleTreeIsSend<I, S>` is not satisfied
 /// ```
 ///
+/// ## Safety
+///
+/// Implementing this trait implements [`Send`] for the [`RleTree`]s with this configuration and
+/// these `I` and `S`; refer to the table above for when that's sound.
+///
 /// [`RleTree`]: crate::RleTree
 /// [`SliceRef`]: crate::SliceRef
-pub trait RleTreeIsSend<I, S> {}
+pub unsafe trait RleTreeIsSend<I, S> {}
 
 pub(crate) mod sealed {
     /// It's a trait you (the user of this crate) can't reach
@@ -296,15 +306,19 @@ impl<I, S, const M: usize> RleTreeConfig<I, S, M> for AllowSliceRefs {
     type SliceRefStore = slice_ref::SliceRefStore<I, S, M>;
 }
 
-impl<I, S, const M: usize> SupportsInsert<I, S, M> for NoFeatures {}
-impl<I, S, const M: usize> SupportsInsert<I, S, M> for AllowSliceRefs {}
+// SAFETY: `clone_slice` is only used for `AllowCow`
+unsafe impl<I, S, const M: usize> SupportsInsert<I, S, M> for NoFeatures {}
+unsafe impl<I, S, const M: usize> SupportsInsert<I, S, M> for AllowSliceRefs {}
 
-impl<I: Clone, S: Clone, const M: usize> SupportsInsert<I, S, M> for AllowCow {
+// SAFETY: `clone_slice` returns a clone
+unsafe impl<I: Clone, S: Clone, const M: usize> SupportsInsert<I, S, M> for AllowCow {
     unsafe fn clone_slice(slice: &S) -> S {
         slice.clone()
     }
 }
 
 // Refer to `RleTreeIsSend` for more information about impelmenting `Send`
-impl<I: Send, S: Send> RleTreeIsSend<I, S> for NoFeatures {}
-impl<I: Send + Sync, S: Send + Sync> RleTreeIsSend<I, S> for AllowCow {}
+//
+// SAFETY: the bounds are the ones that are required there
+unsafe impl<I: Send, S: Send> RleTreeIsSend<I, S> for NoFeatures {}
+unsafe impl<I: Send + Sync, S: Send + Sync> RleTreeIsSend<I, S> for AllowCow {}
-- 
2.43.0


From ea4dacc311ace61ea91299fae3660695141f4a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:48 +0000
Subject: [PATCH 20/24] fix: a shared clone-on-write tree can be cloned, so
 sharing it requires Send values

---
 src/param.rs    | 18 ++++++++++++++++++
 src/tree/mod.rs |  8 ++++----
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/param.rs b/src/param.rs
index 8466fcb..cfabef0 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -158,6 +158,20 @@ pub unsafe trait SupportsInsert<I, S, const M: usize>: sealed::YouCantImplementT
 /// [`SliceRef`]: crate::SliceRef
 pub unsafe trait RleTreeIsSend<I, S> {}
 
+/// Marker trait for which [`RleTree`]s can implement [`Sync`], like [`RleTreeIsSend`] for [`Send`]
+///
+/// Sharing a reference to an [`RleTree`] with [`NoFeatures`] only shares references to its values.
+/// With [`AllowCow`], the reference can be used to clone the tree, and then the values may be
+/// dropped in any thread, so they must be [`Send`] as well (as for `Arc`).
+///
+/// ## Safety
+///
+/// Implementing this trait implements [`Sync`] for the [`RleTree`]s with this configuration and
+/// these `I` and `S`.
+///
+/// [`RleTree`]: crate::RleTree
+pub unsafe trait RleTreeIsSync<I, S> {}
+
 pub(crate) mod sealed {
     /// It's a trait you (the user of this crate) can't reach
     pub trait TraitYouCantReach {}
@@ -322,3 +336,7 @@ unsafe impl<I: Clone, S: Clone, const M: usize> SupportsInsert<I, S, M> for Allo
 // SAFETY: the bounds are the ones that are required there
 unsafe impl<I: Send, S: Send> RleTreeIsSend<I, S> for NoFeatures {}
 unsafe impl<I: Send + Sync, S: Send + Sync> RleTreeIsSend<I, S> for AllowCow {}
+
+// SAFETY: the bounds are the ones that are required by `RleTreeIsSync`
+unsafe impl<I: Sync, S: Sync> RleTreeIsSync<I, S> for NoFeatures {}
+unsafe impl<I: Send + Sync, S: Send + Sync> RleTreeIsSync<I, S> for AllowCow {}
diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index 0af43a1..7eea2fe 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -2,8 +2,8 @@
 
 use crate::cursor::{Cursor, CursorBuilder, NoCursor, PathComponent};
 use crate::param::{
-    self, AllowSliceRefs, BorrowState, RleTreeConfig, RleTreeIsSend, SliceRefStore as _,
-    SupportsInsert,
+    self, AllowSliceRefs, BorrowState, RleTreeConfig, RleTreeIsSend, RleTreeIsSync,
+    SliceRefStore as _, SupportsInsert,
 };
 use crate::public_traits::{Index, Slice};
 use crate::range::RangeBounds;
@@ -152,8 +152,8 @@ unsafe impl<I, S, P, const M: usize> Send for RleTree<I, S, P, M> where
 {
 }
 
-unsafe impl<I: Sync, S: Sync, P: Sync, const M: usize> Sync for RleTree<I, S, P, M> where
-    P: RleTreeConfig<I, S, M>
+unsafe impl<I, S, P, const M: usize> Sync for RleTree<I, S, P, M> where
+    P: RleTreeConfig<I, S, M> + RleTreeIsSync<I, S>
 {
 }
 
-- 
2.43.0


From fd29f514a9aa7424f444b46d4df09525a822772d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:18 +0000
Subject: [PATCH 21/24] fix: tell dropck that a tree drops its values, for
 may_dangle with the nightly feature

---
 src/tree/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index 7eea2fe..cb6ac7b 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -8,6 +8,7 @@ use crate::param::{
 use crate::public_traits::{Index, Slice};
 use crate::range::RangeBounds;
 use std::fmt::Debug;
+use std::marker::PhantomData;
 use std::mem::ManuallyDrop;
 use std::ops::Range;
 use std::panic::{RefUnwindSafe, UnwindSafe};
@@ -166,6 +167,10 @@ where
     handle: ManuallyDrop<NodeHandle<ty::Unknown, borrow::Owned, I, S, P, M>>,
     len: usize,
     refs_store: <P as RleTreeConfig<I, S, M>>::SliceRefStore,
+    // For dropck: `may_dangle` on the destructor requires saying that we drop `I` and `S`, because
+    // neither the pointer nor `ManuallyDrop` does. With the `Box`, there's no need for `I` or `S` to
+    // be `Unpin`.
+    marker: PhantomData<Box<(I, S)>>,
 }
 
 #[cfg(not(feature = "nightly"))]
@@ -353,6 +358,7 @@ where
                 handle: ManuallyDrop::new(handle),
                 len: 1,
                 refs_store: P::SliceRefStore::new(store_handle),
+                marker: PhantomData,
             }),
         }
     }
@@ -780,6 +786,7 @@ where
                     handle: ManuallyDrop::new(root.handle.as_immut().deep_clone().erase_unique()),
                     len: root.len,
                     refs_store: Default::default(),
+                    marker: PhantomData,
                 }),
             },
         }
@@ -803,6 +810,7 @@ impl<I, S: Clone, const M: usize> Clone for RleTree<I, S, param::AllowCow, M> {
                         len: root.len,
                         // refs_store will be empty because this is a COW-enabled tree
                         refs_store: Default::default(),
+                        marker: PhantomData,
                     }),
                 }
             }
-- 
2.43.0


From 5b4b4d0b0733fab4b0ba89f2fe76e187ff1ee3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:58 +0000
Subject: [PATCH 22/24] fix: the mock shifts later slices correctly for
 directional indexes

---
 src/mock.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mock.rs b/src/mock.rs
index 20fa07e..44250c6 100644
--- a/src/mock.rs
+++ b/src/mock.rs
@@ -207,10 +207,11 @@ impl<I: Index, S: Slice<I>> Mock<I, S> {
             self.refs_map.remap(id, stable_id);
         }
 
-        let diff = base_pos.add_right(new_size).sub_left(base_pos.add_right(old_size));
+        let old_end = base_pos.add_right(old_size);
+        let new_end = base_pos.add_right(new_size);
 
         for (i, ..) in self.runs.get_mut(idx + 1..).unwrap_or(&mut []) {
-            *i = i.add_left(diff);
+            *i = i.sub_left(old_end).add_left(new_end);
         }
 
         if !make_ref {
-- 
2.43.0


From 3cc6e5b226875a72a731f057e4e4d8e44c97d58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:58 +0000
Subject: [PATCH 23/24] fix: the mock does not try to join slices that may not
 join

---
 src/mock.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mock.rs b/src/mock.rs
index 44250c6..c13f282 100644
--- a/src/mock.rs
+++ b/src/mock.rs
@@ -150,7 +150,7 @@ impl<I: Index, S: Slice<I>> Mock<I, S> {
         let mut lhs_stable_id = None;
         let mut rhs_stable_id = None;
 
-        if let Some(p) = idx.checked_sub(1) {
+        if let Some(p) = idx.checked_sub(1).filter(|_| S::MAY_JOIN) {
             let (lhs_end, lhs, lhs_id) = self.runs.remove(p);
             self.refs_map.remove(lhs_id, p);
             assert_eq!(lhs_end, index);
@@ -175,7 +175,7 @@ impl<I: Index, S: Slice<I>> Mock<I, S> {
         }
 
         // `idx` is already the right-hand node, because `index` is equal to the end of `lhs`
-        if idx < self.runs.len() {
+        if S::MAY_JOIN && idx < self.runs.len() {
             let (rhs_end, rhs, rhs_id) = self.runs.remove(idx);
             self.refs_map.remove(rhs_id, idx);
             match slice.try_join(rhs) {
-- 
2.43.0


From 32f640d849e7cc9ac3159276e281667528b20336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:58 +0000
Subject: [PATCH 24/24] fix: the mock refuses negative sizes and ranges that
 start below zero, as the tree does

---
 src/mock.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mock.rs b/src/mock.rs
index c13f282..8dc66bd 100644
--- a/src/mock.rs
+++ b/src/mock.rs
@@ -106,7 +106,7 @@ impl<I: Index, S: Slice<I>> Mock<I, S> {
     }
 
     pub fn insert(&mut self, index: I, mut slice: S, size: I, make_ref: bool) -> Option<Ref> {
-        if size == I::ZERO {
+        if size <= I::ZERO {
             panic!("invalid insertion size");
         } else if index > self.size() {
             panic!("index out of bounds");
@@ -253,7 +253,7 @@ impl<I: Index, S: Slice<I>> Mock<I, S> {
             StartBound::Included(i) => {
                 start_pos = i;
                 unbounded_start = false;
-                if i >= self.size() {
+                if i < I::ZERO || i >= self.size() {
                     panic!("start index out of bounds");
                 }
 
-- 
2.43.0

