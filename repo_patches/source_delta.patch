From 40f87078c9efe7c83fcd43e098feefb661ff775a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 1/9] fix: report refused memory in std_io without allocating
 the error

io::Error::new() boxes its message, so a read or write that could not get
memory aborted the process instead of returning an error. Build the error
from its kind, which needs no memory.
---
 src/vec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 644bbb3..cdc54bb 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -258,7 +258,7 @@ pub mod std_io {
             .try_into()
             .map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
         buf.reserve(additional)
-            .map_err(|_| io::Error::new(io::ErrorKind::Other, "reserve allocation failed"))?;
+            .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
         let bytes_read = src.take(limit).read_to_end(&mut buf.inner)?;
         Ok(bytes_read)
     }
@@ -266,7 +266,7 @@ pub mod std_io {
     impl Write for TryVec<u8> {
         fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
             self.extend_from_slice(buf)
-                .map_err(|_| io::Error::new(io::ErrorKind::Other, "extend_from_slice failed"))?;
+                .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
             Ok(buf.len())
         }
 
-- 
2.43.0


From 1f46fc881a2ee5ad72e2452e28eaf942a2f1ea11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 2/9] fix: do not drop an element twice when its destructor
 panics

Truncate::truncate (try_resize_no_copy shrinking a vec) lowered the length
only after dropping the element, so a panicking destructor left a dropped
element inside the vec.
---
 src/vec.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index cdc54bb..0b2056a 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -625,18 +625,16 @@ impl<T> Truncate for Vec<T> {
         let current_len = self.len();
         unsafe {
             let mut ptr = self.as_mut_ptr().add(current_len);
-            // Set the final length at the end, keeping in mind that
-            // dropping an element might panic. Works around a missed
-            // optimization, as seen in the following issue:
-            // https://github.com/rust-lang/rust/issues/51802
             let mut local_len = self.len();
 
             // drop any extra elements
             for _ in len..current_len {
                 ptr = ptr.offset(-1);
-                core::ptr::drop_in_place(ptr);
                 local_len -= 1;
+                // Shrink the length before dropping the element: if its
+                // destructor panics it must not be dropped again with the vec.
                 self.set_len(local_len);
+                core::ptr::drop_in_place(ptr);
             }
         }
     }
-- 
2.43.0


From feba9f7e4dc650676e7af3eef8fea525a67dc918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 3/9] fix: make Rc::try_new fallible with the unstable feature

Rc::from(Box) allocates again and aborts when that is refused. Use
Rc::try_new, as FallibleArc already does under this feature.
---
 src/rc.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index 936a93e..79626b6 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -1,6 +1,8 @@
 //! Implement a Fallible Rc
+#[cfg(not(feature = "unstable"))]
 use super::FallibleBox;
 use crate::TryReserveError;
+#[cfg(not(feature = "unstable"))]
 use alloc::boxed::Box;
 use alloc::rc::Rc;
 
@@ -23,8 +25,24 @@ pub trait FallibleRc<T> {
 #[allow(deprecated)]
 impl<T> FallibleRc<T> for Rc<T> {
     fn try_new(t: T) -> Result<Self, TryReserveError> {
-        let b = <Box<T> as FallibleBox<T>>::try_new(t)?;
-        Ok(Rc::from(b))
+        #[cfg(not(feature = "unstable"))]
+        {
+            // doesn't work as the inner variable of rc are also stocked in the box
+            let b = <Box<T> as FallibleBox<T>>::try_new(t)?;
+            Ok(Rc::from(b))
+        }
+        #[cfg(feature = "unstable")]
+        {
+            use alloc::alloc::Layout;
+            use alloc::collections::TryReserveErrorKind;
+            Rc::try_new(t).map_err(|_e| {
+                TryReserveErrorKind::AllocError {
+                    layout: Layout::new::<T>(),
+                    non_exhaustive: (),
+                }
+                .into()
+            })
+        }
     }
 }
 
-- 
2.43.0


From b1a82238ac2f53f096ff54660811a128ddd6102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 4/9] fix: obtain all nodes of a B-tree insertion before
 changing the tree

When a request after the first was refused, VacantEntry::try_insert had
already counted the entry and split a leaf, so half a leaf was lost.
---
 src/btree/map.rs  |  10 ++-
 src/btree/node.rs | 167 +++++++++++++++++++++++++++++++++++-----------
 2 files changed, 136 insertions(+), 41 deletions(-)

diff --git a/src/btree/map.rs b/src/btree/map.rs
index 3a69a66..e14bb5c 100644
--- a/src/btree/map.rs
+++ b/src/btree/map.rs
@@ -2368,6 +2368,9 @@ impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
     /// ```
 
     pub fn try_insert(self, value: V) -> Result<&'a mut V, TryReserveError> {
+        // Get all the memory first: past this point nothing can fail.
+        let mut spare = node::SpareNodes::for_insertion_into(self.handle.reborrow().into_node())?;
+
         *self.length += 1;
 
         let out_ptr;
@@ -2376,7 +2379,7 @@ impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
         let mut ins_v;
         let mut ins_edge;
 
-        let mut cur_parent = match self.handle.insert(self.key, value)? {
+        let mut cur_parent = match self.handle.insert(self.key, value, &mut spare) {
             (Fit(handle), _) => return Ok(handle.into_kv_mut().1),
             (Split(left, k, v, right), ptr) => {
                 ins_k = k;
@@ -2389,7 +2392,7 @@ impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
 
         loop {
             match cur_parent {
-                Ok(parent) => match parent.insert(ins_k, ins_v, ins_edge)? {
+                Ok(parent) => match parent.insert(ins_k, ins_v, ins_edge, &mut spare) {
                     Fit(_) => return Ok(unsafe { &mut *out_ptr }),
                     Split(left, k, v, right) => {
                         ins_k = k;
@@ -2399,7 +2402,8 @@ impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
                     }
                 },
                 Err(root) => {
-                    root.push_level()?.push(ins_k, ins_v, ins_edge);
+                    root.push_spare_level(&mut spare)
+                        .push(ins_k, ins_v, ins_edge);
                     return Ok(unsafe { &mut *out_ptr });
                 }
             }
diff --git a/src/btree/node.rs b/src/btree/node.rs
index bed459d..08025ec 100644
--- a/src/btree/node.rs
+++ b/src/btree/node.rs
@@ -199,6 +199,83 @@ impl<K, V> BoxedNode<K, V> {
     }
 }
 
+/// Empty nodes allocated ahead of an insertion, so that once the insertion has begun to change
+/// the tree it cannot run out of memory half way.
+pub struct SpareNodes<K, V> {
+    leaf: Option<Box<LeafNode<K, V>>>,
+    /// The first internal node; each one's `parent` is the next.
+    internal: *mut InternalNode<K, V>,
+}
+
+impl<K, V> SpareNodes<K, V> {
+    /// Allocates exactly the nodes that inserting a key/value pair into `leaf` takes.
+    pub fn for_insertion_into<'a>(
+        leaf: NodeRef<marker::Immut<'a>, K, V, marker::Leaf>,
+    ) -> Result<Self, TryReserveError>
+    where
+        K: 'a,
+        V: 'a,
+    {
+        let mut spare = SpareNodes {
+            leaf: None,
+            internal: ptr::null_mut(),
+        };
+        if leaf.len() < CAPACITY {
+            return Ok(spare);
+        }
+        spare.leaf = Some(<Box<_> as FallibleBox<_>>::try_new(unsafe {
+            LeafNode::new()
+        })?);
+
+        let mut full_node = leaf.forget_type();
+        loop {
+            match full_node.ascend() {
+                Ok(parent) => {
+                    let parent = parent.into_node();
+                    if parent.len() < CAPACITY {
+                        return Ok(spare);
+                    }
+                    spare.push_internal()?;
+                    full_node = parent.forget_type();
+                }
+                Err(_) => {
+                    // The root splits, too, and gets a new node above it.
+                    spare.push_internal()?;
+                    return Ok(spare);
+                }
+            }
+        }
+    }
+
+    fn push_internal(&mut self) -> Result<(), TryReserveError> {
+        let mut node = <Box<_> as FallibleBox<_>>::try_new(unsafe { InternalNode::new() })?;
+        node.data.parent = self.internal;
+        self.internal = Box::into_raw(node);
+        Ok(())
+    }
+
+    fn take_leaf(&mut self) -> Box<LeafNode<K, V>> {
+        self.leaf.take().unwrap()
+    }
+
+    fn take_internal(&mut self) -> Box<InternalNode<K, V>> {
+        assert!(!self.internal.is_null());
+        let mut node = unsafe { Box::from_raw(self.internal) };
+        self.internal = node.data.parent as *mut _;
+        node.data.parent = ptr::null();
+        node
+    }
+}
+
+impl<K, V> Drop for SpareNodes<K, V> {
+    fn drop(&mut self) {
+        while !self.internal.is_null() {
+            // The contents of a node are `MaybeUninit`, so this only frees it.
+            drop(self.take_internal());
+        }
+    }
+}
+
 /// An owned tree. Note that despite being owned, this does not have a destructor,
 /// and must be cleaned up manually.
 pub struct Root<K, V> {
@@ -266,8 +343,23 @@ impl<K, V> Root<K, V> {
     pub fn push_level(
         &mut self,
     ) -> Result<NodeRef<marker::Mut<'_>, K, V, marker::Internal>, TryReserveError> {
+        let new_node = <Box<_> as FallibleBox<_>>::try_new(unsafe { InternalNode::new() })?;
+        Ok(self.push_level_node(new_node))
+    }
+
+    /// Like `push_level`, with the new node taken from `spare`.
+    pub fn push_spare_level(
+        &mut self,
+        spare: &mut SpareNodes<K, V>,
+    ) -> NodeRef<marker::Mut<'_>, K, V, marker::Internal> {
+        self.push_level_node(spare.take_internal())
+    }
+
+    fn push_level_node(
+        &mut self,
+        mut new_node: Box<InternalNode<K, V>>,
+    ) -> NodeRef<marker::Mut<'_>, K, V, marker::Internal> {
         debug_assert!(!self.is_shared_root());
-        let mut new_node = <Box<_> as FallibleBox<_>>::try_new(unsafe { InternalNode::new() })?;
         new_node.edges[0].write(unsafe { BoxedNode::from_ptr(self.node.as_ptr()) });
 
         self.node = BoxedNode::from_internal(new_node);
@@ -284,7 +376,7 @@ impl<K, V> Root<K, V> {
             ret.reborrow_mut().first_edge().correct_parent_link();
         }
 
-        Ok(ret)
+        ret
     }
 
     /// Removes the root node, using its first child as the new root. This cannot be called when
@@ -1010,20 +1102,22 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::Edge
     }
 
     /// Inserts a new key/value pair between the key/value pairs to the right and left of
-    /// this edge. This method splits the node if there isn't enough room.
+    /// this edge. This method splits the node if there isn't enough room, taking the new node
+    /// from `spare`.
     ///
     /// The returned pointer points to the inserted value.
     pub fn insert(
         mut self,
         key: K,
         val: V,
-    ) -> Result<(InsertResult<'a, K, V, marker::Leaf>, *mut V), TryReserveError> {
+        spare: &mut SpareNodes<K, V>,
+    ) -> (InsertResult<'a, K, V, marker::Leaf>, *mut V) {
         if self.node.len() < CAPACITY {
             let ptr = self.insert_fit(key, val);
-            Ok((InsertResult::Fit(Handle::new_kv(self.node, self.idx)), ptr))
+            (InsertResult::Fit(Handle::new_kv(self.node, self.idx)), ptr)
         } else {
             let middle = Handle::new_kv(self.node, B);
-            let (mut left, k, v, mut right) = middle.split()?;
+            let (mut left, k, v, mut right) = middle.split(spare);
             let ptr = if self.idx <= B {
                 unsafe { Handle::new_edge(left.reborrow_mut(), self.idx).insert_fit(key, val) }
             } else {
@@ -1035,7 +1129,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::Edge
                     .insert_fit(key, val)
                 }
             };
-            Ok((InsertResult::Split(left, k, v, right), ptr))
+            (InsertResult::Split(left, k, v, right), ptr)
         }
     }
 }
@@ -1090,22 +1184,23 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::
 
     /// Inserts a new key/value pair and an edge that will go to the right of that new pair
     /// between this edge and the key/value pair to the right of this edge. This method splits
-    /// the node if there isn't enough room.
+    /// the node if there isn't enough room, taking the new node from `spare`.
     pub fn insert(
         mut self,
         key: K,
         val: V,
         edge: Root<K, V>,
-    ) -> Result<InsertResult<'a, K, V, marker::Internal>, TryReserveError> {
+        spare: &mut SpareNodes<K, V>,
+    ) -> InsertResult<'a, K, V, marker::Internal> {
         // Necessary for correctness, but this is an internal module
         debug_assert!(edge.height == self.node.height - 1);
 
         if self.node.len() < CAPACITY {
             self.insert_fit(key, val, edge);
-            Ok(InsertResult::Fit(Handle::new_kv(self.node, self.idx)))
+            InsertResult::Fit(Handle::new_kv(self.node, self.idx))
         } else {
             let middle = Handle::new_kv(self.node, B);
-            let (mut left, k, v, mut right) = middle.split()?;
+            let (mut left, k, v, mut right) = middle.split(spare);
             if self.idx <= B {
                 unsafe {
                     Handle::new_edge(left.reborrow_mut(), self.idx).insert_fit(key, val, edge);
@@ -1119,7 +1214,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::
                     .insert_fit(key, val, edge);
                 }
             }
-            Ok(InsertResult::Split(left, k, v, right))
+            InsertResult::Split(left, k, v, right)
         }
     }
 }
@@ -1184,22 +1279,20 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::KV>
     /// - The node is truncated to only contain the key/value pairs to the right of
     ///   this handle.
     /// - The key and value pointed to by this handle and extracted.
-    /// - All the key/value pairs to the right of this handle are put into a newly
-    ///   allocated node.
+    /// - All the key/value pairs to the right of this handle are put into a node
+    ///   taken from `spare`.
     pub fn split(
         mut self,
-    ) -> Result<
-        (
-            NodeRef<marker::Mut<'a>, K, V, marker::Leaf>,
-            K,
-            V,
-            Root<K, V>,
-        ),
-        TryReserveError,
-    > {
+        spare: &mut SpareNodes<K, V>,
+    ) -> (
+        NodeRef<marker::Mut<'a>, K, V, marker::Leaf>,
+        K,
+        V,
+        Root<K, V>,
+    ) {
         debug_assert!(!self.node.is_shared_root());
         unsafe {
-            let mut new_node = <Box<_> as FallibleBox<_>>::try_new(LeafNode::new())?;
+            let mut new_node = spare.take_leaf();
 
             let k = ptr::read(self.node.keys().get_unchecked(self.idx));
             let v = ptr::read(self.node.vals().get_unchecked(self.idx));
@@ -1220,7 +1313,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::KV>
             (*self.node.as_leaf_mut()).len = self.idx as u16;
             new_node.len = new_len as u16;
 
-            Ok((
+            (
                 self.node,
                 k,
                 v,
@@ -1228,7 +1321,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::KV>
                     node: BoxedNode::from_leaf(new_node),
                     height: 0,
                 },
-            ))
+            )
         }
     }
 
@@ -1258,20 +1351,18 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::
     ///   right of this handle.
     /// - The key and value pointed to by this handle and extracted.
     /// - All the edges and key/value pairs to the right of this handle are put into
-    ///   a newly allocated node.
+    ///   a node taken from `spare`.
     pub fn split(
         mut self,
-    ) -> Result<
-        (
-            NodeRef<marker::Mut<'a>, K, V, marker::Internal>,
-            K,
-            V,
-            Root<K, V>,
-        ),
-        TryReserveError,
-    > {
+        spare: &mut SpareNodes<K, V>,
+    ) -> (
+        NodeRef<marker::Mut<'a>, K, V, marker::Internal>,
+        K,
+        V,
+        Root<K, V>,
+    ) {
         unsafe {
-            let mut new_node = <Box<_> as FallibleBox<_>>::try_new(InternalNode::new())?;
+            let mut new_node = spare.take_internal();
 
             let k = ptr::read(self.node.keys().get_unchecked(self.idx));
             let v = ptr::read(self.node.vals().get_unchecked(self.idx));
@@ -1307,7 +1398,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::
                 Handle::new_edge(new_root.as_mut().cast_unchecked(), i).correct_parent_link();
             }
 
-            Ok((self.node, k, v, new_root))
+            (self.node, k, v, new_root)
         }
     }
 
-- 
2.43.0


From a5d0d5dec26cc18cf650e9fa3c1ce6d4b40b9be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 5/9] fix: search the split point of split_off before moving
 entries

A comparison that panicked half way left both maps with entries moved but
lengths and node sizes not yet repaired.
---
 src/btree/map.rs  | 30 ++++++++++++++++++++----------
 src/btree/node.rs | 15 +++++++++++++++
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/btree/map.rs b/src/btree/map.rs
index e14bb5c..c493cd0 100644
--- a/src/btree/map.rs
+++ b/src/btree/map.rs
@@ -1098,24 +1098,34 @@ impl<K: Ord, V> BTreeMap<K, V> {
         }
 
         {
+            // Find the split point before moving anything: the comparisons may panic.
             let mut left_node = self.root.as_mut();
-            let mut right_node = right.root.as_mut();
-
-            loop {
-                let mut split_edge = match search::search_node(left_node, key) {
+            let mut left_edge = loop {
+                let split_edge = match search::search_node(left_node, key) {
                     // key is going to the right tree
                     Found(handle) => handle.left_edge(),
                     GoDown(handle) => handle,
                 };
 
-                split_edge.move_suffix(&mut right_node);
+                match split_edge.force() {
+                    Internal(edge) => left_node = edge.descend(),
+                    Leaf(edge) => break edge.forget_node_type(),
+                }
+            };
+            let mut right_node = first_leaf_edge(right.root.as_mut())
+                .into_node()
+                .forget_type();
+
+            // Move everything after it, from the leaf up to the root.
+            loop {
+                left_edge.move_suffix(&mut right_node);
 
-                match (split_edge.force(), right_node.force()) {
-                    (Internal(edge), Internal(node)) => {
-                        left_node = edge.descend();
-                        right_node = node.first_edge().descend();
+                match (left_edge.into_node().ascend(), right_node.ascend()) {
+                    (Ok(left), Ok(right)) => {
+                        left_edge = left.forget_node_type();
+                        right_node = right.into_node().forget_type();
                     }
-                    (Leaf(_), Leaf(_)) => {
+                    (Err(_), Err(_)) => {
                         break;
                     }
                     _ => {
diff --git a/src/btree/node.rs b/src/btree/node.rs
index 08025ec..1901ebe 100644
--- a/src/btree/node.rs
+++ b/src/btree/node.rs
@@ -1004,6 +1004,21 @@ impl<BorrowType, K, V, NodeType> Handle<NodeRef<BorrowType, K, V, NodeType>, mar
     }
 }
 
+impl<BorrowType, K, V, NodeType, HandleType>
+    Handle<NodeRef<BorrowType, K, V, NodeType>, HandleType>
+{
+    /// Removes any static information about whether the node is a `Leaf` or an `Internal` node.
+    pub fn forget_node_type(
+        self,
+    ) -> Handle<NodeRef<BorrowType, K, V, marker::LeafOrInternal>, HandleType> {
+        Handle {
+            node: self.node.forget_type(),
+            idx: self.idx,
+            _marker: PhantomData,
+        }
+    }
+}
+
 impl<BorrowType, K, V, NodeType, HandleType> PartialEq
     for Handle<NodeRef<BorrowType, K, V, NodeType>, HandleType>
 {
-- 
2.43.0


From 41e5830eb322a098b1a1648b805cb678bbd29aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 6/9] fix: repair the right edge of an append that unwinds

A comparison or destructor that panicked during append left the last nodes
underfull, which later removals and splits rely on never being so.
---
 src/btree/map.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/btree/map.rs b/src/btree/map.rs
index c493cd0..5a46701 100644
--- a/src/btree/map.rs
+++ b/src/btree/map.rs
@@ -847,9 +847,18 @@ impl<K: Ord, V> BTreeMap<K, V> {
             right: other_iter.peekable(),
         };
 
+        // The right edge is left underfull until the end, which must not stay so if a comparison
+        // or a destructor panics on the way.
+        struct FixRightEdge<'a, K: Ord, V>(&'a mut BTreeMap<K, V>);
+        impl<K: Ord, V> Drop for FixRightEdge<'_, K, V> {
+            fn drop(&mut self) {
+                self.0.fix_right_edge();
+            }
+        }
+
         // Second, we build a tree from the sorted sequence in linear time.
-        self.from_sorted_iter(iter);
-        self.fix_right_edge();
+        let map = FixRightEdge(self);
+        map.0.from_sorted_iter(iter);
     }
 
     /// Constructs a double-ended iterator over a sub-range of elements in the map.
-- 
2.43.0


From 77c432fa5096c632c08d42ce0c25c1502c10b815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 7/9] fix: let B-tree keys have an alignment above 16

The assertion meant for the shared empty root also ran for every other node,
so any lookup in a non-empty map with such keys panicked.
---
 src/btree/node.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/btree/node.rs b/src/btree/node.rs
index 1901ebe..a994680 100644
--- a/src/btree/node.rs
+++ b/src/btree/node.rs
@@ -659,8 +659,18 @@ impl<'a, K: 'a, V: 'a, Type> NodeRef<marker::Immut<'a>, K, V, Type> {
         // of the header!  So we do an alignment check first, that will be
         // evaluated at compile-time, and only do any run-time check in the rare case
         // that the alignment is very big.
-        if mem::align_of::<K>() > mem::align_of::<LeafNode<(), ()>>() && self.is_shared_root() {
-            &[]
+        if mem::align_of::<K>() > mem::align_of::<LeafNode<(), ()>>() {
+            if self.is_shared_root() {
+                &[]
+            } else {
+                // We cannot be the shared root, so `as_leaf` is okay.
+                unsafe {
+                    slice::from_raw_parts(
+                        MaybeUninit::slice_as_ptr(&self.as_leaf().keys),
+                        self.len(),
+                    )
+                }
+            }
         } else {
             // Thanks to the alignment check above, we know that `keys` will be
             // in-bounds of some allocation even if this is the shared root!
-- 
2.43.0


From dfa5c6ee546cfa0a4046d62e124c07843d01a604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:39 +0000
Subject: [PATCH 8/9] fix: report an overflowing total length in TryVec::concat

The lengths of the parts were added without a check: with zero-sized
elements the sum can overflow, which panicked (or, without overflow
checks, started a reservation for the wrapped length) instead of
returning the error.
---
 src/vec.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 0b2056a..107950c 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -175,7 +175,14 @@ impl<T: TryClone> TryClone for TryVec<T> {
 
 impl<T: TryClone> TryVec<TryVec<T>> {
     pub fn concat(&self) -> Result<TryVec<T>, TryReserveError> {
-        let size = self.iter().map(|v| v.inner.len()).sum();
+        let size = self
+            .iter()
+            .try_fold(0usize, |size, v| size.checked_add(v.inner.len()));
+        let size = match size {
+            Some(size) => size,
+            // Only zero-sized elements can be that many.
+            None => return Err(Vec::<u8>::new().try_reserve(usize::MAX).unwrap_err()),
+        };
         let mut result = TryVec::with_capacity(size)?;
         for v in self.iter() {
             result.inner.try_extend_from_slice_no_copy(&v.inner)?;
-- 
2.43.0


From 3d22d665c86d2efed6fe7faaba39f8be0a9f64e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:11 +0000
Subject: [PATCH 9/9] fix: obtain the nodes of an append before growing the
 tree

---
 src/btree/map.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/btree/map.rs b/src/btree/map.rs
index 5a46701..518eda5 100644
--- a/src/btree/map.rs
+++ b/src/btree/map.rs
@@ -989,6 +989,18 @@ impl<K: Ord, V> BTreeMap<K, V> {
         })
     }
 
+    /// A tree of empty nodes with the given height, freed as a map unless its root is taken.
+    fn empty_tree(height: usize) -> Self {
+        let mut tree = BTreeMap {
+            root: node::Root::new_leaf().expect("Out of Mem"),
+            length: 0,
+        };
+        for _ in 0..height {
+            tree.root.push_level().expect("Out of Mem");
+        }
+        tree
+    }
+
     fn from_sorted_iter<I: Iterator<Item = (K, V)>>(&mut self, iter: I) {
         self.ensure_root_is_owned().expect("Out Of Mem");
         let mut cur_node = last_leaf_edge(self.root.as_mut()).into_node();
@@ -1000,6 +1012,9 @@ impl<K: Ord, V> BTreeMap<K, V> {
             } else {
                 // No space left, go up and push there.
                 let mut open_node;
+                // All memory is obtained before a new root is put in place: a root without
+                // entries must not stay behind when there is none.
+                let right_tree;
                 let mut test_node = cur_node.forget_type();
                 loop {
                     match test_node.ascend() {
@@ -1007,6 +1022,7 @@ impl<K: Ord, V> BTreeMap<K, V> {
                             let parent = parent.into_node();
                             if parent.len() < node::CAPACITY {
                                 // Found a node with space left, push here.
+                                right_tree = Self::empty_tree(parent.height() - 1);
                                 open_node = parent;
                                 break;
                             } else {
@@ -1016,6 +1032,7 @@ impl<K: Ord, V> BTreeMap<K, V> {
                         }
                         Err(node) => {
                             // We are at the top, create a new root node and push there.
+                            right_tree = Self::empty_tree(node.height());
                             open_node = node.into_root_mut().push_level().expect("Out of Mem");
                             break;
                         }
@@ -1023,12 +1040,9 @@ impl<K: Ord, V> BTreeMap<K, V> {
                 }
 
                 // Push key-value pair and new right subtree.
-                let tree_height = open_node.height() - 1;
-                let mut right_tree = node::Root::new_leaf().expect("Out of Mem");
-                for _ in 0..tree_height {
-                    right_tree.push_level().expect("Out of Mem");
-                }
-                open_node.push(key, value, right_tree);
+                let right_root = unsafe { ptr::read(&right_tree.root) };
+                mem::forget(right_tree);
+                open_node.push(key, value, right_root);
 
                 // Go down to the right-most leaf again.
                 cur_node = last_leaf_edge(open_node.forget_type()).into_node();
-- 
2.43.0

