From ae2de06e46dec7d82f4063b805443ff0279a7c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 01/10] fix: do not drop an element twice when dropping it
 panics in try_resize_no_copy

---
 src/vec.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 644bbb3..111822d 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -625,18 +625,16 @@ impl<T> Truncate for Vec<T> {
         let current_len = self.len();
         unsafe {
             let mut ptr = self.as_mut_ptr().add(current_len);
-            // Set the final length at the end, keeping in mind that
-            // dropping an element might panic. Works around a missed
-            // optimization, as seen in the following issue:
-            // https://github.com/rust-lang/rust/issues/51802
             let mut local_len = self.len();
 
             // drop any extra elements
             for _ in len..current_len {
+                // Give up each element before it is dropped: dropping it
+                // might panic, and it must not be dropped again then.
                 ptr = ptr.offset(-1);
-                core::ptr::drop_in_place(ptr);
                 local_len -= 1;
                 self.set_len(local_len);
+                core::ptr::drop_in_place(ptr);
             }
         }
     }
-- 
2.43.0


From bc8dcfe0807ff0c715f4b6fe39304cb3bc14f865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 02/10] fix: looking up an over-aligned BTreeMap key no longer
 panics

---
 src/btree/node.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/btree/node.rs b/src/btree/node.rs
index bed459d..eec58cb 100644
--- a/src/btree/node.rs
+++ b/src/btree/node.rs
@@ -567,8 +567,19 @@ impl<'a, K: 'a, V: 'a, Type> NodeRef<marker::Immut<'a>, K, V, Type> {
         // of the header!  So we do an alignment check first, that will be
         // evaluated at compile-time, and only do any run-time check in the rare case
         // that the alignment is very big.
-        if mem::align_of::<K>() > mem::align_of::<LeafNode<(), ()>>() && self.is_shared_root() {
-            &[]
+        if mem::align_of::<K>() > mem::align_of::<LeafNode<(), ()>>() {
+            if self.is_shared_root() {
+                &[]
+            } else {
+                // We cannot be the shared root, so `as_leaf` is okay.  The trick below does not
+                // work here: the larger alignment of `K` may put padding after the header.
+                unsafe {
+                    slice::from_raw_parts(
+                        MaybeUninit::slice_as_ptr(&self.as_leaf().keys),
+                        self.len(),
+                    )
+                }
+            }
         } else {
             // Thanks to the alignment check above, we know that `keys` will be
             // in-bounds of some allocation even if this is the shared root!
-- 
2.43.0


From 03d74f2e0a9165356b120d8598d809844fa64ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 03/10] fix: leave a BTreeMap unchanged when an insertion runs
 out of memory while splitting nodes

---
 src/btree/map.rs  |  10 ++-
 src/btree/node.rs | 165 ++++++++++++++++++++++++++++++++++------------
 2 files changed, 130 insertions(+), 45 deletions(-)

diff --git a/src/btree/map.rs b/src/btree/map.rs
index 3a69a66..b17a2a7 100644
--- a/src/btree/map.rs
+++ b/src/btree/map.rs
@@ -2368,6 +2368,9 @@ impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
     /// ```
 
     pub fn try_insert(self, value: V) -> Result<&'a mut V, TryReserveError> {
+        // The only thing that can fail; nothing has been modified yet.
+        let mut spare = self.handle.reserve_nodes()?;
+
         *self.length += 1;
 
         let out_ptr;
@@ -2376,7 +2379,7 @@ impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
         let mut ins_v;
         let mut ins_edge;
 
-        let mut cur_parent = match self.handle.insert(self.key, value)? {
+        let mut cur_parent = match self.handle.insert(self.key, value, &mut spare) {
             (Fit(handle), _) => return Ok(handle.into_kv_mut().1),
             (Split(left, k, v, right), ptr) => {
                 ins_k = k;
@@ -2389,7 +2392,7 @@ impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
 
         loop {
             match cur_parent {
-                Ok(parent) => match parent.insert(ins_k, ins_v, ins_edge)? {
+                Ok(parent) => match parent.insert(ins_k, ins_v, ins_edge, &mut spare) {
                     Fit(_) => return Ok(unsafe { &mut *out_ptr }),
                     Split(left, k, v, right) => {
                         ins_k = k;
@@ -2399,7 +2402,8 @@ impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
                     }
                 },
                 Err(root) => {
-                    root.push_level()?.push(ins_k, ins_v, ins_edge);
+                    root.push_level_spare(&mut spare)
+                        .push(ins_k, ins_v, ins_edge);
                     return Ok(unsafe { &mut *out_ptr });
                 }
             }
diff --git a/src/btree/node.rs b/src/btree/node.rs
index eec58cb..46cbdb5 100644
--- a/src/btree/node.rs
+++ b/src/btree/node.rs
@@ -199,6 +199,48 @@ impl<K, V> BoxedNode<K, V> {
     }
 }
 
+/// The nodes that an insertion is going to need. They are all allocated before the insertion
+/// modifies the tree, such that it cannot fail halfway.
+pub struct SpareNodes<K, V> {
+    leaf: Option<Box<LeafNode<K, V>>>,
+    /// Head of a list, linked by `parent`.
+    internals: Option<Box<InternalNode<K, V>>>,
+}
+
+impl<K, V> SpareNodes<K, V> {
+    fn add_internal(&mut self) -> Result<(), TryReserveError> {
+        let mut node = <Box<_> as FallibleBox<_>>::try_new(unsafe { InternalNode::new() })?;
+        if let Some(next) = self.internals.take() {
+            node.data.parent = Box::into_raw(next);
+        }
+        self.internals = Some(node);
+        Ok(())
+    }
+
+    fn pop_internal(&mut self) -> Option<Box<InternalNode<K, V>>> {
+        let mut node = self.internals.take()?;
+        let next = mem::replace(&mut node.data.parent, ptr::null());
+        if !next.is_null() {
+            self.internals = Some(unsafe { Box::from_raw(next as *mut _) });
+        }
+        Some(node)
+    }
+
+    fn take_internal(&mut self) -> Box<InternalNode<K, V>> {
+        self.pop_internal().expect("not enough nodes reserved")
+    }
+
+    fn take_leaf(&mut self) -> Box<LeafNode<K, V>> {
+        self.leaf.take().expect("not enough nodes reserved")
+    }
+}
+
+impl<K, V> Drop for SpareNodes<K, V> {
+    fn drop(&mut self) {
+        while self.pop_internal().is_some() {}
+    }
+}
+
 /// An owned tree. Note that despite being owned, this does not have a destructor,
 /// and must be cleaned up manually.
 pub struct Root<K, V> {
@@ -266,8 +308,23 @@ impl<K, V> Root<K, V> {
     pub fn push_level(
         &mut self,
     ) -> Result<NodeRef<marker::Mut<'_>, K, V, marker::Internal>, TryReserveError> {
+        let new_node = <Box<_> as FallibleBox<_>>::try_new(unsafe { InternalNode::new() })?;
+        Ok(self.push_level_node(new_node))
+    }
+
+    /// Same as `push_level`, with a node taken from `spare`.
+    pub fn push_level_spare(
+        &mut self,
+        spare: &mut SpareNodes<K, V>,
+    ) -> NodeRef<marker::Mut<'_>, K, V, marker::Internal> {
+        self.push_level_node(spare.take_internal())
+    }
+
+    fn push_level_node(
+        &mut self,
+        mut new_node: Box<InternalNode<K, V>>,
+    ) -> NodeRef<marker::Mut<'_>, K, V, marker::Internal> {
         debug_assert!(!self.is_shared_root());
-        let mut new_node = <Box<_> as FallibleBox<_>>::try_new(unsafe { InternalNode::new() })?;
         new_node.edges[0].write(unsafe { BoxedNode::from_ptr(self.node.as_ptr()) });
 
         self.node = BoxedNode::from_internal(new_node);
@@ -284,7 +341,7 @@ impl<K, V> Root<K, V> {
             ret.reborrow_mut().first_edge().correct_parent_link();
         }
 
-        Ok(ret)
+        ret
     }
 
     /// Removes the root node, using its first child as the new root. This cannot be called when
@@ -1000,6 +1057,35 @@ impl<BorrowType, K, V, NodeType> Handle<NodeRef<BorrowType, K, V, NodeType>, mar
 }
 
 impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::Edge> {
+    /// Allocates the nodes that inserting at this edge needs: one for each full node on the way
+    /// up, and one more if that includes the root. Does not modify the tree.
+    pub fn reserve_nodes(&self) -> Result<SpareNodes<K, V>, TryReserveError> {
+        let mut spare = SpareNodes {
+            leaf: None,
+            internals: None,
+        };
+        if self.node.len() < CAPACITY {
+            return Ok(spare);
+        }
+        spare.leaf = Some(<Box<_> as FallibleBox<_>>::try_new(unsafe {
+            LeafNode::new()
+        })?);
+        let mut parent = self.node.reborrow().ascend().ok();
+        loop {
+            match parent {
+                Some(edge) if edge.node.len() < CAPACITY => return Ok(spare),
+                Some(edge) => {
+                    spare.add_internal()?;
+                    parent = edge.node.ascend().ok();
+                }
+                None => {
+                    spare.add_internal()?;
+                    return Ok(spare);
+                }
+            }
+        }
+    }
+
     /// Inserts a new key/value pair between the key/value pairs to the right and left of
     /// this edge. This method assumes that there is enough space in the node for the new
     /// pair to fit.
@@ -1021,20 +1107,22 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::Edge
     }
 
     /// Inserts a new key/value pair between the key/value pairs to the right and left of
-    /// this edge. This method splits the node if there isn't enough room.
+    /// this edge. This method splits the node if there isn't enough room, using `spare`, which
+    /// `reserve_nodes` returned for this edge.
     ///
     /// The returned pointer points to the inserted value.
     pub fn insert(
         mut self,
         key: K,
         val: V,
-    ) -> Result<(InsertResult<'a, K, V, marker::Leaf>, *mut V), TryReserveError> {
+        spare: &mut SpareNodes<K, V>,
+    ) -> (InsertResult<'a, K, V, marker::Leaf>, *mut V) {
         if self.node.len() < CAPACITY {
             let ptr = self.insert_fit(key, val);
-            Ok((InsertResult::Fit(Handle::new_kv(self.node, self.idx)), ptr))
+            (InsertResult::Fit(Handle::new_kv(self.node, self.idx)), ptr)
         } else {
             let middle = Handle::new_kv(self.node, B);
-            let (mut left, k, v, mut right) = middle.split()?;
+            let (mut left, k, v, mut right) = middle.split(spare.take_leaf());
             let ptr = if self.idx <= B {
                 unsafe { Handle::new_edge(left.reborrow_mut(), self.idx).insert_fit(key, val) }
             } else {
@@ -1046,7 +1134,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::Edge
                     .insert_fit(key, val)
                 }
             };
-            Ok((InsertResult::Split(left, k, v, right), ptr))
+            (InsertResult::Split(left, k, v, right), ptr)
         }
     }
 }
@@ -1101,22 +1189,23 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::
 
     /// Inserts a new key/value pair and an edge that will go to the right of that new pair
     /// between this edge and the key/value pair to the right of this edge. This method splits
-    /// the node if there isn't enough room.
+    /// the node if there isn't enough room, using `spare`.
     pub fn insert(
         mut self,
         key: K,
         val: V,
         edge: Root<K, V>,
-    ) -> Result<InsertResult<'a, K, V, marker::Internal>, TryReserveError> {
+        spare: &mut SpareNodes<K, V>,
+    ) -> InsertResult<'a, K, V, marker::Internal> {
         // Necessary for correctness, but this is an internal module
         debug_assert!(edge.height == self.node.height - 1);
 
         if self.node.len() < CAPACITY {
             self.insert_fit(key, val, edge);
-            Ok(InsertResult::Fit(Handle::new_kv(self.node, self.idx)))
+            InsertResult::Fit(Handle::new_kv(self.node, self.idx))
         } else {
             let middle = Handle::new_kv(self.node, B);
-            let (mut left, k, v, mut right) = middle.split()?;
+            let (mut left, k, v, mut right) = middle.split(spare.take_internal());
             if self.idx <= B {
                 unsafe {
                     Handle::new_edge(left.reborrow_mut(), self.idx).insert_fit(key, val, edge);
@@ -1130,7 +1219,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::
                     .insert_fit(key, val, edge);
                 }
             }
-            Ok(InsertResult::Split(left, k, v, right))
+            InsertResult::Split(left, k, v, right)
         }
     }
 }
@@ -1195,23 +1284,19 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::KV>
     /// - The node is truncated to only contain the key/value pairs to the right of
     ///   this handle.
     /// - The key and value pointed to by this handle and extracted.
-    /// - All the key/value pairs to the right of this handle are put into a newly
-    ///   allocated node.
-    pub fn split(
+    /// - All the key/value pairs to the right of this handle are put into
+    ///   `new_node`.
+    fn split(
         mut self,
-    ) -> Result<
-        (
-            NodeRef<marker::Mut<'a>, K, V, marker::Leaf>,
-            K,
-            V,
-            Root<K, V>,
-        ),
-        TryReserveError,
-    > {
+        mut new_node: Box<LeafNode<K, V>>,
+    ) -> (
+        NodeRef<marker::Mut<'a>, K, V, marker::Leaf>,
+        K,
+        V,
+        Root<K, V>,
+    ) {
         debug_assert!(!self.node.is_shared_root());
         unsafe {
-            let mut new_node = <Box<_> as FallibleBox<_>>::try_new(LeafNode::new())?;
-
             let k = ptr::read(self.node.keys().get_unchecked(self.idx));
             let v = ptr::read(self.node.vals().get_unchecked(self.idx));
 
@@ -1231,7 +1316,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::KV>
             (*self.node.as_leaf_mut()).len = self.idx as u16;
             new_node.len = new_len as u16;
 
-            Ok((
+            (
                 self.node,
                 k,
                 v,
@@ -1239,7 +1324,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::KV>
                     node: BoxedNode::from_leaf(new_node),
                     height: 0,
                 },
-            ))
+            )
         }
     }
 
@@ -1269,21 +1354,17 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::
     ///   right of this handle.
     /// - The key and value pointed to by this handle and extracted.
     /// - All the edges and key/value pairs to the right of this handle are put into
-    ///   a newly allocated node.
-    pub fn split(
+    ///   `new_node`.
+    fn split(
         mut self,
-    ) -> Result<
-        (
-            NodeRef<marker::Mut<'a>, K, V, marker::Internal>,
-            K,
-            V,
-            Root<K, V>,
-        ),
-        TryReserveError,
-    > {
+        mut new_node: Box<InternalNode<K, V>>,
+    ) -> (
+        NodeRef<marker::Mut<'a>, K, V, marker::Internal>,
+        K,
+        V,
+        Root<K, V>,
+    ) {
         unsafe {
-            let mut new_node = <Box<_> as FallibleBox<_>>::try_new(InternalNode::new())?;
-
             let k = ptr::read(self.node.keys().get_unchecked(self.idx));
             let v = ptr::read(self.node.vals().get_unchecked(self.idx));
 
@@ -1318,7 +1399,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::
                 Handle::new_edge(new_root.as_mut().cast_unchecked(), i).correct_parent_link();
             }
 
-            Ok((self.node, k, v, new_root))
+            (self.node, k, v, new_root)
         }
     }
 
-- 
2.43.0


From 28baa31c8d6c811ad4273a87a3d5c33024cd6142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 04/10] fix: a panicking comparison in BTreeMap::split_off no
 longer leaves the map half split

---
 src/btree/map.rs  | 30 +++++++++++++++++++++---------
 src/btree/node.rs |  8 ++++++++
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/btree/map.rs b/src/btree/map.rs
index b17a2a7..1595e53 100644
--- a/src/btree/map.rs
+++ b/src/btree/map.rs
@@ -1098,24 +1098,36 @@ impl<K: Ord, V> BTreeMap<K, V> {
         }
 
         {
+            // Do all comparisons first: they can panic, and then the tree must not be half split.
             let mut left_node = self.root.as_mut();
-            let mut right_node = right.root.as_mut();
-
-            loop {
-                let mut split_edge = match search::search_node(left_node, key) {
+            let leaf_edge = loop {
+                let split_edge = match search::search_node(left_node, key) {
                     // key is going to the right tree
                     Found(handle) => handle.left_edge(),
                     GoDown(handle) => handle,
                 };
 
+                match split_edge.force() {
+                    Internal(edge) => left_node = edge.descend(),
+                    Leaf(edge) => break edge,
+                }
+            };
+
+            // Split every node on the way back up.
+            let mut split_edge = leaf_edge.forget_node_type();
+            let mut right_node = first_leaf_edge(right.root.as_mut())
+                .into_node()
+                .forget_type();
+
+            loop {
                 split_edge.move_suffix(&mut right_node);
 
-                match (split_edge.force(), right_node.force()) {
-                    (Internal(edge), Internal(node)) => {
-                        left_node = edge.descend();
-                        right_node = node.first_edge().descend();
+                match (split_edge.into_node().ascend(), right_node.ascend()) {
+                    (Ok(edge), Ok(right_edge)) => {
+                        split_edge = edge.forget_node_type();
+                        right_node = right_edge.into_node().forget_type();
                     }
-                    (Leaf(_), Leaf(_)) => {
+                    (Err(_), Err(_)) => {
                         break;
                     }
                     _ => {
diff --git a/src/btree/node.rs b/src/btree/node.rs
index 46cbdb5..eef9ba7 100644
--- a/src/btree/node.rs
+++ b/src/btree/node.rs
@@ -1039,6 +1039,14 @@ impl<BorrowType, K, V, NodeType> Handle<NodeRef<BorrowType, K, V, NodeType>, mar
         }
     }
 
+    /// Removes any static information about whether the node of this handle is a `Leaf` or an
+    /// `Internal` node.
+    pub fn forget_node_type(
+        self,
+    ) -> Handle<NodeRef<BorrowType, K, V, marker::LeafOrInternal>, marker::Edge> {
+        Handle::new_edge(self.node.forget_type(), self.idx)
+    }
+
     pub fn left_kv(self) -> Result<Handle<NodeRef<BorrowType, K, V, NodeType>, marker::KV>, Self> {
         if self.idx > 0 {
             Ok(Handle::new_kv(self.node, self.idx - 1))
-- 
2.43.0


From fcf851b585a00319d7dd7aeef213ca267dc1d9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 05/10] fix: BTreeMap::append leaves a valid map behind when it
 panics

---
 src/btree/map.rs | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/btree/map.rs b/src/btree/map.rs
index 1595e53..b1ea507 100644
--- a/src/btree/map.rs
+++ b/src/btree/map.rs
@@ -849,7 +849,6 @@ impl<K: Ord, V> BTreeMap<K, V> {
 
         // Second, we build a tree from the sorted sequence in linear time.
         self.from_sorted_iter(iter);
-        self.fix_right_edge();
     }
 
     /// Constructs a double-ended iterator over a sub-range of elements in the map.
@@ -981,8 +980,19 @@ impl<K: Ord, V> BTreeMap<K, V> {
     }
 
     fn from_sorted_iter<I: Iterator<Item = (K, V)>>(&mut self, iter: I) {
+        // Makes the tree valid again at the end, also when the iterator panics.
+        struct FixRightEdge<'a, K: Ord, V>(&'a mut BTreeMap<K, V>);
+
+        impl<'a, K: Ord, V> Drop for FixRightEdge<'a, K, V> {
+            fn drop(&mut self) {
+                self.0.fix_right_edge();
+            }
+        }
+
         self.ensure_root_is_owned().expect("Out Of Mem");
-        let mut cur_node = last_leaf_edge(self.root.as_mut()).into_node();
+        let guard = FixRightEdge(self);
+        let map = &mut *guard.0;
+        let mut cur_node = last_leaf_edge(map.root.as_mut()).into_node();
         // Iterate through all key-value pairs, pushing them into nodes at the right level.
         for (key, value) in iter {
             // Try to push key-value pair into the current leaf node.
@@ -992,6 +1002,12 @@ impl<K: Ord, V> BTreeMap<K, V> {
                 // No space left, go up and push there.
                 let mut open_node;
                 let mut test_node = cur_node.forget_type();
+                // The new right subtree, as high as `test_node`. It is allocated before a new
+                // root is created, as a root without any entry would not be a valid tree.
+                let mut right_tree = BTreeMap {
+                    root: node::Root::new_leaf().expect("Out of Mem"),
+                    length: 0,
+                };
                 loop {
                     match test_node.ascend() {
                         Ok(parent) => {
@@ -1002,6 +1018,7 @@ impl<K: Ord, V> BTreeMap<K, V> {
                                 break;
                             } else {
                                 // Go up again.
+                                right_tree.root.push_level().expect("Out of Mem");
                                 test_node = parent.forget_type();
                             }
                         }
@@ -1014,18 +1031,15 @@ impl<K: Ord, V> BTreeMap<K, V> {
                 }
 
                 // Push key-value pair and new right subtree.
-                let tree_height = open_node.height() - 1;
-                let mut right_tree = node::Root::new_leaf().expect("Out of Mem");
-                for _ in 0..tree_height {
-                    right_tree.push_level().expect("Out of Mem");
-                }
-                open_node.push(key, value, right_tree);
+                let right_root = unsafe { ptr::read(&right_tree.root) };
+                mem::forget(right_tree);
+                open_node.push(key, value, right_root);
 
                 // Go down to the right-most leaf again.
                 cur_node = last_leaf_edge(open_node.forget_type()).into_node();
             }
 
-            self.length += 1;
+            map.length += 1;
         }
     }
 
-- 
2.43.0


From 53e64f26d6e787c3443d80a625b5f98ea8d8d17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 06/10] fix: reporting a failed reservation to io allocated
 again

io::Error::new boxes its payload infallibly, so with memory exhausted
try_read_up_to and Write for TryVec<u8> aborted instead of returning Err.
---
 src/vec.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 111822d..5d7ca4d 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -254,11 +254,12 @@ pub mod std_io {
         limit: u64,
         buf: &mut TryVec<u8>,
     ) -> io::Result<usize> {
+        // errors are built from a kind only: `io::Error::new` would allocate
         let additional = limit
             .try_into()
-            .map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
+            .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
         buf.reserve(additional)
-            .map_err(|_| io::Error::new(io::ErrorKind::Other, "reserve allocation failed"))?;
+            .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
         let bytes_read = src.take(limit).read_to_end(&mut buf.inner)?;
         Ok(bytes_read)
     }
@@ -266,7 +267,7 @@ pub mod std_io {
     impl Write for TryVec<u8> {
         fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
             self.extend_from_slice(buf)
-                .map_err(|_| io::Error::new(io::ErrorKind::Other, "extend_from_slice failed"))?;
+                .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
             Ok(buf.len())
         }
 
-- 
2.43.0


From f4f065fef8237641988721830585cad1a59122f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:14 +0000
Subject: [PATCH 07/10] fix: FallibleRc::try_new was not fallible with the
 unstable feature

It moved the value into a Box and then converted that to an Rc, whose own
allocation aborts on failure. Use the allocator API, as FallibleArc does.
---
 src/rc.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index 936a93e..96f0495 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -1,6 +1,8 @@
 //! Implement a Fallible Rc
+#[cfg(not(feature = "unstable"))]
 use super::FallibleBox;
 use crate::TryReserveError;
+#[cfg(not(feature = "unstable"))]
 use alloc::boxed::Box;
 use alloc::rc::Rc;
 
@@ -23,8 +25,24 @@ pub trait FallibleRc<T> {
 #[allow(deprecated)]
 impl<T> FallibleRc<T> for Rc<T> {
     fn try_new(t: T) -> Result<Self, TryReserveError> {
-        let b = <Box<T> as FallibleBox<T>>::try_new(t)?;
-        Ok(Rc::from(b))
+        #[cfg(not(feature = "unstable"))]
+        {
+            // doesn't work as the counters of rc are also stored in the box
+            let b = <Box<T> as FallibleBox<T>>::try_new(t)?;
+            Ok(Rc::from(b))
+        }
+        #[cfg(feature = "unstable")]
+        {
+            use alloc::alloc::Layout;
+            use alloc::collections::TryReserveErrorKind;
+            Rc::try_new(t).map_err(|_e| {
+                TryReserveErrorKind::AllocError {
+                    layout: Layout::new::<T>(),
+                    non_exhaustive: (),
+                }
+                .into()
+            })
+        }
     }
 }
 
-- 
2.43.0


From e43d56647bc4b0179ba6ea8c4e4986560c0a39cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:10 +0000
Subject: [PATCH 08/10] hook: let the unstable feature compile on the nightly
 Miri belongs to (cfg fc_verif_modern)

Stand-ins for unstable std items that newer toolchains removed; nothing changes without the cfg.
---
 src/btree/node.rs |  6 ++++-
 src/compat.rs     | 61 +++++++++++++++++++++++++++++++++++++++++++++++
 src/lib.rs        |  9 ++++---
 3 files changed, 72 insertions(+), 4 deletions(-)
 create mode 100644 src/compat.rs

diff --git a/src/btree/node.rs b/src/btree/node.rs
index eef9ba7..56e555f 100644
--- a/src/btree/node.rs
+++ b/src/btree/node.rs
@@ -33,7 +33,11 @@
 
 use core::marker::PhantomData;
 use core::mem::{self, MaybeUninit};
-use core::ptr::{self, NonNull, Unique};
+#[cfg(fc_verif_modern)]
+use crate::compat::{BoxCompat, MaybeUninitCompat, Unique};
+#[cfg(not(fc_verif_modern))]
+use core::ptr::Unique;
+use core::ptr::{self, NonNull};
 use core::slice;
 
 use crate::boxed::FallibleBox;
diff --git a/src/compat.rs b/src/compat.rs
new file mode 100644
index 0000000..9e94d23
--- /dev/null
+++ b/src/compat.rs
@@ -0,0 +1,61 @@
+//! Stand-ins for removed unstable std items, so that the unstable feature also compiles on newer
+//! nightlies (the interpreter Miri comes with those). Only compiled with `--cfg fc_verif_modern`.
+use alloc::boxed::Box;
+use core::mem::MaybeUninit;
+use core::ptr::NonNull;
+
+/// Like the former `core::ptr::Unique`.
+pub(crate) struct Unique<T: ?Sized>(NonNull<T>);
+
+unsafe impl<T: ?Sized + Send> Send for Unique<T> {}
+unsafe impl<T: ?Sized + Sync> Sync for Unique<T> {}
+impl<T: ?Sized> Clone for Unique<T> {
+    fn clone(&self) -> Self {
+        *self
+    }
+}
+impl<T: ?Sized> Copy for Unique<T> {}
+impl<T: ?Sized> Unique<T> {
+    pub(crate) const unsafe fn new_unchecked(ptr: *mut T) -> Self {
+        Unique(NonNull::new_unchecked(ptr))
+    }
+    pub(crate) const fn as_ptr(self) -> *mut T {
+        self.0.as_ptr()
+    }
+}
+impl<T: ?Sized> From<Unique<T>> for NonNull<T> {
+    fn from(u: Unique<T>) -> Self {
+        u.0
+    }
+}
+impl<T: ?Sized> From<&mut T> for Unique<T> {
+    fn from(r: &mut T) -> Self {
+        Unique(NonNull::from(r))
+    }
+}
+
+pub(crate) trait BoxCompat<T> {
+    fn into_unique(this: Self) -> (Unique<T>, ());
+}
+impl<T> BoxCompat<T> for Box<T> {
+    fn into_unique(this: Self) -> (Unique<T>, ()) {
+        (unsafe { Unique::new_unchecked(Box::into_raw(this)) }, ())
+    }
+}
+
+pub(crate) trait MaybeUninitCompat<T> {
+    fn uninit_array<const N: usize>() -> [MaybeUninit<T>; N];
+    fn slice_as_ptr(this: &[MaybeUninit<T>]) -> *const T;
+    fn slice_as_mut_ptr(this: &mut [MaybeUninit<T>]) -> *mut T;
+}
+impl<T> MaybeUninitCompat<T> for MaybeUninit<T> {
+    fn uninit_array<const N: usize>() -> [MaybeUninit<T>; N] {
+        [const { MaybeUninit::uninit() }; N]
+    }
+    fn slice_as_ptr(this: &[MaybeUninit<T>]) -> *const T {
+        this.as_ptr() as *const T
+    }
+    fn slice_as_mut_ptr(this: &mut [MaybeUninit<T>]) -> *mut T {
+        this.as_mut_ptr() as *mut T
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 0b1c58a..92c53c3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -22,14 +22,15 @@
 //! can't return a Result to indicate allocation failure.
 
 #![cfg_attr(not(test), no_std)]
+#![allow(unexpected_cfgs)] // fc_verif_modern, see compat.rs
 #![cfg_attr(feature = "unstable", feature(try_reserve_kind))]
 #![cfg_attr(feature = "unstable", feature(min_specialization))]
 #![cfg_attr(feature = "unstable", feature(allocator_api))]
 #![cfg_attr(feature = "unstable", feature(dropck_eyepatch))]
-#![cfg_attr(feature = "unstable", feature(ptr_internals))]
+#![cfg_attr(all(feature = "unstable", not(fc_verif_modern)), feature(ptr_internals))]
 #![cfg_attr(feature = "unstable", feature(core_intrinsics))]
-#![cfg_attr(feature = "unstable", feature(maybe_uninit_slice))]
-#![cfg_attr(feature = "unstable", feature(maybe_uninit_uninit_array))]
+#![cfg_attr(all(feature = "unstable", not(fc_verif_modern)), feature(maybe_uninit_slice))]
+#![cfg_attr(all(feature = "unstable", not(fc_verif_modern)), feature(maybe_uninit_uninit_array))]
 
 extern crate alloc;
 #[cfg(feature = "std")]
@@ -48,6 +49,8 @@ pub mod arc;
 pub use arc::*;
 #[cfg(feature = "unstable")]
 pub mod btree;
+#[cfg(all(feature = "unstable", fc_verif_modern))]
+mod compat;
 #[cfg(all(feature = "hashmap", not(feature = "unstable")))]
 pub mod hashmap;
 #[cfg(all(feature = "hashmap", not(feature = "unstable")))]
-- 
2.43.0


From d1d72f99c11c030a7111ecfbec7fce603c45477b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:51 +0000
Subject: [PATCH 09/10] fix: TryVec::concat of more than usize::MAX zero-sized
 elements overflowed instead of returning an error

---
 src/vec.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 5d7ca4d..2eb8062 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -175,8 +175,15 @@ impl<T: TryClone> TryClone for TryVec<T> {
 
 impl<T: TryClone> TryVec<TryVec<T>> {
     pub fn concat(&self) -> Result<TryVec<T>, TryReserveError> {
-        let size = self.iter().map(|v| v.inner.len()).sum();
-        let mut result = TryVec::with_capacity(size)?;
+        let size = self
+            .iter()
+            .try_fold(0usize, |size, v| size.checked_add(v.inner.len()));
+        let mut result = TryVec::new();
+        match size {
+            Some(size) => result.reserve(size)?,
+            // More (zero-sized) elements than can be counted: report a capacity overflow
+            None => TryVec::<u8>::new().reserve(core::usize::MAX)?,
+        }
         for v in self.iter() {
             result.inner.try_extend_from_slice_no_copy(&v.inner)?;
         }
-- 
2.43.0


From f11c46fdd90e220eac5b9c614d89213f411a6c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:48 +0000
Subject: [PATCH 10/10] fix: let the drop check see that a BTreeMap drops its
 entries

Nodes hold the entries as MaybeUninit, so that together with the
may_dangle drop impl safe code could drop a map after what its keys or
values borrow from, and their destructors ran on freed memory.
---
 src/btree/node.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/btree/node.rs b/src/btree/node.rs
index 56e555f..7f35c57 100644
--- a/src/btree/node.rs
+++ b/src/btree/node.rs
@@ -176,18 +176,25 @@ impl<K, V> InternalNode<K, V> {
 /// destructor.
 struct BoxedNode<K, V> {
     ptr: Unique<LeafNode<K, V>>,
+    // The entries are owned as well. A node holds them as `MaybeUninit`, which hides from the
+    // drop check that dropping the tree drops them.
+    _entries: PhantomData<(K, V)>,
 }
 
 impl<K, V> BoxedNode<K, V> {
     fn from_leaf(node: Box<LeafNode<K, V>>) -> Self {
         let (ptr, _g) = Box::into_unique(node);
-        BoxedNode { ptr: ptr }
+        BoxedNode {
+            ptr,
+            _entries: PhantomData,
+        }
     }
 
     fn from_internal(node: Box<InternalNode<K, V>>) -> Self {
         unsafe {
             BoxedNode {
                 ptr: Unique::new_unchecked(Box::into_raw(node) as *mut LeafNode<K, V>),
+                _entries: PhantomData,
             }
         }
     }
@@ -195,6 +202,7 @@ impl<K, V> BoxedNode<K, V> {
     unsafe fn from_ptr(ptr: NonNull<LeafNode<K, V>>) -> Self {
         BoxedNode {
             ptr: Unique::new_unchecked(ptr.as_ptr()),
+            _entries: PhantomData,
         }
     }
 
-- 
2.43.0

