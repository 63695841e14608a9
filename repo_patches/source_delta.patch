From 55d297e209b336f836fa38d480e9ed95b852645d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:04 +0000
Subject: [PATCH 01/12] fix: sparse delete of an absent key no longer removes
 another leaf

The key-indexed leaf entry outlives the leaf it describes, so deleting a key a
second time walked to whichever leaf is now closest and removed that one.
---
 src/sparse/merkle_tree.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/sparse/merkle_tree.rs b/src/sparse/merkle_tree.rs
index af69a93..00b9882 100644
--- a/src/sparse/merkle_tree.rs
+++ b/src/sparse/merkle_tree.rs
@@ -113,6 +113,17 @@ where
                 .map_err(MerkleTreeError::DeserializeError)?;
             let (path_nodes, side_nodes): (Vec<Node>, Vec<Node>) =
                 self.path_set(leaf_node.clone())?;
+
+            // The path leads to the leaf currently closest to the requested
+            // leaf. If this is not the leaf of the requested key, the key is
+            // not part of the tree and there is nothing to delete.
+            match path_nodes.first() {
+                Some(actual_leaf_node)
+                    if !actual_leaf_node.is_placeholder()
+                        && actual_leaf_node.leaf_key() == leaf_node.leaf_key() => {}
+                _ => return Ok(()),
+            }
+
             self.delete_with_path_set(&leaf_node, path_nodes.as_slice(), side_nodes.as_slice())?;
         }
 
-- 
2.43.0


From 2a6ab416bd2b918eb8879e767c5d395ce6173df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 02/12] fix: sparse tree no longer stores leaves under their
 raw key

Leaves were stored under their hash and again under their key. A key equal to
the hash of a stored node overwrote that node, and a missing key entry turned a
delete into a silent no-op. Delete now finds the leaf by walking the tree.
---
 src/sparse/merkle_tree.rs | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/src/sparse/merkle_tree.rs b/src/sparse/merkle_tree.rs
index 00b9882..d9b8a84 100644
--- a/src/sparse/merkle_tree.rs
+++ b/src/sparse/merkle_tree.rs
@@ -86,8 +86,6 @@ where
         let leaf_node = Node::create_leaf(key, data);
         self.storage
             .insert(&leaf_node.hash(), &leaf_node.as_ref().into())?;
-        self.storage
-            .insert(leaf_node.leaf_key(), &leaf_node.as_ref().into())?;
 
         if self.root_node().is_placeholder() {
             self.set_root_node(leaf_node);
@@ -106,27 +104,22 @@ where
             return Ok(());
         }
 
-        if let Some(primitive) = self.storage.get(key)? {
-            let primitive = primitive.into_owned();
-            let leaf_node: Node = primitive
-                .try_into()
-                .map_err(MerkleTreeError::DeserializeError)?;
-            let (path_nodes, side_nodes): (Vec<Node>, Vec<Node>) =
-                self.path_set(leaf_node.clone())?;
-
-            // The path leads to the leaf currently closest to the requested
-            // leaf. If this is not the leaf of the requested key, the key is
-            // not part of the tree and there is nothing to delete.
-            match path_nodes.first() {
-                Some(actual_leaf_node)
-                    if !actual_leaf_node.is_placeholder()
-                        && actual_leaf_node.leaf_key() == leaf_node.leaf_key() => {}
-                _ => return Ok(()),
-            }
-
-            self.delete_with_path_set(&leaf_node, path_nodes.as_slice(), side_nodes.as_slice())?;
+        // Only the key of this leaf is used to find the leaf stored in the tree.
+        let leaf_node = Node::create_leaf(key, &[]);
+        let (path_nodes, side_nodes): (Vec<Node>, Vec<Node>) = self.path_set(leaf_node.clone())?;
+
+        // The path leads to the leaf currently closest to the requested leaf.
+        // If this is not the leaf of the requested key, the key is not part of
+        // the tree and there is nothing to delete.
+        match path_nodes.first() {
+            Some(actual_leaf_node)
+                if !actual_leaf_node.is_placeholder()
+                    && actual_leaf_node.leaf_key() == leaf_node.leaf_key() => {}
+            _ => return Ok(()),
         }
 
+        self.delete_with_path_set(&leaf_node, path_nodes.as_slice(), side_nodes.as_slice())?;
+
         Ok(())
     }
 
-- 
2.43.0


From 9d967546920e98eb0ed8429a1cdfffc39fec4d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:35 +0000
Subject: [PATCH 03/12] fix: sparse tree loads the root of an empty tree

---
 src/sparse/merkle_tree.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sparse/merkle_tree.rs b/src/sparse/merkle_tree.rs
index d9b8a84..39c5b9a 100644
--- a/src/sparse/merkle_tree.rs
+++ b/src/sparse/merkle_tree.rs
@@ -57,6 +57,12 @@ where
         storage: StorageType,
         root: &Bytes32,
     ) -> Result<Self, MerkleTreeError<StorageError>> {
+        if root == zero_sum() {
+            // The zero root signifies that all leaves are empty; there is no
+            // root node in storage.
+            return Ok(Self::new(storage));
+        }
+
         let primitive = storage
             .get(root)?
             .ok_or_else(|| MerkleTreeError::LoadError(hex::encode(root)))?
-- 
2.43.0


From 1a456c1d5e53cb2b79d2d428534413a90bb92911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:39 +0000
Subject: [PATCH 04/12] fix: sparse delete removes the old path after the new
 one is stored

---
 src/sparse/merkle_tree.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sparse/merkle_tree.rs b/src/sparse/merkle_tree.rs
index 39c5b9a..a96c7bb 100644
--- a/src/sparse/merkle_tree.rs
+++ b/src/sparse/merkle_tree.rs
@@ -240,10 +240,6 @@ where
         path_nodes: &[Node],
         side_nodes: &[Node],
     ) -> Result<(), StorageError> {
-        for node in path_nodes {
-            self.storage.remove(&node.hash())?;
-        }
-
         let path = requested_leaf_node.leaf_key();
         let mut side_nodes_iter = side_nodes.iter();
 
@@ -296,6 +292,12 @@ where
 
         self.set_root_node(current_node);
 
+        // Remove the stale path only after the new path is in place, so that a
+        // storage error at any point leaves a complete tree behind.
+        for node in path_nodes {
+            self.storage.remove(&node.hash())?;
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From a840ead84493a9f0bb6ad7b85805f0959aabc24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 05/12] fix: failed binary push keeps the previous subtrees

A storage error while joining subtrees dropped the head of the tree.
---
 src/binary/merkle_tree.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/binary/merkle_tree.rs b/src/binary/merkle_tree.rs
index 2e2867d..2e5875a 100644
--- a/src/binary/merkle_tree.rs
+++ b/src/binary/merkle_tree.rs
@@ -296,9 +296,14 @@ where
         let node = Node::create_leaf(self.leaves_count, data);
         self.storage.insert(&node.key(), &node.as_ref().into())?;
         let next = self.head.take();
+        let previous_head = next.clone();
         let head = Box::new(Subtree::<Node>::new(node, next));
         self.head = Some(head);
-        self.join_all_subtrees()?;
+        if let Err(err) = self.join_all_subtrees() {
+            // Discard the partially joined leaf.
+            self.head = previous_head;
+            return Err(err.into());
+        }
 
         self.leaves_count += 1;
 
-- 
2.43.0


From cdc45fde6f7bce541b1e87f34a5c982cc2f549ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:05 +0000
Subject: [PATCH 06/12] fix: failed sum push keeps the previous subtrees

A storage error while joining subtrees dropped the head of the tree.
---
 src/sum/merkle_tree.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sum/merkle_tree.rs b/src/sum/merkle_tree.rs
index a3cc9d4..b161860 100644
--- a/src/sum/merkle_tree.rs
+++ b/src/sum/merkle_tree.rs
@@ -73,9 +73,14 @@ where
         self.storage.insert(node.hash(), &node)?;
 
         let next = self.head.take();
+        let previous_head = next.clone();
         let head = Box::new(Subtree::<Node>::new(node, next));
         self.head = Some(head);
-        self.join_all_subtrees()?;
+        if let Err(err) = self.join_all_subtrees() {
+            // Discard the partially joined leaf.
+            self.head = previous_head;
+            return Err(err);
+        }
 
         Ok(())
     }
-- 
2.43.0


From 5ff79757bf056f7b00ccc6c93398a12b0c78d060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:11 +0000
Subject: [PATCH 07/12] fix: binary prove rejects the largest index without
 overflow

---
 src/binary/merkle_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/merkle_tree.rs b/src/binary/merkle_tree.rs
index 2e5875a..1553ff0 100644
--- a/src/binary/merkle_tree.rs
+++ b/src/binary/merkle_tree.rs
@@ -82,7 +82,7 @@ where
         &self,
         proof_index: u64,
     ) -> Result<(Bytes32, ProofSet), MerkleTreeError<StorageError>> {
-        if proof_index + 1 > self.leaves_count {
+        if proof_index >= self.leaves_count {
             return Err(MerkleTreeError::InvalidProofIndex(proof_index));
         }
 
-- 
2.43.0


From f7f38bc1db7c14e4f06a898522215f4fa3f2302a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 08/12] fix: position arithmetic no longer overflows for large
 indices

---
 src/common/position.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/common/position.rs b/src/common/position.rs
index 7b9ba75..e7be9fb 100644
--- a/src/common/position.rs
+++ b/src/common/position.rs
@@ -110,16 +110,20 @@ impl Position {
     /// The sibling position.
     /// A position shares the same parent and height as its sibling.
     pub fn sibling(self) -> Self {
-        let shift = 1 << (self.height() + 1);
-        let index = self.in_order_index() as i64 + shift * self.direction();
+        // Wrapping arithmetic is exact modulo 2^64, also for indices above
+        // `i64::MAX`.
+        let shift = 1i64 << (self.height() + 1);
+        let offset = shift.wrapping_mul(self.direction());
+        let index = (self.in_order_index() as i64).wrapping_add(offset);
         Self::from_in_order_index(index as u64)
     }
 
     /// The parent position.
     /// The parent position has a height less 1 relative to this position.
     pub fn parent(self) -> Self {
-        let shift = 1 << self.height();
-        let index = self.in_order_index() as i64 + shift * self.direction();
+        let shift = 1i64 << self.height();
+        let offset = shift.wrapping_mul(self.direction());
+        let index = (self.in_order_index() as i64).wrapping_add(offset);
         Self::from_in_order_index(index as u64)
     }
 
@@ -208,8 +212,9 @@ impl Position {
     /// current index.
     fn child(self, direction: i64) -> Self {
         assert!(self.is_node());
-        let shift = 1 << (self.height() - 1);
-        let index = self.in_order_index() as i64 + shift * direction;
+        let shift = 1i64 << (self.height() - 1);
+        let offset = shift.wrapping_mul(direction);
+        let index = (self.in_order_index() as i64).wrapping_add(offset);
         Self::from_in_order_index(index as u64)
     }
 
-- 
2.43.0


From 0c4c1ce2a436fca48274dcaf773a616603f0c10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 09/12] fix: binary load reports an error for unrepresentable
 leaf counts

---
 src/binary/merkle_tree.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/binary/merkle_tree.rs b/src/binary/merkle_tree.rs
index 1553ff0..9d03d46 100644
--- a/src/binary/merkle_tree.rs
+++ b/src/binary/merkle_tree.rs
@@ -57,6 +57,12 @@ where
         storage: StorageType,
         leaves_count: u64,
     ) -> Result<Self, MerkleTreeError<StorageError>> {
+        // In-order indices of a tree with more leaves than this do not fit in 64
+        // bits, so that no storage can hold its nodes.
+        if leaves_count > i64::MAX as u64 {
+            return Err(MerkleTreeError::LoadError(leaves_count));
+        }
+
         let mut tree = Self {
             storage,
             head: None,
-- 
2.43.0


From a1ad6893c0cfd90520337a9dba394acf6a556e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:41 +0000
Subject: [PATCH 10/12] fix: sum tree fee totals no longer wrap in builds
 without overflow checks

---
 src/sum/node.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sum/node.rs b/src/sum/node.rs
index 59cb079..37b2283 100644
--- a/src/sum/node.rs
+++ b/src/sum/node.rs
@@ -32,7 +32,11 @@ impl Node {
         Self {
             height,
             hash: node_sum(lhs_fee, lhs_key, rhs_fee, rhs_key),
-            fee: lhs_fee + rhs_fee,
+            // A wrapped total would understate the fees, also in builds without
+            // overflow checks.
+            fee: lhs_fee
+                .checked_add(rhs_fee)
+                .expect("The fee total must not exceed the maximum fee"),
             left_child_key: Some(*lhs_key),
             right_child_key: Some(*rhs_key),
         }
-- 
2.43.0


From 773f2eaaaf15038ffb1237ba575022fcbb3342d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:08 +0000
Subject: [PATCH 11/12] fix: name the missing key when the leaf to prove is not
 in storage

The error of a proof whose own leaf is missing carried the leaf index, although
LoadError is the key of the node that was not found.
---
 src/binary/merkle_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/merkle_tree.rs b/src/binary/merkle_tree.rs
index 9d03d46..45aba42 100644
--- a/src/binary/merkle_tree.rs
+++ b/src/binary/merkle_tree.rs
@@ -99,7 +99,7 @@ where
         let primitive = self
             .storage
             .get(&leaf_position.in_order_index())?
-            .ok_or(MerkleTreeError::LoadError(proof_index))?
+            .ok_or(MerkleTreeError::LoadError(leaf_position.in_order_index()))?
             .into_owned();
         let leaf_node = Node::from(primitive);
         proof_set.push(*leaf_node.hash());
-- 
2.43.0


From b7b4de1fec5f3e6fd934d343db34e79a207603ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:45 +0000
Subject: [PATCH 12/12] fix: sparse tree errors implement Display and Error
 again

The display text of ChildNotFound required Key: Display, which the 32-byte keys
of the sparse tree do not have, so that its MerkleTreeError silently lacked
both traits.
---
 src/common/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/node.rs b/src/common/node.rs
index aed1f56..ee585db 100644
--- a/src/common/node.rs
+++ b/src/common/node.rs
@@ -29,7 +29,7 @@ pub type ChildResult<T: ParentNode> = Result<T, ChildError<T::Key, T::Error>>;
 #[derive(Debug, Clone)]
 #[cfg_attr(feature = "std", derive(thiserror::Error))]
 pub enum ChildError<Key, E> {
-    #[cfg_attr(feature = "std", error("Child with key {0} was not found in storage"))]
+    #[cfg_attr(feature = "std", error("Child with key {0:?} was not found in storage"))]
     ChildNotFound(Key),
     #[cfg_attr(feature = "std", error("Node is a leaf with no children"))]
     NodeIsLeaf,
-- 
2.43.0

