From c16e94697200f8e6fd77e8dcc078b065864b5f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:11 +0000
Subject: [PATCH 01/19] fix: report a replaced null root node as stale

---
 jmt/src/tree.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/jmt/src/tree.rs b/jmt/src/tree.rs
index 728f87b..801e272 100644
--- a/jmt/src/tree.rs
+++ b/jmt/src/tree.rs
@@ -282,9 +282,7 @@ where
                     );
                 }
 
-                if node_key.version() == version {
-                    tree_cache.delete_node(&node_key, false /* is_leaf */);
-                }
+                tree_cache.delete_node(&node_key, false /* is_leaf */);
                 self.batch_create_subtree(
                     NodeKey::new_empty_path(version),
                     version,
@@ -580,8 +578,8 @@ where
                         node_key
                     );
                 }
-                // Delete the old null node if the at the same version
-                if node_key.version() == version && node_already_exists {
+                // Delete the old null node if it is at the same version, or replaced by a new leaf
+                if node_already_exists && (value.is_some() || node_key.version() == version) {
                     tree_cache.delete_node(&node_key, false /* is_leaf */);
                 }
                 if let Some(value) = value {
-- 
2.43.0


From 810feb7a5eaa230dc13f0188081f8c510825582f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:11 +0000
Subject: [PATCH 02/19] fix: report the previous root as stale when an update
 without effect copies it

---
 jmt/src/tree_cache.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jmt/src/tree_cache.rs b/jmt/src/tree_cache.rs
index b5bb97b..69b0a46 100644
--- a/jmt/src/tree_cache.rs
+++ b/jmt/src/tree_cache.rs
@@ -285,8 +285,11 @@ where
             && self.node_cache.is_empty()
             && self.stale_node_index_cache.is_empty()
         {
-            let root_node = self.get_node(&self.root_node_key)?;
+            let root_node = self.get_node(&root_node_key)?;
+            // The copy replaces the previous root node, which no later version refers to.
+            self.delete_node(&root_node_key, root_node.is_leaf());
             root_node_key.set_version(self.next_version);
+            self.set_root_node_key(root_node_key.clone());
             self.put_node(root_node_key, root_node)?;
         }
 
-- 
2.43.0


From dc30541fe0a9cfcaff1f773aa48231699ea164ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:47 +0000
Subject: [PATCH 03/19] fix: write the null root of a first, effect-free update
 at its own version

---
 jmt/src/tree_cache.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jmt/src/tree_cache.rs b/jmt/src/tree_cache.rs
index 69b0a46..b36635c 100644
--- a/jmt/src/tree_cache.rs
+++ b/jmt/src/tree_cache.rs
@@ -265,6 +265,8 @@ where
             // that node hash as the root hash of this version. This will happen if you delete as
             // the first operation on an empty tree, but also if you manage to delete every single
             // key-value mapping in the tree.
+            root_node_key.set_version(self.next_version);
+            self.set_root_node_key(root_node_key.clone());
             self.put_node(root_node_key.clone(), Node::new_null())?;
             Node::Null
         };
-- 
2.43.0


From 877f04d1ad6d081b8c6c8e06b80c8011279a5015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:06 +0000
Subject: [PATCH 04/19] fix: report a restore reopened after its completion as
 an error

---
 jmt/src/restore.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jmt/src/restore.rs b/jmt/src/restore.rs
index 67b024a..78f17b1 100644
--- a/jmt/src/restore.rs
+++ b/jmt/src/restore.rs
@@ -249,6 +249,10 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         // not exist. This node and all its ancestors will be the partial nodes.
         let mut node_key = rightmost_leaf_node_key.gen_parent_node_key();
         while store.get_node_option(&node_key)?.is_some() {
+            ensure!(
+                !node_key.nibble_path().is_empty(),
+                "The restoration process has already completed.",
+            );
             node_key = node_key.gen_parent_node_key();
         }
 
-- 
2.43.0


From d15cdeca7f69ad97dae01820fd55068ee0a6a78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:40 +0000
Subject: [PATCH 05/19] fix: finish a restore only with the expected tree,
 including the empty one

---
 jmt/src/restore.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/jmt/src/restore.rs b/jmt/src/restore.rs
index 78f17b1..5c2f032 100644
--- a/jmt/src/restore.rs
+++ b/jmt/src/restore.rs
@@ -671,9 +671,31 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         }
     }
 
+    /// Computes the root hash of the tree that consists of everything that has been added so far.
+    fn current_root_hash(&self) -> RootHash {
+        // Only the last child of a partial node can have an unknown hash: it is the next partial
+        // node.
+        let mut child_hash = None;
+        for partial_node in self.partial_nodes.iter().rev() {
+            let mut children = partial_node.children.clone();
+            if let Some(ChildInfo::Internal { hash, .. }) = children.iter_mut().flatten().last() {
+                *hash = hash.or(child_hash);
+            }
+            child_hash = Some(Self::compute_left_sibling_impl(&children).0);
+        }
+        RootHash(child_hash.expect("Must have at least one partial node."))
+    }
+
     /// Finishes the restoration process. This tells the code that there is no more account,
     /// otherwise we can not freeze the rightmost leaf and its ancestors.
     fn finish_impl(mut self) -> Result<()> {
+        // What is still to be written must complete the expected tree: entries may be missing, or
+        // a rejected chunk may have left some behind.
+        ensure!(
+            self.current_root_hash() == self.expected_root_hash,
+            "The restored tree does not have the expected root hash.",
+        );
+
         // Deal with the special case when the entire tree has a single leaf.
         if self.partial_nodes.len() == 1 {
             let mut num_children = 0;
@@ -690,12 +712,18 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
             if num_children == 1 {
                 if let Some(node) = leaf {
                     let node_key = NodeKey::new_empty_path(self.version);
-                    assert!(self.frozen_nodes.is_empty());
                     self.frozen_nodes.insert_node(node_key, node.into());
                     self.store.write_node_batch(&self.frozen_nodes)?;
                     return Ok(());
                 }
             }
+
+            // Likewise when the entire tree is empty.
+            if num_children == 0 {
+                let node_key = NodeKey::new_empty_path(self.version);
+                self.frozen_nodes.insert_node(node_key, Node::new_null());
+                return self.store.write_node_batch(&self.frozen_nodes);
+            }
         }
 
         self.freeze(0);
-- 
2.43.0


From a411cd673faa503dd4e81feb08f74c1948654c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:00 +0000
Subject: [PATCH 06/19] fix: reject a chunk that skips the key after a restart
 instead of panicking

---
 jmt/src/restore.rs | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/jmt/src/restore.rs b/jmt/src/restore.rs
index 5c2f032..8b4b6e2 100644
--- a/jmt/src/restore.rs
+++ b/jmt/src/restore.rs
@@ -84,6 +84,12 @@ impl InternalInfo {
         self.children[index] = Some(child_info);
     }
 
+    /// Whether the only child so far is a leaf, which no complete internal node has.
+    fn has_single_leaf_child(&self) -> bool {
+        let mut children = self.children.iter().flatten();
+        matches!(children.next(), Some(ChildInfo::Leaf { .. })) && children.next().is_none()
+    }
+
     /// Converts `self` to an internal node, assuming all of its children are already known and
     /// fully initialized.
     fn into_internal_node(
@@ -327,9 +333,8 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 );
             }
             let value_hash = ValueHash::with::<H>(value.as_slice());
+            self.add_one(key, value_hash)?;
             self.frozen_nodes.insert_value(self.version, key, value);
-
-            self.add_one(key, value_hash);
             self.previous_leaf.replace(LeafNode::new(key, value_hash));
             self.num_keys_received += 1;
         }
@@ -345,7 +350,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
     }
 
     /// Restores one account.
-    fn add_one(&mut self, new_key: KeyHash, value_hash: ValueHash) {
+    fn add_one(&mut self, new_key: KeyHash, value_hash: ValueHash) -> Result<()> {
         let nibble_path = NibblePath::new(new_key.0.to_vec());
         let mut nibbles = nibble_path.nibbles();
 
@@ -372,14 +377,14 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                             new_key,
                             value_hash,
                             nibbles,
-                        );
+                        )?;
                         break;
                     }
                 }
                 None => {
                     // This means that we are going to put a leaf in this position. For all the
                     // descendants on the left, they are now frozen.
-                    self.freeze(i + 1);
+                    self.freeze(i + 1)?;
 
                     // Mark this position as a leaf child.
                     self.partial_nodes[i].set_child(
@@ -395,6 +400,8 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 }
             }
         }
+
+        Ok(())
     }
 
     /// Inserts a new account at the position of the existing leaf node. We may need to create
@@ -407,7 +414,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         new_key: KeyHash,
         value_hash: ValueHash,
         mut remaining_nibbles: NibbleIterator,
-    ) {
+    ) -> Result<()> {
         let num_existing_partial_nodes = self.partial_nodes.len();
 
         // The node at this position becomes an internal node. Since we may insert more nodes at
@@ -460,7 +467,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         // later, because this way it's easier in `freeze` to find the correct leaf to freeze --
         // it's always the rightmost leaf on the lowest level.
         self.partial_nodes.push(internal_info);
-        self.freeze(self.partial_nodes.len());
+        self.freeze(self.partial_nodes.len())?;
 
         // Now we set the new child.
         let new_child_index = new_key.0.get_nibble(common_prefix_len);
@@ -477,12 +484,14 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                     node: LeafNode::new(new_key, value_hash),
                 },
             );
+
+        Ok(())
     }
 
     /// Puts the nodes that will not be changed later in `self.frozen_nodes`.
-    fn freeze(&mut self, num_remaining_partial_nodes: usize) {
+    fn freeze(&mut self, num_remaining_partial_nodes: usize) -> Result<()> {
         self.freeze_previous_leaf();
-        self.freeze_internal_nodes(num_remaining_partial_nodes);
+        self.freeze_internal_nodes(num_remaining_partial_nodes)
     }
 
     /// Freezes the previously added leaf node. It should always be the rightmost leaf node on the
@@ -517,8 +526,17 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
 
     /// Freeze extra internal nodes. Only `num_remaining_nodes` partial internal nodes will be kept
     /// and the ones on the lower level will be frozen.
-    fn freeze_internal_nodes(&mut self, num_remaining_nodes: usize) {
+    fn freeze_internal_nodes(&mut self, num_remaining_nodes: usize) -> Result<()> {
         while self.partial_nodes.len() > num_remaining_nodes {
+            // A leaf that was written before a restart shares its position with the next key of
+            // the tree, so a chunk that skips that key would leave it the only child here.
+            ensure!(
+                !matches!(
+                    self.partial_nodes.last(),
+                    Some(node) if node.has_single_leaf_child()
+                ),
+                "The key that follows the last restored one is missing.",
+            );
             let last_node = self.partial_nodes.pop().expect("This node must exist.");
             let (node_key, internal_node) =
                 last_node.into_internal_node(self.version, self.leaf_count_migration);
@@ -554,6 +572,8 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 }
             }
         }
+
+        Ok(())
     }
 
     /// Verifies that all accounts that have been added so far (from the leftmost one to
@@ -726,7 +746,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
             }
         }
 
-        self.freeze(0);
+        self.freeze(0)?;
         self.store.write_node_batch(&self.frozen_nodes)
     }
 }
-- 
2.43.0


From c1ae6b5d8e506cfde53bff74f5bf505572350149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:48 +0000
Subject: [PATCH 07/19] verif hook: name ExclusionProof under the mocks feature

---
 jmt/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jmt/src/lib.rs b/jmt/src/lib.rs
index a864c12..361f0e6 100644
--- a/jmt/src/lib.rs
+++ b/jmt/src/lib.rs
@@ -99,6 +99,9 @@ pub use iterator::JellyfishMerkleIterator;
 pub use sha2::Sha256;
 #[cfg(feature = "ics23")]
 pub use tree::ics23_impl::ics23_spec;
+#[cfg(feature = "mocks")]
+#[doc(hidden)]
+pub use tree::ExclusionProof;
 pub use tree::{H256Jmt, JellyfishMerkleTree, Sha256Jmt};
 use types::nibble::ROOT_NIBBLE_HEIGHT;
 pub use types::proof;
-- 
2.43.0


From e9ded57b32ba2f5402f90de306b82f8b340993a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:18 +0000
Subject: [PATCH 08/19] fix: look up an exclusion neighbour at its own version

---
 jmt/src/tree.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/jmt/src/tree.rs b/jmt/src/tree.rs
index 801e272..f375d6d 100644
--- a/jmt/src/tree.rs
+++ b/jmt/src/tree.rs
@@ -921,25 +921,25 @@ where
             node: &InternalNode,
             child_index: Nibble,
             extreme: Extreme,
-        ) -> Option<Nibble> {
+        ) -> Option<(Nibble, Version)> {
             match extreme {
                 // Rightmost left neighbor
                 Extreme::Left => node
                     .children_unsorted()
                     .filter(|(nibble, _)| nibble < &child_index)
                     .max_by_key(|(nibble, _)| *nibble)
-                    .map(|p| p.0),
+                    .map(|(nibble, child)| (nibble, child.version)),
                 // Leftmost right neighbor
                 Extreme::Right => node
                     .children_unsorted()
                     .filter(|(nibble, _)| nibble > &child_index)
                     .min_by_key(|(nibble, _)| *nibble)
-                    .map(|p| p.0),
+                    .map(|(nibble, child)| (nibble, child.version)),
             }
         }
 
         let mut parents = parents;
-        let mut neighbor: Option<Nibble> = None;
+        let mut neighbor: Option<(Nibble, Version)> = None;
         let mut path = to;
 
         while neighbor.is_none() {
@@ -954,13 +954,15 @@ where
                 continue;
             }
         }
-        path.push(neighbor.unwrap());
+        let (neighbor_nibble, neighbor_version) = neighbor.unwrap();
+        path.push(neighbor_nibble);
 
         // nibble path will represent the left nibble path. this is currently at
         // the parent of the leaf for `key`
         Ok(Some(self.get_extreme_key_hash(
             version,
-            NodeKey::new(version, path.clone()),
+            // The neighbor may have been last updated at an earlier version.
+            NodeKey::new(neighbor_version, path.clone()),
             path.num_nibbles(),
             extreme.opposite(),
         )?))
-- 
2.43.0


From cc540a0ea934b93afc69c5194342ea91d90272cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:27 +0000
Subject: [PATCH 09/19] fix: removing a branch value collapses the branch and
 reports absence truthfully

---
 pmt/src/inner.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 9ddb1c4..ce12c1f 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -528,19 +528,19 @@ where
                 let borrow_branch = branch.borrow_mut();
 
                 if partial.at(0) == 0x10 {
-                    borrow_branch.value = None;
-                    return Ok((Node::Branch(branch.clone()), true));
-                }
+                    let deleted = borrow_branch.value.take().is_some();
+                    Ok((Node::Branch(branch.clone()), deleted))
+                } else {
+                    let index = partial.at(0);
+                    let child = &mut borrow_branch.children[index];
 
-                let index = partial.at(0);
-                let child = &mut borrow_branch.children[index];
+                    let (new_child, deleted) = self.delete_at(child, path, path_index + 1)?;
+                    if deleted {
+                        *borrow_branch.children[index] = new_child;
+                    }
 
-                let (new_child, deleted) = self.delete_at(child, path, path_index + 1)?;
-                if deleted {
-                    *borrow_branch.children[index] = new_child;
+                    Ok((Node::Branch(branch.clone()), deleted))
                 }
-
-                Ok((Node::Branch(branch.clone()), deleted))
             }
             Node::Extension(ext) => {
                 let borrow_ext = ext.borrow_mut();
-- 
2.43.0


From 328de59d70d4836cc853e8cc1fbffc6a14ca2479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:26 +0000
Subject: [PATCH 10/19] fix: a small root rewritten unchanged is not deleted by
 its own commit

---
 pmt/src/inner.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index ce12c1f..28bc19d 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -282,6 +282,7 @@ where
             EncodedNode::Inline(encoded) => {
                 let hash = keccak(&encoded);
                 self.cache.insert(hash.as_bytes().to_vec(), encoded);
+                self.gen_keys.insert(hash.as_bytes().to_vec());
                 hash
             }
         };
-- 
2.43.0


From 19a3c382050e13a766db05947e707c7f6d260efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:17 +0000
Subject: [PATCH 11/19] fix: keep nodes passed by a failed or ineffective
 operation in the store

---
 pmt/src/inner.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 28bc19d..ffd5af4 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -154,8 +154,15 @@ where
 
         let mut root = self.root.clone();
         let path = &Nibbles::from_raw(key, true);
+        let pending_keys = std::mem::take(&mut self.passing_keys);
         let result = self.insert_at(&mut root, path, 0, value.to_vec());
 
+        // nodes passed by a failed insert are still in use
+        let passed_keys = std::mem::replace(&mut self.passing_keys, pending_keys);
+        if result.is_ok() {
+            self.passing_keys.extend(passed_keys);
+        }
+
         if let Err(TrieError::MissingTrieNode {
             node_hash,
             traversed,
@@ -180,8 +187,15 @@ where
     fn remove(&mut self, key: Key) -> Result<bool> {
         let path = &Nibbles::from_raw(key, true);
 
+        let pending_keys = std::mem::take(&mut self.passing_keys);
         let result = self.delete_at(&mut self.root.clone(), path, 0);
 
+        // nodes passed without removing anything, or by a failed removal, are still in use
+        let passed_keys = std::mem::replace(&mut self.passing_keys, pending_keys);
+        if matches!(result, Ok((_, true))) {
+            self.passing_keys.extend(passed_keys);
+        }
+
         if let Err(TrieError::MissingTrieNode {
             node_hash,
             traversed,
-- 
2.43.0


From 3f3f08925280500645382aa9934122b4a229f52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:58 +0000
Subject: [PATCH 12/19] fix: prove keys from a trie opened at a root, and from
 the empty trie

---
 pmt/src/inner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index ffd5af4..26d7d3d 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -253,7 +253,8 @@ where
 
         let mut path = result?;
         match self.root {
-            Node::Empty => {}
+            // already on the path, read from the database
+            Node::Hash(_) => {}
             _ => path.push(self.root.clone()),
         }
 
-- 
2.43.0


From 76c5e73a9b2aeb4b6a58b6ffbae6b5e464fb2d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:45 +0000
Subject: [PATCH 13/19] fix: iterate a trie holding the empty key; commit
 reports a missing root instead of panicking

---
 pmt/src/inner.rs   | 7 ++++++-
 pmt/src/nibbles.rs | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 26d7d3d..b4e7d1c 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -330,7 +330,12 @@ where
         self.passing_keys.clear();
         self.root = self
             .recover_from_db(root_hash)?
-            .expect("The root that was just created is missing");
+            .ok_or(TrieError::MissingTrieNode {
+                node_hash: root_hash,
+                traversed: None,
+                root_hash: Some(root_hash),
+                err_key: None,
+            })?;
 
         Ok(root_hash)
     }
diff --git a/pmt/src/nibbles.rs b/pmt/src/nibbles.rs
index 20dff17..f7d966b 100644
--- a/pmt/src/nibbles.rs
+++ b/pmt/src/nibbles.rs
@@ -56,7 +56,7 @@ impl Nibbles {
     }
 
     pub fn is_leaf(&self) -> bool {
-        self.hex_data[self.hex_data.len() - 1] == 16
+        self.hex_data.last() == Some(&16)
     }
 
     pub fn encode_compact(&self) -> Vec<u8> {
-- 
2.43.0


From dde04fd05a3d75056c44bcbdab7fe853f9931cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:44 +0000
Subject: [PATCH 14/19] fix: reject malformed node paths in a proof instead of
 panicking

---
 pmt/src/inner.rs   | 4 +++-
 pmt/src/nibbles.rs | 8 ++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index b4e7d1c..98f9796 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -804,7 +804,9 @@ where
             Prototype::Data(0) => Ok(Node::Empty),
             Prototype::List(2) => {
                 let key = r.at(0)?.data()?;
-                let key = Nibbles::from_compact(key);
+                let key = Nibbles::try_from_compact(key)
+                    .filter(|key| !key.is_empty())
+                    .ok_or_else(|| TrieError::InvalidData("invalid node path".to_string()))?;
 
                 if key.is_leaf() {
                     Ok(Node::from_leaf(key, r.at(1)?.data()?.to_vec()))
diff --git a/pmt/src/nibbles.rs b/pmt/src/nibbles.rs
index f7d966b..71411e5 100644
--- a/pmt/src/nibbles.rs
+++ b/pmt/src/nibbles.rs
@@ -28,6 +28,14 @@ impl Nibbles {
         Nibbles { hex_data }
     }
 
+    /// Decodes a compact path of unknown origin, `None` if it isn't one.
+    pub fn try_from_compact(compact: &[u8]) -> Option<Self> {
+        match compact.first() {
+            Some(flag) if flag >> 4 <= 0x3 => Some(Self::from_compact(compact)),
+            _ => None,
+        }
+    }
+
     pub fn from_compact(compact: &[u8]) -> Self {
         let mut hex = vec![];
         let flag = compact[0];
-- 
2.43.0


From 1a009a97e3b292dcea5d477587b21d07b2e5c634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:39 +0000
Subject: [PATCH 15/19] fix: refuse oversized embedded nodes so that nesting in
 a proof is bounded

---
 pmt/src/inner.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 98f9796..66f2c07 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -797,6 +797,18 @@ where
         }
     }
 
+    /// Decodes a node found inside of another one. Only nodes smaller than a hash are
+    /// embedded, so that nodes can't be nested arbitrarily deep.
+    fn decode_embedded_node(&self, data: &[u8]) -> Result<Node> {
+        if data.len() >= HASHED_LENGTH && Rlp::new(data).is_list() {
+            return Err(TrieError::InvalidData(
+                "node is too large to be embedded".to_string(),
+            ));
+        }
+
+        self.decode_node(data)
+    }
+
     fn decode_node(&self, data: &[u8]) -> Result<Node> {
         let r = Rlp::new(data);
 
@@ -811,7 +823,7 @@ where
                 if key.is_leaf() {
                     Ok(Node::from_leaf(key, r.at(1)?.data()?.to_vec()))
                 } else {
-                    let n = self.decode_node(r.at(1)?.as_raw())?;
+                    let n = self.decode_embedded_node(r.at(1)?.as_raw())?;
 
                     Ok(Node::from_extension(key, n))
                 }
@@ -821,7 +833,7 @@ where
                 #[allow(clippy::needless_range_loop)]
                 for i in 0..nodes.len() {
                     let rlp_data = r.at(i)?;
-                    let n = self.decode_node(rlp_data.as_raw())?;
+                    let n = self.decode_embedded_node(rlp_data.as_raw())?;
                     *nodes[i] = n;
                 }
 
-- 
2.43.0


From 7df9540b2f5b24a91185bf82cd8805239c1dc036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:45 +0000
Subject: [PATCH 16/19] fix: reject a range proof with more than 256 siblings
 instead of panicking

---
 jmt/src/types/proof/definition.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jmt/src/types/proof/definition.rs b/jmt/src/types/proof/definition.rs
index 6f90e12..85ae1ed 100644
--- a/jmt/src/types/proof/definition.rs
+++ b/jmt/src/types/proof/definition.rs
@@ -269,6 +269,12 @@ impl SparseMerkleRangeProof {
         left_siblings: Vec<[u8; 32]>,
     ) -> Result<()> {
         let num_siblings = left_siblings.len() + self.right_siblings.len();
+        ensure!(
+            num_siblings <= 256,
+            "Sparse Merkle Tree range proof has more than {} ({}) siblings.",
+            256,
+            num_siblings,
+        );
         let mut left_sibling_iter = left_siblings.iter();
         let mut right_sibling_iter = self.right_siblings().iter();
 
-- 
2.43.0


From 5e652c5faaa13f98ab84fc4b6fb5790aa37fdd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:45 +0000
Subject: [PATCH 17/19] fix: recompute the root of an overlong proof without
 overflow

---
 jmt/src/types/proof/definition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jmt/src/types/proof/definition.rs b/jmt/src/types/proof/definition.rs
index 85ae1ed..e8a83da 100644
--- a/jmt/src/types/proof/definition.rs
+++ b/jmt/src/types/proof/definition.rs
@@ -196,7 +196,7 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
                     .0
                     .iter_bits()
                     .rev()
-                    .skip(256 - self.siblings.len()),
+                    .skip(256usize.saturating_sub(self.siblings.len())),
             )
             .fold(current_hash, |hash, (sibling_hash, bit)| {
                 if bit {
-- 
2.43.0


From d7bb3619ca9101cb2df7fa0f42b1acaff2fffe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:11 +0000
Subject: [PATCH 18/19] fix: a refused node batch leaves nothing behind in
 MockTreeStore

---
 jmt/src/mock.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/jmt/src/mock.rs b/jmt/src/mock.rs
index aefa2c9..347d332 100644
--- a/jmt/src/mock.rs
+++ b/jmt/src/mock.rs
@@ -132,6 +132,10 @@ impl HasPreimage for MockTreeStore {
 impl TreeWriter for MockTreeStore {
     fn write_node_batch(&self, node_batch: &NodeBatch) -> Result<()> {
         let mut locked = self.data.write();
+        // A batch is written as a whole or not at all.
+        for (version, key_hash) in node_batch.values().keys() {
+            check_value_order(&locked.value_history, (*version).into(), key_hash)?;
+        }
         for (node_key, node) in node_batch.nodes() {
             let replaced = locked.nodes.insert(node_key.clone(), node.clone());
             if !self.allow_overwrite {
@@ -150,6 +154,20 @@ impl TreeWriter for MockTreeStore {
     }
 }
 
+/// Checks that a value put at this version would not go backwards in the history of its key.
+fn check_value_order(
+    value_history: &HashMap<KeyHash, Vec<(crate::db::Version, Option<OwnedValue>)>>,
+    version: crate::db::Version,
+    key: &KeyHash,
+) -> Result<()> {
+    match value_history.get(key).and_then(|history| history.last()) {
+        Some((last_version, _)) if version < *last_version => {
+            bail!("values must be pushed in order")
+        }
+        _ => Ok(()),
+    }
+}
+
 /// Place a value into the provided value history map. Versions must be pushed in non-decreasing order per key.
 pub fn put_value(
     value_history: &mut HashMap<KeyHash, Vec<(crate::db::Version, Option<OwnedValue>)>>,
@@ -191,6 +209,7 @@ impl MockTreeStore {
         let key_hash = leaf.key_hash();
         let version = node_key.version();
         let mut locked = self.data.write();
+        check_value_order(&locked.value_history, version.into(), &key_hash)?;
         match locked.nodes.entry(node_key) {
             Entry::Occupied(o) => bail!("Key {:?} exists.", o.key()),
             Entry::Vacant(v) => {
-- 
2.43.0


From 540d8a3e8e6e19bcc0f89117ad27d6a46468ddcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:25 +0000
Subject: [PATCH 19/19] fix: a proof of uncommitted contents holds all nodes on
 the path

---
 pmt/src/inner.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 66f2c07..e62ed53 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -258,11 +258,15 @@ where
             _ => path.push(self.root.clone()),
         }
 
-        Ok(path
+        let mut proof: Vec<Vec<u8>> = path
             .into_iter()
             .rev()
             .map(|n| self.encode_raw(&n))
-            .collect())
+            .collect();
+        // except for the root, short nodes are part of the node above them
+        let mut is_root = true;
+        proof.retain(|n| std::mem::take(&mut is_root) || n.len() >= HASHED_LENGTH);
+        Ok(proof)
     }
 
     /// return value if key exists, None if key not exist, Error if proof is
@@ -703,7 +707,7 @@ where
                     Ok(vec![])
                 } else {
                     let node = &borrow_branch.children[partial.at(0)];
-                    self.get_path_at(node, path, path_index + 1)
+                    self.get_child_path_at(node, path, path_index + 1)
                 }
             }
             Node::Extension(ext) => {
@@ -713,7 +717,7 @@ where
                 let match_len = partial.common_prefix(prefix);
 
                 if match_len == prefix.len() {
-                    self.get_path_at(&borrow_ext.node, path, path_index + match_len)
+                    self.get_child_path_at(&borrow_ext.node, path, path_index + match_len)
                 } else {
                     Ok(vec![])
                 }
@@ -735,6 +739,20 @@ where
         }
     }
 
+    /// The path from a child on; a child that is not stored yet is a node of the path itself.
+    fn get_child_path_at(
+        &self,
+        child: &Node,
+        path: &Nibbles,
+        path_index: usize,
+    ) -> Result<Vec<Node>> {
+        let mut rest = self.get_path_at(child, path, path_index)?;
+        if !matches!(child, Node::Hash(_)) {
+            rest.push(child.clone());
+        }
+        Ok(rest)
+    }
+
     fn write_node(&mut self, to_encode: &Node) -> EncodedNode {
         // Returns the hash value directly to avoid double counting.
         if let Node::Hash(hash_node) = to_encode {
-- 
2.43.0

