From cbf55079ceae16ec37ede7937e686b42e583d1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:12 +0000
Subject: [PATCH 01/20] fix: validate proofs with the node heights the tree was
 built with

---
 src/proof.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/proof.rs b/src/proof.rs
index 2a56d9a..a5376d7 100644
--- a/src/proof.rs
+++ b/src/proof.rs
@@ -119,7 +119,8 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
                 return Ok(false);
             }
 
-            a.multi_node(&nodes, 0)
+            // same height as used when building the compound tree
+            a.multi_node(&nodes, 1)
         };
 
         Ok(h == self.root())
@@ -187,7 +188,8 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
                 }
 
                 path_index += 1;
-                a.multi_node(&nodes, i - 1)
+                // the level being hashed, as used when building the tree
+                a.multi_node(&nodes, path_index - 2)
             };
         }
 
-- 
2.43.0


From 179f601cd8e406618530ba595b68f55b8f959dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:12 +0000
Subject: [PATCH 02/20] fix: Proof::item returns the leaf for compound proofs

---
 src/proof.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/proof.rs b/src/proof.rs
index a5376d7..3e9eb6d 100644
--- a/src/proof.rs
+++ b/src/proof.rs
@@ -60,6 +60,11 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
 
     /// Return proof target leaf
     pub fn item(&self) -> T {
+        // The leaf of a compound proof is the one of its base layer proof.
+        if let Some(sub_tree_proof) = &self.sub_tree_proof {
+            return sub_tree_proof.item();
+        }
+
         self.lemma
             .first()
             .expect("[item] requested element is empty")
-- 
2.43.0


From 56a1cefd21cef872b056787ef259845b41ba91d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:12 +0000
Subject: [PATCH 03/20] fix: try_from_iter_with_config returns the iterator's
 error instead of panicking

---
 src/merkle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/merkle.rs b/src/merkle.rs
index ba17492..5543d8b 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1799,7 +1799,7 @@ impl<
         }
 
         populate_data::<E, A, S, BaseTreeArity, I>(&mut data, iter)
-            .expect("failed to populate data");
+            .context("failed to populate data")?;
         let root = S::build::<A, BaseTreeArity>(&mut data, leafs, row_count, Some(config))?;
 
         Ok(MerkleTree {
-- 
2.43.0


From be2487b17ae5cc44e1da93a6ac6868fde51ec1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:12 +0000
Subject: [PATCH 04/20] fix: get_merkle_tree_leafs rejects even lengths for
 binary trees

---
 src/merkle.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index 5543d8b..f0b3d50 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1969,6 +1969,10 @@ pub fn get_merkle_tree_leafs(len: usize, branches: usize) -> Result<usize> {
     let leafs = {
         // Optimization:
         if branches == 2 {
+            ensure!(
+                len % 2 == 1,
+                "Invalid tree length provided for the specified arity"
+            );
             (len >> 1) + 1
         } else {
             let mut leafs = 1;
-- 
2.43.0


From 677204daccb682aea82dd580179be8f6cb6d050d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:32 +0000
Subject: [PATCH 05/20] fix: out of range leaf index on a compound tree is an
 error, not a panic

---
 src/merkle.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index f0b3d50..bb1df51 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -866,6 +866,12 @@ impl<
         arity: usize,
     ) -> Result<Proof<E, BaseTreeArity>> {
         ensure!(arity != 0, "Invalid sub-tree arity");
+        ensure!(
+            i < self.leafs,
+            "{} is out of bounds (max: {})",
+            i,
+            self.leafs
+        ); // i in [0 .. self.leafs)
 
         // Locate the sub-tree the leaf is contained in.
         let tree_index = i / (self.leafs / arity);
@@ -1437,6 +1443,12 @@ impl<
                     TopTreeArity::to_usize() == sub_trees.len(),
                     "Top layer tree shape mis-match"
                 );
+                ensure!(
+                    i < self.leafs,
+                    "{} is out of bounds (max: {})",
+                    i,
+                    self.leafs
+                ); // i in [0 .. self.leafs)
                 let tree_index = i / (self.leafs / TopTreeArity::to_usize());
                 let tree = &sub_trees[tree_index];
                 let tree_leafs = tree.leafs();
@@ -1452,6 +1464,12 @@ impl<
                     SubTreeArity::to_usize() == base_trees.len(),
                     "Sub-tree shape mis-match"
                 );
+                ensure!(
+                    i < self.leafs,
+                    "{} is out of bounds (max: {})",
+                    i,
+                    self.leafs
+                ); // i in [0 .. self.leafs)
                 let tree_index = i / (self.leafs / SubTreeArity::to_usize());
                 let tree = &base_trees[tree_index];
                 let tree_leafs = tree.leafs();
-- 
2.43.0


From 06fa26806eae18d0f562a28aadcf4df7529893b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:32 +0000
Subject: [PATCH 06/20] fix: DiskStore::compact updates the cached store size

---
 src/store/disk.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/store/disk.rs b/src/store/disk.rs
index 592c2ec..4c54d6e 100644
--- a/src/store/disk.rs
+++ b/src/store/disk.rs
@@ -284,6 +284,7 @@ impl<E: Element> Store<E> for DiskStore<E> {
             self.len * self.elem_len == store_size,
             "Inconsistent metadata detected"
         );
+        self.store_size = store_size;
 
         Ok(true)
     }
-- 
2.43.0


From b5946c6cc33f95b8f050aa2e7b1d0e2d72c9c154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:32 +0000
Subject: [PATCH 07/20] fix: Proof::validate rejects proofs of inconsistent
 shape

---
 src/proof.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/proof.rs b/src/proof.rs
index 3e9eb6d..93b992a 100644
--- a/src/proof.rs
+++ b/src/proof.rs
@@ -99,6 +99,12 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
             return Ok(valid);
         }
 
+        // The layer proof consists of one path element and, besides the
+        // root, of every other root of the layer.
+        if self.path().len() != 1 || self.lemma().len() != arity {
+            return Ok(false);
+        }
+
         // Validate top-most/current layer
         //
         // Check that the remaining proof matches the tree root (note
@@ -170,6 +176,10 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
         }
 
         let branches = BaseTreeArity::to_usize();
+        if size != get_merkle_proof_lemma_len(self.path.len() + 1, branches) {
+            return Ok(false);
+        }
+
         let mut a = A::default();
         let mut h = self.item();
         let mut path_index = 1;
-- 
2.43.0


From 5b97f394de8b64cb4fa16596d616de3b5a866677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:02 +0000
Subject: [PATCH 08/20] fix: LevelCacheStore rejects reads that reach into
 discarded rows

---
 src/store/level_cache.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index 8275fef..8f18f19 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -703,15 +703,23 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
         Ok(store_size == cache_size)
     }
 
+    // Whether the byte range lies in the base layer or in the cached
+    // data.  A range reaching out of the base layer is only backed by
+    // contiguous data if nothing was discarded and all data is on disk.
+    fn is_range_available(&self, start: usize, end: usize) -> bool {
+        let base_end = self.data_width * self.elem_len;
+
+        start >= self.cache_index_start
+            || end <= base_end
+            || (self.cache_index_start == base_end && self.reader.is_none())
+    }
+
     pub fn store_read_range(&self, start: usize, end: usize) -> Result<Vec<u8>> {
         let read_len = end - start;
         let mut read_data = vec![0; read_len];
         let mut adjusted_start = start;
 
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "out of bounds"
-        );
+        ensure!(self.is_range_available(start, end), "out of bounds");
 
         // If an external reader was specified for the base layer, use it.
         if start < self.data_width * self.elem_len && self.reader.is_some() {
@@ -810,10 +818,7 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
     }
 
     pub fn store_read_into(&self, start: usize, end: usize, buf: &mut [u8]) -> Result<()> {
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "Invalid read start"
-        );
+        ensure!(self.is_range_available(start, end), "Invalid read range");
 
         // If an external reader was specified for the base layer, use it.
         if start < self.data_width * self.elem_len && self.reader.is_some() {
-- 
2.43.0


From 45f1aec67d333eb57e7386e4a20c0e4a923e2d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:02 +0000
Subject: [PATCH 09/20] fix: from_sub_tree_store_configs* reject config counts
 not matching the top arity

---
 src/merkle.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index bb1df51..0428859 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -292,6 +292,14 @@ impl<
         );
 
         let sub_tree_count = TopTreeArity::to_usize();
+        ensure!(
+            sub_tree_count > 0,
+            "Cannot use from_sub_tree_store_configs_and_replica if not constructing a structure with sub-trees"
+        );
+        ensure!(
+            configs.len() % sub_tree_count == 0,
+            "Number of configs must be a multiple of the number of top layer nodes"
+        );
 
         let mut start = 0;
         let mut end = configs.len() / sub_tree_count;
@@ -805,6 +813,14 @@ impl<
         configs: &[StoreConfig],
     ) -> Result<MerkleTree<E, A, S, BaseTreeArity, SubTreeArity, TopTreeArity>> {
         let tree_count = TopTreeArity::to_usize();
+        ensure!(
+            tree_count > 0,
+            "Cannot use from_sub_tree_store_configs if not constructing a structure with sub-trees"
+        );
+        ensure!(
+            configs.len() % tree_count == 0,
+            "Number of configs must be a multiple of the number of top layer nodes"
+        );
 
         let mut start = 0;
         let mut end = configs.len() / tree_count;
-- 
2.43.0


From 6bee1b21d10eeab6cef7a106c5fa116b1db156cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:40 +0000
Subject: [PATCH 10/20] fix: VecStore::new_from_slice rejects partial elements
 like the other stores

---
 src/store/vec.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/store/vec.rs b/src/store/vec.rs
index 9bf42a1..08c5da4 100644
--- a/src/store/vec.rs
+++ b/src/store/vec.rs
@@ -68,6 +68,12 @@ impl<E: Element> Store<E> for VecStore<E> {
     }
 
     fn new_from_slice(size: usize, data: &[u8]) -> Result<Self> {
+        ensure!(
+            data.len() % E::byte_len() == 0,
+            "data size must be a multiple of {}",
+            E::byte_len()
+        );
+
         let mut v: Vec<_> = data
             .chunks_exact(E::byte_len())
             .map(E::from_slice)
-- 
2.43.0


From 524ac95a022444128e6962b32cfd35d693ec00fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:40 +0000
Subject: [PATCH 11/20] fix: from_slices_with_configs rejects mismatched slices
 and configs

---
 src/merkle.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index 0428859..f018358 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -743,6 +743,10 @@ impl<
         leafs: usize,
         configs: &[StoreConfig],
     ) -> Result<MerkleTree<E, A, S, BaseTreeArity, SubTreeArity, TopTreeArity>> {
+        ensure!(
+            tree_data.len() == configs.len(),
+            "Number of slices and configs MUST match"
+        );
         let mut trees = Vec::with_capacity(tree_data.len());
         for i in 0..tree_data.len() {
             trees.push(
-- 
2.43.0


From 711a0669d2d1f14018ee9fd07ba5349c1db57e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:36 +0000
Subject: [PATCH 12/20] fix: MmapStore rejects writes beyond its capacity
 instead of panicking

---
 src/store/mmap.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/store/mmap.rs b/src/store/mmap.rs
index b2abbd3..b1a7370 100644
--- a/src/store/mmap.rs
+++ b/src/store/mmap.rs
@@ -120,7 +120,14 @@ impl<E: Element> Store<E> for MmapStore<E> {
         }
 
         //unwrap is safe as we checked map to be initialised
-        self.map.as_mut().unwrap()[start..end].copy_from_slice(el.as_ref());
+        let map = self.map.as_mut().unwrap();
+        ensure!(
+            end <= map.len(),
+            "Requested to write out of bounds (offset: {}, capacity: {})",
+            end,
+            map.len()
+        );
+        map[start..end].copy_from_slice(el.as_ref());
         self.len = std::cmp::max(self.len, index + 1);
 
         Ok(())
@@ -141,7 +148,14 @@ impl<E: Element> Store<E> for MmapStore<E> {
         }
 
         // unwrap is safe as we checked map to be initialised
-        self.map.as_mut().unwrap()[map_start..map_end].copy_from_slice(buf);
+        let map = self.map.as_mut().unwrap();
+        ensure!(
+            map_end <= map.len(),
+            "Requested to write out of bounds (offset: {}, capacity: {})",
+            map_end,
+            map.len()
+        );
+        map[map_start..map_end].copy_from_slice(buf);
         self.len = std::cmp::max(self.len, start + (buf.len() / E::byte_len()));
 
         Ok(())
-- 
2.43.0


From fc94e43d7654f6d3aa75bc0d568c8a7a190caef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:36 +0000
Subject: [PATCH 13/20] fix: gen_cached_proof uses the rows_to_discard it is
 given whenever the tree has that many rows

---
 src/merkle.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/merkle.rs b/src/merkle.rs
index f018358..c553e9f 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1164,10 +1164,7 @@ impl<
                 // primarily affects tests because it only affects 'small' trees, entirely outside the
                 // scope of any 'production' tree width.
                 let rows_to_discard = if let Some(rows) = rows_to_discard {
-                    std::cmp::min(
-                        rows,
-                        StoreConfig::default_rows_to_discard(self.leafs, branches),
-                    )
+                    std::cmp::min(rows, self.row_count.saturating_sub(2))
                 } else {
                     StoreConfig::default_rows_to_discard(self.leafs, branches)
                 };
-- 
2.43.0


From dab36fae39c119d6ded1240ce655c9fc44934cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:04 +0000
Subject: [PATCH 14/20] fix: validating a proof with a top layer but no
 sub-tree layer count does not panic

---
 src/proof.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/proof.rs b/src/proof.rs
index 93b992a..d7f1682 100644
--- a/src/proof.rs
+++ b/src/proof.rs
@@ -90,11 +90,11 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
     fn validate_sub_tree_proof<A: Algorithm<T>>(&self, arity: usize) -> Result<bool> {
         // Ensure that the sub_tree validates to the root of that
         // sub_tree.
-        let valid = self
+        let sub_tree_proof = self
             .sub_tree_proof
             .as_ref()
-            .expect("[validate_sub_tree_proof] couldn't get sub_tree_proof value")
-            .validate::<A>()?;
+            .expect("[validate_sub_tree_proof] couldn't get sub_tree_proof value");
+        let valid = sub_tree_proof.validate::<A>()?;
         if !valid {
             return Ok(valid);
         }
@@ -119,7 +119,7 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
             let mut cur_index = 0;
             for j in 0..node_count {
                 if j == self.path()[0] {
-                    nodes.push(self.sub_tree_root().clone());
+                    nodes.push(sub_tree_proof.root());
                 } else {
                     nodes.push(self.lemma()[cur_index].clone());
                     cur_index += 1;
-- 
2.43.0


From 7b05f3e5ab653f526f42f98dcdd83ea1e8cd6f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:24 +0000
Subject: [PATCH 15/20] fix: validate_with_data rejects proofs without a leaf
 instead of panicking

---
 src/proof.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/proof.rs b/src/proof.rs
index d7f1682..ceace44 100644
--- a/src/proof.rs
+++ b/src/proof.rs
@@ -60,17 +60,20 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
 
     /// Return proof target leaf
     pub fn item(&self) -> T {
-        // The leaf of a compound proof is the one of its base layer proof.
-        if let Some(sub_tree_proof) = &self.sub_tree_proof {
-            return sub_tree_proof.item();
-        }
-
-        self.lemma
-            .first()
+        self.leaf()
             .expect("[item] requested element is empty")
             .clone()
     }
 
+    /// The leaf of a proof (of a compound proof the one of its base layer
+    /// proof), if there is one.
+    fn leaf(&self) -> Option<&T> {
+        match &self.sub_tree_proof {
+            Some(sub_tree_proof) => sub_tree_proof.leaf(),
+            None => self.lemma.first(),
+        }
+    }
+
     /// Return sub tree root
     pub fn sub_tree_root(&self) -> T {
         assert!(self.sub_tree_layer_nodes > 0 && self.sub_tree_proof.is_some());
@@ -219,10 +222,9 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
         a.reset();
         let leaf_hash = a.leaf(item);
 
-        if leaf_hash == self.item() {
-            self.validate::<A>()
-        } else {
-            Ok(false)
+        match self.leaf() {
+            Some(item) if leaf_hash == *item => self.validate::<A>(),
+            _ => Ok(false),
         }
     }
 
-- 
2.43.0


From a7a87de6e9f62bbd7b5bea90dcb5d1f7a7d33edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:58 +0000
Subject: [PATCH 16/20] fix: LevelCacheStore tells the on-disk format by the
 file size, not by the presence of a reader

---
 src/store/level_cache.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index 8f18f19..f31d101 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -627,6 +627,7 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
         ensure!(written == store_size - len, "Failed to copy all data");
 
         self.file.set_len(written)?;
+        self.store_size = written as usize;
 
         Ok(())
     }
@@ -703,12 +704,23 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
         Ok(store_size == cache_size)
     }
 
+    // Whether the file holds the base layer in front of the cached data
+    // (v1), or only the cached data (v2).
+    fn has_base_layer(&self) -> bool {
+        self.store_size >= self.data_width * self.elem_len
+    }
+
     // Whether the byte range lies in the base layer or in the cached
     // data.  A range reaching out of the base layer is only backed by
     // contiguous data if nothing was discarded and all data is on disk.
+    // Without an external reader the base layer has to be in the file.
     fn is_range_available(&self, start: usize, end: usize) -> bool {
         let base_end = self.data_width * self.elem_len;
 
+        if start < base_end && self.reader.is_none() && !self.has_base_layer() {
+            return false;
+        }
+
         start >= self.cache_index_start
             || end <= base_end
             || (self.cache_index_start == base_end && self.reader.is_none())
@@ -741,7 +753,7 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
         // Adjust read index if in the cached ranged to be shifted
         // over since the data stored is compacted.
         if start >= self.cache_index_start {
-            let v1 = self.reader.is_none();
+            let v1 = self.has_base_layer();
             adjusted_start = if v1 {
                 start - self.cache_index_start + (self.data_width * self.elem_len)
             } else {
@@ -837,7 +849,7 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
             // Adjust read index if in the cached ranged to be shifted
             // over since the data stored is compacted.
             let adjusted_start = if start >= self.cache_index_start {
-                if self.reader.is_none() {
+                if self.has_base_layer() {
                     // if v1
                     start - self.cache_index_start + (self.data_width * self.elem_len)
                 } else {
-- 
2.43.0


From bfaae3c55b17cca4ac4d2f40344fc6df5b45ebd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:22 +0000
Subject: [PATCH 17/20] fix: from_trees refuses to build a structure with a top
 layer out of base trees

---
 src/merkle.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index c553e9f..e8b1d30 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -529,6 +529,10 @@ impl<
             SubTreeArity::to_usize() > 0,
             "Cannot use from_trees if not constructing a structure with sub-trees"
         );
+        ensure!(
+            TopTreeArity::to_usize() == 0,
+            "Cannot use from_trees if constructing a structure with a top layer"
+        );
         ensure!(
             trees
                 .iter()
-- 
2.43.0


From ecff496ba65bceafc6cad7bda804b87c607a8801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:57 +0000
Subject: [PATCH 18/20] fix: tree construction with a config checks the leaf
 count against the arity before it looks at existing files

---
 src/merkle.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index e8b1d30..7eb18d8 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1702,6 +1702,10 @@ impl<
             next_pow2(branches) == branches,
             "branches MUST be a power of 2"
         );
+        ensure!(
+            is_merkle_tree_size_valid(leafs, branches),
+            "MerkleTree size is invalid given the arity"
+        );
 
         let size = get_merkle_tree_len(leafs, branches)?;
         let row_count = get_merkle_tree_row_count(leafs, branches);
@@ -1811,6 +1815,10 @@ impl<
             next_pow2(branches) == branches,
             "branches MUST be a power of 2"
         );
+        ensure!(
+            is_merkle_tree_size_valid(leafs, branches),
+            "MerkleTree size is invalid given the arity"
+        );
 
         let size = get_merkle_tree_len(leafs, branches)?;
         let row_count = get_merkle_tree_row_count(leafs, branches);
-- 
2.43.0


From f5cfa51045f7eeaa6bc8d6fc3b106f4720edb48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:59 +0000
Subject: [PATCH 19/20] fix: parallel iterators over store parts are done after
 a failed read

---
 src/store/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/mod.rs b/src/store/mod.rs
index 4e6aae7..e0d91b4 100644
--- a/src/store/mod.rs
+++ b/src/store/mod.rs
@@ -571,7 +571,7 @@ macro_rules! impl_parallel_iter {
 
         impl<'data, E: 'data + Element> $iter<'data, E> {
             fn is_done(&self) -> bool {
-                !self.err && self.len() == 0
+                self.err || self.len() == 0
             }
         }
 
-- 
2.43.0


From df548da2e1427514baf4b63013f10772a85d9ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:04 +0000
Subject: [PATCH 20/20] fix: tree row count of large arities is an integer
 logarithm

---
 src/merkle.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/merkle.rs b/src/merkle.rs
index 7eb18d8..391498f 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1994,7 +1994,15 @@ pub fn get_merkle_tree_row_count(leafs: usize, branches: usize) -> usize {
     if branches == 2 {
         (leafs * branches).trailing_zeros() as usize
     } else {
-        (branches as f64 * leafs as f64).log(branches as f64) as usize
+        // An integer logarithm, as a floating point one falls below the exact
+        // value for some powers of large branches.
+        let mut row_count = 0;
+        let mut row_len = leafs;
+        while row_len > 0 {
+            row_count += 1;
+            row_len = if branches > 1 { row_len / branches } else { 0 };
+        }
+        row_count
     }
 }
 
-- 
2.43.0

