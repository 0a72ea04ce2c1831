From 268ac2de3a356bd9cdc4f7bd4da5755a414cc2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:57 +0000
Subject: [PATCH 01/26] fix: scan_prefix of a prefix that ends exactly at a
 node returned wrong keys

---
 src/node/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index e5cfeb0..92382e3 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -1994,7 +1994,9 @@ fn scan_prefix<S: BlobStore + Clone>(
     find(&store, tree, prefix, |r| {
         Ok(match r {
             FindResult::Found(tree) => {
-                let prefix = IterKey::new(prefix);
+                // the iterator will append the prefix of the tree itself
+                let n = tree.load_prefix(&store)?.len();
+                let prefix = IterKey::new(&prefix[..prefix.len() - n]);
                 let tree: TreeNode<S> = tree.to_owned();
                 KeyValueIter::new(TreeNodeIter::from_arc(Arc::new(vec![tree])), store1, prefix)
             }
-- 
2.43.0


From 7d6fdb5280cf67f1339d35497a3975fcdca0a5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:57 +0000
Subject: [PATCH 02/26] fix: equality did not distinguish an absent from an
 empty value

---
 src/node/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 92382e3..524a3b8 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -669,6 +669,7 @@ pub struct TreeNode<S> {
 impl PartialEq for TreeNode<Detached> {
     fn eq(&self, other: &Self) -> bool {
         self.prefix_ref().slice() == other.prefix_ref().slice()
+            && self.has_value() == other.has_value()
             && self.value_ref().slice() == other.value_ref().slice()
             && self.get_children() == other.get_children()
     }
-- 
2.43.0


From f4aeaba5d06eab2e6380f3e962ab79038b5b95e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:57 +0000
Subject: [PATCH 03/26] fix: retain_prefix_with dropped entries selected by a
 longer prefix when the predicate rejects a shorter one

---
 src/node/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 524a3b8..5a0f734 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -2797,14 +2797,11 @@ where
         }
     } else if n == bp.len() {
         // that is a prefix of self
-        if b.value_opt().is_none() {
+        if b.value_opt().is_none() || !f(&b.value_opt().unwrap())? {
             a.split(&ab, n)?;
             let ac = a.load_children_mut(&ab)?;
             let bc = b.load_children(&bb)?;
             retain_prefix_children_with(ac, ab, bc, bb, f)?;
-        } else if !f(&b.value_opt().unwrap())? {
-            a.set_value_slice(None);
-            a.set_children_arc_opt(None);
         }
     } else if n == ap.len() {
         // self is a prefix of that
-- 
2.43.0


From be3104ed85c516d23122fe889e464b34b7e3cb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:57 +0000
Subject: [PATCH 04/26] fix: has_prefix with the empty prefix was true for the
 empty tree

---
 src/node/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 5a0f734..fc1300b 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -819,7 +819,8 @@ impl<S: BlobStore> TreeNode<S> {
         // if we find a tree at exactly the location, and it has a value, we have a hit
         find(store, &TreeNodeRef(Ok(self)), prefix, |r| {
             Ok(match r {
-                FindResult::Found(_) => true,
+                // only the root of an empty tree has neither a value nor children
+                FindResult::Found(_) => !self.is_empty(),
                 FindResult::Prefix { .. } => true,
                 FindResult::NotFound => false,
             })
-- 
2.43.0


From 24fcd3b88f137d7d7e2ae4451bfc289c7284df92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:57 +0000
Subject: [PATCH 05/26] fix: filter_prefix of an empty tree produced an empty
 tree with a prefix

---
 src/node/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index fc1300b..2ca188c 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -1422,6 +1422,13 @@ impl<'a, S: BlobStore> TreeNodeRef<'a, S> {
         }
     }
 
+    fn is_empty(&self) -> bool {
+        match self.dispatch() {
+            Ok(owned) => owned.is_empty(),
+            Err(borrowed) => borrowed.value_hdr.is_none() && borrowed.children_hdr.is_none(),
+        }
+    }
+
     fn clone_shortened(&self, store: &S, n: usize) -> Result<TreeNode<S>, S::Error> {
         match self.dispatch() {
             Ok(owned) => owned.clone_shortened(store, n),
@@ -1493,6 +1500,9 @@ fn filter_prefix<S: BlobStore>(
     prefix: &[u8],
     substitution: &[u8],
 ) -> Result<TreeNode<S>, S::Error> {
+    if node.is_empty() {
+        return Ok(TreeNode::EMPTY);
+    }
     find(store, node, prefix, |x| {
         Ok(match x {
             FindResult::Found(res) => {
-- 
2.43.0


From d17191513972d131c778bb696851204ee7518833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:20 +0000
Subject: [PATCH 06/26] fix: leaf nodes kept an empty child array, which broke
 equality and is_leaf and was leaked

---
 src/node/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 2ca188c..f3609cd 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -912,10 +912,12 @@ impl<S: BlobStore> TreeNode<S> {
             std::mem::swap(&mut self.children_hdr, &mut child.children_hdr);
             std::mem::swap(&mut self.children, &mut child.children);
         }
-        if !self.has_value() && self.child_count() == 0 {
-            self.set_prefix_owned(OwnedBlobRef::EMPTY);
-            self.children_hdr = Header::NONE;
-            self.children = ChildrenRef::EMPTY;
+        if self.child_count() == 0 {
+            // no children is always represented as none, never as an empty vec
+            self.set_children_arc_opt(None);
+            if !self.has_value() {
+                self.set_prefix_owned(OwnedBlobRef::EMPTY);
+            }
         }
     }
 
-- 
2.43.0


From b71195154277372deef7d5777d39d57122786b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 07/26] fix: canonicalize panicked or corrupted keys when
 children or long prefixes are still in the store

---
 src/node/mod.rs | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index f3609cd..38205ce 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -892,18 +892,15 @@ impl<S: BlobStore> TreeNode<S> {
         Ok(())
     }
 
-    fn canonicalize(&mut self) {
-        debug_assert!(self.children_hdr.is_data() || self.children_hdr.is_none());
+    fn canonicalize(&mut self, store: &S) -> Result<(), S::Error> {
         let cc = self.child_count();
         if !self.has_value() && cc == 1 {
+            let mut prefix = self.load_prefix(store)?.to_vec();
             let children = self.get_children_mut().expect("children must be loaded");
             let children = Arc::make_mut(children);
             let mut child = children.pop().unwrap();
-            debug_assert!(!self.prefix_ref().is_id(), "prefix must be loaded");
-            debug_assert!(!child.prefix_ref().is_id(), "child prefix must be loaded");
             // combine the prefix again
-            let mut prefix = self.prefix_ref().slice().to_vec();
-            prefix.extend_from_slice(child.prefix_ref().slice());
+            prefix.extend_from_slice(&child.load_prefix(store)?);
             self.set_prefix_slice(&prefix);
             // take value from child
             std::mem::swap(&mut self.value_hdr, &mut child.value_hdr);
@@ -919,6 +916,7 @@ impl<S: BlobStore> TreeNode<S> {
                 self.set_prefix_owned(OwnedBlobRef::EMPTY);
             }
         }
+        Ok(())
     }
 
     fn load_prefix(&self, store: &S) -> Result<Blob<'_>, S::Error> {
@@ -2089,7 +2087,7 @@ where
     res.set_prefix_slice(&ap[..n]);
     res.set_value(value);
     res.set_children_arc_opt(children);
-    res.canonicalize();
+    res.canonicalize(&Detached).unwrap_safe();
     Ok(res)
 }
 
@@ -2149,6 +2147,7 @@ where
     A::Error: From<B::Error>,
     F: Fn(&mut Value<A>, &ValueRef<B>) -> Result<(), A::Error> + Copy,
 {
+    let store = ab.clone();
     let ap = a.load_prefix(&ab)?;
     let bp = b.load_prefix(&bb)?;
     let n = common_prefix(ap.as_ref(), bp.as_ref());
@@ -2183,8 +2182,7 @@ where
         ac.push(c.convert_node_shortened(b, &bb, n)?);
         ac.sort_by_key(|x| x.first_prefix_byte());
     }
-    a.canonicalize();
-    Ok(())
+    a.canonicalize(&store)
 }
 
 fn outer_combine_children_with<'a, A, B, C, F>(
@@ -2295,7 +2293,7 @@ where
     res.set_prefix_slice(&ap[..n]);
     res.set_value(value);
     res.set_children_arc_opt(children);
-    res.canonicalize();
+    res.canonicalize(&Detached).unwrap_safe();
     Ok(res)
 }
 
@@ -2426,6 +2424,7 @@ where
     A::Error: From<B::Error>,
     F: Fn(&mut Value<A>, &ValueRef<B>) -> Result<(), A::Error> + Copy,
 {
+    let store = ab.clone();
     let ap = a.load_prefix(&ab)?;
     let bp = b.load_prefix(&bb)?;
     let n = common_prefix(ap.as_ref(), bp.as_ref());
@@ -2456,8 +2455,7 @@ where
         a.set_value_slice(None);
         a.set_children_arc_opt(None);
     }
-    a.canonicalize();
-    Ok(())
+    a.canonicalize(&store)
 }
 
 fn inner_combine_children_with<'a, A, B, C, F>(
@@ -2561,7 +2559,7 @@ where
     res.set_prefix_slice(&ap[..n]);
     res.set_value(value);
     res.set_children_arc_opt(children);
-    res.canonicalize();
+    res.canonicalize(&Detached).unwrap_safe();
     Ok(res)
 }
 
@@ -2703,6 +2701,7 @@ where
     A::Error: From<B::Error>,
     F: Fn(&mut Value<A>, &ValueRef<B>) -> Result<(), A::Error> + Copy,
 {
+    let store = ab.clone();
     let ap = a.load_prefix(&ab)?;
     let bp = b.load_prefix(&bb)?;
     let n = common_prefix(ap.as_ref(), bp.as_ref());
@@ -2731,8 +2730,7 @@ where
     } else {
         // the two nodes are disjoint
     }
-    a.canonicalize();
-    Ok(())
+    a.canonicalize(&store)
 }
 
 fn left_combine_children_with<'a, A, B, C, F>(
@@ -2797,6 +2795,7 @@ where
     F: Fn(&ValueRef<B>) -> Result<bool, A::Error> + Copy,
     A::Error: From<B::Error>,
 {
+    let store = ab.clone();
     let ap = a.load_prefix(&ab)?;
     let bp = b.load_prefix(&bb)?;
     let n = common_prefix(ap.as_ref(), bp.as_ref());
@@ -2827,8 +2826,7 @@ where
         a.set_value_slice(None);
         a.set_children_arc_opt(None);
     }
-    a.canonicalize();
-    Ok(())
+    a.canonicalize(&store)
 }
 
 fn retain_prefix_children_with<'a, A, B, F>(
@@ -2893,6 +2891,7 @@ where
     F: Fn(&ValueRef<B>) -> Result<bool, A::Error> + Copy,
     A::Error: From<B::Error>,
 {
+    let store = ab.clone();
     let ap = a.load_prefix(&ab)?;
     let bp = b.load_prefix(&bb)?;
     let n = common_prefix(ap.as_ref(), bp.as_ref());
@@ -2929,8 +2928,7 @@ where
     } else {
         // disjoint, nothing to do
     }
-    a.canonicalize();
-    Ok(())
+    a.canonicalize(&store)
 }
 
 fn remove_prefix_children_with<'a, A, B, F>(
-- 
2.43.0


From e3a36a90ca2677a56f4aad90466c22a89c33c5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 08/26] fix: bulk operations on attached trees ran into todo!()
 for stored values and nodes

---
 src/node/mod.rs | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 38205ce..cbc579e 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -478,14 +478,19 @@ impl<'a, S: BlobStore> ValueRef<'a, S> {
         }
     }
 
-    fn detached(&self, _store: &S) -> Result<Value, S::Error>
+    fn detached(&self, store: &S) -> Result<Value, S::Error>
     where
         S: BlobStore,
     {
-        if !self.is_id() {
+        if !self.is_id() || self.is_none() {
             Ok(unsafe { std::mem::transmute(self.to_owned()) })
         } else {
-            todo!()
+            let data = store.read(self.slice())?;
+            Ok(Value {
+                hdr: Header::data(data.len()),
+                data: CompactOwnedBlob::copy_from_slice(&data),
+                p: PhantomData,
+            })
         }
     }
 
@@ -1432,7 +1437,7 @@ impl<'a, S: BlobStore> TreeNodeRef<'a, S> {
     fn clone_shortened(&self, store: &S, n: usize) -> Result<TreeNode<S>, S::Error> {
         match self.dispatch() {
             Ok(owned) => owned.clone_shortened(store, n),
-            Err(_borrowed) => todo!(),
+            Err(borrowed) => borrowed.to_owned().clone_shortened(store, n),
         }
     }
 }
@@ -1868,16 +1873,28 @@ impl<S: BlobStore> BorrowedTreeNodeIter<S> {
     }
 
     #[allow(clippy::wrong_self_convention)]
-    fn to_owned(self) -> Option<Arc<Vec<TreeNode<S>>>> {
+    fn to_owned(mut self) -> Option<Arc<Vec<TreeNode<S>>>> {
         if self.is_empty() {
             None
         } else {
-            todo!()
+            let mut res = Vec::new();
+            while let Some(x) = self.next() {
+                res.push(x.to_owned());
+            }
+            Some(Arc::new(res))
         }
     }
 
-    fn detached(self, _store: &S) -> Result<Option<Arc<Vec<TreeNode<Detached>>>>, S::Error> {
-        Ok(if self.is_empty() { None } else { todo!() })
+    fn detached(mut self, store: &S) -> Result<Option<Arc<Vec<TreeNode<Detached>>>>, S::Error> {
+        Ok(if self.is_empty() {
+            None
+        } else {
+            let mut res = Vec::new();
+            while let Some(x) = self.next() {
+                res.push(x.detached(store)?);
+            }
+            Some(Arc::new(res))
+        })
     }
 
     fn is_empty(&self) -> bool {
-- 
2.43.0


From 529649b3f7e5e7fc5d439096c95e831907cb6e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:23 +0000
Subject: [PATCH 09/26] fix: a failing in-place operation lost entries of the
 tree

---
 src/node/mod.rs | 102 ++++++++++++++++++++++++++++++------------------
 1 file changed, 64 insertions(+), 38 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index cbc579e..13cea9e 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -3505,6 +3505,22 @@ impl<K: AsRef<[u8]>, V: AsRef<[u8]>> FromIterator<(K, V)> for RadixTree {
 }
 
 impl<S: BlobStore + Clone> RadixTree<S> {
+    /// Modify the root node, leaving the tree unchanged in case of an error
+    fn try_modify(
+        &mut self,
+        f: impl FnOnce(&mut TreeNode<S>, S) -> Result<(), S::Error>,
+    ) -> Result<(), S::Error> {
+        if is_no_store::<S>() {
+            // can not fail, so do it in place
+            f(&mut self.node, self.store.clone())
+        } else {
+            let mut node = self.node.clone();
+            f(&mut node, self.store.clone())?;
+            self.node = node;
+            Ok(())
+        }
+    }
+
     #[cfg_attr(feature = "custom-store", visibility::make(pub))]
     fn try_dump(&self) -> Result<(), S::Error> {
         self.node.dump(0, &self.store)
@@ -3643,14 +3659,16 @@ impl<S: BlobStore + Clone> RadixTree<S> {
         F: Fn(&mut Value<S>, &ValueRef<S2>) -> Result<(), S::Error> + Copy,
         S::Error: From<S2::Error> + From<NoError>,
     {
-        outer_combine_with(
-            &mut self.node,
-            self.store.clone(),
-            &TreeNodeRef::owned(&that.node),
-            that.store.clone(),
-            c,
-            f,
-        )
+        self.try_modify(|node, store| {
+            outer_combine_with(
+                node,
+                store,
+                &TreeNodeRef::owned(&that.node),
+                that.store.clone(),
+                c,
+                f,
+            )
+        })
     }
 
     #[cfg_attr(feature = "custom-store", visibility::make(pub))]
@@ -3685,14 +3703,16 @@ impl<S: BlobStore + Clone> RadixTree<S> {
         F: Fn(&mut Value<S>, &ValueRef<S2>) -> Result<(), S::Error> + Copy,
         S::Error: From<S2::Error> + From<NoError>,
     {
-        inner_combine_with(
-            &mut self.node,
-            self.store.clone(),
-            &TreeNodeRef::owned(&that.node),
-            that.store.clone(),
-            c,
-            f,
-        )
+        self.try_modify(|node, store| {
+            inner_combine_with(
+                node,
+                store,
+                &TreeNodeRef::owned(&that.node),
+                that.store.clone(),
+                c,
+                f,
+            )
+        })
     }
 
     #[cfg_attr(feature = "custom-store", visibility::make(pub))]
@@ -3759,14 +3779,16 @@ impl<S: BlobStore + Clone> RadixTree<S> {
         F: Fn(&mut Value<S>, &ValueRef<S2>) -> Result<(), S::Error> + Copy,
         S::Error: From<S2::Error> + From<NoError>,
     {
-        left_combine_with(
-            &mut self.node,
-            self.store.clone(),
-            &TreeNodeRef::owned(&that.node),
-            that.store.clone(),
-            c,
-            f,
-        )
+        self.try_modify(|node, store| {
+            left_combine_with(
+                node,
+                store,
+                &TreeNodeRef::owned(&that.node),
+                that.store.clone(),
+                c,
+                f,
+            )
+        })
     }
 
     #[cfg_attr(feature = "custom-store", visibility::make(pub))]
@@ -3776,13 +3798,15 @@ impl<S: BlobStore + Clone> RadixTree<S> {
         F: Fn(&ValueRef<S2>) -> Result<bool, S::Error> + Copy,
         S::Error: From<S2::Error> + From<NoError>,
     {
-        retain_prefix_with(
-            &mut self.node,
-            self.store.clone(),
-            &TreeNodeRef::owned(&that.node),
-            that.store.clone(),
-            f,
-        )
+        self.try_modify(|node, store| {
+            retain_prefix_with(
+                node,
+                store,
+                &TreeNodeRef::owned(&that.node),
+                that.store.clone(),
+                f,
+            )
+        })
     }
 
     #[cfg_attr(feature = "custom-store", visibility::make(pub))]
@@ -3792,13 +3816,15 @@ impl<S: BlobStore + Clone> RadixTree<S> {
         F: Fn(&ValueRef<S2>) -> Result<bool, S::Error> + Copy,
         S::Error: From<S2::Error> + From<NoError>,
     {
-        remove_prefix_with(
-            &mut self.node,
-            self.store.clone(),
-            &TreeNodeRef::owned(&that.node),
-            that.store.clone(),
-            f,
-        )
+        self.try_modify(|node, store| {
+            remove_prefix_with(
+                node,
+                store,
+                &TreeNodeRef::owned(&that.node),
+                that.store.clone(),
+                f,
+            )
+        })
     }
 
     #[cfg_attr(feature = "custom-store", visibility::make(pub))]
-- 
2.43.0


From 7254a6f35b7ca01bc8a99dc5bea9074d5ee0e0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:23 +0000
Subject: [PATCH 10/26] fix: PagedFileStore::read panicked for malformed or out
 of range ids

---
 src/store/paged_file_store.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index 74cf1a9..dc7df1f 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -198,6 +198,7 @@ impl Inner {
     }
 
     fn bytes(&mut self, offset: u64) -> anyhow::Result<OwnedBlob> {
+        anyhow::ensure!(offset >= 4 && offset <= self.last_id, "invalid id");
         let last_page = page(self.last_id, self.page_size);
         let page = page(offset - 1, self.page_size);
         let page_offset = offset_within_page(offset, self.page_size);
@@ -274,7 +275,7 @@ impl BlobStore for PagedFileStore {
     type Error = anyhow::Error;
 
     fn read(&self, id: &[u8]) -> anyhow::Result<OwnedBlob> {
-        let offset = u64::from_be_bytes(id.try_into().unwrap());
+        let offset = u64::from_be_bytes(id.try_into()?);
         self.0.lock().bytes(offset)
     }
 
-- 
2.43.0


From 6dd9aadd56f15b99792b56db37cb79706fe684ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:23 +0000
Subject: [PATCH 11/26] fix: PagedFileStore accepted a page size of 0 and
 panicked on the first write

---
 src/store/paged_file_store.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index dc7df1f..bc9384f 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -120,7 +120,7 @@ fn write_size(file: &mut File, size: u64) -> anyhow::Result<()> {
 
 impl Inner {
     pub fn new(mut file: File, page_size: u64) -> anyhow::Result<Self> {
-        anyhow::ensure!((page_size as usize) % ALIGN == 0);
+        anyhow::ensure!(page_size > 0 && (page_size as usize) % ALIGN == 0);
         let end = file.seek(std::io::SeekFrom::End(0))?;
         if end == 0 {
             // write header
-- 
2.43.0


From 3d9eb9d378131451b95b3f90fdb1c13b4b06ea80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:23 +0000
Subject: [PATCH 12/26] fix: PagedFileStore::sync did not persist anything

---
 src/store/paged_file_store.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index bc9384f..fa95ba8 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -285,6 +285,7 @@ impl BlobStore for PagedFileStore {
     }
 
     fn sync(&self) -> anyhow::Result<()> {
+        self.0.lock().file.sync_all()?;
         Ok(())
     }
 }
-- 
2.43.0


From ef6a0be9c662fb945b033cdb39e5b2917cdd5e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:23 +0000
Subject: [PATCH 13/26] fix: a crash after closing a page made last_id refer to
 padding instead of a block

---
 src/store/paged_file_store.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index fa95ba8..0c61881 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -175,8 +175,9 @@ impl Inner {
     fn close_page(&mut self, current_page: u64) -> anyhow::Result<()> {
         // println!("close_page page={} offset={}", current_page, self.file.stream_position()?);
         let start = offset_of_page(current_page, self.page_size);
+        // the padding gets committed together with the next block, committing it separately
+        // would make it look like the last block in case of a crash
         self.pad_to(start + (self.page_size as u64))?;
-        self.commit()?;
         self.load_page(current_page)?;
         self.recent
             .retain(|offset, _| page(*offset, self.page_size) != current_page);
-- 
2.43.0


From e2d666141bb1fcbf921812d2d222fe950a22fb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:19 +0000
Subject: [PATCH 14/26] fix: Blob::slice accepted an excluded start of
 usize::MAX in release builds

---
 src/store/blob_store.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/blob_store.rs b/src/store/blob_store.rs
index d6f6092..fcd2feb 100644
--- a/src/store/blob_store.rs
+++ b/src/store/blob_store.rs
@@ -129,7 +129,7 @@ impl<'a> Blob<'a> {
 
         let begin = match range.start_bound() {
             Bound::Included(&n) => n,
-            Bound::Excluded(&n) => n + 1,
+            Bound::Excluded(&n) => n.checked_add(1).expect("out of range"),
             Bound::Unbounded => 0,
         };
 
-- 
2.43.0


From dcd83ccb3641baaa8d89e9aa6d4eca283ddff720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:48 +0000
Subject: [PATCH 15/26] fix: browser PagingFile::append panicked or lost an
 item that fills an empty page

---
 browser/src/paging_file.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/browser/src/paging_file.rs b/browser/src/paging_file.rs
index 176241e..c3bfe86 100644
--- a/browser/src/paging_file.rs
+++ b/browser/src/paging_file.rs
@@ -79,7 +79,14 @@ impl PagingFileInner {
 
     fn append(&mut self, data: &[u8]) -> anyhow::Result<u64> {
         let len = u64::try_from(data.len())?;
-        anyhow::ensure!(len <= self.page_size, "item too large");
+        // the data must fit into an empty page, after the alignment of the base, without filling
+        // it to the end: the last page is the one that contains the end of the file
+        let next_page = page_range(self.length, self.page_size).end;
+        let aligned = align(next_page + 4, ALIGNMENT).end - 4;
+        anyhow::ensure!(
+            aligned - next_page + len < self.page_size,
+            "item too large"
+        );
         if len + 8 > self.remaining() {
             self.close_page()?;
         }
-- 
2.43.0


From a7a1979d2aba57748c4705a2567e5157ead5fd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:48 +0000
Subject: [PATCH 16/26] fix: browser PagingFile panicked for ids beyond the end
 of the file

---
 browser/src/paging_file.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/browser/src/paging_file.rs b/browser/src/paging_file.rs
index c3bfe86..ed83fb4 100644
--- a/browser/src/paging_file.rs
+++ b/browser/src/paging_file.rs
@@ -116,6 +116,7 @@ impl PagingFileInner {
 
     pub(crate) fn load_length_prefixed(&mut self, start: u64) -> anyhow::Result<OwnedBlob> {
         trace!("load_length_prefixed {}", start);
+        anyhow::ensure!(start < self.length, "invalid offset");
         let last_page = page_num(self.length, self.page_size);
         let page_num = page_num(start, self.page_size);
         // offset of start within its page
-- 
2.43.0


From 29e31a3a785a517d630eab6584a4d49b756056ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:48 +0000
Subject: [PATCH 17/26] fix: browser file length was taken from the last chunk,
 which need not be the end after an overwrite

---
 browser/src/web_cache_fs.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/browser/src/web_cache_fs.rs b/browser/src/web_cache_fs.rs
index a7997a2..ff566a3 100644
--- a/browser/src/web_cache_fs.rs
+++ b/browser/src/web_cache_fs.rs
@@ -322,14 +322,20 @@ impl WebCacheFile {
         self.chunks.iter().last().cloned().unwrap_or_default()
     }
 
+    /// end of the file
+    ///
+    /// chunks are ordered by level, so this is not necessarily the end of the last chunk
+    fn end(&self) -> u64 {
+        self.chunks.iter().map(|x| x.range().end).max().unwrap_or_default()
+    }
+
     pub(crate) async fn flush(&mut self) -> anyhow::Result<()> {
         // simple fs flushes after each op
         Ok(())
     }
 
     pub(crate) async fn append(&mut self, data: &mut Vec<u8>) -> anyhow::Result<u64> {
-        let prev = self.prev();
-        let offset = prev.range().end;
+        let offset = self.end();
         let plan = add(&self.chunks, offset, data.clone());
         execute_plan(&self.cache, &self.file_name, plan, &mut self.chunks).await?;
         Ok(offset)
@@ -379,7 +385,7 @@ impl WebCacheFile {
         let len_u64 = range.end.saturating_sub(range.start);
         let len: usize = len_u64.try_into()?;
         anyhow::ensure!(
-            range.end <= self.prev().range().end,
+            range.end <= self.end(),
             "tried to read beyond the end of the file"
         );
         let mut res = vec![0u8; len];
@@ -398,7 +404,7 @@ impl WebCacheFile {
     }
 
     pub(crate) async fn length(&mut self) -> anyhow::Result<u64> {
-        Ok(self.prev().range().end)
+        Ok(self.end())
     }
 
     pub(crate) async fn truncate(&mut self, offset: u64) -> anyhow::Result<()> {
-- 
2.43.0


From 656127effd4179b4f7ceff2636f915f660f5c9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:48 +0000
Subject: [PATCH 18/26] fix: browser file system thread panicked for a length
 prefix beyond the end of the file

---
 browser/src/web_cache_fs.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/browser/src/web_cache_fs.rs b/browser/src/web_cache_fs.rs
index ff566a3..f351ac3 100644
--- a/browser/src/web_cache_fs.rs
+++ b/browser/src/web_cache_fs.rs
@@ -371,9 +371,11 @@ impl WebCacheFile {
     pub(crate) async fn load_length_prefixed(&self, start: u64) -> anyhow::Result<OwnedBlob> {
         // info!("load_length_prefixed index={}", start);
         // let t0 = js_sys::Date::now();
-        let chunks = intersecting_chunks(&self.chunks, start..start + 4).collect::<Vec<_>>();
+        let start_end = start.checked_add(4).context("invalid offset")?;
+        let chunks = intersecting_chunks(&self.chunks, start..start_end).collect::<Vec<_>>();
         let end = chunks.iter().map(|x| x.range().end).max().unwrap_or(start);
         let res = self.load_chunks(start..end, chunks).await?;
+        anyhow::ensure!(res.len() >= 4);
         let len = usize::try_from(u32::from_be_bytes(res[0..4].try_into().unwrap()))?;
         anyhow::ensure!(res.len() >= len + 4);
         let res = Blob::copy_from_slice(&res[4..len + 4]);
-- 
2.43.0


From 84c6f3ea0a763062ced97b64afca5b935d6f184f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:48 +0000
Subject: [PATCH 19/26] fix: browser file system kept a deleted directory open,
 so later writes were lost

---
 browser/src/web_cache_fs.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/browser/src/web_cache_fs.rs b/browser/src/web_cache_fs.rs
index f351ac3..d15c83d 100644
--- a/browser/src/web_cache_fs.rs
+++ b/browser/src/web_cache_fs.rs
@@ -113,6 +113,7 @@ impl WebCacheFs {
     async fn delete_dir(&mut self, dir_name: SharedStr) -> anyhow::Result<bool> {
         let caches = worker_scope().caches().map_err(JsError::from)?;
         let res: JsValue = js_async(caches.delete(&dir_name)).await?;
+        self.dirs.remove(&dir_name);
         Ok(res.as_bool().context("no bool")?)
     }
 
-- 
2.43.0


From 96a2812a88a44c2c7e1e78052830d005eb6757a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:41 +0000
Subject: [PATCH 20/26] fix: refuse blobs whose length does not fit the length
 field of the paged file

---
 src/store/paged_file_store.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index 0c61881..2603c1f 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -230,6 +230,11 @@ impl Inner {
             data.len() <= (self.page_size as usize) - 8,
             "block too large for this store"
         );
+        // the length is stored as 4 bytes
+        anyhow::ensure!(
+            data.len() <= u32::MAX as usize,
+            "block too large for this store"
+        );
         // len of the data when stored, including length prefix
         let len = data.len() as u64 + 4;
         let position = self.file.seek(SeekFrom::End(0))?;
-- 
2.43.0


From bc7967f59eef02afb137383016b4362726efc05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:02 +0000
Subject: [PATCH 21/26] fix: read length prefixed data of browser files across
 all chunks that hold it

---
 browser/src/web_cache_fs.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/browser/src/web_cache_fs.rs b/browser/src/web_cache_fs.rs
index d15c83d..5d55aaa 100644
--- a/browser/src/web_cache_fs.rs
+++ b/browser/src/web_cache_fs.rs
@@ -373,12 +373,22 @@ impl WebCacheFile {
         // info!("load_length_prefixed index={}", start);
         // let t0 = js_sys::Date::now();
         let start_end = start.checked_add(4).context("invalid offset")?;
-        let chunks = intersecting_chunks(&self.chunks, start..start_end).collect::<Vec<_>>();
-        let end = chunks.iter().map(|x| x.range().end).max().unwrap_or(start);
-        let res = self.load_chunks(start..end, chunks).await?;
+        let end = intersecting_chunks(&self.chunks, start..start_end)
+            .map(|x| x.range().end)
+            .max()
+            .unwrap_or(start);
+        // all chunks that have to do with the range, other chunks might overlap the first one
+        let chunks = intersecting_chunks(&self.chunks, start..end);
+        let mut res = self.load_chunks(start..end, chunks).await?;
         anyhow::ensure!(res.len() >= 4);
         let len = usize::try_from(u32::from_be_bytes(res[0..4].try_into().unwrap()))?;
-        anyhow::ensure!(res.len() >= len + 4);
+        if res.len() < len + 4 {
+            // the data goes on in other chunks
+            let end = start_end
+                .checked_add(len.try_into()?)
+                .context("invalid length")?;
+            res = self.read(start..end).await?;
+        }
         let res = Blob::copy_from_slice(&res[4..len + 4]);
         // info!("load_length_prefixed {}", js_sys::Date::now() - t0);
         Ok(res)
-- 
2.43.0


From ab61d1e4daed1b3c8f9cfdc5e4fe898fb8cfda4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:37 +0000
Subject: [PATCH 22/26] fix: browser file names with characters special in urls
 lost their data on reopening

---
 browser/src/web_cache_fs.rs | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/browser/src/web_cache_fs.rs b/browser/src/web_cache_fs.rs
index 5d55aaa..36804e2 100644
--- a/browser/src/web_cache_fs.rs
+++ b/browser/src/web_cache_fs.rs
@@ -266,6 +266,22 @@ pub struct WebCacheDir {
     cache: web_sys::Cache,
 }
 
+/// path of a file in the cache, exactly as it appears in the url of a request
+///
+/// characters that would be changed by, or have a meaning in an url are percent encoded
+fn file_path(file_name: &str) -> String {
+    let mut path = "/".to_owned();
+    for (i, b) in file_name.bytes().enumerate() {
+        if b.is_ascii_alphanumeric() || b"-._~!$&'()*+,;=:@|[]".contains(&b) || (b == b'/' && i > 0)
+        {
+            path.push(b.into());
+        } else {
+            path.push_str(&format!("%{:02X}", b));
+        }
+    }
+    path
+}
+
 impl WebCacheDir {
     pub(crate) async fn new(dir_name: &str) -> anyhow::Result<Self> {
         let caches = worker_scope().caches().map_err(JsError::from)?;
@@ -274,6 +290,11 @@ impl WebCacheDir {
     }
 
     pub(crate) async fn open_file(&self, file_name: SharedStr) -> anyhow::Result<WebCacheFile> {
+        // these have a meaning in an url, even when they are percent encoded
+        anyhow::ensure!(
+            !file_name.split('/').any(|x| x == "." || x == ".."),
+            "invalid file name"
+        );
         WebCacheFile::new(self.cache.clone(), file_name).await
     }
 
@@ -285,7 +306,7 @@ impl WebCacheDir {
     pub(crate) async fn delete(&self, file_name: &str) -> anyhow::Result<bool> {
         let res: JsValue = js_async(
             self.cache.delete_with_str_and_options(
-                &format!("/{}", file_name),
+                &file_path(file_name),
                 CacheQueryOptions::new()
                     .ignore_method(true)
                     .ignore_search(true),
@@ -639,9 +660,8 @@ impl ChunkMeta {
         // info!("parse_and_filter {}", request);
         let url = Url::parse(request)?;
         if let Some(query) = url.query() {
-            let name = url.path().strip_prefix('/').unwrap();
-            // info!("parse_and_filter name {} file_name {}  query {}", name, file_name, query);
-            if name != file_name {
+            // info!("parse_and_filter path {} file_name {}  query {}", url.path(), file_name, query);
+            if url.path() != file_path(file_name) {
                 // not ours
                 Ok(None)
             } else {
@@ -656,8 +676,11 @@ impl ChunkMeta {
 
     fn to_request_str(&self, file_name: &str) -> String {
         format!(
-            "/{}?{:04x}-{:08x}-{:04x}",
-            file_name, self.level, self.offset, self.len
+            "{}?{:04x}-{:08x}-{:04x}",
+            file_path(file_name),
+            self.level,
+            self.offset,
+            self.len
         )
     }
 }
-- 
2.43.0


From 9ef53c7508d167cb21e70c2d30367fa10b2086bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:38 +0000
Subject: [PATCH 23/26] fix: PagedFileStore::read panicked on 32 bit targets
 for ids that lead to a large length

---
 src/store/paged_file_store.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index 2603c1f..ad43dbf 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -73,7 +73,7 @@ impl Page {
         let data = self.0.mmap.as_ref();
         anyhow::ensure!(offset >= 4);
         let length = u32::from_be_bytes(data[offset - 4..offset].try_into().unwrap()) as usize;
-        anyhow::ensure!(offset >= length + 4);
+        anyhow::ensure!(offset - 4 >= length);
         let slice: &[u8] = &data[offset - 4 - length..offset - 4];
         let slice: &'static [u8] = unsafe { std::mem::transmute(slice) };
         Ok(OwnedBlob::owned_new(slice, Some(self.0.clone())))
-- 
2.43.0


From 8a78e16a9f0ac312b77f2544159306d588a98db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:49 +0000
Subject: [PATCH 24/26] fix: browser: large length prefixes overflowed on 32
 bit targets and panicked

---
 browser/src/paging_file.rs  | 2 +-
 browser/src/web_cache_fs.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/browser/src/paging_file.rs b/browser/src/paging_file.rs
index ed83fb4..9664088 100644
--- a/browser/src/paging_file.rs
+++ b/browser/src/paging_file.rs
@@ -140,7 +140,7 @@ impl PagingFileInner {
 
         anyhow::ensure!(offset + 4 <= page.len());
         let length = u32::from_be_bytes(page[offset..offset + 4].try_into().unwrap()) as usize;
-        anyhow::ensure!(offset + 4 + length <= page.len());
+        anyhow::ensure!(length <= page.len() - offset - 4);
         Ok(page.slice(offset + 4..offset + 4 + length))
     }
 }
diff --git a/browser/src/web_cache_fs.rs b/browser/src/web_cache_fs.rs
index 36804e2..5618e5a 100644
--- a/browser/src/web_cache_fs.rs
+++ b/browser/src/web_cache_fs.rs
@@ -403,7 +403,7 @@ impl WebCacheFile {
         let mut res = self.load_chunks(start..end, chunks).await?;
         anyhow::ensure!(res.len() >= 4);
         let len = usize::try_from(u32::from_be_bytes(res[0..4].try_into().unwrap()))?;
-        if res.len() < len + 4 {
+        if res.len() - 4 < len {
             // the data goes on in other chunks
             let end = start_end
                 .checked_add(len.try_into()?)
-- 
2.43.0


From 48e308aa4827ba661afb39021515a0f56bc51f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:11 +0000
Subject: [PATCH 25/26] fix: PagedFileStore returned wrong data for pages that
 can not be mapped on 32 bit targets

---
 src/store/paged_file_store.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index ad43dbf..35f340e 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -103,6 +103,12 @@ fn offset_of_page(page: u64, page_size: u64) -> u64 {
     page * page_size + HEADER_SIZE
 }
 
+/// memmap passes the offset on as a signed word, which would be truncated on 32 bit
+fn ensure_mappable(start: u64) -> anyhow::Result<()> {
+    anyhow::ensure!(isize::try_from(start).is_ok(), "page can not be mapped");
+    Ok(())
+}
+
 fn read_size(file: &mut File) -> anyhow::Result<u64> {
     let mut buf = [0u8; 8];
     file.seek(SeekFrom::Start(16))?;
@@ -120,7 +126,9 @@ fn write_size(file: &mut File, size: u64) -> anyhow::Result<()> {
 
 impl Inner {
     pub fn new(mut file: File, page_size: u64) -> anyhow::Result<Self> {
-        anyhow::ensure!(page_size > 0 && (page_size as usize) % ALIGN == 0);
+        // a page must fit into memory
+        let page_size_usize = usize::try_from(page_size)?;
+        anyhow::ensure!(page_size > 0 && page_size_usize % ALIGN == 0);
         let end = file.seek(std::io::SeekFrom::End(0))?;
         if end == 0 {
             // write header
@@ -144,6 +152,7 @@ impl Inner {
 
     fn load_page(&mut self, page: u64) -> anyhow::Result<()> {
         let start = offset_of_page(page, self.page_size);
+        ensure_mappable(start)?;
         let mmap = unsafe {
             MmapOptions::new()
                 .offset(start)
@@ -246,6 +255,8 @@ impl Inner {
         let end = offset + len;
         let current_page = page(offset, self.page_size);
         let end_page = page(end, self.page_size);
+        // later reads will need to map the page
+        ensure_mappable(offset_of_page(end_page, self.page_size))?;
         // check if we cross a page boundary
         if end_page != current_page {
             self.close_page(current_page)?;
-- 
2.43.0


From 3f92190f7eacfe78a3d062e959c8ac00ec16f29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:11 +0000
Subject: [PATCH 26/26] fix: did not compile with only some of the features

---
 src/store/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/mod.rs b/src/store/mod.rs
index c8aeacc..3e0e1d4 100644
--- a/src/store/mod.rs
+++ b/src/store/mod.rs
@@ -5,7 +5,7 @@ mod blob;
 pub(crate) mod blob_store;
 #[cfg(feature = "mem-store")]
 mod mem_store;
-#[cfg(all(not(target_arch = "wasm32"), feature = "custom-store"))]
+#[cfg(all(not(target_arch = "wasm32"), feature = "paged-file-store"))]
 mod paged_file_store;
 
 #[cfg(feature = "custom-store")]
-- 
2.43.0

