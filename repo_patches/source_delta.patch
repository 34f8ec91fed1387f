From 57714a29c365f4fdfca4d0ae987b8b690b742b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:04 +0000
Subject: [PATCH 01/10] fix: restore the tree when packing fails

pack replaced the root by the packed part before collecting and re-appending
the remainder. When that failed (a block of the remainder missing or purged, or
a failing write), the error was returned with the remainder cut off.
---
 banyan/src/tree.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/banyan/src/tree.rs b/banyan/src/tree.rs
index 13dc0b4..172a971 100644
--- a/banyan/src/tree.rs
+++ b/banyan/src/tree.rs
@@ -532,13 +532,16 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>, W: BlockWriter<T::Link>> Transacti
     pub fn pack<V: BanyanValue>(&mut self, tree: &mut StreamBuilder<T, V>) -> Result<()> {
         let initial = tree.snapshot();
         let roots = self.roots(tree)?;
-        self.tree_from_roots(roots, tree)?;
+        // restore the initial tree unless all of the following steps succeed
+        let mut tree = tree.transaction();
+        self.tree_from_roots(roots, &mut tree)?;
         let remainder: Vec<_> = self
             .collect_from(&initial, tree.count())?
             .into_iter()
             .collect::<Option<Vec<_>>>()
             .ok_or_else(|| anyhow::anyhow!("found purged data"))?;
-        self.extend(tree, remainder)?;
+        self.extend(&mut tree, remainder)?;
+        tree.commit();
         Ok(())
     }
 
-- 
2.43.0


From 625d90afd56c13809e64d47c53e8332d87b9b758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:27 +0000
Subject: [PATCH 02/10] fix: keep a branch at the root when packing leaves a
 single leaf

Packing a tree that consists of one sealed leaf made that leaf the root, so the
link of the packed tree pointed to a leaf block and could not be loaded.
---
 banyan/src/forest/write.rs | 2 +-
 banyan/src/tree.rs         | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/banyan/src/forest/write.rs b/banyan/src/forest/write.rs
index 49ce165..38c4a11 100644
--- a/banyan/src/forest/write.rs
+++ b/banyan/src/forest/write.rs
@@ -181,7 +181,7 @@ where
     /// creates a new branch from the given children and returns the branch index as a result.
     ///
     /// The level will be the max level of the children + 1. We do not want to support branches that are artificially high.
-    fn new_branch(
+    pub(crate) fn new_branch(
         &mut self,
         children: &[Index<T>],
         stream: &mut StreamBuilderState,
diff --git a/banyan/src/tree.rs b/banyan/src/tree.rs
index 172a971..1a45eef 100644
--- a/banyan/src/tree.rs
+++ b/banyan/src/tree.rs
@@ -2,8 +2,8 @@
 use super::index::*;
 use crate::{
     forest::{
-        ChunkVisitor, Config, FilteredChunk, Forest, IndexIter, Secrets, Transaction, TreeIter,
-        TreeTypes,
+        ChunkVisitor, Config, CreateMode, FilteredChunk, Forest, IndexIter, Secrets, Transaction,
+        TreeIter, TreeTypes,
     },
     store::{BanyanValue, BlockWriter},
 };
@@ -518,6 +518,11 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>, W: BlockWriter<T::Link>> Transacti
         while roots.len() > 1 {
             self.simplify_roots(&mut roots, 0, stream.state_mut())?;
         }
+        if roots.len() == 1 && roots[0].level() == 0 {
+            // the root of a tree has to be a branch, otherwise it can not be loaded from its link
+            let node = self.new_branch(&roots, stream.state_mut(), CreateMode::Packed)?;
+            roots[0] = node.into();
+        }
         stream.set_index(roots.pop());
         Ok(())
     }
-- 
2.43.0


From a0ee51e1e793ef3b6470972b66f0aa212b94dc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:32 +0000
Subject: [PATCH 03/10] fix: end the index iterator after an error

An index iterator that failed to load a branch returned the same error forever
instead of ending, unlike the element iterator.
---
 banyan/src/forest/index_iter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/banyan/src/forest/index_iter.rs b/banyan/src/forest/index_iter.rs
index f04f28e..55fcebd 100644
--- a/banyan/src/forest/index_iter.rs
+++ b/banyan/src/forest/index_iter.rs
@@ -129,7 +129,11 @@ where
                 NodeInfo::Branch(index, branch) => {
                     let branch = match branch.load_cached() {
                         Ok(branch) => branch,
-                        Err(cause) => return Some(Err(cause)),
+                        Err(cause) => {
+                            // do not try to continue after an error
+                            self.stack.clear();
+                            return Some(Err(cause));
+                        }
                     };
                     if head.filter.is_empty() {
                         // we hit this branch node for the first time. Apply the
-- 
2.43.0


From 441a3fe42de54e7f1630d0e9e1ee21c7ad054f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:23 +0000
Subject: [PATCH 04/10] fix: iterate elements within chunks in reverse order in
 iter_filtered_reverse

---
 banyan/src/forest/read.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/banyan/src/forest/read.rs b/banyan/src/forest/read.rs
index ed22241..7c3acc3 100644
--- a/banyan/src/forest/read.rs
+++ b/banyan/src/forest/read.rs
@@ -610,7 +610,8 @@ where
     ) -> impl Iterator<Item = Result<(u64, T::Key, V)>> {
         self.traverse_rev0(secrets, query, index, &|_| {})
             .flat_map(|res| match res {
-                Ok(chunk) => chunk.data.into_iter().map(Ok).left_iter(),
+                // values within chunks are in ascending order
+                Ok(chunk) => chunk.data.into_iter().rev().map(Ok).left_iter(),
                 Err(cause) => iter::once(Err(cause)).right_iter(),
             })
     }
-- 
2.43.0


From 1764e5c3b7054007a05a25baf5b357b78b7d6629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:24 +0000
Subject: [PATCH 05/10] fix: do not stream the boundary element twice when
 streaming trees in reverse

---
 banyan/src/forest/stream.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/banyan/src/forest/stream.rs b/banyan/src/forest/stream.rs
index ea22974..b32eaff 100644
--- a/banyan/src/forest/stream.rs
+++ b/banyan/src/forest/stream.rs
@@ -172,8 +172,11 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>> Forest<T, R> {
                     .stream_filtered_chunked_reverse0(&secrets, query, index, mk_extra)
                     .take_while(move |result| {
                         if let Ok(chunk) = result {
-                            // update the end offset from the start of what we got
-                            end_offset_ref.fetch_min(chunk.range.start, Ordering::SeqCst);
+                            // update the end offset from the start of what we got.
+                            // The end of the range is inclusive, so it has to be the offset before.
+                            // (a chunk starting at 0 ends the stream anyway)
+                            end_offset_ref
+                                .fetch_min(chunk.range.start.saturating_sub(1), Ordering::SeqCst);
                         }
                         // abort at the first non-ok offset
                         future::ready(result.is_ok())
-- 
2.43.0


From ffa2a006cb29d3faa5ead658920b33a65fdf4d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:15 +0000
Subject: [PATCH 06/10] fix: ignore tags unknown to a leaf instead of dropping
 the whole tag query

---
 banyan-utils/src/tags.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/banyan-utils/src/tags.rs b/banyan-utils/src/tags.rs
index 3084e05..1a5add1 100644
--- a/banyan-utils/src/tags.rs
+++ b/banyan-utils/src/tags.rs
@@ -1,4 +1,4 @@
-use crate::{tag_index::map_to_index_set, tag_index::TagIndex, tag_index::TagSet};
+use crate::{tag_index::TagIndex, tag_index::TagSet};
 use banyan::query::Query;
 use banyan::{index::*, TreeTypes};
 use libipld::{
@@ -202,14 +202,17 @@ impl DnfQuery {
             query: self
                 .0
                 .iter()
-                .map(|key| {
-                    map_to_index_set(&keyseq.tags.tags, &key.tags).map(|index_set| TranslatedKey {
-                        index_set,
-                        time: key.time,
-                    })
+                .map(|key| TranslatedKey {
+                    // tags that are not in the table can be ignored: no element has them
+                    index_set: key
+                        .tags
+                        .iter()
+                        .filter_map(|t| keyseq.tags.tags.as_ref().binary_search(t).ok())
+                        .map(|x| x as u32)
+                        .collect(),
+                    time: key.time,
                 })
-                .collect::<Option<Vec<_>>>()
-                .unwrap_or_default(),
+                .collect(),
             seq: keyseq,
         }
     }
-- 
2.43.0


From 1df54cc15239c132a31a85d768b2587dad7c282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:58 +0000
Subject: [PATCH 07/10] fix: match elements without tags the same in every leaf
 in tag queries

---
 banyan-utils/src/tags.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/banyan-utils/src/tags.rs b/banyan-utils/src/tags.rs
index 1a5add1..a716090 100644
--- a/banyan-utils/src/tags.rs
+++ b/banyan-utils/src/tags.rs
@@ -239,8 +239,11 @@ impl<'a> TranslatedDnfQuery<'a> {
     }
 
     fn contains(&self, i: usize) -> bool {
+        // a branch is skipped unless it shares a tag with the query, so an element without tags
+        // must not match either
         self.query.iter().any(|q| {
             q.time.contains(&self.seq.time(i).unwrap())
+                && !self.seq.tags.elements[i].is_empty()
                 && q.index_set.is_superset(&self.seq.tags.elements[i])
         })
     }
-- 
2.43.0


From 0b3c611a7832e91208007d9cb1431a31f2f44f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:12 +0000
Subject: [PATCH 08/10] fix: remove all conjunctions made redundant by a new
 one in a dnf

---
 banyan-utils/src/tag_index.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/banyan-utils/src/tag_index.rs b/banyan-utils/src/tag_index.rs
index bc815f6..bdeddf0 100644
--- a/banyan-utils/src/tag_index.rs
+++ b/banyan-utils/src/tag_index.rs
@@ -340,7 +340,7 @@ impl Dnf {
 }
 
 fn insert_unless_redundant(aa: &mut BTreeSet<TagSet>, b: TagSet) {
-    let mut to_remove = None;
+    let mut to_remove = Vec::new();
     for a in aa.iter() {
         if a.is_subset(&b) {
             // a is larger than b. E.g. x | x&y
@@ -349,10 +349,10 @@ fn insert_unless_redundant(aa: &mut BTreeSet<TagSet>, b: TagSet) {
         } else if a.is_superset(&b) {
             // a is smaller than b, E.g. x&y | x
             // remove a, keep b
-            to_remove = Some(a.clone());
+            to_remove.push(a.clone());
         }
     }
-    if let Some(r) = to_remove {
+    for r in to_remove {
         aa.remove(&r);
     }
     aa.insert(b);
-- 
2.43.0


From 830cb7a9ddf6ab8d9aaa3b02b166463aee19d4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:12 +0000
Subject: [PATCH 09/10] fix: convert expressions without operands to and from
 dnf

---
 banyan-utils/src/tag_index.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/banyan-utils/src/tag_index.rs b/banyan-utils/src/tag_index.rs
index bdeddf0..2cfc037 100644
--- a/banyan-utils/src/tag_index.rs
+++ b/banyan-utils/src/tag_index.rs
@@ -294,10 +294,14 @@ impl Expression {
         match self {
             Expression::Literal(x) => Dnf::literal(x),
             Expression::Or(es) => {
-                Reduce::reduce(es.into_iter().map(|x| x.dnf()), Dnf::bitor).unwrap()
+                // no operands: nothing matches
+                Reduce::reduce(es.into_iter().map(|x| x.dnf()), Dnf::bitor)
+                    .unwrap_or_else(|| Dnf(BTreeSet::new()))
             }
             Expression::And(es) => {
-                Reduce::reduce(es.into_iter().map(|x| x.dnf()), Dnf::bitand).unwrap()
+                // no operands: everything matches
+                Reduce::reduce(es.into_iter().map(|x| x.dnf()), Dnf::bitand)
+                    .unwrap_or_else(|| Dnf(btreeset![TagSet::default()]))
             }
         }
     }
@@ -331,11 +335,13 @@ impl Dnf {
 
     /// converts the disjunctive normal form back to an expression
     pub fn expression(self) -> Expression {
-        Reduce::reduce(self.0.into_iter().map(Dnf::and_expr), Expression::bitor).unwrap()
+        Reduce::reduce(self.0.into_iter().map(Dnf::and_expr), Expression::bitor)
+            .unwrap_or_else(|| Expression::or(Vec::new()))
     }
 
     fn and_expr(v: TagSet) -> Expression {
-        Reduce::reduce(v.into_iter().map(Expression::literal), Expression::bitand).unwrap()
+        Reduce::reduce(v.into_iter().map(Expression::literal), Expression::bitand)
+            .unwrap_or_else(|| Expression::and(Vec::new()))
     }
 }
 
-- 
2.43.0


From 3e642243e2d12d37203b1f86a35962e9c7d91791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:45 +0000
Subject: [PATCH 10/10] fix: a branch block without children is an error
 instead of a panic

---
 banyan/src/index.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/banyan/src/index.rs b/banyan/src/index.rs
index 987eded..c12c53d 100644
--- a/banyan/src/index.rs
+++ b/banyan/src/index.rs
@@ -446,6 +446,8 @@ pub(crate) fn deserialize_compressed<T: TreeTypes>(
 ) -> Result<(Vec<Index<T>>, Range<u64>)> {
     let (seq, byte_range) = ZstdDagCborSeq::decrypt(ipld, key, nonce)?;
     let seq = seq.items_ipld::<Index<T>>()?;
+    // a branch always has children, so this can only be a damaged block
+    anyhow::ensure!(!seq.is_empty(), "branch block without children");
     Ok((seq, byte_range))
 }
 
-- 
2.43.0

