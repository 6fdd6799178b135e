From 4132836de379d8e67fb39405096cc24479de8562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:20 +0000
Subject: [PATCH 01/14] add seams for deterministic simulation (only with --cfg
 banyan_sim)

---
 banyan/src/lib.rs                |  2 +
 banyan/src/sim.rs                | 65 ++++++++++++++++++++++++++++++++
 banyan/src/store/branch_cache.rs |  3 ++
 banyan/src/store/mem_cache.rs    |  3 ++
 banyan/src/store/mem_store.rs    |  3 ++
 banyan/src/util.rs               | 10 ++++-
 6 files changed, 84 insertions(+), 2 deletions(-)
 create mode 100644 banyan/src/sim.rs

diff --git a/banyan/src/lib.rs b/banyan/src/lib.rs
index ed71cfe..cfd1d0f 100644
--- a/banyan/src/lib.rs
+++ b/banyan/src/lib.rs
@@ -59,6 +59,8 @@
 mod forest;
 pub mod index;
 pub mod query;
+#[cfg(banyan_sim)]
+pub mod sim;
 pub mod store;
 mod stream_builder;
 mod tree;
diff --git a/banyan/src/sim.rs b/banyan/src/sim.rs
new file mode 100644
index 0000000..f6b7cfd
--- /dev/null
+++ b/banyan/src/sim.rs
@@ -0,0 +1,65 @@
+//! Seams for deterministic simulation.
+//!
+//! This module only exists when the crate is compiled with `--cfg banyan_sim`. It lets a
+//! simulator decide who gets to run at the points where otherwise the OS would decide: when a
+//! lock is taken, and when a task is handed to a thread pool.
+//!
+//! Hooks are installed per thread. On a thread without hooks everything behaves as usual.
+use futures::future::BoxFuture;
+use std::{cell::RefCell, sync::Arc};
+
+/// Decisions that are delegated to the simulator
+pub trait Hooks: Send + Sync {
+    /// the current thread is about to take a lock
+    fn before_lock(&self);
+    /// the current thread can not proceed until some other thread releases a lock
+    fn lock_contended(&self);
+    /// a task that would be spawned on a thread pool. Return it to have it spawned as usual.
+    fn spawn(&self, task: BoxFuture<'static, ()>) -> Option<BoxFuture<'static, ()>>;
+}
+
+thread_local!(static HOOKS: RefCell<Option<Arc<dyn Hooks>>> = RefCell::new(None));
+
+/// Install or remove the hooks for the current thread
+pub fn install(hooks: Option<Arc<dyn Hooks>>) {
+    HOOKS.with(|x| *x.borrow_mut() = hooks);
+}
+
+fn current() -> Option<Arc<dyn Hooks>> {
+    HOOKS.try_with(|x| x.borrow().clone()).ok().flatten()
+}
+
+/// Offer a task to the simulator. Returns the task if there is none.
+pub(crate) fn spawn(task: BoxFuture<'static, ()>) -> Option<BoxFuture<'static, ()>> {
+    match current() {
+        Some(hooks) => hooks.spawn(task),
+        None => Some(task),
+    }
+}
+
+/// A mutex where the simulator decides who gets the lock
+#[derive(Debug, Default)]
+pub(crate) struct Mutex<T>(parking_lot::Mutex<T>);
+
+impl<T> Mutex<T> {
+    pub fn new(value: T) -> Self {
+        Self(parking_lot::Mutex::new(value))
+    }
+
+    pub fn lock(&self) -> parking_lot::MutexGuard<'_, T> {
+        if let Some(hooks) = current() {
+            hooks.before_lock();
+            loop {
+                if let Some(guard) = self.0.try_lock() {
+                    return guard;
+                }
+                hooks.lock_contended();
+            }
+        }
+        self.0.lock()
+    }
+
+    pub fn into_inner(self) -> T {
+        self.0.into_inner()
+    }
+}
diff --git a/banyan/src/store/branch_cache.rs b/banyan/src/store/branch_cache.rs
index 0e8de9d..a4f6141 100644
--- a/banyan/src/store/branch_cache.rs
+++ b/banyan/src/store/branch_cache.rs
@@ -1,7 +1,10 @@
+#[cfg(banyan_sim)]
+use crate::sim::Mutex;
 use crate::{
     index::{Branch, CompactSeq, Index},
     TreeTypes,
 };
+#[cfg(not(banyan_sim))]
 use parking_lot::Mutex;
 use std::{num::NonZeroUsize, sync::Arc};
 use weight_cache::{Weighable, WeightCache};
diff --git a/banyan/src/store/mem_cache.rs b/banyan/src/store/mem_cache.rs
index 76b109f..32107d9 100644
--- a/banyan/src/store/mem_cache.rs
+++ b/banyan/src/store/mem_cache.rs
@@ -1,3 +1,6 @@
+#[cfg(banyan_sim)]
+use crate::sim::Mutex;
+#[cfg(not(banyan_sim))]
 use parking_lot::Mutex;
 use std::{convert::TryInto, hash::Hash, num::NonZeroUsize, sync::Arc, usize};
 use weight_cache::{Weighable, WeightCache};
diff --git a/banyan/src/store/mem_store.rs b/banyan/src/store/mem_store.rs
index 52cb588..de58f63 100644
--- a/banyan/src/store/mem_store.rs
+++ b/banyan/src/store/mem_store.rs
@@ -1,6 +1,9 @@
 use super::{BlockWriter, ReadOnlyStore};
+#[cfg(banyan_sim)]
+use crate::sim::Mutex;
 use anyhow::anyhow;
 use fnv::FnvHashMap;
+#[cfg(not(banyan_sim))]
 use parking_lot::Mutex;
 use std::{hash::Hash, sync::Arc};
 
diff --git a/banyan/src/util.rs b/banyan/src/util.rs
index bc2436d..9312550 100644
--- a/banyan/src/util.rs
+++ b/banyan/src/util.rs
@@ -100,13 +100,19 @@ where
     ) -> mpsc::Receiver<Self::Item> {
         let (mut sender, receiver) = mpsc::channel(buffer_size);
 
-        thread_pool.spawn_ok(async move {
+        let task = async move {
             for value in self {
                 if sender.send(value).await.is_err() {
                     break;
                 }
             }
-        });
+        };
+        #[cfg(banyan_sim)]
+        let task = match crate::sim::spawn(Box::pin(task)) {
+            Some(task) => task,
+            None => return receiver,
+        };
+        thread_pool.spawn_ok(task);
         receiver
     }
 }
-- 
2.43.0


From 49901d274943a156bd2f927ce33b0a1370db3e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:59 +0000
Subject: [PATCH 02/14] fix: iterate in strictly descending order in
 iter_filtered_reverse

The elements of each leaf were yielded in ascending order, so the order was only
right for leaves with a single element.
---
 banyan/src/forest/read.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/banyan/src/forest/read.rs b/banyan/src/forest/read.rs
index ed22241..59d1bce 100644
--- a/banyan/src/forest/read.rs
+++ b/banyan/src/forest/read.rs
@@ -610,7 +610,8 @@ where
     ) -> impl Iterator<Item = Result<(u64, T::Key, V)>> {
         self.traverse_rev0(secrets, query, index, &|_| {})
             .flat_map(|res| match res {
-                Ok(chunk) => chunk.data.into_iter().map(Ok).left_iter(),
+                // the elements within a chunk are in ascending order
+                Ok(chunk) => chunk.data.into_iter().rev().map(Ok).left_iter(),
                 Err(cause) => iter::once(Err(cause)).right_iter(),
             })
     }
-- 
2.43.0


From 08f17c0767be8e88f704ebf801e3b52385505a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:39 +0000
Subject: [PATCH 03/14] fix: extending an unpacked tree must not panic

Elements that do not fit below the last child of an unpacked branch can not be
added to that branch. Join them as a new tree like extend_unpacked does.
---
 banyan/src/forest/write.rs | 19 +++++++++++++++++--
 banyan/src/tree.rs         |  4 +++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/banyan/src/forest/write.rs b/banyan/src/forest/write.rs
index 49ce165..12f4816 100644
--- a/banyan/src/forest/write.rs
+++ b/banyan/src/forest/write.rs
@@ -215,6 +215,7 @@ where
     /// extends an existing node with some values
     ///
     /// The result will have the max level `level`. `from` will contain all elements that did not fit.
+    /// An unpacked node might not be able to take all elements even if the level is not limited.
     pub(crate) fn extend_above<V: WriteCbor>(
         &mut self,
         node: Option<&Index<T>>,
@@ -232,6 +233,10 @@ where
         } else {
             self.leaf_from_iter(from, stream)?.into()
         };
+        if from.peek().is_some() && !node.sealed() {
+            // the node is unpacked and can not take more elements. Leave them to the caller
+            return Ok(node);
+        }
         while (from.peek().is_some() || node.level() == 0) && node.level() < level {
             let level = node.level() + 1;
             node = self
@@ -316,8 +321,18 @@ where
                     *last_child =
                         self.extend_above(Some(last_child), index.level - 1, from, stream)?;
                 }
-                self.extend_branch(children, index.level, from, stream, CreateMode::Packed)?
-                    .into()
+                let packed = children
+                    .iter()
+                    .all(|child| child.sealed() && child.level() == index.level - 1);
+                if packed {
+                    self.extend_branch(children, index.level, from, stream, CreateMode::Packed)?
+                        .into()
+                } else {
+                    // either all elements went below the last child, or this is an unpacked
+                    // branch, which can not take more children.
+                    self.new_branch(&children, stream, CreateMode::Unpacked)?
+                        .into()
+                }
             }
             NodeInfo::PurgedBranch(_) | NodeInfo::PurgedLeaf(_) => {
                 // purged nodes can not be extended
diff --git a/banyan/src/tree.rs b/banyan/src/tree.rs
index 13dc0b4..71631a9 100644
--- a/banyan/src/tree.rs
+++ b/banyan/src/tree.rs
@@ -573,7 +573,9 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>, W: BlockWriter<T::Link>> Transacti
             from.by_ref(),
             tree.state_mut(),
         )?;
-        tree.set_index(Some(index));
+        // an unpacked tree can not always take all elements, so join the rest
+        let index = self.extend_unpacked0(Some(&index), from, tree.state_mut())?;
+        tree.set_index(index);
         Ok(())
     }
 
-- 
2.43.0


From 42a0ac4a64c591912be6e7abb4330c4460f47cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:53 +0000
Subject: [PATCH 04/14] fix: leave the tree unchanged when packing it fails

---
 banyan/src/tree.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/banyan/src/tree.rs b/banyan/src/tree.rs
index 71631a9..315c04d 100644
--- a/banyan/src/tree.rs
+++ b/banyan/src/tree.rs
@@ -532,13 +532,16 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>, W: BlockWriter<T::Link>> Transacti
     pub fn pack<V: BanyanValue>(&mut self, tree: &mut StreamBuilder<T, V>) -> Result<()> {
         let initial = tree.snapshot();
         let roots = self.roots(tree)?;
-        self.tree_from_roots(roots, tree)?;
+        // go back to the initial tree unless everything works out
+        let mut tree = tree.transaction();
+        self.tree_from_roots(roots, &mut tree)?;
         let remainder: Vec<_> = self
             .collect_from(&initial, tree.count())?
             .into_iter()
             .collect::<Option<Vec<_>>>()
             .ok_or_else(|| anyhow::anyhow!("found purged data"))?;
-        self.extend(tree, remainder)?;
+        self.extend(&mut *tree, remainder)?;
+        tree.commit();
         Ok(())
     }
 
-- 
2.43.0


From 128d32f539b7803d7cd5d3c700c3755bc08faf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:39 +0000
Subject: [PATCH 05/14] fix: packing must produce a tree that can be loaded
 from its link

If everything fitted into a single sealed leaf, pack made that leaf the root. But
only branches can be loaded.
---
 banyan/src/forest/write.rs | 2 +-
 banyan/src/tree.rs         | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/banyan/src/forest/write.rs b/banyan/src/forest/write.rs
index 12f4816..b5dd2fb 100644
--- a/banyan/src/forest/write.rs
+++ b/banyan/src/forest/write.rs
@@ -181,7 +181,7 @@ where
     /// creates a new branch from the given children and returns the branch index as a result.
     ///
     /// The level will be the max level of the children + 1. We do not want to support branches that are artificially high.
-    fn new_branch(
+    pub(crate) fn new_branch(
         &mut self,
         children: &[Index<T>],
         stream: &mut StreamBuilderState,
diff --git a/banyan/src/tree.rs b/banyan/src/tree.rs
index 315c04d..ae37e53 100644
--- a/banyan/src/tree.rs
+++ b/banyan/src/tree.rs
@@ -2,8 +2,8 @@
 use super::index::*;
 use crate::{
     forest::{
-        ChunkVisitor, Config, FilteredChunk, Forest, IndexIter, Secrets, Transaction, TreeIter,
-        TreeTypes,
+        ChunkVisitor, Config, CreateMode, FilteredChunk, Forest, IndexIter, Secrets, Transaction,
+        TreeIter, TreeTypes,
     },
     store::{BanyanValue, BlockWriter},
 };
@@ -541,6 +541,11 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>, W: BlockWriter<T::Link>> Transacti
             .collect::<Option<Vec<_>>>()
             .ok_or_else(|| anyhow::anyhow!("found purged data"))?;
         self.extend(&mut *tree, remainder)?;
+        if let Some(leaf @ Index::Leaf(_)) = tree.index().cloned() {
+            // the root must be a branch, otherwise the tree can not be loaded from its link
+            let root = self.new_branch(&[leaf], tree.state_mut(), CreateMode::Packed)?;
+            tree.set_index(Some(root.into()));
+        }
         tree.commit();
         Ok(())
     }
-- 
2.43.0


From 5ccfa9e2fa985218a1c17c9c955f56c4c05b40fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:46 +0000
Subject: [PATCH 06/14] fix: end the index iterator after an error

Like the other iterators. Before, it returned the same error forever.
---
 banyan/src/forest/index_iter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/banyan/src/forest/index_iter.rs b/banyan/src/forest/index_iter.rs
index f04f28e..8eed675 100644
--- a/banyan/src/forest/index_iter.rs
+++ b/banyan/src/forest/index_iter.rs
@@ -129,7 +129,11 @@ where
                 NodeInfo::Branch(index, branch) => {
                     let branch = match branch.load_cached() {
                         Ok(branch) => branch,
-                        Err(cause) => return Some(Err(cause)),
+                        Err(cause) => {
+                            // ensure we are done after the error
+                            self.stack.clear();
+                            return Some(Err(cause));
+                        }
                     };
                     if head.filter.is_empty() {
                         // we hit this branch node for the first time. Apply the
-- 
2.43.0


From 4296ca8d422efcafbc50815e66f3794122b09e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:11 +0000
Subject: [PATCH 07/14] fix: do not deliver an element twice when a reverse
 stream resumes with the next tree

---
 banyan/src/forest/stream.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/banyan/src/forest/stream.rs b/banyan/src/forest/stream.rs
index ea22974..7d7f976 100644
--- a/banyan/src/forest/stream.rs
+++ b/banyan/src/forest/stream.rs
@@ -172,8 +172,10 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>> Forest<T, R> {
                     .stream_filtered_chunked_reverse0(&secrets, query, index, mk_extra)
                     .take_while(move |result| {
                         if let Ok(chunk) = result {
-                            // update the end offset from the start of what we got
-                            end_offset_ref.fetch_min(chunk.range.start, Ordering::SeqCst);
+                            // update the end offset from the start of what we got.
+                            // the end offset is inclusive, so it must be before the chunk
+                            end_offset_ref
+                                .fetch_min(chunk.range.start.saturating_sub(1), Ordering::SeqCst);
                         }
                         // abort at the first non-ok offset
                         future::ready(result.is_ok())
-- 
2.43.0


From d4a06da639d7a5e4fea6e1889a05309e2e5b7709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:45 +0000
Subject: [PATCH 08/14] fix: a tag that does not occur in a node must not
 disable the other alternatives of a query

DnfQuery::map_into translated all alternatives into tag indices of a node at
once, and a single tag that is missing in the node made the whole query match
nothing there. Whether elements were returned depended on which elements share
a node, and on unrelated alternatives. A tag that is not in the tag table of a
node can just be left out: it can neither add to an intersection with nor be
needed to cover the tags of the elements of that node.
---
 banyan-utils/src/tags.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/banyan-utils/src/tags.rs b/banyan-utils/src/tags.rs
index 3084e05..9f11570 100644
--- a/banyan-utils/src/tags.rs
+++ b/banyan-utils/src/tags.rs
@@ -1,4 +1,4 @@
-use crate::{tag_index::map_to_index_set, tag_index::TagIndex, tag_index::TagSet};
+use crate::{tag_index::TagIndex, tag_index::TagSet};
 use banyan::query::Query;
 use banyan::{index::*, TreeTypes};
 use libipld::{
@@ -202,14 +202,18 @@ impl DnfQuery {
             query: self
                 .0
                 .iter()
-                .map(|key| {
-                    map_to_index_set(&keyseq.tags.tags, &key.tags).map(|index_set| TranslatedKey {
-                        index_set,
-                        time: key.time,
-                    })
+                .map(|key| TranslatedKey {
+                    // a tag that does not occur in this node can not make a difference here,
+                    // neither for this alternative nor for the others
+                    index_set: key
+                        .tags
+                        .iter()
+                        .filter_map(|tag| keyseq.tags.tags.as_ref().binary_search(tag).ok())
+                        .map(|index| index as u32)
+                        .collect(),
+                    time: key.time,
                 })
-                .collect::<Option<Vec<_>>>()
-                .unwrap_or_default(),
+                .collect(),
             seq: keyseq,
         }
     }
-- 
2.43.0


From 4fac0fc328a51fc9794b823085e7da8a09fcd004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:34 +0000
Subject: [PATCH 09/14] fix: report an error status of the IPFS daemon as an
 error

block_get returned the body of an error response as the content of the block.
---
 banyan-utils/src/ipfs.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/banyan-utils/src/ipfs.rs b/banyan-utils/src/ipfs.rs
index b875c4e..2764c24 100644
--- a/banyan-utils/src/ipfs.rs
+++ b/banyan-utils/src/ipfs.rs
@@ -14,7 +14,8 @@ pub fn block_get(key: &Cid) -> Result<Box<[u8]>> {
         &[("arg", format!("{}", key))],
     )?;
     let client = reqwest::blocking::Client::new();
-    let data: Vec<u8> = client.post(url).send()?.bytes()?.to_vec();
+    let response = client.post(url).send()?.error_for_status()?;
+    let data: Vec<u8> = response.bytes()?.to_vec();
     Ok(data.into())
 }
 
@@ -126,7 +127,8 @@ pub fn block_put(data: &[u8], codec: u64, pin: bool) -> Result<Cid> {
         "file",
         reqwest::blocking::multipart::Part::bytes(data.to_vec()),
     );
-    let res: IpfsBlockPutResponseIo = client.post(url).multipart(form).send()?.json()?;
+    let response = client.post(url).multipart(form).send()?.error_for_status()?;
+    let res: IpfsBlockPutResponseIo = response.json()?;
     let cid = Cid::from_str(&res.key)?;
     Ok(cid)
 }
-- 
2.43.0


From 2b1d2ec97843992ff30fac10e85bee42d9091c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:34 +0000
Subject: [PATCH 10/14] fix: an unexpected link from the IPFS daemon is an
 error, not a panic

Sha256Digest::try_from checks codec, hash function and length already.
---
 banyan-utils/src/ipfs.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/banyan-utils/src/ipfs.rs b/banyan-utils/src/ipfs.rs
index 2764c24..49062a3 100644
--- a/banyan-utils/src/ipfs.rs
+++ b/banyan-utils/src/ipfs.rs
@@ -150,8 +150,7 @@ impl BlockWriter<Sha256Digest> for IpfsStore {
         let cid = std::thread::spawn(move || crate::ipfs::block_put(&data, 0x71, false))
             .join()
             .map_err(|_| anyhow!("join error!"))??;
-        assert!(cid.hash().code() == 0x12);
-        assert!(cid.hash().digest().len() == 32);
+        // fails unless this is a sha256 hash
         cid.try_into()
     }
 }
-- 
2.43.0


From 660ac0330781369e743f3903734c70e7b32dbe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:34 +0000
Subject: [PATCH 11/14] fix: compare blocks and links from the IPFS daemon with
 what was asked for

The end of a response that is terminated by the end of the connection can not
be told from a lost connection, so a truncated or empty block was returned as
if it was complete. Check the hash, as for any content addressed store.
---
 banyan-utils/src/ipfs.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/banyan-utils/src/ipfs.rs b/banyan-utils/src/ipfs.rs
index 49062a3..f00cade 100644
--- a/banyan-utils/src/ipfs.rs
+++ b/banyan-utils/src/ipfs.rs
@@ -4,7 +4,7 @@ use banyan::store::{BlockWriter, ReadOnlyStore};
 use futures::prelude::*;
 use libipld::Cid;
 use serde::{de::IgnoredAny, de::Visitor, Deserialize, Deserializer, Serialize, Serializer};
-use std::{convert::TryInto, fmt, str::FromStr};
+use std::{convert::TryFrom, fmt, str::FromStr};
 
 use crate::tags::Sha256Digest;
 
@@ -139,19 +139,28 @@ pub struct IpfsStore;
 impl ReadOnlyStore<Sha256Digest> for IpfsStore {
     fn get(&self, link: &Sha256Digest) -> Result<Box<[u8]>> {
         let cid: Cid = (*link).into();
-        std::thread::spawn(move || crate::ipfs::block_get(&cid))
+        let data = std::thread::spawn(move || crate::ipfs::block_get(&cid))
             .join()
-            .map_err(|_| anyhow!("join error!"))?
+            .map_err(|_| anyhow!("join error!"))??;
+        // a response can be incomplete without looking like it
+        anyhow::ensure!(
+            Sha256Digest::digest(&data) == *link,
+            "got something else than the block"
+        );
+        Ok(data)
     }
 }
 
 impl BlockWriter<Sha256Digest> for IpfsStore {
     fn put(&mut self, data: Vec<u8>) -> Result<Sha256Digest> {
+        let expected = Sha256Digest::digest(&data);
         let cid = std::thread::spawn(move || crate::ipfs::block_put(&data, 0x71, false))
             .join()
             .map_err(|_| anyhow!("join error!"))??;
         // fails unless this is a sha256 hash
-        cid.try_into()
+        let link = Sha256Digest::try_from(cid)?;
+        anyhow::ensure!(link == expected, "got the link of something else");
+        Ok(link)
     }
 }
 
-- 
2.43.0


From bf39d074994ddd17aec9f8d573550d66a8694468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:12 +0000
Subject: [PATCH 12/14] fix: refuse to write a branch that is too large to be
 read again

---
 banyan/src/store/mod.rs               | 2 +-
 banyan/src/store/thread_local_zstd.rs | 2 +-
 banyan/src/store/zstd_dag_cbor_seq.rs | 9 ++++++++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/banyan/src/store/mod.rs b/banyan/src/store/mod.rs
index ae5c4ab..65097e6 100644
--- a/banyan/src/store/mod.rs
+++ b/banyan/src/store/mod.rs
@@ -9,7 +9,7 @@ mod zstd_dag_cbor_seq;
 pub use branch_cache::BranchCache;
 pub use mem_cache::{MemCache, MemWriter};
 pub use mem_store::MemStore;
-pub(crate) use thread_local_zstd::decompress_and_transform;
+pub(crate) use thread_local_zstd::{decompress_and_transform, MAX_CAPACITY};
 pub use zstd_dag_cbor_seq::ZstdDagCborSeq;
 
 use cbor_data::codec::ReadCbor;
diff --git a/banyan/src/store/thread_local_zstd.rs b/banyan/src/store/thread_local_zstd.rs
index 968b1a9..c706e40 100644
--- a/banyan/src/store/thread_local_zstd.rs
+++ b/banyan/src/store/thread_local_zstd.rs
@@ -6,7 +6,7 @@ use zstd::block::Decompressor;
 const MIN_CAPACITY: usize = 1024 * 1024 * 4;
 
 /// Max capacity we are going to allocate.
-const MAX_CAPACITY: usize = 1024 * 1024 * 16;
+pub(crate) const MAX_CAPACITY: usize = 1024 * 1024 * 16;
 
 /// thread-local decompression state
 pub(crate) struct DecompressionState {
diff --git a/banyan/src/store/zstd_dag_cbor_seq.rs b/banyan/src/store/zstd_dag_cbor_seq.rs
index baaf07d..f0d2ace 100644
--- a/banyan/src/store/zstd_dag_cbor_seq.rs
+++ b/banyan/src/store/zstd_dag_cbor_seq.rs
@@ -45,7 +45,10 @@ use std::{
     time::Instant,
 };
 
-use crate::{store::decompress_and_transform, stream_builder::CipherOffset};
+use crate::{
+    store::{decompress_and_transform, MAX_CAPACITY},
+    stream_builder::CipherOffset,
+};
 
 #[derive(Clone, PartialEq, Eq)]
 pub struct ZstdDagCborSeq {
@@ -78,6 +81,8 @@ impl ZstdDagCborSeq {
             scrape_links(encoded.as_ref(), &mut links)?;
             encoder.write_all(encoded.as_ref())?;
         }
+        // it would not be possible to decompress it again
+        anyhow::ensure!(size <= MAX_CAPACITY, "items too large!");
         // call finish to write the zstd frame
         let data = encoder.finish()?;
         tracing::trace!(
@@ -106,6 +111,8 @@ impl ZstdDagCborSeq {
             scrape_links(encoded.as_ref(), &mut links)?;
             encoder.write_all(encoded.as_ref())?;
         }
+        // it would not be possible to decompress it again
+        anyhow::ensure!(size <= MAX_CAPACITY, "items too large!");
         // call finish to write the zstd frame
         let data = encoder.finish()?;
         tracing::trace!(
-- 
2.43.0


From 206a2ce6cf69f6d8abb7e5c4f311d34b29458cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:12 +0000
Subject: [PATCH 13/14] fix: pubsub_sub depends on how events are split into
 chunks, errors of the daemon are ignored

---
 banyan-utils/src/bin/cli.rs |  1 -
 banyan-utils/src/ipfs.rs    | 49 +++++++++++++++++++++++++++----------
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/banyan-utils/src/bin/cli.rs b/banyan-utils/src/bin/cli.rs
index 89dd1fb..61a2b1a 100644
--- a/banyan-utils/src/bin/cli.rs
+++ b/banyan-utils/src/bin/cli.rs
@@ -503,7 +503,6 @@ async fn main() -> Result<()> {
         Command::RecvStream { topic } => {
             let secrets = Secrets::default();
             let links = pubsub_sub(&topic)?
-                .map_err(anyhow::Error::new)
                 .and_then(|data| future::ready(String::from_utf8(data).map_err(anyhow::Error::new)))
                 .and_then(|data| future::ready(Sha256Digest::from_str(&data)));
             let forest2 = forest.clone();
diff --git a/banyan-utils/src/ipfs.rs b/banyan-utils/src/ipfs.rs
index f00cade..7bab7c9 100644
--- a/banyan-utils/src/ipfs.rs
+++ b/banyan-utils/src/ipfs.rs
@@ -72,7 +72,8 @@ struct IpfsPubsubEventIo {
     _topic_ids: IgnoredAny,
 }
 
-pub fn pubsub_sub(topic: &str) -> Result<impl Stream<Item = reqwest::Result<Vec<u8>>>> {
+/// Messages of a topic, as they arrive. Whatever goes wrong is an element of the stream.
+pub fn pubsub_sub(topic: &str) -> Result<impl Stream<Item = Result<Vec<u8>>>> {
     let url = reqwest::Url::parse_with_params(
         "http://localhost:5001/api/v0/pubsub/sub",
         &[("arg", topic)],
@@ -81,20 +82,37 @@ pub fn pubsub_sub(topic: &str) -> Result<impl Stream<Item = reqwest::Result<Vec<
     let data = client
         .post(url)
         .send()
-        .map(|response| match response {
-            Ok(response) => response
-                .bytes_stream()
-                .map_ok(|bytes| {
-                    let data: IpfsPubsubEventIo = serde_json::from_slice(&bytes).unwrap();
-                    data.data.0
-                })
-                .left_stream(),
-            Err(cause) => futures::stream::once(future::err(cause)).right_stream(),
-        })
+        .map(
+            |response| match response.and_then(|x| x.error_for_status()) {
+                Ok(response) => {
+                    let body = response
+                        .bytes_stream()
+                        .map_err(|cause| std::io::Error::new(std::io::ErrorKind::Other, cause))
+                        .into_async_read();
+                    pubsub_events(Box::pin(body)).left_stream()
+                }
+                Err(cause) => futures::stream::once(future::err(cause.into())).right_stream(),
+            },
+        )
         .flatten_stream();
     Ok(data)
 }
 
+/// There is one event per line, which need not be one event per chunk.
+fn pubsub_events(body: impl AsyncBufRead + Unpin) -> impl Stream<Item = Result<Vec<u8>>> {
+    futures::stream::unfold(body, |mut body| async move {
+        let mut line = Vec::new();
+        let event = match body.read_until(b'\n', &mut line).await {
+            Ok(0) => return None,
+            Ok(_) => serde_json::from_slice::<IpfsPubsubEventIo>(&line)
+                .map(|event| event.data.0)
+                .map_err(Into::into),
+            Err(cause) => Err(cause.into()),
+        };
+        Some((event, body))
+    })
+}
+
 pub async fn pubsub_pub(topic: &str, data: &[u8]) -> Result<()> {
     use percent_encoding::{percent_encode, NON_ALPHANUMERIC};
     let topic = percent_encode(topic.as_bytes(), NON_ALPHANUMERIC).to_string();
@@ -104,7 +122,8 @@ pub async fn pubsub_pub(topic: &str, data: &[u8]) -> Result<()> {
         topic, data
     ))?;
     let client = reqwest::Client::new();
-    let _ = client.post(url).send().await?.bytes().await?.to_vec();
+    let response = client.post(url).send().await?.error_for_status()?;
+    let _ = response.bytes().await?;
     Ok(())
 }
 
@@ -127,7 +146,11 @@ pub fn block_put(data: &[u8], codec: u64, pin: bool) -> Result<Cid> {
         "file",
         reqwest::blocking::multipart::Part::bytes(data.to_vec()),
     );
-    let response = client.post(url).multipart(form).send()?.error_for_status()?;
+    let response = client
+        .post(url)
+        .multipart(form)
+        .send()?
+        .error_for_status()?;
     let res: IpfsBlockPutResponseIo = response.json()?;
     let cid = Cid::from_str(&res.key)?;
     Ok(cid)
-- 
2.43.0


From 88e85e96a63bb44ff6a0ac11231f5d66e3c6567b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:02 +0000
Subject: [PATCH 14/14] fix: pubsub_pub and pubsub_sub panic when topic and
 message do not fit into a URL

---
 banyan-utils/src/ipfs.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/banyan-utils/src/ipfs.rs b/banyan-utils/src/ipfs.rs
index 7bab7c9..2de72fb 100644
--- a/banyan-utils/src/ipfs.rs
+++ b/banyan-utils/src/ipfs.rs
@@ -72,12 +72,21 @@ struct IpfsPubsubEventIo {
     _topic_ids: IgnoredAny,
 }
 
+/// reqwest panics if the url is too long for a `http::Uri`
+fn checked_length(url: reqwest::Url) -> Result<reqwest::Url> {
+    anyhow::ensure!(
+        url.as_str().len() < usize::from(u16::MAX),
+        "request too long!"
+    );
+    Ok(url)
+}
+
 /// Messages of a topic, as they arrive. Whatever goes wrong is an element of the stream.
 pub fn pubsub_sub(topic: &str) -> Result<impl Stream<Item = Result<Vec<u8>>>> {
-    let url = reqwest::Url::parse_with_params(
+    let url = checked_length(reqwest::Url::parse_with_params(
         "http://localhost:5001/api/v0/pubsub/sub",
         &[("arg", topic)],
-    )?;
+    )?)?;
     let client = reqwest::Client::new();
     let data = client
         .post(url)
@@ -117,10 +126,10 @@ pub async fn pubsub_pub(topic: &str, data: &[u8]) -> Result<()> {
     use percent_encoding::{percent_encode, NON_ALPHANUMERIC};
     let topic = percent_encode(topic.as_bytes(), NON_ALPHANUMERIC).to_string();
     let data = percent_encode(data, NON_ALPHANUMERIC).to_string();
-    let url = reqwest::Url::parse(&format!(
+    let url = checked_length(reqwest::Url::parse(&format!(
         "http://localhost:5001/api/v0/pubsub/pub?arg={}&arg={}",
         topic, data
-    ))?;
+    ))?)?;
     let client = reqwest::Client::new();
     let response = client.post(url).send().await?.error_for_status()?;
     let _ = response.bytes().await?;
-- 
2.43.0

