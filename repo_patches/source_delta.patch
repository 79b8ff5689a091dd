From 779f81640d25fb086eaa5afac307c37c20a943cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 01/16] fix: replace_in_list compares the expected value with
 the item's value

It was compared with the 8-byte index suffix that follows the value, so a
replace with the correct expected value always failed with WrongValue.
---
 src/lists.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lists.rs b/src/lists.rs
index 51eefc5..f49ae19 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -163,7 +163,7 @@ impl CandyStore {
                 }
                 InsertMode::Replace(expected_val) => {
                     if let Some(expected_val) = expected_val {
-                        if expected_val != &existing_val[existing_val.len() - size_of::<u64>()..] {
+                        if expected_val != &existing_val[..existing_val.len() - size_of::<u64>()] {
                             existing_val.truncate(existing_val.len() - size_of::<u64>());
                             return Ok(InsertToListStatus::WrongValue(existing_val));
                         }
-- 
2.43.0


From fb11435dcf41031bf3df9e3cc93969c7a04387b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 02/16] fix: removing the only element of a queue by index must
 not invert its range

Both ends moved, leaving head_idx > tail_idx: the queue was kept with an
inverted range and elements pushed later were unreachable.
---
 src/queues.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/queues.rs b/src/queues.rs
index 7575a72..16a1a1b 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -270,8 +270,7 @@ impl CandyStore {
             let queue = from_bytes_mut::<Queue>(&mut queue_bytes);
             if queue.head_idx == idx {
                 queue.head_idx += 1;
-            }
-            if queue.tail_idx == idx + 1 {
+            } else if queue.tail_idx == idx + 1 {
                 queue.tail_idx -= 1;
             }
             queue.num_items -= 1;
-- 
2.43.0


From 8d1fd78cee3f2788620bd5cc202525040525b879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 03/16] fix: get_big returns an empty value that was set with
 set_big

An empty value has no chunks, and get_big reported it as missing although
set_big and remove_big report that it exists.
---
 src/queues.rs | 4 ++++
 src/store.rs  | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/queues.rs b/src/queues.rs
index 16a1a1b..9de8548 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -314,6 +314,10 @@ impl CandyStore {
         }
     }
 
+    pub(crate) fn queue_exists(&self, queue_key: &[u8]) -> Result<bool> {
+        Ok(self.fetch_queue(queue_key)?.is_some())
+    }
+
     /// Extends the queue with elements from the given iterator. The queue will be created if it did not exist before,
     /// and elements are pushed at the tail-end of the queue. This is more efficient than calling
     /// [Self::push_to_queue_tail] in a loop
diff --git a/src/store.rs b/src/store.rs
index 74d9877..0be8d96 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -538,7 +538,8 @@ impl CandyStore {
     /// caller.
     pub fn get_big(&self, key: &[u8]) -> Result<Option<Vec<u8>>> {
         let mut val = vec![];
-        let mut exists = false;
+        // an empty value has no chunks, only a queue header
+        let mut exists = self.queue_exists(key)?;
         for res in self.iter_queue(key) {
             let (_, chunk) = res?;
             exists = true;
-- 
2.43.0


From f8732542f5dd2c9e40b3f1f95e9de2930c0a4987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 04/16] fix: do not panic on a very large expected number of
 keys

Beyond about 1.9e9 keys the step rounded to 0 and ilog2(0) panicked.
---
 src/router.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/router.rs b/src/router.rs
index f0e819c..fb19c28 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -167,7 +167,7 @@ impl ShardRouter {
     fn calc_step(num_items: usize) -> u32 {
         let step = (Self::END_OF_SHARDS as f64)
             / (num_items as f64 / Shard::EXPECTED_CAPACITY as f64).max(1.0);
-        1 << (step as u32).ilog2()
+        1 << (step as u32).max(1).ilog2()
     }
     pub(crate) fn calc_num_shards(num_items: usize) -> u32 {
         Self::END_OF_SHARDS / Self::calc_step(num_items)
-- 
2.43.0


From abed79aedc662f8634284bf74628a02ad10ad718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 05/16] fix: the cookie of an exhausted iterator resumes at the
 end

At the end the shard selector is 0x10000, which was masked to 0, so that
resuming from that cookie started over from the first shard.
---
 src/store.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/store.rs b/src/store.rs
index 0be8d96..984d87d 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -134,7 +134,7 @@ impl<'a> CandyStoreIterator<'a> {
     /// Returns the cookie of the next item in the store. This can be used later to construct an iterator
     /// that starts at the given point.
     pub fn cookie(&self) -> u64 {
-        ((self.shard_selector as u64 & 0xffff) << 32)
+        ((self.shard_selector as u64) << 32)
             | ((self.row_idx as u64 & 0xffff) << 16)
             | (self.entry_idx as u64 & 0xffff)
     }
@@ -143,7 +143,7 @@ impl<'a> CandyStoreIterator<'a> {
     pub fn from_cookie(store: &'a CandyStore, cookie: u64, raw: bool) -> Self {
         Self {
             store,
-            shard_selector: ((cookie >> 32) & 0xffff) as u32,
+            shard_selector: (cookie >> 32) as u32,
             row_idx: ((cookie >> 16) & 0xffff) as usize,
             entry_idx: (cookie & 0xffff) as usize,
             raw,
-- 
2.43.0


From 662d204541fdd83bfa4975631aaf7af91b63e294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 06/16] fix: reject oversized list and queue items before
 updating the collection

A push, list insert or promotion of an item that is too large failed only
after the header was updated (or the old item removed): the reported length
grew, extend_queue left orphaned items, and set_big lost the previous value.
---
 src/lists.rs  | 11 +++++++++++
 src/queues.rs | 15 +++++++++++++++
 src/store.rs  | 34 ++++++++++++++++++++--------------
 3 files changed, 46 insertions(+), 14 deletions(-)

diff --git a/src/lists.rs b/src/lists.rs
index f49ae19..1259851 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -142,6 +142,14 @@ impl CandyStore {
         self.keyed_locks[(list_ph.signature() & self.keyed_locks_mask) as usize].lock()
     }
 
+    /// checks that an item can be inserted, so that we won't update the list in vain
+    fn ensure_list_item_fits(&self, item_key: &[u8], val: &[u8]) -> Result<()> {
+        self.ensure_entry_fits(
+            item_key.len() + size_of::<PartedHash>() + ITEM_NAMESPACE.len(),
+            val.len() + size_of::<u64>(),
+        )
+    }
+
     fn _insert_to_list(
         &self,
         list_key: Vec<u8>,
@@ -149,6 +157,8 @@ impl CandyStore {
         mut val: Vec<u8>,
         mode: InsertMode,
     ) -> Result<InsertToListStatus> {
+        self.ensure_list_item_fits(&item_key, &val)?;
+
         let (list_ph, list_key) = self.make_list_key(list_key);
         let (item_ph, item_key) = self.make_item_key(list_ph, item_key);
 
@@ -297,6 +307,7 @@ impl CandyStore {
         promote: bool,
     ) -> Result<SetStatus> {
         if promote {
+            self.ensure_list_item_fits(&item_key, &val)?;
             self.owned_remove_from_list(list_key.clone(), item_key.clone())?;
         }
         match self._insert_to_list(list_key, item_key, val, InsertMode::Set)? {
diff --git a/src/queues.rs b/src/queues.rs
index 9de8548..3fff1b5 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -111,7 +111,17 @@ impl CandyStore {
         item_key
     }
 
+    /// checks that an item of the given length can be inserted, so that we won't update the queue in vain
+    pub(crate) fn ensure_queue_item_fits(&self, queue_key: &[u8], val_len: usize) -> Result<()> {
+        self.ensure_entry_fits(
+            queue_key.len() + size_of::<u64>() + QUEUE_ITEM_NAMESPACE.len(),
+            val_len,
+        )
+    }
+
     fn _push_to_queue(&self, queue_key: &[u8], val: &[u8], pos: QueuePos) -> Result<usize> {
+        self.ensure_queue_item_fits(queue_key, val.len())?;
+
         let (queue_ph, full_queue_key) = self.make_queue_key(queue_key);
         let _guard = self.lock_list(queue_ph);
 
@@ -332,6 +342,11 @@ impl CandyStore {
         items: impl Iterator<Item = impl AsRef<[u8]>>,
     ) -> Result<Range<usize>> {
         let queue_key = queue_key.as_ref();
+        let items = items.collect::<Vec<_>>();
+        for item in items.iter() {
+            self.ensure_queue_item_fits(queue_key, item.as_ref().len())?;
+        }
+
         let (queue_ph, full_queue_key) = self.make_queue_key(queue_key);
         let _guard = self.lock_list(queue_ph);
 
diff --git a/src/store.rs b/src/store.rs
index 984d87d..8592679 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -331,30 +331,34 @@ impl CandyStore {
         self.remove_raw(&self.make_user_key(key))
     }
 
-    pub(crate) fn insert_internal(
-        &self,
-        full_key: &[u8],
-        val: &[u8],
-        mode: InsertMode,
-    ) -> Result<InsertStatus> {
-        let ph = PartedHash::new(&self.config.hash_seed, full_key);
-
+    /// checks that an entry of the given (full) key and value lengths can be inserted
+    pub(crate) fn ensure_entry_fits(&self, full_key_len: usize, val_len: usize) -> Result<()> {
         ensure!(
-            full_key.len() <= MAX_TOTAL_KEY_SIZE,
-            CandyError::KeyTooLong(full_key.len())
+            full_key_len <= MAX_TOTAL_KEY_SIZE,
+            CandyError::KeyTooLong(full_key_len)
         );
         ensure!(
-            val.len() <= MAX_TOTAL_VALUE_SIZE,
-            CandyError::ValueTooLong(val.len())
+            val_len <= MAX_TOTAL_VALUE_SIZE,
+            CandyError::ValueTooLong(val_len)
         );
 
-        if full_key.len() + val.len() > self.config.max_shard_size as usize {
+        if full_key_len + val_len > self.config.max_shard_size as usize {
             return Err(anyhow!(CandyError::EntryCannotFitInShard(
-                full_key.len() + val.len(),
+                full_key_len + val_len,
                 self.config.max_shard_size as usize
             )));
         }
+        Ok(())
+    }
 
+    pub(crate) fn insert_internal(
+        &self,
+        full_key: &[u8],
+        val: &[u8],
+        mode: InsertMode,
+    ) -> Result<InsertStatus> {
+        let ph = PartedHash::new(&self.config.hash_seed, full_key);
+        self.ensure_entry_fits(full_key.len(), val.len())?;
         self.root.insert(ph, full_key, val, mode)
     }
 
@@ -529,6 +533,8 @@ impl CandyStore {
         key: &B1,
         val: &B2,
     ) -> Result<bool> {
+        // don't discard the existing value if the new one can't be inserted
+        self.ensure_queue_item_fits(key.as_ref(), val.as_ref().len().min(MAX_VALUE_SIZE))?;
         let existed = self.discard_queue(key)?;
         self.extend_queue(key, val.as_ref().chunks(MAX_VALUE_SIZE))?;
         Ok(existed)
-- 
2.43.0


From 452a14dbb75f2d036c04845226dca7c86202148a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 07/16] fix: merge_small_shards must not lock a node twice or
 merge a shard twice

On an unbalanced tree the recursion re-locked a node whose guard was still
held and hung forever; and when only one side could be merged, the other one
was gone over again although the files of its merged shards had been removed.
---
 src/router.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index fb19c28..59f7b6d 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -430,6 +430,10 @@ impl ShardRouter {
                 }
             }
             (ShardNode::Leaf(_), ShardNode::Vertex(b, t)) => {
+                // the recursion locks these nodes again
+                let (b, t) = (b.clone(), t.clone());
+                drop(bottom_guard);
+                drop(top_guard);
                 if let Some(merged_top) = self._merge(&b, &t, max_fill, shards_to_remove)? {
                     self._merge(bottom, &merged_top, max_fill, shards_to_remove)
                 } else {
@@ -437,6 +441,9 @@ impl ShardRouter {
                 }
             }
             (ShardNode::Vertex(b, t), ShardNode::Leaf(_)) => {
+                let (b, t) = (b.clone(), t.clone());
+                drop(bottom_guard);
+                drop(top_guard);
                 if let Some(merged_bottom) = self._merge(&b, &t, max_fill, shards_to_remove)? {
                     self._merge(&merged_bottom, top, max_fill, shards_to_remove)
                 } else {
@@ -448,9 +455,9 @@ impl ShardRouter {
                 let m2 = self._merge(b2, t2, max_fill, shards_to_remove)?;
                 match (m1, m2) {
                     (Some(m1), Some(m2)) => self._merge(&m1, &m2, max_fill, shards_to_remove),
-                    (Some(m1), None) => self._merge(&m1, top, max_fill, shards_to_remove),
-                    (None, Some(m2)) => self._merge(bottom, &m2, max_fill, shards_to_remove),
-                    (None, None) => Ok(None),
+                    // a side that could not be merged into a single shard can't be merged any further. don't
+                    // go over it again: some of its shards may have been merged, and their files are gone
+                    _ => Ok(None),
                 }
             }
         }
-- 
2.43.0


From 599949d6fe211707fd7d9f56f71674ddd926b386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 08/16] fix: wait for running compactions before reloading or
 clearing the shards

merge_small_shards reopened shards whose background compaction was still
running, so that both compacted the same pair of files (failing, or losing
rows), and clear() raced with the final rename of a compaction.
---
 src/router.rs | 16 ++++++++++++++++
 src/shard.rs  |  2 +-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/router.rs b/src/router.rs
index 59f7b6d..767e74f 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -294,8 +294,23 @@ impl ShardRouter {
         }
     }
 
+    // waits for compactions that are still running in the background. must be called with the root locked for
+    // writing (so that new ones can't begin) before replacing the shards or their files
+    fn wait_for_compactions(node: &ShardNode) -> Result<()> {
+        match node {
+            ShardNode::Leaf(sh) => sh.wait_for_compaction(),
+            ShardNode::Vertex(bottom, top) => {
+                let res = Self::wait_for_compactions(&bottom.node.read());
+                Self::wait_for_compactions(&top.node.read())?;
+                res
+            }
+        }
+    }
+
     pub(crate) fn clear(&self) -> Result<()> {
         let mut guard = self.node.write();
+        // it doesn't matter if a compaction failed, its shard is going to be removed
+        _ = Self::wait_for_compactions(&guard);
 
         for res in std::fs::read_dir(&self.config.dir_path)? {
             let entry = res?;
@@ -484,6 +499,7 @@ impl ShardRouter {
 
         {
             let mut guard = self.node.write();
+            Self::wait_for_compactions(&guard)?;
 
             match &*guard {
                 ShardNode::Leaf(_) => None,
diff --git a/src/shard.rs b/src/shard.rs
index 6859359..8b49a8b 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -894,7 +894,7 @@ impl Shard {
         Ok(TryReplaceStatus::KeyDoesNotExist(row_guard, had_collision))
     }
 
-    fn wait_for_compaction(&self) -> Result<()> {
+    pub(crate) fn wait_for_compaction(&self) -> Result<()> {
         let mut handle_guard = self.compaction_handle.lock();
         if let Some(handle) = handle_guard.take() {
             handle.wait()?;
-- 
2.43.0


From 7afe9466b844c40b4d67c3dca77797f0962e3bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 09/16] fix: flush also syncs the target of a running
 compaction

Rows that were already compacted live in the target file, so flushing only
the source did not make changes to them durable.
---
 src/shard.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 8b49a8b..8451b07 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -529,7 +529,12 @@ impl Shard {
 
     pub(crate) fn flush(&self) -> Result<()> {
         //self.mmap.flush()? -- fdatasync should take care of that as well
-        self.files.read().0.file.sync_data()?;
+        let files_guard = self.files.read();
+        files_guard.0.file.sync_data()?;
+        if let Some(ref target) = files_guard.1 {
+            // rows that were already compacted live there
+            target.file.sync_data()?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From 67a088e9c220c34116ee3118841c0b3b50b069f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 10/16] fix: do not split a shard whose span cannot be halved

Splitting a span of length one made an empty bottom half and a top half with
the name of the original, which was then removed, losing its entries, and the
insert retried forever.
---
 src/shard.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 8451b07..19bfa0c 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -1,4 +1,4 @@
-use anyhow::bail;
+use anyhow::{bail, ensure};
 use bytemuck::{bytes_of_mut, Pod, Zeroable};
 use parking_lot::{Mutex, RwLock, RwLockWriteGuard};
 use simd_itertools::PositionSimd;
@@ -547,6 +547,12 @@ impl Shard {
         let files_guard = self.files.write();
 
         let mid = (self.span.start + self.span.end) / 2;
+        ensure!(
+            self.span.start < mid,
+            "shard {:04x}-{:04x} is full and too narrow to be split",
+            self.span.start,
+            self.span.end
+        );
 
         let t0 = Instant::now();
 
-- 
2.43.0


From b99c4890689391610708f2f3f1842c4bf18bf606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 11/16] fix: reload the shards even if merging failed in the
 middle

After an IO error the tree still had shards whose files were already merged
and removed, so that later writes to them were lost.
---
 src/router.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index 767e74f..ebbb015 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -501,18 +501,20 @@ impl ShardRouter {
             let mut guard = self.node.write();
             Self::wait_for_compactions(&guard)?;
 
-            match &*guard {
-                ShardNode::Leaf(_) => None,
+            let res = match &*guard {
+                ShardNode::Leaf(_) => Ok(None),
                 ShardNode::Vertex(bottom, top) => {
-                    self._merge(&bottom, &top, max_fill, &mut shards_to_remove)?
+                    self._merge(&bottom, &top, max_fill, &mut shards_to_remove)
                 }
             };
 
+            // reload even if it failed in the middle: the files of shards that were already merged are gone
             *guard = Self::treeify(
                 Self::load(&self.config, &self.stats, &self.threadpool)?,
                 &self.stats,
                 &self.threadpool,
             );
+            res?;
         }
 
         let new_num_shards: u32 = self.call_on_all_shards(|_| Ok(1))?.iter().sum();
-- 
2.43.0


From 5fbf98dcf625ead4a94df722e73f4c6f3247d197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 12/16] fix: pop_list_* and set_in_list_promoting hold the list
 lock throughout

They looked up and removed (or removed and re-inserted) the item under
separate locks: a concurrent update made pop return a stale value while
dropping the new one, and a promoted item was missing for a moment.
---
 src/lists.rs | 103 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 74 insertions(+), 29 deletions(-)

diff --git a/src/lists.rs b/src/lists.rs
index 1259851..b5a4b09 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -154,7 +154,7 @@ impl CandyStore {
         &self,
         list_key: Vec<u8>,
         item_key: Vec<u8>,
-        mut val: Vec<u8>,
+        val: Vec<u8>,
         mode: InsertMode,
     ) -> Result<InsertToListStatus> {
         self.ensure_list_item_fits(&item_key, &val)?;
@@ -163,9 +163,21 @@ impl CandyStore {
         let (item_ph, item_key) = self.make_item_key(list_ph, item_key);
 
         let _guard = self.lock_list(list_ph);
+        self._insert_to_list_locked(list_ph, &list_key, item_ph, &item_key, val, mode)
+    }
 
+    // the list must be locked by the caller
+    fn _insert_to_list_locked(
+        &self,
+        list_ph: PartedHash,
+        list_key: &[u8],
+        item_ph: PartedHash,
+        item_key: &[u8],
+        mut val: Vec<u8>,
+        mode: InsertMode,
+    ) -> Result<InsertToListStatus> {
         // if the item already exists, it's already part of the list. just update it and preserve the index
-        if let Some(mut existing_val) = self.get_raw(&item_key)? {
+        if let Some(mut existing_val) = self.get_raw(item_key)? {
             match mode {
                 InsertMode::GetOrCreate => {
                     existing_val.truncate(existing_val.len() - size_of::<u64>());
@@ -186,7 +198,7 @@ impl CandyStore {
             }
 
             val.extend_from_slice(&existing_val[existing_val.len() - size_of::<u64>()..]);
-            self.replace_raw(&item_key, &val, None)?;
+            self.replace_raw(item_key, &val, None)?;
             existing_val.truncate(existing_val.len() - size_of::<u64>());
             return Ok(InsertToListStatus::Replaced(existing_val));
         }
@@ -198,7 +210,7 @@ impl CandyStore {
 
         // get of create the list
         let res = self.get_or_create_raw(
-            &list_key,
+            list_key,
             bytes_of(&List {
                 head_idx: Self::FIRST_LIST_IDX,
                 tail_idx: Self::FIRST_LIST_IDX + 1,
@@ -221,7 +233,7 @@ impl CandyStore {
 
                 // create item
                 val.extend_from_slice(bytes_of(&Self::FIRST_LIST_IDX));
-                self.set_raw(&item_key, &val)?;
+                self.set_raw(item_key, &val)?;
             }
             crate::GetOrCreateStatus::ExistingValue(list_bytes) => {
                 let mut list = *from_bytes::<List>(&list_bytes);
@@ -231,7 +243,7 @@ impl CandyStore {
 
                 // update list
                 list.num_items += 1;
-                self.set_raw(&list_key, bytes_of(&list))?;
+                self.set_raw(list_key, bytes_of(&list))?;
 
                 // create chain
                 self.set_raw(
@@ -245,7 +257,7 @@ impl CandyStore {
 
                 // create item
                 val.extend_from_slice(bytes_of(&idx));
-                self.set_raw(&item_key, &val)?;
+                self.set_raw(item_key, &val)?;
             }
         }
 
@@ -306,11 +318,23 @@ impl CandyStore {
         val: Vec<u8>,
         promote: bool,
     ) -> Result<SetStatus> {
+        self.ensure_list_item_fits(&item_key, &val)?;
+
+        let (list_ph, list_key) = self.make_list_key(list_key);
+        let (item_ph, item_key) = self.make_item_key(list_ph, item_key);
+
+        let _guard = self.lock_list(list_ph);
         if promote {
-            self.ensure_list_item_fits(&item_key, &val)?;
-            self.owned_remove_from_list(list_key.clone(), item_key.clone())?;
+            self._remove_from_list_locked(list_ph, &list_key, &item_key)?;
         }
-        match self._insert_to_list(list_key, item_key, val, InsertMode::Set)? {
+        match self._insert_to_list_locked(
+            list_ph,
+            &list_key,
+            item_ph,
+            &item_key,
+            val,
+            InsertMode::Set,
+        )? {
             InsertToListStatus::Created(_v) => Ok(SetStatus::CreatedNew),
             InsertToListStatus::Replaced(v) => Ok(SetStatus::PrevValue(v)),
             _ => unreachable!(),
@@ -436,8 +460,17 @@ impl CandyStore {
         let (_, item_key) = self.make_item_key(list_ph, item_key);
 
         let _guard = self.lock_list(list_ph);
+        self._remove_from_list_locked(list_ph, &list_key, &item_key)
+    }
 
-        let Some(mut existing_val) = self.get_raw(&item_key)? else {
+    // the list must be locked by the caller
+    fn _remove_from_list_locked(
+        &self,
+        list_ph: PartedHash,
+        list_key: &[u8],
+        item_key: &[u8],
+    ) -> Result<Option<Vec<u8>>> {
+        let Some(mut existing_val) = self.get_raw(item_key)? else {
             return Ok(None);
         };
 
@@ -449,7 +482,7 @@ impl CandyStore {
         existing_val.truncate(existing_val.len() - size_of::<u64>());
 
         // update list, if the item was the head/tail
-        if let Some(list_bytes) = self.get_raw(&list_key)? {
+        if let Some(list_bytes) = self.get_raw(list_key)? {
             let mut list = *from_bytes::<List>(&list_bytes);
 
             list.num_items -= 1;
@@ -462,9 +495,9 @@ impl CandyStore {
                 }
             }
             if list.is_empty() {
-                self.remove_raw(&list_key)?;
+                self.remove_raw(list_key)?;
             } else {
-                self.set_raw(&list_key, bytes_of(&list))?;
+                self.set_raw(list_key, bytes_of(&list))?;
             }
         }
 
@@ -476,7 +509,7 @@ impl CandyStore {
         }))?;
 
         // remove item
-        self.remove_raw(&item_key)?;
+        self.remove_raw(item_key)?;
 
         Ok(Some(existing_val))
     }
@@ -687,6 +720,30 @@ impl CandyStore {
         Ok(None)
     }
 
+    fn _pop_list(&self, list_key: Vec<u8>, fwd: bool) -> Result<Option<KVPair>> {
+        let (list_ph, list_key) = self.make_list_key(list_key);
+        let _guard = self.lock_list(list_ph);
+
+        let Some(list_bytes) = self.get_raw(&list_key)? else {
+            return Ok(None);
+        };
+        let list = *from_bytes::<List>(&list_bytes);
+        let mut range = list.head_idx..list.tail_idx;
+        while let Some(idx) = if fwd {
+            range.next()
+        } else {
+            range.next_back()
+        } {
+            let Some((_, k, v)) = self.get_from_list_at_index(list_ph, idx, true)? else {
+                continue;
+            };
+            let (_, item_key) = self.make_item_key(list_ph, k.clone());
+            self._remove_from_list_locked(list_ph, &list_key, &item_key)?;
+            return Ok(Some((k, v)));
+        }
+        Ok(None)
+    }
+
     /// Removes and returns the first (head) element of the list
     pub fn pop_list_head<B: AsRef<[u8]> + ?Sized>(&self, list_key: &B) -> Result<Option<KVPair>> {
         self.owned_pop_list_head(list_key.as_ref().to_owned())
@@ -694,13 +751,7 @@ impl CandyStore {
 
     /// Owned version of [Self::peek_list_tail]
     pub fn owned_pop_list_head(&self, list_key: Vec<u8>) -> Result<Option<KVPair>> {
-        for kv in self.owned_iter_list(list_key.clone()) {
-            let (k, v) = kv?;
-            if let Some(_) = self.owned_remove_from_list(list_key.clone(), k.clone())? {
-                return Ok(Some((k, v)));
-            }
-        }
-        Ok(None)
+        self._pop_list(list_key, true)
     }
 
     /// Removes and returns the last (tail) element of the list
@@ -710,13 +761,7 @@ impl CandyStore {
 
     /// Owned version of [Self::peek_list_tail]
     pub fn owned_pop_list_tail(&self, list_key: Vec<u8>) -> Result<Option<KVPair>> {
-        for kv in self.owned_iter_list_backwards(list_key.clone()) {
-            let (k, v) = kv?;
-            if let Some(_) = self.owned_remove_from_list(list_key.clone(), k.clone())? {
-                return Ok(Some((k, v)));
-            }
-        }
-        Ok(None)
+        self._pop_list(list_key, false)
     }
 
     /// Returns the estimated list length
-- 
2.43.0


From c6131a4442d46dde9fd2bd7471857b33acfbe920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:27 +0000
Subject: [PATCH 13/16] fix: reopen after a crash in the middle of creating a
 shard file

---
 src/shard.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 19bfa0c..6e941eb 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -372,7 +372,11 @@ impl Shard {
         if file_size != 0 {
             let mut meta_header = MetaHeader::default();
             let sz = file.read(bytes_of_mut(&mut meta_header))?;
-            if sz != size_of::<MetaHeader>()
+            if Self::is_uninitialized(&file, file_size, &meta_header)? {
+                // we crashed while creating this file: it can't have any entries
+                file.set_len(0)?;
+                file_size = 0;
+            } else if sz != size_of::<MetaHeader>()
                 || meta_header.magic != SHARD_FILE_MAGIC
                 || meta_header.version != SHARD_FILE_VERSION
             {
@@ -450,6 +454,21 @@ impl Shard {
         })
     }
 
+    // a new file is first extended and only then its magic and version are written; if we crash in between, one of
+    // them is missing and the rest of the header is all zeros
+    fn is_uninitialized(file: &File, file_size: u64, meta_header: &MetaHeader) -> Result<bool> {
+        if file_size < HEADER_SIZE
+            || (meta_header.magic != [0; 8] && meta_header.magic != SHARD_FILE_MAGIC)
+            || (meta_header.version != 0 && meta_header.version != SHARD_FILE_VERSION)
+            || (meta_header.magic != [0; 8] && meta_header.version != 0)
+        {
+            return Ok(false);
+        }
+        let mut rest = vec![0u8; HEADER_SIZE as usize - size_of::<MetaHeader>()];
+        file.read_exact_at(&mut rest, size_of::<MetaHeader>() as u64)?;
+        Ok(rest.iter().all(|b| *b == 0))
+    }
+
     fn new(
         span: Range<u32>,
         mmap_file: MmapFile,
-- 
2.43.0


From 86cfbdc8a79928d6d2437d3ac8ad327617158ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:28 +0000
Subject: [PATCH 14/16] fix: a crash while creating or clearing several shards
 must not leave a gap

---
 src/router.rs | 44 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index ebbb015..2a3e3a9 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -1,6 +1,6 @@
 use anyhow::ensure;
 use parking_lot::RwLock;
-use std::{ops::Range, sync::Arc};
+use std::{ops::Range, path::PathBuf, sync::Arc};
 
 use crate::shard::{CompactionThreadPool, InsertMode, InsertStatus, Shard};
 use crate::stats::InternalStats;
@@ -180,6 +180,12 @@ impl ShardRouter {
     ) -> Result<Vec<Shard>> {
         let step = Self::calc_step(config.expected_number_of_keys);
 
+        if step < Self::END_OF_SHARDS {
+            // until all of the shards exist, an empty one that covers all of them stands for the missing ones: if we
+            // crash in the middle, it is the one that will be kept (see `consolidate_ranges`)
+            Self::create_covering_shard(config, stats, threadpool)?;
+        }
+
         let mut shards = vec![];
         let mut start = 0;
         while start < Self::END_OF_SHARDS {
@@ -194,9 +200,39 @@ impl ShardRouter {
             start = end;
         }
 
+        if step < Self::END_OF_SHARDS {
+            std::fs::remove_file(Self::covering_shard_path(config))?;
+        }
+
         Ok(shards)
     }
 
+    fn covering_shard_path(config: &InternalConfig) -> PathBuf {
+        config
+            .dir_path
+            .join(format!("shard_{:04x}-{:04x}", 0, Self::END_OF_SHARDS))
+    }
+
+    fn create_covering_shard(
+        config: &Arc<InternalConfig>,
+        stats: &Arc<InternalStats>,
+        threadpool: &Arc<CompactionThreadPool>,
+    ) -> Result<()> {
+        // it may be in use
+        let path = Self::covering_shard_path(config);
+        if path.try_exists()? {
+            std::fs::remove_file(path)?;
+        }
+        Shard::open(
+            0..Self::END_OF_SHARDS,
+            true,
+            config.clone(),
+            stats.clone(),
+            threadpool.clone(),
+        )?;
+        Ok(())
+    }
+
     fn from_shardnode(
         n: ShardNode,
         stats: Arc<InternalStats>,
@@ -312,6 +348,10 @@ impl ShardRouter {
         // it doesn't matter if a compaction failed, its shard is going to be removed
         _ = Self::wait_for_compactions(&guard);
 
+        // if we crash in the middle, the files that weren't removed yet must not be loaded without the others
+        Self::create_covering_shard(&self.config, &self.stats, &self.threadpool)?;
+        let covering = Self::covering_shard_path(&self.config);
+
         for res in std::fs::read_dir(&self.config.dir_path)? {
             let entry = res?;
             let filename = entry.file_name();
@@ -321,7 +361,7 @@ impl ShardRouter {
             let Ok(filetype) = entry.file_type() else {
                 continue;
             };
-            if !filetype.is_file() {
+            if !filetype.is_file() || entry.path() == covering {
                 continue;
             }
             if filename.starts_with("shard_")
-- 
2.43.0


From e8abbc2917e357ac1dc222a848f6e504758b878e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:32 +0000
Subject: [PATCH 15/16] fix: resuming an interrupted compaction must not bring
 back removed entries

---
 src/shard.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/shard.rs b/src/shard.rs
index 6e941eb..843de7e 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -536,6 +536,13 @@ impl Shard {
                 target_col += 1;
             }
 
+            if first_row {
+                // an interrupted compaction may have left more entries here than the row has now
+                for col in target_col..ROW_WIDTH {
+                    target_row.signatures[col] = INVALID_SIG;
+                }
+            }
+
             target
                 .header()
                 .compacted_up_to
-- 
2.43.0


From 3c8814354e796e457b301f8e201c17968b584bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:44 +0000
Subject: [PATCH 16/16] fix: do not split or merge a shard whose last
 compaction failed

---
 src/shard.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/shard.rs b/src/shard.rs
index 843de7e..775ce68 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -571,6 +571,12 @@ impl Shard {
         }
 
         let files_guard = self.files.write();
+        ensure!(
+            files_guard.1.is_none(),
+            "shard {:04x}-{:04x} can't be split: its last compaction failed (it is completed when the store is reopened)",
+            self.span.start,
+            self.span.end
+        );
 
         let mid = (self.span.start + self.span.end) / 2;
         ensure!(
@@ -671,6 +677,10 @@ impl Shard {
     pub(crate) fn merge(bottom: &Shard, top: &Shard) -> Result<Option<Shard>> {
         let bottom_files = bottom.files.write();
         let top_files = top.files.write();
+        if bottom_files.1.is_some() || top_files.1.is_some() {
+            // a compaction failed and some of the entries are only in its target
+            return Ok(None);
+        }
 
         let tmp_filename = bottom.config.dir_path.join(format!(
             "merge_{:04x}-{:04x}",
-- 
2.43.0

