From c7582e918a98de32c00212413bb0b68f891f95f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:20 +0000
Subject: [PATCH 01/13] fix: ignore copies of edits that are already in the
 backlog

An edit that was delivered twice before it could be merged hit an
`unwrap_err()` in the backlog and panicked.
---
 src/backlog.rs | 37 +++++++++++++------------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/src/backlog.rs b/src/backlog.rs
index fad467c..894c073 100644
--- a/src/backlog.rs
+++ b/src/backlog.rs
@@ -32,9 +32,7 @@ impl Backlog {
     /// Runs in `O(n)` in the number of deletions already in the backlog, with
     /// a best-case of `O(log n)`.
     ///
-    /// # Panics
-    ///
-    /// Panics if the deletion has already been backlogged.
+    /// Does nothing if the deletion has already been backlogged.
     #[inline]
     pub fn insert_deletion(&mut self, deletion: Deletion) {
         self.deletions
@@ -48,9 +46,7 @@ impl Backlog {
     /// Runs in `O(n)` in the number of insertions already in the backlog, with
     /// a best-case of `O(log n)`.
     ///
-    /// # Panics
-    ///
-    /// Panics if the insertion has already been backlogged.
+    /// Does nothing if the insertion has already been backlogged.
     #[inline]
     pub fn insert_insertion(&mut self, insertion: Insertion) {
         self.insertions
@@ -97,17 +93,15 @@ impl InsertionsBacklog {
         }
     }
 
-    /// # Panics
-    ///
-    /// Panics if the insertion has already been inserted.
+    /// Does nothing if the insertion has already been inserted.
     #[inline]
     fn insert(&mut self, insertion: Insertion) {
-        let offset = self
+        if let Err(offset) = self
             .insertions
             .binary_search_by(|probe| probe.start().cmp(&insertion.start()))
-            .unwrap_err();
-
-        self.insertions.insert(offset, insertion);
+        {
+            self.insertions.insert(offset, insertion);
+        }
     }
 }
 
@@ -142,19 +136,14 @@ impl DeletionsBacklog {
         }
     }
 
-    /// # Panics
-    ///
-    /// Panics if the deletion has already inserted.
+    /// Does nothing if the deletion has already been inserted.
     #[inline]
     fn insert(&mut self, deletion: Deletion) {
-        let offset = self
-            .deletions
-            .binary_search_by(|probe| {
-                probe.deletion_ts().cmp(&deletion.deletion_ts())
-            })
-            .unwrap_err();
-
-        self.deletions.insert(offset, deletion);
+        if let Err(offset) = self.deletions.binary_search_by(|probe| {
+            probe.deletion_ts().cmp(&deletion.deletion_ts())
+        }) {
+            self.deletions.insert(offset, deletion);
+        }
     }
 }
 
-- 
2.43.0


From 91f95f808a278f0bb760512647ae2c16f5b3ac83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:50 +0000
Subject: [PATCH 02/13] fix: drop the backlogged copy of an edit that's merged
 directly

If a second copy of a backlogged edit arrived once the edit was ready, it was
merged directly and its first copy stayed in the backlog. Draining the backlog
then panicked in debug builds, and in release builds the stale copy blocked
every later edit of its author.
---
 src/backlog.rs | 40 ++++++++++++++++++++++++++++++++++++++++
 src/replica.rs |  2 ++
 2 files changed, 42 insertions(+)

diff --git a/src/backlog.rs b/src/backlog.rs
index 894c073..6c9098f 100644
--- a/src/backlog.rs
+++ b/src/backlog.rs
@@ -60,6 +60,46 @@ impl Backlog {
     pub fn new() -> Self {
         Self::default()
     }
+
+    /// Removes the copy of a [`Deletion`] that's about to be merged directly,
+    /// if there is one.
+    ///
+    /// Deletions are merged in the order they were created, so the copy can
+    /// only be the first of the backlogged deletions of its replica.
+    #[inline]
+    pub fn remove_deletion(&mut self, deletion: &Deletion) {
+        let Some(backlog) = self.deletions.get_mut(&deletion.deleted_by())
+        else {
+            return;
+        };
+
+        if backlog.deletions.front().is_some_and(|first| {
+            first.deletion_ts() == deletion.deletion_ts()
+        }) {
+            backlog.deletions.pop_front();
+        }
+    }
+
+    /// Removes the copy of an [`Insertion`] that's about to be merged
+    /// directly, if there is one.
+    ///
+    /// Insertions are merged in the order they were created, so the copy can
+    /// only be the first of the backlogged insertions of its replica.
+    #[inline]
+    pub fn remove_insertion(&mut self, insertion: &Insertion) {
+        let Some(backlog) = self.insertions.get_mut(&insertion.inserted_by())
+        else {
+            return;
+        };
+
+        if backlog
+            .insertions
+            .front()
+            .is_some_and(|first| first.start() == insertion.start())
+        {
+            backlog.insertions.pop_front();
+        }
+    }
 }
 
 /// Stores the backlogged [`Insertion`]s of a particular replica.
diff --git a/src/replica.rs b/src/replica.rs
index 2b93869..0295fcc 100644
--- a/src/replica.rs
+++ b/src/replica.rs
@@ -715,6 +715,7 @@ impl Replica {
         if deletion.is_no_op() || self.has_merged_deletion(deletion) {
             Vec::new()
         } else if self.can_merge_deletion(deletion) {
+            self.backlog.remove_deletion(deletion);
             self.merge_unchecked_deletion(deletion)
         } else {
             self.backlog.insert_deletion(deletion.clone());
@@ -774,6 +775,7 @@ impl Replica {
         if insertion.is_no_op() || self.has_merged_insertion(insertion) {
             None
         } else if self.can_merge_insertion(insertion) {
+            self.backlog.remove_insertion(insertion);
             Some(self.merge_unchecked_insertion(insertion))
         } else {
             self.backlog.insert_insertion(insertion.clone());
-- 
2.43.0


From 780f6f34a9016e26676f41a2a5de556c04fa1883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:24 +0000
Subject: [PATCH 03/13] fix: don't recurse while draining backlogged deletions

Every backlogged deletion whose text was already gone took another stack frame
(unless the optimizer removed the call), overflowing the stack on large
backlogs.
---
 src/backlog.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/backlog.rs b/src/backlog.rs
index 6c9098f..eee0994 100644
--- a/src/backlog.rs
+++ b/src/backlog.rs
@@ -227,24 +227,26 @@ impl Iterator for BackloggedDeletions<'_> {
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        let deletions = self.current.as_mut()?;
-
-        let Some(first) = deletions.deletions.front() else {
-            self.current = self.iter.next();
-            return self.next();
-        };
+        // This is a loop and not a recursive call because the backlog can
+        // contain an arbitrary number of deletions that don't produce any
+        // ranges.
+        loop {
+            let deletions = self.current.as_mut()?;
+
+            let Some(first) = deletions.deletions.front() else {
+                self.current = self.iter.next();
+                continue;
+            };
 
-        if self.replica.can_merge_deletion(first) {
-            let first = deletions.deletions.pop_front().unwrap();
-            let ranges = self.replica.merge_unchecked_deletion(&first);
-            if ranges.is_empty() {
-                self.next()
+            if self.replica.can_merge_deletion(first) {
+                let first = deletions.deletions.pop_front().unwrap();
+                let ranges = self.replica.merge_unchecked_deletion(&first);
+                if !ranges.is_empty() {
+                    return Some(ranges);
+                }
             } else {
-                Some(ranges)
+                self.current = self.iter.next();
             }
-        } else {
-            self.current = self.iter.next();
-            self.next()
         }
     }
 }
-- 
2.43.0


From 9077b38c2df7a133ae4b2030c67a61d463a35410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:24 +0000
Subject: [PATCH 04/13] fix: drain every backlogged insertion that's ready to
 be merged

Draining visited each replica's insertions once, in hash map order, so an
insertion anchored to the text of a replica visited later stayed in the
backlog even though everything it depends on had been merged.
---
 src/backlog.rs | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/src/backlog.rs b/src/backlog.rs
index eee0994..8bb3190 100644
--- a/src/backlog.rs
+++ b/src/backlog.rs
@@ -261,8 +261,7 @@ impl core::iter::FusedIterator for BackloggedDeletions<'_> {}
 /// [`Replica`]. See its documentation for more information.
 pub struct BackloggedInsertions<'a> {
     replica: &'a mut Replica,
-    current: Option<&'a mut InsertionsBacklog>,
-    iter: ReplicaIdMapValuesMut<'a, InsertionsBacklog>,
+    backlog: &'a mut ReplicaIdMap<InsertionsBacklog>,
 }
 
 impl<'a> BackloggedInsertions<'a> {
@@ -280,11 +279,7 @@ impl<'a> BackloggedInsertions<'a> {
             core::mem::transmute::<&mut Backlog, &mut Backlog>(backlog)
         };
 
-        let mut iter = backlog.insertions.values_mut();
-
-        let current = iter.next();
-
-        Self { replica, current, iter }
+        Self { replica, backlog: &mut backlog.insertions }
     }
 }
 
@@ -293,21 +288,20 @@ impl Iterator for BackloggedInsertions<'_> {
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        let insertions = self.current.as_mut()?;
-
-        let Some(first) = insertions.insertions.front() else {
-            self.current = self.iter.next();
-            return self.next();
-        };
-
-        if self.replica.can_merge_insertion(first) {
-            let first = insertions.insertions.pop_front().unwrap();
-            let edit = self.replica.merge_unchecked_insertion(&first);
-            Some((first.text().clone(), edit))
-        } else {
-            self.current = self.iter.next();
-            self.next()
+        // Merging an insertion can make the insertions of any other replica
+        // ready to be merged (it might contain their anchor), so we have to
+        // start over every time.
+        for insertions in self.backlog.values_mut() {
+            let Some(first) = insertions.insertions.front() else { continue };
+
+            if self.replica.can_merge_insertion(first) {
+                let first = insertions.insertions.pop_front().unwrap();
+                let offset = self.replica.merge_unchecked_insertion(&first);
+                return Some((first.text().clone(), offset));
+            }
         }
+
+        None
     }
 }
 
-- 
2.43.0


From 86ce57cc750fc60dfb5867873964d4f99ffeacad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:30 +0000
Subject: [PATCH 05/13] fix: don't resolve right-biased anchors to text that's
 still missing

A right-biased anchor is attached to the character following its offset, so
having merged everything up to the offset is not enough: resolving an anchor to
the first character of the next insertion of that replica panicked instead of
returning `None`.
---
 src/replica.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/replica.rs b/src/replica.rs
index 0295fcc..0f42103 100644
--- a/src/replica.rs
+++ b/src/replica.rs
@@ -931,7 +931,20 @@ impl Replica {
     /// ```
     #[inline]
     pub fn resolve_anchor(&self, anchor: Anchor) -> Option<Length> {
-        if self.has_anchor(anchor.inner()) {
+        let inner = anchor.inner();
+
+        let has_anchor = match anchor.bias() {
+            AnchorBias::Left => self.has_anchor(inner),
+            // The character the anchor is attached to is the one *after* the
+            // offset.
+            AnchorBias::Right => {
+                anchor.is_end_of_document()
+                    || self.version_map.get(inner.replica_id())
+                        > inner.offset()
+            },
+        };
+
+        if has_anchor {
             Some(self.run_tree.resolve_anchor(anchor))
         } else {
             None
-- 
2.43.0


From 527a70817072e3bb6ba3c16d2b2a799952259c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:45 +0000
Subject: [PATCH 06/13] fix: return an error when a decoded range overflows

Decoding a damaged `Text`, `Insertion` or `Deletion` whose start plus length
exceeds `usize::MAX` panicked in debug builds and produced a reversed range in
release builds.
---
 src/deletion.rs | 5 ++++-
 src/text.rs     | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/deletion.rs b/src/deletion.rs
index fe166e9..ccc0b82 100644
--- a/src/deletion.rs
+++ b/src/deletion.rs
@@ -277,9 +277,12 @@ mod encode {
                     let (run_ts, buf) = RunTs::decode(buf)?;
                     let (offset, buf) = Length::decode(buf)?;
                     let (length, buf) = Length::decode(buf)?;
+                    let end_offset = offset
+                        .checked_add(length)
+                        .ok_or(IntDecodeError::Overflow)?;
                     let start = InnerAnchor::new(replica_id, offset, run_ts);
                     let end =
-                        InnerAnchor::new(replica_id, offset + length, run_ts);
+                        InnerAnchor::new(replica_id, end_offset, run_ts);
                     Ok(((start, end), buf))
                 },
             }
diff --git a/src/text.rs b/src/text.rs
index 554cf42..12c5d87 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -140,7 +140,8 @@ mod encode {
             let (inserted_by, buf) = ReplicaId::decode(buf)?;
             let (start, buf) = usize::decode(buf)?;
             let (len, buf) = usize::decode(buf)?;
-            let text = Self { inserted_by, range: start..start + len };
+            let end = start.checked_add(len).ok_or(IntDecodeError::Overflow)?;
+            let text = Self { inserted_by, range: start..end };
             Ok((text, buf))
         }
     }
-- 
2.43.0


From f267c5973d38b5acfd211765f05021dfe0d8f561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:28 +0000
Subject: [PATCH 07/13] fix: reject deletion ranges that include usize::MAX

Converting `..=usize::MAX` to a half-open range wrapped around to an empty
one in release builds, so the out of bounds deletion was silently ignored
instead of panicking.
---
 src/utils.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 8c3be08..0db366a 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -112,12 +112,14 @@ where
 
     let start = match range.start_bound() {
         Bound::Included(&n) => n,
-        Bound::Excluded(&n) => n + 1,
+        // Saturating, so that a bound of `usize::MAX` stays out of bounds
+        // instead of wrapping around to 0.
+        Bound::Excluded(&n) => n.saturating_add(1),
         Bound::Unbounded => lo,
     };
 
     let end = match range.end_bound() {
-        Bound::Included(&n) => n + 1,
+        Bound::Included(&n) => n.saturating_add(1),
         Bound::Excluded(&n) => n,
         Bound::Unbounded => hi,
     };
-- 
2.43.0


From 5819bb13183ac1858ff08973efdbed90ba8747b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:27 +0000
Subject: [PATCH 08/13] fix: don't mutate the Gtree through a shared reference

Transmuting a &Gtree to a &mut Gtree is undefined behaviour no matter
what is done with the result.
---
 src/run_tree.rs | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/src/run_tree.rs b/src/run_tree.rs
index e7ce43f..01e192a 100644
--- a/src/run_tree.rs
+++ b/src/run_tree.rs
@@ -688,28 +688,17 @@ impl RunTree {
                 continue;
             }
 
-            // This is awful but I'm not sure it can be avoided. We
-            // transmute a shared reference to the Gtree to an exclusive
-            // one to modify it while we're iterating over it.
-            //
-            // SAFETY: this is safe because deleting a whole run doesn't
-            // modify the Gtree's structure at all (no heap allocations,
-            // etc), only the lengths of all the nodes from the run we're
-            // deleting up to the root.
-            let gtree = unsafe {
-                #[allow(mutable_transmutes)]
-                core::mem::transmute::<&Gtree, &mut Gtree>(&self.gtree)
-            };
-
-            gtree.with_leaf_mut(run_idx, EditRun::delete);
+            self.gtree.with_leaf_mut(run_idx, EditRun::delete);
 
-            gtree.remove_cursor();
+            self.gtree.remove_cursor();
 
             if !matches!(state, DeletionState::Deleting(_)) {
                 state = DeletionState::Deleting(visible_offset);
             }
 
             visible_offset += run_len;
+
+            runs = self.gtree.leaves::<false>(run_idx);
         }
 
         ranges
-- 
2.43.0


From 70d3c32bc9cc287efa50463be9a67c48a0cf077e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:27 +0000
Subject: [PATCH 09/13] fix: don't hold a child slice while deleting the
 children

The slice's lifetime was extended with a transmute while its Gtree was
borrowed mutably, which breaks Rust's aliasing rules.
---
 src/gtree.rs | 33 ++++++++-------------------------
 1 file changed, 8 insertions(+), 25 deletions(-)

diff --git a/src/gtree.rs b/src/gtree.rs
index 919eb20..c5600aa 100644
--- a/src/gtree.rs
+++ b/src/gtree.rs
@@ -1255,37 +1255,20 @@ impl<const ARITY: usize, L: Leaf> Gtree<ARITY, L> {
         L: Delete,
         BeforeDelete: FnMut(&L),
     {
-        let inode = self.inode_mut(inode);
+        *self.inode_mut(inode).len_mut() = 0;
 
-        *inode.len_mut() = 0;
-
-        // In both arms of the match we transmute the slices back into the same
-        // types to iterate over the inode/leaf indices and delete the
-        // inodes/leaves at the same time, which Rust's aliasing rules would
-        // prohibit.
-        //
-        // SAFETY: it's safe.
-
-        match inode.children() {
-            Either::Internal(inode_idxs) => {
-                let inode_idxs = unsafe {
-                    mem::transmute::<&[InodeIdx], &[InodeIdx]>(inode_idxs)
-                };
-                for &inode_idx in inode_idxs {
+        for child_idx in 0..self.inode(inode).num_children() {
+            match self.inode(inode).child(child_idx) {
+                Either::Internal(inode_idx) => {
                     self.delete_inode(inode_idx, before_delete);
-                }
-            },
+                },
 
-            Either::Leaf(leaf_idxs) => {
-                let leaf_idxs = unsafe {
-                    mem::transmute::<&[LeafIdx<L>], &[LeafIdx<L>]>(leaf_idxs)
-                };
-                for &leaf_idx in leaf_idxs {
+                Either::Leaf(leaf_idx) => {
                     let leaf = self.leaf_mut(leaf_idx);
                     before_delete(leaf);
                     leaf.delete();
-                }
-            },
+                },
+            }
         }
     }
 
-- 
2.43.0


From 75603fe2b7a77d70be3c47e7435d477695238efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:27 +0000
Subject: [PATCH 10/13] fix: don't alias the replica in the backlog iterators

Both iterators held an exclusive reference to a replica together with
one to the backlog inside it.
---
 src/backlog.rs    | 97 ++++++++++++++++++++++++++---------------------
 src/lib.rs        |  2 +-
 src/replica.rs    |  5 +++
 src/replica_id.rs |  3 --
 4 files changed, 59 insertions(+), 48 deletions(-)

diff --git a/src/backlog.rs b/src/backlog.rs
index 8bb3190..836441d 100644
--- a/src/backlog.rs
+++ b/src/backlog.rs
@@ -27,6 +27,20 @@ impl Backlog {
         }
     }
 
+    /// Returns the first of the backlogged [`Deletion`]s of the given replica.
+    #[inline]
+    fn first_deletion(&self, deleted_by: ReplicaId) -> Option<&Deletion> {
+        self.deletions.get(&deleted_by)?.deletions.front()
+    }
+
+    /// Returns the first of the backlogged [`Insertion`]s of every replica.
+    #[inline]
+    fn first_insertions(&self) -> impl Iterator<Item = &Insertion> + '_ {
+        self.insertions
+            .values()
+            .filter_map(|backlog| backlog.insertions.front())
+    }
+
     /// Inserts a new [`Deletion`] into the backlog.
     ///
     /// Runs in `O(n)` in the number of deletions already in the backlog, with
@@ -61,6 +75,20 @@ impl Backlog {
         Self::default()
     }
 
+    /// Removes and returns the first of the backlogged [`Deletion`]s of the
+    /// given replica.
+    #[inline]
+    fn pop_deletion(&mut self, deleted_by: ReplicaId) -> Option<Deletion> {
+        self.deletions.get_mut(&deleted_by)?.deletions.pop_front()
+    }
+
+    /// Removes and returns the first of the backlogged [`Insertion`]s of the
+    /// given replica.
+    #[inline]
+    fn pop_insertion(&mut self, inserted_by: ReplicaId) -> Option<Insertion> {
+        self.insertions.get_mut(&inserted_by)?.insertions.pop_front()
+    }
+
     /// Removes the copy of a [`Deletion`] that's about to be merged directly,
     /// if there is one.
     ///
@@ -195,26 +223,17 @@ impl DeletionsBacklog {
 /// [`Replica`]. See its documentation for more information.
 pub struct BackloggedDeletions<'a> {
     replica: &'a mut Replica,
-    current: Option<&'a mut DeletionsBacklog>,
-    iter: ReplicaIdMapValuesMut<'a, DeletionsBacklog>,
+    current: Option<ReplicaId>,
+    iter: std::vec::IntoIter<ReplicaId>,
 }
 
 impl<'a> BackloggedDeletions<'a> {
     #[inline]
     pub(crate) fn from_replica(replica: &'a mut Replica) -> Self {
-        let backlog = replica.backlog_mut();
-
-        // We transmute the exclusive reference to the backlog into the same
-        // type to get around the borrow checker.
-        //
-        // SAFETY: this is safe because in the `Iterator` implementation we
-        // never access the backlog through the `Replica`, neither directly nor
-        // by calling any methods on `Replica` that would access the backlog.
-        let backlog = unsafe {
-            core::mem::transmute::<&mut Backlog, &mut Backlog>(backlog)
-        };
+        let replica_ids =
+            replica.backlog().deletions.keys().copied().collect::<Vec<_>>();
 
-        let mut iter = backlog.deletions.values_mut();
+        let mut iter = replica_ids.into_iter();
 
         let current = iter.next();
 
@@ -231,15 +250,17 @@ impl Iterator for BackloggedDeletions<'_> {
         // contain an arbitrary number of deletions that don't produce any
         // ranges.
         loop {
-            let deletions = self.current.as_mut()?;
+            let deleted_by = self.current?;
 
-            let Some(first) = deletions.deletions.front() else {
-                self.current = self.iter.next();
-                continue;
-            };
+            let can_merge_first = self
+                .replica
+                .backlog()
+                .first_deletion(deleted_by)
+                .is_some_and(|first| self.replica.can_merge_deletion(first));
 
-            if self.replica.can_merge_deletion(first) {
-                let first = deletions.deletions.pop_front().unwrap();
+            if can_merge_first {
+                let first =
+                    self.replica.backlog_mut().pop_deletion(deleted_by)?;
                 let ranges = self.replica.merge_unchecked_deletion(&first);
                 if !ranges.is_empty() {
                     return Some(ranges);
@@ -261,25 +282,12 @@ impl core::iter::FusedIterator for BackloggedDeletions<'_> {}
 /// [`Replica`]. See its documentation for more information.
 pub struct BackloggedInsertions<'a> {
     replica: &'a mut Replica,
-    backlog: &'a mut ReplicaIdMap<InsertionsBacklog>,
 }
 
 impl<'a> BackloggedInsertions<'a> {
     #[inline]
     pub(crate) fn from_replica(replica: &'a mut Replica) -> Self {
-        let backlog = replica.backlog_mut();
-
-        // We transmute the exclusive reference to the backlog into the same
-        // type to get around the borrow checker.
-        //
-        // SAFETY: this is safe because in the `Iterator` implementation we
-        // never access the backlog through the `Replica`, neither directly nor
-        // by calling any methods on `Replica` that would access the backlog.
-        let backlog = unsafe {
-            core::mem::transmute::<&mut Backlog, &mut Backlog>(backlog)
-        };
-
-        Self { replica, backlog: &mut backlog.insertions }
+        Self { replica }
     }
 }
 
@@ -291,17 +299,18 @@ impl Iterator for BackloggedInsertions<'_> {
         // Merging an insertion can make the insertions of any other replica
         // ready to be merged (it might contain their anchor), so we have to
         // start over every time.
-        for insertions in self.backlog.values_mut() {
-            let Some(first) = insertions.insertions.front() else { continue };
+        let inserted_by = self
+            .replica
+            .backlog()
+            .first_insertions()
+            .find(|first| self.replica.can_merge_insertion(first))?
+            .inserted_by();
 
-            if self.replica.can_merge_insertion(first) {
-                let first = insertions.insertions.pop_front().unwrap();
-                let offset = self.replica.merge_unchecked_insertion(&first);
-                return Some((first.text().clone(), offset));
-            }
-        }
+        let first = self.replica.backlog_mut().pop_insertion(inserted_by)?;
+
+        let offset = self.replica.merge_unchecked_insertion(&first);
 
-        None
+        Some((first.text().clone(), offset))
     }
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index 31bafc0..1aa9d8e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -157,7 +157,7 @@ pub use insertion::Insertion;
 pub use replica::Replica;
 use replica::*;
 pub use replica_id::ReplicaId;
-use replica_id::{ReplicaIdMap, ReplicaIdMapValuesMut};
+use replica_id::ReplicaIdMap;
 use run_indices::RunIndices;
 use run_tree::*;
 pub use text::Text;
diff --git a/src/replica.rs b/src/replica.rs
index 0f42103..c20edcd 100644
--- a/src/replica.rs
+++ b/src/replica.rs
@@ -200,6 +200,11 @@ impl Replica {
         BackloggedInsertions::from_replica(self)
     }
 
+    #[inline]
+    pub(crate) fn backlog(&self) -> &Backlog {
+        &self.backlog
+    }
+
     #[inline]
     pub(crate) fn backlog_mut(&mut self) -> &mut Backlog {
         &mut self.backlog
diff --git a/src/replica_id.rs b/src/replica_id.rs
index c434ce4..7f09e52 100644
--- a/src/replica_id.rs
+++ b/src/replica_id.rs
@@ -4,9 +4,6 @@ use std::collections::HashMap;
 pub type ReplicaIdMap<T> =
     HashMap<ReplicaId, T, BuildHasherDefault<ReplicaIdHasher>>;
 
-pub type ReplicaIdMapValuesMut<'a, T> =
-    std::collections::hash_map::ValuesMut<'a, ReplicaId, T>;
-
 /// A unique identifier for a [`Replica`](crate::Replica).
 ///
 /// It's very important that all [`Replica`](crate::Replica)s in the same
-- 
2.43.0


From 87a6e97ec8cc20a48f3118dc7ac55e0d3b535ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:17 +0000
Subject: [PATCH 11/13] fix: continue the anchor run when it's the last one in
 its inode

Inserting remote text at the end of a run that was the last one of its inode
(for example at the end of a document) always created a new run, so a receiver
ended up with one run for every keystroke of the author.
---
 src/run_tree.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/run_tree.rs b/src/run_tree.rs
index 01e192a..337051c 100644
--- a/src/run_tree.rs
+++ b/src/run_tree.rs
@@ -747,8 +747,7 @@ impl RunTree {
                     }
                 }
             } else if anchor.can_append(&run) {
-                // Append the run to the anchor run. This is the only path that
-                // doesn't add new runs to the Gtree.
+                // Append the run to the anchor run.
                 return self.append_run_to_another(run, anchor_idx);
             } else {
                 // Insert the run right after the anchor run.
@@ -760,12 +759,19 @@ impl RunTree {
             if run > *leaf {
                 prev_idx = idx;
             } else {
-                return self.insert_run_after_another(run, prev_idx);
+                break;
             }
         }
 
-        // If we get here we're inserting after the last run in the Gtree.
-        self.insert_run_after_another(run, prev_idx)
+        // The anchor run can also be continued when it's the last one in its
+        // inode, as long as it isn't followed by any runs we're tied with.
+        if prev_idx == anchor_idx
+            && self.gtree.leaf(anchor_idx).can_append(&run)
+        {
+            self.append_run_to_another(run, anchor_idx)
+        } else {
+            self.insert_run_after_another(run, prev_idx)
+        }
     }
 
     #[inline]
-- 
2.43.0


From d5acc5786dbcb86b4395df571bc5a029ce5abd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:40 +0000
Subject: [PATCH 12/13] fix: encode a dangling inode index in the same way on
 every machine

The index of the root's parent was encoded as `usize::MAX`, so a replica
encoded on a 32-bit machine had a root with a parent on a 64-bit one, which
panicked on the first edit.
---
 src/gtree.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/gtree.rs b/src/gtree.rs
index c5600aa..f900ec0 100644
--- a/src/gtree.rs
+++ b/src/gtree.rs
@@ -3588,7 +3588,13 @@ pub(crate) mod encode {
     impl Encode for InodeIdx {
         #[inline]
         fn encode(&self, buf: &mut Vec<u8>) {
-            self.0.encode(buf);
+            // A dangling index is encoded in the same way no matter the size
+            // of a `usize`.
+            if self.is_dangling() {
+                u64::MAX.encode(buf);
+            } else {
+                self.0.encode(buf);
+            }
         }
     }
 
@@ -3599,8 +3605,10 @@ pub(crate) mod encode {
 
         #[inline]
         fn decode(buf: &[u8]) -> Result<(Self, &[u8]), Self::Error> {
-            let (idx, rest) = usize::decode(buf)?;
-            Ok((Self(idx), rest))
+            match u64::decode(buf)? {
+                (u64::MAX, rest) => Ok((Self::dangling(), rest)),
+                _ => usize::decode(buf).map(|(idx, rest)| (Self(idx), rest)),
+            }
         }
     }
 
-- 
2.43.0


From ea4d371d9ec02b31f5aa5261b02c7a2d473e596e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:40 +0000
Subject: [PATCH 13/13] fix: don't truncate decoded integers that don't fit a
 usize

On machines where a `usize` is narrower than 64 bits the lengths and
indices of an edit or a replica were decoded modulo 2^32.
---
 src/encode.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/encode.rs b/src/encode.rs
index 4cc71ed..d69ccc8 100644
--- a/src/encode.rs
+++ b/src/encode.rs
@@ -130,7 +130,14 @@ impl Decode for usize {
 
     #[inline(always)]
     fn decode(buf: &[u8]) -> Result<(usize, &[u8]), Self::Error> {
-        u64::decode(buf).map(|(value, rest)| (value as usize, rest))
+        let (value, rest) = u64::decode(buf)?;
+
+        // On machines where `usize` is narrower than 64 bits the value might
+        // not fit, in which case it can't be decoded.
+        let value =
+            usize::try_from(value).map_err(|_| IntDecodeError::Overflow)?;
+
+        Ok((value, rest))
     }
 }
 
-- 
2.43.0

