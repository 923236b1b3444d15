From 392738ed33c5592211a5e7e00aed09906c18b57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:58 +0000
Subject: [PATCH 01/16] fix: do not deliver the boundary element twice when a
 reverse stream resumes

After an error in the middle of a tree, stream_trees_chunked_reverse
continues with the next tree. The inclusive end of the remaining range was
set to the start of the last chunk, which has already been delivered.
---
 banyan/src/forest/stream.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/banyan/src/forest/stream.rs b/banyan/src/forest/stream.rs
index ea22974..ebc3371 100644
--- a/banyan/src/forest/stream.rs
+++ b/banyan/src/forest/stream.rs
@@ -172,8 +172,10 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>> Forest<T, R> {
                     .stream_filtered_chunked_reverse0(&secrets, query, index, mk_extra)
                     .take_while(move |result| {
                         if let Ok(chunk) = result {
-                            // update the end offset from the start of what we got
-                            end_offset_ref.fetch_min(chunk.range.start, Ordering::SeqCst);
+                            // update the end offset from the start of what we got.
+                            // the end offset is inclusive, so it has to be below the start
+                            let end_offset = chunk.range.start.saturating_sub(1);
+                            end_offset_ref.fetch_min(end_offset, Ordering::SeqCst);
                         }
                         // abort at the first non-ok offset
                         future::ready(result.is_ok())
-- 
2.43.0


From 4ec7db9fdb50fac3e66ab92dab7b4edf55c2c102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:58 +0000
Subject: [PATCH 02/16] fix: end index iteration after an error

IndexIter kept its stack when a branch could not be loaded, so it returned
the same error forever.
---
 banyan/src/forest/index_iter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/banyan/src/forest/index_iter.rs b/banyan/src/forest/index_iter.rs
index f04f28e..8eed675 100644
--- a/banyan/src/forest/index_iter.rs
+++ b/banyan/src/forest/index_iter.rs
@@ -129,7 +129,11 @@ where
                 NodeInfo::Branch(index, branch) => {
                     let branch = match branch.load_cached() {
                         Ok(branch) => branch,
-                        Err(cause) => return Some(Err(cause)),
+                        Err(cause) => {
+                            // ensure we are done after the error
+                            self.stack.clear();
+                            return Some(Err(cause));
+                        }
                     };
                     if head.filter.is_empty() {
                         // we hit this branch node for the first time. Apply the
-- 
2.43.0


From 7fdeadf50c9f70253a86d08a5a4048f7e303082f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:58 +0000
Subject: [PATCH 03/16] fix: make pack of a packed tree a noop

A packed tree consisting of a single sealed leaf below a branch was replaced
by the bare leaf, the link of which can not be loaded as a tree again.
---
 banyan/src/tree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/banyan/src/tree.rs b/banyan/src/tree.rs
index 13dc0b4..8b0db44 100644
--- a/banyan/src/tree.rs
+++ b/banyan/src/tree.rs
@@ -531,6 +531,9 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>, W: BlockWriter<T::Link>> Transacti
     /// ![packing illustration](https://ipfs.io/ipfs/QmaEDTjHSdCKyGQ3cFMCf73kE67NvffLA5agquLW5qSEVn/packing.jpg)
     pub fn pack<V: BanyanValue>(&mut self, tree: &mut StreamBuilder<T, V>) -> Result<()> {
         let initial = tree.snapshot();
+        if self.is_packed(&initial)? {
+            return Ok(());
+        }
         let roots = self.roots(tree)?;
         self.tree_from_roots(roots, tree)?;
         let remainder: Vec<_> = self
-- 
2.43.0


From dc0a5ef36ed23690edfdf533a6e9ed251007fe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:58 +0000
Subject: [PATCH 04/16] fix: leave the builder unchanged when pack fails

If the unpacked remainder could not be read or written, the builder was left
with just the packed part, losing the remaining elements.
---
 banyan/src/tree.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/banyan/src/tree.rs b/banyan/src/tree.rs
index 8b0db44..f0b02be 100644
--- a/banyan/src/tree.rs
+++ b/banyan/src/tree.rs
@@ -535,13 +535,16 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>, W: BlockWriter<T::Link>> Transacti
             return Ok(());
         }
         let roots = self.roots(tree)?;
-        self.tree_from_roots(roots, tree)?;
+        // make sure that the tree is unchanged if packing fails half way through
+        let mut tree = tree.transaction();
+        self.tree_from_roots(roots, &mut tree)?;
         let remainder: Vec<_> = self
             .collect_from(&initial, tree.count())?
             .into_iter()
             .collect::<Option<Vec<_>>>()
             .ok_or_else(|| anyhow::anyhow!("found purged data"))?;
-        self.extend(tree, remainder)?;
+        self.extend(&mut tree, remainder)?;
+        tree.commit();
         Ok(())
     }
 
-- 
2.43.0


From 29e43c0b8ec55fad1088456bc1f90740adc7089f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:06 +0000
Subject: [PATCH 05/16] fix: do not panic when extending an unpacked tree

extend assumed that the existing tree is packed and hit the assertions about
sealed children and sorted levels otherwise. Add the new elements on top.
---
 banyan/src/tree.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/banyan/src/tree.rs b/banyan/src/tree.rs
index f0b02be..4359864 100644
--- a/banyan/src/tree.rs
+++ b/banyan/src/tree.rs
@@ -573,6 +573,12 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>, W: BlockWriter<T::Link>> Transacti
             return Ok(());
         }
         let index = tree.as_index_ref().cloned();
+        if let Some(index) = index.as_ref() {
+            if !self.is_packed0(tree.state().secrets(), index)? {
+                // an unpacked tree can only be extended on top
+                return self.extend_unpacked(tree, from);
+            }
+        }
         let index = self.extend_above(
             index.as_ref(),
             u32::max_value(),
-- 
2.43.0


From d92f17101e761c0aeae52e36669f3b8884746dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:13 +0000
Subject: [PATCH 06/16] fix: remove all redundant terms when building a
 disjunctive normal form

Only one of the terms absorbed by a new term was removed, so that
a&b | a&c | a was not reduced to a.
---
 banyan-utils/src/tag_index.rs | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/banyan-utils/src/tag_index.rs b/banyan-utils/src/tag_index.rs
index bc815f6..314a2a7 100644
--- a/banyan-utils/src/tag_index.rs
+++ b/banyan-utils/src/tag_index.rs
@@ -340,21 +340,14 @@ impl Dnf {
 }
 
 fn insert_unless_redundant(aa: &mut BTreeSet<TagSet>, b: TagSet) {
-    let mut to_remove = None;
-    for a in aa.iter() {
-        if a.is_subset(&b) {
-            // a is larger than b. E.g. x | x&y
-            // keep a, b is redundant
-            return;
-        } else if a.is_superset(&b) {
-            // a is smaller than b, E.g. x&y | x
-            // remove a, keep b
-            to_remove = Some(a.clone());
-        }
-    }
-    if let Some(r) = to_remove {
-        aa.remove(&r);
-    }
+    // a is larger than b. E.g. x | x&y
+    // keep a, b is redundant
+    if aa.iter().any(|a| a.is_subset(&b)) {
+        return;
+    }
+    // a is smaller than b, E.g. x&y | x
+    // remove all such a, keep b
+    aa.retain(|a| !a.is_superset(&b));
     aa.insert(b);
 }
 
-- 
2.43.0


From f331b2f7d85b20e770f0484b5e93bc860e624cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:20 +0000
Subject: [PATCH 07/16] fix: keep the other terms of a DnfQuery when one has
 unknown tags

A term with a tag that does not occur in a node can not match in that node,
but that does not affect the other terms of the disjunction.
---
 banyan-utils/src/tags.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/banyan-utils/src/tags.rs b/banyan-utils/src/tags.rs
index 3084e05..fe7041f 100644
--- a/banyan-utils/src/tags.rs
+++ b/banyan-utils/src/tags.rs
@@ -202,14 +202,13 @@ impl DnfQuery {
             query: self
                 .0
                 .iter()
-                .map(|key| {
+                .filter_map(|key| {
                     map_to_index_set(&keyseq.tags.tags, &key.tags).map(|index_set| TranslatedKey {
                         index_set,
                         time: key.time,
                     })
                 })
-                .collect::<Option<Vec<_>>>()
-                .unwrap_or_default(),
+                .collect(),
             seq: keyseq,
         }
     }
-- 
2.43.0


From fed536c26090aca6ee0db0158a769869cb6cea36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:26 +0000
Subject: [PATCH 08/16] fix: let a DnfQuery term match events that have all its
 tags

The subset test was the wrong way round, unlike in TagIndex::matching: events
with more tags than the term were missed, and an event with just some of the
tags of the term matched or not depending on which other events happened to
be in the same leaf.
---
 banyan-utils/src/tags.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/banyan-utils/src/tags.rs b/banyan-utils/src/tags.rs
index fe7041f..8eee0ec 100644
--- a/banyan-utils/src/tags.rs
+++ b/banyan-utils/src/tags.rs
@@ -170,11 +170,11 @@ impl Key {
     }
 
     fn intersects(&self, that: &Key) -> bool {
-        self.time.intersects(&that.time) && !self.tags.is_disjoint(&that.tags)
+        self.time.intersects(&that.time) && self.tags.is_subset(&that.tags)
     }
 
     fn contains(&self, that: &Key) -> bool {
-        self.time.contains(&that.time) && self.tags.is_superset(&that.tags)
+        self.time.contains(&that.time) && self.tags.is_subset(&that.tags)
     }
 }
 
@@ -230,14 +230,14 @@ impl<'a> TranslatedDnfQuery<'a> {
     fn intersects(&self, i: usize) -> bool {
         self.query.iter().any(|q| {
             q.time.intersects(&self.seq.time(i).unwrap())
-                && !q.index_set.is_disjoint(&self.seq.tags.elements[i])
+                && q.index_set.is_subset(&self.seq.tags.elements[i])
         })
     }
 
     fn contains(&self, i: usize) -> bool {
         self.query.iter().any(|q| {
             q.time.contains(&self.seq.time(i).unwrap())
-                && q.index_set.is_superset(&self.seq.tags.elements[i])
+                && q.index_set.is_subset(&self.seq.tags.elements[i])
         })
     }
 
-- 
2.43.0


From cae610742274a96ce4023456f7049f1032227fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:43 +0000
Subject: [PATCH 09/16] fix: do not use sealed nodes behind forgotten unsealed
 nodes as roots

---
 banyan/src/forest/read.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/banyan/src/forest/read.rs b/banyan/src/forest/read.rs
index ed22241..afb8bca 100644
--- a/banyan/src/forest/read.rs
+++ b/banyan/src/forest/read.rs
@@ -687,6 +687,10 @@ where
                     for child in branch.children.iter() {
                         self.roots0(secrets, child, level, res)?;
                     }
+                } else {
+                    // the sealed nodes below this one are not known anymore,
+                    // so whatever follows is not part of the sealed prefix.
+                    *level = -1;
                 }
             }
         }
-- 
2.43.0


From 39d451761d21ad391bbc40cd19925f0f50a80db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:02 +0000
Subject: [PATCH 10/16] fix: keep the brackets around nested alternatives when
 printing expressions

Or([Or([a, b])]) within an And was printed as 'a' | 'b' without brackets, which
has a different meaning.
---
 banyan-utils/src/tag_index.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/banyan-utils/src/tag_index.rs b/banyan-utils/src/tag_index.rs
index 314a2a7..5a5ff29 100644
--- a/banyan-utils/src/tag_index.rs
+++ b/banyan-utils/src/tag_index.rs
@@ -187,6 +187,8 @@ impl std::fmt::Display for Expression {
         fn child_to_string(x: &Expression) -> String {
             match x {
                 Expression::Or(v) if v.len() > 1 => format!("( {} )", x),
+                // a single alternative needs brackets whenever that alternative does
+                Expression::Or(v) if v.len() == 1 => child_to_string(&v[0]),
                 _ => x.to_string(),
             }
         }
-- 
2.43.0


From a0a04a4e425ccfdccbecf927bdd371d70182460a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:47 +0000
Subject: [PATCH 11/16] fix: fail instead of panicking on blocks that can not
 be valid

A cipher offset beyond the end of the keystream and a branch without
children made the reader panic, and a block without any data was taken
for an empty leaf.
---
 banyan/src/index.rs                   |  1 +
 banyan/src/store/zstd_dag_cbor_seq.rs | 24 ++++++++++++++++++------
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/banyan/src/index.rs b/banyan/src/index.rs
index 987eded..6a85c62 100644
--- a/banyan/src/index.rs
+++ b/banyan/src/index.rs
@@ -446,6 +446,7 @@ pub(crate) fn deserialize_compressed<T: TreeTypes>(
 ) -> Result<(Vec<Index<T>>, Range<u64>)> {
     let (seq, byte_range) = ZstdDagCborSeq::decrypt(ipld, key, nonce)?;
     let seq = seq.items_ipld::<Index<T>>()?;
+    anyhow::ensure!(!seq.is_empty(), "branch without children");
     Ok((seq, byte_range))
 }
 
diff --git a/banyan/src/store/zstd_dag_cbor_seq.rs b/banyan/src/store/zstd_dag_cbor_seq.rs
index baaf07d..2567574 100644
--- a/banyan/src/store/zstd_dag_cbor_seq.rs
+++ b/banyan/src/store/zstd_dag_cbor_seq.rs
@@ -416,10 +416,8 @@ impl ZstdDagCborSeq {
     ) -> anyhow::Result<Vec<u8>> {
         let Self { mut data, links } = self;
         // encrypt in place with the key and nonce
-        let mut chacha20 = XChaCha20::new(key, nonce);
         let offset = state.reserve(data.len());
-        chacha20.seek(offset);
-        chacha20.apply_keystream(&mut data);
+        apply_keystream(key, nonce, offset, &mut data)?;
         // encode via IpldNode
         let result = DagCborCodec.encode(&IpldNode::new(links, data, offset))?;
         Ok(result)
@@ -432,17 +430,31 @@ impl ZstdDagCborSeq {
         nonce: &chacha20::XNonce,
     ) -> anyhow::Result<(Self, Range<u64>)> {
         let (offset, links, mut encrypted) = DagCborCodec.decode::<IpldNode>(data)?.into_data()?;
-        let mut cipher = XChaCha20::new(key, nonce);
+        // even the encoding of an empty sequence is not empty
+        anyhow::ensure!(!encrypted.is_empty(), "block without data");
         let end_offset = offset
             .checked_add(encrypted.len() as u64)
             .ok_or_else(|| anyhow::anyhow!("seek offset wraparound"))?;
-        cipher.seek(offset);
-        cipher.apply_keystream(&mut encrypted);
+        apply_keystream(key, nonce, offset, &mut encrypted)?;
         let decrypted = encrypted;
         Ok((Self::new(decrypted, links), offset..end_offset))
     }
 }
 
+/// xor data with the keystream from the given offset, which can be beyond the end of the keystream
+fn apply_keystream(
+    key: &chacha20::Key,
+    nonce: &chacha20::XNonce,
+    offset: u64,
+    data: &mut [u8],
+) -> anyhow::Result<()> {
+    let mut cipher = XChaCha20::new(key, nonce);
+    cipher
+        .try_seek(offset)
+        .and_then(|_| cipher.try_apply_keystream(data))
+        .map_err(|_| anyhow::anyhow!("offset {} beyond the end of the keystream", offset))
+}
+
 /// utility struct for encoding and decoding
 #[derive(DagCbor)]
 struct IpldNode(u64, Vec<Cid>, Ipld);
-- 
2.43.0


From 156f96542cd6d4de146ece077f0bdb3057335950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:16 +0000
Subject: [PATCH 12/16] fix: let repair forget leaves with items that can not
 be decoded

They were left in the repaired stream, and reading them failed as before.
---
 banyan/src/forest/write.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/banyan/src/forest/write.rs b/banyan/src/forest/write.rs
index 49ce165..ba5afff 100644
--- a/banyan/src/forest/write.rs
+++ b/banyan/src/forest/write.rs
@@ -18,7 +18,7 @@ use crate::{
     util::{is_sorted, BoolSliceExt},
 };
 use anyhow::{ensure, Result};
-use cbor_data::codec::WriteCbor;
+use cbor_data::{codec::WriteCbor, CborOwned};
 use std::iter;
 
 /// basic random access append only tree
@@ -480,7 +480,13 @@ where
             Index::Leaf(index) => {
                 let mut index = index.as_ref().clone();
                 // important not to hit the cache here!
-                if let Err(cause) = self.load_leaf(stream.secrets(), &index) {
+                let leaf = self.load_leaf(stream.secrets(), &index);
+                // a leaf with items that can not be decoded is just as unreadable
+                let items = leaf.and_then(|leaf| match leaf {
+                    Some(leaf) => leaf.as_ref().items::<CborOwned>(),
+                    None => Ok(Vec::new()),
+                });
+                if let Err(cause) = items {
                     let link_txt = index.link.map(|x| x.to_string()).unwrap_or_default();
                     report.push(format!("forgetting leaf {} due to {}", link_txt, cause));
                     if !index.sealed {
-- 
2.43.0


From 910cd341c3c69d7e2e44d6569e75f6029051320f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:56 +0000
Subject: [PATCH 13/16] fix: do not write blocks that are too large to be read
 back

---
 banyan/src/store/mod.rs               |  2 +-
 banyan/src/store/thread_local_zstd.rs |  4 ++--
 banyan/src/store/zstd_dag_cbor_seq.rs | 13 ++++++++++++-
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/banyan/src/store/mod.rs b/banyan/src/store/mod.rs
index ae5c4ab..65097e6 100644
--- a/banyan/src/store/mod.rs
+++ b/banyan/src/store/mod.rs
@@ -9,7 +9,7 @@ mod zstd_dag_cbor_seq;
 pub use branch_cache::BranchCache;
 pub use mem_cache::{MemCache, MemWriter};
 pub use mem_store::MemStore;
-pub(crate) use thread_local_zstd::decompress_and_transform;
+pub(crate) use thread_local_zstd::{decompress_and_transform, MAX_CAPACITY};
 pub use zstd_dag_cbor_seq::ZstdDagCborSeq;
 
 use cbor_data::codec::ReadCbor;
diff --git a/banyan/src/store/thread_local_zstd.rs b/banyan/src/store/thread_local_zstd.rs
index 968b1a9..1d5b9d0 100644
--- a/banyan/src/store/thread_local_zstd.rs
+++ b/banyan/src/store/thread_local_zstd.rs
@@ -5,8 +5,8 @@ use zstd::block::Decompressor;
 /// The size of the thread local buffer
 const MIN_CAPACITY: usize = 1024 * 1024 * 4;
 
-/// Max capacity we are going to allocate.
-const MAX_CAPACITY: usize = 1024 * 1024 * 16;
+/// Max capacity we are going to allocate. Larger data can not be decompressed.
+pub(crate) const MAX_CAPACITY: usize = 1024 * 1024 * 16;
 
 /// thread-local decompression state
 pub(crate) struct DecompressionState {
diff --git a/banyan/src/store/zstd_dag_cbor_seq.rs b/banyan/src/store/zstd_dag_cbor_seq.rs
index 2567574..84daf42 100644
--- a/banyan/src/store/zstd_dag_cbor_seq.rs
+++ b/banyan/src/store/zstd_dag_cbor_seq.rs
@@ -45,7 +45,10 @@ use std::{
     time::Instant,
 };
 
-use crate::{store::decompress_and_transform, stream_builder::CipherOffset};
+use crate::{
+    store::{decompress_and_transform, MAX_CAPACITY},
+    stream_builder::CipherOffset,
+};
 
 #[derive(Clone, PartialEq, Eq)]
 pub struct ZstdDagCborSeq {
@@ -78,6 +81,8 @@ impl ZstdDagCborSeq {
             scrape_links(encoded.as_ref(), &mut links)?;
             encoder.write_all(encoded.as_ref())?;
         }
+        // it would not be possible to read this back
+        anyhow::ensure!(size <= MAX_CAPACITY, "sequence too large!");
         // call finish to write the zstd frame
         let data = encoder.finish()?;
         tracing::trace!(
@@ -106,6 +111,8 @@ impl ZstdDagCborSeq {
             scrape_links(encoded.as_ref(), &mut links)?;
             encoder.write_all(encoded.as_ref())?;
         }
+        // it would not be possible to read this back
+        anyhow::ensure!(size <= MAX_CAPACITY, "sequence too large!");
         // call finish to write the zstd frame
         let data = encoder.finish()?;
         tracing::trace!(
@@ -154,6 +161,8 @@ impl ZstdDagCborSeq {
         uncompressed_size: usize,
         max_keys: usize,
     ) -> anyhow::Result<(Self, bool)> {
+        // anything larger than this could not be read back
+        let uncompressed_size = uncompressed_size.min(MAX_CAPACITY);
         let mut links = BTreeSet::new();
         let t0 = Instant::now();
         let mut encoder = zstd::Encoder::new(Vec::new(), zstd_level)?;
@@ -242,6 +251,8 @@ impl ZstdDagCborSeq {
         uncompressed_size: usize,
         max_keys: usize,
     ) -> anyhow::Result<(Self, bool)> {
+        // anything larger than this could not be read back
+        let uncompressed_size = uncompressed_size.min(MAX_CAPACITY);
         let mut links = BTreeSet::new();
         let t0 = Instant::now();
         let mut encoder = zstd::Encoder::new(Vec::new(), zstd_level)?;
-- 
2.43.0


From 98e9bf46dc3edbaffe81700fc8d734898f3c9712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:05 +0000
Subject: [PATCH 14/16] fix: report errors of the ipfs node and accept its
 events in pieces

---
 banyan-utils/src/ipfs.rs | 54 ++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/banyan-utils/src/ipfs.rs b/banyan-utils/src/ipfs.rs
index b875c4e..1a61c7e 100644
--- a/banyan-utils/src/ipfs.rs
+++ b/banyan-utils/src/ipfs.rs
@@ -14,7 +14,8 @@ pub fn block_get(key: &Cid) -> Result<Box<[u8]>> {
         &[("arg", format!("{}", key))],
     )?;
     let client = reqwest::blocking::Client::new();
-    let data: Vec<u8> = client.post(url).send()?.bytes()?.to_vec();
+    let response = client.post(url).send()?.error_for_status()?;
+    let data: Vec<u8> = response.bytes()?.to_vec();
     Ok(data.into())
 }
 
@@ -71,6 +72,35 @@ struct IpfsPubsubEventIo {
     _topic_ids: IgnoredAny,
 }
 
+/// The data of the events in a sequence of pieces, which may contain parts of an event, or several
+fn pubsub_events<E>(
+    pieces: impl Stream<Item = Result<impl AsRef<[u8]>, E>>,
+) -> impl Stream<Item = Result<Vec<u8>, E>> {
+    let mut buffer = Vec::new();
+    pieces
+        .map_ok(move |piece| {
+            buffer.extend_from_slice(piece.as_ref());
+            let mut parser = serde_json::Deserializer::from_slice(&buffer).into_iter();
+            let mut events = Vec::new();
+            let mut parsed = 0;
+            while let Some(event) = parser.next() {
+                match event {
+                    Ok(event) => {
+                        let event: IpfsPubsubEventIo = event;
+                        events.push(Ok(event.data.0));
+                        parsed = parser.byte_offset();
+                    }
+                    // wait for the rest of the event
+                    Err(cause) if cause.is_eof() => break,
+                    Err(cause) => panic!("invalid event: {}", cause),
+                }
+            }
+            buffer.drain(..parsed);
+            stream::iter(events)
+        })
+        .try_flatten()
+}
+
 pub fn pubsub_sub(topic: &str) -> Result<impl Stream<Item = reqwest::Result<Vec<u8>>>> {
     let url = reqwest::Url::parse_with_params(
         "http://localhost:5001/api/v0/pubsub/sub",
@@ -80,16 +110,12 @@ pub fn pubsub_sub(topic: &str) -> Result<impl Stream<Item = reqwest::Result<Vec<
     let data = client
         .post(url)
         .send()
-        .map(|response| match response {
-            Ok(response) => response
-                .bytes_stream()
-                .map_ok(|bytes| {
-                    let data: IpfsPubsubEventIo = serde_json::from_slice(&bytes).unwrap();
-                    data.data.0
-                })
-                .left_stream(),
-            Err(cause) => futures::stream::once(future::err(cause)).right_stream(),
-        })
+        .map(
+            |response| match response.and_then(|x| x.error_for_status()) {
+                Ok(response) => pubsub_events(response.bytes_stream()).left_stream(),
+                Err(cause) => futures::stream::once(future::err(cause)).right_stream(),
+            },
+        )
         .flatten_stream();
     Ok(data)
 }
@@ -103,7 +129,8 @@ pub async fn pubsub_pub(topic: &str, data: &[u8]) -> Result<()> {
         topic, data
     ))?;
     let client = reqwest::Client::new();
-    let _ = client.post(url).send().await?.bytes().await?.to_vec();
+    let response = client.post(url).send().await?.error_for_status()?;
+    let _ = response.bytes().await?.to_vec();
     Ok(())
 }
 
@@ -126,7 +153,8 @@ pub fn block_put(data: &[u8], codec: u64, pin: bool) -> Result<Cid> {
         "file",
         reqwest::blocking::multipart::Part::bytes(data.to_vec()),
     );
-    let res: IpfsBlockPutResponseIo = client.post(url).multipart(form).send()?.json()?;
+    let response = client.post(url).multipart(form).send()?;
+    let res: IpfsBlockPutResponseIo = response.error_for_status()?.json()?;
     let cid = Cid::from_str(&res.key)?;
     Ok(cid)
 }
-- 
2.43.0


From aa16309873873b75bba488d8dee6c091c6e79d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:12 +0000
Subject: [PATCH 15/16] fix: use the given passwords in all commands of
 banyan-cli

---
 banyan-utils/src/bin/cli.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/banyan-utils/src/bin/cli.rs b/banyan-utils/src/bin/cli.rs
index 89dd1fb..e1fc461 100644
--- a/banyan-utils/src/bin/cli.rs
+++ b/banyan-utils/src/bin/cli.rs
@@ -226,8 +226,8 @@ async fn build_tree(
     count: u64,
     unbalanced: bool,
     print_every: u64,
+    secrets: Secrets,
 ) -> anyhow::Result<StreamBuilder<TT, String>> {
-    let secrets = Secrets::default();
     let config = Config::debug();
     let mut tagger = Tagger::new();
     // function to add some arbitrary tags to test out tag querying and compression
@@ -405,7 +405,8 @@ async fn main() -> Result<()> {
                 "building a tree with {} batches of {} values, unbalanced: {}",
                 batches, count, unbalanced
             );
-            let tree = build_tree(&mut forest, base, batches, count, unbalanced, 1000).await?;
+            let tree =
+                build_tree(&mut forest, base, batches, count, unbalanced, 1000, secrets).await?;
             forest.dump(&tree.snapshot())?;
         }
         Command::Bench { count } => {
@@ -470,7 +471,6 @@ async fn main() -> Result<()> {
                 .map(|tag| Key::filter_tags(TagSet::single(Tag::from(tag))))
                 .collect::<Vec<_>>();
             let query = DnfQuery(tags).boxed();
-            let secrets = Secrets::default();
             let config = Config::debug();
             let tree = forest.load_stream_builder::<String>(secrets, config, root)?;
             forest.dump(&tree.snapshot())?;
@@ -482,7 +482,6 @@ async fn main() -> Result<()> {
             }
         }
         Command::Forget { root, before } => {
-            let secrets = Secrets::default();
             let config = Config::debug();
             let mut tree = forest.load_stream_builder::<String>(secrets, config, root)?;
             forest.retain(&mut tree, &OffsetRangeQuery::from(before..))?;
@@ -490,7 +489,6 @@ async fn main() -> Result<()> {
             println!("{:?}", tree);
         }
         Command::Pack { root } => {
-            let secrets = Secrets::default();
             let config = Config::debug();
             let mut tree = forest.load_stream_builder::<String>(secrets, config, root)?;
             forest.dump(&tree.snapshot())?;
@@ -501,7 +499,6 @@ async fn main() -> Result<()> {
             println!("{:?}", tree);
         }
         Command::RecvStream { topic } => {
-            let secrets = Secrets::default();
             let links = pubsub_sub(&topic)?
                 .map_err(anyhow::Error::new)
                 .and_then(|data| future::ready(String::from_utf8(data).map_err(anyhow::Error::new)))
-- 
2.43.0


From e36b8921e278115735b3e2eb9f1e80c80d8d78c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:13 +0000
Subject: [PATCH 16/16] fix: report errors while streaming in banyan-cli

---
 banyan-utils/src/bin/cli.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/banyan-utils/src/bin/cli.rs b/banyan-utils/src/bin/cli.rs
index e1fc461..d5b379b 100644
--- a/banyan-utils/src/bin/cli.rs
+++ b/banyan-utils/src/bin/cli.rs
@@ -389,7 +389,8 @@ async fn main() -> Result<()> {
         Command::Stream { root } => {
             let tree = forest.load_tree::<String>(secrets, root)?;
             let mut stream = forest.stream_filtered(&tree, AllQuery).enumerate();
-            while let Some((i, Ok(v))) = stream.next().await {
+            while let Some((i, v)) = stream.next().await {
+                let v = v?;
                 if i % 1000 == 0 {
                     println!("{:?}", v);
                 }
@@ -475,7 +476,8 @@ async fn main() -> Result<()> {
             let tree = forest.load_stream_builder::<String>(secrets, config, root)?;
             forest.dump(&tree.snapshot())?;
             let mut stream = forest.stream_filtered(&tree.snapshot(), query).enumerate();
-            while let Some((i, Ok(v))) = stream.next().await {
+            while let Some((i, v)) = stream.next().await {
+                let v = v?;
                 if i % 1000 == 0 {
                     println!("{:?}", v);
                 }
-- 
2.43.0

