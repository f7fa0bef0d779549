From 5fb0c6d9fff77cb1967f23e0119081f9ce826b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:46 +0000
Subject: [PATCH 01/26] fix: exact index lookup of the greatest key of a type

A lookup of K::max_value() (i32::MAX, true, +inf, ...) matched the placeholder
separator of the last node and descended past the end of the level below:
a panic or no result for a key that is in the index.
---
 src/rust/fcb_core/src/static_btree/stree.rs | 34 +++++++++++++++++++--
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index 239a5de..21170c2 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -728,6 +728,20 @@ impl<K: Key> Stree<K> {
         Ok(tree)
     }
 
+    /// Index of the child to the right of the separator whose left child starts at `left`.
+    ///
+    /// The last separator of a level has no right child when its left child is the last node of
+    /// the level below; its key is then only a placeholder (`K::max_value()`), so that a search
+    /// which lands on or beyond it has to stay with the left child.
+    fn right_child(left: usize, node_size: usize, children: &Range<usize>) -> usize {
+        let right = left + node_size;
+        if right < children.end {
+            right
+        } else {
+            left
+        }
+    }
+
     pub fn find_exact(&self, key: K) -> Result<Vec<SearchResultItem>> {
         let leaf_nodes_offset = self
             .level_bounds
@@ -763,7 +777,12 @@ impl<K: Key> Stree<K> {
                     node_items.binary_search_by(|item| item.key.cmp(&search_entry.key));
                 match search_result {
                     Ok(index) => {
-                        queue.push_back((node_items[index].offset as usize + node_size, level - 1));
+                        let child = Self::right_child(
+                            node_items[index].offset as usize,
+                            node_size,
+                            &self.level_bounds[level - 1],
+                        );
+                        queue.push_back((child, level - 1));
                     }
                     Err(index) => {
                         if index == 0 {
@@ -860,7 +879,12 @@ impl<K: Key> Stree<K> {
                     node_items.binary_search_by(|item: &Entry<K>| item.key.cmp(&search_entry.key));
                 match search_result {
                     Ok(index) => {
-                        queue.push_back((node_items[index].offset as usize + node_size, level - 1));
+                        let child = Self::right_child(
+                            node_items[index].offset as usize,
+                            node_size,
+                            &level_bounds[level - 1],
+                        );
+                        queue.push_back((child, level - 1));
                     }
                     Err(index) => {
                         if index == 0 {
@@ -1279,7 +1303,11 @@ impl<K: Key> Stree<K> {
                 let mut _offset = 0;
                 match result {
                     Ok(idx) => {
-                        _offset = node_items[idx].offset as usize + node_size;
+                        _offset = Self::right_child(
+                            node_items[idx].offset as usize,
+                            node_size,
+                            &level_bounds[node_range.level - 1],
+                        );
                     }
                     Err(idx) => {
                         if idx == 0 {
-- 
2.43.0


From f6a377a47fe45af5690f74b48acfabf8b4c7c4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 02/26] fix: Ne, Gt and Lt with several objects in one feature

The results were filtered by feature offset, so that a feature was dropped as a
whole when one of its objects had exactly the operand's value, whatever the
values of its other objects.
---
 .../fcb_core/src/static_btree/query/http.rs   | 26 ++++++++-----------
 .../fcb_core/src/static_btree/query/memory.rs | 17 +++++-------
 .../fcb_core/src/static_btree/query/stream.rs | 17 +++++-------
 .../fcb_core/src/static_btree/query/types.rs  | 13 ++++++++++
 4 files changed, 36 insertions(+), 37 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/query/http.rs b/src/rust/fcb_core/src/static_btree/query/http.rs
index 83fcb2f..2ec2f7e 100644
--- a/src/rust/fcb_core/src/static_btree/query/http.rs
+++ b/src/rust/fcb_core/src/static_btree/query/http.rs
@@ -3,7 +3,7 @@ use std::marker::PhantomData;
 
 use crate::static_btree::error::{Error, Result};
 use crate::static_btree::key::{Key, KeyType, Max, Min};
-use crate::static_btree::query::types::{Operator, QueryCondition};
+use crate::static_btree::query::types::{without_exact, Operator, QueryCondition};
 use crate::static_btree::stree::http::HttpSearchResultItem;
 use crate::static_btree::stree::Stree;
 use async_trait::async_trait;
@@ -161,19 +161,17 @@ macro_rules! impl_typed_http_search_index {
                             )
                             .await?;
                         let eq = self.find_exact(client, key.clone()).await?;
-                        all.into_iter().filter(|x| !eq.contains(x)).collect()
+                        without_exact(all, eq)
                     }
                     Operator::Gt => {
-                        let mut v = self.find_range(client, Some(key.clone()), None).await?;
+                        let v = self.find_range(client, Some(key.clone()), None).await?;
                         let eq = self.find_exact(client, key.clone()).await?;
-                        v.retain(|x| !eq.contains(x));
-                        v
+                        without_exact(v, eq)
                     }
                     Operator::Lt => {
-                        let mut v = self.find_range(client, None, Some(key.clone())).await?;
+                        let v = self.find_range(client, None, Some(key.clone())).await?;
                         let eq = self.find_exact(client, key.clone()).await?;
-                        v.retain(|x| !eq.contains(x));
-                        v
+                        without_exact(v, eq)
                     }
                     Operator::Ge => self.find_range(client, Some(key.clone()), None).await?,
                     Operator::Le => self.find_range(client, None, Some(key.clone())).await?,
@@ -214,19 +212,17 @@ macro_rules! impl_typed_http_search_index {
                             )
                             .await?;
                         let eq = self.find_exact(client, key.clone()).await?;
-                        all.into_iter().filter(|x| !eq.contains(x)).collect()
+                        without_exact(all, eq)
                     }
                     Operator::Gt => {
-                        let mut v = self.find_range(client, Some(key.clone()), None).await?;
+                        let v = self.find_range(client, Some(key.clone()), None).await?;
                         let eq = self.find_exact(client, key.clone()).await?;
-                        v.retain(|x| !eq.contains(x));
-                        v
+                        without_exact(v, eq)
                     }
                     Operator::Lt => {
-                        let mut v = self.find_range(client, None, Some(key.clone())).await?;
+                        let v = self.find_range(client, None, Some(key.clone())).await?;
                         let eq = self.find_exact(client, key.clone()).await?;
-                        v.retain(|x| !eq.contains(x));
-                        v
+                        without_exact(v, eq)
                     }
                     Operator::Ge => self.find_range(client, Some(key.clone()), None).await?,
                     Operator::Le => self.find_range(client, None, Some(key.clone())).await?,
diff --git a/src/rust/fcb_core/src/static_btree/query/memory.rs b/src/rust/fcb_core/src/static_btree/query/memory.rs
index 0f6759d..6db6777 100644
--- a/src/rust/fcb_core/src/static_btree/query/memory.rs
+++ b/src/rust/fcb_core/src/static_btree/query/memory.rs
@@ -6,7 +6,7 @@ use std::io::{Read, Write};
 use crate::static_btree::entry::Entry;
 use crate::static_btree::error::{Error, Result};
 use crate::static_btree::key::{FixedStringKey, Key, KeyType, Max, Min};
-use crate::static_btree::query::types::{Operator, SearchIndex};
+use crate::static_btree::query::types::{without_exact, Operator, SearchIndex};
 use crate::static_btree::stree::Stree;
 
 use super::types::QueryCondition;
@@ -122,22 +122,17 @@ macro_rules! impl_typed_search_index {
                         let max = <$key_type>::max_value();
                         let all_items = self.find_range(Some(min), Some(max))?;
                         let matching_items = self.find_exact(key)?;
-                        Ok(all_items
-                            .into_iter()
-                            .filter(|item| !matching_items.contains(item))
-                            .collect())
+                        Ok(without_exact(all_items, matching_items))
                     }
                     Operator::Gt => {
-                        let mut results = self.find_range(Some(key.clone()), None)?;
+                        let results = self.find_range(Some(key.clone()), None)?;
                         let exact_matches = self.find_exact(key)?;
-                        results.retain(|item| !exact_matches.contains(item));
-                        Ok(results)
+                        Ok(without_exact(results, exact_matches))
                     }
                     Operator::Lt => {
-                        let mut results = self.find_range(None, Some(key.clone()))?;
+                        let results = self.find_range(None, Some(key.clone()))?;
                         let exact_matches = self.find_exact(key)?;
-                        results.retain(|item| !exact_matches.contains(item));
-                        Ok(results)
+                        Ok(without_exact(results, exact_matches))
                     }
                     Operator::Ge => self.find_range(Some(key), None),
                     Operator::Le => self.find_range(None, Some(key)),
diff --git a/src/rust/fcb_core/src/static_btree/query/stream.rs b/src/rust/fcb_core/src/static_btree/query/stream.rs
index 0628140..ff07298 100644
--- a/src/rust/fcb_core/src/static_btree/query/stream.rs
+++ b/src/rust/fcb_core/src/static_btree/query/stream.rs
@@ -9,7 +9,7 @@ use ordered_float::OrderedFloat;
 
 use crate::static_btree::error::{Error, Result};
 use crate::static_btree::key::{FixedStringKey, Key, KeyType, Max, Min};
-use crate::static_btree::query::types::{Operator, QueryCondition};
+use crate::static_btree::query::types::{without_exact, Operator, QueryCondition};
 use crate::static_btree::stree::Stree;
 
 /// Stream-based index for file access
@@ -167,24 +167,19 @@ macro_rules! impl_typed_stream_search_index {
                             Some(<$key_type>::max_value()),
                         )?;
                         let matching_items = self.find_exact_with_reader(reader, key.clone())?;
-                        all_items
-                            .into_iter()
-                            .filter(|item| !matching_items.contains(item))
-                            .collect()
+                        without_exact(all_items, matching_items)
                     }
                     Operator::Gt => {
-                        let mut results =
+                        let results =
                             self.find_range_with_reader(reader, Some(key.clone()), None)?;
                         let exact_matches = self.find_exact_with_reader(reader, key.clone())?;
-                        results.retain(|item| !exact_matches.contains(item));
-                        results
+                        without_exact(results, exact_matches)
                     }
                     Operator::Lt => {
-                        let mut results =
+                        let results =
                             self.find_range_with_reader(reader, None, Some(key.clone()))?;
                         let exact_matches = self.find_exact_with_reader(reader, key.clone())?;
-                        results.retain(|item| !exact_matches.contains(item));
-                        results
+                        without_exact(results, exact_matches)
                     }
                     Operator::Ge => self.find_range_with_reader(reader, Some(key), None)?,
                     Operator::Le => self.find_range_with_reader(reader, None, Some(key))?,
diff --git a/src/rust/fcb_core/src/static_btree/query/types.rs b/src/rust/fcb_core/src/static_btree/query/types.rs
index 51921c1..66256d2 100644
--- a/src/rust/fcb_core/src/static_btree/query/types.rs
+++ b/src/rust/fcb_core/src/static_btree/query/types.rs
@@ -65,6 +65,19 @@ impl Default for Query {
     }
 }
 
+/// Takes the entries found in `exact` out of those found in `all`, one for one.
+///
+/// Several entries can carry the offset of the same feature (one for each of its objects). An
+/// offset therefore stays in the result as long as it has an entry that is not in `exact`.
+pub(crate) fn without_exact<T: PartialEq>(mut all: Vec<T>, exact: Vec<T>) -> Vec<T> {
+    for item in exact {
+        if let Some(pos) = all.iter().position(|x| *x == item) {
+            all.remove(pos);
+        }
+    }
+    all
+}
+
 /// Core trait for index searching capabilities
 pub trait SearchIndex<K: Key> {
     /// Find exact matches for a key
-- 
2.43.0


From 16a9f85fbfce92d6ffa59b1f8a913600256fe7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:00 +0000
Subject: [PATCH 03/26] fix: attribute queries return a feature once

A feature of which several objects satisfy the condition was returned once per
object; the sequential reader then even has to seek backwards for it.
---
 src/rust/fcb_core/src/static_btree/query/http.rs   | 6 +++---
 src/rust/fcb_core/src/static_btree/query/memory.rs | 4 ++--
 src/rust/fcb_core/src/static_btree/query/stream.rs | 4 ++--
 src/rust/fcb_core/src/static_btree/query/types.rs  | 9 +++++++++
 src/rust/fcb_core/src/static_btree/stree.rs        | 4 ++--
 5 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/query/http.rs b/src/rust/fcb_core/src/static_btree/query/http.rs
index 2ec2f7e..f0fa944 100644
--- a/src/rust/fcb_core/src/static_btree/query/http.rs
+++ b/src/rust/fcb_core/src/static_btree/query/http.rs
@@ -3,7 +3,7 @@ use std::marker::PhantomData;
 
 use crate::static_btree::error::{Error, Result};
 use crate::static_btree::key::{Key, KeyType, Max, Min};
-use crate::static_btree::query::types::{without_exact, Operator, QueryCondition};
+use crate::static_btree::query::types::{distinct, without_exact, Operator, QueryCondition};
 use crate::static_btree::stree::http::HttpSearchResultItem;
 use crate::static_btree::stree::Stree;
 use async_trait::async_trait;
@@ -309,7 +309,7 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpMultiIndex<T> {
         for set in iter {
             intersection.retain(|x| set.contains(x));
         }
-        Ok(intersection)
+        Ok(distinct(intersection))
     }
 }
 
@@ -373,7 +373,7 @@ impl<T: AsyncHttpRangeClient> HttpMultiIndex<T> {
         for set in iter {
             intersection.retain(|x| set.contains(x));
         }
-        Ok(intersection)
+        Ok(distinct(intersection))
     }
 }
 
diff --git a/src/rust/fcb_core/src/static_btree/query/memory.rs b/src/rust/fcb_core/src/static_btree/query/memory.rs
index 6db6777..6db4213 100644
--- a/src/rust/fcb_core/src/static_btree/query/memory.rs
+++ b/src/rust/fcb_core/src/static_btree/query/memory.rs
@@ -6,7 +6,7 @@ use std::io::{Read, Write};
 use crate::static_btree::entry::Entry;
 use crate::static_btree::error::{Error, Result};
 use crate::static_btree::key::{FixedStringKey, Key, KeyType, Max, Min};
-use crate::static_btree::query::types::{without_exact, Operator, SearchIndex};
+use crate::static_btree::query::types::{distinct, without_exact, Operator, SearchIndex};
 use crate::static_btree::stree::Stree;
 
 use super::types::QueryCondition;
@@ -297,7 +297,7 @@ impl MultiIndex for MemoryMultiIndex {
             }
         }
 
-        Ok(result_set)
+        Ok(distinct(result_set))
     }
 }
 
diff --git a/src/rust/fcb_core/src/static_btree/query/stream.rs b/src/rust/fcb_core/src/static_btree/query/stream.rs
index ff07298..f691fc6 100644
--- a/src/rust/fcb_core/src/static_btree/query/stream.rs
+++ b/src/rust/fcb_core/src/static_btree/query/stream.rs
@@ -9,7 +9,7 @@ use ordered_float::OrderedFloat;
 
 use crate::static_btree::error::{Error, Result};
 use crate::static_btree::key::{FixedStringKey, Key, KeyType, Max, Min};
-use crate::static_btree::query::types::{without_exact, Operator, QueryCondition};
+use crate::static_btree::query::types::{distinct, without_exact, Operator, QueryCondition};
 use crate::static_btree::stree::Stree;
 
 /// Stream-based index for file access
@@ -418,7 +418,7 @@ impl StreamMultiIndex {
         }
         // set cursor to the start of the index
         reader.seek(SeekFrom::Start(start_position))?;
-        Ok(result_set)
+        Ok(distinct(result_set))
     }
 }
 
diff --git a/src/rust/fcb_core/src/static_btree/query/types.rs b/src/rust/fcb_core/src/static_btree/query/types.rs
index 66256d2..de3471d 100644
--- a/src/rust/fcb_core/src/static_btree/query/types.rs
+++ b/src/rust/fcb_core/src/static_btree/query/types.rs
@@ -1,6 +1,8 @@
 use crate::static_btree::error::Result;
 use crate::static_btree::key::Key;
 use crate::static_btree::key::KeyType;
+use std::collections::HashSet;
+use std::hash::Hash;
 
 /// Comparison operators for queries
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -78,6 +80,13 @@ pub(crate) fn without_exact<T: PartialEq>(mut all: Vec<T>, exact: Vec<T>) -> Vec
     all
 }
 
+/// Keeps the first of equal items: a feature is one result, however many of its objects match.
+pub(crate) fn distinct<T: Clone + Eq + Hash>(mut items: Vec<T>) -> Vec<T> {
+    let mut seen = HashSet::with_capacity(items.len());
+    items.retain(|item| seen.insert(item.clone()));
+    items
+}
+
 /// Core trait for index searching capabilities
 pub trait SearchIndex<K: Key> {
     /// Find exact matches for a key
diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index 21170c2..98d3f10 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -1708,7 +1708,7 @@ pub mod http {
     use std::ops::{Range, RangeFrom};
 
     /// Byte range within a file. Suitable for an HTTP Range request.
-    #[derive(Debug, Clone, Eq, PartialEq)]
+    #[derive(Debug, Clone, Eq, PartialEq, Hash)]
     pub enum HttpRange {
         Range(Range<usize>),
         RangeFrom(RangeFrom<usize>),
@@ -1744,7 +1744,7 @@ pub mod http {
         }
     }
 
-    #[derive(Debug, Eq, PartialEq, Clone)]
+    #[derive(Debug, Eq, PartialEq, Clone, Hash)]
     /// Bbox filter search result
     pub struct HttpSearchResultItem {
         /// Byte offset in feature data section
-- 
2.43.0


From 920708c0ab35354a0fc1b14884501e68dd79efeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:24 +0000
Subject: [PATCH 04/26] fix: date keys before 1970 in open ranges

The least DateTime key was the epoch, so that Le, Lt and Ne (and any range
without a lower bound) missed every earlier date.
---
 src/rust/fcb_core/src/static_btree/key.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/static_btree/key.rs b/src/rust/fcb_core/src/static_btree/key.rs
index 9b1c20a..6b69c33 100644
--- a/src/rust/fcb_core/src/static_btree/key.rs
+++ b/src/rust/fcb_core/src/static_btree/key.rs
@@ -241,7 +241,8 @@ impl Min for bool {
 
 impl Min for DateTime<Utc> {
     fn min_value() -> Self {
-        Utc.timestamp_opt(0, 0).single().unwrap()
+        // Not the epoch: attributes may well hold earlier dates (e.g. the year of construction)
+        DateTime::<Utc>::MIN_UTC
     }
 }
 
-- 
2.43.0


From c3368691e02d3c9e79b01dca31748bf8acc5a996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:35 +0000
Subject: [PATCH 05/26] fix: attribute queries over HTTP near the end of a file

Payload entries were read in chunks of 16 or 32 KB: for a small file, of which
the client's buffer already held everything up to its end, the next chunk began
at the end of the file and the query failed with status 416; an entry larger
than the chunk was dropped. An entry is now read by the size it states.
---
 src/rust/fcb_core/src/static_btree/stree.rs | 75 +++++----------------
 1 file changed, 18 insertions(+), 57 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index 98d3f10..bb99bb2 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -3,7 +3,9 @@ use crate::static_btree::error::{Error, Result};
 use crate::static_btree::key::Key;
 use crate::static_btree::payload::PayloadEntry;
 #[cfg(feature = "http")]
-use http_range_client::{AsyncBufferedHttpRangeClient, AsyncHttpRangeClient};
+use byteorder::{LittleEndian, ReadBytesExt};
+#[cfg(feature = "http")]
+use http_range_client::{AsyncBufferedHttpRangeClient, AsyncHttpRangeClient, HttpError};
 use log::{debug, info};
 use std::cmp::{max, min};
 use std::collections::{HashMap, VecDeque};
@@ -16,8 +18,6 @@ const PAYLOAD_TAG: Offset = 1u64 << 63;
 /// Mask to clear the tag bit.
 const PAYLOAD_MASK: Offset = !PAYLOAD_TAG;
 
-const DEFAULT_MIN_REQ_SIZE: usize = 1024 * 32;
-
 // This implementation was derived from FlatGeobuf's implemenation.
 
 /// S-Tree node
@@ -104,12 +104,13 @@ async fn read_http_payload_data<T: AsyncHttpRangeClient>(
     client: &mut AsyncBufferedHttpRangeClient<T>,
     offset: usize,
 ) -> Result<PayloadEntry> {
-    let temp_buffered_count_bytes_size = DEFAULT_MIN_REQ_SIZE; //This is hueristic, we don't know the size of the payload. TODO: find a better way
-
     debug!("sending request to fetch payload, offset {offset:?}");
 
+    // the entry tells its own size: [count, offset1, offset2, ...]
+    let mut count_bytes = client.get_range(offset, size_of::<u32>()).await?;
+    let count = count_bytes.read_u32::<LittleEndian>()? as usize;
     let payload_data = client
-        .get_range(offset, temp_buffered_count_bytes_size)
+        .get_range(offset, size_of::<u32>() + count * size_of::<u64>())
         .await?;
     let mut buf = Cursor::new(payload_data);
 
@@ -187,7 +188,13 @@ pub async fn prefetch_payload<T: AsyncHttpRangeClient>(
     let mut cache = PayloadCache::new();
 
     // Fetch the chunk of payload data
-    let payload_data = client.get_range(payload_section_start, chunk_size).await?;
+    let payload_data = match client.get_range(payload_section_start, chunk_size).await {
+        Ok(data) => data,
+        // The buffer of the client already reaches the end of the file, there is nothing beyond
+        // it to prefetch; the entries are then read one by one
+        Err(HttpError::HttpStatus(416)) => return Ok(cache),
+        Err(e) => return Err(e.into()),
+    };
 
     // Store the fetched data in the cache
     cache.update(payload_section_start, payload_data.to_vec());
@@ -302,58 +309,12 @@ async fn batch_resolve_payloads<T: AsyncHttpRangeClient>(
         payload_offsets_to_fetch.len()
     );
 
-    // Group adjacent offsets to reduce number of requests
-    let mut offset_ranges = Vec::new();
-    let mut current_range = (payload_offsets_to_fetch[0], payload_offsets_to_fetch[0]);
-
-    for &offset in payload_offsets_to_fetch.iter().skip(1) {
-        // If offsets are close (within DEFAULT_MIN_REQ_SIZE), extend the current range
-        if offset <= current_range.1 + DEFAULT_MIN_REQ_SIZE {
-            current_range.1 = offset;
-        } else {
-            // Otherwise, finish the current range and start a new one
-            offset_ranges.push(current_range);
-            current_range = (offset, offset);
-        }
-    }
-    offset_ranges.push(current_range);
-
-    debug!(
-        "grouped into {} payload range requests",
-        offset_ranges.len()
-    );
-
-    // Fetch each range and process
+    // Fetch each entry; the buffer of the client turns neighbouring ones into one request
     let mut fetched_payloads = HashMap::new();
 
-    for (start, end) in offset_ranges {
-        // Calculate fetch size to include the complete payload entries
-        // Add a margin to account for variable-sized payload entries
-        let fetch_size = (end - start) + DEFAULT_MIN_REQ_SIZE;
-
-        let payload_data = client.get_range(start, fetch_size).await?;
-
-        // Process each requested offset within this range
-        for &offset in payload_offsets_to_fetch
-            .iter()
-            .filter(|&&o| o >= start && o <= end)
-        {
-            let relative_offset = offset - start;
-
-            // Make sure we have enough data
-            if relative_offset < payload_data.len() {
-                let mut buf = Cursor::new(&payload_data[relative_offset..]);
-                match PayloadEntry::deserialize(&mut buf) {
-                    Ok((entry, _)) => {
-                        fetched_payloads.insert(offset, entry);
-                    }
-                    Err(e) => {
-                        debug!("error deserializing payload at offset {}: {:?}", offset, e);
-                        // Continue with other offsets on error
-                    }
-                }
-            }
-        }
+    for &offset in &payload_offsets_to_fetch {
+        let entry = read_http_payload_data(client, offset).await?;
+        fetched_payloads.insert(offset, entry);
     }
 
     // Process the fetched payloads and add to results
-- 
2.43.0


From 45a5b78f4b1311205da218f5abd76f5cb60efb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:24 +0000
Subject: [PATCH 06/26] fix: spatial queries over HTTP in debug builds, nearest
 feature's extent

---
 src/rust/fcb_core/src/packed_rtree/mod.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/rust/fcb_core/src/packed_rtree/mod.rs b/src/rust/fcb_core/src/packed_rtree/mod.rs
index afdbf5c..934f60b 100644
--- a/src/rust/fcb_core/src/packed_rtree/mod.rs
+++ b/src/rust/fcb_core/src/packed_rtree/mod.rs
@@ -980,7 +980,11 @@ impl PackedRTree {
                                     range: HttpRange::Range(start..end),
                                 });
                             } else {
-                                debug_assert_eq!(node_pos, num_items - 1);
+                                debug_assert_eq!(
+                                    node_range.nodes.start + node_pos,
+                                    level_bounds[0].end - 1,
+                                    "only the last leaf has no leaf behind it"
+                                );
                                 results.push(HttpSearchResultItem {
                                     range: HttpRange::RangeFrom(start..),
                                 });
@@ -1089,7 +1093,11 @@ impl PackedRTree {
                                     range: HttpRange::Range(start..end),
                                 });
                             } else {
-                                debug_assert_eq!(node_pos, num_items - 1);
+                                debug_assert_eq!(
+                                    node_range.nodes.start + node_pos,
+                                    level_bounds[0].end - 1,
+                                    "only the last leaf has no leaf behind it"
+                                );
                                 results.push(HttpSearchResultItem {
                                     range: HttpRange::RangeFrom(start..),
                                 });
@@ -1206,6 +1214,10 @@ impl PackedRTree {
                     let node_items = read_http_node_items(client, index_begin, &next.nodes).await?;
 
                     for (node_pos, node_item) in node_items.iter().enumerate() {
+                        // The extra leaf, fetched to size the last feature, belongs to the next node
+                        if next.level == 0 && node_pos >= branching_factor as usize {
+                            break;
+                        }
                         let dist = node_item.min_distance_squared(x, y);
 
                         // If we have a nearest item, only consider this node if it's closer
@@ -1228,7 +1240,11 @@ impl PackedRTree {
                                     range: HttpRange::Range(start..end),
                                 }
                             } else {
-                                debug_assert_eq!(node_pos, num_items - 1);
+                                debug_assert_eq!(
+                                    next.nodes.start + node_pos,
+                                    level_bounds[0].end - 1,
+                                    "only the last leaf has no leaf behind it"
+                                );
                                 HttpSearchResultItem {
                                     range: HttpRange::RangeFrom(start..),
                                 }
-- 
2.43.0


From 8788771fe84842acec4766b9e6298d760b3e58ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:03 +0000
Subject: [PATCH 07/26] fix: nearest feature among features without vertices

---
 src/rust/fcb_core/src/packed_rtree/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/rust/fcb_core/src/packed_rtree/mod.rs b/src/rust/fcb_core/src/packed_rtree/mod.rs
index 934f60b..8b1b81f 100644
--- a/src/rust/fcb_core/src/packed_rtree/mod.rs
+++ b/src/rust/fcb_core/src/packed_rtree/mod.rs
@@ -147,13 +147,22 @@ impl NodeItem {
         true
     }
 
+    /// Check if this NodeItem's bounding box contains no point at all
+    fn is_empty(&self) -> bool {
+        self.min_x > self.max_x || self.min_y > self.max_y
+    }
+
     /// Check if a point is inside or on the boundary of this NodeItem's bounding box
     pub fn contains_point(&self, x: f64, y: f64) -> bool {
         x >= self.min_x && x <= self.max_x && y >= self.min_y && y <= self.max_y
     }
 
     /// Calculate the squared Euclidean distance from a point to the centroid of this NodeItem
+    /// An empty bounding box (of a feature without vertices) is infinitely far away
     pub fn centroid_distance_squared(&self, x: f64, y: f64) -> f64 {
+        if self.is_empty() {
+            return f64::INFINITY;
+        }
         let centroid_x = (self.min_x + self.max_x) / 2.0;
         let centroid_y = (self.min_y + self.max_y) / 2.0;
         let dx = x - centroid_x;
@@ -167,6 +176,9 @@ impl NodeItem {
         if self.contains_point(x, y) {
             return 0.0;
         }
+        if self.is_empty() {
+            return f64::INFINITY;
+        }
 
         // Calculate closest point on the bbox
         let closest_x = x.clamp(self.min_x, self.max_x);
-- 
2.43.0


From 3f9dcaed80c444674a3942818be6255f4e9df3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:01 +0000
Subject: [PATCH 08/26] fix: nesting of geometries with a single solid or a
 single shell

---
 src/rust/fcb_core/src/reader/deserializer.rs | 62 ++++++++++++++++++--
 1 file changed, 56 insertions(+), 6 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index c447cb8..a703362 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -11,9 +11,10 @@ use cjseq::{
     CityJSONFeature, CityObject as CjCityObject, Extension as CjExtension,
     ExtensionFile as CjExtensionFile, Geometry as CjGeometry,
     GeometryTemplates as CjGeometryTemplates, GeometryType as CjGeometryType,
-    MaterialObject as CjMaterial, Metadata as CjMetadata, PointOfContact as CjPointOfContact,
-    ReferenceSystem as CjReferenceSystem, Semantics as CjSemantics, TextFormat as CjTextFormat,
-    TextType as CjTextType, TextureObject as CjTexture, Transform as CjTransform,
+    MaterialObject as CjMaterial, Metadata as CjMetadata, NestedArray as CjNestedArray,
+    PointOfContact as CjPointOfContact, ReferenceSystem as CjReferenceSystem,
+    Semantics as CjSemantics, TextFormat as CjTextFormat, TextType as CjTextType,
+    TextureObject as CjTexture, TextureReference as CjTextureReference, Transform as CjTransform,
     WrapMode as CjWrapMode,
 };
 
@@ -566,6 +567,28 @@ pub fn to_cj_feature(
     Ok(cj) // Return Result
 }
 
+/// Gives nested values the number of levels asked for, by adding or removing outer levels with a
+/// single element.
+fn with_levels<T>(values: CjNestedArray<T>, levels: Option<usize>) -> CjNestedArray<T> {
+    let Some(levels) = levels else {
+        return values;
+    };
+    let mut found = 1;
+    let mut part = &values;
+    while let CjNestedArray::Nested(parts) = part {
+        let Some(first) = parts.first() else { break };
+        found += 1;
+        part = first;
+    }
+    match values {
+        values if found < levels => {
+            (found..levels).fold(values, |v, _| CjNestedArray::Nested(vec![v]))
+        }
+        CjNestedArray::Nested(mut parts) if found > levels && parts.len() == 1 => parts.remove(0),
+        values => values,
+    }
+}
+
 pub(crate) fn decode_geometry(
     g: Geometry,
     semantic_attr_schema: Option<flatbuffers::Vector<'_, flatbuffers::ForwardsUOffset<Column<'_>>>>,
@@ -590,7 +613,17 @@ pub(crate) fn decode_geometry(
         .boundaries()
         .map(|v| v.iter().collect::<Vec<_>>())
         .unwrap_or_default();
-    let boundaries = decode(&solids, &shells, &surfaces, &strings, &indices);
+    // What is decoded from the flat lists has one level too few or too many when a list of solids
+    // has a single solid, or a solid a single shell: the geometry type tells.
+    let levels = match g.type_() {
+        GeometryType::Solid => Some(4),
+        GeometryType::MultiSolid | GeometryType::CompositeSolid => Some(5),
+        _ => None,
+    };
+    let boundaries = with_levels(
+        decode(&solids, &shells, &surfaces, &strings, &indices),
+        levels,
+    );
     let semantics: Option<CjSemantics> = if let (Some(semantics_objects), Some(semantics)) =
         (g.semantics_objects(), g.semantics())
     {
@@ -610,14 +643,31 @@ pub(crate) fn decode_geometry(
 
     // Decode material mappings if present
     let material = if let Some(material_mappings) = g.material() {
-        decode_materials(&material_mappings.iter().collect::<Vec<_>>())
+        decode_materials(&material_mappings.iter().collect::<Vec<_>>()).map(|mut materials| {
+            for material in materials.values_mut() {
+                // one value per surface, so neither rings nor vertices
+                material.values = material
+                    .values
+                    .take()
+                    .map(|v| with_levels(v, levels.map(|l| l - 2)));
+            }
+            materials
+        })
     } else {
         None
     };
 
     // Decode texture mappings if present
     let texture = if let Some(texture_mappings) = g.texture() {
-        decode_textures(&texture_mappings.iter().collect::<Vec<_>>())
+        decode_textures(&texture_mappings.iter().collect::<Vec<_>>()).map(|textures| {
+            textures
+                .into_iter()
+                .map(|(theme, t)| {
+                    let values = with_levels(t.values, levels);
+                    (theme, CjTextureReference { values })
+                })
+                .collect()
+        })
     } else {
         None
     };
-- 
2.43.0


From 3d81bed97251205cc7e28151a2fa63228df3cf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 09/26] fix: restore the reader position when a stream query
 finds nothing

---
 src/rust/fcb_core/src/static_btree/query/stream.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/query/stream.rs b/src/rust/fcb_core/src/static_btree/query/stream.rs
index f691fc6..fac51c6 100644
--- a/src/rust/fcb_core/src/static_btree/query/stream.rs
+++ b/src/rust/fcb_core/src/static_btree/query/stream.rs
@@ -388,11 +388,11 @@ impl StreamMultiIndex {
         reader.seek(SeekFrom::Start(start_position + index_range.start as u64))?;
 
         let mut result_set = indexer.execute_query_condition(reader, first)?;
+        // set cursor to the start of the index
+        reader.seek(SeekFrom::Start(start_position))?;
         if result_set.is_empty() {
             return Ok(vec![]);
         }
-        // set cursor to the start of the index
-        reader.seek(SeekFrom::Start(start_position))?;
 
         for cond in &conditions[1..] {
             let start_position = reader.stream_position()?;
@@ -410,11 +410,11 @@ impl StreamMultiIndex {
             println!("query condition: {:?}", cond);
             let condition_results = indexer.execute_query_condition(reader, cond)?;
             result_set.retain(|offset| condition_results.contains(offset));
+            // set cursor to the start of the index
+            reader.seek(SeekFrom::Start(start_position))?;
             if result_set.is_empty() {
                 return Ok(vec![]); // no results found for this condition, return early so we don't waste time intersecting empty sets
             }
-            // set cursor to the start of the index
-            reader.seek(SeekFrom::Start(start_position))?;
         }
         // set cursor to the start of the index
         reader.seek(SeekFrom::Start(start_position))?;
-- 
2.43.0


From 291629eff3c5faa65c3ddd3755a24d669228a0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 10/26] fix: the header says how many features the file has

FcbWriter wrote the feature count given in the options (0 by default), and
a file whose count differs from its features cannot be read: the readers
derive the size of the spatial index from it.
---
 src/rust/fcb_core/src/writer/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rust/fcb_core/src/writer/mod.rs b/src/rust/fcb_core/src/writer/mod.rs
index 5d0ea56..20d594e 100644
--- a/src/rust/fcb_core/src/writer/mod.rs
+++ b/src/rust/fcb_core/src/writer/mod.rs
@@ -260,6 +260,9 @@ impl<'a> FcbWriter<'a> {
             }
         }
 
+        // the readers rely on the number of features that follow
+        self.header_writer.header_options.feature_count = self.feat_offsets.len() as u64;
+
         // write header with attribute indices metadata
         self.header_writer.attribute_indices_info = Some(attr_index_info);
         let header_buf = self.header_writer.finish_to_header()?;
-- 
2.43.0


From 39b303aff84a24a243f4f725e639be0e8c9836d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 11/26] fix: attribute index on an attribute no feature has

Building it panicked ("Cannot create empty tree"), so no file was written.
---
 src/rust/fcb_core/src/writer/attr_index.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rust/fcb_core/src/writer/attr_index.rs b/src/rust/fcb_core/src/writer/attr_index.rs
index f8b70ca..774c83a 100644
--- a/src/rust/fcb_core/src/writer/attr_index.rs
+++ b/src/rust/fcb_core/src/writer/attr_index.rs
@@ -36,6 +36,12 @@ where
         }
     }
 
+    if entries.is_empty() {
+        return Err(Error::IndexCreationError(
+            "no feature has the attribute".to_string(),
+        ));
+    }
+
     let index = MemoryIndex::<T>::build(&entries, branching_factor)?;
     let mut buf = Vec::new();
     index.serialize(&mut buf)?;
-- 
2.43.0


From f8d40ff8dabae11fbd00fcd0d80eac049e449e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 12/26] fix: queries on signed 64 bit attributes

The writer indexes them, but all readers refused any query on a file with
such an index.
---
 src/rust/fcb_core/src/http_reader/mod.rs   | 10 ++++++++++
 src/rust/fcb_core/src/reader/attr_query.rs | 17 +++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index a9deae9..499a528 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -420,6 +420,16 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
                     );
                     multi_index.add_index(col.name().to_string(), index);
                 }
+                ColumnType::Long => {
+                    let index = HttpIndex::<i64>::new(
+                        attr_info.num_unique_items() as usize,
+                        attr_info.branching_factor(),
+                        index_begin,
+                        feature_begin,
+                        1024 * 1024, // combine_request_threshold
+                    );
+                    multi_index.add_index(col.name().to_string(), index);
+                }
                 ColumnType::Byte => {
                     let index = HttpIndex::<i8>::new(
                         attr_info.num_unique_items() as usize,
diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index ebf8bd4..2ce2ba8 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -114,6 +114,14 @@ pub fn add_indices_to_multi_memory_index<R: Read>(
                     )?;
                     multi_index.add_u64_index(col.name().to_string(), index);
                 }
+                ColumnType::Long => {
+                    let index = MemoryIndex::<i64>::from_buf(
+                        &mut buf,
+                        attr_info.num_unique_items() as usize,
+                        attr_info.branching_factor(),
+                    )?;
+                    multi_index.add_i64_index(col.name().to_string(), index);
+                }
                 ColumnType::Byte => {
                     let index = MemoryIndex::<i8>::from_buf(
                         &mut buf,
@@ -252,6 +260,15 @@ pub fn add_indices_to_multi_stream_index<R: Read + Seek>(
                 );
                 multi_index.add_u64_index(col.name().to_string(), index, attr_info.length() as u64);
             }
+            ColumnType::Long => {
+                let index = StreamIndex::<i64>::new(
+                    attr_info.num_unique_items() as usize,
+                    attr_info.branching_factor(),
+                    index_begin,
+                    attr_info.length() as u64,
+                );
+                multi_index.add_i64_index(col.name().to_string(), index, attr_info.length() as u64);
+            }
             ColumnType::Byte => {
                 let index = StreamIndex::<i8>::new(
                     attr_info.num_unique_items() as usize,
-- 
2.43.0


From 2350223f08871655196fceb385bbb551c07027fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 13/26] fix: read byte and binary attributes

Files with such columns could be written, but reading them panicked.
---
 src/rust/fcb_core/src/reader/deserializer.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index a703362..0af6df7 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -295,6 +295,20 @@ pub fn decode_attributes(
                 );
                 offset += size_of::<u8>();
             }
+            ColumnType::Byte => {
+                map.insert(
+                    column.name().to_string(),
+                    serde_json::Value::Number(serde_json::Number::from(bytes[offset] as i8)),
+                );
+                offset += size_of::<i8>();
+            }
+            ColumnType::UByte => {
+                map.insert(
+                    column.name().to_string(),
+                    serde_json::Value::Number(serde_json::Number::from(bytes[offset])),
+                );
+                offset += size_of::<u8>();
+            }
             ColumnType::Short => {
                 map.insert(
                     column.name().to_string(),
@@ -345,7 +359,7 @@ pub fn decode_attributes(
                 }
                 offset += size_of::<f64>();
             }
-            ColumnType::String => {
+            ColumnType::String | ColumnType::Binary => {
                 let len = LittleEndian::read_u32(&bytes[offset..offset + size_of::<u32>()]);
                 offset += size_of::<u32>();
                 let s = String::from_utf8(bytes[offset..offset + len as usize].to_vec())
-- 
2.43.0


From 82e87932ff9f492d1205551b177a46870ca18dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 14/26] fix: attributes whose values have different types

A value that does not fit its column's type was written as 0, false or a
panic, and null was indexed as one of them. Such an object now gets its own
columns, as one with an unknown attribute does, a schema made from several
objects gets a type that holds all their values, and values without a key
are not indexed.
---
 src/rust/fcb_core/src/writer/attribute.rs  | 58 ++++++++++++++++++++--
 src/rust/fcb_core/src/writer/serializer.rs |  9 ++--
 2 files changed, 59 insertions(+), 8 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/attribute.rs b/src/rust/fcb_core/src/writer/attribute.rs
index 119b1c0..982795f 100644
--- a/src/rust/fcb_core/src/writer/attribute.rs
+++ b/src/rust/fcb_core/src/writer/attribute.rs
@@ -21,10 +21,13 @@ impl AttributeSchemaMethods for AttributeSchema {
 
         let map = attrs.as_object().unwrap();
         for (key, val) in map.iter() {
-            if !self.contains_key(key) && !val.is_null() {
-                if let Some(coltype) = guess_type(val) {
-                    self.insert(key.clone(), (self.len() as u16, coltype));
-                }
+            let Some(coltype) = guess_type(val) else {
+                continue;
+            };
+            let next_index = self.len() as u16;
+            let column = self.entry(key.clone()).or_insert((next_index, coltype));
+            if !fits(&column.1, val) {
+                column.1 = common_type(column.1, coltype);
             }
         }
     }
@@ -59,6 +62,49 @@ fn guess_type(value: &Value) -> Option<ColumnType> {
     }
 }
 
+/// Whether a column of this type can hold the value.
+pub(crate) fn fits(coltype: &ColumnType, val: &Value) -> bool {
+    let int = |min: i64, max: i64| val.as_i64().is_some_and(|i| (min..=max).contains(&i));
+    match *coltype {
+        ColumnType::Bool => val.is_boolean(),
+        ColumnType::Byte => int(i8::MIN as i64, i8::MAX as i64),
+        ColumnType::UByte => int(0, u8::MAX as i64),
+        ColumnType::Short => int(i16::MIN as i64, i16::MAX as i64),
+        ColumnType::UShort => int(0, u16::MAX as i64),
+        ColumnType::Int => int(i32::MIN as i64, i32::MAX as i64),
+        ColumnType::UInt => int(0, u32::MAX as i64),
+        ColumnType::Long => val.as_i64().is_some(),
+        ColumnType::ULong => val.as_u64().is_some(),
+        ColumnType::Float | ColumnType::Double => {
+            val.is_f64() || int(-MAX_EXACT_INT, MAX_EXACT_INT)
+        }
+        ColumnType::String | ColumnType::Binary => val.is_string(),
+        ColumnType::DateTime => guess_type(val) == Some(ColumnType::DateTime),
+        _ => true,
+    }
+}
+
+/// The greatest integer up to which every integer is a f64.
+const MAX_EXACT_INT: i64 = 1 << 53;
+
+/// The type of a column that has values of both types.
+fn common_type(a: ColumnType, b: ColumnType) -> ColumnType {
+    match (a, b) {
+        (ColumnType::Long | ColumnType::ULong, ColumnType::Long | ColumnType::ULong) => {
+            ColumnType::Long
+        }
+        (
+            ColumnType::Long | ColumnType::ULong | ColumnType::Double,
+            ColumnType::Long | ColumnType::ULong | ColumnType::Double,
+        ) => ColumnType::Double,
+        (
+            ColumnType::String | ColumnType::DateTime,
+            ColumnType::String | ColumnType::DateTime,
+        ) => ColumnType::String,
+        _ => ColumnType::Json,
+    }
+}
+
 pub(crate) fn attr_size(coltype: &ColumnType, colval: &Value) -> usize {
     match *coltype {
         ColumnType::Byte => size_of::<i8>(),
@@ -252,6 +298,10 @@ pub fn attribute_to_index_entries(
 
         let index_coltype = schema.get(attr);
         if let Some((index, coltype)) = index_coltype {
+            // null and values of another type have no key
+            if val.is_null() || !fits(coltype, val) {
+                continue;
+            }
             match *coltype {
                 ColumnType::Bool => {
                     let b = val.as_bool().unwrap_or(false);
diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index 81800dd..57b2cbd 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -1,4 +1,4 @@
-use crate::attribute::{encode_attributes_with_schema, AttributeSchema, AttributeSchemaMethods};
+use crate::attribute::{encode_attributes_with_schema, fits, AttributeSchema, AttributeSchemaMethods};
 use crate::fb::{
     Appearance, AppearanceArgs, CityFeature, CityFeatureArgs, CityObject, CityObjectArgs,
     CityObjectType, Geometry, GeometryArgs, GeometryType, Material, MaterialArgs, SemanticObject,
@@ -1039,9 +1039,10 @@ pub(super) fn to_fcb_attribute<'a>(
     Option<AttributeSchema>,
 ) {
     let mut is_own_schema = false;
-    for (key, _) in attr.as_object().unwrap().iter() {
-        if !schema.contains_key(key) {
-            is_own_schema = true;
+    for (key, val) in attr.as_object().unwrap().iter() {
+        match schema.get(key) {
+            Some((_, coltype)) if val.is_null() || fits(coltype, val) => {}
+            _ => is_own_schema = true,
         }
     }
     if is_own_schema {
-- 
2.43.0


From 01b2523b92a156577a18057714f56ba1aa56d25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 15/26] fix: keep appearance and geometry templates of a file
 without metadata

---
 src/rust/fcb_core/src/writer/serializer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index 57b2cbd..bcf01a2 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -217,6 +217,9 @@ pub(super) fn to_fcb_header<'a>(
                 geographical_extent: geographical_extent_from_options.as_ref(),
                 version,
                 attribute_index,
+                appearance,
+                templates,
+                templates_vertices,
                 extensions,
                 ..Default::default()
             },
-- 
2.43.0


From e236d02cd15988c0ee6543be06602a6278ea01ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 16/26] fix: keep reference system codes that are not plain
 numbers

---
 src/rust/fcb_core/src/reader/deserializer.rs |  3 ++-
 src/rust/fcb_core/src/writer/serializer.rs   | 12 +++++-------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 0af6df7..16c9ec8 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -56,7 +56,8 @@ pub fn to_cj_metadata(header: &Header) -> Result<CityJSON, Error> {
             None,
             rs.authority().unwrap_or_default().to_string(),
             rs.version().to_string(),
-            rs.code().to_string(),
+            rs.code_string()
+                .map_or_else(|| rs.code().to_string(), |code| code.to_string()),
         )
     });
     cj.version = header.version().to_string();
diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index bcf01a2..e5e1125 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -274,15 +274,13 @@ pub(super) fn to_reference_system<'a>(
     let authority = Some(fbb.create_string(&ref_system.authority));
 
     let version = ref_system.version.parse::<i32>().unwrap_or_else(|e| {
-        println!("failed to parse version: {}", e);
+        eprintln!("failed to parse version: {}", e);
         0
     });
-    let code = ref_system.code.parse::<i32>().unwrap_or_else(|e| {
-        println!("failed to parse code: {}", e);
-        0
-    });
-
-    let code_string = None; // TODO: implement code_string
+    // a code that is not a number, or is written in another way than the number, is kept as it is
+    let code = ref_system.code.parse::<i32>().unwrap_or_default();
+    let code_string =
+        (code.to_string() != ref_system.code).then(|| fbb.create_string(&ref_system.code));
 
     ReferenceSystem::create(
         fbb,
-- 
2.43.0


From b08b0d3946513dc6fdfa900477555f1590c14e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 17/26] fix: a file without a geographical extent reads as one
 without it

---
 src/rust/fcb_core/src/reader/deserializer.rs | 25 +++++++++-----------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 16c9ec8..b5717b9 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -63,19 +63,16 @@ pub fn to_cj_metadata(header: &Header) -> Result<CityJSON, Error> {
     cj.version = header.version().to_string();
     cj.thetype = String::from("CityJSON");
 
-    let geographical_extent = header
-        .geographical_extent()
-        .map(|extent| {
-            [
-                extent.min().x(),
-                extent.min().y(),
-                extent.min().z(),
-                extent.max().x(),
-                extent.max().y(),
-                extent.max().z(),
-            ]
-        })
-        .unwrap_or_default();
+    let geographical_extent = header.geographical_extent().map(|extent| {
+        [
+            extent.min().x(),
+            extent.min().y(),
+            extent.min().z(),
+            extent.max().x(),
+            extent.max().y(),
+            extent.max().z(),
+        ]
+    });
 
     let point_of_contact = match header.poc_contact_name() {
         Some(_) => Some(to_cj_point_of_contact(header)?),
@@ -83,7 +80,7 @@ pub fn to_cj_metadata(header: &Header) -> Result<CityJSON, Error> {
     };
 
     cj.metadata = Some(CjMetadata {
-        geographical_extent: Some(geographical_extent),
+        geographical_extent,
         identifier: header.identifier().map(|i| i.to_string()),
         point_of_contact,
         reference_date: header.reference_date().map(|r| r.to_string()),
-- 
2.43.0


From 88685a337dbb01ad93be0fc482dc2fbc21205fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:48 +0000
Subject: [PATCH 18/26] fix: read the appearance of the whole file

---
 src/rust/fcb_core/src/reader/deserializer.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index b5717b9..332cc6b 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -88,6 +88,8 @@ pub fn to_cj_metadata(header: &Header) -> Result<CityJSON, Error> {
         title: header.title().map(|t| t.to_string()),
     });
 
+    cj.appearance = to_cj_appearance(header.appearance());
+
     // Decode Geometry Templates if present
     if let (Some(fb_templates), Some(fb_vertices)) =
         (header.templates(), header.templates_vertices())
@@ -476,8 +478,15 @@ pub fn to_cj_feature(
         .vertices()
         .map_or(Vec::new(), |v| to_cj_vertices(v.iter().collect()));
 
+    cj.appearance = to_cj_appearance(feature.appearance());
+
+    Ok(cj) // Return Result
+}
+
+/// Converts the appearance of a feature, or of a whole file, to CityJSON.
+fn to_cj_appearance(appearance: Option<Appearance>) -> Option<CjAppearance> {
     // Decode appearance if present
-    if let Some(appearance) = feature.appearance() {
+    if let Some(appearance) = appearance {
         let mut cj_appearance = CjAppearance {
             materials: None,
             textures: None,
@@ -573,10 +582,10 @@ pub fn to_cj_feature(
             cj_appearance.default_theme_material = Some(default_theme_material.to_string());
         }
 
-        cj.appearance = Some(cj_appearance);
+        Some(cj_appearance)
+    } else {
+        None
     }
-
-    Ok(cj) // Return Result
 }
 
 /// Gives nested values the number of levels asked for, by adding or removing outer levels with a
-- 
2.43.0


From 7856626edfc355bdd00519a3a6801be49334c8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:48 +0000
Subject: [PATCH 19/26] fix: metadata of files with byte columns

---
 src/rust/fcb_core/src/reader/deserializer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 332cc6b..beb04b0 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -122,6 +122,8 @@ pub(crate) fn to_meta(header: Header) -> Result<Meta, Error> {
                     index: i,
                     name: c.name().to_string(),
                     _type: match c.type_() {
+                        ColumnType::Byte => MetaColumnType::Byte,
+                        ColumnType::UByte => MetaColumnType::UByte,
                         ColumnType::Int => MetaColumnType::Int,
                         ColumnType::UInt => MetaColumnType::UInt,
                         ColumnType::Bool => MetaColumnType::Bool,
-- 
2.43.0


From 5db7c40b431b730362473bba041cbe6b058b051f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 20/26] fix: opening a file whose header is damaged is an error

---
 src/rust/fcb_core/src/reader/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/reader/mod.rs b/src/rust/fcb_core/src/reader/mod.rs
index 522fefc..06234e3 100644
--- a/src/rust/fcb_core/src/reader/mod.rs
+++ b/src/rust/fcb_core/src/reader/mod.rs
@@ -108,7 +108,7 @@ impl<R: Read> FcbReader<R> {
         reader.read_exact(&mut header_buf[4..])?;
 
         if verify {
-            let _header = size_prefixed_root_as_header(&header_buf);
+            let _header = size_prefixed_root_as_header(&header_buf)?;
         }
 
         Ok(FcbReader {
-- 
2.43.0


From 6a06cd32eff29eef8f05a22508f85c9dbb818a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 21/26] fix: a file that ends early or cannot be read is an
 error, not the end

---
 src/rust/fcb_core/src/reader/attr_query.rs |  8 +--
 src/rust/fcb_core/src/reader/mod.rs        | 61 +++++++++++-----------
 2 files changed, 35 insertions(+), 34 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index 2ce2ba8..98b5bbe 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -421,7 +421,7 @@ impl<R: Read + Seek> FcbReader<R> {
         self.reader
             .seek(SeekFrom::Start(attr_index_start_pos + attr_index_size))?;
 
-        Ok(FeatureIter::<R, Seekable>::new(
+        FeatureIter::<R, Seekable>::new(
             self.reader,
             self.verify,
             self.buffer,
@@ -429,7 +429,7 @@ impl<R: Read + Seek> FcbReader<R> {
             Some(result_vec),
             feature_offset,
             total_feat_count,
-        ))
+        )
     }
 }
 
@@ -499,7 +499,7 @@ impl<R: Read> FcbReader<R> {
         let total_feat_count = result.len() as u64;
 
         // Create and return the FeatureIter
-        Ok(FeatureIter::<R, NotSeekable>::new(
+        FeatureIter::<R, NotSeekable>::new(
             self.reader,
             self.verify,
             self.buffer,
@@ -507,6 +507,6 @@ impl<R: Read> FcbReader<R> {
             Some(result),
             feature_offset,
             total_feat_count,
-        ))
+        )
     }
 }
diff --git a/src/rust/fcb_core/src/reader/mod.rs b/src/rust/fcb_core/src/reader/mod.rs
index 06234e3..dc48b0a 100644
--- a/src/rust/fcb_core/src/reader/mod.rs
+++ b/src/rust/fcb_core/src/reader/mod.rs
@@ -132,7 +132,7 @@ impl<R: Read> FcbReader<R> {
             attributes: self.attr_index_size(),
         };
         let total_feat_count = self.buffer.header().features_count();
-        Ok(FeatureIter::new(
+        FeatureIter::new(
             self.reader,
             self.verify,
             self.buffer,
@@ -140,7 +140,7 @@ impl<R: Read> FcbReader<R> {
             None,
             feature_offset,
             total_feat_count,
-        ))
+        )
     }
 
     pub fn select_query_seq(mut self, query: Query) -> Result<FeatureIter<R, NotSeekable>, Error> {
@@ -169,7 +169,7 @@ impl<R: Read> FcbReader<R> {
             attributes: self.attr_index_size(),
         };
         let total_feat_count = list.len() as u64;
-        Ok(FeatureIter::new(
+        FeatureIter::new(
             self.reader,
             self.verify,
             self.buffer,
@@ -177,7 +177,7 @@ impl<R: Read> FcbReader<R> {
             None,
             feature_offset,
             total_feat_count,
-        ))
+        )
     }
 }
 
@@ -193,7 +193,7 @@ impl<R: Read + Seek> FcbReader<R> {
         let index_size = self.attr_index_size() + self.rtree_index_size();
         self.reader.seek(SeekFrom::Current(index_size as i64))?;
         let total_feat_count = self.buffer.header().features_count();
-        Ok(FeatureIter::new(
+        FeatureIter::new(
             self.reader,
             self.verify,
             self.buffer,
@@ -201,7 +201,7 @@ impl<R: Read + Seek> FcbReader<R> {
             None,
             feature_offset,
             total_feat_count,
-        ))
+        )
     }
 
     pub fn select_query(mut self, query: Query) -> Result<FeatureIter<R, Seekable>, Error> {
@@ -230,7 +230,7 @@ impl<R: Read + Seek> FcbReader<R> {
             attributes: self.attr_index_size(),
         };
         let total_feat_count = list.len() as u64;
-        Ok(FeatureIter::new(
+        FeatureIter::new(
             self.reader,
             self.verify,
             self.buffer,
@@ -238,7 +238,7 @@ impl<R: Read + Seek> FcbReader<R> {
             None,
             feature_offset,
             total_feat_count,
-        ))
+        )
     }
 }
 
@@ -452,7 +452,7 @@ impl<R: Read, S> FeatureIter<R, S> {
         item_attr_filter: Option<Vec<Offset>>,
         feature_offset: FeatureOffset,
         total_feat_count: u64,
-    ) -> FeatureIter<R, S> {
+    ) -> Result<FeatureIter<R, S>, Error> {
         let mut iter = FeatureIter {
             reader,
             verify,
@@ -468,27 +468,25 @@ impl<R: Read, S> FeatureIter<R, S> {
             total_feat_count,
         };
 
-        if iter.read_feature_size() {
+        iter.count = match (&iter.item_filter, &iter.item_attr_filter) {
+            (Some(list), _) => Some(list.len()),
+            (None, Some(list)) => Some(list.len()),
+            (None, None) => match iter.buffer.header().features_count() as usize {
+                0 => None,
+                feat_count => Some(feat_count),
+            },
+        };
+
+        if iter.count == Some(0) {
+            iter.state = State::Finished
+        } else if iter.read_feature_size()? {
             iter.state = State::Finished;
+            iter.count = Some(0);
         } else {
             iter.state = State::ReadFirstFeatureSize
         }
 
-        iter.count = match &iter.item_filter {
-            Some(list) => Some(list.len()),
-            None => {
-                let feat_count = iter.buffer.header().features_count() as usize;
-                if feat_count > 0 {
-                    Some(feat_count)
-                } else if iter.state == State::Finished {
-                    Some(0)
-                } else {
-                    None
-                }
-            }
-        };
-
-        iter
+        Ok(iter)
     }
 
     pub fn header(&self) -> Header {
@@ -525,12 +523,15 @@ impl<R: Read, S> FeatureIter<R, S> {
     }
 
     /// Read feature size and return true if end of dataset reached
-    fn read_feature_size(&mut self) -> bool {
+    fn read_feature_size(&mut self) -> Result<bool, Error> {
         self.buffer.features_buf.resize(4, 0);
         self.cur_pos += 4;
-        self.reader
-            .read_exact(&mut self.buffer.features_buf)
-            .is_err()
+        match self.reader.read_exact(&mut self.buffer.features_buf) {
+            Ok(()) => Ok(false),
+            // the end of the file is the end of the features only if their number is not known
+            Err(e) if self.count.is_none() && e.kind() == io::ErrorKind::UnexpectedEof => Ok(true),
+            Err(e) => Err(e.into()),
+        }
     }
 
     fn read_feature(&mut self) -> Result<(), Error> {
@@ -539,7 +540,7 @@ impl<R: Read, S> FeatureIter<R, S> {
                 self.state = State::Reading;
             }
             State::Reading => {
-                if self.read_feature_size() {
+                if self.read_feature_size()? {
                     self.state = State::Finished;
                     return Ok(());
                 }
-- 
2.43.0


From dc8794ff1dcc2526d4aa268e858ad93c1037380a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 22/26] fix: an index that ends early over HTTP is an error

---
 src/rust/fcb_core/src/packed_rtree/mod.rs   | 4 +++-
 src/rust/fcb_core/src/static_btree/stree.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rust/fcb_core/src/packed_rtree/mod.rs b/src/rust/fcb_core/src/packed_rtree/mod.rs
index 8b1b81f..5f24327 100644
--- a/src/rust/fcb_core/src/packed_rtree/mod.rs
+++ b/src/rust/fcb_core/src/packed_rtree/mod.rs
@@ -231,7 +231,9 @@ async fn read_http_node_items<T: AsyncHttpRangeClient>(
         .await?;
 
     let mut node_items = Vec::with_capacity(node_ids.len());
-    debug_assert_eq!(bytes.len(), length);
+    if bytes.len() != length {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
     for node_item_bytes in bytes.chunks(size_of::<NodeItem>()) {
         node_items.push(NodeItem::from_bytes(node_item_bytes)?);
     }
diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index bb99bb2..b8041f3 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -91,7 +91,9 @@ async fn read_http_node_items<K: Key, T: AsyncHttpRangeClient>(
         .await?;
 
     let mut node_items = Vec::with_capacity(node_ids.len());
-    debug_assert_eq!(bytes.len(), length);
+    if bytes.len() != length {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
     for node_item_bytes in bytes.chunks(NodeItem::<K>::SERIALIZED_SIZE) {
         let node_item = NodeItem::from_reader(&mut Cursor::new(node_item_bytes))?;
         node_items.push(node_item);
-- 
2.43.0


From 0c562395301bc64f33bf865ee49872fad425aa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 23/26] fix: opening a file of less than eight bytes over HTTP
 is an error

---
 src/rust/fcb_core/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/lib.rs b/src/rust/fcb_core/src/lib.rs
index 650dc0b..e097528 100644
--- a/src/rust/fcb_core/src/lib.rs
+++ b/src/rust/fcb_core/src/lib.rs
@@ -55,5 +55,8 @@ pub use writer::*;
 pub use http_reader::*;
 
 pub fn check_magic_bytes(bytes: &[u8]) -> bool {
-    bytes[0..3] == MAGIC_BYTES[0..3] && bytes[4..7] == MAGIC_BYTES[4..7] && bytes[3] <= VERSION
+    bytes.len() >= MAGIC_BYTES.len()
+        && bytes[0..3] == MAGIC_BYTES[0..3]
+        && bytes[4..7] == MAGIC_BYTES[4..7]
+        && bytes[3] <= VERSION
 }
-- 
2.43.0


From e1a2c9c389ca2c6650c63774d9c7ff962de73eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:31 +0000
Subject: [PATCH 24/26] fix: fcb ser printed its options into the output when
 that is the standard output

---
 src/rust/cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index a8e25e7..f3f874a 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -253,7 +253,7 @@ fn serialize(
         geographical_extent: geo_extent,
     };
 
-    println!("header_options in cli: {:?}", header_options);
+    eprintln!("header_options in cli: {:?}", header_options);
 
     let mut fcb = FcbWriter::new(cj, Some(header_options), attr_schema, semantic_attr_schema)?;
 
-- 
2.43.0


From 0d599cea4691938dbc51c354e5f32756a2531d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:31 +0000
Subject: [PATCH 25/26] fix: fcb deser ended with success when a feature could
 not be read

---
 src/rust/cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index f3f874a..79c36f6 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -391,7 +391,7 @@ fn deserialize(input: &str, output: &str) -> Result<(), Error> {
     // Write features
     let feat_count = header.features_count();
     let mut feat_num = 0;
-    while let Ok(Some(feat_buf)) = fcb_reader.next() {
+    while let Some(feat_buf) = fcb_reader.next()? {
         let feature = feat_buf.cur_cj_feature()?;
         writeln!(writer, "{}", serde_json::to_string(&feature)?)?;
 
-- 
2.43.0


From c2618b7115b078fb36237998b59e2b4393da2a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:45 +0000
Subject: [PATCH 26/26] fix: a failure of the last, buffered writes was not
 reported (full disk)

---
 src/rust/cli/src/main.rs            | 6 ++++--
 src/rust/fcb_core/src/writer/mod.rs | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index 79c36f6..0b972cb 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -400,6 +400,7 @@ fn deserialize(input: &str, output: &str) -> Result<(), Error> {
             break;
         }
     }
+    writer.flush()?;
 
     if output != "-" {
         eprintln!("Successfully decoded to CityJSON");
@@ -409,15 +410,16 @@ fn deserialize(input: &str, output: &str) -> Result<(), Error> {
 
 fn encode_cbor(input: &str, output: &str) -> Result<(), Error> {
     let reader = BufReader::new(get_reader(input)?);
-    let writer = BufWriter::new(get_writer(output)?);
+    let mut writer = BufWriter::new(get_writer(output)?);
 
     let value: serde_json::Value = serde_json::from_reader(reader)?;
-    serde_cbor::to_writer(writer, &value).map_err(|e| {
+    serde_cbor::to_writer(&mut writer, &value).map_err(|e| {
         Error::IoError(std::io::Error::new(
             std::io::ErrorKind::Other,
             format!("failed to encode to cbor: {}", e),
         ))
     })?;
+    writer.flush()?;
 
     if output != "-" {
         eprintln!("successfully encoded to cbor");
diff --git a/src/rust/fcb_core/src/writer/mod.rs b/src/rust/fcb_core/src/writer/mod.rs
index 20d594e..04d7d66 100644
--- a/src/rust/fcb_core/src/writer/mod.rs
+++ b/src/rust/fcb_core/src/writer/mod.rs
@@ -272,6 +272,8 @@ impl<'a> FcbWriter<'a> {
         out.write_all(&rtree_buf)?;
         out.write_all(&attr_index_buf)?;
         out.write_all(&sorted_feature_buf)?;
+        // a buffered writer that is dropped would not report a failure
+        out.flush()?;
 
         Ok(())
     }
-- 
2.43.0

