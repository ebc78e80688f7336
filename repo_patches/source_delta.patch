From 25d18b9d123e5ecc35cac440c6a86cb263223d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:41 +0000
Subject: [PATCH 01/62] fix: a rate bucket with a large refill no longer loses
 tokens to overflow

tokens * refill wrapped around (or panicked in debug builds), so a bucket whose
refill is large could be given nothing however long it rested.
---
 common/limiter_bucket/src/rate_bucket.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/limiter_bucket/src/rate_bucket.rs b/common/limiter_bucket/src/rate_bucket.rs
index 72cb477..0ad6001 100644
--- a/common/limiter_bucket/src/rate_bucket.rs
+++ b/common/limiter_bucket/src/rate_bucket.rs
@@ -231,7 +231,9 @@ impl RateBucket {
     fn update_critical(&self, critical: &mut MutexGuard<Critical>) {
         if let Some((tokens, deadline)) = calculate_drain(critical.deadline, self.interval) {
             critical.deadline = deadline;
-            critical.balance = critical.balance.saturating_add(tokens * self.refill);
+            critical.balance = critical
+                .balance
+                .saturating_add(tokens.saturating_mul(self.refill));
 
             if critical.balance > self.max {
                 critical.balance = self.max;
-- 
2.43.0


From 7f635ec664a6c53d706c3ea2ef70e42f8499b780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:41 +0000
Subject: [PATCH 02/62] fix: memory pool refuses requests whose sum overflows

used + additional wrapped around, so a huge request was granted and shrank the
recorded usage; pool_size - used underflowed when grow() had exceeded the pool.
---
 common/memory_pool/src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/common/memory_pool/src/lib.rs b/common/memory_pool/src/lib.rs
index 723f57f..16cb134 100644
--- a/common/memory_pool/src/lib.rs
+++ b/common/memory_pool/src/lib.rs
@@ -47,11 +47,16 @@ impl MemoryPool for GreedyMemoryPool {
     fn try_grow(&self, reservation: &MemoryReservation, additional: usize) -> Result<()> {
         self.used
             .fetch_update(Ordering::Relaxed, Ordering::Relaxed, |used| {
-                let new_used = used + additional;
-                (new_used <= self.pool_size).then_some(new_used)
+                used.checked_add(additional)
+                    .filter(|new_used| *new_used <= self.pool_size)
             })
             .map_err(|used| {
-                insufficient_capacity_err(reservation, additional, self.pool_size - used)
+                insufficient_capacity_err(
+                    reservation,
+                    additional,
+                    // `grow` may have taken more than the pool has
+                    self.pool_size.saturating_sub(used),
+                )
             })?;
         // add warn message, for CAICT test
         if self
-- 
2.43.0


From 41094d75e101a1c7a7d7d0da7a13c8282f0f4375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:41 +0000
Subject: [PATCH 03/62] fix: averages no longer lose values added while one is
 taken

U64Average read count and total and then cleared both, so a value added in
between was lost, or counted without its amount; and it divided by count + 1,
so the average of a single value was half of it.
---
 common/metrics/src/average.rs | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/common/metrics/src/average.rs b/common/metrics/src/average.rs
index 85cb3e1..9865cf5 100644
--- a/common/metrics/src/average.rs
+++ b/common/metrics/src/average.rs
@@ -1,33 +1,28 @@
-use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::Arc;
 
+use parking_lot::Mutex;
+
 use crate::metric_type::MetricType;
 use crate::metric_value::MetricValue;
 use crate::MetricRecorder;
 
 #[derive(Clone, Default, Debug)]
 pub struct U64Average {
-    count: Arc<AtomicU64>,
-    total: Arc<AtomicU64>,
+    /// Count and total of the values added since the average was last taken.
+    state: Arc<Mutex<(u64, u64)>>,
 }
 
 impl U64Average {
     pub fn add(&self, value: u64) {
-        self.count.fetch_add(1, Ordering::Relaxed);
-        self.total.fetch_add(value, Ordering::Relaxed);
+        let mut state = self.state.lock();
+        state.0 += 1;
+        state.1 = state.1.wrapping_add(value);
     }
 
+    /// Takes the average of the values added since it was last taken.
     pub fn average(&self) -> u64 {
-        let count = self.count.load(Ordering::Relaxed);
-        let total = self.total.load(Ordering::Relaxed);
-
-        self.clear();
-        total / (count + 1)
-    }
-
-    fn clear(&self) {
-        self.count.store(0, Ordering::Relaxed);
-        self.total.store(0, Ordering::Relaxed);
+        let (count, total) = std::mem::take(&mut *self.state.lock());
+        total.checked_div(count).unwrap_or(0)
     }
 }
 
-- 
2.43.0


From d32bc05cb8c7b48ae2a5b631c41c2e8ce55c3643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:17 +0000
Subject: [PATCH 04/62] fix: pop of a sharded cache returns an entry whenever
 one is held

ShardedSyncCache::pop chose among the non-empty shards and then indexed all
shards with that number; ShardedAsyncCache::pop tried one random shard. Both
could return None while other shards held entries.
---
 common/cache/src/sharded_async_cache.rs | 12 ++++++++++--
 common/cache/src/sharded_sync_cache.rs  | 17 ++++-------------
 2 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/common/cache/src/sharded_async_cache.rs b/common/cache/src/sharded_async_cache.rs
index 04f80ea..37207ab 100644
--- a/common/cache/src/sharded_async_cache.rs
+++ b/common/cache/src/sharded_async_cache.rs
@@ -72,8 +72,16 @@ where
     }
 
     async fn pop(&self) -> Option<(Self::K, Self::V)> {
-        let index = rand::thread_rng().next_u64() as usize % self.shard.len();
-        self.shard.get(index)?.lock().await.pop()
+        // Start at a random shard, and go on until a shard has an entry to give.
+        let shard_len = self.shard.len();
+        let start = rand::thread_rng().next_u64() as usize % shard_len;
+        for i in 0..shard_len {
+            let entry = self.shard[(start + i) % shard_len].lock().await.pop();
+            if entry.is_some() {
+                return entry;
+            }
+        }
+        None
     }
 
     async fn set_capacity(&self, capacity: NonZeroUsize) {
diff --git a/common/cache/src/sharded_sync_cache.rs b/common/cache/src/sharded_sync_cache.rs
index f6174ab..b9d5882 100644
--- a/common/cache/src/sharded_sync_cache.rs
+++ b/common/cache/src/sharded_sync_cache.rs
@@ -84,19 +84,10 @@ where
     }
 
     fn pop(&self) -> Option<(Self::K, Self::V)> {
-        let none_empty_shard = self
-            .shard
-            .iter()
-            .filter(|s| s.get_usage().ne(&0))
-            .collect::<Vec<_>>();
-
-        if none_empty_shard.is_empty() {
-            None
-        } else {
-            let shard_len = none_empty_shard.len();
-            let index = rand::thread_rng().next_u64() as usize % shard_len;
-            self.shard.get(index)?.pop()
-        }
+        // Start at a random shard, and go on until a shard has an entry to give.
+        let shard_len = self.shard.len();
+        let start = rand::thread_rng().next_u64() as usize % shard_len;
+        (0..shard_len).find_map(|i| self.shard[(start + i) % shard_len].pop())
     }
 
     fn set_capacity(&self, capacity: NonZeroUsize) {
-- 
2.43.0


From cb5038304946af1db23e521b4635ca22270761d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:48 +0000
Subject: [PATCH 05/62] fix: data of a higher level is merged as the older one

Chunks were ordered by file id only: a compacted file, which gets a newer id, took
precedence over delta files and memcaches with newer values.
---
 tskv/src/reader/mod.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/tskv/src/reader/mod.rs b/tskv/src/reader/mod.rs
index 45810b7..c77002f 100644
--- a/tskv/src/reader/mod.rs
+++ b/tskv/src/reader/mod.rs
@@ -26,7 +26,7 @@ use crate::mem_cache::series_data::SeriesData;
 use crate::tsfamily::column_file::ColumnFile;
 use crate::tsm::chunk::Chunk;
 use crate::tsm::reader::TsmReader;
-use crate::{ColumnFileId, TskvError, TskvResult};
+use crate::{ColumnFileId, LevelId, TskvError, TskvResult};
 
 mod batch_builder;
 mod chunk;
@@ -306,8 +306,14 @@ impl PartialOrd<Self> for DataReference {
 }
 
 impl Ord for DataReference {
+    /// Older data is less than newer data: files that have been compacted (a file of a higher
+    /// level is the older one) hold older data than delta files and memcaches do, even when
+    /// their file ids were assigned later.
     fn cmp(&self, other: &Self) -> Ordering {
-        self.file_id().cmp(&other.file_id())
+        other
+            .level()
+            .cmp(&self.level())
+            .then_with(|| self.file_id().cmp(&other.file_id()))
     }
 }
 
@@ -325,6 +331,13 @@ impl DataReference {
             DataReference::Memcache(_, _, cf_id) => *cf_id,
         }
     }
+
+    fn level(&self) -> LevelId {
+        match self {
+            DataReference::Chunk(_, _, cf) => cf.level(),
+            DataReference::Memcache(..) => 0,
+        }
+    }
 }
 
 impl TimeRangeProvider for DataReference {
-- 
2.43.0


From 53dd858b407889b82b1949d915f350262ac36df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:48 +0000
Subject: [PATCH 06/62] fix: predicates on fields are evaluated on merged rows

Rows were filtered (and pages pruned) before overlapping chunks were merged, so that
a predicate could match or miss a row by values already overwritten.
---
 tskv/src/reader/iterator.rs | 58 ++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 36 deletions(-)

diff --git a/tskv/src/reader/iterator.rs b/tskv/src/reader/iterator.rs
index 7afb946..047ea29 100644
--- a/tskv/src/reader/iterator.rs
+++ b/tskv/src/reader/iterator.rs
@@ -94,30 +94,17 @@ impl SeriesGroupBatchReaderFactory {
     /// ParallelMergeAdapter: schema=[{}]                               -------- 并行执行多个 stream
     ///   SchemaAlignmenter: schema=[{}]                                -------- 用 Null 值补齐缺失的 tag 列
     ///    SeriesReader: sid={}, schema=[{}]                            -------- 根据 series key 补齐对应的 tag 列
-    ///      DataMerger: schema=[{}]                                  -------- 合并相同 series 下时间段重叠的chunk数据
-    ///        SchemaAlignmenter:                                         -------- 用 Null 值补齐缺失的 Field 列
-    ///          DataFilter: expr=[{}], schema=[{}]                     -------- 根据下推的过滤条件精确过滤数据
+    ///      DataFilter: expr=[{}], schema=[{}]                         -------- 根据下推的过滤条件精确过滤数据
+    ///        DataMerger: schema=[{}]                                    -------- 合并相同 series 下时间段重叠的chunk数据
+    ///          SchemaAlignmenter:                                       -------- 用 Null 值补齐缺失的 Field 列
     ///            MemRowGroup/ChunkReader: sid={}, projection=[{}], schema=[{}]    -------- 读取单个chunk或memcache rowgroup的数据的指定列的数据
-    ///          DataFilter:
     ///            MemRowGroup/ChunkReader [PageReader]
-    ///          ......
-    ///      DataMerger: schema=[{}]
-    ///        SchemaAlignmenter:
-    ///          DataFilter: expr=[{}], schema=[{}]
+    ///            ......
+    ///      DataFilter: expr=[{}], schema=[{}]
+    ///        DataMerger: schema=[{}]
+    ///          SchemaAlignmenter:
     ///            MemRowGroup/ChunkReader: sid={}, projection=[{}], schema=[{}]
-    ///          DataFilter
-    ///            MemRowGroup/ChunkReader [PageReader]
-    ///          ......
-    ///        ......
-    ///  SchemaAlignmenter: schema=[{}]                                                
-    ///    SeriesReader: sid={}, schema=[{}]
-    ///      DataMerger: schema=[{}]
-    ///        SchemaAlignmenter:
-    ///          DataFilter: expr=[{}], schema=[{}]
-    ///            MemRowGroup/ChunkReader: sid={}, projection=[{}], schema=[{}]
-    ///          DataFilter
-    ///            MemRowGroup/ChunkReader [PageReader]
-    ///          ......
+    ///            ......
     ///      ......
     ///    ......
     pub async fn create(
@@ -347,7 +334,7 @@ impl SeriesGroupBatchReaderFactory {
         chunk: DataReference,
         batch_size: usize,
         projection: &[ColumnId],
-        predicate: &Option<Arc<Predicate>>,
+        prune_predicate: &Option<Arc<Predicate>>,
         metrics: &SeriesGroupBatchReaderMetrics,
         aggregates: &Option<Vec<PushedAggregateFunction>>,
     ) -> TskvResult<Option<BatchReaderRef>> {
@@ -366,7 +353,7 @@ impl SeriesGroupBatchReaderFactory {
                     // filter column groups
                     metrics.column_group_nums().add(cgs.len());
                     debug!("All column group nums: {}", cgs.len());
-                    let cgs = filter_column_groups(cgs, predicate, chunk_schema.clone())?;
+                    let cgs = filter_column_groups(cgs, prune_predicate, chunk_schema.clone())?;
                     debug!("Filtered column group nums: {}", cgs.len());
                     metrics.filtered_column_group_nums().add(cgs.len());
 
@@ -398,17 +385,6 @@ impl SeriesGroupBatchReaderFactory {
                 .map(|e| e as BatchReaderRef),
             };
 
-            // 数据过滤
-            if let Some(predicate) = &predicate {
-                if let Some(chunk_reader) = chunk_reader {
-                    return Ok(Some(Arc::new(DataFilter::new(
-                        predicate.clone(),
-                        chunk_reader,
-                        self.filter_reader_metrics_set.clone(),
-                    ))));
-                }
-            }
-
             Ok(chunk_reader)
         }
     }
@@ -428,6 +404,8 @@ impl SeriesGroupBatchReaderFactory {
         } else {
             projection.fields()
         };
+        // 重叠的 chunk 合并之后才能得到一行完整的数据，因此合并之前不能根据字段的值进行裁剪
+        let prune_predicate = if chunks.len() > 1 { &None } else { predicate };
 
         let mut chunk_readers = Vec::new();
         let mut only_tsm = true;
@@ -445,7 +423,7 @@ impl SeriesGroupBatchReaderFactory {
                 data_reference,
                 batch_size,
                 projection,
-                predicate,
+                prune_predicate,
                 metrics,
                 aggregates,
             )?;
@@ -532,7 +510,15 @@ impl SeriesGroupBatchReaderFactory {
                         Arc::new(CombinedBatchReader::new(chunk_readers))
                     };
 
-                    Ok(reader)
+                    // 数据过滤
+                    match predicate {
+                        Some(predicate) => Ok(Arc::new(DataFilter::new(
+                            predicate.clone(),
+                            reader,
+                            self.filter_reader_metrics_set.clone(),
+                        ))),
+                        None => Ok(reader),
+                    }
                 } else {
                     Ok(Arc::new(CombinedBatchReader::new(chunk_readers)))
                 }
-- 
2.43.0


From b1f6c62e8c7eb8e5822a1e91e233cdf31e73eb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:48 +0000
Subject: [PATCH 07/62] fix: rows whose time is deleted by a tombstone are not
 read

Only the tombstones of all fields were used to mask rows: a row deleted by a
tombstone of its series was read with all its values null.
---
 tskv/src/tsm/reader.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tskv/src/tsm/reader.rs b/tskv/src/tsm/reader.rs
index bd120bf..54ecafe 100644
--- a/tskv/src/tsm/reader.rs
+++ b/tskv/src/tsm/reader.rs
@@ -513,7 +513,13 @@ pub fn decode_pages(
                 reason: "time field not found".to_string(),
             })?;
         let (time_array, time_range, time) = get_time_page_meta(time_page)?;
-        let filters = tomb.get_all_fields_excluded_time_range(&time_range);
+        let mut filters = tomb.get_all_fields_excluded_time_range(&time_range);
+        // The rows of this series whose time has been deleted do not exist anymore.
+        filters.extend(tomb.get_column_overlapped_time_ranges(
+            series_id,
+            time_page.meta.column.id,
+            &time_range,
+        ));
         let time_null_bits = {
             if filters.is_empty() {
                 None
-- 
2.43.0


From 86215708c165a520312331f4e95ccaa2e2c8494d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:48 +0000
Subject: [PATCH 08/62] fix: a TSM file is opened once for the reader cache

Two tasks that opened the same file raced to put their readers into the cache: a
tombstone added through the one replaced was lost.
---
 tskv/src/tsfamily/column_file.rs | 17 +++--------------
 tskv/src/tsfamily/version.rs     | 13 +------------
 tskv/src/tsm/reader.rs           | 21 +++++++++++++++++++++
 3 files changed, 25 insertions(+), 26 deletions(-)

diff --git a/tskv/src/tsfamily/column_file.rs b/tskv/src/tsfamily/column_file.rs
index 4dc9674..149c727 100644
--- a/tskv/src/tsfamily/column_file.rs
+++ b/tskv/src/tsfamily/column_file.rs
@@ -106,20 +106,9 @@ impl ColumnFile {
             return Ok(filter.clone());
         }
         let bloom_filter = if let Some(tsm_reader_cache) = self.tsm_reader_cache.upgrade() {
-            let reader = match tsm_reader_cache
-                .get(&format!("{}", self.path.display()))
-                .await
-            {
-                Some(r) => r,
-                None => {
-                    let reader = TsmReader::open(&self.path).await?;
-                    let reader = Arc::new(reader);
-                    tsm_reader_cache
-                        .insert(self.path.display().to_string(), reader.clone())
-                        .await;
-                    reader
-                }
-            };
+            let reader =
+                TsmReader::open_with_cache(&tsm_reader_cache, self.path.display().to_string())
+                    .await?;
             reader.footer().series().bloom_filter().clone()
         } else {
             TsmReader::open(&self.path)
diff --git a/tskv/src/tsfamily/version.rs b/tskv/src/tsfamily/version.rs
index 9d64e54..4154183 100644
--- a/tskv/src/tsfamily/version.rs
+++ b/tskv/src/tsfamily/version.rs
@@ -157,18 +157,7 @@ impl Version {
 
     pub async fn get_tsm_reader(&self, path: impl AsRef<Path>) -> TskvResult<Arc<TsmReader>> {
         let path = path.as_ref().display().to_string();
-        let tsm_reader = match self.tsm_reader_cache.get(&path).await {
-            Some(val) => val,
-            None => match self.tsm_reader_cache.get(&path).await {
-                Some(val) => val,
-                None => {
-                    let tsm_reader = Arc::new(TsmReader::open(&path).await?);
-                    self.tsm_reader_cache.insert(path, tsm_reader.clone()).await;
-                    tsm_reader
-                }
-            },
-        };
-        Ok(tsm_reader)
+        TsmReader::open_with_cache(&self.tsm_reader_cache, path).await
     }
 
     pub fn max_level_ts(&self) -> i64 {
diff --git a/tskv/src/tsm/reader.rs b/tskv/src/tsm/reader.rs
index 54ecafe..99afeda 100644
--- a/tskv/src/tsm/reader.rs
+++ b/tskv/src/tsm/reader.rs
@@ -17,6 +17,7 @@ use arrow_array::{
 };
 use arrow_schema::{DataType, Field, Schema, TimeUnit};
 use bytes::Bytes;
+use cache::ShardedAsyncCache;
 use models::codec::Encoding;
 use models::predicate::domain::{TimeRange, TimeRanges};
 use models::schema::tskv_table_schema::{PhysicalCType, TskvTableSchemaRef};
@@ -118,6 +119,26 @@ pub struct TsmReader {
 }
 
 impl TsmReader {
+    /// Returns the reader of `path` in the cache, opening it if there is none.
+    ///
+    /// The cache keeps one reader for a file: it is locked while the file is opened, or a reader
+    /// opened by another task could take the place of one whose tombstone has been changed since.
+    pub async fn open_with_cache(
+        cache: &ShardedAsyncCache<String, Arc<TsmReader>>,
+        path: String,
+    ) -> TskvResult<Arc<TsmReader>> {
+        let mut shard = match cache.lock_shard(&path).await {
+            Some(shard) => shard,
+            None => return Ok(Arc::new(TsmReader::open(&path).await?)),
+        };
+        if let Some(reader) = shard.get(&path) {
+            return Ok(reader);
+        }
+        let reader = Arc::new(TsmReader::open(&path).await?);
+        shard.insert(path, reader.clone());
+        Ok(reader)
+    }
+
     pub async fn open(tsm_path: impl AsRef<Path>) -> TskvResult<Self> {
         let path = tsm_path.as_ref().to_path_buf();
         let file_system = LocalFileSystem::new(LocalFileType::ThreadPool);
-- 
2.43.0


From 511f4dafd66e1794980a8af08495e78c0b9f3a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 09/62] fix: a flush and the summary of another one do not
 deadlock

A flush locked the ts_family and then its queue, process_summary_tasks() the other
way round.
---
 tskv/src/compaction/job.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tskv/src/compaction/job.rs b/tskv/src/compaction/job.rs
index 60ab266..19c527d 100644
--- a/tskv/src/compaction/job.rs
+++ b/tskv/src/compaction/job.rs
@@ -354,6 +354,8 @@ impl FlushJob {
             .context(IndexErrSnafu)?;
         request.flush_metrics.write().await.flush_index_time = instant.elapsed().as_millis() as u64;
 
+        // Lock the queue before the ts_family, like process_summary_tasks() does.
+        let mut queue = job.queue.write().await;
         let ts_family_w = request.ts_family.write().await;
         let mut mems = ts_family_w.im_cache().clone();
         mems.retain(|x| x.read().mark_flushing());
@@ -375,12 +377,10 @@ impl FlushJob {
                 sender,
             );
 
-            job.queue
-                .write()
-                .await
-                .insert(flush_seq, (request.clone(), summary_task));
+            queue.insert(flush_seq, (request.clone(), summary_task));
         }
         drop(ts_family_w);
+        drop(queue);
 
         if let Err(err) = Self::flush_memtables(job, request, mems.clone(), receivers).await {
             for item in mems.iter_mut() {
-- 
2.43.0


From 65069e86302f2fc28be1f102a145dfa3f28fe329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 10/62] fix: a flush or compaction does not bring back data
 deleted meanwhile

Both copy data to new files without seeing a delete, drop or tag update that runs at
the same time: the copy made before it became the valid one.
---
 tskv/src/compaction/job.rs | 12 +++++++++++-
 tskv/src/kvcore.rs         |  2 ++
 tskv/src/vnode_store.rs    | 18 +++++++++++++++---
 3 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/tskv/src/compaction/job.rs b/tskv/src/compaction/job.rs
index 19c527d..f5214f2 100644
--- a/tskv/src/compaction/job.rs
+++ b/tskv/src/compaction/job.rs
@@ -200,6 +200,8 @@ impl CompactJobInner {
                             let ctx2 = ctx1.clone();
                             ctx1.runtime.spawn(async move {
                                 let _guard = limit.lock().await;
+                                let data_lock = vnode.get_data_lock();
+                                let _data_guard = data_lock.read().await;
                                 // Check enable compaction
                                 if !enable_compaction.load(atomic::Ordering::SeqCst) {
                                     return;
@@ -281,14 +283,20 @@ impl<F: FnOnce()> Drop for DeferGuard<F> {
 pub struct FlushJob {
     ctx: Arc<TsKvContext>,
     summary: Arc<RwLock<Summary>>,
+    data_lock: Arc<RwLock<()>>,
     queue: Arc<RwLock<BTreeMap<u64, (FlushReq, SummaryTask)>>>,
 }
 
 impl FlushJob {
-    pub fn new(ctx: Arc<TsKvContext>, summary: Arc<RwLock<Summary>>) -> Arc<Self> {
+    pub fn new(
+        ctx: Arc<TsKvContext>,
+        summary: Arc<RwLock<Summary>>,
+        data_lock: Arc<RwLock<()>>,
+    ) -> Arc<Self> {
         Arc::new(Self {
             ctx,
             summary,
+            data_lock,
             queue: Arc::new(RwLock::new(BTreeMap::new())),
         })
     }
@@ -342,6 +350,7 @@ impl FlushJob {
 
     async fn run(job: Arc<FlushJob>, request: &FlushReq) -> TskvResult<()> {
         info!("Flush: begin flush data {}", request);
+        let data_lock = job.data_lock.clone();
         let instant = std::time::Instant::now();
 
         // flush index
@@ -354,6 +363,7 @@ impl FlushJob {
             .context(IndexErrSnafu)?;
         request.flush_metrics.write().await.flush_index_time = instant.elapsed().as_millis() as u64;
 
+        let _guard = data_lock.read().await;
         // Lock the queue before the ts_family, like process_summary_tasks() does.
         let mut queue = job.queue.write().await;
         let ts_family_w = request.ts_family.write().await;
diff --git a/tskv/src/kvcore.rs b/tskv/src/kvcore.rs
index 671cc65..3bf2e83 100644
--- a/tskv/src/kvcore.rs
+++ b/tskv/src/kvcore.rs
@@ -349,6 +349,8 @@ impl Engine for TsKv {
                         CompactionType::Manual,
                         self.ctx.options.storage.collect_compaction_metrics,
                     );
+                    let data_lock = vnode.get_data_lock();
+                    let _data_guard = data_lock.read().await;
                     match compaction::run_compaction_job(req, vnode_compaction_metrics).await {
                         Ok(Some((version_edit, file_metas))) => {
                             let request = SummaryRequest {
diff --git a/tskv/src/vnode_store.rs b/tskv/src/vnode_store.rs
index 3a8c255..1e65bbe 100644
--- a/tskv/src/vnode_store.rs
+++ b/tskv/src/vnode_store.rs
@@ -34,6 +34,10 @@ pub struct VnodeStorage {
     flush_job: Arc<FlushJob>,
     ts_index: Arc<RwLock<TSIndex>>,
     ts_family: Arc<RwLock<TseriesFamily>>,
+    /// Flushes and compactions hold this lock shared while they copy data from memcaches or
+    /// files to new files, and a command that changes data already stored (a delete, a drop, an
+    /// update of tags) holds it exclusively: a copy in progress would miss the change.
+    data_lock: Arc<RwLock<()>>,
 
     snapshots: Vec<VnodeSnapshot>,
 
@@ -51,7 +55,8 @@ impl VnodeStorage {
         ts_index: Arc<RwLock<TSIndex>>,
         ts_family: Arc<RwLock<TseriesFamily>>,
     ) -> Self {
-        let flush_job = FlushJob::new(ctx.clone(), summary.clone());
+        let data_lock = Arc::new(RwLock::new(()));
+        let flush_job = FlushJob::new(ctx.clone(), summary.clone(), data_lock.clone());
         Self {
             id,
             db,
@@ -60,6 +65,7 @@ impl VnodeStorage {
             flush_job,
             ts_index,
             ts_family,
+            data_lock,
             snapshots: vec![],
             write_apply_duration: U64Average::default(),
             write_build_group_duration: U64Average::default(),
@@ -325,6 +331,7 @@ impl VnodeStorage {
 
     async fn drop_table(&self, table: &str) -> TskvResult<()> {
         // TODO Create global DropTable flag for droping the same table at the same time.
+        let _guard = self.data_lock.write().await;
         let db_owner = self.db.read().await.owner();
         let schemas = self.db.read().await.get_schemas();
         if let Some(fields) = schemas.get_table_schema(table).await? {
@@ -495,6 +502,7 @@ impl VnodeStorage {
             return Err(crate::error::TskvError::IndexErr { source: err });
         }
 
+        let _guard = self.data_lock.write().await;
         self.ts_family.read().await.update_tag_value(series).await?;
 
         Ok(())
@@ -530,6 +538,7 @@ impl VnodeStorage {
 
     async fn drop_table_columns(&self, table: &str, column_ids: &[ColumnId]) -> TskvResult<()> {
         // TODO Create global DropTable flag for droping the same table at the same time.
+        let _guard = self.data_lock.write().await;
         let db_rlock = self.db.read().await;
         let db_owner = db_rlock.owner();
         let schemas = db_rlock.get_schemas();
@@ -576,6 +585,7 @@ impl VnodeStorage {
         series_ids: &[SeriesId],
         time_ranges: &TimeRanges,
     ) -> TskvResult<()> {
+        let _guard = self.data_lock.write().await;
         let vnode = self.ts_family.read().await;
         let db_name = self.db.read().await.db_name();
         vnode.delete_series_by_time_ranges(series_ids, time_ranges);
@@ -594,8 +604,6 @@ impl VnodeStorage {
 
         let version = vnode.super_version();
 
-        // Stop compaction when doing delete TODO
-
         for time_range in time_ranges.time_ranges() {
             version
                 .add_tombstone(series_ids, &column_ids, &time_range)
@@ -609,6 +617,10 @@ impl VnodeStorage {
         self.summary.clone()
     }
 
+    pub fn get_data_lock(&self) -> Arc<RwLock<()>> {
+        self.data_lock.clone()
+    }
+
     pub fn get_ts_family(&self) -> Arc<RwLock<TseriesFamily>> {
         self.ts_family.clone()
     }
-- 
2.43.0


From 209fdc1cdc11534cc4556c5f1f4f9b09dd83eadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 11/62] fix: a compaction does not lock the version set while
 it flushes

With a writer of the version set waiting, the second read lock never succeeded.
---
 tskv/src/kvcore.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tskv/src/kvcore.rs b/tskv/src/kvcore.rs
index 3bf2e83..ff4cc73 100644
--- a/tskv/src/kvcore.rs
+++ b/tskv/src/kvcore.rs
@@ -322,7 +322,9 @@ impl Engine for TsKv {
 
     async fn compact(&self, vnode_ids: Vec<VnodeId>) -> TskvResult<()> {
         for vnode_id in vnode_ids {
-            if let Some(vnode) = self.version_set.read().await.get_vnode(vnode_id) {
+            // The flush below locks the version set again: do not hold it.
+            let vnode = self.version_set.read().await.get_vnode(vnode_id).cloned();
+            if let Some(vnode) = vnode {
                 let ts_family = vnode.ts_family().clone();
 
                 // TODO: stop current and prevent next flush and compaction.
-- 
2.43.0


From 89cbb10f60cafe140b11d76f9ca95018c5a94c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 12/62] fix: files of a compaction stay sorted by series

A file put back after one of its series had been taken was not sorted in, so that a
series could be written twice, and the older data last.
---
 tskv/src/compaction/compact.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tskv/src/compaction/compact.rs b/tskv/src/compaction/compact.rs
index 689f2fe..2d1b1ba 100644
--- a/tskv/src/compaction/compact.rs
+++ b/tskv/src/compaction/compact.rs
@@ -304,6 +304,9 @@ impl CompactState {
             compacting_files.push(f);
             compacting_tsm_file_idx += 1;
         }
+        // `next_series_id()` takes the series of the first file, and then the same
+        // series of the files following it, so that files must be kept sorted.
+        compacting_files.sort();
         let mut tsm_reader_to_compacting_file_map = vec![None::<_>; tsm_readers_len];
         for (i, f) in compacting_files.iter().enumerate() {
             tsm_reader_to_compacting_file_map[f.tsm_reader_index] = Some(i);
-- 
2.43.0


From 5e5bf8e27c97612be978dbf8590a3907c6705933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 13/62] fix: newer data of level 0 is not compacted past older
 data of level 0

Data in level 0 is taken as newer than any other: a file may leave it only if
no file that stays has older data of the same series.
---
 tskv/src/compaction/picker.rs | 105 ++++++++++++++++++++++++++++++++--
 1 file changed, 99 insertions(+), 6 deletions(-)

diff --git a/tskv/src/compaction/picker.rs b/tskv/src/compaction/picker.rs
index 5d23a5e..edd3e62 100644
--- a/tskv/src/compaction/picker.rs
+++ b/tskv/src/compaction/picker.rs
@@ -8,6 +8,8 @@ use utils::id_generator::IDGenerator;
 
 use super::CompactTask;
 use crate::compaction::CompactReq;
+use crate::file_system::async_filesystem::LocalFileSystem;
+use crate::file_system::FileSystem;
 use crate::tsfamily::column_file::ColumnFile;
 use crate::tsfamily::level_info::LevelInfo;
 use crate::tsfamily::version::Version;
@@ -300,6 +302,55 @@ impl DeltaCompactionPicker {
         }
     }
 
+    /// Returns true if a file of `older_files` has data of a series of `file` in the `time_range`.
+    ///
+    /// Such older data must not stay in level-0 when the newer data of `file` is moved to level-1~4,
+    /// because data in level-0 is newer than data in level-1~4.
+    async fn has_older_data(
+        &self,
+        version: &Version,
+        older_files: &[Arc<ColumnFile>],
+        file: &ColumnFile,
+        time_range: &TimeRange,
+    ) -> bool {
+        let Some(time_range) = file.time_range().intersect(time_range) else {
+            return false;
+        };
+        for older_file in older_files {
+            if !older_file.overlap(&time_range) || !LocalFileSystem::try_exists(older_file.file_path())
+            {
+                continue;
+            }
+            let (older_reader, reader) = match (
+                version.get_tsm_reader(older_file.file_path()).await,
+                version.get_tsm_reader(file.file_path()).await,
+            ) {
+                (Ok(older_reader), Ok(reader)) => (older_reader, reader),
+                (Err(e), _) | (_, Err(e)) => {
+                    error!(
+                        "Picker(delta) [{}]: failed to open level-0 file {} or {}: {e}",
+                        self.timestamp,
+                        older_file.file_id(),
+                        file.file_id(),
+                    );
+                    return true;
+                }
+            };
+            for (series_id, chunk) in reader.chunk() {
+                if let Some(older_chunk) = older_reader.chunk().get(series_id) {
+                    if chunk
+                        .time_range()
+                        .intersect(&time_range)
+                        .is_some_and(|tr| older_chunk.time_range().overlaps(&tr))
+                    {
+                        return true;
+                    }
+                }
+            }
+        }
+        false
+    }
+
     async fn pick_compaction(
         &self,
         compact_task: CompactTask,
@@ -326,12 +377,15 @@ impl DeltaCompactionPicker {
         let lv14 = &version.levels_info()[1..];
         let mut picked_time_range = TimeRange::none();
         let mut picked_l0_compacting_wlocks = Vec::new();
-        let mut picked_l0_files = vec![];
+        let mut picked_l0_files: Vec<Arc<ColumnFile>> = vec![];
+        // The files which stay in level-0 if a file after them is picked.
+        let mut passed_l0_files: Vec<Arc<ColumnFile>> = vec![];
         let mut not_picked_l0_file: Option<(
             Arc<ColumnFile>,        // l0_file
             LevelId,                // adviced_out_level
             TimeRange,              // l0_file_remained_tr
             RwLockWriteGuard<bool>, // l0_file_compacting
+            Vec<Arc<ColumnFile>>,   // passed_l0_files
         )> = Option::None;
         for l0_file in lv0.files.iter() {
             let mut l0_file_compacting = l0_file.write_lock_compacting().await;
@@ -342,6 +396,7 @@ impl DeltaCompactionPicker {
                 *l0_file_compacting
             );
             if *l0_file_compacting {
+                passed_l0_files.push(l0_file.clone());
                 continue;
             }
 
@@ -349,12 +404,21 @@ impl DeltaCompactionPicker {
                 match self.delta_file_first_remained_time_range(l0_file).await {
                     Ok(trs) => trs,
                     Err(_) => {
+                        passed_l0_files.push(l0_file.clone());
                         continue;
                     }
                 };
 
             let advised_out_level =
                 advise_out_level(&l0_file_remained_tr_first, version.levels_info());
+            if 0 == advised_out_level
+                && self
+                    .has_older_data(&version, &passed_l0_files, l0_file, l0_file.time_range())
+                    .await
+            {
+                passed_l0_files.push(l0_file.clone());
+                continue;
+            }
             if picked_time_range.is_none() {
                 // First cycle to pick l0_file
                 picked_time_range = l0_file_remained_tr_first;
@@ -391,7 +455,7 @@ impl DeltaCompactionPicker {
             for mut wlock in std::mem::take(&mut picked_l0_compacting_wlocks) {
                 *wlock = false;
             }
-            picked_l0_files.clear();
+            passed_l0_files.append(&mut picked_l0_files);
             picked_time_range = TimeRange::none();
 
             if (advised_out_level as usize) < version.levels_info().len() {
@@ -401,6 +465,7 @@ impl DeltaCompactionPicker {
                         advised_out_level,
                         l0_file_remained_tr_first,
                         l0_file_compacting,
+                        passed_l0_files.clone(),
                     ));
                 } else {
                     trace::debug!(
@@ -415,6 +480,7 @@ impl DeltaCompactionPicker {
                     self.timestamp,
                 );
             }
+            passed_l0_files.push(l0_file.clone());
         }
 
         // Release the previous picked l0_files.
@@ -427,6 +493,7 @@ impl DeltaCompactionPicker {
             advised_out_level,
             l0_file_remained_tr_first,
             mut l0_file_compacting,
+            passed_l0_files,
         )) = not_picked_l0_file
         {
             // Find the first file in level1-4 that overlaps with lv0-file
@@ -434,10 +501,20 @@ impl DeltaCompactionPicker {
                 if lv.time_range.overlaps(&l0_file_remained_tr_first) {
                     for lv_file in lv.files.iter() {
                         let mut lv_file_compacting = lv_file.write_lock_compacting().await;
-                        if *lv_file_compacting {
-                            continue;
-                        }
                         if lv_file.time_range().overlaps(&l0_file_remained_tr_first) {
+                            if *lv_file_compacting
+                                || self
+                                    .has_older_data(
+                                        &version,
+                                        &passed_l0_files,
+                                        &l0_file,
+                                        lv_file.time_range(),
+                                    )
+                                    .await
+                            {
+                                info!("Picker(delta) [{}]: picked nothing, level_0 file({l0_file}) or level file: {lv_file} to level: {} is occupied", self.timestamp, lv.level());
+                                return None;
+                            }
                             *lv_file_compacting = true;
                             *l0_file_compacting = true;
                             info!("Picker(delta) [{}]: picked two level files: level_0 file({l0_file}), level file: {lv_file} to level: {}", self.timestamp, lv.level());
@@ -458,6 +535,13 @@ impl DeltaCompactionPicker {
                     if let Some(out_time_range) =
                         l0_file_remained_tr_first.intersect(&lv.time_range)
                     {
+                        if self
+                            .has_older_data(&version, &passed_l0_files, &l0_file, &out_time_range)
+                            .await
+                        {
+                            return None;
+                        }
+                        *l0_file_compacting = true;
                         return Some(CompactReq {
                             compact_task,
                             version: version.clone(),
@@ -472,7 +556,16 @@ impl DeltaCompactionPicker {
             }
 
             // No file in level1-4 overlaps with lv0-file, compact lv0-file to advised out-level.
-            if advised_out_level > 1 {
+            if advised_out_level > 1
+                && !self
+                    .has_older_data(
+                        &version,
+                        &passed_l0_files,
+                        &l0_file,
+                        &l0_file_remained_tr_first,
+                    )
+                    .await
+            {
                 *l0_file_compacting = true;
                 info!("Picker(delta) [{}]: picked level_0 file: {l0_file} to level: {advised_out_level}", self.timestamp,);
                 return Some(CompactReq {
-- 
2.43.0


From 3afcfed03ac50bd22d5422a7ba11c4331680a2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 14/62] fix: a write uses the schema stored when another write
 created the table

The schema made up by the write, which was not stored, was used.
---
 tskv/src/schema/schemas.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tskv/src/schema/schemas.rs b/tskv/src/schema/schemas.rs
index 5527f06..7c666e9 100644
--- a/tskv/src/schema/schemas.rs
+++ b/tskv/src/schema/schemas.rs
@@ -163,8 +163,8 @@ impl DBschemas {
                 .create_table(&TableSchema::TsKvTableSchema(schema.clone()))
                 .await;
             if let Err(MetaError::TableAlreadyExists { .. }) = res.as_ref() {
-                self.check_field_type_or_else_add_impl(fb_schema, true)
-                    .await?;
+                // The schema stored by another write is the valid one.
+                return self.check_field_type_or_else_add_impl(fb_schema, true).await;
             } else {
                 res?;
             }
@@ -176,8 +176,8 @@ impl DBschemas {
                 .update_table(&TableSchema::TsKvTableSchema(schema.clone()))
                 .await;
             if let Err(MetaError::UpdateTableConflict { .. }) = &res {
-                self.check_field_type_or_else_add_impl(fb_schema, true)
-                    .await?;
+                // The schema stored by another write is the valid one.
+                return self.check_field_type_or_else_add_impl(fb_schema, true).await;
             } else {
                 res?;
             }
-- 
2.43.0


From 07cd19923de3a686fdbecf662883cb9ed595bafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 15/62] fix: recovery keeps writes of which a part has been
 dropped since

A logged write with a row of which all columns, or with a table that had been dropped
after it, was not applied at all when the log was recovered.
---
 tskv/src/database.rs           | 20 +++++++++++++++-----
 tskv/src/mem_cache/row_data.rs |  9 ++++++++-
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/tskv/src/database.rs b/tskv/src/database.rs
index 6aaaa88..fffa801 100644
--- a/tskv/src/database.rs
+++ b/tskv/src/database.rs
@@ -217,13 +217,23 @@ impl Database {
 
             let fb_schema = FbSchema::from_fb_column(table_name, columns)?;
             let schema = if strict_write {
-                self.schemas
+                let schema = self
+                    .schemas
                     .get_table_schema(fb_schema.table)
                     .await
-                    .context(SchemaSnafu)?
-                    .context(TableNotFoundSnafu {
-                        table: fb_schema.table.to_string(),
-                    })?
+                    .context(SchemaSnafu)?;
+                match schema {
+                    Some(schema) => schema,
+                    // The table is dropped after the write that is recovered, other tables of
+                    // the same write may not.
+                    None if recover_from_wal => continue,
+                    None => {
+                        return Err(TableNotFoundSnafu {
+                            table: fb_schema.table.to_string(),
+                        }
+                        .build())
+                    }
+                }
             } else {
                 self.schemas
                     .check_field_type_or_else_add(&fb_schema)
diff --git a/tskv/src/mem_cache/row_data.rs b/tskv/src/mem_cache/row_data.rs
index 1ba8682..bc2fa1d 100644
--- a/tskv/src/mem_cache/row_data.rs
+++ b/tskv/src/mem_cache/row_data.rs
@@ -38,6 +38,8 @@ impl RowData {
         for row_count in row_idx.into_iter() {
             let mut fields = vec![None; fields_id.len()];
             let mut has_fields = false;
+            // The row is written before its fields are dropped, but applied (again) after.
+            let mut has_dropped_fields = false;
             let mut time_column = None;
             for column in columns {
                 let column_name = column.name_ext()?;
@@ -59,6 +61,7 @@ impl RowData {
                             match schema.column(column_name) {
                                 None => {
                                     error!("column {} not found in schema", column_name);
+                                    has_dropped_fields = true;
                                 }
                                 Some(column) => {
                                     let field_id = column.id;
@@ -82,6 +85,7 @@ impl RowData {
                             match schema.column(column_name) {
                                 None => {
                                     error!("column {} not found in schema", column_name);
+                                    has_dropped_fields = true;
                                 }
                                 Some(column) => {
                                     let field_id = column.id;
@@ -105,6 +109,7 @@ impl RowData {
                             match schema.column(column_name) {
                                 None => {
                                     error!("column {} not found in schema", column_name);
+                                    has_dropped_fields = true;
                                 }
                                 Some(column) => {
                                     let field_id = column.id;
@@ -128,6 +133,7 @@ impl RowData {
                             match schema.column(column_name) {
                                 None => {
                                     error!("column {} not found in schema", column_name);
+                                    has_dropped_fields = true;
                                 }
                                 Some(column) => {
                                     let field_id = column.id;
@@ -151,6 +157,7 @@ impl RowData {
                             match schema.column(column_name) {
                                 None => {
                                     error!("column {} not found in schema", column_name);
+                                    has_dropped_fields = true;
                                 }
                                 Some(column) => {
                                     let field_id = column.id;
@@ -170,7 +177,7 @@ impl RowData {
                 }
             }
 
-            if !has_fields {
+            if !has_fields && !has_dropped_fields {
                 return Err(FieldsIsEmptySnafu.build());
             }
 
-- 
2.43.0


From 706c1c15af1edecb89307b1e9b626d850a450fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 16/62] fix: rows of one time keep their order in a memcache

A row is inserted before those of the same time, so that copying rows one by one
reversed them: of two rows in one batch, or after a column was dropped, the older won.
---
 tskv/src/mem_cache/row_data.rs    | 3 ++-
 tskv/src/mem_cache/series_data.rs | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/tskv/src/mem_cache/row_data.rs b/tskv/src/mem_cache/row_data.rs
index bc2fa1d..e4c9cc6 100644
--- a/tskv/src/mem_cache/row_data.rs
+++ b/tskv/src/mem_cache/row_data.rs
@@ -266,7 +266,8 @@ impl Clone for OrderedRowsData {
     fn clone(&self) -> Self {
         let mut clone_rows: OrderedSkipList<RowData> = OrderedSkipList::new();
         unsafe { clone_rows.sort_by(|a: &RowData, b: &RowData| a.partial_cmp(b).unwrap()) }
-        self.rows.iter().for_each(|row| {
+        // A row is inserted before those of the same time: keep their order.
+        self.rows.iter().rev().for_each(|row| {
             clone_rows.insert(row.clone());
         });
         Self { rows: clone_rows }
diff --git a/tskv/src/mem_cache/series_data.rs b/tskv/src/mem_cache/series_data.rs
index c10272d..c52158d 100644
--- a/tskv/src/mem_cache/series_data.rs
+++ b/tskv/src/mem_cache/series_data.rs
@@ -46,7 +46,9 @@ impl SeriesData {
         for item in self.groups.iter_mut().rev() {
             if item.schema.schema_version == group.schema.schema_version {
                 item.range.merge(&group.range);
-                group.rows.get_rows().into_iter().for_each(|row| {
+                // A row is inserted before those of the same time: the newest one must be the last.
+                let rows: Vec<RowData> = group.rows.get_rows().into_iter().collect();
+                rows.into_iter().rev().for_each(|row| {
                     item.rows.insert(row);
                 });
                 item.schema = group.schema;
@@ -69,7 +71,8 @@ impl SeriesData {
             };
             let mut rowdata_vec: Vec<RowData> = item.rows.get_ref_rows().iter().cloned().collect();
             item.rows.clear();
-            for row in rowdata_vec.iter_mut() {
+            // A row is inserted before those of the same time: the newest one must be the last.
+            for row in rowdata_vec.iter_mut().rev() {
                 if index < row.fields.len() {
                     row.fields.remove(index);
                 }
-- 
2.43.0


From ec174b560d8fda7eb4b2b57fde4d6a4935ca6bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 17/62] fix: a write with an older schema does not disorder a
 memcache

It was added to a group before the last one, and, when first of a new group, its
schema was taken as the newest of the series: the values of newer columns were lost.
---
 tskv/src/mem_cache/series_data.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tskv/src/mem_cache/series_data.rs b/tskv/src/mem_cache/series_data.rs
index c52158d..f8c0754 100644
--- a/tskv/src/mem_cache/series_data.rs
+++ b/tskv/src/mem_cache/series_data.rs
@@ -43,7 +43,9 @@ impl SeriesData {
     pub fn write(&mut self, group: RowGroup) {
         self.range.merge(&group.range);
 
-        for item in self.groups.iter_mut().rev() {
+        // The groups are in the order of their writes, which decides on rows of the same time:
+        // a write with an older schema may come late, and only the last group may be added to.
+        if let Some(item) = self.groups.back_mut() {
             if item.schema.schema_version == group.schema.schema_version {
                 item.range.merge(&group.range);
                 // A row is inserted before those of the same time: the newest one must be the last.
@@ -210,11 +212,10 @@ impl SeriesData {
             .collect()
     }
     pub fn get_schema(&self) -> Option<Arc<TskvTableSchema>> {
-        if let Some(item) = self.groups.back() {
-            return Some(item.schema.clone());
-        }
-
-        None
+        self.groups
+            .iter()
+            .max_by_key(|item| item.schema.schema_version)
+            .map(|item| item.schema.clone())
     }
 
     #[allow(clippy::type_complexity)]
-- 
2.43.0


From e4957c604ed9272b44909a45637abb507c4830e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:25 +0000
Subject: [PATCH 18/62] fix: a compaction keeps columns that its newest schema
 lacks

The schema version of a batch is that of its file. Of two batches of one version
one may lack columns of the other, whose values were lost when it was chosen.
---
 .../compaction/comapcting_block_meta_group.rs | 49 ++++++++++++++++++-
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/tskv/src/compaction/comapcting_block_meta_group.rs b/tskv/src/compaction/comapcting_block_meta_group.rs
index 0995bf7..74ef5a1 100644
--- a/tskv/src/compaction/comapcting_block_meta_group.rs
+++ b/tskv/src/compaction/comapcting_block_meta_group.rs
@@ -1,7 +1,8 @@
+use std::collections::{BTreeMap, HashSet};
 use std::sync::Arc;
 
-use arrow_array::RecordBatch;
-use arrow_schema::SchemaRef;
+use arrow_array::{Array, RecordBatch};
+use arrow_schema::{Schema, SchemaRef};
 use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
 use futures::StreamExt;
 use models::predicate::domain::TimeRange;
@@ -239,6 +240,7 @@ impl CompactingBlockMetaGroup {
         if let Some(e) = potential_error {
             return Err(e);
         }
+        let target_schema = Self::add_missing_fields(target_schema, &record_batches)?;
         let mut adapted_record_batches = Vec::with_capacity(record_batches.len());
         for record_batch in record_batches {
             let adapted_record_batch =
@@ -248,6 +250,49 @@ impl CompactingBlockMetaGroup {
         Ok((adapted_record_batches, target_schema))
     }
 
+    /// Adds fields to `schema` that it doesn't have, but `record_batches` have values of.
+    ///
+    /// The schema version of a record batch is that of its file, the record batch itself may have
+    /// been written before and lack columns that another one of the same or of a lower version has.
+    fn add_missing_fields(
+        schema: SchemaRef,
+        record_batches: &[RecordBatch],
+    ) -> TskvResult<SchemaRef> {
+        let mut column_ids = HashSet::new();
+        for field in schema.fields() {
+            column_ids
+                .insert(TableColumn::column_id_from_arrow_field(field.clone()).context(ModelSnafu)?);
+        }
+        let mut missing_fields = BTreeMap::new();
+        for record_batch in record_batches {
+            for (field, array) in record_batch
+                .schema()
+                .fields()
+                .iter()
+                .zip(record_batch.columns())
+            {
+                let column_id =
+                    TableColumn::column_id_from_arrow_field(field.clone()).context(ModelSnafu)?;
+                if !column_ids.contains(&column_id) && array.null_count() < array.len() {
+                    missing_fields.insert(column_id, field.clone());
+                }
+            }
+        }
+        if missing_fields.is_empty() {
+            return Ok(schema);
+        }
+        let fields = schema
+            .fields()
+            .iter()
+            .cloned()
+            .chain(missing_fields.into_values())
+            .collect::<Vec<_>>();
+        Ok(Arc::new(Schema::new_with_metadata(
+            fields,
+            schema.metadata().clone(),
+        )))
+    }
+
     pub fn record_batch_project_schema(
         record_batch: RecordBatch,
         target_schema: SchemaRef,
-- 
2.43.0


From 56fcf3999d89d8d5e34e83d0a78d4273ae8eb1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:13 +0000
Subject: [PATCH 19/62] fix: the summary does not lock a ts_family twice at
 once

A second read lock taken while the first is held waits for a writer, which waits for
the first: the vnode stopped for good.
---
 tskv/src/tsfamily/summary.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tskv/src/tsfamily/summary.rs b/tskv/src/tsfamily/summary.rs
index 5693016..a7d10ef 100644
--- a/tskv/src/tsfamily/summary.rs
+++ b/tskv/src/tsfamily/summary.rs
@@ -145,11 +145,16 @@ impl Summary {
         let mut partly_deleted_file_paths: Vec<PathBuf> = Vec::new();
         let mut partly_deleted_files: HashSet<ColumnFileId> = HashSet::new();
 
+        // Lock the ts_family once: a second read lock waits for a writer that waits for the first.
+        let (owner, tf_id) = {
+            let ts_family = request.ts_family.read().await;
+            (ts_family.owner(), ts_family.tf_id())
+        };
         for compact_meta in request.version_edit.partly_del_files.iter() {
             partly_deleted_file_paths.push(compact_meta.file_path(
                 &self.ctx.options.storage,
-                request.ts_family.read().await.owner().clone().as_str(),
-                request.ts_family.read().await.tf_id(),
+                owner.as_str(),
+                tf_id,
             ));
             partly_deleted_files.insert(compact_meta.file_id);
         }
-- 
2.43.0


From 099d7c964d809d7f08a3f252511a6afebf1fe9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:54 +0000
Subject: [PATCH 20/62] fix: a leader initializes a raft group that it had
 opened before it stopped

---
 coordinator/src/raft/manager.rs | 36 ++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/coordinator/src/raft/manager.rs b/coordinator/src/raft/manager.rs
index 9f1eae9..4f96c21 100644
--- a/coordinator/src/raft/manager.rs
+++ b/coordinator/src/raft/manager.rs
@@ -145,14 +145,16 @@ impl RaftNodesManager {
         db_name: &str,
         replica: &ReplicationSet,
     ) -> CoordinatorResult<Arc<RaftNode>> {
-        if let Some(node) = self
+        let node = self
             .raft_nodes
             .read()
             .await
             .get_node(replica.id)
-            .context(ReplicationSnafu)?
-        {
-            return Ok(node);
+            .context(ReplicationSnafu)?;
+        if let Some(node) = node {
+            if self.is_usable(&node, replica).await? {
+                return Ok(node);
+            }
         }
 
         let result = self.build_replica_group(tenant, db_name, replica).await;
@@ -212,6 +214,15 @@ impl RaftNodesManager {
         Ok(())
     }
 
+    /// A leader that stops between opening a raft node and initializing the
+    /// group starts again with a node that belongs to no group.
+    async fn is_usable(&self, node: &RaftNode, replica: &ReplicationSet) -> CoordinatorResult<bool> {
+        if replica.leader_node_id != self.node_id() {
+            return Ok(true);
+        }
+        node.is_initialized().await.context(ReplicationSnafu)
+    }
+
     pub async fn build_replica_group(
         &self,
         tenant: &str,
@@ -226,15 +237,22 @@ impl RaftNodesManager {
         }
 
         let mut nodes = self.raft_nodes.write().await;
-        if let Some(node) = nodes.get_node(replica.id).context(ReplicationSnafu)? {
-            return Ok(node);
+        let opened = nodes.get_node(replica.id).context(ReplicationSnafu)?;
+        if let Some(node) = &opened {
+            if self.is_usable(node, replica).await? {
+                return Ok(node.clone());
+            }
         }
 
         let mut cluster_nodes = BTreeMap::new();
         let leader_id = replica.leader_vnode_id;
-        let raft_node = self
-            .open_raft_node(tenant, db_name, leader_id, replica.id)
-            .await?;
+        let raft_node = match opened {
+            Some(node) => node,
+            None => {
+                self.open_raft_node(tenant, db_name, leader_id, replica.id)
+                    .await?
+            }
+        };
         for vnode in &replica.vnodes {
             let raft_id = vnode.id as RaftNodeId;
             let info = RaftNodeInfo {
-- 
2.43.0


From 2b2663e1ba0b40300256a88a96cb7d379b4bbe4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:49 +0000
Subject: [PATCH 21/62] fix: a flush makes the series index durable before the
 manifest names its file

---
 tskv/src/index/engine2.rs  | 5 ++++-
 tskv/src/index/ts_index.rs | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/tskv/src/index/engine2.rs b/tskv/src/index/engine2.rs
index e86ea7f..a73ad74 100644
--- a/tskv/src/index/engine2.rs
+++ b/tskv/src/index/engine2.rs
@@ -150,7 +150,10 @@ impl IndexEngine2 {
     }
 
     pub fn flush(&self) -> IndexResult<()> {
-        let _ = self.env.force_sync();
+        self.env
+            .force_sync()
+            .map_err(|e| IndexStorageSnafu { msg: e.to_string() }.build())?;
+
         Ok(())
     }
 
diff --git a/tskv/src/index/ts_index.rs b/tskv/src/index/ts_index.rs
index 5ddb6aa..d37e827 100644
--- a/tskv/src/index/ts_index.rs
+++ b/tskv/src/index/ts_index.rs
@@ -509,6 +509,8 @@ impl TSIndex {
 
     pub async fn flush(&mut self) -> IndexResult<()> {
         self.check_to_flush(true).await?;
+        // The log is not kept for what is flushed, and the storage does not sync by itself.
+        self.storage.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From d6b56c691b16cfe080d48d948a51e1878f0c5e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 22/62] fix: a power failure does not lose a raft group's vote,
 its summary or its purge point

---
 replication/src/state_store.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/replication/src/state_store.rs b/replication/src/state_store.rs
index 1b2d1a0..1f97e8b 100644
--- a/replication/src/state_store.rs
+++ b/replication/src/state_store.rs
@@ -110,6 +110,11 @@ impl StateStorage {
         Ok(writer)
     }
 
+    /// The environment does not sync by itself: what Raft must not forget is synced here.
+    fn sync(&self) -> ReplicationResult<()> {
+        self.env.force_sync().context(HeedSnafu)
+    }
+
     fn get<T>(&self, reader: &heed::RoTxn, key: &str) -> ReplicationResult<Option<T>>
     where
         for<'a> T: Deserialize<'a>,
@@ -289,8 +294,7 @@ impl StateStorage {
         let mut writer = self.writer_txn()?;
         self.set(&mut writer, &Key::purged_log_id(group_id), &log_id)?;
         writer.commit().context(HeedSnafu)?;
-
-        Ok(())
+        self.sync()
     }
 
     pub fn get_snapshot_index(&self, group_id: u32) -> ReplicationResult<u64> {
@@ -334,8 +338,7 @@ impl StateStorage {
         let mut writer = self.writer_txn()?;
         self.set(&mut writer, &Key::vote_key(group_id), vote)?;
         writer.commit().context(HeedSnafu)?;
-
-        Ok(())
+        self.sync()
     }
 
     pub fn get_snapshot(&self, group_id: u32) -> ReplicationResult<Option<StoredSnapshot>> {
@@ -368,8 +371,7 @@ impl StateStorage {
         let mut writer = self.writer_txn()?;
         self.set(&mut writer, &Key::node_summary(group_id), summary)?;
         writer.commit().context(HeedSnafu)?;
-
-        Ok(())
+        self.sync()
     }
 
     pub fn del_keys(&self, keys: &[String]) -> ReplicationResult<()> {
-- 
2.43.0


From 728ec9ff5775e29d1bfb224ecb73fee5186d4965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:58 +0000
Subject: [PATCH 23/62] fix: a raft group's membership is kept before its entry
 counts as applied

---
 replication/src/node_store.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/replication/src/node_store.rs b/replication/src/node_store.rs
index 55fa87e..24b4ef9 100644
--- a/replication/src/node_store.rs
+++ b/replication/src/node_store.rs
@@ -482,6 +482,16 @@ impl RaftStorage<TypeConfig> for Arc<NodeStorage> {
                 entry.summary()
             ); // term-raftid-index:payload type
 
+            // The membership goes first: an entry that is said to be applied is not read again.
+            if let EntryPayload::Membership(ref mem) = entry.payload {
+                self.state
+                    .set_last_membership(
+                        self.group_id(),
+                        StoredMembership::new(Some(entry.log_id), mem.clone()),
+                    )
+                    .map_err(|e| StorageIOError::write(&e))?;
+            }
+
             self.state
                 .set_last_applied_log(self.group_id(), entry.log_id)
                 .map_err(|e| StorageIOError::write(&e))?;
@@ -505,14 +515,7 @@ impl RaftStorage<TypeConfig> for Arc<NodeStorage> {
                     res.push(rsp);
                 }
 
-                EntryPayload::Membership(ref mem) => {
-                    self.state
-                        .set_last_membership(
-                            self.group_id(),
-                            StoredMembership::new(Some(entry.log_id), mem.clone()),
-                        )
-                        .map_err(|e| StorageIOError::write(&e))?;
-
+                EntryPayload::Membership(_) => {
                     res.push(vec![]);
                 }
             };
-- 
2.43.0


From 0aa89de064fbbc720c3470b1e00077dfe065a204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 24/62] fix: recovery keeps the log entries that are not
 applied yet

---
 tskv/src/wal/wal_store.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/tskv/src/wal/wal_store.rs b/tskv/src/wal/wal_store.rs
index 67b2941..e09771c 100644
--- a/tskv/src/wal/wal_store.rs
+++ b/tskv/src/wal/wal_store.rs
@@ -8,7 +8,7 @@ use snafu::IntoError;
 use trace::{error, info};
 
 use super::reader::WalRecordData;
-use crate::error::{DecodeSnafu, WalTruncatedSnafu};
+use crate::error::DecodeSnafu;
 use crate::file_system::async_filesystem::LocalFileSystem;
 use crate::file_system::FileSystem;
 use crate::vnode_store::VnodeStorage;
@@ -60,12 +60,6 @@ impl RaftEntryStorage {
             self.inner.max_sequence(),
         );
 
-        if let Some(apply_id) = apply_id {
-            self.del_after(apply_id.index + 1)
-                .await
-                .map_err(|_| WalTruncatedSnafu.build())?;
-        }
-
         Ok(())
     }
 }
@@ -513,7 +507,13 @@ impl RaftEntryStorageInner {
                 }
             }
 
-            if entry.log_id.index > apply_id.index {
+            // An entry that is not applied yet is still a part of the log: it may be committed.
+            // Only what does not continue the log is left from an unfinished truncation.
+            let next = match self.max_sequence() {
+                u64::MAX => apply_id.index + 1,
+                seq_no => seq_no + 1,
+            };
+            if entry.log_id.index > apply_id.index && entry.log_id.index != next {
                 info!(
                     "truncate wal file: {}, start at: {} from sequence:{}, got entry index: {}",
                     wal_id, record.pos, apply_id.index, entry.log_id.index
-- 
2.43.0


From 8a67edaaeb23221f42e54b83c1c3e819c0f92f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:18 +0000
Subject: [PATCH 25/62] fix: a manifest with a torn last record can be read

---
 tskv/src/tsfamily/summary.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tskv/src/tsfamily/summary.rs b/tskv/src/tsfamily/summary.rs
index a7d10ef..ffe53cb 100644
--- a/tskv/src/tsfamily/summary.rs
+++ b/tskv/src/tsfamily/summary.rs
@@ -76,6 +76,8 @@ impl Summary {
                 }
                 Err(TskvError::Eof) => break,
                 Err(TskvError::RecordFileHashCheckFailed { .. }) => continue,
+                // A record that was being written when the process stopped.
+                Err(TskvError::RecordFileInvalidDataSize { .. }) => continue,
                 Err(e) => {
                     return Err(e);
                 }
-- 
2.43.0


From 34a116dd5dfb5de2a41b2f42f93533ae6fe97917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:03 +0000
Subject: [PATCH 26/62] fix: a data file is not appended to what a crash left
 under its name

---
 tskv/src/tsm/writer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tskv/src/tsm/writer.rs b/tskv/src/tsm/writer.rs
index f1a8e66..475f017 100644
--- a/tskv/src/tsm/writer.rs
+++ b/tskv/src/tsm/writer.rs
@@ -76,6 +76,9 @@ impl TsmWriter {
         } else {
             make_tsm_file(path_buf, file_id)
         };
+        // What a process that stopped while writing has left is not a part of this file.
+        LocalFileSystem::remove_if_exists(&file_path)
+            .map_err(|e| TskvError::FileSystemError { source: e })?;
         let file_system = LocalFileSystem::new(LocalFileType::ThreadPool);
         let file = file_system
             .open_file_writer(&file_path, TSM_BUFFER_SIZE)
-- 
2.43.0


From 74bb33fcd94d5905c988848b51baab6cc5d16ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:06 +0000
Subject: [PATCH 27/62] fix: a tombstone file with a torn record can be read

---
 tskv/src/tsm/tombstone.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tskv/src/tsm/tombstone.rs b/tskv/src/tsm/tombstone.rs
index 23be5d4..9c0ac67 100644
--- a/tskv/src/tsm/tombstone.rs
+++ b/tskv/src/tsm/tombstone.rs
@@ -574,6 +574,14 @@ impl TsmTombstoneCache {
             let record = match reader.read_record().await {
                 Ok(r) => r,
                 Err(TskvError::Eof) => break,
+                // A record that was being written when the process stopped.
+                Err(
+                    e @ (TskvError::RecordFileInvalidDataSize { .. }
+                    | TskvError::RecordFileHashCheckFailed { .. }),
+                ) => {
+                    error!("Invalid tombstone record: {e}");
+                    continue;
+                }
                 Err(e) => {
                     if just_stop_if_error {
                         error!("Invalid tombstone record: {e}");
-- 
2.43.0


From 1fffaa9e5a71770cd832753c4520f0d1c9f62f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:51 +0000
Subject: [PATCH 28/62] fix: records after a torn record header can be read

---
 tskv/src/record_file/reader.rs | 9 +++++++--
 tskv/src/record_file/writer.rs | 4 +++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/tskv/src/record_file/reader.rs b/tskv/src/record_file/reader.rs
index 61af5cd..7450a94 100644
--- a/tskv/src/record_file/reader.rs
+++ b/tskv/src/record_file/reader.rs
@@ -103,8 +103,8 @@ impl Reader {
         };
         let file_len = file.len();
         let records_len = if footer_pos == file_len as u64 {
-            // If there is no footer
-            file_len - FILE_MAGIC_NUMBER_LEN
+            // If there is no footer. The magic number may be torn.
+            file_len.saturating_sub(FILE_MAGIC_NUMBER_LEN)
         } else {
             file_len - FILE_FOOTER_LEN - FILE_MAGIC_NUMBER_LEN
         };
@@ -189,6 +189,9 @@ impl Reader {
     /// Returns a position where to read the header and the header slice.
     async fn find_record_header(&mut self) -> TskvResult<(usize, &[u8])> {
         loop {
+            if (self.pos + RECORD_HEADER_LEN) as u64 > self.footer_pos {
+                return Err(TskvError::Eof);
+            }
             let magic_number_sli = self.read_buf(RECORD_MAGIC_NUMBER_LEN).await?;
             let magic_number = decode_be_u32(magic_number_sli);
             if magic_number == RECORD_MAGIC_NUMBER {
@@ -242,6 +245,8 @@ impl Reader {
                         "Record file: Failed to read data: file_size: {}, Data size ({}) at pos {} is greater than bytes readed ({})",
                         file_len, data_size, data_pos, record_bytes.len()
                     );
+                    // The size itself may be wrong, try to get header from the next pos.
+                    self.set_pos(header_pos + 1).await?;
                     return Err(RecordFileInvalidDataSizeSnafu {
                         pos: header_pos as u64,
                         len: data_size,
diff --git a/tskv/src/record_file/writer.rs b/tskv/src/record_file/writer.rs
index 3d8c488..711e507 100644
--- a/tskv/src/record_file/writer.rs
+++ b/tskv/src/record_file/writer.rs
@@ -29,8 +29,10 @@ impl Writer {
             .open_file_writer(path, buf_size)
             .await
             .map_err(|e| TskvError::FileSystemError { source: e })?;
-        if file.is_empty() {
+        if file.len() < FILE_MAGIC_NUMBER_LEN {
             // For new file, write file magic number, next write is at 4.
+            // A shorter file has a magic number torn by a crash.
+            file.truncate(0).await.context(error::IOSnafu)?;
             file.write(&FILE_MAGIC_NUMBER.to_be_bytes())
                 .await
                 .context(error::IOSnafu)?;
-- 
2.43.0


From 74814904f9a59d6e04576ceb13436f5dc55915d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:01 +0000
Subject: [PATCH 29/62] fix: memcaches with the same sequence number are
 flushed apart

---
 tskv/src/compaction/job.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tskv/src/compaction/job.rs b/tskv/src/compaction/job.rs
index f5214f2..22c5257 100644
--- a/tskv/src/compaction/job.rs
+++ b/tskv/src/compaction/job.rs
@@ -284,6 +284,8 @@ pub struct FlushJob {
     ctx: Arc<TsKvContext>,
     summary: Arc<RwLock<Summary>>,
     data_lock: Arc<RwLock<()>>,
+    /// Flushes to be applied in the order in which their memcaches were created. The key is the
+    /// file id of the memcache: the sequence numbers of two memcaches may be the same.
     queue: Arc<RwLock<BTreeMap<u64, (FlushReq, SummaryTask)>>>,
 }
 
@@ -376,7 +378,7 @@ impl FlushJob {
 
         let mut receivers = vec![];
         for mem in mems.iter() {
-            let flush_seq = mem.read().min_seq_no();
+            let flush_id = mem.read().file_id();
             let (sender, receiver) = oneshot::channel();
             receivers.push(receiver);
             let summary_task = SummaryTask::new(
@@ -387,7 +389,7 @@ impl FlushJob {
                 sender,
             );
 
-            queue.insert(flush_seq, (request.clone(), summary_task));
+            queue.insert(flush_id, (request.clone(), summary_task));
         }
         drop(ts_family_w);
         drop(queue);
@@ -426,10 +428,10 @@ impl FlushJob {
         receivers: Vec<OneshotReceiver<Result<(), crate::TskvError>>>,
     ) -> TskvResult<()> {
         for mem in mems.iter() {
-            let flush_seq = mem.read().min_seq_no();
+            let flush_id = mem.read().file_id();
             match flush::flush_memtable(request, mem.clone()).await {
                 Ok((ve, files_meta)) => {
-                    if let Some(entry) = job.queue.write().await.get_mut(&flush_seq) {
+                    if let Some(entry) = job.queue.write().await.get_mut(&flush_id) {
                         entry.0.completion = true;
                         entry.1.request.version_edit = ve;
                         entry.1.request.file_metas = Some(files_meta);
-- 
2.43.0


From 558133ea30fecb3efc61e53d1c6a31a639c2dfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 30/62] fix: an entry that is flushed is not applied again

---
 tskv/src/vnode_store.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tskv/src/vnode_store.rs b/tskv/src/vnode_store.rs
index 1e65bbe..0e3bdf2 100644
--- a/tskv/src/vnode_store.rs
+++ b/tskv/src/vnode_store.rs
@@ -90,6 +90,20 @@ impl VnodeStorage {
         ctx: &replication::ApplyContext,
         command: raft_write_command::Command,
     ) -> TskvResult<Vec<u8>> {
+        if ctx.apply_type == replication::APPLY_TYPE_WRITE {
+            // What the raft group knows as applied may be lost by a power failure. An entry that
+            // is flushed must not be applied again: a delete would take flushed rows of later
+            // entries, and if the process stops then, the log is read only from the flushed one.
+            let last_seq = self.ts_family.read().await.version().last_seq();
+            if last_seq > 0 && ctx.index <= last_seq {
+                debug!(
+                    "vnode {} entry {} is flushed already, last_seq: {}",
+                    self.id, ctx.index, last_seq
+                );
+                return Ok(vec![]);
+            }
+        }
+
         match command {
             raft_write_command::Command::WriteData(cmd) => {
                 let precision = Precision::from(cmd.precision as u8);
-- 
2.43.0


From eaebb1a51eac7f77d825f33b704f3fa8f32844f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 31/62] fix: ranges an unfinished compaction saved are not
 added to

---
 tskv/src/tsm/tombstone.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tskv/src/tsm/tombstone.rs b/tskv/src/tsm/tombstone.rs
index 9c0ac67..351cd57 100644
--- a/tskv/src/tsm/tombstone.rs
+++ b/tskv/src/tsm/tombstone.rs
@@ -283,6 +283,9 @@ impl TsmTombstone {
         time_range: TimeRange,
     ) -> TskvResult<TimeRanges> {
         let tmp_path = tombstone_compact_tmp_path(&self.path)?;
+        // Ranges saved by a compaction that did not finish must not be added to.
+        LocalFileSystem::remove_if_exists(&tmp_path)
+            .map_err(|e| TskvError::FileSystemError { source: e })?;
         let mut writer = record_file::Writer::open(&tmp_path, TOMBSTONE_BUFFER_SIZE).await?;
         let mut cache = self.cache.write().clone();
         cache.insert(TombstoneField::All, time_range);
-- 
2.43.0


From 01e56da90d751b7b8c6911e8b173f353224fa667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 32/62] fix: rows of two sets of columns are not mixed in one
 group of a memcache

---
 tskv/src/mem_cache/series_data.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tskv/src/mem_cache/series_data.rs b/tskv/src/mem_cache/series_data.rs
index f8c0754..88bd38a 100644
--- a/tskv/src/mem_cache/series_data.rs
+++ b/tskv/src/mem_cache/series_data.rs
@@ -46,7 +46,10 @@ impl SeriesData {
         // The groups are in the order of their writes, which decides on rows of the same time:
         // a write with an older schema may come late, and only the last group may be added to.
         if let Some(item) = self.groups.back_mut() {
-            if item.schema.schema_version == group.schema.schema_version {
+            // A column may have been dropped here before the schema of the table changes.
+            if item.schema.schema_version == group.schema.schema_version
+                && item.schema.fields_id() == group.schema.fields_id()
+            {
                 item.range.merge(&group.range);
                 // A row is inserted before those of the same time: the newest one must be the last.
                 let rows: Vec<RowData> = group.rows.get_rows().into_iter().collect();
-- 
2.43.0


From 945155fe580491007f258822f89ef6b345a93ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 33/62] fix: a tag of a series that has rows in several shards
 can be updated

---
 coordinator/src/service.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/coordinator/src/service.rs b/coordinator/src/service.rs
index 5b2d77e..ecbe5f4 100644
--- a/coordinator/src/service.rs
+++ b/coordinator/src/service.rs
@@ -1121,6 +1121,10 @@ impl Coordinator for CoordService {
             }
         }
 
+        // A series is found once in every shard it has rows in.
+        series_keys.sort();
+        series_keys.dedup();
+
         // find all shard/ReplicationSet/node_id
         // send only one request to each kv node
         let time_ranges = TimeRanges::new(vec![TimeRange::all()]);
-- 
2.43.0


From 4c49e4c637f416451f871e13903b012870dcced0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:20 +0000
Subject: [PATCH 34/62] fix: a data file with compressed metadata can be read
 after its tags are updated

---
 tskv/src/tsm/writer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tskv/src/tsm/writer.rs b/tskv/src/tsm/writer.rs
index 475f017..2e1d078 100644
--- a/tskv/src/tsm/writer.rs
+++ b/tskv/src/tsm/writer.rs
@@ -471,6 +471,10 @@ impl TsmWriter {
             .truncate(meta.footer().series().chunk_offset() as usize)
             .await
             .context(IOSnafu)?;
+        let tsm_version = match tsm_meta_encode {
+            Encoding::Null => TsmVersion::V1,
+            _ => TsmVersion::V2,
+        };
         let mut writer = Self {
             file_id,
             max_ts: i64::MIN,
@@ -483,7 +487,7 @@ impl TsmWriter {
             page_specs: Default::default(),
             chunk_specs: Default::default(),
             chunk_group_specs: Default::default(),
-            footer: Footer::empty(TsmVersion::V1),
+            footer: Footer::empty(tsm_version),
             state: State::Initialised,
             tsm_meta_encode,
         };
-- 
2.43.0


From 9e9359873cf4857db800a18b9a3ce40f14d2a146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 35/62] fix: a data file is replaced as a whole when its tags
 are updated

---
 tskv/src/tsfamily/column_file.rs | 37 ++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/tskv/src/tsfamily/column_file.rs b/tskv/src/tsfamily/column_file.rs
index 149c727..095b82a 100644
--- a/tskv/src/tsfamily/column_file.rs
+++ b/tskv/src/tsfamily/column_file.rs
@@ -13,13 +13,15 @@ use trace::{debug, error, info};
 use utils::BloomFilter;
 
 use super::version::CompactMeta;
-use crate::error::{FileSystemSnafu, TskvResult};
+use crate::error::{FileSystemSnafu, IOSnafu, ReadTsmSnafu, TskvResult};
 use crate::file_system::async_filesystem::{LocalFileSystem, LocalFileType};
 use crate::file_system::FileSystem;
 use crate::tsm::reader::TsmReader;
 use crate::tsm::tombstone::tombstone_compact_tmp_path;
 use crate::tsm::writer::TsmWriter;
-use crate::{tsm, ColumnFileId, LevelId};
+use crate::{file_utils, tsm, ColumnFileId, LevelId};
+
+const COPY_BUFFER_SIZE: usize = 1024 * 1024;
 
 #[derive(Debug)]
 pub struct ColumnFile {
@@ -154,11 +156,37 @@ impl ColumnFile {
             return Ok(None);
         };
         meta.update_tag_value(series)?;
+
+        // The file is replaced as a whole: the data in it can't be recovered from the log.
+        let tmp_path = self.path.with_extension("tag.tmp");
+        LocalFileSystem::remove_if_exists(&tmp_path).context(FileSystemSnafu)?;
         let local_file_system = LocalFileSystem::new(LocalFileType::ThreadPool);
-        let writer = local_file_system
-            .open_file_writer(&self.path, 1024)
+        let reader = local_file_system
+            .open_file_reader(&self.path)
+            .await
+            .context(FileSystemSnafu)?;
+        let mut writer = local_file_system
+            .open_file_writer(&tmp_path, 1024)
             .await
             .context(FileSystemSnafu)?;
+        let data_len = meta.footer().series().chunk_offset() as usize;
+        let mut buf = vec![0_u8; data_len.min(COPY_BUFFER_SIZE)];
+        let mut pos = 0;
+        while pos < data_len {
+            let len = buf.len().min(data_len - pos);
+            let size = reader
+                .read_at(pos, &mut buf[..len])
+                .await
+                .context(IOSnafu)?;
+            if size == 0 {
+                return Err(ReadTsmSnafu {
+                    reason: format!("unexpected end of file '{}'", self.path.display()),
+                }
+                .build());
+            }
+            writer.write(&buf[..size]).await.context(IOSnafu)?;
+            pos += size;
+        }
         TsmWriter::update_file_meta_data(
             self.file_id,
             self.path.clone(),
@@ -167,6 +195,7 @@ impl ColumnFile {
             encode_tsm_meta,
         )
         .await?;
+        file_utils::rename(&tmp_path, &self.path).await?;
         Ok(Some(self.path.clone()))
     }
 }
-- 
2.43.0


From f8fd7803ecef2045fa2f6b8dfde26338b2e2bd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 36/62] fix: compactions of one vnode exclude each other

---
 tskv/src/compaction/job.rs | 120 +++++++++++++++++++------------------
 tskv/src/kvcore.rs         |   2 +
 tskv/src/vnode_store.rs    |  10 +++-
 3 files changed, 73 insertions(+), 59 deletions(-)

diff --git a/tskv/src/compaction/job.rs b/tskv/src/compaction/job.rs
index 22c5257..89b60e1 100644
--- a/tskv/src/compaction/job.rs
+++ b/tskv/src/compaction/job.rs
@@ -187,67 +187,71 @@ impl CompactJobInner {
                             info!("forbidden compaction on moving vnode {}", vnode_id);
                             return;
                         }
-                        let version = tsf.read().await.version();
-                        let compact_req = pick_compaction(task, version).await;
-                        if let Some(mut req) = compact_req {
-                            req.set_file_id(vnode.get_summary().read().await.file_id());
-                            // Method acquire_owned() will return AcquireError if the semaphore has been closed.
-                            let permit = compaction_limit.clone().acquire_owned().await.unwrap();
-                            let enable_compaction = enable_compaction.clone();
-                            let running_compaction = running_compaction.clone();
-                            let metrics_registry = metrics_registry.clone();
-
-                            let ctx2 = ctx1.clone();
-                            ctx1.runtime.spawn(async move {
-                                let _guard = limit.lock().await;
-                                let data_lock = vnode.get_data_lock();
-                                let _data_guard = data_lock.read().await;
-                                // Check enable compaction
-                                if !enable_compaction.load(atomic::Ordering::SeqCst) {
+                        // Method acquire_owned() will return AcquireError if the semaphore has been closed.
+                        let permit = compaction_limit.clone().acquire_owned().await.unwrap();
+                        let enable_compaction = enable_compaction.clone();
+                        let running_compaction = running_compaction.clone();
+                        let metrics_registry = metrics_registry.clone();
+
+                        let ctx2 = ctx1.clone();
+                        ctx1.runtime.spawn(async move {
+                            let _permit = permit;
+                            let _guard = limit.lock().await;
+                            let compaction_lock = vnode.get_compaction_lock();
+                            let _compaction_guard = compaction_lock.lock().await;
+                            let data_lock = vnode.get_data_lock();
+                            let _data_guard = data_lock.read().await;
+                            // Check enable compaction
+                            if !enable_compaction.load(atomic::Ordering::SeqCst) {
+                                return;
+                            }
+                            let version = tsf.read().await.version();
+                            let mut req = match pick_compaction(task, version).await {
+                                Some(req) => req,
+                                None => {
+                                    info!("There is no need to compact.");
                                     return;
                                 }
-                                // Edit running_compaction
-                                running_compaction.fetch_add(1, atomic::Ordering::SeqCst);
-                                let _sub_running_compaction_guard = DeferGuard(Some(|| {
-                                    running_compaction.fetch_sub(1, atomic::Ordering::SeqCst);
-                                }));
-
-                                let vnode_compaction_metrics = VnodeCompactionMetrics::new(
-                                    &metrics_registry,
-                                    ctx2.options.storage.node_id,
-                                    vnode_id,
-                                    CompactionType::Normal,
-                                    ctx2.options.storage.collect_compaction_metrics,
-                                );
-                                match super::run_compaction_job(req, vnode_compaction_metrics).await
-                                {
-                                    Ok(Some((version_edit, file_metas))) => {
-                                        let request = SummaryRequest {
-                                            version_edit,
-                                            mem_caches: None,
-                                            file_metas: Some(file_metas),
-                                            ts_family: tsf,
-                                        };
-                                        let summary = vnode.get_summary();
-                                        let result = summary
-                                            .write()
-                                            .await
-                                            .apply_version_edit(&request)
-                                            .await;
-                                        info!("vnode compaction apply version edit: {:?}", result);
-                                    }
-                                    Ok(None) => {
-                                        info!("There is nothing to compact.");
-                                    }
-                                    Err(e) => {
-                                        error!("Compaction job failed: {:?}", e);
-                                    }
+                            };
+                            req.set_file_id(vnode.get_summary().read().await.file_id());
+                            // Edit running_compaction
+                            running_compaction.fetch_add(1, atomic::Ordering::SeqCst);
+                            let _sub_running_compaction_guard = DeferGuard(Some(|| {
+                                running_compaction.fetch_sub(1, atomic::Ordering::SeqCst);
+                            }));
+
+                            let vnode_compaction_metrics = VnodeCompactionMetrics::new(
+                                &metrics_registry,
+                                ctx2.options.storage.node_id,
+                                vnode_id,
+                                CompactionType::Normal,
+                                ctx2.options.storage.collect_compaction_metrics,
+                            );
+                            match super::run_compaction_job(req, vnode_compaction_metrics).await
+                            {
+                                Ok(Some((version_edit, file_metas))) => {
+                                    let request = SummaryRequest {
+                                        version_edit,
+                                        mem_caches: None,
+                                        file_metas: Some(file_metas),
+                                        ts_family: tsf,
+                                    };
+                                    let summary = vnode.get_summary();
+                                    let result = summary
+                                        .write()
+                                        .await
+                                        .apply_version_edit(&request)
+                                        .await;
+                                    info!("vnode compaction apply version edit: {:?}", result);
                                 }
-                                drop(permit);
-                            });
-                        } else {
-                            info!("There is no need to compact.");
-                        }
+                                Ok(None) => {
+                                    info!("There is nothing to compact.");
+                                }
+                                Err(e) => {
+                                    error!("Compaction job failed: {:?}", e);
+                                }
+                            }
+                        });
                     }
                 }
                 info!(
diff --git a/tskv/src/kvcore.rs b/tskv/src/kvcore.rs
index ff4cc73..3642bf4 100644
--- a/tskv/src/kvcore.rs
+++ b/tskv/src/kvcore.rs
@@ -340,6 +340,8 @@ impl Engine for TsKv {
                     error!("Failed to flush vnode {}: {:?}", vnode_id, e);
                 }
 
+                let compaction_lock = vnode.get_compaction_lock();
+                let _compaction_guard = compaction_lock.lock().await;
                 let version = ts_family.read().await.version();
                 if let Some(mut req) = pick_compaction(CompactTask::Manual(vnode_id), version).await
                 {
diff --git a/tskv/src/vnode_store.rs b/tskv/src/vnode_store.rs
index 0e3bdf2..58e928e 100644
--- a/tskv/src/vnode_store.rs
+++ b/tskv/src/vnode_store.rs
@@ -10,7 +10,7 @@ use models::{ColumnId, SeriesId, SeriesKey};
 use protos::kv_service::{raft_write_command, WritePointsResponse, *};
 use replication::EngineMetrics;
 use snafu::{OptionExt, ResultExt};
-use tokio::sync::RwLock;
+use tokio::sync::{Mutex, RwLock};
 use trace::span_ext::SpanExt;
 use trace::{debug, error, info, Span, SpanContext};
 use utils::precision::Precision;
@@ -38,6 +38,9 @@ pub struct VnodeStorage {
     /// files to new files, and a command that changes data already stored (a delete, a drop, an
     /// update of tags) holds it exclusively: a copy in progress would miss the change.
     data_lock: Arc<RwLock<()>>,
+    /// A compaction holds this lock from picking files until its result is in the version:
+    /// two at a time would write files of one level that overlap.
+    compaction_lock: Arc<Mutex<()>>,
 
     snapshots: Vec<VnodeSnapshot>,
 
@@ -66,6 +69,7 @@ impl VnodeStorage {
             ts_index,
             ts_family,
             data_lock,
+            compaction_lock: Arc::new(Mutex::new(())),
             snapshots: vec![],
             write_apply_duration: U64Average::default(),
             write_build_group_duration: U64Average::default(),
@@ -635,6 +639,10 @@ impl VnodeStorage {
         self.data_lock.clone()
     }
 
+    pub fn get_compaction_lock(&self) -> Arc<Mutex<()>> {
+        self.compaction_lock.clone()
+    }
+
     pub fn get_ts_family(&self) -> Arc<RwLock<TseriesFamily>> {
         self.ts_family.clone()
     }
-- 
2.43.0


From 98194532dfde2d0cf76012c8fb8bc106fc6ef659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 37/62] fix: a vnode that is moving does not stop the
 compaction of others

---
 tskv/src/compaction/job.rs | 2 +-
 tskv/src/kvcore.rs         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tskv/src/compaction/job.rs b/tskv/src/compaction/job.rs
index 89b60e1..c1ee992 100644
--- a/tskv/src/compaction/job.rs
+++ b/tskv/src/compaction/job.rs
@@ -185,7 +185,7 @@ impl CompactJobInner {
                         let tsf = vnode.get_ts_family();
                         if !tsf.read().await.can_compaction() {
                             info!("forbidden compaction on moving vnode {}", vnode_id);
-                            return;
+                            continue;
                         }
                         // Method acquire_owned() will return AcquireError if the semaphore has been closed.
                         let permit = compaction_limit.clone().acquire_owned().await.unwrap();
diff --git a/tskv/src/kvcore.rs b/tskv/src/kvcore.rs
index 3642bf4..f55eb32 100644
--- a/tskv/src/kvcore.rs
+++ b/tskv/src/kvcore.rs
@@ -330,7 +330,7 @@ impl Engine for TsKv {
                 // TODO: stop current and prevent next flush and compaction.
                 if !ts_family.read().await.can_compaction() {
                     warn!("forbidden compaction on moving vnode {}", vnode_id);
-                    return Ok(());
+                    continue;
                 }
 
                 let owner = ts_family.read().await.owner();
-- 
2.43.0


From 7b488dee0eb7129f74b01e4bbe40658886ad3429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 38/62] fix: a failed rewrite of the summary leaves the old one
 in use

---
 tskv/src/file_system/file/stream_writer.rs |  4 +-
 tskv/src/tsfamily/summary.rs               | 60 +++++++++++++++-------
 2 files changed, 44 insertions(+), 20 deletions(-)

diff --git a/tskv/src/file_system/file/stream_writer.rs b/tskv/src/file_system/file/stream_writer.rs
index c2c3a61..e408556 100644
--- a/tskv/src/file_system/file/stream_writer.rs
+++ b/tskv/src/file_system/file/stream_writer.rs
@@ -125,7 +125,9 @@ impl FileStreamWriter {
     }
 
     pub async fn truncate(&mut self, size: usize) -> Result<()> {
-        self.flush().await?;
+        if !self.buf.data.is_empty() {
+            self.flush().await?;
+        }
         self.file.truncate(size as u64).await?;
         self.pos = size;
         Ok(())
diff --git a/tskv/src/tsfamily/summary.rs b/tskv/src/tsfamily/summary.rs
index ffe53cb..c593a38 100644
--- a/tskv/src/tsfamily/summary.rs
+++ b/tskv/src/tsfamily/summary.rs
@@ -192,48 +192,70 @@ impl Summary {
             return Ok(());
         }
 
+        // The edit is written and applied: a summary that stays long is no reason to fail it.
         let ve = request.ts_family.read().await.build_version_edit();
-        self.rewrite_summary_file(&ve).await?;
+        if let Err(e) = self.rewrite_summary_file(&ve).await {
+            trace::error!("Failed to rewrite summary of {}: {e}", self.tsf_id);
+        }
 
         Ok(())
     }
 
     async fn rewrite_summary_file(&mut self, ve: &VersionEdit) -> TskvResult<()> {
-        let summary_file = &self.writer.path().clone();
-        let tmp_file = file_utils::make_summary_file_tmp(
-            self.ctx
-                .options
-                .storage
-                .ts_family_dir(&ve.tsf_name, self.tsf_id),
-        );
+        let ts_family_dir = self
+            .ctx
+            .options
+            .storage
+            .ts_family_dir(&ve.tsf_name, self.tsf_id);
+        let summary_file = file_utils::make_tsfamily_summary_file(&ts_family_dir);
+        let tmp_file = file_utils::make_summary_file_tmp(&ts_family_dir);
         LocalFileSystem::remove_if_exists(&tmp_file)
             .map_err(|e| TskvError::FileSystemError { source: e })?;
 
-        self.writer = Writer::open(&tmp_file, SUMMARY_BUFFER_SIZE).await?;
-        self.write_record(ve).await?;
+        // Until the new file has replaced the old one, edits go to the old one.
+        let mut writer = Writer::open(&tmp_file, SUMMARY_BUFFER_SIZE).await?;
+        Self::write_record_to(&mut writer, ve).await?;
 
         trace::info!("Rename summary file {:?} -> {:?}", tmp_file, summary_file,);
-        std::fs::rename(tmp_file, summary_file).context(IOSnafu)?;
+        std::fs::rename(tmp_file, &summary_file).context(IOSnafu)?;
 
-        self.writer = Writer::open(summary_file, SUMMARY_BUFFER_SIZE)
-            .await
-            .unwrap();
+        // The writer of the renamed file has it open, with or without its new name.
+        self.writer = match Writer::open(&summary_file, SUMMARY_BUFFER_SIZE).await {
+            Ok(reopened) => reopened,
+            Err(e) => {
+                trace::error!("Failed to reopen summary file {summary_file:?}: {e}");
+                writer
+            }
+        };
 
         Ok(())
     }
 
     pub async fn write_record(&mut self, ve: &VersionEdit) -> TskvResult<()> {
+        Self::write_record_to(&mut self.writer, ve).await
+    }
+
+    async fn write_record_to(writer: &mut Writer, ve: &VersionEdit) -> TskvResult<()> {
         let buf = ve.encode()?;
-        let _ = self
-            .writer
+        let size = writer.file_size();
+        let mut res = writer
             .write_record(
                 RecordDataVersion::V1.into(),
                 RecordDataType::Summary.into(),
                 &[&buf],
             )
-            .await?;
-
-        self.writer.sync().await
+            .await
+            .map(|_| ());
+        if res.is_ok() {
+            res = writer.sync().await;
+        }
+        if res.is_err() {
+            // The edit is not applied, so it must not be there after a restart.
+            if let Err(e) = writer.truncate(size).await {
+                trace::error!("Failed to take back a summary record: {e}");
+            }
+        }
+        res
     }
 
     pub fn file_id(&self) -> IDGenerator {
-- 
2.43.0


From 755e725800c922c1eb30df21483ebbf207dba84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:27 +0000
Subject: [PATCH 39/62] fix: a flush that fails is not overtaken by the flushes
 behind it

---
 tskv/src/compaction/job.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/tskv/src/compaction/job.rs b/tskv/src/compaction/job.rs
index c1ee992..0e38af5 100644
--- a/tskv/src/compaction/job.rs
+++ b/tskv/src/compaction/job.rs
@@ -323,9 +323,15 @@ impl FlushJob {
                 .apply_version_edit(&summary_task.request)
                 .await;
             info!("Flush: request {} apply version {:?}", flush_req, result);
+            let applied = result.is_ok();
             if let Err(err) = summary_task.call_back.send(result) {
                 info!("Flush: apply version send to callback failed: {:?}", err);
             }
+            if !applied {
+                // Later flushes must not get ahead of this one, they are to be done again too.
+                queue.clear();
+                break;
+            }
 
             if flush_req.trigger_compact {
                 let _ = job
@@ -435,16 +441,22 @@ impl FlushJob {
             let flush_id = mem.read().file_id();
             match flush::flush_memtable(request, mem.clone()).await {
                 Ok((ve, files_meta)) => {
-                    if let Some(entry) = job.queue.write().await.get_mut(&flush_id) {
-                        entry.0.completion = true;
-                        entry.1.request.version_edit = ve;
-                        entry.1.request.file_metas = Some(files_meta);
+                    match job.queue.write().await.get_mut(&flush_id) {
+                        Some(entry) => {
+                            entry.0.completion = true;
+                            entry.1.request.version_edit = ve;
+                            entry.1.request.file_metas = Some(files_meta);
+                        }
+                        // An earlier flush failed.
+                        None => break,
                     }
                     Self::process_summary_tasks(job.clone()).await;
                 }
 
                 Err(err) => {
                     error!("Flush: memcache failed {} {:?}", request, err);
+                    // Later flushes must not get ahead of this one, they are to be done again too.
+                    job.queue.write().await.split_off(&flush_id);
                     return Err(err);
                 }
             };
@@ -453,8 +465,14 @@ impl FlushJob {
         for receiver in receivers {
             let result = receiver.await;
             info!("Flush: status: {:?} for request: {}", result, request);
-            if let Ok(result) = result {
-                result?;
+            match result {
+                Ok(result) => result?,
+                Err(_) => {
+                    return Err(CommonSnafu {
+                        reason: "an earlier flush failed".to_string(),
+                    }
+                    .build())
+                }
             }
         }
 
-- 
2.43.0


From a273481d9a7e2dfbbb104c1887fc684e8923f1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:54 +0000
Subject: [PATCH 40/62] fix: a snapshot file is flushed before its length is
 compared

---
 coordinator/src/raft/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coordinator/src/raft/mod.rs b/coordinator/src/raft/mod.rs
index 140ccd5..c2a9ce6 100644
--- a/coordinator/src/raft/mod.rs
+++ b/coordinator/src/raft/mod.rs
@@ -157,6 +157,8 @@ impl TskvEngineStorage {
             let data = crate::errors::decode_grpc_response(received)?;
             file.write_all(&data).await.context(IoSnafu)?;
         }
+        // Writes of a tokio file go on in the background.
+        file.flush().await.context(IoSnafu)?;
 
         Ok(())
     }
-- 
2.43.0


From d1647c0cfac393f1ef4756bfbef65e833232abde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:54 +0000
Subject: [PATCH 41/62] fix: a snapshot up to the last purged entry has a log
 id

---
 replication/src/node_store.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/replication/src/node_store.rs b/replication/src/node_store.rs
index 24b4ef9..b96cb13 100644
--- a/replication/src/node_store.rs
+++ b/replication/src/node_store.rs
@@ -103,6 +103,13 @@ impl NodeStorage {
             }
         }
 
+        // The log may be purged up to the last entry of the snapshot.
+        if let Some(log_id) = self.state.get_last_purged(self.group_id())? {
+            if log_id.index == index {
+                return Ok(Some(log_id));
+            }
+        }
+
         Ok(None)
     }
 
-- 
2.43.0


From 4ff0000c396679f8b9e21f298264f5463d00e394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:49 +0000
Subject: [PATCH 42/62] fix: a snapshot counts as applied only when its data is
 restored

---
 replication/src/node_store.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/replication/src/node_store.rs b/replication/src/node_store.rs
index b96cb13..3801ca6 100644
--- a/replication/src/node_store.rs
+++ b/replication/src/node_store.rs
@@ -181,12 +181,13 @@ impl NodeStorage {
         let group_id = self.group_id();
         let log_id = snap.meta.last_log_id.unwrap_or_default();
         let membership = snap.meta.last_membership;
+        // If the process stops before the data is there, the entries are not applied.
+        self.engine.write().await.restore(&snap.data).await?;
+
         self.state.set_last_applied_log(group_id, log_id)?;
         self.state.set_last_membership(group_id, membership)?;
         self.state.set_snapshot_applied_log(group_id, log_id)?;
 
-        self.engine.write().await.restore(&snap.data).await?;
-
         Ok(())
     }
     pub async fn sync_wal_writer(&self) {
-- 
2.43.0


From bde27cdeb6546e67dcfea002301b403f753dd991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:20 +0000
Subject: [PATCH 43/62] fix: a snapshot has the tombstones of its files

---
 coordinator/src/raft/mod.rs  |  9 +++++++++
 tskv/src/tsfamily/version.rs | 15 +++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/coordinator/src/raft/mod.rs b/coordinator/src/raft/mod.rs
index c2a9ce6..225fc16 100644
--- a/coordinator/src/raft/mod.rs
+++ b/coordinator/src/raft/mod.rs
@@ -125,6 +125,15 @@ impl TskvEngineStorage {
                 }
                 .build());
             }
+
+            // Rows deleted after their flush are only marked so in the tombstone of the file.
+            let tombstone = info.relative_tombstone_path();
+            let src_filename = src_dir.join(&tombstone).to_string_lossy().to_string();
+            let filename = dir.join(&tombstone);
+            Self::download_file(&src_filename, &filename, client).await?;
+            if LocalFileSystem::get_file_length(filename.to_string_lossy().to_string()) == 0 {
+                tokio::fs::remove_file(&filename).await.context(IoSnafu)?;
+            }
         }
 
         Ok(())
diff --git a/tskv/src/tsfamily/version.rs b/tskv/src/tsfamily/version.rs
index 4154183..2cc16ef 100644
--- a/tskv/src/tsfamily/version.rs
+++ b/tskv/src/tsfamily/version.rs
@@ -14,6 +14,8 @@ use trace::error;
 use utils::BloomFilter;
 
 use crate::error::{RecordFileDecodeSnafu, RecordFileEncodeSnafu, TskvResult};
+use crate::file_system::async_filesystem::LocalFileSystem;
+use crate::file_system::FileSystem;
 use crate::kv_option::{StorageOptions, DELTA_PATH, TSM_PATH};
 use crate::tsfamily::column_file::ColumnFile;
 use crate::tsfamily::level_info::LevelInfo;
@@ -334,6 +336,11 @@ impl CompactMeta {
         }
     }
 
+    pub fn relative_tombstone_path(&self) -> PathBuf {
+        let base_dir = PathBuf::from(if self.is_delta { DELTA_PATH } else { TSM_PATH });
+        file_utils::make_tsm_tombstone_file(base_dir, self.file_id)
+    }
+
     pub async fn rename_file(
         &self,
         old_dir: &Path,
@@ -353,6 +360,14 @@ impl CompactMeta {
             )
         };
 
+        let old_tombstone = old_dir.join(self.relative_tombstone_path());
+        if LocalFileSystem::try_exists(&old_tombstone) {
+            if let Some(dir) = new_name.parent() {
+                let new_tombstone = file_utils::make_tsm_tombstone_file(dir, new_id);
+                file_utils::rename(&old_tombstone, &new_tombstone).await?;
+            }
+        }
+
         trace::info!("rename file from {:?} to {:?}", &old_name, &new_name);
         file_utils::rename(&old_name, &new_name).await?;
 
-- 
2.43.0


From 1c82357e697bf4e346114e9716492dad987f3191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:19 +0000
Subject: [PATCH 44/62] fix: after a snapshot is installed all parts of the
 node use the new data

---
 tskv/src/database.rs                | 36 ++++++++++++++++++-----------
 tskv/src/index/cache.rs             | 10 ++++++++
 tskv/src/index/engine2.rs           | 13 +++++++++++
 tskv/src/index/ts_index.rs          |  9 ++++++++
 tskv/src/tsfamily/tseries_family.rs | 17 ++++----------
 tskv/src/vnode_store.rs             | 26 +++++++++++++++++----
 6 files changed, 81 insertions(+), 30 deletions(-)

diff --git a/tskv/src/database.rs b/tskv/src/database.rs
index fffa801..011eb61 100644
--- a/tskv/src/database.rs
+++ b/tskv/src/database.rs
@@ -28,7 +28,7 @@ use crate::tsfamily::summary::{Summary, SummaryRequest};
 use crate::tsfamily::tseries_family::{TseriesFamily, TsfFactory};
 use crate::tsfamily::version::{Version, VersionEdit};
 use crate::tsm::reader::TsmReader;
-use crate::{TsKvContext, VnodeId};
+use crate::{file_utils, TsKvContext, VnodeId};
 
 pub type FlatBufferTable<'a> = flatbuffers::Vector<'a, flatbuffers::ForwardsUOffset<Table<'a>>>;
 
@@ -196,6 +196,28 @@ impl Database {
         trace::info!("Removed vnode directory({:?})'{:?}'", ts_dir, result);
     }
 
+    /// Deletes all data of a vnode except its index, which is open.
+    pub fn del_tsfamily(&mut self, tf_id: u32) {
+        self.ts_families.remove(&tf_id);
+        self.tsf_factory.drop_tsf(tf_id);
+
+        let options = self.storage_options();
+        let _ = std::fs::remove_file(file_utils::make_tsfamily_summary_file(
+            options.ts_family_dir(&self.owner, tf_id),
+        ));
+        for dir in [
+            options.tsm_dir(&self.owner, tf_id),
+            options.delta_dir(&self.owner, tf_id),
+        ] {
+            let result = std::fs::remove_dir_all(&dir);
+            trace::info!("Removed vnode directory({:?})'{:?}'", dir, result);
+        }
+    }
+
+    pub fn replace_tsfamily(&mut self, tf_id: u32, ts_family: Arc<RwLock<TseriesFamily>>) {
+        self.ts_families.insert(tf_id, ts_family);
+    }
+
     pub async fn build_write_group(
         &self,
         precision: Precision,
@@ -377,18 +399,6 @@ impl Database {
         Ok(res)
     }
 
-    pub async fn rebuild_tsfamily_index(
-        &mut self,
-        ts_family: Arc<RwLock<TseriesFamily>>,
-    ) -> TskvResult<Arc<RwLock<TSIndex>>> {
-        let id = ts_family.read().await.tf_id();
-        let ts_index = ts_family.read().await.rebuild_index().await?;
-
-        self.ts_indexes.insert(id, ts_index.clone());
-
-        Ok(ts_index)
-    }
-
     pub async fn get_table_schema(
         &self,
         table_name: &str,
diff --git a/tskv/src/index/cache.rs b/tskv/src/index/cache.rs
index e4cd4dd..1dc84ee 100644
--- a/tskv/src/index/cache.rs
+++ b/tskv/src/index/cache.rs
@@ -38,6 +38,11 @@ impl IndexCache {
         self.read_cache.del(id, hash);
     }
 
+    pub fn clear(&mut self) {
+        self.write_cache = IndexMemCache::new();
+        self.read_cache.clear();
+    }
+
     pub fn get_series_id_by_key(&self, key: &SeriesKey) -> Option<SeriesId> {
         if let Some(id) = self.write_cache.get_series_id_by_key(key) {
             return Some(id);
@@ -100,6 +105,11 @@ impl ForwardCache {
         self.hash_map.remove(&hash);
     }
 
+    fn clear(&self) {
+        self.id_map.clear();
+        self.hash_map.clear();
+    }
+
     fn get_series_id_by_key(&self, key: &SeriesKey) -> Option<SeriesId> {
         let hash = key.hash();
 
diff --git a/tskv/src/index/engine2.rs b/tskv/src/index/engine2.rs
index a73ad74..fb1886e 100644
--- a/tskv/src/index/engine2.rs
+++ b/tskv/src/index/engine2.rs
@@ -141,6 +141,19 @@ impl IndexEngine2 {
         Ok(())
     }
 
+    pub fn clear(&self) -> IndexResult<()> {
+        let mut writer = self.writer_txn()?;
+        self.db
+            .clear(&mut writer)
+            .map_err(|e| IndexStorageSnafu { msg: e.to_string() }.build())?;
+
+        writer
+            .commit()
+            .map_err(|e| IndexStorageSnafu { msg: e.to_string() }.build())?;
+
+        Ok(())
+    }
+
     pub fn exist(&self, key: &[u8]) -> IndexResult<bool> {
         if let Some(_v) = self.get(key)? {
             Ok(true)
diff --git a/tskv/src/index/ts_index.rs b/tskv/src/index/ts_index.rs
index d37e827..26e1444 100644
--- a/tskv/src/index/ts_index.rs
+++ b/tskv/src/index/ts_index.rs
@@ -127,6 +127,15 @@ impl TSIndex {
         Ok(Arc::new(RwLock::new(ts_index)))
     }
 
+    /// Forgets all series.
+    pub fn clear(&mut self) -> IndexResult<()> {
+        self.storage.clear()?;
+        self.incr_id.store(0, Ordering::Relaxed);
+        self.write_count.store(0, Ordering::Relaxed);
+        self.cache.clear();
+        Ok(())
+    }
+
     pub async fn add_series_for_rebuild(
         &mut self,
         id: SeriesId,
diff --git a/tskv/src/tsfamily/tseries_family.rs b/tskv/src/tsfamily/tseries_family.rs
index 2307cfd..5cbd611 100644
--- a/tskv/src/tsfamily/tseries_family.rs
+++ b/tskv/src/tsfamily/tseries_family.rs
@@ -303,18 +303,9 @@ impl TseriesFamily {
         Ok(file_metas)
     }
 
-    pub async fn rebuild_index(&self) -> TskvResult<Arc<tokio::sync::RwLock<TSIndex>>> {
-        let path = self
-            .ctx
-            .options
-            .storage
-            .index_dir(self.owner.as_str(), self.tf_id);
-        let _ = std::fs::remove_dir_all(path.clone());
-
-        let capacity = self.ctx.options.storage.index_cache_capacity;
-        let index = TSIndex::new(path, capacity).await.context(IndexErrSnafu)?;
-        let index_clone = index.clone();
-        let mut index_w = index_clone.write().await;
+    /// Adds all series of the ts_family to an index.
+    pub async fn rebuild_index(&self, index: Arc<tokio::sync::RwLock<TSIndex>>) -> TskvResult<()> {
+        let mut index_w = index.write().await;
 
         // cache index
         let mut series_data = self.mut_cache.read().read_all_series_data();
@@ -344,7 +335,7 @@ impl TseriesFamily {
 
         index_w.flush().await.context(IndexErrSnafu)?;
 
-        Ok(index)
+        Ok(())
     }
 
     pub fn tf_id(&self) -> VnodeId {
diff --git a/tskv/src/vnode_store.rs b/tskv/src/vnode_store.rs
index 58e928e..04eb6aa 100644
--- a/tskv/src/vnode_store.rs
+++ b/tskv/src/vnode_store.rs
@@ -205,9 +205,18 @@ impl VnodeStorage {
         // clear all snapshot
         self.snapshots = vec![];
 
+        // A flush or compaction in progress would put its files into the new data.
+        let _compaction_guard = self.compaction_lock.lock().await;
+        let _guard = self.data_lock.write().await;
+
         // delete already exist data
         let mut db_wlock = self.db.write().await;
-        db_wlock.del_tsfamily_index(self.id);
+        self.ts_index
+            .write()
+            .await
+            .clear()
+            .context(IndexErrSnafu)?;
+        db_wlock.del_tsfamily(self.id);
 
         // reopen new summary file
         let summary_file = file_utils::make_tsfamily_summary_file(
@@ -227,10 +236,19 @@ impl VnodeStorage {
             .add_tsfamily(version_edit, shapshot_dir, self.summary.clone())
             .await?;
 
-        let ts_index = db_wlock.rebuild_tsfamily_index(ts_family.clone()).await?;
+        ts_family
+            .read()
+            .await
+            .rebuild_index(self.ts_index.clone())
+            .await?;
 
-        self.ts_index = ts_index;
-        self.ts_family = ts_family;
+        // All clones of this storage share the index and the ts_family: they go on with the
+        // new data.
+        std::mem::swap(
+            &mut *self.ts_family.write().await,
+            &mut *ts_family.write().await,
+        );
+        db_wlock.replace_tsfamily(self.id, self.ts_family.clone());
 
         Ok(())
     }
-- 
2.43.0


From ff5416fe76d012c0d6e96b217e4a6f6a14c1a98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 45/62] fix: nodes that create raft groups at a time do not
 wait for each other

---
 coordinator/src/raft/manager.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/coordinator/src/raft/manager.rs b/coordinator/src/raft/manager.rs
index 4f96c21..a242e61 100644
--- a/coordinator/src/raft/manager.rs
+++ b/coordinator/src/raft/manager.rs
@@ -17,7 +17,7 @@ use replication::state_store::{RaftNodeSummary, StateStorage};
 use replication::{ApplyStorageRef, EntryStorageRef, RaftNodeId, RaftNodeInfo, ReplicationConfig};
 use snafu::ResultExt;
 use tokio::runtime::Runtime;
-use tokio::sync::RwLock;
+use tokio::sync::{Mutex, RwLock};
 use tracing::info;
 use tskv::wal::wal_store::RaftEntryStorage;
 use tskv::{wal, EngineRef};
@@ -36,6 +36,9 @@ pub struct RaftNodesManager {
     kv_inst: Option<EngineRef>,
     raft_state: Arc<StateStorage>,
     raft_nodes: Arc<RwLock<MultiRaft>>,
+    /// Held while this node creates a raft group. `raft_nodes` must not be locked meanwhile:
+    /// two nodes that create groups at a time open raft nodes of each other.
+    build_lock: Mutex<()>,
 
     register: Arc<MetricsRegister>,
 }
@@ -58,6 +61,7 @@ impl RaftNodesManager {
             register,
             raft_state: Arc::new(state),
             raft_nodes: Arc::new(RwLock::new(MultiRaft::new())),
+            build_lock: Mutex::new(()),
         }
     }
 
@@ -236,8 +240,13 @@ impl RaftNodesManager {
             .build());
         }
 
-        let mut nodes = self.raft_nodes.write().await;
-        let opened = nodes.get_node(replica.id).context(ReplicationSnafu)?;
+        let _build_guard = self.build_lock.lock().await;
+        let opened = self
+            .raft_nodes
+            .read()
+            .await
+            .get_node(replica.id)
+            .context(ReplicationSnafu)?;
         if let Some(node) = &opened {
             if self.is_usable(node, replica).await? {
                 return Ok(node.clone());
@@ -290,7 +299,10 @@ impl RaftNodesManager {
             raft_node.group_id(),
             raft_node.raft_id(),
         );
-        nodes.add_node(raft_node.clone(), metrics);
+        self.raft_nodes
+            .write()
+            .await
+            .add_node(raft_node.clone(), metrics);
 
         Ok(raft_node)
     }
-- 
2.43.0


From 602d1d5073fd87601998e1f3c325221d24d1297e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:49 +0000
Subject: [PATCH 46/62] fix: a snapshot has the tombstones its files had when
 it was created

---
 coordinator/src/raft/mod.rs |  9 ---------
 tskv/src/lib.rs             |  3 +++
 tskv/src/vnode_store.rs     | 38 +++++++++++++++++++++++++++++++------
 3 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/coordinator/src/raft/mod.rs b/coordinator/src/raft/mod.rs
index 225fc16..c2a9ce6 100644
--- a/coordinator/src/raft/mod.rs
+++ b/coordinator/src/raft/mod.rs
@@ -125,15 +125,6 @@ impl TskvEngineStorage {
                 }
                 .build());
             }
-
-            // Rows deleted after their flush are only marked so in the tombstone of the file.
-            let tombstone = info.relative_tombstone_path();
-            let src_filename = src_dir.join(&tombstone).to_string_lossy().to_string();
-            let filename = dir.join(&tombstone);
-            Self::download_file(&src_filename, &filename, client).await?;
-            if LocalFileSystem::get_file_length(filename.to_string_lossy().to_string()) == 0 {
-                tokio::fs::remove_file(&filename).await.context(IoSnafu)?;
-            }
         }
 
         Ok(())
diff --git a/tskv/src/lib.rs b/tskv/src/lib.rs
index cffe4f6..649f86d 100644
--- a/tskv/src/lib.rs
+++ b/tskv/src/lib.rs
@@ -151,6 +151,9 @@ pub struct VnodeSnapshot {
     pub last_seq_no: u64,
     pub create_time: String,
     pub version_edit: VersionEdit,
+    /// The tombstones that the files of `version_edit` had when the snapshot was created. (A
+    /// later compaction may mark rows of a file deleted that it moves to a file of its own.)
+    pub tombstones: Vec<(ColumnFileId, Vec<u8>)>,
 
     //filed version using Option just for compat Serialize, Deserialize
     #[serde(skip_serializing, skip_deserializing)]
diff --git a/tskv/src/vnode_store.rs b/tskv/src/vnode_store.rs
index 04eb6aa..86109dd 100644
--- a/tskv/src/vnode_store.rs
+++ b/tskv/src/vnode_store.rs
@@ -18,7 +18,11 @@ use utils::precision::Precision;
 use crate::compaction::job::FlushJob;
 use crate::compaction::FlushReq;
 use crate::database::Database;
-use crate::error::{IndexErrSnafu, InvalidParamSnafu, InvalidPointTableSnafu, TskvResult};
+use crate::error::{
+    IOSnafu, IndexErrSnafu, InvalidParamSnafu, InvalidPointTableSnafu, TskvResult,
+};
+use crate::file_system::async_filesystem::LocalFileSystem;
+use crate::file_system::FileSystem;
 use crate::index::ts_index::TSIndex;
 use crate::schema::error::{FieldNotFoundSnafu, TableNotFoundSnafu};
 use crate::tsfamily::summary::Summary;
@@ -164,12 +168,24 @@ impl VnodeStorage {
     pub async fn create_snapshot(&mut self) -> TskvResult<VnodeSnapshot> {
         debug!("Snapshot: create snapshot on vnode: {}", self.id);
 
-        let (snapshot_version, snapshot_ve) = {
-            let ts_family_w = self.ts_family.write().await;
+        let (snapshot_version, snapshot_ve, tombstones) = {
+            // Neither a delete nor a compaction changes the tombstones of the version meanwhile.
+            let _guard = self.data_lock.read().await;
+            let _summary = self.summary.read().await;
 
-            let version = ts_family_w.version();
-            let ve = ts_family_w.build_version_edit();
-            (version, ve)
+            let (version, ve) = {
+                let ts_family = self.ts_family.read().await;
+                (ts_family.version(), ts_family.build_version_edit())
+            };
+            let mut tombstones = vec![];
+            for file in version.levels_info().iter().flat_map(|l| l.files.iter()) {
+                let path = file.tombstone_path();
+                if LocalFileSystem::try_exists(&path) {
+                    let data = tokio::fs::read(&path).await.context(IOSnafu)?;
+                    tombstones.push((file.file_id(), data));
+                }
+            }
+            (version, ve, tombstones)
         };
 
         let last_seq_no = snapshot_version.last_seq();
@@ -178,6 +194,7 @@ impl VnodeStorage {
             vnode_id: self.id,
             node_id: self.ctx.options.storage.node_id,
             version_edit: snapshot_ve,
+            tombstones,
             version: Some(snapshot_version),
             create_time: chrono::Local::now().format("%Y%m%d_%H%M%S_%3f").to_string(),
             active_time: 0,
@@ -229,6 +246,15 @@ impl VnodeStorage {
         let summary = Summary::new(self.id, self.ctx.clone(), summary_file).await?;
         *self.summary.write().await = summary;
 
+        // The files are moved together with their tombstones.
+        for (file_id, data) in snapshot.tombstones.iter() {
+            let files = &snapshot.version_edit.add_files;
+            if let Some(meta) = files.iter().find(|f| f.file_id == *file_id) {
+                let path = shapshot_dir.join(meta.relative_tombstone_path());
+                tokio::fs::write(path, data).await.context(IOSnafu)?;
+            }
+        }
+
         // apply data and reopen
         let mut version_edit = snapshot.version_edit.clone();
         version_edit.update_vnode_id(self.id);
-- 
2.43.0


From 2f003d96b8ae3b28a4b01c3dd5f120a0b5d29b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:38 +0000
Subject: [PATCH 47/62] fix: give a new role the same id on every meta replica

The command that creates a role is applied by each replica of the meta
service, and each of them drew a random id for the role.
---
 meta/src/store/storage.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/meta/src/store/storage.rs b/meta/src/store/storage.rs
index fe1f3ac..60e6f0b 100644
--- a/meta/src/store/storage.rs
+++ b/meta/src/store/storage.rs
@@ -8,7 +8,7 @@ use models::auth::privilege::DatabasePrivilege;
 use models::auth::role::{CustomTenantRole, SystemTenantRole, TenantRoleIdentifier};
 use models::auth::user::{UserDesc, UserOptions};
 use models::meta_data::*;
-use models::oid::{Identifier, Oid, UuidGenerator};
+use models::oid::{Identifier, Oid};
 use models::schema::database_schema::DatabaseSchema;
 use models::schema::query_info::QueryInfo;
 use models::schema::resource_info::ResourceInfo;
@@ -1530,7 +1530,8 @@ impl StateMachine {
             });
         }
 
-        let oid = UuidGenerator::default().next_id();
+        // the command is applied by every replica, they have to pick the same id
+        let oid = Oid::from(self.version()? + 1);
         let role = CustomTenantRole::new(
             oid,
             role_name.to_string(),
-- 
2.43.0


From 2d7571fabe09b6518e8084ea35e465524e5d2139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:55 +0000
Subject: [PATCH 48/62] fix: place new vnodes on the same nodes on every meta
 replica

Data nodes with the same free space were ordered by the iteration order of
a hash map, so the replicas of the meta service chose different nodes for
the same bucket.
---
 meta/src/store/storage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meta/src/store/storage.rs b/meta/src/store/storage.rs
index 60e6f0b..35baa74 100644
--- a/meta/src/store/storage.rs
+++ b/meta/src/store/storage.rs
@@ -1174,7 +1174,8 @@ impl StateMachine {
             .filter(|(_, m)| m.is_healthy())
             .collect::<Vec<_>>();
 
-        node_info_list.sort_by_key(|(_, m)| Reverse(m.disk_free));
+        // in the same order on every replica, also when the free space is the same
+        node_info_list.sort_by_key(|(n, m)| (Reverse(m.disk_free), n.id));
         Ok(node_info_list.into_iter().map(|(n, _)| n).collect())
     }
 
-- 
2.43.0


From 66bb413845e40c58b2e5858cb623f97b1a84c97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:37 +0000
Subject: [PATCH 49/62] fix: refuse to update the schema of a table that does
 not exist

A schema change that arrived after the table, or its database, had been
dropped inserted the table again.
---
 meta/src/store/storage.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/meta/src/store/storage.rs b/meta/src/store/storage.rs
index 35baa74..8d8a7df 100644
--- a/meta/src/store/storage.rs
+++ b/meta/src/store/storage.rs
@@ -1136,21 +1136,24 @@ impl StateMachine {
         schema: &TableSchema,
     ) -> MetaResult<()> {
         let key = KeyPath::tenant_schema_name(cluster, tenant, schema.db(), schema.name());
-        if let Some(val) = self.get_struct::<TableSchema>(&key)? {
-            match (val, schema) {
-                (TableSchema::TsKvTableSchema(val), TableSchema::TsKvTableSchema(schema)) => {
-                    if val.schema_version + 1 != schema.schema_version {
-                        return Err(MetaError::UpdateTableConflict {
-                            name: schema.name.clone(),
-                        });
-                    }
-                }
-                _ => {
-                    return Err(MetaError::NotSupport {
-                        msg: "update external table".to_string(),
+        let old = self
+            .get_struct::<TableSchema>(&key)?
+            .ok_or_else(|| MetaError::TableNotFound {
+                table: schema.name().to_string(),
+            })?;
+        match (old, schema) {
+            (TableSchema::TsKvTableSchema(val), TableSchema::TsKvTableSchema(schema)) => {
+                if val.schema_version + 1 != schema.schema_version {
+                    return Err(MetaError::UpdateTableConflict {
+                        name: schema.name.clone(),
                     });
                 }
             }
+            _ => {
+                return Err(MetaError::NotSupport {
+                    msg: "update external table".to_string(),
+                });
+            }
         }
 
         self.insert(&key, &value_encode(schema)?)?;
-- 
2.43.0


From d0e4982cd790c7f4d31551d9bf08dfbbb9bd09ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:37 +0000
Subject: [PATCH 50/62] fix: remove the memberships of a user that is dropped

The key of the membership was built from the name of the tenant in place
of the name of the cluster, so nothing was removed.
---
 meta/src/store/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/src/store/storage.rs b/meta/src/store/storage.rs
index 8d8a7df..99f6491 100644
--- a/meta/src/store/storage.rs
+++ b/meta/src/store/storage.rs
@@ -1314,7 +1314,7 @@ impl StateMachine {
         if let Some(user) = self.get_struct::<UserDesc>(&user_key)? {
             // first delete member of tenant
             for tenant in self.children_data::<Tenant>(&tenants_key)?.into_values() {
-                let member_key = KeyPath::member(tenant.name(), tenant.name(), user.id());
+                let member_key = KeyPath::member(cluster, tenant.name(), user.id());
                 self.remove(&member_key)?;
             }
             self.remove(&user_key)?;
-- 
2.43.0


From 89bae7c5389d697e259d64a7726be90bc49b6865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:05 +0000
Subject: [PATCH 51/62] fix: drop the databases of a tenant with the tenant

A database that was still there (created while the tenant was being
dropped) stayed behind and belonged to the next tenant of that name.
---
 meta/src/store/storage.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/meta/src/store/storage.rs b/meta/src/store/storage.rs
index 99f6491..6cfb7b3 100644
--- a/meta/src/store/storage.rs
+++ b/meta/src/store/storage.rs
@@ -1441,6 +1441,13 @@ impl StateMachine {
             self.process_drop_role(cluster, role.name(), name)?;
         }
 
+        // drop what is left of the databases of the tenant
+        for db_key in self.children_fullpath(&KeyPath::tenant_dbs(cluster, name))? {
+            if let Some(schema) = self.get_struct::<DatabaseSchema>(&db_key)? {
+                self.process_drop_db(cluster, name, schema.database_name())?;
+            }
+        }
+
         // drop tenant meta
         let key = KeyPath::tenant(cluster, name);
         let limiter_key = KeyPath::limiter(cluster, name);
-- 
2.43.0


From 814bf1e55265c4dce53d6e7f7418867bba93e31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:27 +0000
Subject: [PATCH 52/62] fix: let nothing expire in a database without a ttl

The infinite ttl was subtracted from the current time as i64::MAX, which
made buckets from before 1732 expired: writes to them were refused.
---
 common/models/src/schema/database_schema.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/models/src/schema/database_schema.rs b/common/models/src/schema/database_schema.rs
index 3a1ffcd..1339e4c 100644
--- a/common/models/src/schema/database_schema.rs
+++ b/common/models/src/schema/database_schema.rs
@@ -81,7 +81,11 @@ impl DatabaseSchema {
                 crate::utils::now_timestamp_nanos(),
             ),
         };
-        now - ttl
+        // an infinite ttl keeps everything
+        if ttl == i64::MAX {
+            return i64::MIN;
+        }
+        now.saturating_sub(ttl)
     }
 
     pub fn set_db_is_hidden(&mut self, is_hidden: bool) {
-- 
2.43.0


From a98aac4c2190c2a217119818413c8cc9e451ebe6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:19:17 +0000
Subject: [PATCH 53/62] fix: refuse to place a shard while there is no node

---
 meta/src/store/storage.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meta/src/store/storage.rs b/meta/src/store/storage.rs
index 6cfb7b3..2179d72 100644
--- a/meta/src/store/storage.rs
+++ b/meta/src/store/storage.rs
@@ -1710,6 +1710,8 @@ async fn ping_servers(list: &[NodeInfo]) -> Vec<NodeInfo> {
 }
 
 fn check_node_enough(need: u64, node_list: &[NodeInfo]) -> MetaResult<()> {
+    // a shard has a vnode even when no replica is asked for
+    let need = need.max(1);
     if need > node_list.len() as u64 {
         return Err(MetaError::ValidNodeNotEnough {
             need,
-- 
2.43.0


From c7bdd50bb47e569ca513cf61d01055d25d92fe91 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:37:37 +0000
Subject: [PATCH 54/62] fix: tell the watchers of a tenant that the tenant
 itself changed

---
 meta/src/store/command.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/meta/src/store/command.rs b/meta/src/store/command.rs
index fc25f74..ff9238f 100644
--- a/meta/src/store/command.rs
+++ b/meta/src/store/command.rs
@@ -419,10 +419,10 @@ impl Watch {
 
             let prefix = KeyPath::tenants(cluster);
             if let Some(sub_str) = entry.key.strip_prefix(&prefix) {
-                if let Some((tenant, _)) = sub_str.split_once('/') {
-                    if tenants.contains(tenant) {
-                        return true;
-                    }
+                // the key of the tenant itself has nothing after the name
+                let tenant = sub_str.split('/').next().unwrap_or_default();
+                if tenants.contains(tenant) {
+                    return true;
                 }
             }
 
-- 
2.43.0


From b951a538eb62234292ffafaf616ee292d8e7b050 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:38:30 +0000
Subject: [PATCH 55/62] fix: watchers resynchronise after the metadata server
 has restored a snapshot

---
 meta/src/store/command.rs | 12 ++++++++++++
 meta/src/store/storage.rs |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/meta/src/store/command.rs b/meta/src/store/command.rs
index ff9238f..f2f651b 100644
--- a/meta/src/store/command.rs
+++ b/meta/src/store/command.rs
@@ -275,6 +275,11 @@ impl CircleBuf {
         }
     }
 
+    pub fn clear(&mut self) {
+        self.writer = 0;
+        self.count = 0;
+    }
+
     pub fn is_empty(&self) -> bool {
         if self.count == 0 {
             return true;
@@ -374,6 +379,13 @@ impl Watch {
         let _ = self.sender.send(());
     }
 
+    // the changes that led to the current state are not known
+    pub fn reset(&self) {
+        self.logs.write().clear();
+
+        let _ = self.sender.send(());
+    }
+
     pub fn subscribe(&self) -> broadcast::Receiver<()> {
         self.sender.subscribe()
     }
diff --git a/meta/src/store/storage.rs b/meta/src/store/storage.rs
index 2179d72..8e27bd4 100644
--- a/meta/src/store/storage.rs
+++ b/meta/src/store/storage.rs
@@ -102,6 +102,8 @@ impl ApplyStorage for StateMachine {
         }
         writer.commit().context(HeedSnafu)?;
 
+        self.watch.reset();
+
         Ok(())
     }
 
-- 
2.43.0


From e1d9c4ffec166e8efa0d6f5c5faf8c8f5b1d2773 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:48:31 +0000
Subject: [PATCH 56/62] fix: a node that begins to use a tenant does not miss
 the changes made meanwhile

---
 meta/src/model/meta_admin.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/meta/src/model/meta_admin.rs b/meta/src/model/meta_admin.rs
index c5d4475..48aea63 100644
--- a/meta/src/model/meta_admin.rs
+++ b/meta/src/model/meta_admin.rs
@@ -307,12 +307,14 @@ impl AdminMeta {
             if let Some(info) = receiver.recv().await {
                 if let Some(handle) = task_handle {
                     handle.abort();
+                    // it must not store a later version any more
+                    let _ = handle.await;
                 }
 
-                let base_ver = admin
+                // the changes since the tenant was read may have passed by already
+                admin
                     .watch_version
                     .fetch_min(info.version, Ordering::Relaxed);
-                admin.watch_version.store(base_ver, Ordering::Relaxed);
 
                 let mut tenants = admin.watch_tenants.write();
                 if info.name.is_empty() {
-- 
2.43.0


From 97189105831b5c4b6f6b11fa811ea180475cbe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:41 +0000
Subject: [PATCH 57/62] fix: a delete narrows by all of its comparisons,
 however they are nested

---
 common/models/src/predicate/transformation.rs | 83 ++++---------------
 1 file changed, 17 insertions(+), 66 deletions(-)

diff --git a/common/models/src/predicate/transformation.rs b/common/models/src/predicate/transformation.rs
index 5a47d64..8f94144 100644
--- a/common/models/src/predicate/transformation.rs
+++ b/common/models/src/predicate/transformation.rs
@@ -350,67 +350,26 @@ impl RowExpressionToDomainsVisitor<'_> {
     }
 }
 
+/// All comparisons of a DELETE are connected by AND, so that each of them narrows
+/// the domains of the tags or of the time, whatever the nesting of the expression is.
 #[derive(Clone, Default)]
 struct DeleteSelectionExpressionToDomainsVisitorContext {
-    is_time_domain_stack: VecDeque<bool>,
-    tag_domain_stack: VecDeque<ColumnDomains<String>>,
-    time_domain_stack: VecDeque<ColumnDomains<String>>,
+    tag_domains: ColumnDomains<String>,
+    time_domains: ColumnDomains<String>,
 }
 
 impl DeleteSelectionExpressionToDomainsVisitorContext {
-    pub fn push_back(&mut self, domain: ColumnDomains<String>, is_time_domain: bool) {
-        self.is_time_domain_stack.push_back(is_time_domain);
+    pub fn intersect(&mut self, domain: &ColumnDomains<String>, is_time_domain: bool) {
         if is_time_domain {
-            trace::trace!("push time {domain}");
-            self.time_domain_stack.push_back(domain);
+            self.time_domains.intersect(domain);
         } else {
-            trace::trace!("push tag {domain}");
-            self.tag_domain_stack.push_back(domain);
-        }
-    }
-
-    pub fn try_intersect_top2_domains(&mut self) {
-        let domain1_is_time_opt = self.is_time_domain_stack.pop_back();
-        let domain2_is_time_opt = self.is_time_domain_stack.back();
-        match (domain1_is_time_opt, domain2_is_time_opt) {
-            (Some(domain1_is_time), Some(domain2_is_time)) => {
-                if domain1_is_time == *domain2_is_time {
-                    if domain1_is_time {
-                        // Last two is tag domains
-                        let mut domains1 = self.time_domain_stack.pop_back().unwrap();
-                        println!("pop time {domains1}");
-                        let domains2 = self.time_domain_stack.pop_back().unwrap();
-                        println!("pop time {domains2}");
-                        domains1.intersect(&domains2);
-                        println!("push time {domains1}");
-                        self.time_domain_stack.push_back(domains1);
-                    } else {
-                        // Last two is tag domains
-                        let mut domains1 = self.tag_domain_stack.pop_back().unwrap();
-                        println!("pop time {domains1}");
-                        let domains2 = self.tag_domain_stack.pop_back().unwrap();
-                        println!("pop time {domains2}");
-                        domains1.intersect(&domains2);
-                        println!("push tag {domains1}");
-                        self.tag_domain_stack.push_back(domains1);
-                    }
-                }
-            }
-            (Some(t1), None) => self.is_time_domain_stack.push_back(t1),
-            _ => {}
+            self.tag_domains.intersect(domain);
         }
     }
 
     /// Returns two column domains: tag and time.
-    pub fn into_tag_and_time_domains(mut self) -> (ColumnDomains<String>, ColumnDomains<String>) {
-        (
-            self.tag_domain_stack
-                .pop_back()
-                .unwrap_or(ColumnDomains::all()),
-            self.time_domain_stack
-                .pop_back()
-                .unwrap_or(ColumnDomains::all()),
-        )
+    pub fn into_tag_and_time_domains(self) -> (ColumnDomains<String>, ColumnDomains<String>) {
+        (self.tag_domains, self.time_domains)
     }
 }
 
@@ -467,7 +426,7 @@ impl TreeNodeVisitor for DeleteSelectionExpressionToDomainsVisitor<'_> {
             e @ Expr::BinaryExpr(BinaryExpr { left, op, right }) => {
                 trace::trace!("post visit binary expr: {e}");
                 match op {
-                    // The stack is expression, clean and generate a new domain
+                    // Narrow the domains by the comparison
                     Operator::Eq
                     | Operator::NotEq
                     | Operator::Lt
@@ -476,16 +435,12 @@ impl TreeNodeVisitor for DeleteSelectionExpressionToDomainsVisitor<'_> {
                     | Operator::GtEq => match (left.as_ref(), right.as_ref()) {
                         (Expr::Column(_), Expr::Literal(_))
                         | (Expr::Literal(_), Expr::Column(_)) => {
-                            Self::construct_value_set_and_push_domain_stack(
-                                self.ctx, left, op, right,
-                            );
+                            Self::construct_value_set_and_intersect(self.ctx, left, op, right);
                         }
                         (Expr::Literal(_), Expr::Cast(expr))
                         | (Expr::Cast(expr), Expr::Literal(_)) => {
                             if let Expr::Column(_) = *expr.expr {
-                                Self::construct_value_set_and_push_domain_stack(
-                                    self.ctx, left, op, right,
-                                );
+                                Self::construct_value_set_and_intersect(self.ctx, left, op, right);
                             } else {
                                 return Err(DataFusionError::NotImplemented(format!(
                                     "{left} {op} {right} in delete statement"
@@ -498,10 +453,8 @@ impl TreeNodeVisitor for DeleteSelectionExpressionToDomainsVisitor<'_> {
                             )))
                         }
                     },
-                    // The stack is domain, pop it, and generate a new domain
-                    Operator::And => {
-                        self.ctx.try_intersect_top2_domains();
-                    }
+                    // Both sides have been taken into account already
+                    Operator::And => {}
                     _ => {
                         return Err(DataFusionError::NotImplemented(format!(
                             "{expr} in delete statement"
@@ -565,8 +518,8 @@ impl DeleteSelectionExpressionToDomainsVisitor<'_> {
     ///
     /// Convert nsc to ValueSet via NscToValueSet function
     ///
-    /// Push the domain into the stack
-    fn construct_value_set_and_push_domain_stack(
+    /// Intersect the domains so far with it
+    fn construct_value_set_and_intersect(
         ctx: &mut DeleteSelectionExpressionToDomainsVisitorContext,
         left: &Expr,
         op: &Operator,
@@ -578,9 +531,7 @@ impl DeleteSelectionExpressionToDomainsVisitor<'_> {
             } else {
                 Self::nsc_to_domains_with_equtable(&nsc)
             };
-            ctx.push_back(domains, nsc.column.name == TIME_FIELD_NAME);
-        } else {
-            println!("push nothing!");
+            ctx.intersect(&domains, nsc.column.name == TIME_FIELD_NAME);
         }
     }
 }
-- 
2.43.0


From 018bc736a3cba97b666469471dc7a3b6b5b4ba7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:41 +0000
Subject: [PATCH 58/62] fix: ranges that share a bound intersect and unite by
 whether it is included

---
 common/models/src/predicate/domain.rs | 38 ++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/common/models/src/predicate/domain.rs b/common/models/src/predicate/domain.rs
index 1b77b13..385745c 100644
--- a/common/models/src/predicate/domain.rs
+++ b/common/models/src/predicate/domain.rs
@@ -421,7 +421,7 @@ impl Display for TimeRanges {
     }
 }
 
-#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
+#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, PartialOrd, Ord)]
 enum Bound {
     /// lower than the value, but infinitesimally close to the value.
     Below,
@@ -529,6 +529,26 @@ impl<'a> From<&'a Marker> for std::ops::Bound<&'a ScalarValue> {
 }
 
 impl Marker {
+    /// Like `cmp`, but of the markers at one value the one below comes first.
+    fn cmp_with_bound(&self, other: &Self) -> Ordering {
+        self.cmp(other)
+            .then_with(|| self.bound.cmp(&other.bound))
+    }
+
+    fn min_with_bound<'a>(&'a self, other: &'a Self) -> &'a Self {
+        match self.cmp_with_bound(other) {
+            Ordering::Greater => other,
+            _ => self,
+        }
+    }
+
+    fn max_with_bound<'a>(&'a self, other: &'a Self) -> &'a Self {
+        match self.cmp_with_bound(other) {
+            Ordering::Less => other,
+            _ => self,
+        }
+    }
+
     /// Infinitely (greater than a nonexistent number).
     fn lower_unbound(data_type: DataType) -> Marker {
         Self {
@@ -897,6 +917,10 @@ impl Range {
         }
         Ok(false)
     }
+    /// Whether no value lies in the range, like (2, 2] or [2, 2).
+    fn is_empty(&self) -> bool {
+        self.low.cmp_with_bound(&self.high) == Ordering::Greater
+    }
     /// Calculates the intersection of two ranges.
     ///
     /// return an exception, if there is no intersection.
@@ -904,8 +928,8 @@ impl Range {
         // Type mismatch directly returns an exception
         if self.overlaps(other)? {
             // There is overlap, calculate the intersection
-            let low = cmp::max(&self.low, &other.low);
-            let high = cmp::min(&self.high, &other.high);
+            let low = Marker::max_with_bound(&self.low, &other.low);
+            let high = Marker::min_with_bound(&self.high, &other.high);
 
             return Ok(Self {
                 low: low.clone(),
@@ -928,8 +952,8 @@ impl Range {
         //Type mismatch directly returns an exception
         if self.overlaps(other)? {
             // There is overlap, calculate the intersection
-            let low = cmp::min(&self.low, &other.low);
-            let high = cmp::max(&self.high, &other.high);
+            let low = Marker::min_with_bound(&self.low, &other.low);
+            let high = Marker::max_with_bound(&self.high, &other.high);
 
             return Ok(Self {
                 low: low.clone(),
@@ -1256,7 +1280,9 @@ impl Domain {
                 loop {
                     if first_current_range.overlaps(&other_current_range)? {
                         let range = first_current_range.intersect(&other_current_range)?;
-                        result.push(range);
+                        if !range.is_empty() {
+                            result.push(range);
+                        }
                     }
 
                     match first_current_range.high.cmp(&other_current_range.high) {
-- 
2.43.0


From 85274f555678e7cdfbea2298f1f52ead993a5075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:41 +0000
Subject: [PATCH 59/62] fix: a delete in a coarser precision leaves the rows
 just outside its bounds

---
 common/models/src/predicate/utils.rs          | 16 +++++++++++
 .../src/execution/dml/delete_from_table.rs    | 28 ++++---------------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/common/models/src/predicate/utils.rs b/common/models/src/predicate/utils.rs
index f5b805c..d1c60e0 100644
--- a/common/models/src/predicate/utils.rs
+++ b/common/models/src/predicate/utils.rs
@@ -2,11 +2,27 @@ use std::ops::{Bound, RangeBounds};
 
 use datafusion::arrow::datatypes::DataType as ArrowDataType;
 use datafusion::scalar::ScalarValue;
+use utils::precision::{timestamp_convert, Precision};
 
 use super::domain::{ColumnDomains, TimeRange};
 use crate::predicate::domain::{Domain, Range, ValueEntry};
 use crate::schema::TIME_FIELD_NAME;
 
+/// The times of a coarser precision that lie in a range of nanoseconds: a bound between two
+/// of them is moved inwards. Returns None if there is no such time.
+pub fn time_range_to_precision(range: &TimeRange, precision: Precision) -> Option<TimeRange> {
+    let convert = |ts| timestamp_convert(Precision::NS, precision, ts);
+    let back = |ts| timestamp_convert(precision, Precision::NS, ts);
+    let (mut min_ts, mut max_ts) = (convert(range.min_ts)?, convert(range.max_ts)?);
+    if back(min_ts)? < range.min_ts {
+        min_ts += 1;
+    }
+    if back(max_ts)? > range.max_ts {
+        max_ts -= 1;
+    }
+    (min_ts <= max_ts).then(|| TimeRange::new(min_ts, max_ts))
+}
+
 pub fn filter_to_time_ranges(time_domain: &ColumnDomains<String>) -> Vec<TimeRange> {
     if time_domain.is_none() {
         // Does not contain any data, and returns an empty array directly
diff --git a/query_server/query/src/execution/dml/delete_from_table.rs b/query_server/query/src/execution/dml/delete_from_table.rs
index d19ffc1..5799d39 100644
--- a/query_server/query/src/execution/dml/delete_from_table.rs
+++ b/query_server/query/src/execution/dml/delete_from_table.rs
@@ -4,12 +4,11 @@ use async_trait::async_trait;
 use meta::error::{DatabaseNotFoundSnafu, TenantNotFoundSnafu};
 use models::predicate::domain::{ColumnDomains, ResolvedPredicate, TimeRanges};
 use models::predicate::transformation::DeleteSelectionExpressionToDomainsVisitor;
-use models::predicate::utils::filter_to_time_ranges;
+use models::predicate::utils::{filter_to_time_ranges, time_range_to_precision};
 use snafu::ResultExt;
 use spi::query::execution::{Output, QueryStateMachineRef};
 use spi::query::logical_planner::DeleteFromTable;
-use spi::{CoordinatorSnafu, InvalidParamSnafu, MetaSnafu, ModelsSnafu, QueryResult};
-use utils::precision::{timestamp_convert, Precision};
+use spi::{CoordinatorSnafu, MetaSnafu, ModelsSnafu, QueryResult};
 
 use super::DMLDefinitionTask;
 
@@ -56,25 +55,10 @@ impl DMLDefinitionTask for DeleteFromTableTask {
         let (tags_filter, time_ranges) = if let Some(expr) = selection {
             let (tag, time) =
                 DeleteSelectionExpressionToDomainsVisitor::expr_to_tag_and_time_domains(expr)?;
-            let mut time_ranges = filter_to_time_ranges(&time);
-            for range in time_ranges.iter_mut() {
-                let min =
-                    timestamp_convert(Precision::NS, precision, range.min_ts).ok_or_else(|| {
-                        InvalidParamSnafu {
-                            reason: "Invalid timestamp".to_string(),
-                        }
-                        .build()
-                    })?;
-                let max =
-                    timestamp_convert(Precision::NS, precision, range.max_ts).ok_or_else(|| {
-                        InvalidParamSnafu {
-                            reason: "Invalid timestamp".to_string(),
-                        }
-                        .build()
-                    })?;
-                range.max_ts = max;
-                range.min_ts = min;
-            }
+            let time_ranges = filter_to_time_ranges(&time)
+                .iter()
+                .filter_map(|range| time_range_to_precision(range, precision))
+                .collect();
             (tag, TimeRanges::new(time_ranges))
         } else {
             (ColumnDomains::all(), TimeRanges::all())
-- 
2.43.0


From c221c3f097e8b9f2c5873fd72aaf2e1d003c772e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:54 +0000
Subject: [PATCH 60/62] fix: a log file that was truncated is not read from
 what was buffered of it

---
 tskv/src/record_file/reader.rs | 6 ++++++
 tskv/src/wal/reader.rs         | 5 +++++
 tskv/src/wal/wal_store.rs      | 1 +
 3 files changed, 12 insertions(+)

diff --git a/tskv/src/record_file/reader.rs b/tskv/src/record_file/reader.rs
index 7450a94..18ee85c 100644
--- a/tskv/src/record_file/reader.rs
+++ b/tskv/src/record_file/reader.rs
@@ -337,6 +337,12 @@ impl Reader {
         Ok(&self.buf[self.buf_use..right_bound])
     }
 
+    /// Forget what was read of the file, it may have been truncated and written again.
+    pub fn clear_buf(&mut self) {
+        self.buf_len = 0;
+        self.buf_use = 0;
+    }
+
     pub async fn reload_metadata(&mut self) -> TskvResult<()> {
         let meta = tokio::fs::metadata(&self.path)
             .await
diff --git a/tskv/src/wal/reader.rs b/tskv/src/wal/reader.rs
index 5aae170..2c96123 100644
--- a/tskv/src/wal/reader.rs
+++ b/tskv/src/wal/reader.rs
@@ -67,6 +67,11 @@ impl WalReader {
         }
     }
 
+    /// Forget what was read of the file, it may have been truncated and written again.
+    pub fn clear_buf(&mut self) {
+        self.inner.clear_buf();
+    }
+
     /// If this record file has some records in it.
     pub fn is_empty(&self) -> bool {
         match self
diff --git a/tskv/src/wal/wal_store.rs b/tskv/src/wal/wal_store.rs
index e09771c..ca3b436 100644
--- a/tskv/src/wal/wal_store.rs
+++ b/tskv/src/wal/wal_store.rs
@@ -323,6 +323,7 @@ impl RaftEntryStorageInner {
                 let pos = item.del_after(seq_no);
                 if pos > 0 {
                     let _ = self.wal.truncate_wal_file(item.file_id, pos).await;
+                    item.reader.clear_buf();
                 }
             }
 
-- 
2.43.0


From ab352c6cb0850a7eee0d8d9e1169e8b06f293dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:30 +0000
Subject: [PATCH 61/62] fix: what an unfinished truncation left of a log is
 removed when nothing is applied yet, and not read on

---
 tskv/src/wal/wal_store.rs | 55 ++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/tskv/src/wal/wal_store.rs b/tskv/src/wal/wal_store.rs
index ca3b436..2e43e86 100644
--- a/tskv/src/wal/wal_store.rs
+++ b/tskv/src/wal/wal_store.rs
@@ -447,13 +447,18 @@ impl RaftEntryStorageInner {
                         let res = self
                             .recover_record(wal_id, record, apply_id, vnode_store)
                             .await;
-                        if let Err(err) = res {
-                            error!(
-                                "recover wal {}, read entry failed: {}, vnode {} is broken, please remember to repair it",
-                                file_name, err, vnode_store.id()
-                            );
-                            error!("error msg: {:?}", err);
-                            return Ok(());
+                        match res {
+                            Ok(true) => {}
+                            // The file ends here now.
+                            Ok(false) => break,
+                            Err(err) => {
+                                error!(
+                                    "recover wal {}, read entry failed: {}, vnode {} is broken, please remember to repair it",
+                                    file_name, err, vnode_store.id()
+                                );
+                                error!("error msg: {:?}", err);
+                                return Ok(());
+                            }
                         }
                     }
 
@@ -482,13 +487,14 @@ impl RaftEntryStorageInner {
         Ok(())
     }
 
+    /// Returns false if the record does not belong to the log, and was removed with all after it.
     async fn recover_record(
         &mut self,
         wal_id: u64,
         record: WalRecordData,
         apply_id: Option<LogId<u64>>,
         vnode_store: &mut VnodeStorage,
-    ) -> TskvResult<()> {
+    ) -> TskvResult<bool> {
         let entry = record.block;
         if let Some(apply_id) = apply_id {
             let last_seq = vnode_store.ts_family().read().await.version().last_seq();
@@ -507,27 +513,28 @@ impl RaftEntryStorageInner {
                     }
                 }
             }
+        }
 
-            // An entry that is not applied yet is still a part of the log: it may be committed.
-            // Only what does not continue the log is left from an unfinished truncation.
-            let next = match self.max_sequence() {
-                u64::MAX => apply_id.index + 1,
-                seq_no => seq_no + 1,
-            };
-            if entry.log_id.index > apply_id.index && entry.log_id.index != next {
-                info!(
-                    "truncate wal file: {}, start at: {} from sequence:{}, got entry index: {}",
-                    wal_id, record.pos, apply_id.index, entry.log_id.index
-                );
-                self.wal.truncate_wal_file(wal_id, record.pos).await?;
-
-                return Ok(());
-            }
+        // An entry that is not applied yet is still a part of the log: it may be committed.
+        // Only what does not continue the log is left from an unfinished truncation.
+        let next = match self.max_sequence() {
+            u64::MAX => apply_id.map(|id| id.index + 1),
+            seq_no => Some(seq_no + 1),
+        };
+        let index = entry.log_id.index;
+        if apply_id.map_or(true, |id| index > id.index) && next.is_some_and(|next| next != index) {
+            info!(
+                "truncate wal file: {}, start at: {} from applied: {:?}, got entry index: {}",
+                wal_id, record.pos, apply_id, index
+            );
+            self.wal.truncate_wal_file(wal_id, record.pos).await?;
+
+            return Ok(false);
         }
 
         self.mark_write_wal(entry, wal_id, record.pos).await?;
 
-        Ok(())
+        Ok(true)
     }
 }
 
-- 
2.43.0


From bfb4f2a72a7528164a8892424fb834ccd441383b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:49 +0000
Subject: [PATCH 62/62] fix: column groups of one chunk that were written under
 different schemas are read together

---
 tskv/src/reader/iterator.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tskv/src/reader/iterator.rs b/tskv/src/reader/iterator.rs
index 047ea29..ca634af 100644
--- a/tskv/src/reader/iterator.rs
+++ b/tskv/src/reader/iterator.rs
@@ -329,12 +329,14 @@ impl SeriesGroupBatchReaderFactory {
         Ok(rowgroups)
     }
 
+    #[allow(clippy::too_many_arguments)]
     fn build_chunk_reader(
         &self,
         chunk: DataReference,
         batch_size: usize,
         projection: &[ColumnId],
         prune_predicate: &Option<Arc<Predicate>>,
+        time_fields_schema: &SchemaRef,
         metrics: &SeriesGroupBatchReaderMetrics,
         aggregates: &Option<Vec<PushedAggregateFunction>>,
     ) -> TskvResult<Option<BatchReaderRef>> {
@@ -369,7 +371,12 @@ impl SeriesGroupBatchReaderFactory {
                                 batch_size,
                                 self.column_group_reader_metrics_set.clone(),
                             )?;
-                            Ok(Arc::new(column_group_reader) as BatchReaderRef)
+                            // 同一个 chunk 的 column group 可能是在不同的表结构下写入的，合并前先对齐
+                            Ok(Arc::new(SchemaAlignmenter::new(
+                                Arc::new(column_group_reader),
+                                time_fields_schema.clone(),
+                                self.schema_align_reader_metrics_set.clone(),
+                            )) as BatchReaderRef)
                         })
                         .collect::<TskvResult<Vec<_>>>()?;
 
@@ -389,12 +396,14 @@ impl SeriesGroupBatchReaderFactory {
         }
     }
 
+    #[allow(clippy::too_many_arguments)]
     fn build_chunk_readers(
         &self,
         chunks: Vec<DataReference>,
         batch_size: usize,
         projection: &Projection,
         predicate: &Option<Arc<Predicate>>,
+        time_fields_schema: &SchemaRef,
         metrics: &SeriesGroupBatchReaderMetrics,
         aggregates: &Option<Vec<PushedAggregateFunction>>,
     ) -> TskvResult<Vec<BatchReaderRef>> {
@@ -424,6 +433,7 @@ impl SeriesGroupBatchReaderFactory {
                 batch_size,
                 projection,
                 prune_predicate,
+                time_fields_schema,
                 metrics,
                 aggregates,
             )?;
@@ -481,6 +491,7 @@ impl SeriesGroupBatchReaderFactory {
                     batch_size,
                     projection,
                     predicate,
+                    &time_fields_schema,
                     metrics,
                     aggregates,
                 )?;
-- 
2.43.0

