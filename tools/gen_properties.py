#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe_at="", hook_needed=""):
    a = {"files": files,
         "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
         "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if observe_at: a["observe_at"] = [observe_at]
    if hook_needed: a["hook_needed"] = hook_needed
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

# ------------------------------------------------------------------ storage engine
prop("S01", "Acknowledged writes survive a process crash and restart",
  "Once the storage node has acknowledged a write to a vnode, every row of it is returned by reads after the process is killed at any point and restarted, unless a later acknowledged write or delete superseded it. A write that was not acknowledged is afterwards, in each vnode it reaches, either completely readable or completely absent (values of columns that did not exist before it may be absent), and never half applied or garbled.",
  ["crash_points", "histories", "schedules"],
  "every history of writes, deletes, flushes, compactions and restarts on a vnode; every instant at which the process dies (every file-system call), including during recovery itself; every interleaving of the background flush, compaction and raft-log tasks",
  "the tests write a handful of rows, close cleanly and reopen; none dies between two file-system calls and none restarts twice",
  ["tskv/src/vnode_store.rs", "tskv/src/wal/wal_store.rs", "tskv/src/compaction/flush.rs", "tskv/src/kvcore.rs", "replication/src/node_store.rs"],
  [("raft log replay above the flushed sequence", "tskv/src/wal/wal_store.rs RaftEntryStorage::recover"),
   ("flush then version edit then log purge", "tskv/src/compaction/flush.rs, tskv/src/tsfamily/summary.rs"),
   ("apply", "tskv/src/vnode_store.rs VnodeStorage::apply")],
  [("last_seq", "highest raft index already in data files", "tskv/src/tsfamily/version.rs")],
  "vnode reads through the column-file and memory-cache readers after reopening")
prop("S02", "With WAL sync on, acknowledged writes survive a power failure",
  "When the write-ahead log is configured to sync, a write acknowledged before a power failure is readable after it, for any loss or tearing of data that was not yet synced to disk, on a file system that keeps the order of its metadata operations. Data files that a flush or compaction has published are complete on disk before the log that could rebuild them is discarded.",
  ["crash_points", "fault_sequences", "histories"],
  "every power-failure instant; every subset and tearing of unsynced file writes; directory operations lost from some point on unless a later sync made them durable",
  "no test loses unsynced data; the operating system's page cache hides every missing sync",
  ["tskv/src/wal/writer.rs", "tskv/src/wal/mod.rs", "tskv/src/file_system/file/stream_writer.rs", "tskv/src/tsm/writer.rs", "tskv/src/tsfamily/summary.rs", "tskv/src/record_file/writer.rs"],
  [("sync on append", "tskv/src/wal/writer.rs"), ("sync before publish", "tskv/src/tsm/writer.rs finish")],
  [("unsynced bytes", "file content not covered by a completed fsync", "tskv/src/file_system")],
  "vnode reads after recovery from the surviving image")
prop("S03", "Flush and compaction never change what a read returns",
  "A read of any series, column and time range returns the same rows before, during and after flushing and compacting, whichever of these run concurrently with it. No row is lost, duplicated, reordered or attributed to another series or column.",
  ["schedules", "histories", "inputs"],
  "every history of writes with overlapping and out-of-order times, duplicate timestamps, missing fields and schema changes; every interleaving of delta, normal and manual compactions with flushes and reads",
  "compaction tests compact a few hand-written files once; nothing explores overlapping levels, repeated compaction rounds, or reads racing with them",
  ["tskv/src/compaction/compact.rs", "tskv/src/compaction/flush.rs", "tskv/src/compaction/picker.rs", "tskv/src/compaction/job.rs", "tskv/src/mem_cache/memcache.rs", "tskv/src/tsm/writer.rs", "tskv/src/tsm/reader.rs", "tskv/src/tsfamily/version.rs"],
  [("merge of overlapping column groups", "tskv/src/compaction/compact.rs"), ("picking files", "tskv/src/compaction/picker.rs"),
   ("publishing a version edit", "tskv/src/tsfamily/summary.rs")],
  [("level files", "set of files per level making up the current version", "tskv/src/tsfamily/version.rs")],
  "rows returned for a super version")
prop("S04", "Deleted data stays deleted and nothing else is deleted",
  "After a time-range delete, a drop of a table or a drop of a column has been acknowledged, the rows or values it covers are never returned again, across flush, compaction and restart. Rows it does not cover and rows written after it stay readable.",
  ["histories", "schedules", "crash_points"],
  "every history of deletes over series and time ranges interleaved with writes, flushes, compactions and crashes",
  "tombstone tests add a few ranges to one file and read them back; none races a delete with a running compaction or a crash",
  ["tskv/src/tsm/tombstone.rs", "tskv/src/vnode_store.rs", "tskv/src/mem_cache/memcache.rs", "tskv/src/mem_cache/series_data.rs", "tskv/src/compaction/compact.rs"],
  [("tombstone files", "tskv/src/tsm/tombstone.rs"), ("delete in caches", "tskv/src/mem_cache/memcache.rs"),
   ("delete during compaction", "tskv/src/tsfamily/column_file.rs tombstone compaction cache")],
  [("tombstones", "deleted column and time ranges per data file", "tskv/src/tsm/tombstone.rs")],
  "rows returned after the delete")
prop("S05", "The most recently applied value of a cell wins",
  "For one series, column and timestamp, a read returns the value of the most recently applied write that set that column, wherever older values of it are stored. Columns a later row at the same timestamp did not set keep their earlier value.",
  ["histories", "inputs"],
  "every sequence of writes repeating timestamps across memory caches, delta files and levels, with every flush and compaction point in between",
  "tests cover one duplicate inside one cache; they do not place duplicates across levels and compaction rounds",
  ["tskv/src/mem_cache/row_data.rs", "tskv/src/mem_cache/series_data.rs", "common/utils/src/dedup.rs", "tskv/src/compaction/compact.rs", "tskv/src/reader/sort_merge.rs"],
  [("row merge in memory", "tskv/src/mem_cache"), ("merge by file priority", "tskv/src/compaction/compact.rs")],
  [], "rows returned by a merged read")
prop("S06", "A restored vnode snapshot equals its source",
  "A vnode restored from a snapshot of another replica returns exactly the rows, series and schema the source held at the snapshot's raft index, and nothing that the target held before. The source stays unaffected, and its writes after the snapshot do not leak into it.",
  ["histories", "schedules", "crash_points"],
  "every history before the snapshot on both sides, concurrent writes, flushes and compactions on the source while the snapshot is shipped, and a crash of the receiver at any point",
  "snapshot tests need a running cluster (e2e) and exercise one quiet transfer",
  ["tskv/src/vnode_store.rs", "tskv/src/tsfamily/version.rs", "tskv/src/index/ts_index.rs"],
  [("create_snapshot / apply_snapshot", "tskv/src/vnode_store.rs")],
  [("snapshots", "version edits pinned for shipping", "tskv/src/vnode_store.rs")],
  "reads on both vnodes")
prop("S07", "The raft entry log returns exactly what was stored, across restarts",
  "Entries appended to a vnode's raft log and not since truncated or purged are returned unchanged, in index order and without gaps, by point and range lookups, before and after any crash and restart. Truncating a conflicting suffix and appending again returns only the new entries, and truncated or purged entries never come back.",
  ["crash_points", "histories", "fault_sequences"],
  "every history of append, truncate-after, purge-before, file roll-over, sync and lookups; every crash point with torn or lost tail writes",
  "wal tests append and read back in one process life; truncation after roll-over, torn tails and repeated recovery are not sampled",
  ["tskv/src/wal/wal_store.rs", "tskv/src/wal/mod.rs", "tskv/src/wal/writer.rs", "tskv/src/wal/reader.rs", "replication/src/entry_store.rs", "tskv/src/record_file/reader.rs"],
  [("per file index of entries", "tskv/src/wal/wal_store.rs WalFileMeta"), ("cache of recent entries", "common/cache/src/circular_kvcache.rs")],
  [("min_sequence/max_sequence", "range of indexes in a log file", "tskv/src/wal/writer.rs")],
  "EntryStorage lookups")
prop("S08", "The file manifest moves atomically between complete versions",
  "After a crash at any instant of a flush, compaction, drop or manifest rewrite, recovery yields a version that existed before or after that step, every data file it names exists and opens, and no file of it is deleted by a later clean-up. Repeating recovery yields the same version.",
  ["crash_points", "histories", "fault_sequences"],
  "every crash point between any two file-system operations of manifest edits, manifest roll-over and file clean-up, with process crash and power failure",
  "summary tests reopen after clean shutdown only",
  ["tskv/src/tsfamily/summary.rs", "tskv/src/version_set.rs", "tskv/src/tsfamily/version.rs", "tskv/src/compaction/job.rs", "tskv/src/record_file/writer.rs"],
  [("version edits in a record file", "tskv/src/tsfamily/summary.rs"), ("rewrite through a temporary file and rename", "tskv/src/tsfamily/summary.rs")],
  [("summary file", "sequence of version edits", "tskv/src/tsfamily/summary.rs")],
  "version recovered, and the files on disk")
prop("S09", "Corrupted or torn files are detected, never read as other data",
  "A log, manifest, tombstone or data file with flipped bytes or a torn tail either yields an error or yields exactly the records stored before the damage. It never yields a record or value that was not written, never hangs and never takes the process down.",
  ["fault_sequences", "inputs"],
  "every single- or multi-byte flip and every truncation length, of every kind of file, at every record boundary",
  "one test each flips one byte of one record file",
  ["tskv/src/record_file/reader.rs", "tskv/src/record_file/writer.rs", "tskv/src/tsm/reader.rs", "tskv/src/tsm/page.rs", "tskv/src/wal/reader.rs", "tskv/src/tsm/tombstone.rs"],
  [("record checksums", "tskv/src/record_file"), ("page checksums", "tskv/src/tsm/page.rs"), ("footer checksum", "tskv/src/tsm/footer.rs")],
  [], "reader results on the damaged file")
prop("S10", "Disk errors never lose acknowledged data",
  "When a write, sync, rename or open fails, or the disk is full, at any point of a write, flush, compaction or recovery, the failed operation reports failure or is retried, and everything acknowledged before stays readable, both in the running process and after a restart without the fault.",
  ["fault_sequences", "histories"],
  "every placement of EIO, ENOSPC and short writes on every file-system call",
  "no test injects an I/O error",
  ["tskv/src/file_system/file/raw_file.rs", "tskv/src/file_system/file/stream_writer.rs", "tskv/src/compaction/flush.rs", "tskv/src/compaction/job.rs", "tskv/src/wal/wal_store.rs", "tskv/src/tsfamily/summary.rs"],
  [("error propagation from file calls", "tskv/src/file_system"), ("failed flush keeps its caches", "tskv/src/compaction/flush.rs")],
  [], "reads in the same process and after restart")
prop("S11", "The series index always agrees with the series that were written",
  "Every written series resolves to one stable id, distinct series never share one, and a tag filter returns exactly the series whose current tags match it. This stays so after tag updates, series deletion, and a crash and restart at any point.",
  ["histories", "crash_points", "inputs"],
  "every history of series creation, tag update, deletion and lookup with any key and tag sets, with every crash point",
  "index tests insert a few series and query them in the same process",
  ["tskv/src/index/ts_index.rs", "tskv/src/index/cache.rs", "tskv/src/index/engine2.rs"],
  [("forward and inverted entries", "tskv/src/index/ts_index.rs"), ("write buffer flushed with the vnode", "tskv/src/index/cache.rs")],
  [("incr_id", "last assigned series id", "tskv/src/index/ts_index.rs")],
  "index lookups against a model map")

# ------------------------------------------------------------------ replication
prop("R01", "Replicas apply the same commands in the same order",
  "Any two replicas of a group apply the same sequence of commands, each replica's applied sequence being a prefix of the other's, through message loss, duplication, reordering, partitions, crashes and restarts. A command acknowledged to a client is never lost while a majority keeps its disks, and is visible to every later read of the leader.",
  ["schedules", "fault_sequences", "crash_points", "histories"],
  "every schedule of a 3-node group with message faults, partitions, leader changes, membership change, crashes and restarts",
  "replication tests run one node, or a fixed three-node script without faults",
  ["replication/src/node_store.rs", "replication/src/raft_node.rs", "replication/src/state_store.rs", "replication/src/entry_store.rs", "replication/src/network_client.rs", "replication/src/network_grpc.rs", "tskv/src/wal/wal_store.rs"],
  [("raft storage adapter", "replication/src/node_store.rs"), ("raft network adapter", "replication/src/network_client.rs")],
  [("last_applied", "log id the state machine has reached", "replication/src/state_store.rs")],
  "applied sequences and leader reads")
prop("R02", "A node never forgets its vote or an entry it acknowledged",
  "Once a node has answered a vote or an append of log entries, a restart of its process shows the same or a newer vote and all the entries it acknowledged. The committed and applied positions it reports never go backwards, and purging never removes entries not covered by a snapshot it holds.",
  ["crash_points", "histories"],
  "every history of vote, append, truncate, purge, snapshot and apply calls with a crash after any step",
  "the storage conformance suite runs without restarts",
  ["replication/src/node_store.rs", "replication/src/state_store.rs", "replication/src/entry_store.rs", "tskv/src/wal/wal_store.rs"],
  [("vote in the state store", "replication/src/state_store.rs"), ("entries in the log", "tskv/src/wal/wal_store.rs")],
  [("last_purged", "highest discarded log id", "replication/src/state_store.rs")],
  "raft storage interface after reopening")
prop("R03", "A replica that is behind or restarted converges through log or snapshot",
  "A replica that was down, partitioned or newly added reaches the state of the leader once it can communicate, through log replay or snapshot transfer, within a bounded time after faults stop. Its state machine then equals that of the leader and no command was applied to it twice.",
  ["schedules", "fault_sequences", "crash_points"],
  "every point at which a replica leaves and returns, relative to snapshots and log purges, with faults during the transfer",
  "no test purges the log under a lagging replica",
  ["replication/src/node_store.rs", "replication/src/apply_store.rs", "replication/src/raft_node.rs", "tskv/src/vnode_store.rs"],
  [("snapshot install", "replication/src/node_store.rs"), ("apply", "replication/src/node_store.rs apply_to_state_machine")],
  [], "state of all replicas after the last fault")

# ------------------------------------------------------------------ meta
prop("M01", "Meta replicas that applied the same commands hold the same state",
  "Two metadata replicas that applied the same sequence of commands hold the same key-value state and gave the same answers, whatever the local clock, random source, scheduling and restarts. A replica restored from a snapshot and the remaining commands holds that state too.",
  ["histories", "schedules", "configurations"],
  "every sequence of metadata commands, every pair of replicas with different clocks, hash seeds and randomness, and every snapshot point",
  "tests run one replica",
  ["meta/src/store/storage.rs", "common/models/src/meta_data.rs"],
  [("command application", "meta/src/store/storage.rs process_write_command"), ("snapshot and restore", "meta/src/store/storage.rs")],
  [("version", "count of state changes", "meta/src/store/storage.rs")],
  "backup of the state machine")
prop("M02", "Shard buckets cover time without overlap and use unique ids",
  "For one database, any timestamp that a bucket was created for lies in exactly one bucket, buckets never overlap while the duration setting is unchanged, and every bucket has the configured number of shards, each with the configured number of replicas on distinct live nodes. Bucket, replica-set and vnode ids are never handed out twice in a cluster, across restarts and leader changes.",
  ["histories", "inputs", "crash_points"],
  "every history of bucket creation and deletion, id reservation, node changes and restarts, for all timestamps, durations, precisions and shard counts",
  "tests create one bucket",
  ["meta/src/store/storage.rs", "common/models/src/meta_data.rs"],
  [("bucket creation", "meta/src/store/storage.rs process_create_bucket"), ("range alignment and placement", "common/models/src/meta_data.rs get_time_range, allocation_replication_set")],
  [("incr_id", "next free id", "meta/src/store/storage.rs")],
  "tenant metadata")
prop("M03", "A metadata watcher never silently misses a change",
  "A client that follows the change stream from the version it last saw gets every later change that concerns it, once and in order, or is told to resynchronise fully. This holds when the change buffer wraps, the server restarts, or it installs a snapshot.",
  ["histories", "schedules", "crash_points"],
  "every history of changes and polls, with buffer wrap-around, server restart, leader change and snapshot install at any point",
  "no test follows a stream across a wrap, restart or snapshot",
  ["meta/src/store/command.rs", "meta/src/store/storage.rs", "meta/src/service/http.rs", "meta/src/model/meta_admin.rs"],
  [("ring of recent changes", "meta/src/store/command.rs CircleBuf"), ("poll", "meta/src/store/storage.rs read_change_logs")],
  [("ring", "recent changes by version", "meta/src/store/command.rs")],
  "state a follower builds versus the server's state")
prop("M04", "Metadata commands keep references intact and are all-or-nothing",
  "A rejected metadata command changes nothing, and an accepted one has its documented effect and no other. Dropping a database, tenant or user removes everything that is addressed through it, creating an object that exists is refused, and conflicting schema updates are refused.",
  ["histories", "inputs"],
  "every sequence of catalogue commands over a few names, including repeated and retried ones, and a crash between any two storage transactions of one command",
  "tests issue each command once on a fresh catalogue",
  ["meta/src/store/storage.rs", "meta/src/store/key_path.rs", "common/models/src/auth/role.rs"],
  [("command application", "meta/src/store/storage.rs")],
  [], "command answers and catalogue contents against a model catalogue")
prop("M05", "Tenant request limits hold across nodes and time",
  "Over any interval, the nodes of a cluster together admit for one tenant no more than its configured burst plus the refill for that interval, and tokens handed to a node are deducted from the shared balance exactly once. A request within the limit is not refused for ever, and requests of an unlimited kind are never refused.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of concurrent requests on several nodes, every delay, loss and retry of token requests, and every clock reading",
  "limiter tests run one task against one bucket",
  ["meta/src/limiter/local_request_limiter.rs", "meta/src/limiter/remote_request_limiter.rs", "meta/src/store/storage.rs", "common/limiter_bucket/src/lib.rs"],
  [("local token cache", "meta/src/limiter/local_request_limiter.rs"), ("shared bucket", "meta/src/limiter/remote_request_limiter.rs")],
  [("balance", "tokens left", "common/limiter_bucket/src/lib.rs")],
  "requests admitted per tenant versus simulated time")

# ------------------------------------------------------------------ shared components
prop("X01", "The shared caches behave as one bounded map",
  "Concurrent operations on a sharded cache take effect one at a time per key: a lookup returns the value last put under that key and not since removed, evicted or dropped, and never one of another key. It holds at most its capacity, evicts the least recently used entry of the shard, and pop returns an entry whenever the cache holds one.",
  ["schedules", "histories", "inputs"],
  "every interleaving of put, get, remove, pop, iteration and clear by several tasks, for every capacity and shard count",
  "cache tests run one thread with a few keys",
  ["common/cache/src/lib.rs", "common/cache/src/lru_cache/mod.rs", "common/cache/src/sharded_sync_cache.rs", "common/cache/src/sharded_async_cache.rs", "common/cache/src/async_cache.rs", "common/cache/src/sync_cache.rs"],
  [("shards behind locks", "common/cache/src")],
  [("usage", "number or weight of entries", "common/cache/src")],
  "results of concurrent operations")
prop("X02", "The recent-entry ring returns only what is still in it",
  "The ring of recent entries holds the newest consecutive entries up to its capacity: a lookup by index returns the entry stored under that index or nothing, the last entry is the newest one held, and truncating either end removes exactly the entries on that side.",
  ["histories", "inputs"],
  "every sequence of push, truncate-before, truncate-after and lookup, for every capacity and wrap-around position",
  "tests push a few elements into one size",
  ["common/cache/src/circular_kvcache.rs", "tskv/src/wal/wal_store.rs"],
  [("ring buffer", "common/cache/src")], [], "lookup results against a model")
prop("X03", "A token bucket never grants more than its rate and burst allow",
  "Whatever the callers' interleaving and the clock's jumps, the tokens granted over any interval never exceed the burst size plus the refill of the elapsed time, the balance never exceeds the maximum, and a refused request takes nothing. When time passes, a bucket refills, so a request no larger than the burst is eventually granted.",
  ["schedules", "histories", "inputs"],
  "every interleaving of acquire calls, every sequence of clock readings including backward jumps, every bucket configuration",
  "tests sleep in real time with one configuration",
  ["common/limiter_bucket/src/lib.rs", "common/limiter_bucket/src/rate_bucket.rs", "common/limiter_bucket/src/count_bucket.rs"],
  [("refill and deduct under a lock", "common/limiter_bucket/src")], [("balance", "tokens left", "common/limiter_bucket/src")], "tokens granted versus simulated time")
prop("X04", "Memory accounting is exact under concurrency and failure",
  "The memory pool's reserved total always equals the sum of what its consumers hold, a reservation that would exceed the limit is refused and changes nothing, and everything released or dropped is returned. Once all consumers are gone the total is zero.",
  ["schedules", "histories"],
  "every interleaving of grow, try_grow, shrink and drop by concurrent consumers around the limit",
  "one sequential test",
  ["common/memory_pool/src/lib.rs"],
  [("compare-and-add on an atomic total", "common/memory_pool/src/lib.rs")], [("used", "bytes reserved", "common/memory_pool/src/lib.rs")], "reserved() and refusals")
prop("X05", "Metrics never lose, double or misattribute an update",
  "After concurrent updates finish, a counter equals the sum of its increments, a histogram's count, sum and buckets equal those of the values recorded, an average is that of the values added since it was last read, and each set of labels has its own series however often and concurrently it is looked up. A report shows values that held at some moment during it.",
  ["schedules", "histories"],
  "every interleaving of recorders, look-ups and reports",
  "tests record sequentially",
  ["common/metrics/src/count.rs", "common/metrics/src/gauge.rs", "common/metrics/src/histogram.rs", "common/metrics/src/duration.rs", "common/metrics/src/metric.rs", "common/metrics/src/metric_register.rs"],
  [("atomics and a keyed registry", "common/metrics/src")], [], "reported values")
prop("X06", "Background work finishes or is cancelled, and never wedges its owner",
  "A task given to the dedicated executor runs to completion or is cancelled when its handle is dropped, its panic reaches the waiter as an error, and shutdown returns after running tasks end. A stream bridged between runtimes delivers every item once and in order, and its producer stops when the consumer goes away.",
  ["schedules", "histories"],
  "every interleaving of spawn, await, drop, panic, shutdown and join",
  "tests cover single fixed interleavings with real sleeps",
  ["common/models/src/runtime/executor.rs", "common/models/src/runtime/cross_rt_stream.rs"],
  [("worker thread and channel", "common/models/src/runtime/executor.rs")], [], "task results and termination")
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
