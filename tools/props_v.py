# Properties of the whole veribetrfs store, decided by sim/veri.cpp. (id, title, statement, over, quantifier text, why, files, state, mechanism, observe, technique, note)
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=[], technique=None, note=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=dict(files=list(dict.fromkeys(files)), state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=observe, hook_needed=hook), technique=technique, note=note))
TV = "deterministic simulation with fault injection of the whole store: real handlers interpreted from source, simulated asynchronous disk, seeded crashes/torn writes/corruption/reordering, reference map model"
NV = "Seeded search over operation histories, disk completion orders, crash points and disk faults; every handler reachable from Main is executed from /repo's source by the engine in /verif/engine (trusted), the disk is a simulated stub following AsyncDiskModel. Sampling: no proof."
W = "The tests only resolve the Dafny sources and type-check a few Rust files; no test runs the store at all, and no finite test list covers every history, completion order and crash point."
M = "Impl/MainHandlers.i.dfy"
def v(id, title, st, over, text, files, mech, obs, state=[]):
    p(id, title, st, over, text, W, [M] + files, mech, obs, state, TV, NV)
v("V01", "Writes covered by a completed sync survive any later crash",
  "Once a sync request has been reported complete, every insert that was acknowledged before that sync request was issued is present after any later crash and restart (unless overwritten by a later insert that was itself made durable). This holds wherever the crash falls and whichever of the in-flight disk writes took effect.",
  ["histories", "crash_points", "fault_sequences", "schedules", "configurations"], "every history of inserts, queries, range queries and syncs, every order in which the disk completes requests, every crash point, every subset (and tearing) of in-flight writes applied",
  ["Impl/CommitterImpl.i.dfy", "Impl/CommitterImpl.i.dfy", "Impl/CoordinationImpl.i.dfy", "Impl/JournalistImpl.i.dfy", "Impl/JournalistImpl.i.dfy", "Impl/CoordinationImpl.i.dfy", "Impl/SyncImpl.i.dfy", "Impl/IOImpl.i.dfy", "MapSpec/ThreeStateVersionedMap.s.dfy"],
  [("journal write then superblock write then sync completion", "Impl/CommitterImpl.i.dfy"), ("frozen graph and frozen journal position move together", "Impl/CoordinationImpl.i.dfy")],
  ["handlePopSync result", "the map recovered from the disk after a crash"],
  [("syncReqs", "outstanding sync requests and their state", "Impl/CommitterImpl.i.dfy")])
v("V02", "Recovery yields a prefix of the acknowledged writes, never garbage",
  "After any crash and restart the store's contents equal the result of applying some prefix, in order, of the inserts issued so far; no insert is visible without all earlier ones, none is applied twice with effect, and no key holds a value never written to it. The recovered contents never go backwards across successive crashes below what was already durable.",
  ["histories", "crash_points", "fault_sequences", "schedules"], "every history and every crash point including during node flushes, table writes, journal wraparound and superblock writes",
  ["Impl/JournalistParsingImpl.i.dfy", "Impl/CoordinationImpl.i.dfy", "Impl/CommitterImpl.i.dfy", "Impl/InsertImpl.i.dfy", "Impl/FlushImpl.i.dfy", "Impl/SplitImpl.i.dfy", "Impl/GrowImpl.i.dfy", "Impl/LeafImpl.i.dfy", "Impl/BookkeepingImpl.i.dfy", "Impl/IndirectionTable.i.dfy"],
  [("copy-on-write blocks published only through the superblock", "Impl/IndirectionTable.i.dfy"), ("journal replay after loading the frozen graph", "Impl/CoordinationImpl.i.dfy")],
  ["the map recovered from the disk after a crash", "query and range query results after restart"])
v("V03", "A point query returns the latest insert to that key",
  "Every point query that is answered returns the value of the most recent insert of that key (or the empty default when there is none), whatever is cached, buffered, being flushed, split, evicted or written back at that moment. After a restart the same holds relative to the recovered contents.",
  ["histories", "schedules", "configurations"], "every sequence of operations and every interleaving with background tree maintenance and disk completions, at every tree shape and cache size",
  ["Impl/QueryImpl.i.dfy", "Impl/InsertImpl.i.dfy", "Impl/FlushImpl.i.dfy", "Impl/SplitImpl.i.dfy", "Impl/NodeImpl.i.dfy", "Impl/CacheImpl.i.dfy", "lib/Buckets/BucketImpl.i.dfy", "lib/Buckets/LKMBPKVOps.i.dfy", "lib/Buckets/PackedKV.i.dfy", "PivotBetree/Bounds.i.dfy"],
  [("messages nearer the root win", "Impl/QueryImpl.i.dfy"), ("flush moves exactly the messages of one child", "Impl/FlushImpl.i.dfy")], ["handleQuery result"])
v("V04", "A range query returns exactly the live keys of the range it reports",
  "A range query's answer lists, in strictly increasing key order with their latest values, exactly the keys with a non-default value between the requested start and the end it reports; it returns no more than the requested number of entries. The reported range is never empty, so a client iterating from the reported end visits every key once.",
  ["histories", "schedules", "configurations"], "every history, start bound, count and tree shape, interleaved with flushes, splits, evictions and disk completions",
  ["Impl/SuccImpl.i.dfy", "Impl/BucketSuccessorLoopImpl.i.dfy", "Impl/BucketGeneratorImpl.i.dfy", "Impl/BucketIteratorImpl.i.dfy", "MapSpec/UI.s.dfy"],
  [("merging generator over the buckets on the path", "Impl/BucketGeneratorImpl.i.dfy")], ["handleSucc result"])
v("V05", "A clone copies a key range atomically and then stays independent",
  "An accepted clone of keys with prefix A onto prefix B makes every key B+x read as A+x read at that instant, replaces what was under B, and leaves all other keys alone. Later inserts under either prefix do not show under the other, and a crash recovers the store either entirely before or entirely after the clone.",
  ["histories", "crash_points", "schedules"], "every history with clones (nested, overlapping and repeated) and every crash point",
  ["Impl/CloneImpl.i.dfy", "Impl/EvictImpl.i.dfy", "lib/Base/KeyType.s.dfy", "lib/Buckets/TranslationLib.i.dfy", "Impl/QueryImpl.i.dfy", "Impl/FlushImpl.i.dfy"],
  [("edge table translations in pivot nodes", "lib/Buckets/TranslationLib.i.dfy")], ["handleClone result", "query and range query results", "recovered map"])
v("V06", "Requests complete in bounded time once the disk answers",
  "Once faults stop and the disk completes its outstanding requests, every insert, point query, range query and sync that is retried completes within a bounded number of steps; the store never wedges or spins on background work. This includes full caches, full journals, requests issued during recovery and syncs with nothing to write.",
  ["histories", "schedules", "fault_sequences", "configurations"], "every reachable state at which faults stop, every fair completion order",
  ["Impl/CoordinationImpl.i.dfy", "Impl/SyncImpl.i.dfy", "Impl/EvictImpl.i.dfy", "Impl/FullImpl.i.dfy", "Impl/IOImpl.i.dfy"],
  [("each handler either answers or starts the I/O or maintenance step that is missing", "Impl/CoordinationImpl.i.dfy"), ("sync state machine", "Impl/SyncImpl.i.dfy")], ["number of handler steps until a request is answered"])
v("V07", "Corrupted disk contents are detected, never served as data",
  "When a block read from disk does not carry the bytes that were written (bit rot, a misdirected or garbage read), the store refuses it: no query, range query or recovery ever returns contents derived from it. A corrupted superblock, journal or table is likewise rejected instead of being taken for an older or empty store.",
  ["fault_sequences", "histories"], "every corruption of every block kind at every read, transient or persistent",
  ["lib/Checksums/CRC32CImpl.i.dfy", "Impl/MarshallingImpl.i.dfy", "Impl/IOImpl.i.dfy", "Impl/DiskOpImpl.i.dfy", "Impl/JournalistParsingImpl.i.dfy", "Impl/CommitterImpl.i.dfy"],
  [("checksums over every block", "Impl/MarshallingImpl.i.dfy")], ["query, range query and recovery results after injected read corruption"])
v("V08", "Disk writes never touch data the durable state still needs",
  "No disk write overlaps a block reachable from the superblock that a crash could recover, two disk operations in flight at once never overlap, and every write stays aligned inside its own region of the disk. Each handler step submits at most one disk operation (or the one pair that the wrap of the journal needs).",
  ["histories", "schedules", "crash_points", "configurations"], "every history and completion order, at every disk size and layout",
  ["Impl/BlockAllocatorImpl.i.dfy", "Impl/IOImpl.i.dfy", "lib/DataStructures/BitmapImpl.i.dfy", "BlockCacheSystem/DiskLayout.i.dfy", "Impl/JournalistImpl.i.dfy", "Impl/BookkeepingImpl.i.dfy"],
  [("block allocator: ephemeral, frozen, persistent and outstanding sets", "Impl/BlockAllocatorImpl.i.dfy")], ["every disk request the store submits"])
v("V09", "Recovery can itself crash anywhere and be repeated",
  "Crashing during recovery, any number of times and at any step, loses nothing: the next recovery still yields a state at least as new as what was durable before, and the same contents as an uninterrupted recovery of that disk. Operations and syncs issued while recovery is running behave as if it had finished first.",
  ["crash_points", "histories", "fault_sequences"], "every sequence of crashes during recovery and every request arriving while it runs",
  ["Impl/CommitterImpl.i.dfy", "Impl/CoordinationImpl.i.dfy", "Impl/JournalistImpl.i.dfy", "Impl/CoordinationImpl.i.dfy"],
  [("recovery state machine: superblocks, table, journal front and back, replay", "Impl/CommitterImpl.i.dfy")], ["recovered map", "query results during and after recovery"])
v("V10", "The journal ring may wrap and fill without losing or reordering writes",
  "Writing more than the journal ring holds never loses, duplicates or reorders an acknowledged write: when the ring wraps, is nearly full or full, the store makes room by checkpointing before it reuses journal blocks. Recovery from a wrapped journal returns the same prefix semantics.",
  ["histories", "crash_points", "configurations"], "every write volume, entry size, ring size and crash point relative to the wrap",
  ["Impl/JournalistImpl.i.dfy", "Impl/JournalistMarshallingImpl.i.dfy", "Impl/JournalistParsingImpl.i.dfy", "Impl/JournalistImpl.i.dfy", "BlockCacheSystem/JournalRange.i.dfy"],
  [("frozen/written journal lengths and ring arithmetic", "Impl/CommitterImpl.i.dfy")], ["recovered map when the ring is small", "disk writes into the ring"])
v("V11", "Space freed by overwrites and syncs is reused; no block is leaked",
  "A store whose live data fits keeps accepting writes and syncs indefinitely: blocks no longer reachable after a sync are reused, and nothing stays allocated for ever. A disk with little free space changes no answer and no durability guarantee.",
  ["histories", "configurations", "crash_points"], "every long history of overwrites and syncs on a nearly full disk",
  ["Impl/BlockAllocatorImpl.i.dfy", "Impl/DeallocImpl.i.dfy", "Impl/IndirectionTable.i.dfy", "lib/DataStructures/LinearMutableMap.i.dfy"],
  [("reference counts and the free-block bitmap", "Impl/IndirectionTable.i.dfy"), ("deallocation", "Impl/DeallocImpl.i.dfy")], ["progress and contents on a tight disk"])
v("V12", "The node cache stays bounded and eviction never loses an update",
  "The number of cached nodes plus reads in flight never exceeds the configured bound, and whichever nodes are evicted and re-read, at any moment, no update is lost and no stale node is served. A dirty node leaves the cache only after its write is complete.",
  ["histories", "schedules", "configurations"], "every history with caches barely larger than the tree height",
  ["Impl/EvictImpl.i.dfy", "Impl/CacheImpl.i.dfy", "lib/DataStructures/LinearLru.i.dfy", "Impl/MarshallingImpl.i.dfy", "lib/DataStructures/LinearLru.i.dfy"],
  [("LRU queue over cached nodes", "lib/DataStructures/LinearLru.i.dfy"), ("eviction only of clean nodes", "Impl/EvictImpl.i.dfy")], ["cache population after each step", "query results under eviction"])
v("V13", "A freshly formatted disk opens as an empty store",
  "Formatting writes a set of non-overlapping blocks inside the disk after which the store opens empty, answers queries and accepts writes, whatever the disk held before. Everything recovery reads was written by formatting.",
  ["configurations", "fault_sequences", "crash_points"], "every layout configuration and every previous disk content",
  ["Impl/Mkfs.i.dfy", "Impl/MkfsModel.i.dfy", "Impl/CommitterImpl.i.dfy"],
  [("initial superblock, table and root node", "Impl/Mkfs.i.dfy")], ["blocks produced by formatting", "first boot"])
v("V14", "Concurrent sync requests each complete, exactly once and honestly",
  "Any number of syncs may be outstanding at once, issued and polled in any order with either sync flavour; each completes exactly once, gets its own identity, and completes only when every write acknowledged before it was issued is durable. A sync that raced an earlier one in progress is never satisfied by the earlier one's older snapshot.",
  ["histories", "schedules", "crash_points"], "every interleaving of sync requests, polls, inserts and disk completions",
  ["Impl/SyncImpl.i.dfy", "Impl/CommitterImpl.i.dfy", "Impl/CommitterImpl.i.dfy", "Impl/CoordinationImpl.i.dfy"],
  [("per-request sync states advanced when the journal or graph is frozen and committed", "Impl/CommitterImpl.i.dfy")], ["handlePushSync ids", "handlePopSync results", "recovered map"],
  [("syncReqs", "map from request id to sync state", "Impl/CommitterImpl.i.dfy")])
v("V15", "No request, completion or restart makes the store fail at run time",
  "No sequence of well-formed requests, disk completions in any order and restarts makes a handler fail at run time (a failed internal check, an out-of-range access, arithmetic overflow, use of an absent value) or run for ever.",
  ["histories", "schedules", "crash_points", "configurations", "inputs"], "every history of requests with keys and values of every legal size, every completion order",
  ["Impl/FullImpl.i.dfy", "Impl/BookkeepingImpl.i.dfy", "lib/Lang/NativeTypes.s.dfy", "lib/Buckets/BucketImpl.i.dfy"],
  [("preconditions established by the callers' checks", "Impl/CoordinationImpl.i.dfy")], ["every handler call"])
