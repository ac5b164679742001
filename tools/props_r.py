# Properties of the executable Rust code (Splinter/src), decided by rust/sim_bank.rs, rust/store and rust/fmt.
P = []
W = "The tests verify some marshalling functions and resolve sources; nothing compiles or runs the bank, the store or the allocator, and many loops carry assume(false). Which thread runs when, which page tears and where a crash falls cannot be listed by examples."
TS = "deterministic simulation with fault injection: the tree's own Rust modules compiled without ghost code against "
N = "Seeded search; Splinter/src is compiled from /repo as it is, verus! erases specifications and proofs, and a small stand-in for vstd supplies %s (trusted stub). Sampling: no proof."
def f(id, title, st, over, text, files, mech, obs, state, tech, stub):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=W, anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=obs, hook_needed=None), technique=TS + tech, note=N % stub))
EX = "Splinter/src/example/"; IM = "Splinter/src/implementation/"; TR = "Splinter/src/trusted/"; MA = "Splinter/src/marshalling/"
BT = "simulated threads, reader-writer locks and atomics under a seeded scheduler"; BS = "threads, locks and atomics the scheduler controls"
f("R01", "Concurrent bank transfers are atomic and conserve money",
  "In the concurrent bank every transfer and audit takes effect as if alone: a transfer succeeds exactly when both accounts exist and differ, the source holds the amount and the destination has room for it, and otherwise it changes nothing. Every history of replies agrees with some one-at-a-time order that respects real time, and the total over all accounts never changes.",
  ["schedules", "histories", "inputs"], "every interleaving of any number of worker threads at lock, atomic and thread operations; every account number and amount, including the 32-bit limits",
  [EX + "SimpleBank_v.rs", EX + "VerifiedEntry_t.rs", EX + "ClientAPI_t.rs"], [("two account locks taken in a fixed order", EX + "SimpleBank_v.rs"), ("checks before the debit and credit", EX + "SimpleBank_v.rs")], ["replies to transfers", "account balances read by audits and at the end"], [("account balances", "one lock per account", EX + "SimpleBank_v.rs")], BT, BS)
f("R02", "Every bank request finishes with one reply of its own",
  "However threads interleave, no set of requests to the concurrent bank deadlocks, panics or runs forever. Request ids are never used twice and each request gets exactly one reply, carrying its own id.",
  ["schedules", "histories"], "every interleaving and every set of concurrent transfers, including opposite transfers over the same accounts and transfers to oneself",
  [EX + "SimpleBank_v.rs", EX + "ClientAPI_t.rs", EX + "VerifiedEntry_t.rs"], [("lock order", EX + "SimpleBank_v.rs"), ("request id counter", EX + "ClientAPI_t.rs")], ["thread termination", "replies"], [("next request id", "source of unique ids", EX + "ClientAPI_t.rs")], BT, BS)
ST = "a simulated client and disk that delay, reorder, land or lose superblock writes and crash the store"; SS = "clients, the disk and the superblock codec the tree leaves open"
I = IM + "Implementation_v.rs"
f("R03", "The Rust store acknowledges a sync only when its puts are durable",
  "The store reports a sync done only when a superblock write that holds every put received before that sync request has been completed by the disk. So after a crash at any moment the recovered store holds a prefix of the received puts that includes all of those.",
  ["histories", "schedules", "crash_points", "fault_sequences"], "every order of requests, disk completions and crashes, including writes that land without being reported and any number of syncs queued during a write",
  [I, TR + "ClientAPI_t.rs", TR + "TrustedEntry_t.rs"], [("sync requests buffered behind the write in flight", I + ":deliver_inflight_replies"), ("superblock write", I + ":send_superblock")], ["SyncOutput replies", "superblock contents at each completed write"], [("in-flight superblock and sync request buffer", "which syncs the write in flight covers", I)], ST, SS)
f("R04", "The Rust store's superblock is one page holding an exact prefix of puts",
  "The store reads and writes only its superblock address, keeps at most one superblock write in flight, and each write holds exactly the recovered puts followed by a prefix of the puts received since, in order, none lost, repeated or changed. The first write after a recovery never drops what the recovered superblock held.",
  ["histories", "crash_points", "schedules"], "every sequence of puts, syncs, completions and crashes",
  [I, IM + "DiskLayout_v.rs", TR + "ClientAPI_t.rs"], [("journal of puts", I + ":handle_put"), ("recovery", I + ":recover")], ["disk requests", "superblock contents"], [("journal", "all puts since the superblock's start", I)], ST, SS)
f("R05", "Every Rust store request is answered once, in kind, in bounded time",
  "Every put, sync and no-op gets exactly one reply, with its own id and of its own kind, and once the disk answers and no more requests come all of them are answered within a bounded number of polls. No request, completion order or crash makes the store panic, stop or spin; a query gets at most one reply, with the value last put.",
  ["histories", "schedules", "crash_points"], "every sequence and burst of requests, idle polls, completion order and crash",
  [I, TR + "ReqReply_t.rs", TR + "TrustedEntry_t.rs"], [("main loop", I + ":kvstore_main"), ("request handlers", I + ":handle_user_request")], ["replies", "polls of the environment"], [("requests not yet answered", "syncs waiting for a write", I)], ST, SS)
FT = "a simulated disk with torn, lost and bit-flipped sectors, short reads and crashes, checked against an independent reading of the bytes"; FS = "only byte and slice helpers"
FF = [MA + x for x in ("IntegerMarshalling_v.rs", "UniformSizedSeq_v.rs", "ResizableUniformSizedSeq_v.rs", "VariableSizedElementSeq_v.rs", "KVPairFormat_v.rs", "SeqMarshalling_v.rs", "Slice_v.rs")]
f("R06", "Pages read back as written; in-place updates touch only their entry",
  "A value or element written through any marshalling format (integers, fixed, resizable and variable-sized sequences, key-value pairs) reads back as written, also after a flush, crash and reload. Appending, setting, resizing or initialising changes only what it says: other entries keep their values, bytes outside the slice are untouched, and appendable, settable and resizable say exactly when there is room.",
  ["inputs", "histories", "crash_points", "configurations"], "every format, length, boundary and element width, page and slice size, element value and sequence of updates, with crashes between flushes",
  FF, [("boundary table growing towards the elements", MA + "VariableSizedElementSeq_v.rs:exec_append"), ("length field and slots", MA + "ResizableUniformSizedSeq_v.rs:exec_append"), ("byte installation", MA + "IntegerMarshalling_v.rs:install_bytes")], ["bytes of the page after each update", "results of get, parse and the -able predicates"], [("length field, boundary table, elements", "layout of a page", MA + "VariableSizedElementSeq_v.rs")], FT, FS)
f("R07", "Damaged pages are rejected or read for what they are, never trusted",
  "On any bytes, including torn, flipped, truncated or stale pages, every parsing and reading function gives exactly the answer the stored bytes imply: lengths, positions, elements and well-formedness, or a refusal when they do not fit. It never panics, reads outside its slice or asks for memory out of proportion to the page.",
  ["inputs", "fault_sequences"], "every byte content of a page and every slice of it, with damage aimed at length fields, table entries and key lengths",
  FF, [("bounds checks before slicing", MA + "VariableSizedElementSeq_v.rs:try_get"), ("well-formedness", MA + "VariableSizedElementSeq_v.rs:exec_well_formed"), ("length against the space", MA + "ResizableUniformSizedSeq_v.rs:try_parse")], ["results of try_parse, try_length, try_get, try_get_elt, exec_well_formed"], [("stored length", "untrusted until checked", MA + "ResizableUniformSizedSeq_v.rs")], FT, FS)
AL = "Splinter/src/exec/MiniAllocator_v.rs"
f("R08", "The page allocator never hands out a page that is in use",
  "The executable mini-allocator hands out each page of its allocation unit at most once until the unit is pruned, always inside the unit, and can hand out every page of it. Observing turns exactly the reserved pages into observed ones, and a pruned unit is gone.",
  ["histories", "inputs"], "every sequence of add, allocate, reserve, observe and prune, any unit number and size, with crashes between",
  [AL, "Splinter/src/disk/GenericDisk_v.rs"], [("reserved and observed counters", AL + ":reserve"), ("allocate and observe", AL + ":allocate_and_observe")], ["addresses handed out", "the allocator's counters"], [("observed, reserved", "pages reachable from the superblock; pages handed out", AL)], FT, FS)
