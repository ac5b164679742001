# Properties of the C++ framework that turns the verified handlers into a process, decided by sim/app.cpp.
P = []
T = "deterministic simulation with fault injection of the whole process: real C++ framework over a simulated kernel (file, POSIX AIO, allocator, process death, power loss), real handlers interpreted from source"
N = "Seeded search over API histories, client behaviours, I/O completion orders and faults. framework/*.cpp is compiled from /repo and run as is; libc calls land in the simulated kernel (stub); handlers run on the engine in /verif/engine (trusted). Sampling: no proof."
W = "No test compiles or runs the C++ framework: the tests resolve Dafny sources and verify a few Rust files. Which write finishes when, which call fails and where the process dies cannot be listed by examples."
FW = "framework/Framework.cpp"; AP = "framework/Application.h"
def f(id, title, st, over, text, files, mech, obs, state=[]):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=W, anchors=dict(files=list(dict.fromkeys([FW] + files)), state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=obs, hook_needed=None), technique=T, note=N))
f("F01", "Each disk write is performed once, bounded, and reported once when durable",
  "DiskIOHandler puts exactly the bytes of every write at its address exactly once, keeps its buffer and control block untouched until the OS has finished, and never has more than eight writes in progress. A write's completion is reported exactly once, with its own id, address and length, and only after its bytes are durable; completeWriteTasks returns only when every write is done, waitForOne only when at least one is.",
  ["schedules", "histories", "fault_sequences"], "every legal sequence of handler calls, any number of outstanding writes, every completion order and delay, interrupted waits",
  ["framework/Framework.h", AP], [("write queue with at most MAX_WRITE_REQS_OUT started", FW + ":maybeStartWriteReq"), ("completion polling", FW + ":prepareWriteResponse")],
  ["aio_write and pwrite calls", "getWriteResult", "file contents"], [("nWriteReqsOut / nWriteReqsWaiting", "started and held-back writes", FW)])
f("F02", "A failed disk operation or allocation stops the process, never lies",
  "When a write fails or is short, a read fails or is short, an allocation returns null, the file cannot be opened or the disk is full, the process exits with a non-zero status; it never reports the operation complete, answers from it, or carries on as if it had succeeded. Everything covered by an earlier completed Sync is intact at the next start.",
  ["fault_sequences", "histories", "schedules"], "every libc call the process makes, failing in each way it can, at any moment of any history",
  ["framework/Framework.h", "framework/BundleWrapper.cpp"], [("fail() on every error path", FW + ":fail"), ("result checks in check_if_complete, readSync, writeSync", FW)],
  ["process exit status", "completions reported", "contents after restart"])
f("F03", "Each disk read returns the file's bytes, once, under its own id",
  "Every read issued through DiskIOHandler is answered exactly once, with its own id and address and exactly the requested number of bytes the file held, whatever other reads and writes are outstanding. Pending reads are never lost or given another read's bytes.",
  ["histories", "schedules"], "every mix and number of outstanding reads and writes, any order of collecting responses",
  ["framework/Framework.h", AP], [("read queue", FW + ":prepareReadResponse")], ["getReadResult"], [("readReqs", "reads not yet delivered", "framework/Framework.h")])
f("F04", "The Application API is a durable ordered map",
  "Insert, Query, QueryAndExpect and Succ behave as one ordered map: a query returns the latest inserted value, and Succ lists the live keys from its bound in increasing order, none skipped or repeated, as many as asked while there are any. After a process kill, a power loss or crash() at any point, the store holds a prefix of the accepted inserts that includes all that were inserted before the last completed Sync.",
  ["histories", "crash_points", "schedules", "fault_sequences", "configurations"], "every sequence of API calls, every point of process death or power loss inside them, both build variants",
  [AP, "framework/BundleWrapper.cpp", "Impl/MainHandlers.i.dfy"], [("retry loops that wait for I/O and deliver responses", FW + ":Application::Insert"), ("paging of SuccOnce", FW + ":Application::Succ")],
  ["Insert, Query, Succ, Sync results", "contents after restart"])
f("F05", "The row cache never changes an answer and holds the N latest rows",
  "With the unverified row cache compiled in, every query answers exactly as without it. The cache holds exactly the most recently inserted or queried keys up to its capacity, and a crash() empties it, so no row that the recovered store does not hold is ever served.",
  ["histories", "crash_points"], "every sequence of inserts, queries, crashes and restarts, with more keys than the cache holds",
  ["framework/UnverifiedRowCache.cpp", AP], [("LRU list with a hash index", "framework/UnverifiedRowCache.cpp"), ("reset on crash", FW + ":Application::crash")], ["Query results", "which queries reach the store"])
f("F06", "API calls finish in bounded time and the process never dies without cause",
  "Without faults every API call returns after a bounded number of store steps and waits, however slow, reordered or interrupted the I/O is. The process never exits, asserts, sleeps with nothing to wait for or touches memory it does not own unless an injected fault or a refused argument forces it.",
  ["schedules", "histories", "configurations"], "every history and I/O timing, including very slow writes and interrupted waits",
  [AP, "framework/BundleWrapper.cpp"], [("Sync, Insert, Query and SuccOnce retry loops", FW + ":Application::Sync"), ("waiting", FW + ":waitForOne")], ["calls returning", "process exit"])
f("F07", "Oversize arguments are refused; crash() is a clean restart",
  "A key or value longer than the store's limit is refused with a non-zero exit before it can affect the store, and anything within the limit is accepted. crash() at any moment abandons the old state and in-flight I/O safely and reopens the store as a restart would, any number of times.",
  ["histories", "schedules", "crash_points"], "every argument length around and above the limits; crash() with any number of writes queued, started or finished",
  [AP, "framework/Framework.h"], [("length checks", FW + ":Application::Insert"), ("crash and reinitialise", FW + ":Application::crash"), ("abandoning writes", FW + ":DiskIOHandler::~DiskIOHandler")], ["process exit", "contents after restart", "aio_write buffers and control blocks"])
f("F08", "The unverified native code meets the contracts the proofs assume",
  "Every operation implemented natively outside the verified code (packed integers, sequence comparison and copies, arrays, checksums, map removal, linear cells, sequences and boxes) returns exactly what its Dafny contract promises, for every argument the store passes it and for generated ones at the boundaries. It touches only memory it was given, and a linear value is destroyed exactly once.",
  ["inputs", "histories"], "every argument reached in whole-store runs, and generated arguments at alignment, length and value boundaries",
  ["framework/NativeArrays.h", "framework/LinearExtern.h", "framework/LinearBox.h", "lib/Lang/NativeTypes.s.dfy", "lib/Lang/System/PackedInts.s.dfy"], [("extern functions", "framework/NativeArrays.h"), ("linear externs", "framework/LinearExtern.h")], ["results of each extern call"])
NA = []
