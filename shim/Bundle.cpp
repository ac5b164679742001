// The compiled Dafny code is replaced by calls into the simulator, which interprets the Dafny sources themselves.
#pragma once
#include "Bundle.i.h"
#include "bridge.h"
namespace KeyType_Compile { struct __default { static uint64 MaxLen() { return br_max_key(); } }; }
namespace ValueType_Compile { struct __default { static uint64 MaxLen() { return br_max_value(); } }; }
namespace MainHandlers_Compile {
  typedef std::shared_ptr<MainDiskIOHandler_Compile::DiskIOHandler> IOP;
  typedef DafnySequence<uint8> Bytes;
  static inline BrBytes bb(const Bytes& s) { return BrBytes{s.ptr(), s.size()}; }
  static inline Bytes fromBB(BrBytes b) { Bytes s(b.n); if (b.n) memcpy(s.ptr(), b.p, b.n); return s; }
  struct __default {
    static FullImpl_Compile::Full InitState() { return FullImpl_Compile::Full{br_init()}; }
    static DafnyMap<uint64, Bytes> Mkfs() { DafnyMap<uint64, Bytes> m; br_mkfs([](void* c, uint64_t a, BrBytes b) { ((DafnyMap<uint64, Bytes>*)c)->map.insert(std::make_pair((uint64)a, fromBB(b))); }, &m); return m; }
    static bool handleInsert(FullImpl_Compile::Full& f, IOP io, Bytes k, Bytes v) { return br_insert(f.h, io.get(), bb(k), bb(v)); }
    static Options_Compile::Option<Bytes> handleQuery(FullImpl_Compile::Full& f, IOP io, Bytes k) { Options_Compile::Option<Bytes> o; BrBytes b; if (br_query(f.h, io.get(), bb(k), &b)) { o.some = true; o.v = fromBB(b); } return o; }
    static Options_Compile::Option<UI_Compile::SuccResultList> handleSucc(FullImpl_Compile::Full& f, IOP io, UI_Compile::RangeStart st, uint64 mx) {
      Options_Compile::Option<UI_Compile::SuccResultList> o; BrSucc s;
      if (br_succ(f.h, io.get(), st.tag, bb(st.key), mx, &s)) { o.some = true; o.v.results = DafnySequence<UI_Compile::SuccResult>((uint64)s.n); for (uint64 i = 0; i < s.n; i++) { o.v.results.ptr()[i].key = fromBB(s.keys[i]); o.v.results.ptr()[i].value = fromBB(s.vals[i]); } o.v.end.tag = s.endTag; if (s.endTag != 3) o.v.end.key = fromBB(s.endKey); }
      return o;
    }
    static uint64 handlePushSync(FullImpl_Compile::Full& f, IOP io) { return br_push(f.h, io.get()); }
    static Tuple<bool, bool> handlePopSync(FullImpl_Compile::Full& f, IOP io, uint64 id, bool g) { int w = 0, s = 0; br_pop(f.h, io.get(), id, g, &w, &s); return Tuple<bool, bool>(w != 0, s != 0); }
    static void handleReadResponse(FullImpl_Compile::Full& f, IOP io) { br_read_response(f.h, io.get()); }
    static void handleWriteResponse(FullImpl_Compile::Full& f, IOP io) { br_write_response(f.h, io.get()); }
    static void handleEvictEverything(FullImpl_Compile::Full& f, IOP io) { br_evict(f.h, io.get()); }
    static void handleCountAmassAllocations(FullImpl_Compile::Full& f, IOP io) { br_count(f.h, io.get()); }
  };
}
