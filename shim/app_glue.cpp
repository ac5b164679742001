// C interface of the real framework (compiled together with it) for the simulator.
#include "BundleWrapper.h"
#include <bits/stdc++.h>
#define private public          // app_start_sync: the two handles of an Application
#include "Application.h"
#undef private
#include "Bundle.i.h"
#include "bridge.h"
using MainDiskIOHandler_Compile::DiskIOHandler;
typedef DafnySequence<uint8> Bytes;
static Bytes mk(BrBytes b) { Bytes s((uint64)b.n); if (b.n) memcpy(s.ptr(), b.p, b.n); return s; }
void benchmark_start(std::string const&) {} void benchmark_end(std::string const&) {} void benchmark_append(std::string const&, long long) {} void benchmark_clear() {} void benchmark_dump() {}
namespace NativeBenchmarking_Compile { void start(DafnySequence<char>) {} void end(DafnySequence<char>) {} }
// a sync begun and left alone, through the same handles Application::Sync uses (0 where the class keeps them elsewhere)
template <class A> static auto startSync(A& p, int g, int n, int) -> decltype(handle_PushSync(p.hs, p.io), 0) { uint64 id = handle_PushSync(p.hs, p.io); if (id == 0) return 0; for (int i = 0; i < n; i++) { auto t = handle_PopSync(p.hs, p.io, id, g); if (t.second) return 1; if (t.first) break; } return 0; }
template <class A> static int startSync(A&, int, int, long) { return 0; }
extern "C" {
  void* app_new(const char* f) { return new Application(std::string(f)); }
  void app_delete(void* a) { delete (Application*)a; }
  void app_mkfs(const char* f) { Mkfs(std::string(f)); }
  void app_crash(void* a) { ((Application*)a)->crash(); }
  void app_sync(void* a, int g) { ((Application*)a)->Sync(g); }
  // the first steps of Application::Sync, without waiting for the disk: 1 when it is already done
  int app_start_sync(void* a, int g, int n) { return startSync(*(Application*)a, g, n, 0); }
  void app_insert(void* a, BrBytes k, BrBytes v, int str) { if (str) ((Application*)a)->Insert(std::string((const char*)k.p, k.n), std::string((const char*)v.p, v.n)); else ((Application*)a)->Insert(ByteString(mk(k)), ByteString(mk(v))); }
  void app_query(void* a, BrBytes k, int str, void (*out)(void*, BrBytes), void* c) { ByteString r = str ? ((Application*)a)->Query(std::string((const char*)k.p, k.n)) : ((Application*)a)->Query(ByteString(mk(k))); if (str) { std::string t = r.as_string(); out(c, BrBytes{(uint8_t*)t.data(), t.size()}); } else out(c, BrBytes{r.seq.ptr(), r.size()}); }
  void app_expect(void* a, BrBytes k, BrBytes v) { ((Application*)a)->QueryAndExpect(ByteString(mk(k)), ByteString(mk(v))); }
  void app_succ(void* a, BrBytes k, int incl, uint64_t n, void (*out)(void*, BrBytes, BrBytes), void* c) { auto v = ((Application*)a)->Succ(ByteString(mk(k)), incl, n); for (auto& p : v) out(c, BrBytes{p.first.seq.ptr(), p.first.size()}, BrBytes{p.second.seq.ptr(), p.second.size()}); }
  void app_evict(void* a) { ((Application*)a)->EvictEverything(); }
  uint64_t io_write(void* io, uint64_t addr, BrBytes b) { return ((DiskIOHandler*)io)->write(addr, mk(b)); }
  void io_write2(void* io, uint64_t a1, BrBytes b1, uint64_t a2, BrBytes b2, uint64_t* i1, uint64_t* i2) { auto t = ((DiskIOHandler*)io)->write2(a1, mk(b1), a2, mk(b2)); *i1 = t.get<0>(); *i2 = t.get<1>(); }
  uint64_t io_read(void* io, uint64_t addr, uint64_t len) { return ((DiskIOHandler*)io)->read(addr, len); }
  void io_get_write(void* io, uint64_t* id, uint64_t* a, uint64_t* l) { auto t = ((DiskIOHandler*)io)->getWriteResult(); *id = t.get<0>(); *a = t.get<1>(); *l = t.get<2>(); }
  void io_get_read(void* io, uint64_t* id, uint64_t* a, void (*out)(void*, BrBytes), void* c) { auto t = ((DiskIOHandler*)io)->getReadResult(); *id = t.get<0>(); *a = t.get<1>(); Bytes b = t.get<2>(); out(c, BrBytes{b.ptr(), b.size()}); }
  void* io_new(const char* f) { return new std::shared_ptr<DiskIOHandler>(std::make_shared<DiskIOHandler>(std::string(f))); }
  void* io_ptr(void* h) { return ((std::shared_ptr<DiskIOHandler>*)h)->get(); }
  void io_delete(void* h) { delete (std::shared_ptr<DiskIOHandler>*)h; }
  int io_prep_write(void* io) { return ((DiskIOHandler*)io)->prepareWriteResponse(); }
  int io_prep_read(void* io) { return ((DiskIOHandler*)io)->prepareReadResponse(); }
  int io_has_write(void* io) { return ((DiskIOHandler*)io)->has_write_task(); }
  int io_has_read(void* io) { return ((DiskIOHandler*)io)->has_read_task(); }
  void io_complete_all(void* io) { ((DiskIOHandler*)io)->completeWriteTasks(); }
  void io_wait_one(void* io) { ((DiskIOHandler*)io)->waitForOne(); }
  int bs_less(BrBytes a, BrBytes b) { return ByteString(mk(a)) < ByteString(mk(b)); }
}
#ifndef USE_UNVERIFIED_ROW_CACHE
extern "C" uint64_t app_rowcap() { return 0; }
#endif
