// Deterministic simulation of the whole process: the real C++ framework (Application, DiskIOHandler, row cache; compiled from
// /repo/framework) driving the real handlers (interpreted from /repo/Impl) over a simulated kernel: file, POSIX AIO, allocator,
// process death, power loss. Every libc call the framework makes lands here.
#include "../engine/interp.h"
#include "../shim/bridge.h"
#include "disk.h"
#include "model.h"
#include "veri.h"
#include "natives_check.h"
#include <aio.h>
#include <cstdarg>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <list>
#include <malloc.h>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>
using namespace dfy; using std::string; using std::vector;
static const char* MH = "MainHandlers.";
static Val byteSeq(const string& s) { return mkSeqBytes((const uint8_t*)s.data(), s.size()); }

// ------------------------------------------------------------------ one loaded copy of the framework
struct So {
  void* h = nullptr;
  void* (*app_new)(const char*); void (*app_mkfs)(const char*); void (*app_crash)(void*); void (*app_sync)(void*, int); int (*app_start_sync)(void*, int, int); void (*app_insert)(void*, BrBytes, BrBytes, int); void (*app_query)(void*, BrBytes, int, void (*)(void*, BrBytes), void*);
  void (*app_expect)(void*, BrBytes, BrBytes); void (*app_succ)(void*, BrBytes, int, uint64_t, void (*)(void*, BrBytes, BrBytes), void*); uint64_t (*app_rowcap)();
  uint64_t (*io_write)(void*, uint64_t, BrBytes); void (*io_write2)(void*, uint64_t, BrBytes, uint64_t, BrBytes, uint64_t*, uint64_t*); uint64_t (*io_read)(void*, uint64_t, uint64_t); void (*io_get_write)(void*, uint64_t*, uint64_t*, uint64_t*); void (*io_get_read)(void*, uint64_t*, uint64_t*, void (*)(void*, BrBytes), void*);
  void* (*io_new)(const char*); void* (*io_ptr)(void*); void (*io_delete)(void*); int (*io_prep_write)(void*); int (*io_prep_read)(void*); int (*io_has_write)(void*); int (*io_has_read)(void*); void (*io_complete_all)(void*); void (*io_wait_one)(void*);
};
static string g_img[2];
static string exeDir() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); if (n <= 0) return "build"; b[n] = 0; string s = b; return s.substr(0, s.rfind('/')); }
static So* loadSo(int variant) {
  int fd = memfd_create("app", 0); if (fd < 0) throw std::runtime_error("memfd_create failed");
  const string& img = g_img[variant]; size_t off = 0; while (off < img.size()) { ssize_t n = ::write(fd, img.data() + off, img.size() - off); if (n <= 0) throw std::runtime_error("memfd write failed"); off += n; }
  string p = "/proc/self/fd/" + std::to_string(fd);
  So* s = new So; s->h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL); if (!s->h) throw std::runtime_error(string("dlopen: ") + dlerror());
  auto S = [&](const char* n, auto& f) { f = (std::remove_reference_t<decltype(f)>)dlsym(s->h, n); if (!f) throw std::runtime_error(string("missing ") + n); };
  S("app_new", s->app_new); S("app_mkfs", s->app_mkfs); S("app_crash", s->app_crash); S("app_sync", s->app_sync); S("app_start_sync", s->app_start_sync); S("app_insert", s->app_insert); S("app_query", s->app_query); S("app_expect", s->app_expect); S("app_succ", s->app_succ); S("app_rowcap", s->app_rowcap);
  S("io_write", s->io_write); S("io_write2", s->io_write2); S("io_read", s->io_read); S("io_get_write", s->io_get_write); S("io_get_read", s->io_get_read);
  S("io_new", s->io_new); S("io_ptr", s->io_ptr); S("io_delete", s->io_delete); S("io_prep_write", s->io_prep_write); S("io_prep_read", s->io_prep_read); S("io_has_write", s->io_has_write); S("io_has_read", s->io_has_read); S("io_complete_all", s->io_complete_all); S("io_wait_one", s->io_wait_one);
  return s;
}

// ------------------------------------------------------------------ fibers
enum { ST_DONE, ST_CRASH, ST_EXIT, ST_STUCK, ST_DAFNY };
struct Fiber {
  ucontext_t mainc, fib; char* stk = nullptr; size_t sz = 512ull << 20; std::function<void()> fn; int status = ST_DONE; std::exception_ptr ex; bool inside = false;
  static Fiber* cur;
  static void entry() { Fiber* f = cur; try { f->fn(); f->status = ST_DONE; } catch (...) { f->ex = std::current_exception(); f->status = ST_DAFNY; } f->inside = false; swapcontext(&f->fib, &f->mainc); }
  int run(std::function<void()> g) {
    if (!stk) { stk = (char*)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (stk == MAP_FAILED) throw std::runtime_error("no stack"); }
    fn = g; ex = nullptr; getcontext(&fib); fib.uc_stack.ss_sp = stk; fib.uc_stack.ss_size = sz; fib.uc_link = nullptr; makecontext(&fib, (void (*)())entry, 0);
    cur = this; inside = true; swapcontext(&mainc, &fib); return status;
  }
  [[noreturn]] void escape(int st) { status = st; inside = false; swapcontext(&fib, &mainc); abort(); }
};
Fiber* Fiber::cur = nullptr;

struct Req { uint64_t n; const struct aiocb* cb; int fd; uint64_t off, len; const uint8_t* buf; string snap; uint64_t due; bool done = false, returned = false; int err = 0; ssize_t ret = 0; };
struct StoreOp { bool wr; uint64_t addr; string data; uint64_t len; bool reported = false; uint64_t repBy = 0; bool skipCheck = false, pair = false; uint64_t boot; };
struct FileState { Disk cur, dur; uint64_t size = 0; bool exists = false; vector<std::pair<uint64_t, string>> unsynced; };

static void onTimer(int);
static volatile uint64_t g_progress = 0;

struct AppRun* G = nullptr;
struct AppRun {
  RunResult R; Model M; vector<string> keys; uint64_t seed = 1; std::map<string, uint64_t> knob; uint64_t th = 7, shp = 3, clk = 0; size_t opNo = 0; int boots = 0; bool stop = false;
  FileState F; std::map<int, int> fds; std::map<int, off_t> fpos; int nextFd = 100; std::list<Req> reqs; uint64_t reqN = 0, seamN = 0, handlerN = 0, hseq = 0;
  Fiber fb; So* so = nullptr; void* app = nullptr; int variant = 0; string api; std::ostringstream out; int exitCode = 0;
  std::map<std::pair<void*, uint64_t>, StoreOp> ops; std::set<std::pair<void*, uint64_t>> gone; bool mkfsMode = false;
  long armed = -1; std::map<int, long> fault; bool hardFault = false; string faultName; bool oversize = false;
  std::map<const void*, Val*> fulls; uint64_t qcalls = 0;
  std::list<string> lru; uint64_t rowcap = 0; Val ioVal;
  uint64_t k(const char* n, uint64_t d) { auto i = knob.find(n); return i == knob.end() ? d : i->second; }
  void tr(const string& s) { th = hstr(s, th); static bool v = getenv("SIM_TRACE"); if (v) fprintf(stderr, "%s\n", s.c_str()); }
  void kind(uint64_t c) { shp = hmix(shp, c); }
  void bad(const string& p, const string& m) { R.bad(p, m + " [boot " + std::to_string(boots) + ", op " + std::to_string(opNo) + ", in " + api + "]"); tr("BAD " + p + " " + m); }
  bool over() { return g_focus.empty() ? !R.viol.empty() : R.violates(g_focus); }
  string lab(const string& base, bool data = true) { string p = base; if (data && used2) p += ",V10"; if (data && k("tightCache", 0)) p += ",V12"; if (k("tightSpace", 0)) p += ",V11"; if (inRec) p += ",V09"; return p; }
  bool used2 = false, inRec = false, inScan = false;
  uint64_t rnd() { return hmix(seed, 0x5EA0000 + hseq++); }

  // ---------------------------------------------------------------- kernel
  void seam(const char* n) { g_progress++; seamN++; clk += 200 + rnd() % 2000; advance(); tr(string("~") + n); if (armed > 0 && fb.inside && --armed == 0) { armed = -1; tr("armed crash"); R.ctr["fault.crash_inside_call"]++; fb.escape(ST_CRASH); } }
  bool fire(int kd) { auto i = fault.find(kd); if (i == fault.end()) return false; if (--i->second > 0) return false; fault.erase(i); return true; }
  bool syncFault = false;
  void hard(const char* n) { hardFault = true; if (!strstr(n, "write") && !strstr(n, "disk_full")) syncFault = true; faultName = n; R.ctr[string("fault.") + n]++; tr(string("fault ") + n); }
  bool sync_(int fd) { auto i = fds.find(fd); return i != fds.end() && (i->second & (O_DSYNC | O_SYNC)); }
  void put(uint64_t off, const string& s, bool durable) { F.cur.write(off, s); F.size = std::max(F.size, off + s.size()); if (durable) F.dur.write(off, s); else F.unsynced.push_back({off, s});
    if (durable) for (auto& u : F.unsynced) { uint64_t a = std::max(u.first, off), e = std::min(u.first + u.second.size(), off + s.size()); if (a < e) u.second.replace(a - u.first, e - a, s, a - off, e - a); } }
  void advance() {
    while (true) {
      Req* b = nullptr; for (auto& r : reqs) if (!r.done && r.due <= clk && (!b || r.due < b->due)) b = &r;
      if (!b) return;
      finish(*b);
    }
  }
  void finish(Req& r) {
    string now((const char*)r.buf, r.len); if (now != r.snap) bad("F01,V01,V02", "the buffer of a write changed while the write was in flight");
    bool open = fds.count(r.fd); if (r.off < 8192) liveOn = false;
    if (!open) { r.err = EBADF; r.ret = -1; R.ctr["os.write_after_close"]++; bad("F01,F07,V01", "the file was closed while a write to it was still queued"); }
    else if (fire(2)) { hard("write_eio"); string t = r.snap; Disk d = F.cur; if (rnd() & 1) { uint64_t n = rnd() % (r.len / 512 + 1) * 512; put(r.off, t.substr(0, n), true); } r.err = EIO; r.ret = -1; }
    else if (fire(3)) { hard(rnd() & 1 ? "disk_full_short_write" : "short_write"); uint64_t n = rnd() % (r.len / 512) * 512; put(r.off, r.snap.substr(0, n), sync_(r.fd)); r.ret = n; }
    else if (fire(11)) { hard("disk_full"); r.err = ENOSPC; r.ret = -1; }
    else { put(r.off, r.snap, sync_(r.fd)); r.ret = r.len; if (r.off < 8192 && !hardFault && cli == nullptr) { R.ctr["superblock.commits"]++; uint64_t e = k("probeEvery", 0); if (e && rnd() % e == 0) superblockProbe = true; } }
    r.done = true; r.due = 0; R.ctr["io.writes"]++; kind(50); tr("disk done " + std::to_string(r.n));
    if (superblockProbe) { superblockProbe = false; crashProbe("power loss right after a superblock write", 0); }
  }
  // what would a power loss here leave behind? h = 0: nothing that is unfinished reaches the file; else any part of it
  bool superblockProbe = false, liveOn = false, probing = false; vector<std::pair<uint64_t, uint64_t>> live_;
  void crashProbe(const string& when, uint64_t h) {
    if (probing || hardFault || faulted || over() || stop || mkfsMode) return;
    struct P { bool& b; P(bool& b) : b(b) { b = true; } ~P() { b = false; } } pr(probing);
    Disk d = F.dur; size_t j = 0; if (h) { for (auto& u : F.unsynced) d.tear(u.first, u.second, hmix(h, j++)); for (auto& r : reqs) if (!r.done && fds.count(r.fd)) d.tear(r.off, r.snap, hmix(h, j++)); }
    g_progress++; VeriIO* keep = VeriIO::cur; auto hk = natBad; Scan s = veriProbe(d, 20000, true, keys, R.ctr); VeriIO::cur = keep; natBad = hk; R.ctr["fault.crash_probe"]++; tr("probe " + when + " " + std::to_string(h));
    if (s.tooLong) { R.ctr["probe.too_long"]++; return; }
    if (!s.ok) { bad(lab("F04,V01,V02,V09"), when + ": " + s.err); return; }
    if (!h) { live_.clear(); for (auto& x : s.reads) if (x.first >= 8192) live_.push_back(x); liveOn = true; }
    if (M.isPrefix(s.kv, M.lo)) return;
    bool pre = M.isPrefix(s.kv, 0); bad(lab(pre ? "F04,V01,V14" : "F04,V02,V01"), when + ": the store recovers " + (pre ? "a state older than the last completed Sync" : "no state that some prefix of the accepted writes produces") + "; against the latest: " + diffKV(M.c[0].cur, s.kv));
  }
  void maybeProbe(const string& when) { uint64_t e = k("probeEvery", 0); if (!e || !live() || rnd() % e) return; uint64_t h = rnd(); crashProbe(when, h & 1 ? h : 0); }
  int inflight() { int n = 0; for (auto& r : reqs) if (!r.done) n++; return n; }
  Req* find(const struct aiocb* cb) { for (auto& r : reqs) if (r.cb == cb && !r.returned) return &r; return nullptr; }
  // bytes that reach the file must be bytes the store asked to put there
  void checkBytes(uint64_t off, const string& s) {
    if (mkfsMode) return;
    for (auto& o : ops) if (o.second.wr && o.second.boot == (uint64_t)boots && !o.second.reported) { uint64_t pl = (o.second.len + 4095) / 4096 * 4096; if (off >= o.second.addr && off + s.size() <= o.second.addr + pl) { uint64_t d = off - o.second.addr, n = d >= o.second.len ? 0 : std::min<uint64_t>(s.size(), o.second.len - d); if (o.second.data.compare(d, n, s, 0, n) == 0) return; } }
    bool in = false; for (auto& o : ops) if (o.second.wr && o.second.boot == (uint64_t)boots && !o.second.reported && off >= o.second.addr && off + s.size() <= o.second.addr + (o.second.len + 4095) / 4096 * 4096) in = true;
    bad(in ? "F01,V01,V02" : "F01,V08,V02", "the process writes " + std::to_string(s.size()) + " bytes at " + std::to_string(off) + ", which is not what any outstanding write of the store asked for");
  }
  int sys_open(const char* n, int fl) { seam("open"); if (fire(8)) { hard("open_failure"); errno = EMFILE; return -1; } if (!F.exists) { if (!(fl & O_CREAT)) { errno = ENOENT; return -1; } F.exists = true; } if (fl & O_TRUNC) { F.cur = Disk(); F.dur = Disk(); F.size = 0; } int fd = nextFd++; fds[fd] = fl; return fd; }
  int sys_close(int fd) { seam("close"); if (!fds.erase(fd)) { errno = EBADF; return -1; } return 0; }
  ssize_t sys_pread(int fd, void* b, size_t n, off_t off) {
    seam("pread"); if (!fds.count(fd)) { errno = EBADF; return -1; }
    if (fire(4)) { hard("read_eio"); errno = EIO; return -1; } if (fire(10)) { hard("read_eintr"); errno = EINTR; return -1; }
    uint64_t m = (uint64_t)off >= F.size ? 0 : std::min<uint64_t>(n, F.size - off);
    if (m && fire(5)) { hard("short_read"); m = rnd() % m; }
    F.cur.read(off, (uint8_t*)b, m); R.ctr["io.reads"]++; clk += 20000 + rnd() % 200000; return m;
  }
  ssize_t sys_pwrite(int fd, const void* b, size_t n, off_t off) {
    seam("pwrite"); if (!fds.count(fd)) { errno = EBADF; return -1; }
    if (fire(9)) { if (rnd() & 1) { hard("mkfs_write_error"); errno = EIO; return -1; } hard("mkfs_short_write"); n = n > 512 ? n / 1024 * 512 : 0; }
    string s((const char*)b, n); checkBytes(off, s); put(off, s, sync_(fd)); return n;
  }
  int sys_fsync(int fd) { seam("fsync"); for (auto& u : F.unsynced) F.dur.write(u.first, u.second); F.unsynced.clear(); return 0; }
  int sys_aio_write(struct aiocb* cb) {
    seam("aio_write"); if (fire(1)) { hard("aio_eagain"); errno = EAGAIN; return -1; } if (!fds.count(cb->aio_fildes)) { errno = EBADF; return -1; }
    string s((const char*)cb->aio_buf, cb->aio_nbytes); checkBytes(cb->aio_offset, s);
    if (find(cb)) bad("F01", "an AIO control block was submitted again before its first write was collected");
    uint64_t lat = k("iolat", 100000), slow = k("ioslow", 0); uint64_t d = lat ? rnd() % lat : 0; if (slow && rnd() % slow == 0) { d = d * 40 + 500000; R.ctr["fault.slow_write"]++; }
    Req r{reqN++, cb, cb->aio_fildes, (uint64_t)cb->aio_offset, cb->aio_nbytes, (const uint8_t*)cb->aio_buf, s, clk + d}; reqs.push_back(r);
    int n = inflight(); if (n >= 8) R.ctr["reach.8_writes_in_flight"]++; if (n > 8) bad(crashed ? "F01,F07" : "F01", std::to_string(n) + " writes were in progress at once; the limit is 8");
    if (liveOn) for (auto& l : live_) if (l.first < r.off + r.len && r.off < l.first + l.second) { bad("V08,V01", "a write to " + std::to_string(r.off) + "+" + std::to_string(r.len) + " overlaps " + std::to_string(l.first) + "+" + std::to_string(l.second) + ", which the durable superblock still needs"); break; }
    tr("aio " + std::to_string(r.off) + "+" + std::to_string(r.len)); kind(40 + std::min(n, 9)); return 0;
  }
  int sys_aio_error(const struct aiocb* cb) { seam("aio_error"); Req* r = find(cb); if (!r) { errno = EINVAL; return EINVAL; } return r->done ? r->err : EINPROGRESS; }
  ssize_t sys_aio_return(struct aiocb* cb) { seam("aio_return"); Req* r = find(cb); if (!r) { errno = EINVAL; return -1; } if (!r->done) { errno = EINVAL; bad("F01", "aio_return was called on a write that had not finished"); return -1; } ssize_t x = r->ret; for (auto i = reqs.begin(); i != reqs.end(); ++i) if (&*i == r) { reqs.erase(i); break; } return x; }
  int sys_aio_suspend(const struct aiocb* const l[], int n) {
    seam("aio_suspend"); uint64_t due = ~0ull; bool any = false;
    for (int i = 0; i < n; i++) { if (!l[i]) continue; any = true; Req* r = find(l[i]); if (!r || r->done) return 0; due = std::min(due, r->due); }
    if (!any) { bad("F06,V06", "the process waits for writes with none in the list: it would sleep forever"); fb.escape(ST_STUCK); }
    if (fire(6)) { R.ctr["fault.suspend_eintr"]++; tr("eintr"); errno = EINTR; return -1; }
    clk = std::max(clk, due); advance(); return 0;
  }
  void* sys_malloc(size_t n) { seam("malloc"); if (fire(7)) { hard("malloc_null"); errno = ENOMEM; return nullptr; } uint8_t* p = (uint8_t*)::malloc(n ? n : 1); for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(0xA5 ^ i * 37); return p; }
  bool released(void* p) {       // false: the block is still in use by the kernel
    if (!p) return true; size_t n = malloc_usable_size(p); const char *a = (const char*)p, *e = a + n;
    for (auto& r : reqs) if (!r.done) {
      const char* c = (const char*)r.cb; const char* b = (const char*)r.buf; bool hb = b < e && b + r.len > a, hc = c < e && c + sizeof(struct aiocb) > a;
      if (hb || hc) { bad("F01,F07", string("the ") + (hb ? "buffer" : "control block") + " of a write was freed while the write was in flight"); return false; }
    }
    return true;
  }
  [[noreturn]] void sys_exit(int c) { exitCode = c; tr("exit " + std::to_string(c)); if (!fb.inside) abort(); fb.escape(ST_EXIT); }

  // ---------------------------------------------------------------- the store's side of the bridge
  struct IO : VeriIO {
    AppRun* g; void* io; uint64_t boot0; IO(AppRun* g, void* io) : g(g), io(io), boot0(g->boots) {}
    void reg(uint64_t id, bool wr, uint64_t a, const string& b, uint64_t l) {
      if (g->ops.count({io, id}) || g->gone.count({io, id})) g->bad("F01,F03", "operation id " + std::to_string(id) + " was used twice");
      StoreOp o{wr, a, b, l}; o.boot = g->boots;
      if (!wr) { for (auto& x : g->ops) if (x.second.wr && !x.second.reported && x.second.boot == (uint64_t)g->boots && x.second.addr < a + l && a < x.second.addr + x.second.len) o.skipCheck = true; }
      g->ops[{io, id}] = o; g->tr((wr ? "op w " : "op r ") + std::to_string(a) + " " + std::to_string(l) + " " + std::to_string(hstr(b))); g->kind(wr ? 60 : 61); g->R.ctr[wr ? "store.writes" : "store.reads"]++; if (wr) g->R.ctr["store.writes_in." + g->api]++;
    }
    // the operation is known to the oracle before the framework acts on it
    struct Pre { AppRun* g; std::pair<void*, uint64_t> key; Pre(AppRun* g, void* io, uint64_t a, const string& b, uint64_t tag) : g(g), key{(char*)io + 1 + tag, ~0ull} { StoreOp o{true, a, b, b.size()}; o.boot = g->boots; g->ops[key] = o; } ~Pre() { g->ops.erase(key); } };
    uint64_t write(uint64_t a, string b) override { uint64_t id; { Pre p(g, io, a, b, 0); id = g->so->io_write(io, a, BrBytes{(const uint8_t*)b.data(), b.size()}); } reg(id, true, a, b, b.size()); return id; }
    void write2(uint64_t a, string b, uint64_t c, string d, uint64_t& i, uint64_t& j) override { g->used2 = true; { Pre p(g, io, a, b, 0), q(g, io, c, d, 1); g->so->io_write2(io, a, BrBytes{(const uint8_t*)b.data(), b.size()}, c, BrBytes{(const uint8_t*)d.data(), d.size()}, &i, &j); } reg(i, true, a, b, b.size()); reg(j, true, c, d, d.size()); g->ops[{io, i}].pair = g->ops[{io, j}].pair = true; }
    uint64_t read(uint64_t a, uint64_t l) override { uint64_t id = g->so->io_read(io, a, l); string b = g->F.cur.read(a, l); reg(id, false, a, b, l); return id; }
    void getWrite(uint64_t& id, uint64_t& a, uint64_t& l) override {
      g->so->io_get_write(io, &id, &a, &l); auto i = g->ops.find({io, id});
      if (i == g->ops.end() || !i->second.wr) { g->bad(g->crashed ? "F01,F02,F07" : "F01,F02", "a completed write was reported for id " + std::to_string(id) + ", which is no outstanding write"); return; }
      StoreOp& o = i->second; if (o.reported) { if (o.repBy != g->respN || o.addr != a || o.len != l) g->bad("F01", "the completion of write " + std::to_string(id) + " was reported twice"); return; }
      if (o.addr != a || o.len != l) g->bad("F01", "the completion of write " + std::to_string(id) + " names the wrong place: " + std::to_string(a) + "+" + std::to_string(l));
      if (g->F.dur.read(o.addr, o.len) != o.data) g->bad(string(g->hardFault ? "F01,F02" : "F01") + ",V01,V14" + (o.pair ? ",V10" : ""), "write " + std::to_string(id) + " was reported complete but its bytes are not durable in the file");
      o.reported = true; o.repBy = g->respN; o.data.clear(); g->R.ctr["store.writes_completed"]++;
    }
    void getRead(uint64_t& id, uint64_t& a, string& b) override {
      g->so->io_get_read(io, &id, &a, [](void* c, BrBytes x) { ((string*)c)->assign((const char*)x.p, x.n); }, &b); auto i = g->ops.find({io, id});
      if (i == g->ops.end() || i->second.wr) { g->bad(g->crashed ? "F03,F07" : "F03", "a completed read was reported for id " + std::to_string(id) + ", which is no outstanding read"); return; }
      StoreOp& o = i->second; if (o.reported) { if (o.repBy != g->respN || b != o.data) g->bad("F03", "the completion of read " + std::to_string(id) + " was reported twice"); return; }
      if (o.addr != a) g->bad("F03", "the completion of read " + std::to_string(id) + " names the wrong address");
      if (!o.skipCheck && (b.size() != o.len || b != o.data)) g->bad(string(g->hardFault ? "F03,F02" : "F03") + ",V03,V04,V02", "read " + std::to_string(id) + " of " + std::to_string(o.len) + " bytes at " + std::to_string(o.addr) + " returned other bytes than the file holds");
      o.reported = true; o.repBy = g->respN; o.data = b; g->R.ctr["store.reads_completed"]++;
    }
  };
  Val H(void* f, void* io, const string& n, vector<Val> extra, vector<Val>* outs = nullptr) {
    g_progress++; if (++handlerN > k("bound", 20000)) { if (wkN > 2000) R.ctr["stuck.excused"]++; else if (pathExceedsCache(*(Val*)f)) R.ctr["stuck.path_exceeds_cache"]++; else bad(lab(string("F06,V06") + (inScan ? ",V09,V01,F04" : "") + (inScan && boots <= mkfsBoots + 1 ? ",V13" : "") + (api == "Sync" ? ",V14" : ""), false), "the call made no progress within " + std::to_string(k("bound", 20000)) + " store steps"); fb.escape(ST_STUCK); }
    clk += 1000 + rnd() % 60000; advance();
    IO v(this, io); VeriIO* keep = VeriIO::cur; VeriIO::cur = &v; uint64_t lim = EN->stepLimit; EN->stepLimit = EN->steps + 60000000;
    vector<Val> a; a.push_back(Val::Ref((Val*)f)); a.push_back(ioVal); for (auto& x : extra) a.push_back(x);
    struct Back { VeriIO* k; uint64_t l; ~Back() { VeriIO::cur = k; EN->stepLimit = l; } } back{keep, lim};
    Val r = EN->call(n, a, outs); state(); return r;
  }
  void state() { uint64_t h = 17; int q = 0, nw = 0; for (auto& o : ops) if (!o.second.reported && o.second.boot == (uint64_t)boots) { q += o.second.wr ? 1 : 100; nw += o.second.wr; } if (nw > 8) R.ctr["reach.more_than_8_writes_queued"]++; h = hmix(h, q); h = hmix(h, inflight()); h = hmix(h, hstr(api)); h = hmix(h, lru.size()); h = hmix(h, hardFault); R.states.push_back(h); }
  static bool cacheFull(Val& fs) { try { Val bc = field(fs, "bc"); if (!isCtor(bc, "Ready")) return false; return asU(EN->call("CacheImpl.CacheCount", {field(bc, "cache")})) + ((MapObj*)field(bc, "outstandingBlockReads").o)->m.size() >= asU(EN->call("Bounds.MaxCacheSizeUint64", {})); } catch (Unsupported&) { EN->unwind(); return true; } }

  // ---------------------------------------------------------------- API calls
  int call(const string& name, std::function<void()> f) {
    api = name; handlerN = 0; wkN = 0; kind(hstr(name)); tr("call " + name); out.str(""); int st = fb.run(f);
    if (st == ST_DAFNY) {
      EN->unwind(); string m; try { std::rethrow_exception(fb.ex); } catch (Unsupported&) { throw; } catch (std::exception& e) { m = e.what(); } catch (...) { m = "unknown exception"; }
      bad(hardFault ? "F02,F06" : lab("F06,F04,V15,V06", false) + "," + g_focus, "the process died of an uncaught failure: " + m); stop = true;
    } else if (st != ST_DONE) EN->unwind();
    VeriIO::cur = nullptr; EN->stepLimit = 2000000000000ull;
    if (st == ST_STUCK) stop = true; if (st == ST_DONE && inflight()) R.ctr["reach.call_returned_with_writes_in_flight." + name]++;
    tr("ret " + std::to_string(st)); return st;
  }
  // power loss or process kill: which unfinished writes reached the file is drawn from h
  void down(uint64_t h, bool power) {
    int torn = 0, lost = 0, whole = 0; size_t j = 0;
    for (auto& r : reqs) if (!r.done && fds.count(r.fd)) { Disk before = F.cur; int x = F.cur.tear(r.off, r.snap, hmix(h, 50 + j++)); (x == 0 ? lost : x == 1 ? torn : whole)++; if (x) { string s = F.cur.read(r.off, r.len); if (x == 2) F.dur.write(r.off, s); else for (uint64_t o = 0; o < r.len; o += 512) { uint64_t n = std::min<uint64_t>(512, r.len - o); string now = F.cur.read(r.off + o, n); if (now != before.read(r.off + o, n)) F.dur.write(r.off + o, now); } F.size = std::max(F.size, r.off + r.len); } }
    if (power) { for (auto& u : F.unsynced) { F.dur.tear(u.first, u.second, hmix(h, 900 + j++)); R.ctr["fault.unsynced_write_at_power_loss"]++; } F.unsynced.clear(); F.cur = F.dur; R.ctr["fault.power_loss"]++; } else R.ctr["fault.process_kill"]++;
    R.ctr["fault.write_lost_at_crash"] += lost; R.ctr["fault.write_torn_at_crash"] += torn; R.ctr["fault.write_done_unacked_at_crash"] += whole;
    liveOn = false; tr(power ? "power loss" : "kill"); kind(power ? 70 : 71); reqs.clear(); fds.clear(); app = nullptr;
  }
  // (re)start until the store is open and its whole contents have been read back
  bool restart(const string& when) {
    for (int tries = 0; tries < 200 && !stop && !over(); tries++) {
      boots++; ops.clear(); gone.clear(); hardFault = false; so = loadSo(variant); rowcap = so->app_rowcap(); lru.clear(); R.ctr["boots"]++;
      int st = call("Application()", [&] { app = so->app_new("store.img"); });
      if (stop) return false;
      if (st == ST_DONE) { string why; st = scanAndResolve(when); if (stop || over()) return false; if (st == ST_DONE) { inRec = false; return true; } }
      if (st == ST_EXIT) { if (!excused("restart")) return false; }
      armed = -1; if (tries > 3) fault.clear(); inRec = true; R.ctr["fault.crash_in_recovery"] += st == ST_CRASH; down(rnd(), rnd() & 1);
    }
    return false;
  }
  int scanAndResolve(const string& when) {
    KV kv; size_t n = keys.size() * 2 + 50; vector<std::pair<string, string>> res; inScan = true; int st = succCall("", 1, n, res); inScan = false; if (st != ST_DONE || stop) return st;
    for (auto& r : res) kv[r.first] = r.second;
    if (res.size() >= n) { bad(lab("F04,V02"), when + ": more keys than were ever written"); return st; }
    string d = diffKV(M.c[0].cur, kv); size_t lo = M.lo; bool pre = M.isPrefix(kv, 0);
    if (!M.resolve(kv)) {
      string p = faulted ? "F04,F02" : "F04"; if (!pre) p += ",V02"; if (forgets(kv)) p += ",V01,V14"; if (boots <= mkfsBoots + 1) p += ",V13"; if (pre && !forgets(kv)) p += ",V02,V01";
      bad(lab(p), when + ": the store holds " + (pre ? "a state older than the last completed Sync" : "no state that some prefix of the accepted writes produces") + "; against the latest: " + d); stop = true; }
    (void)lo; faulted = false; R.ctr["recoveries"]++; return st;
  }
  bool faulted = false; int mkfsBoots = 0;
  // some key's value is neither what the last completed sync covered nor anything written to it since
  bool forgets(const KV& kv) {
    KV m = M.c[0].base; for (size_t i = 0; i < M.lo; i++) applyOp(m, M.log[i]); std::map<string, std::set<string>> may; for (size_t i = M.lo; i < M.log.size(); i++) may[M.log[i].a].insert(M.log[i].b);
    for (auto& e : m) { auto i = kv.find(e.first); string got = i == kv.end() ? "" : i->second; if (got != e.second && !(may.count(e.first) && may[e.first].count(got))) return true; }
    return false;
  }
  // the process ended by itself: legal after an injected hard fault or a refused argument
  bool excused(const string& what) {
    string msg = out.str(); while (!msg.empty() && msg.back() == '\n') msg.pop_back();
    if (hardFault) { R.ctr["failstop." + faultName]++; faulted = true; if (exitCode == 0) bad("F02", "the process ended after a failed " + faultName + " with exit status 0"); return !over(); }
    bad(lab(string(crashed ? "F06,F07" : "F06") + ",V06,V15" + (what == "restart" ? ",V01,V02,V09" : "") + (what == "restart" && boots <= mkfsBoots + 1 ? ",V13" : ""), false), "the process ended by itself with no fault (exit status " + std::to_string(exitCode) + "): " + msg); stop = true; return false;
  }
  bool crashed = false; uint64_t armH = 0;
  // after a call that did not return: bring the process back
  void recover(int st, const string& what) {
    if (stop || over()) return;
    if (st == ST_EXIT && !excused(what)) return;
    if (st == ST_CRASH) R.ctr["fault.crash_in_" + what]++;
    uint64_t h = rnd(); down(h, st == ST_EXIT ? (h >> 7 & 3) == 0 : h >> 7 & 1); restart(st == ST_EXIT ? "after a fail-stop" : "after a crash inside " + what);
  }
  // a sync that is begun and not waited for: its writes stay in flight under whatever the client does next
  bool startSync(bool g, int n) { int ok = 0; int st = call("startSync", [&] { ok = so->app_start_sync(app, g, n); }); if (stop) return false; R.ctr["op.sync_started"]++; if (st == ST_DONE) { if (ok) { M.lo = M.log.size(); maybeProbe("power loss right after a sync was done"); } return true; } recover(st, "sync"); return false; }
  int succCall(const string& lo, int incl, uint64_t n, vector<std::pair<string, string>>& res) {
    return call("Succ", [&, n] { so->app_succ(app, BrBytes{(const uint8_t*)lo.data(), lo.size()}, incl, n, [](void* c, BrBytes k, BrBytes v) { ((vector<std::pair<string, string>>*)c)->push_back({string((const char*)k.p, k.n), string((const char*)v.p, v.n)}); }, &res); });
  }
  void touch(const string& kk) { if (!rowcap) return; lru.remove(kk); lru.push_front(kk); if (lru.size() > rowcap) { lru.pop_back(); R.ctr["rowcache.evictions"]++; } }
  bool cached(const string& kk) { return std::find(lru.begin(), lru.end(), kk) != lru.end(); }
  bool insert(const string& kk, const string& vv, int str) {
    M.op({false, kk, vv});
    int st = call("Insert", [&] { so->app_insert(app, BrBytes{(const uint8_t*)kk.data(), kk.size()}, BrBytes{(const uint8_t*)vv.data(), vv.size()}, str); });
    if (stop) return false; R.ctr["op.insert"]++;
    if (st == ST_DONE) { touch(kk); return true; }
    recover(st, "insert"); return false;
  }
  bool query(const string& kk, int mode) {
    string got; uint64_t q0 = qcalls; bool hit = cached(kk); string want; { auto i = M.c[0].cur.find(kk); if (i != M.c[0].cur.end()) want = i->second; }
    int st = call("Query", [&] { BrBytes b{(const uint8_t*)kk.data(), kk.size()}; if (mode == 2) { so->app_expect(app, b, BrBytes{(const uint8_t*)want.data(), want.size()}); got = want; } else so->app_query(app, b, mode, [](void* c, BrBytes v) { ((string*)c)->assign((const char*)v.p, v.n); }, &got); });
    if (stop) return false; R.ctr["op.query"]++;
    if (st == ST_EXIT && !hardFault && mode == 2) { bad(rowcap ? "F04,F05,V03" : "F04,V03", "QueryAndExpect of " + showBytes(kk) + " with the latest value ended the process: " + out.str()); return false; }
    if (st != ST_DONE) { recover(st, "query"); return false; }
    tr("got " + got);
    if (got != want) bad(lab(rowcap ? "F05,F04,V03" : "F04,V03"), "query of " + showBytes(kk) + " returned " + showBytes(got) + " but the latest value is " + showBytes(want));
    bool reached = qcalls != q0;
    if (rowcap) {
      R.ctr[reached ? "rowcache.misses" : "rowcache.hits"]++;
      if (!reached && !hit) bad("F05", "the row cache answered for a key that is not among the " + std::to_string(rowcap) + " most recently used: " + showBytes(kk));
      if (reached && hit) bad("F05", "the row cache did not answer for a key among the " + std::to_string(rowcap) + " most recently used: " + showBytes(kk));
      touch(kk);
    } else if (!reached) bad("F04", "a query was answered without asking the store");
    return true;
  }
  bool sync(bool g) { int st = call("Sync", [&] { so->app_sync(app, g); }); if (stop) return false; R.ctr["op.sync"]++; if (st == ST_DONE) { M.lo = M.log.size(); R.ctr["op.sync_done"]++; maybeProbe("power loss right after Sync returned"); return true; } recover(st, "sync"); return false; }
  bool succ(const string& lo, int incl, uint64_t n) {
    vector<std::pair<string, string>> res; int st = succCall(lo, incl, n, res); if (stop) return false; R.ctr["op.succ"]++; if (st != ST_DONE) { recover(st, "succ"); return false; }
    vector<std::pair<string, string>> want; for (auto& e : M.c[0].cur) if ((incl ? e.first >= lo : e.first > lo) && want.size() < n) want.push_back(e);
    if (res != want) { size_t i = 0; while (i < res.size() && i < want.size() && res[i] == want[i]) i++; bad(lab("F04,V04"), "Succ(" + showBytes(lo) + (incl ? ", inclusive, " : ", exclusive, ") + std::to_string(n) + ") returned " + std::to_string(res.size()) + " entries instead of " + std::to_string(want.size()) + ", the first difference at " + std::to_string(i) + (i < res.size() ? ": " + showBytes(res[i].first) : "") + (i < want.size() ? " wanted " + showBytes(want[i].first) : "")); }
    return true;
  }
  void appCrash() {
    uint64_t fl = inflight(); if (fl) R.ctr["reach.application_crash_with_writes_in_flight"]++;
    crashed = true; int st = call("crash", [&] { so->app_crash(app); }); if (stop) return; R.ctr["op.application_crash"]++;
    if (st != ST_DONE) { recover(st, "crash"); return; }
    lru.clear(); ops.clear(); gone.clear(); if (over()) return; st = scanAndResolve("after Application::crash()"); if (!stop && !over() && st != ST_DONE) recover(st, "recovery"); }
  void refuse(int kd, bool alt) {
    uint64_t mk = asU(EN->call("KeyType.MaxLen", {})), mv = asU(EN->call("ValueType.MaxLen", {})); string k0 = keys[0], big(mk + 1 + rnd() % 3, 'z'), bigv(mv + 1 + rnd() % 3, 'v'), d; vector<std::pair<string, string>> res; size_t sw = ops.size();
    auto B = [](const string& s) { return BrBytes{(const uint8_t*)s.data(), s.size()}; }; uint64_t h0 = handlersSeen;
    if (kd == 2 && rowcap && cached(big)) return;
    int st = call("oversize", [&] { switch (kd) { case 0: so->app_insert(app, B(big), B("x"), alt); break; case 1: so->app_insert(app, B(k0), B(bigv), alt); break; case 2: so->app_query(app, B(big), alt, [](void*, BrBytes) {}, nullptr); break; default: so->app_succ(app, B(big), !alt, 3, [](void*, BrBytes, BrBytes) {}, nullptr); } });
    if (stop) return; R.ctr["op.oversize"]++;
    if (st == ST_DONE) { bad("F07", kd == 1 ? "a value longer than the maximum was accepted" : "a key longer than the maximum was accepted"); return; }
    if (st == ST_EXIT && !hardFault) { if (handlersSeen != h0) bad("F07", "an oversize argument reached the store before it was refused"); if (exitCode == 0) bad("F07", "an oversize argument ended the process with exit status 0"); (void)sw; down(rnd(), rnd() & 1); restart("after a refused argument"); return; }
    recover(st, "oversize");
  }
  uint64_t handlersSeen = 0, respN = 0;
  void boundary(uint64_t tag) { uint64_t mk = asU(EN->call("KeyType.MaxLen", {})), mv = asU(EN->call("ValueType.MaxLen", {})); string kk(mk, (char)('a' + tag % 26)); if (std::find(keys.begin(), keys.end(), kk) == keys.end()) keys.push_back(kk); string vv = value(tag, mv); vv.resize(mv, 'q'); R.ctr["op.max_size"]++; if (insert(kk, vv, 0)) query(kk, 0); }
  string value(uint64_t tag, uint64_t len) { if (len == 0) return ""; string v = "v" + std::to_string(tag) + "."; uint64_t x = hmix(seed, tag); while (v.size() < len) { v += (char)('a' + x % 26); x = x * 6364136223846793005ull + 1442695040888963407ull; x ^= x >> 29; } return v.substr(0, std::max<size_t>(1, len)); }
  const string& key(uint64_t i) { return keys[i % keys.size()]; }
  bool live() { return !stop && !over(); }

  void event(const string& line) {
    auto w = splitWords(line); if (w.empty()) return; auto n = [&](size_t i) { return i < w.size() ? strtoull(w[i].c_str(), 0, 10) : 0ull; };
    switch (w[0][0]) {
      case 'I': insert(key(n(1)), value(n(2), n(3)), n(4) & 1); break;
      case 'G': query(key(n(1)), n(2) % 3); break;
      case 'R': { string lo = key(n(1)); if (n(4) % 4 == 1) lo += '\0'; if (n(4) % 4 == 2) lo = ""; succ(lo.substr(0, 1024), n(2) & 1, n(3)); break; }
      case 'S': sync(n(1) & 1); break;
      case 'B': for (uint64_t i = 0; i < n(1) && live(); i++) { uint64_t h = hmix(seed ^ 0xB0B, n(2) + i); insert(key(h), value(n(2) + i, n(3) ? 1 + (h >> 20) % n(3) : 0), h >> 40 & 1); } break;
      case 'b': for (uint64_t i = 0; i < n(1) && live(); i++) query(key(n(2) + i), hmix(seed, n(2) + i) % 3); break;
      case 'A': { vector<std::pair<string, string>> r; succ("", 1, keys.size() * 2 + 50); break; }
      case 'C': appCrash(); break;
      case 'Y': if (startSync(n(1) & 1, (int)n(2)) && !over()) { if (n(3) & 1) sync((n(1) ^ n(3) >> 1) & 1); else appCrash(); } break;
      case 'X': down(n(1), true); restart("after a power loss"); break;
      case 'N': down(n(1), false); restart("after a process kill"); break;
      case 'Z': armed = 1 + n(1); break;
      case 'H': reformat(n(1)); break;
      case 'P': { uint64_t h = rnd(); crashProbe("power loss here", h | 1); } break;
      case 'F': fault[(int)n(1)] = 1 + n(2); break;
      case 'O': refuse((int)n(1) % 4, n(1) / 4 % 2); break;
      case 'M': boundary(n(1)); break;
    }
  }
  // what the file may hold before Mkfs: an image of another size, noise, or what a formatting that went wrong left
  void oldDisk(uint64_t kd) {
    F.exists = true; auto w = [&](uint64_t a, const string& b) { F.cur.write(a, b); F.dur.write(a, b); F.size = std::max(F.size, a + b.size()); };
    if (kd == 1) { F.size = rnd() % 600 * 512; F.cur.garbage = F.dur.garbage = rnd() | 1; return; }
    Val m = EN->call(string(MH) + "Mkfs", {});
    for (auto& kv : ((MapObj*)m.o)->m) { string b = seqBytes(kv.second); uint64_t h = rnd();
      switch (h % 5) { case 0: continue; case 1: break; case 2: { size_t n = std::min<size_t>(b.size(), std::array<size_t, 5>{32, 8, 40, 4064, 512}[h / 5 % 5]); for (size_t i = n; i < b.size(); i++) b[i] = (char)hmix(h, i); } break; case 3: b[h / 5 % b.size()] ^= 1 << (h >> 40) % 8; break; case 4: b.resize(b.size() / 2); break; }
      if (b.size()) w(asU(kv.first), b); }
    R.ctr["reach.old_image"]++;
  }
  void reformat(uint64_t h) { down(h, h & 1); M = Model(); F.unsynced.clear(); R.ctr["op.reformat"]++; if (!format()) return; if (h & 2) { R.ctr["fault.crash_after_mkfs"]++; down(rnd(), h & 4); } restart("after Mkfs over a used store"); }
  bool format() {
    for (int t = 0; t < 50 && live(); t++) {
      boots++; so = loadSo(variant); mkfsMode = true; hardFault = false; int st = call("Mkfs", [&] { so->app_mkfs("store.img"); }); mkfsMode = false; mkfsBoots = boots; if (stop) return false;
      if (st == ST_DONE && !hardFault) { fds.clear(); return true; }
      if (st == ST_DONE) { bad("F02", "Mkfs succeeded although a disk operation failed (" + faultName + ")"); return false; }
      if (st == ST_EXIT && !excused("mkfs")) return false;
      if (t > 3) { fault.clear(); armed = -1; }
      down(rnd(), rnd() & 1); if (rnd() & 1) F = FileState();
    }
    return false;
  }
  RunResult run(const Scenario& sc) {
    G = this; for (auto& l : sc) if (l.rfind("knob ", 0) == 0) { auto w = splitWords(l); knob[w[1]] = strtoull(w[2].c_str(), 0, 10); }
    seed = k("seed", 1); variant = (int)k("rowcache", 0); applyKnobs(knob); F.cur.garbage = F.dur.garbage = 0; keys = keyPool((int)k("keymode", 0), (int)k("nkeys", 20), k("keyseed", 1));
    static Decl* cls = EN->findDecl("MainDiskIOHandler.DiskIOHandler"); ioVal = EN->newObj(cls);
    auto* oldbuf = std::cout.rdbuf(out.rdbuf());
    struct itimerval tv = {{15, 0}, {15, 0}}; signal(SIGPROF, onTimer); setitimer(ITIMER_PROF, &tv, nullptr);
    natBad = [](const string& m) { G->bad("F08", m); };
    try {
      if (k("oldDisk", 0)) oldDisk(k("oldDisk", 0));
      if (k("mkfsFault", 0)) fault[(int)k("mkfsFault", 0)] = 1 + k("mkfsFaultAt", 0);
      if (format()) { fault.clear(); if (k("mkfsDown", 0)) { R.ctr["fault.crash_after_mkfs"]++; down(rnd(), k("mkfsDown", 0) == 2); } if (restart(k("mkfsDown", 0) ? "after Mkfs and a crash" : "after Mkfs")) for (auto& l : sc) { if (!live()) break; if (l.rfind("knob ", 0) == 0 || l[0] == '#') continue; opNo++; event(l); }
        if (live()) { armed = -1; fault.clear(); quiesce(); } }
    } catch (Unsupported& u) { R.engineError = string("unsupported: ") + u.what() + " in " + EN->traceStr(); } catch (std::exception& e) { R.engineError = string("harness: ") + e.what(); }
    std::cout.rdbuf(oldbuf); for (auto& c : natCount) R.ctr["native." + c.first] += c.second; R.ctr["seam.calls"] += seamN; R.ctr["engine.steps"] += EN->steps;
    R.trace = th; R.shape = shp; R.simSeconds = clk / 1e9; std::sort(R.states.begin(), R.states.end()); R.states.erase(std::unique(R.states.begin(), R.states.end()), R.states.end());
    return R;
  }
  void quiesce() {
    if (!insert(keys[0], value(777777, 12), 0) || !live()) return;
    if (!sync(seed & 1) || !live()) return;
    succ("", 1, keys.size() * 2 + 50); for (size_t i = 0; i < keys.size() && i < 60 && live(); i++) query(keys[i], 0);
    if (!live()) return; down(rnd(), true); if (restart("after the final power loss") && live()) succ("", 1, keys.size() * 2 + 50);
    if (live()) R.ctr["quiesced"]++;
  }
  // ---------------------------------------------------------------- the disk I/O layer alone, under a client that uses all of it
  void* ioh = nullptr; IO* cli = nullptr; bool sawEintr = false;
  int outstanding(bool wr) { int n = 0; for (auto& o : ops) if (o.second.wr == wr && !o.second.reported && o.second.boot == (uint64_t)boots) n++; return n; }
  bool overlaps(uint64_t a, uint64_t l) { for (auto& o : ops) if (o.second.boot == (uint64_t)boots && !o.second.reported && o.second.addr < a + l && a < o.second.addr + o.second.len) return true; return false; }
  string block(uint64_t a, uint64_t l) { string s(l, 0); uint64_t x = hmix(seed, hmix(a, ioTag++)); for (auto& c : s) { x = x * 6364136223846793005ull + 1442695040888963407ull; c = (char)(x >> 56); } return s; }
  uint64_t ioTag = 0, wkN = 0;
  void ioOpen() {
    for (int t = 0; t < 50 && live(); t++) { int st = call("DiskIOHandler()", [&] { ioh = so->io_new("store.img"); }); if (stop) return; if (st == ST_DONE) { cli = new IO(this, so->io_ptr(ioh)); return; } if (st == ST_EXIT && !excused("open")) return; if (t > 3) { fault.clear(); armed = -1; } ioReboot(rnd()); }
  }
  void ioReboot(uint64_t h) { down(h, h & 1); boots++; ops.clear(); gone.clear(); hardFault = syncFault = false; so = loadSo(0); cli = nullptr; ioh = nullptr; R.ctr["boots"]++; }
  // false: the process went away and was restarted
  bool io(const string& name, std::function<void()> f) {
    handlerN = 0; int st = call(name, f); state(); if (stop || over()) return false; if (st == ST_DONE) { if (hardFault && name == "~DiskIOHandler") hardFault = syncFault = false; if (syncFault) { bad("F02", name + " succeeded although " + faultName + " was injected"); return false; } return true; }
    if (st == ST_EXIT && !excused(name)) return false; if (st == ST_CRASH) R.ctr["fault.crash_in_" + name]++;
    ioReboot(rnd()); if (live()) ioOpen(); return false;
  }
  void ioEvent(const string& line) {
    auto w = splitWords(line); if (w.empty()) return; auto n = [&](size_t i) { return i < w.size() ? strtoull(w[i].c_str(), 0, 10) : 0ull; };
    auto place = [&](size_t i, uint64_t& a, uint64_t& l) { a = (n(i) + (n(i) >= k("size", 64) / 2 ? k("base", 0) : 0)) * 4096; l = n(i + 1); };
    uint64_t a, l, b, m;
    switch (w[0][0]) {
      case 'L': for (uint64_t i = 0; i < n(1) && live(); i++) { if (overlaps(0, 4096)) ioEvent("A"); ioEvent("W 0 " + std::to_string(i % 4000 + 1)); if (i % 5 == 4) ioEvent("R 0 100"); if (i % 3 == 2) ioEvent("A"); ioEvent("p 4"); ioEvent("q 4"); if (ops.size() > 64) for (auto i = ops.begin(); i != ops.end();) if (i->second.reported && i->second.repBy != respN) { gone.insert(i->first); i = ops.erase(i); } else ++i; } break;
      case 'W': place(1, a, l); if (overlaps(a, (l + 4095) / 4096 * 4096)) return; { string d = block(a, l); io("write", [&, d] { cli->write(a, d); }); } break;
      case 'D': place(1, a, l); place(3, b, m); { uint64_t la = (l + 4095) / 4096 * 4096, lb = (m + 4095) / 4096 * 4096; if (overlaps(a, la) || overlaps(b, lb) || (a < b + lb && b < a + la)) return; string d = block(a, l), e = block(b, m); io("write2", [&, d, e] { uint64_t i, j; cli->write2(a, d, b, e, i, j); }); } break;
      case 'R': place(1, a, l); if (overlaps(a, l) || a + l > F.size) return; io("read", [&] { cli->read(a, l); }); break;
      case 'p': for (uint64_t i = 0; i < std::max<uint64_t>(1, n(1)) && live(); i++) { bool any = false; for (auto& r : reqs) if (r.done) any = true; int got = 0, due = outstanding(true); if (!io("prepareWriteResponse", [&] { got = so->io_prep_write(cli->io); })) return;
          respN++; R.ctr["op.prepare_write"]++; if (got) { io("getWriteResult", [&] { uint64_t x, y, z; cli->getWrite(x, y, z); if ((n(1) ^ respN) & 1) cli->getWrite(x, y, z); }); if (outstanding(true) != due - 1 && live()) bad("F01", "a delivered completion did not name exactly one outstanding write"); } else { if (any) bad("F01,V06,V14", "a write has finished but no completion is delivered for it"); break; } } break;
      case 'q': for (uint64_t i = 0; i < std::max<uint64_t>(1, n(1)) && live(); i++) { int got = 0, due = outstanding(false); if (!io("prepareReadResponse", [&] { got = so->io_prep_read(cli->io); })) return;
          respN++; if (got) { io("getReadResult", [&] { uint64_t x, y; string z; cli->getRead(x, y, z); if ((n(1) ^ respN) & 1) cli->getRead(x, y, z); }); if (outstanding(false) != due - 1 && live()) bad("F03", "a delivered completion did not name exactly one outstanding read"); } else { if (due) bad("F03,V06,V03", "a read was issued but its completion is not delivered"); break; } } break;
      case 'A': { if (!outstanding(true)) R.ctr["op.complete_all_idle"]++; if (outstanding(true) > 8) R.ctr["reach.complete_all_with_more_than_8"]++; if (!io("completeWriteTasks", [&] { so->io_complete_all(cli->io); })) return; R.ctr["op.complete_all"]++;
          for (auto& o : ops) if (o.second.wr && !o.second.reported && F.dur.read(o.second.addr, o.second.len) != o.second.data) bad(string("F01,V01,V14") + (o.second.pair ? ",V10" : ""), "completeWriteTasks returned although a queued write at " + std::to_string(o.second.addr) + " is not in the file"); } break;
      case 'O': { if (!outstanding(true)) return; uint64_t e0 = R.ctr["fault.suspend_eintr"], f0 = R.ctr["io.writes"]; bool any = false; for (auto& r : reqs) if (r.done) any = true; (void)f0; if (!io("waitForOne", [&] { so->io_wait_one(cli->io); })) return; for (auto& r : reqs) if (r.done) any = true; bool doneSeen = any; for (auto& o : ops) if (o.second.wr && !o.second.reported && F.dur.read(o.second.addr, o.second.len) == o.second.data) doneSeen = true;
          R.ctr["op.wait_for_one"]++; if (!doneSeen && R.ctr["fault.suspend_eintr"] == e0) bad("F01", "waitForOne returned although no write had finished"); } break;
      case 'h': { int x = -1, y = -1; if (!io("has_task", [&] { x = so->io_has_write(cli->io); y = so->io_has_read(cli->io); })) return; if (x != (outstanding(true) > 0) || y != (outstanding(false) > 0)) bad(x != (outstanding(true) > 0) ? "F01" : "F03", "the handler misreports whether operations are outstanding"); } break;
      case 'K': { if (inflight()) R.ctr["reach.handler_dropped_with_writes_in_flight"]++; void* h = ioh; IO* old = cli; if (n(1) & 1) { ioh = nullptr; ioOpen(); if (!live()) return; if (ioh == nullptr || boots != (int)old->boot0) return; for (auto i = ops.begin(); i != ops.end();) if (i->first.first == cli->io) i = ops.erase(i); else ++i; gone.clear(); }
          if (!io("~DiskIOHandler", [&] { so->io_delete(h); })) return; for (auto& r : reqs) if (!r.done) bad("F01,F07", "a write is still in progress after its handler was destroyed");
          for (auto i = ops.begin(); i != ops.end();) if (i->first.first == old->io) i = ops.erase(i); else ++i; gone.clear(); R.ctr["op.handler_replaced"]++; if (!(n(1) & 1)) ioOpen(); } break;
      case 'X': ioReboot(n(1)); ioOpen(); break;
      case 'T': clk += n(1) * 1000; advance(); break;
      case 'Z': armed = 1 + n(1); break;
      case 'F': fault[(int)n(1)] = 1 + n(2); break;
    }
  }
  RunResult runIo(const Scenario& sc) {
    G = this; for (auto& l : sc) if (l.rfind("knob ", 0) == 0) { auto w = splitWords(l); knob[w[1]] = strtoull(w[2].c_str(), 0, 10); }
    seed = k("seed", 1); F.exists = true; F.cur.garbage = F.dur.garbage = 0; F.size = (k("base", 0) + k("size", 64)) * 4096; static Decl* cls = EN->findDecl("MainDiskIOHandler.DiskIOHandler"); ioVal = EN->newObj(cls);
    auto* oldbuf = std::cout.rdbuf(out.rdbuf()); struct itimerval tv = {{15, 0}, {15, 0}}; signal(SIGPROF, onTimer); setitimer(ITIMER_PROF, &tv, nullptr);
    try {
      boots++; so = loadSo(0); ioOpen();
      for (auto& l : sc) { if (!live()) break; if (l.rfind("knob ", 0) == 0 || l[0] == '#') continue; opNo++; ioEvent(l); }
      if (live()) { armed = -1; fault.clear(); int q = outstanding(true), r = outstanding(false); for (int i = 0; i < 4 * (q + r) + 20 && live() && outstanding(true); i++) { ioEvent("O"); ioEvent("p 2"); } ioEvent("q 100000"); if (live() && (outstanding(true) || outstanding(false))) bad("F01,F06,V06,V14", "some operations never complete"); ioEvent("h");
        for (uint64_t a = 0; a < k("size", 64) + 12 && live(); a++) { ioEvent("R " + std::to_string(a) + " 4096"); ioEvent("q 1"); } if (live()) R.ctr["quiesced"]++; }
    } catch (std::exception& e) { R.engineError = string("harness: ") + e.what(); }
    std::cout.rdbuf(oldbuf); R.ctr["seam.calls"] += seamN; R.trace = th; R.shape = shp; R.simSeconds = clk / 1e9; std::sort(R.states.begin(), R.states.end()); R.states.erase(std::unique(R.states.begin(), R.states.end()), R.states.end()); return R;
  }
};
static void onTimer(int) { static uint64_t last = ~0ull; if (last == g_progress) _exit(77); last = g_progress; }

// ------------------------------------------------------------------ seams: libc as the framework sees it
extern "C" {
  int __wrap_open(const char* n, int fl, ...) { return G->sys_open(n, fl); }
  int __wrap_open64(const char* n, int fl, ...) { return G->sys_open(n, fl); }
  int __wrap_close(int fd) { return G->sys_close(fd); }
  ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) { return G->sys_pread(fd, b, n, o); }
  ssize_t __wrap_pread64(int fd, void* b, size_t n, off_t o) { return G->sys_pread(fd, b, n, o); }
  ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) { return G->sys_pwrite(fd, b, n, o); }
  ssize_t __wrap_pwrite64(int fd, const void* b, size_t n, off_t o) { return G->sys_pwrite(fd, b, n, o); }
  int __wrap_fsync(int fd) { return G->sys_fsync(fd); }
  int __wrap_fdatasync(int fd) { return G->sys_fsync(fd); }
  int __wrap_fcntl(int, int, ...) { return 0; }
  static int st_(struct stat* b) { if (!G->F.exists) { errno = ENOENT; return -1; } memset(b, 0, sizeof *b); b->st_mode = S_IFREG | 0600; b->st_size = G->F.size; b->st_blksize = 4096; b->st_blocks = (G->F.size + 511) / 512; b->st_nlink = 1; return 0; }
  int __wrap_fstat(int fd, struct stat* b) { if (!G->fds.count(fd)) { errno = EBADF; return -1; } return st_(b); }
  int __wrap_fstat64(int fd, struct stat* b) { return __wrap_fstat(fd, b); }
  int __wrap_stat(const char*, struct stat* b) { return st_(b); }
  int __wrap_stat64(const char*, struct stat* b) { return st_(b); }
  int __wrap_access(const char*, int) { if (!G->F.exists) { errno = ENOENT; return -1; } return 0; }
  int __wrap_unlink(const char*) { G->seam("unlink"); if (!G->F.exists) { errno = ENOENT; return -1; } G->F = FileState(); G->tr("unlink"); return 0; }
  int __wrap_remove(const char* n) { return __wrap_unlink(n); }
  int __wrap_ftruncate(int fd, off_t n) { if (!G->fds.count(fd)) { errno = EBADF; return -1; } G->seam("ftruncate"); if ((uint64_t)n < G->F.size) { string z(G->F.size - n, 0); G->put(n, z, false); } G->F.size = n; return 0; }
  int __wrap_ftruncate64(int fd, off_t n) { return __wrap_ftruncate(fd, n); }
  off_t __wrap_lseek(int fd, off_t o, int wh) { auto& p = G->fpos[fd]; p = wh == SEEK_SET ? o : wh == SEEK_CUR ? p + o : (off_t)G->F.size + o; return p; }
  off_t __wrap_lseek64(int fd, off_t o, int wh) { return __wrap_lseek(fd, o, wh); }
  ssize_t __wrap_read(int fd, void* b, size_t n) { ssize_t r = G->sys_pread(fd, b, n, G->fpos[fd]); if (r > 0) G->fpos[fd] += r; return r; }
  ssize_t __wrap_write(int fd, const void* b, size_t n) { if (fd == 1 || fd == 2) return n; ssize_t r = G->sys_pwrite(fd, b, n, G->fpos[fd]); if (r > 0) G->fpos[fd] += r; return r; }
  int __wrap_aio_write(struct aiocb* c) { return G->sys_aio_write(c); }
  int __wrap_aio_error(const struct aiocb* c) { return G->sys_aio_error(c); }
  ssize_t __wrap_aio_return(struct aiocb* c) { return G->sys_aio_return(c); }
  int __wrap_aio_suspend(const struct aiocb* const l[], int n, const struct timespec* t) { return G->sys_aio_suspend(l, n); }
  int __wrap_aio_cancel(int, struct aiocb* c) { if (!c) return AIO_NOTCANCELED; Req* r = G->find(c); return r && !r->done ? AIO_NOTCANCELED : AIO_ALLDONE; }
  void* __wrap_malloc(size_t n) { return G->sys_malloc(n); }
  int __wrap_posix_memalign(void** p, size_t a, size_t n) { *p = G->sys_malloc(n); return *p ? 0 : ENOMEM; }
  void __wrap_free(void* p) { if (!G || G->released(p)) ::free(p); }
  void __wrap__ZdlPv(void* p) { if (!G || G->released(p)) ::operator delete(p); }
  void __wrap__ZdlPvm(void* p, size_t) { if (!G || G->released(p)) ::operator delete(p); }
  void __wrap__ZdaPv(void* p) { if (!G || G->released(p)) ::operator delete[](p); }
  void __wrap__ZdaPvm(void* p, size_t) { if (!G || G->released(p)) ::operator delete[](p); }
  void __wrap_exit(int c) { G->sys_exit(c); }
  void __wrap__exit(int c) { G->sys_exit(c); }
  void __wrap_abort() { G->sys_exit(134); }
  int __wrap_printf(const char*, ...) { return 0; }
  int __wrap_puts(const char*) { return 0; }
  int __wrap_putchar(int c) { return c; }
  void __wrap_perror(const char*) {}
  int __wrap_usleep(unsigned us) { G->clk += us * 1000ull; G->seam("sleep"); return 0; }
  int __wrap_nanosleep(const struct timespec* t, struct timespec*) { G->clk += t->tv_sec * 1000000000ull + t->tv_nsec; G->seam("sleep"); return 0; }
  int __wrap_sched_yield() { G->seam("yield"); return 0; }
  // ---- the verified code
  static BrBytes keepBytes(const string& s) { static vector<string> ring(64); static size_t i = 0; string& r = ring[i++ % ring.size()]; r = s; return BrBytes{(const uint8_t*)r.data(), r.size()}; }
  static string S(BrBytes b) { return string((const char*)b.p, b.n); }
  void* br_init() { g_progress++; Val* f = new Val(EN->call(string(MH) + "InitState", {})); return f; }
  void br_mkfs(void (*add)(void*, uint64_t, BrBytes), void* c) { Val m = EN->call(string(MH) + "Mkfs", {}); for (auto& kv : ((MapObj*)m.o)->m) { string b = seqBytes(kv.second); add(c, asU(kv.first), BrBytes{(const uint8_t*)b.data(), b.size()}); } }
  int br_insert(void* f, void* io, BrBytes k, BrBytes v) { G->handlersSeen++; return asB(G->H(f, io, string(MH) + "handleInsert", {byteSeq(S(k)), byteSeq(S(v))})); }
  int br_query(void* f, void* io, BrBytes k, BrBytes* o) { G->handlersSeen++; G->qcalls++; Val r = G->H(f, io, string(MH) + "handleQuery", {byteSeq(S(k))}); if (!isCtor(r, "Some")) return 0; *o = keepBytes(seqBytes(field(r, "value"))); return 1; }
  int br_succ(void* f, void* io, int tag, BrBytes k, uint64_t mx, BrSucc* o) {
    G->handlersSeen++; string kk = S(k); Val r = G->H(f, io, string(MH) + "handleSucc", {tag == 0 ? EN->mk("UI.RangeStart.NegativeInf", {}) : EN->mk(tag == 1 ? "UI.RangeStart.SInclusive" : "UI.RangeStart.SExclusive", {byteSeq(kk)}), Val::U64(mx)});
    if (!isCtor(r, "Some")) {
      bool pend = false; for (auto& q : G->ops) if (!q.second.reported && q.second.boot == (uint64_t)G->boots) pend = true;
      if (!pend && !G->k("strict", 0) && AppRun::cacheFull(*(Val*)f)) {   // KNOWN FINDING succ-full-cache: make room as the simulated client of V04 does
        G->R.ctr["known.succ_full_cache"]++; G->wkN++; uint64_t n = G->rnd(); string q = kk; if (n % 8 == 7) q = G->keys[(n >> 8) % G->keys.size()]; else { size_t z = n % 4 == 0 ? 0 : n % 4 == 1 ? 1 : n % 4 == 2 ? 7 : 3; q.append(z, '\0'); if (n % 4 >= 2) q += (char)(1 + n / 4 % 250); if (q.size() > 1024) { q = kk; q.back() = (char)(q.back() + n % 4); } }
        G->H(f, io, string(MH) + "handleQuery", {byteSeq(q)}); }
      return 0; }
    static vector<string> ks, vs; static vector<BrBytes> kb, vb; ks.clear(); vs.clear(); kb.clear(); vb.clear(); Val rl = field(r, "value");
    for (auto& x : elems(field(rl, "results"))) { ks.push_back(seqBytes(field(x, "key"))); vs.push_back(seqBytes(field(x, "value"))); }
    for (size_t i = 0; i < ks.size(); i++) { kb.push_back(BrBytes{(const uint8_t*)ks[i].data(), ks[i].size()}); vb.push_back(BrBytes{(const uint8_t*)vs[i].data(), vs[i].size()}); }
    o->n = ks.size(); o->keys = kb.data(); o->vals = vb.data(); Val e = field(rl, "end"); o->endTag = isCtor(e, "EInclusive") ? 1 : isCtor(e, "EExclusive") ? 2 : 3; if (o->endTag != 3) o->endKey = keepBytes(seqBytes(field(e, "key"))); return 1;
  }
  uint64_t br_push(void* f, void* io) { G->handlersSeen++; return asU(G->H(f, io, string(MH) + "handlePushSync", {})); }
  void br_pop(void* f, void* io, uint64_t id, int g, int* w, int* ok) { G->handlersSeen++; vector<Val> o; G->H(f, io, string(MH) + "handlePopSync", {Val::U64(id), Val::B(g)}, &o); *w = asB(o[0]); *ok = asB(o[1]); }
  void br_read_response(void* f, void* io) { G->respN++; G->H(f, io, string(MH) + "handleReadResponse", {}); }
  void br_write_response(void* f, void* io) { G->respN++; G->H(f, io, string(MH) + "handleWriteResponse", {}); }
  void br_evict(void* f, void* io) {} void br_count(void* f, void* io) {}
  uint64_t br_max_key() { return asU(EN->call("KeyType.MaxLen", {})); }
  uint64_t br_max_value() { return asU(EN->call("ValueType.MaxLen", {})); }
}

static Scenario gen(uint64_t seed, const string& focus, int tier) {
  Rng r(seed); Scenario s; auto K = [&](const char* n, uint64_t v) { s.push_back(string("knob ") + n + " " + std::to_string(v)); };
  K("seed", seed % 1000000007ull); GenCfg c = genConfig(r, s, "F"); uint64_t nkeys = c.nkeys, vmax = c.vmax, fill = c.fill;
  bool row = focus == "F05" ? true : r.chance(0.25); if (row) K("rowcache", 1);
  if (r.chance(focus == "V13" ? 0.6 : 0.15)) K("oldDisk", r.range(1, 2));
  if (r.chance(focus == "V13" ? 0.7 : 0.3)) K("mkfsDown", r.range(1, 2));
  if (r.chance(0.8)) { bool d = focus == "V01" || focus == "V02" || focus == "V14" || focus == "V10" || focus == "V08" || focus == "F04"; K("probeEvery", d ? r.pick<uint64_t>({1, 1, 2, 4}) * (1 + nkeys / 100) : r.pick<uint64_t>({2, 6, 20}) * (1 + nkeys / 100)); }
  K("iolat", r.pick<uint64_t>({0, 0, 1000, 20000, 200000, 3000000})); if (r.chance(0.4)) K("ioslow", r.range(2, 12));
  double pIns = 4 + r.below(8), pGet = 1 + r.below(5), pSucc = r.below(3), pSync = 0.3 + r.below(4) * 0.5, pBulk = 0.3 + r.below(4) * 0.4, pbulk = r.below(2) * 0.4 + (row ? 0.6 : 0), pAll = 0.2, pC = r.below(3) * 0.15, pX = r.below(3) * 0.2, pN = r.below(3) * 0.15, pZ = r.below(4) * 0.3, pF = r.chance(0.5) ? 0 : 0.15 + r.below(3) * 0.3, pB = r.chance(0.5) ? 0.5 : 0, pO = 0.04, pM = 0, pY = r.chance(0.5) ? 0 : 0.2 + r.below(3) * 0.3, pP = r.chance(0.5) ? 0 : 0.3, pH = r.chance(focus == "V13" ? 0.6 : 0.1) ? 0.2 : 0;
  if (focus == "F02") { pF = 0.6 + r.below(4) * 0.5; if (r.chance(0.3)) { K("mkfsFault", r.pick<uint64_t>({7, 8, 9})); K("mkfsFaultAt", r.below(4)); } } if (focus == "F07") { pC += 0.6; pO += 0.3; pY += 0.4; } if (focus == "F01" || focus == "F06") { pBulk += 0.5; pSync += 0.5; pF *= 0.5; } if (focus == "F03") { pGet += 4; pX += 0.2; }
  bool big = false; for (auto& l : s) if (l.rfind("knob BucketWeight ", 0) == 0 && strtoull(l.c_str() + 18, 0, 10) >= 32768) big = true; if (big) pM = 0.3;
  double graphP = r.pick<double>({0.0, 0.2, 0.6, 1.0}); uint64_t tag = 0; auto num = [](uint64_t x) { return " " + std::to_string(x); }; auto vlen = [&]() -> uint64_t { return r.chance(0.08) ? 0 : r.range(1, vmax); };
  if (fill) { uint64_t left = std::min<uint64_t>(nkeys * 3 / 2, 700); while (left) { uint64_t q = std::min<uint64_t>(left, r.range(20, 300)); s.push_back("B" + num(q) + num(600000 + tag) + num(vmax)); tag += 1000; left -= q; if (r.chance(0.3)) s.push_back("S" + num(r.below(2))); } } else s.push_back("B" + num(r.range(1, 80)) + num(tag) + num(vmax)), tag += 1000;
  int n = (int)r.range(20, tier ? 400 : 150); int left = 14;
  for (int i = 0; i < n; i++) switch (r.weighted({pIns, pGet, pSucc, pSync, pBulk, pbulk, pAll, pC, pX, pN, pZ, pF, pB, pO, pM, pY, pP, pH})) {
    case 0: s.push_back("I" + num(r.below(nkeys)) + num(tag++) + num(vlen()) + num(r.below(2))); break;
    case 1: s.push_back("G" + num(r.below(nkeys)) + num(r.below(3))); break;
    case 2: s.push_back("R" + num(r.below(nkeys)) + num(r.below(2)) + num(r.chance(0.3) ? 1 : r.range(1, 60)) + num(r.below(8))); break;
    case 3: s.push_back("S" + num(r.chance(graphP))); break;
    case 4: s.push_back("B" + num(r.range(1, 60)) + num(tag) + num(vmax)); tag += 100; break;
    case 5: s.push_back("b" + num(r.range(1, 30)) + num(r.below(nkeys))); break;
    case 6: s.push_back("A"); break;
    case 7: if (left-- > 0) s.push_back("C"); break;
    case 8: if (left-- > 0) s.push_back("X" + num(r.u() % 1000000007ull)); break;
    case 9: if (left-- > 0) s.push_back("N" + num(r.u() % 1000000007ull)); break;
    case 10: if (left-- > 0) { s.push_back("Z" + num(r.chance(0.5) ? r.below(30) : r.below(400))); if (r.chance(0.6)) s.push_back("S" + num(r.chance(graphP))); } break;
    case 11: if (left-- > 0) s.push_back("F" + num(r.pick<uint64_t>({1, 2, 3, 4, 5, 7, 8, 10, 11})) + num(r.chance(0.5) ? r.below(5) : r.below(40))); break;
    case 12: s.push_back("F 6" + num(r.below(6))); break;
    case 13: if (left-- > 0) s.push_back("O" + num(r.below(8))); break;
    case 14: s.push_back("M" + num(r.below(3))); break;
    case 16: s.push_back("P"); break;
    case 17: if (left-- > 0) { if (r.chance(0.4)) s.push_back("Z" + num(r.below(12))); s.push_back("H" + num(r.below(8))); } break;
    case 15: if (left-- > 0) { bool heavy = r.chance(0.7); auto bulk = [&](uint64_t lo, uint64_t hi) { s.push_back("B" + num(r.range(lo, hi)) + num(tag) + num(vmax)); tag += 1000; }; if (heavy) bulk(40, 200); s.push_back("Y" + num(heavy || r.chance(graphP)) + num(r.range(1, 40)) + num(r.chance(0.3) ? 1 + 2 * r.below(2) : 0)); if (r.chance(0.7)) { bulk(heavy ? 60 : 1, heavy ? 250 : 60); s.push_back("S" + num(heavy || r.chance(graphP))); } } break;
  }
  return s;
}
static Scenario genIo(uint64_t seed, const string& focus, int tier) {
  Rng r(seed); Scenario s; auto K = [&](const char* n, uint64_t v) { s.push_back(string("knob ") + n + " " + std::to_string(v)); }; auto num = [](uint64_t x) { return " " + std::to_string(x); };
  K("seed", seed % 1000000007ull); uint64_t blocks = r.pick<uint64_t>({8, 24, 64, 200}); K("size", blocks); if (r.chance(0.3)) K("base", r.pick<uint64_t>({(1ull << 19) - 16, (1ull << 20) - 16, 3ull << 20, 1ull << 28})); uint64_t lat = r.pick<uint64_t>({0, 0, 1000, 5000, 20000, 200000, 3000000}); K("iolat", lat); if (r.chance(0.4)) K("ioslow", r.range(2, 12));
  double pW = 3 + r.below(10), pD = r.below(4), pR = r.below(4), pp = 1 + r.below(6), pq = 1 + r.below(3), pA = r.below(3) * 0.5, pO = r.below(4), ph = 0.5, pK = r.below(3) * 0.3, pX = r.below(3) * 0.2, pT = r.below(4), pZ = r.below(3) * 0.15, pF = r.chance(0.5) ? 0 : 0.1 + r.below(3) * 0.2, pE = r.chance(0.5) ? 0.3 : 0; if (focus == "F02") pF = 0.4; if (focus == "F07") pK += 0.6;
  uint64_t maxLen = r.pick<uint64_t>({4096, 4096, 8192, 40000, 40000, 300000}); bool huge = r.chance(0.03); bool odd = r.chance(0.5); bool edge = r.chance(0.3); auto len = [&]() { if (huge && r.chance(0.03)) return r.range(1ull << 20, 9ull << 20); if (edge && r.chance(0.6)) { uint64_t u = r.pick<uint64_t>({4096, 4096, 512, 8192}), x = u * r.range(1, std::max<uint64_t>(1, maxLen / u)), y = r.below(18); return r.chance(0.5) ? x + y : x > y ? x - y : x; } return odd ? r.range(1, maxLen) : 4096 * r.range(1, std::max<uint64_t>(1, maxLen / 4096)); };
  int n = (int)r.range(40, tier ? 1200 : 400), left = 10; uint64_t bigA = 0, bigL = 0; if (r.chance(tier ? 0.004 : 0.002)) s.push_back("L" + num(r.pick<uint64_t>({300, 70000, 70000})));   // many operations: identifiers and counters far from zero
  for (int i = 0; i < n; i++) switch (r.weighted({pW, pD, pR, pp, pq, pA, pO, ph, pK, pX, pT, pZ, pF, pE})) {
    case 0: { uint64_t a = r.below(blocks), l = len(); s.push_back("W" + num(a) + num(l)); if (l > 1 << 20) { bigA = a; bigL = l; s.push_back("A"); } } break;
    case 1: s.push_back("D" + num(r.below(blocks)) + num(len()) + num(r.below(blocks)) + num(len())); break;
    case 2: if (bigL && r.chance(0.3)) s.push_back("R" + num(bigA) + num(r.chance(0.5) ? bigL : r.range(1, bigL))); else s.push_back("R" + num(r.below(blocks)) + num(len())); break;
    case 3: s.push_back("p" + num(r.chance(0.7) ? 1 : r.range(1, 12))); break;
    case 4: s.push_back("q" + num(r.chance(0.7) ? 1 : r.range(1, 12))); break;
    case 5: s.push_back("A"); break;
    case 6: s.push_back("O"); break;
    case 7: s.push_back("h"); break;
    case 8: s.push_back("K" + num(r.below(2))); break;
    case 9: if (left-- > 0) s.push_back("X" + num(r.u() % 1000000007ull)); break;
    case 10: s.push_back("T" + num(r.below(r.chance(0.5) ? 20 : 3000))); break;
    case 11: if (left-- > 0) s.push_back("Z" + num(r.below(40))); break;
    case 12: if (left-- > 0) s.push_back("F" + num(r.pick<uint64_t>({1, 2, 3, 4, 5, 7, 8, 10, 11})) + num(r.below(20))); break;
    case 13: s.push_back("F 6" + num(r.below(4))); break;
  }
  return s;
}
static void slurp(const string& p, string& o) { std::ifstream f(p, std::ios::binary); if (!f) throw std::runtime_error("cannot read " + p); std::stringstream b; b << f.rdbuf(); o = b.str(); }
Sim* appSim() {
  Sim* s = new Sim; s->name = "app"; s->gen = gen; s->run = [](const Scenario& sc) { return (new AppRun)->run(sc); }; s->runTimeout = 240;
  s->init = [] { string d = exeDir(); slurp(d + "/libapp0.so", g_img[0]); slurp(d + "/libapp1.so", g_img[1]); So* n = loadSo(0); natLoad(n->h); veriLoad([](Engine& e) { natHook(e); }); };
  s->real = {"framework/Framework.cpp, BundleWrapper.cpp, Application.h, UnverifiedRowCache.cpp, Framework.h, NativeArrays.h, LinearExtern.h (compiled from /repo)", "every method reachable from Impl/MainHandlers.i.dfy (interpreted from /repo)"};
  s->stub = {"kernel: file, POSIX AIO, allocator, process and power (sim/app.cpp)", "DafnyRuntime.h and the generated Bundle.i.h (shim/)"};
  s->faultKinds = {"fault.power_loss", "fault.process_kill", "fault.crash_inside_call", "fault.write_torn_at_crash", "fault.write_lost_at_crash", "fault.write_done_unacked_at_crash", "fault.write_eio", "fault.short_write", "fault.disk_full", "fault.aio_eagain", "fault.read_eio", "fault.short_read", "fault.read_eintr", "fault.malloc_null", "fault.open_failure", "fault.suspend_eintr", "fault.slow_write"};
  s->diedProps = "F06,F05,F01"; return s;
}

Sim* ioSim() {
  Sim* s = new Sim(*appSim()); s->name = "io"; s->gen = genIo; s->run = [](const Scenario& sc) { return (new AppRun)->runIo(sc); }; s->runTimeout = 60; s->init = [] {};
  s->real = {"framework/Framework.cpp MainDiskIOHandler_Compile (compiled from /repo)"}; s->stub = {"kernel: file, POSIX AIO, allocator, process and power (sim/app.cpp)", "the store above the disk layer: a client that issues any legal sequence of operations"};
  return s;
}
