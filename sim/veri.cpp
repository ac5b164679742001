// Deterministic simulation of the verified KV store: the real handlers (/repo/Impl and everything they include, run from
// source by the engine) over a simulated asynchronous disk with crashes, torn writes, corruption and any delivery order.
#include "../engine/interp.h"
#include "disk.h"
#include "model.h"
#include "veri.h"
#include <cmath>
using namespace dfy; using std::string; using std::vector;

static const char* MH = "MainHandlers.";
static Val byteSeq(const string& s) { return mkSeqBytes((const uint8_t*)s.data(), s.size()); }

VeriIO* VeriIO::cur = nullptr;

void veriLoad(void (*hook)(Engine&)) {
  if (EN) return;
  Engine& e = *new Engine; registerNatives(e);
  auto N = [&](const char* n, NatFn f) { e.natives[string("MainDiskIOHandler.DiskIOHandler.") + n] = f; };
  N("write", [](Val* f, Val&) { f[3] = Val::U64(VeriIO::cur->write(asU(f[1]), seqBytes(f[2]))); });
  N("write2", [](Val* f, Val&) { uint64_t a, b; VeriIO::cur->write2(asU(f[1]), seqBytes(f[2]), asU(f[3]), seqBytes(f[4]), a, b); f[5] = Val::U64(a); f[6] = Val::U64(b); });
  N("read", [](Val* f, Val&) { f[3] = Val::U64(VeriIO::cur->read(asU(f[1]), asU(f[2]))); });
  N("getWriteResult", [](Val* f, Val&) { uint64_t id, a, l; VeriIO::cur->getWrite(id, a, l); f[1] = Val::U64(id); f[2] = Val::U64(a); f[3] = Val::U64(l); });
  N("getReadResult", [](Val* f, Val&) { uint64_t id, a; string b; VeriIO::cur->getRead(id, a, b); f[1] = Val::U64(id); f[2] = Val::U64(a); f[3] = byteSeq(b); });
  if (hook) hook(e);
  e.load(repoRoot() + "/Impl/Bundle.i.dfy"); e.resolve();
}
void veriPrepare(Engine& e) {
  for (auto m : e.P.allModules) {
    if (m->isAbstract) continue;
    std::function<void(Decl*)> one = [&](Decl* d) { if (d->ghost) return; if (d->k == D_DATATYPE || d->k == D_CLASS || d->k == D_TYPE) { for (auto x : d->members) one(x); return; } if (!(d->fk == F_FUNCTION || d->fk == F_METHOD || d->fk == F_CTOR)) return; if (d->k == D_CONST && !d->init) return; try { e.prepare(e.code(d)); } catch (std::exception&) {} };
    for (auto d : m->decls) one(d);
  }
}

// ------------------------------------------------------------------ one incarnation
struct Pending { uint64_t id; bool wr; uint64_t addr, len; string data; bool done = false; };
struct SimIO : VeriIO {
  Disk* disk; uint64_t nextId = 0; vector<Pending> q; int opsThisHandler = 0; uint64_t maxAddr = 0;
  std::function<void(const Pending&)> onSubmit; std::function<void(const string& props, const string& msg)> bad;
  Pending resp; uint64_t nw = 0, nr = 0, wbytes = 0;
  void submit(Pending p) {
    if (!two || opsThisHandler == 0) opsThisHandler++; else if (opsThisHandler > 1) opsThisHandler++;
    if (opsThisHandler > 1 && bad) bad("V08", "a handler issued more than one disk operation in one step");
    if (onSubmit) onSubmit(p);
    q.push_back(std::move(p));
  }
  uint64_t write(uint64_t a, string b) override { uint64_t id = nextId++; nw++; wbytes += b.size(); Pending p{id, true, a, b.size(), std::move(b)}; submit(std::move(p)); return id; }
  uint64_t read(uint64_t a, uint64_t l) override { uint64_t id = nextId++; nr++; submit(Pending{id, false, a, l, ""}); return id; }
  void getWrite(uint64_t& id, uint64_t& a, uint64_t& l) override { id = resp.id; a = resp.addr; l = resp.len; }
  void getRead(uint64_t& id, uint64_t& a, string& b) override { id = resp.id; a = resp.addr; b = resp.data; }
};

struct Inst {
  Val fs, ioObj; SimIO io; vector<std::pair<uint64_t, size_t>> syncs; std::set<uint64_t> popped; uint64_t handlers = 0;
  Inst(Disk* d) { io.disk = d; static Decl* cls = EN->findDecl("MainDiskIOHandler.DiskIOHandler"); ioObj = EN->newObj(cls); }
  Val H(const string& n, vector<Val> extra, vector<Val>* outs = nullptr) {
    VeriIO* keep = VeriIO::cur; VeriIO::cur = &io; io.opsThisHandler = 0; handlers++;
    uint64_t lim = EN->stepLimit; EN->stepLimit = EN->steps + 60000000;
    vector<Val> a; a.push_back(Val::Ref(&fs)); a.push_back(ioObj); for (auto& x : extra) a.push_back(x);
    static bool pr = getenv("SIM_PRINT"); if (pr) EN->keepOut = true;
    try { Val r = EN->call(n, a, outs); if (pr && !EN->out.empty()) { fprintf(stderr, "  | %s", EN->out.c_str()); EN->out.clear(); } VeriIO::cur = keep; EN->stepLimit = lim; return r; } catch (...) { VeriIO::cur = keep; EN->stepLimit = lim; throw; }
  }
  void boot() { VeriIO* keep = VeriIO::cur; VeriIO::cur = &io; fs = EN->call(string(MH) + "InitState", {}); VeriIO::cur = keep; }
};

static string g_succErr;
static string vstr(const Val& v) { return seqBytes(v); }
// validate and decode a SuccResultList; "" when well formed
static string decodeSucc(const Val& r, vector<std::pair<string, string>>& out, int& endKind, string& endKey) {
  for (auto& x : elems(field(r, "results"))) out.push_back({vstr(field(x, "key")), vstr(field(x, "value"))});
  Val e = field(r, "end");
  if (isCtor(e, "EInclusive")) { endKind = 1; endKey = vstr(field(e, "key")); } else if (isCtor(e, "EExclusive")) { endKind = 2; endKey = vstr(field(e, "key")); } else endKind = 3;
  return "";
}
static Val rangeStart(int kind, const string& k) { return kind == 0 ? EN->mk("UI.RangeStart.NegativeInf", {}) : EN->mk(kind == 1 ? "UI.RangeStart.SInclusive" : "UI.RangeStart.SExclusive", {byteSeq(k)}); }
static bool lowerOk(int kind, const string& s, const string& k) { return kind == 0 || (kind == 1 ? k >= s : k > s); }
static bool upperOk(int kind, const string& e, const string& k) { return kind == 3 || (kind == 1 ? k <= e : k < e); }
// what is wrong with this Succ answer against state m ("" = nothing)
static string checkSucc(const KV& m, int sk, const string& sKey, uint64_t maxN, const vector<std::pair<string, string>>& res, int ek, const string& eKey) {
  for (size_t i = 0; i < res.size(); i++) {
    if (i && !(res[i - 1].first < res[i].first)) return "keys out of order at " + showBytes(res[i].first);
    if (res[i].second.empty()) return "returned a key holding the default value: " + showBytes(res[i].first);
    if (!lowerOk(sk, sKey, res[i].first)) return "key below the requested start: " + showBytes(res[i].first);
    if (!upperOk(ek, eKey, res[i].first)) return "key beyond the reported end: " + showBytes(res[i].first);
    auto j = m.find(res[i].first); if (j == m.end()) return "returned a key that is not in the map: " + showBytes(res[i].first);
    if (j->second != res[i].second) return "wrong value for " + showBytes(res[i].first) + ": " + showBytes(res[i].second) + " instead of " + showBytes(j->second);
  }
  size_t n = 0; for (auto& kv : m) if (lowerOk(sk, sKey, kv.first) && upperOk(ek, eKey, kv.first)) n++;
  if (n != res.size()) return "the covered range holds " + std::to_string(n) + " keys but " + std::to_string(res.size()) + " were returned";
  bool nonEmpty = sk == 0 || ek == 3 || (sk == 1 && ek == 1 && sKey <= eKey) || sKey < eKey;
  if (!nonEmpty) return "the answered range is empty (no progress)";
  return "";
}
static bool overlaps(uint64_t a, uint64_t al, uint64_t b, uint64_t bl) { return a < b + bl && b < a + al; }

void applyKnobs(std::map<string, uint64_t>& knob) {
  auto k = [&](const char* n, uint64_t d) { auto i = knob.find(n); return i == knob.end() ? d : i->second; };
    auto C = [&](const char* kn, const char* fn) { auto i = knob.find(kn); if (i != knob.end()) EN->constOverride[string("Bounds.") + fn] = Val::U64(i->second); };
    C("NodeBlock", "NodeBlockSizeUint64"); C("JournalBlocks", "DiskNumJournalBlocksUint64"); C("ITBlock", "IndirectionTableBlockSizeUint64"); C("BucketWeight", "MaxTotalBucketWeightUint64");
    C("Cache", "MaxCacheSizeUint64"); C("Children", "MaxNumChildrenUint64"); C("NumBlocks", "NumBlocksUint64");
    for (auto& x : {std::make_pair("leafKeys", "LKMBtree.MaxKeysPerLeaf"), std::make_pair("leafFan", "LKMBtree.MaxChildren")}) { auto i = knob.find(x.first); if (i != knob.end()) EN->constOverride[x.second] = Val::U64(i->second); }
    EN->choose = nullptr;
    // initial capacities of growable containers: small ones make growth and wrap-around common
    uint64_t hc = k("hashCap", 128), jc = k("jcap", 4096);
    if (hc != 128 || jc != 4096) EN->litHook = [hc, jc](Ast* a) -> unsigned __int128 {
      if (a->num == 128 && hc != 128 && a->file) { const string& f = a->file->path; for (const char* x : {"LinearMutableMap.i", "LinearContentMutableMap.i", "LinearLru.i", "LinearUSeq.i", "MutableMapImpl.i", "LruImpl.i", "CacheImpl.i", "CommitterImpl.i", "IndirectionTable.i"}) if (f.find(x) != string::npos) return hc; }
      if (a->num == 4096 && jc != 4096 && a->file && a->file->path.find("JournalistImpl.i") != string::npos) return jc;
      return a->num;
    };
  }

// KNOWN FINDING succ-full-cache (known-findings.txt): a range query whose path is not cached does nothing when the node cache
// is full. The simulated client then issues a point query for the start key, which makes room; "strict" reports it instead.
static bool cacheFull(Inst& J) {
  try { Val bc = field(J.fs, "bc"); if (!isCtor(bc, "Ready")) return false; return asU(EN->call("CacheImpl.CacheCount", {field(bc, "cache")})) + ((MapObj*)field(bc, "outstandingBlockReads").o)->m.size() >= asU(EN->call("Bounds.MaxCacheSizeUint64", {})); }
  catch (Unsupported&) { EN->unwind(); return true; }
}
// a key next to the start key, absent from the map as a rule, so that the point query walks to the leaf
static string roomKey(const vector<string>& keys, const string& k, uint64_t n) {
  if (n % 8 == 7) return keys[hmix(n, 5) % keys.size()];
  string r = k; size_t z = n % 4 == 0 ? 0 : n % 4 == 1 ? 1 : n % 4 == 2 ? 7 : 3; r.append(z, '\0'); if (n % 4 >= 2) r += (char)(1 + n / 4 % 250);
  if (r.size() > 1024) { r = k; r.back() = (char)(r.back() + n % 4); }
  return r;
}
// recovery probe on a private copy of the disk
Scan veriProbe(const Disk& d0, uint64_t maxHandlers, bool roomy_, const vector<string>& keys, std::map<string, uint64_t>& ctr) {
  Scan s; Disk d = d0; Inst J(&d); std::set<uint64_t> wrote;     // blocks the probe itself wrote (evicted during replay) are not part of the durable state
  // most probes recover with a roomy node cache (the run's own boots use the small one)
  struct Roomy { Val keep; Val* slot = nullptr; Roomy(bool on) { auto i = EN->constOverride.find("Bounds.MaxCacheSizeUint64"); if (on && i != EN->constOverride.end()) { slot = &i->second; keep = *slot; if (asU(keep) < 2000) *slot = Val::U64(2000); } } ~Roomy() { if (slot) *slot = keep; } } roomy(roomy_);
  try {
    J.boot(); int sk = 0; string sKey; 
    while (true) {
      if (++s.handlers > maxHandlers) { s.tooLong = true; s.err = "recovery did not finish within " + std::to_string(maxHandlers) + " steps"; return s; }
      Val r = J.H(string(MH) + "handleSucc", {rangeStart(sk, sKey), Val::U64(1000)});
      if (!isCtor(r, "Some") && J.io.q.empty() && cacheFull(J)) { ctr["known.succ_full_cache"]++; J.H(string(MH) + "handleQuery", {byteSeq(roomKey(keys, sKey, s.handlers))}); }
      if (isCtor(r, "Some")) {
        vector<std::pair<string, string>> res; int ek; string eKey; decodeSucc(field(r, "value"), res, ek, eKey);
        for (auto& x : res) s.kv[x.first] = x.second;
        if (ek == 3) break; sKey = eKey; sk = ek == 2 ? 1 : 2;
      }
      while (!J.io.q.empty()) { Pending p = J.io.q.front(); J.io.q.erase(J.io.q.begin()); if (p.wr) { d.write(p.addr, p.data); wrote.insert(p.addr); J.io.resp = p; J.H(string(MH) + "handleWriteResponse", {}); } else { if (!wrote.count(p.addr)) s.reads.push_back({p.addr, p.len}); p.data = d.read(p.addr, p.len); J.io.resp = p; J.H(string(MH) + "handleReadResponse", {}); } }
    }
    s.ok = true;
  } catch (DafnyError& x) { s.err = string("recovery failed at run time: ") + x.what() + " in " + EN->traceStr(); } catch (DafnyHang&) { s.err = "recovery does not terminate"; }
  ctr["probe.recoveries"]++; ctr["probe.handlers"] += s.handlers;
  return s;
}

struct VeriRun {
  RunResult R; Disk disk; Inst* I = nullptr; Model M; vector<string> keys; uint64_t seed = 1;
  std::map<string, uint64_t> knob; uint64_t th = 7, shp = 3; uint64_t clockNs = 0;
  std::vector<std::pair<uint64_t, uint64_t>> live; bool liveOn = false; bool rotten = false; int boots = 0; bool stop = false; int corruptNext = 0; uint64_t ioSeq = 0;
  bool bootFaulty = false, inRecovery = true; uint64_t nodeBlock, maxAddr; uint64_t bound = 6000;
  uint64_t probeLim = 40000, probeEvery = 1;
  uint64_t k(const char* n, uint64_t d) { auto i = knob.find(n); return i == knob.end() ? d : i->second; }
  void tr(const string& s) { th = hstr(s, th); static bool v = getenv("SIM_TRACE"); if (v) fprintf(stderr, "%s\n", s.c_str()); }
  void kind(uint64_t c) { shp = hmix(shp, c); }
  // a failure of the recovered or served contents also breaks the property whose mechanism this run put under pressure
  string attr(string p) {
    auto has = [&](const char* q) { return p.find(q) != string::npos; }; auto add = [&](const char* q) { if (!has(q)) p += string(",") + q; };
    if (has("V01") || has("V02") || has("V03") || has("V04") || has("V15")) {
      if (k("tightJournal", 0)) add("V10"); if (k("tightSpace", 0)) add("V11"); if (k("tightCache", 0)) add("V12"); if (R.ctr.count("fault.crash_in_recovery")) add("V09"); if (maxSyncs > 1) add("V14"); if (faulted) add("V07"); if (cloned) add("V05");
    }
    return p;
  }
  size_t maxSyncs = 0;
  void bad(const string& p0, const string& m) { string p = attr(p0); R.bad(p, m + " [boot " + std::to_string(boots) + ", op " + std::to_string(opNo) + "]"); tr("BAD " + p + " " + m); }
  size_t opNo = 0;

  void setKnobs() { applyKnobs(knob); }
  bool frozenNow() { try { return asB(field(field(I->fs, "jc"), "isFrozen")); } catch (std::exception&) { EN->unwind(); return false; } }
  void onSubmit(const Pending& p) {
    kind(p.wr ? 100 + region(p.addr) : 200 + region(p.addr)); tr((p.wr ? "submit w " : "submit r ") + std::to_string(p.addr) + " " + std::to_string(p.len) + (p.wr ? " " + std::to_string(hstr(p.data)) : ""));
    if (p.wr) {
      if (p.len == 0 || p.addr + p.len > maxAddr || p.addr + p.len < p.addr) bad("V08", "write outside the disk: addr " + std::to_string(p.addr) + " len " + std::to_string(p.len));
      if (regionEnd(p.addr) < p.addr + p.len) bad("V08", "a write crosses a region boundary: addr " + std::to_string(p.addr) + " len " + std::to_string(p.len));
      if (p.addr % 4096) bad("V08", "a write is not aligned to the 4096-byte device block: addr " + std::to_string(p.addr));
      if (liveOn) for (auto& l : live) if (overlaps(l.first, l.second, p.addr, p.len)) { bad("V08,V01", "write to " + std::to_string(p.addr) + "+" + std::to_string(p.len) + " overlaps " + std::to_string(l.first) + "+" + std::to_string(l.second) + ", which the durable superblock still needs"); break; }
    }
    { int w = 0; for (auto& o : I->io.q) w += o.wr; if (!p.wr && w) { R.ctr["reach.read_submitted_with_writes_in_flight"]++; if (frozenNow()) R.ctr["reach.read_submitted_with_frozen_writes_in_flight"]++; } if (p.wr && w > 2) R.ctr["reach.3_or_more_writes_in_flight"]++; }
    for (auto& o : I->io.q) if (!o.done) {
      // the O_DSYNC device works in 4096-byte blocks (the framework pads writes)
      uint64_t pl = p.wr ? (p.len + 4095) / 4096 * 4096 : p.len, ol = o.wr ? (o.len + 4095) / 4096 * 4096 : o.len;
      if ((p.wr || o.wr) && overlaps(p.addr, pl, o.addr, ol)) { bad("V08", string("two disk operations in flight at once overlap: ") + (p.wr ? "write " : "read ") + std::to_string(p.addr) + "+" + std::to_string(p.len) + " and " + (o.wr ? "write " : "read ") + std::to_string(o.addr) + "+" + std::to_string(o.len)); break; }
    }
  }
  uint64_t jStart = 8192, it1, it2, itEnd, nodeStart;
  int region(uint64_t a) { return a < 4096 ? 0 : a < 8192 ? 1 : a < it1 ? 2 : a < it2 ? 3 : a < itEnd ? 4 : 5; }
  uint64_t regionEnd(uint64_t a) { return a < 4096 ? 4096 : a < 8192 ? 8192 : a < it1 ? it1 : a < it2 ? it2 : a < itEnd ? itEnd : (a / nodeBlock + 1) * nodeBlock; }
  void layout() {
    it1 = asU(EN->call("DiskLayout.IndirectionTable1Addr", {})); it2 = asU(EN->call("DiskLayout.IndirectionTable2Addr", {})); itEnd = it2 + asU(EN->call("DiskLayout.IndirectionTableMaxLength", {}));
    nodeBlock = asU(EN->call("Bounds.NodeBlockSizeUint64", {})); maxAddr = asU(EN->call("Bounds.NumBlocksUint64", {})) * nodeBlock;
  }
  void mkfs() {
    Val m = EN->call(string(MH) + "Mkfs", {});
    vector<std::pair<uint64_t, uint64_t>> rs;
    for (auto& kv : ((MapObj*)m.o)->m) { string b = seqBytes(kv.second); uint64_t a = asU(kv.first); for (auto& r : rs) if (overlaps(r.first, r.second, a, b.size())) bad("V13", "mkfs writes overlapping blocks"); rs.push_back({a, b.size()}); if (a + b.size() > maxAddr) bad("V13", "mkfs writes outside the disk"); disk.write(a, b); }
  }
  void boot() {
    delete I; I = new Inst(&disk); boots++; I->io.onSubmit = [this](const Pending& p) { onSubmit(p); }; I->io.bad = [this](const string& a, const string& b) { bad(a, b); };
    corruptNext = 0; bootFaulty = false; inRecovery = true;
    I->boot(); tr("boot"); kind(1);
  }
  string roomKey(const string& k, uint64_t n) { return ::roomKey(keys, k, n); }
  Scan probe(const Disk& d0, uint64_t maxHandlers) { return veriProbe(d0, maxHandlers, hmix(seed, 0xCAC4E + R.ctr["probe.recoveries"]) % 8 != 0, keys, R.ctr); }
  void judge(const Scan& s, const string& when, bool second = false) {
    if (!s.ok) { if (cloned && s.tooLong) { R.ctr["stuck.excused"]++; stop = true; return; } bad("V01,V02,V09,V06", when + ": " + s.err); return; }
    if (M.isPrefix(s.kv, M.lo)) return;
    if (M.isPrefix(s.kv, 0)) { bad("V01,V14", when + ": the recovered map is a prefix that ends before writes covered by a completed sync (" + std::to_string(M.lo) + " of " + std::to_string(M.log.size()) + " writes were durable); " + diffKV(M.recoverable(M.log.size())[0], s.kv)); return; }
    string props = "V02,V01"; for (auto& o : M.log) if (o.clone) { props += ",V05"; break; }
    bad(props, when + ": the recovered map is not the map after any prefix of the accepted writes; against the latest: " + diffKV(M.c[0].cur, s.kv));
  }
  void superblockDurable() {
    if (rotten) return;
    R.ctr["superblock.commits"]++;
    haveScan = false; liveOn = false;
    if (hmix(seed, 0x5B00 + R.ctr["superblock.commits"]) % probeEvery) return;
    Scan s = probe(disk, probeLim);
    judge(s, "crash right after a superblock write");
    setLive(s); lastScan = s; haveScan = s.ok;
  }
  void complete(size_t i) {
    Pending& p = I->io.q[i]; clockNs += 20000 + hmix(seed, ioSeq++) % 4000000; kind(p.wr ? 5 : 6);
    if (p.wr) { disk.write(p.addr, p.data); p.done = true; p.data.clear(); tr("disk w " + std::to_string(p.id)); R.ctr["io.writes"]++; if (p.addr < 8192) superblockDurable(); }
    else {
      p.data = disk.read(p.addr, p.len); p.done = true; R.ctr["io.reads"]++;
      if (g_focus == "V07" && p.len > 32 && region(p.addr) != 2) scrub(p.data);
      if (corruptNext && p.len) {
        uint64_t h = hmix(seed, 0xC0 + ioSeq); int m = corruptNext; corruptNext = 0; corrupt(p.data, m, h);
        R.ctr[string("fault.read_corruption.") + std::to_string(m)]++; R.ctr["fault.read_corruption"]++; bootFaulty = true; faulted = true;
      }
      tr("disk r " + std::to_string(p.id) + " " + std::to_string(hstr(p.data)));
    }
  }
  bool faulted = false;
  // what a damaged copy of this block would be taken for
  void scrub(const string& good) {
    if (scrubs > 4000) return;
    for (int i = 0; i < 6; i++) {
      string b = good; uint64_t h = hmix(seed, 0x5C0000 + scrubs++); corrupt(b, 1 + (int)(h % 7 < 4 ? 0 : h % 7 - 3), hmix(h, 1)); if (b == good) continue;
      try { Val v = EN->call("MarshallingImpl.ParseCheckedSector", {byteSeq(b)}); R.ctr["fault.block_scrubbed"]++; if (isCtor(v, "lSome")) { bad("V07", "a damaged block passes its checksum"); return; } }
      catch (Unsupported&) { EN->unwind(); return; } catch (DafnyError& e) { EN->unwind(); bad("V07,V15", string("parsing a damaged block fails at run time: ") + e.what()); return; }
    }
  }
  uint64_t scrubs = 0;
  static void corrupt(string& b, int mode, uint64_t h) {
    if (b.empty()) return;
    switch (mode) {
      case 1: { uint64_t a = h % b.size(), t = (h >> 40) & 7; if (h >> 50 & 1) { static const int at[] = {0, 3, 4, 7}; a = std::min<uint64_t>(a / 8 * 8 + at[(h >> 52) & 3], b.size() - 1); t = (h >> 54 & 1) * 7; } b[a] ^= (char)(1 << t); break; }   // one bit, half the time at the edge of a machine word
      case 2: { uint64_t a = h % b.size(); for (int i = 0; i < 4 && a + i < b.size(); i++) b[a + i] ^= (char)((h >> (8 + i)) | 1); break; }   // short burst (at most 32 bits)
      case 3: b[h % std::min<uint64_t>(32, b.size())] ^= (char)(((h >> 16) & 0xff) | 1); break;                               // inside the checksum header
      case 4: { uint64_t a = (h % ((b.size() + 511) / 512)) * 512; bool ch = false; for (uint64_t i = a; i < a + 512 && i < b.size(); i++) { if (b[i]) ch = true; b[i] = 0; } if (!ch) b[a] ^= 0x5a; break; }  // a zeroed sector
      default: { uint64_t s = h; uint64_t a = (h % ((b.size() + 511) / 512)) * 512; for (uint64_t i = a; i < a + 512 && i < b.size(); i++) b[i] = (char)splitmix(s); b[a] ^= 1; }                              // a garbage sector
    }
  }
  void deliver(size_t i) {
    Pending p = I->io.q[i]; I->io.q.erase(I->io.q.begin() + i); I->io.resp = p; kind(p.wr ? 7 : 8); tr("deliver " + std::to_string(p.id));
    guarded("response", [&] { I->H(string(MH) + (p.wr ? "handleWriteResponse" : "handleReadResponse"), {}); });
  }
  template <class F> bool guarded(const string& what, F f) {
    try { f(); note(); return true; }
    catch (DafnyError& e) { string pr = "V15"; if (inRecovery) pr += ",V01,V02,V09"; if (faulted) pr += ",V07"; if (what == "query") pr += ",V03"; if (what == "succ") pr += ",V04"; if (what == "clone") pr += ",V05"; bad(pr, "the store failed at run time during " + what + ": " + e.what() + " in " + EN->traceStr()); stop = true; }
    catch (DafnyHang&) { bad("V15,V06", "the store does not return from " + what); stop = true; }
    return false;
  }
  void note() {
    // abstract state for coverage
    uint64_t h = 17; 
    try {
      Val jc = field(I->fs, "jc"), bc = field(I->fs, "bc");
      auto cn = [](const Val& v) { return v.t == V_DT ? hstr(((DtObj*)v.o)->c->name) : (uint64_t)v.t; };
      h = hmix(h, cn(field(jc, "status"))); h = hmix(h, cn(bc)); h = hmix(h, cn(field(jc, "frozenLoc"))); h = hmix(h, cn(field(jc, "superblockWrite"))); h = hmix(h, cn(field(jc, "newSuperblock"))); h = hmix(h, cn(field(jc, "commitStatus")));
      h = hmix(h, asB(field(jc, "isFrozen"))); h = hmix(h, asU(field(jc, "whichSuperblock")));
      if (isCtor(bc, "Ready")) { h = hmix(h, ((MapObj*)field(bc, "outstandingBlockWrites").o)->m.size()); h = hmix(h, ((MapObj*)field(bc, "outstandingBlockReads").o)->m.size()); h = hmix(h, cn(field(bc, "outstandingIndirectionTableWrite"))); h = hmix(h, asU(EN->call("CacheImpl.CacheCount", {field(bc, "cache")}))); }
    } catch (std::exception&) { h = hmix(h, 99); EN->unwind(); }
    int w = 0, r = 0, d = 0; for (auto& p : I->io.q) { if (p.done) d++; else if (p.wr) w++; else r++; }
    h = hmix(h, w * 10000 + r * 100 + d); h = hmix(h, I->syncs.size()); R.states.push_back(h);
    cacheBound();
  }
  void cacheBound() {
    try {
      Val bc = field(I->fs, "bc"); if (!isCtor(bc, "Ready")) return;
      uint64_t n = asU(EN->call("CacheImpl.CacheCount", {field(bc, "cache")})) + ((MapObj*)field(bc, "outstandingBlockReads").o)->m.size();
      uint64_t mx = asU(EN->call("Bounds.MaxCacheSizeUint64", {})); R.ctr["cache.checks"]++; if (n > R.ctr["cache.peak"]) R.ctr["cache.peak"] = n;
      if (n > mx) bad("V12", "the node cache and the reads in flight hold " + std::to_string(n) + " nodes, more than the configured " + std::to_string(mx));
    } catch (Unsupported&) { EN->unwind(); R.ctr["cache.unobservable"]++; }
  }
  void doneRecovery() { if (inRecovery) { inRecovery = false; R.ctr["recoveries"]++; } }
  bool tryPut(const string& key, const string& val) {
    bool ok = false; guarded("insert", [&] { ok = asB(I->H(string(MH) + "handleInsert", {byteSeq(key), byteSeq(val)})); });
    kind(10 + ok); tr(string("put ") + (ok ? "ok" : "no")); if (ok) { doneRecovery(); M.op({false, key, val}); R.ctr["op.put"]++; } return ok;
  }
  bool tryClone(const string& from, const string& to) {
    bool ok = false; guarded("clone", [&] { vector<Val> a; ok = asB(I->H("CoordinationImpl.clone", {byteSeq(from), byteSeq(to)})); });
    kind(12 + ok); tr(string("clone ") + (ok ? "ok" : "no")); if (ok) { doneRecovery(); M.op({true, from, to}); cloned = true; R.ctr["op.clone"]++; } return ok;
  }
  bool cloned = false;
  bool tryGet(const string& key) {
    Val r; if (!guarded("query", [&] { r = I->H(string(MH) + "handleQuery", {byteSeq(key)}); })) return true;
    bool ok = isCtor(r, "Some"); kind(14 + ok);
    if (!ok) { tr("get no"); return false; }
    doneRecovery(); string v = vstr(field(r, "value")); tr("get " + v); R.ctr["op.get"]++;
    string want; bool hit = M.filter([&](const KV& m) { auto i = m.find(key); want = i == m.end() ? string() : i->second; return v == want; });
    if (!hit) bad(string(faulted ? "V07," : "") + (cloned ? "V05," : "") + (boots > 1 ? "V03,V02,V01" : "V03"), "query of " + showBytes(key) + " returned " + showBytes(v) + " but " + (M.c.size() > 1 ? "no legal state holds that" : "the latest value is " + showBytes(want)));
    return true;
  }
  bool trySucc(int sk, const string& sKey, uint64_t mx, int* ekOut = nullptr, string* eKeyOut = nullptr) {
    Val r; if (!guarded("succ", [&] { r = I->H(string(MH) + "handleSucc", {rangeStart(sk, sKey), Val::U64(mx)}); })) return true;
    bool ok = isCtor(r, "Some"); kind(16 + ok); if (!ok) { tr("succ no"); if (I->io.q.empty() && !k("strict", 0) && cacheFull(*I)) { R.ctr["known.succ_full_cache"]++; tryGet(roomKey(sk == 0 ? string() : sKey, fh++)); } return false; }
    doneRecovery(); vector<std::pair<string, string>> res; int ek = 3; string eKey, why; decodeSucc(field(r, "value"), res, ek, eKey); R.ctr["op.succ"]++; R.ctr["op.succ.results"] += res.size();
    string t; for (auto& x : res) t += x.first + "=" + x.second + ";"; tr("succ " + std::to_string(ek) + eKey + " " + t);
    if (res.size() > mx) bad("V04", "a range query for at most " + std::to_string(mx) + " returned " + std::to_string(res.size()));
    bool hit = M.filter([&](const KV& m) { string e = checkSucc(m, sk, sKey, mx, res, ek, eKey); if (e.empty()) return true; why = e; return false; });
    if (!hit) bad(string(faulted ? "V07," : "") + (cloned ? "V05," : "") + (boots > 1 ? "V04,V02,V01" : "V04"), "range query: " + why);
    if (ekOut) { *ekOut = ek; *eKeyOut = eKey; }
    return true;
  }
  void push() {
    uint64_t id = 0; guarded("pushSync", [&] { id = asU(I->H(string(MH) + "handlePushSync", {})); }); kind(18); tr("push " + std::to_string(id)); R.ctr["op.pushsync"]++;
    if (stop) return;
    if (id == 0) { return; }
    for (auto& s : I->syncs) if (s.first == id) bad("V14", "sync id " + std::to_string(id) + " was issued while still outstanding");
    I->syncs.push_back({id, M.log.size()}); maxSyncs = std::max(maxSyncs, I->syncs.size());
  }
  bool pop(size_t i, bool graph) {
    if (i >= I->syncs.size()) return false;
    vector<Val> o; if (!guarded("popSync", [&] { I->H(string(MH) + "handlePopSync", {Val::U64(I->syncs[i].first), Val::B(graph)}, &o); })) return true;
    bool ok = asB(o[1]); kind(20 + ok); tr(string("pop ") + std::to_string(ok) + std::to_string(asB(o[0])));
    if (ok) { R.ctr["op.sync_done"]++; M.lo = std::max(M.lo, I->syncs[i].second); I->syncs.erase(I->syncs.begin() + i); doneRecovery(); if (!rotten) { if (haveScan) judge(lastScan, "crash right after a sync returned"); if (hmix(seed, 0x5C00 + R.ctr["op.sync_done"]) % (haveScan ? 4 * probeEvery : probeEvery) == 0) { R.ctr["sync.probes"]++; lastScan = probe(disk, probeLim); haveScan = lastScan.ok; setLive(lastScan); judge(lastScan, "crash right after a sync returned"); } } }
    return ok;
  }
  void crash(uint64_t h) {
    int torn = 0, lost = 0, whole = 0; size_t j = 0;
    vector<size_t> order; for (size_t i = 0; i < I->io.q.size(); i++) order.push_back(i);
    for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[hmix(h, i) % i]);
    for (size_t ix : order) { auto& p = I->io.q[ix]; if (p.wr && !p.done) { int r = disk.tear(p.addr, p.data, hmix(h, 1000 + j++)); (r == 0 ? lost : r == 1 ? torn : whole)++; } }
    R.ctr["fault.crash"]++; if (inRecovery) R.ctr["fault.crash_in_recovery"]++; R.ctr["fault.write_lost_at_crash"] += lost; R.ctr["fault.write_torn_at_crash"] += torn; R.ctr["fault.write_done_unacked_at_crash"] += whole;
    tr("crash"); kind(30); liveOn = false; bool inRec = inRecovery; if (rotten) { if (M.crashCost() > 400000) { R.ctr["run.cut_ambiguous"]++; stop = true; return; } M.crash(); if (M.c.size() > 1) R.ctr["crash.ambiguous"]++; } else if (M.log.size() > M.lo) R.ctr["crash.ambiguous"]++;
    boot();
    if (!rotten) {
      Scan s = probe(disk, probeLim);
      if (!s.ok) { if (cloned && s.tooLong) { R.ctr["stuck.excused"]++; stop = true; } else bad("V01,V02,V09,V06", "after a crash: " + s.err); }
      else { string d0 = M.c.size() ? diffKV(M.c.back().cur, s.kv) : ""; if (!M.resolve(s.kv)) { string p = inRec ? "V01,V02,V09" : "V01,V02"; if (cloned) p += ",V05"; bad(p, "after a crash the recovered map is not the map after any legal prefix of the accepted writes; " + d0); } setLive(s); lastScan = s; haveScan = true; }
    }
  }
  void setLive(const Scan& s) { live.clear(); for (auto& r : s.reads) if (r.first >= 8192) live.push_back(r); liveOn = s.ok; }
  Scan lastScan; bool haveScan = false;
  // one fair step of the world: finish disk work and deliver, in an order drawn from h
  bool fair(uint64_t h) {
    auto& q = I->io.q; if (q.empty()) return false;
    size_t i = h % q.size();
    if (!q[i].done) complete(i);
    if (stop) return true;
    if (i < q.size()) deliver(i);
    return true;
  }
  uint64_t fh = 0, lazy = 0;
  // a slow disk: reads finish at once or not, writes stay in flight (at most holdMax of them, oldest or youngest first)
  void lazyStep() {
    auto& q = I->io.q; uint64_t h = hmix(seed, fh++); size_t w = 0; for (auto& p : q) if (p.wr) w++;
    vector<size_t> rd, wr; for (size_t i = 0; i < q.size(); i++) (q[i].wr ? wr : rd).push_back(i);
    if (!rd.empty() && h % 4 != 0) { size_t i = rd[(h >> 8) % rd.size()]; if (!q[i].done) complete(i); if (!stop && i < q.size()) deliver(i); return; }
    if (!wr.empty() && (w > 2 * lazy || (h >> 4) % (4 * lazy) == 0)) { size_t i = wr[(h >> 16) % wr.size()]; if (!q[i].done) complete(i); if (!stop && ((h >> 40) & 1) && i < q.size()) deliver(i); R.ctr["fault.slow_write_released"]++; }
  }
  // drive until f succeeds; bounded liveness
  template <class F> bool until(const string& what, F f, double extra = 0) {
    uint64_t n = 0, lim = bound + (uint64_t)extra;
    while (!stop) {
      if (f()) { if (n > R.ctr["live.max_steps"]) R.ctr["live.max_steps"] = n; return true; }
      if (stop) return true;
      if (++n > lim) return false;
      if (lazy && n < 300) lazyStep(); else { int k = 1 + (int)(hmix(seed, fh++) % 3); while (k-- && fair(hmix(seed, fh++))) {} }
      // the client keeps polling its outstanding syncs (a frozen graph is written out only by such polls)
      if (n > 10 && !I->syncs.empty() && hmix(seed, fh++) % 3 == 0) pop(hmix(seed, fh++) % I->syncs.size(), hmix(seed, fh++) & 1);
    }
    return true;
  }
  void stuck(const string& what) {
    if (stop) return;
    // clone is unfinished in the code (and unreachable from Main): some cloned trees can no longer split, so only safety is judged after one
    if (rotten || cloned) { R.ctr["stuck.excused"]++; stop = true; return; }
    if (bootFaulty) { R.ctr["stuck.restarted"]++; crash(hmix(seed, fh++) / 8 * 4); return; }      // a corrupt read may wedge the process; a restart must not
    if (pathExceedsCache(I->fs)) { R.ctr["stuck.path_exceeds_cache"]++; stop = true; return; }       // a configuration no deployment has: fewer cached nodes than the tree has levels
    string p = "V06"; if (inRecovery) p += ",V09,V01"; if (what == "sync") p += ",V14"; if (k("tightJournal", 0)) p += ",V10"; if (k("tightSpace", 0)) p += ",V11"; if (k("tightCache", 0)) p += ",V12";
    bad(p, what + " made no progress within " + std::to_string(bound) + " fault-free steps"); stop = true;
  }
  void drainAll() { int g = 0; while (!I->io.q.empty() && !stop && g++ < 100000) fair(hmix(seed, fh++)); }
  void fullScan(const string& what) {
    int sk = 0; string sKey;
    while (!stop) { int ek = 3; string eKey; bool ok = until(what, [&] { return trySucc(sk, sKey, 7 + hmix(seed, fh) % 60, &ek, &eKey); }); if (!ok) { stuck(what); return; } if (stop || !R.viol.empty()) return; if (ek == 3) return; sk = ek == 2 ? 1 : 2; sKey = eKey; }
  }
  string key(const string& s) { return keys[strtoull(s.c_str(), 0, 10) % keys.size()]; }
  string value(uint64_t tag, uint64_t len) { if (len == 0) return ""; string v = "v" + std::to_string(tag) + "."; uint64_t x = hmix(seed, tag); while (v.size() < len) { v += (char)('a' + x % 26); x = x * 6364136223846793005ull + 1442695040888963407ull; x ^= x >> 29; } v.resize(std::max<size_t>(len, std::min<size_t>(v.size(), 1024))); return v.substr(0, 1024); }

  void event(const string& line) {
    auto w = splitWords(line); if (w.empty()) return; char c = w[0][0];
    auto n = [&](size_t i) { return i < w.size() ? strtoull(w[i].c_str(), 0, 10) : 0ull; };
    switch (c) {
      case 'P': tryPut(key(w[1]), value(n(2), n(3))); break;
      case 'G': tryGet(key(w[1])); break;
      case 'R': trySucc((int)n(1), key(w[2]), n(3)); break;
      case 'C': { string a = key(w[1]), b = key(w[2]); size_t la = n(3), lb = n(4); a = a.substr(0, la); b = b.substr(0, lb); if (a.size() > b.size()) std::swap(a, b); tryClone(a, b); break; }
      case 'S': push(); break;
      case 'Q': if (!I->syncs.empty()) pop(n(1) % I->syncs.size(), n(2)); break;
      case 'd': { vector<size_t> v; for (size_t i = 0; i < I->io.q.size(); i++) if (!I->io.q[i].done) v.push_back(i); if (!v.empty()) complete(v[n(1) % v.size()]); break; }
      case 'r': { vector<size_t> v; for (size_t i = 0; i < I->io.q.size(); i++) if (I->io.q[i].done) v.push_back(i); if (!v.empty()) deliver(v[n(1) % v.size()]); break; }
      case 'X': crash(n(1)); break;
      case 'E': corruptNext = 1 + (int)(n(1) % 5); break;
      case 'K': { if (disk.pg.empty()) break; auto it = disk.pg.begin(); std::advance(it, n(1) % disk.pg.size()); uint64_t pgn = it->first; string b = disk.read(pgn * 4096, 4096); corrupt(b, 1 + (int)(n(2) % 5), hmix(n(1), n(2))); disk.write(pgn * 4096, b); rotten = true; faulted = true; bootFaulty = true; liveOn = false; R.ctr["fault.bit_rot"]++; tr("rot"); break; }
      case 'Y': { if (rotten) break; Disk d = disk; size_t j = 0; for (auto& p : I->io.q) if (p.wr && !p.done) d.tear(p.addr, p.data, hmix(n(1), j++)); R.ctr["fault.crash_probe"]++; judge(probe(d, probeLim), "crash here"); break; }
      // blocking operations, driven to completion
      case 'I': { string kk = key(w[1]), vv = value(n(2), n(3)); if (!until("insert", [&] { return tryPut(kk, vv); })) stuck("insert"); break; }
      case 'L': { string a = key(w[1]).substr(0, n(3)), b = key(w[2]).substr(0, n(4)); if (a.size() > b.size()) std::swap(a, b); int tries = 0; until("clone", [&] { return tryClone(a, b) || ++tries > 60; }); break; }
      case 'B': { uint64_t cnt = n(1), tag = n(2), len = n(3); for (uint64_t i = 0; i < cnt && !stop && R.viol.empty(); i++) { uint64_t h = hmix(seed ^ 0xB0B, tag + i); string kk = keys[h % keys.size()]; string vv = value(tag + i, len ? 1 + (h >> 20) % len : 0); if (!until("insert", [&] { return tryPut(kk, vv); })) { stuck("insert"); break; } } break; }
      case 'V': { string kk = key(w[1]); if (!until("query", [&] { return tryGet(kk); })) stuck("query"); break; }
      case 'W': { bool g = n(1); push(); if (stop) break; if (I->syncs.empty()) break; uint64_t id = I->syncs.back().first; if (!until("sync", [&] { for (size_t i = 0; i < I->syncs.size(); i++) if (I->syncs[i].first == id) return pop(i, g); return true; })) stuck("sync"); break; }
      case 'Z': {   // crash at a random point inside a sync (or a forced graph sync), with its writes still in flight
        uint64_t steps = n(1), h = n(2); bool g = h & 1; push(); if (stop || I->syncs.empty()) break; uint64_t id = I->syncs.back().first; int slow = 1 + (int)((h >> 1) % 4);
        for (uint64_t i = 0; i < steps && !stop && R.viol.empty(); i++) {
          bool gone = true; for (size_t j = 0; j < I->syncs.size(); j++) if (I->syncs[j].first == id) { gone = pop(j, g); break; }
          if (gone) break;
          if (hmix(h, i) % slow == 0) fair(hmix(h, i * 7 + 1)); else if (hmix(h, i) % 3 == 0) { auto& q = I->io.q; if (!q.empty()) { size_t j = hmix(h, i * 5) % q.size(); if (!q[j].done) complete(j); } }
        }
        if (!stop && R.viol.empty()) crash(hmix(h, 77)); break; }
      case 'H': { uint64_t g = n(1) % 4, cnt = n(2), tag = n(3), len = n(4); vector<string> ks; for (auto& x : keys) if (!x.empty() && x[0] == (char)('a' + g)) ks.push_back(x); if (ks.empty()) break; for (uint64_t i = 0; i < cnt && !stop && R.viol.empty(); i++) { uint64_t h = hmix(seed ^ 0xB0B, tag + i); string kk = ks[h % ks.size()]; string vv = value(tag + i, 1 + (h >> 20) % std::max<uint64_t>(1, len)); if (!until("insert", [&] { return tryPut(kk, vv); })) { stuck("insert"); break; } } break; }
      case 'M': { static const char* fr[6] = {"%c/", "%c", "%c/1", "%c/2", "%c/", "%c/0"}; static const char* to[6] = {"%c/", "%c/zz", "%c0/", "%c/x/", "%c/1", "%c/9/"}; char a[16], b[16]; snprintf(a, 16, fr[n(3) % 6], (int)('a' + n(1) % 4)); snprintf(b, 16, to[n(4) % 6], (int)('a' + n(2) % 6)); string f = a, t = b; if (f.size() > t.size()) break; int tries = 0; until("clone", [&] { return tryClone(f, t) || ++tries > 8; }); break; }
      case 'A': fullScan("range query"); break;
      case 'D': drainAll(); break;
    }
  }
  void quiesce() {
    // faults stop: everything outstanding must finish, and the final state must be exactly right
    corruptNext = 0;
    if (bootFaulty || rotten) {
      if (rotten) { return; }
      crash(0); R.ctr["quiesce.reboots"]++;       // a corrupted recovery read: the operator restarts the process
      if (stop || !R.viol.empty()) return;
    }
    string kk = keys[0], vv = value(999999, 20);
    if (!until("insert", [&] { return tryPut(kk, vv); })) { stuck("insert"); return; }
    if (stop || !R.viol.empty()) return;
    push(); if (stop) return;
    bool g = seed & 1;
    while (!I->syncs.empty() && !stop && R.viol.empty()) if (!until("sync", [&] { return I->syncs.empty() || pop(0, g); })) { stuck("sync"); return; }
    if (stop || !R.viol.empty()) return;
    size_t n = M.log.size(); if (M.lo != n) { bad("V14", "all syncs returned but the newest writes are not covered"); return; }
    fullScan("range query"); if (stop || !R.viol.empty()) return;
    for (auto& kx : keys) { if (!until("query", [&] { return tryGet(kx); })) { stuck("query"); return; } if (stop || !R.viol.empty()) return; }
    crash(4 * (seed % 97)); if (stop || !R.viol.empty()) return;
    fullScan("range query after restart");
    drainAll();
    R.ctr["quiesced"]++;
  }
  RunResult run(const Scenario& sc) {
    size_t first = 0;
    for (auto& l : sc) { if (l.rfind("knob ", 0) == 0) { auto w = splitWords(l); knob[w[1]] = strtoull(w[2].c_str(), 0, 10); } }
    (void)first; seed = k("seed", 1); bound = k("bound", 6000); lazy = k("lazy", 0); probeEvery = k("probeEvery", 1);
    setKnobs(); layout(); disk.garbage = k("garbage", 0);
    keys = keyPool((int)k("keymode", 0), (int)k("nkeys", 20), k("keyseed", 1));
    try {
      mkfs(); boot();
      if (R.viol.empty()) { Scan s = probe(disk, probeLim); if (!s.ok) bad("V13", "a freshly formatted store does not open: " + s.err); else { if (!s.kv.empty()) bad("V13", "a freshly formatted store is not empty: " + diffKV(KV(), s.kv)); for (auto& r : s.reads) if (r.first >= 8192) live.push_back(r); liveOn = true; } }
      for (auto& l : sc) { if (stop || !R.viol.empty()) break; if (l.rfind("knob ", 0) == 0 || l[0] == '#') continue; opNo++; event(l); }
      if (!stop && R.viol.empty()) quiesce();
    } catch (Unsupported& u) { R.engineError = string("unsupported: ") + u.what() + " in " + EN->traceStr(); }
    catch (DafnyError& e) { bad("V15,V13", string("run-time failure while formatting: ") + e.what() + " in " + EN->traceStr()); }
    R.trace = th; R.shape = shp; R.simSeconds = clockNs / 1e9; std::sort(R.states.begin(), R.states.end()); R.states.erase(std::unique(R.states.begin(), R.states.end()), R.states.end());
    R.ctr["engine.steps"] += EN->steps; R.ctr["boots"] += boots; if (R.ctr["cache.peak"]) R.ctr.erase("cache.peak"); if (R.ctr.count("live.max_steps")) { R.ctr["live.max_steps_le_" + std::to_string(1ull << (64 - __builtin_clzll(R.ctr["live.max_steps"] + 1)))]++; R.ctr.erase("live.max_steps"); }
    return R;
  }
};

int treeDepth(Val& fs) {
  try {
    Val bc = field(fs, "bc"); if (!isCtor(bc, "Ready")) return 0; Val t = field(field(bc, "ephemeralIndirectionTable"), "t"); std::map<uint64_t, int> memo;
    std::function<int(uint64_t, int)> go = [&](uint64_t ref, int lvl) -> int {
      auto i = memo.find(ref); if (i != memo.end()) return i->second; if (lvl > 200) return 0;
      Val e = EN->call("LinearMutableMap.Get", {t, Val::U64(ref)}); int d = 1; if (isCtor(e, "Some")) for (auto& x : elems(field(field(e, "value"), "succs"))) d = std::max(d, 1 + go(asU(x), lvl + 1)); return memo[ref] = d; };
    return go(0, 0);
  } catch (std::exception&) { EN->unwind(); return 0; }
}
bool pathExceedsCache(Val& fs) { int d = treeDepth(fs); if (getenv("SIM_TRACE")) fprintf(stderr, "tree depth %d\n", d); return d && (uint64_t)d + 3 > asU(EN->call("Bounds.MaxCacheSizeUint64", {})); }
GenCfg genConfig(Rng& r, Scenario& s, const string& focus) {
  auto K = [&](const char* n, uint64_t v) { s.push_back(string("knob ") + n + " " + std::to_string(v)); };
  bool defaults = r.chance(0.04);
  int keymode = r.weighted({4, 2, 3, focus == "V07" ? 0.3 : focus == "V03" || focus == "V04" ? 1.6 : 0.7, 2}); int nkeys = (int)r.range(3, r.chance(0.3) ? 160 : 40); uint64_t fill = 0;
  uint64_t vmax = r.pick<uint64_t>({8, 30, 60, 200, 1024});
  if (focus == "V10" && r.chance(0.4)) vmax = 8, keymode = 0;      // small entries: the journal is filled to the last byte
  uint64_t weight = 0, cache = 0, children = 0;
  if (!defaults) {
    // the knobs keep the configuration lemmas of Bounds.i.dfy true
    if (focus == "V05") vmax = std::min<uint64_t>(vmax, 60), keymode = keymode == 3 ? 2 : keymode;
    bool big = r.chance(focus == "V12" || focus == "V11" || focus == "V08" ? 0.75 : 0.5); if (big && vmax > 200) vmax = 200;
    weight = keymode == 3 || vmax == 1024 ? r.pick<uint64_t>({32768, 65536}) : r.pick<uint64_t>({2048, 4096, 4096, 8192, 16384}); children = r.pick<uint64_t>({3, 4, 8, 8}); if (focus == "V05") children = r.pick<uint64_t>({8, 12, 16});
    if (weight / 8 < 80 + 8 && vmax > 60) vmax = 60; if (weight == 2048) vmax = std::min<uint64_t>(vmax, 60); if (weight == 4096) vmax = std::min<uint64_t>(vmax, 200);
    if (big) {      // many nodes: the data are many times the capacity of one leaf
      keymode = focus == "V05" ? keymode : r.weighted({5, 1, 3, 0, 2}); int c = r.weighted({3, 3, 2, 1}); vmax = c == 0 ? 16 : std::min<uint64_t>(vmax, 60); if (keymode == 4 && c == 0) c = 1;
      weight = c == 0 ? 512 : c == 1 ? 1024 : c == 2 ? 2048 : 4096; uint64_t per = (keymode == 4 ? 13 : keymode == 2 ? 8 : 5) + vmax / 2 + 8; fill = r.pick<uint64_t>({4, 10, 10, 25, 50}); if (focus == "V08" && r.chance(0.6)) fill = r.range(4, 12); nkeys = (int)std::min<uint64_t>(1500, std::max<uint64_t>(10, fill * weight / 2 / per));
    }
    uint64_t need = 32 + 8 + 8 + (children + 1) * (8 + 1024) + 8 + children * 8 + 8 + children * 32 + weight + 256; uint64_t nb = 4096; while (nb < need) nb *= 2;
    cache = r.pick<uint64_t>({10, 10, 11, 12, 24, 100}); if (focus == "V12" || focus == "V08") cache = r.pick<uint64_t>({10, 10, 11, 12, 14});
    uint64_t jb = r.pick<uint64_t>({8, 12, 16, 40, 200}); if (focus == "V10") jb = r.pick<uint64_t>({8, 9, 12, 16}); if (keymode == 3 || vmax == 1024) jb = std::max<uint64_t>(jb, 16);
    uint64_t numBlocks = 2048; 
    if (focus == "V05") { keymode = r.weighted({0.5, 0.5, 1, 0, 0.5, 6}); nkeys = std::max(nkeys, 40); if (weight < 1024) weight = 1024; if (keymode == 4 && vmax > 40) vmax = 40; }
    K("NodeBlock", nb); K("JournalBlocks", jb); K("BucketWeight", weight); K("Cache", cache); K("Children", children);
    uint64_t minBlk = (8192 + jb * 4096 + 2 * std::max<uint64_t>(65536, nb) + nb - 1) / nb;
    bool tight = focus == "V11" || r.chance(0.1);
    uint64_t it = std::max<uint64_t>(65536, nb);   // LargestBlockSizeOfAnyType is the indirection table's
    if (tight) { numBlocks = minBlk + r.range(24, 60); uint64_t spare = numBlocks - minBlk; numBlocks = (numBlocks + 63) / 64 * 64; it = ((numBlocks - spare) * nb - 8192 - jb * 4096) / 2 / 4096 * 4096; K("tightSpace", 1); if (!big) nkeys = std::min(nkeys, 12); else nkeys = std::min<int>(nkeys, std::max<int>(6, spare * weight / 20 / 50)); fill = std::min<uint64_t>(fill, 10); vmax = std::min<uint64_t>(vmax, 60); keymode = keymode == 3 ? 0 : keymode; }
    else numBlocks += (minBlk + 63) / 64 * 64;     // the allocator's bitmap wants a multiple of 64
    K("ITBlock", it); K("NumBlocks", numBlocks); if (jb <= 16) K("tightJournal", 1); if (cache <= 14) K("tightCache", 1);
  }
  if (nkeys > 100) K("probeEvery", 1 + nkeys / 100);
  if (focus == "V08" ? r.chance(0.85) : r.chance(0.5)) K("lazy", focus == "V08" && r.chance(0.7) ? r.pick<uint64_t>({4, 8, 16, 40}) : r.range(1, 4));
  if (r.chance(0.6)) K("hashCap", r.pick<uint64_t>({8, 12, 16, 40}));
  if (r.chance(0.6)) { K("leafKeys", r.pick<uint64_t>({3, 4, 5, 8, 16})); K("leafFan", r.pick<uint64_t>({4, 5, 7, 16})); }
  if (r.chance(0.6)) K("jcap", r.pick<uint64_t>({1, 2, 3, 5, 16}));
  if (r.chance(0.5)) K("garbage", r.u() % 1000000007ull);
  K("keymode", keymode); K("nkeys", nkeys); K("keyseed", r.below(1000));
  GenCfg c; c.keymode = keymode; c.nkeys = nkeys; c.fill = fill; c.vmax = vmax; return c;
}
static Scenario gen(uint64_t seed, const string& focus, int tier) {
  Rng r(seed); Scenario s; auto K = [&](const char* n, uint64_t v) { s.push_back(string("knob ") + n + " " + std::to_string(v)); };
  K("seed", seed % 1000000007ull);
  GenCfg cfg = genConfig(r, s, focus); int keymode = cfg.keymode, nkeys = cfg.nkeys; uint64_t fill = cfg.fill, vmax = cfg.vmax;
  bool grp = keymode == 5; auto hot = [&](int g) { s.push_back("H " + std::to_string(g) + " " + std::to_string(r.range(20, 120)) + " " + std::to_string(500000 + r.below(100000)) + " " + std::to_string(vmax)); };
  // event mix
  double pPut = 8 * (0.3 + r.below(3)), pGet = 2 + r.below(6), pSucc = r.below(4), pClone = r.chance(0.06) || focus == "V05" ? 1 + r.below(3) : 0, pPush = 0.5 + r.below(3) * 0.7, pPop = 3 + r.below(8), pDisk = 6 + r.below(20), pResp = 6 + r.below(20), pCrash = r.chance(0.85) ? 0.1 + r.below(5) * 0.12 : 0.02, pCor = 0, pRot = 0, pProbe = r.below(3) * 0.15, pBulk = r.below(4) * 0.4, pIns = r.below(5), pSyncB = r.below(3) * 0.3, pZ = r.below(4) * 0.3; if (focus == "V05") pClone *= grp ? 0.5 : 0.25;
  if (fill) { pBulk += 0.3; pGet += 4; pIns += 2; }
  if (focus == "V07") { pCor = 0.4 + r.below(4) * 0.4; pRot = r.chance(0.5) ? 0.05 : 0; } else if (r.chance(0.12)) { pCor = 0.2; pRot = r.chance(0.2) ? 0.02 : 0; }
  if (focus == "V09") pCrash = 0.8 + r.below(4) * 0.5; if (focus == "V04") pSucc += 5; if (focus == "V14") { pPush += 3; pPop += 6; } if (focus == "V10" || focus == "V11") { pBulk += 1.2; pIns += 3; }
  double graphP = r.pick<double>({0.0, 0.1, 0.5, 1.0});
  if (focus == "V08" && r.chance(0.7)) {     // changes while blocks are being written: writes stay in flight across operations
    graphP = r.pick<double>({0.0, 0.0, 0.5, 1.0}); bool ev = graphP == 0; pIns += ev ? 30 : 8; pPut = 2; pBulk += 1; pPush = ev ? 0.1 : 2; pPop = ev ? 0.5 : 8; double d = r.pick<double>({0.02, 0.1, 0.3}); pDisk *= d; pResp *= d; pCrash *= 0.5; if (ev) pSyncB = 0.05, pZ = 0.05;
  }
  int n = (int)r.range(60, tier ? 1500 : 500); uint64_t tag = 0;
  // warm up: open the store and put some data in it
  if (focus == "V05") { s.push_back("B " + std::to_string(r.range(80, 300)) + " 500000 " + std::to_string(vmax)); }
  if (fill) { uint64_t left = nkeys * r.range(2, 4) / 2; while (left) { uint64_t c = std::min<uint64_t>(left, r.range(20, 300)); s.push_back("B " + std::to_string(c) + " " + std::to_string(600000 + tag) + " " + std::to_string(vmax)); tag += 1000; left -= c; if (r.chance(0.3)) s.push_back(r.chance(0.3) ? "Z " + std::to_string(r.range(1, 60)) + " " + std::to_string(r.u() % 1000000007ull) : "W " + std::to_string(r.below(2))); } }
  else if (r.chance(0.8)) { s.push_back("B " + std::to_string(r.range(1, r.chance(0.3) ? 400 : 60)) + " " + std::to_string(tag) + " " + std::to_string(vmax)); tag += 1000; }
  if (r.chance(0.4)) s.push_back("W " + std::to_string(r.below(2)));
  auto num = [](uint64_t x) { return " " + std::to_string(x); };
  auto vlen = [&]() -> uint64_t { return r.chance(0.08) ? 0 : r.range(1, vmax); };
  auto clone = [&](const char* c) { return string(c) + num(r.below(nkeys)) + num(r.below(nkeys)) + num(r.below(6)) + num(r.range(1, 8)); };
  for (int i = 0; i < n; i++) {
    switch (r.weighted({pPut, pGet, pSucc, pClone, pPush, pPop, pDisk, pResp, pCrash, pCor, pRot, pProbe, pBulk, pIns, pSyncB, pGet * 0.3, pClone * 0.7, 0.1, 0.15, pZ})) {
      case 0: s.push_back("P" + num(r.below(nkeys)) + num(tag++) + num(vlen())); break;
      case 1: s.push_back("G" + num(r.below(nkeys))); break;
      case 2: s.push_back("R" + num(r.below(3)) + num(r.below(nkeys)) + num(r.chance(0.3) ? 1 : r.range(1, 50))); break;
      case 3: s.push_back(clone("C")); break;
      case 4: s.push_back("S"); break;
      case 5: s.push_back("Q" + num(r.below(8)) + num(r.chance(graphP))); break;
      case 6: s.push_back("d" + num(r.below(64))); break;
      case 7: s.push_back("r" + num(r.below(64))); break;
      case 8: s.push_back("X" + num(r.u() % 1000000007ull)); break;
      case 9: s.push_back("E" + num(r.below(5))); break;
      case 10: s.push_back("K" + num(r.below(100000)) + num(r.below(1000))); break;
      case 11: s.push_back("Y" + num(r.u() % 1000000007ull)); break;
      case 12: s.push_back("B" + num(r.range(1, 60)) + num(tag) + num(vmax)); tag += 100; break;
      case 13: s.push_back("I" + num(r.below(nkeys)) + num(tag++) + num(vlen())); break;
      case 14: s.push_back("W" + num(r.chance(graphP))); break;
      case 15: s.push_back("V" + num(r.below(nkeys))); break;
      case 16: if (grp) { int g = (int)r.below(4); for (int q = (int)r.below(3); q >= 0; q--) hot((g + 1 + (int)r.below(3)) % 4); s.push_back("M" + num(g) + num(r.below(6)) + num(r.below(6)) + num(r.below(6))); if (r.chance(0.7)) s.push_back("A"); } else s.push_back(clone("L")); break;
      case 17: s.push_back("A"); break;
      case 18: s.push_back("D"); break;
      case 19: s.push_back("Z" + num(r.range(1, 40)) + num(r.u() % 1000000007ull)); break;
    }
  }
  return s;
}
static RunResult runVeri(const Scenario& sc) { auto* v = new VeriRun; return v->run(sc); }
Sim* veriSim() {
  Sim* s = new Sim; s->name = "veri"; s->init = [] { veriLoad(); }; s->gen = gen; s->run = runVeri; s->runTimeout = 240;
  s->real = {"every method reachable from Impl/MainHandlers.i.dfy (200 Dafny files, interpreted from /repo's working tree)"};
  s->stub = {"disk (simulated, AsyncDiskModel.s.dfy)", "Dafny extern natives (engine/natives.cpp)"};
  s->faultKinds = {"fault.crash", "fault.crash_in_recovery", "fault.write_lost_at_crash", "fault.write_torn_at_crash", "fault.write_done_unacked_at_crash"}; s->diedProps = "V15,V06";
  return s;
}
