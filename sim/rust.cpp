// Simulators of the Rust tree (Splinter): the generators. The runs themselves are in rust/*.rs, compiled with the tree's own modules.
#include "runner.h"
#include <dlfcn.h>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>
#include <stdexcept>
using std::string; using std::vector;
bool decodeResult(const string& t, RunResult& r);
static string g_out; static void take(const uint8_t* p, size_t n) { g_out.assign((const char*)p, n); }
typedef void (*RunF)(const uint8_t*, size_t, void (*)(const uint8_t*, size_t));
static RunResult rustRun(RunF f, const Scenario& sc) {
  string t; for (auto& l : sc) t += l + "\n"; g_out.clear();
  signal(SIGVTALRM, [](int) { _exit(77); }); struct itimerval tv{}; tv.it_value.tv_sec = 30; setitimer(ITIMER_VIRTUAL, &tv, nullptr);   // processor time: a busy machine does not matter
  f((const uint8_t*)t.data(), t.size(), take);
  RunResult r; if (!decodeResult(g_out, r)) r.engineError = "the run gave no result"; string m; for (auto& v : r.viol) if (v.second.find(" panicked: ") != string::npos) m = v.second; if (!m.empty()) r.bad(g_focus, m);   // a program that ends early keeps no property
  return r;
}
static string selfDir() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b); string s(b, n > 0 ? n : 0); return s.substr(0, s.rfind('/')); }
static RunF loadRust(const string& lib) { void* h = dlopen((selfDir() + "/" + lib).c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) throw std::runtime_error(dlerror()); RunF f = (RunF)dlsym(h, "rs_run"); if (!f) throw std::runtime_error("no rs_run in " + lib); return f; }
static string N(uint64_t x) { return std::to_string(x); }
// Where threads are preempted: a few points anywhere, a burst, or a steady rate.
static void schedule(Scenario& s, Rng& r, uint64_t steps) {
  int how = r.weighted({3, 3, 2, 1}); if (steps < 4) steps = 4;
  if (how == 0) { for (uint64_t i = r.range(1, 6); i; i--) s.push_back("p " + N(r.range(1, steps)) + " " + N(r.below(8))); }
  else if (how == 1) { double q = r.pick(vector<double>{0.05, 0.2, 0.5, 0.9}); for (uint64_t i = 1; i <= steps; i++) if (r.chance(q)) s.push_back("p " + N(i) + " " + N(r.below(8))); }
  else if (how == 2) { uint64_t a = r.range(1, steps), n = r.range(3, 12); for (uint64_t i = 0; i < n; i++) s.push_back("p " + N(a + i) + " " + N(r.below(8))); }
}

// ---- the bank
static RunF fBank;
static Scenario genBank(uint64_t seed, const string&, int tier) {
  Rng r(seed); Scenario s; auto knob = [&](const char* n, uint64_t v) { s.push_back(string("knob ") + n + " " + N(v)); };
  if (r.chance(tier ? 0.02 : 0.03)) { knob("main", 1); double q = r.pick(vector<double>{0.001, 0.01, 0.05, 0.2}); uint64_t steps = 16000; for (uint64_t i = 1; i <= steps; i++) if (r.chance(q)) s.push_back("p " + N(i) + " " + N(r.below(12))); return s; }
  bool api = r.chance(0.15); uint64_t n = api ? r.range(6, 40) : r.pick(vector<uint64_t>{1, 2, 2, 2, 3, 3, 4, 6}), a = r.pick(vector<uint64_t>{0, 1, 10, 15, 15, 100, 4294967295ull, 4294967290ull, 2147483648ull}); if (api && r.chance(0.6)) a = r.range(5, 40);
  knob("accounts", n); knob("initial", a); uint64_t th = r.range(1, tier ? 6 : 5), steps = 0; auto acc = [&]() -> uint64_t { if (r.chance(0.06)) return r.pick(vector<uint64_t>{n, n + 1, 18446744073709551615ull, 4294967296ull}); return r.below(n); };
  auto amt = [&]() -> uint64_t { if (r.chance(0.25)) return r.pick(vector<uint64_t>{0, 1, a, a + 1, a ? a - 1 : 0, 4294967295ull, 4294967295ull - a, 4294967296ull - a, 2147483648ull}) & 0xffffffffull; return a < 100 ? r.range(0, a + 3) : r.below(a) & 0xffffffffull; };
  for (uint64_t t = 1; t <= th; t++) for (uint64_t k = r.range(1, tier ? 6 : 4); k; k--) { steps += 6; if (api) s.push_back("api " + N(t)); else if (r.chance(0.3) && n) s.push_back("c " + N(t) + " " + N(r.below(n))); else { uint64_t f = acc(), g = acc(); if (f == g && n > 1 && r.chance(0.8)) g = (f + 1) % n; s.push_back("t " + N(t) + " " + N(f) + " " + N(g) + " " + N(amt())); } }
  schedule(s, r, steps + th * 2); return s;
}
Sim* bankSim() {
  static Sim s; s.name = "bank"; s.init = [] { fBank = loadRust("librs_bank.so"); }; s.gen = genBank; s.run = [](const Scenario& sc) { return rustRun(fBank, sc); };
  s.real = {"Splinter/src/example/SimpleBank_v.rs", "Splinter/src/example/ClientAPI_t.rs", "Splinter/src/example/VerifiedEntry_t.rs"}; s.stub = {"std::thread, std::sync and vstd::rwlock (scheduled by the simulator)", "ghost state (erased)"}; s.faultKinds = {"fault.preemptions", "sched.waits"}; s.diedProps = "R02"; s.runTimeout = 120;
  return &s;
}

// ---- the key-value store
static RunF fStore;
static Scenario genStore(uint64_t seed, const string&, int tier) {
  Rng r(seed); Scenario s; bool lng = r.chance(0.06); uint64_t n = lng ? r.range(150, tier ? 1500 : 600) : r.range(3, tier ? 120 : 60), val = 1, keys = r.pick(vector<uint64_t>{1, 2, 5, 20});
  vector<double> w = {r.pick(vector<double>{1, 3, 6}), r.pick(vector<double>{0.5, 2, 5}), 0.4, 0.4, r.pick(vector<double>{0.5, 2, 4}), r.pick(vector<double>{0, 0.5, 2}), r.pick(vector<double>{0, 0.5, 1}), lng ? r.pick(vector<double>{0, 0.02}) : r.pick(vector<double>{0, 0, 0.15, 0.5}), r.pick(vector<double>{0, 0.5})};
  auto input = [&](int k) -> string { uint64_t key = r.chance(0.05) ? r.u() : r.below(keys); if (k == 0) return "put " + N(key) + " " + N(r.chance(0.03) ? 0 : val++); if (k == 1) return "sync"; if (k == 2) return "query " + N(key); return "noop"; };
  for (uint64_t i = 0; i < n; i++) { int k = r.weighted(w); if (k < 4) s.push_back(input(k)); else if (k == 4) s.push_back("disk " + N(r.below(4))); else if (k == 5) s.push_back("both " + N(r.below(4)) + " " + input(r.weighted({3, 2, 0.3, 0.3}))); else if (k == 6) s.push_back("land " + N(r.below(4))); else if (k == 7) s.push_back("crash " + N(r.below(4))); else s.push_back("idle"); }
  return s;
}
Sim* storeSim() {
  static Sim s; s.name = "store"; s.init = [] { fStore = loadRust("librs_store.so"); }; s.gen = genStore; s.run = [](const Scenario& sc) { return rustRun(fStore, sc); };
  s.real = {"Splinter/src/implementation/Implementation_v.rs", "Splinter/src/trusted/TrustedEntry_t.rs", "Splinter/src/trusted/ReqReply_t.rs", "Splinter/src/trusted/ClientAPI_t.rs (identifiers)"}; s.stub = {"clients and disk behind trusted/ClientAPI_t.rs", "superblock codec (unreached() in the tree)", "ghost state (erased)"}; s.faultKinds = {"fault.crash", "fault.crash_write_kept", "fault.crash_write_lost", "fault.landed_unreported", "fault.idle_poll"}; s.diedProps = "R05"; s.runTimeout = 120;
  return &s;
}

// ---- pages
static RunF fFmt;
static Scenario genFmt(uint64_t seed, const string& prop, int tier) {
  Rng r(seed); Scenario s; auto knob = [&](const char* n, uint64_t v) { s.push_back(string("knob ") + n + " " + N(v)); };
  uint64_t kind = r.weighted({3, 2, 3, 3, 1, 0.5}), lw = r.below(4), bw = r.below(4), ew = r.below(4); static const uint64_t sz[] = {1, 2, 4, 8};
  uint64_t total = r.chance(0.3) ? r.range(1, 40) : r.chance(0.5) ? r.range(20, 300) : r.pick(vector<uint64_t>{255, 256, 257, 300, 511, 512, 600, 1024, 4096}); if (total < sz[lw]) total = sz[lw] + r.below(9);
  bool big = kind <= 1 && r.chance(0.03); if (big) { total = r.pick(vector<uint64_t>{65534, 65537, 65538, 70000, 131080}); if (r.chance(0.6)) ew = 0; }   // where a two-byte length is at its limit
  knob("fmt", kind); knob("len", lw); knob("bdy", bw); knob("elt", ew); knob("total", total); knob("lead", r.chance(0.4) ? 0 : r.range(1, 30)); knob("slack", r.chance(0.5) ? 0 : r.range(1, 20)); knob("tail", r.chance(0.4) ? 0 : r.range(1, 30)); knob("sector", r.pick(vector<uint64_t>{1, 8, 16, 64, 512})); knob("au_pages", r.pick(vector<uint64_t>{1, 2, 3, 8})); knob("first_au", r.pick(vector<uint64_t>{0, 1, 7, 1000000})); knob("fill", r.u() >> 2);
  uint64_t cap = kind == 0 ? (total - sz[lw]) / sz[ew] : kind == 1 ? total / sz[ew] : total; uint64_t small = r.pick(vector<uint64_t>{1, 3, 8, 30, 120});
  auto val = [&]() -> uint64_t { return r.chance(0.3) ? r.pick(vector<uint64_t>{0, 1, 127, 128, 255, 256, 65535, 65536, 0x01020304, 0x80000000ull, 0xffffffffull, 0x0102030405060708ull, ~0ull}) : r.u() >> r.below(60); };
  auto elt = [&]() -> string { if (kind == 2) return N(r.chance(0.1) ? r.below(total + 1) / sz[ew] : r.below(small)) + " 0 " + N(r.u() >> 8); if (kind == 3 || kind == 4) return N(r.chance(0.05) ? r.pick(vector<uint64_t>{255, 256, 254}) : r.below(small)) + " " + N(r.chance(0.05) ? r.below(total + 1) : r.below(small)) + " " + N(r.u() >> 8); return N(val()) + " 0 0"; };
  auto at = [&]() -> uint64_t { return r.chance(0.2) ? r.pick(vector<uint64_t>{0, cap ? cap - 1 : 0, cap, cap + 1}) : r.below(cap + 1); };
  double dmg = r.pick(vector<double>{0, 0.5, 2, 4}); vector<double> w = {r.pick(vector<double>{0.2, 1}), kind <= 1 || kind >= 4 ? r.pick(vector<double>{0.5, 2}) : 0, kind <= 1 ? r.pick(vector<double>{0.5, 4}) : 0, kind == 1 || kind >= 4 ? 0 : r.pick(vector<double>{1, 6, 12}), kind == 0 ? 1. : 0, 0.3, 1, 0.5, 1, 0.7, r.pick(vector<double>{0, 0.4, 1}), dmg, dmg, dmg / 2, r.chance(0.3) ? 1. : 0, r.chance(0.3) ? 0.5 : 0};
  if (prop == "R08") { w[0] = 6; w[14] = 4; w[15] = 1; }
  s.push_back("new " + N(r.below(3)));
  for (uint64_t i = r.range(3, tier ? 60 : 30); i; i--) switch (r.weighted(w)) {
    case 0: s.push_back("new " + N(r.below(3))); break;
    case 1: s.push_back("put " + (kind == 4 ? N(r.below(small)) : N(big && r.chance(0.5) ? cap : r.chance(0.3) ? at() : r.below(cap < 40 ? cap + 1 : 40))) + " " + N(kind == 5 ? val() : r.u() >> 8) + " " + N(r.below(small)) + " " + N(r.below(64))); break;
    case 2: s.push_back("set " + N(at()) + " " + elt()); break;
    case 3: s.push_back("app " + elt()); break;
    case 4: s.push_back("resize " + N(at())); break;
    case 5: s.push_back("init"); break;
    case 6: s.push_back("probe " + N(r.u() >> 8)); break;
    case 7: s.push_back("open " + N(r.below(6))); break;
    case 8: s.push_back("write"); break;
    case 9: s.push_back("land"); break;
    case 10: s.push_back("crash " + N(r.chance(0.3) ? 0 : r.chance(0.3) ? ~0ull : r.u()) + " " + N(r.u() >> 8)); break;
    case 11: s.push_back("rot " + N(r.below(total + 40)) + " " + N(r.range(1, 255)) + " " + N(r.u() >> 8)); break;
    case 12: s.push_back("hit " + N(r.chance(0.4) ? 0 : r.below(1 + (r.chance(0.5) ? 4 : cap))) + " " + N(r.chance(0.5) ? r.pick(vector<uint64_t>{0, 1, total, total + 1, total - 1, cap, cap + 1, cap ? cap - 1 : 0, sz[lw], sz[lw] + sz[bw], sz[lw] - 1, 255, 65535, ~0ull, 1ull << 63, 1ull << 40, 0xffffffffull}) : r.below(total + 2)) + " " + N(r.u() >> 8)); break;
    case 13: s.push_back("short " + N(r.chance(0.5) ? r.range(0, 9) : r.below(total + 40)) + " " + N(r.u() >> 8)); break;
    case 14: s.push_back("res " + N(r.below(1000))); break;
    default: s.push_back("obs");
  }
  return s;
}
Sim* fmtSim() {
  static Sim s; s.name = "fmt"; s.init = [] { fFmt = loadRust("librs_fmt.so"); }; s.gen = genFmt; s.run = [](const Scenario& sc) { return rustRun(fFmt, sc); };
  s.real = {"Splinter/src/marshalling/*_v.rs", "Splinter/src/exec/MiniAllocator_v.rs"}; s.stub = {"disk with sectors (the simulator's)", "ghost state (erased)"}; s.faultKinds = {"fault.crash", "fault.torn_write", "fault.lost_write", "fault.flipped_byte", "fault.wrong_field", "fault.short_read"}; s.diedProps = "R07"; s.runTimeout = 120;
  return &s;
}
