#include <sys/personality.h>
#include "runner.h"
#include <algorithm>
#include <chrono>
#include <cerrno>
#include <fcntl.h>
#include <fstream>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <sstream>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using std::string; using std::vector;

vector<string> splitWords(const string& s) { vector<string> r; std::istringstream is(s); string w; while (is >> w) r.push_back(w); return r; }
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// run f on a thread with a large stack (recursive interpreters)
template <class F> static void onBigStack(F f) {
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 1ull << 30);
  pthread_t t; auto* pf = new F(f);
  if (pthread_create(&t, &a, [](void* p) -> void* { (*(F*)p)(); return nullptr; }, pf)) { fprintf(stderr, "no thread\n"); _exit(2); }
  pthread_join(t, nullptr); delete pf;
}

static string esc(const string& s) { string r; for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '\\') r += "\\\\"; else r += c; } return r; }
static string unesc(const string& s) { string r; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\\' && i + 1 < s.size()) { i++; r += s[i] == 'n' ? '\n' : s[i]; } else r += s[i]; } return r; }
static string enc(const RunResult& r) {
  std::ostringstream o;
  for (auto& v : r.viol) o << "V " << v.first << " " << esc(v.second) << "\n";
  for (auto& c : r.ctr) o << "C " << c.second << " " << c.first << "\n";
  o << "T " << r.trace << " " << r.shape << " " << r.simSeconds << "\n";
  if (!r.states.empty()) { o << "S"; for (auto s : r.states) o << " " << s; o << "\n"; }
  if (!r.engineError.empty()) o << "E " << esc(r.engineError) << "\n";
  o << ".\n"; return o.str();
}
static bool dec(const string& t, RunResult& r) {
  std::istringstream is(t); string l; bool end = false;
  while (std::getline(is, l)) {
    if (l == ".") { end = true; break; }
    if (l.size() < 2) continue;
    std::istringstream w(l.substr(2));
    if (l[0] == 'V') { string p; w >> p; string m; std::getline(w, m); r.viol.push_back({p, unesc(m.empty() ? m : m.substr(1))}); }
    else if (l[0] == 'C') { uint64_t n; string k; w >> n >> k; r.ctr[k] = n; }
    else if (l[0] == 'T') w >> r.trace >> r.shape >> r.simSeconds;
    else if (l[0] == 'S') { uint64_t x; while (w >> x) r.states.push_back(x); }
    else if (l[0] == 'E') r.engineError = unesc(l.substr(2));
  }
  return end;
}
bool decodeResult(const string& t, RunResult& r) { return dec(t, r); }
// one run in a forked child
string g_focus;
static RunResult runForked(Sim* s, const Scenario& sc) {
  int p[2]; RunResult r;
  if (pipe(p)) { r.engineError = "pipe"; return r; }
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]); prctl(PR_SET_PDEATHSIG, SIGKILL);
    int dn = open("/dev/null", O_WRONLY); if (dn >= 0) { dup2(dn, 1); if (!getenv("SIM_STDERR")) dup2(dn, 2); }
    RunResult q;
    onBigStack([&] { try { q = s->run(sc); } catch (std::exception& e) { q.engineError = string("exception: ") + e.what(); } catch (...) { q.engineError = "unknown exception"; } });
    string t = enc(q); size_t off = 0; while (off < t.size()) { ssize_t n = write(p[1], t.data() + off, t.size() - off); if (n <= 0) break; off += n; }
    _exit(0);
  }
  close(p[1]); if (pid < 0) { close(p[0]); r.engineError = "fork failed"; return r; }
  string buf; char b[65536]; double t0 = now(); bool killed = false;
  while (true) {
    struct pollfd pf{p[0], POLLIN, 0}; int k = poll(&pf, 1, 1000);
    if (k > 0) { ssize_t n = read(p[0], b, sizeof b); if (n <= 0) break; buf.append(b, n); }
    if (now() - t0 > s->runTimeout && !killed) { kill(pid, SIGKILL); killed = true; }
  }
  close(p[0]); int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (!dec(buf, r)) { RunResult q; q.engineError = killed ? "run exceeded its wall-clock limit" : "run process ended abnormally, status " + std::to_string(st); if (!killed && WIFEXITED(st) && WEXITSTATUS(st) == 77 && !s->diedProps.empty()) { q.engineError.clear(); q.bad(s->diedProps + "," + g_focus, "the code under test does not return"); q.trace = 0xdead0077; } if (!killed && WIFSIGNALED(st)) { q.ctr["died.signal." + std::to_string(WTERMSIG(st))] = 1; if (!s->diedProps.empty() && WTERMSIG(st) != SIGKILL) { q.engineError.clear(); q.bad(s->diedProps + "," + g_focus, "the code under test died with signal " + std::to_string(WTERMSIG(st))); q.trace = 0xdead0000 + WTERMSIG(st); } } return q; }
  return r;
}
static string scenText(const Scenario& s) { string t; for (auto& l : s) t += l + "\n"; return t; }
static string jstr(const string& s) { string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }

struct Agg {
  uint64_t runs = 0; std::map<string, uint64_t> ctr; std::unordered_set<uint64_t> states, shapes, traces; double sim = 0; std::map<string, uint64_t> other; string engErr; uint64_t engErrs = 0; Scenario engSc; uint64_t rechecks = 0;
};

static Scenario minimise(Sim* s, Scenario sc, const string& focus, double budget, uint64_t& tries) {
  double end = now() + budget;
  auto fails = [&](const Scenario& c) { tries++; RunResult r = runForked(s, c); return r.engineError.empty() && r.violates(focus); };
  auto can = [&](const string& l) { if (l.rfind("knob ", 0) == 0 || l.rfind("#", 0) == 0) return false; return !s->shrinkable || s->shrinkable(l) != 0; };
  // truncate the tail first
  { size_t lo = 0, hi = sc.size(); while (lo < hi && now() < end) { size_t mid = (lo + hi) / 2; Scenario c(sc.begin(), sc.begin() + mid); if (mid > 0 && fails(c)) hi = mid; else lo = mid + 1; } if (hi < sc.size()) { Scenario c(sc.begin(), sc.begin() + hi); if (fails(c)) sc = c; } }
  size_t chunk = std::max<size_t>(1, sc.size() / 2);
  while (now() < end) {
    bool any = false;
    for (size_t i = 0; i < sc.size() && now() < end;) {
      Scenario c; size_t removed = 0;
      for (size_t k = 0; k < sc.size(); k++) if (k >= i && k < i + chunk && can(sc[k])) removed++; else c.push_back(sc[k]);
      if (removed && fails(c)) { sc = c; any = true; } else i += chunk;
    }
    if (chunk == 1) { if (!any) break; } else chunk = std::max<size_t>(1, chunk / 2);
  }
  return sc;
}

int simMain(int argc, char** argv, vector<Sim*> sims) {
  { int p = personality(0xffffffff); if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && !getenv("SIM_ASLR") && personality(p | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_ASLR", "1", 1); execv("/proc/self/exe", argv); } }   // the same addresses on every run: undefined behaviour of the code under test replays too
  string focus, tier = "quick", evid, replay, outDir = "/tmp", only, technique, extra, dump; uint64_t seed = 1; double budget = 40; int jobs = 8; uint64_t maxRuns = ~0ull; bool list = false;
  for (int i = 1; i < argc; i++) {
    string a = argv[i]; auto nx = [&]() { return string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") focus = nx(); else if (a == "--tier") tier = nx(); else if (a == "--evidence") evid = nx(); else if (a == "--replay") replay = nx();
    else if (a == "--replays") outDir = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--budget") budget = atof(nx().c_str()); else if (a == "--jobs") jobs = atoi(nx().c_str());
    else if (a == "--runs") maxRuns = strtoull(nx().c_str(), 0, 10); else if (a == "--sim") only = nx(); else if (a == "--list") list = true; else if (a == "--dump") dump = nx();
    else if (a == "--known") extra = nx();
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  (void)list;
  signal(SIGPIPE, SIG_IGN);
  setvbuf(stdout, nullptr, _IOLBF, 0);
  // a replay file names its simulator
  Sim* S = sims[0];
  vector<Sim*> SS; { size_t i = 0; string o = only + ","; while (i < o.size()) { size_t j = o.find(',', i); string nm = o.substr(i, j - i); for (auto s : sims) if (s->name == nm) SS.push_back(s); i = j + 1; } } if (SS.empty()) SS.push_back(sims[0]); S = SS[0];   // run k of the search uses simulator k modulo their number
  Scenario rsc; string rprop = focus;
  if (!replay.empty()) {
    std::ifstream f(replay); if (!f) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 2; }
    string l; while (std::getline(f, l)) { if (l.rfind("#sim ", 0) == 0) { for (auto s : sims) if (s->name == l.substr(5)) S = s; } else if (l.rfind("#property ", 0) == 0) { if (rprop.empty()) rprop = l.substr(10); } else if (!l.empty() && l[0] != '#') rsc.push_back(l); }
  }
  g_focus = replay.empty() ? focus : rprop;
  double t0 = now();
  string initErr;
  onBigStack([&] { try { sims[0]->init(); if (S != sims[0]) S->init(); for (auto s : SS) if (s != S && s != sims[0]) s->init(); } catch (std::exception& e) { initErr = e.what(); } });
  if (!initErr.empty()) { printf("ENGINE-ERROR: initialisation: %s\n", initErr.c_str()); return 2; }
  if (!replay.empty()) {
    RunResult r = runForked(S, rsc);
    printf("trace %016lx\n", (unsigned long)r.trace);
    if (!r.engineError.empty()) { printf("ENGINE-ERROR: %s\n", r.engineError.c_str()); return 2; }
    for (auto& v : r.viol) printf("%s: %s\n", v.first.c_str(), v.second.c_str());
    if (r.violates(rprop)) { printf("VIOLATION property=%s replay=%s\n", rprop.c_str(), replay.c_str()); return 1; }
    printf("no violation of %s\n", rprop.c_str()); return 0;
  }
  int tierN = tier == "thorough" ? 1 : 0;
  if (!dump.empty()) { Scenario sc = S->gen(strtoull(dump.c_str(), 0, 10), focus, tierN); printf("#sim %s\n", S->name.c_str()); fputs(scenText(sc).c_str(), stdout); RunResult r = runForked(S, sc); printf("# trace %016lx err %s\n", (unsigned long)r.trace, r.engineError.c_str()); for (auto& v : r.viol) printf("# %s: %s\n", v.first.c_str(), v.second.c_str()); for (auto& c : r.ctr) printf("# %s %lu\n", c.first.c_str(), (unsigned long)c.second); return 0; }
  double tInit = now() - t0;
  // workers
  struct W { pid_t pid; int fd; string buf; };
  vector<W> ws; double tEnd = t0 + budget;
  int stopPipe[2]; if (pipe(stopPipe)) return 2;
  fcntl(stopPipe[0], F_SETFL, O_NONBLOCK);
  for (int w = 0; w < jobs; w++) {
    int p[2]; if (pipe(p)) return 2;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      close(p[0]); prctl(PR_SET_PDEATHSIG, SIGKILL);
      for (uint64_t k = w; k < maxRuns; k += jobs) {
        if (now() >= tEnd && k >= (uint64_t)jobs) break;
        struct pollfd pf{stopPipe[0], POLLIN, 0}; if (poll(&pf, 1, 0) > 0) break;
        uint64_t sd = hmix(seed, k);
        Sim* S = SS[(k / jobs + k) % SS.size()]; Scenario sc; onBigStack([&] { sc = S->gen(sd, focus, tierN); });
        RunResult r = runForked(S, sc);
        if (k % 32 == 5 && r.engineError.empty()) { RunResult q = runForked(S, sc); r.ctr["determinism.rechecks"]++; if ((q.trace != r.trace || q.viol != r.viol) && !(r.violates(focus) && q.violates(focus))) r.engineError = "nondeterminism: two runs of one seed differ"; }
        string t = "K " + std::to_string(sd) + " " + std::to_string((k / jobs + k) % SS.size()) + "\n" + enc(r); size_t off = 0;
        while (off < t.size()) { ssize_t n = write(p[1], t.data() + off, t.size() - off); if (n <= 0) _exit(0); off += n; }
      }
      _exit(0);
    }
    close(p[1]); ws.push_back({pid, p[0], ""});
  }
  Agg A; bool hit = false; uint64_t hitSeed = 0; int open_ = jobs; bool stopped = false;
  while (open_) {
    vector<struct pollfd> pf; vector<int> ix; for (size_t i = 0; i < ws.size(); i++) if (ws[i].fd >= 0) { pf.push_back({ws[i].fd, POLLIN, 0}); ix.push_back((int)i); }
    poll(pf.data(), pf.size(), 500);
    for (size_t q = 0; q < pf.size(); q++) if (pf[q].revents) {
      W& w = ws[ix[q]]; char b[65536]; ssize_t n = read(w.fd, b, sizeof b);
      if (n <= 0) { close(w.fd); w.fd = -1; open_--; continue; }
      w.buf.append(b, n);
      size_t e; while ((e = w.buf.find("\n.\n")) != string::npos) {
        string t = w.buf.substr(0, e + 3); w.buf.erase(0, e + 3);
        size_t nl = t.find('\n'); uint64_t sd = strtoull(t.c_str() + 2, 0, 10); RunResult r; dec(t.substr(nl + 1), r);
        A.runs++; for (auto& c : r.ctr) A.ctr[c.first] += c.second; A.sim += r.simSeconds; A.shapes.insert(r.shape); A.traces.insert(r.trace);
        if (A.states.size() < 4000000) for (auto x : r.states) A.states.insert(x);
        if (!r.engineError.empty()) { A.engErrs++; if (A.engErr.empty()) { A.engErr = r.engineError + " (seed " + std::to_string(sd) + ")"; } }
        for (auto& v : r.viol) if (v.first != focus) A.other[v.first + ": " + v.second.substr(0, 160) + " (seed " + std::to_string(sd) + ")"]++;
        if (r.engineError.empty() && r.violates(focus) && !hit) { hit = true; hitSeed = sd; S = SS[strtoull(t.c_str() + t.find(' ', 2), 0, 10) % SS.size()]; }
      }
    }
    if (hit && !stopped) { stopped = true; if (write(stopPipe[1], "xxxxxxxx", 8) < 0) {} for (auto& w : ws) kill(w.pid, SIGKILL); }
  }
  for (auto& w : ws) waitpid(w.pid, nullptr, 0);
  double searchWall = now() - t0;
  string rfile; string vmsg;
  if (hit) {
    Scenario sc; onBigStack([&] { sc = S->gen(hitSeed, focus, tierN); });
    uint64_t tries = 0; size_t n0 = sc.size();
    Scenario m = minimise(S, sc, focus, tierN ? 120 : 40, tries);
    RunResult r1 = runForked(S, m), r2 = runForked(S, m);
    if (!r1.violates(focus)) { m = sc; r1 = runForked(S, m); r2 = runForked(S, m); }
    for (auto& v : r1.viol) if (v.first == focus) vmsg = v.second;
    mkdir(outDir.c_str(), 0755);
    rfile = outDir + "/" + focus + "-" + std::to_string(hitSeed % 1000000007ull) + ".replay";
    std::ofstream f(rfile); f << "#sim " << S->name << "\n#property " << focus << "\n#seed " << hitSeed << "\n#trace " << std::hex << r1.trace << std::dec << "\n#violation " << esc(vmsg) << "\n" << scenText(m); f.close();
    if (!r1.violates(focus) || !r2.violates(focus)) { printf("ENGINE-ERROR: the violation of seed %lu does not replay exactly\n", (unsigned long)hitSeed); return 2; }
    if (r1.trace != r2.trace) printf("note: both replays show the violation, with different traces: the code under test depends on something outside the simulator (uninitialised or freed memory)\n");
    printf("violation: %s\nseed %lu, %zu events minimised to %zu in %lu attempts\n", vmsg.c_str(), (unsigned long)hitSeed, n0, m.size(), (unsigned long)tries);
    printf("replay with: %s --replay %s\n", argv[0], rfile.c_str());
  }
  vector<string> names, real, stub, kinds; auto uni = [](vector<string>& v, const string& x) { if (std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x); };
  for (auto s : SS) { uni(names, s->name); for (auto& x : s->real) uni(real, x); for (auto& x : s->stub) uni(stub, x); for (auto& x : s->faultKinds) uni(kinds, x); }
  vector<string> zero; for (auto& k : kinds) if (!A.ctr.count(k)) zero.push_back(k);
  if (!evid.empty()) {
    std::ostringstream o;
    auto arr = [&](const vector<string>& v) { string t = "["; for (size_t i = 0; i < v.size(); i++) t += (i ? ", " : "") + jstr(v[i]); return t + "]"; };
    o << "{\n \"property\": " << jstr(focus) << ",\n \"tier\": " << jstr(tier) << ",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"violations\": " << (hit ? 1 : 0) << ",\n \"wall_s\": " << now() - t0 << ",\n";
    o << " \"coverage\": {\n  \"evaluations\": " << A.runs << ",\n  \"distinct_nontrivial\": " << std::max(A.states.size(), A.shapes.size()) << ",\n";
    o << "  \"rule\": \"one evaluation = one simulated run of one seed with every oracle on; distinct_nontrivial = distinct abstract system states (or, where larger, distinct event-kind interleavings) reached\",\n";
    o << "  \"samples\": [";
    { int n = 0; for (uint64_t k = 0; k < 3; k++) { Sim* S = SS[k % SS.size()]; Scenario sc; onBigStack([&] { sc = S->gen(hmix(seed, k), focus, tierN); }); string t; for (size_t i = 0; i < sc.size() && i < 14; i++) t += sc[i] + "; "; o << (n++ ? ", " : "") << jstr(S->name + ", seed " + std::to_string(hmix(seed, k)) + ": " + t); } }
    o << "],\n";
    o << "  \"simulators\": " << arr(names) << ",\n  \"runs_per_hour\": " << (uint64_t)(A.runs / std::max(0.1, searchWall - tInit) * 3600) << ",\n  \"seeds_per_hour\": " << (uint64_t)(A.runs / std::max(0.1, searchWall - tInit) * 3600) << ",\n  \"simulated_seconds\": " << A.sim << ",\n  \"distinct_states\": " << A.states.size() << ",\n  \"distinct_interleavings\": " << A.shapes.size() << ",\n  \"distinct_traces\": " << A.traces.size() << ",\n  \"workers\": " << jobs << ",\n  \"build_and_load_s\": " << tInit << ",\n";
    o << "  \"counters\": {"; bool first = true; for (auto& c : A.ctr) { o << (first ? "" : ", ") << jstr(c.first) << ": " << c.second; first = false; } o << "},\n";
    o << "  \"fault_kinds_never_fired\": " << arr(zero) << ",\n  \"real_components\": " << arr(real) << ",\n  \"stub_components\": " << arr(stub) << "\n },\n";
    o << " \"assumptions\": [\"the search is sampled: schedules and faults outside the explored seeds are not covered\", \"stub components behave as their specification files state\"]\n}\n";
    std::ofstream f(evid); f << o.str();
  }
  int nOther = 0; for (auto& x : A.other) if (nOther++ < 8) printf("note: other property also affected: %s (x%lu)\n", x.first.c_str(), (unsigned long)x.second);
  printf("%s: %lu runs, %zu states, %zu interleavings, %.1f s simulated, %.1f s wall\n", focus.c_str(), (unsigned long)A.runs, A.states.size(), A.shapes.size(), A.sim, now() - t0);
  if (hit) { printf("VIOLATION property=%s replay=%s\n", focus.c_str(), rfile.c_str()); return 1; }
  if (A.engErrs) { printf("ENGINE-ERROR: %lu runs: %s\n", (unsigned long)A.engErrs, A.engErr.c_str()); return 2; }
  if (A.runs == 0) { printf("ENGINE-ERROR: no run finished\n"); return 2; }
  return 0;
}
