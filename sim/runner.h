// Search driver shared by all simulators: seeded runs in forked children, aggregation, minimisation, replay, evidence.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

// the tree under test; SIM_REPO points experiments at a scratch copy
inline std::string repoRoot() { const char* r = getenv("SIM_REPO"); return r ? r : "/repo"; }
inline uint64_t splitmix(uint64_t& s) { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
inline uint64_t hmix(uint64_t a, uint64_t b) { uint64_t s = a * 0x9E3779B97F4A7C15ull ^ (b + 0x632BE59BD9B4E019ull); return splitmix(s); }
inline uint64_t hstr(const std::string& x, uint64_t h = 1469598103934665603ull) { for (unsigned char c : x) { h ^= c; h *= 1099511628211ull; } return h; }
struct Rng {
  uint64_t s; explicit Rng(uint64_t seed = 1) : s(seed * 0x2545F4914F6CDD1Dull + 0x1234567) { splitmix(s); }
  uint64_t u() { return splitmix(s); }
  uint64_t below(uint64_t n) { return n ? u() % n : 0; }
  uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
  bool chance(double p) { return (u() >> 11) * (1.0 / 9007199254740992.0) < p; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  int weighted(const std::vector<double>& w) { double t = 0; for (double x : w) t += x; double r = (u() >> 11) * (1.0 / 9007199254740992.0) * t; for (size_t i = 0; i < w.size(); i++) { if (r < w[i]) return (int)i; r -= w[i]; } return (int)w.size() - 1; }
};

typedef std::vector<std::string> Scenario;        // "knob NAME VALUE" lines, then one event per line

struct RunResult {
  std::vector<std::pair<std::string, std::string>> viol;      // (property id, message)
  std::map<std::string, uint64_t> ctr;                        // faults fired, operations, events
  std::vector<uint64_t> states;                               // abstract states visited
  uint64_t trace = 0;                                         // hash of everything observable, for exact replay
  uint64_t shape = 0;                                         // hash of the event-kind sequence (interleaving)
  double simSeconds = 0;
  std::string engineError;                                    // the machinery failed (exit 2)
  bool violates(const std::string& p) const { for (auto& v : viol) if (v.first == p) return true; return false; }
  void bad(const std::string& props, const std::string& msg) {   // props: comma separated
    size_t i = 0; while (i <= props.size()) { size_t j = props.find(',', i); if (j == std::string::npos) j = props.size(); if (j > i) { std::string p = props.substr(i, j - i); if (!violates(p)) viol.push_back({p, msg}); } i = j + 1; }
  }
};

struct Sim {
  std::string name;
  std::function<void()> init;                                             // once, before forking
  std::function<Scenario(uint64_t seed, const std::string& focus, int tier)> gen;
  std::function<RunResult(const Scenario&)> run;
  std::function<int(const std::string& line)> shrinkable;                  // 1 = event that may be dropped
  std::vector<std::string> real, stub;                                     // components
  std::vector<std::string> faultKinds;                                     // counters expected to be > 0
  int runTimeout = 300;
  std::string diedProps;                                                  // properties broken when the run's process is killed by a signal
};
extern std::string g_focus;                       // the property this run is searched for; violations of others do not end a run
int simMain(int argc, char** argv, std::vector<Sim*> sims);
std::vector<std::string> splitWords(const std::string& s);
