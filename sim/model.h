// Executable reference model of the crash-safe map: every put/clone in order, the durable lower bound, and the set of
// states the store may legally be in (after a crash: any prefix at or above the lower bound).
#pragma once
#include "runner.h"
typedef std::map<std::string, std::string> KV;             // absent = default (empty) value
struct MapOp { bool clone; std::string a, b; };            // put a:=b | clone from a to b
inline bool hasPrefix(const std::string& k, const std::string& p) { return k.compare(0, p.size(), p) == 0; }
inline void applyOp(KV& m, const MapOp& o) {
  if (!o.clone) { if (o.b.empty()) m.erase(o.a); else m[o.a] = o.b; return; }
  KV add; for (auto& kv : m) if (hasPrefix(kv.first, o.a)) add[o.b + kv.first.substr(o.a.size())] = kv.second;
  for (auto i = m.begin(); i != m.end();) if (hasPrefix(i->first, o.b)) i = m.erase(i); else ++i;
  for (auto& kv : add) m[kv.first] = kv.second;
}
struct Cand { KV base, cur; };
struct Model {
  std::vector<Cand> c{Cand{}};
  std::vector<MapOp> log; size_t lo = 0;                   // log[0..lo) is durable
  void op(const MapOp& o) { log.push_back(o); for (auto& x : c) applyOp(x.cur, o); }
  // states recovery may produce now
  std::vector<KV> recoverable(size_t from) const {
    std::set<KV> s; for (auto& x : c) { KV m = x.base; for (size_t i = 0; i < from; i++) applyOp(m, log[i]); s.insert(m); for (size_t i = from; i < log.size(); i++) { applyOp(m, log[i]); s.insert(m); } }
    return std::vector<KV>(s.begin(), s.end());
  }
  uint64_t crashCost() const { uint64_t n = 0; for (auto& x : c) n += (x.cur.size() + x.base.size() + 1) * (log.size() - lo + 1); return n; }
  void crash() { auto r = recoverable(lo); c.clear(); for (auto& m : r) c.push_back(Cand{m, m}); log.clear(); lo = 0; }
  // is kv the state after some prefix of at least `from` operations, in some candidate? (incremental; no copies per prefix)
  bool isPrefix(const KV& kv, size_t from) const {
    for (auto& x : c) {
      KV m = x.base; for (size_t i = 0; i < from; i++) applyOp(m, log[i]);
      size_t diff = 0; auto cmp = [&](const std::string& k) { auto a = m.find(k); auto b = kv.find(k); return (a == m.end()) != (b == kv.end()) || (a != m.end() && a->second != b->second); };
      auto full = [&] { diff = 0; for (auto& e : m) if (cmp(e.first)) diff++; for (auto& e : kv) if (!m.count(e.first)) diff++; };
      full(); if (!diff) return true;
      for (size_t i = from; i < log.size(); i++) {
        if (log[i].clone) { applyOp(m, log[i]); full(); } else { bool b4 = cmp(log[i].a); applyOp(m, log[i]); bool af = cmp(log[i].a); diff += (size_t)af - (size_t)b4; }
        if (!diff) return true;
      }
    }
    return false;
  }
  // a crash whose outcome is known: true if kv is legal, and then it is the only candidate
  bool resolve(const KV& kv) { if (!isPrefix(kv, lo)) return false; c.assign(1, Cand{kv, kv}); log.clear(); lo = 0; return true; }
  // keep the candidates satisfying pred; false if none does
  template <class P> bool filter(P p) { std::vector<Cand> k; for (auto& x : c) if (p(x.cur)) k.push_back(x); if (k.empty()) return false; c.swap(k); return true; }
};
inline std::string showBytes(const std::string& s) { std::string r; char b[8]; for (unsigned char ch : s) { if (r.size() > 60) { r += ".."; break; } if (ch >= 33 && ch < 127) r += (char)ch; else { snprintf(b, 8, "\\x%02x", ch); r += b; } } return "\"" + r + "\"(" + std::to_string(s.size()) + ")"; }
inline std::string diffKV(const KV& want, const KV& got) {
  std::string r; int n = 0;
  for (auto& kv : want) { auto i = got.find(kv.first); if (i == got.end()) { if (n++ < 2) r += " missing " + showBytes(kv.first); } else if (i->second != kv.second) { if (n++ < 2) r += " key " + showBytes(kv.first) + " has " + showBytes(i->second) + " instead of " + showBytes(kv.second); } }
  for (auto& kv : got) if (!want.count(kv.first)) if (n++ < 2) r += " extra " + showBytes(kv.first) + "=" + showBytes(kv.second);
  return std::to_string(n) + " differences:" + r;
}
// key pools
inline std::vector<std::string> keyPool(int mode, int n, uint64_t seed) {
  Rng r(seed); std::vector<std::string> v; std::set<std::string> s; std::string pre;
  while ((int)v.size() < n) {
    std::string k; char b[32];
    switch (mode) {
      case 0: snprintf(b, 32, "k%04d", (int)r.below(n * 4)); k = b; break;
      case 1: { int l = (int)r.below(7); const char al[4] = {0, (char)0xff, 'a', 'b'}; for (int i = 0; i < l; i++) k += al[r.below(4)]; if (v.size() == 0 && (seed & 1)) k = ""; break; }
      case 2: { static const char* pre[4] = {"alpha/", "beta/", "alpha/x/", ""}; k = pre[r.below(4)]; snprintf(b, 32, "%03d", (int)r.below(n * 2)); k += b; break; }
      case 3: if (seed & 1) {   // keys that differ only far from the start
        if (pre.empty()) pre = std::string(r.pick<uint64_t>({15, 16, 62, 63, 64, 127, 254, 255, 256, 300, 1000}), "aa\0\xff"[r.below(4)]); k = r.chance(0.85) ? pre : pre.substr(0, r.below(pre.size())); for (int i = (int)r.range(0, 12); i > 0; i--) k += (char)(r.chance(0.5) ? r.below(256) : 'a' + r.below(2)); break; } else { int l = (int)(r.chance(0.2) ? 1024 : r.range(1, 300)); for (int i = 0; i < l; i++) k += (char)r.below(256); break; }
      case 5: snprintf(b, 32, "%c/%02d", 'a' + (int)r.below(4), (int)r.below(n)); k = b; if (r.chance(0.1)) k += "/x"; break;
      default: { int l = (int)r.range(1, 24); for (int i = 0; i < l; i++) k += (char)r.below(256); }
    }
    if (s.size() > (size_t)n * 50) n = (int)v.size();
    if (s.insert(k).second || v.empty()) v.push_back(k); else if (mode == 1 && r.chance(0.2)) { k += (char)r.below(256); k += (char)r.below(256); if (s.insert(k).second) v.push_back(k); }
  }
  return v;
}
