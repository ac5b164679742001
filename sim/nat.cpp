// The native externs of /repo/framework on generated arguments: values and lengths at their boundaries, memory that ends (or begins)
// at an unmapped page, and histories over long-lived linear cells, sequences and boxes compared with small models.
#include "../shim/bridge.h"
#include "runner.h"
#include <dlfcn.h>
#include <stdexcept>
#include <sys/mman.h>
using std::string; using std::vector; typedef unsigned __int128 u128;
#define F(ret, name, ...) static ret (*name)(__VA_ARGS__)
F(int, nat_cmp, BrBytes, BrBytes); F(uint32_t, nat_u32, BrBytes, uint64_t); F(uint64_t, nat_u64, BrBytes, uint64_t); F(uint64_t, nat_u64a, BrBytes, uint64_t); F(uint64_t, nat_u32s, BrBytes, uint64_t, uint64_t, uint32_t*); F(uint64_t, nat_u64s, BrBytes, uint64_t, uint64_t, uint64_t*);
F(void, nat_fill, uint64_t, uint8_t, uint8_t*); F(uint64_t, nat_clone, BrBytes, uint8_t*);
F(uint32_t, nat_crc8, uint32_t, uint8_t); F(uint64_t, nat_crc64, uint64_t, uint64_t); F(uint32_t, nat_x32, uint32_t, uint32_t); F(uint64_t, nat_x64, uint64_t, uint64_t); F(uint64_t, nat_add, uint64_t, uint64_t); F(void, nat_128, int, const u128*, const u128*, u128*); F(void, nat_loadu, const uint64_t*, uint64_t, uint32_t, u128*);
F(uint64_t, box_dead, uint64_t*, uint64_t); F(void*, box_new, int, uint64_t, uint64_t); F(uint64_t, box_swap, void*, uint64_t); F(uint64_t, box_borrow, void*); F(void, box_free, void*); F(void, box_call, int, uint64_t, uint64_t);
F(void*, ls_new, int, uint64_t, uint64_t); F(uint64_t, ls_len, void*); F(uint64_t, ls_get, void*, uint64_t); F(void*, ls_set, void*, uint64_t, uint64_t); F(void*, ls_resize, void*, uint64_t); F(uint64_t, ls_unleash, void*, uint64_t*, uint64_t); F(void, ls_free, void*);
F(void*, ll_new, uint64_t); F(uint64_t, ll_len, void*); F(uint64_t, ll_share, void*, uint64_t); F(void*, ll_swap, void*, uint64_t, int, uint64_t, uint64_t*); F(void*, ll_resize, void*, uint64_t); F(void, ll_free, void*);
F(uint64_t, map_remove, const uint64_t*, uint64_t, uint64_t, uint64_t*, int*); F(int, nat_write, int, const void*, uint64_t, uint64_t, uint8_t*, uint64_t, uint64_t, uint64_t); F(int, nat_write64, int, const uint64_t*, uint64_t, uint64_t, uint64_t*, uint64_t, uint64_t, uint64_t);
static void natInit(const string& so) {
  void* h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) throw std::runtime_error(dlerror());
#define L(n) if (!(n = (decltype(n))dlsym(h, #n))) throw std::runtime_error("missing " #n)
  L(nat_cmp); L(nat_u32); L(nat_u64); L(nat_u64a); L(nat_u32s); L(nat_u64s); L(nat_fill); L(nat_clone); L(nat_crc8); L(nat_crc64); L(nat_x32); L(nat_x64); L(nat_add); L(nat_128); L(nat_loadu); L(box_dead); L(box_new); L(box_swap); L(box_borrow); L(box_free); L(box_call); L(ls_new); L(ls_len); L(ls_get); L(ls_set); L(ls_resize); L(ls_unleash); L(ls_free); L(ll_new); L(ll_len); L(ll_share); L(ll_swap); L(ll_resize); L(ll_free); L(map_remove); L(nat_write); L(nat_write64);
}
// Two fenced arenas: [no access][2 MiB][no access]; an argument lies against one fence or, at an odd offset, in between.
static const size_t AR = 2 << 20; static uint8_t* arena[2];
static void fence() { for (auto& a : arena) if (!a) { uint8_t* p = (uint8_t*)mmap(nullptr, AR + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED || mprotect(p + 4096, AR, PROT_READ | PROT_WRITE)) throw std::runtime_error("mmap"); a = p + 4096; } }
static uint8_t* place(Rng& r, int k, size_t n, size_t align = 1) { size_t how = r.below(3), off = how == 0 ? 0 : how == 1 ? AR - n : r.below(AR - n + 1); off -= off % align; return arena[k] + off; }
static uint64_t value(Rng& r) { switch (r.below(6)) { case 0: return r.below(3); case 1: return ~r.below(3); case 2: return 1ull << r.below(64); case 3: return (1ull << r.below(64)) - 1; case 4: return 0x8080808080808080ull ^ r.below(256); default: return r.u(); } }
static size_t length(Rng& r) { static const size_t B[] = {0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 511, 512, 4095, 4096}; if (r.chance(0.03)) { static const size_t H[] = {4097, 8191, 8192, 12288, 32767, 65535, 65536, 65537, 131072}; return r.chance(0.6) ? H[r.below(sizeof H / sizeof *H)] : r.below(200000); } return r.chance(0.6) ? B[r.below(sizeof B / sizeof *B)] : r.below(600); }
static void bytes(Rng& r, uint8_t* p, size_t n) { int k = r.below(4); for (size_t i = 0; i < n; i++) p[i] = k == 0 ? 0 : k == 1 ? 0xff - r.below(2) : k == 2 ? "\x00\x01\x7f\x80\xff"[r.below(5)] : r.u(); }
static uint64_t rdle(const uint8_t* p, int w) { uint64_t x = 0; for (int i = w; i-- > 0;) x = x << 8 | p[i]; return x; }
static void wrle(uint8_t* p, uint64_t x, int w) { for (int i = 0; i < w; i++) p[i] = x >> 8 * i; }
static uint32_t crcByte(uint32_t c, uint8_t b) { c ^= b; for (int i = 0; i < 8; i++) c = c & 1 ? c >> 1 ^ 0x82F63B78u : c >> 1; return c; }
static u128 clmul(uint64_t a, uint64_t b) { u128 r = 0; for (int i = 0; i < 64; i++) if (b >> i & 1) r ^= (u128)a << i; return r; }
static const char* OPS[] = {"cmp", "unpack32", "unpack64", "unpack64a", "unpack32s", "unpack64s", "write", "write64", "fill", "clone", "crc8", "crc64", "xor", "add", "vec", "loadu", "map", "box.new", "box.swap", "box.borrow", "box.free", "box.call", "ls.new", "ls.set", "ls.get", "ls.resize", "ls.unleash", "ls.free", "ll.new", "ll.swap", "ll.share", "ll.resize", "ll.free"};
static const int NOPS = sizeof OPS / sizeof *OPS;
static Scenario genNat(uint64_t seed, const string&, int tier) {
  Rng r(hmix(seed, 0x4A7)); Scenario s; vector<double> w(NOPS, 1.0); for (auto& x : w) x = 0.2 + r.below(4) * (r.chance(0.2) ? 4 : 1);
  size_t n = r.range(20, tier ? 400 : 160); for (size_t i = 0; i < n; i++) s.push_back(string("n ") + OPS[r.weighted(w)] + " " + std::to_string(r.u() >> 16));
  return s;
}
struct HBox { void* h; int kind; uint64_t v, env; }; struct HSeq { void* h; vector<uint64_t> m; vector<char> known; }; struct HL { void* h; vector<std::pair<char, uint64_t>> m; };
static RunResult runNat(const Scenario& sc) {
  RunResult R; fence(); R.trace = 7; R.shape = 11; vector<HBox> bx; vector<HSeq> ls; vector<HL> ll; uint64_t serial = 1; vector<uint64_t> tmp(20000);
  auto bad = [&](const string& op, const string& m) { R.bad("F08", "native " + op + ": " + m); };
  auto S = [](uint64_t x) { return std::to_string(x); }; auto mix = [&](uint64_t x) { R.trace = hmix(R.trace, x); };
  auto dead = [&](const string& op, vector<uint64_t> want) { uint64_t got[64]; uint64_t n = box_dead(got, 64); bool ok = n == want.size(); for (uint64_t i = 0; ok && i < n; i++) ok = got[i] == want[i]; if (!ok) bad(op, "a linear value was destroyed " + S(n / 2) + " times, expected " + S(want.size() / 2) + ", or with the wrong value"); };
  for (auto& line : sc) {
    auto wv = splitWords(line); if (wv.size() < 3 || wv[0] != "n") continue; const string& op = wv[1]; Rng r(strtoull(wv[2].c_str(), 0, 10)); R.ctr["op." + op]++; R.shape = hmix(R.shape, hstr(op)); R.ctr["calls"]++;
    if (op == "cmp") {
      size_t a = length(r), b = r.chance(0.5) ? a : length(r); uint8_t *p = place(r, 0, a), *q = place(r, 1, b); bytes(r, p, a); if (r.chance(0.7)) { memcpy(q, p, std::min(a, b)); if (b > a) bytes(r, q + a, b - a); if (std::min(a, b) && r.chance(0.6)) q[r.below(std::min(a, b))] ^= 1 << r.below(8); } else bytes(r, q, b);
      int c = nat_cmp({p, a}, {q, b}), w = 0; for (size_t i = 0; i < a && i < b && !w; i++) w = (int)p[i] - (int)q[i]; if (!w) w = a < b ? -1 : a > b; if ((c < 0) != (w < 0) || (c > 0) != (w > 0)) bad(op, "answers " + std::to_string(c) + " for sequences of " + S(a) + " and " + S(b) + " bytes that compare " + std::to_string(w)); mix(w < 0 ? 1 : w > 0 ? 2 : 3);
    } else if (op == "unpack32" || op == "unpack64" || op == "unpack64a") {
      int w = op == "unpack32" ? 4 : 8; size_t n = w + length(r); uint8_t* p = place(r, 0, n); bytes(r, p, n); uint64_t i = r.chance(0.4) ? n - w : r.chance(0.3) ? 0 : r.below(n - w + 1); uint64_t x = op == "unpack32" ? nat_u32({p, n}, i) : op == "unpack64" ? nat_u64({p, n}, i) : nat_u64a({p, n}, i); if (x != rdle(p + i, w)) bad(op, S(x) + " instead of " + S(rdle(p + i, w)) + " at " + S(i) + " of " + S(n)); mix(x);
    } else if (op == "unpack32s" || op == "unpack64s") {
      int w = op == "unpack32s" ? 4 : 8; uint64_t k = length(r), pre = r.below(20), n = pre + k * w + (r.chance(0.5) ? 0 : r.below(20)); uint8_t* p = place(r, 0, n); bytes(r, p, n); vector<uint32_t> o4(k + 1); vector<uint64_t> o8(k + 1); uint64_t g = w == 4 ? nat_u32s({p, n}, pre, k, o4.data()) : nat_u64s({p, n}, pre, k, o8.data()); if (g != k) bad(op, S(g) + " elements instead of " + S(k)); else for (uint64_t i = 0; i < k; i++) { uint64_t x = w == 4 ? o4[i] : o8[i]; if (x != rdle(p + pre + i * w, w)) { bad(op, "element " + S(i) + " of " + S(k)); break; } mix(x); }
    } else if (op == "write") {
      int o = r.below(6); uint64_t sn = o < 2 ? 8 : o < 4 ? r.below(200) : length(r), unit = o == 0 ? 4 : o == 1 ? 8 : o == 2 ? 4 : o == 3 ? 8 : 1, cnt = o < 2 ? 1 : o < 4 ? sn : r.chance(0.3) ? sn : r.below(sn + 1), si = o < 4 ? 0 : r.chance(0.5) ? sn - cnt : r.below(sn - cnt + 1), len = cnt * unit; uint64_t di = r.below(20), dn = di + len + (r.chance(0.5) ? 0 : r.below(20)); size_t sb = o < 2 ? 8 : sn * unit;
      uint8_t* p = place(r, 0, sb, unit); bytes(r, p, sb); if (o < 2) wrle(p, value(r), 8); vector<uint8_t> d(dn + 1), want; bytes(r, d.data(), dn); want = d; memcpy(&want[di], p + si, len); if (!nat_write(o, p, o < 2 ? 1 : sn, si, d.data(), dn, di, cnt)) bad(op, "variant " + S(o) + " wrote outside the array (or changed its length or its source)"); if (d != want) bad(op, "variant " + S(o) + ": " + S(len) + " bytes at " + S(di) + " of " + S(dn) + " are wrong"); for (auto x : d) mix(x);
    } else if (op == "write64") {
      int o = r.below(4); uint64_t sn = o == 0 ? 1 : r.below(200), cnt = r.below(sn + 1), si = r.below(sn - cnt + 1), di = r.below(10), dn = o == 0 ? r.below(200) : o == 1 ? sn : di + cnt + r.below(5); uint64_t* p = (uint64_t*)place(r, 0, sn * 8, 8); for (uint64_t i = 0; i < sn; i++) p[i] = value(r); vector<uint64_t> d(dn + 1), want; for (uint64_t i = 0; i < dn; i++) d[i] = value(r); want = d; if (o == 0) for (uint64_t i = 0; i < dn; i++) want[i] = p[0]; else if (o == 1) std::copy(p, p + sn, want.begin()); else std::copy(p + si, p + si + cnt, want.begin() + di);
      if (!nat_write64(o, p, sn, si, d.data(), dn, di, cnt)) bad(op, "variant " + S(o) + " wrote outside the array (or changed its length or its source)"); if (d != want) bad(op, "variant " + S(o) + ": wrong contents"); for (auto x : d) mix(x);
    } else if (op == "fill") { size_t n = length(r); uint8_t x = value(r); vector<uint8_t> o(n + 1); nat_fill(n, x, o.data()); for (size_t i = 0; i < n; i++) if (o[i] != x) { bad(op, "element " + S(i)); break; } mix(n);
    } else if (op == "clone") { size_t n = length(r); uint8_t* p = place(r, 0, n); bytes(r, p, n); vector<uint8_t> o(n + 1); if (nat_clone({p, n}, o.data()) != n) bad(op, "wrong length or not a copy"); else { if (n) o[0] ^= 0; if (memcmp(o.data(), p, n)) bad(op, "wrong contents"); } mix(n);
    } else if (op == "crc8") { uint32_t c = value(r); uint8_t b = value(r); uint32_t x = nat_crc8(c, b); if (x != crcByte(c, b)) bad(op, S(x)); mix(x);
    } else if (op == "crc64") { uint64_t c = (uint32_t)value(r), v = value(r); uint32_t w = c; for (int i = 0; i < 8; i++) w = crcByte(w, v >> 8 * i); uint64_t x = nat_crc64(c, v); if (x != w) bad(op, S(x) + " instead of " + S(w)); mix(x);
    } else if (op == "xor") { uint64_t a = value(r), b = value(r); if (nat_x64(a, b) != (a ^ b)) bad(op, "64 bits"); if (nat_x32(a, b) != ((uint32_t)a ^ (uint32_t)b)) bad(op, "32 bits"); mix(a ^ b);
    } else if (op == "add") { uint64_t a = value(r), b = value(r); if (nat_add(a, b) != a + b) bad(op, S(a) + " + " + S(b)); mix(a + b);
    } else if (op == "vec") { u128 a = (u128)value(r) << 64 | value(r), b = (u128)value(r) << 64 | value(r); for (int k = 0; k < 6; k++) { u128 o = 0, w = 0; nat_128(k, &a, &b, &o); switch (k) { case 0: w = a ^ b; break; case 1: w = clmul(a, b); break; case 2: w = clmul(a, b >> 64); break; case 3: w = (u128)(uint32_t)(a >> 32) << 64 | (uint32_t)a; break; case 4: w = (uint64_t)a; break; case 5: w = (uint64_t)a; o = (uint64_t)o; break; } if (o != w) bad(op, "operation " + S(k)); mix((uint64_t)o ^ (uint64_t)(o >> 64)); }
    } else if (op == "loadu") { uint64_t n = 2 + r.below(40), i = r.chance(0.4) ? n - 2 : r.below(n - 1); uint64_t* p = (uint64_t*)place(r, 0, n * 8, 8); for (uint64_t k = 0; k < n; k++) p[k] = value(r); u128 o; nat_loadu(p, n, i, &o); if (o != ((u128)p[i + 1] << 64 | p[i])) bad(op, "at " + S(i) + " of " + S(n)); mix(o);
    } else if (op == "map") { std::map<uint64_t, uint64_t> m; size_t n = r.below(30); for (size_t i = 0; i < n; i++) m[r.below(40)] = value(r); vector<uint64_t> kv; for (auto& p : m) { kv.push_back(p.first); kv.push_back(p.second); } uint64_t k = r.below(40); vector<uint64_t> o(kv.size() + 4); int intact = 0; uint64_t c = map_remove(kv.data(), m.size(), k, o.data(), &intact); m.erase(k); vector<uint64_t> w; for (auto& p : m) { w.push_back(p.first); w.push_back(p.second); } o.resize(2 * std::min<uint64_t>(c, kv.size() / 2)); if (!intact) bad(op, "the argument was changed"); if (c != m.size() || o != w) bad(op, "wrong map of " + S(c) + " entries"); mix(c);
    } else if (op == "box.new") { if (bx.size() < 12) { HBox b; b.kind = r.below(3); b.v = serial++ << 8 | r.below(256); b.env = value(r) >> 1; b.h = box_new(b.kind, b.v, b.env); bx.push_back(b); dead(op, {}); }
    } else if (op == "box.swap") { if (bx.size()) { HBox& b = bx[r.below(bx.size())]; uint64_t x = serial++ << 8, o = box_swap(b.h, x); if (o != b.v) bad(op, "gave back " + S(o) + " instead of " + S(b.v)); b.v = x; dead(op, {}); mix(o); }
    } else if (op == "box.borrow") { if (bx.size()) { HBox& b = bx[r.below(bx.size())]; uint64_t o = box_borrow(b.h); if (o != b.v) bad(op, S(o) + " instead of " + S(b.v)); dead(op, {}); mix(o); }
    } else if (op == "box.free") { if (bx.size()) { size_t i = r.below(bx.size()); HBox b = bx[i]; bx.erase(bx.begin() + i); box_free(b.h); if (b.kind == 0) dead(op, {}); else dead(op, {b.v, b.kind == 1 ? ~0ull : b.env}); mix(b.v); }
    } else if (op == "box.call") { int e = r.below(2); uint64_t x = value(r), en = value(r) >> 1; box_call(e, x, en); dead(op, {x, e ? en : ~0ull}); mix(x);
    } else if (op == "ls.new") { if (ls.size() < 12) { HSeq q; int e = r.chance(0.3); uint64_t n = e ? 0 : r.below(70), x = value(r); q.h = ls_new(e, n, x); q.m.assign(n, x); q.known.assign(n, 1); ls.push_back(q); if (ls_len(q.h) != n) bad(op, "length " + S(ls_len(q.h)) + " instead of " + S(n)); else for (uint64_t i = 0; i < n; i++) if (ls_get(q.h, i) != x) { bad(op, "element " + S(i)); break; } mix(n); }
    } else if (op == "ls.set" || op == "ls.get") { if (ls.size()) { HSeq& q = ls[r.below(ls.size())]; if (q.m.size()) { uint64_t i = r.below(q.m.size()); if (op == "ls.set") { uint64_t x = value(r); q.h = ls_set(q.h, i, x); q.m[i] = x; q.known[i] = 1; } for (uint64_t k = 0; k < q.m.size(); k++) if (q.known[k] && ls_get(q.h, k) != q.m[k]) { bad(op, "element " + S(k) + " changed"); break; } mix(q.m[i]); } }
    } else if (op == "ls.resize") { if (ls.size()) { HSeq& q = ls[r.below(ls.size())]; uint64_t n = r.chance(0.3) ? q.m.size() + r.below(3) : r.below(140); q.h = ls_resize(q.h, n); uint64_t old = q.m.size(); q.m.resize(n); q.known.resize(n); if (ls_len(q.h) != n) bad(op, "length " + S(ls_len(q.h)) + " instead of " + S(n)); else for (uint64_t k = 0; k < std::min(old, n); k++) if (q.known[k] && ls_get(q.h, k) != q.m[k]) { bad(op, "element " + S(k) + " was not kept"); break; } mix(n); }
    } else if (op == "ls.unleash" || op == "ls.free") { if (ls.size()) { size_t j = r.below(ls.size()); HSeq q = ls[j]; ls.erase(ls.begin() + j); if (op == "ls.free") ls_free(q.h); else { uint64_t g = ls_unleash(q.h, tmp.data(), tmp.size()); if (g != q.m.size()) bad(op, "length " + S(g)); else for (uint64_t k = 0; k < g; k++) if (q.known[k] && tmp[k] != q.m[k]) { bad(op, "element " + S(k)); break; } } mix(q.m.size()); }
    } else if (op == "ll.new") { if (ll.size() < 12) { HL q; uint64_t n = r.below(40); q.h = ll_new(n); q.m.assign(n, {0, 0}); ll.push_back(q); if (ll_len(q.h) != n) bad(op, "length " + S(ll_len(q.h)) + " instead of " + S(n)); mix(n); }
    } else if (op == "ll.swap" || op == "ll.share") { if (ll.size()) { HL& q = ll[r.below(ll.size())]; if (q.m.size()) { uint64_t i = r.below(q.m.size()); if (op == "ll.swap") { bool has = r.chance(0.75); uint64_t x = serial++ << 8, o = 0; q.h = ll_swap(q.h, i, has, x, &o); if (q.m[i].first && o != q.m[i].second) bad(op, "gave back " + S(o) + " instead of " + S(q.m[i].second)); q.m[i] = {(char)has, x}; } if (ll_len(q.h) != q.m.size()) bad(op, "length changed"); else for (uint64_t k = 0; k < q.m.size(); k++) if (q.m[k].first && ll_share(q.h, k) != q.m[k].second) { bad(op, "element " + S(k)); break; } mix(q.m[i].second); } }
    } else if (op == "ll.resize") { if (ll.size()) { HL& q = ll[r.below(ll.size())]; uint64_t n = r.below(80); q.h = ll_resize(q.h, n); q.m.resize(n, {0, 0}); if (ll_len(q.h) != n) bad(op, "length " + S(ll_len(q.h)) + " instead of " + S(n)); else for (uint64_t k = 0; k < n; k++) if (q.m[k].first && ll_share(q.h, k) != q.m[k].second) { bad(op, "element " + S(k) + " was not kept"); break; } mix(n); }
    } else if (op == "ll.free") { if (ll.size()) { size_t j = r.below(ll.size()); ll_free(ll[j].h); mix(ll[j].m.size()); ll.erase(ll.begin() + j); } }
    R.states.push_back(hmix(hmix(bx.size(), ls.size()), hmix(ll.size(), hstr(op)))); if (R.viol.size()) break;
  }
  for (auto& b : bx) { box_free(b.h); if (b.kind == 0) dead("box.free", {}); else dead("box.free", {b.v, b.kind == 1 ? ~0ull : b.env}); } for (auto& q : ls) ls_free(q.h); for (auto& q : ll) ll_free(q.h);
  R.ctr["fault.fenced_argument"] = R.ctr["calls"]; return R;
}
#include <unistd.h>
Sim* natSim() {
  static Sim s; s.name = "nat"; s.init = [] { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); b[n > 0 ? n : 0] = 0; string d = b; d = d.substr(0, d.rfind('/')); natInit(d + "/libapp0.so"); };
  s.gen = genNat; s.run = runNat; s.real = {"framework/NativeArrays.h", "framework/LinearExtern.h", "framework/LinearBox.h", "framework/Framework.h (natives)"}; s.stub = {"DafnyRuntime.h (stand-in)"}; s.faultKinds = {"fault.fenced_argument"}; s.diedProps = "F08"; s.runTimeout = 60; return &s;
}
