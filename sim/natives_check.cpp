#include "../engine/interp.h"
#include "../shim/bridge.h"
#include "natives_check.h"
#include <dlfcn.h>
using namespace dfy; using std::string; using std::vector;
typedef unsigned __int128 u128;
std::function<void(const string&)> natBad; std::map<string, uint64_t> natCount;
static void* H = nullptr;
template <class F> static F sym(const char* n) { F f = (F)dlsym(H, n); if (!f) throw std::runtime_error(string("missing ") + n); return f; }
#define NAT(ret, name, ...) static ret (*name)(__VA_ARGS__)
NAT(int, nat_cmp, BrBytes, BrBytes); NAT(void, nat_fill, uint64_t, uint8_t, uint8_t*); NAT(uint64_t, nat_clone, BrBytes, uint8_t*); NAT(void, nat_copy_seq, BrBytes, uint64_t, uint8_t*, uint64_t, uint64_t, uint64_t); NAT(void, nat_copy_arr, BrBytes, uint64_t, uint8_t*, uint64_t, uint64_t, uint64_t);
NAT(uint32_t, nat_u32, BrBytes, uint64_t); NAT(uint64_t, nat_u64, BrBytes, uint64_t); NAT(uint64_t, nat_u64a, BrBytes, uint64_t); NAT(void, nat_p32, uint32_t, uint8_t*, uint64_t, uint64_t); NAT(void, nat_p64, uint64_t, uint8_t*, uint64_t, uint64_t);
NAT(uint64_t, nat_u32s, BrBytes, uint64_t, uint64_t, uint32_t*); NAT(uint64_t, nat_u64s, BrBytes, uint64_t, uint64_t, uint64_t*); NAT(void, nat_p32s, const uint32_t*, uint64_t, uint8_t*, uint64_t, uint64_t); NAT(void, nat_p64s, const uint64_t*, uint64_t, uint8_t*, uint64_t, uint64_t);
NAT(uint32_t, nat_crc8, uint32_t, uint8_t); NAT(uint64_t, nat_crc64, uint64_t, uint64_t); NAT(uint32_t, nat_x32, uint32_t, uint32_t); NAT(uint64_t, nat_x64, uint64_t, uint64_t); NAT(uint64_t, nat_add, uint64_t, uint64_t); NAT(void, nat_128, int, const u128*, const u128*, u128*); NAT(void, nat_loadu, const uint64_t*, uint64_t, uint32_t, u128*);
NAT(uint64_t, nat_lin, int, const uint64_t*, uint64_t, uint64_t, uint64_t, uint64_t*, uint64_t, uint64_t*);
NAT(uint64_t, map_remove, const uint64_t*, uint64_t, uint64_t, uint64_t*, int*);
void natLoad(void* so) {
  H = so;
#define L(n) n = sym<decltype(n)>(#n)
  L(nat_cmp); L(nat_fill); L(nat_clone); L(nat_copy_seq); L(nat_copy_arr); L(nat_u32); L(nat_u64); L(nat_u64a); L(nat_p32); L(nat_p64); L(nat_u32s); L(nat_u64s); L(nat_p32s); L(nat_p64s); L(nat_crc8); L(nat_crc64); L(nat_x32); L(nat_x64); L(nat_add); L(nat_128); L(nat_loadu); L(nat_lin); L(map_remove);
}
static bool allBytes(const Val& v) { if (v.t == V_SEQ) return ((SeqObj*)v.o)->buf->bytes; if (v.t == V_ARR) return ((ArrObj*)v.o)->buf->bytes; return false; }
static u128 as128(const Val& v) { return (u128)asI(v); }
static string raw(const Val& v) { return seqBytes(v); }
static BrBytes bb(const string& s) { return BrBytes{(const uint8_t*)s.data(), s.size()}; }
// The stand-ins run fast; where the real extern answers differently, the run goes on with the real answer.
bool natNoReport = false; static bool g_broken = false;
static void setArr(const Val& dst, const string& o) { Buf* q = ((ArrObj*)dst.o)->buf; memcpy(q->b, o.data(), std::min<size_t>(q->n, o.size())); }
static void differ(const string& n, const string& what = "") { g_broken = true; if (natBad) natBad("the extern " + n + " does not do what its Dafny contract says" + (what.empty() ? "" : ": " + what)); }
static string N64(uint64_t x) { return std::to_string(x); }
// wrap: before(args) captures, the stand-in runs, after compares
typedef std::function<std::function<void(Val*, Val&)>(Val*)> Pre;
static void wrap(Engine& e, const string& name, uint64_t every, Pre pre) {
  auto i = e.natives.find(name); if (i == e.natives.end()) throw std::runtime_error("no native " + name);
  NatFn std_ = i->second; uint64_t* cnt = &natCount[name]; 
  i->second = [std_, pre, every, cnt](Val* f, Val& r) { if ((*cnt)++ % (g_broken ? 1 : every)) { std_(f, r); return; } std::function<void(Val*, Val&)> post = pre(f); std_(f, r); if (post) post(f, r); };
}
void natHook(Engine& e) {
  const std::function<void(Val*, Val&)> none;
  wrap(e, "NativeArrays.ByteSeqCmpByteSeq", 1, [none](Val* f) -> std::function<void(Val*, Val&)> { if (!allBytes(f[0]) || !allBytes(f[1])) return none; SeqObj *a = (SeqObj*)f[0].o, *b = (SeqObj*)f[1].o; int c = nat_cmp(BrBytes{a->buf->b + a->off, a->len}, BrBytes{b->buf->b + b->off, b->len}); return [c](Val* f, Val&) { int64_t w = asI(f[2]); if ((c < 0) != (w < 0) || (c > 0) != (w > 0)) { differ("ByteSeqCmpByteSeq", N64(c) + " instead of " + N64(w)); f[2] = Val::raw(I_I32, (uint64_t)(int64_t)c); } }; });
  wrap(e, "NativeArrays.newArrayFill", 1, [none](Val* f) -> std::function<void(Val*, Val&)> { if (!(f[1].t == V_INT && f[1].it == I_U8)) return none; uint64_t n = asU(f[0]); uint8_t x = (uint8_t)f[1].u; return [n, x](Val* f, Val&) { string o(n, '?'); nat_fill(n, x, (uint8_t*)&o[0]); if (o != raw(f[2])) { differ("newArrayFill"); setArr(f[2], o); } }; });
  wrap(e, "NativeArrays.newArrayClone", 1, [none](Val* f) -> std::function<void(Val*, Val&)> { if (!allBytes(f[0])) return none; string a = raw(f[0]); return [a](Val* f, Val&) { string o(a.size(), '?'); if (nat_clone(bb(a), (uint8_t*)&o[0]) != a.size() || o != raw(f[1])) { differ("newArrayClone"); setArr(f[1], o); } }; });
  for (int arr = 0; arr < 2; arr++) wrap(e, arr ? "NativeArrays.CopyArrayIntoDifferentArray" : "NativeArrays.CopySeqIntoArray", 3, [none, arr](Val* f) -> std::function<void(Val*, Val&)> {
    if (!allBytes(f[0]) || !allBytes(f[2]) || f[2].t != V_ARR) return none; string s = raw(f[0]), d = raw(f[2]); uint64_t si = asU(f[1]), di = asU(f[3]), n = asU(f[4]);
    if (si > s.size() || n > s.size() - si || di > d.size() || n > d.size() - di) return none; Val dst = f[2];
    return [s, d, si, di, n, arr, dst](Val* f, Val&) { string o = d; (arr ? nat_copy_arr : nat_copy_seq)(bb(s), si, (uint8_t*)&o[0], o.size(), di, n); if (o != raw(dst)) { differ(arr ? "CopyArrayIntoDifferentArray" : "CopySeqIntoArray"); setArr(dst, o); } }; });
  const string PI = "NativePackedInts.";
  auto un = [&](const char* nm, int w, auto fn) { string name = PI + nm; wrap(e, name, 1, [none, name, w, fn](Val* f) -> std::function<void(Val*, Val&)> { if (!allBytes(f[0])) return none; string tmp; BrBytes b; if (f[0].t == V_SEQ) { SeqObj* q = (SeqObj*)f[0].o; b = BrBytes{q->buf->b + q->off, q->len}; } else { Buf* q = ((ArrObj*)f[0].o)->buf; b = BrBytes{q->b, q->n}; } uint64_t i = asU(f[1]); if (i > b.n || (uint64_t)w > b.n - i) return none; uint64_t x = fn(b, i); return [x, name, w](Val* f, Val&) { if (asU(f[2]) != x) { differ(name, N64(x) + " instead of " + N64(asU(f[2]))); f[2] = w == 4 ? Val::U32((uint32_t)x) : Val::U64(x); } }; }); };
  un("Unpack_LittleEndian_Uint32", 4, [](BrBytes b, uint64_t i) -> uint64_t { return nat_u32(b, i); }); un("Unpack_LittleEndian_Uint64", 8, [](BrBytes b, uint64_t i) -> uint64_t { return nat_u64(b, i); }); un("Unpack_LittleEndian_Uint64_From_Array", 8, [](BrBytes b, uint64_t i) -> uint64_t { return nat_u64a(b, i); });
  auto pk = [&](const char* nm, int w) { string name = PI + nm; wrap(e, name, 5, [none, name, w](Val* f) -> std::function<void(Val*, Val&)> { if (!allBytes(f[1])) return none; string d = raw(f[1]); uint64_t x = asU(f[0]), i = asU(f[2]); if (i > d.size() || (uint64_t)w > d.size() - i) return none; Val dst = f[1]; return [=](Val*, Val&) { string o = d; if (w == 4) nat_p32((uint32_t)x, (uint8_t*)&o[0], o.size(), i); else nat_p64(x, (uint8_t*)&o[0], o.size(), i); if (o != raw(dst)) { differ(name); setArr(dst, o); } }; }); };
  pk("Pack_LittleEndian_Uint32_into_Array", 4); pk("Pack_LittleEndian_Uint64_into_Array", 8);
  auto us = [&](const char* nm, int w) { string name = PI + nm; wrap(e, name, 1, [none, name, w](Val* f) -> std::function<void(Val*, Val&)> { if (!allBytes(f[0])) return none; string b = raw(f[0]); uint64_t i = asU(f[1]), n = asU(f[2]); if (i > b.size() || n > (b.size() - i) / w) return none; vector<uint64_t> o64(n + 1); vector<uint32_t> o32(n + 1); uint64_t got = w == 4 ? nat_u32s(bb(b), i, n, o32.data()) : nat_u64s(bb(b), i, n, o64.data()); return [=](Val* f, Val&) { vector<Val> v = elems(f[3]); bool ok = got == n && v.size() == n; for (uint64_t k = 0; ok && k < n; k++) ok = asU(v[k]) == (w == 4 ? o32[k] : o64[k]); if (ok) return; differ(name); vector<Val> real; for (uint64_t k = 0; k < std::min<uint64_t>(got, n); k++) real.push_back(w == 4 ? Val::U32(o32[k]) : Val::U64(o64[k])); f[3] = mkSeqVals(std::move(real)); }; }); };
  us("Unpack_LittleEndian_Uint32_Seq", 4); us("Unpack_LittleEndian_Uint64_Seq", 8);
  auto ps = [&](const char* nm, int w) { string name = PI + nm; wrap(e, name, 2, [none, name, w](Val* f) -> std::function<void(Val*, Val&)> { if (!allBytes(f[1])) return none; string d = raw(f[1]); uint64_t i = asU(f[2]); vector<uint64_t> s; vector<uint32_t> s4; for (auto& x : elems(f[0])) { s.push_back(asU(x)); s4.push_back((uint32_t)asU(x)); } if (i > d.size() || s.size() > (d.size() - i) / w) return none; Val dst = f[1]; return [=](Val*, Val&) { string o = d; if (w == 4) nat_p32s(s4.data(), s4.size(), (uint8_t*)&o[0], o.size(), i); else nat_p64s(s.data(), s.size(), (uint8_t*)&o[0], o.size(), i); if (o != raw(dst)) { differ(name); setArr(dst, o); } }; }); };
  ps("Pack_LittleEndian_Uint32_Seq_into_Array", 4); ps("Pack_LittleEndian_Uint64_Seq_into_Array", 8);
  const string FX = "F2_X_s.", BT = "Bits_s.";
  wrap(e, FX + "intrinsic_mm_crc32_u8", 1, [](Val* f) -> std::function<void(Val*, Val&)> { uint32_t x = nat_crc8((uint32_t)asU(f[0]), (uint8_t)asU(f[1])); return [x](Val*, Val& r) { if (asU(r) != x) { differ("intrinsic_mm_crc32_u8"); r = Val::U32((uint32_t)x); } }; });
  wrap(e, FX + "intrinsic_mm_crc32_u64", 1, [](Val* f) -> std::function<void(Val*, Val&)> { uint64_t x = nat_crc64(asU(f[0]), asU(f[1])); return [x](Val*, Val& r) { if (asU(r) != x) { differ("intrinsic_mm_crc32_u64"); r = Val::U64(x); } }; });
  wrap(e, FX + "bitxor32", 1, [](Val* f) -> std::function<void(Val*, Val&)> { uint64_t x = nat_x32((uint32_t)asU(f[0]), (uint32_t)asU(f[1])); return [x](Val*, Val& r) { if (asU(r) != x) { differ("bitxor32"); r = Val::U32((uint32_t)x); } }; });
  wrap(e, FX + "bitxor64", 1, [](Val* f) -> std::function<void(Val*, Val&)> { uint64_t x = nat_x64(asU(f[0]), asU(f[1])); return [x](Val*, Val& r) { if (asU(r) != x) { differ("bitxor64"); r = Val::U64(x); } }; });
  wrap(e, "NativeArithmetic.u64add", 1, [](Val* f) -> std::function<void(Val*, Val&)> { uint64_t x = nat_add(asU(f[0]), asU(f[1])); return [x](Val*, Val& r) { if (asU(r) != x) { differ("u64add"); r = Val::U64(x); } }; });
  auto op = [&](const string& name, int o, bool two) { wrap(e, name, 1, [=](Val* f) -> std::function<void(Val*, Val&)> { u128 a = as128(f[0]), b = two ? as128(f[1]) : 0, c = 0; nat_128(o, &a, &b, &c); return [=](Val*, Val& r) { u128 w = as128(r); if (o == 5) w = (uint64_t)w; if (w != c) { differ(name); r = o == 5 ? Val::U64((uint64_t)c) : Val::Int((i128)c, I_U128); } }; }); };
  op(FX + "intrinsic_mm_xor_si128", 0, true); op(FX + "intrinsic_mm_clmulepi64_si128_0", 1, true); op(FX + "intrinsic_mm_clmulepi64_si128_16", 2, true); op(BT + "intrinsic_mm_cvtepu32_epi64", 3, false); op(BT + "intrinsic_mm_cvtsi64_si128", 4, false); op(BT + "intrinsic_mm_cvtsi128_si64", 5, false);
  wrap(e, BT + "intrinsic_mm_loadu_si128", 1, [](Val* f) -> std::function<void(Val*, Val&)> { uint64_t i = asU(f[1]), n = seqLen(f[0]); if (i + 1 >= n) return {}; uint64_t w2[2] = {asU(seqGet(f[0], i)), asU(seqGet(f[0], i + 1))}; vector<uint64_t> v(n); v[i] = w2[0]; v[i + 1] = w2[1]; u128 o; nat_loadu(v.data(), n, (uint32_t)i, &o); return [o](Val*, Val& r) { if (as128(r) != o) { differ("intrinsic_mm_loadu_si128"); r = Val::Int((i128)o, I_U128); } }; });
  wrap(e, "MapRemove_s.ComputeMapRemove1", 1, [](Val* f) -> std::function<void(Val*, Val&)> {
    if (f[0].t != V_MAP || f[1].t != V_INT) return {}; std::map<uint64_t, Val> m; for (auto& kv : ((MapObj*)f[0].o)->m) { if (kv.first.t != V_INT) return {}; m[asU(kv.first)] = kv.second; } if (m.size() > 500) return {};
    vector<uint64_t> kv, o; uint64_t i = 0, k = asU(f[1]); for (auto& x : m) { kv.push_back(x.first); kv.push_back(1000 + i++); } o.resize(kv.size() + 4); int ok = 1; uint64_t n = map_remove(kv.data(), m.size(), k, o.data(), &ok); std::map<uint64_t, uint64_t> got, want; for (uint64_t j = 0; j < n && 2 * j + 1 < o.size(); j++) got[o[2 * j]] = o[2 * j + 1]; for (size_t j = 0; j < kv.size(); j += 2) if (kv[j] != k) want[kv[j]] = kv[j + 1];
    if (got == want && ok && n == want.size()) return {};
    vector<Val> vs; for (auto& x : m) vs.push_back(x.second); uint8_t it = f[1].it;
    return [got, vs, it](Val* f, Val&) { differ("MapRemove_s.ComputeMapRemove1"); Val r = mkMap(); for (auto& x : got) if (x.second >= 1000 && x.second - 1000 < vs.size()) { Val key = Val::U64(x.first); key.it = (decltype(key.it))it; ((MapObj*)r.o)->m[key] = vs[x.second - 1000]; } f[2] = r; };
  });
  // linear sequences, over position tokens (long ones are sampled)
  const string LS = "LinearSequence_s."; auto toks = [](uint64_t n) { vector<uint64_t> t(n); for (uint64_t i = 0; i < n; i++) t[i] = 1000 + i; return t; };
  auto same = [](const Val& a, const Val& b) { return a.t == b.t && (a.t >= V_BIG ? a.o == b.o || valEq(a, b) : a.i == b.i); };
  auto lin = [&](const char* nm, int o, int outSlot, uint64_t every) {     // outSlot -1: result; else f[outSlot]
    string name = LS + nm; wrap(e, name, every, [=](Val* f) -> std::function<void(Val*, Val&)> {
      if (o == 3 || o == 8) { uint64_t n = asU(f[0]); if (n > 4096) return {}; vector<uint64_t> out(n + 1); uint64_t x = o == 3 ? 77 : 0, got = nat_lin(o, nullptr, 0, n, x, out.data(), n + 1, nullptr); return [=](Val*, Val& r) { bool ok = got == n && seqLen(r) == n; for (uint64_t i = 0; ok && i < n; i++) ok = out[i] == x; if (ok) return; differ(name); if (got != n && seqLen(r)) { vector<Val> q(std::min<uint64_t>(got, 65536), seqGet(r, 0)); r = mkSeqVals(std::move(q)); } }; }
      if (f[0].t != V_SEQ) return {}; uint64_t n = seqLen(f[0]); if (n > 512) return {}; vector<uint64_t> t = toks(n), out(n + 4096); uint64_t i = (o == 2 || o == 9 || o == 10) ? 0 : asU(f[1]); bool rs = o == 4 || o == 5; if (!rs && o != 2 && o != 9 && o != 10 && i >= n) return {}; if (rs && i > n + 4000) return {};
      vector<Val> before = elems(f[0]); Val nv = (o == 1 || o == 6) ? f[2] : Val(); uint64_t ex = 0, got = nat_lin(o, t.data(), n, i, 77, out.data(), out.size(), &ex);
      return [=](Val* f, Val& r) {
        if (o == 2 || o == 9) { if (asU(r) != ex) { differ(name); r = Val::U64(ex); } return; }
        if (o == 0 || o == 7) { if (ex < 1000 || ex - 1000 >= n || !same(before[ex - 1000], r)) { differ(name); if (ex >= 1000 && ex - 1000 < n) r = before[ex - 1000]; } return; }
        Val res = outSlot < 0 ? r : f[outSlot], old; string why; if (o == 6) { vector<Val> tp; for (uint32_t q = 0; q < ((DtObj*)r.o)->n; q++) tp.push_back(((DtObj*)r.o)->f()[q]); res = tp[0]; old = tp[1]; if (ex < 1000 || ex - 1000 >= n || !same(before[ex - 1000], tp[1])) { why = "wrong element swapped out"; if (ex >= 1000 && ex - 1000 < n) old = before[ex - 1000]; } }
        vector<Val> a = elems(res);
        // what the real extern leaves in each place (tokens stand for the elements)
        vector<Val> real; for (uint64_t q = 0; q < std::min<uint64_t>(got, out.size()); q++) { if (out[q] >= 1000 && out[q] - 1000 < n) real.push_back(before[out[q] - 1000]); else if (out[q] == 77 && (o == 1 || o == 6)) real.push_back(nv); else if (q < a.size()) real.push_back(a[q]); else if (n) real.push_back(before[0]); }
        if (a.size() != got) { if (why.empty()) why = "length " + N64(got) + " instead of " + N64(a.size()); }
        else for (uint64_t q = 0; q < got && why.empty(); q++) if (!same(real[q], a[q]) || (out[q] >= 1000 && out[q] - 1000 >= n) || (out[q] < 1000 && out[q] != 77 && !(rs && q >= n))) why = "element " + N64(q);
        if (rs && why.empty()) for (uint64_t q = 0; q < std::min(n, got); q++) if (out[q] != 1000 + q) { why = "element " + N64(q) + " was not kept"; break; }
        if (why.empty()) return;
        differ(name, why); Val put = mkSeqVals(std::move(real)); if (o == 6) { Val t = Val(r); ((DtObj*)t.o)->f()[0] = put; ((DtObj*)t.o)->f()[1] = old; } else if (outSlot < 0) r = put; else f[outSlot] = put;
      };
    });
  };
  lin("seq_get", 0, -1, 97); lin("seq_set", 1, -1, 31); lin("seq_length", 2, -1, 97); lin("seq_alloc", 3, -1, 3); lin("TrustedRuntimeSeqResize", 4, 2, 1); lin("TrustedRuntimeLSeqResize", 5, 2, 1); lin("lseq_swap_raw_fun", 6, -1, 41); lin("lseq_share_raw", 7, -1, 97); lin("lseq_alloc_raw", 8, -1, 3); lin("lseq_length_raw", 9, -1, 97); lin("seq_unleash", 10, -1, 7);
}
