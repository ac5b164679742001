// The real C++ bodies of the Dafny externs (/repo/framework headers), callable on raw memory.
#include "Framework.h"
#include "LinearExtern.h"
#include "bridge.h"
template <class T> static DafnySequence<T> view(const T* p, uint64_t n) { DafnySequence<T> s; s.start = (T*)p; s.len = n; return s; }
template <class T> static DafnyArray<T> arr(const T* p, uint64_t n) { DafnyArray<T> a(n); std::copy(p, p + n, a.begin()); return a; }
static void out(uint8_t* o, const DafnyArray<uint8>& a) { std::copy(a.begin(), a.end(), o); }
typedef unsigned __int128 u128;
static __m128i v(u128 x) { __m128i r; memcpy(&r, &x, 16); return r; }
static u128 w(__m128i x) { u128 r; memcpy(&r, &x, 16); return r; }
extern "C" {
  int nat_cmp(BrBytes a, BrBytes b) { return NativeArrays_Compile::ByteSeqCmpByteSeq(view(a.p, a.n), view(b.p, b.n)); }
  void nat_fill(uint64_t n, uint8_t x, uint8_t* o) { out(o, NativeArrays_Compile::newArrayFill<uint8>(n, x)); }
  uint64_t nat_clone(BrBytes a, uint8_t* o) { auto s = arr(a.p, a.n); auto c = NativeArrays_Compile::newArrayClone<uint8>(s); uint64_t n = c.size(); if (n == a.n) { out(o, c); if (n) { c.at(0) ^= 1; if (s.at(0) != a.p[0]) return ~0ull; } } return n; }
  void nat_copy_seq(BrBytes s, uint64_t si, uint8_t* d, uint64_t dn, uint64_t di, uint64_t n) { auto a = arr(d, dn); NativeArrays_Compile::CopySeqIntoArray<uint8>(view(s.p, s.n), si, a, di, n); out(d, a); }
  void nat_copy_arr(BrBytes s, uint64_t si, uint8_t* d, uint64_t dn, uint64_t di, uint64_t n) { auto a = arr(d, dn); NativeArrays_Compile::CopyArrayIntoDifferentArray<uint8>(arr(s.p, s.n), si, a, di, n); out(d, a); }
  uint32_t nat_u32(BrBytes s, uint64_t i) { return NativePackedInts_Compile::Unpack__LittleEndian__Uint32(view(s.p, s.n), i); }
  uint64_t nat_u64(BrBytes s, uint64_t i) { return NativePackedInts_Compile::Unpack__LittleEndian__Uint64(view(s.p, s.n), i); }
  uint64_t nat_u64a(BrBytes s, uint64_t i) { return NativePackedInts_Compile::Unpack__LittleEndian__Uint64__From__Array(arr(s.p, s.n), i); }
  void nat_p32(uint32_t x, uint8_t* d, uint64_t dn, uint64_t i) { auto a = arr(d, dn); NativePackedInts_Compile::Pack__LittleEndian__Uint32__into__Array(x, a, i); out(d, a); }
  void nat_p64(uint64_t x, uint8_t* d, uint64_t dn, uint64_t i) { auto a = arr(d, dn); NativePackedInts_Compile::Pack__LittleEndian__Uint64__into__Array(x, a, i); out(d, a); }
  uint64_t nat_u32s(BrBytes s, uint64_t i, uint64_t n, uint32_t* o) { auto r = NativePackedInts_Compile::Unpack__LittleEndian__Uint32__Seq(view(s.p, s.n), i, n); if (r.size() == n) std::copy(r.ptr(), r.ptr() + n, o); return r.size(); }
  uint64_t nat_u64s(BrBytes s, uint64_t i, uint64_t n, uint64_t* o) { auto r = NativePackedInts_Compile::Unpack__LittleEndian__Uint64__Seq(view(s.p, s.n), i, n); if (r.size() == n) std::copy(r.ptr(), r.ptr() + n, o); return r.size(); }
  void nat_p32s(const uint32_t* s, uint64_t n, uint8_t* d, uint64_t dn, uint64_t i) { auto a = arr(d, dn); NativePackedInts_Compile::Pack__LittleEndian__Uint32__Seq__into__Array(view(s, n), a, i); out(d, a); }
  void nat_p64s(const uint64_t* s, uint64_t n, uint8_t* d, uint64_t dn, uint64_t i) { auto a = arr(d, dn); NativePackedInts_Compile::Pack__LittleEndian__Uint64__Seq__into__Array(view((const uint64*)s, n), a, i); out(d, a); }
  uint32_t nat_crc8(uint32_t c, uint8_t x) { return F2__X__s_Compile::intrinsic_mm_crc32_u8(c, x); }
  uint64_t nat_crc64(uint64_t c, uint64_t x) { return F2__X__s_Compile::intrinsic_mm_crc32_u64(c, x); }
  uint32_t nat_x32(uint32_t a, uint32_t b) { return F2__X__s_Compile::bitxor32(a, b); }
  uint64_t nat_x64(uint64_t a, uint64_t b) { return F2__X__s_Compile::bitxor64(a, b); }
  uint64_t nat_add(uint64_t a, uint64_t b) { return NativeArithmetic_Compile::u64add(a, b); }
  void nat_128(int op, const u128* a, const u128* b, u128* o) {
    switch (op) { case 0: *o = w(F2__X__s_Compile::intrinsic_mm_xor_si128(v(*a), v(*b))); break; case 1: *o = w(F2__X__s_Compile::intrinsic_mm_clmulepi64_si128_0(v(*a), v(*b))); break; case 2: *o = w(F2__X__s_Compile::intrinsic_mm_clmulepi64_si128_16(v(*a), v(*b))); break;
      case 3: *o = w(Bits__s_Compile::intrinsic_mm_cvtepu32_epi64(v(*a))); break; case 4: *o = w(Bits__s_Compile::intrinsic_mm_cvtsi64_si128((uint64)*a)); break; case 5: *o = Bits__s_Compile::intrinsic_mm_cvtsi128_si64(v(*a)); break; }
  }
  void nat_loadu(const uint64_t* s, uint64_t n, uint32_t i, u128* o) { *o = w(Bits__s_Compile::intrinsic_mm_loadu_si128(view((const uint64*)s, n), i)); }
  // linear sequences over position tokens: op 0 get 1 set 2 length 3 alloc 4 resize 5 lresize 6 lswap 7 lshare 8 lalloc 9 llength 10 unleash
  uint64_t nat_lin(int op, const uint64_t* s, uint64_t n, uint64_t i, uint64_t x, uint64_t* o, uint64_t cap, uint64_t* extra) {
    using namespace LinearExtern; using namespace LinearMaybe;
    auto put = [&](const std::vector<uint64>& q) { for (uint64_t k = 0; k < q.size() && k < cap; k++) o[k] = q[k]; return (uint64_t)q.size(); };
    auto putl = [&](const std::vector<maybe<uint64>>& q) { for (uint64_t k = 0; k < q.size() && k < cap; k++) o[k] = q[k].a; return (uint64_t)q.size(); };
    uint64_t r = 0;
    if (op <= 4 || op == 10) {
      if (op == 3) { linear_seq<uint64> l = seq_alloc<uint64>(i, x); r = put(*l); seq_free(l); return r; }
      linear_seq<uint64> l = seq_empty<uint64>(); l->assign((const uint64*)s, (const uint64*)s + n);
      switch (op) { case 0: *extra = seq_get<uint64>(l, i); r = put(*l); break; case 1: l = seq_set<uint64>(l, i, x); r = put(*l); break; case 2: *extra = seq_length<uint64>(l); r = put(*l); break; case 4: l = TrustedRuntimeSeqResize<uint64>(l, i); r = put(*l); break;
        case 10: { DafnySequence<uint64> d = seq_unleash<uint64>(l); for (uint64_t k = 0; k < d.size() && k < cap; k++) o[k] = d.select(k); return d.size(); } }
      seq_free(l); return r;
    }
    if (op == 8) { lseq<uint64> l = lseq_alloc_raw<uint64>(i); r = putl(*l); lseq_free_raw<uint64>(l); return r; }
    lseq<uint64> l = lseq_alloc_raw<uint64>(n); for (uint64_t k = 0; k < n; k++) (*l)[k] = give<uint64>(s[k]);
    switch (op) { case 5: l = TrustedRuntimeLSeqResize<uint64>(l, i); r = putl(*l); break; case 6: { auto t = lseq_swap_raw_fun<uint64>(l, i, give<uint64>(x)); l = t.template get<0>(); *extra = unwrap(t.template get<1>()); r = putl(*l); break; } case 7: *extra = peek(lseq_share_raw<uint64>(l, i)); r = putl(*l); break; case 9: *extra = lseq_length_raw<uint64>(l); r = putl(*l); break; }
    lseq_free_raw<uint64>(l); return r;
  }
}
// Long-lived handles, for histories of calls.
static std::vector<uint64_t> g_dead;
static Tuple0 die1(uint64 a) { g_dead.push_back(a); g_dead.push_back(~0ull); return Tuple0(); }
static Tuple0 die2(uint64 a, uint64 e) { g_dead.push_back(a); g_dead.push_back(e); return Tuple0(); }
struct GBox { int kind; std::shared_ptr<LinearBox_s::SwapAffine<uint64>> a; std::shared_ptr<LinearBox_s::SwapLinear<uint64>> l; };
template <class T> static std::shared_ptr<std::vector<T>> canary(DafnyArray<T>& a, const T* p, uint64_t n) { a.vec->reserve(n + 64 / sizeof(T)); memset((void*)(a.vec->data() + n), 0xA5, 64); return a.vec; }
static bool canaryOk(const void* p) { for (int i = 0; i < 64; i++) if (((const uint8_t*)p)[i] != 0xA5) return false; return true; }
extern "C" {
  uint64_t box_dead(uint64_t* o, uint64_t cap) { uint64_t n = g_dead.size(); for (uint64_t i = 0; i < n && i < cap; i++) o[i] = g_dead[i]; g_dead.clear(); return n; }
  void* box_new(int kind, uint64_t x, uint64_t env) { using namespace LinearBox_s; GBox* b = new GBox; b->kind = kind; if (kind == 0) b->a = std::make_shared<SwapAffine<uint64>>(x); else if (kind == 1) b->l = std::make_shared<SwapLinear<uint64>>(x, ToDestructor<uint64>(die1)); else b->l = std::make_shared<SwapLinear<uint64>>(x, ToDestructorEnv<uint64, uint64>(die2, env)); return b; }
  uint64_t box_swap(void* h, uint64_t x) { GBox* b = (GBox*)h; return b->kind ? b->l->Swap(x) : b->a->Swap(x); }
  uint64_t box_borrow(void* h) { GBox* b = (GBox*)h; return b->kind ? b->l->Borrow() : b->a->Borrow(); }
  void box_free(void* h) { delete (GBox*)h; }
  void box_call(int env, uint64_t x, uint64_t e) { using namespace LinearBox_s; if (env) CallDestructor<uint64>(ToDestructorEnv<uint64, uint64>(die2, e), x); else CallDestructor<uint64>(ToDestructor<uint64>(die1), x); }
  void* ls_new(int empty, uint64_t n, uint64_t x) { return empty ? LinearExtern::seq_empty<uint64>() : LinearExtern::seq_alloc<uint64>(n, x); }
  uint64_t ls_len(void* h) { return LinearExtern::seq_length<uint64>((LinearExtern::linear_seq<uint64>)h); }
  uint64_t ls_get(void* h, uint64_t i) { return LinearExtern::seq_get<uint64>((LinearExtern::linear_seq<uint64>)h, i); }
  void* ls_set(void* h, uint64_t i, uint64_t x) { return LinearExtern::seq_set<uint64>((LinearExtern::linear_seq<uint64>)h, i, x); }
  void* ls_resize(void* h, uint64_t n) { return LinearExtern::TrustedRuntimeSeqResize<uint64>((LinearExtern::linear_seq<uint64>)h, n); }
  uint64_t ls_unleash(void* h, uint64_t* o, uint64_t cap) { auto d = LinearExtern::seq_unleash<uint64>((LinearExtern::linear_seq<uint64>)h); for (uint64_t k = 0; k < d.size() && k < cap; k++) o[k] = d.select(k); return d.size(); }
  void ls_free(void* h) { LinearExtern::seq_free<uint64>((LinearExtern::linear_seq<uint64>)h); }
  void* ll_new(uint64_t n) { return LinearExtern::lseq_alloc_raw<uint64>(n); }
  uint64_t ll_len(void* h) { return LinearExtern::lseq_length_raw<uint64>((LinearExtern::lseq<uint64>)h); }
  uint64_t ll_share(void* h, uint64_t i) { return LinearMaybe::peek<uint64>(LinearExtern::lseq_share_raw<uint64>((LinearExtern::lseq<uint64>)h, i)); }
  void* ll_swap(void* h, uint64_t i, int has, uint64_t x, uint64_t* old) { auto t = LinearExtern::lseq_swap_raw_fun<uint64>((LinearExtern::lseq<uint64>)h, i, has ? LinearMaybe::give<uint64>(x) : LinearMaybe::empty<uint64>()); auto m = t.template get<1>(); *old = LinearMaybe::unwrap<uint64>(m); LinearMaybe::discard<uint64>(LinearMaybe::empty<uint64>()); return t.template get<0>(); }
  void* ll_resize(void* h, uint64_t n) { return LinearExtern::TrustedRuntimeLSeqResize<uint64>((LinearExtern::lseq<uint64>)h, n); }
  void ll_free(void* h) { LinearExtern::lseq_free_raw<uint64>((LinearExtern::lseq<uint64>)h); }
  // m (pairs) without k: the pairs of the answer; *intact: the argument is unchanged
  uint64_t map_remove(const uint64_t* kv, uint64_t n, uint64_t k, uint64_t* o, int* intact) { DafnyMap<uint64, uint64> m; for (uint64_t i = 0; i < n; i++) m.map[kv[2 * i]] = kv[2 * i + 1]; auto before = m.map; auto r = MapRemove__s_Compile::ComputeMapRemove1<uint64, uint64>(m, k); *intact = m.map == before; uint64_t c = 0; std::map<uint64, uint64> s(r.map.begin(), r.map.end()); for (auto& p : s) { if (c > n) break; o[2 * c] = p.first; o[2 * c + 1] = p.second; c++; } return s.size(); }
  // writers over an array with a guarded tail: op 0 p32 1 p64 2 p32s 3 p64s 4 copy seq 5 copy array; returns 0 when the tail was touched
  int nat_write(int op, const void* src, uint64_t sn, uint64_t si, uint8_t* d, uint64_t dn, uint64_t di, uint64_t n) {
    DafnyArray<uint8> a(dn); std::copy(d, d + dn, a.begin()); auto keep = canary<uint8>(a, d, dn); uint64_t x; memcpy(&x, src, op == 0 ? 4 : op == 1 ? 8 : 0);
    switch (op) { case 0: NativePackedInts_Compile::Pack__LittleEndian__Uint32__into__Array((uint32)x, a, di); break; case 1: NativePackedInts_Compile::Pack__LittleEndian__Uint64__into__Array(x, a, di); break; case 2: NativePackedInts_Compile::Pack__LittleEndian__Uint32__Seq__into__Array(view((const uint32*)src, sn), a, di); break; case 3: NativePackedInts_Compile::Pack__LittleEndian__Uint64__Seq__into__Array(view((const uint64*)src, sn), a, di); break;
      case 4: NativeArrays_Compile::CopySeqIntoArray<uint8>(view((const uint8*)src, sn), si, a, di, n); break; case 5: { DafnyArray<uint8> b(sn); std::copy((const uint8*)src, (const uint8*)src + sn, b.begin()); NativeArrays_Compile::CopyArrayIntoDifferentArray<uint8>(b, si, a, di, n); if (!std::equal(b.begin(), b.end(), (const uint8*)src)) return 0; break; } }
    if (a.size() != dn) return 0; std::copy(a.begin(), a.end(), d); return canaryOk(keep->data() + dn);
  }
  // the same for arrays of 64-bit numbers: op 0 fill 1 clone 2 copy seq 3 copy array
  int nat_write64(int op, const uint64_t* s, uint64_t sn, uint64_t si, uint64_t* d, uint64_t dn, uint64_t di, uint64_t n) {
    if (op == 0) { auto a = NativeArrays_Compile::newArrayFill<uint64>(dn, s[0]); if (a.size() != dn) return 0; std::copy(a.begin(), a.end(), d); return 1; }
    DafnyArray<uint64> b(sn); std::copy(s, s + sn, b.begin());
    if (op == 1) { auto a = NativeArrays_Compile::newArrayClone<uint64>(b); if (a.size() != sn || sn != dn) return 0; if (sn) { uint64 o = b.at(0); a.at(0) ^= 1; if (b.at(0) != o) return 0; a.at(0) ^= 1; } std::copy(a.begin(), a.end(), d); return 1; }
    DafnyArray<uint64> a(dn); std::copy(d, d + dn, a.begin()); auto keep = canary<uint64>(a, (const uint64*)d, dn);
    if (op == 2) NativeArrays_Compile::CopySeqIntoArray<uint64>(view((const uint64*)s, sn), si, a, di, n); else NativeArrays_Compile::CopyArrayIntoDifferentArray<uint64>(b, si, a, di, n);
    if (a.size() != dn || !std::equal(b.begin(), b.end(), s)) return 0; std::copy(a.begin(), a.end(), d); return canaryOk(keep->data() + dn);
  }
}
