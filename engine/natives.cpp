// Stand-ins for the bodies that the Dafny sources declare {:extern} (C++ headers in /repo/framework in production).
#include "interp.h"
#include <cstdio>
namespace dfy {
using std::string; using std::vector;
typedef unsigned __int128 u128;

static uint32_t crcTab[256];
static void initCrc() {
  for (uint32_t i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = (c & 1) ? (c >> 1) ^ 0x82F63B78u : c >> 1; crcTab[i] = c; }
}
uint32_t crcRaw(uint32_t acc, uint64_t x, int nbytes) { for (int i = 0; i < nbytes; i++) { acc = (acc >> 8) ^ crcTab[(acc ^ (uint8_t)x) & 0xff]; x >>= 8; } return acc; }
uint32_t crc32c(const uint8_t* p, size_t n) { if (!crcTab[1]) initCrc(); uint32_t a = 0xffffffffu; for (size_t i = 0; i < n; i++) a = (a >> 8) ^ crcTab[(a ^ p[i]) & 0xff]; return ~a; }
static u128 as128(const Val& v) { return (u128)asI(v); }
static Val mk128(u128 x) { return Val::Int((i128)x, I_U128); }
static u128 clmul(uint64_t a, uint64_t b) { u128 r = 0; for (int i = 0; i < 64; i++) if ((a >> i) & 1) r ^= ((u128)b) << i; return r; }

static Val zeroLike(const Val& v) { if (v.t == V_INT) return Val::raw(v.it, 0); if (v.t == V_BOOL) return Val::B(false); return Val(); }
// owned, unshared SeqObj for in-place work
static SeqObj* own(Val& s) {
  SeqObj* q = (SeqObj*)s.o;
  if (q->rc == 1 && q->buf->rc == 1) return q;
  Buf* b = newBuf(q->buf->bytes, q->len);
  if (b->bytes) memcpy(b->b, q->buf->b + q->off, q->len); else for (uint64_t i = 0; i < q->len; i++) b->v[i] = q->buf->v[q->off + i];
  s = mkSeqBuf(b, 0, q->len);
  return (SeqObj*)s.o;
}
static Val resize(Val s, uint64_t n, bool lseq) {
  if (s.t != V_SEQ) throw DafnyError("resize of a non-sequence");
  SeqObj* q = own(s);
  if (n <= q->len) { if (!q->buf->bytes) for (uint64_t i = n; i < q->len; i++) q->buf->v[q->off + i] = Val(); q->len = n; return s; }
  Val fill = !lseq && q->len ? zeroLike(seqGet(s, 0)) : Val();
  bool bytes = q->buf->bytes && q->len && !lseq;
  Buf* b = newBuf(bytes, n);
  for (uint64_t i = 0; i < n; i++) { if (bytes) b->b[i] = i < q->len ? q->buf->b[q->off + i] : 0; else b->v[i] = i < q->len ? seqGet(s, i) : fill; }
  return mkSeqBuf(b, 0, n);
}
static const uint8_t* bytesAt(const Val& s, uint64_t off, uint64_t n, vector<uint8_t>& tmp) {
  uint64_t len = s.t == V_ARR ? ((ArrObj*)s.o)->buf->n : s.t == V_SEQ ? seqLen(s) : throw DafnyError("packed integer access on a non-sequence");
  if (off > len || n > len - off) throw DafnyError("packed integer access at " + std::to_string(off) + "+" + std::to_string(n) + " outside a buffer of " + std::to_string(len));
  if (s.t == V_SEQ && ((SeqObj*)s.o)->buf->bytes) return ((SeqObj*)s.o)->buf->b + ((SeqObj*)s.o)->off + off;
  if (s.t == V_ARR && ((ArrObj*)s.o)->buf->bytes) return ((ArrObj*)s.o)->buf->b + off;
  tmp.resize(n); for (uint64_t i = 0; i < n; i++) tmp[i] = (uint8_t)asU(seqGet(s, off + i)); return tmp.data();
}
static uint64_t unpack(const Val& s, uint64_t off, int n) { vector<uint8_t> t; const uint8_t* p = bytesAt(s, off, n, t); uint64_t r = 0; for (int i = n - 1; i >= 0; i--) r = r << 8 | p[i]; return r; }
static void pack(Val& ar, uint64_t off, uint64_t x, int n) {
  if (ar.t != V_ARR) throw DafnyError("packing into a non-array");
  uint64_t len = ((ArrObj*)ar.o)->buf->n;
  if (off > len || (uint64_t)n > len - off) throw DafnyError("packed integer write at " + std::to_string(off) + "+" + std::to_string(n) + " outside an array of " + std::to_string(len));
  for (int i = 0; i < n; i++) seqSetInPlace(ar, off + i, Val::U8((uint8_t)(x >> (8 * i))));
}
static Val unpackSeq(const Val& s, uint64_t off, uint64_t n, int w) {
  vector<uint8_t> t; const uint8_t* p = bytesAt(s, off, n * w, t);
  Buf* b = newBuf(false, n);
  for (uint64_t k = 0; k < n; k++) { uint64_t r = 0; for (int i = w - 1; i >= 0; i--) r = r << 8 | p[k * w + i]; b->v[k] = w == 4 ? Val::U32((uint32_t)r) : Val::U64(r); }
  return mkSeqBuf(b, 0, n);
}

void registerNatives(Engine& e) {
  initCrc();
  auto N = [&](const char* n, NatFn f) { e.natives[n] = f; };
  auto unit = [](Val* f, Val& r) { r = mkTuple({}); };
  auto nop = [](Val* f, Val& r) {};
  // LinearMaybe: a maybe<A> is its value, NIL when empty
  auto ident = [](Val* f, Val& r) { r = std::move(f[0]); };
  N("LinearMaybe.peek", [](Val* f, Val& r) { if (f[0].t == V_NIL) throw DafnyError("peek of an empty linear maybe"); r = f[0]; });
  N("LinearMaybe.unwrap", [](Val* f, Val& r) { if (f[0].t == V_NIL) throw DafnyError("unwrap of an empty linear maybe"); r = std::move(f[0]); });
  N("LinearMaybe.give", ident);
  N("LinearMaybe.empty", [](Val* f, Val& r) { r = Val(); });
  N("LinearMaybe.discard", unit);
  const char* L = "LinearSequence_s.";
  auto NS = [&](const char* n, NatFn f) { e.natives[string(L) + n] = f; };
  NS("seq_get", [](Val* f, Val& r) { r = seqGet(f[0], asU(f[1])); });
  NS("seq_set", [](Val* f, Val& r) { if (f[0].t != V_SEQ) throw DafnyError("seq_set on a non-sequence"); Val s = std::move(f[0]); own(s); seqSetInPlace(s, asU(f[1]), f[2]); r = std::move(s); });
  NS("seq_length", [](Val* f, Val& r) { if (f[0].t != V_SEQ) throw DafnyError("seq_length of a non-sequence"); r = Val::U64(seqLen(f[0])); });
  NS("seq_empty", [](Val* f, Val& r) { r = mkSeqVals({}); });
  NS("seq_alloc", [](Val* f, Val& r) {
    uint64_t n = asU(f[0]); bool bytes = f[1].t == V_INT && f[1].it == I_U8; Buf* b = newBuf(bytes, n);
    if (bytes) memset(b->b, (int)f[1].u, n); else for (uint64_t i = 0; i < n; i++) b->v[i] = f[1];
    r = mkSeqBuf(b, 0, n); });
  NS("seq_free", unit);
  NS("seq_unleash", ident);
  NS("seq_length_bound", nop); NS("shared_seq_length_bound", nop); NS("lseq_length_bound", nop);
  NS("lseq_length_raw", [](Val* f, Val& r) { if (f[0].t != V_SEQ) throw DafnyError("lseq_length of a non-sequence"); r = Val::U64(seqLen(f[0])); });
  NS("lseq_alloc_raw", [](Val* f, Val& r) { uint64_t n = asU(f[0]); r = mkSeqBuf(newBuf(false, n), 0, n); });
  NS("lseq_free_raw", unit);
  NS("lseq_swap_raw_fun", [](Val* f, Val& r) {
    Val s = std::move(f[0]); if (s.t != V_SEQ) throw DafnyError("lseq_swap on a non-sequence"); SeqObj* q = own(s); uint64_t i = asU(f[1]);
    if (i >= q->len) throw DafnyError("lseq index " + std::to_string(i) + " out of range (length " + std::to_string(q->len) + ")");
    if (q->buf->bytes) { Buf* b = newBuf(false, q->len); for (uint64_t k = 0; k < q->len; k++) b->v[k] = seqGet(s, k); s = mkSeqBuf(b, 0, b->n); q = (SeqObj*)s.o; }
    Val old = std::move(q->buf->v[q->off + i]); q->buf->v[q->off + i] = std::move(f[2]);
    vector<Val> t; t.push_back(std::move(s)); t.push_back(std::move(old)); r = mkTuple(t); });
  NS("lseq_share_raw", [](Val* f, Val& r) { r = seqGet(f[0], asU(f[1])); });
  NS("TrustedRuntimeSeqResize", [](Val* f, Val& r) { f[2] = resize(std::move(f[0]), asU(f[1]), false); });
  NS("TrustedRuntimeLSeqResize", [](Val* f, Val& r) { f[2] = resize(std::move(f[0]), asU(f[1]), true); });
  // boxes
  for (const char* c : {"LinearBox_s.SwapAffine.", "LinearBox_s.SwapLinear."}) {
    e.natives[string(c) + "_ctor"] = [](Val* f, Val& r) { ClsObj* o = (ClsObj*)f[0].o; o->f.resize(1); o->f[0] = f[1]; };
    e.natives[string(c) + "Swap"] = [](Val* f, Val& r) { ClsObj* o = (ClsObj*)f[0].o; Val old = std::move(o->f.at(0)); o->f[0] = std::move(f[1]); f[2] = std::move(old); };
    e.natives[string(c) + "Borrow"] = [](Val* f, Val& r) { r = ((ClsObj*)f[0].o)->f.at(0); };
  }
  N("LinearBox_s.ToDestructor", ident);
  N("LinearBox_s.ToDestructorEnv", ident);
  N("LinearBox_s.CallDestructor", unit);
  N("NativeArithmetic.u64add", [](Val* f, Val& r) { r = Val::U64(asU(f[0]) + asU(f[1])); });
  // arrays
  N("NativeArrays.ByteSeqCmpByteSeq", [](Val* f, Val& r) {
    if (f[0].t != V_SEQ || f[1].t != V_SEQ) throw DafnyError("ByteSeqCmpByteSeq of a non-sequence");
    uint64_t a = seqLen(f[0]), b = seqLen(f[1]), n = std::min(a, b); vector<uint8_t> t1, t2;
    int c = n ? memcmp(bytesAt(f[0], 0, n, t1), bytesAt(f[1], 0, n, t2), n) : 0; if (!c) c = a == b ? 0 : a > b ? 1 : -1;
    f[2] = Val::Int(c, I_I32); });
  N("NativeArrays.newArrayFill", [](Val* f, Val& r) { uint64_t n = asU(f[0]); bool by = f[1].t == V_INT && f[1].it == I_U8; Buf* b = newBuf(by, n); if (by) memset(b->b, (int)f[1].u, n); else for (uint64_t i = 0; i < n; i++) b->v[i] = f[1]; f[2] = mkArr(b); });
  N("NativeArrays.newArrayClone", [](Val* f, Val& r) { Buf* o = ((ArrObj*)f[0].o)->buf; Buf* b = newBuf(o->bytes, o->n); if (o->bytes) memcpy(b->b, o->b, o->n); else for (uint64_t i = 0; i < o->n; i++) b->v[i] = o->v[i]; f[1] = mkArr(b); });
  auto copy = [](Val* f, Val& r) {
    const Val& s = f[0]; Val& d = f[2]; uint64_t si = asU(f[1]), di = asU(f[3]), n = asU(f[4]);
    uint64_t sl = s.t == V_ARR ? ((ArrObj*)s.o)->buf->n : s.t == V_SEQ ? seqLen(s) : throw DafnyError("copy from a non-sequence");
    if (d.t != V_ARR) throw DafnyError("copy into a non-array"); Buf* db = ((ArrObj*)d.o)->buf;
    if (si > sl || n > sl - si) throw DafnyError("copy source range " + std::to_string(si) + "+" + std::to_string(n) + " outside " + std::to_string(sl));
    if (di > db->n || n > db->n - di) throw DafnyError("copy destination range " + std::to_string(di) + "+" + std::to_string(n) + " outside " + std::to_string(db->n));
    Buf* sb = s.t == V_ARR ? ((ArrObj*)s.o)->buf : ((SeqObj*)s.o)->buf; uint64_t so = si + (s.t == V_SEQ ? ((SeqObj*)s.o)->off : 0);
    if (sb->bytes && db->bytes) { memmove(db->b + di, sb->b + so, n); return; }
    for (uint64_t i = 0; i < n; i++) seqSetInPlace(d, di + i, seqGet(s, si + i));
  };
  N("NativeArrays.CopySeqIntoArray", copy);
  N("NativeArrays.CopyArrayIntoDifferentArray", copy);
  const char* PI = "NativePackedInts.";
  auto NP = [&](const char* n, NatFn f) { e.natives[string(PI) + n] = f; };
  NP("Unpack_LittleEndian_Uint32", [](Val* f, Val& r) { f[2] = Val::U32((uint32_t)unpack(f[0], asU(f[1]), 4)); });
  NP("Unpack_LittleEndian_Uint64", [](Val* f, Val& r) { f[2] = Val::U64(unpack(f[0], asU(f[1]), 8)); });
  NP("Unpack_LittleEndian_Uint64_From_Array", [](Val* f, Val& r) { f[2] = Val::U64(unpack(f[0], asU(f[1]), 8)); });
  NP("Pack_LittleEndian_Uint32_into_Array", [](Val* f, Val& r) { pack(f[1], asU(f[2]), asU(f[0]), 4); });
  NP("Pack_LittleEndian_Uint64_into_Array", [](Val* f, Val& r) { pack(f[1], asU(f[2]), asU(f[0]), 8); });
  NP("Unpack_LittleEndian_Uint32_Seq", [](Val* f, Val& r) { f[3] = unpackSeq(f[0], asU(f[1]), asU(f[2]), 4); });
  NP("Unpack_LittleEndian_Uint64_Seq", [](Val* f, Val& r) { f[3] = unpackSeq(f[0], asU(f[1]), asU(f[2]), 8); });
  NP("Pack_LittleEndian_Uint32_Seq_into_Array", [](Val* f, Val& r) { uint64_t o = asU(f[2]); for (auto& x : elems(f[0])) { pack(f[1], o, asU(x), 4); o += 4; } });
  NP("Pack_LittleEndian_Uint64_Seq_into_Array", [](Val* f, Val& r) { uint64_t o = asU(f[2]); for (auto& x : elems(f[0])) { pack(f[1], o, asU(x), 8); o += 8; } });
  // CPU intrinsics
  const char* FX = "F2_X_s.";
  auto NF = [&](const char* n, NatFn f) { e.natives[string(FX) + n] = f; };
  NF("intrinsic_mm_crc32_u8", [](Val* f, Val& r) { r = Val::U32(crcRaw((uint32_t)asU(f[0]), asU(f[1]), 1)); });
  NF("intrinsic_mm_crc32_u16", [](Val* f, Val& r) { r = Val::U32(crcRaw((uint32_t)asU(f[0]), asU(f[1]), 2)); });
  NF("intrinsic_mm_crc32_u32", [](Val* f, Val& r) { r = Val::U32(crcRaw((uint32_t)asU(f[0]), asU(f[1]), 4)); });
  NF("intrinsic_mm_crc32_u64", [](Val* f, Val& r) { r = Val::U64(crcRaw((uint32_t)asU(f[0]), asU(f[1]), 8)); });
  NF("intrinsic_mm_clmulepi64_si128_0", [](Val* f, Val& r) { r = mk128(clmul((uint64_t)as128(f[0]), (uint64_t)as128(f[1]))); });
  NF("intrinsic_mm_clmulepi64_si128_16", [](Val* f, Val& r) { r = mk128(clmul((uint64_t)as128(f[0]), (uint64_t)(as128(f[1]) >> 64))); });
  NF("intrinsic_mm_xor_si128", [](Val* f, Val& r) { r = mk128(as128(f[0]) ^ as128(f[1])); });
  NF("bitxor32", [](Val* f, Val& r) { r = Val::U32((uint32_t)(asU(f[0]) ^ asU(f[1]))); });
  NF("bitxor64", [](Val* f, Val& r) { r = Val::U64(asU(f[0]) ^ asU(f[1])); });
  N("Bits_s.intrinsic_mm_cvtepu32_epi64", [](Val* f, Val& r) { u128 a = as128(f[0]); r = mk128((u128)(uint32_t)a | ((u128)(uint32_t)(a >> 32)) << 64); });
  N("Bits_s.intrinsic_mm_loadu_si128", [](Val* f, Val& r) { uint64_t i = asU(f[1]); r = mk128((u128)asU(seqGet(f[0], i)) | (u128)asU(seqGet(f[0], i + 1)) << 64); });
  N("Bits_s.intrinsic_mm_cvtsi64_si128", [](Val* f, Val& r) { r = mk128(asU(f[0])); });
  N("Bits_s.intrinsic_mm_cvtsi128_si64", [](Val* f, Val& r) { r = Val::U64((uint64_t)as128(f[0])); });
  N("MapRemove_s.ComputeMapRemove1", [](Val* f, Val& r) { Val m = mkMap(); for (auto& kv : ((MapObj*)f[0].o)->m) if (!valEq(kv.first, f[1])) ((MapObj*)m.o)->m[kv.first] = kv.second; f[2] = m; });
  N("NativeBenchmarking.start", nop); N("NativeBenchmarking.end", nop);
  N("AllocationReport.start", nop); N("AllocationReport.sampleNode", nop); N("AllocationReport.stop", nop);
  N("MallocAccounting.set_amass_mode", nop);
}
}
