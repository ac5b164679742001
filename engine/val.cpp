#include "val.h"
namespace dfy {
using std::string; using std::vector;

static const char* inRange(IT k) { return ""; }
Val Val::Int(i128 x, IT k) {
  Val v; v.it = k;
  if (k == I_U64) { v.t = V_INT; v.u = (uint64_t)x; return v; }
  if (x >= INT64_MIN && x <= INT64_MAX) { v.t = V_INT; v.i = (int64_t)x; return v; }
  BigObj* b = new BigObj; b->rc = 1; b->t = V_BIG; b->v = x; v.t = V_BIG; v.o = b; return v;
}
void bufUnref(Buf* b) {
  if (--b->rc) return;
  if (b->bytes) free(b->b); else { for (uint64_t i = 0; i < b->n; i++) b->v[i].~Val(); free(b->v); }
  delete b;
}
Buf* newBuf(bool bytes, uint64_t n) {
  Buf* b = new Buf; b->rc = 1; b->bytes = bytes; b->n = n; b->cap = n;
  if (n > (1ull << 34)) throw DafnyError("allocation of an absurd size");
  if (bytes) { b->b = (uint8_t*)calloc(n ? n : 1, 1); } else { b->v = (Val*)calloc(n ? n : 1, sizeof(Val)); }
  return b;
}
// datatype objects: size-class free lists
static void* fl[20];
static DtObj* allocDt(uint32_t n) {
  DtObj* d;
  if (n < 20) { if (fl[n]) { d = (DtObj*)fl[n]; fl[n] = *(void**)d; } else d = (DtObj*)malloc(sizeof(DtObj) + (n ? n : 1) * sizeof(Val)); }
  else d = (DtObj*)malloc(sizeof(DtObj) + n * sizeof(Val));
  d->rc = 1; d->t = V_DT; d->n = n; memset((void*)d->f(), 0, n * sizeof(Val));
  return d;
}
void destroyObj(Obj* o) {
  switch (o->t) {
    case V_BIG: delete (BigObj*)o; break;
    case V_DT: { DtObj* d = (DtObj*)o; for (uint32_t i = 0; i < d->n; i++) d->f()[i].~Val(); if (d->n < 20) { *(void**)d = fl[d->n]; fl[d->n] = d; } else free(d); break; }
    case V_SEQ: { SeqObj* s = (SeqObj*)o; bufUnref(s->buf); delete s; break; }
    case V_ARR: { ArrObj* s = (ArrObj*)o; bufUnref(s->buf); delete s; break; }
    case V_SET: case V_MSET: delete (SetObj*)o; break;
    case V_MAP: delete (MapObj*)o; break;
    case V_OBJ: delete (ClsObj*)o; break;
    case V_FUN: delete (FunObj*)o; break;
    case V_REAL: delete (RealObj*)o; break;
    case V_NATIVE: delete (NatObj*)o; break;
    default: abort();
  }
}
Val mkSeqBuf(Buf* b, uint64_t off, uint64_t len) { SeqObj* s = new SeqObj; s->rc = 1; s->t = V_SEQ; s->buf = b; s->off = off; s->len = len; return Val::own(V_SEQ, s); }
Val mkSeqBytes(const uint8_t* p, uint64_t n) { Buf* b = newBuf(true, n); if (n) memcpy(b->b, p, n); return mkSeqBuf(b, 0, n); }
Val mkSeqVals(vector<Val>&& v) {
  bool bytes = !v.empty();
  for (auto& x : v) if (!(x.t == V_INT && x.it == I_U8)) { bytes = false; break; }
  Buf* b = newBuf(bytes, v.size());
  for (size_t i = 0; i < v.size(); i++) if (bytes) b->b[i] = (uint8_t)v[i].u; else b->v[i] = std::move(v[i]);
  return mkSeqBuf(b, 0, v.size());
}
Val mkArr(Buf* b) { ArrObj* a = new ArrObj; a->rc = 1; a->t = V_ARR; a->buf = b; return Val::own(V_ARR, a); }
static Val bufGet(Buf* b, uint64_t i) { if (b->bytes) return Val::U8(b->b[i]); return b->v[i]; }
Val seqGet(const Val& s, uint64_t i) {
  if (s.t == V_SEQ) { SeqObj* q = (SeqObj*)s.o; if (i >= q->len) throw DafnyError("sequence index " + std::to_string(i) + " out of range (length " + std::to_string(q->len) + ")"); return bufGet(q->buf, q->off + i); }
  if (s.t == V_ARR) { ArrObj* q = (ArrObj*)s.o; if (i >= q->buf->n) throw DafnyError("array index " + std::to_string(i) + " out of range (length " + std::to_string(q->buf->n) + ")"); return bufGet(q->buf, i); }
  throw DafnyError("indexing a value that is neither sequence nor array (tag " + std::to_string(s.t) + ")");
}
Val seqSlice(const Val& s, uint64_t a, uint64_t e) {
  if (s.t == V_ARR) {
    ArrObj* q = (ArrObj*)s.o; if (a > e || e > q->buf->n) throw DafnyError("array slice out of range");
    if (q->buf->bytes) return mkSeqBytes(q->buf->b + a, e - a);
    Buf* b = newBuf(false, e - a); for (uint64_t i = a; i < e; i++) b->v[i-a] = q->buf->v[i]; return mkSeqBuf(b, 0, e - a);
  }
  if (s.t != V_SEQ) throw DafnyError("slicing a non-sequence");
  SeqObj* q = (SeqObj*)s.o; if (a > e || e > q->len) throw DafnyError("slice [" + std::to_string(a) + ".." + std::to_string(e) + "] out of range (length " + std::to_string(q->len) + ")");
  if (a == 0 && e == q->len) return s;
  bufRef(q->buf); return mkSeqBuf(q->buf, q->off + a, e - a);
}
Val seqConcat(const Val& x, const Val& y) {
  SeqObj* a = (SeqObj*)x.o; SeqObj* b = (SeqObj*)y.o;
  if (!a->len) return y;
  if (!b->len) return x;
  bool bytes = a->buf->bytes && b->buf->bytes;
  // append in place when x owns the tail of its buffer
  if (a->buf->rc == 1 && a->buf->bytes == bytes && a->off + a->len == a->buf->n && a->buf != b->buf) {
    Buf* q = a->buf; uint64_t need = q->n + b->len;
    if (need > q->cap) { q->cap = need * 2; if (bytes) q->b = (uint8_t*)realloc(q->b, q->cap); else { q->v = (Val*)realloc((void*)q->v, q->cap * sizeof(Val)); } if (!bytes) memset((void*)(q->v + q->n), 0, (q->cap - q->n) * sizeof(Val)); }
    for (uint64_t i = 0; i < b->len; i++) if (bytes) q->b[q->n + i] = b->buf->b[b->off + i]; else q->v[q->n + i] = bufGet(b->buf, b->off + i);
    q->n = need; bufRef(q);
    return mkSeqBuf(q, a->off, a->len + b->len);
  }
  Buf* r = newBuf(bytes, a->len + b->len);
  if (bytes) { memcpy(r->b, a->buf->b + a->off, a->len); memcpy(r->b + a->len, b->buf->b + b->off, b->len); }
  else { for (uint64_t i = 0; i < a->len; i++) r->v[i] = bufGet(a->buf, a->off + i); for (uint64_t i = 0; i < b->len; i++) r->v[a->len + i] = bufGet(b->buf, b->off + i); }
  return mkSeqBuf(r, 0, a->len + b->len);
}
static void uniqueBuf(SeqObj* q, bool needVals) {
  if (q->buf->rc == 1 && !(needVals && q->buf->bytes)) return;
  bool bytes = q->buf->bytes && !needVals;
  Buf* r = newBuf(bytes, q->len);
  if (bytes) memcpy(r->b, q->buf->b + q->off, q->len); else for (uint64_t i = 0; i < q->len; i++) r->v[i] = bufGet(q->buf, q->off + i);
  bufUnref(q->buf); q->buf = r; q->off = 0;
}
static bool isByte(const Val& x) { return x.t == V_INT && x.it == I_U8; }
void seqSetInPlace(Val& s, uint64_t i, const Val& x) {
  if (s.t == V_ARR) {
    ArrObj* q = (ArrObj*)s.o; if (i >= q->buf->n) throw DafnyError("array index " + std::to_string(i) + " out of range (length " + std::to_string(q->buf->n) + ")");
    if (q->buf->bytes) {
      if (isByte(x) || (x.t == V_INT && x.it == I_LIT && x.u < 256)) { q->buf->b[i] = (uint8_t)x.u; return; }
      Buf* r = newBuf(false, q->buf->n); for (uint64_t k = 0; k < q->buf->n; k++) r->v[k] = bufGet(q->buf, k); bufUnref(q->buf); q->buf = r;
    }
    q->buf->v[i] = x; return;
  }
  if (s.t != V_SEQ) throw DafnyError("updating a non-sequence");
  SeqObj* q = (SeqObj*)s.o; if (i >= q->len) throw DafnyError("sequence index " + std::to_string(i) + " out of range (length " + std::to_string(q->len) + ")");
  bool lit = x.t == V_INT && x.it == I_LIT && x.u < 256 && q->buf->bytes;
  uniqueBuf(q, !(isByte(x) || lit));
  if (q->buf->bytes) q->buf->b[q->off + i] = (uint8_t)x.u; else q->buf->v[q->off + i] = x;
}
Val seqUpdate(const Val& s, uint64_t i, const Val& x) {
  SeqObj* q = (SeqObj*)s.o; if (i >= q->len) throw DafnyError("sequence update index " + std::to_string(i) + " out of range (length " + std::to_string(q->len) + ")");
  bool bytes = q->buf->bytes && (isByte(x) || (x.t == V_INT && x.it == I_LIT && x.u < 256));
  Buf* r = newBuf(bytes, q->len);
  if (bytes) memcpy(r->b, q->buf->b + q->off, q->len); else for (uint64_t k = 0; k < q->len; k++) r->v[k] = bufGet(q->buf, q->off + k);
  if (bytes) r->b[i] = (uint8_t)x.u; else r->v[i] = x;
  return mkSeqBuf(r, 0, q->len);
}
string seqBytes(const Val& s) {
  Buf* b; uint64_t off = 0, len;
  if (s.t == V_ARR) { b = ((ArrObj*)s.o)->buf; len = b->n; } else if (s.t == V_SEQ) { SeqObj* q = (SeqObj*)s.o; b = q->buf; off = q->off; len = q->len; } else throw DafnyError("bytes expected");
  if (b->bytes) return string((char*)b->b + off, len);
  string r; r.reserve(len); for (uint64_t i = 0; i < len; i++) r += (char)asU(b->v[off + i]); return r;
}
Val bytesSeq(const string& s) { return mkSeqBytes((const uint8_t*)s.data(), s.size()); }
Val mkDt(CtorDecl* c, const vector<Val>& f) { DtObj* d = allocDt((uint32_t)f.size()); d->c = c; for (size_t i = 0; i < f.size(); i++) d->f()[i] = f[i]; return Val::own(V_DT, d); }
static CtorDecl* tupleCtor(size_t n) {
  static CtorDecl* t[32];
  if (!t[n]) { Decl* dd = new Decl; dd->k = D_DATATYPE; dd->name = "_tuple" + std::to_string(n); CtorDecl* c = new CtorDecl; c->name = ""; c->dt = dd; for (size_t i = 0; i < n; i++) { Param p; p.name = std::to_string(i); c->fields.push_back(p); } dd->ctors = {c}; t[n] = c; }
  return t[n];
}
Val mkTuple(const vector<Val>& f) { return mkDt(tupleCtor(f.size()), f); }
Val mkSet() { SetObj* s = new SetObj; s->rc = 1; s->t = V_SET; return Val::own(V_SET, s); }
Val mkMset() { SetObj* s = new SetObj; s->rc = 1; s->t = V_MSET; return Val::own(V_MSET, s); }
Val mkMap() { MapObj* s = new MapObj; s->rc = 1; s->t = V_MAP; return Val::own(V_MAP, s); }

static int kindRank(const Val& v) { return v.t == V_BIG ? (int)V_INT : (int)v.t; }
int valCmp(const Val& a, const Val& b) {
  int ka = kindRank(a), kb = kindRank(b);
  if (ka != kb) return ka < kb ? -1 : 1;
  auto c3 = [](auto x, auto y) { return x < y ? -1 : x > y ? 1 : 0; };
  switch (ka) {
    case V_NIL: case V_NULL: return 0;
    case V_BOOL: return c3(a.i, b.i);
    case V_CHAR: return c3(a.u, b.u);
    case V_INT: return c3(asI(a), asI(b));
    case V_REF: return valCmp(*a.ref, *b.ref);
    case V_DT: {
      DtObj* x = (DtObj*)a.o; DtObj* y = (DtObj*)b.o; if (x == y) return 0;
      if (x->c != y->c) { if (x->c->index != y->c->index) return c3(x->c->index, y->c->index); int r = x->c->name.compare(y->c->name); if (r) return r; }
      if (x->n != y->n) return c3(x->n, y->n);
      for (uint32_t i = 0; i < x->n; i++) { if (i < x->c->fields.size() && x->c->fields[i].ghost) continue; int r = valCmp(x->f()[i], y->f()[i]); if (r) return r; }
      return 0;
    }
    case V_SEQ: {
      SeqObj* x = (SeqObj*)a.o; SeqObj* y = (SeqObj*)b.o; if (x == y) return 0;
      uint64_t n = std::min(x->len, y->len);
      if (x->buf->bytes && y->buf->bytes) { int r = n ? memcmp(x->buf->b + x->off, y->buf->b + y->off, n) : 0; if (r) return r; }
      else for (uint64_t i = 0; i < n; i++) { int r = valCmp(bufGet(x->buf, x->off + i), bufGet(y->buf, y->off + i)); if (r) return r; }
      return c3(x->len, y->len);
    }
    case V_SET: case V_MSET: {
      auto& x = ((SetObj*)a.o)->m; auto& y = ((SetObj*)b.o)->m; if (x.size() != y.size()) return c3(x.size(), y.size());
      auto i = x.begin(); auto j = y.begin(); for (; i != x.end(); ++i, ++j) { int r = valCmp(i->first, j->first); if (r) return r; if (i->second != j->second) return c3(i->second, j->second); } return 0;
    }
    case V_MAP: {
      auto& x = ((MapObj*)a.o)->m; auto& y = ((MapObj*)b.o)->m; if (x.size() != y.size()) return c3(x.size(), y.size());
      auto i = x.begin(); auto j = y.begin(); for (; i != x.end(); ++i, ++j) { int r = valCmp(i->first, j->first); if (r) return r; r = valCmp(i->second, j->second); if (r) return r; } return 0;
    }
    case V_REAL: return c3(((RealObj*)a.o)->d, ((RealObj*)b.o)->d);
    case V_ARR: case V_OBJ: case V_NATIVE: case V_FUN: return c3((uintptr_t)a.o, (uintptr_t)b.o);
  }
  return 0;
}
bool valEq(const Val& a, const Val& b) {
  if (a.t == V_INT && b.t == V_INT && a.it != I_U64 && b.it != I_U64) return a.i == b.i;
  if (a.t == V_SEQ && b.t == V_SEQ && ((SeqObj*)a.o)->len != ((SeqObj*)b.o)->len) return false;
  return valCmp(a, b) == 0;
}
bool ValLess::operator()(const Val& a, const Val& b) const { return valCmp(a, b) < 0; }

Val convInt(const Val& v, IT k) {
  if (v.t == V_INT && v.it == k) return v;
  i128 x = asI(v);
  switch (k) {
    case I_U8: return Val::raw(k, (uint8_t)x);
    case I_U16: return Val::raw(k, (uint16_t)x);
    case I_U32: return Val::raw(k, (uint32_t)x);
    case I_U64: return Val::raw(k, (uint64_t)x);
    case I_I8: return Val::raw(k, (uint64_t)(int64_t)(int8_t)x);
    case I_I16: return Val::raw(k, (uint64_t)(int64_t)(int16_t)x);
    case I_I32: return Val::raw(k, (uint64_t)(int64_t)(int32_t)x);
    case I_I64: return Val::raw(k, (uint64_t)(int64_t)x);
    default: return Val::Int(x, k);
  }
}
string show(const Val& v, int depth) {
  if (depth <= 0) return "...";
  switch (v.t) {
    case V_NIL: return "<nil>"; case V_NULL: return "null";
    case V_BOOL: return v.i ? "true" : "false";
    case V_INT: case V_BIG: { i128 x = asI(v); if (x == 0) return "0"; bool neg = x < 0; string s; unsigned __int128 y = neg ? (unsigned __int128)(-x) : (unsigned __int128)x; while (y) { s += char('0' + (int)(y % 10)); y /= 10; } if (neg) s += '-'; std::reverse(s.begin(), s.end()); return s; }
    case V_CHAR: return string("'") + (char)v.u + "'";
    case V_REF: return "&" + show(*v.ref, depth);
    case V_DT: { DtObj* d = (DtObj*)v.o; string s = d->c->name; if (d->n) { s += "("; for (uint32_t i = 0; i < d->n; i++) { if (i) s += ", "; s += show(d->f()[i], depth - 1); } s += ")"; } return s; }
    case V_SEQ: case V_ARR: {
      uint64_t n = v.t == V_SEQ ? seqLen(v) : ((ArrObj*)v.o)->buf->n; Buf* b = v.t == V_SEQ ? ((SeqObj*)v.o)->buf : ((ArrObj*)v.o)->buf;
      if (b->bytes) { string s = "b\""; string r = seqBytes(v); for (size_t i = 0; i < r.size() && i < 40; i++) { unsigned char c = r[i]; if (isprint(c)) s += c; else { char t[8]; snprintf(t, 8, "\\x%02x", c); s += t; } } if (r.size() > 40) s += "...(" + std::to_string(r.size()) + ")"; return s + "\""; }
      string s = "["; for (uint64_t i = 0; i < n && i < 20; i++) { if (i) s += ", "; s += show(seqGet(v, i), depth - 1); } if (n > 20) s += ", ...(" + std::to_string(n) + ")"; return s + "]";
    }
    case V_SET: case V_MSET: { string s = "{"; int k = 0; for (auto& x : ((SetObj*)v.o)->m) { if (k++) s += ", "; if (k > 20) { s += "..."; break; } s += show(x.first, depth - 1); if (v.t == V_MSET && x.second != 1) s += "*" + std::to_string(x.second); } return s + "}"; }
    case V_MAP: { string s = "map["; int k = 0; for (auto& x : ((MapObj*)v.o)->m) { if (k++) s += ", "; if (k > 20) { s += "..."; break; } s += show(x.first, depth - 1) + " := " + show(x.second, depth - 1); } return s + "]"; }
    case V_OBJ: return "<object " + ((ClsObj*)v.o)->cls->name + ">";
    case V_FUN: return "<function>"; case V_REAL: return std::to_string(((RealObj*)v.o)->d); case V_NATIVE: return "<native>";
  }
  return "?";
}
Val deepCopy(const Val& v) {
  switch (v.t) {
    case V_DT: { DtObj* d = (DtObj*)v.o; DtObj* r = allocDt(d->n); r->c = d->c; for (uint32_t i = 0; i < d->n; i++) r->f()[i] = deepCopy(d->f()[i]); return Val::own(V_DT, r); }
    case V_SEQ: { SeqObj* q = (SeqObj*)v.o; if (q->buf->bytes) return mkSeqBytes(q->buf->b + q->off, q->len); Buf* r = newBuf(false, q->len); for (uint64_t i = 0; i < q->len; i++) r->v[i] = deepCopy(q->buf->v[q->off + i]); return mkSeqBuf(r, 0, q->len); }
    case V_MAP: { Val m = mkMap(); for (auto& x : ((MapObj*)v.o)->m) ((MapObj*)m.o)->m.emplace(x.first, deepCopy(x.second)); return m; }
    default: return v;
  }
}
}
