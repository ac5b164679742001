#include "interp.h"
#include <sys/mman.h>
#include <cstdio>
#include <set>

namespace dfy {
using std::string; using std::vector;
Engine* EN = nullptr;
typedef vector<X*> XV;

// ------------------------------------------------------------------ types and names
struct RT {
  enum K { UNK, INT, BOOL, CHAR, REAL, SEQ, SET, MAP, MSET, ARR, TUP, FUN, DECL } k = UNK;
  IT it = I_NONE; Decl* d = nullptr; vector<RT> a;
  RT() {}
  RT(K k) : k(k) {}
  static RT Int(IT i) { RT r(INT); r.it = i; return r; }
};
typedef std::map<string, RT> Sub;
struct Ent { Decl* d = nullptr; CtorDecl* c = nullptr; Module* m = nullptr; bool any() const { return d || c || m; } };

static Ent lookupIn(Module* m, const string& n) {
  Ent e;
  auto i = m->declMap.find(n); if (i != m->declMap.end()) e.d = i->second;
  auto j = m->ctorMap.find(n); if (j != m->ctorMap.end()) e.c = j->second;
  auto k = m->subMap.find(n); if (k != m->subMap.end()) e.m = k->second;
  if (!e.m) { auto q = m->importMap.find(n); if (q != m->importMap.end()) e.m = m->imports[q->second].target; }
  return e;
}
static bool exported(Module* t, const Import& im, const string& n, int depth = 0) {
  if (t->exports.empty()) return true;
  vector<string> want = im.exportSets; if (want.empty()) want.push_back("");
  std::set<string> done;
  for (size_t i = 0; i < want.size(); i++) {
    if (!done.insert(want[i]).second) continue;
    bool found = false;
    for (auto& es : t->exports) {
      if (es.name != want[i] && !(want[i].empty() && es.name == t->name)) continue;
      found = true;
      if (es.all) return true;
      for (auto& x : es.names) if (x == n) return true;
      for (auto& x : es.extends) want.push_back(x);
    }
    if (!found && want[i].empty()) return true;
  }
  // constructors of a revealed datatype
  auto j = t->ctorMap.find(n);
  if (j != t->ctorMap.end() && j->second->dt->name != n) return exported(t, im, j->second->dt->name, depth + 1);
  return false;
}
static Ent lookupScope(Module* m, const string& n) {
  Ent e = lookupIn(m, n); if (e.any()) return e;
  for (int pass = 0; pass < 3; pass++)
    for (auto& im : m->imports) if (im.opened && im.target) {
      Ent x = lookupIn(im.target, n);
      if (pass == 0 && (x.d || x.c) && exported(im.target, im, n)) return x;
      if (pass == 1 && x.m) return x;
      if (pass == 2 && x.any()) return x;
    }
  if (m->parent) return lookupScope(m->parent, n);
  return e;
}
static IT nativeKind(Decl* d) {
  auto i = d->attrs.find("nativeType");
  if (i != d->attrs.end() && !i->second.empty()) {
    const string& s = i->second[0];
    if (s == "byte") return I_U8; if (s == "sbyte") return I_I8; if (s == "ushort") return I_U16; if (s == "short") return I_I16;
    if (s == "uint") return I_U32; if (s == "int") return I_I32; if (s == "ulong") return I_U64; if (s == "long") return I_I64;
  }
  if (d->name == "uint64") return I_U64; if (d->name == "uint32") return I_U32; if (d->name == "uint16") return I_U16; if (d->name == "uint8" || d->name == "byte") return I_U8;
  if (d->name == "uint128") return I_U128;
  return I_INT;
}
struct TCtx { Module* m; Decl* owner; Decl* fn; const Sub* sub; };
static RT resolveType(Type* t, const TCtx& c, int depth = 0);
static RT resolveTypeName(const string& name, const vector<RT>& args, const TCtx& c, int depth) {
  RT r;
  if (depth > 40) return r;
  if (name == "int" || name == "nat" || name == "ORDINAL") return RT::Int(I_INT);
  if (name == "bool") return RT(RT::BOOL);
  if (name == "char") return RT(RT::CHAR);
  if (name == "real") return RT(RT::REAL);
  if (name == "string") { r.k = RT::SEQ; r.a.push_back(RT(RT::CHAR)); return r; }
  if (name == "seq" || name == "set" || name == "iset" || name == "map" || name == "imap" || name == "multiset" || name == "array" || name == "array?") {
    r.k = name == "seq" ? RT::SEQ : name == "map" || name == "imap" ? RT::MAP : name == "multiset" ? RT::MSET : name[0] == 'a' ? RT::ARR : RT::SET;
    r.a = args; return r;
  }
  if (name == "()") { r.k = RT::TUP; r.a = args; return r; }
  if (name == "->") { r.k = RT::FUN; r.a = args; return r; }
  if (name.size() > 2 && name[0] == 'b' && name[1] == 'v' && isdigit((unsigned char)name[2])) { int b = atoi(name.c_str() + 2); return RT::Int(b <= 8 ? I_U8 : b <= 16 ? I_U16 : b <= 32 ? I_U32 : b <= 64 ? I_U64 : I_U128); }
  if (name.find('.') == string::npos) {
    bool tp = false;
    if (c.fn) for (auto& x : c.fn->tparams) if (x == name) tp = true;
    if (c.owner) for (auto& x : c.owner->tparams) if (x == name) tp = true;
    if (tp) { if (c.sub) { auto i = c.sub->find(name); if (i != c.sub->end()) return i->second; } return r; }
    if (c.owner && c.owner->k == D_TYPE) {}
  }
  // path
  vector<string> p; { size_t b = 0; for (;;) { size_t e = name.find('.', b); p.push_back(name.substr(b, e == string::npos ? e : e - b)); if (e == string::npos) break; b = e + 1; } }
  Module* m = c.m; Ent e;
  for (size_t i = 0; i < p.size(); i++) {
    string n = p[i]; if (i + 1 == p.size() && n.size() > 1 && n.back() == '?') { Ent t = i ? lookupIn(m, n) : lookupScope(m, n); if (!t.any()) n.pop_back(); }
    e = i == 0 ? lookupScope(m, n) : lookupIn(m, n);
    if (!e.d && i > 0) { Ent t = lookupScope(m, n); if (t.d) e.d = t.d; if (!e.m) e.m = t.m; }
    if (i + 1 < p.size()) { if (!e.m) return r; m = e.m; }
  }
  if (!e.d) return r;
  Decl* d = e.d;
  if (d->k == D_TYPE) {
    if (d->isNewtype) { RT b; if (d->ty) b = resolveType(d->ty, TCtx{d->mod, nullptr, nullptr, nullptr}, depth + 1); if (b.k == RT::REAL) return b; RT q = RT::Int(nativeKind(d)); q.d = d; return q; }
    if (!d->ty) { RT q(RT::DECL); q.d = d; q.a = args; return q; }
    Sub s; for (size_t i = 0; i < d->tparams.size() && i < args.size(); i++) s[d->tparams[i]] = args[i];
    Decl pseudo; pseudo.tparams = d->tparams;
    return resolveType(d->ty, TCtx{d->mod, nullptr, &pseudo, &s}, depth + 1);
  }
  if (d->k == D_DATATYPE || d->k == D_CLASS) { RT q(RT::DECL); q.d = d; q.a = args; return q; }
  return r;
}
static RT resolveType(Type* t, const TCtx& c, int depth) {
  RT r; if (!t || depth > 40) return r;
  vector<RT> args; for (auto x : t->args) args.push_back(resolveType(x, c, depth + 1));
  return resolveTypeName(t->name, args, c, depth);
}
static Decl* stripSyn(Decl* d) {
  for (int i = 0; i < 20 && d && d->k == D_TYPE && !d->isNewtype && d->ty; i++) { RT r = resolveType(d->ty, TCtx{d->mod, nullptr, d, nullptr}); if (r.k != RT::DECL || r.d == d) break; d = r.d; }
  return d;
}
static Val defaultOf(const RT& t, int depth = 0) {
  switch (t.k) {
    case RT::INT: return Val::Int(0, t.it == I_NONE ? I_INT : t.it);
    case RT::BOOL: return Val::B(false);
    case RT::CHAR: return Val::Char('D');
    case RT::SEQ: return mkSeqVals({});
    case RT::SET: return mkSet();
    case RT::MSET: return mkMset();
    case RT::MAP: return mkMap();
    case RT::ARR: return Val::Null();
    case RT::REAL: { RealObj* r = new RealObj; r->rc = 1; r->t = V_REAL; r->d = 0; return Val::own(V_REAL, r); }
    case RT::DECL:
      if (t.d->k == D_CLASS) return Val::Null();
      if (t.d->k == D_DATATYPE && depth < 4) for (auto c : t.d->ctors) if (c->fields.empty()) return mkDt(c, {});
      return Val();
    default: return Val();
  }
}

// class layout
struct ClsInfo { std::unordered_map<string, int> idx; vector<Val> defs; vector<Decl*> fields; vector<Decl*> order; };
static ClsInfo* clsInfo(Decl* c) {
  if (c->rt) return (ClsInfo*)c->rt;
  ClsInfo* i = new ClsInfo; c->rt = i;
  std::function<void(Decl*)> add = [&](Decl* k) {
    for (auto& tn : k->traits) { Ent e = lookupScope(k->mod, tn); Decl* t = e.d; if (t && t->k == D_CLASS) add(t); }
    for (auto m : k->members) if ((m->k == D_FIELD || (m->k == D_CONST && !m->isStatic)) && !i->idx.count(m->name)) {
      i->idx[m->name] = (int)i->defs.size(); i->defs.push_back(m->ghost ? Val() : defaultOf(resolveType(m->ty, TCtx{m->mod, k, nullptr, nullptr}))); i->fields.push_back(m);
    }
  };
  add(c); return i;
}
static Decl* findMember(Decl* c, const string& n) {
  auto i = c->memberMap.find(n); if (i != c->memberMap.end()) return i->second;
  for (auto& tn : c->traits) { Ent e = lookupScope(c->mod, tn); if (e.d && e.d->k == D_CLASS) { Decl* r = findMember(e.d, n); if (r) return r; } }
  return nullptr;
}
Val Engine::newObj(Decl* cls) { ClsObj* o = new ClsObj; o->rc = 1; o->t = V_OBJ; o->cls = cls; o->f = clsInfo(cls)->defs; return Val::own(V_OBJ, o); }

// ------------------------------------------------------------------ run-time helpers
static Val coerceV(Val&& v, IT k) {
  if (k != I_NONE && (v.t == V_INT || v.t == V_BIG) && v.it != k) { if (v.t == V_INT && v.it == I_LIT && k != I_U128 && (k == I_INT || k == I_U64 || k == I_I64)) { v.it = k; return std::move(v); } return convInt(v, k); }
  return std::move(v);
}
static bool nilish(const Val& v) { return v.t == V_NIL; }
static inline void need(const Val& v, VT t, const char* what) {
  if (v.t != t) {
    if (v.t == V_NULL) throw DafnyError(string("null dereference (") + what + ")");
    throw Unsupported(string("engine: value of tag ") + std::to_string(v.t) + " where " + what + " is needed");
  }
}
static i128 wrapK(i128 x, IT k, Val& out) { out = (k >= I_U8 && k <= I_U64) || (k >= I_I8 && k <= I_I64) ? Val() : Val(); return x; }
static Val mkI(i128 x, IT k) {
  switch (k) {
    case I_U64: return Val::raw(k, (uint64_t)x);
    case I_U8: return Val::raw(k, (uint8_t)x);
    case I_U16: return Val::raw(k, (uint16_t)x);
    case I_U32: return Val::raw(k, (uint32_t)x);
    case I_I8: return Val::raw(k, (uint64_t)(int64_t)(int8_t)x);
    case I_I16: return Val::raw(k, (uint64_t)(int64_t)(int16_t)x);
    case I_I32: return Val::raw(k, (uint64_t)(int64_t)(int32_t)x);
    case I_I64: return Val::raw(k, (uint64_t)(int64_t)x);
    default: return Val::Int(x, k);
  }
}
static i128 ediv(i128 a, i128 b) { if (!b) throw DafnyError("division by zero"); i128 q = a / b, r = a % b; if (r < 0) q += b > 0 ? -1 : 1; return q; }
static i128 emod(i128 a, i128 b) { if (!b) throw DafnyError("modulo by zero"); i128 r = a % b; if (r < 0) r += b > 0 ? b : -b; return r; }
static i128 I(const Val& v) {
  if (v.t == V_INT) return v.it == I_U64 ? (i128)v.u : (i128)v.i;
  if (v.t == V_BIG) return ((BigObj*)v.o)->v;
  if (v.t == V_CHAR) return (i128)v.u;
  throw Unsupported("engine: integer expected, got tag " + std::to_string(v.t));
}
static inline bool Bo(const Val& v) { if (v.t != V_BOOL) throw Unsupported("engine: bool expected, got tag " + std::to_string(v.t)); return v.i; }

enum Op { O_ADD, O_SUB, O_MUL, O_DIV, O_MOD, O_AND, O_OR, O_XOR, O_SHL, O_SHR, O_EQ, O_NE, O_LT, O_LE, O_GT, O_GE, O_IN, O_NIN, O_DISJ };
static Val setOp(const Val& a, const Val& b, Op op) {
  bool ms = a.t == V_MSET; Val r = ms ? mkMset() : mkSet();
  auto& A = ((SetObj*)a.o)->m; auto& B = ((SetObj*)b.o)->m; auto& R = ((SetObj*)r.o)->m;
  if (op == O_ADD) { R = A; for (auto& x : B) { auto& c = R[x.first]; c = ms ? c + x.second : 1; } }
  else if (op == O_MUL) { for (auto& x : A) { auto i = B.find(x.first); if (i != B.end()) R[x.first] = std::min(x.second, i->second); } }
  else { for (auto& x : A) { auto i = B.find(x.first); uint64_t s = i == B.end() ? 0 : i->second; if (x.second > s) R[x.first] = x.second - s; } }
  return r;
}
static bool subset(const Val& a, const Val& b) { auto& B = ((SetObj*)b.o)->m; for (auto& x : ((SetObj*)a.o)->m) { auto i = B.find(x.first); if (i == B.end() || i->second < x.second) return false; } return true; }
static bool member(const Val& x, const Val& s) {
  switch (s.t) {
    case V_SET: case V_MSET: return ((SetObj*)s.o)->m.count(x);
    case V_MAP: return ((MapObj*)s.o)->m.count(x);
    case V_SEQ: { uint64_t n = seqLen(s); for (uint64_t i = 0; i < n; i++) if (valEq(seqGet(s, i), x)) return true; return false; }
    default: throw Unsupported("engine: 'in' on tag " + std::to_string(s.t));
  }
}
static bool isPrefix(const Val& a, const Val& b) { uint64_t n = seqLen(a); if (n > seqLen(b)) return false; for (uint64_t i = 0; i < n; i++) if (!valEq(seqGet(a, i), seqGet(b, i))) return false; return true; }
static double R(const Val& v) { return ((RealObj*)v.o)->d; }
static Val mkReal(double d) { RealObj* r = new RealObj; r->rc = 1; r->t = V_REAL; r->d = d; return Val::own(V_REAL, r); }
static Val binOp(Op op, const Val& a, const Val& b) {
  if (op == O_EQ) return Val::B(valEq(a, b));
  if (op == O_NE) return Val::B(!valEq(a, b));
  if (op == O_IN) return Val::B(member(a, b));
  if (op == O_NIN) return Val::B(!member(a, b));
  if (a.t == V_SEQ && b.t == V_SEQ) {
    switch (op) { case O_ADD: return seqConcat(a, b); case O_LE: return Val::B(isPrefix(a, b)); case O_LT: return Val::B(seqLen(a) < seqLen(b) && isPrefix(a, b)); case O_GE: return Val::B(isPrefix(b, a)); default: break; }
  }
  if ((a.t == V_SET || a.t == V_MSET) && a.t == b.t) {
    switch (op) {
      case O_ADD: case O_SUB: case O_MUL: return setOp(a, b, op);
      case O_LE: return Val::B(subset(a, b)); case O_GE: return Val::B(subset(b, a));
      case O_LT: return Val::B(subset(a, b) && !valEq(a, b)); case O_GT: return Val::B(subset(b, a) && !valEq(a, b));
      case O_DISJ: return Val::B(((SetObj*)setOp(a, b, O_MUL).o)->m.empty()); default: break;
    }
  }
  if (a.t == V_MAP && b.t == V_MAP && op == O_ADD) { Val r = mkMap(); ((MapObj*)r.o)->m = ((MapObj*)a.o)->m; for (auto& x : ((MapObj*)b.o)->m) ((MapObj*)r.o)->m[x.first] = x.second; return r; }
  if (a.t == V_MAP && b.t == V_SET && op == O_SUB) { Val r = mkMap(); for (auto& x : ((MapObj*)a.o)->m) if (!((SetObj*)b.o)->m.count(x.first)) ((MapObj*)r.o)->m[x.first] = x.second; return r; }
  if (a.t == V_REAL && b.t == V_REAL) { double x = R(a), y = R(b); switch (op) { case O_ADD: return mkReal(x + y); case O_SUB: return mkReal(x - y); case O_MUL: return mkReal(x * y); case O_DIV: return mkReal(x / y); case O_LT: return Val::B(x < y); case O_LE: return Val::B(x <= y); case O_GT: return Val::B(x > y); case O_GE: return Val::B(x >= y); default: break; } }
  if (a.t == V_DT && (op == O_LT || op == O_GT)) throw Unsupported("rank comparison");
  IT k = a.it == I_LIT ? b.it : a.it;
  if (a.t == V_CHAR && b.t == V_CHAR) { switch (op) { case O_LT: return Val::B(a.u < b.u); case O_LE: return Val::B(a.u <= b.u); case O_GT: return Val::B(a.u > b.u); case O_GE: return Val::B(a.u >= b.u); default: return Val::Char((uint32_t)(op == O_ADD ? a.u + b.u : a.u - b.u)); } }
  i128 x = I(a), y = I(b);
  switch (op) {
    case O_LT: return Val::B(x < y); case O_LE: return Val::B(x <= y); case O_GT: return Val::B(x > y); case O_GE: return Val::B(x >= y);
    case O_ADD: return mkI(x + y, k); case O_SUB: return mkI(x - y, k); case O_MUL: return mkI((i128)((unsigned __int128)x * (unsigned __int128)y), k);
    case O_DIV: return mkI(ediv(x, y), k); case O_MOD: return mkI(emod(x, y), k);
    case O_AND: return mkI(x & y, k); case O_OR: return mkI(x | y, k); case O_XOR: return mkI(x ^ y, k);
    case O_SHL: return mkI(y >= 128 ? 0 : (i128)((unsigned __int128)x << (int)y), a.it); case O_SHR: return mkI(y >= 128 ? 0 : (x >> (int)y), a.it);
    default: throw Unsupported("engine: operator on tags " + std::to_string(a.t) + "," + std::to_string(b.t));
  }
}
static Val seqOfMap(const Val& m, int w) {   // .Keys .Values .Items
  Val r = mkSet();
  for (auto& x : ((MapObj*)m.o)->m) ((SetObj*)r.o)->m[w == 0 ? x.first : w == 1 ? x.second : mkTuple({x.first, x.second})] = 1;
  return r;
}
static i128 cardOf(const Val& v) {
  switch (v.t) {
    case V_SEQ: return seqLen(v); case V_SET: return ((SetObj*)v.o)->m.size(); case V_MAP: return ((MapObj*)v.o)->m.size();
    case V_MSET: { i128 s = 0; for (auto& x : ((SetObj*)v.o)->m) s += x.second; return s; }
    default: throw Unsupported("engine: cardinality of tag " + std::to_string(v.t));
  }
}
static Val indexOf(const Val& b, const Val& i) {
  switch (b.t) {
    case V_SEQ: case V_ARR: { i128 k = I(i); if (k < 0) throw DafnyError("negative index"); return seqGet(b, k > (i128)UINT64_MAX ? UINT64_MAX : (uint64_t)k); }
    case V_MAP: { auto& m = ((MapObj*)b.o)->m; auto q = m.find(i); if (q == m.end()) throw DafnyError("map lookup of an absent key " + show(i)); return q->second; }
    case V_MSET: { auto& m = ((SetObj*)b.o)->m; auto q = m.find(i); return Val::Int(q == m.end() ? 0 : q->second); }
    case V_NULL: throw DafnyError("null array");
    default: throw Unsupported("engine: indexing tag " + std::to_string(b.t));
  }
}
static Val updateOf(const Val& b, const Val& i, const Val& v) {
  switch (b.t) {
    case V_SEQ: { i128 k = I(i); if (k < 0 || k >= (i128)seqLen(b)) throw DafnyError("sequence update index out of range"); return seqUpdate(b, (uint64_t)k, v); }
    case V_MAP: { Val r = mkMap(); ((MapObj*)r.o)->m = ((MapObj*)b.o)->m; ((MapObj*)r.o)->m[i] = v; return r; }
    case V_MSET: { Val r = mkMset(); ((SetObj*)r.o)->m = ((SetObj*)b.o)->m; uint64_t n = (uint64_t)I(v); if (n) ((SetObj*)r.o)->m[i] = n; else ((SetObj*)r.o)->m.erase(i); return r; }
    default: throw Unsupported("engine: update of tag " + std::to_string(b.t));
  }
}

struct FrameGuard { Val* base; Val* top; Engine* e; FrameGuard(Engine* e, int n) : e(e) { base = e->sp; top = base + n; if (top >= e->stackEnd) throw DafnyHang("value stack exhausted (runaway recursion)"); e->sp = top; } ~FrameGuard() { for (Val* p = top; p > base;) { --p; if (p->t >= V_BIG) *p = Val(); else p->t = V_NIL; } e->sp = base; } };

// ------------------------------------------------------------------ expression nodes
struct ConstX : X { Val v; ConstX(Val v) : v(v) {} Val ev(Val*) override { return v; } const Val* peek(Val*, Val&) override { return &v; } };
struct ConstRefX : X { const Val* v; ConstRefX(const Val* v) : v(v) {} Val ev(Val*) override { return *v; } const Val* peek(Val*, Val&) override { return v; } };
struct LocalX : X { int s; LocalX(int s) : s(s) {} Val ev(Val* fp) override { return fp[s]; } const Val* peek(Val* fp, Val&) override { return &fp[s]; } Val* lv(Val* fp) override { return &fp[s]; } };
struct RefX : X { int s; RefX(int s) : s(s) {} Val ev(Val* fp) override { return *fp[s].ref; } const Val* peek(Val* fp, Val&) override { return fp[s].ref; } Val* lv(Val* fp) override { return fp[s].ref; } };
struct MoveX : X { X* l; MoveX(X* l) : l(l) {} Val ev(Val* fp) override { Val* p = l->lv(fp); return std::move(*p); } };
struct CoerceX : X { X* e; IT k; CoerceX(X* e, IT k) : e(e), k(k) {} Val ev(Val* fp) override { return coerceV(e->ev(fp), k); } };
struct FieldX : X {
  X* b; string n; CtorDecl* cc = nullptr; int ci = -1; Decl* kc = nullptr; int ki = -1;
  FieldX(X* b, const string& n) : b(b), n(n) {}
  int idx(const Val& v) {
    if (v.t == V_DT) {
      CtorDecl* c = ((DtObj*)v.o)->c;
      if (c == cc) return ci;
      for (size_t i = 0; i < c->fields.size(); i++) if (c->fields[i].name == n) { cc = c; ci = (int)i; return ci; }
      return -1;
    }
    if (v.t == V_OBJ) {
      Decl* k = ((ClsObj*)v.o)->cls; if (k == kc) return ki;
      ClsInfo* ci2 = clsInfo(k); auto q = ci2->idx.find(n); if (q == ci2->idx.end()) return -1; kc = k; ki = q->second; return ki;
    }
    if (v.t == V_NULL) throw DafnyError("null dereference reading ." + n);
    return -1;
  }
  Val special(const Val& v) {
    switch (v.t) {
      case V_ARR: if (n == "Length") return Val::Int(((ArrObj*)v.o)->buf->n); break;
      case V_MAP: if (n == "Keys") return seqOfMap(v, 0); if (n == "Values") return seqOfMap(v, 1); if (n == "Items") return seqOfMap(v, 2); break;
      case V_REAL: if (n == "Floor") return Val::Int((i128)__builtin_floor(R(v))); break;
      case V_DT: {
        DtObj* d = (DtObj*)v.o;
        if (n.size() > 1 && n.back() == '?') { string q = n.substr(0, n.size() - 1); if (d->c->name == q) return Val::B(true); for (auto c : d->c->dt->ctors) if (c->name == q) return Val::B(false); }
        Decl* m = findMember(d->c->dt, n);
        if (m && m->k == D_CONST) { Val r; FnCode* f = EN->code(m); FrameGuard g(EN, (EN->prepare(f), f->nslots)); if (f->self) g.base[0] = v; EN->invoke(f, g.base, r); return r; }
        if (m) { FunObj* f = new FunObj; f->rc = 1; f->t = V_FUN; f->d = m; f->self = v; return Val::own(V_FUN, f); }
        throw DafnyError("destructor ." + n + " applied to " + d->c->dt->name + "." + d->c->name);
      }
      case V_OBJ: { Decl* m = findMember(((ClsObj*)v.o)->cls, n); if (m && m->k == D_FN) { FunObj* f = new FunObj; f->rc = 1; f->t = V_FUN; f->d = m; f->self = v; return Val::own(V_FUN, f); } break; }
      default: break;
    }
    throw Unsupported("engine: no member " + n + " on value of tag " + std::to_string(v.t) + " line " + std::to_string(line));
  }
  Val ev(Val* fp) override { Val t; const Val* v = b->peek(fp, t); int i = idx(*v); if (i < 0) return special(*v); return v->t == V_DT ? ((DtObj*)v->o)->f()[i] : ((ClsObj*)v->o)->f[i]; }
  const Val* peek(Val* fp, Val& tmp) override {
    Val t; const Val* v = b->peek(fp, t); int i = idx(*v); if (i < 0) { tmp = special(*v); return &tmp; }
    const Val* r = v->t == V_DT ? &((DtObj*)v->o)->f()[i] : &((ClsObj*)v->o)->f[i];
    if (v == &t) { tmp = *r; return &tmp; }
    return r;
  }
  Val* lv(Val* fp) override {
    Val t0; const Val* pk = nullptr;
    // class objects are references: evaluate; datatypes are values: need an lvalue base
    Val* v;
    try { v = b->lv(fp); } catch (Unsupported&) { pk = b->peek(fp, t0); if (pk->t != V_OBJ) throw; v = (Val*)pk; }
    int i = idx(*v);
    if (i < 0) { if (v->t == V_DT) throw DafnyError("destructor ." + n + " applied to " + ((DtObj*)v->o)->c->name); throw Unsupported("engine: no field " + n); }
    if (v->t == V_OBJ) return &((ClsObj*)v->o)->f[i];
    DtObj* d = (DtObj*)v->o;
    if (d->rc > 1) { vector<Val> f(d->f(), d->f() + d->n); *v = mkDt(d->c, f); d = (DtObj*)v->o; }
    return &d->f()[i];
  }
};
struct TestX : X {   // b.Ctor?
  X* b; string n; CtorDecl* yes = nullptr; CtorDecl* no = nullptr;
  TestX(X* b, const string& n) : b(b), n(n) {}
  Val ev(Val* fp) override {
    Val t; const Val* v = b->peek(fp, t); need(*v, V_DT, "a datatype");
    CtorDecl* c = ((DtObj*)v->o)->c; if (c == yes) return Val::B(true); if (c == no) return Val::B(false);
    bool r = c->name == n; (r ? yes : no) = c; return Val::B(r);
  }
};
struct BinX : X {
  Op op; X *l, *r; BinX(Op o, X* l, X* r) : op(o), l(l), r(r) {}
  Val ev(Val* fp) override {
    Val t1, t2; const Val* a = l->peek(fp, t1);
    if (a != &t1 && a->t >= V_BIG && op != O_EQ && op != O_NE && op != O_IN && op != O_NIN) { t1 = *a; a = &t1; }
    else if (a != &t1 && a->t < V_REF) { t1 = *a; a = &t1; }
    const Val* b = r->peek(fp, t2);
    if (a->t == V_INT && b->t == V_INT) {
      IT k = a->it == I_LIT ? b->it : a->it;
      if (k == I_U64) {
        uint64_t x = a->u, y = b->u;
        if ((a->it == I_U64 || a->i >= 0) && (b->it == I_U64 || b->i >= 0))
        switch (op) {
          case O_ADD: return Val::U64(x + y); case O_SUB: return Val::U64(x - y); case O_MUL: return Val::U64(x * y);
          case O_EQ: return Val::B(x == y); case O_NE: return Val::B(x != y); case O_LT: return Val::B(x < y); case O_LE: return Val::B(x <= y); case O_GT: return Val::B(x > y); case O_GE: return Val::B(x >= y);
          case O_DIV: if (y) return Val::U64(x / y); break; case O_MOD: if (y) return Val::U64(x % y); break;
          default: break;
        }
      } else if (a->it != I_U64 && b->it != I_U64) {
        int64_t x = a->i, y = b->i, z;
        switch (op) {
          case O_EQ: return Val::B(x == y); case O_NE: return Val::B(x != y); case O_LT: return Val::B(x < y); case O_LE: return Val::B(x <= y); case O_GT: return Val::B(x > y); case O_GE: return Val::B(x >= y);
          case O_ADD: if (k <= I_INT && !__builtin_add_overflow(x, y, &z)) return Val::raw(k, (uint64_t)z); break;
          case O_SUB: if (k <= I_INT && !__builtin_sub_overflow(x, y, &z)) return Val::raw(k, (uint64_t)z); break;
          default: break;
        }
      }
    }
    if (op == O_ADD && a->t == V_SEQ) return binOp(op, *a, *b);
    return binOp(op, *a, *b);
  }
};
struct AndX : X { X *l, *r; AndX(X* l, X* r) : l(l), r(r) {} Val ev(Val* fp) override { return Bo(l->ev(fp)) ? r->ev(fp) : Val::B(false); } };
struct OrX : X { X *l, *r; OrX(X* l, X* r) : l(l), r(r) {} Val ev(Val* fp) override { return Bo(l->ev(fp)) ? Val::B(true) : r->ev(fp); } };
struct ImpX : X { X *l, *r; ImpX(X* l, X* r) : l(l), r(r) {} Val ev(Val* fp) override { return Bo(l->ev(fp)) ? r->ev(fp) : Val::B(true); } };
struct NotX : X { X* e; NotX(X* e) : e(e) {} Val ev(Val* fp) override { Val v = e->ev(fp); if (v.t == V_INT) return mkI(~I(v), v.it); return Val::B(!Bo(v)); } };
struct NegX : X { X* e; NegX(X* e) : e(e) {} Val ev(Val* fp) override { Val v = e->ev(fp); if (v.t == V_REAL) return mkReal(-R(v)); return mkI(-I(v), v.it); } };
struct CondX : X { X *c, *a, *b; CondX(X* c, X* a, X* b) : c(c), a(a), b(b) {} Val ev(Val* fp) override { return Bo(c->ev(fp)) ? a->ev(fp) : b->ev(fp); } const Val* peek(Val* fp, Val& t) override { return Bo(c->ev(fp)) ? a->peek(fp, t) : b->peek(fp, t); } };
struct IndexX : X {
  X *b, *i; IndexX(X* b, X* i) : b(b), i(i) {}
  Val ev(Val* fp) override { Val t1, t2; const Val* x = b->peek(fp, t1); if (x != &t1) { t1 = *x; x = &t1; } const Val* y = i->peek(fp, t2); if (y->t == V_INT && (x->t == V_SEQ || x->t == V_ARR) && (y->it == I_U64 || y->i >= 0)) return seqGet(*x, y->u); return indexOf(*x, *y); }
  Val* lv(Val* fp) override {
    Val t; const Val* p = b->peek(fp, t);
    Val iv = i->ev(fp); i128 k = I(iv);
    if (p->t == V_ARR) { Buf* q = ((ArrObj*)p->o)->buf; if (k < 0 || k >= (i128)q->n) throw DafnyError("array index out of range"); if (q->bytes) throw Unsupported("reference to an element of a byte array"); return &q->v[(uint64_t)k]; }
    Val* v = b->lv(fp); need(*v, V_SEQ, "a sequence"); SeqObj* s = (SeqObj*)v->o; if (k < 0 || k >= (i128)s->len) throw DafnyError("sequence index out of range");
    Val cur = seqGet(*v, (uint64_t)k);
    if (s->rc > 1) { *v = seqUpdate(*v, (uint64_t)k, cur); s = (SeqObj*)v->o; }
    if (s->buf->bytes || s->buf->rc > 1) { Buf* r = newBuf(false, s->len); for (uint64_t j = 0; j < s->len; j++) r->v[j] = seqGet(*v, j); bufUnref(s->buf); s->buf = r; s->off = 0; }
    return &s->buf->v[s->off + (uint64_t)k];
  }
  void assign(Val* fp, Val&& x) override {
    Val t; const Val* p = b->peek(fp, t); Val iv = i->ev(fp); i128 k = I(iv);
    if (k < 0) throw DafnyError("negative index");
    if (p->t == V_ARR) { Val a = *p; seqSetInPlace(a, (uint64_t)k, x); return; }
    if (p->t == V_NULL) throw DafnyError("null array");
    Val* v = b->lv(fp); need(*v, V_SEQ, "a sequence");
    if (((SeqObj*)v->o)->rc > 1) *v = seqUpdate(*v, (uint64_t)k, x); else seqSetInPlace(*v, (uint64_t)k, x);
  }
};
struct SliceX : X {
  X *b, *lo, *hi; SliceX(X* b, X* l, X* h) : b(b), lo(l), hi(h) {}
  Val ev(Val* fp) override {
    Val v = b->ev(fp); if (v.t == V_NULL) throw DafnyError("null array");
    i128 n = v.t == V_ARR ? (i128)((ArrObj*)v.o)->buf->n : (need(v, V_SEQ, "a sequence"), (i128)seqLen(v));
    i128 a = lo ? I(lo->ev(fp)) : 0, e = hi ? I(hi->ev(fp)) : n;
    if (a < 0 || e < a || e > n) throw DafnyError("slice [" + show(Val::Int(a)) + ".." + show(Val::Int(e)) + "] out of range (length " + show(Val::Int(n)) + ")");
    return seqSlice(v, (uint64_t)a, (uint64_t)e);
  }
};
struct UpdateX : X { X* b; XV kv; Val ev(Val* fp) override { Val v = b->ev(fp); for (size_t i = 0; i < kv.size(); i += 2) { Val k = kv[i]->ev(fp); Val x = kv[i+1]->ev(fp); v = updateOf(v, k, x); } return v; } };
struct DtUpdX : X {
  X* b; vector<string> n; XV v; vector<IT> k;
  Val ev(Val* fp) override {
    Val x = b->ev(fp); need(x, V_DT, "a datatype"); DtObj* d = (DtObj*)x.o;
    vector<Val> f(d->f(), d->f() + d->n); CtorDecl* c = d->c;
    // the constructor is the one that has all the named fields
    auto has = [&](CtorDecl* q) { for (auto& nm : n) { bool h = false; for (auto& p : q->fields) if (p.name == nm) h = true; if (!h) return false; } return true; };
    if (!has(c)) throw DafnyError("update of field " + n[0] + " on constructor " + c->name);
    for (size_t i = 0; i < n.size(); i++) { if (!v[i]) continue; Val y = v[i]->ev(fp); for (size_t j = 0; j < c->fields.size(); j++) if (c->fields[j].name == n[i]) f[j] = coerceV(std::move(y), k[i]); }
    return mkDt(c, f);
  }
};
struct CardX : X { X* e; CardX(X* e) : e(e) {} Val ev(Val* fp) override { Val t; return Val::Int(cardOf(*e->peek(fp, t))); } };
struct CtorX : X {
  CtorDecl* c; XV a; vector<IT> k;
  Val ev(Val* fp) override {
    size_t n = a.size(); Val small[8]; vector<Val> big; Val* f = small; if (n > 8) { big.resize(n); f = big.data(); }
    for (size_t i = 0; i < n; i++) if (a[i]) f[i] = coerceV(a[i]->ev(fp), k[i]);
    vector<Val> v(std::make_move_iterator(f), std::make_move_iterator(f + n));
    return mkDt(c, v);
  }
};
struct TupleX : X { XV a; Val ev(Val* fp) override { vector<Val> v; v.reserve(a.size()); for (auto x : a) v.push_back(x ? x->ev(fp) : Val()); return mkTuple(v); } };
struct SeqX : X { XV a; IT k = I_NONE; Val ev(Val* fp) override { vector<Val> v; v.reserve(a.size()); for (auto x : a) v.push_back(coerceV(x->ev(fp), k)); return mkSeqVals(std::move(v)); } };
struct SetX : X { XV a; bool ms = false; Val ev(Val* fp) override { Val r = ms ? mkMset() : mkSet(); for (auto x : a) { Val v = x->ev(fp); auto& c = ((SetObj*)r.o)->m[v]; c = ms ? c + 1 : 1; } return r; } };
struct MapX : X { XV a; Val ev(Val* fp) override { Val r = mkMap(); for (size_t i = 0; i < a.size(); i += 2) { Val k = a[i]->ev(fp); ((MapObj*)r.o)->m[k] = a[i+1]->ev(fp); } return r; } };
struct MsConvX : X { X* e; Val ev(Val* fp) override { Val v = e->ev(fp); Val r = mkMset(); if (v.t == V_SEQ) { for (uint64_t i = 0; i < seqLen(v); i++) ((SetObj*)r.o)->m[seqGet(v, i)]++; } else for (auto& x : ((SetObj*)v.o)->m) ((SetObj*)r.o)->m[x.first] = 1; return r; } };
struct AsX : X {
  X* e; RT t; AsX(X* e, RT t) : e(e), t(t) {}
  Val ev(Val* fp) override {
    Val v = e->ev(fp);
    if (t.k == RT::INT) { if (v.t == V_REAL) return Val::Int((i128)R(v), t.it); return convInt(v.t == V_CHAR ? Val::Int((i128)v.u) : v, t.it); }
    if (t.k == RT::CHAR) return Val::Char((uint32_t)I(v));
    if (t.k == RT::REAL && v.isInt()) return mkReal((double)I(v));
    return v;
  }
};
struct LetX : X { int slot; X *e, *body; LetX(int s, X* e, X* b) : slot(s), e(e), body(b) {} Val ev(Val* fp) override { fp[slot] = e->ev(fp); return body->ev(fp); } const Val* peek(Val* fp, Val& t) override { fp[slot] = e->ev(fp); return body->peek(fp, t); } };
struct SeqCompX : X {
  X *n, *f;
  Val ev(Val* fp) override { i128 k = I(n->ev(fp)); Val fn = f->ev(fp); if (k < 0 || k > 100000000) throw DafnyError("seq comprehension length"); vector<Val> v; for (i128 i = 0; i < k; i++) v.push_back(EN->apply(fn, {Val::Int(i)})); return mkSeqVals(std::move(v)); }
};
// ---- patterns
struct Pat {
  enum K { ANY, BIND, CTOR, LIT } k = ANY; int slot = -1; string cname; CtorDecl* cc = nullptr; bool tuple = false; vector<Pat*> sub; X* lit = nullptr; IT it = I_NONE;
  bool match(Val& v, Val* fp, bool mv) {
    switch (k) {
      case ANY: return true;
      case BIND: if (slot >= 0) { if (mv) fp[slot] = std::move(v); else fp[slot] = v; if (it != I_NONE) fp[slot] = coerceV(std::move(fp[slot]), it); } return true;
      case LIT: return valEq(v, lit->ev(fp));
      case CTOR: {
        if (v.t != V_DT) { if (v.t == V_NULL) throw DafnyError("null"); throw Unsupported("engine: constructor pattern " + cname + " on tag " + std::to_string(v.t)); }
        DtObj* d = (DtObj*)v.o;
        if (!tuple && d->c != cc) { if (d->c->name != cname) return false; cc = d->c; }
        if (sub.empty()) return true;
        if (sub.size() != d->n) throw Unsupported("engine: pattern arity of " + cname);
        bool m2 = mv && d->rc == 1;
        for (size_t i = 0; i < sub.size(); i++) { if (m2 && sub[i]->k != BIND && sub[i]->k != ANY) { Val c = d->f()[i]; if (!sub[i]->match(c, fp, false)) return false; } }
        for (size_t i = 0; i < sub.size(); i++) { if (m2 && (sub[i]->k == BIND || sub[i]->k == ANY)) { sub[i]->match(d->f()[i], fp, true); } else if (!m2 && !sub[i]->match(d->f()[i], fp, false)) return false; }
        return true;
      }
    }
    return false;
  }
};
struct MatchX : X {
  X* s; vector<Pat*> p; XV b; bool mv = false;
  Val ev(Val* fp) override {
    Val v = s->ev(fp);
    for (size_t i = 0; i < p.size(); i++) if (p[i]->match(v, fp, mv)) { v = Val(); return b[i]->ev(fp); }
    throw DafnyError("no match case for " + show(v, 2));
  }
};
struct LetPatX : X { Pat* p; X *e, *body; bool mv; Val ev(Val* fp) override { Val v = e->ev(fp); if (!p->match(v, fp, mv)) throw DafnyError("let pattern mismatch"); v = Val(); return body->ev(fp); } };

// ---- calls
struct Arg { X* e = nullptr; X* l = nullptr; };      // value / lvalue forms
struct LambdaCode { int np = 0, nslots = 0; vector<int> capFrom, capTo; X* body = nullptr; vector<char> capRef; };
struct CallX : X {
  Decl* d = nullptr; FnCode* f = nullptr; string dyn; X* recv = nullptr; bool virt = false; vector<Arg> args;
  Decl* cacheT = nullptr; FnCode* cacheF = nullptr;
  FnCode* target(const Val* self) {
    if (f && !virt) return f;
    if (!self) throw Unsupported("engine: dynamic call of " + dyn + " without receiver");
    Decl* t = nullptr;
    if (self->t == V_DT) t = ((DtObj*)self->o)->c->dt; else if (self->t == V_OBJ) t = ((ClsObj*)self->o)->cls; else if (self->t == V_NULL) throw DafnyError("null dereference calling ." + dyn);
    if (!t) { if (f) return f; throw Unsupported("engine: call of ." + dyn + " on tag " + std::to_string(self->t) + " line " + std::to_string(line)); }
    if (t == cacheT) return cacheF;
    Decl* m = findMember(t, dyn);
    if (m && virt && f && m->bodyBegin < 0 && f->d->bodyBegin >= 0) m = f->d;
    if (!m) { if (f) return f; return nullptr; }
    cacheT = t; cacheF = EN->code(m); return cacheF;
  }
  template<class K> void run(Val* fp, K&& k) {
    Val rt; const Val* self = nullptr; Val* selfL = nullptr;
    FnCode* c = f;
    if (!f || virt) { Val t; self = recv->peek(fp, t); c = target(self); 
      if (!c) { // field holding a function value
        FieldX fx(recv, dyn); Val fv = fx.ev(fp); vector<Val> a; for (auto& x : args) a.push_back(x.e ? x.e->ev(fp) : Val()); Val r = EN->apply(fv, a); k(nullptr, (Val*)nullptr, r); return; } }
    if (!c->ready) EN->prepare(c);
    if (++EN->steps > EN->stepLimit) throw DafnyHang("step limit reached in " + c->full);
    FrameGuard g(EN, c->nslots); Val* nf = g.base;
    if (c->self) { if (!recv) throw Unsupported("engine: receiver missing for " + c->full); if (c->selfRef) { selfL = recv->lv(fp); nf[0] = Val::Ref(selfL); } else nf[0] = recv->ev(fp); if (nf[0].t == V_NULL) throw DafnyError("null dereference calling " + c->full); }
    size_t n = args.size(); if ((int)n != c->np) throw Unsupported("engine: arity of call to " + c->full + " line " + std::to_string(line));
    for (size_t i = 0; i < n; i++) {
      Val& s = nf[c->self + i];
      if (c->pskip[i]) continue;
      if (c->pref[i]) { if (!args[i].l) throw Unsupported("engine: inout argument is not an lvalue, calling " + c->full); s = Val::Ref(args[i].l->lv(fp)); }
      else if (args[i].e) s = coerceV(args[i].e->ev(fp), c->pk[i]);
    }
    Val ret; EN->invoke(c, nf, ret); k(c, nf, ret);
  }
  Val ev(Val* fp) override {
    Val out;
    run(fp, [&](FnCode* c, Val* nf, Val& ret) {
      if (!c || c->isFn) { out = std::move(ret); return; }
      if (c->no == 1) { out = std::move(nf[c->self + c->np]); return; }
      int vis = -1, cnt = 0; for (int i = 0; i < c->no; i++) if (!c->oskip[i]) { vis = i; cnt++; }
      if (cnt == 1) out = std::move(nf[c->self + c->np + vis]);
      else if (cnt > 1) { vector<Val> v; for (int i = 0; i < c->no; i++) v.push_back(std::move(nf[c->self + c->np + i])); out = mkTuple(v); }
    });
    return out;
  }
};
struct CallValX : X { X* f; XV a; Val ev(Val* fp) override { Val fn = f->ev(fp); vector<Val> v; for (auto x : a) v.push_back(x ? x->ev(fp) : Val()); return EN->apply(fn, std::move(v)); } };
struct LambdaX : X {
  LambdaCode* c;
  Val ev(Val* fp) override { FunObj* f = new FunObj; f->rc = 1; f->t = V_FUN; f->lam = c; for (size_t i = 0; i < c->capFrom.size(); i++) f->caps.push_back(c->capRef[i] ? *fp[c->capFrom[i]].ref : fp[c->capFrom[i]]); return Val::own(V_FUN, f); }
};
struct FnValX : X { Decl* d; Val v; FnValX(Decl* d) : d(d) {} Val ev(Val*) override { if (v.t == V_NIL) { FunObj* f = new FunObj; f->rc = 1; f->t = V_FUN; f->d = d; v = Val::own(V_FUN, f); } return v; } };
struct NewObjX : X { Decl* cls; CallX* ctor = nullptr; int slot; Val ev(Val* fp) override { fp[slot] = EN->newObj(cls); if (ctor) ctor->ev(fp); return std::move(fp[slot]); } };
struct NewArrX : X {
  X* n; RT et; X* init = nullptr; X* disp = nullptr;
  Val ev(Val* fp) override {
    i128 k = n ? I(n->ev(fp)) : -1; Val dv; if (disp) { dv = disp->ev(fp); if (k < 0) k = seqLen(dv); }
    if (k < 0 || k > ((i128)1 << 34)) throw DafnyError("array size");
    Buf* b = newBuf(et.k == RT::INT && et.it == I_U8, (uint64_t)k); Val r = mkArr(b);
    if (b->bytes) { if (disp) { for (uint64_t i = 0; i < (uint64_t)k; i++) b->b[i] = (uint8_t)I(seqGet(dv, i)); } else if (init) { Val f = init->ev(fp); for (uint64_t i = 0; i < (uint64_t)k; i++) { uint8_t x = (uint8_t)I(EN->apply(f, {Val::Int(i)})); b->b[i] = x; } } }
    else {
      Val f; if (init) f = init->ev(fp);
      Val d0 = defaultOf(et);
      for (uint64_t i = 0; i < (uint64_t)k; i++) b->v[i] = disp ? coerceV(seqGet(dv, i), et.it) : init ? coerceV(EN->apply(f, {Val::Int(i)}), et.it) : d0;
    }
    return r;
  }
};
// ---- bounded enumeration
struct Dom { int slot; IT it; enum K { IN, RANGE, EQ, BOOL, DT, BYTE, NONE } k = NONE; X* a = nullptr; vector<std::pair<X*, int>> lo, hi; Decl* d = nullptr; string name; };
struct EnumX {
  vector<Dom> doms; X* cond = nullptr;
  template<class K> bool go(Val* fp, size_t i, K&& k) {     // k returns false to stop
    if (i == doms.size()) { if (++EN->steps > EN->stepLimit) throw DafnyHang("step limit reached in a comprehension"); if (cond && !Bo(cond->ev(fp))) return true; return k(); }
    Dom& d = doms[i];
    switch (d.k) {
      case Dom::BOOL: for (int b = 0; b < 2; b++) { fp[d.slot] = Val::B(b); if (!go(fp, i + 1, k)) return false; } return true;
      case Dom::DT: for (auto c : d.d->ctors) { fp[d.slot] = mkDt(c, {}); if (!go(fp, i + 1, k)) return false; } return true;
      case Dom::EQ: fp[d.slot] = coerceV(d.a->ev(fp), d.it); return go(fp, i + 1, k);
      case Dom::BYTE: for (int b = 0; b < 256; b++) { fp[d.slot] = Val::U8((uint8_t)b); if (!go(fp, i + 1, k)) return false; } return true;
      case Dom::IN: {
        Val s = d.a->ev(fp);
        if (s.t == V_SEQ) { for (uint64_t j = 0; j < seqLen(s); j++) { fp[d.slot] = seqGet(s, j); if (!go(fp, i + 1, k)) return false; } }
        else if (s.t == V_MAP) { for (auto& x : ((MapObj*)s.o)->m) { fp[d.slot] = x.first; if (!go(fp, i + 1, k)) return false; } }
        else if (s.t == V_SET || s.t == V_MSET) { for (auto& x : ((SetObj*)s.o)->m) { fp[d.slot] = x.first; if (!go(fp, i + 1, k)) return false; } }
        else throw Unsupported("engine: enumeration over tag " + std::to_string(s.t));
        return true;
      }
      case Dom::RANGE: {
        bool any = false; i128 lo = 0, hi = 0;
        for (auto& x : d.lo) { i128 v = I(x.first->ev(fp)) + x.second; if (!any || v > lo) lo = v; any = true; }
        any = false; for (auto& x : d.hi) { i128 v = I(x.first->ev(fp)) + x.second; if (!any || v < hi) hi = v; any = true; }
        for (i128 v = lo; v < hi; v++) { fp[d.slot] = mkI(v, d.it == I_NONE ? I_INT : d.it); if (!go(fp, i + 1, k)) return false; }
        return true;
      }
      default: throw Unsupported("engine: cannot bound quantified variable " + d.name);
    }
  }
};
struct QuantX : X { EnumX e; X* body; bool all; Val ev(Val* fp) override { bool r = all; e.go(fp, 0, [&]() { if (Bo(body->ev(fp)) != all) { r = !all; return false; } return true; }); return Val::B(r); } };
struct SetCompX : X { EnumX e; X* body; Val ev(Val* fp) override { Val r = mkSet(); e.go(fp, 0, [&]() { ((SetObj*)r.o)->m[body->ev(fp)] = 1; return true; }); return r; } };
struct MapCompX : X { EnumX e; X *k, *v; Val ev(Val* fp) override { Val r = mkMap(); e.go(fp, 0, [&]() { Val kk = k->ev(fp); ((MapObj*)r.o)->m[kk] = v->ev(fp); return true; }); return r; } };
struct SuchThatX : X {    // binds the slots to some satisfying assignment
  EnumX e; vector<int> slots; bool orFalse = false;
  Val ev(Val* fp) override {
    vector<vector<Val>> found; bool rnd = (bool)EN->choose;
    e.go(fp, 0, [&]() { vector<Val> r; for (int s : slots) r.push_back(fp[s]); found.push_back(r); return rnd && found.size() < 4096; });
    if (found.empty()) { if (orFalse) return Val::B(false); throw DafnyError("assign-such-that: no value satisfies the predicate"); }
    size_t i = rnd && found.size() > 1 ? (size_t)EN->choose(found.size()) : 0;
    for (size_t j = 0; j < slots.size(); j++) fp[slots[j]] = found[i][j];
    return Val::B(true);
  }
};
struct LetSuchX : X { SuchThatX* s; X* body; Val ev(Val* fp) override { s->ev(fp); return body->ev(fp); } };
struct IfSuchX : X { SuchThatX* s; X *a, *b; Val ev(Val* fp) override { return Bo(s->ev(fp)) ? a->ev(fp) : b->ev(fp); } };
struct ConstFnX : X { FnCode* f; Val v; bool have = false; Val ev(Val*) override { if (!have) { EN->prepare(f); Val r; FrameGuard g(EN, f->nslots); EN->invoke(f, g.base, r); v = r; have = true; } return v; } const Val* peek(Val* fp, Val& t) override { if (!have) ev(fp); return &v; } };

// ------------------------------------------------------------------ statements
static string g_brk;
struct BlockS : X { XV s; Val ev(Val*) override { return Val(); } int ex(Val* fp) override { for (auto x : s) { int r = x->ex(fp); if (r) return r; } return 0; } };
struct AssignS : X { X* l; X* r; IT k; AssignS(X* l, X* r, IT k) : l(l), r(r), k(k) {} Val ev(Val*) override { return Val(); } int ex(Val* fp) override { l->assign(fp, coerceV(r->ev(fp), k)); return 0; } };
struct MultiS : X { XV l, r; vector<IT> k; Val ev(Val*) override { return Val(); } int ex(Val* fp) override { vector<Val> v(r.size()); for (size_t i = 0; i < r.size(); i++) if (r[i]) v[i] = coerceV(r[i]->ev(fp), k[i]); for (size_t i = 0; i < r.size(); i++) if (r[i] && l[i]) l[i]->assign(fp, std::move(v[i])); return 0; } };
struct CallS : X { CallX* c; XV l; vector<IT> k; Val ev(Val*) override { return Val(); }
  int ex(Val* fp) override {
    Val small[4]; vector<Val> big; size_t n = l.size(); Val* v = small; if (n > 4) { big.resize(n); v = big.data(); }
    c->run(fp, [&](FnCode* f, Val* nf, Val& ret) {
      if (!f || f->isFn) { if (n >= 1) v[0] = std::move(ret); return; }
      for (size_t i = 0; i < n && (int)i < f->no; i++) if (l[i]) v[i] = std::move(nf[f->self + f->np + i]);
    });
    for (size_t i = 0; i < n; i++) if (l[i]) l[i]->assign(fp, coerceV(std::move(v[i]), k[i]));
    return 0;
  } };
struct IfS : X { X* c; X *a = nullptr, *b = nullptr; Val ev(Val*) override { return Val(); } int ex(Val* fp) override { Val t; const Val* v = c->peek(fp, t); if (Bo(*v)) return a ? a->ex(fp) : 0; return b ? b->ex(fp) : 0; } };
struct WhileS : X { X* c; X* b; Val ev(Val*) override { return Val(); }
  int ex(Val* fp) override {
    for (;;) {
      { Val t; if (!Bo(*c->peek(fp, t))) return 0; }
      if (++EN->steps > EN->stepLimit) throw DafnyHang("step limit reached in a loop (line " + std::to_string(line) + ")");
      int r = b->ex(fp); if (r == 2) return 2; if (r == 1) { if (g_brk.empty()) return 0; return 1; }
    }
  } };
struct LabelS : X { string n; X* b; Val ev(Val*) override { return Val(); } int ex(Val* fp) override { int r = b->ex(fp); if (r == 1 && g_brk == n) { g_brk.clear(); return 0; } return r; } };
struct BreakS : X { string n; Val ev(Val*) override { return Val(); } int ex(Val*) override { g_brk = n; return 1; } };
struct MatchS : X { X* s; vector<Pat*> p; XV b; bool mv = false; Val ev(Val*) override { return Val(); }
  int ex(Val* fp) override { Val v = s->ev(fp); for (size_t i = 0; i < p.size(); i++) if (p[i]->match(v, fp, mv)) { v = Val(); return b[i] ? b[i]->ex(fp) : 0; } throw DafnyError("no match case for " + show(v, 2)); } };
struct PatS : X { Pat* p; X* e; bool mv; Val ev(Val*) override { return Val(); } int ex(Val* fp) override { Val v = e->ev(fp); if (!p->match(v, fp, mv)) throw DafnyError("pattern mismatch for " + show(v, 2)); return 0; } };
struct RetS : X { X* a = nullptr; Val ev(Val*) override { return Val(); } int ex(Val* fp) override { if (a) a->ex(fp); return 2; } };
struct ExprS : X { X* e; Val ev(Val*) override { return Val(); } int ex(Val* fp) override { e->ev(fp); return 0; } };
struct PrintS : X { XV a; Val ev(Val*) override { return Val(); } int ex(Val* fp) override { if (EN->keepOut) for (auto x : a) { Val v = x->ev(fp); if (v.t == V_SEQ && seqLen(v) && seqGet(v, 0).t == V_CHAR) { for (uint64_t i = 0; i < seqLen(v); i++) EN->out += (char)seqGet(v, i).u; } else EN->out += show(v, 3); } return 0; } };
struct ExpectS : X { X* e; Val ev(Val*) override { return Val(); } int ex(Val* fp) override { if (!Bo(e->ev(fp))) throw DafnyError("expect failed at line " + std::to_string(line)); return 0; } };
struct ForallS : X { EnumX e; X* b; Val ev(Val*) override { return Val(); } int ex(Val* fp) override { e.go(fp, 0, [&]() { b->ex(fp); return true; }); return 0; } };
struct AltS : X { XV c, b; bool loop; Val ev(Val*) override { return Val(); }
  int ex(Val* fp) override {
    for (;;) {
      vector<size_t> en; for (size_t i = 0; i < c.size(); i++) if (Bo(c[i]->ev(fp))) en.push_back(i);
      if (en.empty()) { if (loop) return 0; throw DafnyError("no alternative enabled"); }
      size_t i = en[EN->choose && en.size() > 1 ? EN->choose(en.size()) : 0];
      if (++EN->steps > EN->stepLimit) throw DafnyHang("step limit");
      int r = b[i] ? b[i]->ex(fp) : 0;
      if (!loop) return r;
      if (r == 2) return 2; if (r == 1) { if (g_brk.empty()) return 0; return 1; }
    }
  } };
struct StarX : X { Val ev(Val*) override { return Val::B(EN->choose ? EN->choose(2) : 0); } };
struct UnsupX : X { string m; UnsupX(string m) : m(m) {} Val ev(Val*) override { throw Unsupported(m); } int ex(Val*) override { throw Unsupported(m); } };

// ------------------------------------------------------------------ compiler
struct Local { string name; int slot; RT ty; bool ghost = false, lin = false, ref = false; };
static std::unordered_map<string, int>* g_byName = nullptr;   // member name -> bit0: some non-ghost, bit1: some ghost
static void indexMembers() {
  g_byName = new std::unordered_map<string, int>;
  for (auto m : EN->P.allModules) for (auto d : m->decls) {
    for (auto x : d->members) (*g_byName)[x->name] |= x->ghost ? 2 : 1;
    for (auto c : d->ctors) for (auto& f : c->fields) (*g_byName)[f.name] |= f.ghost ? 2 : 1;
  }
}
struct Head { enum K { NONE, LOCAL, THISF, ENT, MEMBER, THISDISC } k = NONE; int li = -1; Ent e; Ast* recv = nullptr; string name; Decl* md = nullptr; };

struct Comp {
  FnCode* f; Decl* d; Module* m; Decl* owner; Comp* outer = nullptr; LambdaCode* lam = nullptr;
  vector<Local> L; int nslots = 0; bool ghostCtx = false;
  std::unordered_map<Ast*, RT> tmemo;
  TCtx tc() { return TCtx{m, owner, d, nullptr}; }
  RT rty(Type* t) { return resolveType(t, tc()); }
  int slot() { return nslots++; }
  int addLocal(const string& n, RT t, bool ghost = false, bool lin = false, bool ref = false) { L.push_back(Local{n, ghost && !ghostCtx ? -1 : slot(), t, ghost && !ghostCtx, lin, ref}); return (int)L.size() - 1; }
  int pseudo(const string& n, RT t, bool ghost = false) { L.push_back(Local{n, -2, t, ghost && !ghostCtx, false, false}); return (int)L.size() - 1; }
  [[noreturn]] void bad(Ast* a, const string& s) { throw Unsupported("engine: " + a->file->path + ":" + std::to_string(a->line) + ": " + s); }
  int findLocal(const string& n) {
    for (int i = (int)L.size() - 1; i >= 0; i--) if (L[i].name == n) return i;
    if (outer) {
      int o = outer->findLocal(n); if (o < 0) return -1;
      Local lo = outer->L[o];
      if (lo.slot == -2 || lo.ghost) { L.insert(L.begin(), Local{n, lo.slot, lo.ty, lo.ghost, false, false}); return findLocal(n); }
      if (lo.slot < 0) { L.insert(L.begin(), Local{n, lo.slot, lo.ty, lo.ghost, false, false}); return findLocal(n); }
      int s = slot(); lam->capFrom.push_back(lo.slot); lam->capRef.push_back(lo.ref); lam->capTo.push_back(s);
      L.insert(L.begin(), Local{n, s, lo.ty, false, false, false});
      return 0;
    }
    return -1;
  }
  bool hasThis() { return findLocal("this") >= 0; }
  X* localX(int i) { Local& l = L[i]; if (l.slot < 0) return new UnsupX("engine: ghost local " + l.name + " used in compiled code, in " + d->name); if (l.ref) return new RefX(l.slot); return new LocalX(l.slot); }

  static bool dtHasField(Decl* t, const string& n, Param** out = nullptr) { for (auto c : t->ctors) for (auto& p : c->fields) if (p.name == n) { if (out) *out = &p; return true; } return false; }
  static bool dtHasCtor(Decl* t, const string& n) { for (auto c : t->ctors) if (c->name == n) return true; return false; }

  Head head(Ast* a) {
    Head h; h.name = a->s;
    if (a->k == E_NAME) {
      string n = a->s; if (n == "self") { int i = findLocal("self"); if (i < 0) i = findLocal("this"); if (i >= 0) { h.k = Head::LOCAL; h.li = i; return h; } }
      int i = findLocal(n); if (i >= 0) { h.k = Head::LOCAL; h.li = i; return h; }
      if (owner) {
        Decl* md = findMember(owner, n);
        if (md) { if (md->isStatic || (md->k == D_CONST && owner->k != D_CLASS && md->isStatic) || !hasThis()) { h.k = Head::ENT; h.e.d = md; return h; } h.k = Head::THISF; h.md = md; return h; }
        if (hasThis()) {
          if (dtHasField(owner, n)) { h.k = Head::THISF; return h; }
          if (n.size() > 1 && n.back() == '?' && dtHasCtor(owner, n.substr(0, n.size() - 1))) { h.k = Head::THISDISC; h.name = n.substr(0, n.size() - 1); return h; }
        }
        for (auto c : owner->ctors) if (c->name == n) { h.k = Head::ENT; h.e = lookupScope(m, n); h.e.c = c; return h; }
      }
      h.e = lookupScope(m, n);
      if (h.e.any()) h.k = Head::ENT;
      return h;
    }
    if (a->k == E_DOT) {
      Ast* b = a->c[0];
      if (b->k == E_NAME || b->k == E_DOT) {
        Head hb = head(b);
        if (hb.k == Head::ENT) {
          if (hb.e.m) { Ent e = lookupIn(hb.e.m, a->s); if (!e.any()) e = lookupScope(hb.e.m, a->s); if (e.any()) { h.k = Head::ENT; h.e = e; return h; } }
          if (hb.e.d && (hb.e.d->k == D_TYPE || hb.e.d->k == D_DATATYPE || hb.e.d->k == D_CLASS)) {
            Decl* t = stripSyn(hb.e.d);
            for (auto c : t->ctors) if (c->name == a->s) { h.k = Head::ENT; h.e.c = c; return h; }
            Decl* md = findMember(t, a->s);
            if (md && !(hb.e.c && !md->isStatic && md->fk != F_CTOR)) { h.k = Head::ENT; h.e.d = md; return h; }
          }
        }
      }
      h.k = Head::MEMBER; h.recv = b;
      return h;
    }
    return h;
  }
  // ---- light type inference
  static void unify(Type* p, const RT& a, Decl* fn, Decl* own, Sub& s) {
    if (!p || a.k == RT::UNK) return;
    if (p->args.empty()) { bool tp = false; if (fn) for (auto& x : fn->tparams) if (x == p->name) tp = true; if (own) for (auto& x : own->tparams) if (x == p->name) tp = true; if (tp && !s.count(p->name)) s[p->name] = a; return; }
    for (size_t i = 0; i < p->args.size() && i < a.a.size(); i++) unify(p->args[i], a.a[i], fn, own, s);
  }
  RT memberType(const RT& b, const string& n) {
    RT r;
    if (b.k == RT::TUP && isdigit((unsigned char)n[0])) { size_t i = atoi(n.c_str()); if (i < b.a.size()) return b.a[i]; return r; }
    if (b.k == RT::ARR && n == "Length") return RT::Int(I_INT);
    if (b.k == RT::MAP) { RT s(RT::SET); if (n == "Keys" && b.a.size() > 0) s.a.push_back(b.a[0]); if (n == "Values" && b.a.size() > 1) s.a.push_back(b.a[1]); return s; }
    if (b.k == RT::DECL) {
      Decl* t = b.d; Sub s; for (size_t i = 0; i < t->tparams.size() && i < b.a.size(); i++) s[t->tparams[i]] = b.a[i];
      Param* p = nullptr; if (dtHasField(t, n, &p)) return resolveType(p->ty, TCtx{t->mod, t, nullptr, &s});
      Decl* md = findMember(t, n); if (md && (md->k == D_FIELD || md->k == D_CONST)) return resolveType(md->ty, TCtx{md->mod, t, nullptr, &s});
      if (n.size() > 1 && n.back() == '?') return RT(RT::BOOL);
    }
    return r;
  }
  RT resultOf(Decl* fn, const RT* recv, const vector<Ast*>& args) {
    Sub s; Decl* own = fn->owner;
    if (own && recv && recv->k == RT::DECL) for (size_t i = 0; i < own->tparams.size() && i < recv->a.size(); i++) s[own->tparams[i]] = recv->a[i];
    if (!fn->tparams.empty() || (own && !own->tparams.empty() && !recv)) for (size_t i = 0; i < fn->params.size() && i < args.size(); i++) unify(fn->params[i].ty, typeOf(args[i]), fn, own, s);
    TCtx c{fn->mod, own, fn, &s};
    if (fn->fk == F_FUNCTION) { if (fn->isPredicate) return RT(RT::BOOL); return resolveType(fn->result, c); }
    if (fn->outs.size() == 1) return resolveType(fn->outs[0].ty, c);
    RT t(RT::TUP); for (auto& o : fn->outs) t.a.push_back(resolveType(o.ty, c)); return t;
  }
  RT ctorType(CtorDecl* c, const vector<Ast*>& args) {
    RT r(RT::DECL); r.d = c->dt; Sub s;
    if (!c->dt->tparams.empty()) { for (size_t i = 0; i < c->fields.size() && i < args.size(); i++) unify(c->fields[i].ty, typeOf(args[i]), nullptr, c->dt, s); for (auto& t : c->dt->tparams) r.a.push_back(s.count(t) ? s[t] : RT()); }
    return r;
  }
  RT typeOf(Ast* a) {
    if (!a) return RT();
    auto i = tmemo.find(a); if (i != tmemo.end()) return i->second;
    tmemo[a] = RT(); RT r = typeOf0(a); tmemo[a] = r; return r;
  }
  RT join(const RT& x, const RT& y) { if (x.k == RT::UNK) return y; if (x.k == RT::INT && x.it == I_LIT) return y.k == RT::INT ? y : x; return x; }
  RT typeOf0(Ast* a) {
    RT r;
    switch (a->k) {
      case E_INT: return RT::Int(I_LIT);
      case E_BOOL: case E_QUANT: case E_FRESH: case E_IS: return RT(RT::BOOL);
      case E_CHR: return RT(RT::CHAR); case E_REAL: return RT(RT::REAL);
      case E_STR: r.k = RT::SEQ; r.a.push_back(RT(RT::CHAR)); return r;
      case E_THIS: { int i = findLocal("this"); if (i >= 0) return L[i].ty; return r; }
      case E_NAME: case E_DOT: {
        Head h = head(a);
        switch (h.k) {
          case Head::LOCAL: return L[h.li].ty;
          case Head::THISDISC: return RT(RT::BOOL);
          case Head::THISF: { int i = findLocal("this"); return memberType(L[i].ty, h.name); }
          case Head::ENT: if (h.e.d && (h.e.d->k == D_CONST || h.e.d->k == D_FIELD)) return resolveType(h.e.d->ty, TCtx{h.e.d->mod, h.e.d->owner, nullptr, nullptr}); if (h.e.c) return ctorType(h.e.c, {}); return r;
          case Head::MEMBER: return memberType(typeOf(h.recv), a->s);
          default: return r;
        }
      }
      case E_CALL: {
        Ast* c = a->c[0];
        if (c->k == E_NAME || c->k == E_DOT) {
          Head h = head(c);
          if (h.k == Head::ENT) { if (h.e.c) return ctorType(h.e.c, a->c2); if (h.e.d && h.e.d->k == D_FN) return resultOf(h.e.d, nullptr, a->c2); return r; }
          if (h.k == Head::THISF && h.md && h.md->k == D_FN) { int i = findLocal("this"); return resultOf(h.md, &L[i].ty, a->c2); }
          if (h.k == Head::MEMBER) { RT b = typeOf(h.recv); if (b.k == RT::DECL) { Decl* md = findMember(b.d, c->s); if (md && md->k == D_FN) return resultOf(md, &b, a->c2); } }
        }
        RT ft = typeOf(c); if (ft.k == RT::FUN && !ft.a.empty()) return ft.a.back();
        return r;
      }
      case E_INDEX: { RT b = typeOf(a->c[0]); if ((b.k == RT::SEQ || b.k == RT::ARR) && b.a.size()) return b.a[0]; if (b.k == RT::MAP && b.a.size() > 1) return b.a[1]; if (b.k == RT::MSET) return RT::Int(I_INT); return r; }
      case E_SLICE: { RT b = typeOf(a->c[0]); if (b.k == RT::ARR) b.k = RT::SEQ; return b; }
      case E_UPDATE: case E_DTUPD: return typeOf(a->c[0]);
      case E_BIN: {
        const string& o = a->s;
        if (o == "+" || o == "-" || o == "*" || o == "/" || o == "%" || o == "&" || o == "|" || o == "^" || o == "<<" || o == ">>") return join(typeOf(a->c[0]), typeOf(a->c[1]));
        return RT(RT::BOOL);
      }
      case E_CHAIN: return RT(RT::BOOL);
      case E_UN: return a->s == "!" ? RT(RT::BOOL) : typeOf(a->c[0]);
      case E_IF: return join(typeOf(a->c[1]), typeOf(a->c[2]));
      case E_MATCH: { RT st = typeOf(a->c[0]); RT acc; for (size_t i = 0; i + 1 < a->c2.size(); i += 2) { size_t n = L.size(); patPseudo(a->c2[i], st, false); RT t = typeOf(a->c2[i+1]); L.resize(n); acc = join(acc, t); if (acc.k != RT::UNK && !(acc.k == RT::INT && acc.it == I_LIT)) break; } return acc; }
      case E_LET: { size_t n = L.size(); letPseudo(a); RT t = typeOf(a->c.back()); L.resize(n); return t; }
      case E_CARD: return RT::Int(I_INT);
      case E_OLD: return typeOf(a->c[0]);
      case E_AS: return rty(a->ty);
      case E_TUPLE: r.k = RT::TUP; for (auto x : a->c) r.a.push_back(typeOf(x)); return r;
      case E_SEQDISP: r.k = RT::SEQ; r.a.push_back(a->c.empty() ? RT() : typeOf(a->c[0])); return r;
      case E_SETDISP: r.k = RT::SET; r.a.push_back(a->c.empty() ? RT() : typeOf(a->c[0])); return r;
      case E_MAPDISP: r.k = RT::MAP; if (a->c.size() > 1) { r.a.push_back(typeOf(a->c[0])); r.a.push_back(typeOf(a->c[1])); } return r;
      case E_MSDISP: case E_MSCONV: r.k = RT::MSET; return r;
      case E_SEQCOMP: r.k = RT::SEQ; return r;
      case E_SETCOMP: r.k = RT::SET; if (!a->c[1] && a->binds.size() == 1 && a->binds[0].ty) r.a.push_back(rty(a->binds[0].ty)); return r;
      case E_MAPCOMP: r.k = RT::MAP; return r;
      case E_NEW: if (a->flag) { r.k = RT::ARR; if (a->ty) r.a.push_back(rty(a->ty)); return r; } { Decl* cls; Decl* ct; newTarget(a, cls, ct); if (cls) { r.k = RT::DECL; r.d = cls; for (auto x : a->ty->args) r.a.push_back(rty(x)); } } return r;
      case E_LAMBDA: r.k = RT::FUN; return r;
      default: return r;
    }
  }
  void patPseudo(Ast* p, const RT& t, bool ghost) {
    ghost = ghost || p->ghost;
    if (p->k == P_LIT) return;
    if (p->k == P_TUPLE) { for (size_t i = 0; i < p->c.size(); i++) patPseudo(p->c[i], t.k == RT::TUP && i < t.a.size() ? t.a[i] : RT(), ghost); return; }
    CtorDecl* c = patCtor(p, t);
    if (!c && p->k == P_VAR) { if (p->s != "_") pseudo(p->s, p->ty ? rty(p->ty) : t, ghost); return; }
    for (size_t i = 0; i < p->c.size(); i++) {
      RT ft; bool g = ghost;
      if (c && i < c->fields.size()) { Sub s; if (t.k == RT::DECL) for (size_t j = 0; j < c->dt->tparams.size() && j < t.a.size(); j++) s[c->dt->tparams[j]] = t.a[j]; ft = resolveType(c->fields[i].ty, TCtx{c->dt->mod, c->dt, nullptr, &s}); if (c->fields[i].ghost) g = true; }
      patPseudo(p->c[i], ft, g);
    }
  }
  CtorDecl* patCtor(Ast* p, const RT& t) {
    if (p->k != P_CTOR && p->k != P_VAR) return nullptr;
    if (t.k == RT::DECL) { for (auto c : t.d->ctors) if (c->name == p->s) return c; if (p->k == P_VAR && t.d->k == D_DATATYPE) return nullptr; }
    if (t.k == RT::TUP || t.k == RT::INT || t.k == RT::BOOL || t.k == RT::SEQ) return nullptr;
    Ent e = lookupScope(m, p->s);
    if (e.c) return e.c;
    if (p->k == P_CTOR) for (auto mm : EN->P.allModules) { auto j = mm->ctorMap.find(p->s); if (j != mm->ctorMap.end() && j->second->fields.size() == p->c.size()) return j->second; }
    return nullptr;
  }
  void letPseudo(Ast* a) {
    size_t np = a->c.size() - 1;
    if (a->flag) { for (size_t i = 0; i < np; i++) patPseudo(a->c[i], a->c[i]->ty ? rty(a->c[i]->ty) : RT(), a->ghost); return; }
    if (np == a->c2.size()) {
      vector<RT> ts; vector<bool> gs; for (size_t i = 0; i < np; i++) { ts.push_back(typeOf(a->c2[i])); gs.push_back(a->ghost || isGhost(a->c2[i])); }
      for (size_t i = 0; i < np; i++) patPseudo(a->c[i], ts[i], gs[i]);
    } else for (size_t i = 0; i < np; i++) patPseudo(a->c[i], RT(), a->ghost);
  }
  void newTarget(Ast* a, Decl*& cls, Decl*& ctor) {   // new T(...), new T.Ctor(...)
    cls = ctor = nullptr; if (!a->ty) return;
    RT t = rty(a->ty);
    if (t.k == RT::DECL && t.d->k == D_CLASS) { cls = t.d; ctor = findMember(cls, "_ctor"); return; }
    size_t q = a->ty->name.rfind('.');
    if (q != string::npos) { Type b = *a->ty; b.name = a->ty->name.substr(0, q); RT u = rty(&b); if (u.k == RT::DECL && u.d->k == D_CLASS) { cls = u.d; ctor = findMember(cls, a->ty->name.substr(q + 1)); } }
  }
  // ---- ghostness
  bool oldName(const string& n) { if (n.size() < 5 || n.compare(0, 4, "old_")) return false; string b = n.substr(4); if (b == "self" || b == "this") return true; int i = findLocal(b); return i >= 0; }
  bool memberGhost(Ast* recv, const string& n) {
    RT b = typeOf(recv);
    if (b.k == RT::DECL) {
      Param* p = nullptr; if (dtHasField(b.d, n, &p)) return p->ghost;
      Decl* md = findMember(b.d, n); if (md) return md->ghost;
      return false;
    }
    if (b.k != RT::UNK) return false;
    if (!g_byName) indexMembers();
    auto i = g_byName->find(n); return i != g_byName->end() && i->second == 2;
  }
  bool isGhost(Ast* a) {
    if (!a || ghostCtx) return false;
    if (a->ghost) return true;
    switch (a->k) {
      case E_OLD: case E_FRESH: return true;
      case E_INT: case E_BOOL: case E_NULL: case E_STR: case E_CHR: case E_THIS: case E_REAL: case E_STAR: return false;
      case E_NAME: {
        if (findLocal(a->s) < 0 && oldName(a->s)) return true;
        Head h = head(a);
        if (h.k == Head::LOCAL) return L[h.li].ghost;
        if (h.k == Head::THISF) { if (h.md) return h.md->ghost; Param* p = nullptr; dtHasField(owner, h.name, &p); return p && p->ghost; }
        if (h.k == Head::ENT) return !h.e.c && h.e.d && h.e.d->ghost;
        return false;
      }
      case E_DOT: {
        Head h = head(a);
        if (h.k == Head::ENT) return !h.e.c && h.e.d && h.e.d->ghost;
        if (isGhost(a->c[0])) return true;
        return memberGhost(a->c[0], a->s);
      }
      case E_CALL: {
        Ast* c = a->c[0]; Decl* fd = nullptr; CtorDecl* cd = nullptr;
        if (c->k == E_NAME || c->k == E_DOT) {
          Head h = head(c);
          if (h.k == Head::ENT) { cd = h.e.c; if (!cd) fd = h.e.d; }
          else if (h.k == Head::THISF) fd = h.md;
          else if (h.k == Head::MEMBER) {
            if (isGhost(h.recv)) return true;
            RT b = typeOf(h.recv); if (b.k == RT::DECL) fd = findMember(b.d, c->s);
            if (!fd && memberGhost(h.recv, c->s)) return true;
            if (!fd && (c->s == "requires" || c->s == "reads")) return true;
          } else if (h.k == Head::LOCAL) { if (L[h.li].ghost) return true; }
          else if (h.k == Head::NONE && (c->s.compare(0, 7, "reveal_") == 0)) return true;
          if (c->s.compare(0, 7, "reveal_") == 0 && !fd) return true;
        } else if (isGhost(c)) return true;
        if (fd && fd->k == D_FN) { if (fd->ghost) return true; for (size_t i = 0; i < a->c2.size(); i++) if (!(i < fd->params.size() && fd->params[i].ghost) && isGhost(a->c2[i])) return true; return false; }
        if (cd) { for (size_t i = 0; i < a->c2.size(); i++) if (!(i < cd->fields.size() && cd->fields[i].ghost) && isGhost(a->c2[i])) return true; return false; }
        for (auto x : a->c2) if (isGhost(x)) return true;
        return false;
      }
      case E_LET: { size_t n = L.size(); letPseudo(a); if (a->flag && !a->ghost) { for (auto x : a->c2) if (isGhost(x)) { for (size_t q = n; q < L.size(); q++) L[q].ghost = true; } } bool g = isGhost(a->c.back()); L.resize(n); return g; }
      case E_MATCH: {
        if (isGhost(a->c[0])) return true; RT st = typeOf(a->c[0]);
        for (size_t i = 0; i + 1 < a->c2.size(); i += 2) { size_t n = L.size(); patPseudo(a->c2[i], st, false); bool g = isGhost(a->c2[i+1]); L.resize(n); if (g) return true; }
        return false;
      }
      case E_QUANT: case E_SETCOMP: case E_MAPCOMP: case E_LAMBDA: {
        size_t n = L.size(); for (auto& b : a->binds) pseudo(b.name, b.ty ? rty(b.ty) : RT());
        bool g = false; for (auto x : a->c) if (x && isGhost(x)) g = true;
        if (a->k == E_MAPCOMP) for (auto x : a->c2) if (x && isGhost(x)) g = true;
        L.resize(n); return g;
      }
      case E_DTUPD: { if (isGhost(a->c[0])) return true; for (size_t i = 0; i < a->c2.size(); i++) if (!memberGhost(a->c[0], a->names[i]) && isGhost(a->c2[i])) return true; return false; }
      case E_IF: if (!a->binds.empty()) return false; // fallthrough
      default:
        for (auto x : a->c) if (x && isGhost(x)) return true;
        for (auto x : a->c2) if (x && isGhost(x)) return true;
        return false;
    }
  }
  // ---- expressions
  static X* at(X* x, Ast* a) { x->line = a->line; return x; }
  X* ex(Ast* a) { return at(ex0(a), a); }
  X* coerced(Ast* a, IT k) {     // expression with a known target kind
    X* x = ex(a); if (k == I_NONE) return x;
    if (auto c = dynamic_cast<ConstX*>(x)) { if (c->v.isInt()) c->v = coerceV(Val(c->v), k); return x; }
    return x;
  }
  // a read that consumes a linear variable
  X* moved(Ast* a) {
    X* x = ex(a);
    if (a->k == E_NAME) { Head h = head(a); if (h.k == Head::LOCAL && L[h.li].lin && L[h.li].slot >= 0) return at(new MoveX(x), a); }
    return x;
  }
  X* movedPath(Ast* a) {   // argument of a linear parameter: any lvalue path rooted at a local
    Ast* r = a; while (r->k == E_DOT && head(r).k == Head::MEMBER) r = r->c[0];
    if ((r->k == E_NAME || r->k == E_THIS) && (a->k == E_NAME || a->k == E_DOT)) {
      Head h; int li = -1; if (r->k == E_NAME) { h = head(r); if (h.k == Head::LOCAL) li = h.li; else if (h.k == Head::THISF && !h.md) li = findLocal("this"); } else li = findLocal("this");
      if (li >= 0 && L[li].slot >= 0 && !(lam) && (L[li].ref || L[li].lin)) return at(new MoveX(ex(a)), a);
    }
    return ex(a);
  }
  X* thisX(Ast* a) { int i = findLocal("this"); if (i < 0) bad(a, "no this"); return localX(i); }
  Val lit(i128 v) { Val x = Val::Int(v, I_LIT); return x; }
  X* entX(Ast* a, const Ent& e) {
    if (e.c && (e.c->fields.empty() || !e.d || e.d->k != D_FN)) { if (e.c->fields.empty()) { return new ConstX(mkDt(e.c, {})); } }
    if (e.d) {
      if (e.d->k == D_CONST) { if (e.d->owner && !e.d->isStatic && e.d->owner->k == D_CLASS && !e.d->init) bad(a, "instance constant"); ConstFnX* c = new ConstFnX; c->f = EN->code(e.d); return c; }
      if (e.d->k == D_FN) return new FnValX(e.d);
    }
    bad(a, "name " + a->s + " does not denote a value");
  }
  X* ex0(Ast* a) {
    switch (a->k) {
      case E_INT: return new ConstX(lit((i128)(EN->litHook ? EN->litHook(a) : a->num)));
      case E_BOOL: return new ConstX(Val::B(a->flag));
      case E_NULL: return new ConstX(Val::Null());
      case E_CHR: return new ConstX(Val::Char((unsigned char)a->s[0]));
      case E_STR: { vector<Val> v; for (unsigned char c : a->s) v.push_back(Val::Char(c)); return new ConstX(mkSeqVals(std::move(v))); }
      case E_REAL: return new ConstX(mkReal(atof(a->s.c_str())));
      case E_THIS: return thisX(a);
      case E_STAR: return new StarX;
      case E_NAME: {
        Head h = head(a);
        switch (h.k) {
          case Head::LOCAL: return localX(h.li);
          case Head::THISF: if (h.md && h.md->k == D_CONST && owner->k == D_DATATYPE) { return new FieldX(thisX(a), a->s); } return new FieldX(thisX(a), a->s);
          case Head::THISDISC: return new TestX(thisX(a), h.name);
          case Head::ENT: return entX(a, h.e);
          default: bad(a, "unresolved name " + a->s + " in " + (f ? f->full : string("?")));
        }
      }
      case E_DOT: {
        Head h = head(a);
        if (h.k == Head::ENT) return entX(a, h.e);
        if (a->s.size() > 1 && a->s.back() == '?') { RT b = typeOf(a->c[0]); string n = a->s.substr(0, a->s.size() - 1); if (b.k != RT::DECL || dtHasCtor(b.d, n)) return new TestX(ex(a->c[0]), n); }
        return new FieldX(ex(a->c[0]), a->s);
      }
      case E_CALL: return call(a);
      case E_INDEX: if (a->c.size() > 2) bad(a, "multi-dimensional index"); return new IndexX(ex(a->c[0]), ex(a->c[1]));
      case E_SLICE: return new SliceX(ex(a->c[0]), a->c[1] ? ex(a->c[1]) : nullptr, a->c[2] ? ex(a->c[2]) : nullptr);
      case E_UPDATE: {
        UpdateX* u = new UpdateX; u->b = ex(a->c[0]); RT b = typeOf(a->c[0]); IT k1 = I_NONE, k2 = I_NONE;
        if (b.k == RT::SEQ && b.a.size() && b.a[0].k == RT::INT) k2 = b.a[0].it; if (b.k == RT::MAP && b.a.size() > 1) { if (b.a[0].k == RT::INT) k1 = b.a[0].it; if (b.a[1].k == RT::INT) k2 = b.a[1].it; }
        for (size_t i = 0; i < a->c2.size(); i++) { IT k = i % 2 ? k2 : k1; X* x = coerced(a->c2[i], k); u->kv.push_back(k != I_NONE && k != I_LIT ? new CoerceX(x, k) : x); } return u;
      }
      case E_DTUPD: {
        DtUpdX* u = new DtUpdX; u->b = ex(a->c[0]); u->n = a->names; RT b = typeOf(a->c[0]);
        for (size_t i = 0; i < a->c2.size(); i++) { RT mt = memberType(b, a->names[i]); u->k.push_back(mt.k == RT::INT ? mt.it : I_NONE); bool g = !ghostCtx && (memberGhost(a->c[0], a->names[i])); u->v.push_back(g ? nullptr : moved(a->c2[i])); }
        return u;
      }
      case E_BIN: return bin(a->s, a->c[0], a->c[1], a);
      case E_CHAIN: {
        X* r = nullptr;
        for (size_t i = 0; i + 1 < a->c.size(); i++) { X* x = bin(a->names[i], a->c[i], a->c[i+1], a); r = r ? new AndX(r, x) : x; }
        return r;
      }
      case E_UN: if (a->s == "!") return new NotX(ex(a->c[0])); { X* x = ex(a->c[0]); if (auto c = dynamic_cast<ConstX*>(x)) if (c->v.isInt()) { c->v = mkI(-I(c->v), c->v.it); return c; } return new NegX(x); }
      case E_IF: {
        if (!a->binds.empty()) {
          size_t n = L.size(); SuchThatX* s = new SuchThatX; s->orFalse = true; vector<Ast*> cj; conj(a->c[0], cj); s->e.doms = domains(a->binds, cj); for (auto& d : s->e.doms) s->slots.push_back(d.slot); s->e.cond = ex(a->c[0]);
          IfSuchX* r = new IfSuchX; r->s = s; r->a = ex(a->c[1]); L.resize(n); r->b = ex(a->c[2]); return r;
        }
        return new CondX(ex(a->c[0]), exm(a->c[1]), exm(a->c[2]));
      }
      case E_MATCH: {
        MatchX* x = new MatchX; RT st = typeOf(a->c[0]); x->s = a->lin ? moved(a->c[0]) : ex(a->c[0]); x->mv = a->lin;
        for (size_t i = 0; i + 1 < a->c2.size(); i += 2) { size_t n = L.size(); x->p.push_back(pat(a->c2[i], st, false, a->lin)); x->b.push_back(exm(a->c2[i+1])); L.resize(n); }
        return x;
      }
      case E_LET: return let(a);
      case E_QUANT: {
        size_t n = L.size(); QuantX* q = new QuantX; q->all = a->s == "forall";
        vector<Ast*> cj; if (a->c[0]) conj(a->c[0], cj);
        if (q->all) ante(a->c[1], cj); else conj(a->c[1], cj);
        q->e.doms = domains(a->binds, cj);
        if (a->c[0]) q->e.cond = ex(a->c[0]);
        q->body = ex(a->c[1]); L.resize(n); return q;
      }
      case E_SETCOMP: {
        size_t n = L.size(); SetCompX* q = new SetCompX; vector<Ast*> cj; if (a->c[0]) conj(a->c[0], cj);
        q->e.doms = domains(a->binds, cj); if (a->c[0]) q->e.cond = ex(a->c[0]);
        q->body = a->c[1] ? ex(a->c[1]) : new LocalX(q->e.doms[0].slot); L.resize(n); return q;
      }
      case E_MAPCOMP: {
        size_t n = L.size(); MapCompX* q = new MapCompX; vector<Ast*> cj; if (a->c[0]) conj(a->c[0], cj);
        q->e.doms = domains(a->binds, cj); if (a->c[0]) q->e.cond = ex(a->c[0]);
        q->k = a->c2.empty() ? new LocalX(q->e.doms[0].slot) : ex(a->c2[0]); q->v = ex(a->c[1]); L.resize(n); return q;
      }
      case E_SEQCOMP: { SeqCompX* s = new SeqCompX; s->n = ex(a->c[0]); s->f = ex(a->c[1]); return s; }
      case E_SETDISP: { SetX* s = new SetX; for (auto x : a->c) s->a.push_back(ex(x)); return s; }
      case E_MSDISP: { SetX* s = new SetX; s->ms = true; for (auto x : a->c) s->a.push_back(ex(x)); return s; }
      case E_MSCONV: { MsConvX* s = new MsConvX; s->e = ex(a->c[0]); return s; }
      case E_SEQDISP: { SeqX* s = new SeqX; RT t; for (auto x : a->c) { RT u = typeOf(x); t = join(t, u); } if (t.k == RT::INT && t.it != I_LIT) s->k = t.it; for (auto x : a->c) s->a.push_back(ex(x)); return s; }
      case E_MAPDISP: { MapX* s = new MapX; for (auto x : a->c) s->a.push_back(ex(x)); return s; }
      case E_LAMBDA: return lambda(a);
      case E_CARD: return new CardX(ex(a->c[0]));
      case E_OLD: return ex(a->c[0]);
      case E_AS: { RT t = rty(a->ty); X* x = ex(a->c[0]); if (auto c = dynamic_cast<ConstX*>(x)) if (t.k == RT::INT && c->v.isInt()) return new ConstX(convInt(c->v, t.it)); return new AsX(x, t); }
      case E_TUPLE: { TupleX* t = new TupleX; for (auto x : a->c) t->a.push_back(isGhost(x) ? nullptr : moved(x)); return t; }
      case E_NEW: return newX(a);
      default: bad(a, "expression kind " + std::to_string(a->k));
    }
  }
  X* exm(Ast* a) { return moved(a); }
  X* bin(const string& o, Ast* l, Ast* r, Ast* a) {
    if (o == "&&") return new AndX(ex(l), ex(r));
    if (o == "||") return new OrX(ex(l), ex(r));
    if (o == "==>") return new ImpX(ex(l), ex(r));
    static const std::map<string, Op> ops = {{"<==>", O_EQ}, {"+", O_ADD}, {"-", O_SUB}, {"*", O_MUL}, {"/", O_DIV}, {"%", O_MOD}, {"&", O_AND}, {"|", O_OR}, {"^", O_XOR}, {"<<", O_SHL}, {">>", O_SHR}, {"==", O_EQ}, {"!=", O_NE}, {"<", O_LT}, {"<=", O_LE}, {">", O_GT}, {">=", O_GE}, {"in", O_IN}, {"!in", O_NIN}, {"!!", O_DISJ}};
    auto i = ops.find(o); if (i == ops.end()) bad(a, "operator " + o);
    X* x = ex(l); X* y = ex(r);
    auto c1 = dynamic_cast<ConstX*>(x); auto c2 = dynamic_cast<ConstX*>(y);
    if (c1 && c2 && c1->v.t == V_INT && c2->v.t == V_INT && i->second <= O_MUL) return new ConstX(binOp(i->second, c1->v, c2->v));
    return new BinX(i->second, x, y);
  }
  X* let(Ast* a) {
    size_t n = L.size(), np = a->c.size() - 1;
    if (a->flag) {
      if (!ghostCtx && (a->ghost || true)) {   // a ghost such-that
        size_t n2 = L.size(); for (size_t i = 0; i < np; i++) patPseudo(a->c[i], RT(), false); bool g = a->ghost || isGhost(a->c2[0]); L.resize(n2);
        if (g) { for (size_t i = 0; i < np; i++) patPseudo(a->c[i], RT(), true); X* b = ex(a->c.back()); L.resize(n); return b; }
      }
      vector<Binding> bs; for (size_t i = 0; i < np; i++) { Binding b; b.name = a->c[i]->s; b.ty = a->c[i]->ty; bs.push_back(b); }
      SuchThatX* s = new SuchThatX; vector<Ast*> cj; conj(a->c2[0], cj); s->e.doms = domains(bs, cj); for (auto& d : s->e.doms) s->slots.push_back(d.slot); s->e.cond = ex(a->c2[0]);
      LetSuchX* r = new LetSuchX; r->s = s; r->body = ex(a->c.back()); L.resize(n); return r;
    }
    struct B { int slot; X* e; Pat* p; bool mv; };
    vector<B> bs;
    vector<X*> rhs(np); vector<RT> ty(np); vector<bool> gh(np);
    if (np != a->c2.size()) bad(a, "let arity");
    for (size_t i = 0; i < np; i++) { gh[i] = !ghostCtx && (a->ghost || a->c[i]->ghost || isGhost(a->c2[i])); ty[i] = a->c[i]->ty ? rty(a->c[i]->ty) : typeOf(a->c2[i]); if (!gh[i]) rhs[i] = moved(a->c2[i]); }
    for (size_t i = 0; i < np; i++) {
      if (gh[i]) { patPseudo(a->c[i], ty[i], true); continue; }
      if (a->c[i]->k == P_VAR && !patCtor2(a->c[i], ty[i])) {
        int li = addLocal(a->c[i]->s, ty[i], false, a->lin); IT k = ty[i].k == RT::INT ? ty[i].it : I_NONE;
        bs.push_back({L[li].slot, k != I_NONE && k != I_LIT && a->c[i]->ty ? new CoerceX(rhs[i], k) : rhs[i], nullptr, false});
      } else bs.push_back({-1, rhs[i], pat(a->c[i], ty[i], false, a->lin), a->lin});
    }
    X* body = exm(a->c.back());
    for (int i = (int)bs.size() - 1; i >= 0; i--) { if (bs[i].p) { LetPatX* x = new LetPatX; x->p = bs[i].p; x->e = bs[i].e; x->body = body; x->mv = bs[i].mv; body = x; } else body = new LetX(bs[i].slot, bs[i].e, body); }
    L.resize(n);
    return body;
  }
  CtorDecl* patCtor2(Ast* p, const RT& t) { if (t.k == RT::DECL) { for (auto c : t.d->ctors) if (c->name == p->s && c->fields.empty()) return c; return nullptr; } return nullptr; }
  Pat* pat(Ast* p, const RT& t, bool ghost, bool lin) {
    Pat* r = new Pat; ghost = ghost || p->ghost;
    if (p->k == P_LIT) { r->k = Pat::LIT; r->lit = ex(p->c[0]); return r; }
    if (p->k == P_TUPLE) { r->k = Pat::CTOR; r->tuple = true; for (size_t i = 0; i < p->c.size(); i++) r->sub.push_back(pat(p->c[i], t.k == RT::TUP && i < t.a.size() ? t.a[i] : RT(), ghost, lin)); if (p->c.empty()) r->k = Pat::ANY; return r; }
    CtorDecl* c = patCtor(p, t);
    if (!c && p->k == P_CTOR) bad(p, "unknown constructor " + p->s);
    if (!c) {
      if (p->s == "_") return r;
      if (ghost && !ghostCtx) { pseudo(p->s, t, true); L.back().slot = -1; return r; }
      r->k = Pat::BIND; int li = addLocal(p->s, p->ty ? rty(p->ty) : t, false, lin); r->slot = L[li].slot; return r;
    }
    r->k = Pat::CTOR; r->cname = c->name; r->cc = c;
    for (size_t i = 0; i < p->c.size(); i++) {
      RT ft; bool g = ghost; bool fl = false;
      if (i < c->fields.size()) { Sub s; if (t.k == RT::DECL) for (size_t j = 0; j < c->dt->tparams.size() && j < t.a.size(); j++) s[c->dt->tparams[j]] = t.a[j]; ft = resolveType(c->fields[i].ty, TCtx{c->dt->mod, c->dt, nullptr, &s}); if (c->fields[i].ghost) g = true; fl = c->fields[i].lin; }
      r->sub.push_back(pat(p->c[i], ft, g, lin && fl));
    }
    return r;
  }
  X* lambda(Ast* a) {
    LambdaCode* lc = new LambdaCode; Comp k; k.f = f; k.d = d; k.m = m; k.owner = owner; k.outer = this; k.lam = lc; k.ghostCtx = ghostCtx;
    for (auto& b : a->binds) k.addLocal(b.name, b.ty ? rty(b.ty) : RT());
    lc->np = (int)a->binds.size();
    lc->body = k.ex(a->c[0]); lc->nslots = k.nslots;
    LambdaX* x = new LambdaX; x->c = lc; return x;
  }
  X* newX(Ast* a) {
    if (a->flag) {
      NewArrX* n = new NewArrX; if (a->c.size() > 1) bad(a, "multi-dimensional array"); n->n = a->c.empty() ? nullptr : ex(a->c[0]);
      if (a->ty) n->et = rty(a->ty);
      if (!a->names.empty()) n->disp = ex(a->c2[0]); else if (!a->c2.empty()) n->init = ex(a->c2[0]);
      return n;
    }
    NewObjX* n = new NewObjX; Decl *cls, *ct; newTarget(a, cls, ct);
    if (!cls) bad(a, "unknown class " + (a->ty ? a->ty->name : string("?")));
    n->cls = cls; n->slot = slot();
    if (a->paren && ct) n->ctor = mkCall(a, ct, new LocalX(n->slot), a->c2);
    return n;
  }
  CallX* mkCall(Ast* a, Decl* fd, X* recv, const vector<Ast*>& args, const string& dyn = "") {
    CallX* c = new CallX; c->line = a->line; c->d = fd; c->recv = recv; c->dyn = fd ? fd->name : dyn;
    if (fd) { c->f = EN->code(fd); if (fd->owner && recv && fd->owner->k == D_CLASS && fd->bodyBegin < 0) c->virt = true; if (fd->owner && fd->owner->k == D_CLASS && recv && fd->fk != F_CTOR) c->virt = true; if (c->virt && fd->fk == F_CTOR) c->virt = false; }
    for (size_t i = 0; i < args.size(); i++) {
      Arg g;
      bool skip = false, ref = false, lin = false;
      if (fd && i < fd->params.size()) { skip = fd->params[i].ghost && !fd->ghost; ref = fd->params[i].inout; lin = fd->params[i].lin; }
      else if (!fd) { ref = args[i]->inout; skip = isGhost(args[i]); }
      if (!skip) {
        if (ref) g.l = ex(args[i]);
        else g.e = lin ? movedPath(args[i]) : (fd && i < fd->params.size()) ? coerced(args[i], kindOf(fd->params[i].ty, fd)) : ex(args[i]);
      }
      c->args.push_back(g);
    }
    return c;
  }
  IT kindOf(Type* t, Decl* fn) { RT r = resolveType(t, TCtx{fn->mod, fn->owner, fn, nullptr}); return r.k == RT::INT ? r.it : I_NONE; }
  X* call(Ast* a) {
    Ast* c = a->c[0];
    if (c->k == E_NAME || c->k == E_DOT) {
      Head h = head(c);
      if (h.k == Head::ENT) {
        if (h.e.c && !(h.e.d && h.e.d->k == D_FN)) {
          CtorX* x = new CtorX; x->c = h.e.c;
          if (a->c2.size() != h.e.c->fields.size()) bad(a, "constructor arity of " + h.e.c->name);
          for (size_t i = 0; i < a->c2.size(); i++) {
            RT ft = resolveType(h.e.c->fields[i].ty, TCtx{h.e.c->dt->mod, h.e.c->dt, nullptr, nullptr}); x->k.push_back(ft.k == RT::INT ? ft.it : I_NONE);
            bool skip = h.e.c->fields[i].ghost && !ghostCtx;
            x->a.push_back(skip ? nullptr : h.e.c->fields[i].lin ? movedPath(a->c2[i]) : coerced(a->c2[i], x->k.back()));
          }
          return x;
        }
        if (h.e.d && h.e.d->k == D_FN) { X* recv = nullptr; if (h.e.d->owner && !h.e.d->isStatic && hasThis()) recv = thisX(a); return mkCall(a, h.e.d, recv, a->c2); }
        if (h.e.d && h.e.d->k == D_CONST) { CallValX* x = new CallValX; x->f = ex(c); for (auto y : a->c2) x->a.push_back(ex(y)); return x; }
        bad(a, "call of " + c->s);
      }
      if (h.k == Head::THISF && h.md && h.md->k == D_FN) return mkCall(a, h.md, thisX(a), a->c2);
      if (h.k == Head::MEMBER) {
        RT b = typeOf(h.recv); Decl* md = nullptr;
        if (b.k == RT::DECL) md = findMember(b.d, c->s);
        if (md && md->k == D_FN) return mkCall(a, md, md->isStatic ? nullptr : (selfArg(md, h.recv)), a->c2);
        if (b.k == RT::UNK || (b.k == RT::DECL && b.d->k == D_TYPE) || (b.k == RT::INT && b.d)) {
          if (b.k == RT::INT && b.d) { md = findMember(b.d, c->s); if (md) return mkCall(a, md, ex(h.recv), a->c2); }
          return mkCall(a, nullptr, ex(h.recv), a->c2, c->s);
        }
      }
    }
    CallValX* x = new CallValX; x->f = ex(c); for (auto y : a->c2) x->a.push_back(isGhost(y) ? nullptr : ex(y)); return x;
  }
  X* selfArg(Decl* md, Ast* r) { if (md->thisInout) return ex(r); if (md->linear && r->k == E_NAME) return moved(r); return ex(r); }

  // ---- bounded domains
  void conj(Ast* a, vector<Ast*>& out) { if (!a) return; if (a->k == E_BIN && a->s == "&&") { conj(a->c[0], out); conj(a->c[1], out); return; } out.push_back(a); }
  void ante(Ast* a, vector<Ast*>& out) { if (a && a->k == E_BIN && a->s == "==>") { conj(a->c[0], out); ante(a->c[1], out); } }
  bool mentions(Ast* a, const std::set<string>& n) { if (!a) return false; if (a->k == E_NAME && n.count(a->s)) return true; for (auto x : a->c) if (mentions(x, n)) return true; for (auto x : a->c2) if (mentions(x, n)) return true; return false; }
  vector<Dom> domains(const vector<Binding>& binds, const vector<Ast*>& cj) {
    // declare in order of solvability: a variable whose domain depends on another one comes later
    vector<Dom> out; std::set<string> pending; for (auto& b : binds) pending.insert(b.name);
    vector<const Binding*> todo; for (auto& b : binds) todo.push_back(&b);
    std::set<string> names = pending;
    for (auto& b : binds) addLocal(b.name, b.ty ? rty(b.ty) : inferBound(b.name, cj));
    auto slotOf = [&](const string& n) { return L[findLocal(n)].slot; };
    while (!todo.empty()) {
      bool progress = false;
      for (size_t t = 0; t < todo.size() && !progress; t++) {
        const Binding* b = todo[t]; RT ty = L[findLocal(b->name)].ty; Dom d; d.name = b->name; d.slot = slotOf(b->name); d.it = ty.k == RT::INT ? ty.it : I_NONE;
        auto isV = [&](Ast* x) { return x && x->k == E_NAME && x->s == b->name; };
        auto okE = [&](Ast* x) { return !mentions(x, pending); };
        for (auto c : cj) if (c->k == E_BIN && c->s == "==" && d.k == Dom::NONE) { if (isV(c->c[0]) && okE(c->c[1])) { d.k = Dom::EQ; d.a = ex(c->c[1]); } else if (isV(c->c[1]) && okE(c->c[0])) { d.k = Dom::EQ; d.a = ex(c->c[0]); } }
        if (d.k == Dom::NONE) for (auto c : cj) if (c->k == E_BIN && c->s == "in" && isV(c->c[0]) && okE(c->c[1]) && d.k == Dom::NONE) { d.k = Dom::IN; d.a = ex(c->c[1]); }
        if (d.k == Dom::NONE) {
          vector<std::pair<Ast*, int>> lo, hi;
          auto rel = [&](Ast* x, const string& o, Ast* y) {
            if (isV(x) && okE(y)) { if (o == "<") hi.push_back({y, 0}); if (o == "<=") hi.push_back({y, 1}); if (o == ">") lo.push_back({y, 1}); if (o == ">=") lo.push_back({y, 0}); }
            if (isV(y) && okE(x)) { if (o == "<") lo.push_back({x, 1}); if (o == "<=") lo.push_back({x, 0}); if (o == ">") hi.push_back({x, 0}); if (o == ">=") hi.push_back({x, 1}); }
          };
          auto chain = [&](Ast* c) {   // transitive bounds: 0 <= i < j < n bounds i by n as well
            for (size_t i = 0; i < c->c.size(); i++) if (isV(c->c[i])) {
              for (size_t j = i + 1; j < c->c.size(); j++) { if (c->names[j-1] != "<" && c->names[j-1] != "<=") break; if (okE(c->c[j])) { hi.push_back({c->c[j], c->names[j-1] == "<" && j == i + 1 ? 0 : 1}); break; } }
              for (int j = (int)i - 1; j >= 0; j--) { if (c->names[j] != "<" && c->names[j] != "<=") break; if (okE(c->c[j])) { lo.push_back({c->c[j], 0}); break; } }
            }
          };
          for (auto c : cj) { if (c->k == E_BIN) rel(c->c[0], c->s, c->c[1]); if (c->k == E_CHAIN) { for (size_t i = 0; i + 1 < c->c.size(); i++) rel(c->c[i], c->names[i], c->c[i+1]); chain(c); } }
          bool nat = (b->ty && b->ty->name == "nat") || (ty.k == RT::INT && ty.it >= I_U8 && ty.it <= I_U64);
          if (!hi.empty() && (!lo.empty() || nat)) { d.k = Dom::RANGE; for (auto& x : lo) d.lo.push_back({ex(x.first), x.second}); for (auto& x : hi) d.hi.push_back({ex(x.first), x.second}); if (nat && lo.empty()) d.lo.push_back({new ConstX(Val::Int(0)), 0}); }
        }
        if (d.k == Dom::NONE && ty.k == RT::BOOL) d.k = Dom::BOOL;
        if (d.k == Dom::NONE && ty.k == RT::DECL && ty.d->k == D_DATATYPE) { bool e = true; for (auto c : ty.d->ctors) if (!c->fields.empty()) e = false; if (e) { d.k = Dom::DT; d.d = ty.d; } }
        if (d.k == Dom::NONE && ty.k == RT::INT && ty.it == I_U8) d.k = Dom::BYTE;
        if (d.k == Dom::NONE) continue;
        out.push_back(d); pending.erase(b->name); todo.erase(todo.begin() + t); progress = true;
      }
      if (!progress) { Dom d; d.name = todo[0]->name; d.slot = slotOf(d.name); d.it = I_NONE; out.push_back(d); pending.erase(d.name); todo.erase(todo.begin()); }
    }
    return out;
  }
  RT inferBound(const string& n, const vector<Ast*>& cj) {
    std::set<string> s{n};
    for (auto c : cj) if (c->k == E_BIN && c->s == "in" && c->c[0]->k == E_NAME && c->c[0]->s == n && !mentions(c->c[1], s)) { RT t = typeOf(c->c[1]); if (!t.a.empty()) return t.a[0]; }
    for (auto c : cj) {
      if (c->k == E_BIN && (c->s == "==" || c->s == "<" || c->s == "<=")) { if (c->c[0]->k == E_NAME && c->c[0]->s == n && !mentions(c->c[1], s)) { RT t = typeOf(c->c[1]); if (t.k != RT::UNK) return t.it == I_LIT ? RT::Int(I_INT) : t; } }
      if (c->k == E_CHAIN) for (size_t i = 0; i < c->c.size(); i++) if (c->c[i]->k == E_NAME && c->c[i]->s == n) { RT t; for (auto x : c->c) if (!mentions(x, s)) t = join(t, typeOf(x)); if (t.k == RT::INT) return t.it == I_LIT ? RT::Int(I_INT) : t; }
    }
    return RT();
  }

  // ---- statements (nullptr: erased)
  X* st(Ast* a) { X* x = st0(a); if (x) x->line = a->line; return x; }
  X* block(Ast* a) {
    BlockS* b = new BlockS; size_t n = L.size();
    for (auto s : a->c) { X* x = st(s); if (x) b->s.push_back(x); }
    L.resize(n);
    if (b->s.empty()) { delete b; return nullptr; }
    if (b->s.size() == 1) return b->s[0];
    return b;
  }
  bool lhsGhost(Ast* l) {
    if (ghostCtx) return false;
    if (l->k == E_NAME) { Head h = head(l); if (h.k == Head::LOCAL) return L[h.li].ghost; if (h.k == Head::THISF) { if (h.md) return h.md->ghost; Param* p = nullptr; dtHasField(owner, h.name, &p); return p && p->ghost; } return false; }
    if (l->k == E_DOT) return isGhost(l->c[0]) || memberGhost(l->c[0], l->s);
    if (l->k == E_INDEX) return isGhost(l->c[0]);
    return false;
  }
  IT lhsKind(Ast* l) { RT t = typeOf(l); return t.k == RT::INT && t.it != I_LIT ? t.it : I_NONE; }
  Decl* calleeOf(Ast* a) {   // a: E_CALL
    if (a->k != E_CALL) return nullptr; Ast* c = a->c[0];
    if (c->k != E_NAME && c->k != E_DOT) return nullptr;
    Head h = head(c);
    if (h.k == Head::ENT) { if (h.e.c && !(h.e.d && h.e.d->k == D_FN)) return nullptr; return h.e.d && h.e.d->k == D_FN ? h.e.d : nullptr; }
    if (h.k == Head::THISF) return h.md && h.md->k == D_FN ? h.md : nullptr;
    if (h.k == Head::MEMBER) { RT b = typeOf(h.recv); if (b.k == RT::DECL) { Decl* m = findMember(b.d, c->s); if (m && m->k == D_FN) return m; } }
    return nullptr;
  }
  X* assignFrom(Ast* a, vector<Ast*>& lhs, vector<X*>& lx, vector<IT>& lk, vector<Ast*>& rhs) {
    // lx[i]==nullptr: ghost target
    if (rhs.size() == 1 && (lhs.size() > 1 || (rhs[0]->k == E_CALL))) {
      Decl* cd = calleeOf(rhs[0]);
      if (rhs[0]->k == E_CALL && (lhs.size() > 1 || (cd && cd->fk != F_FUNCTION))) {
        X* x = call(rhs[0]); CallX* c = dynamic_cast<CallX*>(x);
        if (!c) { if (lhs.size() == 1) return new AssignS(lx[0], x, lk[0]); bad(a, "multi-assignment from a value"); }
        CallS* s = new CallS; s->c = c; s->l = lx; s->k = lk; return s;
      }
    }
    if (rhs.size() != lhs.size()) bad(a, "assignment arity");
    if (lhs.size() == 1) return new AssignS(lx[0], coercedM(rhs[0], lk[0]), lk[0]);
    MultiS* m2 = new MultiS; m2->l = lx; m2->k = lk; for (size_t i = 0; i < rhs.size(); i++) m2->r.push_back(lx[i] ? coercedM(rhs[i], lk[i]) : nullptr);
    return m2;
  }
  X* coercedM(Ast* a, IT k) { X* x = moved(a); if (auto c = dynamic_cast<ConstX*>(x)) if (k != I_NONE && c->v.isInt()) c->v = coerceV(Val(c->v), k); return x; }
  X* st0(Ast* a) {
    switch (a->k) {
      case S_SKIP: return nullptr;
      case S_BLOCK: return block(a);
      case S_ASSERT: if (a->s == "expect" && a->c[0]) { ExpectS* e = new ExpectS; e->e = ex(a->c[0]); return e; } return nullptr;
      case S_LABEL: { X* b = st(a->c[0]); if (!b) return nullptr; LabelS* l = new LabelS; l->n = a->s; l->b = b; return l; }
      case S_BREAK: { BreakS* b = new BreakS; b->n = a->s; return b; }
      case S_PRINT: { PrintS* p = new PrintS; for (auto x : a->c) p->a.push_back(ex(x)); return p; }
      case S_VAR: return varS(a);
      case S_ASSIGN: {
        if (a->ghost && !ghostCtx) return nullptr;
        bool all = true; vector<bool> g; for (auto l : a->c) { g.push_back(lhsGhost(l)); if (!g.back()) all = false; }
        if (all) { // a ghost assignment; a call with real effects still has to run
          if (a->c2.size() == 1 && a->c2[0]->k == E_CALL) { Decl* cd = calleeOf(a->c2[0]); if (!cd || cd->ghost || cd->fk == F_FUNCTION) return nullptr; }
          else return nullptr;
        }
        if (a->c2.size() == 1 && a->c2[0]->k == E_CALL && !ghostCtx) { Decl* cd = calleeOf(a->c2[0]); if (cd && cd->ghost) return nullptr; }
        if (a->c2.size() == 1 && a->c2[0]->k == E_STAR) return nullptr;
        vector<X*> lx; vector<IT> lk;
        for (size_t i = 0; i < a->c.size(); i++) { if (g[i] || (a->c[i]->k == E_NAME && a->c[i]->s == "_")) { lx.push_back(nullptr); lk.push_back(I_NONE); } else { lx.push_back(ex(a->c[i])); lk.push_back(lhsKind(a->c[i])); } }
        if (a->c.size() == 1 && !lx[0]) { ExprS* e = new ExprS; e->e = ex(a->c2[0]); return e; }
        return assignFrom(a, a->c, lx, lk, a->c2);
      }
      case S_CALL: {
        if (a->ghost && !ghostCtx) return nullptr;
        Ast* e = a->c[0];
        if (e->k == E_NAME) return nullptr;      // "new;"
        if (e->k != E_CALL) { return nullptr; }
        if (!ghostCtx) { Decl* cd = calleeOf(e); if (cd ? cd->ghost : isGhost(e)) return nullptr; }
        else { Decl* cd = calleeOf(e); if (cd && cd->fk == F_LEMMA) return nullptr; }
        ExprS* s = new ExprS; s->e = ex(e); return s;
      }
      case S_IF: {
        if (a->flag) {
          size_t n = L.size(); for (auto& b : a->binds) pseudo(b.name, RT()); bool g = isGhost(a->c[0]); L.resize(n); if (g && !ghostCtx) return nullptr;
          SuchThatX* s = new SuchThatX; s->orFalse = true; vector<Ast*> cj; conj(a->c[0], cj); s->e.doms = domains(a->binds, cj); for (auto& d : s->e.doms) s->slots.push_back(d.slot); s->e.cond = ex(a->c[0]);
          IfS* i = new IfS; i->c = s; i->a = st(a->c2[0]); L.resize(n); if (a->c2.size() > 1) i->b = st(a->c2[1]); if (!i->a && !i->b) return nullptr; return i;
        }
        if (isGhost(a->c[0])) return nullptr;
        IfS* i = new IfS; i->a = st(a->c2[0]); if (a->c2.size() > 1) i->b = st(a->c2[1]);
        if (!i->a && !i->b) { delete i; return nullptr; }
        i->c = ex(a->c[0]); return i;
      }
      case S_WHILE: {
        if (isGhost(a->c[0])) return nullptr;
        X* b = st(a->c[1]); if (!b) return nullptr;
        WhileS* w = new WhileS; w->c = ex(a->c[0]); w->b = b; return w;
      }
      case S_MATCH: {
        if (isGhost(a->c[0])) return nullptr;
        MatchS* x = new MatchS; RT t = typeOf(a->c[0]); bool any = false;
        for (size_t i = 0; i + 1 < a->c2.size(); i += 2) { size_t n = L.size(); x->p.push_back(pat(a->c2[i], t, false, a->lin)); X* b = st(a->c2[i+1]); if (b) any = true; x->b.push_back(b); L.resize(n); }
        if (!any) return nullptr;
        x->s = a->lin ? moved(a->c[0]) : ex(a->c[0]); x->mv = a->lin; return x;
      }
      case S_RETURN: {
        RetS* r = new RetS; if (a->c.empty()) return r;
        vector<Ast*> lhs; vector<X*> lx; vector<IT> lk;
        for (auto& o : d->outs) { Ast* n = new Ast; n->k = E_NAME; n->s = o.name; n->file = a->file; n->line = a->line; lhs.push_back(n); int li = -1; for (int i = 0; i < (int)L.size(); i++) if (L[i].name == o.name) { li = i; break; } bool g = o.ghost && !ghostCtx; lx.push_back(g || li < 0 ? nullptr : localX(outLocal(o.name))); RT t = rty(o.ty); lk.push_back(t.k == RT::INT ? t.it : I_NONE); }
        if (a->c.size() == 1 && lhs.size() == 1 && !lx[0]) return r;
        if (a->c.size() == lhs.size() || a->c.size() == 1) r->a = assignFrom(a, lhs, lx, lk, a->c);
        else bad(a, "return arity");
        return r;
      }
      case S_FORALL: {
        if (a->c2.empty()) return nullptr;
        size_t n = L.size(); for (auto& b : a->binds) pseudo(b.name, b.ty ? rty(b.ty) : RT());
        bool g = !a->c.empty() && isGhost(a->c[0]); L.resize(n); if (g) return nullptr;
        vector<Ast*> cj; if (!a->c.empty()) conj(a->c[0], cj);
        // erase when the body has no compiled effect
        for (auto& b : a->binds) pseudo(b.name, b.ty ? rty(b.ty) : RT());
        int ns = nslots; bool eff = hasEffect(a->c2[0]); nslots = ns; L.resize(n); if (!eff) return nullptr;
        ForallS* s = new ForallS; s->e.doms = domains(a->binds, cj); if (!a->c.empty()) s->e.cond = ex(a->c[0]); s->b = st(a->c2[0]); L.resize(n); if (!s->b) return nullptr; return s;
      }
      case S_SUCHTHAT: {
        bool g = true; for (auto l : a->c) if (!lhsGhost(l)) g = false; if (g && !ghostCtx) return nullptr;
        if (isGhost(a->c2[0])) return nullptr;
        size_t n = L.size(); vector<Binding> bs; for (auto l : a->c) { if (l->k != E_NAME) bad(a, "such-that target"); Binding b; b.name = l->s; bs.push_back(b); }
        vector<X*> tg; vector<RT> tt; for (auto l : a->c) { tg.push_back(ex(l)); tt.push_back(typeOf(l)); }
        SuchThatX* s = new SuchThatX; vector<Ast*> cj; conj(a->c2[0], cj); s->e.doms = domains(bs, cj); for (auto& b : bs) s->slots.push_back(L[findLocal(b.name)].slot); s->e.cond = ex(a->c2[0]);
        BlockS* b = new BlockS; ExprS* e = new ExprS; e->e = s; b->s.push_back(e);
        for (size_t i = 0; i < tg.size(); i++) b->s.push_back(new AssignS(tg[i], new LocalX(s->slots[i]), tt[i].k == RT::INT ? tt[i].it : I_NONE));
        L.resize(n); return b;
      }
      case S_IFALT: case S_WHILEALT: {
        for (auto c : a->c) if (isGhost(c)) return nullptr;
        AltS* s = new AltS; s->loop = a->k == S_WHILEALT; bool any = false;
        for (size_t i = 0; i < a->c.size(); i++) { s->c.push_back(ex(a->c[i])); X* b = st(a->c2[i]); if (b) any = true; s->b.push_back(b); }
        if (!any) return nullptr; return s;
      }
      default: bad(a, "statement kind " + std::to_string(a->k));
    }
  }
  int outLocal(const string& n) { for (int i = 0; i < (int)L.size(); i++) if (L[i].name == n) return i; return -1; }
  bool hasEffect(Ast* b) {   // conservative: contains an assignment or a call of a non-ghost method
    if (b->k == S_ASSIGN) return true;
    if (b->k == S_CALL) { Decl* cd = b->c[0]->k == E_CALL ? calleeOf(b->c[0]) : nullptr; return cd && !cd->ghost; }
    for (auto x : b->c) if (x && x->k >= S_BLOCK && x->k < P_VAR && hasEffect(x)) return true;
    for (auto x : b->c2) if (x && x->k >= S_BLOCK && x->k < P_VAR && hasEffect(x)) return true;
    return false;
  }
  X* varS(Ast* a) {
    if (a->flag) {   // pattern
      RT t = typeOf(a->c2[0]);
      if (!ghostCtx && (a->ghost || isGhost(a->c2[0]))) { patPseudo(a->c[0], t, true); for (size_t i = 0; i < L.size(); i++) if (L[i].slot == -2) L[i].slot = -1; return nullptr; }
      X* e = moved(a->c2[0]); PatS* p = new PatS; p->e = e; p->mv = a->lin; p->p = pat(a->c[0], t, false, a->lin);
      return p;
    }
    if (a->s == ":|") {
      size_t n = L.size(); for (auto& b : a->binds) pseudo(b.name, b.ty ? rty(b.ty) : RT()); bool g = a->ghost || isGhost(a->c2[0]); L.resize(n);
      if (g && !ghostCtx) { for (auto& b : a->binds) addLocal(b.name, b.ty ? rty(b.ty) : RT(), true); return nullptr; }
      SuchThatX* s = new SuchThatX; vector<Ast*> cj; conj(a->c2[0], cj); s->e.doms = domains(a->binds, cj); for (auto& d : s->e.doms) s->slots.push_back(d.slot); s->e.cond = ex(a->c2[0]);
      ExprS* e = new ExprS; e->e = s; return e;
    }
    if (a->c2.empty()) {
      BlockS* bl = new BlockS;
      for (auto& b : a->binds) { RT t = b.ty ? rty(b.ty) : RT(); int li = addLocal(b.name, t, b.ghost, b.lin); if (L[li].slot >= 0) bl->s.push_back(new AssignS(new LocalX(L[li].slot), new ConstX(defaultOf(t)), I_NONE)); }
      if (bl->s.empty()) return nullptr; return bl;
    }
    vector<RT> ty; vector<bool> gh; Decl* cd = a->c2.size() == 1 ? calleeOf(a->c2[0]) : nullptr;
    bool callForm = a->c2.size() == 1 && a->c2[0]->k == E_CALL && (a->binds.size() > 1 || (cd && cd->fk != F_FUNCTION));
    if (callForm) {
      bool gcall = !ghostCtx && (cd ? cd->ghost : isGhost(a->c2[0]));
      RT rt = typeOf(a->c2[0]);
      for (size_t i = 0; i < a->binds.size(); i++) {
        auto& b = a->binds[i]; RT t = b.ty ? rty(b.ty) : a->binds.size() == 1 ? rt : rt.k == RT::TUP && i < rt.a.size() ? rt.a[i] : RT();
        bool g = gcall || b.ghost || (cd && i < cd->outs.size() && cd->outs[i].ghost); ty.push_back(t); gh.push_back(g && !ghostCtx);
      }
      if (gcall) { for (size_t i = 0; i < a->binds.size(); i++) addLocal(a->binds[i].name, ty[i], true); return nullptr; }
      X* x = call(a->c2[0]); CallX* c = dynamic_cast<CallX*>(x);
      vector<X*> lx; vector<IT> lk;
      for (size_t i = 0; i < a->binds.size(); i++) { if (a->binds[i].name == "_") { lx.push_back(nullptr); lk.push_back(I_NONE); continue; } bool lin = a->binds[i].lin; int li = addLocal(a->binds[i].name, ty[i], gh[i], lin); lx.push_back(L[li].slot >= 0 ? new LocalX(L[li].slot) : nullptr); lk.push_back(ty[i].k == RT::INT && a->binds[i].ty ? ty[i].it : I_NONE); }
      if (!c) { if (lx.size() != 1) bad(a, "multi-assignment"); if (!lx[0]) { ExprS* e = new ExprS; e->e = x; return e; } return new AssignS(lx[0], x, lk[0]); }
      CallS* s = new CallS; s->c = c; s->l = lx; s->k = lk; return s;
    }
    if (a->c2.size() != a->binds.size()) bad(a, "var arity");
    vector<X*> rx; 
    for (size_t i = 0; i < a->binds.size(); i++) {
      auto& b = a->binds[i]; bool g = !ghostCtx && (b.ghost || isGhost(a->c2[i])); gh.push_back(g);
      ty.push_back(b.ty ? rty(b.ty) : typeOf(a->c2[i]));
      IT k = ty[i].k == RT::INT && ty[i].it != I_LIT ? ty[i].it : I_NONE;
      rx.push_back(g || a->c2[i]->k == E_STAR ? nullptr : b.lin ? movedOrPath(a->c2[i]) : coercedM(a->c2[i], k));
      if (a->c2[i]->k == E_STAR && !g) rx.back() = new ConstX(defaultOf(ty[i]));
    }
    MultiS* ms = new MultiS;
    for (size_t i = 0; i < a->binds.size(); i++) {
      int li = addLocal(a->binds[i].name, ty[i], gh[i], a->binds[i].lin);
      IT k = ty[i].k == RT::INT && ty[i].it != I_LIT ? ty[i].it : I_NONE;
      if (L[li].slot >= 0 && rx[i]) { ms->l.push_back(new LocalX(L[li].slot)); ms->r.push_back(rx[i]); ms->k.push_back(k); }
    }
    if (ms->l.empty()) return nullptr;
    if (ms->l.size() == 1) return new AssignS(ms->l[0], ms->r[0], ms->k[0]);
    return ms;
  }
  X* movedOrPath(Ast* a) { return movedPath(a); }
};

// ------------------------------------------------------------------ engine
Engine::Engine() {
  EN = this;
  size_t n = 1ull << 26;
  stack = (Val*)mmap(nullptr, n * sizeof(Val), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  sp = stack; stackEnd = stack + n - 4096;
}
FnCode* Engine::code(Decl* d) {
  if (d->code) return d->code;
  FnCode* f = new FnCode; f->d = d; d->code = f;
  f->full = d->mod->full + "." + (d->owner ? d->owner->name + "." : string()) + d->name;
  codes.push_back(f);
  return f;
}
void Engine::prepare(FnCode* f) {
  if (f->ready) return;
  if (f->compiling) { return; }
  f->compiling = true;
  Decl* d = f->d;
  f->isFn = d->k == D_CONST || d->fk == F_FUNCTION;
  Comp c; c.f = f; c.d = d; c.m = d->mod; c.owner = d->owner; c.ghostCtx = d->ghost;
  bool inst = d->owner && !d->isStatic && !(d->k == D_CONST && d->owner->k == D_CLASS && d->isStatic);
  if (inst) {
    RT t(RT::DECL); t.d = d->owner;
    if (d->owner->k == D_TYPE) { t = d->owner->isNewtype ? RT::Int(nativeKind(d->owner)) : RT(); t.d = d->owner; }
    f->self = 1; f->selfRef = d->thisInout;
    c.addLocal("this", t, false, d->linear && !d->thisInout, d->thisInout);
  }
  f->np = (int)d->params.size();
  for (auto& p : d->params) {
    RT t = c.rty(p.ty); bool g = p.ghost && !d->ghost;
    f->pk.push_back(t.k == RT::INT ? t.it : I_NONE); f->pskip.push_back(g); f->pref.push_back(p.inout && !g);
    int s = c.slot(); c.L.push_back(Local{p.name, g ? -1 : s, t, g, p.lin && !p.inout, p.inout && !g});
  }
  f->no = (int)d->outs.size();
  for (auto& p : d->outs) {
    RT t = c.rty(p.ty); bool g = p.ghost && !d->ghost;
    f->ok.push_back(t.k == RT::INT ? t.it : I_NONE); f->oskip.push_back(g); f->odef.push_back(g ? Val() : defaultOf(t));
    int s = c.slot(); c.L.push_back(Local{p.name, g ? -1 : s, t, g, p.lin, false});
  }
  if (d->k == D_CONST || d->fk == F_FUNCTION) { RT t = c.rty(d->k == D_CONST ? d->ty : d->result); f->rk = t.k == RT::INT ? t.it : I_NONE; }
  auto ci = constOverride.find(f->full);
  auto oi = overrides.find(f->full);
  if (ci != constOverride.end()) { f->body = new ConstRefX(&ci->second); }
  else if (oi != overrides.end()) { f->native = true; f->nat = oi->second; }
  else if (d->k == D_CONST) { if (!d->init) throw Unsupported("engine: constant without value: " + f->full); f->body = c.ex(d->init); }
  else {
    Ast* b = P.bodyOf(d);
    if (!b && (d->bodyBegin < 0 || d->fk == F_FUNCTION)) {
      auto ni = natives.find(f->full);
      if (ni == natives.end()) { // a clone of a native in a refined module: match by suffix of the defining file's module name
        string alt = (d->owner ? d->owner->name + "." : string()) + d->name;
        ni = natives.find("*." + alt);
      }
      if (ni == natives.end()) { string nm = f->full; f->native = true; f->nat = [nm](Val*, Val&) { throw Unsupported("engine: no body and no native for " + nm); }; }
      else { f->native = true; f->nat = ni->second; }
    } else if (d->fk == F_FUNCTION) f->body = c.moved(b);
    else { f->body = c.block(b); if (!f->body) f->body = new BlockS; }
  }
  f->nslots = c.nslots; f->ready = true; f->compiling = false;
}
void Engine::invoke(FnCode* f, Val* nf, Val& ret) {
  f->calls++;
  if (onCall) onCall(f);
  try {
    if (f->native) { for (int i = 0; i < f->no; i++) if (nf[f->self + f->np + i].t == V_NIL) nf[f->self + f->np + i] = f->odef[i]; f->nat(nf, ret); if (f->isFn) ret = coerceV(std::move(ret), f->rk); return; }
    if (f->isFn && f->np == 1 && !f->self && f->d->k != D_CONST && f->pk[0] != I_NONE && nf[0].t == V_INT) {
      if (f->memo.empty()) f->memo.resize(1024);
      FnCode::Memo& m = f->memo[(nf[0].u * 0x9E3779B97F4A7C15ull) >> 54];
      if (m.arg.t == V_INT && m.arg.u == nf[0].u && m.arg.it == nf[0].it) { ret = m.res; steps += m.steps; return; }
      uint64_t s0 = steps; Val a = nf[0]; ret = coerceV(f->body->ev(nf), f->rk);
      if (ret.t < V_BIG && ret.t != V_REF) { FnCode::Memo& q = f->memo[(a.u * 0x9E3779B97F4A7C15ull) >> 54]; q.arg = a; q.res = ret; q.steps = steps - s0; }
      return;
    }
    if (f->isFn) { ret = coerceV(f->body->ev(nf), f->rk); return; }
    for (int i = 0; i < f->no; i++) nf[f->self + f->np + i] = f->odef[i];
    f->body->ex(nf);
    for (int i = 0; i < f->no; i++) if (f->ok[i] != I_NONE && nf[f->self + f->np + i].it == I_LIT) nf[f->self + f->np + i] = coerceV(std::move(nf[f->self + f->np + i]), f->ok[i]);
  } catch (...) { if (trace.size() < 60) trace.push_back(f->full); throw; }
}
string Engine::traceStr() { string s; for (size_t i = 0; i < trace.size() && i < 14; i++) { if (i) s += " <- "; s += trace[i]; } return s; }
Val Engine::call(FnCode* f, vector<Val> args, vector<Val>* outs) {
  prepare(f);
  trace.clear();
  FrameGuard g(this, f->nslots);
  if ((int)args.size() != f->self + f->np) throw Unsupported("engine: harness call arity of " + f->full);
  for (size_t i = 0; i < args.size(); i++) { int q = (int)i - f->self; g.base[i] = q >= 0 && !f->pref[q] ? coerceV(std::move(args[i]), f->pk[q]) : std::move(args[i]); }
  Val ret; invoke(f, g.base, ret);
  if (f->isFn) return ret;
  if (outs) { outs->clear(); for (int i = 0; i < f->no; i++) outs->push_back(std::move(g.base[f->self + f->np + i])); if (!outs->empty()) return (*outs)[0]; return Val(); }
  if (f->no) return std::move(g.base[f->self + f->np]);
  return Val();
}
Val Engine::apply(const Val& fun, vector<Val> args) {
  if (fun.t != V_FUN) { if (fun.t == V_NULL || fun.t == V_NIL) throw Unsupported("engine: call of a non-function"); throw Unsupported("engine: call of tag " + std::to_string(fun.t)); }
  FunObj* o = (FunObj*)fun.o;
  if (o->nat) return o->nat(args);
  if (++steps > stepLimit) throw DafnyHang("step limit");
  if (o->d) {
    FnCode* f = code(o->d); prepare(f); FrameGuard g(this, f->nslots); int k = 0; if (f->self) g.base[k++] = o->self;
    for (size_t i = 0; i < args.size(); i++) if (!f->pskip[i]) g.base[k + i] = coerceV(std::move(args[i]), f->pk[i]);
    Val r; invoke(f, g.base, r); if (!f->isFn && f->no) return std::move(g.base[f->self + f->np]); return r;
  }
  LambdaCode* l = o->lam; FrameGuard g(this, l->nslots);
  for (size_t i = 0; i < args.size(); i++) g.base[i] = std::move(args[i]);
  for (size_t i = 0; i < l->capTo.size(); i++) g.base[l->capTo[i]] = o->caps[i];
  Val keep = fun;
  return l->body->ev(g.base);
}
Decl* Engine::findDecl(const string& full) {
  // longest module prefix
  size_t q = full.size();
  while ((q = full.rfind('.', q - 1)) != string::npos && q > 0) {
    Module* m = P.findModule(full.substr(0, q)); if (!m) continue;
    string rest = full.substr(q + 1); size_t dot = rest.find('.');
    if (dot == string::npos) { auto i = m->declMap.find(rest); if (i != m->declMap.end()) return i->second; }
    else { auto i = m->declMap.find(rest.substr(0, dot)); if (i != m->declMap.end()) { Decl* t = stripSyn(i->second); Decl* r = findMember(t, rest.substr(dot + 1)); if (r) return r; } }
  }
  return nullptr;
}
FnCode* Engine::find(const string& full) {
  static std::unordered_map<string, FnCode*> memo; auto i = memo.find(full); if (i != memo.end()) return i->second;
  Decl* d = findDecl(full); if (!d) throw Unsupported("engine: no declaration " + full);
  return memo[full] = code(d);
}
CtorDecl* Engine::ctor(const string& full) {
  static std::unordered_map<string, CtorDecl*> memo; auto it = memo.find(full); if (it != memo.end()) return it->second;
  size_t q = full.rfind('.'); string pre = full.substr(0, q), n = full.substr(q + 1);
  if (Module* m = P.findModule(pre)) { auto i = m->ctorMap.find(n); if (i != m->ctorMap.end()) return memo[full] = i->second; }
  size_t q2 = pre.rfind('.');
  if (q2 != string::npos) if (Module* m = P.findModule(pre.substr(0, q2))) { auto i = m->declMap.find(pre.substr(q2 + 1)); if (i != m->declMap.end()) for (auto c : stripSyn(i->second)->ctors) if (c->name == n) return memo[full] = c; }
  throw Unsupported("engine: no constructor " + full);
}
Val field(const Val& v, const char* n) { if (v.t == V_REF) return field(*v.ref, n); FieldX f(nullptr, n); int i = f.idx(v); if (i < 0) return f.special(v); return v.t == V_DT ? ((DtObj*)v.o)->f()[i] : ((ClsObj*)v.o)->f[i]; }
Val* fieldRef(Val& v, const char* n) { FieldX f(nullptr, n); int i = f.idx(v); if (i < 0) throw Unsupported(string("engine: no field ") + n); return v.t == V_DT ? &((DtObj*)v.o)->f()[i] : &((ClsObj*)v.o)->f[i]; }
vector<Val> elems(const Val& v) {
  vector<Val> r;
  if (v.t == V_SEQ) for (uint64_t i = 0; i < seqLen(v); i++) r.push_back(seqGet(v, i));
  else if (v.t == V_ARR) for (uint64_t i = 0; i < ((ArrObj*)v.o)->buf->n; i++) r.push_back(seqGet(v, i));
  else if (v.t == V_SET) for (auto& x : ((SetObj*)v.o)->m) r.push_back(x.first);
  return r;
}
}
