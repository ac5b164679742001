// Dynamic values of the Dafny engine.
#pragma once
#include "ast.h"
#include <cstring>
#include <cstdlib>
#include <algorithm>

namespace dfy {

enum VT : uint8_t { V_NIL, V_BOOL, V_INT, V_CHAR, V_REF, V_NULL, /* heap from here */ V_BIG, V_DT, V_SEQ, V_SET, V_MAP, V_MSET, V_ARR, V_OBJ, V_FUN, V_REAL, V_NATIVE };
enum IT : uint8_t { I_LIT, I_INT, I_U8, I_U16, I_U32, I_U64, I_I8, I_I16, I_I32, I_I64, I_U128, I_NONE };

typedef __int128 i128;

struct Obj { uint32_t rc; uint8_t t; };
void destroyObj(Obj* o);

struct Val {
  VT t; IT it;
  union { int64_t i; uint64_t u; Obj* o; Val* ref; };
  Val() : t(V_NIL), it(I_NONE), i(0) {}
  Val(const Val& b) : t(b.t), it(b.it), i(b.i) { if (t >= V_BIG) o->rc++; }
  Val(Val&& b) noexcept : t(b.t), it(b.it), i(b.i) { b.t = V_NIL; }
  ~Val() { if (t >= V_BIG && --o->rc == 0) destroyObj(o); }
  Val& operator=(const Val& b) {
    if (b.t >= V_BIG) b.o->rc++;
    VT ot = t; Obj* oo = o; t = b.t; it = b.it; i = b.i;
    if (ot >= V_BIG && --oo->rc == 0) destroyObj(oo);
    return *this;
  }
  Val& operator=(Val&& b) noexcept {
    if (this == &b) return *this;
    VT ot = t; Obj* oo = o; t = b.t; it = b.it; i = b.i; b.t = V_NIL;
    if (ot >= V_BIG && --oo->rc == 0) destroyObj(oo);
    return *this;
  }
  static Val B(bool x) { Val v; v.t = V_BOOL; v.i = x; return v; }
  static Val raw(IT k, uint64_t x) { Val v; v.t = V_INT; v.it = k; v.u = x; return v; }
  static Val U64(uint64_t x) { return raw(I_U64, x); }
  static Val U32(uint32_t x) { return raw(I_U32, x); }
  static Val U8(uint8_t x) { return raw(I_U8, x); }
  static Val Int(i128 x, IT k = I_INT);
  static Val Char(uint32_t c) { Val v; v.t = V_CHAR; v.u = c; return v; }
  static Val Null() { Val v; v.t = V_NULL; return v; }
  static Val Ref(Val* r) { Val v; v.t = V_REF; v.ref = r; return v; }
  static Val own(VT t, Obj* o) { Val v; v.t = t; v.o = o; return v; }     // takes the reference
  bool isInt() const { return t == V_INT || t == V_BIG; }
};

struct BigObj : Obj { i128 v; };
struct DtObj : Obj { CtorDecl* c; uint32_t n; Val* f() { return (Val*)(this + 1); } };
struct Buf { uint32_t rc; bool bytes; uint64_t n, cap; union { uint8_t* b; Val* v; }; };
struct SeqObj : Obj { Buf* buf; uint64_t off, len; };
struct ArrObj : Obj { Buf* buf; };
struct ValLess { bool operator()(const Val& a, const Val& b) const; };
struct SetObj : Obj { std::map<Val, uint64_t, ValLess> m; };          // set and multiset (count)
struct MapObj : Obj { std::map<Val, Val, ValLess> m; };
struct ClsObj : Obj { Decl* cls; std::vector<Val> f; };
struct NatObj : Obj { std::shared_ptr<void> p; };
struct RealObj : Obj { double d; };
struct X;
struct LambdaCode;
struct FunObj : Obj { Decl* d = nullptr; Val self; LambdaCode* lam = nullptr; std::vector<Val> caps; std::function<Val(std::vector<Val>&)> nat; };

struct DafnyError : std::runtime_error { using runtime_error::runtime_error; };   // run-time failure of the program under test
struct DafnyHang : std::runtime_error { using runtime_error::runtime_error; };

inline bool itSigned(IT k) { return k >= I_I8 && k <= I_I64; }
inline i128 asI(const Val& v) {
  if (v.t == V_INT) { if (v.it == I_U64) return (i128)v.u; return (i128)v.i; }
  if (v.t == V_BIG) return ((BigObj*)v.o)->v;
  if (v.t == V_CHAR) return (i128)v.u;
  throw DafnyError("integer expected, got value tag " + std::to_string(v.t));
}
inline uint64_t asU(const Val& v) { return (uint64_t)asI(v); }
inline bool asB(const Val& v) { if (v.t != V_BOOL) throw DafnyError("bool expected, got tag " + std::to_string(v.t)); return v.i; }

bool valEq(const Val& a, const Val& b);
int valCmp(const Val& a, const Val& b);
std::string show(const Val& v, int depth = 6);

Val mkSeqBytes(const uint8_t* p, uint64_t n);
Val mkSeqVals(std::vector<Val>&& v);
Val mkSeqBuf(Buf* b, uint64_t off, uint64_t len);   // takes a reference on b
Buf* newBuf(bool bytes, uint64_t n);
inline void bufRef(Buf* b) { b->rc++; }
void bufUnref(Buf* b);
Val seqGet(const Val& s, uint64_t i);
inline uint64_t seqLen(const Val& s) { return ((SeqObj*)s.o)->len; }
Val seqSlice(const Val& s, uint64_t a, uint64_t b);
Val seqConcat(const Val& a, const Val& b);
Val seqUpdate(const Val& s, uint64_t i, const Val& x);
void seqSetInPlace(Val& s, uint64_t i, const Val& x);
std::string seqBytes(const Val& s);            // seq<byte> or array<byte> as std::string
Val bytesSeq(const std::string& s);
Val mkDt(CtorDecl* c, const std::vector<Val>& f);
Val mkTuple(const std::vector<Val>& f);
Val mkSet(); Val mkMap(); Val mkMset();
Val mkArr(Buf* b);
Val deepCopy(const Val& v);
Val convInt(const Val& v, IT k);
extern bool g_copyLiteral;
}
