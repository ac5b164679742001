// Interpreter for the Dafny dialects of /repo (see ast.h): executes the *source* of compiled methods, functions
// and (bounded) specification predicates.
#pragma once
#include "val.h"

namespace dfy {

struct FnCode {
  Decl* d = nullptr; std::string full;
  bool ready = false, compiling = false, isFn = false;
  bool native = false; std::function<void(Val*, Val&)> nat;
  int self = 0, np = 0, no = 0, nslots = 0;       // frame: [this] params outs locals
  bool selfRef = false;
  std::vector<IT> pk, ok; std::vector<char> pskip, pref, oskip; std::vector<Val> odef;
  IT rk = I_NONE;
  X* body = nullptr;
  uint64_t calls = 0;
  struct Memo { Val arg, res; uint64_t steps = 0; };              // functions of one machine integer are remembered
  std::vector<Memo> memo;
};

struct X {
  int line = 0;
  virtual ~X() {}
  virtual Val ev(Val* fp) = 0;
  virtual const Val* peek(Val* fp, Val& tmp) { tmp = ev(fp); return &tmp; }
  virtual Val* lv(Val* fp) { throw Unsupported("not an lvalue (line " + std::to_string(line) + ")"); }
  virtual void assign(Val* fp, Val&& v) { *lv(fp) = std::move(v); }
  virtual int ex(Val* fp) { ev(fp); return 0; }
};

typedef std::function<void(Val*, Val&)> NatFn;    // args at f[0..], outs after the args, function result in ret

struct Engine {
  Program P;
  std::unordered_map<std::string, NatFn> natives;      // used for body-less declarations
  std::unordered_map<std::string, NatFn> overrides;    // replace a body
  std::unordered_map<std::string, Val> constOverride;  // "Module.fn" -> constant
  std::vector<FnCode*> codes;
  uint64_t steps = 0, stepLimit = 2000000000ull;
  Val* stack = nullptr; Val* sp = nullptr; Val* stackEnd = nullptr;
  std::vector<std::string> trace;
  std::string out;                                     // print statements
  bool keepOut = false;
  std::function<uint64_t(uint64_t)> choose;            // resolves :| and * ; default 0
  std::function<void(FnCode*)> onCall;
  std::function<unsigned __int128(Ast*)> litHook;      // tunes integer literals (initial capacities) while compiling
  Engine();
  void load(const std::string& path) { P.load(path); }
  void resolve() { P.resolve(); }
  FnCode* code(Decl* d);
  FnCode* find(const std::string& full);               // "Module.fn" or "Module.Type.fn"
  Decl* findDecl(const std::string& full);
  CtorDecl* ctor(const std::string& full);             // "Module.Type.Ctor" or "Module.Ctor"
  void prepare(FnCode* f);
  void invoke(FnCode* f, Val* nf, Val& ret);
  // harness entry points; refs in args (V_REF) for inout parameters
  Val call(FnCode* f, std::vector<Val> args, std::vector<Val>* outs = nullptr);
  Val call(const std::string& full, std::vector<Val> args, std::vector<Val>* outs = nullptr) { return call(find(full), std::move(args), outs); }
  Val apply(const Val& fun, std::vector<Val> args);
  Val mk(const std::string& ctorName, const std::vector<Val>& f) { return mkDt(ctor(ctorName), f); }
  Val newObj(Decl* cls);
  std::string traceStr();
  void unwind() { while (sp > stack) { --sp; *sp = Val(); } trace.clear(); }
};
extern Engine* EN;
void registerNatives(Engine& e);

// helpers for harness code
inline bool isCtor(const Val& v, const char* n) { return v.t == V_DT && ((DtObj*)v.o)->c->name == n; }
Val field(const Val& v, const char* n);
Val* fieldRef(Val& v, const char* n);
std::vector<Val> elems(const Val& v);                  // seq / set / array elements
}
