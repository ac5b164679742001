// AST + parser interface for the Dafny dialects used in /repo (stock Dafny 2.3 and the linear-Dafny fork).
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <stdexcept>
#include <functional>
#include <memory>

namespace dfy {

struct File { std::string path; };

enum TokKind : uint8_t { T_EOF, T_ID, T_NUM, T_STR, T_CHR, T_OP };
struct Tok { TokKind k; int line; const std::string* s; };   // s is interned

struct Unsupported : std::runtime_error { using runtime_error::runtime_error; };

struct Type {
  std::string name;                // qualified, '.' separated; "->" for arrows; "()" tuple
  std::vector<Type*> args;
  int line = 0;
};

enum AK : uint8_t {
  // expressions
  E_INT, E_BOOL, E_NULL, E_STR, E_CHR, E_THIS, E_NAME, E_DOT, E_CALL, E_INDEX, E_SLICE, E_UPDATE, E_DTUPD,
  E_BIN, E_UN, E_CHAIN, E_IF, E_MATCH, E_LET, E_QUANT, E_SETCOMP, E_MAPCOMP, E_SEQCOMP,
  E_SETDISP, E_SEQDISP, E_MAPDISP, E_MSDISP, E_MSCONV, E_LAMBDA, E_CARD, E_OLD, E_AS, E_IS, E_TUPLE, E_STMTEXPR, E_FRESH,
  E_STAR, E_NEW, E_REAL, E_OPERATOR,
  // statements
  S_BLOCK, S_VAR, S_ASSIGN, S_CALL, S_IF, S_WHILE, S_MATCH, S_RETURN, S_BREAK, S_SKIP, S_PRINT, S_LABEL, S_ASSERT, S_FORALL, S_SUCHTHAT,
  S_IFALT, S_WHILEALT,
  // patterns
  P_VAR, P_CTOR, P_LIT, P_TUPLE,
};

struct Binding { std::string name; Type* ty = nullptr; bool ghost = false, lin = false; };

struct Ast {
  AK k;
  int line = 0;
  const File* file = nullptr;
  std::string s;                    // name / operator
  std::vector<Ast*> c;              // children
  std::vector<Ast*> c2;             // second child list
  std::vector<std::string> names;   // ops in chains, field names in updates
  std::vector<Binding> binds;
  std::vector<Type*> targs;
  Type* ty = nullptr;
  bool ghost = false, inout = false, flag = false, paren = false, lin = false;
  unsigned __int128 num = 0;
};

enum DK : uint8_t { D_MODULE, D_DATATYPE, D_CLASS, D_TYPE, D_FN, D_CONST, D_FIELD };
enum FK : uint8_t { F_FUNCTION, F_METHOD, F_LEMMA, F_CTOR };

struct Module;
struct Decl;

struct Param { std::string name; Type* ty = nullptr; bool ghost = false, inout = false, lin = false; };

struct Spec { std::string kw; Ast* e = nullptr; };

struct CtorDecl { std::string name; std::vector<Param> fields; Decl* dt = nullptr; int index = 0; int line = 0; };

struct FnCode;      // compiled form (interp)
struct DtInfo;

struct Decl {
  DK k;
  std::string name;
  int line = 0;
  const File* file = nullptr;
  Module* mod = nullptr;         // module whose scope resolves names inside
  Decl* owner = nullptr;         // enclosing datatype/class
  bool isStatic = false, ghost = false, linear = false, isAbstract = false;
  std::vector<std::string> tparams;
  std::map<std::string, std::vector<std::string>> attrs;
  // functions / methods
  FK fk = F_FUNCTION;
  bool isPredicate = false;
  bool thisInout = false;
  std::vector<Param> params, outs;
  Type* result = nullptr; std::string resultName;
  std::vector<Spec> specs;
  int bodyFile = -1, bodyBegin = -1, bodyEnd = -1;   // token range of the body, braces excluded
  Ast* body = nullptr; bool bodyParsed = false;
  // types
  Type* ty = nullptr;            // synonym / newtype base
  std::string tyVar; Ast* constraint = nullptr; bool isNewtype = false; bool extends = false;
  std::vector<CtorDecl*> ctors;
  std::vector<Decl*> members;
  std::map<std::string, Decl*> memberMap;
  std::vector<std::string> traits;
  // const / field
  Ast* init = nullptr;
  // interp
  FnCode* code = nullptr;
  void* rt = nullptr;
};

struct Import { std::string alias; std::vector<std::string> path; std::vector<std::string> exportSets; bool opened = false; bool abstract_ = false; Module* target = nullptr; };
struct ExportSet { std::string name; bool all = false; std::vector<std::string> names, extends; };

struct Module {
  std::string name, full;
  Module* parent = nullptr;
  bool isAbstract = false;
  std::vector<std::string> refinesPath;
  Module* refines = nullptr;
  std::vector<Decl*> decls;
  std::vector<Module*> subs;
  std::vector<Import> imports;
  std::vector<ExportSet> exports;
  std::map<std::string, std::vector<std::string>> attrs;
  const File* file = nullptr; int line = 0;
  // resolved
  bool resolved = false;
  std::unordered_map<std::string, Decl*> declMap;
  std::unordered_map<std::string, CtorDecl*> ctorMap;
  std::unordered_map<std::string, Module*> subMap;
  std::unordered_map<std::string, int> importMap;
};

struct SourceFile { File* file; std::vector<Tok> toks; };

struct Program {
  std::vector<SourceFile*> files;
  std::unordered_map<std::string, int> fileIndex;
  Module root;
  std::vector<Module*> allModules;
  void load(const std::string& path);         // loads with its include closure
  void loadText(const std::string& name, const std::string& text);
  void resolve();
  Module* findModule(const std::string& full);
  Ast* bodyOf(Decl* d);
private:
  void loadInto(const std::string& name, const std::string& text, const std::string& dir);
};

const std::string* intern(const std::string& s);
Decl* cloneDecl(Decl* d, Module* m, Decl* owner);
}
