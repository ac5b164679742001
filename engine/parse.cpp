// Lexer, parser and module resolution.
#include "ast.h"
#include <fstream>
#include <sstream>
#include <set>
#include <cstring>
#include <cstdlib>

namespace dfy {
using std::string; using std::vector;

const string* intern(const string& s) {
  static std::unordered_set<string> pool;
  return &*pool.insert(s).first;
}

static bool idStart(char c) { return isalpha((unsigned char)c) || c == '_' || c == '?'; }
static bool idChar(char c) { return isalnum((unsigned char)c) || c == '_' || c == '?' || c == '\''; }

static void lex(const string& path, const string& t, vector<Tok>& out) {
  size_t i = 0, n = t.size(); int line = 1;
  auto push = [&](TokKind k, const string& s) { out.push_back(Tok{k, line, intern(s)}); };
  static const char* ops3[] = {"<==>", "==>", "<==", "...", "!in", "-->", "~~>", "!!", nullptr};
  static const char* ops2[] = {":=", ":|", "::", "==", "!=", "<=", ">=", "&&", "||", "..", "=>", "->", "~>", "<<", ">>", nullptr};
  while (i < n) {
    char c = t[i];
    if (c == '\n') { line++; i++; continue; }
    if (isspace((unsigned char)c)) { i++; continue; }
    if (c == '/' && i + 1 < n && t[i+1] == '/') { while (i < n && t[i] != '\n') i++; continue; }
    if (c == '/' && i + 1 < n && t[i+1] == '*') {
      int d = 1; i += 2;
      while (i < n && d) {
        if (t[i] == '\n') line++;
        if (t[i] == '/' && i+1 < n && t[i+1] == '*') { d++; i += 2; }
        else if (t[i] == '*' && i+1 < n && t[i+1] == '/') { d--; i += 2; }
        else i++;
      }
      continue;
    }
    if (c == '"' || (c == '@' && i+1 < n && t[i+1] == '"')) {
      bool verb = c == '@'; if (verb) i++;
      i++; string s; int l0 = line;
      while (i < n) {
        if (verb) {
          if (t[i] == '"') { if (i+1 < n && t[i+1] == '"') { s += '"'; i += 2; continue; } break; }
          if (t[i] == '\n') line++;
          s += t[i++];
        } else {
          if (t[i] == '"') break;
          if (t[i] == '\\') {
            char e = t[i+1]; i += 2;
            switch (e) { case 'n': s += '\n'; break; case 't': s += '\t'; break; case 'r': s += '\r'; break; case '0': s += '\0'; break; default: s += e; }
            continue;
          }
          s += t[i++];
        }
      }
      i++;
      out.push_back(Tok{T_STR, l0, intern(s)}); continue;
    }
    if (c == '\'' && i + 2 < n && (t[i+2] == '\'' || (t[i+1] == '\\'))) {
      string s;
      if (t[i+1] == '\\') { char e = t[i+2]; s = e == 'n' ? "\n" : e == 't' ? "\t" : string(1, e); i += 4; }
      else { s = t[i+1]; i += 3; }
      push(T_CHR, s); continue;
    }
    if (isdigit((unsigned char)c)) {
      string s; size_t j = i; bool hex = c == '0' && i+1 < n && (t[i+1] == 'x' || t[i+1] == 'X');
      if (hex) { s = "0x"; j += 2; while (j < n && (isxdigit((unsigned char)t[j]) || t[j] == '_')) { if (t[j] != '_') s += t[j]; j++; } }
      else {
        while (j < n && (isdigit((unsigned char)t[j]) || (t[j] == '_' && j+1 < n && isdigit((unsigned char)t[j+1])))) { if (t[j] != '_') s += t[j]; j++; }
        if (j + 1 < n && t[j] == '.' && isdigit((unsigned char)t[j+1])) {
          // a real literal -- unless this is a tuple projection (handled by parser: previous token is '.')
          bool proj = !out.empty() && out.back().k == T_OP && *out.back().s == ".";
          if (!proj) { s += '.'; j++; while (j < n && isdigit((unsigned char)t[j])) s += t[j++]; }
        }
      }
      i = j; push(T_NUM, s); continue;
    }
    if (idStart(c)) {
      size_t j = i; while (j < n && idChar(t[j])) j++;
      push(T_ID, t.substr(i, j - i)); i = j; continue;
    }
    bool done = false;
    for (int k = 0; ops3[k]; k++) {
      size_t l = strlen(ops3[k]);
      if (t.compare(i, l, ops3[k]) == 0) {
        if (!strcmp(ops3[k], "!in") && i + 3 < n && idChar(t[i+3])) continue;
        push(T_OP, ops3[k]); i += l; done = true; break;
      }
    }
    if (done) continue;
    for (int k = 0; ops2[k]; k++) if (t.compare(i, 2, ops2[k]) == 0) { push(T_OP, ops2[k]); i += 2; done = true; break; }
    if (done) continue;
    push(T_OP, string(1, c)); i++;
  }
  out.push_back(Tok{T_EOF, line, intern("")});
}

struct Parser {
  Program& P; SourceFile* sf; int fileIdx; size_t p, end;
  File* file;
  static const string* S(const char* s) { return intern(s); }
  Parser(Program& P, int fi, size_t b, size_t e) : P(P), sf(P.files[fi]), fileIdx(fi), p(b), end(e), file(P.files[fi]->file) {}
  const Tok& tk(int o = 0) { size_t q = p + o; static Tok eof{T_EOF, 0, intern("")}; if (q >= end) { eof.line = sf->toks[end ? end-1 : 0].line; return eof; } return sf->toks[q]; }
  bool is(const char* s, int o = 0) { const Tok& t = tk(o); return (t.k == T_ID || t.k == T_OP) && *t.s == s; }
  bool accept(const char* s) { if (is(s)) { p++; return true; } return false; }
  [[noreturn]] void err(const string& m) { throw Unsupported(file->path + ":" + std::to_string(tk().line) + ": parse error: " + m + " near '" + *tk().s + "'"); }
  void expect(const char* s) { if (!accept(s)) err(string("expected '") + s + "'"); }
  string ident() { if (tk().k != T_ID) err("expected identifier"); return *sf->toks[p++].s; }
  Ast* mk(AK k) { Ast* a = new Ast; a->k = k; a->line = tk().line; a->file = file; return a; }

  // ---- attributes
  std::map<string, vector<string>> attrs() {
    std::map<string, vector<string>> r;
    while (is("{") && is(":", 1)) {
      p += 2; string n = ident(); vector<string> v; int d = 1;
      while (d && p < end) {
        if (is("{")) d++; else if (is("}")) { d--; if (!d) { p++; break; } }
        if (tk().k == T_STR) v.push_back(*tk().s);
        p++;
      }
      r[n] = v;
    }
    return r;
  }

  // ---- types
  Type* type() {
    Type* t = typePrim();
    if (is("->") || is("~>") || is("-->")) {
      p++; Type* r = type();
      Type* a = new Type; a->name = "->"; a->line = tk().line; a->args = {t, r}; return a;
    }
    return t;
  }
  Type* typePrim() {
    while (is("linear") || is("shared") || is("inout") || is("glinear") || is("gshared")) p++;
    if (is("ghost")) p++;
    Type* t = new Type; t->line = tk().line;
    if (accept("(")) {
      t->name = "()";
      if (!is(")")) do { while (is("linear") || is("shared") || is("ghost")) p++; t->args.push_back(type()); } while (accept(","));
      expect(")");
      if (t->args.size() == 1) return t->args[0];
      return t;
    }
    t->name = ident();
    while (is(".") && tk(1).k == T_ID) { p++; t->name += "." + ident(); }
    if (is("<")) { p++; do t->args.push_back(type()); while (!angleDebt && accept(",")); closeAngle(); }
    while (is(".") && tk(1).k == T_ID) { p++; t->name += "." + ident(); if (is("<")) { p++; t->args.clear(); do t->args.push_back(type()); while (!angleDebt && accept(",")); closeAngle(); } }
    if (is("?") ) p++;
    return t;
  }
  int angleDebt = 0;
  void closeAngle() {
    if (angleDebt) { angleDebt--; return; }
    if (accept(">")) return;
    if (is(">>")) { p++; angleDebt++; return; }
    err("expected '>'");
  }
  bool tryTypeArgs(vector<Type*>& out) {   // at '<'
    size_t save = p; int sd = angleDebt;
    try {
      p++; vector<Type*> v;
      if (tk().k != T_ID && !is("(")) throw Unsupported("");
      do v.push_back(type()); while (angleDebt == sd && accept(","));
      closeAngle();
      if (angleDebt != sd) throw Unsupported("");
      const Tok& t = tk();
      bool ok = false;
      if (t.k == T_OP) { static const std::set<string> f = {"(", ".", ")", ",", ";", "]", "}", "==", "!=", "{", "[", "::", ":="}; ok = f.count(*t.s); }
      if (t.k == T_EOF) ok = true;
      // a '(' right after '>' is a generic call; but "a < b && c > (d)" never parses as a type list because of '&&'
      if (!ok) throw Unsupported("");
      out = v; return true;
    } catch (Unsupported&) { p = save; angleDebt = sd; return false; }
  }

  // ---- expressions
  bool noBitOr = false;
  bool curLemma = true;
  Ast* expr(bool lemma = true) {
    bool sl = curLemma; curLemma = lemma;
    struct R { bool& r; bool v; ~R() { r = v; } } rst{curLemma, sl};
    Ast* e = equiv();
    if (lemma && is(";") && stmtExprFollows()) {
      // lemma call as statement expression: "L(x); e"
      p++; return expr(true);
    }
    return e;
  }
  bool stmtExprFollows() {
    // after ';' an expression must follow for "Lemma(); e"
    const Tok& t = tk(1);
    if (t.k == T_EOF) return false;
    if (t.k == T_OP) { static const std::set<string> no = {"}", ")", "]", ",", ";"}; if (no.count(*t.s)) return false; return true; }
    if (t.k == T_ID) {
      static const std::set<string> no = {"invariant", "decreases", "requires", "ensures", "reads", "modifies", "method", "function", "predicate", "lemma", "static", "ghost", "case", "then", "else", "do",
        "module", "import", "datatype", "class", "type", "newtype", "const", "export", "abstract", "protected", "constructor", "while", "return", "free", "inductive", "linear", "shared", "copredicate", "in", "by", "twostate", "trait", "codatatype"};
      if ((*t.s == "ghost" || *t.s == "linear" || *t.s == "shared") && tk(2).k == T_ID && *tk(2).s == "var") return true;
      if (*t.s == "linear" && tk(2).k == T_ID && (*tk(2).s == "match" || *tk(2).s == "if")) return true;
      return !no.count(*t.s);
    }
    return true;
  }
  Ast* bin(const string& op, Ast* a, Ast* b) { Ast* r = mk(E_BIN); r->s = op; r->c = {a, b}; r->line = a->line; return r; }
  Ast* equiv() { Ast* a = implies(); while (is("<==>")) { p++; Ast* b = implies(); a = bin("<==>", a, b); } return a; }
  Ast* implies() {
    Ast* a = logical();
    if (is("==>")) { p++; Ast* b = implies(); return bin("==>", a, b); }
    while (is("<==")) { p++; Ast* b = logical(); a = bin("==>", b, a); }
    return a;
  }
  Ast* logical() {
    if (is("&&") || is("||")) {
      string op = *tk().s; p++;
      Ast* a = relational();
      while (is(op.c_str())) { p++; Ast* b = relational(); a = bin(op, a, b); }
      return a;
    }
    Ast* a = relational();
    while (is("&&") || is("||")) { string op = *tk().s; p++; Ast* b = relational(); a = bin(op, a, b); }
    return a;
  }
  bool relop(string& op) {
    static const std::set<string> ops = {"==", "!=", "<", "<=", ">", ">=", "in", "!in", "!!"};
    const Tok& t = tk();
    if ((t.k == T_OP || (t.k == T_ID && *t.s == "in")) && ops.count(*t.s)) { op = *t.s; return true; }
    if (t.k == T_OP && *t.s == "!" && is("in", 1)) { op = "!in"; p++; return true; }
    return false;
  }
  Ast* relational() {
    Ast* a = shift(); string op;
    if (!relop(op)) return a;
    p++;
    if (op == "==" && is("#")) skipBalanced("[", "]");
    Ast* b = shift();
    string op2;
    if (!relop(op2)) return bin(op, a, b);
    Ast* ch = mk(E_CHAIN); ch->c = {a, b}; ch->names = {op};
    while (relop(op2)) { p++; Ast* x = shift(); ch->c.push_back(x); ch->names.push_back(op2); }
    return ch;
  }
  void skipBalanced(const char* o, const char* c) { while (!is(o)) p++; int d = 0; do { if (is(o)) d++; if (is(c)) d--; p++; } while (d); }
  Ast* shift() { Ast* a = term(); while (is("<<") || (is(">>"))) { string op = *tk().s; p++; Ast* b = term(); a = bin(op, a, b); } return a; }
  Ast* term() { Ast* a = factor(); while (is("+") || is("-")) { string op = *tk().s; p++; Ast* b = factor(); a = bin(op, a, b); } return a; }
  Ast* factor() { Ast* a = bitv(); while (is("*") || is("/") || is("%")) { string op = *tk().s; p++; Ast* b = bitv(); a = bin(op, a, b); } return a; }
  Ast* bitv() {
    Ast* a = asE();
    while (is("&") || is("^") || (is("|") && !noBitOr && bitOrOk())) { string op = *tk().s; p++; Ast* b = asE(); a = bin(op, a, b); }
    return a;
  }
  bool bitOrOk() { return true; }
  Ast* asE() {
    Ast* a = unary();
    while (is("as") || is("is")) { bool as = is("as"); Ast* r = mk(as ? E_AS : E_IS); p++; r->ty = asType(); r->c = {a}; a = r; }
    return a;
  }
  Type* asType() { if (is("(")) return type(); Type* t = new Type; t->line = tk().line; t->name = ident(); while (is(".") && tk(1).k == T_ID) { p++; t->name += "." + ident(); } return t; }
  Ast* unary() {
    if (is("-")) { Ast* r = mk(E_UN); r->s = "-"; p++; r->c = {unary()}; return r; }
    if (is("!")) { Ast* r = mk(E_UN); r->s = "!"; p++; r->c = {unary()}; return r; }
    return suffix(primary());
  }
  vector<Ast*> args() {   // after '('
    vector<Ast*> v; bool sb = noBitOr; noBitOr = false; bool sn = noLambda; noLambda = false;
    if (!is(")")) do {
      bool io = false, gh = false;
      while (is("linear") || is("shared") || is("inout") || is("ghost") || is("glinear") || is("gshared")) { if (is("linear") && (is("match", 1) || is("if", 1) || is("var", 1))) break; if (is("shared") && (is("match", 1) || is("var", 1))) break; if (is("ghost") && is("var", 1)) break; if (is("inout")) io = true; if (is("ghost")) gh = true; p++; }
      Ast* e = expr();
      if (io || gh) { e->inout = io; if (gh) e->ghost = true; }
      if (is(":=")) { p++; e = expr(); }
      v.push_back(e);
    } while (accept(","));
    expect(")"); noBitOr = sb; noLambda = sn;
    return v;
  }
  Ast* suffix(Ast* e) {
    for (;;) {
      if (is("(")) {
        Ast* r = mk(E_CALL); p++; r->c = {e}; r->c2 = args(); e = r;
      } else if (is(".") && is("(", 1)) {
        Ast* r = mk(E_DTUPD); p += 2; r->c = {e}; bool sb = noBitOr; noBitOr = false;
        do {
          string n; if (tk().k == T_NUM || tk().k == T_ID) { n = *tk().s; p++; } else err("field name");
          expect(":=");
          while (is("linear") || is("shared")) { if (is("match", 1) || is("if", 1)) break; p++; }
          r->names.push_back(n); r->c2.push_back(expr());
        } while (accept(","));
        expect(")"); noBitOr = sb; e = r;
      } else if (is(".") && (tk(1).k == T_ID || tk(1).k == T_NUM)) {
        Ast* r = mk(E_DOT); p++; r->s = *tk().s; p++; r->c = {e};
        if (is("<")) tryTypeArgs(r->targs);
        e = r;
      } else if (is("[")) {
        Ast* r = mk(E_INDEX); p++; bool sb = noBitOr; noBitOr = false;
        if (is("..")) { p++; r->k = E_SLICE; r->c = {e, nullptr, nullptr}; if (!is("]")) r->c[2] = expr(); }
        else {
          Ast* i = expr();
          if (accept("..")) { r->k = E_SLICE; r->c = {e, i, nullptr}; if (!is("]")) r->c[2] = expr(); }
          else if (is(":=")) { r->k = E_UPDATE; r->c = {e}; r->c2.push_back(i); p++; r->c2.push_back(expr()); while (accept(",")) { r->c2.push_back(expr()); expect(":="); r->c2.push_back(expr()); } }
          else { r->c = {e, i}; while (accept(",")) r->c.push_back(expr()); }
        }
        expect("]"); noBitOr = sb; e = r;
      } else if (is("`") && tk(1).k == T_ID) { p += 2; }
      else if (is("#") && is("[", 1)) { skipBalanced("[", "]"); }
      else break;
    }
    return e;
  }
  vector<Binding> qvars() {
    vector<Binding> v;
    do { Binding b; if (is("ghost")) p++; b.name = ident(); if (accept(":")) b.ty = type(); if (is("<-")) {} v.push_back(b); } while (accept(","));
    return v;
  }
  Ast* quantDomain(Ast* r) {
    r->binds = qvars(); attrs();
    r->c = {nullptr, nullptr};
    if (is("|")) { p++; bool sb = noBitOr; noBitOr = false; r->c[0] = expr(curLemma); noBitOr = sb; }
    return r;
  }
  Ast* casePattern() {
    Ast* r; bool gp = false;
    while (is("linear") || is("shared") || is("ghost") || is("glinear") || is("gshared")) { if (is("ghost") || is("glinear") || is("gshared")) gp = true; p++; }
    if (gp) { r = casePattern(); r->ghost = true; return r; }
    if (accept("(")) {
      r = mk(P_TUPLE);
      if (!is(")")) do r->c.push_back(casePattern()); while (accept(","));
      expect(")"); return r;
    }
    if (tk().k == T_NUM || is("true") || is("false") || tk().k == T_STR || tk().k == T_CHR || is("-")) { r = mk(P_LIT); r->c = {unary()}; return r; }
    r = mk(P_VAR); r->s = ident();
    while (is(".") ) { p++; r->s = ident(); r->k = P_CTOR; }
    if (accept("(")) { r->k = P_CTOR; if (!is(")")) do r->c.push_back(casePattern()); while (accept(",")); expect(")"); }
    else if (accept(":")) r->ty = type();
    return r;
  }
  bool lambdaAhead() {
    if (noLambda) return false;
    // at identifier: x => ; at '(': (x, y: T) => / requires / reads
    if (tk().k == T_ID && is("=>", 1)) return true;
    if (tk().k == T_ID && (is("requires", 1) || is("reads", 1)) && !isKeyword(*tk().s)) return arrowBefore(p + 1);
    if (is("(")) {
      int d = 0; size_t q = p;
      for (; q < end; q++) {
        const Tok& t = sf->toks[q];
        if (t.k == T_OP) { if (*t.s == "(") d++; else if (*t.s == ")") { d--; if (!d) break; } else if (*t.s == ":=" || *t.s == ";" || *t.s == "{") return false; }
      }
      if (q + 1 < end) { const Tok& t = sf->toks[q+1]; if (t.k == T_OP && *t.s == "=>") return parenIsParams(p, q); if (t.k == T_ID && (*t.s == "requires" || *t.s == "reads")) return parenIsParams(p, q) && arrowBefore(q + 1); }
    }
    return false;
  }
  bool arrowBefore(size_t q) {
    int d = 0;
    for (; q < end; q++) {
      const Tok& t = sf->toks[q];
      if (t.k == T_OP) {
        if (*t.s == "(" || *t.s == "[") d++;
        else if (*t.s == ")" || *t.s == "]") { if (--d < 0) return false; }
        else if (*t.s == "=>" && d == 0) return true;
        else if (*t.s == ";" || *t.s == "{" || *t.s == "}") return false;
      } else if (t.k == T_ID && (*t.s == "ensures" || *t.s == "case" || *t.s == "method" || *t.s == "function" || *t.s == "lemma" || *t.s == "predicate")) return false;
    }
    return false;
  }
  bool parenIsParams(size_t b, size_t e) { for (size_t q = b; q <= e; q++) { const Tok& t = sf->toks[q]; if (t.k == T_NUM || t.k == T_STR) return false; if (t.k == T_OP && (*t.s == "==" || *t.s == "+" || *t.s == "|" || *t.s == "[" || *t.s == "&&" || *t.s == "..")) return false; } return true; }
  static bool isKeyword(const string& s) {
    static const std::set<string> k = {"if","then","else","match","case","forall","exists","var","set","iset","map","imap","seq","multiset","true","false","null","this","old","fresh","assert","assume","calc","new","while","return","in","reveal","invariant","decreases","requires","ensures","reads","modifies"};
    return k.count(s);
  }
  bool noLambda = false;
  Ast* primary() {
    const Tok& t = tk();
    Ast* r;
    if (t.k == T_NUM) {
      const string& s = *t.s;
      if (s.find('.') != string::npos) { r = mk(E_REAL); r->s = s; p++; return r; }
      r = mk(E_INT); unsigned __int128 v = 0;
      if (s.size() > 2 && s[1] == 'x') { for (size_t i = 2; i < s.size(); i++) v = v * 16 + (isdigit(s[i]) ? s[i]-'0' : (tolower(s[i])-'a'+10)); }
      else for (char ch : s) v = v * 10 + (ch - '0');
      r->num = v; p++; return r;
    }
    if (t.k == T_STR) { r = mk(E_STR); r->s = *t.s; p++; return r; }
    if (t.k == T_CHR) { r = mk(E_CHR); r->s = *t.s; p++; return r; }
    if (t.k == T_OP) {
      if (*t.s == "(") {
        if (lambdaAhead()) return lambda();
        r = mk(E_TUPLE); p++; bool sb = noBitOr; noBitOr = false;
        if (is(")")) { p++; noBitOr = sb; return r; }
        bool many = false;
        do {
          while (is("linear") || is("shared") || is("ghost") || is("inout") || is("glinear") || is("gshared")) { if (is("match", 1) || is("if", 1) || is("var", 1)) break; p++; }
          if (is(")") && many) break;
          r->c.push_back(expr());
          if (is(",")) many = true;
        } while (accept(","));
        expect(")"); noBitOr = sb;
        if (!many) { Ast* e = r->c[0]; e->paren = true; return e; }
        return r;
      }
      if (*t.s == "[") { r = mk(E_SEQDISP); p++; bool sb = noBitOr; noBitOr = false; if (!is("]")) do { if (is("]")) break; r->c.push_back(expr()); } while (accept(",")); expect("]"); noBitOr = sb; return r; }
      if (*t.s == "{") { r = mk(E_SETDISP); p++; bool sb = noBitOr; noBitOr = false; if (!is("}")) do r->c.push_back(expr()); while (accept(",")); expect("}"); noBitOr = sb; return r; }
      if (*t.s == "|") { r = mk(E_CARD); p++; bool sb = noBitOr; noBitOr = true; r->c = {expr()}; noBitOr = sb; expect("|"); return r; }
      if (*t.s == "*") { r = mk(E_STAR); p++; return r; }
      err("expression");
    }
    if (t.k != T_ID) err("expression");
    const string& s = *t.s;
    if (s == "true" || s == "false") { r = mk(E_BOOL); r->flag = s == "true"; p++; return r; }
    if (s == "null") { r = mk(E_NULL); p++; return r; }
    if (s == "this") { r = mk(E_THIS); p++; return r; }
    if ((s == "linear" || s == "shared") && (is("match", 1) || is("if", 1))) { bool L = s == "linear"; p++; Ast* e = primary(); if (L) e->lin = true; return e; }
    if ((s == "linear" || s == "shared" || s == "ghost" || s == "glinear" || s == "gshared") && is("var", 1)) { bool g = s == "ghost" || s == "glinear" || s == "gshared", L = s == "linear"; p++; Ast* e = primary(); if (g) e->ghost = true; if (L) e->lin = true; return e; }
    if (s == "ghost" && (is("linear", 1) || is("shared", 1))) { p++; return primary(); }
    if (s == "linear" || s == "shared") { if (tk(1).k == T_ID || is("(", 1)) { p++; return primary(); } }
    if (s == "if") {
      r = mk(E_IF); p++;
      if (tk().k == T_ID && is(":|", 1)) { Binding b; b.name = ident(); p++; r->binds.push_back(b); }
      Ast* c = expr(false); bool L = curLemma; expect("then"); Ast* a = expr(); expect("else"); Ast* b = expr(L);
      r->c = {c, a, b}; return r;
    }
    if (s == "match") {
      r = mk(E_MATCH); p++; bool L = curLemma; r->c = {expr(false)};
      bool br = false;
      if (is("{") ) { p++; br = true; }
      while (is("case")) { p++; Ast* pt = casePattern(); expect("=>"); Ast* e = expr(br || L); r->c2.push_back(pt); r->c2.push_back(e); }
      if (br) expect("}");
      return r;
    }
    if (s == "var") {
      r = mk(E_LET); p++; bool L = curLemma;
      do r->c.push_back(casePattern()); while (accept(","));
      if (accept(":|")) { r->flag = true; r->c2.push_back(expr(false)); }
      else {
        expect(":=");
        do { while ((is("linear") || is("shared")) && !is("match", 1) && !is("if", 1)) p++; r->c2.push_back(expr(false)); } while (accept(","));
      }
      expect(";");
      r->c.push_back(expr(L));   // body is last
      return r;
    }
    if (s == "forall" || s == "exists") {
      r = mk(E_QUANT); r->s = s; p++; quantDomain(r); expect("::"); r->c[1] = expr(false); return r;
    }
    if ((s == "set" || s == "iset") && tk(1).k == T_ID && !is("in", 1)) {
      r = mk(E_SETCOMP); p++; quantDomain(r); if (accept("::")) r->c[1] = expr(curLemma); return r;
    }
    if ((s == "map" || s == "imap") ) {
      if (is("[", 1)) { r = mk(E_MAPDISP); p += 2; bool sb = noBitOr; noBitOr = false; if (!is("]")) do { r->c.push_back(expr()); expect(":="); r->c.push_back(expr()); } while (accept(",")); expect("]"); noBitOr = sb; return r; }
      if (tk(1).k == T_ID && !is("in", 1)) { r = mk(E_MAPCOMP); p++; quantDomain(r); expect("::"); r->c[1] = expr(curLemma); if (accept(":=")) { r->c2 = {r->c[1]}; r->c[1] = expr(curLemma); } return r; }
    }
    if (s == "seq" && (is("(", 1))) { r = mk(E_SEQCOMP); p += 2; bool sb = noBitOr; noBitOr = false; r->c.push_back(expr()); expect(","); r->c.push_back(expr()); expect(")"); noBitOr = sb; return r; }
    if (s == "seq" && is("<", 1)) { vector<Type*> ta; size_t sv = p; p++; if (tryTypeArgs(ta) && is("(")) { p++; r = mk(E_SEQCOMP); bool sb = noBitOr; noBitOr = false; r->c.push_back(expr()); expect(","); r->c.push_back(expr()); expect(")"); noBitOr = sb; return r; } p = sv; }
    if (s == "multiset") {
      if (is("{", 1)) { r = mk(E_MSDISP); p += 2; if (!is("}")) do r->c.push_back(expr()); while (accept(",")); expect("}"); return r; }
      if (is("(", 1)) { r = mk(E_MSCONV); p += 2; r->c = {expr()}; expect(")"); return r; }
    }
    if (s == "iset" && is("{", 1)) { p++; return primary(); }
    if (s == "old" && (is("(", 1) || is("@", 1))) { r = mk(E_OLD); p++; if (accept("@")) ident(); expect("("); r->c = {expr()}; expect(")"); return r; }
    if ((s == "fresh" || s == "allocated" || s == "unchanged") && is("(", 1)) { r = mk(E_FRESH); p += 2; r->c = {expr()}; expect(")"); return r; }
    if (s == "assert" || s == "assume") {
      p++; attrs(); if (tk().k == T_ID && is(":", 1) && !is("::", 1)) p += 2;
      Ast* e = expr(false); (void)e;
      if (is("by")) { p++; skipBraces(); accept(";"); } else expect(";");
      return expr();
    }
    if (s == "calc") { p++; attrs(); while (!is("{")) p++; skipBraces(); accept(";"); return expr(); }
    if (s == "reveal" && tk(1).k == T_ID) { p++; expr(false); while (accept(",")) expr(false); expect(";"); return expr(); }
    if (s == "operator" && (is("'", 1) || is("(", 1))) err("operator");
    if (lambdaAhead() && !noLambda && !isKeyword(s)) return lambda();
    r = mk(E_NAME); r->s = s; p++;
    if (is("<")) tryTypeArgs(r->targs);
    return r;
  }
  void skipBraces() { int d = 0; if (!is("{")) err("expected {"); do { if (p >= end) err("unbalanced"); if (is("{")) d++; else if (is("}")) d--; p++; } while (d); }
  Ast* lambda() {
    Ast* r = mk(E_LAMBDA);
    if (accept("(")) {
      if (!is(")")) do { while (is("linear") || is("shared") || is("inout") || is("ghost")) p++; Binding b; b.name = ident(); if (accept(":")) b.ty = type(); r->binds.push_back(b); } while (accept(","));
      expect(")");
    } else { Binding b; b.name = ident(); r->binds.push_back(b); }
    bool sn = noLambda; noLambda = true;
    while (is("requires") || is("reads")) { bool rq = is("requires"); p++; Ast* e = expr(false); if (rq) r->c2.push_back(e); while (accept(",")) expr(false); }
    noLambda = sn;
    expect("=>");
    r->c = {expr(false)};
    return r;
  }

  // ---- statements
  Ast* block() { Ast* b = mk(S_BLOCK); expect("{"); while (!is("}")) { if (p >= end) err("unterminated block"); stmt(b->c); } expect("}"); return b; }
  Ast* blockBody() { Ast* b = mk(S_BLOCK); while (p < end) stmt(b->c); return b; }
  Ast* rhs() {
    if (is("new")) {
      Ast* r = mk(E_NEW); p++;
      if (is("[")) { r->ty = nullptr; }
      else r->ty = newType();
      if (accept("[")) {
        r->flag = true;
        if (!is("]")) do r->c.push_back(expr()); while (accept(","));
        expect("]");
        if (is("(") ) { p++; r->c2.push_back(expr()); expect(")"); }
        else if (is("[")) { Ast* d = primary(); r->names.push_back("init"); r->c2.push_back(d); }
      } else if (accept("(")) { r->c2 = args(); r->paren = true; }
      return r;
    }
    if (is("*")) { Ast* r = mk(E_STAR); p++; return r; }
    while ((is("linear") || is("shared") || is("inout") || is("ghost")) && !is("match", 1) && !is("if", 1) && !is("var", 1)) p++;
    return expr(false);
  }
  Type* newType() {
    Type* t = new Type; t->line = tk().line; t->name = ident();
    for (;;) {
      if (is(".") && tk(1).k == T_ID) { p++; t->name += "." + ident(); }
      else if (is("<")) { p++; do t->args.push_back(type()); while (!angleDebt && accept(",")); closeAngle(); }
      else break;
    }
    return t;
  }
  bool isSpecStart() { return is("invariant") || is("decreases") || is("modifies") || is("free"); }
  void loopSpecs(Ast* w) {
    while (isSpecStart()) {
      if (is("free")) p++;
      bool inv = is("invariant"); p++; attrs();
      do {
        if (is("*")) { p++; continue; }
        Ast* e = expr(false);
        if (is(";") ) {
          // legacy trailing semicolon, or let-expression handled in expr
          p++;
        }
        if (inv) w->c2.push_back(e);
      } while (accept(","));
    }
  }
  Ast* guard() {   // if/while guard
    return is("*") && (is("{", 1) || isSpecAt(1)) ? (p++, mk(E_STAR)) : expr(false);
  }
  bool isSpecAt(int o) { return is("invariant", o) || is("decreases", o) || is("modifies", o); }
  void stmt(vector<Ast*>& out) {
    const Tok& t = tk();
    if (t.k == T_OP) {
      if (*t.s == "{") { out.push_back(block()); return; }
      if (*t.s == ";") { p++; return; }
    }
    if (t.k == T_ID) {
      const string& s = *t.s;
      // modifiers
      if ((s == "ghost" || s == "linear" || s == "shared" || s == "glinear" || s == "gshared")) {
        int o = 0; bool g = false;
        while (is("ghost", o) || is("linear", o) || is("shared", o) || is("glinear", o) || is("gshared", o)) { if (is("ghost", o)) g = true; o++; }
        bool L = false; for (int q = 0; q < o; q++) { if (is("linear", q)) L = true; if (is("glinear", q) || is("gshared", q)) g = true; }
        if (is("var", o)) { p += o; varStmt(out, g, L); return; }
        if (is("match", o) || is("if", o)) { p += o; size_t b = out.size(); stmt(out); if (L && out.size() > b) out[b]->lin = true; return; }
      }
      if (s == "var") { varStmt(out, false); return; }
      if (s == "assert" || s == "assume" || s == "expect") {
        Ast* a = mk(S_ASSERT); a->s = s; p++; attrs();
        if (tk().k == T_ID && is(":", 1)) p += 2;
        a->c = {is("*") || is("...") ? (p++, nullptr) : expr(false)};
        if (accept(",")) expr(false);
        if (accept("by")) skipBraces(); else { if (!accept(";")) err("expected ;"); }
        out.push_back(a); return;
      }
      if (s == "calc") { Ast* a = mk(S_SKIP); p++; while (!is("{") || (is(":", 1))) { if (is("{")) skipBraces(); else p++; } skipBraces(); out.push_back(a); return; }
      if (s == "reveal" && tk(1).k == T_ID) { Ast* a = mk(S_SKIP); p++; expr(false); while (accept(",")) expr(false); expect(";"); out.push_back(a); return; }
      if (s == "forall") {
        Ast* a = mk(S_FORALL); p++;
        bool par = false;
        if (is("(") ) { p++; par = true; }
        if (tk().k == T_ID && !is("ensures")) { a->binds = qvars(); attrs(); if (accept("|")) a->c.push_back(expr(false)); }
        if (par) expect(")");
        while (is("ensures") || is("free")) { if (is("free")) p++; p++; attrs(); expr(false); accept(";"); }
        if (is("{")) a->c2.push_back(block()); else a->ghost = true;
        out.push_back(a); return;
      }
      if (s == "if") {
        Ast* a = mk(S_IF); p++;
        if (is("case") || (is("{") && is("case", 1))) {
          a->k = S_IFALT; bool br = accept("{");
          while (is("case")) { p++; a->c.push_back(expr(false)); expect("=>"); Ast* b = mk(S_BLOCK); while (!is("case") && !is("}") && p < end) stmt(b->c); a->c2.push_back(b); }
          if (br) expect("}");
          out.push_back(a); return;
        }
        if (tk().k == T_ID && (is(":|", 1) || is(":", 1))) { // if x :| P
          size_t sv = p; vector<Binding> b = qvars();
          if (accept(":|")) { a->binds = b; a->flag = true; a->c.push_back(expr(false)); }
          else { p = sv; a->c.push_back(guard()); }
        } else a->c.push_back(guard());
        a->c2.push_back(block());
        if (accept("else")) {
          if (is("if") || is("linear") || is("shared")) { Ast* b = mk(S_BLOCK); stmt(b->c); a->c2.push_back(b); }
          else a->c2.push_back(block());
        }
        out.push_back(a); return;
      }
      if (s == "while") {
        Ast* a = mk(S_WHILE); p++; attrs();
        if (is("case") || (is("{") && is("case", 1)) || isSpecAt(0)) {
          a->k = S_WHILEALT; loopSpecs(a); a->c2.clear(); bool br = accept("{");
          while (is("case")) { p++; a->c.push_back(expr(false)); expect("=>"); Ast* b = mk(S_BLOCK); while (!is("case") && !is("}") && p < end) stmt(b->c); a->c2.push_back(b); }
          if (br) expect("}");
          out.push_back(a); return;
        }
        a->c.push_back(guard()); attrs(); loopSpecs(a);
        a->c.push_back(is("{") ? block() : mk(S_BLOCK));
        out.push_back(a); return;
      }
      if (s == "match") {
        Ast* a = mk(S_MATCH); p++; a->c = {expr(false)}; bool br = accept("{");
        while (is("case")) { p++; Ast* pt = casePattern(); expect("=>"); Ast* b = mk(S_BLOCK); while (!is("case") && !is("}") && p < end) stmt(b->c); a->c2.push_back(pt); a->c2.push_back(b); }
        if (br) expect("}");
        out.push_back(a); return;
      }
      if (s == "return") {
        Ast* a = mk(S_RETURN); p++;
        if (!is(";")) do a->c.push_back(rhs()); while (accept(","));
        expect(";"); out.push_back(a); return;
      }
      if (s == "break") { Ast* a = mk(S_BREAK); p++; if (tk().k == T_ID) a->s = ident(); expect(";"); out.push_back(a); return; }
      if (s == "label") { p++; string l = ident(); expect(":"); size_t b = out.size(); stmt(out); if (out.size() > b) { Ast* L = mk(S_LABEL); L->s = l; L->c = {out[b]}; out[b] = L; } return; }
      if (s == "print") { Ast* a = mk(S_PRINT); p++; do a->c.push_back(expr(false)); while (accept(",")); expect(";"); out.push_back(a); return; }
      if (s == "modify") { while (!is(";") && !is("{")) p++; if (is("{")) skipBraces(); else p++; return; }
      if (s == "inout") {
        p++; bool g = false; if (accept("ghost")) g = true;
        size_t b = out.size(); stmt(out);
        for (size_t i = b; i < out.size(); i++) { out[i]->inout = true; if (g) out[i]->ghost = true; }
        return;
      }
    }
    // expression statement / assignment
    vector<Ast*> lhs;
    Ast* a0 = mk(S_ASSIGN);
    noLambda = true;
    lhs.push_back(lhsExpr());
    while (accept(",")) { lhs.push_back(lhsExpr()); }
    noLambda = false;
    if (accept(":=")) {
      do a0->c2.push_back(rhs()); while (accept(","));
      expect(";"); a0->c = lhs; out.push_back(a0); return;
    }
    if (accept(":|")) { a0->k = S_SUCHTHAT; a0->c = lhs; accept("assume"); a0->c2.push_back(expr(false)); expect(";"); out.push_back(a0); return; }
    attrs();
    expect(";");
    if (lhs.size() != 1) err("statement");
    a0->k = S_CALL; a0->c = lhs; out.push_back(a0);
  }
  Ast* lhsExpr() { while ((is("linear") || is("shared")) && tk(1).k == T_ID) p++; return suffix(primary()); }
  void varStmt(vector<Ast*>& out, bool ghost, bool lin = false) {
    Ast* a = mk(S_VAR); a->ghost = ghost; a->lin = lin; expect("var");
    // pattern form: var Ctor(a, b) := e;  or  var (a,b) := e;
    if (is("(") || (tk().k == T_ID && (is("(", 1) || (is(".", 1) )))) {
      a->flag = true; a->c.push_back(casePattern()); expect(":="); a->c2.push_back(rhs()); expect(";"); out.push_back(a); return;
    }
    do {
      attrs();
      bool g = ghost, L = lin;
      while (is("ghost") || is("linear") || is("shared")) { if (is("ghost")) g = true; if (is("linear")) L = true; p++; }
      Binding b; b.name = ident(); b.ghost = g; b.lin = L; if (accept(":")) b.ty = type(); a->binds.push_back(b);
    } while (accept(","));
    attrs();
    if (accept(":=")) { do a->c2.push_back(rhs()); while (accept(",")); }
    else if (accept(":|")) { a->s = ":|"; accept("assume"); a->c2.push_back(expr(false)); }
    expect(";");
    out.push_back(a);
  }

  // ---- declarations
  vector<string> tparams() {
    vector<string> v;
    if (accept("<")) {
      do { while (is("+") || is("-") || is("=") || is("*") || is("!")) p++; v.push_back(ident()); while (is("(")) { skipBalanced("(", ")"); } } while (accept(","));
      expect(">");
    }
    return v;
  }
  vector<Param> params() {
    vector<Param> v; expect("(");
    if (!is(")")) do {
      Param q;
      for (;;) {
        if (is("ghost")) { q.ghost = true; p++; }
        else if (is("inout")) { q.inout = true; p++; }
        else if ((is("linear") || is("shared") || is("new") || is("nameonly") || is("glinear") || is("gshared") || is("older")) && tk(1).k == T_ID) { if (is("glinear") || is("gshared")) q.ghost = true; if (is("linear")) q.lin = true; p++; }
        else break;
      }
      // field without name: "Foo(int, bool)"
      if ((tk().k == T_ID || tk().k == T_NUM) && is(":", 1)) { q.name = *tk().s; p += 2; q.ty = type(); }
      else { q.name = ""; q.ty = type(); }
      if (is(":=")) { p++; expr(false); }
      v.push_back(q);
    } while (accept(","));
    expect(")");
    return v;
  }
  void specs(Decl* d) {
    for (;;) {
      if (is("free")) p++;
      if (!(is("requires") || is("ensures") || is("reads") || is("modifies") || is("decreases"))) break;
      string kw = *tk().s; p++; attrs();
      if (tk().k == T_ID && is(":", 1) && !is("::", 1) ) p += 2;
      do {
        if (is("*")) { p++; continue; }
        Ast* e = expr(false);
        while (accept(";")) {}
        d->specs.push_back({kw, e});
      } while (accept(","));
      while (accept(";")) {}
    }
  }
  void bodyRange(Decl* d) {
    if (!is("{")) return;
    d->bodyFile = fileIdx; d->bodyBegin = (int)p + 1; skipBraces(); d->bodyEnd = (int)p - 1;
  }
  bool modifiers(Decl* d) {
    bool any = false;
    for (;;) {
      if (is("static")) d->isStatic = true;
      else if (is("ghost")) d->ghost = true;
      else if (is("abstract")) d->isAbstract = true;
      else if (is("protected") || is("private")) {}
      else if (is("linear")) d->linear = true;
      else if (is("inout")) d->thisInout = true;
      else if (is("shared") || is("glinear") || is("gshared")) {}
      else if (is("twostate") || is("inductive") || is("least") || is("greatest")) d->ghost = true;
      else break;
      any = true; p++;
    }
    return any;
  }
  Decl* fnDecl(Decl* d) {   // at function/predicate/method/lemma/constructor
    string kw = *tk().s; p++;
    d->k = D_FN;
    if (kw == "function" || kw == "predicate" || kw == "copredicate") {
      d->fk = F_FUNCTION; d->isPredicate = kw != "function";
      if (accept("method")) {} else d->ghost = true;
    } else if (kw == "method") d->fk = F_METHOD;
    else if (kw == "lemma" || kw == "colemma") { d->fk = F_LEMMA; d->ghost = true; }
    else if (kw == "constructor") d->fk = F_CTOR;
    d->attrs = attrs();
    d->line = tk().line;
    if (kw == "constructor") { if (tk().k == T_ID) d->name = ident(); else d->name = "_ctor"; }
    else if (is("operator") && is("(", 1)) { p += 2; string n = "operator"; while (!is(")")) { n += *tk().s; p++; } p++; d->name = n; }
    else { d->name = *tk().s; if (tk().k != T_ID && tk().k != T_NUM) err("name"); p++; }
    auto at2 = attrs(); d->attrs.insert(at2.begin(), at2.end());
    d->tparams = tparams();
    if (is("[") ) skipBalanced("[", "]");   // co-predicate type
    if (is("(")) d->params = params();
    if (d->fk == F_FUNCTION) {
      if (accept(":")) {
        if (is("(") && tk(1).k == T_ID && namedResult()) {
          p++; while (is("linear") || is("shared") || is("ghost") || is("glinear") || is("gshared")) p++;
          d->resultName = ident(); expect(":"); d->result = type(); expect(")");
        } else d->result = type();
      }
    } else if (accept("returns")) d->outs = params();
    if (is("...")) p++;
    specs(d);
    bodyRange(d);
    // by method etc. unsupported
    return d;
  }
  bool namedResult() { int o = 1; while (is("linear", o) || is("shared", o) || is("ghost", o) || is("glinear", o) || is("gshared", o)) o++; return tk(o).k == T_ID && is(":", o + 1); }
  void addMember(Decl* c, Decl* m) { m->owner = c; m->mod = c->mod; c->members.push_back(m); }
  void members(Decl* c) {   // inside { }
    expect("{");
    while (!is("}")) {
      if (p >= end) err("class body");
      Decl* d = new Decl; d->file = file; d->line = tk().line; d->mod = c->mod;
      modifiers(d);
      if (is("var")) {
        p++; attrs();
        do { Decl* f = new Decl; f->k = D_FIELD; f->file = file; f->line = tk().line; f->mod = c->mod; f->ghost = d->ghost; f->name = ident(); if (accept(":")) f->ty = type(); addMember(c, f); } while (accept(","));
        accept(";"); continue;
      }
      if (is("const")) { p++; d->k = D_CONST; d->attrs = attrs(); d->name = ident(); if (accept(":")) d->ty = type(); if (accept(":=")) d->init = expr(false); accept(";"); addMember(c, d); continue; }
      fnDecl(d); addMember(c, d);
    }
    expect("}");
  }
  vector<string> qpath() { vector<string> v; v.push_back(ident()); while (is(".") && tk(1).k == T_ID) { p++; v.push_back(ident()); } return v; }
  void moduleBody(Module* m, bool top) {
    while (!(top ? p >= end || tk().k == T_EOF : is("}"))) {
      if (p >= end) err("module body");
      if (is("include")) { p += 2; continue; }
      if (is(";")) { p++; continue; }
      Decl* d = new Decl; d->file = file; d->line = tk().line; d->mod = m;
      modifiers(d);
      if (is("module")) {
        p++; auto at = attrs(); vector<string> nm = qpath();
        Module* s = new Module; s->name = nm.back(); s->isAbstract = d->isAbstract; s->parent = m; s->attrs = at; s->file = file; s->line = d->line;
        s->full = m->full.empty() ? s->name : m->full + "." + s->name;
        if (accept("refines")) s->refinesPath = qpath();
        expect("{"); moduleBody(s, false); expect("}");
        m->subs.push_back(s); P.allModules.push_back(s); continue;
      }
      if (is("import")) {
        p++; Import im; if (accept("opened")) im.opened = true;
        vector<string> q = qpath(); im.alias = q[0];
        if (is("=") || is(":")) { im.abstract_ = is(":"); p++; im.path = qpath(); }
        else if (accept("as")) { im.abstract_ = true; im.path = qpath(); }
        else { im.path = q; im.alias = q.back(); }
        if (accept("`")) { if (accept("{")) { do im.exportSets.push_back(ident()); while (accept(",")); expect("}"); } else im.exportSets.push_back(ident()); }
        if (accept("default")) qpath();
        accept(";");
        m->imports.push_back(im); continue;
      }
      if (is("export")) {
        p++; ExportSet es;
        if (tk().k == T_ID && !is("provides") && !is("reveals") && !is("extends")) es.name = ident();
        if (accept("...")) {}
        while (is("provides") || is("reveals") || is("extends")) {
          bool ext = is("extends"); p++;
          do {
            if (is("*")) { es.all = true; p++; continue; }
            string n;
            if (is("operator")) { n = ident(); } else n = ident();
            while (is(".") ) { p++; n += "." + ident(); }
            (ext ? es.extends : es.names).push_back(n);
          } while (accept(","));
        }
        m->exports.push_back(es); continue;
      }
      if (is("datatype") || is("codatatype")) {
        p++; d->k = D_DATATYPE; d->attrs = attrs(); d->name = ident(); d->tparams = tparams();
        expect("=");
        accept("|");
        do {
          attrs();
          CtorDecl* c = new CtorDecl; c->line = tk().line; c->name = ident(); attrs();
          if (is("(")) c->fields = params();
          c->dt = d; c->index = (int)d->ctors.size();
          for (size_t i = 0; i < c->fields.size(); i++) if (c->fields[i].name.empty()) c->fields[i].name = std::to_string(i);
          d->ctors.push_back(c);
        } while (accept("|"));
        if (is("{")) members(d);
        accept(";");
        m->decls.push_back(d); continue;
      }
      if (is("class") || is("trait")) {
        p++; d->k = D_CLASS; d->attrs = attrs(); d->name = ident(); d->tparams = tparams();
        if (accept("extends")) { do { auto q = qpath(); if (is("<")) { vector<Type*> ta; p++; do type(); while (!angleDebt && accept(",")); closeAngle(); } d->traits.push_back(q.back()); } while (accept(",")); }
        if (accept("...")) d->extends = true;
        members(d); m->decls.push_back(d); continue;
      }
      if (is("type") || is("newtype")) {
        d->isNewtype = is("newtype"); p++; d->k = D_TYPE; d->attrs = attrs(); d->name = ident();
        while (is("(")) skipBalanced("(", ")");
        d->tparams = tparams();
        if (accept("=")) {
          if (tk().k == T_ID && (is(":", 1) || is("|", 1)) ) {
            d->tyVar = ident();
            if (accept(":")) d->ty = type(); else { d->ty = new Type; d->ty->name = "int"; }
            expect("|"); d->constraint = expr(false);
            if (accept("ghost")) {}
            if (accept("witness")) { if (!accept("*")) expr(false); }
          } else d->ty = type();
        }
        if (is("{")) members(d);
        accept(";");
        m->decls.push_back(d); continue;
      }
      if (is("const")) { p++; d->k = D_CONST; d->attrs = attrs(); d->name = ident(); if (accept(":")) d->ty = type(); if (accept(":=")) d->init = expr(false); accept(";"); m->decls.push_back(d); continue; }
      if (is("function") || is("predicate") || is("method") || is("lemma") || is("copredicate") || is("colemma")) { fnDecl(d); m->decls.push_back(d); continue; }
      if (is("var") ) { p++; Decl* f = d; f->k = D_FIELD; f->name = ident(); if (accept(":")) f->ty = type(); accept(";"); m->decls.push_back(f); continue; }
      err("declaration");
    }
  }
};

static string readFile(const string& path) {
  std::ifstream f(path, std::ios::binary);
  if (!f) throw Unsupported("cannot open " + path);
  std::stringstream ss; ss << f.rdbuf(); return ss.str();
}
static string normPath(const string& p) {
  vector<string> parts; std::stringstream ss(p); string x; bool abs = !p.empty() && p[0] == '/';
  while (std::getline(ss, x, '/')) { if (x.empty() || x == ".") continue; if (x == ".." && !parts.empty() && parts.back() != "..") parts.pop_back(); else parts.push_back(x); }
  string r = abs ? "/" : ""; for (size_t i = 0; i < parts.size(); i++) { if (i) r += "/"; r += parts[i]; } return r;
}
void Program::load(const string& path0) {
  string path = normPath(path0);
  if (fileIndex.count(path)) return;
  string dir = path.substr(0, path.rfind('/') == string::npos ? 0 : path.rfind('/'));
  loadInto(path, readFile(path), dir);
}
void Program::loadText(const string& name, const string& text) { loadInto(name, text, ""); }
void Program::loadInto(const string& path, const string& text, const string& dir) {
  int idx = (int)files.size();
  fileIndex[path] = idx;
  SourceFile* sf = new SourceFile; sf->file = new File{path};
  files.push_back(sf);
  lex(path, text, sf->toks);
  for (size_t i = 0; i + 1 < sf->toks.size(); i++)
    if (sf->toks[i].k == T_ID && *sf->toks[i].s == "include" && sf->toks[i+1].k == T_STR)
      load((dir.empty() ? "" : dir + "/") + *sf->toks[i+1].s);
    else if (sf->toks[i].k == T_ID && *sf->toks[i].s == "module") break;
  Parser ps(*this, idx, 0, sf->toks.size() - 1);
  ps.moduleBody(&root, true);
}
Ast* Program::bodyOf(Decl* d) {
  if (d->bodyParsed) return d->body;
  d->bodyParsed = true;
  if (d->bodyBegin < 0) return nullptr;
  Parser ps(*this, d->bodyFile, d->bodyBegin, d->bodyEnd);
  if (d->fk == F_FUNCTION) {
    if (d->bodyBegin == d->bodyEnd) return nullptr;
    d->body = ps.expr(); ps.accept(";"); if (ps.p < ps.end) ps.err("trailing tokens in function body");
  }
  else d->body = ps.blockBody();
  return d->body;
}

// ---- resolution
Decl* cloneDecl(Decl* d, Module* m, Decl* owner) {
  Decl* n = new Decl(*d); n->mod = m; n->owner = owner; n->code = nullptr; n->rt = nullptr;
  n->ctors.clear(); for (auto c : d->ctors) { CtorDecl* k = new CtorDecl(*c); k->dt = n; n->ctors.push_back(k); }
  n->members.clear(); n->memberMap.clear(); for (auto x : d->members) n->members.push_back(cloneDecl(x, m, n));
  return n;
}
static Module* cloneModule(Module* s, Module* parent, Program& P) {
  Module* n = new Module(*s); n->parent = parent; n->full = parent->full + "." + n->name; n->resolved = false;
  n->declMap.clear(); n->ctorMap.clear(); n->subMap.clear(); n->importMap.clear();
  n->decls.clear(); for (auto d : s->decls) n->decls.push_back(cloneDecl(d, n, nullptr));
  n->subs.clear(); for (auto x : s->subs) n->subs.push_back(cloneModule(x, n, P));
  P.allModules.push_back(n);
  return n;
}
static void resolveModule(Program& P, Module* m, std::set<Module*>& active);
static Module* lookupModPath(Program& P, Module* from, const vector<string>& path, std::set<Module*>& active, bool skipSelfImports) {
  // innermost-out lookup of first component
  for (Module* s = from; s; s = s->parent) {
    Module* cur = nullptr;
    for (auto x : s->subs) if (x->name == path[0]) cur = x;
    if (!cur) for (auto& im : s->imports) if (im.alias == path[0] && !(im.path[0] == path[0] && s == from && skipSelfImports)) {
      if (!im.target) im.target = lookupModPath(P, s, im.path, active, true);
      cur = im.target;
    }
    if (!cur) continue;
    for (size_t i = 1; i < path.size() && cur; i++) {
      Module* nx = nullptr;
      resolveModule(P, cur, active);
      for (auto x : cur->subs) if (x->name == path[i]) nx = x;
      if (!nx) for (auto& im : cur->imports) if (im.alias == path[i]) { if (!im.target) im.target = lookupModPath(P, cur, im.path, active, true); nx = im.target; }
      cur = nx;
    }
    if (cur) return cur;
  }
  return nullptr;
}
static void finishDecls(Module* m) {
  m->declMap.clear(); m->ctorMap.clear(); m->subMap.clear(); m->importMap.clear();
  for (auto d : m->decls) {
    m->declMap[d->name] = d;
    for (auto c : d->ctors) m->ctorMap.emplace(c->name, c);
    d->memberMap.clear();
    for (auto x : d->members) d->memberMap[x->name] = x;
  }
  for (auto s : m->subs) m->subMap[s->name] = s;
  for (size_t i = 0; i < m->imports.size(); i++) m->importMap[m->imports[i].alias] = (int)i;
}
static void mergeFn(Decl* base, Decl* over) {
  // a refining function/method without a body keeps the base body; specs accumulate
  if (over->bodyBegin < 0 && base->bodyBegin >= 0) { over->bodyFile = base->bodyFile; over->bodyBegin = base->bodyBegin; over->bodyEnd = base->bodyEnd; }
  if (over->fk == F_FUNCTION && over->params.empty() && !base->params.empty()) { over->params = base->params; }
  if (over->fk == F_FUNCTION && !over->result) { over->result = base->result; over->resultName = base->resultName; }
  if (over->fk != F_FUNCTION && over->params.empty() && over->outs.empty()) { over->params = base->params; over->outs = base->outs; }
}
static void resolveModule(Program& P, Module* m, std::set<Module*>& active) {
  if (m->resolved || active.count(m)) return;
  active.insert(m);
  if (!m->refinesPath.empty()) {
    Module* b = m->parent ? lookupModPath(P, m->parent, m->refinesPath, active, false) : nullptr;
    if (!b) b = lookupModPath(P, m, m->refinesPath, active, false);
    if (!b) throw Unsupported("module " + m->full + ": cannot resolve refined module " + m->refinesPath.back());
    resolveModule(P, b, active);
    m->refines = b;
    vector<Decl*> merged;
    std::unordered_map<string, Decl*> own; for (auto d : m->decls) own[d->name] = d;
    for (auto bd : b->decls) {
      auto it = own.find(bd->name);
      if (it == own.end()) { merged.push_back(cloneDecl(bd, m, nullptr)); continue; }
      Decl* o = it->second;
      if (o->k == D_FN && bd->k == D_FN) mergeFn(bd, o);
      if ((o->k == D_CLASS && bd->k == D_CLASS) || (o->k == D_DATATYPE && bd->k == D_DATATYPE && o->ctors.empty())) {
        std::unordered_map<string, Decl*> om; for (auto x : o->members) om[x->name] = x;
        for (auto x : bd->members) { auto q = om.find(x->name); if (q == om.end()) o->members.push_back(cloneDecl(x, m, o)); else if (x->k == D_FN) mergeFn(x, q->second); }
      }
    }
    for (auto d : m->decls) merged.push_back(d);
    m->decls = merged;
    std::set<string> al; for (auto& im : m->imports) al.insert(im.alias); for (auto s : m->subs) al.insert(s->name);
    vector<Import> ims;
    for (auto& im : b->imports) if (!al.count(im.alias)) { Import c = im; if (!c.target) { c.target = lookupModPath(P, b, im.path, active, true); } ims.push_back(c); }
    for (auto& im : m->imports) { for (auto& bi : b->imports) if (bi.alias == im.alias && bi.opened) im.opened = true; ims.push_back(im); }
    m->imports = ims;
    for (auto s : b->subs) if (!al.count(s->name)) m->subs.push_back(cloneModule(s, m, P));
    if (m->exports.empty()) m->exports = b->exports;
  }
  finishDecls(m);
  m->resolved = true;
  active.erase(m);
}
void Program::resolve() {
  std::set<Module*> active;
  finishDecls(&root);
  for (size_t i = 0; i < allModules.size(); i++) resolveModule(*this, allModules[i], active);
  for (size_t i = 0; i < allModules.size(); i++) resolveModule(*this, allModules[i], active);
  for (size_t i = 0; i < allModules.size(); i++) {
    Module* m = allModules[i];
    for (auto& im : m->imports) if (!im.target) im.target = lookupModPath(*this, m, im.path, active, true);
  }
  root.resolved = true;
}
Module* Program::findModule(const string& full) { for (auto m : allModules) if (m->full == full) return m; return nullptr; }

#ifdef PARSE_MAIN
}
#include <cstdio>
int main(int argc, char** argv) {
  using namespace dfy;
  int bad = 0;
  for (int i = 1; i < argc; i++) {
    try {
      Program P; P.load(argv[i]); P.resolve(); int nb = 0;
      for (auto m : P.allModules) {
        for (auto& im : m->imports) if (!im.target) printf("unresolved import %s in %s\n", im.alias.c_str(), m->full.c_str());
        auto go = [&](Decl* d) { if (d->k == D_FN) { try { P.bodyOf(d); nb++; } catch (Unsupported& e) { printf("body %s.%s: %s\n", m->full.c_str(), d->name.c_str(), e.what()); bad++; } } };
        for (auto d : m->decls) { go(d); for (auto x : d->members) go(x); }
      }
      printf("%s ok: %zu files %zu modules %d bodies\n", argv[i], P.files.size(), P.allModules.size(), nb);
    } catch (Unsupported& e) { printf("FAIL %s: %s\n", argv[i], e.what()); bad++; }
  }
  return bad ? 1 : 0;
}
namespace dfy {
#endif
}
