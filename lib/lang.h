// Abstract syntax, random generator, printer and reference interpreter for the
// mJS language.  The interpreter is written from the language description
// (README: a strict subset of ES6, byte strings, no closures, no implicit
// conversions), not from the implementation.  Where ES6 and mJS are known to
// differ, or the README leaves the behaviour open, it throws MSkip and the case
// is not judged.
#pragma once
#include <math.h>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "engine.h"

namespace lang {

enum EK { E_NUM, E_STR, E_BOOL, E_NULL, E_UNDEF, E_VAR, E_THIS, E_OBJ, E_ARR, E_FUN, E_BIN, E_AND, E_OR, E_UN,
          E_COND, E_ASSIGN, E_INCDEC, E_CALL, E_DOT, E_INDEX, E_RAW };
enum SK { S_LET, S_EXPR, S_IF, S_WHILE, S_FOR, S_FORIN, S_BLOCK, S_BREAK, S_CONTINUE, S_RETURN, S_FUNDECL, S_EMPTY };

struct Expr;
struct Stmt;
typedef std::shared_ptr<Expr> EP;
typedef std::shared_ptr<Stmt> SP;

struct Fun {
  std::string name;  // may be empty
  std::vector<std::string> params;
  std::vector<SP> body;
  int line = 0;
};
typedef std::shared_ptr<Fun> FP;

struct Expr {
  EK k;
  double num = 0;
  std::string s;   // string value, name, operator or raw text
  std::string lit; // source text of a literal
  bool flag = false;  // prefix / boolean value
  int parens = 0;     // redundant parentheses
  std::vector<EP> a;
  std::vector<std::string> keys;  // object literal
  std::vector<bool> quoted;
  FP fn;
};

struct Stmt {
  SK k;
  std::vector<std::pair<std::string, EP>> lets;
  EP e, e2, e3;
  SP init;
  std::vector<SP> body, other;  // bodies; `other` is the else branch
  bool braces = true, obraces = true, has_else = false, decl = false;
  std::string name;
  FP fn;
};

inline EP mk(EK k) {
  EP e = std::make_shared<Expr>();
  e->k = k;
  return e;
}
inline SP mks(SK k) {
  SP s = std::make_shared<Stmt>();
  s->k = k;
  return s;
}
EP enumber(double d);
EP estr(const std::string &s);
EP evar(const std::string &n);
EP ebin(const std::string &op, EP a, EP b);
EP ecall(EP f, std::vector<EP> args);
EP eraw(const std::string &s);
SP sexpr(EP e);

// ---- printing ----------------------------------------------------------------
struct Style {
  Src *s = nullptr;  // when set: random whitespace, comments and semicolon placement
  bool noise = false;
  int pad = 0;       // number of extra no-op filler statements/comments (metamorphic)
};
std::string print_expr(const EP &e, int prec = 0);
std::string print_stmts(const std::vector<SP> &v, int indent = 0);
std::string js_string_literal(const std::string &s, char q = '\'', int style = 0);

// ---- values ------------------------------------------------------------------
enum VT { V_UNDEF, V_NULL, V_BOOL, V_NUM, V_STR, V_OBJ, V_FUN, V_NATIVE };
struct MObj;
typedef std::shared_ptr<MObj> OP;
struct MVal {
  VT t = V_UNDEF;
  double n = 0;
  bool b = false;
  std::string s;
  OP o;
  FP f;
  int native = 0;
};
struct MObj {
  bool arr = false;
  std::map<std::string, MVal> p;
  OP proto;
};
MVal vnum(double d);
MVal vstr(const std::string &s);
MVal vbool(bool b);
MVal vnull();
MVal vobj(OP o);
std::string mser(const MVal &v, int depth = 12);  // same canonical form as ser() in mjsx.h
long arr_len(const OP &o);
bool truthy(const MVal &v);

// Error codes of the C API
enum { ERR_OK = 0, ERR_SYNTAX = 1, ERR_REF = 2, ERR_TYPE = 3, ERR_INTERNAL = 5, ERR_NOTIMPL = 6 };

struct MErr {
  int code;
};
struct MSkip {
  std::string why;
};

struct Interp {
  std::vector<std::map<std::string, MVal>> scopes;
  std::vector<std::string> log;
  MVal self;
  long fuel = 20000;
  int depth = 0;
  long steps = 0;
  int max_depth = 0;
  // coverage counters
  std::map<std::string, long> hits;
  Interp();
  MVal eval(const EP &e);
  // runs a statement list in the current scope; returns completion signal
  enum Sig { NORMAL, BREAK, CONTINUE, RETURN };
  Sig run(const std::vector<SP> &v);
  Sig stmt(const SP &s);
  MVal last;       // value of the last expression statement
  MVal retval;
  MVal call(const MVal &f, const MVal &self_, const std::vector<MVal> &args);
  MVal native(int id, const MVal &self_, const std::vector<MVal> &args);
  MVal get(const MVal &o, const MVal &key);
  void set(const MVal &o, const MVal &key, const MVal &v);
  MVal binop(const std::string &op, const MVal &a, const MVal &b);
  MVal *find(const std::string &n);
  void tick();
  std::string key_of(const MVal &k);
};
enum Native { N_LOG = 1, N_AT, N_INDEXOF, N_SLICE, N_PUSH, N_SPLICE, N_CHR, N_STRINGIFY, N_PARSE, N_CREATE, N_ISNAN, N_GC, N_APPLY };

// ---- generator ------------------------------------------------------------------
struct GenCfg {
  int stmts = 8;          // top-level statements
  int depth = 3;          // expression depth
  int block_depth = 3;
  int err_pct = 0;        // chance (percent, per statement) of an ill-typed construct
  bool funcs = true, loops = true, objs = true, arrs = true, strs = true, methods = true;
  int long_pct = 0;       // chance of a long (127..20000 byte) literal in a body
  int bigstr_pct = 5;     // chance a string literal is of a boundary length
  bool gc_calls = false;  // sprinkle gc() calls
  bool logs_in_expr = true;
  int ctl_bias = 1;       // multiplies control-flow statements
  int fn_bias = 1;
};

enum GT { T_INT, T_NUM, T_STR, T_BOOL, T_OBJ, T_ARR, T_FUN };
struct GVar {
  std::string name;
  GT t;
  int arity = 0;       // T_FUN
  GT ret = T_INT;
  bool ro = false;     // loop counters
  int alen = 0;        // T_ARR: guaranteed length
  bool recursive = false;
  std::vector<GT> ptypes;
  bool method = false;
};
struct Gen {
  Src &s;
  GenCfg cfg;
  std::vector<std::vector<GVar>> scopes;
  int nctr = 0, logctr = 0;
  int loopd = 0, fnd = 0, blockd = 0;
  int loopmul = 1;
  bool in_expr_fn = false;
  Gen(Src &s_, GenCfg c) : s(s_), cfg(c) { scopes.emplace_back(); }
  std::string fresh(const char *p);
  const GVar *pickvar(GT t, bool writable = false);
  EP expr(GT t, int d);
  EP int_(int d);
  EP num_(int d);
  EP str_(int d);
  EP bool_(int d);
  EP any_(int d);
  EP obj_(int d);
  EP arr_(int d);
  EP call_fn(const GVar *f, int d);
  EP intlit();
  EP numlit();
  EP strlit_();
  std::string strval();
  SP stmt();
  SP let(GT t);
  SP logstmt();
  SP fundecl();
  FP function(GVar &self, bool named);
  std::vector<SP> body(int n);
  std::vector<SP> block(int n, bool *braces = nullptr);
  SP badstmt();
  std::vector<SP> program();
  EP bounded_int(int d);
  EP bounded_str(int d);
};
EP unparen(EP e);

}  // namespace lang
