#include "lang.h"
#include "mjsx.h"  // quote(), fmtnum()

namespace lang {

EP enumber(double d) {
  EP e;
  if (d < 0 || (d == 0 && std::signbit(d))) {
    e = mk(E_UN);
    e->s = "-";
    e->a.push_back(enumber(-d));
    return e;
  }
  e = mk(E_NUM);
  e->num = d;
  if (d == (double) (long long) d && d < 1e15)
    e->lit = strf("%lld", (long long) d);
  else
    e->lit = strf("%.17g", d);
  return e;
}
EP estr(const std::string &s) {
  EP e = mk(E_STR);
  e->s = s;
  e->lit = js_string_literal(s);
  return e;
}
EP evar(const std::string &n) {
  EP e = mk(E_VAR);
  e->s = n;
  return e;
}
EP ebin(const std::string &op, EP a, EP b) {
  EP e = mk(E_BIN);
  e->s = op;
  e->a = {a, b};
  return e;
}
EP ecall(EP f, std::vector<EP> args) {
  EP e = mk(E_CALL);
  e->a.push_back(f);
  for (auto &x : args) e->a.push_back(x);
  return e;
}
EP eraw(const std::string &s) {
  EP e = mk(E_RAW);
  e->s = s;
  return e;
}
SP sexpr(EP e) {
  SP s = mks(S_EXPR);
  s->e = e;
  return s;
}

std::string js_string_literal(const std::string &s, char q, int style) {
  std::string o(1, q);
  for (size_t i = 0; i < s.size(); i++) {
    unsigned char c = s[i];
    if (c == (unsigned char) q || c == '\\') {
      o += '\\';
      o += (char) c;
    } else if (c == '\n') {
      o += "\\n";
    } else if (c == '\t' && style != 1) {
      o += "\\t";
    } else if (c == '\r') {
      o += "\\r";
    } else if (c < 32 || (style == 1 && c < 127) || c == 127) {
      o += strf(i & 1 ? "\\x%02X" : "\\x%02x", c);
    } else {
      o += (char) c;  // bytes >= 0x80 verbatim: mJS strings are byte strings
    }
  }
  return o + q;
}

static int prec_of(const EP &e) {
  switch (e->k) {
    case E_ASSIGN: return 2;
    case E_COND: return 3;
    case E_OR: return 4;
    case E_AND: return 5;
    case E_BIN: {
      static const std::map<std::string, int> m = {{"|", 6}, {"^", 7}, {"&", 8}, {"===", 9}, {"!==", 9}, {"<", 10}, {">", 10}, {"<=", 10}, {">=", 10}, {"<<", 11}, {">>", 11}, {">>>", 11}, {"+", 12}, {"-", 12}, {"*", 13}, {"/", 13}, {"%", 13}, {"==", 9}, {"!=", 9}};
      auto it = m.find(e->s);
      return it == m.end() ? 2 : it->second;
    }
    case E_UN: return 14;
    case E_INCDEC: return e->flag ? 14 : 15;
    case E_CALL:
    case E_DOT:
    case E_INDEX: return 16;
    default: return 17;
  }
}

static std::string ind(int n) { return std::string(n * 2, ' '); }

static std::string print_fn(const FP &f, bool named, int indent) {
  std::string o = "function";
  if (named) o += " " + f->name;
  o += "(";
  for (size_t i = 0; i < f->params.size(); i++) o += (i ? ", " : "") + f->params[i];
  o += ") {\n" + print_stmts(f->body, indent + 1) + ind(indent) + "}";
  return o;
}

static std::string pe(const EP &e, int prec, int indent) {
  std::string o;
  int p = prec_of(e);
  switch (e->k) {
    case E_NUM:
    case E_STR: o = e->lit; break;
    case E_BOOL: o = e->flag ? "true" : "false"; break;
    case E_NULL: o = "null"; break;
    case E_UNDEF: o = "undefined"; break;
    case E_VAR: o = e->s; break;
    case E_THIS: o = "this"; break;
    case E_RAW: o = e->s; break;
    case E_OBJ: {
      o = "{";
      for (size_t i = 0; i < e->keys.size(); i++) {
        if (i) o += ", ";
        o += e->quoted[i] ? js_string_literal(e->keys[i]) : e->keys[i];
        o += ": " + pe(e->a[i], 2, indent);
      }
      o += "}";
      break;
    }
    case E_ARR: {
      o = "[";
      for (size_t i = 0; i < e->a.size(); i++) o += (i ? ", " : "") + pe(e->a[i], 2, indent);
      o += "]";
      break;
    }
    case E_FUN: o = print_fn(e->fn, false, indent); break;
    case E_BIN:
    case E_AND:
    case E_OR: {
      std::string op = e->k == E_AND ? "&&" : e->k == E_OR ? "||" : e->s;
      o = pe(e->a[0], p, indent) + " " + op + " " + pe(e->a[1], p + 1, indent);
      break;
    }
    case E_UN: {
      std::string x = pe(e->a[0], 14, indent);
      o = e->s;
      if (e->s == "typeof" || (!x.empty() && (x[0] == '-' || x[0] == '+'))) o += " ";
      o += x;
      break;
    }
    case E_COND: o = pe(e->a[0], 4, indent) + " ? " + pe(e->a[1], 3, indent) + " : " + pe(e->a[2], 3, indent); break;
    case E_ASSIGN: o = pe(e->a[0], 15, indent) + " " + e->s + " " + pe(e->a[1], 2, indent); break;
    case E_INCDEC: o = e->flag ? e->s + pe(e->a[0], 14, indent) : pe(e->a[0], 15, indent) + e->s; break;
    case E_CALL: {
      std::string c = pe(e->a[0], 16, indent);
      if (e->a[0]->k == E_FUN && !e->a[0]->parens) c = "(" + c + ")";
      o = c + "(";
      for (size_t i = 1; i < e->a.size(); i++) o += (i > 1 ? ", " : "") + pe(e->a[i], 2, indent);
      o += ")";
      break;
    }
    case E_DOT: {
      std::string c = pe(e->a[0], 16, indent);
      if (e->a[0]->k == E_NUM || e->a[0]->k == E_FUN || e->a[0]->k == E_OBJ) c = "(" + c + ")";
      o = c + "." + e->s;
      break;
    }
    case E_INDEX: {
      std::string c = pe(e->a[0], 16, indent);
      if (e->a[0]->k == E_NUM || e->a[0]->k == E_FUN || e->a[0]->k == E_OBJ) c = "(" + c + ")";
      o = c + "[" + pe(e->a[1], 2, indent) + "]";
      break;
    }
  }
  for (int i = 0; i < e->parens; i++) o = "(" + o + ")";
  if (e->parens == 0 && p < prec) o = "(" + o + ")";
  return o;
}
std::string print_expr(const EP &e, int prec) { return pe(e, prec, 0); }

static std::string print_body(const std::vector<SP> &v, bool braces, int indent) {
  if (braces || v.size() != 1) return "{\n" + print_stmts(v, indent + 1) + ind(indent) + "}\n";
  std::string o = print_stmts(v, indent + 1);
  return "\n" + o;
}

static std::string print_let(const SP &s, int indent) {
  std::string o = "let ";
  for (size_t i = 0; i < s->lets.size(); i++) {
    if (i) o += ", ";
    o += s->lets[i].first;
    if (s->lets[i].second) o += " = " + pe(s->lets[i].second, 2, indent);
  }
  return o;
}

static std::string expr_stmt(const EP &e, int indent) {
  std::string o = pe(e, 0, indent);
  if (o[0] == '{' || o.compare(0, 8, "function") == 0) o = "(" + o + ")";
  return o;
}

std::string print_stmts(const std::vector<SP> &v, int indent) {
  std::string o;
  for (auto &s : v) {
    o += ind(indent);
    switch (s->k) {
      case S_LET: o += print_let(s, indent) + ";\n"; break;
      case S_EXPR: o += expr_stmt(s->e, indent) + ";\n"; break;
      case S_IF:
        o += "if (" + pe(s->e, 0, indent) + ") " + print_body(s->body, s->braces || s->has_else, indent);
        if (s->has_else) {
          o += ind(indent) + "else ";
          if (s->other.size() == 1 && s->other[0]->k == S_IF && !s->obraces) {
            std::string t = print_stmts(s->other, indent);
            o += t.substr(indent * 2);
          } else
            o += print_body(s->other, s->obraces, indent);
        }
        break;
      case S_WHILE: o += "while (" + pe(s->e, 0, indent) + ") " + print_body(s->body, s->braces, indent); break;
      case S_FOR:
        o += "for (" + (s->init->k == S_LET ? print_let(s->init, indent) : pe(s->init->e, 0, indent)) + "; " + pe(s->e, 0, indent) + "; " + pe(s->e2, 0, indent) + ") " + print_body(s->body, s->braces, indent);
        break;
      case S_FORIN: o += "for (" + std::string(s->decl ? "let " : "") + s->name + " in " + pe(s->e, 0, indent) + ") " + print_body(s->body, s->braces, indent); break;
      case S_BLOCK: o += "{\n" + print_stmts(s->body, indent + 1) + ind(indent) + "}\n"; break;
      case S_BREAK: o += "break;\n"; break;
      case S_CONTINUE: o += "continue;\n"; break;
      case S_RETURN: o += s->e ? "return " + pe(s->e, 0, indent) + ";\n" : "return;\n"; break;
      case S_FUNDECL: o += print_fn(s->fn, true, indent) + ";\n"; break;
      case S_EMPTY: o += ";\n"; break;
    }
  }
  return o;
}

// ---- values ---------------------------------------------------------------------
MVal vnum(double d) {
  MVal v;
  v.t = V_NUM;
  v.n = d;
  return v;
}
MVal vstr(const std::string &s) {
  MVal v;
  v.t = V_STR;
  v.s = s;
  return v;
}
MVal vbool(bool b) {
  MVal v;
  v.t = V_BOOL;
  v.b = b;
  return v;
}
MVal vnull() {
  MVal v;
  v.t = V_NULL;
  return v;
}
MVal vobj(OP o) {
  MVal v;
  v.t = V_OBJ;
  v.o = o;
  return v;
}
static MVal vnat(int id) {
  MVal v;
  v.t = V_NATIVE;
  v.native = id;
  return v;
}

static bool index_key(const std::string &k, long *out) {
  if (k.empty() || k.size() > 9) return false;
  for (char c : k)
    if (c < '0' || c > '9') return false;
  *out = atol(k.c_str());
  return true;
}
long arr_len(const OP &o) {
  long n = 0, i;
  for (auto &p : o->p)
    if (index_key(p.first, &i) && i + 1 > n) n = i + 1;
  return n;
}
bool truthy(const MVal &v) {
  switch (v.t) {
    case V_UNDEF:
    case V_NULL: return false;
    case V_BOOL: return v.b;
    case V_NUM: return !(v.n == 0 || std::isnan(v.n));
    case V_STR: return !v.s.empty();
    default: return true;
  }
}

static void mser_into(const MVal &v, int depth, std::vector<MObj *> &path, std::string &o) {
  switch (v.t) {
    case V_UNDEF: o += "undefined"; break;
    case V_NULL: o += "null"; break;
    case V_BOOL: o += v.b ? "true" : "false"; break;
    case V_NUM: o += fmtnum(v.n); break;
    case V_STR: o += quote(v.s); break;
    case V_FUN: o += "<fn>"; break;
    case V_NATIVE: o += "<ptr>"; break;
    case V_OBJ: {
      for (size_t i = 0; i < path.size(); i++)
        if (path[i] == v.o.get()) {
          o += strf("<up%d>", (int) (path.size() - i));
          return;
        }
      if (depth == 0) {
        o += "<deep>";
        return;
      }
      path.push_back(v.o.get());
      if (v.o->arr) {
        o += strf("[%ld", arr_len(v.o));
        for (auto &p : v.o->p) {
          o += "|" + p.first + ":";
          mser_into(p.second, depth - 1, path, o);
        }
        o += "]";
      } else {
        o += "{";
        bool first = true;
        for (auto &p : v.o->p) {
          if (!first) o += ",";
          first = false;
          o += quote(p.first) + ":";
          mser_into(p.second, depth - 1, path, o);
        }
        o += "}";
      }
      path.pop_back();
    }
  }
}
std::string mser(const MVal &v, int depth) {
  std::string o;
  std::vector<MObj *> path;
  mser_into(v, depth, path, o);
  return o;
}

// ---- interpreter -------------------------------------------------------------------
Interp::Interp() {
  scopes.emplace_back();
  auto &g = scopes[0];
  g["log"] = vnat(N_LOG);
  g["chr"] = vnat(N_CHR);
  g["isNaN"] = vnat(N_ISNAN);
  g["gc"] = vnat(N_GC);
  g["NaN"] = vnum(NAN);
  OP json = std::make_shared<MObj>();
  json->p["stringify"] = vnat(N_STRINGIFY);
  json->p["parse"] = vnat(N_PARSE);
  g["JSON"] = vobj(json);
  OP ob = std::make_shared<MObj>();
  ob->p["create"] = vnat(N_CREATE);
  g["Object"] = vobj(ob);
}

void Interp::tick() {
  steps++;
  if (--fuel < 0) throw MSkip{"model fuel"};
}

MVal *Interp::find(const std::string &n) {
  for (size_t i = scopes.size(); i-- > 0;) {
    auto it = scopes[i].find(n);
    if (it != scopes[i].end()) return &it->second;
  }
  return nullptr;
}

std::string Interp::key_of(const MVal &k) {
  if (k.t == V_STR) return k.s;
  if (k.t == V_NUM && k.n == (double) (long) k.n && k.n >= 0 && k.n < 1e9) return strf("%ld", (long) k.n);
  throw MSkip{"unusual property key"};
}

MVal Interp::get(const MVal &o, const MVal &key) {
  if (o.t == V_STR) {
    if (key.t == V_STR) {
      if (key.s == "length") return vnum((double) o.s.size());
      if (key.s == "at" || key.s == "charCodeAt") return vnat(N_AT);
      if (key.s == "indexOf") return vnat(N_INDEXOF);
      if (key.s == "slice") return vnat(N_SLICE);
      throw MSkip{"string property"};
    }
    if (key.t == V_NUM) {
      if (key.n != (double) (long) key.n || key.n < 0 || key.n > 1e6) throw MSkip{"string index"};
      size_t i = (size_t) key.n;
      return i < o.s.size() ? vstr(o.s.substr(i, 1)) : MVal();
    }
    throw MSkip{"string key"};
  }
  if (o.t == V_OBJ) {
    std::string k = key_of(key);
    if (k == "apply") throw MSkip{"apply"};
    if (o.o->arr) {
      if (k == "length") return vnum((double) arr_len(o.o));
      if (k == "push") return vnat(N_PUSH);
      if (k == "splice") return vnat(N_SPLICE);
    }
    for (OP p = o.o; p; p = p->proto) {
      auto it = p->p.find(k);
      if (it != p->p.end()) return it->second;
    }
    return MVal();
  }
  if ((o.t == V_FUN || o.t == V_NATIVE) && key.t == V_STR && key.s == "apply") return vnat(N_APPLY);
  if (o.t == V_UNDEF || o.t == V_NULL) throw MErr{ERR_TYPE};
  throw MSkip{"property of a primitive"};
}

void Interp::set(const MVal &o, const MVal &key, const MVal &v) {
  if (o.t == V_UNDEF || o.t == V_NULL) throw MErr{ERR_TYPE};
  if (o.t != V_OBJ) throw MSkip{"property write on a primitive"};
  std::string k = key_of(key);
  if (o.o->arr) {
    long i;
    if (!index_key(k, &i)) throw MSkip{"named property of an array"};
  }
  o.o->p[k] = v;
}

static bool small_int(double d) { return d == (double) (long) d && fabs(d) < 2147483648.0; }

MVal Interp::binop(const std::string &op, const MVal &a, const MVal &b) {
  hits["op " + op]++;
  if (op == "===" || op == "!==") {
    bool eq = false;
    if (a.t == V_FUN || b.t == V_FUN || a.t == V_NATIVE || b.t == V_NATIVE) {
      if (a.t == b.t) throw MSkip{"function identity"};
    }
    if (a.t == b.t) switch (a.t) {
        case V_UNDEF:
        case V_NULL: eq = true; break;
        case V_BOOL: eq = a.b == b.b; break;
        case V_NUM: eq = a.n == b.n; break;
        case V_STR: eq = a.s == b.s; break;
        case V_OBJ: eq = a.o == b.o; break;
        default: break;
      }
    return vbool(op == "===" ? eq : !eq);
  }
  if (op == "==" || op == "!=") throw MErr{ERR_NOTIMPL};
  if (op == "<" || op == ">" || op == "<=" || op == ">=") {
    if (a.t != V_NUM || b.t != V_NUM) throw MSkip{"ordering of non-numbers"};
    if (op == "<") return vbool(a.n < b.n);
    if (op == ">") return vbool(a.n > b.n);
    if (op == "<=") return vbool(a.n <= b.n);
    return vbool(a.n >= b.n);
  }
  if (a.t == V_NATIVE || b.t == V_NATIVE) throw MSkip{"pointer arithmetic"};
  if (op == "+" && a.t == V_STR && b.t == V_STR) {
    if (a.s.size() + b.s.size() > 200000) throw MSkip{"huge string"};
    return vstr(a.s + b.s);
  }
  if (a.t != V_NUM || b.t != V_NUM) throw MErr{ERR_TYPE};  // no implicit conversions
  double x = a.n, y = b.n;
  if (std::isnan(x) || std::isnan(y)) {
    if (op == "+" || op == "-" || op == "*" || op == "/" || op == "%") return vnum(NAN);
    throw MSkip{"bit operation on NaN"};
  }
  if (op == "+") return vnum(x + y);
  if (op == "-") return vnum(x - y);
  if (op == "*") return vnum(x * y);
  if (op == "/") {
    if (y == 0) throw MSkip{"division by zero"};
    return vnum(x / y);
  }
  if (op == "%") {
    if (x != (double) (long) x || fabs(x) > 9007199254740991.0 || !small_int(y)) throw MSkip{"remainder of a non-integer"};
    if (y == 0) return vnum(NAN);
    return vnum(fmod(x, y));
  }
  // the engine has 64 bits where ES6 has 32: judged where both agree
  if (fabs(x) > 9007199254740991.0 || fabs(y) > 9007199254740991.0) throw MSkip{"integer operation on a huge number"};
  long ix = (long) x, iy = (long) y, r;
  if (op == "&" || op == "|" || op == "^") {
    int32_t p = (int32_t) (uint32_t) ix, q = (int32_t) (uint32_t) iy;
    long es = op == "&" ? p & q : op == "|" ? p | q : p ^ q, wide = op == "&" ? ix & iy : op == "|" ? ix | iy : ix ^ iy;
    if (es != wide) throw MSkip{"result beyond 32 bits"};
    return vnum((double) es);
  }
  if (!(fabs(x) < 2147483648.0)) throw MSkip{"shift of a large number"};
  if (op == "&")
    r = ix & iy;
  else if (op == "|")
    r = ix | iy;
  else if (op == "^")
    r = ix ^ iy;
  else {
    if (iy < 0 || iy > 31) throw MSkip{"shift count"};
    if (op == "<<") {
      r = ix * (1L << iy);
    } else if (op == ">>")
      r = ix >> iy;
    else if (op == ">>>") {
      if (ix < 0) throw MSkip{"unsigned shift of a negative number"};
      r = ix >> iy;
    } else
      throw MSkip{"operator " + op};
  }
  if (r > 2147483647L || r < -2147483648L) throw MSkip{"result beyond 32 bits"};
  return vnum((double) r);
}

MVal Interp::native(int id, const MVal &self_, const std::vector<MVal> &a) {
  auto arg = [&](size_t i) { return i < a.size() ? a[i] : MVal(); };
  auto idx = [&](size_t i) {
    MVal v = arg(i);
    if (v.t != V_NUM || !small_int(v.n)) throw MSkip{"index argument"};
    return (long) v.n;
  };
  switch (id) {
    case N_LOG: {
      std::string o;
      for (size_t i = 0; i < a.size(); i++) o += (i ? " " : "") + mser(a[i]);
      log.push_back(o);
      return arg(0);
    }
    case N_GC: return MVal();
    case N_ISNAN: {
      if (arg(0).t != V_NUM) throw MSkip{"isNaN"};
      return vbool(std::isnan(arg(0).n));
    }
    case N_CHR: {
      MVal v = arg(0);
      if (v.t != V_NUM || v.n != (double) (long) v.n) throw MSkip{"chr"};
      if (v.n < 0 || v.n > 255) return vnull();
      return vstr(std::string(1, (char) (unsigned char) (int) v.n));
    }
    case N_AT: {
      if (self_.t != V_STR) throw MSkip{"at"};
      long i = idx(0);
      if (i < 0 || i >= (long) self_.s.size()) throw MSkip{"at out of range"};
      return vnum((unsigned char) self_.s[i]);
    }
    case N_INDEXOF: {
      if (self_.t != V_STR || arg(0).t != V_STR || arg(0).s.empty()) throw MSkip{"indexOf"};
      long from = a.size() > 1 ? idx(1) : 0;
      if (from < 0) throw MSkip{"indexOf"};
      size_t p = self_.s.find(arg(0).s, from);
      return vnum(p == std::string::npos ? -1 : (double) p);
    }
    case N_SLICE: {
      if (self_.t != V_STR) throw MSkip{"slice"};
      long n = self_.s.size(), b = idx(0), e = a.size() > 1 ? idx(1) : n;
      if (b < 0) b = std::max(0L, n + b);
      if (e < 0) e = std::max(0L, n + e);
      b = std::min(b, n);
      e = std::min(e, n);
      return vstr(e > b ? self_.s.substr(b, e - b) : "");
    }
    case N_PUSH: {
      if (self_.t != V_OBJ || !self_.o->arr) throw MSkip{"push"};
      for (auto &x : a) self_.o->p[strf("%ld", arr_len(self_.o))] = x;
      return vnum((double) arr_len(self_.o));
    }
    case N_STRINGIFY: {
      MVal v = arg(0);
      if (v.t == V_NUM && small_int(v.n)) return vstr(strf("%ld", (long) v.n));
      if (v.t == V_BOOL) return vstr(v.b ? "true" : "false");
      throw MSkip{"stringify"};
    }
    case N_CREATE: {
      if (arg(0).t != V_OBJ) throw MSkip{"create"};
      OP o = std::make_shared<MObj>();
      o->proto = arg(0).o;
      return vobj(o);
    }
    case N_APPLY: {
      std::vector<MVal> args;
      MVal l = arg(1);
      if (l.t == V_OBJ && l.o->arr)
        for (long i = 0; i < arr_len(l.o); i++) {
          auto it = l.o->p.find(strf("%ld", i));
          args.push_back(it == l.o->p.end() ? MVal() : it->second);
        }
      return call(self_, arg(0), args);
    }
    default: throw MSkip{"native"};
  }
}

MVal Interp::call(const MVal &f, const MVal &self_, const std::vector<MVal> &args) {
  tick();
  if (f.t == V_NATIVE) return native(f.native, self_, args);
  if (f.t != V_FUN) throw MErr{ERR_TYPE};
  if (++depth > 60) throw MSkip{"model recursion"};
  if (depth > max_depth) max_depth = depth;
  hits["call"]++;
  MVal saved_self = self, saved_last = last;
  size_t ns = scopes.size();
  self = self_;
  scopes.emplace_back();
  for (size_t i = 0; i < f.f->params.size(); i++) scopes.back()[f.f->params[i]] = i < args.size() ? args[i] : MVal();
  retval = MVal();
  Sig sg = run(f.f->body);
  MVal r = sg == RETURN ? retval : MVal();
  if (sg == RETURN) hits["return"]++;
  if (sg == BREAK || sg == CONTINUE) throw MSkip{"misplaced break"};
  scopes.resize(ns);
  self = saved_self;
  last = saved_last;
  depth--;
  return r;
}

MVal Interp::eval(const EP &e) {
  tick();
  switch (e->k) {
    case E_NUM: return vnum(e->num);
    case E_STR: return vstr(e->s);
    case E_BOOL: return vbool(e->flag);
    case E_NULL: return vnull();
    case E_UNDEF: return MVal();
    case E_THIS: return self;
    case E_RAW: throw MSkip{"raw"};
    case E_VAR: {
      MVal *v = find(e->s);
      if (!v) throw MErr{ERR_REF};
      return *v;
    }
    case E_OBJ: {
      OP o = std::make_shared<MObj>();
      for (size_t i = 0; i < e->keys.size(); i++) o->p[e->keys[i]] = eval(e->a[i]);
      return vobj(o);
    }
    case E_ARR: {
      OP o = std::make_shared<MObj>();
      o->arr = true;
      for (size_t i = 0; i < e->a.size(); i++) {
        MVal v = eval(e->a[i]);
        o->p[strf("%zu", i)] = v;
      }
      return vobj(o);
    }
    case E_FUN: {
      MVal v;
      v.t = V_FUN;
      v.f = e->fn;
      return v;
    }
    case E_BIN: {
      MVal a = eval(e->a[0]);
      MVal b = eval(e->a[1]);
      return binop(e->s, a, b);
    }
    case E_AND: {
      MVal a = eval(e->a[0]);
      if (!truthy(a)) {
        hits["short-circuit"]++;
        return a;
      }
      return eval(e->a[1]);
    }
    case E_OR: {
      MVal a = eval(e->a[0]);
      if (truthy(a)) {
        hits["short-circuit"]++;
        return a;
      }
      return eval(e->a[1]);
    }
    case E_COND: {
      hits["cond"]++;
      return truthy(eval(e->a[0])) ? eval(e->a[1]) : eval(e->a[2]);
    }
    case E_UN: {
      MVal a = eval(e->a[0]);
      if (e->s == "!") return vbool(!truthy(a));
      if (e->s == "typeof") {
        switch (a.t) {
          case V_UNDEF: return vstr("undefined");
          case V_BOOL: return vstr("boolean");
          case V_NUM: return vstr("number");
          case V_STR: return vstr("string");
          case V_FUN: return vstr("function");
          case V_OBJ:
            if (!a.o->arr) return vstr("object");
          default: throw MSkip{"typeof"};
        }
      }
      if (a.t != V_NUM) throw MSkip{"unary operator on a non-number"};
      if (e->s == "-") return vnum(-a.n);
      if (e->s == "+") return a;
      if (e->s == "~") {
        if (!(fabs(a.n) < 2147483648.0)) throw MSkip{"~"};
        return vnum((double) ~(long) a.n);
      }
      throw MSkip{"unary"};
    }
    case E_ASSIGN:
    case E_INCDEC: {
      const EP &t = e->a[0];
      MVal obj, key;
      if (t->k == E_VAR) {
        if (!find(t->s)) throw MErr{ERR_REF};
      } else {
        obj = eval(t->a[0]);
        key = t->k == E_DOT ? vstr(t->s) : eval(t->a[1]);
      }
      auto load = [&]() {
        if (t->k == E_VAR) {
          MVal *p = find(t->s);
          if (!p) throw MErr{ERR_REF};
          return *p;
        }
        if (obj.t == V_UNDEF || obj.t == V_NULL) throw MErr{ERR_TYPE};
        if (obj.t != V_OBJ) throw MSkip{"update of a primitive"};
        if (key.t != V_STR) throw MSkip{"compound assignment with a computed index"};
        if (obj.o->proto && !obj.o->p.count(key.s)) throw MSkip{"update of an inherited property"};
        return get(obj, key);
      };
      auto store = [&](const MVal &v) {
        if (t->k == E_VAR)
          *find(t->s) = v;
        else
          set(obj, key, v);
      };
      if (e->k == E_INCDEC) {
        hits["incdec"]++;
        MVal old = load();
        MVal nv = binop(e->s == "++" ? "+" : "-", old, vnum(1));
        store(nv);
        return e->flag ? nv : old;
      }
      if (e->s == "=") {
        MVal v = eval(e->a[1]);
        store(v);
        return v;
      }
      hits["compound"]++;
      // ES6 reads the old value before evaluating the right side
      MVal old = load();
      MVal rhs = eval(e->a[1]);
      MVal again = load();
      if (mser(again) != mser(old)) throw MSkip{"right side modifies the target"};
      MVal nv = binop(e->s.substr(0, e->s.size() - 1), old, rhs);
      store(nv);
      return nv;
    }
    case E_DOT:
    case E_INDEX: {
      MVal o = eval(e->a[0]);
      MVal k = e->k == E_DOT ? vstr(e->s) : eval(e->a[1]);
      return get(o, k);
    }
    case E_CALL: {
      MVal self_, f;
      const EP &c = e->a[0];
      if (c->k == E_DOT || c->k == E_INDEX) {
        self_ = eval(c->a[0]);
        MVal k = c->k == E_DOT ? vstr(c->s) : eval(c->a[1]);
        f = get(self_, k);
      } else
        f = eval(c);
      std::vector<MVal> args;
      for (size_t i = 1; i < e->a.size(); i++) args.push_back(eval(e->a[i]));
      return call(f, self_, args);
    }
  }
  throw MSkip{"?"};
}

Interp::Sig Interp::run(const std::vector<SP> &v) {
  for (auto &s : v) {
    Sig g = stmt(s);
    if (g != NORMAL) return g;
  }
  return NORMAL;
}

Interp::Sig Interp::stmt(const SP &s) {
  tick();
  switch (s->k) {
    case S_LET:
      for (auto &l : s->lets) {
        if (l.second) {
          MVal v = eval(l.second);
          scopes.back()[l.first] = v;
        } else
          scopes.back()[l.first] = MVal();
      }
      return NORMAL;
    case S_EXPR: last = eval(s->e); return NORMAL;
    case S_EMPTY: return NORMAL;
    case S_FUNDECL: {
      MVal v;
      v.t = V_FUN;
      v.f = s->fn;
      scopes.back()[s->fn->name] = v;
      return NORMAL;
    }
    case S_BLOCK: {
      size_t ns = scopes.size();
      scopes.emplace_back();
      Sig g = run(s->body);
      scopes.resize(ns);
      return g;
    }
    case S_IF: {
      bool c = truthy(eval(s->e));
      hits[c ? "if-true" : "if-false"]++;
      if (!c && !s->has_else) return NORMAL;
      size_t ns = scopes.size();
      scopes.emplace_back();
      Sig g = run(c ? s->body : s->other);
      scopes.resize(ns);
      return g;
    }
    case S_WHILE:
    case S_FOR: {
      size_t ns = scopes.size();
      scopes.emplace_back();
      Sig out = NORMAL;
      if (s->k == S_FOR) {
        if (s->init->k == S_LET)
          stmt(s->init);
        else
          eval(s->init->e);
      }
      for (;;) {
        if (!truthy(eval(s->e))) break;
        hits["iteration"]++;
        size_t ns2 = scopes.size();
        scopes.emplace_back();
        Sig g = run(s->body);
        scopes.resize(ns2);
        if (g == BREAK) {
          hits["break"]++;
          break;
        }
        if (g == RETURN) {
          out = g;
          hits["return-from-loop"]++;
          break;
        }
        if (g == CONTINUE) hits["continue"]++;
        if (s->k == S_FOR) eval(s->e2);
      }
      scopes.resize(ns);
      return out;
    }
    case S_FORIN: {
      size_t ns = scopes.size();
      scopes.emplace_back();
      MVal o = eval(s->e);
      if (o.t != V_OBJ) {
        if (o.t == V_NUM || o.t == V_BOOL || o.t == V_STR || o.t == V_UNDEF || o.t == V_NULL) throw MSkip{"for-in over a non-object"};
        throw MSkip{"for-in"};
      }
      if (o.o->proto) throw MSkip{"for-in with a prototype"};
      if (s->decl) scopes.back()[s->name] = MVal();
      std::vector<std::string> keys;
      for (auto &p : o.o->p) keys.push_back(p.first);
      Sig out = NORMAL;
      for (auto &k : keys) {
        MVal *v = find(s->name);
        if (!v) throw MErr{ERR_REF};
        *v = vstr(k);
        hits["for-in"]++;
        size_t ns2 = scopes.size();
        scopes.emplace_back();
        Sig g = run(s->body);
        scopes.resize(ns2);
        if (o.o->p.size() != keys.size()) throw MSkip{"object changed during for-in"};
        if (g == BREAK) break;
        if (g == RETURN) {
          out = g;
          break;
        }
      }
      scopes.resize(ns);
      return out;
    }
    case S_BREAK: return BREAK;
    case S_CONTINUE: return CONTINUE;
    case S_RETURN:
      retval = s->e ? eval(s->e) : MVal();
      return RETURN;
  }
  return NORMAL;
}

// ---- generator -------------------------------------------------------------------------
std::string Gen::fresh(const char *p) { return strf("%s%d", p, nctr++); }

const GVar *Gen::pickvar(GT t, bool writable) {
  std::vector<const GVar *> c;
  for (auto &sc : scopes)
    for (auto &v : sc)
      if (v.t == t && !(writable && v.ro)) c.push_back(&v);
  if (c.empty()) return nullptr;
  // prefer recent ones
  size_t i = s.below(c.size());
  return c[c.size() - 1 - i];
}

EP Gen::intlit() {
  static const std::vector<long> special = {0, 1, 2, 3, 5, 7, 10, 16, 63, 64, 100, 127, 128, 129, 255, 256, 1000, 16383, 16384, 65535, 65536, 2147483647};
  EP e;
  switch (s.weighted({6, 3, 1, 1})) {
    case 0: e = enumber((double) s.below(10)); break;
    case 1: e = enumber((double) special[s.below(special.size())]); break;
    case 2: e = enumber((double) s.below(1 << 20)); break;
    default: {
      long v = s.below(1 << 16);
      e = enumber((double) v);
      e->lit = strf(s.chance(1, 2) ? "0x%lx" : "0x%lX", v);
      break;
    }
  }
  return e;
}
EP Gen::numlit() {
  switch (s.weighted({4, 3, 2, 1})) {
    case 0: return intlit();
    case 1: {
      EP e = mk(E_NUM);
      e->lit = strf("%d.%d", (int) s.below(1000), (int) s.below(1000));
      e->num = strtod(e->lit.c_str(), nullptr);
      return e;
    }
    case 2: {
      EP e = mk(E_NUM);
      e->lit = strf("%d.%de%d", (int) s.below(10), (int) s.below(100), (int) s.range(-8, 8));
      e->num = strtod(e->lit.c_str(), nullptr);
      return e;
    }
    default: return enumber((double) s.below(1000) / 8);
  }
}

std::string Gen::strval() {
  static const std::vector<int> sizes = {0, 1, 2, 3, 4, 5, 6, 7, 8, 20, 126, 127, 128, 129, 255, 256, 300};
  static const char alpha[] = "abcdefghijXYZ 0123_.\"'\\\n\t\x01\x7f\x80\xff\0/;{}";
  int n;
  if (s.chance(cfg.bigstr_pct, 100))
    n = sizes[s.below(sizes.size())];
  else
    n = (int) s.below(9);
  if (cfg.long_pct && s.chance(cfg.long_pct, 300)) n = s.chance(1, 8) ? (int) s.range(16200, 16600) : (int) s.range(100, 400);
  std::string o;
  int mode = (int) s.below(4);
  if (n > 12) {
    // long strings: cheap in choices
    int base = (int) s.below(26), step = (int) s.below(5);
    for (int i = 0; i < n; i++) o += (char) ('a' + (base + i * step + i / 26) % 26);
    return o;
  }
  for (int i = 0; i < n; i++) {
    if (mode < 3)
      o += (char) ('a' + s.below(mode == 0 ? 2 : 26));
    else
      o += alpha[s.below(sizeof(alpha) - 1)];
  }
  for (auto &c : o)
    if (c == 0) c = 'z';  // embedded NULs: covered by the string property
  return o;
}
EP Gen::strlit_() {
  EP e = estr(strval());
  e->lit = js_string_literal(e->s, s.chance(1, 4) ? '"' : '\'', s.chance(1, 10) ? 1 : 0);
  return e;
}

EP Gen::bounded_int(int d) {
  EP e = int_(d);
  return ebin("%", e, enumber(997));
}
EP Gen::bounded_str(int d) {
  EP e = str_(d);
  if (e->k == E_STR) return e;
  EP dot = mk(E_DOT);
  if (e->k != E_VAR && e->k != E_CALL && e->k != E_DOT && e->k != E_INDEX && !e->parens) e->parens = 1;
  dot->a = {e};
  dot->s = "slice";
  return ecall(dot, {enumber(0), enumber((double) s.range(3, 40))});
}

static EP paren(EP e) {
  if (!e->parens) e->parens = 1;
  return e;
}

EP Gen::call_fn(const GVar *f, int d) {
  std::vector<EP> args;
  GVar fv = *f;
  for (int i = 0; i < fv.arity; i++) {
    if (fv.recursive && i == 0)
      args.push_back(enumber((double) s.below(4)));
    else
      args.push_back(expr(fv.ptypes[i], d - 1));
  }
  // extra / missing arguments: extras are ignored
  if (s.chance(1, 15)) args.push_back(intlit());
  return ecall(evar(fv.name), args);
}

EP Gen::int_(int d) {
  const GVar *v;
  if (d <= 0) {
    if (s.chance(1, 2) && (v = pickvar(T_INT))) return evar(v->name);
    return intlit();
  }
  switch (s.weighted({10, 6, 6, 4, 3, 3, 3, 3, 3, 4, 2, 2, 3, 2, 2, 2})) {
    case 0: {
      static const std::vector<std::string> ops = {"+", "-", "*", "%"};
      std::string op = s.pick(ops);
      EP a = int_(d - 1), b = int_(d - 1);
      if (op == "*") return ebin("%", paren(ebin("*", a, b)), enumber(997));
      if (op == "%") return ebin("%", a, enumber((double) s.range(1, 1000)));
      EP e = ebin(op, a, b);
      e->parens = s.chance(1, 5);
      return e;
    }
    case 1:
      if ((v = pickvar(T_INT))) return evar(v->name);
      return intlit();
    case 2: return intlit();
    case 3: {
      static const std::vector<std::string> ops = {"&", "|", "^", "<<", ">>"};
      std::string op = s.pick(ops);
      EP a = bounded_int(d - 1);
      EP e = op == "<<" || op == ">>" ? ebin(op, a, enumber((double) s.below(12))) : ebin(op, a, bounded_int(d - 1));
      e->parens = s.chance(1, 3);
      return e;
    }
    case 4: {
      EP e = mk(E_UN);
      e->s = s.chance(1, 4) ? "~" : "-";
      e->a = {e->s == "~" ? paren(bounded_int(d - 1)) : int_(d - 1)};
      return e;
    }
    case 5: {
      EP e = mk(E_COND);
      e->a = {bool_(d - 1), int_(d - 1), int_(d - 1)};
      e->parens = s.chance(1, 2);
      return e;
    }
    case 6: {
      EP e = mk(s.chance(1, 2) ? E_AND : E_OR);
      e->a = {int_(d - 1), int_(d - 1)};
      e->parens = s.chance(1, 2);
      return e;
    }
    case 7:
      if (cfg.strs) {
        EP e = mk(E_DOT), x = str_(d - 1);
        if (x->k == E_BIN || x->k == E_COND || x->k == E_ASSIGN || x->k == E_UN) paren(x);
        e->a = {x};
        e->s = "length";
        return e;
      }
      return intlit();
    case 8:
      if (cfg.arrs && (v = pickvar(T_ARR))) {
        EP e;
        if (s.chance(1, 3)) {
          e = mk(E_DOT);
          e->s = "length";
          e->a = {evar(v->name)};
        } else {
          e = mk(E_INDEX);
          e->a = {evar(v->name), enumber((double) s.below(v->alen > 0 ? v->alen : 1))};
        }
        return e;
      }
      return intlit();
    case 9:
      if (cfg.funcs) {
        std::vector<const GVar *> c;
        for (auto &sc : scopes)
          for (auto &f : sc)
            if (f.t == T_FUN && f.ret == T_INT) c.push_back(&f);
        if (!c.empty()) {
          EP e = call_fn(c[s.below(c.size())], d);
          if (s.chance(1, 4)) return e;
          return ebin("%", e, enumber(997));
        }
      }
      return intlit();
    case 10:
      if (cfg.objs && (v = pickvar(T_OBJ))) {
        EP e;
        if (s.chance(1, 4)) {
          e = mk(E_INDEX);
          e->a = {evar(v->name), estr(s.chance(1, 2) ? "a" : "b")};
        } else {
          e = mk(E_DOT);
          e->a = {evar(v->name)};
          e->s = s.chance(1, 2) ? "a" : "b";
        }
        return e;
      }
      return intlit();
    case 11:
      if (cfg.objs && cfg.methods && (v = pickvar(T_OBJ)) && v->method) {
        EP dot = mk(E_DOT);
        dot->a = {evar(v->name)};
        dot->s = "m";
        return ecall(dot, {bounded_int(d - 1)});
      }
      return intlit();
    case 12:
      if ((v = pickvar(T_INT, true))) {
        std::string n = v->name;
        if (s.chance(1, 2)) {
          EP e = mk(E_INCDEC);
          e->s = s.chance(1, 2) ? "++" : "--";
          e->flag = s.chance(1, 2);
          e->a = {evar(n)};
          return paren(e);
        }
        EP e = mk(E_ASSIGN);
        static const std::vector<std::string> ops = {"=", "+=", "-="};
        e->s = s.pick(ops);
        e->a = {evar(n), bounded_int(d - 1)};
        return paren(e);
      }
      return intlit();
    case 13:
      if (cfg.logs_in_expr) return ecall(evar("log"), {int_(d - 1)});
      return intlit();
    case 14:
      if (cfg.strs) {
        EP x = strlit_();
        if (x->s.empty()) {
          x->s = "q";
          x->lit = "'q'";
        }
        EP dot = mk(E_DOT);
        dot->a = {x};
        if (s.chance(1, 2)) {
          dot->s = s.chance(1, 2) ? "at" : "charCodeAt";
          return ecall(dot, {enumber((double) s.below(x->s.size()))});
        }
        dot->s = "indexOf";
        EP y = strlit_();
        if (y->s.empty()) {
          y->s = "q";
          y->lit = "'q'";
        }
        return ecall(dot, {y});
      }
      return intlit();
    default: {
      // immediately called function
      if (!cfg.funcs || fnd >= 2) return intlit();
      GVar tmp;
      tmp.t = T_FUN;
      tmp.ret = T_INT;
      EP f = mk(E_FUN);
      int savel = loopd;
      loopd = 0;
      fnd++;
      FP fn = std::make_shared<Fun>();
      int np = (int) s.below(3);
      scopes.emplace_back();
      for (int i = 0; i < np; i++) {
        GVar p;
        p.name = fresh("p");
        p.t = T_INT;
        fn->params.push_back(p.name);
        scopes.back().push_back(p);
      }
      SP r = mks(S_RETURN);
      r->e = int_(d - 1);
      fn->body = {r};
      scopes.pop_back();
      fnd--;
      loopd = savel;
      f->fn = fn;
      std::vector<EP> args;
      for (int i = 0; i < np; i++) args.push_back(int_(d - 2));
      return ecall(f, args);
    }
  }
}

EP Gen::num_(int d) {
  const GVar *v;
  if (d <= 0) {
    if (s.chance(1, 2) && (v = pickvar(T_NUM))) return evar(v->name);
    return numlit();
  }
  switch (s.weighted({6, 3, 4, 2, 2, 1})) {
    case 0: {
      static const std::vector<std::string> ops = {"+", "-", "*", "/"};
      std::string op = s.pick(ops);
      EP b = op == "/" ? numlit() : num_(d - 1);
      if (op == "/" && b->num == 0) b = enumber(3);
      EP e = ebin(op, num_(d - 1), b);
      e->parens = s.chance(1, 5);
      return e;
    }
    case 1:
      if ((v = pickvar(T_NUM))) return evar(v->name);
      return numlit();
    case 2: return numlit();
    case 3: return int_(d - 1);
    case 4: {
      EP e = mk(E_UN);
      e->s = s.chance(1, 5) ? "+" : "-";
      e->a = {num_(d - 1)};
      return e;
    }
    default: {
      EP e = mk(E_COND);
      e->a = {bool_(d - 1), num_(d - 1), num_(d - 1)};
      return paren(e);
    }
  }
}

EP Gen::str_(int d) {
  const GVar *v;
  if (d <= 0) {
    if (s.chance(1, 2) && (v = pickvar(T_STR))) return evar(v->name);
    return strlit_();
  }
  switch (s.weighted({5, 5, 5, 2, 3, 2, 2, 2, 2, 2, 2, 2})) {
    case 0: {
      EP e = ebin("+", str_(d - 1), str_(d - 1));
      e->parens = s.chance(1, 4);
      return e;
    }
    case 1:
      if ((v = pickvar(T_STR))) return evar(v->name);
      return strlit_();
    case 2: return strlit_();
    case 3: {
      EP x = strlit_();
      if (x->s.empty()) return x;
      EP e = mk(E_INDEX);
      e->a = {x, enumber((double) s.below(x->s.size()))};
      return e;
    }
    case 4: {
      EP x = str_(d - 1);
      if (x->k == E_BIN || x->k == E_COND || x->k == E_ASSIGN || x->k == E_UN) paren(x);
      EP dot = mk(E_DOT);
      dot->a = {x};
      dot->s = "slice";
      long b = s.range(0, 6);
      if (s.chance(1, 3)) return ecall(dot, {enumber((double) b)});
      return ecall(dot, {enumber((double) b), enumber((double) (b + s.range(0, 8)))});
    }
    case 5: {
      EP e = mk(E_COND);
      e->a = {bool_(d - 1), str_(d - 1), str_(d - 1)};
      return paren(e);
    }
    case 6: {
      EP e = mk(s.chance(1, 2) ? E_AND : E_OR);
      e->a = {str_(d - 1), str_(d - 1)};
      return paren(e);
    }
    case 7: return ecall(evar("chr"), {enumber((double) s.range(1, 255))});
    case 8:
      if (cfg.objs && (v = pickvar(T_OBJ))) {
        EP e = mk(E_DOT);
        e->a = {evar(v->name)};
        e->s = "s";
        return e;
      }
      return strlit_();
    case 9: {
      EP dot = mk(E_DOT);
      dot->a = {evar("JSON")};
      dot->s = "stringify";
      return ecall(dot, {s.chance(1, 4) ? bool_(d - 1) : bounded_int(d - 1)});
    }
    case 10: {
      EP e = mk(E_UN);
      e->s = "typeof";
      switch (s.below(4)) {
        case 0: e->a = {paren(int_(d - 1))}; break;
        case 1: e->a = {paren(str_(d - 1))}; break;
        case 2: e->a = {paren(bool_(d - 1))}; break;
        default: e->a = {mk(E_UNDEF)}; break;
      }
      return e;
    }
    default:
      if (cfg.funcs) {
        std::vector<const GVar *> c;
        for (auto &sc : scopes)
          for (auto &f : sc)
            if (f.t == T_FUN && f.ret == T_STR) c.push_back(&f);
        if (!c.empty()) return call_fn(c[s.below(c.size())], d);
      }
      return strlit_();
  }
}

EP Gen::any_(int d) {
  switch (s.below(7)) {
    case 0: return int_(d);
    case 1: return str_(d);
    case 2: return bool_(d);
    case 3: return mk(E_NULL);
    case 4: return mk(E_UNDEF);
    case 5: {
      const GVar *v = pickvar(T_OBJ);
      if (v) return evar(v->name);
      return num_(d);
    }
    default: {
      const GVar *v = pickvar(T_OBJ);
      if (v) {
        EP e = mk(E_DOT);
        e->a = {evar(v->name)};
        e->s = strf("x%d", (int) s.below(4));
        return e;
      }
      return numlit();
    }
  }
}

EP Gen::bool_(int d) {
  const GVar *v;
  if (d <= 0) {
    if (s.chance(1, 2) && (v = pickvar(T_BOOL))) return evar(v->name);
    EP e = mk(E_BOOL);
    e->flag = s.chance(1, 2);
    return e;
  }
  switch (s.weighted({6, 4, 4, 3, 2, 2, 2, 1})) {
    case 0: {
      static const std::vector<std::string> ops = {"<", ">", "<=", ">="};
      EP e = s.chance(1, 4) ? ebin(s.pick(ops), num_(d - 1), num_(d - 1)) : ebin(s.pick(ops), int_(d - 1), int_(d - 1));
      e->parens = s.chance(1, 5);
      return e;
    }
    case 1: {
      EP a, b;
      switch (s.below(4)) {
        case 0: a = int_(d - 1), b = int_(d - 1); break;
        case 1: a = str_(d - 1), b = str_(d - 1); break;
        case 2: a = paren(bool_(d - 1)), b = paren(bool_(d - 1)); break;
        default: a = paren(any_(d - 1)), b = paren(any_(d - 1)); break;
      }
      return ebin(s.chance(1, 2) ? "===" : "!==", a, b);
    }
    case 2: {
      EP e = mk(s.chance(1, 2) ? E_AND : E_OR);
      e->a = {bool_(d - 1), bool_(d - 1)};
      e->parens = s.chance(1, 3);
      return e;
    }
    case 3: {
      EP e = mk(E_UN);
      e->s = "!";
      EP x = s.chance(1, 3) ? any_(d - 1) : bool_(d - 1);
      e->a = {x};
      return e;
    }
    case 4:
      if ((v = pickvar(T_BOOL))) return evar(v->name);
    case 5: {
      EP e = mk(E_BOOL);
      e->flag = s.chance(1, 2);
      return e;
    }
    case 6: {
      EP e = mk(E_COND);
      e->a = {any_(d - 1), bool_(d - 1), bool_(d - 1)};
      return paren(e);
    }
    default: return ebin("===", paren(str_(d - 1)), strlit_());
  }
}

EP Gen::obj_(int d) {
  const GVar *v;
  if (s.chance(1, 3) && (v = pickvar(T_OBJ)) && v->method == cfg.methods) return evar(v->name);
  EP e = mk(E_OBJ);
  auto add = [&](const std::string &k, EP x) {
    e->keys.push_back(k);
    e->quoted.push_back(s.chance(1, 4));
    e->a.push_back(x);
  };
  add("a", bounded_int(d - 1));
  add("b", bounded_int(d - 1));
  add("s", bounded_str(d - 1));
  if (s.chance(1, 3)) add(strf("x%d", (int) s.below(4)), any_(d - 1));
  if (cfg.methods) {
    FP fn = std::make_shared<Fun>();
    std::string p = fresh("q");
    fn->params.push_back(p);
    int savel = loopd, savef = fnd;
    loopd = 0;
    fnd++;
    EP ta = mk(E_DOT), tb = mk(E_DOT);
    ta->a = {mk(E_THIS)};
    ta->s = "a";
    tb->a = {mk(E_THIS)};
    tb->s = "b";
    if (s.chance(1, 2)) {
      EP as = mk(E_ASSIGN);
      as->s = "=";
      as->a = {ta, ebin("%", paren(ebin(s.chance(1, 2) ? "+" : "-", tb, evar(p))), enumber(997))};
      fn->body.push_back(sexpr(as));
    }
    SP r = mks(S_RETURN);
    r->e = ebin(s.chance(1, 2) ? "+" : "-", ta, s.chance(1, 2) ? evar(p) : tb);
    fn->body.push_back(r);
    loopd = savel;
    fnd = savef;
    EP f = mk(E_FUN);
    f->fn = fn;
    add("m", f);
  }
  return e;
}
EP Gen::arr_(int d) {
  EP e = mk(E_ARR);
  int n = (int) s.range(1, 5);
  for (int i = 0; i < n; i++) e->a.push_back(bounded_int(d - 1));
  return e;
}
EP Gen::expr(GT t, int d) {
  switch (t) {
    case T_INT: return bounded_int(d);
    case T_NUM: return num_(d);
    case T_STR: return bounded_str(d);
    case T_BOOL: return bool_(d);
    case T_OBJ: return obj_(d);
    case T_ARR: return arr_(d);
    case T_FUN: {
      // an int -> int function value
      FP fn = std::make_shared<Fun>();
      std::string p = fresh("p");
      fn->params.push_back(p);
      int savel = loopd;
      loopd = 0;
      fnd++;
      scopes.emplace_back();
      GVar g;
      g.name = p;
      g.t = T_INT;
      scopes.back().push_back(g);
      SP r = mks(S_RETURN);
      r->e = bounded_int(d > 2 ? 2 : d);
      fn->body = {r};
      scopes.pop_back();
      fnd--;
      loopd = savel;
      EP f = mk(E_FUN);
      f->fn = fn;
      return f;
    }
  }
  return intlit();
}

SP Gen::logstmt() {
  std::vector<EP> args = {enumber((double) ++logctr)};
  int n = (int) s.below(3);
  for (int i = 0; i < n; i++) {
    switch (s.below(5)) {
      case 0: args.push_back(int_(cfg.depth)); break;
      case 1: args.push_back(num_(cfg.depth)); break;
      case 2: args.push_back(str_(cfg.depth)); break;
      case 3: args.push_back(bool_(cfg.depth)); break;
      default: args.push_back(any_(cfg.depth)); break;
    }
  }
  return sexpr(ecall(evar("log"), args));
}

SP Gen::let(GT t) {
  SP st = mks(S_LET);
  int n = s.chance(1, 6) ? 2 : 1;
  std::vector<GVar> added;
  for (int i = 0; i < n; i++) {
    GVar v;
    v.name = fresh(t == T_INT ? "i" : t == T_NUM ? "n" : t == T_STR ? "s" : t == T_BOOL ? "b" : t == T_OBJ ? "o" : "a");
    v.t = t;
    EP e = expr(t, cfg.depth);
    if (t == T_ARR) v.alen = (int) e->a.size();
    v.method = t == T_OBJ && cfg.methods;
    st->lets.push_back({v.name, e});
    added.push_back(v);
  }
  for (auto &v : added) scopes.back().push_back(v);
  return st;
}

std::vector<SP> Gen::body(int n) {
  std::vector<SP> v;
  for (int i = 0; i < n; i++) v.push_back(stmt());
  return v;
}
std::vector<SP> Gen::block(int n, bool *braces) {
  scopes.emplace_back();
  blockd++;
  std::vector<SP> v;
  bool single = braces && s.chance(1, 4);
  if (single) {
    // a lone statement without braces: no declarations
    switch (s.below(3)) {
      case 0: v.push_back(logstmt()); break;
      case 1: v.push_back(logstmt()); break;
      default: v.push_back(stmt());
    }
    if (v[0]->k == S_LET || v[0]->k == S_FUNDECL || v[0]->k == S_IF) single = false;
  } else {
    v = body(n);
    if (s.chance(1, 12)) v.clear();
    if (cfg.long_pct && s.chance(cfg.long_pct, 100)) {
      // make the block long so that jumps over it need wider offsets
      int k = s.chance(1, 10) ? 17000 : (int) s.range(90, 300);
      std::string filler;
      for (int i = 0; i < k; i++) filler += (char) ('a' + i % 26);
      v.insert(v.begin(), sexpr(ecall(evar("log"), {[&] {
                          EP d = mk(E_DOT);
                          d->a = {estr(filler)};
                          d->s = "length";
                          return d;
                        }()})));
    }
  }
  if (braces) *braces = !single;
  blockd--;
  scopes.pop_back();
  return v;
}

FP Gen::function(GVar &self, bool named) {
  FP fn = std::make_shared<Fun>();
  fn->name = named ? self.name : "";
  int savel = loopd, savem = loopmul;
  loopd = 0;
  fnd++;
  scopes.emplace_back();
  int np = (int) s.below(4);
  self.recursive = s.chance(1, 4);
  if (self.recursive && np == 0) np = 1;
  for (int i = 0; i < np; i++) {
    GVar p;
    static const std::vector<GT> ts = {T_INT, T_INT, T_STR, T_BOOL, T_OBJ, T_FUN};
    p.t = i == 0 && self.recursive ? T_INT : s.pick(ts);
    if (p.t == T_OBJ && !cfg.objs) p.t = T_INT;
    p.name = fresh("p");
    p.method = cfg.methods;
    p.ro = i == 0 && self.recursive;
    if (p.t == T_FUN) {
      p.arity = 1;
      p.ptypes = {T_INT};
      p.ret = T_INT;
    }
    fn->params.push_back(p.name);
    self.ptypes.push_back(p.t);
    scopes.back().push_back(p);
  }
  self.arity = np;
  if (self.recursive) {
    SP i = mks(S_IF);
    i->e = ebin("<=", evar(fn->params[0]), enumber(0));
    SP r = mks(S_RETURN);
    r->e = expr(self.ret, 1);
    i->body = {r};
    fn->body.push_back(i);
  }
  int n = (int) s.range(0, 3);
  blockd++;
  for (int i = 0; i < n; i++) fn->body.push_back(stmt());
  blockd--;
  if (self.recursive) {
    std::vector<EP> args = {ebin("-", evar(fn->params[0]), enumber(1))};
    for (int i = 1; i < np; i++) args.push_back(self.ptypes[i] == T_FUN ? evar(fn->params[i]) : expr(self.ptypes[i], 1));
    EP rc = ecall(evar(self.name), args);
    GVar v;
    v.name = fresh("r");
    v.t = self.ret;
    SP l = mks(S_LET);
    l->lets.push_back({v.name, rc});
    fn->body.push_back(l);
    scopes.back().push_back(v);
  }
  if (!s.chance(1, 12)) {
    SP r = mks(S_RETURN);
    r->e = expr(self.ret, cfg.depth);
    fn->body.push_back(r);
  } else if (self.ret != T_INT) {
    SP r = mks(S_RETURN);
    r->e = expr(self.ret, 1);
    fn->body.push_back(r);
  } else {
    SP r = mks(S_RETURN);
    r->e = enumber(1);
    fn->body.push_back(r);
  }
  scopes.pop_back();
  fnd--;
  loopd = savel;
  loopmul = savem;
  return fn;
}

SP Gen::fundecl() {
  GVar f;
  f.t = T_FUN;
  f.name = fresh("f");
  static const std::vector<GT> rets = {T_INT, T_INT, T_STR};
  f.ret = s.pick(rets);
  SP st;
  if (s.chance(1, 2)) {
    st = mks(S_FUNDECL);
    st->fn = function(f, true);
  } else {
    st = mks(S_LET);
    EP e = mk(E_FUN);
    e->fn = function(f, false);
    st->lets.push_back({f.name, e});
  }
  scopes.back().push_back(f);
  return st;
}

SP Gen::badstmt() {
  EP e;
  switch (s.below(9)) {
    case 0: e = ebin("+", str_(1), int_(1)); break;
    case 1: e = ebin("-", int_(1), str_(1)); break;
    case 2: e = evar(fresh("undeclared")); break;
    case 3: {
      e = mk(E_DOT);
      e->a = {paren(s.chance(1, 2) ? mk(E_UNDEF) : mk(E_NULL))};
      e->s = "foo";
      break;
    }
    case 4: e = ecall(paren(int_(1)), {int_(1)}); break;
    case 5: e = ebin("==", int_(1), int_(1)); break;
    case 6: {
      e = mk(E_ASSIGN);
      e->s = "=";
      e->a = {evar(fresh("undeclared")), int_(1)};
      break;
    }
    case 7: e = ebin("*", paren(bool_(1)), int_(1)); break;
    default: {
      const GVar *v = pickvar(T_OBJ);
      EP d = mk(E_DOT);
      if (v)
        d->a = {evar(v->name)};
      else
        d->a = {paren(mk(E_NULL))};
      d->s = "nosuchmethod";
      e = ecall(d, {int_(1)});
    }
  }
  if (s.chance(1, 3)) {
    SP l = mks(S_LET);
    l->lets.push_back({fresh("z"), e});
    return l;
  }
  return sexpr(s.chance(1, 2) ? e : ecall(evar("log"), {e}));
}

SP Gen::stmt() {
  const GVar *v;
  if (cfg.err_pct && s.chance(cfg.err_pct, 100)) return badstmt();
  if (cfg.gc_calls && s.chance(1, 8)) {
    EP t = mk(E_BOOL);
    t->flag = s.chance(1, 2);
    return sexpr(ecall(evar("gc"), {t}));
  }
  int cb = blockd < cfg.block_depth ? cfg.ctl_bias : 0;
  int lb = cfg.loops && loopd < 2 && loopmul < 60 ? cb : 0;
  int fb = cfg.funcs && fnd < 2 && loopd == 0 ? cfg.fn_bias : 0;
  switch (s.weighted({10, 8, 5, 4, 5 * cb, 3 * lb, 4 * lb, 2 * (cfg.objs ? lb : 0), 2 * cb, loopd > 0 ? 3 : 0, 3 * fb,
                      fnd > 0 ? 1 : 0, cfg.objs ? 3 : 0, cfg.arrs ? 3 : 0, 1})) {
    case 0: return logstmt();
    case 1: {
      static const std::vector<GT> ts = {T_INT, T_INT, T_NUM, T_STR, T_BOOL, T_OBJ, T_ARR};
      GT t = s.pick(ts);
      if (t == T_OBJ && !cfg.objs) t = T_INT;
      if (t == T_ARR && !cfg.arrs) t = T_INT;
      if (t == T_STR && !cfg.strs) t = T_INT;
      return let(t);
    }
    case 2: {
      static const std::vector<GT> ts = {T_INT, T_NUM, T_STR, T_BOOL};
      GT t = s.pick(ts);
      if (!(v = pickvar(t, true))) return logstmt();
      std::string n = v->name;
      EP e = mk(E_ASSIGN);
      e->s = "=";
      e->a = {evar(n), expr(t, cfg.depth)};
      return sexpr(e);
    }
    case 3: {
      if (s.chance(1, 3) && cfg.strs && (v = pickvar(T_STR, true))) {
        std::string n = v->name;
        EP e = mk(E_ASSIGN);
        e->s = "+=";
        e->a = {evar(n), strlit_()};
        return sexpr(e);
      }
      if (!(v = pickvar(T_INT, true))) return logstmt();
      std::string n = v->name;
      if (s.chance(1, 2)) {
        EP e = mk(E_INCDEC);
        e->s = s.chance(1, 2) ? "++" : "--";
        e->flag = s.chance(1, 2);
        e->a = {evar(n)};
        return sexpr(e);
      }
      static const std::vector<std::string> ops = {"+=", "-=", "%=", "&=", "|=", "^=", ">>="};
      EP e = mk(E_ASSIGN);
      e->s = s.pick(ops);
      EP r;
      if (e->s == ">>=")
        r = enumber((double) s.below(8));
      else if (e->s == "%=")
        r = enumber((double) s.range(1, 500));
      else
        r = bounded_int(cfg.depth);
      e->a = {evar(n), r};
      return sexpr(e);
    }
    case 4: {
      SP st = mks(S_IF);
      st->e = s.chance(1, 4) ? any_(cfg.depth) : bool_(cfg.depth);
      st->body = block((int) s.range(1, 3), &st->braces);
      if (s.chance(1, 2)) {
        st->has_else = true;
        if (s.chance(1, 3) && blockd < cfg.block_depth) {
          SP in = mks(S_IF);
          in->e = bool_(cfg.depth);
          in->body = block((int) s.range(1, 2), &in->braces);
          if (s.chance(1, 2)) {
            in->has_else = true;
            in->other = block((int) s.range(1, 2), &in->obraces);
          }
          st->other = {in};
          st->obraces = s.chance(1, 2);
          st->braces = true;
        } else {
          st->other = block((int) s.range(1, 3), &st->obraces);
          // avoid the dangling else
          if (!st->braces && st->body.size() == 1 && st->body[0]->k == S_IF) st->braces = true;
        }
      }
      return st;
    }
    case 5: {
      // while with a dedicated counter
      SP blk = mks(S_BLOCK);
      std::string c = fresh("w");
      int n = (int) s.range(1, 5), savem = loopmul;
      SP l = mks(S_LET);
      l->lets.push_back({c, enumber(n)});
      SP st = mks(S_WHILE);
      EP dec = mk(E_INCDEC);
      dec->s = "--";
      dec->flag = s.chance(1, 2);
      dec->a = {evar(c)};
      EP cond = ebin(">", dec->flag ? paren(dec) : dec, enumber(0));
      if (s.chance(1, 3)) {
        EP a = mk(E_AND);
        a->a = {cond, bool_(cfg.depth - 1)};
        cond = a;
      }
      st->e = cond;
      loopd++;
      loopmul *= n;
      scopes.emplace_back();
      GVar cv;
      cv.name = c;
      cv.t = T_INT;
      cv.ro = true;
      scopes.back().push_back(cv);
      st->body = block((int) s.range(1, 4), &st->braces);
      scopes.pop_back();
      loopd--;
      loopmul = savem;
      blk->body = {l, st};
      return blk;
    }
    case 6: {
      SP st = mks(S_FOR);
      std::string c;
      int n = (int) s.range(0, 5), savem = loopmul;
      scopes.emplace_back();
      st->init = mks(S_LET);
      c = fresh("k");
      st->init->lets.push_back({c, enumber(0)});
      GVar cv;
      cv.name = c;
      cv.t = T_INT;
      cv.ro = true;
      scopes.back().push_back(cv);
      st->e = ebin("<", evar(c), enumber(n));
      EP inc = mk(s.chance(1, 3) ? E_ASSIGN : E_INCDEC);
      if (inc->k == E_ASSIGN) {
        inc->s = "+=";
        inc->a = {evar(c), enumber((double) s.range(1, 2))};
      } else {
        inc->s = "++";
        inc->flag = s.chance(1, 2);
        inc->a = {evar(c)};
      }
      st->e2 = inc;
      loopd++;
      loopmul *= n ? n : 1;
      st->body = block((int) s.range(1, 4), &st->braces);
      loopd--;
      loopmul = savem;
      scopes.pop_back();
      return st;
    }
    case 7: {
      // for-in: the visiting order is not specified, so the body commutes
      SP blk = mks(S_BLOCK);
      std::string acc = fresh("acc"), cnt = fresh("cnt"), k = fresh("key"), ob = fresh("fo");
      SP l = mks(S_LET);
      EP o = mk(E_OBJ);
      int n = (int) s.range(0, 6);
      for (int i = 0; i < n; i++) {
        o->keys.push_back(strf("%s%d", s.chance(1, 3) ? "longer_key" : "k", i));
        o->quoted.push_back(s.chance(1, 3));
        o->a.push_back(bounded_int(1));
      }
      l->lets = {{acc, enumber(0)}, {cnt, enumber(0)}, {ob, o}};
      SP st = mks(S_FORIN);
      st->name = k;
      st->decl = s.chance(2, 3);
      if (!st->decl) l->lets.push_back({k, estr("")});
      st->e = evar(ob);
      EP ix = mk(E_INDEX);
      ix->a = {evar(ob), evar(k)};
      EP a1 = mk(E_ASSIGN);
      a1->s = "+=";
      a1->a = {evar(acc), ix};
      EP a2 = mk(E_INCDEC);
      a2->s = "++";
      a2->a = {evar(cnt)};
      if (s.chance(1, 3)) {
        SP c = mks(S_IF);
        c->e = ebin(s.chance(1, 2) ? "===" : "!==", evar(k), estr(n > 0 ? o->keys[s.below(n)] : std::string("k0")));
        c->body = {mks(S_CONTINUE)};
        c->braces = s.chance(1, 2);
        st->body.push_back(c);
      }
      st->body.push_back(sexpr(a1));
      if (s.chance(1, 3)) {
        SP in = mks(S_FOR);
        std::string kk = fresh("k");
        in->init = mks(S_LET);
        in->init->lets.push_back({kk, enumber(0)});
        in->e = ebin("<", evar(kk), enumber((double) s.range(0, 4)));
        EP inc = mk(E_INCDEC);
        inc->s = "++";
        inc->a = {evar(kk)};
        in->e2 = inc;
        EP a3 = mk(E_ASSIGN);
        a3->s = "+=";
        a3->a = {evar(acc), evar(kk)};
        if (s.chance(1, 2)) {
          SP c = mks(S_IF);
          c->e = ebin("===", evar(kk), enumber(1));
          c->body = {mks(s.chance(1, 2) ? S_BREAK : S_CONTINUE)};
          in->body.push_back(c);
        }
        in->body.push_back(sexpr(a3));
        st->body.push_back(in);
      }
      st->body.push_back(sexpr(a2));
      st->braces = true;
      blk->body = {l, st, sexpr(ecall(evar("log"), {enumber(++logctr), evar(acc), evar(cnt)}))};
      return blk;
    }
    case 8: {
      SP st = mks(S_BLOCK);
      st->body = block((int) s.range(1, 3));
      return st;
    }
    case 9: {
      // conditional break / continue
      SP st = mks(S_IF);
      st->e = bool_(cfg.depth);
      bool log = s.chance(1, 2);
      if (log) st->body.push_back(logstmt());
      st->body.push_back(mks(s.chance(1, 2) ? S_BREAK : S_CONTINUE));
      st->braces = log || s.chance(1, 2);
      if (s.chance(1, 4)) {
        st->has_else = true;
        st->other = {logstmt()};
      }
      return st;
    }
    case 10: return fundecl();
    case 11: {
      SP st = mks(S_IF);
      st->e = bool_(cfg.depth);
      SP r = mks(S_RETURN);
      if (!s.chance(1, 8))
        r->e = s.chance(1, 2) ? enumber((double) s.below(100)) : enumber(7);
      else
        r->e = enumber(3);
      st->body = {r};
      // only in functions that return an int (others would mix types)
      st->braces = s.chance(1, 2);
      return st;
    }
    case 12: {
      if (!(v = pickvar(T_OBJ))) return let(T_OBJ);
      std::string n = v->name;
      EP t;
      EP e = mk(E_ASSIGN);
      e->s = "=";
      if (s.chance(1, 3)) {
        t = mk(E_INDEX);
        t->a = {evar(n), estr(s.chance(1, 2) ? "a" : "x1")};
      } else {
        t = mk(E_DOT);
        t->a = {evar(n)};
        static const std::vector<std::string> fs = {"a", "b", "x0", "x1", "x2", "x3", "long_property_name"};
        t->s = s.pick(fs);
      }
      if (t->k == E_DOT && (t->s == "a" || t->s == "b") && s.chance(1, 2)) {
        if (s.chance(1, 2)) {
          EP i = mk(E_INCDEC);
          i->s = s.chance(1, 2) ? "++" : "--";
          i->a = {t};
          return sexpr(i);
        }
        e->s = s.chance(1, 2) ? "+=" : "-=";
      }
      bool any = t->k == E_DOT && t->s != "a" && t->s != "b";
      e->a = {t, any ? any_(2) : bounded_int(cfg.depth)};
      return sexpr(e);
    }
    case 13: {
      if (!(v = pickvar(T_ARR))) return let(T_ARR);
      std::string n = v->name;
      int al = v->alen > 0 ? v->alen : 1;
      if (s.chance(1, 2)) {
        EP d = mk(E_DOT);
        d->a = {evar(n)};
        d->s = "push";
        return sexpr(ecall(d, {bounded_int(cfg.depth)}));
      }
      EP t = mk(E_INDEX);
      t->a = {evar(n), enumber((double) s.below(al))};
      EP e = mk(E_ASSIGN);
      e->s = "=";
      e->a = {t, bounded_int(cfg.depth)};
      return sexpr(e);
    }
    default: return mks(S_EMPTY);
  }
}

std::vector<SP> Gen::program() {
  std::vector<SP> v;
  int n = (int) s.range(1, cfg.stmts);
  // a few variables to start from
  if (cfg.stmts > 2) {
    v.push_back(let(T_INT));
    if (cfg.strs && s.chance(1, 2)) v.push_back(let(T_STR));
    if (cfg.objs && s.chance(1, 2)) v.push_back(let(T_OBJ));
    if (cfg.arrs && s.chance(1, 3)) v.push_back(let(T_ARR));
  }
  for (int i = 0; i < n; i++) v.push_back(stmt());
  // the value of the program
  EP last;
  switch (s.below(4)) {
    case 0: last = int_(cfg.depth); break;
    case 1: last = cfg.strs ? str_(cfg.depth) : num_(cfg.depth); break;
    case 2: last = bool_(cfg.depth); break;
    default: last = any_(2);
  }
  v.push_back(sexpr(last));
  return v;
}

}  // namespace lang
