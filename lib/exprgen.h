// Untyped random expressions over variables of every kind.
#pragma once
#include "lang.h"

namespace lang {
struct ExprGen {
  Src &s;
  int logc = 0;
  explicit ExprGen(Src &q) : s(q) {}
  enum Kind { NUM, STR, BOOL, ANY };

  EP num_leaf() {
    switch (s.below(6)) {
      case 0: return evar(s.chance(1, 2) ? "n0" : "n1");
      case 1: {
        static const std::vector<double> v = {0, 1, 2, 3, 0.5, 1.5, 7, 8, 31, 127, 128, 255, 256, 1000, 32767, 65535, 65536, 1e6, 2147483647, 0.1, 0.25, 100.75, 1e-5, 12345.678, 2147483648.0, 4294967295.0, 4294967301.0, 1099511627783.0, 9007199254740991.0, 6442450941.0, 3.75, 6.999};
        return enumber(v[s.below(v.size())]);
      }
      case 2: {
        EP e = mk(E_DOT);
        e->a = {evar("o0")};
        e->s = s.chance(1, 2) ? "a" : "b";
        return e;
      }
      case 3: {
        EP e = mk(E_INDEX);
        e->a = {evar("a0"), enumber((double) s.below(3))};
        return e;
      }
      default: return enumber((double) s.below(20));
    }
  }
  EP str_leaf() {
    static const std::vector<std::string> v = {"", "a", "ab", "abc", "abcd", "abcde", "abcdef", "abcdefg", "b", "0", "z z", "the quick brown fox"};
    if (s.chance(1, 3)) return evar(s.chance(1, 2) ? "s0" : "s1");
    return estr(s.pick(v));
  }
  EP leaf(Kind k) {
    if (k == ANY) {
      switch (s.below(9)) {
        case 0: return mk(E_NULL);
        case 1: return mk(E_UNDEF);
        case 2: return evar("o0");
        case 3: return evar("a0");
        case 4: return evar("u0");
        case 5: return evar("NaN");
        case 6: {
          EP e = mk(E_DOT);
          e->a = {evar("o0")};
          e->s = s.pick(std::vector<std::string>{"a", "b", "s", "t", "missing"});
          return e;
        }
        default: k = (Kind) s.below(3);
      }
    }
    if (k == NUM) return num_leaf();
    if (k == STR) return str_leaf();
    if (s.chance(1, 3)) return evar("b0");
    EP e = mk(E_BOOL);
    e->flag = s.chance(1, 2);
    return e;
  }
  EP target(Kind k, bool prefix) {
    if (prefix || s.chance(1, 2)) return evar(k == NUM ? (s.chance(1, 2) ? "n0" : "n1") : k == STR ? (s.chance(1, 2) ? "s0" : "s1") : "u0");
    EP e = mk(s.chance(1, 2) ? E_DOT : E_INDEX);
    std::string f = k == NUM ? (s.chance(1, 2) ? "a" : "b") : k == STR ? "s" : "t";
    e->a = {evar("o0")};
    if (e->k == E_DOT)
      e->s = f;
    else
      e->a.push_back(estr(f));
    return e;
  }
  EP gen(Kind k, int d) {
    if (d <= 0 || s.below(7) == 0) return leaf(k);
    if (s.chance(1, 25)) k = (Kind) s.below(4);  // a type the context does not expect
    EP e;
    switch (s.weighted({3, 3, 2, 2, 3, 2, 14, 1})) {
      case 0: {
        e = mk(E_COND);
        e->a = {gen((Kind) s.below(4), d - 1), gen(k, d - 1), gen(k, d - 1)};
        break;
      }
      case 1: {
        e = mk(s.chance(1, 2) ? E_AND : E_OR);
        e->a = {gen(s.chance(1, 3) ? ANY : k, d - 1), gen(k, d - 1)};
        break;
      }
      case 2: {
        e = mk(E_ASSIGN);
        if (k == BOOL) k = ANY;
        e->a = {target(k, false), gen(k, d - 1)};
        e->s = "=";
        if (k == NUM && s.chance(2, 3)) {
          static const std::vector<std::string> ops = {"+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", ">>>="};
          e->s = s.pick(ops);
          if (e->s == "<<=" || e->s == ">>=" || e->s == ">>>=") e->a[1] = enumber((double) s.below(9));
        } else if (k == STR && s.chance(1, 2))
          e->s = "+=";
        e->parens = 1;
        break;
      }
      case 3: {
        if (k != NUM) return leaf(k);
        e = mk(E_INCDEC);
        e->s = s.chance(1, 2) ? "++" : "--";
        e->flag = s.chance(1, 2);
        e->a = {target(NUM, e->flag)};
        e->parens = 1;
        break;
      }
      case 4: {
        e = mk(E_UN);
        if (k == NUM) {
          e->s = s.pick(std::vector<std::string>{"-", "+", "~"});
          e->a = {gen(NUM, d - 1)};
        } else if (k == STR) {
          e->s = "typeof";
          e->a = {gen(ANY, d - 1)};
        } else {
          e->s = "!";
          e->a = {gen((Kind) s.below(4), d - 1)};
        }
        break;
      }
      case 5: {
        e = ecall(evar(k == NUM ? "f0" : "log"), {gen(k, d - 1)});
        if (k == NUM) e->a.push_back(gen(NUM, d - 1));
        break;
      }
      case 6: {
        if (k == ANY) k = (Kind) s.below(3);
        if (k == NUM) {
          static const std::vector<std::string> ops = {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", ">>>"};
          std::string op = s.pick(ops);
          e = ebin(op, gen(NUM, d - 1), gen(NUM, d - 1));
          if (op == "<<" || op == ">>" || op == ">>>") e->a[1] = enumber((double) s.below(16));
        } else if (k == STR) {
          e = ebin("+", gen(STR, d - 1), gen(STR, d - 1));
        } else {
          switch (s.below(3)) {
            case 0: e = ebin(s.pick(std::vector<std::string>{"<", ">", "<=", ">="}), gen(NUM, d - 1), gen(NUM, d - 1)); break;
            case 1: {
              Kind q = (Kind) s.below(4);
              e = ebin(s.chance(1, 2) ? "===" : "!==", gen(q, d - 1), gen(q, d - 1));
              break;
            }
            default: e = ebin(s.chance(1, 2) ? "===" : "!==", gen(ANY, d - 1), gen(ANY, d - 1));
          }
        }
        break;
      }
      default: {
        e = mk(E_DOT);
        e->a = {gen(STR, d - 1)};
        if (e->a[0]->k != E_VAR) e->a[0]->parens = 1;
        e->s = "length";
        break;
      }
    }
    if (!e->parens && s.chance(1, 8)) e->parens = 1;
    return e;
  }
  std::vector<SP> program(int maxn, int depth) {
    std::vector<SP> v;
    auto let = [&](const char *n, EP e) {
      SP st = mks(S_LET);
      st->lets.push_back({n, e});
      v.push_back(st);
    };
    let("n0", enumber((double) s.range(0, 40)));
    let("n1", enumber((double) s.range(-20, 20) / (s.chance(1, 3) ? 4 : 1)));
    let("s0", estr(s.pick(std::vector<std::string>{"", "q", "hello", "hello!", "a string"})));
    let("s1", estr("abc"));
    EP b = mk(E_BOOL);
    b->flag = s.chance(1, 2);
    let("b0", b);
    let("u0", leaf(ANY)->k == E_NULL ? mk(E_NULL) : mk(E_UNDEF));
    EP o = mk(E_OBJ);
    o->keys = {"a", "b", "s", "t"};
    o->quoted = {false, true, false, false};
    o->a = {enumber((double) s.below(10)), enumber((double) s.below(300)), estr("propstr"), mk(E_BOOL)};
    let("o0", o);
    EP a = mk(E_ARR);
    a->a = {enumber(3), enumber((double) s.below(100)), enumber(7)};
    let("a0", a);
    SP f = mks(S_FUNDECL);
    f->fn = std::make_shared<Fun>();
    f->fn->name = "f0";
    f->fn->params = {"p", "q"};
    SP r = mks(S_RETURN);
    r->e = s.chance(1, 2) ? ebin("-", evar("p"), evar("q")) : evar("p");
    f->fn->body = {r};
    v.push_back(f);
    int n = (int) s.range(1, maxn);
    for (int i = 0; i < n; i++) {
      EP e = gen((Kind) s.below(4), (int) s.range(2, depth));
      v.push_back(sexpr(ecall(evar("log"), {enumber(i + 1), e})));
    }
    v.push_back(sexpr(gen((Kind) s.below(3), depth)));
    return v;
  }
};
}  // namespace lang
