// Function-heavy programs: function values, methods, this, apply, missing and
// surplus arguments, recursion, calls nested in arguments.
#pragma once
#include "lang.h"

namespace lang {
struct FunGen {
  Src &s;
  int logs = 0, uniq = 0;
  struct F {
    EP ref;       // how to reach it
    int np;
    int level;    // may be called by code of a higher level only
    bool ret_fn = false;
    bool wants_this = false;
  };
  std::vector<F> fs;
  std::vector<std::string> params;  // of the function being generated
  int level = 1000;
  bool in_method = false;
  explicit FunGen(Src &q) : s(q) {}

  EP dot(EP o, const std::string &k) {
    EP e;
    if (s.chance(1, 4)) {
      e = mk(E_INDEX);
      e->a = {o, estr(k)};
    } else {
      e = mk(E_DOT);
      e->a = {o};
      e->s = k;
    }
    return e;
  }
  int err_pct = 0;
  EP bad(int d) {
    EP e;
    switch (s.below(9)) {
      case 0: return ebin("+", estr("text"), enumber(1));
      case 1: return ebin("-", val(d), estr("abcdefg"));
      case 2: return evar(strf("undeclared%d", uniq++));
      case 3: {
        e = mk(E_DOT);
        EP u = mk(s.chance(1, 2) ? E_UNDEF : E_NULL);
        u->parens = 1;
        e->a = {u};
        e->s = "foo";
        return e;
      }
      case 4: {
        EP n = enumber(5);
        n->parens = 1;
        return ecall(n, {val(d)});
      }
      case 5: {
        e = ebin("==", val(d), val(d));
        e->parens = 1;
        return e;
      }
      case 6: {
        e = mk(E_ASSIGN);
        e->s = "=";
        e->a = {evar(strf("undeclared%d", uniq++)), val(d)};
        e->parens = 1;
        return e;
      }
      case 7: {
        EP b = mk(E_BOOL);
        e = ebin("*", b, val(d));
        return e;
      }
      default: {
        e = mk(E_DOT);
        EP o = mk(E_OBJ);
        o->parens = 1;
        e->a = {o};
        e->s = "nosuchmethod";
        return ecall(e, {val(d)});
      }
    }
  }
  EP val(int d) {
    if (err_pct && d > 0 && s.chance(err_pct, 100)) return bad(d - 1);
    switch (s.below(d > 0 ? 14 : 9)) {
      case 0: return enumber((double) s.below(100));
      case 1: return estr(s.pick(std::vector<std::string>{"", "ab", "hello", "longer string", "a considerably longer string value"}));
      case 2:
      case 3:
      case 4:
        if (!params.empty()) return evar(s.pick(params));
        return evar("g0");
      case 5: return evar(s.pick(std::vector<std::string>{"g0", "g1"}));
      case 6: {
        EP e = mk(E_BOOL);
        e->flag = s.chance(1, 2);
        return e;
      }
      case 7: return mk(s.chance(1, 2) ? E_NULL : E_UNDEF);
      case 8: return mk(E_THIS);
      case 9: {
        EP e = mk(E_ARR);
        int n = (int) s.below(4);
        for (int i = 0; i < n; i++) e->a.push_back(val(d - 1));
        return e;
      }
      case 10: {
        EP e = mk(E_OBJ);
        e->keys = {"q", "longkey"};
        if (s.chance(1, 3)) e->keys = {"another_long_key", "k2"};
        e->quoted = {false, true};
        e->a = {val(d - 1), val(d - 1)};
        return e;
      }
      default: return call(d - 1);
    }
  }
  EP call(int d) {
    std::vector<const F *> c;
    for (auto &f : fs)
      if (f.level < level) c.push_back(&f);
    if (c.empty() || s.chance(1, 10)) return ecall(evar("log"), {enumber(++logs), val(d)});
    const F *f = c[c.size() - 1 - s.below(c.size())];
    std::vector<EP> args;
    int n = (int) s.range(0, f->np + 2);
    for (int i = 0; i < n; i++) args.push_back(val(i < 7 ? d : 0));
    EP r;
    if (s.chance(1, 5)) {
      EP a = mk(E_ARR);
      a->a = args;
      EP ap = mk(E_DOT);
      ap->a = {f->ref};
      ap->s = "apply";
      std::vector<EP> aa = {val(0)};
      if (!s.chance(1, 8)) aa.push_back(a);
      r = ecall(ap, aa);
    } else {
      r = ecall(f->ref, args);
      if (s.chance(1, 12)) f->ref->parens = f->ref->parens;
    }
    if (f->ret_fn) {
      std::vector<EP> a2;
      int m = (int) s.below(3);
      for (int i = 0; i < m; i++) a2.push_back(val(d));
      if (!s.chance(1, 4)) r = ecall(r, a2);
    }
    return r;
  }
  SP logst(int d) {
    std::vector<EP> a = {enumber(++logs)};
    int n = (int) s.range(1, 3);
    for (int i = 0; i < n; i++) a.push_back(val(d));
    return sexpr(ecall(evar("log"), a));
  }
  SP let(const std::string &n, EP e) {
    SP st = mks(S_LET);
    st->lets.push_back({n, e});
    return st;
  }
  FP fn(int lv, int np, bool ret_fn) {
    FP f = std::make_shared<Fun>();
    auto sp = params;
    int sl = level;
    params.clear();
    level = lv;
    bool leaf = s.chance(1, 4);
    if (leaf) level = -1000;  // calls nothing: may shadow globals
    for (int i = 0; i < np; i++) {
      std::string p = leaf && i == 0 && s.chance(1, 2) ? "g0" : strf("p%d", uniq++);
      f->params.push_back(p);
      params.push_back(p);
    }
    if (s.chance(2, 3)) {
      std::vector<EP> a = {enumber(++logs), mk(E_THIS)};
      for (auto &p : params) a.push_back(evar(p));
      f->body.push_back(sexpr(ecall(evar("log"), a)));
    }
    int n = (int) s.below(4);
    for (int i = 0; i < n; i++) {
      switch (s.below(7)) {
        case 0: {
          std::string l = strf("l%d", uniq++);
          f->body.push_back(let(l, val(2)));
          params.push_back(l);
          break;
        }
        case 1: {
          if (params.empty()) break;
          EP e = mk(E_ASSIGN);
          e->s = "=";
          e->a = {evar(s.pick(params)), val(2)};
          f->body.push_back(sexpr(e));
          break;
        }
        case 2: {
          EP e = mk(E_ASSIGN);
          e->s = "=";
          e->a = {evar("g1"), val(1)};
          if (!leaf) f->body.push_back(sexpr(e));
          break;
        }
        case 3: {
          SP iff = mks(S_IF);
          iff->e = val(1);
          SP r = mks(S_RETURN);
          if (!s.chance(1, 4) || ret_fn) r->e = ret_fn ? fnexpr(lv) : val(2);
          if (ret_fn && !r->e) break;
          iff->body = {r};
          f->body.push_back(iff);
          break;
        }
        case 4: {
          // an inner function, called right here
          if (level < 0) break;
          FP g = fn(lv, (int) s.below(3), false);
          g->name = strf("in%d", uniq++);
          SP fd = mks(S_FUNDECL);
          fd->fn = g;
          f->body.push_back(fd);
          std::vector<EP> a;
          int na = (int) s.below(4);
          for (int j = 0; j < na; j++) a.push_back(val(1));
          f->body.push_back(sexpr(ecall(evar("log"), {enumber(++logs), ecall(evar(g->name), a)})));
          break;
        }
        case 5: f->body.push_back(sexpr(call(2))); break;
        default: f->body.push_back(logst(2));
      }
    }
    if (ret_fn || !s.chance(1, 5)) {
      SP r = mks(S_RETURN);
      r->e = ret_fn ? fnexpr(lv) : val(2);
      f->body.push_back(r);
      if (s.chance(1, 10)) f->body.push_back(logst(0));  // dead code
    }
    params = sp;
    level = sl;
    return f;
  }
  // a function expression without free local variables (there are no closures)
  EP fnexpr(int lv) {
    EP e = mk(E_FUN);
    e->fn = fn(lv, (int) s.below(3), false);
    return e;
  }
  SP recursive(int lv) {
    // function r(n, x, acc) { ...; if (n > 0) return r(n - 1, ...); return ...; }
    SP fd = mks(S_FUNDECL);
    FP f = std::make_shared<Fun>();
    f->name = strf("r%d", uniq++);
    std::string n = strf("n%d", uniq++), x = strf("x%d", uniq++);
    f->params = {n, x};
    auto sp = params;
    params = {n, x};
    int sl = level;
    level = lv;
    if (s.chance(1, 2)) f->body.push_back(logst(1));
    std::string loc = strf("l%d", uniq++);
    f->body.push_back(let(loc, evar(s.pick(params))));
    params.push_back(loc);
    SP iff = mks(S_IF);
    iff->e = ebin(">", evar(n), enumber(0));
    EP rec = ecall(evar(f->name), {ebin("-", evar(n), enumber(1)), val(1)});
    SP r = mks(S_RETURN);
    if (s.chance(1, 2))
      r->e = rec;
    else {
      EP a = mk(E_ARR);
      a->a = {evar(n), rec, evar(loc)};
      r->e = a;
    }
    iff->body = {r};
    iff->braces = s.chance(1, 2);
    f->body.push_back(iff);
    SP r2 = mks(S_RETURN);
    r2->e = val(1);
    f->body.push_back(r2);
    params = sp;
    level = sl;
    fd->fn = f;
    return fd;
  }
  std::vector<SP> program() {
    std::vector<SP> v;
    v.push_back(let("g0", enumber((double) s.below(50))));
    v.push_back(let("g1", estr("global one")));
    int nf = (int) s.range(1, 5);
    for (int i = 0; i < nf; i++) {
      int np = (int) s.below(s.chance(1, 6) ? 7 : 4);
      if (s.chance(1, 25)) np = (int) (s.chance(1, 4) ? s.range(120, 140) : s.range(7, 20));
      bool rf = s.chance(1, 6);
      switch (s.below(6)) {
        case 0:
        case 1: {
          SP fd = mks(S_FUNDECL);
          fd->fn = fn(i, np, rf);
          fd->fn->name = strf("f%d", i);
          v.push_back(fd);
          fs.push_back({evar(fd->fn->name), np, i, rf});
          break;
        }
        case 2: {
          EP e = mk(E_FUN);
          e->fn = fn(i, np, rf);
          std::string n = strf("f%d", i);
          v.push_back(let(n, e));
          fs.push_back({evar(n), np, i, rf});
          break;
        }
        case 3: {
          EP o = mk(E_OBJ);
          std::string on = strf("o%d", i);
          EP e = mk(E_FUN);
          e->fn = fn(i, np, rf);
          o->keys = {"id", "m"};
          o->quoted = {false, s.chance(1, 2)};
          o->a = {enumber(i), e};
          if (s.chance(1, 2)) {
            EP sub = mk(E_OBJ), e2 = mk(E_FUN);
            int np2 = (int) s.below(3);
            e2->fn = fn(i, np2, false);
            sub->keys = {"sid", "longmethod"};
            sub->quoted = {false, false};
            sub->a = {enumber(i * 10), e2};
            o->keys.push_back("sub");
            o->quoted.push_back(false);
            o->a.push_back(sub);
            fs.push_back({dot(dot(evar(on), "sub"), "longmethod"), np2, i, false});
          }
          v.push_back(let(on, o));
          fs.push_back({dot(evar(on), "m"), np, i, rf});
          break;
        }
        case 4: {
          EP a = mk(E_ARR);
          std::string an = strf("a%d", i);
          EP e = mk(E_FUN);
          e->fn = fn(i, np, rf);
          a->a = {enumber(1), e};
          v.push_back(let(an, a));
          EP ix = mk(E_INDEX);
          ix->a = {evar(an), enumber(1)};
          fs.push_back({ix, np, i, rf});
          break;
        }
        default: {
          SP fd = recursive(i);
          v.push_back(fd);
          std::string rn = fd->fn->name;
          // reachable with a bounded first argument only
          v.push_back(sexpr(ecall(evar("log"), {enumber(++logs), ecall(evar(rn), {enumber((double) s.below(s.chance(1, 6) ? 40 : 6)), val(1)})})));
        }
      }
      if (s.chance(1, 3)) v.push_back(sexpr(call(2)));
    }
    int n = (int) s.range(1, 5);
    for (int i = 0; i < n; i++) {
      if (s.chance(1, 4)) {
        // an immediately invoked function expression
        EP e = mk(E_FUN);
        int np = (int) s.below(3);
        e->fn = fn(100, np, false);
        std::vector<EP> a;
        int na = (int) s.below(4);
        for (int j = 0; j < na; j++) a.push_back(val(1));
        v.push_back(sexpr(ecall(evar("log"), {enumber(++logs), ecall(e, a)})));
      } else
        v.push_back(s.chance(1, 3) ? sexpr(call(3)) : logst(3));
    }
    v.push_back(sexpr(ecall(evar("log"), {mk(E_THIS), evar("g0"), evar("g1")})));
    v.push_back(sexpr(call(2)));
    return v;
  }
};
}  // namespace lang
