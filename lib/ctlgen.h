// Control-flow heavy programs: nested loops, blocks and branches with break,
// continue and return at any depth, inside and outside of functions.
#pragma once
#include "lang.h"

namespace lang {
struct CtlGen {
  Src &s;
  int ids = 0, uniq = 0, logs = 0;
  int loopd = 0, fnd = 0, budget = 40;
  std::vector<std::string> vars;      // numeric variables in scope
  std::vector<std::pair<std::string, int>> fns;
  int pad_pct = 0;
  bool direct = false;
  explicit CtlGen(Src &q) : s(q) {}

  EP num() {
    if (!vars.empty() && s.chance(3, 4)) return evar(vars[vars.size() - 1 - s.below(vars.size())]);
    return enumber((double) s.below(5));
  }
  EP cond() {
    EP e;
    switch (s.below(9)) {
      case 0: e = ebin("<", num(), enumber((double) s.below(5))); break;
      case 1: e = ebin("===", ebin("%", num(), enumber((double) s.range(2, 3))), enumber((double) s.below(2))); break;
      case 2: e = ebin(">", num(), num()); break;
      case 3: {
        e = mk(E_BOOL);
        e->flag = s.chance(1, 2);
        break;
      }
      case 4: e = num(); break;
      case 5: {
        EP i = mk(E_INCDEC);
        i->s = s.chance(1, 2) ? "++" : "--";
        i->flag = s.chance(1, 2);
        i->a = {evar("c0")};
        i->parens = 1;
        e = ebin("<", i, enumber((double) s.range(0, 6)));
        break;
      }
      case 6: {
        e = mk(s.chance(1, 2) ? E_AND : E_OR);
        e->a = {cond(), cond()};
        e->parens = 1;
        break;
      }
      case 7: {
        if (fns.empty() || fnd > 0) return ecall(evar("log"), {ebin("<", num(), enumber(2))});
        e = call();
        break;
      }
      default: e = ecall(evar("log"), {ebin("<", num(), enumber(2)), enumber(++logs)}); break;
    }
    return e;
  }
  EP call() {
    auto &f = fns[s.below(fns.size())];
    std::vector<EP> a;
    for (int i = 0; i < f.second; i++) a.push_back(num());
    return ecall(evar(f.first), a);
  }
  SP logst() {
    std::vector<EP> a = {enumber(++logs)};
    int n = (int) s.below(3);
    for (int i = 0; i < n; i++) a.push_back(num());
    return sexpr(ecall(evar("log"), a));
  }
  SP let(const std::string &n, EP e) {
    SP st = mks(S_LET);
    st->lets.push_back({n, e});
    return st;
  }
  std::vector<SP> list(int d, int maxn) {
    std::vector<SP> v;
    size_t nv = vars.size();
    int n = (int) s.range(0, maxn);
    for (int i = 0; i < n; i++) v.push_back(stmt(d));
    vars.resize(nv);
    return v;
  }
  // a body and whether it needs braces
  std::vector<SP> body(int d, bool *braces, bool loop = false) {
    bool sd = direct;
    direct = loop;
    auto v = body_(d, braces);
    direct = sd;
    return v;
  }
  std::vector<SP> body_(int d, bool *braces) {
    if (s.chance(1, 3)) {
      SP st = stmt(d);
      bool simple = st->k == S_EXPR || st->k == S_BREAK || st->k == S_CONTINUE || st->k == S_RETURN || st->k == S_FOR || st->k == S_WHILE || st->k == S_EMPTY ||
                    (st->k == S_IF);
      *braces = !simple;
      return {st};
    }
    *braces = true;
    return list(d, 4);
  }
  int err_pct = 0;
  SP stmt(int d) {
    if (err_pct && s.chance(err_pct, 100)) {
      if (s.chance(1, 3)) return sexpr(ebin("+", num(), estr("text")));
      if (s.chance(1, 2)) return sexpr(evar(strf("undeclared%d", uniq++)));
      EP n = enumber(5);
      n->parens = 1;
      return sexpr(ecall(n, {num()}));
    }
    if (--budget <= 0) return logst();
    switch (s.weighted({5, 2, 6, d > 0 ? 4 : 0, d > 0 ? 5 : 0, d > 0 ? 3 : 0, d > 0 ? 2 : 0, loopd ? 4 : 0, loopd ? 4 : 0, fnd ? 3 : 0, 1, fns.empty() || fnd ? 0 : 3, 2, pad_pct})) {
      case 0: return logst();
      case 1: {
        // a loop has one scope for header and body, so only other blocks may shadow
        std::string n;
        if (!direct && s.chance(1, 4) && vars.size() > 2) n = vars[2 + s.below(vars.size() - 2)];
        if (n.empty() || n[0] != 'v') n = strf("v%d", uniq++);
        EP init = num();
        if (init->k == E_VAR && init->s == n) init = enumber((double) s.below(9));
        SP st = let(n, ebin("+", init, enumber((double) s.below(3))));
        vars.push_back(n);
        return st;
      }
      case 2: {
        SP st = mks(S_IF);
        st->e = cond();
        st->body = body(d - 1, &st->braces);
        if (s.chance(1, 2)) {
          st->has_else = true;
          st->other = body(d - 1, &st->obraces);
        }
        return st;
      }
      case 3: {
        // bounded while
        std::string n = strf("w%d", uniq++);
        SP b = mks(S_BLOCK);
        SP w = mks(S_WHILE);
        b->body.push_back(let(n, enumber((double) s.range(0, 4))));
        EP dec = mk(E_INCDEC);
        dec->s = "--";
        dec->flag = s.chance(1, 2);
        dec->a = {evar(n)};
        dec->parens = 1;
        w->e = ebin(">", dec, enumber(0));
        if (s.chance(1, 4)) {
          EP x = mk(E_AND);
          x->a = {w->e, cond()};
          w->e = x;
        }
        loopd++;
        vars.push_back(n);
        w->body = body(d - 1, &w->braces, true);
        vars.pop_back();
        loopd--;
        b->body.push_back(w);
        if (s.chance(1, 2)) b->body.push_back(logst());
        return b;
      }
      case 4: {
        std::string n = strf("i%d", uniq++);
        SP f = mks(S_FOR);
        f->init = let(n, enumber((double) s.below(2)));
        f->e = ebin(s.chance(1, 2) ? "<" : "<=", evar(n), enumber((double) s.range(0, 4)));
        if (s.chance(1, 5)) {
          EP x = mk(E_AND);
          x->a = {f->e, cond()};
          f->e = x;
        }
        EP inc;
        switch (s.below(3)) {
          case 0:
            inc = mk(E_INCDEC);
            inc->s = "++";
            inc->flag = s.chance(1, 2);
            inc->a = {evar(n)};
            break;
          case 1:
            inc = mk(E_ASSIGN);
            inc->s = "+=";
            inc->a = {evar(n), enumber((double) s.range(1, 3))};
            break;
          default:
            inc = mk(E_ASSIGN);
            inc->s = "=";
            inc->a = {evar(n), ebin("+", evar(n), enumber(1))};
        }
        f->e2 = inc;
        loopd++;
        vars.push_back(n);
        f->body = body(d - 1, &f->braces, true);
        vars.pop_back();
        loopd--;
        return f;
      }
      case 5: {
        // for..in over one key: the order does not matter, so the body is free
        SP f = mks(S_FORIN);
        f->name = strf("k%d", uniq++);
        f->decl = s.chance(3, 4);
        SP b = mks(S_BLOCK);
        if (!f->decl) b->body.push_back(let(f->name, enumber(0)));
        EP o = mk(E_OBJ);
        int nk = s.chance(2, 3) ? 1 : (int) s.below(4);
        static const std::vector<std::string> K = {"a", "bb", "a_long_key", "d1"};
        for (int i = 0; i < nk; i++) {
          o->keys.push_back(K[i]);
          o->quoted.push_back(s.chance(1, 3));
          o->a.push_back(num());
        }
        f->e = o;
        loopd++;
        if (nk <= 1) {
          f->body = body(d - 1, &f->braces, true);
          if (f->braces && s.chance(1, 2)) f->body.insert(f->body.begin(), sexpr(ecall(evar("log"), {enumber(++logs), evar(f->name)})));
        } else {
          // several keys: count them, leaving early by count only
          std::string cn = strf("n%d", uniq++);
          b->body.push_back(let(cn, enumber(0)));
          EP inc = mk(E_INCDEC);
          inc->s = "++";
          inc->a = {evar(cn)};
          f->body.push_back(sexpr(inc));
          SP iff = mks(S_IF);
          iff->e = ebin("===", evar(cn), enumber((double) s.range(1, nk)));
          iff->braces = s.chance(1, 2);
          iff->body = {mks(s.chance(1, 2) ? S_BREAK : S_CONTINUE)};
          f->body.push_back(iff);
          f->body.push_back(sexpr(ecall(evar("log"), {enumber(++logs), evar(cn)})));
          b->body.push_back(f);
          loopd--;
          b->body.push_back(sexpr(ecall(evar("log"), {enumber(++logs), evar(cn)})));
          return b;
        }
        loopd--;
        b->body.push_back(f);
        if (!f->decl && s.chance(2, 3)) b->body.push_back(sexpr(ecall(evar("log"), {enumber(++logs), evar(f->name)})));
        return b;
      }
      case 6: {
        SP b = mks(S_BLOCK);
        bool sd = direct;
        direct = false;
        b->body = list(d - 1, 4);
        direct = sd;
        return b;
      }
      case 7: return mks(S_BREAK);
      case 8: return mks(S_CONTINUE);
      case 9: {
        SP r = mks(S_RETURN);
        if (!s.chance(1, 5)) r->e = num();
        return r;
      }
      case 10: return mks(S_EMPTY);
      case 11: return sexpr(ecall(evar("log"), {enumber(++logs), call()}));
      case 13: {
        std::string t;
        int n = (int) s.pick(std::vector<int>{40, 100, 127, 128, 130, 260, 5000, 16390});
        for (int i = 0; i < n; i++) t += (char) ('a' + i % 26);
        EP l = mk(E_DOT);
        l->a = {estr(t)};
        l->s = "length";
        return sexpr(ecall(evar("log"), {l}));
      }
      default: {
        EP e = mk(E_ASSIGN);
        e->s = s.chance(1, 2) ? "=" : "+=";
        e->a = {evar("c1"), ebin("%", num(), enumber(7))};
        return sexpr(e);
      }
    }
  }
  SP fundecl() {
    SP f = mks(S_FUNDECL);
    f->fn = std::make_shared<Fun>();
    f->fn->name = strf("f%d", (int) fns.size());
    int np = (int) s.below(3);
    std::vector<std::string> saved = vars;
    vars = {"c0", "c1"};
    for (int i = 0; i < np; i++) {
      std::string p = strf("p%d", uniq++);
      f->fn->params.push_back(p);
      vars.push_back(p);
    }
    int sl = loopd;
    loopd = 0;
    fnd++;
    budget = 25;
    f->fn->body = list(3, 6);
    if (s.chance(1, 2)) {
      SP r = mks(S_RETURN);
      r->e = num();
      f->fn->body.push_back(r);
    }
    fnd--;
    loopd = sl;
    vars = saved;
    fns.push_back({f->fn->name, np});
    return f;
  }
  std::vector<SP> program() {
    std::vector<SP> v;
    v.push_back(let("c0", enumber(0)));
    v.push_back(let("c1", enumber((double) s.below(4))));
    vars = {"c0", "c1"};
    int nf = (int) s.below(3);
    for (int i = 0; i < nf; i++) v.push_back(fundecl());
    int n = (int) s.range(1, 6);
    for (int i = 0; i < n; i++) {
      budget = 30;
      v.push_back(stmt((int) s.range(1, 5)));
    }
    v.push_back(logst());
    v.push_back(sexpr(num()));
    return v;
  }
};
}  // namespace lang
