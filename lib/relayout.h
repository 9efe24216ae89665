// Changes to a program that do not change its meaning.
#pragma once
#include <map>
#include "lang.h"

namespace lang {
// A file in the scratch directory of this run.
inline std::string scratch_path(const std::string &name) {
  const char *d = getenv("VERIF_SCRATCH");
  return strf("%s/%d_%s", d ? d : "/tmp", (int) getpid(), name.c_str());
}

inline bool wordch(char c) { return isalnum((unsigned char) c) || c == '_' || c == '$'; }

// Splits source text into chunks between which white space and comments may go.
// Chunks are whole tokens or runs of tokens.
inline std::vector<std::string> chunks(const std::string &t) {
  std::vector<std::string> v;
  size_t i = 0, n = t.size();
  while (i < n) {
    size_t b = i;
    char c = t[i];
    if (isspace((unsigned char) c)) {
      i++;
      continue;
    }
    if (c == '\'' || c == '"') {
      i++;
      while (i < n && t[i] != c) i += t[i] == '\\' && i + 1 < n ? 2 : 1;
      if (i < n) i++;
    } else if (isdigit((unsigned char) c)) {
      while (i < n && (wordch(t[i]) || t[i] == '.' || ((t[i] == '+' || t[i] == '-') && (t[i - 1] == 'e' || t[i - 1] == 'E') && t[b + 1] != 'x'))) i++;
    } else if (wordch(c)) {
      while (i < n && wordch(t[i])) i++;
    } else if (strchr("(){}[];,:?.", c)) {
      i++;
    } else {
      while (i < n && strchr("+-*/%&|^!~<>=", t[i]) && t[i]) i++;
      if (i == b) i++;
    }
    v.push_back(t.substr(b, i - b));
  }
  return v;
}

inline std::string gap(Src &s, bool need) {
  static const std::vector<std::string> g = {" ", "\n", "\t", "\r\n", "  ", "/**/", "/* x */", "// c\n", "/* 'a */", "/* \" */", "//\n", "/***/", "/* // */", "// /*\n", "/* * / */", "\n\n\n", "\r", "/*\n\n*/", "// '\n", "// \f let a = (\n", "/* \f\v\r */", "// \v\t\r x \x80\xff\n"};
  std::string o;
  if (!need && s.chance(1, 2)) return o;
  int k = (int) s.range(need ? 1 : 0, 3);
  for (int i = 0; i < k; i++) o += s.pick(g);
  if (s.chance(1, 400)) o += "/*" + std::string(s.range(100, 20000), 'x') + "*/";
  return o;
}

inline std::string relayout(Src &s, const std::string &src) {
  auto v = chunks(src);
  std::string o = gap(s, false);
  int dense = s.weighted({2, 2, 1});
  auto op = [](char c) { return strchr("+-*/%&|^!~<>=", c) != nullptr; };
  for (size_t i = 0; i < v.size(); i++) {
    o += v[i];
    bool need = false;
    if (i + 1 < v.size()) {
      char a = v[i].back(), b = v[i + 1][0];
      need = (wordch(a) && wordch(b)) || (op(a) && op(b)) || (isdigit((unsigned char) v[i][0]) && b == '.');
    }
    if (v[i].back() == '/') o += ' ';  // not the start of a comment
    if (dense == 0)
      o += gap(s, need);
    else if (dense == 1)
      o += need ? " " : "";
    else
      o += s.chance(1, 8) ? gap(s, need) : need ? " " : "";
  }
  return o;
}

// Inserts statements without effect.
struct Padder {
  Src &s;
  int left;
  size_t done = 0;
  Padder(Src &s, int n) : s(s), left(n) {}
  SP filler() {
    size_t len = (size_t) s.pick(std::vector<int>{0, 1, 60, 110, 120, 125, 127, 128, 200, 1000, 16300, 16383, 16390, 20000});
    done += len;
    switch (s.below(5)) {
      case 0: return sexpr(eraw("'" + std::string(len, 'p') + "'"));
      case 1: return sexpr(eraw("0 && '" + std::string(len, 'p') + "'"));
      case 2: {
        SP st = mks(S_IF);
        st->e = eraw("false");
        st->body.push_back(sexpr(eraw("log('" + std::string(len, 'p') + "')")));
        st->braces = true;
        return st;
      }
      case 3: return sexpr(eraw("(function() { return '" + std::string(len, 'p') + "'; })"));
      default: {
        SP st = mks(S_WHILE);
        st->e = eraw("false");
        st->body.push_back(sexpr(eraw("'" + std::string(len, 'p') + "'")));
        st->body.push_back(mks(S_BREAK));
        st->braces = true;
        return st;
      }
    }
  }
  EP expr(const EP &e) {
    if (!e) return e;
    EP c = std::make_shared<Expr>(*e);
    for (auto &x : c->a) x = expr(x);
    if (c->fn) {
      FP f = std::make_shared<Fun>(*c->fn);
      f->body = list(f->body, true);
      c->fn = f;
    }
    return c;
  }
  SP stmt(const SP &st) {
    SP c = std::make_shared<Stmt>(*st);
    for (auto &l : c->lets) l.second = expr(l.second);
    c->e = expr(c->e);
    c->e2 = expr(c->e2);
    c->e3 = expr(c->e3);
    if (c->init) c->init = stmt(c->init);
    c->body = list(c->body, c->braces);
    c->other = list(c->other, c->obraces);
    if (c->fn) {
      FP f = std::make_shared<Fun>(*c->fn);
      f->body = list(f->body, true);
      c->fn = f;
    }
    return c;
  }
  // fillers go in front of statements, never last (the value of a program is that of its last expression)
  std::vector<SP> list(const std::vector<SP> &v, bool may) {
    std::vector<SP> o;
    for (auto &x : v) {
      while (may && left > 0 && s.chance(1, 6)) {
        left--;
        o.push_back(filler());
      }
      o.push_back(stmt(x));
    }
    return o;
  }
};
// Gives the variables of a program other names, the same in all its parts.
struct Renamer {
  std::map<std::string, std::string> to;  // old name -> new name
  static bool word(const std::string &t) { return wordch(t[0]) && !isdigit((unsigned char) t[0]); }
  static std::string fresh(Src &s, const std::string &n, size_t i) {
    std::string id = strf("%dz", (int) i);
    switch (s.below(8)) {
      case 0: return "$" + id + n;
      case 1: return n + "$" + id;
      case 2: return "_" + id + "$_" + n;
      case 3: return n + "_" + id + "$";
      case 4: {  // words of the language are prefixes of it
        static const std::vector<std::string> w = {"let", "in", "if", "for", "do", "true", "false", "null", "this", "new", "var", "return", "undefined", "function", "typeof", "NaN", "log"};
        return s.pick(w) + (s.chance(1, 2) ? "$" : "_") + id;
      }
      case 5: return n + id + std::string((size_t) s.pick(std::vector<int>{1, 3, 30, 120, 121, 122, 123, 124, 125, 126, 127, 128, 250, 300}), 'q');
      case 6: return "X" + id + "Y";
      default: return n + n + id;
    }
  }
  template <class Keep>
  void collect(Src &s, const std::vector<std::string> &parts, Keep keep) {
    each(parts, [&](const std::string &t) {
      if (!keep(t) && !to.count(t)) {
        std::string f = fresh(s, t, to.size());
        to[t] = f;
      }
      return t;
    });
  }
  std::vector<std::string> apply(const std::vector<std::string> &parts) {
    return each(parts, [&](const std::string &t) {
      auto i = to.find(t);
      return i == to.end() ? t : i->second;
    });
  }
  template <class F>
  static std::vector<std::string> each(const std::vector<std::string> &parts, F f) {
    std::vector<std::string> r;
    for (auto &p : parts) {
      auto v = chunks(p);
      std::string o;
      size_t at = 0;
      for (size_t i = 0; i < v.size(); i++) {
        size_t b = p.find(v[i], at);  // only white space lies between
        o += p.substr(at, b - at);
        at = b + v[i].size();
        bool key = (i > 0 && v[i - 1] == ".") || (i > 0 && i + 1 < v.size() && v[i + 1] == ":" && (v[i - 1] == "{" || v[i - 1] == ","));
        o += word(v[i]) && !key ? f(v[i]) : v[i];
      }
      r.push_back(o + p.substr(at));
    }
    return r;
  }
};
}  // namespace lang
