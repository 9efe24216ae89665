#pragma once
#include <set>
#include "engine.h"

// splits text into tokens well enough for mutation
static std::vector<std::string> lex(const std::string &s) {
  std::vector<std::string> v;
  size_t i = 0;
  while (i < s.size()) {
    unsigned char c = s[i];
    size_t j = i + 1;
    if (isalnum(c) || c == '_' || c == '$') {
      while (j < s.size() && (isalnum((unsigned char) s[j]) || s[j] == '_' || s[j] == '$' || (s[j] == '.' && isdigit(c)))) j++;
    } else if (c == '\'' || c == '"') {
      while (j < s.size() && s[j] != (char) c) j += s[j] == '\\' ? 2 : 1;
      j = std::min(j + 1, s.size());
    } else if (c == '/' && j < s.size() && s[j] == '/') {
      while (j < s.size() && s[j] != '\n') j++;
    } else if (c == '/' && j < s.size() && s[j] == '*') {
      size_t e = s.find("*/", j + 1);
      j = e == std::string::npos ? s.size() : e + 2;
    } else if (isspace(c)) {
      while (j < s.size() && isspace((unsigned char) s[j])) j++;
    } else if (strchr("+-*/%=!<>&|^", c)) {
      while (j < s.size() && j - i < 3 && strchr("+-=<>&|", s[j])) j++;
    }
    v.push_back(s.substr(i, j - i));
    i = j;
  }
  return v;
}

// Native functions are raw pointers: arithmetic on one and calling the result,
// or indexing one, is access to raw memory, which mJS does not police.  Keep
// native functions in call position only, so that no text can do that.
static inline std::string tame(const std::string &src) {
  static const std::set<std::string> fn = {"log", "gc", "chr", "isNaN", "stringify", "parse", "create", "push", "splice", "slice", "at",
                                           "indexOf", "apply", "charCodeAt", "print", "die", "load", "ffi", "ffi_cb_free", "mkstr", "getMJS", "s2o"};
  static const std::set<std::string> ns = {"global", "JSON", "Object"};
  auto v = lex(src);
  std::string o;
  for (size_t i = 0; i < v.size(); i++) {
    bool f = fn.count(v[i]), n = ns.count(v[i]);
    if (f || n) {
      size_t j = i + 1;
      while (j < v.size() && isspace((unsigned char) v[j][0])) j++;
      bool ok = j < v.size() && (f ? v[j] == "(" : v[j] == ".");
      if (!ok) {
        o += n ? "o" : "f";
        continue;
      }
    }
    o += v[i];
  }
  return o;
}

// loosely grammatical text: well-formed most of the time, ill-typed all the time
struct Wild {
  Src &s;
  int budget = 60;
  explicit Wild(Src &q) : s(q) {}
  std::string id() { return s.pick(std::vector<std::string>{"a", "b", "f", "g", "o", "x", "y"}); }
  std::string lit() {
    switch (s.below(12)) {
      case 0: return "1";
      case 1: return "0";
      case 2: return strf("%d", (int) s.below(300));
      case 3: return "'abc'";
      case 4: return "''";
      case 5: return "'a longer literal'";
      case 6: return "null";
      case 7: return "undefined";
      case 8: return "true";
      case 9: return "1.5";
      case 10: return "-1";
      default: return "NaN";
    }
  }
  std::string e(int d) {
    if (d <= 0 || --budget <= 0) return s.chance(1, 2) ? id() : lit();
    switch (s.below(24)) {
      case 0: return lit();
      case 1:
      case 2: return id();
      case 3: return e(d - 1) + s.pick(std::vector<std::string>{" + ", " - ", " * ", " / ", " % ", " & ", " | ", " ^ ", " << ", " >> ", " >>> ", " < ", " > ", " <= ", " >= ", " === ", " !== ", " && ", " || "}) + e(d - 1);
      case 4: return "(" + e(d - 1) + ")";
      case 5: return s.pick(std::vector<std::string>{"!", "-", "+", "~", "typeof ", "++", "--"}) + e(d - 1);
      case 6: return e(d - 1) + s.pick(std::vector<std::string>{"++", "--"});
      case 7: return lv(d) + s.pick(std::vector<std::string>{" = ", " += ", " -= ", " *= ", " /= ", " %= ", " &= ", " |= ", " ^= ", " <<= ", " >>= ", " >>>= "}) + e(d - 1);
      case 8: return e(d - 1) + " ? " + e(d - 1) + " : " + e(d - 1);
      case 9: {
        std::string o = "[";
        int n = (int) s.below(5);
        for (int i = 0; i < n; i++) o += (i ? ", " : "") + e(d - 1);
        return o + "]";
      }
      case 10: {
        std::string o = "{";
        int n = (int) s.below(4);
        for (int i = 0; i < n; i++) o += (i ? ", " : "") + (s.chance(1, 3) ? s.pick(std::vector<std::string>{"'q'", "''", "'\\x00'", "'__p'", "\"a b\""}) : id()) + ": " + e(d - 1);
        return "(" + o + "})";
      }
      case 11: {
        std::string o = "function" + std::string(s.chance(1, 3) ? " " + id() : "") + "(";
        int n = (int) s.below(3);
        for (int i = 0; i < n; i++) o += (i ? ", " : "") + id();
        o += ") { ";
        int k = (int) s.below(3);
        for (int i = 0; i < k; i++) o += st(d - 1) + " ";
        return o + "}";
      }
      case 12:
      case 13: return e(d - 1) + "(" + args(d) + ")";
      case 14: return e(d - 1) + "." + s.pick(std::vector<std::string>{"a", "b", "length", "x", "push", "splice", "slice", "at", "indexOf", "apply", "charCodeAt", "__p"});
      case 15: return e(d - 1) + "[" + e(d - 1) + "]";
      case 16:
      case 17: return e(d - 1) + "." + s.pick(std::vector<std::string>{"push", "splice", "slice", "at", "indexOf", "apply", "charCodeAt"}) + "(" + args(d) + ")";
      case 18: return "JSON.stringify(" + args(d) + ")";
      case 19: return "JSON.parse(" + (s.chance(1, 2) ? args(d) : s.pick(std::vector<std::string>{"'{\"a\":1}'", "'[1,2'", "'{\"\":1}'", "'\"\\\\u00'", "'[[[[1]]]]'", "'{\"a\":{\"b\":[null,true]}}'", "' 12 '", "'\"abcdefghij\"'", "''"})) + ")";
      case 20: return "Object.create(" + args(d) + ")";
      case 21: return s.pick(std::vector<std::string>{"gc", "chr", "isNaN", "log", "print", "die"}) + "(" + args(d) + ")";
      case 22: return s.pick(std::vector<std::string>{"this", "global", "JSON", "Object", "gc", "log"});
      default: return "(" + e(d - 1) + ", " + e(d - 1) + ")";
    }
  }
  std::string args(int d) {
    std::string o;
    int n = (int) s.below(4);
    for (int i = 0; i < n; i++) o += (i ? ", " : "") + e(d - 1);
    return o;
  }
  std::string lv(int d) {
    switch (s.below(5)) {
      case 0: return e(d - 1) + "." + s.pick(std::vector<std::string>{"a", "b", "length", "x", "0"});
      case 1: return e(d - 1) + "[" + e(d - 1) + "]";
      case 2: return e(d - 1);
      default: return id();
    }
  }
  std::string body(int d) {
    std::string o = "{ ";
    int n = (int) s.below(4);
    for (int i = 0; i < n; i++) o += st(d - 1) + " ";
    return o + "}";
  }
  std::string st(int d) {
    switch (d <= 0 ? 0 : s.below(16)) {
      case 1:
      case 2: return "let " + id() + (s.chance(1, 6) ? "" : " = " + e(d)) + (s.chance(1, 6) ? ", " + id() + " = " + e(d - 1) : "") + ";";
      case 3: return "if (" + e(d - 1) + ") " + body(d) + (s.chance(1, 2) ? " else " + body(d) : "");
      case 4: return "for (let " + id() + " = 0; " + id() + " < 3; " + id() + "++) " + body(d);
      case 5: return "for (let " + id() + " in " + e(d - 1) + ") " + body(d);
      case 6: return "while (" + e(d - 1) + ") " + body(d);
      case 7: return "return " + e(d - 1) + ";";
      case 8: return s.chance(1, 2) ? "break;" : "continue;";
      case 9: return body(d);
      case 10: return "function " + id() + "(" + (s.chance(1, 2) ? id() : "") + ") " + body(d) + ";";
      case 11: return "for (" + (s.chance(1, 3) ? "" : e(d - 1)) + "; " + (s.chance(1, 3) ? "" : e(d - 1)) + "; " + (s.chance(1, 3) ? "" : e(d - 1)) + ") " + st(d - 1);
      case 12: return "for (" + id() + " in " + e(d - 1) + ") " + st(d - 1);
      default: return e(d) + (s.chance(1, 10) ? "" : ";");
    }
  }
  std::string prog() {
    std::string o = s.chance(3, 4) ? "let a = 1, b = 'string of text', o = {a: 1, b: [1, 2, 3]}, x = [1, 'two'], y = 0; let f = function(a, b) { return a; }; let g = function(x) { return this; };\n" : "";
    int n = (int) s.range(1, 8);
    for (int i = 0; i < n; i++) {
      budget = 40;
      o += st(4) + "\n";
    }
    return o;
  }
};

