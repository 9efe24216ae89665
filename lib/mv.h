// Reference model of mJS values and of the heap of objects and arrays.
#pragma once
#include <algorithm>
#include <deque>
#include "engine.h"
#include "mjsx.h"

struct MV {
  enum K { UNDEF, NUL, BOOL, NUM, STR, REF } k = UNDEF;
  double n = 0;
  std::string s;
  int ref = -1;
  static MV undef() { return MV(); }
  static MV null() { MV v; v.k = NUL; return v; }
  static MV boolean(bool b) { MV v; v.k = BOOL; v.n = b; return v; }
  static MV num(double d) { MV v; v.k = NUM; v.n = d; return v; }
  static MV str(const std::string &s) { MV v; v.k = STR; v.s = s; return v; }
  static MV obj(int r) { MV v; v.k = REF; v.ref = r; return v; }
};

struct MObj {
  bool arr = false;
  std::map<std::string, MV> p;
};

inline bool canon_index(const std::string &k, unsigned long *out) {
  if (k.empty() || k.size() > 10 || (k[0] == '0' && k.size() > 1)) return false;
  unsigned long v = 0;
  for (char c : k) {
    if (c < '0' || c > '9') return false;
    v = v * 10 + (c - '0');
  }
  if (v >= 0xffffffffUL) return false;
  *out = v;
  return true;
}

// source text of a string literal with the given bytes
inline std::string js_str(Src &s, const std::string &b) {
  char q = s.chance(1, 2) ? '\'' : '"';
  std::string o(1, q);
  for (unsigned char c : b) {
    if (c == (unsigned char) q || c == '\\') {
      o += '\\';
      o += (char) c;
    } else if (c == '\n' && s.chance(1, 2)) {
      o += "\\n";
    } else if (c == '\t' && s.chance(1, 2)) {
      o += "\\t";
    } else if (c == '\r' && s.chance(1, 2)) {
      o += "\\r";
    } else if (c < 32 || c == 127 || (c >= 128 && s.chance(1, 2)) || s.chance(1, 40)) {
      bool up = s.chance(1, 2);
      o += s.chance(1, 6) && c < 128 ? strf(up ? "\\u00%02X" : "\\u00%02x", c) : strf(up ? "\\x%02X" : "\\x%02x", c);
    } else {
      o += (char) c;
    }
  }
  return o + q;
}

inline bool is_ident(const std::string &k) {
  if (k.empty() || k.size() > 60) return false;
  for (size_t i = 0; i < k.size(); i++) {
    unsigned char c = k[i];
    if (!(isalpha(c) || c == '_' || c == '$' || (i && isdigit(c))) || c > 127) return false;
  }
  static const std::set<std::string> kw = {"break", "case", "catch", "continue", "debugger", "default", "delete", "do", "else", "false", "finally", "for",
                                           "function", "if", "in", "instanceof", "new", "null", "return", "switch", "this", "throw", "true", "try",
                                           "typeof", "var", "void", "while", "with", "let", "undefined"};
  return !kw.count(k);
}

// byte strings with shared prefixes, of the lengths at which the engine
// changes the representation, with NULs and bytes above 127
inline std::string gen_bytes(Src &s, int maxlen = 300) {
  static const std::string alpha = std::string("ab0\0\x80\xff", 6) + "1_ \n\"'\\/";
  int len = 0;
  switch (s.weighted({6, 5, 3, 2, 1})) {
    case 0: len = (int) s.range(0, 7); break;
    case 1: len = (int) s.range(1, 12); break;
    case 2: len = (int) s.range(5, 40); break;
    case 3: len = (int) s.range(120, 135); break;
    default: len = (int) s.range(0, maxlen); break;
  }
  if (len > maxlen) len = maxlen;
  std::string o;
  int mode = s.weighted({4, 2, 2, 1});
  for (int i = 0; i < len; i++) {
    if (mode == 0)
      o += (char) ('a' + s.below(3));
    else if (mode == 1)
      o += alpha[s.below(alpha.size())];
    else if (mode == 2)
      o += i + 1 < len ? 'a' : (char) ('a' + s.below(3));
    else
      o += (char) s.below(256);
  }
  return o;
}

struct MHeap {
  std::deque<MObj> o;  // stable references
  std::vector<mjs_val_t *> real;  // owned, stable addresses
  struct mjs *m = nullptr;
  ~MHeap() {
    for (auto *p : real) delete p;
  }
  int add(mjs_val_t v, bool arr) {
    auto *p = new mjs_val_t(v);
    mjs_own(m, p);
    real.push_back(p);
    o.push_back(MObj());
    o.back().arr = arr;
    return (int) o.size() - 1;
  }
  mjs_val_t to_real(const MV &v) {
    switch (v.k) {
      case MV::UNDEF: return MJS_UNDEFINED;
      case MV::NUL: return mjs_mk_null();
      case MV::BOOL: return mjs_mk_boolean(m, v.n != 0);
      case MV::NUM: return mjs_mk_number(m, v.n);
      case MV::STR: return mkstr(m, v.s);
      case MV::REF: return *real[v.ref];
    }
    return MJS_UNDEFINED;
  }
  static std::string text(const MV &v) {
    switch (v.k) {
      case MV::UNDEF: return "undefined";
      case MV::NUL: return "null";
      case MV::BOOL: return v.n != 0 ? "true" : "false";
      case MV::NUM: return fmtnum(v.n);
      case MV::STR: return quote(v.s);
      case MV::REF: return strf("<%d>", v.ref);
    }
    return "?";
  }
  std::string text(mjs_val_t v) {
    if (mjs_is_object(v)) {
      for (size_t i = 0; i < real.size(); i++)
        if (*real[i] == v) return strf("<%d>", (int) i);
      return "<unknown object> " + ser(m, v, 3);
    }
    return ser(m, v, 1);
  }
  unsigned long length(int i) const {
    unsigned long len = 0, n;
    for (auto &p : o[i].p)
      if (canon_index(p.first, &n) && n >= len) len = n + 1;
    return len;
  }
  const MV *lookup(int i, const std::string &k) const {  // with prototypes
    std::set<int> seen;
    while (seen.insert(i).second) {
      auto it = o[i].p.find(k);
      if (it != o[i].p.end()) return &it->second;
      it = o[i].p.find("__p");
      if (it == o[i].p.end() || it->second.k != MV::REF) return nullptr;
      i = it->second.ref;
    }
    return nullptr;
  }
  void check(int i) {
    mjs_val_t obj = *real[i];
    if ((mjs_is_array(obj) != 0) != o[i].arr || !mjs_is_object(obj)) failf("object %d changed its type", i);
    std::set<std::string> seen;
    mjs_val_t it = MJS_UNDEFINED, k;
    while ((k = mjs_next(m, obj, &it)) != MJS_UNDEFINED) {
      std::string ks = getstr(m, k);
      if (!mjs_is_string(k)) failf("object %d: iteration yields a key that is not a string", i);
      auto f = o[i].p.find(ks);
      if (f == o[i].p.end()) failf("object %d: has the property %s, which was never set or was deleted", i, quote(ks).c_str());
      if (!seen.insert(ks).second) failf("object %d: iteration yields %s twice", i, quote(ks).c_str());
      std::string a = text(mjs_get(m, obj, ks.data(), ks.size())), b = text(f->second);
      if (a != b) failf("object %d: property %s is %s, expected %s", i, quote(ks).c_str(), a.c_str(), b.c_str());
    }
    for (auto &p : o[i].p)
      if (!seen.count(p.first)) failf("object %d: property %s (%s) is missing from the iteration", i, quote(p.first).c_str(), text(p.second).c_str());
    if (o[i].arr) {
      unsigned long a = mjs_array_length(m, obj), b = length(i);
      if (a != b) failf("array %d: length is %lu, expected %lu", i, a, b);
    }
  }
  void check_all() {
    for (size_t i = 0; i < o.size(); i++) check((int) i);
  }
};
