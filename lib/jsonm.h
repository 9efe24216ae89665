// Independent model of JSON: values, a strict RFC 8259 parser, an acceptor for
// the relaxed grammar mJS documents, a randomised printer and a generator.
#pragma once
#include <math.h>
#include <memory>
#include "engine.h"
#include "mjsx.h"

struct JV {
  enum K { NUL, FALSE, TRUE, NUM, STR, ARR, OBJ, CIRC, UNDEF, FUN } k = NUL;
  double n = 0;
  std::string s;  // bytes of a string
  std::vector<JV> a;
  std::vector<std::pair<std::string, JV>> o;  // in order, may have duplicates
};

inline bool valid_utf8(const std::string &s) {
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    int n = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : (c & 0xf0) == 0xe0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
    if (!n || i + n > s.size()) return false;
    for (int j = 1; j < n; j++)
      if (((unsigned char) s[i + j] & 0xc0) != 0x80) return false;
    i += n;
  }
  return true;
}

// canonical text; objects sorted by key, later duplicates win
inline std::string jcanon(const JV &v) {
  switch (v.k) {
    case JV::NUL: return "null";
    case JV::FALSE: return "false";
    case JV::TRUE: return "true";
    case JV::NUM: return fmtnum(v.n);
    case JV::STR: return quote(v.s);
    case JV::CIRC: return "[Circular]";
    case JV::UNDEF: return "undefined";
    case JV::FUN: return "<fn>";
    case JV::ARR: {
      std::string o = "[";
      for (auto &x : v.a) o += jcanon(x) + ";";
      return o + "]";
    }
    case JV::OBJ: {
      std::map<std::string, std::string> m;
      for (auto &p : v.o) m[p.first] = jcanon(p.second);
      std::string o = "{";
      for (auto &p : m) o += quote(p.first) + ":" + p.second + ";";
      return o + "}";
    }
  }
  return "?";
}

// canonical text of a real value
inline std::string jcanon(struct mjs *m, mjs_val_t v, int depth = 600) {
  if (mjs_is_object(v) && depth > 0) {
    if (mjs_is_array(v)) {
      std::string o = "[";
      unsigned long n = mjs_array_length(m, v);
      for (unsigned long i = 0; i < n; i++) o += jcanon(m, mjs_array_get(m, v, i), depth - 1) + ";";
      return o + "]";
    }
    std::map<std::string, std::string> mp;
    mjs_val_t it = MJS_UNDEFINED, k;
    while ((k = mjs_next(m, v, &it)) != MJS_UNDEFINED) {
      std::string ks = getstr(m, k);
      std::string val = jcanon(m, mjs_get(m, v, ks.data(), ks.size()), depth - 1);
      if (!mp.emplace(ks, val).second) mp[ks] += "<DUPLICATE>";
    }
    std::string o = "{";
    for (auto &p : mp) o += quote(p.first) + ":" + p.second + ";";
    return o + "}";
  }
  return ser(m, v, 1);
}

// ---- parsers ---------------------------------------------------------------
struct JParse {
  const std::string &t;
  size_t i = 0;
  bool relaxed;          // also unquoted keys, optional commas, hex numbers
  bool circ = false;     // accept [Circular]
  bool high_u = false;   // saw \uXXXX above 00ff
  bool bad_utf8 = false; // set when a string has bytes that are not UTF-8
  int depth = 0, maxdepth = 0;
  JParse(const std::string &t, bool relaxed) : t(t), relaxed(relaxed) {}
  void ws() {
    while (i < t.size() && (t[i] == ' ' || t[i] == '\t' || t[i] == '\n' || t[i] == '\r')) i++;
  }
  static bool dig(int c) { return c >= '0' && c <= '9'; }
  bool digits() {
    size_t b = i;
    while (i < t.size() && dig(t[i])) i++;
    return i > b;
  }
  bool number(JV &v) {
    size_t b = i;
    if (i < t.size() && t[i] == '-') i++;
    if (relaxed && i + 1 < t.size() && t[i] == '0' && t[i + 1] == 'x') {
      i += 2;
      size_t h = i;
      while (i < t.size() && isxdigit((unsigned char) t[i])) i++;
      v.k = JV::NUM;
      return i > h;
    }
    size_t d = i;
    if (!digits()) return false;
    if (!relaxed && t[d] == '0' && i > d + 1) return false;
    if (i < t.size() && t[i] == '.') {
      i++;
      if (!digits()) return false;
    }
    if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) {
      i++;
      if (i < t.size() && (t[i] == '+' || t[i] == '-')) i++;
      if (!digits()) return false;
    }
    v.k = JV::NUM;
    v.n = strtod(t.substr(b, i - b).c_str(), nullptr);
    return true;
  }
  bool string(std::string &o) {
    if (i >= t.size() || t[i] != '"') return false;
    i++;
    size_t b = i;
    while (i < t.size()) {
      unsigned char c = t[i];
      if (c == '"') {
        if (!valid_utf8(t.substr(b, i - b))) bad_utf8 = true;
        i++;
        return true;
      }
      if (c < 32) return false;
      if (c == '\\') {
        if (++i >= t.size()) return false;
        static const char *e = "\"\\/bfnrt", *r = "\"\\/\b\f\n\r\t";
        if (t[i] == 'u') {
          if (i + 4 >= t.size()) return false;
          unsigned x = 0;
          for (int j = 1; j <= 4; j++) {
            if (!isxdigit((unsigned char) t[i + j])) return false;
            x = x * 16 + (unsigned) strtol(std::string(1, t[i + j]).c_str(), nullptr, 16);
          }
          if (x > 255) high_u = true;
          o += (char) x;
          i += 5;
          continue;
        }
        const char *p = t[i] ? strchr(e, t[i]) : nullptr;
        if (!p) return false;
        o += r[p - e];
        i++;
        continue;
      }
      o += (char) c;
      i++;
    }
    bad_utf8 = bad_utf8 || !valid_utf8(t.substr(b));
    return false;
  }
  bool key(std::string &o) {
    if (i < t.size() && t[i] == '"') return string(o);
    if (relaxed && i < t.size() && isalpha((unsigned char) t[i]) && (unsigned char) t[i] < 128) {
      while (i < t.size() && (unsigned char) t[i] < 128 && (isalnum((unsigned char) t[i]) || t[i] == '_')) o += t[i++];
      return true;
    }
    return false;
  }
  bool lit(const char *w) {
    size_t n = strlen(w);
    if (t.compare(i, n, w) != 0) return false;
    i += n;
    return true;
  }
  bool value(JV &v) {
    if (depth > 5000) return false;
    ws();
    if (i >= t.size()) return false;
    switch (t[i]) {
      case 'n': v.k = JV::NUL; return lit("null");
      case 't': v.k = JV::TRUE; return lit("true");
      case 'f': v.k = JV::FALSE; return lit("false");
      case '"': v.k = JV::STR; return string(v.s);
      case '[': {
        if (circ && t.compare(i, 10, "[Circular]") == 0) {
          i += 10;
          v.k = JV::CIRC;
          return true;
        }
        v.k = JV::ARR;
        i++;
        if (++depth > maxdepth) maxdepth = depth;
        ws();
        bool first = true;
        while (i < t.size() && t[i] != ']') {
          if (!first && !relaxed) {
            if (t[i] != ',') return false;
            i++;
          }
          v.a.push_back(JV());
          if (!value(v.a.back())) return false;
          ws();
          if (relaxed && i < t.size() && t[i] == ',') i++;
          ws();
          first = false;
        }
        if (i >= t.size()) return false;
        i++;
        depth--;
        return true;
      }
      case '{': {
        v.k = JV::OBJ;
        i++;
        if (++depth > maxdepth) maxdepth = depth;
        ws();
        bool first = true;
        while (i < t.size() && t[i] != '}') {
          if (!first && !relaxed) {
            if (t[i] != ',') return false;
            i++;
            ws();
          }
          v.o.push_back({"", JV()});
          if (!key(v.o.back().first)) return false;
          ws();
          if (i >= t.size() || t[i] != ':') return false;
          i++;
          if (!value(v.o.back().second)) return false;
          ws();
          if (relaxed && i < t.size() && t[i] == ',') i++;
          ws();
          first = false;
        }
        if (i >= t.size()) return false;
        i++;
        depth--;
        return true;
      }
      default: return number(v);
    }
  }
  bool all(JV &v) {
    if (!value(v)) return false;
    ws();
    return i == t.size();
  }
};

// ---- generators ------------------------------------------------------------
inline std::string gen_utf8(Src &s, int maxlen = 300) {
  int len = 0;
  switch (s.weighted({6, 4, 2, 1, 1})) {
    case 0: len = (int) s.range(0, 6); break;
    case 1: len = (int) s.range(1, 14); break;
    case 2: len = (int) s.range(5, 60); break;
    case 3: len = (int) s.range(120, 135); break;
    default: len = (int) s.range(0, maxlen); break;
  }
  std::string o;
  int mode = s.weighted({4, 4, 2});
  while ((int) o.size() < len) {
    int w = mode == 0 ? 0 : s.weighted({6, 3, 1, 1, 1, mode == 2 ? 4 : 1});
    switch (w) {
      case 0: o += (char) ('a' + s.below(4)); break;
      case 1: o += std::string("\"\\/\b\f\n\r\t\v\x1f\x7f\x01 .[]{},:'0", 22)[s.below(22)]; break;
      case 2: o += std::string(1, '\0'); break;
      case 3: o += "\xc3\xa9"; break;
      case 4: o += s.chance(1, 2) ? "\xe2\x82\xac" : "\xf0\x9f\x98\x80"; break;
      default: o += (char) s.below(128); break;
    }
  }
  return o;
}

inline double gen_jnum(Src &s) {
  switch (s.weighted({6, 3, 3, 2, 2, 1, 1})) {
    case 0: return (double) s.range(-20, 1000);
    case 1: return (double) (int64_t) (s.bits(53)) * (s.chance(1, 2) ? -1 : 1);
    case 2: return (double) s.range(-1000000, 1000000) / 64;
    case 3: return (double) (int32_t) s.bits(32);
    case 4: {
      double d = ldexp(1.0, (int) s.range(0, 62)) + (double) s.range(-2, 2);
      return s.chance(1, 2) ? -d : d;
    }
    case 5: return (double) s.range(-1000, 1000) / 1000;
    default: return 0;
  }
}

inline std::string gen_jkey(Src &s) {
  switch (s.weighted({5, 3, 1, 1, 1})) {
    case 0: return strf("k%d", (int) s.below(6));
    case 1: return gen_utf8(s, 80);
    case 2: return "";
    case 3: return strf("%d", (int) s.below(5));
    default: return std::string(s.range(100, 300), 'z') + (char) ('a' + s.below(3));
  }
}

inline JV gen_jv(Src &s, int depth, bool undef = false, bool bytes = false) {
  JV v;
  int w = s.weighted({2, 2, 5, 6, depth > 0 ? 5 : 0, depth > 0 ? 6 : 0, undef ? 1 : 0});
  switch (w) {
    case 0: v.k = JV::NUL; break;
    case 1: v.k = s.chance(1, 2) ? JV::TRUE : JV::FALSE; break;
    case 2: v.k = JV::NUM; v.n = gen_jnum(s); break;
    case 3:
      v.k = JV::STR;
      v.s = gen_utf8(s);
      if (bytes && s.chance(1, 6))
        for (auto &ch : v.s)
          if (s.chance(1, 3)) ch = (char) s.below(256);
      break;
    case 4: {
      v.k = JV::ARR;
      int n = (int) (s.chance(1, 20) ? s.range(5, 40) : s.range(0, 4));
      for (int i = 0; i < n; i++) v.a.push_back(gen_jv(s, depth - 1, undef, bytes));
      break;
    }
    case 5: {
      v.k = JV::OBJ;
      int n = (int) (s.chance(1, 20) ? s.range(5, 30) : s.range(0, 4));
      for (int i = 0; i < n; i++) {
        std::string k = gen_jkey(s);
        if (k == "__p") k = "p";
        v.o.push_back({k, gen_jv(s, depth - 1, undef, bytes)});
      }
      break;
    }
    default: v.k = s.chance(1, 2) ? JV::UNDEF : JV::FUN; break;
  }
  return v;
}

// JSON text of v with random layout, escapes and number formats; the numbers
// of v are replaced by what the text denotes
inline void jprint_ws(Src &s, std::string &o, int lvl) {
  if (!lvl || !s.chance(1, 4)) return;
  int n = (int) s.range(1, 3);
  for (int i = 0; i < n; i++) o += " \t\n\r"[s.below(4)];
}
inline void jprint_str(Src &s, const std::string &b, std::string &o) {
  o += '"';
  for (unsigned char c : b) {
    static const char *e = "\"\\/bfnrt", *r = "\"\\/\b\f\n\r\t";
    const char *p = c ? strchr(r, c) : nullptr;
    if (p && (c == '"' || c == '\\' || s.chance(1, 2))) {
      if (s.chance(3, 4)) {
        o += '\\';
        o += e[p - r];
      } else
        o += strf("\\u00%02x", c);
    } else if (c < 32 || (c < 128 && s.chance(1, 30)))
      o += strf(s.chance(1, 2) ? "\\u00%02x" : "\\u00%02X", c);
    else
      o += (char) c;
  }
  o += '"';
}
inline void jprint(Src &s, JV &v, std::string &o, int lvl) {
  jprint_ws(s, o, lvl);
  switch (v.k) {
    case JV::NUL: o += "null"; break;
    case JV::TRUE: o += "true"; break;
    case JV::FALSE: o += "false"; break;
    case JV::NUM: {
      std::string t;
      switch (s.weighted({5, 2, 1, 1, 1})) {
        case 0: t = v.n == floor(v.n) && fabs(v.n) < 1e17 ? strf("%.0f", v.n) : strf("%.17g", v.n); break;
        case 1: t = strf("%.3f", v.n); break;
        case 2: t = strf("%.8e", v.n); break;
        case 3: t = strf("%.5E", v.n); break;
        default: t = strf("%de%s%d", (int) s.range(-99, 99), s.chance(1, 2) ? "+" : "", (int) s.range(0, 30)); break;
      }
      v.n = strtod(t.c_str(), nullptr);
      o += t;
      break;
    }
    case JV::STR: jprint_str(s, v.s, o); break;
    case JV::ARR: {
      o += '[';
      bool first = true;
      for (auto &x : v.a) {
        if (!first) {
          jprint_ws(s, o, lvl);
          o += ',';
        }
        first = false;
        jprint(s, x, o, lvl);
      }
      jprint_ws(s, o, lvl);
      o += ']';
      break;
    }
    case JV::OBJ: {
      o += '{';
      bool first = true;
      for (auto &x : v.o) {
        if (!first) {
          jprint_ws(s, o, lvl);
          o += ',';
        }
        first = false;
        jprint_ws(s, o, lvl);
        jprint_str(s, x.first, o);
        jprint_ws(s, o, lvl);
        o += ':';
        jprint(s, x.second, o, lvl);
      }
      jprint_ws(s, o, lvl);
      o += '}';
      break;
    }
    default: o += "null"; break;
  }
  jprint_ws(s, o, lvl);
}
