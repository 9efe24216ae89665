// P10: strings are immutable byte strings; every operation on them yields the
// bytes a byte-string model yields, whatever their length and origin.
#include "mv.h"
const char *PROP_ID = "P10";

namespace {
struct Run {
  Src &s;
  Case &c;
  VM vm;
  std::string hist;
  struct Var {
    std::string b;
    mjs_val_t *v;
  };
  std::vector<Var> pool;
  std::vector<char *> bufs;
  int nops = 0;
  size_t total = 0;
  Run(Src &s, Case &c) : s(s), c(c) {}
  ~Run() {
    for (auto b : bufs) free(b);
    for (auto &p : pool) delete p.v;
  }
  void note(const std::string &t) {
    hist += t + "\n";
    c.show(hist);
  }
  void setg(const std::string &name, mjs_val_t v) { mjs_set(vm.m, mjs_get_global(vm.m), name.c_str(), ~0, v); }
  void add(const std::string &b, mjs_val_t v) {
    total += b.size();
    if (pool.size() >= 8) {
      size_t k = s.below(8);
      pool[k].b = b;
      *pool[k].v = v;
      setg(strf("s%d", (int) k), v);
      return;
    }
    auto *p = new mjs_val_t(v);
    mjs_own(vm.m, p);
    pool.push_back({b, p});
    setg(strf("s%d", (int) pool.size() - 1), v);
  }
  std::string bytes() {
    if (!pool.empty() && s.chance(1, 4)) {  // part of a known string
      const std::string &b = s.pick(pool).b;
      if (!b.empty()) {
        size_t st = s.below(b.size());
        return b.substr(st, s.below(b.size() - st) + 1);
      }
    }
    if (s.chance(1, 30)) return std::string(16380 + s.below(10), 'x') + gen_bytes(s, 10);
    return gen_bytes(s);
  }
  mjs_val_t make(const std::string &b) {
    if (s.chance(1, 100)) {  // a large one
      std::string x = b + std::string(s.chance(1, 2) ? 65530 + s.below(12) : s.range(60000, 140000), 'w') + "end";
      bufs.push_back((char *) malloc(x.size()));
      memcpy(bufs.back(), x.data(), x.size());
      mjs_val_t v = mjs_mk_string(vm.m, bufs.back(), x.size(), 0);
      mjs_set(vm.m, mjs_get_global(vm.m), "large", ~0, v);
      std::string y = getstr(vm.m, v);
      if (y != x) failf("a foreign string of %d bytes has %d", (int) x.size(), (int) y.size());
      v = eval("large.slice(large.length - 4)");
      isstr(v, x.substr(x.size() - 4), "large.slice(large.length - 4)");
      if (mjs_get_double(vm.m, eval("large.length")) != (double) x.size()) failf("the length of a foreign string of %d bytes", (int) x.size());
      mjs_set(vm.m, mjs_get_global(vm.m), "large", ~0, MJS_UNDEFINED);
      c.label("large foreign");
    }
    if (s.chance(1, 3)) {
      char *p = (char *) malloc(b.size() ? b.size() : 1);
      memcpy(p, b.data(), b.size());
      bufs.push_back(p);
      c.label("foreign");
      return mjs_mk_string(vm.m, p, b.size(), 0);
    }
    if (b.find('\0') == std::string::npos && s.chance(1, 3)) return mjs_mk_string(vm.m, b.c_str(), ~0, 1);
    return mkstr(vm.m, b);
  }
  mjs_val_t eval(const std::string &src) {
    note(src);
    g_step.gc_den = s.chance(1, 4) ? 2 : 0;
    g_step.gc_state = s.below(1000);
    mjs_val_t r = MJS_UNDEFINED;
    int e = vm.exec(src, nullptr, &r);
    g_step.gc_den = 0;
    if (e) failf("%s: error %d (%s)", src.c_str(), e, vm.err().c_str());
    return r;
  }
  void isstr(mjs_val_t v, const std::string &exp, const char *what) {
    if (!mjs_is_string(v)) failf("%s yields %s, expected the string %s", what, ser(vm.m, v).c_str(), quote(exp).c_str());
    std::string g = getstr(vm.m, v);
    if (g != exp) failf("%s yields %s, expected %s", what, quote(g).c_str(), quote(exp).c_str());
  }
  void isnum(mjs_val_t v, double exp, const char *what) {
    std::string g = ser(vm.m, v);
    if (g != fmtnum(exp)) failf("%s yields %s, expected %s", what, g.c_str(), fmtnum(exp).c_str());
  }
  void isbool(mjs_val_t v, bool exp, const char *what) {
    std::string g = ser(vm.m, v);
    if (g != (exp ? "true" : "false")) failf("%s yields %s, expected %d", what, g.c_str(), exp);
  }
  void check_all() {
    for (size_t i = 0; i < pool.size(); i++) {
      mjs_val_t v = *pool[i].v;
      isstr(v, pool[i].b, strf("string %d", (int) i).c_str());
      isstr(mjs_get(vm.m, mjs_get_global(vm.m), strf("s%d", (int) i).c_str(), ~0), pool[i].b, "the global variable");
    }
  }
  long anyidx(size_t len) {
    switch (s.weighted({6, 3, 2, 1})) {
      case 0: return (long) s.below(len + 1);
      case 1: return -(long) s.below(len + 3);
      case 2: return (long) (len + s.below(4));
      default: return s.range(-2147483647, 2147483647);
    }
  }
  static size_t norm(long i, size_t len) {
    if (i < 0) i = std::max(0L, (long) len + i);
    return std::min((size_t) i, len);
  }
  void step() {
    struct mjs *m = vm.m;
    int i = (int) s.below(pool.size()), j = (int) s.below(pool.size());
    const std::string a = pool[i].b, b = pool[j].b;
    switch (s.weighted({3, 3, 5, 5, 4, 3, 3, 3, 2, 2, 2, 1, 1})) {
      case 0: {
        std::string x = bytes();
        note("mjs_mk_string " + quote(x));
        mjs_val_t v = make(x);
        isstr(v, x, "mjs_mk_string");
        add(x, v);
        break;
      }
      case 1: {  // literal
        if (s.chance(1, 5)) {  // a literal denotes what its parts, as literals, denote one after the other
          std::string all, sum;
          for (int n = (int) s.range(2, 8), k = 0; k < n; k++) {
            static const std::vector<std::string> odd = {"\\q", "\\/", "\\ ", "\\.", "\\\n", "\\d", "\\n", "\\x41", "\\u0416", "\xd0\x96", "\\\"", "\\'", "\\\\", "\\t", "\\b", "\\[", "\\-"};
            std::string t;
            if (s.chance(1, 3))
              t = std::string(s.range(1, s.chance(1, 3) ? 300 : 30), (char) ('a' + s.below(26)));
            else
              t = s.pick(odd);
            if (t[0] != '\\' || t.size() > 3) t += ".";
            all += t;
            sum += (k ? " + " : "") + ("'" + t + "'");
          }
          mjs_val_t r = eval(sum);
          std::string x = getstr(m, r);
          r = eval("'" + all + "'");
          isstr(r, x, "the literal, by parts");
          add(x, r);
          c.label("literal by parts");
          break;
        }
        std::string x = bytes();
        if (x.size() > 5000) x.resize(5000);
        mjs_val_t r = eval(js_str(s, x));
        isstr(r, x, "the literal");
        add(x, r);
        c.label("literal");
        break;
      }
      case 2: {  // concatenation
        if (a.size() + b.size() > 40000) break;
        mjs_val_t r;
        std::string x = a + b;
        if (s.chance(1, 4)) {
          setg("T", *pool[i].v);
          r = eval(strf("T += s%d; T", j));
        } else if (s.chance(1, 4)) {
          r = eval(strf("s%d + (s%d + s%d)", i, j, i));
          x = a + b + a;
        } else {
          r = eval(strf("s%d + s%d", i, j));
        }
        isstr(r, x, "the concatenation");
        add(x, r);
        c.label("concatenation");
        break;
      }
      case 3: {  // slice
        long st = anyidx(a.size()), en = anyidx(a.size());
        bool two = s.chance(3, 4);
        mjs_val_t r = eval(two ? strf("s%d.slice(%ld, %ld)", i, st, en) : strf("s%d.slice(%ld)", i, st));
        size_t p = norm(st, a.size()), q = two ? norm(en, a.size()) : a.size();
        std::string x = q > p ? a.substr(p, q - p) : "";
        isstr(r, x, "slice");
        add(x, r);
        c.label("slice");
        break;
      }
      case 4: {  // indexOf
        std::string n;
        switch (s.weighted({4, 3, 2, 1})) {
          case 0:
            if (!a.empty()) {
              size_t st = s.below(a.size());
              n = a.substr(st, s.below(std::min<size_t>(a.size() - st, 12)) + 1);
              if (s.chance(1, 4)) n += 'b';
            }
            break;
          case 1: n = b; break;
          case 2: n = gen_bytes(s, 3); break;
          default: n = a + "a";
        }
        setg("N", make(n));
        bool two = s.chance(1, 2);
        long from = anyidx(a.size());
        hist += "// N = " + quote(n) + ", s = " + quote(a) + "\n";
        mjs_val_t r = eval(two ? strf("s%d.indexOf(N, %ld)", i, from) : strf("s%d.indexOf(N)", i));
        size_t f = two ? (from < 0 ? 0 : std::min<size_t>(from, a.size())) : 0;
        size_t pos = a.find(n, f);
        isnum(r, pos == std::string::npos ? -1 : (double) pos, "indexOf");
        c.label(pos == std::string::npos ? "indexOf: not found" : "indexOf: found");
        break;
      }
      case 5: {  // at, charCodeAt, index, length
        long k = s.chance(4, 5) && !a.empty() ? (long) s.below(a.size()) : (long) (a.size() + s.below(300));
        if (s.chance(1, 40)) k += 4294967296L;
        if (s.chance(1, 20)) k = -1 - (long) s.below(a.size() + 3);
        mjs_val_t r = eval(strf("s%d[%ld]", i, k));
        if (k >= 0 && k < (long) a.size())
          isstr(r, std::string(1, a[k]), "the index");
        else if (!mjs_is_undefined(r))
          failf("an index past the end yields %s", ser(m, r).c_str());
        if (k >= 0 && k < 2147483647) {
          r = eval(strf("s%d.%s(%ld)", i, s.chance(1, 2) ? "at" : "charCodeAt", k));
          if (k < (long) a.size())
            isnum(r, (unsigned char) a[k], "at");
          else if (!mjs_is_undefined(r))
            failf("at() past the end yields %s", ser(m, r).c_str());
        }
        isnum(eval(strf("s%d.length", i)), (double) a.size(), "length");
        break;
      }
      case 6: {  // comparison
        isbool(eval(strf("s%d === s%d", i, j)), a == b, "===");
        isbool(eval(strf("s%d !== s%d", i, j)), a != b, "!==");
        std::string x = a;
        if (!x.empty() && s.chance(1, 2)) x[s.below(x.size())] ^= 1;
        setg("N", make(x));
        isbool(eval(strf("s%d === N", i)), a == x, "=== with a similar string");
        isbool(eval(strf("s%d ? true : false", i)), !a.empty(), "truth");
        if (getstr(m, eval(strf("typeof s%d", i))) != "string") failf("typeof is not string");
        c.label(a == x ? "comparison: equal" : "comparison: different");
        break;
      }
      case 7: {  // C accessors
        note(strf("accessors of s%d", i));
        mjs_val_t v = *pool[i].v;
        size_t n = 0;
        const char *p = mjs_get_string(m, &v, &n);
        if (n != a.size() || memcmp(p, a.data(), n) != 0) failf("mjs_get_string");
        if (mjs_get_string(m, &v, NULL) == NULL) failf("mjs_get_string with NULL");
        if (mjs_strcmp(m, &v, b.data(), b.size()) == 0 ? a != b : a == b) failf("mjs_strcmp of %s and %s", quote(a).c_str(), quote(b).c_str());
        std::string y = a;
        if (!y.empty()) y[s.below(y.size())] ^= 2;
        if (!y.empty() && mjs_strcmp(m, &v, y.data(), y.size()) == 0) failf("mjs_strcmp of %s and %s is 0", quote(a).c_str(), quote(y).c_str());
        if (mjs_strcmp(m, &v, a.data(), a.size()) != 0) failf("mjs_strcmp of equal strings is not 0");
        break;
      }
      case 8: {  // mjs_get_cstring of an owned string
        note("mjs_get_cstring of a copy of " + quote(a));
        mjs_val_t v = mkstr(m, a);
        const char *p = mjs_get_cstring(m, &v);
        bool ok = a.find('\0') == std::string::npos;
        if (ok && (p == NULL || a != p)) failf("mjs_get_cstring yields %s", p ? quote(p).c_str() : "NULL");
        if (!ok && p != NULL) failf("mjs_get_cstring of a string with a NUL yields %s", quote(p).c_str());
        mjs_val_t num = mjs_mk_number(m, 1);
        if (mjs_get_cstring(m, &num) != NULL || mjs_get_string(m, &num, NULL) != NULL) failf("a number has string data");
        break;
      }
      case 9: {  // chr
        long k = s.chance(5, 6) ? (long) s.below(256) : s.range(-300, 70000);
        mjs_val_t r = eval(strf("chr(%ld)", k));
        if (k >= 0 && k < 256) {
          isstr(r, std::string(1, (char) k), "chr");
          add(std::string(1, (char) k), r);
        } else if (!mjs_is_null(r))
          failf("chr(%ld) yields %s", k, ser(m, r).c_str());
        break;
      }
      case 10:
        note("gc");
        mjs_gc(m, (int) s.below(2));
        c.label("gc");
        break;
      case 11: {  // wrong arguments
        std::string src = s.pick(std::vector<std::string>{strf("s%d.slice('1')", i), strf("s%d.slice(0, null)", i), strf("s%d.indexOf(1)", i), strf("s%d.indexOf(s%d, '0')", i, j),
                                                          strf("s%d.at('0')", i), strf("s%d + 1", i), strf("1 + s%d", i), strf("s%d - s%d", i, j), "let f = 'a'.slice; f(0)",
                                                          strf("s%d.nosuch", i)});
        note(src);
        int e = vm.exec("{" + src + "}");
        if (e != MJS_TYPE_ERROR) failf("%s: error %d, expected %d", src.c_str(), e, MJS_TYPE_ERROR);
        break;
      }
      default: {  // built byte by byte in a loop
        if (a.size() > 300) break;
        mjs_val_t r = eval(strf("let t = ''; for (let i = 0; i < s%d.length; i++) { t = t + chr(s%d.at(i)); } t;", i, i));
        isstr(r, a, "the copy made byte by byte");
        add(a, r);
        c.label("loop");
      }
    }
    nops++;
  }
  void run() {
    for (int i = 0; i < 2; i++) {
      std::string x = bytes();
      note(strf("s%d = ", i) + quote(x));
      add(x, make(x));
    }
    vm.exec("let T, N;");
    int n = (int) s.range(3, 40);
    for (int q = 0; q < n && total < 300000; q++) {
      step();
      if (s.chance(1, 3)) check_all();
    }
    check_all();
    mjs_gc(vm.m, 1);
    check_all();
    c.nontrivial = nops >= 6;
    vm.destroy();
  }
};
}  // namespace

void prop_case(Src &s, Case &c) { Run(s, c).run(); }
