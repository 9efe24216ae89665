// P16: every value keeps its type and content through boxing, storage, number
// literals, arithmetic and conversion to text.
#include <cmath>
#include "mv.h"
const char *PROP_ID = "P16";
extern "C" {
void mjs_sprintf(mjs_val_t v, struct mjs *mjs, char *buf, size_t n);
void mjs_fprintf(mjs_val_t v, struct mjs *mjs, FILE *fp);
}

namespace {
enum { T_NUM, T_BOOL, T_NULL, T_UNDEF, T_STR, T_OBJ, T_ARR, T_FN, T_PTR, T_N };
const char *tname[] = {"number", "boolean", "null", "undefined", "string", "object", "array", "function", "foreign_ptr"};

double bits_d(uint64_t b) {
  double d;
  memcpy(&d, &b, 8);
  return d;
}
struct Run {
  Src &s;
  Case &c;
  VM vm;
  std::string hist;
  int judged = 0;
  Run(Src &s, Case &c) : s(s), c(c) {}
  void note(const std::string &t) {
    hist += t + "\n";
    c.show(hist);
  }
  double num() {
    switch (s.weighted({3, 3, 3, 2, 2, 2, 2})) {
      case 0: return (double) s.range(-300, 300);
      case 1: return (double) s.range(-1000000, 1000000) / (double) (1 << s.below(12));
      case 2: {  // near a power of two
        double p = ldexp(1, (int) s.range(-4, 66)) + (double) s.range(-2, 2) * (s.chance(1, 2) ? 1 : 0.5);
        return s.chance(1, 2) ? -p : p;
      }
      case 3: return bits_d(s.bits(64));
      case 4:  // NaN or infinity patterns, in particular those that look like boxed values
        return bits_d((s.chance(1, 2) ? 0xfff0000000000000ULL : 0x7ff0000000000000ULL) | (s.below(16) << 48) | (s.chance(1, 2) ? s.bits(48) : s.below(3)));
      case 5: {  // decimal fractions
        double p = (double) s.range(-99999, 99999);
        for (int k = (int) s.below(12); k > 0; k--) p /= 10;
        return p;
      }
      default: return s.pick(std::vector<double>{0.0, -0.0, 1e308, -1e308, 5e-324, 2.2250738585072014e-308, 9007199254740991.0, 9007199254740993.0, 4294967295.0, 4294967296.0, 2147483647.0, -2147483648.0,
                                                 9223372036854775807.0, 9223372036854774784.0, -9223372036854775808.0, 18446744073709551615.0, 0.1, 1.0 / 3, 0.5, 0.9999995, 0.00000049, 123456789.125});
    }
  }
  void kinds(mjs_val_t v, int t, const std::string &what) {
    struct mjs *m = vm.m;
    bool is[T_N] = {mjs_is_number(v) != 0, mjs_is_boolean(v) != 0, mjs_is_null(v) != 0, mjs_is_undefined(v) != 0, mjs_is_string(v) != 0, mjs_is_object(v) && !mjs_is_array(v),
                    mjs_is_array(v) && mjs_is_object(v), mjs_is_function(v) != 0, mjs_is_foreign(v) != 0};
    for (int i = 0; i < T_N; i++)
      if (is[i] != (i == t)) failf("%s: is%s of type %s", what.c_str(), is[i] ? "" : " not", tname[i]);
    if (std::string(mjs_typeof(v)) != tname[t]) failf("%s: mjs_typeof is %s", what.c_str(), mjs_typeof(v));
    if (t != T_PTR && mjs_get_ptr(m, v) != NULL) failf("%s: mjs_get_ptr of a value that is not a pointer is not NULL", what.c_str());
    if (t != T_BOOL && mjs_get_bool(m, v)) failf("%s: mjs_get_bool is true", what.c_str());
    mjs_set(m, mjs_get_global(m), "X", ~0, v);
    std::string r;
    vm.exec("typeof X", &r);
    if (r != quote(tname[t])) failf("%s: typeof is %s", what.c_str(), r.c_str());
  }
  void same(mjs_val_t v, double d, const std::string &what) {
    if (!mjs_is_number(v)) failf("%s is not a number", what.c_str());
    double g = mjs_get_double(vm.m, v);
    if (std::isnan(d) ? !std::isnan(g) : g != d) failf("%s is %.17g, expected %.17g", what.c_str(), g, d);
  }
  bool b(const std::string &src) {
    mjs_val_t r;
    if (vm.exec(src, nullptr, &r)) failf("%s fails: %s", src.c_str(), vm.err().c_str());
    if (!mjs_is_boolean(r)) failf("%s is not a boolean", src.c_str());
    return mjs_get_bool(vm.m, r);
  }
  void number() {
    struct mjs *m = vm.m;
    double x = num(), y = s.chance(1, 6) ? x : num();
    note(strf("numbers %.17g, %.17g", x, y));
    mjs_val_t vx = mjs_mk_number(m, x), vy = mjs_mk_number(m, y);
    same(vx, x, "mjs_mk_number");
    if (!std::isnan(x) && std::signbit(mjs_get_double(m, vx)) != std::signbit(x)) failf("mjs_mk_number loses the sign");
    kinds(vx, T_NUM, strf("mjs_mk_number(%.17g)", x));
    mjs_set(m, mjs_get_global(m), "X", ~0, vx);
    mjs_set(m, mjs_get_global(m), "Y", ~0, vy);
    same(vm.global("X"), x, "stored number");
    if (x == std::trunc(x) && x >= -2147483648.0 && x <= 4294967295.0 && mjs_get_int(m, vx) != (int) (int64_t) x) failf("mjs_get_int is %d", mjs_get_int(m, vx));
    if (x == std::trunc(x) && x >= -2147483648.0 && x <= 2147483647.0 && mjs_get_int32(m, vx) != (int32_t) x) failf("mjs_get_int32 is %d", mjs_get_int32(m, vx));
    struct {
      const char *op;
      bool want;
    } rel[] = {{"<", x < y}, {">", x > y}, {"<=", x <= y}, {">=", x >= y}, {"===", x == y}, {"!==", x != y}};
    for (auto &r : rel) {
      if (s.chance(1, 3)) continue;
      if (b(std::string("X ") + r.op + " Y") != r.want) failf("%.17g %s %.17g is wrong", x, r.op, y);
    }
    if (b("X === X") != !std::isnan(x)) failf("X === X is wrong");
    if (b("!X") != (x == 0 || std::isnan(x))) failf("!%.17g is wrong", x);
    if (b("isNaN(X)") != std::isnan(x)) failf("isNaN(%.17g) is wrong", x);
    struct {
      const char *op;
      double want;
    } ar[] = {{"X + Y", x + y}, {"X - Y", x - y}, {"X * Y", x * y}, {"X / Y", x / y}, {"-X", -x}};
    for (auto &r : ar) {
      if (std::string(r.op) == "X / Y" && y == 0) continue;
      mjs_val_t v;
      std::string src = r.op;
      if (src[0] == 'X' && s.chance(1, 4)) {
        src = std::string("(function(){ let z = X; z ") + src[2] + "= Y; return z; })()";
      }
      if (vm.exec(src, nullptr, &v)) failf("%s fails: %s", src.c_str(), vm.err().c_str());
      same(v, r.want, strf("%s with X=%.17g Y=%.17g", src.c_str(), x, y));
    }
    // through an object, an array, a call
    mjs_val_t v;
    if (vm.exec("let f = function(a){ return [{q: a}][0].q; }; f(X)", nullptr, &v)) failf("identity fails: %s", vm.err().c_str());
    same(v, x, "the number after a round trip");
    judged++;
    c.label(std::isnan(x) ? "NaN" : std::isinf(x) ? "infinity" : x == std::trunc(x) ? "integer" : "fraction");
  }
  void literal() {
    std::string t;
    double want;
    int kind = s.weighted({3, 4, 3, 3});
    auto digits = [&](int n) {
      std::string d;
      for (int i = 0; i < n; i++) d += (char) ('0' + s.below(10));
      return d;
    };
    if (kind == 3) {
      int n = (int) s.range(1, 15);
      t = "0x";
      for (int i = 0; i < n; i++) t += "0123456789abcdefABCDEF"[s.below(22)];
      want = (double) strtoull(t.c_str() + 2, nullptr, 16);
    } else {
      t = digits((int) (s.chance(1, 5) ? s.range(15, 25) : s.range(1, 8)));
      while (t.size() > 1 && t[0] == '0') t.erase(0, 1);
      if (kind >= 1) t += "." + digits((int) (s.chance(1, 5) ? s.range(12, 30) : s.range(1, 6)));
      if (kind == 2 || s.chance(1, 8)) t += std::string(s.chance(1, 2) ? "e" : "E") + s.pick(std::vector<std::string>{"", "+", "-"}) + strf("%d", (int) (s.chance(1, 4) ? s.range(0, 330) : s.range(0, 25)));
      want = strtod(t.c_str(), nullptr);
    }
    static const std::vector<std::string> ctx = {"@", "(@)", "[@][0]", "{let q=@;q}", "(function(a){return a;})(@)", "@ ", "let o={a:@};o.a", "true?@:1", "0||@"};
    std::string p = s.pick(ctx), src;
    bool neg = s.chance(1, 4) && p[0] != '{' && p != "0||@";
    for (char ch : p) src += ch == '@' ? (neg ? "-" : "") + t : std::string(1, ch);
    if (p == "{let q=@;q}") src = "let f = function() " + std::string("{let q=") + (neg ? "-" : "") + t + ";return q;}; f()";
    note(src);
    mjs_val_t v;
    if (vm.exec("let o = 0; let f = 0;")) {
    }
    if (vm.exec(src, nullptr, &v)) failf("%s fails: %s", src.c_str(), vm.err().c_str());
    same(v, neg ? -want : want, src);
    judged++;
    c.label(kind == 3 ? "hex literal" : kind == 0 ? "integer literal" : "decimal literal");
  }
  // the text of a value as mjs_sprintf, mjs_fprintf and print show it
  std::string full_text(mjs_val_t v) {
    char *p = nullptr;
    size_t n = 0;
    FILE *fp = open_memstream(&p, &n);
    mjs_fprintf(v, vm.m, fp);
    fclose(fp);
    std::string r(p, n);
    free(p);
    return r;
  }
  static bool numtext_ok(const std::string &t, double d) {
    if (std::isnan(d) || std::isinf(d)) return true;
    const char *p = t.c_str();
    if (*p == '-') p++;
    if (!isdigit((unsigned char) *p)) return false;
    char *e;
    double g = strtod(t.c_str(), &e);
    if (*e || e == t.c_str()) return false;
    if (d == std::trunc(d)) return g == d && (fabs(d) >= 9.2e18 || t == strf("%lld", (long long) d) || d == 0);
    size_t dot = t.find('.');
    if (dot == std::string::npos || t.size() - dot - 1 < 6) return false;
    return fabs(g - d) <= 0.5000001e-6 + 2 * fabs(std::nextafter(d, INFINITY) - d);
  }
  void text() {
    struct mjs *m = vm.m;
    int t = (int) s.below(T_N);
    mjs_val_t v = MJS_UNDEFINED;
    std::string want, what;
    bool prefix = false;
    double d = 0;
    switch (t) {
      case T_NUM:
        d = num();
        v = mjs_mk_number(m, d);
        what = strf("%.17g", d);
        break;
      case T_BOOL: {
        int k = s.pick(std::vector<int>{0, 1, -1, 256, 0x10000});
        v = mjs_mk_boolean(m, k);
        what = want = k ? "true" : "false";
        if (mjs_get_bool(m, v) != (k != 0)) failf("mjs_get_bool(mjs_mk_boolean(%d)) is wrong", k);
        break;
      }
      case T_NULL: v = mjs_mk_null(); what = want = "null"; break;
      case T_UNDEF: what = want = "undefined"; break;
      case T_STR: {
        std::string b = gen_bytes(s, 120);
        v = mkstr(m, b);
        what = quote(b);
        for (unsigned char ch : b) want += isprint(ch) ? std::string(1, (char) ch) : strf("\\x%02x", ch);
        break;
      }
      case T_OBJ: v = mjs_mk_object(m); what = want = "<object>"; break;
      case T_ARR: v = mjs_mk_array(m); what = want = "<array>"; break;
      case T_FN:
        vm.exec("let f = 0; f = function(a) { return a; }; f", nullptr, &v);
        what = want = "<function@";
        prefix = true;
        break;
      case T_PTR: {
        void *p = (void *) (uintptr_t) (s.chance(1, 3) ? s.below(3) : s.bits((int) s.range(1, 48)));
        v = mjs_mk_foreign(m, p);
        what = strf("pointer %p", p);
        want = strf("<foreign_ptr@%lx>", (unsigned long) p);
        if (mjs_get_ptr(m, v) != p) failf("mjs_get_ptr is %p, expected %p", mjs_get_ptr(m, v), p);
        break;
      }
    }
    note("text of " + what);
    mjs_own(m, &v);
    kinds(v, t, what);
    std::string g = full_text(v);
    if (t == T_NUM) {
      if (!numtext_ok(g, d)) failf("the number %.17g is printed as %s", d, g.c_str());
      std::string k;  // as a property name, and as JSON
      if (d == std::trunc(d) && fabs(d) < 9e18) {
        mjs_set(m, mjs_get_global(m), "X", ~0, v);
        vm.exec("let O = {}; O[X] = 1; let K = ''; for (K in O) {} K", nullptr, nullptr);
        mjs_val_t r = vm.global("O"), it = MJS_UNDEFINED;
        mjs_val_t key = mjs_next(m, r, &it);
        if (getstr(m, key) != g) failf("the property name of %.17g is %s", d, quote(getstr(m, key)).c_str());
        std::string js;
        vm.exec("JSON.stringify(X)", &js);
        if (js != quote(g)) failf("JSON.stringify(%.17g) is %s", d, js.c_str());
        vm.exec("O = 0; K = 0;");
      }
    } else if (prefix ? g.compare(0, want.size(), want) != 0 : g != want) {
      failf("%s is printed as %s", what.c_str(), quote(g).c_str());
    }
    // into a buffer of any size
    size_t n = s.chance(1, 4) ? g.size() + (size_t) s.range(0, 3) : (size_t) s.below(g.size() + 4);
    char *buf = (char *) malloc(n + 8);
    memset(buf, 0x5a, n + 8);
    mjs_sprintf(v, m, buf, n);
    for (size_t i = n; i < n + 8; i++)
      if (buf[i] != 0x5a) failf("mjs_sprintf with a buffer of %d bytes writes outside it", (int) n);
    if (n > 0) {
      if (!memchr(buf, 0, n)) failf("mjs_sprintf with a buffer of %d bytes does not terminate the text", (int) n);
      // a text that fits is complete; otherwise a prefix of it
      std::string got = buf;
      if (n > g.size() ? got != g : g.compare(0, got.size(), got) != 0) failf("mjs_sprintf with a buffer of %d bytes yields %s, the text is %s", (int) n, quote(got).c_str(), quote(g).c_str());
    }
    free(buf);
    mjs_disown(m, &v);
    judged++;
    c.label(std::string("text of ") + tname[t]);
  }
  void truth() {
    static const std::vector<std::pair<std::string, int>> t = {{"0", 0}, {"1", 1}, {"-1", 1}, {"0.5", 1}, {"''", 0}, {"'0'", 1}, {"'a'", 1}, {"'abcdefgh'", 1}, {"'\\x00'", 1}, {"null", 0}, {"undefined", 0}, {"true", 1}, {"false", 0},
                                                               {"{}", 1}, {"[]", 1}, {"[0]", 1}, {"NaN", 0}, {"function(){}", 1}, {"load", 1}, {"JSON", 1}, {"-0", 0}, {"'abcdefgh'.slice(0,0)", 0}, {"'abcdefgh'.slice(2,2)", 0}};
    auto a = s.pick(t), b2 = s.pick(t);
    mjs_val_t r;
    std::string A = "(" + a.first + ")", B = "(" + b2.first + ")";
    std::string src = strf("let T = []; let a = %s; let b = %s; if (a) { T.push(1); } else { T.push(0); } T.push(!a ? 0 : 1); T.push(!!a ? 1 : 0); T.push((a && b) ? 1 : 0); T.push((a || b) ? 1 : 0); let n = 0; while (a) { n = 1; break; } T.push(n); "
                           "for (n = 0; a; n = 2) { n = 1; break; } T.push(n); T.push(typeof(a || b) === typeof(%s) ? 1 : 0); T.push(typeof(a && b) === typeof(%s) ? 1 : 0);",
                           A.c_str(), B.c_str(), a.second ? "a" : "b", a.second ? "b" : "a");
    src = "(function() {" + src + " return T; })()";
    note(src);
    if (vm.exec(src, nullptr, &r)) failf("fails: %s", vm.err().c_str());
    std::string want = strf("%d%d%d%d%d%d%d11", a.second, a.second, a.second, a.second && b2.second, a.second || b2.second, a.second, a.second), got;
    for (unsigned i = 0; i < mjs_array_length(vm.m, r); i++) got += strf("%d", mjs_get_int(vm.m, mjs_array_get(vm.m, r, i)));
    if (got != want) failf("truth of %s and %s: the tests yield %s, expected %s", a.first.c_str(), b2.first.c_str(), got.c_str(), want.c_str());
    judged++;
    c.label("truth value");
  }
  void run() {
    vm.exec("let X = 0; let Y = 0; let f = 0; let o = 0; let O = 0; let K = 0;");
    if (s.chance(1, 3)) {
      g_step.gc_den = (unsigned) s.range(1, 8);
      g_step.gc_state = s.bits(32);
    }
    int n = (int) s.range(1, 8);
    for (int i = 0; i < n; i++) switch (s.weighted({3, 3, 3, 1})) {
        case 0: number(); break;
        case 1: literal(); break;
        case 2: text(); break;
        default: truth();
      }
    c.nontrivial = judged >= 2;
    vm.destroy();
  }
};
}  // namespace

void prop_case(Src &s, Case &c) { Run(s, c).run(); }
