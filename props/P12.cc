// P12: JSON.parse accepts every JSON text and yields the value it denotes, and
// rejects everything that is not even in the relaxed grammar.
#include "jsonm.h"
#include "mv.h"
const char *PROP_ID = "P12";
extern "C" mjs_err_t mjs_json_parse(struct mjs *mjs, const char *str, size_t len, mjs_val_t *res);

namespace {
struct Run {
  Src &s;
  Case &c;
  VM vm;
  std::string hist;
  int good = 0, bad = 0, big = 0;
  Run(Src &s, Case &c) : s(s), c(c) {}

  std::string wild() {  // token soup
    static const std::vector<std::string> tok = {"{", "}", "[", "]", ",", ":", "\"a\"", "\"b\"", "1", "-2.5", "true", "false", "null", "\"", "\\", "abc", "1e", "0x1f", "-", " ", "tru", "\"\\u00e9\"", "\"\\uD800\"", "01", "1.", ".5", "+1", "'a'", "//", "NaN", "\"\\", "{\"a\":1}", "[[]]"};
    std::string o;
    int n = (int) s.range(0, 14);
    for (int i = 0; i < n; i++) o += s.pick(tok);
    return o;
  }
  std::string mutate(std::string t) {
    int n = (int) s.range(1, 3);
    for (int i = 0; i < n; i++) {
      size_t p = t.empty() ? 0 : s.below(t.size());
      switch (s.weighted({3, 3, 3, 2, 2, 1})) {
        case 0: t = t.substr(0, p); break;
        case 1: if (!t.empty()) t.erase(p, s.below(3) + 1); break;
        case 2: t.insert(p, std::string(1, std::string("{}[],:\"\\0-e.ntfu \n\0\x01\xc3\xa9\xff", 24)[s.below(24)])); break;
        case 3: if (!t.empty()) t[p] = (char) s.below(256); break;
        case 4: if (!t.empty()) { size_t q = s.below(t.size()); std::swap(t[p], t[q]); } break;
        default: t += wild(); break;
      }
    }
    return t;
  }
  void one() {
    struct mjs *m = vm.m;
    std::string t;
    int kind = s.weighted({12, 10, 4, 2, 3, 1});
    JV v;
    if (kind == 3) {  // nesting
      int d = (int) (s.chance(1, 2) ? s.range(1, 700) : s.range(500, 530));
      std::string a, b;
      for (int i = 0; i < d; i++) {
        bool arr = s.chance(1, 2);
        a += arr ? "[" : "{\"k\":";
        b = std::string(arr ? "]" : "}") + b;
      }
      t = a + "1" + b;
      if (s.chance(1, 5)) t = t.substr(0, s.below(t.size()));
      if (s.chance(1, 20)) t = std::string(s.range(1000, 30000), s.chance(1, 2) ? '[' : '{');
      c.label("nesting");
    } else if (kind == 2) {
      t = wild();
    } else if (kind == 4) {  // something after a value
      v = gen_jv(s, (int) s.range(0, 3));
      jprint(s, v, t, (int) s.below(2));
      if (s.chance(1, 3)) t += std::string(" \n\t\r")[s.below(4)];
      t += s.pick(std::vector<std::string>{",", ";", "]", "}", ":", "1", "x", "\"", "[]", "{}", "null", "\\", "//", "-", std::string(1, '\0')});
      if (s.chance(1, 3)) t += std::string(" \n\t\r")[s.below(4)];
      c.label("something after a value");
    } else if (kind == 5) {  // many containers side by side
      int n = (int) s.range(300, 1500), k = (int) s.below(4);
      for (int i = 0; i < n; i++) {
        if (i) t += ",";
        if (k & 1) t += strf("\"k%d\":", i);
        t += k & 2 ? (i % 3 ? "[]" : "[{}]") : (i % 3 ? "{}" : "{\"a\":[]}");
      }
      t = k & 1 ? "{" + t + "}" : "[" + t + "]";
      c.label("many containers");
    } else {
      v = gen_jv(s, (int) s.range(0, 5));
      for (int i = 0; i < 2 && v.k != JV::ARR && v.k != JV::OBJ; i++) v = gen_jv(s, (int) s.range(2, 5));
      int lvl = (int) s.below(2);
      jprint(s, v, t, lvl);
      if (kind == 1) t = mutate(t);
    }
    hist += "JSON.parse " + quote(t) + "\n";
    c.show(hist);
    JParse st(t, false), rl(t, true);
    JV sv, rv;
    bool strict = st.all(sv), relaxed = rl.all(rv);
    if (kind == 0 && !strict) failf("the generator printed text that is not JSON");
    mjs_val_t r = MJS_UNDEFINED;
    int how = s.weighted({3, 2, 1});
    int e;
    long live = vf_live();
    if (how == 0) {
      mjs_set(m, mjs_get_global(m), "T", ~0, mkstr(m, t));
      e = vm.exec("JSON.parse(T)", nullptr, &r);
    } else if (how == 1) {
      char *b = (char *) malloc(t.size() ? t.size() : 1);  // exactly the bytes
      memcpy(b, t.data(), t.size());
      if (s.chance(1, 2)) {
        e = mjs_json_parse(m, b, t.size(), &r);
      } else {
        mjs_set(m, mjs_get_global(m), "T", ~0, mjs_mk_string(m, b, t.size(), 0));
        e = vm.exec("JSON.parse(T)", nullptr, &r);
        mjs_set(m, mjs_get_global(m), "T", ~0, MJS_UNDEFINED);
      }
      free(b);
    } else {
      e = t.size() < 3000 ? vm.exec("JSON.parse(" + js_str(s, t) + ")", nullptr, &r) : vm.exec("JSON.parse(T)", nullptr, &r);
      if (t.size() >= 3000) return;
    }
    bool utf = valid_utf8(t);
    bool deep = st.maxdepth > 500 || rl.maxdepth > 500;
    if (e != 0 && e != MJS_TYPE_ERROR) failf("error %d for %s", e, quote(t).c_str());
    if (strict && utf && !st.high_u && !deep) {
      if (e) failf("valid JSON is rejected (%s): %s", vm.err().c_str(), quote(t).c_str());
      good++;
    }
    if (strict && e == 0 && !st.high_u) {
      std::string a = jcanon(m, r), b = jcanon(sv);
      if (a != b) failf("%s yields %s, expected %s", quote(t).c_str(), a.c_str(), b.c_str());
      if (sv.k == JV::OBJ || sv.k == JV::ARR) big++;
    }
    if (!relaxed && utf && e == 0) failf("accepts text that is not JSON: %s yields %s", quote(t).c_str(), jcanon(m, r).c_str());
    if (!relaxed) bad++;
    c.label(strict ? (e ? "valid, rejected (depth or \\u)" : "valid, accepted") : relaxed ? "relaxed grammar" : "invalid");
  }
  void run() {
    struct mjs *m = vm.m;
    vm.exec("let T; let keep = {a: [1, 'keep this string', {b: 2}]};");
    int n = (int) s.range(1, 6);
    if (s.chance(1, 3)) {
      g_step.gc_den = (unsigned) s.range(1, 4);
      g_step.gc_state = s.bits(32);
    }
    mjs_val_t held = MJS_UNDEFINED;
    mjs_own(m, &held);
    try {
      for (int i = 0; i < n; i++) one();
      std::string out;
      if (vm.exec("keep", &out) != 0 || out != "{\"a\":[3|0:1|1:\"keep this string\"|2:{\"b\":2}]}") failf("another value changed: %s", out.c_str());
      std::string miss;
      mjs_val_t r;
      int e = vm.exec("JSON.parse('[1,{\"a\":[true]},\"x\"]')", &out);
      if (e || out != "[3|0:1|1:{\"a\":[1|0:true]}|2:\"x\"]") failf("a later parse yields %s", out.c_str());
      if (vm.exec("JSON.parse(" + s.pick(std::vector<std::string>{"1", "null", "{}", "undefined", "[]", "true", ""}) + ")") != MJS_TYPE_ERROR) failf("JSON.parse of a value that is not a string does not fail");
    } catch (Fail &f) {
      mjs_disown(m, &held);
      throw;
    }
    mjs_disown(m, &held);
    c.nontrivial = good + bad >= 1 && (big >= 1 || bad >= 1);
    vm.destroy();
  }
};
}  // namespace

void prop_case(Src &s, Case &c) { Run(s, c).run(); }
