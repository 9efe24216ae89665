// P11: JSON.stringify yields JSON text that denotes exactly the value.
#include "jsonm.h"
#include "mv.h"
const char *PROP_ID = "P11";
extern "C" mjs_err_t mjs_json_stringify(struct mjs *mjs, mjs_val_t v, char *buf, size_t size, char **res);

namespace {
struct Run {
  Src &s;
  Case &c;
  VM vm;
  std::vector<mjs_val_t *> owned;
  // built containers that may be shared: canonical text and value
  std::vector<std::pair<std::string, mjs_val_t *>> built;
  int circ = 0, cont = 0, shared = 0;
  Run(Src &s, Case &c) : s(s), c(c) {}
  ~Run() {
    for (auto p : owned) delete p;
  }
  mjs_val_t *own(mjs_val_t v) {
    auto *p = new mjs_val_t(v);
    mjs_own(vm.m, p);
    owned.push_back(p);
    return p;
  }
  void dedupe(JV &v) {
    for (auto &x : v.a) dedupe(x);
    std::vector<std::pair<std::string, JV>> o;
    std::set<std::string> seen;
    for (auto &p : v.o)
      if (seen.insert(p.first).second) {
        dedupe(p.second);
        o.push_back(p);
      }
    v.o = o;
  }
  // turn some leaves into references to an ancestor (n: how many levels up)
  void circles(JV &v, int depth) {
    for (auto &x : v.a) circles(x, depth + 1);
    for (auto &p : v.o) circles(p.second, depth + 1);
    if (v.k != JV::ARR && v.k != JV::OBJ && depth > 0 && s.chance(1, 8)) {
      v.k = JV::CIRC;
      v.n = (double) s.range(1, depth);
      circ++;
    }
  }
  static bool has_circ(const JV &v) {
    if (v.k == JV::CIRC) return true;
    for (auto &x : v.a)
      if (has_circ(x)) return true;
    for (auto &p : v.o)
      if (has_circ(p.second)) return true;
    return false;
  }
  mjs_val_t leaf(const JV &v) {
    struct mjs *m = vm.m;
    switch (v.k) {
      case JV::NUL: return mjs_mk_null();
      case JV::TRUE: return mjs_mk_boolean(m, 1);
      case JV::FALSE: return mjs_mk_boolean(m, 0);
      case JV::NUM: return mjs_mk_number(m, v.n);
      case JV::STR: return mkstr(m, v.s);
      case JV::FUN: return s.chance(1, 3) ? mjs_mk_foreign(m, (void *) (uintptr_t) 0x1234) : s.chance(1, 2) ? vm.global("log") : vm.global("F");
      default: return MJS_UNDEFINED;
    }
  }
  mjs_val_t *build(const JV &v, std::vector<mjs_val_t *> &up) {
    struct mjs *m = vm.m;
    if (v.k == JV::CIRC) return up[up.size() - (size_t) v.n];
    if (v.k != JV::ARR && v.k != JV::OBJ) return own(leaf(v));
    cont++;
    bool hc = has_circ(v);
    std::string key = hc ? "" : jcanon(v);
    if (!hc)
      for (auto &b : built)
        if (b.first == key && s.chance(1, 2)) {
          shared++;
          return b.second;
        }
    mjs_val_t *o = own(v.k == JV::ARR ? mjs_mk_array(m) : mjs_mk_object(m));
    up.push_back(o);
    // members in random order
    size_t n = v.k == JV::ARR ? v.a.size() : v.o.size();
    std::vector<size_t> ord(n);
    for (size_t i = 0; i < n; i++) ord[i] = i;
    if (s.chance(1, 2))
      for (size_t i = n; i > 1; i--) std::swap(ord[i - 1], ord[s.below(i)]);
    bool push = v.k == JV::ARR && s.chance(1, 2);
    for (size_t q = 0; q < n; q++) {
      size_t i = push ? q : ord[q];
      const JV &x = v.k == JV::ARR ? v.a[i] : v.o[i].second;
      if (!push && v.k == JV::ARR && x.k == JV::UNDEF && i + 1 < n && s.chance(1, 2)) continue;  // a hole
      mjs_val_t *r = build(x, up);
      if (v.k == JV::OBJ)
        mjs_set(m, *o, v.o[i].first.data(), v.o[i].first.size(), *r);
      else if (push)
        mjs_array_push(m, *o, *r);
      else
        mjs_array_set(m, *o, i, *r);
    }
    up.pop_back();
    if (!hc) built.push_back({key, o});
    return o;
  }
  // does the parsed text denote the value?
  void compare(const JV &e, const JV &g, const std::string &path) {
    auto bad = [&](const char *what) { failf("%s at %s", what, path.c_str()); };
    switch (e.k) {
      case JV::UNDEF:
      case JV::FUN:
        if (g.k != JV::NUL) bad("an element without a JSON form is not null");
        return;
      case JV::NUM:
        if (!std::isfinite(e.n)) {
          if (g.k != JV::NUL) bad("NaN or infinity is not null");
          return;
        }
        if (g.k != JV::NUM) bad("not a number");
        if (e.n == floor(e.n) ? e.n != g.n : fabs(e.n - g.n) > 5.0001e-7 + fabs(e.n) * 4e-16)
          failf("number %.17g became %.17g at %s", e.n, g.n, path.c_str());
        return;
      case JV::STR:
        if (g.k != JV::STR) bad("not a string");
        if (g.s != e.s) failf("string %s became %s at %s", quote(e.s).c_str(), quote(g.s).c_str(), path.c_str());
        return;
      case JV::ARR:
        if (g.k != JV::ARR) bad("not an array");
        if (g.a.size() != e.a.size()) failf("array of %d elements became one of %d at %s", (int) e.a.size(), (int) g.a.size(), path.c_str());
        for (size_t i = 0; i < e.a.size(); i++) compare(e.a[i], g.a[i], path + strf("[%d]", (int) i));
        return;
      case JV::OBJ: {
        if (g.k != JV::OBJ) bad("not an object");
        std::map<std::string, const JV *> mp;
        for (auto &p : g.o)
          if (!mp.emplace(p.first, &p.second).second) failf("name %s appears twice at %s", quote(p.first).c_str(), path.c_str());
        size_t n = 0;
        for (auto &p : e.o) {
          auto f = mp.find(p.first);
          if (p.second.k == JV::UNDEF || p.second.k == JV::FUN) {
            if (f != mp.end()) failf("member %s without a JSON form is not left out at %s", quote(p.first).c_str(), path.c_str());
            continue;
          }
          if (f == mp.end()) failf("member %s is missing at %s", quote(p.first).c_str(), path.c_str());
          n++;
          compare(p.second, *f->second, path + "." + p.first.substr(0, 12));
        }
        if (n != mp.size()) bad("there are additional members");
        return;
      }
      default:
        if (g.k != e.k) bad("wrong kind of value");
    }
  }
  void check_text(const JV &v, const std::string &t, const char *how) {
    JParse p(t, false);
    p.circ = true;
    JV g;
    if (!p.all(g)) failf("%s: not JSON (position %d): %s", how, (int) p.i, quote(t).c_str());
    try {
      compare(v, g, "value");
    } catch (Fail &f) {
      failf("%s: %s; text %s", how, f.msg.c_str(), quote(t).c_str());
    }
  }
  void run() {
    struct mjs *m = vm.m;
    vm.exec("let V; let F = function(a) { return a; };");
    if (s.chance(1, 40)) return deep();
    JV v = gen_jv(s, (int) s.range(0, 5), true, true);
    for (int i = 0; i < 4 && v.k != JV::ARR && v.k != JV::OBJ; i++) v = gen_jv(s, (int) s.range(2, 5), true, true);
    if (v.k == JV::UNDEF || v.k == JV::FUN) v.k = JV::NUL;
    dedupe(v);
    tweak(v);
    if (s.chance(1, 3)) circles(v, 0);
    mjs_val_t val;
    std::string shown;
    std::vector<mjs_val_t *> up;
    val = *build(v, up);
    mjs_set(m, mjs_get_global(m), "V", ~0, val);
    c.show("JSON.stringify of " + jcanon(v) + strf(" (%d circular, %d shared)", circ, shared));
    std::string before = ser(m, val, 40);
    if (s.chance(1, 3)) {
      g_step.gc_den = (unsigned) s.range(1, 4);
      g_step.gc_state = s.bits(32);
    }
    mjs_val_t r;
    int e = vm.exec("JSON.stringify(V)", nullptr, &r);
    if (e) failf("JSON.stringify: error %d (%s)", e, vm.err().c_str());
    if (!mjs_is_string(r)) failf("JSON.stringify yields %s", ser(m, r, 2).c_str());
    std::string t = getstr(m, r);
    check_text(v, t, "JSON.stringify");
    // repeated, with C buffers of any size
    int k = (int) s.range(1, 3);
    for (int i = 0; i < k; i++) {
      size_t sz = s.chance(1, 3) ? t.size() + s.below(3) : s.below(t.size() + 20);
      char *buf = (char *) malloc(sz ? sz : 1), *res = nullptr;
      mjs_err_t rc = mjs_json_stringify(m, val, sz ? buf : nullptr, sz, &res);
      std::string got = rc == MJS_OK && res ? res : "<none>";
      bool mine = res == buf;
      if (rc == MJS_OK && res && res != buf) vf_free(res);
      free(buf);
      if (rc != MJS_OK) failf("mjs_json_stringify with a buffer of %d: error %d", (int) sz, rc);
      if (got != t) failf("mjs_json_stringify with a buffer of %d yields %s, the script got %s", (int) sz, quote(got).c_str(), quote(t).c_str());
      if (mine && t.size() + 1 > sz) failf("mjs_json_stringify: text of %d bytes in a buffer of %d", (int) t.size(), (int) sz);
    }
    std::string after = ser(m, val, 40);
    if (after != before) failf("the value changed: %s, was %s", after.c_str(), before.c_str());
    // round trip
    JParse p(t, false);
    JV g;
    if (circ == 0 && p.all(g) && !p.bad_utf8) {
      e = vm.exec("JSON.parse(JSON.stringify(V))", nullptr, &r);
      if (e) failf("JSON.parse(JSON.stringify(V)): error %d (%s)", e, vm.err().c_str());
      std::string a = jcanon(m, r), b = jcanon(g);
      if (a != b) failf("JSON.parse(JSON.stringify(V)) yields %s, expected %s", a.c_str(), b.c_str());
      c.label("round trip");
      e = vm.exec("JSON.stringify(JSON.parse(JSON.stringify(V)))", nullptr, &r);
      if (e) failf("stringify after a round trip: error %d", e);
      check_text(g, getstr(m, r), "JSON.stringify after a round trip");
    }
    if (circ) c.label("circular");
    if (shared) c.label("shared");
    c.nontrivial = cont >= 2;
    vm.destroy();
  }
  void tweak(JV &v) {  // numbers at the edges of the number format
    if (v.k == JV::NUM && s.chance(1, 5)) {
      switch (s.below(6)) {
        case 0: v.n = NAN; break;
        case 1: v.n = s.chance(1, 2) ? INFINITY : -INFINITY; break;
        case 2: v.n = ldexp((double) s.range(-1000, 1000), (int) s.range(50, 1000)); break;
        case 3: v.n = (double) s.range(-2000000000, 2000000000) / 1000000.0; break;
        case 4: v.n = (s.chance(1, 2) ? -1 : 1) * 9223372036854775808.0; break;
        default: v.n = ldexp((double) (int64_t) s.bits(53), (int) -s.range(0, 60)); break;
      }
    }
    for (auto &x : v.a) tweak(x);
    for (auto &p : v.o) tweak(p.second);
  }
  void deep() {
    struct mjs *m = vm.m;
    int d = (int) (s.chance(1, 2) ? s.range(1, 700) : s.range(500, 530));
    c.show(strf("%d nested containers", d));
    uint64_t sh = s.bits(16);
    mjs_val_t *o = own(mjs_mk_number(m, 7));
    bool cyc = s.chance(1, 3);  // the innermost container contains one of those around it, or itself
    int up = cyc ? (int) s.below(d) : -1;
    mjs_val_t *first = nullptr;
    std::string exp = cyc ? "[Circular]" : "7";
    if (cyc) c.show(strf("%d nested containers, the innermost contains the one %d levels up", d, up));
    for (int i = 0; i < d; i++) {
      mjs_val_t n;
      bool arr = (sh >> (i % 16)) & 1;
      mjs_val_t *h = own(arr ? mjs_mk_array(m) : mjs_mk_object(m));
      if (arr)
        mjs_array_push(m, *h, *o);
      else
        mjs_set(m, *h, "k", 1, *o);
      exp = arr ? "[" + exp + "]" : "{\"k\":" + exp + "}";
      *o = *h;
      if (i == 0) first = h;
      if (i == up) {
        if (mjs_is_array(*first))
          mjs_array_set(m, *first, 0, *h);
        else
          mjs_set(m, *first, "k", 1, *h);
      }
    }
    for (int rep = 0; rep < 2; rep++) {
      mjs_set(m, mjs_get_global(m), "V", ~0, *o);
      mjs_val_t r;
      int e = vm.exec("JSON.stringify(V)", nullptr, &r);
      if (e == 0 ? getstr(m, r) != exp : d <= 500) failf("%d levels: error %d, %s", d, e, e == 0 ? quote(getstr(m, r)).c_str() : vm.err().c_str());
      c.label(e ? "deep: rejected" : cyc ? "deep: printed, circular" : "deep: printed");
      if (cyc) continue;
      // what failed leaves no trace: the inner value is still printed
      mjs_val_t in = d > 600 ? MJS_UNDEFINED : *o;
      std::string t = exp;
      int cut = d > 400 ? d - 400 : 0;
      in = *o;
      for (int i = 0; i < cut; i++) in = mjs_is_array(in) ? mjs_array_get(m, in, 0) : mjs_get(m, in, "k", 1);
      mjs_set(m, mjs_get_global(m), "V", ~0, in);
      e = vm.exec("JSON.stringify(V)", nullptr, &r);
      if (e) failf("stringify of %d levels after one of %d: error %d (%s)", d - cut, d, e, vm.err().c_str());
      JParse p(getstr(m, r) + "", false);
      std::string tt = getstr(m, r);
      JParse pp(tt, false);
      JV g;
      if (!pp.all(g) || pp.maxdepth != d - cut) failf("stringify of %d levels after one of %d yields %s", d - cut, d, quote(tt).c_str());
    }
    c.nontrivial = true;
    vm.destroy();
  }
};
}  // namespace

void prop_case(Src &s, Case &c) { Run(s, c).run(); }
