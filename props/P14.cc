// P14: an FFI call passes exactly the arguments to exactly the named C function
// and returns exactly its result, or fails without calling it.
#include "ffim.h"
const char *PROP_ID = "P14";

namespace {
struct Run;
Run *R;
void record(int variant, long *a, double *d);
long g_rw;
double g_rd;
float g_rf;

template <int V>
__attribute__((noinline)) long recv_w(long a0, long a1, long a2, long a3, long a4, long a5, double d0, double d1, double d2, double d3, double d4, double d5) {
  long a[6] = {a0, a1, a2, a3, a4, a5};
  double d[6] = {d0, d1, d2, d3, d4, d5};
  record(V, a, d);
  return g_rw;
}
template <int V>
__attribute__((noinline)) double recv_d(long a0, long a1, long a2, long a3, long a4, long a5, double d0, double d1, double d2, double d3, double d4, double d5) {
  long a[6] = {a0, a1, a2, a3, a4, a5};
  double d[6] = {d0, d1, d2, d3, d4, d5};
  record(V, a, d);
  return g_rd;
}
template <int V>
__attribute__((noinline)) float recv_f(long a0, long a1, long a2, long a3, long a4, long a5, double d0, double d1, double d2, double d3, double d4, double d5) {
  long a[6] = {a0, a1, a2, a3, a4, a5};
  double d[6] = {d0, d1, d2, d3, d4, d5};
  record(V, a, d);
  return g_rf;
}
void *fptr(int cls, int v) {
  static void *t[3][4] = {{(void *) recv_w<0>, (void *) recv_w<1>, (void *) recv_w<2>, (void *) recv_w<3>},
                          {(void *) recv_d<0>, (void *) recv_d<1>, (void *) recv_d<2>, (void *) recv_d<3>},
                          {(void *) recv_f<0>, (void *) recv_f<1>, (void *) recv_f<2>, (void *) recv_f<3>}};
  return t[cls][v];
}
void *resolver(void *, const char *name);

struct Arg {
  int kind;
  MV v;           // script value (numbers, strings, booleans, null)
  void *ptr = nullptr;
  bool foreign = false;
  bool wrong = false;
};
struct Fn {
  FSig sig;
  int variant;
  std::string text;
  bool ok;        // must be accepted and callable
  int where;      // how the script keeps it
};

struct Run {
  Src &s;
  Case &c;
  VM vm;
  std::string hist;
  std::vector<Fn> fns;
  // current call
  Fn *cur = nullptr;
  std::vector<Arg> cargs;
  int called = 0, calls = 0, rejected = 0;
  std::string bad;
  std::map<std::string, void *> names;
  std::string retbuf;
  Run(Src &s, Case &c) : s(s), c(c) { R = this; }
  void note(const std::string &t) {
    hist += t + "\n";
    c.show(hist);
  }
  void wrong(const std::string &t) {
    if (bad.empty()) bad = t;
  }
  void on_call(int variant, long *a, double *d) {
    called++;
    if (!cur) return wrong("a C function was called that should not be");
    if (variant != cur->variant) return wrong("another C function was called");
    int wi = 0, di = 0;
    for (size_t i = 0; i < cargs.size(); i++) {
      Arg &x = cargs[i];
      long w = 0;
      double dv = 0;
      if (fk_fp(x.kind))
        dv = d[di++];
      else
        w = a[wi++];
      std::string e, g;
      switch (x.kind) {
        case K_INT:
          e = strf("%d", x.v.k == MV::BOOL ? (int) x.v.n : (int) (unsigned) (long long) x.v.n);
          g = strf("%d", (int) w);
          break;
        case K_BOOL:
          e = strf("%d", x.v.n != 0);
          g = strf("%d", (int) (unsigned char) w);
          break;
        case K_DOUBLE:
          e = strf("%.17g", x.v.n);
          g = strf("%.17g", dv);
          if (std::isnan(x.v.n) && std::isnan(dv)) g = e;
          break;
        case K_FLOAT: {
          float f;
          memcpy(&f, &dv, 4);
          e = strf("%.17g", (double) (float) x.v.n);
          g = strf("%.17g", (double) f);
          if (std::isnan(x.v.n) && std::isnan(f)) g = e;
          break;
        }
        case K_STR:
          e = x.v.k == MV::NUL ? "NULL" : quote(x.v.s);
          g = w ? quote(std::string((char *) w)) : "NULL";
          break;
        case K_PTR:
          if (x.v.k == MV::STR) {
            e = quote(x.v.s);
            g = w ? quote(std::string((char *) w, x.v.s.size())) : "NULL";
          } else {
            e = strf("%p", x.ptr);
            g = strf("%p", (void *) w);
          }
          break;
        case K_MGSTR: {
          struct mg_str *m = (struct mg_str *) w;
          e = quote(x.v.s);
          g = quote(std::string(m->p, m->len));
          break;
        }
      }
      if (e != g) wrong(strf("argument %d (%s) is %s, expected %s", (int) i, fk_name(x.kind), g.c_str(), e.c_str()));
    }
  }
  std::string sigtext(const FSig &f) {
    std::string t = fsp(s) + fk_text(s, f.ret);
    t += t.back() == '*' ? fsp(s) : " " + fsp(s);
    t += f.name + fsp(s) + "(" + (f.args.empty() ? "" : fsp(s));
    for (size_t i = 0; i < f.args.size(); i++) t += (i ? "," + fsp(s) : "") + fk_text(s, f.args[i]) + fsp(s);
    if (f.args.empty() && s.chance(1, 2)) t += "void";
    return t + ")" + fsp(s) + (s.chance(1, 6) ? ";" : "");
  }
  double anynum() {
    switch (s.below(5)) {
      case 0: return (double) s.range(-100, 100);
      case 1: return (double) s.range(-1000000, 1000000) / 128;
      case 2: return ldexp((double) (int64_t) s.bits(53), (int) s.range(-200, 200)) * (s.chance(1, 2) ? -1 : 1);
      case 3: return s.pick(std::vector<double>{0, 1e308, -1e-308, INFINITY, -INFINITY, 0.1, 3.4e38, 1.5e-45});
      default: return (double) (int32_t) s.bits(32);
    }
  }
  Arg gen_arg(int k) {
    Arg a;
    a.kind = k;
    if (!fk_fp(k) && s.chance(1, 30)) {
      a.wrong = true;
      std::vector<MV> w = {MV::undef(), MV::obj(0)};
      if (k == K_INT || k == K_BOOL) {
        w.push_back(MV::str("12"));
        w.push_back(MV::null());
      } else {
        w.push_back(MV::num(5));
        w.push_back(MV::boolean(true));
        if (k == K_MGSTR) w.push_back(MV::null());
      }
      a.v = s.pick(w);
      return a;
    }
    switch (k) {
      case K_INT:
        switch (s.weighted({4, 3, 2, 1})) {
          case 0: a.v = MV::num((double) s.range(-200, 200)); break;
          case 1: a.v = MV::num((double) (int32_t) s.bits(32)); break;
          case 2: a.v = MV::num((double) (uint32_t) s.bits(32)); break;
          default: a.v = MV::boolean(s.chance(1, 2));
        }
        break;
      case K_BOOL: a.v = s.chance(2, 3) ? MV::boolean(s.chance(1, 2)) : MV::num((double) s.pick(std::vector<int>{0, 1, -1, 256, 77})); break;
      case K_DOUBLE:
      case K_FLOAT: a.v = MV::num(s.chance(1, 20) ? NAN : anynum()); break;
      case K_STR: {
        if (s.chance(1, 8)) {
          a.v = MV::null();
          break;
        }
        std::string b = gen_bytes(s, 200);
        for (auto &ch : b)
          if (!ch) ch = 'z';
        a.v = MV::str(b);
        break;
      }
      case K_PTR:
        if (s.chance(1, 8)) {
          a.v = MV::null();
        } else if (s.chance(1, 4)) {
          a.v = MV::str(gen_bytes(s, 200));
        } else {
          a.foreign = true;
          a.ptr = (void *) (uintptr_t) (s.chance(1, 8) ? 0 : s.bits(47));
        }
        break;
      case K_MGSTR: a.v = MV::str(gen_bytes(s, 200)); break;
    }
    return a;
  }
  mjs_val_t real(const Arg &a) {
    struct mjs *m = vm.m;
    if (a.foreign) return mjs_mk_foreign(m, a.ptr);
    switch (a.v.k) {
      case MV::NUL: return mjs_mk_null();
      case MV::BOOL: return mjs_mk_boolean(m, a.v.n != 0);
      case MV::NUM: return mjs_mk_number(m, a.v.n);
      case MV::STR: return mkstr(m, a.v.s);
      case MV::REF: return vm.global("OBJ");
      default: return MJS_UNDEFINED;
    }
  }
  std::string atext(const Arg &a) { return a.foreign ? strf("%p", a.ptr) : MHeap::text(a.v); }
  void declare() {
    Fn f;
    f.sig.ret = (int) s.pick(std::vector<int>{K_VOID, K_INT, K_INT, K_BOOL, K_DOUBLE, K_DOUBLE, K_FLOAT, K_STR, K_PTR});
    int mode = s.weighted({4, 3, 2, 2});  // words, doubles, floats, anything
    int n = mode == 0 ? (int) s.range(0, 6) : mode == 3 ? (int) s.range(0, 6) : (int) s.range(1, 3);
    if (s.chance(1, 40)) n = 7;
    for (int i = 0; i < n; i++) {
      int k = s.pick(std::vector<int>{K_INT, K_INT, K_BOOL, K_STR, K_PTR, K_MGSTR});
      if (mode == 1 && s.chance(1, 2)) k = K_DOUBLE;
      if (mode == 2 && s.chance(1, 2)) k = K_FLOAT;
      if (mode == 3 && s.chance(1, 4)) k = s.chance(1, 2) ? K_DOUBLE : K_FLOAT;
      f.sig.args.push_back(k);
    }
    f.sig.name = gen_name(s);
    while (names.count(f.sig.name)) f.sig.name += "q";
    int nd = 0, nf = 0;
    for (int k : f.sig.args) {
      nd += k == K_DOUBLE;
      nf += k == K_FLOAT;
    }
    f.ok = n <= 6 && (nd + nf == 0 || (n <= 3 && (nd == 0 || nf == 0)));
    if (nd && f.sig.ret == K_FLOAT) f.ok = false;
    if (nf && f.sig.ret == K_DOUBLE) f.ok = false;
    f.variant = (int) s.below(4);
    int cls = f.sig.ret == K_DOUBLE ? 1 : f.sig.ret == K_FLOAT ? 2 : 0;
    names[f.sig.name] = fptr(cls, f.variant);
    f.text = sigtext(f.sig);
    f.where = (int) s.below(4);
    int i = (int) fns.size();
    std::string e = "ffi(" + js_str(s, f.text) + ")", src;
    switch (f.where) {
      case 0: src = strf("let f%d = %s;", i, e.c_str()); break;
      case 1: src = strf("let f%d = {g: %s};", i, e.c_str()); break;
      case 2: src = strf("let f%d = [0, %s];", i, e.c_str()); break;
      default: src = strf("let f%d = 0;", i);  // declared at every call
    }
    note(src + (f.where == 3 ? "  // " + e : "") + (f.ok ? "" : "  // may be refused"));
    int err = vm.exec(src);
    if (err && f.ok) failf("%s is refused: %s", f.text.c_str(), vm.err().c_str());
    if (err && err != MJS_TYPE_ERROR) failf("%s: error %d", f.text.c_str(), err);
    if (err) {
      f.where = 3;
      rejected++;
      vm.exec(strf("let f%d = 0;", i));
    }
    fns.push_back(f);
    if (!err && f.ok && s.chance(1, 4)) {  // a value like another function
      std::string x = fexpr(i), out;
      int e2 = vm.exec("let tt = " + x + "; [tt ? 1 : 0, !tt, tt && 5, (tt || 6) === 6, typeof tt === typeof function() {}]", &out);
      if (e2) failf("testing %s: error %d (%s)", x.c_str(), e2, vm.err().c_str());
      std::string out2;
      vm.exec("[1, false, 5, false, true]", &out2);
      if (out != out2) failf("%s as a condition, negated, with && and || and typeof: %s", x.c_str(), out.c_str());
    }
  }
  std::string fexpr(int i) {
    switch (fns[i].where) {
      case 0: return strf("f%d", i);
      case 1: return strf("f%d.g", i);
      case 2: return strf("f%d[1]", i);
      default: return "ffi(" + js_str(s, fns[i].text) + ")";
    }
  }
  void call() {
    struct mjs *m = vm.m;
    int i = (int) s.below(fns.size());
    Fn &f = fns[i];
    cur = &f;
    cargs.clear();
    bool mismatch = false;
    for (int k : f.sig.args) {
      cargs.push_back(gen_arg(k));
      mismatch = mismatch || cargs.back().wrong;
    }
    std::vector<mjs_val_t> vals;
    std::string al, shown;
    int na = (int) cargs.size(), extra = 0;
    if (s.chance(1, 25)) {
      extra = na && s.chance(1, 2) ? -1 : 1;
      mismatch = true;
    }
    for (int k = 0; k < na + extra; k++) {
      Arg x = k < na ? cargs[k] : Arg();
      std::string nm = strf("A%d", k);
      mjs_set(m, mjs_get_global(m), nm.c_str(), ~0, k < na ? real(x) : mjs_mk_number(m, 1));
      al += (k ? ", " : "") + nm;
      shown += (k ? ", " : "") + (k < na ? atext(x) : "1");
    }
    // what the function returns
    std::string exp = "undefined";
    g_rw = (long) s.bits(64);
    g_rd = 0;
    g_rf = 0;
    void *rp = nullptr;
    switch (f.sig.ret) {
      case K_INT: exp = fmtnum((int) g_rw); break;
      case K_BOOL: {
        bool b = g_rw & 1;
        g_rw = (g_rw & ~0xffL) | b;
        exp = b ? "true" : "false";
        break;
      }
      case K_DOUBLE: g_rd = anynum(); exp = fmtnum(g_rd); break;
      case K_FLOAT: g_rf = (float) anynum(); exp = fmtnum(g_rf); break;
      case K_STR:
        if (s.chance(1, 8)) {
          g_rw = 0;
          exp = "null";
        } else {
          retbuf = gen_bytes(s, 200).c_str();
          g_rw = (long) retbuf.c_str();
          exp = quote(retbuf);
        }
        break;
      case K_PTR:
        rp = (void *) (uintptr_t) s.bits(47);
        g_rw = (long) rp;
        exp = "<ptr>";
        break;
    }
    called = 0;
    bad.clear();
    std::string fe = fexpr(i), src;
    mjs_val_t r = MJS_UNDEFINED;
    int e, how = s.weighted({5, 2, 2, 1});
    if (how == 1)
      src = fe + ".apply(null, [" + al + "])";
    else if (how == 3)
      src = "(function() { let r = " + fe + "(" + al + "); return r; })()";
    else
      src = fe + "(" + al + ")";
    note(src + "  // f" + strf("%d", i) + ": " + f.text + " args: " + shown + " returns " + exp);
    mjs_val_t fv = MJS_UNDEFINED;
    if (how == 2 && f.where == 0) {  // from C
      fv = vm.global(strf("f%d", i).c_str());
      mjs_val_t a[8];
      for (int k = 0; k < na + extra; k++) a[k] = vm.global(strf("A%d", k).c_str());
      c.label("called from C");
      e = mjs_apply(m, &r, fv, MJS_UNDEFINED, na + extra, a);
    } else {
      e = vm.exec(src, nullptr, &r);
    }
    calls++;
    if (!bad.empty()) failf("%s: %s", f.text.c_str(), bad.c_str());
    if (e) {
      if (called) failf("%s: the call fails (%s), but the C function was called", f.text.c_str(), mjs_strerror(m, (mjs_err_t) e));
      if (f.ok && !mismatch) failf("%s: the call fails: %s", f.text.c_str(), mjs_strerror(m, (mjs_err_t) e));
      if (e != MJS_TYPE_ERROR) failf("%s: error %d", f.text.c_str(), e);
      c.label(mismatch ? "wrong arguments" : "unsupported signature");
      rejected++;
    } else {
      if (called != 1) failf("%s: no error, but the C function was called %d times", f.text.c_str(), called);
      if (mismatch) failf("%s: wrong arguments (%s) are accepted", f.text.c_str(), shown.c_str());
      std::string g = ser(m, r, 2);
      if (g != exp) failf("%s: the call yields %s, expected %s", f.text.c_str(), g.c_str(), exp.c_str());
      if (f.sig.ret == K_PTR && mjs_get_ptr(m, r) != rp) failf("%s: the call yields the pointer %p, expected %p", f.text.c_str(), mjs_get_ptr(m, r), rp);
      c.label(strf("%d arguments", na));
      for (int k : f.sig.args) c.label(fk_name(k));
    }
    cur = nullptr;
  }
  void badsig() {
    static const std::vector<std::string> t = {"", "(", "int", "int f", "int f(", "int f(int", "()", "f()", "int f(foo)", "foo f()", "int f(int, foo)", "long f()", "int nosuchfunction(int)", "struct mg_str f()", "int f(struct mg_str)",
                                               "int f(userdata)", "int f(void (*)(int))", "int f(void (*)(int, userdata))", "userdata f()", "int f(int))(", "int f(void (*)(userdata), void (*)(userdata), userdata)", "int f(void (*)(userdata, void (*)(userdata)), userdata)",
                                               "char *f(void (*)(int, userdata, userdata), userdata)", "int f(void (*)(float, userdata), userdata)", "int f(float (*)(userdata), userdata)", "int f(userdata, userdata, void (*)(userdata))", "int f(int,int,int,int,int,int,int,int,int,int)"};
    std::string x = s.pick(t);
    names["f"] = fptr(0, 0);
    if (s.chance(1, 4)) x = x.substr(0, s.below(x.size() + 1));
    if (x == "int f(int)" || x == "int f(int))") x = "int f(int";  // those are accepted
    std::string src;
    if (s.chance(1, 6))
      src = "ffi(" + s.pick(std::vector<std::string>{"", "1", "null", "{}", "undefined", "[]", "ffi"}) + ")";
    else
      src = "ffi(" + js_str(s, x) + ")";
    note(src);
    int e = vm.exec(src);
    if (e != MJS_TYPE_ERROR && e != MJS_INTERNAL_ERROR) failf("%s: error %d, expected a refusal", src.c_str(), e);
  }
  void run() {
    struct mjs *m = vm.m;
    mjs_set_ffi_resolver(m, resolver);
    vm.exec("let OBJ = {a: 1}; let A0, A1, A2, A3, A4, A5, A6, A7;");
    if (s.chance(1, 2)) {
      g_step.gc_den = (unsigned) s.range(1, 8);
      g_step.gc_state = s.bits(32);
    }
    int n = (int) s.range(2, 25);
    for (int i = 0; i < n; i++) {
      if (fns.empty() || (fns.size() < 10 && s.chance(1, 3)))
        declare();
      else if (s.chance(1, 25))
        badsig();
      else if (s.chance(1, 20)) {
        note("gc(true)");
        vm.exec(s.chance(1, 2) ? "gc(true)" : "gc(false)");
      } else
        call();
    }
    c.nontrivial = calls >= 3;
    R = nullptr;
    vm.destroy();
  }
};
void record(int variant, long *a, double *d) {
  if (R) R->on_call(variant, a, d);
}
void *resolver(void *, const char *name) {
  auto it = R->names.find(name);
  return it == R->names.end() ? nullptr : it->second;
}
}  // namespace

void prop_case(Src &s, Case &c) { Run(s, c).run(); }
