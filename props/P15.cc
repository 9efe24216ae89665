// P15: script functions given to C as callbacks are called with exactly the
// values C passes, for as long as they are registered.
#include "ffim.h"
const char *PROP_ID = "P15";

namespace {
struct Run;
Run *R;
long host(int variant, long *a);
template <int V>
__attribute__((noinline)) long recv_w(long a0, long a1, long a2, long a3, long a4, long a5) {
  long a[6] = {a0, a1, a2, a3, a4, a5};
  return host(V, a);
}
void *fptr(int v) {
  static void *t[4] = {(void *) recv_w<0>, (void *) recv_w<1>, (void *) recv_w<2>, (void *) recv_w<3>};
  return t[v];
}
void *resolver(void *, const char *name);
typedef long (*cb_t)(long, long, long, long, long, long, double, double);

struct Cb {
  int ret;
  std::vector<int> args;
  bool ok;
};
struct Fn {  // an imported function that takes a callback
  Cb cb;
  std::vector<int> args;  // K_CB, K_USER and others
  std::string text, name;
  int variant;
  int ret;
};
struct Slot {
  bool used = false;
  long cb = 0, ud = 0;
  int fn, func, user;
};
struct Val {  // a value passed by C
  int kind;
  long w = 0;
  double d = 0;
  std::string s;
  bool null = false;
};

enum { USERS = 8 };
struct Run {
  Src &s;
  Case &c;
  VM vm;
  MHeap h;
  std::string hist, bad;
  std::vector<Fn> fns;
  std::vector<MV> users;
  std::vector<Slot> slots;
  std::set<std::pair<int, int>> registered;
  int nfuncs = 3;
  std::map<int, std::string> fresh;  // values nothing but the registration keeps alive, as text
  int cbcalls = 0, frees = 0, later = 0, depth = 0, errors = 0;
  // current host call
  struct Host {
    int fn, func, user, times;
    int slot;
    bool fail_last;
    long ret;
    std::vector<std::string> strs;
    bool entered;
  };
  Host *hc = nullptr;
  // current callback
  struct Call {
    int func, user;
    const Cb *cb;
    std::vector<Val> v;
    bool fail;
    MV ret;
    int action;
    int seen;
  };
  Call *cc = nullptr;
  Run(Src &s, Case &c) : s(s), c(c) {
    R = this;
    h.m = vm.m;
  }
  void note(const std::string &t) {
    hist += t + "\n";
    c.show(hist);
  }
  void wrong(const std::string &t) {
    if (bad.empty()) bad = t;
  }
  // ---- generation
  std::string cbtext(const Cb &b) {
    std::string t = fk_text(s, b.ret) + fsp(s) + "(*)" + fsp(s) + "(";
    for (size_t i = 0; i < b.args.size(); i++) t += (i ? "," + fsp(s) : "") + fk_text(s, b.args[i]);
    return t + ")";
  }
  void declare() {
    Fn f;
    f.cb.ret = s.pick(std::vector<int>{K_VOID, K_INT, K_BOOL});
    int n = (int) s.range(1, 6), u = (int) s.below(n);
    f.cb.ok = true;
    if (s.chance(1, 6)) {
      n = 2;
      u = (int) s.below(2);
      f.cb.args = {K_DOUBLE, K_DOUBLE};
      f.cb.args[u] = K_USER;
    } else
      for (int i = 0; i < n; i++) {
        int k = i == u ? K_USER : s.pick(std::vector<int>{K_INT, K_INT, K_BOOL, K_STR, K_PTR, K_MGSTR});
        if (i != u && s.chance(1, 25)) {
          k = K_DOUBLE;
          if (n != 2) f.cb.ok = false;
        }
        f.cb.args.push_back(k);
      }
    int m = (int) s.range(2, 5), ci = (int) s.below(m), ui = (int) s.below(m - 1);
    if (ui >= ci) ui++;
    for (int i = 0; i < m; i++) f.args.push_back(i == ci ? K_CB : i == ui ? K_USER : s.chance(1, 2) ? K_STR : s.chance(1, 2) ? K_MGSTR : K_INT);
    f.ret = s.chance(1, 2) ? K_INT : K_VOID;
    f.variant = (int) s.below(4);
    f.name = strf("host%d", (int) fns.size());
    f.text = std::string(fk_name(f.ret)) + " " + f.name + "(";
    for (int i = 0; i < m; i++) f.text += (i ? "," + fsp(s) : "") + (f.args[i] == K_CB ? cbtext(f.cb) : fk_text(s, f.args[i]));
    f.text += ")";
    int id = (int) fns.size();
    fns.push_back(f);
    std::string src = strf("let h%d = ffi(%s);", id, js_str(s, f.text).c_str());
    note(src);
    int e = vm.exec(src);
    if (e && f.cb.ok) failf("%s is refused: %s", f.text.c_str(), vm.err().c_str());
    if (e) fns.pop_back();
  }
  Val gen_val(int k) {
    Val v;
    v.kind = k;
    switch (k) {
      case K_INT: v.w = (long) s.bits(64); if (s.chance(1, 2)) v.w = (long) (unsigned) (int) s.range(-50, 50); break;
      case K_BOOL: v.w = (long) (s.bits(32) << 32) | (long) s.below(2); break;
      case K_PTR: v.w = (long) s.bits(47); break;
      case K_DOUBLE: v.d = (double) s.range(-1000000, 1000000) / 64; break;
      case K_STR: v.s = std::string(gen_bytes(s, 100).c_str()); v.null = s.chance(1, 12); break;
      case K_MGSTR: v.s = gen_bytes(s, 100); break;
    }
    return v;
  }
  std::string expect(const Call &x, size_t i) {
    const Val &v = x.v[i];
    switch (v.kind) {
      case K_USER: return fresh.count(x.user) ? fresh[x.user] : MHeap::text(users[x.user]);
      case K_INT: return fmtnum((int) v.w);
      case K_BOOL: return v.w & 1 ? "true" : "false";
      case K_PTR: return strf("ptr %p", (void *) v.w);
      case K_DOUBLE: return fmtnum(v.d);
      default: return v.null ? "\"\"" : quote(v.s);
    }
  }
  // ---- the C side
  // C calls the callback
  void fire(long cb, long ud, int fn, int func, int user, bool fail) {
    Fn f = fns[fn];
    Call x;
    x.func = func;
    x.user = user;
    x.cb = &f.cb;
    x.fail = fail;
    x.seen = 0;
    x.action = s.weighted({4, 2, 2, depth < 2 ? 2 : 0});
    std::vector<std::string> keep(f.cb.args.size());
    std::vector<struct mg_str> ms(f.cb.args.size());
    long w[6];
    double d[2] = {0, 0};
    int wi = 0, di = 0;
    for (auto &y : w) y = (long) 0x5a5a5a5a5a5a5a5aL;
    for (size_t i = 0; i < f.cb.args.size(); i++) {
      int k = f.cb.args[i];
      x.v.push_back(gen_val(k));
      keep[i] = x.v[i].s;
      if (k == K_USER)
        w[wi++] = ud;
      else if (k == K_DOUBLE)
        d[di++ & 1] = x.v[i].d;
      else if (k == K_STR)
        w[wi++] = x.v[i].null ? 0 : (long) keep[i].c_str();
      else if (k == K_MGSTR) {
        ms[i].p = keep[i].data();
        ms[i].len = keep[i].size();
        w[wi++] = (long) &ms[i];
      } else
        w[wi++] = x.v[i].w;
    }
    if (f.cb.ret == K_INT)
      x.ret = MV::num((double) (int32_t) s.bits(32));
    else if (f.cb.ret == K_BOOL)
      x.ret = MV::boolean(s.chance(1, 2));
    std::string t;
    for (size_t i = 0; i < x.v.size(); i++) t += (i ? ", " : "") + expect(x, i);
    note(strf("// C calls the callback c%d of h%d (user %d): (%s) -> %s%s, action %d", func, fn, user, t.c_str(), MHeap::text(x.ret).c_str(), fail ? ", fails" : "", x.action));
    Call *saved = cc;
    cc = &x;
    cbcalls++;
    depth++;
    long r = ((cb_t) cb)(w[0], w[1], w[2], w[3], w[4], w[5], d[0], d[1]);
    depth--;
    cc = saved;
    if (x.seen != 1) wrong(strf("the script function ran %d times", x.seen));
    if (fail) {
      if (f.cb.ret != K_VOID && (f.cb.ret == K_INT ? (int) r : (int) (unsigned char) r) != 0) wrong("a failed callback does not return 0");
    } else if (f.cb.ret == K_INT) {
      if ((int) r != (int) x.ret.n) wrong(strf("the callback returns %d to C, expected %d", (int) r, (int) x.ret.n));
    } else if (f.cb.ret == K_BOOL) {
      if ((unsigned char) r != (x.ret.n != 0)) wrong(strf("the callback returns %d to C, expected %d", (int) (unsigned char) r, x.ret.n != 0));
    }
  }
  long on_host(int variant, long *a) {
    if (!hc) {
      wrong("a C function was called that should not be");
      return 0;
    }
    Host &x = *hc;
    x.entered = true;
    Fn f = fns[x.fn];
    if (variant != f.variant) wrong("another C function was called");
    long cb = 0, ud = 0;
    for (size_t i = 0; i < f.args.size(); i++) {
      if (f.args[i] == K_CB) cb = a[i];
      if (f.args[i] == K_USER) ud = a[i];
    }
    auto strings = [&](const char *when) {
      for (size_t i = 0; i < f.args.size(); i++) {
        std::string g;
        if (f.args[i] == K_STR)
          g = std::string((char *) a[i]);
        else if (f.args[i] == K_MGSTR)
          g = std::string(((struct mg_str *) a[i])->p, ((struct mg_str *) a[i])->len);
        else
          continue;
        if (g != x.strs[i]) wrong(strf("the string argument %d is %s %s, expected %s", (int) i, quote(g).c_str(), when, quote(x.strs[i]).c_str()));
      }
    };
    strings("on entry");
    Host *saved = hc;
    hc = nullptr;
    for (int k = 0; k < x.times; k++) {
      fire(cb, ud, x.fn, x.func, x.user, x.fail_last && k == x.times - 1);
      strings("after a callback");
    }
    hc = saved;
    if (x.slot >= 0 && slots[x.slot].used == false) {
      Slot &sl = slots[x.slot];
      sl.used = true;
      sl.cb = cb;
      sl.ud = ud;
      sl.fn = x.fn;
      sl.func = x.func;
      sl.user = x.user;
    }
    return x.ret;
  }
  // called by every callback: recv(id, this, args...)
  void on_recv() {
    struct mjs *m = vm.m;
    if (!cc) {
      wrong("a callback ran without being called");
      return mjs_return(m, MJS_UNDEFINED);
    }
    Call &x = *cc;
    x.seen++;
    int id = (int) mjs_get_double(m, mjs_arg(m, 0));
    if (id != x.func) wrong(strf("the function c%d was called, expected c%d", id, x.func));
    if (!mjs_is_undefined(mjs_arg(m, 1))) wrong("this is not undefined in a callback");
    for (size_t i = 0; i < 7; i++) {
      mjs_val_t v = mjs_arg(m, (int) i + 2);
      bool fr = i < x.v.size() && x.v[i].kind == K_USER && fresh.count(x.user);
      std::string g = fr ? ser(m, v, 3) : mjs_is_foreign(v) ? strf("ptr %p", mjs_get_ptr(m, v)) : h.text(v), e = i < x.v.size() ? expect(x, i) : "undefined";
      if (g != e) wrong(strf("argument %d of the callback is %s, expected %s", (int) i, g.c_str(), e.c_str()));
    }
    switch (x.action) {
      case 1: mjs_gc(m, 1); break;
      case 2:
        for (int i = 0; i < 40; i++) mkstr(m, "garbage that makes the string buffer grow" + std::string(i * 8, 'g'));
        break;
      case 3: {
        Call *saved = cc;
        cc = nullptr;
        call_host();
        cc = saved;
        break;
      }
    }
    if (x.fail)
      mjs_set_errorf(m, MJS_TYPE_ERROR, "callback fails");
    mjs_return(m, x.ret.k == MV::UNDEF ? MJS_UNDEFINED : h.to_real(x.ret));
  }
  // ---- the script side
  void call_host() {
    struct mjs *m = vm.m;
    Host x;
    x.fn = (int) s.below(fns.size());
    x.func = (int) s.below(nfuncs);
    x.user = (int) s.below(USERS);
    x.times = (int) s.weighted({2, 4, 2, 1});
    x.slot = s.chance(2, 3) ? (int) s.below(slots.size()) : -1;
    x.fail_last = depth == 0 && x.times && s.chance(1, 12);
    x.ret = (long) (int32_t) s.bits(32);
    x.entered = false;
    Fn f = fns[x.fn];
    std::string al, uexpr = strf("U%d", x.user);
    if (s.chance(1, 3)) {
      x.user = (int) users.size();
      users.push_back(MV::undef());
      std::string t = strf("user value number %d", x.user);
      switch (s.below(4)) {
        case 0: uexpr = strf("'user value ' + 'number %d'", x.user); fresh[x.user] = quote(t); break;
        case 1: uexpr = strf("['user value number %d']", x.user); fresh[x.user] = "[1|0:" + quote(t) + "]"; break;
        case 2: uexpr = strf("{property: {value: 'user value number %d'}}", x.user); fresh[x.user] = "{\"property\":{\"value\":" + quote(t) + "}}"; break;
        default: uexpr = strf("chr(%d) + 'user value number %d'", 65 + x.user % 26, x.user); fresh[x.user] = quote((char) (65 + x.user % 26) + t); break;
      }
    }
    for (size_t i = 0; i < f.args.size(); i++) {
      if (i) al += ", ";
      x.strs.push_back("");
      switch (f.args[i]) {
        case K_CB: al += strf("c%d", x.func); break;
        case K_USER: al += uexpr; break;
        case K_STR: x.strs.back() = std::string(gen_bytes(s, 60).c_str()); al += js_str(s, x.strs.back()); break;
        case K_MGSTR: x.strs.back() = gen_bytes(s, 60); al += js_str(s, x.strs.back()); break;
        default: al += "7";
      }
    }
    std::string src = strf("h%d(%s)", x.fn, al.c_str());
    note(src + (fresh.count(x.user) ? std::string() : strf("  // U%d = %s", x.user, MHeap::text(users[x.user]).c_str())));
    if (!fresh.count(x.user)) registered.insert({x.func, x.user});
    Host *saved = hc;
    hc = &x;
    mjs_val_t r = MJS_UNDEFINED;
    int e = mjs_exec(m, src.c_str(), &r);
    hc = saved;
    if (!x.entered) wrong(strf("%s: the C function was not called: %s", src.c_str(), mjs_strerror(m, (mjs_err_t) e)));
    if (e != (x.fail_last ? MJS_TYPE_ERROR : MJS_OK)) wrong(strf("%s: error %d", src.c_str(), e));
    if (!e) {
      std::string g = ser(m, r, 1), ex = f.ret == K_INT ? fmtnum((int) x.ret) : "undefined";
      if (g != ex) wrong(strf("%s yields %s, expected %s", src.c_str(), g.c_str(), ex.c_str()));
    } else
      errors++;
  }
  void run();
};
long host(int variant, long *a) { return R->on_host(variant, a); }
void *resolver(void *, const char *name) {
  for (auto &f : R->fns)
    if (f.name == name) return fptr(f.variant);
  return nullptr;
}
void f_recv(struct mjs *m) { R->on_recv(); }

void Run::run() {
  struct mjs *m = vm.m;
  mjs_set_ffi_resolver(m, resolver);
  mjs_val_t g = mjs_get_global(m);
  mjs_set(m, g, "recv", ~0, mjs_mk_foreign_func(m, (mjs_func_ptr_t) f_recv));
  for (int i = 0; i < 2; i++) h.add(i ? mjs_mk_array(m) : mjs_mk_object(m), i);
  users = {MV::null(), MV::num(5), MV::obj(0), MV::obj(1), MV::str("ab"), MV::str("a long user data string " + gen_bytes(s, 20)), MV::num(-0.5), MV::boolean(true)};
  for (size_t i = 0; i < users.size(); i++) mjs_set(m, g, strf("U%d", (int) i).c_str(), ~0, h.to_real(users[i]));
  for (int i = 0; i < nfuncs; i++) {
    std::string src = strf("let c%d = function(a, b, c, d, e, f, g) { let s = 'x' + 'y'; let r = recv(%d, this, a, b, c, d, e, f, g); return r; };", i, i);
    if (vm.exec(src)) failf("callback definition");
  }
  slots.resize(4);
  if (s.chance(1, 2)) {
    g_step.gc_den = (unsigned) s.range(1, 8);
    g_step.gc_state = s.bits(32);
  }
  declare();
  int n = (int) s.range(2, 22);
  for (int q = 0; q < n && bad.empty(); q++) {
    if (fns.empty()) {
      declare();
      continue;
    }
    switch (s.weighted({fns.size() < 6 ? 3 : 0, 6, 5, 2, 1})) {
      case 0: declare(); break;
      case 1: call_host(); break;
      case 2: {  // C calls a stored callback later
        Slot &sl = slots[s.below(slots.size())];
        if (!sl.used) break;
        later++;
        Slot cp = sl;
        bool fail = s.chance(1, 15);
        if (fail) errors++;
        fire(cp.cb, cp.ud, cp.fn, cp.func, cp.user, fail);
        break;
      }
      case 3: {
        int f = (int) s.below(nfuncs), u = (int) s.below(USERS);
        if (!registered.empty() && s.chance(2, 3)) {
          auto it = registered.begin();
          std::advance(it, s.below(registered.size()));
          f = it->first;
          u = it->second;
        }
        std::string src = strf("ffi_cb_free(c%d, U%d)", f, u), out;
        note(src);
        int e = vm.exec(src, &out);
        int had = (int) registered.erase({f, u});
        if (e || out != strf("%d", had)) failf("%s yields %s (error %d), expected %d", src.c_str(), out.c_str(), e, had);
        for (auto &sl : slots)
          if (sl.used && sl.func == f && sl.user == u) sl.used = false;
        frees += had;
        if (vm.exec(src, &out) || out != "0") failf("%s a second time yields %s", src.c_str(), out.c_str());
        break;
      }
      default:
        note("gc");
        mjs_gc(m, 1);
        break;
    }
  }
  if (!bad.empty()) failf("%s", bad.c_str());
  if (frees) c.label("freed");
  if (later) c.label("called later");
  if (errors) c.label("callback error");
  c.nontrivial = cbcalls >= 3;
  R = nullptr;
  vm.destroy();
}
}  // namespace

void prop_case(Src &s, Case &c) { Run(s, c).run(); }
