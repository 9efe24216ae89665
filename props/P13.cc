// P13: calls between C and scripts, in any nesting, pass exactly the given
// this, arguments, result or error, and leave the callers intact.
#include "mv.h"
const char *PROP_ID = "P13";

namespace {
struct Node {
  int id = 0;
  bool native = false;
  int nat = -1;        // which C function
  int nparams = 0;     // of the script function
  MV self;             // expected this
  std::vector<int> args;  // indices of pool values
  std::vector<int> kids;
  int mech = 0;        // how it is called
  int recv = 0;        // receiver object of a method call
  int wrap = 0;        // where the call expression stands (scripts)
  int ret = -1;        // pool value returned, -1: nothing
  int err = 0;         // error raised at the end
  bool handles = false;
  bool gc = false;
  // model
  bool m_entered = false;
  int m_code = 0;
  // reality
  int entered = 0;
};
enum { BY_CALL, BY_APPLY, BY_EXEC_PLAIN, BY_EXEC_METHOD, BY_EXEC_APPLY, BY_PLAIN, BY_METHOD, BY_APPLYJS };

struct Run;
Run *g_run;
const int NATS = 20;
void run_native(struct mjs *m, int nat);
template <int I>
void natf(struct mjs *m) { run_native(m, I); }
typedef void (*nat_t)(struct mjs *);
template <int I>
struct Fill {
  static void f(nat_t *t) {
    t[I] = natf<I>;
    Fill<I - 1>::f(t);
  }
};
template <>
struct Fill<-1> {
  static void f(nat_t *) {}
};
nat_t nats[NATS];

struct Run {
  Src &s;
  Case &c;
  VM vm;
  MHeap h;
  std::vector<MV> pool;
  std::vector<Node> n;
  int natcount = 0, nid = 0, maxdepth = 0;
  std::string hist, bad;
  int calls = 0, errs = 0;
  Run(Src &s, Case &c) : s(s), c(c) {
    h.m = vm.m;
    Fill<NATS - 1>::f(nats);
    g_run = this;
  }
  void note(const std::string &t) {
    hist += t + "\n";
    c.show(hist);
  }
  void wrong(const std::string &t) {
    if (bad.empty()) bad = t;
  }
  // ---- generation
  int gen(int parent, int depth) {
    int i = (int) n.size();
    n.push_back(Node());
    Node x;
    x.id = nid++;
    x.native = s.chance(1, 2) && natcount < NATS;
    if (x.native) x.nat = natcount++;
    int na = s.weighted({2, 3, 3, 2, 1, 1, 1});
    if (s.chance(1, 25)) na = (int) s.range(7, 60);
    for (int k = 0; k < na; k++) x.args.push_back((int) s.below(pool.size()));
    x.nparams = s.chance(2, 3) ? na : (int) s.range(0, na + 2);
    if (x.nparams > 20) x.nparams = 20;
    x.ret = s.chance(3, 4) ? (int) s.below(pool.size()) : -1;
    if (s.chance(1, 8)) x.err = x.native ? (int) s.range(1, 8) : MJS_REFERENCE_ERROR;
    x.handles = x.native && s.chance(1, 2);
    x.gc = s.chance(1, 4);
    x.wrap = (int) s.below(7);
    bool from_native = parent < 0 || n[parent].native;
    x.mech = from_native ? (int) s.below(5) : (int) (BY_PLAIN + s.below(3));
    x.recv = (int) s.below(h.o.size());
    switch (x.mech) {
      case BY_CALL:
      case BY_APPLY:
      case BY_EXEC_APPLY:
      case BY_APPLYJS: x.self = s.pick(pool); break;
      case BY_EXEC_METHOD:
      case BY_METHOD: x.self = MV::obj(x.recv); break;
      default: x.self = MV::undef();
    }
    if (x.mech == BY_CALL && na > 6) x.mech = BY_APPLY;
    n[i] = x;
    if (depth > maxdepth) maxdepth = depth;
    int k = depth >= 5 || n.size() > 24 ? 0 : s.weighted({3, 4, 2, 1});
    for (int q = 0; q < k; q++) {
      int kid = gen(i, depth + 1);
      n[i].kids.push_back(kid);
    }
    return i;
  }
  int sim(int i) {
    Node &x = n[i];
    x.m_entered = true;
    for (int k : x.kids) {
      int e = sim(k);
      if (e && !(x.native && x.handles)) return x.m_code = e;
    }
    return x.m_code = x.err;
  }
  MV expect(const Node &x) { return x.ret < 0 ? MV::undef() : pool[x.ret]; }
  std::string fname(const Node &x) { return strf("f%d", x.id); }
  std::string argtext(const Node &x) {
    std::string o;
    for (size_t i = 0; i < x.args.size(); i++) o += (i ? ", " : "") + strf("A%d", x.args[i]);
    return o;
  }
  std::string selftext(const Node &x) {
    for (size_t i = 0; i < pool.size(); i++)
      if (MHeap::text(pool[i]) == MHeap::text(x.self)) return strf("A%d", (int) i);
    return "undefined";
  }
  std::string callexpr(const Node &x) {
    switch (x.mech) {
      case BY_EXEC_METHOD:
      case BY_METHOD: return strf("O%d.m%d(%s)", x.recv, x.id, argtext(x).c_str());
      case BY_EXEC_APPLY:
      case BY_APPLYJS: return fname(x) + ".apply(" + selftext(x) + ", [" + argtext(x) + "])";
      default: return fname(x) + "(" + argtext(x) + ")";
    }
  }
  std::string wrapped(const Node &x) {  // statement that calls and reports
    std::string e = callexpr(x);
    switch (x.wrap) {
      case 1: return strf("res(%d, [1, %s, 3][1]);", x.id, e.c_str());
      case 2: return strf("for (let i%d = 0; i%d < 1; i%d++) { let t%d = %s; res(%d, t%d); }", x.id, x.id, x.id, x.id, e.c_str(), x.id, x.id);
      case 3: return strf("for (let k%d in {a: 1}) { res(%d, %s); }", x.id, x.id, e.c_str());
      case 4: return strf("if (true) { let t%d = {v: %s, w: 2}; res(%d, t%d.v); }", x.id, e.c_str(), x.id, x.id);
      case 5: return strf("res(%d, ident(%s, 5));", x.id, e.c_str());
      case 6: return strf("let w%d = 1; while (w%d < 2) { w%d = w%d + 1; res(%d, true ? %s : 0); continue; }", x.id, x.id, x.id, x.id, x.id, e.c_str());
      default: return strf("res(%d, %s);", x.id, e.c_str());
    }
  }
  void define(Node &x) {
    struct mjs *m = vm.m;
    mjs_val_t f;
    if (x.native) {
      f = mjs_mk_foreign_func(m, (mjs_func_ptr_t) nats[x.nat]);
      mjs_set(m, mjs_get_global(m), fname(x).c_str(), ~0, f);
      note(strf("%s: C, %s%s", fname(x).c_str(), x.handles ? "handles errors, " : "", x.err ? strf("raises error %d", x.err).c_str() : "returns ") + (x.err ? "" : MHeap::text(expect(x))));
    } else {
      std::string ps, body;
      for (int k = 0; k < x.nparams; k++) ps += (k ? ", " : "") + strf("p%d", k);
      body = strf("enter(%d, this%s%s);", x.id, x.nparams ? ", " : "", ps.c_str());
      for (int k : x.kids) body += " " + wrapped(n[k]);
      if (x.nparams) body += strf(" again(%d, this, %s);", x.id, ps.c_str());
      if (x.err)
        body += " nosuch;";
      else if (x.ret >= 0)
        body += s.chance(1, 3) ? strf(" for (let q = 0; q < 3; q++) { if (q === 1) { return A%d; } }", x.ret) : strf(" return A%d;", x.ret);
      else if (s.chance(1, 2))
        body += " return;";
      std::string src = fname(x) + " = function(" + ps + ") { " + body + " };";
      note(src);
      int e = vm.exec("let " + src);
      if (e) failf("cannot define %s: %s", src.c_str(), vm.err().c_str());
      f = vm.global(fname(x).c_str());
    }
    if (x.mech == BY_EXEC_METHOD || x.mech == BY_METHOD) {
      std::string k = strf("m%d", x.id);
      mjs_set(m, *h.real[x.recv], k.data(), k.size(), f);
      h.o[x.recv].p[k] = MV::undef();
    }
  }
  // ---- execution
  Node *by_id(int id) {
    for (auto &x : n)
      if (x.id == id) return &x;
    return nullptr;
  }
  void see_self(Node &x, mjs_val_t v, const char *when) {
    if (h.text(v) != MHeap::text(x.self)) wrong(strf("%s: this is %s %s, expected %s", fname(x).c_str(), h.text(v).c_str(), when, MHeap::text(x.self).c_str()));
  }
  void see_arg(Node &x, size_t i, mjs_val_t v, const char *when) {
    std::string e = i < x.args.size() ? MHeap::text(pool[x.args[i]]) : "undefined";
    if (h.text(v) != e) wrong(strf("%s: argument %d is %s %s, expected %s", fname(x).c_str(), (int) i, h.text(v).c_str(), when, e.c_str()));
  }
  void check_frame(Node &x, const char *when) {
    struct mjs *m = vm.m;
    if (mjs_nargs(m) != (int) x.args.size()) wrong(strf("%s: %d arguments %s, expected %d", fname(x).c_str(), mjs_nargs(m), when, (int) x.args.size()));
    for (size_t i = 0; i < x.args.size() + 2; i++) see_arg(x, i, mjs_arg(m, (int) i), when);
    see_self(x, mjs_get_this(m), when);
  }
  // calls a node from C and checks the outcome
  int call(Node &k) {
    struct mjs *m = vm.m;
    mjs_val_t r = mjs_mk_number(m, 4711), f = vm.global(fname(k).c_str());
    mjs_val_t self = h.to_real(k.self);
    int e = 0, na = (int) k.args.size();
    calls++;
    if (k.mech == BY_CALL || k.mech == BY_APPLY) {
      mjs_val_t *a = (mjs_val_t *) malloc(sizeof(mjs_val_t) * (na ? na : 1));
      for (int i = 0; i < na; i++) a[i] = h.to_real(pool[k.args[i]]);
      if (k.mech == BY_APPLY)
        e = mjs_apply(m, &r, f, self, na, a);
      else
        switch (na) {
          case 0: e = mjs_call(m, &r, f, self, 0); break;
          case 1: e = mjs_call(m, &r, f, self, 1, a[0]); break;
          case 2: e = mjs_call(m, &r, f, self, 2, a[0], a[1]); break;
          case 3: e = mjs_call(m, &r, f, self, 3, a[0], a[1], a[2]); break;
          case 4: e = mjs_call(m, &r, f, self, 4, a[0], a[1], a[2], a[3]); break;
          case 5: e = mjs_call(m, &r, f, self, 5, a[0], a[1], a[2], a[3], a[4]); break;
          default: e = mjs_call(m, &r, f, self, 6, a[0], a[1], a[2], a[3], a[4], a[5]);
        }
      free(a);
    } else {
      e = mjs_exec(m, (callexpr(k) + ";").c_str(), &r);
    }
    if (e != k.m_code)
      wrong(strf("the call of %s from C yields error %d (%s), expected %d", fname(k).c_str(), e, mjs_strerror(m, (mjs_err_t) e), k.m_code));
    else if (e == 0 && h.text(r) != MHeap::text(expect(k)))
      wrong(strf("the call of %s from C yields %s, expected %s", fname(k).c_str(), h.text(r).c_str(), MHeap::text(expect(k)).c_str()));
    return e;
  }
  void native(int nat) {
    struct mjs *m = vm.m;
    Node *xp = nullptr;
    for (auto &y : n)
      if (y.nat == nat) xp = &y;
    if (!xp) return wrong("a C function ran that was not called");
    Node &x = *xp;
    x.entered++;
    if (x.entered > 1) return wrong(fname(x) + " ran twice");
    check_frame(x, "on entry");
    mjs_val_t mine[3] = {mkstr(m, strf("string owned by %d", x.id)), mjs_mk_object(m), MJS_UNDEFINED};
    for (auto &v : mine) mjs_own(m, &v);
    mjs_set(m, mine[1], "id", ~0, mjs_mk_number(m, x.id));
    bool stop = false;
    for (int k : x.kids) {
      if (x.gc) mjs_gc(m, 0);
      int e = call(n[k]);
      check_frame(x, "after a call");
      if (e) {
        if (!x.handles) {
          stop = true;
          break;
        }
        mjs_set_errorf(m, MJS_OK, NULL);
      }
    }
    if (getstr(m, mine[0]) != strf("string owned by %d", x.id) || mjs_get_double(m, mjs_get(m, mine[1], "id", ~0)) != x.id) wrong(fname(x) + ": an owned value changed");
    int order[3] = {x.id % 3, (x.id + 1) % 3, (x.id + 2) % 3};
    for (int i : order)
      if (mjs_disown(m, &mine[i]) != 1) wrong("mjs_disown of an owned value does not return 1");
    if (mjs_disown(m, &mine[0]) != 0) wrong("mjs_disown of a value not owned does not return 0");
    if (stop) {
      if (x.id & 1) mjs_return(m, MJS_UNDEFINED);
      return;
    }
    if (x.err) {
      mjs_set_errorf(m, (mjs_err_t) x.err, "raised by %d", x.id);
      if (x.id & 1) mjs_return(m, mjs_mk_number(m, 1));
      return;
    }
    if (x.ret >= 0) {
      if (x.id % 5 == 0) mjs_return(m, mjs_mk_number(m, 99));
      mjs_return(m, h.to_real(pool[x.ret]));
    } else if (x.id & 1)
      mjs_return(m, MJS_UNDEFINED);
  }
  void on_enter(bool first) {
    struct mjs *m = vm.m;
    Node *x = by_id((int) mjs_get_double(m, mjs_arg(m, 0)));
    if (!x) return;
    if (first && ++x->entered > 1) wrong(fname(*x) + " ran twice");
    see_self(*x, mjs_arg(m, 1), first ? "on entry" : "at the end");
    for (int i = 0; i < x->nparams; i++) see_arg(*x, i, mjs_arg(m, 2 + i), first ? "on entry" : "at the end");
    if (mjs_nargs(m) != 2 + x->nparams) wrong("the number of arguments is wrong");
    if (first && x->gc) mjs_gc(m, 1);
  }
  void on_res() {
    struct mjs *m = vm.m;
    Node *x = by_id((int) mjs_get_double(m, mjs_arg(m, 0)));
    if (!x) return;
    if (x->m_code) return wrong(fname(*x) + " failed, but the caller goes on");
    if (h.text(mjs_arg(m, 1)) != MHeap::text(expect(*x)))
      wrong(strf("the call of %s yields %s, expected %s", fname(*x).c_str(), h.text(mjs_arg(m, 1)).c_str(), MHeap::text(expect(*x)).c_str()));
  }
  void run();
};
void run_native(struct mjs *, int nat) { g_run->native(nat); }
void f_enter(struct mjs *m) {
  g_run->on_enter(true);
  mjs_return(m, MJS_UNDEFINED);
}
void f_again(struct mjs *m) {
  g_run->on_enter(false);
  mjs_return(m, MJS_UNDEFINED);
}
void f_res(struct mjs *m) {
  g_run->on_res();
  mjs_return(m, MJS_UNDEFINED);
}
void f_ident(struct mjs *m) { mjs_return(m, mjs_arg(m, 0)); }

void Run::run() {
  struct mjs *m = vm.m;
  mjs_val_t g = mjs_get_global(m);
  mjs_set(m, g, "enter", ~0, mjs_mk_foreign_func(m, (mjs_func_ptr_t) f_enter));
  mjs_set(m, g, "again", ~0, mjs_mk_foreign_func(m, (mjs_func_ptr_t) f_again));
  mjs_set(m, g, "res", ~0, mjs_mk_foreign_func(m, (mjs_func_ptr_t) f_res));
  mjs_set(m, g, "ident", ~0, mjs_mk_foreign_func(m, (mjs_func_ptr_t) f_ident));
  for (int i = 0; i < 3; i++) h.add(i == 2 ? mjs_mk_array(m) : mjs_mk_object(m), i == 2);
  pool = {MV::undef(), MV::null(), MV::boolean(true), MV::num(s.range(-5, 100)), MV::num(0.5), MV::str(gen_bytes(s, 40)), MV::str("a longer string " + gen_bytes(s, 20)), MV::obj(0), MV::obj(1), MV::obj(2)};
  for (size_t i = 0; i < pool.size(); i++) mjs_set(m, g, strf("A%d", (int) i).c_str(), ~0, h.to_real(pool[i]));
  for (size_t i = 0; i < h.o.size(); i++) mjs_set(m, g, strf("O%d", (int) i).c_str(), ~0, *h.real[i]);
  int rounds = (int) s.range(1, 3);
  for (int r = 0; r < rounds; r++) {
    n.clear();
    natcount = 0;
    gen(-1, 0);
    sim(0);
    for (auto &x : n) define(x);
    note(strf("call %s by mechanism %d", fname(n[0]).c_str(), n[0].mech));
    g_step.gc_den = s.chance(1, 3) ? (unsigned) s.range(1, 6) : 0;
    g_step.gc_state = s.bits(32);
    if (s.chance(1, 4)) {
      // an earlier failure must not leak into the next call
      vm.exec(s.pick(std::vector<std::string>{"let 1", "nosuch", "1 + {}", "for (let i = 0; i < 3; i++) { (function() { nosuch; })(); }"}));
      note("// after a failed script");
    }
    mjs_val_t self0 = mjs_get_this(m);
    int e = call(n[0]);
    if (mjs_get_this(m) != self0) wrong("this differs after the call");
    if (e) errs++;
    for (auto &x : n)
      if (bad.empty() && (x.entered > 0) != x.m_entered) wrong(fname(x) + (x.entered ? " ran, but should not" : " did not run"));
    if (!bad.empty()) failf("%s", bad.c_str());
    if (s.chance(1, 4)) {
      mjs_val_t v = s.chance(1, 2) ? mjs_mk_number(m, 3) : s.chance(1, 2) ? mjs_mk_object(m) : MJS_UNDEFINED, rr;
      if (mjs_call(m, &rr, v, MJS_UNDEFINED, 0) != MJS_TYPE_ERROR) failf("calling a value that is not a function does not fail");
    }
  }
  g_step.gc_den = 0;
  std::string out;
  if (vm.exec("let x = 0; for (let i = 0; i < 4; i++) { if (i === 1) continue; x += i; } x", &out) || out != "5") failf("a script run afterwards yields %s", out.c_str());
  c.label(strf("depth %d", maxdepth));
  if (errs) c.label("error reaches the top");
  c.nontrivial = nid >= 3 && maxdepth >= 1;
  g_run = nullptr;
  vm.destroy();
}
}  // namespace

void prop_case(Src &s, Case &c) { Run(s, c).run(); }
