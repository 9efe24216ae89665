// P06: garbage is reclaimed: memory does not grow with the number of times the
// same work is done.
#include "ctlgen.h"
#include "diff.h"
#include "exprgen.h"
#include "fungen.h"
#include "wild.h"
using namespace lang;
const char *PROP_ID = "P06";

extern "C" void p06_log(struct mjs *m);
extern "C" void p06_log(struct mjs *m) { mjs_return(m, mjs_nargs(m) > 0 ? mjs_arg(m, 0) : MJS_UNDEFINED); }

static std::string gen_body(Src &s, Case &c) {
  switch (s.weighted({4, 2, 2, 3})) {
    case 0: {
      c.label("typed");
      GenCfg cfg;
      cfg.stmts = (int) s.range(2, 6);
      cfg.bigstr_pct = 20;
      cfg.err_pct = s.chance(1, 4) ? 8 : 0;
      Gen g(s, cfg);
      return print_stmts(g.program(), 1);
    }
    case 1: {
      c.label("control flow");
      CtlGen g(s);
      return print_stmts(g.program(), 1);
    }
    case 2: {
      c.label("expressions");
      ExprGen g(s);
      return print_stmts(g.program(4, 4), 1);
    }
    default: {
      c.label("functions");
      FunGen g(s);
      return print_stmts(g.program(), 1);
    }
  }
}

static void quiet(VM &vm) {
  mjs_val_t g = mjs_get_global(vm.m);
  mjs_set(vm.m, g, "log", ~0, mjs_mk_foreign_func(vm.m, (mjs_func_ptr_t) p06_log));
  for (const char *name : {"ffi", "ffi_cb_free", "mkstr", "s2o", "getMJS", "load", "print", "die"}) mjs_set(vm.m, g, name, ~0, MJS_UNDEFINED);
}

// the same function called over and over from C
static void calls(Src &s, Case &c) {
  std::string body = gen_body(s, c);
  std::string src = "function body_() {\n" + body + "}\n";
  c.show(src + "/* called repeatedly with mjs_call() */\n");
  VM vm;
  quiet(vm);
  if (vm.exec(src) != 0) failf("cannot define the function: %s", vm.err().c_str());
  mjs_val_t f = vm.global("body_");
  int err = 0;
  long st0 = g_step.steps;
  auto work = [&](int n) {
    for (int i = 0; i < n; i++) {
      mjs_val_t r;
      g_step.fuel = g_step.steps + 3000;
      err = mjs_call(vm.m, &r, f, MJS_UNDEFINED, 0);
      if (g_step.exhausted) return false;
      if (i % 8 == 7) mjs_gc(vm.m, 0);
    }
    mjs_gc(vm.m, 1);
    mjs_gc(vm.m, 1);
    return true;
  };
  if (!work(3)) {
    c.skip = true;
    return;
  }
  long per = (g_step.steps - st0) / 3;
  int n = per > 600 ? 40 : per > 200 ? 100 : 250;
  work(n);
  size_t a = vf_live_bytes();
  work(n);
  size_t b = vf_live_bytes();
  size_t slack = (size_t) n * 4 + 200;
  if (b > a + slack) {
    work(n);
    size_t d = vf_live_bytes();
    if (d > b + slack) failf("memory grows with every call: %zu bytes after %d calls, %zu after %d, %zu after %d", a, n + 3, b, 2 * n + 3, d, 3 * n + 3);
  }
  c.label(err ? "fails" : "succeeds");
  c.nontrivial = per >= 20;
  vm.destroy();
}

// one script with a long loop, collections left to the engine
static void loop(Src &s, Case &c) {
  std::string body = gen_body(s, c);
  std::string src = "function body_() {\n" + body + "}\n";
  static const std::vector<int> SIZES = {10, 10, 100, 1000, 4000, 9000};
  int size = s.pick(SIZES);
  std::string lp = "i_ = 0; while (i_ < n_) { i_++; body_(); let t_ = big_ + 'string'; let u_ = {a: t_, b: [i_, i_]}; }";
  // no braces: no scopes are created, so that strings alone are the garbage
  bool plain = s.chance(1, 6);
  if (plain && s.chance(1, 2)) size = 70000;
  if (plain) lp = "for (i_ = 0; i_ < n_; i_++) t_ = big_ + 'string';";
  c.show(src + "let i_ = 0, n_ = 0, t_; " + strf("let big_ = <string of %d bytes>;\n", size) + lp + "\n");
  VM vm;
  quiet(vm);
  if (vm.exec(src) != 0) failf("cannot define the function: %s", vm.err().c_str());
  long st0 = g_step.steps;
  g_step.fuel = g_step.steps + 6000;
  if (vm.exec("body_();") != 0 || g_step.exhausted) {
    c.skip = true;
    c.label("skip: fails");
    return;
  }
  long per = g_step.steps - st0;
  int n = per > 600 ? 60 : per > 200 ? 150 : 400;
  if (plain) n = size > 10000 ? 30 : 400;
  auto peak = [&](int k) {
    mjs_set(vm.m, mjs_get_global(vm.m), "n_", ~0, mjs_mk_number(vm.m, k));
    mjs_set(vm.m, mjs_get_global(vm.m), "i_", ~0, mjs_mk_number(vm.m, 0));
    g_step.fuel = -1;
    g_step.mem_guard = false;
    vf_reset_peak();
    size_t base = vf_live_bytes();
    vm.exec(lp);
    return vf_peak_bytes() - std::min(base, vf_peak_bytes());
  };
  mjs_set(vm.m, mjs_get_global(vm.m), "big_", ~0, mkstr(vm.m, std::string((size_t) size, 'b')));
  if (vm.exec("let i_ = 0, n_ = 0, t_;") != 0) failf("%s", vm.err().c_str());
  peak(n);
  mjs_gc(vm.m, 1);
  size_t a = peak(n);
  mjs_gc(vm.m, 1);
  size_t b = peak(4 * n);
  mjs_gc(vm.m, 1);
  if (b > 2 * a + 60000 + (size_t) n * 8) {
    size_t d = peak(16 * n);
    if (d > 2 * b) failf("a loop of %d rounds needed %zu bytes at its peak, of %d rounds %zu, of %d rounds %zu", n, a, 4 * n, b, 16 * n, d);
  }
  c.label("long loop");
  c.nontrivial = per >= 20;
  vm.destroy();
}

// what a large structure needed is given back once nothing refers to it
static void reclaim(Src &s, Case &c) {
  int n = (int) s.range(50, 600), m = (int) s.below(5), sl = (int) s.pick(std::vector<int>{3, 20, 200, 1000});
  if (n * sl > 300000) n = 300000 / sl;
  std::vector<int> keep;
  for (int i = 0; i < m; i++) keep.push_back(s.chance(1, 3) ? n - 1 : (int) s.below(n));
  VM vm;
  quiet(vm);
  std::string kinds[] = {"{a: i, text: t}", "[t, [i]]", "t", "{sub: {sub: {sub: t}}}", "[{}, {}, [], {p: undefined}]", "Object.create({t: t})"};
  std::string kind = kinds[s.below(6)];
  // the elements hang together in a list, so that nothing has thousands of properties
  std::string src = "let head_ = null, kept_ = [];"
      "function build_(n, ks) { for (let i = 0; i < n; i++) { let t = pad_ + 'x' + chr(65 + i % 26); let e = {v: " + kind + ", next: head_}; head_ = e;"
      " for (let j = 0; j < ks.length; j++) { if (ks[j] === i) kept_.push(e.v); } } }"
      "function drop_() { head_ = null; }";
  c.show(src + strf("\nbuild_(%d), strings of %d bytes, %d elements kept; drop_()", n, sl, m));
  mjs_set(vm.m, mjs_get_global(vm.m), "pad_", ~0, mkstr(vm.m, std::string((size_t) sl, 'p')));
  if (vm.exec(src) != 0) failf("cannot define the functions: %s", vm.err().c_str());
  g_step.fuel = -1;
  g_step.mem_guard = false;
  mjs_val_t fb = vm.global("build_"), fd = vm.global("drop_");
  auto run = [&](int k, bool some) {
    mjs_val_t ks = mjs_mk_array(vm.m), r;
    mjs_own(vm.m, &ks);
    if (some)
      for (int x : keep) mjs_array_push(vm.m, ks, mjs_mk_number(vm.m, x));
    if (mjs_call(vm.m, &r, fb, MJS_UNDEFINED, 2, mjs_mk_number(vm.m, k), ks) != MJS_OK) failf("building fails: %s", vm.err().c_str());
    mjs_disown(vm.m, &ks);
  };
  mjs_val_t r;
  run(5, false);
  mjs_call(vm.m, &r, fd, MJS_UNDEFINED, 0);
  mjs_gc(vm.m, 1);
  mjs_gc(vm.m, 1);
  size_t a = vf_live_bytes();
  run(n, true);
  mjs_gc(vm.m, 1);
  size_t b = vf_live_bytes();
  mjs_call(vm.m, &r, fd, MJS_UNDEFINED, 0);
  mjs_gc(vm.m, 1);
  mjs_gc(vm.m, 1);
  size_t d = vf_live_bytes();
  // an element kept keeps the blocks its cells are in
  size_t allowed = a + 2500 + (size_t) m * ((size_t) sl + 4000);
  if (d > allowed) failf("%zu bytes before the structure was built, %zu with it, %zu after it was dropped and collected with %d of its elements kept", a, b, d, m);
  c.label("large structure dropped");
  c.nontrivial = b > a + 20000;
  vm.destroy();
}

// scripts that do not parse, or fail, run over and over
static void failing(Src &s, Case &c) {
  Wild w(s);
  std::string t = tame(w.prog());
  if (t.size() > 1) t.resize(t.size() - s.below(std::min<size_t>(t.size(), 30)));
  t += s.pick(std::vector<std::string>{"", " }", " let", " (", " = ="});
  c.show(t);
  VM vm;
  quiet(vm);
  if (vm.exec(t) != MJS_SYNTAX_ERROR || g_step.steps > 0) {
    c.skip = true;
    c.label("skip: parses");
    return;
  }
  auto work = [&](int n) {
    for (int i = 0; i < n; i++) vm.exec(t);
    mjs_gc(vm.m, 1);
  };
  work(5);
  size_t a = vf_live_bytes();
  work(50);
  size_t b = vf_live_bytes();
  if (b > a + 200) failf("parsing an invalid script 50 times: memory grows from %zu to %zu bytes", a, b);
  c.label("syntax error repeated");
  c.nontrivial = t.size() > 20;
  vm.destroy();
}

void prop_case(Src &s, Case &c) {
  engine_hang_ok(true);
  switch (s.weighted({5, 3, 2, 1})) {
    case 0: calls(s, c); break;
    case 1: loop(s, c); break;
    case 3: reclaim(s, c); break;
    default: failing(s, c);
  }
}
