// P07: a failing script stops at the failing operation with the right error
// code, keeps the effects it had until then, and leaves the instance usable.
#include "ctlgen.h"
#include "diff.h"
#include "exprgen.h"
#include "fungen.h"
using namespace lang;
const char *PROP_ID = "P07";

static std::vector<SP> gen(Src &s, Case &c) {
  switch (s.weighted({3, 4, 2, 1})) {
    case 0: {
      GenCfg cfg;
      cfg.stmts = (int) s.range(2, 7);
      cfg.depth = 2;
      cfg.err_pct = (int) s.range(3, 12);
      Gen g(s, cfg);
      return g.program();
    }
    case 1: {
      FunGen g(s);
      g.err_pct = (int) s.range(1, 6);
      return g.program();
    }
    case 2: {
      CtlGen g(s);
      g.err_pct = (int) s.range(1, 6);
      return g.program();
    }
    default: {
      ExprGen g(s);
      return g.program(5, 5);
    }
  }
}

static const std::vector<std::string> TAILS = {"let = 1;", "1 +;", "function (", "if (1 {", "f(1, ;", "{", "x = = 3;", "for (let i = 0; i < 3; i++ {", "a.;", "[1, 2;", "switch (1) {}", "var v = 1;", "1 2 3 }"};

// the same failure over and over: the instance does not wear out
static void again(Src &s, Case &c) {
  auto prog = gen(s, c);
  std::string src = print_stmts(prog);
  if (s.chance(1, 4)) src += s.pick(TAILS);
  if (s.chance(1, 4)) src = s.pick(std::vector<std::string>{"let o = {}; o.f();", "undeclared_;", "(function(a) { return [1, a, undeclared_]; })(2);", "let zz = 'a' - 1;", "while (true) { for (let i in {a: 1}) { null.x; } }", "JSON.parse('{');"});
  VM vm;
  int n = s.chance(1, 3) ? (int) s.range(600, 1200) : (int) s.range(2, 80), how = (int) s.below(3), fails = 0;
  c.show(strf("%d times, %s:\n", n, how == 0 ? "with mjs_exec" : how == 1 ? "as a function called with mjs_apply" : "by turns") + src);
  c.label("repeated");
  engine_hang_ok(true);
  bool fn = how > 0 && vm.exec("function again_() {\n" + src + "\n}") == 0;
  g_step.fuel = g_step.steps + 400000;
  mjs_val_t r = MJS_UNDEFINED;
  for (int k = 0; k < n && !g_step.exhausted; k++) {
    int e;
    if (fn && (how == 1 || k % 2)) {
      e = mjs_apply(vm.m, &r, vm.global("again_"), MJS_UNDEFINED, 0, NULL);
    } else {
      e = vm.exec(src, nullptr, &r);
    }
    if (e) fails++;
    vm.log.clear();
    if (k % 64 == 63) mjs_gc(vm.m, 1);
  }
  if (g_step.exhausted && fails == 0) {
    c.skip = true;
    return;
  }
  g_step.fuel = -1;
  std::string out;
  if (vm.exec("function zz_(n) { if (n === 0) return 'deep'; return zz_(n - 1); }; let ww_ = ''; for (let i in {one: 1}) { ww_ = i; }; [zz_(20), ww_, JSON.stringify([1])];", &out) != 0)
    failf("after %d failures a correct script fails: %s", fails, vm.err().c_str());
  if (out != "[3|0:\"deep\"|1:\"one\"|2:\"[1]\"]") failf("after %d failures a correct script yields %s", fails, out.c_str());
  c.nontrivial = fails >= 2;
  vm.destroy();
}

void prop_case(Src &s, Case &c) {
  if (s.chance(1, 40)) return again(s, c);
  VM vm;
  Interp in;
  std::string all;
  int n = (int) s.range(1, 4), errors = 0;
  long steps = 0;
  for (int k = 0; k < n; k++) {
    auto prog = gen(s, c);
    std::string src = print_stmts(prog);
    bool broken = s.chance(1, 8);
    if (broken) src += s.pick(TAILS);
    all += src + "\n-----\n";
    c.show(all);
    size_t from = in.log.size(), vfrom = vm.log.size();
    int merr = 0;
    bool skipped = false;
    std::string why, mres;
    in.fuel = 8000;
    in.scopes.resize(1);
    in.depth = 0;
    in.self = MVal();
    in.last = MVal();
    if (broken) {
      merr = ERR_SYNTAX;
    } else {
      try {
        auto sg = in.run(prog);
        if (sg != Interp::NORMAL) return;
        mres = mser(in.last);
      } catch (MErr &e) {
        merr = e.code;
      } catch (MSkip &e) {
        skipped = true;
        why = e.why;
      }
    }
    in.scopes.resize(1);
    g_step.fuel = g_step.steps + 500000;
    if (s.chance(1, 4)) {
      g_step.gc_den = (unsigned) s.range(2, 40);
      g_step.gc_state = s.bits(16);
    } else
      g_step.gc_den = 0;
    std::string out;
    int err = vm.exec(src, &out);
    std::vector<std::string> glog(vm.log.begin() + vfrom, vm.log.end()), wlog(in.log.begin() + from, in.log.end());
    if (skipped) {
      if (glog.size() > wlog.size()) glog.resize(wlog.size());
      compare_logs(glog, wlog, "trace up to the first unspecified operation");
      c.label("prefix: " + why);
      c.nontrivial = steps >= 30 && errors;
      return;
    }
    steps += in.steps;
    if (err != merr) failf("program %d: error code %d (%s), expected %d", k + 1, err, vm.err().c_str(), merr);
    compare_logs(glog, wlog, strf("program %d", k + 1).c_str());
    if (!err && out != mres) failf("program %d: result %s, expected %s", k + 1, out.c_str(), mres.c_str());
    compare_globals(vm, in, strf("after program %d", k + 1).c_str());
    c.label(strf("error %d", err));
    if (err) {
      errors++;
      if (strlen(mjs_strerror(vm.m, (mjs_err_t) err)) == 0) failf("no error message for error %d", err);
    }
    if (err || s.chance(1, 6)) {
      // the instance works as before
      std::string r;
      g_step.gc_den = 0;
      size_t keep = vm.log.size();
      if (vm.exec("function zz_(a) { for (let j = 0; j < 9; j++) { if (j === 3) continue; if (j > 5) return a + j; } return -1; }; "
                  "let yy_ = [typeof this, zz_(10), zz_.apply({q: 1}, [20]), JSON.stringify({k: [1, 'two']})]; "
                  "let xx_ = 0; while (xx_ < 5) { xx_++; if (xx_ === 3) break; }; yy_.push(xx_); yy_;", &r) != 0)
        failf("after program %d a correct script fails: %s", k + 1, vm.err().c_str());
      if (r != "[5|0:\"undefined\"|1:16|2:26|3:\"{\\\"k\\\":[1,\\\"two\\\"]}\"|4:3]") failf("after program %d a correct script yields %s", k + 1, r.c_str());
      mjs_val_t res = MJS_UNDEFINED;
      if (mjs_call(vm.m, &res, vm.global("zz_"), MJS_UNDEFINED, 1, mjs_mk_number(vm.m, 1)) != MJS_OK) failf("after program %d calling a function fails", k + 1);
      if (ser(vm.m, res) != "7") failf("after program %d calling a function yields %s", k + 1, ser(vm.m, res).c_str());
      vm.log.resize(keep);
    }
  }
  c.nontrivial = steps >= 30 && errors;
  vm.destroy();
}
