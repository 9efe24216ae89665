// P17: what a program does depends neither on its layout or size nor on how it
// gets into the engine.
#include <unistd.h>
#include <map>
#include <set>
#include "ctlgen.h"
#include "diff.h"
#include "exprgen.h"
#include "fungen.h"
#include "relayout.h"
#include "wild.h"
using namespace lang;
const char *PROP_ID = "P17";

namespace {
struct Obs {
  int err = 0;
  std::vector<std::string> log;
  std::string result, globals;
};
enum Route { R_EXEC, R_FILE, R_LOAD, R_JSC, R_JSC2, R_PARTS, R_LATE, R_N };
const char *rname[] = {"mjs_exec", "mjs_exec_file", "load()", "a new .jsc file", "an existing .jsc file", "several mjs_exec calls", "mjs_exec after other scripts"};

void put(const std::string &p, const std::string &t) {
  FILE *f = fopen(p.c_str(), "wb");
  if (!f || fwrite(t.data(), 1, t.size(), f) != t.size()) {
    fprintf(stderr, "cannot write %s\n", p.c_str());
    _exit(4);
  }
  fclose(f);
}

Obs observe(const std::vector<std::string> &parts, int route, Src *s, const std::map<std::string, std::string> *names = nullptr) {
  VM vm;
  Obs r;
  g_step.fuel = 400000;
  g_step.mem_guard = false;
  mjs_val_t g = mjs_get_global(vm.m);
  for (const char *name : {"ffi", "ffi_cb_free", "mkstr", "s2o", "getMJS", "print", "die"}) mjs_set(vm.m, g, name, ~0, MJS_UNDEFINED);
  if (route != R_LOAD) mjs_set(vm.m, g, "load", ~0, MJS_UNDEFINED);
  std::string f = scratch_path("p17.js"), fc = scratch_path("p17.jsc");
  mjs_val_t v = MJS_UNDEFINED;
  if (route == R_PARTS) {
    for (auto &p : parts) {
      r.err = vm.exec(p, nullptr, &v);
      if (r.err) break;
    }
  } else {
    std::string all;
    for (auto &p : parts) all += p;
    switch (route) {
      case R_LATE: {
        int n = s ? (int) s->range(1, 4) : 1;
        for (int i = 0; i < n; i++) vm.exec(s && s->chance(1, 3) ? "syntax error (" : "(function(a) { return a; })(1); '" + std::string(s ? s->below(300) : 3, 'x') + "';");
        r.err = vm.exec(all, nullptr, &v);
        break;
      }
      case R_EXEC: r.err = vm.exec(all, nullptr, &v); break;
      case R_LOAD:
        put(f, all);
        r.err = vm.exec("let V_ = load('" + f + "'); V_", nullptr, &v);
        mjs_del(vm.m, g, "V_", ~0);
        mjs_set(vm.m, g, "load", ~0, MJS_UNDEFINED);
        break;
      default:
        put(f, all);
        if (route == R_JSC || route == R_JSC2) mjs_set_generate_jsc(vm.m, 1);
        if (route == R_JSC) unlink(fc.c_str());
        r.err = mjs_exec_file(vm.m, f.c_str(), &v);
    }
  }
  r.result = r.err ? "" : ser(vm.m, v);
  if (names) {
    std::set<std::string> own;
    mjs_val_t it = MJS_UNDEFINED, k;
    while ((k = mjs_next(vm.m, g, &it)) != MJS_UNDEFINED) own.insert(getstr(vm.m, k));
    for (auto &n : *names)
      if (own.count(n.second)) {
        mjs_val_t x = mjs_get(vm.m, g, n.second.data(), n.second.size());
        mjs_own(vm.m, &x);
        mjs_del(vm.m, g, n.second.data(), n.second.size());
        mjs_set(vm.m, g, n.first.data(), n.first.size(), x);
        mjs_disown(vm.m, &x);
      }
  }
  r.globals = ser(vm.m, mjs_get_global(vm.m), 10);
  r.log = vm.log;
  bool ex = g_step.exhausted;
  vm.destroy();
  unlink(f.c_str());
  if (route != R_JSC) unlink(fc.c_str());
  if (ex) r.err = -1;
  return r;
}

bool builtin(const std::string &t) {
  static std::set<std::string> b = [] {
    std::set<std::string> r = {"break", "case", "catch", "continue", "debugger", "default", "delete", "do", "else", "false", "finally", "for", "function", "if", "in", "instanceof", "new", "null", "return", "switch", "this", "throw", "true", "try", "typeof", "var", "void", "while", "with", "let", "undefined", "load"};
    VM vm;
    mjs_val_t it = MJS_UNDEFINED, k;
    while ((k = mjs_next(vm.m, mjs_get_global(vm.m), &it)) != MJS_UNDEFINED) r.insert(getstr(vm.m, k));
    return r;
  }();
  return b.count(t) != 0;
}

void same(const Obs &a, const Obs &b, const std::string &what, bool errs = true) {
  if (a.err != b.err) failf("%s: error code %d, unchanged %d", what.c_str(), b.err, a.err);
  compare_logs(b.log, a.log, what.c_str());
  if (a.result != b.result) failf("%s: result %s, unchanged %s", what.c_str(), b.result.c_str(), a.result.c_str());
  if (a.globals != b.globals) failf("%s: globals %s, unchanged %s", what.c_str(), b.globals.c_str(), a.globals.c_str());
}
}  // namespace

void prop_case(Src &s, Case &c) {
  std::vector<SP> prog;
  std::string src;
  bool ast = true;
  switch (s.weighted({3, 4, 2, 3, 2})) {
    case 0: {
      GenCfg cfg;
      cfg.stmts = (int) s.range(2, 8);
      cfg.block_depth = (int) s.range(1, 4);
      cfg.err_pct = s.chance(1, 4) ? 4 : 0;
      cfg.ctl_bias = (int) s.range(1, 3);
      Gen g(s, cfg);
      prog = g.program();
      break;
    }
    case 1: {
      CtlGen g(s);
      g.err_pct = s.chance(1, 6) ? 2 : 0;
      prog = g.program();
      break;
    }
    case 2: {
      ExprGen g(s);
      prog = g.program(5, 4);
      break;
    }
    case 3: {
      FunGen g(s);
      prog = g.program();
      break;
    }
    default: {
      Wild w(s);
      src = tame(w.prog());
      ast = false;
    }
  }
  if (ast) src = print_stmts(prog);
  c.show(src);
  engine_hang_ok(true);
  Obs base = observe({src}, R_EXEC, nullptr);
  if (base.err == -1) {
    c.skip = true;
    c.label("skip: too long");
    return;
  }
  int rounds = (int) s.range(1, 3);
  for (int i = 0; i < rounds; i++) {
    std::vector<std::string> parts;
    std::string what;
    int route = R_EXEC;
    bool padded = false, laid = false;
    if (ast && s.chance(1, 2)) {
      Padder p(s, (int) s.range(1, 12));
      auto q = p.list(prog, true);
      padded = true;
      what += "with statements without effect added";
      if (s.chance(1, 3)) route = R_PARTS;
      if (route == R_PARTS && base.err != 1)
        for (auto &st : q) parts.push_back(print_stmts({st}));
      else
        parts = {print_stmts(q)};
    } else if (ast && s.chance(1, 4) && base.err != 1) {
      route = R_PARTS;
      for (size_t k = 0; k < prog.size();) {
        size_t n = (size_t) s.range(1, 3);
        std::vector<SP> part(prog.begin() + k, prog.begin() + std::min(prog.size(), k + n));
        k += n;
        parts.push_back(print_stmts(part));
      }
    } else {
      parts = {src};
    }
    Renamer ren;
    if (ast && s.chance(1, 3)) {
      ren.collect(s, parts, [&](const std::string &t) { return builtin(t); });
      parts = ren.apply(parts);
      what += std::string(what.empty() ? "" : ", ") + "with other variable names";
    }
    bool renamed = !ren.to.empty();
    if (s.chance(1, 2) || (!padded && route == R_EXEC && !renamed && s.chance(1, 2))) {
      for (auto &p : parts) p = relayout(s, p) + (parts.size() > 1 ? "\n" : "");
      laid = true;
      what += std::string(what.empty() ? "" : ", ") + "in another layout";
    }
    if (route == R_EXEC) route = s.weighted({padded || laid || renamed ? 5 : 0, 2, 2, 2, 2, 0, 2});
    if (parts.size() > 1 && route != R_PARTS) route = R_PARTS;
    what += std::string(what.empty() ? "" : ", ") + "run by " + rname[route];
    std::string shown = src + "\n----- " + what + "\n";
    for (auto &p : parts) shown += (p.size() > 4000 ? p.substr(0, 4000) + "..." : p) + "\n---\n";
    c.show(shown);
    if (route == R_JSC2) {
      Obs first = observe(parts, R_JSC, &s, renamed ? &ren.to : nullptr);
      if (s.chance(1, 4)) put(scratch_path("p17.jsc"), s.chance(1, 3) ? "" : std::string((size_t) s.below(2000), 'x'));  // not the right one
      same(base, first, "run by a new .jsc file");
    }
    // the last part's value is the program's
    Obs o = observe(parts, route, &s, renamed ? &ren.to : nullptr);
    if (o.err == -1) {
      c.label("variant too long");
      continue;
    }
    if (route == R_PARTS && parts.size() > 1) o.result = base.result;  // an empty or let statement has no value of its own
    same(base, o, what);
    c.label(rname[route]);
    if (padded) c.label("padded");
    if (laid) c.label("laid out");
    if (renamed) c.label("renamed");
  }
  unlink(scratch_path("p17.jsc").c_str());
  c.label(ast ? "grammatical" : "loosely grammatical");
  c.label(strf("error %d", base.err));
  c.nontrivial = base.log.size() >= 2 || base.globals.size() > 600;
}
