// Differential step shared by the language properties: run a program in mJS and
// in the reference interpreter and compare everything observable.
#pragma once
#include "lang.h"
#include "mjsx.h"

struct ModelRun {
  lang::Interp in;
  int err = 0;
  bool skipped = false;
  std::string why;
  std::string result;
};

inline void run_model(ModelRun &r, const std::vector<lang::SP> &prog) {
  try {
    r.in.last = lang::MVal();
    auto sg = r.in.run(prog);
    if (sg != lang::Interp::NORMAL) {
      r.skipped = true;
      r.why = "misplaced control transfer";
      return;
    }
    r.result = lang::mser(r.in.last);
  } catch (lang::MErr &e) {
    r.err = e.code;
  } catch (lang::MSkip &k) {
    r.skipped = true;
    r.why = k.why;
  }
}

// Compares the global variables the model knows with the engine's.
inline void compare_globals(VM &vm, lang::Interp &in, const char *when) {
  for (auto &g : in.scopes[0]) {
    if (g.second.t == lang::V_NATIVE) continue;
    if (g.first == "JSON" || g.first == "Object") continue;
    std::string want = lang::mser(g.second);
    mjs_val_t v = mjs_get(vm.m, mjs_get_global(vm.m), g.first.c_str(), ~0);
    std::string got = ser(vm.m, v);
    if (got != want) failf("%s: global '%s' is %s, expected %s", when, g.first.c_str(), got.c_str(), want.c_str());
  }
}

inline void compare_logs(const std::vector<std::string> &got, const std::vector<std::string> &want, const char *what) {
  for (size_t i = 0; i < got.size() || i < want.size(); i++) {
    std::string g = i < got.size() ? got[i] : "<nothing>", w = i < want.size() ? want[i] : "<nothing>";
    if (g != w) failf("%s: log entry %zu is %s, expected %s", what, i, g.c_str(), w.c_str());
  }
}

// Runs a program in both and compares error code, trace, result and globals.
inline void judge(Case &c, const std::vector<lang::SP> &prog, int min_steps = 30) {
  std::string src = lang::print_stmts(prog);
  c.show(src);
  ModelRun mr;
  run_model(mr, prog);
  if (mr.skipped && mr.in.log.size() < 2) {
    c.skip = true;
    c.label("skip: " + mr.why);
    return;
  }
  VM vm;
  g_step.fuel = 2000000;
  std::string out;
  int err = vm.exec(src, &out);
  if (mr.skipped) {
    // what happens from here on is not judged, what happened before is
    if (vm.log.size() > mr.in.log.size()) vm.log.resize(mr.in.log.size());
    compare_logs(vm.log, mr.in.log, "trace up to the first unspecified operation");
    c.label("prefix: " + mr.why);
  } else {
    if (err != mr.err) failf("error code %d (%s), expected %d", err, vm.err().c_str(), mr.err);
    compare_logs(vm.log, mr.in.log, "trace");
    if (!err && out != mr.result) failf("result %s, expected %s", out.c_str(), mr.result.c_str());
    compare_globals(vm, mr.in, "after the program");
    c.label(strf("error %d", err));
  }
  for (auto &h : mr.in.hits) c.label(h.first);
  c.nontrivial = mr.in.steps >= min_steps && !mr.in.log.empty();
  vm.destroy();
}
