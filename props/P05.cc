// P05: garbage collection is transparent: collecting at any point changes nothing
// a script or the embedder can observe.
#include "ctlgen.h"
#include "diff.h"
#include "exprgen.h"
#include "fungen.h"
#include "wild.h"
using namespace lang;
const char *PROP_ID = "P05";

struct Obs {
  int err = 0;
  std::vector<std::string> log;
  std::string result, globals, msg;
  bool exhausted = false;
  long steps = 0, gcs = 0;
};

static int g_gc_in_log = 0;  // collect inside the native function, too
extern "C" void p05_log(struct mjs *m);
extern "C" void p05_log(struct mjs *m) {
  VM *vm = VM::of(m);
  std::string o, o2;
  int n = mjs_nargs(m);
  for (int i = 0; i < n; i++) o += (i ? " " : "") + ser(m, mjs_arg(m, i));
  if (g_gc_in_log) {
    mjs_gc(m, g_gc_in_log > 1);
    for (int i = 0; i < n; i++) o2 += (i ? " " : "") + ser(m, mjs_arg(m, i));
    if (o != o2) failf("arguments of a native function changed across a collection: %s became %s", o.c_str(), o2.c_str());
  }
  if (vm && vm->log.size() < 20000) vm->log.push_back(o);
  mjs_return(m, n > 0 ? mjs_arg(m, 0) : MJS_UNDEFINED);
}

static Obs observe(const std::vector<std::string> &srcs, unsigned den, uint64_t st, int gc_in_log, bool between) {
  VM vm;
  Obs r;
  g_gc_in_log = gc_in_log;
  mjs_val_t g = mjs_get_global(vm.m);
  mjs_set(vm.m, g, "log", ~0, mjs_mk_foreign_func(vm.m, (mjs_func_ptr_t) p05_log));
  for (const char *name : {"ffi", "ffi_cb_free", "mkstr", "s2o", "getMJS", "load", "print", "die"}) mjs_set(vm.m, g, name, ~0, MJS_UNDEFINED);
  for (auto &src : srcs) {
    g_step.fuel = g_step.steps + 20000;
    g_step.gc_den = den;
    g_step.gc_state = st;
    g_step.mem_guard = false;
    std::string out;
    r.err = vm.exec(src, &out);
    g_step.gc_den = 0;
    r.result += out + "\n";
    r.msg += r.err ? vm.err() + "\n" : std::string("-\n");
    r.exhausted |= g_step.exhausted;
    if (between) mjs_gc(vm.m, 1);
  }
  if (den || between) mjs_gc(vm.m, 1);
  r.globals = ser(vm.m, mjs_get_global(vm.m), 10);
  r.log = vm.log;
  r.steps = g_step.steps;
  r.gcs = g_step.gcs;
  vm.destroy();
  return r;
}

static void same(const Obs &a, const Obs &b, const char *what) {
  if (a.err != b.err) failf("%s: error code %d, without collections %d (%s)", what, b.err, a.err, b.msg.c_str());
  compare_logs(b.log, a.log, what);
  if (a.result != b.result) failf("%s: results %s, without collections %s", what, b.result.c_str(), a.result.c_str());
  if (a.msg != b.msg) failf("%s: error messages %s, without collections %s", what, b.msg.c_str(), a.msg.c_str());
  if (a.globals != b.globals) failf("%s: global object %s, without collections %s", what, b.globals.c_str(), a.globals.c_str());
}

static std::string gen_program(Src &s, Case &c) {
  switch (s.weighted({3, 2, 2, 3, 3})) {
    case 0: {
      c.label("typed");
      GenCfg cfg;
      cfg.stmts = (int) s.range(2, 8);
      cfg.gc_calls = s.chance(1, 3);
      cfg.err_pct = s.chance(1, 4) ? 5 : 0;
      cfg.bigstr_pct = 20;
      Gen g(s, cfg);
      return print_stmts(g.program());
    }
    case 1: {
      c.label("control flow");
      CtlGen g(s);
      return print_stmts(g.program());
    }
    case 2: {
      c.label("expressions");
      ExprGen g(s);
      return print_stmts(g.program(6, 4));
    }
    case 3: {
      c.label("functions");
      FunGen g(s);
      return print_stmts(g.program());
    }
    default: {
      c.label("loosely grammatical");
      Wild w(s);
      return tame(w.prog());
    }
  }
}

static void programs(Src &s, Case &c) {
  int n = s.chance(1, 4) ? (int) s.range(2, 3) : 1;
  std::vector<std::string> srcs;
  std::string all;
  for (int i = 0; i < n; i++) {
    srcs.push_back(gen_program(s, c));
    all += srcs.back() + "\n-----\n";
  }
  c.show(all);
  engine_hang_ok(true);
  Obs base = observe(srcs, 0, 0, 0, false);
  if (base.exhausted) {
    c.skip = true;
    c.label("skip: too long");
    return;
  }
  int runs = (int) s.range(1, 3);
  long gcs = 0;
  for (int i = 0; i < runs; i++) {
    unsigned den = (unsigned) s.pick(std::vector<int>{1, 2, 3, 5, 10, 30, 100});
    Obs o = observe(srcs, den, s.bits(32), (int) s.below(3), s.chance(1, 2));
    if (o.exhausted) {
      c.skip = true;
      return;
    }
    gcs += o.gcs;
    same(base, o, strf("collections at about 1 of %u instructions", den).c_str());
  }
  c.nontrivial = base.steps >= 30 && gcs >= 3;
  c.label(base.err ? "ends in an error" : "ends normally");
}

// values kept alive from C with mjs_own()
static void owned(Src &s, Case &c) {
  c.label("owned values");
  VM vm;
  struct mjs *m = vm.m;
  enum { N = 10 };
  mjs_val_t slot[N];
  MVal model[N];
  bool own[N] = {};
  std::string t;
  auto slots = [&](bool used) {
    std::vector<int> v;
    for (int i = 0; i < N; i++)
      if (own[i] == used) v.push_back(i);
    return v;
  };
  auto check = [&](const char *when) {
    for (int i = 0; i < N; i++) {
      if (!own[i]) continue;
      std::string a = ser(m, slot[i]), b = mser(model[i]);
      if (a != b) failf("%s: owned value %d is %s, expected %s", when, i, a.c_str(), b.c_str());
    }
  };
  auto rstr = [&]() {
    int n = (int) s.pick(std::vector<int>{0, 1, 3, 4, 5, 6, 7, 12, 31, 60, 126, 127, 128, 129, 200, 300, 3000});
    std::string x;
    int b = (int) s.below(4);
    for (int i = 0; i < n; i++) x += b == 0 ? (char) s.below(256) : b == 1 ? (char) ('a' + i % 26) : b == 2 ? '\0' : (char) ('0' + s.below(10));
    return x;
  };
  int ops = (int) s.range(3, 60), gcs = 0;
  for (int k = 0; k < ops; k++) {
    auto fr = slots(false), us = slots(true);
    switch (s.weighted({4, 3, 2, 5, 3, 3, 2, 2, 2, 1})) {
      case 9: {  // many owned values for a while, given up in any order
        if (!s.chance(1, 3)) break;
        int n = (int) s.range(20, 200);
        t += strf("%d more values owned and disowned\n", n);
        engine_publish_text(t);
        std::vector<mjs_val_t *> v;
        std::vector<int> id;
        for (int i = 0; i < n; i++) {
          v.push_back(new mjs_val_t(mjs_mk_object(m)));
          id.push_back(i);
          mjs_own(m, v[i]);
          mjs_set(m, *v[i], "n", 1, mjs_mk_number(m, i));
        }
        int style = (int) s.below(3);
        bool half = s.chance(1, 2);
        while (!v.empty()) {
          if (half ? (int) v.size() == n / 2 : (int) v.size() == n) {
            mjs_gc(m, 1);
            for (size_t i = 0; i < v.size(); i++)
              if (ser(m, *v[i]) != strf("{\"n\":%d}", id[i])) failf("owned value %d of %d is %s after a collection", id[i], n, ser(m, *v[i]).c_str());
          }
          size_t k = style == 0 ? 0 : style == 1 ? v.size() - 1 : s.below(v.size());
          if (!mjs_disown(m, v[k])) failf("mjs_disown did not find value %d of %d", id[k], n);
          delete v[k];
          v.erase(v.begin() + k);
          id.erase(id.begin() + k);
        }
        mjs_gc(m, 0);
        break;
      }
      case 0: {
        if (fr.empty()) break;
        int i = s.pick(fr);
        std::string x = rstr();
        t += strf("v%d = string of %zu bytes\n", i, x.size());
        slot[i] = mkstr(m, x);
        model[i] = vstr(x);
        own[i] = true;
        mjs_own(m, &slot[i]);
        break;
      }
      case 1: {
        if (fr.empty()) break;
        int i = s.pick(fr);
        OP o = std::make_shared<MObj>();
        o->arr = s.chance(1, 2);
        t += strf("v%d = %s\n", i, o->arr ? "[]" : "{}");
        slot[i] = o->arr ? mjs_mk_array(m) : mjs_mk_object(m);
        model[i] = vobj(o);
        own[i] = true;
        mjs_own(m, &slot[i]);
        break;
      }
      case 2: {
        if (us.empty()) break;
        int i = s.pick(us);
        t += strf("drop v%d\n", i);
        if (!mjs_disown(m, &slot[i])) failf("mjs_disown did not find the value");
        own[i] = false;
        slot[i] = 0x1234;
        break;
      }
      case 3:
      case 4: {
        if (us.size() < 2) break;
        int i = s.pick(us), j = s.pick(us);
        if (model[i].t != V_OBJ) break;
        if (model[i].o->arr) {
          t += strf("v%d.push(v%d)\n", i, j);
          if (arr_len(model[i].o) > 30) break;
          mjs_array_push(m, slot[i], slot[j]);
          model[i].o->p[strf("%ld", arr_len(model[i].o))] = model[j];
        } else {
          std::string key = s.pick(std::vector<std::string>{"a", "b", "abcd", "fives", "sixsix", "a long property name"});
          t += strf("v%d.%s = v%d\n", i, key.c_str(), j);
          if (s.chance(1, 6)) {
            t += "  (undefined)\n";
            mjs_set(m, slot[i], key.c_str(), ~0, MJS_UNDEFINED);
            model[i].o->p[key] = MVal();
          } else {
            mjs_set(m, slot[i], key.c_str(), ~0, slot[j]);
            model[i].o->p[key] = model[j];
          }
        }
        break;
      }
      case 5: {
        bool full = s.chance(1, 2);
        t += strf("gc(%d)\n", full);
        engine_publish_text(t);
        mjs_gc(m, full);
        gcs++;
        check("after a collection");
        break;
      }
      case 6: {
        // load a member into a slot
        if (us.empty() || fr.empty()) break;
        int i = s.pick(us), j = s.pick(fr);
        if (model[i].t != V_OBJ || model[i].o->p.empty()) break;
        auto it = model[i].o->p.begin();
        std::advance(it, s.below(model[i].o->p.size()));
        t += strf("v%d = v%d.%s\n", j, i, it->first.c_str());
        slot[j] = mjs_get(m, slot[i], it->first.data(), it->first.size());
        model[j] = it->second;
        own[j] = true;
        mjs_own(m, &slot[j]);
        break;
      }
      case 7: {
        t += "garbage\n";
        int n = (int) s.range(1, 40);
        for (int i = 0; i < n; i++) {
          if (i % 3 == 0) mkstr(m, rstr());
          if (i % 3 == 1) mjs_mk_object(m);
          if (i % 3 == 2) mjs_array_push(m, mjs_mk_array(m), mjs_mk_number(m, i));
        }
        break;
      }
      default: {
        if (us.empty()) break;
        int i = s.pick(us);
        t += strf("global.g%d = v%d; run a script\n", i, i);
        mjs_set(m, mjs_get_global(m), "g", ~0, slot[i]);
        g_step.gc_den = (unsigned) s.range(1, 9);
        g_step.gc_state = s.bits(16);
        int e = vm.exec("let q = 'temporary ' + 'string value'; let w = {a: q, b: [q, q + q]}; log(g); w.b.length;");
        g_step.gc_den = 0;
        if (e) failf("script failed: %s", vm.err().c_str());
        std::string want = mser(model[i]);
        if (vm.log.back() != want) failf("script saw %s, expected %s", vm.log.back().c_str(), want.c_str());
        gcs++;
      }
    }
    engine_publish_text(t);
  }
  c.show(t);
  mjs_gc(m, 1);
  check("at the end");
  for (int i = 0; i < N; i++)
    if (own[i]) mjs_disown(m, &slot[i]);
  c.nontrivial = gcs >= 1 && ops >= 10;
  vm.destroy();
}

void prop_case(Src &s, Case &c) {
  if (s.chance(1, 4))
    owned(s, c);
  else
    programs(s, c);
}
