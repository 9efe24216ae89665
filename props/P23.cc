// P23: instances are isolated from each other, whatever the interleaving, nesting, threads and order of creation and destruction.
#include <unistd.h>
#include <atomic>
#include <memory>
#include <thread>
#include "ctlgen.h"
#include "exprgen.h"
#include "fungen.h"
#include "lang.h"
#include "mjsx.h"
#include "relayout.h"
using namespace lang;
const char *PROP_ID = "P23";
extern "C" volatile bool vf_plain;

namespace {
struct Op {
  enum K { EXEC, FIRE, GC, CALL, SET, FILE_, OWN } k = EXEC;
  std::string text;
  int n = 0;
};
typedef std::vector<std::string> Obs;

struct Sched;
struct Inst {
  int id = 0;
  const std::vector<Op> *ops = nullptr;
  size_t next = 0;
  bool busy = false;
  struct mjs *m = nullptr;
  Obs obs;
  std::vector<std::string> log;
  int (*cb)(int, void *) = nullptr;
  void *ud = nullptr;
  mjs_val_t owned = 0;
  bool has_owned = false;
  Sched *sched = nullptr;
  std::string dir;

  void create();
  void step();
  void destroy();
  bool done() const { return next >= ops->size(); }
};
thread_local Inst *cur;

struct Sched {
  Src *s = nullptr;
  std::vector<std::unique_ptr<Inst>> in;
  int depth = 0, nested = 0, switches = 0, last = -1;
  // one step of an instance that is not running
  bool one(bool nest) {
    std::vector<Inst *> c;
    for (auto &i : in)
      if (!i->busy && !(i->done() && !i->m)) c.push_back(i.get());
    if (c.empty()) return false;
    Inst *i = c[s->below(c.size())];
    if (nest) nested++;
    if (i->id != last) switches++;
    last = i->id;
    i->busy = true;
    depth++;
    Inst *save = cur;
    if (!i->m)
      i->create();
    else if (i->done())
      i->destroy();
    else
      i->step();
    cur = save;
    depth--;
    i->busy = false;
    return true;
  }
};

extern "C" {
static void pv_log(struct mjs *m) {
  std::string o;
  for (int i = 0; i < mjs_nargs(m); i++) o += (i ? " " : "") + ser(m, mjs_arg(m, i));
  if (cur->m != m) o += " [of another instance]";
  if (cur->log.size() < 3000) cur->log.push_back(o);
  mjs_return(m, mjs_nargs(m) > 0 ? mjs_arg(m, 0) : mjs_mk_undefined());
}
static void pv_hop(struct mjs *m) {
  Sched *sc = cur->sched;
  if (sc && sc->depth < 4) {
    for (int n = (int) sc->s->below(3); n > 0; n--) sc->one(true);
  }
  mjs_return(m, mjs_mk_undefined());
}
static int pv_add(int a, int b) { return a + b * 3; }
static double pv_half(double a) { return a / 2; }
static char *pv_cat(char *a, char *b) {
  static thread_local char buf[400];
  snprintf(buf, sizeof(buf), "%s+%s", a ? a : "NULL", b ? b : "NULL");
  return buf;
}
static void pv_reg(int (*f)(int, void *), void *ud) {
  cur->cb = f;
  cur->ud = ud;
}
static int pv_each(int n, int (*f)(int, void *), void *ud) {
  int r = 0;
  for (int i = 0; i < n; i++) r = r * 7 + f(i, ud);
  return r;
}
}
void *resolve(void *h, const char *name) {
  (void) h;
  static const std::map<std::string, void *> t = {{"pv_add", (void *) pv_add}, {"pv_half", (void *) pv_half}, {"pv_cat", (void *) pv_cat}, {"pv_reg", (void *) pv_reg}, {"pv_each", (void *) pv_each}};
  auto i = t.find(name);
  return i == t.end() ? nullptr : i->second;
}
// each instance but the first has its own; what one calls must not depend on what others resolved before
std::atomic<int> g_foreign{0};
template <int K>
int pv_private(int x) {
  if (cur->id != K) g_foreign++;
  return x * 1000 + K;
}
template <int K>
void *resolve_own(void *h, const char *name) {
  if (cur->id != K) g_foreign++;
  return strcmp(name, "pv_private") == 0 ? (void *) pv_private<K> : resolve(h, name);
}
void *resolve_first(void *h, const char *name) {
  if (cur->id != 0) g_foreign++;
  return resolve(h, name);
}

void Inst::create() {
  cur = this;
  m = mjs_create();
  mjs_val_t g = mjs_get_global(m);
  mjs_set(m, g, "log", ~0, mjs_mk_foreign_func(m, (mjs_func_ptr_t) pv_log));
  mjs_set(m, g, "hop", ~0, mjs_mk_foreign_func(m, (mjs_func_ptr_t) pv_hop));
  mjs_set_ffi_resolver(m, id == 0 ? resolve_first : id == 1 ? resolve_own<1> : id == 2 ? resolve_own<2> : resolve_own<3>);
  if (id == 2) mjs_set_generate_jsc(m, 1);
}
void Inst::destroy() {
  cur = this;
  if (has_owned) {
    obs.push_back("owned " + ser(m, owned));
    mjs_disown(m, &owned);
  }
  mjs_val_t g = mjs_get_global(m);
  std::string o;
  std::map<std::string, std::string> names;
  mjs_val_t it = mjs_mk_undefined(), k;
  while (!mjs_is_undefined(k = mjs_next(m, g, &it))) {
    std::string ks = getstr(m, k);
    if (ks != "global") names[ks] = ser(m, mjs_get(m, g, ks.data(), ks.size()), 5);
  }
  for (auto &n : names) o += n.first + "=" + n.second + " ";
  obs.push_back(o);
  mjs_destroy(m);
  m = nullptr;
}
std::string report(struct mjs *m, int err) {
  char *p = nullptr;
  size_t n = 0;
  FILE *f = open_memstream(&p, &n);
  mjs_print_error(m, f, nullptr, 1);
  fclose(f);
  std::string o(p, n);
  free(p);
  return strf("error %d %s: ", err, mjs_strerror(m, (mjs_err_t) err)) + o;
}
void Inst::step() {
  cur = this;
  const Op &op = (*ops)[next++];
  std::string o;
  size_t from = log.size();
  mjs_val_t r = mjs_mk_undefined();
  switch (op.k) {
    case Op::EXEC: {
      int e = mjs_exec(m, op.text.c_str(), &r);
      o = e ? report(m, e) : ser(m, r, 5);
      break;
    }
    case Op::FILE_: {
      std::string f = dir + strf("_i%d.js", id);
      FILE *fp = fopen(f.c_str(), "wb");
      fwrite(op.text.data(), 1, op.text.size(), fp);
      fclose(fp);
      int e = mjs_exec_file(m, f.c_str(), &r);
      o = e ? report(m, e) : ser(m, r, 5);
      unlink(f.c_str());
      unlink((f + "c").c_str());
      break;
    }
    case Op::FIRE:
      if (cb) {
        int v = cb(op.n, ud);
        o = strf("fired: %d", v);
      } else
        o = "nothing to fire";
      break;
    case Op::GC: mjs_gc(m, op.n); break;
    case Op::CALL: {
      mjs_val_t f = mjs_get(m, mjs_get_global(m), "entry", ~0);
      if (!mjs_is_function(f)) {
        o = "nothing to call";
        break;
      }
      mjs_val_t a[2] = {mjs_mk_number(m, op.n), mkstr(m, op.text)};
      int e = mjs_apply(m, &r, f, mjs_mk_undefined(), 2, a);
      o = e ? report(m, e) : ser(m, r, 5);
      break;
    }
    case Op::SET: mjs_set(m, mjs_get_global(m), "api", ~0, mkstr(m, op.text)); break;
    case Op::OWN:
      if (!has_owned) {
        owned = mjs_mk_object(m);
        mjs_own(m, &owned);
        has_owned = true;
      }
      mjs_set(m, owned, strf("k%d", op.n).c_str(), ~0, mkstr(m, op.text));
      break;
  }
  for (; from < log.size(); from++) o += "\n    " + log[from];
  obs.push_back(o);
}

// --------------------------------------------------------------- generation
struct G {
  Src &s;
  int id;
  int reg = 0;
  G(Src &s, int id) : s(s), id(id) {}
  std::string word() { return std::string((size_t) s.range(1, s.chance(1, 4) ? 60 : 8), (char) ('a' + id)) + strf("%d", (int) s.below(100)); }
  std::string piece() {
    int a = (int) s.range(1, 12), b = (int) s.range(-9, 9);
    std::string w = word(), w2 = word();
    switch (s.below(18)) {
      case 0: return strf("let acc = acc_() + '%s'; log(acc.length); hop(); log(acc.slice(-12));", w.c_str());
      case 1: return strf("(function() { let s = '%s'; for (let i = 0; i < %d; i++) { s += JSON.stringify({i: i, s: s.slice(0, 9)}); if (i === 3) hop(); } log(s.length, s); })();", w.c_str(), a);
      case 2: return strf("log(JSON.parse('{\"a\": [1, \"%s\", {\"b\": %d}], \"c\": null}'));", w.c_str(), b);
      case 3: return strf("log(ffi('int pv_add(int, int)')(%d, %d)); hop(); log(ffi('double pv_half(double)')(%d));", a, b, b);
      case 4: return strf("let cat_ = ffi('char *pv_cat(char *, char *)'); log(cat_('%s', '%s'));", w.c_str(), w2.c_str());
      case 5: return strf("ffi('void pv_reg(int (*)(int, userdata), userdata)')(function(x, u) { u.n += x; hop(); log('fired', u, x); return u.n + %d; }, {n: %d, w: '%s'});", b, a, w.c_str());
      case 6: return strf("log(ffi('int pv_each(int, int (*)(int, userdata), userdata)')(%d, function(i, u) { if (i === 1) hop(); return i * %d + u; }, %d));", a % 6, b, a);
      case 7: return strf("nosuch_%s + 1;", w.c_str());
      case 8: return strf("(function() { hop(); let o = {s: '%s'};\n o.s.x.y = 1;\n})();", w.c_str());
      case 9: return strf("(function f(n) { if (n === 0) { hop(); die('%s'); } f(n - 1); })(%d);", w.c_str(), a);
      case 10: return strf("let entry = function(a, b) { hop(); log('entry', a, b, this === undefined); return b + '%s'; };", w.c_str());
      case 11: return "gc(true); log(Object.create({z: '" + w + "'}).z); hop();";
      case 12: return strf("let arr = [%d, '%s', %d]; arr.push('%s'); hop(); log(arr.splice(1, 1), arr);", a, w.c_str(), b, w2.c_str());
      case 13: return strf("for (let k in {p%d: 1, q: '%s'}) { hop(); log(k); }", a, w.c_str());
      case 14: return strf("let glob%d = {w: '%s', f: function() { return this.w + '%s'; }}; hop(); log(glob%d.f());", a, w.c_str(), w2.c_str(), a);
      case 15: return strf("let priv = ffi('int pv_private(int)'); log(priv(%d));", a);
      case 16: return strf("log(typeof glob%d_x, api); hop();", a);
      default: return strf("let x = %d; while (x > 0) { x--; if (x === 2) { hop(); continue; } let t = '%s' + chr(65 + x); log(t, t.indexOf('%c')); }", a, w.c_str(), 'a' + id);
    }
  }
  std::string lang_program() {
    std::vector<SP> p;
    switch (s.below(4)) {
      case 0: {
        GenCfg cfg;
        cfg.stmts = (int) s.range(2, 5);
        cfg.depth = 2;
        cfg.err_pct = (int) s.below(4);
        Gen g(s, cfg);
        p = g.program();
        break;
      }
      case 1: {
        FunGen g(s);
        p = g.program();
        break;
      }
      case 2: {
        CtlGen g(s);
        p = g.program();
        break;
      }
      default: {
        ExprGen g(s);
        p = g.program(3, 4);
      }
    }
    std::string o;
    for (auto &st : p) {
      o += print_stmts({st});
      if (s.chance(1, 3)) o += "hop();\n";
    }
    return o;
  }
  std::vector<Op> gen() {
    std::vector<Op> v;
    int n = (int) s.range(2, 6);
    v.push_back({Op::EXEC, "let acc_ = function() { return '" + word() + "'; }; let api = 0;", 0});
    for (int i = 0; i < n; i++) {
      Op o;
      switch (s.weighted({7, 3, 2, 1, 2, 1, 1, 1})) {
        case 0:
          for (int k = (int) s.range(1, 3); k > 0; k--) o.text += piece() + (s.chance(1, 2) ? "\n" : " ");
          break;
        case 1: o.text = lang_program(); break;
        case 2:
          o.k = Op::FIRE;
          o.n = (int) s.range(-5, 5);
          break;
        case 3:
          o.k = Op::GC;
          o.n = (int) s.below(2);
          break;
        case 4:
          o.k = Op::CALL;
          o.n = (int) s.range(-5, 5);
          o.text = word();
          break;
        case 5:
          o.k = Op::SET;
          o.text = word();
          break;
        case 6:
          o.k = Op::FILE_;
          o.text = piece();
          break;
        default:
          o.k = Op::OWN;
          o.n = (int) s.below(3);
          o.text = word();
      }
      v.push_back(o);
    }
    return v;
  }
};

void compare(const Obs &want, const Obs &got, const char *how, int id) {
  for (size_t i = 0; i < want.size() || i < got.size(); i++) {
    std::string w = i < want.size() ? want[i] : "<nothing>", g = i < got.size() ? got[i] : "<nothing>";
    if (w != g) failf("%s, step %zu of instance %d yields\n%s\nalone it yields\n%s", how, i, id, g.c_str(), w.c_str());
  }
}
const char *kn[] = {"run", "fire the callback with", "gc", "call entry with", "set api to", "run as a file", "own"};
}  // namespace

void prop_case(Src &s, Case &c) {
  std::string dir = scratch_path("p23");

  int k = (int) s.range(2, 4);
  std::vector<std::vector<Op>> ops(k);
  std::string text;
  for (int i = 0; i < k; i++) {
    ops[i] = G(s, i).gen();
    text += strf("--- instance %d\n", i);
    for (auto &o : ops[i]) text += strf("%s (%d): ", kn[o.k], o.n) + o.text + "\n";
  }
  bool threads = s.chance(1, 3);
  text += threads ? "--- in threads\n" : "--- interleaved\n";
  c.show(text);
  g_foreign = 0;
  struct Once {
    static void check() {
      if (g_foreign) failf("an instance called a resolver or foreign function of another instance");
    }
  };
  long live = vf_live();
  g_step = StepCtl();
  g_step.mem_guard = false;
  // alone
  std::vector<Obs> want(k);
  for (int i = 0; i < k; i++) {
    Inst a;
    a.id = i;
    a.ops = &ops[i];
    a.dir = dir;
    a.create();
    while (!a.done()) {
      g_step.steps = 0;
      g_step.fuel = 20000;
      a.step();
      if (g_step.exhausted) {
        a.destroy();
        c.skip = true;
        return;
      }
    }
    g_step.fuel = -1;
    a.destroy();
    want[i] = a.obs;
  }
  if (vf_live() != live) failf("%ld blocks of memory are leaked by one instance", vf_live() - live);
  if (threads) {
    c.label("threads");
    c.nontrivial = true;
    std::vector<Obs> got(k);
    std::vector<std::thread> ts;
    vf_plain = true;
    for (int i = 0; i < k; i++)
      ts.emplace_back([&, i] {
        Inst a;
        a.id = i;
        a.ops = &ops[i];
        a.dir = dir;
        a.create();
        while (!a.done()) a.step();
        a.destroy();
        got[i] = a.obs;
        cur = nullptr;
      });
    for (auto &t : ts) t.join();
    vf_plain = false;
    Once::check();
    for (int i = 0; i < k; i++) compare(want[i], got[i], "in a thread of its own", i);
    return;
  }
  Sched sc;
  sc.s = &s;
  for (int i = 0; i < k; i++) {
    sc.in.emplace_back(new Inst);
    Inst &a = *sc.in.back();
    a.id = i;
    a.ops = &ops[i];
    a.dir = dir;
    a.sched = &sc;
  }
  g_step.steps = 0;
  g_step.fuel = 3000000;
  if (s.chance(1, 3)) {
    g_step.gc_den = (unsigned) s.pick(std::vector<int>{3, 20, 200});
    g_step.gc_state = s.bits(32);
  }
  while (sc.one(false)) {
  }
  c.label("interleaved");
  if (sc.nested) c.label("nested");
  c.nontrivial = sc.switches >= 4;
  Once::check();
  for (int i = 0; i < k; i++) compare(want[i], sc.in[i]->obs, "with other instances around", i);
  if (vf_live() != live) failf("%ld blocks of memory are leaked", vf_live() - live);
  cur = nullptr;
}
