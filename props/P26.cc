// P26: error codes and messages say exactly what scripts and C functions reported.
#include <sys/stat.h>
#include <unistd.h>
#include "mv.h"
#include "relayout.h"
const char *PROP_ID = "P26";

namespace {
// A message pattern: literal pieces and pieces of which only a part is known.
struct Piece {
  bool wild;
  std::string t;
};
typedef std::vector<Piece> Pat;
bool match(const Pat &p, size_t i, const std::string &s, size_t at) {
  if (i == p.size()) return at == s.size();
  const std::string &t = p[i].t;
  if (!p[i].wild) return s.compare(at, t.size(), t) == 0 && match(p, i + 1, s, at + t.size());
  for (size_t q = s.find(t, at); q != std::string::npos && q <= s.size(); q = s.find(t, q + 1)) {
    for (size_t e = q + t.size(); e <= s.size() && e <= at + t.size() + 80; e++)
      if (match(p, i + 1, s, e)) return true;
    if (q == s.size()) break;
  }
  return false;
}
std::string show(const Pat &p) {
  std::string o;
  for (auto &x : p) o += x.wild ? "<..." + quote(x.t) + "...>" : quote(x.t);
  return o;
}

struct State {  // of the error, as the embedder reads it
  int code = 0;
  bool has = false;
  Pat msg;
  void clear() {
    code = 0;
    has = false;
    msg.clear();
  }
  void set(int c, bool h, const Pat &m) {
    code = c;
    has = h;
    msg = h ? m : Pat();
  }
  void prepend(int c, Pat m) {
    if (!code) code = c;
    if (has) {
      m.push_back({false, ": "});
      m.insert(m.end(), msg.begin(), msg.end());
    }
    has = true;
    msg = m;
  }
};
struct Op {
  int kind;  // 0 set, 1 set without a text, 2 prepend, 3 clear
  int code;
  std::string text;
  int style;
};
struct Stmt {
  int kind;
  int id;
  std::vector<Op> ops, pre;
  std::vector<Stmt> body;
  std::string text;
  int how = 0;
};
struct Ob {  // what a C function saw
  int id, code;
  bool has;
  Pat msg;
};

struct Run;
Run *g_run;
struct Run {
  Src &s;
  Case &c;
  VM vm;
  std::string dir, bad, hist;
  std::vector<std::string> msgs, files;
  std::map<int, std::vector<Op>> ops, pre;
  std::map<int, std::string> texts;
  std::vector<Ob> want;
  size_t seen = 0;
  int uniq = 0, fails = 0, handled = 0, depthmax = 0;
  Run(Src &s, Case &c) : s(s), c(c) { g_run = this; }

  std::string text() {
    std::string t;
    int n = (int) (s.chance(1, 12) ? s.range(40, 6000) : s.chance(1, 8) ? s.range(90, 140) : s.range(0, 14));
    if (n > 200) {
      t = std::string((size_t) n, 'm') + strf("%d", n);
      return t;
    }
    for (int i = 0; i < n; i++) t += "abc %sd:\"\\\n\t[]\xc3\xa9\x80\x01%"[s.below(19)];
    return t;
  }
  Op op(bool failing) {
    Op o;
    o.kind = failing ? s.weighted({4, 2, 4}) : s.weighted({2, 1, 4, 5});
    o.code = (int) s.range(1, 8);
    o.text = text();
    o.style = (int) s.below(4);
    return o;
  }
  std::vector<Op> oplist(bool failing) {
    std::vector<Op> v;
    int n = (int) s.range(failing ? 1 : 0, 3);
    for (int i = 0; i < n; i++) v.push_back(op(failing && i == 0));
    if (failing && s.chance(1, 8)) v.push_back({3, 0, "", 0});
    return v;
  }
  std::vector<Stmt> stmts(int depth) {
    std::vector<Stmt> v;
    int n = (int) s.range(depth > 3 ? 1 : 0, 4);
    for (int i = 0; i < n; i++) {
      Stmt x;
      x.id = uniq++;
      bool deep = depth < 5 && uniq < 40;
      x.kind = s.weighted({6, 2, 3, deep ? 4 : 0, deep ? 4 : 0, deep ? 2 : 0, deep ? 2 : 0, 2, 1});
      x.how = (int) s.below(5);
      switch (x.kind) {
        case 0: break;                                      // a statement that works
        case 1: x.text = text(); if (s.chance(1, 6)) x.text += std::string(1, '\0') + "after"; break;  // die
        case 2: x.ops = oplist(true); break;                // a C function that fails
        case 3:
          if (s.chance(1, 5)) x.text = s.chance(1, 2) ? "fail" : "ok";  // calls a C function
          if (x.text == "fail") x.ops = oplist(true);
          else if (x.text.empty()) x.body = stmts(depth + 1);
          if (s.chance(1, 3)) x.pre = oplist(true);
          if (x.text != "fail") x.ops = oplist(false);
          break;  // a C function that calls back
        case 4: x.body = stmts(depth + 1); break;           // a script function
        case 5: x.body = stmts(depth + 1); x.ops = oplist(false); break;  // a C function that runs a text
        case 6: x.body = stmts(depth + 1); break;           // load()
        case 7: x.how = (int) s.below(9); break;            // an error of the engine
        default: x.ops = oplist(false); x.how = (int) s.below(3); break;  // a C function that runs what is no program
      }
      if (depth > depthmax) depthmax = depth;
      v.push_back(x);
    }
    return v;
  }
  // ---- text
  void put(const std::string &p, const std::string &t) {
    FILE *f = fopen(p.c_str(), "wb");
    if (!f || fwrite(t.data(), 1, t.size(), f) != t.size()) _exit(4);
    fclose(f);
  }
  std::string fname(int id) { return dir + strf("/f%d.js", id); }
  static const char *const errs[9];
  std::string render(const std::vector<Stmt> &v, int ind) {
    std::string o, pad((size_t) ind, ' ');
    for (auto &x : v) {
      std::string e;
      switch (x.kind) {
        case 0: e = strf("ok(%d)", x.id); break;
        case 1:
          mjs_set(vm.m, mjs_get_global(vm.m), strf("m%d", x.id).c_str(), ~0, mkstr(vm.m, x.text));
          e = strf("die(m%d)", x.id);
          break;
        case 2:
          ops[x.id] = x.ops;
          e = x.how == 0 ? strf("fail.apply(null, [%d])", x.id) : strf("fail(%d)", x.id);
          break;
        case 3:
          ops[x.id] = x.ops;
          pre[x.id] = x.pre;
          if (!x.text.empty()) e = strf("attempt(%d, ", x.id) + x.text + ")";
          else e = strf("attempt(%d, function() {\n", x.id) + render(x.body, ind + 2) + pad + "})";
          break;
        case 4: {
          std::string f = "(function() {\n" + render(x.body, ind + 2) + pad + "})";
          e = x.how == 0 ? f + ".apply(null, [1])" : x.how == 1 ? "({f: " + f + "}).f(2)" : f + "()";
          break;
        }
        case 5:
          ops[x.id] = x.ops;
          texts[x.id] = render(x.body, 0);
          e = strf("run(%d)", x.id);
          break;
        case 6:
          put(fname(x.id), render(x.body, 0));
          files.push_back(fname(x.id));
          e = "load('" + fname(x.id) + "')";
          break;
        case 7: e = errs[x.how]; break;
        default:
          ops[x.id] = x.ops;
          texts[x.id] = x.how == 0 ? "let = 5;" : x.how == 1 ? "ok(1); (" : "}";
          e = strf("run(%d)", x.id);
      }
      switch (x.id % 4) {
        case 0: o += pad + e + ";\n"; break;
        case 1: o += pad + strf("let v%d = ", x.id) + e + ";\n"; break;
        case 2: o += pad + "if (" + e + ") ok(-1); \n"; break;
        default: o += pad + "ok(-1, [1, " + e + "]);\n"; break;
      }
    }
    return o;
  }
  // ---- model
  void apply_ops(State &st, const std::vector<Op> &v) {
    for (auto &o : v) {
      Pat p = {{false, o.text}};
      if (o.kind == 0) st.set(o.code, true, p);
      else if (o.kind == 1) st.set(o.code, false, {});
      else if (o.kind == 2) st.prepend(o.code, p);
      else st.clear();
    }
  }
  void model(const std::vector<Stmt> &v, State &st) {
    for (auto &x : v) {
      switch (x.kind) {
        case 0: break;
        case 1: st.prepend(MJS_TYPE_ERROR, {{false, x.text.substr(0, x.text.find('\0'))}}); break;
        case 2:
          if (x.how == 0) st.clear();
          apply_ops(st, x.ops);
          break;
        case 3: case 5: {
          st.clear();
          if (x.text == "fail") apply_ops(st, x.ops);
          model(x.body, st);
          want.push_back({x.id, st.code, st.has, st.msg});
          int before = st.code;
          apply_ops(st, x.ops);
          if (before && !st.code) handled++;
          break;
        }
        case 4:
          if (x.how == 0) st.clear();
          model(x.body, st);
          break;
        case 6:
          st.clear();
          model(x.body, st);
          if (st.code) {
            int code = st.code;
            Pat p = {{true, fname(x.id)}};
            if (st.has) {
              p.push_back({false, ": "});
              p.insert(p.end(), st.msg.begin(), st.msg.end());
            }
            st.set(code, true, p);
          }
          break;
        case 7: {
          static const int code[] = {2, 2, 3, 3, 6, 7, 3, 3, 3};
          static const char *part[] = {"no_such_variable", "no_such_function", "", "", "==", "/no/such/file.js", "", "", ""};
          st.set(code[x.how], true, {{true, part[x.how]}});
          break;
        }
        default:
          st.set(MJS_SYNTAX_ERROR, true, {{true, ""}});
          want.push_back({x.id, st.code, st.has, st.msg});
          apply_ops(st, x.ops);
      }
      if (st.code) return;
    }
  }
  // ---- reality
  void wrong(const std::string &t) {
    if (bad.empty()) bad = t;
  }
  void do_ops(struct mjs *m, const std::vector<Op> &v) {
    for (auto &o : v) {
      const char *t = o.text.c_str();
      mjs_err_t e = (mjs_err_t) o.code, r = e;
      switch (o.kind) {
        case 0:
          r = o.style == 0 ? mjs_set_errorf(m, e, "%s", t) : o.style == 1 ? mjs_set_errorf(m, e, "%.*s%s", (int) o.text.size() / 2, t, t + o.text.size() / 2) : o.style == 2 ? mjs_set_errorf(m, e, "%s%.*s", t, 0, "zzz") : mjs_set_errorf(m, e, "%.*s", (int) o.text.size(), t);
          break;
        case 1: r = mjs_set_errorf(m, e, NULL); break;
        case 2: r = o.style == 0 ? mjs_prepend_errorf(m, e, "%.*s", (int) o.text.size(), t) : o.style == 1 ? mjs_prepend_errorf(m, e, "%.*s%s", (int) o.text.size() / 2, t, t + o.text.size() / 2) : mjs_prepend_errorf(m, e, "%s", t); break;
        default: r = mjs_set_errorf(m, e = MJS_OK, NULL);
      }
      if (r != e) wrong(strf("setting error %d returns %d", (int) e, (int) r));
    }
  }
  std::string cmp(struct mjs *m, int code, int wcode, bool has, const Pat &msg) {
    if (code != wcode) return strf("error %d (%s), expected %d (%s)", code, quote(mjs_strerror(m, (mjs_err_t) code)).c_str(), wcode, show(msg).c_str());
    if (!code) return "";
    const char *p = mjs_strerror(m, (mjs_err_t) code);
    if (!p || !*p) return "no text for an error";
    std::string t = p;
    int same = 0;
    for (int k = 0; k <= 8; k++) same += t == mjs_strerror(m, (mjs_err_t) k);
    if (same == 1) {  // the name of the code
      if (has && !match(msg, 0, "", 0)) return strf("no message but %s, expected %s", quote(t).c_str(), ::show(msg).c_str());
      return "";
    }
    if (same != 9) return strf("%d codes are called %s", same, quote(t).c_str());
    if (!has || !match(msg, 0, t, 0)) return strf("message %s, expected %s", quote(t).c_str(), has ? ::show(msg).c_str() : "none");
    return "";
  }
  void observe(struct mjs *m, int id, int code) {
    if (seen >= want.size()) return wrong(strf("the C function of step %d is reached, expected not to be", id));
    Ob &w = want[seen++];
    if (w.id != id) return wrong(strf("the C function of step %d is reached, expected that of step %d", id, w.id));
    std::string d = cmp(m, code, w.code, w.has, w.msg);
    if (!d.empty()) wrong(strf("the C function of step %d sees ", id) + d);
  }
  void report(int e, const State &st) {
    struct mjs *m = vm.m;
    std::string d = cmp(m, e, st.code, st.has, st.msg);
    if (!d.empty()) failf("%s\n%s", d.c_str(), bad.c_str());
    if (!e) return;
    fails++;
    const char *pre = s.chance(1, 3) ? nullptr : s.chance(1, 2) ? "" : "my program";
    std::string line = std::string(pre ? pre : "MJS error") + ": " + mjs_strerror(m, (mjs_err_t) e) + "\n";
    for (int tr = 0; tr < 2; tr++) {
      char *p = nullptr;
      size_t n = 0;
      FILE *f = open_memstream(&p, &n);
      mjs_print_error(m, f, pre, tr);
      fclose(f);
      std::string g(p, n);
      free(p);
      if (!tr && g != line) failf("mjs_print_error prints %s, expected %s", quote(g).c_str(), quote(line).c_str());
      if (tr) {
        if (g.size() < line.size() || g.compare(g.size() - line.size(), line.size(), line) != 0) failf("mjs_print_error prints %s, expected it to end in %s", quote(g).c_str(), quote(line).c_str());
        std::string t = g.substr(0, g.size() - line.size());
        if (!t.empty() && (t.compare(0, 5, "  at ") != 0 || t.back() != '\n')) failf("mjs_print_error prints %s", quote(g).c_str());
      }
    }
  }
  void run();
};
const char *const Run::errs[9] = {"no_such_variable", "no_such_function(1)", "(5)(1)", "'a' - {}", "1 == 1", "load('/no/such/file.js')", "JSON.parse('[')", "undefined.x", "die()"};

int arg_id(struct mjs *m) { return (int) mjs_get_double(m, mjs_arg(m, 0)); }
void f_ok(struct mjs *m) { mjs_return(m, mjs_mk_boolean(m, 0)); }
void f_fail(struct mjs *m) {
  int id = arg_id(m);
  if (id & 1) mjs_return(m, mjs_mk_number(m, 0));
  g_run->do_ops(m, g_run->ops[id]);
  if (!(id & 1)) mjs_return(m, mjs_mk_number(m, 0));
}
void f_attempt(struct mjs *m) {
  int id = arg_id(m);
  mjs_val_t r = MJS_UNDEFINED, f = mjs_arg(m, 1);
  mjs_val_t a = mjs_mk_number(m, id);
  g_run->do_ops(m, g_run->pre[id]);
  int e = id & 1 ? mjs_call(m, &r, f, MJS_UNDEFINED, 1, a) : mjs_apply(m, &r, f, MJS_UNDEFINED, 1, &a);
  g_run->observe(m, id, e);
  g_run->do_ops(m, g_run->ops[id]);
  mjs_return(m, mjs_mk_number(m, 0));
}
void f_run(struct mjs *m) {
  int id = arg_id(m);
  mjs_val_t r = MJS_UNDEFINED;
  std::string t = g_run->texts[id];
  int e = mjs_exec(m, t.c_str(), id & 1 ? &r : nullptr);
  g_run->observe(m, id, e);
  g_run->do_ops(m, g_run->ops[id]);
  mjs_return(m, mjs_mk_number(m, 0));
}

void Run::run() {
  struct mjs *m = vm.m;
  mjs_val_t g = mjs_get_global(m);
  mjs_set(m, g, "ok", ~0, mjs_mk_foreign_func(m, (mjs_func_ptr_t) f_ok));
  mjs_set(m, g, "fail", ~0, mjs_mk_foreign_func(m, (mjs_func_ptr_t) f_fail));
  mjs_set(m, g, "attempt", ~0, mjs_mk_foreign_func(m, (mjs_func_ptr_t) f_attempt));
  mjs_set(m, g, "run", ~0, mjs_mk_foreign_func(m, (mjs_func_ptr_t) f_run));
  dir = lang::scratch_path("p26");
  mkdir(dir.c_str(), 0700);
  if (s.chance(1, 3)) {
    g_step.gc_den = (unsigned) s.range(1, 6);
    g_step.gc_state = s.bits(32);
  }
  int n = (int) s.range(1, 5);
  std::string err;
  try {
    for (int k = 0; k < n; k++) {
      State st;
      if (s.chance(1, 8)) {  // outside of any execution
        std::vector<Op> o = oplist(true);
        mjs_set_errorf(m, MJS_OK, NULL);
        do_ops(m, o);
        apply_ops(st, o);
        hist += strf("# %d error operations from C\n", (int) o.size());
        if (st.code) report(st.code, st);
        if (!bad.empty()) failf("%s", bad.c_str());
        st.clear();
      }
      std::vector<Stmt> v = stmts(0);
      std::string src = render(v, 0);
      want.clear();
      seen = 0;
      int route = (int) s.below(4), e;
      std::string fn;
      hist += strf("# script %d\n", k) + src;
      for (auto &t : texts) hist += strf("# text %d:\n", t.first) + t.second;
      for (auto &f : files) hist += "# file " + f + "\n";
      model(v, st);
      c.show(hist + "# error " + strf("%d ", st.code) + (st.has ? show(st.msg) : ""));
      if (route == 0) {
        fn = dir + strf("/main%d.js", k);
        put(fn, src);
        e = mjs_exec_file(m, fn.c_str(), NULL);
        unlink(fn.c_str());
      } else if (route == 1) {
        mjs_val_t f = MJS_UNDEFINED, r;
        mjs_own(m, &f);
        e = vm.exec("(function() {\n" + src + "})", nullptr, &f);
        if (!e) e = mjs_call(m, &r, f, MJS_UNDEFINED, 1, f);
        mjs_disown(m, &f);
      } else {
        e = mjs_exec(m, src.c_str(), NULL);
      }
      if (!bad.empty()) failf("%s", bad.c_str());
      report(e, st);
      if (seen != want.size()) failf("the C function of step %d is not reached", want[seen].id);
    }
    if (s.chance(1, 4)) {
      std::string p = dir + "/none.js";
      State st;
      st.set(MJS_FILE_READ_ERROR, true, {{true, p}});
      report(mjs_exec_file(m, p.c_str(), NULL), st);
    }
    std::string out;
    int e = vm.exec("1 + 1", &out);
    if (e || out != "2") failf("a later program yields error %d, %s", e, out.c_str());
    char *p = nullptr;
    size_t z = 0;
    FILE *f = open_memstream(&p, &z);
    mjs_print_error(m, f, "E", 1);
    fclose(f);
    std::string t(p, z);
    free(p);
    if (t.find("  at ") != std::string::npos) failf("after a program that worked mjs_print_error still prints a stack trace: %s", quote(t).c_str());
  } catch (Fail &f) {
    err = f.msg;
  }
  rm_rf(dir);
  if (!err.empty()) throw Fail{err};
  if (handled) c.label("handled");
  if (depthmax >= 2) c.label("nested");
  c.label(fails ? "failed" : "no failure");
  c.nontrivial = fails >= 1 && uniq >= 5;
  vm.destroy();
}
}  // namespace

void prop_case(Src &s, Case &c) { Run(s, c).run(); }
