// P19: errors name the place: stack traces, frames and parse errors.
#include <sys/stat.h>
#include <unistd.h>
#include "mjsx.h"
#include "engine.h"
const char *PROP_ID = "P19";

namespace {
struct Place {
  int file, lo, hi;
};
struct Out {  // a script under construction
  int file;
  std::vector<std::string> lines;
  int line() { return (int) lines.size() + 1; }
  void put(const std::string &t) { lines.push_back(t); }
  std::string text(bool nl) {
    std::string o;
    for (size_t i = 0; i < lines.size(); i++) o += lines[i] + (i + 1 < lines.size() || nl ? "\n" : "");
    return o;
  }
};
std::vector<std::pair<std::string, int>> g_where;
bool g_where_set;
int g_where0 = 0;
std::string g_where0_file;
int g_where_end = 0;

void nat_where(struct mjs *m) {
  g_where.clear();
  g_where_set = true;
  int off = mjs_get_offset_by_call_frame_num(m, 0);
  g_where0 = mjs_get_lineno_by_offset(m, off);
  const char *f = mjs_get_bcode_filename_by_offset(m, off);
  g_where0_file = f ? f : "<null>";
  int i = 1;
  for (; i < 200; i++) {
    off = mjs_get_offset_by_call_frame_num(m, i);
    if (off == -1) break;
    if (off == 0x7fffffff) continue;  // called from C
    f = mjs_get_bcode_filename_by_offset(m, off);
    g_where.push_back({f ? f : "<null>", mjs_get_lineno_by_offset(m, off)});
  }
  g_where_end = mjs_get_offset_by_call_frame_num(m, i + 3);
  mjs_return(m, MJS_UNDEFINED);
}
void nat_fail(struct mjs *m) {
  mjs_set_errorf(m, MJS_BAD_ARGS_ERROR, "native failure");
  mjs_return(m, MJS_UNDEFINED);
}
void nat_prepend(struct mjs *m) {
  mjs_prepend_errorf(m, MJS_BAD_ARGS_ERROR, "native failure %d", 1);
  mjs_return(m, MJS_UNDEFINED);
}
void nat_call(struct mjs *m) {
  mjs_val_t r = MJS_UNDEFINED;
  mjs_call(m, &r, mjs_arg(m, 0), MJS_UNDEFINED, 1, mjs_mk_number(m, 1));
  mjs_return(m, r);
}
void nat_swallow(struct mjs *m) {  // an error that C handles
  mjs_val_t r = MJS_UNDEFINED;
  mjs_call(m, &r, mjs_arg(m, 0), MJS_UNDEFINED, 0);
  mjs_set_errorf(m, MJS_OK, NULL);
  mjs_return(m, mjs_mk_number(m, 1));
}

struct G {
  Src &s;
  Case &c;
  std::string dir;
  std::vector<Out> outs;
  int uniq = 0, depth, size, longs = 0, budget = 150;
  int goal;  // 0: error, 1: where()
  std::vector<Place> trace;  // outermost first
  G(Src &s, Case &c) : s(s), c(c) {}

  std::string name(int f) { return f == 0 ? std::string("<stdin>") : dir + strf("/g%d.js", f); }
  std::string small() {
    switch (s.below(5)) {
      case 0: return strf("%d", (int) s.below(70000));
      case 1: return strf("'%s'", std::string(s.below(12), 'a').c_str());
      case 2: return strf("(%d + %d) * 2", (int) s.below(100), (int) s.below(100));
      case 3: return "1 ? [1, 2, 3] : {a: 1}";
      default: return "true && false || 3";
    }
  }
  void filler(Out &o, int d) {
    if (budget-- <= 0) return;
    int k = s.weighted({8, 2, 2, 2, 2, size ? 4 : 1, d ? 2 : 0, d ? 2 : 0, d ? 1 : 0, d ? 2 : 0, 2, 2, 1, 1, 1});
    std::string t = strf("t%d", ++uniq);
    switch (k) {
      case 0: o.put("let " + t + " = " + small() + ";"); break;
      case 1: o.put(""); break;
      case 2: o.put("// a comment ' \" /* "); break;
      case 3:
        o.put("/* a comment");
        if (s.chance(1, 2)) o.put("   // of more lines");
        o.put("*/ let " + t + " = 1;");
        break;
      case 4:
        o.put("let " + t + " = 'a string" + (s.chance(1, 3) ? "\\" : ""));
        o.put("with a line break';");
        c.label("line break in a string");
        break;
      case 5: {
        size_t n = s.below(300);
        if (size == 2 && longs < 3 && s.chance(1, 10)) {
          n = 16000 + s.below(500);
          longs++;
        }
        o.put("let " + t + " = '" + std::string(n, 'x') + "';");
        break;
      }
      case 6:
        o.put(strf("if (%d) {", (int) s.below(2)));
        fillers(o, d - 1);
        if (s.chance(1, 2)) {
          o.put("} else {");
          fillers(o, d - 1);
        }
        o.put("}");
        break;
      case 7:
        o.put(strf("for (let i%d = 0; i%d < %d; i%d++) {", uniq, uniq, (int) s.below(3), uniq));
        fillers(o, d - 1);
        o.put("}");
        break;
      case 8:
        o.put("while (false) {");
        fillers(o, d - 1);
        o.put("}");
        break;
      case 9:
        o.put("let " + t + " = function(a, b) {");
        fillers(o, d - 1);
        if (s.chance(1, 2)) o.put(s.chance(1, 2) ? "return;" : "return a;");
        o.put("};");
        if (s.chance(1, 2)) o.put(t + "(1, 2);");
        break;
      case 10:
        o.put("let " + t + " = {a: 1,");
        o.put("  b: [1,");
        o.put("    2], c: " + small() + "};");
        break;
      case 11: o.put("ok(" + small() + ");"); break;
      case 12:
        o.put("swallow(function() { ok(1); return no_such_variable; });");
        c.label("handled error");
        break;
      case 13: o.put(";"); break;
      case 14: o.put("let " + t + " = 1; { let u = " + t + "; " + t + " += u; }"); break;
    }
  }
  void fillers(Out &o, int d) {
    int n = (int) s.below(4);
    for (int i = 0; i < n; i++) filler(o, d);
  }
  // an expression whose evaluation calls or fails
  std::string in_expr(const std::string &e) {
    switch (s.below(9)) {
      case 0: return e + ";";
      case 1: return strf("let q%d = ", ++uniq) + e + ";";
      case 2: return "ok(1, " + e + ");";
      case 3: return "let o" + strf("%d", ++uniq) + " = {a: 1, b: [1, " + e + "]};";
      case 4: return "true && (" + e + ");";
      case 5: return "1 ? " + e + " : 0;";
      case 6: return "if (" + e + ") { ok(1); }";
      case 7: return "while (" + e + ") { break; }";
      default: return "for (let z = " + e + "; z < 1; z++) { ok(); }";
    }
  }
  std::string fail_expr() {
    switch (s.below(12)) {
      case 0: return "no_such_variable";
      case 1: return "no_such_function(1)";
      case 2: return "1 + no_such_variable";
      case 3: return "die('the end')";
      case 4: return "fail(1)";
      case 5: return "prepend(1)";
      case 6: return "(5)(1)";
      case 7: return "'a' - {}";
      case 8: return "JSON.parse('[')";
      case 9: return "undefined.x";
      case 10: return "load('/no/such/file')";
      default: return "({a: 1}).a.b.c";
    }
  }
  // code whose execution reaches frame k's event on the given script
  void body(Out &o, int k) {
    int d = 2;
    fillers(o, d);
    // blocks around the event
    std::vector<std::string> close;
    int nb = (int) s.below(size ? 5 : 3);
    for (int i = 0; i < nb; i++) {
      switch (s.below(6)) {
        case 0:
          o.put("if (1) {");
          close.push_back("}");
          break;
        case 1:
          o.put("if (0) {");
          fillers(o, 1);
          o.put("} else {");
          close.push_back("}");
          break;
        case 2: {
          int u = ++uniq;
          o.put(strf("for (let j%d = 0; j%d < 1; j%d++) {", u, u, u));
          close.push_back("}");
          break;
        }
        case 3:
          o.put("while (1) {");
          close.push_back("break; }");
          break;
        case 4: o.put(strf("for (let k%d in {a: 1}) {", ++uniq)); close.push_back("}"); break;
        default: o.put("{"); close.push_back("}");
      }
      fillers(o, 1);
    }
    if (k == depth) {
      int l = o.line();
      o.put(goal ? in_expr("where()") : in_expr(fail_expr()));
      trace.push_back({o.file, l, l});
    } else {
      std::string f = strf("f%d", k + 1);
      int how = s.weighted({6, 2, 2, 2, (int) outs.size() < 3 ? 2 : 0, 2});
      if (how == 4) {  // another file
        Out n;
        n.file = (int) outs.size();
        outs.push_back(n);
        int l = o.line();
        o.put(in_expr("load('" + name(n.file) + "')"));
        trace.push_back({o.file, l, l});
        Out tmp = n;
        body(tmp, k + 1);
        outs[n.file] = tmp;
        c.label("load");
      } else if (how == 5) {  // a function literal called in place
        int l = o.line();
        o.put("(function(a) {");
        size_t at = trace.size();
        trace.push_back({});
        body(o, k + 1);
        trace[at] = {o.file, l, o.line()};
        o.put("})(1);");
      } else {
        // the function is defined here, or inside a block
        o.put("let " + f + " = function(a, b, c) {");
        size_t at = trace.size();
        trace.push_back({});
        body(o, k + 1);
        o.put("};");
        fillers(o, 1);
        std::string e = how == 0 ? f + "(1, 2)" : how == 1 ? f + ".apply(null, [1])" : how == 2 ? "call(" + f + ")" : "({m: " + f + "}).m(1)";
        if (how == 1) c.label("apply");
        if (how == 2) c.label("C call");
        int l = o.line();
        o.put(in_expr(e));
        trace[at] = {o.file, l, l};
      }
    }
    while (!close.empty()) {
      fillers(o, 1);
      o.put(close.back());
      close.pop_back();
    }
    fillers(o, d);
  }
  std::string want(const Place &p) { return p.lo == p.hi ? strf("%s:%d", name(p.file).c_str(), p.lo) : strf("%s:%d-%d", name(p.file).c_str(), p.lo, p.hi); }
  void judge(const std::vector<std::pair<std::string, int>> &got, const char *what) {
    std::string g, w;
    bool ok = got.size() == trace.size();
    for (auto &x : got) g += strf("%s:%d ", x.first.c_str(), x.second);
    for (size_t i = 0; i < trace.size(); i++) {
      const Place &p = trace[trace.size() - 1 - i];
      w += want(p) + " ";
      if (ok) ok = got[i].first == name(p.file) && got[i].second >= p.lo && got[i].second <= p.hi;
    }
    if (!ok) failf("%s: %s, expected %s", what, g.c_str(), w.c_str());
  }
};

std::string errtext(struct mjs *m) {
  char *p = nullptr;
  size_t n = 0;
  FILE *f = open_memstream(&p, &n);
  mjs_print_error(m, f, "ERR", 1);
  fclose(f);
  std::string r(p, n);
  free(p);
  return r;
}
std::vector<std::pair<std::string, int>> parse_trace(const std::string &t) {
  std::vector<std::pair<std::string, int>> r;
  size_t i = 0;
  while (t.compare(i, 5, "  at ") == 0) {
    size_t e = t.find('\n', i);
    if (e == std::string::npos) break;
    std::string l = t.substr(i + 5, e - i - 5);
    size_t k = l.rfind(':');
    if (k == std::string::npos) failf("trace line without line number: %s", l.c_str());
    r.push_back({l.substr(0, k), atoi(l.c_str() + k + 1)});
    i = e + 1;
  }
  return r;
}
void put(const std::string &p, const std::string &t) {
  FILE *f = fopen(p.c_str(), "wb");
  if (!f || fwrite(t.data(), 1, t.size(), f) != t.size()) _exit(4);
  fclose(f);
}
void natives(VM &vm) {
  mjs_val_t g = mjs_get_global(vm.m);
  struct {
    const char *n;
    void (*f)(struct mjs *);
  } t[] = {{"where", nat_where}, {"fail", nat_fail}, {"prepend", nat_prepend}, {"call", nat_call}, {"swallow", nat_swallow}};
  for (auto &x : t) mjs_set(vm.m, g, x.n, ~0, mjs_mk_foreign_func(vm.m, (mjs_func_ptr_t) x.f));
}

// errors found while parsing name the line of the offending token
void syntax_case(Src &s, Case &c, VM &vm, G &g) {
  Out o;
  o.file = 0;
  g.budget = 60;
  int n = (int) s.range(0, 6);
  for (int i = 0; i < n; i++) g.filler(o, 2);
  int nest = (int) s.below(4);
  for (int i = 0; i < nest; i++) {
    o.put(s.chance(1, 2) ? "if (1) {" : strf("let n%d = function() {", i));
    g.fillers(o, 1);
  }
  int l = o.line();
  static const std::vector<std::string> bad = {"let = 3;", "ok(;", "ok(1, @);", "let b = [1, 2;", "if (1 { ok(1); }", "let x = 1 +;", "let x = {a 1};", "x = * 2;", "for (let i = 0 i < 2; i++) {}", "a.;", "let q = #;"};
  o.put(s.pick(bad));
  if (s.chance(1, 2)) g.fillers(o, 1);
  std::string src = o.text(s.chance(1, 2));
  c.show(src);
  int e = vm.exec(src);
  std::string t = errtext(vm.m);
  if (e != MJS_SYNTAX_ERROR) failf("error %d (%s), expected a syntax error", e, t.c_str());
  std::string w = strf("parse error at line %d:", l);
  if (t.find(w) == std::string::npos) failf("the message is %s, expected '%s'", quote(t).c_str(), w.c_str());
  if (!parse_trace(t).empty()) failf("a parse error has a stack trace: %s", quote(t).c_str());
  c.label("parse error");
  c.nontrivial = l > 2;
}
}  // namespace

void prop_case(Src &s, Case &c) {
  G g(s, c);
  const char *sd = getenv("VERIF_SCRATCH");
  g.dir = strf("%s/p19_%d", sd ? sd : "/tmp", (int) getpid());
  g.size = s.weighted({3, 3, 2});
  std::string hist;
  std::string fail;
  mkdir(g.dir.c_str(), 0700);
  {
    VM vm;
    natives(vm);
    vm.exec("let ok = function(a) {\n let r = a;\n return 0;\n};\n");
    try {
      int before = (int) s.below(3);  // what happened earlier in this instance does not show
      for (int i = 0; i < before; i++) {
        vm.exec(s.chance(1, 2) ? "let w" + strf("%d", i) + " = 1;\n\n\nno_such_thing();\n" : "let w" + strf("%d", i) + " = function() {\n\n};");
      }
      if (s.chance(1, 6)) {
        syntax_case(s, c, vm, g);
      } else {
        g.depth = (int) s.below(5);
        g.goal = s.chance(1, 4);
        Out o;
        bool in_file = s.chance(1, 3);
        o.file = in_file ? 1 : 0;
        g.outs.resize(1 + in_file);
        g.body(o, 0);
        g.outs[o.file] = o;
        std::string show;
        for (size_t i = 0; i < g.outs.size(); i++) {
          std::string t = g.outs[i].text(s.chance(1, 2));
          if (i) put(g.name((int) i), t);
          if (t.empty()) continue;
          std::string n = t;
          for (size_t k; (k = n.find(g.dir)) != std::string::npos;) n.replace(k, g.dir.size(), "D");
          // long literals are abbreviated
          for (size_t k = 0; (k = n.find(std::string(40, 'x'), k)) != std::string::npos;) {
            size_t q = n.find_first_not_of('x', k);
            n.replace(k, q - k, strf("<%d x>", (int) (q - k)));
          }
          show += strf("---- script %d\n", (int) i) + n;
        }
        c.show(show);
        g_where_set = false;
        if (s.chance(1, 4)) {
          g_step.gc_den = (unsigned) s.range(4, 30);
          g_step.gc_state = s.bits(32);
        }
        if (s.chance(1, 3)) mjs_set_generate_jsc(vm.m, 1);
        mjs_val_t r = MJS_UNDEFINED;
        int e = in_file ? mjs_exec_file(vm.m, g.name(1).c_str(), &r) : vm.exec(g.outs[0].text(s.chance(1, 2)));
        std::string t = errtext(vm.m);
        if (g.goal) {
          if (e) failf("error %d: %s", e, t.c_str());
          if (!g_where_set) failf("where() was not called");
          g.judge(g_where, "call frames");
          const Place &p = g.trace.back();
          if (g_where0_file != g.name(p.file) || g_where0 != p.lo) failf("frame 0: %s:%d, expected %s", g_where0_file.c_str(), g_where0, g.want(p).c_str());
          if (g_where_end != -1) failf("the offset of a frame that does not exist is %d", g_where_end);
          if (!parse_trace(t).empty()) failf("there is a stack trace without an error: %s", t.c_str());
          c.label("frames");
        } else {
          if (!e) failf("no error");
          g.judge(parse_trace(t), "stack trace");
          c.label("trace");
        }
        c.nontrivial = g.trace.size() >= 2;
      }
    } catch (Fail &f) {
      fail = f.msg;
    }
  }
  rm_rf(g.dir);
  if (!fail.empty()) failf("%s", fail.c_str());
}
