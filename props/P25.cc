// P25: the command line tool runs what it is given, in order; logging, dumps and
// disassembly change nothing.
#define MJS_ENABLE_DEBUG 1
#include <fcntl.h>
#include <map>
#include <set>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "ctlgen.h"
#include "diff.h"
#include "exprgen.h"
#include "fungen.h"
#include "relayout.h"
extern "C" {
#include "common/cs_dbg.h"
extern FILE *cs_log_file;
}
#define main mjs_cli_main
#define MJS_MAIN
#define cs_log_set_level(x) cs_log_set_level((enum cs_log_level)(x))
extern "C" {
#include "mjs_main.c"
}
#undef main
#undef MJS_MAIN
#undef cs_log_set_level
#undef MJS_UNDEFINED
#define MJS_UNDEFINED (mjs_mk_undefined())
using namespace lang;
const char *PROP_ID = "P25";

namespace {
void put(const std::string &p, const std::string &t) {
  FILE *f = fopen(p.c_str(), "wb");
  if (!f || fwrite(t.data(), 1, t.size(), f) != t.size()) {
    fprintf(stderr, "cannot write %s\n", p.c_str());
    _exit(4);
  }
  fclose(f);
}
std::string slurp(const std::string &p) {
  std::string o;
  FILE *f = fopen(p.c_str(), "rb");
  if (!f) return o;
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof(b), f)) > 0) o.append(b, n);
  fclose(f);
  return o;
}

// ------------------------------------------------------------------- the tool
struct Ran {
  int status;
  std::string out, err;
};
Ran tool(const std::string &dir, const std::vector<std::string> &args) {
  Ran r;
  std::string fo = dir + "/.out", fe = dir + "/.err";
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) _exit(4);
  if (pid == 0) {
    if (chdir(dir.c_str()) != 0) _exit(4);
    int o = open(".out", O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(".err", O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(o, 1);
    dup2(e, 2);
    close(o);
    close(e);
    long live = vf_live();
    std::vector<char *> av;
    std::vector<std::string> copy = args;
    copy.insert(copy.begin(), "mjs");
    for (auto &a : copy) av.push_back(&a[0]);
    av.push_back(nullptr);
    g_step = StepCtl();
    cs_log_level = LL_ERROR;
    int rc = mjs_cli_main((int) copy.size(), av.data());
    fflush(stdout);
    fflush(stderr);
    if (rc == 0 && vf_live() != live) rc = 77;  // the usage text and wrong flags end the process without cleaning up
    _exit(rc);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) {
  }
  r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  r.out = slurp(fo);
  r.err = slurp(fe);
  return r;
}

struct Cli {
  Src &s;
  Case &c;
  std::string dir;
  std::vector<std::string> args;
  std::map<std::string, std::string> files;
  std::vector<std::string> lines;         // what print() shows
  std::string last = "undefined";         // what the tool prints for the last value
  std::vector<std::string> fail;          // texts the report of the failure must hold
  bool failed = false, bad_flag = false, usage = false, jsc = false;
  std::vector<std::string> want_jsc, no_jsc;
  std::map<std::string, long> vars;
  int uniq = 0;
  Cli(Src &s, Case &c) : s(s), c(c) {}
  // a script and what it does; live: it is run
  std::string script(bool live, const std::string &where, bool may_fail) {
    std::string o;
    int n = (int) s.range(0, 5), line = 1;
    std::string val = "undefined";
    bool has = false;
    auto nl = [&]() {
      if (s.chance(1, 3)) {
        o += "\n";
        line++;
      } else
        o += " ";
    };
    for (int i = 0; i < n; i++) {
      switch (s.below(5)) {
        case 0: {
          std::string v = strf("v%d", ++uniq);
          long x = s.range(-1000, 1000);
          o += strf("let %s = %ld;", v.c_str(), x);
          if (live) vars[v] = x;
          has = true;
          val = "?";
          break;
        }
        case 1: {
          std::string t = strf("tag%d", ++uniq);
          o += "print('" + t + "');";
          if (live) lines.push_back(t);
          has = true;
          val = "undefined";
          break;
        }
        case 2:
          if (!vars.empty()) {
            auto it = vars.begin();
            std::advance(it, s.below(vars.size()));
            long d = s.range(0, 9);
            o += strf("%s = %s + %ld; print('is', %s);", it->first.c_str(), it->first.c_str(), d, it->first.c_str());
            if (live) {
              it->second += d;
              lines.push_back(strf("is %ld", it->second));
            }
            has = true;
            val = "undefined";
          }
          break;
        case 3: {
          static const std::vector<std::pair<std::string, std::string>> lit = {{"17;", "17"}, {"-4;", "-4"}, {"'a text';", "a text"}, {"'';", ""}, {"true;", "true"}, {"null;", "null"}, {"undefined;", "undefined"}, {"({a: 1});", "<object>"}, {"[1, 2];", "<array>"}, {"'a longer ' + 'text, put together';", "a longer text, put together"}};
          auto &l = s.pick(lit);
          o += l.first;
          val = l.second;
          has = true;
          break;
        }
        default:
          o += "if (true) { function_of_no_use; }" + std::string();
          o.resize(o.size() - strlen("if (true) { function_of_no_use; }"));
          o += "// a comment\n";
          line++;
      }
      nl();
    }
    if (may_fail && s.chance(1, 6)) {
      if (live) failed = true;
      switch (s.below(3)) {
        case 0: {
          std::string v = strf("nosuch%d", ++uniq);
          o += v + ";";
          if (live) fail = {v, "is not defined", strf("%s:%d", where.c_str(), line)};
          break;
        }
        case 1:
          o += "1 + 'x';";
          if (live) fail = {strf("%s:%d", where.c_str(), line)};
          break;
        default:
          o += strf("die('message%d');", ++uniq);
          if (live) fail = {strf("message%d", uniq), strf("%s:%d", where.c_str(), line)};
      }
      o += " print('not reached');";
    } else if (may_fail && s.chance(1, 12)) {
      // nothing of a text that is no program is run
      size_t keep = lines.size();
      (void) keep;
      o += "let = = (";
      if (live) {
        failed = true;
        fail = {"parse error"};
        syntax = true;
      }
    }
    if (live && !failed) {
      if (has) last = val;
      else last = "?";
    }
    return o;
  }
  bool syntax = false;
  void item(bool flag, bool live) {
    std::vector<std::string> before = lines;
    auto vb = vars;
    std::string lb = last;
    syntax = false;
    if (flag && s.chance(1, 2)) {
      args.push_back("-e");
      args.push_back(script(live, "<stdin>", true));
    } else {
      std::string name;
      bool again = !files.empty() && s.chance(1, 8);
      static const std::vector<std::string> forms = {"f%d.js", "f%d.js", "sub/f%d.js", "a file %d.js", "f%d.txt", "f%d", "-f%d.js", "f%d.jsx", "./f%d.js"};
      (void) again;
      name = strf(s.pick(forms).c_str(), ++uniq);
      if (!flag && name[0] == '-') name = "./" + name;
      if (live && s.chance(1, 15)) {
        failed = true;
        fail = {name};
      } else if (s.chance(1, 15)) {
        files[name] = "";
        if (live) last = "?";
      } else {
        files[name] = script(live, name, true);
      }
      if (flag) args.push_back("-f");
      args.push_back(name);
      if (live && !failed && name.size() > 3 && name.substr(name.size() - 3) == ".js") (jsc ? want_jsc : no_jsc).push_back(name + "c");
    }
    if (syntax) lines = before, vars = vb;
  }
  void run() {
    dir = scratch_path("p25");
    rm_rf(dir);
    mkdir(dir.c_str(), 0700);
    mkdir((dir + "/sub").c_str(), 0700);
    int n = (int) s.range(0, 5);
    for (int i = 0; i < n; i++) {
      bool live = !failed && !bad_flag && !usage;
      switch (s.weighted({6, 2, 1, 1, 1})) {
        case 0: item(true, live); break;
        case 1:
          args.push_back("-l");
          args.push_back(strf("%d", (int) s.range(-1, 5)));
          break;
        case 2:
          args.push_back("-j");
          if (live) jsc = true;
          break;
        case 3:
          if (s.chance(1, 3)) {
            args.push_back(s.chance(1, 2) ? "-h" : "--help");
            if (live) usage = true;
          }
          break;
        default:
          if (s.chance(1, 3)) {
            args.push_back(s.pick(std::vector<std::string>{"-q", "-", "--", "-ee", "-F", "--version", "-l5", "-e1", "-jj"}));
            if (live) bad_flag = true;
          }
      }
    }
    if (s.chance(1, 25)) {
      bool live = !failed && !bad_flag && !usage;
      args.push_back(s.pick(std::vector<std::string>{"-e", "-f", "-l"}));
      if (live) bad_flag = true;
    } else {
      int k = s.chance(1, 2) ? 0 : (int) s.range(1, 4);
      for (int i = 0; i < k; i++) {
        bool live = !failed && !bad_flag && !usage;
        if (i > 0 && s.chance(1, 20)) {
          args.push_back(s.pick(std::vector<std::string>{"-e", "-l", "-j", "-h"}));  // names of files by now
          if (live) {
            failed = true;
            fail = {args.back()};
          }
        } else
          item(false, live);
      }
    }
    std::string t = "mjs";
    for (auto &a : args) t += " " + quote(a);
    t += "\n";
    for (auto &f : files) {
      put(dir + "/" + f.first, f.second);
      t += "--- " + f.first + "\n" + f.second + "\n";
    }
    c.show(t);
    Ran r = tool(dir, args);
    auto say = [&](const std::string &what) { failf("%s\nexit status %d\nstdout: %s\nstderr: %s", what.c_str(), r.status, quote(r.out.substr(0, 1500)).c_str(), quote(r.err.substr(0, 1500)).c_str()); };
    if (r.status >= 1000 || r.status == 99) say("the tool crashes");
    if (r.status == 77 && !usage) say("the tool leaves memory behind");
    if (bad_flag ? r.status == 0 : !failed && !usage && r.status != 0) say("the exit status is wrong");
    // the lines printed come first, in order
    size_t at = 0;
    for (auto &l : lines) {
      if (r.out.compare(at, l.size(), l) != 0) say("expected the line " + quote(l) + strf(" at offset %d of the output", (int) at));
      at += l.size();
      while (at < r.out.size() && r.out[at] == ' ') at++;
      if (at >= r.out.size() || r.out[at] != '\n') say("expected the end of the line after " + quote(l));
      at++;
    }
    std::string rest = r.out.substr(at);
    if (rest.find("not reached") != std::string::npos || rest.find("tag") != std::string::npos) say("more is executed than expected");
    if (bad_flag) {
      if (r.err.find("nknown flag") == std::string::npos || r.err.find(args.back()) == std::string::npos) {
        bool any = false;
        for (auto &a : args) any = any || r.err.find("[" + a + "]") != std::string::npos;
        if (!any) say("the wrong flag is not named");
      }
      if (!rest.empty()) say("output after the wrong flag");
    } else if (usage) {
      for (const char *w : {"-e", "-j", "-f", "-l"})
        if (rest.find(w) == std::string::npos) say("the usage text does not mention an option");
    } else if (failed) {
      for (auto &f : fail)
        if (rest.find(f) == std::string::npos) say("the report of the failure lacks " + quote(f));
    } else if (last != "?") {
      if (rest != last + "\n") say("the last value is printed as " + quote(rest) + ", expected " + quote(last));
    }
    struct stat st;
    for (auto &f : want_jsc)
      if (stat((dir + "/" + f).c_str(), &st) != 0) say("-j leaves no " + f);
    for (auto &f : no_jsc)
      if (stat((dir + "/" + f).c_str(), &st) == 0) say(f + " appears without -j");
    c.label(bad_flag ? "wrong flag" : usage ? "usage" : failed ? "failure" : "success");
    if (jsc) c.label("-j");
    c.nontrivial = args.size() >= 3 && lines.size() >= 1;
    rm_rf(dir);
  }
};

// ------------------------------------------------------------ logging changes nothing
struct Obs {
  int err;
  std::vector<std::string> log;
  std::string result, globals, msg;
};
Obs observe(const std::string &src, std::function<void(struct mjs *)> each, bool *ex) {
  VM vm;
  Obs r;
  g_step.fuel = 3000;
  g_step.mem_guard = false;
  mjs_val_t g = mjs_get_global(vm.m), v = MJS_UNDEFINED;
  for (const char *name : {"ffi", "ffi_cb_free", "mkstr", "s2o", "getMJS", "print", "die", "load"}) mjs_set(vm.m, g, name, ~0, MJS_UNDEFINED);
  g_step.each = each;
  r.err = vm.exec(src, nullptr, &v);
  g_step.each = nullptr;
  r.result = r.err ? "" : ser(vm.m, v);
  r.msg = r.err ? vm.err() : "";
  r.globals = ser(vm.m, g, 10);
  r.log = vm.log;
  *ex = g_step.exhausted;
  vm.destroy();
  return r;
}

void logging(Src &s, Case &c) {
  std::string src;
  switch (s.below(4)) {
    case 0: {
      GenCfg cfg;
      cfg.stmts = (int) s.range(2, 6);
      cfg.block_depth = (int) s.range(1, 3);
      cfg.err_pct = s.chance(1, 2) ? 4 : 0;
      cfg.ctl_bias = (int) s.range(1, 3);
      src = print_stmts(Gen(s, cfg).program());
      break;
    }
    case 1: {
      CtlGen g(s);
      g.err_pct = s.chance(1, 3) ? 2 : 0;
      src = print_stmts(g.program());
      break;
    }
    case 2: src = print_stmts(ExprGen(s).program(4, 3)); break;
    default: src = print_stmts(FunGen(s).program());
  }
  if (s.chance(1, 8)) src += s.pick(std::vector<std::string>{" (", " let ", " {", " 'x' +", " }"});
  if (s.chance(1, 8)) src += "; '" + std::string(s.range(100, 3000), 'y') + "';";
  c.show(src);
  engine_hang_ok(true);
  bool ex = false, ex2 = false;
  cs_log_level = LL_ERROR;
  Obs a = observe(src, nullptr, &ex);
  if (ex) {
    c.skip = true;
    c.label("skip: too long");
    return;
  }
  std::string lf = scratch_path("p25.log");
  FILE *f = fopen(lf.c_str(), "wb+");
  if (!f) _exit(4);
  FILE *old = cs_log_file;
  std::string what;
  cs_log_set_file(f);
  int mode = (int) s.below(3);
  if (mode == 0) {
    int l = (int) s.range(-1, 5);
    cs_log_set_level((enum cs_log_level) l);
    what = strf("log level %d", l);
  } else if (mode == 1) {
    what = s.pick(std::vector<std::string>{"mjs_exec.c=4", "mjs_parser.c=4,mjs_exec.c=0", "=4", "mjs_tok.c:2=4,=1", "mjs_util.c=4", ",,=,=3", "mjs=4"});
    cs_log_set_file_level(what.c_str());
    what = "log filter " + what;
  } else {
    cs_log_set_level(LL_VERBOSE_DEBUG);
    what = "mjs_dump during the execution";
  }
  uint64_t st = s.bits(32);
  unsigned den = (unsigned) s.range(1, 200);
  long budget = 40;
  std::function<void(struct mjs *)> each;
  if (mode == 2)
    each = [&](struct mjs *m) {
      st = st * 6364136223846793005ULL + 1442695040888963407ULL;
      if ((st >> 33) % den == 0 && budget-- > 0) {
        fflush(f);
        mjs_dump(m, (int) (st >> 40) & 1);
      }
    };
  Obs b = observe(src, each, &ex2);
  cs_log_set_level(LL_ERROR);
  cs_log_set_file_level(NULL);
  cs_log_file = old;
  fflush(f);
  long written = ftell(f);
  fclose(f);
  unlink(lf.c_str());
  c.show(src + "\n----- " + what);
  if (a.err != b.err) failf("%s: error code %d, otherwise %d", what.c_str(), b.err, a.err);
  compare_logs(b.log, a.log, what.c_str());
  if (a.result != b.result) failf("%s: result %s, otherwise %s", what.c_str(), b.result.c_str(), a.result.c_str());
  if (a.globals != b.globals) failf("%s: globals %s, otherwise %s", what.c_str(), b.globals.c_str(), a.globals.c_str());
  if (a.msg != b.msg) failf("%s: error message %s, otherwise %s", what.c_str(), quote(b.msg).c_str(), quote(a.msg).c_str());
  c.label(mode == 0 ? "log level" : mode == 1 ? "log filter" : "dump");
  c.label(written > 0 ? "something logged" : "nothing logged");
  c.nontrivial = a.log.size() >= 2 && written > 0;
}

// --------------------------------------------------------------- the listing
// The instructions the trace shows are instructions of the listing, and jumps
// go where both say.
struct Ins {
  long off;
  std::string op, rest;
};
bool ins(const std::string &l, Ins *o) {
  size_t t = l.find('\t');
  if (t == std::string::npos || t + 1 >= l.size() || !isdigit((unsigned char) l[t + 1])) return false;
  char *e;
  o->off = strtol(l.c_str() + t + 1, &e, 10);
  if (*e != ' ') return false;
  while (*e == ' ') e++;
  std::string r = e;
  size_t k = r.find_first_of("\t ");
  o->op = r.substr(0, k);
  o->rest = k == std::string::npos ? "" : r.substr(k);
  for (char ch : o->op)
    if (!isupper((unsigned char) ch) && ch != '_' && ch != '?') return false;
  return !o->op.empty();
}
void listing(Src &s, Case &c) {
  std::string src;
  switch (s.below(4)) {
    case 0: {
      GenCfg cfg;
      cfg.stmts = (int) s.range(1, 6);
      cfg.block_depth = (int) s.range(1, 3);
      cfg.ctl_bias = (int) s.range(1, 3);
      src = print_stmts(Gen(s, cfg).program());
      break;
    }
    case 1: src = print_stmts(CtlGen(s).program()); break;
    case 2: src = print_stmts(ExprGen(s).program(4, 3)); break;
    default: src = print_stmts(FunGen(s).program());
  }
  if (s.chance(1, 6)) src += "; '" + std::string(s.range(100, 20000), 'y') + "';";
  if (s.chance(1, 6)) {
    src += "; let wide = function(p0";
    int n = (int) s.range(2, 140);
    for (int i = 1; i < n; i++) src += strf(", p%d", i);
    src += ") { return p1; }; wide(1, 2);";
  }
  c.show(src);
  engine_hang_ok(true);
  std::string lf = scratch_path("p25l.log");
  FILE *f = fopen(lf.c_str(), "wb+");
  if (!f) _exit(4);
  FILE *old = cs_log_file;
  cs_log_set_file(f);
  cs_log_set_level(LL_VERBOSE_DEBUG);
  bool ex = false;
  Obs a = observe(src, nullptr, &ex);
  cs_log_set_level(LL_ERROR);
  cs_log_file = old;
  fclose(f);
  std::string log = slurp(lf);
  unlink(lf.c_str());
  std::map<long, Ins> list;
  std::vector<Ins> trace;
  long last = -1;
  int dumps = 0;
  bool in = false;
  for (size_t i = 0; i < log.size();) {
    size_t e = log.find('\n', i);
    if (e == std::string::npos) e = log.size();
    std::string l = log.substr(i, e - i);
    i = e + 1;
    Ins x;
    if (l.find("MJS VM DUMP BEGIN") != std::string::npos) in = true, dumps++;
    else if (l.find("MJS VM DUMP END") != std::string::npos) in = false;
    else if (ins(l, &x)) {
      if (!in) trace.push_back(x);
      else {
        if (x.off <= last) failf("the listing shows the instruction at %ld after the one at %ld", x.off, last);
        if (x.op == "???") failf("the listing shows something unknown at %ld", x.off);
        last = x.off;
        list[x.off] = x;
      }
    }
  }
  if (dumps != 1 || list.empty()) {
    c.label("listing: none");
    return;
  }
  for (size_t i = 0; i < trace.size(); i++) {
    auto it = list.find(trace[i].off);
    if (it == list.end()) failf("the instruction executed at %ld (%s%s) is not in the listing", trace[i].off, trace[i].op.c_str(), trace[i].rest.c_str());
    if (it->second.op != trace[i].op || it->second.rest != trace[i].rest)
      failf("%ld is listed as %s%s, executed as %s%s", trace[i].off, it->second.op.c_str(), it->second.rest.c_str(), trace[i].op.c_str(), trace[i].rest.c_str());
    static const std::set<std::string> straight = {"NOP", "DROP", "DUP", "SWAP", "FIND_SCOPE", "PUSH_SCOPE", "GET", "CREATE", "EXPR", "APPEND", "SET_ARG", "NEW_SCOPE", "DEL_SCOPE", "LOOP", "SETRETVAL", "ARGS"};
    if ((trace[i].op.compare(0, 5, "PUSH_") == 0 || straight.count(trace[i].op)) && i + 1 < trace.size()) {
      auto n = std::next(it);
      if (n == list.end() || n->first != trace[i + 1].off)
        failf("%s%s at %ld is followed by the instruction at %ld, which is not the next one listed", trace[i].op.c_str(), trace[i].rest.c_str(), trace[i].off, trace[i + 1].off);
    }
    if (trace[i].op.compare(0, 3, "JMP") == 0 && i + 1 < trace.size()) {
      long to = strtol(trace[i].rest.c_str(), nullptr, 10), next = trace[i + 1].off;
      auto fall = std::next(it);
      bool ok = next == to || (trace[i].op != "JMP" && fall != list.end() && next == fall->first);
      if (!ok) failf("%s%s at %ld is followed by the instruction at %ld", trace[i].op.c_str(), trace[i].rest.c_str(), trace[i].off, next);
    }
  }
  c.label("listing");
  c.nontrivial = trace.size() >= 20;
}

// ------------------------------------------------------------------ the log filter
void filter(Src &s, Case &c) {
  static const std::vector<std::string> names = {"main.c", "mjs.c", "mongoose.c", "m.c", "mjs_exec.c", "a_rather_long_file_name_indeed.c", "x"};
  std::string spec, shown;
  std::vector<std::pair<std::string, int>> e;
  int n = (int) s.range(0, 4);
  for (int i = 0; i < n; i++) {
    std::string k = s.chance(1, 5) ? "" : s.pick(names);
    if (!k.empty() && s.chance(1, 4)) k = k.substr(0, s.below(k.size()) + 1);
    else if (!k.empty() && k.size() < 15 && s.chance(1, 3)) k += strf(":%d", (int) s.range(1, 130));
    int l = (int) s.range(0, 4);
    e.push_back({k, l});
    spec += (i ? "," : "") + k + strf("=%d", l);
  }
  bool use = n > 0;
  int lev = (int) s.range(-1, 4);
  std::string lf = scratch_path("p25.log");
  FILE *f = fopen(lf.c_str(), "wb+");
  if (!f) _exit(4);
  FILE *old = cs_log_file;
  cs_log_set_file(f);
  cs_log_set_level((enum cs_log_level) lev);
  if (use) cs_log_set_file_level(spec.c_str());
  shown = strf("level %d, filter %s\n", lev, use ? spec.c_str() : "none");
  std::string want;
  int k = (int) s.range(1, 12);
  std::string bad;
  for (int i = 0; i < k; i++) {
    std::string file = s.pick(names), path = s.chance(1, 2) ? file : s.pick(std::vector<std::string>{"/a/b/", "src/", "C:\\x\\", "./"}) + file;
    int ln = (int) s.pick(std::vector<int>{1, 9, 10, 12, 99, 100, 123, 999, 1000, 9999, 10000, 54321});
    int l = (int) s.range(0, 4);
    std::string num = strf(":%d", ln), pre = file.substr(0, std::min(file.size(), (size_t) 24 - num.size() - 1)) + num;
    pre += std::string(24 - pre.size(), ' ');
    int eff = lev;
    if (use)
      for (auto &x : e)
        if (pre.compare(0, x.first.size(), x.first) == 0) {
          eff = x.second;
          break;
        }
    bool yes = l <= eff;
    int got = cs_log_print_prefix((enum cs_log_level) l, path.c_str(), ln);
    shown += strf("%s:%d at level %d: %s\n", path.c_str(), ln, l, got ? "yes" : "no");
    if ((got != 0) != yes && bad.empty()) bad = strf("a message of level %d from %s:%d is %s", l, path.c_str(), ln, got ? "logged" : "dropped");
    if (got) {
      cs_log_printf("%s %d%%", "text", i);
      want += pre + strf("text %d%%\n", i);
    }
  }
  c.show(shown);
  cs_log_set_file_level(NULL);
  cs_log_set_level(LL_ERROR);
  cs_log_file = old;
  fclose(f);
  std::string got = slurp(lf);
  unlink(lf.c_str());
  if (!bad.empty()) failf("%s", bad.c_str());
  if (got != want) failf("the log holds %s, expected %s", quote(got).c_str(), quote(want).c_str());
  c.label("filter");
  c.nontrivial = use && k >= 3;
}
}  // namespace

void prop_case(Src &s, Case &c) {
  switch (s.weighted({5, 4, 2, 2})) {
    case 0: Cli(s, c).run(); break;
    case 1: logging(s, c); break;
    case 3: listing(s, c); break;
    default: filter(s, c);
  }
}
