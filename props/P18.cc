// P18: scripts in files: load(), mjs_exec_file, namespaces, precompiled files.
#include <dirent.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include "mv.h"
const char *PROP_ID = "P18";

namespace {
enum { ERR_TYPE = 3, ERR_REF = 2, ERR_SYNTAX = 1 };
struct Op {
  enum K { LOG, SET, LET, READ, LOAD, DEF, CALL, DIE, REF, VALUE } k;
  int a = 0, b = 0;   // variable, file, function; value, object (-1: none)
};
struct File {
  std::vector<Op> ops;
  bool syntax = false;
  bool exists = true;
  int pad = 0;  // bytes of code in front that is not executed
  int version = 0;
};
struct Part {          // what an instance remembers of a file
  std::vector<Op> ops;
  int version = 0;
  bool done = false;   // evaluated successfully in the current namespace
};
struct FnDef {
  int id;
};
struct Err {
  int code;
};
// one instance and the model of it
struct Inst {
  VM *vm;
  std::map<std::string, std::string> glob;               // variables v0.., x0.. and functions, as text
  std::vector<std::map<std::string, std::string>> objs;  // namespaces o0..
  std::map<int, Part> parts;
  std::vector<std::string> log;
  bool jsc = false;
};

size_t open_fds() {
  size_t n = 0;
  DIR *d = opendir("/proc/self/fd");
  if (!d) return 0;
  while (readdir(d)) n++;
  closedir(d);
  return n;
}
bool mapped(const std::string &dir) {
  FILE *f = fopen("/proc/self/maps", "r");
  char l[1000];
  bool r = false;
  if (!f) return false;
  while (fgets(l, sizeof(l), f))
    if (strstr(l, dir.c_str()) && strstr(l, ".jsc")) r = true;
  fclose(f);
  return r;
}

struct Run {
  Src &s;
  Case &c;
  std::string dir, hist;
  std::vector<File> files;
  std::vector<Inst> in;
  int version = 0, logs = 0, loads = 0;
  bool limited = false;
  struct rlimit rl, old;
  // limits the size of files while the engine runs
  struct Lim {
    Run &r;
    Lim(Run &r) : r(r) {
      if (r.limited) setrlimit(RLIMIT_FSIZE, &r.rl);
    }
    ~Lim() {
      if (r.limited) setrlimit(RLIMIT_FSIZE, &r.old);
    }
  };
  Run(Src &s, Case &c) : s(s), c(c) {}
  void note(const std::string &t) {
    hist += t + "\n";
    c.show(hist);
  }
  std::string path(int f) { return dir + strf("/f%d%s", f, f == 3 ? "" : ".js"); }  // the last one has no extension
  std::string disp(const std::string &t) {
    std::string o = t;
    for (size_t i; (i = o.find(dir)) != std::string::npos;) o.replace(i, dir.size(), "D");
    return o;
  }
  std::string text(const File &f) {
    std::string o;
    if (f.pad) o += "if (false) { log('" + std::string((size_t) f.pad, 'p') + "'); }\n";
    for (auto &op : f.ops) switch (op.k) {
        case Op::LOG: o += strf("log('m', %d);", op.a); break;
        case Op::SET: o += strf("v%d = %d;", op.a, op.b); break;
        case Op::LET: o += strf("let x%d = %d;", op.a, op.b); break;
        case Op::READ: o += strf("log('r', v%d);", op.a); break;
        case Op::LOAD: o += strf("log('l', load('%s'%s));", path(op.a).c_str(), op.b >= 0 ? strf(", o%d", op.b).c_str() : ""); break;
        case Op::DEF: o += strf("let fn%d = function(a) { log('fn', %d, a, v0); return a + %d; };", op.a, op.b, op.b); break;
        case Op::CALL: o += strf("log('c', fn%d(%d));", op.a, op.b); break;
        case Op::DIE: o += "die('no');"; break;
        case Op::REF: o += "undeclared_variable;"; break;
        case Op::VALUE: o += strf("%d;", op.a); break;
      }
    if (f.syntax) o += " let = ;";
    return o + "\n";
  }
  void write(int i) {
    std::string p = path(i);
    File &f = files[i];
    if (!f.exists) {
      unlink(p.c_str());
      return;
    }
    FILE *fp = fopen(p.c_str(), "wb");
    std::string t = text(f);
    if (!fp || fwrite(t.data(), 1, t.size(), fp) != t.size()) _exit(4);
    fclose(fp);
  }
  void gen(int i) {
    File f;
    f.version = ++version;
    if (!files[i].ops.empty() && s.chance(1, 3)) {  // the same but for a number: as long as before
      f.pad = files[i].pad;
      f.ops = files[i].ops;
      Op &op = f.ops[s.below(f.ops.size())];
      if (op.k == Op::LOG || op.k == Op::SET || op.k == Op::LET || op.k == Op::DEF || op.k == Op::CALL || op.k == Op::VALUE) {
        int &v = op.k == Op::LOG || op.k == Op::VALUE ? op.a : op.b;
        v = v == 0 ? 1 : v - 1;
      }
    } else if (s.chance(1, 5)) {
      f.pad = (int) s.pick(std::vector<int>{60, 300, 4000, 4090, 5000, 9000, 20000});
    }
    int n = f.ops.empty() ? (int) s.range(1, 5) : 0;
    for (int k = 0; k < n; k++) {
      Op op;
      switch (s.weighted({3, 3, 3, 3, i < 3 ? 3 : 0, 3, 2, 1, 1, 2})) {
        case 0: op = {Op::LOG, ++logs}; break;
        case 1: op = {Op::SET, (int) s.below(3), (int) s.below(100)}; break;
        case 2: op = {Op::LET, (int) s.below(2), (int) s.below(100)}; break;
        case 3: op = {Op::READ, (int) s.below(3)}; break;
        case 4: op = {Op::LOAD, (int) s.range(i + 1, 3), (int) s.range(-1, 1)}; break;
        case 5: op = {Op::DEF, (int) s.below(3), (int) s.below(1000)}; break;
        case 6: op = {Op::CALL, (int) s.below(3), (int) s.below(50)}; break;
        case 7: op = {Op::DIE}; break;
        case 8: op = {Op::REF}; break;
        default: op = {Op::VALUE, (int) s.below(1000)};
      }
      f.ops.push_back(op);
    }
    f.syntax = s.chance(1, 12);
    files[i] = f;
    write(i);
    File sh = f;
    sh.pad = 0;
    note(strf("write D/f%d: ", i) + (f.pad ? strf("(code of %d bytes that is not executed) ", f.pad) : "") + disp(text(sh)));
  }
  // ---- the model. Scopes: global, then the namespaces pushed by load
  typedef std::vector<std::map<std::string, std::string> *> Scopes;
  std::string *find(Scopes &sc, const std::string &n) {
    for (size_t i = sc.size(); i-- > 0;)
      if (sc[i]->count(n)) return &(*sc[i])[n];
    return nullptr;
  }
  bool undecided = false;  // re-evaluation of a file that changed meanwhile
  std::string eval(Inst &I, Scopes &sc, const std::vector<Op> &ops) {
    std::string last = "undefined";
    for (auto &op : ops) switch (op.k) {
        case Op::LOG:
          I.log.push_back(strf("\"m\" %d", op.a));
          last = "\"m\"";
          break;
        case Op::SET: {
          std::string *v = find(sc, strf("v%d", op.a));
          *v = strf("%d", op.b);
          last = *v;
          break;
        }
        case Op::LET:
          (*sc.back())[strf("x%d", op.a)] = strf("%d", op.b);
          last = "?";
          break;
        case Op::READ:
          I.log.push_back("\"r\" " + *find(sc, strf("v%d", op.a)));
          last = "\"r\"";
          break;
        case Op::LOAD: {
          std::string r = load(I, sc, op.a, op.b);
          I.log.push_back("\"l\" " + r);
          last = "\"l\"";
          break;
        }
        case Op::DEF:
          (*sc.back())[strf("fn%d", op.a)] = strf("#%d", op.b);
          last = "?";
          break;
        case Op::CALL: {
          std::string *f = find(sc, strf("fn%d", op.a));
          if (!f) throw Err{ERR_REF};
          int id = atoi(f->c_str() + 1);
          I.log.push_back(strf("\"fn\" %d %d %s", id, op.b, find(sc, "v0")->c_str()));
          I.log.push_back(strf("\"c\" %d", op.b + id));
          last = "\"c\"";
          break;
        }
        case Op::DIE: throw Err{ERR_TYPE};
        case Op::REF: throw Err{ERR_REF};
        case Op::VALUE: last = strf("%d", op.a); break;
      }
    return last;
  }
  std::string load(Inst &I, Scopes &sc, int f, int ns) {
    auto it = I.parts.find(f);
    loads++;
    if (it != I.parts.end() && it->second.done && ns < 0) return "undefined";
    if (it == I.parts.end()) {
      File &x = files[f];
      if (!x.exists) throw Err{MJS_FILE_READ_ERROR};
      if (x.syntax) throw Err{ERR_SYNTAX};
      I.parts[f] = Part{x.ops, x.version, false};
    } else if (!files[f].exists || files[f].version != it->second.version) {
      undecided = true;
      throw Err{-1};
    }
    Scopes sc2 = sc;
    if (ns >= 0) sc2.push_back(&I.objs[ns]);
    std::vector<Op> ops = I.parts[f].ops;
    std::string r;
    try {
      r = eval(I, sc2, ops);
    } catch (Err &) {
      if (ns < 0) I.parts[f].done = false;
      throw;
    }
    if (ns < 0) I.parts[f].done = true;
    return r;
  }
  void check(Inst &I, const char *when) {
    struct mjs *m = I.vm->m;
    auto cmp = [&](std::map<std::string, std::string> &want, mjs_val_t o, const std::string &what) {
      for (int k = 0; k < 3; k++)
        for (const char *p : {"v%d", "x%d", "fn%d"}) {
          std::string n = strf(p, k);
          mjs_val_t v = mjs_get(m, o, n.c_str(), ~0);
          std::string g = ser(m, v), w = want.count(n) ? want[n] : "undefined";
          if (w[0] == '#') w = "<fn>";
          if (g != w) failf("%s: %s of %s is %s, expected %s", when, n.c_str(), what.c_str(), g.c_str(), w.c_str());
        }
    };
    mjs_val_t g = mjs_get_global(m);
    cmp(I.glob, g, "the global namespace");
    for (int i = 0; i < 2; i++) cmp(I.objs[i], mjs_get(m, g, strf("o%d", i).c_str(), ~0), strf("the namespace o%d", i));
    for (size_t i = 0; i < I.log.size() || i < I.vm->log.size(); i++) {
      std::string a = i < I.vm->log.size() ? I.vm->log[i] : "<nothing>", b = i < I.log.size() ? I.log[i] : "<nothing>";
      if (b == "\"l\" ?" && !a.compare(0, 4, b, 0, 4)) continue;  // the value of a let is not judged
      if (a != b) failf("%s: trace entry %d is %s, expected %s", when, (int) i, a.c_str(), b.c_str());
    }
  }
  struct Saved {
    std::map<std::string, std::string> glob;
    std::vector<std::map<std::string, std::string>> objs;
    std::map<int, Part> parts;
    std::vector<std::string> log;
  };
  bool step() {
    Inst &I = in[s.below(in.size())];
    struct mjs *m = I.vm->m;
    int which = (int) (&I - &in[0]);
    int f = (int) s.below(4);
    int k = s.weighted({8, 3, 3, 1, 2, 1, 1, 1});
    Scopes sc = {&I.glob};
    Saved sv = {I.glob, I.objs, I.parts, I.log};
    int want = 0, got = 0;
    std::string wres, gres, what;
    bool hasres = true;
    if (k <= 1) {  // load from a script, or from a function, or from C
      int ns = (int) s.range(-1, 1);
      undecided = false;
      try {
        wres = load(I, sc, f, ns);
      } catch (Err &e) {
        want = e.code;
      }
      if (undecided) {
        I.glob = sv.glob;
        I.objs = sv.objs;
        I.parts = sv.parts;
        I.log = sv.log;
        return false;
      }
      std::string call = strf("load('%s'%s)", path(f).c_str(), ns >= 0 ? strf(", o%d", ns).c_str() : "");
      what = call;
      mjs_val_t r = MJS_UNDEFINED;
      int how = k == 1 ? 1 + (int) s.below(2) : 0;
      if (how == 1 && ns < 0) how = 0;  // inside a function the current namespace is the function's
      if (how == 1) what = "(function(q) { let a = " + call + "; if (q !== 5) die('q'); return a; })(5)";
      note(strf("instance %d: ", which) + disp(what) + (how == 2 ? " called from C" : ""));
      Lim lim(*this);
      if (how == 2) {
        mjs_val_t a[2] = {mkstr(m, path(f)), ns >= 0 ? I.vm->global(strf("o%d", ns).c_str()) : MJS_UNDEFINED};
        got = mjs_apply(m, &r, I.vm->global("load"), MJS_UNDEFINED, ns >= 0 ? 2 : 1, a);
      } else {
        got = I.vm->exec(what, nullptr, &r);
      }
      gres = ser(m, r);
    } else if (k == 2) {  // mjs_exec_file always reads the file
      File &x = files[f];
      undecided = false;
      bool known = I.parts.count(f);
      try {
        if (!x.exists) throw Err{MJS_FILE_READ_ERROR};
        if (x.syntax) throw Err{ERR_SYNTAX};
        if (!known) I.parts[f] = Part{x.ops, x.version, false};
        std::vector<Op> ops = x.ops;
        try {
          wres = eval(I, sc, ops);
        } catch (Err &) {
          if (!known) I.parts[f].done = false;
          throw;
        }
        if (!known) I.parts[f].done = true;
      } catch (Err &e) {
        want = e.code;
      }
      if (undecided) {
        I.glob = sv.glob;
        I.objs = sv.objs;
        I.parts = sv.parts;
        I.log = sv.log;
        return false;
      }
      what = "mjs_exec_file(" + path(f) + ")";
      note(strf("instance %d: ", which) + disp(what));
      mjs_val_t r = MJS_UNDEFINED;
      Lim lim(*this);
      got = mjs_exec_file(m, path(f).c_str(), &r);
      gres = ser(m, r);
    } else if (k == 3) {
      files[f].exists = !files[f].exists;
      write(f);
      note(strf("%s D/f%d", files[f].exists ? "restore" : "remove", f));
      return false;
    } else if (k == 4) {
      gen(f);
      return false;
    } else if (k == 5) {  // a function that came from a file, called from C; it may fail
      std::string n = strf("fn%d", (int) s.below(3));
      if (!I.glob.count(n)) return false;
      int id = atoi(I.glob[n].c_str() + 1);
      note(strf("instance %d: call %s from C", which, n.c_str()));
      mjs_val_t r = MJS_UNDEFINED, a = mjs_mk_number(m, 7);
      got = mjs_apply(m, &r, I.vm->global(n.c_str()), MJS_UNDEFINED, 1, &a);
      I.log.push_back(strf("\"fn\" %d 7 %s", id, I.glob["v0"].c_str()));
      wres = strf("%d", id + 7);
      gres = ser(m, r);
      what = n;
    } else if (k == 6) {  // a failing call from C into a file's function: bad argument
      std::string n = strf("fn%d", (int) s.below(3));
      if (!I.glob.count(n)) return false;
      int id = atoi(I.glob[n].c_str() + 1);
      note(strf("instance %d: call %s('text') from C", which, n.c_str()));
      mjs_val_t r = MJS_UNDEFINED, a = mkstr(m, "text");
      got = mjs_apply(m, &r, I.vm->global(n.c_str()), MJS_UNDEFINED, 1, &a);
      I.log.push_back(strf("\"fn\" %d \"text\" %s", id, I.glob["v0"].c_str()));
      want = ERR_TYPE;
      what = n;
    } else {
      note(strf("instance %d: gc", which));
      mjs_gc(m, 1);
      hasres = false;
    }
    if (got != want) failf("%s: error %d (%s), expected %d", disp(what).c_str(), got, got ? mjs_strerror(m, (mjs_err_t) got) : "", want);
    if (!want && hasres && wres != "?" && gres != wres) failf("%s: yields %s, expected %s", disp(what).c_str(), gres.c_str(), wres.c_str());
    check(I, "after the operation");
    c.label(want ? strf("error %d", want) : "success");
    return true;
  }
  void run() {
    const char *d = getenv("VERIF_SCRATCH");
    dir = strf("%s/p18_%d", d ? d : "/tmp", (int) getpid());
    mkdir(dir.c_str(), 0700);
    size_t fds = open_fds();
    long live = vf_live();
    files.resize(4);
    for (int i = 0; i < 4; i++) gen(i);
    int ni = s.chance(1, 3) ? 2 : 1;
    in.resize(ni);
    for (auto &I : in) {
      I.vm = new VM();
      I.objs.resize(2);
      I.vm->exec("let v0 = 0, v1 = 1, v2 = 2; let o0 = {v1: 10}; let o1 = {v0: 20, v2: 22};");
      I.glob = {{"v0", "0"}, {"v1", "1"}, {"v2", "2"}};
      I.objs[0] = {{"v1", "10"}};
      I.objs[1] = {{"v0", "20"}, {"v2", "22"}};
      I.jsc = s.chance(1, 2);
      if (I.jsc) mjs_set_generate_jsc(I.vm->m, 1);
    }
    if (s.chance(1, 4)) {
      g_step.gc_den = (unsigned) s.range(1, 8);
      g_step.gc_state = s.bits(32);
    }
    // faults while precompiled files are written
    if (s.chance(1, 5)) {
      int how = (int) s.below(3);
      if (how == 0) {
        signal(SIGXFSZ, SIG_IGN);
        getrlimit(RLIMIT_FSIZE, &old);
        rl = old;
        rl.rlim_cur = (rlim_t) s.below(200);
        limited = true;
        note(strf("files cannot grow beyond %d bytes", (int) rl.rlim_cur));
        c.label("write faults");
      } else if (how == 1) {
        for (int i = 0; i < 3; i++) {
          mkdir((dir + strf("/f%d.jsc", i)).c_str(), 0700);
          mkdir((dir + strf("/f%d.jsc/x", i)).c_str(), 0700);
        }
        note("the .jsc names are directories");
        c.label("unwritable .jsc");
      } else {
        for (int i = 0; i < 3; i++) {
          FILE *f = fopen((dir + strf("/f%d.jsc", i)).c_str(), "wb");
          std::string junk((size_t) s.below(400), 'j');
          fwrite(junk.data(), 1, junk.size(), f);
          fclose(f);
        }
        note("junk in the .jsc files");
        c.label("junk .jsc");
      }
    }
    int n = (int) s.range(2, 15), judged = 0;
    std::string fail;
    try {
      for (int i = 0; i < n; i++) {
        judged += step();
      }
    } catch (Fail &f) {
      fail = f.msg;
      if (fail.empty()) fail = "?";
    }
    for (auto &I : in) {
      if (!fail.empty()) break;
      try {
        check(I, "at the end");
      } catch (Fail &f) {
        fail = f.msg;
      }
    }
    for (auto &I : in) delete I.vm;
    in.clear();
    bool maps = s.chance(1, 16) && mapped(dir);
    rm_rf(dir);
    if (!fail.empty()) failf("%s", fail.c_str());
    if (vf_live() != live) failf("leak: %ld blocks", vf_live() - live);
    if (open_fds() != fds) failf("%d file descriptors are still open", (int) (open_fds() - fds));
    if (maps) failf("a .jsc file is still mapped after the instance was destroyed");
    c.nontrivial = judged >= 3 && loads >= 2;
  }
};
}  // namespace

void prop_case(Src &s, Case &c) { Run(s, c).run(); }
