// P24: what is not a program is rejected as a whole, before anything of it runs.
#include <unistd.h>
#include "ctlgen.h"
#include "diff.h"
#include "exprgen.h"
#include "fungen.h"
#include "relayout.h"
using namespace lang;
const char *PROP_ID = "P24";

namespace {
enum Route { R_EXEC, R_FILE, R_LOAD };
void put(const std::string &p, const std::string &t) {
  FILE *f = fopen(p.c_str(), "wb");
  if (!f || fwrite(t.data(), 1, t.size(), f) != t.size()) _exit(4);
  fclose(f);
}
bool is_br(const std::string &t) { return t.size() == 1 && strchr("(){}[]", t[0]); }

// all statement lists of a program
void lists(std::vector<SP> &v, std::vector<std::vector<SP> *> &out);
void lists_e(EP &e, std::vector<std::vector<SP> *> &out) {
  if (!e) return;
  e = std::make_shared<Expr>(*e);
  for (auto &a : e->a) lists_e(a, out);
  if (e->fn) {
    e->fn = std::make_shared<Fun>(*e->fn);
    lists(e->fn->body, out);
  }
}
void lists(std::vector<SP> &v, std::vector<std::vector<SP> *> &out) {
  out.push_back(&v);
  for (auto &st : v) {
    st = std::make_shared<Stmt>(*st);
    for (EP *e : {&st->e, &st->e2, &st->e3}) lists_e(*e, out);
    for (auto &l : st->lets) lists_e(l.second, out);
    if (st->braces && !st->body.empty()) lists(st->body, out);
    if (st->obraces && !st->other.empty()) lists(st->other, out);
    if (st->fn) {
      st->fn = std::make_shared<Fun>(*st->fn);
      lists(st->fn->body, out);
    }
  }
}
}  // namespace

void prop_case(Src &s, Case &c) {
  std::vector<SP> prog;
  switch (s.weighted({3, 3, 2, 3})) {
    case 0: {
      GenCfg cfg;
      cfg.stmts = (int) s.range(1, 6);
      cfg.block_depth = (int) s.range(1, 4);
      cfg.ctl_bias = (int) s.range(1, 3);
      Gen g(s, cfg);
      prog = g.program();
      break;
    }
    case 1: {
      CtlGen g(s);
      prog = g.program();
      break;
    }
    case 2: {
      ExprGen g(s);
      prog = g.program(4, 4);
      break;
    }
    default: {
      FunGen g(s);
      prog = g.program();
      break;
    }
  }
  std::string src = print_stmts(prog), bad, how;
  int kind = s.weighted({3, 3, 3, 3, 2, 5, 3, 2});
  auto ch = chunks(src);
  std::vector<size_t> br;
  int depth = 0;
  std::vector<size_t> inside;  // token boundaries inside brackets
  // operators that cannot follow themselves, and commas that do not separate elements of an array; what is in front of an operand that ends something
  std::vector<size_t> twice, operand;
  std::string nest;
  static const std::set<std::string> BIN = {"*", "%", "/", "&&", "||", "===", "!==", "<", ">", "<=", ">=", "&", "|", "^", "<<", ">>", ">>>", "?", ":", ".", "=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", ">>>="};
  for (size_t i = 0; i < ch.size(); i++) {
    if (is_br(ch[i])) {
      br.push_back(i);
      depth += strchr("([{", ch[i][0]) ? 1 : -1;
    }
    if (depth > 0) inside.push_back(i + 1);
    if (is_br(ch[i])) {
      if (strchr("([{", ch[i][0]))
        nest += ch[i];
      else if (!nest.empty())
        nest.pop_back();
    }
    if (BIN.count(ch[i]) || (ch[i] == "," && (nest.empty() || nest.back() != '['))) twice.push_back(i);
    if (i > 1 && BIN.count(ch[i - 2]) && (ch[i] == ")" || ch[i] == "]" || ch[i] == "}" || ch[i] == ";" || ch[i] == ",") && !is_br(ch[i - 1])) operand.push_back(i - 1);
  }
  if (kind == 6 && twice.empty()) kind = 5;
  if (kind == 7 && operand.empty()) kind = 5;
  if (br.empty() && kind != 1 && kind < 4) kind = 1;
  switch (kind) {
    case 0: {
      size_t i = s.pick(br);
      how = "without token " + strf("%d", (int) i) + ", " + ch[i];
      ch.erase(ch.begin() + i);
      break;
    }
    case 1: {
      static const std::vector<std::string> b = {"(", ")", "[", "]", "{", "}"};
      size_t i = s.below(ch.size() + 1);
      std::string t = s.pick(b);
      how = "with an extra " + t + strf(" before token %d", (int) i);
      ch.insert(ch.begin() + i, t);
      break;
    }
    case 2: {
      size_t i = s.pick(br);
      static const std::vector<std::string> o = {"(", "[", "{"}, cl = {")", "]", "}"};
      std::string t = s.pick(strchr("([{", ch[i][0]) ? o : cl);
      if (t == ch[i]) t = strchr("([{", ch[i][0]) ? (t == "(" ? "{" : "(") : (t == ")" ? "}" : ")");
      how = "with " + t + strf(" as token %d", (int) i) + " in place of " + ch[i];
      ch[i] = t;
      break;
    }
    case 3: {
      size_t i = s.pick(inside);
      how = strf("cut off before token %d", (int) i);
      ch.resize(i);
      break;
    }
    case 4: {
      static const std::vector<std::string> b = {"@", "#", "`", "\\", "\x01", "\xc3\xa9", "@@"};
      size_t i = s.below(ch.size() + 1);
      std::string t = s.pick(b);
      how = "with an extra " + quote(t) + strf(" before token %d", (int) i);
      ch.insert(ch.begin() + i, t);
      break;
    }
    case 6: {
      size_t i = s.pick(twice);
      how = strf("with token %d, ", (int) i) + ch[i] + ", twice";
      ch.insert(ch.begin() + i, ch[i]);
      break;
    }
    case 7: {
      size_t i = s.pick(operand);
      how = strf("without token %d, ", (int) i) + ch[i];
      ch.erase(ch.begin() + i);
      break;
    }
    default: {
      static const std::vector<std::string> b = {"var v1 = 1", "new Object()", "let n = new Object()", "try { log(1); } catch (e) { log(2); }", "throw 1", "switch (1) { }", "do { log(1); } while (0)", "delete a.b", "with (a) { log(1); }",
                                                 "void 0", "let if = 1", "let = 3", "1 +", "1 + * 2", "log(1,,2)", "if 1 { log(1); }", "x => 1", "'a' instanceof log", "let {a} = log", "let [a] = log",
                                                 "1 ? 2", "1 ? : 2", "({a: })", "({a 1})", "()", "log.", "log.1", "for (let i = 0; i < 1) { }", "for let i = 0; i < 1; i++ { }", "while { }", "while () { }", "if () { }",
                                                 "function (1) { }", "function f(a b { }", "(function(a) return a; )", "let 5 = 1", "let a.b = 3", "typeof", "!", "1 === ", "&& 1", "1 || ", "= 3", "log(1", "debugger + ", "case 1", "catch (e) { }", "in log", "1 in", "'a' 1 +", "let x =", "let x = ,",
                                                 "log({a: 1 b: 2})", "log({a: 1,, b: 2})", "log({,a: 1})", "log({a: 1; b: 2})", "log({1 + 1: 2})", "log({a = 1})", "log({'a' 1})", "log({a:: 1})", "log([1 : 2])", "log.a..b", "log[]",
                                                 "for (let i in) { }", "for (let i of [1]) { }", "for (i in) { }", "if (true) else { }", "; else { }", "function", "function f", "function f()", "function f( { }", "let f = function { }",
                                                 "log.'x'", "1 ? 2 :", "let let = 1", "let true = 1", "let 3a = 1", "1..2", "1.2.3", "let a = 1,, b = 2", "let , a", "(1, 2)", "for (;;) { break; }", "for (let i = 0; i < 1;) { break; }", "function f(a,,b) { }", "function f(,a) { }", "log(,1)"};
      std::vector<std::vector<SP> *> all;
      auto p2 = prog;
      lists(p2, all);
      auto *l = s.pick(all);
      size_t i = s.below(l->size() + 1);
      std::string t = s.pick(b);
      l->insert(l->begin() + i, sexpr(eraw(t)));
      how = "with the statement " + t + " added";
      bad = print_stmts(p2);
      c.label("statement");
    }
  }
  if (kind != 5)
    for (auto &t : ch) bad += t + " ";
  if (kind > 5) c.label(kind == 6 ? "token twice" : "operand missing");
  if (kind < 5) c.label(kind == 0 ? "bracket missing" : kind == 1 ? "extra bracket" : kind == 2 ? "wrong bracket" : kind == 3 ? "cut off" : "illegal character");
  if (s.chance(1, 3)) bad = relayout(s, bad);
  int route = (int) s.below(3);
  c.show(src + "\n----- " + how + (route == R_EXEC ? ", mjs_exec" : route == R_FILE ? ", mjs_exec_file" : ", load()") + ":\n" + bad);
  engine_hang_ok(true);
  auto setup = [](VM &vm) {
    g_step.fuel = 200000;
    g_step.mem_guard = false;
    mjs_val_t g = mjs_get_global(vm.m);
    for (const char *name : {"ffi", "ffi_cb_free", "mkstr", "s2o", "getMJS", "print", "die"}) mjs_set(vm.m, g, name, ~0, MJS_UNDEFINED);
  };
  std::string f = scratch_path("p24.js");
  VM vm;
  setup(vm);
  std::string before = ser(vm.m, mjs_get_global(vm.m));
  mjs_val_t r = mjs_mk_number(vm.m, 7);
  int e;
  if (route == R_EXEC) {
    e = vm.exec(bad, nullptr, &r);
  } else {
    put(f, bad);
    e = route == R_FILE ? mjs_exec_file(vm.m, f.c_str(), &r) : vm.exec("load('" + f + "')", nullptr, &r);
    unlink(f.c_str());
  }
  if (e != MJS_SYNTAX_ERROR) failf("error %d%s, expected a syntax error", e, e ? "" : " (accepted)");
  if (!vm.log.empty()) failf("part of the script ran: %s", vm.log[0].c_str());
  if (!mjs_is_undefined(r)) failf("the result is %s", ser(vm.m, r).c_str());
  std::string after = ser(vm.m, mjs_get_global(vm.m));
  if (before != after) failf("globals have changed: %s, before %s", after.c_str(), before.c_str());
  // the instance is as good as new
  std::string o1, o2;
  int e1 = vm.exec(src, &o1);
  bool ex = g_step.exhausted;
  if (!ex) {
    VM v2;
    setup(v2);
    int e2 = v2.exec(src, &o2);
    if (g_step.exhausted) failf("only a fresh instance takes more than the limit of instructions");
    if (e1 != e2) failf("the valid script then fails with %d, in a fresh instance %d", e1, e2);
    compare_logs(vm.log, v2.log, "the valid script afterwards");
    if (o1 != o2) failf("the valid script then yields %s, in a fresh instance %s", o1.c_str(), o2.c_str());
    v2.destroy();
  }
  vm.destroy();
  c.nontrivial = ch.size() >= 20;
}
