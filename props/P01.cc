// P01: arbitrary script text never crashes, corrupts memory, hangs the parser or
// leaks; the instance stays usable.
#include "diff.h"
#include "wild.h"
using namespace lang;
const char *PROP_ID = "P01";

static const char *TOKENS[] = {
    "let", "function", "return", "if", "else", "for", "while", "in", "break", "continue", "typeof", "this", "null",
    "undefined", "true", "false", "NaN", "(", ")", "{", "}", "[", "]", ";", ",", ".", ":", "?", "+", "-", "*", "/", "%",
    "=", "===", "!==", "<", ">", "<=", ">=", "&&", "||", "!", "~", "&", "|", "^", "<<", ">>", ">>>", "++", "--", "+=",
    "-=", "*=", "/=", "%=", "<<=", ">>=", ">>>=", "&=", "|=", "^=", "==", "!=", "=>", "a", "b", "f", "g", "o", "x",
    "length", "push", "splice", "slice", "at", "indexOf", "apply", "JSON", "stringify", "parse", "Object", "create",
    "chr", "gc", "isNaN", "global", "proto", "__proto__", "log", "0", "1", "2", "5", "0x1f", "1.5", "1e3", "'s'", "\"str\"", "''",
    "'\\x41\\n'", "'longer string value'", "var", "new", "switch", "case", "default", "delete", "do", "throw", "try",
    "catch", "finally", "void", "with", "instanceof", "class", "const", "//c\n", "/*c*/", "\n", "'unterminated", "0x", ".5", "1e", "\\", "@", "#", "`"};
static const int NTOK = sizeof(TOKENS) / sizeof(TOKENS[0]);

static std::string soup(Src &s) {
  std::string o;
  int n = (int) s.range(1, s.chance(1, 6) ? 120 : 30);
  for (int i = 0; i < n; i++) {
    o += TOKENS[s.below(NTOK)];
    if (!s.chance(1, 4)) o += ' ';
  }
  return o;
}

static std::string nest(Src &s) {
  static const std::vector<std::pair<std::string, std::string>> P = {
      {"(", ")"}, {"[", "]"}, {"{", "}"}, {"!", ""}, {"-", ""}, {"typeof ", ""}, {"a=", ""}, {"if(1)", ""}, {"1?", ":1"}, {"1?1:", ""},
      {"while(0)", ""}, {"for(let i in a)", ""}, {"for(1;0;1)", ""}, {"function(){", "}"}, {"{a:", "}"}, {"({a:", "})"}, {"f(", ")"}, {"a[", "]"},
      {"a.", "b"}, {"", "[0]"}, {"", ".a"}, {"", "()"}, {"1+", ""}, {"1&&", ""}, {"1||", ""}, {"a+=", ""}, {"", ","}, {"'x'+", ""}, {"if(1);else ", ""}, {"let a=", ""}, {"/*", "*/"}, {"return ", ""},
      {"++", ""}, {"", "++"}, {"~", ""}, {"if(1){", "}"}, {"1<", ""}, {"1===", ""}, {"1*", ""}, {"1<<", ""}, {"JSON.parse(", ")"}, {"(function(){", "})()"}, {"{;", "}"}, {"1|", ""}, {"1&", ""}, {"1^", ""}, {";", ""}, {"{};", ""}, {"let b;", ""}};
  int kinds = (int) s.range(1, 3);
  std::string pre, post;
  size_t n = (size_t) s.pick(std::vector<int>{3, 12, 60, 130, 300, 520, 700, 5000, 40000});
  if (s.chance(1, 10)) kinds = 1, n = s.chance(1, 2) ? 40000 : 300000;
  std::vector<size_t> ks;
  for (int i = 0; i < kinds; i++) ks.push_back(s.below(P.size()));
  std::string post2;
  for (size_t i = 0; i < n / kinds + 1; i++)
    for (size_t k : ks) {
      pre += P[k].first;
      post2 += P[k].second;  // closing order only matters when kinds == 1
    }
  std::string closing;
  if (kinds == 1)
    closing = post2;
  else
    for (size_t i = 0; i < n / kinds + 1; i++)
      for (size_t j = ks.size(); j-- > 0;) closing += P[ks[j]].second;
  static const std::vector<std::string> M = {"1", "a", "", "{}", "'s'", "a.b", "f()"};
  return "let a = {a: 1}, b = 1, f = function() { return f; };\n" + pre + s.pick(M) + (s.chance(1, 5) ? "" : closing);
}

static std::string mutate(Src &s, const std::string &src) {
  auto v = lex(src);
  int n = (int) s.range(1, 6);
  for (int i = 0; i < n && !v.empty(); i++) {
    size_t p = s.below(v.size());
    switch (s.below(8)) {
      case 0: v.erase(v.begin() + p); break;
      case 1: v.insert(v.begin() + p, TOKENS[s.below(NTOK)]); break;
      case 2: v[p] = TOKENS[s.below(NTOK)]; break;
      case 3: std::swap(v[p], v[s.below(v.size())]); break;
      case 4: {
        size_t q = s.below(v.size()), len = s.below(12) + 1;
        std::vector<std::string> part(v.begin() + q, v.begin() + std::min(q + len, v.size()));
        v.insert(v.begin() + p, part.begin(), part.end());
        break;
      }
      case 5: {
        size_t len = s.below(12) + 1;
        v.erase(v.begin() + p, v.begin() + std::min(p + len, v.size()));
        break;
      }
      case 6: v.resize(p); break;
      default: {
        std::string &t = v[p];
        if (!t.empty()) t[s.below(t.size())] = (char) (1 + s.below(255));
      }
    }
  }
  std::string o;
  for (auto &t : v) o += t;
  return o;
}

static std::string escapes(Src &s) {
  static const std::vector<std::string> P = {"\\", "\\x", "\\x4", "\\x41", "\\n", "\\'", "\\0", "\\u", "\\u00", "\\u0041", "\\uD800", "\\xzz", "a", "bcdef", "\"", "'", "\\v", "\\b", "\xff", "\xc3\xa9", "\xe2\x82", "\\\n", "\n", "\\u12345", "0", " "};
  std::string o = s.chance(1, 2) ? "log(" : "let q = ";
  char q = s.chance(1, 2) ? '\'' : '"';
  o += q;
  int n = (int) s.below(40);
  for (int i = 0; i < n; i++) o += s.pick(P);
  if (!s.chance(1, 6)) o += q;
  if (o[1] == 'o') o += ")";
  return o;
}

static std::string bytes(Src &s) {
  std::string o;
  int n = (int) s.range(0, 60);
  for (int i = 0; i < n; i++) o += (char) (1 + s.below(255));
  return o;
}

static std::string text(Src &s, Case &c) {
  switch (s.weighted({2, 3, 6, 5, 2, 1, 1})) {
    case 0: c.label("nesting"); return nest(s);
    case 1: c.label("token soup"); return soup(s);
    case 2: {
      c.label("loosely grammatical");
      Wild w(s);
      std::string t = w.prog();
      return s.chance(1, 4) ? mutate(s, t) : t;
    }
    case 3: {
      c.label("mutated program");
      GenCfg cfg;
      cfg.stmts = (int) s.range(2, 9);
      cfg.err_pct = 5;
      cfg.gc_calls = true;
      Gen g(s, cfg);
      std::string t = print_stmts(g.program());
      return mutate(s, t);
    }
    case 4: c.label("string escapes"); return escapes(s);
    case 5: c.label("bytes"); return bytes(s);
    default: {
      // the same text over and over: sequential blocks, functions, strings
      static const std::vector<std::string> P = {"{}", ";", "function q(){};", "if(1){1}", "let a='aaaaaaaaaa';", "1;", "'abcdefgh'+'ijklmnop';", "[1,2];", "({a:1});", "//x\n", "\n", "/* */"};
      c.label("repetition");
      std::string p = s.pick(P) + s.pick(P), o;
      int n = (int) s.range(1, 700);
      for (int i = 0; i < n; i++) o += p;
      return o;
    }
  }
}

static FILE *devnull() {
  static FILE *f = fopen("/dev/null", "w");
  return f;
}

void prop_case(Src &s, Case &c) {
  int n = s.chance(1, 4) ? (int) s.range(2, 3) : 1;
  std::vector<std::string> texts;
  for (int i = 0; i < n; i++) {
    std::string t = text(s, c);
    if (s.chance(1, 5)) {  // cut short inside a token
      static const std::vector<std::string> T = {"/*", "/* c *", "/**", "/* c\n * ***", "/* c * /", "//", "// c\\", "/", "'", "'abc\\", "\"abc", "'\\x", "'\\x4", "'\\u00", "'abc\\\n", "'\xd0", "0x", "1.", "1e", "1e+", ".",
                                                 "a", "a.", "a[", "a[1", "a(", "f(1,", "let", "let ", "let a =", "if", "for(", "for(let", "for(let i in", "{", "{a", "({a:", "({'a'", "function", "function(", "function(a,", "function(a){",
                                                 "1 ?", "1 ? 2", "1 ? 2 :", "<", "<<", ">>>", "&", "|", "!", "!=", "=", "+", "++", "-", "typeof", "return", "$", "\\"};
      t += s.pick(T);
      c.label("cut short");
    }
    texts.push_back(tame(t));
  }
  std::string all;
  for (auto &t : texts) all += t + "\n-----\n";
  c.show(all);
  // library routines that walk an array of arbitrary length may legitimately take very long
  engine_hang_ok(all.find("splice") != std::string::npos || all.find("stringify") != std::string::npos ||
                 all.find("print") != std::string::npos || all.find("log") != std::string::npos);
  VM vm;
  // raw memory access is outside the guarantee
  mjs_val_t g = mjs_get_global(vm.m);
  for (const char *name : {"ffi", "ffi_cb_free", "mkstr", "s2o", "getMJS", "load", "fs", "dlsym"})
    mjs_set(vm.m, g, name, ~0, MJS_UNDEFINED);
  unsigned den = s.chance(1, 2) ? 0 : (unsigned) s.range(2, 60);
  uint64_t gst = s.bits(32);
  bool ran = false;
  size_t toks = 0;
  for (auto &t : texts) {
    g_step.fuel = g_step.steps + 30000;
    g_step.gc_den = den;
    g_step.gc_state = gst;
    long st0 = g_step.steps;
    g_step.exhausted = false;
    int e = vm.exec(t);
    toks += lex(t).size();
    if (e < 0 || e >= MJS_ERRS_CNT) failf("mjs_exec returned %d, which is not an error code", e);
    if (e == MJS_OK) c.label("accepted");
    else c.label(strf("error %d", e));
    if (e != MJS_OK) {
      const char *msg = mjs_strerror(vm.m, (mjs_err_t) e);
      if (msg == nullptr) failf("no message for error %d", e);
      volatile size_t len = strlen(msg);
      (void) len;
      mjs_print_error(vm.m, devnull(), NULL, 1);
    }
    if (e != 0 || g_step.steps - st0 >= 10) ran = true;
  }
  g_step.fuel = -1;
  g_step.gc_den = 0;
  mjs_gc(vm.m, 1);
  // the instance is still usable
  mjs_val_t r = MJS_UNDEFINED;
  std::string out;
  int e = vm.exec("let zz0 = 40, zz1 = {k: 2, s: 'a string value'}; zz0 + zz1.k;", &out);
  if (e != 0 || out != "42") failf("afterwards the instance cannot run a simple script: error %d (%s), result %s", e, vm.err().c_str(), out.c_str());
  c.nontrivial = toks >= 8 && ran;
  vm.destroy();
}
