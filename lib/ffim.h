// FFI test functions: receivers that see every argument register, resolved by
// name through mjs_set_ffi_resolver.
#pragma once
#include <math.h>
#include "mv.h"

enum FK { K_VOID, K_INT, K_BOOL, K_DOUBLE, K_FLOAT, K_STR, K_PTR, K_MGSTR, K_CB, K_USER };
inline bool fk_fp(int k) { return k == K_DOUBLE || k == K_FLOAT; }
inline const char *fk_name(int k) {
  static const char *n[] = {"void", "int", "bool", "double", "float", "char *", "void *", "struct mg_str *", "?", "userdata"};
  return n[k];
}

struct FSig {
  int ret = K_VOID;
  std::vector<int> args;
  std::string name;
};

// text of a type with random layout
inline std::string fk_text(Src &s, int k) {
  std::string t = fk_name(k);
  if ((k == K_STR || k == K_PTR || k == K_MGSTR) && s.chance(1, 2)) t.erase(t.size() - 2, 1);
  return t;
}
inline std::string fsp(Src &s) {
  static const std::vector<std::string> w = {"", "", "", " ", "  "};
  return s.pick(w);
}
inline std::string gen_name(Src &s) {
  std::string n(1, "abcxyz_"[s.below(7)]);
  int len = (int) (s.chance(1, 10) ? s.range(30, 90) : s.range(1, 12));
  for (int i = 0; i < len; i++) n += "abcxyz_0189"[s.below(11)];
  return n;
}
