// Glue between the generated cases and the mJS C API.
#pragma once
#include <math.h>
#include <functional>
#include <string>
#include <vector>
#include "common/mg_str.h"
#include "mjs_array_public.h"
#include "mjs_core_public.h"
#include "mjs_exec_public.h"
#include "mjs_ffi_public.h"
#include "mjs_gc_public.h"
#include "mjs_object_public.h"
#include "mjs_primitive_public.h"
#include "mjs_string_public.h"
#include "mjs_util_public.h"

#undef MJS_UNDEFINED
#define MJS_UNDEFINED (mjs_mk_undefined())

extern "C" {
void vf_free(void *p);
long vf_live(void);      // blocks allocated by mjs and not yet freed
size_t vf_live_bytes(void);
size_t vf_peak_bytes(void);
void vf_reset_peak(void);
}

// Interpreter step hook state
struct StepCtl {
  long fuel = -1;           // opcodes left before the script is stopped (-1: no limit)
  bool exhausted = false;
  uint64_t gc_state = 0;    // PRNG deciding where to collect
  unsigned gc_den = 0;      // collect at about 1 of gc_den opcodes (0: never)
  long steps = 0;
  long gcs = 0;
  bool mem_guard = true;
  std::function<void(struct mjs *)> each;  // called at each opcode
};
extern StepCtl g_step;

std::string quote(const std::string &s);        // printable, unambiguous
std::string fmtnum(double d);                   // exact text of a number
std::string ser(struct mjs *m, mjs_val_t v, int depth = 12);  // canonical text of a value
std::string getstr(struct mjs *m, mjs_val_t v);
mjs_val_t mkstr(struct mjs *m, const std::string &s);
void rm_rf(const std::string &dir);

struct VM {
  struct mjs *m;
  long live0;
  std::vector<std::string> log;  // what the script passed to log(...)
  explicit VM(bool with_log = true);
  ~VM();
  // runs source; returns error code, serialized result in *out
  int exec(const std::string &src, std::string *out = nullptr, mjs_val_t *res = nullptr);
  std::string err() { return mjs_strerror(m, (mjs_err_t) last_err); }
  int last_err = 0;
  void destroy();   // frees the instance and fails the case on a leak
  mjs_val_t global(const char *name) { return mjs_get(m, mjs_get_global(m), name, ~0); }
  static VM *of(struct mjs *m);
};
