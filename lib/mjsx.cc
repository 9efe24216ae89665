#include "mjsx.h"
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include <map>
#include <set>
#include <unordered_map>
#include "engine.h"

// ---- allocation tracking -------------------------------------------------
static std::unordered_map<void *, size_t> &live_map() {
  static auto *m = new std::unordered_map<void *, size_t>();
  return *m;
}
static size_t g_live_bytes = 0, g_peak = 0;
extern "C" {
volatile bool vf_plain = false;  // several threads: nothing is counted
static void *track(void *p, size_t n) {
  if (p && !vf_plain) {
    live_map()[p] = n;
    g_live_bytes += n;
    if (g_live_bytes > g_peak) g_peak = g_live_bytes;
  }
  return p;
}
static void untrack(void *p) {
  if (!p || vf_plain) return;
  auto it = live_map().find(p);
  if (it != live_map().end()) {
    g_live_bytes -= it->second;
    live_map().erase(it);
  }
}
void *vf_malloc(size_t n) { return track(malloc(n), n); }
void *vf_calloc(size_t a, size_t b) { return track(calloc(a, b), a * b); }
void *vf_realloc(void *p, size_t n) {
  untrack(p);
  void *q = realloc(p, n);
  if (!q && n && p) return track(p, n), (void *) nullptr;
  return track(q, n);
}
void vf_free(void *p) {
  untrack(p);
  free(p);
}
char *vf_strdup(const char *s) {
  size_t n = strlen(s) + 1;
  char *p = (char *) vf_malloc(n);
  memcpy(p, s, n);
  return p;
}
long vf_live(void) { return (long) live_map().size(); }
size_t vf_live_bytes(void) { return g_live_bytes; }
size_t vf_peak_bytes(void) { return g_peak; }
void vf_reset_peak(void) { g_peak = g_live_bytes; }
}

// ---- step hook -------------------------------------------------------------
StepCtl g_step;
extern "C" int mjs_verif_step(struct mjs *m);
extern "C" int mjs_verif_step(struct mjs *m) {
  (void) m;
  if (vf_plain) return 0;
  g_step.steps++;
  if (g_step.each) g_step.each(m);
  if (g_step.fuel >= 0 && g_step.steps > g_step.fuel) {
    g_step.exhausted = true;
    return 2;
  }
  if (g_step.mem_guard && g_live_bytes > (256u << 20)) {
    g_step.exhausted = true;
    return 2;
  }
  if (g_step.gc_den) {
    uint64_t z = (g_step.gc_state += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z ^= z >> 29;
    if (z % g_step.gc_den == 0) {
      g_step.gcs++;
      return 1;
    }
  }
  return 0;
}

// ---- text forms ------------------------------------------------------------
std::string quote(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += (char) c;
    } else if (c < 32 || c > 126) {
      o += strf("\\x%02x", c);
    } else
      o += (char) c;
  }
  return o + "\"";
}

std::string fmtnum(double d) {
  if (std::isnan(d)) return "NaN";
  if (std::isinf(d)) return d > 0 ? "Inf" : "-Inf";
  if (d == 0) return "0";  // the sign of zero is not judged (the modulo operator is integer based)
  if (d == (double) (long long) d && fabs(d) < 1e15) return strf("%lld", (long long) d);
  return strf("%.17g", d);
}

std::string getstr(struct mjs *m, mjs_val_t v) {
  size_t n = 0;
  const char *p = mjs_get_string(m, &v, &n);
  return p ? std::string(p, n) : std::string();
}
mjs_val_t mkstr(struct mjs *m, const std::string &s) { return mjs_mk_string(m, s.data(), s.size(), 1); }

static void ser_into(struct mjs *m, mjs_val_t v, int depth, std::vector<mjs_val_t> &path, std::string &o) {
  if (mjs_is_undefined(v)) {
    o += "undefined";
  } else if (mjs_is_null(v)) {
    o += "null";
  } else if (mjs_is_boolean(v)) {
    o += mjs_get_bool(m, v) ? "true" : "false";
  } else if (mjs_is_number(v)) {
    o += fmtnum(mjs_get_double(m, v));
  } else if (mjs_is_string(v)) {
    o += quote(getstr(m, v));
  } else if (mjs_is_function(v)) {
    o += "<fn>";
  } else if (mjs_is_foreign(v)) {
    o += "<ptr>";
  } else if (mjs_is_object(v)) {
    for (size_t i = 0; i < path.size(); i++)
      if (path[i] == v) {
        o += strf("<up%d>", (int) (path.size() - i));
        return;
      }
    if (depth == 0) {
      o += "<deep>";
      return;
    }
    path.push_back(v);
    std::map<std::string, std::string> props;
    bool arr = mjs_is_array(v);
    mjs_val_t it = MJS_UNDEFINED, k;
    size_t count = 0;
    while ((k = mjs_next(m, v, &it)) != MJS_UNDEFINED) {
      std::string ks = getstr(m, k);
      std::string val;
      ser_into(m, mjs_get(m, v, ks.data(), ks.size()), depth - 1, path, val);
      if (!props.emplace(ks, val).second) props[ks] += "<DUPLICATE KEY>";
      if (++count > 1000000) {
        o += "<ENDLESS>";
        break;
      }
    }
    if (arr) {
      o += strf("[%lu", (unsigned long) mjs_array_length(m, v));
      for (auto &p : props) o += "|" + p.first + ":" + p.second;
      o += "]";
    } else {
      o += "{";
      bool first = true;
      for (auto &p : props) {
        if (!first) o += ",";
        first = false;
        o += quote(p.first) + ":" + p.second;
      }
      o += "}";
    }
    path.pop_back();
  } else {
    o += "<other>";
  }
}

std::string ser(struct mjs *m, mjs_val_t v, int depth) {
  std::string o;
  std::vector<mjs_val_t> path;
  ser_into(m, v, depth, path, o);
  return o;
}

// ---- VM ----------------------------------------------------------------------
static std::map<struct mjs *, VM *> &vms() {
  static std::map<struct mjs *, VM *> x;
  return x;
}
VM *VM::of(struct mjs *m) { return vms()[m]; }

extern "C" void vf_log(struct mjs *m);
extern "C" void vf_log(struct mjs *m) {
  VM *vm = VM::of(m);
  std::string o;
  int n = mjs_nargs(m);
  for (int i = 0; i < n; i++) {
    if (i) o += " ";
    o += ser(m, mjs_arg(m, i));
  }
  if (vm && vm->log.size() < 20000) vm->log.push_back(o);
  mjs_return(m, n > 0 ? mjs_arg(m, 0) : MJS_UNDEFINED);
}

VM::VM(bool with_log) {
  live0 = vf_live();
  g_step = StepCtl();
  m = mjs_create();
  vms()[m] = this;
  if (with_log) mjs_set(m, mjs_get_global(m), "log", ~0, mjs_mk_foreign_func(m, (mjs_func_ptr_t) vf_log));
}
VM::~VM() {
  if (m) {
    vms().erase(m);
    mjs_destroy(m);
  }
}
void VM::destroy() {
  struct mjs *x = m;
  vms().erase(x);
  m = nullptr;
  mjs_destroy(x);
  long left = vf_live() - live0;
  if (left != 0) failf("leak: %ld block(s) allocated by the engine are still live after the instance was destroyed", left);
}
int VM::exec(const std::string &src, std::string *out, mjs_val_t *res) {
  mjs_val_t r = MJS_UNDEFINED;
  // exact-size heap copy: any read past the terminator is out of bounds
  char *copy = (char *) malloc(src.size() + 1);
  memcpy(copy, src.data(), src.size());
  copy[src.size()] = 0;
  last_err = mjs_exec(m, copy, &r);
  free(copy);
  if (out) *out = last_err == 0 ? ser(m, r) : strf("error %d", last_err);
  if (res) *res = r;
  return last_err;
}

void rm_rf(const std::string &dir) {
  if (dir.size() < 6 || dir.compare(0, 5, "/tmp/") != 0) return;
  DIR *d = opendir(dir.c_str());
  if (d) {
    struct dirent *e;
    while ((e = readdir(d))) {
      std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      std::string p = dir + "/" + n;
      struct stat st;
      if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
        rm_rf(p);
      else
        unlink(p.c_str());
    }
    closedir(d);
  }
  rmdir(dir.c_str());
}
