// P20: raw memory: pointers, mkstr, mjs_mem_*, DataView, s2o, and the Math and File libraries.
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <memory>
#include "mv.h"
const char *PROP_ID = "P20";

#ifndef VERIF_REPO
#define VERIF_REPO "/repo"
#endif

namespace {
enum { ERR_TYPE = 3 };
std::string lib(const char *f) { return std::string(VERIF_REPO) + "/lib/" + f; }

extern "C" {
void *mjs_mem_to_ptr(unsigned val);
void *mjs_mem_get_ptr(void *base, int offset);
void mjs_mem_set_ptr(void *ptr, void *val);
double mjs_mem_get_dbl(void *ptr);
void mjs_mem_set_dbl(void *ptr, double val);
double mjs_mem_get_uint(void *ptr, int size, int bigendian);
double mjs_mem_get_int(void *ptr, int size, int bigendian);
void mjs_mem_set_uint(void *ptr, unsigned int val, int size, int bigendian);
void mjs_mem_set_int(void *ptr, int val, int size, int bigendian);
}
void *resolve(void *h, const char *name) {
  static const std::map<std::string, void *> t = {
      {"mjs_mem_to_ptr", (void *) mjs_mem_to_ptr},   {"mjs_mem_get_ptr", (void *) mjs_mem_get_ptr},   {"mjs_mem_set_ptr", (void *) mjs_mem_set_ptr},
      {"mjs_mem_get_dbl", (void *) mjs_mem_get_dbl}, {"mjs_mem_set_dbl", (void *) mjs_mem_set_dbl},   {"mjs_mem_get_uint", (void *) mjs_mem_get_uint},
      {"mjs_mem_get_int", (void *) mjs_mem_get_int}, {"mjs_mem_set_uint", (void *) mjs_mem_set_uint}, {"mjs_mem_set_int", (void *) mjs_mem_set_int}};
  auto it = t.find(name);
  return it != t.end() ? it->second : dlsym(RTLD_DEFAULT, name);
}

// ------------------------------------------------------------- struct to object
struct Mem {  // memory that stays alive during a case
  std::vector<std::unique_ptr<char[]>> v;
  char *get(size_t n) {
    v.emplace_back(new char[n ? n : 1]);
    return v.back().get();
  }
};
struct Def {
  std::vector<struct mjs_c_struct_member> d;
  std::map<std::string, std::string> want;  // as text
  std::vector<std::shared_ptr<Def>> subs;
};
mjs_val_t custom_num(struct mjs *m, const void *p) { return mjs_mk_number(m, *(const unsigned char *) p * 3.0); }
mjs_val_t custom_obj(struct mjs *m, const void *p) {
  mjs_val_t o = mjs_mk_object(m);
  mjs_own(m, &o);
  mjs_set(m, o, "byte", ~0, mjs_mk_number(m, *(const unsigned char *) p));
  mjs_gc(m, 1);
  mjs_disown(m, &o);
  return o;
}
mjs_val_t custom_js(struct mjs *m, const void *p) {
  mjs_val_t r = MJS_UNDEFINED;
  mjs_exec(m, "gc(true); let custom_tmp = 'custom' + ' string'; custom_tmp", &r);
  return r;
}

struct SGen {
  Src &s;
  Mem &mem;
  int names = 0;
  std::vector<std::string> name_store;
  SGen(Src &s, Mem &mem) : s(s), mem(mem) {}
  std::string show;
  std::shared_ptr<Def> gen(char *base, size_t size, int depth) {
    auto d = std::make_shared<Def>();
    size_t off = 0;
    int n = (int) s.range(0, 8);
    show += "{";
    for (int i = 0; i < n; i++) {
      int t = (int) s.range(1, 16);
      if (depth <= 0 && (t == MJS_STRUCT_FIELD_TYPE_STRUCT || t == MJS_STRUCT_FIELD_TYPE_STRUCT_PTR)) t = MJS_STRUCT_FIELD_TYPE_INT;
      off = (off + 7) & ~(size_t) 7;
      off += 8 * s.below(3);
      if (t >= MJS_STRUCT_FIELD_TYPE_INT8 && s.chance(1, 2)) off += 2 * s.below(4);
      if (off + 24 > size) break;
      char *p = base + off;
      std::string want;
      const void *arg = nullptr;
      size_t used = 8;
      static const char *tn[] = {"", "struct", "struct *", "int", "bool", "double", "float", "char *", "void *", "mg_str *", "mg_str", "data", "int8", "int16", "uint8", "uint16", "custom"};
      show += strf(" %d:%s", (int) off, tn[t]);
      switch (t) {
        case MJS_STRUCT_FIELD_TYPE_STRUCT: {
          size_t sz = 24 + 8 * s.below(6);
          if (off + sz > size) sz = size - off;
          auto sub = gen(p, sz, depth - 1);
          d->subs.push_back(sub);
          arg = sub->d.data();
          want = text(*sub);
          used = sz;
          break;
        }
        case MJS_STRUCT_FIELD_TYPE_STRUCT_PTR: {
          if (s.chance(1, 5)) {
            *(void **) p = nullptr;
            want = "null";
            break;
          }
          size_t sz = 24 + 8 * s.below(6);
          char *q = mem.get(sz);
          for (size_t k = 0; k < sz; k++) q[k] = (char) s.below(256);
          auto sub = gen(q, sz, depth - 1);
          d->subs.push_back(sub);
          arg = sub->d.data();
          *(void **) p = q;
          want = text(*sub);
          break;
        }
        case MJS_STRUCT_FIELD_TYPE_INT: {
          int v = (int) s.bits(32);
          if (s.chance(1, 2)) v = (int) s.range(-5, 5);
          memcpy(p, &v, 4);
          want = fmtnum(v);
          used = 4;
          break;
        }
        case MJS_STRUCT_FIELD_TYPE_BOOL: {
          bool v = s.chance(1, 2);
          memcpy(p, &v, 1);
          want = v ? "true" : "false";
          used = 1;
          break;
        }
        case MJS_STRUCT_FIELD_TYPE_DOUBLE: {
          uint64_t b = s.bits(64);
          double v;
          memcpy(&v, &b, 8);
          if (s.chance(1, 2)) v = s.range(-1000, 1000) / 8.0;
          memcpy(p, &v, 8);
          want = fmtnum(v);
          break;
        }
        case MJS_STRUCT_FIELD_TYPE_FLOAT: {
          uint32_t b = (uint32_t) s.bits(32);
          float v;
          memcpy(&v, &b, 4);
          if (s.chance(1, 2)) v = s.range(-1000, 1000) / 8.0f;
          memcpy(p, &v, 4);
          want = fmtnum(v);
          used = 4;
          break;
        }
        case MJS_STRUCT_FIELD_TYPE_CHAR_PTR: {
          if (s.chance(1, 8)) {
            *(void **) p = nullptr;
            want = "null";
            break;
          }
          std::string t = gen_bytes(s, (int) s.below(20));
          for (auto &ch : t)
            if (!ch) ch = '0';
          char *q = mem.get(t.size() + 1);
          memcpy(q, t.c_str(), t.size() + 1);
          *(void **) p = q;
          want = quote(t);
          break;
        }
        case MJS_STRUCT_FIELD_TYPE_VOID_PTR: {
          void *q = s.chance(1, 5) ? nullptr : (void *) (uintptr_t) s.bits(47);
          *(void **) p = q;
          want = strf("ptr %p", q);
          break;
        }
        case MJS_STRUCT_FIELD_TYPE_MG_STR_PTR: {
          if (s.chance(1, 5)) {
            *(void **) p = nullptr;
            want = "null";
            break;
          }
          struct mg_str *q = (struct mg_str *) mem.get(sizeof(struct mg_str));
          want = str(q);
          *(void **) p = q;
          break;
        }
        case MJS_STRUCT_FIELD_TYPE_MG_STR: {
          want = str((struct mg_str *) p);
          used = sizeof(struct mg_str);
          break;
        }
        case MJS_STRUCT_FIELD_TYPE_DATA: {
          size_t n = s.below(24);
          want = quote(std::string(p, n));
          arg = (const void *) n;
          used = n;
          break;
        }
        case MJS_STRUCT_FIELD_TYPE_INT8: want = fmtnum((signed char) *p); used = 1; break;
        case MJS_STRUCT_FIELD_TYPE_UINT8: want = fmtnum((unsigned char) *p); used = 1; break;
        case MJS_STRUCT_FIELD_TYPE_INT16: {
          int16_t v;
          memcpy(&v, p, 2);
          want = fmtnum(v);
          used = 2;
          break;
        }
        case MJS_STRUCT_FIELD_TYPE_UINT16: {
          uint16_t v;
          memcpy(&v, p, 2);
          want = fmtnum(v);
          used = 2;
          break;
        }
        default:
          switch (s.below(3)) {
            case 0:
              arg = (void *) custom_num;
              want = fmtnum((unsigned char) *p * 3.0);
              break;
            case 1:
              arg = (void *) custom_obj;
              want = strf("{byte:%d,}", (unsigned char) *p);
              break;
            default: arg = (void *) custom_js; want = quote("custom string");
          }
          used = 1;
      }
      off += used;
      // names of all kinds of lengths
      std::string nm = strf("n%d%s", names++, std::string(s.below(8), 'x').c_str());
      char *ns = mem.get(nm.size() + 1);
      memcpy(ns, nm.c_str(), nm.size() + 1);
      struct mjs_c_struct_member m = {ns, (int) (p - base), (enum mjs_struct_field_type) t, arg};
      d->d.push_back(m);
      d->want[nm] = want;
    }
    struct mjs_c_struct_member end = {NULL, 0, MJS_STRUCT_FIELD_TYPE_INVALID, NULL};
    d->d.push_back(end);
    show += " }";
    return d;
  }
  std::string str(struct mg_str *q) {
    std::string t = gen_bytes(s, (int) s.below(20));
    if (s.chance(1, 8)) {
      q->p = NULL;
      q->len = 0;
      return quote("");
    }
    char *b = mem.get(t.size());
    memcpy(b, t.data(), t.size());
    q->p = b;
    q->len = t.size();
    return quote(t);
  }
  static std::string text(Def &d) {
    std::string o = "{";
    for (auto &x : d.want) o += x.first + ":" + x.second + ",";
    return o + "}";
  }
};
// objects as sorted text, pointers by address
std::string txt(struct mjs *m, mjs_val_t v) {
  if (mjs_is_foreign(v)) return strf("ptr %p", mjs_get_ptr(m, v));
  if (!mjs_is_object(v)) return ser(m, v);
  std::map<std::string, std::string> p;
  mjs_val_t it = MJS_UNDEFINED, k;
  int n = 0;
  while ((k = mjs_next(m, v, &it)) != MJS_UNDEFINED) {
    p[getstr(m, k)] = txt(m, mjs_get_v(m, v, k));
    n++;
  }
  std::string o = "{";
  for (auto &x : p) o += x.first + ":" + x.second + ",";
  if (n != (int) p.size()) o += "duplicate keys";
  return o + "}";
}
void struct_case(Src &s, Case &c, VM &vm) {
  Mem mem;
  SGen g(s, mem);
  size_t size = 24 + 8 * s.below(40);
  char *base = mem.get(size);
  for (size_t i = 0; i < size; i++) base[i] = (char) s.below(256);
  auto d = g.gen(base, size, 2);
  c.show("s2o of " + g.show);
  mjs_val_t gl = mjs_get_global(vm.m);
  mjs_set(vm.m, gl, "P", ~0, mjs_mk_foreign(vm.m, base));
  mjs_set(vm.m, gl, "D", ~0, mjs_mk_foreign(vm.m, d->d.data()));
  std::vector<char> before(base, base + size);
  int rounds = (int) s.range(1, 3);
  for (int i = 0; i < rounds; i++) {
    mjs_val_t r = MJS_UNDEFINED;
    int e = 0;
    if (s.chance(1, 3))
      r = mjs_struct_to_obj(vm.m, base, d->d.data());
    else
      e = vm.exec("let R = s2o(P, D); gc(true); R", nullptr, &r);
    if (e) failf("s2o fails: %s", mjs_strerror(vm.m, (mjs_err_t) e));
    std::string got = txt(vm.m, r), want = SGen::text(*d);
    if (got != want) failf("s2o yields %s, expected %s", got.c_str(), want.c_str());
    if (memcmp(before.data(), base, size)) failf("s2o changed the struct");
  }
  std::string o;
  for (const char *t : {"s2o(null, D)", "s2o(P, null)"})
    if (vm.exec(t, &o) || o != "undefined") failf("%s yields %s", t, o.c_str());
  c.label("s2o");
  c.nontrivial = d->want.size() >= 2;
}

// --------------------------------------------------------------- pointers, views
struct Raw {
  Src &s;
  Case &c;
  VM &vm;
  std::string hist;
  std::vector<unsigned char> model;
  unsigned char *buf = nullptr;
  size_t n, mid;  // P points to buf + mid
  int views = 0, done = 0;
  struct View {
    long off;
    long len;  // -1: not limited
  };
  std::vector<View> view;
  std::vector<long> ptr;  // variables q0.. as offsets from buf
  Raw(Src &s, Case &c, VM &vm) : s(s), c(c), vm(vm) {}
  void fin(const std::string &code, int e, const std::string &got, const std::string &want, int werr) {
    hist += code + "\n";
    c.show(hist);
    if (e != werr) failf("%s: error %d (%s), expected %d", code.c_str(), e, e ? mjs_strerror(vm.m, (mjs_err_t) e) : "", werr);
    if (!werr && got != want) failf("%s yields %s, expected %s", code.c_str(), got.c_str(), want.c_str());
    for (size_t i = 0; i < n; i++)
      if (buf[i] != model[i]) failf("after %s byte %d is 0x%02x, expected 0x%02x", code.c_str(), (int) i, buf[i], model[i]);
    done++;
  }
  void ex(const std::string &code, const std::string &want, int werr = 0) {
    hist += code + "\n";
    c.show(hist);
    hist.resize(hist.size() - code.size() - 1);
    mjs_val_t r = MJS_UNDEFINED;
    int e = vm.exec(code, nullptr, &r);
    fin(code, e, e ? "" : txt(vm.m, r), want, werr);
  }
  double num(double lo, double hi) { return lo + (double) s.bits(32) / 4294967296.0 * (hi - lo); }
  // a value for an integer of that many bytes
  long long ival(int sz, bool sig) {
    long long span = 1LL << (8 * sz), lo = sig ? -span / 2 : 0;
    switch (s.below(4)) {
      case 0: return lo;
      case 1: return lo + span - 1;
      case 2: return sig ? -1 : 1;
      default: return lo + (long long) (s.bits(32) % span);
    }
  }
  void putn(long at, unsigned long long v, int sz, bool be) {
    for (int i = 0; i < sz; i++) model[at + (be ? sz - 1 - i : i)] = (unsigned char) (v >> (8 * i));
  }
  long long getn(long at, int sz, bool be, bool sig) {
    unsigned long long v = 0;
    for (int i = 0; i < sz; i++) v |= (unsigned long long) model[at + (be ? sz - 1 - i : i)] << (8 * i);
    if (sig && (v >> (8 * sz - 1))) return (long long) v - (1LL << (8 * sz));
    return (long long) v;
  }
  // a pointer expression and its offset in the buffer
  std::pair<std::string, long> pexpr() {
    std::pair<std::string, long> r = {"P", (long) mid};
    if (!ptr.empty() && s.chance(1, 2)) {
      size_t i = s.below(ptr.size());
      r = {strf("q%d", (int) i), ptr[i]};
    }
    int k = (int) s.below(3);
    for (int i = 0; i < k; i++) {
      long d = s.chance(1, 4) ? (long) s.range(-100000000, 100000000) : (long) s.range(-20, 20);
      switch (s.below(3)) {
        case 0: r = {strf("(%s + %ld)", r.first.c_str(), d), r.second + d}; break;
        case 1: r = {strf("(%s - %ld)", r.first.c_str(), d), r.second - d}; break;
        default: r = {strf("(%ld + %s)", d, r.first.c_str()), r.second + d};
      }
    }
    return r;
  }
  std::string at(long off) { return strf("ptr %p", buf + off); }
  void step() {
    switch (s.weighted({3, 2, 3, 2, 3, 3, 3, 4, 4, 2, 1, 1})) {
      case 0: {  // a pointer variable
        auto e = pexpr();
        size_t i = s.below(3);
        if (i >= ptr.size()) {
          i = ptr.size();
          ptr.push_back(e.second);
          ex(strf("let q%d = ", (int) i) + e.first + strf("; q%d", (int) i), at(e.second));
        } else {
          ptr[i] = e.second;
          ex(strf("q%d = ", (int) i) + e.first, at(e.second));
        }
        break;
      }
      case 1: {  // differences and comparisons
        auto a = pexpr(), b = pexpr();
        if (s.chance(1, 2))
          ex(a.first + " - " + b.first, fmtnum((double) (a.second - b.second)));
        else
          ex(a.first + " === " + b.first, a.second == b.second ? "true" : "false");
        break;
      }
      case 2: {  // read a byte
        auto a = pexpr();
        long i = (long) s.below(n);
        ex(strf("%s[%ld]", a.first.c_str(), i - a.second), fmtnum(model[i]));
        break;
      }
      case 3: {  // write a byte
        auto a = pexpr();
        long i = (long) s.below(n);
        int v = (int) s.below(256);
        model[i] = (unsigned char) v;
        ex(strf("%s[%ld] = %d", a.first.c_str(), i - a.second, v), fmtnum(v));
        break;
      }
      case 4: {  // a value that is not a byte
        static const std::vector<std::string> bad = {"256", "-1", "1000", "'a'", "true", "null", "undefined", "{}", "-256", "65536", "2147483648", "4294967296", "4294967301", "-4294967291", "1e300", "1099511627777"};
        long i = (long) s.below(n);
        ex(strf("P[%ld] = %s", i - (long) mid, s.pick(bad).c_str()), "", ERR_TYPE);
        break;
      }
      case 5: {  // mkstr
        long i = (long) s.below(n), len = s.chance(1, 6) ? (long) (n - i) : (long) s.below(std::min<size_t>(n - i, 20) + 1);
        auto a = pexpr();
        std::string want(model.begin() + i, model.begin() + i + len);
        std::string call;
        long d = i - a.second;
        switch (s.below(3)) {
          case 0: call = strf("mkstr(%s + %ld, %ld)", a.first.c_str(), d, len); break;
          case 1: call = strf("mkstr(%s, %ld, %ld)", a.first.c_str(), d, len); break;
          default: call = strf("mkstr(%s, %ld, %ld, %s)", a.first.c_str(), d, len, s.chance(1, 2) ? "true" : "false");
        }
        if (s.chance(1, 3)) {  // a copy does not change with the memory, the other does
          bool copy = s.chance(1, 2);
          if (len < 6) copy = true;  // short strings are always copies
          long k = i + (long) s.below(len ? len : 1);
          int v = (int) s.below(256);
          if (len) model[k] = (unsigned char) v;
          std::string now(model.begin() + i, model.begin() + i + len);
          ex(strf("(function() { let s = mkstr(P, %ld, %ld, %s); %s gc(true); return s; })()", i - (long) mid, len, s.pick(copy ? std::vector<std::string>{"true", "true", "1", "'yes'", "{}", "-1"} : std::vector<std::string>{"false", "false", "0", "''", "null", "undefined"}).c_str(), len ? strf("P[%ld] = %d;", k - (long) mid, v).c_str() : ""), quote(copy ? want : now));
        } else {
          ex(call, quote(want));
        }
        break;
      }
      case 6: {  // the C functions
        int sz = (int) s.range(1, 4);
        if (n < 8) return;
        long i = (long) s.below(n - 7);
        bool be = s.chance(1, 2), sig = s.chance(1, 2);
        if (s.chance(1, 2)) {
          ex(strf("mjs_mem_get_%s(P + %ld, %d, %d)", sig ? "int" : "uint", i - (long) mid, sz, be), fmtnum((double) getn(i, sz, be, sig)));
        } else {
          long long v = ival(sz, sig);
          putn(i, (unsigned long long) v, sz, be);
          ex(strf("mjs_mem_set_%s(P + %ld, %lld, %d, %d)", sig ? "int" : "uint", i - (long) mid, v, sz, be), "undefined");
        }
        break;
      }
      case 7: {  // DataView.create
        long o = (long) s.below(n), len = (long) s.below(n - o + 1);
        bool nolen = s.chance(1, 5);
        std::string name = strf("w%d", (int) view.size());
        view.push_back({o, nolen ? -1 : len});
        std::string args = strf("P + %ld", o - (long) mid);
        if (s.chance(1, 2)) args = strf("P, %ld", o - (long) mid);
        else
          args += s.chance(1, 2) || nolen ? ", 0" : ", undefined";
        ex("let " + name + " = DataView.create(" + args + (nolen ? "" : strf(", %ld", len)) + "); 1", "1");
        break;
      }
      case 8: {  // DataView methods
        if (view.empty()) return;
        size_t k = s.below(view.size());
        View w = view[k];
        int sz = s.pick(std::vector<int>{1, 2, 4});
        bool sig = s.chance(1, 2), set = s.chance(1, 2), le = s.chance(1, 2);
        long lim = w.len < 0 ? (long) n - w.off : w.len;
        long idx = s.chance(1, 4) ? lim - sz + (long) s.range(-2, 3) : (long) s.below(lim + 1);
        if (s.chance(1, 10)) idx = (long) s.range(-5, -1);
        if (s.chance(1, 20)) idx = (long) s.range(-3000000000LL, 3000000000LL);
        bool ok = idx >= 0 && idx + sz <= lim;
        if (w.len < 0 && !ok) return;  // not limited: not judged
        std::string m = strf("w%d.%s%s%d(%ld", (int) k, set ? "set" : "get", sig ? "Int" : "Uint", sz * 8, idx);
        std::string want = "undefined";
        if (set) {
          long long v = ival(sz, sig);
          m += strf(", %lld", v);
          if (ok) putn(w.off + idx, (unsigned long long) v, sz, !le);
        } else if (ok) {
          want = fmtnum((double) getn(w.off + idx, sz, !le, sig));
        }
        if (sz == 1) {
          if (s.chance(1, 4)) m += le ? ", true" : ", false";
        } else if (le || s.chance(1, 2)) {
          m += le ? ", true" : ", false";
        }
        c.label(ok ? "DataView" : "DataView, out of bounds");
        ex(m + ")", want, ok ? 0 : ERR_TYPE);
        break;
      }
      case 9: {  // doubles and pointers in memory
        if (n < 8) return;
        long i = (long) s.below(n - 7);
        if (s.chance(1, 2)) {
          uint64_t b = s.bits(64);
          double v;
          memcpy(&v, &b, 8);
          if (v != v || s.chance(1, 2)) v = s.range(-100, 100) / 4.0;
          memcpy(&model[i], &v, 8);
          ex(strf("mjs_mem_set_dbl(P + %ld, %.17g); mjs_mem_get_dbl(P + %ld)", i - (long) mid, v, i - (long) mid), fmtnum(v));
        } else {
          auto a = pexpr();
          void *q = buf + a.second;
          memcpy(&model[i], &q, 8);
          ex(strf("mjs_mem_set_ptr(P + %ld, %s)", i - (long) mid, a.first.c_str()), "undefined");
        }
        break;
      }
      case 10: {
        auto a = pexpr();
        long d = (long) s.range(-1000, 1000);
        ex(strf("mjs_mem_get_ptr(%s, %ld)", a.first.c_str(), d), at(a.second + d));
        break;
      }
      default: {  // what pointers do not do
        static const std::vector<std::string> ops = {"*", "/", "%", "&", "|", "^", "<<", ">>", ">>>"};
        switch (s.below(3)) {
          case 0: ex("P " + s.pick(ops) + " 2", "", ERR_TYPE); break;
          case 1: ex("P + P", "", ERR_TYPE); break;
          default: ex("P + 'a'", "", ERR_TYPE);
        }
      }
    }
  }
  void run() {
    n = (size_t) s.range(1, 64);
    mid = s.below(n);
    std::unique_ptr<unsigned char[]> mem(new unsigned char[n]);
    buf = mem.get();
    for (size_t i = 0; i < n; i++) model.push_back((unsigned char) s.below(256));
    memcpy(buf, model.data(), n);
    mjs_val_t g = mjs_get_global(vm.m);
    mjs_set(vm.m, g, "P", ~0, mjs_mk_foreign(vm.m, buf + mid));
    hist = strf("P points to byte %d of %d\n", (int) mid, (int) n);
    int e = vm.exec("load('" + lib("api_dataview.js") + "');"
                    "let mjs_mem_get_int = ffi('double mjs_mem_get_int(void *, int, int)');"
                    "let mjs_mem_get_uint = ffi('double mjs_mem_get_uint(void *, int, int)');"
                    "let mjs_mem_set_int = ffi('void mjs_mem_set_int(void *, int, int, int)');"
                    "let mjs_mem_set_uint = ffi('void mjs_mem_set_uint(void *, int, int, int)');"
                    "let mjs_mem_get_dbl = ffi('double mjs_mem_get_dbl(void *)');"
                    "let mjs_mem_set_dbl = ffi('void mjs_mem_set_dbl(void *, double)');"
                    "let mjs_mem_get_ptr = ffi('void *mjs_mem_get_ptr(void *, int)');"
                    "let mjs_mem_set_ptr = ffi('void mjs_mem_set_ptr(void *, void *)');");
    if (e) failf("setup: %s", vm.err().c_str());
    int k = (int) s.range(3, 25);
    for (int i = 0; i < k; i++) step();
    c.nontrivial = done >= 3;
    c.label("pointers");
    mjs_set(vm.m, g, "P", ~0, MJS_UNDEFINED);
  }
};

// --------------------------------------------------------------------- Math, File
void math_case(Src &s, Case &c, VM &vm) {
  if (vm.exec("load('" + lib("api_math.js") + "');")) failf("api_math.js: %s", vm.err().c_str());
  struct {
    const char *n;
    double (*f1)(double);
    double (*f2)(double, double);
  } t[] = {{"ceil", ceil, 0}, {"floor", floor, 0}, {"round", round, 0}, {"abs", fabs, 0}, {"sqrt", sqrt, 0}, {"exp", exp, 0}, {"log", log, 0}, {"sin", sin, 0}, {"cos", cos, 0}, {"pow", 0, pow}, {"max", 0, fmax}, {"min", 0, fmin}};
  std::string hist;
  for (int i = 0; i < 6; i++) {
    auto &x = t[s.below(sizeof(t) / sizeof(t[0]))];
    double a[2];
    for (double &d : a) {
      switch (s.below(3)) {
        case 0: d = (double) s.range(-10, 10) / 2; break;
        case 1: d = (double) s.range(-1000000, 1000000) / 1000.0; break;
        default: {
          uint64_t b = s.bits(64);
          memcpy(&d, &b, 8);
        }
      }
      if (d == 0) d = 0;  // the sign of zero is not kept
    }
    mjs_val_t g = mjs_get_global(vm.m);
    mjs_set(vm.m, g, "a", ~0, mjs_mk_number(vm.m, a[0]));
    mjs_set(vm.m, g, "b", ~0, mjs_mk_number(vm.m, a[1]));
    std::string code = strf("Math.%s(a%s)", x.n, x.f2 ? ", b" : "");
    hist += code + strf(" a=%.17g b=%.17g\n", a[0], a[1]);
    c.show(hist);
    mjs_val_t r = MJS_UNDEFINED;
    int e = vm.exec(code, nullptr, &r);
    double want = x.f2 ? x.f2(a[0], a[1]) : x.f1(a[0]);
    if (e) failf("%s fails: %s", code.c_str(), vm.err().c_str());
    double got = mjs_get_double(vm.m, r);
    // (a NaN of a script is a signaling one, for which pow and fmax differ)
    if (x.f2 && (a[0] != a[0] || a[1] != a[1])) want = got;
    if (!mjs_is_number(r) || !(got == want || (got != got && want != want))) failf("%s yields %.17g, expected %.17g", code.c_str(), got, want);
  }
  std::string o;
  if (vm.exec("let R = Math.random(); R >= 0 && R <= 1", &o) || o != "true") failf("Math.random() is not from 0 to 1");
  c.label("Math");
  c.nontrivial = true;
}
void file_case(Src &s, Case &c, VM &vm) {
  if (vm.exec("load('" + lib("api_file.js") + "');")) failf("api_file.js: %s", vm.err().c_str());
  const char *sd = getenv("VERIF_SCRATCH");
  std::string dir = strf("%s/p20_%d", sd ? sd : "/tmp", (int) getpid());
  mkdir(dir.c_str(), 0700);
  std::map<std::string, std::string> files;
  std::string hist, fail;
  int done = 0;
  auto path = [&](int i) { return dir + strf("/%c", 'a' + i); };
  try {
    int n = (int) s.range(2, 10);
    for (int i = 0; i < n; i++) {
      int f = (int) s.below(3), f2 = (int) s.below(3);
      std::string p = path(f), p2 = path(f2), want, code;
      mjs_val_t g = mjs_get_global(vm.m);
      mjs_set(vm.m, g, "P", ~0, mkstr(vm.m, p));
      mjs_set(vm.m, g, "Q", ~0, mkstr(vm.m, p2));
      struct rlimit old, rl;
      bool limited = false;
      switch (s.weighted({4, 3, 4, 1, 2, 1})) {
        case 0:
        case 1: {
          std::string t = gen_bytes(s, (int) s.below(s.chance(1, 6) ? 9000 : 40));
          bool app = s.chance(1, 3);
          mjs_set(vm.m, g, "T", ~0, mkstr(vm.m, t));
          code = app ? "File.write(T, P, 'a')" : s.chance(1, 2) ? "File.write(T, P)" : "File.write(T, P, 'w')";
          hist += code + " " + p.substr(dir.size()) + " " + (t.size() > 100 ? strf("<%d bytes>", (int) t.size()) : quote(t)) + "\n";
          want = strf("%d", (int) t.size());
          files[p] = (app ? files[p] : "") + t;
          if (s.chance(1, 10)) {  // a full disk
            signal(SIGXFSZ, SIG_IGN);
            getrlimit(RLIMIT_FSIZE, &old);
            rl = old;
            rl.rlim_cur = (rlim_t) s.below(8192);
            limited = true;
            hist += strf("  with a limit of %d bytes\n", (int) rl.rlim_cur);
            c.label("full disk");
          }
          break;
        }
        case 2: {
          code = "File.read(P)";
          hist += code + " " + p.substr(dir.size()) + "\n";
          if (files.count(p))
            want = quote(files[p]);
          else
            want = "null or \"\"";
          break;
        }
        case 3:
          code = "File.remove(P) === 0";
          hist += code + " " + p.substr(dir.size()) + "\n";
          want = files.count(p) ? "true" : "false";
          files.erase(p);
          break;
        case 4:
          code = "File.rename(P, Q) === 0";
          hist += code + " " + p.substr(dir.size()) + " " + p2.substr(dir.size()) + "\n";
          want = files.count(p) ? "true" : "false";
          if (files.count(p) && f != f2) {
            files[p2] = files[p];
            files.erase(p);
          }
          break;
        default:
          code = "File.write('x', P + '/no/such/dir')";
          hist += code + "\n";
          want = "0";
      }
      c.show(hist);
      mjs_val_t r = MJS_UNDEFINED;
      if (limited) setrlimit(RLIMIT_FSIZE, &rl);
      int e = vm.exec(code, nullptr, &r);
      if (limited) setrlimit(RLIMIT_FSIZE, &old);
      if (e) failf("%s fails: %s", code.c_str(), vm.err().c_str());
      std::string got = ser(vm.m, r);
      if (limited) {  // it came to an end; what is in the file is not judged
        unlink(p.c_str());
        files.erase(p);
        done++;
        continue;
      }
      if (want == "null or \"\"" ? (got != "null" && got != "\"\"") : got != want) failf("%s yields %s, expected %s", code.c_str(), got.c_str(), want.c_str());
      for (int k = 0; k < 3; k++) {
        std::string q = path(k), t;
        FILE *fp = fopen(q.c_str(), "rb");
        if ((fp != nullptr) != (files.count(q) > 0)) {
          if (fp) fclose(fp);
          failf("%s: file %c %s", code.c_str(), 'a' + k, fp ? "should not exist" : "does not exist");
        }
        if (!fp) continue;
        char b[4096];
        size_t m;
        while ((m = fread(b, 1, sizeof(b), fp)) > 0) t.append(b, m);
        fclose(fp);
        if (t != files[q]) failf("%s: file %c has %d bytes: %s, expected %d: %s", code.c_str(), 'a' + k, (int) t.size(), quote(t.substr(0, 200)).c_str(), (int) files[q].size(), quote(files[q].substr(0, 200)).c_str());
      }
      done++;
    }
  } catch (Fail &f) {
    fail = f.msg;
  }
  rm_rf(dir);
  if (!fail.empty()) failf("%s", fail.c_str());
  c.label("File");
  c.nontrivial = done >= 2;
}
}  // namespace

void prop_case(Src &s, Case &c) {
  VM vm;
  mjs_set_ffi_resolver(vm.m, resolve);
  if (s.chance(1, 3)) {
    g_step.gc_den = (unsigned) s.range(1, 30);
    g_step.gc_state = s.bits(32);
  }
  switch (s.weighted({8, 4, 1, 2})) {
    case 0: Raw(s, c, vm).run(); break;
    case 1: struct_case(s, c, vm); break;
    case 2: math_case(s, c, vm); break;
    default: file_case(s, c, vm);
  }
  vm.destroy();
}
