#pragma once
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>

// ------------------------------------------------ variable arguments, as the SysV x86-64 ABI passes them
struct Args {
  uint64_t regs[6 + 16] = {0};
  std::vector<uint64_t> over;
  std::vector<uint64_t> all;
  int gp, fp = 0, fixed;
  explicit Args(int fixed) : gp(fixed), fixed(fixed) {}
  Args &i(uint64_t v) {
    if (gp < 6)
      regs[gp++] = v;
    else
      over.push_back(v);
    return *this;
  }
  Args &p(const void *v) { return i((uint64_t) v); }
  Args &d(double v) {
    uint64_t b;
    memcpy(&b, &v, 8);
    if (fp < 8)
      regs[6 + 2 * fp++] = b;
    else
      over.push_back(b);
    return *this;
  }
  template <class F>
  auto call(F f) {
    struct Tag {
      unsigned gp_offset, fp_offset;
      void *overflow, *save;
    };
    std::vector<uint64_t> o = over;
    o.resize(o.size() + 8, 0x5a5a5a5a5a5a5a5aULL);
    va_list ap;
    static_assert(sizeof(Tag) == sizeof(ap), "x86-64");
    Tag t = {(unsigned) fixed * 8, 48, o.data(), regs};
    memcpy(&ap[0], &t, sizeof(t));
    return f(ap);
  }
};

// a copy in memory of exactly its size
struct Exact {
  char *p;
  size_t n;
  explicit Exact(const std::string &s) : p((char *) malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); }
  ~Exact() { free(p); }
};
