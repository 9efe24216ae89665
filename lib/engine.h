// Property-based testing engine: every case is a pure function of a sequence of
// bounded choices.  Generation draws the choices from a PRNG seeded by
// (VERIF_SEED, worker, case index); shrinking edits the recorded sequence and
// replays it; a replay file is that sequence in text form.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

struct Src {
  std::vector<uint64_t> rec;   // choices made so far
  std::vector<uint64_t> plan;  // choices to replay
  bool replay = false;
  size_t pos = 0;
  uint64_t state = 0;
  size_t limit = 60000;

  uint64_t rnd() {  // splitmix64
    uint64_t z = (state += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  // uniform in [0, n)
  uint64_t below(uint64_t n) {
    if (n <= 1) return 0;
    uint64_t v;
    if (replay) {
      v = pos < plan.size() ? plan[pos] : 0;
      if (v >= n) v = v % n;
    } else {
      v = rec.size() >= limit ? 0 : rnd() % n;
    }
    pos++;
    rec.push_back(v);
    return v;
  }
  int64_t range(int64_t lo, int64_t hi) {
    return lo + (int64_t) below((uint64_t)(hi - lo) + 1);
  }
  // true with probability num/den; the simplest choice (0) is false
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
  uint64_t bits(int n) {
    uint64_t r = 0;
    for (int i = 0; i < n; i += 16) {
      int k = n - i < 16 ? n - i : 16;
      r |= below(1ULL << k) << i;
    }
    return r;
  }
  template <class T>
  const T &pick(const std::vector<T> &v) {
    return v[below(v.size())];
  }
  // index chosen with the given weights
  int weighted(std::initializer_list<int> w) {
    int sum = 0;
    for (int x : w) sum += x;
    int r = (int) below(sum), i = 0;
    for (int x : w) {
      if (r < x) return i;
      r -= x;
      i++;
    }
    return 0;
  }
};

struct Fail {
  std::string msg;
};

[[noreturn]] inline void failf(const char *fmt, ...) {
  char *p = nullptr;
  va_list ap;
  va_start(ap, fmt);
  if (vasprintf(&p, fmt, ap) < 0) p = nullptr;
  va_end(ap);
  std::string s = p ? p : "?";
  free(p);
  throw Fail{s};
}

inline std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline std::string strf(const char *fmt, ...) {
  char *p = nullptr;
  va_list ap;
  va_start(ap, fmt);
  if (vasprintf(&p, fmt, ap) < 0) p = nullptr;
  va_end(ap);
  std::string s = p ? p : "?";
  free(p);
  return s;
}

void engine_hang_ok(bool v);  // a time-out of this case is not judged
void engine_publish_text(const std::string &t);  // visible even if the case crashes

struct Case {
  std::string text;       // human readable form of the generated case
  bool nontrivial = false;
  bool skip = false;      // case turned out to be outside the domain
  std::set<std::string> labels;
  void show(const std::string &t) {
    text = t;
    engine_publish_text(t);
  }
  void label(const std::string &l) { labels.insert(l); }
};

// Provided by each property file
extern const char *PROP_ID;
extern const char *PROP_RULE;  // what makes a case non-trivial
void prop_case(Src &s, Case &c);
