// P22: the utility layer: growing buffers, variable-length integers, string slices, formatting, files, logs.
#include <stdarg.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include "common/cs_dbg.h"
#include "common/cs_file.h"
extern "C" {
#include "common/cs_time.c"
}
#include "common/cs_varint.h"
#include "common/mbuf.h"
#include "common/mg_str.h"
#include "common/str_util.h"
#include "lang.h"
#include "mjsx.h"
#include "relayout.h"
#include "vargs.h"
const char *PROP_ID = "P22";
extern "C" void *vf_malloc(size_t);
extern "C" char *cs_mmap_file(const char *path, size_t *size);
extern "C" uint64_t cs_varint_decode_unsafe(const uint8_t *buf, int *llen);
#include <sys/mman.h>

namespace {
int sgn(long v) { return v < 0 ? -1 : v > 0; }
std::string bytes(Src &s, size_t n, int kind) {
  static const char SOME[] = "aAbB zZ\t\n\xc3\xe9\x80@[`{";
  std::string r;
  for (size_t i = 0; i < n; i++) switch (kind) {
      case 0: r += (char) ('a' + s.below(2)); break;
      case 1: r += SOME[s.below(sizeof(SOME) - 1)]; break;
      case 2: r += (char) (1 + s.below(255)); break;
      default: r += (char) s.below(256); break;
    }
  return r;
}
struct Slice {  // a string of which nothing beyond the end may be read
  Exact e;
  struct mg_str m;
  explicit Slice(const std::string &t) : e(t) { m.p = e.p, m.len = e.n; }
};

// --------------------------------------------------------------------------------- mbuf
size_t sz(Src &s) {
  switch (s.weighted({4, 3, 2, 1})) {
    case 0: return s.below(20);
    case 1: return s.below(300);
    case 2: return s.below(5000);
    default: return s.below(70000);
  }
}
std::string fill(Src &s, size_t n) {
  std::string r(n, 0);
  uint32_t x = (uint32_t) s.below(1 << 30) + 1;
  for (auto &ch : r) x = x * 1664525 + 1013904223, ch = (char) (x >> 24);
  return r;
}
void mbuf_case(Src &s, Case &c) {
  struct mbuf b, other;
  std::string m;
  size_t init = s.chance(1, 2) ? 0 : sz(s);
  mbuf_init(&b, init);
  mbuf_init(&other, 0);
  std::string h = strf("mbuf_init(%zu)", init);
  int n = 1 + s.below(30);
  size_t moved = 0;
  for (int i = 0; i < n; i++) {
    size_t min_size = 0, want_size = (size_t) -1;
    switch (s.weighted({8, 6, 5, 3, 3, 1, 2, 1})) {
      case 0: {
        std::string d = fill(s, sz(s));
        if (s.chance(1, 3) && b.size > b.len) d = fill(s, std::min<size_t>(b.size - b.len + s.below(3) - (b.size - b.len > 0 ? 1 : 0), 80000));
        if (d.empty() && !b.buf) break;
        h += strf("; append %zu", d.size());
        size_t r = mbuf_append(&b, d.data(), d.size());
        if (r != d.size()) failf("%s returns %zu", h.c_str(), r);
        m += d;
        break;
      }
      case 1: {
        std::string d = fill(s, sz(s));
        size_t off = s.chance(1, 5) ? m.size() : s.chance(1, 4) ? 0 : s.below(m.size() + 1);
        bool null = s.chance(1, 4);
        if (d.empty() && !b.buf) break;
        h += strf("; insert %zu at %zu%s", d.size(), off, null ? " (NULL)" : "");
        size_t r = mbuf_insert(&b, off, null ? NULL : d.data(), d.size());
        if (r != d.size()) failf("%s returns %zu", h.c_str(), r);
        if (null) memcpy(b.buf + off, d.data(), d.size());
        m.insert(off, d);
        moved += m.size() - off;
        break;
      }
      case 2: {
        size_t k = s.chance(1, 6) ? m.size() : s.chance(1, 8) ? m.size() + 1 + s.below(10) : s.below(m.size() + 1);
        h += strf("; remove %zu", k);
        mbuf_remove(&b, k);
        if (k <= m.size()) m.erase(0, k);  // more than there is: nothing happens
        break;
      }
      case 3: {
        size_t k = s.chance(1, 3) ? b.len + s.below(50) : sz(s);
        h += strf("; resize %zu", k);
        size_t old = b.size;
        mbuf_resize(&b, k);
        want_size = k >= m.size() ? k : old;
        break;
      }
      case 4:
        h += "; trim";
        mbuf_trim(&b);
        want_size = m.size();
        break;
      case 5:
        h += "; clear";
        mbuf_clear(&b);
        m.clear();
        break;
      case 6: {
        std::string d = fill(s, 1 + sz(s));
        char *p = (char *) vf_malloc(d.size());
        memcpy(p, d.data(), d.size());
        h += strf("; append_and_free %zu", d.size());
        size_t r = mbuf_append_and_free(&b, p, d.size());
        if (r != d.size()) failf("%s returns %zu", h.c_str(), r);
        m += d;
        break;
      }
      default:
        h += "; move there and back";
        mbuf_move(&b, &other);
        if (b.buf || b.len || b.size) failf("%s leaves something in the source", h.c_str());
        mbuf_move(&other, &b);
        break;
    }
    (void) min_size;
    if (b.len != m.size()) failf("%s: %zu bytes, expected %zu", h.c_str(), b.len, m.size());
    if (b.size < b.len) failf("%s: the size, %zu, is smaller than the length, %zu", h.c_str(), b.size, b.len);
    if (want_size != (size_t) -1 && b.size != want_size) failf("%s: the size is %zu, expected %zu", h.c_str(), b.size, want_size);
    if (b.len && memcmp(b.buf, m.data(), b.len)) failf("%s: the content differs", h.c_str());
    if (b.size) {  // all of it is there
      if (b.size > b.len) memset(b.buf + b.len, 0x5a, b.size - b.len);
    }
  }
  c.show(h);
  c.label("mbuf");
  if (moved > 20 && n > 4) c.nontrivial = true;
  mbuf_free(&b);
  if (b.buf || b.len || b.size) failf("mbuf_free leaves something");
  mbuf_free(&other);
}

// ------------------------------------------------------------------------------- varints
uint64_t num(Src &s) {
  switch (s.weighted({2, 3, 2, 1})) {
    case 0: return s.below(300);
    case 1: {
      int b = s.below(64);
      return (1ULL << b) + s.below(5) - 2;
    }
    case 2: return s.bits(64) >> s.below(64);
    default: return ~0ULL - s.below(3);
  }
}
void varint_case(Src &s, Case &c) {
  std::vector<uint64_t> v;
  std::string all, h;
  int n = 1 + s.below(6);
  for (int i = 0; i < n; i++) {
    uint64_t x = num(s);
    v.push_back(x);
    h += strf(" %llu", (unsigned long long) x);
    std::string want;
    uint64_t y = x;
    do {
      want += (char) ((y & 0x7f) | (y > 0x7f ? 0x80 : 0));
      y >>= 7;
    } while (y);
    size_t k = cs_varint_llen(x);
    if (k != want.size()) failf("cs_varint_llen(%llu) is %zu", (unsigned long long) x, k);
    size_t room = s.chance(1, 3) ? s.below(want.size() + 1) : want.size();
    Exact e(std::string(room, '\xee'));
    size_t r = cs_varint_encode(x, (uint8_t *) e.p, room);
    if (r != want.size()) failf("cs_varint_encode(%llu) into %zu bytes returns %zu", (unsigned long long) x, room, r);
    if (memcmp(e.p, want.data(), room)) failf("cs_varint_encode(%llu) into %zu bytes writes something else", (unsigned long long) x, room);
    all += want;
  }
  c.show("varints" + h);
  c.label("varint");
  if (all.size() > 3) c.nontrivial = true;
  size_t pos = 0;
  for (uint64_t x : v) {
    uint64_t g = 77;
    size_t l = 77, want = cs_varint_llen(x);
    Exact tail(all.substr(pos));
    if (!cs_varint_decode((uint8_t *) tail.p, tail.n, &g, &l) || g != x || l != want)
      failf("cs_varint_decode of what is encoded for %llu yields %llu, %zu bytes", (unsigned long long) x, (unsigned long long) g, l);
    int il = 0;
    g = cs_varint_decode_unsafe((uint8_t *) tail.p, &il);
    if (g != x || il != (int) want) failf("cs_varint_decode_unsafe of what is encoded for %llu yields %llu, %d bytes", (unsigned long long) x, (unsigned long long) g, il);
    size_t cut = s.below(want);
    Exact part(all.substr(pos, cut));
    if (cs_varint_decode((uint8_t *) part.p, part.n, &g, &l)) failf("cs_varint_decode accepts %zu of the %zu bytes of %llu", cut, want, (unsigned long long) x);
    pos += want;
  }
  // anything else: it stays within the bytes that are there
  Exact junk(s.chance(1, 2) ? std::string(s.below(14), '\xff') : bytes(s, s.below(12), 3));
  uint64_t g;
  size_t l = 0;
  if (cs_varint_decode((uint8_t *) junk.p, junk.n, &g, &l) && (l == 0 || l > junk.n || l > 10)) failf("cs_varint_decode of junk consumes %zu of %zu bytes", l, junk.n);
}

// ---------------------------------------------------------------------------- mg_str
int low(char ch) { return ch >= 'A' && ch <= 'Z' ? ch + 32 : (unsigned char) ch; }
int cmp(const std::string &a, const std::string &b, bool fold) {
  for (size_t i = 0; i < a.size() && i < b.size(); i++) {
    int x = fold ? low(a[i]) : (unsigned char) a[i], y = fold ? low(b[i]) : (unsigned char) b[i];
    if (x != y) return x < y ? -1 : 1;
  }
  return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1;
}
void mgstr_case(Src &s, Case &c) {
  int kind = s.below(4);
  std::string a = bytes(s, s.below(12), kind), b = bytes(s, s.below(12), kind);
  switch (s.weighted({2, 2, 1, 1, 1, 2})) {
    case 1: b = a; break;
    case 2: b = a + b; break;
    case 3: b = a.substr(0, s.below(a.size() + 1)); break;
    case 4:
      b = a;
      for (auto &ch : b)
        if (s.chance(1, 2) && isalpha((unsigned char) ch)) ch ^= 0x20;
      break;
    case 5:
      b = a;
      if (!b.empty()) b[s.below(b.size())] = (char) s.below(256);
      break;
    default: break;
  }
  if (s.chance(1, 2)) std::swap(a, b);
  c.show("mg_str " + quote(a) + " " + quote(b));
  c.label("mg_str");
  if (a.size() > 1 && b.size() > 1) c.nontrivial = true;
  Slice A(a), B(b);
  int w = cmp(a, b, false), g;
  if (sgn(g = mg_strcmp(A.m, B.m)) != w) failf("mg_strcmp yields %d, strcmp %d", g, w);
  if (sgn(g = mg_strcasecmp(A.m, B.m)) != cmp(a, b, true)) failf("mg_strcasecmp yields %d", g);
  size_t n = s.below(14);
  if (sgn(g = mg_strncmp(A.m, B.m, n)) != cmp(a.substr(0, n), b.substr(0, n), false)) failf("mg_strncmp of %zu bytes yields %d", n, g);
  if (b.find('\0') == std::string::npos) {
    if (sgn(g = mg_vcmp(&A.m, b.c_str())) != w) failf("mg_vcmp yields %d, strcmp %d", g, w);
    if (sgn(g = mg_vcasecmp(&A.m, b.c_str())) != cmp(a, b, true)) failf("mg_vcasecmp yields %d", g);
    if (a.find('\0') == std::string::npos) {
      if (sgn(g = mg_casecmp(a.c_str(), b.c_str())) != cmp(a, b, true)) failf("mg_casecmp yields %d", g);
      if (sgn(g = mg_ncasecmp(a.c_str(), b.c_str(), n)) != cmp(a.substr(0, n), b.substr(0, n), true)) failf("mg_ncasecmp of %zu bytes yields %d", n, g);
      // c_strnstr: the first slen characters of a string
      size_t sl = s.below(a.size() + 1);
      std::string t = a.substr(0, sl);
      size_t p = t.find(b);
      Slice T(t);
      if (!b.empty()) {
        const char *q = c_strnstr(T.m.p, b.c_str(), sl);
        if (p == std::string::npos ? q != NULL : q != T.m.p + p) failf("c_strnstr in %s of %s yields %ld, expected %ld", quote(t).c_str(), quote(b).c_str(), q ? (long) (q - T.m.p) : -1, (long) p);
      }
    }
  }
  if (mg_str_starts_with(A.m, B.m) != (a.compare(0, b.size(), b) == 0)) failf("mg_str_starts_with is wrong");
  {
    std::string t = a + b + a;
    Slice T(t);
    std::string nd = s.chance(1, 2) ? b : t.substr(s.below(t.size() + 1));
    if (s.chance(1, 4) && !nd.empty()) nd.pop_back();
    Slice N(nd);
    size_t p = t.find(nd);
    const char *q = mg_strstr(T.m, N.m);
    if (p == std::string::npos ? q != NULL : q != T.m.p + p) failf("mg_strstr in %s of %s yields %ld, expected %ld", quote(t).c_str(), quote(nd).c_str(), q ? (long) (q - T.m.p) : -1, (long) p);
    int ch = s.chance(1, 2) && !t.empty() ? t[s.below(t.size())] : (char) s.below(256);
    p = t.find((char) ch);
    q = mg_strchr(T.m, ch);
    if (p == std::string::npos ? q != NULL : q != T.m.p + p) failf("mg_strchr is wrong");
  }
  {
    std::string t = bytes(s, s.below(4), 1) + a + bytes(s, s.below(4), 1);
    Slice T(t);
    auto sp = [](char ch) { return ch == ' ' || (ch >= '\t' && ch <= '\r'); };
    size_t x = 0, y = t.size();
    while (x < y && sp(t[x])) x++;
    while (y > x && sp(t[y - 1])) y--;
    struct mg_str r = mg_strstrip(T.m);
    if (r.len != y - x || r.p != T.m.p + x) failf("mg_strstrip of %s yields %s", quote(t).c_str(), quote(std::string(r.p, r.len)).c_str());
  }
  struct mg_str d = mg_strdup(A.m), dn = mg_strdup_nul(A.m);
  if (a.empty() ? d.len != 0 : (d.len != a.size() || d.p == A.m.p || memcmp(d.p, a.data(), a.size()))) failf("mg_strdup yields something else");
  if (a.empty() ? dn.len != 0 : (dn.len != a.size() || dn.p == A.m.p || memcmp(dn.p, a.c_str(), a.size() + 1))) failf("mg_strdup_nul yields something else");
  mg_strfree(&d);
  mg_strfree(&dn);
  if (d.p || d.len) failf("mg_strfree leaves something");
  // hex
  {
    std::string hx(2 * a.size(), 0), want;
    for (unsigned char ch : a) want += strf("%02x", ch);
    Exact e(hx + "x");
    cs_to_hex(e.p, (const unsigned char *) A.e.p, a.size());
    if (std::string(e.p, e.n) != want + std::string(1, 0)) failf("cs_to_hex yields %s", quote(std::string(e.p, e.n)).c_str());
    for (auto &ch : want)
      if (s.chance(1, 4)) ch = (char) toupper(ch);
    Exact f(want), o(a + "x");
    cs_from_hex(o.p, f.p, f.n);
    if (std::string(o.p, o.n) != a + std::string(1, 0)) failf("cs_from_hex of %s yields %s", want.c_str(), quote(std::string(o.p, o.n)).c_str());
  }
}

// ------------------------------------------------------------------------ formatting
struct Fmt {
  std::string f;
  std::vector<std::string> strs;
  std::vector<std::pair<int, uint64_t>> args;  // 0: integer, 1: string (index)
};
Fmt format(Src &s, bool full) {
  Fmt r;
  int n = 1 + s.below(6);
  for (int i = 0; i < n; i++) {
    for (int k = s.below(4); k > 0; k--) r.f += "ab x:%"[s.below(5)];
    std::string w;
    int wk = s.weighted({3, 2, 2, 1});
    int width = s.below(3) ? (int) s.below(12) : (int) s.below(36);
    switch (s.weighted({6, 3, 1, 1})) {
      case 0: {
        static const char *CONV[] = {"d", "ld", "zd", "lld", "u", "x", "lu", "lx", "zu", "zx"};
        int k = s.below(10);
        if (k == 3 && s.chance(1, 2)) k = 6;
        uint64_t v = num(s);
        if (s.chance(1, 2)) v = -v;
        if (s.chance(1, 8)) v = 1ULL << 63;
        if (s.chance(1, 8)) v = 1ULL << 31;
        if (k == 0 || k == 4 || k == 5) v = (uint32_t) v;
        if (wk == 1) w = strf("0%d", width);
        if (wk == 2) w = strf("%d", width);
        if (wk == 3 && full) {
          w = s.chance(1, 2) ? "0*" : "*";
          r.args.push_back({0, (uint64_t) width});
        }
        r.f += "%" + w + CONV[k];
        r.args.push_back({0, v});
        break;
      }
      case 1: {
        std::string t = bytes(s, s.chance(1, 6) ? s.below(200) : s.below(15), 2);
        if (wk >= 2) w = strf("%d", width);
        int prec = 1 + s.below(14);
        switch (s.below(3)) {
          case 1: w += strf(".%d", prec); break;
          case 2:
            w += ".*";
            r.args.push_back({0, (uint64_t) prec});
            break;
        }
        r.f += "%" + w + "s";
        r.args.push_back({1, r.strs.size()});
        r.strs.push_back(t);
        break;
      }
      case 2:
        r.f += "%c";
        r.args.push_back({0, s.below(256)});
        break;
      default:
        r.f += "%p";
        r.args.push_back({0, 1 + (num(s) >> 16)});
        break;
    }
  }
  return r;
}
Args &put(Fmt &f, Args &a) {
  for (auto &x : f.args)
    if (x.first)
      a.p(f.strs[x.second].c_str());
    else
      a.i(x.second);
  return a;
}
std::string show(const Fmt &f) {
  std::string r = quote(f.f);
  for (auto &x : f.args) r += x.first ? ", " + quote(f.strs[x.second]) : strf(", 0x%llx", (unsigned long long) x.second);
  return r;
}
std::string libc(Fmt &f) {
  Args a(3), b(3);
  int n = put(f, a).call([&](va_list ap) { return vsnprintf(NULL, 0, f.f.c_str(), ap); });
  std::string r((size_t) n + 1, 0);
  put(f, b).call([&](va_list ap) { return vsnprintf(&r[0], r.size(), f.f.c_str(), ap); });
  r.pop_back();
  return r;
}
void fmt_case(Src &s, Case &c) {
  Fmt f = format(s, true);
  c.show("format " + show(f));
  c.label("format");
  if (f.args.size() > 1) c.nontrivial = true;
  std::string want = libc(f);
  size_t room = s.chance(1, 3) ? want.size() + 1 + s.below(5) : s.chance(1, 6) ? 1 : s.below(want.size() + 2) + 1;
  Exact e(std::string(room, '\xee'));
  Args a(3);
  int n = put(f, a).call([&](va_list ap) { return c_vsnprintf(e.p, room, f.f.c_str(), ap); });
  if (n != (int) want.size()) failf("c_snprintf(%s) returns %d, snprintf %zu", show(f).c_str(), n, want.size());
  std::string exp = want.substr(0, std::min(room - 1, want.size())) + std::string(1, 0);
  if (memcmp(e.p, exp.data(), exp.size())) failf("c_snprintf(%s) of %zu bytes writes %s, snprintf %s", show(f).c_str(), room, quote(std::string(e.p, exp.size())).c_str(), quote(exp).c_str());
  for (size_t i = exp.size(); i < room; i++)
    if (e.p[i] != '\xee') failf("c_snprintf(%s) of %zu bytes writes beyond the terminator", show(f).c_str(), room);
  // mg_avprintf allocates when the buffer is too small
  {
    size_t r2 = s.below(3) ? s.below(want.size() + 3) : 0;
    Exact b(std::string(r2, '\xee'));
    char *p = r2 ? b.p : NULL;
    Args a2(3);
    int k = put(f, a2).call([&](va_list ap) { return mg_avprintf(&p, r2, f.f.c_str(), ap); });
    if (k != (int) want.size()) failf("mg_avprintf(%s) returns %d, snprintf %zu", show(f).c_str(), k, want.size());
    bool fits = want.size() < r2;
    if (fits != (p == b.p && r2 > 0)) failf("mg_avprintf(%s) with %zu bytes %s", show(f).c_str(), r2, fits ? "allocates although it fits" : "does not allocate");
    if (memcmp(p, want.c_str(), want.size() + 1)) failf("mg_avprintf(%s) yields something else", show(f).c_str());
    if (p != b.p) vf_free(p);
  }
  size_t lim = s.below(20);
  std::string t = bytes(s, s.below(20), 2);
  if (c_strnlen(t.c_str(), lim) != std::min(lim, t.size())) failf("c_strnlen is wrong");
}

// ------------------------------------------------------------- comma lists, logs, globs
void list_case(Src &s, Case &c) {
  std::vector<std::string> ent;
  std::string t;
  int n = s.below(6);
  for (int i = 0; i < n; i++) {
    std::string e = bytes(s, s.below(5), 0);
    if (s.chance(1, 2)) e += "=" + bytes(s, s.below(4), 0);
    if (s.chance(1, 8)) e += "=x";
    ent.push_back(e);
    t += (i ? "," : "") + e;
  }
  if (t.empty()) ent.clear();
  else if (ent.back().empty()) ent.pop_back();  // nothing follows the last comma
  c.show("list " + quote(t));
  c.label("list");
  if (ent.size() > 1) c.nontrivial = true;
  bool eq = s.chance(2, 3);
  Slice T(t);
  struct mg_str l = T.m, k, v;
  size_t i = 0;
  for (;; i++) {
    k.p = v.p = NULL, k.len = v.len = 99;
    if (t.empty()) break;
    l = mg_next_comma_list_entry_n(l, &k, eq ? &v : NULL);
    if (l.p == NULL) break;
    if (i >= ent.size()) failf("there are more entries than %zu", ent.size());
    size_t q = ent[i].find('=');
    std::string wk = eq && q != std::string::npos ? ent[i].substr(0, q) : ent[i];
    std::string wv = eq && q != std::string::npos ? ent[i].substr(q + 1) : "";
    if (std::string(k.p, k.len) != wk) failf("entry %zu is %s, expected %s", i, quote(std::string(k.p, k.len)).c_str(), quote(wk).c_str());
    if (eq && std::string(v.p ? v.p : "", v.len) != wv) failf("value %zu is %s, expected %s", i, quote(std::string(v.p ? v.p : "", v.len)).c_str(), quote(wv).c_str());
  }
  if (i != ent.size()) failf("there are %zu entries, expected %zu", i, ent.size());
  const char *z = t.c_str();
  for (i = 0; z && (z = mg_next_comma_list_entry(z, &k, &v)) != NULL; i++) {
    if (i >= ent.size()) failf("mg_next_comma_list_entry yields more than %zu entries", ent.size());
    std::string wk = ent[i].substr(0, ent[i].find('='));
    if (std::string(k.p, k.len) != wk) failf("mg_next_comma_list_entry yields %s, expected %s", quote(std::string(k.p, k.len)).c_str(), quote(wk).c_str());
  }
  if (i != ent.size()) failf("mg_next_comma_list_entry yields %zu entries, expected %zu", i, ent.size());
}

// a glob matches the whole of str
bool glob(const std::string &p, size_t i, const std::string &t, size_t j) {
  for (; i < p.size(); i++) {
    if (p[i] == '*') {
      bool two = i + 1 < p.size() && p[i + 1] == '*';
      size_t k = i + (two ? 2 : 1);
      for (size_t e = j;; e++) {
        if (glob(p, k, t, e)) return true;
        if (e >= t.size() || (!two && t[e] == '/')) return false;
      }
    }
    if (j >= t.size()) return false;
    if (p[i] == '?' ? t[j] == '/' : low(p[i]) != low(t[j])) return false;
    j++;
  }
  return j == t.size();
}
void glob_case(Src &s, Case &c) {
  static const char AB[] = "abA/cb";
  std::string t, p;
  for (int i = s.below(10); i > 0; i--) t += AB[s.below(6)];
  std::vector<std::string> alt;
  int n = 1 + s.below(3);
  size_t stars = 0;
  for (int i = 0; i < n; i++) {
    std::string a;
    if (s.chance(1, 2)) {
      for (size_t j = 0; j < t.size(); j++) switch (s.weighted({6, 1, 1})) {
          case 0: a += t[j]; break;
          case 1: a += '?'; break;
          default:
            a += s.chance(1, 2) ? "*" : "**";
            j += s.below(4);
            break;
        }
      a = a.substr(0, s.below(a.size() + 1) + 1);
    } else
      for (int j = s.below(6); j > 0; j--) a += "abA/?*cb"[s.below(8)];
    if (s.chance(1, 5)) a += '$';
    for (char ch : a) stars += ch == '*';
    alt.push_back(a);
    p += (i ? s.chance(1, 2) ? "|" : "," : "") + a;
  }
  c.show("glob " + quote(p) + " of " + quote(t));
  c.label("glob");
  Slice P(p), T(t);
  size_t r = mg_match_prefix_n(P.m, T.m);
  size_t r2 = mg_match_prefix(P.m.p, (int) p.size(), t.c_str());
  if (r != r2) failf("mg_match_prefix yields %zu, mg_match_prefix_n %zu", r2, r);
  if (r > t.size()) failf("mg_match_prefix yields %zu for a string of %zu bytes", r, t.size());
  bool sound = false;
  size_t plain = 0;
  for (auto &a : alt) {
    bool end = !a.empty() && a.back() == '$';
    std::string b = end ? a.substr(0, a.size() - 1) : a;
    // "*$" (undocumented) does not look for the end
    bool atend = end && (b.empty() || b.back() != '*');
    if (r > 0 && (!atend || r == t.size()) && glob(b, 0, t.substr(0, r), 0)) sound = true;
    if (b.find('*') == std::string::npos && !plain && b.size() <= t.size() && !b.empty() && (!end || b.size() == t.size()) && glob(b, 0, t.substr(0, b.size()), 0)) plain = b.size();
  }
  if (r > 0) c.nontrivial = true;
  if (r > 0 && !sound) failf("mg_match_prefix(%s, %s) yields %zu, which does not match", quote(p).c_str(), quote(t).c_str(), r);
  if (r == 0 && plain) failf("mg_match_prefix(%s, %s) does not match, expected %zu", quote(p).c_str(), quote(t).c_str(), plain);
  if (stars == 0 && r && n == 1 && r != plain) failf("mg_match_prefix(%s, %s) yields %zu, expected %zu", quote(p).c_str(), quote(t).c_str(), r, plain);
}

void log_case(Src &s, Case &c) {
  std::string dir, base, filt;
  for (int i = s.below(3); i > 0; i--) dir += s.chance(1, 2) ? "src/" : "a\\";
  for (int i = s.chance(1, 3) ? 10 + s.below(20) : 1 + s.below(6); i > 0; i--) base += "abc_."[s.below(5)];
  int ln = s.chance(1, 2) ? (int) (1 + s.below(12000)) : (int) (1 + s.below(99999));
  int level = (int) s.below(5), lim = (int) s.range(-1, 4);
  struct Ent {
    std::string k;
    int l;
  };
  std::vector<Ent> ent;
  bool filter = s.chance(1, 2);
  if (filter)
    for (int i = 1 + s.below(3); i > 0; i--) {
      Ent e;
      e.k = s.chance(1, 2) ? base.substr(0, s.below(base.size()) + 1) : bytes(s, 1 + s.below(3), 0);
      if (s.chance(1, 4)) e.k = base + strf(":%d", ln);
      e.l = s.chance(1, 5) ? -1 : (int) s.below(5);
      ent.push_back(e);
      filt += (filt.empty() ? "" : ",") + e.k + (e.l >= 0 ? strf("=%d", e.l) : "");
    }
  c.show(strf("log %s%s line %d, level %d of %d, levels by file \"%s\"", dir.c_str(), base.c_str(), ln, level, lim, filt.c_str()));
  c.label("log");
  if (base.size() > 3) c.nontrivial = true;
  std::string nr = strf(":%d", ln), name = base;
  size_t room = CS_LOG_PREFIX_LEN - nr.size() - 1;
  if (name.size() > room) name.resize(room);
  std::string pre = name + nr;
  bool shown = level <= lim;
  if (filter)
    for (auto &e : ent)
      if (e.l >= 0 && pre.compare(0, e.k.size(), e.k) == 0) {
        shown = level <= e.l;
        break;
      }
  std::string want;
  if (shown) want = pre + std::string(CS_LOG_PREFIX_LEN - pre.size(), ' ') + strf("hello %d\n", ln);
  char *buf = NULL;
  size_t bl = 0;
  FILE *fp = open_memstream(&buf, &bl);
  cs_log_set_file(fp);
  cs_log_set_level((enum cs_log_level) lim);
  cs_log_set_file_level(filter ? filt.c_str() : NULL);
  int r = cs_log_print_prefix((enum cs_log_level) level, (dir + base).c_str(), ln);
  if (r) cs_log_printf("hello %d", ln);
  cs_log_set_file_level(NULL);
  cs_log_set_level(LL_ERROR);
  cs_log_set_file(stderr);
  fclose(fp);
  std::string got(buf, bl);
  free(buf);
  if ((r != 0) != shown) failf("the line is %s", shown ? "not logged" : "logged");
  if (got != want) failf("the log has %s, expected %s", quote(got).c_str(), quote(want).c_str());
}

// --------------------------------------------------------------------------------- files
void file_case(Src &s, Case &c) {
  std::string d = s.chance(1, 8) ? "" : fill(s, s.chance(1, 3) ? 4096 * (1 + s.below(3)) + s.below(3) - 1 : sz(s));
  std::string f = lang::scratch_path("util");
  c.show(strf("a file of %zu bytes", d.size()));
  c.label("file");
  if (d.size() > 10) c.nontrivial = true;
  FILE *fp = fopen(f.c_str(), "wb");
  fwrite(d.data(), 1, d.size(), fp);
  fclose(fp);
  size_t n = 99;
  int fd0 = dup(0);
  close(fd0);
  char *p = cs_read_file(f.c_str(), &n);
  if (!p || n != d.size() || memcmp(p, d.c_str(), n + 1)) failf("cs_read_file yields something else than the file");
  vf_free(p);
  if (!d.empty()) {
    n = 99;
    p = cs_mmap_file(f.c_str(), &n);
    if (!p || n != d.size() || memcmp(p, d.data(), n)) failf("cs_mmap_file yields something else than the file");
    munmap(p, n);
  }
  unlink(f.c_str());
  n = 7;
  if (cs_read_file(f.c_str(), &n)) failf("cs_read_file of a file that is not there yields something");
  if (cs_mmap_file(f.c_str(), &n)) failf("cs_mmap_file of a file that is not there yields something");
  int fd1 = dup(0);
  close(fd1);
  if (fd1 != fd0) failf("a file is left open");
}
// ---- broken-down time to seconds
void time_case(Src &s, Case &c) {
  struct tm t;
  memset(&t, 0, sizeof(t));
  std::string how;
  switch (s.below(3)) {
    case 0: {  // a moment taken apart by libc
      time_t x = (time_t) (s.chance(1, 4) ? s.bits(31) : s.bits(38) % 253402300800ULL);
      if (s.chance(1, 3)) x = x / 86400 * 86400 - (time_t) s.below(2);
      if (x < 0) x = 0;
      gmtime_r(&x, &t);
      how = "gmtime";
      break;
    }
    case 1:  // the days around the end of February
      t.tm_year = (int) s.range(70, 1000);
      if (s.chance(1, 3)) t.tm_year = (int) s.range(0, 9) * 100 + 100;
      t.tm_mon = (int) s.range(1, 2);
      t.tm_mday = (int) s.range(1, 31);
      t.tm_hour = (int) s.range(0, 23);
      how = "February";
      break;
    default:  // fields out of their ranges
      t.tm_year = (int) s.range(75, 400);
      t.tm_mon = (int) s.range(-30, 40);
      t.tm_mday = (int) s.range(-400, 800);
      t.tm_hour = (int) s.range(-1000, 1000);
      t.tm_min = (int) s.range(-100000, 100000);
      t.tm_sec = (int) s.range(-100000, 100000);
      how = "denormal";
  }
  t.tm_isdst = 0;
  c.show(strf("cs_timegm of %d-%d-%d %d:%d:%d", t.tm_year + 1900, t.tm_mon + 1, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec));
  struct tm u = t;
  time_t want = timegm(&u);
  double got = cs_timegm(&t), exp = want < 0 ? -1 : (double) want;
  c.label("time: " + how);
  c.nontrivial = true;
  if (got != exp) failf("cs_timegm yields %.0f, expected %.0f", got, exp);
}
}  // namespace

void prop_case(Src &s, Case &c) {
  long live = vf_live();
  switch (s.weighted({5, 3, 5, 5, 2, 2, 2, 1, 1})) {
    case 0: mbuf_case(s, c); break;
    case 1: varint_case(s, c); break;
    case 2: mgstr_case(s, c); break;
    case 3: fmt_case(s, c); break;
    case 4: list_case(s, c); break;
    case 5: glob_case(s, c); break;
    case 6: log_case(s, c); break;
    case 7: file_case(s, c); break;
    default: time_case(s, c); break;
  }
  if (vf_live() != live) failf("%ld blocks of memory are leaked", vf_live() - live);
}
