// P21: the JSON library that mJS ships (frozen): walking, printing, scanning, editing JSON text.
#include <stdarg.h>
#include <sys/stat.h>
#include <unistd.h>
#include <memory>
#include "frozen.h"
#include "jsonm.h"
#include "vargs.h"
const char *PROP_ID = "P21";

namespace {
// ------------------------------------------------------------------------ walking
struct Ev {
  int type;
  bool named;
  std::string name, path, val;
  bool has_val;
  bool operator==(const Ev &o) const { return type == o.type && named == o.named && name == o.name && path == o.path && has_val == o.has_val && val == o.val; }
  std::string str() const {
    return strf("type %d name %s path %s value %s", type, named ? quote(name).c_str() : "NULL", quote(path).c_str(), has_val ? quote(val).c_str() : "NULL");
  }
};
struct Rec {
  std::vector<Ev> ev;
  const char *lo = nullptr, *hi = nullptr;
  std::string bad;
};
void walk_cb(void *ud, const char *name, size_t nl, const char *path, const struct json_token *t) {
  Rec *r = (Rec *) ud;
  Ev e;
  e.type = t->type;
  e.named = name != nullptr;
  if (name) e.name.assign(name, nl);
  e.path = path;
  e.has_val = t->ptr != nullptr;
  if (t->ptr) {
    if (r->lo && (t->ptr < r->lo || t->len < 0 || t->ptr + t->len > r->hi))
      r->bad = "a token lies outside of the text";
    else
      e.val.assign(t->ptr, t->len);
  }
  r->ev.push_back(e);
}

struct WGen {  // text with its events
  Src &s;
  std::string o, path;
  std::vector<Ev> ev;
  int maxd = 0;
  bool exotic;
  WGen(Src &s, bool exotic) : s(s), exotic(exotic) {}
  void ws() {
    if (s.chance(1, 5))
      for (int n = (int) s.range(1, 3); n > 0; n--) o += " \t\r\n"[s.below(4)];
  }
  size_t push(const std::string &x) {
    size_t n = path.size(), left = 255 - n;
    path += x.substr(0, left);
    return n;
  }
  void emit(int type, const std::string *name, const std::string *val) { ev.push_back({type, name != nullptr, name ? *name : "", path, val ? *val : "", val != nullptr}); }
  std::string raw_string() {
    std::string q;
    jprint_str(s, gen_utf8(s, exotic ? 300 : 40), q);
    q = q.substr(1, q.size() - 2);
    if (s.chance(1, 6)) q += strf("\\u%04x", (int) s.below(65536));
    if (s.chance(1, 8)) q += "\\/";
    return q;
  }
  void value(int depth, const std::string *name) {
    ws();
    switch (s.weighted({1, 1, 1, 4, 4, depth > 0 ? 5 : 0, depth > 0 ? 5 : 0})) {
      case 0: {
        std::string v = "null";
        o += v;
        emit(JSON_TYPE_NULL, name, &v);
        break;
      }
      case 1: {
        std::string v = "true";
        o += v;
        emit(JSON_TYPE_TRUE, name, &v);
        break;
      }
      case 2: {
        std::string v = "false";
        o += v;
        emit(JSON_TYPE_FALSE, name, &v);
        break;
      }
      case 3: {
        std::string v = s.chance(1, 3) ? "-" : "";
        if (s.chance(1, 6)) {
          v += "0x";
          for (int n = (int) s.range(1, 4); n > 0; n--) v += "0123456789abcdefABCDEF"[s.below(22)];
        } else {
          auto dig = [&] {
            for (int n = (int) s.range(1, 4); n > 0; n--) v += (char) ('0' + s.below(10));
          };
          if (s.chance(1, 5))
            v += "0";
          else {
            v += (char) ('1' + s.below(9));
            if (s.chance(1, 2)) dig();
          }
          if (s.chance(1, 3)) v += ".", dig();
          if (s.chance(1, 4)) v += s.pick(std::vector<std::string>{"e", "E", "e+", "E-"}), dig();
        }
        o += v;
        emit(JSON_TYPE_NUMBER, name, &v);
        break;
      }
      case 4: {
        std::string v = raw_string();
        o += '"' + v + '"';
        emit(JSON_TYPE_STRING, name, &v);
        break;
      }
      case 5: {
        emit(JSON_TYPE_ARRAY_START, name, nullptr);
        size_t at = o.size();
        o += '[';
        int n = (int) (s.chance(1, 15) ? s.range(9, 120) : s.range(0, 4));
        if (n > 20) depth = s.chance(1, 8) ? 2 : 0;
        if (depth == 2 && n > 20) n *= 6;
        for (int i = 0; i < n; i++) {
          if (i) o += ',';
          size_t l = push(strf("[%d]", i));
          std::string nm = strf("%d", i);
          value(depth - 1, &nm);
          path.resize(l);
          ws();
        }
        ws();
        o += ']';
        std::string v = o.substr(at);
        emit(JSON_TYPE_ARRAY_END, nullptr, &v);
        break;
      }
      default: {
        emit(JSON_TYPE_OBJECT_START, name, nullptr);
        size_t at = o.size();
        o += '{';
        size_t lo = push(".");
        int n = (int) (s.chance(1, 15) ? s.range(5, 30) : s.range(0, 4));
        for (int i = 0; i < n; i++) {
          if (i) o += ',';
          ws();
          std::string k;
          if (s.chance(1, 2)) {
            k = std::string(1, "abcxyzABCXYZ"[s.below(12)]);
            for (int m = (int) s.below(6); m > 0; m--) k += "abz_09AZ"[s.below(8)];
            if (exotic && s.chance(1, 20)) k += std::string(s.range(50, 300), 'k');
            o += k;
          } else {
            k = raw_string();
            o += '"' + k + '"';
          }
          size_t l = push(k);
          ws();
          o += ':';
          value(depth - 1, &k);
          path.resize(l);
          ws();
        }
        ws();
        o += '}';
        path.resize(lo);
        std::string v = o.substr(at);
        emit(JSON_TYPE_OBJECT_END, nullptr, &v);
        break;
      }
    }
  }
};

void compare(const std::vector<Ev> &got, const std::vector<Ev> &want, const char *what) {
  for (size_t i = 0; i < got.size() || i < want.size(); i++) {
    if (i >= got.size()) failf("%s: event %zu is missing: %s", what, i, want[i].str().c_str());
    if (i >= want.size()) failf("%s: event %zu is too much: %s", what, i, got[i].str().c_str());
    if (!(got[i] == want[i])) failf("%s: event %zu is %s, expected %s", what, i, got[i].str().c_str(), want[i].str().c_str());
  }
}
int walk(const std::string &t, Rec &r, bool cb = true) {
  Exact e(t);
  r.lo = e.p;
  r.hi = e.p + e.n;
  int n = json_walk(e.p, (int) e.n, cb ? walk_cb : nullptr, &r);
  if (!r.bad.empty()) failf("json_walk: %s", r.bad.c_str());
  return n;
}

void walk_case(Src &s, Case &c) {
  WGen g(s, true);
  g.value((int) s.range(0, 5), nullptr);
  std::string text = g.o;
  size_t end = text.size();
  c.show(text);
  c.nontrivial = g.ev.size() >= 3;
  c.label("walk");
  Rec r;
  int n = walk(text, r);
  if (n != (int) end) failf("json_walk returns %d for a text of %zu bytes", n, end);
  compare(r.ev, g.ev, "json_walk");
  Rec none;
  if (walk(text, none, false) != n) failf("json_walk without a callback returns something else");
  if (g.ev.back().type != JSON_TYPE_NUMBER) {
    // what follows the value is not looked at
    Rec r2;
    std::string more = text + s.pick(std::vector<std::string>{" ", "x", "}", ",1", "\"", "\\", "\xff"});
    if (walk(more, r2) != n) failf("json_walk of a value with something after it returns something else");
    compare(r2.ev, g.ev, "json_walk of a value with something after it");
    // a text that ends early is incomplete
    for (int i = 0; i < 6; i++) {
      size_t cut = s.chance(1, 2) ? s.below(end) : end - 1 - s.below(end < 8 ? end : 8);
      Rec r3;
      int k = walk(text.substr(0, cut), r3);
      if (k != JSON_STRING_INCOMPLETE) {
        c.show(text + strf("\ncut to %zu bytes", cut));
        failf("json_walk returns %d for a text that is cut short after %zu bytes, expected JSON_STRING_INCOMPLETE", k, cut);
      }
      if (r3.ev.size() > g.ev.size()) failf("json_walk of a text that is cut short yields more events");
      std::vector<Ev> w(g.ev.begin(), g.ev.begin() + r3.ev.size());
      if (!w.empty() && w.back().type == JSON_TYPE_NUMBER) {  // possibly cut itself
        std::string &v = r3.ev.back().val;
        if (w.back().val.compare(0, v.size(), v) == 0) v = w.back().val;
      }
      compare(r3.ev, w, "json_walk of a text that is cut short");
    }
  }
  // damaged texts: whatever comes out stays inside the text, is nested, and is what the text says
  for (int i = 0; i < 4; i++) {
    std::string t = text;
    for (int k = (int) s.range(1, 3); k > 0; k--) {
      size_t at = s.below(t.size() + 1);
      switch (s.below(4)) {
        case 0:
          if (at < t.size()) t[at] = (char) s.below(256);
          break;
        case 1: t.insert(at, 1, "{}[]\",:\\0-.eu tnf\xc3\xf0\x01"[s.below(21)]); break;
        case 2:
          if (at < t.size()) t.erase(at, s.range(1, 4));
          break;
        default: t.insert(at, t.substr(s.below(t.size() + 1), s.range(1, 10)));
      }
    }
    Rec d;
    int k = walk(t, d);
    if (k == 0 || k < -2 || k > (int) t.size()) failf("json_walk returns %d for a text of %zu bytes", k, t.size());
    int depth = 0;
    for (auto &e : d.ev) {
      if (e.type == JSON_TYPE_OBJECT_START || e.type == JSON_TYPE_ARRAY_START) depth++;
      if (e.type == JSON_TYPE_OBJECT_END || e.type == JSON_TYPE_ARRAY_END)
        if (--depth < 0) failf("json_walk ends more containers than it starts");
    }
    JV v;
    JParse p(t, true);
    bool ok = p.value(v);
    if (!valid_utf8(t)) continue;  // how bytes that are not UTF-8 are skipped is not judged
    if (ok != (k > 0) || (ok && k != (int) p.i)) {
      c.show(t);
      failf("json_walk returns %d, expected %s %zu", k, ok ? "" : "an error at about", p.i);
    }
    if (k > 0 && depth != 0) failf("json_walk leaves a container open");
  }
}

// ----------------------------------------------------------------------- printing
std::string m_escape(const std::string &b) {
  std::string o;
  for (unsigned char ch : b) {
    switch (ch) {
      case '"': o += "\\\""; break;
      case '\\': o += "\\\\"; break;
      case '\b': o += "\\b"; break;
      case '\f': o += "\\f"; break;
      case '\n': o += "\\n"; break;
      case '\r': o += "\\r"; break;
      case '\t': o += "\\t"; break;
      default: o += ch < 32 || ch == 127 ? strf("\\u%04x", ch) : std::string(1, (char) ch);
    }
  }
  return o;
}
std::string m_hex(const std::string &b) {
  std::string o;
  for (unsigned char ch : b) o += strf("%02x", ch);
  return o;
}
std::string m_b64(const std::string &b) {
  static const char *t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string o;
  size_t i = 0;
  uint32_t acc = 0;
  int nb = 0;
  for (; i < b.size(); i++) {
    acc = acc << 8 | (unsigned char) b[i];
    nb += 8;
    while (nb >= 6) o += t[acc >> (nb -= 6) & 63];
  }
  if (nb) o += t[acc << (6 - nb) & 63];
  while (o.size() % 4) o += '=';
  return o;
}
std::string bytes(Src &s, int max) {
  std::string b;
  for (int n = (int) s.range(0, max); n > 0; n--) b += s.chance(1, 3) ? (char) s.below(256) : "a\"\\\n7 "[s.below(6)];
  return b;
}
int custom_printer(struct json_out *out, va_list *ap) {
  int a = va_arg(*ap, int);
  double d = va_arg(*ap, double);
  const char *q = va_arg(*ap, const char *);
  return json_printf(out, "{a: %d, d: %g, q: %Q}", a, d, q);
}

struct PGen {
  Src &s;
  Args &a;
  std::string fmt, want, show;
  std::vector<std::unique_ptr<std::string>> keep;
  PGen(Src &s, Args &a) : s(s), a(a) {}
  const char *hold(const std::string &x) {
    keep.emplace_back(new std::string(x));
    return keep.back()->c_str();
  }
  std::string text(int max) {
    std::string t = gen_utf8(s, max);
    for (auto &ch : t)
      if (!ch) ch = 'n';
    return t;
  }
  double dbl() {
    double d = s.range(-100000, 100000) / 64.0;
    if (s.chance(1, 6)) d *= 1e30;
    return d;
  }
  void conv() {
    switch (s.below(20)) {
      case 0: {
        int v = (int) s.bits(32);
        fmt += "%d", want += strf("%d", v), a.i((uint32_t) v | (s.chance(1, 2) ? 0 : 0xabcdef0000000000ULL));
        break;
      }
      case 1: {
        unsigned v = (unsigned) s.bits(32);
        bool x = s.chance(1, 2);
        fmt += x ? "%x" : "%u", want += strf(x ? "%x" : "%u", v), a.i(v);
        break;
      }
      case 2: {
        long long v = (long long) s.bits(64);
        const char *f = s.pick(std::vector<const char *>{"%lld", "%ld", "%llu", "%lu"});
        fmt += f, want += strf(f, v), a.i((uint64_t) v);
        break;
      }
      case 3: {
        size_t v = s.bits(64);
        fmt += "%zu", want += strf("%zu", v), a.i(v);
        break;
      }
      case 4:
      case 5: {
        double v = dbl();
        const char *f = s.pick(std::vector<const char *>{"%f", "%g", "%.2f", "%.17g", "%10.3f", "%e", "%.3e", "%E", "%G", "%lf"});
        fmt += f, want += strf(f, v), a.d(v);
        break;
      }
      case 6: {
        int v = (int) s.bits(32) >> s.below(31);
        const char *f = s.pick(std::vector<const char *>{"%5d", "%-7d", "%012d", "%hd", "%hhd", "%c"});
        if (!strcmp(f, "%c")) v = 'a' + (v & 15);
        fmt += f, want += strf(f, v), a.i((uint32_t) v);
        break;
      }
      case 7: {
        std::string t = text(60);
        const char *f = s.pick(std::vector<const char *>{"%s", "%s", "%12s", "%-9s"});
        fmt += f, a.p(hold(t)), want += strf(f, t.c_str());
        break;
      }
      case 8: {
        std::string t = text(60);
        int n = (int) s.below(t.size() + 1);
        fmt += "%.*s", a.i((uint32_t) n).p(hold(t)), want += t.substr(0, n);
        break;
      }
      case 9: {
        int v = s.chance(1, 2) ? (int) s.range(-1, 300) : 0;
        fmt += "%B", a.i((uint32_t) v), want += v ? "true" : "false";
        break;
      }
      case 10:
      case 11: {
        if (s.chance(1, 6)) {
          fmt += "%Q", a.p(nullptr), want += "null";
          break;
        }
        std::string t = text(200);
        fmt += "%Q", a.p(hold(t)), want += '"' + m_escape(t) + '"';
        break;
      }
      case 12: {
        if (s.chance(1, 8)) {
          fmt += "%.*Q", a.i(5).p(nullptr), want += "null";
          break;
        }
        std::string t = gen_utf8(s, 100);
        fmt += "%.*Q", a.i((uint32_t) t.size()).p(hold(t)), want += '"' + m_escape(t) + '"';
        break;
      }
      case 13: {
        std::string b = bytes(s, 40);
        fmt += "%H", a.i((uint32_t) b.size()).p(hold(b)), want += '"' + m_hex(b) + '"';
        break;
      }
      case 14: {
        std::string b = bytes(s, 40);
        fmt += "%V", a.p(hold(b)).i((uint32_t) b.size()), want += '"' + m_b64(b) + '"';
        break;
      }
      case 15: {
        int i = (int) s.range(-9, 9);
        double d = s.range(-100, 100) / 8.0;
        std::string q = text(20);
        fmt += "%M", a.p((void *) custom_printer).i((uint32_t) i).d(d).p(hold(q));
        want += strf("{\"a\": %d, \"d\": %g, \"q\": \"%s\"}", i, d, m_escape(q).c_str());
        break;
      }
      case 16:
      case 17: array(); break;
      default: {
        static const char *lit[] = {"null", "true", "a_b1", "Key", "12", "-3", "[]", "{}", "\"x y\"", "%%"};
        static const char *out[] = {"\"null\"", "\"true\"", "\"a_b1\"", "\"Key\"", "12", "-3", "[]", "{}", "\"\"x\" \"y\"\"", nullptr};
        int k = (int) s.below(9);
        fmt += lit[k], want += out[k];
      }
    }
  }
  void array() {
    int n = (int) s.below(6);
    std::string mem, el;
    const char *f;
    size_t sz;
    want += "[";
    auto add = [&](const void *p, const std::string &t) {
      mem.append((const char *) p, sz);
      if (!el.empty()) el += ", ";
      el += t;
    };
    switch (s.below(7)) {
      case 0:
        f = "%d", sz = 4;
        for (int i = 0; i < n; i++) {
          int v = (int) s.bits(32);
          add(&v, strf(f, v));
        }
        break;
      case 1:
        f = "%hd", sz = 2;
        for (int i = 0; i < n; i++) {
          short v = (short) s.bits(16);
          add(&v, strf(f, v));
        }
        break;
      case 2:
        f = "%lld", sz = 8;
        for (int i = 0; i < n; i++) {
          long long v = (long long) s.bits(64);
          add(&v, strf(f, v));
        }
        break;
      case 3:
        f = s.pick(std::vector<const char *>{"%f", "%g", "%.2lf"}), sz = 8;
        for (int i = 0; i < n; i++) {
          double v = dbl();
          add(&v, strf(f, v));
        }
        break;
      case 4:
        f = "%Q", sz = 8;
        for (int i = 0; i < n; i++) {
          std::string t = text(20);
          const char *p = s.chance(1, 6) ? nullptr : hold(t);
          add(&p, p ? '"' + m_escape(t) + '"' : "null");
        }
        break;
      case 5:
        f = "%hhu", sz = 1;
        for (int i = 0; i < n; i++) {
          unsigned char v = (unsigned char) s.below(256);
          add(&v, strf("%u", v));
        }
        break;
      default:
        f = "%u", sz = 4;
        for (int i = 0; i < n; i++) {
          unsigned v = (unsigned) s.bits(32);
          add(&v, strf(f, v));
        }
    }
    want += el + "]";
    keep.emplace_back(new std::string(mem));
    fmt += "%M";
    a.p((void *) json_printf_array).p(n == 0 && s.chance(1, 2) ? nullptr : keep.back()->data()).i(mem.size()).i(sz).p(hold(f));
  }
  void gen() {
    int n = (int) s.range(1, 8);
    for (int i = 0; i < n; i++) {
      std::string sep = s.pick(std::vector<std::string>{", ", ",", ": ", " ", "{", "}", "[", "]", "\n", "\t:"});
      fmt += sep, want += sep;
      if (s.chance(1, 2)) {
        std::string k = s.pick(std::vector<std::string>{"a", "foo", "k1", "_x", "B_9"});
        fmt += k + ":", want += '"' + k + "\":";
      }
      conv();
    }
    fmt += "}", want += "}";
  }
};

std::string scratch(const char *name) {
  const char *sd = getenv("VERIF_SCRATCH");
  std::string dir = strf("%s/p21_%d", sd ? sd : "/tmp", (int) getpid());
  mkdir(dir.c_str(), 0700);
  return dir + "/" + name;
}
std::string slurp(const std::string &p) {
  std::string t;
  FILE *f = fopen(p.c_str(), "rb");
  if (!f) return "<no file>";
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof(b), f)) > 0) t.append(b, n);
  fclose(f);
  return t;
}
void spit(const std::string &p, const std::string &t) {
  FILE *f = fopen(p.c_str(), "wb");
  if (!f) failf("cannot write %s", p.c_str());
  fwrite(t.data(), 1, t.size(), f);
  fclose(f);
}

// a printer of the user
struct SOut {
  struct json_out out;
  std::string t;
  SOut() {
    memset(&out, 0, sizeof(out));
    out.printer = pr;
    out.u.data = this;
  }
  static int pr(struct json_out *o, const char *p, size_t n) {
    ((SOut *) o->u.data)->t.append(p, n);
    return (int) n;
  }
};

void print_case(Src &s, Case &c) {
  // json_printf(out, fmt, ...), json_asprintf(fmt, ...), json_fprintf(name, fmt, ...)
  int how = (int) s.below(4);
  Args a(how == 1 ? 1 : 2);
  PGen g(s, a);
  g.gen();
  c.show(g.fmt + "\n -> " + g.want);
  c.nontrivial = g.want.size() > 10;
  c.label("printf");
  if (g.want.find('\0') != std::string::npos) failf("the generator is wrong");
  const char *fmt = g.fmt.c_str();
  int len = -1;
  std::string got;
  switch (how) {
    case 0: {
      SOut o;
      len = a.call([&](va_list ap) { return json_vprintf(&o.out, fmt, ap); });
      got = o.t;
      break;
    }
    case 1: {
      char *p = a.call([&](va_list ap) { return json_vasprintf(fmt, ap); });
      if (!p) failf("json_asprintf yields NULL");
      got = p;
      vf_free(p);
      len = (int) got.size();
      break;
    }
    case 2: {
      std::string f = scratch("out");
      len = a.call([&](va_list ap) { return json_vfprintf(f.c_str(), fmt, ap); });
      got = slurp(f);
      if (got.empty() || got.back() != '\n') failf("json_fprintf does not end the file with a new line");
      got.pop_back();
      break;
    }
    default: {
      size_t size = s.chance(1, 3) ? g.want.size() + s.below(3) : s.below(g.want.size() + 10);
      char *b = (char *) malloc(size ? size : 1);
      memset(b, 'Z', size);
      struct json_out o = JSON_OUT_BUF(b, size);
      len = a.call([&](va_list ap) { return json_vprintf(&o, fmt, ap); });
      std::string x(b, size);
      free(b);
      if (size > 0) {
        size_t k = g.want.size() < size - 1 ? g.want.size() : size - 1;
        if (x[k] != 0) failf("a buffer of %zu bytes is not terminated after %zu", size, k);
        if (x.substr(0, k) != g.want.substr(0, k)) failf("a buffer of %zu bytes holds %s", size, quote(x).c_str());
        for (size_t i = k + 1; i < size; i++)
          if (x[i] != 'Z') failf("a buffer of %zu bytes is written to after the terminator", size);
      }
      got = g.want;
    }
  }
  if (got != g.want) failf("printed %s", quote(got).c_str());
  if (len != (int) g.want.size()) failf("%d is returned for %zu bytes", len, g.want.size());
}

void escape_case(Src &s, Case &c) {
  std::string b = gen_utf8(s);
  c.show(quote(b));
  c.label("escape");
  c.nontrivial = b.size() > 1;
  Exact e(b);
  SOut o;
  int n = json_escape(&o.out, e.p, e.n);
  if (o.t != m_escape(b)) failf("json_escape yields %s, expected %s", quote(o.t).c_str(), quote(m_escape(b)).c_str());
  if (n != (int) o.t.size()) failf("json_escape returns %d for %zu bytes", n, o.t.size());
  // any JSON text of the string yields it again
  std::string q = o.t;
  if (s.chance(1, 2)) {
    q.clear();
    jprint_str(s, b, q);
    q = q.substr(1, q.size() - 2);
  }
  Exact x(q);
  int need = json_unescape(x.p, (int) x.n, nullptr, 0);
  if (need != (int) b.size()) failf("json_unescape of %s counts %d bytes, expected %zu", quote(q).c_str(), need, b.size());
  size_t room = s.below(b.size() + 4);
  char *d = (char *) malloc(room ? room : 1);
  int k = json_unescape(x.p, (int) x.n, d, (int) room);
  std::string got(d, room < b.size() ? room : b.size());
  free(d);
  if (k != need) failf("json_unescape into %zu bytes returns %d, expected %d", room, k, need);
  if (room >= b.size() && got != b) failf("json_unescape of %s yields %s", quote(q).c_str(), quote(got).c_str());
  k = json_unescape(x.p, (int) x.n, x.p, (int) x.n);
  if (k != need || memcmp(x.p, b.data(), b.size())) failf("json_unescape in place of %s yields %s", quote(q).c_str(), quote(std::string(x.p, x.n)).c_str());
  // errors
  std::string bad = q;
  size_t at = s.below(bad.size() + 1);
  static const std::vector<std::string> ins = {std::string("\\\0", 2), "\\x41", "\\v", "\\'", "\\u0100", "\\uffff", "\\", "\\u", "\\u0", "\\u00", "\\u001", "\\ "};
  int w = (int) s.below(ins.size());
  if (w >= 6 && w <= 10) at = bad.size();
  // inside of an escape the meaning changes
  size_t i = 0;
  while (i < at && i < bad.size()) i += bad[i] != '\\' ? 1 : bad[i + 1] == 'u' ? 6 : 2;
  at = i;
  bad.insert(at, ins[w]);
  Exact y(bad);
  int want = w >= 6 && w <= 10 ? JSON_STRING_INCOMPLETE : JSON_STRING_INVALID;
  k = json_unescape(y.p, (int) y.n, nullptr, 0);
  if (k != want) {
    c.show(quote(bad));
    failf("json_unescape of %s returns %d, expected %d", quote(bad).c_str(), k, want);
  }
}

// ----------------------------------------------------------------------- scanning
struct Leaf {
  char kind;            // B d u l L f Q H V T M
  std::string path;
  bool present;
  std::string want;     // what is to be found
  std::string fmt;
  // targets
  bool b = false;
  int i = -77;
  unsigned u = 77;
  long l = -78;
  long long ll = -79;
  double d = -80;
  float f = -81;
  char *q = nullptr;
  int n = -82;
  struct json_token t = {nullptr, -83, JSON_TYPE_INVALID};
  std::string m;
};
void scanner(const char *p, int n, void *ud) { ((std::string *) ud)->assign(p, n); }

struct SGen {
  Src &s;
  Args &a;
  std::string fmt;
  std::vector<std::unique_ptr<Leaf>> leaves;
  int cnt = 0;
  std::vector<std::string> used;
  SGen(Src &s, Args &a) : s(s), a(a) {}
  std::string ws() { return s.chance(1, 4) ? s.pick(std::vector<std::string>{" ", "\n", "  ", "\t"}) : ""; }
  // text of an object, with a format that asks for some of it
  std::string object(const std::string &path, int depth) {
    struct F {
      std::string key, val;
      bool doc;
    };
    int n = (int) s.range(1, 5);
    std::vector<F> fs;
    std::set<std::string> keys;
    fmt += "{" + ws();
    bool first = true;
    for (int i = 0; i < n; i++) {
      std::string k = s.pick(std::vector<std::string>{"a", "ab", "abc", "b", "c1", "d_x", "Key", "longer_key"});
      if (!keys.insert(k).second) continue;
      F f{k, "", !s.chance(1, 6)};
      int w = (int) s.below(15);
      if (s.chance(1, 6)) {  // nobody asks for this one
        f.val = any();
        fs.push_back(f);
        continue;
      }
      if (!first) fmt += s.chance(1, 8) ? " " : "," + ws();
      first = false;
      fmt += k + (s.chance(1, 2) ? ":" : ": ") + ws();
      if (w >= 12 && depth > 0) {
        std::string sub = object(path + "." + k, depth - 1);
        f.val = sub;
        if (!f.doc) {  // nothing in there is present
          std::string pre = path + "." + k + ".";
          for (auto &l : leaves)
            if (l->path.compare(0, pre.size(), pre) == 0) l->present = false;
        }
      } else
        f.val = leaf(path + "." + k, f.doc, w);
      fs.push_back(f);
    }
    fmt += ws() + "}";
    for (size_t i = fs.size(); i > 1; i--) std::swap(fs[i - 1], fs[s.below(i)]);
    std::string o = "{" + ws();
    bool fd = true;
    for (auto &f : fs) {
      if (!f.doc) continue;
      if (!fd) o += "," + ws();
      fd = false;
      o += (s.chance(1, 4) ? f.key : '"' + f.key + '"') + ws() + ":" + ws() + f.val;
    }
    return o + ws() + "}";
  }
  std::string any() {
    WGen g(s, false);
    g.value(2, nullptr);
    size_t b = g.o.find_first_not_of(" \t\r\n");
    return g.o.substr(b);
  }
  std::string leaf(const std::string &path, bool doc, int w) {
    leaves.emplace_back(new Leaf);
    Leaf &l = *leaves.back();
    l.path = path;
    l.present = doc;
    std::string val;
    switch (w) {
      case 0: {
        l.kind = 'B';
        bool v = s.chance(1, 2);
        l.b = !v;
        l.want = val = v ? "true" : "false";
        fmt += "%B", a.p(&l.b);
        break;
      }
      case 1: {
        l.kind = 'd';
        int v = (int) s.bits(32) >> s.below(31);
        l.want = val = strf("%d", v);
        if (v > 0 && s.chance(1, 4)) val = strf("0x%x", v);
        fmt += s.chance(1, 4) ? "%i" : "%d", a.p(&l.i);
        break;
      }
      case 2: {
        l.kind = 'u';
        unsigned v = (unsigned) s.bits(32);
        l.want = val = strf("%u", v);
        fmt += "%u", a.p(&l.u);
        break;
      }
      case 3: {
        l.kind = 'l';
        long v = (long) s.bits(64) >> s.below(60);
        l.want = val = strf("%ld", v);
        fmt += "%ld", a.p(&l.l);
        break;
      }
      case 4: {
        l.kind = 'L';
        long long v = (long long) s.bits(64) >> s.below(60);
        l.want = val = strf("%lld", v);
        fmt += "%lld", a.p(&l.ll);
        break;
      }
      case 5: {
        l.kind = 'f';
        double v = s.range(-100000, 100000) / 64.0;
        val = strf("%.6f", v);
        l.want = strf("%.17g", v);
        fmt += "%lf", a.p(&l.d);
        break;
      }
      case 6: {
        l.kind = 'g';
        double v = s.range(-10000, 10000) / 16.0;
        val = strf("%g", v);
        l.want = strf("%.17g", (double) strtof(val.c_str(), nullptr));
        fmt += "%f", a.p(&l.f);
        break;
      }
      case 7: {
        l.kind = 'H';
        std::string b = bytes(s, 20);
        l.want = b;
        val = '"' + m_hex(b) + '"';
        if (s.chance(1, 2))
          for (auto &ch : val) ch = (char) toupper(ch);
        fmt += "%H", a.p(&l.n).p(&l.q);
        break;
      }
      case 8: {
        l.kind = 'V';
        std::string b = bytes(s, s.chance(1, 6) ? 400 : 20);
        l.want = b;
        val = '"' + m_b64(b) + '"';
        fmt += "%V", a.p(&l.q).p(&l.n);
        break;
      }
      case 9: {
        l.kind = 'T';
        l.want = val = any();
        fmt += "%T", a.p(&l.t);
        break;
      }
      case 10: {
        l.kind = 'M';
        l.want = val = any();
        fmt += "%M", a.p((void *) scanner).p(&l.m);
        break;
      }
      default: {
        l.kind = 'Q';
        std::string t = gen_utf8(s, 60);
        l.want = t;
        jprint_str(s, t, val);
        fmt += "%Q", a.p(&l.q);
      }
    }
    return val;
  }
};

void scan_case(Src &s, Case &c) {
  Args a(3);
  SGen g(s, a);
  std::string doc = g.object("", 3);
  if (g.leaves.size() > 40) {
    c.skip = true;
    return;
  }
  bool damaged = s.chance(1, 8);
  if (damaged)
    for (int k = (int) s.range(1, 3); k > 0; k--) {
      size_t at = s.below(doc.size());
      if (s.chance(1, 2))
        doc[at] = (char) s.below(256);
      else
        doc.insert(at, 1, "{}[]\",:\\0-.eu tnf"[s.below(17)]);
    }
  c.show(g.fmt + "\n of\n" + doc);
  c.label("scanf");
  Exact e(doc);
  std::string fail;
  int n = a.call([&](va_list ap) { return json_vscanf(e.p, (int) e.n, g.fmt.c_str(), ap); });
  int expect = 0;
  for (auto &lp : g.leaves) {
    Leaf &l = *lp;
    expect += l.present;
    std::string got;
    bool untouched = true;
    std::string want = l.want;
    switch (l.kind) {
      case 'B': got = l.b ? "true" : "false"; untouched = got != want; break;
      case 'd': got = strf("%d", l.i); untouched = l.i == -77; break;
      case 'u': got = strf("%u", l.u); untouched = l.u == 77; break;
      case 'l': got = strf("%ld", l.l); untouched = l.l == -78; break;
      case 'L': got = strf("%lld", l.ll); untouched = l.ll == -79; break;
      case 'f': got = strf("%.17g", l.d); untouched = l.d == -80; break;
      case 'g': got = strf("%.17g", (double) l.f); untouched = l.f == -81; break;
      case 'Q':
        untouched = l.q == nullptr;
        if (l.q) {
          got = l.q;
          if (!damaged && memcmp(l.q, want.c_str(), want.size() + 1) == 0) got = want;
        }
        vf_free(l.q);
        break;
      case 'H':
      case 'V':
        untouched = l.q == nullptr && l.n == -82;
        if (l.q) {
          got.assign(l.q, l.n);
          if (l.q[l.n]) fail = "a decoded string is not terminated";
        }
        vf_free(l.q);
        break;
      case 'T':
        untouched = l.t.ptr == nullptr && l.t.len == -83;
        if (l.t.ptr) {
          got.assign(l.t.ptr, l.t.len);
          if (l.t.type == JSON_TYPE_STRING) got = '"' + got + '"';
          int ty = want[0] == '"' ? JSON_TYPE_STRING : want[0] == '{' ? JSON_TYPE_OBJECT_END : want[0] == '[' ? JSON_TYPE_ARRAY_END : want[0] == 't' ? JSON_TYPE_TRUE : want[0] == 'f' ? JSON_TYPE_FALSE : want[0] == 'n' ? JSON_TYPE_NULL : JSON_TYPE_NUMBER;
          if (!damaged && l.t.type != ty) fail = strf("%s has token type %d, expected %d", l.path.c_str(), l.t.type, ty);
        }
        break;
      case 'M':
        untouched = l.m.empty();
        got = l.m;
        if (want[0] == '"') want = want.substr(1, want.size() - 2);
        if (want.empty() && l.present) untouched = false;
        break;
    }
    if (damaged) continue;
    if (!l.present && !untouched) fail = strf("%s is absent, and yields %s", l.path.c_str(), quote(got).c_str());
    if (l.present && (untouched && !(l.kind == 'd' && want == "-77") && !(l.kind == 'u' && want == "77")) && got != want) fail = strf("%s is not found", l.path.c_str());
    if (l.present && got != want) fail = strf("%s yields %s, expected %s", l.path.c_str(), quote(got).c_str(), quote(want).c_str());
  }
  if (!fail.empty()) failf("%s", fail.c_str());
  if (!damaged && n != expect) failf("json_scanf returns %d, expected %d", n, expect);
  c.nontrivial = expect >= 2;
}

// ----------------------------------------------------- iterating and editing
std::string skey(Src &s) {
  static const std::vector<std::string> k = {"a", "ab", "abc", "b", "ba", "c", "a b", "\xc3\xa9", "k1", "k10", "k", "-"};
  return s.pick(k);
}
JV tree(Src &s, int depth) {
  JV v;
  switch (s.weighted({1, 1, 1, 3, 3, depth > 0 ? 5 : 0, depth > 0 ? 7 : 0})) {
    case 0: v.k = JV::NUL; break;
    case 1: v.k = JV::TRUE; break;
    case 2: v.k = JV::FALSE; break;
    case 3: v.k = JV::NUM; v.n = (double) s.range(-50, 200); break;
    case 4: v.k = JV::STR; v.s = gen_utf8(s, 12); break;
    case 5:
      v.k = JV::ARR;
      for (int n = (int) (s.chance(1, 10) ? s.range(9, 13) : s.below(4)); n > 0; n--) v.a.push_back(tree(s, depth - 1));
      break;
    default: {
      v.k = JV::OBJ;
      std::set<std::string> seen;
      for (int n = (int) s.below(5); n > 0; n--) {
        std::string k = skey(s);
        if (seen.insert(k).second) v.o.push_back({k, tree(s, depth - 1)});
      }
    }
  }
  return v;
}
void jtext(Src &s, const JV &v, std::string &o, bool sp) {
  auto ws = [&] {
    if (sp && s.chance(1, 3)) o += " \n\t\r"[s.below(4)];
  };
  switch (v.k) {
    case JV::NUL: o += "null"; break;
    case JV::TRUE: o += "true"; break;
    case JV::FALSE: o += "false"; break;
    case JV::NUM: o += strf("%g", v.n); break;
    case JV::STR: jprint_str(s, v.s, o); break;
    case JV::ARR: {
      o += '[';
      bool f = true;
      for (auto &x : v.a) {
        ws();
        if (!f) o += ',', ws();
        f = false;
        jtext(s, x, o, sp);
      }
      ws();
      o += ']';
      break;
    }
    default: {
      o += '{';
      bool f = true;
      for (auto &x : v.o) {
        ws();
        if (!f) o += ',', ws();
        f = false;
        o += '"' + x.first + '"';
        ws();
        o += ':';
        ws();
        jtext(s, x.second, o, sp);
      }
      ws();
      o += '}';
    }
  }
}
struct Node {
  std::string path;
  JV *v, *parent;
};
void nodes(JV &v, JV *parent, const std::string &path, std::vector<Node> &out) {
  out.push_back({path, &v, parent});
  int i = 0;
  for (auto &x : v.a) nodes(x, &v, path + strf("[%d]", i++), out);
  for (auto &x : v.o) nodes(x.second, &v, path + "." + x.first, out);
}
JV parse(const std::string &t, const char *what) {
  JV v;
  JParse p(t, false);
  if (!p.all(v)) failf("%s yields %s, which is not JSON", what, quote(t).c_str());
  return v;
}
std::string tok(const struct json_token &t) {
  if (!t.ptr) return "<none>";
  std::string x(t.ptr, t.len);
  return t.type == JSON_TYPE_STRING ? '"' + x + '"' : x;
}

void iter_case(Src &s, Case &c) {
  JV root = tree(s, 3);
  std::string t;
  jtext(s, root, t, s.chance(1, 2));
  std::vector<Node> ns;
  nodes(root, nullptr, "", ns);
  auto &nd = ns[s.below(ns.size())];
  std::string path = nd.path;
  c.show(t + "\n at " + path);
  c.label("iterate");
  c.nontrivial = ns.size() > 3;
  Exact e(t);
  void *h = nullptr;
  size_t i = 0, want = nd.v->k == JV::OBJ ? nd.v->o.size() : nd.v->k == JV::ARR ? nd.v->a.size() : 0;
  bool by_key = s.chance(1, 2), nokey = s.chance(1, 6), noval = s.chance(1, 6);
  while (true) {
    struct json_token key = {nullptr, -1, JSON_TYPE_INVALID}, val = {nullptr, -1, JSON_TYPE_INVALID};
    int idx = -5;
    h = by_key ? json_next_key(e.p, (int) e.n, h, path.c_str(), nokey ? nullptr : &key, noval ? nullptr : &val) : json_next_elem(e.p, (int) e.n, h, path.c_str(), nokey ? nullptr : &idx, noval ? nullptr : &val);
    if (!h) break;
    if (i >= want) failf("entry %zu of %zu: key %s value %s", i, want, quote(tok(key)).c_str(), quote(tok(val)).c_str());
    const JV &x = nd.v->k == JV::OBJ ? nd.v->o[i].second : nd.v->a[i];
    if (!noval && jcanon(parse(tok(val), "a value")) != jcanon(x)) failf("entry %zu has the value %s", i, quote(tok(val)).c_str());
    if (!nokey && nd.v->k == JV::OBJ) {
      if (by_key && (!key.ptr || std::string(key.ptr, key.len) != nd.v->o[i].first)) failf("entry %zu has the key %s, expected %s", i, quote(tok(key)).c_str(), quote(nd.v->o[i].first).c_str());
      if (!by_key && idx != -1) failf("entry %zu of an object has the index %d", i, idx);
    }
    if (!nokey && nd.v->k == JV::ARR) {
      if (!by_key && idx != (int) i) failf("entry %zu has the index %d", i, idx);
      if (by_key && (key.ptr || key.len)) failf("entry %zu of an array has a key", i);
    }
    i++;
  }
  if (i != want) failf("%zu entries, expected %zu", i, want);
  // one element
  int idx = (int) s.below(14);
  struct json_token tk;
  int k = json_scanf_array_elem(e.p, (int) e.n, path.c_str(), idx, &tk);
  bool in = nd.v->k == JV::ARR && idx < (int) nd.v->a.size();
  if (in != (k >= 0)) failf("json_scanf_array_elem returns %d for index %d of %zu", k, idx, nd.v->a.size());
  if (in && (k != tk.len || jcanon(parse(tok(tk), "an element")) != jcanon(nd.v->a[idx]))) failf("json_scanf_array_elem yields %s for index %d", quote(tok(tk)).c_str(), idx);
}

void setf_case(Src &s, Case &c) {
  JV root = tree(s, 3);
  if (root.k != JV::OBJ && root.k != JV::ARR) {
    JV o;
    o.k = JV::OBJ;
    o.o.push_back({"a", root});
    root = o;
  }
  std::string t;
  jtext(s, root, t, s.chance(1, 2));
  std::vector<Node> ns;
  nodes(root, nullptr, "", ns);
  auto &nd = ns[s.below(ns.size())];
  std::string path = nd.path;
  bool del = false, change = true, added = false;
  JV nv = tree(s, 1);
  std::string nt;
  jtext(s, nv, nt, false);
  switch (s.weighted({4, 4, 4, 1, 2})) {
    case 0:  // replace
      *nd.v = nv;
      break;
    case 1:  // delete
      if (!nd.parent) {
        c.skip = true;
        return;
      }
      del = true;
      for (size_t i = 0; i < nd.parent->a.size(); i++)
        if (&nd.parent->a[i] == nd.v) {
          nd.parent->a.erase(nd.parent->a.begin() + i);
          break;
        }
      for (size_t i = 0; i < nd.parent->o.size(); i++)
        if (&nd.parent->o[i].second == nd.v) {
          nd.parent->o.erase(nd.parent->o.begin() + i);
          break;
        }
      break;
    case 2: {  // add a key
      added = true;
      if (nd.v->k != JV::OBJ) {
        c.skip = true;
        return;
      }
      JV *at = nd.v;
      int lv = (int) s.range(1, 3);
      for (int i = 0; i < lv; i++) {
        std::string k = skey(s);
        if (i == 0)
          for (auto &x : at->o)
            if (x.first == k) {
              c.skip = true;
              return;
            }
        path += "." + k;
        JV o;
        o.k = JV::OBJ;
        at->o.push_back({k, i == lv - 1 ? nv : o});
        at = &at->o.back().second;
      }
      break;
    }
    case 3:  // delete what is not there
      del = true, change = false;
      if (nd.v->k != JV::OBJ) {
        c.skip = true;
        return;
      }
      {
        std::string k = skey(s);
        for (auto &x : nd.v->o)
          if (x.first == k) {
            c.skip = true;
            return;
          }
        path += "." + k;
      }
      break;
    default:  // push
      added = true;
      if (nd.v->k != JV::ARR) {
        c.skip = true;
        return;
      }
      path += "[]";
      nd.v->a.push_back(nv);
  }
  c.show(t + "\n" + (del ? "delete " : "set ") + path + (del ? "" : " to " + nt));
  c.label("setf");
  c.nontrivial = ns.size() > 3;
  Exact e(t);
  SOut o;
  bool q = !del && nv.k == JV::NUM && s.chance(1, 2);
  Args a(5);
  if (q)
    a.d(nv.n);
  else
    a.i((uint32_t) nt.size()).p(nt.c_str());
  int r = a.call([&](va_list ap) { return json_vsetf(e.p, (int) e.n, &o.out, path.c_str(), del ? nullptr : q ? "%g" : "%.*s", ap); });
  JV got = parse(o.t, "json_setf");
  if (jcanon(got) != jcanon(root)) failf("json_setf yields %s", quote(o.t).c_str());
  if (!added && r != (change ? 1 : 0)) failf("json_setf returns %d", r);
}

void pretty_case(Src &s, Case &c) {
  JV root = tree(s, 4);
  std::string t;
  jtext(s, root, t, s.chance(1, 2));
  size_t end = t.size();
  if (s.chance(1, 4)) t += "  \n";
  c.show(t);
  c.label("prettify");
  c.nontrivial = t.size() > 8;
  Exact e(t);
  SOut o;
  int n = json_prettify(e.p, (int) e.n, &o.out);
  if (n != (int) end) failf("json_prettify returns %d for %zu bytes", n, end);
  // the layout: one entry per line, two spaces per level
  Rec r1, r2;
  walk(t, r1);
  if (walk(o.t, r2) != (int) o.t.size()) failf("json_prettify yields %s, which is not JSON", quote(o.t).c_str());
  for (auto *r : {&r1, &r2})
    for (auto &ev : r->ev)
      if (ev.type == JSON_TYPE_OBJECT_END || ev.type == JSON_TYPE_ARRAY_END) ev.val = "";
  compare(r2.ev, r1.ev, "the prettified text");
  std::string want;
  struct P {
    static void pr(const JV &v, const std::string &src, std::string &o, int lv) {
      (void) src;
      std::string in(2 * lv + 2, ' '), out(2 * lv, ' ');
      if (v.k == JV::ARR || v.k == JV::OBJ) {
        bool obj = v.k == JV::OBJ;
        size_t n = obj ? v.o.size() : v.a.size();
        o += obj ? "{" : "[";
        for (size_t i = 0; i < n; i++) {
          o += i ? ",\n" : "\n";
          o += in;
          if (obj) o += '"' + v.o[i].first + "\": ";
          pr(obj ? v.o[i].second : v.a[i], src, o, lv + 1);
        }
        if (n) o += "\n" + out;
        o += obj ? "}" : "]";
      } else
        o += "\x01";
    }
  };
  P::pr(root, t, want, 0);
  {  // fill in the scalars in order
    std::string w;
    size_t k = 0;
    for (char ch : want) {
      if (ch != '\x01') {
        w += ch;
        continue;
      }
      while (r1.ev[k].type >= JSON_TYPE_OBJECT_START) k++;
      w += r1.ev[k].type == JSON_TYPE_STRING ? '"' + r1.ev[k].val + '"' : r1.ev[k].val;
      k++;
    }
    if (o.t != w) failf("json_prettify yields %s, expected %s", quote(o.t).c_str(), quote(w).c_str());
  }
  // files
  int fd0 = dup(0);
  close(fd0);
  std::string f = scratch("pretty");
  bool bad = s.chance(1, 3);
  std::string ft = t;
  if (bad) ft = s.chance(1, 2) ? t.substr(0, s.below(end)) + "{" : t.substr(0, end ? s.below(end) : 0) + "\x02{";
  Rec rb;
  int wn = walk(ft, rb);
  spit(f, ft);
  int k = json_prettify_file(f.c_str());
  std::string after = slurp(f);
  if (ft.empty() || wn < 0) {
    if (k >= 0) failf("json_prettify_file of %s returns %d", quote(ft).c_str(), k);
    if (after != ft) failf("json_prettify_file of %s fails, and leaves %s", quote(ft).c_str(), quote(after).c_str());
  } else if (!bad) {
    if (k != (int) end) failf("json_prettify_file returns %d for %zu bytes", k, end);
    if (after != o.t + "\n") failf("json_prettify_file writes %s", quote(after).c_str());
    int k2 = json_prettify_file(f.c_str());
    if (k2 != (int) o.t.size() || slurp(f) != after) failf("json_prettify_file changes what is prettified already");
  }
  // json_fread
  char *m = json_fread(f.c_str());
  std::string now = slurp(f);
  if (!m ? !now.empty() : std::string(m, now.size() + 1) != now + std::string(1, '\0')) failf("json_fread yields something else than the file");
  vf_free(m);
  if (json_fread((f + ".absent").c_str()) != nullptr) failf("json_fread of a file that is not there yields something");
  int fd1 = dup(0);
  close(fd1);
  if (fd1 != fd0) failf("a file is left open");
}
}  // namespace

void prop_case(Src &s, Case &c) {
  long live = vf_live();
  switch (s.weighted({5, 4, 3, 4, 4, 4, 2})) {
    case 0: walk_case(s, c); break;
    case 1: print_case(s, c); break;
    case 2: escape_case(s, c); break;
    case 3: scan_case(s, c); break;
    case 4: iter_case(s, c); break;
    case 5: setf_case(s, c); break;
    default: pretty_case(s, c); break;
  }
  if (vf_live() != live) failf("%ld blocks of memory are leaked", vf_live() - live);
}
