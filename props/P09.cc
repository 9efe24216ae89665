// P09: arrays behave as sequences: push, splice, indexing and length agree
// with the sequence model, from scripts and from C.
#include "mv.h"
const char *PROP_ID = "P09";

namespace {
struct Run {
  Src &s;
  Case &c;
  VM vm;
  MHeap h;
  std::string hist;
  int nops = 0;
  bool did_splice = false;
  Run(Src &s, Case &c) : s(s), c(c) { h.m = vm.m; }
  void note(const std::string &t) {
    hist += t + "\n";
    c.show(hist);
  }
  MV val() {
    switch (s.weighted({6, 4, 1, 1, 1, 3})) {
      case 0: return MV::num((double) s.range(-3, 1000));
      case 1: return MV::str(gen_bytes(s, 40));
      case 2: return MV::undef();
      case 3: return MV::null();
      case 4: return MV::boolean(s.chance(1, 2));
      default: return MV::obj((int) s.below(h.o.size()));
    }
  }
  void setg(const char *name, mjs_val_t v) { mjs_set(vm.m, mjs_get_global(vm.m), name, ~0, v); }
  void bind() {
    for (size_t i = 0; i < h.o.size(); i++) setg(strf("a%d", (int) i).c_str(), *h.real[i]);
  }
  std::string lit(const MV &v) {
    if (v.k == MV::REF) return strf("a%d", v.ref);
    if (v.k == MV::STR) return js_str(s, v.s);
    if (v.k == MV::NUM && v.n < 0) return "(" + MHeap::text(v) + ")";
    return MHeap::text(v);
  }
  std::string show(int i) {
    std::string o = "[";
    for (auto &p : h.o[i].p) o += " " + p.first + ":" + MHeap::text(p.second);
    return o + " ]";
  }
  mjs_val_t eval(const std::string &src) {
    note(src);
    g_step.gc_den = s.chance(1, 4) ? 3 : 0;
    g_step.gc_state = s.below(1000);
    mjs_val_t r = MJS_UNDEFINED;
    int e = vm.exec(src, nullptr, &r);
    g_step.gc_den = 0;
    if (e) failf("%s: error %d (%s)", src.c_str(), e, vm.err().c_str());
    return r;
  }
  // an index given to the functions of the C interface: any of them, also those beyond the length an array can have
  unsigned long capi_index(int i) {
    if (!s.chance(1, 12)) return index(i);
    return s.chance(1, 2) ? ~0UL - s.below(12) : (1UL << (32 + s.below(32))) + s.below(3);
  }
  std::string idx(unsigned long n) {
    switch (s.weighted({5, 1, 2})) {
      case 0: return strf("[%lu]", n);
      case 1: return strf("['%lu']", n);
      default:
        setg("I", mjs_mk_number(vm.m, (double) n));
        return "[I]";
    }
  }
  bool dense(int i) {
    unsigned long len = h.length(i), n = 0;
    for (auto &p : h.o[i].p) {
      unsigned long q;
      if (canon_index(p.first, &q)) n++;
    }
    return n == len;
  }
  unsigned long index(int i) {
    unsigned long len = h.length(i);
    if (s.chance(1, 25)) {  // far beyond the end: the array becomes sparse
      static const std::vector<unsigned long> far = {255, 256, 1000, 32767, 32768, 65535, 65536, 65537, 100000, 1000000, 16777215, 16777216, 2147483646, 2147483647, 2147483648UL, 2147483649UL, 4000000000UL, 4294967000UL};
      return s.pick(far) + s.below(3);
    }
    switch (s.weighted({6, 3, 1, 1})) {
      case 0: return len ? s.below(len) : 0;
      case 1: return len;
      case 2: return len + s.below(4);
      default: return s.below(30);
    }
  }
  void want(const std::string &got, const std::string &exp, const char *what) {
    if (got != exp) failf("%s yields %s, expected %s", what, got.c_str(), exp.c_str());
  }
  void step() {
    struct mjs *m = vm.m;
    int i = (int) s.below(h.o.size());
    mjs_val_t a = *h.real[i];
    auto &mp = h.o[i].p;
    unsigned long len = h.length(i);
    auto key = [](unsigned long n) { return strf("%lu", n); };
    auto at = [&](unsigned long n) {
      auto f = mp.find(key(n));
      return f == mp.end() ? std::string("undefined") : MHeap::text(f->second);
    };
    switch (s.weighted({3, 5, 8, 3, 3, 2, 2, 2, 2, 2, 1, 2, 1})) {
      case 0: {
        MV v = val();
        note(strf("mjs_array_push(a%d, %s)", i, MHeap::text(v).c_str()));
        if (mjs_array_push(m, a, h.to_real(v)) != MJS_OK) failf("mjs_array_push fails");
        mp[key(len)] = v;
        break;
      }
      case 1: {  // push from a script
        int n = (int) s.range(0, 4);
        std::vector<MV> vs;
        std::string src = strf("a%d.push(", i);
        for (int q = 0; q < n; q++) {
          vs.push_back(val());
          src += (q ? ", " : "") + lit(vs.back());
        }
        bind();
        std::string r = h.text(eval(src + ")"));
        for (auto &v : vs) {
          mp[key(len)] = v;
          len++;
        }
        want(r, strf("%lu", len), "push");
        break;
      }
      case 2: {  // splice
        if (!dense(i)) break;
        long start = 0;
        switch (s.weighted({6, 2, 2, 1})) {
          case 0: start = (long) s.below(len + 1); break;
          case 1: start = -(long) s.below(len + 3); break;
          case 2: start = (long) (len + s.below(3)); break;
          default: start = s.range(-2147483647, 2147483647); break;
        }
        bool has_cnt = s.chance(4, 5);
        long cnt = 0;
        switch (s.weighted({6, 2, 1, 1})) {
          case 0: cnt = (long) s.below(len + 1); break;
          case 1: cnt = 0; break;
          case 2: cnt = -(long) s.below(5); break;
          default: cnt = s.range(-2147483647, 2147483647); break;
        }
        std::string src = strf("a%d.splice(%ld", i, start);
        std::vector<MV> items;
        if (has_cnt) {
          src += strf(", %ld", cnt);
          int n = (int) s.range(0, 4);
          if (s.chance(1, 10)) n += 5;
          for (int q = 0; q < n; q++) {
            items.push_back(val());
            src += ", " + lit(items.back());
          }
        }
        std::vector<MV> seq, rem, out;
        for (unsigned long q = 0; q < len; q++) seq.push_back(mp[key(q)]);
        long st = start < 0 ? std::max(0L, (long) len + start) : std::min(start, (long) len);
        long ct = has_cnt ? std::min(std::max(cnt, 0L), (long) len - st) : (long) len - st;
        rem.assign(seq.begin() + st, seq.begin() + st + ct);
        out.assign(seq.begin(), seq.begin() + st);
        out.insert(out.end(), items.begin(), items.end());
        out.insert(out.end(), seq.begin() + st + ct, seq.end());
        bind();
        hist += strf("// a%d = ", i) + show(i) + "\n";
        mjs_val_t r = eval(src + ")");
        for (unsigned long q = 0; q < len; q++) mp.erase(key(q));
        for (size_t q = 0; q < out.size(); q++) mp[key(q)] = out[q];
        if (!mjs_is_array(r)) failf("splice does not return an array");
        if (h.o.size() < 6 && s.chance(1, 3)) {
          int n = h.add(r, true);
          for (size_t q = 0; q < rem.size(); q++) h.o[n].p[key(q)] = rem[q];
        } else {
          if (mjs_array_length(m, r) != rem.size()) failf("splice returns %lu elements, expected %lu", mjs_array_length(m, r), (unsigned long) rem.size());
          for (size_t q = 0; q < rem.size(); q++) want(h.text(mjs_array_get(m, r, q)), MHeap::text(rem[q]), "the array returned by splice");
        }
        did_splice = true;
        c.label("splice");
        break;
      }
      case 3: {  // indexed assignment
        unsigned long n = index(i);
        MV v = val();
        bind();
        setg("V", h.to_real(v));
        std::string src = strf("a%d", i) + idx(n) + " = V";
        hist += "// V = " + MHeap::text(v) + strf(", index %lu\n", n);
        want(h.text(eval(src)), MHeap::text(v), "the assignment");
        mp[key(n)] = v;
        break;
      }
      case 4: {  // indexed read, length
        unsigned long n = index(i);
        bind();
        want(h.text(eval(strf("a%d", i) + idx(n))), at(n), "the element");
        want(h.text(eval(strf("a%d.length", i))), strf("%lu", len), "length");
        break;
      }
      case 5: {
        unsigned long n = capi_index(i);
        MV v = val();
        note(strf("mjs_array_set(a%d, %lu, %s)", i, n, MHeap::text(v).c_str()));
        if (mjs_array_set(m, a, n, h.to_real(v)) != MJS_OK) failf("mjs_array_set fails");
        mp[key(n)] = v;
        break;
      }
      case 6: {
        unsigned long n = capi_index(i);
        note(strf("mjs_array_get(a%d, %lu)", i, n));
        want(h.text(mjs_array_get(m, a, n)), at(n), "mjs_array_get");
        break;
      }
      case 7: {
        unsigned long n = capi_index(i);
        note(strf("mjs_array_del(a%d, %lu)", i, n));
        mjs_array_del(m, a, n);
        mp.erase(key(n));
        if (n + 1 != len) c.label("sparse");
        break;
      }
      case 8: {  // literal
        if (h.o.size() >= 6) break;
        int n = (int) s.range(0, 6);
        if (s.chance(1, 12)) n = (int) s.range(100, 140);
        std::vector<MV> vs;
        std::string src = "[";
        for (int q = 0; q < n; q++) {
          vs.push_back(val());
          src += (q ? ", " : "") + lit(vs.back());
        }
        src += "]";
        bind();
        mjs_val_t r = eval(src);
        if (!mjs_is_array(r)) failf("an array literal does not yield an array");
        int id = h.add(r, true);
        for (size_t q = 0; q < vs.size(); q++) h.o[id].p[key(q)] = vs[q];
        break;
      }
      case 9: {  // walk with for (;;) and build a copy
        if (h.o.size() >= 6 || len > 60) break;
        bind();
        int id = (int) h.o.size();
        mjs_val_t r = eval(strf("let r%d = []; for (let i = 0; i < a%d.length; i++) { r%d.push(a%d[i]); } r%d;", id, i, id, i, id));
        h.add(r, true);
        for (unsigned long q = 0; q < len; q++) h.o[id].p[key(q)] = mp.count(key(q)) ? mp[key(q)] : MV::undef();
        break;
      }
      case 10: {  // push and splice need an array
        bind();
        note("push and splice of a non-array fail");
        std::string src = s.pick(std::vector<std::string>{"let f = [].push; f(1)", "[].push.apply({}, [1])", "let f = [].splice; f(0)", "[].splice.apply('abc', [0, 1])",
                                                          strf("a%d.splice('0')", i), strf("a%d.splice(0, {})", i), strf("a%d.splice(0, '1', 2)", i)});
        note(src);
        int e = vm.exec("{" + src + "}");
        if (e != MJS_TYPE_ERROR) failf("%s: error %d, expected %d", src.c_str(), e, MJS_TYPE_ERROR);
        break;
      }
      case 11:
        note("gc");
        mjs_gc(m, (int) s.below(2));
        break;
      default: {  // a property that is no index leaves length and elements alone
        std::string k = s.pick(std::vector<std::string>{"x", "name", "-1", "1.5", "01", "00", "000", "007", "08", "-0", "1x", "12a", "2147483648x",  " 3", "+2", "4294967295", "99999999999", "1e3", "0x10", "3 "});
        MV v = val();
        note(strf("a%d[%s] = %s", i, quote(k).c_str(), MHeap::text(v).c_str()));
        bind();
        setg("V", h.to_real(v));
        eval(strf("a%d['%s'] = V", i, k.c_str()));
        mp[k] = v;
        c.label("non-index property");
      }
    }
    nops++;
  }
  void run() {
    note("a0 = []; a1 = []");
    h.add(mjs_mk_array(vm.m), true);
    h.add(mjs_mk_array(vm.m), true);
    int n = (int) s.range(3, 40);
    for (int q = 0; q < n; q++) {
      step();
      if (s.chance(1, 3)) h.check_all();
    }
    h.check_all();
    mjs_gc(vm.m, 1);
    h.check_all();
    c.nontrivial = nops >= 8 && did_splice;
    vm.destroy();
  }
};
}  // namespace

void prop_case(Src &s, Case &c) { Run(s, c).run(); }
