// P08: objects are faithful finite maps from byte strings to values, with
// prototype lookup, however they are accessed.
#include "mv.h"
const char *PROP_ID = "P08";

namespace {
struct Run {
  Src &s;
  Case &c;
  VM vm;
  MHeap h;
  std::string hist;
  std::vector<std::string> keys;
  int nops = 0, gcs = 0;
  // buffers of foreign strings live as long as the instance
  std::vector<char *> bufs;
  Run(Src &s, Case &c) : s(s), c(c) { h.m = vm.m; }
  ~Run() {
    for (auto b : bufs) free(b);
  }
  void note(const std::string &t) {
    hist += t + "\n";
    c.show(hist);
  }
  std::string key() {
    if (!keys.empty() && s.chance(3, 5)) return s.pick(keys);
    std::string k;
    switch (s.weighted({6, 2, 2, 2, 1})) {
      case 0: k = gen_bytes(s); break;
      case 1: k = s.pick(std::vector<std::string>{"length", "push", "splice", "__p", "x", "constructor", "slice", "at", "__proto__", "abcde", "abcdef"}); break;
      case 2: k = strf("%d", (int) s.range(0, 12)); break;
      case 3:
        k = keys.empty() ? "a" : s.pick(keys);  // a neighbour of a known key
        switch (s.below(4)) {
          case 0: k += (char) s.below(3); break;
          case 1: if (!k.empty()) k.pop_back(); break;
          case 2: if (!k.empty()) k[s.below(k.size())] ^= 1; break;
          default: k += std::string(1, '\0') + "x"; break;
        }
        break;
      default: k = std::string(16380 + s.below(8), 'k') + (char) ('a' + s.below(2));
    }
    if (k == "apply") k = "appl";
    keys.push_back(k);
    return k;
  }
  MV val() {
    switch (s.weighted({4, 4, 1, 1, 1, 4})) {
      case 0: return MV::num((double) s.range(-3, 1000));
      case 1: return MV::str(gen_bytes(s, 60));
      case 2: return MV::undef();
      case 3: return MV::null();
      case 4: return MV::boolean(s.chance(1, 2));
      default: return MV::obj((int) s.below(h.o.size()));
    }
  }
  mjs_val_t strval(const std::string &k) {
    if (s.chance(1, 3)) {
      char *b = (char *) malloc(k.size() ? k.size() : 1);  // exactly the bytes, no terminator
      memcpy(b, k.data(), k.size());
      bufs.push_back(b);
      c.label("foreign string key");
      return mjs_mk_string(vm.m, b, k.size(), 0);
    }
    return mkstr(vm.m, k);
  }
  void setg(const char *name, mjs_val_t v) { mjs_set(vm.m, mjs_get_global(vm.m), name, ~0, v); }
  void bind() {
    for (size_t i = 0; i < h.o.size(); i++) setg(strf("o%d", (int) i).c_str(), *h.real[i]);
  }
  void js(const std::string &src, int expect = 0) {
    vm.log.clear();
    int e = vm.exec(src);
    if (e != expect) failf("script %s: error %d (%s), expected %d", quote(src).c_str(), e, vm.err().c_str(), expect);
  }
  void want(const std::string &got, const std::string &exp, const char *what) {
    if (got != exp) failf("%s yields %s, expected %s", what, got.c_str(), exp.c_str());
  }
  std::string mtext(const MV *v) { return v ? MHeap::text(*v) : "undefined"; }
  // JS text of a key: property accessor
  std::string access(const std::string &k) {
    if (is_ident(k) && s.chance(2, 3)) return "." + k;
    unsigned long n;
    if (canon_index(k, &n) && s.chance(1, 2)) return "[" + k + "]";
    if (s.chance(1, 2)) return "[" + js_str(s, k) + "]";
    setg("K", strval(k));
    return "[K]";
  }
  // the real value of an expression
  std::string eval(const std::string &src) {
    mjs_val_t r = MJS_UNDEFINED;
    int e = vm.exec(src, nullptr, &r);
    if (e) failf("script %s: error %d (%s)", quote(src).c_str(), e, vm.err().c_str());
    return h.text(r);
  }

  void step() {
    struct mjs *m = vm.m;
    int i = (int) s.below(h.o.size());
    mjs_val_t o = *h.real[i];
    auto &mp = h.o[i].p;
    switch (s.weighted({4, 3, 4, 4, 2, 4, 4, 2, 2, 2, 1, 2, 2, 1, 1, 2})) {
      case 0: {  // mjs_set
        std::string k = key();
        MV v = val();
        bool z = k.find('\0') == std::string::npos && s.chance(1, 3);
        note(strf("mjs_set(o%d, %s%s, %s)", i, quote(k).c_str(), z ? " ~0" : "", MHeap::text(v).c_str()));
        mjs_val_t rv = h.to_real(v);
        std::string kk = k;
        if (mjs_set(m, o, kk.c_str(), z ? (size_t) ~0 : kk.size(), rv) != MJS_OK) failf("mjs_set fails");
        mp[k] = v;
        break;
      }
      case 1: {  // mjs_set_v
        std::string k = key();
        MV v = val();
        note(strf("mjs_set_v(o%d, %s, %s)", i, quote(k).c_str(), MHeap::text(v).c_str()));
        mjs_val_t kv = strval(k), rv = h.to_real(v);
        if (mjs_set_v(m, o, kv, rv) != MJS_OK) failf("mjs_set_v fails");
        mp[k] = v;
        break;
      }
      case 2: {  // mjs_del
        std::string k = key();
        bool z = k.find('\0') == std::string::npos && s.chance(1, 3);
        note(strf("mjs_del(o%d, %s)", i, quote(k).c_str()));
        int r = mjs_del(m, o, k.c_str(), z ? (size_t) ~0 : k.size());
        int exp = mp.erase(k) ? 0 : -1;
        if (r != exp) failf("mjs_del returns %d, expected %d", r, exp);
        if (exp == 0) c.label("delete");
        break;
      }
      case 3: {  // get
        std::string k = key();
        auto f = mp.find(k);
        const MV *own = f == mp.end() ? nullptr : &f->second;
        note(strf("get(o%d, %s)", i, quote(k).c_str()));
        want(h.text(mjs_get(m, o, k.data(), k.size())), mtext(own), "mjs_get");
        if (k.find('\0') == std::string::npos) want(h.text(mjs_get(m, o, k.c_str(), ~0)), mtext(own), "mjs_get with ~0");
        mjs_val_t kv = strval(k);
        want(h.text(mjs_get_v(m, o, kv)), mtext(own), "mjs_get_v");
        want(h.text(mjs_get_v_proto(m, o, kv)), mtext(h.lookup(i, k)), "mjs_get_v_proto");
        break;
      }
      case 4: {  // prototypes, possibly cyclic
        int j = (int) s.below(h.o.size());
        bind();
        if (h.o.size() < 7 && s.chance(2, 3)) {
          note(strf("o%d = Object.create(o%d)", (int) h.o.size(), j));
          mjs_val_t r;
          if (h.o[j].arr) break;
          if (vm.exec(strf("Object.create(o%d)", j), nullptr, &r) != 0 || !mjs_is_object(r)) failf("Object.create fails: %s", vm.err().c_str());
          int n = h.add(r, false);
          h.o[n].p["__p"] = MV::obj(j);
        } else {
          note(strf("o%d.__p = o%d", i, j));
          js(strf("o%d.__p = o%d", i, j));
          mp["__p"] = MV::obj(j);
        }
        c.label("prototype");
        break;
      }
      case 5: {  // JS assignment
        std::string k = key();
        MV v = val();
        bind();
        setg("V", h.to_real(v));
        std::string src = strf("o%d", i) + access(k) + " = V";
        note(src + "   // " + quote(k) + ", V = " + MHeap::text(v));
        want(eval(src), MHeap::text(v), "the assignment");
        mp[k] = v;
        c.label("script assignment");
        break;
      }
      case 6: {  // JS read
        std::string k = key();
        bind();
        std::string src = strf("o%d", i) + access(k);
        note(src + "   // " + quote(k));
        if (h.o[i].arr && (k == "length" || k == "push" || k == "splice")) break;
        want(eval(src), mtext(h.lookup(i, k)), "the expression");
        break;
      }
      case 7: {  // for..in
        bind();
        std::string src = strf("for (let k in o%d) { log(k, o%d[k]%s); }", i, i, s.chance(1, 2) ? "" : strf(", o%d[k] = o%d[k]", i, i).c_str());
        if (h.o[i].arr && (mp.count("length") || mp.count("push") || mp.count("splice"))) break;
        note(src);
        js(src);
        std::multiset<std::string> got, exp;
        for (auto &l : vm.log) got.insert(l.substr(0, l.find("\" ") == std::string::npos ? std::string::npos : l.find("\" ") + 1));
        for (auto &p : mp) exp.insert(quote(p.first).substr(0, quote(p.first).find("\" ") == std::string::npos ? std::string::npos : quote(p.first).find("\" ") + 1));
        if (got != exp) failf("for..in visits %d keys of object %d, expected %d, or other keys", (int) got.size(), i, (int) exp.size());
        c.label("for..in");
        break;
      }
      case 8: {  // object literal
        if (h.o.size() >= 7) break;
        std::map<std::string, MV> p;
        std::string src = "({";
        int n = (int) s.range(0, 5);
        bind();
        for (int q = 0; q < n; q++) {
          std::string k = key();
          if (k.size() > 2000) k = "big";
          MV v = val();
          src += q ? ", " : "";
          src += is_ident(k) && s.chance(1, 2) ? k : js_str(s, k);
          src += ": ";
          switch (v.k) {
            case MV::REF: src += strf("o%d", v.ref); break;
            case MV::STR: src += js_str(s, v.s); break;
            default: src += MHeap::text(v);
          }
          p[k] = v;
        }
        src += "})";
        note(strf("o%d = ", (int) h.o.size()) + src);
        mjs_val_t r = MJS_UNDEFINED;
        int e = vm.exec(src, nullptr, &r);
        if (e) failf("object literal: error %d (%s)", e, vm.err().c_str());
        int id = h.add(r, false);
        h.o[id].p = p;
        c.label("object literal");
        break;
      }
      case 9: {
        if (h.o.size() >= 7) break;
        bool arr = s.chance(1, 4);
        note(strf("o%d = new %s", (int) h.o.size(), arr ? "array" : "object"));
        h.add(arr ? mjs_mk_array(m) : mjs_mk_object(m), arr);
        break;
      }
      case 10: {  // not an object
        MV v = val();
        if (v.k == MV::REF) break;
        std::string k = key();
        note(strf("set/get/del %s of %s", quote(k).c_str(), MHeap::text(v).c_str()));
        mjs_val_t rv = h.to_real(v);
        if (mjs_set(m, rv, k.data(), k.size(), mjs_mk_number(m, 1)) == MJS_OK) failf("mjs_set of a non-object succeeds");
        if (mjs_set_v(m, rv, mjs_mk_number(m, 12345678), mjs_mk_number(m, 1)) == MJS_OK) failf("mjs_set_v of a non-object succeeds");
        want(h.text(mjs_get(m, rv, k.data(), k.size())), "undefined", "mjs_get of a non-object");
        if (mjs_del(m, rv, k.data(), k.size()) != -1) failf("mjs_del of a non-object succeeds");
        break;
      }
      case 11:
        note("gc");
        mjs_gc(m, (int) s.below(2));
        gcs++;
        break;
      case 12: {  // keys that are not strings
        bind();
        MV v = val();
        setg("V", h.to_real(v));
        int w = (int) s.below(6);
        long n = s.range(-50, 100000);
        std::string ks[] = {"true", "false", "null", "undefined", strf("%ld", n), strf("%d.500000", (int) labs(n))};
        std::string lit[] = {"true", "false", "null", "undefined", strf("(%ld)", n), strf("%d.5", (int) labs(n))};
        std::string src = strf("o%d[%s] = V", i, lit[w].c_str());
        note(src + "  // " + MHeap::text(v));
        js(src);
        mp[ks[w]] = v;
        keys.push_back(ks[w]);
        want(eval(strf("o%d[%s]", i, lit[w].c_str())), MHeap::text(v), "reading the property back");
        break;
      }
      case 13: {  // an object as key is an error and changes nothing
        bind();
        note(strf("o%d[{}] = 1 fails", i));
        js(strf("o%d[{}] = 1", i), MJS_TYPE_ERROR);
        break;
      }
      case 15: {  // walk the properties while they change
        std::set<std::string> before, seen, removed;
        for (auto &p : mp) before.insert(p.first);
        note(strf("walk o%d with mjs_next, changing it", i));
        mjs_val_t it = MJS_UNDEFINED, kv;
        size_t turns = 0;
        bool lost = false;  // the property the iterator stands on is gone: the walk may end
        while ((kv = mjs_next(m, o, &it)) != MJS_UNDEFINED) {
          if (++turns > before.size() + 400) {
            if (lost) break;
            failf("the walk does not end");
          }
          std::string k = getstr(m, kv);
          if (!mp.count(k)) failf("the walk visits %s, which is no property", quote(k).c_str());
          if (!seen.insert(k).second && !lost) failf("the walk visits %s twice", quote(k).c_str());
          int w = (int) s.below(8);
          if (w == 0) {
            note("  at " + quote(k) + ": delete it");
            if (mjs_del(m, o, k.data(), k.size()) != 0) failf("mjs_del of a visited property fails");
            mp.erase(k);
            lost = true;
          } else if (w == 1) {
            std::string d = key();
            note("  at " + quote(k) + ": delete " + quote(d));
            if ((mjs_del(m, o, d.data(), d.size()) == 0) != (mp.erase(d) != 0)) failf("mjs_del of %s says otherwise", quote(d).c_str());
            removed.insert(d);
            if (d == k) lost = true;
          } else if (w == 2) {
            std::string d = key();
            MV v = val();
            note("  at " + quote(k) + ": set " + quote(d));
            mjs_set(m, o, d.data(), d.size(), h.to_real(v));
            mp[d] = v;
          }
          if (w < 4 && s.chance(1, 2)) {
            note("  gc");
            mjs_gc(m, (int) s.below(2));
          }
          if (s.chance(1, 4)) mjs_mk_object(m), mjs_set(m, *h.real[i], k.data(), k.size(), mp.count(k) ? h.to_real(mp[k]) : MJS_UNDEFINED), mp.emplace(k, MV::undef());
        }
        if (!lost)
          for (auto &k : before)
            if (!seen.count(k) && !removed.count(k) && mp.count(k)) failf("the walk misses %s", quote(k).c_str());
        c.label("walk with changes");
        break;
      }
      default: {  // many properties
        int n = (int) s.range(20, 300);
        note(strf("o%d: %d numbered properties", i, n));
        for (int q = 0; q < n; q++) {
          std::string k = strf("prop%d", q);
          mjs_set(m, o, k.data(), k.size(), mjs_mk_number(m, q));
          mp[k] = MV::num(q);
        }
        keys.push_back("prop7");
        c.label("many properties");
      }
    }
    nops++;
  }
  void run() {
    note("o0 = new object; o1 = new object");
    h.add(mjs_mk_object(vm.m), false);
    h.add(mjs_mk_object(vm.m), false);
    int n = (int) s.range(3, 45);
    for (int q = 0; q < n; q++) {
      step();
      if (s.chance(1, 4)) h.check_all();
    }
    h.check_all();
    mjs_gc(vm.m, 1);
    h.check_all();
    c.nontrivial = nops >= 8;
    vm.destroy();
  }
};
}  // namespace

void prop_case(Src &s, Case &c) { Run(s, c).run(); }
