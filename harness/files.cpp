// Drives file-backed vectors through generated histories with crashes and failing calls.  usage: files <seed> <dir> fmv|swap <ops>
#include "iohook.h"
#include "jw.h"
#include "Common/FileMappedVector.h"
#include <iomanip>
#include <iostream>
#include <boost/variant.hpp>
#include "Serialization/ISerializer.h"
#include "Serialization/SerializationOverloads.h"
#include "CryptoNoteCore/SwappedVector.h"
#include <memory>
using namespace common;
typedef std::vector<int> V;
struct E1 { uint8_t v; static E1 mk(int x) { return {(uint8_t)x}; } int get() const { return v; } };
struct E24 { uint32_t v; uint32_t c[5]; static E24 mk(int x) { E24 e; e.v = x; for (int i = 0; i < 5; ++i) e.c[i] = x * 2654435761u + i; return e; } int get() const { E24 o = mk(v); return memcmp(&o, this, sizeof o) ? -1 : (int)v; } };
static bool tolerant(const std::function<void()> &f) { try { f(); return true; } catch (const std::exception &) { return false; } }

template <class T> struct Fmv {
  typedef FileMappedVector<T> FM; Rng rng; std::string dir, sc; std::ofstream out; Stats st; std::unique_ptr<FM> o[2]; int at[2] = {0, 0}; std::map<int, int> psz, ever; int names = 0, next = 0; bool flush = true; int nev = 0;
  std::vector<io::Files> lastSnaps;
  Fmv(uint64_t seed, const std::string &d) : rng(seed), dir(d + "/d"), sc(d + "/r"), out(d + "/t.ndjson") { mkdir(dir.c_str(), 0700); mkdir(sc.c_str(), 0700); io::dir = dir; for (auto &x : o) x.reset(new FM); }
  std::string path(const std::string &d, int n) { return d + "/v" + std::to_string(n); }
  static V bytes(const uint8_t *p, uint64_t n) { V v; for (uint64_t i = 0; i < n; ++i) v.push_back(p[i]); return v; }
  static std::string content(FM &f, bool &agree) {
    V d; const FM &c = f; uint64_t n = c.size(); for (uint64_t i = 0; i < n; ++i) d.push_back(c[i].get()); agree = c.empty() == (n == 0) && f.size() == n && c.capacity() >= n; uint64_t k = 0; for (auto it = c.begin(); it != c.end(); ++it, ++k) agree = agree && k < n && it->get() == d[k] && it.index() == k; agree = agree && k == n; k = 0; for (auto it = f.begin(); it != f.end(); it++, ++k) agree = agree && k < n && (*it).get() == d[k]; agree = agree && c.cend() - c.cbegin() == (ptrdiff_t)n;
    for (k = 0; k < n; ++k) agree = agree && c.at(k).get() == d[k] && c.data()[k].get() == d[k]; if (n) agree = agree && c.front().get() == d[0] && c.back().get() == d[n - 1] && f.front().get() == d[0] && f.back().get() == d[n - 1]; bool thrown = !tolerant([&] { f.at(n); }) && !tolerant([&] { c.at(n + 7); }); agree = agree && thrown;
    return "{\"d\":" + jnums(d) + ",\"p\":" + jnums(bytes(c.prefix(), c.prefixSize())) + ",\"s\":" + jnums(bytes(c.suffix(), c.suffixSize())) + "}";
  }
  // what a new process finds: for every name, the contents under each prefix size it may try
  std::string recover(const io::Files &f, const std::vector<int> &tries) {
    std::set<int> ns; for (auto &x : f) { size_t e = x.first.find('.'); ns.insert(atoi(x.first.substr(1, e == std::string::npos ? e : e - 1).c_str())); } std::string r = "[";
    bool first = true; for (int n : ns) { std::vector<std::string> alt; bool any = false; std::set<int> ps(tries.begin(), tries.end()); if (ps.empty()) ps.insert(psz.count(n) ? psz[n] : 0); else if (psz.count(n)) ps.insert(psz[n]);
      for (int p : ps) { io::clean(sc); io::put(sc, f); FM v; bool ag = true; std::string c; bool exists = access(path(sc, n).c_str(), F_OK) == 0 || access((path(sc, n) + ".bak").c_str(), F_OK) == 0; if (!exists) continue; any = true; if (tolerant([&] { v.open(path(sc, n), rng.p(50) ? FileMappedVectorOpenMode::OPEN : FileMappedVectorOpenMode::OPEN_OR_CREATE, p); c = content(v, ag); }) && ag) alt.push_back(c); }
      if (any) { r += (first ? "[" : ",[") + std::to_string(n) + "," + jarr(alt, [](const std::string &s) { return s; }) + "]"; first = false; } }
    return r + "]";
  }
  void emit(J &j, bool ok, const std::string &what, const std::vector<int> &tries, bool crash = true) {
    io::on = false; j.b("ok", ok).b("failed", io::failed > 0).t("what", what);
    std::vector<std::string> rs; if (crash) { std::vector<io::Files> s = io::snaps; s.push_back(io::look(dir)); std::set<std::string> seen; for (auto &f : s) { std::string r = recover(f, tries); if (seen.insert(r).second) rs.push_back(r); st.add("crash_points"); } } lastSnaps = io::snaps; if (tries.size() > 1) lastSnaps.clear(); for (auto &x : psz) ever[x.first] = x.second;
    j.raw("crash", jarr(rs, [](const std::string &s) { return s; }));
    std::string os = "["; for (int k = 0; k < 2; ++k) { if (k) os += ","; if (!o[k]->isOpened()) os += "[]"; else { bool ag; std::string c = content(*o[k], ag); os += "[" + c + "," + (ag ? "true" : "false") + "," + std::to_string(o[k]->capacity()) + "]"; } } j.raw("o", os + "]"); out << j.str() << "\n"; out.flush(); ++nev; io::snaps.clear();
  }
  bool act(const std::function<void()> &f, std::string &what, bool step = false, int k = 0) {
    io::snaps.clear(); io::count = io::failed = io::calls = 0; io::failAt = rng.p(18) ? (int)rng.r(1, 14) : 0; io::failMode = rng.p(25); bool ok = true; io::on = true; io::point();
    try { if (step && !io::failAt) { const uint8_t *b = o[k]->prefix(); size_t n = (const uint8_t *)o[k]->suffix() - b; io::stepped(b, n, f); st.add("stepped"); } else f(); } catch (const std::exception &e) { ok = false; what = e.what(); for (auto &c : what) if (c == '"' || c == '\\' || (unsigned char)c < 32 || (unsigned char)c > 126) c = '.'; }
    io::on = false; io::failAt = 0; st.add(ok ? "ops" : "ops_failed"); return ok;
  }
  void run(int ops) {
    { J j; j.t("op", "init"); std::string w; emit(j, true, "", {}); }
    for (int q = 0; q < ops; ++q) {
      int k = (int)rng.u(2); FM &v = *o[k]; std::string w; J j; j.n("k", k + 1); std::vector<int> tries; bool ok;
      if (!v.isOpened()) {
        std::vector<int> free; for (auto &x : psz) if (at[1 - k] != x.first) free.push_back(x.first); bool fresh = free.empty() || rng.p(25); int n = fresh ? ++names : free[rng.u(free.size())]; int p = fresh ? (int)rng.u(3) * (int)rng.u(9) : psz[n]; int m = (int)rng.u(3);
        FileMappedVectorOpenMode mode = m == 0 ? FileMappedVectorOpenMode::OPEN : m == 1 ? FileMappedVectorOpenMode::CREATE : FileMappedVectorOpenMode::OPEN_OR_CREATE; if (fresh) psz[n] = p;
        ok = act([&] { v.open(path(dir, n), mode, p); }, w); at[k] = v.isOpened() ? n : 0; if (ok) v.setAutoFlush(flush); if (!ok) o[k].reset(new FM); bool ex = access(path(dir, n).c_str(), F_OK) == 0 || access((path(dir, n) + ".bak").c_str(), F_OK) == 0; if (!ex) psz.erase(n);
        j.t("op", "open").n("n", n).n("pz", p).n("m", m); emit(j, ok, w, {p}); if (!ok) at[k] = 0; continue;
      }
      uint64_t n = v.size(); unsigned x = rng.u(100); bool step = rng.p(25);
      if (x < 26) { bool self = n && rng.p(15); uint64_t i = self ? rng.u(n) : 0; int val = self ? v[i].get() : next = (next + 1) % 251; T e = T::mk(val); bool grow = v.size() == v.capacity(); ok = act([&] { if (self) v.push_back(v[i]); else v.push_back(e); }, w, step && !grow, k); j.t("op", "push").n("v", val); emit(j, ok, w, tries); }
      else if (x < 36) { if (!n) continue; ok = act([&] { v.pop_back(); }, w, step, k); j.t("op", "pop"); emit(j, ok, w, tries); }
      else if (x < 38) { ok = act([&] { v.clear(); }, w, step, k); j.t("op", "clear"); emit(j, ok, w, tries); }
      else if (x < 50) { uint64_t pos = rng.u(n + 1); V vals; std::vector<T> es; int c = (int)rng.u(5); bool one = rng.p(40); if (one) c = 1; for (int i = 0; i < c; ++i) { next = (next + 1) % 251; vals.push_back(next); es.push_back(T::mk(next)); } if (one && n && rng.p(20)) { uint64_t i = rng.u(n); vals[0] = v[i].get(); uint64_t r = 0; ok = act([&] { r = v.insert(v.cbegin() + pos, v[i]).index(); }, w); j.n("ret", (int64_t)r); } else { uint64_t r = 0; ok = act([&] { r = (one ? v.insert(v.cbegin() + pos, es[0]) : v.insert(v.cbegin() + pos, es.begin(), es.end())).index(); }, w); j.n("ret", (int64_t)r); }
        j.t("op", "insert").n("i", (int64_t)pos).raw("vs", jnums(vals)); emit(j, ok, w, tries); }
      else if (x < 60) { if (!n) continue; uint64_t a = rng.u(n), b = rng.p(50) ? a + 1 : a + rng.u(n - a + 1); uint64_t r = 0; bool one = b == a + 1 && rng.p(60); ok = act([&] { r = (one ? v.erase(v.cbegin() + a) : v.erase(v.cbegin() + a, v.cbegin() + b)).index(); }, w); j.n("ret", (int64_t)r); j.t("op", "erase").n("a", (int64_t)a).n("b", (int64_t)b); emit(j, ok, w, tries); }
      else if (x < 64) { uint64_t c = rng.u(30); ok = act([&] { v.reserve(c); }, w); j.t("op", "reserve").n("n", (int64_t)c); emit(j, ok, w, tries); }
      else if (x < 68) { ok = act([&] { v.shrink_to_fit(); }, w); j.t("op", "shrink"); emit(j, ok, w, tries); }
      else if (x < 73) { if (!n) continue; uint64_t i = rng.u(n); next = (next + 1) % 251; v[i] = T::mk(next); j.t("op", "set").n("i", (int64_t)i).n("v", next); emit(j, true, "", tries, false); }
      else if (x < 77) { bool pre = rng.p(50); uint64_t c = pre ? v.prefixSize() : v.suffixSize(); if (!c) continue; uint64_t i = rng.u(c); int b = (int)rng.u(256); (pre ? v.prefix() : v.suffix())[i] = (uint8_t)b; j.t("op", pre ? "setp" : "sets").n("i", (int64_t)i).n("v", b); emit(j, true, "", tries, false); }
      else if (x < 81) { uint64_t c = rng.u(12); int old = (int)v.prefixSize(); ok = act([&] { v.resizePrefix(c); }, w); psz[at[k]] = (int)v.prefixSize(); tries = {old, (int)c}; j.t("op", "resp").n("n", (int64_t)c); emit(j, ok, w, tries); }
      else if (x < 85) { uint64_t c = rng.u(12); ok = act([&] { v.resizeSuffix(c); }, w); j.t("op", "ress").n("n", (int64_t)c); emit(j, ok, w, tries); }
      else if (x < 88) { bool bad = rng.p(40); V vals; std::vector<T> es; int c = (int)rng.u(std::min<uint64_t>(v.capacity(), 6) + 1); for (int i = 0; i < c; ++i) { next = (next + 1) % 251; vals.push_back(next); es.push_back(T::mk(next)); } V pv; for (uint64_t i = 0; i < v.prefixSize(); ++i) pv.push_back((int)rng.u(256)); V sv; for (uint64_t i = 0; i < v.suffixSize(); ++i) sv.push_back((int)rng.u(256));
        ok = act([&] { v.atomicUpdate([&](FM &t) { for (size_t i = 0; i < pv.size(); ++i) t.prefix()[i] = pv[i]; for (size_t i = 0; i < es.size(); ++i) { if (bad && i == es.size() / 2) throw std::runtime_error("changed my mind"); t.push_back(es[i]); } if (bad) throw std::runtime_error("changed my mind"); for (size_t i = 0; i < sv.size(); ++i) t.suffix()[i] = sv[i]; }); }, w);
        j.t("op", "update").b("bad", bad).raw("vs", jnums(vals)).raw("ps", jnums(pv)).raw("ss", jnums(sv)); emit(j, ok, w, tries); }
      else if (x < 90) { if (access((path(dir, at[k]) + ".bak").c_str(), F_OK) == 0) continue; /* could not be removed earlier, the name is still taken */ int to = ++names; bool ec = rng.p(50); std::error_code c; tries = {psz[at[k]]}; psz[to] = psz[at[k]]; ok = act([&] { if (ec) v.rename(path(dir, to), c); else v.rename(path(dir, to)); }, w); if (ec && c) ok = false; j.t("op", "rename").n("to", to); if (ok) { psz.erase(at[k]); at[k] = to; } emit(j, ok, w, tries); if (!ok) psz.erase(to); }
      else if (x < 92) { o[0]->swap(*o[1]); std::swap(at[0], at[1]); j.t("op", "swap"); emit(j, true, "", tries); }
      else if (x < 94) { flush = rng.p(70); v.setAutoFlush(flush); ok = act([&] { v.flush(); }, w); j.t("op", "flush"); emit(j, ok, w, tries); }
      else if (x < 97) { std::error_code c; bool ec = rng.p(50); ok = act([&] { if (ec) v.close(c); else v.close(); }, w); if (ec && c) ok = false; if (ok) at[k] = 0; j.t("op", "close"); emit(j, ok, w, tries); }
      else { // the process died during the previous operation: another one starts from what it left
        std::vector<io::Files> s = lastSnaps; s.push_back(io::look(dir)); io::Files f = s[rng.u(s.size())]; for (auto &p : o) p.reset(new FM); at[0] = at[1] = 0; io::clean(dir); io::put(dir, f); std::map<int, int> np; for (auto &y : f) { size_t e = y.first.find('.'); if (e != std::string::npos && y.first.substr(e) == ".tmp") continue; int id = atoi(y.first.substr(1, e == std::string::npos ? e : e - 1).c_str()); np[id] = ever[id]; }
        psz = np; J j2; j2.n("k", 1).t("op", "died"); st.add("crashes"); emit(j2, true, "", {}); }
    }
    for (auto &x : o) x.reset(); io::clean(dir); io::clean(sc); rmdir(dir.c_str()); rmdir(sc.c_str()); st.add("events", nev);
  }
};

struct Item { int v, n; };
static void serialize(Item &i, cn::ISerializer &s) { uint32_t v = i.v, n = i.n; std::string pad(n, (char)('a' + v % 26)); s(v, "v"); s(pad, "p"); if (s.type() == cn::ISerializer::INPUT) { i.v = v; i.n = (int)pad.size(); for (char c : pad) if (c != (char)('a' + v % 26)) i.v = -1; } }
struct Swap {
  Rng rng; std::string dir, sc; std::ofstream out; Stats st; typedef SwappedVector<Item> SV; std::unique_ptr<SV> v; int next = 0, nev = 0; std::vector<io::Files> last; size_t pool;
  Swap(uint64_t seed, const std::string &d) : rng(seed), dir(d + "/d"), sc(d + "/r"), out(d + "/t.ndjson") { mkdir(dir.c_str(), 0700); mkdir(sc.c_str(), 0700); io::dir = dir; pool = 1 + rng.u(6); std::cout.rdbuf(nullptr); }
  static std::string content(SV &v, bool &ok) { std::vector<std::string> r; ok = true; uint64_t n = v.size(); if (v.empty() != (n == 0)) ok = false; try { for (uint64_t i = 0; i < n; ++i) { const Item &x = v[i]; r.push_back("[" + std::to_string(x.v) + "," + std::to_string(x.n) + "]"); } uint64_t k = 0; for (auto it = v.begin(); it != v.end(); ++it, ++k) if (std::to_string(it->v) != r[k].substr(1, r[k].find(',') - 1)) ok = false; if (k != n) ok = false; if (n && (v.back().n != v[n - 1].n || v.front().v != v[0].v)) ok = false; } catch (const std::exception &) { ok = false; } return jarr(r, [](const std::string &s) { return s; }); }
  std::string recover(const io::Files &f) { io::clean(sc); io::put(sc, f); SV w; bool ok = w.open(sc + "/items", sc + "/idx", 1 + rng.u(5)); if (!ok) return "[false,[]]"; bool ag; std::string c = content(w, ag); return std::string("[") + (ag ? "true," : "false,") + c + "]"; }
  void emit(J &j, bool ok, bool crash = true) { io::on = false; j.b("ok", ok); std::set<std::string> s; if (crash) { auto z = io::snaps; z.push_back(io::look(dir)); for (auto &f : z) { s.insert(recover(f)); st.add("crash_points"); } } last = io::snaps; j.raw("crash", jarr(s, [](const std::string &x) { return x; })); if (v) { bool ag; std::string c = content(*v, ag); j.raw("d", c).b("ag", ag); } out << j.str() << "\n"; out.flush(); ++nev; io::snaps.clear(); }
  bool act(const std::function<void()> &f) { io::snaps.clear(); io::failAt = 0; io::on = true; io::point(); bool ok = tolerant(f); io::on = false; return ok; }
  void run(int ops) {
    { J j; j.t("op", "init"); emit(j, true, false); }
    for (int q = 0; q < ops; ++q) { J j; unsigned x = rng.u(100);
      if (!v) { v.reset(new SV); bool r = false; bool ok = act([&] { r = v->open(dir + "/items", dir + "/idx", pool); }); j.t("op", "open"); emit(j, ok && r, access((dir + "/idx").c_str(), F_OK) == 0 && q > 0); if (!(ok && r)) v.reset(); continue; }
      if (x < 50) { Item it{++next, (int)rng.u(rng.p(10) ? 9000 : 40)}; bool ok = act([&] { v->push_back(it); }); j.t("op", "push").n("v", it.v).n("n", it.n); emit(j, ok); st.add("push"); }
      else if (x < 75) { if (v->empty()) continue; bool ok = act([&] { v->pop_back(); }); j.t("op", "pop"); emit(j, ok); st.add("pop"); }
      else if (x < 79) { bool ok = act([&] { v->clear(); }); j.t("op", "clear"); emit(j, ok); st.add("clear"); }
      else if (x < 88) { for (int k = 0; k < 6 && !v->empty(); ++k) (*v)[rng.u(v->size())]; bool ok = !tolerant([&] { (*v)[v->size()]; }); j.t("op", "get"); emit(j, ok); }
      else if (x < 94) { bool ok = act([&] { v.reset(); }); j.t("op", "close"); emit(j, ok); st.add("close"); }
      else { auto s = last; s.push_back(io::look(dir)); io::Files f = s[rng.u(s.size())]; v.reset(); io::clean(dir); io::put(dir, f); io::snaps.clear(); j.t("op", "died"); emit(j, true); st.add("crashes"); }
    }
    v.reset(); io::clean(dir); io::clean(sc); rmdir(dir.c_str()); rmdir(sc.c_str()); st.add("events", nev);
  }
};

int main(int argc, char **argv) {
  if (argc < 5) return 2; uint64_t seed = strtoull(argv[1], 0, 10); std::string d = argv[2];
  if (std::string(argv[3]) == "fmv") { if (seed % 2) { Fmv<E24> f(seed, d); f.run(atoi(argv[4])); f.st.write(d + "/stats.json"); } else { Fmv<E1> f(seed, d); f.run(atoi(argv[4])); f.st.write(d + "/stats.json"); } }
  else { Swap s(seed, d); s.run(atoi(argv[4])); s.st.write(d + "/stats.json"); }
  return 0;
}
