// Drives cn::PeerlistManager with random histories and records what it shows after each call.
#include "jw.h"
#include <set>
#include <list>
#include <algorithm>
#include "P2p/PeerListManager.h"
#include "Serialization/BinaryOutputStreamSerializer.h"
#include "Serialization/BinaryInputStreamSerializer.h"
#include "Common/StdInputStream.h"
#include "Common/StdOutputStream.h"
#include "Serialization/SerializationOverloads.h"
using namespace cn;
extern "C" time_t g_virtual_time;
static const int64_t T0 = 1600000000;

struct Drv {
  Rng rng; std::ofstream out; PeerlistManager *pm; bool allowLocal; int N; bool big;
  std::vector<NetworkAddress> addr; std::map<std::pair<uint32_t,uint32_t>, int> idOf; std::vector<int> cls;
  std::map<int, std::pair<int64_t,int64_t>> w, g; // last observed
  Stats st; int64_t uniq = 1;
  Drv(uint64_t seed, const std::string &f, bool big_) : rng(seed), out(f), big(big_) {
    allowLocal = rng.p(40);
    N = big ? 6600 : (int)rng.r(6, 16);
    for (int i = 0; i < N; ++i) {
      uint8_t a, b; int c = 0;
      unsigned q = big ? rng.u(30) : rng.u(10);
      uint32_t lo = (uint32_t)(i + 1);
      if (q == 0) { a = 127; b = (uint8_t)rng.u(256); c = 1; }
      else if (q == 1) { c = 2; switch (rng.u(3)) { case 0: a = 10; b = (uint8_t)rng.u(256); break; case 1: a = 172; b = (uint8_t)(16 + rng.u(16)); break; default: a = 192; b = 168; } }
      else { // public, including near misses of the private ranges
        switch (rng.u(6)) { case 0: a = 172; b = rng.p(50) ? 15 : 32; break; case 1: a = 192; b = rng.p(50) ? 167 : 169; break; case 2: a = rng.p(50) ? 126 : 128; b = 1; break;
          case 3: a = rng.p(50) ? 9 : 11; b = 7; break; default: a = (uint8_t)(20 + rng.u(80)); b = (uint8_t)rng.u(256); } }
      NetworkAddress x; uint8_t *p = (uint8_t *)&x.ip; p[0] = a; p[1] = b; p[2] = (uint8_t)(lo >> 8); p[3] = (uint8_t)lo;
      if (!big && i && rng.p(15)) { x.ip = addr[i - 1].ip; c = cls[i - 1]; }
      x.port = 1000 + i; addr.push_back(x); cls.push_back(c); idOf[{x.ip, x.port}] = i + 1;
    }
    pm = new PeerlistManager(); pm->init(allowLocal);
    out << J().t("op", "init").b("local", allowLocal).n("n", N).n("wl", 1000).n("gl", 5000).raw("cls", jnums(cls)).str() << "\n";
  }
  PeerlistEntry ent(int id, int64_t seen) { PeerlistEntry e; e.adr = addr[id - 1]; e.id = 100 + rng.u(50); e.last_seen = (uint64_t)seen; return e; }
  std::string row(int id, const std::pair<int64_t,int64_t> &v) { return "[" + std::to_string(id) + "," + std::to_string(v.first) + "," + std::to_string(v.second) + "]"; }
  std::string rows(const std::list<PeerlistEntry> &l) { return jarr(l, [&](const PeerlistEntry &e) { return "[" + std::to_string(lookup(e.adr)) + "," + std::to_string((int64_t)e.last_seen) + "," + std::to_string((int64_t)e.id) + "]"; }); }
  int lookup(const NetworkAddress &a) { auto it = idOf.find({a.ip, a.port}); return it == idOf.end() ? 0 : it->second; }
  void delta(J &j, const char *add, const char *rem, const char *dup, std::map<int, std::pair<int64_t,int64_t>> &old, const std::list<PeerlistEntry> &now) {
    std::map<int, std::pair<int64_t,int64_t>> n; int dups = 0;
    for (auto &e : now) { int id = lookup(e.adr); if (!id || n.count(id)) ++dups; n[id] = {(int64_t)e.last_seen, (int64_t)e.id}; }
    std::vector<std::string> a; std::vector<int> r;
    for (auto &x : n) { auto it = old.find(x.first); if (it == old.end() || it->second != x.second) a.push_back(row(x.first, x.second)); }
    for (auto &x : old) if (!n.count(x.first)) r.push_back(x.first);
    j.raw(add, jarr(a, [](const std::string &s) { return s; })).raw(rem, jnums(r)).n(dup, dups);
    old.swap(n);
  }
  void emit(J &j, bool full = true) {
    if (full) {
      std::list<PeerlistEntry> lg, lw; pm->get_peerlist_full(lg, lw);
      bool sorted = true; int64_t prev = INT64_MAX;
      for (auto &e : lw) { if ((int64_t)e.last_seen > prev) sorted = false; prev = e.last_seen; }
      prev = INT64_MAX; for (auto &e : lg) { if ((int64_t)e.last_seen > prev) sorted = false; prev = e.last_seen; }
      delta(j, "wadd", "wrem", "wdup", w, lw); delta(j, "gadd", "grem", "gdup", g, lg);
      j.n("wc", pm->get_white_peers_count()).n("gc", pm->get_gray_peers_count()).b("sorted", sorted);
    }
    out << j.str() << "\n";
  }
  int64_t seenVal() { if (big) return 1 + (int64_t)((uniq++ * 7919) % 1000003); return rng.p(15) ? 0 : rng.r(1, 12); }
  void run(int steps) {
    for (int k = 0; k < steps; ++k) {
      unsigned q = rng.u(100);
      if (big && k == 0) q = 40; // a huge merge first
      if (big && (k == 1 || q == 0)) { // many verified peers in a row
        std::vector<int> c; for (int id = 1; id <= N; ++id) if (!w.count(id)) c.push_back(id); for (size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[rng.u(i)]);
        c.resize(std::min<size_t>(c.size(), k == 1 ? rng.r(900, 1100) : rng.r(1, 80))); std::list<PeerlistEntry> l; bool r = true; size_t top = 0;
        for (int id : c) { l.push_back(ent(id, seenVal())); r = pm->append_with_peer_white(l.back()) && r; top = std::max(top, pm->get_white_peers_count()); }
        J j; j.t("op", "whitenew").raw("l", rows(l)).b("ret", r).n("top", top); emit(j); st.add("append_white", c.size()); }
      else if (big && (k == 2 || q == 1)) { // unverified addresses announced one after another, past the limit
        std::vector<int> c; for (int id = 1; id <= N; ++id) if (!g.count(id)) c.push_back(id); for (size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[rng.u(i)]);
        size_t room = 5000 - std::min<size_t>(5000, g.size()); c.resize(std::min<size_t>(c.size(), room + rng.r(1, 60) + w.size())); std::list<PeerlistEntry> l; bool r = true; size_t top = 0;
        for (int id : c) { l.push_back(ent(id, seenVal())); r = pm->append_with_peer_gray(l.back()) && r; top = std::max(top, pm->get_gray_peers_count()); }
        J j; j.t("op", "mergenew").raw("l", rows(l)).b("ret", r).n("top", top); emit(j); st.add("append_gray", c.size()); }
      else if (q < 20) { int id = rng.r(1, N); auto e = ent(id, seenVal()); J j; j.t("op", "white").n("a", id).n("s", e.last_seen).n("p", e.id); j.b("ret", pm->append_with_peer_white(e)); emit(j); st.add("append_white"); }
      else if (q < 30) { int id = rng.r(1, N); auto e = ent(id, seenVal()); J j; j.t("op", "gray").n("a", id).n("s", e.last_seen).n("p", e.id); j.b("ret", pm->append_with_peer_gray(e)); emit(j); st.add("append_gray"); }
      else if (q < 38) { int id = rng.r(1, N); int64_t s = big ? seenVal() : rng.r(1, 12); g_virtual_time = s; uint64_t pid = 100 + rng.u(50); J j; j.t("op", "white").n("a", id).n("s", s).n("p", pid);
        j.b("ret", rng.p(50) ? pm->set_peer_just_seen(pid, addr[id - 1]) : pm->set_peer_just_seen(pid, addr[id - 1].ip, addr[id - 1].port)); emit(j); st.add("just_seen"); }
      else if (q < 48) { std::list<PeerlistEntry> l; bool fresh = false;
        if (big && (k == 0 || rng.p(30))) { std::vector<int> c; for (int id = 1; id <= N; ++id) if (!g.count(id)) c.push_back(id); for (size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[rng.u(i)]);
          size_t m = k == 0 ? (size_t)rng.r(4800, 5400) : (size_t)rng.r(100, 600); if (c.size() > m) c.resize(m); for (int id : c) l.push_back(ent(id, seenVal())); fresh = true; st.add("merge_big"); }
        else { int m = rng.r(0, 8); for (int i = 0; i < m; ++i) l.push_back(ent(rng.r(1, N), seenVal())); st.add("merge_small"); }
        J j; j.t("op", fresh ? "mergenew" : "merge").raw("l", rows(l)); j.b("ret", pm->merge_peerlist(l)); emit(j); }
      else if (q < 62) { uint32_t d = big ? rng.r(0, 1200) : rng.r(0, 12); bool def = rng.p(30); std::list<PeerlistEntry> l; bool r = def ? pm->get_peerlist_head(l) : pm->get_peerlist_head(l, d);
        J j; j.t("op", "head").n("d", def ? 250 : d).raw("l", rows(l)).b("ret", r); emit(j, false); st.add("head"); }
      else if (q < 70) { bool white = rng.p(50); size_t n = white ? pm->get_white_peers_count() : pm->get_gray_peers_count(); size_t i = rng.u(n + 2); PeerlistEntry e{}; bool r = white ? pm->get_white_peer_by_index(e, i) : pm->get_gray_peer_by_index(e, i);
        J j; j.t("op", "index").b("w", white).n("k", i).b("ret", r).n("a", r ? lookup(e.adr) : 0).n("s", r ? e.last_seen : 0); emit(j, false); st.add("by_index"); }
      else if (q < 78) { int id = rng.r(1, std::min(N, 12)); AnchorPeerlistEntry e; e.adr = addr[id - 1]; e.id = 100 + rng.u(50); e.first_seen = rng.r(0, 12); J j; j.t("op", "anchor").n("a", id).n("s", e.first_seen).n("p", e.id); j.b("ret", pm->append_with_peer_anchor(e)); emit(j, !big); st.add("anchor_add"); }
      else if (q < 82) { int id = rng.r(1, std::min(N, 12)); J j; j.t("op", "unanchor").n("a", id); j.b("ret", pm->remove_from_peer_anchor(addr[id - 1])); emit(j, !big); st.add("anchor_remove"); }
      else if (q < 86) { std::vector<AnchorPeerlistEntry> v; bool r = pm->get_and_empty_anchor_peerlist(v); J j; j.t("op", "takeanchors").b("ret", r).raw("l", jarr(v, [&](const AnchorPeerlistEntry &e) { return "[" + std::to_string(lookup(e.adr)) + "," + std::to_string(e.first_seen) + "," + std::to_string((int64_t)e.id) + "]"; })); emit(j, !big); st.add("anchor_take"); }
      else if (q < 92) { std::stringstream ss; { common::StdOutputStream os(ss); BinaryOutputStreamSerializer s(os); pm->serialize(s); }
        delete pm; pm = new PeerlistManager(); pm->init(allowLocal); { common::StdInputStream is(ss); BinaryInputStreamSerializer s(is); pm->serialize(s); } J j; j.t("op", "reload"); emit(j); st.add("reload"); }
      else if (q < 96) { pm->trim_gray_peerlist(); pm->trim_white_peerlist(); J j; j.t("op", "trim"); emit(j); st.add("trim"); }
      else { int id = rng.r(1, N); J j; j.t("op", "allowed").n("a", id).b("ret", pm->is_ip_allowed(addr[id - 1].ip)); emit(j, false); st.add("allowed"); }
    }
    J j; j.t("op", "trim"); pm->trim_gray_peerlist(); emit(j);
  }
};
int main(int argc, char **argv) { // seed dir mode steps
  bool big = std::string(argv[3]) == "big"; std::string dir = argv[2];
  Drv d(strtoull(argv[1], 0, 10), dir + "/t.ndjson", big); d.run(atoi(argv[4])); d.st.write(dir + "/stats.json"); return 0;
}
