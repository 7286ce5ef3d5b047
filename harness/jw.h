// Minimal JSON line writer and deterministic PRNG shared by the drivers.
#pragma once
#include <cstdint>
#include <cstdio>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <functional>

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 8; ++i) next(); }
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
  uint64_t u(uint64_t n) { return n ? (next() >> 11) % n : 0; }           // [0,n)
  int64_t r(int64_t a, int64_t b) { return a + (int64_t)u((uint64_t)(b - a + 1)); }
  bool p(unsigned percent) { return u(100) < percent; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[u(v.size())]; }
};

// JSON object under construction
struct J {
  std::string s; bool first = true;
  J() : s("{") {}
  J &raw(const char *k, const std::string &v) { if (!first) s += ','; first = false; s += '"'; s += k; s += "\":"; s += v; return *this; }
  J &n(const char *k, int64_t v) { return raw(k, std::to_string(v)); }
  J &b(const char *k, bool v) { return raw(k, v ? "true" : "false"); }
  J &t(const char *k, const std::string &v) { return raw(k, "\"" + v + "\""); }
  std::string str() const { return s + "}"; }
};
template <class C, class F> std::string jarr(const C &c, F f) {
  std::string s = "["; bool first = true;
  for (auto &x : c) { if (!first) s += ','; first = false; s += f(x); }
  return s + "]";
}
template <class C> std::string jnums(const C &c) { return jarr(c, [](const typename C::value_type &x) { return std::to_string(x); }); }
template <class C> std::string jstrs(const C &c) { return jarr(c, [](const typename C::value_type &x) { return "\"" + x + "\""; }); }

struct Stats {
  std::map<std::string, uint64_t> m;
  void add(const std::string &k, uint64_t n = 1) { m[k] += n; }
  void write(const std::string &file) {
    std::ofstream f(file); f << "{"; bool first = true;
    for (auto &x : m) { if (!first) f << ","; first = false; f << "\"" << x.first << "\":" << x.second; }
    f << "}";
  }
};
