// Common utilities of the simulator: PRNG, hashing, text helpers.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <functional>
#include <memory>
#include <algorithm>

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int below(int n) { return n <= 0 ? 0 : static_cast<int>(next() % static_cast<uint64_t>(n)); }
  int range(int lo, int hi) { return lo + below(hi - lo + 1); }
  bool chance(int num, int den) { return below(den) < num; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below((int)v.size())]; }
};

struct Hash {
  uint64_t h = 1469598103934665603ull;
  void bytes(const void *p, size_t n) {
    const unsigned char *c = static_cast<const unsigned char *>(p);
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  }
  void i(long long v) { bytes(&v, sizeof v); }
  void d(double v) { if (v == 0.0) v = 0.0; bytes(&v, sizeof v); }
  void s(const std::string &v) { bytes(v.data(), v.size()); i((long long)v.size()); }
};

inline std::string num(double v) {
  char b[64];
  if (v == (double)(long long)v && fabs(v) < 1e15) snprintf(b, sizeof b, "%lld", (long long)v);
  else snprintf(b, sizeof b, "%.17g", v);
  return b;
}
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
#include <cstdarg>
inline std::string fmt(const char *f, ...) {
  va_list ap; va_start(ap, f); char b[4096]; vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
const double INF = 1e30; // textual infinity
const double BIG = 1.0e100;
