// One integer decides everything: every random choice of the simulator comes
// from this generator, seeded from (VERIF_SEED, property, run index).
#pragma once
#include <cmath>
#include <cstdint>

struct Rng {
  uint64_t s[2];
  static uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  explicit Rng(uint64_t seed, uint64_t stream = 0) {
    s[0] = mix(seed ^ mix(stream * 0x632be59bd9b4e019ull + 1));
    s[1] = mix(s[0] ^ 0xda3e39cb94b95bdbull);
    if (!s[0] && !s[1]) s[0] = 1;
  }
  uint64_t u64() {
    uint64_t a = s[0], b = s[1];
    s[0] = b;
    a ^= a << 23;
    s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
    return s[1] + b;
  }
  // uniform integer in [lo, hi]
  int64_t in(int64_t lo, int64_t hi) {
    if (hi <= lo) return lo;
    return lo + (int64_t)(u64() % (uint64_t)(hi - lo + 1));
  }
  double u01() { return (double)(u64() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * u01(); }
  bool chance(double p) { return u01() < p; }
  double gauss() {
    double u = u01(), v = u01();
    if (u < 1e-300) u = 1e-300;
    return std::sqrt(-2.0 * std::log(u)) * std::cos(6.283185307179586 * v);
  }
  double logu(double lo, double hi) {  // log-uniform
    return std::exp(uni(std::log(lo), std::log(hi)));
  }
};
