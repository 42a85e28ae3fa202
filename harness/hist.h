#pragma once
#include "common.h"
namespace dv {
// Histogram of values in [0, q) over at most 64 cells, with exact expectations,
// summable over different q. q == 0 means 2^128.
struct Hist {
  double obs[64] = {0}, exp[64] = {0};
  double n = 0;
  static int cells(u128 q) { return q != 0 && q < 64 ? int(q) : 64; }
  static int cell(u128 v, u128 q) {
    if (q != 0 && q < 64) return int(v);
    if (q != 0 && q < (u128(1) << 100)) return int(v * 64 / q);
    double f = double(v) / (q == 0 ? std::exp2(128) : double(q));
    int c = int(f * 64);
    return c > 63 ? 63 : c;
  }
  static double frac(int c, u128 q) {
    if (q != 0 && q < 64) return 1.0 / double(q);
    if (q == 0 || q > (u128(1) << 40)) return 1.0 / 64;
    uint64_t Q = uint64_t(q);
    auto lo = [&](uint64_t k) { return uint64_t((u128(k) * Q + 63) / 64); };
    return double(lo(uint64_t(c) + 1) - lo(uint64_t(c))) / double(Q);
  }
  void add_all(const std::vector<u128> &v, u128 q) {
    if (v.empty()) return;
    for (u128 x : v) obs[cell(x, q)]++;
    for (int c = 0; c < cells(q); c++) exp[c] += double(v.size()) * frac(c, q);
    n += double(v.size());
  }
  // add pre-binned counts (binned with cell())
  void add_counts(const std::vector<uint64_t> &h, u128 q) {
    double s = 0;
    for (auto x : h) s += double(x);
    for (size_t c = 0; c < h.size() && c < 64; c++) obs[c] += double(h[c]);
    for (int c = 0; c < cells(q); c++) exp[c] += s * frac(c, q);
    n += s;
  }
  double z() const {
    double x = 0; int df = -1;
    for (int c = 0; c < 64; c++) if (exp[c] > 0) {
      if (exp[c] < 5) return 0;  // too little data to judge
      x += (obs[c] - exp[c]) * (obs[c] - exp[c]) / exp[c];
      df++;
    }
    // cells that can never occur
    for (int c = 0; c < 64; c++) if (exp[c] == 0 && obs[c] > 0) return 1e9;
    return df < 1 ? 0 : chi2_z(x, df);
  }
};
// Per-bit balance of values uniform over a power of two (or wide enough).
struct Bits {
  double ones[128] = {0}, n[128] = {0};
  void add_all(const std::vector<u128> &v, int nbits) {
    for (u128 x : v) for (int i = 0; i < nbits; i++) ones[i] += double((x >> i) & 1);
    for (int i = 0; i < nbits; i++) n[i] += double(v.size());
  }
  double z(int *bit) const {
    double m = 0;
    for (int i = 0; i < 128; i++) if (n[i] >= 64) {
      double k = std::fabs(ones[i] - n[i] / 2) / std::sqrt(n[i] / 4);
      if (k > m) { m = k; *bit = i; }
    }
    return m;
  }
};
}  // namespace dv
