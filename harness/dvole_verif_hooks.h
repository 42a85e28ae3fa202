// Definitions of the observation points in distributed_vector_ole.h.
#pragma once
#include <mutex>
#include <string>
#include <vector>
#include "hist.h"
#include "types.h"
namespace dvhook {
struct Expansion {
  int side = -1;            // 0: sender, 1: receiver
  const void *instance = nullptr;
  int64_t rows = 0, cols = 0, nnz = 0, seed_len = 0, mpfss_seed_len = 0;
  uint64_t matrix_hash = 0;
  int64_t min_col = 0, max_col = 0;
  std::vector<uint64_t> row_hist;             // 64 cells over the rows
  std::vector<uint64_t> val_hist;             // 64 cells over the low bits of the coefficients
  std::vector<int64_t> noise_pos;
  std::vector<dv::u128> noise_val;
  std::vector<dv::u128> seed_a, seed_b, mpfss_a, mpfss_b;  // u, v (sender) or w (receiver)
};
struct Store { std::mutex mu; bool on = false, count_only = false; std::vector<Expansion> all; uint64_t counts[2] = {0, 0}; };
inline Store &store() { static Store s; return s; }
// Counts an expansion; returns whether it is to be recorded.
inline bool tally(int side) {
  std::lock_guard<std::mutex> l(store().mu);
  if (store().on) store().counts[side]++;
  return store().on && !store().count_only;
}
template <typename V> std::vector<dv::u128> canon(const V &v) {
  std::vector<dv::u128> r(size_t(v.size()));
  for (int64_t i = 0; i < int64_t(v.size()); i++) r[size_t(i)] = dv::TT<typename V::Scalar>::canon(v[i]);
  return r;
}
template <typename M> void matrix(Expansion &e, const M &m) {
  using T = typename M::Scalar;
  e.rows = m.rows(); e.cols = m.cols(); e.nnz = m.nonZeros();
  e.row_hist.assign(64, 0); e.val_hist.assign(64, 0);
  e.min_col = 1 << 30;
  uint64_t h = 1;
  dv::u128 q = dv::TT<T>::kNtl ? dv::mod().m : dv::TT<T>::bits() == 128 ? dv::u128(0) : dv::u128(1) << (dv::TT<T>::bits() % 128);
  for (int64_t c = 0; c < int64_t(m.outerSize()); c++) {
    int64_t n = 0;
    for (typename M::InnerIterator it(m, c); it; ++it) {
      n++;
      dv::u128 v = dv::TT<T>::canon(it.value());
      h = dv::mix(h ^ uint64_t(v), uint64_t(v >> 64) ^ (uint64_t(it.row()) << 20) ^ uint64_t(c));
      e.row_hist[size_t(dv::Hist::cell(dv::u128(it.row()), dv::u128(e.rows)))]++;
      
      
      size_t cell = size_t(dv::Hist::cell(v, q));
      e.val_hist[cell]++;
    }
    e.min_col = std::min(e.min_col, n); e.max_col = std::max(e.max_col, n);
  }
  e.matrix_hash = h;
}
template <typename M, typename R, typename N>
void sender(const void *inst, const M &m, const R &seed, const R &mseed, const N &noise) {
  if (!tally(0)) return;
  Expansion e;
  e.side = 0; e.instance = inst;
  matrix(e, m);
  e.seed_a = canon(seed.u); e.seed_b = canon(seed.v);
  e.mpfss_a = canon(mseed.u); e.mpfss_b = canon(mseed.v);
  e.seed_len = seed.u.size(); e.mpfss_seed_len = mseed.u.size();
  using T = typename N::Scalar;
  for (int64_t i = 0; i < int64_t(noise.size()); i++) {
    dv::u128 v = dv::TT<T>::canon(noise[i]);
    if (v != 0) { e.noise_pos.push_back(i); e.noise_val.push_back(v); }
  }
  std::lock_guard<std::mutex> l(store().mu);
  store().all.push_back(std::move(e));
}
template <typename M, typename R>
void receiver(const void *inst, const M &m, const R &seed, const R &mseed) {
  if (!tally(1)) return;
  Expansion e;
  e.side = 1; e.instance = inst;
  matrix(e, m);
  e.seed_a = canon(seed.w); e.mpfss_a = canon(mseed.w);
  e.seed_len = seed.w.size(); e.mpfss_seed_len = mseed.w.size();
  std::lock_guard<std::mutex> l(store().mu);
  store().all.push_back(std::move(e));
}
}  // namespace dvhook
#define DVOLE_VERIF_SENDER_EXPANSION(inst, gen, seed, mseed, noise) \
  ::dvhook::sender(inst, gen, seed, mseed, noise)
#define DVOLE_VERIF_RECEIVER_EXPANSION(inst, gen, seed, mseed) \
  ::dvhook::receiver(inst, gen, seed, mseed)
