// Stand-in for emp-ot: ideal OT functionality over dvlink, with the same calls.
#pragma once
#include <emmintrin.h>
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <iostream>
#include <memory>
#include <numeric>
#include <string>
#include <thread>
#include <vector>
#include "dv_link.h"
using namespace std;
namespace emp {
typedef __m128i block;
inline block makeBlock(int64_t high, int64_t low) { return _mm_set_epi64x(high, low); }
inline block zero_block() { return _mm_setzero_si128(); }
inline void initialize_relic() {}
template <typename IO>
class SHOTExtension {
 public:
  explicit SHOTExtension(IO *io) : io_(io) {}
  void send(const block *d0, const block *d1, int n) {
    io_->link()->ot_send(io_->side(), io_->box(), io_->stream(), false, n,
        [&](int64_t i, block *a, block *b) { *a = d0[i]; *b = d1[i]; });
  }
  void recv(block *out, const bool *b, int n) {
    io_->link()->ot_recv(io_->side(), io_->box(), io_->stream(), false, out, b, n);
  }
  template <typename F>
  void send_cot_ft(block *d0, F correlator, int n) {
    io_->link()->ot_send(io_->side(), io_->box(), io_->stream(), true, n,
        [&](int64_t i, block *a, block *b) {
          d0[i] = io_->link()->random_block();
          *a = d0[i];
          *b = correlator(d0[i], uint64_t(i));
        });
  }
  void recv_cot(block *out, const bool *b, int n) {
    io_->link()->ot_recv(io_->side(), io_->box(), io_->stream(), true, out, b, n);
  }
 private:
  IO *io_;
};
}  // namespace emp
