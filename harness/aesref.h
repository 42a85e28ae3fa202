// AES-128 by the processor's AES instructions, checked against FIPS 197 at
// start-up; shares nothing with the library the code under test links.
#pragma once
#include <wmmintrin.h>
#include <cstring>
#include "common.h"
namespace dv {
struct AesRef {
  __m128i k[11];
  template <int R> static __m128i step(__m128i key) {
    __m128i g = _mm_aeskeygenassist_si128(key, R);
    g = _mm_shuffle_epi32(g, 0xff);
    key = _mm_xor_si128(key, _mm_slli_si128(key, 4));
    key = _mm_xor_si128(key, _mm_slli_si128(key, 4));
    key = _mm_xor_si128(key, _mm_slli_si128(key, 4));
    return _mm_xor_si128(key, g);
  }
  AesRef() {}
  explicit AesRef(u128 key) {  // bytes of `key` in memory order
    memcpy(&k[0], &key, 16);
    k[1] = step<1>(k[0]); k[2] = step<2>(k[1]); k[3] = step<4>(k[2]); k[4] = step<8>(k[3]);
    k[5] = step<16>(k[4]); k[6] = step<32>(k[5]); k[7] = step<64>(k[6]); k[8] = step<128>(k[7]);
    k[9] = step<0x1b>(k[8]); k[10] = step<0x36>(k[9]);
  }
  u128 enc(u128 in) const {
    __m128i x;
    memcpy(&x, &in, 16);
    x = _mm_xor_si128(x, k[0]);
    for (int i = 1; i < 10; i++) x = _mm_aesenc_si128(x, k[i]);
    x = _mm_aesenclast_si128(x, k[10]);
    u128 out;
    memcpy(&out, &x, 16);
    return out;
  }
  u128 prg(u128 in) const { return enc(in) ^ in; }  // Davies-Meyer as used for trees
  static bool self_test() {
    unsigned char key[16], in[16];
    for (int i = 0; i < 16; i++) { key[i] = (unsigned char)i; in[i] = (unsigned char)(i * 0x11); }
    static const unsigned char want[16] = {0x69, 0xc4, 0xe0, 0xd8, 0x6a, 0x7b, 0x04, 0x30, 0xd8, 0xcd, 0xb7, 0x80, 0x70, 0xb4, 0xc5, 0x5a};
    u128 kk, x;
    memcpy(&kk, key, 16); memcpy(&x, in, 16);
    u128 y = AesRef(kk).enc(x);
    return memcmp(&y, want, 16) == 0;
  }
};
}  // namespace dv
