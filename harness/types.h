// Scalar types under test, with reference arithmetic on canonical 128-bit
// residues that shares no code with /repo (nor with NTL's modular classes).
#pragma once
#include "common.h"
#include "distributed_vector_ole/gf128.h"

namespace dv {

// Modulus in force for the current case; 0 means 2^128. Unused for non-NTL types.
struct Mod { u128 m = 0; NTL::ZZ z; };
inline Mod &mod() {
  if (thread_env()) return *static_cast<Mod *>(thread_env());
  static Mod m;
  return m;
}
inline NTL::ZZ to_zz(u128 v) {
  NTL::ZZ r;
  unsigned char b[16];
  for (int i = 0; i < 16; i++) b[i] = (unsigned char)(v >> (8 * i));
  NTL::ZZFromBytes(r, b, 16);
  return r;
}
inline u128 from_zz(const NTL::ZZ &z) {
  unsigned char b[16];
  NTL::BytesFromZZ(b, z, 16);
  u128 v = 0;
  for (int i = 15; i >= 0; i--) v = (v << 8) | b[i];
  return v;
}
inline u128 mulmod_ref(u128 a, u128 b) {
  const Mod &M = mod();
  if (M.m != 0 && M.m <= (u128(1) << 64)) return (a % M.m) * (b % M.m) % M.m;
  return from_zz((to_zz(a) * to_zz(b)) % M.z);
}
inline u128 addmod_ref(u128 a, u128 b) {
  const Mod &M = mod();
  if (M.m == 0) return a + b;
  a %= M.m; b %= M.m;
  return a >= M.m - b ? a - (M.m - b) : a + b;
}
inline u128 gfmul_ref(u128 a, u128 b) {  // x^128 + x^7 + x^2 + x + 1
  u128 r = 0;
  for (int i = 127; i >= 0; i--) {
    u128 top = r >> 127;
    r = (r << 1) ^ (top ? u128(0x87) : u128(0));
    if ((b >> i) & 1) r ^= a;
  }
  return r;
}
// x^k mod polynomial multiplication is slow; use a per-multiplier table when one
// operand is fixed (w = u * delta + v).
struct GfTable {
  u128 t[32][16];
  explicit GfTable(u128 d) {
    u128 x = d;
    for (int i = 0; i < 32; i++) {
      u128 p[4];
      for (int k = 0; k < 4; k++) { p[k] = x; x = (x << 1) ^ ((x >> 127) ? u128(0x87) : u128(0)); }
      for (int v = 0; v < 16; v++) {
        u128 s = 0;
        for (int k = 0; k < 4; k++) if (v >> k & 1) s ^= p[k];
        t[i][v] = s;
      }
    }
  }
  u128 mul(u128 a) const { u128 r = 0; for (int i = 0; i < 32; i++) r ^= t[i][(a >> (4 * i)) & 15]; return r; }
};

template <typename T, typename = void> struct TT;

template <typename T, int BITS>
struct IntTT {
  static constexpr bool kNtl = false, kGf = false;
  static int bits() { return BITS; }
  static u128 mask() { return BITS == 128 ? ~u128(0) : ((u128(1) << (BITS % 128)) - 1); }
  static u128 add(u128 a, u128 b) { return (a + b) & mask(); }
  static u128 neg(u128 a) { return (0 - a) & mask(); }
  static u128 mul(u128 a, u128 b) { return (a * b) & mask(); }
  static std::string setup(Rng &, bool) { return ""; }
  static void use(u128) {}
  static u128 rnd(Rng &r) {
    switch (below(r, 12)) {
      case 0: return 0;
      case 1: return 1;
      case 2: return mask();
      case 3: return u128(1) << (BITS - 1);
      default: return rnd128(r) & mask();
    }
  }
  static u128 uni(Rng &r) { return rnd128(r) & mask(); }
  static double log_size() { return BITS; }
};
#define DV_INT(T, B, N)                                                     \
  template <> struct TT<T, void> : IntTT<T, B> {                            \
    static const char *name() { return N; }                                 \
    static u128 canon(const T &x) { return u128(x); }                       \
    static T make(u128 v) { return T(v); }                                  \
  };
DV_INT(uint8_t, 8, "uint8")
DV_INT(uint16_t, 16, "uint16")
DV_INT(uint32_t, 32, "uint32")
DV_INT(uint64_t, 64, "uint64")
template <> struct TT<absl::uint128, void> : IntTT<absl::uint128, 128> {
  static const char *name() { return "uint128"; }
  static u128 canon(const absl::uint128 &x) { return U(x); }
  static absl::uint128 make(u128 v) { return A(v); }
};
template <> struct TT<distributed_vector_ole::gf128, void> : IntTT<distributed_vector_ole::gf128, 128> {
  static constexpr bool kGf = true;
  static const char *name() { return "gf128"; }
  static u128 canon(const distributed_vector_ole::gf128 &x) {
    auto w = x.as_words();
    return (u128(w[1]) << 64) | w[0];
  }
  static distributed_vector_ole::gf128 make(u128 v) { return distributed_vector_ole::gf128(uint64_t(v >> 64), uint64_t(v)); }
  static u128 add(u128 a, u128 b) { return a ^ b; }
  static u128 neg(u128 a) { return a; }
  static u128 mul(u128 a, u128 b) { return gfmul_ref(a, b); }
};
struct ModTT {
  static constexpr bool kNtl = true, kGf = false;
  static u128 mask() { return ~u128(0); }
  static int bits() { return mod().m == 0 ? 128 : int(NTL::NumBits(mod().z - 1)); }
  static u128 add(u128 a, u128 b) { return addmod_ref(a, b); }
  static u128 neg(u128 a) { return a == 0 ? 0 : mod().m - a; }
  static u128 mul(u128 a, u128 b) { return mulmod_ref(a, b); }
  static u128 uni(Rng &r) { return mod().m == 0 ? rnd128(r) : from_zz(((to_zz(rnd128(r)) << 128) + to_zz(rnd128(r))) % mod().z); }
  static u128 rnd(Rng &r) {
    switch (below(r, 12)) {
      case 0: return 0;
      case 1: return 1;
      case 2: return mod().m - 1;
      case 3: return mod().m == 0 ? u128(1) << 127 : mod().m / 2;
      default: return uni(r);
    }
  }
  static double log_size() { return mod().m == 0 ? 128 : std::log2(double(mod().m)); }
  static void install(u128 m) {
    mod().m = m;
    mod().z = m == 0 ? NTL::power2_ZZ(128) : to_zz(m);
  }
};
template <> struct TT<NTL::ZZ_p, void> : ModTT {
  static const char *name() { return "ZZ_p"; }
  static u128 canon(const NTL::ZZ_p &x) { return from_zz(NTL::rep(x)); }
  static NTL::ZZ_p make(u128 v) { return NTL::conv<NTL::ZZ_p>(to_zz(v)); }
  static void use(u128 m) { install(m); NTL::ZZ_p::init(mod().z); }
  // Moduli for which 128-bit values are close enough to uniform for any vector
  // length used here: everything up to 64 bits, and larger ones next to 2^k.
  static std::string setup(Rng &r, bool wide = true) {
    const u128 one = 1;
    static const u128 fixed[] = {
        0 - u128(159), (one << 64) - 59, (one << 32) - 5, (one << 16) - 15, (one << 8) - 5,
        (one << 64), (one << 8), 2, 3, 17, 257, 65537, (one << 63) + 29, 0,
        (one << 127) - 1, (one << 126) - 137, (one << 100) - 15, (one << 80) - 65, (one << 72) - 93, (one << 96) - 17};
    u128 m;
    switch (below(r, 4)) {
      case 0: m = (u128(r()) >> below(r, 62)) | 2; break;  // any size up to 64 bits
      default: m = fixed[below(r, wide ? sizeof fixed / sizeof *fixed : 5)];
    }
    use(m);
    return m == 0 ? "mod 2^128" : "mod " + hex(m);
  }
};
template <> struct TT<NTL::zz_p, void> : ModTT {
  static const char *name() { return "zz_p"; }
  static u128 canon(const NTL::zz_p &x) { return u128(NTL::rep(x)); }
  static NTL::zz_p make(u128 v) { return NTL::conv<NTL::zz_p>(long(v % mod().m)); }
  static void use(u128 m) { install(m); NTL::zz_p::init(long(m)); }
  static std::string setup(Rng &r, bool wide = true) {
    static const uint64_t fixed[] = {1125899906842597ull, 4294967291ull, 65521, 251, 1073741789ull,
                                     2, 3, 17, 256, 65536, 65537, (1ull << 59) - 55, 1ull << 59, 1ull << 40};
    uint64_t m = below(r, 4) == 0 ? ((r() >> (5 + below(r, 57))) | 2) : fixed[below(r, wide ? sizeof fixed / sizeof *fixed : 5)];
    use(m);
    return "mod " + std::to_string(m);
  }
};

// A modulus just below 2^8k, such that reducing 8k random bits is about as far
// from uniform as s bits of security allow for some vector length up to 2^span.
template <typename T> std::string edge_modulus(Rng &r, double s, double span) {
  int maxb = std::is_same<T, NTL::zz_p>::value ? 7 : 16;
  int lo = std::min(int(s) / 8 + 1, maxb);
  int nb = int(range(r, lo, maxb));
  double e = std::min(8.0 * nb - 2, std::max(0.0, 8.0 * nb - s - span * double(below(r, 1001)) / 1000 + double(range(r, -2, 2))));
  u128 c = u128(std::exp2(std::min(e, 62.0)));
  if (e > 62) c <<= int(e - 62);
  c |= 1;
  u128 q = nb == 16 ? u128(0) - c : (u128(1) << (8 * nb)) - c;
  if (q < 2) q = 2;
  TT<T>::use(q);
  return "mod " + hex(q);
}

// Carries the NTL modulus of the current thread into a party thread.
template <typename T> struct Carry { void restore() const {} };
template <> struct Carry<NTL::ZZ_p> { NTL::ZZ_pContext c; Carry() { c.save(); } void restore() const { c.restore(); } };
template <> struct Carry<NTL::zz_p> { NTL::zz_pContext c; Carry() { c.save(); } void restore() const { c.restore(); } };

template <typename T> std::string show(const T &x) { return hex(TT<T>::canon(x)); }

// out = a*b+c on canonical values with a fixed b
template <typename T> struct MulBy {
  u128 b;
  std::unique_ptr<GfTable> g;
  explicit MulBy(u128 v) : b(v) { if (TT<T>::kGf) g.reset(new GfTable(v)); }
  u128 operator()(u128 a) const { return TT<T>::kGf ? g->mul(a) : TT<T>::mul(a, b); }
};

// 128-bit leaf reduction is statistically uniform for n values with s bits?
// (independent, exact form of the precondition documented for the protocols)
inline bool leaf_ok(double s, double n, u128 m /*0 = 2^128*/) {
  if (m == 0) return true;
  u128 r = (~u128(0) % m + 1) % m;  // 2^128 mod m
  if (r == 0) return true;
  return 128 - std::log2(double(r)) > s + std::log2(n);
}

// Type selection by -DDV_TYPE=; the others are used on the same objects in between
#if DV_TYPE == 0
using Scalar = uint8_t;
using Other0 = uint64_t;
using Other1 = NTL::ZZ_p;
#elif DV_TYPE == 1
using Scalar = uint16_t;
using Other0 = distributed_vector_ole::gf128;
using Other1 = uint32_t;
#elif DV_TYPE == 2
using Scalar = uint32_t;
using Other0 = uint8_t;
using Other1 = absl::uint128;
#elif DV_TYPE == 3
using Scalar = uint64_t;
using Other0 = uint32_t;
using Other1 = NTL::ZZ_p;
#elif DV_TYPE == 4
using Scalar = absl::uint128;
using Other0 = uint8_t;
using Other1 = distributed_vector_ole::gf128;
#elif DV_TYPE == 5
using Scalar = distributed_vector_ole::gf128;
using Other0 = absl::uint128;
using Other1 = uint64_t;
#elif DV_TYPE == 6
using Scalar = NTL::ZZ_p;
using Other0 = NTL::zz_p;
using Other1 = uint64_t;
#elif DV_TYPE == 7
using Scalar = NTL::zz_p;
using Other0 = NTL::ZZ_p;
using Other1 = uint32_t;
#endif

}  // namespace dv
