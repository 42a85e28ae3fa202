// C19 (conversions), C20 (uniform mapping, random elements), C21 (moduli).
#include <omp.h>
#include "hist.h"
#include "types.h"
#ifndef DV_NO_PACK
#include "distributed_vector_ole/internal/gilboa_internal.h"
#endif
#include "distributed_vector_ole/internal/scalar_helpers.h"
using namespace dv;
namespace vo = distributed_vector_ole;
using T = Scalar;
using H = vo::ScalarHelper<T>;
using X = TT<T>;

static NTL::ZZ zz_order() { return X::kNtl ? mod().z : NTL::power2_ZZ(X::bits()); }
static int ref_bits() { return X::kNtl ? int(NTL::NumBits(zz_order() - 1)) : X::bits(); }
static int ref_size() { return X::kNtl ? std::max(0, (ref_bits() + 7) / 8) : X::bits() / 8; }
template <typename U> static NTL::ZZ zcanon(const U &x) {
  if constexpr (TT<U>::kNtl) return NTL::conv<NTL::ZZ>(NTL::rep(x));
  else return to_zz(TT<U>::canon(x));
}
template <typename U> static int ntl_bits() {
  if constexpr (TT<U>::kNtl) return vo::NTLNumBits<U>();
  else return ref_bits();
}
static u128 red(u128 v) {  // what converting a 128-bit block must give
  if (!X::kNtl) return v & X::mask();
  return from_zz(to_zz(v) % mod().z);
}
static u128 special(Rng &r) {
  const u128 one = 1;
  switch (below(r, 14)) {
    case 0: return 0;
    case 1: return ~u128(0);
    case 2: return one << below(r, 128);
    case 3: return (one << below(r, 128)) - 1;
    case 4: return u128(r()) << 64;
    case 5: return r();
    case 6: return ~u128(0) << below(r, 128);
    case 7: case 8: if (X::kNtl && mod().m != 0) { u128 k = ~u128(0) / mod().m; return mod().m * (below(r, 2) ? k : u128(r()) % (k == 0 ? 1 : k) ) + u128(range(r, -2, 2)); } return rnd128(r);
    default: return rnd128(r);
  }
}

static void c19(Ctx &c) {
  std::string m = X::setup(c.rng, true);
  if (X::kNtl && mod().m == 1) return;
  c.desc = std::string(X::name()) + " " + m;
  c.check(H::SizeOf() == ref_size(), "SizeOf is " + std::to_string(H::SizeOf()) + ", values need " + std::to_string(ref_size()) + " bytes");
  c.check(ntl_bits<T>() == ref_bits(), "NTLNumBits is " + std::to_string(ntl_bits<T>()) + ", values need " + std::to_string(ref_bits()) + " bits");
  for (int i = 0; i < 300; i++) {
    u128 v = special(c.rng), want = red(v);
    T t = H::FromUint128(A(v));
    c.check(X::canon(t) == want, "converting block " + hex(v) + " gives " + hex(X::canon(t)) + ", not " + hex(want));
    T e = X::make(want);
    c.check(t == e, "converted element differs from the directly constructed one");
    c.check(U(H::ToUint128(e)) == want, "converting element " + hex(want) + " to a block gives " + hex(U(H::ToUint128(e))));
    T back = H::FromUint128(H::ToUint128(e));
    c.check(X::canon(back) == want, "conversion does not round-trip");
    // bit access over the whole encoded size
    int nb = H::SizeOf() * 8;
    for (int k = 0; k < nb; k++) c.check(bool(H::GetBit(e, k)) == bool((want >> k) & 1), "bit " + std::to_string(k) + " of " + hex(want) + " is wrong");
    if (i < 4) {
      T sum = X::make(0);
      for (int k = 0; k < (X::kNtl ? ref_bits() : nb); k++) {
        c.check(X::canon(H::SetBit(k)) == red(u128(1) << k), "SetBit(" + std::to_string(k) + ") is " + hex(X::canon(H::SetBit(k))));
        if (H::GetBit(e, k)) sum += H::SetBit(k);
      }
      c.check(X::canon(sum) == want, "the bit decomposition does not add up to the value");
    }
    c.stat("conversions");
    c.stat("bits", uint64_t(nb));
  }
#ifndef DV_NO_PACK
  // packing of several elements into one block
  int sz = H::SizeOf();
  if (sz > 0) {
    size_t p = size_t(16 / sz);
    for (int i = 0; i < 60; i++) {
      std::vector<T> v;
      std::vector<u128> ref;
      size_t n = i % 3 == 0 ? size_t(range(c.rng, 1, int64_t(p))) : p;
      for (size_t k = 0; k < n; k++) { ref.push_back(X::rnd(c.rng)); v.push_back(X::make(ref.back())); }
      u128 mul = i % 2 ? X::rnd(c.rng) : 1;
      // products of 16-bit values may exceed the range of int
      if (sizeof(T) == 2 && !X::kNtl) mul &= 0x7fff;
      T mt = X::make(mul);
      emp::block b = i % 2 ? vo::gilboa_internal::SpanToEMPBlock<T>(absl::MakeConstSpan(v), mt) : vo::gilboa_internal::SpanToEMPBlock<T>(absl::MakeConstSpan(v));
      u128 got = (u128(uint64_t(b[1])) << 64) | uint64_t(b[0]), want = 0;
      for (size_t k = n; k-- > 0;) { want = (sz < 16 ? want << (8 * sz) : 0) | X::mul(ref[k], mul); }
      c.check(got == want, "packing " + std::to_string(n) + " elements gives " + hex(got) + ", not " + hex(want));
      auto u = vo::gilboa_internal::EMPBlockToVector<T>(b);
      c.check(u.size() == p, "unpacking gives " + std::to_string(u.size()) + " elements instead of " + std::to_string(p));
      for (size_t k = 0; k < p; k++) c.check(X::canon(u[k]) == (k < n ? X::mul(ref[k], mul) : 0), "packing does not round-trip at position " + std::to_string(k));
      for (size_t k = 0; k < n; k++) c.check(X::canon(v[k]) == ref[k], "packing changed its input");
      // an arbitrary block unpacks by reducing each field
      u128 w = special(c.rng);
      emp::block bw = emp::makeBlock(uint64_t(w >> 64), uint64_t(w));
      auto f = vo::gilboa_internal::EMPBlockToVector<T>(bw);
      for (size_t k = 0; k < p; k++) {
        u128 field = sz == 16 ? w : (w >> (8 * sz * int(k))) & ((u128(1) << (8 * sz)) - 1);
        c.check(X::canon(f[k]) == red(field), "unpacking field " + std::to_string(k) + " of " + hex(w) + " gives " + hex(X::canon(f[k])));
      }
      auto bits = vo::gilboa_internal::GetBits<T>(v[0]);
      c.check(int(bits.size()) == 8 * sz, "bit decomposition has " + std::to_string(bits.size()) + " bits");
      for (int k = 0; k < 8 * sz; k++) c.check(bool(bits[size_t(k)]) == bool((ref[0] >> k) & 1), "bit decomposition is wrong");
      c.stat("packings");
    }
  }
#endif
  c.sig(c.desc + std::to_string(X::kNtl ? 0 : c.id));
  c.sample(c.desc);
}

// ------------------------------------------------------------------ C20
static std::map<std::string, std::pair<Hist, uint64_t>> hists;
static Hist total, wrapped; static Bits tbits;
// Many random elements modulo q = 2^k * 2/(2j+1): reducing k random bits would
// make the lower half of the range more likely than the upper one.
static void c20_wrap(Ctx &c) {
  if constexpr (X::kNtl) {
    bool sp = std::is_same<T, NTL::zz_p>::value;
    int k = pick(c.rng, std::vector<int>{30, 31, 32, 48, 53, 56, 63, 64, 64, 64, 80, 96, 120, 127, 128, 128, 160, 192, 256, 320});
    if (sp && k > 64) k = 64;
    int j = sp && k > 60 ? int(range(c.rng, k == 64 ? 17 : 9, 24)) : int(range(c.rng, 1, 12));
    NTL::ZZ q = NTL::power2_ZZ(k + 1) / (2 * j + 1) + range(c.rng, -50, 50);
    if (sp) TT<NTL::zz_p>::use(from_zz(q));
    else { NTL::ZZ_p::init(q); mod().z = q; mod().m = 1; }
    c.desc = std::string(X::name()) + " 2^" + std::to_string(k + 1) + "/" + std::to_string(2 * j + 1);
    std::vector<T> v(sp ? 400000 : 60000);
    H::Randomize(absl::MakeSpan(v));
    std::vector<u128> vals;
    for (auto &x : v) vals.push_back(from_zz((zcanon(x) << 100) / q));
    Hist h;
    h.add_all(vals, u128(1) << 100);
    wrapped.add_all(vals, u128(1) << 100);
    u128 half = u128(1) << 99;
    double lowc = 0, n = double(vals.size());
    for (u128 x : vals) lowc += x < half;
    c.check(std::fabs(lowc - n / 2) < 8 * std::sqrt(n / 4), "random elements prefer one half of the range: " + std::to_string(lowc / n));
    c.check(h.z() < 9, "random elements are not uniform: z=" + std::to_string(h.z()));
    c.stat("random_elements", v.size());
    c.stat("wrap_moduli");
    c.sig(c.desc);
  }
}
static void c20(Ctx &c) {
  if (X::kNtl && c.id % 12 == 7 && !c.small) return c20_wrap(c);
  std::string m = "";
  bool huge = false;
  if constexpr (std::is_same<T, NTL::ZZ_p>::value) {
    if (below(c.rng, 8) == 0) {  // larger than any block
      NTL::ZZ z = NTL::power2_ZZ(128 + long(below(c.rng, 200))) + to_zz(u128(c.rng() >> below(c.rng, 60)) + 1);
      NTL::ZZ_p::init(z);
      mod().z = z; mod().m = 1;
      huge = true;
      m = "modulus of " + std::to_string(NTL::NumBits(z)) + " bits";
    } else if (below(c.rng, 2)) {
      int k = int(range(c.rng, 2, 128));
      u128 p = k == 128 ? 0 : u128(1) << k;
      u128 q = p + u128(range(c.rng, -300, k == 128 ? 0 : 300));
      if (q < 2 && k != 128) q = 2;
      if (below(c.rng, 4) == 0) q = (rnd128(c.rng) >> below(c.rng, 120)) | 2;
      TT<NTL::ZZ_p>::use(q);
      m = "mod " + hex(q);
    }
  }
  if constexpr (std::is_same<T, NTL::zz_p>::value) {
    if (below(c.rng, 2)) {
      int k = int(range(c.rng, 2, 59));
      int64_t q = (1ll << k) + range(c.rng, -300, 300);
      if (q < 2) q = 2;
      if (q >= NTL_SP_BOUND) q = NTL_SP_BOUND - 1;
      TT<NTL::zz_p>::use(u128(q));
      m = "mod " + std::to_string(q);
    }
  }
  if (m.empty()) m = X::setup(c.rng, true);
  c.desc = std::string(X::name()) + " " + m;
  NTL::ZZ M = zz_order();
  int accepted = 0, refused = 0;
  for (int i = 0; i < 60; i++) {
    double s = pick(c.rng, std::vector<double>{0, 1, 10, 30, 40, 40, 40, 56.7, 60, 64, 80, 100, 127, 128});
    if (i % 3 == 0) s = double(below(c.rng, 128000)) / 1000;
    int hb = int(pick(c.rng, std::vector<int>{128, 128, 128, 64, 8, 16, 24, 32, 120, 127}));
    if (i % 4 == 0) hb = std::min(128, std::max(8, ref_size() * 8));
    bool ok = H::CanBeHashedInto(s, hb);
    (ok ? accepted : refused)++;
    NTL::ZZ B = NTL::power2_ZZ(hb), r = B % M;
    // distance from uniform: r*(M-r)/(B*M); all as exact integers
    NTL::ZZ num = r * (M - r), den = B * M;
    std::string at = " for " + std::to_string(hb) + "-bit values and security " + std::to_string(s);
    bool pow2 = NTL::weight(M) == 1;
    if (pow2 && M <= B) c.check(ok, "a power-of-two modulus is refused" + at);
    if (M > B) c.check(!ok, "accepted although some elements cannot be reached" + at);
    if (X::kNtl) {
      double lg = num == 0 ? -1e9 : NTL::log(num) / std::log(2.0) - NTL::log(den) / std::log(2.0);
      if (ok && M <= B) c.check(lg <= -s + 1e-6, "accepted although the distance from uniform is 2^" + std::to_string(lg) + at);
      double lr = r == 0 ? -1e9 : NTL::log(r) / std::log(2.0) - hb;
      if (!ok && M <= B && !huge) c.check(lr >= -s - 1e-6, "refused although the probability of a biased value is only 2^" + std::to_string(lr) + at);
    }
    c.stat("decisions");
  }
  c.stat("accepted", uint64_t(accepted));
  c.stat("refused", uint64_t(refused));
  if (c.id % 3 == 0) {  // random elements
    size_t n = c.id % 2 ? size_t(range(c.rng, 0, 40)) : 2000;
    u128 canary = X::rnd(c.rng);
    std::vector<T> v(n + 8, huge ? T(0) : X::make(huge ? 0 : canary));
    NTL::ZZ cz = zcanon(v[0]);
    H::Randomize(absl::MakeSpan(v.data() + 4, n));
    for (size_t i = 0; i < 4; i++) c.check(zcanon(v[i]) == cz && zcanon(v[n + 4 + i]) == cz, "Randomize wrote outside its output");
    std::vector<u128> vals;
    size_t eq = 0;
    for (size_t i = 0; i < n; i++) {
      NTL::ZZ z = zcanon(v[i + 4]);
      c.check(z < M && z >= 0, "random element out of range");
      // top 64 of log2(M) bits as a fraction
      if (huge) vals.push_back(from_zz((z << 100) / M)); else vals.push_back(from_zz(z));
      eq += z == cz;
    }
    double size = huge ? 1e38 : std::exp2(X::log_size());
    c.check(double(eq) <= double(n) / size + 8 * std::sqrt(double(n) / size) + 6, "elements were left unset by Randomize: " + std::to_string(eq) + " of " + std::to_string(n) + " still have the old value");
    total.add_all(vals, huge ? u128(1) << 100 : X::kNtl ? mod().m : X::bits() == 128 ? u128(0) : u128(1) << (X::bits() % 128));
    if (!X::kNtl) tbits.add_all(vals, X::bits());
    if (size > 1e15) { std::set<std::string> d; for (auto x : vals) c.check(d.insert(hex(x)).second, "a random element repeats"); }
    c.stat("random_elements", n);
    double lg = huge ? 128 : X::log_size();
    if (lg * double(n) > 100) {  // the state of NTL's own generator does not decide anything
      std::vector<T> w[2];
      for (auto &x : w) { x.assign(n, T(0)); know_ntl(); H::Randomize(absl::MakeSpan(x)); }
      c.check(w[0] != w[1], "random elements are those of NTL's own generator, which starts from the time and the process ID");
    }
  }
  c.sig(c.desc + std::to_string(X::kNtl ? 0 : c.id % 50));
  c.sample(c.desc);
}
static void c20_end(Report &) {
  if (total.z() > kZ) throw Violation("random elements are not uniform: z=" + std::to_string(total.z()));
  if (wrapped.z() > kZ) throw Violation("random elements next to a fraction of a power of two are not uniform: z=" + std::to_string(wrapped.z()));
  int bit = 0;
  if (tbits.z(&bit) > kZ) throw Violation("bit " + std::to_string(bit) + " of random elements is biased");
}

// ------------------------------------------------------------------ C21
template <typename T> static void observe(Ctx &c, Rng &r, const std::string &at) {
  (void)c;
  using X = TT<T>; using H = vo::ScalarHelper<T>;
  if constexpr (X::kNtl) {
    u128 m = mod().m;
    auto bad = [&](const std::string &w) { throw Violation(w + " under modulus " + (m == 0 ? "2^128" : hex(m)) + ", " + at); };
    NTL::ZZ z = m == 0 ? NTL::power2_ZZ(128) : to_zz(m);
    int nb = int(NTL::NumBits(z - 1));
    if (vo::NTLNumBits<T>() != nb) bad("NTLNumBits is " + std::to_string(vo::NTLNumBits<T>()) + " instead of " + std::to_string(nb));
    if (H::SizeOf() != (nb + 7) / 8) bad("SizeOf is " + std::to_string(H::SizeOf()));
    u128 v = rnd128(r);
    u128 got = X::canon(H::FromUint128(A(v)));
    if (got != from_zz(to_zz(v) % z)) bad("converting a block does not reduce by the modulus in force");
    std::vector<T> t(5, T(0));
    H::Randomize(absl::MakeSpan(t));
    for (auto &x : t) if (to_zz(X::canon(x)) >= z) bad("random element out of range");
    NTL::ZZ B = NTL::power2_ZZ(128), rem = B % z;
    bool sure = rem == 0 || NTL::log(rem) / std::log(2.0) < 128 - 40 - 1e-6, never = rem != 0 && NTL::log(rem) / std::log(2.0) > 128 - 39;
    if (sure && !H::CanBeHashedInto(40, 128)) bad("a suitable modulus is refused");
    if (never && H::CanBeHashedInto(40, 128)) bad("an unsuitable modulus is accepted");
    if (NTL::conv<NTL::ZZ>(T::modulus()) != z) bad("the modulus of the calling thread was changed");
  }
}
template <typename T> static void c21(Ctx &c) {
  using X = TT<T>; using H = vo::ScalarHelper<T>;
  if constexpr (X::kNtl) {
    // moduli whose sizes differ, and moduli of equal size
    std::vector<u128> ms;
    for (int i = 0; i < 5; i++) { X::setup(c.rng, true); ms.push_back(mod().m); }
    ms.push_back(ms[0] == 0 ? 255 : ms[0] > 5 ? ms[0] - 1 : 4);
    ms.push_back(std::is_same<T, NTL::ZZ_p>::value ? u128(1) << 64 : u128(1) << 32); ms.push_back(ms.back() + 1); ms.push_back(ms.back() - 2);
    c.desc = X::name();
    for (int i = 0; i < 60; i++) {
      u128 m = pick(c.rng, ms);
      switch (below(c.rng, 3)) {
        case 0: X::use(m); observe<T>(c, c.rng, "after init"); break;
        case 1: {
          X::use(m);
          typename T::context_type ctx;
          ctx.save();
          u128 other = pick(c.rng, ms);
          X::use(other); observe<T>(c, c.rng, "after another init");
          ctx.restore(); X::install(m); observe<T>(c, c.rng, "after restoring a context");
          break;
        }
        default: {  // worker threads with the library's own context passing
          X::use(m);
          vo::NTLContext<T> ctx;
          ctx.save();
          uint64_t s = c.rng();
          std::string err;
          omp_set_num_threads(4);
#pragma omp parallel
          {
            ctx.restore();
            try { Rng r(mix(s, uint64_t(omp_get_thread_num()))); for (int k = 0; k < 3; k++) observe<T>(c, r, "on worker thread " + std::to_string(omp_get_thread_num())); }
            catch (Violation &v) {
#pragma omp critical
              err = v.what();
            }
          }
          if (!err.empty()) c.fail(err);
          observe<T>(c, c.rng, "after a parallel region");
        }
      }
      c.stat("switches");
    }
    // concurrent threads, each with its own modulus
    std::vector<std::thread> th;
    std::mutex mu;
    std::string err;
    uint64_t s = c.rng();
    for (int i = 0; i < 4; i++)
      th.emplace_back([&, i] {
        Rng r(mix(s, uint64_t(i)));
        NTL::SetSeed(NTL::ZZ(long(r() >> 2)));
        for (int k = 0; k < 30; k++) {
          u128 m = pick(r, ms);
          NTL::ZZ z = m == 0 ? NTL::power2_ZZ(128) : to_zz(m);
          if constexpr (std::is_same<T, NTL::ZZ_p>::value) NTL::ZZ_p::init(z); else NTL::zz_p::init(long(m));
          int nb = int(NTL::NumBits(z - 1));
          u128 v = rnd128(r);
          bool ok = vo::NTLNumBits<T>() == nb && H::SizeOf() == (nb + 7) / 8 && X::canon(H::FromUint128(A(v))) == from_zz(to_zz(v) % z);
          if (!ok) { std::lock_guard<std::mutex> l(mu); err = "concurrent thread sees another modulus than its own"; }
        }
      });
    for (auto &t : th) t.join();
    if (!err.empty()) c.fail(err);
    c.stat("concurrent_threads", 4);
    c.sig(std::to_string(c.id));
    c.sample(std::string(X::name()) + ", 60 switches among " + std::to_string(ms.size()) + " moduli, 4 concurrent threads");
  }
}
int main(int argc, char **argv) {
  std::string p = "C19";
  for (int i = 1; i + 1 < argc; i++) if (std::string(argv[i]) == "--prop") p = argv[i + 1];
  if (p == "C20") return harness_main(argc, argv, c20, c20_end);
  if (p == "C21") return harness_main(argc, argv, c21<T>);
  return harness_main(argc, argv, c19);
}
