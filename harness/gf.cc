// C18: GF(2^128).
#include <sstream>
#include "boost/archive/binary_iarchive.hpp"
#include "boost/archive/binary_oarchive.hpp"
#include "boost/archive/text_iarchive.hpp"
#include "boost/archive/text_oarchive.hpp"
#include "absl/hash/hash.h"
#include "hist.h"
#include "types.h"
using namespace dv;
using distributed_vector_ole::gf128;
using G = TT<gf128>;

static uint64_t word(Rng &r) {
  switch (below(r, 12)) {
    case 0: return 0;
    case 1: return ~0ull;
    case 2: return 1ull << below(r, 64);
    case 3: return below(r, 300);
    case 4: return ~(1ull << below(r, 64));
    case 5: return r() << 32;
    case 6: return r() >> 32;
    case 7: return (~0ull) << below(r, 64);
    case 8: return (1ull << below(r, 64)) | (1ull << below(r, 64));
    default: return r();
  }
}
static u128 pow_ref(u128 a, u128 e) {
  u128 r = 1;
  for (; e; e >>= 1, a = gfmul_ref(a, a)) if (e & 1) r = gfmul_ref(r, a);
  return r;
}
static u128 elem(Rng &r) {
  if (below(r, 40) == 0) {  // a subfield element: a^((2^128-1)/(2^k-1))
    int k = 1 << below(r, 7);
    u128 e = ~u128(0) / ((u128(1) << k) - 1);
    return pow_ref(rnd128(r), e);
  }
  return (u128(word(r)) << 64) | word(r);
}
// An element living at an address that is only 8-byte aligned.
struct Slot {
  alignas(16) unsigned char raw[48];
  gf128 *p;
  Slot(int off, u128 v) { p = new (raw + 8 * off) gf128(G::make(v)); }
};
static std::vector<u128> rnd_elems;

static void run_case(Ctx &c) {
  int nb = 10, na = c.thorough ? 400 : 200;
  for (int i = 0; i < nb; i++) {
    u128 b = elem(c.rng);
    MulBy<gf128> ref(b);
    gf128 B = G::make(b);
    for (int j = 0; j < na; j++) {
      u128 a = elem(c.rng);
      if (j % 16 == 0) a = b;
      u128 p = ref(a);
      if (j % 20 == 0) c.check(p == gfmul_ref(a, b), "monitor: reference multiplications disagree");
      c.desc = hex(a) + " and " + hex(b);
      gf128 A = G::make(a);
      auto eq = [&](const gf128 &x, u128 want, const char *what) {
        if (G::canon(x) != want) c.fail(std::string(what) + " gives " + hex(G::canon(x)) + ", not " + hex(want));
      };
      eq(A * B, p, "a*b"); eq(B * A, p, "b*a");
      eq(A + B, a ^ b, "a+b"); eq(A - B, a ^ b, "a-b"); eq(-A, a, "-a");
      eq(A, a, "a after use as operand"); eq(B, b, "b after use as operand");
      { Slot x(int(below(c.rng, 3)), a), y(int(below(c.rng, 3)), b);
        gf128 &ret = (*x.p *= *y.p);
        eq(*x.p, p, "a*=b"); eq(*y.p, b, "right operand after a*=b");
        c.check(&ret == x.p, "a*=b does not return its left operand");
        eq((*x.p *= *y.p) *= *x.p, gfmul_ref(ref(p), ref(p)), "(x*=b)*=x"); }
      { Slot x(int(below(c.rng, 3)), a), y(int(below(c.rng, 3)), b);
        eq((*x.p += *y.p) -= *y.p, a, "(a+=b)-=b"); eq(*x.p, a, "a after (a+=b)-=b");
        *x.p += *y.p; eq(*x.p, a ^ b, "a+=b"); *x.p -= *y.p; eq(*x.p, a, "a-=b");
        *x.p += *x.p; eq(*x.p, 0, "a+=a"); *y.p -= *y.p; eq(*y.p, 0, "b-=b"); }
      c.check((A == B) == (a == b) && (A != B) == (a != b) && (A == gf128(A)) && !(A != gf128(A)), "comparison is wrong");
      c.check(A.is_zero() == (a == 0), "is_zero is wrong");
      if (j % 4 == 0) {
        u128 s = gfmul_ref(a, a);
        eq(A.squared(), s, "squared"); eq(A * A, s, "a*a");
        Slot x(int(below(c.rng, 3)), a), y(int(below(c.rng, 3)), a);
        *x.p *= *x.p; eq(*x.p, s, "a*=a"); y.p->square(); eq(*y.p, s, "square");
        // laws with a third operand
        u128 d = elem(c.rng);
        gf128 D = G::make(d);
        c.check((A * B) * D == A * (B * D), "multiplication is not associative with " + hex(d));
        c.check(A * (B + D) == A * B + A * D, "multiplication does not distribute over addition of " + hex(d));
        c.stat("laws", 2);
      }
      if (j % 8 == 0) {
        gf128 I = A.inverse();
        eq(A, a, "a after inverse");
        if (a == 0) eq(I, 0, "inverse of zero");
        else { c.check(gfmul_ref(a, G::canon(I)) == 1, "inverse is wrong: " + hex(G::canon(I))); eq(A * I, 1, "a*inverse(a)"); eq(I.inverse(), a, "inverse of inverse"); eq(B * A * I, b, "b*a/a"); }
        c.stat("inverses");
      }
      if (j % 8 == 1) {  // representations
        auto w = A.as_words();
        c.check(w.size() == 2 && w[0] == uint64_t(a) && w[1] == uint64_t(a >> 64), "as_words is wrong");
        c.check(U(static_cast<absl::uint128>(A)) == a, "conversion to uint128 is wrong");
        eq(gf128(A), a, "copy"); eq(gf128(dv::A(a)), a, "construction from uint128");
        eq(gf128(uint64_t(a >> 64), uint64_t(a)), a, "construction from two words");
        eq(gf128(uint64_t(a)), u128(uint64_t(a)), "construction from one word");
        gf128 Z; eq(Z, 0, "default construction"); Z = A; eq(Z, a, "assignment");
        eq(gf128::zero(), 0, "zero"); eq(gf128::one(), 1, "one"); eq(gf128::multiplicative_generator, 2, "generator");
        std::ostringstream o; o << A;
        std::ostringstream dec; dec << dv::A(a);
        c.check(o.str().find(dec.str()) != std::string::npos, "printed value " + o.str() + " lacks " + dec.str());
        auto h = [](const gf128 &x) { return absl::Hash<gf128>()(x); };
        c.check(h(A) == h(gf128(A)), "equal elements hash differently");
        gf128 lo = G::make(a ^ 1), hi = G::make(a ^ (u128(1) << 64)), top = G::make(a ^ (u128(1) << 127));
        c.check(!(h(A) == h(lo)) && !(h(A) == h(hi)) && !(h(A) == h(top)), "hash ignores part of the element");
        std::stringstream s1, s2;
        const gf128 A1 = A, B1 = B;
        { boost::archive::binary_oarchive oa(s1); oa << A1 << B1; }
        { boost::archive::binary_iarchive ia(s1); gf128 x, y(7); ia >> x >> y; eq(x, a, "binary archive round trip"); eq(y, b, "binary archive round trip of a second element"); }
        { boost::archive::text_oarchive oa(s2); oa << A1; }
        { boost::archive::text_iarchive ia(s2); gf128 x(~0ull, 3); ia >> x; eq(x, a, "text archive round trip"); }
        c.stat("representations");
      }
      c.stat("products");
      if (c.rep.sigs.size() < 150000) c.sig(c.desc);
    }
    { // 128 squarings are the identity
      gf128 x = B;
      for (int k = 0; k < 128; k++) x.square();
      c.check(G::canon(x) == b, "128 squarings of " + hex(b) + " give " + hex(G::canon(x)));
    }
  }
  for (int i = 0; i < 64; i++) {
    gf128 x = gf128::random_element(), y(~0ull, ~0ull);
    y.randomize();
    rnd_elems.push_back(G::canon(x));
    rnd_elems.push_back(G::canon(y));
  }
  c.sample(c.desc);
}
static void at_end(Report &r) {
  Hist h; Bits b; FreshSet f;
  h.add_all(rnd_elems, 0); b.add_all(rnd_elems, 128);
  int bit = 0;
  if (h.z() > kZ) throw Violation("random elements are not uniform: z=" + std::to_string(h.z()));
  if (b.z(&bit) > kZ) throw Violation("bit " + std::to_string(bit) + " of random elements is biased");
  for (auto v : rnd_elems) if (!f.s_.insert(v).second) throw Violation("a random element repeats: " + hex(v));
  r.stats["random_elements"] = rnd_elems.size();
  // the published generator has full order
  u128 g = G::canon(gf128::multiplicative_generator), n = ~u128(0);
  if (pow_ref(g, n) != 1) throw Violation("generator does not have order dividing 2^128-1");
  for (u128 p : {u128(3), u128(5), u128(17), u128(257), u128(641), u128(65537), u128(274177), u128(6700417), u128(67280421310721ull)})
    if (pow_ref(g, n / p) == 1) throw Violation("generator has too small an order");
  if (gf128::extension_degree() != 128 || gf128::num_bits != 128 || gf128::modulus_ != 0x87) throw Violation("published field constants are wrong");
}
int main(int argc, char **argv) { return harness_main(argc, argv, run_case, at_end); }
