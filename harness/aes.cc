// C14 (keystream) and C15 (reseed budget, with DVOLE_VERIF_RESEED_INTERVAL).
#include "aesref.h"
#include "distributed_vector_ole/aes_uniform_bit_generator.h"
using namespace dv;
using Gen = distributed_vector_ole::AESUniformBitGenerator;

struct Ref {  // the specified stream
  AesRef k; u128 nonce; uint64_t i = 0; u128 cur = 0;
  Ref(const uint8_t *s) { u128 key; memcpy(&key, s, 16); memcpy(&nonce, s + 16, 16); k = AesRef(key); }
  uint64_t at(uint64_t n) const { u128 b = k.enc(nonce + n / 2); return uint64_t(n % 2 ? b >> 64 : b); }
  uint64_t next() {
    if (i % 2 == 0) cur = k.enc(nonce + i / 2);
    return uint64_t(i++ % 2 ? cur >> 64 : cur);
  }
};
struct Seed { std::vector<uint8_t> mem; int off, len; absl::Span<const uint8_t> span() const { return absl::MakeConstSpan(mem).subspan(off, len); } };
static Seed seed(Rng &r) {
  Seed s;
  s.off = int(below(r, 17)); s.len = below(r, 3) ? 32 : int(range(r, 32, 80));
  s.mem.resize(size_t(s.off + s.len + 3));
  for (auto &b : s.mem) b = uint8_t(r());
  uint8_t *n = &s.mem[size_t(s.off) + 16];
  switch (below(r, 6)) {  // nonces that are about to carry or wrap
    case 0: memset(n, 0xff, 16); n[0] = uint8_t(r()); break;
    case 1: memset(n, 0xff, 8); n[0] = uint8_t(0xff - below(r, 9)); break;
    case 2: memset(n, 0, 16); break;
    case 3: memset(n, 0xff, 4); break;
  }
  return s;
}
static int64_t bufsize(Rng &r, bool big) {
  static const int64_t v[] = {65536, 70001, 131072, 2, 3, 4, 5, 7, 8, 16, 17, 63, 64, 65, 1000, 1001, 1, 0, -5, 1023};
  if (big) return Gen::kDefaultBufferSize;
  return below(r, 3) ? v[below(r, sizeof v / sizeof *v)] : logrange(r, 1, 20000);
}
template <typename X> static Gen make(Ctx &c, const Seed &s, X buf) {
  auto g = Gen::Create(s.span(), buf);
  c.check(g.ok(), "creating a generator failed: " + g.status().ToString());
  return std::move(g.ValueOrDie());
}
static void c14(Ctx &c) {
  c.check(AesRef::self_test(), "monitor: reference AES is broken");
  c.check(Gen::min() == 0 && Gen::max() == ~0ull, "declared range is not that of 64-bit values");
  bool big = c.id % 50 == 7;
  Seed s = seed(c.rng);
  int64_t buf = bufsize(c.rng, big);
  int64_t draws = big ? 2 * Gen::kDefaultBufferSize + 100 : logrange(c.rng, 1, 6000);
  c.desc = "buffer " + std::to_string(buf) + ", " + std::to_string(draws) + " draws, seed of " + std::to_string(s.len) + " bytes at offset " + std::to_string(s.off);
  Gen g = big && below(c.rng, 2) ? std::move(Gen::Create(s.span()).ValueOrDie()) : make(c, s, buf);
  Ref ref(s.span().data());
  auto drawn = [&](Gen &x, Ref &f, const char *what) {
    uint64_t a = x(), b = f.next();
    if (a != b) c.fail(std::string(what) + ": draw " + std::to_string(f.i - 1) + " is " + hex(a) + ", AES-CTR gives " + hex(b));
    c.stat("draws");
  };
  Seed other = seed(c.rng);
  s.mem[size_t(s.off) + 3] ^= 0;  // the generator must not keep a pointer to the seed
  Seed orig = s;
  for (auto &x : s.mem) x = 0xA5;
  for (int64_t i = 0; i < draws; i++) {
    drawn(g, ref, "stream");
    uint64_t ev = big ? 100 : below(c.rng, 400);
    if (ev == 0) {  // copies continue independently
      Gen h = g; Ref r2 = ref;
      for (int k = 0; k < 9; k++) drawn(h, r2, "copied generator");
      c.stat("copies");
    } else if (ev == 1) { Gen h = std::move(g); g = std::move(h); c.stat("moves"); }
    else if (ev == 2) {  // reseed in the middle of a buffer
      const Seed &n = below(c.rng, 2) ? other : orig;
      c.check(g.seed(n.span()).ok(), "reseeding failed");
      ref = Ref(n.span().data());
      c.stat("reseeds");
    } else if (ev == 3) {  // a rejected seed changes nothing
      auto st = g.seed(orig.span().subspan(0, below(c.rng, 32)));
      c.check(!st.ok(), "a short seed was accepted");
      c.stat("rejected_seeds");
    } else if (ev == 4) {  // a second generator with another buffer size, interleaved
      Gen h = make(c, orig, bufsize(c.rng, false));
      Ref r2(orig.span().data());
      for (int k = 0; k < 40; k++) { drawn(h, r2, "second generator"); if (k % 3 == 0) { drawn(g, ref, "interleaved stream"); } }
      c.stat("interleavings");
    }
  }
  c.sig(c.desc);
  c.sample(c.desc);
}
static void c15(Ctx &c) {
  const int64_t I = Gen::kReseedInterval;
  c.check(I > 0 && I <= (1ll << 48), "reseed interval is " + std::to_string(I) + " blocks");
#ifdef DVOLE_VERIF_RESEED_INTERVAL
  if (I != DVOLE_VERIF_RESEED_INTERVAL) { c.stat("hook_ignored"); c.sig("const"); return; }
  const bool huge = I > (1ll << 30);
  if (huge && c.id > 0) return;
  Seed s = seed(c.rng);
  int64_t buf = huge ? 1 << 14 : below(c.rng, 4) == 0 ? 2 * I + range(c.rng, -5, 6) : bufsize(c.rng, false);
  if (!huge && below(c.rng, 5) == 0) {  // an exact divisor of the budget
    std::vector<int64_t> d;
    for (int64_t k = 1; k <= I; k++) if (I % k == 0) d.push_back(2 * k);
    buf = pick(c.rng, d);
  }
  c.desc = "interval " + std::to_string(I) + " blocks, buffer " + std::to_string(buf);
  Gen g = make(c, s, buf);
  int64_t B = std::max<int64_t>(1, (buf + 1) / 2);  // blocks per refill
  int rounds = huge ? 1 : int(range(c.rng, 1, 3));
  for (int k = 0; k < rounds; k++) {
    Ref ref(s.span().data());
    int64_t n = 0;
    bool stopped = false;
    uint64_t sink = 0;
    try {
      if (huge) for (; n <= 2 * I; n++) sink ^= g();
      else for (; n <= 2 * I; n++) {
        uint64_t v = g();
        if (n % 64 < 8 || n > 2 * I - 200) c.check(v == ref.at(uint64_t(n)), "draw " + std::to_string(n) + " is not AES-CTR");
      }
    } catch (std::exception &) { stopped = true; }
    if (sink == 42) c.stat("never");
    c.check(stopped, "more than " + std::to_string(2 * I) + " values were delivered under one key");
    c.check(n <= 2 * I, "delivered " + std::to_string(n) + " values, budget is " + std::to_string(2 * I));
    c.check(n >= 2 * (I - B - 2), "stopped after " + std::to_string(n) + " values, long before the budget of " + std::to_string(2 * I));
    for (int j = 0; j < 3; j++) {  // the refusal is sticky, also for copies
      Gen h = g;
      Gen *who[] = {&g, &h};
      for (Gen *x : who)
        for (int64_t i = 0; i < 2 * B + 5 && i < 300; i++) {
          bool t = false;
          try { (*x)(); } catch (std::exception &) { t = true; }
          c.check(t, "a draw succeeded after the budget was used up (draw " + std::to_string(i) + " after the refusal)");
          c.stat("refusals");
        }
    }
    auto st = g.seed(s.span().subspan(0, 31));
    c.check(!st.ok(), "a short seed was accepted");
    bool t = false;
    try { g(); } catch (std::exception &) { t = true; }
    c.check(t, "a rejected seed restored the budget");
    if (I >= B) {
      s = seed(c.rng);
      c.check(g.seed(s.span()).ok(), "reseeding failed");
    } else break;
    c.stat("budgets_exhausted");
  }
  c.sig(c.desc);
  c.sample(c.desc);
#else
  c.stat("constant_checked");
  c.sig("const");
#endif
}
int main(int argc, char **argv) {
  for (int i = 1; i + 1 < argc; i++) if (std::string(argv[i]) == "--prop" && std::string(argv[i + 1]) == "C15") return harness_main(argc, argv, c15);
  return harness_main(argc, argv, c14);
}
