// C16 (structure, agreement) and C17 (bucket counts, success) of hashing.
#include <omp.h>
#include "hist.h"
#include "distributed_vector_ole/cuckoo_hasher.h"
using namespace dv;
using Hasher = distributed_vector_ole::CuckooHasher;
template <typename T> using Span = absl::Span<const T>;

static std::unique_ptr<Hasher> make(Ctx &c, u128 seed, int nh, double s) {
  auto h = Hasher::Create(A(seed), nh, s);
  c.check(h.ok(), "creating a hasher failed: " + h.status().ToString());
  return std::move(h.ValueOrDie());
}
// The published formula (cryptoTools, eprint 2018/579), stash size 0.
static double formula(double n, int nh, double s) {
  double log_n = std::log2(n);
  if (nh == 3) {
    double a = 123.5 / 2 * (1 + std::erf((log_n - 6.3) / (2.3 * std::sqrt(2))));
    double b = -130.0 / 2 * (1 + std::erf((log_n - 6.45) / (2.18 * std::sqrt(2)))) - log_n;
    return std::ceil((s - b) / a * n);
  }
  double e = 1, v = 0;
  while (v < s) { e += 1; v = 3.3 * std::log2(e) - 0.8 + log_n - (5 * log_n + 14) * std::pow(e, -2.5); }
  return std::ceil(e * n);
}

static Hist loc_hist[6], big_hist;
static double pair_hits = 0, pair_exp = 0, seed_hits = 0, seed_exp = 0;

template <typename T> static std::vector<T> inputs(Ctx &c, int64_t n);
template <typename T> static std::vector<T> ints(Ctx &c, int64_t n) {
  std::set<T> s;
  std::vector<T> v;
  int mode = int(below(c.rng, 4));
  T start = T(c.rng());
  while (int64_t(v.size()) < n) {
    T x = mode == 0 ? T(v.size()) : mode == 1 ? T(start + T(v.size())) : mode == 2 ? T(c.rng() >> below(c.rng, 40)) : T(T(v.size()) << (sizeof(T) > 4 ? 20 : 1));
    if (!s.insert(x).second) x = T(c.rng());
    else { v.push_back(x); continue; }
    if (s.insert(x).second) v.push_back(x);
  }
  return v;
}
template <> std::vector<int64_t> inputs(Ctx &c, int64_t n) { return ints<int64_t>(c, n); }
template <> std::vector<uint64_t> inputs(Ctx &c, int64_t n) { return ints<uint64_t>(c, n); }
template <> std::vector<int> inputs(Ctx &c, int64_t n) { return ints<int>(c, n); }
template <> std::vector<absl::uint128> inputs(Ctx &c, int64_t n) {
  std::vector<absl::uint128> v;
  int sh = below(c.rng, 2) ? 64 : 0;
  for (auto x : ints<uint64_t>(c, n)) v.push_back(absl::uint128(x) << sh);
  return v;
}

template <typename T> static void c16t(Ctx &c, const char *tn) {
  int nh = int(pick(c.rng, std::vector<int>{3, 3, 3, 3, 2, 2, 4, 5, 1, 6}));
  int64_t n = below(c.rng, 5) == 0 ? range(c.rng, 1, 6) : logrange(c.rng, 1, c.thorough ? 8000 : 1500);
  double s = pick(c.rng, std::vector<double>{40, 40, 30, 60});
  bool giant = !c.small && c.id < 6;  // more than 2^16 items and buckets
  if (giant) { n = range(c.rng, 66000, 140000); nh = c.id == 5 ? 2 : 3; c.stat("giant_cases"); }
  u128 seed = rnd128(c.rng);
  auto h = make(c, seed, nh, s);
  auto in = inputs<T>(c, n);
  int64_t nb;
  bool optimal = (nh == 2 || nh == 3) && below(c.rng, 3) != 0;
  if (optimal) {
    auto o = h->GetOptimalNumberOfBuckets(n);
    c.check(o.ok(), "no bucket count");
    nb = o.ValueOrDie();
    if (nb > 30000 + 4 * n) { nb = 30000 + 4 * n; optimal = false; }  // two hash functions need very many for high security
  } else if (giant) nb = n + range(c.rng, 0, 2 * n);
  else nb = below(c.rng, 4) == 0 ? range(c.rng, 1, 5) : logrange(c.rng, 1, 4 * n + 4);
  int team = int(pick(c.rng, std::vector<int>{1, 2, 3, 5, 8}));
  omp_set_num_threads(team);
  c.desc = std::string(tn) + ", " + std::to_string(n) + " inputs, " + std::to_string(nb) + " buckets, " + std::to_string(nh) + " functions, " + std::to_string(team) + " threads";
  auto H = h->Hash(Span<T>(in), nb);
  c.check(H.ok(), "Hash failed");
  auto &L = H.ValueOrDie();
  c.check(int64_t(L.size()) == n, "Hash returns the wrong number of entries");
  for (auto &l : L) {
    c.check(int(l.size()) == nh, "Hash returns the wrong number of locations");
    for (auto b : l) c.check(b >= 0 && b < nb, "location " + std::to_string(b) + " outside the buckets");
  }
  c.stat("locations", uint64_t(n) * uint64_t(nh));
  if (!giant && below(c.rng, 3) == 0) {  // far more buckets than could be stored
    int64_t big = below(c.rng, 2) ? int64_t(c.rng() >> range(c.rng, 2, 34)) + 1 : (int64_t(1) << pick(c.rng, std::vector<int>{31, 32, 33, 40, 53, 61})) + range(c.rng, -2, 2);
    auto a = h->Hash(Span<T>(in), big);
    auto b = make(c, seed, nh, s)->template Hash<T, 6>(Span<T>(in), big);
    c.check(a.ok() && b.ok(), "Hash failed for " + std::to_string(big) + " buckets");
    for (int j = 0; j < nh; j++) {
      std::vector<u128> v;
      for (int64_t i = 0; i < n; i++) {
        int64_t at = a.ValueOrDie()[size_t(i)][size_t(j)];
        c.check(at >= 0 && at < big, "location " + std::to_string(at) + " outside " + std::to_string(big) + " buckets");
        c.check(at == b.ValueOrDie()[size_t(i)][size_t(j)], "the location of an item depends on more than seed, bucket count and item");
        v.push_back(u128(at));
      }
      loc_hist[j].add_all(v, u128(big));
      big_hist.add_all(v, u128(big));
      if (big > (int64_t(1) << 40) && n > 100) {  // no two of few items share a location
        std::set<u128> d(v.begin(), v.end());
        c.check(int64_t(d.size()) + 2 >= n || double(n) * double(n) > double(big) / 1000, "locations in " + std::to_string(big) + " buckets repeat");
      }
    }
    c.stat("huge_bucket_counts");
  }
  // a function of seed, bucket count and item alone
  {
    auto h2 = make(c, seed, nh, s + 1);
    std::vector<size_t> perm(static_cast<size_t>(n));
    for (size_t i = 0; i < perm.size(); i++) perm[i] = i;
    for (size_t i = perm.size(); i > 1; i--) std::swap(perm[i - 1], perm[below(c.rng, i)]);
    size_t m = size_t(range(c.rng, 1, n));
    std::vector<T> sub;
    for (size_t i = 0; i < m; i++) sub.push_back(in[perm[i]]);
    omp_set_num_threads(int(range(c.rng, 1, 6)));
    auto H2 = h2->Hash(Span<T>(sub), nb);
    omp_set_num_threads(team);
    c.check(H2.ok(), "Hash failed");
    for (size_t i = 0; i < m; i++)
      for (int j = 0; j < nh; j++) c.check(H2.ValueOrDie()[i][size_t(j)] == L[perm[i]][size_t(j)], "the location of an item depends on more than seed, bucket count and item");
    auto h3 = make(c, rnd128(c.rng), nh, s);
    auto H3 = h3->Hash(Span<T>(in), nb);
    c.check(H3.ok(), "Hash failed");
    for (int64_t i = 0; i < n; i++) for (int j = 0; j < nh; j++) seed_hits += H3.ValueOrDie()[size_t(i)][size_t(j)] == L[size_t(i)][size_t(j)];
    seed_exp += double(n) * nh / double(nb);
  }
  for (int j = 0; j < nh; j++) {
    std::vector<u128> v;
    for (auto &l : L) v.push_back(u128(l[size_t(j)]));
    loc_hist[j].add_all(v, u128(nb));
    for (int k = 0; k < j; k++) {
      for (auto &l : L) pair_hits += l[size_t(j)] == l[size_t(k)];
      pair_exp += double(n) / double(nb);
    }
  }
  // simple hashing
  auto S = h->HashSimple(Span<T>(in), nb);
  c.check(S.ok(), "HashSimple failed: " + S.status().ToString());
  auto &B = S.ValueOrDie();
  c.check(int64_t(B.size()) == nb, "HashSimple returns the wrong number of buckets");
  {
    std::vector<std::vector<int64_t>> want(static_cast<size_t>(nb));
    for (int64_t i = 0; i < n; i++) for (int j = 0; j < nh; j++) want[size_t(L[size_t(i)][size_t(j)])].push_back(i);
    for (int64_t b = 0; b < nb; b++) {
      auto &x = B[size_t(b)];
      c.check(std::is_sorted(x.begin(), x.end()), "bucket " + std::to_string(b) + " is not in ascending order");
      c.check(x == want[size_t(b)], "bucket " + std::to_string(b) + " does not contain exactly the items hashed to it");
    }
    c.stat("buckets", uint64_t(nb));
  }
  if (nh >= 2 && nb >= n) {
    auto C = h->HashCuckoo(Span<T>(in), nb);
    auto C2 = make(c, seed, nh, s)->HashCuckoo(Span<T>(in), nb);
    c.check(C.ok() == C2.ok(), "cuckoo hashing is not deterministic");
    if (!C.ok()) {
      c.check(!optimal, "cuckoo hashing failed: " + C.status().ToString());
      c.stat("overloaded_failures");
    } else {
      auto &K = C.ValueOrDie();
      c.check(K == C2.ValueOrDie(), "cuckoo hashing is not deterministic");
      c.check(int64_t(K.size()) == nb, "cuckoo hashing returns the wrong number of buckets");
      std::vector<int> seen(size_t(n), 0);
      for (int64_t b = 0; b < nb; b++) {
        int64_t i = K[size_t(b)];
        c.check(i >= -1 && i < n, "bucket " + std::to_string(b) + " contains " + std::to_string(i));
        if (i < 0) continue;
        c.check(seen[size_t(i)]++ == 0, "item " + std::to_string(i) + " is in two buckets");
        bool at = false;
        for (auto l : L[size_t(i)]) at |= l == b;
        c.check(at, "item " + std::to_string(i) + " is in bucket " + std::to_string(b) + ", none of its hash locations");
      }
      for (int64_t i = 0; i < n; i++) c.check(seen[size_t(i)] == 1, "item " + std::to_string(i) + " was lost");
      c.stat("cuckoo_tables");
      // the other party lists the same items, among others, in the same buckets
      std::vector<T> super(in.begin(), in.end());
      std::vector<T> more = inputs<T>(c, n / 2 + 3);
      std::set<T> have(in.begin(), in.end());
      for (auto &x : more) if (have.insert(x).second) super.push_back(x);
      std::sort(super.begin(), super.end());
      auto S2 = make(c, seed, nh, s)->HashSimple(Span<T>(super), nb);
      c.check(S2.ok(), "HashSimple failed");
      for (int64_t b = 0; b < nb; b++)
        if (K[size_t(b)] >= 0) {
          bool f = false;
          for (auto i : S2.ValueOrDie()[size_t(b)]) f |= super[size_t(i)] == in[size_t(K[size_t(b)])];
          c.check(f, "the other party does not list item " + std::to_string(K[size_t(b)]) + " in bucket " + std::to_string(b));
        }
    }
  }
  c.sig(c.desc);
  c.sample(c.desc);
}
static void c16(Ctx &c) {
  switch (below(c.rng, 5)) {
    case 0: c16t<uint64_t>(c, "uint64"); break;
    case 1: c16t<int>(c, "int"); break;
    case 2: c16t<absl::uint128>(c, "uint128"); break;
    default: c16t<int64_t>(c, "int64");
  }
}
static void c16_end(Report &r) {
  if (big_hist.z() > kZ) throw Violation("locations in very many buckets are not uniform: z=" + std::to_string(big_hist.z()));
  for (int j = 0; j < 6; j++) if (loc_hist[j].z() > kZ) throw Violation("hash function " + std::to_string(j) + " is not uniform: z=" + std::to_string(loc_hist[j].z()));
  auto z = [](double a, double e) { return std::fabs(a - e) / std::sqrt(2 * e + 30); };
  if (z(pair_hits, pair_exp) > 3 * kZ) throw Violation("hash functions are not independent of each other: " + std::to_string(pair_hits) + " common locations, expected " + std::to_string(pair_exp));
  if (z(seed_hits, seed_exp) > 3 * kZ) throw Violation("hash functions do not depend on the seed: " + std::to_string(seed_hits) + " equal locations, expected " + std::to_string(seed_exp));
  r.stats["uniformity_samples"] = uint64_t(loc_hist[0].n);
}

static void c17(Ctx &c) {
  int nh = int(below(c.rng, 3) == 0 ? 2 : 3);
  double s = pick(c.rng, std::vector<double>{40, 40, 41, 30, 50, 64, 41 + 0.584962500721156, 30 + 0.9, 45.5});
  if (nh == 3 && below(c.rng, 6) == 0) s = pick(c.rng, std::vector<double>{0, 0.5, 5.25, 12, 79.75});
  int64_t n = c.id < 64 ? int64_t(c.id) + 1 : logrange(c.rng, 1, c.thorough ? 60000 : 4000);
  if (c.id < 64) { nh = 3; s = 40; }
  if (!c.small && c.id >= 64 && c.id < 68) { nh = 3; n = c.id == 64 ? 65536 : c.id == 65 ? 1 << 20 : range(c.rng, 65537, 300000); c.stat("giant_cases"); }
  c.desc = std::to_string(n) + " inputs, " + std::to_string(nh) + " functions, security " + std::to_string(s).substr(0, 5);
  auto h = make(c, rnd128(c.rng), nh, s);
  auto o = h->GetOptimalNumberOfBuckets(n);
  c.check(o.ok(), "no bucket count: " + o.status().ToString());
  int64_t nb = o.ValueOrDie();
  double f = formula(double(n), nh, s);
  c.desc += ", " + std::to_string(nb) + " buckets";
  c.check(nb >= n, "fewer buckets than inputs");
  c.check(double(nb) >= f - 1, "fewer buckets than the published analysis requires (" + std::to_string(int64_t(f)) + ")");
  c.check(double(nb) <= 1.5 * f + 8, "far more buckets than the published analysis requires (" + std::to_string(int64_t(f)) + ")");
  auto o2 = make(c, rnd128(c.rng), nh, s + 7)->GetOptimalNumberOfBuckets(n);
  c.check(o2.ok() && o2.ValueOrDie() >= nb, "more security needs fewer buckets");
  c.stat("bucket_counts");
  int64_t reps = std::max<int64_t>(2, std::min<int64_t>(c.thorough ? 3000 : 600, (c.thorough ? 2000000 : 400000) / (n + 20)));
  if (s < 30) reps = 0;  // failures are allowed
  if (nb > 400000) { reps = 0; c.stat("counts_only"); }
  reps = std::min<int64_t>(reps, 1 + (c.thorough ? 40000000 : 6000000) / nb);
  for (int64_t k = 0; k < reps; k++) {
    u128 seed = rnd128(c.rng);
    auto hh = make(c, seed, nh, s);
    std::vector<int64_t> in(static_cast<size_t>(n));
    std::set<int64_t> d;
    int mode = int(below(c.rng, 3));
    for (auto &x : in) do { x = mode == 0 ? &x - &in[0] : mode == 1 ? range(c.rng, 0, 20 * n) : int64_t(c.rng() >> 1); } while (mode != 0 && !d.insert(x).second);
    auto t = hh->HashCuckoo(Span<int64_t>(in), nb);
    if (!t.ok()) c.fail("hashing failed with seed " + hex(seed) + ": " + t.status().ToString());
    int64_t used = 0;
    for (auto x : t.ValueOrDie()) used += x >= 0;
    c.check(used == n, "items were lost");
    c.stat("tables");
    c.stat("insertions", uint64_t(n));
  }
  // impossible and nearly impossible requests end with an error
  {
    std::vector<int64_t> in(static_cast<size_t>(n));
    for (size_t i = 0; i < in.size(); i++) in[i] = int64_t(i) * 3;
    if (n > 1) {
      auto t = h->HashCuckoo(Span<int64_t>(in), range(c.rng, 1, n - 1));
      c.check(!t.ok() && t.status().code() == mpc_utils::StatusCode::kInvalidArgument, "more items than buckets are not rejected");
    }
    if (nb > 400000) nb = n;
    auto t = h->HashCuckoo(Span<int64_t>(in), n);
    if (t.ok()) { std::set<int64_t> u; for (auto x : t.ValueOrDie()) u.insert(x); c.check(int64_t(u.size()) == n && *u.begin() == 0, "full table is not a permutation"); c.stat("full_tables"); }
    else { c.check(t.status().code() == mpc_utils::StatusCode::kInternal, "overfull hashing does not fail with an internal error"); c.stat("overfull_errors"); }
    auto e = h->HashCuckoo(Span<int64_t>(), nb);
    if (e.ok()) for (auto x : e.ValueOrDie()) c.check(x == -1, "an empty table contains an item");
    c.check(!h->HashCuckoo(Span<int64_t>(in), 0).ok() && !h->HashCuckoo(Span<int64_t>(in), -3).ok(), "non-positive bucket counts are accepted");
    c.check(!h->GetOptimalNumberOfBuckets(-1).ok(), "negative input counts are accepted");
    auto z = h->GetOptimalNumberOfBuckets(0);
    c.check(z.ok() && z.ValueOrDie() >= 1, "no usable bucket count for zero inputs");
    c.check(!make(c, 1, 4, s)->GetOptimalNumberOfBuckets(n).ok(), "a bucket count for an unsupported number of hash functions");
    c.check(!make(c, 1, 1, s)->HashCuckoo(Span<int64_t>(in), nb).ok(), "cuckoo hashing with one function is accepted");
    c.check(!Hasher::Create(A(1), 0, s).ok() && !Hasher::Create(A(1), -2, s).ok(), "a non-positive number of hash functions is accepted");
  }
  c.sig(c.desc);
  c.sample(c.desc);
}
int main(int argc, char **argv) {
  for (int i = 1; i + 1 < argc; i++) if (std::string(argv[i]) == "--prop" && std::string(argv[i + 1]) == "C17") return harness_main(argc, argv, c17);
  return harness_main(argc, argv, c16, c16_end);
}
