// Schedule independence: the same operation with the same inputs and coins, under
// several team sizes and perturbed schedules, must give the same outputs and the
// same messages.
#include "proto.h"
#include "distributed_vector_ole/cuckoo_hasher.h"
#include "distributed_vector_ole/ggm_tree.h"

namespace dv {
static void put(std::string &s, const Vec1 &v) { s.append(reinterpret_cast<const char *>(v.data()), v.size() * sizeof(u128)); s += '|'; }
static void put(std::string &s, const Vec2 &v) { for (auto &x : v) put(s, x); s += '/'; }
template <typename V> static void ints(std::string &s, const V &v) { for (int64_t x : v) s.append(reinterpret_cast<const char *>(&x), 8); s += '|'; }

// What one execution produced, in named parts.
using Trace = std::vector<std::pair<std::string, std::string>>;

static void traffic(Trace &t, Pair &p) {
  for (int s : {0, 1}) {
    std::string x;
    for (auto &e : p.link()->log)
      if (e.side == s) { x += e.kind; x += std::to_string(e.stream) + ":" + std::to_string(e.bytes.size()) + ":" + e.bytes; }
    t.push_back({"messages of party " + std::to_string(s), x});
  }
  std::string o;
  for (auto &r : p.link()->ot_log) {
    o += r.correlated ? 'c' : 'p';
    o += char('0' + r.sender);
    o.append(reinterpret_cast<const char *>(r.m0.data()), r.m0.size() * 16);
    o.append(reinterpret_cast<const char *>(r.m1.data()), r.m1.size() * 16);
    o.append(reinterpret_cast<const char *>(r.choices.data()), r.choices.size());
  }
  t.push_back({"oblivious transfers", o});
  p.link()->clear_logs();
}

static Trace execute(Ctx &c, int kind, std::string *shape) {
  Trace t;
  if (kind == 4 || kind == 5) {
    std::vector<int64_t> in;
    int nh = int(range(c.rng, 2, kind == 5 ? 3 : 4));
    int64_t n = logrange(c.rng, 1, kind == 4 ? 3000 : 400);
    std::set<int64_t> u;
    while (int64_t(u.size()) < n) u.insert(range(c.rng, 0, 1 << 20));
    in.assign(u.begin(), u.end());
    for (size_t i = in.size(); i > 1; i--) std::swap(in[i - 1], in[below(c.rng, i)]);
    auto h = vo::CuckooHasher::Create(absl::MakeUint128(c.rng(), c.rng()), nh, 30);
    ok(h.status());
    int64_t nb = kind == 4 ? logrange(c.rng, 1, 2000) : 0;
    if (kind == 5) { auto b = h.ValueOrDie()->GetOptimalNumberOfBuckets(n); ok(b.status()); nb = b.ValueOrDie(); }
    *shape = "hashing " + std::to_string(n) + " items to " + std::to_string(nb) + " buckets";
    auto a = h.ValueOrDie()->Hash(absl::MakeConstSpan(in), nb);
    ok(a.status());
    std::string s;
    for (auto &x : a.ValueOrDie()) ints(s, x);
    t.push_back({"hashes", s});
    auto b = h.ValueOrDie()->HashSimple(absl::MakeConstSpan(in), nb);
    ok(b.status());
    s.clear();
    for (auto &x : b.ValueOrDie()) ints(s, x);
    t.push_back({"buckets", s});
    if (kind == 5) {
      auto k = h.ValueOrDie()->HashCuckoo(absl::MakeConstSpan(in), nb);
      s.clear();
      if (k.ok()) ints(s, k.ValueOrDie()); else s = "failed";
      t.push_back({"cuckoo table", s});
    }
    return t;
  }
  std::string m = pick_modulus(c);
  Env e = env_for(c);
  Pair p(c, e, c.rng());
  p.link()->record = true;
  *shape = type_str(m) + ", " + env_str(e);
  int runs = int(range(c.rng, 1, 2));
  std::unique_ptr<vo::AllButOneRandomOT> a[2];
  std::unique_ptr<vo::SPFSSKnownIndex> s[2];
  std::unique_ptr<vo::MPFSSKnownIndices> q[2];
  std::unique_ptr<vo::ScalarVectorGilboaProduct> g[2];
  if (kind == 0) p.create(a, "all-but-one ROT");
  if (kind == 1) p.create(s, "SPFSS");
  if (kind == 2) p.create(q, "MPFSS");
  if (kind == 3) p.create(g, "the product");
  for (int r = 0; r < runs; r++) {
    Out2 o;
    if (kind == 0) { Batch b = batch_for(c, 1500, 60); *shape += "; ROT " + b.str(); o = do_abo(p, a, b, below(c.rng, 4) == 0); }
    if (kind == 1) { Batch b = batch_for(c, 1500, 60); *shape += "; SPFSS " + b.str(); o = do_spfss(p, s, b, below(c.rng, 4) == 0); }
    if (kind == 2) { Multi b = multi_for(c, 3000, 60); *shape += "; MPFSS " + b.str(); o = do_mpfss(p, q, b, int(below(c.rng, 4))); }
    if (kind == 3) { Product b = product_for(c, 80); *shape += "; product " + std::to_string(b.y.size()); o = do_gilboa(p, g, b, int(below(c.rng, 4))); }
    std::string x, y;
    put(x, o.s); put(y, o.r);
    t.push_back({"output of the sender", x});
    t.push_back({"output of the receiver", y});
    traffic(t, p);
  }
  return t;
}

static void sched(Ctx &c) {
  static const int kTeams[] = {1, 2, 3, 5, 8};
  int kind = int(c.id % 6);
  uint64_t inputs = c.rng();
  Trace first;
  std::string shape, first_conf;
  minigomp_one_by_one(true);
  int n = 0;
  for (int k = 0; k < (c.thorough ? 10 : 6); k++) {
    int team = k < 5 ? kTeams[(c.id / 6 + uint64_t(k)) % 5] : pick(c.rng, std::vector<int>{3, 4, 6, 7, 8});
    uint64_t ps = c.rng();
    minigomp_set_team(team);
    minigomp_perturb(k > 0, ps);
    rand_case(inputs);
    Ctx k2(inputs, 0, c.rep, c.thorough);
    know_ntl();
    Trace t = execute(k2, kind, &shape);
    std::string conf = std::to_string(team) + " threads" + (k > 0 ? ", perturbed" : "");
    if (k == 0) { first = t; first_conf = conf; }
    else {
      c.desc = shape;
      c.check(t.size() == first.size(), "with " + conf + " the run is not the same as with " + first_conf);
      for (size_t i = 0; i < t.size(); i++)
        if (t[i].second != first[i].second)
          c.fail("with " + conf + " the " + t[i].first + " (" + std::to_string(i) + ") differ from those with " + first_conf + ": " +
                 std::to_string(t[i].second.size()) + " and " + std::to_string(first[i].second.size()) + " bytes");
    }
    n++;
    for (auto &x : t) c.stat("bytes_compared", x.second.size());
  }
  c.stat("schedules_compared", uint64_t(n - 1));
  c.sig(shape);
  c.sample(shape);
}
}  // namespace dv
int main(int argc, char **argv) { return dv::harness_main(argc, argv, dv::sched); }
