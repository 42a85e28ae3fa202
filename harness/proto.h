// One pair of parties on one channel, and every protocol of the repository as
// an operation whose outputs are checked with reference arithmetic.
#pragma once
#include <algorithm>
#include <numeric>
#include "types.h"
#include "hist.h"
#include "distributed_vector_ole/all_but_one_random_ot.h"
#include "distributed_vector_ole/distributed_vector_ole.h"
#include "distributed_vector_ole/mpfss_known_indices.h"
#include "distributed_vector_ole/scalar_vector_gilboa_product.h"
#include "distributed_vector_ole/spfss_known_index.h"
#include "mpc_utils/testing/comm_channel_test_helper.hpp"

namespace dv {
namespace vo = distributed_vector_ole;
using T = Scalar;
using Vec1 = std::vector<u128>;
using Vec2 = std::vector<Vec1>;
using VOLE = vo::DistributedVectorOLE<T>;

template <typename T = Scalar>
inline u128 order() { return TT<T>::kNtl ? mod().m : TT<T>::bits() == 128 ? u128(0) : u128(1) << (TT<T>::bits() % 128); }
template <typename T = Scalar>
inline bool reduced(u128 v) { u128 q = order<T>(); return q == 0 || v < q; }
template <typename T = Scalar, typename V>
Vec1 canon_vec(const V &v) {
  Vec1 r(size_t(v.size()));
  for (size_t i = 0; i < r.size(); i++) r[i] = TT<T>::canon(v[i]);
  return r;
}
// Inputs, at any alignment.
template <typename T> struct Input {
  using value_type = T;
  std::vector<T> b;
  size_t off;
  explicit Input(const Vec1 &v) : off(v.empty() ? 0 : mix(uint64_t(v[0]), v.size()) % 7 % 4) {
    b.reserve(off + v.size());
    for (size_t i = 0; i < off; i++) b.push_back(TT<T>::make(u128(i)));
    for (u128 x : v) b.push_back(TT<T>::make(x));
  }
  size_t size() const { return b.size() - off; }
  const T *data() const { return b.data() + off; }
};
template <typename T = Scalar>
inline Input<T> make_vec(const Vec1 &v) { return Input<T>(v); }
inline u128 sub_ref(u128 a, u128 b) { return TT<T>::add(a, TT<T>::neg(b)); }
inline void ok(const mpc_utils::Status &st) { if (!st.ok()) throw std::runtime_error(st.ToString()); }

struct Env { bool measured, swap; int id0, id1; double ss; };
inline Env env_for(Ctx &c) {
  Env e;
  e.measured = below(c.rng, 2); e.swap = below(c.rng, 2);
  int a = int(range(c.rng, -3, 5)), b = a + int(range(c.rng, 1, 4));
  bool f = below(c.rng, 2);
  e.id0 = f ? a : b; e.id1 = f ? b : a;
  e.ss = pick(c.rng, std::vector<double>{40, 40, 40, 35, 30, 45.5});
  return e;
}
inline std::string env_str(const Env &e) {
  return std::string(e.measured ? "measured" : "direct") + (e.swap ? ", sender is party 1" : ", sender is party 0") +
         ", ids " + std::to_string(e.id0) + "/" + std::to_string(e.id1) + ", security " + std::to_string(e.ss).substr(0, 4);
}
// A modulus for which `n` leaves can be hashed at any security drawn above.
template <typename T = Scalar>
inline std::string pick_modulus(Ctx &c, double n = 2e6) {
  for (;;) {
    std::string s = TT<T>::setup(c.rng, true);
    if (!TT<T>::kNtl || leaf_ok(47, n, mod().m)) return s;
  }
}
template <typename T = Scalar>
inline std::string type_str(const std::string &m) { return std::string(TT<T>::name()) + (m.empty() ? "" : " " + m); }

// The modulus of a type other than the one under test, for the threads of the parties.
template <typename T> struct Foreign : Carry<T> {};
template <> struct Foreign<Scalar> { void restore() const {} };
template <typename T> std::string other_str() { return std::is_same<T, Scalar>::value ? "" : "with elements of another type, " + type_str<T>("") + ": "; }

// Shares of every operation in the order (sender/value side, receiver/index side).
struct Pair {
  Ctx &c;
  Env e;
  mpc_utils::testing::CommChannelTestHelper h;
  Carry<T> ctx;
  uint64_t sub;
  Teams teams;
  bool hopping = false;  // every call on threads of its own choice
  Pair(Ctx &cc, const Env &en, uint64_t seed) : c(cc), e(en), h(en.measured, seed, en.id0, en.id1), sub(seed) {
    teams.draw(cc, seed);
    hopping = hops() && !cc.small && mix(seed, 0x406) % 4 == 0;
    if (hopping) cc.stat("thread_changing_cases");
  }
  int side(int role) const { return e.swap ? 1 - role : role; }
  dvlink::Link *link() { return h.link(); }
  std::string try_party(std::function<void()> f0, std::function<void()> f1) {
    uint64_t k = ++sub;
    teams.apply();
    hop(hopping ? mix(k, 0x407) % 3 : 0);
    auto in = [this](std::function<void()> f) {
      return [this, f] { ctx.restore(); know_ntl(); f(); };
    };
    return run_roles(link(), e.swap, in(f0), in(f1));
  }
  void party(std::function<void()> f0, std::function<void()> f1, const std::string &what) {
    std::string r = try_party(f0, f1);
    if (!r.empty()) c.fail(what + " failed: " + r);
    size_t n = link()->residue();
    if (n != 0) c.fail(what + " left " + std::to_string(n) + " unread item(s) on the channel");
  }
  template <typename P, typename... Args> void create(std::unique_ptr<P> (&o)[2], const char *what) {
    auto mk = [&](int role) {
      return [this, role, &o] {
        auto st = P::Create(h.GetChannel(side(role)), e.ss);
        ok(st.status());
        o[role] = std::move(st.ValueOrDie());
      };
    };
    party(mk(0), mk(1), std::string("creating ") + what);
  }
};

// ------------------------------------------------------------ shapes
struct Batch {
  std::vector<int64_t> sizes, idx;
  Vec1 vs, vr;  // value shares (SPFSS)
  std::string str() const {
    std::string s = "[";
    for (size_t i = 0; i < sizes.size(); i++) {
      if (i > 6) { s += " ... " + std::to_string(sizes.size()) + " members"; break; }
      s += (i ? " " : "") + std::to_string(idx[i]) + "/" + std::to_string(sizes[i]);
    }
    return s + "]";
  }
};
inline int64_t size_for(Rng &r, int64_t hi) {
  switch (below(r, 6)) {
    case 0: return range(r, 1, 9);
    case 1: { int64_t p = int64_t(1) << below(r, uint64_t(std::log2(double(hi)))); return std::max<int64_t>(1, p + range(r, -1, 1)); }
    default: return logrange(r, 1, hi);
  }
}
inline int64_t index_for(Rng &r, int64_t n) {
  switch (below(r, 6)) {
    case 0: return 0;
    case 1: return n - 1;
    case 2: return std::min<int64_t>(n - 1, int64_t(1) << below(r, 1 + uint64_t(std::log2(double(n)))));
    default: return range(r, 0, n - 1);
  }
}
template <typename T = Scalar>
inline Batch batch_for(Ctx &c, int64_t hi, int max_members, bool empties = true) {
  Batch b;
  int m;
  switch (below(c.rng, 6)) {
    case 0: m = 1; break;
    case 1: m = empties ? int(range(c.rng, 0, 1)) : 1; break;
    default: m = int(logrange(c.rng, 1, max_members));
  }
  int mode = int(below(c.rng, 4));
  int64_t same = size_for(c.rng, hi);
  for (int i = 0; i < m; i++) {
    int64_t n = mode == 0 ? same : size_for(c.rng, hi);
    if (mode != 0 && empties && below(c.rng, 6) == 0) n = 0;
    b.sizes.push_back(n);
    b.idx.push_back(n == 0 ? range(c.rng, 0, 3) : index_for(c.rng, n));
    b.vs.push_back(TT<T>::rnd(c.rng));
    b.vr.push_back(TT<T>::rnd(c.rng));
  }
  return b;
}
// A few designated cases per type are much larger than what is drawn.
inline bool &giants() { static bool on = false; return on; }
inline int giant(Ctx &c) { return giants() && !c.small && c.id < 3 ? int(c.id) : -1; }
// Some cases run the same objects several hundred times on small inputs, so
// that state that changes from run to run goes a long way.
inline bool &longs() { static bool on = false; return on; }
inline int long_history(Ctx &c) {
  if (!longs() || c.small || c.id % 64 != 5) return 0;
  c.stat("long_histories");
  return int(range(c.rng, 260, 300));
}
template <typename T = Scalar>
inline Batch giant_batch(Ctx &c, int kind) {
  Batch b;
  if (kind == 0) b.sizes = {131073, 0, 70000, 1};
  else if (kind == 1) for (int i = 0; i < 66000; i++) b.sizes.push_back(below(c.rng, 5) == 0 ? range(c.rng, 4, 9) : range(c.rng, 0, 3));
  else b.sizes = {TT<T>::kNtl ? 250000 : (1 << 21) + 1};
  for (int64_t n : b.sizes) {
    b.idx.push_back(n == 0 ? 2 : n > 65537 ? pick(c.rng, std::vector<int64_t>{n - 1, 65536, range(c.rng, 0, n - 1), range(c.rng, 65536, n - 1)}) : index_for(c.rng, n));
    b.vs.push_back(TT<T>::rnd(c.rng));
    b.vr.push_back(TT<T>::rnd(c.rng));
  }
  c.stat("giant_cases");
  return b;
}
struct Out2 {
  Vec2 s, r;  // per role, per member
};
// Output buffers: one allocation each, or parts of one larger buffer in any
// order, at any alignment, whose gaps must stay as they are.
template <typename T> struct BufsT {
  std::vector<std::vector<T>> own;
  std::vector<T> all;
  Vec1 was;
  std::map<size_t, std::vector<T>> ret;  // returned instead
  std::vector<absl::Span<T>> sp;
  BufsT(const std::vector<int64_t> &sizes, Rng &r) : sp(sizes.size()) {
    auto fill = [&](std::vector<T> &v, size_t n) { for (size_t i = 0; i < n; i++) v.push_back(TT<T>::make(TT<T>::rnd(r))); };
    if (below(r, 2)) {
      for (size_t i = 0; i < sizes.size(); i++) { own.emplace_back(); fill(own.back(), size_t(sizes[i])); }
      for (size_t i = 0; i < sizes.size(); i++) sp[i] = absl::MakeSpan(own[i]);
      return;
    }
    std::vector<size_t> order(sizes.size()), at(sizes.size());
    std::iota(order.begin(), order.end(), 0);
    if (below(r, 2)) for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[below(r, i)]);
    size_t end = below(r, 4);
    for (size_t i : order) { at[i] = end; end += size_t(sizes[i]) + (below(r, 3) ? 0 : below(r, 4)); }
    fill(all, end + below(r, 4));
    for (size_t i = 0; i < sizes.size(); i++) sp[i] = absl::MakeSpan(all.data() + at[i], size_t(sizes[i]));
    was = canon_vec<T>(all);
  }
  BufsT(const BufsT &) = delete;
  Vec2 canon() const {
    Vec2 o;
    Vec1 rest = was;
    for (size_t i = 0; i < sp.size(); i++) {
      o.push_back(ret.count(i) ? canon_vec<T>(ret.at(i)) : canon_vec<T>(sp[i]));
      if (!all.empty()) { size_t k = size_t(sp[i].data() - all.data()); for (size_t j = 0; j < sp[i].size(); j++) rest[k + j] = TT<T>::canon(sp[i][j]); }
    }
    if (canon_vec<T>(all) != rest) throw std::runtime_error("elements next to an output changed");
    return o;
  }
};
using Bufs = BufsT<Scalar>;

// ------------------------------------------------------------ all-but-one ROT
template <typename T = Scalar>
inline Out2 do_abo(Pair &p, std::unique_ptr<vo::AllButOneRandomOT> (&o)[2], const Batch &b, bool single) {
  Ctx &c = p.c;
  Out2 out;
  std::string what = other_str<T>() + "all-but-one ROT " + b.str();
  uint64_t g0 = c.rng(), g1 = c.rng();
  Foreign<T> ctx;
  p.party([&] {
    ctx.restore();
    Rng g(g0);
    BufsT<T> k(b.sizes, g);
    if (single) for (auto &s : k.sp) ok(o[0]->RunSender(s));
    else ok(o[0]->RunSenderBatched(absl::MakeSpan(k.sp)));
    out.s = k.canon();
  }, [&] {
    ctx.restore();
    Rng g(g1);
    BufsT<T> k(b.sizes, g);
    if (single) for (size_t i = 0; i < k.sp.size(); i++) ok(o[1]->RunReceiver(b.idx[i], k.sp[i]));
    else ok(o[1]->RunReceiverBatched(absl::MakeConstSpan(b.idx), absl::MakeSpan(k.sp)));
    out.r = k.canon();
  }, what);
  for (size_t m = 0; m < b.sizes.size(); m++)
    for (int64_t i = 0; i < b.sizes[m]; i++) {
      u128 s = out.s[m][size_t(i)], r = out.r[m][size_t(i)];
      if (!reduced<T>(s) || !reduced<T>(r)) c.fail(what + ": unreduced value");
      if (i != b.idx[m]) {
        if (s != r) c.fail(what + ": member " + std::to_string(m) + " differs at position " + std::to_string(i) + ": " + hex(s) + " vs " + hex(r));
      } else if (TT<T>::log_size() >= 62 && s == r)
        c.fail(what + ": member " + std::to_string(m) + ": the receiver holds the sender's value at its own index");
    }
  for (int64_t n : b.sizes) c.stat("positions", uint64_t(n));
  c.stat("rot_runs");
  return out;
}

// ------------------------------------------------------------ single-point FSS
template <typename T = Scalar>
inline Out2 do_spfss(Pair &p, std::unique_ptr<vo::SPFSSKnownIndex> (&o)[2], const Batch &b, int api) {
  Ctx &c = p.c;
  Out2 out;
  std::string what = other_str<T>() + "SPFSS " + b.str();
  uint64_t g0 = c.rng(), g1 = c.rng();
  Foreign<T> ctx;
  p.party([&] {
    ctx.restore();
    Rng g(g0);
    BufsT<T> k(b.sizes, g);
    if (api == 1) for (size_t i = 0; i < k.sp.size(); i++) ok(o[0]->RunValueProvider(TT<T>::make(b.vs[i]), k.sp[i]));
    else if (api == 2)
      for (size_t i = 0; i < k.sp.size(); i++) {
        auto st = o[0]->RunValueProvider(TT<T>::make(b.vs[i]), b.sizes[i]);
        ok(st.status());
        k.ret[i] = st.ValueOrDie();
      }
    else { auto v = make_vec<T>(b.vs); ok(o[0]->template RunValueProviderBatched<T>(absl::MakeConstSpan(v), absl::MakeSpan(k.sp))); }
    out.s = k.canon();
  }, [&] {
    ctx.restore();
    Rng g(g1);
    BufsT<T> k(b.sizes, g);
    if (api == 1) for (size_t i = 0; i < k.sp.size(); i++) ok(o[1]->RunIndexProvider(TT<T>::make(b.vr[i]), b.idx[i], k.sp[i]));
    else if (api == 2)
      for (size_t i = 0; i < k.sp.size(); i++) {
        auto st = o[1]->RunIndexProvider(TT<T>::make(b.vr[i]), b.idx[i], b.sizes[i]);
        ok(st.status());
        k.ret[i] = st.ValueOrDie();
      }
    else { auto v = make_vec<T>(b.vr); ok(o[1]->template RunIndexProviderBatched<T>(absl::MakeConstSpan(v), absl::MakeConstSpan(b.idx), absl::MakeSpan(k.sp))); }
    out.r = k.canon();
  }, what);
  for (size_t m = 0; m < b.sizes.size(); m++) {
    c.check(int64_t(out.s[m].size()) == b.sizes[m] && int64_t(out.r[m].size()) == b.sizes[m], what + ": wrong output length");
    for (int64_t i = 0; i < b.sizes[m]; i++) {
      u128 s = out.s[m][size_t(i)], r = out.r[m][size_t(i)];
      u128 want = i == b.idx[m] ? TT<T>::add(b.vs[m], b.vr[m]) : 0;
      if (TT<T>::add(s, r) != want || !reduced<T>(s) || !reduced<T>(r))
        c.fail(what + ": member " + std::to_string(m) + " at position " + std::to_string(i) + ": shares " + hex(s) + " + " + hex(r) + " should give " + hex(want));
    }
    c.stat("positions", uint64_t(b.sizes[m]));
    if (b.sizes[m] == 0) c.stat("empty_members");
  }
  c.stat("spfss_runs");
  return out;
}

// ------------------------------------------------------------ multi-point FSS
struct Multi {
  int64_t n = 1;
  std::vector<int64_t> idx;
  Vec1 y, u, v, w;  // correlation filled in by do_mpfss
  u128 x = 0;
  std::string str() const {
    std::string s = std::to_string(idx.size()) + " of " + std::to_string(n) + " [";
    for (size_t i = 0; i < idx.size() && i < 5; i++) s += (i ? " " : "") + std::to_string(idx[i]);
    return s + (idx.size() > 5 ? " ...]" : "]");
  }
};
inline std::vector<int64_t> indices_for(Rng &r, int64_t n, int64_t k) {
  std::vector<int64_t> v;
  switch (below(r, 6)) {
    case 0: for (int64_t i = 0; i < k; i++) v.push_back(i); break;
    case 1: for (int64_t i = 0; i < k; i++) v.push_back(n - 1 - i); break;
    case 2: for (int64_t i = 0; i < k; i++) v.push_back(i * (n / k)); break;
    default: {
      std::set<int64_t> s;
      if (below(r, 2)) { s.insert(0); if (k > 1) s.insert(n - 1); }
      if (k > n / 2) { for (int64_t i = 0; i < n; i++) s.insert(i); while (int64_t(s.size()) > k) s.erase(std::next(s.begin(), long(below(r, s.size())))); }
      while (int64_t(s.size()) < k) s.insert(range(r, 0, n - 1));
      v.assign(s.begin(), s.end());
    }
  }
  if (below(r, 4)) for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(r, i)]);
  return v;
}
template <typename T = Scalar>
inline Multi multi_for(Ctx &c, int64_t hi, int64_t max_k) {
  Multi m;
  m.n = size_for(c.rng, hi);
  int64_t k = std::min(m.n, max_k);
  k = below(c.rng, 8) == 0 ? k : logrange(c.rng, 1, k);
  m.idx = indices_for(c.rng, m.n, k);
  for (int64_t i = 0; i < k; i++) m.y.push_back(TT<T>::rnd(c.rng));
  m.x = TT<T>::rnd(c.rng);
  return m;
}
template <typename T = Scalar>
inline Out2 do_mpfss(Pair &p, std::unique_ptr<vo::MPFSSKnownIndices> (&o)[2], Multi &m, int update /*bit 0,1: which parties call UpdateBuckets*/) {
  Ctx &c = p.c;
  std::string what = other_str<T>() + "MPFSS " + m.str();
  int k = int(m.idx.size());
  int nb[2] = {0, 0};
  for (int i : {0, 1}) { auto st = o[i]->NumBuckets(k); ok(st.status()); nb[i] = st.ValueOrDie(); }
  c.check(nb[0] == nb[1] && nb[0] >= k, what + ": the parties use " + std::to_string(nb[0]) + " and " + std::to_string(nb[1]) + " buckets");
  if (m.u.empty()) {
    MulBy<T> mul(m.x);
    for (int i = 0; i < nb[0]; i++) {
      m.u.push_back(TT<T>::uni(c.rng)); m.v.push_back(TT<T>::uni(c.rng));
      m.w.push_back(TT<T>::add(mul(m.u.back()), m.v.back()));
    }
  }
  Out2 out;
  uint64_t g0 = c.rng(), g1 = c.rng();
  Foreign<T> ctx;
  p.party([&] {
    ctx.restore();
    Rng g(g0);
    BufsT<T> k2({m.n}, g);
    if (update & 1) ok(o[0]->UpdateBuckets(m.n, k));
    auto w = make_vec<T>(m.w);
    ok(o[0]->template RunValueProviderVectorOLE<T>(TT<T>::make(m.x), k, absl::MakeConstSpan(w), k2.sp[0]));
    out.s = k2.canon();
  }, [&] {
    ctx.restore();
    Rng g(g1);
    BufsT<T> k2({m.n}, g);
    if (update & 2) ok(o[1]->UpdateBuckets(m.n, k));
    auto y = make_vec<T>(m.y), u = make_vec<T>(m.u), v = make_vec<T>(m.v);
    ok(o[1]->template RunIndexProviderVectorOLE<T>(absl::MakeConstSpan(y), absl::MakeConstSpan(m.idx), absl::MakeConstSpan(u), absl::MakeConstSpan(v), k2.sp[0]));
    out.r = k2.canon();
  }, what);
  std::map<int64_t, u128> want;
  MulBy<T> mul(m.x);
  for (int i = 0; i < k; i++) want[m.idx[size_t(i)]] = mul(m.y[size_t(i)]);
  auto it = want.begin();
  for (int64_t i = 0; i < m.n; i++) {
    u128 t = 0;
    if (it != want.end() && it->first == i) { t = it->second; ++it; }
    u128 s = out.s[0][size_t(i)], r = out.r[0][size_t(i)];
    if (TT<T>::add(s, r) != t || !reduced<T>(s) || !reduced<T>(r))
      c.fail(what + " at position " + std::to_string(i) + ": shares " + hex(s) + " + " + hex(r) + " should give " + hex(t));
  }
  c.stat("positions", uint64_t(m.n));
  c.stat("points", uint64_t(k));
  c.stat("mpfss_runs");
  return out;
}

// ------------------------------------------------------------ Gilboa product
struct Product { u128 x = 0; Vec1 y; };
template <typename T = Scalar>
inline Product product_for(Ctx &c, int64_t hi) {
  Product g;
  g.x = TT<T>::rnd(c.rng);
  int64_t n = giant(c) == 0 ? (TT<T>::bits() <= 64 ? 70001 : 9001) : below(c.rng, 10) == 0 ? 0 : below(c.rng, 3) == 0 ? range(c.rng, 1, 20) : logrange(c.rng, 1, hi);
  int kind = int(below(c.rng, 6));
  for (int64_t i = 0; i < n; i++) g.y.push_back(kind == 0 ? 0 : TT<T>::rnd(c.rng));
  return g;
}
template <typename T = Scalar>
inline Out2 do_gilboa(Pair &p, std::unique_ptr<vo::ScalarVectorGilboaProduct> (&o)[2], const Product &g, int api) {
  Ctx &c = p.c;
  std::string what = other_str<T>() + "product of " + hex(g.x) + " with a vector of " + std::to_string(g.y.size());
  Out2 out;
  uint64_t g0 = c.rng(), g1 = c.rng();
  Foreign<T> ctx;
  p.party([&] {
    ctx.restore();
    auto y = make_vec<T>(g.y);
    if (api & 1) {
      auto st = o[0]->template RunVectorProvider<T>(absl::MakeConstSpan(y));
      ok(st.status());
      out.s = {canon_vec<T>(st.ValueOrDie())};
    } else {
      Rng r(g0);
      BufsT<T> k({int64_t(g.y.size())}, r);
      ok(o[0]->template RunVectorProvider<T>(absl::MakeConstSpan(y), k.sp[0]));
      out.s = k.canon();
    }
  }, [&] {
    ctx.restore();
    if (api & 2) {
      auto st = o[1]->RunValueProvider(TT<T>::make(g.x), int64_t(g.y.size()));
      ok(st.status());
      out.r = {canon_vec<T>(st.ValueOrDie())};
    } else {
      Rng r(g1);
      BufsT<T> k({int64_t(g.y.size())}, r);
      ok(o[1]->RunValueProvider(TT<T>::make(g.x), k.sp[0]));
      out.r = k.canon();
    }
  }, what);
  c.check(out.s[0].size() == g.y.size() && out.r[0].size() == g.y.size(), what + ": wrong output length");
  MulBy<T> mul(g.x);
  for (size_t i = 0; i < g.y.size(); i++) {
    u128 t = mul(g.y[i]), s = out.s[0][i], r = out.r[0][i];
    if (TT<T>::add(s, r) != t || !reduced<T>(s) || !reduced<T>(r))
      c.fail(what + " at position " + std::to_string(i) + ": shares " + hex(s) + " + " + hex(r) + " should give " + hex(g.x) + " * " + hex(g.y[i]) + " = " + hex(t));
  }
  c.stat("products", g.y.size());
  c.stat("gilboa_runs");
  return out;
}

// ------------------------------------------------------------ vector OLE
struct Corr { Vec1 u, v, w; u128 delta = 0; };
inline Corr do_vole(Pair &p, std::unique_ptr<VOLE> (&o)[2], int64_t pre, const u128 *delta, int64_t n) {
  Ctx &c = p.c;
  Corr k;
  std::string what = (pre ? "VOLE precomputation of " + std::to_string(pre) + " and " : std::string()) + "VOLE run of " + std::to_string(n);
  p.party([&] {
    if (pre) ok(o[0]->PrecomputeSender(pre));
    auto st = o[0]->RunSender(n);
    ok(st.status());
    k.u = canon_vec(st.ValueOrDie().u); k.v = canon_vec(st.ValueOrDie().v);
  }, [&] {
    if (pre) ok(delta ? o[1]->PrecomputeReceiver(pre, TT<T>::make(*delta)) : o[1]->PrecomputeReceiver(pre));
    auto st = o[1]->RunReceiver(n);
    ok(st.status());
    k.w = canon_vec(st.ValueOrDie().w); k.delta = TT<T>::canon(st.ValueOrDie().delta);
  }, what);
  c.check(int64_t(k.u.size()) == n && k.v.size() == k.u.size() && k.w.size() == k.u.size(), what + ": wrong length");
  if (pre && delta) c.check(k.delta == *delta, what + ": wrong delta");
  MulBy<T> mul(k.delta);
  for (size_t i = 0; i < k.u.size(); i++)
    if (TT<T>::add(mul(k.u[i]), k.v[i]) != k.w[i] || !reduced(k.u[i]) || !reduced(k.v[i]) || !reduced(k.w[i]))
      c.fail(what + ": wrong at position " + std::to_string(i));
  c.stat("vole_runs");
  c.stat("positions", uint64_t(n));
  return k;
}
}  // namespace dv
