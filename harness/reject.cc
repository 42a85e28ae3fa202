// C24: every invalid argument is answered with INVALID_ARGUMENT before anything
// happens, and the object keeps working. The refusing call runs on one party's
// thread while the other party does nothing: a call that waits for the peer is
// detected exactly, and any frame, OT or changed output is a violation.
#include <limits>
#include "proto.h"
#include "aesref.h"
#include "distributed_vector_ole/aes_uniform_bit_generator.h"
#include "distributed_vector_ole/cuckoo_hasher.h"
#include "distributed_vector_ole/ggm_tree.h"
namespace dv {
constexpr int64_t kMin = std::numeric_limits<int64_t>::min(), kMax = std::numeric_limits<int64_t>::max();
using mpc_utils::Status;
using mpc_utils::StatusCode;

static void judge(Ctx &c, const std::string &what, const Status &st, StatusCode want = StatusCode::kInvalidArgument) {
  if (st.ok()) c.fail(what + " was accepted");
  if (st.code() != want) c.fail(what + " gave " + st.ToString() + " instead of an invalid-argument error");
  c.stat("refusals");
  c.sig(what.substr(0, what.find(" (")) + TT<T>::name());
}
// A call with no counterpart.
template <typename F> void refuse(Pair &p, int role, const std::string &what, F f, StatusCode want = StatusCode::kInvalidArgument) {
  Ctx &c = p.c;
  dvlink::Link *l = p.link();
  uint64_t b0 = l->bytes_sent(0), b1 = l->bytes_sent(1), f0 = l->frames_sent(0), f1 = l->frames_sent(1), ot = l->ots();
  Status st;
  auto call = [&] { st = f(); };
  std::string r = role == 0 ? p.try_party(call, [] {}) : p.try_party([] {}, call);
  if (!r.empty()) c.fail(what + " ended with: " + r);
  judge(c, what, st, want);
  c.check(l->bytes_sent(0) == b0 && l->bytes_sent(1) == b1 && l->frames_sent(0) == f0 && l->frames_sent(1) == f1 &&
          l->ots() == ot && l->residue() == 0, what + " was refused only after sending something");
}
struct Kept {  // output buffers that must not change
  Bufs b;
  Vec2 was;
  Kept(const std::vector<int64_t> &sizes, Rng &r) : b(sizes, r), was(b.canon()) {}
  void same(const std::string &what) const { if (b.canon() != was) throw std::runtime_error(what + " changed the outputs of a refused call"); }
};
template <typename R> Status status_of(R st) { return st.ok() ? mpc_utils::OkStatus() : st.status(); }

// An index outside [0, n)
static int64_t bad_index(Ctx &c, int64_t n) {
  switch (below(c.rng, 7)) {
    case 0: return -1;
    case 1: return n;
    case 2: return kMin;
    case 3: return kMax;
    case 4: return -n;
    case 5: return n + (int64_t(1) << 32);
    default: return n + range(c.rng, 0, 100);
  }
}
static int64_t bad_size(Ctx &c, bool zero) {
  switch (below(c.rng, 4)) {
    case 0: return zero ? 0 : -1;
    case 1: return -1;
    case 2: return kMin;
    default: return -range(c.rng, 1, 100000);
  }
}
static Batch filled(Ctx &c, int members) {
  for (;;) {
    Batch b = batch_for(c, 300, members);
    for (int64_t n : b.sizes) if (n > 0) return b;
  }
}
static size_t nonempty(Ctx &c, const Batch &b) {
  for (;;) { size_t k = below(c.rng, b.sizes.size()); if (b.sizes[k] > 0) return k; }
}
static std::vector<int64_t> other_length(Ctx &c, std::vector<int64_t> v) {
  switch (below(c.rng, 3)) {
    case 0: v.push_back(0); break;
    case 1: if (!v.empty()) { v.pop_back(); break; } v.push_back(0); break;
    default: if (v.empty()) v.push_back(1); else v.clear();
  }
  return v;
}

static void rej_abo(Ctx &c, Pair &p, std::unique_ptr<vo::AllButOneRandomOT> (&o)[2]) {
  for (int k = 0; k < 4; k++) {
    Batch b = filled(c, 6);
    uint64_t g0 = c.rng();
    int64_t n = b.sizes[nonempty(c, b)], bad = bad_index(c, n);
    refuse(p, 1, "a receiver index of " + std::to_string(bad) + " (of " + std::to_string(n) + ")", [&] {
      Rng g(g0); Kept q({n}, g);
      Status s = o[1]->RunReceiver(bad, q.b.sp[0]);
      q.same("AllButOneRandomOT");
      return s;
    });
    auto idx = b.idx;
    size_t m = nonempty(c, b);
    idx[m] = bad_index(c, b.sizes[m]);
    refuse(p, 1, "a batched receiver index of " + std::to_string(idx[m]) + " (member " + std::to_string(m) + " of " + b.str() + ")", [&] {
      Rng g(g0); Kept q(b.sizes, g);
      Status s = o[1]->RunReceiverBatched(absl::MakeConstSpan(idx), absl::MakeSpan(q.b.sp));
      q.same("AllButOneRandomOT");
      return s;
    });
    auto wrong = other_length(c, b.idx);
    refuse(p, 1, "a wrong number of receiver indices (" + std::to_string(wrong.size()) + " for " + b.str() + ")", [&] {
      Rng g(g0); Kept q(b.sizes, g);
      Status s = o[1]->RunReceiverBatched(absl::MakeConstSpan(wrong), absl::MakeSpan(q.b.sp));
      q.same("AllButOneRandomOT");
      return s;
    });
  }
  do_abo(p, o, batch_for(c, 200, 4), below(c.rng, 2));
  c.stat("worked_afterwards");
}

static void rej_spfss(Ctx &c, Pair &p, std::unique_ptr<vo::SPFSSKnownIndex> (&o)[2]) {
  for (int k = 0; k < 3; k++) {
    Batch b = filled(c, 6);
    uint64_t g0 = c.rng();
    size_t m = nonempty(c, b);
    int64_t n = b.sizes[m];
    auto wrong = other_length(c, b.idx);
    Vec1 few(wrong.size(), 1);
    refuse(p, 0, "a wrong number of value shares (value provider, " + std::to_string(few.size()) + " for " + b.str() + ")", [&] {
      Rng g(g0); Kept q(b.sizes, g);
      auto v = make_vec(few);
      Status s = o[0]->RunValueProviderBatched<T>(absl::MakeConstSpan(v), absl::MakeSpan(q.b.sp));
      q.same("SPFSS");
      return s;
    });
    refuse(p, 1, "a wrong number of value shares for the index provider (" + std::to_string(few.size()) + " for " + b.str() + ")", [&] {
      Rng g(g0); Kept q(b.sizes, g);
      auto v = make_vec(few);
      Status s = o[1]->RunIndexProviderBatched<T>(absl::MakeConstSpan(v), absl::MakeConstSpan(b.idx), absl::MakeSpan(q.b.sp));
      q.same("SPFSS");
      return s;
    });
    refuse(p, 1, "a wrong number of SPFSS indices (" + std::to_string(wrong.size()) + " for " + b.str() + ")", [&] {
      Rng g(g0); Kept q(b.sizes, g);
      auto v = make_vec(b.vr);
      Status s = o[1]->RunIndexProviderBatched<T>(absl::MakeConstSpan(v), absl::MakeConstSpan(wrong), absl::MakeSpan(q.b.sp));
      q.same("SPFSS");
      return s;
    });
    auto idx = b.idx;
    idx[m] = bad_index(c, n);
    refuse(p, 1, "a batched SPFSS index of " + std::to_string(idx[m]) + " (member " + std::to_string(m) + " of " + b.str() + ")", [&] {
      Rng g(g0); Kept q(b.sizes, g);
      auto v = make_vec(b.vr);
      Status s = o[1]->RunIndexProviderBatched<T>(absl::MakeConstSpan(v), absl::MakeConstSpan(idx), absl::MakeSpan(q.b.sp));
      q.same("SPFSS");
      return s;
    });
    int64_t bad = bad_index(c, n), neg = bad_size(c, false);
    refuse(p, 1, "an SPFSS index of " + std::to_string(bad) + " (of " + std::to_string(n) + ")", [&] {
      Rng g(g0); Kept q({n}, g);
      Status s = o[1]->RunIndexProvider<T>(TT<T>::make(b.vr[0]), bad, q.b.sp[0]);
      q.same("SPFSS");
      return s;
    });
    refuse(p, 1, "an SPFSS index of " + std::to_string(bad) + " returning a vector (of " + std::to_string(n) + ")",
           [&] { return status_of(o[1]->RunIndexProvider<T>(TT<T>::make(b.vr[0]), bad, n)); });
    refuse(p, 1, "a size of " + std::to_string(neg) + " for the SPFSS index provider", [&] { return status_of(o[1]->RunIndexProvider<T>(TT<T>::make(b.vr[0]), 0, neg)); });
    refuse(p, 0, "a size of " + std::to_string(neg) + " for the SPFSS value provider", [&] { return status_of(o[0]->RunValueProvider<T>(TT<T>::make(b.vs[0]), neg)); });
  }
  do_spfss(p, o, batch_for(c, 200, 4), int(below(c.rng, 3)));
  c.stat("worked_afterwards");
}

static void rej_mpfss(Ctx &c, Pair &p, std::unique_ptr<vo::MPFSSKnownIndices> (&o)[2]) {
  Multi m;
  for (;;) { m = multi_for(c, 600, 20); if (m.n >= 2) break; }
  if (below(c.rng, 2)) do_mpfss(p, o, m, int(below(c.rng, 4)));  // buckets for these sizes exist already
  for (int k = 0; k < 3; k++) {
    int y = int(m.idx.size());
    auto nbs = o[0]->NumBuckets(y);
    ok(nbs.status());
    int64_t nb = nbs.ValueOrDie();
    uint64_t g0 = c.rng();
    auto vals = [&](int64_t n) { Vec1 v; for (int64_t i = 0; i < n; i++) v.push_back(TT<T>::rnd(c.rng)); return v; };
    // value provider: (y_len, |w|, |output|)
    auto value = [&](const std::string &what, int64_t y_len, const Vec1 &w, int64_t out) {
      refuse(p, 0, what, [&] {
        Rng g(g0); Kept q({out}, g);
        auto wv = make_vec(w);
        Status s = o[0]->RunValueProviderVectorOLE<T>(TT<T>::make(m.x), int(y_len), absl::MakeConstSpan(wv), q.b.sp[0]);
        q.same("MPFSS");
        return s;
      });
    };
    auto index = [&](const std::string &what, const Vec1 &yy, const std::vector<int64_t> &idx, const Vec1 &u, const Vec1 &v, int64_t out) {
      refuse(p, 1, what, [&] {
        Rng g(g0); Kept q({out}, g);
        auto a = make_vec(yy), uu = make_vec(u), vv = make_vec(v);
        Status s = o[1]->RunIndexProviderVectorOLE<T>(absl::MakeConstSpan(a), absl::MakeConstSpan(idx), absl::MakeConstSpan(uu), absl::MakeConstSpan(vv), q.b.sp[0]);
        q.same("MPFSS");
        return s;
      });
    };
    auto off = [&](int64_t n) { return pick(c.rng, std::vector<int64_t>{n - 1, n + 1, 0, 2 * n}); };
    std::string at = " (" + m.str() + ")";
    index("one MPFSS index out of range" + at, vals(y), [&] { auto i = m.idx; i[below(c.rng, i.size())] = bad_index(c, m.n); return i; }(), vals(nb), vals(nb), m.n);
    if (y >= 2) {
      size_t a = below(c.rng, size_t(y)), b = (a + 1 + below(c.rng, size_t(y) - 1)) % size_t(y);
      auto i = m.idx; i[a] = i[b];
      index("a repeated MPFSS index" + at, vals(y), i, vals(nb), vals(nb), m.n);
      value("an output shorter than the number of indices (value provider)" + at, y, vals(nb), range(c.rng, 0, y - 1));
      auto j = m.idx; for (auto &x : j) x = 0;
      index("an output shorter than the number of indices" + at, vals(y), j, vals(nb), vals(nb), range(c.rng, 1, y - 1));
    }
    index("a wrong number of MPFSS values" + at, vals(pick(c.rng, std::vector<int>{y + 1, y - 1, 0})), m.idx, vals(nb), vals(nb), m.n);
    index("no MPFSS indices" + at, {}, {}, vals(1), vals(1), m.n);
    index("a wrong size of u" + at, vals(y), m.idx, vals(off(nb)), vals(nb), m.n);
    index("a wrong size of v" + at, vals(y), m.idx, vals(nb), vals(off(nb)), m.n);
    value("a wrong size of w" + at, y, vals(off(nb)), m.n);
    value("a y_len that is not positive" + at, pick(c.rng, std::vector<int64_t>{0, -1, -2147483647 - 1, -5}), vals(nb), m.n);
    int role = int(below(c.rng, 2));
    int64_t neg = bad_size(c, false);
    refuse(p, role, "UpdateBuckets with a negative output size (" + std::to_string(neg) + ")", [&] { return o[role]->UpdateBuckets(neg, y); });
    refuse(p, role, "UpdateBuckets with a negative number of indices", [&] { return o[role]->UpdateBuckets(m.n + 3, -1 - int(below(c.rng, 50))); });
    refuse(p, role, "NumBuckets of a negative number", [&] { return status_of(o[role]->NumBuckets(-1 - int(below(c.rng, 50)))); });
    refuse(p, 0, "the general MPFSS value provider", [&] {
      Rng g(g0); Kept q({m.n}, g); auto v = make_vec(vals(y));
      Status s = o[0]->RunValueProvider<T>(absl::MakeConstSpan(v), q.b.sp[0]); q.same("MPFSS"); return s; }, StatusCode::kUnimplemented);
    refuse(p, 1, "the general MPFSS index provider", [&] {
      Rng g(g0); Kept q({m.n}, g); auto v = make_vec(vals(y));
      Status s = o[1]->RunIndexProvider<T>(absl::MakeConstSpan(v), absl::MakeConstSpan(m.idx), q.b.sp[0]); q.same("MPFSS"); return s; }, StatusCode::kUnimplemented);
    Multi r = m;
    if (below(c.rng, 2)) { r = multi_for(c, 600, 20); }
    r.u.clear(); r.v.clear(); r.w.clear();
    do_mpfss(p, o, r, int(below(c.rng, 4)));
    c.stat("worked_afterwards");
  }
}

static void rej_gilboa(Ctx &c, Pair &p, std::unique_ptr<vo::ScalarVectorGilboaProduct> (&o)[2]) {
  for (int k = 0; k < 4; k++) {
    Product g = product_for(c, 60);
    uint64_t g0 = c.rng();
    int64_t n = int64_t(g.y.size());
    int64_t out = other_length(c, std::vector<int64_t>(size_t(n))).size();
    refuse(p, 0, "an output of another length than y (" + std::to_string(out) + " for " + std::to_string(n) + ")", [&] {
      Rng r(g0); Kept q({out}, r);
      auto y = make_vec(g.y);
      Status s = o[0]->RunVectorProvider<T>(absl::MakeConstSpan(y), q.b.sp[0]);
      q.same("ScalarVectorGilboaProduct");
      return s;
    });
    int64_t neg = bad_size(c, false);
    refuse(p, 1, "a product length of " + std::to_string(neg), [&] { return status_of(o[1]->RunValueProvider(TT<T>::make(g.x), neg)); });
    if constexpr (std::is_same<T, NTL::ZZ_p>::value) {
      NTL::ZZ big = (NTL::ZZ(1) << long(range(c.rng, 129, 300))) + long(below(c.rng, 1000));
      int role = int(below(c.rng, 2));
      refuse(p, role, "a product modulo a number of more than 128 bits (role " + std::to_string(role) + ")", [&] {
        NTL::ZZ_p::init(big);
        Rng r(g0); Kept q({n}, r);
        auto y = make_vec(g.y);
        Status s = role == 0 ? o[0]->RunVectorProvider<T>(absl::MakeConstSpan(y), q.b.sp[0]) : o[1]->RunValueProvider(TT<T>::make(g.x), q.b.sp[0]);
        q.same("ScalarVectorGilboaProduct");
        return s;
      });
      c.stat("unsuitable_moduli");
    }
  }
  do_gilboa(p, o, product_for(c, 60), int(below(c.rng, 4)));
  c.stat("worked_afterwards");
}

static void rej_vole(Ctx &c, Pair &p, std::unique_ptr<VOLE> (&o)[2]) {
  auto refusals = [&](const char *when) {
    int64_t neg = bad_size(c, false), np = bad_size(c, true);
    u128 d = TT<T>::rnd(c.rng);
    std::string w = std::string(", ") + when;
    refuse(p, 0, "RunSender(" + std::to_string(neg) + ")" + w, [&] { return status_of(o[0]->RunSender(neg)); });
    refuse(p, 1, "RunReceiver(" + std::to_string(neg) + ")" + w, [&] { return status_of(o[1]->RunReceiver(neg)); });
    refuse(p, 0, "PrecomputeSender(" + std::to_string(np) + ")" + w, [&] { return o[0]->PrecomputeSender(np); });
    refuse(p, 1, "PrecomputeReceiver(" + std::to_string(np) + ")" + w, [&] { return o[1]->PrecomputeReceiver(np); });
    refuse(p, 1, "PrecomputeReceiver(" + std::to_string(np) + ", delta)" + w, [&] { return o[1]->PrecomputeReceiver(np, TT<T>::make(d)); });
  };
  refusals("on a new object");
  u128 delta = TT<T>::rnd(c.rng);
  bool fixed = below(c.rng, 2);
  int64_t batch = range(c.rng, 150, 1500);
  u128 got = do_vole(p, o, batch, fixed ? &delta : nullptr, below(c.rng, 2) ? 0 : range(c.rng, 1, 40)).delta;
  refusals("after precomputation");
  c.check(do_vole(p, o, 0, nullptr, range(c.rng, 1, 40)).delta == got, "refused calls changed delta");
  refusals("with correlations in the cache");
  uint64_t f = p.link()->frames_sent(0) + p.link()->frames_sent(1);
  c.check(do_vole(p, o, 0, nullptr, range(c.rng, 1, 60)).delta == got, "refused calls changed delta");
  c.check(f == p.link()->frames_sent(0) + p.link()->frames_sent(1), "refused calls lost the cached correlations");
  c.stat("worked_afterwards");
}

// ------------------------------------------------------------ unsuitable moduli
// Some protocols find out in the middle: then both parties must get the error,
// nothing may be left on the channel, and the objects must work afterwards.
static void both_fail(Pair &p, const std::string &what, std::function<Status()> f0, std::function<Status()> f1) {
  Ctx &c = p.c;
  Status s[2];
  std::string r = p.try_party([&] { s[0] = f0(); }, [&] { s[1] = f1(); });
  if (!r.empty()) c.fail(what + " ended with: " + r);
  for (int i : {0, 1}) judge(c, what + " (role " + std::to_string(i) + ")", s[i]);
  c.check(p.link()->residue() == 0, what + " left unread items on the channel");
}
static void rej_modulus(Ctx &c) {
  if constexpr (TT<T>::kNtl) {
    const bool ZP = std::is_same<T, NTL::ZZ_p>::value;
    Env e = env_for(c);
    u128 good, bad;
    if (ZP) {
      static const u128 one = 1;
      good = pick(c.rng, std::vector<u128>{u128(0) - 159, (one << 64) - 59, 65537, one << 100, (one << 32) - 5});
      bad = pick(c.rng, std::vector<u128>{(one << 127) + 1, (one << 127) + (one << 125) + 77, (one << 126) + 31, (one << 127) - (one << 125) + 1, (one << 119) + (one << 118) + 7});
    } else {
      e.ss = 75;
      good = pick(c.rng, std::vector<u128>{u128(1) << 59, u128(1) << 32, 2});
      do bad = (u128(c.rng()) >> (4 + below(c.rng, 2))) | 1; while (bad < (u128(1) << 58) || leaf_ok(e.ss - 2, 1, bad));
    }
    TT<T>::use(good);
    Pair p(c, e, c.rng());
    c.desc = type_str("mod " + hex(good)) + " then " + hex(bad) + ", " + env_str(e);
    auto spoil = [&] { if constexpr (std::is_same<T, NTL::ZZ_p>::value) NTL::ZZ_p::init(to_zz(bad)); else NTL::zz_p::init(long(bad)); };
    int kind = int(below(c.rng, 4));
    bool warm = below(c.rng, 2);
    uint64_t g0 = c.rng();
    if (kind <= 1) {
      std::unique_ptr<vo::AllButOneRandomOT> a[2];
      std::unique_ptr<vo::SPFSSKnownIndex> s[2];
      if (kind == 0) p.create(a, "all-but-one ROT"); else p.create(s, "SPFSS");
      if (warm) { Batch b = batch_for(c, 100, 4); if (kind == 0) do_abo(p, a, b, false); else do_spfss(p, s, b, 0); }
      Batch b = filled(c, 5);
      for (int role : {0, 1})
        refuse(p, role, std::string(kind ? "SPFSS" : "all-but-one ROT") + " with an unsuitable modulus (role " + std::to_string(role) + ", " + b.str() + ")", [&] {
          Rng g(g0); Kept q(b.sizes, g);
          auto v = make_vec(b.vs);
          spoil();
          Status st = kind == 0 ? (role == 0 ? a[0]->RunSenderBatched(absl::MakeSpan(q.b.sp)) : a[1]->RunReceiverBatched(absl::MakeConstSpan(b.idx), absl::MakeSpan(q.b.sp)))
                                : (role == 0 ? s[0]->RunValueProviderBatched<T>(absl::MakeConstSpan(v), absl::MakeSpan(q.b.sp))
                                             : s[1]->RunIndexProviderBatched<T>(absl::MakeConstSpan(v), absl::MakeConstSpan(b.idx), absl::MakeSpan(q.b.sp)));
          q.same("a run");
          return st;
        });
      if (kind == 0) do_abo(p, a, b, below(c.rng, 2)); else do_spfss(p, s, b, int(below(c.rng, 3)));
    } else if (kind == 2) {
      std::unique_ptr<vo::MPFSSKnownIndices> o[2];
      p.create(o, "MPFSS");
      Multi m = multi_for(c, 500, 20);
      if (warm) do_mpfss(p, o, m, 0);
      else { auto nb = o[0]->NumBuckets(int(m.idx.size())); ok(nb.status()); for (int i = 0; i < nb.ValueOrDie(); i++) { m.u.push_back(1); m.v.push_back(1); m.w.push_back(1); } }
      both_fail(p, "MPFSS with an unsuitable modulus (" + m.str() + ")", [&] {
        Rng g(g0); Bufs k({m.n}, g); auto w = make_vec(m.w); spoil();
        return o[0]->RunValueProviderVectorOLE<T>(TT<T>::make(1), int(m.idx.size()), absl::MakeConstSpan(w), k.sp[0]);
      }, [&] {
        Rng g(g0); Bufs k({m.n}, g); auto y = make_vec(m.y), u = make_vec(m.u), v = make_vec(m.v); spoil();
        return o[1]->RunIndexProviderVectorOLE<T>(absl::MakeConstSpan(y), absl::MakeConstSpan(m.idx), absl::MakeConstSpan(u), absl::MakeConstSpan(v), k.sp[0]);
      });
      Multi r = m;
      r.u.clear(); r.v.clear(); r.w.clear();
      do_mpfss(p, o, r, int(below(c.rng, 4)));
    } else {
      std::unique_ptr<VOLE> o[2];
      p.create(o, "VOLE");
      if (warm) do_vole(p, o, range(c.rng, 1, 900), nullptr, range(c.rng, 0, 30));
      int64_t n = range(c.rng, 1, 1200);
      bool run = !warm && below(c.rng, 2);
      both_fail(p, std::string(run ? "VOLE run" : "VOLE precomputation") + " with an unsuitable modulus",
                [&] { spoil(); return run ? status_of(o[0]->RunSender(n)) : o[0]->PrecomputeSender(n); },
                [&] { spoil(); return run ? status_of(o[1]->RunReceiver(n)) : o[1]->PrecomputeReceiver(n); });
      if (below(c.rng, 2)) {
        u128 d = TT<T>::rnd(c.rng);
        do_vole(p, o, range(c.rng, 1, 900), &d, range(c.rng, 0, 50));
      }
      do_vole(p, o, 0, nullptr, range(c.rng, 1, 900));
    }
    c.stat("unsuitable_moduli");
    c.stat("worked_afterwards");
  }
}

// ------------------------------------------------------------ constructors
static void rej_create(Ctx &c, Pair &p) {
  static const double kNeg[] = {-1, -1e-9, -40, -std::numeric_limits<double>::infinity(), -1e300, -5e-324,
                                std::numeric_limits<double>::quiet_NaN()};
  auto neg = [&] { return kNeg[below(c.rng, 7)]; };
  for (int role : {0, 1}) {
    mpc_utils::comm_channel *ch = p.h.GetChannel(p.side(role)), *null = nullptr;
    double a = neg();
    std::string s = "a statistical security of " + std::to_string(a) + " (negative or no number) for ";
    refuse(p, role, s + "AllButOneRandomOT", [&] { return status_of(vo::AllButOneRandomOT::Create(ch, a)); });
    refuse(p, role, s + "SPFSSKnownIndex", [&] { return status_of(vo::SPFSSKnownIndex::Create(ch, a)); });
    refuse(p, role, s + "MPFSSKnownIndices", [&] { return status_of(vo::MPFSSKnownIndices::Create(ch, a)); });
    refuse(p, role, s + "ScalarVectorGilboaProduct", [&] { return status_of(vo::ScalarVectorGilboaProduct::Create(ch, a)); });
    refuse(p, role, s + "DistributedVectorOLE", [&] { return status_of(VOLE::Create(ch, a)); });
    refuse(p, role, "no channel for AllButOneRandomOT", [&] { return status_of(vo::AllButOneRandomOT::Create(null)); });
    refuse(p, role, "no channel for SPFSSKnownIndex", [&] { return status_of(vo::SPFSSKnownIndex::Create(null)); });
    refuse(p, role, "no channel for MPFSSKnownIndices", [&] { return status_of(vo::MPFSSKnownIndices::Create(null)); });
    refuse(p, role, "no channel for ScalarVectorGilboaProduct", [&] { return status_of(vo::ScalarVectorGilboaProduct::Create(null)); });
    refuse(p, role, "no channel for DistributedVectorOLE", [&] { return status_of(VOLE::Create(null)); });
  }
}

// A security that no hash function provides: whoever cannot work with it says so
// at once, before the other party is involved.
static void rej_security(Ctx &c) {
  Env e = env_for(c);
  e.ss = pick(c.rng, std::vector<double>{128.5, 150, 1e4, 1e7, 1e9, 3e9, 1e12, 1e18, 1e19, 1e300, std::numeric_limits<double>::max()});
  std::string m = TT<T>::setup(c.rng, true);
  Pair p(c, e, c.rng());
  c.desc = type_str(m) + ", " + env_str(e) + ", security " + std::to_string(e.ss);
  std::unique_ptr<VOLE> v[2];
  std::unique_ptr<vo::MPFSSKnownIndices> o[2];
  p.create(v, "VOLE");
  p.create(o, "MPFSS");
  int64_t b = range(c.rng, 1, 3000);
  u128 d = TT<T>::rnd(c.rng);
  for (int again = 0; again < 2; again++) {
    refuse(p, 0, "PrecomputeSender for an impossible security", [&] { return v[0]->PrecomputeSender(b); });
    refuse(p, 1, "PrecomputeReceiver for an impossible security", [&] { return again ? v[1]->PrecomputeReceiver(b) : v[1]->PrecomputeReceiver(b, TT<T>::make(d)); });
    int64_t n = range(c.rng, 1, 30);
    refuse(p, 0, "RunSender for an impossible security", [&] { return status_of(v[0]->RunSender(n)); });
    refuse(p, 1, "RunReceiver for an impossible security", [&] { return status_of(v[1]->RunReceiver(n)); });
  }
  Multi k = multi_for(c, 300, 10);
  if (k.idx.empty()) { k.idx.push_back(0); k.y.push_back(1); }
  std::vector<T> w;
  int64_t nw = range(c.rng, 0, 40);
  for (int64_t i = 0; i < nw; i++) w.push_back(TT<T>::make(u128(i)));
  uint64_t g0 = c.rng();
  for (int role : {0, 1}) {
    refuse(p, role, "NumBuckets for an impossible security", [&] { return status_of(o[role]->NumBuckets(int(k.idx.size()))); });
    refuse(p, role, "UpdateBuckets for an impossible security", [&] { return o[role]->UpdateBuckets(k.n, int(k.idx.size())); });
    refuse(p, role, "MPFSS for an impossible security", [&] {
      Rng g(g0); Kept q({k.n}, g);
      auto y = make_vec(k.y);
      Status s = role == 0 ? o[0]->template RunValueProviderVectorOLE<T>(TT<T>::make(k.x), int(k.idx.size()), absl::MakeConstSpan(w), q.b.sp[0])
                           : o[1]->template RunIndexProviderVectorOLE<T>(absl::MakeConstSpan(y), absl::MakeConstSpan(k.idx), absl::MakeConstSpan(w), absl::MakeConstSpan(w), q.b.sp[0]);
      q.same("MPFSS");
      return s;
    });
  }
  c.stat("impossible_securities");
}

// ------------------------------------------------------------ local objects
static void rej_local(Ctx &c) {
  // cuckoo hashing
  {
    int bad = int(-int64_t(below(c.rng, 2) ? below(c.rng, 3) : below(c.rng, 2147483648u)));
    judge(c, "CuckooHasher with " + std::to_string(bad) + " hash functions", status_of(vo::CuckooHasher::Create(A(rnd128(c.rng)), bad)));
    int nh = int(range(c.rng, 1, 5));
    double ss = double(range(c.rng, 0, 60));
    auto st = vo::CuckooHasher::Create(A(rnd128(c.rng)), nh, ss);
    ok(st.status());
    auto &h = *st.ValueOrDie();
    std::vector<uint64_t> in(size_t(range(c.rng, 2, 60)));
    for (auto &x : in) x = c.rng();
    auto sp = absl::MakeConstSpan(in);
    int64_t nb = bad_size(c, true);
    std::string w = " with " + std::to_string(nb) + " buckets";
    judge(c, "Hash" + w, status_of(h.Hash(sp, nb)));
    judge(c, "HashSimple" + w, status_of(h.HashSimple(sp, nb)));
    judge(c, "HashCuckoo" + w, status_of(h.HashCuckoo(sp, nb)));
    judge(c, "HashCuckoo of more inputs than buckets", status_of(h.HashCuckoo(sp, range(c.rng, 1, int64_t(in.size()) - 1))));
    auto g = h.GetOptimalNumberOfBuckets(bad_size(c, false));
    judge(c, "GetOptimalNumberOfBuckets of a negative number", status_of(std::move(g)));
    if (nh == 2 || nh == 3) for (double x : {std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity()}) {
      auto odd = vo::CuckooHasher::Create(A(rnd128(c.rng)), nh, x);
      if (!odd.ok()) { judge(c, "a hasher for a security of " + std::to_string(x), status_of(std::move(odd))); continue; }
      judge(c, "GetOptimalNumberOfBuckets for a security of " + std::to_string(x), status_of(odd.ValueOrDie()->GetOptimalNumberOfBuckets(range(c.rng, 1, 1000))));
    }
    if (nh == 2 || nh == 3) {
      // more than 128-bit hashes can provide, or more than 64 bits can count
      double x = pick(c.rng, std::vector<double>{128.0001, 129, 200, 1e4, 1e9, 1e18, 1e19, 1e300, std::numeric_limits<double>::max()});
      judge(c, "GetOptimalNumberOfBuckets for a security beyond 128 bits (" + std::to_string(x) + ")",
            status_of(vo::CuckooHasher::Create(A(rnd128(c.rng)), nh, x).ValueOrDie()->GetOptimalNumberOfBuckets(range(c.rng, 1, 1000))));
      int64_t many = kMax - (below(c.rng, 2) ? 0 : int64_t(below(c.rng, 1000)));
      judge(c, "GetOptimalNumberOfBuckets of nearly 2^63 inputs", status_of(h.GetOptimalNumberOfBuckets(many)));
    }
    static const double kNeg[] = {-1, -1e-9, -40, -1e300, -5e-324, -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()};
    judge(c, "CuckooHasher with a security that is negative or no number", status_of(vo::CuckooHasher::Create(A(rnd128(c.rng)), nh, kNeg[below(c.rng, 7)])));
    if (nh == 1) judge(c, "HashCuckoo with one hash function", status_of(h.HashCuckoo(sp, int64_t(in.size()) * 8)));
    if (nh != 2 && nh != 3) judge(c, "GetOptimalNumberOfBuckets for this number of hash functions", status_of(h.GetOptimalNumberOfBuckets(10)), StatusCode::kUnimplemented);
    auto tight = vo::CuckooHasher::Create(A(rnd128(c.rng)), 3, double(range(c.rng, 128, 400)));
    ok(tight.status());
    judge(c, "HashSimple beyond 128 bits", status_of(tight.ValueOrDie()->HashSimple(sp, 1000)));
    judge(c, "HashCuckoo beyond 128 bits", status_of(tight.ValueOrDie()->HashCuckoo(sp, 1000)));
    auto again = h.HashSimple(sp, 500);
    ok(again.status());
    size_t total = 0;
    for (auto &b : again.ValueOrDie()) total += b.size();
    c.check(total == in.size() * size_t(nh), "a hasher does not work after refusals");
  }
  // GGM trees
  {
    using Tree = vo::GGMTree;
    int arity = int(range(c.rng, 2, 6));
    int64_t n = range(c.rng, 2, 200);
    auto rnd = [&] { return A(rnd128(c.rng)); };
    std::vector<Tree::Block> keys;
    for (int i = 0; i < arity; i++) keys.push_back(rnd());
    auto few = keys; few.resize(below(c.rng, 2));
    judge(c, "a GGM tree with too few keys (" + std::to_string(few.size()) + ")", status_of(Tree::Create(n, rnd(), few)));
    int ba = pick(c.rng, std::vector<int>{1, 0, -1, -7, -2147483647 - 1});
    judge(c, "a GGM tree of arity " + std::to_string(ba), status_of(Tree::Create(ba, n, rnd())));
    int64_t bl = bad_size(c, true);
    judge(c, "a GGM tree of " + std::to_string(bl) + " leaves", status_of(Tree::Create(bl, rnd(), keys)));
    judge(c, "a GGM tree of " + std::to_string(bl) + " leaves and given arity", status_of(Tree::Create(arity, bl, rnd())));
    auto st = Tree::Create(n, rnd(), keys);
    ok(st.status());
    auto &t = *st.ValueOrDie();
    auto xors = t.GetSiblingWiseXOR();
    auto punct = [&](int a, int64_t leaves, int64_t miss, const std::vector<std::vector<Tree::Block>> &x, const std::vector<Tree::Block> &k) {
      return status_of(Tree::CreateFromSiblingWiseXOR(a, leaves, miss, absl::MakeConstSpan(x), absl::MakeConstSpan(k)));
    };
    int64_t miss = range(c.rng, 0, n - 1);
    std::string at = " (arity " + std::to_string(arity) + ", " + std::to_string(n) + " leaves)";
    judge(c, "a punctured tree missing a leaf out of range" + at, punct(arity, n, bad_index(c, n), xors, keys));
    judge(c, "a punctured tree without leaves" + at, punct(arity, bl, miss, xors, keys));
    judge(c, "a punctured tree of bad arity" + at, punct(ba, n, miss, xors, keys));
    auto k2 = keys; k2.pop_back();
    judge(c, "a punctured tree with too few keys" + at, punct(arity, n, miss, xors, k2));
    k2 = keys; k2.push_back(rnd());
    judge(c, "a punctured tree with too many keys" + at, punct(arity, n, miss, xors, k2));
    judge(c, "a punctured tree without keys" + at, punct(arity, n, miss, xors, {}));
    auto x2 = xors; x2[below(c.rng, x2.size())].pop_back();
    judge(c, "a punctured tree with a short summary" + at, punct(arity, n, miss, x2, keys));
    x2 = xors; x2[below(c.rng, x2.size())].push_back(rnd());
    judge(c, "a punctured tree with a long summary" + at, punct(arity, n, miss, x2, keys));
    x2 = xors; x2.pop_back();
    judge(c, "a punctured tree with a level too few" + at, punct(arity, n, miss, x2, keys));
    x2 = xors; x2.push_back(std::vector<Tree::Block>(size_t(arity), 1));
    judge(c, "a punctured tree with a level too many" + at, punct(arity, n, miss, x2, keys));
    c.check(punct(arity, n, miss, xors, keys).ok(), "valid puncturing refused" + at);
    judge(c, "a leaf out of range" + at, status_of(t.GetValueAtLeaf(bad_index(c, n))));
    int lv = int(below(c.rng, uint64_t(t.num_levels())));
    judge(c, "a node out of range" + at, status_of(t.GetValueAtNode(lv, bad_index(c, t.level_size(lv)))));
    judge(c, "a level out of range" + at, status_of(t.GetValueAtNode(pick(c.rng, std::vector<int>{-1, t.num_levels(), 2147483647, -2147483647 - 1}), 0)));
  }
  // bit generator
  {
    using Gen = vo::AESUniformBitGenerator;
    std::vector<uint8_t> seed(48);
    for (auto &b : seed) b = uint8_t(c.rng());
    size_t shorter = below(c.rng, 2) ? 31 : below(c.rng, 32);
    judge(c, "a bit generator seed of " + std::to_string(shorter) + " bytes (short)", status_of(Gen::Create(absl::MakeConstSpan(seed.data(), shorter))));
    auto a = Gen::Create(absl::MakeConstSpan(seed.data(), 32), range(c.rng, 2, 20)), b = Gen::Create(absl::MakeConstSpan(seed.data(), 32), 64);
    ok(a.status()); ok(b.status());
    int k = int(range(c.rng, 0, 30));
    for (int i = 0; i < k; i++) { a.ValueOrDie()(); b.ValueOrDie()(); }
    judge(c, "reseeding with " + std::to_string(shorter) + " bytes (short)", a.ValueOrDie().seed(absl::MakeConstSpan(seed.data() + 16, shorter)));
    for (int i = 0; i < 50; i++) c.check(a.ValueOrDie()() == b.ValueOrDie()(), "a refused reseed changed the stream of a bit generator");
  }
  c.stat("worked_afterwards", 3);
}

static void c24(Ctx &c) {
  int fam = int(c.id % 7);
  if (fam == 6) { rej_modulus(c); if (!TT<T>::kNtl) rej_local(c); return; }
  if (fam == 5) { rej_local(c); if (c.id % 3 == 0) rej_security(c); return; }
  std::string ms = pick_modulus(c);
  Env e = env_for(c);
  Pair p(c, e, c.rng());
  c.desc = type_str(ms) + ", " + env_str(e);
  rej_create(c, p);
  std::unique_ptr<vo::AllButOneRandomOT> a[2];
  std::unique_ptr<vo::SPFSSKnownIndex> s[2];
  std::unique_ptr<vo::MPFSSKnownIndices> m[2];
  std::unique_ptr<vo::ScalarVectorGilboaProduct> g[2];
  std::unique_ptr<VOLE> v[2];
  switch (fam) {
    case 0: p.create(a, "all-but-one ROT"); rej_abo(c, p, a); break;
    case 1: p.create(s, "SPFSS"); rej_spfss(c, p, s); break;
    case 2: p.create(m, "MPFSS"); rej_mpfss(c, p, m); break;
    case 3: p.create(g, "Gilboa product"); rej_gilboa(c, p, g); break;
    case 4: p.create(v, "VOLE"); rej_vole(c, p, v); break;
  }
  c.sample(c.desc);
}

// ------------------------------------------------------------ vectors of unexpected length
// The other party follows the protocol, but one of its messages is replaced by a
// vector of another length on the way. The run must end with an error (and, for
// C23, touch nothing out of bounds).
static void c23_huge(Ctx &c, Pair &p, const std::string &ms) {
  // A batch size far beyond the largest supported one (which it is clamped to)
  // against a peer that gives up after the first rounds.
  static const int64_t kHuge[] = {INT64_MAX, INT64_MAX - 1, INT64_MAX - 4096, int64_t(1) << 62, INT64_MAX - 616092};
  int64_t huge = kHuge[below(c.rng, 5)], small = below(c.rng, 3) ? range(c.rng, 2600, 6000) : range(c.rng, 13000, 20000);
  int role = int(below(c.rng, 2));
  std::string what = "a batch size of " + std::to_string(huge);
  c.desc = type_str(ms) + ", " + env_str(p.e) + ", " + what;
  std::unique_ptr<VOLE> o[2];
  p.create(o, "VOLE");
  std::atomic<bool> peer{false};
  (void)p.try_party([&] {
    Status st = o[0]->PrecomputeSender(role == 0 ? huge : small);
    if (role == 1) peer = st.ok();
  }, [&] {
    Status st = o[1]->PrecomputeReceiver(role == 1 ? huge : small);
    if (role == 0) peer = st.ok();
  });
  // The peer needs at least one round of bootstrapping, in which the other
  // party only takes part if it needs at least that many as well.
  c.check(peer, what + " is taken for one that needs no bootstrapping");
  c.stat("huge_batches");
}
static void c23_hostile(Ctx &c) {
  std::string ms = pick_modulus(c);
  Env e = env_for(c);
  Pair p(c, e, c.rng());
  int kind = int(c.id % 6);
  if (kind == 5) { c23_huge(c, p, ms); c.stat("hostile_peers"); c.sig(c.desc); return; }
  c.desc = type_str(ms) + ", " + env_str(e) + ", hostile peer " + std::to_string(kind);
  // Replaces the first message of `role` that is a vector of `least` or more
  // elements (or of 16 to 64 bytes, as a seed).
  int64_t old = -1, len = -1;
  auto tamper_with = [&](int role, int64_t least, bool seed) {
    int side = p.side(role);
    Rng *g = &c.rng;
    p.link()->tamper = [=, &old, &len](int s, std::string &bytes) {
      if (s != side || old >= 0) return;
      auto change = [&](auto v, auto elem) {
        try { dvlink::Decode(bytes, v); } catch (dvlink::DecodeError &) { return false; }
        int64_t n = int64_t(v.size());
        if (seed ? n < 16 || n > 64 : n < least) return false;
        old = n;
        if (seed) len = int64_t(below(*g, 16));  // AES needs 16 bytes
        else do len = pick(*g, std::vector<int64_t>{0, n - 1, n + 1, n / 2, 2 * n, 1}); while (len == n);
        decltype(v) w(static_cast<size_t>(len));
        for (int64_t i = 0; i < len; i++) w[size_t(i)] = elem(i);
        bytes = dvlink::Encode(w);
        return true;
      };
      auto elem = [](int64_t i) { return TT<T>::make(u128(i) + 1); };
      if (seed) (void)change(std::vector<uint8_t>(), [](int64_t i) { return uint8_t(7 * i); });
      else if (!change(vo::Vector<T>(), elem)) (void)change(std::vector<T>(), elem);
    };
  };
  Status st[2];
  std::string died[2];
  auto run = [&](std::function<Status()> f0, std::function<Status()> f1) {
    auto one = [&](int i, std::function<Status()> f) {
      return [&, i, f] { try { st[i] = f(); } catch (std::exception &x) { died[i] = x.what(); throw; } };
    };
    (void)p.try_party(one(0, f0), one(1, f1));
    p.link()->tamper = nullptr;
  };
  std::string what;
  int bad = 0;  // the role that deviates
  uint64_t g0 = c.rng();
  if (kind == 0) {
    Batch b = filled(c, 8);
    what = "SPFSS";
    std::unique_ptr<vo::SPFSSKnownIndex> o[2];
    p.create(o, "SPFSS");
    tamper_with(bad, int64_t(b.sizes.size()), false);
    run([&] { Rng g(g0); Bufs q(b.sizes, g); auto v = make_vec(b.vs); return o[0]->template RunValueProviderBatched<T>(absl::MakeConstSpan(v), absl::MakeSpan(q.sp)); },
        [&] { Rng g(g0); Bufs q(b.sizes, g); auto v = make_vec(b.vr); return o[1]->template RunIndexProviderBatched<T>(absl::MakeConstSpan(v), absl::MakeConstSpan(b.idx), absl::MakeSpan(q.sp)); });
  } else if (kind == 1) {
    Multi m = multi_for(c, 400, 30);
    what = "MPFSS";
    bad = 1;
    std::unique_ptr<vo::MPFSSKnownIndices> o[2];
    p.create(o, "MPFSS");
    auto nb = o[0]->NumBuckets(int(m.idx.size()));
    ok(nb.status());
    auto junk = [&](uint64_t s) { Rng g(s); std::vector<T> v; for (int i = 0; i < nb.ValueOrDie(); i++) v.push_back(TT<T>::make(TT<T>::uni(g))); return v; };
    if (below(c.rng, 4) == 0) bad = 0;
    tamper_with(bad, 1, false);
    run([&] { Rng g(g0); Bufs q({m.n}, g); auto w = junk(g0); return o[0]->template RunValueProviderVectorOLE<T>(TT<T>::make(m.x), int(m.idx.size()), absl::MakeConstSpan(w), q.sp[0]); },
        [&] { Rng g(g0); Bufs q({m.n}, g); auto u = junk(g0 + 1), v = junk(g0 + 2); auto y = make_vec(m.y);
              return o[1]->template RunIndexProviderVectorOLE<T>(absl::MakeConstSpan(y), absl::MakeConstSpan(m.idx), absl::MakeConstSpan(u), absl::MakeConstSpan(v), q.sp[0]); });
  } else {
    // 2: seed shares of the precomputation, 3: the seed of the code, 4: in an expansion
    what = kind == 2 ? "VOLE precomputation" : kind == 3 ? "VOLE code" : "VOLE expansion";
    std::unique_ptr<VOLE> o[2];
    p.create(o, "VOLE");
    int64_t b = below(c.rng, 4) ? logrange(c.rng, 1, 400) : range(c.rng, 2450, 4000), n = range(c.rng, 1, b);
    if (kind == 3) bad = (e.id0 < e.id1) == !e.swap ? 0 : 1;  // the lower id chooses it
    if (kind == 4) {
      bad = int(below(c.rng, 2));
      p.party([&] { ok(o[0]->PrecomputeSender(b)); }, [&] { ok(o[1]->PrecomputeReceiver(b)); }, "the precomputation");
    }
    tamper_with(bad, kind == 2 ? 100 : 2, kind == 3);
    if (kind == 4) run([&] { return status_of(o[0]->RunSender(n)); }, [&] { return status_of(o[1]->RunReceiver(n)); });
    else run([&] { return o[0]->PrecomputeSender(b); }, [&] { return o[1]->PrecomputeReceiver(b); });
    if (kind == 4 && old >= 0) {
      // Nothing has been generated yet, so there is nothing the cache could serve.
      bool served = false;
      (void)p.try_party([&] { if (bad) served = o[0]->RunSender(1).ok(); }, [&] { if (!bad) served = o[1]->RunReceiver(1).ok(); });
      c.check(!served, what + ": after one failed, elements are delivered that were never generated");
      c.stat("failed_expansions");
    }
  }
  if (old < 0) { c.stat("hostile_skipped"); return; }
  what += ": a vector of " + std::to_string(len) + " instead of " + std::to_string(old) + " elements from the " + (bad ? "receiver" : "sender");
  if (!died[1 - bad].empty()) c.fail(what + " ended with: " + died[1 - bad]);
  c.check(!st[1 - bad].ok(), what + " was accepted");
  c.sig(what.substr(0, 12) + c.desc);
  c.stat("hostile_peers");
}
static void c23(Ctx &c) { if (c.id % 4 == 3) { Ctx k(c.seed, c.id / 4, c.rep, c.thorough); try { c23_hostile(k); } catch (...) { c.desc = k.desc; throw; } } else c24(c); }
}  // namespace dv
int main(int argc, char **argv) {
  for (int i = 1; i + 1 < argc; i++)
    if (std::string(argv[i]) == "--prop" && std::string(argv[i + 1]) == "C23") return dv::harness_main(argc, argv, dv::c23);
  return dv::harness_main(argc, argv, dv::c24);
}
