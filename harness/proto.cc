// Monitors for the protocols: --prop C05 | C06 | C07 | C08 | C09 | C10 | C11 | C21 | C25
#include "proto.h"
#include "dvole_verif_hooks.h"
#include "distributed_vector_ole/ggm_tree.h"
#include <wmmintrin.h>
#include "aesref.h"

using namespace dv;

// ---------------------------------------------------------------- statistics
struct Group { Hist h; Bits b; };
static std::map<std::string, Group> &groups() { static std::map<std::string, Group> g; return g; }
static void observe(const std::string &n, const Vec1 &v) {
  auto &g = groups()[n];
  u128 q = order();
  g.h.add_all(v, q);
  if (!TT<T>::kNtl || (q & (q - 1)) == 0) g.b.add_all(v, TT<T>::bits());
}
static void judge(Report &r) {
  for (auto &g : groups()) {
    double z = g.second.h.z();
    if (z > kZ) throw Violation(g.first + " is not uniform: z=" + std::to_string(z) + " over " + std::to_string(uint64_t(g.second.h.n)) + " values");
    int bit = 0;
    z = g.second.b.z(&bit);
    if (z > kZ) throw Violation("bit " + std::to_string(bit) + " of " + g.first + " is biased: z=" + std::to_string(z));
    r.stats["uniformity_samples"] += uint64_t(g.second.h.n);
  }
}
static void fresh(Ctx &c, FreshSet &f, const Vec1 &x, const std::string &what, double bits) {
  int L = bits >= 96 ? 1 : int(std::ceil(96 / bits));
  for (size_t i = 0; i + size_t(L) <= x.size(); i++) {
    if (!f.s_.insert(L == 1 ? x[i] : hash_window(&x[i], L)).second)
      c.fail(what + ": " + std::to_string(L) + " consecutive value(s) at position " + std::to_string(i) + " occurred before");
    c.stat("windows");
  }
}
static void fresh(Ctx &c, FreshSet &f, const Vec1 &x, const std::string &what) { fresh(c, f, x, what, TT<T>::log_size()); }
// The steps between values must be as fresh as the values themselves.
static void fresh_steps(Ctx &c, FreshSet &f, const Vec1 &x, const std::string &what, size_t lag = 1) {
  if (x.size() <= lag) return;
  Vec1 d;
  for (size_t i = lag; i < x.size(); i++) d.push_back(TT<T>::add(x[i], TT<T>::neg(x[i - lag])));
  fresh(c, f, d, "steps between " + what);
  c.stat("steps", d.size());
}

// ---------------------------------------------------------------- other types
// The same objects run with elements of other types in between: the shape of the
// coming run, or another one.
template <typename U> static void values(Rng &r, Vec1 &v, size_t n) { v.clear(); for (size_t i = 0; i < n; i++) v.push_back(TT<U>::rnd(r)); }
template <typename U> static void other(Ctx &c, Pair &p, std::unique_ptr<vo::AllButOneRandomOT> (&o)[2], const Batch &like) {
  do_abo<U>(p, o, below(c.rng, 2) ? like : batch_for<U>(c, 300, 4), below(c.rng, 3) == 0);
}
template <typename U> static void other(Ctx &c, Pair &p, std::unique_ptr<vo::SPFSSKnownIndex> (&o)[2], const Batch &like) {
  Batch b = like;
  values<U>(c.rng, b.vs, b.sizes.size()); values<U>(c.rng, b.vr, b.sizes.size());
  do_spfss<U>(p, o, below(c.rng, 2) ? b : batch_for<U>(c, 300, 4), int(below(c.rng, 6)));
}
template <typename U> static void other(Ctx &c, Pair &p, std::unique_ptr<vo::MPFSSKnownIndices> (&o)[2], const Multi &like) {
  Multi m;
  m.n = like.n; m.idx = indices_for(c.rng, m.n, int64_t(like.idx.size())); m.x = TT<U>::rnd(c.rng);
  values<U>(c.rng, m.y, m.idx.size());
  if (below(c.rng, 2)) m = multi_for<U>(c, 300, 20);
  do_mpfss<U>(p, o, m, int(below(c.rng, 4)));
}
template <typename U> static void other(Ctx &c, Pair &p, std::unique_ptr<vo::ScalarVectorGilboaProduct> (&o)[2], const Product &like) {
  Product g;
  g.x = TT<U>::rnd(c.rng);
  values<U>(c.rng, g.y, below(c.rng, 2) ? like.y.size() : below(c.rng, 40));
  do_gilboa<U>(p, o, g, int(below(c.rng, 4)));
}
template <typename U, typename P, typename L> static void other_type(Ctx &c, Pair &p, P &o, const L &like) {
  Mod keep = mod();
  std::string m = pick_modulus<U>(c);
  c.desc += "; a run with " + type_str<U>(m);
  other<U>(c, p, o, like);
  mod() = keep;
  c.stat("runs_with_other_types");
}
template <typename P, typename L> static void maybe_other_type(Ctx &c, Pair &p, P &o, const L &like) {
  if (c.small ? below(c.rng, 12) : below(c.rng, 4)) return;
  if (below(c.rng, 2)) other_type<Other0>(c, p, o, like);
  else other_type<Other1>(c, p, o, like);
}

// ---------------------------------------------------------------- C05, C06, C10
static void c05(Ctx &c) {
  std::string m = pick_modulus(c);
  Env e = env_for(c);
  Pair p(c, e, c.rng());
  c.desc = type_str(m) + ", " + env_str(e);
  std::unique_ptr<vo::MPFSSKnownIndices> o[2];
  p.create(o, "MPFSS");
  {
    // any number of indices has a number of buckets, the same for both
    int k = below(c.rng, 2) ? int(std::numeric_limits<int>::max() - int64_t(below(c.rng, 1u << 30))) : int(logrange(c.rng, 1, std::numeric_limits<int>::max()));
    auto a = o[0]->NumBuckets(k), b = o[1]->NumBuckets(k);
    c.check(a.ok() && b.ok(), "no number of buckets for " + std::to_string(k) + " indices");
    int64_t x = a.ValueOrDie(), y = b.ValueOrDie();
    c.check(x >= k && x == y, "the numbers of buckets for " + std::to_string(k) + " indices are " + std::to_string(x) + " and " + std::to_string(y));
  }
  int many = long_history(c), runs = many ? many : int(range(c.rng, 1, 4));
  Multi prev;
  for (int i = 0; i < runs; i++) {
    Multi x = many ? multi_for(c, 12, 3) : multi_for(c, c.thorough ? 60000 : 4000, c.thorough ? 600 : 120);
    if (giant(c) >= 0) {
      static const int64_t ns[] = {140000, 70000, 3000}, ks[] = {7, 3000, 2999};
      x.n = ns[giant(c)];
      x.idx = indices_for(c.rng, x.n, ks[giant(c)]);
      if (giant(c) == 0) x.idx = {139999, 65535, 65536, 131072, 0, 131071, range(c.rng, 70000, 131000)};
      x.y.clear();
      for (size_t k = 0; k < x.idx.size(); k++) x.y.push_back(TT<T>::rnd(c.rng));
      c.stat("giant_cases");
      runs = std::min(runs, 2);
    }
    if (i > 0 && below(c.rng, 3) == 0) {  // same public sizes, other secrets: buckets are reused
      x.n = prev.n;
      x.idx = indices_for(c.rng, x.n, int64_t(prev.idx.size()));
      x.y.clear();
      for (size_t k = 0; k < x.idx.size(); k++) x.y.push_back(TT<T>::rnd(c.rng));
      c.stat("reused_buckets");
    } else if (i > 0 && below(c.rng, 3) == 0) {  // same output size, other number of points
      x.n = prev.n;
      int64_t k = logrange(c.rng, 1, std::min<int64_t>(x.n, 120));
      x.idx = indices_for(c.rng, x.n, k);
      x.y.clear();
      for (int64_t j = 0; j < k; j++) x.y.push_back(TT<T>::rnd(c.rng));
      c.stat("same_output_size");
    }
    int up = int(below(c.rng, 6));
    c.desc += "; " + x.str() + (up > 0 && up < 4 ? " updated" + std::to_string(up) : "");
    if (up == 4) {  // an update for other sizes in between must not matter
      int64_t n2 = size_for(c.rng, 2000);
      int k2 = int(logrange(c.rng, 1, 50));
      p.party([&] { ok(o[0]->UpdateBuckets(n2, k2)); }, [&] { ok(o[1]->UpdateBuckets(n2, k2)); }, "UpdateBuckets");
      c.stat("foreign_updates");
    }
    prev = x;
    if (giant(c) < 0) maybe_other_type(c, p, o, x);
    do_mpfss(p, o, x, up < 4 ? up : 0);
    c.sig(type_str(m) + x.str());
  }
  c.sample(c.desc);
}
static void c06(Ctx &c) {
  std::string m = pick_modulus(c);
  Env e = env_for(c);
  Pair p(c, e, c.rng());
  c.desc = type_str(m) + ", " + env_str(e);
  std::unique_ptr<vo::SPFSSKnownIndex> o[2];
  p.create(o, "SPFSS");
  int many = long_history(c), runs = many ? many : int(range(c.rng, 1, 4));
  for (int i = 0; i < runs; i++) {
    Batch b = giant(c) >= 0 ? giant_batch(c, giant(c)) : many ? batch_for(c, 20, 3) : batch_for(c, c.thorough ? 100000 : 3000, c.thorough ? 60 : 12);
    if (giant(c) >= 0) runs = 1;
    int api = int(below(c.rng, 6));
    c.desc += "; " + b.str();
    if (giant(c) < 0) maybe_other_type(c, p, o, b);
    do_spfss(p, o, b, api);
    c.sig(type_str(m) + b.str());
  }
  c.sample(c.desc);
}
static void c10(Ctx &c) {
  std::string m = TT<T>::setup(c.rng, true);
  Env e = env_for(c);
  if constexpr (TT<T>::kNtl) if (giant(c) < 0 && below(c.rng, 3) == 0) { m = edge_modulus<T>(c.rng, e.ss, 8); c.stat("edge_moduli"); }
  Pair p(c, e, c.rng());
  c.desc = type_str(m) + ", " + env_str(e);
  std::unique_ptr<vo::ScalarVectorGilboaProduct> o[2];
  p.create(o, "the product");
  int many = long_history(c), runs = many ? many : int(range(c.rng, 1, 4));
  for (int i = 0; i < runs; i++) {
    Product g = product_for(c, many ? 5 : c.thorough ? 3000 : 250);
    c.desc += "; " + hex(g.x) + " * vector of " + std::to_string(g.y.size());
    if (giant(c) < 0) maybe_other_type(c, p, o, g);
    do_gilboa(p, o, g, int(below(c.rng, 4)));
    c.sig(type_str(m) + hex(g.x) + std::to_string(g.y.size()));
  }
  c.sample(c.desc);
}

// ---------------------------------------------------------------- C07
// Replays a run with everything random changed except what the sender sent in
// the clear: the receiver could recompute whatever stays the same.
static void c07_causes(Ctx &c, const std::string &m) {
  Env e = env_for(c);
  Batch b = batch_for(c, 600, 6);
  c.desc = type_str(m) + ", " + env_str(e) + ", replayed with other sender randomness; " + b.str();
  uint64_t coins = c.rng(), lseed = c.rng(), label = (e.swap ? 1 : 0) + 1, drawn = 0;
  std::set<uint64_t> keep;
  Vec1 seen[2];
  for (int pass : {0, 1}) {
    rand_case(coins);
    if (pass) rand_perturb(label, keep);
    Pair p(c, e, lseed + uint64_t(pass));
    p.hopping = false;
    p.teams = Teams();
    p.link()->record = pass == 0;
    (void)rand_log();
    rand_record(pass == 0);
    std::unique_ptr<vo::AllButOneRandomOT> o[2];
    p.create(o, "all-but-one ROT");
    for (int i = 0; i < 2; i++) {
      Out2 out = do_abo(p, o, b, i == 1);
      for (auto &x : out.s) seen[pass].insert(seen[pass].end(), x.begin(), x.end());
    }
    rand_record(false);
    if (!pass) {
      std::string sent;
      for (auto &f : p.link()->log) if (f.side == int(label) - 1) sent += f.bytes + '|';
      for (auto &d : rand_log()) if (d.label == label) { if (sent.find(d.bytes) != std::string::npos) keep.insert(drawn); drawn++; }
    }
  }
  rand_case(c.rng());
  double ls = TT<T>::log_size();
  size_t L = ls >= 60 ? 1 : size_t(std::ceil(60 / ls)), run = 0;
  for (size_t i = 0; i < seen[0].size(); i++) {
    run = seen[0][i] == seen[1][i] ? run + 1 : 0;
    c.check(run < L, std::to_string(L) + " consecutive value(s) at position " + std::to_string(i) + " are the same although everything random changed but what the sender sent");
  }
  c.stat("causes_checked", seen[0].size());
  c.stat("public_draws", keep.size());
  c.sig(c.desc);
  c.sample(c.desc);
}
static void c07(Ctx &c) {
  std::string m = pick_modulus(c);
  if (giant(c) < 0 && c.id % 8 == 7) return c07_causes(c, m);
  c.desc = type_str(m);
  FreshSet f, f2;
  for (int inst = 0; inst < 2; inst++) {
    Env e = env_for(c);
    Pair p(c, e, c.rng());
    c.desc += (inst ? " || " : " ") + env_str(e);
    std::unique_ptr<vo::AllButOneRandomOT> o[2];
    p.create(o, "all-but-one ROT");
    int many = long_history(c), runs = many ? many : int(range(c.rng, 1, 3));
    for (int i = 0; i < runs; i++) {
      Batch b = giant(c) >= 0 ? giant_batch(c, giant(c)) : many ? batch_for(c, 40, 2) : batch_for(c, c.thorough ? 200000 : 5000, c.thorough ? 60 : 12);
      if (giant(c) >= 0) runs = 1;
      bool single = below(c.rng, 3) == 0;
      c.desc += "; " + b.str() + (single ? " one by one" : "");
      if (giant(c) < 0) maybe_other_type(c, p, o, b);
      Out2 out = do_abo(p, o, b, single);
      Vec1 missing, all;
      for (size_t k = 0; k < b.sizes.size(); k++) {
        if (b.sizes[k] == 0) { c.stat("empty_members"); continue; }
        missing.push_back(out.s[k][size_t(b.idx[k])]);
        all.insert(all.end(), out.s[k].begin(), out.s[k].end());
        fresh(c, f, out.s[k], "output of member " + std::to_string(k));
        fresh_steps(c, f2, out.s[k], "outputs of member " + std::to_string(k));
      }
      observe("the sender's output", all);
      observe("the sender's value at the missing index", missing);
      c.sig(type_str(m) + b.str());
    }
  }
  c.sample(c.desc);
}

// ---------------------------------------------------------------- C08
using Blk = u128;
static Blk blk(__m128i x) { Blk r; memcpy(&r, &x, 16); return r; }
static Blk load16(const char *p) { Blk r; memcpy(&r, p, 16); return r; }
static Blk bswap(Blk v) {
  Blk r = 0;
  for (int i = 0; i < 16; i++) r = (r << 8) | ((v >> (8 * i)) & 0xff);
  return r;
}
struct RefTree {  // reference binary GGM tree
  std::vector<std::vector<Blk>> lv;
  RefTree(Blk root, const Blk *keys, int64_t leaves) {
    std::vector<int64_t> sz{leaves};
    while (sz.back() > 1) sz.push_back((sz.back() + 1) / 2);
    lv.push_back({root});
    AesRef a(keys[0]), b(keys[1]);
    for (size_t l = sz.size() - 1; l-- > 0;) {
      std::vector<Blk> n(size_t(sz[l]), 0);
      for (size_t i = 0; i < n.size(); i++) {
        Blk par = lv.back()[i / 2];
        n[i] = ((i & 1) ? b : a).enc(par) ^ par;
      }
      lv.push_back(std::move(n));
    }
  }
};
static void c08(Ctx &c) {
  std::string m = pick_modulus(c);
  Env e = env_for(c);
  c.desc = type_str(m) + ", " + env_str(e);
  Pair p(c, e, c.rng());
  p.link()->record = true;
  std::unique_ptr<vo::AllButOneRandomOT> o[2];
  p.create(o, "all-but-one ROT");
  int runs = int(range(c.rng, 1, 3));
  for (int i = 0; i < runs; i++) {
    Batch b = batch_for(c, c.thorough ? 20000 : 1500, 8);
    if (giant(c) == 0) {
      b.sizes = {70001}; b.idx = {range(c.rng, 60000, 70000)};
    } else if (giant(c) == 1) {
      b.sizes.clear(); b.idx.clear();
      for (int k = 0; k < 300; k++) { b.sizes.push_back(range(c.rng, 0, 12)); b.idx.push_back(b.sizes.back() ? index_for(c.rng, b.sizes.back()) : 0); }
    }
    b.vs.resize(b.sizes.size()); b.vr.resize(b.sizes.size());
    c.desc += "; " + b.str();
    p.link()->clear_logs();
    rand_record(true);
    (void)rand_log();
    Out2 out = do_abo(p, o, b, false);
    rand_record(false);
    auto log = rand_log();
    // everything that left the sender
    int S = p.side(0);
    std::string raw;
    std::vector<std::string> frames;
    for (auto &x : p.link()->log) if (x.side == S && x.kind != 'S' && x.kind != 'O') { frames.push_back(x.bytes); raw += x.kind == 'R' ? x.bytes : ""; }
    std::multiset<Blk> got, notgot;
    for (auto &r : p.link()->ot_log) {
      c.check(r.sender == S, "the receiver acted as OT sender");
      for (size_t k = 0; k < r.m0.size(); k++) {
        got.insert(blk(r.choices[k] ? r.m1[k] : r.m0[k]));
        notgot.insert(blk(r.choices[k] ? r.m0[k] : r.m1[k]));
        if (blk(r.m0[k]) == blk(r.m1[k])) c.fail("both OT messages are equal, so the receiver obtains both");
      }
    }
    bool any = false;
    for (int64_t n : b.sizes) any = any || n > 0;
    if (!any) continue;
    c.check(raw.size() >= 32, "no child-function keys were sent");
    // candidate key pairs: the raw traffic, in 16-byte steps
    std::vector<Blk> roots;
    for (auto &x : log) for (size_t k = 0; k + 16 <= x.bytes.size(); k += 8) roots.push_back(load16(x.bytes.data() + k));
    Blk keys[2] = {0, 0};
    bool have_keys = false;
    auto find_root = [&](const Blk *ky, size_t mem, RefTree *t) {
      int hits = 0;
      for (Blk root : roots) {
        RefTree q(root, ky, b.sizes[mem]);
        bool same = true;
        for (int64_t k = 0; k < b.sizes[mem] && same; k++) same = TT<T>::canon(TT<T>::make(q.lv.back()[size_t(k)] & TT<T>::mask())) == out.s[mem][size_t(k)];
        if (same) { if (hits == 0 && t) *t = q; hits++; }
      }
      return hits;
    };
    auto identifiable = [&](size_t mem) { return double(b.sizes[mem]) * TT<T>::log_size() >= 60 && b.sizes[mem] > 1; };
    std::vector<Blk> secret;  // nothing of this may be obtained
    std::multiset<Blk> expected;
    bool all_known = true;
    for (size_t k = 0; k < b.sizes.size(); k++) {
      if (b.sizes[k] <= 1) continue;
      if (!identifiable(k)) { all_known = false; continue; }
      if (!have_keys) {
        for (size_t q = 0; q + 32 <= raw.size() && !have_keys; q += 16) {
          Blk cand[2] = {load16(raw.data() + q), load16(raw.data() + q + 16)};
          for (int z = 0; z < 2 && !have_keys; z++) {
            if (z) for (auto &x : cand) x = bswap(x);
            if (find_root(cand, k, nullptr) >= 1) { keys[0] = cand[0]; keys[1] = cand[1]; have_keys = true; }
          }
        }
        c.check(have_keys, "no fresh random seed drawn by the sender and key pair it sent explain member " + std::to_string(k) + " of its output");
      }
      RefTree t(0, keys, 1);
      c.check(find_root(keys, k, &t) >= 1, "no fresh random seed drawn by the sender explains member " + std::to_string(k) + " of its output");
      c.stat("trees");
      int64_t pos = b.idx[k];
      int D = int(t.lv.size()) - 1;
      secret.push_back(t.lv[0][0]);
      Blk whole = 0;  // a sum over a whole level, or of several, gives the missing node away
      for (int d = D; d >= 1; d--) {
        Blk s = 0;
        for (Blk x : t.lv[size_t(d)]) s ^= x;
        if (s != 0) secret.push_back(s);
        whole ^= s;
        if (whole != 0) secret.push_back(whole);
      }
      for (int d = D; d >= 1; d--) {
        int64_t at = pos >> (D - d);
        Blk off = 0, on = 0;
        auto &L = t.lv[size_t(d)];
        for (size_t q = 0; q < L.size(); q++) ((int64_t(q) & 1) == (at & 1) ? on : off) ^= L[q];
        expected.insert(off);
        secret.push_back(L[size_t(at)]);
        if (on != 0) secret.push_back(on);
        c.stat("levels");
      }
    }
    if (all_known) c.check(got.size() == expected.size(), "the receiver obtained " + std::to_string(got.size()) + " OT messages for " + std::to_string(expected.size()) + " tree levels");
    {
      auto g = got;
      for (Blk x : expected) {
        auto it = g.find(x);
        if (it == g.end()) c.fail("an OT message obtained by the receiver is not the XOR that excludes its path");
        g.erase(it);
      }
    }
    for (size_t k = 0; k < b.sizes.size(); k++)  // single leaves: the root is the missing value
      if (b.sizes[k] == 1 && TT<T>::log_size() >= 62) secret.push_back(out.s[k][0]);
    // scan everything received for secret material
    std::unordered_set<Blk, FreshSet::H> bad;
    for (Blk s : secret) for (Blk kk : {Blk(0), keys[0], keys[1]}) { bad.insert(s ^ kk); bad.insert(bswap(s ^ kk)); }
    bad.erase(0);
    std::vector<Blk> seen;
    for (auto &fr : frames) for (size_t k = 0; k + 16 <= fr.size(); k++) seen.push_back(load16(fr.data() + k));
    for (Blk x : got) seen.push_back(x);
    for (Blk x : seen) {
      if (bad.count(x)) c.fail("the receiver obtained a node on the path to its index (or the combination including it)");
      c.stat("blocks_scanned");
    }
    // narrow leaves: the missing value itself must not be sent either
    if (TT<T>::log_size() >= 62 && TT<T>::log_size() < 96)
      for (size_t k = 0; k < b.sizes.size(); k++) if (b.sizes[k] > 0) {
        uint64_t v = uint64_t(out.s[k][size_t(b.idx[k])]);
        for (auto &fr : frames) for (size_t q = 0; q + 8 <= fr.size(); q++) { uint64_t w; memcpy(&w, fr.data() + q, 8); if (w == v) c.fail("the missing value was sent"); }
      }
    c.sig(type_str(m) + b.str());
  }
  c.sample(c.desc);
}

// ---------------------------------------------------------------- C09
struct View { std::vector<dvlink::LogEntry> log; std::vector<dvlink::OTRecord> ots; };
static View take(Pair &p) { View v; v.log = p.link()->log; v.ots = p.link()->ot_log; p.link()->clear_logs(); return v; }
// Order of entries of different sides is scheduling; compare side by side.
static std::vector<const dvlink::LogEntry *> of(const View &v, int side) {
  std::vector<const dvlink::LogEntry *> r;
  for (auto &x : v.log) if (x.side == side) r.push_back(&x);
  return r;
}
static void same_shape(Ctx &c, const View &a, const View &b, const std::string &what) {
  for (int s : {0, 1}) {
    auto x = of(a, s), y = of(b, s);
    c.check(x.size() == y.size(), what + ": the number of messages depends on secrets: " + std::to_string(x.size()) + " vs " + std::to_string(y.size()));
    for (size_t i = 0; i < x.size(); i++)
      c.check(x[i]->kind == y[i]->kind && x[i]->stream == y[i]->stream && x[i]->bytes.size() == y[i]->bytes.size(),
              what + ": the size or kind of message " + std::to_string(i) + " depends on secrets");
  }
  c.check(a.ots.size() == b.ots.size(), what + ": the number of OT batches depends on secrets");
  for (size_t i = 0; i < a.ots.size(); i++)
    c.check(a.ots[i].sender == b.ots[i].sender && a.ots[i].correlated == b.ots[i].correlated && a.ots[i].m0.size() == b.ots[i].m0.size(),
            what + ": the number or kind of OTs depends on secrets");
  c.stat("views_compared");
}
// Indices of frames of `side` whose content differs.
static std::vector<size_t> differing(const View &a, const View &b, int side) {
  auto x = of(a, side), y = of(b, side);
  std::vector<size_t> r;
  for (size_t i = 0; i < x.size(); i++) if (x[i]->bytes != y[i]->bytes) r.push_back(i);
  return r;
}
static void same_frames(Ctx &c, const View &a, const View &b, int side, const std::string &what) {
  same_shape(c, a, b, what);
  auto d = differing(a, b, side);
  if (!d.empty()) c.fail(what + ": message " + std::to_string(d[0]) + " (" + std::to_string(of(a, side)[d[0]]->bytes.size()) + " bytes) changes with a secret that it must not depend on");
}
static void same_ot_messages(Ctx &c, const View &a, const View &b, const std::string &what) {
  for (size_t i = 0; i < a.ots.size(); i++)
    for (size_t k = 0; k < a.ots[i].m0.size(); k++)
      c.check(blk(a.ots[i].m0[k]) == blk(b.ots[i].m0[k]) && blk(a.ots[i].m1[k]) == blk(b.ots[i].m1[k]), what + ": OT messages change with a secret they must not depend on");
}
// Scans all frames and delivered OT messages for secrets in the clear.
static void canaries(Ctx &c, const View &v, const Vec1 &secrets, const std::string &what) {
  double ls = TT<T>::log_size();
  if (ls < 63.5) return;
  size_t w = ls > 96 ? 12 : 8;  // bytes compared
  std::unordered_set<u128, FreshSet::H> set;
  u128 msk = (u128(1) << (8 * w)) - 1;
  for (u128 s : secrets) {
    if ((s >> 40) == 0 || ((TT<T>::neg(s) >> 40) == 0)) continue;  // small or special values occur by chance
    if (ls > 64 && (s << 40) == 0) continue;
    for (u128 t : {s, TT<T>::neg(s)}) {
      if ((t & msk) != 0 && (t & msk) != msk) set.insert(t & msk);
      u128 be = bswap(t) >> (128 - 8 * ((int(ls) + 7) / 8 > 16 ? 16 : (int(std::ceil(ls)) + 7) / 8));
      if ((be & msk) != 0 && (be & msk) != msk) set.insert(be & msk);
    }
  }
  for (auto &x : v.log)
    for (size_t k = 0; k + w <= x.bytes.size(); k++) {
      u128 q = 0;
      memcpy(&q, x.bytes.data() + k, w);
      if (set.count(q)) c.fail(what + ": a secret appears in the clear at byte " + std::to_string(k) + " of a message of " + std::to_string(x.bytes.size()) + " bytes");
      c.stat("bytes_scanned");
    }
  for (auto &r : v.ots)
    for (size_t k = 0; k < r.m0.size(); k++) {
      Blk g = blk(r.choices[k] ? r.m1[k] : r.m0[k]);
      for (size_t s = 0; s + w <= 16; s++) if (set.count((g >> (8 * s)) & msk)) c.fail(what + ": an OT delivers a secret in the clear");
      c.stat("ot_messages_scanned");
    }
}
// A message that is a vector of elements, whatever container it was sent as.
static bool decode_vec(const std::string &s, Vec1 *out) {
  auto as = [&](auto v) {
    try { dvlink::Decode(s, v); } catch (std::exception &) { return false; }
    *out = canon_vec(v);
    return true;
  };
  return as(vo::Vector<T>()) || as(std::vector<T>());
}
// A frame of masked values: exactly the values `y`, zero elsewhere, once the
// mask is taken off.
static bool explained(const Vec1 &f, const Vec1 &mask, const Vec1 &y) {
  if (f.size() != mask.size()) return false;
  std::vector<u128> a, b;
  for (size_t i = 0; i < f.size(); i++) { u128 d = sub_ref(f[i], mask[i]); if (d != 0) a.push_back(d); }
  for (u128 v : y) if (v != 0) b.push_back(v);
  std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
  return a == b;
}
// The shares of a scalar-vector product that batches of OTs amount to: sums of
// the unpacked messages over the bits of the scalar. (If the OTs are for
// something else, or laid out differently, these are just other values that
// nobody may see.)
static std::vector<Vec1> product_shares(const View &v) {
  std::vector<Vec1> all;
  int size = (TT<T>::bits() + 7) / 8, bits = 8 * size, per = 16 / size;
  for (auto &r : v.ots) {
    if (r.m0.empty() || r.m0.size() % size_t(bits)) continue;
    for (bool chosen : {false, true}) {
      Vec1 out;
      for (size_t g = 0; g < r.m0.size(); g += size_t(bits))
        for (int k = 0; k < per; k++) {
          u128 sum = 0;
          for (size_t j = 0; j < size_t(bits); j++) {
            Blk b = blk(chosen && r.choices[g + j] ? r.m1[g + j] : r.m0[g + j]);
            u128 x = u128(b) >> (8 * size * k);
            if (size < 16) x &= (u128(1) << (8 * size)) - 1;
            if (order() != 0) x %= order();
            sum = TT<T>::add(sum, x);
          }
          out.push_back(sum);
        }
      all.push_back(out);
    }
  }
  return all;
}
// Secrets an implementation might treat specially: shortcuts for them show.
static u128 special(Ctx &c) {
  uint64_t k = below(c.rng, 6);
  if (k < 3) c.stat("special_secrets");
  return k == 0 ? 0 : k == 1 ? TT<T>::canon(TT<T>::make(1)) : k == 2 ? TT<T>::neg(TT<T>::canon(TT<T>::make(1))) : TT<T>::uni(c.rng);
}
static Vec1 specials(Ctx &c, size_t n) {
  Vec1 v;
  bool zeros = below(c.rng, 4) == 0;
  for (size_t i = 0; i < n; i++) v.push_back(zeros ? 0 : special(c));
  return v;
}
static Vec1 randoms(Ctx &c, size_t n) { Vec1 v; for (size_t i = 0; i < n; i++) v.push_back(TT<T>::uni(c.rng)); return v; }

static void c09_spfss(Ctx &c, const std::string &m, bool abo) {
  Env e = env_for(c);
  Batch a = batch_for(c, 800, 6);
  c.desc = type_str(m) + (abo ? " all-but-one ROT " : " SPFSS ") + a.str();
  a.vs = randoms(c, a.sizes.size()); a.vr = randoms(c, a.sizes.size());
  uint64_t coins = c.rng(), lseed = c.rng();
  auto run = [&](const Batch &b, Out2 *out) {
    rand_case(coins);
    Pair p(c, e, lseed);
    p.link()->record = true;
    Out2 o2;
    if (abo) { std::unique_ptr<vo::AllButOneRandomOT> o[2]; p.create(o, "all-but-one ROT"); o2 = do_abo(p, o, b, false); }
    else { std::unique_ptr<vo::SPFSSKnownIndex> o[2]; p.create(o, "SPFSS"); o2 = do_spfss(p, o, b, 0); }
    if (out) *out = o2;
    return take(p);
  };
  // garbage in the buffers must not matter, so the harness stream may move on
  Batch b = a;  // other secrets of the index provider
  for (size_t i = 0; i < b.sizes.size(); i++) if (b.sizes[i] > 0) b.idx[i] = index_for(c.rng, b.sizes[i]);
  b.vr = specials(c, b.sizes.size());
  Batch d = a;  // other secrets of the value provider
  d.vs = specials(c, d.sizes.size());
  Out2 oa;
  View va = run(a, &oa), vb = run(b, nullptr);
  int S = e.swap ? 1 : 0, R = 1 - S;
  same_frames(c, va, vb, R, "what the value provider receives");
  same_frames(c, va, vb, S, "what the value provider sends");
  same_ot_messages(c, va, vb, "what the value provider offers in OTs");
  if (!abo) {
    View vd = run(d, nullptr);
    same_frames(c, va, vd, R, "what the index provider sends");
    same_ot_messages(c, va, vd, "OT messages");
    Vec1 sec = a.vs;
    sec.insert(sec.end(), a.vr.begin(), a.vr.end());
    canaries(c, va, sec, "SPFSS");
  }
  c.sig(c.desc);
  c.stat(abo ? "rot_pairs" : "spfss_pairs");
}
static void c09_mpfss(Ctx &c, const std::string &m) {
  Env e = env_for(c);
  Multi a = multi_for(c, 2000, 60);
  c.desc = type_str(m) + " MPFSS " + a.str();
  int nb;
  uint64_t coins = c.rng(), lseed = c.rng();
  a.x = TT<T>::uni(c.rng);
  a.y = randoms(c, a.y.size());
  auto run = [&](Multi &b) {
    rand_case(coins);
    Pair p(c, e, lseed);
    p.link()->record = true;
    std::unique_ptr<vo::MPFSSKnownIndices> o[2];
    p.create(o, "MPFSS");
    do_mpfss(p, o, b, 3);
    nb = int(b.u.size());
    return take(p);
  };
  int S = e.swap ? 1 : 0, R = 1 - S;
  View va = run(a);
  Multi b = a;  // same correlation and coins, other indices and values
  for (int tries = 0; tries < 8; tries++) {
    b.idx = indices_for(c.rng, b.n, int64_t(b.idx.size()));
    if (b.idx != a.idx) break;
  }
  b.y = specials(c, b.y.size());
  View vb = run(b);
  same_shape(c, va, vb, "MPFSS");
  same_ot_messages(c, va, vb, "OT messages of the value provider");
  auto diff = differing(va, vb, R);
  auto fa = of(va, R), fb = of(vb, R);
  int masked = 0;
  for (size_t i : diff) {
    Vec1 x, y;
    bool good = decode_vec(fa[i]->bytes, &x) && decode_vec(fb[i]->bytes, &y) && explained(x, a.u, a.y) && explained(y, b.u, b.y);
    c.check(good, "message " + std::to_string(i) + " of the index provider depends on its indices or values but is not its values under one-time masks");
    masked++;
  }
  // no mask may be used for two messages
  c.check(masked <= 1, "the same masks are used for " + std::to_string(masked) + " messages");
  c.stat("masked_messages", uint64_t(masked));
  c.stat("masked_buckets", uint64_t(nb));
  // other scalar: what the value provider sends may only change under masks,
  // and what it receives must not change at all
  Multi d = a;
  d.x = special(c);
  MulBy<T> mul(d.x);
  for (size_t i = 0; i < d.u.size(); i++) d.w[i] = TT<T>::add(mul(d.u[i]), d.v[i]);
  View vd = run(d);
  same_frames(c, va, vd, R, "what the index provider sends");
  same_ot_messages(c, va, vd, "OT messages");
  Vec1 sec = a.y;
  sec.push_back(a.x);
  for (u128 v : a.y) sec.push_back(MulBy<T>(a.x)(v));
  for (auto *v : {&a.u, &a.v, &a.w}) sec.insert(sec.end(), v->begin(), v->end());
  for (size_t i = 0; i < a.u.size(); i++) sec.push_back(MulBy<T>(a.x)(a.u[i]));
  // an empty bucket's masked value is the mask itself: the mask is then spent
  // on a zero and no longer a secret
  std::set<u128> spent(a.u.begin(), a.u.end());
  Vec1 s2;
  for (u128 x : sec) if (!spent.count(x)) s2.push_back(x);
  canaries(c, va, s2, "MPFSS");
  c.stat("mpfss_pairs");
  c.sig(c.desc);
}
static void c09_gilboa(Ctx &c, const std::string &m) {
  Env e = env_for(c);
  Product a = product_for(c, 40);
  a.x = TT<T>::uni(c.rng);
  a.y = randoms(c, a.y.size());
  c.desc = type_str(m) + " product with a vector of " + std::to_string(a.y.size());
  uint64_t coins = c.rng(), lseed = c.rng();
  Out2 oa;
  auto run = [&](const Product &b, Out2 *o2) {
    rand_case(coins);
    Pair p(c, e, lseed);
    p.link()->record = true;
    std::unique_ptr<vo::ScalarVectorGilboaProduct> o[2];
    p.create(o, "the product");
    Out2 x = do_gilboa(p, o, b, 0);
    if (o2) *o2 = x;
    return take(p);
  };
  int S = e.swap ? 1 : 0, R = 1 - S;
  View va = run(a, &oa);
  Product b = a, d = a;
  b.x = special(c);
  d.y = specials(c, d.y.size());
  View vb = run(b, nullptr), vd = run(d, nullptr);
  for (int s : {0, 1}) { same_frames(c, va, vb, s, "product, other scalar"); }
  same_ot_messages(c, va, vb, "product, other scalar");
  same_frames(c, va, vd, R, "product, other vector");
  for (size_t i : differing(va, vd, S)) c.fail("product: message " + std::to_string(i) + " of the vector provider depends on its vector outside of an OT");
  Vec1 sec = a.y;
  sec.push_back(a.x);
  for (u128 v : a.y) sec.push_back(MulBy<T>(a.x)(v));
  sec.insert(sec.end(), oa.s[0].begin(), oa.s[0].end());
  sec.insert(sec.end(), oa.r[0].begin(), oa.r[0].end());
  // the shares of a one-bit type are the OT messages themselves; wider ones are sums
  canaries(c, va, sec, "product");
  c.stat("gilboa_pairs");
  c.sig(c.desc);
}
static void c09_vole(Ctx &c, const std::string &m) {
  Env e = env_for(c);
  int64_t b = below(c.rng, 6) == 0 ? range(c.rng, 2450, 6000) : logrange(c.rng, 1, 2300);
  c.desc = type_str(m) + " VOLE in batches of " + std::to_string(b);
  uint64_t coins = c.rng(), lseed = c.rng();
  auto &H = dvhook::store();
  int S = e.swap ? 1 : 0, R = 1 - S;
  View first;
  std::set<size_t> opened[2];  // messages explained as masked noise
  for (int rep = 0; rep < 2; rep++) {  // same coins, other delta
    u128 delta = special(c);
    rand_case(coins);
    Pair p(c, e, lseed);
    p.link()->record = true;
    std::unique_ptr<VOLE> o[2];
    p.create(o, "VOLE");
    H.all.clear();
    H.on = true;
    Corr k = do_vole(p, o, b, &delta, b);
    Corr k2 = do_vole(p, o, 0, nullptr, b + 1);
    H.on = false;
    View v = take(p);
    Vec1 sec{delta};
    std::set<u128> spent;
    size_t masked = 0;
    std::vector<const dvhook::Expansion *> sx, rx;
    for (auto &x : H.all) (x.side == 0 ? sx : rx).push_back(&x);
    std::vector<bool> used(sx.size(), false);
    size_t ordinal = 0;
    for (auto *f : of(v, S)) {
      size_t at = ordinal++;
      Vec1 vec;
      if (f->kind != 'M' || !decode_vec(f->bytes, &vec)) continue;
      for (size_t i = 0; i < sx.size(); i++) {
        if (vec.size() != sx[i]->mpfss_a.size()) continue;
        if (explained(vec, sx[i]->mpfss_a, sx[i]->noise_val)) {
          c.check(!used[i], "the masks of one expansion are used twice");
          used[i] = true;
          opened[rep].insert(at);
          masked++;
        }
      }
    }
    for (size_t i = 0; i < used.size(); i++)
      c.check(used[i], "no message of expansion " + std::to_string(i) + " carries its noise values under the noise-sharing masks alone");
    for (auto *x : sx) {
      for (auto *q : {&x->seed_a, &x->seed_b, &x->mpfss_b, &x->noise_val}) sec.insert(sec.end(), q->begin(), q->end());
      for (u128 u : x->mpfss_a) spent.insert(u);
    }
    for (auto *x : rx) for (auto *q : {&x->seed_a, &x->mpfss_a}) sec.insert(sec.end(), q->begin(), q->end());
    for (auto *q : {&k.u, &k.v, &k.w, &k2.u, &k2.v, &k2.w}) sec.insert(sec.end(), q->begin(), q->end());
    // noise positions as ten or more consecutive words, in any order; words that
    // can be elements of a small ring do not count
    for (auto *x : sx) if (x->noise_pos.size() >= 12) {
      std::set<uint64_t> ps;
      for (int64_t q : x->noise_pos) if (!TT<T>::kNtl || u128(uint64_t(q)) >= mod().m || mod().m > u128(uint64_t(x->cols))) ps.insert(uint64_t(q));
      for (auto &f : v.log) for (size_t width : {size_t(4), size_t(8)}) for (size_t off = 0; off < width; off++) {
        std::set<uint64_t> run;
        for (size_t k = off; k + width <= f.bytes.size(); k += width) {
          uint64_t q = 0;
          memcpy(&q, f.bytes.data() + k, width);
          if (ps.count(q) && run.insert(q).second) c.check(run.size() < 10, "noise positions are sent in the clear");
          else run.clear();
        }
      }
    }
    // shares of the product that everything starts from, and what hides them
    // where they are added up
    for (auto &share : product_shares(v)) {
      sec.insert(sec.end(), share.begin(), share.end());
      c.stat("product_shares", share.size());
      if (TT<T>::log_size() < 48) continue;
      for (auto &f : v.log) {
        Vec1 vec;
        if (f.kind != 'M' || f.bytes.size() < share.size() / 2 || !decode_vec(f.bytes, &vec) || vec.size() < 8 || vec.size() > share.size() || vec.size() + 16 < share.size()) continue;
        for (bool minus : {false, true}) {
          std::set<u128> masks;
          size_t again = 0;
          for (size_t i = 0; i < vec.size(); i++) again += !masks.insert(sub_ref(vec[i], minus ? TT<T>::neg(share[i]) : share[i])).second;
          c.check(again < 4, std::to_string(again) + " elements of the product that starts the precomputation are sent under a mask that hides another one as well");
        }
        c.stat("opened_product_shares");
      }
    }
    Vec1 s2;
    for (u128 x : sec) if (!spent.count(x)) s2.push_back(x);
    canaries(c, v, s2, "VOLE");
    c.stat("masked_messages", masked);
    if (rep == 0) first = std::move(v);
    else {
      same_shape(c, first, v, "VOLE");
      // (the order of the noise positions, and hence the masked messages, vary
      // from run to run even with the same coins)
      for (size_t i : differing(first, v, S))
        if (!opened[0].count(i) || !opened[1].count(i)) c.fail("VOLE: message " + std::to_string(i) + " of the sender depends on the receiver's delta");
      c.stat("vole_pairs");
    }
  }
  c.sig(c.desc);
}
// Replays a run with everything random changed except what a party sent in the
// clear: whatever stays the same can be recomputed from its messages.
static void c09_causes(Ctx &c, const std::string &m) {
  Env e = env_for(c);
  int64_t b = logrange(c.rng, 1, 1500);
  bool receiver = below(c.rng, 3) == 0;
  c.desc = type_str(m) + " VOLE in batches of " + std::to_string(b) + (receiver ? ", other receiver randomness" : ", other sender randomness");
  uint64_t coins = c.rng(), lseed = c.rng();
  auto &H = dvhook::store();
  int S = e.swap ? 1 : 0, who = receiver ? 1 - S : S;
  uint64_t label = uint64_t(who) + 1, drawn = 0;
  std::set<uint64_t> keep;
  struct Seen { Corr k; std::vector<dvhook::Expansion> x; } seen[2];
  u128 delta = TT<T>::uni(c.rng);
  for (int pass : {0, 1}) {
    rand_case(coins);
    if (pass) rand_perturb(label, keep);
    Pair p(c, e, lseed + uint64_t(pass));
    p.link()->record = pass == 0;
    (void)rand_log();
    rand_record(pass == 0);
    H.all.clear();
    H.on = true;
    std::unique_ptr<VOLE> o[2];
    p.create(o, "VOLE");
    seen[pass].k = do_vole(p, o, b, receiver ? nullptr : &delta, 2 * b);
    H.on = false;
    rand_record(false);
    if (!pass) {
      std::string sent;
      for (auto &f : p.link()->log) if (f.side == who) sent += f.bytes + '|';
      for (auto &d : rand_log()) if (d.label == label) { if (sent.find(d.bytes) != std::string::npos) keep.insert(drawn); drawn++; }
    }
    for (auto &x : H.all) if (x.side == 0) { std::sort(x.noise_pos.begin(), x.noise_pos.end()); seen[pass].x.push_back(std::move(x)); }
    H.all.clear();
  }
  rand_case(c.rng());
  double ls = TT<T>::log_size();
  std::string tail = " although everything random changed but what the " + std::string(receiver ? "receiver" : "sender") + " sent";
  if (receiver) {
    if (ls > 40) c.check(seen[0].k.delta != seen[1].k.delta, "delta is the same" + tail);
  } else {
    for (size_t i = 0; i < seen[0].x.size() && i < seen[1].x.size(); i++) {
      auto &x = seen[0].x[i], &y = seen[1].x[i];
      std::string at = " of expansion " + std::to_string(i) + " are the same" + tail;
      if (x.noise_pos.size() > 40) {
        c.check(x.noise_pos != y.noise_pos, "the noise positions" + at);
        std::set<u128> vx(x.noise_val.begin(), x.noise_val.end());
        size_t same = 0;
        for (u128 v : y.noise_val) same += vx.count(v);
        if (ls > 40) c.check(same < 8, "noise values" + at);
      }
      if (ls > 40 && x.seed_a.size() > 40 && x.seed_a.size() == y.seed_a.size()) {
        size_t u = 0, v = 0, mu = 0;
        for (size_t j = 0; j < x.seed_a.size(); j++) { u += x.seed_a[j] == y.seed_a[j]; v += x.seed_b[j] == y.seed_b[j]; }
        for (size_t j = 0; j < std::min(x.mpfss_a.size(), y.mpfss_a.size()); j++) mu += x.mpfss_a[j] == y.mpfss_a[j];
        c.check(u < 8 && v < 8 && mu < 8, "seed elements" + at);
      }
      c.stat("causes_checked");
    }
    if (ls > 40) {
      size_t u = 0, v = 0;
      for (size_t j = 0; j < seen[0].k.u.size(); j++) { u += seen[0].k.u[j] == seen[1].k.u[j]; v += seen[0].k.v[j] == seen[1].k.v[j]; }
      c.check(u < 8 && v < 8, "delivered elements are the same" + tail);
    }
  }
  c.stat("public_draws", keep.size());
  c.sig(c.desc);
}
static void c09(Ctx &c) {
  std::string m = pick_modulus(c);
  switch (c.id % 8) {
    case 0: case 1: c09_spfss(c, m, false); break;
    case 2: c09_spfss(c, m, true); break;
    case 3: case 4: c09_mpfss(c, m); break;
    case 5: case 6: c09_gilboa(c, m); break;
    default: if (c.id % 24 == 7) c09_causes(c, m); else c09_vole(c, m);
  }
  c.sample(c.desc);
}

// ---------------------------------------------------------------- C11
static double cot_distance(u128 m, int bits) {  // of reducing `bits` random bits modulo m
  if (m == 0) return bits >= 128 ? 0 : 1;
  double H = std::exp2(bits), M = double(m);
  u128 r;
  if (bits >= 128) r = (~u128(0) % m + 1) % m;
  else r = (u128(1) << bits) % m;
  return double(r) * double(m - r) / (H * M);
}
static void c11(Ctx &c) {
  std::string m;
  if (TT<T>::kNtl && below(c.rng, 3) == 0) {  // moduli next to what can just be hashed
    u128 q;
    int k = int(range(c.rng, 2, TT<T>::kNtl && std::is_same<T, NTL::zz_p>::value ? 58 : 127));
    q = (u128(1) << k) + (below(c.rng, 2) ? u128(0) - u128(1 + below(c.rng, uint64_t(1) << std::min(k - 1, 60))) : u128(below(c.rng, uint64_t(1) << std::min(k - 1, 60))));
    if (q < 2) q = 2;
    if constexpr (TT<T>::kNtl) TT<T>::use(q);
    m = "mod " + hex(q);
  } else m = TT<T>::setup(c.rng, true);
  Env e = env_for(c);
  Pair p(c, e, c.rng());
  p.link()->record = true;
  c.desc = type_str(m) + ", " + env_str(e);
  std::unique_ptr<vo::ScalarVectorGilboaProduct> o[2];
  p.create(o, "the product");
  FreshSet fs, fr, fm, fd;
  int many = long_history(c), runs = many ? many : int(range(c.rng, 2, 5));
  int nb = TT<T>::kNtl ? int(NTL::NumBytes(order() == 0 ? NTL::power2_ZZ(128) - 1 : mod().z - 1)) : (TT<T>::bits() + 7) / 8;
  if (nb == 0) nb = 1;
  int per = 16 / nb;
  for (int i = 0; i < runs; i++) {
    Product g = product_for(c, many ? 12 : c.thorough ? 600 : 80);
    if (below(c.rng, 3) == 0) g.x = 0;
    if (below(c.rng, 3) == 0) for (auto &y : g.y) y = 0;
    c.desc += "; " + std::to_string(g.y.size());
    if (giant(c) < 0) maybe_other_type(c, p, o, g);
    p.link()->clear_logs();
    Out2 out = do_gilboa(p, o, g, int(below(c.rng, 4)));
    if (g.y.empty()) continue;
    observe("the vector provider's share", out.s[0]);
    observe("the value provider's share", out.r[0]);
    fresh(c, fs, out.s[0], "the vector provider's share");
    fresh(c, fr, out.r[0], "the value provider's share");
    if (many) c.desc = type_str(m) + ", " + env_str(e) + ", run " + std::to_string(i) + " of a long history";
    for (auto &r : p.link()->ot_log) {
      c.check(r.sender == p.side(0), "the value provider acted as OT sender");
      if (r.correlated) {
        double d = TT<T>::kNtl ? cot_distance(order(), 8 * nb) * double(g.y.size()) : 0;
        c.check(d <= std::exp2(-e.ss) * (1 + 1e-9), "correlated OT output is reduced to the element type at a distance of 2^" + std::to_string(std::log2(d)) + " for " + std::to_string(g.y.size()) + " elements");
        c.stat("correlated_batches");
      } else c.stat("plain_batches");
      Vec1 masks, masked;
      Vec1 blocks;
      for (size_t k = 0; k < r.m0.size(); k++) {
        Blk b0 = blk(r.m0[k]), b1 = blk(r.m1[k]);
        blocks.push_back(b0);
        for (int z = 0; z < per; z++) {
          Blk msk = nb == 16 ? ~Blk(0) : (Blk(1) << (8 * nb)) - 1;
          u128 e0 = (b0 >> (8 * nb * z)) & msk, e1 = (b1 >> (8 * nb * z)) & msk;
          if (r.correlated) { if (order() != 0) { e0 %= order(); } }
          if (!reduced(e0) || !reduced(e1)) c.fail("an OT message holds a value outside of the element type's range");
          masks.push_back(e0); masked.push_back(e1);
        }
        c.stat("ot_messages");
      }
      // packed elements beyond the end of the vector are masks, too
      observe("OT masks", masks);
      fresh_steps(c, fd, masks, "OT masks", size_t(per));
      observe("masked OT messages", masked);
      double ent = TT<T>::log_size() * per;
      fresh(c, fm, blocks, "OT masks", std::min(ent, 128.0));
    }
    c.sig(type_str(m) + std::to_string(g.y.size()));
  }
  // a modulus that 128-bit leaves do not cover evenly is refused before anything is sent
  if (std::is_same<T, NTL::ZZ_p>::value) {
    for (int tries = 0; tries < 20; tries++) {
      u128 q = (u128(1) << range(c.rng, 90, 127)) + (rnd128(c.rng) >> range(c.rng, 2, 38));
      int64_t n = logrange(c.rng, 1, 3000);
      if constexpr (std::is_same<T, NTL::ZZ_p>::value) TT<T>::use(q);
      double d = cot_distance(q, 128) * double(n);
      if (!(d > std::exp2(-e.ss) * 2)) continue;
      Env e2 = env_for(c);
      e2.ss = e.ss;
      Pair p2(c, e2, c.rng());
      std::unique_ptr<vo::AllButOneRandomOT> a[2];
      p2.create(a, "all-but-one ROT");
      std::string st;
      int code = 0;
      uint64_t f0 = p2.link()->frames_sent(0) + p2.link()->frames_sent(1);
      std::string err = p2.try_party([&] {
        std::vector<T> buf(static_cast<size_t>(n));
        auto s = a[0]->RunSender(absl::MakeSpan(buf));
        code = int(s.code()); st = s.ToString();
      }, [] {});
      c.check(err.empty() && code == int(mpc_utils::StatusCode::kInvalidArgument), "all-but-one ROT of " + std::to_string(n) + " values mod " + hex(q) + " at distance 2^" + std::to_string(std::log2(d)) + " is not refused: " + st + err);
      c.check(p2.link()->residue() == 0 && p2.link()->frames_sent(0) + p2.link()->frames_sent(1) == f0, "a refused run still sent something");
      c.stat("refused_moduli");
      break;
    }
  }
  c.sample(c.desc);
}

// ---------------------------------------------------------------- C21, C25
struct Kit {  // all protocols on one channel, in one direction
  std::unique_ptr<vo::AllButOneRandomOT> a[2];
  std::unique_ptr<vo::SPFSSKnownIndex> s[2];
  std::unique_ptr<vo::MPFSSKnownIndices> m[2];
  std::unique_ptr<vo::ScalarVectorGilboaProduct> g[2];
  std::unique_ptr<VOLE> v[2];
  bool vole_ready = false;
};
template <typename P> static void flip(std::unique_ptr<P> (&x)[2]) { std::swap(x[0], x[1]); }
static std::string step(Ctx &c, Pair &p, Kit &k, int kind, bool small) {
  switch (kind) {
    case 0: { if (!k.a[0]) p.create(k.a, "all-but-one ROT"); Batch b = batch_for(c, small ? 200 : 1500, 6); maybe_other_type(c, p, k.a, b); do_abo(p, k.a, b, below(c.rng, 3) == 0); return "rot" + b.str(); }
    case 1: { if (!k.s[0]) p.create(k.s, "SPFSS"); Batch b = batch_for(c, small ? 200 : 1500, 6); maybe_other_type(c, p, k.s, b); do_spfss(p, k.s, b, int(below(c.rng, 3))); return "spfss" + b.str(); }
    case 2: { if (!k.m[0]) p.create(k.m, "MPFSS"); Multi m = multi_for(c, small ? 200 : 1500, 40); maybe_other_type(c, p, k.m, m); do_mpfss(p, k.m, m, int(below(c.rng, 4))); return "mpfss" + m.str(); }
    case 3: { if (!k.g[0]) p.create(k.g, "the product"); Product g = product_for(c, small ? 20 : 60); maybe_other_type(c, p, k.g, g); do_gilboa(p, k.g, g, int(below(c.rng, 4))); return "gilboa" + std::to_string(g.y.size()); }
    default: {
      if (!k.v[0]) p.create(k.v, "VOLE");
      int64_t pre = !k.vole_ready || below(c.rng, 3) == 0 ? logrange(c.rng, 1, small ? 300 : 2000) : 0;
      u128 d = TT<T>::rnd(c.rng);
      int64_t n = logrange(c.rng, 1, small ? 300 : 2500);
      if (pre && pre < 40) n = std::min(n, 4 * pre);
      else if (!pre) n = std::min<int64_t>(n, 40);
      do_vole(p, k.v, pre, below(c.rng, 2) ? &d : nullptr, n);
      k.vole_ready = true;
      return "vole" + std::to_string(pre) + "/" + std::to_string(n);
    }
  }
}
static void c25(Ctx &c) {
  std::string m = pick_modulus(c);
  Env e = env_for(c);
  Pair p(c, e, c.rng());
  p.link()->max_delay_us = unsigned(pick(c.rng, std::vector<int>{0, 0, 40, 300}));
  c.desc = type_str(m) + ", " + env_str(e) + ", delays up to " + std::to_string(p.link()->max_delay_us) + " us";
  Kit k[2];  // the second one with reversed roles
  int many = long_history(c), n = many ? many : int(range(c.rng, 2, 8));
  std::string shape;
  bool light = many || below(c.rng, 3) != 0;
  for (int i = 0; i < n; i++) {
    int dir = int(below(c.rng, 3)) == 0;
    int kind = int(below(c.rng, light ? 4 : 5));
    p.e.swap = e.swap != (dir == 1);
    // reversed operations run on objects of their own or on those of the other direction
    bool turn = dir == 1 && kind < 4 && below(c.rng, 2);
    auto flip_all = [&] { flip(k[0].a); flip(k[0].s); flip(k[0].m); flip(k[0].g); };
    if (turn) flip_all();
    std::string s = step(c, p, k[turn ? 0 : dir], kind, many > 0);
    if (turn) { flip_all(); c.stat("same_objects_reversed"); }
    shape += std::to_string(kind) + (turn ? "t" : dir ? "r" : "f");
    c.desc += "; " + s + (turn ? " reversed on the same objects" : dir ? " reversed" : "");
    c.stat("operations");
    if (dir) c.stat("reversed_operations");
  }
  c.stat(e.measured ? "measured_channels" : "direct_channels");
  if (p.link()->max_delay_us) c.stat("delayed_histories");
  c.stat("frames", p.link()->frames_sent(0) + p.link()->frames_sent(1));
  c.stat("ots", p.link()->ots());
  c.sig(shape + type_str(m) + env_str(e));
  c.sample(c.desc);
}
// Moduli change between runs on the same objects, and two pairs of parties work
// under different moduli at the same time.
static u128 current_modulus() {
  if constexpr (std::is_same<T, NTL::ZZ_p>::value) { NTL::ZZ z = NTL::ZZ_p::modulus(); return z == NTL::power2_ZZ(128) ? 0 : from_zz(z); }
  else if constexpr (std::is_same<T, NTL::zz_p>::value) return u128(NTL::zz_p::modulus());
  else return 0;
}
static void c21(Ctx &c) {
  std::string m = pick_modulus(c);
  Env e = env_for(c);
  Pair p(c, e, c.rng());
  c.desc = env_str(e);
  Kit k;
  int n = int(range(c.rng, 2, 6));
  for (int i = 0; i < n; i++) {
    if (i > 0 && below(c.rng, 3)) m = pick_modulus(c);
    p.ctx = Carry<T>();
    u128 here = current_modulus();
    bool ok_before = true;
    std::string s;
    int kind = int(below(c.rng, 5));
    if (i > 0) k.vole_ready = false;  // cached correlations belong to the old modulus
    s = step(c, p, k, kind, true);
    (void)ok_before;
    c.check(current_modulus() == here, "the harness thread's modulus changed");
    u128 after[2] = {0, 0};
    for (int t : {0, 1}) player(t)->start([&, t] { after[t] = current_modulus(); });
    for (int t : {0, 1}) player(t)->wait();
    for (u128 a : after) c.check(a == here, "after " + s + " a party's modulus is " + hex(a) + " instead of " + hex(here));
    c.desc += "; " + m + " " + s;
    c.stat("operations");
  }
  c.sig(c.desc);
  c.sample(c.desc);
}
// The two pairs of the concurrent case report through their own context.
struct Conc { std::unique_ptr<Worker> w[2]; };
static void c21_concurrent(Ctx &c) {
  // Each pair runs SPFSS and MPFSS repeatedly under its own modulus; results are
  // checked afterwards with that modulus in the reference arithmetic.
  static Worker *extra[4] = {new Worker(0), new Worker(1), new Worker(2), new Worker(3)};
  struct Job { std::string m; u128 q; Batch b; Product g; Out2 sp, gi; std::unique_ptr<mpc_utils::testing::CommChannelTestHelper> h; Carry<T> ctx; };
  Job j[2];
  uint64_t sub = c.rng();
  for (auto &x : j) {
    x.m = pick_modulus(c);
    x.q = mod().m;
    x.ctx = Carry<T>();
    x.b = batch_for(c, 1500, 8);
    x.g = product_for(c, 60);
    x.sp.s.resize(0);
    x.h.reset(new mpc_utils::testing::CommChannelTestHelper(below(c.rng, 2), c.rng()));
  }
  c.desc = "concurrently " + j[0].m + " " + j[0].b.str() + " and " + j[1].m + " " + j[1].b.str();
  int rounds = int(range(c.rng, 1, 3));
  std::string err[4];
  u128 after[4];
  for (int i = 0; i < 2; i++) j[i].h->link()->begin(0), j[i].h->link()->begin(1);
  for (int t = 0; t < 4; t++)
    extra[t]->start([&, t] {
      Job &x = j[t / 2];
      int role = t % 2;
      struct End { dvlink::Link *l; int s; ~End() { l->end(s); } } end{x.h->link(), role};
      x.ctx.restore();
      know_ntl();
      auto sp = vo::SPFSSKnownIndex::Create(x.h->GetChannel(role), 30);
      ok(sp.status());
      auto gi = vo::ScalarVectorGilboaProduct::Create(x.h->GetChannel(role), 30);
      ok(gi.status());
      Rng g(sub + uint64_t(t));
      for (int r = 0; r < rounds; r++) {
        std::vector<std::vector<T>> bufs;
        std::vector<absl::Span<T>> spans;
        for (int64_t n : x.b.sizes) bufs.emplace_back(size_t(n), TT<T>::make(1));
        for (auto &v : bufs) spans.push_back(absl::MakeSpan(v));
        std::vector<T> vs, y;
        auto conv = [](u128 v) { if constexpr (std::is_same<T, NTL::ZZ_p>::value) return NTL::conv<NTL::ZZ_p>(to_zz(v)); else if constexpr (std::is_same<T, NTL::zz_p>::value) return NTL::conv<NTL::zz_p>(long(v % u128(NTL::zz_p::modulus()))); else return TT<T>::make(v); };
        for (u128 v : role == 0 ? x.b.vs : x.b.vr) vs.push_back(conv(v));
        for (u128 v : x.g.y) y.push_back(conv(v));
        auto put = [](const std::vector<T> &v) { Vec1 o; for (auto &e : v) o.push_back(TT<T>::canon(e)); return o; };
        if (role == 0) {
          ok(sp.ValueOrDie()->RunValueProviderBatched<T>(absl::MakeConstSpan(vs), absl::MakeSpan(spans)));
          auto st = gi.ValueOrDie()->RunVectorProvider<T>(absl::MakeConstSpan(y));
          ok(st.status());
          x.sp.s.clear(); for (auto &v : bufs) x.sp.s.push_back(put(v));
          x.gi.s = {put(st.ValueOrDie())};
        } else {
          ok(sp.ValueOrDie()->RunIndexProviderBatched<T>(absl::MakeConstSpan(vs), absl::MakeConstSpan(x.b.idx), absl::MakeSpan(spans)));
          auto st = gi.ValueOrDie()->RunValueProvider(conv(x.g.x), int64_t(x.g.y.size()));
          ok(st.status());
          x.sp.r.clear(); for (auto &v : bufs) x.sp.r.push_back(put(v));
          x.gi.r = {put(st.ValueOrDie())};
        }
      }
      after[t] = current_modulus();
    });
  for (int t = 0; t < 4; t++) { err[t] = extra[t]->wait(); }
  for (int t = 0; t < 4; t++) c.check(err[t].empty(), "concurrent party " + std::to_string(t) + " failed: " + err[t]);
  for (int i = 0; i < 2; i++) {
    Job &x = j[i];
    if constexpr (TT<T>::kNtl) TT<T>::use(x.q);
    c.check(!TT<T>::kNtl || (after[2 * i] == x.q && after[2 * i + 1] == x.q), "a party's modulus changed during a concurrent run");
    for (size_t m = 0; m < x.b.sizes.size(); m++)
      for (int64_t q = 0; q < x.b.sizes[m]; q++) {
        u128 want = q == x.b.idx[m] ? TT<T>::add(x.b.vs[m], x.b.vr[m]) : 0;
        u128 s = x.sp.s[m][size_t(q)], r = x.sp.r[m][size_t(q)];
        c.check(reduced(s) && reduced(r) && TT<T>::add(s, r) == want, "concurrent SPFSS under " + x.m + " is wrong at position " + std::to_string(q));
      }
    MulBy<T> mul(x.g.x);
    for (size_t q = 0; q < x.g.y.size(); q++)
      c.check(TT<T>::add(x.gi.s[0][q], x.gi.r[0][q]) == mul(x.g.y[q]), "concurrent product under " + x.m + " is wrong at position " + std::to_string(q));
    c.stat("positions", x.sp.s.size());
  }
  c.stat("concurrent_pairs");
  c.sig(c.desc);
  c.sample(c.desc);
}
static void c21_any(Ctx &c) { if (c.id % 3 == 2) c21_concurrent(c); else c21(c); }

// ---------------------------------------------------------------- C22
// Several pairs of parties work at the same time, each in threads of its own and
// with nothing but the library in common.
struct Driver { Report rep; Mod mod; std::string desc; };
static void drive(Ctx &c, Driver &d, uint64_t seed, uint64_t id) {
  Ctx k(seed, id, d.rep, c.thorough);
  struct Keep { Ctx &k; Driver &d; ~Keep() { d.desc = k.desc; } } keep{k, d};
  know_ntl();
  std::string m = pick_modulus(k);
  Env e = env_for(k);
  Pair p(k, e, k.rng());
  k.desc = type_str(m) + ", " + env_str(e);
  Kit kit[2];
  int n = int(range(k.rng, 1, 4));
  for (int i = 0; i < n; i++) {
    int dir = below(k.rng, 3) == 0;
    p.e.swap = e.swap != (dir == 1);
    int kind = int(below(k.rng, 20));
    kind = kind == 19 ? 4 : kind % 4;
    k.desc += "; " + step(k, p, kit[dir], kind, below(k.rng, 3) != 0);
    k.stat("operations");
  }
  k.sig(k.desc);
}
static void c22(Ctx &c) {
  static Worker *drv[3] = {new Worker(100), new Worker(101), new Worker(102)};
  int n = int(range(c.rng, 1, 3));
  Driver d[3];
  uint64_t seed = c.rng();
  for (int i = 0; i < n; i++)
    drv[i]->start([&c, &d, i, seed] { driver_no() = i; thread_env() = &d[i].mod; drive(c, d[i], seed, uint64_t(i)); });
  std::string err;
  for (int i = 0; i < n; i++) { std::string e = drv[i]->wait(); if (err.empty()) err = e; }
  c.desc = std::to_string(n) + " pairs at once";
  for (int i = 0; i < n; i++) {
    for (auto &x : d[i].rep.stats) c.rep.stats[x.first] += x.second;
    for (auto x : d[i].rep.sigs) c.rep.sigs.insert(x);
  }
  c.check(err.empty(), err);
  c.sample(c.desc + ": " + d[0].desc);
  if (n > 1) c.stat("concurrent_cases");
}

int main(int argc, char **argv) {
  std::string p;
  for (int i = 1; i + 1 < argc; i++) if (std::string(argv[i]) == "--prop") p = argv[i + 1];
  longs() = p == "C05" || p == "C06" || p == "C07" || p == "C10" || p == "C11" || p == "C25";
  hops() = p == "C05" || p == "C06" || p == "C07" || p == "C10" || p == "C21" || p == "C25" || p == "mix";
  vary_teams() = hops() || p == "C11";
  giants() = p == "C05" || p == "C06" || p == "C07" || p == "C08" || p == "C10";
  if (p == "C05") return harness_main(argc, argv, c05);
  if (p == "C06") return harness_main(argc, argv, c06);
  if (p == "C07") return harness_main(argc, argv, c07, judge);
  if (p == "C08") return harness_main(argc, argv, c08);
  if (p == "C09") return harness_main(argc, argv, c09);
  if (p == "C10") return harness_main(argc, argv, c10);
  if (p == "C11") return harness_main(argc, argv, c11, judge);
  if (p == "C21") return harness_main(argc, argv, c21_any);
  if (p == "C22") return harness_main(argc, argv, c22);
  if (p == "C25") return harness_main(argc, argv, c25);
  // everything, for monitors that only watch the execution (C22, C23)
  if (p == "mix") return harness_main(argc, argv, [](Ctx &c) {
    static void (*const f[])(Ctx &) = {c05, c06, c10, c25, c07, c21_any, c11};
    size_t k = c.id % 7;
    if (k == 5 && !TT<T>::kNtl) k = 3;
    f[k](c);
    c.stat("runs");
  });
  return 3;
}
