// Monitors for the vector-OLE generator: --prop C01 | C02 | C03 | C04
#include "types.h"
#include "hist.h"
#include "dvole_verif_hooks.h"
#include "distributed_vector_ole/distributed_vector_ole.h"
#include "mpc_utils/testing/comm_channel_test_helper.hpp"

using namespace dv;
namespace vo = distributed_vector_ole;
using T = Scalar;
using VOLE = vo::DistributedVectorOLE<T>;
using Vec = vo::Vector<T>;

static u128 order() { return TT<T>::kNtl ? mod().m : TT<T>::bits() == 128 ? u128(0) : u128(1) << (TT<T>::bits() % 128); }

struct Op { bool pre; int64_t n; bool explicit_delta; u128 delta; };
struct OpTrace { uint64_t bytes[2], frames[2], ots; };

static std::vector<u128> canon(const Vec &v) {
  std::vector<u128> r(size_t(v.size()));
  for (int64_t i = 0; i < v.size(); i++) r[size_t(i)] = TT<T>::canon(v[i]);
  return r;
}

// One pair of generators connected by one link.
struct Session {
  Ctx &c;
  int sender;  // link side playing the sender
  mpc_utils::testing::CommChannelTestHelper h;
  Carry<T> ctx;
  std::unique_ptr<VOLE> s, r;
  bool have_delta = false;
  u128 delta = 0;
  bool other_have = false;  // the same for the direction not in use
  u128 other_delta = 0;
  uint64_t sub;
  std::vector<u128> u, v, w;  // result of the last run

  Session(Ctx &cc, bool measured, bool swap, int id0, int id1, uint64_t seed)
      : c(cc), sender(swap ? 1 : 0), h(measured, seed, id0, id1), sub(seed) {
    teams.draw(cc, seed);
    hopping = hops() && !cc.small && mix(seed, 0x406) % 4 == 0;
    if (hopping) cc.stat("thread_changing_cases");
  }
  Teams teams;
  bool hopping = false;  // every call on threads of its own choice
  void party(std::function<void()> fs, std::function<void()> fr, const char *what) {
    uint64_t k = ++sub;
    teams.apply();
    hop(hopping ? mix(k, 0x407) % 3 : 0);
    auto in = [this](std::function<void()> f) {
      return [this, f] { ctx.restore(); know_ntl(); f(); };
    };
    std::string e = run_roles(h.link(), sender == 1, in(fs), in(fr));
    if (!e.empty()) c.fail(std::string(what) + " failed: " + e);
  }
  static void ok(const mpc_utils::Status &st) { if (!st.ok()) throw std::runtime_error(st.ToString()); }
  void create(double ss) {
    auto mk = [&](int side, std::unique_ptr<VOLE> *o) {
      return [this, side, o, ss] {
        auto st = VOLE::Create(h.GetChannel(side), ss);
        ok(st.status());
        *o = std::move(st.ValueOrDie());
      };
    };
    party(mk(sender, &s), mk(1 - sender, &r), "creating the generators");
  }
  // from now on the two generators play each other's role
  void turn() {
    sender = 1 - sender;
    std::swap(s, r);
    std::swap(have_delta, other_have);
    std::swap(delta, other_delta);
  }
  OpTrace exec(const Op &op) {
    OpTrace a, b;
    auto snap = [&](OpTrace &t) { for (int i : {0, 1}) { t.bytes[i] = h.link()->bytes_sent(i); t.frames[i] = h.link()->frames_sent(i); } t.ots = h.link()->ots(); };
    snap(a);
    if (op.pre) {
      party([&] { ok(s->PrecomputeSender(op.n)); },
            [&] { ok(op.explicit_delta ? r->PrecomputeReceiver(op.n, TT<T>::make(op.delta)) : r->PrecomputeReceiver(op.n)); },
            "precomputation");
      have_delta = op.explicit_delta;
      delta = op.delta;
    } else {
      u128 d = 0;
      party([&] { auto st = s->RunSender(op.n); ok(st.status()); u = canon(st.ValueOrDie().u); v = canon(st.ValueOrDie().v); },
            [&] { auto st = r->RunReceiver(op.n); ok(st.status()); w = canon(st.ValueOrDie().w); d = TT<T>::canon(st.ValueOrDie().delta); },
            "run");
      c.check(int64_t(u.size()) == op.n && int64_t(v.size()) == op.n && int64_t(w.size()) == op.n,
              "wrong result length: u " + std::to_string(u.size()) + ", v " + std::to_string(v.size()) + ", w " + std::to_string(w.size()));
      if (have_delta) c.check(d == delta, "delta is " + hex(d) + ", expected " + hex(delta));
      have_delta = true;
      delta = d;
      u128 q = order();
      if (TT<T>::kNtl && q != 0) c.check(delta < q, "delta is not a reduced residue");
      MulBy<T> mul(delta);
      for (size_t i = 0; i < u.size(); i++) {
        if (TT<T>::add(mul(u[i]), v[i]) != w[i])
          c.fail("u*delta+v != w at position " + std::to_string(i) + " of " + std::to_string(op.n) + ": u=" + hex(u[i]) +
                 " v=" + hex(v[i]) + " w=" + hex(w[i]) + " delta=" + hex(delta));
        if (TT<T>::kNtl && q != 0) c.check(u[i] < q && v[i] < q && w[i] < q, "unreduced residue in the result");
      }
    }
    snap(b);
    for (int i : {0, 1}) { b.bytes[i] -= a.bytes[i]; b.frames[i] -= a.frames[i]; }
    b.ots -= a.ots;
    return b;
  }
  void finish() { c.check(h.link()->residue() == 0, "unread data left on the channel after both parties returned"); }
};

static std::string op_str(const Op &o) {
  return (o.pre ? (o.explicit_delta ? "Pre(" : "PreRandom(") : "Run(") + std::to_string(o.n) + ")";
}

struct Env { bool measured, swap; int id0, id1; double ss; };
static double &last_ss() { static double s = 40; return s; }
// batch sizes by parameter row: 0 -> no bootstrapping round, 1.. -> more
static int64_t batch_for(Rng &r, int level) {
  switch (level) {
    case 0: return logrange(r, 1, 2300);
    case 1: return range(r, 2450, 12000);
    case 2: return range(r, 13000, 55000);
    case 3: return range(r, 60000, 120000);
    default: return range(r, 577500, 640000);
  }
}
static int level_for(Ctx &c) {
  uint64_t x = below(c.rng, 100);
  bool light = std::is_same<T, uint64_t>::value || std::is_same<T, uint32_t>::value || std::is_same<T, absl::uint128>::value;
  if (c.thorough) return x < 50 ? 0 : x < 80 ? 1 : x < 94 ? 2 : (x < 98 || !light) ? 3 : 4;
  return x < 72 ? 0 : x < 96 ? 1 : 2;
}
static std::string pick_type(Ctx &c, bool large) {
  for (;;) {
    std::string s = TT<T>::setup(c.rng, true);
    // keep clear of moduli for which the documented uniformity precondition
    // cannot be met at this size
    if (!TT<T>::kNtl || leaf_ok(47, large ? 8e6 : 1.6e6, mod().m)) return s;
  }
}
// Batch sizes right where the next row of the table is needed (as far as one can
// tell from outside; nothing is concluded from it).
static int64_t batch_or_edge(Ctx &c, int level) {
  if (level > 2 || below(c.rng, 4) != 0) return batch_for(c.rng, level);
  static const int64_t n[] = {4096, 16384, 65536}, k[] = {1589, 3482, 7391}, t[] = {98, 198, 382};
  auto h = vo::CuckooHasher::Create(1, 3, last_ss() + std::log2(3) + 1);
  if (!h.ok()) return batch_for(c.rng, level);
  auto nb = h.ValueOrDie()->GetOptimalNumberOfBuckets(t[level]);
  if (!nb.ok()) return batch_for(c.rng, level);
  c.stat("row_edges");
  return n[level] - k[level] - nb.ValueOrDie() + range(c.rng, -1, 1);
}
static std::vector<Op> history(Ctx &c, int level, int max_ops) {
  std::vector<Op> h;
  int64_t b = 0;
  if (below(c.rng, 4) != 0) {
    b = batch_or_edge(c, level);
    h.push_back({true, b, below(c.rng, 3) != 0, TT<T>::rnd(c.rng)});
  }
  int n = int(range(c.rng, 1, max_ops));
  int64_t budget = level >= 4 ? b + 1000 : level >= 2 ? 200000 : 30000;
  for (int i = 0; i < n; i++) {
    if (i > 0 && below(c.rng, 6) == 0 && level < 3) {
      b = batch_or_edge(c, int(below(c.rng, uint64_t(level) + 1)));
      h.push_back({true, b, below(c.rng, 2) != 0, TT<T>::rnd(c.rng)});
      continue;
    }
    int64_t s;
    if (b == 0) { s = b = batch_or_edge(c, level); }
    else switch (below(c.rng, 8)) {
      case 0: s = 1; break;
      case 1: s = b; break;
      case 2: s = b + 1; break;
      case 3: s = std::max<int64_t>(1, b - 1); break;
      case 4: s = 2 * b + range(c.rng, -1, 1); break;
      case 5: s = 0; break;
      case 6: s = 3 * b + b / 2; break;
      default: s = logrange(c.rng, 1, b);
    }
    s = std::max<int64_t>(0, std::min(s, std::max<int64_t>(budget, b)));
    if (b < 40) s = std::min<int64_t>(s, 6 * b);  // each batch is a full protocol run
    h.push_back({false, s, false, 0});
    budget -= s;
    if (budget < 0) break;
  }
  return h;
}
// Some cases go through several hundred expansions or precomputations of one
// pair of generators.
static std::vector<Op> long_history(Ctx &c, bool restarts) {
  std::vector<Op> h;
  int64_t b = range(c.rng, 1, 3), n = range(c.rng, 260, 300);
  auto pre = [&] { h.push_back({true, b, !restarts && below(c.rng, 2), TT<T>::rnd(c.rng)}); };
  pre();
  for (int64_t i = 0; i < n; i++) {
    if (restarts && i) pre();
    h.push_back({false, restarts ? 1 : b, false, 0});
  }
  c.stat("long_histories");
  return h;
}
// Which of the two, if any: 1 expansions, 2 precomputations (for narrow types, where they are cheap).
static int longs(Ctx &c) {
  if (c.small || (c.id != 13 && c.id != 15)) return 0;
  return c.id == 13 ? 1 : !TT<T>::kNtl && TT<T>::bits() <= 32 ? 2 : 0;
}
static std::string hist_str(const std::vector<Op> &h) { std::string s; for (auto &o : h) { if (h.size() > 40 && s.size() > 60) return s + " ... " + std::to_string(h.size()) + " operations"; s += (s.empty() ? "" : " ") + op_str(o); } return s; }

static Env env_for(Ctx &c) {
  Env e;
  e.measured = below(c.rng, 2); e.swap = below(c.rng, 2);
  int a = int(range(c.rng, -3, 5)), b = a + int(range(c.rng, 1, 4));
  bool f = below(c.rng, 2);
  e.id0 = f ? a : b; e.id1 = f ? b : a;
  e.ss = pick(c.rng, std::vector<double>{40, 40, 40, 35, 30, 45.5});
  last_ss() = e.ss;
  return e;
}
static std::string env_str(const Env &e) {
  return std::string(e.measured ? "measured" : "direct") + (e.swap ? ", sender is party 1" : ", sender is party 0") +
         ", ids " + std::to_string(e.id0) + "/" + std::to_string(e.id1) + ", security " + std::to_string(e.ss).substr(0, 4);
}

// ---------------------------------------------------------------- C01
// One pair of generators that serves both directions in turn, each with its own precomputations and delta.
static void c01_both(Ctx &c) {
  int level = below(c.rng, 4) == 0 ? 1 : 0;
  bool mixed = c.id == 22 && !c.small;  // a known finding of C01
  std::string m = pick_type(c, false);
  Env e = env_for(c);
  Session s(c, e.measured, e.swap, e.id0, e.id1, c.rng());
  s.create(e.ss);
  c.desc = std::string(TT<T>::name()) + (m.empty() ? "" : " " + m) + ", " + env_str(e) + (mixed ? ", both directions, different rows:" : ", both directions:");
  int64_t b = batch_for(c.rng, level), budget = 20000;
  bool started[2] = {false, false};
  int dir = 0, n = int(range(c.rng, 4, 9)), turns = 0;
  for (int i = 0; i < n && budget > 0; i++) {
    if (i > 0 && below(c.rng, 2)) { s.turn(); dir ^= 1; turns++; c.desc += " turn"; }
    Op o{false, 0, false, 0};
    if (mixed && i < 2) {
      // the second direction is set up for another row of the parameter table
      if (i == 1 && dir == 0) { s.turn(); dir = 1; turns++; c.desc += " turn"; }
      b = batch_for(c.rng, i);
      o = {true, b, below(c.rng, 2) != 0, TT<T>::rnd(c.rng)};
    } else if (below(c.rng, 4) == 0 || (!started[dir] && below(c.rng, 2))) {
      if (below(c.rng, 3) == 0) b = batch_for(c.rng, level);
      o = {true, b, below(c.rng, 2) != 0, TT<T>::rnd(c.rng)};
    } else if (!started[dir]) {
      o.n = b;
    } else {
      o.n = pick(c.rng, std::vector<int64_t>{0, 1, b, b + 1, 2 * b, logrange(c.rng, 1, b)});
      if (b < 40) o.n = std::min(o.n, 3 * b);
    }
    started[dir] = true;
    c.desc += " " + op_str(o);
    s.exec(o);
    c.stat("ops");
    if (!o.pre) { c.stat("correlations_checked", uint64_t(o.n)); budget -= o.n; }
  }
  s.finish();
  c.stat("turns", uint64_t(turns));
  c.sig(c.desc);
}
static void c01(Ctx &c) {
  if (c.id % 8 == 6) return c01_both(c);
  int level = level_for(c);
  if (c.id < 5 && !(TT<T>::kNtl && c.id == 4)) level = int(c.id == 4 ? (std::is_same<T, uint64_t>::value ? 4 : 3) : c.id);
  if (std::is_same<T, NTL::ZZ_p>::value && !c.thorough && level > 2) level = 2;
  std::string m = pick_type(c, level >= 3);
  Env e = env_for(c);
  int lg = longs(c);
  if (lg) level = 0;
  auto h = lg ? long_history(c, lg == 2) : history(c, level, level >= 3 ? 3 : 7);
  c.desc = std::string(TT<T>::name()) + (m.empty() ? "" : " " + m) + ", " + env_str(e) + ": " + hist_str(h);
  Session s(c, e.measured, e.swap, e.id0, e.id1, c.rng());
  s.create(e.ss);
  int runs = 0;
  for (auto &o : h) {
    auto t = s.exec(o);
    c.stat("ops");
    c.stat("ots", t.ots);
    if (!o.pre) {
      runs++;
      c.stat("correlations_checked", uint64_t(o.n));
      if (t.ots) c.stat("runs_with_expansion"); else c.stat("runs_from_cache");
      if (o.n == 0) c.stat("empty_runs");
    }
  }
  s.finish();
  c.stat("level" + std::to_string(level));
  if (runs > 0) c.sig(c.desc);
  c.sample(c.desc);
}

// ---------------------------------------------------------------- C02
struct Agg { Hist u, v, w, noise, pos, rows, vals, sdelta; Bits bu, bv, bw; };
static Agg &agg() { static Agg a; return a; }
static void freshness(Ctx &c, FreshSet &f, const std::vector<u128> &x, const char *what) {
  double bits = TT<T>::log_size();
  int L = bits >= 96 ? 1 : int(std::ceil(96 / bits));
  if (int64_t(x.size()) < L) return;
  for (size_t i = 0; i + size_t(L) <= x.size(); i++)
    if (!f.s_.insert(L == 1 ? x[i] : hash_window(&x[i], L)).second)
      c.fail(std::string(what) + ": " + std::to_string(L) + " consecutive value(s) at position " + std::to_string(i) + " were handed out or used before");
  c.stat("windows", x.size() - size_t(L) + 1);
}
static void steps(Ctx &c, FreshSet &f, const std::vector<u128> &x, const char *what) {
  std::vector<u128> d;
  for (size_t i = 1; i < x.size(); i++) d.push_back(TT<T>::add(x[i], TT<T>::neg(x[i - 1])));
  freshness(c, f, d, what);
}
static void c02(Ctx &c) {
  int level = int(below(c.rng, 10)) < 8 ? 0 : 1;
  if (c.thorough && below(c.rng, 12) == 0) level = 2;
  std::string m = pick_type(c, level >= 2);
  FreshSet fs, fw;  // sender-side values; receiver-side values
  FreshSet ds, dw;  // differences of neighbours
  auto &H = dvhook::store();
  u128 q = order();
  std::vector<u128> deltas;
  FreshSet dd;
  c.desc = std::string(TT<T>::name()) + " " + m;
  int lg = longs(c);
  if (lg) level = 0;
  for (int inst = 0; inst < 2; inst++) {
    Env e = env_for(c);
    auto h = lg && !inst ? long_history(c, lg == 2) : history(c, level, 6);
    c.desc += (inst ? " || " : " ") + env_str(e) + ": " + hist_str(h);
    Session s(c, e.measured, e.swap, e.id0, e.id1, c.rng());
    s.create(e.ss);
    bool fresh_delta = true;
    std::vector<u128> drawn;  // for narrow types only sequences tell
    for (auto &o : h) {
      H.all.clear();
      H.on = true;
      s.exec(o);
      H.on = false;
      // seeds consumed by the expansions of this operation
      for (auto &x : H.all) {
        if (x.side == 0) {
          freshness(c, fs, x.seed_a, "sender expansion seed u"); freshness(c, fs, x.seed_b, "sender expansion seed v");
          freshness(c, fs, x.mpfss_a, "sender noise-sharing seed u"); freshness(c, fs, x.mpfss_b, "sender noise-sharing seed v");
          c.stat("expansions");
        } else {
          freshness(c, fw, x.seed_a, "receiver expansion seed"); freshness(c, fw, x.mpfss_a, "receiver noise-sharing seed");
        }
      }
      if (o.pre) {
        fresh_delta = !o.explicit_delta;
        if (o.explicit_delta) deltas.push_back(o.delta);
        continue;
      }
      freshness(c, fs, s.u, "u"); freshness(c, fs, s.v, "v"); freshness(c, fw, s.w, "w");
      steps(c, ds, s.u, "steps of u"); steps(c, ds, s.v, "steps of v"); steps(c, dw, s.w, "steps of w");
      agg().u.add_all(s.u, q); agg().v.add_all(s.v, q); agg().w.add_all(s.w, q);
      if (!TT<T>::kNtl || (q & (q - 1)) == 0) {
        int nb = TT<T>::bits();
        agg().bu.add_all(s.u, nb); agg().bv.add_all(s.v, nb); agg().bw.add_all(s.w, nb);
      }
      if (fresh_delta) {
        for (auto d : deltas) if (TT<T>::log_size() >= 62 && d == s.delta) c.fail("a randomly generated delta repeats: " + hex(d));
        deltas.push_back(s.delta);
        drawn.push_back(s.delta);
        agg().sdelta.add_all({s.delta}, q);
        fresh_delta = false;
        c.stat("random_deltas");
      }
      c.stat("elements", s.u.size());
    }
    freshness(c, dd, drawn, "randomly generated deltas");
    s.finish();
  }
  c.sig(c.desc);
  c.sample(c.desc);
}
static void c02_end(Report &r) {
  struct { const char *n; Hist &h; } hs[] = {{"u", agg().u}, {"v", agg().v}, {"w", agg().w}, {"delta", agg().sdelta}};
  for (auto &x : hs) if (x.h.z() > kZ) throw Violation(std::string("delivered ") + x.n + " is not uniform: z=" + std::to_string(x.h.z()));
  struct { const char *n; Bits &b; } bs[] = {{"u", agg().bu}, {"v", agg().bv}, {"w", agg().bw}};
  for (auto &x : bs) { int bit = 0; double z = x.b.z(&bit); if (z > kZ) throw Violation(std::string("bit ") + std::to_string(bit) + " of delivered " + x.n + " is biased: z=" + std::to_string(z)); }
  r.stats["uniformity_samples"] = uint64_t(agg().u.n);
}

// ---------------------------------------------------------------- C03
// Published parameter table (output size, seed length, noise weight).
struct Row { int64_t n, k, t; };
static const Row kTable[] = {{4096, 1589, 98}, {16384, 3482, 198}, {65536, 7391, 382}, {616092, 37248, 1254}, {10616092, 588160, 1324}};
static double gauss_bits(double n, double k, double t) { return 2.8 * std::log2(k) - k * std::log2(1 - t / n); }
// The noise positions have to change when the sender's randomness does, even if
// everything that it sent in the clear and all of the receiver's stays.
static void c03_causes(Ctx &c, const Env &e) {
  auto &H = dvhook::store();
  int64_t b = logrange(c.rng, 1, 1500);
  uint64_t coins = c.rng(), links = c.rng();
  std::vector<Op> h{{true, b, true, TT<T>::rnd(c.rng)}, {false, b, false, 0}, {false, b, false, 0}};
  std::vector<std::vector<int64_t>> pos[2];
  std::set<uint64_t> keep;
  uint64_t me = e.swap ? 2 : 1, drawn = 0;
  for (int pass : {0, 1}) {
    rand_case(coins);
    if (pass == 1) rand_perturb(me, keep);
    Session s(c, e.measured, e.swap, e.id0, e.id1, links + uint64_t(pass));  // also other OT randomness
    s.teams = Teams();
    s.h.link()->record = pass == 0;
    s.h.link()->clear_logs();
    (void)rand_log();
    rand_record(pass == 0);
    H.all.clear();
    H.on = true;
    s.create(e.ss);
    for (auto &o : h) s.exec(o);
    H.on = false;
    rand_record(false);
    if (pass == 0) {
      std::string sent;
      for (auto &f : s.h.link()->log) if (f.side == s.sender) sent += f.bytes + '|';
      for (auto &d : rand_log()) if (d.label == me) { if (sent.find(d.bytes) != std::string::npos) keep.insert(drawn); drawn++; }
    }
    for (auto &x : H.all) if (x.side == 0) { pos[pass].emplace_back(x.noise_pos.begin(), x.noise_pos.end()); std::sort(pos[pass].back().begin(), pos[pass].back().end()); }
    H.all.clear();
  }
  rand_case(c.rng());
  for (size_t i = 0; i < pos[0].size() && i < pos[1].size(); i++)
    if (pos[0][i].size() > 40)
      c.check(pos[0][i] != pos[1][i], "the noise positions of expansion " + std::to_string(i) + " after " + op_str(h[0]) + " are the same although all of the sender's secret randomness changed (" + std::to_string(drawn) + " draws, " + std::to_string(keep.size()) + " of them sent)");
  c.stat("causes_checked");
  c.stat("public_draws", keep.size());
}
static void c03(Ctx &c) {
  int level = level_for(c);
  if (c.id < 3) level = int(c.id);
  if (c.id == 3) level = std::is_same<T, uint64_t>::value ? 4 : 2;
  std::string m = pick_type(c, level >= 3);
  Env e = env_for(c);
  int lg = longs(c);
  if (lg) level = 0;
  auto h = lg ? long_history(c, lg == 2) : history(c, level, level >= 3 ? 2 : 5);
  c.desc = std::string(TT<T>::name()) + " " + m + ", " + env_str(e) + ": " + hist_str(h);
  auto &H = dvhook::store();
  H.all.clear();
  Session s(c, e.measured, e.swap, e.id0, e.id1, c.rng());
  s.create(e.ss);
  u128 q = order();
  double Q = q == 0 ? std::exp2(128) : double(q);
  std::set<uint64_t> old_matrices;
  std::map<uint64_t, int> born;  // precomputation after which a generator was first used
  int epoch = 0;
  std::set<std::string> old_noise;
  for (auto &o : h) {
    H.on = true;
    s.h.link()->clear_logs();
    s.h.link()->record = level < 3;
    (void)rand_log();
    rand_record(true);
    if (o.pre) epoch++;
    s.exec(o);
    rand_record(false);
    s.h.link()->record = false;
    H.on = false;
    auto draws = rand_log();
    std::vector<dvhook::Expansion> S, R;
    for (auto &x : H.all) (x.side == 0 ? S : R).push_back(std::move(x));
    H.all.clear();
    c.check(S.size() == R.size(), "the parties performed different numbers of expansions");
    if (level < 3 && !S.empty()) {
      // randomness of the sender that the receiver does not see: besides the
      // noise values there have to be 128 fresh bits for the positions
      std::string sent;
      for (auto &f : s.h.link()->log) if (f.side == s.sender) sent += f.bytes + '|';
      uint64_t hidden = 0, values = 0;
      for (auto &d : draws) if (d.label == uint64_t(s.sender) + 1 && sent.find(d.bytes) == std::string::npos) hidden += d.bytes.size();
      if (!TT<T>::kNtl) for (auto &x : S) values += x.noise_pos.size() * sizeof(T);
      if (o.pre && !TT<T>::kNtl && !S.empty()) values += 2 * sizeof(T) * uint64_t(S[0].seed_len);
      if (hidden >= values)
        c.check(hidden - values >= 16 * S.size(), "the noise positions of " + std::to_string(S.size()) + " expansion(s) come from " + std::to_string(hidden - values) + " secret random bytes");
      c.stat("entropy_checked");
    }
    uint64_t last = 0;
    for (size_t i = 0; i < S.size(); i++) {
      auto &a = S[i]; auto &b = R[i];
      c.check(a.matrix_hash == b.matrix_hash && a.rows == b.rows && a.cols == b.cols, "the parties expand with different code generators");
      std::string at = "expansion of " + std::to_string(a.seed_len) + " seeds to " + std::to_string(a.cols) + " elements with " + std::to_string(a.noise_pos.size()) + " noise positions: ";
      const Row *row = nullptr;
      for (auto &t : kTable) if (a.seed_len <= t.k || t.n == 10616092) { row = &t; break; }
      c.check(a.seed_len >= row->k && a.rows == a.seed_len, at + "not a certified seed length");
      c.check(a.cols <= row->n, at + "longer than certified for this seed length");
      double need = double(row->t);
      double min_nz = need * (1 - 1 / Q) - 8 * std::sqrt(need / Q * (1 - 1 / Q)) - (Q < 1e18 ? 1 : 0);
      if (Q > 1e9) min_nz = need - (Q < 1e18 ? 1 : 0);
      c.check(double(a.noise_pos.size()) >= min_nz, at + "fewer than the certified " + std::to_string(row->t));
      if (Q > 1e18) c.check(gauss_bits(double(a.cols), double(a.rows), double(a.noise_pos.size())) >= 80, at + "below 80 bits against Gaussian elimination");
      // ten random non-zeros per column (collisions overwrite)
      double cols = double(a.cols), lo = cols * (10 - 45.0 / double(a.rows)) - 8 * std::sqrt(cols * 45.0 / double(a.rows)) - 5;
      c.check(double(a.nnz) >= lo && a.max_col <= 10 && a.min_col >= 5, at + "column weights are not the certified 10: " + std::to_string(a.nnz) + " entries, per column " + std::to_string(a.min_col) + ".." + std::to_string(a.max_col));
      std::vector<u128> pos(a.noise_pos.begin(), a.noise_pos.end());
      agg().pos.add_all(pos, u128(a.cols));
      if (Q > 1e9) agg().noise.add_all(a.noise_val, q);
      std::string key((const char *)a.noise_pos.data(), a.noise_pos.size() * 8);
      if (a.noise_pos.size() > 40) c.check(old_noise.insert(key).second, at + "noise positions repeat");
      c.check(born.insert({a.matrix_hash, epoch}).first->second == epoch, at + "the code generator is that of an earlier precomputation");
      if (i > 0 && a.matrix_hash != last) c.check(!old_matrices.count(a.matrix_hash), at + "an old code generator came back");
      if (old_matrices.insert(last = a.matrix_hash).second) {  // a generator may be kept for several expansions
        agg().rows.add_counts(a.row_hist, u128(a.rows));
        agg().vals.add_counts(a.val_hist, q);
        c.stat("matrices");
      }
      c.stat("expansions");
      c.stat("noise_positions", a.noise_pos.size());
      c.stat("matrix_entries", uint64_t(a.nnz));
      c.sig(at + m + (e.id0 > e.id1 ? "x" : "y"));
    }
  }
  if (level == 0 && below(c.rng, 2) == 0) c03_causes(c, e);
  c.stat("level" + std::to_string(level));
  c.sample(c.desc);
}
static void c03_end(Report &r) {
  struct { const char *n; Hist &h; } hs[] = {{"noise positions", agg().pos}, {"noise values", agg().noise}, {"code generator rows", agg().rows}, {"code generator entries", agg().vals}};
  for (auto &x : hs) if (x.h.z() > kZ) throw Violation(std::string(x.n) + " are not uniform: z=" + std::to_string(x.h.z()));
  for (auto &t : kTable) if (gauss_bits(double(t.n), double(t.k), double(t.t)) < 80) throw Violation("table row below 80 bits");
  r.stats["uniformity_samples"] = uint64_t(agg().pos.n);
}

// ---------------------------------------------------------------- C04
static void c04(Ctx &c) {
  int level = c.id < 3 ? int(c.id) : level_for(c);
  if (level > 3) level = 3;
  if (std::is_same<T, NTL::ZZ_p>::value && level > 2) level = 2;
  std::string m = pick_type(c, level >= 3);
  Env e = env_for(c);
  int64_t b = batch_for(c.rng, level);
  // public structure: one batch size, many requests
  std::vector<Op> h{{true, b, true, 0}};
  int n = int(range(c.rng, 3, 9));
  int64_t total = 0;
  bool spanning = level < 3 && below(c.rng, 3) == 0;  // requests of several batches
  int64_t budget = level >= 2 ? 200000 : 40000;
  for (int i = 0; i < n; i++) {
    int64_t s = spanning && b < budget && below(c.rng, 2) ? b * range(c.rng, 1, std::max<int64_t>(1, std::min<int64_t>(6, budget / b))) + range(c.rng, 0, 1) * below(c.rng, uint64_t(b))
                : below(c.rng, 8) == 0 ? 0 : below(c.rng, 4) == 0 ? logrange(c.rng, 1, b) : std::max<int64_t>(1, b / range(c.rng, 2, 9) + range(c.rng, -1, 1));
    h.push_back({false, s, false, 0});
    total += s;
  }
  c.desc = std::string(TT<T>::name()) + " " + m + ", " + env_str(e) + ": " + hist_str(h);
  std::vector<OpTrace> tr[2];
  uint64_t comm_ops = 0;
  for (int rep = 0; rep < 2; rep++) {
    Session s(c, e.measured, e.swap, e.id0, e.id1, c.rng());
    s.create(e.ss);
    [[maybe_unused]] int64_t served = 0;
#ifdef DVOLE_VERIF_HOOKS
    auto &H = dvhook::store();
    H.count_only = H.on = true;
#endif
    for (auto o : h) {
      o.delta = TT<T>::rnd(c.rng);
      if (rep == 0 && c.id % 3 == 0) o.delta = c.id % 2 ? 0 : TT<T>::neg(1);  // values an implementation may treat specially
#ifdef DVOLE_VERIF_HOOKS
      if (o.pre) H.counts[0] = H.counts[1] = 0;
#endif
      tr[rep].push_back(s.exec(o));
#ifdef DVOLE_VERIF_HOOKS
      if (o.pre) { H.counts[0] = H.counts[1] = 0; continue; }
      served += o.n;
      uint64_t most = uint64_t((served + b - 1) / b);
      for (int k : {0, 1})
        c.check(H.counts[k] <= most, std::string(k ? "receiver" : "sender") + " performed " + std::to_string(H.counts[k]) + " expansions to serve " + std::to_string(served) +
                " correlations, but " + std::to_string(most) + " batches of " + std::to_string(b) + " are enough");
      c.stat("expansion_budgets_checked");
#endif
      if (!o.pre && o.n > b) c.stat("multi_batch_requests");
    }
#ifdef DVOLE_VERIF_HOOKS
    c.stat("expansions", H.counts[0]);
    H.count_only = H.on = false;
#endif
  }
  const Row *row = nullptr;
  for (auto &t : kTable) if (b + t.k + 3 * t.t <= t.n) { row = &t; break; }
  if (!row) row = &kTable[4];
  size_t elt = TT<T>::kNtl ? size_t(TT<T>::bits() + 7) / 8 + 9 : sizeof(T);
  for (size_t i = 0; i < h.size(); i++) {
    auto &x = tr[0][i], &y = tr[1][i];
    for (int k : {0, 1}) c.check(x.frames[k] == y.frames[k], "number of messages of " + op_str(h[i]) + " depends on more than public parameters");
    // which hash buckets a position falls into depends on public coins, so OT
    // counts may differ slightly between runs, but only within those coins
    double d = std::fabs(double(x.ots) - double(y.ots));
    c.check(d <= 0.2 * double(x.ots + y.ots) + 64, "number of OTs of " + op_str(h[i]) + " varies: " + std::to_string(x.ots) + " vs " + std::to_string(y.ots));
    if (h[i].pre) {
      c.stat("precompute_ots", x.ots);
      continue;
    }
    bool comm = x.frames[0] + x.frames[1] + x.ots > 0;
    if (comm) {
      comm_ops++;
      double e_min = std::ceil(double(h[i].n) / double(b)) ;
      double bound = e_min * 4.0 * double(row->t) * std::log2(double(b + row->k + 3 * row->t) + 2);
      c.check(double(x.ots) <= bound, "an expansion used " + std::to_string(x.ots) + " OTs, more than t*log(n) allows (" + std::to_string(bound) + ")");
      double bytes = double(x.bytes[0] + x.bytes[1]) - 48.0 * double(x.ots);
      c.check(bytes <= e_min * (8.0 * double(row->t) * double(elt) + 4096), "an expansion sent " + std::to_string(bytes) + " bytes besides OTs, not O(t)");
      if (level >= 3 && elt >= 8 && e_min == 1)
        c.check(double(x.bytes[0] + x.bytes[1]) < 0.9 * double(b) * double(elt) * 2, "an expansion communicates as much as the correlations themselves");
      c.stat("communicating_requests");
    } else c.stat("silent_requests");
    c.stat("requests");
  }
  uint64_t allowed = uint64_t((total + b - 1) / b);
  c.check(comm_ops <= allowed, std::to_string(comm_ops) + " requests communicated, but " + std::to_string(allowed) + " batches of " + std::to_string(b) + " cover all " + std::to_string(total) + " elements");
  // the set-up does not depend on the batch size within one parameter row
  if (below(c.rng, 2)) {
    int64_t b2 = b;
    for (int i = 0; i < 20 && b2 == b; i++) {
      int64_t x = batch_for(c.rng, level);
      const Row *r2 = nullptr;
      for (auto &t : kTable) if (x + t.k + 3 * t.t <= t.n) { r2 = &t; break; }
      if (r2 == row) b2 = x;
    }
    Session s(c, e.measured, e.swap, e.id0, e.id1, c.rng());
    s.create(e.ss);
    auto t = s.exec({true, b2, true, 1});
    double x = double(t.bytes[0] + t.bytes[1]), y = double(tr[0][0].bytes[0] + tr[0][0].bytes[1]);
    c.check(x <= 1.25 * y + 8192 && y <= 1.25 * x + 8192, "set-up traffic grows with the batch size: " + std::to_string(uint64_t(y)) + " bytes for " + std::to_string(b) + ", " + std::to_string(uint64_t(x)) + " for " + std::to_string(b2));
    c.stat("setup_comparisons");
  }
  c.stat("level" + std::to_string(level));
  c.sig(c.desc);
  c.sample(c.desc);
}

int main(int argc, char **argv) {
  std::string p = "C01";
  for (int i = 1; i + 1 < argc; i++) if (std::string(argv[i]) == "--prop") p = argv[i + 1];
  vary_teams() = true;
  if (p == "C02") return harness_main(argc, argv, c02, c02_end);
  if (p == "C03") return harness_main(argc, argv, c03, c03_end);
  if (p == "C04") return harness_main(argc, argv, c04);
  hops() = true;
  return harness_main(argc, argv, c01);
}
