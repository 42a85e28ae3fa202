// C12 (expansion) and C13 (puncturing) of GGM trees.
#include <omp.h>
#include "aesref.h"
#include "distributed_vector_ole/ggm_tree.h"
using namespace dv;
using Tree = distributed_vector_ole::GGMTree;
using Block = Tree::Block;

struct Shape { int arity; int64_t leaves; };
static Shape shape(Ctx &c) {
  static const int ar[] = {2, 2, 2, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 16, 17, 64, 100, 255, 256};
  Shape s;
  s.arity = below(c.rng, 5) == 0 ? int(range(c.rng, 2, 40)) : ar[below(c.rng, sizeof ar / sizeof *ar)];
  static const Shape large[] = {{2, (1 << 21) + 1}, {2, 1 << 20}, {3, 1594323 + 1}, {16, 65537}, {256, 65537}, {2, 65537}, {4, (1 << 20) + 3}, {1000, 70001}, {5, 390625}, {2, 99999}, {33000, 66001}, {70000, 70001}, {70001, 300}};
  if (c.id < sizeof large / sizeof *large && !c.small) { c.stat("large_trees"); return large[c.id]; }
  int64_t cap = c.thorough ? (below(c.rng, 30) == 0 ? 300000 : 20000) : (below(c.rng, 40) == 0 ? 40000 : 3000);
  switch (below(c.rng, 4)) {
    case 0: s.leaves = range(c.rng, 1, 40); break;
    case 1: {
      int64_t p = 1; int k = int(range(c.rng, 0, 17));
      while (k-- > 0 && p * s.arity <= cap) p *= s.arity;
      s.leaves = std::max<int64_t>(1, p * (below(c.rng, 2) ? 1 : range(c.rng, 1, s.arity)) + range(c.rng, -2, 2));
      break;
    }
    default: s.leaves = logrange(c.rng, 1, cap);
  }
  if (s.leaves > cap) s.leaves = cap;
  return s;
}
static u128 block(Rng &r) { return below(r, 10) == 0 ? u128(below(r, 3)) : rnd128(r); }

struct RefTree { std::vector<std::vector<u128>> lv; };
// The construction, on the level structure the tree reports.
static RefTree expand(u128 seed, const std::vector<u128> &keys, const std::vector<int64_t> &sizes) {
  std::vector<AesRef> k;
  for (auto x : keys) k.emplace_back(x);
  RefTree t;
  t.lv.resize(sizes.size());
  t.lv[0] = {seed};
  int64_t A = int64_t(keys.size());
  for (size_t l = 1; l < sizes.size(); l++) {
    t.lv[l].resize(size_t(sizes[l]));
    for (int64_t i = 0; i < sizes[l]; i++) t.lv[l][size_t(i)] = k[size_t(i % A)].prg(t.lv[l - 1][size_t(i / A)]);
  }
  return t;
}
static std::vector<int64_t> levels(Ctx &c, const Tree &t, Shape s) {
  c.check(t.arity() == s.arity, "arity() is wrong");
  c.check(t.num_leaves() == s.leaves, "num_leaves() is " + std::to_string(t.num_leaves()));
  int L = t.num_levels();
  c.check(L >= 1, "no levels");
  std::vector<int64_t> z(static_cast<size_t>(L));
  for (int i = 0; i < L; i++) z[size_t(i)] = t.level_size(i);
  c.check(z[0] == 1, "more than one root");
  c.check(z.back() == s.leaves, "wrong number of leaves on the last level");
  for (int i = L - 1; i > 0; i--) c.check(z[size_t(i - 1)] == (z[size_t(i)] + s.arity - 1) / s.arity, "level " + std::to_string(i - 1) + " has the wrong size");
  int min = 1;
  for (int64_t p = 1; p < s.leaves; p *= s.arity) min++;
  c.check(L <= min + 1, "needlessly many levels: " + std::to_string(L));
  return z;
}
static std::string where(int l, int64_t i) { return "level " + std::to_string(l) + " node " + std::to_string(i); }
static void teams(Ctx &c) { int t = int(pick(c.rng, std::vector<int>{1, 2, 3, 4, 7})); omp_set_num_threads(t); c.desc += ", " + std::to_string(t) + " threads"; }

static void c12(Ctx &c) {
  c.check(AesRef::self_test(), "monitor: reference AES is broken");
  Shape s = shape(c);
  c.desc = "arity " + std::to_string(s.arity) + ", " + std::to_string(s.leaves) + " leaves";
  std::string base = c.desc;
  teams(c);
  u128 seed = block(c.rng);
  std::vector<u128> keys(static_cast<size_t>(s.arity));
  for (auto &k : keys) k = block(c.rng);
  if (below(c.rng, 10) == 0) keys[size_t(s.arity) - 1] = keys[0];
  bool own = below(c.rng, 6) == 0;  // let the tree choose the keys
  std::vector<Block> kb;
  for (auto k : keys) kb.push_back(A(k));
  auto st = own ? Tree::Create(s.arity, s.leaves, A(seed)) : Tree::Create(s.leaves, A(seed), kb);
  c.check(st.ok(), "creating the tree failed: " + st.status().ToString());
  auto &t = *st.ValueOrDie();
  c.check(int(t.keys().size()) == s.arity && int(t.expanded_keys().size()) == s.arity, "wrong number of keys");
  for (int i = 0; i < s.arity; i++) {
    if (!own) c.check(U(t.keys()[size_t(i)]) == keys[size_t(i)], "keys() differs from the given keys");
    keys[size_t(i)] = U(t.keys()[size_t(i)]);
  }
  if (own) {
    std::set<std::string> d;
    for (auto k : keys) c.check(d.insert(hex(k)).second, "two random keys are equal");
    auto st2 = Tree::Create(s.arity, s.leaves, A(seed));
    c.check(st2.ok() && st2.ValueOrDie()->keys()[0] != t.keys()[0], "random keys repeat");
    c.stat("own_keys");
  }
  auto z = levels(c, t, s);
  RefTree ref = expand(seed, keys, z);
  for (size_t l = 0; l < z.size(); l++) {
    for (int64_t i = 0; i < z[l]; i++) {
      auto v = t.GetValueAtNode(int(l), i);
      c.check(v.ok() && U(v.ValueOrDie()) == ref.lv[l][size_t(i)], where(int(l), i) + " is not what the construction gives");
    }
    c.check(!t.GetValueAtNode(int(l), z[l]).ok() && !t.GetValueAtNode(int(l), -1).ok(), "a node outside the level was returned");
    c.stat("nodes", uint64_t(z[l]));
  }
  c.check(!t.GetValueAtNode(-1, 0).ok() && !t.GetValueAtNode(int(z.size()), 0).ok(), "a node on a level outside the tree was returned");
  for (int k = 0; k < 20; k++) {
    int64_t i = k == 0 ? 0 : k == 1 ? s.leaves - 1 : range(c.rng, 0, s.leaves - 1);
    auto v = t.GetValueAtLeaf(i);
    c.check(v.ok() && U(v.ValueOrDie()) == ref.lv.back()[size_t(i)], "GetValueAtLeaf(" + std::to_string(i) + ") is wrong");
  }
  c.check(!t.GetValueAtLeaf(s.leaves).ok() && !t.GetValueAtLeaf(-1).ok(), "a leaf outside the tree was returned");
  for (int rep = 0; rep < 2; rep++) {
    auto x = t.GetSiblingWiseXOR();
    c.check(x.size() + 1 == z.size(), "sibling-wise XOR has the wrong number of levels");
    for (size_t l = 0; l < x.size(); l++) {
      c.check(int(x[l].size()) == s.arity, "sibling-wise XOR has the wrong arity");
      std::vector<u128> want(size_t(s.arity), 0);
      for (size_t i = 0; i < ref.lv[l + 1].size(); i++) want[i % size_t(s.arity)] ^= ref.lv[l + 1][i];
      for (int j = 0; j < s.arity; j++) c.check(U(x[l][size_t(j)]) == want[size_t(j)], "sibling-wise XOR of level " + std::to_string(l + 1) + ", sibling " + std::to_string(j) + " is wrong");
      c.stat("xors", uint64_t(s.arity));
    }
  }
  c.stat("trees");
  if (s.leaves > 1) c.sig(base);
  c.sample(c.desc);
}

static void c13(Ctx &c) {
  c.check(AesRef::self_test(), "monitor: reference AES is broken");
  Shape s = shape(c);
  c.desc = "arity " + std::to_string(s.arity) + ", " + std::to_string(s.leaves) + " leaves";
  std::string base = c.desc;
  teams(c);
  u128 seed = rnd128(c.rng);
  std::vector<u128> keys(static_cast<size_t>(s.arity));
  for (auto &k : keys) k = rnd128(c.rng);
  std::vector<Block> kb;
  for (auto k : keys) kb.push_back(A(k));
  auto st = Tree::Create(s.leaves, A(seed), kb);
  c.check(st.ok(), "creating the tree failed");
  auto z = levels(c, *st.ValueOrDie(), s);
  RefTree ref = expand(seed, keys, z);
  std::vector<std::vector<u128>> full(z.size() - 1, std::vector<u128>(size_t(s.arity), 0));
  for (size_t l = 0; l + 1 < z.size(); l++)
    for (size_t i = 0; i < ref.lv[l + 1].size(); i++) full[l][i % size_t(s.arity)] ^= ref.lv[l + 1][i];
  std::vector<int64_t> missing;
  if (s.leaves <= 70) for (int64_t i = 0; i < s.leaves; i++) missing.push_back(i);
  else {
    missing = {0, s.leaves - 1, s.arity - 1, s.arity, s.leaves / 2};
    for (int k = 0; k < (s.leaves < 3000 ? 6 : 2); k++) missing.push_back(range(c.rng, 0, s.leaves - 1));
    // next to a full subtree
    int64_t p = 1;
    while (p * s.arity < s.leaves) p *= s.arity;
    missing.push_back(p - 1); missing.push_back(std::min(p, s.leaves - 1));
  }
  for (int64_t m : missing) {
    if (m < 0 || m >= s.leaves) continue;
    std::vector<int64_t> path(z.size());
    path.back() = m;
    for (size_t l = z.size() - 1; l > 0; l--) path[l - 1] = path[l] / s.arity;
    int fill = int(below(c.rng, 3));  // what the ignored entries contain
    std::vector<std::vector<Block>> x(z.size() - 1, std::vector<Block>(size_t(s.arity), 0));
    for (size_t l = 0; l < x.size(); l++)
      for (int j = 0; j < s.arity; j++) {
        bool on = path[l + 1] % s.arity == j;
        x[l][size_t(j)] = !on ? A(full[l][size_t(j)]) : fill == 0 ? Block(0) : fill == 1 ? A(rnd128(c.rng)) : A(full[l][size_t(j)]);
      }
    auto pt = Tree::CreateFromSiblingWiseXOR(s.arity, s.leaves, m, x, kb);
    c.check(pt.ok(), "reconstruction failed: " + pt.status().ToString());
    auto &t = *pt.ValueOrDie();
    auto z2 = levels(c, t, s);
    c.check(z2 == z, "the reconstructed tree has other dimensions");
    for (int i = 0; i < s.arity; i++) c.check(U(t.keys()[size_t(i)]) == keys[size_t(i)], "the reconstructed tree has other keys");
    for (size_t l = 0; l < z.size(); l++)
      for (int64_t i = 0; i < z[l]; i++) {
        auto v = t.GetValueAtNode(int(l), i);
        c.check(v.ok(), "node missing");
        bool same = U(v.ValueOrDie()) == ref.lv[l][size_t(i)];
        if (path[l] == i) c.check(!same, where(int(l), i) + " on the path to the missing leaf " + std::to_string(m) + " equals the original");
        else if (!same) c.fail(where(int(l), i) + " differs from the original although it is off the path to leaf " + std::to_string(m) + " (ignored entries: " + (fill == 0 ? "zero" : fill == 1 ? "random" : "original") + ")");
      }
    c.stat("nodes", uint64_t(s.leaves));
    c.stat("punctured_trees");
  }
  if (s.leaves > 1) c.sig(base);
  c.sample(c.desc);
}
int main(int argc, char **argv) {
  for (int i = 1; i + 1 < argc; i++) if (std::string(argv[i]) == "--prop" && std::string(argv[i + 1]) == "C13") return harness_main(argc, argv, c13);
  return harness_main(argc, argv, c12);
}
