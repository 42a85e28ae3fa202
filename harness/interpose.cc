// RAND_bytes tap: deterministic per (case, thread label), optionally recorded.
#include <atomic>
#include <mutex>
#include "common.h"
#include "minigomp.h"
namespace dv {
namespace {
std::atomic<uint64_t> g_seed{1}, g_epoch{1}, g_next{1000}, g_calls{0};
std::atomic<bool> g_rec{false};
std::mutex g_mu;
std::vector<RandCall> g_log;
uint64_t g_flip = 0;
std::set<uint64_t> g_keep;
struct Local { uint64_t label = 0, epoch = 0, ordinal = 0; bool labelled = false; Rng rng{1}; };
thread_local Local tl;
}  // namespace
void rand_case(uint64_t seed) { g_seed = seed; g_flip = 0; g_epoch++; g_rec = false; std::lock_guard<std::mutex> l(g_mu); g_log.clear(); }
void rand_label(uint64_t label) { tl.label = label; tl.labelled = true; tl.epoch = 0; }
void rand_perturb(uint64_t label, std::set<uint64_t> keep) { g_keep = std::move(keep); g_flip = label; }
void rand_record(bool on) { g_rec = on; }
std::vector<RandCall> rand_log() { std::lock_guard<std::mutex> l(g_mu); return std::move(g_log); }
uint64_t rand_calls() { return g_calls; }
}  // namespace dv
// The next value of the calling thread's stream.
static dv::Rng &stream() {
  using namespace dv;
  if (!tl.labelled) { tl.label = g_next.fetch_add(1, std::memory_order_relaxed); tl.labelled = true; }
  uint64_t e = g_epoch.load();
  if (tl.epoch != e) { tl.epoch = e; tl.ordinal = 0; tl.rng = Rng(mix(g_seed.load(), tl.label)); }
  return tl.rng;
}
// With minigomp: what a region draws depends on the iteration, not on the thread.
extern "C" uint64_t dv_fork_key() {
  uint64_t k, i, n;
  if (minigomp_key && minigomp_key(&k, &i, &n)) return dv::mix(dv::mix(k, i), n);
  return stream()();
}
extern "C" int RAND_bytes(uint8_t *buf, size_t len) {
  using namespace dv;
  // (relaxed, so that the tap does not order the threads)
  g_calls.fetch_add(1, std::memory_order_relaxed);
  uint64_t k, it, n;
  bool keyed = minigomp_key && minigomp_key(&k, &it, &n);
  Rng local(keyed ? mix(mix(k, it), n) : 0);
  Rng &r = keyed ? local : stream();
  for (size_t i = 0; i < len; i += 8) {
    uint64_t v = r();
    memcpy(buf + i, &v, std::min<size_t>(8, len - i));
  }
  if (!keyed) {
    uint64_t o = tl.ordinal++;
    if (g_flip != 0 && (g_flip == tl.label ? !g_keep.count(o) : tl.label >= 1000)) for (size_t i = 0; i < len; i++) buf[i] ^= 0x5a;
  }
  if (g_rec.load()) {
    std::lock_guard<std::mutex> l(g_mu);
    g_log.push_back({tl.label, std::string(reinterpret_cast<char *>(buf), len)});
  }
  return 1;
}
