// A small OpenMP runtime with the entry points gcc emits. It replaces libgomp in
// the race monitors, because libgomp is not instrumented: here every
// synchronisation that OpenMP promises is visible to ThreadSanitizer, and none
// that it does not promise (work is handed out with relaxed atomics). Schedules
// are perturbed: random chunks where the schedule leaves the choice, random
// yields and sleeps at forks, chunks, barriers and turns.
#include <atomic>
#include <condition_variable>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <memory>
#include <mutex>
#include <sched.h>
#include <string>
#include <thread>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#include "minigomp.h"

extern "C" uint64_t dv_fork_key() __attribute__((weak));

namespace {
using ull = unsigned long long;
constexpr auto kR = std::memory_order_relaxed;

int env_int(const char *n, int d) { const char *v = getenv(n); return v && *v ? atoi(v) : d; }
std::atomic<int> g_team{0}, g_chunk1{0}, g_perturb{-1};
std::atomic<uint64_t> g_seed{1}, g_thread{0};
std::atomic<uint64_t> s_regions{0}, s_teams{0}, s_chunks{0}, s_distinct{0}, s_max{0};

uint64_t mixup(uint64_t a, uint64_t b) {
  uint64_t z = a ^ (b * 0x9E3779B97F4A7C15ull + 0x7F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

struct Slot {
  std::atomic<ull> next{0};
  std::atomic<int> claimed{0};
  std::mutex mu;
  std::condition_variable cv;
  ull turn = 0;          // ordered: first iteration that is not finished
  void *copy = nullptr;  // single copyprivate
};
constexpr unsigned kEager = 16, kSlots = 4096;
struct Team {
  void (*fn)(void *) = nullptr;
  void *data = nullptr;
  unsigned n = 1;
  uint64_t key = 0;
  bool keyed = false;
  std::mutex mu;
  std::condition_variable cv;
  unsigned arrived = 0, gen = 0, left = 0;
  Slot eager[kEager];
  std::atomic<Slot *> lazy[kSlots] = {};
  std::atomic<uint64_t> hash{0}, order{0};
  ~Team() { for (auto &p : lazy) delete p.load(kR); }
  Slot &slot(unsigned i) {
    if (i < kEager) return eager[i];
    if (i >= kSlots) { fprintf(stderr, "minigomp: too many work shares\n"); abort(); }
    Slot *s = lazy[i].load(std::memory_order_acquire);
    if (!s) {
      Slot *m = new Slot;
      if (lazy[i].compare_exchange_strong(s, m, std::memory_order_acq_rel)) s = m; else delete m;
    }
    return *s;
  }
};

enum Kind { kStatic, kDynamic, kGuided };
struct State {
  Team *team = nullptr;
  unsigned tid = 0, share = 0, parent_n = 1;
  int level = 0, active = 0;
  // current work share
  Slot *slot = nullptr;
  unsigned slot_no = 0;
  Kind kind = kStatic;
  bool ordered = false, neg = false;
  ull start = 0, step = 1, count = 0, chunk = 0, at = 0, upto = 0, trips = 0;
  bool have = false;
  uint64_t calls = 0;
  bool region_keyed = false;
};
struct Pool;
struct Thread {
  State st;
  uint64_t rng = 0;
  int icv = 0;
  Pool *pool = nullptr;
  std::unordered_set<uint64_t> *seen = nullptr;
};
thread_local Thread tl;

uint64_t rnd() {
  if (!tl.rng) tl.rng = mixup(g_seed.load(kR), g_thread.fetch_add(1, kR) + 1) | 1;
  tl.rng ^= tl.rng << 13; tl.rng ^= tl.rng >> 7; tl.rng ^= tl.rng << 17;
  return tl.rng;
}
void jitter() {
  int p = g_perturb.load(kR);
  if (p < 0) { p = env_int("MINIGOMP_PERTURB", 1); g_perturb.store(p, kR); }
  if (!p) return;
  uint64_t r = rnd() >> 20;
  if (r % 16 == 0) usleep(useconds_t(r / 16 % 150));
  else if (r % 4 == 0) sched_yield();
}

// ------------------------------------------------------------ teams
struct Hand {
  std::mutex mu;
  std::condition_variable cv;
  std::shared_ptr<Team> job;
  unsigned tid = 0;
  int level = 0, active = 0;
};
struct Pool { std::vector<std::shared_ptr<Hand>> hands; };

void enter(Team *t, unsigned tid, int level, int active) {
  State s;
  s.team = t; s.tid = tid; s.level = level; s.active = active;
  State old = tl.st;
  tl.st = s;
  jitter();
  uint64_t o = t->order.fetch_add(1, kR);
  t->hash.fetch_add(mixup(o + 1, tid), kR);
  t->fn(t->data);
  tl.st = old;
}
void serve(std::shared_ptr<Hand> h) {
  for (;;) {
    std::shared_ptr<Team> t;
    unsigned tid;
    int level, active;
    {
      std::unique_lock<std::mutex> l(h->mu);
      h->cv.wait(l, [&] { return bool(h->job); });
      t = std::move(h->job);
      h->job = nullptr;
      tid = h->tid; level = h->level; active = h->active;
    }
    enter(t.get(), tid, level, active);
    std::lock_guard<std::mutex> l(t->mu);
    if (--t->left == 0) t->cv.notify_all();
  }
}
unsigned default_team() {
  if (tl.icv > 0) return unsigned(tl.icv);
  int g = g_team.load(kR);
  if (g <= 0) { g = env_int("OMP_NUM_THREADS", 3); if (g < 1) g = 1; }
  return unsigned(g);
}
void parallel(void (*fn)(void *), void *data, unsigned n) {
  if (n == 0) n = default_team();
  if (tl.st.active >= 1) n = 1;  // nested regions are serial, as by default
  auto t = std::make_shared<Team>();
  t->fn = fn; t->data = data; t->n = n; t->left = n - 1;
  if (dv_fork_key) { t->key = dv_fork_key(); t->keyed = true; }
  s_regions.fetch_add(1, kR);
  int level = tl.st.level + 1, active = tl.st.active + (n > 1);
  if (n > 1) {
    s_teams.fetch_add(1, kR);
    uint64_t m = s_max.load(kR);
    while (m < n && !s_max.compare_exchange_weak(m, n, kR)) { }
    if (!tl.pool) tl.pool = new Pool;
    while (tl.pool->hands.size() < n - 1) {
      auto h = std::make_shared<Hand>();
      tl.pool->hands.push_back(h);
      std::thread(serve, h).detach();
    }
    for (unsigned i = 1; i < n; i++) {
      Hand &h = *tl.pool->hands[i - 1];
      std::lock_guard<std::mutex> l(h.mu);
      h.job = t; h.tid = i; h.level = level; h.active = active;
      h.cv.notify_all();
    }
  }
  enter(t.get(), 0, level, active);
  if (n > 1) {
    std::unique_lock<std::mutex> l(t->mu);
    t->cv.wait(l, [&] { return t->left == 0; });
    l.unlock();
    if (!tl.seen) tl.seen = new std::unordered_set<uint64_t>;
    if (tl.seen->insert(mixup(t->hash.load(kR), uint64_t(reinterpret_cast<uintptr_t>(fn)))).second) s_distinct.fetch_add(1, kR);
  }
}
void barrier() {
  Team *t = tl.st.team;
  jitter();
  if (!t || t->n == 1) return;
  std::unique_lock<std::mutex> l(t->mu);
  unsigned g = t->gen;
  if (++t->arrived == t->n) { t->arrived = 0; t->gen++; t->cv.notify_all(); }
  else t->cv.wait(l, [&] { return t->gen != g; });
}

// ------------------------------------------------------------ work shares
Team *solo() {  // an orphaned construct outside of any region
  static thread_local Team *t = nullptr;
  if (!t) t = new Team;
  if (tl.st.share + 1 >= kEager) { delete t; t = new Team; tl.st.share = 0; }
  return t;
}
void open_share() {
  State &s = tl.st;
  Team *t = s.team ? s.team : solo();
  s.slot_no = s.share++;
  s.slot = &t->slot(s.slot_no);
  s.at = s.upto = s.trips = 0;
  s.have = false; s.ordered = false; s.neg = false;
}
void open_loop(ull start, ull count, ull step, bool neg, ull chunk, Kind k, bool ordered) {
  open_share();
  State &s = tl.st;
  s.start = start; s.count = count; s.step = step; s.chunk = chunk; s.kind = k; s.ordered = ordered; s.neg = neg;
}
unsigned team_size() { return tl.st.team ? tl.st.team->n : 1; }
void pass_turn() {
  State &s = tl.st;
  if (!s.ordered || !s.have) return;
  std::unique_lock<std::mutex> l(s.slot->mu);
  s.slot->cv.wait(l, [&] { return s.slot->turn == s.at; });
  s.slot->turn = s.upto;
  s.slot->cv.notify_all();
}
bool next_chunk(ull *a, ull *b) {
  State &s = tl.st;
  pass_turn();
  s.have = false;
  unsigned n = team_size();
  jitter();
  ull lo = 0, hi = 0;
  if (s.kind == kStatic) {
    if (s.chunk == 0) {
      if (s.trips > 0) return false;
      ull q = s.count / n, r = s.count % n;
      if (s.tid < r) { q++; r = 0; }
      lo = q * s.tid + r; hi = lo + q;
    } else {
      lo = (s.trips * n + s.tid) * s.chunk;
      hi = std::min(s.count, lo + s.chunk);
    }
    s.trips++;
    if (lo >= s.count || lo >= hi) return false;
  } else {
    lo = s.slot->next.load(kR);
    do {
      if (lo >= s.count) return false;
      ull rest = s.count - lo, least = s.chunk ? s.chunk : 1, size = least;
      if (s.kind == kGuided && !g_chunk1.load(kR)) {
        ull most = std::max<ull>(least, rest / n + 1);
        size = least + rnd() % (most - least + 1);
        if (rnd() % 4 == 0) size = least;
      }
      hi = lo + std::min(size, rest);
    } while (!s.slot->next.compare_exchange_weak(lo, hi, kR, kR));
  }
  s.at = lo; s.upto = hi; s.have = true; s.calls = 0;
  s_chunks.fetch_add(1, kR);
  if (s.team) s.team->hash.fetch_add(mixup(mixup(s.slot_no + 7, s.tid), lo + 1), kR);
  *a = lo; *b = hi;
  return true;
}
void close_share(bool wait) {
  pass_turn();
  tl.st.have = false;
  tl.st.slot = nullptr;
  if (wait) barrier();
}
ull count_of(long start, long end, long incr) {
  if (incr > 0) return start < end ? (ull(end) - ull(start) + ull(incr) - 1) / ull(incr) : 0;
  return start > end ? (ull(start) - ull(end) + ull(-incr) - 1) / ull(-incr) : 0;
}
bool next_long(long *i, long *e) {
  ull a, b;
  if (!next_chunk(&a, &b)) return false;
  *i = long(tl.st.start + a * tl.st.step);
  *e = long(tl.st.start + b * tl.st.step);
  return true;
}
bool start_long(long s, long e, long inc, long chunk, Kind k, bool ord, long *i, long *o) {
  open_loop(ull(s), count_of(s, e, inc), ull(inc), inc < 0, ull(chunk < 0 ? 0 : chunk), k, ord);
  return next_long(i, o);
}
bool next_ull(ull *i, ull *e) { return next_long(reinterpret_cast<long *>(i), reinterpret_cast<long *>(e)); }
bool start_ull(bool up, ull s, ull e, ull inc, ull chunk, Kind k, bool ord, ull *i, ull *o) {
  ull n = up ? (s < e ? (e - s + inc - 1) / inc : 0) : (s > e ? (s - e + (0 - inc) - 1) / (0 - inc) : 0);
  open_loop(s, n, inc, !up, chunk, k, ord);
  return next_ull(i, o);
}
void parallel_loop(void (*fn)(void *), void *data, unsigned n, long s, long e, long inc, long chunk, Kind k) {
  // the body calls *_next without *_start
  struct Go { void (*fn)(void *); void *data; long s, e, inc, chunk; Kind k; } g{fn, data, s, e, inc, chunk, k};
  parallel([](void *p) {
    Go *g = static_cast<Go *>(p);
    open_loop(ull(g->s), count_of(g->s, g->e, g->inc), ull(g->inc), g->inc < 0, ull(g->chunk < 0 ? 0 : g->chunk), g->k, false);
    g->fn(g->data);
  }, &g, n);
}
std::mutex g_atomic;
std::recursive_mutex &named(void **p) {
  static std::mutex mu;
  std::lock_guard<std::mutex> l(mu);
  if (!*p) *p = new std::recursive_mutex;
  return *static_cast<std::recursive_mutex *>(*p);
}
std::recursive_mutex g_critical;
}  // namespace

// ------------------------------------------------------------ for the harness
void minigomp_set_team(int n) { g_team.store(n, kR); }
void minigomp_one_by_one(bool on) { g_chunk1.store(on, kR); }
void minigomp_perturb(bool on, uint64_t seed) { g_perturb.store(on, kR); g_seed.store(seed, kR); }
bool minigomp_key(uint64_t *key, uint64_t *iteration, uint64_t *call) {
  State &s = tl.st;
  if (!s.team || !s.team->keyed) return false;
  *key = s.team->key;
  bool one = s.have && s.upto == s.at + 1;
  *iteration = one ? mixup(s.slot_no + 1, s.at + 1) : 0;
  *call = one ? s.calls++ : 0;
  return true;
}
extern "C" void minigomp_counts(uint64_t *v) {
  v[0] = s_regions.load(kR); v[1] = s_teams.load(kR); v[2] = s_chunks.load(kR); v[3] = s_distinct.load(kR); v[4] = s_max.load(kR);
}

// ------------------------------------------------------------ entry points
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { parallel(fn, data, n); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned n, unsigned) { parallel(fn, data, n); return default_team(); }
#define PL(name, k) \
  void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { parallel_loop(fn, d, n, s, e, i, c, k); }
PL(static, kStatic) PL(dynamic, kDynamic) PL(guided, kGuided) PL(nonmonotonic_dynamic, kDynamic) PL(nonmonotonic_guided, kGuided)
#define PLR(name) \
  void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { parallel_loop(fn, d, n, s, e, i, 1, kGuided); }
PLR(runtime) PLR(nonmonotonic_runtime) PLR(maybe_nonmonotonic_runtime)
#define L(name, k, ord) \
  bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *a, long *b) { return start_long(s, e, i, c, k, ord, a, b); } \
  bool GOMP_loop_##name##_next(long *a, long *b) { return next_long(a, b); } \
  bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull c, ull *a, ull *b) { return start_ull(up, s, e, i, c, k, ord, a, b); } \
  bool GOMP_loop_ull_##name##_next(ull *a, ull *b) { return next_ull(a, b); }
L(static, kStatic, false) L(dynamic, kDynamic, false) L(guided, kGuided, false) L(nonmonotonic_dynamic, kDynamic, false)
L(nonmonotonic_guided, kGuided, false) L(ordered_static, kStatic, true) L(ordered_dynamic, kDynamic, true) L(ordered_guided, kGuided, true)
#define LR(name, ord) \
  bool GOMP_loop_##name##_start(long s, long e, long i, long *a, long *b) { return start_long(s, e, i, 1, kGuided, ord, a, b); } \
  bool GOMP_loop_##name##_next(long *a, long *b) { return next_long(a, b); } \
  bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull *a, ull *b) { return start_ull(up, s, e, i, 1, kGuided, ord, a, b); } \
  bool GOMP_loop_ull_##name##_next(ull *a, ull *b) { return next_ull(a, b); }
LR(runtime, false) LR(nonmonotonic_runtime, false) LR(maybe_nonmonotonic_runtime, false) LR(ordered_runtime, true)
bool GOMP_loop_start(long s, long e, long inc, long sched, long chunk, long *a, long *b, uintptr_t *red, void **mem) {
  if (red || mem) { fprintf(stderr, "minigomp: unsupported reduction\n"); _exit(70); }
  long k = sched & 0xff;
  Kind kind = k == 1 ? kStatic : k == 2 ? kDynamic : kGuided;
  if (!a) { open_loop(ull(s), count_of(s, e, inc), ull(inc), inc < 0, ull(chunk < 0 ? 0 : chunk), kind, false); return true; }
  return start_long(s, e, inc, chunk, kind, false, a, b);
}
bool GOMP_loop_ordered_start(long s, long e, long inc, long sched, long chunk, long *a, long *b, uintptr_t *red, void **mem) {
  if (red || mem) { fprintf(stderr, "minigomp: unsupported reduction\n"); _exit(70); }
  long k = sched & 0xff;
  return start_long(s, e, inc, chunk, k == 1 ? kStatic : k == 2 ? kDynamic : kGuided, true, a, b);
}
void GOMP_loop_end() { close_share(true); }
void GOMP_loop_end_nowait() { close_share(false); }
bool GOMP_loop_end_cancel() { close_share(true); return false; }
void GOMP_ordered_start() {
  State &s = tl.st;
  if (!s.ordered || !s.have) return;
  jitter();
  std::unique_lock<std::mutex> l(s.slot->mu);
  s.slot->cv.wait(l, [&] { return s.slot->turn == s.at; });
}
void GOMP_ordered_end() {}
void GOMP_barrier() { barrier(); }
bool GOMP_barrier_cancel() { barrier(); return false; }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
void GOMP_critical_start() { jitter(); g_critical.lock(); }
void GOMP_critical_end() { g_critical.unlock(); }
void GOMP_critical_name_start(void **p) { jitter(); named(p).lock(); }
void GOMP_critical_name_end(void **p) { named(p).unlock(); }
void GOMP_atomic_start() { g_atomic.lock(); }
void GOMP_atomic_end() { g_atomic.unlock(); }
bool GOMP_single_start() { jitter(); open_share(); bool mine = tl.st.slot->claimed.exchange(1, kR) == 0; tl.st.slot = nullptr; return mine; }
void *GOMP_single_copy_start() {
  jitter();
  open_share();
  Slot *s = tl.st.slot;
  if (s->claimed.exchange(1, kR) == 0) { tl.st.share--; return nullptr; }
  barrier();
  std::lock_guard<std::mutex> l(s->mu);
  return s->copy;
}
void GOMP_single_copy_end(void *data) {
  open_share();
  { std::lock_guard<std::mutex> l(tl.st.slot->mu); tl.st.slot->copy = data; }
  tl.st.slot = nullptr;
  barrier();
}
unsigned GOMP_sections_next() { ull a, b; return next_chunk(&a, &b) ? unsigned(a) + 1 : 0; }
unsigned GOMP_sections_start(unsigned n) { open_loop(0, n, 1, false, 1, kDynamic, false); return GOMP_sections_next(); }
void GOMP_sections_end() { close_share(true); }
void GOMP_sections_end_nowait() { close_share(false); }
bool GOMP_sections_end_cancel() { close_share(true); return false; }
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned count, unsigned) { parallel_loop(fn, d, n, 0, long(count), 1, 1, kDynamic); }
static void *args_copy(void *data, void (*cpy)(void *, void *), long size, long align, std::unique_ptr<char[]> &hold) {
  hold.reset(new char[size_t(size + align)]);
  char *p = hold.get() + (align - long(reinterpret_cast<uintptr_t>(hold.get()) % uintptr_t(align))) % align;
  if (cpy) cpy(p, data); else memcpy(p, data, size_t(size));
  return p;
}
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int, void *) {
  std::unique_ptr<char[]> hold;
  fn(args_copy(data, cpy, size, align ? align : 1, hold));
}
static void taskloop(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, ull s, ull e) {
  std::unique_ptr<char[]> hold;
  void *p = args_copy(data, cpy, size, align ? align : 1, hold);
  static_cast<ull *>(p)[0] = s; static_cast<ull *>(p)[1] = e;
  fn(p);
}
void GOMP_taskloop(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, unsigned, unsigned long, int, long s, long e, long inc) {
  if (count_of(s, e, inc)) taskloop(fn, data, cpy, size, align, ull(s), ull(e));
}
void GOMP_taskloop_ull(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, unsigned, unsigned long, int, ull s, ull e, ull) {
  if (s != e) taskloop(fn, data, cpy, size, align, s, e);
}
void GOMP_taskwait() {}
void GOMP_taskyield() { sched_yield(); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}

int omp_get_thread_num() { return int(tl.st.tid); }
int omp_get_num_threads() { return int(team_size()); }
int omp_get_max_threads() { return int(default_team()); }
void omp_set_num_threads(int n) { tl.icv = n < 1 ? 1 : n; }
int omp_in_parallel() { return tl.st.active > 0; }
int omp_get_num_procs() { return int(std::thread::hardware_concurrency()); }
int omp_get_level() { return tl.st.level; }
int omp_get_active_level() { return tl.st.active; }
int omp_get_ancestor_thread_num(int l) { return l == tl.st.level ? int(tl.st.tid) : 0; }
int omp_get_team_size(int l) { return l == tl.st.level ? int(team_size()) : 1; }
int omp_get_thread_limit() { return 1 << 20; }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
int omp_get_nested() { return 0; }
void omp_set_nested(int) {}
int omp_get_max_active_levels() { return 1; }
void omp_set_max_active_levels(int) {}
int omp_get_supported_active_levels() { return 1; }
int omp_get_cancellation() { return 0; }
void omp_set_schedule(int, int) {}
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec); }
double omp_get_wtick() { return 1e-9; }
// omp_lock_t has 4 bytes only
static std::deque<std::recursive_mutex> &locks() { static auto *d = new std::deque<std::recursive_mutex>; return *d; }
static std::recursive_mutex &lock_of(int *l) { std::lock_guard<std::mutex> g(g_atomic); return locks()[size_t(*l - 1)]; }
void omp_init_lock(int *l) { std::lock_guard<std::mutex> g(g_atomic); locks().emplace_back(); *l = int(locks().size()); }
void omp_destroy_lock(int *l) { *l = 0; }
void omp_set_lock(int *l) { jitter(); lock_of(l).lock(); }
void omp_unset_lock(int *l) { lock_of(l).unlock(); }
int omp_test_lock(int *l) { return lock_of(l).try_lock(); }
void omp_init_nest_lock(int *l) { omp_init_lock(l); }
void omp_destroy_nest_lock(int *l) { *l = 0; }
void omp_set_nest_lock(int *l) { omp_set_lock(l); }
void omp_unset_nest_lock(int *l) { omp_unset_lock(l); }
}
