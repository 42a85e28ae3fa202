// Shared machinery of the monitors: case generation, reporting, the two-party
// executor, reference arithmetic, randomness taps and statistics.
#pragma once
#include <csignal>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <condition_variable>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <unistd.h>

#include "NTL/ZZ.h"
#include "NTL/ZZ_p.h"
#include "NTL/lzz_p.h"
#include "absl/numeric/int128.h"
#include "absl/types/span.h"
#include "dv_link.h"
#include "minigomp.h"

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/lsan_interface.h>
#endif

namespace dv {

using u128 = unsigned __int128;
using dvlink::Rng;

inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a ^ (b * 0xD1342543DE82EF95ull + 0x2545F4914F6CDD1Dull));
  r();
  return r();
}
inline u128 rnd128(Rng &r) { u128 h = r(); return (h << 64) | r(); }
inline uint64_t below(Rng &r, uint64_t n) { return uint64_t((u128(r()) * n) >> 64); }
inline int64_t range(Rng &r, int64_t lo, int64_t hi) { return lo + int64_t(below(r, uint64_t(hi - lo + 1))); }
template <typename V> inline auto pick(Rng &r, const V &v) { return v[below(r, v.size())]; }
inline int64_t logrange(Rng &r, int64_t lo, int64_t hi) {  // log-uniform in [lo, hi]
  double a = std::log(double(lo)), b = std::log(double(hi) + 1);
  double x = a + (b - a) * (double(r() >> 11) / 9007199254740992.0);
  int64_t v = int64_t(std::exp(x));
  return v < lo ? lo : v > hi ? hi : v;
}
inline std::string hex(u128 v) {
  char b[40];
  snprintf(b, sizeof b, "%016llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v);
  const char *p = b;
  while (*p == '0' && p[1]) p++;
  return std::string("0x") + p;
}
inline absl::uint128 A(u128 v) { return absl::MakeUint128(uint64_t(v >> 64), uint64_t(v)); }
inline u128 U(absl::uint128 v) { return (u128(absl::Uint128High64(v)) << 64) | absl::Uint128Low64(v); }

// ------------------------------------------------------------- reporting
struct Violation : std::runtime_error { using std::runtime_error::runtime_error; };

struct Report {
  std::map<std::string, uint64_t> stats;
  std::unordered_set<uint64_t> sigs;
  std::vector<std::string> samples;
  std::vector<std::pair<uint64_t, std::string>> viols;
  uint64_t cases = 0;
};

struct Ctx {
  uint64_t seed, id;
  Rng rng;
  Report &rep;
  bool thorough;
  bool small = false;  // no designated large cases (sanitizer builds)
  std::string desc;  // grows as the case is generated
  Ctx(uint64_t s, uint64_t k, Report &r, bool th) : seed(mix(s, k)), id(k), rng(seed), rep(r), thorough(th) {}
  void stat(const std::string &n, uint64_t d = 1) { rep.stats[n] += d; }
  void peak(const std::string &n, uint64_t v) { auto &x = rep.stats[n]; if (v > x) x = v; }
  // signature of a distinct, non-trivial case
  void sig(const std::string &s) { rep.sigs.insert(std::hash<std::string>()(s)); }
  void sample(const std::string &s) { if (rep.samples.size() < 3) rep.samples.push_back(s); }
  [[noreturn]] void fail(const std::string &w) { throw Violation(desc.empty() ? w : w + " [" + desc + "]"); }
  void check(bool c, const std::string &w) { if (!c) fail(w); }
};

inline void json_str(std::string &o, const std::string &s) {
  o += '"';
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  o += '"';
}

// ------------------------------------------------------------- randomness tap
// interpose.cc defines RAND_bytes; every thread draws from its own stream.
struct RandCall { uint64_t label; std::string bytes; };
void rand_case(uint64_t seed);         // new case: all streams restart
void rand_label(uint64_t label);       // label of the calling thread
void rand_record(bool on);             // log the calls of all threads
std::vector<RandCall> rand_log();      // and take the log
uint64_t rand_calls();
// Until the next case: flips what threads with this label draw, except for the
// draws with the given ordinals since the start of the case.
void rand_perturb(uint64_t label, std::set<uint64_t> keep);

// NTL's own generator starts from the time and the process ID, which anyone can
// guess; here it is the same before every call, so that values taken from it repeat.
inline void know_ntl() { NTL::SetSeed(NTL::ZZ(1)); }

// ------------------------------------------------------------- two parties
class Worker {
 public:
  explicit Worker(int side) : side_(side), t_([this] { loop(); }) {}
  ~Worker() { { std::lock_guard<std::mutex> l(m_); stop_ = true; } cv_.notify_all(); t_.join(); }
  void start(std::function<void()> f) {
    std::lock_guard<std::mutex> l(m_);
    f_ = std::move(f); busy_ = true; err_.clear(); cv_.notify_all();
  }
  std::string wait() {
    std::unique_lock<std::mutex> l(m_);
    cv_.wait(l, [&] { return !busy_; });
    return err_;
  }
 private:
  void loop() {
    rand_label(uint64_t(side_) + 1);
    std::unique_lock<std::mutex> l(m_);
    for (;;) {
      cv_.wait(l, [&] { return stop_ || (busy_ && f_); });
      if (stop_) return;
      auto f = std::move(f_);
      f_ = nullptr;
      l.unlock();
      std::string e;
      try { f(); }
      catch (std::exception &x) { e = x.what(); if (e.empty()) e = "exception"; }
      l.lock();
      err_ = e; busy_ = false;
      cv_.notify_all();
    }
  }
  int side_;
  std::mutex m_;
  std::condition_variable cv_;
  std::function<void()> f_;
  bool busy_ = false, stop_ = false;
  std::string err_;
  std::thread t_;
};
// What belongs to the calling driver (C22 runs several at the same time).
inline void *&thread_env() { static thread_local void *p = nullptr; return p; }
inline int &driver_no() { static thread_local int n = 0; return n; }
inline Worker &worker(int side) {
  // live for the whole process
  static thread_local Worker *w[2] = {new Worker(2 * driver_no()), new Worker(2 * driver_no() + 1)};
  return *w[side];
}
// The two threads that play the parties next: those above, the same the other
// way round, or another two. Objects may move between threads from run to run.
inline bool &hops() { static bool on = false; return on; }
inline Worker *&player(int side) {
  static thread_local Worker *p[2] = {nullptr, nullptr};
  return p[side];
}
inline void hop(uint64_t kind) {
  static thread_local Worker *more[2] = {nullptr, nullptr};
  if (kind == 2 && !more[0]) for (int i = 0; i < 2; i++) more[i] = new Worker(100 + 2 * driver_no() + i);
  for (int i = 0; i < 2; i++) player(i) = kind == 2 ? more[i] : &worker(kind == 1 ? 1 - i : i);
}
// OpenMP team sizes of the two parties, whose machines may differ; 0: the default.
extern "C" void omp_set_num_threads(int) noexcept __attribute__((weak));
extern "C" int omp_get_max_threads() noexcept __attribute__((weak));
inline int &team_of(int side) { static thread_local int t[2] = {0, 0}; return t[side]; }
inline bool &vary_teams() { static bool on = false; return on; }
struct Teams {
  int t[2] = {0, 0};
  void draw(Ctx &c, uint64_t seed) {
    if (!vary_teams() || c.small || minigomp_counts || mix(seed, 0x7ea) % 3 == 0) return;
    static const int sizes[] = {1, 2, 3, 4, 5, 8};
    for (int i : {0, 1}) t[i] = sizes[mix(seed, 0x7eb + uint64_t(i)) % 6];
    if (t[0] != t[1]) c.stat("different_team_sizes");
  }
  void apply() const { for (int i : {0, 1}) team_of(i) = t[i]; }
};
inline std::string &party_error(int i) { static thread_local std::string e[2]; return e[i]; }
// Runs f0 and f1 as the two parties; returns "" or what went wrong.
inline std::string run2(dvlink::Link *link, std::function<void()> f0, std::function<void()> f1) {
  if (link) { link->begin(0); link->begin(1); }
  void *env = thread_env();
  static const int usual = omp_get_max_threads ? omp_get_max_threads() : 0;
  auto wrap = [link, env](int side, std::function<void()> f) {
    int team = team_of(side) ? team_of(side) : usual;
    return [link, side, f, env, team] {
      thread_env() = env;
      if (team && !minigomp_counts) omp_set_num_threads(team);
      try { f(); } catch (...) { if (link) link->end(side); throw; }
      if (link) link->end(side);
    };
  };
  if (!player(0)) hop(0);
  player(0)->start(wrap(0, f0));
  player(1)->start(wrap(1, f1));
  std::string a = player(0)->wait(), b = player(1)->wait();
  party_error(0) = a; party_error(1) = b;
  if (a.empty() && b.empty()) return "";
  return "party 0: " + (a.empty() ? std::string("ok") : a) + "; party 1: " + (b.empty() ? std::string("ok") : b);
}
// Same, reversing which harness thread plays which function.
inline std::string run_roles(dvlink::Link *link, bool swap, std::function<void()> f0, std::function<void()> f1) {
  return swap ? run2(link, f1, f0) : run2(link, f0, f1);
}

// ------------------------------------------------------------- statistics
// Upper tail of chi-square by Wilson-Hilferty; as a z-score.
inline double chi2_z(double x, double df) {
  double t = 2.0 / (9 * df);
  return (std::cbrt(x / df) - (1 - t)) / std::sqrt(t);
}
// z-score of the uniformity of counts; needs expected >= ~10 per cell.
inline double uniform_z(const std::vector<uint64_t> &c) {
  double n = 0;
  for (auto v : c) n += double(v);
  if (c.size() < 2 || n < 8.0 * double(c.size())) return 0;
  double e = n / double(c.size()), x = 0;
  for (auto v : c) x += (double(v) - e) * (double(v) - e) / e;
  return chi2_z(x, double(c.size()) - 1);
}
constexpr double kZ = 7.5;  // per-test alarm threshold (p ~ 3e-14)

// Records values, detects any repeat. For narrow values it slides a window of
// `window` consecutive ones, so that the recorded item always has enough bits.
class FreshSet {
 public:
  // returns false if some window has been seen before
  bool add(u128 v, const char *, std::string *) { return s_.insert(v).second; }
  size_t size() const { return s_.size(); }
  struct H { size_t operator()(u128 v) const { return size_t(mix(uint64_t(v), uint64_t(v >> 64))); } };
  std::unordered_set<u128, H> s_;
};
inline u128 hash_window(const u128 *p, int n) {
  uint64_t a = 0x243F6A8885A308D3ull, b = 0x13198A2E03707344ull;
  for (int i = 0; i < n; i++) {
    a = mix(a ^ uint64_t(p[i]), uint64_t(p[i] >> 64) + i);
    b = mix(b + uint64_t(p[i]) * 3, uint64_t(p[i] >> 64) ^ a);
  }
  return (u128(a) << 64) | b;
}

// ------------------------------------------------------------- main loop
struct Options {
  uint64_t seed = 1, cases = 10, shard = 0, shards = 1;
  int64_t only = -1;
  double budget = 60;
  bool thorough = false, small = false;
  std::string cur, out;
  std::vector<std::string> extra;
};
inline Options &options() { static Options o; return o; }
inline double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}
inline std::string &cur_desc() { static std::string s; return s; }
inline int &cur_fd() { static int fd = -1; return fd; }
inline void note_case(uint64_t id) {
  if (cur_fd() < 0) return;
  char b[64];
  int n = snprintf(b, sizeof b, "%-20llu\n", (unsigned long long)id);
  if (pwrite(cur_fd(), b, size_t(n), 0) < 0) { }
}

int harness_main(int argc, char **argv, const std::function<void(Ctx &)> &run_case,
                 const std::function<void(Report &)> &at_end = nullptr);

inline int harness_main(int argc, char **argv, const std::function<void(Ctx &)> &run_case,
                        const std::function<void(Report &)> &at_end) {
  Options &o = options();
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") o.seed = strtoull(next().c_str(), 0, 10);
    else if (a == "--cases") o.cases = strtoull(next().c_str(), 0, 10);
    else if (a == "--budget") o.budget = atof(next().c_str());
    else if (a == "--only") o.only = atoll(next().c_str());
    else if (a == "--shard") { o.shard = strtoull(next().c_str(), 0, 10); o.shards = strtoull(next().c_str(), 0, 10); }
    else if (a == "--thorough") o.thorough = true;
    else if (a == "--small") o.small = true;
    else if (a == "--cur") o.cur = next();
    else if (a == "--out") o.out = next();
    else o.extra.push_back(a);
  }
  if (!o.cur.empty()) cur_fd() = open(o.cur.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
  rand_label(0);
  Report rep;
  double t0 = now();
  auto one = [&](uint64_t k) {
    note_case(k);
    Ctx c(o.seed, k, rep, o.thorough);
    c.small = o.small;
    rand_case(c.seed);
    know_ntl();
    team_of(0) = team_of(1) = 0;
    double c0 = now();
    try { run_case(c); }
    catch (Violation &v) { rep.viols.push_back({k, v.what()}); }
    catch (std::exception &e) { rep.viols.push_back({k, std::string("unexpected exception: ") + e.what() + " [" + c.desc + "]"}); }
    rep.cases++;
    uint64_t &slow = rep.stats["max_case_ms"];
    slow = std::max(slow, uint64_t(1000 * (now() - c0)));
  };
  if (o.only >= 0) one(uint64_t(o.only));
  else
    for (uint64_t k = o.shard; k < o.cases && now() - t0 < o.budget && rep.viols.size() < 3; k += o.shards) one(k);
  if (at_end && rep.viols.empty()) {
    note_case(~0ull);
    try { at_end(rep); } catch (Violation &v) { rep.viols.push_back({~0ull, v.what()}); }
  }
  if (minigomp_counts) {
    uint64_t v[5];
    minigomp_counts(v);
    rep.stats["omp_regions"] += v[0]; rep.stats["omp_teams"] += v[1]; rep.stats["omp_chunks"] += v[2];
    rep.stats["omp_distinct_schedules"] += v[3]; rep.stats["max_omp_team"] = v[4];
  }
  if (FILE *f = fopen("/proc/self/status", "r")) {
    char line[256];
    unsigned long kb;
    while (fgets(line, sizeof line, f)) {
      if (sscanf(line, "VmPeak: %lu", &kb) == 1) rep.stats["max_vm_mb"] = kb >> 10;
      if (sscanf(line, "VmHWM: %lu", &kb) == 1) rep.stats["max_rss_mb"] = kb >> 10;
    }
    fclose(f);
  }
  std::string j = "{\"cases\":" + std::to_string(rep.cases) + ",\"wall\":" + std::to_string(now() - t0) + ",\"stats\":{";
  bool first = true;
  for (auto &s : rep.stats) { if (!first) j += ","; first = false; json_str(j, s.first); j += ":" + std::to_string(s.second); }
  j += "},\"sigs\":[";
  first = true;
  for (auto s : rep.sigs) { if (!first) j += ","; first = false; j += "\"" + std::to_string(s) + "\""; }
  j += "],\"samples\":[";
  first = true;
  for (auto &s : rep.samples) { if (!first) j += ","; first = false; json_str(j, s); }
  j += "],\"violations\":[";
  first = true;
  for (auto &v : rep.viols) {
    if (!first) j += ",";
    first = false;
    j += "{\"case\":" + (v.first == ~0ull ? std::string("-1") : std::to_string(v.first)) + ",\"what\":";
    json_str(j, v.second);
    j += "}";
  }
  j += "]}\n";
  if (!o.out.empty()) { FILE *f = fopen(o.out.c_str(), "w"); fputs(j.c_str(), f); fclose(f); }
  else fputs(j.c_str(), stdout);
  fflush(stdout);
#if defined(__SANITIZE_ADDRESS__)
  __lsan_do_recoverable_leak_check();
#endif
  _exit(rep.viols.empty() ? 0 : 1);  // the party workers live on
}

}  // namespace dv
