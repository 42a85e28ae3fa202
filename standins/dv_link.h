// In-process stand-in for a two-party connection, with the monitors' taps.
//
// Semantics (at least as strict as a buffered socket):
//  * nothing written is visible to the peer before flush() (sync() and adapter
//    receives flush too);
//  * typed messages and raw adapter bytes are framed: reading one where the
//    other was written is an error;
//  * a wait that can never be satisfied is detected exactly (peer finished, or
//    both peers waiting on something that is not there), without any clock;
//  * every frame and every OT is recorded when recording is on.
#pragma once
#include <emmintrin.h>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

namespace dvlink {

struct Stall : std::runtime_error { using std::runtime_error::runtime_error; };
struct ProtocolError : std::runtime_error { using std::runtime_error::runtime_error; };
struct Watchdog : std::runtime_error { using std::runtime_error::runtime_error; };

struct Rng {  // splitmix64
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t operator()() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
};

struct Frame { char kind; std::string bytes; };  // 'M' message, 'R' raw, 'S' sync
struct LogEntry { int side; int stream; char kind; std::string bytes; };
struct OTRecord {
  int sender; bool correlated;
  std::vector<__m128i> m0, m1;
  std::vector<uint8_t> choices;
};

struct Block { int64_t w[2]; };

class Link {
 public:
  explicit Link(uint64_t seed) : rng_(seed) { streams_.emplace_back(); }

  // ---- harness side
  void begin(int side) { std::lock_guard<std::mutex> l(mu_); done_[side] = false; }
  void end(int side) {
    std::lock_guard<std::mutex> l(mu_); done_[side] = true; cv_.notify_all();
  }
  void fail(const std::string &w) {
    std::lock_guard<std::mutex> l(mu_); poison(w);
  }
  bool poisoned() { std::lock_guard<std::mutex> l(mu_); return poisoned_; }
  size_t residue() {
    std::lock_guard<std::mutex> l(mu_);
    size_t n = 0;
    for (auto &s : streams_) for (int d = 0; d < 2; d++) n += s.vis[d].size() + s.pend[d].size();
    for (auto &b : boxes_) n += b.have_req + b.have_resp + b.have_pend;
    return n;
  }
  uint64_t bytes_sent(int side) { std::lock_guard<std::mutex> l(mu_); return bytes_[side]; }
  uint64_t frames_sent(int side) { std::lock_guard<std::mutex> l(mu_); return frames_[side]; }
  uint64_t ots() { std::lock_guard<std::mutex> l(mu_); return ots_; }
  bool record = false;
  unsigned max_delay_us = 0;
  std::function<void(int side, std::string &bytes)> tamper;  // sees every message before it is sent
  std::vector<LogEntry> log;
  std::vector<OTRecord> ot_log;
  void clear_logs() { std::lock_guard<std::mutex> l(mu_); log.clear(); ot_log.clear(); }

  // ---- channel side
  void put(int side, int stream, char kind, std::string bytes) {
    delay();
    if (kind == 'M' && tamper) tamper(side, bytes);
    std::lock_guard<std::mutex> l(mu_);
    if (record) log.push_back({side, stream, kind, bytes});
    if (kind != 'S') { bytes_[side] += bytes.size(); frames_[side]++; }
    streams_[stream].pend[side].push_back({kind, std::move(bytes)});
  }
  void flush(int side, int stream) {
    delay();
    std::lock_guard<std::mutex> l(mu_);
    flush_locked(side, stream);
  }
  std::string get(int side, int stream, char kind) {
    delay();
    std::unique_lock<std::mutex> l(mu_);
    auto &q = streams_[stream].vis[1 - side];
    std::function<bool()> ready = [&] { return !q.empty(); };
    wait(side, l, ready, "receive");
    if (q.front().kind != kind) {
      std::string w = std::string("expected frame '") + kind + "' but peer sent '" + q.front().kind + "'";
      poison(w);
      throw ProtocolError(w);
    }
    std::string r = std::move(q.front().bytes);
    q.pop_front();
    return r;
  }
  void get_raw(int side, int stream, void *dst, size_t n) {
    delay();
    std::unique_lock<std::mutex> l(mu_);
    flush_locked(side, stream);
    auto &q = streams_[stream].vis[1 - side];
    char *p = static_cast<char *>(dst);
    while (n > 0) {
      std::function<bool()> ready = [&] { return !q.empty(); };
      wait(side, l, ready, "raw receive");
      if (q.front().kind != 'R') {
        poison("expected raw bytes but peer sent a message");
        throw ProtocolError("expected raw bytes but peer sent a message");
      }
      std::string &b = q.front().bytes;
      size_t k = std::min(n, b.size());
      memcpy(p, b.data(), k);
      p += k; n -= k;
      if (k == b.size()) q.pop_front(); else b.erase(0, k);
    }
  }
  // Adapter pairing: the k-th adapter of one side talks to the k-th of the other.
  void new_adapter(int side, bool direct, int *stream, int *box) {
    std::unique_lock<std::mutex> l(mu_);
    size_t k = adapters_[side]++;
    if (boxes_.size() <= k) { boxes_.resize(k + 1); }
    OTBox &b = boxes_[k];
    b.registered[side] = true;
    b.direct[side] = direct;
    cv_.notify_all();
    *box = int(k);
    if (!direct) { *stream = 0; return; }
    std::function<bool()> ready = [&] { return boxes_[k].registered[1 - side]; };
    wait(side, l, ready, "direct connection");
    if (boxes_[k].direct[0] != boxes_[k].direct[1]) {
      poison("direct/indirect adapter mismatch"); throw ProtocolError("direct/indirect adapter mismatch");
    }
    if (boxes_[k].stream < 0) { streams_.emplace_back(); boxes_[k].stream = int(streams_.size()) - 1; }
    *stream = boxes_[k].stream;
  }

  // Ideal (correlated) OT.
  void ot_recv(int side, int box, int stream, bool correlated, __m128i *out, const bool *choices, int64_t n) {
    delay();
    std::unique_lock<std::mutex> l(mu_);
    OTBox &b = boxes_[box];
    flush_locked(side, stream);
    std::function<bool()> free_req = [&] { return !b.have_req && !b.have_resp; };
    wait(side, l, free_req, "OT slot");
    b.have_req = true; b.req_side = side; b.req_cot = correlated;
    b.choices.assign(n, 0);
    for (int64_t i = 0; i < n; i++) b.choices[i] = choices[i] ? 1 : 0;
    bytes_[side] += 16 * uint64_t(n);
    cv_.notify_all();
    std::function<bool()> ready = [&] { return b.have_resp; };
    wait(side, l, ready, "OT response");
    for (int64_t i = 0; i < n; i++) out[i] = b.resp[i];
    b.have_resp = false;
    cv_.notify_all();
  }
  // fill(i, &m0, &m1): called on the sender's thread, outside the lock.
  void ot_send(int side, int box, int stream, bool correlated, int64_t n,
               const std::function<void(int64_t, __m128i *, __m128i *)> &fill) {
    delay();
    std::vector<uint8_t> ch;
    {
      std::unique_lock<std::mutex> l(mu_);
      OTBox &b = boxes_[box];
      flush_locked(side, stream);
      std::function<bool()> ready = [&] { return b.have_req; };
      wait(side, l, ready, "OT request");
      if (b.req_side == side) { poison("both parties are OT receivers"); throw ProtocolError("both parties are OT receivers"); }
      if (b.req_cot != correlated || int64_t(b.choices.size()) != n) {
        std::string w = "OT mismatch: sender " + std::string(correlated ? "COT" : "OT") + " n=" +
            std::to_string(n) + ", receiver " + (b.req_cot ? "COT" : "OT") + " n=" + std::to_string(b.choices.size());
        poison(w); throw ProtocolError(w);
      }
      ch = b.choices;
      b.have_req = false;
    }
    std::vector<__m128i> m0(n), m1(n), resp(n);
    for (int64_t i = 0; i < n; i++) {
      fill(i, &m0[i], &m1[i]);
      resp[i] = ch[i] ? m1[i] : m0[i];
    }
    std::lock_guard<std::mutex> l(mu_);
    OTBox &b = boxes_[box];
    bytes_[side] += 32 * uint64_t(n);
    ots_ += n;
    if (record) {
      ot_log.push_back({side, correlated, std::move(m0), std::move(m1), std::move(ch)});
      log.push_back({side, stream, 'O', std::string()});
    }
    b.pend = std::move(resp); b.have_pend = true; b.pend_side = side;
    // becomes visible with the adapter's next flush (or receive).
  }
  __m128i random_block() {
    std::lock_guard<std::mutex> l(mu_);
    uint64_t a = rng_(), b = rng_();
    return _mm_set_epi64x((long long)a, (long long)b);
  }

 private:
  struct Stream { std::deque<Frame> vis[2]; std::vector<Frame> pend[2]; };
  struct OTBox {
    bool registered[2] = {false, false}, direct[2] = {false, false};
    int stream = -1;
    bool have_req = false, have_resp = false, have_pend = false, req_cot = false;
    int req_side = 0, pend_side = 0;
    std::vector<uint8_t> choices;
    std::vector<__m128i> resp, pend;
  };
  void flush_locked(int side, int stream) {
    auto &s = streams_[stream];
    for (auto &f : s.pend[side]) s.vis[side].push_back(std::move(f));
    s.pend[side].clear();
    for (auto &b : boxes_) {
      if (b.have_pend && b.pend_side == side && (b.stream == stream || (b.stream < 0 && stream == 0))) {
        b.resp = std::move(b.pend); b.have_pend = false; b.have_resp = true;
      }
    }
    cv_.notify_all();
  }
  void poison(const std::string &w) {
    if (!poisoned_) { poisoned_ = true; why_ = w; }
    cv_.notify_all();
  }
  void wait(int side, std::unique_lock<std::mutex> &l, std::function<bool()> &pred, const char *what) {
    while (!pred()) {
      if (poisoned_) throw Stall("link failed: " + why_);
      int o = 1 - side;
      if (done_[o]) {
        poison(std::string("side ") + std::to_string(side) + " waits for " + what + " but the peer has returned");
        throw Stall(why_);
      }
      if (waiting_[o] && !(*waiting_[o])()) {
        poison(std::string("deadlock: side ") + std::to_string(side) + " waits for " + what +
               " while the peer waits for " + what_[o]);
        throw Stall(why_);
      }
      waiting_[side] = &pred; what_[side] = what;
      auto st = cv_.wait_for(l, std::chrono::seconds(600));
      waiting_[side] = nullptr;
      if (st == std::cv_status::timeout && !pred()) { poison("watchdog"); throw Watchdog("link watchdog"); }
    }
  }
  void delay() {
    if (max_delay_us == 0) return;
    uint64_t r;
    { std::lock_guard<std::mutex> l(mu_); r = rng_(); }
    if (r & 1) return;
    std::this_thread::sleep_for(std::chrono::microseconds((r >> 1) % max_delay_us));
  }
  std::mutex mu_;
  std::condition_variable cv_;
  std::deque<Stream> streams_;
  std::deque<OTBox> boxes_;
  size_t adapters_[2] = {0, 0};
  bool done_[2] = {false, false};
  std::function<bool()> *waiting_[2] = {nullptr, nullptr};
  const char *what_[2] = {"", ""};
  bool poisoned_ = false;
  std::string why_;
  uint64_t bytes_[2] = {0, 0}, frames_[2] = {0, 0}, ots_ = 0;
  Rng rng_;
};

}  // namespace dvlink
