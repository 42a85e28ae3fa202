// Minimal archive with the boost::serialization calling convention (ar & x,
// ar << x, ar >> x, member serialize(ar, version)).
#pragma once
#include <cstdint>
#include <cstring>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include "Eigen/Dense"
#include "NTL/ZZ.h"
#include "NTL/ZZ_p.h"
#include "NTL/lzz_p.h"
#include "absl/numeric/int128.h"
#include "absl/types/optional.h"
#include "boost/serialization/access.hpp"
namespace dvlink {
struct DecodeError : std::runtime_error { using std::runtime_error::runtime_error; };

class OArchive {
 public:
  using is_saving = std::true_type;
  using is_loading = std::false_type;
  std::string out;
  template <typename T> OArchive &operator&(const T &x) { put(x); return *this; }
  template <typename T> OArchive &operator<<(const T &x) { put(x); return *this; }
  void raw(const void *p, size_t n) { out.append(static_cast<const char *>(p), n); }
  void save_binary(const void *p, size_t n) { raw(p, n); }
 private:
  template <typename T, typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value, int>::type = 0>
  void put(const T &x) { raw(&x, sizeof x); }
  void put(const absl::uint128 &x) { put(absl::Uint128Low64(x)); put(absl::Uint128High64(x)); }
  void put(const NTL::ZZ &z) {
    std::string b(NTL::NumBytes(z), 0);
    NTL::BytesFromZZ(reinterpret_cast<unsigned char *>(&b[0]), z, b.size());
    put(uint8_t(z < 0)); put(b);
  }
  void put(const NTL::ZZ_p &x) {  // fixed size per modulus
    std::string b(NTL::NumBytes(NTL::ZZ_p::modulus()), 0);
    NTL::BytesFromZZ(reinterpret_cast<unsigned char *>(&b[0]), NTL::rep(x), b.size());
    put(uint8_t(0)); put(b);
  }
  void put(const NTL::zz_p &x) { put(int64_t(NTL::rep(x))); }
  void put(const std::string &s) { put(uint64_t(s.size())); raw(s.data(), s.size()); }
  template <typename T, size_t N> void put(const T (&a)[N]) { for (auto &e : a) put(e); }
  template <typename A, typename B> void put(const std::pair<A, B> &p) { put(p.first); put(p.second); }
  template <typename T> void put(const absl::optional<T> &o) { put(o.has_value()); if (o) put(*o); }
  void put(const std::vector<bool> &v) { put(uint64_t(v.size())); for (bool b : v) put(b); }
  template <typename T> void put(const std::vector<T> &v) { put(uint64_t(v.size())); many(v.data(), v.size()); }
  template <typename S, int R, int C, int O, int MR, int MC>
  void put(const Eigen::Matrix<S, R, C, O, MR, MC> &m) {
    put(int64_t(m.rows())); put(int64_t(m.cols())); many(m.data(), size_t(m.size()));
  }
  template <typename T, typename std::enable_if<std::is_class<T>::value, int>::type = 0>
  void put(const T &x) { boost::serialization::access::serialize(*this, const_cast<T &>(x), 0u); }
  template <typename T> void many(const T *p, size_t n) {
    if constexpr (std::is_arithmetic<T>::value) raw(p, n * sizeof(T));
    else for (size_t i = 0; i < n; i++) put(p[i]);
  }
};

class IArchive {
 public:
  using is_saving = std::false_type;
  using is_loading = std::true_type;
  explicit IArchive(const std::string &s) : p_(s.data()), e_(s.data() + s.size()) {}
  template <typename T> IArchive &operator&(T &x) { get(x); return *this; }
  template <typename T> IArchive &operator>>(T &x) { get(x); return *this; }
  bool done() const { return p_ == e_; }
  void raw(void *d, size_t n) {
    if (size_t(e_ - p_) < n) throw DecodeError("message shorter than the type read from it");
    if (n) memcpy(d, p_, n);
    p_ += n;
  }
  void load_binary(void *d, size_t n) { raw(d, n); }
 private:
  size_t count() { uint64_t n; get(n); if (n > size_t(e_ - p_)) throw DecodeError("more elements than the message has bytes"); return n; }
  template <typename T, typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value, int>::type = 0>
  void get(T &x) { raw(&x, sizeof x); }
  void get(absl::uint128 &x) { uint64_t l, h; get(l); get(h); x = absl::MakeUint128(h, l); }
  void get(NTL::ZZ &z) {
    uint8_t neg; get(neg); std::string b; get(b);
    NTL::ZZFromBytes(z, reinterpret_cast<const unsigned char *>(b.data()), b.size());
    if (neg) z = -z;
  }
  void get(NTL::ZZ_p &x) { NTL::ZZ z; get(z); NTL::conv(x, z); }
  void get(NTL::zz_p &x) { int64_t z; get(z); NTL::conv(x, long(z)); }
  void get(std::string &s) { size_t n = count(); s.resize(n); raw(&s[0], n); }
  template <typename T, size_t N> void get(T (&a)[N]) { for (auto &e : a) get(e); }
  template <typename A, typename B> void get(std::pair<A, B> &p) { get(p.first); get(p.second); }
  template <typename T> void get(absl::optional<T> &o) { bool h; get(h); if (h) { o.emplace(); get(*o); } else o.reset(); }
  void get(std::vector<bool> &v) { v.resize(count()); for (size_t i = 0; i < v.size(); i++) { bool b; get(b); v[i] = b; } }
  template <typename T> void get(std::vector<T> &v) { v.resize(count()); many(v.data(), v.size()); }
  template <typename S, int R, int C, int O, int MR, int MC>
  void get(Eigen::Matrix<S, R, C, O, MR, MC> &m) {
    int64_t r, c; get(r); get(c);
    if (r < 0 || c < 0 || (R != Eigen::Dynamic && r != R) || (C != Eigen::Dynamic && c != C)) throw DecodeError("absurd shape");
    if (r != 0 && c != 0 && c > (e_ - p_) / r) throw DecodeError("more elements than the message has bytes");
    m.resize(r, c); many(m.data(), size_t(r * c));
  }
  template <typename T, typename std::enable_if<std::is_class<T>::value, int>::type = 0>
  void get(T &x) { boost::serialization::access::serialize(*this, x, 0u); }
  template <typename T> void many(T *p, size_t n) {
    if constexpr (std::is_arithmetic<T>::value) raw(p, n * sizeof(T));
    else for (size_t i = 0; i < n; i++) get(p[i]);
  }
  const char *p_, *e_;
};

template <typename M> std::string Encode(const M &m) { OArchive a; a << m; return std::move(a.out); }
template <typename M> void Decode(const std::string &s, M &m) {
  IArchive a(s);
  a >> m;
  if (!a.done()) throw DecodeError("message longer than the type read from it");
}
}  // namespace dvlink
