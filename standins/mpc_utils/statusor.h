#pragma once
#include <cstdio>
#include <cstdlib>
#include <type_traits>
#include "absl/types/optional.h"
#include "mpc_utils/status.h"
namespace mpc_utils {
template <typename T>
class StatusOr {
 public:
  using element_type = T;
  using value_type = T;
  StatusOr() : st_(StatusCode::kUnknown, "uninitialised StatusOr") {}
  StatusOr(const T &v) : v_(v) {}
  StatusOr(T &&v) : v_(std::move(v)) {}
  StatusOr(const Status &s) : st_(s) { check(); }
  StatusOr(Status &&s) : st_(std::move(s)) { check(); }
  template <typename U, typename std::enable_if<
      std::is_convertible<U, T>::value && !std::is_same<U, T>::value, int>::type = 0>
  StatusOr(StatusOr<U> &&o) : st_(o.status()) { if (o.ok()) v_ = T(std::move(o).ValueOrDie()); }
  StatusOr(const StatusOr &) = default;
  StatusOr(StatusOr &&) = default;
  StatusOr &operator=(const StatusOr &) = default;
  StatusOr &operator=(StatusOr &&) = default;
  bool ok() const { return v_.has_value(); }
  explicit operator bool() const { return ok(); }
  Status status() const { return ok() ? OkStatus() : st_; }
  const T &ValueOrDie() const & { die(); return *v_; }
  T &ValueOrDie() & { die(); return *v_; }
  T &&ValueOrDie() && { die(); return std::move(*v_); }
  const T &value() const & { return ValueOrDie(); }
  T &value() & { return ValueOrDie(); }
  T &&value() && { return std::move(*this).ValueOrDie(); }
  const T &operator*() const & { return ValueOrDie(); }
  T &operator*() & { return ValueOrDie(); }
  T *operator->() { return &ValueOrDie(); }
  const T *operator->() const { return &ValueOrDie(); }
 private:
  void check() { if (st_.ok()) { fprintf(stderr, "StatusOr built from OK status\n"); abort(); } }
  void die() const {
    if (!ok()) { fprintf(stderr, "ValueOrDie on error: %s\n", st_.ToString().c_str()); abort(); }
  }
  Status st_;
  absl::optional<T> v_;
};
}  // namespace mpc_utils
