// Stand-in for mpc_utils' Status: just what /repo uses.
#pragma once
#include <ostream>
#include <string>
#include <utility>
#include "absl/strings/string_view.h"
namespace mpc_utils {
enum class StatusCode : int {
  kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3,
  kDeadlineExceeded = 4, kNotFound = 5, kAlreadyExists = 6,
  kPermissionDenied = 7, kResourceExhausted = 8, kFailedPrecondition = 9,
  kAborted = 10, kOutOfRange = 11, kUnimplemented = 12, kInternal = 13,
  kUnavailable = 14, kDataLoss = 15, kUnauthenticated = 16,
};
class Status {
 public:
  Status() : code_(StatusCode::kOk) {}
  Status(StatusCode c, absl::string_view m) : code_(c), msg_(m) {}
  bool ok() const { return code_ == StatusCode::kOk; }
  StatusCode code() const { return code_; }
  int raw_code() const { return static_cast<int>(code_); }
  absl::string_view message() const { return msg_; }
  absl::string_view error_message() const { return msg_; }
  std::string ToString() const {
    return ok() ? "OK" : "code " + std::to_string(int(code_)) + ": " + msg_;
  }
  bool operator==(const Status &o) const { return code_ == o.code_ && msg_ == o.msg_; }
  bool operator!=(const Status &o) const { return !(*this == o); }
  void IgnoreError() const {}
  static Status OkStatus() { return Status(); }
 private:
  StatusCode code_;
  std::string msg_;
};
inline Status OkStatus() { return Status(); }
inline std::ostream &operator<<(std::ostream &os, const Status &s) { return os << s.ToString(); }
}  // namespace mpc_utils
