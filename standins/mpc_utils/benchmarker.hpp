#pragma once
#include <chrono>
#include <map>
#include <string>
namespace mpc_utils {
class Benchmarker {
 public:
  using time_point = std::chrono::steady_clock::time_point;
  static time_point StartTimer() { return std::chrono::steady_clock::now(); }
  void AddAmount(const std::string &k, double v) { m_[k] += v; }
  void AddSecondsSinceStart(const std::string &k, time_point s) {
    m_[k] += std::chrono::duration<double>(StartTimer() - s).count();
  }
  double Get(const std::string &k) { return m_[k]; }
 private:
  std::map<std::string, double> m_;
};
}  // namespace mpc_utils
