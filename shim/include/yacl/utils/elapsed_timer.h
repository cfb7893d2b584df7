#pragma once
#include <chrono>
#include <functional>
namespace yacl {
class ElapsedTimer {
 public:
  explicit ElapsedTimer(bool auto_start = true) { if (auto_start) Restart(); }
  explicit ElapsedTimer(std::function<void(const ElapsedTimer&)> f) : f_(std::move(f)) { Restart(); }
  ~ElapsedTimer() { if (f_) f_(*this); }
  void Restart() { s_ = std::chrono::steady_clock::now(); }
  void Pause() { p_ = Dur(); paused_ = true; }
  void Resume() { paused_ = false; }
  double CountMs() const { return Dur() * 1e3; }
  double CountSec() const { return Dur(); }
 private:
  double Dur() const {
    if (paused_) return p_;
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - s_).count();
  }
  std::chrono::steady_clock::time_point s_;
  double p_ = 0;
  bool paused_ = false;
  std::function<void(const ElapsedTimer&)> f_;
};
}  // namespace yacl
