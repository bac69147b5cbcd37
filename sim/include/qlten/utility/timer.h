#ifndef VERIF_STUB_TIMER_H
#define VERIF_STUB_TIMER_H
#include <string>
#include <cstddef>
#include "sim/hooks.h"
namespace qlten {
// Reads the simulated clock only.
class Timer {
 public:
  Timer() : Timer("") {}
  explicit Timer(const std::string &n) : n_(n) { t0_ = sim::TimerRead(); }
  void Start() { t0_ = sim::TimerRead(); acc_ = 0; on_ = true; }
  void Suspend() { if (on_) acc_ += sim::TimerRead() - t0_; on_ = false; }
  void Restart() { t0_ = sim::TimerRead(); on_ = true; }
  void Clear() { acc_ = 0; t0_ = sim::TimerRead(); }
  void ClearAndRestart() { acc_ = 0; Restart(); }
  double Elapsed() { return acc_ + (on_ ? sim::TimerRead() - t0_ : 0); }
  double PrintElapsed(std::size_t = 5) { return Elapsed(); }
  void PrintElapsed(std::size_t, const std::string &) {}
 private:
  std::string n_;
  double t0_ = 0, acc_ = 0;
  bool on_ = true;
};
inline double GetTime() { return sim::TimerRead(); }
}
#endif
