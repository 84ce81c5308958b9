#ifndef VP_QL_TIMER_H
#define VP_QL_TIMER_H
#include <chrono>
#include <iostream>
#include <string>
namespace qlten {
class Timer {
 public:
  Timer() { Restart(); }
  Timer(const std::string &n) : n_(n) { Restart(); }
  void Restart() { t_ = std::chrono::steady_clock::now(); }
  void Suspend() {}
  void Continue() {}
  void ClearAndRestart() { Restart(); }
  void Clear() { Restart(); }
  double Elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t_).count(); }
  double PrintElapsed(size_t = 5) { double e = Elapsed(); std::cout << "[timing] " << n_ << "\t" << e << std::endl; return e; }
 private:
  std::string n_; std::chrono::steady_clock::time_point t_;
};
}
#endif
