#pragma once
#include <ifopt/problem.h>
#include <map>
namespace ifopt {
class IpoptSolver {
 public:
  using Ptr = std::shared_ptr<IpoptSolver>;
  // the monitor that plays the optimizer: returns the status Ipopt would return
  static std::function<int(IpoptSolver&, Problem&)>& monitor() { static std::function<int(IpoptSolver&, Problem&)> f; return f; }
  void Solve(Problem& nlp) { status_ = monitor()(*this, nlp); }
  int GetReturnStatus() { return status_; }
  double GetTotalWallclockTime() { return 0; }
  void SetOption(const std::string& n, const std::string& v) { s_[n] = v; }
  void SetOption(const std::string& n, int v) { i_[n] = v; }
  void SetOption(const std::string& n, double v) { d_[n] = v; }
  std::map<std::string, std::string> s_;
  std::map<std::string, int> i_;
  std::map<std::string, double> d_;

 private:
  int status_ = -1;
};
}  // namespace ifopt
