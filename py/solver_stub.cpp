// Gives the stand-in ifopt solver a deterministic behaviour inside the Python extension.
#include <ifopt/ipopt_solver.h>
namespace {
struct Install {
  Install() {
    ifopt::IpoptSolver::monitor() = [](ifopt::IpoptSolver&, ifopt::Problem& p) {
      Eigen::VectorXd x = p.GetVariableValues();
      double s = x.sum();
      for (int it = 0; it < 4; it++) {
        double f0 = p.EvaluateCostFunction(x.data());
        Eigen::VectorXd g = p.EvaluateCostFunctionGradient(x.data());
        g.array() -= g.mean();
        double m = g.cwiseAbs().maxCoeff();
        if (!(m > 0)) break;
        Eigen::VectorXd y = x - 0.1 * x.minCoeff() / m * g;
        y *= s / y.sum();
        if (p.EvaluateCostFunction(y.data()) < f0) x = y;
      }
      p.SetVariables(x.data());
      return 0;
    };
  }
} install;
}  // namespace
