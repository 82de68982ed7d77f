#pragma once
#include <ifopt/composite.h>
namespace ifopt {
class ConstraintSet : public Component {
 public:
  using Ptr = std::shared_ptr<ConstraintSet>;
  using VariablesPtr = Composite::Ptr;
  ConstraintSet(int n_constraints, const std::string& name) : Component(n_constraints, name) {}
  void LinkWithVariables(const VariablesPtr& x) { variables_ = x; InitVariableDependedQuantities(x); }
  Jacobian GetJacobian() const final {
    Jacobian jacobian(GetRows(), variables_->GetRows());
    int col = 0;
    std::vector<Eigen::Triplet<double>> t;
    for (const auto& vars : variables_->GetComponents()) {
      int n = vars->GetRows();
      Jacobian jac;
      jac.resize(GetRows(), n);
      FillJacobianBlock(vars->GetName(), jac);
      for (int k = 0; k < jac.outerSize(); ++k)
        for (Jacobian::InnerIterator it(jac, k); it; ++it) t.emplace_back((int)it.row(), col + (int)it.col(), it.value());
      col += n;
    }
    jacobian.setFromTriplets(t.begin(), t.end());
    return jacobian;
  }
  virtual void FillJacobianBlock(std::string var_set, Jacobian& jac_block) const = 0;

 protected:
  const VariablesPtr GetVariables() const { return variables_; }

 private:
  VariablesPtr variables_;
  virtual void InitVariableDependedQuantities(const VariablesPtr&) {}
  void SetVariables(const VectorXd&) final { throw std::runtime_error("not implemented for constraints"); }
};
}  // namespace ifopt
