#pragma once
#include <ifopt/constraint_set.h>
#include <ifopt/cost_term.h>
#include <ifopt/variable_set.h>
namespace ifopt {
class Problem {
 public:
  using VecBound = Component::VecBound;
  using Jacobian = Component::Jacobian;
  using VectorXd = Component::VectorXd;
  Problem() : variables_(std::make_shared<Composite>("variable-sets", false)), constraints_("constraint-sets", false), costs_("cost-terms", true) {}
  virtual ~Problem() = default;
  void AddVariableSet(VariableSet::Ptr v) { variables_->AddComponent(v); }
  void AddConstraintSet(ConstraintSet::Ptr c) { c->LinkWithVariables(variables_); constraints_.AddComponent(c); }
  void AddCostSet(CostTerm::Ptr c) { c->LinkWithVariables(variables_); costs_.AddComponent(c); }
  void SetVariables(const double* x) { variables_->SetVariables(Eigen::Map<const VectorXd>(x, variables_->GetRows())); }
  int GetNumberOfOptimizationVariables() const { return variables_->GetRows(); }
  int GetNumberOfConstraints() const { return constraints_.GetRows(); }
  bool HasCostTerms() const { return costs_.GetRows() > 0; }
  VecBound GetBoundsOnOptimizationVariables() const { return variables_->GetBounds(); }
  VecBound GetBoundsOnConstraints() const { return constraints_.GetBounds(); }
  VectorXd GetVariableValues() const { return variables_->GetValues(); }
  double EvaluateCostFunction(const double* x) {
    VectorXd g = VectorXd::Zero(1);
    if (HasCostTerms()) { SetVariables(x); g = costs_.GetValues(); }
    return g(0);
  }
  VectorXd EvaluateCostFunctionGradient(const double* x) {
    Jacobian jac = Jacobian(1, GetNumberOfOptimizationVariables());
    if (HasCostTerms()) { SetVariables(x); jac = costs_.GetJacobian(); }
    return jac.row(0).transpose();
  }
  VectorXd EvaluateConstraints(const double* x) { SetVariables(x); return constraints_.GetValues(); }
  Jacobian GetJacobianOfConstraints() const { return constraints_.GetJacobian(); }
  Jacobian GetJacobianOfCosts() const { return costs_.GetJacobian(); }
  Composite::Ptr GetOptVariables() const { return variables_; }
  const Composite& GetConstraints() const { return constraints_; }
  const Composite& GetCosts() const { return costs_; }
  void PrintCurrent() const {}

 private:
  Composite::Ptr variables_;
  Composite constraints_, costs_;
};
}  // namespace ifopt
