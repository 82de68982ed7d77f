// Stand-in for the ifopt headers (not installable here): the classes the library derives
// from, with ifopt's documented semantics, and a "solver" that hands the posed problem to
// a monitor.
#pragma once
#include <eigen3/Eigen/Dense>
#include <eigen3/Eigen/Sparse>
#include <functional>
#include <iostream>
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
namespace ifopt {
static constexpr double inf = 1.0e20;
struct Bounds {
  Bounds(double lower = 0.0, double upper = 0.0) : lower_(lower), upper_(upper) {}
  double lower_, upper_;
};
static const Bounds NoBound = Bounds(-inf, +inf);
static const Bounds BoundZero = Bounds(0.0, 0.0);
static const Bounds BoundGreaterZero = Bounds(0.0, +inf);
static const Bounds BoundSmallerZero = Bounds(-inf, 0.0);

class Component {
 public:
  using Ptr = std::shared_ptr<Component>;
  using Jacobian = Eigen::SparseMatrix<double, Eigen::RowMajor>;
  using VectorXd = Eigen::VectorXd;
  using VecBound = std::vector<Bounds>;
  Component(int num_rows, const std::string& name) : num_rows_(num_rows), name_(name) {}
  virtual ~Component() = default;
  virtual VectorXd GetValues() const = 0;
  virtual VecBound GetBounds() const = 0;
  virtual void SetVariables(const VectorXd& x) = 0;
  virtual Jacobian GetJacobian() const = 0;
  int GetRows() const { return num_rows_; }
  std::string GetName() const { return name_; }
  virtual void Print(double, int&) const {}
  void SetRows(int n) { num_rows_ = n; }
  static const int kSpecifyLater = -1;

 private:
  int num_rows_;
  std::string name_;
};

class Composite : public Component {
 public:
  using Ptr = std::shared_ptr<Composite>;
  using ComponentVec = std::vector<Component::Ptr>;
  Composite(const std::string& name, bool is_cost) : Component(0, name), is_cost_(is_cost) {}
  VectorXd GetValues() const override {
    VectorXd g = VectorXd::Zero(GetRows());
    int row = 0;
    for (const auto& c : components_) {
      VectorXd v = c->GetValues();
      g.middleRows(row, c->GetRows()) += v;
      if (!is_cost_) row += c->GetRows();
    }
    return g;
  }
  Jacobian GetJacobian() const override {
    int cols = components_.empty() ? 0 : (int)components_.front()->GetJacobian().cols();
    Jacobian jac(GetRows(), cols);
    int row = 0;
    std::vector<Eigen::Triplet<double>> t;
    for (const auto& c : components_) {
      const Jacobian j = c->GetJacobian();
      for (int k = 0; k < j.outerSize(); ++k)
        for (Jacobian::InnerIterator it(j, k); it; ++it) t.emplace_back(row + (int)it.row(), (int)it.col(), it.value());
      if (!is_cost_) row += c->GetRows();
    }
    jac.setFromTriplets(t.begin(), t.end());
    return jac;
  }
  VecBound GetBounds() const override {
    VecBound b;
    for (const auto& c : components_) { VecBound v = c->GetBounds(); b.insert(b.end(), v.begin(), v.end()); }
    return b;
  }
  void SetVariables(const VectorXd& x) override {
    int row = 0;
    for (auto& c : components_) { c->SetVariables(x.middleRows(row, c->GetRows())); row += c->GetRows(); }
  }
  void AddComponent(const Component::Ptr& c) {
    components_.push_back(c);
    SetRows(is_cost_ ? 1 : GetRows() + c->GetRows());
  }
  Component::Ptr GetComponent(std::string name) const {
    for (const auto& c : components_) if (c->GetName() == name) return c;
    throw std::runtime_error("component \"" + name + "\" does not exist");
  }
  template <typename T> std::shared_ptr<T> GetComponent(const std::string& name) const {
    return std::dynamic_pointer_cast<T>(GetComponent(name));
  }
  ComponentVec GetComponents() const { return components_; }
  void ClearComponents() { components_.clear(); SetRows(0); }

 private:
  ComponentVec components_;
  bool is_cost_;
};
}  // namespace ifopt
