From 1765f9c8900bfda4fbc3d295f0b7f70b07ee69d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:30 +0000
Subject: [PATCH 01/49] fix: BasisLegendre writes out of its buffers for
 dimension one and for derivative orders past the degree

---
 src/Basis/BasisLegendre.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Basis/BasisLegendre.cpp b/src/Basis/BasisLegendre.cpp
index 9c3b328..b901867 100644
--- a/src/Basis/BasisLegendre.cpp
+++ b/src/Basis/BasisLegendre.cpp
@@ -53,9 +53,15 @@ void BasisLegendre::eval_derivative_on_window(
   double aux = 0;
   double mutiplier = 1.0;
   _buff.setZero();
+  // the derivatives of order larger than the polynomial degree are zero
+  if (_deg >= get_dim()) {
+    return;
+  }
   buff_next.setZero();
   _buff(0) = 1.0;
-  _buff(1) = _s;
+  if (get_dim() > 1) {
+    _buff(1) = _s;
+  }
   for (unsigned int i = 1; i < get_dim() - 1; i++) {
     _buff(i + 1) =
         1.0 / ((double)i + 1.0) *
@@ -91,7 +97,9 @@ void BasisLegendre::eval_on_window(
     Eigen::Ref<Eigen::VectorXd, 0, Eigen::InnerStride<>> _buff) const {
   _buff.setZero();
   _buff(0) = 1.0;
-  _buff(1) = _s;
+  if (get_dim() > 1) {
+    _buff(1) = _s;
+  }
   for (std::size_t i = 1; i < get_dim() - 1; i++) {
     _buff(i + 1) =
         1.0 / ((double)i + 1.0) *
-- 
2.43.0


From ce8e5b555d5fac2c435aa36b48aad1799bd67f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:30 +0000
Subject: [PATCH 02/49] fix: Basis0101 derivative matrices of order three and
 higher are powers of the first one

---
 src/Basis/Basis0101.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Basis/Basis0101.cpp b/src/Basis/Basis0101.cpp
index fe4bd16..bc51254 100644
--- a/src/Basis/Basis0101.cpp
+++ b/src/Basis/Basis0101.cpp
@@ -169,8 +169,9 @@ Eigen::MatrixXd Basis0101::derivative_matrix_impl(std::size_t _deg) const {
 
   Q *= tauk;
 
+  const Eigen::MatrixXd first_derivative(Q);
   for (std::size_t i = 2; i <= _deg; i++) {
-    Q *= Q;
+    Q *= first_derivative;
   }
 
   return Q;
-- 
2.43.0


From a726370121bd007aa3c4460565f520c06ac13ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:09 +0000
Subject: [PATCH 03/49] fix: change of interpolation points zeroes the rows
 after the first coinciding node

---
 src/Basis/BasisLagrange.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Basis/BasisLagrange.cpp b/src/Basis/BasisLagrange.cpp
index 7c5e3d3..691926f 100644
--- a/src/Basis/BasisLagrange.cpp
+++ b/src/Basis/BasisLagrange.cpp
@@ -260,12 +260,12 @@ Eigen::MatrixXd BasisLagrange::change_interpolation_points(
   std::size_t book_m = _new_points.size();
   std::size_t book_n = _old_points.size();
   double t_book, s_book;
-  bool book_row_has_match = false;
 
   Eigen::MatrixXd result(book_m, book_n);
   Eigen::VectorXd bw = barycentric_weights(_old_points);
 
   for (std::size_t k = 0; k < book_m; k++) {
+    bool book_row_has_match = false;
     for (std::size_t j = 0; j < book_n; j++) {
       result(k, j) = 0.0;
       if (almost_equal(_new_points(k), _old_points(j), 1.0e-9)) {
-- 
2.43.0


From 8f3ddea02532508e1d44a3e9eb247d52b54bceac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:09 +0000
Subject: [PATCH 04/49] fix: Gram matrices of the derivatives of BasisLegendre
 use the transposed operator

---
 src/Basis/BasisLegendre.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Basis/BasisLegendre.cpp b/src/Basis/BasisLegendre.cpp
index b901867..ecbe880 100644
--- a/src/Basis/BasisLegendre.cpp
+++ b/src/Basis/BasisLegendre.cpp
@@ -28,8 +28,8 @@ BasisLegendre::BasisLegendre(std::size_t _dim)
 
   derivative_matrices_buffer_.push_back(l2normbase_matrix);
   for (std::size_t i = 1; i < _dim + 1; i++) {
-    derivative_matrices_buffer_.push_back(dmat * l2normbase_matrix *
-                                          dmat.transpose());
+    derivative_matrices_buffer_.push_back(dmat.transpose() *
+                                          l2normbase_matrix * dmat);
     dmat *= derivative_matrix_;
   }
   // get_derivative_matrix(get_dim());
-- 
2.43.0


From b47864f677aa67da88c166e8324d916301266a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:09 +0000
Subject: [PATCH 05/49] fix: Gram matrices of BasisLagrange are uninitialised
 off the diagonal and use the transposed operator

---
 src/Basis/BasisLagrange.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/Basis/BasisLagrange.cpp b/src/Basis/BasisLagrange.cpp
index 691926f..5b37069 100644
--- a/src/Basis/BasisLagrange.cpp
+++ b/src/Basis/BasisLagrange.cpp
@@ -40,19 +40,22 @@ BasisLagrange::BasisLagrange(Eigen::Ref<const Eigen::VectorXd> _domain_points)
 
   Eigen::MatrixXd dmat(derivative_matrix_);
 
+  // The Gauss-Lobatto rule with dim + 1 points integrates exactly the products
+  // of two functions of the basis
   Eigen::MatrixXd points_to_glp_matrix(change_interpolation_points(
-      _domain_points, collocation::legendre_gauss_lobatto_points(get_dim())));
+      _domain_points,
+      collocation::legendre_gauss_lobatto_points(get_dim() + 1)));
 
-  Eigen::MatrixXd l2normbase_matrix(get_dim(), get_dim());
-
-  l2normbase_matrix.diagonal() =
-      collocation::legendre_gauss_lobatto_weights(get_dim());
+  Eigen::MatrixXd l2normbase_matrix(
+      points_to_glp_matrix.transpose() *
+      collocation::legendre_gauss_lobatto_weights(get_dim() + 1).asDiagonal() *
+      points_to_glp_matrix);
 
   derivative_matrices_buffer_.push_back(l2normbase_matrix);
 
   for (std::size_t i = 1; i < get_dim() + 1; i++) {
-    derivative_matrices_buffer_.push_back(dmat * l2normbase_matrix *
-                                          dmat.transpose());
+    derivative_matrices_buffer_.push_back(dmat.transpose() *
+                                          l2normbase_matrix * dmat);
     dmat = derivative_matrix(domain_points_, i + 1);
   }
   // get_derivative_matrix(get_dim());
-- 
2.43.0


From 3062d17239bafca3547c08ade4b5eb7cdd5b052f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:01 +0000
Subject: [PATCH 06/49] fix: the Gram matrix of the second derivatives of
 Basis0101 has a wrong factor

---
 src/Basis/Basis0101.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Basis/Basis0101.cpp b/src/Basis/Basis0101.cpp
index bc51254..1d451a0 100644
--- a/src/Basis/Basis0101.cpp
+++ b/src/Basis/Basis0101.cpp
@@ -747,6 +747,9 @@ void compute_Qd2_block(double _tau, double _alpha,
   _res(5, 3) = 0;
   _res(5, 4) = 0;
   _res(5, 5) = 0;
+
+  // the expressions above are scaled by (_tau / 2)^2
+  _res *= pow(2.0 / _tau, 2);
 }
 
 void compute_Q_block(double _tau, double _alpha,
-- 
2.43.0


From d448515adaa897f20307b024cabfb6288ff8ecac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:15 +0000
Subject: [PATCH 07/49] fix: SobolevNorm applies each weight to the terms
 accumulated before it

---
 src/FunctionalAnalysis/Sobolev.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/FunctionalAnalysis/Sobolev.cpp b/src/FunctionalAnalysis/Sobolev.cpp
index 4fd654c..87254d5 100644
--- a/src/FunctionalAnalysis/Sobolev.cpp
+++ b/src/FunctionalAnalysis/Sobolev.cpp
@@ -50,8 +50,9 @@ void SobolevNorm::deriv_wrt_interval_len(
     // initialize the matrix buffers and compute the de matrix values
     matrix_.setZero();
     for (std::pair<std::size_t, double> w : weights_) {
-      basis_->add_derivative_matrix_deriv_wrt_tau(tau, w.first, matrix_);
-      matrix_ *= w.second;
+      matrix_2_.setZero();
+      basis_->add_derivative_matrix_deriv_wrt_tau(tau, w.first, matrix_2_);
+      matrix_ += w.second * matrix_2_;
     }
     // compute y^T dQdtau_i y
     for (codom_coor = 0; codom_coor < codom_dim_; codom_coor++) {
@@ -79,8 +80,9 @@ double SobolevNorm::inner_prod(
     matrix_.setZero();
     tau = _interval_lengths(interval_coor);
     for (std::pair<std::size_t, double> w : weights_) {
-      basis_->add_derivative_matrix(tau, w.first, matrix_);
-      matrix_ *= w.second;
+      matrix_2_.setZero();
+      basis_->add_derivative_matrix(tau, w.first, matrix_2_);
+      matrix_ += w.second * matrix_2_;
     }
     for (codom_coor = 0; codom_coor < codom_dim_; codom_coor++) {
       const Eigen::Ref<const Eigen::VectorXd> v1 = get_coefficient_segment(
-- 
2.43.0


From 5a096aed03abef53ba953462d91039998a0f0892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:12 +0000
Subject: [PATCH 08/49] fix: Gauss-Lobatto points of unequal intervals start at
 the wrong times

---
 src/Collocation/GaussLobattoPointsWeights.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Collocation/GaussLobattoPointsWeights.cpp b/src/Collocation/GaussLobattoPointsWeights.cpp
index 6cca8b7..f5ea7a1 100644
--- a/src/Collocation/GaussLobattoPointsWeights.cpp
+++ b/src/Collocation/GaussLobattoPointsWeights.cpp
@@ -190,10 +190,10 @@ legendre_gauss_lobatto_points(double _left_bound, std::size_t _nglp,
 
   for (long interval = 0; interval < _intervals.size(); interval++) {
 
-    double local_left_bound = left_bound + interval * _intervals[interval];
-
     result.segment(interval * _nglp, _nglp) =
-        (glp.array() + 1.0) * _intervals[interval] / 2.0 + local_left_bound;
+        (glp.array() + 1.0) * _intervals[interval] / 2.0 + left_bound;
+
+    left_bound += _intervals[interval];
   }
   return result;
 }
-- 
2.43.0


From 4924376c52c3a94c4c6c0d6efdd876c3da330dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:12 +0000
Subject: [PATCH 09/49] fix: Gauss-Lobatto rules with less than two points
 abort or return uninitialised weights

---
 src/Collocation/GaussLobattoPointsWeights.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Collocation/GaussLobattoPointsWeights.cpp b/src/Collocation/GaussLobattoPointsWeights.cpp
index f5ea7a1..de4f727 100644
--- a/src/Collocation/GaussLobattoPointsWeights.cpp
+++ b/src/Collocation/GaussLobattoPointsWeights.cpp
@@ -2,6 +2,7 @@
 
 #include <cmath>
 #include <gsplines/Collocation/GaussLobattoPointsWeights.hpp>
+#include <stdexcept>
 #include <tuple>
 #include <vector>
 
@@ -64,6 +65,11 @@ legendre_gauss_lobatto_points_and_weights(std::size_t _n) {
    *  Algorithm 25: LegendreGaussLobattoNodesAndWeights
    * */
 
+  if (_n < 2) {
+    throw std::invalid_argument(
+        "Gauss-Lobatto rules have at least two points");
+  }
+
   Eigen::VectorXd points(_n);
   Eigen::VectorXd weights(_n);
   double q;
-- 
2.43.0


From 0eeb98f265187e6b52dae8b1fcde5d147a5c38bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:15 +0000
Subject: [PATCH 10/49] fix: negation of an expression that is not a single
 function evaluates to something else or aborts

---
 src/Functions/FunctionMul.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/Functions/FunctionMul.cpp b/src/Functions/FunctionMul.cpp
index 9383f1a..3caa762 100644
--- a/src/Functions/FunctionMul.cpp
+++ b/src/Functions/FunctionMul.cpp
@@ -141,16 +141,30 @@ FunctionExpression::operator*(FunctionExpression &&_that) && {
 }
 FunctionExpression FunctionExpression::operator-() const & {
 
+  if (get_type() == UNIQUE) {
+    return FunctionExpression(get_domain(), get_codom_dim(),
+                              FunctionExpression::Type::NEGATIVE,
+                              function_array_);
+  }
+  std::list<std::unique_ptr<FunctionBase>> result_array;
+  result_array.push_back(this->clone());
   return FunctionExpression(get_domain(), get_codom_dim(),
                             FunctionExpression::Type::NEGATIVE,
-                            function_array_);
+                            std::move(result_array));
 }
 
 FunctionExpression FunctionExpression::operator-() && {
 
+  if (get_type() == UNIQUE) {
+    return FunctionExpression(get_domain(), get_codom_dim(),
+                              FunctionExpression::Type::NEGATIVE,
+                              std::move(function_array_));
+  }
+  std::list<std::unique_ptr<FunctionBase>> result_array;
+  result_array.push_back(this->move_clone());
   return FunctionExpression(get_domain(), get_codom_dim(),
                             FunctionExpression::Type::NEGATIVE,
-                            std::move(function_array_));
+                            std::move(result_array));
 }
 
 FunctionExpression operator*(double _value, const FunctionExpression &_that) {
-- 
2.43.0


From 6acb0e279f1a89896328da99883527664e6e773e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:49 +0000
Subject: [PATCH 11/49] fix: composing or concatenating onto a temporary of the
 same kind keeps the old domain

---
 src/Functions/FunctionsComp.cpp   | 1 +
 src/Functions/FunctionsConcat.cpp | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Functions/FunctionsComp.cpp b/src/Functions/FunctionsComp.cpp
index 8666a04..bd0f7b6 100644
--- a/src/Functions/FunctionsComp.cpp
+++ b/src/Functions/FunctionsComp.cpp
@@ -96,6 +96,7 @@ FunctionExpression::compose(const FunctionExpression &_that) && {
     } else {
       function_array_.push_front(_that.clone());
     }
+    set_domain(_that.get_domain().first, _that.get_domain().second);
     return std::move(*this);
   }
 
diff --git a/src/Functions/FunctionsConcat.cpp b/src/Functions/FunctionsConcat.cpp
index 094ca37..3048e14 100644
--- a/src/Functions/FunctionsConcat.cpp
+++ b/src/Functions/FunctionsConcat.cpp
@@ -97,8 +97,10 @@ FunctionExpression::concat(const FunctionExpression &_that) && {
     target_array.push_back(_that.clone());
   }
 
-  if (get_type() == CONCATENATION)
+  if (get_type() == CONCATENATION) {
+    set_domain(get_domain().first, _that.get_domain().second);
     return std::move(*this);
+  }
 
   target_array.push_front(this->move_clone());
 
@@ -124,8 +126,10 @@ FunctionExpression FunctionExpression::concat(FunctionExpression &&_that) && {
     target_array.push_back(_that.move_clone());
   }
 
-  if (get_type() == CONCATENATION)
+  if (get_type() == CONCATENATION) {
+    set_domain(get_domain().first, _that.get_domain().second);
     return std::move(*this);
+  }
 
   target_array.push_front(this->move_clone());
   return FunctionExpression(
-- 
2.43.0


From 81ccf746ceaa473a365418d5d970a6edfbd1b7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:05 +0000
Subject: [PATCH 12/49] fix: += and *= accept incompatible functions and *= by
 a vector function keeps the scalar codomain

---
 include/gsplines/Functions/FunctionBase.hpp |  1 +
 src/Functions/FunctionMul.cpp               | 18 ++++++++++++++++--
 src/Functions/FunctionSum.cpp               |  2 ++
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/gsplines/Functions/FunctionBase.hpp b/include/gsplines/Functions/FunctionBase.hpp
index 745f5f9..1ee4705 100644
--- a/include/gsplines/Functions/FunctionBase.hpp
+++ b/include/gsplines/Functions/FunctionBase.hpp
@@ -137,6 +137,7 @@ class FunctionBase {
   void set_domain(const std::pair<double, double>& _new_domain) {
     domain_ = _new_domain;
   }
+  void set_codom_dim(std::size_t _codom_dim) { codom_dim_ = _codom_dim; }
 
   virtual FunctionBase* clone_impl() const = 0;
 
diff --git a/src/Functions/FunctionMul.cpp b/src/Functions/FunctionMul.cpp
index 3caa762..75d13d6 100644
--- a/src/Functions/FunctionMul.cpp
+++ b/src/Functions/FunctionMul.cpp
@@ -177,6 +177,7 @@ FunctionExpression operator*(double _value, FunctionExpression &&_that) {
 }
 
 void FunctionExpression::operator*=(FunctionExpression &&that) {
+  compatibility_mul(*this, that);
   Type initial_type = get_type();
   if (initial_type == UNIQUE) {
     type_ = MULTIPLICATION;
@@ -188,11 +189,18 @@ void FunctionExpression::operator*=(FunctionExpression &&that) {
     initialize();
     function_array_.push_back(aux.move_clone());
   }
-  function_array_.push_back(that.move_clone());
+  // NOTE: the first element of function_array_ has the larger codomain dimension
+  if (that.get_codom_dim() > get_codom_dim()) {
+    set_codom_dim(that.get_codom_dim());
+    function_array_.push_front(that.move_clone());
+  } else {
+    function_array_.push_back(that.move_clone());
+  }
 }
 
 void FunctionExpression::operator*=(const FunctionExpression &that) {
 
+  compatibility_mul(*this, that);
   Type initial_type = get_type();
   if (initial_type == UNIQUE) {
     type_ = MULTIPLICATION;
@@ -204,7 +212,13 @@ void FunctionExpression::operator*=(const FunctionExpression &that) {
     initialize();
     function_array_.push_back(aux.move_clone());
   }
-  function_array_.push_back(that.clone());
+  // NOTE: the first element of function_array_ has the larger codomain dimension
+  if (that.get_codom_dim() > get_codom_dim()) {
+    set_codom_dim(that.get_codom_dim());
+    function_array_.push_front(that.clone());
+  } else {
+    function_array_.push_back(that.clone());
+  }
 }
 /* -----
  *  FunctionExpression Evaluation
diff --git a/src/Functions/FunctionSum.cpp b/src/Functions/FunctionSum.cpp
index fea1634..1ed229d 100644
--- a/src/Functions/FunctionSum.cpp
+++ b/src/Functions/FunctionSum.cpp
@@ -137,6 +137,7 @@ FunctionExpression *deriv_sum_functions(
 }
 
 void FunctionExpression::operator+=(FunctionExpression &&that) {
+  sum_throw(*this, that);
   Type initial_type = get_type();
   if (initial_type == UNIQUE) {
     type_ = SUM;
@@ -153,6 +154,7 @@ void FunctionExpression::operator+=(FunctionExpression &&that) {
 
 void FunctionExpression::operator+=(const FunctionExpression &that) {
 
+  sum_throw(*this, that);
   Type initial_type = get_type();
   if (initial_type == UNIQUE) {
     type_ = SUM;
-- 
2.43.0


From d8d8de229958c18b9e2529b8b159c3ccc160c0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:05 +0000
Subject: [PATCH 13/49] fix: the product of two expressions prints a debugging
 line on standard output

---
 src/Functions/FunctionMul.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/Functions/FunctionMul.cpp b/src/Functions/FunctionMul.cpp
index 75d13d6..5da78d8 100644
--- a/src/Functions/FunctionMul.cpp
+++ b/src/Functions/FunctionMul.cpp
@@ -49,8 +49,6 @@ return_second_or_mim_codom_dim(const FunctionExpression &_f1,
 FunctionExpression
 FunctionExpression::operator*(const FunctionExpression &_that) const & {
 
-  printf("FunctionExpression::operator*(const FunctionExpression &_that) const "
-         "&\n");
   compatibility_mul(*this, _that);
 
   const FunctionExpression &f_vector =
-- 
2.43.0


From d1504f03c86828d0a35b2b96b6cca565333f0f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:49 +0000
Subject: [PATCH 14/49] fix: scaling to velocity and acceleration limits fails
 when only one of them is given and samples a single point for long steps

---
 include/gsplines/GSpline.hpp | 55 +++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/include/gsplines/GSpline.hpp b/include/gsplines/GSpline.hpp
index 07692ea..9dc4ab2 100644
--- a/include/gsplines/GSpline.hpp
+++ b/include/gsplines/GSpline.hpp
@@ -292,13 +292,17 @@ class GSplineInheritanceHelper
     if (_dt < 1.0e-8) {
       throw std::invalid_argument("dt cannot be negative or too small");
     }
-    if (_velocity_bound.value().size() != this->get_codom_dim() ||
-        _acceleration_bound.value().size() != this->get_codom_dim()) {
+    if ((_velocity_bound.has_value() &&
+         _velocity_bound->size() != this->get_codom_dim()) ||
+        (_acceleration_bound.has_value() &&
+         _acceleration_bound->size() != this->get_codom_dim())) {
       throw std::invalid_argument(
           "Bounds for velocity and acceleration must correspont to codom dim");
     }
 
-    std::size_t number_of_segments = this->get_domain_length() / _dt;
+    const std::size_t number_of_segments = std::max(
+        std::size_t{1},
+        static_cast<std::size_t>(std::ceil(this->get_domain_length() / _dt)));
     const double t0 = this->get_domain().first;
     const double t1 = this->get_domain().second;
     const Eigen::VectorXd time_spam = Eigen::VectorXd::LinSpaced(
@@ -309,26 +313,31 @@ class GSplineInheritanceHelper
     const gsplines::functions::FunctionExpression gspline_diff_2 =
         gspline_diff_1.derivate();
 
-    Eigen::MatrixXd gspline_diff_1_evaluated = gspline_diff_1(time_spam);
-    Eigen::MatrixXd gspline_diff_2_evaluated = gspline_diff_2(time_spam);
-
-    const Eigen::Map<const Eigen::VectorXd> velocity_bound(
-        _velocity_bound.value().data(),
-        static_cast<long>(_velocity_bound.value().size()));
-    const Eigen::Map<const Eigen::VectorXd> acceleration_bound(
-        _acceleration_bound.value().data(),
-        static_cast<long>(_acceleration_bound.value().size()));
-
-    const double max_velocity_ratio =
-        (gspline_diff_1_evaluated.array().abs().colwise().maxCoeff() /
-         velocity_bound.transpose().array())
-            .maxCoeff();
-
-    const double max_acceleration_ratio =
-        Eigen::sqrt(
-            gspline_diff_2_evaluated.array().abs().colwise().maxCoeff() /
-            acceleration_bound.transpose().array())
-            .maxCoeff();
+    double max_velocity_ratio = 0.0;
+    if (_velocity_bound.has_value()) {
+      const Eigen::MatrixXd gspline_diff_1_evaluated =
+          gspline_diff_1(time_spam);
+      const Eigen::Map<const Eigen::VectorXd> velocity_bound(
+          _velocity_bound->data(), static_cast<long>(_velocity_bound->size()));
+      max_velocity_ratio =
+          (gspline_diff_1_evaluated.array().abs().colwise().maxCoeff() /
+           velocity_bound.transpose().array())
+              .maxCoeff();
+    }
+
+    double max_acceleration_ratio = 0.0;
+    if (_acceleration_bound.has_value()) {
+      const Eigen::MatrixXd gspline_diff_2_evaluated =
+          gspline_diff_2(time_spam);
+      const Eigen::Map<const Eigen::VectorXd> acceleration_bound(
+          _acceleration_bound->data(),
+          static_cast<long>(_acceleration_bound->size()));
+      max_acceleration_ratio =
+          Eigen::sqrt(
+              gspline_diff_2_evaluated.array().abs().colwise().maxCoeff() /
+              acceleration_bound.transpose().array())
+              .maxCoeff();
+    }
 
     const double time_scale_factor =
         std::max(max_velocity_ratio, max_acceleration_ratio);
-- 
2.43.0


From 4e50992a21c3b7ec565b4165076ef38839928ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:49 +0000
Subject: [PATCH 15/49] fix: += and -= of splines do not compile

---
 include/gsplines/GSpline.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gsplines/GSpline.hpp b/include/gsplines/GSpline.hpp
index 9dc4ab2..551c8f1 100644
--- a/include/gsplines/GSpline.hpp
+++ b/include/gsplines/GSpline.hpp
@@ -218,7 +218,7 @@ class GSplineInheritanceHelper
       throw std::invalid_argument("Cannot sum Incompatible Gspline");
     }
     Base::coefficients_ += that.coefficients_;
-    return *this;
+    return static_cast<Current&>(*this);
   }
 
   Current& operator-=(const Current& that) {
@@ -227,7 +227,7 @@ class GSplineInheritanceHelper
     }
 
     Base::coefficients_ -= that.coefficients_;
-    return *this;
+    return static_cast<Current&>(*this);
   }
 
   Current linear_scaling_new_execution_time(double _new_exec_time) const {
-- 
2.43.0


From 9d3811081c099da4fc9afefc0c2a1620c69dda02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:49 +0000
Subject: [PATCH 16/49] fix: splines that start at different times compare
 equal and can be summed

---
 src/GSpline.cpp | 1 +
 src/Tools.cpp   | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/GSpline.cpp b/src/GSpline.cpp
index 7231b74..8a5d063 100644
--- a/src/GSpline.cpp
+++ b/src/GSpline.cpp
@@ -196,6 +196,7 @@ Eigen::MatrixXd GSplineBase::get_waypoints() const {
 bool GSplineBase::same_vector_space(const GSplineBase& _that) const {
   return get_basis() == _that.get_basis() and
          get_codom_dim() == _that.get_codom_dim() and
+         functions::FunctionBase::same_domain(*this, _that) and
          tools::approx_equal(get_interval_lengths(),
                              _that.get_interval_lengths(), 1.0e-8);
 }
diff --git a/src/Tools.cpp b/src/Tools.cpp
index dd69101..e58e58b 100644
--- a/src/Tools.cpp
+++ b/src/Tools.cpp
@@ -50,6 +50,8 @@ bool approx_equal(const GSplineBase &_lhs, const GSplineBase &_rhs,
                       _tol) and
          approx_equal(_lhs.get_interval_lengths(), _rhs.get_interval_lengths(),
                       _tol) and
+         approx_equal(_lhs.get_domain().first, _rhs.get_domain().first,
+                      _tol) and
          _lhs.get_basis() == _rhs.get_basis();
 }
 
-- 
2.43.0


From 1ed9770b6bd2b41876791b2607650298c43b2634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:16 +0000
Subject: [PATCH 17/49] fix: dot products of functions with different domains
 or codomains and integrals of vector functions abort or return garbage

---
 src/FunctionalAnalysis/Integral.cpp  |  5 ++++-
 src/Functions/ElementalFunctions.cpp | 15 ++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/FunctionalAnalysis/Integral.cpp b/src/FunctionalAnalysis/Integral.cpp
index fb2625d..fed2e9f 100644
--- a/src/FunctionalAnalysis/Integral.cpp
+++ b/src/FunctionalAnalysis/Integral.cpp
@@ -1,5 +1,6 @@
 #include <gsplines/Collocation/GaussLobattoPointsWeights.hpp>
 #include <gsplines/FunctionalAnalysis/Integral.hpp>
+#include <stdexcept>
 
 namespace gsplines {
 namespace functional_analysis {
@@ -7,7 +8,9 @@ namespace functional_analysis {
 double integral(const functions::FunctionBase &_in, std::size_t _n_glp,
                 std::size_t _n_int) {
 
-  assert(_in.get_codom_dim() == 1);
+  if (_in.get_codom_dim() != 1) {
+    throw std::invalid_argument("Only scalar functions can be integrated");
+  }
 
   Eigen::VectorXd glp;
   Eigen::VectorXd glw;
diff --git a/src/Functions/ElementalFunctions.cpp b/src/Functions/ElementalFunctions.cpp
index e69afe5..f5cffd6 100644
--- a/src/Functions/ElementalFunctions.cpp
+++ b/src/Functions/ElementalFunctions.cpp
@@ -194,24 +194,33 @@ CanonicPolynomial *CanonicPolynomial::deriv_impl(std::size_t _deg) const {
   return new CanonicPolynomial(get_domain(), std::move(result.head(vsize)));
 } // namespace functions
 
+void dot_throw(const FunctionBase &_f1, const FunctionBase &_f2) {
+  if (not FunctionBase::same_domain(_f1, _f2)) {
+    throw std::invalid_argument("Functions with different domains");
+  }
+  if (not FunctionBase::same_codomain(_f1, _f2)) {
+    throw std::invalid_argument("Functions with different codomains");
+  }
+}
+
 DotProduct::DotProduct(const FunctionBase &_f1, const FunctionBase &_f2)
     : FunctionInheritanceHelper(_f1.get_domain(), 1, "DotProduct"),
       f1_(_f1.to_expression()), f2_(_f2.to_expression()) {
 
-  assert(_f1.get_codom_dim() == _f2.get_codom_dim());
+  dot_throw(f1_, f2_);
 }
 DotProduct::DotProduct(FunctionBase &&_f1, FunctionBase &&_f2)
     : FunctionInheritanceHelper(_f1.get_domain(), 1, "DotProduct"),
       f1_(_f1.to_expression()), f2_(_f2.to_expression()) {
 
-  assert(_f1.get_codom_dim() == _f2.get_codom_dim());
+  dot_throw(f1_, f2_);
 }
 
 DotProduct::DotProduct(const FunctionBase &_f1, FunctionBase &&_f2)
     : FunctionInheritanceHelper(_f1.get_domain(), 1, "DotProduct"),
       f1_(_f1.to_expression()), f2_(_f2.to_expression()) {
 
-  assert(_f1.get_codom_dim() == _f2.get_codom_dim());
+  dot_throw(f1_, f2_);
 }
 
 DotProduct::DotProduct(const DotProduct &_that)
-- 
2.43.0


From 71577c7f9af22571b4b4cbdebe4446b0f796c649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:16 +0000
Subject: [PATCH 18/49] fix: a function with a reversed domain aborts or is
 accepted

---
 src/Functions/FunctionBase.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Functions/FunctionBase.cpp b/src/Functions/FunctionBase.cpp
index 2f3b5dc..7289eda 100644
--- a/src/Functions/FunctionBase.cpp
+++ b/src/Functions/FunctionBase.cpp
@@ -14,7 +14,9 @@ FunctionBase::FunctionBase(std::pair<double, double> _domain,
                            std::size_t _codom_dim, const std::string &_name)
     : codom_dim_(_codom_dim), window_(_domain), domain_(_domain), name_(_name) {
 
-  assert(_domain.first <= _domain.second);
+  if (_domain.first > _domain.second) {
+    throw std::invalid_argument("The domain ends before it starts");
+  }
 }
 
 FunctionBase::FunctionBase(const FunctionBase &that)
-- 
2.43.0


From 4e8c5aef1e76043214aff301bc62f32c761a982c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:02 +0000
Subject: [PATCH 19/49] fix: random_gspline ignores the start of the requested
 domain

---
 src/GSpline.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/GSpline.cpp b/src/GSpline.cpp
index 8a5d063..ac8230a 100644
--- a/src/GSpline.cpp
+++ b/src/GSpline.cpp
@@ -243,8 +243,12 @@ GSpline random_gspline(std::pair<double, double> _domain,
       3 * Eigen::MatrixXd::Random(static_cast<long>(number_of_intervals) + 1,
                                   static_cast<long>(_codom_dim));
 
-  const GSpline result = interpolate(tau, wp, _basis);
-  return result.linear_scaling_new_execution_time(_domain.second);
+  const GSpline result =
+      interpolate(tau, wp, _basis)
+          .linear_scaling_new_execution_time(_domain.second - _domain.first);
+  return GSpline(_domain, _codom_dim, number_of_intervals, result.get_basis(),
+                 result.get_coefficients(), result.get_interval_lengths(),
+                 result.get_name());
 }
 
 }  // namespace gsplines
-- 
2.43.0


From 675d8a4e62470050a4bfa3599a9e2bd4ff5eaa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:44 +0000
Subject: [PATCH 20/49] fix: splines accept interval lengths that are not
 positive or whose number is wrong

---
 src/GSpline.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/GSpline.cpp b/src/GSpline.cpp
index ac8230a..0245c49 100644
--- a/src/GSpline.cpp
+++ b/src/GSpline.cpp
@@ -50,6 +50,16 @@ GSplineBase::GSplineBase(std::pair<double, double> _domain,
       domain_interval_lengths_(_tauv),
       basis_(_basis.clone()),
       basis_buffer_(basis_->get_dim()) {
+  if (domain_interval_lengths_.size() != (long)_n_intervals) {
+    throw std::invalid_argument(
+        "GSplineBase instantation Error: " + std::to_string(_n_intervals) +
+        " interval lengths are required but " +
+        std::to_string(domain_interval_lengths_.size()) + " were given");
+  }
+  if ((domain_interval_lengths_.array() <= 0.0).any()) {
+    throw std::invalid_argument(
+        "GSplineBase instantation Error: interval lengths must be positive");
+  }
   if (coefficients_.size() !=
       (long)(_n_intervals * basis_->get_dim() * _codom_dim)) {
     throw std::invalid_argument(
@@ -74,6 +84,16 @@ GSplineBase::GSplineBase(std::pair<double, double> _domain,
       domain_interval_lengths_(std::move(_tauv)),
       basis_(_basis.clone()),
       basis_buffer_(basis_->get_dim()) {
+  if (domain_interval_lengths_.size() != (long)_n_intervals) {
+    throw std::invalid_argument(
+        "GSplineBase instantation Error: " + std::to_string(_n_intervals) +
+        " interval lengths are required but " +
+        std::to_string(domain_interval_lengths_.size()) + " were given");
+  }
+  if ((domain_interval_lengths_.array() <= 0.0).any()) {
+    throw std::invalid_argument(
+        "GSplineBase instantation Error: interval lengths must be positive");
+  }
   if (coefficients_.size() !=
       (long)(_n_intervals * basis_->get_dim() * _codom_dim)) {
     throw std::invalid_argument(
-- 
2.43.0


From e25966a76dd4f320c0231ad946281be4d9eb1946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:44 +0000
Subject: [PATCH 21/49] fix: interpolators accept waypoints of other dimensions
 and return stale results for invalid requests

---
 src/Interpolator.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/Interpolator.cpp b/src/Interpolator.cpp
index ef00399..d24d345 100644
--- a/src/Interpolator.cpp
+++ b/src/Interpolator.cpp
@@ -17,6 +17,10 @@ Interpolator::Interpolator(std::size_t _codom_dim, std::size_t _num_intervals,
     throw std::invalid_argument(
         "Interpolator: The dimension of the basis must be pair");
   }
+  if (_num_intervals == 0 or _codom_dim == 0) {
+    throw std::invalid_argument(
+        "Interpolator: At least one interval and one component are required");
+  }
   interpolating_matrix_.resize(matrix_size_, matrix_size_);
   interpolating_vector_.resize(matrix_size_);
   interpolating_vector_.setZero();
@@ -260,10 +264,10 @@ Eigen::Ref<const Eigen::VectorXd> Interpolator::get_coeff_derivative_wrt_tau(
     throw std::invalid_argument(
         "get_coeff_derivative_wrt_tau: Interval lenghts cannot be negative !");
   }
-  if (_interval_lengths.size() != (long)num_intervals_ or _tau_idx < 0 or
-      _tau_idx >= num_intervals_) {
-    fprintf(stderr, "Cannot compute derivative of coefficients wrt tau ");
-    return coefficients_vector_;
+  if (_interval_lengths.size() != (long)num_intervals_ or
+      _coeff.size() != (long)matrix_size_ or _tau_idx >= num_intervals_) {
+    throw std::invalid_argument(
+        "Cannot compute derivative of coefficients wrt tau ");
   }
 
   Eigen::SparseMatrix<double> &mat = interpolation_matrix_ders_[_tau_idx];
@@ -350,6 +354,11 @@ const Eigen::Ref<const Eigen::VectorXd> Interpolator::solve_interpolation(
   if ((_interval_lengths.array() < 1.0e-6).any()) {
     throw std::invalid_argument(" Interval lenghts cannot be negative !");
   }
+  if (_waypoints.rows() != (long)num_intervals_ + 1 or
+      _waypoints.cols() != (long)codom_dim_) {
+    throw std::invalid_argument(
+        "The dimensions of the waypoints do not match the interpolator");
+  }
   // 1. fill the interpolating matrix
   fill_interpolating_matrix(_interval_lengths);
   // 2. fill the interpolating vector
@@ -362,7 +371,7 @@ const Eigen::Ref<const Eigen::VectorXd> Interpolator::solve_interpolation(
     print_info();
     std::cout << "interval lengths:\n" << _interval_lengths.transpose() << "\n";
     print_interpolating_matrix();
-    return sol_buffer_;
+    throw std::runtime_error("The interpolation problem cannot be solved");
   }
   sol_buffer_ = solver.solve(interpolating_vector_);
   // 4. Return the interpolating function
-- 
2.43.0


From ec3e0671eea2bb3b496eec91f1c0d4dbb8995370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:44 +0000
Subject: [PATCH 22/49] fix: the product of collocation splines accepts
 different breakpoints

---
 src/Collocation/GaussLobattoLagrange.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Collocation/GaussLobattoLagrange.cpp b/src/Collocation/GaussLobattoLagrange.cpp
index a856c26..b730168 100644
--- a/src/Collocation/GaussLobattoLagrange.cpp
+++ b/src/Collocation/GaussLobattoLagrange.cpp
@@ -225,7 +225,9 @@ GaussLobattoLagrangeSpline GaussLobattoLagrangeSpline::operator*(
 
   if (not same_discretization(_that))
     throw std::invalid_argument("Discretization must be the same");
-  if (not same_domain(_that))
+  if (not same_domain(_that) or
+      not tools::approx_equal(get_interval_lengths(),
+                              _that.get_interval_lengths(), 1.0e-8))
     throw std::invalid_argument("GSplines must have same domain");
   if (not(get_codom_dim() == 1 or _that.get_codom_dim() == 1))
     throw std::invalid_argument("Multiplication can be only done by scalars");
@@ -253,7 +255,9 @@ GaussLobattoLagrangeSpline GaussLobattoLagrangeSpline::operator*(
 
   if (not same_discretization(_that))
     throw std::invalid_argument("Discretization must be the same");
-  if (not same_domain(_that))
+  if (not same_domain(_that) or
+      not tools::approx_equal(get_interval_lengths(),
+                              _that.get_interval_lengths(), 1.0e-8))
     throw std::invalid_argument("GSplines must have same domain");
   if (not(get_codom_dim() == 1 or _that.get_codom_dim() == 1))
     throw std::invalid_argument("Multiplication can be only done by scalars");
@@ -293,7 +297,9 @@ GaussLobattoLagrangeSpline GaussLobattoLagrangeSpline::operator*(
 
   if (not same_discretization(_that))
     throw std::invalid_argument("Discretization must be the same");
-  if (not same_domain(_that))
+  if (not same_domain(_that) or
+      not tools::approx_equal(get_interval_lengths(),
+                              _that.get_interval_lengths(), 1.0e-8))
     throw std::invalid_argument("GSplines must have same domain");
   if (not(get_codom_dim() == 1 or _that.get_codom_dim() == 1))
     throw std::invalid_argument("Multiplication can be only done by scalars");
@@ -333,7 +339,9 @@ GaussLobattoLagrangeSpline::operator*(GaussLobattoLagrangeSpline &&_that) && {
 
   if (not same_discretization(_that))
     throw std::invalid_argument("Discretization must be the same");
-  if (not same_domain(_that))
+  if (not same_domain(_that) or
+      not tools::approx_equal(get_interval_lengths(),
+                              _that.get_interval_lengths(), 1.0e-8))
     throw std::invalid_argument("GSplines must have same domain");
   if (not(get_codom_dim() == 1 or _that.get_codom_dim() == 1))
     throw std::invalid_argument("Multiplication can be only done by scalars");
-- 
2.43.0


From b90f60185ce6fcfbf73173a709505a66dc71f303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:44 +0000
Subject: [PATCH 23/49] fix: assignment of collocation splines keeps the old
 interval lengths

---
 src/Collocation/GaussLobattoLagrange.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Collocation/GaussLobattoLagrange.cpp b/src/Collocation/GaussLobattoLagrange.cpp
index b730168..ae7d323 100644
--- a/src/Collocation/GaussLobattoLagrange.cpp
+++ b/src/Collocation/GaussLobattoLagrange.cpp
@@ -67,6 +67,7 @@ GaussLobattoLagrangeSpline &GaussLobattoLagrangeSpline::operator=(
 
   set_domain(_that.get_domain());
 
+  domain_interval_lengths_ = _that.domain_interval_lengths_;
   coefficients_ = _that.coefficients_;
   return *this;
 }
@@ -81,6 +82,7 @@ GaussLobattoLagrangeSpline::operator=(GaussLobattoLagrangeSpline &&_that) & {
     throw std::invalid_argument("Assigmention requires same codomain");
 
   set_domain(_that.get_domain());
+  domain_interval_lengths_ = _that.domain_interval_lengths_;
   coefficients_ = std::move(_that.coefficients_);
   return *this;
 }
-- 
2.43.0


From e12ff4134af75f96915a60c7ca478a392fe9854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:44 +0000
Subject: [PATCH 24/49] fix: the collocation spline of a function swaps the
 numbers of nodes and intervals

---
 src/Collocation/GaussLobattoLagrange.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Collocation/GaussLobattoLagrange.cpp b/src/Collocation/GaussLobattoLagrange.cpp
index ae7d323..9c33124 100644
--- a/src/Collocation/GaussLobattoLagrange.cpp
+++ b/src/Collocation/GaussLobattoLagrange.cpp
@@ -55,7 +55,7 @@ GaussLobattoLagrangeSpline::GaussLobattoLagrangeSpline(GSpline &&_that)
 GaussLobattoLagrangeSpline::GaussLobattoLagrangeSpline(
     const ::gsplines::functions::FunctionBase &_that, std::size_t _n_intervals,
     std::size_t _n_glp)
-    : GaussLobattoLagrangeSpline(approximate(_that, _n_intervals, _n_glp)) {}
+    : GaussLobattoLagrangeSpline(approximate(_that, _n_glp, _n_intervals)) {}
 
 GaussLobattoLagrangeSpline &GaussLobattoLagrangeSpline::operator=(
     const GaussLobattoLagrangeSpline &_that) & {
-- 
2.43.0


From 3f2cffc556b2bfa9d54363ebe2c10f96fcf64107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:44 +0000
Subject: [PATCH 25/49] fix: the discretization of a collocation spline ignores
 its interval lengths

---
 include/gsplines/Collocation/GaussLobattoLagrange.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gsplines/Collocation/GaussLobattoLagrange.hpp b/include/gsplines/Collocation/GaussLobattoLagrange.hpp
index 7212784..49b323d 100644
--- a/include/gsplines/Collocation/GaussLobattoLagrange.hpp
+++ b/include/gsplines/Collocation/GaussLobattoLagrange.hpp
@@ -112,8 +112,8 @@ public:
 
   std::size_t get_nglp() const { return get_basis_dim(); }
   Eigen::VectorXd get_domain_discretization() const {
-    return legendre_gauss_lobatto_points(get_domain(), get_nglp(),
-                                         get_number_of_intervals());
+    return legendre_gauss_lobatto_points(get_domain().first, get_nglp(),
+                                         get_interval_lengths());
   }
 
   GaussLobattoLagrangeSpline
-- 
2.43.0


From ff63adbfefc378b464eb8cbd496adb4083546695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:44 +0000
Subject: [PATCH 26/49] fix: setting a collocation spline from an array accepts
 vectors of the wrong size and does not compile without a function

---
 .../Collocation/GaussLobattoLagrange.hpp      | 35 +++++++++++--------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/include/gsplines/Collocation/GaussLobattoLagrange.hpp b/include/gsplines/Collocation/GaussLobattoLagrange.hpp
index 49b323d..d2885a2 100644
--- a/include/gsplines/Collocation/GaussLobattoLagrange.hpp
+++ b/include/gsplines/Collocation/GaussLobattoLagrange.hpp
@@ -136,35 +136,42 @@ public:
                       const IteratorType &_begin, const IteratorType &_end,
                       const Function &_fun) {
 
-    set_domain(_domain);
     auto dist = std::distance(_begin, _end);
     if (dist != static_cast<decltype(dist)>(get_basis().get_dim() *
                                             get_number_of_intervals())) {
       throw std::runtime_error("wrong number of elements");
     }
-    domain_interval_lengths_ =
-        domain_interval_lengths_ *
-        (get_domain_length() / domain_interval_lengths_.array().sum());
+    if (_domain.second <= _domain.first) {
+      throw std::invalid_argument("The domain ends before it starts");
+    }
 
+    Eigen::MatrixXd values(dist, static_cast<long>(get_codom_dim()));
     for (auto it = _begin; it != _end; ++it) {
-      long index = std::distance(_begin, it);
-      long interval = index / get_basis().get_dim();
-      decltype(auto) vec = _fun(*it);
-      if (vec.cols() != 1) {
-        std::invalid_argument("This function only accept eigen row vectors");
+      const Eigen::MatrixXd vec = _fun(*it);
+      if (vec.cols() != 1 and vec.rows() != 1) {
+        throw std::invalid_argument("This function only accept eigen vectors");
       }
-      if (vec.rows() != static_cast<long>(get_codom_dim())) {
-        std::invalid_argument(__FILE__ "Vector dimension error");
+      if (vec.size() != static_cast<long>(get_codom_dim())) {
+        throw std::invalid_argument(__FILE__ "Vector dimension error");
       }
-      get_value_block(interval).row(index % get_basis().get_dim()) = vec;
+      values.row(std::distance(_begin, it)) =
+          Eigen::Map<const Eigen::RowVectorXd>(vec.data(), vec.size());
+    }
+
+    set_domain(_domain);
+    domain_interval_lengths_ =
+        domain_interval_lengths_ *
+        (get_domain_length() / domain_interval_lengths_.array().sum());
+    const long nglp = static_cast<long>(get_nglp());
+    for (std::size_t i = 0; i < get_number_of_intervals(); i++) {
+      get_value_block(i) = values.middleRows(static_cast<long>(i) * nglp, nglp);
     }
   }
 
   template <typename IteratorType>
   void set_from_array(std::pair<double, double> _domain,
                       const IteratorType &_begin, const IteratorType &_end) {
-    set_domain(_domain);
-    set_from_array(_begin, _end,
+    set_from_array(_domain, _begin, _end,
                    [](const Eigen::MatrixXd &_in) -> const Eigen::MatrixXd & {
                      return _in;
                    });
-- 
2.43.0


From b3df31e28d61dea047b444195687d7c5345c7c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:15 +0000
Subject: [PATCH 27/49] fix: splines of other bases convert to collocation
 splines with their coefficients as nodal values

---
 src/Collocation/GaussLobattoLagrange.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/Collocation/GaussLobattoLagrange.cpp b/src/Collocation/GaussLobattoLagrange.cpp
index 9c33124..b6dc095 100644
--- a/src/Collocation/GaussLobattoLagrange.cpp
+++ b/src/Collocation/GaussLobattoLagrange.cpp
@@ -46,11 +46,23 @@ GaussLobattoLagrangeSpline::GaussLobattoLagrangeSpline(
     GaussLobattoLagrangeSpline &&_that)
     : GSplineInheritanceHelper(std::move(_that)) {}
 
+namespace {
+const GSpline &require_gauss_lobatto_basis(const GSpline &_that) {
+  if (_that.get_basis() !=
+      ::gsplines::basis::BasisLagrangeGaussLobatto(_that.get_basis_dim())) {
+    throw std::invalid_argument(
+        "The basis of the spline is not the Gauss-Lobatto-Lagrange one");
+  }
+  return _that;
+}
+} // namespace
+
 GaussLobattoLagrangeSpline::GaussLobattoLagrangeSpline(const GSpline &_that)
-    : GSplineInheritanceHelper(_that) {}
+    : GSplineInheritanceHelper(require_gauss_lobatto_basis(_that)) {}
 
 GaussLobattoLagrangeSpline::GaussLobattoLagrangeSpline(GSpline &&_that)
-    : GSplineInheritanceHelper(std::move(_that)) {}
+    : GSplineInheritanceHelper(
+          (require_gauss_lobatto_basis(_that), std::move(_that))) {}
 
 GaussLobattoLagrangeSpline::GaussLobattoLagrangeSpline(
     const ::gsplines::functions::FunctionBase &_that, std::size_t _n_intervals,
-- 
2.43.0


From e29dca9bdff484dc4303dc1cf434774b5530dcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:42 +0000
Subject: [PATCH 28/49] fix: continuity matrices are right only for Lagrange
 bases with nodes at both ends

---
 src/Basis/Basis.cpp | 70 ++++++++++++++++-----------------------------
 1 file changed, 24 insertions(+), 46 deletions(-)

diff --git a/src/Basis/Basis.cpp b/src/Basis/Basis.cpp
index 5d317fa..b9a9bb3 100644
--- a/src/Basis/Basis.cpp
+++ b/src/Basis/Basis.cpp
@@ -57,20 +57,6 @@ const Eigen::SparseMatrix<double, Eigen::RowMajor>& Basis::continuity_matrix(
         (_number_of_intervals - 1) * _codom_dim * (_deriv_order + 1),
         _number_of_intervals * _codom_dim * get_dim());
 
-    Eigen::MatrixXd left_buffer(_deriv_order + 1, get_dim());
-    Eigen::MatrixXd right_buffer(_deriv_order + 1, get_dim());
-
-    get_derivative_matrix_block(_deriv_order);
-
-    eval_derivative_on_window(-1.0, 2.0, 0, left_buffer.row(0));
-    eval_derivative_on_window(1.0, 2.0, 0, right_buffer.row(0));
-
-    for (std::size_t der = 1; der <= _deriv_order; der++) {
-      const Eigen::MatrixXd& dblock = get_derivative_matrix_block(der);
-      left_buffer.row(der) = dblock.row(0);
-      right_buffer.row(der) = dblock.bottomRows(1);
-    }
-
     std::size_t i0, j0;
 
     for (std::size_t der_coor = 0; der_coor <= _deriv_order; der_coor++) {
@@ -85,8 +71,7 @@ const Eigen::SparseMatrix<double, Eigen::RowMajor>& Basis::continuity_matrix(
           for (std::size_t basis_coor = 0; basis_coor < get_dim();
                basis_coor++) {
             result.insert(i0 + codom_coor,
-                          j0 + basis_coor * 1.0 + get_dim() * codom_coor) =
-                right_buffer(der_coor, basis_coor);
+                          j0 + basis_coor * 1.0 + get_dim() * codom_coor) = 0.0;
           }
         }
         // fill components relative to the rhs value od the interval
@@ -96,8 +81,7 @@ const Eigen::SparseMatrix<double, Eigen::RowMajor>& Basis::continuity_matrix(
           for (std::size_t basis_coor = 0; basis_coor < get_dim();
                basis_coor++) {
             result.insert(i0 + codom_coor,
-                          j0 + basis_coor * 1.0 + get_dim() * codom_coor) =
-                -left_buffer(der_coor, basis_coor);
+                          j0 + basis_coor * 1.0 + get_dim() * codom_coor) = 0.0;
           }
         }
       }
@@ -120,34 +104,28 @@ const Eigen::SparseMatrix<double, Eigen::RowMajor>& Basis::continuity_matrix(
   Eigen::SparseMatrix<double, Eigen::RowMajor>& mat_dest =
       continuity_matrix_dynamic_buff_[_number_of_intervals][_codom_dim]
                                      [_deriv_order];
-  Eigen::SparseMatrix<double, Eigen::RowMajor>& mat_src =
-      continuity_matrix_buff_[_number_of_intervals][_codom_dim][_deriv_order];
-
-  // in our case all the rows of the matrix have at more than one non-zero cell
-  // By this reason the outer index coincieds with the cols
-  for (long k = _codom_dim * (_number_of_intervals - 1);
-       k < mat_dest.outerSize(); ++k) {
-    std::size_t deg = k / (_codom_dim * (_number_of_intervals - 1));
-
-    Eigen::VectorXd deriv_factor =
-        Eigen::pow(2.0 / _interval_lengths.array(), deg);
-
-    Eigen::SparseMatrix<double, Eigen::RowMajor>::InnerIterator it_dest(
-        mat_dest, k);
-    Eigen::SparseMatrix<double, Eigen::RowMajor>::InnerIterator it_src(mat_src,
-                                                                       k);
-    for (/*already initialized*/; it_dest; ++it_dest, ++it_src) {
-      std::size_t interval = it_dest.col() / (get_dim() * _codom_dim);
-      it_dest.valueRef() = it_src.value() * deriv_factor(interval);
-      assert(it_dest.col() == it_dest.index());
-      assert(it_dest.row() == k);
-      /*
-      std::cout << "row " << it_dest.row() << " col " << it_dest.col() << "
-      index "
-                << it_dest.index() << " outer idx " << k << " interval " <<
-      interval
-                << " deg " << deg << " val " << it_dest.value() << std::endl;
-                */
+  // The values at the ends of each interval depend on the basis and on the
+  // length of the interval.
+  Eigen::VectorXd left_buffer(get_dim());
+  Eigen::VectorXd right_buffer(get_dim());
+  for (long k = 0; k < mat_dest.outerSize(); ++k) {
+    const std::size_t rows_per_deg = _codom_dim * (_number_of_intervals - 1);
+    const std::size_t deg = k / rows_per_deg;
+    const std::size_t left_interval = (k % rows_per_deg) / _codom_dim;
+
+    eval_derivative_on_window(1.0, _interval_lengths(left_interval), deg,
+                              right_buffer);
+    eval_derivative_on_window(-1.0, _interval_lengths(left_interval + 1), deg,
+                              left_buffer);
+
+    for (Eigen::SparseMatrix<double, Eigen::RowMajor>::InnerIterator it_dest(
+             mat_dest, k);
+         it_dest; ++it_dest) {
+      const std::size_t interval = it_dest.col() / (get_dim() * _codom_dim);
+      const std::size_t basis_coor = it_dest.col() % get_dim();
+      it_dest.valueRef() = interval == left_interval
+                               ? right_buffer(basis_coor)
+                               : -left_buffer(basis_coor);
     }
   }
 
-- 
2.43.0


From 86a4927c09b2356453e8dc9cbf7c77d24eaf15b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:42 +0000
Subject: [PATCH 29/49] fix: the spline derivative matrix of Basis0101 is
 scaled by the interval lengths twice

---
 src/Basis/Basis.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Basis/Basis.cpp b/src/Basis/Basis.cpp
index b9a9bb3..1e3786d 100644
--- a/src/Basis/Basis.cpp
+++ b/src/Basis/Basis.cpp
@@ -176,6 +176,10 @@ Basis::gspline_derivative_matrix(
 
   Eigen::VectorXd deriv_factor =
       Eigen::pow(2.0 / _interval_lengths.array(), _deriv_order);
+  /// the derivative matrix of Basis0101 already is the one with respect to time
+  if (dynamic_cast<const Basis0101*>(this) != nullptr) {
+    deriv_factor.setOnes();
+  }
 
   for (long k = 0; k < mat_dest.outerSize(); ++k) {
     // std::size_t deg = k / (_codom_dim * (_number_of_intervals - 1));
-- 
2.43.0


From e9003d7532be542d376b44fff780141611d16f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:42 +0000
Subject: [PATCH 30/49] fix: derivative and continuity matrices read past the
 end of short vectors of interval lengths

---
 src/Basis/Basis.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Basis/Basis.cpp b/src/Basis/Basis.cpp
index 1e3786d..2a4c10b 100644
--- a/src/Basis/Basis.cpp
+++ b/src/Basis/Basis.cpp
@@ -46,6 +46,10 @@ const Eigen::SparseMatrix<double, Eigen::RowMajor>& Basis::continuity_matrix(
     std::size_t _number_of_intervals, std::size_t _codom_dim,
     std::size_t _deriv_order,
     Eigen::Ref<const Eigen::VectorXd> _interval_lengths) const {
+  if (_interval_lengths.size() != static_cast<long>(_number_of_intervals)) {
+    throw std::invalid_argument(
+        "The number of interval lengths is not the number of intervals");
+  }
   if (not(continuity_matrix_buff_.count(_number_of_intervals) and
           continuity_matrix_buff_[_number_of_intervals].count(_codom_dim) and
           continuity_matrix_buff_[_number_of_intervals][_codom_dim].count(
@@ -138,6 +142,10 @@ Basis::gspline_derivative_matrix(
     std::size_t _number_of_intervals, std::size_t _codom_dim,
     std::size_t _deriv_order,
     Eigen::Ref<const Eigen::VectorXd> _interval_lengths) const {
+  if (_interval_lengths.size() != static_cast<long>(_number_of_intervals)) {
+    throw std::invalid_argument(
+        "The number of interval lengths is not the number of intervals");
+  }
   std::size_t matrix_size = _number_of_intervals * _codom_dim * get_dim();
 
   if (not(derivative_matrix_buff_.count(_number_of_intervals) and
-- 
2.43.0


From 5a0be70acb5443a1966c064d6e5e6a1a44eb6211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:48 +0000
Subject: [PATCH 31/49] fix: bases with repeated nodes or a parameter outside
 (0,1) are accepted and evaluate to NaN

---
 src/Basis/Basis0101.cpp     | 5 +++++
 src/Basis/BasisLagrange.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/Basis/Basis0101.cpp b/src/Basis/Basis0101.cpp
index 1d451a0..7ae9d37 100644
--- a/src/Basis/Basis0101.cpp
+++ b/src/Basis/Basis0101.cpp
@@ -1,6 +1,7 @@
 
 #include <eigen3/Eigen/Core>
 #include <gsplines/Basis/Basis0101.hpp>
+#include <stdexcept>
 
 namespace gsplines::basis {
 
@@ -21,6 +22,10 @@ void compute_Qd3_dtau_block(double _tau, double _alpha,
 
 Basis0101::Basis0101(double _alpha)
     : Basis(6, "basis0101", [_alpha]() {
+        if (not(0.0 < _alpha and _alpha < 1.0)) {
+          throw std::invalid_argument(
+              "The parameter of basis0101 must be between 0 and 1");
+        }
         Eigen::VectorXd res(1);
         res(0) = _alpha;
         return res;
diff --git a/src/Basis/BasisLagrange.cpp b/src/Basis/BasisLagrange.cpp
index 5b37069..9a1da21 100644
--- a/src/Basis/BasisLagrange.cpp
+++ b/src/Basis/BasisLagrange.cpp
@@ -3,6 +3,7 @@
 #include <iostream>
 #include <math.h>
 #include <memory>
+#include <stdexcept>
 namespace gsplines {
 
 namespace basis {
@@ -186,6 +187,10 @@ Eigen::VectorXd BasisLagrange::barycentric_weights(
     }
   }
 
+  if ((result.array() == 0.0).any()) {
+    throw std::invalid_argument("Interpolation points are not distinct");
+  }
+
   result = (1.0 / result.array()).matrix();
 
   return result;
-- 
2.43.0


From 51e23ff8ce690b3fc44ac35334dc5aa69c25464d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:07 +0000
Subject: [PATCH 32/49] fix: a basis of dimension zero is accepted and writes
 out of its buffers

---
 include/gsplines/Basis/Basis.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/gsplines/Basis/Basis.hpp b/include/gsplines/Basis/Basis.hpp
index 83483a3..865907c 100644
--- a/include/gsplines/Basis/Basis.hpp
+++ b/include/gsplines/Basis/Basis.hpp
@@ -6,6 +6,7 @@
 #include <iostream>
 #include <map>
 #include <memory>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -71,6 +72,10 @@ public:
       : dim_(_dim), name_(_name), parameters_float_(_parameters_float),
         parameters_int_(_parameters_int), derivative_matrix_(dim_, dim_) {
 
+    if (dim_ == 0) {
+      throw std::invalid_argument("A basis needs at least one function");
+    }
+
     derivative_matrix_array_.push_back(
         Eigen::MatrixXd::Identity(get_dim(), get_dim()));
   }
-- 
2.43.0


From 9f8ceb034004c2aeced63636542fb355fa022214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:31 +0000
Subject: [PATCH 33/49] fix: MatrixLeftMultiplication updates with the
 transposed matrix and skips or overruns rows

---
 .../gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp b/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
index d49e899..4643e81 100644
--- a/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
+++ b/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
@@ -395,13 +395,13 @@ public:
       long interval = index / nglp_;
 
       for (long col = 0; col < matrix_cols_; col++) {
-        for (long row = 0; row < matrix_cols_; row++) {
+        for (long row = 0; row < matrix_rows_; row++) {
 
           std::size_t j0 =
               col * nglp_ + interval * nglp_ * matrix_cols_ + index % nglp_;
           std::size_t i0 =
               row * nglp_ + interval * nglp_ * matrix_rows_ + index % nglp_;
-          mat_.coeffRef(i0, j0) = _mat(col, row);
+          mat_.coeffRef(i0, j0) = _mat(row, col);
         }
       }
     }
-- 
2.43.0


From c4cd20a5852248f9afbf3f453fa8999dcd3891b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:31 +0000
Subject: [PATCH 34/49] fix: the collocation integral assumes equal intervals
 and cannot be updated

---
 src/Collocation/GaussLobattoLagrangeFunctionals.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Collocation/GaussLobattoLagrangeFunctionals.cpp b/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
index ce09d64..8f7f05c 100644
--- a/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
+++ b/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
@@ -63,17 +63,21 @@ Integral::Integral(std::tuple<double, double> _domain, std::size_t _nglp,
       nglp_(_nglp) {}
 
 Integral::Integral(const GaussLobattoLagrangeSpline &_in)
-    : Integral(_in.get_domain(), _in.get_basis().get_dim(),
-               _in.get_number_of_intervals()) {}
+    : LinearFunctionalDense(
+          legendre_gauss_lobatto_weights(_in.get_basis().get_dim(),
+                                         _in.get_interval_lengths())
+              .transpose()),
+      nglp_(_in.get_basis().get_dim()) {}
 
 void Integral::update(std::tuple<double, double> _domain, std::size_t _nglp,
                       std::size_t _n_intervals) {
+  nglp_ = _nglp;
   mat_.noalias() =
       legendre_gauss_lobatto_weights(_domain, _nglp, _n_intervals).transpose();
 }
 
 void Integral::update(const Eigen::VectorXd &_intervals) {
-  if (static_cast<long>(_intervals.size() * nglp_) != mat_.rows()) {
+  if (static_cast<long>(_intervals.size() * nglp_) != mat_.cols()) {
     throw std::invalid_argument(" Invaled size of intervals vector");
   }
   mat_.noalias() =
-- 
2.43.0


From 69bb654c6de3a3f01de0f0b300f65a3889baf1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:31 +0000
Subject: [PATCH 35/49] fix: the differentials of SobolevDistance share one
 matrix, so each request changes the earlier ones

---
 .../Collocation/GaussLobattoLagrangeFunctionals.hpp      | 2 --
 src/Collocation/GaussLobattoLagrangeFunctionals.cpp      | 9 +++------
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp b/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
index 4643e81..8d67eb4 100644
--- a/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
+++ b/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
@@ -465,8 +465,6 @@ private:
   Integral int_;
   Derivative der_;
 
-  std::shared_ptr<LinearFunctionalDense> diff_;
-
 public:
   SobolevDistance(const gsplines::functions::FunctionBase &_fun,
                   std::size_t _nglp, std::size_t _n_inter, std::size_t _deg);
diff --git a/src/Collocation/GaussLobattoLagrangeFunctionals.cpp b/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
index 8f7f05c..05479d9 100644
--- a/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
+++ b/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
@@ -94,9 +94,7 @@ SobolevDistance::SobolevDistance(const gsplines::functions::FunctionBase &_fun,
       approx_(GaussLobattoLagrangeSpline::approximate(_fun, _nglp, _n_inter)),
       approx_d_(GaussLobattoLagrangeSpline::approximate(_fun.derivate(), _nglp,
                                                         _n_inter)),
-      int_(approx_), der_(approx_),
-      diff_(std::make_shared<LinearFunctionalDense>(
-          1u, _nglp * _n_inter * _fun.get_codom_dim())) {}
+      int_(approx_), der_(approx_) {}
 
 Eigen::VectorXd
 SobolevDistance::operator()(const GaussLobattoLagrangeSpline &_in) const {
@@ -111,9 +109,8 @@ SobolevDistance::differential(const GaussLobattoLagrangeSpline &_in) const {
   TransposeLeftMultiplication tr1_(approx_ - _in);
   TransposeLeftMultiplication tr2_(approx_d_ - der_ * _in);
 
-  diff_->set(-2 * int_ * (tr1_ + tr2_ * der_));
-
-  return diff_;
+  return std::make_shared<LinearFunctionalDense>(-2 * int_ *
+                                                 (tr1_ + tr2_ * der_));
 }
 
 GLLSplineVariable::GLLSplineVariable(const GaussLobattoLagrangeSpline &_in)
-- 
2.43.0


From 831b31f75dfb1ed556d42e8fdaa945b731738b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:31 +0000
Subject: [PATCH 36/49] fix: collocation functionals read out of bounds or
 abort for splines of another discretization

---
 .../Collocation/GaussLobattoLagrangeFunctionals.hpp   | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp b/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
index 8d67eb4..d86d579 100644
--- a/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
+++ b/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
@@ -137,11 +137,17 @@ public:
 
   Eigen::VectorXd
   operator()(const GaussLobattoLagrangeSpline &_in) const override {
+    if (mat_.cols() != _in.get_coefficients().size()) {
+      throw std::invalid_argument("The spline has another discretization");
+    }
     return mat_ * _in.get_coefficients();
   }
 
   GaussLobattoLagrangeSpline
   operator*(const GaussLobattoLagrangeSpline &_in) const {
+    if (mat_.cols() != _in.get_coefficients().size()) {
+      throw std::invalid_argument("The spline has another discretization");
+    }
 
     Eigen::VectorXd coeff = to_matrix() * _in.get_coefficients();
 
@@ -297,8 +303,9 @@ public:
 
   TransposeLeftMultiplication &
   operator=(const GaussLobattoLagrangeSpline &_that) {
-    if (_that.get_codom_dim() != codom_dim_)
-      throw std::invalid_argument("");
+    if (_that.get_codom_dim() != codom_dim_ or _that.get_nglp() != nglp_ or
+        _that.get_number_of_intervals() != n_inter_)
+      throw std::invalid_argument("The spline has another discretization");
 
     const Eigen::VectorXd &vec = _that.get_coefficients();
     // ---
-- 
2.43.0


From 0751bc8d311680358fe940d8cd77806af8c5351c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:19 +0000
Subject: [PATCH 37/49] fix: last_error and last_relative_error are written by
 all threads without synchronisation

---
 include/gsplines/Tools.hpp | 4 ++--
 src/Tools.cpp              | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/gsplines/Tools.hpp b/include/gsplines/Tools.hpp
index 37fb129..383d65e 100644
--- a/include/gsplines/Tools.hpp
+++ b/include/gsplines/Tools.hpp
@@ -4,8 +4,8 @@
 namespace gsplines {
 namespace tools {
 
-extern double last_error;
-extern double last_relative_error;
+extern thread_local double last_error;
+extern thread_local double last_relative_error;
 
 bool approx_equal(double _lhs, double _rhs, double _tol);
 
diff --git a/src/Tools.cpp b/src/Tools.cpp
index e58e58b..1b7cff0 100644
--- a/src/Tools.cpp
+++ b/src/Tools.cpp
@@ -3,8 +3,8 @@
 namespace gsplines {
 namespace tools {
 
-double last_error = 0.0;
-double last_relative_error = 0.0;
+thread_local double last_error = 0.0;
+thread_local double last_relative_error = 0.0;
 bool approx_equal(double _lhs, double _rhs, double _tol) {
 
   double err = std::fabs(_lhs - _rhs);
-- 
2.43.0


From 8548f332cd91a51e511ac71bc1456fb74d5926d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:29 +0000
Subject: [PATCH 38/49] fix: object counters are incremented by all threads
 without synchronisation

---
 .../GaussLobattoLagrangeFunctionals.hpp          | 14 +++++++-------
 .../gsplines/Functions/FunctionExpression.hpp    |  9 +++++----
 src/Functions/FunctionExpression.cpp             | 16 ++++++++--------
 3 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp b/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
index d86d579..e2346f8 100644
--- a/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
+++ b/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
@@ -1,4 +1,5 @@
 #include <algorithm>
+#include <atomic>
 #include <gsplines/Collocation/GaussLobattoLagrange.hpp>
 #include <gsplines/FunctionalAnalysis/Sobolev.hpp>
 #include <ifopt/constraint_set.h>
@@ -497,13 +498,13 @@ public:
 
 class __Counter {
 protected:
-  static int counter__;
+  static std::atomic<int> counter__;
   __Counter() { counter__++; }
 };
 
 template <typename T> class CostWrapper : public T, public ifopt::CostTerm {
 
-  static int counter__;
+  static std::atomic<int> counter__;
 
 public:
   template <typename... Ts>
@@ -545,7 +546,7 @@ template <typename T>
 class ConstraintWrapper : public T, public ifopt::ConstraintSet {
 private:
   ifopt::Component::VecBound bounds_;
-  static int counter__;
+  static std::atomic<int> counter__;
 
 public:
   template <typename... Ts>
@@ -553,9 +554,8 @@ public:
       : T(args...),
         ConstraintSet(T::get_codom_dim(),
                       "Wrapper_" +
-                          std::to_string(ConstraintWrapper<T>::counter__)) {
+                          std::to_string(ConstraintWrapper<T>::counter__++)) {
 
-    counter__++;
     ifopt::Bounds default_bound(_min, _max);
     bounds_ = ifopt::Component::VecBound(GetRows(), default_bound);
   }
@@ -587,8 +587,8 @@ public:
     }
   }
 };
-template <typename T> int ConstraintWrapper<T>::counter__ = 0;
-template <typename T> int CostWrapper<T>::counter__ = 0;
+template <typename T> std::atomic<int> ConstraintWrapper<T>::counter__ = 0;
+template <typename T> std::atomic<int> CostWrapper<T>::counter__ = 0;
 } // namespace collocation
 } // namespace gsplines
 #endif /* GAUSSLOBATTOLAGRANGEFUNCTIONALS_H */
diff --git a/include/gsplines/Functions/FunctionExpression.hpp b/include/gsplines/Functions/FunctionExpression.hpp
index 1d25887..7e5b745 100644
--- a/include/gsplines/Functions/FunctionExpression.hpp
+++ b/include/gsplines/Functions/FunctionExpression.hpp
@@ -3,6 +3,7 @@
 #ifndef FUNCTION_EXPRESSION
 #define FUNCTION_EXPRESSION
 
+#include <atomic>
 #include <cstddef>
 #include <eigen3/Eigen/Core>
 #include <functional>
@@ -50,10 +51,10 @@ private:
 
   Eigen::VectorXd domain_break_points_;
 
-  static std::size_t num_call_constructor_;
-  static std::size_t num_call_copy_constructor_;
-  static std::size_t num_call_simple_constructor_;
-  static std::size_t num_call_move_constructor_;
+  static std::atomic<std::size_t> num_call_constructor_;
+  static std::atomic<std::size_t> num_call_copy_constructor_;
+  static std::atomic<std::size_t> num_call_simple_constructor_;
+  static std::atomic<std::size_t> num_call_move_constructor_;
 
 public:
   FunctionExpression(
diff --git a/src/Functions/FunctionExpression.cpp b/src/Functions/FunctionExpression.cpp
index 54dcf3f..169ebcb 100644
--- a/src/Functions/FunctionExpression.cpp
+++ b/src/Functions/FunctionExpression.cpp
@@ -11,10 +11,10 @@ namespace functions {
  *  Function Construction
  * -----*/
 
-std::size_t FunctionExpression::num_call_constructor_ = 0;
-std::size_t FunctionExpression::num_call_simple_constructor_ = 0;
-std::size_t FunctionExpression::num_call_copy_constructor_ = 0;
-std::size_t FunctionExpression::num_call_move_constructor_ = 0;
+std::atomic<std::size_t> FunctionExpression::num_call_constructor_ = 0;
+std::atomic<std::size_t> FunctionExpression::num_call_simple_constructor_ = 0;
+std::atomic<std::size_t> FunctionExpression::num_call_copy_constructor_ = 0;
+std::atomic<std::size_t> FunctionExpression::num_call_move_constructor_ = 0;
 
 FunctionExpression::FunctionExpression(
     std::pair<double, double> _domain, std::size_t _codom_dim, Type _type,
@@ -93,11 +93,11 @@ FunctionExpression::FunctionExpression(FunctionBase &&_that)
 }
 
 void FunctionExpression::print_performace() {
-  printf("Num call of the constructor %zu\n", num_call_constructor_);
-  printf("Num call of the COPY constructor %zu\n", num_call_copy_constructor_);
-  printf("Num call of the MOVE constructor %zu\n", num_call_move_constructor_);
+  printf("Num call of the constructor %zu\n", num_call_constructor_.load());
+  printf("Num call of the COPY constructor %zu\n", num_call_copy_constructor_.load());
+  printf("Num call of the MOVE constructor %zu\n", num_call_move_constructor_.load());
   printf("Num call of the SIMPLE constructor %zu\n",
-         num_call_simple_constructor_);
+         num_call_simple_constructor_.load());
 }
 
 std::vector<std::pair<double, double>>
-- 
2.43.0


From de7cf4860d1a0a1a15e258d97995ea5baefe9d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:30 +0000
Subject: [PATCH 39/49] fix: the first optimisations of two threads race to
 create the solver options

---
 src/Optimization/ipopt_solver.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Optimization/ipopt_solver.cpp b/src/Optimization/ipopt_solver.cpp
index a2f55ee..22faa48 100644
--- a/src/Optimization/ipopt_solver.cpp
+++ b/src/Optimization/ipopt_solver.cpp
@@ -43,10 +43,9 @@ std::optional<IpoptSolverOptions> IpoptSolverOptions::instance_ = std::nullopt;
 IpoptSolverOptions::IpoptSolverOptions() = default;
 
 IpoptSolverOptions& IpoptSolverOptions::instance() {
-  if (!instance_.has_value()) {
-    instance_ = IpoptSolverOptions();
-  }
-  return instance_.value();
+  // initialised once, also when several threads get here first
+  static IpoptSolverOptions& options = instance_.emplace(IpoptSolverOptions());
+  return options;
 }
 
 void IpoptSolverOptions::set_option(const std::string& _option_name,
-- 
2.43.0


From a6d3e411ebd3ae910db57b38f55a689dd021c4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:19 +0000
Subject: [PATCH 40/49] fix: Python arrays of interpolation coefficients alias
 the interpolator's buffers

solve_interpolation and get_coeff_derivative_wrt_tau handed Python a view of
a member of the interpolator. The array changed at the next call and was
dangling once the interpolator was collected. Return a copy.
---
 bindings/bindings.cpp | 2 +-
 bindings/pybasis.hpp  | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/bindings/bindings.cpp b/bindings/bindings.cpp
index 2ddffab..e56a8ae 100644
--- a/bindings/bindings.cpp
+++ b/bindings/bindings.cpp
@@ -352,7 +352,7 @@ PYBIND11_MODULE(pygsplines, gsplines_module) {
       .def("print_interpolating_matrix",
            &gsplines::PyInterpolator::print_interpolating_matrix)
       .def("get_coeff_derivative_wrt_tau",
-           &gsplines::PyInterpolator::get_coeff_derivative_wrt_tau)
+           &gsplines::PyInterpolator::py_get_coeff_derivative_wrt_tau)
       .def("print_interpolating_vector",
            &gsplines::PyInterpolator::print_interpolating_vector);
 
diff --git a/bindings/pybasis.hpp b/bindings/pybasis.hpp
index 5b0f8c1..9be6a99 100644
--- a/bindings/pybasis.hpp
+++ b/bindings/pybasis.hpp
@@ -76,11 +76,17 @@ public:
                  const py::EigenDRef<const Eigen::MatrixXd> _waypoints) {
     return interpolate(_interval_lengths, _waypoints);
   }
-  const Eigen::Ref<const Eigen::VectorXd> py_solve_interpolation(
+  Eigen::VectorXd py_solve_interpolation(
       const Eigen::Ref<const Eigen::VectorXd> _interval_lengths,
       const py::EigenDRef<const Eigen::MatrixXd> _waypoints) {
     return solve_interpolation(_interval_lengths, _waypoints);
   }
+  Eigen::VectorXd py_get_coeff_derivative_wrt_tau(
+      const Eigen::Ref<const Eigen::VectorXd> _coeff,
+      const Eigen::Ref<const Eigen::VectorXd> _interval_lengths,
+      std::size_t _tau_idx) {
+    return get_coeff_derivative_wrt_tau(_coeff, _interval_lengths, _tau_idx);
+  }
 };
 
 class PySobolevNorm : public functional_analysis::SobolevNorm {
-- 
2.43.0


From d3a4c25c898005a5cc2b580598bc4516b8c3f373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:19 +0000
Subject: [PATCH 41/49] fix: a basis created in Python crashes splines and
 interpolators

The trampoline's clone returned a null pointer, which every constructor
taking a basis dereferences. Raise an exception instead.
---
 bindings/pybasis.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bindings/pybasis.hpp b/bindings/pybasis.hpp
index 9be6a99..6b8aab1 100644
--- a/bindings/pybasis.hpp
+++ b/bindings/pybasis.hpp
@@ -13,6 +13,7 @@
 #include <pybind11/pybind11.h>
 #include <pybind11/pytypes.h>
 #include <pybind11/stl.h>
+#include <stdexcept>
 
 namespace py = pybind11;
 namespace gsplines {
@@ -61,8 +62,12 @@ public:
     PYBIND11_OVERRIDE_PURE(Eigen::MatrixXd, Basis, derivative_matrix_impl,
                            _deg);
   }
-  std::unique_ptr<Basis> clone() const override { return nullptr; }
-  std::unique_ptr<Basis> move_clone() override { return nullptr; }
+  std::unique_ptr<Basis> clone() const override {
+    throw std::runtime_error("Basis: a basis defined in Python cannot be copied");
+  }
+  std::unique_ptr<Basis> move_clone() override {
+    throw std::runtime_error("Basis: a basis defined in Python cannot be copied");
+  }
 };
 
 } // namespace basis
-- 
2.43.0


From 3cb7c38cfea17cc4ca8be0609ea1ceddcb19e2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:19 +0000
Subject: [PATCH 42/49] fix: a Python buffer of the wrong size aborts the
 interpreter or is overrun

The evaluators of a basis write get_dim() entries in the buffer they are
given. Refuse buffers of another size at the Python boundary.
---
 bindings/bindings.cpp | 19 ++++++++++++++++---
 bindings/pybasis.hpp  | 10 ++++++++++
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/bindings/bindings.cpp b/bindings/bindings.cpp
index e56a8ae..a0046d3 100644
--- a/bindings/bindings.cpp
+++ b/bindings/bindings.cpp
@@ -31,11 +31,24 @@ PYBIND11_MODULE(pygsplines, gsplines_module) {
       .def("get_dim", &gsplines::basis::Basis::get_dim)
       .def("get_name", &gsplines::basis::Basis::get_name)
       .def("get_parameters", &gsplines::basis::Basis::get_parameters)
-      .def("eval_on_window", &gsplines::basis::Basis::eval_on_window)
+      .def("eval_on_window",
+           [](const gsplines::basis::Basis& _self, double _s, double _tau,
+              gsplines::basis::WindowBuffer _buff) {
+             gsplines::basis::check_window_buffer(_self, _buff);
+             _self.eval_on_window(_s, _tau, _buff);
+           })
       .def("eval_derivative_on_window",
-           &gsplines::basis::Basis::eval_derivative_on_window)
+           [](const gsplines::basis::Basis& _self, double _s, double _tau,
+              unsigned int _deg, gsplines::basis::WindowBuffer _buff) {
+             gsplines::basis::check_window_buffer(_self, _buff);
+             _self.eval_derivative_on_window(_s, _tau, _deg, _buff);
+           })
       .def("eval_derivative_wrt_tau_on_window",
-           &gsplines::basis::Basis::eval_derivative_wrt_tau_on_window)
+           [](const gsplines::basis::Basis& _self, double _s, double _tau,
+              unsigned int _deg, gsplines::basis::WindowBuffer _buff) {
+             gsplines::basis::check_window_buffer(_self, _buff);
+             _self.eval_derivative_wrt_tau_on_window(_s, _tau, _deg, _buff);
+           })
       .def("__eq__", &gsplines::basis::Basis::operator==)
       .def("__neq__", &gsplines::basis::Basis::operator!=);
 
diff --git a/bindings/pybasis.hpp b/bindings/pybasis.hpp
index 6b8aab1..84cd191 100644
--- a/bindings/pybasis.hpp
+++ b/bindings/pybasis.hpp
@@ -19,6 +19,16 @@ namespace py = pybind11;
 namespace gsplines {
 namespace basis {
 
+using WindowBuffer = Eigen::Ref<Eigen::VectorXd, 0, Eigen::InnerStride<>>;
+
+inline void check_window_buffer(const Basis &_basis,
+                                const WindowBuffer &_buff) {
+  if (_buff.size() != static_cast<long>(_basis.get_dim())) {
+    throw std::invalid_argument(
+        "The size of the buffer must be the dimension of the basis");
+  }
+}
+
 class PyBasis : public Basis {
 public:
   /* Inherit the constructors */
-- 
2.43.0


From fbaeddf872e4530d1a7c5c3ff2e447d65abb34e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:19 +0000
Subject: [PATCH 43/49] fix: the gradient of the Sobolev cost is written past
 the end of a short buffer

deriv_wrt_interval_len, reachable from Python with any array, did not look
at the size of the buffer it fills.
---
 src/FunctionalAnalysis/Sobolev.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/FunctionalAnalysis/Sobolev.cpp b/src/FunctionalAnalysis/Sobolev.cpp
index 87254d5..c7de94e 100644
--- a/src/FunctionalAnalysis/Sobolev.cpp
+++ b/src/FunctionalAnalysis/Sobolev.cpp
@@ -4,6 +4,7 @@
 #include <gsplines/Functions/ElementalFunctions.hpp>
 #include <gsplines/GSpline.hpp>
 #include <iostream>
+#include <stdexcept>
 
 namespace gsplines {
 namespace functional_analysis {
@@ -33,6 +34,10 @@ void SobolevNorm::deriv_wrt_interval_len(
    *
    * returns [] = y^T [ dQdtau_i y + 2 Q dy_dtau_i]*/
 
+  if (_buff.size() != (long)num_intervals_) {
+    throw std::invalid_argument(
+        "SobolevNorm: The gradient has one component per interval");
+  }
   unsigned int interval_coor;
   unsigned int codom_coor;
   double tau;
-- 
2.43.0


From d798c461ab2ead7c8c9a7100975bcf534dab0b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:13 +0000
Subject: [PATCH 44/49] fix: BasisLegendre.get, BasisLagrange.get and
 Basis0101.get return deleted objects

The classes are held by unique_ptr in Python, so the shared_ptr returned by
get was taken for a unique_ptr and the object was destroyed twice. Return a
copy owned by Python.
---
 bindings/bindings.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bindings/bindings.cpp b/bindings/bindings.cpp
index a0046d3..c25ef8e 100644
--- a/bindings/bindings.cpp
+++ b/bindings/bindings.cpp
@@ -55,19 +55,23 @@ PYBIND11_MODULE(pygsplines, gsplines_module) {
   py::class_<gsplines::basis::BasisLegendre, gsplines::basis::Basis>(
       basis_submodule, "BasisLegendre")
       .def(py::init<std::size_t>())
-      .def_static("get", &gsplines::basis::BasisLegendre::get);
+      .def_static("get", [](std::size_t _dim) {
+        return gsplines::basis::BasisLegendre::get(_dim)->clone();
+      });
 
   py::class_<gsplines::basis::BasisLagrange, gsplines::basis::Basis>(
       basis_submodule, "BasisLagrange")
       .def(py::init<Eigen::Ref<const Eigen::VectorXd>>())
       .def_static("get", [](const Eigen::Ref<const Eigen::VectorXd> _params) {
-        return gsplines::basis::BasisLagrange::get(_params);
+        return gsplines::basis::BasisLagrange::get(_params)->clone();
       });
 
   py::class_<gsplines::basis::Basis0101, gsplines::basis::Basis>(
       basis_submodule, "Basis0101")
       .def(py::init<double>())
-      .def_static("get", &gsplines::basis::Basis0101::get);
+      .def_static("get", [](double _alpha) {
+        return gsplines::basis::Basis0101::get(_alpha)->clone();
+      });
 
   basis_submodule.def(
       "get_basis", [](const std::string& _basis_name, std::size_t _dim,
-- 
2.43.0


From d8a6befcbc4fae99e818ea395fc3d3aaa9823a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:13 +0000
Subject: [PATCH 45/49] fix: Python matrices with zero or negative strides are
 misread or refused

Eigen takes a zero stride for the default one, so a waypoint matrix made by
np.broadcast_to was read out of bounds, and reversed views were refused by
Interpolator and SobolevNorm. Copy waypoint matrices at the boundary.
---
 bindings/bindings.cpp | 74 +++++++++++++++++++++++++++++--------------
 bindings/pybasis.hpp  |  6 ++--
 2 files changed, 54 insertions(+), 26 deletions(-)

diff --git a/bindings/bindings.cpp b/bindings/bindings.cpp
index c25ef8e..1102e66 100644
--- a/bindings/bindings.cpp
+++ b/bindings/bindings.cpp
@@ -338,21 +338,40 @@ PYBIND11_MODULE(pygsplines, gsplines_module) {
   // -----------------------
   // Optimization Submodule
   // -----------------------
-  optimization_submodule.def("broken_lines_path",
-                             &gsplines::optimization::broken_lines_path);
   optimization_submodule.def(
-      "minimum_acceleration_path",
-      &gsplines::optimization::minimum_acceleration_path);
-  optimization_submodule.def("minimum_jerk_path",
-                             &gsplines::optimization::minimum_jerk_path);
-  optimization_submodule.def("minimum_snap_path",
-                             &gsplines::optimization::minimum_snap_path);
-  optimization_submodule.def("minimum_crackle_path",
-                             &gsplines::optimization::minimum_crackle_path);
-  optimization_submodule.def("rojas_path", &gsplines::optimization::rojas_path);
-
-  optimization_submodule.def("optimal_sobolev_norm",
-                             &gsplines::optimization::optimal_sobolev_norm);
+      "broken_lines_path", [](const Eigen::MatrixXd& _waypoints) {
+        return gsplines::optimization::broken_lines_path(_waypoints);
+      });
+  optimization_submodule.def(
+      "minimum_acceleration_path", [](const Eigen::MatrixXd& _waypoints) {
+        return gsplines::optimization::minimum_acceleration_path(_waypoints);
+      });
+  optimization_submodule.def(
+      "minimum_jerk_path", [](const Eigen::MatrixXd& _waypoints) {
+        return gsplines::optimization::minimum_jerk_path(_waypoints);
+      });
+  optimization_submodule.def(
+      "minimum_snap_path", [](const Eigen::MatrixXd& _waypoints) {
+        return gsplines::optimization::minimum_snap_path(_waypoints);
+      });
+  optimization_submodule.def(
+      "minimum_crackle_path", [](const Eigen::MatrixXd& _waypoints) {
+        return gsplines::optimization::minimum_crackle_path(_waypoints);
+      });
+  optimization_submodule.def(
+      "rojas_path", [](const Eigen::MatrixXd& _waypoints, double _k) {
+        return gsplines::optimization::rojas_path(_waypoints, _k);
+      });
+
+  optimization_submodule.def(
+      "optimal_sobolev_norm",
+      [](const Eigen::MatrixXd& _waypoints,
+         const gsplines::basis::Basis& _basis,
+         const std::vector<std::pair<std::size_t, double>>& _weights,
+         double _exec_time) {
+        return gsplines::optimization::optimal_sobolev_norm(
+            _waypoints, _basis, _weights, _exec_time);
+      });
 
   // ---------------
   // Gsplines module
@@ -383,18 +402,28 @@ PYBIND11_MODULE(pygsplines, gsplines_module) {
       .def("linear_scaling_new_execution_time",
            &gsplines::GSpline::linear_scaling_new_execution_time);
 
-  gsplines_module.def("interpolate", &gsplines::interpolate,
-                      "iterpolates waypoints");
-
-  gsplines_module.def("pw_polynomial_interpolation",
-                      &gsplines::pw_polynomial_interpolation);
+  gsplines_module.def(
+      "interpolate",
+      [](const Eigen::Ref<const Eigen::VectorXd> _interval_lengths,
+         const Eigen::MatrixXd& _waypoints,
+         const gsplines::basis::Basis& _basis) {
+        return gsplines::interpolate(_interval_lengths, _waypoints, _basis);
+      },
+      "iterpolates waypoints");
+
+  gsplines_module.def(
+      "pw_polynomial_interpolation",
+      [](const Eigen::Ref<const Eigen::VectorXd> _interval_lengths,
+         const Eigen::MatrixXd& _waypoints, std::size_t _nc) {
+        return gsplines::pw_polynomial_interpolation(_interval_lengths,
+                                                     _waypoints, _nc);
+      });
   // ------------------------------
   // Functional Analysis submodule
   // ------------------------------
   py::class_<gsplines::functional_analysis::SobolevNorm>(
       functional_analysis_submodule, "SobolevNormBase")
-      .def(py::init<const Eigen::Ref<const Eigen::MatrixXd>,
-                    gsplines::basis::Basis&,
+      .def(py::init<const Eigen::MatrixXd&, gsplines::basis::Basis&,
                     std::vector<std::pair<std::size_t, double>>>())
       .def("__call__", &gsplines::functional_analysis::SobolevNorm::operator())
       .def("deriv_wrt_interval_len",
@@ -402,8 +431,7 @@ PYBIND11_MODULE(pygsplines, gsplines_module) {
 
   py::class_<gsplines::PySobolevNorm>(functional_analysis_submodule,
                                       "SobolevNorm")
-      .def(py::init<const py::EigenDRef<const Eigen::MatrixXd>,
-                    gsplines::basis::Basis&,
+      .def(py::init<const Eigen::MatrixXd&, gsplines::basis::Basis&,
                     std::vector<std::pair<std::size_t, double>>>())
       .def("__call__", &gsplines::PySobolevNorm::operator())
       .def("deriv_wrt_interval_len",
diff --git a/bindings/pybasis.hpp b/bindings/pybasis.hpp
index 84cd191..c718c5c 100644
--- a/bindings/pybasis.hpp
+++ b/bindings/pybasis.hpp
@@ -88,12 +88,12 @@ public:
 
   GSpline
   py_interpolate(const Eigen::Ref<const Eigen::VectorXd> _interval_lengths,
-                 const py::EigenDRef<const Eigen::MatrixXd> _waypoints) {
+                 const Eigen::MatrixXd &_waypoints) {
     return interpolate(_interval_lengths, _waypoints);
   }
   Eigen::VectorXd py_solve_interpolation(
       const Eigen::Ref<const Eigen::VectorXd> _interval_lengths,
-      const py::EigenDRef<const Eigen::MatrixXd> _waypoints) {
+      const Eigen::MatrixXd &_waypoints) {
     return solve_interpolation(_interval_lengths, _waypoints);
   }
   Eigen::VectorXd py_get_coeff_derivative_wrt_tau(
@@ -106,7 +106,7 @@ public:
 
 class PySobolevNorm : public functional_analysis::SobolevNorm {
 public:
-  PySobolevNorm(const py::EigenDRef<const Eigen::MatrixXd> _waypoints,
+  PySobolevNorm(const Eigen::MatrixXd &_waypoints,
                 basis::Basis &_basis,
                 std::vector<std::pair<std::size_t, double>> _weights)
       : SobolevNorm(_waypoints, _basis, _weights) {}
-- 
2.43.0


From 599c7644eac4641b7bc4fd496ba46ca2745c4ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:27 +0000
Subject: [PATCH 46/49] fix: curves with one component cannot be plotted

plt.subplots returns a vector of axes for one column, which was then read
as one row.
---
 python/gsplines/plot/plot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/gsplines/plot/plot.py b/python/gsplines/plot/plot.py
index 102d5bf..59e2588 100644
--- a/python/gsplines/plot/plot.py
+++ b/python/gsplines/plot/plot.py
@@ -63,7 +63,8 @@ def plot_derivatives_in_axes(_q,
 def plot(_q, _up_to_deriv: int = 3,
          _dt: float = 0.01, _wp=None, _title='', _show=True):
 
-    fig, axis = plt.subplots(_up_to_deriv+1, _q.get_codom_dim())
+    fig, axis = plt.subplots(_up_to_deriv+1, _q.get_codom_dim(),
+                             squeeze=False)
 
     plot_derivatives_in_axes(_q, axis, _dt=_dt, _up_to_deriv=_up_to_deriv)
 
@@ -86,7 +87,8 @@ def plot_compare(_q: List, _colors: List = [], _legends: List = [],
         cmap = plt.get_cmap('viridis')
         _colors = [cmap(val) for val in np.linspace(0, 1, len(_q))]
 
-    fig, axis = plt.subplots(_up_to_deriv + 1, _q[0].get_codom_dim())
+    fig, axis = plt.subplots(_up_to_deriv + 1, _q[0].get_codom_dim(),
+                             squeeze=False)
 
     for curve, color in zip(_q, _colors):
         plot_derivatives_in_axes(
-- 
2.43.0


From 4a6f65d5ff18617dc8f5c0bd1026957a94685cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:27 +0000
Subject: [PATCH 47/49] fix: plot2d, plot_compare and plot2d_compare ignore the
 step and number of derivatives

plot2d failed for less than three derivatives and left empty axes for more.
The default step of plot_compare becomes the one it has always used.
---
 python/gsplines/plot/plot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/gsplines/plot/plot.py b/python/gsplines/plot/plot.py
index 59e2588..bac32f1 100644
--- a/python/gsplines/plot/plot.py
+++ b/python/gsplines/plot/plot.py
@@ -81,7 +81,7 @@ def plot(_q, _up_to_deriv: int = 3,
 
 def plot_compare(_q: List, _colors: List = [], _legends: List = [],
                  _up_to_deriv=3,
-                 _dt=0.1, _wp=None, _title='', _show=True):
+                 _dt=0.01, _wp=None, _title='', _show=True):
 
     if not _colors:
         cmap = plt.get_cmap('viridis')
@@ -92,7 +92,7 @@ def plot_compare(_q: List, _colors: List = [], _legends: List = [],
 
     for curve, color in zip(_q, _colors):
         plot_derivatives_in_axes(
-            curve, axis, color=color, _up_to_deriv=_up_to_deriv)
+            curve, axis, color=color, _dt=_dt, _up_to_deriv=_up_to_deriv)
 
     for j in range(0, _q[0].get_codom_dim()):
         axis[0, j].set_title('coordinate {:d}'.format(j))
@@ -140,7 +140,7 @@ def plot2d(_q, _up_to_deriv: int = 3,
 
     axes = np.array([[fig.add_subplot(gs[row, col + 1])
                       for col in range(2)] for row in range(1+_up_to_deriv)])
-    plot_derivatives_in_axes(_q, axes)
+    plot_derivatives_in_axes(_q, axes, _dt=_dt, _up_to_deriv=_up_to_deriv)
 
     plt.subplots_adjust(
         left=0.05,
@@ -188,7 +188,7 @@ def plot2d_compare(_q: List, _colors: List = [], _legends: List = [],
 
     for curve, color in zip(_q, _colors):
         plot_derivatives_in_axes(
-            curve, axis, color=color, _up_to_deriv=_up_to_deriv)
+            curve, axis, color=color, _dt=_dt, _up_to_deriv=_up_to_deriv)
 
     if len(_legends) != 0:
         for i in range(0, _up_to_deriv+1):
-- 
2.43.0


From 885b4d01979758cfe9559be9343ce908b5d41495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:27 +0000
Subject: [PATCH 48/49] fix: legends of compared splines name the breakpoint
 lines

The labels went to the first lines of each axis, which from the second on
are the breakpoints of the first spline, in its colour.
---
 python/gsplines/plot/plot.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/python/gsplines/plot/plot.py b/python/gsplines/plot/plot.py
index bac32f1..7b770a3 100644
--- a/python/gsplines/plot/plot.py
+++ b/python/gsplines/plot/plot.py
@@ -30,11 +30,13 @@ def plot_derivatives_in_axes(_q,
                              _up_to_deriv: int = 3, color='blue'):
 
     _axis = np.atleast_2d(_axis)
+    curves = []
     for i in range(_up_to_deriv+1):
         curve = _q.deriv(i)
         cvt = CurveVsTime(curve.get_codom_dim(), color=color)
         cvt.associate_axis(_axis[i, :])
         cvt.update(curve, _dt)
+        curves.append(cvt)
 
         if hasattr(curve, 'get_domain_breakpoints'):
             dbp = VerticalLines(
@@ -59,6 +61,8 @@ def plot_derivatives_in_axes(_q,
     for i in range(1, _up_to_deriv+1):
         _axis[i, 0].set_ylabel('derivative {:d}'.format(i))
 
+    return curves
+
 
 def plot(_q, _up_to_deriv: int = 3,
          _dt: float = 0.01, _wp=None, _title='', _show=True):
@@ -90,9 +94,10 @@ def plot_compare(_q: List, _colors: List = [], _legends: List = [],
     fig, axis = plt.subplots(_up_to_deriv + 1, _q[0].get_codom_dim(),
                              squeeze=False)
 
-    for curve, color in zip(_q, _colors):
+    curves = [
         plot_derivatives_in_axes(
             curve, axis, color=color, _dt=_dt, _up_to_deriv=_up_to_deriv)
+        for curve, color in zip(_q, _colors)]
 
     for j in range(0, _q[0].get_codom_dim()):
         axis[0, j].set_title('coordinate {:d}'.format(j))
@@ -103,7 +108,7 @@ def plot_compare(_q: List, _colors: List = [], _legends: List = [],
     if len(_legends) != 0:
         for i in range(0, _up_to_deriv+1):
             for j in range(0, _q[0].get_codom_dim()):
-                axis[i, j].legend(axis[i, j].get_lines(),
+                axis[i, j].legend([curve[i].lines_[j] for curve in curves],
                                   _legends, loc='lower right', fontsize=8)
     plt.subplots_adjust(
         left=0.05,
@@ -186,14 +191,15 @@ def plot2d_compare(_q: List, _colors: List = [], _legends: List = [],
     axis = np.array([[fig.add_subplot(gs[row, col + 1])
                       for col in range(2)] for row in range(1+_up_to_deriv)])
 
-    for curve, color in zip(_q, _colors):
+    curves = [
         plot_derivatives_in_axes(
             curve, axis, color=color, _dt=_dt, _up_to_deriv=_up_to_deriv)
+        for curve, color in zip(_q, _colors)]
 
     if len(_legends) != 0:
         for i in range(0, _up_to_deriv+1):
             for j in range(0, _q[0].get_codom_dim()):
-                axis[i, j].legend(axis[i, j].get_lines(),
+                axis[i, j].legend([curve[i].lines_[j] for curve in curves],
                                   _legends, loc='lower right', fontsize=8)
     for j in range(0, _q[0].get_codom_dim()):
         axis[0, j].set_title('coordinate {:d}'.format(j))
-- 
2.43.0


From 33682873fe9feecae0ccd35445b91ca789ad4bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:28 +0000
Subject: [PATCH 49/49] fix: MatrixLeftMultiplication::update leaves the
 functional unchanged when a matrix is refused

---
 .../gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp b/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
index e2346f8..a318e00 100644
--- a/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
+++ b/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
@@ -371,6 +371,8 @@ public:
       throw std::runtime_error("wrong number of elements");
     }
 
+    // filled apart, so that a refused matrix leaves this functional unchanged
+    Eigen::SparseMatrix<double> updated(mat_);
     for (auto it = _begin; it != _end; ++it) {
       decltype(auto) mat = _fun(*it);
       if (mat.cols() != matrix_cols_ or mat.rows() != matrix_rows_) {
@@ -387,10 +389,11 @@ public:
               col * nglp_ + interval * nglp_ * matrix_cols_ + index % nglp_;
           std::size_t i0 =
               row * nglp_ + interval * nglp_ * matrix_rows_ + index % nglp_;
-          mat_.coeffRef(i0, j0) = mat(row, col);
+          updated.coeffRef(i0, j0) = mat(row, col);
         }
       }
     }
+    mat_.swap(updated);
   }
   void update(const Eigen::MatrixXd &_mat) {
 
-- 
2.43.0

