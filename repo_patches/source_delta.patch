From e8927e07e69674516c164f4b05a8d965ac5f5077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:11 +0000
Subject: [PATCH 01/96] fix: scale the smooth-1norm activation Hessian by eps

---
 include/crocoddyl/core/activations/smooth-1norm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/activations/smooth-1norm.hpp b/include/crocoddyl/core/activations/smooth-1norm.hpp
index 9ccb0ff..c2843ea 100644
--- a/include/crocoddyl/core/activations/smooth-1norm.hpp
+++ b/include/crocoddyl/core/activations/smooth-1norm.hpp
@@ -103,7 +103,7 @@ class ActivationModelSmooth1NormTpl
     std::shared_ptr<Data> d = std::static_pointer_cast<Data>(data);
     data->Ar = r.cwiseProduct(d->a.cwiseInverse());
     data->Arr.diagonal() =
-        d->a.cwiseProduct(d->a).cwiseProduct(d->a).cwiseInverse();
+        eps_ * d->a.cwiseProduct(d->a).cwiseProduct(d->a).cwiseInverse();
   };
 
   /**
-- 
2.43.0


From 5154b468b961b796a747eeeb099c44779e390f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:11 +0000
Subject: [PATCH 02/96] fix: use the second derivative in the smooth-2norm
 activation Hessian

---
 include/crocoddyl/core/activations/smooth-2norm.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/activations/smooth-2norm.hpp b/include/crocoddyl/core/activations/smooth-2norm.hpp
index 3e8493d..aec5049 100644
--- a/include/crocoddyl/core/activations/smooth-2norm.hpp
+++ b/include/crocoddyl/core/activations/smooth-2norm.hpp
@@ -91,7 +91,9 @@ class ActivationModelSmooth2NormTpl
     }
 
     data->Ar = r / data->a_value;
-    data->Arr.diagonal().array() = Scalar(1) / pow(data->a_value, Scalar(3));
+    data->Arr.diagonal().array() =
+        (data->a_value * data->a_value - r.array().square()) /
+        pow(data->a_value, Scalar(3));
   };
 
   /**
-- 
2.43.0


From 25105527e1d88ad73c6df6c9f284e74c1c09568e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:11 +0000
Subject: [PATCH 03/96] fix: square the weights in the weighted quadratic
 barrier Hessian

---
 .../crocoddyl/core/activations/weighted-quadratic-barrier.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp b/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp
index 01eb433..2f06f04 100644
--- a/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp
+++ b/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp
@@ -75,7 +75,7 @@ class ActivationModelWeightedQuadraticBarrierTpl
                        Scalar(0.), Scalar(1.), Scalar(0.)));
     }
 
-    data->Arr.diagonal().array() *= weights_.array();
+    data->Arr.diagonal().array() *= weights_.array().square();
   };
 
   virtual std::shared_ptr<ActivationDataAbstract> createData() override {
-- 
2.43.0


From 803ac7689ed6e44ee7fa7803d1602ce4138c0ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:11 +0000
Subject: [PATCH 04/96] fix: refresh the weighted quadratic Hessian of every
 data after set_weights

---
 .../core/activations/weighted-quadratic.hpp   | 23 +++----------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/include/crocoddyl/core/activations/weighted-quadratic.hpp b/include/crocoddyl/core/activations/weighted-quadratic.hpp
index 81c2654..1161651 100644
--- a/include/crocoddyl/core/activations/weighted-quadratic.hpp
+++ b/include/crocoddyl/core/activations/weighted-quadratic.hpp
@@ -30,7 +30,7 @@ class ActivationModelWeightedQuadTpl
   typedef typename MathBase::MatrixXs MatrixXs;
 
   explicit ActivationModelWeightedQuadTpl(const VectorXs& weights)
-      : Base(weights.size()), weights_(weights), new_weights_(false) {};
+      : Base(weights.size()), weights_(weights) {};
   virtual ~ActivationModelWeightedQuadTpl() = default;
 
   virtual void calc(const std::shared_ptr<ActivationDataAbstract>& data,
@@ -56,25 +56,14 @@ class ActivationModelWeightedQuadTpl
 
     std::shared_ptr<Data> d = std::static_pointer_cast<Data>(data);
     data->Ar = d->Wr;
-    if (new_weights_) {
-      data->Arr.diagonal() = weights_;
-      new_weights_ = false;
-    }
-    // The Hessian has constant values which were set in createData.
-#ifndef NDEBUG
-    assert_pretty(MatrixXs(data->Arr).isApprox(Arr_), "Arr has wrong value");
-#endif
+    // The weights may have changed since this data was created.
+    data->Arr.diagonal() = weights_;
   };
 
   virtual std::shared_ptr<ActivationDataAbstract> createData() override {
     std::shared_ptr<Data> data =
         std::allocate_shared<Data>(Eigen::aligned_allocator<Data>(), this);
     data->Arr.diagonal() = weights_;
-
-#ifndef NDEBUG
-    Arr_ = data->Arr;
-#endif
-
     return data;
   };
 
@@ -94,7 +83,6 @@ class ActivationModelWeightedQuadTpl
     }
 
     weights_ = weights;
-    new_weights_ = true;
   };
 
   /**
@@ -111,11 +99,6 @@ class ActivationModelWeightedQuadTpl
 
  private:
   VectorXs weights_;
-  bool new_weights_;
-
-#ifndef NDEBUG
-  MatrixXs Arr_;
-#endif
 };
 
 template <typename _Scalar>
-- 
2.43.0


From 85f1a1eed021d25eaf98e6c038fe550b2a29666a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:55 +0000
Subject: [PATCH 05/96] fix: set the whole Jacobian in StateVector::Jintegrate
 with setto

---
 include/crocoddyl/core/states/euclidean.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/states/euclidean.hxx b/include/crocoddyl/core/states/euclidean.hxx
index b1ca3e7..01ff26b 100644
--- a/include/crocoddyl/core/states/euclidean.hxx
+++ b/include/crocoddyl/core/states/euclidean.hxx
@@ -125,7 +125,7 @@ void StateVectorTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>&,
     }
     switch (op) {
       case setto:
-        Jfirst.diagonal().array() = Scalar(1.);
+        Jfirst.setIdentity();
         break;
       case addto:
         Jfirst.diagonal().array() += Scalar(1.);
@@ -149,7 +149,7 @@ void StateVectorTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>&,
     }
     switch (op) {
       case setto:
-        Jsecond.diagonal().array() = Scalar(1.);
+        Jsecond.setIdentity();
         break;
       case addto:
         Jsecond.diagonal().array() += Scalar(1.);
-- 
2.43.0


From d8c7e409fbc1107b725900a0820e59117ebd6b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:49 +0000
Subject: [PATCH 06/96] fix: initialise the result of the allocating
 multiply-by-Jacobian helpers

---
 include/crocoddyl/core/control-base.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/control-base.hxx b/include/crocoddyl/core/control-base.hxx
index 14b1a46..7a8f762 100644
--- a/include/crocoddyl/core/control-base.hxx
+++ b/include/crocoddyl/core/control-base.hxx
@@ -33,7 +33,7 @@ typename MathBaseTpl<Scalar>::MatrixXs
 ControlParametrizationModelAbstractTpl<Scalar>::multiplyByJacobian_J(
     const std::shared_ptr<ControlParametrizationDataAbstract>& data,
     const Eigen::Ref<const MatrixXs>& A, const AssignmentOp op) const {
-  MatrixXs AJ(A.rows(), nu_);
+  MatrixXs AJ = MatrixXs::Zero(A.rows(), nu_);
   multiplyByJacobian(data, A, AJ, op);
   return AJ;
 }
@@ -43,7 +43,7 @@ typename MathBaseTpl<Scalar>::MatrixXs
 ControlParametrizationModelAbstractTpl<Scalar>::multiplyJacobianTransposeBy_J(
     const std::shared_ptr<ControlParametrizationDataAbstract>& data,
     const Eigen::Ref<const MatrixXs>& A, const AssignmentOp op) const {
-  MatrixXs JTA(nu_, A.cols());
+  MatrixXs JTA = MatrixXs::Zero(nu_, A.cols());
   multiplyJacobianTransposeBy(data, A, JTA, op);
   return JTA;
 }
-- 
2.43.0


From 130998136d42b83944b5c177272982e7b814da0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:42 +0000
Subject: [PATCH 07/96] fix: refresh the LQR matrices of every data after
 set_LQR

---
 include/crocoddyl/core/actions/diff-lqr.hpp |  1 -
 include/crocoddyl/core/actions/diff-lqr.hxx | 49 ++++++++-------------
 include/crocoddyl/core/actions/lqr.hpp      |  1 -
 include/crocoddyl/core/actions/lqr.hxx      | 44 +++++++-----------
 4 files changed, 36 insertions(+), 59 deletions(-)

diff --git a/include/crocoddyl/core/actions/diff-lqr.hpp b/include/crocoddyl/core/actions/diff-lqr.hpp
index 0c53759..7e4dd3a 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hpp
+++ b/include/crocoddyl/core/actions/diff-lqr.hpp
@@ -312,7 +312,6 @@ class DifferentialActionModelLQRTpl
   VectorXs h_;
   MatrixXs L_;
   bool drift_free_;
-  bool updated_lqr_;
 };
 
 template <typename _Scalar>
diff --git a/include/crocoddyl/core/actions/diff-lqr.hxx b/include/crocoddyl/core/actions/diff-lqr.hxx
index d99cf5a..b38b9f1 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hxx
+++ b/include/crocoddyl/core/actions/diff-lqr.hxx
@@ -14,8 +14,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     const MatrixXs& Aq, const MatrixXs& Av, const MatrixXs& B,
     const MatrixXs& Q, const MatrixXs& R, const MatrixXs& N)
     : Base(std::make_shared<StateVector>(2 * Aq.cols()), B.cols(), 0),
-      drift_free_(true),
-      updated_lqr_(false) {
+      drift_free_(true) {
   const std::size_t nq = state_->get_nq();
   MatrixXs G = MatrixXs::Zero(ng_, 2 * nq + nu_);
   MatrixXs H = MatrixXs::Zero(nh_, 2 * nq + nu_);
@@ -33,8 +32,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     const MatrixXs& Q, const MatrixXs& R, const MatrixXs& N, const VectorXs& f,
     const VectorXs& q, const VectorXs& r)
     : Base(std::make_shared<StateVector>(2 * Aq.cols()), B.cols(), 0),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   const std::size_t nq = state_->get_nq();
   MatrixXs G = MatrixXs::Zero(ng_, 2 * nq + nu_);
   MatrixXs H = MatrixXs::Zero(ng_, 2 * nq + nu_);
@@ -51,8 +49,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     const VectorXs& g, const VectorXs& h)
     : Base(std::make_shared<StateVector>(2 * Aq.cols()), B.cols(), 0, G.rows(),
            H.rows(), G.rows(), H.rows()),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   set_LQR(Aq, Av, B, Q, R, N, G, H, f, q, r, g, h);
 }
 
@@ -73,8 +70,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
       r_(VectorXs::Ones(nu)),
       g_(VectorXs::Zero(0)),
       h_(VectorXs::Zero(0)),
-      drift_free_(drift_free),
-      updated_lqr_(false) {}
+      drift_free_(drift_free) {}
 
 template <typename Scalar>
 DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
@@ -82,8 +78,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     : Base(std::make_shared<StateVector>(2 * copy.get_Aq().cols()),
            copy.get_B().cols(), 0, copy.get_G().rows(), copy.get_H().rows(),
            copy.get_G().rows(), copy.get_H().rows()),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   set_LQR(copy.get_Aq(), copy.get_Av(), copy.get_B(), copy.get_Q(),
           copy.get_R(), copy.get_N(), copy.get_G(), copy.get_H(), copy.get_f(),
           copy.get_q(), copy.get_r(), copy.get_g(), copy.get_h());
@@ -177,19 +172,17 @@ void DifferentialActionModelLQRTpl<Scalar>::calcDiff(
   }
 
   const std::size_t nq = state_->get_nq();
-  if (!updated_lqr_) {
-    data->Fx.leftCols(nq) = Aq_;
-    data->Fx.rightCols(nq) = Av_;
-    data->Fu = B_;
-    data->Lxx = Q_;
-    data->Luu = R_;
-    data->Lxu = N_;
-    data->Gx = G_.leftCols(2 * nq);
-    data->Gu = G_.rightCols(nu_);
-    data->Hx = H_.leftCols(2 * nq);
-    data->Hu = H_.rightCols(nu_);
-    updated_lqr_ = true;
-  }
+  // The matrices are copied at every call as each data has its own
+  data->Fx.leftCols(nq) = Aq_;
+  data->Fx.rightCols(nq) = Av_;
+  data->Fu = B_;
+  data->Lxx = Q_;
+  data->Luu = R_;
+  data->Lxu = N_;
+  data->Gx = G_.leftCols(2 * nq);
+  data->Gu = G_.rightCols(nu_);
+  data->Hx = H_.leftCols(2 * nq);
+  data->Hu = H_.rightCols(nu_);
   data->Lx = q_;
   data->Lx.noalias() += Q_ * x;
   data->Lx.noalias() += N_ * u;
@@ -209,12 +202,9 @@ void DifferentialActionModelLQRTpl<Scalar>::calcDiff(
   }
 
   const std::size_t nq = state_->get_nq();
-  if (!updated_lqr_) {
-    data->Lxx = Q_;
-    data->Gx = G_.leftCols(2 * nq);
-    data->Hx = H_.leftCols(2 * nq);
-    updated_lqr_ = true;
-  }
+  data->Lxx = Q_;
+  data->Gx = G_.leftCols(2 * nq);
+  data->Hx = H_.leftCols(2 * nq);
   data->Lx = q_;
   data->Lx.noalias() += Q_ * x;
 }
@@ -463,7 +453,6 @@ void DifferentialActionModelLQRTpl<Scalar>::set_LQR(
   r_ = r;
   g_ = g;
   h_ = h;
-  updated_lqr_ = false;
 }
 
 }  // namespace crocoddyl
diff --git a/include/crocoddyl/core/actions/lqr.hpp b/include/crocoddyl/core/actions/lqr.hpp
index 6595974..0efea1d 100644
--- a/include/crocoddyl/core/actions/lqr.hpp
+++ b/include/crocoddyl/core/actions/lqr.hpp
@@ -286,7 +286,6 @@ class ActionModelLQRTpl : public ActionModelAbstractTpl<_Scalar> {
   VectorXs h_;
   MatrixXs L_;
   bool drift_free_;
-  bool updated_lqr_;
 };
 
 template <typename _Scalar>
diff --git a/include/crocoddyl/core/actions/lqr.hxx b/include/crocoddyl/core/actions/lqr.hxx
index 13f5d00..36a5640 100644
--- a/include/crocoddyl/core/actions/lqr.hxx
+++ b/include/crocoddyl/core/actions/lqr.hxx
@@ -16,8 +16,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(const MatrixXs& A,
                                              const MatrixXs& R,
                                              const MatrixXs& N)
     : Base(std::make_shared<StateVector>(A.cols()), B.cols(), 0),
-      drift_free_(true),
-      updated_lqr_(false) {
+      drift_free_(true) {
   const std::size_t nx = state_->get_nx();
   MatrixXs G = MatrixXs::Zero(ng_, nx + nu_);
   MatrixXs H = MatrixXs::Zero(nh_, nx + nu_);
@@ -34,8 +33,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(
     const MatrixXs& A, const MatrixXs& B, const MatrixXs& Q, const MatrixXs& R,
     const MatrixXs& N, const VectorXs& f, const VectorXs& q, const VectorXs& r)
     : Base(std::make_shared<StateVector>(A.cols()), B.cols(), 0),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   const std::size_t nx = state_->get_nx();
   MatrixXs G = MatrixXs::Zero(ng_, nx + nu_);
   MatrixXs H = MatrixXs::Zero(ng_, nx + nu_);
@@ -51,8 +49,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(
     const VectorXs& q, const VectorXs& r, const VectorXs& g, const VectorXs& h)
     : Base(std::make_shared<StateVector>(A.cols()), B.cols(), 0, G.rows(),
            H.rows(), G.rows(), H.rows()),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   set_LQR(A, B, Q, R, N, G, H, f, q, r, g, h);
 }
 
@@ -80,8 +77,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(const ActionModelLQRTpl& copy)
     : Base(std::make_shared<StateVector>(copy.get_A().cols()),
            copy.get_B().cols(), 0, copy.get_G().rows(), copy.get_H().rows(),
            copy.get_G().rows(), copy.get_H().rows()),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   set_LQR(copy.get_A(), copy.get_B(), copy.get_Q(), copy.get_R(), copy.get_N(),
           copy.get_G(), copy.get_H(), copy.get_f(), copy.get_q(), copy.get_r(),
           copy.get_g(), copy.get_h());
@@ -170,18 +166,16 @@ void ActionModelLQRTpl<Scalar>::calcDiff(
   }
 
   const std::size_t nx = state_->get_nx();
-  if (!updated_lqr_) {
-    data->Fx = A_;
-    data->Fu = B_;
-    data->Lxx = Q_;
-    data->Luu = R_;
-    data->Lxu = N_;
-    data->Gx = G_.leftCols(nx);
-    data->Gu = G_.rightCols(nu_);
-    data->Hx = H_.leftCols(nx);
-    data->Hu = H_.rightCols(nu_);
-    updated_lqr_ = true;
-  }
+  // The matrices are copied at every call as each data has its own
+  data->Fx = A_;
+  data->Fu = B_;
+  data->Lxx = Q_;
+  data->Luu = R_;
+  data->Lxu = N_;
+  data->Gx = G_.leftCols(nx);
+  data->Gu = G_.rightCols(nu_);
+  data->Hx = H_.leftCols(nx);
+  data->Hu = H_.rightCols(nu_);
   data->Lx = q_;
   data->Lx.noalias() += Q_ * x;
   data->Lx.noalias() += N_ * u;
@@ -201,12 +195,9 @@ void ActionModelLQRTpl<Scalar>::calcDiff(
   }
 
   const std::size_t nx = state_->get_nx();
-  if (!updated_lqr_) {
-    data->Lxx = Q_;
-    data->Gx = G_.leftCols(nx);
-    data->Hx = H_.leftCols(nx);
-    updated_lqr_ = true;
-  }
+  data->Lxx = Q_;
+  data->Gx = G_.leftCols(nx);
+  data->Hx = H_.leftCols(nx);
   data->Lx = q_;
   data->Lx.noalias() += Q_ * x;
 }
@@ -435,7 +426,6 @@ void ActionModelLQRTpl<Scalar>::set_LQR(const MatrixXs& A, const MatrixXs& B,
   r_ = r;
   g_ = g;
   h_ = h;
-  updated_lqr_ = false;
 }
 
 }  // namespace crocoddyl
-- 
2.43.0


From 0cc5f83292e8535fff7145277c426927e117fdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:55 +0000
Subject: [PATCH 08/96] fix: size the prefilled LQR constraint Jacobians with
 nx, also for odd nx

---
 include/crocoddyl/core/actions/lqr.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/core/actions/lqr.hpp b/include/crocoddyl/core/actions/lqr.hpp
index 0efea1d..7cf0d52 100644
--- a/include/crocoddyl/core/actions/lqr.hpp
+++ b/include/crocoddyl/core/actions/lqr.hpp
@@ -302,16 +302,16 @@ struct ActionDataLQRTpl : public ActionDataAbstractTpl<_Scalar> {
         Q_x_tmp(VectorXs::Zero(
             static_cast<Eigen::Index>(model->get_state()->get_ndx()))) {
     // Setting the linear model and quadratic cost as they are constant
-    const std::size_t nq = model->get_state()->get_nq();
+    const std::size_t nx = model->get_state()->get_nx();
     const std::size_t nu = model->get_nu();
     Fx = model->get_A();
     Fu = model->get_B();
     Lxx = model->get_Q();
     Luu = model->get_R();
     Lxu = model->get_N();
-    Gx = model->get_G().leftCols(2 * nq);
+    Gx = model->get_G().leftCols(nx);
     Gu = model->get_G().rightCols(nu);
-    Hx = model->get_H().leftCols(2 * nq);
+    Hx = model->get_H().leftCols(nx);
     Hu = model->get_H().rightCols(nu);
   }
   virtual ~ActionDataLQRTpl() = default;
-- 
2.43.0


From 9c6aac836d125f4925054092ff0eefda2a78fab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:10 +0000
Subject: [PATCH 09/96] fix: reject LQR dynamics matrices with a wrong number
 of columns

---
 include/crocoddyl/core/actions/diff-lqr.hxx | 14 +++++++++-----
 include/crocoddyl/core/actions/lqr.hxx      | 11 +++++++----
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/crocoddyl/core/actions/diff-lqr.hxx b/include/crocoddyl/core/actions/diff-lqr.hxx
index b38b9f1..73dcea9 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hxx
+++ b/include/crocoddyl/core/actions/diff-lqr.hxx
@@ -358,20 +358,24 @@ void DifferentialActionModelLQRTpl<Scalar>::set_LQR(
     const MatrixXs& H, const VectorXs& f, const VectorXs& q, const VectorXs& r,
     const VectorXs& g, const VectorXs& h) {
   const std::size_t nq = state_->get_nq();
-  if (static_cast<std::size_t>(Aq.rows()) != nq) {
+  if (static_cast<std::size_t>(Aq.rows()) != nq ||
+      static_cast<std::size_t>(Aq.cols()) != nq) {
     throw_pretty(
         "Invalid argument: " << "Aq should be a squared matrix with size " +
                                     std::to_string(nq));
   }
-  if (static_cast<std::size_t>(Av.rows()) != nq) {
+  if (static_cast<std::size_t>(Av.rows()) != nq ||
+      static_cast<std::size_t>(Av.cols()) != nq) {
     throw_pretty(
         "Invalid argument: " << "Av should be a squared matrix with size " +
                                     std::to_string(nq));
   }
-  if (static_cast<std::size_t>(B.rows()) != nq) {
+  if (static_cast<std::size_t>(B.rows()) != nq ||
+      static_cast<std::size_t>(B.cols()) != nu_) {
     throw_pretty(
-        "Invalid argument: " << "B has wrong dimension (it should have " +
-                                    std::to_string(nq) + " rows)");
+        "Invalid argument: " << "B has wrong dimension (it should be " +
+                                    std::to_string(nq) + " x " +
+                                    std::to_string(nu_) + ")");
   }
   if (static_cast<std::size_t>(Q.rows()) != 2 * nq ||
       static_cast<std::size_t>(Q.cols()) != 2 * nq) {
diff --git a/include/crocoddyl/core/actions/lqr.hxx b/include/crocoddyl/core/actions/lqr.hxx
index 36a5640..58b8f24 100644
--- a/include/crocoddyl/core/actions/lqr.hxx
+++ b/include/crocoddyl/core/actions/lqr.hxx
@@ -340,15 +340,18 @@ void ActionModelLQRTpl<Scalar>::set_LQR(const MatrixXs& A, const MatrixXs& B,
                                         const VectorXs& q, const VectorXs& r,
                                         const VectorXs& g, const VectorXs& h) {
   const std::size_t nx = state_->get_nx();
-  if (static_cast<std::size_t>(A.rows()) != nx) {
+  if (static_cast<std::size_t>(A.rows()) != nx ||
+      static_cast<std::size_t>(A.cols()) != nx) {
     throw_pretty(
         "Invalid argument: " << "A should be a squared matrix with size " +
                                     std::to_string(nx));
   }
-  if (static_cast<std::size_t>(B.rows()) != nx) {
+  if (static_cast<std::size_t>(B.rows()) != nx ||
+      static_cast<std::size_t>(B.cols()) != nu_) {
     throw_pretty(
-        "Invalid argument: " << "B has wrong dimension (it should have " +
-                                    std::to_string(nx) + " rows)");
+        "Invalid argument: " << "B has wrong dimension (it should be " +
+                                    std::to_string(nx) + " x " +
+                                    std::to_string(nu_) + ")");
   }
   if (static_cast<std::size_t>(Q.rows()) != nx ||
       static_cast<std::size_t>(Q.cols()) != nx) {
-- 
2.43.0


From 18a104be92f50981675f60149c00225993fdf90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:27 +0000
Subject: [PATCH 10/96] fix: keep the bounds when copying or casting LQR models

---
 include/crocoddyl/core/actions/diff-lqr.hxx | 11 ++++++++++-
 include/crocoddyl/core/actions/lqr.hxx      | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/actions/diff-lqr.hxx b/include/crocoddyl/core/actions/diff-lqr.hxx
index 73dcea9..5128e07 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hxx
+++ b/include/crocoddyl/core/actions/diff-lqr.hxx
@@ -78,10 +78,15 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     : Base(std::make_shared<StateVector>(2 * copy.get_Aq().cols()),
            copy.get_B().cols(), 0, copy.get_G().rows(), copy.get_H().rows(),
            copy.get_G().rows(), copy.get_H().rows()),
-      drift_free_(false) {
+      drift_free_(copy.drift_free_) {
   set_LQR(copy.get_Aq(), copy.get_Av(), copy.get_B(), copy.get_Q(),
           copy.get_R(), copy.get_N(), copy.get_G(), copy.get_H(), copy.get_f(),
           copy.get_q(), copy.get_r(), copy.get_g(), copy.get_h());
+  // The bounds are part of the model as well
+  Base::set_g_lb(copy.get_g_lb());
+  Base::set_g_ub(copy.get_g_ub());
+  Base::set_u_lb(copy.get_u_lb());
+  Base::set_u_ub(copy.get_u_ub());
 }
 
 template <typename Scalar>
@@ -227,6 +232,10 @@ DifferentialActionModelLQRTpl<Scalar>::cast() const {
                  f_.template cast<NewScalar>(), q_.template cast<NewScalar>(),
                  r_.template cast<NewScalar>(), g_.template cast<NewScalar>(),
                  h_.template cast<NewScalar>());
+  ret.set_g_lb(Base::get_g_lb().template cast<NewScalar>());
+  ret.set_g_ub(Base::get_g_ub().template cast<NewScalar>());
+  ret.set_u_lb(Base::get_u_lb().template cast<NewScalar>());
+  ret.set_u_ub(Base::get_u_ub().template cast<NewScalar>());
   return ret;
 }
 
diff --git a/include/crocoddyl/core/actions/lqr.hxx b/include/crocoddyl/core/actions/lqr.hxx
index 58b8f24..9b5690f 100644
--- a/include/crocoddyl/core/actions/lqr.hxx
+++ b/include/crocoddyl/core/actions/lqr.hxx
@@ -77,10 +77,15 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(const ActionModelLQRTpl& copy)
     : Base(std::make_shared<StateVector>(copy.get_A().cols()),
            copy.get_B().cols(), 0, copy.get_G().rows(), copy.get_H().rows(),
            copy.get_G().rows(), copy.get_H().rows()),
-      drift_free_(false) {
+      drift_free_(copy.drift_free_) {
   set_LQR(copy.get_A(), copy.get_B(), copy.get_Q(), copy.get_R(), copy.get_N(),
           copy.get_G(), copy.get_H(), copy.get_f(), copy.get_q(), copy.get_r(),
           copy.get_g(), copy.get_h());
+  // The bounds are part of the model as well
+  Base::set_g_lb(copy.get_g_lb());
+  Base::set_g_ub(copy.get_g_ub());
+  Base::set_u_lb(copy.get_u_lb());
+  Base::set_u_ub(copy.get_u_ub());
 }
 
 template <typename Scalar>
@@ -218,6 +223,10 @@ ActionModelLQRTpl<NewScalar> ActionModelLQRTpl<Scalar>::cast() const {
                  H_.template cast<NewScalar>(), f_.template cast<NewScalar>(),
                  q_.template cast<NewScalar>(), r_.template cast<NewScalar>(),
                  g_.template cast<NewScalar>(), h_.template cast<NewScalar>());
+  ret.set_g_lb(Base::get_g_lb().template cast<NewScalar>());
+  ret.set_g_ub(Base::get_g_ub().template cast<NewScalar>());
+  ret.set_u_lb(Base::get_u_lb().template cast<NewScalar>());
+  ret.set_u_ub(Base::get_u_ub().template cast<NewScalar>());
   return ret;
 }
 
-- 
2.43.0


From acc397dc0f5fe46df40941256513fb0e7ec34ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:27 +0000
Subject: [PATCH 11/96] fix: keep the time step, weights and bounds when
 casting the unicycle model

---
 include/crocoddyl/core/actions/unicycle.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/crocoddyl/core/actions/unicycle.hxx b/include/crocoddyl/core/actions/unicycle.hxx
index afa0add..8679df9 100644
--- a/include/crocoddyl/core/actions/unicycle.hxx
+++ b/include/crocoddyl/core/actions/unicycle.hxx
@@ -115,6 +115,10 @@ template <typename NewScalar>
 ActionModelUnicycleTpl<NewScalar> ActionModelUnicycleTpl<Scalar>::cast() const {
   typedef ActionModelUnicycleTpl<NewScalar> ReturnType;
   ReturnType ret;
+  ret.set_dt(scalar_cast<NewScalar>(dt_));
+  ret.set_cost_weights(cost_weights_.template cast<NewScalar>());
+  ret.set_u_lb(Base::get_u_lb().template cast<NewScalar>());
+  ret.set_u_ub(Base::get_u_ub().template cast<NewScalar>());
   return ret;
 }
 
-- 
2.43.0


From 25c48788c4f4d740bc81f99fd5e591dfeec9b35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:27 +0000
Subject: [PATCH 12/96] fix: swap the deprecated getters of the LQR control and
 cross weights

---
 include/crocoddyl/core/actions/lqr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/actions/lqr.hpp b/include/crocoddyl/core/actions/lqr.hpp
index 7cf0d52..b8d5d07 100644
--- a/include/crocoddyl/core/actions/lqr.hpp
+++ b/include/crocoddyl/core/actions/lqr.hpp
@@ -223,8 +223,8 @@ class ActionModelLQRTpl : public ActionModelAbstractTpl<_Scalar> {
   DEPRECATED("Use get_q", const VectorXs& get_lx() const { return get_q(); })
   DEPRECATED("Use get_r", const VectorXs& get_lu() const { return get_r(); })
   DEPRECATED("Use get_Q", const MatrixXs& get_Lxx() const { return get_Q(); })
-  DEPRECATED("Use get_R", const MatrixXs& get_Lxu() const { return get_R(); })
-  DEPRECATED("Use get_N", const MatrixXs& get_Luu() const { return get_N(); })
+  DEPRECATED("Use get_N", const MatrixXs& get_Lxu() const { return get_N(); })
+  DEPRECATED("Use get_R", const MatrixXs& get_Luu() const { return get_R(); })
   DEPRECATED(
       "Use set_LQR", void set_Fx(const MatrixXs& A) {
         set_LQR(A, B_, Q_, R_, N_, G_, H_, f_, q_, r_, g_, h_);
-- 
2.43.0


From ebc8c93e0e014b1b9833d5adaf9faad1f2f4a9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:27 +0000
Subject: [PATCH 13/96] fix: copy the default control in the action-model copy
 constructor

---
 include/crocoddyl/core/action-base.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crocoddyl/core/action-base.hxx b/include/crocoddyl/core/action-base.hxx
index f059805..03c4260 100644
--- a/include/crocoddyl/core/action-base.hxx
+++ b/include/crocoddyl/core/action-base.hxx
@@ -42,6 +42,7 @@ ActionModelAbstractTpl<Scalar>::ActionModelAbstractTpl(
       ng_T_(other.ng_T_),
       nh_T_(other.nh_T_),
       state_(other.state_),
+      unone_(other.unone_),
       g_lb_(other.g_lb_),
       g_ub_(other.g_ub_),
       u_lb_(other.u_lb_),
-- 
2.43.0


From 695dc1bafbe4acb78ca9a7d17a122267ce80eb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:27 +0000
Subject: [PATCH 14/96] fix: use the actual Jacobian of the second stage in the
 RK derivatives

---
 include/crocoddyl/core/integrator/rk.hxx | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/crocoddyl/core/integrator/rk.hxx b/include/crocoddyl/core/integrator/rk.hxx
index 3145433..188695e 100644
--- a/include/crocoddyl/core/integrator/rk.hxx
+++ b/include/crocoddyl/core/integrator/rk.hxx
@@ -206,11 +206,7 @@ void IntegratedActionModelRKTpl<Scalar>::calcDiff(
     //   is ki_data.Fx
     d->dki_dx[i].topRows(nv) = d->dyi_dx[i].bottomRows(nv);
     dkvi_dq.noalias() = dki_dqi * dqi_dq;
-    if (i == 1) {
-      dkvi_dv = time_step_ / Scalar(2.) * dki_dqi;
-    } else {
-      dkvi_dv.noalias() = dki_dqi * dqi_dv;
-    }
+    dkvi_dv.noalias() = dki_dqi * dqi_dv;
     dkvi_dq.noalias() += dki_dvi * dvi_dq;
     dkvi_dv.noalias() += dki_dvi * dvi_dv;
     //  ii. d->dki_du[i].noalias() = d->dki_dy[i] * d->dyi_du[i], where dki_dy
-- 
2.43.0


From d774c69c6d3e70b5221a25bb60be1a1a4147a9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:27 +0000
Subject: [PATCH 15/96] fix: reject foreign data in checkData of the integrated
 action models

---
 include/crocoddyl/core/integrator/euler.hxx | 2 +-
 include/crocoddyl/core/integrator/rk.hxx    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/integrator/euler.hxx b/include/crocoddyl/core/integrator/euler.hxx
index 9c65e4e..fd538f0 100644
--- a/include/crocoddyl/core/integrator/euler.hxx
+++ b/include/crocoddyl/core/integrator/euler.hxx
@@ -177,7 +177,7 @@ template <typename Scalar>
 bool IntegratedActionModelEulerTpl<Scalar>::checkData(
     const std::shared_ptr<ActionDataAbstract>& data) {
   std::shared_ptr<Data> d = std::dynamic_pointer_cast<Data>(data);
-  if (data != NULL) {
+  if (d != NULL) {
     return differential_->checkData(d->differential);
   } else {
     return false;
diff --git a/include/crocoddyl/core/integrator/rk.hxx b/include/crocoddyl/core/integrator/rk.hxx
index 188695e..215432c 100644
--- a/include/crocoddyl/core/integrator/rk.hxx
+++ b/include/crocoddyl/core/integrator/rk.hxx
@@ -353,7 +353,7 @@ template <typename Scalar>
 bool IntegratedActionModelRKTpl<Scalar>::checkData(
     const std::shared_ptr<ActionDataAbstract>& data) {
   std::shared_ptr<Data> d = std::dynamic_pointer_cast<Data>(data);
-  if (data != NULL) {
+  if (d != NULL && d->differential.size() == ni_) {
     for (std::size_t i = 0; i < ni_; ++i) {
       if (!differential_->checkData(d->differential[i])) {
         return false;
-- 
2.43.0


From 2027d07b95a1dfc6b38cf77bf940c977d5af97bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 16/96] fix: recognise one-sided control limits

---
 include/crocoddyl/core/action-base.hxx      | 2 +-
 include/crocoddyl/core/diff-action-base.hxx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/action-base.hxx b/include/crocoddyl/core/action-base.hxx
index 03c4260..4791cd5 100644
--- a/include/crocoddyl/core/action-base.hxx
+++ b/include/crocoddyl/core/action-base.hxx
@@ -242,7 +242,7 @@ void ActionModelAbstractTpl<Scalar>::set_u_ub(const VectorXs& u_ub) {
 template <typename Scalar>
 void ActionModelAbstractTpl<Scalar>::update_has_control_limits() {
   has_control_limits_ =
-      isfinite(u_lb_.template cast<ScalarType>().array()).any() &&
+      isfinite(u_lb_.template cast<ScalarType>().array()).any() ||
       isfinite(u_ub_.template cast<ScalarType>().array()).any();
 }
 
diff --git a/include/crocoddyl/core/diff-action-base.hxx b/include/crocoddyl/core/diff-action-base.hxx
index 623763b..f013a4c 100644
--- a/include/crocoddyl/core/diff-action-base.hxx
+++ b/include/crocoddyl/core/diff-action-base.hxx
@@ -225,7 +225,7 @@ void DifferentialActionModelAbstractTpl<Scalar>::set_u_ub(
 template <typename Scalar>
 void DifferentialActionModelAbstractTpl<Scalar>::update_has_control_limits() {
   has_control_limits_ =
-      isfinite(u_lb_.template cast<ScalarType>().array()).any() &&
+      isfinite(u_lb_.template cast<ScalarType>().array()).any() ||
       isfinite(u_ub_.template cast<ScalarType>().array()).any();
 }
 
-- 
2.43.0


From 78d2c33b31a5733dfec00b6005d7aae51da76021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:08 +0000
Subject: [PATCH 17/96] fix: keep the active residual size when removing an
 inactive cost

---
 include/crocoddyl/core/costs/cost-sum.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/costs/cost-sum.hxx b/include/crocoddyl/core/costs/cost-sum.hxx
index e05dc1c..dc9bbba 100644
--- a/include/crocoddyl/core/costs/cost-sum.hxx
+++ b/include/crocoddyl/core/costs/cost-sum.hxx
@@ -71,7 +71,9 @@ template <typename Scalar>
 void CostModelSumTpl<Scalar>::removeCost(const std::string& name) {
   typename CostModelContainer::iterator it = costs_.find(name);
   if (it != costs_.end()) {
-    nr_ -= it->second->cost->get_activation()->get_nr();
+    if (it->second->active) {
+      nr_ -= it->second->cost->get_activation()->get_nr();
+    }
     nr_total_ -= it->second->cost->get_activation()->get_nr();
     costs_.erase(it);
     active_set_.erase(name);
-- 
2.43.0


From 57ff3db5e25a7657afd2d5cac555dba51ed53ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:08 +0000
Subject: [PATCH 18/96] fix: ignore duplicated cost items in addCost

---
 include/crocoddyl/core/costs/cost-sum.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/costs/cost-sum.hxx b/include/crocoddyl/core/costs/cost-sum.hxx
index dc9bbba..c6522fe 100644
--- a/include/crocoddyl/core/costs/cost-sum.hxx
+++ b/include/crocoddyl/core/costs/cost-sum.hxx
@@ -56,8 +56,12 @@ void CostModelSumTpl<Scalar>::addCost(
         << " cost item doesn't have the same control dimension (it should be " +
                std::to_string(nu_) + ")");
   }
-  costs_.insert(std::make_pair(cost_item->name, cost_item));
-  if (cost_item->active) {
+  std::pair<typename CostModelContainer::iterator, bool> ret =
+      costs_.insert(std::make_pair(cost_item->name, cost_item));
+  if (ret.second == false) {
+    std::cerr << "Warning: we couldn't add the " << cost_item->name
+              << " cost item, it already existed." << std::endl;
+  } else if (cost_item->active) {
     nr_ += cost_item->cost->get_activation()->get_nr();
     nr_total_ += cost_item->cost->get_activation()->get_nr();
     active_set_.insert(cost_item->name);
-- 
2.43.0


From 4bba343341c2e59750290445952f42b092da850a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:19 +0000
Subject: [PATCH 19/96] fix: validate the new bounds in update_bounds and
 accept equal ones

---
 include/crocoddyl/core/constraint-base.hxx | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/crocoddyl/core/constraint-base.hxx b/include/crocoddyl/core/constraint-base.hxx
index 5e39a77..1da8480 100644
--- a/include/crocoddyl/core/constraint-base.hxx
+++ b/include/crocoddyl/core/constraint-base.hxx
@@ -114,21 +114,22 @@ void ConstraintModelAbstractTpl<Scalar>::update_bounds(const VectorXs& lower,
         "Invalid argument: the dimension of the lower/upper bound is not the "
         "same to ng.")
   }
-  if (((upper - lower).array() <= Scalar(0.)).any()) {
+  if ((lower.array() > upper.array()).any()) {
     throw_pretty(
-        "Invalid argument: the upper bound is not higher than the lower bound.")
+        "Invalid argument: the upper bound is not equal to / higher than the "
+        "lower bound.")
   }
-  if ((lb_.array() == std::numeric_limits<Scalar>::infinity()).any() ||
-      (lb_.array() == std::numeric_limits<Scalar>::max()).any()) {
+  if ((lower.array() == std::numeric_limits<Scalar>::infinity()).any() ||
+      (lower.array() == std::numeric_limits<Scalar>::max()).any()) {
     throw_pretty(
         "Invalid argument: the lower bound cannot contain a positive "
         "infinity/max value");
   }
-  if ((ub_.array() == -std::numeric_limits<Scalar>::infinity()).any() ||
-      (ub_.array() == -std::numeric_limits<Scalar>::infinity()).any()) {
+  if ((upper.array() == -std::numeric_limits<Scalar>::infinity()).any() ||
+      (upper.array() == -std::numeric_limits<Scalar>::max()).any()) {
     throw_pretty(
-        "Invalid argument: the lower bound cannot contain a negative "
-        "infinity/min value");
+        "Invalid argument: the upper bound cannot contain a negative "
+        "infinity/max value");
   }
   ng_ = ng_internal_;
   nh_ = nh_internal_;
-- 
2.43.0


From 4c1410dd72aa5e3ea847726b318d9613f6a8aef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:19 +0000
Subject: [PATCH 20/96] fix: check the size of the bounds of residual
 constraints

---
 include/crocoddyl/core/constraints/residual.hxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/constraints/residual.hxx b/include/crocoddyl/core/constraints/residual.hxx
index a5574c4..6ec9a27 100644
--- a/include/crocoddyl/core/constraints/residual.hxx
+++ b/include/crocoddyl/core/constraints/residual.hxx
@@ -14,6 +14,12 @@ ConstraintModelResidualTpl<Scalar>::ConstraintModelResidualTpl(
     std::shared_ptr<ResidualModelAbstract> residual, const VectorXs& lower,
     const VectorXs& upper, const bool T_act)
     : Base(state, residual, residual->get_nr(), 0) {
+  if (static_cast<std::size_t>(lower.size()) != residual_->get_nr() ||
+      static_cast<std::size_t>(upper.size()) != residual_->get_nr()) {
+    throw_pretty(
+        "Invalid argument: the dimension of the lower/upper bound is not the "
+        "same to nr.")
+  }
   lb_ = lower;
   ub_ = upper;
   for (std::size_t i = 0; i < residual_->get_nr(); ++i) {
@@ -32,9 +38,9 @@ ConstraintModelResidualTpl<Scalar>::ConstraintModelResidualTpl(
         "infinity/max value");
   }
   if ((ub_.array() == -std::numeric_limits<Scalar>::infinity()).any() ||
-      (ub_.array() == -std::numeric_limits<Scalar>::infinity()).any()) {
+      (ub_.array() == -std::numeric_limits<Scalar>::max()).any()) {
     throw_pretty(
-        "Invalid argument: the lower bound cannot contain a negative "
+        "Invalid argument: the upper bound cannot contain a negative "
         "infinity/max value");
   }
   if (!T_act) {
-- 
2.43.0


From b73a38c14635db33846c9b9e071f4f8abfbac48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:19 +0000
Subject: [PATCH 21/96] fix: resize the internal buffers in
 ConstraintDataManager::resize

---
 include/crocoddyl/core/constraints/constraint-manager.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/crocoddyl/core/constraints/constraint-manager.hpp b/include/crocoddyl/core/constraints/constraint-manager.hpp
index 1c6d112..7d509d0 100644
--- a/include/crocoddyl/core/constraints/constraint-manager.hpp
+++ b/include/crocoddyl/core/constraints/constraint-manager.hpp
@@ -363,6 +363,12 @@ struct ConstraintDataManagerTpl {
     const std::size_t nu = model->get_nu();
     const std::size_t ng = running_node ? model->get_ng() : model->get_ng_T();
     const std::size_t nh = running_node ? model->get_nh() : model->get_nh_T();
+    g_internal.conservativeResize(ng);
+    Gx_internal.conservativeResize(ng, ndx);
+    Gu_internal.conservativeResize(ng, nu);
+    h_internal.conservativeResize(nh);
+    Hx_internal.conservativeResize(nh, ndx);
+    Hu_internal.conservativeResize(nh, nu);
     new (&g) Eigen::Map<VectorXs>(g_internal.data(), ng);
     new (&Gx) Eigen::Map<MatrixXs>(Gx_internal.data(), ng, ndx);
     new (&Gu) Eigen::Map<MatrixXs>(Gu_internal.data(), ng, nu);
-- 
2.43.0


From 17d1a854d2731201593643402fefe56b9c4da900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:43 +0000
Subject: [PATCH 22/96] fix: stack the constraint bounds when the active set
 changes

---
 .../core/constraints/constraint-manager.hpp   |  2 ++
 .../core/constraints/constraint-manager.hxx   | 31 ++++++++++++++-----
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/include/crocoddyl/core/constraints/constraint-manager.hpp b/include/crocoddyl/core/constraints/constraint-manager.hpp
index 7d509d0..49a2db5 100644
--- a/include/crocoddyl/core/constraints/constraint-manager.hpp
+++ b/include/crocoddyl/core/constraints/constraint-manager.hpp
@@ -278,6 +278,8 @@ class ConstraintModelManagerTpl {
       std::ostream& os, const ConstraintModelManagerTpl<Scalar>& model);
 
  private:
+  void stackBounds();  //!< Stack the bounds of the active constraints
+
   std::shared_ptr<StateAbstract> state_;  //!< State description
   ConstraintModelContainer constraints_;  //!< Stack of constraint items
   VectorXs lb_;                           //!< Lower bound of the constraint
diff --git a/include/crocoddyl/core/constraints/constraint-manager.hxx b/include/crocoddyl/core/constraints/constraint-manager.hxx
index fde4255..37051b9 100644
--- a/include/crocoddyl/core/constraints/constraint-manager.hxx
+++ b/include/crocoddyl/core/constraints/constraint-manager.hxx
@@ -58,8 +58,7 @@ void ConstraintModelManagerTpl<Scalar>::addConstraint(
       nh_T_ += constraint->get_nh();
     }
     active_set_.insert(name);
-    lb_.resize(ng_);
-    ub_.resize(ng_);
+    stackBounds();
   } else if (!active) {
     inactive_set_.insert(name);
   }
@@ -77,13 +76,12 @@ void ConstraintModelManagerTpl<Scalar>::removeConstraint(
         ng_T_ -= it->second->constraint->get_ng();
         nh_T_ -= it->second->constraint->get_nh();
       }
-      lb_.resize(ng_);
-      ub_.resize(ng_);
       active_set_.erase(name);
     } else {
       inactive_set_.erase(name);
     }
     constraints_.erase(it);
+    stackBounds();
   } else {
     std::cout << "Warning: we couldn't remove the " << name
               << " constraint item, it doesn't exist." << std::endl;
@@ -105,8 +103,7 @@ void ConstraintModelManagerTpl<Scalar>::changeConstraintStatus(
       active_set_.insert(name);
       inactive_set_.erase(name);
       it->second->active = active;
-      lb_.resize(ng_);
-      ub_.resize(ng_);
+      stackBounds();
     } else if (!active && it->second->active) {
       ng_ -= it->second->constraint->get_ng();
       nh_ -= it->second->constraint->get_nh();
@@ -117,8 +114,7 @@ void ConstraintModelManagerTpl<Scalar>::changeConstraintStatus(
       active_set_.erase(name);
       inactive_set_.insert(name);
       it->second->active = active;
-      lb_.resize(ng_);
-      ub_.resize(ng_);
+      stackBounds();
     }
   } else {
     std::cout << "Warning: we couldn't change the status of the " << name
@@ -329,6 +325,25 @@ void ConstraintModelManagerTpl<Scalar>::calcDiff(
   }
 }
 
+template <typename Scalar>
+void ConstraintModelManagerTpl<Scalar>::stackBounds() {
+  std::size_t ng_i = 0;
+  typename ConstraintModelContainer::const_iterator it, end;
+  for (it = constraints_.begin(), end = constraints_.end(); it != end; ++it) {
+    const std::shared_ptr<ConstraintItem>& item = it->second;
+    if (item->active) {
+      const std::size_t ng = item->constraint->get_ng();
+      lb_.conservativeResize(ng_i + ng);
+      ub_.conservativeResize(ng_i + ng);
+      lb_.segment(ng_i, ng) = item->constraint->get_lb().head(ng);
+      ub_.segment(ng_i, ng) = item->constraint->get_ub().head(ng);
+      ng_i += ng;
+    }
+  }
+  lb_.conservativeResize(ng_i);
+  ub_.conservativeResize(ng_i);
+}
+
 template <typename Scalar>
 std::shared_ptr<ConstraintDataManagerTpl<Scalar> >
 ConstraintModelManagerTpl<Scalar>::createData(
-- 
2.43.0


From 3ceff25cf8e903516bda931e5e04b9119da635fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:23 +0000
Subject: [PATCH 23/96] fix: follow a changed constraint type in existing data

---
 .../core/constraints/constraint-manager.hxx    |  8 ++++----
 .../crocoddyl/core/constraints/residual.hpp    |  1 +
 .../crocoddyl/core/constraints/residual.hxx    | 18 ++++++++++++++++++
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/crocoddyl/core/constraints/constraint-manager.hxx b/include/crocoddyl/core/constraints/constraint-manager.hxx
index 37051b9..58c33d8 100644
--- a/include/crocoddyl/core/constraints/constraint-manager.hxx
+++ b/include/crocoddyl/core/constraints/constraint-manager.hxx
@@ -166,8 +166,8 @@ void ConstraintModelManagerTpl<Scalar>::calc(
       const std::size_t nh = m_i->constraint->get_nh();
       data->g.segment(ng_i, ng) = d_i->g;
       data->h.segment(nh_i, nh) = d_i->h;
-      lb_.segment(ng_i, ng) = m_i->constraint->get_lb();
-      ub_.segment(ng_i, ng) = m_i->constraint->get_ub();
+      lb_.segment(ng_i, ng) = m_i->constraint->get_lb().head(ng);
+      ub_.segment(ng_i, ng) = m_i->constraint->get_ub().head(ng);
       ng_i += ng;
       nh_i += nh;
     }
@@ -213,8 +213,8 @@ void ConstraintModelManagerTpl<Scalar>::calc(
       const std::size_t nh = m_i->constraint->get_nh();
       data->g.segment(ng_i, ng) = d_i->g;
       data->h.segment(nh_i, nh) = d_i->h;
-      lb_.segment(ng_i, ng) = m_i->constraint->get_lb();
-      ub_.segment(ng_i, ng) = m_i->constraint->get_ub();
+      lb_.segment(ng_i, ng) = m_i->constraint->get_lb().head(ng);
+      ub_.segment(ng_i, ng) = m_i->constraint->get_ub().head(ng);
       ng_i += ng;
       nh_i += nh;
     }
diff --git a/include/crocoddyl/core/constraints/residual.hpp b/include/crocoddyl/core/constraints/residual.hpp
index c5ac524..13e8dd7 100644
--- a/include/crocoddyl/core/constraints/residual.hpp
+++ b/include/crocoddyl/core/constraints/residual.hpp
@@ -160,6 +160,7 @@ class ConstraintModelResidualTpl : public ConstraintModelAbstractTpl<_Scalar> {
   virtual void print(std::ostream& os) const override;
 
  private:
+  void resizeData(const std::shared_ptr<ConstraintDataAbstract>& data);
   void updateCalc(const std::shared_ptr<ConstraintDataAbstract>& data);
   void updateCalcDiff(const std::shared_ptr<ConstraintDataAbstract>& data);
 
diff --git a/include/crocoddyl/core/constraints/residual.hxx b/include/crocoddyl/core/constraints/residual.hxx
index 6ec9a27..6c1f4cc 100644
--- a/include/crocoddyl/core/constraints/residual.hxx
+++ b/include/crocoddyl/core/constraints/residual.hxx
@@ -110,9 +110,26 @@ ConstraintModelResidualTpl<Scalar>::createData(
                                     data);
 }
 
+template <typename Scalar>
+void ConstraintModelResidualTpl<Scalar>::resizeData(
+    const std::shared_ptr<ConstraintDataAbstract>& data) {
+  // The type of constraint might have changed after creating the data
+  if (static_cast<std::size_t>(data->Gx.rows()) != ng_ ||
+      static_cast<std::size_t>(data->Hx.rows()) != nh_) {
+    const std::size_t ndx = state_->get_ndx();
+    data->g.setZero(ng_);
+    data->Gx.setZero(ng_, ndx);
+    data->Gu.setZero(ng_, nu_);
+    data->h.setZero(nh_);
+    data->Hx.setZero(nh_, ndx);
+    data->Hu.setZero(nh_, nu_);
+  }
+}
+
 template <typename Scalar>
 void ConstraintModelResidualTpl<Scalar>::updateCalc(
     const std::shared_ptr<ConstraintDataAbstract>& data) {
+  resizeData(data);
   switch (type_) {
     case ConstraintType::Inequality:
       data->g = data->residual->r;
@@ -131,6 +148,7 @@ void ConstraintModelResidualTpl<Scalar>::updateCalcDiff(
   const bool is_rq = residual_->get_q_dependent();
   const bool is_rv = residual_->get_v_dependent();
   const bool is_ru = residual_->get_u_dependent() || nu_ == 0;
+  resizeData(data);
   switch (type_) {
     case ConstraintType::Inequality:
       if (is_rq && is_rv) {
-- 
2.43.0


From 16c69c4e17bafcb8513eec2437694daa1220e3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:36 +0000
Subject: [PATCH 24/96] fix: initialise fwddyn in the default joint-effort
 constructor

---
 include/crocoddyl/core/residuals/joint-effort.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/residuals/joint-effort.hxx b/include/crocoddyl/core/residuals/joint-effort.hxx
index 2cbd71c..29c0824 100644
--- a/include/crocoddyl/core/residuals/joint-effort.hxx
+++ b/include/crocoddyl/core/residuals/joint-effort.hxx
@@ -57,7 +57,8 @@ ResidualModelJointEffortTpl<Scalar>::ResidualModelJointEffortTpl(
     std::shared_ptr<ActuationModelAbstract> actuation)
     : Base(state, actuation->get_nu(), state->get_nv(), true, true, true),
       actuation_(actuation),
-      uref_(VectorXs::Zero(actuation->get_nu())) {}
+      uref_(VectorXs::Zero(actuation->get_nu())),
+      fwddyn_(false) {}
 
 template <typename Scalar>
 void ResidualModelJointEffortTpl<Scalar>::calc(
-- 
2.43.0


From 81a3b625f0c59cc218bdc2fc138a3b8e6613ac9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:36 +0000
Subject: [PATCH 25/96] fix: check the size of the joint-effort reference on
 construction

---
 include/crocoddyl/core/residuals/joint-effort.hxx | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/residuals/joint-effort.hxx b/include/crocoddyl/core/residuals/joint-effort.hxx
index 29c0824..a00b904 100644
--- a/include/crocoddyl/core/residuals/joint-effort.hxx
+++ b/include/crocoddyl/core/residuals/joint-effort.hxx
@@ -20,6 +20,11 @@ ResidualModelJointEffortTpl<Scalar>::ResidualModelJointEffortTpl(
       actuation_(actuation),
       uref_(uref),
       fwddyn_(fwddyn) {
+  if (static_cast<std::size_t>(uref_.size()) != nr_) {
+    throw_pretty(
+        "Invalid argument: " << "uref has wrong dimension (it should be " +
+                                    std::to_string(nr_) + ")");
+  }
   if (nu_ == 0) {
     throw_pretty("Invalid argument: "
                  << "it seems to be an autonomous system, if so, don't add "
@@ -34,7 +39,13 @@ ResidualModelJointEffortTpl<Scalar>::ResidualModelJointEffortTpl(
     : Base(state, actuation->get_nu(), state->get_nv(), true, true, true),
       actuation_(actuation),
       uref_(uref),
-      fwddyn_(false) {}
+      fwddyn_(false) {
+  if (static_cast<std::size_t>(uref_.size()) != nr_) {
+    throw_pretty(
+        "Invalid argument: " << "uref has wrong dimension (it should be " +
+                                    std::to_string(nr_) + ")");
+  }
+}
 
 template <typename Scalar>
 ResidualModelJointEffortTpl<Scalar>::ResidualModelJointEffortTpl(
-- 
2.43.0


From 05b5dd00bc6b39cba3fe417714565944f1b115ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:36 +0000
Subject: [PATCH 26/96] fix: zero the joint-acceleration Jacobian when there is
 no control

---
 include/crocoddyl/core/residuals/joint-acceleration.hpp | 7 +++++++
 include/crocoddyl/core/residuals/joint-acceleration.hxx | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/include/crocoddyl/core/residuals/joint-acceleration.hpp b/include/crocoddyl/core/residuals/joint-acceleration.hpp
index 055a3e2..42f2778 100644
--- a/include/crocoddyl/core/residuals/joint-acceleration.hpp
+++ b/include/crocoddyl/core/residuals/joint-acceleration.hpp
@@ -126,6 +126,13 @@ class ResidualModelJointAccelerationTpl
                         const Eigen::Ref<const VectorXs>& x,
                         const Eigen::Ref<const VectorXs>& u) override;
 
+  /**
+   * @brief @copydoc Base::calcDiff(const std::shared_ptr<ResidualDataAbstract>&
+   * data, const Eigen::Ref<const VectorXs>& x)
+   */
+  virtual void calcDiff(const std::shared_ptr<ResidualDataAbstract>& data,
+                        const Eigen::Ref<const VectorXs>& x) override;
+
   /**
    * @brief Create the joint-acceleration residual data
    */
diff --git a/include/crocoddyl/core/residuals/joint-acceleration.hxx b/include/crocoddyl/core/residuals/joint-acceleration.hxx
index 5d81e04..19fd6e9 100644
--- a/include/crocoddyl/core/residuals/joint-acceleration.hxx
+++ b/include/crocoddyl/core/residuals/joint-acceleration.hxx
@@ -70,6 +70,13 @@ void ResidualModelJointAccelerationTpl<Scalar>::calcDiff(
   data->Ru = d->joint->da_du;
 }
 
+template <typename Scalar>
+void ResidualModelJointAccelerationTpl<Scalar>::calcDiff(
+    const std::shared_ptr<ResidualDataAbstract>& data,
+    const Eigen::Ref<const VectorXs>&) {
+  data->Rx.setZero();
+}
+
 template <typename Scalar>
 std::shared_ptr<ResidualDataAbstractTpl<Scalar> >
 ResidualModelJointAccelerationTpl<Scalar>::createData(
-- 
2.43.0


From ff5a8e5b23999a74913b26cea5728c9a02515837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:36 +0000
Subject: [PATCH 27/96] fix: keep the smoothness and limits when casting the
 smooth saturation

---
 include/crocoddyl/core/actuation/squashing/smooth-sat.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp b/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
index 900d915..6277985 100644
--- a/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
+++ b/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
@@ -75,6 +75,9 @@ class SquashingModelSmoothSatTpl : public SquashingModelAbstractTpl<_Scalar> {
     typedef SquashingModelSmoothSatTpl<NewScalar> ReturnType;
     ReturnType ret(u_lb_.template cast<NewScalar>(),
                    u_ub_.template cast<NewScalar>(), ns_);
+    ret.set_smooth(scalar_cast<NewScalar>(smooth_));
+    ret.set_s_lb(s_lb_.template cast<NewScalar>());
+    ret.set_s_ub(s_ub_.template cast<NewScalar>());
     return ret;
   }
 
-- 
2.43.0


From 996c7b33623ab264489f1f78c8cef9ee862f74ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:36 +0000
Subject: [PATCH 28/96] fix: report the state derivatives of squashed
 actuations

---
 include/crocoddyl/core/actuation/actuation-squashing.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crocoddyl/core/actuation/actuation-squashing.hpp b/include/crocoddyl/core/actuation/actuation-squashing.hpp
index d8ce15e..0955d5d 100644
--- a/include/crocoddyl/core/actuation/actuation-squashing.hpp
+++ b/include/crocoddyl/core/actuation/actuation-squashing.hpp
@@ -58,6 +58,7 @@ class ActuationSquashingModelTpl : public ActuationModelAbstractTpl<_Scalar> {
 
     squashing_->calcDiff(d->squashing, u);
     actuation_->calcDiff(d->actuation, x, d->squashing->u);
+    data->dtau_dx = d->actuation->dtau_dx;
     data->dtau_du.noalias() = d->actuation->dtau_du * d->squashing->du_ds;
   };
 
-- 
2.43.0


From 8dc61f382246c07bbacbc4f459ebef45983b9bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:03 +0000
Subject: [PATCH 29/96] fix: size the integrated Gu/Hu from the differential
 data

---
 include/crocoddyl/core/integrator/euler.hxx | 4 ++--
 include/crocoddyl/core/integrator/rk.hxx    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/crocoddyl/core/integrator/euler.hxx b/include/crocoddyl/core/integrator/euler.hxx
index fd538f0..3b58f7f 100644
--- a/include/crocoddyl/core/integrator/euler.hxx
+++ b/include/crocoddyl/core/integrator/euler.hxx
@@ -121,8 +121,8 @@ void IntegratedActionModelEulerTpl<Scalar>::calcDiff(
   d->Luu *= time_step_;
   d->Gx = d->differential->Gx;
   d->Hx = d->differential->Hx;
-  d->Gu.conservativeResize(differential_->get_ng(), nu_);
-  d->Hu.conservativeResize(differential_->get_nh(), nu_);
+  d->Gu.conservativeResize(d->differential->Gu.rows(), nu_);
+  d->Hu.conservativeResize(d->differential->Hu.rows(), nu_);
   control_->multiplyByJacobian(d->control, d->differential->Gu, d->Gu);
   control_->multiplyByJacobian(d->control, d->differential->Hu, d->Hu);
 }
diff --git a/include/crocoddyl/core/integrator/rk.hxx b/include/crocoddyl/core/integrator/rk.hxx
index 215432c..6ed7b46 100644
--- a/include/crocoddyl/core/integrator/rk.hxx
+++ b/include/crocoddyl/core/integrator/rk.hxx
@@ -296,8 +296,8 @@ void IntegratedActionModelRKTpl<Scalar>::calcDiff(
   }
   d->Gx = k0_data->Gx;
   d->Hx = k0_data->Hx;
-  d->Gu.conservativeResize(differential_->get_ng(), nu_);
-  d->Hu.conservativeResize(differential_->get_nh(), nu_);
+  d->Gu.conservativeResize(k0_data->Gu.rows(), nu_);
+  d->Hu.conservativeResize(k0_data->Hu.rows(), nu_);
   control_->multiplyByJacobian(u0_data, k0_data->Gu, d->Gu);
   control_->multiplyByJacobian(u0_data, k0_data->Hu, d->Hu);
 
-- 
2.43.0


From ba7e270c3a2c6a6f4cf551e6e24b909fc6f565e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:44 +0000
Subject: [PATCH 30/96] fix: keep an equality constraint an equality when its
 empty bounds are updated

---
 include/crocoddyl/core/constraint-base.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crocoddyl/core/constraint-base.hxx b/include/crocoddyl/core/constraint-base.hxx
index 1da8480..fae1225 100644
--- a/include/crocoddyl/core/constraint-base.hxx
+++ b/include/crocoddyl/core/constraint-base.hxx
@@ -137,6 +137,8 @@ void ConstraintModelAbstractTpl<Scalar>::update_bounds(const VectorXs& lower,
   ub_ = upper;
   if (nh_ == 0) {
     type_ = ConstraintType::Inequality;
+  } else if (ng_ == 0) {
+    type_ = ConstraintType::Equality;
   } else {
     type_ = ConstraintType::Both;
   }
-- 
2.43.0


From 7bfd47d45be14a74d7010ada918ca47c5add8b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:25 +0000
Subject: [PATCH 31/96] fix: set the given models in
 ShootingProblem::set_runningModels

---
 include/crocoddyl/core/optctrl/shooting.hxx | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/crocoddyl/core/optctrl/shooting.hxx b/include/crocoddyl/core/optctrl/shooting.hxx
index bb33d35..78736d2 100644
--- a/include/crocoddyl/core/optctrl/shooting.hxx
+++ b/include/crocoddyl/core/optctrl/shooting.hxx
@@ -459,7 +459,8 @@ void ShootingProblemTpl<Scalar>::set_x0(const VectorXs& x0_in) {
 template <typename Scalar>
 void ShootingProblemTpl<Scalar>::set_runningModels(
     const std::vector<std::shared_ptr<ActionModelAbstract> >& models) {
-  for (std::size_t i = 0; i < T_; ++i) {
+  const std::size_t T = models.size();
+  for (std::size_t i = 0; i < T; ++i) {
     const std::shared_ptr<ActionModelAbstract>& model = models[i];
     if (model->get_state()->get_nx() != nx_) {
       throw_pretty("Invalid argument: "
@@ -473,13 +474,11 @@ void ShootingProblemTpl<Scalar>::set_runningModels(
     }
   }
   is_updated_ = true;
-  T_ = models.size();
-  running_models_.clear();
+  T_ = T;
+  running_models_ = models;
   running_datas_.clear();
   for (std::size_t i = 0; i < T_; ++i) {
-    const std::shared_ptr<ActionModelAbstract>& model = running_models_[i];
-    running_models_.push_back(model);
-    running_datas_.push_back(model->createData());
+    running_datas_.push_back(running_models_[i]->createData());
   }
 }
 
-- 
2.43.0


From 567f618f3e47c8bc9a51d388be1a9d7676183b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:25 +0000
Subject: [PATCH 32/96] fix: initialise every member in the other
 shooting-problem constructors

---
 include/crocoddyl/core/optctrl/shooting.hxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/optctrl/shooting.hxx b/include/crocoddyl/core/optctrl/shooting.hxx
index 78736d2..83ea811 100644
--- a/include/crocoddyl/core/optctrl/shooting.hxx
+++ b/include/crocoddyl/core/optctrl/shooting.hxx
@@ -78,7 +78,8 @@ ShootingProblemTpl<Scalar>::ShootingProblemTpl(
       running_datas_(running_datas),
       nx_(running_models[0]->get_state()->get_nx()),
       ndx_(running_models[0]->get_state()->get_ndx()),
-      nthreads_(1) {
+      nthreads_(1),
+      is_updated_(false) {
   if (static_cast<std::size_t>(x0.size()) != nx_) {
     throw_pretty(
         "Invalid argument: " << "x0 has wrong dimension (it should be " +
@@ -134,7 +135,9 @@ ShootingProblemTpl<Scalar>::ShootingProblemTpl(
       running_models_(problem.get_runningModels()),
       running_datas_(problem.get_runningDatas()),
       nx_(problem.get_nx()),
-      ndx_(problem.get_ndx()) {}
+      ndx_(problem.get_ndx()),
+      nthreads_(problem.nthreads_),
+      is_updated_(false) {}
 
 template <typename Scalar>
 ShootingProblemTpl<Scalar>::~ShootingProblemTpl() {}
-- 
2.43.0


From b1a0720a85b0d6d74dd0f6a15e1c4276b0a16c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:25 +0000
Subject: [PATCH 33/96] fix: check the terminal state when a shooting problem
 is given its datas

---
 include/crocoddyl/core/optctrl/shooting.hxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/crocoddyl/core/optctrl/shooting.hxx b/include/crocoddyl/core/optctrl/shooting.hxx
index 83ea811..7394700 100644
--- a/include/crocoddyl/core/optctrl/shooting.hxx
+++ b/include/crocoddyl/core/optctrl/shooting.hxx
@@ -111,6 +111,16 @@ ShootingProblemTpl<Scalar>::ShootingProblemTpl(
                    << " node is not consistent with the action model")
     }
   }
+  if (terminal_model_->get_state()->get_nx() != nx_) {
+    throw_pretty(
+        "Invalid argument: "
+        << "nx in terminal node is not consistent with the other nodes")
+  }
+  if (terminal_model_->get_state()->get_ndx() != ndx_) {
+    throw_pretty(
+        "Invalid argument: "
+        << "ndx in terminal node is not consistent with the other nodes")
+  }
   if (!terminal_model->checkData(terminal_data)) {
     throw_pretty("Invalid argument: "
                  << "terminal action data is not consistent with the terminal "
-- 
2.43.0


From 0788e684b7d7a92acc8b57032c9b3f0420b491c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:16 +0000
Subject: [PATCH 34/96] fix: apply the box-QP regularization consistently

---
 src/core/solvers/box-qp.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/solvers/box-qp.cpp b/src/core/solvers/box-qp.cpp
index 17b4160..41ba2bf 100644
--- a/src/core/solvers/box-qp.cpp
+++ b/src/core/solvers/box-qp.cpp
@@ -106,6 +106,7 @@ const BoxQPSolution& BoxQP::solve(const Eigen::MatrixXd& H,
     // Compute the Cauchy point and active set
     g_ = q;
     g_.noalias() += H * x_;
+    g_ += reg_ * x_;
     for (std::size_t j = 0; j < nx_; ++j) {
       const double gj = g_(j);
       const double xj = x_(j);
@@ -163,7 +164,8 @@ const BoxQPSolution& BoxQP::solve(const Eigen::MatrixXd& H,
     }
 
     // Try different step lengths
-    fold_ = 0.5 * x_.dot(H * x_) + q.dot(x_);
+    fold_ =
+        0.5 * x_.dot(H * x_) + q.dot(x_) + 0.5 * reg_ * x_.squaredNorm();
     for (std::vector<double>::const_iterator it = alphas_.begin();
          it != alphas_.end(); ++it) {
       double steplength = *it;
@@ -171,7 +173,8 @@ const BoxQPSolution& BoxQP::solve(const Eigen::MatrixXd& H,
         xnew_(i) =
             std::max(std::min(x_(i) + steplength * dx_(i), ub(i)), lb(i));
       }
-      fnew_ = 0.5 * xnew_.dot(H * xnew_) + q.dot(xnew_);
+      fnew_ = 0.5 * xnew_.dot(H * xnew_) + q.dot(xnew_) +
+              0.5 * reg_ * xnew_.squaredNorm();
       if (fold_ - fnew_ > th_acceptstep_ * g_.dot(x_ - xnew_)) {
         x_ = xnew_;
         break;
-- 
2.43.0


From 8e646f514311121207cf1aa0e12f31f72ea0105a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:16 +0000
Subject: [PATCH 35/96] fix: reject box-QP acceptance thresholds outside (0,
 0.5)

---
 src/core/solvers/box-qp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/solvers/box-qp.cpp b/src/core/solvers/box-qp.cpp
index 41ba2bf..f524a72 100644
--- a/src/core/solvers/box-qp.cpp
+++ b/src/core/solvers/box-qp.cpp
@@ -28,7 +28,7 @@ BoxQP::BoxQP(const std::size_t nx, const std::size_t maxiter,
       qo_(nx),
       Ho_(nx, nx) {
   // Check if values have a proper range
-  if (0. >= th_acceptstep && th_acceptstep >= 0.5) {
+  if (0. >= th_acceptstep || th_acceptstep >= 0.5) {
     std::cerr << "Warning: th_acceptstep value should between 0 and 0.5"
               << std::endl;
   }
@@ -220,7 +220,7 @@ void BoxQP::set_nx(const std::size_t nx) {
 void BoxQP::set_maxiter(const std::size_t maxiter) { maxiter_ = maxiter; }
 
 void BoxQP::set_th_acceptstep(const double th_acceptstep) {
-  if (0. >= th_acceptstep && th_acceptstep >= 0.5) {
+  if (0. >= th_acceptstep || th_acceptstep >= 0.5) {
     throw_pretty(
         "Invalid argument: " << "th_acceptstep value should between 0 and 0.5");
   }
-- 
2.43.0


From 765fc03b2bd9d0b3ad04d3fd7bb7b16f5ac336d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:31 +0000
Subject: [PATCH 36/96] fix: use the gradient's sign in the box-QP acceptance
 condition

---
 src/core/solvers/box-qp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/solvers/box-qp.cpp b/src/core/solvers/box-qp.cpp
index f524a72..f4cc1b4 100644
--- a/src/core/solvers/box-qp.cpp
+++ b/src/core/solvers/box-qp.cpp
@@ -160,7 +160,7 @@ const BoxQPSolution& BoxQP::solve(const Eigen::MatrixXd& H,
     dx_.setZero();
     for (std::size_t i = 0; i < nf_; ++i) {
       dx_(solution_.free_idx[i]) = dxf(i);
-      g_(solution_.free_idx[i]) = -qf(i);
+      g_(solution_.free_idx[i]) = qf(i);
     }
 
     // Try different step lengths
-- 
2.43.0


From caa7967b09d29eb64e92f1f5dac817736f0892e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:46 +0000
Subject: [PATCH 37/96] fix: fall back to a projected-gradient step in the box
 QP

---
 src/core/solvers/box-qp.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/solvers/box-qp.cpp b/src/core/solvers/box-qp.cpp
index f4cc1b4..772b629 100644
--- a/src/core/solvers/box-qp.cpp
+++ b/src/core/solvers/box-qp.cpp
@@ -164,6 +164,7 @@ const BoxQPSolution& BoxQP::solve(const Eigen::MatrixXd& H,
     }
 
     // Try different step lengths
+    bool accepted = false;
     fold_ =
         0.5 * x_.dot(H * x_) + q.dot(x_) + 0.5 * reg_ * x_.squaredNorm();
     for (std::vector<double>::const_iterator it = alphas_.begin();
@@ -177,9 +178,18 @@ const BoxQPSolution& BoxQP::solve(const Eigen::MatrixXd& H,
               0.5 * reg_ * xnew_.squaredNorm();
       if (fold_ - fnew_ > th_acceptstep_ * g_.dot(x_ - xnew_)) {
         x_ = xnew_;
+        accepted = true;
         break;
       }
     }
+    // The projected Newton step may not descend when it hits the bounds, in
+    // contrast to the projected gradient one
+    if (!accepted) {
+      const double L = H.norm() + reg_;
+      for (std::size_t i = 0; i < nx_; ++i) {
+        x_(i) = std::max(std::min(x_(i) - g_(i) / L, ub(i)), lb(i));
+      }
+    }
 
     // Check convergence
     if (qf.lpNorm<Eigen::Infinity>() <= th_grad_) {
-- 
2.43.0


From 8c86552ad6a3b7ee862a0b345cb6010f2b8b1b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:46 +0000
Subject: [PATCH 38/96] fix: reject empty or non-positive step lengths

---
 src/core/solvers/box-qp.cpp | 3 +++
 src/core/solvers/ddp.cpp    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/core/solvers/box-qp.cpp b/src/core/solvers/box-qp.cpp
index 772b629..9eea344 100644
--- a/src/core/solvers/box-qp.cpp
+++ b/src/core/solvers/box-qp.cpp
@@ -252,6 +252,9 @@ void BoxQP::set_reg(const double reg) {
 }
 
 void BoxQP::set_alphas(const std::vector<double>& alphas) {
+  if (alphas.empty() || 0. >= alphas[0]) {
+    throw_pretty("Invalid argument: " << "alpha values has to be positive.");
+  }
   double prev_alpha = alphas[0];
   if (prev_alpha != 1.) {
     std::cerr << "Warning: alpha[0] should be 1" << std::endl;
diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index d0327f1..c1d9d5b 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -564,6 +564,9 @@ void SolverDDP::set_regmax(const double regmax) {
 }
 
 void SolverDDP::set_alphas(const std::vector<double>& alphas) {
+  if (alphas.empty() || 0. >= alphas[0]) {
+    throw_pretty("Invalid argument: " << "alpha values has to be positive.");
+  }
   double prev_alpha = alphas[0];
   if (prev_alpha != 1.) {
     std::cerr << "Warning: alpha[0] should be 1" << std::endl;
-- 
2.43.0


From b96f5e449c2f392220f51946a6a3bddf76a63623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:54 +0000
Subject: [PATCH 39/96] fix: aggregate the inequality feasibility over nodes by
 the selected norm

---
 src/core/solver-base.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/solver-base.cpp b/src/core/solver-base.cpp
index 2bdb394..2039e51 100644
--- a/src/core/solver-base.cpp
+++ b/src/core/solver-base.cpp
@@ -147,8 +147,9 @@ double SolverAbstract::computeInequalityFeasibility() {
             problem_->get_terminalData()
                 ->g.cwiseMax(problem_->get_terminalModel()->get_g_lb())
                 .cwiseMin(problem_->get_terminalModel()->get_g_ub());
-        tmp_feas_ += (problem_->get_terminalData()->g - g_adj_.back())
-                         .lpNorm<Eigen::Infinity>();
+        tmp_feas_ = std::max(tmp_feas_,
+                             (problem_->get_terminalData()->g - g_adj_.back())
+                                 .lpNorm<Eigen::Infinity>());
       }
       break;
     case L1:
@@ -157,8 +158,7 @@ double SolverAbstract::computeInequalityFeasibility() {
           g_adj_[t] = datas[t]
                           ->g.cwiseMax(models[t]->get_g_lb())
                           .cwiseMin(models[t]->get_g_ub());
-          tmp_feas_ =
-              std::max(tmp_feas_, (datas[t]->g - g_adj_[t]).lpNorm<1>());
+          tmp_feas_ += (datas[t]->g - g_adj_[t]).lpNorm<1>();
         }
       }
       if (problem_->get_terminalModel()->get_ng_T() > 0) {
-- 
2.43.0


From c6f0ca4f8d59e641da573fc62431d937efffa20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:54 +0000
Subject: [PATCH 40/96] fix: leave rows of the other node kind out of the
 constraint feasibility

---
 src/core/solver-base.cpp | 47 +++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/core/solver-base.cpp b/src/core/solver-base.cpp
index 2039e51..28d62aa 100644
--- a/src/core/solver-base.cpp
+++ b/src/core/solver-base.cpp
@@ -135,39 +135,47 @@ double SolverAbstract::computeInequalityFeasibility() {
     case LInf:
       for (std::size_t t = 0; t < T; ++t) {
         if (models[t]->get_ng() > 0) {
+          const std::size_t ng = models[t]->get_ng();
           g_adj_[t] = datas[t]
-                          ->g.cwiseMax(models[t]->get_g_lb())
-                          .cwiseMin(models[t]->get_g_ub());
+                          ->g.head(ng)
+                          .cwiseMax(models[t]->get_g_lb().head(ng))
+                          .cwiseMin(models[t]->get_g_ub().head(ng));
           tmp_feas_ = std::max(
-              tmp_feas_, (datas[t]->g - g_adj_[t]).lpNorm<Eigen::Infinity>());
+              tmp_feas_, (datas[t]->g.head(ng) - g_adj_[t]).lpNorm<Eigen::Infinity>());
         }
       }
       if (problem_->get_terminalModel()->get_ng_T() > 0) {
+        const std::size_t ng_T = problem_->get_terminalModel()->get_ng_T();
         g_adj_.back() =
             problem_->get_terminalData()
-                ->g.cwiseMax(problem_->get_terminalModel()->get_g_lb())
-                .cwiseMin(problem_->get_terminalModel()->get_g_ub());
+                ->g.head(ng_T)
+                .cwiseMax(problem_->get_terminalModel()->get_g_lb().head(ng_T))
+                .cwiseMin(problem_->get_terminalModel()->get_g_ub().head(ng_T));
         tmp_feas_ = std::max(tmp_feas_,
-                             (problem_->get_terminalData()->g - g_adj_.back())
+                             (problem_->get_terminalData()->g.head(ng_T) - g_adj_.back())
                                  .lpNorm<Eigen::Infinity>());
       }
       break;
     case L1:
       for (std::size_t t = 0; t < T; ++t) {
         if (models[t]->get_ng() > 0) {
+          const std::size_t ng = models[t]->get_ng();
           g_adj_[t] = datas[t]
-                          ->g.cwiseMax(models[t]->get_g_lb())
-                          .cwiseMin(models[t]->get_g_ub());
-          tmp_feas_ += (datas[t]->g - g_adj_[t]).lpNorm<1>();
+                          ->g.head(ng)
+                          .cwiseMax(models[t]->get_g_lb().head(ng))
+                          .cwiseMin(models[t]->get_g_ub().head(ng));
+          tmp_feas_ += (datas[t]->g.head(ng) - g_adj_[t]).lpNorm<1>();
         }
       }
       if (problem_->get_terminalModel()->get_ng_T() > 0) {
+        const std::size_t ng_T = problem_->get_terminalModel()->get_ng_T();
         g_adj_.back() =
             problem_->get_terminalData()
-                ->g.cwiseMax(problem_->get_terminalModel()->get_g_lb())
-                .cwiseMin(problem_->get_terminalModel()->get_g_ub());
+                ->g.head(ng_T)
+                .cwiseMax(problem_->get_terminalModel()->get_g_lb().head(ng_T))
+                .cwiseMin(problem_->get_terminalModel()->get_g_ub().head(ng_T));
         tmp_feas_ +=
-            (problem_->get_terminalData()->g - g_adj_.back()).lpNorm<1>();
+            (problem_->get_terminalData()->g.head(ng_T) - g_adj_.back()).lpNorm<1>();
       }
       break;
   }
@@ -185,24 +193,29 @@ double SolverAbstract::computeEqualityFeasibility() {
     case LInf:
       for (std::size_t t = 0; t < T; ++t) {
         if (models[t]->get_nh() > 0) {
-          tmp_feas_ =
-              std::max(tmp_feas_, datas[t]->h.lpNorm<Eigen::Infinity>());
+          tmp_feas_ = std::max(
+              tmp_feas_,
+              datas[t]->h.head(models[t]->get_nh()).lpNorm<Eigen::Infinity>());
         }
       }
       if (problem_->get_terminalModel()->get_nh_T() > 0) {
         tmp_feas_ =
             std::max(tmp_feas_,
-                     problem_->get_terminalData()->h.lpNorm<Eigen::Infinity>());
+                     problem_->get_terminalData()
+                         ->h.head(problem_->get_terminalModel()->get_nh_T())
+                         .lpNorm<Eigen::Infinity>());
       }
       break;
     case L1:
       for (std::size_t t = 0; t < T; ++t) {
         if (models[t]->get_nh() > 0) {
-          tmp_feas_ += datas[t]->h.lpNorm<1>();
+          tmp_feas_ += datas[t]->h.head(models[t]->get_nh()).lpNorm<1>();
         }
       }
       if (problem_->get_terminalModel()->get_nh_T() > 0) {
-        tmp_feas_ += problem_->get_terminalData()->h.lpNorm<1>();
+        tmp_feas_ += problem_->get_terminalData()
+                         ->h.head(problem_->get_terminalModel()->get_nh_T())
+                         .lpNorm<1>();
       }
       break;
   }
-- 
2.43.0


From 790158c5ecd24be18973fa70690bde1c3a77a396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:05 +0000
Subject: [PATCH 41/96] fix: resize the solvers to the horizon of an edited
 problem

---
 src/core/solver-base.cpp   |  4 ++++
 src/core/solvers/ddp.cpp   |  7 ++++++-
 src/core/solvers/intro.cpp | 17 +++++++++++++++++
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/core/solver-base.cpp b/src/core/solver-base.cpp
index 28d62aa..04593a8 100644
--- a/src/core/solver-base.cpp
+++ b/src/core/solver-base.cpp
@@ -75,6 +75,10 @@ void SolverAbstract::resizeData() {
   const std::size_t ng_T = problem_->get_terminalModel()->get_ng_T();
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
+  xs_.resize(T + 1, problem_->get_terminalModel()->get_state()->zero());
+  us_.resize(T);
+  fs_.resize(T + 1, Eigen::VectorXd::Zero(problem_->get_ndx()));
+  g_adj_.resize(T + 1);
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<ActionModelAbstract>& model = models[t];
     const std::size_t nu = model->get_nu();
diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index c1d9d5b..cfde37b 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -174,6 +174,11 @@ void SolverDDP::resizeData() {
   SolverAbstract::resizeData();
 
   const std::size_t T = problem_->get_T();
+  if (us_try_.size() != T) {
+    allocateData();
+    STOP_PROFILER("SolverDDP::resizeData");
+    return;
+  }
   const std::size_t ndx = problem_->get_ndx();
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
@@ -184,7 +189,7 @@ void SolverDDP::resizeData() {
     Quu_[t].conservativeResize(nu, nu);
     Qu_[t].conservativeResize(nu);
     K_[t].conservativeResize(nu, ndx);
-    k_[t].conservativeResize(nu);
+    k_[t].conservativeResizeLike(Eigen::VectorXd::Zero(nu));
     us_try_[t].conservativeResize(nu);
     FuTVxx_p_[t].conservativeResize(nu, ndx);
     Quuk_[t].conservativeResize(nu);
diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index dcb2f20..77047be 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -200,6 +200,23 @@ void SolverIntro::resizeData() {
   SolverFDDP::resizeData();
 
   const std::size_t T = problem_->get_T();
+  Hu_rank_.resize(T);
+  KQuu_tmp_.resize(T);
+  YZ_.resize(T);
+  Hy_.resize(T);
+  Qz_.resize(T);
+  Qzz_.resize(T);
+  Qxz_.resize(T);
+  Quz_.resize(T);
+  kz_.resize(T);
+  Kz_.resize(T);
+  ks_.resize(T);
+  Ks_.resize(T);
+  QuuinvHuT_.resize(T);
+  Qzz_llt_.resize(T);
+  Hu_lu_.resize(T);
+  Hu_qr_.resize(T);
+  Hy_lu_.resize(T);
   const std::size_t ndx = problem_->get_ndx();
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
-- 
2.43.0


From 2a57e4e94421d9fae3d39bff3e90fc733736c6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:13 +0000
Subject: [PATCH 42/96] fix: apply the running dynamics to nodes without
 controls in the rollouts

---
 src/core/solvers/box-ddp.cpp  | 4 +---
 src/core/solvers/box-fddp.cpp | 8 ++------
 src/core/solvers/ddp.cpp      | 4 +---
 src/core/solvers/fddp.cpp     | 8 ++------
 4 files changed, 6 insertions(+), 18 deletions(-)

diff --git a/src/core/solvers/box-ddp.cpp b/src/core/solvers/box-ddp.cpp
index b25a38d..b2da02d 100644
--- a/src/core/solvers/box-ddp.cpp
+++ b/src/core/solvers/box-ddp.cpp
@@ -134,10 +134,8 @@ void SolverBoxDDP::forwardPass(double steplength) {
       if (m->get_has_control_limits()) {  // clamp control
         us_try_[t] = us_try_[t].cwiseMax(m->get_u_lb()).cwiseMin(m->get_u_ub());
       }
-      m->calc(d, xs_try_[t], us_try_[t]);
-    } else {
-      m->calc(d, xs_try_[t]);
     }
+    m->calc(d, xs_try_[t], us_try_[t]);
     xnext_ = d->xnext;
     cost_try_ += d->cost;
 
diff --git a/src/core/solvers/box-fddp.cpp b/src/core/solvers/box-fddp.cpp
index 06f7dcf..f516de2 100644
--- a/src/core/solvers/box-fddp.cpp
+++ b/src/core/solvers/box-fddp.cpp
@@ -125,10 +125,8 @@ void SolverBoxFDDP::forwardPass(const double steplength) {
           us_try_[t] =
               us_try_[t].cwiseMax(m->get_u_lb()).cwiseMin(m->get_u_ub());
         }
-        m->calc(d, xs_try_[t], us_try_[t]);
-      } else {
-        m->calc(d, xs_try_[t]);
       }
+      m->calc(d, xs_try_[t], us_try_[t]);
       xnext_ = d->xnext;
       cost_try_ += d->cost;
 
@@ -163,10 +161,8 @@ void SolverBoxFDDP::forwardPass(const double steplength) {
           us_try_[t] =
               us_try_[t].cwiseMax(m->get_u_lb()).cwiseMin(m->get_u_ub());
         }
-        m->calc(d, xs_try_[t], us_try_[t]);
-      } else {
-        m->calc(d, xs_try_[t]);
       }
+      m->calc(d, xs_try_[t], us_try_[t]);
       xnext_ = d->xnext;
       cost_try_ += d->cost;
 
diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index cfde37b..8443777 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -276,10 +276,8 @@ void SolverDDP::forwardPass(const double steplength) {
       us_try_[t].noalias() = us_[t];
       us_try_[t].noalias() -= k_[t] * steplength;
       us_try_[t].noalias() -= K_[t] * dx_[t];
-      m->calc(d, xs_try_[t], us_try_[t]);
-    } else {
-      m->calc(d, xs_try_[t]);
     }
+    m->calc(d, xs_try_[t], us_try_[t]);
     xs_try_[t + 1] = d->xnext;
     cost_try_ += d->cost;
 
diff --git a/src/core/solvers/fddp.cpp b/src/core/solvers/fddp.cpp
index 6864abf..3aab718 100644
--- a/src/core/solvers/fddp.cpp
+++ b/src/core/solvers/fddp.cpp
@@ -195,10 +195,8 @@ void SolverFDDP::forwardPass(const double steplength) {
       m->get_state()->diff(xs_[t], xs_try_[t], dx_[t]);
       if (nu != 0) {
         us_try_[t].noalias() = us_[t] - k_[t] * steplength - K_[t] * dx_[t];
-        m->calc(d, xs_try_[t], us_try_[t]);
-      } else {
-        m->calc(d, xs_try_[t]);
       }
+      m->calc(d, xs_try_[t], us_try_[t]);
       xnext_ = d->xnext;
       cost_try_ += d->cost;
 
@@ -232,10 +230,8 @@ void SolverFDDP::forwardPass(const double steplength) {
       m->get_state()->diff(xs_[t], xs_try_[t], dx_[t]);
       if (nu != 0) {
         us_try_[t].noalias() = us_[t] - k_[t] * steplength - K_[t] * dx_[t];
-        m->calc(d, xs_try_[t], us_try_[t]);
-      } else {
-        m->calc(d, xs_try_[t]);
       }
+      m->calc(d, xs_try_[t], us_try_[t]);
       xnext_ = d->xnext;
       cost_try_ += d->cost;
 
-- 
2.43.0


From 42fc850dc9d147bcc5309b6d5cd9cee62a151a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:13 +0000
Subject: [PATCH 43/96] fix: report the feasibility of the accepted candidate

---
 src/core/solvers/ddp.cpp   | 7 +++++++
 src/core/solvers/fddp.cpp  | 7 +++++++
 src/core/solvers/intro.cpp | 6 ++++++
 3 files changed, 20 insertions(+)

diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index 8443777..db4b685 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -102,6 +102,13 @@ bool SolverDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
       }
     }
 
+    // Update the feasibilities to the accepted candidate
+    if (recalcDiff) {
+      ffeas_ = computeDynamicFeasibility();
+      gfeas_ = computeInequalityFeasibility();
+      hfeas_ = computeEqualityFeasibility();
+    }
+
     if (steplength_ > th_stepdec_) {
       decreaseRegularization();
     }
diff --git a/src/core/solvers/fddp.cpp b/src/core/solvers/fddp.cpp
index 3aab718..4e7a0da 100644
--- a/src/core/solvers/fddp.cpp
+++ b/src/core/solvers/fddp.cpp
@@ -93,6 +93,13 @@ bool SolverFDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
       }
     }
 
+    // Update the feasibilities to the accepted candidate
+    if (recalcDiff) {
+      ffeas_ = computeDynamicFeasibility();
+      gfeas_ = computeInequalityFeasibility();
+      hfeas_ = computeEqualityFeasibility();
+    }
+
     if (steplength_ > th_stepdec_) {
       decreaseRegularization();
     }
diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index 77047be..75f9ced 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -157,6 +157,12 @@ bool SolverIntro::solve(const std::vector<Eigen::VectorXd>& init_xs,
       }
     }
 
+    // Update the feasibilities to the accepted candidate
+    if (recalcDiff) {
+      ffeas_ = computeDynamicFeasibility();
+      gfeas_ = computeInequalityFeasibility();
+    }
+
     stoppingCriteria();
     const std::size_t n_callbacks = callbacks_.size();
     for (std::size_t c = 0; c < n_callbacks; ++c) {
-- 
2.43.0


From de4a61c9c021d7f780816e191e7efed521c678f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:13 +0000
Subject: [PATCH 44/96] fix: close the terminal gap in the box-DDP rollout

---
 src/core/solvers/box-ddp.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/core/solvers/box-ddp.cpp b/src/core/solvers/box-ddp.cpp
index b2da02d..37973f9 100644
--- a/src/core/solvers/box-ddp.cpp
+++ b/src/core/solvers/box-ddp.cpp
@@ -151,12 +151,7 @@ void SolverBoxDDP::forwardPass(double steplength) {
 
   const std::shared_ptr<ActionModelAbstract>& m = problem_->get_terminalModel();
   const std::shared_ptr<ActionDataAbstract>& d = problem_->get_terminalData();
-  if ((is_feasible_) || (steplength == 1)) {
-    xs_try_.back() = xnext_;
-  } else {
-    m->get_state()->integrate(xnext_, fs_.back() * (steplength - 1),
-                              xs_try_.back());
-  }
+  xs_try_.back() = xnext_;
   m->calc(d, xs_try_.back());
   cost_try_ += d->cost;
 
-- 
2.43.0


From 67602458c3082a293bc935ad9787a0b10ab24ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:13 +0000
Subject: [PATCH 45/96] fix: size the box QP for the controls of each node

---
 src/core/solvers/box-ddp.cpp  | 3 +++
 src/core/solvers/box-fddp.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/core/solvers/box-ddp.cpp b/src/core/solvers/box-ddp.cpp
index 37973f9..38ca57a 100644
--- a/src/core/solvers/box-ddp.cpp
+++ b/src/core/solvers/box-ddp.cpp
@@ -75,6 +75,9 @@ void SolverBoxDDP::computeGains(const std::size_t t) {
       return;
     }
 
+    if (qp_.get_nx() != nu) {
+      qp_.set_nx(nu);
+    }
     du_lb_[t] = problem_->get_runningModels()[t]->get_u_lb() - us_[t];
     du_ub_[t] = problem_->get_runningModels()[t]->get_u_ub() - us_[t];
 
diff --git a/src/core/solvers/box-fddp.cpp b/src/core/solvers/box-fddp.cpp
index f516de2..775713f 100644
--- a/src/core/solvers/box-fddp.cpp
+++ b/src/core/solvers/box-fddp.cpp
@@ -74,6 +74,9 @@ void SolverBoxFDDP::computeGains(const std::size_t t) {
       return;
     }
 
+    if (qp_.get_nx() != nu) {
+      qp_.set_nx(nu);
+    }
     du_lb_[t] = problem_->get_runningModels()[t]->get_u_lb() - us_[t];
     du_ub_[t] = problem_->get_runningModels()[t]->get_u_ub() - us_[t];
 
-- 
2.43.0


From 61a20b5e1452192559ffd40c81b26043779f6785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:36 +0000
Subject: [PATCH 46/96] fix: stop the KKT solver when its direction cannot be
 computed

---
 src/core/solvers/kkt.cpp | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/core/solvers/kkt.cpp b/src/core/solvers/kkt.cpp
index d922f4b..6faccd7 100644
--- a/src/core/solvers/kkt.cpp
+++ b/src/core/solvers/kkt.cpp
@@ -38,20 +38,12 @@ bool SolverKKT::solve(const std::vector<Eigen::VectorXd>& init_xs,
                       const std::size_t maxiter, const bool is_feasible,
                       const double) {
   setCandidate(init_xs, init_us, is_feasible);
-  bool recalc = true;
+  const bool recalc = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
-    while (true) {
-      try {
-        computeDirection(recalc);
-      } catch (std::exception& e) {
-        recalc = false;
-        if (preg_ == reg_max_) {
-          return false;
-        } else {
-          continue;
-        }
-      }
-      break;
+    try {
+      computeDirection(recalc);
+    } catch (std::exception& e) {
+      return false;  // the KKT system isn't regularized
     }
 
     expectedImprovement();
-- 
2.43.0


From 1608527e6af28fb1d473bc64a3a4db1a3b8e6952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:36 +0000
Subject: [PATCH 47/96] fix: forget the feasibility of earlier runs in the KKT
 solver

---
 src/core/solvers/kkt.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/solvers/kkt.cpp b/src/core/solvers/kkt.cpp
index 6faccd7..84fb978 100644
--- a/src/core/solvers/kkt.cpp
+++ b/src/core/solvers/kkt.cpp
@@ -38,6 +38,7 @@ bool SolverKKT::solve(const std::vector<Eigen::VectorXd>& init_xs,
                       const std::size_t maxiter, const bool is_feasible,
                       const double) {
   setCandidate(init_xs, init_us, is_feasible);
+  was_feasible_ = false;
   const bool recalc = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
     try {
-- 
2.43.0


From 9375207f94ee6a8f192d2a38a9b0a16ac884a2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:36 +0000
Subject: [PATCH 48/96] fix: resize the KKT system of an edited problem

---
 include/crocoddyl/core/solvers/kkt.hpp | 1 +
 src/core/solvers/kkt.cpp               | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/include/crocoddyl/core/solvers/kkt.hpp b/include/crocoddyl/core/solvers/kkt.hpp
index f9f9970..37d1811 100644
--- a/include/crocoddyl/core/solvers/kkt.hpp
+++ b/include/crocoddyl/core/solvers/kkt.hpp
@@ -31,6 +31,7 @@ class SolverKKT : public SolverAbstract {
   virtual double tryStep(const double steplength = 1);
   virtual double stoppingCriteria();
   virtual const Eigen::Vector2d& expectedImprovement();
+  virtual void resizeData();
 
   const Eigen::MatrixXd& get_kkt() const;
   const Eigen::VectorXd& get_kktref() const;
diff --git a/src/core/solvers/kkt.cpp b/src/core/solvers/kkt.cpp
index 84fb978..5b079cf 100644
--- a/src/core/solvers/kkt.cpp
+++ b/src/core/solvers/kkt.cpp
@@ -37,6 +37,9 @@ bool SolverKKT::solve(const std::vector<Eigen::VectorXd>& init_xs,
                       const std::vector<Eigen::VectorXd>& init_us,
                       const std::size_t maxiter, const bool is_feasible,
                       const double) {
+  if (problem_->is_updated()) {
+    resizeData();
+  }
   setCandidate(init_xs, init_us, is_feasible);
   was_feasible_ = false;
   const bool recalc = true;
@@ -109,6 +112,11 @@ void SolverKKT::computeDirection(const bool recalc) {
   lambdas_.back() = dual_.segment(ix, ndxi);
 }
 
+void SolverKKT::resizeData() {
+  SolverAbstract::resizeData();
+  allocateData();
+}
+
 double SolverKKT::tryStep(const double steplength) {
   const std::size_t T = problem_->get_T();
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
-- 
2.43.0


From 39bf8e906e2541afdf6f4770ed2af01536044576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:36 +0000
Subject: [PATCH 49/96] fix: resize the Ipopt transcription of an edited
 problem

---
 src/core/solvers/ipopt.cpp             |  3 +++
 src/core/solvers/ipopt/ipopt-iface.cpp | 10 ++++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/core/solvers/ipopt.cpp b/src/core/solvers/ipopt.cpp
index 4b6f4e3..7d52d8e 100644
--- a/src/core/solvers/ipopt.cpp
+++ b/src/core/solvers/ipopt.cpp
@@ -28,6 +28,9 @@ bool SolverIpopt::solve(const std::vector<Eigen::VectorXd>& init_xs,
                         const std::vector<Eigen::VectorXd>& init_us,
                         const std::size_t maxiter, const bool is_feasible,
                         const double /*reg_init*/) {
+  if (problem_->is_updated()) {
+    resizeData();
+  }
   setCandidate(init_xs, init_us, is_feasible);
   ipopt_iface_->set_xs(xs_);
   ipopt_iface_->set_us(us_);
diff --git a/src/core/solvers/ipopt/ipopt-iface.cpp b/src/core/solvers/ipopt/ipopt-iface.cpp
index 33797f2..9d787ea 100644
--- a/src/core/solvers/ipopt/ipopt-iface.cpp
+++ b/src/core/solvers/ipopt/ipopt-iface.cpp
@@ -52,6 +52,16 @@ IpoptInterface::IpoptInterface(const std::shared_ptr<ShootingProblem>& problem)
 
 void IpoptInterface::resizeData() {
   const std::size_t T = problem_->get_T();
+  xs_.resize(T + 1);
+  us_.resize(T);
+  datas_.resize(T + 1);
+  ixu_.resize(T + 1);
+  for (std::size_t t = 0; t <= T; ++t) {
+    if (datas_[t] == nullptr) {
+      datas_[t] = createData(0, 0, 0);
+    }
+  }
+  nconst_ = 0;
   nvar_ = 0;
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
-- 
2.43.0


From 09a037aa77407ea233887d122170f852f8b01dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:36 +0000
Subject: [PATCH 50/96] fix: start the Ipopt objective from zero

---
 src/core/solvers/ipopt/ipopt-iface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/solvers/ipopt/ipopt-iface.cpp b/src/core/solvers/ipopt/ipopt-iface.cpp
index 9d787ea..68981f0 100644
--- a/src/core/solvers/ipopt/ipopt-iface.cpp
+++ b/src/core/solvers/ipopt/ipopt-iface.cpp
@@ -251,6 +251,8 @@ bool IpoptInterface::eval_f(Ipopt::Index, const Ipopt::Number* x, bool,
   assert_pretty(n == static_cast<Ipopt::Index>(nvar_),
                 "Inconsistent number of decision variables");
 
+  obj_value = 0.;
+
   // Running costs
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
-- 
2.43.0


From a1694a6326bbd0ca2913532ca1c879c8f3130ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:36 +0000
Subject: [PATCH 51/96] fix: scale the terminal Hessian by the objective factor

---
 src/core/solvers/ipopt/ipopt-iface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/solvers/ipopt/ipopt-iface.cpp b/src/core/solvers/ipopt/ipopt-iface.cpp
index 68981f0..037a914 100644
--- a/src/core/solvers/ipopt/ipopt-iface.cpp
+++ b/src/core/solvers/ipopt/ipopt-iface.cpp
@@ -713,7 +713,7 @@ bool IpoptInterface::eval_h(Ipopt::Index, const Ipopt::Number* x, bool,
         if (idx_col > idx_row) {
           break;
         }
-        values[idx] = datas_[T]->Ldxdx(idx_row, idx_col);
+        values[idx] = obj_factor * datas_[T]->Ldxdx(idx_row, idx_col);
         idx++;
       }
     }
-- 
2.43.0


From 129ca4ddf89a3a331c5118996cf16666c58dd24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:36 +0000
Subject: [PATCH 52/96] fix: evaluate the models before differentiating them in
 the Ipopt callbacks

---
 src/core/solvers/ipopt/ipopt-iface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/solvers/ipopt/ipopt-iface.cpp b/src/core/solvers/ipopt/ipopt-iface.cpp
index 037a914..cc2a2ae 100644
--- a/src/core/solvers/ipopt/ipopt-iface.cpp
+++ b/src/core/solvers/ipopt/ipopt-iface.cpp
@@ -506,6 +506,7 @@ bool IpoptInterface::eval_jac_g(Ipopt::Index, const Ipopt::Number* x, bool,
       model->get_state()->integrate(xs_[t], datas_[t]->dx, datas_[t]->x);
       model_next->get_state()->integrate(xs_[t + 1], datas_[t]->dxnext,
                                          datas_[t]->xnext);
+      model->calc(data, datas_[t]->x, datas_[t]->u);
       model->calcDiff(data, datas_[t]->x, datas_[t]->u);
       model_next->get_state()->Jintegrate(
           xs_[t + 1], datas_[t]->dxnext, datas_[t]->Jint_dxnext,
@@ -652,6 +653,7 @@ bool IpoptInterface::eval_h(Ipopt::Index, const Ipopt::Number* x, bool,
       datas_[t]->u = Eigen::VectorXd::Map(x + ixu_[t] + ndxi, nui);
 
       model->get_state()->integrate(xs_[t], datas_[t]->dx, datas_[t]->x);
+      model->calc(data, datas_[t]->x, datas_[t]->u);
       model->calcDiff(data, datas_[t]->x,
                       datas_[t]->u);  // this might be removed
       model->get_state()->Jintegrate(xs_[t], datas_[t]->dx, datas_[t]->Jint_dx,
-- 
2.43.0


From aa6f8cfdde05a2e9bffc15cbdd0958177aa21c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:36 +0000
Subject: [PATCH 53/96] fix: resize the solvers although another solver read
 the update flag

---
 src/core/solvers/ddp.cpp   | 5 ++---
 src/core/solvers/fddp.cpp  | 5 ++---
 src/core/solvers/intro.cpp | 5 ++---
 src/core/solvers/ipopt.cpp | 5 ++---
 src/core/solvers/kkt.cpp   | 5 ++---
 5 files changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index db4b685..7e57233 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -43,9 +43,8 @@ bool SolverDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
                       const std::size_t maxiter, const bool is_feasible,
                       const double init_reg) {
   START_PROFILER("SolverDDP::solve");
-  if (problem_->is_updated()) {
-    resizeData();
-  }
+  problem_->is_updated();  // another solver might have read the flag
+  resizeData();
   xs_try_[0] =
       problem_->get_x0();  // it is needed in case that init_xs[0] is infeasible
   setCandidate(init_xs, init_us, is_feasible);
diff --git a/src/core/solvers/fddp.cpp b/src/core/solvers/fddp.cpp
index 4e7a0da..67187f9 100644
--- a/src/core/solvers/fddp.cpp
+++ b/src/core/solvers/fddp.cpp
@@ -25,9 +25,8 @@ bool SolverFDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
                        const std::size_t maxiter, const bool is_feasible,
                        const double init_reg) {
   START_PROFILER("SolverFDDP::solve");
-  if (problem_->is_updated()) {
-    resizeData();
-  }
+  problem_->is_updated();  // another solver might have read the flag
+  resizeData();
   xs_try_[0] =
       problem_->get_x0();  // it is needed in case that init_xs[0] is infeasible
   setCandidate(init_xs, init_us, is_feasible);
diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index 75f9ced..80b62bf 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -72,9 +72,8 @@ bool SolverIntro::solve(const std::vector<Eigen::VectorXd>& init_xs,
                         const std::size_t maxiter, const bool is_feasible,
                         const double init_reg) {
   START_PROFILER("SolverIntro::solve");
-  if (problem_->is_updated()) {
-    resizeData();
-  }
+  problem_->is_updated();  // another solver might have read the flag
+  resizeData();
   xs_try_[0] =
       problem_->get_x0();  // it is needed in case that init_xs[0] is infeasible
   setCandidate(init_xs, init_us, is_feasible);
diff --git a/src/core/solvers/ipopt.cpp b/src/core/solvers/ipopt.cpp
index 7d52d8e..26d4b56 100644
--- a/src/core/solvers/ipopt.cpp
+++ b/src/core/solvers/ipopt.cpp
@@ -28,9 +28,8 @@ bool SolverIpopt::solve(const std::vector<Eigen::VectorXd>& init_xs,
                         const std::vector<Eigen::VectorXd>& init_us,
                         const std::size_t maxiter, const bool is_feasible,
                         const double /*reg_init*/) {
-  if (problem_->is_updated()) {
-    resizeData();
-  }
+  problem_->is_updated();  // another solver might have read the flag
+  resizeData();
   setCandidate(init_xs, init_us, is_feasible);
   ipopt_iface_->set_xs(xs_);
   ipopt_iface_->set_us(us_);
diff --git a/src/core/solvers/kkt.cpp b/src/core/solvers/kkt.cpp
index 5b079cf..20a7277 100644
--- a/src/core/solvers/kkt.cpp
+++ b/src/core/solvers/kkt.cpp
@@ -37,9 +37,8 @@ bool SolverKKT::solve(const std::vector<Eigen::VectorXd>& init_xs,
                       const std::vector<Eigen::VectorXd>& init_us,
                       const std::size_t maxiter, const bool is_feasible,
                       const double) {
-  if (problem_->is_updated()) {
-    resizeData();
-  }
+  problem_->is_updated();  // another solver might have read the flag
+  resizeData();
   setCandidate(init_xs, init_us, is_feasible);
   was_feasible_ = false;
   const bool recalc = true;
-- 
2.43.0


From a33626c6d7ec47da4d558e70a6db5b65759a6050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:36 +0000
Subject: [PATCH 54/96] fix: leave the candidate unchanged when a warm start is
 rejected

---
 src/core/solver-base.cpp | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/core/solver-base.cpp b/src/core/solver-base.cpp
index 04593a8..b4ea3a8 100644
--- a/src/core/solver-base.cpp
+++ b/src/core/solver-base.cpp
@@ -233,13 +233,8 @@ void SolverAbstract::setCandidate(const std::vector<Eigen::VectorXd>& xs_warm,
 
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
-  if (xs_warm.size() == 0) {
-    for (std::size_t t = 0; t < T; ++t) {
-      const std::shared_ptr<ActionModelAbstract>& model = models[t];
-      xs_[t] = model->get_state()->zero();
-    }
-    xs_.back() = problem_->get_terminalModel()->get_state()->zero();
-  } else {
+  // Check both trajectories before changing the candidate
+  if (xs_warm.size() != 0) {
     if (xs_warm.size() != T + 1) {
       throw_pretty("Warm start state vector has wrong dimension, got "
                    << xs_warm.size() << " expecting " << (T + 1));
@@ -266,16 +261,8 @@ void SolverAbstract::setCandidate(const std::vector<Eigen::VectorXd>& xs_warm,
                           std::to_string(nx) + "). ActionModel: "
                    << *problem_->get_terminalModel());
     }
-    std::copy(xs_warm.begin(), xs_warm.end(), xs_.begin());
   }
-
-  if (us_warm.size() == 0) {
-    for (std::size_t t = 0; t < T; ++t) {
-      const std::shared_ptr<ActionModelAbstract>& model = models[t];
-      const std::size_t nu = model->get_nu();
-      us_[t] = Eigen::VectorXd::Zero(nu);
-    }
-  } else {
+  if (us_warm.size() != 0) {
     if (us_warm.size() != T) {
       throw_pretty("Warm start control has wrong dimension, got "
                    << us_warm.size() << " expecting " << T);
@@ -293,6 +280,25 @@ void SolverAbstract::setCandidate(const std::vector<Eigen::VectorXd>& xs_warm,
                      << *model);
       }
     }
+  }
+
+  if (xs_warm.size() == 0) {
+    for (std::size_t t = 0; t < T; ++t) {
+      const std::shared_ptr<ActionModelAbstract>& model = models[t];
+      xs_[t] = model->get_state()->zero();
+    }
+    xs_.back() = problem_->get_terminalModel()->get_state()->zero();
+  } else {
+    std::copy(xs_warm.begin(), xs_warm.end(), xs_.begin());
+  }
+
+  if (us_warm.size() == 0) {
+    for (std::size_t t = 0; t < T; ++t) {
+      const std::shared_ptr<ActionModelAbstract>& model = models[t];
+      const std::size_t nu = model->get_nu();
+      us_[t] = Eigen::VectorXd::Zero(nu);
+    }
+  } else {
     std::copy(us_warm.begin(), us_warm.end(), us_.begin());
   }
   is_feasible_ = is_feasible;
-- 
2.43.0


From a754d1ea0a6c69ddbd4db588093685c900631244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:52 +0000
Subject: [PATCH 55/96] fix: leave terminal-only constraint rows out of the
 equality solver

---
 src/core/solvers/intro.cpp | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index 80b62bf..bf232d6 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -262,21 +262,22 @@ double SolverIntro::calcDiff() {
         const std::shared_ptr<crocoddyl::ActionModelAbstract>& model =
             models[t];
         const std::shared_ptr<crocoddyl::ActionDataAbstract>& data = datas[t];
-        if (model->get_nu() > 0 && model->get_nh() > 0) {
-          Hu_lu_[t].compute(data->Hu);
+        const std::size_t nh = model->get_nh();
+        if (model->get_nu() > 0 && nh > 0) {
+          Hu_lu_[t].compute(data->Hu.topRows(nh));
           Hu_rank_[t] = Hu_lu_[t].rank();
           YZ_[t].leftCols(Hu_rank_[t]).noalias() =
-              (Hu_lu_[t].permutationP() * data->Hu).transpose();
+              (Hu_lu_[t].permutationP() * data->Hu.topRows(nh)).transpose();
           YZ_[t].rightCols(model->get_nu() - Hu_rank_[t]) = Hu_lu_[t].kernel();
           const Eigen::Block<Eigen::MatrixXd, Eigen::Dynamic, Eigen::Dynamic,
                              Eigen::RowMajor>
               Y = YZ_[t].leftCols(Hu_lu_[t].rank());
-          Hy_[t].noalias() = data->Hu * Y;
+          Hy_[t].noalias() = data->Hu.topRows(nh) * Y;
           Hy_lu_[t].compute(Hy_[t]);
           const Eigen::Inverse<Eigen::PartialPivLU<Eigen::MatrixXd> > Hy_inv =
               Hy_lu_[t].inverse();
-          ks_[t].noalias() = Hy_inv * data->h;
-          Ks_[t].noalias() = Hy_inv * data->Hx;
+          ks_[t].noalias() = Hy_inv * data->h.head(nh);
+          Ks_[t].noalias() = Hy_inv * data->Hx.topRows(nh);
           kz_[t].noalias() = Y * ks_[t];
           Kz_[t].noalias() = Y * Ks_[t];
         }
@@ -290,19 +291,20 @@ double SolverIntro::calcDiff() {
         const std::shared_ptr<crocoddyl::ActionModelAbstract>& model =
             models[t];
         const std::shared_ptr<crocoddyl::ActionDataAbstract>& data = datas[t];
-        if (model->get_nu() > 0 && model->get_nh() > 0) {
-          Hu_qr_[t].compute(data->Hu.transpose());
+        const std::size_t nh = model->get_nh();
+        if (model->get_nu() > 0 && nh > 0) {
+          Hu_qr_[t].compute(data->Hu.topRows(nh).transpose());
           YZ_[t] = Hu_qr_[t].householderQ();
           Hu_rank_[t] = Hu_qr_[t].rank();
           const Eigen::Block<Eigen::MatrixXd, Eigen::Dynamic, Eigen::Dynamic,
                              Eigen::RowMajor>
               Y = YZ_[t].leftCols(Hu_qr_[t].rank());
-          Hy_[t].noalias() = data->Hu * Y;
+          Hy_[t].noalias() = data->Hu.topRows(nh) * Y;
           Hy_lu_[t].compute(Hy_[t]);
           const Eigen::Inverse<Eigen::PartialPivLU<Eigen::MatrixXd> > Hy_inv =
               Hy_lu_[t].inverse();
-          ks_[t].noalias() = Hy_inv * data->h;
-          Ks_[t].noalias() = Hy_inv * data->Hx;
+          ks_[t].noalias() = Hy_inv * data->h.head(nh);
+          Ks_[t].noalias() = Hy_inv * data->Hx.topRows(nh);
           kz_[t].noalias() = Y * ks_[t];
           Kz_[t].noalias() = Y * Ks_[t];
         }
@@ -397,9 +399,9 @@ void SolverIntro::computeGains(const std::size_t t) {
       SolverFDDP::computeGains(t);
       if (nu > 0 && nh > 0) {
         START_PROFILER("SolverIntro::Qzz_inv");
-        QuuinvHuT_[t] = data->Hu.transpose();
+        QuuinvHuT_[t] = data->Hu.topRows(nh).transpose();
         Quu_llt_[t].solveInPlace(QuuinvHuT_[t]);
-        Qzz_[t].noalias() = data->Hu * QuuinvHuT_[t];
+        Qzz_[t].noalias() = data->Hu.topRows(nh) * QuuinvHuT_[t];
         Qzz_llt_[t].compute(Qzz_[t]);
         STOP_PROFILER("SolverIntro::Qzz_inv");
         const Eigen::ComputationInfo& info = Qzz_llt_[t].info();
@@ -408,10 +410,10 @@ void SolverIntro::computeGains(const std::size_t t) {
         }
         Eigen::Transpose<Eigen::MatrixXd> HuQuuinv = QuuinvHuT_[t].transpose();
         Qzz_llt_[t].solveInPlace(HuQuuinv);
-        ks_[t] = data->h;
-        ks_[t].noalias() -= data->Hu * k_[t];
-        Ks_[t] = data->Hx;
-        Ks_[t].noalias() -= data->Hu * K_[t];
+        ks_[t] = data->h.head(nh);
+        ks_[t].noalias() -= data->Hu.topRows(nh) * k_[t];
+        Ks_[t] = data->Hx.topRows(nh);
+        Ks_[t].noalias() -= data->Hu.topRows(nh) * K_[t];
         k_[t].noalias() += QuuinvHuT_[t] * ks_[t];
         K_[t] += QuuinvHuT_[t] * Ks_[t];
       }
-- 
2.43.0


From 6e5a3857ed55efe3bf6ec3f8fb097ad7b3ab1bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:45 +0000
Subject: [PATCH 56/96] fix: solve linearly dependent equality constraints in
 the least-squares sense

---
 src/core/solvers/intro.cpp | 55 +++++++++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 12 deletions(-)

diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index bf232d6..b2723cc 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -12,6 +12,25 @@
 
 namespace crocoddyl {
 
+namespace {
+
+// Least-squares solution for equality constraints that are linearly dependent
+void solveDependentConstraints(const Eigen::MatrixXd& Hy,
+                               const Eigen::Ref<const Eigen::VectorXd>& h,
+                               const Eigen::Ref<const Eigen::MatrixXd>& Hx,
+                               Eigen::VectorXd& ks, Eigen::MatrixXd& Ks) {
+  if (Hy.cols() == 0) {
+    ks.resize(0);
+    Ks.resize(0, Hx.cols());
+    return;
+  }
+  const Eigen::ColPivHouseholderQR<Eigen::MatrixXd> qr(Hy);
+  ks = qr.solve(h);
+  Ks = qr.solve(Hx);
+}
+
+}  // namespace
+
 SolverIntro::SolverIntro(std::shared_ptr<ShootingProblem> problem)
     : SolverFDDP(problem),
       eq_solver_(LuNull),
@@ -266,18 +285,25 @@ double SolverIntro::calcDiff() {
         if (model->get_nu() > 0 && nh > 0) {
           Hu_lu_[t].compute(data->Hu.topRows(nh));
           Hu_rank_[t] = Hu_lu_[t].rank();
-          YZ_[t].leftCols(Hu_rank_[t]).noalias() =
-              (Hu_lu_[t].permutationP() * data->Hu.topRows(nh)).transpose();
+          const Eigen::MatrixXd PHu =
+              Hu_lu_[t].permutationP() * data->Hu.topRows(nh);
+          YZ_[t].leftCols(Hu_rank_[t]) =
+              PHu.topRows(Hu_rank_[t]).transpose();
           YZ_[t].rightCols(model->get_nu() - Hu_rank_[t]) = Hu_lu_[t].kernel();
           const Eigen::Block<Eigen::MatrixXd, Eigen::Dynamic, Eigen::Dynamic,
                              Eigen::RowMajor>
               Y = YZ_[t].leftCols(Hu_lu_[t].rank());
           Hy_[t].noalias() = data->Hu.topRows(nh) * Y;
-          Hy_lu_[t].compute(Hy_[t]);
-          const Eigen::Inverse<Eigen::PartialPivLU<Eigen::MatrixXd> > Hy_inv =
-              Hy_lu_[t].inverse();
-          ks_[t].noalias() = Hy_inv * data->h.head(nh);
-          Ks_[t].noalias() = Hy_inv * data->Hx.topRows(nh);
+          if (Hu_rank_[t] == nh) {
+            Hy_lu_[t].compute(Hy_[t]);
+            const Eigen::Inverse<Eigen::PartialPivLU<Eigen::MatrixXd> > Hy_inv =
+                Hy_lu_[t].inverse();
+            ks_[t].noalias() = Hy_inv * data->h.head(nh);
+            Ks_[t].noalias() = Hy_inv * data->Hx.topRows(nh);
+          } else {
+            solveDependentConstraints(Hy_[t], data->h.head(nh),
+                                      data->Hx.topRows(nh), ks_[t], Ks_[t]);
+          }
           kz_[t].noalias() = Y * ks_[t];
           Kz_[t].noalias() = Y * Ks_[t];
         }
@@ -300,11 +326,16 @@ double SolverIntro::calcDiff() {
                              Eigen::RowMajor>
               Y = YZ_[t].leftCols(Hu_qr_[t].rank());
           Hy_[t].noalias() = data->Hu.topRows(nh) * Y;
-          Hy_lu_[t].compute(Hy_[t]);
-          const Eigen::Inverse<Eigen::PartialPivLU<Eigen::MatrixXd> > Hy_inv =
-              Hy_lu_[t].inverse();
-          ks_[t].noalias() = Hy_inv * data->h.head(nh);
-          Ks_[t].noalias() = Hy_inv * data->Hx.topRows(nh);
+          if (Hu_rank_[t] == nh) {
+            Hy_lu_[t].compute(Hy_[t]);
+            const Eigen::Inverse<Eigen::PartialPivLU<Eigen::MatrixXd> > Hy_inv =
+                Hy_lu_[t].inverse();
+            ks_[t].noalias() = Hy_inv * data->h.head(nh);
+            Ks_[t].noalias() = Hy_inv * data->Hx.topRows(nh);
+          } else {
+            solveDependentConstraints(Hy_[t], data->h.head(nh),
+                                      data->Hx.topRows(nh), ks_[t], Ks_[t]);
+          }
           kz_[t].noalias() = Y * ks_[t];
           Kz_[t].noalias() = Y * Ks_[t];
         }
-- 
2.43.0


From ccbd7f50ff8538072f000f8efa0121976be6e91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:40 +0000
Subject: [PATCH 57/96] fix: account for the controls that reach their limits
 in the box solvers

---
 include/crocoddyl/core/solvers/box-ddp.hpp  |  2 ++
 include/crocoddyl/core/solvers/box-fddp.hpp |  2 ++
 src/core/solvers/box-ddp.cpp                | 19 +++++++++++--------
 src/core/solvers/box-fddp.cpp               | 15 ++++++++++-----
 4 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/include/crocoddyl/core/solvers/box-ddp.hpp b/include/crocoddyl/core/solvers/box-ddp.hpp
index 85898ec..9ed428a 100644
--- a/include/crocoddyl/core/solvers/box-ddp.hpp
+++ b/include/crocoddyl/core/solvers/box-ddp.hpp
@@ -22,6 +22,8 @@ class SolverBoxDDP : public SolverDDP {
   virtual ~SolverBoxDDP();
 
   virtual void allocateData();
+  virtual void computeValueFunction(
+      const std::size_t t, const std::shared_ptr<ActionModelAbstract>& model);
   virtual void computeGains(const std::size_t t);
   virtual void forwardPass(const double steplength);
   virtual void resizeData();
diff --git a/include/crocoddyl/core/solvers/box-fddp.hpp b/include/crocoddyl/core/solvers/box-fddp.hpp
index 5275b51..5e89262 100644
--- a/include/crocoddyl/core/solvers/box-fddp.hpp
+++ b/include/crocoddyl/core/solvers/box-fddp.hpp
@@ -22,6 +22,8 @@ class SolverBoxFDDP : public SolverFDDP {
   virtual ~SolverBoxFDDP();
 
   virtual void allocateData();
+  virtual void computeValueFunction(
+      const std::size_t t, const std::shared_ptr<ActionModelAbstract>& model);
   virtual void computeGains(const std::size_t t);
   virtual void forwardPass(const double steplength);
   virtual void resizeData();
diff --git a/src/core/solvers/box-ddp.cpp b/src/core/solvers/box-ddp.cpp
index 38ca57a..a7162ca 100644
--- a/src/core/solvers/box-ddp.cpp
+++ b/src/core/solvers/box-ddp.cpp
@@ -100,18 +100,21 @@ void SolverBoxDDP::computeGains(const std::size_t t) {
     K_[t].noalias() = Quu_inv_[t] * Qxu_[t].transpose();
     STOP_PROFILER("SolverBoxDDP::Quu_invproj_Qxu");
     k_[t] = -boxqp_sol.x;
-
-    // The box-QP clamped the gradient direction; this is important for
-    // accounting the algorithm advancement (i.e. stopping criteria)
-    START_PROFILER("SolverBoxDDP::Qu_proj");
-    for (std::size_t i = 0; i < boxqp_sol.clamped_idx.size(); ++i) {
-      Qu_[t](boxqp_sol.clamped_idx[i]) = 0.;
-    }
-    STOP_PROFILER("SolverBoxDDP::Qu_proj");
   }
   STOP_PROFILER("SolverBoxDDP::computeGains");
 }
 
+void SolverBoxDDP::computeValueFunction(
+    const std::size_t t, const std::shared_ptr<ActionModelAbstract>& model) {
+  SolverDDP::computeValueFunction(t, model);
+  // Account for the controls that move to their limits without feedback
+  if (is_feasible_ && model->get_nu() > 0 &&
+      model->get_has_control_limits()) {
+    Vx_[t].noalias() -= Qxu_[t] * k_[t];
+    Vx_[t].noalias() += K_[t].transpose() * Quuk_[t];
+  }
+}
+
 void SolverBoxDDP::forwardPass(double steplength) {
   if (steplength > 1. || steplength < 0.) {
     throw_pretty("Invalid argument: "
diff --git a/src/core/solvers/box-fddp.cpp b/src/core/solvers/box-fddp.cpp
index 775713f..e3216eb 100644
--- a/src/core/solvers/box-fddp.cpp
+++ b/src/core/solvers/box-fddp.cpp
@@ -93,12 +93,17 @@ void SolverBoxFDDP::computeGains(const std::size_t t) {
     }
     K_[t].noalias() = Quu_inv_[t] * Qxu_[t].transpose();
     k_[t] = -boxqp_sol.x;
+  }
+}
 
-    // The box-QP clamped the gradient direction; this is important for
-    // accounting the algorithm advancement (i.e. stopping criteria)
-    for (std::size_t i = 0; i < boxqp_sol.clamped_idx.size(); ++i) {
-      Qu_[t](boxqp_sol.clamped_idx[i]) = 0.;
-    }
+void SolverBoxFDDP::computeValueFunction(
+    const std::size_t t, const std::shared_ptr<ActionModelAbstract>& model) {
+  SolverFDDP::computeValueFunction(t, model);
+  // Account for the controls that move to their limits without feedback
+  if (is_feasible_ && model->get_nu() > 0 &&
+      model->get_has_control_limits()) {
+    Vx_[t].noalias() -= Qxu_[t] * k_[t];
+    Vx_[t].noalias() += K_[t].transpose() * Quuk_[t];
   }
 }
 
-- 
2.43.0


From 51ecb4c3a71332961ec4f4e9a28ee60152af3dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:38 +0000
Subject: [PATCH 58/96] fix: let the regularization grow from zero

---
 src/core/solvers/ddp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index 7e57233..0283d58 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -406,6 +406,9 @@ void SolverDDP::computeGains(const std::size_t t) {
 
 void SolverDDP::increaseRegularization() {
   preg_ *= reg_incfactor_;
+  if (preg_ == 0.) {  // a factor cannot increase it
+    preg_ = reg_min_ > 0. ? reg_min_ : 1e-9;
+  }
   if (preg_ > reg_max_) {
     preg_ = reg_max_;
   }
-- 
2.43.0


From f4872b32728bd48c1d54298f8efd88c267531acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:48 +0000
Subject: [PATCH 59/96] fix: detect NaN in any component of the next state

---
 src/core/solvers/box-ddp.cpp  | 2 +-
 src/core/solvers/box-fddp.cpp | 4 ++--
 src/core/solvers/ddp.cpp      | 6 +++---
 src/core/solvers/fddp.cpp     | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/solvers/box-ddp.cpp b/src/core/solvers/box-ddp.cpp
index a7162ca..ceb1645 100644
--- a/src/core/solvers/box-ddp.cpp
+++ b/src/core/solvers/box-ddp.cpp
@@ -149,7 +149,7 @@ void SolverBoxDDP::forwardPass(double steplength) {
       STOP_PROFILER("SolverBoxDDP::forwardPass");
       throw_pretty("forward_error");
     }
-    if (raiseIfNaN(xnext_.lpNorm<Eigen::Infinity>())) {
+    if (raiseIfNaN(xnext_.lpNorm<1>())) {
       STOP_PROFILER("SolverBoxDDP::forwardPass");
       throw_pretty("forward_error");
     }
diff --git a/src/core/solvers/box-fddp.cpp b/src/core/solvers/box-fddp.cpp
index e3216eb..500b44c 100644
--- a/src/core/solvers/box-fddp.cpp
+++ b/src/core/solvers/box-fddp.cpp
@@ -141,7 +141,7 @@ void SolverBoxFDDP::forwardPass(const double steplength) {
       if (raiseIfNaN(cost_try_)) {
         throw_pretty("forward_error");
       }
-      if (raiseIfNaN(xnext_.lpNorm<Eigen::Infinity>())) {
+      if (raiseIfNaN(xnext_.lpNorm<1>())) {
         throw_pretty("forward_error");
       }
     }
@@ -177,7 +177,7 @@ void SolverBoxFDDP::forwardPass(const double steplength) {
       if (raiseIfNaN(cost_try_)) {
         throw_pretty("forward_error");
       }
-      if (raiseIfNaN(xnext_.lpNorm<Eigen::Infinity>())) {
+      if (raiseIfNaN(xnext_.lpNorm<1>())) {
         throw_pretty("forward_error");
       }
     }
diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index 0283d58..c0ca340 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -251,10 +251,10 @@ void SolverDDP::backwardPass() {
     // Compute the linear-quadratic approximation of the Value function
     computeValueFunction(t, m);
 
-    if (raiseIfNaN(Vx_[t].lpNorm<Eigen::Infinity>())) {
+    if (raiseIfNaN(Vx_[t].lpNorm<1>())) {
       throw_pretty("backward_error");
     }
-    if (raiseIfNaN(Vxx_[t].lpNorm<Eigen::Infinity>())) {
+    if (raiseIfNaN(Vxx_[t].lpNorm<1>())) {
       throw_pretty("backward_error");
     }
   }
@@ -291,7 +291,7 @@ void SolverDDP::forwardPass(const double steplength) {
       STOP_PROFILER("SolverDDP::forwardPass");
       throw_pretty("forward_error");
     }
-    if (raiseIfNaN(xs_try_[t + 1].lpNorm<Eigen::Infinity>())) {
+    if (raiseIfNaN(xs_try_[t + 1].lpNorm<1>())) {
       STOP_PROFILER("SolverDDP::forwardPass");
       throw_pretty("forward_error");
     }
diff --git a/src/core/solvers/fddp.cpp b/src/core/solvers/fddp.cpp
index 67187f9..f0fa7c7 100644
--- a/src/core/solvers/fddp.cpp
+++ b/src/core/solvers/fddp.cpp
@@ -210,7 +210,7 @@ void SolverFDDP::forwardPass(const double steplength) {
         STOP_PROFILER("SolverFDDP::forwardPass");
         throw_pretty("forward_error");
       }
-      if (raiseIfNaN(xnext_.lpNorm<Eigen::Infinity>())) {
+      if (raiseIfNaN(xnext_.lpNorm<1>())) {
         STOP_PROFILER("SolverFDDP::forwardPass");
         throw_pretty("forward_error");
       }
@@ -245,7 +245,7 @@ void SolverFDDP::forwardPass(const double steplength) {
         STOP_PROFILER("SolverFDDP::forwardPass");
         throw_pretty("forward_error");
       }
-      if (raiseIfNaN(xnext_.lpNorm<Eigen::Infinity>())) {
+      if (raiseIfNaN(xnext_.lpNorm<1>())) {
         STOP_PROFILER("SolverFDDP::forwardPass");
         throw_pretty("forward_error");
       }
-- 
2.43.0


From 689c1b0c03641e52bf0783db0866aee590cab1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:39 +0000
Subject: [PATCH 60/96] fix: do not store the kernel of full-column-rank
 constraints

Eigen returns a zero column as kernel of an invertible matrix, which does
not fit in an empty block.
---
 src/core/solvers/intro.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index b2723cc..cc96aac 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -289,7 +289,10 @@ double SolverIntro::calcDiff() {
               Hu_lu_[t].permutationP() * data->Hu.topRows(nh);
           YZ_[t].leftCols(Hu_rank_[t]) =
               PHu.topRows(Hu_rank_[t]).transpose();
-          YZ_[t].rightCols(model->get_nu() - Hu_rank_[t]) = Hu_lu_[t].kernel();
+          const std::size_t nullity = model->get_nu() - Hu_rank_[t];
+          if (nullity > 0) {
+            YZ_[t].rightCols(nullity) = Hu_lu_[t].kernel();
+          }
           const Eigen::Block<Eigen::MatrixXd, Eigen::Dynamic, Eigen::Dynamic,
                              Eigen::RowMajor>
               Y = YZ_[t].leftCols(Hu_lu_[t].rank());
-- 
2.43.0


From 740b41def3bc84f503a136660a0d85c42914e4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:39 +0000
Subject: [PATCH 61/96] fix: keep the constraint values of the candidate in the
 Schur solver

The line search evaluates the problem at the trial points, so a direction
recomputed with a larger regularization used the constraints of the last
rejected trial.
---
 include/crocoddyl/core/solvers/intro.hpp | 3 +++
 src/core/solvers/intro.cpp               | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/solvers/intro.hpp b/include/crocoddyl/core/solvers/intro.hpp
index 7f446a7..eb6881e 100644
--- a/include/crocoddyl/core/solvers/intro.hpp
+++ b/include/crocoddyl/core/solvers/intro.hpp
@@ -194,6 +194,9 @@ class SolverIntro : public SolverFDDP {
       ks_;  //!< Feedforward term related to the equality constraints
   std::vector<Eigen::MatrixXd>
       Ks_;  //!< Feedback gain related to the equality constraints
+  std::vector<Eigen::VectorXd>
+      hs_;  //!< Equality constraints at the candidate (i.e., linearization
+            //!< point), as the line search overwrites the ones in the data
   std::vector<Eigen::MatrixXd> QuuinvHuT_;
   std::vector<Eigen::LLT<Eigen::MatrixXd> > Qzz_llt_;  //!< Cholesky LLT solver
   std::vector<Eigen::FullPivLU<Eigen::MatrixXd> >
diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index cc96aac..e0dde94 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -50,6 +50,7 @@ SolverIntro::SolverIntro(std::shared_ptr<ShootingProblem> problem)
   kz_.resize(T);
   Kz_.resize(T);
   ks_.resize(T);
+  hs_.resize(T);
   Ks_.resize(T);
   QuuinvHuT_.resize(T);
   Qzz_llt_.resize(T);
@@ -75,6 +76,7 @@ SolverIntro::SolverIntro(std::shared_ptr<ShootingProblem> problem)
     kz_[t] = Eigen::VectorXd::Zero(nu);
     Kz_[t] = Eigen::MatrixXd::Zero(nu, ndx);
     ks_[t] = Eigen::VectorXd::Zero(nh);
+    hs_[t] = Eigen::VectorXd::Zero(nh);
     Ks_[t] = Eigen::MatrixXd::Zero(nh, ndx);
     QuuinvHuT_[t] = Eigen::MatrixXd::Zero(nu, nh);
     Qzz_llt_[t] = Eigen::LLT<Eigen::MatrixXd>(nh);
@@ -235,6 +237,7 @@ void SolverIntro::resizeData() {
   kz_.resize(T);
   Kz_.resize(T);
   ks_.resize(T);
+  hs_.resize(T);
   Ks_.resize(T);
   QuuinvHuT_.resize(T);
   Qzz_llt_.resize(T);
@@ -258,6 +261,7 @@ void SolverIntro::resizeData() {
     kz_[t].conservativeResize(nu);
     Kz_[t].conservativeResize(nu, ndx);
     ks_[t].conservativeResize(nh);
+    hs_[t].conservativeResize(nh);
     Ks_[t].conservativeResize(nh, ndx);
     QuuinvHuT_[t].conservativeResize(nu, nh);
   }
@@ -345,6 +349,9 @@ double SolverIntro::calcDiff() {
       }
       break;
     case Schur:
+      for (std::size_t t = 0; t < T; ++t) {
+        hs_[t] = datas[t]->h.head(models[t]->get_nh());
+      }
       break;
   }
 
@@ -444,7 +451,7 @@ void SolverIntro::computeGains(const std::size_t t) {
         }
         Eigen::Transpose<Eigen::MatrixXd> HuQuuinv = QuuinvHuT_[t].transpose();
         Qzz_llt_[t].solveInPlace(HuQuuinv);
-        ks_[t] = data->h.head(nh);
+        ks_[t] = hs_[t];
         ks_[t].noalias() -= data->Hu.topRows(nh) * k_[t];
         Ks_[t] = data->Hx.topRows(nh);
         Ks_[t].noalias() -= data->Hu.topRows(nh) * K_[t];
-- 
2.43.0


From ffc30ade84aa4bae5e040c6c9d693009c0d60248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:37 +0000
Subject: [PATCH 62/96] fix: handle Ipopt runs that fail before their first
 iteration

There are no statistics then, which crashed the solver, and the cost of the
interface was undefined.
---
 src/core/solvers/ipopt.cpp             | 5 ++++-
 src/core/solvers/ipopt/ipopt-iface.cpp | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/solvers/ipopt.cpp b/src/core/solvers/ipopt.cpp
index 26d4b56..1e322ef 100644
--- a/src/core/solvers/ipopt.cpp
+++ b/src/core/solvers/ipopt.cpp
@@ -43,7 +43,10 @@ bool SolverIpopt::solve(const std::vector<Eigen::VectorXd>& init_xs,
   std::copy(ipopt_iface_->get_us().begin(), ipopt_iface_->get_us().end(),
             us_.begin());
   cost_ = ipopt_iface_->get_cost();
-  iter_ = ipopt_app_->Statistics()->IterationCount();
+  // There are no statistics when Ipopt fails before its first iteration
+  const Ipopt::SmartPtr<Ipopt::SolveStatistics> stats =
+      ipopt_app_->Statistics();
+  iter_ = Ipopt::IsValid(stats) ? stats->IterationCount() : 0;
 
   return ipopt_status_ == Ipopt::Solve_Succeeded ||
          ipopt_status_ == Ipopt::Solved_To_Acceptable_Level;
diff --git a/src/core/solvers/ipopt/ipopt-iface.cpp b/src/core/solvers/ipopt/ipopt-iface.cpp
index cc2a2ae..5398472 100644
--- a/src/core/solvers/ipopt/ipopt-iface.cpp
+++ b/src/core/solvers/ipopt/ipopt-iface.cpp
@@ -13,7 +13,7 @@
 namespace crocoddyl {
 
 IpoptInterface::IpoptInterface(const std::shared_ptr<ShootingProblem>& problem)
-    : problem_(problem) {
+    : problem_(problem), cost_(0.) {
   const std::size_t T = problem_->get_T();
   xs_.resize(T + 1);
   us_.resize(T);
-- 
2.43.0


From 04882f1f1731ea7b92aac8157a09755420a6213a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:14 +0000
Subject: [PATCH 63/96] fix: report the merit of the current guess if no step
 is accepted

It was the one of an earlier run, or of an earlier penalty parameter.
---
 src/core/solvers/intro.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index e0dde94..f71bbb4 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -137,6 +137,7 @@ bool SolverIntro::solve(const std::vector<Eigen::VectorXd>& init_xs,
       upsilon_ =
           std::max(upsilon_, (d_[0] + .5 * d_[1]) / ((1 - rho_) * hfeas_));
     }
+    merit_ = cost_ + upsilon_ * hfeas_;
 
     // We need to recalculate the derivatives when the step length passes
     recalcDiff = false;
-- 
2.43.0


From d5f20d0fee54bca479b7995427d91f5cb0c0fbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:13 +0000
Subject: [PATCH 64/96] fix: raise the exceptions of the models out of parallel
 loops

An exception that leaves an OpenMP region terminates the process, e.g. if a
state of the wrong dimension is given or a dynamics cannot be computed.
---
 include/crocoddyl/core/optctrl/shooting.hxx |  19 +-
 include/crocoddyl/core/utils/exception.hpp  |  41 +++++
 src/core/solvers/ipopt/ipopt-iface.cpp      | 192 +++++++++++---------
 3 files changed, 164 insertions(+), 88 deletions(-)

diff --git a/include/crocoddyl/core/optctrl/shooting.hxx b/include/crocoddyl/core/optctrl/shooting.hxx
index 7394700..d86bbf9 100644
--- a/include/crocoddyl/core/optctrl/shooting.hxx
+++ b/include/crocoddyl/core/optctrl/shooting.hxx
@@ -7,6 +7,7 @@
 // All rights reserved.
 ///////////////////////////////////////////////////////////////////////////////
 
+#include "crocoddyl/core/utils/exception.hpp"
 #include "crocoddyl/core/utils/stop-watch.hpp"
 
 namespace crocoddyl {
@@ -167,12 +168,16 @@ Scalar ShootingProblemTpl<Scalar>::calc(const std::vector<VectorXs>& xs,
   }
   START_PROFILER("ShootingProblem::calc");
 
+  ParallelException exception;
 #ifdef CROCODDYL_WITH_MULTITHREADING
 #pragma omp parallel for num_threads(nthreads_)
 #endif
   for (std::size_t i = 0; i < T_; ++i) {
-    running_models_[i]->calc(running_datas_[i], xs[i], us[i]);
+    exception.run([&]() {
+      running_models_[i]->calc(running_datas_[i], xs[i], us[i]);
+    });
   }
+  exception.rethrow();
   terminal_model_->calc(terminal_data_, xs.back());
 
   cost_ = Scalar(0.);
@@ -202,12 +207,16 @@ Scalar ShootingProblemTpl<Scalar>::calcDiff(const std::vector<VectorXs>& xs,
   }
   START_PROFILER("ShootingProblem::calcDiff");
 
+  ParallelException exception;
 #ifdef CROCODDYL_WITH_MULTITHREADING
 #pragma omp parallel for num_threads(nthreads_)
 #endif
   for (std::size_t i = 0; i < T_; ++i) {
-    running_models_[i]->calcDiff(running_datas_[i], xs[i], us[i]);
+    exception.run([&]() {
+      running_models_[i]->calcDiff(running_datas_[i], xs[i], us[i]);
+    });
   }
+  exception.rethrow();
   terminal_model_->calcDiff(terminal_data_, xs.back());
 
   cost_ = Scalar(0.);
@@ -279,12 +288,16 @@ void ShootingProblemTpl<Scalar>::quasiStatic(std::vector<VectorXs>& us,
                                     std::to_string(T_) + ")");
   }
 
+  ParallelException exception;
 #ifdef CROCODDYL_WITH_MULTITHREADING
 #pragma omp parallel for num_threads(nthreads_)
 #endif
   for (std::size_t i = 0; i < T_; ++i) {
-    running_models_[i]->quasiStatic(running_datas_[i], us[i], xs[i]);
+    exception.run([&]() {
+      running_models_[i]->quasiStatic(running_datas_[i], us[i], xs[i]);
+    });
   }
+  exception.rethrow();
 }
 
 template <typename Scalar>
diff --git a/include/crocoddyl/core/utils/exception.hpp b/include/crocoddyl/core/utils/exception.hpp
index fa06561..cf25c0e 100644
--- a/include/crocoddyl/core/utils/exception.hpp
+++ b/include/crocoddyl/core/utils/exception.hpp
@@ -10,7 +10,9 @@
 #ifndef CROCODDYL_CORE_UTILS_EXCEPTION_HPP_
 #define CROCODDYL_CORE_UTILS_EXCEPTION_HPP_
 
+#include <atomic>
 #include <exception>
+#include <mutex>
 #include <sstream>
 
 #define NOEXCEPT noexcept
@@ -52,6 +54,45 @@ class Exception : public std::exception {
   std::string msg_;
 };
 
+/**
+ * @brief Carry an exception out of a parallel loop
+ *
+ * An exception cannot leave the body of an OpenMP loop (i.e., it terminates the
+ * process). This class keeps the first one, which has to be rethrown after the
+ * loop. The remaining iterations are skipped.
+ */
+class ParallelException {
+ public:
+  ParallelException() : failed_(false) {}
+
+  template <typename Function>
+  void run(const Function &function) NOEXCEPT {
+    if (failed_) {
+      return;
+    }
+    try {
+      function();
+    } catch (...) {
+      std::lock_guard<std::mutex> lock(mutex_);
+      if (!exception_) {
+        exception_ = std::current_exception();
+      }
+      failed_ = true;
+    }
+  }
+
+  void rethrow() const {
+    if (exception_) {
+      std::rethrow_exception(exception_);
+    }
+  }
+
+ private:
+  std::mutex mutex_;
+  std::exception_ptr exception_;
+  std::atomic<bool> failed_;
+};
+
 }  // namespace crocoddyl
 
 #endif  // CROCODDYL_CORE_UTILS_EXCEPTION_HPP_
diff --git a/src/core/solvers/ipopt/ipopt-iface.cpp b/src/core/solvers/ipopt/ipopt-iface.cpp
index 5398472..7e5ee24 100644
--- a/src/core/solvers/ipopt/ipopt-iface.cpp
+++ b/src/core/solvers/ipopt/ipopt-iface.cpp
@@ -10,6 +10,8 @@
 
 #include <cmath>
 
+#include "crocoddyl/core/utils/exception.hpp"
+
 namespace crocoddyl {
 
 IpoptInterface::IpoptInterface(const std::shared_ptr<ShootingProblem>& problem)
@@ -259,20 +261,24 @@ bool IpoptInterface::eval_f(Ipopt::Index, const Ipopt::Number* x, bool,
   const std::vector<std::shared_ptr<ActionDataAbstract> >& datas =
       problem_->get_runningDatas();
   const std::size_t T = problem_->get_T();
+  ParallelException exception;
 #ifdef CROCODDYL_WITH_MULTITHREADING
 #pragma omp parallel for num_threads(problem_->get_nthreads())
 #endif
   for (std::size_t t = 0; t < T; ++t) {
-    const std::shared_ptr<ActionModelAbstract>& model = models[t];
-    const std::shared_ptr<ActionDataAbstract>& data = datas[t];
-    const std::size_t ndxi = model->get_state()->get_ndx();
-    const std::size_t nui = model->get_nu();
+    exception.run([&]() {
+      const std::shared_ptr<ActionModelAbstract>& model = models[t];
+      const std::shared_ptr<ActionDataAbstract>& data = datas[t];
+      const std::size_t ndxi = model->get_state()->get_ndx();
+      const std::size_t nui = model->get_nu();
 
-    datas_[t]->dx = Eigen::VectorXd::Map(x + ixu_[t], ndxi);
-    datas_[t]->u = Eigen::VectorXd::Map(x + ixu_[t] + ndxi, nui);
-    model->get_state()->integrate(xs_[t], datas_[t]->dx, datas_[t]->x);
-    model->calc(data, datas_[t]->x, datas_[t]->u);
+      datas_[t]->dx = Eigen::VectorXd::Map(x + ixu_[t], ndxi);
+      datas_[t]->u = Eigen::VectorXd::Map(x + ixu_[t] + ndxi, nui);
+      model->get_state()->integrate(xs_[t], datas_[t]->dx, datas_[t]->x);
+      model->calc(data, datas_[t]->x, datas_[t]->u);
+    });
   }
+  exception.rethrow();
 
 #ifdef CROCODDYL_WITH_MULTITHREADING
 #pragma omp simd reduction(+ : obj_value)
@@ -312,24 +318,28 @@ bool IpoptInterface::eval_grad_f(Ipopt::Index, const Ipopt::Number* x, bool,
   const std::vector<std::shared_ptr<ActionDataAbstract> >& datas =
       problem_->get_runningDatas();
   const std::size_t T = problem_->get_T();
+  ParallelException exception;
 #ifdef CROCODDYL_WITH_MULTITHREADING
 #pragma omp parallel for num_threads(problem_->get_nthreads())
 #endif
   for (std::size_t t = 0; t < T; ++t) {
-    const std::shared_ptr<ActionModelAbstract>& model = models[t];
-    const std::shared_ptr<ActionDataAbstract>& data = datas[t];
-    const std::size_t ndxi = model->get_state()->get_ndx();
-    const std::size_t nui = model->get_nu();
+    exception.run([&]() {
+      const std::shared_ptr<ActionModelAbstract>& model = models[t];
+      const std::shared_ptr<ActionDataAbstract>& data = datas[t];
+      const std::size_t ndxi = model->get_state()->get_ndx();
+      const std::size_t nui = model->get_nu();
 
-    datas_[t]->dx = Eigen::VectorXd::Map(x + ixu_[t], ndxi);
-    datas_[t]->u = Eigen::VectorXd::Map(x + ixu_[t] + ndxi, nui);
-    model->get_state()->integrate(xs_[t], datas_[t]->dx, datas_[t]->x);
-    model->get_state()->Jintegrate(xs_[t], datas_[t]->dx, datas_[t]->Jint_dx,
-                                   datas_[t]->Jint_dx, second, setto);
-    model->calc(data, datas_[t]->x, datas_[t]->u);
-    model->calcDiff(data, datas_[t]->x, datas_[t]->u);
-    datas_[t]->Ldx.noalias() = datas_[t]->Jint_dx.transpose() * data->Lx;
+      datas_[t]->dx = Eigen::VectorXd::Map(x + ixu_[t], ndxi);
+      datas_[t]->u = Eigen::VectorXd::Map(x + ixu_[t] + ndxi, nui);
+      model->get_state()->integrate(xs_[t], datas_[t]->dx, datas_[t]->x);
+      model->get_state()->Jintegrate(xs_[t], datas_[t]->dx, datas_[t]->Jint_dx,
+                                     datas_[t]->Jint_dx, second, setto);
+      model->calc(data, datas_[t]->x, datas_[t]->u);
+      model->calcDiff(data, datas_[t]->x, datas_[t]->u);
+      datas_[t]->Ldx.noalias() = datas_[t]->Jint_dx.transpose() * data->Lx;
+    });
   }
+  exception.rethrow();
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<ActionModelAbstract>& model = models[t];
     const std::shared_ptr<ActionDataAbstract>& data = datas[t];
@@ -382,28 +392,32 @@ bool IpoptInterface::eval_g(Ipopt::Index, const Ipopt::Number* x,
   const std::vector<std::shared_ptr<ActionDataAbstract> >& datas =
       problem_->get_runningDatas();
   const std::size_t T = problem_->get_T();
+  ParallelException exception;
 #ifdef CROCODDYL_WITH_MULTITHREADING
 #pragma omp parallel for num_threads(problem_->get_nthreads())
 #endif
   for (std::size_t t = 0; t < T; ++t) {
-    const std::shared_ptr<ActionModelAbstract>& model = models[t];
-    const std::shared_ptr<ActionDataAbstract>& data = datas[t];
-    const std::size_t ndxi = model->get_state()->get_ndx();
-    const std::size_t nui = model->get_nu();
-    const std::shared_ptr<ActionModelAbstract>& model_next =
-        t + 1 == T ? problem_->get_terminalModel() : models[t + 1];
-    const std::size_t ndxi_next = model_next->get_state()->get_ndx();
+    exception.run([&]() {
+      const std::shared_ptr<ActionModelAbstract>& model = models[t];
+      const std::shared_ptr<ActionDataAbstract>& data = datas[t];
+      const std::size_t ndxi = model->get_state()->get_ndx();
+      const std::size_t nui = model->get_nu();
+      const std::shared_ptr<ActionModelAbstract>& model_next =
+          t + 1 == T ? problem_->get_terminalModel() : models[t + 1];
+      const std::size_t ndxi_next = model_next->get_state()->get_ndx();
 
-    datas_[t]->dx = Eigen::VectorXd::Map(x + ixu_[t], ndxi);
-    datas_[t]->u = Eigen::VectorXd::Map(x + ixu_[t] + ndxi, nui);
-    datas_[t]->dxnext =
-        Eigen::VectorXd::Map(x + ixu_[t] + ndxi + nui, ndxi_next);
-    model->get_state()->integrate(xs_[t], datas_[t]->dx, datas_[t]->x);
-    model_next->get_state()->integrate(xs_[t + 1], datas_[t]->dxnext,
-                                       datas_[t]->xnext);
-    model->calc(data, datas_[t]->x, datas_[t]->u);
-    model->get_state()->diff(data->xnext, datas_[t]->xnext, datas_[t]->x_diff);
+      datas_[t]->dx = Eigen::VectorXd::Map(x + ixu_[t], ndxi);
+      datas_[t]->u = Eigen::VectorXd::Map(x + ixu_[t] + ndxi, nui);
+      datas_[t]->dxnext =
+          Eigen::VectorXd::Map(x + ixu_[t] + ndxi + nui, ndxi_next);
+      model->get_state()->integrate(xs_[t], datas_[t]->dx, datas_[t]->x);
+      model_next->get_state()->integrate(xs_[t + 1], datas_[t]->dxnext,
+                                         datas_[t]->xnext);
+      model->calc(data, datas_[t]->x, datas_[t]->u);
+      model->get_state()->diff(data->xnext, datas_[t]->xnext, datas_[t]->x_diff);
+    });
   }
+  exception.rethrow();
 
   std::size_t ix = 0;
   for (std::size_t t = 0; t < T; ++t) {
@@ -487,44 +501,48 @@ bool IpoptInterface::eval_jac_g(Ipopt::Index, const Ipopt::Number* x, bool,
         problem_->get_runningDatas();
     // Dynamic constraints
     const std::size_t T = problem_->get_T();
+    ParallelException exception;
 #ifdef CROCODDYL_WITH_MULTITHREADING
 #pragma omp parallel for num_threads(problem_->get_nthreads())
 #endif
     for (std::size_t t = 0; t < T; ++t) {
-      const std::shared_ptr<ActionModelAbstract>& model = models[t];
-      const std::shared_ptr<ActionDataAbstract>& data = datas[t];
-      const std::shared_ptr<ActionModelAbstract>& model_next =
-          t + 1 == T ? problem_->get_terminalModel() : models[t + 1];
-      const std::size_t ndxi = model->get_state()->get_ndx();
-      const std::size_t ndxi_next = model_next->get_state()->get_ndx();
-      const std::size_t nui = model->get_nu();
-      datas_[t]->dx = Eigen::VectorXd::Map(x + ixu_[t], ndxi);
-      datas_[t]->u = Eigen::VectorXd::Map(x + ixu_[t] + ndxi, nui);
-      datas_[t]->dxnext =
-          Eigen::VectorXd::Map(x + ixu_[t] + ndxi + nui, ndxi_next);
-
-      model->get_state()->integrate(xs_[t], datas_[t]->dx, datas_[t]->x);
-      model_next->get_state()->integrate(xs_[t + 1], datas_[t]->dxnext,
-                                         datas_[t]->xnext);
-      model->calc(data, datas_[t]->x, datas_[t]->u);
-      model->calcDiff(data, datas_[t]->x, datas_[t]->u);
-      model_next->get_state()->Jintegrate(
-          xs_[t + 1], datas_[t]->dxnext, datas_[t]->Jint_dxnext,
-          datas_[t]->Jint_dxnext, second,
-          setto);  // datas_[t]->Jsum_dxnext == eq. 81
-      model->get_state()->Jdiff(
-          data->xnext, datas_[t]->xnext, datas_[t]->Jdiff_x,
-          datas_[t]->Jdiff_xnext,
-          both);  // datas_[t+1]->Jdiff_x == eq. 83, datas_[t]->Jdiff_x == eq.82
-      model->get_state()->Jintegrate(xs_[t], datas_[t]->dx, datas_[t]->Jint_dx,
-                                     datas_[t]->Jint_dx, second,
-                                     setto);  // datas_[t]->Jsum_dx == eq. 81
-      datas_[t]->Jg_dxnext.noalias() =
-          datas_[t]->Jdiff_xnext * datas_[t]->Jint_dxnext;  // chain rule
-      datas_[t]->FxJint_dx.noalias() = data->Fx * datas_[t]->Jint_dx;
-      datas_[t]->Jg_dx.noalias() = datas_[t]->Jdiff_x * datas_[t]->FxJint_dx;
-      datas_[t]->Jg_u.noalias() = datas_[t]->Jdiff_x * data->Fu;
+      exception.run([&]() {
+        const std::shared_ptr<ActionModelAbstract>& model = models[t];
+        const std::shared_ptr<ActionDataAbstract>& data = datas[t];
+        const std::shared_ptr<ActionModelAbstract>& model_next =
+            t + 1 == T ? problem_->get_terminalModel() : models[t + 1];
+        const std::size_t ndxi = model->get_state()->get_ndx();
+        const std::size_t ndxi_next = model_next->get_state()->get_ndx();
+        const std::size_t nui = model->get_nu();
+        datas_[t]->dx = Eigen::VectorXd::Map(x + ixu_[t], ndxi);
+        datas_[t]->u = Eigen::VectorXd::Map(x + ixu_[t] + ndxi, nui);
+        datas_[t]->dxnext =
+            Eigen::VectorXd::Map(x + ixu_[t] + ndxi + nui, ndxi_next);
+
+        model->get_state()->integrate(xs_[t], datas_[t]->dx, datas_[t]->x);
+        model_next->get_state()->integrate(xs_[t + 1], datas_[t]->dxnext,
+                                           datas_[t]->xnext);
+        model->calc(data, datas_[t]->x, datas_[t]->u);
+        model->calcDiff(data, datas_[t]->x, datas_[t]->u);
+        model_next->get_state()->Jintegrate(
+            xs_[t + 1], datas_[t]->dxnext, datas_[t]->Jint_dxnext,
+            datas_[t]->Jint_dxnext, second,
+            setto);  // datas_[t]->Jsum_dxnext == eq. 81
+        model->get_state()->Jdiff(
+            data->xnext, datas_[t]->xnext, datas_[t]->Jdiff_x,
+            datas_[t]->Jdiff_xnext,
+            both);  // datas_[t+1]->Jdiff_x == eq. 83, datas_[t]->Jdiff_x == eq.82
+        model->get_state()->Jintegrate(xs_[t], datas_[t]->dx, datas_[t]->Jint_dx,
+                                       datas_[t]->Jint_dx, second,
+                                       setto);  // datas_[t]->Jsum_dx == eq. 81
+        datas_[t]->Jg_dxnext.noalias() =
+            datas_[t]->Jdiff_xnext * datas_[t]->Jint_dxnext;  // chain rule
+        datas_[t]->FxJint_dx.noalias() = data->Fx * datas_[t]->Jint_dx;
+        datas_[t]->Jg_dx.noalias() = datas_[t]->Jdiff_x * datas_[t]->FxJint_dx;
+        datas_[t]->Jg_u.noalias() = datas_[t]->Jdiff_x * data->Fu;
+      });
     }
+    exception.rethrow();
     std::size_t idx = 0;
     for (std::size_t t = 0; t < T; ++t) {
       const std::shared_ptr<ActionModelAbstract>& model = models[t];
@@ -641,27 +659,31 @@ bool IpoptInterface::eval_h(Ipopt::Index, const Ipopt::Number* x, bool,
     // Running Costs
     const std::vector<std::shared_ptr<ActionDataAbstract> >& datas =
         problem_->get_runningDatas();
+    ParallelException exception;
 #ifdef CROCODDYL_WITH_MULTITHREADING
 #pragma omp parallel for num_threads(problem_->get_nthreads())
 #endif
     for (std::size_t t = 0; t < T; ++t) {
-      const std::shared_ptr<ActionModelAbstract>& model = models[t];
-      const std::shared_ptr<ActionDataAbstract>& data = datas[t];
-      const std::size_t ndxi = model->get_state()->get_ndx();
-      const std::size_t nui = model->get_nu();
-      datas_[t]->dx = Eigen::VectorXd::Map(x + ixu_[t], ndxi);
-      datas_[t]->u = Eigen::VectorXd::Map(x + ixu_[t] + ndxi, nui);
-
-      model->get_state()->integrate(xs_[t], datas_[t]->dx, datas_[t]->x);
-      model->calc(data, datas_[t]->x, datas_[t]->u);
-      model->calcDiff(data, datas_[t]->x,
-                      datas_[t]->u);  // this might be removed
-      model->get_state()->Jintegrate(xs_[t], datas_[t]->dx, datas_[t]->Jint_dx,
-                                     datas_[t]->Jint_dx, second, setto);
-      datas_[t]->Ldxdx.noalias() =
-          datas_[t]->Jint_dx.transpose() * data->Lxx * datas_[t]->Jint_dx;
-      datas_[t]->Ldxu.noalias() = datas_[t]->Jint_dx.transpose() * data->Lxu;
+      exception.run([&]() {
+        const std::shared_ptr<ActionModelAbstract>& model = models[t];
+        const std::shared_ptr<ActionDataAbstract>& data = datas[t];
+        const std::size_t ndxi = model->get_state()->get_ndx();
+        const std::size_t nui = model->get_nu();
+        datas_[t]->dx = Eigen::VectorXd::Map(x + ixu_[t], ndxi);
+        datas_[t]->u = Eigen::VectorXd::Map(x + ixu_[t] + ndxi, nui);
+
+        model->get_state()->integrate(xs_[t], datas_[t]->dx, datas_[t]->x);
+        model->calc(data, datas_[t]->x, datas_[t]->u);
+        model->calcDiff(data, datas_[t]->x,
+                        datas_[t]->u);  // this might be removed
+        model->get_state()->Jintegrate(xs_[t], datas_[t]->dx, datas_[t]->Jint_dx,
+                                       datas_[t]->Jint_dx, second, setto);
+        datas_[t]->Ldxdx.noalias() =
+            datas_[t]->Jint_dx.transpose() * data->Lxx * datas_[t]->Jint_dx;
+        datas_[t]->Ldxu.noalias() = datas_[t]->Jint_dx.transpose() * data->Lxu;
+      });
     }
+    exception.rethrow();
 
     std::size_t idx = 0;
     for (std::size_t t = 0; t < T; ++t) {
-- 
2.43.0


From 3a33f8c21d9bf4d761296d7c8d2e884dcd9328c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:22 +0000
Subject: [PATCH 65/96] fix: compute the disturbance of numdiff residuals
 without control

---
 include/crocoddyl/core/numdiff/residual.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/crocoddyl/core/numdiff/residual.hxx b/include/crocoddyl/core/numdiff/residual.hxx
index 84af121..c79f54c 100644
--- a/include/crocoddyl/core/numdiff/residual.hxx
+++ b/include/crocoddyl/core/numdiff/residual.hxx
@@ -89,7 +89,10 @@ void ResidualModelNumDiffTpl<Scalar>::calcDiff(
   assertStableStateFD(x);
 
   // Computing the d residual(x,u) / dx
+  model_->get_state()->diff(model_->get_state()->zero(), x, d->dx);
+  d->x_norm = d->dx.norm();
   d->dx.setZero();
+  d->xh_jac = e_jac_ * std::max(Scalar(1.), d->x_norm);
   for (std::size_t ix = 0; ix < state_->get_ndx(); ++ix) {
     d->dx(ix) = d->xh_jac;
     model_->get_state()->integrate(x, d->dx, d->xp);
-- 
2.43.0


From 488b0088cafb992e70b0287b2856eac04aa496a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:22 +0000
Subject: [PATCH 66/96] fix: forward bounds and dependencies of models wrapped
 by numdiff

---
 include/crocoddyl/core/numdiff/action.hxx      | 2 ++
 include/crocoddyl/core/numdiff/constraint.hxx  | 7 +++++--
 include/crocoddyl/core/numdiff/diff-action.hxx | 4 ++++
 include/crocoddyl/core/numdiff/residual.hxx    | 4 +++-
 4 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/core/numdiff/action.hxx b/include/crocoddyl/core/numdiff/action.hxx
index 4896a91..f166a58 100644
--- a/include/crocoddyl/core/numdiff/action.hxx
+++ b/include/crocoddyl/core/numdiff/action.hxx
@@ -22,6 +22,8 @@ ActionModelNumDiffTpl<Scalar>::ActionModelNumDiffTpl(
       e_jac_(sqrt(Scalar(2.0) * std::numeric_limits<Scalar>::epsilon())),
       with_gauss_approx_(with_gauss_approx) {
   e_hess_ = sqrt(Scalar(2.0) * e_jac_);
+  this->g_lb_ = model_->get_g_lb();
+  this->g_ub_ = model_->get_g_ub();
   this->set_u_lb(model_->get_u_lb());
   this->set_u_ub(model_->get_u_ub());
 }
diff --git a/include/crocoddyl/core/numdiff/constraint.hxx b/include/crocoddyl/core/numdiff/constraint.hxx
index 41ca28c..a0e8d3f 100644
--- a/include/crocoddyl/core/numdiff/constraint.hxx
+++ b/include/crocoddyl/core/numdiff/constraint.hxx
@@ -14,9 +14,12 @@ template <typename Scalar>
 ConstraintModelNumDiffTpl<Scalar>::ConstraintModelNumDiffTpl(
     const std::shared_ptr<Base>& model)
     : Base(model->get_state(), model->get_nu(), model->get_ng(),
-           model->get_nh()),
+           model->get_nh(), model->get_T_constraint()),
       model_(model),
-      e_jac_(sqrt(Scalar(2.0) * std::numeric_limits<Scalar>::epsilon())) {}
+      e_jac_(sqrt(Scalar(2.0) * std::numeric_limits<Scalar>::epsilon())) {
+  this->lb_ = model_->get_lb();
+  this->ub_ = model_->get_ub();
+}
 
 template <typename Scalar>
 void ConstraintModelNumDiffTpl<Scalar>::calc(
diff --git a/include/crocoddyl/core/numdiff/diff-action.hxx b/include/crocoddyl/core/numdiff/diff-action.hxx
index 9a8f3ce..7462089 100644
--- a/include/crocoddyl/core/numdiff/diff-action.hxx
+++ b/include/crocoddyl/core/numdiff/diff-action.hxx
@@ -22,6 +22,10 @@ DifferentialActionModelNumDiffTpl<Scalar>::DifferentialActionModelNumDiffTpl(
       with_gauss_approx_(with_gauss_approx),
       e_jac_(sqrt(Scalar(2.0) * std::numeric_limits<Scalar>::epsilon())) {
   e_hess_ = sqrt(Scalar(2.0) * e_jac_);
+  this->g_lb_ = model_->get_g_lb();
+  this->g_ub_ = model_->get_g_ub();
+  this->set_u_lb(model_->get_u_lb());
+  this->set_u_ub(model_->get_u_ub());
   if (with_gauss_approx_ && nr_ == 1)
     throw_pretty("No Gauss approximation possible with nr = 1");
 }
diff --git a/include/crocoddyl/core/numdiff/residual.hxx b/include/crocoddyl/core/numdiff/residual.hxx
index c79f54c..e570f80 100644
--- a/include/crocoddyl/core/numdiff/residual.hxx
+++ b/include/crocoddyl/core/numdiff/residual.hxx
@@ -13,7 +13,9 @@ namespace crocoddyl {
 template <typename Scalar>
 ResidualModelNumDiffTpl<Scalar>::ResidualModelNumDiffTpl(
     const std::shared_ptr<Base>& model)
-    : Base(model->get_state(), model->get_nr(), model->get_nu()),
+    : Base(model->get_state(), model->get_nr(), model->get_nu(),
+           model->get_q_dependent(), model->get_v_dependent(),
+           model->get_u_dependent()),
       model_(model),
       e_jac_(sqrt(Scalar(2.0) * std::numeric_limits<Scalar>::epsilon())) {}
 
-- 
2.43.0


From 72b9085439d607c02c5c76eaca61a41e74515952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:22 +0000
Subject: [PATCH 67/96] fix: forward all the values of models wrapped by
 numdiff

---
 include/crocoddyl/core/numdiff/action.hxx      | 2 ++
 include/crocoddyl/core/numdiff/actuation.hxx   | 2 ++
 include/crocoddyl/core/numdiff/control.hxx     | 1 +
 include/crocoddyl/core/numdiff/diff-action.hxx | 2 ++
 4 files changed, 7 insertions(+)

diff --git a/include/crocoddyl/core/numdiff/action.hxx b/include/crocoddyl/core/numdiff/action.hxx
index f166a58..3d07122 100644
--- a/include/crocoddyl/core/numdiff/action.hxx
+++ b/include/crocoddyl/core/numdiff/action.hxx
@@ -46,6 +46,7 @@ void ActionModelNumDiffTpl<Scalar>::calc(
   model_->calc(d->data_0, x, u);
   data->xnext = d->data_0->xnext;
   data->cost = d->data_0->cost;
+  d->r = d->data_0->r;
   d->g = d->data_0->g;
   d->h = d->data_0->h;
 }
@@ -63,6 +64,7 @@ void ActionModelNumDiffTpl<Scalar>::calc(
   model_->calc(d->data_0, x);
   data->xnext = d->data_0->xnext;
   data->cost = d->data_0->cost;
+  d->r = d->data_0->r;
   d->g = d->data_0->g;
   d->h = d->data_0->h;
 }
diff --git a/include/crocoddyl/core/numdiff/actuation.hxx b/include/crocoddyl/core/numdiff/actuation.hxx
index 5fe231c..160b5c7 100644
--- a/include/crocoddyl/core/numdiff/actuation.hxx
+++ b/include/crocoddyl/core/numdiff/actuation.hxx
@@ -35,6 +35,7 @@ void ActuationModelNumDiffTpl<Scalar>::calc(
   Data* d = static_cast<Data*>(data.get());
   model_->calc(d->data_0, x, u);
   data->tau = d->data_0->tau;
+  data->tau_set = d->data_0->tau_set;
 }
 
 template <typename Scalar>
@@ -49,6 +50,7 @@ void ActuationModelNumDiffTpl<Scalar>::calc(
   Data* d = static_cast<Data*>(data.get());
   model_->calc(d->data_0, x);
   data->tau = d->data_0->tau;
+  data->tau_set = d->data_0->tau_set;
 }
 
 template <typename Scalar>
diff --git a/include/crocoddyl/core/numdiff/control.hxx b/include/crocoddyl/core/numdiff/control.hxx
index bf3d9fd..d0a9f4c 100644
--- a/include/crocoddyl/core/numdiff/control.hxx
+++ b/include/crocoddyl/core/numdiff/control.hxx
@@ -23,6 +23,7 @@ void ControlParametrizationModelNumDiffTpl<Scalar>::calc(
     const Scalar t, const Eigen::Ref<const VectorXs>& u) const {
   std::shared_ptr<Data> data_nd = std::static_pointer_cast<Data>(data);
   model_->calc(data_nd->data_0, t, u);
+  data->w = data_nd->data_0->w;
 }
 
 template <typename Scalar>
diff --git a/include/crocoddyl/core/numdiff/diff-action.hxx b/include/crocoddyl/core/numdiff/diff-action.hxx
index 7462089..564631b 100644
--- a/include/crocoddyl/core/numdiff/diff-action.hxx
+++ b/include/crocoddyl/core/numdiff/diff-action.hxx
@@ -48,6 +48,7 @@ void DifferentialActionModelNumDiffTpl<Scalar>::calc(
   model_->calc(d->data_0, x, u);
   data->xout = d->data_0->xout;
   data->cost = d->data_0->cost;
+  d->r = d->data_0->r;
   d->g = d->data_0->g;
   d->h = d->data_0->h;
 }
@@ -65,6 +66,7 @@ void DifferentialActionModelNumDiffTpl<Scalar>::calc(
   model_->calc(d->data_0, x);
   data->xout = d->data_0->xout;
   data->cost = d->data_0->cost;
+  d->r = d->data_0->r;
   d->g = d->data_0->g;
   d->h = d->data_0->h;
 }
-- 
2.43.0


From 82e0a5354149c8e04779c9943e34050a3c947c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:49 +0000
Subject: [PATCH 68/96] fix: apply the assignment operator in the Jacobians of
 numdiff states

---
 include/crocoddyl/core/numdiff/state.hxx | 35 ++++++++++++++++++------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/include/crocoddyl/core/numdiff/state.hxx b/include/crocoddyl/core/numdiff/state.hxx
index b72e785..d4a8123 100644
--- a/include/crocoddyl/core/numdiff/state.hxx
+++ b/include/crocoddyl/core/numdiff/state.hxx
@@ -145,7 +145,7 @@ void StateNumDiffTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>& x,
                                          Eigen::Ref<MatrixXs> Jfirst,
                                          Eigen::Ref<MatrixXs> Jsecond,
                                          const Jcomponent firstsecond,
-                                         const AssignmentOp) const {
+                                         const AssignmentOp op) const {
   assert_pretty(
       is_a_Jcomponent(firstsecond),
       ("firstsecond must be one of the Jcomponent {both, first, second}"));
@@ -160,8 +160,27 @@ void StateNumDiffTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>& x,
                                     std::to_string(ndx_) + ")");
   }
   VectorXs tmp_x_ = VectorXs::Zero(nx_);
+  VectorXs tmp_x1_ = VectorXs::Zero(nx_);
   VectorXs dx_ = VectorXs::Zero(ndx_);
   VectorXs x0_ = VectorXs::Zero(nx_);
+  MatrixXs J_ = MatrixXs::Zero(ndx_, ndx_);
+  const auto assign = [&](Eigen::Ref<MatrixXs> J) {
+    switch (op) {
+      case setto:
+        J = J_;
+        break;
+      case addto:
+        J += J_;
+        break;
+      case rmfrom:
+        J -= J_;
+        break;
+      default:
+        throw_pretty(
+            "Invalid argument: allowed operators: setto, addto, rmfrom");
+        break;
+    }
+  };
 
   // x0_ = integrate(x, dx)
   integrate(x, dx, x0_);
@@ -175,15 +194,15 @@ void StateNumDiffTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>& x,
                                       std::to_string(ndx_) + "," +
                                       std::to_string(ndx_) + ")");
     }
-    Jfirst.setZero();
     for (std::size_t i = 0; i < ndx_; ++i) {
       dx_(i) = xh_jac;
       integrate(x, dx_, tmp_x_);
-      integrate(tmp_x_, dx, tmp_x_);
-      diff(x0_, tmp_x_, Jfirst.col(i));
+      integrate(tmp_x_, dx, tmp_x1_);
+      diff(x0_, tmp_x1_, J_.col(i));
       dx_(i) = Scalar(0.);
     }
-    Jfirst /= xh_jac;
+    J_ /= xh_jac;
+    assign(Jfirst);
   }
   if (firstsecond == second || firstsecond == both) {
     const Scalar dxh_jac = e_jac_ * std::max(Scalar(1.), dx.norm());
@@ -194,14 +213,14 @@ void StateNumDiffTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>& x,
                                       std::to_string(ndx_) + "," +
                                       std::to_string(ndx_) + ")");
     }
-    Jsecond.setZero();
     for (std::size_t i = 0; i < ndx_; ++i) {
       dx_(i) = dxh_jac;
       integrate(x, dx + dx_, tmp_x_);
-      diff(x0_, tmp_x_, Jsecond.col(i));
+      diff(x0_, tmp_x_, J_.col(i));
       dx_(i) = Scalar(0.);
     }
-    Jsecond /= dxh_jac;
+    J_ /= dxh_jac;
+    assign(Jsecond);
   }
 }
 
-- 
2.43.0


From bc0cd774933bac6ed925d1388497214484bb70c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:49 +0000
Subject: [PATCH 69/96] fix: forward transport, bounds and sizes of states
 wrapped by numdiff

---
 include/crocoddyl/core/numdiff/state.hxx | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/core/numdiff/state.hxx b/include/crocoddyl/core/numdiff/state.hxx
index d4a8123..73edc2a 100644
--- a/include/crocoddyl/core/numdiff/state.hxx
+++ b/include/crocoddyl/core/numdiff/state.hxx
@@ -14,7 +14,12 @@ template <typename Scalar>
 StateNumDiffTpl<Scalar>::StateNumDiffTpl(std::shared_ptr<Base> state)
     : Base(state->get_nx(), state->get_ndx()),
       state_(state),
-      e_jac_(sqrt(Scalar(2.0) * std::numeric_limits<Scalar>::epsilon())) {}
+      e_jac_(sqrt(Scalar(2.0) * std::numeric_limits<Scalar>::epsilon())) {
+  this->set_lb(state->get_lb());
+  this->set_ub(state->get_ub());
+  nv_ = state->get_nv();
+  nq_ = state->get_nq();
+}
 
 template <typename Scalar>
 StateNumDiffTpl<Scalar>::~StateNumDiffTpl() {}
@@ -234,8 +239,10 @@ StateNumDiffTpl<NewScalar> StateNumDiffTpl<Scalar>::cast() const {
 
 template <typename Scalar>
 void StateNumDiffTpl<Scalar>::JintegrateTransport(
-    const Eigen::Ref<const VectorXs>&, const Eigen::Ref<const VectorXs>&,
-    Eigen::Ref<MatrixXs>, const Jcomponent) const {}
+    const Eigen::Ref<const VectorXs>& x, const Eigen::Ref<const VectorXs>& dx,
+    Eigen::Ref<MatrixXs> Jin, const Jcomponent firstsecond) const {
+  state_->JintegrateTransport(x, dx, Jin, firstsecond);
+}
 
 template <typename Scalar>
 const Scalar StateNumDiffTpl<Scalar>::get_disturbance() const {
-- 
2.43.0


From 89db7265eec913681837be5375f904f43d0c4e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:27 +0000
Subject: [PATCH 70/96] fix: keep the bounds when casting states

---
 include/crocoddyl/core/numdiff/state.hxx    | 2 ++
 include/crocoddyl/core/states/euclidean.hxx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/crocoddyl/core/numdiff/state.hxx b/include/crocoddyl/core/numdiff/state.hxx
index 73edc2a..d883b51 100644
--- a/include/crocoddyl/core/numdiff/state.hxx
+++ b/include/crocoddyl/core/numdiff/state.hxx
@@ -234,6 +234,8 @@ template <typename NewScalar>
 StateNumDiffTpl<NewScalar> StateNumDiffTpl<Scalar>::cast() const {
   typedef StateNumDiffTpl<NewScalar> ReturnType;
   ReturnType res(state_->template cast<NewScalar>());
+  res.set_lb(this->lb_.template cast<NewScalar>());
+  res.set_ub(this->ub_.template cast<NewScalar>());
   return res;
 }
 
diff --git a/include/crocoddyl/core/states/euclidean.hxx b/include/crocoddyl/core/states/euclidean.hxx
index 01ff26b..bf2aa68 100644
--- a/include/crocoddyl/core/states/euclidean.hxx
+++ b/include/crocoddyl/core/states/euclidean.hxx
@@ -182,6 +182,8 @@ template <typename NewScalar>
 StateVectorTpl<NewScalar> StateVectorTpl<Scalar>::cast() const {
   typedef StateVectorTpl<NewScalar> ReturnType;
   ReturnType res(nx_);
+  res.set_lb(this->lb_.template cast<NewScalar>());
+  res.set_ub(this->ub_.template cast<NewScalar>());
   return res;
 }
 
-- 
2.43.0


From abd5e05181d3e7cbd53be8a952d882ef93b310b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:27 +0000
Subject: [PATCH 71/96] fix: keep the control limits when casting integrated
 models

---
 include/crocoddyl/core/integrator/euler.hxx | 4 ++++
 include/crocoddyl/core/integrator/rk.hxx    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/crocoddyl/core/integrator/euler.hxx b/include/crocoddyl/core/integrator/euler.hxx
index 3b58f7f..00e14bf 100644
--- a/include/crocoddyl/core/integrator/euler.hxx
+++ b/include/crocoddyl/core/integrator/euler.hxx
@@ -165,10 +165,14 @@ IntegratedActionModelEulerTpl<Scalar>::cast() const {
     ReturnType ret(differential_->template cast<NewScalar>(),
                    control_->template cast<NewScalar>(),
                    scalar_cast<NewScalar>(time_step_), with_cost_residual_);
+    ret.set_u_lb(Base::get_u_lb().template cast<NewScalar>());
+    ret.set_u_ub(Base::get_u_ub().template cast<NewScalar>());
     return ret;
   } else {
     ReturnType ret(differential_->template cast<NewScalar>(),
                    scalar_cast<NewScalar>(time_step_), with_cost_residual_);
+    ret.set_u_lb(Base::get_u_lb().template cast<NewScalar>());
+    ret.set_u_ub(Base::get_u_ub().template cast<NewScalar>());
     return ret;
   }
 }
diff --git a/include/crocoddyl/core/integrator/rk.hxx b/include/crocoddyl/core/integrator/rk.hxx
index 6ed7b46..067b362 100644
--- a/include/crocoddyl/core/integrator/rk.hxx
+++ b/include/crocoddyl/core/integrator/rk.hxx
@@ -341,10 +341,14 @@ IntegratedActionModelRKTpl<NewScalar> IntegratedActionModelRKTpl<Scalar>::cast()
     ReturnType ret(differential_->template cast<NewScalar>(),
                    control_->template cast<NewScalar>(), rk_type_,
                    scalar_cast<NewScalar>(time_step_), with_cost_residual_);
+    ret.set_u_lb(Base::get_u_lb().template cast<NewScalar>());
+    ret.set_u_ub(Base::get_u_ub().template cast<NewScalar>());
     return ret;
   } else {
     ReturnType ret(differential_->template cast<NewScalar>(), rk_type_,
                    scalar_cast<NewScalar>(time_step_), with_cost_residual_);
+    ret.set_u_lb(Base::get_u_lb().template cast<NewScalar>());
+    ret.set_u_ub(Base::get_u_ub().template cast<NewScalar>());
     return ret;
   }
 }
-- 
2.43.0


From e78dfc36603e7ace6eae6e228336fcfbabbba84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:27 +0000
Subject: [PATCH 72/96] fix: keep the Gauss approximation and limits when
 casting numdiff actions

---
 include/crocoddyl/core/numdiff/action.hxx      | 4 +++-
 include/crocoddyl/core/numdiff/diff-action.hxx | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/numdiff/action.hxx b/include/crocoddyl/core/numdiff/action.hxx
index 3d07122..ddff367 100644
--- a/include/crocoddyl/core/numdiff/action.hxx
+++ b/include/crocoddyl/core/numdiff/action.hxx
@@ -340,7 +340,9 @@ template <typename Scalar>
 template <typename NewScalar>
 ActionModelNumDiffTpl<NewScalar> ActionModelNumDiffTpl<Scalar>::cast() const {
   typedef ActionModelNumDiffTpl<NewScalar> ReturnType;
-  ReturnType res(model_->template cast<NewScalar>());
+  ReturnType res(model_->template cast<NewScalar>(), with_gauss_approx_);
+  res.set_u_lb(Base::get_u_lb().template cast<NewScalar>());
+  res.set_u_ub(Base::get_u_ub().template cast<NewScalar>());
   return res;
 }
 
diff --git a/include/crocoddyl/core/numdiff/diff-action.hxx b/include/crocoddyl/core/numdiff/diff-action.hxx
index 564631b..34a9fd2 100644
--- a/include/crocoddyl/core/numdiff/diff-action.hxx
+++ b/include/crocoddyl/core/numdiff/diff-action.hxx
@@ -335,7 +335,9 @@ template <typename NewScalar>
 DifferentialActionModelNumDiffTpl<NewScalar>
 DifferentialActionModelNumDiffTpl<Scalar>::cast() const {
   typedef DifferentialActionModelNumDiffTpl<NewScalar> ReturnType;
-  ReturnType res(model_->template cast<NewScalar>());
+  ReturnType res(model_->template cast<NewScalar>(), with_gauss_approx_);
+  res.set_u_lb(Base::get_u_lb().template cast<NewScalar>());
+  res.set_u_ub(Base::get_u_ub().template cast<NewScalar>());
   return res;
 }
 
-- 
2.43.0


From aaa9d632d3f626e2c882d6e47dbfbf2610f38346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:27 +0000
Subject: [PATCH 73/96] fix: do not reduce the activation bounds again when
 casting them

---
 .../core/activations/quadratic-barrier.hpp        | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/activations/quadratic-barrier.hpp b/include/crocoddyl/core/activations/quadratic-barrier.hpp
index feec6f6..2556459 100644
--- a/include/crocoddyl/core/activations/quadratic-barrier.hpp
+++ b/include/crocoddyl/core/activations/quadratic-barrier.hpp
@@ -77,8 +77,19 @@ struct ActivationBoundsTpl {
   template <typename NewScalar>
   ActivationBoundsTpl<NewScalar> cast() const {
     typedef ActivationBoundsTpl<NewScalar> ReturnType;
-    ReturnType res(lb.template cast<NewScalar>(), ub.template cast<NewScalar>(),
-                   scalar_cast<NewScalar>(beta));
+    // The bounds are already reduced by beta
+    ReturnType res;
+    res.lb = lb.template cast<NewScalar>();
+    res.ub = ub.template cast<NewScalar>();
+    res.beta = scalar_cast<NewScalar>(beta);
+    for (std::size_t i = 0; i < static_cast<std::size_t>(lb.size()); ++i) {
+      if (lb(i) == -std::numeric_limits<Scalar>::max()) {
+        res.lb(i) = -std::numeric_limits<NewScalar>::max();
+      }
+      if (ub(i) == std::numeric_limits<Scalar>::max()) {
+        res.ub(i) = std::numeric_limits<NewScalar>::max();
+      }
+    }
     return res;
   }
 
-- 
2.43.0


From 1fd1f7607ff969f54bd0978eaa64dce0ee2b085e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:35 +0000
Subject: [PATCH 74/96] fix: keep the default values of invalid friction-cone
 parameters

---
 include/crocoddyl/multibody/friction-cone.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/multibody/friction-cone.hxx b/include/crocoddyl/multibody/friction-cone.hxx
index ff4f22a..639317e 100644
--- a/include/crocoddyl/multibody/friction-cone.hxx
+++ b/include/crocoddyl/multibody/friction-cone.hxx
@@ -232,12 +232,12 @@ void FrictionConeTpl<Scalar>::set_nsurf(const Vector3s& nsurf) {
 
 template <typename Scalar>
 void FrictionConeTpl<Scalar>::set_mu(const Scalar mu) {
+  mu_ = mu;
   if (mu < Scalar(0.)) {
     mu_ = Scalar(1.);
     std::cerr << "Warning: mu has to be a positive value, set to 1."
               << std::endl;
   }
-  mu_ = mu;
 }
 
 template <typename Scalar>
@@ -247,23 +247,23 @@ void FrictionConeTpl<Scalar>::set_inner_appr(const bool inner_appr) {
 
 template <typename Scalar>
 void FrictionConeTpl<Scalar>::set_min_nforce(const Scalar min_nforce) {
+  min_nforce_ = min_nforce;
   if (min_nforce < Scalar(0.)) {
     min_nforce_ = Scalar(0.);
     std::cerr << "Warning: min_nforce has to be a positive value, set to 0"
               << std::endl;
   }
-  min_nforce_ = min_nforce;
 }
 
 template <typename Scalar>
 void FrictionConeTpl<Scalar>::set_max_nforce(const Scalar max_nforce) {
+  max_nforce_ = max_nforce;
   if (max_nforce < Scalar(0.)) {
     max_nforce_ = std::numeric_limits<Scalar>::infinity();
     std::cerr << "Warning: max_nforce has to be a positive value, set to "
                  "infinity value"
               << std::endl;
   }
-  max_nforce_ = max_nforce;
 }
 
 template <typename Scalar>
-- 
2.43.0


From 0261d488b994e01fb363d4ba4045d3cd29e940b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:35 +0000
Subject: [PATCH 75/96] fix: use the orientation convention of the cone in its
 surface normal

---
 include/crocoddyl/multibody/friction-cone.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/multibody/friction-cone.hxx b/include/crocoddyl/multibody/friction-cone.hxx
index 639317e..d002ad4 100644
--- a/include/crocoddyl/multibody/friction-cone.hxx
+++ b/include/crocoddyl/multibody/friction-cone.hxx
@@ -137,7 +137,7 @@ void FrictionConeTpl<Scalar>::update(const Vector3s& normal, const Scalar mu,
         << "Warning: normal is not an unitary vector, then we normalized it"
         << std::endl;
   }
-  R_ = Quaternions::FromTwoVectors(nsurf, Vector3s::UnitZ()).toRotationMatrix();
+  R_ = Quaternions::FromTwoVectors(Vector3s::UnitZ(), nsurf).toRotationMatrix();
   set_mu(mu);
   set_inner_appr(inner_appr);
   set_min_nforce(min_nforce);
@@ -183,7 +183,7 @@ const typename MathBaseTpl<Scalar>::Matrix3s& FrictionConeTpl<Scalar>::get_R()
 
 template <typename Scalar>
 typename MathBaseTpl<Scalar>::Vector3s FrictionConeTpl<Scalar>::get_nsurf() {
-  return R_.row(2).transpose();
+  return R_.col(2);
 }
 
 template <typename Scalar>
@@ -227,7 +227,7 @@ void FrictionConeTpl<Scalar>::set_nsurf(const Vector3s& nsurf) {
         << std::endl;
   }
   R_ =
-      Quaternions::FromTwoVectors(normal, Vector3s::UnitZ()).toRotationMatrix();
+      Quaternions::FromTwoVectors(Vector3s::UnitZ(), normal).toRotationMatrix();
 }
 
 template <typename Scalar>
-- 
2.43.0


From 1f94a95dc4900c254cee66b483ead27979d2da34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:35 +0000
Subject: [PATCH 76/96] fix: build the CoP support of a wrench cone from its
 box

---
 include/crocoddyl/multibody/cop-support.hxx | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/crocoddyl/multibody/cop-support.hxx b/include/crocoddyl/multibody/cop-support.hxx
index 0cef53c..51c4891 100644
--- a/include/crocoddyl/multibody/cop-support.hxx
+++ b/include/crocoddyl/multibody/cop-support.hxx
@@ -22,11 +22,10 @@ CoPSupportTpl<Scalar>::CoPSupportTpl(const Matrix3s& R, const Vector2s& box)
 
 template <typename Scalar>
 CoPSupportTpl<Scalar>::CoPSupportTpl(const WrenchConeTpl<Scalar>& other)
-    : A_(other.get_A()),
-      ub_(other.get_ub()),
-      lb_(other.get_lb()),
-      R_(other.get_R()),
-      box_(other.get_box()) {}
+    : R_(other.get_R()), box_(other.get_box()) {
+  // Update the inequality matrix and bounds
+  update();
+}
 
 template <typename Scalar>
 CoPSupportTpl<Scalar>::CoPSupportTpl(const CoPSupportTpl<Scalar>& other)
-- 
2.43.0


From 87d78d5b28ea26af02c223b7bdf1839294528cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:58 +0000
Subject: [PATCH 77/96] fix: replace negative box dimensions when constructing
 wrench cones and CoP supports

---
 include/crocoddyl/multibody/cop-support.hxx | 1 +
 include/crocoddyl/multibody/wrench-cone.hxx | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/include/crocoddyl/multibody/cop-support.hxx b/include/crocoddyl/multibody/cop-support.hxx
index 51c4891..6517874 100644
--- a/include/crocoddyl/multibody/cop-support.hxx
+++ b/include/crocoddyl/multibody/cop-support.hxx
@@ -12,6 +12,7 @@ namespace crocoddyl {
 template <typename Scalar>
 CoPSupportTpl<Scalar>::CoPSupportTpl(const Matrix3s& R, const Vector2s& box)
     : R_(R), box_(box) {
+  set_box(box);
   A_.setZero();
   ub_.setZero();
   lb_.setZero();
diff --git a/include/crocoddyl/multibody/wrench-cone.hxx b/include/crocoddyl/multibody/wrench-cone.hxx
index 6f53dc8..844905f 100644
--- a/include/crocoddyl/multibody/wrench-cone.hxx
+++ b/include/crocoddyl/multibody/wrench-cone.hxx
@@ -42,6 +42,7 @@ WrenchConeTpl<Scalar>::WrenchConeTpl(const Matrix3s& R, const Scalar mu,
                  "infinity value"
               << std::endl;
   }
+  set_box(box);
   A_ = MatrixX6s::Zero(nf_ + 13, 6);
   ub_ = VectorXs::Zero(nf_ + 13);
   lb_ = VectorXs::Zero(nf_ + 13);
@@ -82,6 +83,7 @@ WrenchConeTpl<Scalar>::WrenchConeTpl(const Matrix3s& R, const Scalar mu,
                  "infinity value"
               << std::endl;
   }
+  set_box(box);
   A_ = MatrixX6s::Zero(nf_ + 13, 6);
   ub_ = VectorXs::Zero(nf_ + 13);
   lb_ = VectorXs::Zero(nf_ + 13);
-- 
2.43.0


From 09d6e0471ab53c227e482c33ceac7fc944c79145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:58 +0000
Subject: [PATCH 78/96] fix: leave unbounded foot dimensions out of the wrench
 inequalities

---
 include/crocoddyl/multibody/cop-support.hxx | 14 ++++++++++----
 include/crocoddyl/multibody/wrench-cone.hxx | 21 +++++++++++++++------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/include/crocoddyl/multibody/cop-support.hxx b/include/crocoddyl/multibody/cop-support.hxx
index 6517874..8f322ea 100644
--- a/include/crocoddyl/multibody/cop-support.hxx
+++ b/include/crocoddyl/multibody/cop-support.hxx
@@ -68,10 +68,16 @@ void CoPSupportTpl<Scalar>::update() {
   //  0  0 -L  0 -1  0]
   const Scalar L = box_(0) / Scalar(2.);
   const Scalar W = box_(1) / Scalar(2.);
-  A_.row(0) << -W * R_.col(2).transpose(), R_.col(0).transpose();
-  A_.row(1) << -W * R_.col(2).transpose(), -R_.col(0).transpose();
-  A_.row(2) << -L * R_.col(2).transpose(), R_.col(1).transpose();
-  A_.row(3) << -L * R_.col(2).transpose(), -R_.col(1).transpose();
+  // An unbounded dimension of the foot does not limit the CoP
+  const Scalar inf = std::numeric_limits<Scalar>::infinity();
+  if (W < inf) {
+    A_.row(0) << -W * R_.col(2).transpose(), R_.col(0).transpose();
+    A_.row(1) << -W * R_.col(2).transpose(), -R_.col(0).transpose();
+  }
+  if (L < inf) {
+    A_.row(2) << -L * R_.col(2).transpose(), R_.col(1).transpose();
+    A_.row(3) << -L * R_.col(2).transpose(), -R_.col(1).transpose();
+  }
 }
 
 template <typename Scalar>
diff --git a/include/crocoddyl/multibody/wrench-cone.hxx b/include/crocoddyl/multibody/wrench-cone.hxx
index 844905f..c141cb6 100644
--- a/include/crocoddyl/multibody/wrench-cone.hxx
+++ b/include/crocoddyl/multibody/wrench-cone.hxx
@@ -184,12 +184,21 @@ void WrenchConeTpl<Scalar>::update() {
   //  0  0 -W -1  0  0;
   //  0  0 -L  0  1  0;
   //  0  0 -L  0 -1  0]
-  A_.row(nf_ + 1) << -W * R_transpose.row(2), R_transpose.row(0);
-  A_left.row(nf_ + 2) = A_left.row(nf_ + 1);
-  A_right.row(nf_ + 2) = -R_transpose.row(0);
-  A_.row(nf_ + 3) << -L * R_transpose.row(2), R_transpose.row(1);
-  A_left.row(nf_ + 4) = A_left.row(nf_ + 3);
-  A_right.row(nf_ + 4) = -R_transpose.row(1);
+  // An unbounded dimension of the foot limits neither the CoP nor the yaw torque
+  const Scalar inf = std::numeric_limits<Scalar>::infinity();
+  if (W < inf) {
+    A_.row(nf_ + 1) << -W * R_transpose.row(2), R_transpose.row(0);
+    A_left.row(nf_ + 2) = A_left.row(nf_ + 1);
+    A_right.row(nf_ + 2) = -R_transpose.row(0);
+  }
+  if (L < inf) {
+    A_.row(nf_ + 3) << -L * R_transpose.row(2), R_transpose.row(1);
+    A_left.row(nf_ + 4) = A_left.row(nf_ + 3);
+    A_right.row(nf_ + 4) = -R_transpose.row(1);
+  }
+  if (!(L < inf) || !(W < inf)) {
+    return;
+  }
 
   // Yaw-tau information
   const Scalar mu_LW = -mu * (L + W);
-- 
2.43.0


From 6eb3b0e766594efc0aec115ee2ac2b8bcb72076a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:20 +0000
Subject: [PATCH 79/96] fix: forget non-finite controls in the quasi-static
 commands of RK integrators

---
 include/crocoddyl/core/integrator/rk.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/integrator/rk.hxx b/include/crocoddyl/core/integrator/rk.hxx
index 067b362..bfa91c5 100644
--- a/include/crocoddyl/core/integrator/rk.hxx
+++ b/include/crocoddyl/core/integrator/rk.hxx
@@ -388,7 +388,7 @@ void IntegratedActionModelRKTpl<Scalar>::quasiStatic(
   Data* d = static_cast<Data*>(data.get());
   const std::shared_ptr<ControlParametrizationDataAbstract>& u0_data =
       d->control[0];
-  u0_data->w *= Scalar(0.);
+  u0_data->w.setZero();
   differential_->quasiStatic(d->differential[0], u0_data->w, x, maxiter, tol);
   control_->params(u0_data, Scalar(0.), u0_data->w);
   u = u0_data->u;
-- 
2.43.0


From 766d5f84f21131b72fd76dd7f0be8b8f93f20c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:55 +0000
Subject: [PATCH 80/96] fix: reject a negative alpha in the setters of the
 activations as in their constructors

---
 include/crocoddyl/core/activations/2norm-barrier.hpp      | 7 ++++++-
 include/crocoddyl/core/activations/quadratic-flat-exp.hpp | 7 ++++++-
 include/crocoddyl/core/activations/quadratic-flat-log.hpp | 7 ++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/core/activations/2norm-barrier.hpp b/include/crocoddyl/core/activations/2norm-barrier.hpp
index 7af172b..c25c6db 100644
--- a/include/crocoddyl/core/activations/2norm-barrier.hpp
+++ b/include/crocoddyl/core/activations/2norm-barrier.hpp
@@ -144,7 +144,12 @@ class ActivationModel2NormBarrierTpl
    * @brief Get and set the threshold factor
    */
   const Scalar& get_alpha() const { return alpha_; };
-  void set_alpha(const Scalar& alpha) { alpha_ = alpha; };
+  void set_alpha(const Scalar& alpha) {
+    if (alpha < Scalar(0.)) {
+      throw_pretty("Invalid argument: " << "alpha should be a positive value");
+    }
+    alpha_ = alpha;
+  };
 
   /**
    * @brief Print relevant information of the 2-norm barrier model
diff --git a/include/crocoddyl/core/activations/quadratic-flat-exp.hpp b/include/crocoddyl/core/activations/quadratic-flat-exp.hpp
index f03653f..dd6eef4 100644
--- a/include/crocoddyl/core/activations/quadratic-flat-exp.hpp
+++ b/include/crocoddyl/core/activations/quadratic-flat-exp.hpp
@@ -122,7 +122,12 @@ class ActivationModelQuadFlatExpTpl
   }
 
   Scalar get_alpha() const { return alpha_; };
-  void set_alpha(const Scalar alpha) { alpha_ = alpha; };
+  void set_alpha(const Scalar alpha) {
+    if (alpha < Scalar(0.)) {
+      throw_pretty("Invalid argument: " << "alpha should be a positive value");
+    }
+    alpha_ = alpha;
+  };
 
   /**
    * @brief Print relevant information of the quadratic flat-exp model
diff --git a/include/crocoddyl/core/activations/quadratic-flat-log.hpp b/include/crocoddyl/core/activations/quadratic-flat-log.hpp
index 4f4c19c..67b3429 100644
--- a/include/crocoddyl/core/activations/quadratic-flat-log.hpp
+++ b/include/crocoddyl/core/activations/quadratic-flat-log.hpp
@@ -120,7 +120,12 @@ class ActivationModelQuadFlatLogTpl
   }
 
   Scalar get_alpha() const { return alpha_; };
-  void set_alpha(const Scalar alpha) { alpha_ = alpha; };
+  void set_alpha(const Scalar alpha) {
+    if (alpha < Scalar(0.)) {
+      throw_pretty("Invalid argument: " << "alpha should be a positive value");
+    }
+    alpha_ = alpha;
+  };
 
   /**
    * @brief Print relevant information of the quadratic flat-log model
-- 
2.43.0


From fe61de92f34e265f00da6f39011d43e1d549ebcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:55 +0000
Subject: [PATCH 81/96] fix: reject bounds and weights of the wrong dimension
 in barrier activations

---
 .../core/activations/quadratic-barrier.hpp      |  9 ++++++++-
 .../activations/weighted-quadratic-barrier.hpp  | 17 +++++++++++++++--
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/core/activations/quadratic-barrier.hpp b/include/crocoddyl/core/activations/quadratic-barrier.hpp
index 2556459..91d4677 100644
--- a/include/crocoddyl/core/activations/quadratic-barrier.hpp
+++ b/include/crocoddyl/core/activations/quadratic-barrier.hpp
@@ -190,7 +190,14 @@ class ActivationModelQuadraticBarrierTpl
   }
 
   const ActivationBounds& get_bounds() const { return bounds_; };
-  void set_bounds(const ActivationBounds& bounds) { bounds_ = bounds; };
+  void set_bounds(const ActivationBounds& bounds) {
+    if (static_cast<std::size_t>(bounds.lb.size()) != nr_) {
+      throw_pretty("Invalid argument: "
+                   << "the bounds have wrong dimension (it should be " +
+                          std::to_string(nr_) + ")");
+    }
+    bounds_ = bounds;
+  };
 
   /**
    * @brief Print relevant information of the quadratic barrier model
diff --git a/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp b/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp
index 2f06f04..dc9f7af 100644
--- a/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp
+++ b/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp
@@ -36,7 +36,13 @@ class ActivationModelWeightedQuadraticBarrierTpl
 
   explicit ActivationModelWeightedQuadraticBarrierTpl(
       const ActivationBounds& bounds, const VectorXs& weights)
-      : Base(bounds.lb.size()), bounds_(bounds), weights_(weights) {};
+      : Base(bounds.lb.size()), bounds_(bounds), weights_(weights) {
+    if (static_cast<std::size_t>(weights_.size()) != nr_) {
+      throw_pretty("Invalid argument: "
+                   << "weight vector has wrong dimension (it should be " +
+                          std::to_string(nr_) + ")");
+    }
+  };
   virtual ~ActivationModelWeightedQuadraticBarrierTpl() = default;
 
   virtual void calc(const std::shared_ptr<ActivationDataAbstract>& data,
@@ -92,7 +98,14 @@ class ActivationModelWeightedQuadraticBarrierTpl
 
   const ActivationBounds& get_bounds() const { return bounds_; };
   const VectorXs& get_weights() const { return weights_; };
-  void set_bounds(const ActivationBounds& bounds) { bounds_ = bounds; };
+  void set_bounds(const ActivationBounds& bounds) {
+    if (static_cast<std::size_t>(bounds.lb.size()) != nr_) {
+      throw_pretty("Invalid argument: "
+                   << "the bounds have wrong dimension (it should be " +
+                          std::to_string(nr_) + ")");
+    }
+    bounds_ = bounds;
+  };
   void set_weights(const VectorXs& weights) {
     if (weights.size() != weights_.size()) {
       throw_pretty("Invalid argument: "
-- 
2.43.0


From cf4bc3e1a4811372a1f64a4a622dea4dffd67f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:55 +0000
Subject: [PATCH 82/96] fix: build shooting problems without running nodes, and
 reject appending to them

---
 include/crocoddyl/core/optctrl/shooting.hxx | 24 +++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/crocoddyl/core/optctrl/shooting.hxx b/include/crocoddyl/core/optctrl/shooting.hxx
index d86bbf9..b9a34a7 100644
--- a/include/crocoddyl/core/optctrl/shooting.hxx
+++ b/include/crocoddyl/core/optctrl/shooting.hxx
@@ -22,8 +22,12 @@ ShootingProblemTpl<Scalar>::ShootingProblemTpl(
       x0_(x0),
       terminal_model_(terminal_model),
       running_models_(running_models),
-      nx_(running_models[0]->get_state()->get_nx()),
-      ndx_(running_models[0]->get_state()->get_ndx()),
+      nx_((running_models.empty() ? terminal_model : running_models[0])
+              ->get_state()
+              ->get_nx()),
+      ndx_((running_models.empty() ? terminal_model : running_models[0])
+               ->get_state()
+               ->get_ndx()),
       nthreads_(1),
       is_updated_(false) {
   if (static_cast<std::size_t>(x0.size()) != nx_) {
@@ -77,8 +81,12 @@ ShootingProblemTpl<Scalar>::ShootingProblemTpl(
       terminal_data_(terminal_data),
       running_models_(running_models),
       running_datas_(running_datas),
-      nx_(running_models[0]->get_state()->get_nx()),
-      ndx_(running_models[0]->get_state()->get_ndx()),
+      nx_((running_models.empty() ? terminal_model : running_models[0])
+              ->get_state()
+              ->get_nx()),
+      ndx_((running_models.empty() ? terminal_model : running_models[0])
+               ->get_state()
+               ->get_ndx()),
       nthreads_(1),
       is_updated_(false) {
   if (static_cast<std::size_t>(x0.size()) != nx_) {
@@ -328,6 +336,10 @@ void ShootingProblemTpl<Scalar>::circularAppend(
     throw_pretty("Invalid argument: "
                  << "ndx node is not consistent with the other nodes")
   }
+  if (T_ == 0) {
+    throw_pretty("Invalid argument: "
+                 << "there is no running node to be replaced")
+  }
   is_updated_ = true;
   for (std::size_t i = 0; i < T_ - 1; ++i) {
     running_models_[i] = running_models_[i + 1];
@@ -348,6 +360,10 @@ void ShootingProblemTpl<Scalar>::circularAppend(
     throw_pretty("Invalid argument: "
                  << "ndx node is not consistent with the other nodes")
   }
+  if (T_ == 0) {
+    throw_pretty("Invalid argument: "
+                 << "there is no running node to be replaced")
+  }
   is_updated_ = true;
   for (std::size_t i = 0; i < T_ - 1; ++i) {
     running_models_[i] = running_models_[i + 1];
-- 
2.43.0


From 8977751f61dc579bc17a7b38abc3a0f96ba2ce24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:12 +0000
Subject: [PATCH 83/96] fix: bound the rank of the constraints Intro has not
 factorized yet

---
 src/core/solvers/intro.cpp | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index f71bbb4..702270b 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -65,7 +65,7 @@ SolverIntro::SolverIntro(std::shared_ptr<ShootingProblem> problem)
     const std::shared_ptr<ActionModelAbstract>& model = models[t];
     const std::size_t nu = model->get_nu();
     const std::size_t nh = model->get_nh();
-    Hu_rank_[t] = nh;
+    Hu_rank_[t] = std::min(nh, nu);
     KQuu_tmp_[t] = Eigen::MatrixXd::Zero(ndx, nu);
     YZ_[t] = Eigen::MatrixXd::Zero(nu, nu);
     Hy_[t] = Eigen::MatrixXd::Zero(nh, nh);
@@ -252,19 +252,20 @@ void SolverIntro::resizeData() {
     const std::shared_ptr<ActionModelAbstract>& model = models[t];
     const std::size_t nu = model->get_nu();
     const std::size_t nh = model->get_nh();
-    KQuu_tmp_[t].conservativeResize(ndx, nu);
-    YZ_[t].conservativeResize(nu, nu);
-    Hy_[t].conservativeResize(nh, nh);
-    Qz_[t].conservativeResize(nh);
-    Qzz_[t].conservativeResize(nh, nh);
-    Qxz_[t].conservativeResize(ndx, nh);
-    Quz_[t].conservativeResize(nu, nh);
-    kz_[t].conservativeResize(nu);
-    Kz_[t].conservativeResize(nu, ndx);
-    ks_[t].conservativeResize(nh);
-    hs_[t].conservativeResize(nh);
-    Ks_[t].conservativeResize(nh, ndx);
-    QuuinvHuT_[t].conservativeResize(nu, nh);
+    Hu_rank_[t] = std::min(Hu_rank_[t], std::min(nh, nu));
+    KQuu_tmp_[t].conservativeResizeLike(Eigen::MatrixXd::Zero(ndx, nu));
+    YZ_[t].conservativeResizeLike(Eigen::MatrixXd::Zero(nu, nu));
+    Hy_[t].conservativeResizeLike(Eigen::MatrixXd::Zero(nh, nh));
+    Qz_[t].conservativeResizeLike(Eigen::VectorXd::Zero(nh));
+    Qzz_[t].conservativeResizeLike(Eigen::MatrixXd::Zero(nh, nh));
+    Qxz_[t].conservativeResizeLike(Eigen::MatrixXd::Zero(ndx, nh));
+    Quz_[t].conservativeResizeLike(Eigen::MatrixXd::Zero(nu, nh));
+    kz_[t].conservativeResizeLike(Eigen::VectorXd::Zero(nu));
+    Kz_[t].conservativeResizeLike(Eigen::MatrixXd::Zero(nu, ndx));
+    ks_[t].conservativeResizeLike(Eigen::VectorXd::Zero(nh));
+    hs_[t].conservativeResizeLike(Eigen::VectorXd::Zero(nh));
+    Ks_[t].conservativeResizeLike(Eigen::MatrixXd::Zero(nh, ndx));
+    QuuinvHuT_[t].conservativeResizeLike(Eigen::MatrixXd::Zero(nu, nh));
   }
   STOP_PROFILER("SolverIntro::resizeData");
 }
-- 
2.43.0


From ab6f68c4bc5b0d80a25d5e0db8c10e5e778aae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:12 +0000
Subject: [PATCH 84/96] fix: resize the candidate of the solvers to the horizon
 of an edited problem

---
 src/core/solver-base.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/solver-base.cpp b/src/core/solver-base.cpp
index b4ea3a8..77327dd 100644
--- a/src/core/solver-base.cpp
+++ b/src/core/solver-base.cpp
@@ -283,6 +283,9 @@ void SolverAbstract::setCandidate(const std::vector<Eigen::VectorXd>& xs_warm,
   }
 
   if (xs_warm.size() == 0) {
+  // The horizon might have changed since the last allocation
+  xs_.resize(T + 1);
+  us_.resize(T);
     for (std::size_t t = 0; t < T; ++t) {
       const std::shared_ptr<ActionModelAbstract>& model = models[t];
       xs_[t] = model->get_state()->zero();
-- 
2.43.0


From 1ca3b7cddeaf5f952dc766dc593117da01297352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:12 +0000
Subject: [PATCH 85/96] fix: initialise the expected improvement of the solvers

---
 src/core/solver-base.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/solver-base.cpp b/src/core/solver-base.cpp
index 77327dd..13188b1 100644
--- a/src/core/solver-base.cpp
+++ b/src/core/solver-base.cpp
@@ -44,6 +44,7 @@ SolverAbstract::SolverAbstract(std::shared_ptr<ShootingProblem> problem)
       iter_(0),
       tmp_feas_(0.) {
   // Allocate common data
+  d_.setZero();
   const std::size_t ndx = problem_->get_ndx();
   const std::size_t T = problem_->get_T();
   const std::size_t ng_T = problem_->get_terminalModel()->get_ng_T();
-- 
2.43.0


From 6e5e90c9c015f9600ddda74e31963a8de8f9f1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:12 +0000
Subject: [PATCH 86/96] fix: do not leave garbage in the entries added when
 resizing the solvers

---
 src/core/solver-base.cpp      |  6 +++---
 src/core/solvers/box-ddp.cpp  |  6 +++---
 src/core/solvers/box-fddp.cpp |  6 +++---
 src/core/solvers/box-qp.cpp   | 16 ++++++++--------
 src/core/solvers/ddp.cpp      | 16 ++++++++--------
 5 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/core/solver-base.cpp b/src/core/solver-base.cpp
index 13188b1..796c72f 100644
--- a/src/core/solver-base.cpp
+++ b/src/core/solver-base.cpp
@@ -84,11 +84,11 @@ void SolverAbstract::resizeData() {
     const std::shared_ptr<ActionModelAbstract>& model = models[t];
     const std::size_t nu = model->get_nu();
     const std::size_t ng = model->get_ng();
-    us_[t].conservativeResize(nu);
-    g_adj_[t].conservativeResize(ng);
+    us_[t].conservativeResizeLike(Eigen::VectorXd::Zero(nu));
+    g_adj_[t].conservativeResizeLike(Eigen::VectorXd::Zero(ng));
   }
 
-  g_adj_.back().conservativeResize(ng_T);
+  g_adj_.back().conservativeResizeLike(Eigen::VectorXd::Zero(ng_T));
 
   STOP_PROFILER("SolverAbstract::resizeData");
 }
diff --git a/src/core/solvers/box-ddp.cpp b/src/core/solvers/box-ddp.cpp
index ceb1645..4994664 100644
--- a/src/core/solvers/box-ddp.cpp
+++ b/src/core/solvers/box-ddp.cpp
@@ -39,9 +39,9 @@ void SolverBoxDDP::resizeData() {
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<ActionModelAbstract>& model = models[t];
     const std::size_t nu = model->get_nu();
-    Quu_inv_[t].conservativeResize(nu, nu);
-    du_lb_[t].conservativeResize(nu);
-    du_ub_[t].conservativeResize(nu);
+    Quu_inv_[t].conservativeResizeLike(Eigen::MatrixXd::Zero(nu, nu));
+    du_lb_[t].conservativeResizeLike(Eigen::VectorXd::Zero(nu));
+    du_ub_[t].conservativeResizeLike(Eigen::VectorXd::Zero(nu));
   }
   STOP_PROFILER("SolverBoxDDP::resizeData");
 }
diff --git a/src/core/solvers/box-fddp.cpp b/src/core/solvers/box-fddp.cpp
index 500b44c..7d9ac9e 100644
--- a/src/core/solvers/box-fddp.cpp
+++ b/src/core/solvers/box-fddp.cpp
@@ -39,9 +39,9 @@ void SolverBoxFDDP::resizeData() {
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<ActionModelAbstract>& model = models[t];
     const std::size_t nu = model->get_nu();
-    Quu_inv_[t].conservativeResize(nu, nu);
-    du_lb_[t].conservativeResize(nu);
-    du_ub_[t].conservativeResize(nu);
+    Quu_inv_[t].conservativeResizeLike(Eigen::MatrixXd::Zero(nu, nu));
+    du_lb_[t].conservativeResizeLike(Eigen::VectorXd::Zero(nu));
+    du_ub_[t].conservativeResizeLike(Eigen::VectorXd::Zero(nu));
   }
   STOP_PROFILER("SolverBoxFDDP::resizeData");
 }
diff --git a/src/core/solvers/box-qp.cpp b/src/core/solvers/box-qp.cpp
index 9eea344..258e633 100644
--- a/src/core/solvers/box-qp.cpp
+++ b/src/core/solvers/box-qp.cpp
@@ -217,14 +217,14 @@ const std::vector<double>& BoxQP::get_alphas() const { return alphas_; }
 
 void BoxQP::set_nx(const std::size_t nx) {
   nx_ = nx;
-  x_.conservativeResize(nx);
-  xnew_.conservativeResize(nx);
-  g_.conservativeResize(nx);
-  dx_.conservativeResize(nx);
-  xo_.conservativeResize(nx);
-  dxo_.conservativeResize(nx);
-  qo_.conservativeResize(nx);
-  Ho_.conservativeResize(nx, nx);
+  x_.conservativeResizeLike(Eigen::VectorXd::Zero(nx));
+  xnew_.conservativeResizeLike(Eigen::VectorXd::Zero(nx));
+  g_.conservativeResizeLike(Eigen::VectorXd::Zero(nx));
+  dx_.conservativeResizeLike(Eigen::VectorXd::Zero(nx));
+  xo_.conservativeResizeLike(Eigen::VectorXd::Zero(nx));
+  dxo_.conservativeResizeLike(Eigen::VectorXd::Zero(nx));
+  qo_.conservativeResizeLike(Eigen::VectorXd::Zero(nx));
+  Ho_.conservativeResizeLike(Eigen::MatrixXd::Zero(nx, nx));
 }
 
 void BoxQP::set_maxiter(const std::size_t maxiter) { maxiter_ = maxiter; }
diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index c0ca340..eac0cf3 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -191,14 +191,14 @@ void SolverDDP::resizeData() {
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<ActionModelAbstract>& model = models[t];
     const std::size_t nu = model->get_nu();
-    Qxu_[t].conservativeResize(ndx, nu);
-    Quu_[t].conservativeResize(nu, nu);
-    Qu_[t].conservativeResize(nu);
-    K_[t].conservativeResize(nu, ndx);
+    Qxu_[t].conservativeResizeLike(Eigen::MatrixXd::Zero(ndx, nu));
+    Quu_[t].conservativeResizeLike(Eigen::MatrixXd::Zero(nu, nu));
+    Qu_[t].conservativeResizeLike(Eigen::VectorXd::Zero(nu));
+    K_[t].conservativeResizeLike(Eigen::MatrixXd::Zero(nu, ndx));
     k_[t].conservativeResizeLike(Eigen::VectorXd::Zero(nu));
-    us_try_[t].conservativeResize(nu);
-    FuTVxx_p_[t].conservativeResize(nu, ndx);
-    Quuk_[t].conservativeResize(nu);
+    us_try_[t].conservativeResizeLike(Eigen::VectorXd::Zero(nu));
+    FuTVxx_p_[t].conservativeResizeLike(Eigen::MatrixXd::Zero(nu, ndx));
+    Quuk_[t].conservativeResizeLike(Eigen::VectorXd::Zero(nu));
     if (nu != 0) {
       FuTVxx_p_[t].setZero();
     }
@@ -469,7 +469,7 @@ void SolverDDP::allocateData() {
 
     FuTVxx_p_[t] = MatrixXdRowMajor::Zero(nu, ndx);
     Quu_llt_[t] = Eigen::LLT<Eigen::MatrixXd>(nu);
-    Quuk_[t] = Eigen::VectorXd(nu);
+    Quuk_[t] = Eigen::VectorXd::Zero(nu);
   }
   Vxx_.back() = Eigen::MatrixXd::Zero(ndx, ndx);
   Vxx_tmp_ = Eigen::MatrixXd::Zero(ndx, ndx);
-- 
2.43.0


From 06925db8536ea9aeb51d2c804066e63a6d14b346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:12 +0000
Subject: [PATCH 87/96] fix: build and run the solvers on problems without
 running nodes

---
 include/crocoddyl/core/solvers/ddp.hpp |  2 +-
 src/core/solver-base.cpp               |  4 ++--
 src/core/solvers/box-ddp.cpp           |  3 ++-
 src/core/solvers/box-fddp.cpp          |  3 ++-
 src/core/solvers/ddp.cpp               |  3 ++-
 src/core/solvers/fddp.cpp              |  5 -----
 src/core/solvers/ipopt/ipopt-iface.cpp | 20 +++++++++++---------
 src/core/solvers/kkt.cpp               |  3 +--
 8 files changed, 21 insertions(+), 22 deletions(-)

diff --git a/include/crocoddyl/core/solvers/ddp.hpp b/include/crocoddyl/core/solvers/ddp.hpp
index 9708cca..64d9b50 100644
--- a/include/crocoddyl/core/solvers/ddp.hpp
+++ b/include/crocoddyl/core/solvers/ddp.hpp
@@ -353,7 +353,7 @@ class SolverDDP : public SolverAbstract {
   std::vector<Eigen::VectorXd>
       us_try_;  //!< Control trajectory computed by line-search procedure
   std::vector<Eigen::VectorXd>
-      dx_;  //!< State error during the roll-out/forward-pass (size T)
+      dx_;  //!< State error during the roll-out/forward-pass (size T+1)
 
   // allocate data
   std::vector<Eigen::MatrixXd>
diff --git a/src/core/solver-base.cpp b/src/core/solver-base.cpp
index 796c72f..0889214 100644
--- a/src/core/solver-base.cpp
+++ b/src/core/solver-base.cpp
@@ -102,7 +102,7 @@ double SolverAbstract::computeDynamicFeasibility() {
   const std::vector<std::shared_ptr<ActionDataAbstract> >& datas =
       problem_->get_runningDatas();
 
-  models[0]->get_state()->diff(xs_[0], x0, fs_[0]);
+  problem_->get_terminalModel()->get_state()->diff(xs_[0], x0, fs_[0]);
 #ifdef CROCODDYL_WITH_MULTITHREADING
 #pragma omp parallel for num_threads(problem_->get_nthreads())
 #endif
@@ -283,10 +283,10 @@ void SolverAbstract::setCandidate(const std::vector<Eigen::VectorXd>& xs_warm,
     }
   }
 
-  if (xs_warm.size() == 0) {
   // The horizon might have changed since the last allocation
   xs_.resize(T + 1);
   us_.resize(T);
+  if (xs_warm.size() == 0) {
     for (std::size_t t = 0; t < T; ++t) {
       const std::shared_ptr<ActionModelAbstract>& model = models[t];
       xs_[t] = model->get_state()->zero();
diff --git a/src/core/solvers/box-ddp.cpp b/src/core/solvers/box-ddp.cpp
index 4994664..a5ce973 100644
--- a/src/core/solvers/box-ddp.cpp
+++ b/src/core/solvers/box-ddp.cpp
@@ -12,7 +12,8 @@ namespace crocoddyl {
 
 SolverBoxDDP::SolverBoxDDP(std::shared_ptr<ShootingProblem> problem)
     : SolverDDP(problem),
-      qp_(problem->get_runningModels()[0]->get_nu(), 100, 0.1, 1e-5, 0.) {
+      qp_(problem->get_T() == 0 ? 0 : problem->get_runningModels()[0]->get_nu(),
+          100, 0.1, 1e-5, 0.) {
   allocateData();
 
   const std::size_t n_alphas = 10;
diff --git a/src/core/solvers/box-fddp.cpp b/src/core/solvers/box-fddp.cpp
index 7d9ac9e..c3be845 100644
--- a/src/core/solvers/box-fddp.cpp
+++ b/src/core/solvers/box-fddp.cpp
@@ -12,7 +12,8 @@ namespace crocoddyl {
 
 SolverBoxFDDP::SolverBoxFDDP(std::shared_ptr<ShootingProblem> problem)
     : SolverFDDP(problem),
-      qp_(problem->get_runningModels()[0]->get_nu(), 100, 0.1, 1e-5, 0.) {
+      qp_(problem->get_T() == 0 ? 0 : problem->get_runningModels()[0]->get_nu(),
+          100, 0.1, 1e-5, 0.) {
   allocateData();
 
   const std::size_t n_alphas = 10;
diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index eac0cf3..a6ce551 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -437,7 +437,7 @@ void SolverDDP::allocateData() {
 
   xs_try_.resize(T + 1);
   us_try_.resize(T);
-  dx_.resize(T);
+  dx_.resize(T + 1);
 
   FuTVxx_p_.resize(T);
   Quu_llt_.resize(T);
@@ -471,6 +471,7 @@ void SolverDDP::allocateData() {
     Quu_llt_[t] = Eigen::LLT<Eigen::MatrixXd>(nu);
     Quuk_[t] = Eigen::VectorXd::Zero(nu);
   }
+  dx_.back() = Eigen::VectorXd::Zero(ndx);
   Vxx_.back() = Eigen::MatrixXd::Zero(ndx, ndx);
   Vxx_tmp_ = Eigen::MatrixXd::Zero(ndx, ndx);
   Vx_.back() = Eigen::VectorXd::Zero(ndx);
diff --git a/src/core/solvers/fddp.cpp b/src/core/solvers/fddp.cpp
index f0fa7c7..ea4a5d1 100644
--- a/src/core/solvers/fddp.cpp
+++ b/src/core/solvers/fddp.cpp
@@ -130,11 +130,6 @@ const Eigen::Vector2d& SolverFDDP::expectedImprovement() {
   dv_ = 0;
   const std::size_t T = this->problem_->get_T();
   if (!is_feasible_) {
-    // NB: The dimension of vectors xs_try_ and xs_ are T+1, whereas the
-    // dimension of dx_ is T. Here, we are re-using the final element of dx_ for
-    // the computation of the difference at the terminal node. Using the access
-    // iterator back() this re-use of the final element is fine. Cf. the
-    // discussion at https://github.com/loco-3d/crocoddyl/issues/1022
     problem_->get_terminalModel()->get_state()->diff(xs_try_.back(), xs_.back(),
                                                      dx_.back());
     fTVxx_p_.noalias() = Vxx_.back() * dx_.back();
diff --git a/src/core/solvers/ipopt/ipopt-iface.cpp b/src/core/solvers/ipopt/ipopt-iface.cpp
index 7e5ee24..35e22a0 100644
--- a/src/core/solvers/ipopt/ipopt-iface.cpp
+++ b/src/core/solvers/ipopt/ipopt-iface.cpp
@@ -41,7 +41,7 @@ IpoptInterface::IpoptInterface(const std::shared_ptr<ShootingProblem>& problem)
   ixu_[T] = nvar_;
 
   // Initial condition
-  nconst_ += models[0]->get_state()->get_ndx();
+  nconst_ += problem_->get_terminalModel()->get_state()->get_ndx();
 
   const std::shared_ptr<ActionModelAbstract>& model =
       problem_->get_terminalModel();
@@ -82,7 +82,7 @@ void IpoptInterface::resizeData() {
   ixu_[T] = nvar_;
 
   // Initial condition
-  nconst_ += models[0]->get_state()->get_ndx();
+  nconst_ += problem_->get_terminalModel()->get_state()->get_ndx();
 
   const std::shared_ptr<ActionModelAbstract>& model =
       problem_->get_terminalModel();
@@ -124,12 +124,11 @@ bool IpoptInterface::get_nlp_info(Ipopt::Index& n, Ipopt::Index& m,
   }
 
   // Initial condition
-  nnz_jac_g +=
-      models[0]->get_state()->get_ndx() * models[0]->get_state()->get_ndx();
-
-  // Hessian nonzero for the terminal cost
   const std::size_t ndxi =
       problem_->get_terminalModel()->get_state()->get_ndx();
+  nnz_jac_g += ndxi * ndxi;
+
+  // Hessian nonzero for the terminal cost
   std::size_t nonzero = 0;
   for (std::size_t i = 1; i <= ndxi; ++i) {
     nonzero += i;
@@ -430,7 +429,8 @@ bool IpoptInterface::eval_g(Ipopt::Index, const Ipopt::Number* x,
   }
 
   // Initial conditions
-  const std::shared_ptr<ActionModelAbstract>& model = models[0];
+  const std::shared_ptr<ActionModelAbstract>& model =
+      problem_->get_terminalModel();
   const std::size_t ndxi = model->get_state()->get_ndx();
   datas_[0]->dx = Eigen::VectorXd::Map(x, ndxi);
   model->get_state()->integrate(xs_[0], datas_[0]->dx, datas_[0]->x);
@@ -484,7 +484,8 @@ bool IpoptInterface::eval_jac_g(Ipopt::Index, const Ipopt::Number* x, bool,
     }
 
     // Initial condition
-    const std::size_t ndxi = models[0]->get_state()->get_ndx();
+    const std::size_t ndxi =
+        problem_->get_terminalModel()->get_state()->get_ndx();
     for (std::size_t idx_row = 0; idx_row < ndxi; ++idx_row) {
       for (std::size_t idx_col = 0; idx_col < ndxi; ++idx_col) {
         iRow[idx] = static_cast<Ipopt::Index>(ix + idx_row);
@@ -569,7 +570,8 @@ bool IpoptInterface::eval_jac_g(Ipopt::Index, const Ipopt::Number* x, bool,
     }
 
     // Initial condition
-    const std::shared_ptr<ActionModelAbstract>& model = models[0];
+    const std::shared_ptr<ActionModelAbstract>& model =
+        problem_->get_terminalModel();
     const std::size_t ndxi = model->get_state()->get_ndx();
     datas_[0]->dx = Eigen::VectorXd::Map(x, ndxi);
 
diff --git a/src/core/solvers/kkt.cpp b/src/core/solvers/kkt.cpp
index 20a7277..b464dff 100644
--- a/src/core/solvers/kkt.cpp
+++ b/src/core/solvers/kkt.cpp
@@ -197,8 +197,7 @@ double SolverKKT::calcDiff() {
   cost_ = problem_->calcDiff(xs_, us_);
 
   // offset on constraint xnext = f(x,u) due to x0 = ref.
-  const std::size_t cx0 =
-      problem_->get_runningModels()[0]->get_state()->get_ndx();
+  const std::size_t cx0 = problem_->get_terminalModel()->get_state()->get_ndx();
 
   std::size_t ix = 0;
   std::size_t iu = 0;
-- 
2.43.0


From c4b27e53a9f4ff5fa32bf68730317ee33ce58cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:12 +0000
Subject: [PATCH 88/96] fix: reject datas created for another set of costs or
 constraints

---
 .../core/constraints/constraint-manager.hpp   |  4 +
 .../core/constraints/constraint-manager.hxx   | 93 ++++++++-----------
 include/crocoddyl/core/costs/cost-sum.hpp     |  5 +
 include/crocoddyl/core/costs/cost-sum.hxx     | 54 +++++------
 4 files changed, 72 insertions(+), 84 deletions(-)

diff --git a/include/crocoddyl/core/constraints/constraint-manager.hpp b/include/crocoddyl/core/constraints/constraint-manager.hpp
index 49a2db5..50daabf 100644
--- a/include/crocoddyl/core/constraints/constraint-manager.hpp
+++ b/include/crocoddyl/core/constraints/constraint-manager.hpp
@@ -279,6 +279,10 @@ class ConstraintModelManagerTpl {
 
  private:
   void stackBounds();  //!< Stack the bounds of the active constraints
+  /**
+   * @brief Check that the data was created for the current set of constraints
+   */
+  void checkDatas(const std::shared_ptr<ConstraintDataManager>& data) const;
 
   std::shared_ptr<StateAbstract> state_;  //!< State description
   ConstraintModelContainer constraints_;  //!< Stack of constraint items
diff --git a/include/crocoddyl/core/constraints/constraint-manager.hxx b/include/crocoddyl/core/constraints/constraint-manager.hxx
index 58c33d8..cc7b9a6 100644
--- a/include/crocoddyl/core/constraints/constraint-manager.hxx
+++ b/include/crocoddyl/core/constraints/constraint-manager.hxx
@@ -136,15 +136,13 @@ void ConstraintModelManagerTpl<Scalar>::calc(
         "Invalid argument: " << "u has wrong dimension (it should be " +
                                     std::to_string(nu_) + ")");
   }
-  if (data->constraints.size() != constraints_.size()) {
-    throw_pretty(
-        "Invalid argument: "
-        << "it doesn't match the number of constraint datas and models");
-  }
-  assert_pretty(static_cast<std::size_t>(data->g.size()) == ng_,
-                "the dimension of data.g doesn't correspond with ng=" << ng_);
-  assert_pretty(static_cast<std::size_t>(data->h.size()) == nh_,
-                "the dimension of data.h doesn't correspond with nh=" << nh_);
+  checkDatas(data);
+  assert_pretty(
+      static_cast<std::size_t>(data->g.size()) == get_ng(),
+      "the dimension of data.g doesn't correspond with ng=" << get_ng());
+  assert_pretty(
+      static_cast<std::size_t>(data->h.size()) == get_nh(),
+      "the dimension of data.h doesn't correspond with nh=" << get_nh());
   std::size_t ng_i = 0;
   std::size_t nh_i = 0;
 
@@ -156,11 +154,6 @@ void ConstraintModelManagerTpl<Scalar>::calc(
     const std::shared_ptr<ConstraintItem>& m_i = it_m->second;
     if (m_i->active) {
       const std::shared_ptr<ConstraintDataAbstract>& d_i = it_d->second;
-      assert_pretty(
-          it_m->first == it_d->first,
-          "it doesn't match the constraint name between model and data ("
-              << it_m->first << " != " << it_d->first << ")");
-
       m_i->constraint->calc(d_i, x, u);
       const std::size_t ng = m_i->constraint->get_ng();
       const std::size_t nh = m_i->constraint->get_nh();
@@ -183,15 +176,13 @@ void ConstraintModelManagerTpl<Scalar>::calc(
         "Invalid argument: " << "x has wrong dimension (it should be " +
                                     std::to_string(state_->get_nx()) + ")");
   }
-  if (data->constraints.size() != constraints_.size()) {
-    throw_pretty(
-        "Invalid argument: "
-        << "it doesn't match the number of constraint datas and models");
-  }
-  assert_pretty(static_cast<std::size_t>(data->g.size()) == ng_T_,
-                "the dimension of data.g doesn't correspond with ng=" << ng_T_);
-  assert_pretty(static_cast<std::size_t>(data->h.size()) == nh_T_,
-                "the dimension of data.h doesn't correspond with nh=" << nh_T_);
+  checkDatas(data);
+  assert_pretty(
+      static_cast<std::size_t>(data->g.size()) == get_ng_T(),
+      "the dimension of data.g doesn't correspond with ng=" << get_ng_T());
+  assert_pretty(
+      static_cast<std::size_t>(data->h.size()) == get_nh_T(),
+      "the dimension of data.h doesn't correspond with nh=" << get_nh_T());
   std::size_t ng_i = 0;
   std::size_t nh_i = 0;
 
@@ -203,11 +194,6 @@ void ConstraintModelManagerTpl<Scalar>::calc(
     const std::shared_ptr<ConstraintItem>& m_i = it_m->second;
     if (m_i->active && m_i->constraint->get_T_constraint()) {
       const std::shared_ptr<ConstraintDataAbstract>& d_i = it_d->second;
-      assert_pretty(
-          it_m->first == it_d->first,
-          "it doesn't match the constraint name between model and data ("
-              << it_m->first << " != " << it_d->first << ")");
-
       m_i->constraint->calc(d_i, x);
       const std::size_t ng = m_i->constraint->get_ng();
       const std::size_t nh = m_i->constraint->get_nh();
@@ -235,15 +221,10 @@ void ConstraintModelManagerTpl<Scalar>::calcDiff(
         "Invalid argument: " << "u has wrong dimension (it should be " +
                                     std::to_string(nu_) + ")");
   }
-  if (data->constraints.size() != constraints_.size()) {
-    throw_pretty(
-        "Invalid argument: "
-        << "it doesn't match the number of constraint datas and models");
-  }
-  assert_pretty(static_cast<std::size_t>(data->Gx.rows()) == ng_,
-                "the dimension of data.Gx doesn't correspond with ng=" << ng_);
-  assert_pretty(static_cast<std::size_t>(data->Gu.rows()) == ng_,
-                "the dimension of data.Gu doesn't correspond with ng=" << ng_);
+  checkDatas(data);
+  assert_pretty(
+      static_cast<std::size_t>(data->Gx.rows()) == get_ng(),
+      "the dimension of data.Gx doesn't correspond with ng=" << get_ng());
   assert_pretty(
       static_cast<std::size_t>(data->Hx.rows()) == nh_,
       "the dimension of data.Hx,u doesn't correspond with nh=" << nh_);
@@ -259,11 +240,6 @@ void ConstraintModelManagerTpl<Scalar>::calcDiff(
     const std::shared_ptr<ConstraintItem>& m_i = it_m->second;
     if (m_i->active) {
       const std::shared_ptr<ConstraintDataAbstract>& d_i = it_d->second;
-      assert_pretty(
-          it_m->first == it_d->first,
-          "it doesn't match the constraint name between model and data ("
-              << it_m->first << " != " << it_d->first << ")");
-
       m_i->constraint->calcDiff(d_i, x, u);
       const std::size_t ng = m_i->constraint->get_ng();
       const std::size_t nh = m_i->constraint->get_nh();
@@ -286,11 +262,7 @@ void ConstraintModelManagerTpl<Scalar>::calcDiff(
         "Invalid argument: " << "x has wrong dimension (it should be " +
                                     std::to_string(state_->get_nx()) + ")");
   }
-  if (data->constraints.size() != constraints_.size()) {
-    throw_pretty(
-        "Invalid argument: "
-        << "it doesn't match the number of constraint datas and models");
-  }
+  checkDatas(data);
   assert_pretty(
       static_cast<std::size_t>(data->Gx.rows()) == ng_T_,
       "the dimension of data.Gx,u doesn't correspond with ng=" << ng_T_);
@@ -304,16 +276,33 @@ void ConstraintModelManagerTpl<Scalar>::calcDiff(
   typename ConstraintModelContainer::iterator it_m, end_m;
   typename ConstraintDataContainer::iterator it_d, end_d;
   for (it_m = constraints_.begin(), end_m = constraints_.end(),
+template <typename Scalar>
+void ConstraintModelManagerTpl<Scalar>::checkDatas(
+    const std::shared_ptr<ConstraintDataManager>& data) const {
+  if (data->constraints.size() != constraints_.size()) {
+    throw_pretty(
+        "Invalid argument: "
+        << "it doesn't match the number of constraint datas and models");
+  }
+  typename ConstraintDataContainer::const_iterator it_d =
+      data->constraints.begin();
+  for (typename ConstraintModelContainer::const_iterator it_m =
+           constraints_.begin();
+       it_m != constraints_.end(); ++it_m, ++it_d) {
+    if (it_m->first != it_d->first) {
+      throw_pretty(
+          "Invalid argument: "
+          << "it doesn't match the constraint name between model and data ("
+          << it_m->first << " != " << it_d->first << ")");
+    }
+  }
+}
+
       it_d = data->constraints.begin(), end_d = data->constraints.end();
        it_m != end_m || it_d != end_d; ++it_m, ++it_d) {
     const std::shared_ptr<ConstraintItem>& m_i = it_m->second;
     if (m_i->active && m_i->constraint->get_T_constraint()) {
       const std::shared_ptr<ConstraintDataAbstract>& d_i = it_d->second;
-      assert_pretty(
-          it_m->first == it_d->first,
-          "it doesn't match the constraint name between model and data ("
-              << it_m->first << " != " << it_d->first << ")");
-
       m_i->constraint->calcDiff(d_i, x);
       const std::size_t ng = m_i->constraint->get_ng();
       const std::size_t nh = m_i->constraint->get_nh();
diff --git a/include/crocoddyl/core/costs/cost-sum.hpp b/include/crocoddyl/core/costs/cost-sum.hpp
index 8fbe5d7..18055d9 100644
--- a/include/crocoddyl/core/costs/cost-sum.hpp
+++ b/include/crocoddyl/core/costs/cost-sum.hpp
@@ -290,6 +290,11 @@ class CostModelSumTpl {
                                   const CostModelSumTpl<Scalar>& model);
 
  private:
+  /**
+   * @brief Check that the data was created for the current set of costs
+   */
+  void checkDatas(const std::shared_ptr<CostDataSum>& data) const;
+
   std::shared_ptr<StateAbstract> state_;  //!< State description
   CostModelContainer costs_;              //!< Stack of cost items
   std::size_t nu_;                        //!< Dimension of the control input
diff --git a/include/crocoddyl/core/costs/cost-sum.hxx b/include/crocoddyl/core/costs/cost-sum.hxx
index c6522fe..4510621 100644
--- a/include/crocoddyl/core/costs/cost-sum.hxx
+++ b/include/crocoddyl/core/costs/cost-sum.hxx
@@ -124,10 +124,7 @@ void CostModelSumTpl<Scalar>::calc(const std::shared_ptr<CostDataSum>& data,
         "Invalid argument: " << "u has wrong dimension (it should be " +
                                     std::to_string(nu_) + ")");
   }
-  if (data->costs.size() != costs_.size()) {
-    throw_pretty("Invalid argument: "
-                 << "it doesn't match the number of cost datas and models");
-  }
+  checkDatas(data);
   data->cost = Scalar(0.);
 
   typename CostModelContainer::iterator it_m, end_m;
@@ -138,10 +135,6 @@ void CostModelSumTpl<Scalar>::calc(const std::shared_ptr<CostDataSum>& data,
     const std::shared_ptr<CostItem>& m_i = it_m->second;
     if (m_i->active) {
       const std::shared_ptr<CostDataAbstract>& d_i = it_d->second;
-      assert_pretty(it_m->first == it_d->first,
-                    "it doesn't match the cost name between model and data ("
-                        << it_m->first << " != " << it_d->first << ")");
-
       m_i->cost->calc(d_i, x, u);
       data->cost += m_i->weight * d_i->cost;
     }
@@ -156,10 +149,7 @@ void CostModelSumTpl<Scalar>::calc(const std::shared_ptr<CostDataSum>& data,
         "Invalid argument: " << "x has wrong dimension (it should be " +
                                     std::to_string(state_->get_nx()) + ")");
   }
-  if (data->costs.size() != costs_.size()) {
-    throw_pretty("Invalid argument: "
-                 << "it doesn't match the number of cost datas and models");
-  }
+  checkDatas(data);
   data->cost = Scalar(0.);
 
   typename CostModelContainer::iterator it_m, end_m;
@@ -170,10 +160,6 @@ void CostModelSumTpl<Scalar>::calc(const std::shared_ptr<CostDataSum>& data,
     const std::shared_ptr<CostItem>& m_i = it_m->second;
     if (m_i->active) {
       const std::shared_ptr<CostDataAbstract>& d_i = it_d->second;
-      assert_pretty(it_m->first == it_d->first,
-                    "it doesn't match the cost name between model and data ("
-                        << it_m->first << " != " << it_d->first << ")");
-
       m_i->cost->calc(d_i, x);
       data->cost += m_i->weight * d_i->cost;
     }
@@ -194,10 +180,7 @@ void CostModelSumTpl<Scalar>::calcDiff(const std::shared_ptr<CostDataSum>& data,
         "Invalid argument: " << "u has wrong dimension (it should be " +
                                     std::to_string(nu_) + ")");
   }
-  if (data->costs.size() != costs_.size()) {
-    throw_pretty("Invalid argument: "
-                 << "it doesn't match the number of cost datas and models");
-  }
+  checkDatas(data);
   data->Lx.setZero();
   data->Lu.setZero();
   data->Lxx.setZero();
@@ -212,10 +195,6 @@ void CostModelSumTpl<Scalar>::calcDiff(const std::shared_ptr<CostDataSum>& data,
     const std::shared_ptr<CostItem>& m_i = it_m->second;
     if (m_i->active) {
       const std::shared_ptr<CostDataAbstract>& d_i = it_d->second;
-      assert_pretty(it_m->first == it_d->first,
-                    "it doesn't match the cost name between model and data ("
-                        << it_m->first << " != " << it_d->first << ")");
-
       m_i->cost->calcDiff(d_i, x, u);
       data->Lx += m_i->weight * d_i->Lx;
       data->Lu += m_i->weight * d_i->Lu;
@@ -234,10 +213,7 @@ void CostModelSumTpl<Scalar>::calcDiff(const std::shared_ptr<CostDataSum>& data,
         "Invalid argument: " << "x has wrong dimension (it should be " +
                                     std::to_string(state_->get_nx()) + ")");
   }
-  if (data->costs.size() != costs_.size()) {
-    throw_pretty("Invalid argument: "
-                 << "it doesn't match the number of cost datas and models");
-  }
+  checkDatas(data);
   data->Lx.setZero();
   data->Lxx.setZero();
 
@@ -249,10 +225,6 @@ void CostModelSumTpl<Scalar>::calcDiff(const std::shared_ptr<CostDataSum>& data,
     const std::shared_ptr<CostItem>& m_i = it_m->second;
     if (m_i->active) {
       const std::shared_ptr<CostDataAbstract>& d_i = it_d->second;
-      assert_pretty(it_m->first == it_d->first,
-                    "it doesn't match the cost name between model and data ("
-                        << it_m->first << " != " << it_d->first << ")");
-
       m_i->cost->calcDiff(d_i, x);
       data->Lx += m_i->weight * d_i->Lx;
       data->Lxx += m_i->weight * d_i->Lxx;
@@ -260,6 +232,24 @@ void CostModelSumTpl<Scalar>::calcDiff(const std::shared_ptr<CostDataSum>& data,
   }
 }
 
+template <typename Scalar>
+void CostModelSumTpl<Scalar>::checkDatas(
+    const std::shared_ptr<CostDataSum>& data) const {
+  if (data->costs.size() != costs_.size()) {
+    throw_pretty("Invalid argument: "
+                 << "it doesn't match the number of cost datas and models");
+  }
+  typename CostDataContainer::const_iterator it_d = data->costs.begin();
+  for (typename CostModelContainer::const_iterator it_m = costs_.begin();
+       it_m != costs_.end(); ++it_m, ++it_d) {
+    if (it_m->first != it_d->first) {
+      throw_pretty("Invalid argument: "
+                   << "it doesn't match the cost name between model and data ("
+                   << it_m->first << " != " << it_d->first << ")");
+    }
+  }
+}
+
 template <typename Scalar>
 std::shared_ptr<CostDataSumTpl<Scalar> > CostModelSumTpl<Scalar>::createData(
     DataCollectorAbstract* const data) {
-- 
2.43.0


From 47b0a680b4bc071cf43264fc643c5a9fb250db1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:12 +0000
Subject: [PATCH 89/96] fix: count the constraints of a manager after their
 bounds change

---
 .../core/constraints/constraint-manager.hpp   |   4 -
 .../core/constraints/constraint-manager.hxx   | 137 +++++++++---------
 2 files changed, 65 insertions(+), 76 deletions(-)

diff --git a/include/crocoddyl/core/constraints/constraint-manager.hpp b/include/crocoddyl/core/constraints/constraint-manager.hpp
index 50daabf..49b7d08 100644
--- a/include/crocoddyl/core/constraints/constraint-manager.hpp
+++ b/include/crocoddyl/core/constraints/constraint-manager.hpp
@@ -289,10 +289,6 @@ class ConstraintModelManagerTpl {
   VectorXs lb_;                           //!< Lower bound of the constraint
   VectorXs ub_;                           //!< Upper bound of the constraint
   std::size_t nu_;                        //!< Dimension of the control input
-  std::size_t ng_;    //!< Number of the active inequality constraints
-  std::size_t nh_;    //!< Number of the active equality constraints
-  std::size_t ng_T_;  //!< Number of the active inequality terminal constraints
-  std::size_t nh_T_;  //!< Number of the active equality terminal constraints
   std::set<std::string> active_set_;  //!< Names of the active constraint items
   std::set<std::string>
       inactive_set_;  //!< Names of the inactive constraint items
diff --git a/include/crocoddyl/core/constraints/constraint-manager.hxx b/include/crocoddyl/core/constraints/constraint-manager.hxx
index cc7b9a6..5dfb0e6 100644
--- a/include/crocoddyl/core/constraints/constraint-manager.hxx
+++ b/include/crocoddyl/core/constraints/constraint-manager.hxx
@@ -11,26 +11,12 @@ namespace crocoddyl {
 template <typename Scalar>
 ConstraintModelManagerTpl<Scalar>::ConstraintModelManagerTpl(
     std::shared_ptr<StateAbstract> state, const std::size_t nu)
-    : state_(state),
-      lb_(0),
-      ub_(0),
-      nu_(nu),
-      ng_(0),
-      nh_(0),
-      ng_T_(0),
-      nh_T_(0) {}
+    : state_(state), lb_(0), ub_(0), nu_(nu) {}
 
 template <typename Scalar>
 ConstraintModelManagerTpl<Scalar>::ConstraintModelManagerTpl(
     std::shared_ptr<StateAbstract> state)
-    : state_(state),
-      lb_(0),
-      ub_(0),
-      nu_(state->get_nv()),
-      ng_(0),
-      nh_(0),
-      ng_T_(0),
-      nh_T_(0) {}
+    : state_(state), lb_(0), ub_(0), nu_(state->get_nv()) {}
 
 template <typename Scalar>
 ConstraintModelManagerTpl<Scalar>::~ConstraintModelManagerTpl() {}
@@ -51,12 +37,6 @@ void ConstraintModelManagerTpl<Scalar>::addConstraint(
     std::cout << "Warning: we couldn't add the " << name
               << " constraint item, it already existed." << std::endl;
   } else if (active) {
-    ng_ += constraint->get_ng();
-    nh_ += constraint->get_nh();
-    if (constraint->get_T_constraint()) {
-      ng_T_ += constraint->get_ng();
-      nh_T_ += constraint->get_nh();
-    }
     active_set_.insert(name);
     stackBounds();
   } else if (!active) {
@@ -70,12 +50,6 @@ void ConstraintModelManagerTpl<Scalar>::removeConstraint(
   typename ConstraintModelContainer::iterator it = constraints_.find(name);
   if (it != constraints_.end()) {
     if (it->second->active) {
-      ng_ -= it->second->constraint->get_ng();
-      nh_ -= it->second->constraint->get_nh();
-      if (it->second->constraint->get_T_constraint()) {
-        ng_T_ -= it->second->constraint->get_ng();
-        nh_T_ -= it->second->constraint->get_nh();
-      }
       active_set_.erase(name);
     } else {
       inactive_set_.erase(name);
@@ -94,23 +68,11 @@ void ConstraintModelManagerTpl<Scalar>::changeConstraintStatus(
   typename ConstraintModelContainer::iterator it = constraints_.find(name);
   if (it != constraints_.end()) {
     if (active && !it->second->active) {
-      ng_ += it->second->constraint->get_ng();
-      nh_ += it->second->constraint->get_nh();
-      if (it->second->constraint->get_T_constraint()) {
-        ng_T_ += it->second->constraint->get_ng();
-        nh_T_ += it->second->constraint->get_nh();
-      }
       active_set_.insert(name);
       inactive_set_.erase(name);
       it->second->active = active;
       stackBounds();
     } else if (!active && it->second->active) {
-      ng_ -= it->second->constraint->get_ng();
-      nh_ -= it->second->constraint->get_nh();
-      if (it->second->constraint->get_T_constraint()) {
-        ng_T_ -= it->second->constraint->get_ng();
-        nh_T_ -= it->second->constraint->get_nh();
-      }
       active_set_.erase(name);
       inactive_set_.insert(name);
       it->second->active = active;
@@ -226,8 +188,11 @@ void ConstraintModelManagerTpl<Scalar>::calcDiff(
       static_cast<std::size_t>(data->Gx.rows()) == get_ng(),
       "the dimension of data.Gx doesn't correspond with ng=" << get_ng());
   assert_pretty(
-      static_cast<std::size_t>(data->Hx.rows()) == nh_,
-      "the dimension of data.Hx,u doesn't correspond with nh=" << nh_);
+      static_cast<std::size_t>(data->Gu.rows()) == get_ng(),
+      "the dimension of data.Gu doesn't correspond with ng=" << get_ng());
+  assert_pretty(
+      static_cast<std::size_t>(data->Hx.rows()) == get_nh(),
+      "the dimension of data.Hx,u doesn't correspond with nh=" << get_nh());
   const std::size_t ndx = state_->get_ndx();
   std::size_t ng_i = 0;
   std::size_t nh_i = 0;
@@ -264,11 +229,11 @@ void ConstraintModelManagerTpl<Scalar>::calcDiff(
   }
   checkDatas(data);
   assert_pretty(
-      static_cast<std::size_t>(data->Gx.rows()) == ng_T_,
-      "the dimension of data.Gx,u doesn't correspond with ng=" << ng_T_);
+      static_cast<std::size_t>(data->Gx.rows()) == get_ng_T(),
+      "the dimension of data.Gx,u doesn't correspond with ng=" << get_ng_T());
   assert_pretty(
-      static_cast<std::size_t>(data->Hx.rows()) == nh_T_,
-      "the dimension of data.Hx,u doesn't correspond with nh=" << nh_T_);
+      static_cast<std::size_t>(data->Hx.rows()) == get_nh_T(),
+      "the dimension of data.Hx,u doesn't correspond with nh=" << get_nh_T());
   const std::size_t ndx = state_->get_ndx();
   std::size_t ng_i = 0;
   std::size_t nh_i = 0;
@@ -276,28 +241,6 @@ void ConstraintModelManagerTpl<Scalar>::calcDiff(
   typename ConstraintModelContainer::iterator it_m, end_m;
   typename ConstraintDataContainer::iterator it_d, end_d;
   for (it_m = constraints_.begin(), end_m = constraints_.end(),
-template <typename Scalar>
-void ConstraintModelManagerTpl<Scalar>::checkDatas(
-    const std::shared_ptr<ConstraintDataManager>& data) const {
-  if (data->constraints.size() != constraints_.size()) {
-    throw_pretty(
-        "Invalid argument: "
-        << "it doesn't match the number of constraint datas and models");
-  }
-  typename ConstraintDataContainer::const_iterator it_d =
-      data->constraints.begin();
-  for (typename ConstraintModelContainer::const_iterator it_m =
-           constraints_.begin();
-       it_m != constraints_.end(); ++it_m, ++it_d) {
-    if (it_m->first != it_d->first) {
-      throw_pretty(
-          "Invalid argument: "
-          << "it doesn't match the constraint name between model and data ("
-          << it_m->first << " != " << it_d->first << ")");
-    }
-  }
-}
-
       it_d = data->constraints.begin(), end_d = data->constraints.end();
        it_m != end_m || it_d != end_d; ++it_m, ++it_d) {
     const std::shared_ptr<ConstraintItem>& m_i = it_m->second;
@@ -333,6 +276,28 @@ void ConstraintModelManagerTpl<Scalar>::stackBounds() {
   ub_.conservativeResize(ng_i);
 }
 
+template <typename Scalar>
+void ConstraintModelManagerTpl<Scalar>::checkDatas(
+    const std::shared_ptr<ConstraintDataManager>& data) const {
+  if (data->constraints.size() != constraints_.size()) {
+    throw_pretty(
+        "Invalid argument: "
+        << "it doesn't match the number of constraint datas and models");
+  }
+  typename ConstraintDataContainer::const_iterator it_d =
+      data->constraints.begin();
+  for (typename ConstraintModelContainer::const_iterator it_m =
+           constraints_.begin();
+       it_m != constraints_.end(); ++it_m, ++it_d) {
+    if (it_m->first != it_d->first) {
+      throw_pretty(
+          "Invalid argument: "
+          << "it doesn't match the constraint name between model and data ("
+          << it_m->first << " != " << it_d->first << ")");
+    }
+  }
+}
+
 template <typename Scalar>
 std::shared_ptr<ConstraintDataManagerTpl<Scalar> >
 ConstraintModelManagerTpl<Scalar>::createData(
@@ -377,22 +342,50 @@ std::size_t ConstraintModelManagerTpl<Scalar>::get_nu() const {
 
 template <typename Scalar>
 std::size_t ConstraintModelManagerTpl<Scalar>::get_ng() const {
-  return ng_;
+  std::size_t ng = 0;
+  typename ConstraintModelContainer::const_iterator it, end;
+  for (it = constraints_.begin(), end = constraints_.end(); it != end; ++it) {
+    if (it->second->active) {
+      ng += it->second->constraint->get_ng();
+    }
+  }
+  return ng;
 }
 
 template <typename Scalar>
 std::size_t ConstraintModelManagerTpl<Scalar>::get_nh() const {
-  return nh_;
+  std::size_t nh = 0;
+  typename ConstraintModelContainer::const_iterator it, end;
+  for (it = constraints_.begin(), end = constraints_.end(); it != end; ++it) {
+    if (it->second->active) {
+      nh += it->second->constraint->get_nh();
+    }
+  }
+  return nh;
 }
 
 template <typename Scalar>
 std::size_t ConstraintModelManagerTpl<Scalar>::get_ng_T() const {
-  return ng_T_;
+  std::size_t ng = 0;
+  typename ConstraintModelContainer::const_iterator it, end;
+  for (it = constraints_.begin(), end = constraints_.end(); it != end; ++it) {
+    if (it->second->active && it->second->constraint->get_T_constraint()) {
+      ng += it->second->constraint->get_ng();
+    }
+  }
+  return ng;
 }
 
 template <typename Scalar>
 std::size_t ConstraintModelManagerTpl<Scalar>::get_nh_T() const {
-  return nh_T_;
+  std::size_t nh = 0;
+  typename ConstraintModelContainer::const_iterator it, end;
+  for (it = constraints_.begin(), end = constraints_.end(); it != end; ++it) {
+    if (it->second->active && it->second->constraint->get_T_constraint()) {
+      nh += it->second->constraint->get_nh();
+    }
+  }
+  return nh;
 }
 
 template <typename Scalar>
-- 
2.43.0


From 576bc89870530d85ae2f07a6b8db444718bba60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:20 +0000
Subject: [PATCH 90/96] fix: resize the stacked bounds of a manager when its
 constraints get or lose bounds

---
 .../core/constraints/constraint-manager.hpp          |  6 ++++++
 .../core/constraints/constraint-manager.hxx          | 12 ++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/include/crocoddyl/core/constraints/constraint-manager.hpp b/include/crocoddyl/core/constraints/constraint-manager.hpp
index 49b7d08..3164021 100644
--- a/include/crocoddyl/core/constraints/constraint-manager.hpp
+++ b/include/crocoddyl/core/constraints/constraint-manager.hpp
@@ -279,6 +279,12 @@ class ConstraintModelManagerTpl {
 
  private:
   void stackBounds();  //!< Stack the bounds of the active constraints
+  /**
+   * @brief Stack the bounds if their number changed since the last time
+   *
+   * A constraint might get or lose its bounds after adding it.
+   */
+  void resizeBounds();
   /**
    * @brief Check that the data was created for the current set of constraints
    */
diff --git a/include/crocoddyl/core/constraints/constraint-manager.hxx b/include/crocoddyl/core/constraints/constraint-manager.hxx
index 5dfb0e6..84ca800 100644
--- a/include/crocoddyl/core/constraints/constraint-manager.hxx
+++ b/include/crocoddyl/core/constraints/constraint-manager.hxx
@@ -99,6 +99,7 @@ void ConstraintModelManagerTpl<Scalar>::calc(
                                     std::to_string(nu_) + ")");
   }
   checkDatas(data);
+  resizeBounds();
   assert_pretty(
       static_cast<std::size_t>(data->g.size()) == get_ng(),
       "the dimension of data.g doesn't correspond with ng=" << get_ng());
@@ -139,6 +140,7 @@ void ConstraintModelManagerTpl<Scalar>::calc(
                                     std::to_string(state_->get_nx()) + ")");
   }
   checkDatas(data);
+  resizeBounds();
   assert_pretty(
       static_cast<std::size_t>(data->g.size()) == get_ng_T(),
       "the dimension of data.g doesn't correspond with ng=" << get_ng_T());
@@ -276,6 +278,16 @@ void ConstraintModelManagerTpl<Scalar>::stackBounds() {
   ub_.conservativeResize(ng_i);
 }
 
+template <typename Scalar>
+void ConstraintModelManagerTpl<Scalar>::resizeBounds() {
+#ifdef CROCODDYL_WITH_MULTITHREADING
+#pragma omp critical(crocoddyl_constraint_manager_bounds)
+#endif
+  if (static_cast<std::size_t>(lb_.size()) != get_ng()) {
+    stackBounds();
+  }
+}
+
 template <typename Scalar>
 void ConstraintModelManagerTpl<Scalar>::checkDatas(
     const std::shared_ptr<ConstraintDataManager>& data) const {
-- 
2.43.0


From 795e98c3f2df7c74266cec96c3371a0b16345fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:41 +0000
Subject: [PATCH 91/96] fix: judge the convergence of SolverIntro at the
 candidate its stopping criteria describe

---
 src/core/solvers/intro.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index 702270b..3b2ac92 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -139,6 +139,9 @@ bool SolverIntro::solve(const std::vector<Eigen::VectorXd>& init_xs,
     }
     merit_ = cost_ + upsilon_ * hfeas_;
 
+    // The stopping criteria describe the candidate before the step
+    const bool feasible = is_feasible_;
+
     // We need to recalculate the derivatives when the step length passes
     recalcDiff = false;
     for (std::vector<double>::const_iterator it = alphas_.begin();
@@ -202,7 +205,7 @@ bool SolverIntro::solve(const std::vector<Eigen::VectorXd>& init_xs,
       increaseRegularization();
     }
 
-    if (is_feasible_ && stop_ < th_stop_) {
+    if (feasible && stop_ < th_stop_) {
       STOP_PROFILER("SolverIntro::solve");
       return true;
     }
-- 
2.43.0


From f8a078d7c98857fa18de1b5ccc2d70c647f571d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:35 +0000
Subject: [PATCH 92/96] fix: forget the improvements of the last run when a
 solver runs again

---
 src/core/solvers/ddp.cpp   | 4 ++++
 src/core/solvers/fddp.cpp  | 4 ++++
 src/core/solvers/intro.cpp | 7 +++++++
 3 files changed, 15 insertions(+)

diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index a6ce551..b6f783b 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -57,6 +57,10 @@ bool SolverDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     dreg_ = init_reg;
   }
   was_feasible_ = false;
+  // no step might be evaluated in the first iteration
+  d_.setZero();
+  dV_ = 0.;
+  dVexp_ = 0.;
 
   bool recalcDiff = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
diff --git a/src/core/solvers/fddp.cpp b/src/core/solvers/fddp.cpp
index ea4a5d1..9bae8c0 100644
--- a/src/core/solvers/fddp.cpp
+++ b/src/core/solvers/fddp.cpp
@@ -39,6 +39,10 @@ bool SolverFDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     dreg_ = init_reg;
   }
   was_feasible_ = false;
+  // no step might be evaluated in the first iteration
+  d_.setZero();
+  dV_ = 0.;
+  dVexp_ = 0.;
 
   bool recalcDiff = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index 3b2ac92..f9f8f1d 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -107,6 +107,13 @@ bool SolverIntro::solve(const std::vector<Eigen::VectorXd>& init_xs,
     dreg_ = init_reg;
   }
   was_feasible_ = false;
+  // no step might be evaluated in the first iteration
+  d_.setZero();
+  dV_ = 0.;
+  dVexp_ = 0.;
+  dfeas_ = 0.;
+  dPhi_ = 0.;
+  dPhiexp_ = 0.;
   if (zero_upsilon_) {
     upsilon_ = 0.;
   }
-- 
2.43.0


From 11bb1b1ec51539585d005cab4a67f30ced463988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:26 +0000
Subject: [PATCH 93/96] fix: account for the gap at the initial state in
 SolverKKT without running nodes

---
 src/core/solvers/kkt.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/core/solvers/kkt.cpp b/src/core/solvers/kkt.cpp
index b464dff..4f48768 100644
--- a/src/core/solvers/kkt.cpp
+++ b/src/core/solvers/kkt.cpp
@@ -203,6 +203,11 @@ double SolverKKT::calcDiff() {
   std::size_t iu = 0;
   const std::size_t T = problem_->get_T();
   kkt_.block(ndx_ + nu_, 0, ndx_, ndx_).setIdentity();
+
+  // Computing the gap at the initial state (the terminal one if T is zero)
+  problem_->get_terminalModel()->get_state()->diff(
+      problem_->get_x0(), xs_[0], kktref_.segment(ndx_ + nu_, cx0));
+
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<ActionModelAbstract>& m =
         problem_->get_runningModels()[t];
@@ -211,12 +216,6 @@ double SolverKKT::calcDiff() {
     const std::size_t ndxi = m->get_state()->get_ndx();
     const std::size_t nui = m->get_nu();
 
-    // Computing the gap at the initial state
-    if (t == 0) {
-      m->get_state()->diff(problem_->get_x0(), xs_[0],
-                           kktref_.segment(ndx_ + nu_, ndxi));
-    }
-
     // Filling KKT matrix
     kkt_.block(ix, ix, ndxi, ndxi) = d->Lxx;
     kkt_.block(ix, ndx_ + iu, ndxi, nui) = d->Lxu;
-- 
2.43.0


From 7f532ecd4b1a360a46917d88be41720bec808747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:03 +0000
Subject: [PATCH 94/96] fix: keep the minimum time of a stopwatch record

---
 src/core/utils/stop-watch.cpp | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/core/utils/stop-watch.cpp b/src/core/utils/stop-watch.cpp
index d4051c7..61c1018 100644
--- a/src/core/utils/stop-watch.cpp
+++ b/src/core/utils/stop-watch.cpp
@@ -150,10 +150,8 @@ void Stopwatch::stop_perf(PerformanceData& perf_info, long double clock_end) {
   perf_info.last_time = lapse;
 
   // Update min/max time
-  if (lapse >= perf_info.max_time)
-    perf_info.max_time = lapse;
-  else if (lapse <= perf_info.min_time)
-    perf_info.min_time = lapse;
+  if (lapse >= perf_info.max_time) perf_info.max_time = lapse;
+  if (lapse <= perf_info.min_time) perf_info.min_time = lapse;
 
   // Update total time
   perf_info.total_time += lapse;
@@ -224,13 +222,7 @@ void Stopwatch::reset(const string& perf_name) {
 
   PerformanceData& perf_info = records_of->find(perf_name)->second;
 
-  perf_info.clock_start = 0;
-  perf_info.total_time = 0;
-  perf_info.min_time = 0;
-  perf_info.max_time = 0;
-  perf_info.last_time = 0;
-  perf_info.paused = false;
-  perf_info.stops = 0;
+  perf_info = PerformanceData();
 }
 
 void Stopwatch::turn_on() {
-- 
2.43.0


From 4be40301e2b59a19883ea27bae110ed3d579b299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:03 +0000
Subject: [PATCH 95/96] fix: pause a stopwatch record with the clock it was
 started with

---
 src/core/utils/stop-watch.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/utils/stop-watch.cpp b/src/core/utils/stop-watch.cpp
index 61c1018..38f8ac3 100644
--- a/src/core/utils/stop-watch.cpp
+++ b/src/core/utils/stop-watch.cpp
@@ -160,7 +160,7 @@ void Stopwatch::stop_perf(PerformanceData& perf_info, long double clock_end) {
 void Stopwatch::pause(const string& perf_name) {
   if (!active) return;
 
-  long double clock_end = (long double)clock();
+  long double clock_end = take_time();
 
   // Try to recover performance data
   if (!performance_exists(perf_name))
@@ -173,6 +173,8 @@ void Stopwatch::pause(const string& perf_name) {
 
   long double lapse = clock_end - perf_info.clock_start;
 
+  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+
   // Update total time
   perf_info.last_time += lapse;
   perf_info.total_time += lapse;
-- 
2.43.0


From 1ef28f34cc67afb35d1917fbd3d95478395cef98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:05 +0000
Subject: [PATCH 96/96] fix: zero the state Jacobians of the Ipopt interface
 when its data is resized

---
 include/crocoddyl/core/solvers/ipopt/ipopt-iface.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/crocoddyl/core/solvers/ipopt/ipopt-iface.hpp b/include/crocoddyl/core/solvers/ipopt/ipopt-iface.hpp
index 5d99b7e..3032c0d 100644
--- a/include/crocoddyl/core/solvers/ipopt/ipopt-iface.hpp
+++ b/include/crocoddyl/core/solvers/ipopt/ipopt-iface.hpp
@@ -525,10 +525,11 @@ struct IpoptInterfaceData {
     dxnext.conservativeResize(ndx);
     x_diff.conservativeResize(ndx);
     u.conservativeResize(nu);
-    Jint_dx.conservativeResize(ndx, ndx);
-    Jint_dxnext.conservativeResize(ndx, ndx);
-    Jdiff_x.conservativeResize(ndx, ndx);
-    Jdiff_xnext.conservativeResize(ndx, ndx);
+    // The states are allowed to write the nonzero blocks only
+    Jint_dx.setZero(ndx, ndx);
+    Jint_dxnext.setZero(ndx, ndx);
+    Jdiff_x.setZero(ndx, ndx);
+    Jdiff_xnext.setZero(ndx, ndx);
     Jg_dx.conservativeResize(ndx, ndx);
     Jg_dxnext.conservativeResize(ndx, ndx);
     Jg_u.conservativeResize(ndx, ndx);
-- 
2.43.0

