From dfc43355b7f75a13e6e8723b12614736f0b9a32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:05 +0000
Subject: [PATCH 01/67] fix: KillIntegrationEventHandler does not compile: its
 overrides take a raw Eigen vector instead of StateVector

---
 .../integration/EventHandlers/KillIntegrationEventHandler.h     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/integration/EventHandlers/KillIntegrationEventHandler.h b/ct_core/include/ct/core/integration/EventHandlers/KillIntegrationEventHandler.h
index da97fa9..11ef893 100644
--- a/ct_core/include/ct/core/integration/EventHandlers/KillIntegrationEventHandler.h
+++ b/ct_core/include/ct/core/integration/EventHandlers/KillIntegrationEventHandler.h
@@ -22,7 +22,7 @@ template <size_t STATE_DIM>
 class KillIntegrationEventHandler : public EventHandler<STATE_DIM>
 {
 public:
-    typedef Eigen::Matrix<double, STATE_DIM, 1> State_T;
+    typedef StateVector<STATE_DIM> State_T;
 
     //! default constructor
     /*!
-- 
2.43.0


From ccc5d2889b88660435b493ee162dd159b72c6349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:13 +0000
Subject: [PATCH 02/67] fix: SystemDiscretizer copy constructor dereferenced
 its own null system and had no controller

---
 .../systems/discrete_time/SystemDiscretizer-impl.h     | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h b/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
index 2aae2ae..5e908c6 100644
--- a/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
+++ b/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
@@ -56,9 +56,15 @@ SystemDiscretizer<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR>::~SystemDiscreti
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR>
 SystemDiscretizer<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR>::SystemDiscretizer(const SystemDiscretizer& arg)
-    : dt_(arg.dt_), K_sim_(arg.K_sim_), dt_sim_(arg.dt_sim_), integratorType_(arg.integratorType_)
+    : DiscreteControlledSystem<STATE_DIM, CONTROL_DIM, SCALAR>(arg),
+      dt_(arg.dt_),
+      K_sim_(arg.K_sim_),
+      dt_sim_(arg.dt_sim_),
+      integratorType_(arg.integratorType_),
+      cont_constant_controller_(new ConstantController<STATE_DIM, CONTROL_DIM, SCALAR>())
 {
-    changeContinuousTimeSystem(ContinuousSystemPtr(cont_time_system_->clone()));
+    if (arg.cont_time_system_)
+        changeContinuousTimeSystem(arg.cont_time_system_);
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR>
-- 
2.43.0


From a3118966a1341d6fb5020a9e808b01968d24738c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:13 +0000
Subject: [PATCH 03/67] fix: Tustin discretization applied the full instead of
 half a step on each side

---
 .../core/integration/sensitivity/SensitivityApproximation.h   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h b/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
index 30ae591..ca4336f 100644
--- a/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
+++ b/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
@@ -150,10 +150,10 @@ public:
 
                 // front derivatives
                 linearSystem_->getDerivatives(Ac_front, Bc_front, x, u, n * settings_.dt_);
-                Ac_front *= settings_.dt_;
+                Ac_front *= 0.5 * settings_.dt_;
 
                 state_matrix_t Ac_back =
-                    settings_.dt_ * linearSystem_->getDerivativeState(x_next, u, (n + 1) * settings_.dt_);
+                    0.5 * settings_.dt_ * linearSystem_->getDerivativeState(x_next, u, (n + 1) * settings_.dt_);
 
 
                 //! tustin approximation
-- 
2.43.0


From c26b8ed94ee611a78f528c3863986d01ede0935e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:48 +0000
Subject: [PATCH 04/67] fix: DiscreteControlledSystem copies shared one
 controller: its copy constructor took the continuous-time type

---
 .../ct/core/systems/discrete_time/DiscreteControlledSystem.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/systems/discrete_time/DiscreteControlledSystem.h b/ct_core/include/ct/core/systems/discrete_time/DiscreteControlledSystem.h
index 81c216c..cb90870 100644
--- a/ct_core/include/ct/core/systems/discrete_time/DiscreteControlledSystem.h
+++ b/ct_core/include/ct/core/systems/discrete_time/DiscreteControlledSystem.h
@@ -68,7 +68,7 @@ public:
         : DiscreteSystem<STATE_DIM, CONTROL_DIM, SCALAR>(type), controller_(controller){};
 
     //! copy constructor
-    DiscreteControlledSystem(const ControlledSystem<STATE_DIM, CONTROL_DIM, SCALAR>& arg)
+    DiscreteControlledSystem(const DiscreteControlledSystem<STATE_DIM, CONTROL_DIM, SCALAR>& arg)
         : DiscreteSystem<STATE_DIM, CONTROL_DIM, SCALAR>(arg)
     {
         if (arg.controller_)
-- 
2.43.0


From 7c4cc39815e0208992cf5f6cffbcd5214f5ddb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:48 +0000
Subject: [PATCH 05/67] fix: matrix-exponential discretization returned NaN
 input matrices for singular system matrices

---
 .../sensitivity/SensitivityApproximation.h         | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h b/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
index ca4336f..c1d617c 100644
--- a/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
+++ b/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
@@ -227,11 +227,15 @@ private:
         state_control_matrix_t Bc;
         linearSystem_->getDerivatives(Ac, Bc, x_n, u_n, n * settings_.dt_);
 
-        state_matrix_t Adt = settings_.dt_ * Ac;
-
-        A_discr.template topLeftCorner<STATE_DIM, STATE_DIM>() = Adt.exp();
-        B_discr.template topLeftCorner<STATE_DIM, CONTROL_DIM>() =
-            Ac.inverse() * (A_discr - state_matrix_t::Identity()) * Bc;
+        // exponential of the augmented matrix [A B; 0 0] * dt, also valid for singular A
+        typedef Eigen::Matrix<SCALAR, STATE_DIM + CONTROL_DIM, STATE_DIM + CONTROL_DIM> augmented_matrix_t;
+        augmented_matrix_t ABdt = augmented_matrix_t::Zero();
+        ABdt.template topLeftCorner<STATE_DIM, STATE_DIM>() = settings_.dt_ * Ac;
+        ABdt.template topRightCorner<STATE_DIM, CONTROL_DIM>() = settings_.dt_ * Bc;
+        const augmented_matrix_t ABexp = ABdt.exp();
+
+        A_discr = ABexp.template topLeftCorner<STATE_DIM, STATE_DIM>();
+        B_discr = ABexp.template topRightCorner<STATE_DIM, CONTROL_DIM>();
     }
 
 
-- 
2.43.0


From 36d149a4f4b873578a97126c77b9964665ca19b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:48 +0000
Subject: [PATCH 06/67] fix: SensitivityIntegrator linearized all substeps of
 an interval at the same (wrong) time

---
 .../ct/core/integration/sensitivity/SensitivityIntegrator.h     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/integration/sensitivity/SensitivityIntegrator.h b/ct_core/include/ct/core/integration/sensitivity/SensitivityIntegrator.h
index d73e7fc..f80950c 100644
--- a/ct_core/include/ct/core/integration/sensitivity/SensitivityIntegrator.h
+++ b/ct_core/include/ct/core/integration/sensitivity/SensitivityIntegrator.h
@@ -144,7 +144,7 @@ public:
 
         for (size_t i = 0; i < numSteps; ++i)
         {
-            stepper_->do_step(dFdxDot_, AB, k * dt_, dt_);
+            stepper_->do_step(dFdxDot_, AB, (k * numSteps + i) * dt_, dt_);
         }
 
         A = AB.template leftCols<STATE_DIM>();
-- 
2.43.0


From 385cc71cc5823f0b1231d1546014e1178527c6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:15 +0000
Subject: [PATCH 07/67] fix: symplectic integration recorded end-of-step states
 and stale controls as substeps

---
 .../include/ct/core/integration/IntegratorSymplectic-impl.h | 6 ++++--
 .../ct/core/systems/continuous_time/SymplecticSystem.h      | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h b/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
index 7137914..83bd6d7 100644
--- a/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
+++ b/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
@@ -47,10 +47,11 @@ void IntegratorSymplectic<POS_DIM, VEL_DIM, CONTROL_DIM, Stepper, SCALAR>::integ
     for (size_t i = 0; i < numSteps; ++i)
     {
         xCached_ = state;
+        const StateVector<POS_DIM + VEL_DIM, SCALAR> xStart = state;
         stepper_.do_step(std::make_pair(systemFunctionPosition_, systemFunctionVelocity_), xPair, time, dt);
         state.head(POS_DIM) = xPair.first;
         state.tail(VEL_DIM) = xPair.second;
-        observer_.observeInternal(state, time);
+        observer_.observeInternal(xStart, time);
         time += dt;
         stateTrajectory.push_back(state);
         timeTrajectory.push_back(time);
@@ -71,10 +72,11 @@ void IntegratorSymplectic<POS_DIM, VEL_DIM, CONTROL_DIM, Stepper, SCALAR>::integ
     for (size_t i = 0; i < numSteps; ++i)
     {
         xCached_ = state;
+        const StateVector<POS_DIM + VEL_DIM, SCALAR> xStart = state;
         stepper_.do_step(std::make_pair(systemFunctionPosition_, systemFunctionVelocity_), xPair, time, dt);
         state.head(POS_DIM) = xPair.first;
         state.tail(VEL_DIM) = xPair.second;
-        observer_.observeInternal(state, time);
+        observer_.observeInternal(xStart, time);
         time += dt;
     }
 }
diff --git a/ct_core/include/ct/core/systems/continuous_time/SymplecticSystem.h b/ct_core/include/ct/core/systems/continuous_time/SymplecticSystem.h
index 5233ea0..4c4cdaa 100644
--- a/ct_core/include/ct/core/systems/continuous_time/SymplecticSystem.h
+++ b/ct_core/include/ct/core/systems/continuous_time/SymplecticSystem.h
@@ -91,7 +91,7 @@ public:
         const StateVector<VEL_DIM, SCALAR>& v,
         StateVector<POS_DIM, SCALAR>& pDot)
     {
-        ControlVector<CONTROL_DIM, SCALAR> controlAction;
+        ControlVector<CONTROL_DIM, SCALAR>& controlAction = this->controlAction_;
         if (this->controller_)
             this->controller_->computeControl(x, 0.0, controlAction);
         else
@@ -111,7 +111,7 @@ public:
         const StateVector<POS_DIM, SCALAR>& p,
         StateVector<VEL_DIM, SCALAR>& vDot)
     {
-        ControlVector<CONTROL_DIM, SCALAR> controlAction;
+        ControlVector<CONTROL_DIM, SCALAR>& controlAction = this->controlAction_;
         if (this->controller_)
             this->controller_->computeControl(x, 0.0, controlAction);
         else
-- 
2.43.0


From adc806c03eea39bdc2c2fe753b32575f413cc7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:35 +0000
Subject: [PATCH 08/67] fix: DerivativesNumDiff does not compile with clang
 ('template' before a non-template member)

---
 ct_core/include/ct/core/math/DerivativesNumDiff.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_core/include/ct/core/math/DerivativesNumDiff.h b/ct_core/include/ct/core/math/DerivativesNumDiff.h
index a20eee3..b7f6360 100644
--- a/ct_core/include/ct/core/math/DerivativesNumDiff.h
+++ b/ct_core/include/ct/core/math/DerivativesNumDiff.h
@@ -99,11 +99,11 @@ public:
                 x_perturbed(i) = x_mh;
                 OUT_TYPE y_perturbed_low = f_(x_perturbed);
 
-                jac.template col(i) = (y_perturbed - y_perturbed_low) / (dxp + dxm);
+                jac.col(i) = (y_perturbed - y_perturbed_low) / (dxp + dxm);
             }
             else
             {
-                jac.template col(i) = (y_perturbed - y_ref) / dxp;
+                jac.col(i) = (y_perturbed - y_ref) / dxp;
             }
         }
 
-- 
2.43.0


From c478b2baedeba8b08112effedb21950f2fa0505d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:39 +0000
Subject: [PATCH 09/67] fix: SecondOrderSystem spring-damper constructor
 computed a wrong damping ratio

---
 .../include/ct/core/systems/continuous_time/SecondOrderSystem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/systems/continuous_time/SecondOrderSystem.h b/ct_core/include/ct/core/systems/continuous_time/SecondOrderSystem.h
index 64e0ec2..64c79fd 100644
--- a/ct_core/include/ct/core/systems/continuous_time/SecondOrderSystem.h
+++ b/ct_core/include/ct/core/systems/continuous_time/SecondOrderSystem.h
@@ -113,7 +113,7 @@ public:
         : ControlledSystem<2, 1>(controller),
           w_n_(std::sqrt(k / m)),
           w_n_square_(w_n_ * w_n_),
-          zeta_(d / (2.0 * m * k)),
+          zeta_(d / (2.0 * std::sqrt(m * k))),
           g_dc_(g_dc)
     {
     }
-- 
2.43.0


From 78794c47c7feead4b076ee04eee25ac2b1d90cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:02 +0000
Subject: [PATCH 10/67] fix: controllability/observability matrices of LTI
 systems: invalid template syntax and out-of-bounds stacking

---
 .../systems/continuous_time/linear/LTISystem.h | 18 +++++++++---------
 .../discrete_time/linear/DiscreteLTISystem.h   | 18 +++++++++---------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h b/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
index d69c064..7a3c7e0 100644
--- a/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
+++ b/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
@@ -127,12 +127,12 @@ public:
 	 */
     void computeControllabilityMatrix(Eigen::Matrix<double, STATE_DIM, STATE_DIM * CONTROL_DIM>& CO)
     {
-        CO.block<STATE_DIM, CONTROL_DIM>(0, 0) = B_;
+        CO.template block<STATE_DIM, CONTROL_DIM>(0, 0) = B_;
 
         for (size_t i = 1; i < STATE_DIM; i++)
         {
-            CO.block<STATE_DIM, CONTROL_DIM>(0, i * CONTROL_DIM) =
-                A_ * CO.block<STATE_DIM, CONTROL_DIM>(0, (i - 1) * CONTROL_DIM);
+            CO.template block<STATE_DIM, CONTROL_DIM>(0, i * CONTROL_DIM) =
+                A_ * CO.template block<STATE_DIM, CONTROL_DIM>(0, (i - 1) * CONTROL_DIM);
         }
     }
 
@@ -158,14 +158,14 @@ public:
 	 * Computes the observability matrix to assess observability. See isObservable() for the full test.
 	 * @param O observability matrix
 	 */
-    void computeObservabilityMatrix(Eigen::Matrix<double, STATE_DIM, STATE_DIM * STATE_DIM>& O)
+    void computeObservabilityMatrix(Eigen::Matrix<double, STATE_DIM * STATE_DIM, STATE_DIM>& O)
     {
-        O.block<STATE_DIM, STATE_DIM>(0, 0) = C_;
+        O.template block<STATE_DIM, STATE_DIM>(0, 0) = C_;
 
         for (size_t i = 1; i < STATE_DIM; i++)
         {
-            O.block<STATE_DIM, STATE_DIM>(i * STATE_DIM, 0) =
-                O.block<STATE_DIM, STATE_DIM>(0, (i - 1) * STATE_DIM) * A_;
+            O.template block<STATE_DIM, STATE_DIM>(i * STATE_DIM, 0) =
+                O.template block<STATE_DIM, STATE_DIM>((i - 1) * STATE_DIM, 0) * A_;
         }
     }
 
@@ -177,10 +177,10 @@ public:
 	 */
     bool isObservable()
     {
-        Eigen::Matrix<double, STATE_DIM, STATE_DIM * STATE_DIM> O;
+        Eigen::Matrix<double, STATE_DIM * STATE_DIM, STATE_DIM> O;
         computeObservabilityMatrix(O);
 
-        Eigen::FullPivLU<Eigen::Matrix<double, STATE_DIM, STATE_DIM * STATE_DIM>> LUdecomposition(O);
+        Eigen::FullPivLU<Eigen::Matrix<double, STATE_DIM * STATE_DIM, STATE_DIM>> LUdecomposition(O);
         return LUdecomposition.rank() == STATE_DIM;
     }
 
diff --git a/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h b/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
index 36ffa3e..faf5dbd 100644
--- a/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
+++ b/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
@@ -109,12 +109,12 @@ public:
      */
     void computeControllabilityMatrix(Eigen::Matrix<double, STATE_DIM, STATE_DIM * CONTROL_DIM>& CO)
     {
-        CO.block<STATE_DIM, CONTROL_DIM>(0, 0) = B_;
+        CO.template block<STATE_DIM, CONTROL_DIM>(0, 0) = B_;
 
         for (size_t i = 1; i < STATE_DIM; i++)
         {
-            CO.block<STATE_DIM, CONTROL_DIM>(0, i * CONTROL_DIM) =
-                A_ * CO.block<STATE_DIM, CONTROL_DIM>(0, (i - 1) * CONTROL_DIM);
+            CO.template block<STATE_DIM, CONTROL_DIM>(0, i * CONTROL_DIM) =
+                A_ * CO.template block<STATE_DIM, CONTROL_DIM>(0, (i - 1) * CONTROL_DIM);
         }
     }
 
@@ -170,14 +170,14 @@ public:
      * isObservable() for the full test.
      * @param O observability matrix
      */
-    void computeObservabilityMatrix(Eigen::Matrix<double, STATE_DIM, STATE_DIM * STATE_DIM>& O)
+    void computeObservabilityMatrix(Eigen::Matrix<double, STATE_DIM * STATE_DIM, STATE_DIM>& O)
     {
-        O.block<STATE_DIM, STATE_DIM>(0, 0) = C_;
+        O.template block<STATE_DIM, STATE_DIM>(0, 0) = C_;
 
         for (size_t i = 1; i < STATE_DIM; i++)
         {
-            O.block<STATE_DIM, STATE_DIM>(i * STATE_DIM, 0) =
-                O.block<STATE_DIM, STATE_DIM>(0, (i - 1) * STATE_DIM) * A_;
+            O.template block<STATE_DIM, STATE_DIM>(i * STATE_DIM, 0) =
+                O.template block<STATE_DIM, STATE_DIM>((i - 1) * STATE_DIM, 0) * A_;
         }
     }
 
@@ -220,10 +220,10 @@ public:
      */
     bool isObservable()
     {
-        Eigen::Matrix<double, STATE_DIM, STATE_DIM * STATE_DIM> O;
+        Eigen::Matrix<double, STATE_DIM * STATE_DIM, STATE_DIM> O;
         computeObservabilityMatrix(O);
 
-        Eigen::FullPivLU<Eigen::Matrix<double, STATE_DIM, STATE_DIM * STATE_DIM>> LUdecomposition(O);
+        Eigen::FullPivLU<Eigen::Matrix<double, STATE_DIM * STATE_DIM, STATE_DIM>> LUdecomposition(O);
         return LUdecomposition.rank() == STATE_DIM;
     }
 
-- 
2.43.0


From ecc8653f6b0513ccb4ddd94001ea64a9e78f211b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:55 +0000
Subject: [PATCH 11/67] fix: DiscreteLTISystem was abstract, copies of LTI
 systems lost their controller

---
 .../continuous_time/linear/LTISystem.h        |  2 +-
 .../discrete_time/linear/DiscreteLTISystem.h  | 28 +++++++++++++++----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h b/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
index 7a3c7e0..15d5714 100644
--- a/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
+++ b/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
@@ -57,7 +57,7 @@ public:
     }
 
     //! copy constructor
-    LTISystem(const LTISystem& arg) : A_(arg.A_), B_(arg.B_), C_(arg.C_), D_(arg.D_) {}
+    LTISystem(const LTISystem& arg) : Base(arg), A_(arg.A_), B_(arg.B_), C_(arg.C_), D_(arg.D_) {}
     //! deep clone
     LTISystem<STATE_DIM, CONTROL_DIM>* clone() const override { return new LTISystem<STATE_DIM, CONTROL_DIM>(*this); }
     virtual ~LTISystem() {}
diff --git a/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h b/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
index faf5dbd..a885e3d 100644
--- a/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
+++ b/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
@@ -51,7 +51,10 @@ public:
     }
 
     //! copy constructor
-    DiscreteLTISystem(const DiscreteLTISystem& arg) : A_(arg.A_), B_(arg.B_), C_(arg.C_), D_(arg.D_) {}
+    DiscreteLTISystem(const DiscreteLTISystem& arg)
+        : DiscreteLinearSystem<STATE_DIM, CONTROL_DIM>(arg), A_(arg.A_), B_(arg.B_), C_(arg.C_), D_(arg.D_)
+    {
+    }
     //! deep clone
     DiscreteLTISystem<STATE_DIM, CONTROL_DIM>* clone() const override
     {
@@ -74,14 +77,29 @@ public:
      * @param control control input
      * @param derivative state derivative
      */
-    void propagateControlledDynamics(const Eigen::Matrix<double, STATE_DIM, 1>& state,
-        const time_t& n,
-        const Eigen::Matrix<double, CONTROL_DIM, 1>& control,
-        Eigen::Matrix<double, STATE_DIM, 1>& stateNext)
+    void propagateControlledDynamics(const StateVector<STATE_DIM>& state,
+        const int n,
+        const ControlVector<CONTROL_DIM>& control,
+        StateVector<STATE_DIM>& stateNext) override
     {
         stateNext = A_ * state + B_ * control;
     }
 
+    //! get the (constant) discrete linear system matrices A and B
+    void getAandB(const StateVector<STATE_DIM>& x,
+        const ControlVector<CONTROL_DIM>& u,
+        const StateVector<STATE_DIM>& x_next,
+        const int n,
+        size_t subSteps,
+        StateMatrix<STATE_DIM>& A,
+        StateControlMatrix<STATE_DIM, CONTROL_DIM>& B) override
+    {
+        A = A_;
+        B = B_;
+    }
+
+    using DiscreteLinearSystem<STATE_DIM, CONTROL_DIM>::getAandB;
+
     //! computes the system output (measurement)
     /*!
      * Computes \f$ y_{n+1} = Cx_n + Du_n \f$
-- 
2.43.0


From 92d92ba46dd55cc2019f1d7a09254af200c61446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:41 +0000
Subject: [PATCH 12/67] fix: TermStateBarrier does not compile, has no barriers
 unless copied, and copies lose name and time activation

---
 .../ct/optcon/costfunction/term/TermStateBarrier-impl.hpp    | 5 ++++-
 .../include/ct/optcon/costfunction/term/TermStateBarrier.hpp | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermStateBarrier-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermStateBarrier-impl.hpp
index 8728a9c..55eedd2 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermStateBarrier-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermStateBarrier-impl.hpp
@@ -14,17 +14,19 @@ TermStateBarrier<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::TermStateBarrier(
     const state_vector_t& alpha)
     : ub_(ub), lb_(lb), alpha_(alpha)
 {
+    initialize();
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
 TermStateBarrier<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::TermStateBarrier()
     : ub_(state_vector_t::Zero()), lb_(state_vector_t::Zero()), alpha_(state_vector_t::Zero())
 {
+    initialize();
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
 TermStateBarrier<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::TermStateBarrier(const TermStateBarrier& arg)
-    : ub_(arg.ub_), lb_(arg.lb_), alpha_(arg.alpha_)
+    : TermBase<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>(arg), ub_(arg.ub_), lb_(arg.lb_), alpha_(arg.alpha_)
 {
     initialize();
 }
@@ -93,6 +95,7 @@ void TermStateBarrier<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadConfigFi
     alpha_ = Alpha.diagonal();
     ub_ = Ub.diagonal();
     lb_ = Lb.diagonal();
+    initialize();
 
     if (verbose)
     {
diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermStateBarrier.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermStateBarrier.hpp
index fac128b..158d399 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermStateBarrier.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermStateBarrier.hpp
@@ -68,7 +68,7 @@ protected:
     state_vector_t ub_;
     state_vector_t lb_;
 
-    std::vector<ct::core::tpl::BarrierActivation<SCALAR, ct::core::tpl::TraitSelector<SCALAR>>> barriers_;
+    std::vector<ct::core::tpl::BarrierActivation<SCALAR>> barriers_;
 };
 
 
-- 
2.43.0


From 9d0ed548a358da03ab1043f06f4e56cdb160ae55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:35 +0000
Subject: [PATCH 13/67] fix: CostFunctionQuadratic weighted intermediate costs
 with the squared time activation

---
 .../ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
index 3b79d02..9c2be86 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
@@ -317,7 +317,7 @@ SCALAR CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::evaluateIntermedia
         {
             continue;
         }
-        y += it->computeActivation(this->t_) * it->eval(this->x_, this->u_, this->t_);
+        y += it->eval(this->x_, this->u_, this->t_);
     }
 
     return y;
-- 
2.43.0


From 32989f95a34a0ae643b70f0d557c940c6691970c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:35 +0000
Subject: [PATCH 14/67] fix: numerical cost derivatives left the cost function
 at the last perturbed point and shifted time twice

---
 .../costfunction/CostFunctionQuadratic-impl.hpp  | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
index 9c2be86..2a38f13 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
@@ -181,6 +181,10 @@ CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::stateDerivativeIntermedia
     this->getCurrentStateAndControl(x_local, u_local, t_local);
     SCALAR dxdt_ref = this->evaluateIntermediate();
 
+    // t_local already contains the time shift
+    const SCALAR t_shift = this->t_shift_;
+    this->t_shift_ = SCALAR(0.0);
+
     for (size_t i = 0; i < STATE_DIM; ++i)
     {
         // inspired from http://en.wikipedia.org/wiki/Numerical_differentiation#Practical_considerations_using_floating_point_arithmetic
@@ -214,6 +218,10 @@ CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::stateDerivativeIntermedia
         }
     }
 
+    // restore the point of evaluation
+    this->setCurrentStateAndControl(x_local, u_local, t_local);
+    this->t_shift_ = t_shift;
+
     return dFdx;
 }
 
@@ -228,6 +236,10 @@ CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::controlDerivativeIntermed
     this->getCurrentStateAndControl(x_local, u_local, t_local);
     SCALAR dxdt_ref = this->evaluateIntermediate();
 
+    // t_local already contains the time shift
+    const SCALAR t_shift = this->t_shift_;
+    this->t_shift_ = SCALAR(0.0);
+
     for (size_t i = 0; i < CONTROL_DIM; ++i)
     {
         // inspired from http://en.wikipedia.org/wiki/Numerical_differentiation#Practical_considerations_using_floating_point_arithmetic
@@ -262,6 +274,10 @@ CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::controlDerivativeIntermed
         }
     }
 
+    // restore the point of evaluation
+    this->setCurrentStateAndControl(x_local, u_local, t_local);
+    this->t_shift_ = t_shift;
+
     return dFdu;
 }
 
-- 
2.43.0


From 2f62cc74b799ef1dae9f60cc60503c3ed8a3aaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:35 +0000
Subject: [PATCH 15/67] fix: cost terms with a reference (mixed,
 quadratic-multiplicative, smooth-abs) ignored reference updates

---
 .../optcon/costfunction/term/TermMixed-impl.hpp   |  8 ++++++++
 .../ct/optcon/costfunction/term/TermMixed.hpp     |  2 ++
 .../costfunction/term/TermQuadMult-impl.hpp       | 14 ++++++++++++++
 .../ct/optcon/costfunction/term/TermQuadMult.hpp  |  4 ++++
 .../costfunction/term/TermSmoothAbs-impl.hpp      | 15 +++++++++++++++
 .../ct/optcon/costfunction/term/TermSmoothAbs.hpp |  4 ++++
 6 files changed, 47 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp
index 8d1df09..67102a7 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp
@@ -167,5 +167,13 @@ void TermMixed<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::updateReferenceStat
 {
     x_ref_ = newRefState;
 }
+
+template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
+void TermMixed<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::updateReferenceControl(
+    const Eigen::Matrix<SCALAR_EVAL, CONTROL_DIM, 1>& newRefControl)
+{
+    u_ref_ = newRefControl;
+}
+
 }  // namespace optcon
 }  // namespace ct
diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermMixed.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermMixed.hpp
index d9b3bd5..aeb7203 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermMixed.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermMixed.hpp
@@ -85,6 +85,8 @@ public:
 
     void updateReferenceState(const Eigen::Matrix<SCALAR_EVAL, STATE_DIM, 1>& newRefState) override;
 
+    void updateReferenceControl(const Eigen::Matrix<SCALAR_EVAL, CONTROL_DIM, 1>& newRefControl) override;
+
 protected:
     template <typename SC>
     SC evalLocal(const Eigen::Matrix<SC, STATE_DIM, 1>& x, const Eigen::Matrix<SC, CONTROL_DIM, 1>& u, const SC& t);
diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult-impl.hpp
index 21f347f..607a5f8 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult-impl.hpp
@@ -185,5 +185,19 @@ void TermQuadMult<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadConfigFile(c
     }
 }
 
+template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
+void TermQuadMult<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::updateReferenceState(
+    const Eigen::Matrix<SCALAR_EVAL, STATE_DIM, 1>& newRefState)
+{
+    x_ref_ = newRefState;
+}
+
+template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
+void TermQuadMult<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::updateReferenceControl(
+    const Eigen::Matrix<SCALAR_EVAL, CONTROL_DIM, 1>& newRefControl)
+{
+    u_ref_ = newRefControl;
+}
+
 }  // namespace optcon
 }  // namespace ct
diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult.hpp
index b884402..7f2951e 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult.hpp
@@ -86,6 +86,10 @@ public:
     void loadConfigFile(const std::string& filename, const std::string& termName, bool verbose = false) override;
 
 
+    void updateReferenceState(const Eigen::Matrix<SCALAR_EVAL, STATE_DIM, 1>& newRefState) override;
+
+    void updateReferenceControl(const Eigen::Matrix<SCALAR_EVAL, CONTROL_DIM, 1>& newRefControl) override;
+
 protected:
     template <typename SC>
     SC evalLocal(const Eigen::Matrix<SC, STATE_DIM, 1>& x, const Eigen::Matrix<SC, CONTROL_DIM, 1>& u, const SC& t);
diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs-impl.hpp
index a78b9e6..4aaf5ac 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs-impl.hpp
@@ -158,5 +158,20 @@ void TermSmoothAbs<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadConfigFile(
         std::cout << "\nRead alpha^2 as " << alphaSquared_ << std::endl;
     }
 }
+
+template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
+void TermSmoothAbs<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::updateReferenceState(
+    const Eigen::Matrix<SCALAR_EVAL, STATE_DIM, 1>& newRefState)
+{
+    x_ref_ = newRefState;
+}
+
+template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
+void TermSmoothAbs<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::updateReferenceControl(
+    const Eigen::Matrix<SCALAR_EVAL, CONTROL_DIM, 1>& newRefControl)
+{
+    u_ref_ = newRefControl;
+}
+
 }  // namespace optcon
 }  // namespace ct
diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs.hpp
index c938096..be6bb5e 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs.hpp
@@ -80,6 +80,10 @@ public:
         const std::string& termName,
         bool verbose = false) override;  // virtual function for data loading
 
+    void updateReferenceState(const Eigen::Matrix<SCALAR_EVAL, STATE_DIM, 1>& newRefState) override;
+
+    void updateReferenceControl(const Eigen::Matrix<SCALAR_EVAL, CONTROL_DIM, 1>& newRefControl) override;
+
 protected:
     template <typename SC>
     SC evalLocal(const Eigen::Matrix<SC, STATE_DIM, 1>& x, const Eigen::Matrix<SC, CONTROL_DIM, 1>& u, const SC& t);
-- 
2.43.0


From 01915e896f7b911705ed98c857b49e6b21af4c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:47 +0000
Subject: [PATCH 16/67] fix: CostFunctionQuadraticSimple ignored control
 reference updates and copies lost the current point

---
 .../CostFunctionQuadraticSimple-impl.hpp            | 13 +++++++++++--
 .../costfunction/CostFunctionQuadraticSimple.hpp    |  2 ++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
index d85f5d0..9e6222e 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
@@ -42,7 +42,8 @@ CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::~CostFunctionQuadra
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::CostFunctionQuadraticSimple(
     const CostFunctionQuadraticSimple& arg)
-    : x_deviation_(arg.x_deviation_),
+    : CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>(arg),
+      x_deviation_(arg.x_deviation_),
       x_nominal_(arg.x_nominal_),
       Q_(arg.Q_),
       u_deviation_(arg.u_deviation_),
@@ -68,7 +69,7 @@ void CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::setCurrentStat
 {
     this->x_ = x;
     this->u_ = u;
-    this->t_ = t;
+    this->t_ = t + this->t_shift_;
 
     this->x_deviation_ = x - x_nominal_;
     this->u_deviation_ = u - u_nominal_;
@@ -143,6 +144,14 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 void CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::updateReferenceState(const state_vector_t& x_ref)
 {
     x_nominal_ = x_ref;
+    x_deviation_ = this->x_ - x_nominal_;
+}
+
+template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
+void CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::updateReferenceControl(const control_vector_t& u_ref)
+{
+    u_nominal_ = u_ref;
+    u_deviation_ = this->u_ - u_nominal_;
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple.hpp
index 2b472d2..6c2f629 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple.hpp
@@ -86,6 +86,8 @@ public:
 
     virtual void updateReferenceState(const state_vector_t& x_ref) override;
 
+    virtual void updateReferenceControl(const control_vector_t& u_ref) override;
+
     virtual void updateFinalState(const state_vector_t& x_final) override;
 
 protected:
-- 
2.43.0


From 79d84bf7cd034a0c28d65beacb55317dce3880aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:58 +0000
Subject: [PATCH 17/67] fix: TermBase::loadTimeActivation dereferenced a null
 pointer for unknown activation kinds

---
 ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp
index aa9f83b..da98679 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp
@@ -160,13 +160,13 @@ void TermBase<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadTimeActivation(c
         boost::algorithm::to_lower(activationKind);
         std::shared_ptr<ct::core::tpl::ActivationBase<SCALAR_EVAL>> c_i;
         CT_LOADABLE_ACTIVATIONS(SCALAR_EVAL);
-        c_i->loadConfigFile(filename, termName + ".time_activation", verbose);
         if (!c_i)
         {
             throw std::runtime_error("Activation type \"" + activationKind + "\" not supported");
         }
         else
         {
+            c_i->loadConfigFile(filename, termName + ".time_activation", verbose);
             c_i_ = c_i;
             if (verbose)
                 c_i_->printInfo();
-- 
2.43.0


From 8507a14d62b0292531980822e8fd259b1fd7b1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:58 +0000
Subject: [PATCH 18/67] fix: RBFGaussActivation grew away from its centre when
 constructed from parameters

---
 ct_core/include/ct/core/common/activations/RBFGaussActivation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/common/activations/RBFGaussActivation.h b/ct_core/include/ct/core/common/activations/RBFGaussActivation.h
index b5a6e35..6c0e238 100644
--- a/ct_core/include/ct/core/common/activations/RBFGaussActivation.h
+++ b/ct_core/include/ct/core/common/activations/RBFGaussActivation.h
@@ -18,7 +18,7 @@ public:
     RBFGaussActivation() {}
     RBFGaussActivation(const SCALAR mu, const SCALAR sigma) : mu_(mu), sigma_(sigma)
     {
-        sigma2inv_ = SCALAR(1.0) / (SCALAR(2.0) * sigma_ * sigma_);
+        sigma2inv_ = -SCALAR(1.0) / (SCALAR(2.0) * sigma_ * sigma_);
         factor_ = SCALAR(1.0) / sqrt(SCALAR(2.0) * M_PI * sigma_ * sigma_);
     }
     virtual ~RBFGaussActivation() {}
-- 
2.43.0


From 3c41600cef892255f37c1c5cd4fc63ad99794f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:19 +0000
Subject: [PATCH 19/67] fix: PeriodicActivation built from parameters had an
 uninitialised end time

---
 .../include/ct/core/common/activations/PeriodicActivation.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/common/activations/PeriodicActivation.hpp b/ct_core/include/ct/core/common/activations/PeriodicActivation.hpp
index 1157cce..7ad4100 100644
--- a/ct_core/include/ct/core/common/activations/PeriodicActivation.hpp
+++ b/ct_core/include/ct/core/common/activations/PeriodicActivation.hpp
@@ -2,6 +2,7 @@
 #pragma once
 
 #include <cmath>
+#include <limits>
 
 #include "../activations/ActivationBase.hpp"
 #include <ct/core/internal/traits/TraitSelectorSpecs.h>
@@ -22,7 +23,8 @@ public:
         : active_percentage_(active_percentage),
           period_(period),
           activation_offset_(activation_offset),
-          period_offset_(period_offset)
+          period_offset_(period_offset),
+          t_end_(std::numeric_limits<double>::max())
     {
     }
     virtual ~PeriodicActivation() {}
-- 
2.43.0


From 95227d76bf5beb76d123530e48e3a9de9a13e9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:19 +0000
Subject: [PATCH 20/67] fix: BarrierActivation loaded from a config file never
 activated its bounds

---
 .../include/ct/core/common/activations/BarrierActivation.hpp    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_core/include/ct/core/common/activations/BarrierActivation.hpp b/ct_core/include/ct/core/common/activations/BarrierActivation.hpp
index ddd2e60..8c05150 100644
--- a/ct_core/include/ct/core/common/activations/BarrierActivation.hpp
+++ b/ct_core/include/ct/core/common/activations/BarrierActivation.hpp
@@ -58,6 +58,7 @@ public:
         {
             // if there is no or a wrongly specified upper bound
             ub_ = pt.get<SCALAR>(termName + ".upper_bound");
+            ub_active_ = true;
         } catch (std::exception& e)
         {
             // we set the upper bound inactive
@@ -69,6 +70,7 @@ public:
         {
             // if there is no or a wrongly specified lower bound
             lb_ = pt.get<SCALAR>(termName + ".lower_bound");
+            lb_active_ = true;
         } catch (std::exception& e)
         {
             // we set the lower bound inactive
-- 
2.43.0


From e8f3f81aa8e5271457bd6a40451ac0c3b3157ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:31 +0000
Subject: [PATCH 21/67] fix: default-constructed TermLinear (as loaded from
 config files) had an uninitialised constant

---
 .../include/ct/optcon/costfunction/term/TermLinear-impl.hpp    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermLinear-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermLinear-impl.hpp
index dfd971d..0fc849a 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermLinear-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermLinear-impl.hpp
@@ -31,7 +31,10 @@ TermLinear<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::clone() const
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
 TermLinear<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::TermLinear()
+    : c_(0.0)
 {
+    a_.setZero();
+    b_.setZero();
 }
 
 
-- 
2.43.0


From d0d3ce5d5c9d52f82fa0a0027fcf0c3b1c62f135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:36 +0000
Subject: [PATCH 22/67] fix: default sparse constraint Jacobians were
 column-major while their sparsity pattern is row-major

---
 .../include/ct/optcon/constraint/term/ConstraintBase-impl.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/constraint/term/ConstraintBase-impl.h b/ct_optcon/include/ct/optcon/constraint/term/ConstraintBase-impl.h
index 9d85769..9374131 100644
--- a/ct_optcon/include/ct/optcon/constraint/term/ConstraintBase-impl.h
+++ b/ct_optcon/include/ct/optcon/constraint/term/ConstraintBase-impl.h
@@ -101,7 +101,8 @@ ConstraintBase<STATE_DIM, CONTROL_DIM, SCALAR>::jacobianStateSparse(const state_
     const control_vector_t& u,
     const SCALAR t)
 {
-    MatrixXs jacState = jacobianState(x, u, t);
+    // the default sparsity pattern is row-major
+    MatrixXs jacState = jacobianState(x, u, t).transpose();
 
     VectorXs jac(Eigen::Map<VectorXs>(jacState.data(), jacState.rows() * jacState.cols()));
 
@@ -114,7 +115,8 @@ ConstraintBase<STATE_DIM, CONTROL_DIM, SCALAR>::jacobianInputSparse(const state_
     const control_vector_t& u,
     const SCALAR t)
 {
-    MatrixXs jacInput = jacobianInput(x, u, t);
+    // the default sparsity pattern is row-major
+    MatrixXs jacInput = jacobianInput(x, u, t).transpose();
 
     VectorXs jac(Eigen::Map<VectorXs>(jacInput.data(), jacInput.rows() * jacInput.cols()));
     return jac;
-- 
2.43.0


From eacd5d87a06b9a5925248cb99b2520d743f99051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:36 +0000
Subject: [PATCH 23/67] fix: terminal state Jacobians checked the
 initialisation of the intermediate constraints

---
 .../ct/optcon/constraint/ConstraintContainerAnalytical-impl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h b/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h
index 237c492..11cbe99 100644
--- a/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h
+++ b/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h
@@ -190,7 +190,7 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 typename ConstraintContainerAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::VectorXs
 ConstraintContainerAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::jacobianStateSparseTerminal()
 {
-    checkIntermediateConstraints();
+    checkTerminalConstraints();
 
     size_t count = 0;
     for (auto constraint : constraintsTerminal_)
@@ -211,7 +211,7 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 typename ConstraintContainerAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::MatrixXs
 ConstraintContainerAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::jacobianStateTerminal()
 {
-    checkIntermediateConstraints();
+    checkTerminalConstraints();
 
     size_t count = 0;
     for (auto constraint : constraintsTerminal_)
-- 
2.43.0


From ddbf97bd8d5bfc45d6ff1b9313c6a941f1b79777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:36 +0000
Subject: [PATCH 24/67] fix: SwitchedLinearConstraintContainer evaluated
 terminal constraints at a stale state, copies forgot the active phase

---
 .../constraint/SwitchedLinearConstraintContainer-impl.h       | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h b/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
index 992e6c3..d4e382c 100644
--- a/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
+++ b/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
@@ -30,9 +30,10 @@ SwitchedLinearConstraintContainer<STATE_DIM, CONTROL_DIM, SCALAR>::SwitchedLinea
     for (auto& linearConstraintContainer : arg.switchedLinearConstraintContainers_)
     {
         switchedLinearConstraintContainers_.emplace_back(linearConstraintContainer->clone());
+        if (linearConstraintContainer == arg.activeLinearConstraintContainer_)
+            activeLinearConstraintContainer_ = switchedLinearConstraintContainers_.back();
     }
 
-    activeLinearConstraintContainer_ = switchedLinearConstraintContainers_.front();
     terminalLinearConstraintContainer_ =
         switchedLinearConstraintContainers_.at(continuousModeSequence_.getFinalPhase());
 }
@@ -218,6 +219,7 @@ void SwitchedLinearConstraintContainer<STATE_DIM, CONTROL_DIM, SCALAR>::update()
     auto mode = continuousModeSequence_.getPhaseFromTime(this->t_);
     activeLinearConstraintContainer_ = switchedLinearConstraintContainers_.at(mode);
     activeLinearConstraintContainer_->setCurrentStateAndControl(this->x_, this->u_, this->t_);
+    terminalLinearConstraintContainer_->setCurrentStateAndControl(this->x_, this->u_, this->t_);
 
     this->lowerBoundsIntermediate_ = activeLinearConstraintContainer_->getLowerBoundsIntermediate();
     this->upperBoundsIntermediate_ = activeLinearConstraintContainer_->getUpperBoundsIntermediate();
-- 
2.43.0


From 875f378f7e1e75695355ead1cb774d80f1d2e25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:51 +0000
Subject: [PATCH 25/67] fix: GNRiccatiSolver computed wrong gains for
 one-dimensional states or controls (Eigen's selfadjointView products of 1x1
 matrices)

---
 .../ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp      | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
index 8f90f0c..cd296d8 100644
--- a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
+++ b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
@@ -168,15 +168,15 @@ void GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::designController(size_t k)
 
     gv_[k] = p.rv_[k];
     gv_[k].noalias() += p.B_[k].transpose() * sv_[k + 1];
-    gv_[k].noalias() += p.B_[k].transpose() * S_[k + 1].template selfadjointView<Eigen::Lower>() * p.b_[k];
+    gv_[k].noalias() += p.B_[k].transpose() * S_[k + 1] * p.b_[k];
 
     G_[k] = p.P_[k];
     //G_[k].noalias() += B_[k].transpose() * S_[k+1] * A_[k];
-    G_[k].noalias() += p.B_[k].transpose() * S_[k + 1].template selfadjointView<Eigen::Lower>() * p.A_[k];
+    G_[k].noalias() += p.B_[k].transpose() * S_[k + 1] * p.A_[k];
 
     H_[k] = p.R_[k];
     //H_[k].noalias() += B_[k].transpose() * S_[k+1] * B_[k];
-    H_[k].noalias() += p.B_[k].transpose() * S_[k + 1].template selfadjointView<Eigen::Lower>() * p.B_[k];
+    H_[k].noalias() += p.B_[k].transpose() * S_[k + 1] * p.B_[k];
 
     if (settings_.fixedHessianCorrection)
     {
@@ -220,10 +220,10 @@ void GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::designController(size_t k)
         Hi_inverse_[k] = -Hi_[k].template selfadjointView<Eigen::Lower>().llt().solve(ControlMatrix::Identity());
 
         // calculate FB gain update
-        this->L_[k].noalias() = Hi_inverse_[k].template selfadjointView<Eigen::Lower>() * G_[k];
+        this->L_[k].noalias() = Hi_inverse_[k] * G_[k];
 
         // calculate FF update
-        this->lv_[k].noalias() = Hi_inverse_[k].template selfadjointView<Eigen::Lower>() * gv_[k];
+        this->lv_[k].noalias() = Hi_inverse_[k] * gv_[k];
     }
     else
     {
-- 
2.43.0


From c1591fb6819c6fd856f7dfbf1384833d78d79765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:51 +0000
Subject: [PATCH 26/67] fix: GNRiccatiSolver constructed from a problem or a
 number of stages did not allocate its arrays

---
 .../include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
index cd296d8..720e29b 100644
--- a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
+++ b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
@@ -15,11 +15,14 @@ GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::GNRiccatiSolver(const std::shar
 {
     Eigen::initParallel();
     Eigen::setNbThreads(settings_.nThreadsEigen);
+
+    if (lqocProblem)
+        setProblemImpl(lqocProblem);
 }
 
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
-GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::GNRiccatiSolver(int N)
+GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::GNRiccatiSolver(int N) : N_(-1)
 {
     changeNumberOfStages(N);
 }
-- 
2.43.0


From efd59f3711d8860e9b43f75aa62961086ee3e449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:52 +0000
Subject: [PATCH 27/67] fix: FHDTLQR linearised time-varying systems at time
 zero at every stage

---
 ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp b/ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp
index 73f626d..a901f5a 100644
--- a/ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp
+++ b/ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp
@@ -65,8 +65,8 @@ void FHDTLQR<STATE_DIM, CONTROL_DIM, SCALAR>::linearizeModel(const state_vector_
 
     for (int i = 0; i < N; i++)
     {
-        A[i] = state_matrix_t::Identity() + dt * derivatives->getDerivativeState(x_trajectory[i], u_trajectory[i]);
-        B[i] = dt * derivatives->getDerivativeControl(x_trajectory[i], u_trajectory[i]);
+        A[i] = state_matrix_t::Identity() + dt * derivatives->getDerivativeState(x_trajectory[i], u_trajectory[i], i * dt);
+        B[i] = dt * derivatives->getDerivativeControl(x_trajectory[i], u_trajectory[i], i * dt);
     }
 }
 
-- 
2.43.0


From 780afd2a8213951f8638fc9eb6dc68c67517ba7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:24 +0000
Subject: [PATCH 28/67] fix: multiple-shooting NLOC ran out of bounds when a
 shot was longer than the horizon

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index 9ec54b6..d3668ba 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -1661,7 +1661,7 @@ int NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::g
     if (settings_.isSingleShooting())
         return K_;
     else
-        return settings_.K_shot;
+        return std::min(K_, (int)settings_.K_shot);  // a shot never exceeds the horizon
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
-- 
2.43.0


From e824379ecfe1934a26da5fa33d501a39d02586e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:13 +0000
Subject: [PATCH 29/67] fix: NLOC line search forgot the defects of the current
 trajectory when it rejected every step

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index d3668ba..12f4698 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -1049,9 +1049,6 @@ bool NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
                       (e_box_norm_ + e_gen_norm_) * settings_.meritFunctionRhoConstraints;
         lowestCostPrevious = lowestCost_;
 
-        resetDefects();
-
-
         if (settings_.lineSearchSettings.debugPrint)
         {
             std::cout << "[LineSearch]: Starting line search." << std::endl;
-- 
2.43.0


From 9eddfbd50501c15ead59ee0f048db5b4402d0cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:16 +0000
Subject: [PATCH 30/67] fix: SensitivityIntegrator linearised at a wrong time
 when not time-varying and using substeps

---
 .../ct/core/integration/sensitivity/SensitivityIntegrator.h   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_core/include/ct/core/integration/sensitivity/SensitivityIntegrator.h b/ct_core/include/ct/core/integration/sensitivity/SensitivityIntegrator.h
index f80950c..8a39e6c 100644
--- a/ct_core/include/ct/core/integration/sensitivity/SensitivityIntegrator.h
+++ b/ct_core/include/ct/core/integration/sensitivity/SensitivityIntegrator.h
@@ -196,8 +196,8 @@ public:
 
         if (!timeVarying_)
         {
-            Aconst_ = linearSystem_->getDerivativeState(x, u, n * dt_);
-            Bconst_ = linearSystem_->getDerivativeControl(x, u, n * dt_);
+            Aconst_ = linearSystem_->getDerivativeState(x, u, n * numSteps * dt_);
+            Bconst_ = linearSystem_->getDerivativeControl(x, u, n * numSteps * dt_);
         }
 
         integrateSensitivity(n, numSteps, A, B);
-- 
2.43.0


From d5f2231ac5d149fe68d6b2e0b2ddfa9876ff179c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:15 +0000
Subject: [PATCH 31/67] fix: NLOC kept the rollout, defects and cost of the old
 dynamics after changeNonlinearSystem

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index 12f4698..c21b16c 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -271,6 +271,7 @@ void NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
     const typename OptConProblem_t::DynamicsPtr_t& dyn)
 {
     systemInterface_->changeNonlinearSystem(dyn);
+    reset();  // since the dynamics changed, we have to start fresh, i.e. with a rollout
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
-- 
2.43.0


From 48b4ba4b51c18e6fbf1b9ec5c708a1fa13555a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:15 +0000
Subject: [PATCH 32/67] fix: restarting multiple-shooting iLQR applied the
 feedback relative to an outdated trajectory

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index c21b16c..282b22a 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -1081,6 +1081,9 @@ bool NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
         }
     }
 
+    // the controls now contain the feedback action, hence they belong to the updated state trajectory
+    x_ref_lqr_ = x_;
+
     if ((fabs((lowestCostPrevious - lowestCost_) / lowestCostPrevious)) > settings_.min_cost_improvement)
     {
         return true;  //! found better cost
-- 
2.43.0


From b0ce6fb17558730d972bbf65c6daa9ee390de1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:32 +0000
Subject: [PATCH 33/67] fix: multiple-shooting iLQR real-time iterations
 shifted the states without the feedback on the controls

---
 .../include/ct/optcon/nloc/NLOCBackendBase-impl.hpp  | 12 ++++++++++++
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase.hpp |  3 +++
 .../optcon/nloc/algorithms/MultipleShooting-impl.hpp |  1 +
 3 files changed, 16 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index 282b22a..7886aeb 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -1454,6 +1454,18 @@ void NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
     x_ref_lqr_ += delta_x_ref_lqr_;
 }
 
+template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
+void NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::addFeedbackToControls()
+{
+    if (settings_.closedLoopShooting())
+    {
+        for (int k = 0; k < K_; k++)
+            u_ff_[k] += L_[k] * (x_[k] - x_ref_lqr_[k]);
+    }
+
+    x_ref_lqr_ = x_;
+}
+
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
 void NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::logSummaryToMatlab(
     const std::string& fileName)
diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase.hpp
index 7726909..4696c96 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase.hpp
@@ -378,6 +378,9 @@ public:
     //! simple full-step update for state and feedforward control (used for MPC-mode!)
     void doFullStepUpdate();
 
+    //! add the feedback action to the controls for state updates which are not followed by a rollout (MPC)
+    void addFeedbackToControls();
+
     void logSummaryToMatlab(const std::string& fileName);
 
     const SummaryAllIterations<SCALAR>& getSummary() const;
diff --git a/ct_optcon/include/ct/optcon/nloc/algorithms/MultipleShooting-impl.hpp b/ct_optcon/include/ct/optcon/nloc/algorithms/MultipleShooting-impl.hpp
index 825016d..4bb9560 100644
--- a/ct_optcon/include/ct/optcon/nloc/algorithms/MultipleShooting-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/algorithms/MultipleShooting-impl.hpp
@@ -257,6 +257,7 @@ bool MultipleShooting<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>:
     //! update solutions
     start = std::chrono::steady_clock::now();
     this->backend_->doFullStepUpdate();
+    this->backend_->addFeedbackToControls();
 
     end = std::chrono::steady_clock::now();
     diff = end - start;
-- 
2.43.0


From a7ce2b45110b6454683fb80bcf7461f93b3046b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:42 +0000
Subject: [PATCH 34/67] fix: MPC warm start extended the policy with
 non-increasing time stamps

---
 .../default/StateFeedbackPolicyHandler-impl.h             | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h b/ct_optcon/include/ct/optcon/mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h
index 352d866..5a154f1 100644
--- a/ct_optcon/include/ct/optcon/mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h
+++ b/ct_optcon/include/ct/optcon/mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h
@@ -62,12 +62,12 @@ void StateFeedbackPolicyHandler<STATE_DIM, CONTROL_DIM, SCALAR>::designWarmStart
     if (Kn_new > currentSize)
     {
         //extend at back with constant value taken from last element
-        bool timeIsRelative = true;
+        bool timeIsAbsolute = false;
         for (int i = 0; i < Kn_new - currentSize; i++)
         {
-            FeedbackTraj.push_back(FeedbackTraj.back(), dt_, timeIsRelative);
-            FeedForwardTraj.push_back(FeedForwardTraj.back(), dt_, timeIsRelative);
-            StateRefTraj.push_back(StateRefTraj.back(), dt_, timeIsRelative);
+            FeedbackTraj.push_back(FeedbackTraj.back(), dt_, timeIsAbsolute);
+            FeedForwardTraj.push_back(FeedForwardTraj.back(), dt_, timeIsAbsolute);
+            StateRefTraj.push_back(StateRefTraj.back(), dt_, timeIsAbsolute);
         }
     }
     else if (Kn_new < currentSize)
-- 
2.43.0


From 2c78f857f970c971cbed382e740545eb4e644125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:42 +0000
Subject: [PATCH 35/67] fix: MPC::setTimeHorizonStrategy had no effect on the
 time horizon

---
 ct_optcon/include/ct/optcon/mpc/MPC-impl.h      | 1 +
 ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
index fabc657..711d050 100644
--- a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
+++ b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
@@ -85,6 +85,7 @@ template <typename OPTCON_SOLVER>
 void MPC<OPTCON_SOLVER>::setTimeHorizonStrategy(std::shared_ptr<tpl::MpcTimeHorizon<Scalar_t>> timeHorizonStrategy)
 {
     timeHorizonStrategy_ = timeHorizonStrategy;
+    timeKeeper_.setTimeHorizonStrategy(timeHorizonStrategy);
 }
 
 
diff --git a/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h b/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
index 0f93e6b..f3e25e7 100644
--- a/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
+++ b/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
@@ -196,6 +196,11 @@ public:
 	 * 	the new settings to be handed over
 	 */
     void updateSettings(const mpc_settings& settings) { mpc_settings_ = settings; }
+    //! replace the time horizon strategy
+    void setTimeHorizonStrategy(std::shared_ptr<MpcTimeHorizon<SCALAR>> timeHorizonStrategy)
+    {
+        timeHorizonStrategy_ = timeHorizonStrategy;
+    }
     //! start measuring time elapsed during planning / solving the optimal control problem
     void startDelayMeasurement(const SCALAR& externalTime)
     {
-- 
2.43.0


From c9652aa6e5b7b7d08abb21dc20f58c6c3ae359e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:36 +0000
Subject: [PATCH 36/67] fix: first MPC policy was time-stamped with the
 absolute clock when delays are not measured

---
 ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h b/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
index f3e25e7..eedbe77 100644
--- a/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
+++ b/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
@@ -220,14 +220,16 @@ public:
         if (mpc_settings_.useExternalTiming_)
         {
             ext_timer_.stop(externalTime);
-            lastMeasuredDelay_ = ext_timer_.getElapsedTime();
+            // the delay timer only runs if we are supposed to measure the delay
+            lastMeasuredDelay_ = mpc_settings_.measureDelay_ ? ext_timer_.getElapsedTime() : SCALAR(0.0);
             // measure how much time passed since last successful solve()
             ext_lastSolveTimer_.start(externalTime);
         }
         else
         {
             timer_.stop();
-            lastMeasuredDelay_ = timer_.getElapsedTime();
+            // the delay timer only runs if we are supposed to measure the delay
+            lastMeasuredDelay_ = mpc_settings_.measureDelay_ ? timer_.getElapsedTime() : SCALAR(0.0);
             // measure how much time passed since last successful solve()
             lastSolveTimer_.start();
         }
-- 
2.43.0


From 834a8bb8ec1a618a8dde3d0f07709e41c8d01ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:42 +0000
Subject: [PATCH 37/67] fix: MPC state forward integration used the already
 time-shifted policy

---
 ct_optcon/include/ct/optcon/mpc/MPC-impl.h | 4 +++-
 ct_optcon/include/ct/optcon/mpc/MPC.h      | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
index 711d050..2a80492 100644
--- a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
+++ b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
@@ -95,6 +95,7 @@ void MPC<OPTCON_SOLVER>::setInitialGuess(const Policy_t& initGuess)
     solver_.setInitialGuess(initGuess);
     policyHandler_->setPolicy(initGuess);
     currentPolicy_ = initGuess;
+    previousPolicy_ = initGuess;
 }
 
 
@@ -128,7 +129,7 @@ void MPC<OPTCON_SOLVER>::doForwardIntegration(const Scalar_t& t_forward_start,
         else
         {
             // ... or with the controller obtained from the solver (solution of last mpc-run).
-            std::shared_ptr<Policy_t> prevController(new Policy_t(currentPolicy_));
+            std::shared_ptr<Policy_t> prevController(new Policy_t(previousPolicy_));
             integrateForward(t_forward_start, t_forward_stop, x_start, prevController);
         }
     }
@@ -158,6 +159,7 @@ void MPC<OPTCON_SOLVER>::prepareIteration(const Scalar_t& extTime)
 
 
     // Calculate new initial guess / warm-starting policy
+    previousPolicy_ = currentPolicy_;  // the policy currently being executed, required for state forward integration
     policyHandler_->designWarmStartingPolicy(t_forward_stop_, newTimeHorizon, currentPolicy_);
 
     // todo: remove this after through testing
diff --git a/ct_optcon/include/ct/optcon/mpc/MPC.h b/ct_optcon/include/ct/optcon/mpc/MPC.h
index 6399a2f..fc0176c 100644
--- a/ct_optcon/include/ct/optcon/mpc/MPC.h
+++ b/ct_optcon/include/ct/optcon/mpc/MPC.h
@@ -242,6 +242,9 @@ private:
     //! currently optimal policy, initial guess respectively
     Policy_t currentPolicy_;
 
+    //! the policy designed in the previous iteration, before it was shifted for warm-starting
+    Policy_t previousPolicy_;
+
     //! time horizon strategy, e.g. receding horizon optimal control
     std::shared_ptr<tpl::MpcTimeHorizon<Scalar_t>> timeHorizonStrategy_;
 
-- 
2.43.0


From 3cf0e9c1845f7be1b9c551473aee75f4c006b2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:32 +0000
Subject: [PATCH 38/67] fix: DMS simple cost weight of the last node uses the
 last shot instead of a time beyond the grid

---
 .../ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
index 7bd7a0a..2bb149b 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
@@ -141,7 +141,7 @@ void CostEvaluatorSimple<STATE_DIM, CONTROL_DIM, SCALAR>::updatePhi()
             for (size_t i = 1; i < settings_.N_; i++)
                 phi_(i) = SCALAR(0.5) * (timeGrid_->getShotEndTime(i) - timeGrid_->getShotStartTime(i - 1));
 
-            phi_(settings_.N_) = SCALAR(0.5) * (timeGrid_->getShotDuration(settings_.N_));
+            phi_(settings_.N_) = SCALAR(0.5) * (timeGrid_->getShotDuration(settings_.N_ - 1));
             break;
         }
         default:
-- 
2.43.0


From 6489da4b38cf8c2600835483600448bc2a27f8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:49 +0000
Subject: [PATCH 39/67] fix: DMS evaluates the terminal cost at the final time
 instead of t = 0

---
 .../optcon/dms/dms_core/cost_evaluator/CostEvaluatorFull.h  | 6 ++++--
 .../dms/dms_core/cost_evaluator/CostEvaluatorSimple.h       | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorFull.h b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorFull.h
index 782ff57..ba6d926 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorFull.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorFull.h
@@ -80,7 +80,8 @@ public:
         for (auto shotContainer : shotContainers_)
             cost += shotContainer->getCostIntegrated();
 
-        costFct_->setCurrentStateAndControl(w_->getOptimizedState(settings_.N_), control_vector_t::Zero());
+        costFct_->setCurrentStateAndControl(
+            w_->getOptimizedState(settings_.N_), control_vector_t::Zero(), shotContainers_.back()->getIntegrationTimeFinal());
         cost += costFct_->evaluateTerminal();
         return cost;
     }
@@ -134,7 +135,8 @@ public:
         }
 
         /* gradient of terminal cost */
-        costFct_->setCurrentStateAndControl(w_->getOptimizedState(settings_.N_), control_vector_t::Zero());
+        costFct_->setCurrentStateAndControl(
+            w_->getOptimizedState(settings_.N_), control_vector_t::Zero(), shotContainers_.back()->getIntegrationTimeFinal());
         grad.segment(w_->getStateIndex(settings_.N_), STATE_DIM) +=
             costFct_->stateDerivativeTerminal();  // * dXdSi.back();
     }
diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
index 2bb149b..f30bac8 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
@@ -94,7 +94,8 @@ SCALAR CostEvaluatorSimple<STATE_DIM, CONTROL_DIM, SCALAR>::eval()
         cost += phi_(i) * costFct_->evaluateIntermediate();
     }
 
-    costFct_->setCurrentStateAndControl(w_->getOptimizedState(settings_.N_), control_vector_t::Zero());
+    costFct_->setCurrentStateAndControl(
+        w_->getOptimizedState(settings_.N_), control_vector_t::Zero(), timeGrid_->getShotStartTime(settings_.N_));
     cost += costFct_->evaluateTerminal();
     assert(cost == cost);
     return cost;
@@ -116,7 +117,8 @@ void CostEvaluatorSimple<STATE_DIM, CONTROL_DIM, SCALAR>::evalGradient(size_t gr
     }
 
     /* gradient of terminal cost */
-    costFct_->setCurrentStateAndControl(w_->getOptimizedState(settings_.N_), control_vector_t::Zero());
+    costFct_->setCurrentStateAndControl(
+        w_->getOptimizedState(settings_.N_), control_vector_t::Zero(), timeGrid_->getShotStartTime(settings_.N_));
     grad.segment(w_->getStateIndex(settings_.N_), STATE_DIM) += costFct_->stateDerivativeTerminal();
 }
 
-- 
2.43.0


From 62fca5f411e1f96e5385151f4e3aa8f859ff9153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:18 +0000
Subject: [PATCH 40/67] fix: linear DMS initial guess is not truncated by an
 integer division

---
 .../ct/optcon/dms/dms_core/implementation/OptVectorDms-impl.h   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/implementation/OptVectorDms-impl.h b/ct_optcon/include/ct/optcon/dms/dms_core/implementation/OptVectorDms-impl.h
index 39ce2d7..69181be 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/implementation/OptVectorDms-impl.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/implementation/OptVectorDms-impl.h
@@ -110,7 +110,7 @@ void OptVectorDms<STATE_DIM, CONTROL_DIM, SCALAR>::setInitGuess(const state_vect
                 break;
             }
             case 1:
-                this->xInit_.segment(s_index, STATE_DIM) = x0 + (x_f - x0) * (i / (numPairs_ - 1));
+                this->xInit_.segment(s_index, STATE_DIM) = x0 + (x_f - x0) * (SCALAR(i) / SCALAR(numPairs_ - 1));
                 break;
         }
         this->xInit_.segment(q_index, CONTROL_DIM) = u0;
-- 
2.43.0


From 76ae16b820772c84ac98fbb9160beb2e8fa78a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:18 +0000
Subject: [PATCH 41/67] fix: DMS initial state constraint follows
 changeInitialState

---
 ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h b/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
index 2fbf7d1..95a9610 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
@@ -256,7 +256,8 @@ public:
 	 */
     void changeInitialState(const state_vector_t& x0)
     {
-        // constraints_->changeInitialConstraint(x0);
+        std::static_pointer_cast<ConstraintsContainerDms<STATE_DIM, CONTROL_DIM, SCALAR>>(this->constraints_)
+            ->changeInitialConstraint(x0);
         optVariablesDms_->changeInitialState(x0);
     }
 
-- 
2.43.0


From 8de5748e213310a6867c8636487d63aabd9bcbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:33 +0000
Subject: [PATCH 42/67] fix: DMS shots and simple cost weights follow a change
 of the time horizon

---
 .../include/ct/optcon/dms/dms_core/DmsProblem.h  | 16 +++++++++++++---
 .../ct/optcon/dms/dms_core/ShotContainer.h       | 11 +++++++++++
 .../cost_evaluator/CostEvaluatorSimple.h         |  4 ++--
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h b/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
index 95a9610..7607475 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
@@ -132,8 +132,7 @@ public:
             systemPtrs[shotIdx]->setController(newController);
             linearPtrs[shotIdx]->setController(newController);
 
-            size_t nIntegrationSteps =
-                (timeGrid_->getShotEndTime(shotIdx) - timeGrid_->getShotStartTime(shotIdx)) / settings_.dt_sim_ + 0.5;
+            size_t nIntegrationSteps = getIntegrationSteps(shotIdx);
 
             shotContainers_.push_back(std::shared_ptr<ShotContainer<STATE_DIM, CONTROL_DIM, SCALAR>>(
                 new ShotContainer<STATE_DIM, CONTROL_DIM, SCALAR>(systemPtrs[shotIdx], linearPtrs[shotIdx],
@@ -248,7 +247,12 @@ public:
 	 *
 	 * @param[in]  tf    The new time horizon
 	 */
-    void changeTimeHorizon(const SCALAR tf) { timeGrid_->changeTimeHorizon(tf); }
+    void changeTimeHorizon(const SCALAR tf)
+    {
+        timeGrid_->changeTimeHorizon(tf);
+        for (size_t shotIdx = 0; shotIdx < shotContainers_.size(); shotIdx++)
+            shotContainers_[shotIdx]->updateTimeGrid(getIntegrationSteps(shotIdx));
+    }
     /**
 	 * @brief      Updates the initial state
 	 *
@@ -267,6 +271,12 @@ public:
     void printSolution() { optVariablesDms_->printoutSolution(); }
 
 private:
+    //! number of integration steps of size dt_sim in a shot
+    size_t getIntegrationSteps(const size_t shotIdx) const
+    {
+        return (timeGrid_->getShotEndTime(shotIdx) - timeGrid_->getShotStartTime(shotIdx)) / settings_.dt_sim_ + 0.5;
+    }
+
     DmsSettings settings_;
 
     std::shared_ptr<ConstraintDiscretizer<STATE_DIM, CONTROL_DIM, SCALAR>> discretizedConstraints_;
diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h b/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h
index b9fceb6..3e2d73b 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h
@@ -201,6 +201,17 @@ public:
         }
     }
 
+    /**
+	 * @brief      Adapts the shot to a change of the time grid
+	 *
+	 * @param[in]  nIntegrationSteps  The new number of integration steps
+	 */
+    void updateTimeGrid(const size_t nIntegrationSteps)
+    {
+        tStart_ = timeGrid_->getShotStartTime(shotNr_);
+        nSteps_ = nIntegrationSteps;
+    }
+
     void reset()
     {
         integratorCT_->clearStates();
diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
index f30bac8..4c785c4 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
@@ -84,7 +84,7 @@ private:
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 SCALAR CostEvaluatorSimple<STATE_DIM, CONTROL_DIM, SCALAR>::eval()
 {
-    // updatePhi();
+    updatePhi();
     SCALAR cost = SCALAR(0.0);
 
     for (size_t i = 0; i < settings_.N_ + 1; ++i)
@@ -106,7 +106,7 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 void CostEvaluatorSimple<STATE_DIM, CONTROL_DIM, SCALAR>::evalGradient(size_t grad_length,
     Eigen::Map<Eigen::Matrix<SCALAR, Eigen::Dynamic, 1>>& grad)
 {
-    // updatePhi();
+    updatePhi();
     grad.setZero();
     for (size_t i = 0; i < settings_.N_ + 1; ++i)
     {
-- 
2.43.0


From 490cd5023ab51dbd5d123fce2e7ce05b24f90abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:35 +0000
Subject: [PATCH 43/67] fix: DMS path constraints at the last node no longer
 read a piecewise-linear control spline out of range

---
 .../include/ct/optcon/dms/constraints/ConstraintDiscretizer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h b/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
index 04940e9..ed59f74 100644
--- a/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
+++ b/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
@@ -130,7 +130,7 @@ public:
             for (auto constraint : constraints_)
             {
                 constraint->setCurrentStateAndControl(
-                    w_->getOptimizedState(n), controlSpliner_->evalSpline(tShot, n), tShot);
+                    w_->getOptimizedState(n), w_->getOptimizedControl(n), tShot);
                 constraintSize = constraint->getIntermediateConstraintsCount();
                 if (constraintSize > 0)
                 {
@@ -165,7 +165,7 @@ public:
             for (auto constraint : constraints_)
             {
                 constraint->setCurrentStateAndControl(
-                    w_->getOptimizedState(n), controlSpliner_->evalSpline(tShot, n), tShot);
+                    w_->getOptimizedState(n), w_->getOptimizedControl(n), tShot);
                 jacSize = constraint->getJacobianStateNonZeroCountIntermediate();
                 if (jacSize > 0)
                 {
-- 
2.43.0


From 7aca365caa957ffc1918217e8e13e8dfc703469e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:31 +0000
Subject: [PATCH 44/67] fix: DMS general constraints reserve the non-zeros of
 their input Jacobian

---
 .../ct/optcon/dms/constraints/ConstraintDiscretizer.h       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h b/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
index ed59f74..f859bd9 100644
--- a/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
+++ b/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
@@ -110,8 +110,10 @@ public:
         discreteLowerBound_.resize(constraintsCount_);
         discreteUpperBound_.resize(constraintsCount_);
 
-        nonZeroJacCountIntermediate_ += (N_ + 1) * generalConstraints->getJacobianStateNonZeroCountIntermediate();
-        nonZeroJacCountTerminal_ += generalConstraints->getJacobianStateNonZeroCountTerminal();
+        nonZeroJacCountIntermediate_ += (N_ + 1) * (generalConstraints->getJacobianStateNonZeroCountIntermediate() +
+                                                       generalConstraints->getJacobianInputNonZeroCountIntermediate());
+        nonZeroJacCountTerminal_ += generalConstraints->getJacobianStateNonZeroCountTerminal() +
+                                    generalConstraints->getJacobianInputNonZeroCountTerminal();
         nonZeroJacCount_ = nonZeroJacCountIntermediate_ + nonZeroJacCountTerminal_;
 
         discreteJac_.resize(nonZeroJacCount_);
-- 
2.43.0


From 3d509371adfedbf55a16218808284e8f3aef47bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:44 +0000
Subject: [PATCH 45/67] fix: extended Kalman filter predicts the measurement at
 the time of the update

---
 ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h
index 743c12b..d99261c 100644
--- a/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h
@@ -64,7 +64,7 @@ auto ExtendedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::update(co
         P_ * dHdx.transpose() * (dHdx * P_ * dHdx.transpose() + dHdw * (R_)*dHdw.transpose()).inverse();
 
     // STEP 3 - state estimate correction
-    this->x_est_ += K * (y - this->h_->computeMeasurement(this->x_est_));
+    this->x_est_ += K * (y - this->h_->computeMeasurement(this->x_est_, t));
 
     // STEP 4 - covariance matrix correction
     P_ -= (K * dHdx * P_).eval();
-- 
2.43.0


From 734898d622afc1ac5f9361f393e087d3f0e59b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:29 +0000
Subject: [PATCH 46/67] fix: unscented Kalman filter compiles for outputs whose
 size differs from the state

---
 ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h | 2 +-
 ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
index 2e5dfb5..9ef2f0a 100644
--- a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
@@ -264,7 +264,7 @@ void UnscentedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::computeS
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t OUTPUT_DIM, typename SCALAR>
 template <size_t DIM>
 auto UnscentedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::computePredictionFromSigmaPoints(
-    const SigmaPoints<DIM>& sigmaPoints) -> state_vector_t
+    const SigmaPoints<DIM>& sigmaPoints) -> Eigen::Matrix<SCALAR, DIM, 1>
 {
     // Use efficient matrix x vector computation
     return sigmaPoints * sigmaWeights_m_;
diff --git a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h
index bffac4c..05f525d 100644
--- a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h
+++ b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h
@@ -149,7 +149,7 @@ public:
 
     //! Make a prediction based on sigma points.
     template <size_t DIM>
-    state_vector_t computePredictionFromSigmaPoints(const SigmaPoints<DIM>& sigmaPoints);
+    Eigen::Matrix<SCALAR, DIM, 1> computePredictionFromSigmaPoints(const SigmaPoints<DIM>& sigmaPoints);
 
 private:
     state_matrix_t P_;                                          //! Covariance matrix.
-- 
2.43.0


From 6d7b470c1f1bc3fba7dee0408d7acd0c36e3bc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:29 +0000
Subject: [PATCH 47/67] fix: unscented Kalman filter initialises its sigma
 point weights

---
 ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
index 9ef2f0a..c7d8903 100644
--- a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
@@ -62,6 +62,7 @@ UnscentedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::UnscentedKalm
     const ct::core::StateMatrix<STATE_DIM, SCALAR>& P0)
     : Base(f, h, x0), alpha_(alpha), beta_(beta), kappa_(kappa), P_(P0)
 {
+    computeWeights();
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t OUTPUT_DIM, typename SCALAR>
@@ -75,6 +76,7 @@ UnscentedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::UnscentedKalm
       kappa_(ukf_settings.kappa),
       P_(ukf_settings.P0)
 {
+    computeWeights();
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t OUTPUT_DIM, typename SCALAR>
-- 
2.43.0


From f8de17789e3886832e85cf4dfa28dc028e274c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:25 +0000
Subject: [PATCH 48/67] fix: steady-state Kalman filter passes the time step to
 its system model

---
 .../include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
index a0d1c6c..3a82558 100644
--- a/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
@@ -38,8 +38,8 @@ auto SteadyStateKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::predic
     const ct::core::Time& dt,
     const ct::core::Time& t) -> const state_vector_t&
 {
-    A_ = this->f_->computeDerivativeState(this->x_est_, u, t);
-    this->x_est_ = this->f_->computeDynamics(this->x_est_, u, t);
+    A_ = this->f_->computeDerivativeState(this->x_est_, u, dt, t);
+    this->x_est_ = this->f_->computeDynamics(this->x_est_, u, dt, t);
     return this->x_est_;
 }
 
-- 
2.43.0


From 2b958e686312a2f5d00e072a9f8dd3bb589633c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:14 +0000
Subject: [PATCH 49/67] fix: steady-state Kalman filter corrects with the
 Kalman gain instead of the predictor gain

---
 .../include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
index 3a82558..1dacbeb 100644
--- a/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
@@ -61,7 +61,10 @@ auto SteadyStateKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::update
         throw;
     }
 
-    this->x_est_ -= K.transpose() * (y - this->h_->computeMeasurement(this->x_est_, t));
+    // the DARE gain contains the state transition, the measurement update needs the gain without it
+    const output_matrix_t innovationCov = dHdx * P_ * dHdx.transpose() + R_;
+    this->x_est_ +=
+        P_ * dHdx.transpose() * innovationCov.inverse() * (y - this->h_->computeMeasurement(this->x_est_, t));
     return this->x_est_;
 }
 
-- 
2.43.0


From 034d81efaef4bb713586a433a8d94b3a36f9b610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:04 +0000
Subject: [PATCH 50/67] fix: copies of an input-disturbed system keep their
 controller

---
 .../include/ct/optcon/filter/DisturbedSystemController-impl.h   | 2 +-
 ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h b/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h
index c4b6c1d..6a3fdd1 100644
--- a/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h
@@ -18,7 +18,7 @@ DisturbedSystemController<STATE_DIM, DIST_DIM, CONTROL_DIM, SCALAR>::DisturbedSy
 template <size_t STATE_DIM, size_t DIST_DIM, size_t CONTROL_DIM, typename SCALAR>
 DisturbedSystemController<STATE_DIM, DIST_DIM, CONTROL_DIM, SCALAR>::DisturbedSystemController(
     const DisturbedSystemController& other)
-    : controller_(other.controller_->clone())
+    : controller_(other.controller_ ? other.controller_->clone() : nullptr)
 {
 }
 
diff --git a/ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h b/ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h
index c73e369..605225d 100644
--- a/ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h
@@ -18,7 +18,7 @@ InputDisturbedSystem<STATE_DIM, CONTROL_DIM, SCALAR>::InputDisturbedSystem(
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 InputDisturbedSystem<STATE_DIM, CONTROL_DIM, SCALAR>::InputDisturbedSystem(const InputDisturbedSystem& other)
-    : Base(*this), system_(other.system_->clone())
+    : Base(other), system_(other.system_->clone())
 {
 }
 
-- 
2.43.0


From 136bcb0d1b502167d1ad1dad4c61d194e28970c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:46 +0000
Subject: [PATCH 51/67] fix: JointState ordering operators compile

---
 ct_rbd/include/ct/rbd/state/JointState.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_rbd/include/ct/rbd/state/JointState.h b/ct_rbd/include/ct/rbd/state/JointState.h
index 2beb6e4..38929b6 100644
--- a/ct_rbd/include/ct/rbd/state/JointState.h
+++ b/ct_rbd/include/ct/rbd/state/JointState.h
@@ -59,12 +59,12 @@ public:
 
     inline bool operator<(const JointState<NJOINTS, SCALAR>& rhs) const
     {
-        return (this->array() < rhs.array()).isConstant(1);
+        return (state_.array() < rhs.state_.array()).all();
     }
 
     inline bool operator>(const JointState<NJOINTS, SCALAR>& rhs) const
     {
-        return (this->array() > rhs.array()).isConstant(1);
+        return (state_.array() > rhs.state_.array()).all();
     }
 
     bool isApprox(const JointState<NJOINTS, SCALAR>& rhs, const SCALAR& tol = 1e-10)
-- 
2.43.0


From 06554409ab59e13e1570fcc452f982c2dd36ea3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:57 +0000
Subject: [PATCH 52/67] fix: second order actuator dynamics have unit
 amplification by default, and per-joint parameters compile

---
 .../robot/actuator/SecondOrderActuatorDynamics-impl.h | 11 +++++------
 .../rbd/robot/actuator/SecondOrderActuatorDynamics.h  |  4 ++--
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h b/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h
index 3a02d0b..f7e9038 100644
--- a/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h
+++ b/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h
@@ -10,7 +10,7 @@ namespace rbd {
 
 template <size_t NJOINTS, typename SCALAR>
 SecondOrderActuatorDynamics<NJOINTS, SCALAR>::SecondOrderActuatorDynamics(double w_n, double zeta)
-    : oscillators_(NJOINTS, ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n, (SCALAR)zeta, (SCALAR)(w_n * w_n)))
+    : oscillators_(NJOINTS, ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n, (SCALAR)zeta, SCALAR(1.0)))
 {
 }
 
@@ -27,10 +27,9 @@ SecondOrderActuatorDynamics<NJOINTS, SCALAR>::SecondOrderActuatorDynamics(std::v
     if ((w_n.size() != NJOINTS) || (zeta.size() != NJOINTS))
         throw std::runtime_error("SecondOrderActuatorDynamics: w_n or zeta is not correct size");
 
-    oscillators_.resize(NJOINTS);
     for (size_t i = 0; i < NJOINTS; i++)
-        oscillators_[i] =
-            ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n[i], (SCALAR)zeta[i], (SCALAR)(w_n[i] * w_n[i]));
+        oscillators_.push_back(
+            ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n[i], (SCALAR)zeta[i], SCALAR(1.0)));
 }
 
 template <size_t NJOINTS, typename SCALAR>
@@ -41,9 +40,9 @@ SecondOrderActuatorDynamics<NJOINTS, SCALAR>::SecondOrderActuatorDynamics(std::v
     if ((w_n.size() != NJOINTS) || (zeta.size() != NJOINTS) || (g_dc.size() != NJOINTS))
         throw std::runtime_error("SecondOrderActuatorDynamics: w_n, zeta or g_dc is not correct size");
 
-    oscillators_.resize(NJOINTS);
     for (size_t i = 0; i < NJOINTS; i++)
-        oscillators_[i] = ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n[i], (SCALAR)zeta[i], (SCALAR)g_dc[i]);
+        oscillators_.push_back(
+            ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n[i], (SCALAR)zeta[i], (SCALAR)g_dc[i]));
 }
 
 template <size_t NJOINTS, typename SCALAR>
diff --git a/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics.h b/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics.h
index d8c1ea1..4dba84e 100644
--- a/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics.h
+++ b/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics.h
@@ -26,13 +26,13 @@ public:
     //! constructor assuming unit amplification
     SecondOrderActuatorDynamics(double w_n, double zeta);
 
-    //! constructor assuming custom amplification, set g_dc = w_n*w_n
+    //! constructor assuming custom amplification (dc gain g_dc)
     SecondOrderActuatorDynamics(double w_n, double zeta, double g_dc);
 
     //! constructor assuming unit amplification
     SecondOrderActuatorDynamics(std::vector<double> w_n, std::vector<double> zeta);
 
-    //! constructor assuming custom amplification, set g_dc = w_n*w_n
+    //! constructor assuming custom amplification (dc gain g_dc)
     SecondOrderActuatorDynamics(std::vector<double> w_n, std::vector<double> zeta, std::vector<double> g_dc);
 
     //! destructor
-- 
2.43.0


From 64898ec4e31d520902ca025d727908873464dcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:44 +0000
Subject: [PATCH 53/67] fix: InertiaMatrixDense::changeMass compiles

---
 ct_rbd/include/ct/iit/rbd/InertiaMatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/iit/rbd/InertiaMatrix.h b/ct_rbd/include/ct/iit/rbd/InertiaMatrix.h
index a6251c7..f475901 100644
--- a/ct_rbd/include/ct/iit/rbd/InertiaMatrix.h
+++ b/ct_rbd/include/ct/iit/rbd/InertiaMatrix.h
@@ -206,7 +206,7 @@ TPL
 inline void CLASS::changeMass(Scalar newMass) {
     // Note the use of indices AX and hard-coded 0, to make it independent from
     //  the convention angular/linear
-    this->block<3,6>(AX,0) *= newMass/getMass();
+    this->template block<3,6>(AX,0) *= newMass/getMass();
     block33(LX,AX) = block33(AX,LX).transpose();
     data(LX,LX) = data(LY,LY) = data(LZ,LZ) = newMass;
 }
-- 
2.43.0


From 0f8732a858a345ba78a4d7365909b16f38abb0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:44 +0000
Subject: [PATCH 54/67] fix: bias force of a body rotating about z used the
 wrong product of inertia

---
 ct_rbd/include/ct/iit/rbd/robcogen_commons.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/iit/rbd/robcogen_commons.h b/ct_rbd/include/ct/iit/rbd/robcogen_commons.h
index a264b1e..9761716 100644
--- a/ct_rbd/include/ct/iit/rbd/robcogen_commons.h
+++ b/ct_rbd/include/ct/iit/rbd/robcogen_commons.h
@@ -128,7 +128,7 @@ inline Force<DScalar> vxIv(const DScalar& omegaz, const MatrixBase<Derived>& I)
     DScalar wz2 = omegaz*omegaz;
     Force<DScalar> ret;
     ret(AX) = -I(AY,AZ) * wz2;
-    ret(AY) =  I(AX,AY) * wz2;
+    ret(AY) =  I(AX,AZ) * wz2;
     ret(AZ) =  0;
     ret(LX) =  I(AY,LZ) * wz2;
     ret(LY) =  I(AZ,LX) * wz2;
-- 
2.43.0


From 108ade37d96364d469418eb3433b0c9ed0a0e97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:27 +0000
Subject: [PATCH 55/67] fix: QuadrotorLinear overrides return the base class'
 matrix types

---
 ct_models/include/ct/models/Quadrotor/QuadrotorLinear.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_models/include/ct/models/Quadrotor/QuadrotorLinear.hpp b/ct_models/include/ct/models/Quadrotor/QuadrotorLinear.hpp
index 32c2283..5a7bd46 100644
--- a/ct_models/include/ct/models/Quadrotor/QuadrotorLinear.hpp
+++ b/ct_models/include/ct/models/Quadrotor/QuadrotorLinear.hpp
@@ -18,8 +18,8 @@ public:
     typedef ct::core::StateVector<quadrotor::nStates> state_vector_t;
     typedef ct::core::ControlVector<quadrotor::nControls> control_vector_t;
 
-    typedef Eigen::Matrix<double, quadrotor::nStates, quadrotor::nStates> state_matrix_t;
-    typedef Eigen::Matrix<double, quadrotor::nStates, quadrotor::nControls> state_control_matrix_t;
+    typedef ct::core::StateMatrix<quadrotor::nStates> state_matrix_t;
+    typedef ct::core::StateControlMatrix<quadrotor::nStates, quadrotor::nControls> state_control_matrix_t;
 
 
     QuadrotorLinear* clone() const override { return new QuadrotorLinear(*this); }
-- 
2.43.0


From 95e944e06ce6ce44788aa358fcd9765f6ec421da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:04 +0000
Subject: [PATCH 56/67] fix: line search includes the constraint violation of
 the initial trajectory in its merit

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index 7886aeb..a119b3f 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -1046,6 +1046,8 @@ bool NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
     {
         // merit of previous trajectory
         d_norm_ = computeDefectsNorm<1>(d_);
+        computeBoxConstraintErrorOfTrajectory(settings_.nThreads, x_, u_ff_, e_box_norm_);
+        computeGeneralConstraintErrorOfTrajectory(settings_.nThreads, x_, u_ff_, e_gen_norm_);
         lowestCost_ = intermediateCostBest_ + finalCostBest_ + d_norm_ * settings_.meritFunctionRho +
                       (e_box_norm_ + e_gen_norm_) * settings_.meritFunctionRhoConstraints;
         lowestCostPrevious = lowestCost_;
-- 
2.43.0


From f8424c145b4d51b4bc2f3cda8830b7e58e01dde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:34 +0000
Subject: [PATCH 57/67] fix: terminal general constraints are linearised about
 the terminal state

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index a119b3f..313f1aa 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -832,6 +832,9 @@ void NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
     // init terminal general constraints, if any
     if (generalConstraints_[settings_.nThreads] != nullptr)
     {
+        generalConstraints_[settings_.nThreads]->setCurrentStateAndControl(
+            x_[K_], control_vector_t::Zero(), settings_.dt * K_);
+
         p.ng_[K_] = generalConstraints_[settings_.nThreads]->getTerminalConstraintsCount();
         if (p.ng_[K_] > 0)
         {
-- 
2.43.0


From 5f5d960d1c9f887720839bcee4a9a086f9c1a860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:52 +0000
Subject: [PATCH 58/67] fix: quantization noise accessed its rest out of bounds
 for new indices

---
 ct_core/include/ct/core/common/QuantizationNoise.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/common/QuantizationNoise.h b/ct_core/include/ct/core/common/QuantizationNoise.h
index 5af2170..a8b0856 100644
--- a/ct_core/include/ct/core/common/QuantizationNoise.h
+++ b/ct_core/include/ct/core/common/QuantizationNoise.h
@@ -49,7 +49,7 @@ public:
     void noisify(double& value, size_t index = 0)
     {
         if (index >= quantizationRest_.size())
-            quantizationRest_.resize(index, 0);
+            quantizationRest_.resize(index + 1, 0);
 
         double currentValue = value + quantizationRest_[index];
         double nQuantsDouble = currentValue / quantizationInterval_;
-- 
2.43.0


From cc581cc80adcddbfd01b436375263c3b9dea4758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:48 +0000
Subject: [PATCH 59/67] fix: NLOC worker threads no longer miss wake-ups or
 keep working on a finished task

---
 .../ct/optcon/nloc/NLOCBackendMP-impl.hpp     | 181 +++++-------------
 .../include/ct/optcon/nloc/NLOCBackendMP.hpp  |  28 ++-
 2 files changed, 54 insertions(+), 155 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
index 45f183f..0b9d771 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
@@ -46,9 +46,7 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::st
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
 void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::shutdownRoutine()
 {
-    workersActive_ = false;
-    workerTask_ = SHUTDOWN;
-    workerWakeUpCondition_.notify_all();
+    startTask(SHUTDOWN);
 
 #ifdef DEBUG_PRINT_MP
     std::cout << "Shutting down workers" << std::endl;
@@ -65,6 +63,26 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::sh
 }
 
 
+template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
+void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::startTask(const int task)
+{
+    {
+        std::lock_guard<std::mutex> lock(workerWakeUpMutex_);
+        workerTask_ = task;
+        taskCount_++;
+        workersDone_ = 0;
+    }
+    workerWakeUpCondition_.notify_all();
+}
+
+template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
+void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::waitForWorkers()
+{
+    // no worker may still be busy with this task when the next one gets started
+    std::unique_lock<std::mutex> waitLock(workerWakeUpMutex_);
+    workersDoneCondition_.wait(waitLock, [this] { return workersDone_ == workerThreads_.size(); });
+}
+
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
 void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::threadWork(size_t threadId)
 {
@@ -72,121 +90,46 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::th
     printString("[Thread " + std::to_string(threadId) + "]: launched");
 #endif  // DEBUG_PRINT_MP
 
+    size_t taskCountLocal = 0;
 
-    // local variables
-    int workerTask_local = IDLE;
-    size_t uniqueProcessID = 0;
-    size_t iteration_local = this->iteration_;
-    size_t lqpCounter_local = this->lqpCounter_;
-
-
-    while (workersActive_)
+    while (true)
     {
-        workerTask_local = workerTask_.load();
-        iteration_local = this->iteration_;
-        lqpCounter_local = this->lqpCounter_;
-
-#ifdef DEBUG_PRINT_MP
-        printString("[Thread " + std::to_string(threadId) + "]: previous procId: " + std::to_string(uniqueProcessID) +
-                    ", current procId: " +
-                    std::to_string(generateUniqueProcessID(iteration_local, (int)workerTask_local, lqpCounter_local)));
-#endif
-
-
-        /*!
-         * We want to put the worker to sleep if
-         * - the workerTask_ is IDLE
-         * - or we are finished but workerTask_ is not yet reset, thus the process ID is still the same
-         * */
-        if (workerTask_local == IDLE ||
-            uniqueProcessID == generateUniqueProcessID(iteration_local, (int)workerTask_local, lqpCounter_local))
+        int workerTaskLocal;
         {
-#ifdef DEBUG_PRINT_MP
-            printString("[Thread " + std::to_string(threadId) + "]: going to sleep !");
-#endif
-
-            // sleep until the state is not IDLE any more and we have a different process ID than before
             std::unique_lock<std::mutex> waitLock(workerWakeUpMutex_);
-            while (workerTask_ == IDLE || (uniqueProcessID == generateUniqueProcessID(this->iteration_,
-                                                                  (int)workerTask_.load(), this->lqpCounter_)))
-            {
-                workerWakeUpCondition_.wait(waitLock);
-            }
-            waitLock.unlock();
-
-            workerTask_local = workerTask_.load();
-            iteration_local = this->iteration_;
-            lqpCounter_local = this->lqpCounter_;
-
-#ifdef DEBUG_PRINT_MP
-            printString("[Thread " + std::to_string(threadId) + "]: woke up !");
-#endif  // DEBUG_PRINT_MP
+            workerWakeUpCondition_.wait(waitLock, [this, &taskCountLocal] { return taskCount_ != taskCountLocal; });
+            taskCountLocal = taskCount_;
+            workerTaskLocal = workerTask_;
         }
 
-        if (!workersActive_)
-        {
 #ifdef DEBUG_PRINT_MP
-            printString("Breaking - workers are not active !");
+        printString("[Thread " + std::to_string(threadId) + "]: woke up for task " + std::to_string(workerTaskLocal));
 #endif  // DEBUG_PRINT_MP
-            break;
-        }
-
 
-        switch (workerTask_local)
+        switch (workerTaskLocal)
         {
             case LINE_SEARCH:
-            {
-#ifdef DEBUG_PRINT_MP
-                printString("[Thread " + std::to_string(threadId) + "]: now busy with LINE_SEARCH !");
-#endif  // DEBUG_PRINT_MP
                 lineSearchWorker(threadId);
-                uniqueProcessID = generateUniqueProcessID(iteration_local, LINE_SEARCH, lqpCounter_local);
                 break;
-            }
             case ROLLOUT_SHOTS:
-            {
-#ifdef DEBUG_PRINT_MP
-                printString("[Thread " + std::to_string(threadId) + "]: now doing shot rollouts !");
-#endif  // DEBUG_PRINT_MP
                 rolloutShotWorker(threadId);
-                uniqueProcessID = generateUniqueProcessID(iteration_local, ROLLOUT_SHOTS, lqpCounter_local);
                 break;
-            }
             case COMPUTE_LQ_PROBLEM:
-            {
-#ifdef DEBUG_PRINT_MP
-                printString("[Thread " + std::to_string(threadId) + "]: now doing LQ approximation !");
-#endif  // DEBUG_PRINT_MP
                 computeLQProblemWorker(threadId);
-                uniqueProcessID = generateUniqueProcessID(iteration_local, COMPUTE_LQ_PROBLEM, lqpCounter_local);
                 break;
-            }
             case SHUTDOWN:
-            {
-#ifdef DEBUG_PRINT_MP
-                printString("[Thread " + std::to_string(threadId) + "]: now shutting down !");
-#endif  // DEBUG_PRINT_MP
                 return;
-                break;
-            }
-            case IDLE:
-            {
-#ifdef DEBUG_PRINT_MP
-                printString("[Thread " + std::to_string(threadId) + "]: is idle. Now going to sleep.");
-#endif  // DEBUG_PRINT_MP
-                break;
-            }
             default:
-            {
                 printString("[Thread " + std::to_string(threadId) + "]: WARNING: Worker has unknown task !");
                 break;
-            }
         }
-    }
 
-#ifdef DEBUG_PRINT_MP
-    printString("[Thread " + std::to_string(threadId) + "]: shut down.");
-#endif  // DEBUG_PRINT_MP
+        {
+            std::lock_guard<std::mutex> lock(workerWakeUpMutex_);
+            workersDone_++;
+        }
+        workersDoneCondition_.notify_one();
+    }
 }
 
 
@@ -195,11 +138,10 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::la
 {
 #ifdef DEBUG_PRINT_MP
     printString("[MP]: Going to launch worker threads!");
-    std::cout << workersActive_.load() << std::endl;
 #endif  //DEBUG_PRINT_MP
 
-    workersActive_ = true;
-    workerTask_ = IDLE;
+    taskCount_ = 0;
+    workersDone_ = 0;
 
     for (int i = 0; i < (int)this->settings_.nThreads; i++)
     {
@@ -241,24 +183,19 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::co
 #endif  //DEBUG_PRINT_MP
 
     kTaken_ = 0;
-    kCompleted_ = 0;
     KMax_ = lastIndex;
     KMin_ = firstIndex;
 
 #ifdef DEBUG_PRINT_MP
     printString("[MP]: Waking up workers to do LQ approximation.");
 #endif  //DEBUG_PRINT_MP
-    workerTask_ = COMPUTE_LQ_PROBLEM;
-    workerWakeUpCondition_.notify_all();
+    startTask(COMPUTE_LQ_PROBLEM);
 
 #ifdef DEBUG_PRINT_MP
     printString("[MP]: Will sleep now until done with LQ approximation.");
 #endif  //DEBUG_PRINT_MP
 
-    std::unique_lock<std::mutex> waitLock(kCompletedMutex_);
-    kCompletedCondition_.wait(waitLock, [this] { return kCompleted_.load() > KMax_ - KMin_; });
-    waitLock.unlock();
-    workerTask_ = IDLE;
+    waitForWorkers();
 #ifdef DEBUG_PRINT_MP
     printString("[MP]: Woke up again, should have computed LQ approximation now.");
 #endif  //DEBUG_PRINT_MP
@@ -286,9 +223,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::co
                             std::to_string(KMax_) + " and KMin_ is " + std::to_string(KMin_));
 #endif
 
-            //kCompleted_++;
-            if (kCompleted_.load() > KMax_ - KMin_)
-                kCompletedCondition_.notify_all();
             return;
         }
 
@@ -302,8 +236,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::co
 
         if (this->generalConstraints_[threadId] != nullptr)
             this->computeLinearizedConstraints(threadId, KMax_ - k);  // linearize constraints backwards
-
-        kCompleted_++;
     }
 }
 
@@ -340,7 +272,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::ro
 
 
     kTaken_ = 0;
-    kCompleted_ = 0;
     KMax_ = lastIndex;
     KMin_ = firstIndex;
 
@@ -348,17 +279,13 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::ro
 #ifdef DEBUG_PRINT_MP
     std::cout << "[MP]: Waking up workers to do shot rollouts." << std::endl;
 #endif  //DEBUG_PRINT_MP
-    workerTask_ = ROLLOUT_SHOTS;
-    workerWakeUpCondition_.notify_all();
+    startTask(ROLLOUT_SHOTS);
 
 #ifdef DEBUG_PRINT_MP
     std::cout << "[MP]: Will sleep now until we have rolled out all shots." << std::endl;
 #endif  //DEBUG_PRINT_MP
 
-    std::unique_lock<std::mutex> waitLock(kCompletedMutex_);
-    kCompletedCondition_.wait(waitLock, [this] { return kCompleted_.load() > KMax_ - KMin_; });
-    waitLock.unlock();
-    workerTask_ = IDLE;
+    waitForWorkers();
 #ifdef DEBUG_PRINT_MP
     std::cout << "[MP]: Woke up again, should have rolled out all shots now." << std::endl;
 #endif  //DEBUG_PRINT_MP
@@ -378,11 +305,7 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::ro
         size_t k = kTaken_++;
 
         if (k > KMax_ - KMin_)
-        {
-            if (kCompleted_.load() > KMax_ - KMin_)
-                kCompletedCondition_.notify_all();
             return;
-        }
 
         size_t kShot = (KMax_ - k);
         if (kShot % ((size_t)this->getNumStepsPerShot()) ==
@@ -399,8 +322,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::ro
 
             this->computeSingleDefect(kShot, this->x_, this->xShot_, this->d_);
         }
-
-        kCompleted_++;
     }
 }
 
@@ -421,16 +342,12 @@ SCALAR NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
 #ifdef DEBUG_PRINT_MP
     std::cout << "[MP]: Waking up workers." << std::endl;
 #endif  //DEBUG_PRINT_MP
-    workerTask_ = LINE_SEARCH;
-    workerWakeUpCondition_.notify_all();
+    startTask(LINE_SEARCH);
 
 #ifdef DEBUG_PRINT_MP
     std::cout << "[MP]: Will sleep now until done line search." << std::endl;
 #endif  //DEBUG_PRINT_MP
-    std::unique_lock<std::mutex> waitLock(alphaBestFoundMutex_);
-    alphaBestFoundCondition_.wait(waitLock, [this] { return alphaBestFound_.load(); });
-    waitLock.unlock();
-    workerTask_ = IDLE;
+    waitForWorkers();
 #ifdef DEBUG_PRINT_MP
     std::cout << "[MP]: Woke up again, should have results now." << std::endl;
 #endif  //DEBUG_PRINT_MP
@@ -575,24 +492,12 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::li
             }
         }
         if (allPreviousAlphasProcessed)
-        {
             alphaBestFound_ = true;
-            alphaBestFoundCondition_.notify_all();
-        }
 
         lineSearchResultMutex_.unlock();
     }
 }
 
-template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
-size_t NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::generateUniqueProcessID(
-    const size_t& iterateNo,
-    const int workerState,
-    const size_t resetCount)
-{
-    return (10e12 * (resetCount + 1) + 10e6 * (workerState + 1) + iterateNo + 1);
-}
-
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
 void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::printString(const std::string& text)
 {
diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp
index 8d2d405..8f2ed53 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp
@@ -57,7 +57,6 @@ protected:
 private:
     enum WORKER_STATE
     {
-        IDLE,
         LINE_SEARCH,
         ROLLOUT_SHOTS,
         COMPUTE_LQ_PROBLEM,
@@ -97,31 +96,27 @@ private:
     //! rolls out a shot and computes the defect
     void rolloutShotWorker(size_t threadId);
 
-    /*! heuristic that generates a unique id for a process, such that we can manage the tasks.
-	 * Generates a unique identifiers for task, iteration:
-	 * @todo replace by proper hash
-	 * */
-    size_t generateUniqueProcessID(const size_t& iterateNo, const int workerState, const size_t resetCount);
+    //! hand a task to all workers
+    void startTask(const int task);
+
+    //! wait until all workers have finished the current task
+    void waitForWorkers();
 
     //! wrapper method for nice debug printing
     void printString(const std::string& text);
 
     std::vector<std::thread> workerThreads_;
-    std::atomic_bool workersActive_;
-    std::atomic_int workerTask_;
+
+    // current task, its running number and the number of workers that finished it, guarded by workerWakeUpMutex_
+    int workerTask_;
+    size_t taskCount_;
+    size_t workersDone_;
 
     std::mutex workerWakeUpMutex_;
     std::condition_variable workerWakeUpCondition_;
-
-    std::mutex kCompletedMutex_;
-    std::condition_variable kCompletedCondition_;
-
-    std::mutex kCompletedMutexCost_;
-    std::condition_variable kCompletedConditionCost_;
+    std::condition_variable workersDoneCondition_;
 
     std::mutex lineSearchResultMutex_;
-    std::mutex alphaBestFoundMutex_;
-    std::condition_variable alphaBestFoundCondition_;
 
     std::atomic_size_t alphaTaken_;
     size_t alphaMax_;
@@ -131,7 +126,6 @@ private:
     std::vector<size_t> alphaProcessed_;
 
     std::atomic_size_t kTaken_;
-    std::atomic_size_t kCompleted_;
 
     size_t KMax_;
     size_t KMin_;
-- 
2.43.0


From 3e65b64a4d10d3f7bf0eaaf180348df4bc46220f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:39 +0000
Subject: [PATCH 60/67] fix: multi-threaded NLOC line search keeps the largest
 accepted step

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
index 0b9d771..3892e43 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
@@ -426,8 +426,8 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::li
 
         if (stepAccepted)
         {
-            // make sure we do not alter an existing result
-            if (alphaBestFound_)
+            // make sure we do not alter an existing result, and prefer the largest step
+            if (alphaBestFound_ || alphaExp > alphaExpBest_)
             {
                 lineSearchResultMutex_.unlock();
                 break;
-- 
2.43.0


From 9f6f8e62cdfda26a5fcc65c0bbc878a3b5a07d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:12 +0000
Subject: [PATCH 61/67] fix: control simulator integrates the rest of a control
 interval, not the rest of a step ratio

---
 ct_core/include/ct/core/simulation/ControlSimulator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/simulation/ControlSimulator.h b/ct_core/include/ct/core/simulation/ControlSimulator.h
index 156f305..be8b17a 100644
--- a/ct_core/include/ct/core/simulation/ControlSimulator.h
+++ b/ct_core/include/ct/core/simulation/ControlSimulator.h
@@ -115,7 +115,7 @@ protected:
             {
                 integrator.integrate_n_steps(temp_x, sim_time, int(control_dt_ / sim_dt_), sim_dt_);
                 if (residue > 1e-6)
-                    integrator.integrate_n_steps(temp_x, sim_time + int(control_dt_ / sim_dt_) * sim_dt_, 1, residue);
+                    integrator.integrate_n_steps(temp_x, sim_time + int(control_dt_ / sim_dt_) * sim_dt_, 1, residue * sim_dt_);
 
                 if (std::chrono::duration<double>(std::chrono::high_resolution_clock::now() - wall_time).count() >=
                     control_dt_)
-- 
2.43.0


From ae3a33d18ee22da78c746a0eed9e94795b98b3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:12 +0000
Subject: [PATCH 62/67] fix: control simulator thread kept a reference to a
 temporary integration type

---
 ct_core/include/ct/core/simulation/ControlSimulator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/simulation/ControlSimulator.h b/ct_core/include/ct/core/simulation/ControlSimulator.h
index be8b17a..846f9c6 100644
--- a/ct_core/include/ct/core/simulation/ControlSimulator.h
+++ b/ct_core/include/ct/core/simulation/ControlSimulator.h
@@ -81,7 +81,7 @@ public:
         stop_ = false;
         sim_start_time_ = std::chrono::high_resolution_clock::now();
         x_ = x0_;
-        sys_thread_ = std::thread(&ControlSimulator::simulateSystem, this, duration, std::ref(intType));
+        sys_thread_ = std::thread(&ControlSimulator::simulateSystem, this, duration, intType);
         control_thread_ = std::thread(&ControlSimulator::simulateController, this, duration);
     }
 
-- 
2.43.0


From 6a6c06a658b50149d3d2dc8607b7c8a2d75a892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:12 +0000
Subject: [PATCH 63/67] fix: control simulator copy constructor compiles

---
 ct_core/include/ct/core/simulation/ControlSimulator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_core/include/ct/core/simulation/ControlSimulator.h b/ct_core/include/ct/core/simulation/ControlSimulator.h
index 846f9c6..1ebe558 100644
--- a/ct_core/include/ct/core/simulation/ControlSimulator.h
+++ b/ct_core/include/ct/core/simulation/ControlSimulator.h
@@ -55,11 +55,11 @@ public:
 
     //! copy constructor
     ControlSimulator(const ControlSimulator& arg)
-        : sim_dt_(arg.sim_dt_), control_dt_(arg.control_dt_), x0_(arg.x0_), stop_(arg.stop_)
+        : sim_dt_(arg.sim_dt_), control_dt_(arg.control_dt_), x0_(arg.x0_), stop_(false), verbose_(arg.verbose_)
     {
         if (!arg.system_)
             return;
-        system_ = std::shared_ptr<Controller<STATE_DIM, CONTROL_DIM, SCALAR>>(arg.system_->clone());
+        system_ = std::shared_ptr<CONTROLLED_SYSTEM>(arg.system_->clone());
         if (arg.controller_)
         {
             controller_ = std::shared_ptr<Controller<STATE_DIM, CONTROL_DIM, SCALAR>>(arg.controller_->clone());
-- 
2.43.0


From 141f9430481a53c78c2bffcbc634baae33c85e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:09 +0000
Subject: [PATCH 64/67] fix: adaptive steppers use the error tolerances set by
 the user

---
 .../ct/core/integration/internal/StepperBase.h       |  2 +-
 .../ct/core/integration/internal/SteppersODEInt.h    | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/integration/internal/StepperBase.h b/ct_core/include/ct/core/integration/internal/StepperBase.h
index ba57e3c..ccd9400 100644
--- a/ct_core/include/ct/core/integration/internal/StepperBase.h
+++ b/ct_core/include/ct/core/integration/internal/StepperBase.h
@@ -171,7 +171,7 @@ public:
      * @param[in]  absErrTol  The absolute error tolerance
      * @param[in]  relErrTol  The relative error tolerance
      */
-    void setAdaptiveErrorTolerances(const SCALAR absErrTol, const SCALAR& relErrTol)
+    virtual void setAdaptiveErrorTolerances(const SCALAR absErrTol, const SCALAR& relErrTol)
     {
         absErrTol_ = absErrTol;
         relErrTol_ = relErrTol;
diff --git a/ct_core/include/ct/core/integration/internal/SteppersODEInt.h b/ct_core/include/ct/core/integration/internal/SteppersODEInt.h
index 731baa6..8f22bdb 100644
--- a/ct_core/include/ct/core/integration/internal/SteppersODEInt.h
+++ b/ct_core/include/ct/core/integration/internal/SteppersODEInt.h
@@ -118,6 +118,12 @@ public:
         stepperDense_ = boost::numeric::odeint::make_dense_output(this->absErrTol_, this->relErrTol_, stepper_);
     }
 
+    virtual void setAdaptiveErrorTolerances(const SCALAR absErrTol, const SCALAR& relErrTol) override
+    {
+        StepperODEInt<STEPPER, MATRIX, SCALAR>::setAdaptiveErrorTolerances(absErrTol, relErrTol);
+        stepperDense_ = boost::numeric::odeint::make_dense_output(this->absErrTol_, this->relErrTol_, stepper_);
+    }
+
     virtual void integrate_adaptive(const std::function<void(const MATRIX&, MATRIX&, SCALAR)>& rhs,
         MATRIX& state,
         const SCALAR& startTime,
@@ -175,6 +181,12 @@ public:
         stepperControlled_ = boost::numeric::odeint::make_controlled(this->absErrTol_, this->relErrTol_, stepper_);
     }
 
+    virtual void setAdaptiveErrorTolerances(const SCALAR absErrTol, const SCALAR& relErrTol) override
+    {
+        StepperODEInt<STEPPER, MATRIX, SCALAR>::setAdaptiveErrorTolerances(absErrTol, relErrTol);
+        stepperControlled_ = boost::numeric::odeint::make_controlled(this->absErrTol_, this->relErrTol_, stepper_);
+    }
+
     virtual void integrate_adaptive(const std::function<void(const MATRIX&, MATRIX&, SCALAR)>& rhs,
         MATRIX& state,
         const SCALAR& startTime,
-- 
2.43.0


From dde78acae9a811788118b43a9937ee2b2b3b852c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:57 +0000
Subject: [PATCH 65/67] fix: IPOPT multipliers have the size of the constraints
 before the first solve

---
 ct_optcon/include/ct/optcon/nlp/OptVector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/nlp/OptVector.h b/ct_optcon/include/ct/optcon/nlp/OptVector.h
index c0c26df..af26f48 100644
--- a/ct_optcon/include/ct/optcon/nlp/OptVector.h
+++ b/ct_optcon/include/ct/optcon/nlp/OptVector.h
@@ -67,6 +67,8 @@ public:
         zMul_.setZero();
         zState_.resize(m + 1);
         zState_.setZero();
+        lambda_.resize(m);
+        lambda_.setZero();
     }
 
     void reset() { updateCount_ = 0; }
-- 
2.43.0


From 418489faedd18cbd6204576360c547b01ae9b810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:57 +0000
Subject: [PATCH 66/67] fix: reconfiguring the IPOPT interface replaces its
 string options

---
 .../nlp/solver/implementation/IpoptSolver-impl.h   | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/nlp/solver/implementation/IpoptSolver-impl.h b/ct_optcon/include/ct/optcon/nlp/solver/implementation/IpoptSolver-impl.h
index 5161da2..30fcb15 100644
--- a/ct_optcon/include/ct/optcon/nlp/solver/implementation/IpoptSolver-impl.h
+++ b/ct_optcon/include/ct/optcon/nlp/solver/implementation/IpoptSolver-impl.h
@@ -46,19 +46,19 @@ void IpoptSolver<SCALAR>::setSolverOptions()
     // ipoptApp_->Options()->SetNumericValue("resto.tol", settings_.restoTol_);
     // ipoptApp_->Options()->SetNumericValue("acceptable_tol", settings_.acceptableTol_);
     // ipoptApp_->Options()->SetNumericValue("resto.acceptable_tol", settings_.restoAcceptableTol_);
-    ipoptApp_->Options()->SetStringValueIfUnset("linear_scaling_on_demand", settings_.linear_scaling_on_demand_);
-    ipoptApp_->Options()->SetStringValueIfUnset("hessian_approximation", settings_.hessian_approximation_);
-    // ipoptApp_->Options()->SetStringValueIfUnset("nlp_scaling_method", settings_.nlp_scaling_method_);
+    ipoptApp_->Options()->SetStringValue("linear_scaling_on_demand", settings_.linear_scaling_on_demand_);
+    ipoptApp_->Options()->SetStringValue("hessian_approximation", settings_.hessian_approximation_);
+    // ipoptApp_->Options()->SetStringValue("nlp_scaling_method", settings_.nlp_scaling_method_);
     ipoptApp_->Options()->SetIntegerValue("print_level", settings_.printLevel_);  //working now
-    ipoptApp_->Options()->SetStringValueIfUnset("print_user_options", settings_.print_user_options_);
+    ipoptApp_->Options()->SetStringValue("print_user_options", settings_.print_user_options_);
     // ipoptApp_->Options()->SetIntegerValue("print_frequency_iter", settings_.print_frequency_iter_);
-    ipoptApp_->Options()->SetStringValueIfUnset("derivative_test", settings_.derivativeTest_);
+    ipoptApp_->Options()->SetStringValue("derivative_test", settings_.derivativeTest_);
     ipoptApp_->Options()->SetIntegerValue("print_level", settings_.printLevel_);
     ipoptApp_->Options()->SetNumericValue("derivative_test_tol", settings_.derivativeTestTol_);
     ipoptApp_->Options()->SetNumericValue("derivative_test_perturbation", settings_.derivativeTestPerturbation_);
     ipoptApp_->Options()->SetNumericValue("point_perturbation_radius", settings_.point_perturbation_radius_);
-    ipoptApp_->Options()->SetStringValueIfUnset("linear_system_scaling", settings_.linearSystemScaling_);
-    ipoptApp_->Options()->SetStringValueIfUnset("linear_solver", settings_.linear_solver_);
+    ipoptApp_->Options()->SetStringValue("linear_system_scaling", settings_.linearSystemScaling_);
+    ipoptApp_->Options()->SetStringValue("linear_solver", settings_.linear_solver_);
 }
 
 template <typename SCALAR>
-- 
2.43.0


From d3888086b55333486b12dd7f21e0d69e4c1e2b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:36 +0000
Subject: [PATCH 67/67] fix: HPIPM interface takes over bounds and masks of
 every problem

Bounds, index sets and masks were only refreshed when their number changed, so a new
problem with equally many constraints was solved with stale bounds; masked bounds were
overwritten with zero in the given problem and became active when it was set again;
a shrinking horizon left input bounds on the terminal stage.
---
 .../optcon/solver/lqp/HPIPMInterface-impl.hpp | 96 ++++++++++---------
 .../ct/optcon/solver/lqp/HPIPMInterface.hpp   | 12 ++-
 2 files changed, 59 insertions(+), 49 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/solver/lqp/HPIPMInterface-impl.hpp b/ct_optcon/include/ct/optcon/solver/lqp/HPIPMInterface-impl.hpp
index ea11a2a..6ea1448 100644
--- a/ct_optcon/include/ct/optcon/solver/lqp/HPIPMInterface-impl.hpp
+++ b/ct_optcon/include/ct/optcon/solver/lqp/HPIPMInterface-impl.hpp
@@ -442,35 +442,42 @@ bool HPIPMInterface<STATE_DIM, CONTROL_DIM>::configureInputBoxConstraints(
         hubu_.resize(N + 1);
         hlbu_mask_.resize(N + 1);
         hubu_mask_.resize(N + 1);
+        hlbu_Eigen_.resize(N + 1);
+        hubu_Eigen_.resize(N + 1);
         hlbu_mask_Eigen_.resize(N + 1);
         hubu_mask_Eigen_.resize(N + 1);
         configChanged = true;
     }
 
+    nbu_[N] = 0;  // no inputs at the terminal stage, which may have been an intermediate one before
+
     // stages 1 to N
     for (int i = 0; i < N; i++)
     {
         if (nbu_[i] != lqocProblem->nbu_[i])
         {
             nbu_[i] = lqocProblem->nbu_[i];
+            configChanged = true;
+        }
 
-            // set pointers to box constraint boundaries and sparsity pattern
-            hlbu_[i] = lqocProblem->u_lb_[i].data();
-            hubu_[i] = lqocProblem->u_ub_[i].data();
-            hidxbu_[i] = lqocProblem->u_I_[i].data();
+        // the bounds and the sparsity pattern may differ even if their number did not change
+        hlbu_Eigen_[i] = lqocProblem->u_lb_[i].head(nbu_[i]);
+        hubu_Eigen_[i] = lqocProblem->u_ub_[i].head(nbu_[i]);
 
-            // create masks for box constraints
-            hlbu_mask_Eigen_[i] = Eigen::VectorXd(nbu_[i]);
-            hubu_mask_Eigen_[i] = Eigen::VectorXd(nbu_[i]);
-            createConstraintsMasks(
-                nbu_[i], lqocProblem->u_lb_[i], lqocProblem->u_ub_[i], hlbu_mask_Eigen_[i], hubu_mask_Eigen_[i]);
+        // create masks for box constraints
+        hlbu_mask_Eigen_[i] = Eigen::VectorXd(nbu_[i]);
+        hubu_mask_Eigen_[i] = Eigen::VectorXd(nbu_[i]);
+        createConstraintsMasks(
+            nbu_[i], hlbu_Eigen_[i], hubu_Eigen_[i], hlbu_mask_Eigen_[i], hubu_mask_Eigen_[i]);
 
-            // set mask data
-            hlbu_mask_[i] = hlbu_mask_Eigen_[i].data();
-            hubu_mask_[i] = hubu_mask_Eigen_[i].data();
+        // set pointers to box constraint boundaries and sparsity pattern
+        hlbu_[i] = hlbu_Eigen_[i].data();
+        hubu_[i] = hubu_Eigen_[i].data();
+        hidxbu_[i] = lqocProblem->u_I_[i].data();
 
-            configChanged = true;
-        }
+        // set mask data
+        hlbu_mask_[i] = hlbu_mask_Eigen_[i].data();
+        hubu_mask_[i] = hubu_mask_Eigen_[i].data();
     }
 
     return configChanged;
@@ -493,6 +500,8 @@ bool HPIPMInterface<STATE_DIM, CONTROL_DIM>::configureStateBoxConstraints(
         hubx_.resize(N + 1);
         hlbx_mask_.resize(N + 1);
         hubx_mask_.resize(N + 1);
+        hlbx_Eigen_.resize(N + 1);
+        hubx_Eigen_.resize(N + 1);
         hlbx_mask_Eigen_.resize(N + 1);
         hubx_mask_Eigen_.resize(N + 1);
         configChanged = true;
@@ -511,24 +520,27 @@ bool HPIPMInterface<STATE_DIM, CONTROL_DIM>::configureStateBoxConstraints(
         if (nbx_[i] != lqocProblem->nbx_[i])
         {
             nbx_[i] = lqocProblem->nbx_[i];
+            configChanged = true;
+        }
 
-            // set pointers to box constraint boundaries and sparsity pattern
-            hlbx_[i] = lqocProblem->x_lb_[i].data();
-            hubx_[i] = lqocProblem->x_ub_[i].data();
-            hidxbx_[i] = lqocProblem->x_I_[i].data();
+        // the bounds and the sparsity pattern may differ even if their number did not change
+        hlbx_Eigen_[i] = lqocProblem->x_lb_[i].head(nbx_[i]);
+        hubx_Eigen_[i] = lqocProblem->x_ub_[i].head(nbx_[i]);
 
-            // create masks for box constraints
-            hlbx_mask_Eigen_[i] = Eigen::VectorXd(nbx_[i]);
-            hubx_mask_Eigen_[i] = Eigen::VectorXd(nbx_[i]);
-            createConstraintsMasks(
-                nbx_[i], lqocProblem->x_lb_[i], lqocProblem->x_ub_[i], hlbx_mask_Eigen_[i], hubx_mask_Eigen_[i]);
+        // create masks for box constraints
+        hlbx_mask_Eigen_[i] = Eigen::VectorXd(nbx_[i]);
+        hubx_mask_Eigen_[i] = Eigen::VectorXd(nbx_[i]);
+        createConstraintsMasks(
+            nbx_[i], hlbx_Eigen_[i], hubx_Eigen_[i], hlbx_mask_Eigen_[i], hubx_mask_Eigen_[i]);
 
-            // set mask data
-            hlbx_mask_[i] = hlbx_mask_Eigen_[i].data();
-            hubx_mask_[i] = hubx_mask_Eigen_[i].data();
+        // set pointers to box constraint boundaries and sparsity pattern
+        hlbx_[i] = hlbx_Eigen_[i].data();
+        hubx_[i] = hubx_Eigen_[i].data();
+        hidxbx_[i] = lqocProblem->x_I_[i].data();
 
-            configChanged = true;
-        }
+        // set mask data
+        hlbx_mask_[i] = hlbx_mask_Eigen_[i].data();
+        hubx_mask_[i] = hubx_mask_Eigen_[i].data();
     }
 
     return configChanged;
@@ -549,6 +561,8 @@ bool HPIPMInterface<STATE_DIM, CONTROL_DIM>::configureGeneralConstraints(
         hug_.resize(N + 1, 0);
         hlg_mask_.resize(N + 1);
         hug_mask_.resize(N + 1);
+        hlg_Eigen_.resize(N + 1);
+        hug_Eigen_.resize(N + 1);
         hlg_mask_Eigen_.resize(N + 1);
         hug_mask_Eigen_.resize(N + 1);
         hC_.resize(N + 1);
@@ -557,10 +571,6 @@ bool HPIPMInterface<STATE_DIM, CONTROL_DIM>::configureGeneralConstraints(
     }
 
 
-    // HPIPM-specific correction for first-stage general constraint bounds
-    hd_lg_0_Eigen_ = lqocProblem->d_lb_[0];  // - lqocProblem->C_[0] * x0; // uncommented since x0=0
-    hd_ug_0_Eigen_ = lqocProblem->d_ub_[0];  // - lqocProblem->C_[0] * x0; // uncommented since x0=0
-
     for (int i = 0; i < N + 1; i++)  // (includes the terminal stage)
     {
         // get the number of constraints
@@ -579,20 +589,14 @@ bool HPIPMInterface<STATE_DIM, CONTROL_DIM>::configureGeneralConstraints(
         hlg_mask_Eigen_[i] = Eigen::VectorXd(ng_[i]);
         hug_mask_Eigen_[i] = Eigen::VectorXd(ng_[i]);
 
-        // set pointers to hpipm-style box constraint boundaries and sparsity pattern
-        if (i == 0)
-        {
-            hlg_[i] = hd_lg_0_Eigen_.data();
-            hug_[i] = hd_ug_0_Eigen_.data();
-            createConstraintsMasks(ng_[i], hd_lg_0_Eigen_, hd_ug_0_Eigen_, hlg_mask_Eigen_[i], hug_mask_Eigen_[i]);
-        }
-        else
-        {
-            hlg_[i] = lqocProblem->d_lb_[i].data();
-            hug_[i] = lqocProblem->d_ub_[i].data();
-            createConstraintsMasks(
-                ng_[i], lqocProblem->d_lb_[i], lqocProblem->d_ub_[i], hlg_mask_Eigen_[i], hug_mask_Eigen_[i]);
-        }
+        // note: in the first stage, the bounds need no correction by C_[0] * x0, since x0=0
+        hlg_Eigen_[i] = lqocProblem->d_lb_[i];
+        hug_Eigen_[i] = lqocProblem->d_ub_[i];
+        createConstraintsMasks(ng_[i], hlg_Eigen_[i], hug_Eigen_[i], hlg_mask_Eigen_[i], hug_mask_Eigen_[i]);
+
+        // set pointers to hpipm-style constraint boundaries
+        hlg_[i] = hlg_Eigen_[i].data();
+        hug_[i] = hug_Eigen_[i].data();
 
         // first-order constraint derivative data
         hC_[i] = lqocProblem->C_[i].data();
diff --git a/ct_optcon/include/ct/optcon/solver/lqp/HPIPMInterface.hpp b/ct_optcon/include/ct/optcon/solver/lqp/HPIPMInterface.hpp
index 8ed22ff..12b7d0a 100644
--- a/ct_optcon/include/ct/optcon/solver/lqp/HPIPMInterface.hpp
+++ b/ct_optcon/include/ct/optcon/solver/lqp/HPIPMInterface.hpp
@@ -205,6 +205,12 @@ private:
     std::vector<Eigen::VectorXd, Eigen::aligned_allocator<Eigen::VectorXd>> hlbu_mask_Eigen_;
     std::vector<Eigen::VectorXd, Eigen::aligned_allocator<Eigen::VectorXd>> hubu_mask_Eigen_;
 
+    // containers for box constraint bounds (masked bounds are set to zero here, not in the given problem)
+    std::vector<Eigen::VectorXd, Eigen::aligned_allocator<Eigen::VectorXd>> hlbx_Eigen_;
+    std::vector<Eigen::VectorXd, Eigen::aligned_allocator<Eigen::VectorXd>> hubx_Eigen_;
+    std::vector<Eigen::VectorXd, Eigen::aligned_allocator<Eigen::VectorXd>> hlbu_Eigen_;
+    std::vector<Eigen::VectorXd, Eigen::aligned_allocator<Eigen::VectorXd>> hubu_Eigen_;
+
     std::vector<int*> hidxbx_;  //! pointer to sparsity pattern for box constraints in x
     std::vector<int*> hidxbu_;  //! pointer to sparsity pattern for box constraints in u
 
@@ -221,9 +227,9 @@ private:
     std::vector<Eigen::VectorXd, Eigen::aligned_allocator<Eigen::VectorXd>> hlg_mask_Eigen_;
     std::vector<Eigen::VectorXd, Eigen::aligned_allocator<Eigen::VectorXd>> hug_mask_Eigen_;
 
-    //  local vars for constraint bounds for statge k=0, which need to be different by HPIPM convention
-    Eigen::VectorXd hd_lg_0_Eigen_;
-    Eigen::VectorXd hd_ug_0_Eigen_;
+    // containers for general constraint bounds (masked bounds are set to zero here, not in the given problem)
+    std::vector<Eigen::VectorXd, Eigen::aligned_allocator<Eigen::VectorXd>> hlg_Eigen_;
+    std::vector<Eigen::VectorXd, Eigen::aligned_allocator<Eigen::VectorXd>> hug_Eigen_;
 
     std::vector<double*> hZl_;  // todo what are those quantities? (related to soft constraints?)
     std::vector<double*> hZu_;
-- 
2.43.0

