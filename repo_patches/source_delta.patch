From c90e36012600d3b72f135a1dd43aa99a23441b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:20 +0000
Subject: [PATCH 01/17] fix: DDP must not report success from NaN gains

std::max(k_rel_norm, NaN) keeps k_rel_norm, so NaN feedforward terms gave a
relative norm of zero and solve() returned true.
---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index a34bc82..f6a5209 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -1,6 +1,7 @@
 /* Author: Masaki Murooka */
 
 #include <chrono>
+#include <cmath>
 #include <fstream>
 #include <iostream>
 
@@ -217,7 +218,16 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
   double k_rel_norm = 0;
   for(int i = 0; i < config_.horizon_steps; i++)
   {
-    k_rel_norm = std::max(k_rel_norm, k_list_[i].norm() / (control_data_.u_list[i].norm() + 1.0));
+    double k_rel_norm_i = k_list_[i].norm() / (control_data_.u_list[i].norm() + 1.0);
+    // Negate the comparison so that NaN is propagated (std::max would discard it)
+    if(!(k_rel_norm_i <= k_rel_norm))
+    {
+      k_rel_norm = k_rel_norm_i;
+      if(std::isnan(k_rel_norm))
+      {
+        break;
+      }
+    }
   }
   trace_data.k_rel_norm = k_rel_norm;
   if(k_rel_norm < config_.k_rel_norm_thre && lambda_ < config_.lambda_thre)
-- 
2.43.0


From dd8f7a61a1ab3a0e2786a0a3e8c6fde5e279e114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:59 +0000
Subject: [PATCH 02/17] fix: DDP trace of an iteration that returns early

The trace entry of an iteration ending by small gradient or by a backward
failure was left with cost, lambda and dlambda equal to zero.
---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index f6a5209..46cd390 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -201,6 +201,9 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
           std::cout << "[DDP/Backward] Failure due to large lambda. (time: " << current_t_ << ", iter: " << iter << ")"
                     << std::endl;
         }
+        trace_data.cost = control_data_.cost_list.sum();
+        trace_data.lambda = lambda_;
+        trace_data.dlambda = dlambda_;
         return -1; // Failure
       }
       if(config_.print_level >= 3)
@@ -237,6 +240,9 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
       std::cout << "[DDP] Terminate due to small gradient. (time: " << current_t_ << ", iter: " << iter << ")"
                 << std::endl;
     }
+    trace_data.cost = control_data_.cost_list.sum();
+    trace_data.lambda = lambda_;
+    trace_data.dlambda = dlambda_;
     return 1; // Terminate
   }
 
-- 
2.43.0


From ea87a56568b9b5290610924b29fcabfc553f481b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:59 +0000
Subject: [PATCH 03/17] fix: DDP with input constraint keeps inputs within
 limits

The feedback term of the forward pass could push inputs beyond the limits
that the box QP imposes on the feedforward term only.
---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index 46cd390..227280d 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -561,10 +561,17 @@ void DDPSolver<StateDim, InputDim>::forwardPass(double alpha)
     candidate_control_data_.u_list[i] = control_data_.u_list[i] + alpha * k_list_[i]
                                         + K_list_[i] * (candidate_control_data_.x_list[i] - control_data_.x_list[i]);
 
-    // \todo Impose constraints on input
+    double t = current_t_ + i * problem_->dt();
+
+    // Impose constraints on input
+    if(config_.with_input_constraint && candidate_control_data_.u_list[i].size() > 0)
+    {
+      const auto & u_limits = input_limits_func_(t);
+      candidate_control_data_.u_list[i] =
+          candidate_control_data_.u_list[i].cwiseMin(u_limits[1]).cwiseMax(u_limits[0]).eval();
+    }
 
     // Calculate next state and cost
-    double t = current_t_ + i * problem_->dt();
     candidate_control_data_.x_list[i + 1] =
         problem_->stateEq(t, candidate_control_data_.x_list[i], candidate_control_data_.u_list[i]);
     candidate_control_data_.cost_list[i] =
-- 
2.43.0


From 5658b8d4b888dc635d9ea7c5c84d621419285384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:59 +0000
Subject: [PATCH 04/17] fix: DDP prints nothing at print level 0

The box QP solver kept its own default print level, and the warning in the
forward pass was printed at every level.
---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index 227280d..ec33760 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -266,7 +266,7 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
       cost_update_ratio = cost_update_actual / cost_update_expected;
       if(cost_update_expected < 0)
       {
-        if((!config_.with_input_constraint && config_.print_level >= 0)
+        if((!config_.with_input_constraint && config_.print_level >= 1)
            || (config_.with_input_constraint && config_.print_level >= 2))
         {
           std::cout << "[DDP/Forward] Value is not expected to decrease." << std::endl;
@@ -483,6 +483,7 @@ bool DDPSolver<StateDim, InputDim>::backwardPass()
         }
 
         BoxQP<Eigen::Dynamic> qp(static_cast<int>(Quu_F.cols()));
+        qp.config().print_level = config_.print_level;
         const auto & u_limits = input_limits_func_(t);
         k = qp.solve(Quu_F, Qu, u_limits[0] - control_data_.u_list[i], u_limits[1] - control_data_.u_list[i],
                      initial_k);
-- 
2.43.0


From 7ebbe30e9715413f1bc9cbc94539f8bc3f15b690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:59 +0000
Subject: [PATCH 05/17] fix: FMPC checks variables before initializing
 complementarity

With init_complementary_variable, sequences that are too short were accessed
out of range, and inputs of wrong dimension were passed to the problem, before
checkVariable() could reject them.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h   |  5 ++++-
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 16 ++++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h
index e529562..c6acde2 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h
@@ -345,9 +345,12 @@ public:
   void dumpTraceDataList(const std::string & file_path) const;
 
 protected:
-  /** \brief Check optimization variables. */
+  /** \brief Check sequence lengths and input dimension of optimization variables. */
   void checkVariable() const;
 
+  /** \brief Check dimension and sign of complementarity variables. */
+  void checkComplementaryVariable() const;
+
   /** \brief Process one iteration.
       \param iter current iteration
       \return result status
diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 42503b1..bf0de44 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -168,6 +168,9 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
   variable_ = initial_variable;
   variable_.print_level = config_.print_level;
 
+  // Check variable_
+  checkVariable();
+
   // Initialize complementarity variables
   if(config_.init_complementary_variable)
   {
@@ -187,8 +190,8 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
     }
   }
 
-  // Check variable_
-  checkVariable();
+  // Check complementarity variables
+  checkComplementaryVariable();
 
   // Setup delta_variable_
   if(delta_variable_.horizon_steps != config_.horizon_steps)
@@ -325,6 +328,15 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::checkVariable() const
                                  + ", time: " + std::to_string(t));
       }
     }
+  }
+}
+
+template<int StateDim, int InputDim, int IneqDim>
+void FmpcSolver<StateDim, InputDim, IneqDim>::checkComplementaryVariable() const
+{
+  // Check element dimension
+  for(int i = 0; i < config_.horizon_steps; i++)
+  {
     if constexpr(IneqDim == Eigen::Dynamic)
     {
       double t = current_t_ + i * problem_->dt();
-- 
2.43.0


From 173fd2678e60b17a15891490690d084ab2c947c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:59 +0000
Subject: [PATCH 06/17] fix: FMPC terminal coefficient has no uninitialized
 members

containsNaN() inspects all members, so with fixed dimensions stale memory that
happened to hold NaN or infinity made solve() return ErrorInBackward.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index bf0de44..0783382 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -122,6 +122,20 @@ FmpcSolver<StateDim, InputDim, IneqDim>::Coefficient::Coefficient(int state_dim,
 template<int StateDim, int InputDim, int IneqDim>
 FmpcSolver<StateDim, InputDim, IneqDim>::Coefficient::Coefficient(int state_dim)
 {
+  // Members not used in the terminal step are also checked in containsNaN(), so they must have definite values
+  A.setZero();
+  B.setZero();
+  C.setZero();
+  D.setZero();
+  Lu.setZero();
+  Luu.setZero();
+  Lxu.setZero();
+  x_bar.setZero();
+  g_bar.setZero();
+  Lu_bar.setZero();
+  k.setZero();
+  K.setZero();
+
   Lx.resize(state_dim);
   Lxx.resize(state_dim, state_dim);
   Lx_bar.resize(state_dim);
-- 
2.43.0


From 163352f4033be91e253bab5098c3d9c6b9cbfd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:59 +0000
Subject: [PATCH 07/17] fix: FMPC handles steps without inequality constraints

minCoeff()/maxCoeff() were called on empty vectors, and the barrier parameter
became NaN if there were no inequality constraints in the whole horizon.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 0783382..b790974 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -405,19 +405,20 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
   {
     // (19.19) in "Nocedal, Wright. Numerical optimization"
     double s_nu_ave = 0.0;
-    double s_nu_min = std::numeric_limits<double>::max();
     int total_ineq_dim = 0;
     for(int i = 0; i < config_.horizon_steps; i++)
     {
       s_nu_ave += variable_.s_list[i].dot(variable_.nu_list[i]);
-      s_nu_min = std::min(s_nu_min, variable_.s_list[i].cwiseProduct(variable_.nu_list[i]).minCoeff());
       total_ineq_dim += static_cast<int>(variable_.s_list[i].size());
     }
-    s_nu_ave /= total_ineq_dim;
+    if(total_ineq_dim > 0)
+    {
+      s_nu_ave /= total_ineq_dim;
+    }
 
     double sigma = 0.5;
     // The following equations follow (19.20) in "Nocedal, Wright. Numerical optimization" but does not work
-    // double xi = s_nu_min / s_nu_ave;
+    // double xi = s_nu_min / s_nu_ave; // where s_nu_min is the minimum of all elements of s * nu
     // double sigma = 0.1 * std::pow(std::min(0.05 * (1.0 - xi) / xi, 2.0), 3);
     constexpr double barrier_eps_min = 1e-8;
     constexpr double barrier_eps_max = 1e6;
@@ -935,7 +936,7 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::setupMeritFunc()
     {
       merit_const_scale_ = std::max(merit_const_scale_, variable_.lambda_list[i].cwiseAbs().maxCoeff());
 
-      if(i < config_.horizon_steps)
+      if(i < config_.horizon_steps && variable_.nu_list[i].size() > 0)
       {
         merit_const_scale_ = std::max(merit_const_scale_, variable_.nu_list[i].cwiseAbs().maxCoeff());
       }
-- 
2.43.0


From 4a0e4e242a74b1b0c218fc6c8835fff72d1219a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:59 +0000
Subject: [PATCH 08/17] fix: FMPC with dynamic inequality dimension compiles

Identity() without size is not available for dynamic matrices.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index b790974..2eec4bd 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -913,7 +913,7 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::setupMeritFunc()
       merit_func_const += const_func.template lpNorm<1>();
       merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.C, delta_x);
       merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.D, delta_u);
-      merit_deriv_const += l1NormDirectionalDeriv(const_func, IneqIneqDimMatrix::Identity().eval(), delta_s);
+      merit_deriv_const += l1NormDirectionalDeriv(const_func, IneqIneqDimMatrix::Identity(s.size(), s.size()).eval(), delta_s);
     }
   }
 
-- 
2.43.0


From 2365a73adadf111eea41a6506f75f59dab18988c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:59 +0000
Subject: [PATCH 09/17] fix: FMPC follows print level changes between solves

The print level of delta_variable_ was refreshed only when the horizon changed.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 2eec4bd..a22ab46 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -211,8 +211,8 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
   if(delta_variable_.horizon_steps != config_.horizon_steps)
   {
     delta_variable_ = Variable(config_.horizon_steps);
-    delta_variable_.print_level = config_.print_level;
   }
+  delta_variable_.print_level = config_.print_level;
 
   // Setup coeff_list_
   if constexpr(InputDim == Eigen::Dynamic || IneqDim == Eigen::Dynamic)
-- 
2.43.0


From 3bcf5f50b580c7b701b7031a57655b0f34abcb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:59 +0000
Subject: [PATCH 10/17] fix: FMPC prints the result of a solve without
 iterations

With max_iter of zero, the last element of the empty trace list was accessed.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index a22ab46..08b8c87 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -267,7 +267,7 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
   if(config_.print_level >= 3)
   {
     std::cout << "[FMPC] Solve finised. status: " << static_cast<int>(status)
-              << ", iter: " << trace_data_list_.back().iter << std::endl;
+              << ", iter: " << trace_data_list_.size() << std::endl;
   }
 
   return status;
-- 
2.43.0


From 4ce5536aa45d5d50fa95d022c9f4b04a21033675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:50 +0000
Subject: [PATCH 11/17] fix: DDP does not accept a costlier step when no
 decrease is expected

With a scale for which the expected cost decrease vanishes (e.g. 2 times the
full step without regularization), the ratio of actual to expected decrease was
infinite and an arbitrarily costlier trajectory was accepted.
---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index ec33760..0680429 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -264,7 +264,7 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
       cost_update_actual = control_data_.cost_list.sum() - candidate_control_data_.cost_list.sum();
       cost_update_expected = -1 * alpha * (dV_[0] + alpha * dV_[1]);
       cost_update_ratio = cost_update_actual / cost_update_expected;
-      if(cost_update_expected < 0)
+      if(cost_update_expected <= 0)
       {
         if((!config_.with_input_constraint && config_.print_level >= 1)
            || (config_.with_input_constraint && config_.print_level >= 2))
-- 
2.43.0


From c3b036ac592d7a025570921d01ca16f5b83923b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:40 +0000
Subject: [PATCH 12/17] fix: BoxQP free indices belong to the returned point

When the improvement was below the threshold, the loop ended before the clamped
dimensions were updated for the point just accepted. The free indices (used for
the feedback gain of DDP) then contained dimensions which are held at a limit.
---
 nmpc_ddp/include/nmpc_ddp/BoxQP.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/BoxQP.h b/nmpc_ddp/include/nmpc_ddp/BoxQP.h
index 0b42fa5..37e730e 100644
--- a/nmpc_ddp/include/nmpc_ddp/BoxQP.h
+++ b/nmpc_ddp/include/nmpc_ddp/BoxQP.h
@@ -172,14 +172,6 @@ public:
       auto & trace_data = trace_data_list_.back();
       trace_data.iter = iter;
 
-      // Check relative improvement
-      if(iter > 1 && (old_obj - obj) < config_.rel_improve_thre * std::abs(old_obj))
-      {
-        retval_ = 4;
-        break;
-      }
-      old_obj = obj;
-
       // Calculate gradient
       grad = g + H * x;
 
@@ -212,6 +204,16 @@ public:
         break;
       }
 
+      // Check relative improvement
+      // (unless clamped has changed, because the factorization does not correspond to the free indices then)
+      if(iter > 1 && (clamped_flag == old_clamped_flag).all()
+         && (old_obj - obj) < config_.rel_improve_thre * std::abs(old_obj))
+      {
+        retval_ = 4;
+        break;
+      }
+      old_obj = obj;
+
       // Factorize if clamped has changed
       if(iter == 1 || (clamped_flag != old_clamped_flag).any())
       {
-- 
2.43.0


From 455fb4a9eed470402d8abfa075d84e6bd93450d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:08 +0000
Subject: [PATCH 13/17] fix: BoxQP line search is not misled by rounding of the
 objective

The Armijo test subtracted two objective values. For a point closer to a limit
than the objective value can resolve, no step was accepted, and the dimension
stayed free although it is held at the limit.
---
 nmpc_ddp/include/nmpc_ddp/BoxQP.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/BoxQP.h b/nmpc_ddp/include/nmpc_ddp/BoxQP.h
index 37e730e..ccf01c6 100644
--- a/nmpc_ddp/include/nmpc_ddp/BoxQP.h
+++ b/nmpc_ddp/include/nmpc_ddp/BoxQP.h
@@ -293,11 +293,17 @@ public:
       }
 
       // Armijo linesearch
+      // (the objective update is calculated from the displacement because it can be far smaller than the rounding error
+      // of the objective value, e.g., when x is very close to the limits)
+      auto calcObjUpdate = [&](const VarDimVector & x_new) -> double {
+        VarDimVector x_diff = x_new - x;
+        return x_diff.dot(grad) + 0.5 * x_diff.dot(H * x_diff);
+      };
       double step = 1;
       int step_num = 0;
       VarDimVector x_candidate = (x + step * search_dir).cwiseMin(upper).cwiseMax(lower);
       double obj_candidate = x_candidate.dot(g) + 0.5 * x_candidate.dot(H * x_candidate);
-      while((obj_candidate - old_obj) / (step * search_dir_grad) < config_.armijo_param)
+      while(calcObjUpdate(x_candidate) / (step * search_dir_grad) < config_.armijo_param)
       {
         step = step * config_.step_factor;
         step_num++;
-- 
2.43.0


From 6836b2f86da3cf452c473c426c0af460f2c0ede5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:15 +0000
Subject: [PATCH 14/17] fix: BoxQP does not take a shortened step for
 convergence

---
 nmpc_ddp/include/nmpc_ddp/BoxQP.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/BoxQP.h b/nmpc_ddp/include/nmpc_ddp/BoxQP.h
index ccf01c6..4cd9a63 100644
--- a/nmpc_ddp/include/nmpc_ddp/BoxQP.h
+++ b/nmpc_ddp/include/nmpc_ddp/BoxQP.h
@@ -163,6 +163,7 @@ public:
     VarDimVector grad = VarDimVector::Zero(var_dim_);
     VarDimArray clamped_flag = VarDimArray::Zero(var_dim_);
     VarDimArray old_clamped_flag = clamped_flag;
+    bool step_shortened = false;
     int iter = 1;
     free_idxs_.clear();
     for(;; iter++)
@@ -205,8 +206,9 @@ public:
       }
 
       // Check relative improvement
-      // (unless clamped has changed, because the factorization does not correspond to the free indices then)
-      if(iter > 1 && (clamped_flag == old_clamped_flag).all()
+      // (unless clamped has changed, because the factorization does not correspond to the free indices then, or the
+      // improvement is small only because the step was shortened, e.g., when x is very close to the limits)
+      if(iter > 1 && !step_shortened && (clamped_flag == old_clamped_flag).all()
          && (old_obj - obj) < config_.rel_improve_thre * std::abs(old_obj))
       {
         retval_ = 4;
@@ -333,6 +335,7 @@ public:
       trace_data.step_num = step_num;
 
       // Accept candidate
+      step_shortened = (step_num > 0 && step >= config_.min_step);
       x = x_candidate;
       obj = obj_candidate;
 
-- 
2.43.0


From cc8b78d153c8437513e8223247d814f6e679c48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:29 +0000
Subject: [PATCH 15/17] fix: GMRES stops when the Krylov subspace is exhausted

---
 nmpc_cgmres/include/nmpc_cgmres/Gmres.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nmpc_cgmres/include/nmpc_cgmres/Gmres.h b/nmpc_cgmres/include/nmpc_cgmres/Gmres.h
index 2c908c3..0faee16 100644
--- a/nmpc_cgmres/include/nmpc_cgmres/Gmres.h
+++ b/nmpc_cgmres/include/nmpc_cgmres/Gmres.h
@@ -4,6 +4,7 @@
 
 #include <functional>
 #include <iostream>
+#include <limits>
 #include <memory>
 #include <vector>
 
@@ -84,6 +85,10 @@ public:
     g_(0) = rho;
 
     double b_norm = b.norm();
+    // A residual of the order of the rounding error means that the Krylov subspace is exhausted, in which case the next
+    // basis cannot be calculated
+    double rho_round = 10.0 * static_cast<double>(x.size()) * std::numeric_limits<double>::epsilon() * rho;
+    double rho_thre = std::max(eps * b_norm, rho_round);
     H_.setZero(k_max + 1, k_max);
     err_list_.push_back(rho);
 
@@ -91,7 +96,7 @@ public:
     Eigen::VectorXd y_k;
     std::vector<double> c_list;
     std::vector<double> s_list;
-    while(rho > eps * b_norm && k < k_max)
+    while(rho > rho_thre && k < k_max)
     {
       // (a).
       // note that k is 1 in the first iteration
-- 
2.43.0


From 9c9591e093e118c9f46cb792491f5a0eb9f7747c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:58 +0000
Subject: [PATCH 16/17] fix: FMPC merit function uses the directional
 derivative of the total constraint change

The L1-norm's directional derivative is not additive where a residual component is exactly zero; adding the derivatives for the state, input and slack parts separately overestimated the slope and the line search accepted steps that increase the merit function.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 08b8c87..6cc3794 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -902,18 +902,18 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::setupMeritFunc()
     {
       StateDimVector const_func = problem_->stateEq(t, x, u) - next_x;
       merit_func_const += const_func.template lpNorm<1>();
-      merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.A, delta_x);
-      merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.B, delta_u);
+      // The directional derivative of the L1-norm is not additive where const_func is zero, so sum up the changes first
+      StateDimVector delta_const_func = coeff.A * delta_x + coeff.B * delta_u - delta_next_x;
       merit_deriv_const +=
-          l1NormDirectionalDeriv(const_func, (-1 * StateStateDimMatrix::Identity()).eval(), delta_next_x);
+          l1NormDirectionalDeriv(const_func, StateStateDimMatrix::Identity().eval(), delta_const_func);
     }
 
     {
       IneqDimVector const_func = problem_->ineqConst(t, x, u) + s;
       merit_func_const += const_func.template lpNorm<1>();
-      merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.C, delta_x);
-      merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.D, delta_u);
-      merit_deriv_const += l1NormDirectionalDeriv(const_func, IneqIneqDimMatrix::Identity(s.size(), s.size()).eval(), delta_s);
+      IneqDimVector delta_const_func = coeff.C * delta_x + coeff.D * delta_u + delta_s;
+      merit_deriv_const +=
+          l1NormDirectionalDeriv(const_func, IneqIneqDimMatrix::Identity(s.size(), s.size()).eval(), delta_const_func);
     }
   }
 
-- 
2.43.0


From 9979d3e4c84df386c8b822b78e9492cd141a2f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:51 +0000
Subject: [PATCH 17/17] fix: initialise the gains of FMPC coefficients

A solve whose first iteration finds the KKT condition fulfilled does not run a
backward pass, so the gains accessible via coeffList() were uninitialised.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 6cc3794..de9776c 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -113,10 +113,11 @@ FmpcSolver<StateDim, InputDim, IneqDim>::Coefficient::Coefficient(int state_dim,
   Lx_bar.resize(state_dim);
   Lu_bar.resize(input_dim);
 
-  k.resize(input_dim);
-  K.resize(input_dim, state_dim);
-  s.resize(state_dim);
-  P.resize(state_dim, state_dim);
+  // Gains are not calculated if the KKT condition is satisfied from the beginning, but can be accessed via coeffList()
+  k.setZero(input_dim);
+  K.setZero(input_dim, state_dim);
+  s.setZero(state_dim);
+  P.setZero(state_dim, state_dim);
 }
 
 template<int StateDim, int InputDim, int IneqDim>
@@ -140,8 +141,8 @@ FmpcSolver<StateDim, InputDim, IneqDim>::Coefficient::Coefficient(int state_dim)
   Lxx.resize(state_dim, state_dim);
   Lx_bar.resize(state_dim);
 
-  s.resize(state_dim);
-  P.resize(state_dim, state_dim);
+  s.setZero(state_dim);
+  P.setZero(state_dim, state_dim);
 }
 
 template<int StateDim, int InputDim, int IneqDim>
-- 
2.43.0

