From 74c5126df9096d36dea19439997c285c157cd9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 01/24] fix: accept every slice inside the horizon and reject
 negative starts

---
 include/mpc/IMPC.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/IMPC.hpp b/include/mpc/IMPC.hpp
index 071beb9..b485572 100644
--- a/include/mpc/IMPC.hpp
+++ b/include/mpc/IMPC.hpp
@@ -255,7 +255,7 @@ namespace mpc
          */
         bool isPredictionHorizonSliceValid(const HorizonSlice& slice)
         {
-            if (slice.start >= slice.end || slice.start > (int)ph() || slice.end > (int)ph() || slice.start + slice.end > (int)ph())
+            if (slice.start < 0 || slice.start >= slice.end || slice.end > (int)ph())
             {
                 Logger::instance().log(Logger::log_type::ERROR) << "The prediction horizon slice is out of bounds" << std::endl;
                 return false;
@@ -273,7 +273,7 @@ namespace mpc
          */
         bool isControlHorizonSliceValid(const HorizonSlice &slice)
         {
-            if (slice.start >= slice.end || slice.start > (int)ch() || slice.end > (int)ch() || slice.start + slice.end > (int)ch())
+            if (slice.start < 0 || slice.start >= slice.end || slice.end > (int)ch())
             {
                 Logger::instance().log(Logger::log_type::ERROR) << "The control horizon slice is out of bounds" << std::endl;
                 return false;
-- 
2.43.0


From 0f78d89b932189d1fccaf2c84874ab8894bad43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 02/24] fix: extend the input bounds past the control horizon
 with its last column

---
 include/mpc/LMPC/ProblemBuilder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 1f3af24..319c562 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -405,8 +405,8 @@ namespace mpc
             // then the last bounds of the control horizon are used to fill the remaining part of the prediction horizon
             if (ch() < ph())
             {
-                minU.block(0, ch(), nu(), ph() - ch()) = UMinMat.col(ch());
-                maxU.block(0, ch(), nu(), ph() - ch()) = UMaxMat.col(ch());
+                minU.block(0, ch(), nu(), ph() - ch()) = UMinMat.col(ch() - 1).replicate(1, ph() - ch());
+                maxU.block(0, ch(), nu(), ph() - ch()) = UMaxMat.col(ch() - 1).replicate(1, ph() - ch());
             }
 
             return buildTimeInvariantTems();
-- 
2.43.0


From 7840071ee7b2259766e9c7c577b3e8d0180b3803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 03/24] fix: pin the command increments from the end of the
 control horizon

---
 include/mpc/LMPC/ProblemBuilder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 319c562..cfef434 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -781,8 +781,8 @@ namespace mpc
 
             for (size_t i = 0; i < ph(); i++)
             {
-                minDeltaU = (i > ch()) ? 0.0 : -inf;
-                maxDeltaU = (i > ch()) ? 0.0 : inf;
+                minDeltaU = (i >= ch()) ? 0.0 : -inf;
+                maxDeltaU = (i >= ch()) ? 0.0 : inf;
 
                 lineq.middleRows(
                     (((ph() + 1) * (nu() + nx())) + ((ph() + 1) * ny())) + (i * nu()),
-- 
2.43.0


From a9dc7ec02a5944e066c2c127efbd379615b70c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 04/24] fix: use the command increment reference of its own
 step

---
 include/mpc/LMPC/ProblemBuilder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index cfef434..1a9c0eb 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -565,14 +565,12 @@ namespace mpc
                 {
                     yRef_ex = yRef.col(0);
                     uRef_ex = uRef.col(0);
-                    deltaURef_ex = deltaURef.col(0);
                     uMeas_ex = uMeas.col(0);
                 }
                 else
                 {
                     yRef_ex = yRef.col(i - 1);
                     uRef_ex = uRef.col(i - 1);
-                    deltaURef_ex = deltaURef.col(i - 1);
                     uMeas_ex = uMeas.col(i - 1);
                 }
 
@@ -589,6 +587,8 @@ namespace mpc
                 // the command increments stop at the last prediction horizon step
                 if (i < ph())
                 {
+                    deltaURef_ex = deltaURef.col(i);
+
                     mpcProblem.q.middleRows(
                         ((ph() + 1) * (nu() + nx())) + (i * nu()),
                         nu()) = -(wDeltaU.col(i).asDiagonal() * deltaURef_ex);
-- 
2.43.0


From 6f6c2f651b508dd812be772d25c299d62fa16f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 05/24] fix: apply the input bounds to the step they refer to

---
 include/mpc/LMPC/ProblemBuilder.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 1a9c0eb..e457a86 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -734,15 +734,17 @@ namespace mpc
 
             for (size_t i = 0; i < ph() + 1; i++)
             {
-                if (i == ph())
+                // the augmented state stores the command of the previous step
+                // hence the bounds of the command k applies to the step k + 1
+                if (i == 0)
                 {
-                    tmpMinU = minU.col(i - 1);
-                    tmpMaxU = maxU.col(i - 1);
+                    tmpMinU = minU.col(0);
+                    tmpMaxU = maxU.col(0);
                 }
                 else
                 {
-                    tmpMinU = minU.col(i);
-                    tmpMaxU = maxU.col(i);
+                    tmpMinU = minU.col(i - 1);
+                    tmpMaxU = maxU.col(i - 1);
                 }
                 eMinX.middleRows(i * (nu() + nx()), (nu() + nx())) << minX.col(i), tmpMinU;
                 eMaxX.middleRows(i * (nu() + nx()), (nu() + nx())) << maxX.col(i), tmpMaxU;
-- 
2.43.0


From 33301b65f275bec8b1d8d63aaafca914d22a34ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 06/24] fix: report inaccurate infeasibility certificates as
 infeasible

---
 include/mpc/LMPC/LOptimizer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index 820d2b2..c967c47 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -398,9 +398,9 @@ namespace mpc
             case OSQP_SOLVED_INACCURATE:
                 return ResultStatus::SUCCESS;
             case OSQP_PRIMAL_INFEASIBLE_INACCURATE:
-                return ResultStatus::SUCCESS;
+                return ResultStatus::INFEASIBLE;
             case OSQP_DUAL_INFEASIBLE_INACCURATE:
-                return ResultStatus::SUCCESS;
+                return ResultStatus::INFEASIBLE;
             case OSQP_SIGINT:
                 return ResultStatus::ERROR;
             case OSQP_TIME_LIMIT_REACHED:
-- 
2.43.0


From 2750eb527b8106003763606ab42d582f0c217981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 07/24] fix: do not free stale osqp data on destruction

---
 include/mpc/LMPC/LOptimizer.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index c967c47..84b262a 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -483,6 +483,7 @@ namespace mpc
         void clearData()
         {
             osqp_cleanup(work);
+            work = nullptr;
 
             if (data)
             {
@@ -495,11 +496,13 @@ namespace mpc
                     csc_spfree(data->P);
                 }
                 c_free(data);
+                data = nullptr;
             }
 
             if (settings)
             {
                 c_free(settings);
+                settings = nullptr;
             }
         }
 
@@ -515,15 +518,15 @@ namespace mpc
             data->A = nullptr;
         }
 
-        OSQPWorkspace *work;
-        OSQPSettings *settings;
-        OSQPData *data;
+        OSQPWorkspace *work = nullptr;
+        OSQPSettings *settings = nullptr;
+        OSQPData *data = nullptr;
         c_int exitflag = 0;
 
         mat<sizer.ny, sizer.ph> outSysRef;
         mat<sizer.nu, sizer.ph> cmdSysRef, deltaCmdSysRef;
         mat<sizer.ndu, sizer.ph> extInputMeas;
 
-        ProblemBuilder<sizer> *builder;
+        ProblemBuilder<sizer> *builder = nullptr;
     };
 } // namespace mpc
-- 
2.43.0


From c673774cc2139488ac0ce0952efc0fccb1fb9f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 08/24] fix: report a failed osqp setup instead of solving
 without a workspace

---
 include/mpc/LMPC/LOptimizer.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index 84b262a..2881bd3 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -264,8 +264,11 @@ namespace mpc
                 Logger::instance().log(Logger::log_type::ERROR) << "Unable to setup " << exitflag << std::endl;
             }
 
+            // without a valid workspace there is no problem to solve
+            const bool ready = exitflag == 0;
+
             // warm starting the solver
-            if (settings->warm_start && optimal_prev_x.size() > 0 && optimal_prev_y.size() > 0)
+            if (ready && settings->warm_start && optimal_prev_x.size() > 0 && optimal_prev_y.size() > 0)
             {
                 exitflag = osqp_warm_start(work, optimal_prev_x.data(), optimal_prev_y.data());
                 if (exitflag > 0)
@@ -273,7 +276,7 @@ namespace mpc
                     Logger::instance().log(Logger::log_type::ERROR) << "Unable to warm start " << exitflag << std::endl;
                 }
             }
-            else
+            else if (ready)
             {
                 // if we choose to use the warm start but we don't have a solution yet we cannot use it
                 // we need to wait to have at least a solution
@@ -281,15 +284,18 @@ namespace mpc
             }
 
             // solve problem
-            exitflag = osqp_solve(work);
-            if (exitflag > 0)
+            if (ready)
             {
-                Logger::instance().log(Logger::log_type::ERROR) << "Unable to solve " << exitflag << std::endl;
+                exitflag = osqp_solve(work);
+                if (exitflag > 0)
+                {
+                    Logger::instance().log(Logger::log_type::ERROR) << "Unable to solve " << exitflag << std::endl;
+                }
             }
 
             // if the solution is valid update the solution otherwise
             // keep the last feasible solution
-            if (work->solution->x != NULL)
+            if (ready && work->solution->x != NULL)
             {
                 // storing the previous optimal primal and dual solution to warm start
                 optimal_prev_x = std::vector<double>(work->solution->x, work->solution->x + numVars);
-- 
2.43.0


From 22f5601b69c921aef1035df5f0ea59df19e06172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 09/24] fix: release the linear optimizer with its controller

---
 include/mpc/LMPC.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/mpc/LMPC.hpp b/include/mpc/LMPC.hpp
index 16f0ff7..601b84d 100644
--- a/include/mpc/LMPC.hpp
+++ b/include/mpc/LMPC.hpp
@@ -60,7 +60,10 @@ namespace mpc
             setDimension(nx, nu, ndu, ny, ph, ch);
         }
 
-        ~LMPC() = default;
+        ~LMPC()
+        {
+            delete optPtr;
+        }
 
         /**
          * @brief (NOT AVAILABLE) Set the discretization time step to use for numerical integration
-- 
2.43.0


From f1da6be662a0fce0b5cf58d39aa26e771157e9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 10/24] fix: validate the exogenous input slice against the
 prediction horizon

---
 include/mpc/LMPC.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/LMPC.hpp b/include/mpc/LMPC.hpp
index 601b84d..71b18df 100644
--- a/include/mpc/LMPC.hpp
+++ b/include/mpc/LMPC.hpp
@@ -570,8 +570,8 @@ namespace mpc
             }
             else
             {
-                // Replicate on segment of the control horizon
-                if(isControlHorizonSliceValid(slice))
+                // Replicate on segment of the prediction horizon
+                if(isPredictionHorizonSliceValid(slice))
                 {
                     bool ret = true;
 
-- 
2.43.0


From 391c6eb26a2785176b28f651282e63c485b1ec10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 11/24] fix: set the step constraints through the available
 builder setters

---
 include/mpc/LMPC.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/mpc/LMPC.hpp b/include/mpc/LMPC.hpp
index 71b18df..55361d9 100644
--- a/include/mpc/LMPC.hpp
+++ b/include/mpc/LMPC.hpp
@@ -339,7 +339,10 @@ namespace mpc
             }
 
             Logger::instance().log(Logger::log_type::DETAIL) << "Setting constraints for the step " << index << std::endl;
-            return builder.setConstraints(index, XMin, UMin, YMin, XMax, UMax, YMax);
+            bool ret = builder.setStateBounds(index, XMin, XMax);
+            ret = ret && builder.setInputBounds(index, UMin, UMax);
+            ret = ret && builder.setOutputBounds(index, YMin, YMax);
+            return ret;
         }
 
         /**
-- 
2.43.0


From 476d7d1f7ab5f54e59f0a05fcf2b5e3013cfdde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 12/24] fix: do not scale the initial condition of the
 predicted trajectory

---
 include/mpc/NLMPC/Mapping.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mpc/NLMPC/Mapping.hpp b/include/mpc/NLMPC/Mapping.hpp
index 600ab01..633f249 100644
--- a/include/mpc/NLMPC/Mapping.hpp
+++ b/include/mpc/NLMPC/Mapping.hpp
@@ -204,7 +204,8 @@ namespace mpc
 
             for (int i = 0; i < Xmat.cols(); i++)
             {
-                Xmat.col(i) /= 1.0 / state_scaling(i);
+                // the initial condition is not part of the optimal vector and it is not scaled
+                Xmat.col(i).bottomRows(ph()) /= 1.0 / state_scaling(i);
             }
 
             // TODO add disturbaces manipulated vars
-- 
2.43.0


From b7e933c13372b84d4fa3eec23e894257000bd5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 13/24] fix: express the initial guess in scaled units

---
 include/mpc/NLMPC/NLOptimizer.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 19453fc..0e33042 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -422,11 +422,15 @@ namespace mpc
                 // the whole optimization vector is initialized with the initial state x0
                 // and the initial control action u0 for the full prediction horizon
                 // this has to be done only for the first iteration or if the warm start is disabled
+                // (the optimization vector is expressed in scaled units)
+                cvec<sizer.nx> state_scaling = mapping->StateScaling();
+                cvec<sizer.nu> input_scaling = mapping->InputScaling();
+
                 for (size_t i = 0; i < ph(); i++)
                 {
                     for (size_t j = 0; j < nx(); j++)
                     {
-                        opt_vector[(i * nx()) + j] = x0(j);
+                        opt_vector[(i * nx()) + j] = x0(j) / state_scaling(j);
                     }
                 }
 
@@ -434,7 +438,7 @@ namespace mpc
                 {
                     for (size_t j = 0; j < nu(); j++)
                     {
-                        opt_vector[(ph() * nx()) + (i * nu()) + j] = u0(j);
+                        opt_vector[(ph() * nx()) + (i * nu()) + j] = u0(j) / input_scaling(j);
                     }
                 }
             }
-- 
2.43.0


From 4cc94fa56c2bb96fed477c776619ee0e332abfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 14/24] fix: apply the scaling to the bounds forwarded to the
 solver

---
 include/mpc/NLMPC/NLOptimizer.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 0e33042..7e1d66a 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -100,6 +100,9 @@ namespace mpc
 
             mapping = map;
             model = sysModel;
+
+            // the scaling may have changed
+            updateBounds();
         }
 
         /**
@@ -641,6 +644,25 @@ namespace mpc
             std::vector<double> lb_vec(lb.data(), lb.data() + lb.rows() * lb.cols());
             std::vector<double> ub_vec(ub.data(), ub.data() + ub.rows() * ub.cols());
 
+            // the bounds are given in the system units while the solver works on the scaled vector
+            if (mapping)
+            {
+                cvec<sizer.nx> state_scaling = mapping->StateScaling();
+                cvec<sizer.nu> input_scaling = mapping->InputScaling();
+
+                for (size_t i = 0; i < ph() * nx(); i++)
+                {
+                    lb_vec[i] /= state_scaling(i % nx());
+                    ub_vec[i] /= state_scaling(i % nx());
+                }
+
+                for (size_t i = 0; i < ch() * nu(); i++)
+                {
+                    lb_vec[(ph() * nx()) + i] /= input_scaling(i % nu());
+                    ub_vec[(ph() * nx()) + i] /= input_scaling(i % nu());
+                }
+            }
+
             innerOpt->set_lower_bounds(lb_vec);
             innerOpt->set_upper_bounds(ub_vec);
 
-- 
2.43.0


From 9162b8c22a7e7e86dc94ad4cfde14de3f73f9a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 15/24] fix: let the time limit be disabled again

---
 include/mpc/NLMPC/NLOptimizer.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 7e1d66a..dfb2d4d 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -139,10 +139,8 @@ namespace mpc
 
             innerOpt->set_x_weights(1.0);
 
-            if (nl_param->time_limit > 0)
-            {
-                innerOpt->set_maxtime(nl_param->time_limit);
-            }
+            // a non positive value disables the time limit
+            innerOpt->set_maxtime(nl_param->time_limit);
 
             innerOpt->set_maxeval(nl_param->maximum_iteration);
 
-- 
2.43.0


From 58bea58cebb125897f1fca20187f79434211e63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 16/24] fix: release the slack variable when the hard
 constraints are disabled

---
 include/mpc/NLMPC/NLOptimizer.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index dfb2d4d..4a4e71a 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -182,6 +182,11 @@ namespace mpc
                 lb[((ph() * nx()) + (nu() * ch()) + 1) - 1] = 0;
                 ub[((ph() * nx()) + (nu() * ch()) + 1) - 1] = 0;
             }
+            else
+            {
+                lb[((ph() * nx()) + (nu() * ch()) + 1) - 1] = -std::numeric_limits<double>::infinity();
+                ub[((ph() * nx()) + (nu() * ch()) + 1) - 1] = std::numeric_limits<double>::infinity();
+            }
 
             enable_warm_start = nl_param->enable_warm_start;
 
-- 
2.43.0


From eb5648a00e86e4c3964f7ac0f296fe1a00da06c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 17/24] fix: apply the state scaling to the objective gradient

---
 include/mpc/NLMPC/Objective.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mpc/NLMPC/Objective.hpp b/include/mpc/NLMPC/Objective.hpp
index d982d3d..65dd6d7 100644
--- a/include/mpc/NLMPC/Objective.hpp
+++ b/include/mpc/NLMPC/Objective.hpp
@@ -114,7 +114,8 @@ namespace mpc
                 {
                     for (int i = 0; i < (int)Jx.rows(); i++)
                     {
-                        c.grad(counter++) = Jx(i, j);
+                        // the optimal vector is expressed in scaled units
+                        c.grad(counter++) = Jx(i, j) * mapping->StateScaling()(i);
                     }
                 }
 
-- 
2.43.0


From c1204c97c2a04bfc8da633a24c1a1ce332b4c232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 18/24] fix: use a representable slack perturbation in the
 finite differences

---
 include/mpc/NLMPC/Constraints.hpp | 2 +-
 include/mpc/NLMPC/Objective.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/NLMPC/Constraints.hpp b/include/mpc/NLMPC/Constraints.hpp
index 6aa4b44..cfe4a13 100644
--- a/include/mpc/NLMPC/Constraints.hpp
+++ b/include/mpc/NLMPC/Constraints.hpp
@@ -706,7 +706,7 @@ namespace mpc
                 }
             }
 
-            double ea = fmax(dv, fabs(e0));
+            double ea = fmax(1.0, fabs(e0));
             double de = ea * dv;
             cvec<sizer.ineq> f1, f2;
             COND_RESIZE_CVEC(sizer, f1, ineq());
diff --git a/include/mpc/NLMPC/Objective.hpp b/include/mpc/NLMPC/Objective.hpp
index 65dd6d7..f732915 100644
--- a/include/mpc/NLMPC/Objective.hpp
+++ b/include/mpc/NLMPC/Objective.hpp
@@ -250,7 +250,7 @@ namespace mpc
                 Jmv(j, (ph() - 1)) = df;
             }
 
-            double ea = fmax(1e-6, abs(e0));
+            double ea = fmax(1.0, fabs(e0));
             double de = ea * dv;
             double f1 = fuser(x0, model->getOutput(x0, u0), u0, e0 + de);
             double f2 = fuser(x0, model->getOutput(x0, u0), u0, e0 - de);
-- 
2.43.0


From 70a958607318787a25db5a10868b64763afc6d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 19/24] fix: perturb the repeated last input row of the
 inequality constraints

---
 include/mpc/NLMPC/Constraints.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/mpc/NLMPC/Constraints.hpp b/include/mpc/NLMPC/Constraints.hpp
index cfe4a13..cc3e279 100644
--- a/include/mpc/NLMPC/Constraints.hpp
+++ b/include/mpc/NLMPC/Constraints.hpp
@@ -688,6 +688,11 @@ namespace mpc
                 {
                     double du = dv * Ua.array()(j);
                     u0(i, j) += du;
+                    if (i == ph() - 1)
+                    {
+                        // the last row repeats the last applied input
+                        u0(ph(), j) += du;
+                    }
                     cvec<sizer.ineq> f_plus, f_minus;
                     COND_RESIZE_CVEC(sizer, f_plus, ineq());
                     COND_RESIZE_CVEC(sizer, f_minus, ineq());
@@ -696,10 +701,18 @@ namespace mpc
                     ieqUser(f_plus, x0, y0_plus, u0, e0);
 
                     u0(i, j) -= 2 * du;
+                    if (i == ph() - 1)
+                    {
+                        u0(ph(), j) -= 2 * du;
+                    }
                     mat<(sizer.ph + 1), sizer.ny> y0_minus = model->getOutput(x0, u0);
                     ieqUser(f_minus, x0, y0_minus, u0, e0);
 
                     u0(i, j) += du;
+                    if (i == ph() - 1)
+                    {
+                        u0(ph(), j) += du;
+                    }
 
                     cvec<sizer.ineq> df = (f_plus - f_minus) / (2 * du);
                     Jconmv.middleCols(i * nu(), nu()).col(j) = df;
-- 
2.43.0


From b29b3de646d87d5a2f849290a29d2009725cab26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 20/24] fix: size the equality tolerances with the runtime
 dimension

---
 include/mpc/NLMPC.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/NLMPC.hpp b/include/mpc/NLMPC.hpp
index 5bbd177..d4e12d4 100644
--- a/include/mpc/NLMPC.hpp
+++ b/include/mpc/NLMPC.hpp
@@ -251,7 +251,7 @@ namespace mpc
             const typename IDimensionable<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)>::EConFunHandle handle, const float tol = 1e-10)
         {
             cvec<Teq> tol_vec;
-            tol_vec = cvec<Teq>::Ones(Size(Teq));
+            tol_vec = cvec<Teq>::Ones(eq());
 
             auto res = conF->setEqConstraints(handle, tol);
             ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindUserEq(constraints_type::UEQ, tol_vec * tol);
-- 
2.43.0


From f212e65dc407131e57973a77d22087f78c087db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 21/24] fix: advance the time between the integration steps

---
 include/mpc/Integrator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mpc/Integrator.hpp b/include/mpc/Integrator.hpp
index 768bedc..280fd68 100644
--- a/include/mpc/Integrator.hpp
+++ b/include/mpc/Integrator.hpp
@@ -46,6 +46,7 @@ public:
             k4 = m_func(t + h, sol + h * k3);
 
             sol += h * (k1 + 2.0 * k2 + 2.0 * k3 + k4) / 6.0;
+            t += h;
         }
 
         return sol;
-- 
2.43.0


From 4d2b1de8721fbe4e24930b043226344efcfc1601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 22/24] fix: respect the operand order in the integer and size
 subtraction

---
 include/mpc/Dim.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/Dim.hpp b/include/mpc/Dim.hpp
index 52f5a26..91d64bc 100644
--- a/include/mpc/Dim.hpp
+++ b/include/mpc/Dim.hpp
@@ -96,7 +96,7 @@ namespace mpc
 
     constexpr Size operator-(const int &v, const Size &w)
     {
-        return Size(make_dimension(w.value - v, Size::is_static(w.value, v)));
+        return Size(make_dimension(v - w.value, Size::is_static(w.value, v)));
     }
 
     constexpr Size operator*(const int &v, const Size &w)
-- 
2.43.0


From 6a02fca0f5cc0a931c000177cadc0d7f17de5781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 23/24] fix: use the output dimension for the discrete
 feedforward matrix

---
 include/mpc/Utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/Utils.hpp b/include/mpc/Utils.hpp
index bf8541c..cf7c7bb 100644
--- a/include/mpc/Utils.hpp
+++ b/include/mpc/Utils.hpp
@@ -109,7 +109,7 @@ template <size_t nx, size_t nu, size_t ny>
 void discretization(
     const mat<nx, nx>& A, const mat<nx, nu>& B,
     const mat<ny, nx>& C, const mat<ny, nu>& D, const double& Ts,
-    mat<nx, nx>& Ad, mat<nx, nu>& Bd, mat<ny, nx>& Cd, mat<nx, nu>& Dd)
+    mat<nx, nx>& Ad, mat<nx, nu>& Bd, mat<ny, nx>& Cd, mat<ny, nu>& Dd)
 {
     // TODO this discretization works only with delay-free systems
     discretization<nx,nu>(A, B, Ts, Ad, Bd);
-- 
2.43.0


From 759fffe131889d3a6d500bd49e38fb226293f063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 24/24] fix: compute the standard deviation of the solution
 time in floating point

---
 include/mpc/Profiler.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/mpc/Profiler.hpp b/include/mpc/Profiler.hpp
index ff3e867..3a4b54b 100644
--- a/include/mpc/Profiler.hpp
+++ b/include/mpc/Profiler.hpp
@@ -221,9 +221,11 @@ namespace mpc
                 }
                 else
                 {
-                    double residual = (stats.numberOfSolutions/(stats.numberOfSolutions - 1)) * (pow(time.count() - stats.averageSolutionTime.count(), 2));
-                    double stdDev_old = (stats.numberOfSolutions - 2) * pow(stats.standardDeviation, 2);
-                    stats.standardDeviation = sqrt((stdDev_old + residual) / (stats.numberOfSolutions - 1));
+                    // incremental update of the (population) standard deviation
+                    double n = stats.numberOfSolutions;
+                    double residual = (n / (n - 1.0)) * pow(time.count() - stats.averageSolutionTime.count(), 2);
+                    double stdDev_old = (n - 1.0) * pow(stats.standardDeviation, 2);
+                    stats.standardDeviation = sqrt((stdDev_old + residual) / n);
                 }
             }
         }
-- 
2.43.0

