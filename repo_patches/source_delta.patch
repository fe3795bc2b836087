From 929d49950eb9a375eb80dc2c55bf77ab8089396b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 01/70] fix: do not pass matrices with invalid numbers to the
 analysis phase of MUMPS

MUMPS may crash when computing a maximum transversal for a matrix with NaN or Inf.
---
 .../LinearSolvers/IpMumpsSolverInterface.cpp         | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Algorithm/LinearSolvers/IpMumpsSolverInterface.cpp b/src/Algorithm/LinearSolvers/IpMumpsSolverInterface.cpp
index 6208936..738efdd 100644
--- a/src/Algorithm/LinearSolvers/IpMumpsSolverInterface.cpp
+++ b/src/Algorithm/LinearSolvers/IpMumpsSolverInterface.cpp
@@ -388,6 +388,18 @@ ESymSolverStatus MumpsSolverInterface::SymbolicFactorization()
                   dbg_verbosity);
    MUMPS_STRUC_C* mumps_data = static_cast<MUMPS_STRUC_C*>(mumps_ptr_);
 
+   // The analysis phase of MUMPS looks at the matrix values (unless mumps_permuting_scaling is 0)
+   // and may access memory out of bounds if some of them are not finite numbers.
+   for( MUMPS_INT i = 0; i < mumps_data->nz; ++i )
+   {
+      if( !IsFiniteNumber(mumps_data->a[i]) )
+      {
+         Jnlst().Printf(J_WARNING, J_LINEAR_ALGEBRA,
+                        "Matrix passed to MUMPS for symbolic factorization contains an invalid number.\n");
+         return SYMSOLVER_FATAL_ERROR;
+      }
+   }
+
 #ifndef IPOPT_MUMPS_NOMUTEX
    const std::lock_guard<std::mutex> lock(mumps_call_mutex);
 #endif
-- 
2.43.0


From 2b581f1dc78e4258b347f5e60bc3f90ee26e94df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 02/70] fix: augment filter with current iterate when
 restoration phase follows failed step computation

In emergency mode, InitThisLineSearch() has not been called for the current iterate,
so that outdated or uninitialized values were added to the filter.
---
 src/Algorithm/IpFilterLSAcceptor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Algorithm/IpFilterLSAcceptor.cpp b/src/Algorithm/IpFilterLSAcceptor.cpp
index bd381a2..1dea195 100644
--- a/src/Algorithm/IpFilterLSAcceptor.cpp
+++ b/src/Algorithm/IpFilterLSAcceptor.cpp
@@ -893,6 +893,10 @@ char FilterLSAcceptor::UpdateForNextIteration(Number alpha_primal_test)
 
 void FilterLSAcceptor::PrepareRestoPhaseStart()
 {
+   // If the search direction could not be computed, then InitThisLineSearch() has not been
+   // called for the current iterate and the reference values are outdated or not set at all.
+   reference_theta_ = IpCq().curr_constraint_violation();
+   reference_barr_ = IpCq().curr_barrier_obj();
    AugmentFilter();
 }
 
-- 
2.43.0


From 97552a7065fc2ccd64af3ca8761abe8ef347530f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 03/70] fix: limited_memory_max_history=0 with BFGS in
 restoration phase

D_ is not available if no history is kept.
---
 src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp b/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
index 662f52e..3c3d0ad 100644
--- a/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
+++ b/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
@@ -384,7 +384,7 @@ void LimMemQuasiNewtonUpdater::UpdateHessian()
 
             bool augment_memory = UpdateInternalData(*s_new, *y_new, ypart_new);
 
-            if( update_for_resto_ )
+            if( update_for_resto_ && limited_memory_max_history_ > 0 )
             {
                Number dmin = D_->Min();
                if( dmin <= 0. )
-- 
2.43.0


From 5dc30227fee24eb057be0c34d95b24ea246fecb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 04/70] fix: do not declare problem infeasible if final point
 of restoration phase is feasible

---
 src/Algorithm/IpRestoMinC_1Nrm.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/IpRestoMinC_1Nrm.cpp b/src/Algorithm/IpRestoMinC_1Nrm.cpp
index 87c96da..6276fcb 100644
--- a/src/Algorithm/IpRestoMinC_1Nrm.cpp
+++ b/src/Algorithm/IpRestoMinC_1Nrm.cpp
@@ -278,7 +278,8 @@ bool MinC_1NrmRestorationPhase::PerformRestoration()
    else if( resto_status == STOP_AT_TINY_STEP || resto_status == STOP_AT_ACCEPTABLE_POINT )
    {
       Number orig_primal_inf = IpCq().curr_primal_infeasibility(NORM_MAX);
-      if( orig_primal_inf <= resto_failure_feasibility_threshold_ )
+      if( orig_primal_inf <= resto_failure_feasibility_threshold_
+          || IpCq().unscaled_curr_nlp_constraint_violation(NORM_MAX) <= Min(IpData().tol(), constr_viol_tol_) )
       {
          Jnlst().Printf(J_WARNING, J_LINE_SEARCH,
                         "Restoration phase converged to a point with small primal infeasibility.\n");
@@ -304,6 +305,15 @@ bool MinC_1NrmRestorationPhase::PerformRestoration()
    }
    else if( resto_status == LOCAL_INFEASIBILITY )
    {
+      // The check for local infeasibility looks at the slacks, too, but the problem must not be
+      // declared to be infeasible if the final point satisfies the constraints.
+      if( IpCq().unscaled_curr_nlp_constraint_violation(NORM_MAX) <= Min(IpData().tol(), constr_viol_tol_) )
+      {
+         THROW_EXCEPTION(RESTORATION_CONVERGED_TO_FEASIBLE_POINT,
+                         "Restoration phase converged to a feasible point that is "
+                         "unacceptable to the filter for the original problem.");
+      }
+
       // converged to locally infeasible point - pass this on to the outer algorithm...
       THROW_EXCEPTION(LOCALLY_INFEASIBLE, "Restoration phase converged to a point of local infeasibility");
    }
-- 
2.43.0


From c3d61d6c55cb6de661878940c096b624e5728886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 05/70] fix: do not look at constraint values after failed
 evaluation

With check_derivatives_for_naninf, the norm of an uninitialized vector was computed.
---
 src/Algorithm/IpOrigIpoptNLP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/IpOrigIpoptNLP.cpp b/src/Algorithm/IpOrigIpoptNLP.cpp
index 0d73b65..09fb0de 100644
--- a/src/Algorithm/IpOrigIpoptNLP.cpp
+++ b/src/Algorithm/IpOrigIpoptNLP.cpp
@@ -580,7 +580,7 @@ SmartPtr<const Vector> OrigIpoptNLP::c(
          timing_statistics_.c_eval_time().End();
          if( !success || !IsFiniteNumber(unscaled_c->Nrm2()) )
          {
-            if( check_derivatives_for_naninf_ && !IsFiniteNumber(unscaled_c->Nrm2()) )
+            if( success && check_derivatives_for_naninf_ )
             {
                jnlst_->Printf(J_WARNING, J_NLP, "The equality constraints contain an invalid number\n");
                unscaled_c->Print(*jnlst_, J_MOREDETAILED, J_MAIN, "unscaled_c");
@@ -629,7 +629,7 @@ SmartPtr<const Vector> OrigIpoptNLP::d(
          DBG_PRINT_VECTOR(2, "unscaled_d", *unscaled_d);
          if( !success || !IsFiniteNumber(unscaled_d->Nrm2()) )
          {
-            if( check_derivatives_for_naninf_ && !IsFiniteNumber(unscaled_d->Nrm2()) )
+            if( success && check_derivatives_for_naninf_ )
             {
                jnlst_->Printf(J_WARNING, J_NLP, "The inequality constraints contain an invalid number\n");
                unscaled_d->Print(*jnlst_, J_MOREDETAILED, J_MAIN, "unscaled_d");
-- 
2.43.0


From ad8372a905d9d3ea3417c5bab706379a8e9e7e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 06/70] fix: do not reuse constraint values after failed
 evaluation

---
 src/Interfaces/IpTNLPAdapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index a782341..0a5a782 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2845,7 +2845,7 @@ bool TNLPAdapter::internal_eval_g(
 
    if( !retval )
    {
-      x_tag_for_jac_g_ = 0;
+      x_tag_for_g_ = 0;
    }
 
    return retval;
-- 
2.43.0


From 4ff306cfbbf9d498a885439968f3374134f17813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 07/70] fix: call TNLP with new_x=true if the point differs
 from the one it was called with before

new_x=false was passed when returning to a point for which only cached values had been used
and after evaluations at perturbed points for finite-difference approximations.
---
 src/Interfaces/IpTNLPAdapter.cpp | 27 +++++++++++++++++++--------
 src/Interfaces/IpTNLPAdapter.hpp |  6 ++++++
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 0a5a782..45f262e 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -55,6 +55,7 @@ TNLPAdapter::TNLPAdapter(
      y_d_tag_for_iterates_(0),
      x_tag_for_g_(0),
      x_tag_for_jac_g_(0),
+     new_x_pending_(true),
      jac_idx_map_(NULL),
      h_idx_map_(NULL),
      x_fixed_map_(NULL),
@@ -1718,6 +1719,7 @@ bool TNLPAdapter::Eval_f(
    {
       new_x = true;
    }
+   new_x_pending_ = false;
    return tnlp_->eval_f(n_full_x_, full_x_, new_x, f);
 }
 
@@ -1742,6 +1744,7 @@ bool TNLPAdapter::Eval_grad_f(
       if( IsValid(P_x_full_x_) )
       {
          Number* full_grad_f = new Number[n_full_x_];
+         new_x_pending_ = false;
          if( tnlp_->eval_grad_f(n_full_x_, full_x_, new_x, full_grad_f) )
          {
             const Index* x_pos = P_x_full_x_->ExpandedPosIndices();
@@ -1755,6 +1758,7 @@ bool TNLPAdapter::Eval_grad_f(
       }
       else
       {
+         new_x_pending_ = false;
          retvalue = tnlp_->eval_grad_f(n_full_x_, full_x_, new_x, values);
       }
    }
@@ -1762,6 +1766,7 @@ bool TNLPAdapter::Eval_grad_f(
    {
       // make sure we have the value of the objective at the point
       Number f;
+      new_x_pending_ = false;
       retvalue = tnlp_->eval_f(n_full_x_, full_x_, new_x, f);
       if( retvalue )
       {
@@ -1789,6 +1794,7 @@ bool TNLPAdapter::Eval_grad_f(
                   full_x_pert[ivar] = xorig + this_perturbation;
                }
                Number f_pert;
+               new_x_pending_ = true;  // TNLP will need to be told when we return to full_x_
                retvalue = tnlp_->eval_f(n_full_x_, full_x_pert, true, f_pert);
                if( !retvalue )
                {
@@ -1974,6 +1980,7 @@ bool TNLPAdapter::Eval_h(
    {
       Number* full_h = new Number[nz_full_h_];
 
+      new_x_pending_ = false;
       if( tnlp_->eval_h(n_full_x_, full_x_, new_x, obj_factor, n_full_g_, full_lambda_, new_y, nz_full_h_, NULL, NULL,
                         full_h) )
       {
@@ -1987,6 +1994,7 @@ bool TNLPAdapter::Eval_h(
    }
    else
    {
+      new_x_pending_ = false;
       retval = tnlp_->eval_h(n_full_x_, full_x_, new_x, obj_factor, n_full_g_, full_lambda_, new_y, nz_full_h_, NULL,
                              NULL, values);
    }
@@ -2713,6 +2721,7 @@ bool TNLPAdapter::ResortBoundMultipliers(
       memset(mult, 0, sizeof(Number) * n_full_x_);
 
       bool new_x = update_local_x(x);
+      new_x_pending_ = false;
       if( !tnlp_->eval_grad_f(n_full_x_, full_x_, new_x, mult) )
       {
          delete[] mult;
@@ -2721,7 +2730,7 @@ bool TNLPAdapter::ResortBoundMultipliers(
 
       if( !jac_fixed_idx_map_.empty() )
       {
-         if( !internal_eval_jac_g(false) )
+         if( !internal_eval_jac_g(new_x_pending_) )
          {
             delete[] mult;
             return false;
@@ -2799,16 +2808,15 @@ bool TNLPAdapter::update_local_x(
    const Vector& x
 )
 {
-   if( x.GetTag() == x_tag_for_iterates_ )
+   if( x.GetTag() != x_tag_for_iterates_ )
    {
-      return false;
-   }
-
-   ResortX(x, full_x_);
+      ResortX(x, full_x_);
 
-   x_tag_for_iterates_ = x.GetTag();
+      x_tag_for_iterates_ = x.GetTag();
+      new_x_pending_ = true;
+   }
 
-   return true;
+   return new_x_pending_;
 }
 
 bool TNLPAdapter::update_local_lambda(
@@ -2841,6 +2849,7 @@ bool TNLPAdapter::internal_eval_g(
 
    x_tag_for_g_ = x_tag_for_iterates_;
 
+   new_x_pending_ = false;
    bool retval = tnlp_->eval_g(n_full_x_, full_x_, new_x, n_full_g_, full_g_);
 
    if( !retval )
@@ -2866,6 +2875,7 @@ bool TNLPAdapter::internal_eval_jac_g(
    bool retval;
    if( jacobian_approximation_ == JAC_EXACT )
    {
+      new_x_pending_ = false;
       retval = tnlp_->eval_jac_g(n_full_x_, full_x_, new_x, n_full_g_, nz_full_jac_g_, NULL, NULL, jac_g_);
    }
    else
@@ -2891,6 +2901,7 @@ bool TNLPAdapter::internal_eval_jac_g(
                   this_perturbation = -this_perturbation;
                   full_x_pert[ivar] = xorig + this_perturbation;
                }
+               new_x_pending_ = true;  // TNLP will need to be told when we return to full_x_
                retval = tnlp_->eval_g(n_full_x_, full_x_pert, true, n_full_g_, full_g_pert);
                if( !retval )
                {
diff --git a/src/Interfaces/IpTNLPAdapter.hpp b/src/Interfaces/IpTNLPAdapter.hpp
index c92faf7..2d3112b 100644
--- a/src/Interfaces/IpTNLPAdapter.hpp
+++ b/src/Interfaces/IpTNLPAdapter.hpp
@@ -568,6 +568,12 @@ private:
    TaggedObject::Tag y_d_tag_for_iterates_;
    TaggedObject::Tag x_tag_for_g_;
    TaggedObject::Tag x_tag_for_jac_g_;
+   /** Whether full_x_ differs from the point that has been passed to the TNLP most recently.
+    *
+    *  This can also be the case for an x that is not new for this class, e.g.,
+    *  if cached values were returned for it or if functions were evaluated at perturbed points.
+    */
+   bool new_x_pending_;
    ///@}
 
    /**@name Methods to update the values in the local copies of vectors */
-- 
2.43.0


From 72f65e6a97a3b3575c44952d03d599446a33fc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 08/70] fix: compute multipliers of fixed variables also when a
 time limit was hit

IpoptApplication passes an actual solution to FinalizeSolution() for these status codes.
---
 src/Interfaces/IpTNLPAdapter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 45f262e..ed05625 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2188,6 +2188,8 @@ void TNLPAdapter::FinalizeSolution(
    {
       case SUCCESS:
       case MAXITER_EXCEEDED:
+      case CPUTIME_EXCEEDED:
+      case WALLTIME_EXCEEDED:
       case STOP_AT_TINY_STEP:
       case STOP_AT_ACCEPTABLE_POINT:
       case LOCAL_INFEASIBILITY:
-- 
2.43.0


From fc2b2bb2bce29c5ac7035a891a285e65561bc256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:26 +0000
Subject: [PATCH 09/70] fix: endless loop if perturbation for singular system
 is not positive

---
 src/Algorithm/IpPDPerturbationHandler.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Algorithm/IpPDPerturbationHandler.cpp b/src/Algorithm/IpPDPerturbationHandler.cpp
index 443c362..ff10bec 100644
--- a/src/Algorithm/IpPDPerturbationHandler.cpp
+++ b/src/Algorithm/IpPDPerturbationHandler.cpp
@@ -350,6 +350,15 @@ bool PDPerturbationHandler::PerturbForSingularity(
          // Otherwise we now perturb the lower right corner
          delta_d_curr_ = delta_c_curr_ = delta_cd();
 
+         // if mu is zero or not a number, then so may be the perturbation
+         // nothing would change if it were tried (over and over again)
+         if( !(delta_c_curr_ > 0.) )
+         {
+            Jnlst().Printf(J_DETAILED, J_LINEAR_ALGEBRA,
+                           "No positive perturbation for the constraints available: %e\n", delta_c_curr_);
+            return false;
+         }
+
          // ToDo - also perturb Hessian?
          IpData().Append_info_string("L");
       }
-- 
2.43.0


From fa46102c1b93ff1b7f3dec6891f485025941f2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:26 +0000
Subject: [PATCH 10/70] fix: undoing an SR1 update after (re)start of the
 limited-memory approximation

---
 src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp b/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
index 3c3d0ad..1d451d6 100644
--- a/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
+++ b/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
@@ -269,6 +269,8 @@ void LimMemQuasiNewtonUpdater::UpdateHessian()
          // Set up W to be multiple of I
          sigma_ = limited_memory_init_val_;
       }
+      // SR1 may have to undo the first update after this one
+      StoreInternalDataBackup();
       SetW();
       return;
    }
-- 
2.43.0


From f304b294df5facf1a3d01ef9c7bcc7d550285541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:26 +0000
Subject: [PATCH 11/70] fix: check whether system for corrector step could be
 solved

---
 src/Algorithm/IpFilterLSAcceptor.cpp          | 21 ++++++++++++++++---
 .../CGPenalty/IpCGPenaltyLSAcceptor.cpp       |  8 ++++++-
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/Algorithm/IpFilterLSAcceptor.cpp b/src/Algorithm/IpFilterLSAcceptor.cpp
index 1dea195..a539599 100644
--- a/src/Algorithm/IpFilterLSAcceptor.cpp
+++ b/src/Algorithm/IpFilterLSAcceptor.cpp
@@ -711,7 +711,12 @@ FilterLSAcceptor::TryCorrector(
             SmartPtr<IteratesVector> step_aff = delta_corr->MakeNewIteratesVector(true);
 
             // Now solve the primal-dual system to get the step
-            pd_solver_->Solve(-1.0, 0.0, *rhs_aff, *step_aff, false);
+            if( !pd_solver_->Solve(-1.0, 0.0, *rhs_aff, *step_aff, false) )
+            {
+               Jnlst().Printf(J_DETAILED, J_LINE_SEARCH,
+                              "The linear system could not be solved for the affine step!\n");
+               return false;
+            }
 
             DBG_PRINT_VECTOR(2, "step_aff", *step_aff);
 
@@ -741,7 +746,12 @@ FilterLSAcceptor::TryCorrector(
          IpNLP().Pd_U()->TransMultVector(1., *delta_aff->s(), 0., *rhs->v_U_NonConst());
          rhs->v_U_NonConst()->ElementWiseMultiply(*delta_aff->v_U());
 
-         pd_solver_->Solve(1.0, 1.0, *rhs, *delta_corr, true);
+         if( !pd_solver_->Solve(1.0, 1.0, *rhs, *delta_corr, true) )
+         {
+            Jnlst().Printf(J_DETAILED, J_LINE_SEARCH,
+                           "The linear system could not be solved for the corrector step.\n");
+            return false;
+         }
 
          DBG_PRINT_VECTOR(2, "delta_corr", *delta_corr);
       }
@@ -798,7 +808,12 @@ FilterLSAcceptor::TryCorrector(
 
          DBG_PRINT_VECTOR(2, "rhs", *rhs);
 
-         pd_solver_->Solve(1.0, 1.0, *rhs, *delta_corr, true);
+         if( !pd_solver_->Solve(1.0, 1.0, *rhs, *delta_corr, true) )
+         {
+            Jnlst().Printf(J_DETAILED, J_LINE_SEARCH,
+                           "The linear system could not be solved for the corrector step.\n");
+            return false;
+         }
 
          DBG_PRINT_VECTOR(2, "delta_corr", *delta_corr);
       }
diff --git a/src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp b/src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp
index 8975527..af16c12 100644
--- a/src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp
+++ b/src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp
@@ -505,7 +505,13 @@ bool CGPenaltyLSAcceptor::TrySecondOrderCorrection(
       rhs->Set_z_U(*IpCq().curr_relaxed_compl_x_U());
       rhs->Set_v_L(*IpCq().curr_relaxed_compl_s_L());
       rhs->Set_v_U(*IpCq().curr_relaxed_compl_s_U());
-      pd_solver_->Solve(-1.0, 0.0, *rhs, *delta_soc, true);
+      bool retval = pd_solver_->Solve(-1.0, 0.0, *rhs, *delta_soc, true);
+      if( !retval )
+      {
+         Jnlst().Printf(J_DETAILED, J_LINE_SEARCH,
+                        "The linear system could not be solved for the second order correction.\n");
+         break;
+      }
       // Update the delta_y_c and delta_y_d vectors in case we do
       // additional SOC steps
       delta_y_c = ConstPtr(delta_soc->y_c());
-- 
2.43.0


From 069266383f688f0098beb99b130976732391d097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 12/70] fix: correction of tiny slacks during mu-based
 initialization of bound multipliers

---
 src/Algorithm/IpDefaultIterateInitializer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Algorithm/IpDefaultIterateInitializer.cpp b/src/Algorithm/IpDefaultIterateInitializer.cpp
index 226e2cf..f215f36 100644
--- a/src/Algorithm/IpDefaultIterateInitializer.cpp
+++ b/src/Algorithm/IpDefaultIterateInitializer.cpp
@@ -275,6 +275,14 @@ bool DefaultIterateInitializer::SetInitialIterates()
          iterates->z_U_NonConst()->Set(mu_init_);
          iterates->v_L_NonConst()->Set(mu_init_);
          iterates->v_U_NonConst()->Set(mu_init_);
+         // tiny slacks are corrected by using the current multipliers, so these need to have a value
+         IpData().set_trial(iterates);
+         IpData().CopyTrialToCurrent();
+         iterates = IpData().trial()->MakeNewContainer();
+         iterates->create_new_z_L_copy();
+         iterates->create_new_z_U_copy();
+         iterates->create_new_v_L_copy();
+         iterates->create_new_v_U_copy();
          iterates->z_L_NonConst()->ElementWiseDivide(*IpCq().trial_slack_x_L());
          iterates->z_U_NonConst()->ElementWiseDivide(*IpCq().trial_slack_x_U());
          iterates->v_L_NonConst()->ElementWiseDivide(*IpCq().trial_slack_s_L());
-- 
2.43.0


From 7768552ec848fb24a85931916cbe93bf283f4df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:38 +0000
Subject: [PATCH 13/70] fix: call finalize_solution also if the algorithm ends
 with an internal error

---
 src/Interfaces/IpIpoptApplication.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Interfaces/IpIpoptApplication.cpp b/src/Interfaces/IpIpoptApplication.cpp
index 44525ae..764771e 100644
--- a/src/Interfaces/IpIpoptApplication.cpp
+++ b/src/Interfaces/IpIpoptApplication.cpp
@@ -815,10 +815,9 @@ ApplicationReturnStatus IpoptApplication::call_optimize()
          retValue = Internal_Error;
          jnlst_->Printf(J_SUMMARY, J_MAIN,
                         "\nEXIT: INTERNAL ERROR: Unknown SolverReturn value - Notify IPOPT Authors.\n");
-         return retValue;
       }
 
-      if( status != INVALID_NUMBER_DETECTED )
+      if( status != INVALID_NUMBER_DETECTED && retValue != Internal_Error )
       {
          // Create a SolveStatistics object
          statistics_ = new SolveStatistics(p2ip_nlp, p2ip_data, p2ip_cq);
-- 
2.43.0


From 3140ec2c576a41b2b4da06d282380b3c3f3493a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:41 +0000
Subject: [PATCH 14/70] fix: report values of removed dependent constraints in
 the final point

---
 src/Interfaces/IpTNLPAdapter.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index ed05625..8d6a083 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2174,13 +2174,11 @@ void TNLPAdapter::FinalizeSolution(
    }
 
    Number* full_g = new Number[n_full_g_];
-   // TODO:
    if( c.Dim() + d.Dim() < n_full_g_ )
    {
       const Number zero = 0.;
       IpBlasCopy(n_full_g_, &zero, 0, full_g, 1);
    }
-   ResortG(c, d, full_g, true);
 
    Number* full_z_L = new Number[n_full_x_];
    Number* full_z_U = new Number[n_full_x_];
@@ -2203,12 +2201,18 @@ void TNLPAdapter::FinalizeSolution(
          {
             jnlst_->Printf(J_WARNING, J_INITIALIZATION, "Failed to evaluate gradient of objective or constraints when computing bound multipliers for fixed variables.\n");
          }
+         // c and d do not have the values of constraints that were removed because they are linearly dependent
+         if( c.Dim() + d.Dim() < n_full_g_ && internal_eval_g(update_local_x(x)) )
+         {
+            IpBlasCopy(n_full_g_, full_g_, 1, full_g, 1);
+         }
          break;
       default:
          // if IpoptApplication doesn't provide an actual solution, do not bother to setup good multipliers for fixed variables
          ResortBounds(z_L, full_z_L, z_U, full_z_U);
          break;
    }
+   ResortG(c, d, full_g, true);
 
    SmartPtr<const DenseVectorSpace> z_L_space = dynamic_cast<const DenseVectorSpace*>(GetRawPtr(z_L.OwnerSpace()));
    SmartPtr<const DenseVectorSpace> z_U_space = dynamic_cast<const DenseVectorSpace*>(GetRawPtr(z_U.OwnerSpace()));
-- 
2.43.0


From 79d97e023f311435c5282fac00b3dd810228647f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:57 +0000
Subject: [PATCH 15/70] fix: do not use derivatives that are not provided to
 compute multipliers of fixed variables when approximating by finite
 differences

---
 src/Interfaces/IpTNLPAdapter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 8d6a083..8685eef 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2721,6 +2721,12 @@ bool TNLPAdapter::ResortBoundMultipliers(
 
    if( fixed_variable_treatment_ == MAKE_PARAMETER )
    {
+      // finite-difference approximations do not provide derivatives w.r.t. fixed variables, so no multipliers can be computed
+      if( gradient_approximation_ != OBJGRAD_EXACT || (jacobian_approximation_ != JAC_EXACT && !jac_fixed_idx_map_.empty()) )
+      {
+         return true;
+      }
+
       // Lagrangian should be grad_f + lambda jac - z_L + z_U  == 0
       // so fixed variables get z_L - z_U = grad_f + lambda_jac
       Number* mult = new Number[n_full_x_];
-- 
2.43.0


From 311ad3aefd5829ddde5a01e0ba79bee480c6fcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:06 +0000
Subject: [PATCH 16/70] fix: do not evaluate the Jacobian to detect dependent
 constraints if it is approximated by finite differences

---
 src/Interfaces/IpTNLPAdapter.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 8685eef..fb1480a 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -636,7 +636,12 @@ bool TNLPAdapter::GetSpaces(
 
       // If requested, check if there are linearly dependent equality
       // constraints
-      if( n_c > 0 && IsValid(dependency_detector_) )
+      if( n_c > 0 && IsValid(dependency_detector_) && jacobian_approximation_ != JAC_EXACT )
+      {
+         jnlst_->Printf(J_WARNING, J_INITIALIZATION,
+                        "Dependent constraint detector requires an exact Jacobian, assume full rank.\n");
+      }
+      else if( n_c > 0 && IsValid(dependency_detector_) )
       {
          std::list<Index> c_deps;
          if( !DetermineDependentConstraints(n_x_var, x_not_fixed_map, x_l, x_u, g_l, g_u, n_c, c_map, c_deps) )
-- 
2.43.0


From a274e1b3e5fdd1653a8fa6ade79c23f88c582111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:35 +0000
Subject: [PATCH 17/70] fix: handle failing evaluation when computing
 multipliers for square problem

An evaluation error during the computation of multipliers for a feasible point
of a square problem escaped from the exception handler in IpoptAlgorithm::Optimize(),
so that the run ended with Unrecoverable_Exception.
---
 src/Algorithm/IpIpoptAlg.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/IpIpoptAlg.cpp b/src/Algorithm/IpIpoptAlg.cpp
index d9092e5..729ffb6 100644
--- a/src/Algorithm/IpIpoptAlg.cpp
+++ b/src/Algorithm/IpIpoptAlg.cpp
@@ -978,7 +978,16 @@ void IpoptAlgorithm::ComputeFeasibilityMultipliersPostprocess()
    SmartPtr<Vector> y_d = iterates->y_d()->MakeNew();
    IpData().set_trial(iterates);
    IpData().AcceptTrialPoint();
-   bool retval = eq_multiplier_calculator_->CalculateMultipliers(*y_c, *y_d);
+   bool retval;
+   try
+   {
+      retval = eq_multiplier_calculator_->CalculateMultipliers(*y_c, *y_d);
+   }
+   catch( IpoptNLP::Eval_Error& exc )
+   {
+      exc.ReportException(Jnlst(), J_DETAILED);
+      retval = false;
+   }
    if( retval )
    {
       //TODO Check if following line is really necessary
-- 
2.43.0


From ee611af8d9f244cb2d83d51e6b7b1c5e2a3de249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:33 +0000
Subject: [PATCH 18/70] fix: do not compute NaN scaling factors from
 derivatives that are not finite at the starting point

With nlp_scaling_obj_target_gradient or nlp_scaling_constr_target_gradient, a
derivative that could not be evaluated at the starting point led to NaN or zero scaling factors
for the whole run.
---
 src/Algorithm/IpGradientScaling.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/Algorithm/IpGradientScaling.cpp b/src/Algorithm/IpGradientScaling.cpp
index f4e8252..5ee5542 100644
--- a/src/Algorithm/IpGradientScaling.cpp
+++ b/src/Algorithm/IpGradientScaling.cpp
@@ -117,6 +117,11 @@ void GradientScaling::DetermineScalingParametersImpl(
             Jnlst().Printf(J_WARNING, J_INITIALIZATION,
                            "Gradient of objective function is zero at starting point.  Cannot determine scaling factor based on scaling_obj_target_gradient option.\n");
          }
+         else if( !IsFiniteNumber(max_grad_f) )
+         {
+            Jnlst().Printf(J_WARNING, J_INITIALIZATION,
+                           "Gradient of objective function is not finite at starting point.  Cannot determine scaling factor based on scaling_obj_target_gradient option.\n");
+         }
          else
          {
             df = scaling_obj_target_gradient_ / max_grad_f;
@@ -166,6 +171,12 @@ void GradientScaling::DetermineScalingParametersImpl(
                dc = NULL;
             }
          }
+         else if( arow_max <= dbl_min || !IsFiniteNumber(arow_max) )
+         {
+            Jnlst().Printf(J_WARNING, J_INITIALIZATION,
+                           "Jacobian of equality constraints is zero or not finite at starting point.  Cannot determine scaling factors based on scaling_constr_target_gradient option.\n");
+            dc = NULL;
+         }
          else
          {
             dc->Set(scaling_constr_target_gradient_ / arow_max);
@@ -213,6 +224,12 @@ void GradientScaling::DetermineScalingParametersImpl(
                dd = NULL;
             }
          }
+         else if( arow_max <= dbl_min || !IsFiniteNumber(arow_max) )
+         {
+            Jnlst().Printf(J_WARNING, J_INITIALIZATION,
+                           "Jacobian of inequality constraints is zero or not finite at starting point.  Cannot determine scaling factors based on scaling_constr_target_gradient option.\n");
+            dd = NULL;
+         }
          else
          {
             dd->Set(scaling_constr_target_gradient_ / arow_max);
-- 
2.43.0


From e31b1d851422d29662a372c2394390046362461c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:03 +0000
Subject: [PATCH 19/70] fix: failing evaluation during initialization of the
 restoration phase

If the constraint Jacobian could not be evaluated when the multipliers for the
restoration phase were initialized, an iterate without values was passed on to the regular
algorithm, or a trial point that had not been set was dereferenced.
---
 src/Algorithm/IpRestoIterateInitializer.cpp | 19 +++++++++++++++++--
 src/Algorithm/IpRestoMinC_1Nrm.cpp          |  3 ++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/Algorithm/IpRestoIterateInitializer.cpp b/src/Algorithm/IpRestoIterateInitializer.cpp
index 6acf945..0d57079 100644
--- a/src/Algorithm/IpRestoIterateInitializer.cpp
+++ b/src/Algorithm/IpRestoIterateInitializer.cpp
@@ -196,8 +196,23 @@ bool RestoIterateInitializer::SetInitialIterates()
    //           Initialize equality constraint multipliers            //
    /////////////////////////////////////////////////////////////////////
 
-   DefaultIterateInitializer::least_square_mults(Jnlst(), IpNLP(), IpData(), IpCq(), resto_eq_mult_calculator_,
-         constr_mult_init_max_);
+   try
+   {
+      DefaultIterateInitializer::least_square_mults(Jnlst(), IpNLP(), IpData(), IpCq(), resto_eq_mult_calculator_,
+            constr_mult_init_max_);
+   }
+   catch( IpoptNLP::Eval_Error& )
+   {
+      // make sure that the current iterate has values, since it will be passed on to the regular algorithm
+      trial = IpData().trial()->MakeNewContainer();
+      trial->create_new_y_c();
+      trial->y_c_NonConst()->Set(0.);
+      trial->create_new_y_d();
+      trial->y_d_NonConst()->Set(0.);
+      IpData().set_trial(trial);
+      IpData().AcceptTrialPoint();
+      throw;
+   }
 
    // upgrade the trial to the current point
    IpData().AcceptTrialPoint();
diff --git a/src/Algorithm/IpRestoMinC_1Nrm.cpp b/src/Algorithm/IpRestoMinC_1Nrm.cpp
index 6276fcb..a5c03e0 100644
--- a/src/Algorithm/IpRestoMinC_1Nrm.cpp
+++ b/src/Algorithm/IpRestoMinC_1Nrm.cpp
@@ -201,7 +201,8 @@ bool MinC_1NrmRestorationPhase::PerformRestoration()
          // In case of a failure, we still copy the values of primal and
          // dual variables into the data fields of the regular NLP, so
          // that they will be returned to the user
-         SmartPtr<IteratesVector> trial = IpData().trial()->MakeNewContainer();
+         // (the trial fields may not have been set if the failure happened before the first iteration)
+         SmartPtr<IteratesVector> trial = IpData().curr()->MakeNewContainer();
 
          SmartPtr<const Vector> resto_curr_x = resto_curr->x();
          SmartPtr<const CompoundVector> cx = static_cast<const CompoundVector*>(GetRawPtr(resto_curr_x));
-- 
2.43.0


From 84308a96c0873ef738899b020734326f40fe89fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:02 +0000
Subject: [PATCH 20/70] fix: scale bounds of inequality constraints correctly
 in get_curr_violations

The vectors of lower and upper bounds on inequality constraints have entries
only for those constraints that have such a bound, but were scaled as if
they had an entry for every inequality constraint.
---
 src/Interfaces/IpTNLP.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/Interfaces/IpTNLP.cpp b/src/Interfaces/IpTNLP.cpp
index 66b6067..fd6d826 100644
--- a/src/Interfaces/IpTNLP.cpp
+++ b/src/Interfaces/IpTNLP.cpp
@@ -929,10 +929,8 @@ bool TNLP::get_curr_violations(
       if( IsValid(d_L) )
       {
          // orig_d_L is unscaled, but we need the scaled one below (because d is scaled)
-         if( orignlp->NLP_scaling()->have_d_scaling() )
-         {
-            d_L = orignlp->NLP_scaling()->apply_vector_scaling_d_NonConst(d_L);
-         }
+         // d_L has only entries for constraints with lower bound, so the scaling needs to be mapped via Pd_L
+         d_L = orignlp->NLP_scaling()->apply_vector_scaling_d_LU(*orignlp->Pd_L(), d_L, *d->OwnerSpace());
       }
       else // if no relaxation, then orig_d_L() returns NULL, use d_L instead
       {
@@ -964,10 +962,8 @@ bool TNLP::get_curr_violations(
       if( IsValid(d_U) )
       {
          // orig_d_U is unscaled, but we need the scaled one below (because d is scaled)
-         if( orignlp->NLP_scaling()->have_d_scaling() )
-         {
-            d_U = orignlp->NLP_scaling()->apply_vector_scaling_d_NonConst(d_U);
-         }
+         // d_U has only entries for constraints with upper bound, so the scaling needs to be mapped via Pd_U
+         d_U = orignlp->NLP_scaling()->apply_vector_scaling_d_LU(*orignlp->Pd_U(), d_U, *d->OwnerSpace());
       }
       else // if no relaxation, then orig_d_U() returns NULL, use d_U instead
       {
-- 
2.43.0


From 27f82e0a78130a4a6ebe96524c1c9f49b1c90834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:09 +0000
Subject: [PATCH 21/70] fix: do not add multipliers of fixed variables to
 gradient of Lagrangian in get_curr_violations

With fixed_variable_treatment=make_constraint, the gradient of the Lagrangian
already includes the multiplier of the constraint that fixes the variable,
which equals -z_L + z_U.
---
 src/Interfaces/IpTNLP.cpp | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/src/Interfaces/IpTNLP.cpp b/src/Interfaces/IpTNLP.cpp
index fd6d826..30730a9 100644
--- a/src/Interfaces/IpTNLP.cpp
+++ b/src/Interfaces/IpTNLP.cpp
@@ -894,25 +894,9 @@ bool TNLP::get_curr_violations(
       // such that the Gradient of the Lagrangian will be zero, so leaving them at 0 is correct here
       tnlp_adapter->ResortX(*curr_grad_lag_x(ip_data, ip_cq, orignlp, restonlp, scaled), grad_lag_x, false);
 
-      // if fixed_variable_treatment is make_constraint, then fixed variable contribute y_c*x to the Lagrangian
-      // however, we want to get -z_L + z_U
-      // using z_L = -y_c^-, z_U = y_c^+, this means to add -z_L + z_U - y_c x = y_c - y_c x = y_c (1-x)
-      if( n_x_fixed > 0 && fixed_variable_treatment == TNLPAdapter::MAKE_CONSTRAINT )
-      {
-         SmartPtr<const DenseVector> y_c = curr_y_c(ip_data, ip_cq, orignlp, restonlp, scaled);
-         const Number* c_rhs = tnlp_adapter->GetC_Rhs();
-         DBG_ASSERT(y_c->Dim() >= n_x_fixed);
-         if( y_c->IsHomogeneous() )
-            for( Index i = 0; i < n_x_fixed; ++i )
-            {
-               grad_lag_x[x_fixed_map[i]] += y_c->Scalar() * (1.0 - c_rhs[y_c->Dim() - n_x_fixed + i]);
-            }
-         else
-            for( Index i = 0; i < n_x_fixed; ++i )
-            {
-               grad_lag_x[x_fixed_map[i]] += y_c->Values()[y_c->Dim() - n_x_fixed + i] * (1.0 - c_rhs[y_c->Dim() - n_x_fixed + i]);
-            }
-      }
+      // if fixed_variable_treatment is make_constraint, then fixed variables contribute y_c*(x-c_rhs) to the Lagrangian,
+      // thus y_c is already included in its gradient
+      // since z_L = y_c^-, z_U = y_c^+, we have y_c = -z_L + z_U, so there is nothing to add
    }
 
    if( nlp_constraint_violation != NULL || compl_g != NULL )
-- 
2.43.0


From 53df8e9a8b5e305db8250c945b3e6ee36bee8b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:23 +0000
Subject: [PATCH 22/70] fix: recognize removed dependent constraints also if
 fixed variables are made constraints

The dimension of c(x) includes the constraints that fix variables if
fixed_variable_treatment=make_constraint. Thus, values and multipliers of removed
constraints were left uninitialized if there were also fixed variables.
---
 src/Interfaces/IpTNLPAdapter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index fb1480a..f2a3063 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2179,7 +2179,7 @@ void TNLPAdapter::FinalizeSolution(
    }
 
    Number* full_g = new Number[n_full_g_];
-   if( c.Dim() + d.Dim() < n_full_g_ )
+   if( P_c_g_->NCols() + P_d_g_->NCols() < n_full_g_ )
    {
       const Number zero = 0.;
       IpBlasCopy(n_full_g_, &zero, 0, full_g, 1);
@@ -2207,7 +2207,7 @@ void TNLPAdapter::FinalizeSolution(
             jnlst_->Printf(J_WARNING, J_INITIALIZATION, "Failed to evaluate gradient of objective or constraints when computing bound multipliers for fixed variables.\n");
          }
          // c and d do not have the values of constraints that were removed because they are linearly dependent
-         if( c.Dim() + d.Dim() < n_full_g_ && internal_eval_g(update_local_x(x)) )
+         if( P_c_g_->NCols() + P_d_g_->NCols() < n_full_g_ && internal_eval_g(update_local_x(x)) )
          {
             IpBlasCopy(n_full_g_, full_g_, 1, full_g, 1);
          }
@@ -2265,7 +2265,7 @@ void TNLPAdapter::FinalizeSolution(
    delete[] full_g;
    full_g = NULL;
 
-   if( c.Dim() + d.Dim() < n_full_g_ )
+   if( P_c_g_->NCols() + P_d_g_->NCols() < n_full_g_ )
    {
       // Temporary: Check if we really have a feasible point:
       Number max_viol = 0.;
-- 
2.43.0


From 0cfaab363c770ced21741ccfad4c342b1150f39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:23 +0000
Subject: [PATCH 23/70] fix: do not leave entries for removed dependent
 constraints uninitialized in get_curr_iterate and get_curr_violations

---
 src/Interfaces/IpTNLP.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/Interfaces/IpTNLP.cpp b/src/Interfaces/IpTNLP.cpp
index 30730a9..9794aac 100644
--- a/src/Interfaces/IpTNLP.cpp
+++ b/src/Interfaces/IpTNLP.cpp
@@ -714,6 +714,10 @@ bool TNLP::get_curr_iterate(
    // resort Ipopt-interval constraint activity to TNLP-version
    if( g != NULL )
    {
+      // there is no value for constraints that were removed because they are linearly dependent
+      const Number zero = 0.;
+      IpBlasCopy(m, &zero, 0, g, 1);
+
       if( !scaled || !orignlp->NLP_scaling()->have_c_scaling() )
       {
          tnlp_adapter->ResortG(*curr_c(ip_data, ip_cq, orignlp, restonlp, scaled), *curr_d(ip_data, ip_cq, orignlp, restonlp, scaled), g, true);
@@ -736,6 +740,9 @@ bool TNLP::get_curr_iterate(
    // resort Ipopt-internal constraint duals to TNLP-version
    if( lambda != NULL )
    {
+      const Number zero = 0.;
+      IpBlasCopy(m, &zero, 0, lambda, 1);
+
       tnlp_adapter->ResortG(*intern_y_c, *intern_y_d, lambda);
    }
 
@@ -997,6 +1004,8 @@ bool TNLP::get_curr_violations(
          c_compl->ElementWiseMultiply(*y_c);      // c(x)*y_c
          c_compl->Scal(-1.0);  // -c(x)*y_c
 
+         const Number zero_scalar = 0.;
+         IpBlasCopy(m, &zero_scalar, 0, compl_g, 1);
          tnlp_adapter->ResortG(*c_compl, *yd_neg, compl_g);
       }
 
@@ -1012,6 +1021,8 @@ bool TNLP::get_curr_violations(
          tmp->Set(0.);
          d_viol_L->ElementWiseMax(*tmp);
 
+         const Number zero_scalar = 0.;
+         IpBlasCopy(m, &zero_scalar, 0, nlp_constraint_violation, 1);
          tnlp_adapter->ResortG(*c_viol, *d_viol_L, nlp_constraint_violation);
       }
    }
-- 
2.43.0


From 8ae1b68fd2e5baf89334faf44551a30d05786ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:03 +0000
Subject: [PATCH 24/70] fix: report the number of the last iteration when the
 restoration phase ends without success

The iteration count of the original problem was updated by the iteration output only, which is
not reached when the restoration phase finds the problem to be locally infeasible or fails. The
statistics then reported one iteration less than were made.
---
 src/Algorithm/IpRestoMinC_1Nrm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Algorithm/IpRestoMinC_1Nrm.cpp b/src/Algorithm/IpRestoMinC_1Nrm.cpp
index a5c03e0..f86ab59 100644
--- a/src/Algorithm/IpRestoMinC_1Nrm.cpp
+++ b/src/Algorithm/IpRestoMinC_1Nrm.cpp
@@ -244,6 +244,9 @@ bool MinC_1NrmRestorationPhase::PerformRestoration()
 
          IpData().set_trial(trial);
          IpData().AcceptTrialPoint();
+
+         // the last iterate may not have been output, which would have passed its number on
+         IpData().Set_iter_count(resto_ip_data->iter_count());
       }
    }
 
-- 
2.43.0


From 5ab99b55a36fed6ee4f41c7a7c5e71d3a71d813b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:03 +0000
Subject: [PATCH 25/70] fix: drop the statistics of the previous solve when the
 setup of the next one fails

---
 src/Interfaces/IpIpoptApplication.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Interfaces/IpIpoptApplication.cpp b/src/Interfaces/IpIpoptApplication.cpp
index 764771e..a8d19e5 100644
--- a/src/Interfaces/IpIpoptApplication.cpp
+++ b/src/Interfaces/IpIpoptApplication.cpp
@@ -500,6 +500,9 @@ ApplicationReturnStatus IpoptApplication::OptimizeNLP(
 {
    ApplicationReturnStatus retValue = Internal_Error;
 
+   // drop the statistics of an earlier solve, also if the setup of the algorithm fails below
+   statistics_ = NULL;
+
    // Prepare internal data structures of the algorithm
    try
    {
-- 
2.43.0


From 85c952732193e02590818b5fb4c382aed28bbf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:50 +0000
Subject: [PATCH 26/70] fix: clear the piecewise penalty list of the
 Chen-Goldfarb line search when it is initialized again

---
 src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp b/src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp
index af16c12..edd8cbc 100644
--- a/src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp
+++ b/src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp
@@ -213,10 +213,15 @@ bool CGPenaltyLSAcceptor::InitializeImpl(
    CGPenData().SetPenaltyUninitialized();
    ls_counter_ = 0;
    best_KKT_error_ = -1.;
+   best_iterate_ = NULL;
    accepted_by_Armijo_ = true;
    //never_do_restor_ = true;
    jump_for_tiny_step_ = 0;
 
+   // forget the piecewise penalty list of a previous optimization
+   PiecewisePenalty_.Clear();
+   reset_piecewise_penalty_ = false;
+
    return true;
 }
 
-- 
2.43.0


From 6832f5248ad13c8731089690a09a29dec305ceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:50 +0000
Subject: [PATCH 27/70] fix: relax the bounds of all fixed variables with
 fixed_variable_treatment=relax_bounds

---
 src/Interfaces/IpTNLPAdapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index f2a3063..3eff1a9 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -1427,7 +1427,7 @@ bool TNLPAdapter::GetBoundsInformation(
    {
       // Relax the bounds for fixed variables
       const Number bound_relax = Max(Number(1e-8), bound_relax_factor_);
-      for( Index i = 0; i < n_x_fixed_; i++ )
+      for( Index i = 0; i < n_full_x_; i++ )
       {
          if( x_l[i] == x_u[i] )
          {
-- 
2.43.0


From 5c04761c32676a41c3ba41c1fcf133ff90b7fc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:50 +0000
Subject: [PATCH 28/70] fix: compute finite-difference derivatives also for
 fixed variables that are kept in the problem

---
 src/Interfaces/IpTNLPAdapter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 3eff1a9..efb2003 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -1787,7 +1787,7 @@ bool TNLPAdapter::Eval_grad_f(
          for( Index i = 0; i < g_f.Dim(); i++ )
          {
             Index ivar = x_pos != NULL ? x_pos[i] : i;
-            if( findiff_x_l_[ivar] < findiff_x_u_[ivar] )
+            if( findiff_x_l_[ivar] < findiff_x_u_[ivar] || fixed_variable_treatment_ == MAKE_CONSTRAINT )
             {
                const Number xorig = full_x_pert[ivar];
                Number this_perturbation = findiff_perturbation_ * Max(Number(1.), std::abs(full_x_[ivar]));
@@ -2907,7 +2907,7 @@ bool TNLPAdapter::internal_eval_jac_g(
          // Compute the finite difference Jacobian
          for( Index ivar = 0; ivar < n_full_x_; ivar++ )
          {
-            if( findiff_x_l_[ivar] < findiff_x_u_[ivar] )
+            if( findiff_x_l_[ivar] < findiff_x_u_[ivar] || fixed_variable_treatment_ == MAKE_CONSTRAINT )
             {
                const Number xorig = full_x_pert[ivar];
                Number this_perturbation = findiff_perturbation_ * Max(Number(1.), std::abs(full_x_[ivar]));
-- 
2.43.0


From 283a11737a2833cee2cbbf9edc87e557f472bd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:02 +0000
Subject: [PATCH 29/70] fix: handle empty rows between nonempty ones in
 TripletToCSRConverter

The finite-difference Jacobian was wrong if a variable appears in no constraint.
---
 src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp b/src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp
index 4ab2bc5..298606d 100644
--- a/src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp
+++ b/src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp
@@ -184,9 +184,9 @@ Index TripletToCSRConverter::InitializeConverter(
          nonzeros_compressed_++;
          ja_tmp[nonzeros_compressed_] = jcol;
          ipos_first_tmp[nonzeros_compressed_] = list_iterator->PosTriplet();
-         if( cur_row != irow )
+         while( cur_row < irow )
          {
-            // this is in a new row
+            // this is in a new row (there may be empty rows before it)
 
             ia_[cur_row] = nonzeros_compressed_;
             cur_row++;
-- 
2.43.0


From c739c35daf01b2ad19d6deb0a040cff2deb5c30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:48 +0000
Subject: [PATCH 30/70] fix: do not use unset reference values of the penalty
 line search in the restoration phase

---
 src/Algorithm/IpPenaltyLSAcceptor.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/IpPenaltyLSAcceptor.cpp b/src/Algorithm/IpPenaltyLSAcceptor.cpp
index 814dd41..91ec3d4 100644
--- a/src/Algorithm/IpPenaltyLSAcceptor.cpp
+++ b/src/Algorithm/IpPenaltyLSAcceptor.cpp
@@ -273,6 +273,7 @@ void PenaltyLSAcceptor::Reset()
    DBG_START_FUN("PenaltyLSAcceptor::Reset", dbg_verbosity);
 
    nu_ = nu_init_;
+   resto_pred_ = -1.;
 }
 
 bool PenaltyLSAcceptor::TrySecondOrderCorrection(
@@ -413,6 +414,8 @@ char PenaltyLSAcceptor::UpdateForNextIteration(
    reference_JacD_delta_ = NULL;
 
    char info_alpha_primal_char;
+   // The predicted reduction does not apply to the next iterate
+   resto_pred_ = -1.;
    // Augment the filter if required
    if( last_nu_ != nu_ )
    {
@@ -429,7 +432,17 @@ char PenaltyLSAcceptor::UpdateForNextIteration(
 }
 
 void PenaltyLSAcceptor::PrepareRestoPhaseStart()
-{ }
+{
+   // If the search direction could not be computed, then InitThisLineSearch() has not been
+   // called for the current iterate and the reference values are outdated or not set at all.
+   reference_theta_ = IpCq().curr_constraint_violation();
+   reference_barr_ = IpCq().curr_barrier_obj();
+   if( resto_pred_ < 0. )
+   {
+      // no trial point has been tested, so there is no predicted reduction
+      resto_pred_ = 0.;
+   }
+}
 
 bool PenaltyLSAcceptor::IsAcceptableToCurrentIterate(
    Number trial_barr,
-- 
2.43.0


From 6fdd4082d727dc3fd472a31920ba95dcbdb99ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:35 +0000
Subject: [PATCH 31/70] fix: do not use solutions of linear systems that
 contain invalid numbers

---
 src/Algorithm/IpLeastSquareMults.cpp  |  2 +-
 src/Algorithm/IpPDFullSpaceSolver.cpp | 17 +++++++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/IpLeastSquareMults.cpp b/src/Algorithm/IpLeastSquareMults.cpp
index 11c79da..f458b79 100644
--- a/src/Algorithm/IpLeastSquareMults.cpp
+++ b/src/Algorithm/IpLeastSquareMults.cpp
@@ -81,7 +81,7 @@ bool LeastSquareMultipliers::CalculateMultipliers(
                                  NULL, 0., *rhs_x, *rhs_s, *rhs_c, *rhs_d, *sol_x, *sol_s, y_c, y_d, check_NegEVals, numberOfEVals);
    // TODO should something be tried if inertia seem wrong (retval == SYMSOLVER_WRONG_INERTIA)?
    //      PDFullSpaceSolver::SolveOnce tries asking the linear solver to increase quality or perturbs the linear system
-   if( retval != SYMSOLVER_SUCCESS )
+   if( retval != SYMSOLVER_SUCCESS || !y_c.HasValidNumbers() || !y_d.HasValidNumbers() )
    {
       return false;
    }
diff --git a/src/Algorithm/IpPDFullSpaceSolver.cpp b/src/Algorithm/IpPDFullSpaceSolver.cpp
index 195ab4d..bd54108 100644
--- a/src/Algorithm/IpPDFullSpaceSolver.cpp
+++ b/src/Algorithm/IpPDFullSpaceSolver.cpp
@@ -8,6 +8,7 @@
 #include "IpDebug.hpp"
 
 #include <cmath>
+#include <limits>
 
 namespace Ipopt
 {
@@ -349,6 +350,16 @@ bool PDFullSpaceSolver::Solve(
 
    } // End of loop for solving the linear system (incl. modifications)
 
+   // If the solution still contains invalid numbers, there is nothing that could be used,
+   // so we let the calling routine deal with it.
+   if( !res.HasValidNumbers() )
+   {
+      Jnlst().Printf(J_DETAILED, J_LINEAR_ALGEBRA,
+                     "Solution of the linear system contains invalid numbers.\n");
+      IpData().TimingStats().PDSystemSolverTotal().End();
+      return false;
+   }
+
    // Finally let's assemble the res result vectors
    if( alpha != 0. )
    {
@@ -800,6 +811,12 @@ Number PDFullSpaceSolver::ComputeResidualRatio(
 {
    DBG_START_METH("PDFullSpaceSolver::ComputeResidualRatio", dbg_verbosity);
 
+   // Amax() skips NaNs, so check here whether the solution is usable at all
+   if( !resid.HasValidNumbers() )
+   {
+      return std::numeric_limits<Number>::max();
+   }
+
    Number nrm_rhs = rhs.Amax();
    Number nrm_res = res.Amax();
    Number nrm_resid = resid.Amax();
-- 
2.43.0


From 2d3879d30e3c8ea29cf4e259d389b6fee3be4fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:35 +0000
Subject: [PATCH 32/70] fix: let MUMPS workspace grow also from
 mumps_mem_percent=0

---
 src/Algorithm/LinearSolvers/IpMumpsSolverInterface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/LinearSolvers/IpMumpsSolverInterface.cpp b/src/Algorithm/LinearSolvers/IpMumpsSolverInterface.cpp
index 738efdd..f7d7f96 100644
--- a/src/Algorithm/LinearSolvers/IpMumpsSolverInterface.cpp
+++ b/src/Algorithm/LinearSolvers/IpMumpsSolverInterface.cpp
@@ -488,7 +488,7 @@ ESymSolverStatus MumpsSolverInterface::Factorization(
          Jnlst().Printf(J_WARNING, J_LINEAR_ALGEBRA,
                         "MUMPS returned INFO(1) = %" IPOPT_INDEX_FORMAT " and requires more memory, reallocating.  Attempt %d\n", error, trycount + 1);
          MUMPS_INT old_mem_percent = mumps_data->icntl[13];
-         ComputeMemIncrease(mumps_data->icntl[13], 2.0 * (Number)old_mem_percent, MUMPS_INT(0), "percent extra working space for MUMPS");
+         ComputeMemIncrease(mumps_data->icntl[13], 2.0 * (Number)old_mem_percent, MUMPS_INT(1), "percent extra working space for MUMPS");
          Jnlst().Printf(J_WARNING, J_LINEAR_ALGEBRA,
                         "  Increasing icntl[13] from %" IPOPT_INDEX_FORMAT " to %" IPOPT_INDEX_FORMAT ".\n", old_mem_percent, mumps_data->icntl[13]);
 
@@ -679,7 +679,7 @@ ESymSolverStatus MumpsSolverInterface::DetermineDependentRows(
          Jnlst().Printf(J_WARNING, J_LINEAR_ALGEBRA,
                         "MUMPS returned INFO(1) = %" IPOPT_INDEX_FORMAT " and requires more memory, reallocating.  Attempt %d\n", error, trycount + 1);
          MUMPS_INT old_mem_percent = mumps_data->icntl[13];
-         ComputeMemIncrease(mumps_data->icntl[13], 2.0 * (Number)old_mem_percent, MUMPS_INT(0), "percent extra working space for MUMPS");
+         ComputeMemIncrease(mumps_data->icntl[13], 2.0 * (Number)old_mem_percent, MUMPS_INT(1), "percent extra working space for MUMPS");
          Jnlst().Printf(J_WARNING, J_LINEAR_ALGEBRA,
                         "  Increasing icntl[13] from %" IPOPT_INDEX_FORMAT " to %" IPOPT_INDEX_FORMAT ".\n", old_mem_percent, mumps_data->icntl[13]);
 
-- 
2.43.0


From fbcb583251790c7ee7d5b64d7a82cf5d96f14ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:35 +0000
Subject: [PATCH 33/70] fix: do not print an unset Hessian in the restoration
 phase output

---
 src/Algorithm/IpRestoIterationOutput.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/IpRestoIterationOutput.cpp b/src/Algorithm/IpRestoIterationOutput.cpp
index d9d662f..9725374 100644
--- a/src/Algorithm/IpRestoIterationOutput.cpp
+++ b/src/Algorithm/IpRestoIterationOutput.cpp
@@ -290,7 +290,10 @@ void RestoIterationOutput::WriteOutput()
    {
       IpCq().curr_jac_c()->Print(Jnlst(), J_MATRIX, J_MAIN, "jac_c");
       IpCq().curr_jac_d()->Print(Jnlst(), J_MATRIX, J_MAIN, "jac_d");
-      IpData().W()->Print(Jnlst(), J_MATRIX, J_MAIN, "W");
+      if( IsValid(IpData().W()) )
+      {
+         IpData().W()->Print(Jnlst(), J_MATRIX, J_MAIN, "W");
+      }
    }
 
    Jnlst().Printf(J_DETAILED, J_MAIN,
-- 
2.43.0


From 9aa0590d188cc9931e33ac7097bfb678ff0fb50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:35 +0000
Subject: [PATCH 34/70] fix: initialize the cache tag of
 Vector::HasValidNumbers

---
 src/LinAlg/IpVector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LinAlg/IpVector.hpp b/src/LinAlg/IpVector.hpp
index 67aab42..0c74120 100644
--- a/src/LinAlg/IpVector.hpp
+++ b/src/LinAlg/IpVector.hpp
@@ -542,6 +542,7 @@ inline Vector::Vector(
      min_cache_tag_(0),
      sum_cache_tag_(0),
      sumlogs_cache_tag_(0),
+     valid_cache_tag_(0),
      cached_valid_(0)
 {
    DBG_ASSERT(IsValid(owner_space_));
-- 
2.43.0


From f5511da2a732a5cb19132d33d64af40d1ef73a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:35 +0000
Subject: [PATCH 35/70] fix: check for failed allocation in
 MumpsSolverInterface constructor

---
 src/Algorithm/LinearSolvers/IpMumpsSolverInterface.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Algorithm/LinearSolvers/IpMumpsSolverInterface.cpp b/src/Algorithm/LinearSolvers/IpMumpsSolverInterface.cpp
index f7d7f96..85c3e30 100644
--- a/src/Algorithm/LinearSolvers/IpMumpsSolverInterface.cpp
+++ b/src/Algorithm/LinearSolvers/IpMumpsSolverInterface.cpp
@@ -94,6 +94,10 @@ MumpsSolverInterface::MumpsSolverInterface()
 
    //initialize mumps
    MUMPS_STRUC_C* mumps_ = static_cast<MUMPS_STRUC_C*>(calloc(1, sizeof(MUMPS_STRUC_C)));
+   if( mumps_ == NULL )
+   {
+      throw std::bad_alloc();
+   }
    mumps_->job = -1; //initialize mumps
    mumps_->par = 1; //working host for sequential version
    mumps_->sym = 2; //general symmetric matrix
-- 
2.43.0


From f6c6670f6e1aec23a95b889bf56bab119690b7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:35 +0000
Subject: [PATCH 36/70] fix: catch exceptions also in
 IpoptApplication::ReOptimizeNLP

---
 src/Interfaces/IpIpoptApplication.cpp | 52 +++++++++++++++++++++++++--
 1 file changed, 50 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/IpIpoptApplication.cpp b/src/Interfaces/IpIpoptApplication.cpp
index a8d19e5..cf0e0f3 100644
--- a/src/Interfaces/IpIpoptApplication.cpp
+++ b/src/Interfaces/IpIpoptApplication.cpp
@@ -469,7 +469,16 @@ ApplicationReturnStatus IpoptApplication::OptimizeTNLP(
    const SmartPtr<TNLP>& tnlp
 )
 {
-   nlp_adapter_ = new TNLPAdapter(GetRawPtr(tnlp), ConstPtr(jnlst_));
+   try
+   {
+      nlp_adapter_ = new TNLPAdapter(GetRawPtr(tnlp), ConstPtr(jnlst_));
+   }
+   catch( std::bad_alloc& )
+   {
+      jnlst_->Printf(J_SUMMARY, J_MAIN, "\nEXIT: Not enough memory.\n");
+      return Insufficient_Memory;
+   }
+
    return OptimizeNLP(nlp_adapter_);
 }
 
@@ -589,7 +598,46 @@ ApplicationReturnStatus IpoptApplication::ReOptimizeNLP(
    DBG_ASSERT(dynamic_cast<OrigIpoptNLP*> (GetRawPtr(ip_nlp_)));
    ASSERT_EXCEPTION(orig_nlp->nlp() == nlp, INVALID_WARMSTART, "ReOptimizeTNLP called for different NLP.")
 
-   return call_optimize();
+   ApplicationReturnStatus retValue = Internal_Error;
+
+   // call_optimize() does not catch what happens when finalizing the solution
+   try
+   {
+      retValue = call_optimize();
+   }
+   catch( IpoptException& exc )
+   {
+      exc.ReportException(*jnlst_, J_ERROR);
+      jnlst_->Printf(J_SUMMARY, J_MAIN, "\nEXIT: Some uncaught Ipopt exception encountered.\n");
+      retValue = Unrecoverable_Exception;
+   }
+   catch( std::bad_alloc& )
+   {
+      retValue = Insufficient_Memory;
+      jnlst_->Printf(J_SUMMARY, J_MAIN, "\nEXIT: Not enough memory.\n");
+   }
+   catch( std::overflow_error& )
+   {
+      retValue = Insufficient_Memory;
+      jnlst_->Printf(J_SUMMARY, J_MAIN, "\nEXIT: Integer type too small for required memory.\n");
+   }
+   catch( ... )
+   {
+      if( !rethrow_nonipoptexception_ )
+      {
+         IpoptException exc("Unknown Exception caught in Ipopt", "Unknown File", -1);
+         exc.ReportException(*jnlst_, J_ERROR);
+         retValue = NonIpopt_Exception_Thrown;
+      }
+      else
+      {
+         throw;
+      }
+   }
+
+   jnlst_->FlushBuffer();
+
+   return retValue;
 }
 
 ApplicationReturnStatus IpoptApplication::call_optimize()
-- 
2.43.0


From 299eb4570792cc27b81d0c2deed2ba85deea98f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:35 +0000
Subject: [PATCH 37/70] fix: initialize all row starts of an empty
 finite-difference Jacobian

---
 src/Interfaces/IpTNLPAdapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index efb2003..29625c3 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2993,7 +2993,7 @@ void TNLPAdapter::initialize_findiff_jac(
    }
    else
    {
-      memset(findiff_jac_ia_, 0, n_full_x_ * sizeof(Index));
+      memset(findiff_jac_ia_, 0, (n_full_x_ + 1) * sizeof(Index));
    }
    const Index* ja = findiff_jac_converter->JA();
    for( Index i = 0; i < findiff_jac_nnz_; i++ )
-- 
2.43.0


From 3712daf188926e5609d53fa5e55fb66207442cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:57 +0000
Subject: [PATCH 38/70] fix: do not loop forever when reading options from a
 failing stream

---
 src/Common/IpOptionsList.cpp | 41 +++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/Common/IpOptionsList.cpp b/src/Common/IpOptionsList.cpp
index 7aafa04..ee5fcec 100644
--- a/src/Common/IpOptionsList.cpp
+++ b/src/Common/IpOptionsList.cpp
@@ -707,6 +707,13 @@ bool OptionsList::ReadFromStream(
 
       if( !readnexttoken(is, tag) )
       {
+         if( is.bad() )
+         {
+            jnlst.Printf(J_ERROR, J_MAIN,
+                         "Error reading options from file.\n");
+            return false;
+         }
+
          // That's it - end of file reached.
          jnlst.Printf(J_DETAILED, J_MAIN,
                       "Finished reading options from file.\n");
@@ -861,7 +868,7 @@ bool OptionsList::readnexttoken(
    char c = is.get();
 
    // First get rid of all comments and white spaces
-   while( !is.eof() && (isspace(c) || c == '#') )
+   while( is.good() && (isspace(c) || c == '#') )
    {
       if( c == '#' )
       {
@@ -870,37 +877,41 @@ bool OptionsList::readnexttoken(
       c = is.get();
    }
 
+   if( !is.good() )
+   {
+      return false;
+   }
+
    bool inside_quotes = (c == '"');
    if( inside_quotes )
    {
-      if( is.eof() )
+      c = is.get();
+      if( !is.good() )
       {
          return false;   // eof after quotation symbol
       }
-      c = is.get();
-   }
-
-   if( is.eof() )
-   {
-      return false;
+      if( c == '"' )
+      {
+         // empty string
+         inside_quotes = false;
+         c = is.get();
+      }
    }
 
    // Now read the token
-   while( !is.eof() && (inside_quotes || !isspace(c)) )
+   while( is.good() && (inside_quotes || !isspace(c)) )
    {
       token += (char) c;
       c = is.get();
-      if( inside_quotes && (c == '"') )
+      if( inside_quotes && is.good() && (c == '"') )
       {
          inside_quotes = false;
-         if( !is.eof() )
-         {
-            c = is.get();
-         }
+         c = is.get();
       }
    }
 
-   return !inside_quotes;
+   // if the stream failed to deliver data, then the token may be incomplete
+   return !inside_quotes && !is.bad();
 }
 
 } // namespace Ipopt
-- 
2.43.0


From 269a6b1d1bb48b459c3c795dfaf564105e501802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:57 +0000
Subject: [PATCH 39/70] fix: keep full precision of number options

---
 src/Common/IpOptionsList.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Common/IpOptionsList.cpp b/src/Common/IpOptionsList.cpp
index ee5fcec..7b84c55 100644
--- a/src/Common/IpOptionsList.cpp
+++ b/src/Common/IpOptionsList.cpp
@@ -11,6 +11,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <limits>
 
 namespace Ipopt
 {
@@ -115,8 +116,13 @@ bool OptionsList::SetNumericValue(
    bool               dont_print     /* = false */
 )
 {
+   // use as few digits as possible, but do not lose precision
    char buffer[256];
    Snprintf(buffer, 255, "%g", value);
+   for( int digits = 7; digits <= std::numeric_limits<Number>::digits10 + 2 && value == value && (Number)strtod(buffer, NULL) != value; ++digits )
+   {
+      Snprintf(buffer, 255, "%.*g", digits, value);
+   }
 
    if( IsValid(reg_options_) )
    {
-- 
2.43.0


From 782e5a63ac9b38f444f208ef302a62195d3f66ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:57 +0000
Subject: [PATCH 40/70] fix: do not accept NaN for number options with bounds

---
 src/Common/IpRegOptions.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Common/IpRegOptions.hpp b/src/Common/IpRegOptions.hpp
index 38ad026..02118ca 100644
--- a/src/Common/IpRegOptions.hpp
+++ b/src/Common/IpRegOptions.hpp
@@ -557,6 +557,11 @@ public:
    ) const
    {
       DBG_ASSERT(type_ == OT_Number);
+      // NaN is not within any bounds
+      if( value != value && (has_lower_ || has_upper_) )
+      {
+         return false;
+      }
       if( has_lower_ && ((lower_strict_ == true && value <= lower_) || (lower_strict_ == false && value < lower_)) )
       {
          return false;
-- 
2.43.0


From 24d5bd5db42f6cc166f3405fe2a72188d3123dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:57 +0000
Subject: [PATCH 41/70] fix: reject integer options that do not fit and empty
 numbers in option files

---
 src/Common/IpOptionsList.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/Common/IpOptionsList.cpp b/src/Common/IpOptionsList.cpp
index 7b84c55..b2b8fb9 100644
--- a/src/Common/IpOptionsList.cpp
+++ b/src/Common/IpOptionsList.cpp
@@ -8,6 +8,7 @@
 #include "IpOptionsList.hpp"
 
 #include <cctype>
+#include <cerrno>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
@@ -556,7 +557,7 @@ bool OptionsList::GetNumericValue(
       }
       char* p_end;
       Number retval = strtod(buffer, &p_end);
-      if( *p_end != '\0' && !isspace(*p_end) )
+      if( p_end == buffer || (*p_end != '\0' && !isspace(*p_end)) )
       {
          delete[] buffer;
          std::string msg = "Option \"" + tag + "\": Double value expected, but non-numeric value \"" + strvalue
@@ -622,8 +623,9 @@ bool OptionsList::GetIntegerValue(
    if( find_tag(tag, prefix, strvalue) )
    {
       char* p_end;
-      size_t retval = strtol(strvalue.c_str(), &p_end, 10);
-      if( *p_end != '\0' && !isspace(*p_end) )
+      errno = 0;
+      long retval = strtol(strvalue.c_str(), &p_end, 10);
+      if( p_end == strvalue.c_str() || (*p_end != '\0' && !isspace(*p_end)) || errno == ERANGE || (long)static_cast<Index>(retval) != retval )
       {
          std::string msg = "Option \"" + tag + "\": Integer value expected, but non-integer value \"" + strvalue
                            + "\" found.\n";
@@ -770,7 +772,7 @@ bool OptionsList::ReadFromStream(
             }
             char* p_end;
             Number retval = strtod(buffer, &p_end);
-            if( *p_end != '\0' && !isspace(*p_end) )
+            if( p_end == buffer || (*p_end != '\0' && !isspace(*p_end)) )
             {
                delete[] buffer;
                std::string msg = "Option \"" + tag + "\": Double value expected, but non-numeric option value \""
@@ -785,8 +787,9 @@ bool OptionsList::ReadFromStream(
          else if( option->Type() == OT_Integer )
          {
             char* p_end;
-            size_t retval = strtol(value.c_str(), &p_end, 10);
-            if( *p_end != '\0' && !isspace(*p_end) )
+            errno = 0;
+            long retval = strtol(value.c_str(), &p_end, 10);
+            if( p_end == value.c_str() || (*p_end != '\0' && !isspace(*p_end)) || errno == ERANGE || (long)static_cast<Index>(retval) != retval )
             {
                std::string msg = "Option \"" + tag + "\": Integer value expected, but non-integer option value \""
                                  + value + "\" found.\n";
-- 
2.43.0


From 19e742b9cad0454869a74584dd0c0bbe16c0e142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:57 +0000
Subject: [PATCH 42/70] fix: do not leave uninitialized options if memory runs
 out

---
 src/Common/IpOptionsList.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Common/IpOptionsList.cpp b/src/Common/IpOptionsList.cpp
index b2b8fb9..f385ea6 100644
--- a/src/Common/IpOptionsList.cpp
+++ b/src/Common/IpOptionsList.cpp
@@ -96,7 +96,8 @@ bool OptionsList::SetStringValue(
    {
       //    if (will_allow_clobber(tag)) {
       OptionsList::OptionValue optval(value, allow_clobber, dont_print);
-      options_[lowercase(tag)] = optval;
+      // insert first, so that no uninitialized value is left if memory runs out
+      options_.insert(std::make_pair(lowercase(tag), optval)).first->second = optval;
    }
    return true;
 
@@ -197,7 +198,8 @@ bool OptionsList::SetNumericValue(
    else
    {
       OptionsList::OptionValue optval(buffer, allow_clobber, dont_print);
-      options_[lowercase(tag)] = optval;
+      // insert first, so that no uninitialized value is left if memory runs out
+      options_.insert(std::make_pair(lowercase(tag), optval)).first->second = optval;
    }
    return true;
 }
@@ -285,7 +287,8 @@ bool OptionsList::SetIntegerValue(
    {
       //    if (will_allow_clobber(tag)) {
       OptionsList::OptionValue optval(buffer, allow_clobber, dont_print);
-      options_[lowercase(tag)] = optval;
+      // insert first, so that no uninitialized value is left if memory runs out
+      options_.insert(std::make_pair(lowercase(tag), optval)).first->second = optval;
    }
    return true;
 }
-- 
2.43.0


From 41a63309a32d477a5d6f4b84878d0f3673638a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:57 +0000
Subject: [PATCH 43/70] fix: let IpoptApplication::Initialize fail if options
 could not be read

---
 src/Interfaces/IpIpoptApplication.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/IpIpoptApplication.cpp b/src/Interfaces/IpIpoptApplication.cpp
index cf0e0f3..6775bf8 100644
--- a/src/Interfaces/IpIpoptApplication.cpp
+++ b/src/Interfaces/IpIpoptApplication.cpp
@@ -168,7 +168,10 @@ ApplicationReturnStatus IpoptApplication::Initialize(
       if( is.good() )
       {
          // stream exists, read the content
-         options_->ReadFromStream(*jnlst_, is, allow_clobber);
+         if( !options_->ReadFromStream(*jnlst_, is, allow_clobber) )
+         {
+            return Invalid_Option;
+         }
       }
 
       bool no_output;
-- 
2.43.0


From b43a8185079d50c87b9f466c47f12c6d30e86ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:57 +0000
Subject: [PATCH 44/70] fix: do not cut lines of long option values in option
 lists

---
 src/Common/IpOptionsList.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/Common/IpOptionsList.cpp b/src/Common/IpOptionsList.cpp
index f385ea6..2374aea 100644
--- a/src/Common/IpOptionsList.cpp
+++ b/src/Common/IpOptionsList.cpp
@@ -668,7 +668,15 @@ void OptionsList::PrintList(
    list += buffer;
    for( std::map<std::string, OptionValue>::const_iterator p = options_.begin(); p != options_.end(); ++p )
    {
-      Snprintf(buffer, 255, "%40s = %-20s %6" IPOPT_INDEX_FORMAT "\n", p->first.c_str(), p->second.Value().c_str(), p->second.Counter());
+      std::string value = p->second.Value();
+      if( value.length() < 20 )
+      {
+         value.resize(20, ' ');
+      }
+      Snprintf(buffer, 255, "%40s = ", p->first.c_str());
+      list += buffer;
+      list += value;
+      Snprintf(buffer, 255, " %6" IPOPT_INDEX_FORMAT "\n", p->second.Counter());
       list += buffer;
    }
 }
@@ -696,7 +704,15 @@ void OptionsList::PrintUserOptions(
          {
             used = no;
          }
-         Snprintf(buffer, 255, "%40s = %-20s %4s\n", p->first.c_str(), p->second.Value().c_str(), used);
+         std::string value = p->second.Value();
+         if( value.length() < 20 )
+         {
+            value.resize(20, ' ');
+         }
+         Snprintf(buffer, 255, "%40s = ", p->first.c_str());
+         list += buffer;
+         list += value;
+         Snprintf(buffer, 255, " %4s\n", used);
          list += buffer;
       }
    }
-- 
2.43.0


From e42530f448b80c3fd4d5c1915c733477a79f5cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:29 +0000
Subject: [PATCH 45/70] fix: do not let exceptions escape from the C and
 Fortran interfaces

Memory shortage in the functions of the C interface let std::bad_alloc or an
IpoptException propagate into C or Fortran code.
---
 src/Interfaces/IpStdCInterface.cpp | 216 +++++++++++++++++++----------
 src/Interfaces/IpStdFInterface.c   |  12 +-
 2 files changed, 147 insertions(+), 81 deletions(-)

diff --git a/src/Interfaces/IpStdCInterface.cpp b/src/Interfaces/IpStdCInterface.cpp
index e9a7ca9..7833946 100644
--- a/src/Interfaces/IpStdCInterface.cpp
+++ b/src/Interfaces/IpStdCInterface.cpp
@@ -11,6 +11,8 @@
 #include "IpBlas.hpp"
 #include "IpSmartPtr.hpp"
 
+#include <new>
+
 struct IpoptProblemInfo
 {
    Ipopt::SmartPtr<Ipopt::IpoptApplication> app;
@@ -59,48 +61,61 @@ IpoptProblem CreateIpoptProblem(
       return NULL;
    }
 
-   IpoptProblem retval = new IpoptProblemInfo;
+   IpoptProblem retval = NULL;
+   try
+   {
+      retval = new IpoptProblemInfo;
 
-   retval->tnlp = NULL;
+      retval->x_L = NULL;
+      retval->x_U = NULL;
+      retval->g_L = NULL;
+      retval->g_U = NULL;
+      retval->x_scaling = NULL;
+      retval->g_scaling = NULL;
 
-   retval->n   = n;
-   retval->x_L = new ipnumber[n];
-   Ipopt::IpBlasCopy(n, x_L, 1, retval->x_L, 1);
+      retval->tnlp = NULL;
 
-   retval->x_U = new ipnumber[n];
-   Ipopt::IpBlasCopy(n, x_U, 1, retval->x_U, 1);
+      retval->n   = n;
+      retval->x_L = new ipnumber[n];
+      Ipopt::IpBlasCopy(n, x_L, 1, retval->x_L, 1);
 
-   retval->m = m;
-   if( m > 0 )
-   {
-      retval->g_L = new ipnumber[m];
-      Ipopt::IpBlasCopy(m, g_L, 1, retval->g_L, 1);
+      retval->x_U = new ipnumber[n];
+      Ipopt::IpBlasCopy(n, x_U, 1, retval->x_U, 1);
 
-      retval->g_U = new ipnumber[m];
-      Ipopt::IpBlasCopy(m, g_U, 1, retval->g_U, 1);
-   }
-   else
-   {
-      retval->g_L = NULL;
-      retval->g_U = NULL;
-   }
+      retval->m = m;
+      if( m > 0 )
+      {
+         retval->g_L = new ipnumber[m];
+         Ipopt::IpBlasCopy(m, g_L, 1, retval->g_L, 1);
+
+         retval->g_U = new ipnumber[m];
+         Ipopt::IpBlasCopy(m, g_U, 1, retval->g_U, 1);
+      }
 
-   retval->app = new Ipopt::IpoptApplication();
+      retval->app = new Ipopt::IpoptApplication();
 
-   retval->nele_jac = nele_jac;
-   retval->nele_hess = nele_hess;
-   retval->index_style = index_style;
-   retval->eval_f = eval_f;
-   retval->eval_g = eval_g;
-   retval->eval_grad_f = eval_grad_f;
-   retval->eval_jac_g = eval_jac_g;
-   retval->eval_h = eval_h;
-   retval->intermediate_cb = NULL;
-   retval->obj_scaling = 1;
-   retval->x_scaling = NULL;
-   retval->g_scaling = NULL;
+      retval->nele_jac = nele_jac;
+      retval->nele_hess = nele_hess;
+      retval->index_style = index_style;
+      retval->eval_f = eval_f;
+      retval->eval_g = eval_g;
+      retval->eval_grad_f = eval_grad_f;
+      retval->eval_jac_g = eval_jac_g;
+      retval->eval_h = eval_h;
+      retval->intermediate_cb = NULL;
+      retval->obj_scaling = 1;
 
-   retval->app->RethrowNonIpoptException(false);
+      retval->app->RethrowNonIpoptException(false);
+   }
+   catch( ... )
+   {
+      // e.g., not enough memory; exceptions must not propagate into C code
+      if( retval != NULL )
+      {
+         FreeIpoptProblem(retval);
+      }
+      return NULL;
+   }
 
    return retval;
 }
@@ -127,7 +142,15 @@ bool AddIpoptStrOption(
    char*        val
 )
 {
-   return ipopt_problem->app->Options()->SetStringValue(keyword, val);
+   try
+   {
+      return ipopt_problem->app->Options()->SetStringValue(keyword, val);
+   }
+   catch( ... )
+   {
+      // e.g., not enough memory; exceptions must not propagate into C code
+      return false;
+   }
 }
 
 bool AddIpoptNumOption(
@@ -136,7 +159,15 @@ bool AddIpoptNumOption(
    ipnumber     val
 )
 {
-   return ipopt_problem->app->Options()->SetNumericValue(keyword, val);
+   try
+   {
+      return ipopt_problem->app->Options()->SetNumericValue(keyword, val);
+   }
+   catch( ... )
+   {
+      // e.g., not enough memory; exceptions must not propagate into C code
+      return false;
+   }
 }
 
 bool AddIpoptIntOption(
@@ -145,7 +176,15 @@ bool AddIpoptIntOption(
    ipindex      val
 )
 {
-   return ipopt_problem->app->Options()->SetIntegerValue(keyword, val);
+   try
+   {
+      return ipopt_problem->app->Options()->SetIntegerValue(keyword, val);
+   }
+   catch( ... )
+   {
+      // e.g., not enough memory; exceptions must not propagate into C code
+      return false;
+   }
 }
 
 bool OpenIpoptOutputFile(
@@ -154,7 +193,15 @@ bool OpenIpoptOutputFile(
    int          print_level
 )
 {
-   return ipopt_problem->app->OpenOutputFile(file_name, Ipopt::EJournalLevel(print_level));
+   try
+   {
+      return ipopt_problem->app->OpenOutputFile(file_name, Ipopt::EJournalLevel(print_level));
+   }
+   catch( ... )
+   {
+      // e.g., not enough memory; exceptions must not propagate into C code
+      return false;
+   }
 }
 
 bool SetIpoptProblemScaling(
@@ -164,35 +211,42 @@ bool SetIpoptProblemScaling(
    ipnumber*    g_scaling
 )
 {
-   ipopt_problem->obj_scaling = obj_scaling;
-
-   if( x_scaling )
+   // get memory first, so that nothing is changed if this fails
+   ipnumber* x_scaling_copy = NULL;
+   ipnumber* g_scaling_copy = NULL;
+   try
    {
-      if( !ipopt_problem->x_scaling )
+      if( x_scaling )
+      {
+         x_scaling_copy = new ipnumber[ipopt_problem->n];
+      }
+      if( g_scaling )
       {
-         ipopt_problem->x_scaling = new ipnumber[ipopt_problem->n];
+         g_scaling_copy = new ipnumber[ipopt_problem->m];
       }
-      Ipopt::IpBlasCopy(ipopt_problem->n, x_scaling, 1, ipopt_problem->x_scaling, 1);
    }
-   else
+   catch( ... )
    {
-      delete[] ipopt_problem->x_scaling;
-      ipopt_problem->x_scaling = NULL;
+      // exceptions must not propagate into C code
+      delete[] x_scaling_copy;
+      return false;
    }
 
-   if( g_scaling )
+   ipopt_problem->obj_scaling = obj_scaling;
+
+   if( x_scaling )
    {
-      if( !ipopt_problem->g_scaling )
-      {
-         ipopt_problem->g_scaling = new ipnumber[ipopt_problem->m];
-      }
-      Ipopt::IpBlasCopy(ipopt_problem->m, g_scaling, 1, ipopt_problem->g_scaling, 1);
+      Ipopt::IpBlasCopy(ipopt_problem->n, x_scaling, 1, x_scaling_copy, 1);
    }
-   else
+   delete[] ipopt_problem->x_scaling;
+   ipopt_problem->x_scaling = x_scaling_copy;
+
+   if( g_scaling )
    {
-      delete[] ipopt_problem->g_scaling;
-      ipopt_problem->g_scaling = NULL;
+      Ipopt::IpBlasCopy(ipopt_problem->m, g_scaling, 1, g_scaling_copy, 1);
    }
+   delete[] ipopt_problem->g_scaling;
+   ipopt_problem->g_scaling = g_scaling_copy;
 
    return true;
 }
@@ -231,34 +285,36 @@ enum ApplicationReturnStatus IpoptSolve(
       return ApplicationReturnStatus(Ipopt::Invalid_Problem_Definition);
    }
 
-   // Copy the starting point information
-   ipnumber* start_x = new ipnumber[ipopt_problem->n];
-   Ipopt::IpBlasCopy(ipopt_problem->n, x, 1, start_x, 1);
-
+   ipnumber* start_x = NULL;
    ipnumber* start_lam = NULL;
-   if( mult_g )
-   {
-      start_lam = new ipnumber[ipopt_problem->m];
-      Ipopt::IpBlasCopy(ipopt_problem->m, mult_g, 1, start_lam, 1);
-   }
-
    ipnumber* start_z_L = NULL;
-   if( mult_x_L )
-   {
-      start_z_L = new ipnumber[ipopt_problem->n];
-      Ipopt::IpBlasCopy(ipopt_problem->n, mult_x_L, 1, start_z_L, 1);
-   }
-
    ipnumber* start_z_U = NULL;
-   if( mult_x_U )
-   {
-      start_z_U = new ipnumber[ipopt_problem->n];
-      Ipopt::IpBlasCopy(ipopt_problem->n, mult_x_U, 1, start_z_U, 1);
-   }
 
    Ipopt::ApplicationReturnStatus status;
    try
    {
+      // Copy the starting point information
+      start_x = new ipnumber[ipopt_problem->n];
+      Ipopt::IpBlasCopy(ipopt_problem->n, x, 1, start_x, 1);
+
+      if( mult_g )
+      {
+         start_lam = new ipnumber[ipopt_problem->m];
+         Ipopt::IpBlasCopy(ipopt_problem->m, mult_g, 1, start_lam, 1);
+      }
+
+      if( mult_x_L )
+      {
+         start_z_L = new ipnumber[ipopt_problem->n];
+         Ipopt::IpBlasCopy(ipopt_problem->n, mult_x_L, 1, start_z_L, 1);
+      }
+
+      if( mult_x_U )
+      {
+         start_z_U = new ipnumber[ipopt_problem->n];
+         Ipopt::IpBlasCopy(ipopt_problem->n, mult_x_U, 1, start_z_U, 1);
+      }
+
       // Create the original nlp
       ipopt_problem->tnlp = new Ipopt::StdInterfaceTNLP(ipopt_problem->n, ipopt_problem->x_L, ipopt_problem->x_U,
          ipopt_problem->m, ipopt_problem->g_L, ipopt_problem->g_U,
@@ -280,6 +336,12 @@ enum ApplicationReturnStatus IpoptSolve(
       exc.ReportException(*ipopt_problem->app->Jnlst(), Ipopt::J_ERROR);
       status = Ipopt::Unrecoverable_Exception;
    }
+   catch( std::bad_alloc& )
+   {
+      // this can happen when copying the starting point or creating the TNLP
+      ipopt_problem->app->Jnlst()->Printf(Ipopt::J_SUMMARY, Ipopt::J_MAIN, "\nEXIT: Not enough memory.\n");
+      status = Ipopt::Insufficient_Memory;
+   }
    ipopt_problem->tnlp = NULL;
 
    delete[] start_x;
diff --git a/src/Interfaces/IpStdFInterface.c b/src/Interfaces/IpStdFInterface.c
index 65d3a48..338e3c5 100644
--- a/src/Interfaces/IpStdFInterface.c
+++ b/src/Interfaces/IpStdFInterface.c
@@ -344,6 +344,10 @@ IPOPTLIB_EXPORT fptr F77_FUNC(ipcreate, IPCREATE)(
    FUserData* fuser_data;
 
    fuser_data = (FUserData*) malloc(sizeof(FUserData));
+   if( fuser_data == NULL )
+   {
+      return (fptr)NULL;
+   }
 
    /* First create a new IpoptProblem object; if that fails return 0 */
    fuser_data->Problem = CreateIpoptProblem(n, X_L, X_U, m, G_L, G_U, nele_jac, nele_hess,
@@ -440,7 +444,7 @@ IPOPTLIB_EXPORT ipindex F77_FUNC(ipaddstroption, IPADDSTROPTION)(
    keyword = f2cstr(KEYWORD, klen);
    val = f2cstr(VALUE, vlen);
 
-   retval = AddIpoptStrOption(fuser_data->Problem, keyword, val);
+   retval = keyword != NULL && val != NULL && AddIpoptStrOption(fuser_data->Problem, keyword, val);
 
    free(val);
    free(keyword);
@@ -461,7 +465,7 @@ IPOPTLIB_EXPORT ipindex F77_FUNC(ipaddnumoption, IPADDNUMOPTION)(
 
    keyword = f2cstr(KEYWORD, klen);
 
-   retval = AddIpoptNumOption(fuser_data->Problem, keyword, *VALUE);
+   retval = keyword != NULL && AddIpoptNumOption(fuser_data->Problem, keyword, *VALUE);
 
    free(keyword);
 
@@ -482,7 +486,7 @@ IPOPTLIB_EXPORT ipindex F77_FUNC(ipaddintoption, IPADDINTOPTION)(
 
    keyword = f2cstr(KEYWORD, klen);
 
-   retval = AddIpoptIntOption(fuser_data->Problem, keyword, value);
+   retval = keyword != NULL && AddIpoptIntOption(fuser_data->Problem, keyword, value);
 
    free(keyword);
 
@@ -503,7 +507,7 @@ IPOPTLIB_EXPORT ipindex F77_FUNC(ipopenoutputfile, IPOPENOUTPUTFILE)(
 
    filename = f2cstr(FILENAME, flen);
 
-   retval = OpenIpoptOutputFile(fuser_data->Problem, filename, printlevel);
+   retval = filename != NULL && OpenIpoptOutputFile(fuser_data->Problem, filename, printlevel);
 
    free(filename);
 
-- 
2.43.0


From 09cfdbbd92e0cd0e8f9cbb787fb551a2cb80954f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:01 +0000
Subject: [PATCH 46/70] fix: do not leave an invalid option category if memory
 runs out

---
 src/Common/IpRegOptions.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Common/IpRegOptions.cpp b/src/Common/IpRegOptions.cpp
index 9e9cd4d..98c6dde 100644
--- a/src/Common/IpRegOptions.cpp
+++ b/src/Common/IpRegOptions.cpp
@@ -810,11 +810,16 @@ void RegisteredOptions::SetRegisteringCategory(
       return;
    }
 
-   SmartPtr<RegisteredCategory>& reg_categ = registered_categories_[registering_category];
-   if( !IsValid(reg_categ) )
+   RegCategoriesList::const_iterator it = registered_categories_.find(registering_category);
+   if( it != registered_categories_.end() )
    {
-      reg_categ = new RegisteredCategory(registering_category, priority);
+      current_registering_category_ = it->second;
+      return;
    }
+
+   // create the category before adding it to the map, so that no invalid entry remains if this fails
+   SmartPtr<RegisteredCategory> reg_categ = new RegisteredCategory(registering_category, priority);
+   registered_categories_[registering_category] = reg_categ;
    current_registering_category_ = reg_categ;
 }
 
-- 
2.43.0


From ff6e7d122a62841ef0c5ad8d0e7e1f88f6cd6f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:01 +0000
Subject: [PATCH 47/70] fix: do not let IpoptApplication::Initialize throw if
 memory runs out

---
 src/Interfaces/IpIpoptApplication.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/Interfaces/IpIpoptApplication.cpp b/src/Interfaces/IpIpoptApplication.cpp
index 6775bf8..5a9811d 100644
--- a/src/Interfaces/IpIpoptApplication.cpp
+++ b/src/Interfaces/IpIpoptApplication.cpp
@@ -345,14 +345,22 @@ ApplicationReturnStatus IpoptApplication::Initialize(
    bool allow_clobber
 )
 {
-   std::string option_file_name;
-   options_->GetStringValue("option_file_name", option_file_name, "");
-   if( option_file_name != "" && option_file_name != "ipopt.opt" )
+   try
    {
-      jnlst_->Printf(J_SUMMARY, J_MAIN, "Using option file \"%s\".\n\n", option_file_name.c_str());
-   }
+      std::string option_file_name;
+      options_->GetStringValue("option_file_name", option_file_name, "");
+      if( option_file_name != "" && option_file_name != "ipopt.opt" )
+      {
+         jnlst_->Printf(J_SUMMARY, J_MAIN, "Using option file \"%s\".\n\n", option_file_name.c_str());
+      }
 
-   return Initialize(option_file_name, allow_clobber);
+      return Initialize(option_file_name, allow_clobber);
+   }
+   catch( std::bad_alloc& )
+   {
+      jnlst_->Printf(J_SUMMARY, J_MAIN, "\nEXIT: Not enough memory.\n");
+      return Insufficient_Memory;
+   }
 }
 
 IpoptApplication::~IpoptApplication()
-- 
2.43.0


From 78b88727e07a9660bf78715c265dc26af25bc90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:04 +0000
Subject: [PATCH 48/70] fix: do not reuse a constant Hessian of a previous
 solve

---
 src/Algorithm/IpOrigIpoptNLP.cpp | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/Algorithm/IpOrigIpoptNLP.cpp b/src/Algorithm/IpOrigIpoptNLP.cpp
index 09fb0de..6c07770 100644
--- a/src/Algorithm/IpOrigIpoptNLP.cpp
+++ b/src/Algorithm/IpOrigIpoptNLP.cpp
@@ -170,23 +170,27 @@ bool OrigIpoptNLP::Initialize(
       jac_c_cache_.Clear();
       d_cache_.Clear();
       jac_d_cache_.Clear();
-      // If the hessian is constant, we want two hessians to be
-      // cached, one for regular iterations and one for restoration
-      // phase
-      if( hessian_constant_ )
-      {
-         h_cache_.Clear(2);
-      }
-      else
-      {
-         h_cache_.Clear(1);
-      }
+   }
+
+   // Always reset the cache for the Hessian. If it is constant, then the cached
+   // results depend on the objective factor only, but the values may have changed
+   // due to a problem change.
+   // If the hessian is constant, we want two hessians to be
+   // cached, one for regular iterations and one for restoration
+   // phase
+   if( hessian_constant_ )
+   {
+      h_cache_.Clear(2);
+   }
+   else
+   {
+      h_cache_.Clear(1);
    }
 
    // Reset the cache entries belonging to a dummy dependency.  This
    // is required for repeated solve, since the cache is not updated
    // if a dimension is zero.  It is also required if we choose
-   // jac_[cd]_constant, grad_f_constant, or hessian_constant differently between
+   // jac_[cd]_constant or grad_f_constant differently between
    // runs or when the values of these derivatives changes due to a problem change.
    std::vector<const TaggedObject*> deps(1);
    deps[0] = NULL;
@@ -196,8 +200,6 @@ bool OrigIpoptNLP::Initialize(
    d_cache_.InvalidateResult(deps, sdeps);
    jac_c_cache_.InvalidateResult(deps, sdeps);
    jac_d_cache_.InvalidateResult(deps, sdeps);
-   deps.resize(3, NULL);
-   h_cache_.InvalidateResult(deps, sdeps);
 
    if( !nlp_->ProcessOptions(options, prefix) )
    {
-- 
2.43.0


From 6a6c67d4f17ed696dc155b38ccd608ec922caaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:04 +0000
Subject: [PATCH 49/70] fix: keep treatment of fixed variables if the problem
 structure is kept

---
 src/Interfaces/IpTNLPAdapter.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 29625c3..fc3fdee 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -237,9 +237,17 @@ bool TNLPAdapter::ProcessOptions(
    // Registered in IpOrigIpoptNLP
    options.GetNumericValue("bound_relax_factor", bound_relax_factor_, prefix);
 
+   // The option warm_start_same_structure is registered by OrigIpoptNLP
+   options.GetBoolValue("warm_start_same_structure", warm_start_same_structure_, prefix);
+
    Index enum_int;
-   options.GetEnumValue("fixed_variable_treatment", enum_int, prefix);
-   fixed_variable_treatment_ = FixedVariableTreatmentEnum(enum_int);
+   if( !warm_start_same_structure_ )
+   {
+      // if the structure is kept, then the treatment of fixed variables has to be kept, too
+      // (it may have been changed to RELAX_BOUNDS when the structure was setup)
+      options.GetEnumValue("fixed_variable_treatment", enum_int, prefix);
+      fixed_variable_treatment_ = FixedVariableTreatmentEnum(enum_int);
+   }
    options.GetEnumValue("derivative_test", enum_int, prefix);
    derivative_test_ = DerivativeTestEnum(enum_int);
    options.GetNumericValue("derivative_test_perturbation", derivative_test_perturbation_, prefix);
@@ -247,8 +255,6 @@ bool TNLPAdapter::ProcessOptions(
    options.GetBoolValue("derivative_test_print_all", derivative_test_print_all_, prefix);
    options.GetIntegerValue("derivative_test_first_index", derivative_test_first_index_, prefix);
 
-   // The option warm_start_same_structure is registered by OrigIpoptNLP
-   options.GetBoolValue("warm_start_same_structure", warm_start_same_structure_, prefix);
    // The following is registered in OrigIpoptNLP
    options.GetEnumValue("hessian_approximation", enum_int, prefix);
    hessian_approximation_ = HessianApproximationType(enum_int);
-- 
2.43.0


From 9479994d93615cbc161dbd631327640d97e4d4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:01 +0000
Subject: [PATCH 50/70] fix: forget original bounds of a previous solve if
 bounds are not relaxed

---
 src/Algorithm/IpOrigIpoptNLP.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Algorithm/IpOrigIpoptNLP.cpp b/src/Algorithm/IpOrigIpoptNLP.cpp
index 6c07770..9366321 100644
--- a/src/Algorithm/IpOrigIpoptNLP.cpp
+++ b/src/Algorithm/IpOrigIpoptNLP.cpp
@@ -343,6 +343,11 @@ bool OrigIpoptNLP::InitializeStructures(
    d_L->Print(*jnlst_, J_MOREVECTOR, J_INITIALIZATION, "original d_L unscaled");
    d_U->Print(*jnlst_, J_MOREVECTOR, J_INITIALIZATION, "original d_U unscaled");
 
+   // forget original bounds of a previous solve
+   orig_x_L_ = NULL;
+   orig_x_U_ = NULL;
+   orig_d_L_ = NULL;
+   orig_d_U_ = NULL;
    if( bound_relax_factor_ > 0.0 )
    {
       SmartPtr<Vector> tmp;
-- 
2.43.0


From 5ec08069fdc2ec5a92f1225cc869592a60909165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:37 +0000
Subject: [PATCH 51/70] fix: initialize all members of a registered option

---
 src/Common/IpRegOptions.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/Common/IpRegOptions.hpp b/src/Common/IpRegOptions.hpp
index 02118ca..f036211 100644
--- a/src/Common/IpRegOptions.hpp
+++ b/src/Common/IpRegOptions.hpp
@@ -174,7 +174,12 @@ public:
       : type_(OT_Unknown),
         advanced_(false),
         has_lower_(false),
+        lower_strict_(false),
+        lower_(0.),
         has_upper_(false),
+        upper_strict_(false),
+        upper_(0.),
+        default_number_(0.),
         counter_(counter)
    { }
 
@@ -193,7 +198,12 @@ public:
         type_(OT_Unknown),
         advanced_(advanced),
         has_lower_(false),
+        lower_strict_(false),
+        lower_(0.),
         has_upper_(false),
+        upper_strict_(false),
+        upper_(0.),
+        default_number_(0.),
         counter_(counter)
    { }
 
@@ -207,10 +217,14 @@ public:
         type_(copy.type_),
         advanced_(copy.advanced_),
         has_lower_(copy.has_lower_),
+        lower_strict_(copy.lower_strict_),
         lower_(copy.lower_),
         has_upper_(copy.has_upper_),
+        upper_strict_(copy.upper_strict_),
         upper_(copy.upper_),
+        default_number_(copy.default_number_),
         valid_strings_(copy.valid_strings_),
+        default_string_(copy.default_string_),
         counter_(copy.counter_)
    { }
 
-- 
2.43.0


From af5dd9ecd96f489681921466dc63c183130320b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:13 +0000
Subject: [PATCH 52/70] fix: do not leak local arrays if a function called
 meanwhile throws

---
 .../LinearSolvers/IpTSymLinearSolver.cpp      |   3 +-
 src/Common/IpUtils.hpp                        |  26 ++
 src/Interfaces/IpStdInterfaceTNLP.cpp         |   3 +-
 src/Interfaces/IpTNLPAdapter.cpp              | 248 ++++++------------
 4 files changed, 104 insertions(+), 176 deletions(-)

diff --git a/src/Algorithm/LinearSolvers/IpTSymLinearSolver.cpp b/src/Algorithm/LinearSolvers/IpTSymLinearSolver.cpp
index c284bef..bda43ac 100644
--- a/src/Algorithm/LinearSolvers/IpTSymLinearSolver.cpp
+++ b/src/Algorithm/LinearSolvers/IpTSymLinearSolver.cpp
@@ -199,6 +199,7 @@ ESymSolverStatus TSymLinearSolver::MultiSolve(
    // Retrieve the right hand sides and scale if required
    Index nrhs = (Index) rhsV.size();
    Number* rhs_vals = new Number[dim_ * nrhs];
+   const ArrayGuard<Number> rhs_vals_guard(rhs_vals);
    for( Index irhs = 0; irhs < nrhs; irhs++ )
    {
       TripletHelper::FillValuesFromVector(dim_, *rhsV[irhs], &rhs_vals[irhs * (dim_)]);
@@ -306,8 +307,6 @@ ESymSolverStatus TSymLinearSolver::MultiSolve(
       }
    }
 
-   delete[] rhs_vals;
-
    return retval;
 }
 
diff --git a/src/Common/IpUtils.hpp b/src/Common/IpUtils.hpp
index 3043c8a..17029fc 100644
--- a/src/Common/IpUtils.hpp
+++ b/src/Common/IpUtils.hpp
@@ -19,6 +19,32 @@
 namespace Ipopt
 {
 
+/** Deletes an array when a scope is left, also if it is left because of an exception.
+ *
+ * The array to be deleted is the one that the pointer points to at this time, if any.
+ */
+template<typename T>
+class ArrayGuard
+{
+public:
+   explicit ArrayGuard(
+      T*& array
+   )
+      : array_(array)
+   { }
+
+   ~ArrayGuard()
+   {
+      delete[] array_;
+   }
+
+private:
+   ArrayGuard(const ArrayGuard&);
+   void operator=(const ArrayGuard&);
+
+   T*& array_;
+};
+
 template<typename T>
 inline T Max(
    T a,
diff --git a/src/Interfaces/IpStdInterfaceTNLP.cpp b/src/Interfaces/IpStdInterfaceTNLP.cpp
index c503246..89e000a 100644
--- a/src/Interfaces/IpStdInterfaceTNLP.cpp
+++ b/src/Interfaces/IpStdInterfaceTNLP.cpp
@@ -342,6 +342,7 @@ bool StdInterfaceTNLP::eval_h(
    apply_new_x(new_x, n, x);
 
    Number* non_const_lambda = new Number[m];
+   const ArrayGuard<Number> non_const_lambda_guard(non_const_lambda);
    if( lambda )
    {
       Ipopt::IpBlasCopy(m, lambda, 1, non_const_lambda, 1);
@@ -349,8 +350,6 @@ bool StdInterfaceTNLP::eval_h(
 
    Bool retval = (*eval_h_)(n, non_const_x_, (Bool) new_x, obj_factor, m, non_const_lambda, (Bool) new_lambda, nele_hess, iRow, jCol, values, user_data_);
 
-   delete[] non_const_lambda;
-
    return (retval != 0);
 }
 
diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index fc3fdee..c62da3a 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -438,9 +438,13 @@ bool TNLPAdapter::GetSpaces(
       /* Spaces for bounds. We need to remove the fixed variables
        * and find out which bounds do not exist. */
       Number* x_l = new Number[n_full_x_];
+      const ArrayGuard<Number> x_l_guard(x_l);
       Number* x_u = new Number[n_full_x_];
+      const ArrayGuard<Number> x_u_guard(x_u);
       Number* g_l = new Number[n_full_g_];
+      const ArrayGuard<Number> g_l_guard(g_l);
       Number* g_u = new Number[n_full_g_];
+      const ArrayGuard<Number> g_u_guard(g_u);
       retval = tnlp_->get_bounds_info(n_full_x_, x_l, x_u, n_full_g_, g_l, g_u);
       ASSERT_EXCEPTION(retval, INVALID_TNLP, "get_bounds_info returned false in GetSpaces");
 
@@ -452,17 +456,24 @@ bool TNLPAdapter::GetSpaces(
       Index n_x_l;
       Index n_x_u;
       Index* x_not_fixed_map = new Index[n_full_x_];
+      const ArrayGuard<Index> x_not_fixed_map_guard(x_not_fixed_map);
       Index* x_l_map = new Index[n_full_x_];
+      const ArrayGuard<Index> x_l_map_guard(x_l_map);
       Index* x_u_map = new Index[n_full_x_];
+      const ArrayGuard<Index> x_u_map_guard(x_u_map);
 
       Index n_c;
       Index n_d;
       Index n_d_l;
       Index n_d_u;
       Index* c_map = new Index[n_full_g_]; // we do not know n_c yet!
+      const ArrayGuard<Index> c_map_guard(c_map);
       Index* d_map = new Index[n_full_g_]; // we do not know n_d yet!
+      const ArrayGuard<Index> d_map_guard(d_map);
       Index* d_l_map = new Index[n_full_g_]; // "
+      const ArrayGuard<Index> d_l_map_guard(d_l_map);
       Index* d_u_map = new Index[n_full_g_]; // "
+      const ArrayGuard<Index> d_u_map_guard(d_u_map);
 
       bool done = false;
       // We might have to do the following twice: If we detect that we
@@ -475,6 +486,7 @@ bool TNLPAdapter::GetSpaces(
          n_x_u = 0;
          n_x_fixed_ = 0;
          Index* x_fixed_map_tmp = new Index[n_full_x_];
+         const ArrayGuard<Index> x_fixed_map_tmp_guard(x_fixed_map_tmp);
 
          for( Index i = 0; i < n_full_x_; i++ )
          {
@@ -515,18 +527,6 @@ bool TNLPAdapter::GetSpaces(
                Snprintf(string, 127,
                         "There are inconsistent bounds on variable %" IPOPT_INDEX_FORMAT ": lower = %25.16e and upper = %25.16e.", i, lower_bound,
                         upper_bound);
-               delete[] x_l;
-               delete[] x_u;
-               delete[] g_l;
-               delete[] g_u;
-               delete[] x_not_fixed_map;
-               delete[] x_fixed_map_tmp;
-               delete[] x_l_map;
-               delete[] x_u_map;
-               delete[] c_map;
-               delete[] d_map;
-               delete[] d_l_map;
-               delete[] d_u_map;
                THROW_EXCEPTION(INCONSISTENT_BOUNDS, string);
             }
             else
@@ -565,7 +565,6 @@ bool TNLPAdapter::GetSpaces(
             delete[] x_fixed_map_;
             x_fixed_map_ = NULL;
          }
-         delete[] x_fixed_map_tmp;
 
          // Create the spaces for c and d
          // - includes the internal permutation matrices for
@@ -592,17 +591,6 @@ bool TNLPAdapter::GetSpaces(
             }
             else if( lower_bound > upper_bound )
             {
-               delete[] x_l;
-               delete[] x_u;
-               delete[] g_l;
-               delete[] g_u;
-               delete[] x_not_fixed_map;
-               delete[] x_l_map;
-               delete[] x_u_map;
-               delete[] c_map;
-               delete[] d_map;
-               delete[] d_l_map;
-               delete[] d_u_map;
                char string[128];
                Snprintf(string, 127,
                         "There are inconsistent bounds on constraint function %" IPOPT_INDEX_FORMAT ": lower = %25.16e and upper = %25.16e.", i,
@@ -710,10 +698,6 @@ bool TNLPAdapter::GetSpaces(
             IpBlasCopy(n_full_g_, &zero, 0, full_lambda_, 1);
          }
       }
-      delete[] x_l;
-      x_l = NULL;
-      delete[] x_u;
-      x_u = NULL;
 
       // create x spaces
       SmartPtr<DenseVectorSpace> dv_x_space = new DenseVectorSpace(n_x_var);
@@ -913,13 +897,6 @@ bool TNLPAdapter::GetSpaces(
          }
       }
 
-      delete[] x_not_fixed_map;
-      x_not_fixed_map = NULL;
-      delete[] x_l_map;
-      x_l_map = NULL;
-      delete[] x_u_map;
-      x_u_map = NULL;
-
       // create the required c_space
 
       SmartPtr<DenseVectorSpace> dc_space;
@@ -937,8 +914,6 @@ bool TNLPAdapter::GetSpaces(
       // create the internal expansion matrix for c to g
       P_c_g_space_ = new ExpansionMatrixSpace(n_full_g_, n_c, c_map);
       P_c_g_ = P_c_g_space_->MakeNewExpansionMatrix();
-      delete[] c_map;
-      c_map = NULL;
 
       // create the required d_space
       SmartPtr<DenseVectorSpace> dv_d_space = new DenseVectorSpace(n_d);
@@ -946,8 +921,6 @@ bool TNLPAdapter::GetSpaces(
       // create the internal expansion matrix for d to g
       P_d_g_space_ = new ExpansionMatrixSpace(n_full_g_, n_d, d_map);
       P_d_g_ = P_d_g_space_->MakeNewExpansionMatrix();
-      delete[] d_map;
-      d_map = NULL;
 
       // create the required d_l space
       SmartPtr<DenseVectorSpace> dv_d_l_space = new DenseVectorSpace(n_d_l);
@@ -955,8 +928,6 @@ bool TNLPAdapter::GetSpaces(
       // create the required expansion matrix for d_L to d_L_exp
       SmartPtr<ExpansionMatrixSpace> P_d_l_space = new ExpansionMatrixSpace(n_d, n_d_l, d_l_map);
       pd_l_space_ = GetRawPtr(P_d_l_space);
-      delete[] d_l_map;
-      d_l_map = NULL;
 
       // create the required d_u space
       SmartPtr<DenseVectorSpace> dv_d_u_space = new DenseVectorSpace(n_d_u);
@@ -964,13 +935,6 @@ bool TNLPAdapter::GetSpaces(
       // create the required expansion matrix for d_U to d_U_exp
       SmartPtr<ExpansionMatrixSpace> P_d_u_space = new ExpansionMatrixSpace(n_d, n_d_u, d_u_map);
       pd_u_space_ = GetRawPtr(P_d_u_space);
-      delete[] d_u_map;
-      d_u_map = NULL;
-
-      delete[] g_l;
-      g_l = NULL;
-      delete[] g_u;
-      g_u = NULL;
 
       // set the constraint meta data if present
       if( con_string_md.size() > 0 )
@@ -1100,15 +1064,14 @@ bool TNLPAdapter::GetSpaces(
        */
       // Get the non zero structure
       Index* g_iRow = new Index[nz_full_jac_g_];
+      const ArrayGuard<Index> g_iRow_guard(g_iRow);
       Index* g_jCol = new Index[nz_full_jac_g_];
+      const ArrayGuard<Index> g_jCol_guard(g_jCol);
 
       bool retval = tnlp_->eval_jac_g(n_full_x_, NULL, false, n_full_g_, nz_full_jac_g_, g_iRow, g_jCol, NULL);
 
       if( !retval )
       {
-         delete[] g_iRow;
-         delete[] g_jCol;
-
          THROW_EXCEPTION(INVALID_TNLP, "eval_jac_g returned false in GetSpaces");
       }
 
@@ -1156,7 +1119,9 @@ bool TNLPAdapter::GetSpaces(
       }
       jac_idx_map_ = new Index[nz_jac_all];
       Index* jac_c_iRow = new Index[nz_jac_all];
+      const ArrayGuard<Index> jac_c_iRow_guard(jac_c_iRow);
       Index* jac_c_jCol = new Index[nz_jac_all];
+      const ArrayGuard<Index> jac_c_jCol_guard(jac_c_jCol);
       Index current_nz = 0;
 
       const Index* c_row_pos = P_c_g_->CompressedPosIndices();
@@ -1220,16 +1185,14 @@ bool TNLPAdapter::GetSpaces(
       }
 
       Jac_c_space_ = new GenTMatrixSpace(n_c + n_added_constr, n_x_var, nz_jac_c_, jac_c_iRow, jac_c_jCol);
-      delete[] jac_c_iRow;
-      jac_c_iRow = NULL;
-      delete[] jac_c_jCol;
-      jac_c_jCol = NULL;
 
       // ... build the nonzero structure for jac_d
       // ... (the permutation from rows in jac_g to jac_c is the
       // ...  the same as P_d_g_)
       Index* jac_d_iRow = new Index[nz_full_jac_g_];
+      const ArrayGuard<Index> jac_d_iRow_guard(jac_d_iRow);
       Index* jac_d_jCol = new Index[nz_full_jac_g_];
+      const ArrayGuard<Index> jac_d_jCol_guard(jac_d_jCol);
       current_nz = 0;
       const Index* d_row_pos = P_d_g_->CompressedPosIndices();
       if( IsValid(P_x_full_x_) )
@@ -1265,31 +1228,22 @@ bool TNLPAdapter::GetSpaces(
       }
       nz_jac_d_ = current_nz;
       Jac_d_space_ = new GenTMatrixSpace(n_d, n_x_var, nz_jac_d_, jac_d_iRow, jac_d_jCol);
-      delete[] jac_d_iRow;
-      jac_d_iRow = NULL;
-      delete[] jac_d_jCol;
-      jac_d_jCol = NULL;
-
-      delete[] g_iRow;
-      g_iRow = NULL;
-      delete[] g_jCol;
-      g_jCol = NULL;
 
       if( hessian_approximation_ == EXACT )
       {
          /** Create the matrix space for the hessian of the lagrangian */
          Index* full_h_iRow = new Index[nz_full_h_];
+         const ArrayGuard<Index> full_h_iRow_guard(full_h_iRow);
          Index* full_h_jCol = new Index[nz_full_h_];
+         const ArrayGuard<Index> full_h_jCol_guard(full_h_jCol);
          Index* h_iRow = new Index[nz_full_h_];
+         const ArrayGuard<Index> h_iRow_guard(h_iRow);
          Index* h_jCol = new Index[nz_full_h_];
+         const ArrayGuard<Index> h_jCol_guard(h_jCol);
          retval = tnlp_->eval_h(n_full_x_, NULL, false, 0, n_full_g_,
                                 NULL, false, nz_full_h_, full_h_iRow, full_h_jCol, NULL);
          if( !retval )
          {
-            delete[] full_h_iRow;
-            delete[] full_h_jCol;
-            delete[] h_iRow;
-            delete[] h_jCol;
             jnlst_->Printf(J_ERROR, J_INITIALIZATION,
                            "Option \"hessian_approximation\" is not chosen as \"limited-memory\", but eval_h returns false.\n");
             THROW_EXCEPTION(OPTION_INVALID, "eval_h is called but has not been implemented");
@@ -1353,14 +1307,6 @@ bool TNLPAdapter::GetSpaces(
          }
          nz_h_ = current_nz;
          Hess_lagrangian_space_ = new SymTMatrixSpace(n_x_var, nz_h_, h_iRow, h_jCol);
-         delete[] full_h_iRow;
-         full_h_iRow = NULL;
-         delete[] full_h_jCol;
-         full_h_jCol = NULL;
-         delete[] h_iRow;
-         h_iRow = NULL;
-         delete[] h_jCol;
-         h_jCol = NULL;
       }
       else
       {
@@ -1414,9 +1360,13 @@ bool TNLPAdapter::GetBoundsInformation(
    // and use them here ?
    // Actually, this is better for a warm start
    Number* x_l = new Number[n_full_x_];
+   const ArrayGuard<Number> x_l_guard(x_l);
    Number* x_u = new Number[n_full_x_];
+   const ArrayGuard<Number> x_u_guard(x_u);
    Number* g_l = new Number[n_full_g_];
+   const ArrayGuard<Number> g_l_guard(g_l);
    Number* g_u = new Number[n_full_g_];
+   const ArrayGuard<Number> g_u_guard(g_u);
    bool retval = tnlp_->get_bounds_info(n_full_x_, x_l, x_u, n_full_g_, g_l, g_u);
    ASSERT_EXCEPTION(retval, INVALID_TNLP, "get_bounds_info returned false in GetBoundsInformation");
 
@@ -1552,15 +1502,6 @@ bool TNLPAdapter::GetBoundsInformation(
       x_u = NULL;
    }
 
-   delete[] x_l;
-   x_l = NULL;
-   delete[] x_u;
-   x_u = NULL;
-   delete[] g_l;
-   g_l = NULL;
-   delete[] g_u;
-   g_u = NULL;
-
    return true;
 }
 
@@ -1578,9 +1519,13 @@ bool TNLPAdapter::GetStartingPoint(
 )
 {
    Number* full_x = new Number[n_full_x_];
+   const ArrayGuard<Number> full_x_guard(full_x);
    Number* full_z_l = new Number[n_full_x_];
+   const ArrayGuard<Number> full_z_l_guard(full_z_l);
    Number* full_z_u = new Number[n_full_x_];
+   const ArrayGuard<Number> full_z_u_guard(full_z_u);
    Number* full_lambda = new Number[n_full_g_];
+   const ArrayGuard<Number> full_lambda_guard(full_lambda);
    bool init_x = need_x;
    bool init_z = need_z_L || need_z_U || (fixed_variable_treatment_ == MAKE_CONSTRAINT && n_x_fixed_ > 0 && need_y_c);
    bool init_lambda = need_y_c || need_y_d;
@@ -1590,10 +1535,6 @@ bool TNLPAdapter::GetStartingPoint(
 
    if( !retvalue )
    {
-      delete[] full_x;
-      delete[] full_z_l;
-      delete[] full_z_u;
-      delete[] full_lambda;
       return false;
    }
 
@@ -1701,15 +1642,6 @@ bool TNLPAdapter::GetStartingPoint(
       }
    }
 
-   delete[] full_x;
-   full_x = NULL;
-   delete[] full_z_l;
-   full_z_l = NULL;
-   delete[] full_z_u;
-   full_z_u = NULL;
-   delete[] full_lambda;
-   full_lambda = NULL;
-
    return true;
 }
 
@@ -1755,6 +1687,7 @@ bool TNLPAdapter::Eval_grad_f(
       if( IsValid(P_x_full_x_) )
       {
          Number* full_grad_f = new Number[n_full_x_];
+         const ArrayGuard<Number> full_grad_f_guard(full_grad_f);
          new_x_pending_ = false;
          if( tnlp_->eval_grad_f(n_full_x_, full_x_, new_x, full_grad_f) )
          {
@@ -1765,7 +1698,6 @@ bool TNLPAdapter::Eval_grad_f(
             }
             retvalue = true;
          }
-         delete[] full_grad_f;
       }
       else
       {
@@ -1782,6 +1714,7 @@ bool TNLPAdapter::Eval_grad_f(
       if( retvalue )
       {
          Number* full_x_pert = new Number[n_full_x_];
+         const ArrayGuard<Number> full_x_pert_guard(full_x_pert);
          IpBlasCopy(n_full_x_, full_x_, 1, full_x_pert, 1);
          const Index* x_pos = NULL;
          if( IsValid(P_x_full_x_) )
@@ -1817,8 +1750,6 @@ bool TNLPAdapter::Eval_grad_f(
                full_x_pert[ivar] = xorig;
             }
          }
-
-         delete[] full_x_pert;
       }
    }
 
@@ -1990,6 +1921,7 @@ bool TNLPAdapter::Eval_h(
    if( h_idx_map_ )
    {
       Number* full_h = new Number[nz_full_h_];
+      const ArrayGuard<Number> full_h_guard(full_h);
 
       new_x_pending_ = false;
       if( tnlp_->eval_h(n_full_x_, full_x_, new_x, obj_factor, n_full_g_, full_lambda_, new_y, nz_full_h_, NULL, NULL,
@@ -2001,7 +1933,6 @@ bool TNLPAdapter::Eval_h(
          }
          retval = true;
       }
-      delete[] full_h;
    }
    else
    {
@@ -2039,17 +1970,18 @@ void TNLPAdapter::GetScalingParameters(
    Number* dd_values = dd->Values();
 
    Number* full_g_scaling = new Number[n_full_g_];
+   const ArrayGuard<Number> full_g_scaling_guard(full_g_scaling);
    bool use_x_scaling = true;
    bool use_g_scaling = true;
 
    if( IsValid(P_x_full_x_) )
    {
       Number* full_x_scaling = new Number[n_full_x_];
+      const ArrayGuard<Number> full_x_scaling_guard(full_x_scaling);
       bool retval = tnlp_->get_scaling_parameters(obj_scaling, use_x_scaling, n_full_x_, full_x_scaling, use_g_scaling,
                     n_full_g_, full_g_scaling);
       if( !retval )
       {
-         delete[] full_x_scaling;
          jnlst_->Printf(J_ERROR, J_INITIALIZATION,
                         "Option nlp_scaling_method selected as user-scaling, but no user-scaling available, or it cannot be computed.\n");
          THROW_EXCEPTION(OPTION_INVALID, "User scaling chosen, but get_scaling_parameters returned false.");
@@ -2063,7 +1995,6 @@ void TNLPAdapter::GetScalingParameters(
             dx_values[i] = full_x_scaling[x_pos[i]];
          }
       }
-      delete[] full_x_scaling;
    }
    else
    {
@@ -2106,8 +2037,6 @@ void TNLPAdapter::GetScalingParameters(
       c_scaling = NULL;
       d_scaling = NULL;
    }
-
-   delete[] full_g_scaling;
 }
 
 void TNLPAdapter::FinalizeSolution(
@@ -2185,6 +2114,7 @@ void TNLPAdapter::FinalizeSolution(
    }
 
    Number* full_g = new Number[n_full_g_];
+   const ArrayGuard<Number> full_g_guard(full_g);
    if( P_c_g_->NCols() + P_d_g_->NCols() < n_full_g_ )
    {
       const Number zero = 0.;
@@ -2192,7 +2122,9 @@ void TNLPAdapter::FinalizeSolution(
    }
 
    Number* full_z_L = new Number[n_full_x_];
+   const ArrayGuard<Number> full_z_L_guard(full_z_L);
    Number* full_z_U = new Number[n_full_x_];
+   const ArrayGuard<Number> full_z_U_guard(full_z_U);
    switch( status )
    {
       case SUCCESS:
@@ -2264,21 +2196,18 @@ void TNLPAdapter::FinalizeSolution(
    tnlp_->finalize_solution(status, n_full_x_, full_x_, full_z_L, full_z_U, n_full_g_, full_g, full_lambda_, obj_value,
                             ip_data, ip_cq);
 
-   delete[] full_z_L;
-   full_z_L = NULL;
-   delete[] full_z_U;
-   full_z_U = NULL;
-   delete[] full_g;
-   full_g = NULL;
-
    if( P_c_g_->NCols() + P_d_g_->NCols() < n_full_g_ )
    {
       // Temporary: Check if we really have a feasible point:
       Number max_viol = 0.;
       Number* x_l = new Number[n_full_x_];
+      const ArrayGuard<Number> x_l_guard(x_l);
       Number* x_u = new Number[n_full_x_];
+      const ArrayGuard<Number> x_u_guard(x_u);
       Number* g_l = new Number[n_full_g_];
+      const ArrayGuard<Number> g_l_guard(g_l);
       Number* g_u = new Number[n_full_g_];
+      const ArrayGuard<Number> g_u_guard(g_u);
       bool retval = tnlp_->get_bounds_info(n_full_x_, x_l, x_u, n_full_g_, g_l, g_u);
       ASSERT_EXCEPTION(retval, INVALID_TNLP, "get_bounds_info returned false in FinalizeSolution");
       for( Index i = 0; i < n_full_g_; i++ )
@@ -2286,10 +2215,6 @@ void TNLPAdapter::FinalizeSolution(
          max_viol = Max(max_viol, full_g_[i] - g_u[i], g_l[i] - full_g_[i]);
       }
       jnlst_->Printf(J_ITERSUMMARY, J_INITIALIZATION, "Constraint violation for ALL constraints is %e.\n", max_viol);
-      delete[] x_l;
-      delete[] x_u;
-      delete[] g_l;
-      delete[] g_u;
    }
 }
 
@@ -2328,6 +2253,7 @@ void TNLPAdapter::GetQuasiNewtonApproximationSpaces(
    }
 
    Index* pos_nonlin_vars = NULL;
+   const ArrayGuard<Index> pos_nonlin_vars_guard(pos_nonlin_vars);
    if( num_nonlin_vars < 0 )
    {
       num_nonlin_vars = n_full_x_ - num_linear_variables_;
@@ -2344,7 +2270,6 @@ void TNLPAdapter::GetQuasiNewtonApproximationSpaces(
       bool retval = tnlp_->get_list_of_nonlinear_variables(num_nonlin_vars, pos_nonlin_vars);
       if( !retval )
       {
-         delete[] pos_nonlin_vars;
          jnlst_->Printf(J_ERROR, J_INITIALIZATION,
                         "TNLP's get_number_of_nonlinear_variables returns non-negative number, but get_list_of_nonlinear_variables returns false.\n");
          THROW_EXCEPTION(INVALID_TNLP, "get_list_of_nonlinear_variables has not been overwritten");
@@ -2390,6 +2315,7 @@ void TNLPAdapter::GetQuasiNewtonApproximationSpaces(
    {
       const Index* compr_pos = P_x_full_x_->CompressedPosIndices();
       Index* nonfixed_pos_nonlin_vars = new Index[num_nonlin_vars];
+      const ArrayGuard<Index> nonfixed_pos_nonlin_vars_guard(nonfixed_pos_nonlin_vars);
 
       Index nonfixed_nonlin_vars = 0;
       for( Index i = 0; i < num_nonlin_vars; i++ )
@@ -2416,10 +2342,7 @@ void TNLPAdapter::GetQuasiNewtonApproximationSpaces(
          P_approx = ex_sp->MakeNew();
          approx_space = new DenseVectorSpace(nonfixed_nonlin_vars);
       }
-
-      delete[] nonfixed_pos_nonlin_vars;
    }
-   delete[] pos_nonlin_vars;
 }
 
 void TNLPAdapter::ResortX(
@@ -2741,13 +2664,13 @@ bool TNLPAdapter::ResortBoundMultipliers(
       // Lagrangian should be grad_f + lambda jac - z_L + z_U  == 0
       // so fixed variables get z_L - z_U = grad_f + lambda_jac
       Number* mult = new Number[n_full_x_];
+      const ArrayGuard<Number> mult_guard(mult);
       memset(mult, 0, sizeof(Number) * n_full_x_);
 
       bool new_x = update_local_x(x);
       new_x_pending_ = false;
       if( !tnlp_->eval_grad_f(n_full_x_, full_x_, new_x, mult) )
       {
-         delete[] mult;
          return false;
       }
 
@@ -2755,7 +2678,6 @@ bool TNLPAdapter::ResortBoundMultipliers(
       {
          if( !internal_eval_jac_g(new_x_pending_) )
          {
-            delete[] mult;
             return false;
          }
          DBG_ASSERT(dynamic_cast<const DenseVector*>(&y_c));
@@ -2820,8 +2742,6 @@ bool TNLPAdapter::ResortBoundMultipliers(
             z_U_orig[xidx] = Max(Number(0.0), -mult[xidx]);
          }
       }
-
-      delete[] mult;
    }
 
    return true;
@@ -2908,7 +2828,9 @@ bool TNLPAdapter::internal_eval_jac_g(
       if( retval )
       {
          Number* full_g_pert = new Number[n_full_g_];
+         const ArrayGuard<Number> full_g_pert_guard(full_g_pert);
          Number* full_x_pert = new Number[n_full_x_];
+         const ArrayGuard<Number> full_x_pert_guard(full_x_pert);
          IpBlasCopy(n_full_x_, full_x_, 1, full_x_pert, 1);
          // Compute the finite difference Jacobian
          for( Index ivar = 0; ivar < n_full_x_; ivar++ )
@@ -2939,8 +2861,6 @@ bool TNLPAdapter::internal_eval_jac_g(
                full_x_pert[ivar] = xorig;
             }
          }
-         delete[] full_g_pert;
-         delete[] full_x_pert;
       }
    }
 
@@ -2963,7 +2883,9 @@ void TNLPAdapter::initialize_findiff_jac(
    // TODO: This could be done more efficiently without detour via
    // symmetric matrix
    Index* airn = new Index[nz_full_jac_g_];
+   const ArrayGuard<Index> airn_guard(airn);
    Index* ajcn = new Index[nz_full_jac_g_];
+   const ArrayGuard<Index> ajcn_guard(ajcn);
    for( Index i = 0; i < nz_full_jac_g_; i++ )
    {
       airn[i] = jCol[i];
@@ -2971,8 +2893,6 @@ void TNLPAdapter::initialize_findiff_jac(
    }
    // Get the column ordered sparse representation
    findiff_jac_nnz_ = findiff_jac_converter->InitializeConverter(n_full_g_ + n_full_x_, nz_full_jac_g_, airn, ajcn);
-   delete[] airn;
-   delete[] ajcn;
    if( findiff_jac_nnz_ != nz_full_jac_g_ )
    {
       THROW_EXCEPTION(INVALID_TNLP,
@@ -3050,14 +2970,19 @@ bool TNLPAdapter::CheckDerivatives(
    // Obtain starting point as reference point at which derivative
    // test should be performed
    Number* xref = new Number[nx];
+   const ArrayGuard<Number> xref_guard(xref);
    tnlp_->get_starting_point(nx, true, xref, false, NULL, NULL, ng, false, NULL);
 
    // Perform a random perturbation.  We need the bounds to make sure
    // they are not violated
    Number* x_l = new Number[nx];
+   const ArrayGuard<Number> x_l_guard(x_l);
    Number* x_u = new Number[nx];
+   const ArrayGuard<Number> x_u_guard(x_u);
    Number* g_l = new Number[ng];
+   const ArrayGuard<Number> g_l_guard(g_l);
    Number* g_u = new Number[ng];
+   const ArrayGuard<Number> g_u_guard(g_u);
    retval = tnlp_->get_bounds_info(nx, x_l, x_u, ng, g_l, g_u);
    ASSERT_EXCEPTION(retval, INVALID_TNLP, "get_bounds_info returned false in derivative checker");
    IpResetRandom01();
@@ -3069,15 +2994,12 @@ bool TNLPAdapter::CheckDerivatives(
       const Number random_number = IpRandom01();
       xref[i] = lower + random_number * interval;
    }
-   delete[] x_l;
-   delete[] x_u;
-   delete[] g_l;
-   delete[] g_u;
 
    // Obtain value of objective and constraints at reference point
    bool new_x = true;
    Number fref;
    Number* gref = NULL;
+   const ArrayGuard<Number> gref_guard(gref);
    if( ng > 0 )
    {
       gref = new Number[ng];
@@ -3095,13 +3017,17 @@ bool TNLPAdapter::CheckDerivatives(
 
    // Obtain gradient of objective function at reference point
    Number* grad_f = new Number[nx];
+   const ArrayGuard<Number> grad_f_guard(grad_f);
    retval = tnlp_->eval_grad_f(nx, xref, true, grad_f);
    ASSERT_EXCEPTION(retval, ERROR_IN_TNLP_DERIVATIVE_TEST,
                     "In TNLP derivative test: grad_f could not be evaluated at reference point.");
 
    Index* g_iRow = NULL;
+   const ArrayGuard<Index> g_iRow_guard(g_iRow);
    Index* g_jCol = NULL;
+   const ArrayGuard<Index> g_jCol_guard(g_jCol);
    Number* jac_g = NULL;
+   const ArrayGuard<Number> jac_g_guard(jac_g);
    if( ng > 0 )
    {
       // Obtain constraint Jacobian at reference point (including structure)
@@ -3144,10 +3070,12 @@ bool TNLPAdapter::CheckDerivatives(
 
    // Space for the perturbed point
    Number* xpert = new Number[nx];
+   const ArrayGuard<Number> xpert_guard(xpert);
    IpBlasCopy(nx, xref, 1, xpert, 1);
 
    // Space for constraints at perturbed point
    Number* gpert = NULL;
+   const ArrayGuard<Number> gpert_guard(gpert);
    if( ng > 0 )
    {
       gpert = new Number[ng];
@@ -3241,7 +3169,9 @@ bool TNLPAdapter::CheckDerivatives(
 
       // Get sparsity structure of Hessian
       Index* h_iRow = new Index[nz_hess_lag];
+      const ArrayGuard<Index> h_iRow_guard(h_iRow);
       Index* h_jCol = new Index[nz_hess_lag];
+      const ArrayGuard<Index> h_jCol_guard(h_jCol);
       retval = tnlp_->eval_h(nx, NULL, false, 0., ng, NULL, false, nz_hess_lag, h_iRow, h_jCol, NULL);
       ASSERT_EXCEPTION(retval, ERROR_IN_TNLP_DERIVATIVE_TEST,
                        "In TNLP derivative test: Hessian structure could not be evaluated.");
@@ -3271,16 +3201,21 @@ bool TNLPAdapter::CheckDerivatives(
       }
 #endif
       Number* h_values = new Number[nz_hess_lag];
+      const ArrayGuard<Number> h_values_guard(h_values);
 
       Number* lambda = NULL;
+      const ArrayGuard<Number> lambda_guard(lambda);
       if( ng > 0 )
       {
          lambda = new Number[ng];
          IpBlasCopy(ng, &zero, 0, lambda, 1);
       }
       Number* gradref = new Number[nx]; // gradient of objective or constraint at reference point
+      const ArrayGuard<Number> gradref_guard(gradref);
       Number* gradpert = new Number[nx]; // gradient of objective or constraint at perturbed point
+      const ArrayGuard<Number> gradpert_guard(gradpert);
       Number* jacpert = new Number[nz_jac_g];
+      const ArrayGuard<Number> jacpert_guard(jacpert);
 
       // Check all Hessians
       const Index icon_first = Max(Index(-1), deriv_test_start_index);
@@ -3396,25 +3331,8 @@ bool TNLPAdapter::CheckDerivatives(
             lambda[icon] = 0.;
          }
       }
-
-      delete[] h_iRow;
-      delete[] h_jCol;
-      delete[] h_values;
-      delete[] lambda;
-      delete[] gradref;
-      delete[] gradpert;
-      delete[] jacpert;
    }
 
-   delete[] xref;
-   delete[] gref;
-   delete[] grad_f;
-   delete[] xpert;
-   delete[] g_iRow;
-   delete[] g_jCol;
-   delete[] jac_g;
-   delete[] gpert;
-
    if( nerrors == 0 )
    {
       jnlst_->Printf(J_SUMMARY, J_NLP, "\nNo errors detected by derivative checker.\n\n");
@@ -3447,11 +3365,11 @@ bool TNLPAdapter::DetermineDependentConstraints(
    // Get the structure of the big Jacobian of g and get the map for
    // the equality constraints entries
    Index* g_iRow = new Index[nz_full_jac_g_];
+   const ArrayGuard<Index> g_iRow_guard(g_iRow);
    Index* g_jCol = new Index[nz_full_jac_g_];
+   const ArrayGuard<Index> g_jCol_guard(g_jCol);
    if( !tnlp_->eval_jac_g(n_full_x_, NULL, false, n_full_g_, nz_full_jac_g_, g_iRow, g_jCol, NULL) )
    {
-      delete[] g_iRow;
-      delete[] g_jCol;
       return false;
    }
    if( index_style_ == TNLP::FORTRAN_STYLE )
@@ -3482,8 +3400,11 @@ bool TNLPAdapter::DetermineDependentConstraints(
    // fixed_variable_treatment_==MAKE_PARAMETER correctly (yet?)
    // Include space for the RHS
    Index* jac_c_map = new Index[nz_full_jac_g_];
+   const ArrayGuard<Index> jac_c_map_guard(jac_c_map);
    Index* jac_c_iRow = new Index[nz_full_jac_g_ + n_c];
+   const ArrayGuard<Index> jac_c_iRow_guard(jac_c_iRow);
    Index* jac_c_jCol = new Index[nz_full_jac_g_ + n_c];
+   const ArrayGuard<Index> jac_c_jCol_guard(jac_c_jCol);
    Index nz_jac_c = 0;
    const Index* c_row_pos = P_c_g->CompressedPosIndices();
    Index n_fixed = n_full_x_ - n_x_var;
@@ -3491,6 +3412,7 @@ bool TNLPAdapter::DetermineDependentConstraints(
    {
       // Get the reverse map for the fixed variables
       Index* c_col_pos = new Index[n_full_x_];
+      const ArrayGuard<Index> c_col_pos_guard(c_col_pos);
       for( Index i = 0; i < n_full_x_; i++ )
       {
          c_col_pos[i] = -1;
@@ -3511,7 +3433,6 @@ bool TNLPAdapter::DetermineDependentConstraints(
             nz_jac_c++;
          }
       }
-      delete[] c_col_pos;
    }
    else
    {
@@ -3528,17 +3449,12 @@ bool TNLPAdapter::DetermineDependentConstraints(
          }
       }
    }
-   delete[] g_iRow;
-   delete[] g_jCol;
 
    // First we evaluate the equality constraint Jacobian at the
    // starting point with some random perturbation (projected into bounds)
    if( !tnlp_->get_starting_point(n_full_x_, true, full_x_, false, NULL,
                                   NULL, n_full_g_, false, NULL) )
    {
-      delete[] jac_c_iRow;
-      delete[] jac_c_jCol;
-      delete[] jac_c_map;
       return false;
    }
    // Here we reset the random number generator
@@ -3552,30 +3468,24 @@ bool TNLPAdapter::DetermineDependentConstraints(
       full_x_[i] = lower + random_number * interval;
    }
    Number* g_vals = NULL;
+   const ArrayGuard<Number> g_vals_guard(g_vals);
    if( dependency_detection_with_rhs_ )
    {
       g_vals = new Number[n_full_g_];
       if( !tnlp_->eval_g(n_full_x_, full_x_, true, n_full_g_, g_vals) )
       {
-         delete[] jac_c_iRow;
-         delete[] jac_c_jCol;
-         delete[] jac_c_map;
-         delete[] g_vals;
          return false;
       }
    }
    if( !tnlp_->eval_jac_g(n_full_x_, full_x_, !dependency_detection_with_rhs_, n_full_g_, nz_full_jac_g_, NULL, NULL,
                           jac_g_) )
    {
-      delete[] jac_c_iRow;
-      delete[] jac_c_jCol;
-      delete[] jac_c_map;
-      delete[] g_vals;
       return false;
    }
 
    // Get the equality constraint Jacobian out
    Number* jac_c_vals = new Number[nz_jac_c + n_c];
+   const ArrayGuard<Number> jac_c_vals_guard(jac_c_vals);
    for( Index i = 0; i < nz_jac_c; i++ )
    {
       jac_c_vals[i] = jac_g_[jac_c_map[i]];
@@ -3606,12 +3516,6 @@ bool TNLPAdapter::DetermineDependentConstraints(
    // once...
    dependency_detector_ = NULL;
 
-   delete[] jac_c_iRow;
-   delete[] jac_c_jCol;
-   delete[] jac_c_map;
-   delete[] jac_c_vals;
-   delete[] g_vals;
-
    return retval;
 }
 
-- 
2.43.0


From 65d3a390697882027d23dceee2b6f048909fc1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:42 +0000
Subject: [PATCH 53/70] fix: do not leak a cached result if memory runs out

---
 src/Common/IpCachedResults.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Common/IpCachedResults.hpp b/src/Common/IpCachedResults.hpp
index 22dbb4f..7c873a7 100644
--- a/src/Common/IpCachedResults.hpp
+++ b/src/Common/IpCachedResults.hpp
@@ -597,13 +597,22 @@ void CachedResults<T>::AddCachedResult(
    CleanupInvalidatedResults();
 
    // insert the new one here
-   DependentResult<T>* newResult = new DependentResult<T>(result, dependents, scalar_dependents);
    if( !cached_results_ )
    {
       cached_results_ = new std::list<DependentResult<T>*>;
    }
 
-   cached_results_->push_front(newResult);
+   // reserve the place first, so that the new result is not lost if memory runs out
+   cached_results_->push_front(NULL);
+   try
+   {
+      cached_results_->front() = new DependentResult<T>(result, dependents, scalar_dependents);
+   }
+   catch( ... )
+   {
+      cached_results_->pop_front();
+      throw;
+   }
 
    // keep the list small enough
    if( max_cache_size_ >= 0 )
-- 
2.43.0


From 0f879c03209e670bc2e4d1cbb35f9a9248c4517d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:42 +0000
Subject: [PATCH 54/70] fix: do not leak index arrays of matrix spaces if
 memory runs out

---
 src/LinAlg/IpExpansionMatrix.cpp      | 10 +++++++++-
 src/LinAlg/TMatrices/IpGenTMatrix.cpp | 10 +++++++++-
 src/LinAlg/TMatrices/IpSymTMatrix.cpp | 10 +++++++++-
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/LinAlg/IpExpansionMatrix.cpp b/src/LinAlg/IpExpansionMatrix.cpp
index 47edcb4..9902707 100644
--- a/src/LinAlg/IpExpansionMatrix.cpp
+++ b/src/LinAlg/IpExpansionMatrix.cpp
@@ -446,7 +446,15 @@ ExpansionMatrixSpace::ExpansionMatrixSpace(
    }
    if( NRows() > 0 )
    {
-      compressed_pos_ = new Index[NRows()];
+      try
+      {
+         compressed_pos_ = new Index[NRows()];
+      }
+      catch( ... )
+      {
+         delete[] expanded_pos_;
+         throw;
+      }
    }
    for( Index j = 0; j < NRows(); j++ )
    {
diff --git a/src/LinAlg/TMatrices/IpGenTMatrix.cpp b/src/LinAlg/TMatrices/IpGenTMatrix.cpp
index bcfca90..9ee0dd0 100644
--- a/src/LinAlg/TMatrices/IpGenTMatrix.cpp
+++ b/src/LinAlg/TMatrices/IpGenTMatrix.cpp
@@ -281,7 +281,15 @@ GenTMatrixSpace::GenTMatrixSpace(
      iRows_(NULL)
 {
    iRows_ = new Index[nonZeros];
-   jCols_ = new Index[nonZeros];
+   try
+   {
+      jCols_ = new Index[nonZeros];
+   }
+   catch( ... )
+   {
+      delete[] iRows_;
+      throw;
+   }
    for( Index i = 0; i < nonZeros; i++ )
    {
       iRows_[i] = iRows[i];
diff --git a/src/LinAlg/TMatrices/IpSymTMatrix.cpp b/src/LinAlg/TMatrices/IpSymTMatrix.cpp
index e85681f..a8901e1 100644
--- a/src/LinAlg/TMatrices/IpSymTMatrix.cpp
+++ b/src/LinAlg/TMatrices/IpSymTMatrix.cpp
@@ -237,7 +237,15 @@ SymTMatrixSpace::SymTMatrixSpace(
      jCols_(NULL)
 {
    iRows_ = new Index[nonZeros];
-   jCols_ = new Index[nonZeros];
+   try
+   {
+      jCols_ = new Index[nonZeros];
+   }
+   catch( ... )
+   {
+      delete[] iRows_;
+      throw;
+   }
    for( Index i = 0; i < nonZeros; i++ )
    {
       iRows_[i] = iRows[i];
-- 
2.43.0


From d56b7a88da4e5ca6e86744c57f222c686b915447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:37 +0000
Subject: [PATCH 55/70] fix: do not leak the copy of a vector if memory runs
 out

---
 src/LinAlg/IpVector.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/LinAlg/IpVector.hpp b/src/LinAlg/IpVector.hpp
index 0c74120..74becb6 100644
--- a/src/LinAlg/IpVector.hpp
+++ b/src/LinAlg/IpVector.hpp
@@ -557,7 +557,15 @@ inline Vector* Vector::MakeNewCopy() const
 {
    // ToDo: We can probably copy also the cached values for Norms etc here
    Vector* copy = MakeNew();
-   copy->Copy(*this);
+   try
+   {
+      copy->Copy(*this);
+   }
+   catch( ... )
+   {
+      delete copy;
+      throw;
+   }
    return copy;
 }
 
-- 
2.43.0


From 26c29520bf8777ca7956cc0214869b3026de19a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:22 +0000
Subject: [PATCH 56/70] fix: do not keep damping indicators that could not be
 computed completely

---
 src/Algorithm/IpIpoptCalculatedQuantities.cpp | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/Algorithm/IpIpoptCalculatedQuantities.cpp b/src/Algorithm/IpIpoptCalculatedQuantities.cpp
index df366ea..078ad4a 100644
--- a/src/Algorithm/IpIpoptCalculatedQuantities.cpp
+++ b/src/Algorithm/IpIpoptCalculatedQuantities.cpp
@@ -1061,11 +1061,11 @@ void IpoptCalculatedQuantities::ComputeDampingIndicators(
       Tmp_x_U().Set(1.0);
       ip_nlp_->Px_U()->MultVector(-1.0, Tmp_x_U(), 1.0, Tmp_x());
 
-      dampind_x_L_ = ip_nlp_->x_L()->MakeNew();
-      ip_nlp_->Px_L()->TransMultVector(1.0, Tmp_x(), 0.0, *dampind_x_L_);
+      SmartPtr<Vector> ind_x_L = ip_nlp_->x_L()->MakeNew();
+      ip_nlp_->Px_L()->TransMultVector(1.0, Tmp_x(), 0.0, *ind_x_L);
 
-      dampind_x_U_ = ip_nlp_->x_U()->MakeNew();
-      ip_nlp_->Px_U()->TransMultVector(-1.0, Tmp_x(), 0.0, *dampind_x_U_);
+      SmartPtr<Vector> ind_x_U = ip_nlp_->x_U()->MakeNew();
+      ip_nlp_->Px_U()->TransMultVector(-1.0, Tmp_x(), 0.0, *ind_x_U);
 
       // Now for s
       Tmp_s_L().Set(1.0);
@@ -1073,11 +1073,17 @@ void IpoptCalculatedQuantities::ComputeDampingIndicators(
       Tmp_s_U().Set(1.0);
       ip_nlp_->Pd_U()->MultVector(-1.0, Tmp_s_U(), 1.0, Tmp_s());
 
-      dampind_s_L_ = ip_nlp_->d_L()->MakeNew();
-      ip_nlp_->Pd_L()->TransMultVector(1.0, Tmp_s(), 0.0, *dampind_s_L_);
+      SmartPtr<Vector> ind_s_L = ip_nlp_->d_L()->MakeNew();
+      ip_nlp_->Pd_L()->TransMultVector(1.0, Tmp_s(), 0.0, *ind_s_L);
 
-      dampind_s_U_ = ip_nlp_->d_U()->MakeNew();
-      ip_nlp_->Pd_U()->TransMultVector(-1.0, Tmp_s(), 0.0, *dampind_s_U_);
+      SmartPtr<Vector> ind_s_U = ip_nlp_->d_U()->MakeNew();
+      ip_nlp_->Pd_U()->TransMultVector(-1.0, Tmp_s(), 0.0, *ind_s_U);
+
+      // keep the indicators only if all have been computed
+      dampind_x_L_ = ind_x_L;
+      dampind_x_U_ = ind_x_U;
+      dampind_s_L_ = ind_s_L;
+      dampind_s_U_ = ind_s_U;
 
       DBG_PRINT_VECTOR(2, "dampind_x_L_", *dampind_x_L_);
       DBG_PRINT_VECTOR(2, "dampind_x_U_", *dampind_x_U_);
-- 
2.43.0


From 6b0825257cab107e2b894372ce4f82b8071042c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:22 +0000
Subject: [PATCH 57/70] fix: do not leak a filter entry if memory runs out

---
 src/Algorithm/IpFilter.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/IpFilter.cpp b/src/Algorithm/IpFilter.cpp
index 1279468..b2c90f9 100644
--- a/src/Algorithm/IpFilter.cpp
+++ b/src/Algorithm/IpFilter.cpp
@@ -81,8 +81,18 @@ void Filter::AddEntry(
          ++iter;
       }
    }
-   FilterEntry* new_entry = new FilterEntry(vals, iteration);
-   filter_list_.push_back(new_entry);
+
+   // reserve the place first, so that the new entry is not lost if memory runs out
+   filter_list_.push_back(NULL);
+   try
+   {
+      filter_list_.back() = new FilterEntry(vals, iteration);
+   }
+   catch( ... )
+   {
+      filter_list_.pop_back();
+      throw;
+   }
 }
 
 void Filter::Clear()
-- 
2.43.0


From a2bd79d980379cff389b25b4d60938b4c1f6435c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:22 +0000
Subject: [PATCH 58/70] fix: do not leak scaling factors of the C interface if
 memory runs out

---
 src/Interfaces/IpStdInterfaceTNLP.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/IpStdInterfaceTNLP.cpp b/src/Interfaces/IpStdInterfaceTNLP.cpp
index 89e000a..8c3acf8 100644
--- a/src/Interfaces/IpStdInterfaceTNLP.cpp
+++ b/src/Interfaces/IpStdInterfaceTNLP.cpp
@@ -99,7 +99,16 @@ StdInterfaceTNLP::StdInterfaceTNLP(
    }
    if( g_scaling )
    {
-      Number* tmp = new Number[n_con_];
+      Number* tmp;
+      try
+      {
+         tmp = new Number[n_con_];
+      }
+      catch( ... )
+      {
+         delete[] x_scaling_;
+         throw;
+      }
       Ipopt::IpBlasCopy(n_con_, g_scaling, 1, tmp, 1);
       g_scaling_ = tmp;
    }
-- 
2.43.0


From 17aa8e7432746c9a6c8d7e2ef81f6ac667a0fd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:13 +0000
Subject: [PATCH 59/70] fix: do not use undefined perturbations if a degenerate
 Hessian cannot be regularized

---
 src/Algorithm/Inexact/IpInexactPDSolver.cpp | 5 ++++-
 src/Algorithm/IpPDFullSpaceSolver.cpp       | 8 +++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/Inexact/IpInexactPDSolver.cpp b/src/Algorithm/Inexact/IpInexactPDSolver.cpp
index f7fd2f6..827c598 100644
--- a/src/Algorithm/Inexact/IpInexactPDSolver.cpp
+++ b/src/Algorithm/Inexact/IpInexactPDSolver.cpp
@@ -128,7 +128,10 @@ bool InexactPDSolver::Solve(
    Number delta_s;
    Number delta_c;
    Number delta_d;
-   perturbHandler_->ConsiderNewSystem(delta_x, delta_s, delta_c, delta_d);
+   if( !perturbHandler_->ConsiderNewSystem(delta_x, delta_s, delta_c, delta_d) )
+   {
+      return false;
+   }
 
    if( IpData().info_ls_count() > inexact_regularization_ls_count_trigger_ )
    {
diff --git a/src/Algorithm/IpPDFullSpaceSolver.cpp b/src/Algorithm/IpPDFullSpaceSolver.cpp
index bd54108..ccd9c69 100644
--- a/src/Algorithm/IpPDFullSpaceSolver.cpp
+++ b/src/Algorithm/IpPDFullSpaceSolver.cpp
@@ -505,7 +505,13 @@ bool PDFullSpaceSolver::SolveOnce(
       Number delta_s;
       Number delta_c;
       Number delta_d;
-      perturbHandler_->ConsiderNewSystem(delta_x, delta_s, delta_c, delta_d);
+      if( !perturbHandler_->ConsiderNewSystem(delta_x, delta_s, delta_c, delta_d) )
+      {
+         Jnlst().Printf(J_DETAILED, J_LINEAR_ALGEBRA,
+                        "ConsiderNewSystem can't be done\n");
+         IpData().TimingStats().PDSystemSolverSolveOnce().End();
+         return false;
+      }
 
       retval = SYMSOLVER_SINGULAR;
       while( retval != SYMSOLVER_SUCCESS )
-- 
2.43.0


From f08ede349a137f4abd9db7e2caf58183a8d6cae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:56 +0000
Subject: [PATCH 60/70] fix: use a separate state of the random number
 generator in each thread

---
 src/Common/IpUtils.cpp | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/Common/IpUtils.cpp b/src/Common/IpUtils.cpp
index 644e67b..31d2b71 100644
--- a/src/Common/IpUtils.cpp
+++ b/src/Common/IpUtils.cpp
@@ -93,6 +93,21 @@ inline double IpCoinGetTimeOfDay()
 
 /** 8< (END) ******************************** */
 
+/* keyword to declare a thread-local variable, see also IpTaggedObject.cpp */
+#ifndef IPOPT_THREAD_LOCAL
+
+#if __cplusplus >= 201103L
+#define IPOPT_THREAD_LOCAL thread_local
+#elif defined(_MSC_VER)
+#define IPOPT_THREAD_LOCAL __declspec(thread)
+#elif defined(__APPLE__) && ((defined(__GNUC__) && (__GNUC__ * 100 + __GNUC_MINOR__ < 405)) || defined(__INTEL_COMPILER))
+#define IPOPT_THREAD_LOCAL
+#else
+#define IPOPT_THREAD_LOCAL __thread
+#endif
+
+#endif
+
 namespace Ipopt
 {
 
@@ -108,10 +123,18 @@ bool IsFiniteNumber(
 
 }
 
+#ifdef IPOPT_HAS_DRAND48
+/** State of random number generator.
+ *
+ * The state of drand48() is shared by all threads, so Ipopt uses its own, initially as set by srand48(1).
+ */
+static IPOPT_THREAD_LOCAL unsigned short random_state[3] = { 0x330E, 1, 0 };
+#endif
+
 Number IpRandom01()
 {
 #ifdef IPOPT_HAS_DRAND48
-   return Number(drand48());
+   return Number(erand48(random_state));
 #else
 # ifdef IPOPT_HAS_RAND
    return Number(rand()) / Number(RAND_MAX);
@@ -128,7 +151,9 @@ Number IpRandom01()
 void IpResetRandom01()
 {
 #ifdef IPOPT_HAS_DRAND48
-   srand48(1);
+   random_state[0] = 0x330E;
+   random_state[1] = 1;
+   random_state[2] = 0;
 #else
 # ifdef IPOPT_HAS_RAND
    srand(1);
-- 
2.43.0


From f0f4b7a2b2d5e7dc0e6167d1180b96e2a96fb903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:49 +0000
Subject: [PATCH 61/70] fix: report derivatives that are not a number in the
 derivative test

---
 src/Interfaces/IpTNLPAdapter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index c62da3a..25a465a 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -3109,7 +3109,7 @@ bool TNLPAdapter::CheckDerivatives(
          Number deriv_exact = grad_f[ivar];
          Number rel_error = std::abs(deriv_approx - deriv_exact) / Max(std::abs(deriv_approx), derivative_test_tol_);
          char cflag = ' ';
-         if( rel_error >= derivative_test_tol_ )
+         if( !(rel_error < derivative_test_tol_) ) // also true for NaN
          {
             cflag = '*';
             nerrors++;
@@ -3140,7 +3140,7 @@ bool TNLPAdapter::CheckDerivatives(
                }
                rel_error = std::abs(deriv_approx - deriv_exact) / Max(std::abs(deriv_approx), derivative_test_tol_);
                cflag = ' ';
-               if( rel_error >= derivative_test_tol_ )
+               if( !(rel_error < derivative_test_tol_) ) // also true for NaN
                {
                   cflag = '*';
                   nerrors++;
@@ -3294,7 +3294,7 @@ bool TNLPAdapter::CheckDerivatives(
                }
                Number rel_error = std::abs(deriv_approx - deriv_exact) / Max(std::abs(deriv_approx), derivative_test_tol_);
                char cflag = ' ';
-               if( rel_error >= derivative_test_tol_ )
+               if( !(rel_error < derivative_test_tol_) ) // also true for NaN
                {
                   cflag = '*';
                   nerrors++;
-- 
2.43.0


From e4004b09def41906d02d9192f39cedf56bf3c81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:49 +0000
Subject: [PATCH 62/70] fix: do not test derivatives at an undefined point if
 there is no starting point

---
 src/Interfaces/IpTNLPAdapter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 25a465a..147b5e8 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2971,7 +2971,8 @@ bool TNLPAdapter::CheckDerivatives(
    // test should be performed
    Number* xref = new Number[nx];
    const ArrayGuard<Number> xref_guard(xref);
-   tnlp_->get_starting_point(nx, true, xref, false, NULL, NULL, ng, false, NULL);
+   retval = tnlp_->get_starting_point(nx, true, xref, false, NULL, NULL, ng, false, NULL);
+   ASSERT_EXCEPTION(retval, INVALID_TNLP, "get_starting_point returned false in derivative checker");
 
    // Perform a random perturbation.  We need the bounds to make sure
    // they are not violated
-- 
2.43.0


From be873119f1ba3d37ac09b630c28729256c0ca6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:26 +0000
Subject: [PATCH 63/70] fix: divide initial bound multipliers by the scaling
 factors of the variables

---
 src/Algorithm/IpOrigIpoptNLP.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/IpOrigIpoptNLP.cpp b/src/Algorithm/IpOrigIpoptNLP.cpp
index 9366321..a954767 100644
--- a/src/Algorithm/IpOrigIpoptNLP.cpp
+++ b/src/Algorithm/IpOrigIpoptNLP.cpp
@@ -441,7 +441,11 @@ bool OrigIpoptNLP::InitializeStructures(
       z_L->Print(*jnlst_, J_VECTOR, J_INITIALIZATION, "initial z_L unscaled");
       if( NLP_scaling()->have_x_scaling() )
       {
-         z_L = NLP_scaling()->apply_vector_scaling_x_LU_NonConst(*Px_L_, ConstPtr(z_L), *x_space_);
+         // if x is multiplied by a factor, then the multipliers of its bounds are divided by it
+         SmartPtr<Vector> tmp_x = x_space_->MakeNew();
+         Px_L_->MultVector(1., *z_L, 0., *tmp_x);
+         tmp_x = NLP_scaling()->unapply_vector_scaling_x_NonConst(ConstPtr(tmp_x));
+         Px_L_->TransMultVector(1., *tmp_x, 0., *z_L);
       }
       if( obj_scal != 1. )
       {
@@ -453,7 +457,11 @@ bool OrigIpoptNLP::InitializeStructures(
       z_U->Print(*jnlst_, J_VECTOR, J_INITIALIZATION, "initial z_U unscaled");
       if( NLP_scaling()->have_x_scaling() )
       {
-         z_U = NLP_scaling()->apply_vector_scaling_x_LU_NonConst(*Px_U_, ConstPtr(z_U), *x_space_);
+         // if x is multiplied by a factor, then the multipliers of its bounds are divided by it
+         SmartPtr<Vector> tmp_x = x_space_->MakeNew();
+         Px_U_->MultVector(1., *z_U, 0., *tmp_x);
+         tmp_x = NLP_scaling()->unapply_vector_scaling_x_NonConst(ConstPtr(tmp_x));
+         Px_U_->TransMultVector(1., *tmp_x, 0., *z_U);
       }
       if( obj_scal != 1. )
       {
-- 
2.43.0


From aa0ddc092226c481685da5bf33ca5609c97c3c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:36 +0000
Subject: [PATCH 64/70] fix: set slacks before computing least-square estimates
 for the initial point

---
 src/Algorithm/IpDefaultIterateInitializer.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/Algorithm/IpDefaultIterateInitializer.cpp b/src/Algorithm/IpDefaultIterateInitializer.cpp
index f215f36..9a800cb 100644
--- a/src/Algorithm/IpDefaultIterateInitializer.cpp
+++ b/src/Algorithm/IpDefaultIterateInitializer.cpp
@@ -202,6 +202,20 @@ bool DefaultIterateInitializer::SetInitialIterates()
       // If least_square_init_primal, then we compute the least square x
       // and s that satisfy the linearized constraints, and push it into
       // bounds later.
+      // When solving the linear system, the current slacks may be looked at
+      // (for scaling), so these (and their multipliers, if they are tiny) need to have a value.
+      SmartPtr<const Vector> curr_s;
+      push_variables(Jnlst(), slack_bound_push_, slack_bound_frac_, "s", *IpCq().curr_d(), curr_s, *IpNLP().d_L(),
+                     *IpNLP().d_U(), *IpNLP().Pd_L(), *IpNLP().Pd_U());
+      iterates->Set_s(*curr_s);
+      iterates->create_new_v_L();
+      iterates->create_new_v_U();
+      iterates->v_L_NonConst()->Set(bound_mult_init_val_);
+      iterates->v_U_NonConst()->Set(bound_mult_init_val_);
+      IpData().set_trial(iterates);
+      IpData().CopyTrialToCurrent();
+      iterates = IpData().curr()->MakeNewContainer();
+
       SmartPtr<Vector> x_ls = iterates->x()->MakeNew();
       SmartPtr<Vector> s_ls = iterates->s()->MakeNew();
       bool retval = CalculateLeastSquarePrimals(*x_ls, *s_ls);
@@ -306,6 +320,8 @@ bool DefaultIterateInitializer::SetInitialIterates()
       SmartPtr<Vector> vU_new = IpData().trial()->v_U()->MakeNew();
       SmartPtr<Vector> yc_new = IpData().trial()->y_c()->MakeNew();
       SmartPtr<Vector> yd_new = IpData().trial()->y_d()->MakeNew();
+      // the current iterate is looked at, so it needs to be the one for which the multipliers are computed
+      IpData().CopyTrialToCurrent();
       bool retval = CalculateLeastSquareDuals(*zL_new, *zU_new, *vL_new, *vU_new, *yc_new, *yd_new);
       if( retval )
       {
-- 
2.43.0


From 43071c30c5f4f688871a2e9ad7f986bff84b7235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:49 +0000
Subject: [PATCH 65/70] fix: report the final iterate from sIPOPT if a time
 limit was reached

---
 contrib/sIPOPT/src/SensApplication.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contrib/sIPOPT/src/SensApplication.cpp b/contrib/sIPOPT/src/SensApplication.cpp
index c6361c5..b5a6c90 100644
--- a/contrib/sIPOPT/src/SensApplication.cpp
+++ b/contrib/sIPOPT/src/SensApplication.cpp
@@ -237,6 +237,8 @@ SensAlgorithmExitStatus SensApplication::Run()
           yc = ip_data_->curr()->y_c();
           yd = ip_data_->curr()->y_d();*/
          case MAXITER_EXCEEDED:
+         case CPUTIME_EXCEEDED:
+         case WALLTIME_EXCEEDED:
          case STOP_AT_TINY_STEP:
          case STOP_AT_ACCEPTABLE_POINT:
          case LOCAL_INFEASIBILITY:
-- 
2.43.0


From 29c3ed8dee76798ac74c46edd4db531ed5d97aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:49 +0000
Subject: [PATCH 66/70] fix: do not dereference missing algorithm objects in
 sIPOPT

---
 contrib/sIPOPT/src/SensApplication.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/contrib/sIPOPT/src/SensApplication.cpp b/contrib/sIPOPT/src/SensApplication.cpp
index b5a6c90..6cd8da2 100644
--- a/contrib/sIPOPT/src/SensApplication.cpp
+++ b/contrib/sIPOPT/src/SensApplication.cpp
@@ -199,7 +199,7 @@ SensAlgorithmExitStatus SensApplication::Run()
       }
    }
 
-   if( IsValid(ip_data_->curr()) && IsValid(ip_data_->curr()->x()) )
+   if( IsValid(ip_data_) && IsValid(ip_data_->curr()) && IsValid(ip_data_->curr()->x()) )
    {
       // point pointers to sensitivity vectors...
       // only if controller (sens_app) is created
@@ -346,10 +346,22 @@ void SensApplication::SetIpoptAlgorithmObjects(
    SmartPtr<IpoptAlgorithm> alg = app_ipopt->AlgorithmObject();
 
    SmartPtr<PDSearchDirCalculator> pd_search;
-   pd_search = dynamic_cast<PDSearchDirCalculator*>(GetRawPtr(alg->SearchDirCalc()));
+   if( IsValid(alg) )
+   {
+      pd_search = dynamic_cast<PDSearchDirCalculator*>(GetRawPtr(alg->SearchDirCalc()));
+   }
 
    // get PD_Solver
-   pd_solver_ = pd_search->PDSolver();
+   if( IsValid(pd_search) )
+   {
+      pd_solver_ = pd_search->PDSolver();
+   }
+   else
+   {
+      jnlst_->Printf(J_ERROR, J_MAIN, "sIPOPT: Aborting sIPOPT computation, because there is no primal-dual system solver\n\n");
+      options_->SetStringValue("sens_internal_abort", "yes");
+      options_->SetStringValue("redhess_internal_abort", "yes");
+   }
 
    // get data
    ip_data_ = app_ipopt->IpoptDataObject();
-- 
2.43.0


From 65de4368241b9f0cf04717911f57da0cff2f22f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:49 +0000
Subject: [PATCH 67/70] fix: take scaling of variables and constraints into
 account for parameter changes in sIPOPT

---
 contrib/sIPOPT/src/SensMetadataMeasurement.cpp | 4 +++-
 contrib/sIPOPT/src/SensStdStepCalc.cpp         | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/contrib/sIPOPT/src/SensMetadataMeasurement.cpp b/contrib/sIPOPT/src/SensMetadataMeasurement.cpp
index c2385db..06131be 100644
--- a/contrib/sIPOPT/src/SensMetadataMeasurement.cpp
+++ b/contrib/sIPOPT/src/SensMetadataMeasurement.cpp
@@ -107,7 +107,9 @@ SmartPtr<DenseVector> MetadataMeasurement::GetMeasurement(
    SmartPtr<DenseVector> delta_u = new DenseVector(GetRawPtr(ConstPtr(delta_u_space)));
    Number* du_val = delta_u->Values();
 
-   const Number* u_0_val = dynamic_cast<const DenseVector*>(GetRawPtr(IpData().trial()->x()))->Values();
+   // parameter values are given for the unscaled problem
+   SmartPtr<const Vector> unscaled_x = IpNLP().NLP_scaling()->unapply_vector_scaling_x(IpData().trial()->x());
+   const Number* u_0_val = dynamic_cast<const DenseVector*>(GetRawPtr(unscaled_x))->Values();
 
    // Fill up values of delta_u vector
    for( size_t i = 0; i < val_ipopt.size(); ++i )
diff --git a/contrib/sIPOPT/src/SensStdStepCalc.cpp b/contrib/sIPOPT/src/SensStdStepCalc.cpp
index da8cd18..da7db40 100644
--- a/contrib/sIPOPT/src/SensStdStepCalc.cpp
+++ b/contrib/sIPOPT/src/SensStdStepCalc.cpp
@@ -57,6 +57,8 @@ bool StdStepCalculator::Step(
 
    SmartPtr<IteratesVector> delta_u_long = IpData().trial()->MakeNewIteratesVector();
    ift_data_->TransMultiply(delta_u, *delta_u_long);
+   // delta_u changes the right hand side of equality constraints of the unscaled problem
+   delta_u_long->Set_y_c_NonConst(*IpNLP().NLP_scaling()->apply_vector_scaling_c_NonConst(delta_u_long->y_c()));
 
    SmartPtr<IteratesVector> r_s = IpData().trial()->MakeNewIteratesVector();
    if( kkt_residuals_ )
-- 
2.43.0


From a0356ce5ce1d94ecd1eb6d2f12b94d29f1521ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:49 +0000
Subject: [PATCH 68/70] fix: start every bound check in sIPOPT with empty Schur
 data and end it if no further bound can be satisfied

---
 contrib/sIPOPT/src/SensIndexPCalculator.cpp |  8 +++-----
 contrib/sIPOPT/src/SensIndexSchurData.cpp   |  9 +++++++++
 contrib/sIPOPT/src/SensIndexSchurData.hpp   |  3 +++
 contrib/sIPOPT/src/SensStdStepCalc.cpp      | 19 ++++++++++++++++++-
 4 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/contrib/sIPOPT/src/SensIndexPCalculator.cpp b/contrib/sIPOPT/src/SensIndexPCalculator.cpp
index 02d7ae6..7673772 100644
--- a/contrib/sIPOPT/src/SensIndexPCalculator.cpp
+++ b/contrib/sIPOPT/src/SensIndexPCalculator.cpp
@@ -147,11 +147,9 @@ bool IndexPCalculator::GetSchurMatrix(
     DBG_ASSERT(dynamic_cast<const DenseGenMatrix*>(&S));
     */
    // Check whether data_A was changed from the outside
-   if( ncols_ != data_A()->GetNRowsAdded() )
-   {
-      ncols_ = data_A()->GetNRowsAdded();
-      ComputeP();
-   }
+   // (only computes columns that have not been computed so far)
+   ncols_ = data_A()->GetNRowsAdded();
+   ComputeP();
    /*
     DBG_ASSERT(dS->NRows()==dS->NCols());
     DBG_ASSERT(dS->NRows()==data_A()->GetNRowsAdded());
diff --git a/contrib/sIPOPT/src/SensIndexSchurData.cpp b/contrib/sIPOPT/src/SensIndexSchurData.cpp
index ce4b67a..408b168 100644
--- a/contrib/sIPOPT/src/SensIndexSchurData.cpp
+++ b/contrib/sIPOPT/src/SensIndexSchurData.cpp
@@ -425,6 +425,15 @@ void IndexSchurData::AddData_List(
    }
 }
 
+void IndexSchurData::ClearData()
+{
+   DBG_START_METH("IndexSchurData::ClearData", dbg_verbosity);
+
+   idx_.clear();
+   val_.clear();
+   Set_NRows(0);
+}
+
 Index IndexSchurData::GetNRowsAdded() const
 {
    DBG_START_METH("IndexSchurData::GetNRowsAdded", dbg_verbosity);
diff --git a/contrib/sIPOPT/src/SensIndexSchurData.hpp b/contrib/sIPOPT/src/SensIndexSchurData.hpp
index a21f8c7..23dbd8c 100644
--- a/contrib/sIPOPT/src/SensIndexSchurData.hpp
+++ b/contrib/sIPOPT/src/SensIndexSchurData.hpp
@@ -111,6 +111,9 @@ public:
       Index               v
    );
 
+   /** removes all rows */
+   void ClearData();
+
    const std::vector<Index>* GetColIndices() const;
 
 private:
diff --git a/contrib/sIPOPT/src/SensStdStepCalc.cpp b/contrib/sIPOPT/src/SensStdStepCalc.cpp
index da7db40..6f9b6b2 100644
--- a/contrib/sIPOPT/src/SensStdStepCalc.cpp
+++ b/contrib/sIPOPT/src/SensStdStepCalc.cpp
@@ -112,6 +112,10 @@ bool StdStepCalculator::Step(
       SmartPtr<DenseVector> old_delta_u = new DenseVector(GetRawPtr(delta_u_space));
       SmartPtr<DenseVector> new_delta_u;
 
+      // start with empty schurdata, there may be data from an earlier step
+      dynamic_cast<IndexSchurData*>(GetRawPtr(Driver()->data_A_nonconst()))->ClearData();
+      dynamic_cast<IndexSchurData*>(GetRawPtr(Driver()->data_B_nonconst()))->ClearData();
+
       bounds_violated = BoundCheck(sol, x_bound_violations_idx, x_bound_violations_du);
       while( bounds_violated )
       {
@@ -123,10 +127,23 @@ bool StdStepCalculator::Step(
          // write new schurdata B
          dynamic_cast<IndexSchurData*>(GetRawPtr(Driver()->data_B_nonconst()))->AddData_List(x_bound_violations_idx,
                delta_u_sort, new_du_size, 1);
+         if( new_du_size == old_delta_u->Dim() )
+         {
+            // all violated bounds have been added to the Schur data already, so that another solve does not change anything
+            Jnlst().Printf(J_WARNING, J_MAIN,
+                           "sIPOPT: Could not find a sensitivity step that satisfies all variable bounds.\n");
+            break;
+         }
          Driver()->data_A()->Print(Jnlst(), J_VECTOR, J_USER1, "data_A");
          Driver()->data_B()->Print(Jnlst(), J_VECTOR, J_USER1, "data_B");
          Driver()->SchurBuild();
-         Driver()->SchurFactorize();
+         if( !Driver()->SchurFactorize() )
+         {
+            // the violated bounds cannot be satisfied together
+            Jnlst().Printf(J_WARNING, J_MAIN,
+                           "sIPOPT: Could not find a sensitivity step that satisfies all variable bounds.\n");
+            break;
+         }
 
          old_delta_u->Print(Jnlst(), J_VECTOR, J_USER1, "old_delta_u");
          delta_u_space = NULL; // delete old delta_u space
-- 
2.43.0


From 237db84f77a73173c372c1a5901d683b5d3a3fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:49 +0000
Subject: [PATCH 69/70] fix: handle failing backsolves in sIPOPT

---
 contrib/sIPOPT/src/SensApplication.cpp      | 33 ++++++++++++++++-----
 contrib/sIPOPT/src/SensSimpleBacksolver.cpp |  4 +++
 contrib/sIPOPT/src/SensSimpleBacksolver.hpp |  4 +++
 3 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/contrib/sIPOPT/src/SensApplication.cpp b/contrib/sIPOPT/src/SensApplication.cpp
index 6cd8da2..b3ee68c 100644
--- a/contrib/sIPOPT/src/SensApplication.cpp
+++ b/contrib/sIPOPT/src/SensApplication.cpp
@@ -162,10 +162,19 @@ SensAlgorithmExitStatus SensApplication::Run()
    {
       SmartPtr<SensBuilder> schur_builder = new SensBuilder();
       const std::string prefix = ""; // I should be getting this somewhere else...
-      SmartPtr<ReducedHessianCalculator> red_hess_calc = schur_builder->BuildRedHessCalc(*jnlst_, *options_, prefix,
-         *ip_nlp_, *ip_data_, *ip_cq_, *pd_solver_);
+      try
+      {
+         SmartPtr<ReducedHessianCalculator> red_hess_calc = schur_builder->BuildRedHessCalc(*jnlst_, *options_, prefix,
+            *ip_nlp_, *ip_data_, *ip_cq_, *pd_solver_);
 
-      red_hess_calc->ComputeReducedHessian();
+         red_hess_calc->ComputeReducedHessian();
+      }
+      catch( IpoptException& exc )
+      {
+         exc.ReportException(*jnlst_);
+         redhess_internal_abort = true;
+         retval = FATAL_ERROR;
+      }
    }
    if( run_sens_ && n_sens_steps_ > 0 && !sens_internal_abort )
    {
@@ -180,12 +189,22 @@ SensAlgorithmExitStatus SensApplication::Run()
        *ip_cq_,
        *pd_solver_);
        */
-      controller = schur_builder->BuildSensAlg(*jnlst_, *options_, prefix, *ip_nlp_, *ip_data_, *ip_cq_, *pd_solver_);
-      retval = controller->Run();
+      try
+      {
+         controller = schur_builder->BuildSensAlg(*jnlst_, *options_, prefix, *ip_nlp_, *ip_data_, *ip_cq_, *pd_solver_);
+         controller->Run();
 
-      if( compute_dsdp_ )
+         if( compute_dsdp_ )
+         {
+            controller->ComputeSensitivityMatrix();
+         }
+      }
+      catch( IpoptException& exc )
       {
-         controller->ComputeSensitivityMatrix();
+         exc.ReportException(*jnlst_);
+         sens_internal_abort = true;
+         controller = NULL;
+         retval = FATAL_ERROR;
       }
    }
    else if( run_sens_ )
diff --git a/contrib/sIPOPT/src/SensSimpleBacksolver.cpp b/contrib/sIPOPT/src/SensSimpleBacksolver.cpp
index d60bc3e..6f576ca 100644
--- a/contrib/sIPOPT/src/SensSimpleBacksolver.cpp
+++ b/contrib/sIPOPT/src/SensSimpleBacksolver.cpp
@@ -45,6 +45,10 @@ bool SimpleBacksolver::Solve(
    bool improve_solution = false;
 
    retval = pd_solver_->Solve(1.0, 0.0, *delta_rhs, *delta_lhs, allow_inexact_, improve_solution);
+   if( !retval )
+   {
+      THROW_EXCEPTION(SENS_BACKSOLVE_FAILED, "Solving the primal-dual system failed");
+   }
 
    return retval;
 }
diff --git a/contrib/sIPOPT/src/SensSimpleBacksolver.hpp b/contrib/sIPOPT/src/SensSimpleBacksolver.hpp
index 152bc3e..e10520e 100644
--- a/contrib/sIPOPT/src/SensSimpleBacksolver.hpp
+++ b/contrib/sIPOPT/src/SensSimpleBacksolver.hpp
@@ -12,10 +12,14 @@
 
 #include "IpPDSystemSolver.hpp"
 #include "SensBacksolver.hpp"
+#include "SensUtils.hpp"
 
 namespace Ipopt
 {
 
+/** thrown if the linear system could not be solved */
+DECLARE_STD_SIPOPT_EXCEPTION(SENS_BACKSOLVE_FAILED);
+
 class SIPOPTLIB_EXPORT SimpleBacksolver: public SensBacksolver
 {
 public:
-- 
2.43.0


From 7c98ffed7f2c1cdff7b2a6f14f6b1647a3c44f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:08 +0000
Subject: [PATCH 70/70] fix: do not access metadata of empty vectors

---
 src/Interfaces/IpTNLPAdapter.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 147b5e8..2651546 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2102,7 +2102,10 @@ void TNLPAdapter::FinalizeSolution(
             new_g_meta_data.resize(n_full_g_);
             SmartPtr<DenseVector> y_c_meta_vector = y_c_space->MakeNewDenseVector();
             SmartPtr<DenseVector> y_d_meta_vector = y_d_space->MakeNewDenseVector();
-            y_c_meta_vector->SetValues(&(y_c_meta_iter->second)[0]);
+            if( y_c_meta_iter->second.size() > 0 )
+            {
+               y_c_meta_vector->SetValues(&(y_c_meta_iter->second)[0]);
+            }
             if( y_d_second.size() > 0 )
             {
                y_d_meta_vector->SetValues(&y_d_second[0]);
@@ -2172,7 +2175,10 @@ void TNLPAdapter::FinalizeSolution(
             std::vector<Number> z_U_second = z_U_space->GetNumericMetaData(z_L_meta_iter->first);
             SmartPtr<DenseVector> z_L_meta_vector = z_L_space->MakeNewDenseVector();
             SmartPtr<DenseVector> z_U_meta_vector = z_U_space->MakeNewDenseVector();
-            z_L_meta_vector->SetValues(&(z_L_meta_iter->second)[0]);
+            if( z_L_meta_iter->second.size() > 0 )
+            {
+               z_L_meta_vector->SetValues(&(z_L_meta_iter->second)[0]);
+            }
             if( z_U_second.size() > 0 )
             {
                z_U_meta_vector->SetValues(&z_U_second[0]);
-- 
2.43.0

