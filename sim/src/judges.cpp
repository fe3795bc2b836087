// Judgements over the recorded history of one solve, shared by several properties.
#include "common.hpp"
#include "IpAlgTypes.hpp"
namespace sim
{
static bool eqm(Num a, Num b, Num rel, Num ab) { return feq(a, b, rel, ab); }
static bool fin(Num v) { return std::isfinite(v); }
bool makes_param(const Ctx& c) { std::string f = c.opts("fixed_variable_treatment", "make_parameter"); return f == "make_parameter" || f == "make_parameter_nodual"; }
static bool has_dof(const Problem& P)
{
   int nfree = 0, meq = 0;
   for( int i = 0; i < P.n; ++i ) nfree += !P.fixed(i);
   for( int j = 0; j < P.m; ++j ) meq += P.gl[j] == P.gu[j];
   return nfree >= meq || nfree == 0;
}
bool default_branch(int sr)
{
   return sr >= Ipopt::INVALID_NUMBER_DETECTED;
}
// the SolverReturn given to finalize_solution and the status returned to the caller tell the same
void judge_mapping(const std::string& prop, const Scn& s, const SolveRes& r)
{
   const FinRec* f = s.fin();
   if( !f || r.status == -1000 ) return;
   static const std::map<int, int> tr = { {Ipopt::SUCCESS, 0}, {Ipopt::MAXITER_EXCEEDED, -1}, {Ipopt::CPUTIME_EXCEEDED, -4}, {Ipopt::WALLTIME_EXCEEDED, -5}, {Ipopt::STOP_AT_TINY_STEP, 3},
      {Ipopt::STOP_AT_ACCEPTABLE_POINT, 1}, {Ipopt::LOCAL_INFEASIBILITY, 2}, {Ipopt::USER_REQUESTED_STOP, 5}, {Ipopt::FEASIBLE_POINT_FOUND, 6}, {Ipopt::DIVERGING_ITERATES, 4},
      {Ipopt::RESTORATION_FAILURE, -2}, {Ipopt::ERROR_IN_STEP_COMPUTATION, -3}, {Ipopt::INVALID_NUMBER_DETECTED, -13}, {Ipopt::TOO_FEW_DEGREES_OF_FREEDOM, -10}, {Ipopt::INVALID_OPTION, -12}, {Ipopt::OUT_OF_MEMORY, -102} };
   auto i = tr.find(f->status);
   int want = i == tr.end() ? -9999 : i->second;
   if( want == -9999 ) { if( r.status > -100 && r.status != -11 ) W->violate(prop, "mapping", fmt("finalize_solution received SolverReturn %d but the solve returned %s", (int)f->status, st_name(r.status))); }
   else if( want != r.status && !(f->status == Ipopt::LOCAL_INFEASIBILITY && r.status == -11) )
   {
      // an exception thrown by or after finalize_solution changes what is returned
      if( r.status <= -100 && (any_fault(s.c, "fin:") || any_fault(s.c, "alloc:") || any_fault(s.c, ":throw") || any_fault(s.c, ":ipexc") || any_fault(s.c, ":badalloc")) ) return;
      W->violate(prop, "mapping", fmt("finalize_solution received SolverReturn %d but the solve returned %s", (int)f->status, st_name(r.status)));
   }
}
bool vec_same(const Vec& a, const Vec& b)
{
   if( a.size() != b.size() ) return false;
   for( size_t i = 0; i < a.size(); ++i ) if( dbits(a[i]) != dbits(b[i]) && a[i] != b[i] ) return false;
   return true;
}
void judge_final_consistency(const std::string& prop, const Scn& s, const SolveRes& r)
{
   const Ctx& c = s.c; const Problem& P = s.P;
   auto bad = [&](const std::string& cls, const std::string& m) { W->violate(prop, cls, fmt("%s: ", st_name(r.status)) + m); };
   bool skip = c.opt_is("skip_finalize_solution_call", "yes");
   if( c.fins.size() > 1 ) bad("final-twice", fmt("finalize_solution was called %zu times", c.fins.size()));
   if( skip ) { if( c.fins.size() ) bad("final-skipped", "finalize_solution was called although skip_finalize_solution_call=yes"); return; }
   bool fineval = false;     // the user's functions are evaluated to complete the final report
   for( int i = 0; i < P.n; ++i ) fineval = fineval || P.fixed(i);
   fineval = fineval || c.opt.count("dependency_detector");
   bool thrown = any_fault(c, ":throw") || any_fault(c, ":ipexc") || any_fault(c, ":badalloc") || any_fault(c, ":overflow");
   if( c.fins.empty() && c.iters.size() && !(fineval && thrown) ) bad("final-missing", fmt("finalize_solution was not called although %zu iterations were made", c.iters.size()));
   const FinRec* f = s.fin();
   if( !f ) return;
   judge_mapping(prop, s, r);
   bool wrong = any_fault(c, ":wrong") || any_fault(c, "alloc:");
   bool par = makes_param(c) && has_dof(P);
   if( par && !c.opt.count("dependency_detector") )
      for( int i = 0; i < P.n; ++i ) if( P.fixed(i) && f->x[i] != P.xl[i] )
         bad("final-fixed", fmt("x[%d]=%.17g of the final point, but the variable is fixed at %.17g", i, f->x[i], P.xl[i]));
   for( int i = 0; i < P.n; ++i )
   {
      if( P.xl[i] <= -1e19 && f->zl[i] != 0. ) bad("final-zl", fmt("multiplier %g for a lower bound that does not exist (x[%d])", f->zl[i], i));
      if( P.xu[i] >= 1e19 && f->zu[i] != 0. ) bad("final-zu", fmt("multiplier %g for an upper bound that does not exist (x[%d])", f->zu[i], i));
   }
   if( default_branch(f->status) )
   {
      for( Num v : f->lam ) if( v != 0. && v == v ) { bad("final-zero-mult", "nonzero constraint multipliers although no solution is provided"); break; }
      for( int i = 0; i < P.n; ++i ) if( (f->zl[i] != 0. && f->zl[i] == f->zl[i]) || (f->zu[i] != 0. && f->zu[i] == f->zu[i]) ) { bad("final-zero-mult", "nonzero bound multipliers although no solution is provided"); break; }
   }
   else if( !wrong )
   {
      uint64_t xh = xhash(f->x.data(), P.n);
      bool fpure = (!any_fault(c, "f:") || (c.okf.count(xh) && c.okf.at(xh) == 1)), gpure = !any_fault(c, "g:") || (c.okg.count(xh) && c.okg.at(xh) == 1);
      Num v = P.f.value(f->x.data());
      bool hob = c.opt_is("honor_original_bounds", "yes");   // documented: only x is projected at the end
      if( fpure && !hob && !eqm(v, f->obj, 1e-11, 1e-300) && !(std::isnan(v)) ) bad("final-obj", fmt("reported objective %.17g, objective at the reported point %.17g", f->obj, v));
      for( int j = 0; j < P.m && gpure && !hob; ++j )
      {
         Num gv = P.g[j].value(f->x.data());
         Num sc = 1; if( P.gl[j] == P.gu[j] ) sc = std::max(sc, std::abs(P.gl[j]));
         if( !eqm(gv, f->g[j], 1e-11, 1e-13 * sc) && !std::isnan(gv) ) bad("final-g", fmt("reported g[%d]=%.17g, value at the reported point %.17g", j, f->g[j], gv));
      }
      if( par && c.opts("fixed_variable_treatment", "make_parameter") == "make_parameter" && !any_fault(c, "gf:") && !any_fault(c, "jg:") && !c.opt.count("jacobian_approximation") && !c.opt.count("gradient_approximation") && !c.opt.count("dependency_detector") )
      {
         Vec q(P.n, 0.), mag(P.n, 0.);
         P.f.grad(f->x.data(), q.data(), 1.);
         for( int i = 0; i < P.n; ++i ) mag[i] = std::abs(q[i]);
         for( int j = 0; j < P.m; ++j )
         {
            Vec t(P.n, 0.);
            P.g[j].grad(f->x.data(), t.data(), f->lam[j]);
            for( int i = 0; i < P.n; ++i ) { q[i] += t[i]; mag[i] += std::abs(t[i]); }
         }
         for( int i = 0; i < P.n; ++i ) if( P.fixed(i) && fin(q[i]) )
         {
            if( std::min(std::abs(f->zl[i]), std::abs(f->zu[i])) != 0. || f->zl[i] < 0 || f->zu[i] < 0 || !eqm(f->zl[i] - f->zu[i], q[i], 1e-9, 1e-9 * mag[i]) )
               bad("final-fixmult", fmt("multipliers zl=%g zu=%g of the fixed variable x[%d] do not balance the gradient of the Lagrangian %g", f->zl[i], f->zu[i], i, q[i]));
         }
      }
   }
   // the final point is the last iterate
   if( c.inspect && !c.iters.empty() && c.iters.back().have && c.iters.back().mode == 0 && !c.opt_is("honor_original_bounds", "yes") && !wrong && !default_branch(f->status) )
   {
      const IterRec& l = c.iters.back();
      bool same = true;
      for( int i = 0; i < P.n; ++i ) same = same && eqm(l.x[i], f->x[i], 0, 0);
      if( f->status == Ipopt::STOP_AT_ACCEPTABLE_POINT && !same )
      {
         // an acceptable iterate stored earlier may have been restored
         bool some = false;
         for( auto& q : c.iters ) some = some || (q.have && vec_same(q.x, f->x));
         if( !some ) bad("final-last", "the final point is not among the iterates shown to intermediate_callback");
      }
      // a limit during a watchdog phase takes back the watchdog steps (#289)
      bool wd = l.achar == 'w' && (f->status == Ipopt::MAXITER_EXCEEDED || f->status == Ipopt::CPUTIME_EXCEEDED || f->status == Ipopt::WALLTIME_EXCEEDED);
      if( wd && c.iters.size() > 1 )
      {  // back to the iterate the watchdog phase started from
         size_t k = c.iters.size();
         while( k > 0 && c.iters[k - 1].achar == 'w' && c.iters[k - 1].mode == 0 ) --k;
         if( k > 0 && c.iters[k - 1].have && !vec_same(c.iters[k - 1].x, f->x) ) bad("final-watchdog", fmt("a limit was reached in a watchdog phase, but the final point is not the iterate %d the phase started from", c.iters[k - 1].iter));
         W->count("watchdog.limit");
      }
      if( !same && r.status > -100 && !wd && f->status != Ipopt::STOP_AT_ACCEPTABLE_POINT ) { int w = 0; for( int i = 0; i < P.n; ++i ) if( !eqm(l.x[i], f->x[i], 0, 0) ) w = i; bad("final-last", fmt("x[%d]=%.17g of the final point, but %.17g at the last iterate (iteration %d) shown to intermediate_callback", w, f->x[w], l.x[w], l.iter)); }
      static const std::set<int> plain = { Ipopt::SUCCESS, Ipopt::STOP_AT_ACCEPTABLE_POINT, Ipopt::MAXITER_EXCEEDED, Ipopt::CPUTIME_EXCEEDED, Ipopt::WALLTIME_EXCEEDED, Ipopt::USER_REQUESTED_STOP, Ipopt::DIVERGING_ITERATES };
      if( same && plain.count(f->status) )
      {
         for( int j = 0; j < P.m; ++j ) if( !std::isnan(l.lam[j]) && !eqm(l.lam[j], f->lam[j], 1e-13, 0) ) { bad("final-last-mult", fmt("the final multiplier of constraint %d is %.17g, %.17g at the last iterate", j, f->lam[j], l.lam[j])); break; }
         for( int i = 0; i < P.n; ++i ) if( !P.fixed(i) && (!eqm(l.zl[i], f->zl[i], 1e-13, 0) || !eqm(l.zu[i], f->zu[i], 1e-13, 0)) )
            { bad("final-last-mult", fmt("the final bound multipliers of x[%d] differ from those at the last iterate", i)); break; }
      }
   }
}
static Num relx(const Ctx& c, Num b) { return std::min(c.optd("constr_viol_tol", 1e-4), c.optd("bound_relax_factor", 1e-8) * std::max(1., std::abs(b))); }
// reports made to intermediate_callback
void judge_iters(const std::string& prop, const Scn& s, const SolveRes& r)
{
   const Ctx& c = s.c; const Problem& P = s.P;
   Scaling sc = compute_scaling(c);
   if( any_fault(c, "gf:") || any_fault(c, "jg:") || any_fault(c, "scal:") || any_fault(c, "start:") ) sc.exact = false;
   bool wrong = any_fault(c, ":wrong");
   bool par = makes_param(c) && has_dof(P) && !c.opt.count("dependency_detector");
   bool relaxb = c.opt_is("fixed_variable_treatment", "relax_bounds") || c.opt_is("fixed_variable_treatment", "make_constraint");
   for( size_t k = 0; k < c.iters.size(); ++k )
   {
      const IterRec& q = c.iters[k];
      auto bad = [&](const std::string& cls, const std::string& m) { W->violate(prop, cls, fmt("iteration %d%s: ", q.iter, q.mode ? "r" : "") + m); };
      // the first regular iteration after a restoration phase carries the number of the last restoration iteration
      if( k == 0 ? q.iter != 0 : q.iter != c.iters[k - 1].iter + (c.iters[k - 1].mode == 1 && q.mode == 0 ? 0 : 1) )
         bad("iter-count", k == 0 ? fmt("the first call reports iteration %d", q.iter) : fmt("follows iteration %d", c.iters[k - 1].iter));
      if( (!(q.mu > 0) || !fin(q.mu)) && !any_fault(c, "mumps:") ) bad("iter-mu", fmt("barrier parameter %g", q.mu));
      if( !(q.apr >= 0 && q.apr <= 1 && q.adu >= 0 && q.adu <= 1) ) bad("iter-alpha", fmt("step sizes alpha_pr=%g alpha_du=%g", q.apr, q.adu));
      if( q.ls < 0 ) bad("iter-ls", fmt("%d line search trials", q.ls));
      if( q.reg < 0 ) bad("iter-reg", fmt("regularisation %g", q.reg));
      if( !(q.inf_pr >= 0) || !fin(q.inf_pr) ) bad("iter-infpr", fmt("primal infeasibility %g", q.inf_pr));
      if( !(q.inf_du >= 0) ) if( !(any_fault(c, "gf:") || any_fault(c, "jg:") || any_fault(c, "mumps:nan") || P.domain) ) bad("iter-infdu", fmt("dual infeasibility %g", q.inf_du));
      if( !q.have || wrong ) continue;
      uint64_t xh = xhash(q.x.data(), P.n);
      Num v = P.f.value(q.x.data());
      bool fpure = !any_fault(c, "f:") || (c.okf.count(xh) && c.okf.at(xh) == 1);
      if( q.mode == 0 && fpure && !eqm(v, q.obj, 1e-11, 1e-300) ) bad("iter-obj", fmt("objective %.17g reported, %.17g at the iterate", q.obj, v));
      if( q.mode == 1 && fpure && !c.opt_is("evaluate_orig_obj_at_resto_trial", "no") && !eqm(v, q.obj, 1e-11, 1e-300) ) bad("iter-obj-resto", fmt("objective %.17g reported, %.17g at the iterate", q.obj, v));
      bool gpure = !any_fault(c, "g:") || (c.okg.count(xh) && c.okg.at(xh) == 1);
      if( sc.exact && gpure && !relaxb && !c.opt.count("dependency_detector") )
      {
         Num lo = 0, eqv = 0; bool ineq = false; int wj = -1;
         for( int j = 0; j < P.m; ++j )
         {
            Num gv = P.g[j].value(q.x.data()), w = 0;
            if( P.gl[j] == P.gu[j] ) { w = std::abs(gv - P.gl[j]) * sc.dg[j]; eqv = std::max(eqv, w); }
            else
            {
               ineq = true;
               if( P.gl[j] > -1e19 ) w = std::max(w, P.gl[j] - relx(c, P.gl[j]) * 1.0001 - gv);
               if( P.gu[j] < 1e19 ) w = std::max(w, gv - P.gu[j] - relx(c, P.gu[j]) * 1.0001);
               w *= sc.dg[j];
            }
            if( w > lo ) { lo = w; wj = j; }
         }
         Num tl = 1e-10 * (1 + lo) + c.optd("slack_move", 1.8189894035458565e-12) * 1e4;
         for( int j = 0; j < P.m; ++j ) if( P.gl[j] == P.gu[j] ) tl = std::max(tl, 1e-13 * std::abs(P.gl[j]) * sc.dg[j]);
         if( q.inf_pr < lo * (1 - 1e-9) - tl ) bad("iter-infpr-low", fmt("primal infeasibility %.10g reported, but constraint %d is violated by %.10g (scaled)", q.inf_pr, wj, lo));
         if( !ineq && P.m > 0 && !feq(q.inf_pr, eqv, 1e-9, tl) ) bad("iter-infpr-eq", fmt("primal infeasibility %.10g reported, violation of the equality constraints is %.10g (scaled)", q.inf_pr, eqv));
         if( q.have2 && q.inf_pr > 0 )
         {  // with the slacks of the inequalities at hand: exactly max(|c(x)|,|d(x)-s|)
            Num w = 0, mg = 0; size_t k2 = 0; bool ok = true;
            for( int j = 0; j < P.m; ++j )
            {
               Num gv = P.g[j].value(q.x.data());
               if( P.gl[j] == P.gu[j] ) { w = std::max(w, std::abs(gv - P.gl[j]) * sc.dg[j]); mg = std::max(mg, std::abs(P.gl[j] * sc.dg[j])); }
               else if( k2 < q.s.size() ) { w = std::max(w, std::abs(gv * sc.dg[j] - q.s[k2])); mg = std::max(mg, std::abs(q.s[k2])); ++k2; }
               else ok = false;
            }
            if( ok && k2 == q.s.size() && !feq(q.inf_pr, w, 1e-9, tl + 1e-12 * mg) ) bad("iter-infpr", fmt("primal infeasibility %.10g reported, but max(|c(x)|,|d(x)-s|) is %.10g (scaled)", q.inf_pr, w));
         }
         if( P.m == 0 && q.inf_pr != 0. && !relaxb ) bad("iter-infpr-eq", fmt("primal infeasibility %.10g reported for a problem without constraints", q.inf_pr));
      }
      // dual infeasibility, recomputed from the iterate shown
      if( sc.exact && q.mode == 0 && par && !P.use_xs && !any_fault(c, "gf:") && !any_fault(c, "jg:") && !c.opt.count("jacobian_approximation") && !c.opt.count("gradient_approximation") )
      {
         Vec gr(P.n, 0.), mag(P.n, 0.);
         P.f.grad(q.x.data(), gr.data(), 1.);
         for( int i = 0; i < P.n; ++i ) mag[i] = std::abs(gr[i]);
         for( int j = 0; j < P.m; ++j )
         {
            Vec t(P.n, 0.);
            P.g[j].grad(q.x.data(), t.data(), q.lam[j]);
            for( int i = 0; i < P.n; ++i ) { gr[i] += t[i]; mag[i] += std::abs(t[i]); }
         }
         Num lo = 0, mg = 0; bool ok = true;
         for( int i = 0; i < P.n; ++i ) if( !P.fixed(i) )
         {
            gr[i] += q.zu[i] - q.zl[i]; mag[i] += std::abs(q.zu[i]) + std::abs(q.zl[i]);
            if( !fin(gr[i]) ) ok = false;
            lo = std::max(lo, std::abs(gr[i] * sc.df)); mg = std::max(mg, std::abs(mag[i] * sc.df));
         }
         bool ineq = false;
         for( int j = 0; j < P.m; ++j ) ineq = ineq || P.gl[j] != P.gu[j];
         if( ok && q.inf_du < lo - 1e-9 * mg - 1e-300 ) bad("iter-infdu-low", fmt("dual infeasibility %.10g reported, gradient of the Lagrangian at the iterate has norm %.10g (scaled)", q.inf_du, lo));
         if( ok && q.have2 && !feq(q.inf_du, std::max(lo, q.gs), 0, 1e-9 * (mg + q.gs) + 1e-300) ) bad("iter-infdu-eq", fmt("dual infeasibility %.10g reported, gradient of the Lagrangian has norm %.10g w.r.t. the variables and %.10g w.r.t. the slacks (scaled)", q.inf_du, lo, q.gs));
         if( ok && !ineq && !feq(q.inf_du, lo, 0, 1e-9 * mg + 1e-300) ) bad("iter-infdu-eq", fmt("dual infeasibility %.10g reported, gradient of the Lagrangian at the iterate has norm %.10g (scaled)", q.inf_du, lo));
      }
      // step
      if( q.have2 && q.dn != q.dmax ) bad("iter-dnorm", fmt("||d|| %.17g reported, but the step has norm %.17g", q.dn, q.dmax));
      if( k > 0 && q.have2 && c.iters[k - 1].have2 && q.mode == c.iters[k - 1].mode && q.s.size() == c.iters[k - 1].s.size() && !c.opt_is("magic_steps", "yes") && !c.opt.count("corrector_type") && (q.achar == 'f' || q.achar == 'h') && c.iters[k - 1].achar != 'w' && c.iters[k - 1].achar != 'W' )
      {
         Num ds = 0, xm = 1;
         for( size_t i = 0; i < q.s.size(); ++i ) { ds = std::max(ds, std::abs(q.s[i] - c.iters[k - 1].s[i])); xm = std::max(xm, std::abs(q.s[i])); }
         if( ds > q.apr * q.dn * (1 + 1e-8) + 1e-13 * xm ) bad("iter-step", fmt("the slacks moved by %.10g, reported alpha_pr*||d|| is %.10g", ds, q.apr * q.dn));
      }
      if( k > 0 && q.mode == 0 && c.iters[k - 1].mode == 0 && c.iters[k - 1].have && !c.opt_is("magic_steps", "yes") && !c.opt.count("corrector_type") && !P.use_xs && (q.achar == 'f' || q.achar == 'h') && c.iters[k - 1].achar != 'w' && c.iters[k - 1].achar != 'W' )
      {
         Num dx = 0, xm = 1;
         for( int i = 0; i < P.n; ++i ) { dx = std::max(dx, std::abs(q.x[i] - c.iters[k - 1].x[i])); xm = std::max(xm, std::abs(q.x[i])); }
         if( dx > q.apr * q.dn * (1 + 1e-8) + 1e-13 * xm ) bad("iter-step", fmt("the iterate moved by %.10g, reported alpha_pr*||d|| is %.10g", dx, q.apr * q.dn));
      }
   }
   (void) r;
}
}
