// C03: the user's stop request is obeyed at once, from any phase of the algorithm.
#include "common.hpp"
#include "IpAlgTypes.hpp"
namespace sim
{
static Plan gen(uint64_t seed, bool)
{
   Rng r(seed * 1000003 + 301);
   Plan p;
   gen_problem_biased(p, r);
   p.add("opt max_iter 200");
   gen_options(p, r, { "max_iter" }, r.p(0.25) ? 0. : 0.55);
   p.add("flag inspect");
   p.add("flag inspectviol 0");
   p.add(fmt("fault icb stop %d", (int)std::floor(r.logu(1, 60))));
   if( r.p(0.3) ) gen_eval_faults(p, r, 2, { "false", "nan", "inf", "allnan" }, { "f", "gf", "g", "jg", "h" }, 60);
   if( r.p(0.15) ) gen_mumps_faults(p, r, 2);
   if( r.p(0.1) ) gen_limits(p, r);
   return p;
}
static void run(const Plan& p)
{
   Scn s(p);
   SolveRes r = s.solve();
   const Ctx& c = s.c; const Problem& P = s.P;
   W->count("iters", (long)c.iters.size());
   if( !c.stop_latched )
   {
      if( r.status == 5 ) W->violate("C03", "stop-unasked", "User_Requested_Stop although intermediate_callback never asked for it");
      return;
   }
   const IterRec& l = c.iters.back();
   W->count(l.mode ? "stop.resto" : "stop.regular");
   // the derivatives needed for the final summary may fail at the point where the stop was requested
   if( r.status == -13 && c.failed_after_stop ) { W->count("stop.evalfail"); return; }
   if( r.status != 5 ) { W->violate("C03", "stop-status", fmt("intermediate_callback asked to stop in iteration %d%s, but the solve returned %s", l.iter, l.mode ? "r" : "", st_name(r.status))); return; }
   const FinRec* f = s.fin();
   if( !f ) { if( !c.opt_is("skip_finalize_solution_call", "yes") ) W->violate("C03", "stop-final", "finalize_solution was not called after the stop"); return; }
   if( f->status != Ipopt::USER_REQUESTED_STOP ) W->violate("C03", "stop-final-status", fmt("finalize_solution received SolverReturn %d after the stop", (int)f->status));
   if( c.evals_after_stop > 8 ) W->violate("C03", "stop-evals", fmt("%ld evaluations of user functions after the stop had been requested", c.evals_after_stop));
   if( l.have && !c.opt_is("honor_original_bounds", "yes") )
   {
      bool same = true; int w = 0;
      for( int i = 0; i < P.n; ++i ) if( !(l.x[i] == f->x[i] || (std::isnan(l.x[i]) && std::isnan(f->x[i]))) ) { same = false; w = i; }
      if( !same ) W->violate("C03", l.mode ? "stop-point-resto" : "stop-point", fmt("x[%d]=%.17g of the final point, but %.17g at the iterate of iteration %d%s, where the stop was requested", w, f->x[w], l.x[w], l.iter, l.mode ? "r" : ""));
      else if( l.mode == 0 )
      {
         for( int j = 0; j < P.m; ++j ) if( !std::isnan(l.lam[j]) && !feq(l.lam[j], f->lam[j], 1e-13, 0) ) { W->violate("C03", "stop-mult", fmt("multiplier of constraint %d is %.17g in the final point, %.17g at the stop", j, f->lam[j], l.lam[j])); break; }
         for( int i = 0; i < P.n; ++i ) if( !P.fixed(i) && (!feq(l.zl[i], f->zl[i], 1e-13, 0) || !feq(l.zu[i], f->zu[i], 1e-13, 0)) ) { W->violate("C03", "stop-mult", fmt("bound multipliers of x[%d] differ from those at the stop", i)); break; }
      }
   }
}
static RegProp reg("C03", "user stop", gen, run);
}
