// C04: the final report is consistent and delivered exactly once.
#include "common.hpp"
namespace sim
{
static Plan gen(uint64_t seed, bool)
{
   Rng r(seed * 1000003 + 401);
   Plan p;
   if( r.p(0.15) )
   {  // a limit in the middle of a watchdog phase
      GenCfg g;
      g.families = { "rosenbrock", "nonconvex", "wb", "hs071", "hs015", "circle", "domain", "scaled", "square", "hs006", "degen" };
      gen_problem(p, r, g);
      p.add("flag inspect");
      p.add("opt max_iter 100");
      p.add(fmt("wdstop %d %d", r.in(0, 2), r.in(0, 1000)));
      p.add("cost icb 1");
      p.add(fmt("opt watchdog_shortened_iter_trigger %d", r.in(1, 2)));
      if( r.p(0.5) ) p.add(fmt("opt watchdog_trial_iter_max %d", r.in(2, 8)));
      gen_options(p, r, { "max_iter", "watchdog_shortened_iter_trigger", "watchdog_trial_iter_max", "line_search_method", "expect_infeasible_problem" }, r.p(0.5) ? 0. : 0.3);
      return p;
   }
   gen_std(p, r, r.p(0.3) ? 0. : 0.5);
   if( r.p(0.6) ) p.add("flag inspect");
   if( r.p(0.5) ) p.add("flag inspectviol 0");
   if( r.p(0.08) ) { p.it[0].a.push_back("uscal=1"); p.add("opt nlp_scaling_method user-scaling"); }
   if( r.p(0.35) ) gen_eval_faults(p, r, 3, { "false", "nan", "inf", "allnan" }, { "f", "gf", "g", "jg", "h" }, 60);
   if( r.p(0.2) ) gen_mumps_faults(p, r, 3);
   if( r.p(0.15) ) gen_limits(p, r);
   if( r.p(0.2) ) p.add(fmt("fault icb stop %d", r.in(1, 25)));
   if( r.p(0.05) ) p.add("opt skip_finalize_solution_call yes");
   if( r.p(0.1) ) gen_eval_faults(p, r, 1, { "throw", "throwint", "ipexc", "badalloc", "overflow" }, { "f", "gf", "g", "jg", "h", "icb", "start", "bounds" }, 40);
   if( r.p(0.15) ) p.add("reopt");
   return p;
}
static void run(const Plan& p)
{
   if( const Item* w = p.find("wdstop") )
   {
      std::vector<int> at;
      {
         Scn s(p, "P");
         s.solve();
         for( auto& q : s.c.iters ) if( q.achar == 'w' && q.mode == 0 ) at.push_back(q.iter);
      }
      if( at.empty() ) { W->count("watchdog.none"); return; }
      int k = at[w->l(1) % at.size()];
      Plan q = p;
      if( w->l(0) == 0 ) q.add(fmt("opt max_iter %d", k));
      else q.add(fmt("opt %s %g", w->l(0) == 1 ? "max_cpu_time" : "max_wall_time", k + 0.5));
      Scn s(q, "W");
      SolveRes r = s.solve();
      judge_final_consistency("C04", s, r);
      return;
   }
   Scn s(p);
   SolveRes r = s.solve();
   W->count("iters", (long)s.c.iters.size());
   judge_final_consistency("C04", s, r);
   if( p.find("reopt") && r.status != -1000 && r.status > -100 )
   {
      SolveRes q = s.solve(true);
      if( q.status != -1000 ) judge_final_consistency("C04", s, q);
   }
}
static RegProp reg("C04", "consistent final report", gen, run);
}
