// C02: iteration and time limits are honoured; every solve ends.
#include "common.hpp"
namespace sim
{
static Plan gen(uint64_t seed, bool)
{
   Rng r(seed * 1000003 + 201);
   Plan p;
   gen_problem_biased(p, r);
   p.add(r.p(0.5) ? fmt("opt max_iter %d", (int)std::floor(r.logu(0.5, 120))) : std::string("opt max_iter 200"));
   gen_options(p, r, { "max_iter", "max_resto_iter" }, r.p(0.2) ? 0. : 0.55);
   if( r.p(0.25) ) p.add(fmt("opt max_resto_iter %d", (int)std::floor(r.logu(0.5, 30))));
   if( r.p(0.75) )
   {
      p.add(fmt("cost %s %g", r.p(0.5) ? "f" : "g", r.logu(1e-3, 2)));
      if( r.p(0.3) ) p.add(fmt("cost mumps %g", r.logu(1e-3, 2)));
      if( r.p(0.3) ) p.add(fmt("cost h %g", r.logu(1e-3, 2)));
      if( r.p(0.3) ) p.add(fmt("cost icb %g", r.logu(1e-3, 2)));
      if( r.p(0.3) ) p.add(fmt("cost jg %g", r.logu(1e-3, 2)));
      int w = r.in(1, 3);
      if( w & 1 ) p.add(fmt("opt max_cpu_time %g", r.logu(1e-3, 50)));
      if( w & 2 ) p.add(fmt("opt max_wall_time %g", r.logu(1e-3, 50)));
   }
   static const std::vector<std::string> ck = { "wallonly", "cpuonly", "advance", "wallback", "freeze" }, cs = { "f", "g", "gf", "icb", "h", "mumps" };
   for( int k = r.p(0.4) ? r.in(1, 3) : 0; k > 0; --k )
      p.add(fmt("fault %s %s %d %d %g", r.pick(cs).c_str(), ck[r.p(0.7) ? r.in(0, 2) : r.in(3, 4)].c_str(), (int)std::floor(r.logu(1, 60)), 0, r.logu(1e-2, 100)));
   for( auto& i : p.it ) if( i.key == "fault" && i.a[3] == "0" ) i.a[3] = i.a[2];
   if( r.p(0.3) ) gen_eval_faults(p, r, 2, { "false", "nan", "inf", "allnan" }, { "f", "gf", "g", "jg", "h" }, 60);
   if( r.p(0.2) ) gen_mumps_faults(p, r, 2);
   p.add("bbcap 2e9");
   return p;
}
void judge_limits(const std::string& prop, const Scn& s, const SolveRes& r)
{
   const Ctx& c = s.c;
   Num mi = c.optd("max_iter", 3000), mc = c.optd("max_cpu_time", 1e20), mw = c.optd("max_wall_time", 1e20);
   bool wb = any_fault(c, "wallback");
   int over_it = 0, over_c = 0, over_w = 0;
   for( size_t k = 0; k < c.iters.size(); ++k )
   {
      const IterRec& q = c.iters[k];
      if( q.iter > mi && !over_it++ ) W->violate(prop, "iter-limit", fmt("iteration %d%s reported, max_iter is %g", q.iter, q.mode ? "r" : "", mi));
      // a restoration phase that has just ended still hands its point to one regular iteration report, after which the limits are looked at again
      if( k + 1 < c.iters.size() && (q.mode == 0 || c.iters[k + 1].mode == 1) )
      {
         if( q.iter >= mi && q.mode == 0 && !over_it++ ) W->violate(prop, "iter-limit", fmt("the algorithm continued after iteration %d, max_iter is %g", q.iter, mi));
         Num ec = q.t_cpu - c.iters[0].t_cpu, ew = q.t_wall - c.iters[0].t_wall;
         if( ec > mc * 1.000001 && !over_c++ ) W->violate(prop, "cpu-limit", fmt("the algorithm continued after iteration %d%s, when %.6g s of CPU time had been used since iteration 0, max_cpu_time is %.6g", q.iter, q.mode ? "r" : "", ec, mc));
         if( !wb && ew > mw * 1.000001 && !over_w++ ) W->violate(prop, "wall-limit", fmt("the algorithm continued after iteration %d%s, when %.6g s had passed since iteration 0, max_wall_time is %.6g", q.iter, q.mode ? "r" : "", ew, mw));
         if( c.iters[k + 1].nf - q.nf > 3000 || c.iters[k + 1].ng - q.ng > 3000 ) W->violate(prop, "eval-bound", fmt("%ld objective and %ld constraint evaluations in iteration %d", c.iters[k + 1].nf - q.nf, c.iters[k + 1].ng - q.ng, q.iter));
      }
   }
   // successive iterations of the restoration phase (the first report shows the point it starts from)
   int run = 0, mr = (int)c.optd("max_resto_iter", 3000000);
   for( auto& q : c.iters )
   {
      run = q.mode == 1 ? run + 1 : 0;
      if( run > mr + 2 ) { W->violate(prop, "resto-iter-limit", fmt("%d successive iterations of the restoration phase up to iteration %d, max_resto_iter is %d", run - 1, q.iter, mr)); break; }
   }
   long mumps = W->cnt["mumps.job2"];
   if( mumps > 60 * (long)(c.iters.size() + 20) ) W->violate(prop, "factor-bound", fmt("%ld factorisations in %zu iterations", mumps, c.iters.size()));
   if( r.status == -1 || r.status == -4 || r.status == -5 ) judge_status(prop, s, r);
   // a limit of zero iterations permits none
   if( r.status == -1 && c.iters.empty() ) W->violate(prop, "no-iterate", "Maximum_Iterations_Exceeded although intermediate_callback was never called");
}
static void run(const Plan& p)
{
   Scn s(p);
   SolveRes r = s.solve();
   W->count("iters", (long)s.c.iters.size());
   judge_limits("C02", s, r);
}
static RegProp reg("C02", "limits", gen, run);
}
