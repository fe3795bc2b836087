// C01: the return status is true of the returned point.
#include "common.hpp"
namespace sim
{
static Plan gen(uint64_t seed, bool)
{
   Rng r(seed * 1000003 + 101);
   Plan p;
   gen_std(p, r, r.p(0.2) ? 0. : 0.55);
   if( r.p(0.08) ) { p.it[0].a.push_back("uscal=1"); p.add("opt nlp_scaling_method user-scaling"); }
   if( r.p(0.35) ) gen_eval_faults(p, r, 3, { "false", "nan", "inf", "allnan" }, { "f", "gf", "g", "jg", "h" }, 60);
   if( r.p(0.2) ) gen_mumps_faults(p, r, 3);
   if( r.p(0.1) ) gen_limits(p, r);
   if( r.p(0.1) ) p.add(fmt("fault icb stop %d", r.in(1, 30)));
   return p;
}
static void run(const Plan& p)
{
   Scn s(p);
   SolveRes r = s.solve();
   W->count("iters", (long)s.c.iters.size());
   judge_status("C01", s, r);
   if( W->trace ) fprintf(stderr, "status %s\n", st_name(r.status));
}
static RegProp reg("C01", "status honesty", gen, run);
}
