// C19: iteration reports are true of the iterate.
#include "common.hpp"
namespace sim
{
static Plan gen(uint64_t seed, bool)
{
   Rng r(seed * 1000003 + 1901);
   Plan p;
   gen_std(p, r, r.p(0.2) ? 0. : 0.55);
   p.add("flag inspect");
   p.add("flag inspectviol 0");
   if( r.p(0.08) ) { p.it[0].a.push_back("uscal=1"); p.add("opt nlp_scaling_method user-scaling"); }
   if( r.p(0.35) ) gen_eval_faults(p, r, 3, { "false", "nan", "inf", "allnan" }, { "f", "f", "g", "g", "h", "gf", "jg" }, 60);
   if( r.p(0.2) ) gen_mumps_faults(p, r, 3);
   if( r.p(0.05) ) gen_limits(p, r);
   return p;
}
static void run(const Plan& p)
{
   Scn s(p);
   SolveRes r = s.solve();
   W->count("iters", (long)s.c.iters.size());
   judge_iters("C19", s, r);
}
static RegProp reg("C19", "true iteration reports", gen, run);
}
