// C06: the evaluation protocol (monitors in simnlp.cpp), plus counts that constant-derivative options promise.
#include "common.hpp"
namespace sim
{
static Plan gen(uint64_t seed, bool)
{
   Rng r(seed * 1000003 + 601);
   Plan p;
   if( r.p(0.25) )
   {
      GenCfg g; g.families = { "lp", "boundqp", "squarelin", "convex", "noconstr" };
      gen_problem(p, r, g);
   }
   else if( r.p(0.4) ) gen_problem_biased(p, r);
   else { GenCfg g; gen_problem(p, r, g); }
   p.add(r.p(0.15) ? fmt("opt max_iter %d", r.in(0, 40)) : std::string("opt max_iter 200"));
   std::set<std::string> av = { "max_iter" };
   Problem P = problem_from(p.it[0]);
   bool lc = true, ld = true, q = P.f.quadratic();
   for( int j = 0; j < P.m; ++j ) { bool l = P.g[j].linear(); if( P.gl[j] == P.gu[j] ) lc = lc && l; else ld = ld && l; q = q && P.g[j].linear(); }
   if( q && r.p(0.5) ) p.add("opt hessian_constant yes");
   if( lc && r.p(0.4) ) p.add("opt jac_c_constant yes");
   if( ld && r.p(0.4) ) p.add("opt jac_d_constant yes");
   if( P.f.linear() && r.p(0.4) ) p.add("opt grad_f_constant yes");
   if( r.p(0.08) ) p.add("opt jacobian_approximation finite-difference-values");
   if( r.p(0.08) ) p.add("opt gradient_approximation finite-difference-values");
   gen_options(p, r, av, r.p(0.2) ? 0. : 0.55);
   if( r.p(0.08) ) { p.it[0].a.push_back("uscal=1"); p.add("opt nlp_scaling_method user-scaling"); }
   if( r.p(0.5) ) { p.add("flag inspect"); if( r.p(0.5) ) p.add("flag inspectviol 0"); }
   if( r.p(0.2) ) p.add("flag nlv");
   if( r.p(0.1) ) p.add("flag meta");
   if( r.p(0.2) ) { p.it[0].a.push_back("warm=1"); if( r.p(0.6) ) p.add("opt warm_start_init_point yes"); if( r.p(0.2) ) p.add("opt warm_start_same_structure no"); }
   if( r.p(0.35) ) gen_eval_faults(p, r, 3, { "false", "nan", "inf", "allnan" }, { "f", "gf", "g", "jg", "h" }, 60);
   if( r.p(0.15) ) gen_mumps_faults(p, r, 2);
   if( r.p(0.1) ) p.add(fmt("fault icb stop %d", r.in(1, 25)));
   if( r.p(0.2) ) p.add("reopt");
   if( r.p(0.1) ) p.add(fmt("opt derivative_test %s", r.pick(std::vector<std::string>{ "first-order", "second-order", "only-second-order" }).c_str()));
   return p;
}
static void judge_protocol(const Scn& s, const SolveRes& r)
{
   const Ctx& c = s.c; const Problem& P = s.P;
   auto bad = [&](const char* cls, const std::string& m) { W->violate("C06", cls, m); };
   bool faulty = any_fault(c, "f:") || any_fault(c, "g:") || any_fault(c, "h:");
   bool dt = c.opts("derivative_test", "none") != "none";
   if( !faulty && !dt && c.iters.size() )
   {
      long nh = 1;                       // one more for the restoration phase (without the objective)
      for( auto& q : c.iters ) if( q.mode != 0 ) nh = 2;
      if( c.opt_is("hessian_constant", "yes") && !c.opt_is("hessian_approximation", "limited-memory") && c.calls[S_H] > nh ) bad("const-h", fmt("eval_h was called %ld times although hessian_constant=yes", c.calls[S_H]));
      bool fdj = c.opt.count("jacobian_approximation"), fdg = c.opt.count("gradient_approximation");
      // one evaluation for the algorithm, one for the scaling, one for multipliers of fixed variables
      if( c.opt_is("jac_c_constant", "yes") && c.opt_is("jac_d_constant", "yes") && !fdj && c.calls[S_JG] - c.icalls[S_JG] > 5 ) bad("const-j", fmt("eval_jac_g was called %ld times although jac_c_constant=jac_d_constant=yes", c.calls[S_JG]));
      if( c.opt_is("grad_f_constant", "yes") && !fdg && c.calls[S_GF] - c.icalls[S_GF] > 4 ) bad("const-gf", fmt("eval_grad_f was called %ld times although grad_f_constant=yes", c.calls[S_GF]));
   }
   // the Hessian of the Lagrangian is asked for at the iterate, with its multipliers
   for( auto& q : c.hcalls )
   {
      if( dt || q.k == 0 || faulty ) continue;
      const IterRec& t = c.iters[q.k - 1];
      if( !t.have || t.mode != 0 ) continue;
      if( q.k < c.iters.size() && c.iters[q.k].mode != 0 ) continue;
      bool resto_follows = false;     // the restoration phase evaluates Hessians at its own points
      for( size_t i = q.k; i < c.iters.size() && i < q.k + 1; ++i ) resto_follows = c.iters[i].mode != 0;
      if( resto_follows || q.k >= c.iters.size() ) continue;
      if( t.achar == 'w' || c.iters[q.k].achar == 'w' || c.iters[q.k].achar == 'W' || P.use_xs ) continue;
      if( c.opt_is("hessian_constant", "yes") || c.opt_is("dependency_detector", "mumps") ) continue;
      if( xhash(t.x.data(), P.n) != q.xh && !vec_same(t.x, q.x) ) { bad("h-point", fmt("eval_h (call %ld) is not at the iterate of iteration %d", q.call, t.iter)); continue; }
      if( q.sf == 0. ) continue;
      for( int j = 0; j < P.m; ++j ) if( !feq(q.lam[j] / q.sf, t.lam[j], 1e-9, 1e-14) )
      {
         bad("h-mult", fmt("eval_h (call %ld, iteration %d): lambda[%d]/sigma_f = %.17g, but the multiplier is %.17g", q.call, t.iter, j, q.lam[j] / q.sf, t.lam[j])); break;
      }
   }
   (void) r;
}
static void run(const Plan& p)
{
   Scn s(p);
   SolveRes r = s.solve();
   W->count("iters", (long)s.c.iters.size());
   judge_protocol(s, r);
   if( p.find("reopt") && r.status > -100 )
   {
      SolveRes q = s.solve(true);
      judge_protocol(s, q);
   }
}
static RegProp reg("C06", "evaluation protocol", gen, run);
}
