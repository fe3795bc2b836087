// C14: failures of the linear solver are absorbed or reported.
#include "common.hpp"
namespace sim
{
static void mfault(Plan& p, Rng& r, const std::string& kd, int from, int len)
{
   std::string p1 = "0";
   if( kd == "inertia" ) p1 = r.p(0.5) ? "1" : r.p(0.7) ? "-1" : "3";
   if( kd == "pert" ) p1 = r.pick(std::vector<std::string>{ "1e-8", "1e-6", "1e-3", "1e-1", "10" });
   if( kd == "nan" ) p1 = fmt("%d", r.in(0, 9));
   if( kd == "memneed" ) p1 = fmt("%d", r.in(1001, 90000));
   p.add(fmt("fault mumps %s %d %d %s", kd.c_str(), from, from + len - 1, p1.c_str()));
}
static Plan gen(uint64_t seed, bool)
{
   Rng r(seed * 1000003 + 1401);
   Plan p;
   int mode = r.in(0, 5);   // 0: memory only, 1: single faults on well-posed problems, 2: persistent failure, 3-5: anything
   if( mode == 1 ) { GenCfg g; g.families = { "convex", "boundqp", "lp" }; gen_problem(p, r, g); }
   else if( r.p(0.5) ) gen_problem_biased(p, r);
   else { GenCfg g; gen_problem(p, r, g); }
   p.add(fmt("mode %d", mode));
   p.add("opt max_iter 250");
   std::set<std::string> av = { "max_iter" };
   if( mode != 1 )
   {
      gen_options(p, r, av, r.p(0.3) ? 0. : 0.55);
      for( auto o : p.all("opt") ) av.insert(o->s(0));
      static const std::vector<std::pair<const char*, std::vector<const char*> > > lo = {
         {"mumps_mem_percent", {"0", "5", "100"}}, {"mumps_pivtol", {"0", "1e-8", "0.5"}}, {"mumps_pivtolmax", {"1e-3", "0.5"}}, {"perturb_always_cd", {"yes"}}, {"max_hessian_perturbation", {"1", "1e4"}},
         {"min_hessian_perturbation", {"1e-10"}}, {"first_hessian_perturbation", {"1e-2", "10"}}, {"perturb_inc_fact_first", {"2", "1000"}}, {"perturb_inc_fact", {"2"}}, {"perturb_dec_fact", {"0.5"}},
         {"jacobian_regularization_value", {"1e-4"}}, {"jacobian_regularization_exponent", {"0", "1"}}, {"residual_ratio_max", {"1e-14", "1e-4"}}, {"residual_ratio_singular", {"1e-8"}}, {"residual_improvement_factor", {"0.5"}},
         {"neg_curv_test_tol", {"1e-11", "1e-8"}}, {"neg_curv_test_reg", {"no"}}, {"min_refinement_steps", {"0", "2"}}, {"max_refinement_steps", {"2", "20"}}, {"linear_scaling_on_demand", {"no"}}, {"mumps_dep_tol", {"0", "1e-8"}} };
      while( r.p(0.45) )
      {
         auto& s = lo[r.u64() % lo.size()];
         if( av.insert(s.first).second ) p.add(std::string("opt ") + s.first + " " + s.second[r.u64() % s.second.size()]);
      }
      Num mn = p.getd("none", 1); (void) mn;
   }
   auto pos = [&](Num mx) { return (int)std::floor(r.logu(1, mx)); };
   if( mode == 0 )
   {
      int k = r.in(1, 5), at = 1, budget = 12;   // each shortage doubles the workspace
      for( int i = 0; i < k && budget > 0; ++i )
      {
         at += pos(40);
         bool need = r.p(0.3);
         int len = need ? r.in(1, 40) : std::min(budget, r.p(0.6) ? r.in(1, 3) : r.in(4, 12));
         if( !need ) budget -= len;
         else if( budget >= 7 ) budget -= 7;
         else break;
         mfault(p, r, need ? "memneed" : r.p(0.5) ? "mem9" : "mem8", at, len);
         at += len + 1;
      }
   }
   else if( mode == 1 )
   {
      int k = r.in(1, 3), at = 1;
      for( int i = 0; i < k; ++i ) { mfault(p, r, r.pick(std::vector<std::string>{ "mem9", "sing", "sing", "inertia", "inertia", "pert" }), at += pos(60), 1); at += 3; }
   }
   else if( mode == 2 ) mfault(p, r, r.pick(std::vector<std::string>{ "mem9", "mem8", "sing", "err", "oom", "inertia", "pert", "nan" }), pos(60), 1000000000);
   else
   {
      int k = r.in(1, 6);
      for( int i = 0; i < k; ++i )
         mfault(p, r, r.pick(std::vector<std::string>{ "mem9", "mem8", "memneed", "sing", "err", "oom", "inertia", "pert", "nan" }), pos(150), r.p(0.65) ? 1 : r.p(0.8) ? r.in(2, 8) : r.in(9, 60));
   }
   if( mode >= 3 && r.p(0.15) ) gen_eval_faults(p, r, 2, { "false", "nan" }, { "f", "g", "gf", "h" }, 60);
   if( r.p(0.25) ) p.add("again");
   return p;
}
struct Ref { SolveRes r; uint64_t h; Num obj; bool fin; };
static void run(const Plan& p)
{
   Plan q = p;
   q.it.erase(std::remove_if(q.it.begin(), q.it.end(), [](const Item& i) { return i.key == "fault" && i.s(0) == "mumps"; }), q.it.end());
   int mode = (int)p.geti("mode", 5);
   Ref R;
   bool have_ref = mode <= 2 || p.find("again");
   std::vector<IterRec> refit;
   if( have_ref )
   {
      Scn s(q, "R");
      R.r = s.solve();
      R.h = s.c.hn; R.fin = s.fin() != NULL; R.obj = s.fin() ? s.fin()->obj : 0;
   }
   Scn s(p, "S");
   SolveRes r = s.solve();
   const Ctx& c = s.c; const Problem& P = s.P;
   W->count("iters", (long)c.iters.size());
   auto bad = [&](const char* cls, const std::string& m) { W->violate("C14", cls, m); };
   long fired = 0;
   bool only_mem = true, benign = true;
   for( auto& f : c.faults )
   {
      fired += f.site == S_MUMPS ? f.fired : 0;
      if( f.fired && !(f.site == S_MUMPS && f.kind.compare(0, 3, "mem") == 0) ) only_mem = false;
      if( f.fired && !(f.site == S_MUMPS && (f.kind.compare(0, 3, "mem") == 0 || f.kind == "sing" || f.kind == "inertia" || (f.kind == "pert" && f.p1 <= 1e-3))) ) benign = false;
   }
   if( fired == 0 ) W->count("nofault");
   if( r.status == -1000 ) bad("escaped", "an exception escaped: " + r.escaped);
   judge_status("C14", s, r);
   for( auto& q2 : c.iters )
   {
      if( q2.mode ) continue;
      if( !(std::isfinite(q2.obj) && std::isfinite(q2.inf_pr)) ) { bad("report-nonfinite", fmt("iteration %d reports objective %g, infeasibility %g", q2.iter, q2.obj, q2.inf_pr)); break; }
   }
   // the status belongs to the set that the documentation gives for failures of the linear solver
   if( fired && (r.status == -100 || r.status == -101 || r.status == -11 || r.status == -12) && (!have_ref || R.r.status != r.status) && !c.opt.count("line_search_method") )
      bad("exception-status", fmt("failures of the linear solver led to %s", st_name(r.status)));
   // memory shortage that goes away when more memory is given has no influence on the solve
   if( have_ref && only_mem && mode == 0 )
   {
      W->count("judged.memory");
      if( R.r.status != r.status || R.h != s.c.hn ) bad("memory-retry", fmt("requests for more memory by the linear solver changed the solve: %s instead of %s, %zu iteration reports", st_name(r.status), st_name(R.r.status), c.iters.size()));
   }
   if( mode == 1 && benign && fired && R.r.status == 0 && P.convex )
   {
      W->count("judged.recovery");
      if( !(r.status == 0 || r.status == 1) ) bad("recovery", fmt("%ld isolated failures of the linear solver led to %s on a well-posed convex problem", fired, st_name(r.status)));
      else if( s.fin() && R.fin && !feq(s.fin()->obj, R.obj, 1e-4, 1e-4) ) bad("recovery-value", fmt("after %ld isolated failures of the linear solver the objective is %.10g instead of %.10g", fired, s.fin()->obj, R.obj));
   }
   // the application can be used again
   if( p.find("again") && r.status != -1000 )
   {
      s.c.faults.erase(std::remove_if(s.c.faults.begin(), s.c.faults.end(), [](const Fault& f) { return f.site == S_MUMPS; }), s.c.faults.end());
      s.c.h = 0x12345; s.c.hn = 3; s.c.hit_seq = 2; memset(s.c.occ, 0, sizeof s.c.occ);
      SolveRes a = s.solve();
      W->count("judged.again");
      if( a.status != R.r.status || s.c.hn != R.h ) bad("again", fmt("the next solve with the same application returned %s, a first one returns %s (or their callbacks differ)", st_name(a.status), st_name(R.r.status)));
   }
}
static RegProp reg("C14", "linear solver failures", gen, run);
}
