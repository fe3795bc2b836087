// C05: failed evaluations stay contained.
#include "common.hpp"
namespace sim
{
static Plan gen(uint64_t seed, bool)
{
   Rng r(seed * 1000003 + 501);
   Plan p;
   gen_problem_biased(p, r);
   p.add("opt max_iter 200");
   gen_options(p, r, { "max_iter" }, r.p(0.25) ? 0. : 0.5);
   p.add("flag inspect");
   p.add("flag inspectviol 0");
   if( r.p(0.2) ) p.add("opt check_derivatives_for_naninf yes");
   static const std::vector<std::string> k = { "false", "nan", "inf", "ninf", "allnan" };
   gen_eval_faults(p, r, 5, k, { "f", "gf", "g", "jg", "h" }, 120);
   if( r.p(0.3) ) gen_eval_faults(p, r, 2, k, { "f", "g" }, 8);
   if( r.p(0.12) ) p.add(fmt("fault %s %s %d 1000000000 %d", r.pick(std::vector<std::string>{ "f", "gf", "g", "jg", "h" }).c_str(), r.pick(k).c_str(), r.p(0.5) ? 1 : r.in(1, 40), r.in(0, 9)));
   if( r.p(0.3) ) p.add("flag dom false");
   return p;
}
static void run(const Plan& p)
{
   Scn s(p);
   SolveRes r = s.solve();
   const Ctx& c = s.c; const Problem& P = s.P;
   W->count("iters", (long)c.iters.size());
   auto bad = [&](const char* cls, const std::string& m) { W->violate("C05", cls, m); };
   // no iterate is ever accepted at which the objective or the constraints could not be evaluated
   for( size_t k = 0; k < c.iters.size(); ++k )
   {
      const IterRec& q = c.iters[k];
      if( !q.have ) continue;
      bool fin = true;
      for( Num v : q.x ) fin = fin && std::isfinite(v);
      if( !fin && !any_fault(c, "start:") ) { bad("iterate-nonfinite", fmt("iterate of iteration %d%s is not finite", q.iter, q.mode ? "r" : "")); break; }
      uint64_t xh = xhash(q.x.data(), P.n);
      auto get = [&](const std::unordered_map<uint64_t, int>& m) { auto i = m.find(xh); return i == m.end() ? 0 : i->second; };
      bool fneed = q.mode == 0 || !c.opt_is("evaluate_orig_obj_at_resto_trial", "no");
      if( fneed && get(c.okf) == 2 ) { bad("accepted-f", fmt("iteration %d%s is at a point where every evaluation of the objective failed", q.iter, q.mode ? "r" : "")); break; }
      if( P.m && get(c.okg) == 2 && !c.opt.count("dependency_detector") ) { bad("accepted-g", fmt("iteration %d%s is at a point where every evaluation of the constraints failed", q.iter, q.mode ? "r" : "")); break; }
      if( q.mode == 0 && P.n > 0 && !get(c.okf) && k > 0 && c.iters[k - 1].mode == 0 && q.achar != 'w' && !P.use_xs ) { bad("accepted-noeval-f", fmt("iteration %d is at a point where the objective was never evaluated", q.iter)); break; }
      // derivatives: a step is computed only with derivatives that were obtained
      if( q.mode == 0 && k + 1 < c.iters.size() && c.iters[k + 1].mode == 0 && (c.iters[k + 1].achar == 'f' || c.iters[k + 1].achar == 'h') && q.achar != 'w' )
      {
         if( get(c.okgf) == 2 && makes_param(c) ) { bad("step-gf", fmt("a step was computed in iteration %d although every evaluation of the objective gradient at the iterate failed", q.iter)); break; }
         bool jf = c.opt_is("check_derivatives_for_naninf", "yes") || any_fault(c, "jg:false");
         if( P.m && jf && !any_fault(c, "jg:nan") && !any_fault(c, "jg:inf") && !any_fault(c, "jg:ninf") && !any_fault(c, "jg:allnan") && get(c.okjg) == 2 ) { bad("step-jg", fmt("a step was computed in iteration %d although every evaluation of the constraint Jacobian at the iterate failed", q.iter)); break; }
      }
      Num v[] = { q.obj, q.inf_pr };
      if( q.mode == 0 && !(std::isfinite(v[0]) && std::isfinite(v[1])) ) { bad("report-nonfinite", fmt("iteration %d reports objective %g, infeasibility %g", q.iter, q.obj, q.inf_pr)); break; }
   }
   if( r.status == -1000 ) bad("escaped", "an exception escaped: " + r.escaped);
   if( r.status <= -100 && r.status != -199 && !c.opt.count("line_search_method") ) bad("exception-status", fmt("failed evaluations led to %s", st_name(r.status)));
   judge_status("C05", s, r);
   // a function that can never be evaluated makes the solve fail as documented
   for( auto& f : c.faults ) if( f.from == 1 && f.to >= 1000000000 && f.fired && (f.site == S_F || (f.site == S_GF && !P.nfree_zero() && (f.kind == "false" || f.kind == "allnan")) || (f.site == S_G && P.m)) )
   {
      if( r.status == 0 || r.status == 1 || r.status == 6 || (f.site != S_GF && c.iters.size() > 0) ) bad("persistent", fmt("%s although no evaluation of %s ever succeeded (%zu iterations)", st_name(r.status), site_name[f.site], c.iters.size()));
   }
}
static RegProp reg("C05", "evaluation failure containment", gen, run);
}
