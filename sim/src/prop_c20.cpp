// C20: well-posed convex problems are solved under every option set, and solves recover once faults stop.
#include "common.hpp"
namespace sim
{
static Plan gen(uint64_t seed, bool)
{
   Rng r(seed * 1000003 + 2001);
   Plan p;
   GenCfg g; g.families = { "convex", "convex", "convex", "boundqp", "lp", "freeeq", "scaled" };
   gen_problem(p, r, g);
   int mode = r.p(0.5) ? 0 : r.p(0.4) ? 1 : 2;      // 0 no faults, 1 isolated failure of a trial evaluation, 2 anything transient
   p.add(fmt("mode %d", mode));
   std::set<std::string> av = { "max_iter", "max_hessian_perturbation", "max_resto_iter", "accept_every_trial_step", "start_with_resto", "kappa_sigma", "line_search_method", "expect_infeasible_problem" };
   gen_options(p, r, av, mode == 0 ? 0.7 : r.p(0.5) ? 0. : 0.5);
   p.add("opt max_iter 1000");
   if( mode == 1 ) p.add(fmt("fault %s %s %d %d %d", r.p(0.5) ? "f" : "g", r.pick(std::vector<std::string>{ "false", "nan", "inf" }).c_str(), 0, 0, r.in(0, 5)));
   if( mode == 1 ) { Item& i = p.it.back(); int k = (int)std::floor(r.logu(3, 60)); i.a[2] = i.a[3] = fmt("%d", k); }
   if( mode == 2 )
   {
      gen_eval_faults(p, r, 2, { "false", "nan", "inf" }, { "f", "g" }, 60);
      gen_eval_faults(p, r, 2, { "false" }, { "gf", "jg", "h" }, 60);
      if( r.p(0.5) ) gen_mumps_faults(p, r, 3);
   }
   return p;
}
static void run(const Plan& p)
{
   int mode = (int)p.geti("mode", 0);
   // equality constraints that fix variables may leave too few degrees of freedom; no memory means steepest descent
   bool hard = false;
   for( auto i : p.all("opt") ) hard = hard || (i->s(0) == "limited_memory_max_history" && i->s(1) == "0") || (i->s(0) == "fixed_variable_treatment" && i->s(1) == "make_constraint") || (i->s(0) == "hessian_approximation" && i->s(1) == "limited-memory");
   // reference: default options
   Plan d = p;
   d.it.erase(std::remove_if(d.it.begin(), d.it.end(), [](const Item& i) { return i.key == "fault" || i.key == "opt"; }), d.it.end());
   Num ref = 0, vref = 0;
   Vec xref, lamref, zref;
   {
      Scn s(d, "R");
      SolveRes r = s.solve();
      if( r.status != 0 || !s.fin() ) { if( r.status != 1 &&  s.P.convex && s.P.bounded && s.P.slater && mode == 0 ) W->violate("C20", "default", fmt("a convex problem with interior point is not solved with default options: %s", st_name(r.status))); return; }
      ref = s.fin()->obj; xref = s.fin()->x; lamref = s.fin()->lam; zref = s.fin()->zl;
      for( int j = 0; j < s.P.m; ++j )
      {
         Num gj = s.P.g[j].value(xref.data());
         if( s.P.gu[j] < 1e19 ) vref = std::max(vref, gj - s.P.gu[j]);
         if( s.P.gl[j] > -1e19 ) vref = std::max(vref, s.P.gl[j] - gj);
      }
      for( int i = 0; i < s.P.n; ++i )
      {
         if( s.P.xl[i] > -1e19 ) vref = std::max(vref, s.P.xl[i] - xref[i]);
         if( s.P.xu[i] < 1e19 ) vref = std::max(vref, xref[i] - s.P.xu[i]);
      }
      for( size_t i = 0; i < zref.size(); ++i ) zref[i] = std::abs(zref[i]) + std::abs(s.fin()->zu[i]);
      if( (int)s.c.iters.size() > 150 ) W->violate("C20", "default-iterations", fmt("%zu iterations with default options", s.c.iters.size()));
   }
   // the same options, no faults
   Plan q = p;
   q.it.erase(std::remove_if(q.it.begin(), q.it.end(), [](const Item& i) { return i.key == "fault"; }), q.it.end());
   auto judge = [&](Scn& s, const SolveRes& r, const char* what)
   {
      if( r.status == 6 ) { W->count("square"); return; }
      bool ok = r.status == 0 || r.status == 1;
      std::string o;
      for( auto i : p.all("opt") ) o += " " + i->s(0) + "=" + i->s(1);
      if( !ok ) { W->violate("C20", what, fmt("%s: %s (%zu iterations)%s", what, st_name(r.status), s.c.iters.size(), o.c_str())); return; }
      W->count("judged.value");
      Num f = s.fin() ? s.fin()->obj : 0;
      // for a convex problem, the distance to the optimal value is bounded by the residuals of the optimality conditions
      Num t = 1e-6 * (1 + std::abs(ref));
      if( s.fin() )
      {
         const FinRec& F = *s.fin(); const Problem& P = s.P;
         Vec q(P.n, 0.); Num v = vref, ls = 0;
         P.f.grad(F.x.data(), q.data(), 1.);
         for( int j = 0; j < P.m; ++j )
         {
            P.g[j].grad(F.x.data(), q.data(), F.lam[j]);
            Num gj = P.g[j].value(F.x.data()), l = F.lam[j];
            if( l > 0 && P.gu[j] < 1e19 ) t += l * std::abs(P.gu[j] - gj);
            if( l < 0 && P.gl[j] > -1e19 ) t -= l * std::abs(gj - P.gl[j]);
            if( P.gu[j] < 1e19 ) v = std::max(v, gj - P.gu[j]);
            if( P.gl[j] > -1e19 ) v = std::max(v, P.gl[j] - gj);
            ls += std::abs(l) + std::abs(lamref[j]);
         }
         for( int i = 0; i < P.n; ++i )
         {
            q[i] += F.zu[i] - F.zl[i];
            t += std::abs(q[i]) * std::abs(F.x[i] - xref[i]);
            if( P.xl[i] > -1e19 ) { t += std::abs(F.zl[i]) * std::abs(F.x[i] - P.xl[i]); v = std::max(v, P.xl[i] - F.x[i]); }
            if( P.xu[i] < 1e19 ) { t += std::abs(F.zu[i]) * std::abs(P.xu[i] - F.x[i]); v = std::max(v, F.x[i] - P.xu[i]); }
            ls += std::abs(F.zl[i]) + std::abs(F.zu[i]) + zref[i];
         }
         t += 2 * v * ls;
      }
      if( !s.fin() || std::abs(f - ref) > 2 * t ) W->violate("C20", std::string(what) + "-value", fmt("%s: objective %.10g, optimal is %.10g (%s)%s", what, f, ref, st_name(r.status), o.c_str()));
   };
   if( mode == 0 )
   {
      Scn s(q, "S");
      SolveRes r = s.solve();
      W->count("iters", (long)s.c.iters.size());
      if( hard && r.status != 0 && r.status != 1 ) { W->count("not.judged"); return; }
      judge(s, r, "solve");
      return;
   }
   SolveRes rq;
   {
      Scn s(q, "Q");
      rq = s.solve();
   }
   bool solvable = rq.status == 0;
   Scn s(p, "S");
   SolveRes r = s.solve();
   long fired = s.c.fired_total;
   if( fired ) W->count("judged.faulty");
   judge_status("C20", s, r);
   if( solvable && (r.status == 0 || r.status == 1) ) judge(s, r, "faulty");
   if( solvable && mode == 1 && fired && r.status != 0 && r.status != 1 ) judge(s, r, "isolated");
   // faults have stopped: a fresh solve succeeds
   if( solvable )
   {
      s.c.faults.clear();
      SolveRes r2 = s.solve(false);
      judge(s, r2, "again");
   }
}
static RegProp reg("C20", "convergence and recovery", gen, run);
}
