// C15: the statistics count what happened, in this solve and no other.
#include "common.hpp"
#include "IpIpoptData.hpp"
#include "IpTimingStatistics.hpp"
namespace sim
{
static Plan gen(uint64_t seed, bool)
{
   Rng r(seed * 1000003 + 1501);
   Plan p;
   if( r.p(0.4) ) gen_problem_biased(p, r); else { GenCfg g; gen_problem(p, r, g); }
   p.add(r.p(0.3) ? fmt("opt max_iter %d", r.in(0, 30)) : std::string("opt max_iter 200"));
   std::set<std::string> av = { "max_iter", "timing_statistics" };
   if( r.p(0.2) ) { p.it[0].a.push_back("uscal=1"); p.add("opt nlp_scaling_method user-scaling"); av.insert("nlp_scaling_method"); }
   gen_options(p, r, av, r.p(0.3) ? 0. : 0.5);
   if( r.p(0.4) ) p.add("opt timing_statistics yes");
   if( r.p(0.3) ) gen_eval_faults(p, r, 3, { "false", "nan", "inf" }, { "f", "gf", "g", "jg", "h" }, 80);
   if( r.p(0.15) ) gen_mumps_faults(p, r, 2);
   if( r.p(0.15) ) p.add(fmt("fault icb stop %d", r.in(1, 25)));
   if( r.p(0.1) ) p.add(fmt("fault %s %s %d", r.pick(std::vector<std::string>{ "f", "g", "gf", "jg", "h", "icb", "info", "bounds", "start" }).c_str(), r.pick(std::vector<std::string>{ "throw", "ipexc", "false", "badalloc" }).c_str(), r.in(1, 12)));
   for( const char* s : { "f", "g", "gf", "jg", "h", "icb", "mumps" } ) if( r.p(0.5) ) p.add(fmt("cost %s %g", s, r.logu(1e-3, 1)));
   int nc = r.in(0, 3);
   for( int i = 0; i < nc; ++i )
      p.add(fmt("fault %s %s %d %d %g", r.pick(std::vector<std::string>{ "f", "g", "gf", "jg", "h", "icb", "mumps" }).c_str(), r.pick(std::vector<std::string>{ "wallonly", "cpuonly", "advance" }).c_str(), r.in(1, 30), 0, r.logu(0.1, 100)));
   if( r.p(0.15) ) p.add(fmt("opt max_cpu_time %g", r.logu(0.1, 50)));
   if( r.p(0.15) ) p.add(fmt("opt max_wall_time %g", r.logu(0.1, 50)));
   int k = r.in(0, 3);
   if( k && r.p(0.3) ) p.add(fmt("fault %s %s %d", r.pick(std::vector<std::string>{ "info", "bounds", "start", "js", "hs", "scal" }).c_str(), r.pick(std::vector<std::string>{ "throw", "ipexc", "false", "badalloc" }).c_str(), r.in(1, k + 1)));
   for( int i = 0; i < k; ++i ) p.add(r.p(0.5) ? "again reopt" : r.p(0.1) ? "again fresh linear_solver custom" : "again fresh");
   return p;
}
static Num xmax(const Vec& x) { Num m = 0; for( Num v : x ) m = std::max(m, std::abs(v)); return m; }
static void run(const Plan& pl)
{
   // time jumps are given for one occurrence
   Plan p = pl;
   for( auto& i : p.it ) if( i.key == "fault" && i.a.size() > 3 && i.a[3] == "0" ) i.a[3] = i.a[2];
   Scn s(p);
   Ctx& c = s.c; const Problem& P = s.P;
   s.open();
   struct Ev { int site; Num w0, w1, c0, c1; };
   std::vector<Ev> ev;
   Num lastw = 0, lastc = 0;
   (void) lastw; (void) lastc;
   Num w_start = 0, c_start = 0, w_last = 0, c_last = 0, w_icb1 = 0, c_icb1 = 0, w_icbn = 0, c_icbn = 0, s_icb1 = 0, s_icbn = 0, s_start = 0;
   bool seen_icb = false;
   Num fw[S_NSITE];
   c.at_cb = [&](Ctx&, int site) { if( site == S_FIN ) return; w_last = W->wall; c_last = W->cpu; };
   c.at_icb = [&](Ctx&, const Ipopt::IpoptData*, Ipopt::IpoptCalculatedQuantities*, const Ipopt::TNLP*)
   {
      if( !seen_icb ) { w_icb1 = W->wall; c_icb1 = W->cpu; s_icb1 = W->sys; seen_icb = true; }
      w_icbn = W->wall; c_icbn = W->cpu; s_icbn = W->sys; w_last = W->wall; c_last = W->cpu;
   };
   (void) fw;
   std::vector<const Item*> ag = p.all("again");
   for( size_t k = 0; k <= ag.size(); ++k )
   {
      bool re = k > 0 && ag[k - 1]->s(0) == "reopt";
      auto bad = [&](const std::string& cls, const std::string& m) { W->violate("C15", cls, fmt("solve %zu%s, %s", k + 1, re ? " (re-optimisation)" : "", m.c_str())); };
      if( k > 0 ) s.s->set_option("linear_solver", ag[k - 1]->a.size() > 2 ? ag[k - 1]->s(2) : "mumps");
      seen_icb = false;
      long fired0 = c.fired_total;
      std::map<std::string, long> fired00 = c.fired;
      w_start = W->wall; c_start = W->cpu; s_start = W->sys;
      long reads0 = W->clock_reads;
      SolveRes r = s.s->solve(re);
      W->count("iters", (long)c.iters.size());
      if( r.status == -1000 ) return;
      auto now = [&](const std::string& pat) { for( auto& f : c.fired ) if( f.first.find(pat) != std::string::npos && f.second > fired00[f.first] ) return true; return false; };
      bool evf = c.fired_total > fired0;
      std::string st = st_name(r.status);
      bool good = r.status > -10;          // statuses that come with a final iterate
      if( good && !r.stats ) { bad("missing", st + ": no statistics available"); continue; }
      if( !r.stats ) continue;
      if( c.iters.empty() ) { bad("stale", fmt("%s without any iteration, but the statistics report %d iterations and %d evaluations of the objective", st.c_str(), r.iters, r.nf)); continue; }
      if( r.status < -10 && r.status != -13 && r.status > -200 && c.fins.empty() ) { W->count("stats.after.failure"); }
      const IterRec& L = c.iters.back();
      bool dt = c.opts("derivative_test", "none") != "none";
      // iterations
      if( r.iters != L.iter && !(r.iters == L.iter + 1) ) bad("iterations", fmt("%s: %d iterations reported, the last iteration was %d", st.c_str(), r.iters, L.iter));
      // evaluations
      bool fdj = c.opt.count("jacobian_approximation"), fdg = c.opt.count("gradient_approximation");
      auto cnt = [&](const char* nm, long rep, long seen, long lo, long hi) { if( seen < rep + lo || seen > rep + hi ) bad(std::string("count-") + nm, fmt("%s: %ld evaluations of %s reported, %ld took place", st.c_str(), rep, nm, seen)); };
      if( !dt && !evf )
      {
         if( !fdg ) cnt("f", r.nf, c.calls[S_F], 0, 0);
         if( !fdj ) cnt("g", r.nc, c.calls[S_G], 0, c.opt_is("dependency_detection_with_rhs", "yes") || r.status == -1 || r.status == -4 || r.status == -5);   // a watchdog phase is taken back
         if( !fdg ) cnt("grad_f", r.ngf, c.calls[S_GF], 0, 2);
         if( !fdj ) cnt("jac_g", r.njc, c.calls[S_JG], 0, 2);
         // a Hessian with all weights zero is not requested (happens in the restoration phase only)
         long nres = 0;
         for( auto& q : c.iters ) nres += q.mode == 1;
         cnt("hess", r.nh, c.calls[S_H], -nres, 0);
      }
      // the final point
      const FinRec* f = s.fin();
      if( f && !default_branch(f->status) )
      {
         if( !c.opt_is("honor_original_bounds", "yes") )
         {
            if( !feq(r.st_obj, f->obj, 1e-14, 0) ) bad("objective", fmt("%s: final objective %.17g in the statistics, %.17g in the solution", st.c_str(), r.st_obj, f->obj));
            Scaling sc = compute_scaling(c);
            if( sc.exact && !evf )
            {
               if( !feq(r.st_scobj, f->obj * sc.df, 1e-12, 1e-300) ) bad("scaled-objective", fmt("%s: scaled final objective %.17g, expected %.17g", st.c_str(), r.st_scobj, f->obj * sc.df));
            }
         }
      }
      // infeasibilities of the final point, in the user's units
      bool par = makes_param(c) && !c.opt.count("dependency_detector") && f;
      int nfree = 0, meq = 0;
      for( int i = 0; i < P.n; ++i ) nfree += !P.fixed(i);
      for( int j = 0; j < P.m; ++j ) meq += P.gl[j] == P.gu[j];
      if( f && !default_branch(f->status) && par && (nfree >= meq || nfree == 0) && !now("gf:") && !now("jg:") && !now("f:") && !now("g:") && !c.opt_is("honor_original_bounds", "yes") )
      {
         Vec gr(P.n, 0.), mag(P.n, 0.);
         P.f.grad(f->x.data(), gr.data(), 1.);
         for( int i = 0; i < P.n; ++i ) mag[i] = std::abs(gr[i]);
         Num cv = 0, cm = 0, lm = 0; bool ineq = false, fin = true;
         for( int j = 0; j < P.m; ++j )
         {
            Vec t(P.n, 0.);
            P.g[j].grad(f->x.data(), t.data(), f->lam[j]);
            for( int i = 0; i < P.n; ++i ) { gr[i] += t[i]; mag[i] += std::abs(t[i]); }
            Num v = P.g[j].value(f->x.data()), w = 0;
            if( !std::isfinite(v) ) fin = false;
            if( P.gl[j] > -1e19 ) { w = std::max(w, P.gl[j] - v); cm = std::max(cm, std::abs(P.gl[j])); }
            if( P.gu[j] < 1e19 ) { w = std::max(w, v - P.gu[j]); cm = std::max(cm, std::abs(P.gu[j])); }
            cv = std::max(cv, w); cm = std::max(cm, std::abs(v)); lm = std::max(lm, std::abs(f->lam[j]));
            ineq = ineq || P.gl[j] != P.gu[j];
         }
         Num lo = 0, mg = 0, bv = 0;
         for( int i = 0; i < P.n; ++i )
         {
            if( P.xl[i] > -1e19 ) bv = std::max(bv, P.xl[i] - f->x[i]);
            if( P.xu[i] < 1e19 ) bv = std::max(bv, f->x[i] - P.xu[i]);
            if( P.fixed(i) ) continue;
            gr[i] += f->zu[i] - f->zl[i]; mag[i] += std::abs(f->zu[i]) + std::abs(f->zl[i]);
            if( !std::isfinite(gr[i]) ) fin = false;
            lo = std::max(lo, std::abs(gr[i])); mg = std::max(mg, mag[i]);
         }
         Scaling sc = compute_scaling(c);
         if( fin && sc.exact && sc.df != 0 && !evf )
         {  // the same figures for the problem the algorithm works on
            Num slo = 0, smg = 0, sbv = 0, scv = 0, scm = 0, adf = std::abs(sc.df);
            for( int i = 0; i < P.n; ++i )
            {
               if( P.xl[i] > -1e19 ) sbv = std::max(sbv, (P.xl[i] - f->x[i]) * sc.dx[i]);
               if( P.xu[i] < 1e19 ) sbv = std::max(sbv, (f->x[i] - P.xu[i]) * sc.dx[i]);
               if( !P.fixed(i) ) { slo = std::max(slo, std::abs(gr[i]) * adf / sc.dx[i]); smg = std::max(smg, mag[i] * adf / sc.dx[i]); }
            }
            for( int j = 0; j < P.m; ++j )
            {
               Num v = P.g[j].value(f->x.data()), w = 0;
               if( P.gl[j] > -1e19 ) { w = std::max(w, P.gl[j] - v); scm = std::max(scm, std::abs(P.gl[j]) * sc.dg[j]); }
               if( P.gu[j] < 1e19 ) { w = std::max(w, v - P.gu[j]); scm = std::max(scm, std::abs(P.gu[j]) * sc.dg[j]); }
               scv = std::max(scv, w * sc.dg[j]); scm = std::max(scm, std::abs(v) * sc.dg[j]);
            }
            Num brf = c.optd("bound_relax_factor", 1e-8), cvt = c.optd("constr_viol_tol", 1e-4), dgm = 1;
            for( Num d : sc.dg ) dgm = std::max(dgm, d);
            Num rel = dgm * (std::min(cvt, brf * std::max(1., cm)) + c.optd("slack_move", 1.8189894035458565e-12) * 1e4 * std::max(1., cm));
            if( r.st_sdu < slo - 1e-9 * smg - 1e-300 || (!ineq && r.st_sdu > slo + 1e-9 * smg + 1e-300) ) bad("scaled-dual-inf", fmt("%s: scaled dual infeasibility %.10g, scaled gradient of the Lagrangian at the returned point has norm %.10g", st.c_str(), r.st_sdu, slo));
            if( !feq(r.st_sviol, scv, 1e-9, (ineq ? rel : 0) + 1e-12 * scm) ) bad("scaled-constr-viol", fmt("%s: scaled constraint violation %.10g, %.10g at the returned point", st.c_str(), r.st_sviol, scv));
            if( nfree > 0 && !feq(r.st_sbnd, sbv, 1e-6, 1e-12 * std::max(1., xmax(f->x))) ) bad("scaled-bound-viol", fmt("%s: scaled variable bound violation %.10g, %.10g at the returned point", st.c_str(), r.st_sbnd, sbv));
            if( !feq(r.st_scompl, r.st_compl * adf, 1e-9, 1e-300) ) bad("scaled-compl", fmt("%s: scaled complementarity %.10g, but %.10g unscaled and the objective is scaled by %g", st.c_str(), r.st_scompl, r.st_compl, sc.df));
            Num top = std::max(r.st_sdu, std::max(r.st_sviol, r.st_scompl));
            if( r.st_skkt > top * (1 + 1e-12) + 1e-300 || r.st_skkt < r.st_sviol * (1 - 1e-12) ) bad("scaled-kkt", fmt("%s: scaled overall error %.10g, but scaled dual infeasibility %.10g, constraint violation %.10g, complementarity %.10g", st.c_str(), r.st_skkt, r.st_sdu, r.st_sviol, r.st_scompl));
            if( !r.st_old ) bad("overloads", st + ": the two forms of Infeasibilities()/ScaledInfeasibilities() disagree");
            W->count("judged.scaled.infeasibilities");
         }
         if( fin )
         {
            Num brf = c.optd("bound_relax_factor", 1e-8), cvt = c.optd("constr_viol_tol", 1e-4);
            Num rel = std::min(cvt, brf * std::max(1., cm)) + c.optd("slack_move", 1.8189894035458565e-12) * 1e4 * std::max(1., cm);
            if( r.st_du < lo - 1e-9 * mg - 1e-300 || (!ineq && r.st_du > lo + 1e-9 * mg + 1e-300) ) bad("dual-inf", fmt("%s: dual infeasibility %.10g, gradient of the Lagrangian at the returned point has norm %.10g", st.c_str(), r.st_du, lo));
            if( !feq(r.st_viol, cv, 1e-9, (ineq ? rel : 0) + 1e-12 * cm) ) bad("constr-viol", fmt("%s: constraint violation %.10g, %.10g at the returned point", st.c_str(), r.st_viol, cv));
            if( nfree > 0 && !feq(r.st_bnd, bv, 1e-6, 1e-14 * std::max(1., xmax(f->x))) ) bad("bound-viol", fmt("%s: variable bound violation %.10g, %.10g at the returned point", st.c_str(), r.st_bnd, bv));
            if( !feq(r.st_kkt, std::max(r.st_du, std::max(r.st_viol, r.st_compl)), 1e-12, 1e-300) ) bad("kkt", fmt("%s: overall error %.10g, but dual infeasibility %.10g, constraint violation %.10g, complementarity %.10g", st.c_str(), r.st_kkt, r.st_du, r.st_viol, r.st_compl));
            W->count("judged.infeasibilities");
         }
      }
      // times: between the first and the last callback at least, no more than the whole call
      Num tk = 2e-6 * (W->clock_reads - reads0 + 10);
      if( !now("wallback") )
      {
         if( r.st_wall < w_icbn - w_icb1 - tk || r.st_wall > r.t_wall1 - w_start + tk ) bad("wall", fmt("%s: wall-clock time %.9g reported; %.9g passed between the first and last iteration, %.9g in total", st.c_str(), r.st_wall, w_icbn - w_icb1, r.t_wall1 - w_start));
         if( r.st_cpu < c_icbn - c_icb1 - tk || r.st_cpu > r.t_cpu1 - c_start + tk ) bad("cpu", fmt("%s: CPU time %.9g reported; %.9g passed between the first and last iteration, %.9g in total", st.c_str(), r.st_cpu, c_icbn - c_icb1, r.t_cpu1 - c_start));
         if( r.st_sys < s_icbn - s_icb1 - tk || r.st_sys > W->sys - s_start + tk ) bad("sys", fmt("%s: system time %.9g reported; %.9g passed between the first and last iteration, %.9g in total", st.c_str(), r.st_sys, s_icbn - s_icb1, W->sys - s_start));
      }
      (void) P; (void) now; (void) w_last; (void) c_last;
   }
}
static RegProp reg("C15", "statistics", gen, run);
}
