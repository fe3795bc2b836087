// C12: live inspection of the iterate is correct and passive.
#include "common.hpp"
#include "IpIpoptData.hpp"
#include "IpIpoptCalculatedQuantities.hpp"
#include "IpAlgTypes.hpp"
namespace sim
{
static Plan gen(uint64_t seed, bool)
{
   Rng r(seed * 1000003 + 1201);
   Plan p;
   if( r.p(0.5) ) gen_problem_biased(p, r); else { GenCfg g; gen_problem(p, r, g); }
   p.add(r.p(0.15) ? fmt("opt max_iter %d", r.in(0, 30)) : std::string("opt max_iter 200"));
   std::set<std::string> av = { "max_iter" };
   if( r.p(0.2) ) { p.it[0].a.push_back("uscal=1"); p.add("opt nlp_scaling_method user-scaling"); av.insert("nlp_scaling_method"); }
   if( r.p(0.3) ) { p.add(fmt("opt fixed_variable_treatment %s", r.pick(std::vector<std::string>{ "make_constraint", "relax_bounds", "make_parameter_nodual", "make_parameter" }).c_str())); av.insert("fixed_variable_treatment"); }
   if( r.p(0.25) ) { p.add("opt nlp_scaling_max_gradient 1"); av.insert("nlp_scaling_max_gradient"); }
   if( r.p(0.2) ) { p.add(fmt("opt obj_scaling_factor %s", r.pick(std::vector<std::string>{ "0.01", "10", "3" }).c_str())); av.insert("obj_scaling_factor"); }
   gen_options(p, r, av, r.p(0.3) ? 0. : 0.5);
   p.add(fmt("inspectseed %d", r.in(1, 1000000)));
   if( r.p(0.15) ) gen_eval_faults(p, r, 3, { "false", "nan", "inf", "allnan" }, { "f", "gf", "g", "jg", "h" }, 60);
   if( r.p(0.1) ) gen_mumps_faults(p, r, 3);
   if( r.p(0.1) ) p.add(fmt("fault icb stop %d", r.in(1, 25)));
   return p;
}
struct Snap
{
   bool ok = false, okv = false;
   Vec x, zl, zu, g, lam, vxl, vxu, cxl, cxu, gl, vg, cg;
};
static const Num NaN = std::numeric_limits<Num>::quiet_NaN();
static bool eval_failed(Ctx& c)
{
   for( auto* m : { &c.okf, &c.okg, &c.okgf, &c.okjg } ) for( auto& q : *m ) if( q.second & 6 ) return true;
   return c.fired_total || c.calls[S_H] != c.okcalls[S_H];
}
static void get(Ctx& c, const Ipopt::TNLP* t, const Ipopt::IpoptData* d, Ipopt::IpoptCalculatedQuantities* cq, bool scaled, int mask, Snap& s, const char* where)
{
   int n = c.P->n, m = c.P->m;
   for( Vec* v : { &s.x, &s.zl, &s.zu, &s.vxl, &s.vxu, &s.cxl, &s.cxu, &s.gl } ) v->assign(n, NaN);
   for( Vec* v : { &s.g, &s.lam, &s.vg, &s.cg } ) v->assign(m, NaN);
   auto q = [&](int b, Vec& v) { return (mask >> b) & 1 ? (v.empty() ? (Num*)&NaN : v.data()) : (Num*)NULL; };
   T.guard--; bool a = T.armed; T.armed = true; c.inspecting = true; bool mon = c.mon; c.mon = false;
   try
   {
      s.ok = t->get_curr_iterate(d, cq, scaled, n, q(0, s.x), q(1, s.zl), q(1, s.zu), m, q(2, s.g), q(3, s.lam));
      if( (mask >> 4) & 1 ) s.okv = t->get_curr_violations(d, cq, scaled, n, q(5, s.vxl), q(6, s.vxu), q(7, s.cxl), q(8, s.cxu), q(9, s.gl), m, q(10, s.vg), q(11, s.cg));
   }
   catch( Ipopt::IpoptException& e ) { T.armed = false; s.ok = s.okv = false; W->count("inspect.threw"); if( !eval_failed(c) ) W->violate("C12", "inspect-threw", std::string(where) + ": " + e.Message()); }
   catch( ... ) { T.armed = false; s.ok = s.okv = false; W->count("inspect.threw"); if( !eval_failed(c) ) W->violate("C12", "inspect-threw", where); }
   T.armed = a; T.guard++; c.inspecting = false; c.mon = mon;
}
static bool near(Num a, Num b, Num mag) { return a == b || (std::isnan(a) && std::isnan(b)) || std::abs(a - b) <= mag || std::abs(a - b) <= 1e-9 * std::abs(b); }
struct Check
{
   Ctx& c; const Problem& P; Scaling sc; std::string where; bool depdet, xscaled, par, nodual;
   Num brf, cvt, smove;
   void bad(const std::string& cls, const std::string& m) { W->violate("C12", cls, where + ": " + m); }
   Num relax(Num b) { return std::min(cvt, brf * std::max(1., std::abs(b))) * 1.01 + 1e-7 * std::max(1., std::abs(b)) + smove * 100 * std::max(1., std::abs(b)); }
   void unscaled(const Snap& s, bool pure)
   {
      int n = P.n, m = P.m;
      bool fixrel = c.opt_is("fixed_variable_treatment", "relax_bounds"), fixcon = c.opt_is("fixed_variable_treatment", "make_constraint");
      for( int i = 0; i < n; ++i ) if( std::isnan(s.x[i]) && !c.fired_total ) { bad("unset-x", fmt("x[%d] was not filled in", i)); return; }
      Vec gm(m, 0.), gval(m);
      for( int j = 0; j < m; ++j )
      {
         gval[j] = P.g[j].value(s.x.data());
         Num tol = 1e-11 * (1 + std::abs(gval[j]) + (P.gl[j] == P.gu[j] ? std::abs(P.gl[j]) : 0));
         if( depdet && s.g[j] == 0. && P.gl[j] == P.gu[j] ) continue;   // removed as linearly dependent: no value
         if( pure && !std::isnan(gval[j]) && !near(s.g[j], gval[j], tol) ) bad(std::isnan(s.g[j]) ? "unset-g" : "g", fmt("g[%d] of the current iterate is reported as %.17g, but it is %.17g at the reported x", j, s.g[j], gval[j]));
      }
      if( !s.okv ) return;
      for( int i = 0; i < n; ++i )
      {
         Num lo = P.xl[i] > -1e19 ? std::max(0., P.xl[i] - s.x[i]) : 0, up = P.xu[i] < 1e19 ? std::max(0., s.x[i] - P.xu[i]) : 0;
         Num tol = 1e-12 * (1 + std::abs(s.x[i]) + std::max(lo, up));
         if( P.fixed(i) && !fixcon && (fixrel || !par || lo + up > 0) ) tol += relax(P.xl[i]) + 1.05 * std::max(1e-8, brf) * std::max(1., std::abs(P.xl[i]));
         if( !near(s.vxl[i], lo, tol) ) bad("x-viol", fmt("violation of the lower bound of x[%d] is reported as %.10g, it is %.10g", i, s.vxl[i], lo));
         if( !near(s.vxu[i], up, tol) ) bad("x-viol", fmt("violation of the upper bound of x[%d] is reported as %.10g, it is %.10g", i, s.vxu[i], up));
         if( !P.fixed(i) )
         {
            Num cl = P.xl[i] > -1e19 ? (s.x[i] - P.xl[i]) * s.zl[i] : 0, cu = P.xu[i] < 1e19 ? (P.xu[i] - s.x[i]) * s.zu[i] : 0;
            Num tl = P.xl[i] > -1e19 ? std::abs(s.zl[i]) * relax(P.xl[i]) : 0, tu = P.xu[i] < 1e19 ? std::abs(s.zu[i]) * relax(P.xu[i]) : 0;
            if( !near(s.cxl[i], cl, tl + 1e-14) ) bad("x-compl", fmt("complementarity of the lower bound of x[%d] is reported as %.10g, (x-xl)*zl is %.10g", i, s.cxl[i], cl));
            if( !near(s.cxu[i], cu, tu + 1e-14) ) bad("x-compl", fmt("complementarity of the upper bound of x[%d] is reported as %.10g, (xu-x)*zu is %.10g", i, s.cxu[i], cu));
         }
      }
      if( pure && !c.opt.count("jacobian_approximation") && !c.opt.count("gradient_approximation") )
      {
         Vec q(n, 0.), mag(n, 0.);
         P.f.grad(s.x.data(), q.data(), 1.);
         for( int i = 0; i < n; ++i ) mag[i] = std::abs(q[i]);
         for( int j = 0; j < m; ++j )
         {
            Vec t(n, 0.);
            P.g[j].grad(s.x.data(), t.data(), 1.);
            for( int i = 0; i < n; ++i ) { t[i] *= s.lam[j]; q[i] += t[i]; mag[i] += std::abs(t[i]); }
         }
         for( int i = 0; i < n; ++i )
         {
            if( P.fixed(i) && par ) { if( s.gl[i] != 0. ) bad("gradlag-fixed", fmt("gradient of the Lagrangian w.r.t. the fixed variable x[%d] is reported as %.10g, documented is 0", i, s.gl[i])); continue; }
            q[i] += s.zu[i] - s.zl[i]; mag[i] += std::abs(s.zu[i]) + std::abs(s.zl[i]);
            if( std::isfinite(q[i]) && !depdet && !near(s.gl[i], q[i], 1e-9 * mag[i] + 1e-13) ) bad(P.fixed(i) ? "gradlag-fixcon" : "gradlag", fmt("gradient of the Lagrangian w.r.t. x[%d] is reported as %.10g, it is %.10g with the reported x and multipliers", i, s.gl[i], q[i]));
         }
      }
      for( int j = 0; j < m; ++j )
      {
         if( depdet && P.gl[j] == P.gu[j] ) continue;
         if( std::isnan(s.g[j]) ) continue;
         Num lo = P.gl[j] > -1e19 ? P.gl[j] - s.g[j] : -1e300, up = P.gu[j] < 1e19 ? s.g[j] - P.gu[j] : -1e300;
         Num v = std::max(0., std::max(lo, up)), tol = 1e-11 * (1 + std::abs(s.g[j]) + (P.gl[j] > -1e19 ? std::abs(P.gl[j]) : 0) + (P.gu[j] < 1e19 ? std::abs(P.gu[j]) : 0));
         if( !near(s.vg[j], v, tol) ) bad("g-viol", fmt("violation of constraint %d is reported as %.10g, it is %.10g", j, s.vg[j], v));
         Num cg, ct = tol * (1 + std::abs(s.lam[j]));
         if( P.gl[j] == P.gu[j] ) cg = -(s.g[j] - P.gl[j]) * s.lam[j];
         else cg = s.lam[j] > 0 ? (P.gu[j] < 1e19 ? (P.gu[j] - s.g[j]) * s.lam[j] : 0) : (P.gl[j] > -1e19 ? (s.g[j] - P.gl[j]) * -s.lam[j] : 0);
         if( !near(s.cg[j], cg, ct) ) bad("g-compl", fmt("complementarity of constraint %d is reported as %.10g, it is %.10g", j, s.cg[j], cg));
      }
      (void) fixcon;
   }
   void relation(const Snap& u, const Snap& s)
   {
      int n = P.n, m = P.m;
      Num df = sc.df;
      for( int i = 0; i < n; ++i )
      {
         bool pf = P.fixed(i) && par;
         Num dx = pf ? 1. : sc.dx[i];
         if( !near(s.x[i], u.x[i] * dx, 1e-11 * (1 + std::abs(u.x[i] * dx))) ) bad("scaled-x", fmt("scaled x[%d]=%.15g, unscaled %.15g, scaling factor %.15g", i, s.x[i], u.x[i], dx));
         Num a = u.zl[i] * df / dx, b = u.zu[i] * df / dx;
         if( P.fixed(i) && !par ) continue;
         if( pf ) { a = u.zl[i] * df; b = u.zu[i] * df; }
         Num mg = 1e-8 * (std::abs(a) + std::abs(b)) + 1e-12;
         if( pf ) { mg += 1e-9; for( int j = 0; j < m; ++j ) mg += 1e-9 * std::abs(u.lam[j] * df); }
         if( !near(s.zl[i], a, mg) || !near(s.zu[i], b, mg) ) bad(pf ? "scaled-zfixed" : "scaled-z", fmt("scaled bound multipliers of x[%d] are %.12g and %.12g, expected from the unscaled ones are %.12g and %.12g", i, s.zl[i], s.zu[i], a, b));
         if( s.okv && u.okv && !P.fixed(i) )
         {
            if( !near(s.gl[i], u.gl[i] * df / dx, 1e-9 * std::abs(u.gl[i] * df / dx) + 1e-9 * (std::abs(a) + std::abs(b)) + 1e-12) ) bad("scaled-gradlag", fmt("scaled gradient of the Lagrangian w.r.t. x[%d] is %.12g, unscaled %.12g", i, s.gl[i], u.gl[i]));
            Num vt = 1e-11 * (1 + std::abs(u.x[i] * dx));
            if( !near(s.vxl[i], u.vxl[i] * dx, vt) || !near(s.vxu[i], u.vxu[i] * dx, vt) ) bad("scaled-xviol", fmt("scaled bound violations of x[%d] are %.12g and %.12g, unscaled %.12g and %.12g", i, s.vxl[i], s.vxu[i], u.vxl[i], u.vxu[i]));
            if( !near(s.cxl[i], u.cxl[i] * df, 1e-12) || !near(s.cxu[i], u.cxu[i] * df, 1e-12) ) bad("scaled-xcompl", fmt("scaled complementarity of x[%d] is %.12g and %.12g, unscaled %.12g and %.12g", i, s.cxl[i], s.cxu[i], u.cxl[i], u.cxu[i]));
         }
      }
      for( int j = 0; j < m; ++j )
      {
         Num dg = sc.dg[j];
         if( std::isnan(u.g[j]) || std::isnan(u.lam[j]) ) continue;
         Num gt = 1e-11 * (1 + std::abs(u.g[j]) + (P.gl[j] == P.gu[j] ? std::abs(P.gl[j]) : 0)) * dg + 1e-12;
         if( !near(s.g[j], u.g[j] * dg, gt) ) bad("scaled-g", fmt("scaled g[%d]=%.15g, unscaled %.15g, scaling factor %.15g", j, s.g[j], u.g[j], dg));
         if( !near(s.lam[j], u.lam[j] * df / dg, 1e-12) ) bad("scaled-lambda", fmt("scaled lambda[%d]=%.15g, unscaled %.15g, scaling factors %.15g and %.15g", j, s.lam[j], u.lam[j], df, dg));
         if( s.okv && u.okv )
         {
            if( !near(s.vg[j], u.vg[j] * dg, gt) ) bad("scaled-gviol", fmt("scaled violation of constraint %d is %.12g, unscaled %.12g", j, s.vg[j], u.vg[j]));
            if( !near(s.cg[j], u.cg[j] * df, gt * (1 + std::abs(s.lam[j])) + 1e-12) ) bad("scaled-gcompl", fmt("scaled complementarity of constraint %d is %.12g, unscaled %.12g", j, s.cg[j], u.cg[j]));
         }
      }
   }
};
static void run(const Plan& p)
{
   uint64_t h1, h2; SolveRes r1, r2;
   bool f1;
   {
      Scn s(p, "plain");
      r1 = s.solve();
      W->count("iters", (long)s.c.iters.size());
      h1 = s.c.hit_seq; f1 = s.c.fired_total > 0;
   }
   Scn s(p, "inspected");
   Ctx& c = s.c; const Problem& P = s.P;
   Rng r(p.geti("inspectseed", 1));
   int nfree = 0, meq = 0;
   for( int i = 0; i < P.n; ++i ) nfree += !P.fixed(i);
   for( int j = 0; j < P.m; ++j ) meq += P.gl[j] == P.gu[j];
   Check ck = { c, P, Scaling(), "", false, false, false, false, 0, 0, 0 };
   int mode = (int)(r.u64() % 4);      // how often it is asked: 0 always, 1 sometimes, 2 rarely, 3 bursts
   auto setup = [&]()
   {
      if( ck.brf == 0 && ck.cvt == 0 )
      {
         ck.sc = compute_scaling(c);
         ck.depdet = c.opt.count("dependency_detector") > 0;
         ck.xscaled = P.use_xs && c.opt_is("scale_x", "1");
         ck.par = makes_param(c) && (nfree >= meq || nfree == 0) && !ck.depdet;
         ck.brf = c.optd("bound_relax_factor", 1e-8); ck.cvt = c.optd("constr_viol_tol", 1e-4); ck.smove = c.optd("slack_move", 1.8189894035458565e-12);
      }
   };
   auto look = [&](const Ipopt::TNLP* t, const Ipopt::IpoptData* d, Ipopt::IpoptCalculatedQuantities* cq, const std::string& where, const IterRec* q)
   {
      setup();
      ck.where = where;
      int times = mode == 3 ? r.in(0, 4) : mode == 1 ? r.in(0, 1) : mode == 2 ? r.p(0.2) : 1;
      for( int k = 0; k < times; ++k )
      {
         Snap u, v;
         int order = r.in(0, 1);
         bool part = r.p(0.15);
         int mk = part ? (int)(r.u64() & 0xfff) : 0xfff;
         if( order ) get(c, t, d, cq, true, mk, v, where.c_str());
         get(c, t, d, cq, false, mk, u, where.c_str());
         if( !order ) get(c, t, d, cq, true, mk, v, where.c_str());
         W->count("inspections");
         if( part ) continue;
         if( !u.ok || !v.ok ) { if( !c.fired_total ) ck.bad("refused", "get_curr_iterate returned false"); continue; }
         if( !u.okv || !v.okv ) { if( !c.fired_total ) ck.bad("refused", "get_curr_violations returned false"); continue; }
         uint64_t xh = xhash(u.x.data(), P.n);
         bool pure = !c.fired_total;
         ck.unscaled(u, pure);
         bool ex = ck.sc.exact && !any_fault(c, "gf:") && !any_fault(c, "jg:");
         if( ex && !ck.depdet ) ck.relation(u, v);
         if( q && q->mode == 0 && pure )
         {
            Num fv = P.f.value(u.x.data());
            if( std::isfinite(fv) && !near(q->obj, fv, 1e-11 * std::abs(fv) + 1e-300) && !(std::abs(q->obj - fv) <= 1e-9 * (1 + std::abs(fv)) && ck.xscaled) ) ck.bad("obj", fmt("the iterate shown has objective %.17g, reported to intermediate_callback is %.17g", fv, q->obj));
            if( !ck.depdet )
            {
               Num iv = 0, dv = 0;
               for( Num w : v.vg ) iv = std::max(iv, w);
               for( Num w : v.gl ) dv = std::max(dv, std::abs(w));
               if( iv > q->inf_pr * (1 + 1e-9) + 1e-9 + 1e-6 * (ck.brf > 1e-8) + ck.relax(iv) ) { bool eqonly = true; for( int j = 0; j < P.m; ++j ) eqonly = eqonly && P.gl[j] == P.gu[j]; if( eqonly ) ck.bad("infpr", fmt("reported primal infeasibility %.10g, constraint violation from inspection %.10g", q->inf_pr, iv)); }
               if( dv > q->inf_du * (1 + 1e-9) + 1e-12 && !c.opt_is("fixed_variable_treatment", "make_constraint") && std::isfinite(q->inf_du) ) ck.bad("infdu", fmt("reported dual infeasibility %.10g, gradient of the Lagrangian from inspection %.10g", q->inf_du, dv));
            }
         }
         (void) xh;
      }
   };
   c.at_icb = [&](Ctx& cc, const Ipopt::IpoptData* d, Ipopt::IpoptCalculatedQuantities* cq, const Ipopt::TNLP* t)
   {
      const IterRec& q = cc.iters.back();
      look(t, d, cq, fmt("iteration %d%s", q.iter, q.mode ? "r" : ""), &q);
   };
   s.open();
   c.at_cb = [&](Ctx& cc, int site)
   {
      if( site != S_FIN || !s.s->nlp->last_d || !s.s->nlp->last_cq ) return;
      if( cc.iters.empty() ) return;
      setup();
      ck.where = "finalize_solution";
      Snap u;
      get(c, GetRawPtr(s.s->nlp), s.s->nlp->last_d, s.s->nlp->last_cq, false, 0xfff, u, "finalize_solution");
      if( c.fired_total ) return;
      const FinRec& f = cc.fins.back();
      if( default_branch(f.status) ) return;
      if( !u.ok || !u.okv ) { ck.bad("refused", "inspection from finalize_solution returned false"); return; }
      ck.unscaled(u, true);
      if( c.opt_is("honor_original_bounds", "yes") ) return;
      for( int i = 0; i < P.n; ++i ) if( u.x[i] != f.x[i] ) { ck.bad("final-x", fmt("x[%d] is %.17g by inspection, %.17g as passed to finalize_solution", i, u.x[i], f.x[i])); break; }
      if( !ck.depdet ) for( int j = 0; j < P.m; ++j ) if( !near(u.lam[j], f.lam[j], 1e-13) ) { ck.bad("final-lambda", fmt("lambda[%d] is %.17g by inspection, %.17g as passed to finalize_solution", j, u.lam[j], f.lam[j])); break; }
      for( int i = 0; i < P.n; ++i ) if( !P.fixed(i) && (!near(u.zl[i], f.zl[i], 1e-13) || !near(u.zu[i], f.zu[i], 1e-13)) ) { ck.bad("final-z", fmt("bound multipliers of x[%d] differ between inspection and finalize_solution", i)); break; }
   };
   r2 = s.solve();
   h2 = c.hit_seq;
   long ic = 0;
   for( int i = 0; i < S_NSITE; ++i ) ic += c.icalls[i];
   bool comparable = (!f1 && !c.fired_total) || ic == 0;
   if( comparable && (h1 != h2 || r1.status != r2.status) ) W->violate("C12", "not-passive", fmt("the course of the solve depends on whether the iterate is inspected (%s / %s)", st_name(r1.status), st_name(r2.status)));
   // outside a solve the request is refused
   {
      Vec x(P.n), g(P.m);
      T.ctx = &c;
      bool b1 = s.s->nlp->get_curr_iterate(NULL, NULL, false, P.n, x.data(), NULL, NULL, P.m, g.data(), NULL);
      bool b2 = s.s->nlp->get_curr_violations(NULL, NULL, false, P.n, x.data(), NULL, NULL, NULL, NULL, P.m, g.data(), NULL);
      if( b1 || b2 ) W->violate("C12", "outside", "inspection outside of a solve was not refused");
      T.ctx = NULL;
   }
}
static RegProp reg("C12", "inspection", gen, run);
}
