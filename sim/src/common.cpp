#include "common.hpp"
namespace sim
{
bool feq(Num a, Num b, Num rel, Num ab)
{
   if( a == b ) return true;
   if( std::isnan(a) || std::isnan(b) ) return std::isnan(a) && std::isnan(b);
   return std::abs(a - b) <= ab + rel * std::max(std::abs(a), std::abs(b));
}
Scn::Scn(const Plan& p, const std::string& name, const std::string& px) : plan(p), pfx(px)
{
   const Item* it = p.find(px + "prob");
   if( !it ) { fprintf(stderr, "plan has no %sprob line\n", px.c_str()); _Exit(9); }
   P = problem_from(*it);
   c.P = &P; c.name = name;
   load_faults(p, c, px + "fault");
   load_costs(p, c);
   for( auto f : p.all(px + "flag") )
   {
      if( f->s(0) == "inspect" ) c.inspect = true;
      else c.opt[f->s(0)] = f->a.size() > 1 ? f->s(1) : "1";
   }
}
Scn::~Scn() { if( s ) { Ctx* o = T.ctx; T.ctx = &c; { Armed a(true); s->app = NULL; } s->nlp = NULL; T.ctx = o; } }
void Scn::open()
{
   s.reset(new Session(&c));
   if( plan.find(pfx + "flag") )
      for( auto f : plan.all(pfx + "flag") )
      {
         if( f->s(0) == "nlv" ) s->nlp->with_nlv = true;
         if( f->s(0) == "meta" ) s->nlp->with_meta = true;
         if( f->s(0) == "warm" ) s->nlp->with_warm = true;
      }
   s->set_options(plan, pfx + "opt");
   for( auto i : plan.all(pfx + "ropt") ) s->ropts.push_back({ i->s(0), i->s(1) });
   if( P.use_xs && c.opt_is("nlp_scaling_method", "user-scaling") ) c.opt["scale_x"] = "1";
   init_status = s->init();
   if( init_status != 0 ) W->count(std::string("init.") + st_name(init_status));
}
bool any_fault(const Ctx& c, const std::string& k)
{
   for( auto& f : c.fired ) if( f.first.find(k) != std::string::npos && f.second > 0 ) return true;
   return false;
}
uint64_t outcome_hash(const Scn& s, const SolveRes& r)
{
   uint64_t h = hmix(7, (uint64_t)(int64_t)r.status);
   h = hmix(h, s.c.h);
   h = hmix(h, s.c.iters.size());
   for( auto& f : s.c.fins )
   {
      h = hmix(h, f.status); h = hmix(h, dbits(f.obj));
      for( const Vec* v : { &f.x, &f.zl, &f.zu, &f.g, &f.lam } ) h = hmix(h, xhash(v->data(), (int)v->size()));
   }
   if( r.stats ) { h = hmix(h, r.iters); h = hmix(h, dbits(r.st_obj)); h = hmix(h, dbits(r.st_kkt)); h = hmix(h, (uint64_t)r.nf * 1000003 + (uint64_t)r.nc * 1009 + r.ngf * 17 + r.njc * 5 + r.nh); }
   return h;
}
static bool par(const Ctx& c) { std::string f = c.opts("fixed_variable_treatment", "make_parameter"); return f == "make_parameter" || f == "make_parameter_nodual"; }

void judge_status(const std::string& prop, const Scn& S, const SolveRes& r)
{
   const Ctx& c = S.c;
   const Problem& P = S.P;
   if( r.status == -1000 ) return;
   if( any_fault(c, ":wrong") ) return;
   const FinRec* f = S.fin();
   auto bad = [&](const char* cls, const std::string& m) { W->violate(prop, fmt("status-%s:%s", st_name(r.status), cls), std::string(st_name(r.status)) + ": " + m); };
   int nfree = 0, meq = 0, nbad = 0;
   for( int i = 0; i < P.n; ++i ) { nfree += !P.fixed(i); nbad += P.xl[i] > P.xu[i]; }
   for( int j = 0; j < P.m; ++j ) { meq += P.gl[j] == P.gu[j]; nbad += P.gl[j] > P.gu[j]; }
   Num brf = c.optd("bound_relax_factor", 1e-8), cvt = c.optd("constr_viol_tol", 1e-4), tol = c.optd("tol", 1e-8);
   Num mut = c.optd("mu_target", 0.);
   switch( r.status )
   {
      case 0: case 1: case 6: case 2:
      {
         if( !f ) { if( !c.opt_is("skip_finalize_solution_call", "yes") ) bad("no-point", "status returned without a final point"); return; }
         bool acc = r.status == 1;
         bool fin = std::isfinite(P.f.value(f->x.data()));
         for( Num v : f->x ) fin = fin && std::isfinite(v);
         for( Num v : f->lam ) fin = fin && std::isfinite(v);
         bool gfl = any_fault(c, "gf:") || any_fault(c, "jg:");   // the multipliers of fixed variables are computed from the user's derivatives
         for( int i = 0; i < P.n; ++i ) if( !(gfl && P.fixed(i)) ) fin = fin && std::isfinite(f->zl[i]) && std::isfinite(f->zu[i]);
         for( auto& q : P.g ) fin = fin && std::isfinite(q.value(f->x.data()));
         if( !fin ) { bad("nonfinite", "the returned point, its multipliers or the functions at it are not finite");
            if( W->trace ) { auto pv = [](const char* t, const Vec& v) { fprintf(stderr, "%s", t); for( Num q : v ) fprintf(stderr, " %.9g", q); fprintf(stderr, "\n"); }; pv("x", f->x); pv("lam", f->lam); pv("zl", f->zl); pv("zu", f->zu); }
            return; }
         Scaling sc = compute_scaling(c);
         if( any_fault(c, "gf:") || any_fault(c, "jg:") || any_fault(c, "scal:") || any_fault(c, "start:") ) sc.exact = false;
         Kkt k = kkt(c, P, f->x, f->lam, f->zl, f->zu, sc, mut, acc ? c.optd("acceptable_tol", 1e-6) : tol, acc ? c.optd("acceptable_dual_inf_tol", 1e10) : c.optd("dual_inf_tol", 1.));
         // slack of the comparison: bound relaxation, final projection and rounding
         Num xm = 1, gm = 1, jm = 1, lm = 0;
         for( Num v : f->x ) xm = std::max(xm, std::abs(v));
         for( int j = 0; j < P.m; ++j )
         {
            Vec q(P.n, 0.);
            P.g[j].grad(f->x.data(), q.data(), 1.);
            for( int i = 0; i < P.n; ++i ) jm = std::max(jm, std::abs(q[i]));
            if( P.gl[j] > -1e19 ) gm = std::max(gm, std::abs(P.gl[j]));
            if( P.gu[j] < 1e19 ) gm = std::max(gm, std::abs(P.gu[j]));
            lm = std::max(lm, std::abs(f->lam[j]));
         }
         for( int i = 0; i < P.n; ++i ) lm = std::max(lm, std::max(std::abs(f->zl[i]), std::abs(f->zu[i])));
         bool moved = c.opt_is("honor_original_bounds", "yes") || c.opts("fixed_variable_treatment", "") == "relax_bounds" || c.opts("fixed_variable_treatment", "") == "make_constraint";
         Num smove = c.optd("slack_move", 1.8189894035458565e-12);
         int nit = (int)c.iters.size() + 2;
         Num relax = std::min(brf, cvt) * std::max(gm, xm) + smove * nit * std::max(gm, xm) + 1e-12 * gm;
         Num pslack = relax + (moved ? 1e-7 * xm * jm * P.n : 0);
         Num bslack = std::min(brf * xm, cvt) + smove * nit * xm + 1e-12 * xm;
         Num ctol = acc ? c.optd("acceptable_constr_viol_tol", 1e-2) : cvt;
         if( r.status != 2 )
         {
            if( k.constr_viol > ctol * 1.001 + pslack ) bad("constr_viol", fmt("constraint violation of the returned point is %.3e, tolerance %.3e", k.constr_viol, ctol));
            if( k.bound_viol > bslack * 1.5 + (moved ? cvt : 0) + (nfree < meq || c.opts("fixed_variable_treatment", "") == "relax_bounds" ? std::max(1e-8, brf) * xm * 1.1 : 0) ) bad("bound_viol", fmt("bound violation of the returned point is %.3e, permitted relaxation %.3e", k.bound_viol, bslack));
         }
         if( r.status == 6 && meq != nfree && !(c.opt_is("fixed_variable_treatment", "make_constraint") || c.opt_is("fixed_variable_treatment", "relax_bounds")) && nfree > 0 )
            bad("not-square", fmt("reported for a problem with %d equalities and %d free variables", meq, nfree));
         bool maybe_square = meq == nfree || c.opt_is("fixed_variable_treatment", "make_constraint") || c.opt_is("fixed_variable_treatment", "relax_bounds");
         if( (r.status == 0 || r.status == 1) && nfree > 0 && (!maybe_square || r.status == 1)
             // invalid numbers in the Jacobian are documented to go unnoticed without check_derivatives_for_naninf
             && !(P.m && (any_fault(c, "jg:nan") || any_fault(c, "jg:inf") || any_fault(c, "jg:ninf") || any_fault(c, "jg:allnan")) && !c.opt_is("check_derivatives_for_naninf", "yes")) )
         {
            Num dtol = acc ? c.optd("acceptable_dual_inf_tol", 1e10) : c.optd("dual_inf_tol", 1.);
            Num ktol = acc ? c.optd("acceptable_compl_inf_tol", 1e-2) : c.optd("compl_inf_tol", 1e-4);
            Num otol = acc ? c.optd("acceptable_tol", 1e-6) : tol;
            Num dslack = (moved ? 1e-6 * (1 + lm) * xm : 0) + 1e-10 * (1 + lm) * jm;
            if( k.dual_inf > dtol * 1.001 + dslack ) bad("dual_inf", fmt("dual infeasibility of the returned point is %.3e, tolerance %.3e", k.dual_inf, dtol));
            if( k.compl_inf > ktol * 1.01 + (relax + bslack) * 2 * (1 + lm) + 2 * std::min(k.dual_inf + k.zneg, dtol) * 1e-3 + (moved ? 1e-6 * (1 + lm) : 0) )
               bad("compl", fmt("complementarity of the returned point is %.3e, tolerance %.3e", k.compl_inf, ktol));
            if( sc.exact )
            {
               Num dm = 1, dmin = 1;
               for( Num d : sc.dg ) { dm = std::max(dm, d); }
               (void) dmin;
               Num adf = std::max(1., std::abs(sc.df));
               Num es = otol * 1.01 + dm * pslack + (relax + bslack) * 2 * (1 + lm) * adf + dslack * adf;
               if( k.s_constr > es ) bad("scaled-constr", fmt("scaled constraint violation %.3e exceeds tol %.3e", k.s_constr, otol));
               if( k.s_dual / k.scale_d > es * 2 ) bad("scaled-dual", fmt("scaled dual infeasibility %.3e (s_d=%.3g) exceeds tol %.3e", k.s_dual, k.scale_d, otol));
               if( k.s_compl / k.scale_c > es * 2 + 1e-3 * std::min(1., k.s_dual) ) bad("scaled-compl", fmt("scaled complementarity %.3e (s_c=%.3g) exceeds tol %.3e", k.s_compl, k.scale_c, otol));
            }
            if( k.zneg > 1e-6 * (1 + lm) + (sc.exact ? 4 * otol * k.scale_d / std::abs(sc.df) * 100 : 1) + dtol * 0 && k.zneg > dtol * 1.001 + dslack )
               bad("sign", fmt("a multiplier of the returned point has the wrong sign by %.3e", k.zneg));
         }
         if( r.status == 2 && c.fins.size() && nbad == 0 )
         {
            Num v = std::max(k.constr_viol, k.bound_viol);
            Num smin = 1;
            for( Num d : sc.dg ) smin = std::max(smin, d);
            // locally infeasible: the violation left is above the tolerance
            if( v * smin < std::min(tol, cvt) * 0.99 ) bad("feasible", fmt("the returned point violates the constraints only by %.3e", v));
         }
         break;
      }
      case 4:
      {
         if( !f ) return;
         Num xm = 0, lim = c.optd("diverging_iterates_tol", 1e20);
         for( size_t i = 0; i < f->x.size(); ++i ) xm = std::max(xm, std::abs(f->x[i]) * (P.use_xs && c.opt_is("scale_x", "1") ? std::max(1., P.xs[i]) : 1.));
         if( !(xm > lim * 0.999) ) bad("bounded", fmt("max |x| = %.3e does not exceed diverging_iterates_tol = %.3e", xm, lim));
         break;
      }
      case 5: if( !c.stop_latched ) bad("no-request", "reported although intermediate_callback never returned false"); break;
      case -1:
      {
         Num mi = c.optd("max_iter", 3000);
         Index last = c.iters.empty() ? -1 : c.iters.back().iter;
         int run = 0, best = 0;
         for( auto& i : c.iters ) { if( i.mode == 1 ) best = std::max(best, ++run); else run = 0; }
         if( last < mi && !(best > c.optd("max_resto_iter", 3000000) + 1) ) bad("early", fmt("reported at iteration %d, max_iter is %g", last, mi));
         break;
      }
      case -4: if( !(r.t_cpu1 - r.t_cpu0 >= c.optd("max_cpu_time", 1e20) * 0.999999) ) bad("early", fmt("reported after %.6g s of CPU time, limit %.6g s", r.t_cpu1 - r.t_cpu0, c.optd("max_cpu_time", 1e20))); break;
      case -5: if( !(r.t_wall1 - r.t_wall0 >= c.optd("max_wall_time", 1e20) * 0.999999) && !any_fault(c, "wallback") ) bad("early", fmt("reported after %.6g s of wall-clock time, limit %.6g s", r.t_wall1 - r.t_wall0, c.optd("max_wall_time", 1e20))); break;
      case -10: if( meq <= nfree && !c.opt_is("fixed_variable_treatment", "make_constraint") ) bad("enough", fmt("%d equality constraints, %d free variables", meq, nfree)); break;
      case -11: if( nbad == 0 && !any_fault(c, "info:") && !any_fault(c, "bounds:") && !any_fault(c, "js:") && !any_fault(c, "hs:") && !any_fault(c, "nlv:") ) bad("valid", "the problem definition is consistent"); break;
      case -13:
      {
         bool seen = false;
         for( auto* m : { &c.okf, &c.okg, &c.okgf, &c.okjg } ) for( auto& e : *m ) seen = seen || (e.second & 6);
         if( c.calls[S_H] != c.okcalls[S_H] ) seen = true;
         if( any_fault(c, "start:") || any_fault(c, "icb:") ) seen = true;
         if( !seen ) bad("all-finite", "reported although every evaluation succeeded with finite values");
         break;
      }
      case -199:
         // without check_derivatives_for_naninf the algorithm may proceed with invalid derivatives and fail
         if( !any_fault(c, "mumps:") && !((any_fault(c, "jg:") || any_fault(c, "h:")) && !c.opt_is("check_derivatives_for_naninf", "yes")) ) bad("internal", "Internal_Error");
         break;
   }
   if( nbad > 0 && (status_ok(r.status) || r.status == 3) ) bad("badbounds", "inconsistent bounds were accepted");
   if( P.infeasible && status_ok(r.status) && P.family != "allfixed" && nfree > 0 ) bad("infeasible-problem", "the problem has no feasible point");
}

void gen_eval_faults(Plan& p, Rng& r, int nmax, const std::vector<std::string>& kinds, const std::vector<std::string>& sites, int maxocc)
{
   int k = r.in(1, nmax);
   for( int i = 0; i < k; ++i )
   {
      const std::string& s = sites[r.u64() % sites.size()];
      const std::string& kd = kinds[r.u64() % kinds.size()];
      int from = (int)std::floor(r.logu(1, maxocc + 0.999));
      int len = r.p(0.6) ? 1 : r.in(2, 12);
      p.add(fmt("fault %s %s %d %d %d", s.c_str(), kd.c_str(), from, from + len - 1, r.in(0, 9)));
   }
}
void gen_mumps_faults(Plan& p, Rng& r, int nmax)
{
   static const std::vector<std::string> kinds = { "mem9", "mem8", "sing", "err", "oom", "inertia", "pert", "nan" };
   int k = r.in(1, nmax);
   for( int i = 0; i < k; ++i )
   {
      const std::string& kd = kinds[r.u64() % kinds.size()];
      int from = (int)std::floor(r.logu(1, 80.999));
      int len = r.p(0.7) ? 1 : r.in(2, 6);
      std::string p1 = kd == "inertia" ? (r.p(0.5) ? "1" : "-1") : kd == "pert" ? (r.p(0.5) ? "1e-6" : "1e-2") : "0";
      p.add(fmt("fault mumps %s %d %d %s", kd.c_str(), from, from + len - 1, p1.c_str()));
   }
}
void gen_limits(Plan& p, Rng& r)
{
   p.add(fmt("cost f %g", r.logu(1e-3, 2)));
   if( r.p(0.5) ) p.add(fmt("cost g %g", r.logu(1e-3, 2)));
   if( r.p(0.3) ) p.add(fmt("cost mumps %g", r.logu(1e-3, 2)));
   if( r.p(0.3) ) p.add(fmt("cost h %g", r.logu(1e-3, 2)));
   if( r.p(0.5) ) p.add(fmt("opt max_cpu_time %g", r.logu(1e-2, 50)));
   if( r.p(0.5) ) p.add(fmt("opt max_wall_time %g", r.logu(1e-2, 50)));
}
void gen_std(Plan& p, Rng& r, Num orate, const std::set<std::string>& avoid)
{
   GenCfg c;
   gen_problem(p, r, c);
   p.add(r.p(0.15) ? fmt("opt max_iter %d", r.in(0, 40)) : std::string("opt max_iter 200"));
   std::set<std::string> av = avoid;
   av.insert("max_iter");
   gen_options(p, r, av, orate);
}
Obs observe(Scn& s, const SolveRes& r)
{
   Obs o;
   o.r = r; o.h = s.c.h; o.hit = s.c.hit_seq; o.out = outcome_hash(s, r); o.iters = s.c.iters.size(); o.it = s.c.iters; o.fins = s.c.fins;
   memcpy(o.calls, s.c.calls, sizeof o.calls);
   return o;
}
void fresh_hash(Scn& s) { s.c.h = 0x12345; s.c.hit_seq = 2; s.c.hn = 3; s.c.hc = 5; memset(s.c.occ, 0, sizeof s.c.occ); }
std::string differs(const Obs& a, const Obs& b, bool calls)
{
   if( a.r.status != b.r.status ) return fmt("status %s and %s", st_name(a.r.status), st_name(b.r.status));
   for( size_t i = 0; i < std::min(a.it.size(), b.it.size()); ++i )
   {
      const IterRec &p = a.it[i], &q = b.it[i];
      if( dbits(p.obj) != dbits(q.obj) || dbits(p.inf_pr) != dbits(q.inf_pr) || dbits(p.inf_du) != dbits(q.inf_du) || dbits(p.mu) != dbits(q.mu) || dbits(p.dn) != dbits(q.dn) || dbits(p.reg) != dbits(q.reg)
          || p.ls != q.ls || p.mode != q.mode || p.iter != q.iter || dbits(p.apr) != dbits(q.apr) || dbits(p.adu) != dbits(q.adu) )
         return fmt("report %zu (iteration %d): obj %.17g/%.17g inf_pr %.9g/%.9g inf_du %.9g/%.9g mu %.6g/%.6g ||d|| %.9g/%.9g reg %g/%g ls %d/%d", i, p.iter, p.obj, q.obj, p.inf_pr, q.inf_pr, p.inf_du, q.inf_du, p.mu, q.mu, p.dn, q.dn, p.reg, q.reg, p.ls, q.ls);
   }
   if( a.it.size() != b.it.size() ) return fmt("%zu and %zu iteration reports", a.it.size(), b.it.size());
   if( a.fins.size() != b.fins.size() ) return "finalize_solution called a different number of times";
   for( size_t i = 0; i < a.fins.size(); ++i )
   {
      const FinRec &p = a.fins[i], &q = b.fins[i];
      if( p.status != q.status || dbits(p.obj) != dbits(q.obj) ) return fmt("final status/objective %d %.17g and %d %.17g", (int)p.status, p.obj, (int)q.status, q.obj);
      if( !vec_same(p.x, q.x) || !vec_same(p.lam, q.lam) || !vec_same(p.zl, q.zl) || !vec_same(p.zu, q.zu) || !vec_same(p.g, q.g) ) return "final point, multipliers or constraint values";
   }
   if( calls )
   {
      for( int s = 0; s < S_NSITE; ++s ) if( a.calls[s] != b.calls[s] && s != S_ALLOC && s != S_CLK && s != S_FILE ) return fmt("%s called %ld and %ld times", site_name[s], a.calls[s], b.calls[s]);
      if( a.h != b.h ) return "arguments or order of the callbacks";
      if( a.r.stats != b.r.stats || (a.r.stats && (a.r.iters != b.r.iters || dbits(a.r.st_kkt) != dbits(b.r.st_kkt))) ) return "statistics";
   }
   return "";
}
void heap_shuffle(uint64_t seed)
{
   Rng r(seed + 99);
   std::vector<void*> keep;
   int n = r.in(100, 900);
   for( int i = 0; i < n; ++i )
   {
      size_t sz = (size_t)r.logu(8, r.p(0.1) ? 60000 : 2000);
      void* q = malloc(sz);
      int b = r.p(0.4) ? 0xff : r.in(0, 255);
      for( size_t k = 0; k < sz; ++k ) ((unsigned char*)q)[k] = (unsigned char)(r.p(0.9) ? b : (int)r.in(0, 255));
      keep.push_back(q);
   }
   for( size_t i = keep.size(); i-- > 0; ) if( !r.p(0.15) ) free(keep[i]);
}
}
