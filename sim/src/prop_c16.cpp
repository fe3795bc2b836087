// C16: stopping and restarting: the first iterate honours the starting point and the warm-start data, and a solve that was
// stopped anywhere and restarted from what was reported reaches the same solution.
#include "common.hpp"
#include "IpAlgTypes.hpp"
namespace sim
{
static Plan gen(uint64_t seed, bool)
{
   Rng r(seed * 1000003 + 1601);
   Plan p;
   int mode = r.p(0.55) ? 0 : r.p(0.6) ? 1 : 2;
   GenCfg g;
   if( mode == 0 ) { if( r.p(0.3) ) g.families = { "convex", "boundqp", "nonconvex", "hs071", "wb", "freeeq", "scaled", "noconstr" }; }
   else g.families = { "convex", "convex", "boundqp", "lp", "freeeq", "scaled" };
   gen_problem(p, r, g);
   p.add(fmt("mode %d", mode));
   p.add(fmt("startseed %d", r.in(1, 1000000)));
   std::set<std::string> av = { "max_iter", "start_with_resto", "kappa_sigma", "line_search_method", "expect_infeasible_problem", "accept_every_trial_step", "max_hessian_perturbation", "max_resto_iter",
      "least_square_init_primal", "least_square_init_duals", "dependency_detector", "bound_push", "bound_frac", "bound_mult_init_method", "constr_mult_init_max", "mu_init", "nlp_scaling_method", "dependency_detection_with_rhs" };
   auto opt = [&](const char* n, std::vector<std::string> v, Num pr) { if( r.p(pr) ) p.add(std::string("opt ") + n + " " + r.pick(v)); };
   if( mode == 0 )
   {
      opt("bound_push", { "1e-8", "1e-4", "0.1", "1" }, 0.3);
      opt("bound_frac", { "1e-8", "1e-4", "0.1", "0.5" }, 0.3);
      opt("slack_bound_push", { "1e-8", "1e-3", "0.1", "1" }, 0.2);
      opt("slack_bound_frac", { "1e-8", "1e-3", "0.1", "0.5" }, 0.2);
      opt("bound_mult_init_val", { "1e-3", "0.5", "10" }, 0.25);
      opt("bound_mult_init_method", { "mu-based", "constant" }, 0.35);
      opt("constr_mult_init_max", { "0", "1e10", "1", "10" }, 0.3);
      opt("mu_init", { "1", "1e-3", "10", "1e-6" }, 0.4);
      opt("warm_start_bound_push", { "1e-9", "1e-5", "0.1" }, 0.3);
      opt("warm_start_bound_frac", { "1e-9", "1e-5", "0.1", "0.5" }, 0.3);
      opt("warm_start_slack_bound_push", { "1e-9", "1e-5", "0.1" }, 0.2);
      opt("warm_start_slack_bound_frac", { "1e-9", "1e-5", "0.1", "0.5" }, 0.2);
      opt("warm_start_mult_bound_push", { "1e-9", "1e-5", "0.5" }, 0.3);
      opt("warm_start_mult_init_max", { "1", "3", "1e3" }, 0.3);
      opt("warm_start_init_point", { "yes" }, 0.5);
      if( r.p(0.35) ) { p.it[0].a.push_back("uscal=1"); p.add("opt nlp_scaling_method user-scaling"); } else opt("nlp_scaling_method", { "none", "gradient-based" }, 0.3);
      gen_options(p, r, av, r.p(0.5) ? 0. : 0.4);
      p.add(fmt("opt max_iter %d", r.in(0, 3)));
      if( r.p(0.3) ) p.add("second 1");
   }
   else
   {
      if( r.p(0.3) ) { p.it[0].a.push_back("uscal=1"); p.add("opt nlp_scaling_method user-scaling"); }
      if( mode == 1 ) { av.insert("nlp_scaling_obj_target_gradient"); gen_options(p, r, av, r.p(0.6) ? 0. : 0.4); }
      p.add("opt max_iter 1000");
      p.add(fmt("restarts %d", mode == 1 ? r.in(1, 4) : 1));
   }
   return p;
}
static Num norm0(Rng& r) { return (r.uni(-1, 1) + r.uni(-1, 1) + r.uni(-1, 1)); }
static void randomize_start(Problem& P, Rng& r, int round)
{
   int kind = r.in(0, 4);
   for( int i = 0; i < P.n; ++i )
   {
      Num b = P.x0[i];
      bool hl = P.xl[i] > -1e19, hu = P.xu[i] < 1e19;
      if( kind == 0 && !round ) continue;
      if( kind == 4 || r.p(0.3) )   // at or near a bound, or far outside
      {
         if( hl && (!hu || r.p(0.5)) ) b = P.xl[i] + (r.p(0.4) ? 0. : norm0(r) * std::pow(10., r.in(-10, 2)));
         else if( hu ) b = P.xu[i] + (r.p(0.4) ? 0. : norm0(r) * std::pow(10., r.in(-10, 2)));
      }
      else b += norm0(r) * std::pow(10., r.in(-3, 0));
      P.x0[i] = b;
   }
   for( auto& v : P.lam0 ) v = r.p(0.2) ? 0. : norm0(r) * std::pow(10., r.in(-6, 3));
   for( auto* z : { &P.zl0, &P.zu0 } ) for( auto& v : *z ) v = r.p(0.2) ? 0. : std::abs(norm0(r)) * std::pow(10., r.in(-8, 3)) * (r.p(0.1) ? -1 : 1);
}
// the documented projection onto a slightly perturbed interior of the box [l, u]
static Num push(Num x, Num l, bool hl, Num u, bool hu, Num k1, Num k2)
{
   if( hl ) x = std::max(x, l);
   if( hu ) x = std::min(x, u);
   Num pl = k1 * std::max(1., std::abs(l)), pu = k1 * std::max(1., std::abs(u));
   if( hl && hu ) { pl = std::min(pl, k2 * (u - l)); pu = std::min(pu, k2 * (u - l)); }
   // both corrections refer to the point before the correction; at most one of them is nonzero if k2 <= 1/2
   Num dl = hl ? std::max(0., l + pl - x) : 0, du = hu ? std::max(0., x - (u - pu)) : 0;
   return x + dl - du;
}
// solves A y = b (symmetric positive semidefinite), returns false if A is close to singular
static bool chol_solve(std::vector<Vec> A, Vec b, Vec& y)
{
   int n = (int)b.size();
   Num amax = 1e-300;
   for( int i = 0; i < n; ++i ) amax = std::max(amax, A[i][i]);
   for( int k = 0; k < n; ++k )
   {
      Num d = A[k][k];
      for( int j = 0; j < k; ++j ) d -= A[k][j] * A[k][j];
      if( !(d > 1e-9 * amax) ) return false;
      A[k][k] = std::sqrt(d);
      for( int i = k + 1; i < n; ++i )
      {
         Num v = A[i][k];
         for( int j = 0; j < k; ++j ) v -= A[i][j] * A[k][j];
         A[i][k] = v / A[k][k];
      }
   }
   y = b;
   for( int i = 0; i < n; ++i ) { for( int j = 0; j < i; ++j ) y[i] -= A[i][j] * y[j]; y[i] /= A[i][i]; }
   for( int i = n - 1; i >= 0; --i ) { for( int j = i + 1; j < n; ++j ) y[i] -= A[j][i] * y[j]; y[i] /= A[i][i]; }
   return true;
}
static void judge_first(Scn& s, const SolveRes& r)
{
   Ctx& c = s.c; Problem& P = s.P;
   if( c.iters.empty() || !c.iters[0].have || c.iters[0].mode != 0 ) { W->count("first.none"); return; }
   const IterRec& q = c.iters[0];
   std::string fvt = c.opts("fixed_variable_treatment", "make_parameter");
   bool par = fvt == "make_parameter" || fvt == "make_parameter_nodual";
   int nfree = 0, meq = 0, n = P.n, m = P.m;
   for( int i = 0; i < n; ++i ) nfree += !P.fixed(i);
   for( int j = 0; j < m; ++j ) meq += P.gl[j] == P.gu[j];
   if( nfree < meq || nfree == 0 ) { W->count("first.dof"); return; }
   Scaling sc = compute_scaling(c);
   if( !sc.exact || !(sc.df > 0) ) { W->count("first.scaling"); return; }
   bool ws = c.opt_is("warm_start_init_point", "yes");
   Num brf = c.optd("bound_relax_factor", 1e-8), cvt = c.optd("constr_viol_tol", 1e-4);
   auto rl = [&](Num b, int sgn) { return b + sgn * (brf > 0 ? std::min(cvt, brf * std::max(1., std::abs(b))) : 0.); };
   Num k1 = ws ? c.optd("warm_start_bound_push", c.optd("bound_push", 1e-2)) : c.optd("bound_push", 1e-2), k2 = ws ? c.optd("warm_start_bound_frac", c.optd("bound_frac", 1e-2)) : c.optd("bound_frac", 1e-2);
   Num s1 = ws ? c.optd("warm_start_slack_bound_push", c.optd("bound_push", 1e-2)) : c.optd("slack_bound_push", k1), s2 = ws ? c.optd("warm_start_slack_bound_frac", c.optd("bound_frac", 1e-2)) : c.optd("slack_bound_frac", k2);
   Num mu0 = c.optd("mu_init", 0.1);
   bool mub = !ws && c.opt_is("bound_mult_init_method", "mu-based");
   Num zi = c.optd("bound_mult_init_val", 1.);
   Num zmax = c.optd("warm_start_mult_init_max", 1e6), zmin = c.optd("warm_start_mult_bound_push", 1e-3);
   auto bad = [&](const std::string& cls, const std::string& msg) { W->violate("C16", cls, fmt("%s start: ", ws ? "warm" : "cold") + msg); };
   W->count(ws ? "first.warm" : "first.cold");
   // x
   Vec ezl(n, 0.), ezu(n, 0.);    // expected bound multipliers of the scaled problem
   std::vector<bool> in(n, true);
   for( int i = 0; i < n; ++i )
   {
      Num l = P.xl[i], u = P.xu[i];
      bool hl = l > -1e19, hu = u < 1e19;
      if( P.fixed(i) )
      {
         if( par ) { in[i] = false; if( q.x[i] != l ) bad("fixed", fmt("fixed variable x[%d] is %.17g in the first iterate, fixed at %.17g", i, q.x[i], l)); continue; }
         if( fvt == "make_constraint" ) { hl = hu = false; }
         else { Num e = std::max(1e-8, brf) * std::max(1., std::abs(l)); l -= e; u += e; }
      }
      Num d = sc.dx[i];
      if( d < 0 ) { W->count("first.scaling"); return; }
      Num ls = d * rl(l, -1), us = d * rl(u, 1);
      Num want = push(P.x0[i] * d, ls, hl, us, hu, k1, k2) / d;
      Num tolx = 1e-13 * (1 + std::abs(want) + (hl ? std::abs(l) : 0) + (hu ? std::abs(u) : 0) + std::abs(P.x0[i]));
      if( !feq(q.x[i], want, 0, tolx) ) bad("x", fmt("x[%d]=%.17g in the first iterate, starting point %.17g, bounds [%g,%g], documented projection %.17g", i, q.x[i], P.x0[i], P.xl[i], P.xu[i], want));
      Num xs = q.x[i] * d;
      for( int up = 0; up < 2; ++up )
      {
         if( up ? !hu : !hl ) continue;
         Num slack = up ? us - xs : xs - ls, e;
         if( ws ) e = std::max(zmin, zmax > 0 ? std::min(zmax, (up ? P.zu0[i] : P.zl0[i]) * sc.df / d) : (up ? P.zu0[i] : P.zl0[i]) * sc.df / d);
         else if( mub ) e = mu0 / slack;
         else e = zi;
         (up ? ezu : ezl)[i] = e;
         if( P.fixed(i) ) continue;
         if( mub && slack < 1e-7 ) continue;
         Num got = (up ? q.zu[i] : q.zl[i]) * sc.df / d;
         Num rt = mub ? 1e-9 + 1e-14 * (1 + std::abs(xs)) / slack : 1e-12;
         if( !feq(got, e, rt, 0) ) bad(up ? "zu" : "zl", fmt("multiplier of the %s bound of x[%d] is %.15g in the first iterate (scaled), expected %.15g", up ? "upper" : "lower", i, got, e));
      }
   }
   // with make_constraint, the multiplier of the constraint that fixes a variable continues from the given bound multipliers
   if( ws && fvt == "make_constraint" )
   {
      Num s0 = 0, dmin = 1, dmax = 1;
      for( Num d : sc.dx ) { dmin = std::min(dmin, d); dmax = std::max(dmax, d); }
      for( int i = 0; i < n; ++i ) if( P.fixed(i) ) s0 = std::max(s0, std::abs(P.zu0[i] - P.zl0[i]) * sc.df);
      if( dmin == 1 && dmax == 1 && c.optd("nlp_scaling_max_gradient", 100.) >= 1 && c.optd("nlp_scaling_constr_target_gradient", 0.) == 0. && (!(zmax > 0) || s0 < zmax) )
         for( int i = 0; i < n; ++i ) if( P.fixed(i) && !feq(q.zl[i] - q.zu[i], P.zl0[i] - P.zu0[i], 1e-12, 0) )
            bad("fixed-mult", fmt("multipliers zl=%g zu=%g of the fixed variable x[%d] in the first iterate, starting values were zl=%g zu=%g", q.zl[i], q.zu[i], i, P.zl0[i], P.zu0[i]));
   }
   // slacks and the multipliers of the constraints
   std::vector<Vec> J(m, Vec(n, 0.));
   Vec es(m, 0.), evl(m, 0.), evu(m, 0.), gv(m, 0.);
   Num viol = 0;
   bool ok = true;
   for( int j = 0; j < m; ++j )
   {
      gv[j] = P.g[j].value(q.x.data());
      P.g[j].grad(q.x.data(), J[j].data(), sc.dg[j]);
      for( int i = 0; i < n; ++i ) { J[j][i] /= sc.dx[i]; ok = ok && std::isfinite(J[j][i]); }
      ok = ok && std::isfinite(gv[j]) && sc.dg[j] > 0;
      if( P.gl[j] == P.gu[j] ) { viol = std::max(viol, std::abs(gv[j] - P.gl[j]) * sc.dg[j]); continue; }
      bool hl = P.gl[j] > -1e19, hu = P.gu[j] < 1e19;
      Num ds = gv[j] * sc.dg[j], l = rl(P.gl[j], -1) * sc.dg[j], u = rl(P.gu[j], 1) * sc.dg[j];
      // a warm start takes the slacks from the constraint values at the starting point, before x is moved
      if( ws ) ds = 0;
      es[j] = push(ds, l, hl, u, hu, s1, s2);
      viol = std::max(viol, std::abs(gv[j] * sc.dg[j] - es[j]));
      evl[j] = hl ? (mub ? mu0 / (es[j] - l) : zi) : 0;
      evu[j] = hu ? (mub ? mu0 / (u - es[j]) : zi) : 0;
   }
   if( !ok ) { W->count("first.nonfinite"); return; }
   if( fvt == "make_constraint" && nfree < n ) { W->count("first.make_constraint"); return; }
   if( ws )
   {
      // constraint values at the starting point, with bounds of x not yet enforced
      Vec x0 = P.x0;
      for( int i = 0; i < n; ++i ) if( P.fixed(i) && par ) x0[i] = P.xl[i];
      viol = 0;
      bool f = true;
      for( int j = 0; j < m; ++j )
      {
         if( P.gl[j] == P.gu[j] ) { viol = std::max(viol, std::abs(gv[j] - P.gl[j]) * sc.dg[j]); continue; }
         Num ds = P.g[j].value(x0.data()) * sc.dg[j];
         f = f && std::isfinite(ds);
         es[j] = push(ds, rl(P.gl[j], -1) * sc.dg[j], P.gl[j] > -1e19, rl(P.gu[j], 1) * sc.dg[j], P.gu[j] < 1e19, s1, s2);
         viol = std::max(viol, std::abs(gv[j] * sc.dg[j] - es[j]));
      }
      if( !f ) { W->count("first.nonfinite"); return; }
   }
   Num gm = 1; for( int j = 0; j < m; ++j ) gm = std::max(gm, std::max(std::abs(gv[j] * sc.dg[j]), std::abs(es[j])));
   for( int j = 0; j < m; ++j ) if( P.gl[j] == P.gu[j] ) gm = std::max(gm, std::abs(P.gl[j] * sc.dg[j]));
   if( !feq(q.inf_pr, viol, 1e-9, 1e-10 * gm) ) bad("slack", fmt("infeasibility %.15g at the first iterate, expected %.15g if the slacks are initialised as documented", q.inf_pr, viol));
   if( !c.opt_is("mu_strategy", "adaptive") && !c.opt_is("hessian_approximation", "limited-memory") && !c.opt.count("mu_target") && !feq(q.mu, mu0, 1e-14, 0) ) bad("mu", fmt("barrier parameter %.15g at the first iterate, mu_init=%g", q.mu, mu0));
   Vec got(m);
   for( int j = 0; j < m; ++j ) got[j] = q.lam[j] * sc.df / sc.dg[j];
   int nx = 0; for( int i = 0; i < n; ++i ) nx += in[i];
   if( ws )
   {
      for( int j = 0; j < m; ++j )
      {
         Num e = P.lam0[j] * sc.df / sc.dg[j];
         if( zmax > 0 ) e = std::max(-zmax, std::min(zmax, e));
         if( !feq(got[j], e, 1e-12, 0) ) bad("lambda", fmt("multiplier of constraint %d is %.15g in the first iterate (scaled), expected %.15g", j, got[j], e));
      }
      return;
   }
   if( m == 0 ) return;
   Num cmax = c.optd("constr_mult_init_max", 1e3);
   bool zero = true; Num amax = 0;
   for( Num v : got ) { zero = zero && v == 0.; amax = std::max(amax, std::abs(v)); }
   if( nx == meq || cmax <= 0 )
   {
      if( !zero ) bad("lambda-zero", fmt("constraint multipliers up to %g in the first iterate, expected zero (%s)", amax, nx == meq ? "square problem" : "constr_mult_init_max=0"));
      return;
   }
   if( amax > cmax * (1 + 1e-9) ) bad("lambda-max", fmt("constraint multiplier %g in the first iterate exceeds constr_mult_init_max=%g", amax, cmax));
   if( P.m && c.opt_is("limited_memory_aug_solver", "extended") ) { W->count("first.lambda.skip"); return; }
   // least-square estimates: normal equations of  min |grad f + J^T y - zl + zu|^2 + |y_d + vl - vu|^2
   Vec rx(n, 0.);
   P.f.grad(q.x.data(), rx.data(), sc.df);
   for( int i = 0; i < n; ++i ) { rx[i] = rx[i] / sc.dx[i] - ezl[i] + ezu[i]; if( !in[i] ) rx[i] = 0; if( !std::isfinite(rx[i]) ) return; }
   std::vector<Vec> A(m, Vec(m, 0.)); Vec b(m, 0.);
   for( int j = 0; j < m; ++j )
   {
      bool eq = P.gl[j] == P.gu[j];
      for( int i = 0; i < n; ++i ) if( in[i] ) b[j] -= J[j][i] * rx[i];
      if( !eq ) b[j] -= evl[j] - evu[j];
      for( int k = 0; k < m; ++k ) for( int i = 0; i < n; ++i ) if( in[i] ) A[j][k] += J[j][i] * J[k][i];
      if( !eq ) A[j][j] += 1.;
   }
   Vec y;
   if( !chol_solve(A, b, y) ) { W->count("first.lambda.singular"); return; }
   Num ymax = 0;
   for( Num v : y ) ymax = std::max(ymax, std::abs(v));
   if( ymax > cmax * (1 - 1e-6) && zero ) { W->count("first.lambda.toolarge"); return; }
   W->count("first.lambda.ls");
   for( int j = 0; j < m; ++j )
      if( !feq(got[j], y[j], 1e-5, 1e-6 * (1 + ymax)) ) { bad("lambda-ls", fmt("multiplier of constraint %d is %.12g in the first iterate (scaled), least-square estimate %.12g (constr_mult_init_max=%g)", j, got[j], y[j], cmax)); break; }
}
static void run(const Plan& p)
{
   int mode = (int)p.geti("mode", 0);
   Rng r((uint64_t)p.geti("startseed", 1) * 77 + 5);
   if( mode == 0 )
   {
      Plan q = p; q.add("flag inspect");
      Scn s(q, "S");
      randomize_start(s.P, r, 0);
      SolveRes a = s.solve();
      judge_first(s, a);
      if( p.geti("second", 0) )
      {
         // another start with the same application
         randomize_start(s.P, r, 1);
         s.c.iters.clear(); s.c.fins.clear();
         a = s.solve(r.p(0.5));
         judge_first(s, a);
      }
      return;
   }
   bool hard = false;
   for( auto i : p.all("opt") ) hard = hard || (i->s(0) == "limited_memory_max_history" && i->s(1) == "0") || (i->s(0) == "fixed_variable_treatment" && i->s(1) == "make_constraint") || (i->s(0) == "hessian_approximation" && i->s(1) == "limited-memory");
   Num ref; int nit;
   Vec x, lam, zl, zu;
   {
      Scn s(p, "R");
      SolveRes a = s.solve();
      if( a.status != 0 || !s.fin() || hard ) { W->count("not.judged"); return; }
      ref = s.fin()->obj; nit = (int)s.c.iters.size();
      x = s.fin()->x; lam = s.fin()->lam; zl = s.fin()->zl; zu = s.fin()->zu;
   }
   Num loose = 1e-8;
   for( auto i : p.all("opt") ) if( i->s(0) == "tol" ) loose = std::max(loose, strtod(i->s(1).c_str(), NULL));
   auto near = [&](const FinRec& F, int st) { Num t = 1e-3 + 1e3 * loose + (st == 1 ? 0.05 : 0); return feq(F.obj, ref, t, t); };
   int k = (int)p.geti("restarts", 1);
   if( mode == 2 )
   {
      // restart at the solution
      Plan q = p;
      q.add("opt warm_start_init_point yes"); q.add("opt warm_start_bound_push 1e-9"); q.add("opt warm_start_bound_frac 1e-9"); q.add("opt warm_start_slack_bound_push 1e-9"); q.add("opt warm_start_slack_bound_frac 1e-9");
      q.add("opt warm_start_mult_bound_push 1e-9"); q.add("opt mu_init 1e-9");
      Scn s(q, "W");
      s.P.x0 = x; s.P.lam0 = lam; s.P.zl0 = zl; s.P.zu0 = zu;
      SolveRes a = s.solve();
      if( a.status != 0 && a.status != 1 ) { W->violate("C16", "at-solution", fmt("warm start at the solution: %s (%zu iterations)", st_name(a.status), s.c.iters.size())); return; }
      if( !near(*s.fin(), a.status) ) W->violate("C16", "at-solution-value", fmt("warm start at the solution: objective %.12g, optimal is %.12g", s.fin()->obj, ref));
      W->count("warm.iters", (long)s.c.iters.size());
      if( (int)s.c.iters.size() > std::max(nit, 8) + 2 ) W->violate("C16", "at-solution-iters", fmt("warm start at the solution needs %zu iterations, the cold start %d", s.c.iters.size() - 1, nit - 1));
      return;
   }
   // stop anywhere, restart from what was reported
   std::unique_ptr<Scn> s(new Scn(p, "S"));
   bool first = true;
   for( int i = 0; i <= k; ++i )
   {
      bool last = i == k;
      s->c.faults.clear();
      if( !last ) { Fault f = Fault(); f.site = S_ICB; f.kind = "stop"; f.from = f.to = s->c.occ[S_ICB] + r.in(1, nit + 2); s->c.faults.push_back(f); }
      s->c.iters.clear(); s->c.fins.clear();
      SolveRes a = s->solve(!first && r.p(0.5));
      first = false;
      if( !s->fin() ) { W->violate("C16", "restart", fmt("run %d after a stop: %s %s without a final point", i, st_name(a.status), a.escaped.c_str())); return; }
      if( a.status == 0 || a.status == 1 || (a.status == 3 && near(*s->fin(), 1)) )   // no progress possible at the solution
      {
         W->count("restart.solved");
         if( !near(*s->fin(), a.status) ) W->violate("C16", "restart-value", fmt("run %d after a stop: objective %.12g, optimal is %.12g (%s)", i, s->fin()->obj, ref, st_name(a.status)));
      }
      else if( std::any_of(s->c.iters.begin(), s->c.iters.end(), [](const IterRec& q) { return !(std::abs(q.obj) < 1e30); }) ) { W->count("restart.overflow"); return; }   // exponentials out of range
      else if( a.status != 5 || last ) { W->violate("C16", "restart", fmt("run %d after a stop: %s (%zu iterations)", i, st_name(a.status), s->c.iters.size())); return; }
      if( last ) break;
      FinRec F = *s->fin();
      bool fresh = r.p(0.3);
      if( fresh ) { s.reset(new Scn(p, fmt("S%d", i))); first = true; }
      s->P.x0 = F.x; s->P.lam0 = F.lam; s->P.zl0 = F.zl; s->P.zu0 = F.zu;
      if( r.p(0.6) )
      {
         if( !s->s ) s->open();
         s->s->set_option("warm_start_init_point", r.p(0.8) ? "yes" : "no");
      }
   }
}
static RegProp reg("C16", "stop and restart", gen, run);
}
