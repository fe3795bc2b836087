// Independent recomputation of scaling factors and KKT residuals from the user's problem and the point returned to the user.
#include "sim.hpp"
namespace sim
{
Scaling compute_scaling(const Ctx& c)
{
   const Problem& P = *c.P;
   Scaling s;
   s.have = true;
   s.dx.assign(P.n, 1.); s.dg.assign(P.m, 1.);
   Num osf = c.optd("obj_scaling_factor", 1.);
   std::string me = c.opts("nlp_scaling_method", "gradient-based");
   if( me == "user-scaling" )
   {
      s.df = P.os;
      if( P.use_xs ) s.dx = P.xs;
      if( P.use_gs ) s.dg = P.gs;
   }
   else if( me == "gradient-based" )
   {
      Vec x = P.x0;
      std::string fvt = c.opts("fixed_variable_treatment", "make_parameter");
      bool par = fvt == "make_parameter" || fvt == "make_parameter_nodual";
      int nfree = 0, meq = 0;
      for( int i = 0; i < P.n; ++i ) nfree += !P.fixed(i);
      for( int j = 0; j < P.m; ++j ) meq += P.gl[j] == P.gu[j];
      if( par && nfree < meq && nfree > 0 ) par = false;      // bounds of fixed variables are relaxed in this case
      if( par ) for( int i = 0; i < P.n; ++i ) if( P.fixed(i) ) x[i] = P.xl[i];
      Num mg = c.optd("nlp_scaling_max_gradient", 100.), mn = c.optd("nlp_scaling_min_value", 1e-8);
      Vec g(P.n, 0.);
      P.f.grad(x.data(), g.data(), 1.);
      Num a = 0;
      for( int i = 0; i < P.n; ++i ) if( !(par && P.fixed(i)) ) { if( !std::isfinite(g[i]) ) s.exact = false; a = std::max(a, std::abs(g[i])); }
      Num tgt = c.optd("nlp_scaling_obj_target_gradient", 0.), ctgt = c.optd("nlp_scaling_constr_target_gradient", 0.);
      if( tgt == 0. ) { if( a > mg ) s.df = mg / a; }
      else if( a > 0. ) s.df = tgt / a;
      s.df = std::max(s.df, mn);
      for( int eq = 0; eq < 2; ++eq )
      {
         Num am = 0;
         Vec rmax(P.m, 0.);
         for( int j = 0; j < P.m; ++j )
            if( (P.gl[j] == P.gu[j]) == (eq == 1) )
            {
               Vec q(P.n, 0.);
               P.g[j].grad(x.data(), q.data(), 1.);
               for( int i = 0; i < P.n; ++i ) if( !(par && P.fixed(i)) ) { if( !std::isfinite(q[i]) ) s.exact = false; rmax[j] = std::max(rmax[j], std::abs(q[i])); }
               am = std::max(am, rmax[j]);
            }
         for( int j = 0; j < P.m; ++j )
            if( (P.gl[j] == P.gu[j]) == (eq == 1) )
            {
               if( ctgt > 0. ) s.dg[j] = am <= std::numeric_limits<Num>::min() ? 1. : std::max(mn, ctgt / am);
               else if( am > mg ) s.dg[j] = std::max(mn, std::min(1., mg / std::max(rmax[j], std::numeric_limits<Num>::min())));
            }
      }
   }
   else if( me != "none" ) s.exact = false;
   s.df *= osf;
   return s;
}
Kkt kkt(const Ctx& c, const Problem& P, const Vec& x, const Vec& lam, const Vec& zl, const Vec& zu, const Scaling& sc, Num mut, Num otol, Num dtol)
{
   Kkt k;
   memset(&k, 0, sizeof(Num) * 12);
   std::string fvt = c.opts("fixed_variable_treatment", "make_parameter");
   bool par = fvt == "make_parameter" || fvt == "make_parameter_nodual";
   k.obj = P.f.value(x.data());
   k.grad.assign(P.n, 0.);
   P.f.grad(x.data(), k.grad.data(), 1.);
   Num brf = c.optd("bound_relax_factor", 1e-8);
   Num S = 0, SC = 0; int cnt = 0, cntc = 0;
   Num sgn = sc.df < 0 ? -1. : 1.;   // negative objective scaling: maximisation
   Num k_sd = 0, k_sc = 0;
   // complementarity is defined with the slack variables of the inequalities, which agree with the constraint values only approximately
   auto gap = [](Num b) { return 1e-5 * std::max(1., std::abs(b)); };
   // s_d, needed for the part of a constraint multiplier that may be dual infeasibility of the slack
   {
      Num S0 = 0; int c0 = 0;
      for( int j = 0; j < P.m; ++j )
      {
         Num ls = std::abs(lam[j] * sc.df / sc.dg[j]);
         S0 += ls; ++c0;
         if( P.gl[j] != P.gu[j] ) { S0 += ls; c0 += (P.gl[j] > -1e19) + (P.gu[j] < 1e19); }
      }
      for( int i = 0; i < P.n; ++i )
         if( !P.fixed(i) )
         {
            if( P.xl[i] > -1e19 ) { S0 += std::abs(zl[i] * sc.df / sc.dx[i]); ++c0; }
            if( P.xu[i] < 1e19 ) { S0 += std::abs(zu[i] * sc.df / sc.dx[i]); ++c0; }
         }
      Num sm = c.optd("s_max", 100.);
      k.scale_d = c0 ? std::max(sm, S0 / c0) / sm : 1.;
   }
   for( int j = 0; j < P.m; ++j )
   {
      Num v = P.g[j].value(x.data());
      P.g[j].grad(x.data(), k.grad.data(), lam[j]);
      Num ls = std::abs(lam[j] * sc.df / sc.dg[j]);
      Num viol = 0;
      if( P.gl[j] > -1e19 ) viol = std::max(viol, P.gl[j] - v);
      if( P.gu[j] < 1e19 ) viol = std::max(viol, v - P.gu[j]);
      if( !(viol == viol) || v != v ) viol = std::numeric_limits<Num>::infinity();
      k.constr_viol = std::max(k.constr_viol, viol);
      k.s_constr = std::max(k.s_constr, viol * sc.dg[j]);
      S += ls; ++cnt;
      if( P.gl[j] != P.gu[j] )
      {
         S += ls; SC += ls;
         Num l = lam[j] * sgn;
         Num lsl = std::min(dtol, sc.exact && sc.df != 0 ? 2 * otol * k.scale_d * sc.dg[j] / std::abs(sc.df) : dtol);
         Num lred = std::max(0., std::abs(l) - lsl);
         if( P.gl[j] > -1e19 ) { ++cnt; ++cntc; }
         if( P.gu[j] < 1e19 ) { ++cnt; ++cntc; }
         // l > 0: pushes against the upper side, l < 0 against the lower side
         if( l > 0 )
         {
            if( P.gu[j] >= 1e19 ) { k.zneg = std::max(k.zneg, l); k_sd = std::max(k_sd, l * std::abs(sc.df) / sc.dg[j]); }
            else
            {
               Num sl = std::max(0., P.gu[j] - v - gap(P.gu[j]));
               k.compl_inf = std::max(k.compl_inf, lred * sl - mut);
               k_sc = std::max(k_sc, lred * sl * std::abs(sc.df) - mut);
            }
         }
         else if( l < 0 )
         {
            if( P.gl[j] <= -1e19 ) { k.zneg = std::max(k.zneg, -l); k_sd = std::max(k_sd, -l * std::abs(sc.df) / sc.dg[j]); }
            else
            {
               Num sl = std::max(0., v - P.gl[j] - gap(P.gl[j]));
               k.compl_inf = std::max(k.compl_inf, lred * sl - mut);
               k_sc = std::max(k_sc, lred * sl * std::abs(sc.df) - mut);
            }
         }
      }
   }
   for( int i = 0; i < P.n; ++i )
   {
      k.grad[i] += zu[i] - zl[i];
      if( P.xl[i] > -1e19 ) k.bound_viol = std::max(k.bound_viol, P.xl[i] - x[i]);
      if( P.xu[i] < 1e19 ) k.bound_viol = std::max(k.bound_viol, x[i] - P.xu[i]);
      if( P.fixed(i) ) continue;
      Num zls = zl[i] * sgn, zus = zu[i] * sgn;
      Num gd = std::abs(k.grad[i]);
      if( gd != gd ) gd = std::numeric_limits<Num>::infinity();
      k.dual_inf = std::max(k.dual_inf, gd);
      k.s_dual = std::max(k.s_dual, gd * std::abs(sc.df) * 1. / sc.dx[i]);
      if( P.xl[i] > -1e19 )
      {
         S += std::abs(zl[i] * sc.df / sc.dx[i]); SC += std::abs(zl[i] * sc.df / sc.dx[i]); ++cnt; ++cntc;
         Num sl = std::max(0., x[i] - P.xl[i]);
         k.compl_inf = std::max(k.compl_inf, std::abs(zls) * sl - mut);
         k_sc = std::max(k_sc, std::abs(zls * sc.df) * sl - mut);
         k.zneg = std::max(k.zneg, -zls);
      }
      else k.zneg = std::max(k.zneg, std::abs(zl[i]));
      if( P.xu[i] < 1e19 )
      {
         S += std::abs(zu[i] * sc.df / sc.dx[i]); SC += std::abs(zu[i] * sc.df / sc.dx[i]); ++cnt; ++cntc;
         Num sl = std::max(0., P.xu[i] - x[i]);
         k.compl_inf = std::max(k.compl_inf, std::abs(zus) * sl - mut);
         k_sc = std::max(k_sc, std::abs(zus * sc.df) * sl - mut);
         k.zneg = std::max(k.zneg, -zus);
      }
      else k.zneg = std::max(k.zneg, std::abs(zu[i]));
   }
   (void) par; (void) brf;
   Num smax = c.optd("s_max", 100.);
   k.scale_d = cnt ? std::max(smax, S / cnt) / smax : 1.;
   k.scale_c = cntc ? std::max(smax, SC / cntc) / smax : 1.;
   k.s_dual = std::max(k.s_dual, k_sd);
   k.s_compl = k_sc;
   k.s_err = std::max(std::max(k.s_dual / k.scale_d, k.s_constr), k.s_compl / k.scale_c);
   return k;
}
}
