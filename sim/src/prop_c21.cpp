// C21: sIPOPT: the sensitivity step, the sensitivity matrix and the reduced Hessian are those of the linearised optimality
// conditions at the solution; the solution itself is reported exactly once and is not changed by the sensitivity computation.
#include "common.hpp"
#include "IpAlgTypes.hpp"
#include "IpIpoptData.hpp"
#include "IpIpoptCalculatedQuantities.hpp"
#include "IpDenseVector.hpp"
#include "IpExpansionMatrix.hpp"
#include "SensApplication.hpp"
#include "SensRegOp.hpp"
namespace sim
{
typedef long double LD;
static Plan gen(uint64_t seed, bool)
{
   Rng r(seed * 1000003 + 2101);
   Plan p;
   GenCfg g; g.families = { "convex", "convex", "boundqp", "freeeq", "noconstr", "hs071", "nonconvex", "wb", "circle", "lp", "hs015", "rosenbrock", "hs006" };
   gen_problem(p, r, g);
   auto opt = [&](const char* n, std::vector<std::string> v, Num pr) { if( r.p(pr) ) p.add(std::string("opt ") + n + " " + r.pick(v)); };
   p.add(fmt("par %d %d", r.in(1, 3), r.in(1, 1000000)));
   p.add(fmt("delta %.17g", r.p(0.5) ? r.uni(-0.1, 0.1) : r.p(0.6) ? r.uni(-2, 2) : 0.));
   bool flagonly = r.p(0.3);
   if( flagonly ) p.add("flagonly 1");
   int what = r.p(0.75) ? 1 : r.p(0.6) ? 2 : 3;    // 1 sensitivity, 2 reduced Hessian, 3 both
   if( what & 1 )
   {
      p.add("sens run_sens yes");
      p.add(fmt("sens n_sens_steps %d", r.p(0.65) ? 1 : r.p(0.9) ? r.in(2, 4) : 0));
      if( !flagonly && r.p(0.45) ) p.add("sens compute_dsdp yes");
      if( r.p(0.3) ) { p.add("sens sens_boundcheck yes"); if( r.p(0.5) ) p.add(std::string("sens sens_bound_eps ") + r.pick(std::vector<std::string>{ "1e-6", "1e-2", "0.1" })); }
      if( r.p(0.3) ) p.add("sens sens_kkt_residuals no");
      if( r.p(0.1) ) p.add("sens sens_allow_inexact_backsolve no");
      if( r.p(0.05) ) p.add(std::string("sens sens_max_pdpert ") + r.pick(std::vector<std::string>{ "1e-10", "1e10" }));
   }
   if( what & 2 ) { p.add("sens compute_red_hessian yes"); if( r.p(0.5) ) p.add("sens rh_eigendecomp yes"); p.add(fmt("rhseed %d", r.in(1, 1000000))); p.add("flag console 1"); }
   if( r.p(0.25) ) { p.it[0].a.push_back("uscal=1"); p.add("opt nlp_scaling_method user-scaling"); } else opt("nlp_scaling_method", { "none" }, 0.2);
   gen_options(p, r, { "max_iter", "start_with_resto", "nlp_scaling_method", "honor_original_bounds", "replace_bounds", "hessian_approximation", "warm_start_init_point", "line_search_method", "dependency_detector", "nlp_scaling_obj_target_gradient", "nlp_scaling_constr_target_gradient" }, r.p(0.5) ? 0. : 0.3);
   if( r.p(0.06) ) { p.add("opt hessian_approximation limited-memory"); p.add("opt max_iter 100"); }
   if( r.p(0.04) ) p.add(std::string("opt line_search_method cg-penalty"));
   p.add("flag inspect");
   if( r.p(0.15) ) gen_limits(p, r);
   if( r.p(0.12) ) p.add(fmt("fault icb stop %d", r.in(1, 12)));
   if( r.p(0.1) ) gen_mumps_faults(p, r, 2);
   if( r.p(0.06) ) gen_eval_faults(p, r, 2, { "false", "nan", "inf" }, { "f", "g", "gf", "jg", "h" }, 40);
   return p;
}
static Term mono(Num a, int i, int j = -1) { Term t = {1, {0, 0, 0, 0}, {0, 0, 0, 0}, a, 0}; t.v[0] = i; t.e[0] = 1; if( j >= 0 ) { t.v[1] = j; t.e[1] = 1; } return t; }
// extends the problem by parameters: variables that are fixed by equality constraints
struct Par { std::vector<int> var, row; Vec p0; std::vector<Vec> val; };
static Par extend(Problem& P, const Plan& p, Ctx& c)
{
   Par q;
   Rng r(p.find("par")->l(1) * 31 + 5);
   int np = (int)p.find("par")->l(0), n0 = P.n, m0 = P.m;
   std::vector<int> order;
   for( int j = 0; j < np; ++j )
   {
      q.var.push_back(n0 + j);
      q.p0.push_back(std::round(r.uni(-2, 2) * 16) / 16);
      P.xl.push_back(-2e19); P.xu.push_back(2e19);
      P.x0.push_back(q.p0[j] + r.uni(-1, 1)); P.xint.push_back(q.p0[j]);
      if( P.zl0.size() == (size_t)P.n + j ) { P.zl0.push_back(1.); P.zu0.push_back(1.); }
      if( P.xs.size() ) P.xs.push_back(r.pick(std::vector<Num>{ 1., 1., 0.5, 2., 10. }));
   }
   P.n = n0 + np;
   std::swap(q.var[0], q.var[r.in(0, np - 1)]);
   for( int j = 0; j < np; ++j )
   {
      int i = r.in(0, n0 - 1);
      if( r.p(0.8) ) P.f.t.push_back(mono(std::round(r.uni(-2, 2) * 16) / 16 + 0.03125, i, q.var[j]));
      if( m0 && r.p(0.6) )
      {
         int k = r.in(0, m0 - 1);
         // shift: the constraint keeps its value at p0
         Num a = std::round(r.uni(-2, 2) * 16) / 16;
         P.g[k].t.push_back(mono(a, q.var[j]));
         P.g[k].t.push_back(Term{0, {0, 0, 0, 0}, {0, 0, 0, 0}, -a * q.p0[j], 0});
      }
   }
   for( int j = 0; j < np; ++j )
   {
      int lo = j ? q.row[j - 1] + 1 : 0, at = r.in(lo, (int)P.g.size());
      Func f; f.t.push_back(mono(1., q.var[j]));
      P.g.insert(P.g.begin() + at, f);
      P.gl.insert(P.gl.begin() + at, q.p0[j]); P.gu.insert(P.gu.begin() + at, q.p0[j]);
      if( P.lam0.size() ) P.lam0.insert(P.lam0.begin() + at, 0.);
      if( P.use_gs || P.gs.size() ) P.gs.insert(P.gs.begin() + at, r.pick(std::vector<Num>{ 1., 1., 0.5, 2., 10. }));
      q.row.push_back(at);
   }
   P.finish(r.p(0.3), r.p(0.3), r);
   // metadata
   c.use_meta = true;
   std::vector<Index> ic(P.m, 0);
   for( int j = 0; j < np; ++j ) ic[q.row[j]] = p.geti("flagonly", 0) ? 1 : j + 1;
   c.cmeta.i["sens_init_constr"] = ic;
   int steps = 1;
   for( auto i : p.all("sens") ) if( i->s(0) == "n_sens_steps" ) steps = (int)i->l(1);
   Num d = p.getd("delta", 0.1);
   for( int k = 1; k <= std::max(1, steps); ++k )
   {
      std::vector<Index> si(P.n, 0);
      Vec sv(P.n, 0.), vals;
      for( int j = 0; j < np; ++j ) { si[q.var[j]] = j + 1; sv[q.var[j]] = q.p0[j] + d * r.uni(-1, 1) * k; vals.push_back(sv[q.var[j]]); }
      c.vmeta.i[fmt("sens_state_%d", k)] = si;
      c.vmeta.d[fmt("sens_state_value_%d", k)] = sv;
      q.val.push_back(vals);
   }
   return q;
}
static std::vector<int> red_hess_vars(const Problem& P, const Plan& p, const Par& q, Ctx& c, bool par)
{
   std::vector<int> v;
   const Item* i = p.find("rhseed");
   if( !i ) return v;
   Rng r(i->l(0) * 17 + 3);
   for( int k = 0; k < P.n; ++k ) if( !(par && P.fixed(k)) && r.p(0.5) && (int)v.size() < 4 && std::find(q.var.begin(), q.var.end(), k) == q.var.end() ) v.push_back(k);
   if( v.empty() ) v.push_back(q.var[0]);
   for( size_t k = v.size(); k > 1; --k ) std::swap(v[k - 1], v[r.u64() % k]);
   std::vector<Index> rh(P.n, 0);
   for( size_t k = 0; k < v.size(); ++k ) rh[v[k]] = (Index)k + 1;
   c.vmeta.i["red_hessian"] = rh;
   return v;
}
static bool lu(std::vector<std::vector<LD> > A, std::vector<LD> b, std::vector<LD>& x)
{
   size_t n = b.size();
   // row equilibration
   for( size_t i = 0; i < n; ++i ) { LD m = 0; for( size_t j = 0; j < n; ++j ) m = std::max(m, std::abs(A[i][j])); if( !(m > 0) ) return false; for( size_t j = 0; j < n; ++j ) A[i][j] /= m; b[i] /= m; }
   for( size_t k = 0; k < n; ++k )
   {
      size_t pv = k;
      for( size_t i = k + 1; i < n; ++i ) if( std::abs(A[i][k]) > std::abs(A[pv][k]) ) pv = i;
      if( !(std::abs(A[pv][k]) > 1e-16L) ) return false;
      std::swap(A[k], A[pv]); std::swap(b[k], b[pv]);
      for( size_t i = k + 1; i < n; ++i ) if( A[i][k] != 0 )
      {
         LD f = A[i][k] / A[k][k];
         for( size_t j = k; j < n; ++j ) A[i][j] -= f * A[k][j];
         b[i] -= f * b[k];
      }
   }
   x.assign(n, 0);
   for( size_t k = n; k-- > 0; ) { LD v = b[k]; for( size_t j = k + 1; j < n; ++j ) v -= A[k][j] * x[j]; x[k] = v / A[k][k]; }
   return true;
}
static Vec values(const Ipopt::SmartPtr<const Ipopt::Vector>& v)
{
   const Ipopt::DenseVector* d = dynamic_cast<const Ipopt::DenseVector*>(GetRawPtr(v));
   if( !d ) return Vec();
   const Num* e = d->ExpandedValues();
   return Vec(e, e + d->Dim());
}
// the linearised optimality conditions of the scaled problem, with slack variables for the inequalities
struct Lin
{
   bool ok = false;
   int nf, nd, nc;
   std::vector<int> fx, ceq, cin, bl, bu, dl, du;      // free variables, rows, and indices of bounded variables/slacks
   Scaling sc;
   Vec x, s, yc, yd, zl, zu, vl, vu, sxl, sxu, ssl, ssu;
   Vec rx, rs, rc, rd, rzl, rzu, rvl, rvu;             // residuals
   Vec ufl, fx0;
   std::vector<std::vector<LD> > K[2];                 // with the Hessian at the last and at the next to last iterate
   Num pert = 0;
   int off[9];
};
static void assemble(Lin& L, const Scn& S, Ctx& c, const Vec& xw, const Vec& lamw, int which)
{
   const Problem& P = S.P;
   int N = L.off[8];
   auto& K = L.K[which];
   K.assign(N, std::vector<LD>(N, 0));
   std::map<std::pair<int, int>, Num> H;
   P.f.hess(xw.data(), L.sc.df, H);
   for( int j = 0; j < P.m; ++j ) P.g[j].hess(xw.data(), lamw[j] * L.sc.df, H);
   std::vector<int> pos(P.n, -1);
   for( int k = 0; k < L.nf; ++k ) pos[L.fx[k]] = k;
   for( auto& e : H )
   {
      int i = e.first.first, j = e.first.second;
      if( pos[i] < 0 || pos[j] < 0 ) continue;
      LD v = (LD)e.second / L.sc.dx[i] / L.sc.dx[j];
      K[pos[i]][pos[j]] += v;
      if( i != j ) K[pos[j]][pos[i]] += v;
   }
   const int *o = L.off;
   Vec xf = L.ufl;
   auto jac = [&](int row, int r0, bool eq)
   {
      Vec g(P.n, 0.);
      P.g[row].grad(xf.data(), g.data(), L.sc.dg[row]);
      for( int k = 0; k < L.nf; ++k )
      {
         LD v = (LD)g[L.fx[k]] / L.sc.dx[L.fx[k]];
         K[r0][k] = v; K[k][r0] = v;
      }
      (void)eq;
   };
   for( int k = 0; k < L.nc; ++k ) jac(L.ceq[k], o[2] + k, true);
   for( int k = 0; k < L.nd; ++k )
   {
      jac(L.cin[k], o[3] + k, false);
      K[o[1] + k][o[3] + k] = -1; K[o[3] + k][o[1] + k] = -1;
   }
   for( size_t k = 0; k < L.bl.size(); ++k ) { int r = o[4] + (int)k; K[L.bl[k]][r] = -1; K[r][L.bl[k]] = L.zl[k]; K[r][r] = L.sxl[k]; }
   for( size_t k = 0; k < L.bu.size(); ++k ) { int r = o[5] + (int)k; K[L.bu[k]][r] = 1; K[r][L.bu[k]] = -L.zu[k]; K[r][r] = L.sxu[k]; }
   for( size_t k = 0; k < L.dl.size(); ++k ) { int r = o[6] + (int)k; K[o[1] + L.dl[k]][r] = -1; K[r][o[1] + L.dl[k]] = L.vl[k]; K[r][r] = L.ssl[k]; }
   for( size_t k = 0; k < L.du.size(); ++k ) { int r = o[7] + (int)k; K[o[1] + L.du[k]][r] = 1; K[r][o[1] + L.du[k]] = -L.vu[k]; K[r][r] = L.ssu[k]; }
   (void)c;
}
static void linearise(Lin& L, Scn& S, const Ipopt::IpoptData* d, Ipopt::IpoptCalculatedQuantities* cq)
{
   Ctx& c = S.c; const Problem& P = S.P;
   std::string fvt = c.opts("fixed_variable_treatment", "make_parameter");
   bool par = fvt == "make_parameter" || fvt == "make_parameter_nodual", relax = fvt == "relax_bounds";
   L.sc = compute_scaling(c);
   if( !L.sc.exact || !(L.sc.df > 0) ) return;
   for( Num v : L.sc.dx ) if( !(v > 0) ) return;
   int nfree = 0, meq = 0;
   for( int i = 0; i < P.n; ++i ) nfree += !P.fixed(i);
   for( int j = 0; j < P.m; ++j ) meq += P.gl[j] == P.gu[j];
   if( nfree < meq ) return;
   if( nfree < P.n && !par && !relax ) return;
   for( int i = 0; i < P.n; ++i ) if( !(par && P.fixed(i)) )
   {
      if( P.xl[i] > -1e19 ) L.bl.push_back((int)L.fx.size());
      if( P.xu[i] < 1e19 ) L.bu.push_back((int)L.fx.size());
      L.fx.push_back(i);
   }
   for( int j = 0; j < P.m; ++j )
   {
      if( P.gl[j] == P.gu[j] ) { L.ceq.push_back(j); continue; }
      if( P.gl[j] > -1e19 ) L.dl.push_back((int)L.cin.size());
      if( P.gu[j] < 1e19 ) L.du.push_back((int)L.cin.size());
      L.cin.push_back(j);
   }
   L.nf = (int)L.fx.size(); L.nd = (int)L.cin.size(); L.nc = (int)L.ceq.size();
   auto it = d->curr();
   L.x = values(it->x()); L.s = values(it->s()); L.yc = values(it->y_c()); L.yd = values(it->y_d());
   L.zl = values(it->z_L()); L.zu = values(it->z_U()); L.vl = values(it->v_L()); L.vu = values(it->v_U());
   {
      T.guard++;
      L.sxl = values(cq->curr_slack_x_L()); L.sxu = values(cq->curr_slack_x_U()); L.ssl = values(cq->curr_slack_s_L()); L.ssu = values(cq->curr_slack_s_U());
      T.guard--;
   }
   if( (int)L.x.size() != L.nf || (int)L.s.size() != L.nd || (int)L.yc.size() != L.nc || (int)L.yd.size() != L.nd || L.zl.size() != L.bl.size() || L.zu.size() != L.bu.size() || L.vl.size() != L.dl.size() || L.vu.size() != L.du.size() ) { W->count("lin.dims"); return; }
   // point of the user
   L.ufl = P.xl;
   for( int k = 0; k < L.nf; ++k ) L.ufl[L.fx[k]] = L.x[k] / L.sc.dx[L.fx[k]];
   Vec lam(P.m, 0.);
   for( int k = 0; k < L.nc; ++k ) lam[L.ceq[k]] = L.yc[k] * L.sc.dg[L.ceq[k]] / L.sc.df;
   for( int k = 0; k < L.nd; ++k ) lam[L.cin[k]] = L.yd[k] * L.sc.dg[L.cin[k]] / L.sc.df;
   int o = 0, sz[8] = { L.nf, L.nd, L.nc, L.nd, (int)L.bl.size(), (int)L.bu.size(), (int)L.dl.size(), (int)L.du.size() };
   for( int k = 0; k < 8; ++k ) { L.off[k] = o; o += sz[k]; }
   L.off[8] = o;
   assemble(L, S, c, L.ufl, lam, 0);
   size_t ni = c.iters.size();
   if( ni >= 2 && c.iters[ni - 2].have && c.iters[ni - 2].mode == 0 )
   {
      Vec xw = c.iters[ni - 2].x;
      assemble(L, S, c, xw, c.iters[ni - 2].lam, 1);
   }
   else if( ni >= 2 ) { W->count("lin.resto"); return; }     // the factorised Hessian is an older one
   else L.K[1] = L.K[0];
   // residuals
   Vec g(P.n, 0.);
   P.f.grad(L.ufl.data(), g.data(), L.sc.df);
   for( int j = 0; j < P.m; ++j ) P.g[j].grad(L.ufl.data(), g.data(), lam[j] * L.sc.df);
   L.rx.assign(L.nf, 0);
   for( int k = 0; k < L.nf; ++k ) L.rx[k] = g[L.fx[k]] / L.sc.dx[L.fx[k]];
   for( size_t k = 0; k < L.bl.size(); ++k ) L.rx[L.bl[k]] -= L.zl[k];
   for( size_t k = 0; k < L.bu.size(); ++k ) L.rx[L.bu[k]] += L.zu[k];
   L.rs.assign(L.nd, 0);
   for( int k = 0; k < L.nd; ++k ) L.rs[k] = -L.yd[k];
   for( size_t k = 0; k < L.dl.size(); ++k ) L.rs[L.dl[k]] -= L.vl[k];
   for( size_t k = 0; k < L.du.size(); ++k ) L.rs[L.du[k]] += L.vu[k];
   for( int k = 0; k < L.nc; ++k ) { int j = L.ceq[k]; L.rc.push_back((P.g[j].value(L.ufl.data()) - P.gl[j]) * L.sc.dg[j]); }
   for( int k = 0; k < L.nd; ++k ) { int j = L.cin[k]; L.rd.push_back(P.g[j].value(L.ufl.data()) * L.sc.dg[j] - L.s[k]); }
   for( size_t k = 0; k < L.bl.size(); ++k ) L.rzl.push_back(L.zl[k] * L.sxl[k]);
   for( size_t k = 0; k < L.bu.size(); ++k ) L.rzu.push_back(L.zu[k] * L.sxu[k]);
   for( size_t k = 0; k < L.dl.size(); ++k ) L.rvl.push_back(L.vl[k] * L.ssl[k]);
   for( size_t k = 0; k < L.du.size(); ++k ) L.rvu.push_back(L.vu[k] * L.ssu[k]);
   for( auto& row : L.K[0] ) for( LD v : row ) if( !std::isfinite((double)v) ) return;
   for( auto& row : L.K[1] ) for( LD v : row ) if( !std::isfinite((double)v) ) return;
   L.ok = true;
}
// step in the space of the user: x (free), lambda, z_L, z_U
struct Step { bool ok = false, corrected = false; Vec x, lam, zl, zu; std::vector<LD> raw; Vec err; Num ex = 0; };
static Step solve_step(const Lin& L, const Problem& P, const std::vector<LD>& rhs0, int which, const std::vector<std::pair<int, LD> >& fix = {})
{
   Step st;
   std::vector<LD> y, y2, rhs = rhs0;
   auto K = L.K[which];
   size_t N = rhs.size(), M = N + fix.size();
   if( M > N )
   {
      for( auto& row : K ) row.resize(M, 0);
      K.resize(M, std::vector<LD>(M, 0));
      for( size_t k = 0; k < fix.size(); ++k ) { K[N + k][fix[k].first] = 1; K[fix[k].first][N + k] = 1; rhs.push_back(fix[k].second); }
   }
   if( !lu(K, rhs, y) ) return st;
   // sensitivity of the result to rounding in the matrix
   Rng r(99);
   for( auto& row : K ) for( auto& v : row ) v *= 1 + 1e-11L * r.uni(-1, 1);
   if( !lu(K, rhs, y2) ) return st;
   LD m = 0, e = 0;
   for( size_t k = 0; k < N; ++k ) { m = std::max(m, std::abs(y[k])); e = std::max(e, std::abs(y[k] - y2[k])); }
   if( !(e <= (fix.empty() ? 1e-5L : 1e-7L) * (m + 1e-10L)) || (fix.size() && m > 1e3L) ) return st;
   y.resize(N);
   st.raw = y;
   const int* o = L.off;
   st.x.assign(P.n, 0.); st.zl = st.zu = st.x; st.lam.assign(P.m, 0.);
   for( int k = 0; k < L.nf; ++k ) st.x[L.fx[k]] = (Num)y[k] / L.sc.dx[L.fx[k]];
   for( int k = 0; k < L.nc; ++k ) st.lam[L.ceq[k]] = (Num)y[o[2] + k] * L.sc.dg[L.ceq[k]] / L.sc.df;
   for( int k = 0; k < L.nd; ++k ) st.lam[L.cin[k]] = (Num)y[o[3] + k] * L.sc.dg[L.cin[k]] / L.sc.df;
   for( size_t k = 0; k < L.bl.size(); ++k ) { int i = L.fx[L.bl[k]]; st.zl[i] = (Num)y[o[4] + k] * L.sc.dx[i] / L.sc.df; }
   for( size_t k = 0; k < L.bu.size(); ++k ) { int i = L.fx[L.bu[k]]; st.zu[i] = (Num)y[o[5] + k] * L.sc.dx[i] / L.sc.df; }
   st.ok = true;
   return st;
}
// with bound check: variables and multipliers that leave their bounds are fixed there, until there are no further ones
static Step solve_bounded(const Lin& L, const Problem& P, const std::vector<LD>& rhs, int which, bool bc, Num be)
{
   std::vector<std::pair<int, LD> > fix;
   Step st = solve_step(L, P, rhs, which);
   while( st.ok && bc )
   {
      size_t had = fix.size();
      bool any = false, clear = true;
      auto chk = [&](LD v, int idx, LD value)
      {
         if( std::abs(v + be) < 1e-5L * (be + std::abs(v)) + 1e-7L ) clear = false;
         if( !(v < -be) ) return;
         any = true;
         for( auto& f : fix ) if( f.first == idx ) { clear = false; f.second = value; return; }
         fix.push_back({ idx, value });
      };
      for( size_t i = 0; i < L.bl.size(); ++i ) { chk(L.sxl[i] + st.raw[L.bl[i]], L.bl[i], -(LD)L.sxl[i]); chk(L.zl[i] + st.raw[L.off[4] + i], L.off[4] + (int)i, -(LD)L.zl[i]); }
      for( size_t i = 0; i < L.bu.size(); ++i ) { chk(L.sxu[i] - st.raw[L.bu[i]], L.bu[i], L.sxu[i]); chk(L.zu[i] + st.raw[L.off[5] + i], L.off[5] + (int)i, -(LD)L.zu[i]); }
      if( !clear ) { st.ok = false; W->count("bc.unclear"); return st; }
      if( !any ) { W->count(had ? "bc.corrected" : "bc.inside"); return st; }
      if( fix.size() == had ) { st.ok = false; return st; }
      st = solve_step(L, P, rhs, which, fix);
      st.corrected = true;
      if( !st.ok ) W->count("bc.singular");
   }
   return st;
}
static std::vector<LD> make_rhs(const Lin& L, const Par& q, const Vec& dp, bool res)
{
   std::vector<LD> b(L.off[8], 0);
   const int* o = L.off;
   if( res )
   {
      const Vec* v[8] = { &L.rx, &L.rs, &L.rc, &L.rd, &L.rzl, &L.rzu, &L.rvl, &L.rvu };
      for( int k = 0; k < 8; ++k ) for( size_t i = 0; i < v[k]->size(); ++i ) b[o[k] + i] = -(LD)(*v[k])[i];
   }
   for( size_t j = 0; j < q.row.size(); ++j ) for( int k = 0; k < L.nc; ++k ) if( L.ceq[k] == q.row[j] ) b[o[2] + k] += (LD)dp[j] * L.sc.dg[q.row[j]];
   return b;
}
static Num vnorm(const Vec& v) { Num m = 0; for( Num a : v ) m = std::max(m, std::abs(a)); return m; }
// compares a received step with the expected ones (Hessian at the last or at the next to last iterate)
static std::string cmp(const Vec& got, const Vec& e0, const Vec& e1, Num tol)
{
   std::string msg;
   for( int w = 0; w < 2; ++w )
   {
      const Vec& e = w ? e1 : e0;
      if( e.size() != got.size() ) continue;
      bool ok = true;
      Num s = vnorm(e);
      for( size_t i = 0; i < got.size(); ++i ) if( !(std::abs(got[i] - e[i]) <= tol * (1e-3 + s)) ) { if( ok && msg.empty() ) msg = fmt("component %zu is %.12g, expected %.12g", i, got[i], e[i]); ok = false; }
      if( ok ) return "";
   }
   return msg.empty() ? "no values" : msg;
}
static bool parse_rh(const std::string& out, size_t k, std::vector<Vec>& A, Vec& ev)
{
   size_t at = out.rfind("RedHessian unscaled\"");
   if( at == std::string::npos ) return false;
   A.assign(k, Vec(k, std::numeric_limits<Num>::quiet_NaN()));
   ev.clear();
   size_t pos = at;
   while( (pos = out.find("RedHessian unscaled[", pos)) != std::string::npos )
   {
      long i, j; double v;
      if( sscanf(out.c_str() + pos, "RedHessian unscaled[%ld,%ld]=%lf", &i, &j, &v) == 3 && i >= 0 && j >= 0 && i < (long)k && j < (long)k ) { A[i][j] = v; A[j][i] = v; }
      pos += 10;
   }
   pos = at;
   while( (pos = out.find("Eigenvalues of reduced hessian matrix[", pos)) != std::string::npos )
   {
      long i; double v;
      if( sscanf(out.c_str() + pos, "Eigenvalues of reduced hessian matrix[%ld]=%lf", &i, &v) == 2 ) ev.push_back(v);
      pos += 10;
   }
   return true;
}
static Vec eigen(std::vector<Vec> A)
{
   size_t n = A.size();
   for( int sweep = 0; sweep < 100; ++sweep )
   {
      for( size_t p = 0; p < n; ++p ) for( size_t q = p + 1; q < n; ++q ) if( A[p][q] != 0. )
      {
         Num th = (A[q][q] - A[p][p]) / (2 * A[p][q]), t = (th >= 0 ? 1 : -1) / (std::abs(th) + std::sqrt(th * th + 1)), cs = 1 / std::sqrt(t * t + 1), sn = t * cs;
         for( size_t k = 0; k < n; ++k ) { Num a = A[k][p], b = A[k][q]; A[k][p] = cs * a - sn * b; A[k][q] = sn * a + cs * b; }
         for( size_t k = 0; k < n; ++k ) { Num a = A[p][k], b = A[q][k]; A[p][k] = cs * a - sn * b; A[q][k] = sn * a + cs * b; }
      }
   }
   Vec e; for( size_t k = 0; k < n; ++k ) e.push_back(A[k][k]);
   std::sort(e.begin(), e.end());
   return e;
}
static void run(const Plan& p)
{
   auto bad = [&](const std::string& cls, const std::string& msg) { W->violate("C21", cls, msg); };
   std::map<std::string, std::string> so;
   for( auto i : p.all("sens") ) so[i->s(0)] = i->s(1);
   bool sens = so["run_sens"] == "yes", rh = so["compute_red_hessian"] == "yes", dsdp = sens && so["compute_dsdp"] == "yes", bc = so["sens_boundcheck"] == "yes", res = so["sens_kkt_residuals"] != "no";
   int steps = so.count("n_sens_steps") ? atoi(so["n_sens_steps"].c_str()) : 1;
   // reference: the same solve without the sensitivity computation
   struct Cap { Cap() { capture_stdout(true); } ~Cap() { capture_stdout(false); } } cap;
   SolveRes rr; FinRec ref; bool have_ref = false;
   {
      Scn s(p, "R");
      extend(s.P, p, s.c);
      rr = s.solve();
      if( s.fin() ) { ref = *s.fin(); have_ref = true; }
   }
   Scn s(p);
   Ctx& c = s.c;
   Par q = extend(s.P, p, c);
   std::string fvt = c.opts("fixed_variable_treatment", "make_parameter");
   for( auto i : p.all("opt") ) if( i->s(0) == "fixed_variable_treatment" ) fvt = i->s(1);
   std::vector<int> rhv = red_hess_vars(s.P, p, q, c, fvt != "relax_bounds");
   fflush(stdout);
   size_t out0 = W->out.size();
   s.open();
   Ipopt::SmartPtr<Ipopt::IpoptApplication> app = s.s->app;
   Lin L;
   c.at_cb = [&](Ctx& cc, int site) { if( site == S_FIN && s.s->nlp->last_d && s.s->nlp->last_cq && !L.ok && (cc.fins.back().status == Ipopt::SUCCESS || cc.fins.back().status == Ipopt::STOP_AT_ACCEPTABLE_POINT) ) linearise(L, s, s.s->nlp->last_d, s.s->nlp->last_cq); (void)cc; };
   SolveRes r;
   Ctx* oldctx = T.ctx;
   Vec dX, dL, dZL, dZU, mX, mL, mZL, mZU;
   bool threw = false; std::string what;
   size_t fins_solve = 0;
   Num pert = 0;
   int nx = 0, nl = 0, nzl = 0, nzu = 0;
   {
      Ipopt::SmartPtr<Ipopt::SensApplication> as;
      {
         T.ctx = &c;
         Armed a(true);
         Ipopt::RegisterOptions_sIPOPT(app->RegOptions());
         app->Options()->SetRegisteredOptions(app->RegOptions());
         as = new Ipopt::SensApplication(app->Jnlst(), app->Options(), app->RegOptions());
      }
      T.ctx = oldctx;
      for( auto& o : so ) if( o.second.size() && !s.s->set_option(o.first, o.second) ) { bad("option", "option " + o.first + " not accepted"); }
      { T.ctx = &c; Armed a(true); as->Initialize(); }
      T.ctx = oldctx;
      r = s.solve();
      fins_solve = c.fins.size();
      if( r.status == -1000 ) { W->count("escaped"); return; }
      T.ctx = &c;
      try
      {
         Armed a(true);
         as->SetIpoptAlgorithmObjects(app, (Ipopt::ApplicationReturnStatus)r.status);
         as->Run();
      }
      catch( Ipopt::IpoptException& e ) { T.armed = false; threw = true; what = e.Message(); }
      catch( std::exception& e ) { T.armed = false; threw = true; what = e.what(); }
      catch( ... ) { T.armed = false; threw = true; what = "?"; }
      T.guard = 0; T.armed = false; c.depth = 0;
      T.ctx = oldctx;
      if( !threw && IsValid(app->IpoptDataObject()) && IsValid(app->IpoptDataObject()->curr()) && IsValid(app->IpoptDataObject()->curr()->x()) )
      {
         auto it = app->IpoptDataObject()->curr();
         nx = it->x()->Dim(); nl = it->y_c()->Dim() + it->y_d()->Dim(); nzl = it->z_L()->Dim(); nzu = it->z_U()->Dim();
         if( as->DirectionalD_X && steps > 0 ) { dX.assign(as->DirectionalD_X, as->DirectionalD_X + nx); dL.assign(as->DirectionalD_L, as->DirectionalD_L + nl); dZL.assign(as->DirectionalD_Z_L, as->DirectionalD_Z_L + nzl); dZU.assign(as->DirectionalD_Z_U, as->DirectionalD_Z_U + nzu); }
         if( as->SensitivityM_X )
         {
            int np = (int)q.var.size();
            mX.assign(as->SensitivityM_X, as->SensitivityM_X + nx * np); mL.assign(as->SensitivityM_L, as->SensitivityM_L + nl * np);
            mZL.assign(as->SensitivityM_Z_L, as->SensitivityM_Z_L + nzl * np); mZU.assign(as->SensitivityM_Z_U, as->SensitivityM_Z_U + nzu * np);
         }
         Num a, b, e, f;
         app->IpoptDataObject()->getPDPert(a, b, e, f);
         pert = std::max(std::max(a, b), std::max(e, f));
      }
      { T.ctx = &c; Armed a(true); as = NULL; }
      T.ctx = oldctx;
   }
   c.at_cb = nullptr;
   W->count(std::string("sens.") + st_name(r.status));
   bool success = r.status == 0 || r.status == 1;
   // 1. the solve and its report
   if( fins_solve ) bad("early-finalize", "finalize_solution was called by the solve although the sensitivity computation follows");
   if( c.fins.size() > 1 ) bad("finalize-twice", fmt("finalize_solution called %zu times", c.fins.size()));
   bool mf = any_fault(c, "mumps") || any_fault(c, "f:") || any_fault(c, "g:") || any_fault(c, "gf:") || any_fault(c, "jg:") || any_fault(c, "h:");
   if( r.status != rr.status ) bad("status", fmt("the solve returned %s, without the sensitivity computation %s", st_name(r.status), st_name(rr.status)));
   else if( have_ref && !threw && !any_fault(c, "throw") )
   {
      if( c.fins.empty() ) { if( !mf ) bad("no-finalize", fmt("no solution reported for %s", st_name(r.status))); }
      else if( default_branch(ref.status) ) W->count("fin.default");
      else
      {
         const FinRec& f = c.fins[0];
         if( f.status != ref.status ) bad("final-status", fmt("status %d reported for the solution, without the sensitivity computation %d", f.status, ref.status));
         else if( !vec_same(f.x, ref.x) || !vec_same(f.lam, ref.lam) || !vec_same(f.zl, ref.zl) || !vec_same(f.zu, ref.zu) || !vec_same(f.g, ref.g) || dbits(f.obj) != dbits(ref.obj) )
            bad("final-solution", fmt("the reported solution (%s) differs from the one reported without the sensitivity computation", st_name(r.status)));
      }
   }
   if( threw ) { W->count("sens.threw"); if( success && !mf && s.P.m ) bad("threw", "exception after a successful solve: " + what); return; }
   bool done = c.vmeta_fin.d.count("sens_sol_state_1");
   if( !success && (done || dX.size()) ) bad("step-after-failure", fmt("a sensitivity step was computed although the solve ended with %s", st_name(r.status)));
   if( !success ) return;
   if( c.fins.empty() ) return;
   if( !L.ok ) { W->count("lin.skipped"); return; }
   if( c.opt_is("hessian_approximation", "limited-memory") || mf ) { W->count("lin.lm"); return; }
   Num mp = so.count("sens_max_pdpert") ? strtod(so["sens_max_pdpert"].c_str(), NULL) : 1e-3;
   bool nopd = c.opt_is("line_search_method", "cg-penalty");     // its step computation has no primal-dual system solver
   if( nopd ) { if( done ) bad("step-without-solver", "sensitivity step without primal-dual system solver"); W->count("lin.nopd"); return; }
   if( sens && steps > 0 && !done && pert <= mp ) { bad("no-step", fmt("no sensitivity step after %s", st_name(r.status))); return; }
   if( pert > 0 ) { W->count("lin.perturbed"); return; }
   if( sens && done )
   {
      const FinRec& f = c.fins[0];
      int np = (int)q.var.size();
      Num be = so.count("sens_bound_eps") ? strtod(so["sens_bound_eps"].c_str(), NULL) : 1e-3;
      auto val = [&](const Ctx::Meta& m, const std::string& k) { auto i = m.d.find(k); return i == m.d.end() ? Vec() : i->second; };
      for( int k = 1; k <= steps; ++k )
      {
         Vec dp(np);
         for( int j = 0; j < np; ++j ) dp[j] = q.val[k - 1][j] - L.ufl[q.var[j]];
         std::string key = fmt("sens_sol_state_%d", k);
         Vec sx = val(c.vmeta_fin, key), sl = val(c.cmeta_fin, key), szl = val(c.vmeta_fin, key + "_z_L"), szu = val(c.vmeta_fin, key + "_z_U");
         if( sx.empty() ) { bad("no-step", fmt("no result for step %d", k)); continue; }
         Step e0 = solve_bounded(L, s.P, make_rhs(L, q, dp, res), 0, bc, be), e1 = solve_bounded(L, s.P, make_rhs(L, q, dp, res), 1, bc, be);
         if( !e0.ok || !e1.ok ) { W->count("lin.illcond"); continue; }
         Vec uzl(s.P.n, 0.), uzu(s.P.n, 0.), ulam(s.P.m, 0.);
         for( size_t i = 0; i < L.bl.size(); ++i ) uzl[L.fx[L.bl[i]]] = L.zl[i] * L.sc.dx[L.fx[L.bl[i]]] / L.sc.df;
         for( size_t i = 0; i < L.bu.size(); ++i ) uzu[L.fx[L.bu[i]]] = L.zu[i] * L.sc.dx[L.fx[L.bu[i]]] / L.sc.df;
         for( int i = 0; i < L.nc; ++i ) ulam[L.ceq[i]] = L.yc[i] * L.sc.dg[L.ceq[i]] / L.sc.df;
         for( int i = 0; i < L.nd; ++i ) ulam[L.cin[i]] = L.yd[i] * L.sc.dg[L.cin[i]] / L.sc.df;
         auto diff = [](Vec a, const Vec& b) { for( size_t i = 0; i < a.size(); ++i ) a[i] -= b[i]; return a; };
         Vec gx = diff(sx, L.ufl), gl = sl.size() ? diff(sl, ulam) : sl, gzl = szl.size() ? diff(szl, uzl) : szl, gzu = szu.size() ? diff(szu, uzu) : szu;
         W->count("step.checked");
         std::string m;
         const Num tol = 1e-5;
         if( !(m = cmp(gx, e0.x, e1.x, tol + 1e-9 * vnorm(L.ufl))).empty() ) bad("x", fmt("step %d: ", k) + "change of x: " + m);
         if( sl.size() || s.P.m == 0 ) { if( !(m = cmp(gl, e0.lam, e1.lam, tol + 1e-9 * vnorm(ulam))).empty() ) bad("lambda", fmt("step %d: ", k) + "change of lambda: " + m); }
         else bad("lambda", "no multipliers for the step");
         auto zc = [&](const Vec& got, const Vec& a, const Vec& b, const Vec& base, const char* cls)
         {
            if( got.empty() ) { return; }
            std::string mm = cmp(got, a, b, tol + 1e-9 * vnorm(base));
            if( mm.size() ) bad(cls, fmt("step %d: change of the bound multipliers: ", k) + mm);
         };
         if( fvt != "make_constraint" ) { zc(gzl, e0.zl, e1.zl, uzl, "z_L"); zc(gzu, e0.zu, e1.zu, uzu, "z_U"); }
         if( k == steps && dX.size() )
         {
            auto comp = [&](const Step& e, Vec& a, Vec& b, Vec& cc, Vec& d)
            {
               a.clear(); b.clear(); cc.clear(); d.clear();
               for( int i : L.fx ) a.push_back(e.x[i]);
               for( int i : L.ceq ) b.push_back(e.lam[i]);
               for( int i : L.cin ) b.push_back(e.lam[i]);
               for( int i : L.bl ) cc.push_back(e.zl[L.fx[i]]);
               for( int i : L.bu ) d.push_back(e.zu[L.fx[i]]);
            };
            Vec a0, b0, c0, d0, a1, b1, c1, d1;
            comp(e0, a0, b0, c0, d0); comp(e1, a1, b1, c1, d1);
            if( !(m = cmp(dX, a0, a1, tol)).empty() ) bad("dir-x", "directional derivative of x: " + m);
            if( dL.size() && !(m = cmp(dL, b0, b1, tol)).empty() ) bad("dir-lambda", "directional derivative of lambda: " + m);
            if( dZL.size() && !(m = cmp(dZL, c0, c1, tol)).empty() ) bad("dir-zl", "directional derivative of z_L: " + m);
            if( dZU.size() && !(m = cmp(dZU, d0, d1, tol)).empty() ) bad("dir-zu", "directional derivative of z_U: " + m);
         }
         (void)f;
      }
      if( dsdp && steps > 0 )
      {
         if( mX.empty() ) bad("no-matrix", "no sensitivity matrix");
         else for( int j = 0; j < np; ++j )
         {
            Vec dp(np, 0.); dp[j] = 1;
            Step e0 = solve_bounded(L, s.P, make_rhs(L, q, dp, res), 0, bc, be), e1 = solve_bounded(L, s.P, make_rhs(L, q, dp, res), 1, bc, be);
            if( !e0.ok || !e1.ok || e0.corrected || e1.corrected ) { W->count("lin.illcond"); continue; }
            auto col = [&](const Vec& v, int k) { return Vec(v.begin() + j * k, v.begin() + (j + 1) * k); };
            Vec a0, a1, b0, b1, c0, c1, d0, d1;
            for( int i : L.fx ) { a0.push_back(e0.x[i]); a1.push_back(e1.x[i]); }
            for( int i : L.ceq ) { b0.push_back(e0.lam[i]); b1.push_back(e1.lam[i]); }
            for( int i : L.cin ) { b0.push_back(e0.lam[i]); b1.push_back(e1.lam[i]); }
            for( int i : L.bl ) { c0.push_back(e0.zl[L.fx[i]]); c1.push_back(e1.zl[L.fx[i]]); }
            for( int i : L.bu ) { d0.push_back(e0.zu[L.fx[i]]); d1.push_back(e1.zu[L.fx[i]]); }
            std::string m;
            W->count("matrix.checked");
            if( nx && !(m = cmp(col(mX, nx), a0, a1, 1e-5)).empty() ) bad("mat-x", fmt("sensitivity of x to parameter %d: ", j + 1) + m);
            if( nl && !(m = cmp(col(mL, nl), b0, b1, 1e-5)).empty() ) bad("mat-lambda", fmt("sensitivity of lambda to parameter %d: ", j + 1) + m);
            if( nzl && !(m = cmp(col(mZL, nzl), c0, c1, 1e-5)).empty() ) bad("mat-zl", fmt("sensitivity of z_L to parameter %d: ", j + 1) + m);
            if( nzu && !(m = cmp(col(mZU, nzu), d0, d1, 1e-5)).empty() ) bad("mat-zu", fmt("sensitivity of z_U to parameter %d: ", j + 1) + m);
         }
      }
   }
   if( rh && rhv.size() )
   {
      std::vector<Vec> A; Vec ev;
      size_t k = rhv.size();
      fflush(stdout);
      if( !parse_rh(W->out.substr(out0), k, A, ev) ) { bad("no-redhess", "no reduced Hessian printed: " + W->out.substr(out0, 300)); return; }
      bool plain = true;
      for( Num d : L.sc.dx ) plain = plain && d == 1;
      for( Num d : L.sc.dg ) plain = plain && d == 1;
      if( plain )
      {
         bool ok = true;
         std::vector<Vec> E[2] = { std::vector<Vec>(k, Vec(k, 0.)), std::vector<Vec>(k, Vec(k, 0.)) };
         for( size_t a = 0; a < k && ok; ++a )
         {
            int pos = (int)(std::find(L.fx.begin(), L.fx.end(), rhv[a]) - L.fx.begin());
            std::vector<LD> b(L.off[8], 0); b[pos] = 1;
            for( int w = 0; w < 2; ++w )
            {
               Step e = solve_step(L, s.P, b, w);
               if( !e.ok ) { ok = false; break; }
               for( size_t i = 0; i < k; ++i ) E[w][i][a] = (Num)e.raw[std::find(L.fx.begin(), L.fx.end(), rhv[i]) - L.fx.begin()] * L.sc.df;
            }
         }
         if( ok )
         {
            Vec ga, e0, e1;
            for( size_t i = 0; i < k; ++i ) for( size_t j = 0; j < k; ++j ) { ga.push_back(A[i][j]); e0.push_back(E[0][i][j]); e1.push_back(E[1][i][j]); }
            std::string m = cmp(ga, e0, e1, 1e-5);
            W->count("redhess.checked");
            if( m.size() ) bad("redhess", "reduced Hessian: " + m);
         }
      }
      if( so["rh_eigendecomp"] == "yes" )
      {
         std::sort(ev.begin(), ev.end());
         Vec e = eigen(A);
         std::string m = ev.size() != e.size() ? "wrong number" : cmp(ev, e, e, 1e-9);
         W->count("eigen.checked");
         if( m.size() ) bad("eigenvalues", "eigenvalues of the printed reduced Hessian: " + m);
      }
   }
}
static RegProp reg("C21", "sensitivity", gen, run);
}
