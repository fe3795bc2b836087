// The user's side of the simulation: NLP callbacks as faultable nodes, with protocol monitors.
#include "IpCompoundVector.hpp"
#include "IpDenseVector.hpp"
#include "IpIpoptData.hpp"
#include "IpIpoptCalculatedQuantities.hpp"
#include "sim.hpp"
#include "IpIpoptData.hpp"
#include "IpIpoptCalculatedQuantities.hpp"
namespace Ipopt { DECLARE_STD_EXCEPTION(SIM_USER_EXCEPTION); }
namespace sim
{
Ctx::Ctx()
{
   memset(occ, 0, sizeof occ);
   memset(calls, 0, sizeof calls); memset(icalls, 0, sizeof icalls);
   memset(okcalls, 0, sizeof okcalls);
   for( int i = 0; i < S_NSITE; ++i ) cost[i] = 0;
   memset(last_fired_occ, 0, sizeof last_fired_occ);
}
void Ctx::new_solve()
{
   iters.clear(); fins.clear();
   have_lastx = have_lastlam = false;
   js_known = js_known || calls[S_JS]; hs_known = hs_known || calls[S_HS];
   memset(calls, 0, sizeof calls); memset(icalls, 0, sizeof icalls);
   memset(okcalls, 0, sizeof okcalls);
   stop_latched = false; evals_after_stop = failed_after_stop = 0;
   okf.clear(); okg.clear(); okgf.clear(); okjg.clear(); fval.clear();
   fatal_fault = false;
   hcalls.clear();
}
void Ctx::ev(int tag, uint64_t a, uint64_t b)
{
   if( tag >= 300 && tag < 400 ) { hi = hmix(hmix(hmix(hi, uint64_t(tag)), a), b); }
   else { h = hmix(h, uint64_t(tag)); h = hmix(h, a); h = hmix(h, b); }
   if( tag == S_F || tag == S_G || tag == 100 + S_F || tag == 100 + S_G ) hc += hmix(hmix(77, uint64_t(tag)), tag < S_ICB ? hmix(a, 0) : hmix(a, b));
   if( tag < 300 && tag != S_MUMPS ) hn = hmix(hmix(hmix(hn, uint64_t(tag)), a), b);
   if( tag == S_ICB || tag == S_FIN ) { hit_seq = hmix(hmix(hmix(hit_seq, uint64_t(tag)), a), b); }
   ++nev;
   if( keeplog && !((tag >= S_INFO && tag <= S_SCAL) || (tag >= S_NLV && tag <= S_META) || tag >= 400) ) elog.push_back(LogEv{tag, a, b});
   if( W->trace ) fprintf(stderr, "[%s] ev %-6s %016llx %016llx  (wall %.6f)\n", name.c_str(), tag < S_NSITE ? site_name[tag] : fmt("%d", tag).c_str(), (unsigned long long)a, (unsigned long long)b, W->wall);
}
const Fault* Ctx::hit(int site)
{
   ++occ[site]; ++calls[site]; icalls[site] += inspecting;
   const Fault* r = NULL;
   for( auto& f : faults )
   {
      if( f.site != site || occ[site] < f.from || occ[site] > f.to ) continue;
      f.fired++;
      fired[std::string(site_name[site]) + ":" + f.kind]++;
      W->count(std::string("fault.") + site_name[site] + ":" + f.kind);
      W->sigmix(hmix(site * 131 + hstr(f.kind), iters.size() + 16 * (depth)));
      last_fired_occ[site] = occ[site];
      if( f.kind == "advance" ) { W->wall += f.p1; W->cpu += f.p1; continue; }
      if( f.kind == "wallback" ) { W->wall -= f.p1; continue; }
      if( f.kind == "wallonly" ) { W->wall += f.p1; continue; }
      if( f.kind == "cpuonly" ) { W->cpu += f.p1; continue; }
      if( f.kind == "freeze" ) { W->cpu_frozen = true; continue; }
      if( r == NULL ) { r = &f; fired_total++; }
   }
   return r;
}
static void throwing(const Fault* f)
{
   if( f == NULL ) return;
   if( T.ctx && (f->kind.compare(0, 5, "throw") == 0 || f->kind == "badalloc" || f->kind == "overflow" || f->kind == "ipexc") ) T.ctx->last_throw = f;
   if( f->kind == "throw" ) throw std::runtime_error("simulated user exception");
   if( f->kind == "throwint" ) throw 42;
   if( f->kind == "badalloc" ) throw std::bad_alloc();
   if( f->kind == "overflow" ) throw std::overflow_error("simulated overflow");
   if( f->kind == "ipexc" ) THROW_EXCEPTION(Ipopt::SIM_USER_EXCEPTION, "simulated IpoptException from user code");
}
CbGuard::CbGuard(Ctx* cc, int site) : c(cc), armed(T.armed)
{
   T.guard++;
   T.armed = false;
   c->depth++;
   W->wall += c->cost[site];
   if( !W->cpu_frozen ) W->cpu += c->cost[site];
}
CbGuard::~CbGuard() { T.guard--; T.armed = armed; c->depth--; }

static bool finite_all(const Num* v, int n) { for( int i = 0; i < n; ++i ) if( !std::isfinite(v[i]) ) return false; return true; }

void Ctx::protocol(int site, Index n, const Num* x, bool newx)
{
   uint64_t xh = x ? xhash(x, n) : 0;
   ev(site, xh, newx);
   W->sigmix(site);
   if( n != P->n ) W->violate("C06", "dim", fmt("%s called with n=%d, problem has %d", site_name[site], n, P->n));
   if( x == NULL ) return;
   if( fins.size() && mon ) W->violate("C04", "eval-after-finalize", fmt("%s called after finalize_solution", site_name[site]));
   if( !finite_all(x, n) && mon && !have_lastx )
      ;
   if( !newx )
   {
      if( !have_lastx ) W->violate("C06", "newx-first", fmt("%s called with new_x=false although no point has been passed before", site_name[site]));
      else if( memcmp(lastx.data(), x, n * sizeof(Num)) != 0 )
      {
         int k = 0;
         while( dbits(lastx[k]) == dbits(x[k]) ) ++k;
         if( lastx[k] != x[k] )
            W->violate("C06", "newx-stale", fmt("%s (call %ld) with new_x=false but x[%d]=%.17g differs from the previously passed point (%.17g)", site_name[site], calls[site], k, x[k], lastx[k]));
      }
   }
   lastx.assign(x, x + n);
   have_lastx = true;
   if( stop_latched ) evals_after_stop++;
   if( mon && finite_all(x, n) )
   {
      bool findiff = opt_is("jacobian_approximation", "finite-difference-values") || opt_is("gradient_approximation", "finite-difference-values")
                     || opts("derivative_test", "none") != "none";
      std::string fvt = opts("fixed_variable_treatment", "make_parameter");
      Num brf = optd("bound_relax_factor", 1e-8), cvt = optd("constr_viol_tol", 1e-4);
      bool isx0 = true;
      int nfree = 0, meq = 0;
      for( int i = 0; i < n; ++i ) nfree += !P->fixed(i);
      for( int j = 0; j < P->m; ++j ) meq += P->gl[j] == P->gu[j];
      for( int i = 0; i < n; ++i ) if( x[i] != P->x0[i] && !P->fixed(i) ) isx0 = false;
      if( !findiff && !opt_is("replace_bounds", "yes") && !isx0 && optd("nlp_lower_bound_inf", -1e19) == -1e19 )
         for( int i = 0; i < n; ++i )
         {
            if( P->fixed(i) )
            {
               // with too few degrees of freedom, Ipopt relaxes the bounds of fixed variables
               if( (fvt == "make_parameter" || fvt == "make_parameter_nodual") && nfree >= meq && !opt.count("dependency_detector") )
                  if( x[i] != P->xl[i] ) W->violate("C06", "fixed-moved", fmt("%s evaluated with x[%d]=%.17g but the variable is fixed at %.17g", site_name[site], i, x[i], P->xl[i]));
               if( fvt == "make_constraint" ) continue;
            }
            if( opt_is("scale_x", "1") ) continue;
            Num bl = P->xl[i], bu = P->xu[i];
            if( bl > -1e19 )
            {
               Num a = std::max(1., std::abs(bl)), rel = std::min(cvt, brf * a) + 1e-7 * a + (P->fixed(i) ? 2 * std::max(1e-8, brf) * a : 0);
               if( x[i] < bl - rel ) W->violate("C06", "below-bound", fmt("%s evaluated at x[%d]=%.17g below its lower bound %.17g", site_name[site], i, x[i], bl));
            }
            if( bu < 1e19 )
            {
               Num a = std::max(1., std::abs(bu)), rel = std::min(cvt, brf * a) + 1e-7 * a + (P->fixed(i) ? 2 * std::max(1e-8, brf) * a : 0);
               if( x[i] > bu + rel ) W->violate("C06", "above-bound", fmt("%s evaluated at x[%d]=%.17g above its upper bound %.17g", site_name[site], i, x[i], bu));
            }
         }
   }
}

// returns true if the fault turns the call into a failed one; v/n describe the output
static bool spoil(const Fault* f, Num* v, int n, bool& ret)
{
   if( f == NULL ) return false;
   if( f->kind == "false" ) { for( int i = 0; i < n; ++i ) v[i] = 12345.678 + i; ret = false; return true; }
   if( n == 0 ) return false;
   int k = (int)std::fmod(std::abs(f->p1), n);
   if( f->kind == "nan" ) { v[k] = std::numeric_limits<Num>::quiet_NaN(); return true; }
   if( f->kind == "inf" ) { v[k] = std::numeric_limits<Num>::infinity(); return true; }
   if( f->kind == "ninf" ) { v[k] = -std::numeric_limits<Num>::infinity(); return true; }
   if( f->kind == "allnan" ) { for( int i = 0; i < n; ++i ) v[i] = std::numeric_limits<Num>::quiet_NaN(); return true; }
   if( f->kind == "wrong" ) { v[k] = v[k] * (1 + f->p2) + f->p2; return false; }
   return false;
}

bool Ctx::e_f(Index n, const Num* x, bool newx, Num& v)
{
   CbGuard g(this, S_F);
   protocol(S_F, n, x, newx);
   const Fault* f = hit(S_F);
   if( at_cb ) at_cb(*this, S_F);
   throwing(f);
   v = P->f.value(x);
   bool ret = true;
   spoil(f, &v, 1, ret);
   if( std::isnan(v) && opt_is("dom", "false") ) ret = false;
   uint64_t xh = xhash(x, n);
   bool ok = ret && std::isfinite(v);
   okf[xh] |= ok ? 1 : 2;
   if( ok ) fval[xh] = v;
   okcalls[S_F] += ok;
   if( stop_latched && !ok ) failed_after_stop++;
   ev(100 + S_F, dbits(v), ret);
   return ret;
}
bool Ctx::e_gf(Index n, const Num* x, bool newx, Num* gr)
{
   CbGuard g(this, S_GF);
   if( opt_is("gradient_approximation", "finite-difference-values") && opts("derivative_test", "none") == "none" ) W->violate("C06", "gf-fd", "eval_grad_f called although gradient_approximation=finite-difference-values");
   protocol(S_GF, n, x, newx);
   const Fault* f = hit(S_GF);
   if( at_cb ) at_cb(*this, S_GF);
   throwing(f);
   for( int i = 0; i < n; ++i ) gr[i] = 0;
   P->f.grad(x, gr, 1.);
   corrupt(S_GF, gr, n);
   bool ret = true;
   spoil(f, gr, n, ret);
   bool ok = ret, okfix = true;      // entries of fixed variables are not looked at
   for( int i = 0; i < n; ++i ) if( !std::isfinite(gr[i]) ) { if( P->fixed(i) ) okfix = false; else ok = false; }
   okgf[xhash(x, n)] |= (ok ? 1 : 2) | (ok && !okfix ? 4 : 0);
   okcalls[S_GF] += ok;
   if( stop_latched && !ok ) failed_after_stop++;
   ev(100 + S_GF, xhash(gr, n), ret);
   return ret;
}
bool Ctx::e_g(Index n, const Num* x, bool newx, Index m, Num* gv)
{
   CbGuard g(this, S_G);
   protocol(S_G, n, x, newx);
   if( m != P->m ) W->violate("C06", "dim-m", fmt("eval_g called with m=%d, problem has %d", m, P->m));
   const Fault* f = hit(S_G);
   if( at_cb ) at_cb(*this, S_G);
   throwing(f);
   for( int j = 0; j < m; ++j ) gv[j] = P->g[j].value(x);
   bool ret = true;
   spoil(f, gv, m, ret);
   bool ok = ret && finite_all(gv, m);
   if( !finite_all(gv, m) && opt_is("dom", "false") ) ret = false;
   okg[xhash(x, n)] |= ok ? 1 : 2;
   okcalls[S_G] += ok;
   if( stop_latched && !ok ) failed_after_stop++;
   ev(100 + S_G, xhash(gv, m), ret);
   return ret;
}
bool Ctx::e_jg(Index n, const Num* x, bool newx, Index m, Index nz, Index* ir, Index* jc, Num* v)
{
   CbGuard g(this, v ? S_JG : S_JS);
   if( nz != (Index)P->js.size() ) W->violate("C06", "dim-nz", fmt("eval_jac_g called with nele_jac=%d, declared %d", nz, (int)P->js.size()));
   if( v == NULL )
   {
      const Fault* f = hit(S_JS);
      ev(S_JS, nz, m);
      throwing(f);
      if( f && f->kind == "false" ) return false;
      if( ir == NULL || jc == NULL ) { W->violate("C06", "struct-null", "eval_jac_g called without values and without index arrays"); return false; }
      int off = P->style == "fortran" ? 1 : 0;
      for( Index k = 0; k < nz; ++k ) { ir[k] = jspos(k).first + off; jc[k] = jspos(k).second + off; }
      return true;
   }
   if( opt_is("jacobian_approximation", "finite-difference-values") && opts("derivative_test", "none") == "none" ) W->violate("C06", "jg-fd", "eval_jac_g asked for values although jacobian_approximation=finite-difference-values");
   if( calls[S_JS] == 0 && !(js_known && opt_is("warm_start_same_structure", "yes")) ) W->violate("C06", "values-before-structure", "eval_jac_g asked for values before the structure");
   protocol(S_JG, n, x, newx);
   const Fault* f = hit(S_JG);
   if( at_cb ) at_cb(*this, S_JG);
   throwing(f);
   P->jac(x, v);
   corrupt(S_JG, v, nz);
   bool ret = true;
   spoil(f, v, nz, ret);
   bool ok = ret && finite_all(v, nz);
   okjg[xhash(x, n)] |= ok ? 1 : 2;
   okcalls[S_JG] += ok;
   if( stop_latched && !ok ) failed_after_stop++;
   ev(100 + S_JG, xhash(v, nz), ret);
   return ret;
}
bool Ctx::e_h(Index n, const Num* x, bool newx, Num sf, Index m, const Num* lam, bool newlam, Index nz, Index* ir, Index* jc, Num* v)
{
   CbGuard g(this, v ? S_H : S_HS);
   if( nz != (Index)P->hs.size() ) W->violate("C06", "dim-nzh", fmt("eval_h called with nele_hess=%d, declared %d", nz, (int)P->hs.size()));
   if( v == NULL )
   {
      const Fault* f = hit(S_HS);
      ev(S_HS, nz, m);
      throwing(f);
      if( f && f->kind == "false" ) return false;
      if( ir == NULL || jc == NULL ) { W->violate("C06", "struct-null-h", "eval_h called without values and without index arrays"); return false; }
      int off = P->style == "fortran" ? 1 : 0;
      for( Index k = 0; k < nz; ++k ) { ir[k] = hspos(k).first + off; jc[k] = hspos(k).second + off; }
      return true;
   }
   if( opt_is("hessian_approximation", "limited-memory") && opts("derivative_test", "none") == "none" ) W->violate("C06", "h-lm", "eval_h asked for Hessian values although hessian_approximation=limited-memory");
   if( calls[S_HS] == 0 && !(hs_known && opt_is("warm_start_same_structure", "yes")) ) W->violate("C06", "values-before-structure-h", "eval_h asked for values before the structure");
   protocol(S_H, n, x, newx);
   if( m > 0 && lam )
   {
      if( !newlam && (!have_lastlam || memcmp(lastlam.data(), lam, m * sizeof(Num)) != 0) )
      {
         bool same = have_lastlam;
         for( int j = 0; j < m && same; ++j ) same = lastlam[j] == lam[j];
         if( !same ) W->violate("C06", "newlambda-stale", "eval_h called with new_lambda=false but the multipliers differ from those passed previously");
      }
      lastlam.assign(lam, lam + m);
      have_lastlam = true;
   }
   if( inspect ) { HCall q; q.k = iters.size(); q.call = calls[S_H] + 1; q.xh = xhash(x, n); q.sf = sf; q.x.assign(x, x + n); q.lam.assign(lam, lam + m); hcalls.push_back(q); }
   const Fault* f = hit(S_H);
   if( at_cb ) at_cb(*this, S_H);
   throwing(f);
   ev(200, xhash(lam, m), dbits(sf));
   P->hess(x, sf, lam, v);
   corrupt(S_H, v, nz);
   bool ret = true;
   spoil(f, v, nz, ret);
   okcalls[S_H] += ret && finite_all(v, nz);
   ev(100 + S_H, xhash(v, nz), ret);
   return ret;
}

bool Ctx::e_icb(int mode, Index iter, Num obj, Num ipr, Num idu, Num mu, Num dn, Num reg, Num adu, Num apr, Index ls,
                const Ipopt::IpoptData* d, Ipopt::IpoptCalculatedQuantities* cq, const Ipopt::TNLP* t)
{
   CbGuard g(this, S_ICB);
   Num a[] = { (Num)mode, (Num)iter, obj, ipr, idu, mu, dn, reg, adu, apr, (Num)ls };
   ev(S_ICB, xhash(a, 11), 0);
   W->sigmix(hmix(S_ICB, mode * 64 + std::min<Index>(ls, 31)));
   if( fins.size() ) W->violate("C04", "icb-after-finalize", "intermediate_callback called after finalize_solution");
   if( stop_latched ) W->violate("C03", "icb-after-stop", fmt("intermediate_callback called again (iteration %d) after it had requested the stop", iter));
   IterRec r;
   r.mode = mode; r.iter = iter; r.obj = obj; r.inf_pr = ipr; r.inf_du = idu; r.mu = mu; r.dn = dn; r.reg = reg; r.adu = adu; r.apr = apr; r.ls = ls;
   r.nf = calls[S_F]; r.ng = calls[S_G]; r.t_wall = W->wall; r.t_cpu = W->cpu;
   if( d ) r.achar = d->info_alpha_primal_char();
   const Fault* f = hit(S_ICB);
   if( inspect )
   {
      int n = P->n, m = P->m;
      const Num nan = std::numeric_limits<Num>::quiet_NaN();
      r.x.assign(n, nan); r.zl.assign(n, nan); r.zu.assign(n, nan); r.g.assign(m, nan); r.lam.assign(m, nan);
      r.vxl.assign(n, nan); r.vxu.assign(n, nan); r.cxl.assign(n, nan); r.cxu.assign(n, nan); r.gl.assign(n, nan); r.vg.assign(m, nan); r.cg.assign(m, nan);
      T.guard--; T.armed = g.armed; inspecting = true;
      bool b1 = false, b2 = false;
      bool viol_too = !opt_is("inspectviol", "0");
      if( t )
      {
         b1 = t->get_curr_iterate(d, cq, false, n, r.x.data(), r.zl.data(), r.zu.data(), m, r.g.data(), r.lam.data());
         if( opt_is("inspectscaled", "1") )
         {
            r.sx.assign(n, nan); r.szl.assign(n, nan); r.szu.assign(n, nan); r.sg.assign(m, nan); r.slam.assign(m, nan);
            r.haves = t->get_curr_iterate(d, cq, true, n, r.sx.data(), r.szl.data(), r.szu.data(), m, r.sg.data(), r.slam.data());
         }
         if( viol_too )
            b2 = t->get_curr_violations(d, cq, false, n, r.vxl.data(), r.vxu.data(), r.cxl.data(), r.cxu.data(), r.gl.data(), m, r.vg.data(), r.cg.data());
      }
      else if( get_iter )
      {
         b1 = get_iter(false, r.x, r.zl, r.zu, r.g, r.lam);
         if( opt_is("inspectscaled", "1") )
         {
            r.sx.assign(n, nan); r.szl.assign(n, nan); r.szu.assign(n, nan); r.sg.assign(m, nan); r.slam.assign(m, nan);
            r.haves = get_iter(true, r.sx, r.szl, r.szu, r.sg, r.slam);
         }
         if( get_viol && viol_too ) b2 = get_viol(false, r);
      }
      if( d && cq && b1 && IsValid(d->curr()) && IsValid(d->curr()->s()) )
      {
         Ipopt::SmartPtr<const Ipopt::Vector> sv = d->curr()->s();
         if( const Ipopt::CompoundVector* cs = dynamic_cast<const Ipopt::CompoundVector*>(GetRawPtr(sv)) ) sv = cs->GetComp(0);
         if( const Ipopt::DenseVector* ds = dynamic_cast<const Ipopt::DenseVector*>(GetRawPtr(sv)) )
         {
            const Num* e = ds->ExpandedValues();
            r.s.assign(e, e + ds->Dim());
            r.have2 = true;
            if( IsValid(d->delta()) && IsValid(d->delta()->x()) && IsValid(d->delta()->s()) ) r.dmax = std::max(d->delta()->x()->Amax(), d->delta()->s()->Amax());
            if( mode == 0 ) r.gs = cq->curr_grad_lag_s()->Amax();
         }
      }
      T.guard++; T.armed = false; inspecting = false;
      r.have = b1; r.havev = b2;
      if( b1 )
      {
         ev(300, xhash(r.x.data(), n), xhash(r.lam.data(), m)); ev(301, xhash(r.zl.data(), n), xhash(r.zu.data(), n)); ev(302, xhash(r.g.data(), m));
         if( b2 ) { ev(303, xhash(r.vxl.data(), n), xhash(r.vxu.data(), n)); ev(304, xhash(r.cxl.data(), n), xhash(r.cxu.data(), n)); ev(305, xhash(r.gl.data(), n)); ev(306, xhash(r.vg.data(), m), xhash(r.cg.data(), m)); }
      }
   }
   iters.push_back(r);
   if( at_icb ) at_icb(*this, d, cq, t);
   throwing(f);
   if( f && (f->kind == "stop" || f->kind == "false") ) { stop_latched = true; return false; }
   return true;
}

SimNLP::SimNLP(Ctx* cc) : c(cc), with_scaling(false), with_nlv(false), with_warm(false), with_meta(false) {}
SimNLP::~SimNLP() {}

bool SimNLP::get_nlp_info(Index& n, Index& m, Index& nj, Index& nh, IndexStyleEnum& st)
{
   CbGuard g(c, S_INFO);
   c->ev(S_INFO);
   const Fault* f = c->hit(S_INFO);
   throwing(f);
   n = c->P->n; m = c->P->m; nj = (Index)c->P->js.size(); nh = (Index)c->P->hs.size();
   st = c->P->style == "fortran" ? FORTRAN_STYLE : C_STYLE;
   return !(f && f->kind == "false");
}
bool SimNLP::get_bounds_info(Index n, Num* xl, Num* xu, Index m, Num* gl, Num* gu)
{
   CbGuard g(c, S_BOUNDS);
   c->ev(S_BOUNDS, n, m);
   if( n != c->P->n || m != c->P->m ) W->violate("C06", "dim-bounds", "get_bounds_info called with wrong dimensions");
   const Fault* f = c->hit(S_BOUNDS);
   throwing(f);
   for( Index i = 0; i < n; ++i ) { xl[i] = c->P->xl[i]; xu[i] = c->P->xu[i]; }
   for( Index j = 0; j < m; ++j ) { gl[j] = c->P->gl[j]; gu[j] = c->P->gu[j]; }
   return !(f && f->kind == "false");
}
bool SimNLP::get_starting_point(Index n, bool ix, Num* x, bool iz, Num* zl, Num* zu, Index m, bool il, Num* lam)
{
   CbGuard g(c, S_START);
   c->ev(S_START, ix * 4 + iz * 2 + il);
   const Fault* f = c->hit(S_START);
   throwing(f);
   if( (iz || il) && !c->opt_is("warm_start_init_point", "yes") ) W->violate("C06", "start-mult", "get_starting_point asked for multipliers although warm_start_init_point=no");
   if( ix ) for( Index i = 0; i < n; ++i ) x[i] = c->P->x0[i];
   if( iz ) for( Index i = 0; i < n; ++i ) { zl[i] = c->P->zl0[i]; zu[i] = c->P->zu0[i]; }
   if( il ) for( Index j = 0; j < m; ++j ) lam[j] = c->P->lam0[j];
   if( f && f->kind == "nan" && ix && n ) x[0] = std::numeric_limits<Num>::quiet_NaN();
   if( f && f->kind == "inf" && ix && n ) x[0] = std::numeric_limits<Num>::infinity();
   return !(f && f->kind == "false");
}
bool SimNLP::get_scaling_parameters(Num& os, bool& ux, Index n, Num* xs, bool& ug, Index m, Num* gs)
{
   CbGuard g(c, S_SCAL);
   c->ev(S_SCAL);
   const Fault* f = c->hit(S_SCAL);
   throwing(f);
   if( f && f->kind == "false" ) return false;
   os = c->P->os;
   ux = c->P->use_xs; ug = c->P->use_gs;
   if( ux ) for( Index i = 0; i < n; ++i ) xs[i] = c->P->xs[i];
   if( ug ) for( Index j = 0; j < m; ++j ) gs[j] = c->P->gs[j];
   return true;
}
bool SimNLP::eval_f(Index n, const Num* x, bool nx, Num& v) { return c->e_f(n, x, nx, v); }
bool SimNLP::eval_grad_f(Index n, const Num* x, bool nx, Num* g) { return c->e_gf(n, x, nx, g); }
bool SimNLP::eval_g(Index n, const Num* x, bool nx, Index m, Num* g) { return c->e_g(n, x, nx, m, g); }
bool SimNLP::eval_jac_g(Index n, const Num* x, bool nx, Index m, Index nz, Index* ir, Index* jc, Num* v) { return c->e_jg(n, x, nx, m, nz, ir, jc, v); }
bool SimNLP::eval_h(Index n, const Num* x, bool nx, Num sf, Index m, const Num* lam, bool nl, Index nz, Index* ir, Index* jc, Num* v)
{
   return c->e_h(n, x, nx, sf, m, lam, nl, nz, ir, jc, v);
}
void SimNLP::finalize_solution(Ipopt::SolverReturn st, Index n, const Num* x, const Num* zl, const Num* zu, Index m, const Num* gv, const Num* lam,
                               Num obj, const Ipopt::IpoptData* d, Ipopt::IpoptCalculatedQuantities* cq)
{
   CbGuard g(c, S_FIN);
   c->ev(S_FIN, st, dbits(obj));
   c->ev(S_FIN, xhash(x, n), xhash(lam, m)); c->ev(S_FIN, xhash(zl, n), xhash(zu, n)); c->ev(S_FIN, xhash(gv, m));
   FinRec r;
   r.status = st; r.obj = obj;
   r.x.assign(x, x + n); r.zl.assign(zl, zl + n); r.zu.assign(zu, zu + n); r.g.assign(gv, gv + m); r.lam.assign(lam, lam + m);
   r.have_cq = d != NULL && cq != NULL;
   c->fins.push_back(r);
   W->sigmix(hmix(S_FIN, st));
   last_d = d; last_cq = cq;
   const Fault* f = c->hit(S_FIN);
   if( c->at_cb ) c->at_cb(*c, S_FIN);
   last_d = NULL; last_cq = NULL;
   throwing(f);
}
bool SimNLP::intermediate_callback(Ipopt::AlgorithmMode mode, Index iter, Num obj, Num ipr, Num idu, Num mu, Num dn, Num reg, Num adu, Num apr,
                                   Index ls, const Ipopt::IpoptData* d, Ipopt::IpoptCalculatedQuantities* cq)
{
   return c->e_icb(mode == Ipopt::RegularMode ? 0 : 1, iter, obj, ipr, idu, mu, dn, reg, adu, apr, ls, d, cq, this);
}
bool SimNLP::get_var_con_metadata(Index, StringMetaDataMapType& vs, IntegerMetaDataMapType& vi, NumericMetaDataMapType& vd, Index, StringMetaDataMapType& cs, IntegerMetaDataMapType& ci, NumericMetaDataMapType& cd)
{
   if( !c->use_meta ) return false;
   CbGuard g(c, S_META);
   vs = c->vmeta.s; vi = c->vmeta.i; vd = c->vmeta.d; cs = c->cmeta.s; ci = c->cmeta.i; cd = c->cmeta.d;
   return true;
}
void SimNLP::finalize_metadata(Index, const StringMetaDataMapType& vs, const IntegerMetaDataMapType& vi, const NumericMetaDataMapType& vd, Index, const StringMetaDataMapType& cs, const IntegerMetaDataMapType& ci, const NumericMetaDataMapType& cd)
{
   if( !c->use_meta ) return;
   CbGuard g(c, S_META);
   c->n_finmeta++;
   c->vmeta_fin = Ctx::Meta{ vs, vi, vd }; c->cmeta_fin = Ctx::Meta{ cs, ci, cd };
}
Index SimNLP::get_number_of_nonlinear_variables()
{
   CbGuard g(c, S_NLV);
   c->ev(S_NLV);
   const Fault* f = c->hit(S_NLV);
   throwing(f);
   if( !with_nlv ) return -1;
   std::set<int> s;
   c->P->f.nlvars(s);
   for( auto& q : c->P->g ) q.nlvars(s);
   return (Index)s.size();
}
bool SimNLP::get_list_of_nonlinear_variables(Index k, Index* pos)
{
   CbGuard g(c, S_NLV);
   const Fault* f = c->hit(S_NLV);
   throwing(f);
   std::set<int> s;
   c->P->f.nlvars(s);
   for( auto& q : c->P->g ) q.nlvars(s);
   if( (Index)s.size() != k ) W->violate("C06", "nlv-dim", "get_list_of_nonlinear_variables called with a wrong count");
   Index i = 0;
   for( int v : s ) pos[i++] = v + (c->P->style == "fortran" ? 1 : 0);
   return !(f && f->kind == "false");
}
bool SimNLP::get_variables_linearity(Index n, LinearityType* t)
{
   CbGuard g(c, S_META);
   if( !with_meta ) return false;
   std::set<int> s;
   c->P->f.nlvars(s);
   for( auto& q : c->P->g ) q.nlvars(s);
   for( Index i = 0; i < n; ++i ) t[i] = s.count(i) ? NON_LINEAR : LINEAR;
   return true;
}
bool SimNLP::get_constraints_linearity(Index m, LinearityType* t)
{
   CbGuard g(c, S_META);
   if( !with_meta ) return false;
   for( Index j = 0; j < m; ++j ) t[j] = c->P->g[j].linear() ? LINEAR : NON_LINEAR;
   return true;
}
}
