#include "capi.hpp"
#include "IpStdCInterface.h"
extern "C" {
typedef void* fptr;
fptr ipcreate_(ipindex* N, ipnumber* XL, ipnumber* XU, ipindex* M, ipnumber* GL, ipnumber* GU, ipindex* NJ, ipindex* NH, ipindex* STY, void* F, void* G, void* GF, void* JG, void* H);
void ipfree_(fptr*);
ipindex ipsolve_(fptr*, ipnumber* X, ipnumber* G, ipnumber* OBJ, ipnumber* MG, ipnumber* ZL, ipnumber* ZU, ipindex* IDAT, ipnumber* DDAT);
ipindex ipaddstroption_(fptr*, char*, char*, int, int);
ipindex ipaddnumoption_(fptr*, char*, ipnumber*, int);
ipindex ipaddintoption_(fptr*, char*, ipindex*, int);
ipindex ipopenoutputfile_(fptr*, char*, ipindex*, int);
void ipsetcallback_(fptr*, void*);
void ipunsetcallback_(fptr*);
ipindex ipgetcurriterate_(fptr*, ipindex* sc, ipindex* gx, ipindex* gz, ipindex* gg, ipindex* gl, ipindex* n, ipnumber*, ipnumber*, ipnumber*, ipindex* m, ipnumber*, ipnumber*);
ipindex ipgetcurrviolations_(fptr*, ipindex* sc, ipindex*, ipindex*, ipindex*, ipindex*, ipindex* n, ipnumber*, ipnumber*, ipnumber*, ipnumber*, ipnumber*, ipindex* m, ipnumber*, ipnumber*);
ipindex ipsetproblemscaling_(fptr*, ipnumber*, ipnumber*, ipnumber*);
}
namespace sim
{
const char* if_name[3] = { "C++", "C", "Fortran" };
template<class F> static int guarded(Drv* d, Ctx* c, F f)
{
   int st;
   Ctx* old = T.ctx;
   T.ctx = c;
   try { Armed a(true); st = f(); }
   catch( Ipopt::IpoptException& e ) { T.armed = false; st = -1000; d->escaped = "IpoptException " + e.Message(); }
   catch( std::bad_alloc& ) { T.armed = false; st = -1000; d->escaped = "std::bad_alloc"; }
   catch( std::exception& e ) { T.armed = false; st = -1000; d->escaped = std::string("std::exception ") + e.what(); }
   catch( int i ) { T.armed = false; st = -1000; d->escaped = fmt("int %d", i); }
   catch( ... ) { T.armed = false; st = -1000; d->escaped = "unknown"; }
   T.guard = 0; T.armed = false; c->depth = 0;
   T.ctx = old;
   return st;
}
// ---------------------------------------------------------------- C++
struct ParNLP : SimNLP
{
   Drv* d; SolArr* a;
   Num os = 1; Vec xs, gs; bool hxs = false, hgs = false;
   ParNLP(Ctx* c, Drv* dd) : SimNLP(c), d(dd), a(NULL) {}
   bool get_scaling_parameters(Num& o, bool& ux, Index n, Num* x, bool& ug, Index m, Num* g)
   {
      o = os; ux = hxs; ug = hgs;
      if( hxs ) for( Index i = 0; i < n; ++i ) x[i] = xs[i];
      if( hgs ) for( Index j = 0; j < m; ++j ) g[j] = gs[j];
      return true;
   }
   bool get_starting_point(Index n, bool ix, Num* x, bool iz, Num* zl, Num* zu, Index m, bool il, Num* lam)
   {
      bool ok = true;
      if( ix ) for( Index i = 0; i < n; ++i ) x[i] = a->x[i];
      if( iz ) { if( a->hzl ) for( Index i = 0; i < n; ++i ) zl[i] = a->zl[i]; else ok = false; if( a->hzu ) for( Index i = 0; i < n; ++i ) zu[i] = a->zu[i]; else ok = false; }
      if( il ) { if( a->hl ) for( Index j = 0; j < m; ++j ) lam[j] = a->lam[j]; else ok = false; }
      return ok;
   }
   bool intermediate_callback(Ipopt::AlgorithmMode mode, Index iter, Num obj, Num ipr, Num idu, Num mu, Num dn, Num reg, Num adu, Num apr, Index ls, const Ipopt::IpoptData* dd, Ipopt::IpoptCalculatedQuantities* cq)
   {
      if( !d->cb_on ) return true;
      return SimNLP::intermediate_callback(mode, iter, obj, ipr, idu, mu, dn, reg, adu, apr, ls, dd, cq);
   }
};
struct CppDrv : Drv
{
   Ipopt::SmartPtr<Ipopt::IpoptApplication> app;
   Ipopt::SmartPtr<ParNLP> nlp;
   explicit CppDrv(Ctx* c) : Drv(c) {}
   ~CppDrv() { release(); }
   bool create() { return guarded(this, c, [&]{ app = new Ipopt::IpoptApplication(); T.armed = false; nlp = new ParNLP(c, this); return 0; }) == 0; }
   int add(char t, const std::string& k, const std::string& v)
   {
      return guarded(this, c, [&]() -> int {
         if( t == 's' ) return app->Options()->SetStringValue(k, v);
         if( t == 'n' ) return app->Options()->SetNumericValue(k, strtod(v.c_str(), NULL));
         return app->Options()->SetIntegerValue(k, (Index)strtol(v.c_str(), NULL, 10)); });
   }
   int openfile(const std::string& nm, int l) { return guarded(this, c, [&]() -> int { return app->OpenOutputFile(nm, (Ipopt::EJournalLevel)l); }); }
   int scaling(Num os, const Vec* xs, const Vec* gs)
   {
      nlp->os = os; nlp->hxs = xs != NULL; nlp->hgs = gs != NULL;
      if( xs ) nlp->xs = *xs;
      if( gs ) nlp->gs = *gs;
      return 1;
   }
   void setcb(bool on) { cb_on = on; }
   int solve(SolArr& a)
   {
      c->new_solve();
      nlp->a = &a;
      SolArr in = a;
      nlp->a = &in;
      int st = guarded(this, c, [&]() -> int {
         int s = app->Initialize();
         if( s != 0 ) return s;
         if( !in.hx ) return Ipopt::Invalid_Problem_Definition;
         return app->OptimizeTNLP(GetRawPtr(nlp)); });
      nlp->a = NULL;
      if( c->fins.size() )
      {
         const FinRec& f = c->fins.back();
         if( a.hx ) a.x = f.x;
         if( a.hg ) a.g = f.g;
         if( a.hl ) a.lam = f.lam;
         if( a.hzl ) a.zl = f.zl;
         if( a.hzu ) a.zu = f.zu;
         if( a.ho ) a.obj = f.obj;
      }
      return st;
   }
   void release() { guarded(this, c, [&]{ app = NULL; T.armed = false; nlp = NULL; return 0; }); }
   int inspect(int what, bool scaled, int mask, std::vector<Vec>& b, const Ipopt::IpoptData* d, Ipopt::IpoptCalculatedQuantities* cq, const Ipopt::TNLP* t)
   {
      if( t == NULL ) return 0;
      int n = c->P->n, m = c->P->m;
      auto p = [&](int bit, int k) { return mask & bit ? b[k].data() : NULL; };
      if( what == 0 ) return t->get_curr_iterate(d, cq, scaled, n, p(1, 0), p(2, 1), p(2, 2), m, p(4, 3), p(8, 4));
      return t->get_curr_violations(d, cq, scaled, n, p(1, 0), p(1, 1), p(2, 2), p(2, 3), p(4, 4), m, p(8, 5), p(2, 6));
   }
};
// ---------------------------------------------------------------- C
struct CDrv;
struct CUser { Ctx* c; Drv* d; uint64_t magic; const void* idat; const void* ddat; };
static const uint64_t MAGIC = 0x5ca1ab1e0ddba11ULL;
static CUser* cu(void* u)
{
   CUser* k = (CUser*)u;
   if( k == NULL || k->magic != MAGIC ) { T.guard++; T.armed = false; W->violate("C17", "user-data", "the user data pointer did not reach a callback unmodified"); finish_run_and_exit(0); }
   return k;
}
static bool c_f(ipindex n, ipnumber* x, bool nx, ipnumber* v, void* u) { return cu(u)->c->e_f(n, x, nx, *v); }
static bool c_gf(ipindex n, ipnumber* x, bool nx, ipnumber* g, void* u) { return cu(u)->c->e_gf(n, x, nx, g); }
static bool c_g(ipindex n, ipnumber* x, bool nx, ipindex m, ipnumber* g, void* u) { return cu(u)->c->e_g(n, x, nx, m, g); }
static bool c_jg(ipindex n, ipnumber* x, bool nx, ipindex m, ipindex nz, ipindex* r, ipindex* k, ipnumber* v, void* u) { return cu(u)->c->e_jg(n, x, nx, m, nz, r, k, v); }
static bool c_h(ipindex n, ipnumber* x, bool nx, ipnumber sf, ipindex m, ipnumber* lam, bool nl, ipindex nz, ipindex* r, ipindex* k, ipnumber* v, void* u) { return cu(u)->c->e_h(n, x, nx, sf, m, lam, nl, nz, r, k, v); }
static bool c_icb(ipindex mode, ipindex it, ipnumber obj, ipnumber ipr, ipnumber idu, ipnumber mu, ipnumber dn, ipnumber reg, ipnumber adu, ipnumber apr, ipindex ls, void* u)
{
   CUser* k = cu(u);
   if( !k->d->cb_on ) W->violate("C17", "cb-unset", "the intermediate callback was called although it had been unset");
   return k->c->e_icb(mode, it, obj, ipr, idu, mu, dn, reg, adu, apr, ls, NULL, NULL, NULL);
}
static void scribble(Vec& v, Num w) { for( Num& q : v ) q = w; }
struct CDrv : Drv
{
   IpoptProblem p = NULL;
   CUser u;
   explicit CDrv(Ctx* c) : Drv(c) { u.c = c; u.d = this; u.magic = MAGIC; }
   ~CDrv() { release(); }
   bool create()
   {
      Problem& P = *c->P;
      Vec xl = P.xl, xu = P.xu, gl = P.gl, gu = P.gu;
      int r = guarded(this, c, [&]{ p = CreateIpoptProblem(P.n, xl.data(), xu.data(), P.m, gl.data(), gu.data(), (int)P.js.size(), (int)P.hs.size(), P.style == "fortran", c_f, c_g, c_gf, c_jg, c_h); return 0; });
      scribble(xl, 7); scribble(xu, -7); scribble(gl, 9); scribble(gu, -9);      // documented to be copied
      return r == 0 && p != NULL;
   }
   int add(char t, const std::string& k, const std::string& v)
   {
      std::vector<char> kk(k.c_str(), k.c_str() + k.size() + 1), vv(v.c_str(), v.c_str() + v.size() + 1);
      return guarded(this, c, [&]() -> int {
         if( t == 's' ) return AddIpoptStrOption(p, kk.data(), vv.data());
         if( t == 'n' ) return AddIpoptNumOption(p, kk.data(), strtod(v.c_str(), NULL));
         return AddIpoptIntOption(p, kk.data(), (ipindex)strtol(v.c_str(), NULL, 10)); });
   }
   int openfile(const std::string& nm, int l) { std::vector<char> f(nm.c_str(), nm.c_str() + nm.size() + 1); return guarded(this, c, [&]() -> int { return OpenIpoptOutputFile(p, f.data(), l); }); }
   int scaling(Num os, const Vec* xs, const Vec* gs)
   {
      Vec a = xs ? *xs : Vec(), b = gs ? *gs : Vec();
      int r = guarded(this, c, [&]() -> int { return SetIpoptProblemScaling(p, os, xs ? a.data() : NULL, gs ? b.data() : NULL); });
      scribble(a, -3); scribble(b, -3);
      return r;
   }
   void setcb(bool on) { cb_on = on; guarded(this, c, [&]{ SetIntermediateCallback(p, on ? c_icb : NULL); return 0; }); }
   int solve(SolArr& a)
   {
      c->new_solve();
      auto q = [](bool h, Vec& v) { static Num none; return h ? (v.empty() ? &none : v.data()) : NULL; };
      return guarded(this, c, [&]() -> int { return IpoptSolve(p, q(a.hx, a.x), q(a.hg, a.g), a.ho ? &a.obj : NULL, q(a.hl, a.lam), q(a.hzl, a.zl), q(a.hzu, a.zu), &u); });
   }
   void release() { if( p ) guarded(this, c, [&]{ FreeIpoptProblem(p); return 0; }); p = NULL; }
   int inspect(int what, bool scaled, int mask, std::vector<Vec>& b, const Ipopt::IpoptData*, Ipopt::IpoptCalculatedQuantities*, const Ipopt::TNLP*)
   {
      int n = c->P->n, m = c->P->m;
      auto q = [&](int bit, int k) { return mask & bit ? b[k].data() : NULL; };
      if( what == 0 ) return GetIpoptCurrentIterate(p, scaled, n, q(1, 0), q(2, 1), q(2, 2), m, q(4, 3), q(8, 4));
      return GetIpoptCurrentViolations(p, scaled, n, q(1, 0), q(1, 1), q(2, 2), q(2, 3), q(4, 4), m, q(8, 5), q(2, 6));
   }
};
// ---------------------------------------------------------------- Fortran
static Drv* g_fdrv = NULL;
static ipindex g_idat[3] = { 11, 22, 33 };
static ipnumber g_ddat[2] = { 0.25, -4 };
static Ctx* fc(ipindex* ID, ipnumber* DD)
{
   if( ID != g_idat || DD != g_ddat ) W->violate("C17", "fortran-user-data", "IDAT or DDAT did not reach a callback unmodified");
   return g_fdrv->c;
}
static ipindex ferr(bool ok, uint64_t k) { return ok ? 0 : (k % 3 == 0 ? 1 : k % 3 == 1 ? -1 : 77); }
extern "C" {
static void f_f(ipindex* n, ipnumber* x, ipindex* nx, ipnumber* v, ipindex* ID, ipnumber* DD, ipindex* ierr) { Ctx* c = fc(ID, DD); bool ok = c->e_f(*n, x, *nx, *v); *ierr = ferr(ok, c->nev); }
static void f_gf(ipindex* n, ipnumber* x, ipindex* nx, ipnumber* g, ipindex* ID, ipnumber* DD, ipindex* ierr) { Ctx* c = fc(ID, DD); bool ok = c->e_gf(*n, x, *nx, g); *ierr = ferr(ok, c->nev); }
static void f_g(ipindex* n, ipnumber* x, ipindex* nx, ipindex* m, ipnumber* g, ipindex* ID, ipnumber* DD, ipindex* ierr) { Ctx* c = fc(ID, DD); bool ok = c->e_g(*n, x, *nx, *m, g); *ierr = ferr(ok, c->nev); }
static void f_jg(ipindex* task, ipindex* n, ipnumber* x, ipindex* nx, ipindex* m, ipindex* nz, ipindex* r, ipindex* k, ipnumber* v, ipindex* ID, ipnumber* DD, ipindex* ierr)
{
   Ctx* c = fc(ID, DD);
   if( (*task == 0) != (v == NULL) || (*task != 0 && *task != 1) ) W->violate("C17", "fortran-task", fmt("eval_jac_g called with TASK=%d %s values", (int)*task, v ? "with" : "without"));
   bool ok = c->e_jg(*n, x, *nx, *m, *nz, r, k, v); *ierr = ferr(ok, c->nev);
}
static void f_h(ipindex* task, ipindex* n, ipnumber* x, ipindex* nx, ipnumber* sf, ipindex* m, ipnumber* lam, ipindex* nl, ipindex* nz, ipindex* r, ipindex* k, ipnumber* v, ipindex* ID, ipnumber* DD, ipindex* ierr)
{
   Ctx* c = fc(ID, DD);
   if( (*task == 0) != (v == NULL) || (*task != 0 && *task != 1) ) W->violate("C17", "fortran-task", fmt("eval_h called with TASK=%d %s values", (int)*task, v ? "with" : "without"));
   bool ok = c->e_h(*n, x, *nx, *sf, *m, lam, *nl, *nz, r, k, v); *ierr = ferr(ok, c->nev);
}
static void f_icb(ipindex* mode, ipindex* it, ipnumber* obj, ipnumber* ipr, ipnumber* idu, ipnumber* mu, ipnumber* dn, ipnumber* reg, ipnumber* adu, ipnumber* apr, ipindex* ls, ipindex* ID, ipnumber* DD, ipindex* istop)
{
   Ctx* c = fc(ID, DD);
   if( !g_fdrv->cb_on ) W->violate("C17", "cb-unset", "the intermediate callback was called although it had been unset");
   if( *istop != 0 ) W->violate("C17", "fortran-istop", "the intermediate callback was called with ISTOP set");
   bool go = c->e_icb(*mode, *it, *obj, *ipr, *idu, *mu, *dn, *reg, *adu, *apr, *ls, NULL, NULL, NULL);
   *istop = ferr(go, c->nev);
}
}
struct FDrv : Drv
{
   fptr p = NULL;
   explicit FDrv(Ctx* c) : Drv(c) { g_fdrv = this; }
   ~FDrv() { release(); }
   static std::vector<char> fs(const std::string& s, size_t& len, int pad) { std::string t = s + std::string(pad, ' '); len = t.size(); t += "#garbage"; return std::vector<char>(t.begin(), t.end()); }
   bool create()
   {
      Problem& P = *c->P;
      Vec xl = P.xl, xu = P.xu, gl = P.gl, gu = P.gu;
      ipindex n = P.n, m = P.m, nj = (int)P.js.size(), nh = (int)P.hs.size(), st = P.style == "fortran";
      int r = guarded(this, c, [&]{ p = ipcreate_(&n, xl.data(), xu.data(), &m, gl.data(), gu.data(), &nj, &nh, &st, (void*)f_f, (void*)f_g, (void*)f_gf, (void*)f_jg, (void*)f_h); return 0; });
      scribble(xl, 7); scribble(xu, -7); scribble(gl, 9); scribble(gu, -9);
      n = m = nj = nh = st = -5;
      return r == 0 && p != NULL;
   }
   int add(char t, const std::string& k, const std::string& v)
   {
      size_t kl, vl;
      std::vector<char> kk = fs(k, kl, (int)(k.size() * 7 % 13)), vv = fs(v, vl, (int)((k.size() + v.size()) % 5));
      ipnumber d = strtod(v.c_str(), NULL); ipindex i = (ipindex)strtol(v.c_str(), NULL, 10);
      int r = guarded(this, c, [&]() -> int {
         if( t == 's' ) return ipaddstroption_(&p, kk.data(), vv.data(), (int)kl, (int)vl);
         if( t == 'n' ) return ipaddnumoption_(&p, kk.data(), &d, (int)kl);
         return ipaddintoption_(&p, kk.data(), &i, (int)kl); });
      return r == -1000 ? r : r == 0;
   }
   int openfile(const std::string& nm, int l) { size_t k; std::vector<char> f = fs(nm, k, 3); ipindex lv = l; int r = guarded(this, c, [&]() -> int { return ipopenoutputfile_(&p, f.data(), &lv, (int)k); }); return r == -1000 ? r : r == 0; }
   int scaling(Num os, const Vec* xs, const Vec* gs)
   {
      Vec a = xs ? *xs : Vec(), b = gs ? *gs : Vec();
      int r = guarded(this, c, [&]() -> int { return ipsetproblemscaling_(&p, &os, xs ? a.data() : NULL, gs ? b.data() : NULL); });
      scribble(a, -3); scribble(b, -3);
      return r == -1000 ? r : r == 0;
   }
   void setcb(bool on) { cb_on = on; guarded(this, c, [&]{ if( on ) ipsetcallback_(&p, (void*)f_icb); else ipunsetcallback_(&p); return 0; }); }
   int solve(SolArr& a)
   {
      c->new_solve();
      auto q = [](bool h, Vec& v) { static Num none; return h ? (v.empty() ? &none : v.data()) : NULL; };
      return guarded(this, c, [&]() -> int { return ipsolve_(&p, q(a.hx, a.x), q(a.hg, a.g), a.ho ? &a.obj : NULL, q(a.hl, a.lam), q(a.hzl, a.zl), q(a.hzu, a.zu), g_idat, g_ddat); });
   }
   void release() { if( p ) { guarded(this, c, [&]{ ipfree_(&p); return 0; }); if( p ) W->violate("C17", "fortran-free", "IPFREE did not reset the problem handle"); } p = NULL; }
   int inspect(int what, bool scaled, int mask, std::vector<Vec>& b, const Ipopt::IpoptData*, Ipopt::IpoptCalculatedQuantities*, const Ipopt::TNLP*)
   {
      ipindex n = c->P->n, m = c->P->m, sc = scaled, m1 = mask & 1, m2 = (mask & 2) ? 5 : 0, m4 = mask & 4, m8 = mask & 8;
      if( what == 0 ) return ipgetcurriterate_(&p, &sc, &m1, &m2, &m4, &m8, &n, b[0].data(), b[1].data(), b[2].data(), &m, b[3].data(), b[4].data()) == 0;
      return ipgetcurrviolations_(&p, &sc, &m1, &m2, &m4, &m8, &n, b[0].data(), b[1].data(), b[2].data(), b[3].data(), b[4].data(), &m, b[5].data(), b[6].data()) == 0;
   }
};
std::unique_ptr<Drv> make_drv(int i, Ctx* c)
{
   if( i == IF_CPP ) return std::unique_ptr<Drv>(new CppDrv(c));
   if( i == IF_C ) return std::unique_ptr<Drv>(new CDrv(c));
   return std::unique_ptr<Drv>(new FDrv(c));
}
int n_bad_create() { return 13; }
bool bad_create(Ctx* c, int iface, int k, std::string& what)
{
   Problem& P = *c->P;
   Vec xl = P.xl, xu = P.xu, gl = P.gl, gu = P.gu;
   if( gl.empty() ) { gl.push_back(0); gu.push_back(0); }
   ipindex n = P.n, m = std::max(1, P.m), nj = std::max<int>(1, (int)P.js.size()), nh = (int)P.hs.size(), st = 0;
   ipnumber *a = xl.data(), *b = xu.data(), *d = gl.data(), *e = gu.data();
   Eval_F_CB F = c_f; Eval_G_CB G = c_g; Eval_Grad_F_CB GF = c_gf; Eval_Jac_G_CB J = c_jg; Eval_H_CB H = c_h;
   switch( k )
   {
      case 0: what = "n=0"; n = 0; break;
      case 1: what = "n=-1"; n = -1; break;
      case 2: what = "m=-1"; m = -1; break;
      case 3: what = "no lower bounds on x"; a = NULL; break;
      case 4: what = "no upper bounds on x"; b = NULL; break;
      case 5: what = "no lower bounds on g"; d = NULL; break;
      case 6: what = "no upper bounds on g"; e = NULL; break;
      case 7: what = "m=0 with nonzeros in the Jacobian"; m = 0; break;
      case 8: what = "negative number of nonzeros in the Hessian"; nh = -1; break;
      case 9: what = "no eval_f"; F = NULL; break;
      case 10: what = "no eval_grad_f"; GF = NULL; break;
      case 11: what = "no eval_g"; G = NULL; break;
      case 12: what = "no eval_jac_g"; J = NULL; break;
   }
   if( iface == IF_F && k >= 9 ) return true;   // the Fortran interface puts its own functions there
   if( iface == IF_F )
   {
      fptr p = ipcreate_(&n, a, b, &m, d, e, &nj, &nh, &st, (void*)f_f, (void*)f_g, (void*)f_gf, (void*)f_jg, (void*)f_h);
      if( p ) ipfree_(&p); else return true;
      return false;
   }
   IpoptProblem p = CreateIpoptProblem(n, a, b, m, d, e, nj, nh, st, F, G, GF, J, H);
   if( p ) { FreeIpoptProblem(p); return false; }
   return true;
}
int odd_solve(Ctx* c, int k, SolArr& a, std::string& what)
{
   CDrv d(c);
   Problem& P = *c->P;
   Vec xl = P.xl, xu = P.xu, gl = P.gl, gu = P.gu;
   ipindex st = P.style == "fortran";
   Eval_H_CB H = c_h;
   if( k % 4 == 0 ) { what = "index style 2"; st = 2; }
   else if( k % 4 == 1 ) { what = "index style -1"; st = -1; }
   else if( k % 4 == 2 ) { what = "no eval_h"; H = NULL; }
   else what = "no starting point";
   d.p = CreateIpoptProblem(P.n, xl.data(), xu.data(), P.m, gl.data(), gu.data(), (int)P.js.size(), (int)P.hs.size(), st, c_f, c_g, c_gf, c_jg, H);
   if( d.p == NULL ) return -11;
   d.add('i', "print_level", "0"); d.add('s', "sb", "yes");
   d.setcb(true);
   if( k % 4 == 3 ) a.hx = false;
   int r = d.solve(a);
   d.release();
   return r;
}
}
