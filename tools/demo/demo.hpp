// Small NLP with functions given by lambdas, for demonstrations.
#pragma once
#include "IpIpoptApplication.hpp"
#include "IpTNLP.hpp"
#include "IpSolveStatistics.hpp"
#include <functional>
#include <vector>
#include <cstdio>
#include <cmath>
#include <string>
#include <sstream>
using namespace Ipopt;
typedef std::vector<double> V;
struct Demo : public TNLP
{
   int n = 0, m = 0;
   V xl, xu, gl, gu, x0, lam0, zl0, zu0;
   std::function<double(const double*)> f;
   std::function<void(const double*, double*)> gf;                    // gradient
   std::function<void(const double*, double*)> g;                     // constraints
   std::function<void(const double*, double*)> jg;                    // dense Jacobian, row by row
   std::function<void(const double*, double, const double*, double*)> h;   // dense lower triangle, row by row
   std::function<bool(int site, int call)> fail;                      // site 0 f, 1 gf, 2 g, 3 jg, 4 h
   std::function<bool(AlgorithmMode, int, double, double, double, double, double, const IpoptData*, IpoptCalculatedQuantities*)> icb;
   std::function<void(SolverReturn)> atfin;
   int calls[5] = {0, 0, 0, 0, 0}, fins = 0, iters = 0;
   SolverReturn st = UNASSIGNED;
   V x, zl, zu, lam, gv; double obj = 0;
   bool bad(int s) { ++calls[s]; return fail && fail(s, calls[s]); }
   bool get_nlp_info(Index& nn, Index& mm, Index& nj, Index& nh, IndexStyleEnum& s) override { nn = n; mm = m; nj = n * m; nh = n * (n + 1) / 2; s = C_STYLE; return true; }
   bool get_bounds_info(Index, Number* a, Number* b, Index, Number* c, Number* d) override
   {
      for( int i = 0; i < n; ++i ) { a[i] = xl[i]; b[i] = xu[i]; }
      for( int i = 0; i < m; ++i ) { c[i] = gl[i]; d[i] = gu[i]; }
      return true;
   }
   bool get_starting_point(Index, bool ix, Number* p, bool iz, Number* a, Number* b, Index, bool il, Number* l) override
   {
      for( int i = 0; ix && i < n; ++i ) p[i] = x0[i];
      for( int i = 0; iz && i < n; ++i ) { a[i] = zl0[i]; b[i] = zu0[i]; }
      for( int i = 0; il && i < m; ++i ) l[i] = lam0[i];
      return true;
   }
   bool eval_f(Index, const Number* p, bool, Number& v) override { if( bad(0) ) return false; v = f(p); return true; }
   bool eval_grad_f(Index, const Number* p, bool, Number* v) override { if( bad(1) ) return false; gf(p, v); return true; }
   bool eval_g(Index, const Number* p, bool, Index, Number* v) override { if( bad(2) ) return false; g(p, v); return true; }
   bool eval_jac_g(Index, const Number* p, bool, Index, Index, Index* r, Index* c, Number* v) override
   {
      if( !v ) { for( int j = 0; j < m; ++j ) for( int i = 0; i < n; ++i ) { r[j * n + i] = j; c[j * n + i] = i; } return true; }
      if( bad(3) ) return false;
      jg(p, v);
      return true;
   }
   bool eval_h(Index, const Number* p, bool, Number sf, Index, const Number* l, bool, Index nz, Index* r, Index* c, Number* v) override
   {
      if( !v ) { int k = 0; for( int i = 0; i < n; ++i ) for( int j = 0; j <= i; ++j, ++k ) { r[k] = i; c[k] = j; } return true; }
      if( bad(4) ) return false;
      for( int k = 0; k < nz; ++k ) v[k] = 0;
      h(p, sf, l, v);
      return true;
   }
   void finalize_solution(SolverReturn s, Index, const Number* p, const Number* a, const Number* b, Index, const Number* gg, const Number* l, Number o, const IpoptData*, IpoptCalculatedQuantities*) override
   {
      ++fins; st = s; x.assign(p, p + n); zl.assign(a, a + n); zu.assign(b, b + n);
      gv.assign(gg, gg + m); lam.assign(l, l + m); obj = o;
      if( atfin ) atfin(s);
   }
   bool intermediate_callback(AlgorithmMode mode, Index it, Number ob, Number ip, Number id, Number mu, Number, Number, Number, Number al, Index, const IpoptData* d, IpoptCalculatedQuantities* cq) override
   {
      ++iters;
      return icb ? icb(mode, it, ob, ip, id, mu, al, d, cq) : true;
   }
};
inline SmartPtr<IpoptApplication> make_app()
{
   SmartPtr<IpoptApplication> a = new IpoptApplication(false);
   a->Options()->SetIntegerValue("print_level", 0);
   a->Options()->SetStringValue("sb", "yes");
   return a;
}
#define CHECK(c, ...) do { if( !(c) ) { printf("FAILED: " __VA_ARGS__); printf("\n"); return 1; } } while( 0 )
