#include "sim.hpp"
namespace sim
{
static Num ipow(Num x, int e) { Num r = 1; for( int i = 0; i < e; ++i ) r *= x; return r; }

Num Func::value(const Num* x) const
{
   Num s = 0;
   for( auto& q : t )
   {
      switch( q.kind )
      {
         case 0: s += q.a; break;
         case 1: { Num p = q.a; for( int k = 0; k < 4; ++k ) if( q.e[k] ) p *= ipow(x[q.v[k]], q.e[k]); s += p; break; }
         case 2: s += q.a * (x[q.v[0]] - q.b) * (x[q.v[0]] - q.b); break;
         case 3: { Num d = x[q.v[0]] - x[q.v[1]] - q.b; s += q.a * d * d; break; }
         case 4: s += q.a * std::exp(q.b * x[q.v[0]]); break;
         case 5: s += q.a * std::log(x[q.v[0]] - q.b); break;
         case 6: s += q.a * std::sin(q.b * x[q.v[0]]); break;
         case 7: s += q.a * ipow(x[q.v[0]] - q.b, 4); break;
         case 8: s += q.a * std::sqrt(x[q.v[0]] - q.b); break;
         case 9: s += q.a / (x[q.v[0]] - q.b); break;
      }
   }
   return s;
}
void Func::grad(const Num* x, Num* g, Num w) const
{
   for( auto& q : t )
   {
      int i = q.v[0];
      switch( q.kind )
      {
         case 0: break;
         case 1:
            for( int k = 0; k < 4; ++k ) if( q.e[k] )
            {
               Num p = q.a * q.e[k] * ipow(x[q.v[k]], q.e[k] - 1);
               for( int l = 0; l < 4; ++l ) if( l != k && q.e[l] ) p *= ipow(x[q.v[l]], q.e[l]);
               g[q.v[k]] += w * p;
            }
            break;
         case 2: g[i] += w * 2 * q.a * (x[i] - q.b); break;
         case 3: { Num d = 2 * q.a * (x[i] - x[q.v[1]] - q.b); g[i] += w * d; g[q.v[1]] -= w * d; break; }
         case 4: g[i] += w * q.a * q.b * std::exp(q.b * x[i]); break;
         case 5: g[i] += x[i] - q.b >= 0 ? w * q.a / (x[i] - q.b) : std::numeric_limits<Num>::quiet_NaN(); break;
         case 6: g[i] += w * q.a * q.b * std::cos(q.b * x[i]); break;
         case 7: g[i] += w * 4 * q.a * ipow(x[i] - q.b, 3); break;
         case 8: g[i] += w * 0.5 * q.a / std::sqrt(x[i] - q.b); break;
         case 9: g[i] -= w * q.a / ((x[i] - q.b) * (x[i] - q.b)); break;
      }
   }
}
void Func::hess(const Num* x, Num w, std::map<std::pair<int, int>, Num>& H) const
{
   auto add = [&](int i, int j, Num v) { if( i < j ) std::swap(i, j); H[std::make_pair(i, j)] += v; };
   for( auto& q : t )
   {
      int i = q.v[0];
      switch( q.kind )
      {
         case 0: break;
         case 1:
            for( int k = 0; k < 4; ++k ) if( q.e[k] )
            {
               if( q.e[k] >= 2 )
               {
                  Num p = q.a * q.e[k] * (q.e[k] - 1) * ipow(x[q.v[k]], q.e[k] - 2);
                  for( int l = 0; l < 4; ++l ) if( l != k && q.e[l] ) p *= ipow(x[q.v[l]], q.e[l]);
                  add(q.v[k], q.v[k], w * p);
               }
               for( int k2 = 0; k2 < k; ++k2 ) if( q.e[k2] )
               {
                  Num p = q.a * q.e[k] * ipow(x[q.v[k]], q.e[k] - 1) * q.e[k2] * ipow(x[q.v[k2]], q.e[k2] - 1);
                  for( int l = 0; l < 4; ++l ) if( l != k && l != k2 && q.e[l] ) p *= ipow(x[q.v[l]], q.e[l]);
                  add(q.v[k], q.v[k2], w * p);
               }
            }
            break;
         case 2: add(i, i, w * 2 * q.a); break;
         case 3: { int j = q.v[1]; add(i, i, w * 2 * q.a); add(j, j, w * 2 * q.a); add(i, j, -w * 2 * q.a); break; }
         case 4: add(i, i, w * q.a * q.b * q.b * std::exp(q.b * x[i])); break;
         case 5: add(i, i, -w * q.a / ((x[i] - q.b) * (x[i] - q.b))); break;
         case 6: add(i, i, -w * q.a * q.b * q.b * std::sin(q.b * x[i])); break;
         case 7: add(i, i, w * 12 * q.a * ipow(x[i] - q.b, 2)); break;
         case 8: add(i, i, -w * 0.25 * q.a / (std::sqrt(x[i] - q.b) * (x[i] - q.b))); break;
         case 9: add(i, i, w * 2 * q.a / ipow(x[i] - q.b, 3)); break;
      }
   }
}
bool Func::linear() const
{
   for( auto& q : t )
   {
      if( q.kind == 0 ) continue;
      if( q.kind != 1 ) return false;
      if( q.e[0] + q.e[1] + q.e[2] + q.e[3] > 1 ) return false;
   }
   return true;
}
bool Func::quadratic() const
{
   for( auto& q : t )
   {
      if( q.kind == 0 || q.kind == 2 || q.kind == 3 ) continue;
      if( q.kind != 1 ) return false;
      if( q.e[0] + q.e[1] + q.e[2] + q.e[3] > 2 ) return false;
   }
   return true;
}
void Func::vars(std::set<int>& s) const
{
   for( auto& q : t )
   {
      if( q.kind == 0 ) continue;
      if( q.kind == 1 ) { for( int k = 0; k < 4; ++k ) if( q.e[k] ) s.insert(q.v[k]); }
      else { s.insert(q.v[0]); if( q.kind == 3 ) s.insert(q.v[1]); }
   }
}
void Func::nlvars(std::set<int>& s) const
{
   for( auto& q : t )
   {
      if( q.kind == 0 ) continue;
      if( q.kind == 1 ) { if( q.e[0] + q.e[1] + q.e[2] + q.e[3] > 1 ) for( int k = 0; k < 4; ++k ) if( q.e[k] ) s.insert(q.v[k]); }
      else { s.insert(q.v[0]); if( q.kind == 3 ) s.insert(q.v[1]); }
   }
}
void Problem::finish(bool dup, bool upper, Rng& r)
{
   n = (int)xl.size();
   m = (int)g.size();
   js.clear(); hs.clear(); hsw.clear();
   for( int j = 0; j < m; ++j )
   {
      std::set<int> s;
      g[j].vars(s);
      for( int i : s ) js.push_back(std::make_pair(j, i));
   }
   for( size_t k = js.size(); k > 1; --k ) if( r.p(0.5) ) std::swap(js[k - 1], js[r.u64() % k]);
   std::map<std::pair<int, int>, Num> H;
   Vec one(n, 1.2345);
   f.hess(one.data(), 1, H);
   for( auto& q : g ) q.hess(one.data(), 1, H);
   for( auto& e : H )
   {
      std::pair<int, int> ij = e.first;
      if( upper && r.p(0.5) ) std::swap(ij.first, ij.second);
      if( dup && r.p(0.3) ) { hs.push_back(ij); hsw.push_back(0.25); hs.push_back(ij); hsw.push_back(0.75); }
      else { hs.push_back(ij); hsw.push_back(1.); }
   }
   if( style.empty() ) style = r.p(0.5) ? "c" : "fortran";
}
void Problem::jac(const Num* x, Num* v) const
{
   std::vector<Vec> G(m, Vec(n, 0.));
   for( int j = 0; j < m; ++j ) g[j].grad(x, G[j].data(), 1.);
   for( size_t k = 0; k < js.size(); ++k ) v[k] = G[js[k].first][js[k].second];
}
void Problem::hess(const Num* x, Num sf, const Num* lam, Num* v) const
{
   std::map<std::pair<int, int>, Num> H;
   if( sf != 0. ) f.hess(x, sf, H);
   for( int j = 0; j < m; ++j ) if( lam[j] != 0. ) g[j].hess(x, lam[j], H);
   for( size_t k = 0; k < hs.size(); ++k )
   {
      std::pair<int, int> ij = hs[k];
      if( ij.first < ij.second ) std::swap(ij.first, ij.second);
      auto q = H.find(ij);
      v[k] = q == H.end() ? 0. : hsw[k] * q->second;
   }
}

static Term T0(Num a) { Term t = {0, {0, 0, 0, 0}, {0, 0, 0, 0}, a, 0}; return t; }
static Term Tm(Num a, std::vector<std::pair<int, int> > ve)
{
   Term t = {1, {0, 0, 0, 0}, {0, 0, 0, 0}, a, 0};
   for( size_t k = 0; k < ve.size() && k < 4; ++k ) { t.v[k] = ve[k].first; t.e[k] = ve[k].second; }
   return t;
}
static Term Tl(Num a, int i) { return Tm(a, {{i, 1}}); }
static Term Tk(int kind, Num a, int i, Num b, int j = 0) { Term t = {kind, {i, j, 0, 0}, {0, 0, 0, 0}, a, b}; return t; }
static Num r2(Rng& r, Num a, Num b) { return std::round(r.uni(a, b) * 64.) / 64.; }

const std::vector<std::string>& all_families()
{
   static std::vector<std::string> v = { "convex", "nonconvex", "hs071", "rosenbrock", "wb", "infeas", "infeas2", "degen", "square", "domain", "unbounded",
      "noconstr", "boundqp", "hs006", "hs015", "lp", "allfixed", "circle", "narrow", "scaled", "squarelin", "badbounds", "overdet", "freeeq", "domaineq" };
   return v;
}

static void bounds_around(Problem& P, Rng& r, Num pL, Num pU, Num pfix)
{
   for( int i = 0; i < P.n; ++i )
   {
      Num c = P.xint[i];
      P.xl[i] = -2e19; P.xu[i] = 2e19;
      if( r.p(pfix) ) { P.xl[i] = P.xu[i] = c; continue; }
      if( r.p(pL) ) P.xl[i] = c - r2(r, 0.25, 4);
      if( r.p(pU) ) P.xu[i] = c + r2(r, 0.25, 4);
   }
}

Problem make_problem(const std::string& fam, uint64_t seed, int n, int m, const std::map<std::string, std::string>& kv)
{
   Rng r(seed * 7919 + hstr(fam));
   Problem P;
   P.family = fam; P.seed = seed;
   auto get = [&](const char* k, const char* d) { auto i = kv.find(k); return i == kv.end() ? std::string(d) : i->second; };
   bool dup = get("dup", "0") == "1", upper = get("upper", "0") == "1";
   Num pfix = strtod(get("pfix", "0.1").c_str(), NULL);
   auto init = [&](int nn) { n = nn; P.n = nn; P.xl.assign(nn, -2e19); P.xu.assign(nn, 2e19); P.x0.assign(nn, 0.); P.xint.assign(nn, 0.); };
   auto con = [&](const Func& q, Num lo, Num up) { P.g.push_back(q); P.gl.push_back(lo); P.gu.push_back(up); };
   if( n < 1 ) n = 1;
   if( fam == "convex" || fam == "boundqp" || fam == "noconstr" || fam == "lp" || fam == "scaled" || fam == "freeeq" )
   {
      init(n);
      if( fam == "noconstr" || fam == "boundqp" ) m = 0;
      for( int i = 0; i < n; ++i ) P.xint[i] = r2(r, -3, 3);
      bool lp = fam == "lp";
      if( fam == "noconstr" ) { /* no bounds either */ }
      else if( lp ) { bounds_around(P, r, 1., 1., pfix); }
      else if( fam == "freeeq" ) { /* free variables, equalities only */ }
      else bounds_around(P, r, 0.6, 0.6, pfix);
      Num osc = fam == "scaled" ? std::pow(10., r.in(-2, 5)) : 1.;
      for( int i = 0; i < n; ++i )
      {
         if( lp ) { P.f.t.push_back(Tl(r2(r, -2, 2), i)); continue; }
         P.f.t.push_back(Tk(2, osc * r2(r, 0.125, 3), i, r2(r, -5, 5)));
         if( i + 1 < n && r.p(0.5) ) P.f.t.push_back(Tk(3, osc * r2(r, 0.125, 2), i, r2(r, -1, 1), i + 1));
         if( fam != "boundqp" && r.p(0.2) ) P.f.t.push_back(Tk(4, osc * r2(r, 0.125, 1), i, r.p(0.5) ? 0.5 : -0.5));
         if( fam != "boundqp" && r.p(0.2) ) P.f.t.push_back(Tk(7, osc * r2(r, 0.125, 1), i, r2(r, -2, 2)));
         if( r.p(0.3) ) P.f.t.push_back(Tl(osc * r2(r, -2, 2), i));
      }
      int neq = 0;
      for( int j = 0; j < m; ++j )
      {
         Func q;
         std::set<int> vs;
         int k = r.in(1, std::min(n, 3));
         while( (int)vs.size() < k ) vs.insert(r.in(0, n - 1));
         bool eq = fam == "freeeq" || (r.p(0.4) && neq < n - 1 - (int)(pfix * n));
         if( fam == "freeeq" && neq >= n - 1 ) break;
         bool nl = !eq && !lp && r.p(0.4);
         Num csc = fam == "scaled" ? std::pow(10., r.in(-3, 4)) : 1.;
         for( int i : vs )
         {
            if( nl ) q.t.push_back(Tk(2, csc * r2(r, 0.25, 2), i, r2(r, -2, 2)));
            else { Num a = r2(r, -2, 2); if( std::abs(a) < 0.25 ) a = 0.25; q.t.push_back(Tl(csc * a, i)); }
         }
         Num v = q.value(P.xint.data());
         if( eq )
         {
            // keep equalities independent: a fresh dominant variable per row
            q.t.push_back(Tl(csc * 3., neq % n));
            v = q.value(P.xint.data());
            con(q, v, v);
            ++neq;
         }
         else if( nl ) con(q, -2e19, v + csc * r2(r, 0.25, 3));
         else
         {
            int kind = r.in(0, 2);
            con(q, kind == 0 ? -2e19 : v - csc * r2(r, 0.25, 3), kind == 1 ? 2e19 : v + csc * r2(r, 0.25, 3));
         }
      }
      P.convex = true; P.bounded = true;
      P.slater = true;
      for( int i = 0; i < n; ++i ) P.x0[i] = r2(r, -6, 6);
   }
   else if( fam == "nonconvex" || fam == "domain" || fam == "domaineq" )
   {
      init(n);
      bool dom = fam != "nonconvex";
      for( int i = 0; i < n; ++i ) P.xint[i] = r2(r, 0.5, 3);
      bounds_around(P, r, 0.8, 0.8, pfix);
      for( int i = 0; i < n; ++i )
      {
         if( !P.fixed(i) )
         {
            if( P.xl[i] < -1e19 && !dom ) P.xl[i] = -8;
            if( P.xu[i] > 1e19 ) P.xu[i] = 8;
         }
         int j = r.in(0, n - 1);
         P.f.t.push_back(Tk(2, r2(r, -1, 2), i, r2(r, -3, 3)));
         if( j != i && r.p(0.6) ) P.f.t.push_back(Tm(r2(r, -2, 2), {{i, 1}, {j, 1}}));
         if( r.p(0.4) ) P.f.t.push_back(Tk(6, r2(r, -2, 2), i, r2(r, 0.5, 2)));
         if( r.p(0.2) ) P.f.t.push_back(Tm(r2(r, -0.5, 0.5), {{i, 3}}));
         if( dom && r.p(0.6) ) P.f.t.push_back(Tk(r.p(0.7) ? 5 : 9, r2(r, -2, 2), i, 0.));
         if( dom && r.p(0.2) ) P.f.t.push_back(Tk(8, r2(r, -2, 2), i, 0.));
      }
      int neq = 0;
      for( int j = 0; j < m; ++j )
      {
         Func q;
         int k = r.in(1, std::min(n, 3));
         std::set<int> vs;
         while( (int)vs.size() < k ) vs.insert(r.in(0, n - 1));
         int prev = -1;
         for( int i : vs )
         {
            q.t.push_back(Tl(r2(r, -2, 2), i));
            if( r.p(0.5) ) q.t.push_back(Tm(r2(r, -1, 1), {{i, 2}}));
            if( prev >= 0 && r.p(0.5) ) q.t.push_back(Tm(r2(r, -1, 1), {{i, 1}, {prev, 1}}));
            if( fam == "domaineq" && r.p(0.5) ) q.t.push_back(Tk(5, r2(r, 0.5, 2), i, 0.));
            prev = i;
         }
         Num v = q.value(P.xint.data());
         bool eq = r.p(0.4) && neq < n - 1;
         if( eq ) { con(q, v, v); ++neq; }
         else
         {
            int kind = r.in(0, 2);
            con(q, kind == 0 ? -2e19 : v - r2(r, 0.25, 3), kind == 1 ? 2e19 : v + r2(r, 0.25, 3));
         }
      }
      P.domain = dom;
      for( int i = 0; i < n; ++i ) P.x0[i] = dom ? r2(r, 0.25, 5) : r2(r, -6, 6);
   }
   else if( fam == "hs071" )
   {
      init(4);
      for( int i = 0; i < 4; ++i ) { P.xl[i] = 1; P.xu[i] = 5; }
      P.x0 = {1, 5, 5, 1}; P.xint = {1, 4.743, 3.821, 1.379};
      P.f.t = { Tm(1, {{0, 2}, {3, 1}}), Tm(1, {{0, 1}, {1, 1}, {3, 1}}), Tm(1, {{0, 1}, {2, 1}, {3, 1}}), Tl(1, 2) };
      Func a, b;
      a.t = { Tm(1, {{0, 1}, {1, 1}, {2, 1}, {3, 1}}) };
      for( int i = 0; i < 4; ++i ) b.t.push_back(Tm(1, {{i, 2}}));
      con(a, 25, 2e19); con(b, 40, 40);
      if( seed % 3 ) for( int i = 0; i < 4; ++i ) P.x0[i] = r2(r, 1, 5);
   }
   else if( fam == "rosenbrock" )
   {
      init(std::max(2, n));
      for( int i = 0; i + 1 < n; ++i )
      {
         P.f.t.push_back(Tm(100, {{i, 4}}));
         P.f.t.push_back(Tm(-200, {{i, 2}, {i + 1, 1}}));
         P.f.t.push_back(Tm(100, {{i + 1, 2}}));
         P.f.t.push_back(Tk(2, 1, i, 1));
      }
      for( int i = 0; i < n; ++i ) P.x0[i] = i % 2 ? 1. : -1.2;
      if( r.p(0.5) ) { P.xu[0] = 0.5; }
   }
   else if( fam == "wb" ) // Waechter/Biegler: needs the restoration phase
   {
      init(3);
      Num a = r.p(0.5) ? 1. : r2(r, -1, 2), b = r.p(0.5) ? 0.5 : r2(r, 0.25, 2);
      P.f.t = { Tl(1, 0) };
      Func q1, q2;
      q1.t = { Tm(1, {{0, 2}}), Tl(-1, 1) };
      q2.t = { Tl(1, 0), Tl(-1, 2) };
      con(q1, a, a); con(q2, b, b);
      P.xl[1] = 0; P.xl[2] = 0;
      P.x0 = { -2., 3., 1. };
      if( seed % 4 ) P.x0 = { r2(r, -5, 0), r2(r, 0.5, 4), r2(r, 0.5, 4) };
   }
   else if( fam == "infeas" )
   {
      init(std::max(2, n));
      for( int i = 0; i < n; ++i ) { P.f.t.push_back(Tk(2, 1, i, r2(r, -2, 2))); P.x0[i] = r2(r, -3, 3); if( r.p(0.4) ) P.xl[i] = -4; }
      Func q;
      q.t = { Tm(1, {{0, 2}}), Tm(1, {{1, 2}}) };
      con(q, -2e19, -r2(r, 0.5, 3));
      if( m > 1 ) { Func l; l.t = { Tl(1, 0), Tl(1, 1) }; Num v = r2(r, -1, 1); con(l, v, v); }
      P.infeasible = true;
   }
   else if( fam == "infeas2" )
   {
      init(std::max(2, n));
      for( int i = 0; i < n; ++i ) { P.f.t.push_back(Tk(2, 1, i, r2(r, -2, 2))); P.xl[i] = 0; P.xu[i] = 1; P.x0[i] = 0.5; }
      Func q;
      for( int i = 0; i < n; ++i ) q.t.push_back(Tl(1, i));
      if( r.p(0.5) ) con(q, n + r2(r, 0.5, 2), 2e19); else con(q, n + 1., n + 1.);
      P.infeasible = true;
   }
   else if( fam == "degen" ) // linearly dependent equality constraints, maybe fixed variables
   {
      init(std::max(3, n));
      for( int i = 0; i < n; ++i ) { P.xint[i] = r2(r, -1, 1); P.f.t.push_back(Tk(2, r2(r, 0.5, 2), i, r2(r, -2, 2))); P.x0[i] = r2(r, -2, 2); }
      bounds_around(P, r, 0.5, 0.5, pfix);
      Func q, q2;
      q.t = { Tl(1, 0), Tl(1, 1), Tl(-1, 2) };
      q2.t = { Tl(2, 0), Tl(2, 1), Tl(-2, 2) };
      Num v = q.value(P.xint.data());
      con(q, v, v); con(q2, 2 * v, 2 * v);
      P.convex = true; P.bounded = true;
      if( m > 3 ) { Func l; l.t = { Tl(1, 1), Tl(0.5, 2) }; Num w = l.value(P.xint.data()); con(l, w - 1, w + 1); }
   }
   else if( fam == "square" || fam == "squarelin" )
   {
      init(std::max(1, std::min(n, 4)));
      for( int i = 0; i < n; ++i )
      {
         P.xint[i] = r2(r, -2, 2);
         P.x0[i] = P.xint[i] + r2(r, -1, 1);
      }
      for( int j = 0; j < n; ++j )
      {
         Func q;
         q.t = { Tl(2, j) };
         if( n > 1 ) q.t.push_back(Tl(r2(r, -0.75, 0.75), (j + 1) % n));
         if( fam == "square" ) q.t.push_back(r.p(0.5) ? Tk(6, 0.5, j, 1) : Tm(0.125, {{j, 3}}));
         Num v = q.value(P.xint.data());
         con(q, v, v);
      }
      if( r.p(0.5) ) P.f.t.push_back(Tl(1, 0));
      if( r.p(0.3) ) bounds_around(P, r, 0.5, 0.5, 0.);
   }
   else if( fam == "overdet" ) // more equalities than (free) variables
   {
      init(2);
      Func q1, q2, q3;
      q1.t = { Tl(1, 0), Tl(1, 1) }; q2.t = { Tl(1, 0), Tl(-1, 1) }; q3.t = { Tl(2, 0), Tl(1, 1) };
      P.xint = { r2(r, -1, 1), r2(r, -1, 1) };
      con(q1, q1.value(P.xint.data()), q1.value(P.xint.data()));
      con(q2, q2.value(P.xint.data()), q2.value(P.xint.data()));
      con(q3, q3.value(P.xint.data()), q3.value(P.xint.data()));
      P.f.t = { Tk(2, 1, 0, 0) };
      P.x0 = { 1, 1 };
   }
   else if( fam == "unbounded" )
   {
      init(std::max(1, n));
      for( int i = 0; i < n; ++i ) { P.f.t.push_back(Tl(i == 0 ? -1 : 0.5, i)); P.x0[i] = 1; if( i ) { P.xl[i] = -1; P.xu[i] = 5; } }
      if( r.p(0.5) ) P.f.t.push_back(Tm(-0.5, {{0, 2}}));
      P.xl[0] = 0;
   }
   else if( fam == "hs006" )
   {
      init(2);
      P.f.t = { Tk(2, 1, 0, 1) };
      Func q; q.t = { Tl(10, 1), Tm(-10, {{0, 2}}) };
      con(q, 0, 0);
      P.x0 = { -1.2, 1 };
      if( seed % 2 ) P.x0 = { r2(r, -4, 4), r2(r, -4, 4) };
   }
   else if( fam == "hs015" )
   {
      init(2);
      P.f.t = { Tm(100, {{1, 2}}), Tm(-200, {{1, 1}, {0, 2}}), Tm(100, {{0, 4}}), Tk(2, 1, 0, 1) };
      Func a, b; a.t = { Tm(1, {{0, 1}, {1, 1}}) }; b.t = { Tl(1, 0), Tm(1, {{1, 2}}) };
      con(a, 1, 2e19); con(b, 0, 2e19);
      P.xu[0] = 0.5; P.x0 = { -2, 1 };
      if( seed % 2 ) P.x0 = { r2(r, -4, 0.5), r2(r, -4, 4) };
   }
   else if( fam == "allfixed" )
   {
      init(std::max(1, std::min(n, 3)));
      for( int i = 0; i < n; ++i ) { Num v = r2(r, -2, 2); P.xl[i] = P.xu[i] = v; P.xint[i] = v; P.x0[i] = v + (r.p(0.5) ? 1 : 0); P.f.t.push_back(Tk(2, 1, i, 0.5)); }
      if( m > 0 )
      {
         Func q; q.t = { Tl(1, 0) }; Num v = q.value(P.xint.data());
         if( r.p(0.3) ) { con(q, v + 1, v + 2); P.infeasible = true; }
         else con(q, v - 1, v + 1);
      }
   }
   else if( fam == "circle" )
   {
      init(std::max(2, n));
      Func q, q2;
      for( int i = 0; i < n; ++i ) { P.f.t.push_back(Tl(r2(r, -1, 1), i)); q.t.push_back(Tm(1, {{i, 2}})); P.x0[i] = r2(r, -3, 3); }
      con(q, r.p(0.5) ? 1 : -2e19, 1);
      if( m > 1 ) { q2.t = { Tl(1, 0), Tl(-1, 1) }; con(q2, -0.5, 2e19); }
      P.xint.assign(n, 0.);
   }
   else if( fam == "narrow" ) // narrow feasible strip far from the start
   {
      init(2);
      P.f.t = { Tk(2, 1, 0, 0), Tk(2, 1, 1, 0) };
      Func a, b;
      a.t = { Tm(1, {{0, 2}}), Tl(-1, 1) }; b.t = { Tm(-1, {{0, 2}}), Tl(1, 1) };
      con(a, -2e19, -r2(r, 1, 3)); Num w = r2(r, 3.25, 4); con(b, -2e19, w);
      P.xl[0] = r2(r, 0, 2); P.xu[0] = 10; P.xl[1] = -10; P.xu[1] = 200;
      P.x0 = { r2(r, 0, 9), r2(r, -9, 9) };
   }
   else if( fam == "badbounds" )
   {
      init(std::max(2, n));
      for( int i = 0; i < n; ++i ) { P.f.t.push_back(Tk(2, 1, i, 0.5)); P.xl[i] = -1; P.xu[i] = 1; }
      if( r.p(0.5) || m == 0 ) { P.xl[0] = 2; P.xu[0] = 1; }
      else { Func q; q.t = { Tl(1, 0) }; con(q, 2, 1); }
      P.infeasible = true;
   }
   else { fprintf(stderr, "unknown family %s\n", fam.c_str()); abort(); }
   P.style = get("style", "");
   P.finish(dup, upper, r);
   P.lam0.assign(P.m, 0.); P.zl0.assign(P.n, 1.); P.zu0.assign(P.n, 1.);
   if( get("warm", "0") != "0" )
   {
      Rng w(seed * 77 + 5);
      for( auto& v : P.lam0 ) v = w.p(0.3) ? 0. : w.uni(-5, 5);
      for( auto& v : P.zl0 ) v = w.p(0.3) ? 0. : w.logu(1e-6, 10);
      for( auto& v : P.zu0 ) v = w.p(0.3) ? 0. : w.logu(1e-6, 10);
   }
   std::string us = get("uscal", "0");
   if( us != "0" )
   {
      static const Num v[] = { 0.01, 0.5, 1., 2., 4., 100. };
      P.os = v[r.in(0, 5)];
      if( us == "2" ) P.os = -P.os;
      P.use_xs = r.p(0.5); P.use_gs = r.p(0.6);
      P.xs.resize(P.n); P.gs.resize(P.m);
      for( auto& q : P.xs ) q = v[r.in(0, 5)];
      for( auto& q : P.gs ) q = v[r.in(0, 5)];
   }
   return P;
}
Problem problem_from(const Item& it)
{
   std::map<std::string, std::string> kv;
   for( size_t k = 4; k < it.a.size(); ++k )
   {
      size_t e = it.a[k].find('=');
      if( e != std::string::npos ) kv[it.a[k].substr(0, e)] = it.a[k].substr(e + 1);
   }
   return make_problem(it.s(0), strtoull(it.s(1).c_str(), NULL, 10), (int)it.l(2), (int)it.l(3), kv);
}
}
