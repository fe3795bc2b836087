// C18: the derivative checker reports exactly the deviating derivatives and leaves the solve alone; finite-difference
// approximations of derivatives are what they claim to be.
#include "common.hpp"
#include "IpReturnCodes.hpp"
namespace sim
{
static const Num EPS = std::numeric_limits<Num>::epsilon();
static Plan gen(uint64_t seed, bool)
{
   Rng r(seed * 1000003 + 1801);
   Plan p;
   GenCfg g;
   gen_problem(p, r, g);
   std::set<std::string> av = { "max_iter", "print_level" };
   int mode = r.p(0.25) ? 2 : r.p(0.2) ? 1 : 0;     // 0 test, 1 test with failing evaluations, 2 approximations
   p.add(fmt("mode %d", mode));
   p.add(fmt("opt max_iter %d", mode == 2 ? r.in(0, 25) : r.in(0, 4)));
   if( r.p(0.3) ) { p.add(fmt("opt fixed_variable_treatment %s", r.pick(std::vector<std::string>{ "make_constraint", "relax_bounds", "make_parameter_nodual", "make_parameter" }).c_str())); av.insert("fixed_variable_treatment"); }
   gen_options(p, r, av, r.p(0.6) ? 0. : 0.5);
   if( mode == 2 )
   {
      int w = r.in(1, 3);
      if( w & 1 ) p.add("opt gradient_approximation finite-difference-values");
      if( w & 2 ) p.add("opt jacobian_approximation finite-difference-values");
      if( r.p(0.5) ) p.add("opt findiff_perturbation " + r.pick(std::vector<std::string>{ "1e-8", "1e-5", "1e-3" }));
      if( r.p(0.2) ) gen_eval_faults(p, r, 2, { "false" }, { "f", "g" }, 60);
      p.add("flag inspect");
      return p;
   }
   p.add("opt derivative_test " + r.pick(std::vector<std::string>{ "first-order", "second-order", "second-order", "only-second-order" }));
   if( r.p(0.5) ) p.add("opt derivative_test_perturbation " + r.pick(std::vector<std::string>{ "1e-7", "1e-6", "1e-5", "1e-4", "1e-2" }));
   if( r.p(0.5) ) p.add("opt derivative_test_tol " + r.pick(std::vector<std::string>{ "1e-6", "1e-3", "1e-2", "0.1", "3" }));
   if( r.p(0.4) ) p.add("opt derivative_test_print_all yes");
   if( r.p(0.3) ) p.add(fmt("opt derivative_test_first_index %d", r.in(-2, 6)));
   if( r.p(0.7) ) p.add("opt point_perturbation_radius " + r.pick(std::vector<std::string>{ "0", "1e-3", "0.1", "1", "100" }));
   p.add(fmt("opt print_level %d", r.p(0.8) ? r.in(4, 6) : r.in(0, 8)));
   int nw = r.p(0.25) ? 0 : r.p(0.6) ? r.in(1, 2) : r.in(3, 8);
   for( int i = 0; i < nw; ++i )
   {
      std::string s = r.pick(std::vector<std::string>{ "gf", "jg", "h" });
      if( s != "gf" && r.p(0.25) ) { p.add(fmt("move %s %d %d %d", s.c_str(), r.in(0, 11), r.in(0, 7), r.in(0, 7))); continue; }
      Num mul = r.p(0.5) ? 1 : r.p(0.3) ? 0 : r.p(0.5) ? -1 : 1 + r.logu(1e-6, 1), add = mul != 1 ? 0 : (r.p(0.5) ? 1 : -1) * r.logu(1e-6, 100);
      if( r.p(0.06) ) { mul = 1; add = r.p(0.5) ? std::numeric_limits<Num>::quiet_NaN() : std::numeric_limits<Num>::infinity(); }
      p.add(fmt("wrong %s %d %s %s", s.c_str(), r.in(0, 11), num(mul).c_str(), num(add).c_str()));
   }
   if( mode == 1 ) p.add(fmt("fault %s %s %d %s", r.pick(std::vector<std::string>{ "f", "g", "gf", "jg", "h", "js", "hs", "start", "bounds", "info" }).c_str(), "false", r.in(1, 9), ""));
   return p;
}
struct Entry { int kind, j, a, b; bool operator<(const Entry& o) const { return std::make_tuple(kind, j, a, b) < std::make_tuple(o.kind, o.j, o.a, o.b); } };
struct Line { bool flag, v; Num exact, approx, rel; };
static bool parse_line(const std::string& l, Entry& e, Line& q)
{
   size_t at;
   if( l.empty() || (l[0] != ' ' && l[0] != '*') ) return false;
   if( (at = l.find("grad_f[")) != std::string::npos ) e.kind = 0;
   else if( (at = l.find("jac_g [")) != std::string::npos ) e.kind = 1;
   else if( (at = l.find("obj_hess[")) != std::string::npos ) e.kind = 2;
   else if( (at = l.find("constr_hess[")) != std::string::npos ) e.kind = 3;
   else return false;
   q.flag = l[0] == '*';
   e.j = e.a = e.b = -1;
   if( e.kind == 3 ) e.j = atoi(l.c_str() + 1);
   const char* s = strchr(l.c_str() + at, '[') + 1;
   char* t;
   e.a = (int)strtol(s, &t, 10);
   if( e.kind ) { if( *t != ',' ) return false; e.b = (int)strtol(t + 1, &t, 10); }
   if( *t != ']' || (t = strchr(t, '=')) == NULL ) return false;
   q.exact = strtod(t + 1, &t);
   while( *t == ' ' ) ++t;
   q.v = *t == 'v';
   if( (t = strchr(t, '~')) == NULL ) return false;
   q.approx = strtod(t + 1, &t);
   if( (t = strchr(t, '[')) == NULL ) return false;
   q.rel = strtod(t + 1, &t);
   return true;
}
struct Expect { Num exact, approx, slack; bool v; };
// reference model of the test at the point xr
static void model(const Scn& s, const Vec& xr, const std::string& test, Num pert, int first, std::map<Entry, Expect>& ex)
{
   const Problem& P = s.P;
   const Ctx& c = s.c;
   int n = P.n, m = P.m;
   auto gradf = [&](const Vec& x) { Vec g(n, 0.); P.f.grad(x.data(), g.data(), 1.); c.corrupt(S_GF, g.data(), n); return g; };
   auto jacv = [&](const Vec& x) { Vec v(P.js.size(), 0.); P.jac(x.data(), v.data()); c.corrupt(S_JG, v.data(), (int)v.size()); return v; };
   auto row = [&](const Vec& jv, int j) { Vec g(n, 0.); for( size_t k = 0; k < jv.size(); ++k ) if( c.jspos((int)k).first == j ) g[c.jspos((int)k).second] += jv[k]; return g; };
   Vec gf = gradf(xr), jv = jacv(xr);
   auto dif = [](Num hi, Num lo, Num h, Num w, Expect& e) { e.approx = w * (hi - lo) / h; e.slack = w * 8 * EPS * (std::abs(hi) + std::abs(lo)) / h + 1e-12 * std::abs(e.approx); };
   if( test != "only-second-order" )
      for( int i = std::max(0, first); i < n; ++i )
      {
         Num h = pert * std::max(1., std::abs(xr[i]));
         Vec xp = xr; xp[i] = xr[i] + h;
         Expect e; e.v = false; e.exact = gf[i];
         dif(P.f.value(xp.data()), P.f.value(xr.data()), h, 1, e);
         ex[Entry{0, -1, i, -1}] = e;
         for( int j = 0; j < m; ++j )
         {
            e.exact = 0; e.v = false;
            for( size_t k = 0; k < jv.size(); ++k ) if( c.jspos((int)k) == std::make_pair(j, i) ) { e.exact += jv[k]; e.v = true; }
            dif(P.g[j].value(xp.data()), P.g[j].value(xr.data()), h, 1, e);
            ex[Entry{1, -1, j, i}] = e;
         }
      }
   if( test != "first-order" )
      for( int j = std::max(-1, first); j < m; ++j )
      {
         Vec lam(m, 0.), hv(P.hs.size(), 0.);
         if( j >= 0 ) lam[j] = 1.5;
         P.hess(xr.data(), j < 0 ? 1.5 : 0., lam.data(), hv.data());
         c.corrupt(S_H, hv.data(), (int)hv.size());
         Vec gr = j < 0 ? gf : row(jv, j);
         for( int i = 0; i < n; ++i )
         {
            Num h = pert * std::max(1., std::abs(xr[i]));
            Vec xp = xr; xp[i] = xr[i] + h;
            Vec gp = j < 0 ? gradf(xp) : row(jacv(xp), j);
            for( int l = 0; l < n; ++l )
            {
               Expect e; e.v = false; e.exact = 0;
               for( size_t k = 0; k < hv.size(); ++k )
               {
                  std::pair<int, int> q = c.hspos((int)k);
                  if( q == std::make_pair(i, l) || q == std::make_pair(l, i) ) { e.exact += hv[k]; e.v = true; }
               }
               dif(gp[l], gr[l], h, 1.5, e);
               // the entries of a row may be added up in any order
               for( size_t k = 0; k < jv.size() && j >= 0; ++k ) if( c.jspos((int)k) == std::make_pair(j, l) ) e.slack += 8 * EPS * std::abs(jv[k]) * 1.5 / h;
               ex[j < 0 ? Entry{2, -1, i, l} : Entry{3, j, i, l}] = e;
            }
         }
      }
}
static const char* kname[] = { "gradient", "Jacobian", "objective Hessian", "constraint Hessian" };
static void corruptions(const Plan& p, Scn& s)
{
   for( auto i : p.all("wrong") ) { int site = i->s(0) == "gf" ? S_GF : i->s(0) == "jg" ? S_JG : S_H; s.c.wrongs.push_back(Ctx::Wrong{site, (int)i->l(1), i->d(2), i->d(3)}); }
   for( auto i : p.all("move") )
   {
      bool jac = i->s(0) == "jg";
      int k = (int)i->l(1), rows = jac ? s.P.m : s.P.n;
      if( rows == 0 || s.P.n == 0 ) continue;
      (jac ? s.c.jsmove : s.c.hsmove)[k] = std::make_pair((int)i->l(2) % rows, (int)i->l(3) % s.P.n);
   }
}
static void run_test(const Plan& p)
{
   std::string test = "first-order";
   Num pert = 1e-8, tol = 1e-4, radius = 10;
   bool all = false;
   int first = -2, lev = 5, mode = (int)p.geti("mode", 0);
   for( auto i : p.all("opt") )
   {
      const std::string& k = i->s(0);
      if( k == "derivative_test" ) test = i->s(1);
      else if( k == "derivative_test_perturbation" ) pert = i->d(1);
      else if( k == "derivative_test_tol" ) tol = i->d(1);
      else if( k == "derivative_test_print_all" ) all = i->s(1) == "yes";
      else if( k == "derivative_test_first_index" ) first = (int)i->l(1);
      else if( k == "point_perturbation_radius" ) radius = i->d(1);
      else if( k == "print_level" ) lev = (int)i->l(1);
   }
   Plan pa = p, pb = p;
   pa.add("flag console 1"); pb.add("flag console 1");
   pb.it.erase(std::remove_if(pb.it.begin(), pb.it.end(), [](const Item& i) { return i.key == "fault" || (i.key == "opt" && i.s(0) == "derivative_test"); }), pb.it.end());
   Scn a(pa, "a"), b(pb, "b");
   a.open(); b.open();
   corruptions(p, a); corruptions(p, b);
   a.c.keeplog = b.c.keeplog = true;
   Vec xr;
   auto grab = [&](Ctx& c, int site) { if( xr.empty() && (site == S_F || site == S_G || site == S_GF || site == S_JG) ) xr = c.lastx; };
   a.c.at_cb = grab;
   fflush(stdout); size_t o0 = W->out.size();
   SolveRes ra = a.solve(false);
   fflush(stdout); std::string out = W->out.substr(std::min(o0, W->out.size()));
   a.c.at_cb = nullptr;
   bool failed = a.c.fired_total > 0;
   for( auto& e : a.c.elog ) if( e.tag >= 100 && e.tag < 100 + S_NSITE && e.tag != 100 + S_ICB && e.b == 0 ) failed = true;
   bool tested = out.find("derivative checker") != std::string::npos || out.find("Derivative checker") != std::string::npos;
   (void) tested;
   if( ra.status == Ipopt::Unrecoverable_Exception && a.c.iters.empty() && failed )
   {
      W->count("test.failed");
      if( a.c.fins.size() ) W->violate("C18", "failed-finalize", "finalize_solution called although an evaluation failed during the derivative test");
      // the failure has no effect on what follows
      a.c.faults.clear(); a.c.elog.clear(); xr.clear();
      Plan pc = p; pc.it.erase(std::remove_if(pc.it.begin(), pc.it.end(), [](const Item& i) { return i.key == "fault"; }), pc.it.end());
      Scn c(pc, "c"); c.open(); corruptions(p, c);
      fresh_hash(a);
      SolveRes r2 = a.solve(false), r3 = c.solve(false);
      std::string d = differs(observe(a, r2), observe(c, r3), true);
      if( d.size() ) W->violate("C18", "failed-lasting", "after a derivative test that failed, the next solve differs from one in a new application: " + d);
      return;
   }
   if( mode == 1 && failed )
   {
      // the failure happened in the solve itself, or the function is not used by the test
      if( ra.status == Ipopt::Unrecoverable_Exception ) W->count("failed.later");
      W->count("test.faults-outside");
      if( a.c.iters.empty() ) return;
   }
   if( mode == 0 )
   {
      SolveRes rb = b.solve(false);
      std::string d;
      if( ra.status != rb.status ) d = fmt("status %d, without test %d", ra.status, rb.status);
      else if( a.c.hit_seq != b.c.hit_seq ) d = "iteration reports or final solution differ";
      else
      {
         size_t na = a.c.elog.size(), nb = b.c.elog.size();
         bool same = na >= nb;
         for( size_t k = 0; k < nb && same; ++k ) { auto &u = a.c.elog[na - nb + k], &v = b.c.elog[k]; same = u.tag == v.tag && u.a == v.a && u.b == v.b; }
         if( !same ) d = "evaluations of the solve differ";
      }
      if( d.size() ) W->violate("C18", "solve-changed", "the derivative test changes the solve: " + d);
   }
   if( a.c.iters.empty() && a.c.fins.empty() && ra.status < 0 ) { W->count("no-solve"); if( lev < 4 || out.find("erivative checker detected") == std::string::npos ) { if( out.find("No errors detected by derivative checker") == std::string::npos ) return; } }
   if( xr.empty() ) return;
   // the point of the test
   for( int i = 0; i < a.P.n; ++i )
   {
      Num lo = std::max(a.P.xl[i], a.P.x0[i] - radius), hi = std::min(a.P.xu[i], a.P.x0[i] + radius);
      if( lo > hi ) std::swap(lo, hi);
      Num t = 1e-12 * (std::abs(lo) + std::abs(hi));
      if( !(xr[i] >= lo - t && xr[i] <= hi + t) ) W->violate("C18", "point", fmt("the derivative test is done at x[%d]=%.17g, outside of [%.17g,%.17g]", i, xr[i], lo, hi));
   }
   // the report
   std::map<Entry, Line> got;
   long nerr = -1, lines = 0;
   int off = a.P.style == "fortran" ? 1 : 0;
   for( size_t k = 0; k < out.size(); )
   {
      size_t e = out.find('\n', k);
      if( e == std::string::npos ) e = out.size();
      std::string l = out.substr(k, e - k);
      k = e + 1;
      Entry en; Line li;
      if( parse_line(l, en, li) )
      {
         en.a -= off; if( en.kind ) en.b -= off; if( en.kind == 3 ) en.j -= off;
         ++lines;
         if( got.count(en) ) W->violate("C18", "twice", "reported twice: " + l);
         got[en] = li;
      }
      const char* q = strstr(l.c_str(), "Derivative checker detected ");
      if( q ) nerr = atol(q + strlen("Derivative checker detected "));
      if( l.find("No errors detected by derivative checker") != std::string::npos ) nerr = 0;
   }
   W->count("lines", lines);
   std::map<Entry, Expect> ex;
   model(a, xr, test, pert, first, ex);
   if( lev < 4 ) { if( lines ) W->violate("C18", "level", fmt("%ld lines of the derivative test printed with print_level %d", lines, lev)); return; }
   long must = 0, may = 0;
   for( auto& q : ex )
   {
      const Entry& e = q.first; const Expect& x = q.second;
      std::string id = fmt("%s entry (%d,%d)%s", kname[e.kind], e.a, e.b, e.kind == 3 ? fmt(" of constraint %d", e.j).c_str() : "");
      // interval of the relative deviation
      bool flag_must, flag_may;
      if( std::isfinite(x.approx) && !std::isfinite(x.exact) ) flag_must = flag_may = true;
      else if( !std::isfinite(x.approx) || !std::isfinite(x.slack) ) { flag_must = false; flag_may = true; }
      else
      {
         Num d = std::abs(x.approx - x.exact), ex2 = x.slack + 4 * EPS * std::abs(x.exact);
         Num lo = std::max(0., d - ex2) / std::max(std::abs(x.approx) + x.slack, tol), hi = (d + ex2) / std::max(std::abs(x.approx) - x.slack, tol);
         flag_must = lo > tol * (1 + 1e-9); flag_may = hi >= tol * (1 - 1e-9);
      }
      must += flag_must; may += flag_may;
      auto g = got.find(e);
      if( g == got.end() )
      {
         if( all ) W->violate("C18", "not-listed", id + " is not listed although derivative_test_print_all is set");
         else if( flag_must ) W->violate("C18", "missed", id + fmt(" is %.9g, finite difference %.9g, but is not reported (tolerance %g)", x.exact, x.approx, tol));
         continue;
      }
      const Line& li = g->second;
      W->count(li.flag ? "flagged" : "unflagged");
      if( flag_must && !li.flag ) W->violate("C18", "missed", id + fmt(" is %.9g, finite difference %.9g, but is not marked (tolerance %g)", x.exact, x.approx, tol));
      if( !flag_may && li.flag ) W->violate("C18", "false-report", id + fmt(" is %.9g, finite difference %.9g, and is reported as wrong (tolerance %g)", x.exact, x.approx, tol));
      if( !li.flag && !all ) W->violate("C18", "unmarked", id + " is printed without mark");
      if( e.kind && li.v != x.v ) W->violate("C18", "structure-mark", id + fmt(" is %smarked as part of the structure", li.v ? "" : "not "));
      if( std::isfinite(x.exact) && !(std::abs(li.exact - x.exact) <= 1e-13 * std::abs(x.exact) + 1e-300) ) W->violate("C18", "value", id + fmt(" printed as %.17g, the user provided %.17g", li.exact, x.exact));
      if( std::isfinite(x.approx) && !(std::abs(li.approx - x.approx) <= x.slack + 1e-300) ) W->violate("C18", "difference", id + fmt(": finite difference printed as %.17g, it is %.17g", li.approx, x.approx));
   }
   for( auto& g : got ) if( !ex.count(g.first) ) W->violate("C18", "extra", fmt("%s entry (%d,%d) is reported but was not to be tested", kname[g.first.kind], g.first.a, g.first.b));
   if( nerr < 0 ) { if( ra.status != Ipopt::Unrecoverable_Exception ) W->violate("C18", "no-summary", "the derivative test prints no summary"); }
   else if( nerr < must || nerr > may ) W->violate("C18", "number", fmt("the derivative test counts %ld wrong derivatives, there are %ld", nerr, must));
   W->count("judged.tests"); W->count("judged.entries", (long)ex.size()); W->count("wrong.entries", must);
}
// approximated derivatives: the gradient of the Lagrangian as reported by get_curr_violations
static void run_fd(const Plan& p)
{
   Num fdp = 1e-7;
   bool fdg = false, fdj = false;
   std::string fvt = "make_parameter";
   for( auto i : p.all("opt") )
   {
      if( i->s(0) == "findiff_perturbation" ) fdp = i->d(1);
      if( i->s(0) == "gradient_approximation" ) fdg = i->s(1) != "exact";
      if( i->s(0) == "jacobian_approximation" ) fdj = i->s(1) != "exact";
      if( i->s(0) == "fixed_variable_treatment" ) fvt = i->s(1);
   }
   Plan q = p;
   Scn s(q, "a");
   s.open();
   const Problem& P = s.P;
   Num brf = s.c.optd("bound_relax_factor", 1e-8), cvt = s.c.optd("constr_viol_tol", 1e-4);
   long off = 0;
   s.c.at_cb = [&](Ctx& c, int site)
   {
      // perturbed points stay within the bounds (up to one perturbation at the lower one)
      if( site != S_F && site != S_G ) return;
      int from0 = 0;    // the scaling is computed at the user's starting point
      for( int i = 0; i < P.n; ++i ) from0 += !P.fixed(i) && c.lastx[i] != P.x0[i];
      if( from0 <= 1 ) return;
      for( int i = 0; i < P.n; ++i )
      {
         if( P.fixed(i) || P.xu[i] >= 1e19 || c.opt_is("replace_bounds", "yes") || !std::isfinite(c.lastx[i]) ) continue;
         Num a = std::max(1., std::abs(P.xu[i])), rel = std::min(cvt, brf * a) + 1e-7 * a;
         if( c.lastx[i] > P.xu[i] + rel && c.lastx[i] != P.x0[i] && !off++ ) W->violate("C18", "fd-above-bound", fmt("%s evaluated at x[%d]=%.17g above the upper bound %.17g (perturbation %g)", site_name[site], i, c.lastx[i], P.xu[i], fdp));
      }
   };
   SolveRes r = s.solve(false);
   (void) r;
   s.c.at_cb = nullptr;
   if( s.c.opt_is("dependency_detector", "mumps") ) return;
   for( auto& it : s.c.iters )
   {
      if( !it.have || !it.havev ) continue;
      bool fin = true;
      for( Num v : it.x ) fin = fin && std::isfinite(v);
      for( Num v : it.lam ) fin = fin && std::isfinite(v);
      if( !fin ) continue;
      for( int i = 0; i < P.n; ++i )
      {
         if( P.fixed(i) ) continue;
         Num h = fdp * std::max(1., std::abs(it.x[i]));
         Vec xp = it.x, xm = it.x;
         xp[i] += h; xm[i] -= h;
         Num lo = it.zu[i] - it.zl[i], hi = lo, sl = 1e-9 * (std::abs(it.zu[i]) + std::abs(it.zl[i]));
         auto add = [&](const Func& f, Num w, bool fd)
         {
            Vec g(P.n, 0.);
            f.grad(it.x.data(), g.data(), 1.);
            Num e = g[i], d1 = e, d2 = e, s1 = 1e-9 * std::abs(e);
            if( fd )
            {
               Num f0 = f.value(it.x.data()), f1 = f.value(xp.data()), f2 = f.value(xm.data());
               d1 = (f1 - f0) / h; d2 = (f0 - f2) / h;
               Num cond = 0;
               (void) cond;
               s1 += 32 * EPS * (std::abs(f0) + std::abs(f1) + std::abs(f2)) / h + 1e-9 * (std::abs(d1) + std::abs(d2));
               // the live iterate and the reported one differ by rounding
               s1 += 64 * EPS * std::max(1., std::abs(it.x[i])) * std::abs(e) / h;
            }
            Num a = w * std::min(d1, d2), b = w * std::max(d1, d2);
            lo += std::min(a, b); hi += std::max(a, b); sl += std::abs(w) * s1;
         };
         add(P.f, 1., fdg);
         for( int j = 0; j < P.m; ++j ) add(P.g[j], it.lam[j], fdj);
         if( !std::isfinite(lo) || !std::isfinite(hi) || !std::isfinite(sl) ) continue;
         W->count("judged.fd");
         if( !(it.gl[i] >= lo - sl && it.gl[i] <= hi + sl) )
            W->violate("C18", "fd-value", fmt("iteration %d: component %d of the gradient of the Lagrangian is %.12g, with %s differences of size %g it must be in [%.12g,%.12g]", it.iter, i, it.gl[i], fdg && fdj ? "all" : fdg ? "gradient" : "Jacobian", h, lo - sl, hi + sl));
      }
   }
}
static void run(const Plan& p)
{
   if( p.geti("mode", 0) == 2 ) run_fd(p);
   else run_test(p);
}
static RegProp reg("C18", "derivative checker and finite differences", gen, run);
}
