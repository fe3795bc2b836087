// C07: exceptions and exhausted memory are contained, and the application stays usable.
#include "capi.hpp"
namespace sim
{
static const std::vector<std::string> THROWS = { "throw", "throwint", "ipexc", "badalloc", "overflow" };
// the C and the Fortran interface
static Plan gen_c(Rng& r)
{
   Plan p;
   GenCfg g;
   gen_problem(p, r, g);
   p.add(fmt("iface %d", r.p(0.7) ? 1 : 2));
   p.add(fmt("opt max_iter %d", r.in(0, 20)));
   if( r.p(0.3) ) gen_options(p, r, { "max_iter" }, 0.4);
   if( r.p(0.2) ) p.add("opt output_file out.txt");
   static const std::vector<std::string> st = { "create", "opt", "scal", "file", "solve", "solve", "solve", "solve" };
   if( r.p(0.25) && p.geti("iface", 1) == 1 )
   {
      static const std::vector<std::string> sites = { "f", "f", "gf", "g", "g", "jg", "h", "h", "icb", "icb", "js", "hs" };
      p.add("stage solve");
      p.add(fmt("fault %s %s %d", r.pick(sites).c_str(), r.pick(THROWS).c_str(), (int)std::floor(r.logu(1, 30))));
   }
   else
   {
      p.add("stage " + r.pick(st));
      p.add(fmt("allocat %.9f %d 0", r.p(0.3) ? r.uni(0, 0.02) : r.uni(), r.p(0.6) ? 1 : r.p(0.5) ? r.in(2, 20) : 1000000000));
   }
   p.add(fmt("poison %d", r.in(0, 256)));
   return p;
}
static Plan gen(uint64_t seed, bool)
{
   Rng r(seed * 1000003 + 701);
   if( seed % 5 == 0 ) return gen_c(r);
   Plan p;
   if( r.p(0.4) ) gen_problem_biased(p, r);
   else { GenCfg g; gen_problem(p, r, g); }
   p.add(fmt("opt max_iter %d", r.p(0.3) ? r.in(0, 15) : 100));
   std::set<std::string> av = { "max_iter" };
   gen_options(p, r, av, r.p(0.3) ? 0. : 0.5);
   if( r.p(0.15) ) { p.add("flag console"); p.add(fmt("opt print_level %d", r.in(1, 8))); }
   if( r.p(0.1) ) { p.add("opt output_file out.txt"); p.add(fmt("opt file_print_level %d", r.in(0, 8))); }
   if( r.p(0.06) ) p.add("opt print_user_options yes");
   if( r.p(0.06) ) p.add("opt print_timing_statistics yes");
   if( r.p(0.08) && !p.find("flag") ) { p.add("opt derivative_test second-order"); }
   if( r.p(0.08) ) p.add("opt jacobian_approximation finite-difference-values");
   if( r.p(0.08) ) p.add("opt gradient_approximation finite-difference-values");
   if( r.p(0.08) ) p.add("ropt warm_start_same_structure yes");
   if( r.p(0.1) ) p.add("opt skip_finalize_solution_call yes");
   if( r.p(0.15) ) p.add("inspect");
   static const std::vector<std::string> sites = { "f", "f", "gf", "g", "g", "jg", "h", "icb", "icb", "info", "bounds", "start", "fin", "scal", "js", "hs", "nlv", "meta" };
   Num w = r.uni();
   p.add(fmt("phase %s", r.p(0.25) ? "reopt" : "solve"));
   if( w < 0.5 )
   {
      if( r.p(0.25) ) p.add("rethrow");
      int k = r.p(0.7) ? 1 : r.in(2, 3);
      for( int i = 0; i < k; ++i )
      {
         int from = (int)std::floor(r.logu(1, 60));
         p.add(fmt("fault %s %s %d %d", r.pick(sites).c_str(), r.pick(THROWS).c_str(), from, from + (r.p(0.7) ? 0 : r.in(1, 100))));
      }
      if( r.p(0.2) ) gen_eval_faults(p, r, 2, { "false", "nan" }, { "f", "g", "gf", "h" }, 40);
      if( r.p(0.1) ) gen_mumps_faults(p, r, 2);
   }
   else
   {
      if( r.p(0.08) ) p.add("rethrow");
      if( r.p(0.2) ) gen_eval_faults(p, r, 2, { "false", "nan" }, { "f", "g", "gf", "h" }, 40);
      if( r.p(0.1) ) gen_mumps_faults(p, r, 2);
      bool init = r.p(0.12);
      if( init ) p.add("allocinit");
      int k = r.p(0.75) ? 1 : r.in(2, 4);
      for( int i = 0; i < k; ++i )
         p.add(fmt("allocat %.9f %d %d", r.uni(), r.p(0.6) ? 1 : r.p(0.5) ? r.in(2, 20) : 1000000000, r.p(0.85) ? 0 : r.in(64, 4000)));
   }
   p.add(r.p(0.5) ? fmt("poison %d", r.in(0, 255)) : std::string(r.p(0.5) ? "poison 256" : r.p(0.5) ? "poison 255" : r.p(0.5) ? "poison 63" : "poison 0"));
   p.add(fmt("next %s", r.p(0.3) ? "reopt" : r.p(0.4) ? "other" : "same"));
   return p;
}
static Plan strip(const Plan& p)
{
   Plan q = p;
   auto th = [](const Item& i) { return i.key == "fault" && std::find(THROWS.begin(), THROWS.end(), i.s(1)) != THROWS.end(); };
   q.it.erase(std::remove_if(q.it.begin(), q.it.end(), th), q.it.end());
   return q;
}
static Plan nofault(const Plan& p)
{
   Plan q = p;
   q.it.erase(std::remove_if(q.it.begin(), q.it.end(), [](const Item& i) { return i.key == "fault"; }), q.it.end());
   return q;
}
struct COut { int st; SolArr a; uint64_t h; long nalloc; };
static void run_c(const Plan& p)
{
   auto bad = [&](const std::string& cls, const std::string& m) { W->violate("C07", cls, m); };
   int iface = (int)p.geti("iface", 1);
   std::string stage = p.gets("stage", "solve");
   std::map<std::string, long> na;
   Plan clean = nofault(p);
   auto setup = [&](Ctx& c, Drv& d, const char* st) -> bool
   {
      std::string s = st;
      T.allocs = 0;
      if( s == "create" ) { if( !d.create() ) return false; }
      else if( s == "opt" )
      {
         bool ok = d.add('s', "sb", "yes") == 1;
         ok = d.add('i', "print_level", "0") == 1 && ok;
         static Ipopt::SmartPtr<Ipopt::IpoptApplication> reg = new Ipopt::IpoptApplication(false);
         for( auto o : p.all("opt") )
         {
            char t = 's';
            Ipopt::SmartPtr<const Ipopt::RegisteredOption> ro = reg->RegOptions()->GetOption(o->s(0));
            if( IsValid(ro) ) t = ro->Type() == Ipopt::OT_Number ? 'n' : ro->Type() == Ipopt::OT_Integer ? 'i' : 's';
            ok = d.add(t, o->s(0), o->s(1)) == 1 && ok;
            c.opt[o->s(0)] = o->s(1);
         }
         d.setcb(true);
         if( !ok ) return false;
      }
      else if( s == "scal" ) { Vec xs(c.P->n, 2.), gs(c.P->m, 0.5); if( d.scaling(1.5, &xs, c.P->m ? &gs : NULL) != 1 ) return false; }
      else if( s == "file" ) { if( d.openfile("c.txt", 4) != 1 ) return false; }
      na[s] = T.allocs;
      return true;
   };
   auto solve = [&](Ctx& c, Drv& d) -> COut
   {
      COut o;
      SolArr& a = o.a;
      a.x = c.P->x0; a.g.assign(c.P->m, 0.); a.lam.assign(c.P->m, 0.); a.zl.assign(c.P->n, 1.); a.zu.assign(c.P->n, 1.);
      T.allocs = 0;
      o.st = d.solve(a);
      o.nalloc = T.allocs;
      o.h = c.h;
      return o;
   };
   auto same = [&](const COut& a, const COut& b) { return a.st == b.st && a.h == b.h && vec_same(a.a.x, b.a.x) && vec_same(a.a.lam, b.a.lam) && vec_same(a.a.zl, b.a.zl) && vec_same(a.a.zu, b.a.zu) && vec_same(a.a.g, b.a.g); };
   static const char* order[] = { "create", "opt", "scal", "file" };
   COut A;
   {
      Scn s(clean, "A");
      std::unique_ptr<Drv> d = make_drv(iface, &s.c);
      for( auto st : order ) if( !setup(s.c, *d, st) ) return;
      A = solve(s.c, *d);
      if( A.st == -1000 ) { bad("c-escaped-clean", "an exception escaped a solve without faults: " + d->escaped); return; }
   }
   g_poison = (int)p.geti("poison", -1);
   Scn s(p, "S");
   Ctx& c = s.c;
   std::vector<Fault> flt = c.faults;
   if( const Item* i = p.find("allocat") )
   {
      Fault f;
      f.site = S_ALLOC; f.kind = "null"; f.p1 = f.p2 = 0;
      long n = stage == "solve" ? A.nalloc : na[stage];
      f.from = 1 + (long)(i->d(0) * n); f.to = f.from + i->l(1, 1) - 1;
      flt.push_back(f);
   }
   c.faults.clear(); c.alloc_faults = false;
   std::unique_ptr<Drv> d = make_drv(iface, &c);
   auto arm = [&](bool on) { if( on ) { c.faults = flt; c.alloc_faults = p.find("allocat") != NULL; c.fired.clear(); } else { c.faults.clear(); c.alloc_faults = false; } };
   for( auto st : order )
   {
      bool here = stage == st;
      if( here ) arm(true);
      bool ok = setup(c, *d, st);
      bool fired = here && c.fired.size();
      if( here ) arm(false);
      if( d->escaped.size() ) { bad("c-escaped", fmt("%s interface: %s escaped to the caller from %s", if_name[iface], d->escaped.c_str(), st)); return; }
      if( !ok && !fired ) { bad("c-refused", fmt("%s interface: %s was refused without a fault", if_name[iface], st)); return; }
      if( here ) W->count(fired ? std::string("c.fired.") + st : "c.notfired");
      if( fired && !ok )
      {
         if( !setup(c, *d, st) ) { bad("c-again", fmt("%s interface: %s was refused after an attempt that ran out of memory", if_name[iface], st)); return; }
      }
   }
   COut B;
   std::string where;
   if( stage == "solve" )
   {
      c.last_throw = NULL;
      arm(true);
      B = solve(c, *d);
      const Fault* lt = c.last_throw;
      std::string lk = lt ? lt->kind : "";
      int lsite = lt ? lt->site : 0;
      arm(false);
      if( d->escaped.size() ) { bad("c-escaped", fmt("%s interface: %s escaped to the caller of the solve (%s in %s)", if_name[iface], d->escaped.c_str(), lk.c_str(), lt ? site_name[lsite] : "?")); return; }
      if( lt )
      {
         bool nonip = lk == "throw" || lk == "throwint";
         int want = nonip ? -101 : lk == "ipexc" ? -100 : -102;
         if( B.st != want ) bad("c-status", fmt("%s interface: %s in %s: returned %s instead of %s", if_name[iface], lk.c_str(), site_name[lsite], st_name(B.st), st_name(want)));
         W->count(lsite == S_ALLOC ? "c.judged.alloc" : "c.judged.throw");
         where = lk + " in " + site_name[lsite];
      }
      else if( !same(A, B) ) bad("c-nofault", "a solve without a fault differs from the reference");
   }
   fresh_hash(s);
   B = solve(c, *d);
   if( !same(A, B) ) bad("c-next", fmt("%s interface: after %s, the next solve gives different results (%s, reference %s)", if_name[iface], where.size() ? where.c_str() : ("lack of memory in " + stage).c_str(), st_name(B.st), st_name(A.st)));
   W->count("c.judged.next");
}
static void run(const Plan& p)
{
   if( p.find("iface") ) { run_c(p); return; }
   auto bad = [&](const std::string& cls, const std::string& m) { W->violate("C07", cls, m); };
   bool reopt = p.gets("phase", "solve") == "reopt", rethrow = p.find("rethrow") != NULL;
   // reference: the same solve without the exceptions, and the number of allocations it makes
   Plan ref = strip(p), clean = nofault(p);
   Obs A;        // without any fault
   Obs Z;        // the re-optimisation without any fault
   long nalloc = 0, ninit = 0;
   bool want_alloc = p.find("allocat") != NULL;
   {
      Scn s(clean, "A");
      T.allocs = 0; s.open(); ninit = T.allocs;
      SolveRes r = s.solve();
      A = observe(s, r);
      if( r.status == -1000 ) { bad("escaped-clean", "an exception escaped a solve without faults: " + r.escaped); return; }
      fresh_hash(s);
      r = s.solve(true);
      Z = observe(s, r);
   }
   bool zok = Z.r.status != -1000;
   if( reopt && !zok ) reopt = false;
   if( want_alloc )
   {
      Scn s(ref, "B");
      s.open();
      if( reopt ) { auto f = s.c.faults; s.c.faults.clear(); s.solve(); fresh_hash(s); s.c.faults = f; }
      T.allocs = 0;
      s.solve(reopt);
      nalloc = T.allocs;
   }
   if( p.find("heap") ) heap_shuffle((uint64_t)p.geti("heap", 0));
   g_poison = (int)p.geti("poison", -1);   // what fresh and freed memory contains
   Scn s(p, "S");
   Ctx& c = s.c;
   bool ainit = want_alloc && p.find("allocinit");
   std::vector<Fault> flt = c.faults;
   for( auto i : p.all("allocat") )
   {
      Fault f;
      f.site = S_ALLOC; f.kind = "null"; f.p2 = 0;
      f.from = 1 + (long)(i->d(0) * (ainit ? ninit : nalloc)); f.to = f.from + i->l(1, 1) - 1; f.p1 = i->d(2, 0);
      flt.push_back(f);
   }
   c.faults.clear(); c.alloc_faults = false;
   s.open();
   if( s.init_status != 0 ) return;
   if( rethrow ) s.s->app->RethrowNonIpoptException(true);
   if( ainit )
   {
      c.faults = flt; c.alloc_faults = true;
      int st = -1000;
      try { st = s.s->init(); }
      catch( ... ) { T.armed = false; T.ctx = NULL; }
      bool f = c.fired.count("alloc:null") > 0;
      c.alloc_faults = false; c.faults.clear();
      W->count(f ? "init.fired" : "init.notfired");
      if( st == -1000 ) bad("init-escaped", "an exception escaped Initialize");
      else if( f && st != -102 && st != 0 ) bad("init-status", fmt("a failed allocation in Initialize led to %s", st_name(st)));
      else if( !f && st != 0 ) bad("init-again", fmt("a second Initialize returned %s", st_name(st)));
      st = s.s->init();
      if( st != 0 ) bad("init-after", fmt("Initialize after one that ran out of memory returned %s", st_name(st)));
      SolveRes r = s.solve();
      Obs B = observe(s, r);
      std::string d = differs(A, B, true);
      if( d.size() ) bad("init-next", "a solve after a failed initialisation differs from one without: " + d);
      return;
   }
   if( reopt ) { s.solve(); fresh_hash(s); }
   c.faults = flt; c.alloc_faults = want_alloc; c.fired.clear(); c.fired_total = 0; c.last_throw = NULL;
   c.inspect = p.find("inspect") != NULL;
   SolveRes r = s.solve(reopt);
   W->count("iters", (long)c.iters.size());
   const Fault* lt = c.last_throw;
   std::string lk = lt ? lt->kind : "";
   c.alloc_faults = false;
   std::string where = lt ? fmt("%s in %s (occurrence %ld)", lk.c_str(), site_name[lt->site], c.last_fired_occ[lt->site]) : std::string();
   bool nonip = lk == "throw" || lk == "throwint";
   if( lt == NULL )
   {
      W->count("nofault");
      if( r.status == -1000 ) bad("escaped", "an exception escaped a solve: " + r.escaped);
      else if( c.fired_total == 0 && r.status != (reopt ? Z : A).r.status ) bad("status-nofault", fmt("%s although no fault occurred", st_name(r.status)));
   }
   else
   {
      W->count(std::string("judged.") + (lt->site == S_ALLOC ? "alloc" : "throw") + (reopt ? ".reopt" : ""));
      W->count(std::string("thrown.") + site_name[lt->site]);
      // the iteration reports up to the fault are those of the undisturbed solve
      if( r.status == -1000 )
      {
         bool ok = rethrow && nonip && ((lk == "throw" && r.escaped == "std::exception simulated user exception") || (lk == "throwint" && r.escaped == "int 42"));
         if( !ok ) bad("escaped", fmt("%s: exception escaped to the caller: %s", where.c_str(), r.escaped.c_str()));
      }
      else if( rethrow && nonip ) bad("not-rethrown", fmt("%s: returned %s although exceptions of user code are to be rethrown", where.c_str(), st_name(r.status)));
      else
      {
         int want = nonip ? -101 : lk == "ipexc" ? -100 : -102;
         // a second exception while the final point is evaluated takes precedence
         bool second = r.status == -100 && (any_fault(c, ":false") || any_fault(c, ":nan"));
         if( r.status != want && !second ) bad("status", fmt("%s: returned %s instead of %s", where.c_str(), st_name(r.status), st_name(want)));
      }
      judge_status("C07", s, r);
   }
   if( r.status == -1000 && r.escaped.compare(0, 5, "Ipopt") == 0 ) return;
   // the same application solves again as if nothing had happened
   c.faults.clear(); c.inspect = false;
   std::string nx = p.gets("next", "same");
   if( nx == "other" )
   {
      Plan q;
      q.add("prob convex 77 4 2");
      for( auto o : p.all("opt") ) q.it.push_back(*o);
      if( c.opt_is("console", "1") ) q.add("flag console");
      Scn j(q, "J");
      j.s.reset(new Session(&j.c));
      j.s->app = s.s->app;
      for( auto o : p.all("opt") ) j.c.opt[o->s(0)] = o->s(1);
      if( c.opt_is("warm_start_same_structure", "yes") ) j.s->set_option("warm_start_same_structure", "no");
      SolveRes q1 = j.s->solve(false);
      Scn k(q, "K");
      SolveRes q2 = k.solve();
      std::string d = differs(observe(k, q2), observe(j, q1), true);
      if( d.size() ) bad("next-other", fmt("after %s, another problem solved with the same application gives different results: %s", where.c_str(), d.c_str()));
      W->count("judged.next");
      nx = "same";
   }
   fresh_hash(s);
   bool re = nx == "reopt" && zok;
   SolveRes r2 = s.solve(re);
   Obs B = observe(s, r2);
   if( r2.status == -1000 && re && !reopt )
   {
      // refused if the algorithm had not been built before the exception
      if( r2.escaped.find("ReOptimizeNLP called before") != std::string::npos || r2.escaped.find("ReOptimizeTNLP called before") != std::string::npos ) { W->count("reopt.refused"); return; }
   }
   bool same = c.opt_is("warm_start_same_structure", "yes");
   if( re && same && B.r.status == -100 && B.it.empty() && !B.calls[S_F] ) return;   // there is no structure that could be kept
   std::string d = differs(re ? Z : A, B, !(same && re));
   if( d.size() ) bad(re ? "next-reopt" : "next", fmt("after %s (%s), the next %s with the same application gives different results: %s", where.c_str(), st_name(r.status), re ? "re-optimisation" : "solve", d.c_str()));
   W->count("judged.next");
}
static RegProp reg("C07", "exceptions and exhausted memory", gen, run);
}
