// C09: solves in different threads do not influence each other.
#include "common.hpp"
#include "capi.hpp"
namespace sim
{
static const std::vector<std::string> FAM = { "convex", "convex", "nonconvex", "nonconvex", "hs071", "wb", "infeas", "circle", "degen", "square", "domain", "boundqp", "narrow", "scaled", "freeeq", "hs015", "noconstr", "allfixed", "lp" };
static void gen_user(Plan& out, Rng& r, int k)
{
   Plan p;
   GenCfg g; g.families = FAM; g.nmax = 5; g.mmax = 4;
   gen_problem(p, r, g);
   p.add(fmt("opt max_iter %d", r.p(0.3) ? r.in(0, 8) : r.in(10, 40)));
   std::set<std::string> av = { "max_iter" };
   if( r.p(0.1) ) { p.it[0].a.push_back("uscal=1"); p.add("opt nlp_scaling_method user-scaling"); av.insert("nlp_scaling_method"); }
   gen_options(p, r, av, 0.5);
   if( r.p(0.08) ) p.add("opt jacobian_approximation finite-difference-values");
   if( r.p(0.08) ) p.add("opt gradient_approximation finite-difference-values");
   if( r.p(0.12) ) { p.add(std::string("opt derivative_test ") + (r.p(0.5) ? "first-order" : "second-order")); if( r.p(0.7) ) p.add("opt point_perturbation_radius 1"); }
   if( r.p(0.06) ) p.add("opt hessian_constant yes");
   if( r.p(0.1) ) p.add("ropt warm_start_same_structure yes");
   if( r.p(0.35) ) { p.add(fmt("opt output_file out%d.txt", k)); p.add(fmt("opt file_print_level %d", r.p(0.5) ? 5 : r.in(1, 9))); if( r.p(0.3) ) p.add("opt print_user_options yes"); }
   if( r.p(0.35) ) gen_eval_faults(p, r, 3, { "false", "nan", "inf" }, { "f", "gf", "g", "jg", "h" }, 40);
   if( r.p(0.15) ) gen_mumps_faults(p, r, 2);
   if( r.p(0.1) ) p.add(fmt("fault icb stop %d", r.in(1, 15)));
   if( r.p(0.08) ) p.add(fmt("fault %s %s %d", r.pick(std::vector<std::string>{ "f", "gf", "g", "jg", "h", "icb", "start", "bounds", "fin" }).c_str(), r.p(0.5) ? "throw" : "badalloc", r.in(1, 15)));
   if( r.p(0.15) ) p.add("flag inspect");
   if( r.p(0.35) ) p.add(fmt("solves %d", r.in(2, 3)));
   for( auto& i : p.it ) { Item j = i; j.key = fmt("t%d.", k) + i.key; out.it.push_back(j); }
}
static Plan gen(uint64_t seed, bool)
{
   Rng r(seed * 1000003 + 901);
   Plan p;
   int n = r.p(0.6) ? 2 : r.in(3, 4);
   p.add(fmt("sched %llu %d", (unsigned long long)(r.u64() >> 16), (int)r.logu(1, r.p(0.7) ? 3000 : 100000)));
   for( int k = 0; k < n; ++k ) gen_user(p, r, k);
   // the same user more than once: equal problems and options in several threads
   if( r.p(0.25) )
      for( int k = 1; k < n; ++k )
      {
         std::vector<Item> c;
         for( auto& i : p.it ) if( i.key.compare(0, 3, "t0.") == 0 && i.key != "t0.fault" && i.s(0) != "output_file" ) { c.push_back(i); c.back().key[1] = char('0' + k); }
         p.it.erase(std::remove_if(p.it.begin(), p.it.end(), [&](const Item& i) { return i.key.compare(0, 3, fmt("t%d.", k)) == 0 && i.key != fmt("t%d.fault", k); }), p.it.end());
         for( auto& i : c ) p.it.push_back(i);
      }
   // many derivative tests at the same time
   if( r.p(0.06) )
      for( int k = 0; k < n; ++k )
      {
         std::string pre = fmt("t%d.", k);
         p.it.erase(std::remove_if(p.it.begin(), p.it.end(), [&](const Item& i) { return i.key == pre + "opt" && (i.s(0) == "derivative_test" || i.s(0) == "point_perturbation_radius"); }), p.it.end());
         p.add(pre + "opt derivative_test " + (r.p(0.5) ? "first-order" : "second-order")); p.add(pre + "opt point_perturbation_radius 1");
      }
   if( r.p(0.2) ) p.add("created outside");      // objects are created and destroyed in the main thread
   if( r.p(0.15) ) p.add(fmt("poison %d", r.in(0, 255)));
   return p;
}
static std::string untimed(const std::string& t)
{
   std::string o;
   size_t a = 0;
   while( a < t.size() )
   {
      size_t b = t.find('\n', a);
      if( b == std::string::npos ) b = t.size();
      std::string l = t.substr(a, b - a);
      if( l.find("Total seconds") == std::string::npos && l.find("CPU") == std::string::npos && l.find("wall:") == std::string::npos && l.find("timing_statistics") == std::string::npos && l.find("0x") == std::string::npos ) o += l + "\n";
      a = b + 1;
   }
   return o;
}
struct User
{
   Plan p;
   std::string pfx;
   int solves;
   std::unique_ptr<Scn> s;
   std::vector<Obs> o;
   std::string file, fname;
   void make() { s.reset(new Scn(p, pfx, pfx)); s->open(); }
   void go()
   {
      for( int k = 0; k < solves; ++k )
      {
         if( k ) fresh_hash(*s);
         SolveRes r = s->solve(k > 0);
         o.push_back(observe(*s, r));
         if( r.status == -1000 ) break;
      }
   }
   void drop() { s.reset(); if( fname.size() ) { file = W->files[fname]; W->files.erase(fname); } }
   void all() { make(); go(); drop(); }
};
static void run(const Plan& p)
{
   int n = 0;
   while( p.find(fmt("t%d.prob", n)) ) ++n;
   if( n < 1 ) return;
   g_poison = (int)p.geti("poison", -1);
   auto mk = [&](std::vector<User>& u)
   {
      u.resize(n);
      for( int k = 0; k < n; ++k )
      {
         u[k].p = p; u[k].pfx = fmt("t%d.", k); u[k].solves = (int)p.geti(u[k].pfx + "solves", 1);
         for( auto i : p.all(u[k].pfx + "opt") ) if( i->s(0) == "output_file" ) u[k].fname = i->s(1);
      }
   };
   std::vector<User> A, B;
   mk(A); mk(B);
   for( auto& u : A ) u.all();
   const Item* sc = p.find("sched");
   std::vector<std::function<void()> > f;
   bool outside = p.find("created") != NULL;
   if( outside ) for( auto& u : B ) u.make();
   for( auto& u : B ) { User* q = &u; f.push_back(outside ? std::function<void()>([q]() { q->go(); }) : std::function<void()>([q]() { q->all(); })); }
   int sw0 = g_sched_switches;
   sched_run(f, sc ? strtoull(sc->s(0).c_str(), NULL, 10) : 1, sc ? (int)sc->l(1, 100) : 100);
   W->count("sched.switches", g_sched_switches - sw0);
   if( outside ) for( auto& u : B ) u.drop();
   for( int k = 0; k < n; ++k )
   {
      if( A[k].o.size() != B[k].o.size() ) { W->violate("C09", "solves", fmt("thread %d: %zu solves alone, %zu next to the others", k, A[k].o.size(), B[k].o.size())); continue; }
      for( size_t i = 0; i < A[k].o.size(); ++i )
      {
         std::string d = differs(A[k].o[i], B[k].o[i], true);
         if( d.empty() && A[k].o[i].r.escaped != B[k].o[i].r.escaped ) d = "escaped exception";
         if( d.size() ) { W->violate("C09", "influence", fmt("thread %d of %d, solve %zu differs from the solve run alone: %s", k, n, i + 1, d.c_str())); break; }
         W->count("judged.solves");
      }
      if( untimed(A[k].file) != untimed(B[k].file) ) W->violate("C09", "output", fmt("thread %d of %d: the output file differs from that of the solve run alone", k, n));
   }
   if( W->mumps_live != 0 ) W->violate("C13", "mumps-live", fmt("%ld MUMPS instances remain after all applications were released", W->mumps_live));
}
static RegProp reg("C09", "isolation of concurrent solves", gen, run);
}
