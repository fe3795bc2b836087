// C08: a solve is a function of problem and options only.
#include "common.hpp"
#include <alloca.h>
extern "C" void srand48(long); extern "C" double drand48(void);
namespace sim
{
static Plan gen(uint64_t seed, bool)
{
   Rng r(seed * 1000003 + 801);
   Plan p;
   if( r.p(0.4) ) gen_problem_biased(p, r); else { GenCfg g; gen_problem(p, r, g); }
   p.add(fmt("opt max_iter %d", r.p(0.2) ? r.in(0, 30) : 120));
   std::set<std::string> av = { "max_iter" };
   if( r.p(0.1) ) { p.it[0].a.push_back("uscal=1"); p.add("opt nlp_scaling_method user-scaling"); av.insert("nlp_scaling_method"); }
   gen_options(p, r, av, r.p(0.15) ? 0. : 0.6);
   if( r.p(0.1) ) p.add("opt hessian_constant yes");
   if( r.p(0.07) ) p.add("opt jac_c_constant yes");
   if( r.p(0.07) ) p.add("opt jac_d_constant yes");
   if( r.p(0.05) ) p.add("opt grad_f_constant yes");
   if( r.p(0.08) ) p.add("opt jacobian_approximation finite-difference-values");
   if( r.p(0.08) ) p.add("opt gradient_approximation finite-difference-values");
   if( r.p(0.06) ) { p.add("opt derivative_test first-order"); p.add("opt point_perturbation_radius 1"); }
   // (the scaling is kept if the structure is)
   bool ws = !av.count("nlp_scaling_method") && r.p(0.15);
   for( auto o : p.all("opt") ) if( o->s(0) == "nlp_scaling_method" && o->s(1) != "none" ) ws = false;
   if( ws ) { p.add("ropt warm_start_same_structure yes"); p.add("opt nlp_scaling_method none"); }
   else if( r.p(0.35) ) gen_eval_faults(p, r, 3, { "false", "nan", "inf", "ninf", "allnan" }, { "f", "gf", "g", "jg", "h" }, 60);
   if( r.p(0.2) ) gen_mumps_faults(p, r, 2);
   if( r.p(0.08) ) p.add(fmt("fault icb stop %d", r.in(1, 20)));
   if( r.p(0.5) ) p.add(fmt("poison %d %d", r.in(0, 255), r.in(0, 255)));
   else p.add(r.p(0.5) ? "poison 0 256" : r.p(0.3) ? "poison 0 255" : r.p(0.5) ? "poison 0 63" : "poison 63 127");
   p.add(fmt("clock %g %g %g", r.logu(1e-3, 2e9), r.logu(1e-3, 1e6), r.logu(1e-8, 1e-2)));
   if( r.p(0.5) ) p.add(fmt("random %d %d", r.in(0, 1000), r.in(0, 9)));
   int k = r.in(0, 3);
   static const std::vector<std::string> fam = { "convex", "nonconvex", "hs071", "wb", "infeas", "degen", "square", "domain", "boundqp", "narrow", "scaled", "freeeq", "allfixed" };
   for( int i = 0; i < k; ++i )
   {
      p.add(fmt("%s %s %d %d %d pfix=%s", r.p(0.5) ? "other" : "same", fam[r.u64() % fam.size()].c_str(), r.in(0, 99999), r.in(1, 6), r.in(0, 4), r.p(0.3) ? "0.4" : "0"));
      if( r.p(0.4) ) { p.it.back().a.push_back("stop=" + fmt("%d", r.in(1, 12))); }
      else if( r.p(0.3) ) { p.it.back().a.push_back("throw=" + fmt("%d", r.in(1, 12))); }
   }
   if( r.p(0.6) ) p.add(fmt("reopt %d %d", r.in(0, 15), r.in(1, 2)));
   // options changed before a re-optimisation (only those that are read by every solve)
   if( !ws && p.find("reopt") && r.p(0.5) )
   {
      Plan q;
      std::set<std::string> no = { "max_iter", "mu_strategy", "mu_oracle", "fixed_mu_oracle", "hessian_approximation", "limited_memory_aug_solver", "line_search_method", "linear_system_scaling",
         "nlp_scaling_method", "adaptive_mu_globalization" };
      gen_options(q, r, no, 0.7);
      if( r.p(0.3) ) q.add(fmt("opt bound_relax_factor %s", r.p(0.5) ? "0" : "1e-7"));
      if( r.p(0.15) ) q.add("opt honor_original_bounds yes");
      if( r.p(0.1) ) q.add("opt hessian_constant yes");
      if( r.p(0.1) ) q.add("opt jacobian_approximation finite-difference-values");
      if( r.p(0.1) ) q.add("opt gradient_approximation finite-difference-values");
      for( auto& i : q.it ) { Item j = i; j.key = "ropt"; p.it.push_back(j); }
   }
   // what the first solve leaves behind when it ends in the middle of something
   if( p.find("reopt") && r.p(0.35) )
   {
      for( auto& i : p.it ) if( i.key == "opt" && i.s(0) == "max_iter" ) i.a[1] = fmt("%d", r.in(1, 25));
      if( !ws ) p.add("ropt max_iter 120");
      if( r.p(0.3) ) p.add(fmt("opt watchdog_shortened_iter_trigger %d", r.in(1, 5)));
      if( r.p(0.5) )
      {
         static const std::vector<std::string> T = { "1e10", "1e10", "1", "1e-1", "1e-3" };
         p.add("opt acceptable_tol " + T[r.u64() % T.size()]);
         p.add(fmt("opt acceptable_iter %d", r.in(1, 15)));
         for( const char* o : { "acceptable_constr_viol_tol", "acceptable_compl_inf_tol" } ) if( r.p(0.7) ) p.add(fmt("opt %s 1e10", o));
         if( r.p(0.4) ) p.add(fmt("opt acceptable_obj_change_tol %g", r.logu(1e-6, 10)));
      }
   }
   return p;
}
static void __attribute__((noinline)) stack_poison(int b) { volatile char* q = (volatile char*)alloca(300000); for( int i = 0; i < 300000; ++i ) q[i] = (char)b; }
static void perturb(Problem& P, int how)
{
   // same structure, other values
   if( how & 8 ) for( int i = 0; i < P.n; ++i ) if( P.fixed(i) ) { P.xl[i] += 0.5; P.xu[i] = P.xl[i]; } else { if( P.xl[i] > -1e19 ) P.xl[i] -= 0.125; if( P.xu[i] < 1e19 ) P.xu[i] += 0.125; }
   if( how & 1 ) for( int i = 0; i < P.n; ++i ) if( !P.fixed(i) ) { Num v = P.x0[i] + 0.125 * (i + 1); P.x0[i] = v; }
   if( how & 2 ) for( auto& t : P.f.t ) t.a *= 1.5;
   if( how & 4 ) for( int j = 0; j < P.m; ++j ) { bool eq = P.gl[j] == P.gu[j]; if( P.gl[j] > -1e19 ) P.gl[j] -= 0.25; if( eq ) P.gu[j] = P.gl[j]; else if( P.gu[j] < 1e19 ) P.gu[j] += 0.25; }
}
static void run(const Plan& p)
{
   const Item* po = p.find("poison");
   int pa = po ? (int)po->l(0) : -1, pb = po ? (int)po->l(1) : -1;
   Obs A, B;
   {
      g_poison = pa; stack_poison(pa);
      Scn s(p, "A");
      SolveRes r = s.solve();
      A = observe(s, r);
      W->count("iters", (long)A.iters);
   }
   if( const Item* i = p.find("clock") ) { W->wall = i->d(0); W->cpu = i->d(1); W->tick = i->d(2); }
   if( const Item* i = p.find("random") ) { srand48(i->l(0)); for( int k = 0; k < i->l(1); ++k ) (void) drand48(); }
   g_poison = pb; stack_poison(pb);
   Scn s(p, "B");
   s.open();
   bool ok = true;
   std::string hist;
   for( auto& i : p.it )
   {
      if( i.key != "other" && i.key != "same" ) continue;
      Plan q;
      std::string l = "prob";
      std::string fl;
      for( auto& w : i.a )
         if( w.compare(0, 5, "stop=") == 0 ) fl = "fault icb stop " + w.substr(5);
         else if( w.compare(0, 6, "throw=") == 0 ) fl = "fault f throw " + w.substr(6);
         else l += " " + w;
      q.add(l);
      if( fl.size() ) q.add(fl);
      for( auto o : p.all("opt") ) q.it.push_back(*o);
      Scn j(q, "J");
      SolveRes r;
      if( i.key == "same" )
      {
         j.s.reset(new Session(&j.c));
         j.s->app = s.s->app;
         for( auto o : p.all("opt") ) j.c.opt[o->s(0)] = o->s(1);
         r = j.s->solve(false);
         W->count("hist.same");
      }
      else { r = j.solve(); W->count("hist.other"); }
      hist += " " + i.key + "-" + st_name(r.status);
      if( r.status == -1000 ) ok = false;
   }
   if( !ok ) return;
   stack_poison(pb);
   SolveRes r = s.solve();
   B = observe(s, r);
   std::string d = differs(A, B, true);
   if( d.size() ) W->violate("C08", hist.size() ? "history" : "repeat", fmt("two solves of the same problem with the same options differ: %s (second after:%s, clock and memory contents changed)", d.c_str(), hist.c_str()));
   const Item* ro = p.find("reopt");
   if( !ro || r.status == -1000 ) return;
   // a re-optimisation (possibly with new data of the same structure) against a first optimisation
   int how = (int)ro->l(0), rep = (int)ro->l(1, 1);
   Obs C, D;
   perturb(s.P, how);
   for( int k = 0; k < rep; ++k )
   {
      fresh_hash(s);
      stack_poison(pb ^ 0x11);
      r = s.solve(true);
   }
   C = observe(s, r);
   if( r.status == -1000 ) return;
   if( r.status == -100 && C.it.empty() && s.c.opt_is("warm_start_same_structure", "yes") ) { W->count("reopt.refused"); return; }   // INVALID_WARMSTART
   {
      Plan pd = p;
      if( !s.c.opt_is("warm_start_same_structure", "yes") )
      {
         std::vector<const Item*> ro = p.all("ropt");
         pd.it.erase(std::remove_if(pd.it.begin(), pd.it.end(), [&](const Item& i) { if( i.key == "opt" ) for( auto o : ro ) if( o->s(0) == i.s(0) ) return true; return false; }), pd.it.end());
         for( auto o : ro ) { pd.it.push_back(*o); pd.it.back().key = "opt"; }
      }
      Scn t(pd, "D");
      perturb(t.P, how);
      SolveRes q = t.solve();
      D = observe(t, q);
   }
   bool same = false;
   for( auto o : p.all("ropt") ) if( o->s(0) == "warm_start_same_structure" && o->s(1) == "yes" ) same = true;
   d = differs(D, C, !same);
   if( d.size() ) W->violate("C08", same ? "reopt-same-structure" : "reopt", fmt("a re-optimisation differs from a first optimisation (%s): %s", how ? "new problem data" : "same problem", d.c_str()));
   W->count("judged.reopt");
}
static RegProp reg("C08", "determinism and history independence", gen, run);
}
