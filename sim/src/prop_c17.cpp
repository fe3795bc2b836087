// C17: the C and the Fortran interface give the same solve as the C++ interface.
#include "capi.hpp"
#include <unistd.h>
namespace sim
{
static Plan gen(uint64_t seed, bool)
{
   Rng r(seed * 1000003 + 1701);
   Plan p;
   if( r.p(0.4) ) gen_problem_biased(p, r); else { GenCfg g; gen_problem(p, r, g); }
   p.add(fmt("iface %d", r.in(1, 2)));
   p.add(fmt("opt max_iter %d", r.p(0.2) ? r.in(0, 30) : 100));
   std::set<std::string> av = { "max_iter", "nlp_scaling_method", "hessian_approximation" };
   bool uscal = r.p(0.3);
   if( uscal ) p.add("opt nlp_scaling_method user-scaling");
   if( r.p(0.12) ) p.add("opt hessian_approximation limited-memory");
   gen_options(p, r, av, 0.45);
   if( r.p(0.2) ) p.add("opt warm_start_init_point yes");
   if( r.p(0.08) ) p.add("opt jacobian_approximation finite-difference-values");
   if( r.p(0.05) ) p.add("opt gradient_approximation finite-difference-values");
   if( r.p(0.06) ) { p.add("opt derivative_test second-order"); p.add("opt point_perturbation_radius 1"); }
   if( r.p(0.06) ) p.add("opt hessian_constant yes");
   if( r.p(0.06) ) p.add("opt jac_d_constant yes");
   if( r.p(0.25) ) p.add(fmt("opt print_level %d", r.in(1, 7)));
   if( r.p(0.15) ) p.add("opt output_file out1.txt");
   if( r.p(0.15) ) gen_limits(p, r);
   bool thr = r.p(0.15);
   std::vector<std::string> kinds = { "false", "false", "nan", "inf", "ninf", "allnan" };
   if( thr ) { kinds.push_back("throw"); kinds.push_back("ipexc"); kinds.push_back("badalloc"); p.it[1].a[0] = "1"; }
   if( r.p(0.45) ) gen_eval_faults(p, r, 3, kinds, { "f", "gf", "g", "jg", "h", "h", "js", "hs" }, 50);
   if( r.p(0.12) ) gen_mumps_faults(p, r, 2);
   if( r.p(0.25) ) p.add(fmt("fault icb stop %d", r.in(1, 25)));
   if( thr && r.p(0.3) ) p.add(fmt("fault icb throw %d", r.in(1, 12)));
   p.add(fmt("look %d %d", r.p(0.6) ? r.in(1, 3) : 0, r.in(0, 9999)));
   auto step = [&](const std::string& s) { p.add("step " + s); };
   auto scal = [&] { step(fmt("scal %g %d %d %d", r.p(0.15) ? -r.logu(0.01, 100) : r.logu(0.01, 100), r.p(0.6), r.p(0.6), r.in(0, 9999))); };
   auto add = [&]
   {
      static const std::vector<std::string> l = { "s linear_solver mumps", "s linear_solver none", "s no_such_option yes", "n no_such_option 1", "i no_such_option 1", "n tol -1", "n tol 0", "n tol 1e-7", "n tol nan", "i max_iter -1", "i tol 3",
         "s max_iter 3", "n max_iter 7", "s tol 1e-3", "i print_level 13", "s print_user_options maybe", "n mu_init 0.2", "s mu_strategy adaptive", "s mu_strategy ADAPTIVE", "n bound_push 0.2", "i acceptable_iter 2", "s sb no", "n max_cpu_time 1e3", "s TOL 1",
         "i limited_memory_max_history 2", "s derivative_test none", "s nlp_scaling_method none", "s option_file_name none.opt", "n mu_max 1e-3", "s accept_every_trial_step no", "s  tol" };
      std::string a = l[r.u64() % l.size()];
      if( a == "s sb no" ) a = "s sb yes";
      step("add " + a);
   };
   if( r.p(0.3) ) step(fmt("badcreate %d", r.in(0, n_bad_create() - 1)));
   if( r.p(0.12) ) step(fmt("odd %d", r.in(0, 3)));
   if( r.p(0.85) ) step("cb 1");
   if( uscal || r.p(0.1) ) scal();
   while( r.p(0.3) ) add();
   if( r.p(0.15) ) step(fmt("file f%d.txt %d", r.in(0, 2), r.in(0, 6)));
   if( r.p(0.15) ) step(fmt("outside %d", r.in(0, 999)));
   int k = r.p(0.6) ? 1 : r.in(2, 4);
   for( int i = 0; i < k; ++i )
   {
      if( i )
      {
         if( r.p(0.2) ) add();
         if( r.p(0.2) ) scal();
         if( r.p(0.2) ) step(fmt("cb %d", r.in(0, 1)));
         if( r.p(0.1) ) step(fmt("file f%d.txt %d", r.in(0, 2), r.in(0, 6)));
      }
      step(fmt("solve %d %d", r.p(0.3) ? r.in(0, 31) : r.p(0.04) ? 32 : 0, r.p(0.5) ? 0 : r.in(1, 9999)));
      if( r.p(0.2) ) step(fmt("outside %d", r.in(0, 999)));
   }
   if( r.p(0.05) ) { p.add("file tol 1e-5"); p.add("file mu_strategy adaptive"); if( r.p(0.3) ) p.add("file # a comment"); if( r.p(0.2) ) p.add("file no_such_option 1"); }
   return p;
}
struct Rec { std::string what; std::vector<std::string> detail; std::vector<Ctx::LogEv> log; std::string out; };
struct Run { std::vector<Rec> steps; std::map<std::string, std::string> files; };
static const Num SENT = -7.0123e77;
static void bufs(const Problem& P, int what, std::vector<Vec>& b)
{
   int n = P.n, m = P.m;
   b.clear();
   if( what == 0 ) b = { Vec(n, SENT), Vec(n, SENT), Vec(n, SENT), Vec(m, SENT), Vec(m, SENT) };
   else b = { Vec(n, SENT), Vec(n, SENT), Vec(n, SENT), Vec(n, SENT), Vec(n, SENT), Vec(m, SENT), Vec(m, SENT) };
}
static bool touched(const std::vector<Vec>& b) { for( auto& v : b ) for( Num q : v ) if( q != SENT ) return true; return false; }
static void drive(const Plan& p, int iface, Run& R)
{
   Scn S(p, if_name[iface]);
   Ctx& c = S.c;
   W->wall = p.getd("wall0", 1000.); W->cpu = p.getd("cpu0", 5.); W->tick = p.getd("tick", 1e-6); W->cpu_frozen = false;
   fflush(stdout);
   W->out.clear(); W->files.clear();
   c.keeplog = true;
   c.mon = false;
   std::unique_ptr<Drv> d = make_drv(iface, &c);
   Drv* D = d.get();
   bool ok = d->create();
   if( !ok ) { W->violate("C17", "create", fmt("a valid problem was refused by the %s interface (n=%d, m=%d, nonzeros %d/%d)", if_name[iface], S.P.n, S.P.m, (int)S.P.js.size(), (int)S.P.hs.size())); return; }
   int lookk = 0; uint64_t lseed = 0;
   if( const Item* l = p.find("look") ) { lookk = (int)l->l(0); lseed = (uint64_t)l->l(1); }
   c.at_icb = [&, D, iface](Ctx& cc, const Ipopt::IpoptData* dd, Ipopt::IpoptCalculatedQuantities* cq, const Ipopt::TNLP* t)
   {
      Rng q(lseed * 7919 + cc.occ[S_ICB] * 31 + 5);
      for( int i = 0; i < lookk; ++i )
      {
         int what = q.in(0, 1), mask = q.p(0.4) ? 31 : q.in(0, 31);
         bool sc = q.p(0.5);
         std::vector<Vec> b;
         bufs(*cc.P, what, b);
         int save = T.guard; bool sa = T.armed;
         T.guard = 0; T.armed = true; cc.inspecting = true;
         int r = D->inspect(what, sc, mask, b, dd, cq, t);
         T.guard = save; T.armed = sa; cc.inspecting = false;
         uint64_t h = 17;
         for( auto& v : b ) h = hmix(h, xhash(v.data(), (int)v.size()));
         cc.ev(310 + what * 2 + sc, h, (uint64_t)r * 64 + mask);
         W->count(r ? "look.ok" : "look.refused");
      }
   };
   if( iface != IF_CPP && lookk )
      c.at_cb = [&, D, iface](Ctx& cc, int site)
      {
         Rng q(lseed * 104729 + cc.occ[site] * 37 + site);
         if( !q.p(0.05) || cc.inspecting ) return;
         int what = q.in(0, 1);
         std::vector<Vec> b;
         bufs(*cc.P, what, b);
         int save = T.guard; bool sa = T.armed;
         T.guard = 0; T.armed = true;
         int r = D->inspect(what, false, 31, b, NULL, NULL, NULL);
         T.guard = save; T.armed = sa;
         W->count("look.eval");
         if( r || touched(b) ) W->violate("C17", "inspect-in-eval", fmt("%s interface: the current iterate was %s inside %s, outside the intermediate callback", if_name[iface], r ? "delivered" : "refused but written", site_name[site]));
      };
   auto rec = [&](const std::string& w) -> Rec& { R.steps.push_back(Rec()); R.steps.back().what = w; return R.steps.back(); };
   rec(fmt("options %d %d", d->add('s', "sb", "yes"), p.find("opt") && 0));
   bool haspl = false;
   for( auto o : p.all("opt") ) haspl = haspl || o->s(0) == "print_level";
   if( !haspl ) d->add('i', "print_level", "0");
   for( auto o : p.all("opt") )
   {
      char t = 's';
      std::string v = o->s(1);
      static Ipopt::SmartPtr<Ipopt::IpoptApplication> reg = new Ipopt::IpoptApplication(false);
      Ipopt::SmartPtr<const Ipopt::RegisteredOption> ro = reg->RegOptions()->GetOption(o->s(0));
      if( IsValid(ro) ) t = ro->Type() == Ipopt::OT_Number ? 'n' : ro->Type() == Ipopt::OT_Integer ? 'i' : 's';
      c.opt[o->s(0)] = v;
      rec(fmt("option %s %s: %d", o->s(0).c_str(), v.c_str(), d->add(t, o->s(0), v)));
   }
   int solveno = 0;
   for( auto itp : p.all("step") )
   {
      const Item& it = *itp;
      const std::string& k = it.s(0);
      if( k == "badcreate" )
      {
         if( iface == IF_CPP ) continue;
         std::string what;
         if( !bad_create(&c, iface, (int)it.l(1), what) ) W->violate("C17", "create-invalid", fmt("the %s interface accepted a problem with %s", if_name[iface], what.c_str()));
         W->count("badcreate");
      }
      else if( k == "odd" )
      {
         if( iface != IF_C ) continue;
         Scn o(p, "odd");
         fflush(stdout);
         std::string out = W->out;
         o.c.faults.clear();
         SolArr a;
         a.x = o.P.x0; a.g.assign(o.P.m, SENT); a.lam.assign(o.P.m, SENT); a.zl.assign(o.P.n, SENT); a.zu.assign(o.P.n, SENT); a.obj = SENT;
         std::string what;
         int st = odd_solve(&o.c, (int)it.l(1), a, what);
         if( st != -11 && !(st == -12 && p.find("file")) ) W->violate("C17", "odd-status", fmt("a problem with %s was not refused as Invalid_Problem_Definition but %s", what.c_str(), st_name(st)));
         if( o.c.nev ) W->violate("C17", "odd-called", fmt("callbacks of a problem with %s were called", what.c_str()));
         std::vector<Vec> b = { a.g, a.lam, a.zl, a.zu, Vec(1, a.obj) };
         if( touched(b) || !vec_same(a.x, o.P.x0) ) W->violate("C17", "odd-written", fmt("the solution arrays were written although the problem with %s was refused", what.c_str()));
         fflush(stdout); W->out = out;
         W->count("odd");
      }
      else if( k == "cb" ) d->setcb(it.l(1) != 0);
      else if( k == "add" )
      {
         std::string nm = it.s(2), v = it.s(3);
         if( v.empty() ) { nm = "  " + nm; v = "1"; }
         if( iface == IF_F && nm.size() && nm.back() == ' ' ) continue;
         rec(fmt("add %s %s %s: %d", it.s(1).c_str(), nm.c_str(), v.c_str(), d->add(it.s(1)[0], nm, v)));
      }
      else if( k == "file" ) rec(fmt("openfile %s: %d", it.s(1).c_str(), d->openfile(it.s(1), (int)it.l(2))));
      else if( k == "scal" )
      {
         Rng q(it.l(4) * 31 + 3);
         Vec xs(S.P.n), gs(S.P.m);
         for( Num& v : xs ) v = q.logu(0.1, 10);
         for( Num& v : gs ) v = q.logu(0.1, 10);
         rec(fmt("scaling: %d", d->scaling(it.d(1), it.l(2) ? &xs : NULL, it.l(3) && S.P.m ? &gs : NULL)));
      }
      else if( k == "outside" )
      {
         if( iface == IF_CPP ) continue;
         int what = (int)it.l(1) & 1;
         std::vector<Vec> b;
         bufs(S.P, what, b);
         int r = d->inspect(what, it.l(1) & 2, 31, b, NULL, NULL, NULL);
         if( r || touched(b) ) W->violate("C17", "inspect-outside", fmt("%s interface: the current iterate was %s outside a solve", if_name[iface], r ? "delivered" : "refused but written"));
         W->count("look.outside");
      }
      else if( k == "solve" )
      {
         SolArr a;
         int mask = (int)it.l(1);
         a.hg = !(mask & 1); a.ho = !(mask & 2); a.hl = !(mask & 4); a.hzl = !(mask & 8); a.hzu = !(mask & 16); a.hx = !(mask & 32);
         a.x = S.P.x0;
         a.g.assign(S.P.m, SENT); a.obj = SENT;
         a.lam.assign(S.P.m, 0.); a.zl.assign(S.P.n, 1.); a.zu.assign(S.P.n, 1.);
         if( it.l(2) )
         {
            Rng q(it.l(2) + 77);
            for( Num& v : a.x ) v += q.uni(-1, 1);
            for( Num& v : a.lam ) v = q.uni(-2, 2);
            for( Num& v : a.zl ) v = q.logu(1e-4, 10);
            for( Num& v : a.zu ) v = q.logu(1e-4, 10);
            if( q.p(0.1) && S.P.n ) a.x[0] = std::numeric_limits<Num>::quiet_NaN();
         }
         size_t l0 = c.elog.size();
         int st = d->solve(a);
         Rec& e = rec(fmt("solve %d: %s", ++solveno, st_name(st)));
         if( st == -1000 ) { e.what += " " + d->escaped; W->count("escaped"); }
         auto pv = [&](const char* nm, const Vec& v) { for( size_t i = 0; i < v.size(); ++i ) e.detail.push_back(fmt("%s[%d] = %.17g", nm, (int)i, v[i] == SENT ? 0. : v[i]) + (v[i] == SENT ? " (unset)" : "")); };
         pv("x", a.x); pv("g", a.g); pv("mult_g", a.lam); pv("mult_x_L", a.zl); pv("mult_x_U", a.zu); e.detail.push_back(fmt("obj = %.17g", a.obj));
         e.log.assign(c.elog.begin() + l0, c.elog.end());
         if( iface == IF_CPP ) { W->count(std::string("status.") + st_name(st)); W->count("iters", (long)c.iters.size()); }
         W->sigmix(st + 9000 + iface);
         fflush(stdout);
         e.out = a.hx ? W->out : std::string(); W->out.clear();
      }
   }
   d->release();
   c.at_icb = nullptr; c.at_cb = nullptr;
   fflush(stdout);
   R.files = W->files;
}
static std::string evname(const Ctx::LogEv& e)
{
   std::string s = e.tag < S_NSITE ? std::string("call of ") + site_name[e.tag] : e.tag >= 300 ? fmt("inspection %d", e.tag) : e.tag == 200 ? "multipliers of h" : std::string("result of ") + site_name[(e.tag - 100) % S_NSITE];
   return s + fmt(" (%016llx %llx)", (unsigned long long)e.a, (unsigned long long)e.b);
}
static void run(const Plan& p)
{
   std::string dir;
   if( p.find("file") )
   {
      char nm[] = "/tmp/ipoptsim_dirXXXXXX";
      if( mkdtemp(nm) && chdir(nm) == 0 )
      {
         dir = nm;
         FILE* f = fopen("ipopt.opt", "w");
         for( auto i : p.all("file") ) { for( auto& w : i->a ) fprintf(f, "%s ", w.c_str()); fprintf(f, "\n"); }
         fclose(f);
      }
   }
   int iface = (int)p.geti("iface", 1);
   Run A, B;
   drive(p, IF_CPP, A);
   drive(p, iface, B);
   if( dir.size() ) { unlink((dir + "/ipopt.opt").c_str()); if( chdir("/") == 0 ) rmdir(dir.c_str()); }
   const char* in = if_name[iface];
   for( size_t i = 0; i < std::min(A.steps.size(), B.steps.size()); ++i )
   {
      const Rec &a = A.steps[i], &b = B.steps[i];
      size_t k = 0;
      while( k < a.log.size() && k < b.log.size() && a.log[k].tag == b.log[k].tag && a.log[k].a == b.log[k].a && a.log[k].b == b.log[k].b ) ++k;
      if( k < a.log.size() || k < b.log.size() )
      {
         W->violate("C17", iface == IF_C ? "callbacks-c" : "callbacks-f", fmt("event %zu of %s differs: C++ %s, %s interface %s", k, a.what.c_str(), k < a.log.size() ? evname(a.log[k]).c_str() : "none", in, k < b.log.size() ? evname(b.log[k]).c_str() : "none"));
         return;
      }
      if( a.what != b.what ) { W->violate("C17", a.what.compare(0, 5, "solve") ? "option-result" : "status", fmt("C++: %s, %s interface: %s", a.what.c_str(), in, b.what.c_str())); return; }
      for( size_t j = 0; j < a.detail.size(); ++j ) if( a.detail[j] != b.detail[j] ) { W->violate("C17", "solution", fmt("%s: C++ %s, %s interface %s", a.what.c_str(), a.detail[j].c_str(), in, b.detail[j].c_str())); return; }
      if( a.out != b.out )
      {
         size_t q = 0;
         while( q < a.out.size() && q < b.out.size() && a.out[q] == b.out[q] ) ++q;
         W->violate("C17", "output", fmt("console output of %s differs at byte %zu of %zu/%zu (%s interface): '%s' and '%s'", a.what.c_str(), q, a.out.size(), b.out.size(), in, a.out.substr(q, 60).c_str(), b.out.substr(q, 60).c_str()));
         return;
      }
   }
   if( A.steps.size() != B.steps.size() ) W->violate("C17", "steps", "internal: different step counts");
   bool nox = false;      // the C interface reports a missing starting point in the output
   for( auto i : p.all("step") ) nox = nox || (i->s(0) == "solve" && (i->l(1) & 32));
   for( auto& f : A.files ) if( nox ) break; else if( !B.files.count(f.first) || B.files[f.first] != f.second ) W->violate("C17", "output-file", fmt("the contents of output file %s differ (%s interface)", f.first.c_str(), in));
   if( A.files.size() != B.files.size() ) W->violate("C17", "output-file", fmt("different output files (%s interface)", in));
   W->count(iface == IF_C ? "judged.c" : "judged.fortran");
}
static RegProp reg("C17", "interface parity", gen, run);
}
