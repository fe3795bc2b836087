// C11: output is passive and complete.
#include "common.hpp"
#include "IpJournalist.hpp"
#include <sstream>
namespace sim
{
static Plan gen(uint64_t seed, bool)
{
   Rng r(seed * 1000003 + 1101);
   Plan p;
   if( r.p(0.5) ) gen_problem_biased(p, r); else { GenCfg g; gen_problem(p, r, g); }
   p.add(fmt("opt max_iter %d", r.p(0.2) ? r.in(0, 30) : 120));
   std::set<std::string> av = { "max_iter", "print_frequency_iter", "timing_statistics" };
   if( r.p(0.1) ) { p.it[0].a.push_back("uscal=1"); p.add("opt nlp_scaling_method user-scaling"); av.insert("nlp_scaling_method"); }
   gen_options(p, r, av, r.p(0.3) ? 0. : 0.5);
   // output requests ("out" lines are options of the second solve only)
   int lv = r.p(0.35) ? 5 : r.in(0, 12);
   p.add(fmt("out print_level %d", lv));
   p.add(fmt("console %d", r.p(0.7)));
   if( r.p(0.6) )
   {
      std::string nm = r.pick(std::vector<std::string>{ "ipopt.out", "a.log", "dir/x.txt" });
      p.add("out output_file " + nm);
      if( r.p(0.5) ) p.add(fmt("out file_print_level %d", r.p(0.3) ? lv : r.in(0, 12)));
      if( r.p(0.4) ) p.add("out file_append yes");
      if( r.p(0.5) ) p.add("old " + nm);
      if( r.p(0.3) ) p.add(fmt("fault file %s %d %d", r.pick(std::vector<std::string>{ "noopen", "enospc", "eio", "short" }).c_str(), r.in(1, 20), r.p(0.5) ? r.in(20, 30) : 1000000));
   }
   if( r.p(0.3) ) p.add(fmt("stream %d", r.in(0, 12)));
   if( r.p(0.25) ) p.add(fmt("out print_frequency_iter %d", r.in(2, 7)));
   if( r.p(0.15) ) p.add(fmt("out print_frequency_time %g", r.logu(1e-6, 1e-2)));
   if( r.p(0.3) ) p.add("out print_info_string yes");
   if( r.p(0.3) ) p.add("out inf_pr_output internal");
   if( r.p(0.25) ) p.add("out print_timing_statistics yes");
   if( r.p(0.2) ) p.add("out print_user_options yes");
   if( r.p(0.04) ) p.add("out print_options_documentation yes");
   if( r.p(0.1) ) p.add("out print_advanced_options yes");
   if( r.p(0.1) ) p.add("out print_options_mode latex");
   if( r.p(0.08) ) p.add("out suppress_all_output yes");
   if( r.p(0.2) ) p.add("out timing_statistics yes");
   if( r.p(0.1) ) p.add("out sb no");
   if( r.p(0.3) ) gen_eval_faults(p, r, 3, { "false", "nan", "inf" }, { "f", "gf", "g", "jg", "h" }, 60);
   if( r.p(0.15) ) gen_mumps_faults(p, r, 3);
   if( r.p(0.15) ) p.add(fmt("fault icb stop %d", r.in(1, 25)));
   if( r.p(0.08) ) p.add(fmt("fault %s throw %d", r.pick(std::vector<std::string>{ "f", "gf", "g", "jg", "h", "icb", "start", "bounds", "fin" }).c_str(), r.in(1, 20)));
   if( r.p(0.1) ) { p.add(fmt("opt max_wall_time %g", r.logu(1e-2, 20))); p.add(fmt("cost f %g", r.logu(1e-3, 1))); }
   if( r.p(0.2) ) p.add(fmt("again %d", r.in(1, 2)));
   return p;
}
static const char* exit_msg(int st)
{
   switch( st )
   {
      case 0: return "Optimal Solution Found."; case -1: return "Maximum Number of Iterations Exceeded."; case -4: return "Maximum CPU time exceeded."; case -5: return "Maximum wallclock time exceeded.";
      case 3: return "Search Direction is becoming Too Small."; case 1: return "Solved To Acceptable Level."; case 6: return "Feasible point for square problem found."; case 4: return "Iterates diverging; problem might be unbounded.";
      case -2: return "Restoration Failed!"; case -3: return "Error in step computation!"; case 2: return "Converged to a point of local infeasibility. Problem may be infeasible."; case 5: return "Stopping optimization at current point as requested by user.";
      case -13: return "Invalid number in NLP function or derivative detected."; case -10: return "Problem has too few degrees of freedom."; case -12: return "Invalid option encountered."; case -11: return "Problem has inconsistent variable bounds or constraint sides.";
      case -100: return "Some uncaught Ipopt exception encountered."; case -102: return "Not enough memory.";
   }
   return NULL;
}
static std::vector<std::string> lines_of(const std::string& t)
{
   std::vector<std::string> l;
   size_t a = 0;
   while( a <= t.size() ) { size_t b = t.find('\n', a); if( b == std::string::npos ) { if( a < t.size() ) l.push_back(t.substr(a)); break; } l.push_back(t.substr(a, b - a)); a = b + 1; }
   return l;
}
// iteration line -> tokens (mode, iter, obj, inf_pr, inf_du, lg(mu), ||d||, lg(rg), alpha_du, alpha_pr+char, ls); empty if it is not one
static std::vector<std::string> iter_line(const std::string& l)
{
   size_t i = 0;
   while( i < l.size() && l[i] == ' ' ) ++i;
   size_t d = i;
   while( d < l.size() && isdigit((unsigned char)l[d]) ) ++d;
   if( d == i || d < 4 || d >= l.size() || (l[d] != ' ' && l[d] != 'r') ) return {};
   std::vector<std::string> t;
   t.push_back(l[d] == 'r' ? "r" : "-");
   t.push_back(l.substr(i, d - i));
   std::istringstream is(l.substr(d + 1));
   std::string w;
   while( (int)t.size() < 11 && is >> w )
   {
      if( t.size() == 9 )
      {
         // the number of trials may follow the step character directly
         size_t e = w.find('e'), q = e == std::string::npos ? e : e + 2;
         while( q < w.size() && isdigit((unsigned char)w[q]) ) ++q;
         if( q != std::string::npos && q + 1 < w.size() ) { t.push_back(w.substr(0, q + 1)); t.push_back(w.substr(q + 1)); break; }
      }
      t.push_back(w);
   }
   if( t.size() < 11 ) return {};
   for( int k : { 2, 3, 4, 5, 6, 8 } ) { char* e; strtod(t[k].c_str(), &e); if( *e ) return {}; }
   if( t[2].find('e') == std::string::npos && t[2].find("nan") == std::string::npos && t[2].find("inf") == std::string::npos ) return {};
   return t;
}
static std::vector<std::string> expect(const IterRec& q)
{
   std::vector<std::string> t;
   auto add = [&](const std::string& s) { std::istringstream is(s); std::string w; is >> w; t.push_back(w); };
   t.push_back(q.mode == 1 ? "r" : "-");
   t.push_back(fmt("%d", q.iter));
   add(fmt("%14.7e", q.obj)); add(fmt("%7.2e", q.inf_pr)); add(fmt("%7.2e", q.inf_du)); add(fmt("%5.1f", std::log10(q.mu))); add(fmt("%7.2e", q.dn));
   add(q.reg == 0 ? std::string("-") : fmt("%5.1f", std::log10(q.reg)).substr(0, 6));
   add(fmt("%7.2e", q.adu)); add(fmt("%7.2e%c", q.apr, q.achar)); add(fmt("%d", q.ls));
   return t;
}
struct Out { std::string text; int level; const char* what; };
static std::string tail_from(const std::vector<std::string>& l, const char* key)
{
   for( size_t i = l.size(); i-- > 0; ) if( l[i].compare(0, strlen(key), key) == 0 ) return l[i];
   return "";
}
static void judge_text(const Plan& p, Scn& s, const SolveRes& r, const Out& o, int freq, bool timefreq, bool internal, bool info)
{
   const Ctx& c = s.c;
   auto bad = [&](const char* cls, const std::string& m) { W->violate("C11", cls, std::string(o.what) + ": " + m); };
   std::vector<std::string> L = lines_of(o.text);
   W->count("judged.texts");
   // exit message
   std::string ex = tail_from(L, "EXIT: ");
   long nex = 0;
   for( auto& l : L ) nex += l.compare(0, 6, "EXIT: ") == 0;
   bool thrown = any_fault(c, ":throw");
   if( o.level >= 3 )
   {
      const char* want = exit_msg(r.status);
      if( r.status == -12 && ex.find("Library loading failure") != std::string::npos ) want = NULL;
      if( r.status == -102 && ex.find("Integer type too small") != std::string::npos ) want = NULL;
      if( r.status == -11 && ex.find("Some uncaught") != std::string::npos ) want = NULL;
      if( want && ex != std::string("EXIT: ") + want ) bad("exit-message", fmt("status %s but the exit message is \"%s\"", st_name(r.status), ex.c_str()));
      if( want && nex != 1 && !thrown ) bad("exit-count", fmt("%ld exit messages for one solve", nex));
   }
   else if( nex ) bad("level", fmt("exit message printed although the print level is %d", o.level));
   // iteration lines
   std::vector<std::vector<std::string> > I;
   std::vector<std::string> raw;
   for( auto& l : L ) { auto t = iter_line(l); if( t.size() ) { I.push_back(t); raw.push_back(l); } }
   if( o.level < 5 ) { if( I.size() ) bad("level", fmt("iteration line printed although the print level is %d", o.level)); }
   else
   {
      W->count("judged.lines", (long)I.size());
      size_t j = 0;
      bool failed = !status_ok(r.status) && r.status != 5 && r.status != -1 && r.status != -4 && r.status != -5;
      for( size_t i = 0; i < c.iters.size(); ++i )
      {
         const IterRec& q = c.iters[i];
         if( q.iter % freq ) continue;
         bool may = timefreq || (q.mode == 0 && i > 0 && c.iters[i - 1].mode == 1) || (i + 1 == c.iters.size() && (failed || thrown)) || (q.mode == 1 && (i + 1 == c.iters.size() || c.iters[i + 1].mode == 0));
         // the watchdog may go back to an earlier iterate
         std::vector<std::string> e = expect(q);
         int wrong = -1;
         if( j >= I.size() ) wrong = 1;
         else for( int k = 0; k < 11 && wrong < 0; ++k ) if( I[j][k] != e[k] && !(k == 3 && (!internal || q.mode == 1)) ) wrong = k;
         if( wrong < 0 )
         {
            if( !internal && q.have && q.mode == 0 )
            {
               // unscaled violation of the constraints with relaxed sides
               Num v = 0, mag = 1;
               for( int k = 0; k < s.P.m; ++k )
               {
                  Num g = q.g[k];
                  v = std::max(v, std::max(s.P.gl[k] - g, g - s.P.gu[k]));
                  mag = std::max(mag, std::max(std::abs(s.P.gl[k]) < 1e19 ? std::abs(s.P.gl[k]) : 0, std::abs(s.P.gu[k]) < 1e19 ? std::abs(s.P.gu[k]) : 0));
               }
               Num have = strtod(I[j][3].c_str(), NULL), rl = c.optd("bound_relax_factor", 1e-8) * mag * 2 + 1e-12 * mag;
               bool allin = makes_param(c);
               if( allin && !c.opt.count("dependency_detector") && !(std::abs(have - v) <= 0.0051 * std::max(have, v) * 10 / 10 + rl) ) bad("inf_pr", fmt("iteration %d: printed constraint violation %s, the iterate's violation is %.6g", q.iter, I[j][3].c_str(), v));
            }
            ++j; continue;
         }
         if( may ) continue;
         static const char* nm[] = { "phase", "iteration", "objective", "inf_pr", "inf_du", "lg(mu)", "||d||", "lg(rg)", "alpha_du", "alpha_pr", "ls" };
         std::string ee;
         for( auto& w : e ) ee += w + " ";
         bad("iteration-line", fmt("report %zu (of %zu): %s differs: expected [%s] printed [%s]", i, c.iters.size(), nm[wrong], ee.c_str(), j < raw.size() ? raw[j].c_str() : "nothing"));
         j = I.size();
         break;
      }
      if( j < I.size() ) bad("iteration-line-extra", fmt("iteration line without a report: %s", raw[j].c_str()));
      (void) info;
   }
   // summary
   if( o.level >= 3 && r.stats )
   {
      W->count("judged.summary");
      auto chk = [&](const char* key, const std::string& val)
      {
         std::string l = tail_from(L, key);
         if( l != key + val ) bad("summary", fmt("printed \"%s\", the statistics say \"%s\"", l.c_str(), val.c_str()));
      };
      chk("Number of Iterations....:", fmt(" %d", r.iters));
      auto two = [](Num a, Num b) { return fmt(" %24.16e  %24.16e", a, b); };
      chk("Objective...............:", two(r.st_scobj, r.st_obj));
      chk("Dual infeasibility......:", two(r.st_sdu, r.st_du));
      chk("Constraint violation....:", two(r.st_sviol, r.st_viol));
      chk("Variable bound violation:", two(r.st_sbnd, r.st_bnd));
      chk("Complementarity.........:", two(r.st_scompl, r.st_compl));
      chk("Overall NLP error.......:", two(r.st_skkt, r.st_kkt));
      chk("Number of objective function evaluations             =", fmt(" %d", r.nf));
      chk("Number of objective gradient evaluations             =", fmt(" %d", r.ngf));
      chk("Number of Lagrangian Hessian evaluations             =", fmt(" %d", r.nh));
      auto mx = [&](const char* a, const char* b, Index n, const char* w)
      {
         long u = atol(tail_from(L, a).substr(std::min(strlen(a), tail_from(L, a).size())).c_str()), v = atol(tail_from(L, b).substr(std::min(strlen(b), tail_from(L, b).size())).c_str());
         if( std::max(u, v) != n ) bad("summary", fmt("printed %ld and %ld %s evaluations, the statistics say %d", u, v, w, n));
      };
      mx("Number of equality constraint evaluations            =", "Number of inequality constraint evaluations          =", r.nc, "constraint");
      mx("Number of equality constraint Jacobian evaluations   =", "Number of inequality constraint Jacobian evaluations =", r.njc, "Jacobian");
      std::string tl = tail_from(L, "Total seconds in IPOPT                               =");
      if( tl.size() ) { Num t = strtod(tl.c_str() + tl.find('=') + 1, NULL); if( std::abs(t - r.st_wall) > 0.0011 + 1e-6 * std::abs(r.st_wall) ) bad("summary-time", fmt("printed %g s, the statistics say %g s", t, r.st_wall)); }
   }
}
// everything but the order of the evaluations and the evaluations of derivatives
static uint64_t result_hash(const Scn& s, const SolveRes& r)
{
   uint64_t h = hmix(9, (uint64_t)(int64_t)r.status);
   h = hmix(h, s.c.hit_seq);
   // a derivative that fails ends what would have been evaluated after it
   bool dfail = any_fault(s.c, ":throw");
   for( const char* k : { "gf:", "jg:", "h:" } ) dfail = dfail || any_fault(s.c, k);
   if( !dfail ) h = hmix(h, s.c.hc);
   h = hmix(h, s.c.iters.size()); h = hmix(h, s.c.fins.size());
   if( r.stats ) { h = hmix(h, r.iters); h = hmix(h, dbits(r.st_obj)); h = hmix(h, dbits(r.st_kkt)); if( !dfail ) h = hmix(h, r.nf * 1000003 + r.nc * 1009); }
   return h;
}
static void run(const Plan& p)
{
   SolveRes ra, rb;
   int nag = (int)p.geti("again", 0);
   for( auto o : p.all("opt") ) if( o->s(0) == "max_wall_time" ) W->tick = 0;   // reading the clock for the output takes no time
   std::vector<uint64_t> HA, HC;
   std::vector<int> SA;
   {
      Plan q = p;
      q.it.erase(std::remove_if(q.it.begin(), q.it.end(), [](const Item& i) { return i.key == "fault" && i.s(0) == "file"; }), q.it.end());
      Scn s(q, "A");
      s.c.inspect = true;
      for( int k = 0; k <= nag; ++k ) { ra = s.solve(); HA.push_back(outcome_hash(s, ra)); HC.push_back(result_hash(s, ra)); SA.push_back(ra.status); }
   }
   bool cons = p.geti("console", 0) != 0;
   Plan q = p;
   std::map<std::string, std::string> out;
   for( auto i : p.all("out") ) { q.add("opt " + i->s(0) + " " + i->s(1)); out[i->s(0)] = i->s(1); }
   if( cons ) q.add("flag console 1");
   for( auto i : p.all("old") ) W->files[i->s(0)] = "EXIT: old content\n";
   std::ostringstream os;
   capture_stdout(true);
   {
      Scn s(q, "B");
      s.c.inspect = true;
      int slev = (int)p.geti("stream", -1);
      // as Scn::open, with a stream journal added
      s.s.reset(new Session(&s.c));
      if( slev >= 0 )
      {
         Ipopt::SmartPtr<Ipopt::StreamJournal> j = new Ipopt::StreamJournal("user", (Ipopt::EJournalLevel)slev);
         j->SetOutputStream(&os);
         s.s->app->Jnlst()->AddJournal(GetRawPtr(j));
      }
      s.s->set_options(q, "opt");
      if( s.P.use_xs && s.c.opt_is("nlp_scaling_method", "user-scaling") ) s.c.opt["scale_x"] = "1";
      s.init_status = s.s->init();
      bool filefault = any_fault(s.c, "file:");
      for( auto& f : s.c.faults ) if( f.site == S_FILE && f.fired ) filefault = true;
      bool noopen = false;
      for( auto& f : s.c.faults ) noopen = noopen || (f.site == S_FILE && f.kind == "noopen" && f.fired);
      if( noopen ) { W->count("judged.noopen"); if( s.init_status != -12 ) W->violate("C11", "noopen", fmt("Initialize returned %s although the output file cannot be opened", st_name(s.init_status))); }
      else if( s.init_status != 0 ) W->violate("C11", "init", fmt("Initialize returned %s", st_name(s.init_status)));
      std::string fname = out.count("output_file") ? out["output_file"] : "";
      bool suppressed = out["suppress_all_output"] == "yes";
      int lev = atoi(out["print_level"].c_str());
      int flev = out.count("file_print_level") ? atoi(out["file_print_level"].c_str()) : lev;
      int freq = out.count("print_frequency_iter") ? atoi(out["print_frequency_iter"].c_str()) : 1;
      bool detailed = (cons && lev > 5) || (fname.size() && flev > 5) || slev > 5;
      for( int k = 0; k <= nag; ++k )
      {
         s.s->app->Jnlst()->FlushBuffer();
         size_t o0 = W->out.size(), f0 = W->files[fname].size(), s0 = os.str().size();
         rb = s.solve();
         // detailed output may change the order of the evaluations at a point and repeat evaluations of derivatives, nothing else
         if( rb.status != SA[k] || (detailed ? result_hash(s, rb) != HC[k] : outcome_hash(s, rb) != HA[k]) )
         {
            W->violate("C11", "passive", fmt("solve %d with output requested differs from the one without: %s and %s (or callbacks, iterates, results)", k, st_name(SA[k]), st_name(rb.status)));
            break;
         }
         W->count("judged.passive");
         if( rb.status == -1000 ) break;
         filefault = false;
         for( auto& f : s.c.faults ) if( f.site == S_FILE && f.fired ) filefault = true;
         std::string to = W->out.substr(std::min(o0, W->out.size())), tf = W->files[fname].substr(std::min(f0, W->files[fname].size())), ts = os.str().substr(s0);
         bool tfr = out.count("print_frequency_time") != 0, in = out["inf_pr_output"] == "internal";
         if( suppressed ) { if( to.size() || tf.size() || ts.size() ) W->violate("C11", "suppressed", "output produced although suppress_all_output is set"); continue; }
         if( cons && !filefault && W->out.size() < (4u << 20) - 65536 ) judge_text(p, s, rb, Out{to, lev, "console"}, freq, tfr, in, out["print_info_string"] == "yes");
         if( !cons && to.size() ) W->violate("C11", "console", "output on the console although it was not requested");
         if( fname.size() && !filefault && W->files[fname].size() < (8u << 20) - 65536 ) judge_text(p, s, rb, Out{tf, flev, "output file"}, freq, tfr, in, false);
         if( slev >= 0 ) judge_text(p, s, rb, Out{ts, slev, "stream journal"}, freq, tfr, in, false);
         // the same verbosity gives the same text everywhere
         if( cons && fname.size() && !filefault && flev == lev && W->files[fname].size() < (4u << 20) - 65536 && to != tf ) W->violate("C11", "same-text", "console and output file have the same print level but different content");
         if( slev >= 0 && fname.size() && !filefault && flev == slev && W->files[fname].size() < (4u << 20) - 65536 && ts != tf ) W->violate("C11", "same-text", "stream journal and output file have the same print level but different content");
      }
      if( fname.size() && !noopen && !suppressed && p.find("old") )
      {
         bool app = out["file_append"] == "yes", has = W->files[fname].compare(0, 18, "EXIT: old content\n") == 0;
         if( app != has ) W->violate("C11", "append", fmt("file_append is %s but the former content is %s", app ? "yes" : "no", has ? "kept" : "gone"));
      }
   }
   capture_stdout(false);
   if( W->trace ) { fprintf(stderr, "%s", W->out.c_str()); for( auto& f : W->files ) fprintf(stderr, "--- %s\n%s", f.first.c_str(), f.second.c_str()); }
}
static RegProp reg("C11", "output", gen, run);
}
