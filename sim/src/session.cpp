#include "sim.hpp"
#include "IpSolveStatistics.hpp"
#include "IpRegOptions.hpp"
namespace sim
{
bool status_ok(int st) { return st == 0 || st == 1 || st == 6; }
const char* st_name(int st)
{
   switch( st )
   {
      case 0: return "Solve_Succeeded"; case 1: return "Solved_To_Acceptable_Level"; case 2: return "Infeasible_Problem_Detected";
      case 3: return "Search_Direction_Becomes_Too_Small"; case 4: return "Diverging_Iterates"; case 5: return "User_Requested_Stop";
      case 6: return "Feasible_Point_Found"; case -1: return "Maximum_Iterations_Exceeded"; case -2: return "Restoration_Failed";
      case -3: return "Error_In_Step_Computation"; case -4: return "Maximum_CpuTime_Exceeded"; case -5: return "Maximum_WallTime_Exceeded";
      case -10: return "Not_Enough_Degrees_Of_Freedom"; case -11: return "Invalid_Problem_Definition"; case -12: return "Invalid_Option";
      case -13: return "Invalid_Number_Detected"; case -100: return "Unrecoverable_Exception"; case -101: return "NonIpopt_Exception_Thrown";
      case -102: return "Insufficient_Memory"; case -199: return "Internal_Error"; case -1000: return "<exception escaped>";
   }
   return "<undocumented>";
}
static int site_of(const std::string& s) { for( int i = 0; i < S_NSITE; ++i ) if( s == site_name[i] ) return i; fprintf(stderr, "unknown site %s\n", s.c_str()); _Exit(9); }
void load_faults(const Plan& p, Ctx& c, const std::string& key)
{
   for( auto i : p.all(key) )
   {
      Fault f;
      f.site = site_of(i->s(0)); f.kind = i->s(1); f.from = i->l(2, 1); f.to = i->l(3, f.from); f.p1 = i->d(4); f.p2 = i->d(5);
      c.faults.push_back(f);
      if( f.site == S_ALLOC ) c.alloc_faults = true;
      if( f.site == S_FILE ) c.file_faults = true;
   }
}
void load_costs(const Plan& p, Ctx& c) { for( auto i : p.all("cost") ) c.cost[site_of(i->s(0))] = i->d(1); }

Session::Session(Ctx* cc) : c(cc)
{
   Ctx* old = T.ctx;
   T.ctx = c;
   bool console = c->opt_is("console", "1");
   nlp = new SimNLP(c);
   {
      Armed a(true);
      app = new Ipopt::IpoptApplication(console);
   }
   T.ctx = old;
}
bool Session::set_option(const std::string& name, const std::string& val)
{
   c->opt[name] = val;
   Ipopt::SmartPtr<const Ipopt::RegisteredOption> o = app->RegOptions()->GetOption(name);
   if( !IsValid(o) ) { c->opt.erase(name); return false; }
   bool ok = false;
   Armed a(true);
   switch( o->Type() )
   {
      case Ipopt::OT_Number: ok = app->Options()->SetNumericValue(name, strtod(val.c_str(), NULL)); break;
      case Ipopt::OT_Integer: ok = app->Options()->SetIntegerValue(name, (Index)strtol(val.c_str(), NULL, 10)); break;
      default: ok = app->Options()->SetStringValue(name, val); break;
   }
   return ok;
}
int Session::set_options(const Plan& p, const std::string& key)
{
   int bad = 0;
   set_option("print_level", "0");
   set_option("sb", "yes");
   for( auto i : p.all(key) ) if( !set_option(i->s(0), i->s(1)) ) { ++bad; W->count("opt.rejected"); fprintf(stderr, "option rejected: %s %s\n", i->s(0).c_str(), i->s(1).c_str()); }
   return bad;
}
int Session::init()
{
   Ctx* old = T.ctx;
   T.ctx = c;
   int r;
   {
      Armed a(true);
      r = app->Initialize("");
   }
   inited = true;
   T.ctx = old;
   return r;
}
SolveRes Session::solve(bool reopt)
{
   SolveRes r;
   if( !reopt && c->opt_is("warm_start_same_structure", "yes") ) set_option("warm_start_same_structure", "no");
   if( reopt ) { for( auto& o : ropts ) set_option(o.first, o.second); ropts.clear(); }
   Ctx* old = T.ctx;
   T.ctx = c;
   c->new_solve();
   r.t_wall0 = W->wall; r.t_cpu0 = W->cpu;
   try
   {
      Armed a(true);
      Ipopt::ApplicationReturnStatus s = reopt ? app->ReOptimizeTNLP(GetRawPtr(nlp)) : app->OptimizeTNLP(GetRawPtr(nlp));
      r.status = s;
   }
   catch( Ipopt::IpoptException& e ) { T.armed = false; r.status = -1000; r.escaped = "IpoptException " + e.Message(); }
   catch( std::bad_alloc& ) { T.armed = false; r.status = -1000; r.escaped = "std::bad_alloc"; }
   catch( std::exception& e ) { T.armed = false; r.status = -1000; r.escaped = std::string("std::exception ") + e.what(); }
   catch( int i ) { T.armed = false; r.status = -1000; r.escaped = fmt("int %d", i); }
   catch( ... ) { T.armed = false; r.status = -1000; r.escaped = "unknown"; }
   T.guard = 0; T.armed = false;
   c->depth = 0;
   r.t_wall1 = W->wall; r.t_cpu1 = W->cpu;
   W->count(std::string("status.") + st_name(r.status));
   if( r.status != -1000 && std::string(st_name(r.status)) == "<undocumented>" ) W->violate("C01", "undocumented-status", fmt("return status %d is not documented", r.status));
   collect(r);
   c->ev(400, (uint64_t)(int64_t)r.status, c->iters.size());
   r.hash = c->h;
   W->sigmix(hmix(r.status + 5000, std::min<size_t>(c->iters.size(), 1000)));
   T.ctx = old;
   return r;
}
void Session::collect(SolveRes& r)
{
   if( r.status == -1000 ) return;
   Ipopt::SmartPtr<Ipopt::SolveStatistics> s = app->Statistics();
   if( !IsValid(s) ) return;
   try
   {
      Armed a(true);
      r.iters = s->IterationCount();
      r.st_obj = s->FinalObjective(); r.st_scobj = s->FinalScaledObjective();
      r.st_cpu = s->TotalCpuTime(); r.st_wall = s->TotalWallclockTime(); r.st_sys = s->TotalSysTime();
      s->NumberOfEvaluations(r.nf, r.nc, r.ngf, r.njc, r.nh);
      s->Infeasibilities(r.st_du, r.st_viol, r.st_bnd, r.st_compl, r.st_kkt);
      s->ScaledInfeasibilities(r.st_sdu, r.st_sviol, r.st_sbnd, r.st_scompl, r.st_skkt);
      Num o[8];
      auto same = [](Num a, Num b) { return a == b || (a != a && b != b); };
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
      s->Infeasibilities(o[0], o[1], o[2], o[3]); s->ScaledInfeasibilities(o[4], o[5], o[6], o[7]);
#pragma GCC diagnostic pop
      r.st_old = same(o[0], r.st_du) && same(o[1], r.st_viol) && same(o[2], r.st_compl) && same(o[3], r.st_kkt) && same(o[4], r.st_sdu) && same(o[5], r.st_sviol) && same(o[6], r.st_scompl) && same(o[7], r.st_skkt);
      r.stats = true;
   }
   catch( ... ) { T.armed = false; W->count("stats.threw"); }
}
}
