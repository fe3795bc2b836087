#pragma once
#include "sim.hpp"
namespace sim
{
// One simulated user: a problem, its callbacks with their fault schedule, an application object.
struct Scn
{
   Problem P;
   Ctx c;
   std::unique_ptr<Session> s;
   int init_status = 0;
   Scn(const Plan& p, const std::string& name = "s", const std::string& pfx = "");
   ~Scn();
   void open();                 // creates the application, sets the options, initialises
   SolveRes solve(bool re = false) { if( !s ) open(); return s->solve(re); }
   const FinRec* fin() const { return c.fins.empty() ? NULL : &c.fins.back(); }
   Plan plan;
   std::string pfx;
};
enum { J_CRIT = 1, J_OTHER = 2 };
void judge_status(const std::string& prop, const Scn& s, const SolveRes& r);
void judge_final_consistency(const std::string& prop, const Scn& s, const SolveRes& r);
void judge_iters(const std::string& prop, const Scn& s, const SolveRes& r);
void judge_mapping(const std::string& prop, const Scn& s, const SolveRes& r);
bool makes_param(const Ctx& c);
bool default_branch(int sr);
bool vec_same(const Vec& a, const Vec& b);
bool any_fault(const Ctx& c, const std::string& kindpart);    // a fault of the kind fired
bool feq(Num a, Num b, Num rel, Num abs);
void gen_eval_faults(Plan& p, Rng& r, int nmax, const std::vector<std::string>& kinds, const std::vector<std::string>& sites, int maxocc);
void gen_mumps_faults(Plan& p, Rng& r, int nmax);
void gen_limits(Plan& p, Rng& r);
void gen_std(Plan& p, Rng& r, Num orate, const std::set<std::string>& avoid = {});
void heap_shuffle(uint64_t seed);   // other contents and layout of the C heap
uint64_t outcome_hash(const Scn& s, const SolveRes& r);   // everything the user received
struct Obs { SolveRes r; uint64_t h, hit, out; size_t iters; std::vector<IterRec> it; std::vector<FinRec> fins; long calls[S_NSITE]; };
Obs observe(Scn& s, const SolveRes& r);
void fresh_hash(Scn& s);
std::string differs(const Obs& a, const Obs& b, bool calls);
}
