// Deterministic simulator for Ipopt: core types.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <functional>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <algorithm>
#include <limits>

#include "IpIpoptApplication.hpp"
#include "IpTNLP.hpp"

namespace sim
{
using Ipopt::Index;
typedef double Num;
typedef std::vector<Num> Vec;
static const Num INF = 1e20;   // Ipopt's default "no bound"

// ---------------------------------------------------------------- PRNG
inline uint64_t splitmix(uint64_t& x)
{
   uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
   z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
   z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
   return z ^ (z >> 31);
}
inline uint64_t hmix(uint64_t h, uint64_t v)
{
   h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
   h *= 0xff51afd7ed558ccdULL;
   return h ^ (h >> 33);
}
uint64_t hstr(const std::string& s);
inline uint64_t dbits(Num d)
{
   uint64_t u;
   memcpy(&u, &d, 8);
   if( d != d ) u = 0x7ff8000000000001ULL;
   return u;
}
struct Rng
{
   uint64_t s;
   explicit Rng(uint64_t seed = 1) : s(seed) { splitmix(s); splitmix(s); }
   uint64_t u64() { return splitmix(s); }
   Num uni() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
   Num uni(Num a, Num b) { return a + (b - a) * uni(); }
   int in(int a, int b) { return a + int(u64() % uint64_t(b - a + 1)); }
   bool p(Num q) { return uni() < q; }
   Num logu(Num a, Num b) { return std::exp(uni(std::log(a), std::log(b))); }
   template<class T> const T& pick(const std::vector<T>& v) { return v[u64() % v.size()]; }
};
std::string num(Num d);          // exact round-trip text
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- plan
// One execution is a pure function of a plan: a list of text lines.
struct Item
{
   std::string key;
   std::vector<std::string> a;
   std::string str() const;
   const std::string& s(size_t i) const { static const std::string e; return i < a.size() ? a[i] : e; }
   Num d(size_t i, Num def = 0) const { return i < a.size() ? strtod(a[i].c_str(), NULL) : def; }
   long l(size_t i, long def = 0) const { return i < a.size() ? strtol(a[i].c_str(), NULL, 10) : def; }
};
struct Plan
{
   std::string prop;
   std::vector<Item> it;
   void add(const std::string& line);
   const Item* find(const std::string& key) const;
   std::vector<const Item*> all(const std::string& key) const;
   std::string str() const;
   static Plan parse(const std::string& text);
   long geti(const std::string& key, long def) const { const Item* i = find(key); return i ? i->l(0, def) : def; }
   Num getd(const std::string& key, Num def) const { const Item* i = find(key); return i ? i->d(0, def) : def; }
   std::string gets(const std::string& key, const std::string& def) const { const Item* i = find(key); return i ? i->s(0) : def; }
};

// ---------------------------------------------------------------- problem
struct Term     // a * prod_k g_k(x)   with elementary kinds
{
   // kinds: 0 const, 1 monomial a*x_i^p*x_j^q*x_k^r*x_l^t, 2 a*(x_i-b)^2, 3 a*(x_i-x_j-b)^2, 4 a*exp(b*x_i),
   //        5 a*log(x_i-b), 6 a*sin(b*x_i), 7 a*(x_i-b)^4, 8 a*sqrt(x_i-b), 9 a/(x_i-b)
   int kind;
   int v[4];
   int e[4];
   Num a, b;
};
struct Func
{
   std::vector<Term> t;
   Num value(const Num* x) const;
   void grad(const Num* x, Num* g, Num w) const;                       // g += w*grad
   void hess(const Num* x, Num w, std::map<std::pair<int, int>, Num>& H) const; // lower triangle +=
   bool linear() const;
   bool quadratic() const;
   void vars(std::set<int>& s) const;
   void nlvars(std::set<int>& s) const;
};
struct Problem
{
   std::string family;
   uint64_t seed = 0;
   int n = 0, m = 0;
   Vec xl, xu, gl, gu, x0, xint;
   Vec lam0, zl0, zu0;      // warm start multipliers (may be empty)
   Func f;
   std::vector<Func> g;
   bool convex = false;     // objective convex and feasible set convex
   bool slater = false;     // a strictly interior point of all inequalities (and the bounds) is known
   bool infeasible = false; // known infeasible
   bool bounded = false;    // the objective is bounded below on the feasible set and the solution set is bounded
   bool domain = false;     // functions undefined for some points within the bounds
   std::string style;       // "c" or "fortran"
   std::vector<std::pair<int, int> > js, hs;   // structures (0-based); hs lower triangle, possibly with duplicates
   std::vector<Num> hsw;    // weight of each entry (duplicates share an element)
   // user scaling
   Num os = 1;
   Vec xs, gs;
   bool use_xs = false, use_gs = false;
   void finish(bool dup_hess, bool upper, Rng& r);
   void jac(const Num* x, Num* vals) const;
   void hess(const Num* x, Num sf, const Num* lam, Num* vals) const;
   bool nfree_zero() const { for( int i = 0; i < n; ++i ) if( !fixed(i) ) return false; return true; }
   bool fixed(int i) const { return xl[i] == xu[i]; }
};
Problem make_problem(const std::string& family, uint64_t seed, int n, int m, const std::map<std::string, std::string>& kv);
Problem problem_from(const Item& it);   // "prob family seed n m k=v ..."
const std::vector<std::string>& all_families();

// ---------------------------------------------------------------- faults
enum Site { S_F, S_GF, S_G, S_JG, S_H, S_ICB, S_INFO, S_BOUNDS, S_START, S_FIN, S_SCAL, S_JS, S_HS, S_NLV, S_META, S_MUMPS, S_ALLOC, S_CLK, S_FILE, S_NSITE };
extern const char* site_name[S_NSITE];
struct Fault
{
   int site;
   std::string kind;
   long from, to;    // occurrences (1-based, inclusive)
   Num p1, p2;
   long fired = 0;
};

struct Violation { std::string prop, cls, msg; };

// ---------------------------------------------------------------- simulated world
struct Ctx;
struct World
{
   // clock (seconds)
   Num wall = 1000., cpu = 5., sys = 1.;
   Num tick = 1e-6;
   long clock_reads = 0;
   bool cpu_frozen = false;
   // reach
   uint64_t bb = 0;            // basic blocks executed in Ipopt code
   uint64_t bbcap = 0;
   std::map<std::string, long> cnt;
   std::vector<Violation> viol;
   uint64_t sig = 1469598103934665603ULL;  // signature of the interleaving/fault/state sequence
   bool trace = false;
   std::string tracebuf;
   // mumps
   int in_mumps = 0;
   long mumps_live = 0;
   Ctx* mumps_owner = NULL;
   // files
   std::map<std::string, std::string> files;
   std::string out;            // captured stdout
   void count(const std::string& k, long n = 1);
   void violate(const std::string& prop, const std::string& cls, const std::string& msg);
   Plan* plan = NULL;
   void sigmix(uint64_t v) { sig = hmix(sig, v); }
};
extern World* W;

struct EvRec { int site; uint64_t xh; bool newx; };

struct IterRec
{
   int mode; Index iter; Num obj, inf_pr, inf_du, mu, dn, reg, adu, apr; Index ls;
   bool have = false, havev = false;
   Vec x, zl, zu, g, lam;                       // get_curr_iterate (unscaled)
   Vec vxl, vxu, cxl, cxu, gl, vg, cg;          // get_curr_violations (unscaled)
   Vec sx, szl, szu, sg, slam;                  // get_curr_iterate (scaled)
   bool haves = false;
   Vec s;                                       // slacks of the inequalities (scaled), if have2
   Num dmax = 0., gs = 0.; bool have2 = false;  // max-norms of the step and of the gradient of the Lagrangian w.r.t. the slacks
   char achar = ' ';                            // kind of step that led here (tag of alpha_pr)
   long nf, ng;                                 // evaluation counters at that time
   Num t_wall, t_cpu;
};

struct FinRec
{
   Ipopt::SolverReturn status;
   Vec x, zl, zu, g, lam;
   Num obj;
   bool have_cq = false;
};

// Everything that belongs to one solver user (one thread of control).
struct Ctx
{
   std::string name;
   Problem* P = NULL;
   std::vector<Fault> faults;
   long occ[S_NSITE];
   uint64_t h = 0x12345;                // event-log hash
   uint64_t hi = 1;                     // hash of what inspection returned
   uint64_t hc = 5;                     // order-independent hash of the evaluations of f and g (without new_x flags)
   uint64_t hn = 3;                     // like h, without the linear solver
   struct LogEv { int tag; uint64_t a, b; };
   bool keeplog = false; std::vector<LogEv> elog;   // evaluations and iteration reports only
   uint64_t hit_seq = 2;                // hash of iteration reports and final solution only
   long nev = 0;
   std::vector<IterRec> iters;
   std::vector<FinRec> fins;
   // per-solve protocol state
   Vec lastx; bool have_lastx = false;
   Vec lastlam; bool have_lastlam = false;
   bool in_cb = false;
   int depth = 0;
   bool inspecting = false; long icalls[S_NSITE];   // evaluations caused by inspection
   bool inspect = false;                // call get_curr_* from the intermediate callback
   int inspect_from = -1;               // site from which get_curr_* are additionally called (bit mask)
   bool js_known = false, hs_known = false;   // structures handed out in an earlier solve
   bool mon = true;                     // protocol monitors
   bool stop_latched = false;           // intermediate_callback has returned false
   long evals_after_stop = 0, failed_after_stop = 0;
   struct HCall { size_t k; long call; uint64_t xh; Num sf; Vec x, lam; };
   std::vector<HCall> hcalls;           // Hessian evaluations (only when the iterate is inspected)
   std::string cur_prop;
   // observed evaluations
   struct Val { Num v; bool ok; };
   std::unordered_map<uint64_t, int> okf, okg, okgf, okjg; // x hash -> 1 ok / 2 failed (bit mask)
   std::unordered_map<uint64_t, Num> fval;
   long calls[S_NSITE];                 // calls per site in the current solve
   long okcalls[S_NSITE];
   long fired_total = 0;
   // wrong derivatives of the user: value k of the gradient, Jacobian or Hessian becomes v*mul+add, or is declared for another position
   struct Wrong { int site; int k; Num mul, add; };
   std::vector<Wrong> wrongs;
   std::map<int, std::pair<int, int> > jsmove, hsmove;
   void corrupt(int site, Num* v, int n) const { for( auto& w : wrongs ) if( w.site == site && w.k < n ) v[w.k] = v[w.k] * w.mul + w.add; }
   std::pair<int, int> jspos(int k) const { auto i = jsmove.find(k); return i == jsmove.end() ? P->js[k] : i->second; }
   std::pair<int, int> hspos(int k) const { auto i = hsmove.find(k); return i == hsmove.end() ? P->hs[k] : i->second; }
   long last_fired_occ[S_NSITE];
   const Fault* last_throw = NULL;      // the exception (or failed allocation) injected last
   bool fatal_fault = false;            // a fault fired whose only permitted outcome is a failure status
   std::map<std::string, long> fired;   // kind -> count
   Num cost[S_NSITE];                   // simulated seconds per call
   bool alloc_faults = false, file_faults = false;
   std::map<std::string, std::string> opt; // options in force (as set by the plan)
   bool ampl = false;
   // callbacks invoked by the plan at given icb occurrences
   std::function<void(Ctx&, const Ipopt::IpoptData*, Ipopt::IpoptCalculatedQuantities*, const Ipopt::TNLP*)> at_icb;
   std::function<void(Ctx&, int)> at_cb;
   // metadata of variables and constraints given to and received from Ipopt
   struct Meta { std::map<std::string, std::vector<std::string> > s; std::map<std::string, std::vector<Index> > i; std::map<std::string, Vec> d; };
   Meta vmeta, cmeta, vmeta_fin, cmeta_fin; bool use_meta = false; int n_finmeta = 0;
   Ctx();
   void new_solve();
   const Fault* hit(int site);          // counts the occurrence; returns the fault that fires, if any
   void ev(int tag, uint64_t a = 0, uint64_t b = 0);
   void evx(const Num* x, int n);
   // evaluation entry points shared by all interfaces
   bool e_f(Index n, const Num* x, bool newx, Num& v);
   bool e_gf(Index n, const Num* x, bool newx, Num* g);
   bool e_g(Index n, const Num* x, bool newx, Index m, Num* g);
   bool e_jg(Index n, const Num* x, bool newx, Index m, Index nz, Index* ir, Index* jc, Num* v);
   bool e_h(Index n, const Num* x, bool newx, Num sf, Index m, const Num* lam, bool newlam, Index nz, Index* ir, Index* jc, Num* v);
   bool e_icb(int mode, Index iter, Num obj, Num ipr, Num idu, Num mu, Num dn, Num reg, Num adu, Num apr, Index ls,
              const Ipopt::IpoptData* d, Ipopt::IpoptCalculatedQuantities* cq, const Ipopt::TNLP* t);
   void protocol(int site, Index n, const Num* x, bool newx);
   std::function<bool(bool, Vec&, Vec&, Vec&, Vec&, Vec&)> get_iter;  // C interface access to the current iterate
   std::function<bool(bool, IterRec&)> get_viol;
   bool opt_is(const std::string& k, const std::string& v) const { auto i = opt.find(k); return i != opt.end() && i->second == v; }
   Num optd(const std::string& k, Num def) const { auto i = opt.find(k); return i == opt.end() ? def : strtod(i->second.c_str(), NULL); }
   std::string opts(const std::string& k, const std::string& def) const { auto i = opt.find(k); return i == opt.end() ? def : i->second; }
};
uint64_t xhash(const Num* x, int n);

struct CbGuard // entry into harness code from Ipopt code
{
   Ctx* c; bool armed;
   explicit CbGuard(Ctx* c, int site);
   ~CbGuard();
};

// thread-local simulator state
struct Tls
{
   Ctx* ctx = NULL;       // whose solve is running on this thread
   int guard = 0;         // >0: inside harness code: no faults, no preemption
   bool armed = false;    // allocation faults and tracking active
   int tid = -1;          // simulated thread
   long allocs = 0;
};
extern thread_local Tls T;
struct Guard { Guard() { T.guard++; } ~Guard() { T.guard--; } };
struct Armed
{
   bool old;
   explicit Armed(bool a) : old(T.armed) { T.armed = a; }
   ~Armed() { T.armed = old; }
};

// allocation tracking
void track_start();
long track_live(std::string* detail);   // tracked allocations made since track_start that are still live
void track_stop();
extern bool g_track;
extern int g_poison;  // -1: none, else byte

// ---------------------------------------------------------------- NLP objects
class SimNLP : public Ipopt::TNLP
{
public:
   Ctx* c;
   bool with_scaling, with_nlv, with_warm, with_meta;
   explicit SimNLP(Ctx* c);
   virtual ~SimNLP();
   virtual bool get_nlp_info(Index& n, Index& m, Index& nj, Index& nh, IndexStyleEnum& st);
   virtual bool get_bounds_info(Index n, Num* xl, Num* xu, Index m, Num* gl, Num* gu);
   virtual bool get_starting_point(Index n, bool ix, Num* x, bool iz, Num* zl, Num* zu, Index m, bool il, Num* lam);
   virtual bool get_scaling_parameters(Num& os, bool& ux, Index n, Num* xs, bool& ug, Index m, Num* gs);
   virtual bool eval_f(Index n, const Num* x, bool nx, Num& v);
   virtual bool eval_grad_f(Index n, const Num* x, bool nx, Num* g);
   virtual bool eval_g(Index n, const Num* x, bool nx, Index m, Num* g);
   virtual bool eval_jac_g(Index n, const Num* x, bool nx, Index m, Index nz, Index* ir, Index* jc, Num* v);
   virtual bool eval_h(Index n, const Num* x, bool nx, Num sf, Index m, const Num* lam, bool nl, Index nz, Index* ir, Index* jc, Num* v);
   virtual void finalize_solution(Ipopt::SolverReturn st, Index n, const Num* x, const Num* zl, const Num* zu, Index m, const Num* g,
                                  const Num* lam, Num obj, const Ipopt::IpoptData* d, Ipopt::IpoptCalculatedQuantities* cq);
   virtual bool intermediate_callback(Ipopt::AlgorithmMode mode, Index iter, Num obj, Num ipr, Num idu, Num mu, Num dn, Num reg,
                                      Num adu, Num apr, Index ls, const Ipopt::IpoptData* d, Ipopt::IpoptCalculatedQuantities* cq);
   virtual bool get_var_con_metadata(Index n, StringMetaDataMapType& vs, IntegerMetaDataMapType& vi, NumericMetaDataMapType& vd, Index m, StringMetaDataMapType& cs, IntegerMetaDataMapType& ci, NumericMetaDataMapType& cd);
   virtual void finalize_metadata(Index n, const StringMetaDataMapType& vs, const IntegerMetaDataMapType& vi, const NumericMetaDataMapType& vd, Index m, const StringMetaDataMapType& cs, const IntegerMetaDataMapType& ci, const NumericMetaDataMapType& cd);
   virtual Index get_number_of_nonlinear_variables();
   virtual bool get_list_of_nonlinear_variables(Index k, Index* pos);
   virtual bool get_variables_linearity(Index n, LinearityType* t);
   virtual bool get_constraints_linearity(Index m, LinearityType* t);
   const Ipopt::IpoptData* last_d = NULL;
   Ipopt::IpoptCalculatedQuantities* last_cq = NULL;
};

// ---------------------------------------------------------------- solving
struct SolveRes
{
   int status = -999;            // ApplicationReturnStatus, -1000: exception escaped
   std::string escaped;          // kind of escaped exception
   bool stats = false;
   Index iters = -1;
   Num st_obj = 0, st_scobj = 0, st_cpu = 0, st_wall = 0, st_sys = 0;
   Num st_du = 0, st_viol = 0, st_bnd = 0, st_compl = 0, st_kkt = 0;
   Num st_sdu = 0, st_sviol = 0, st_sbnd = 0, st_scompl = 0, st_skkt = 0; bool st_old = true;
   Index nf = 0, nc = 0, ngf = 0, njc = 0, nh = 0;   // SolveStatistics
   Index nf2 = 0, ng2 = 0, ngf2 = 0, njg2 = 0, nh2 = 0;
   Num t_wall0 = 0, t_wall1 = 0, t_cpu0 = 0, t_cpu1 = 0;
   uint64_t hash = 0;
};
struct Session           // one IpoptApplication and its NLP
{
   Ctx* c;
   Ipopt::SmartPtr<Ipopt::IpoptApplication> app;
   Ipopt::SmartPtr<SimNLP> nlp;
   bool inited = false;
   std::vector<std::pair<std::string, std::string> > ropts;   // options set before the first re-optimisation
   explicit Session(Ctx* c);
   int set_options(const Plan& p, const std::string& key = "opt");   // number rejected
   bool set_option(const std::string& name, const std::string& val);
   int init();
   SolveRes solve(bool reopt);
   void collect(SolveRes& r);
};
void load_faults(const Plan& p, Ctx& c, const std::string& key = "fault");
void load_costs(const Plan& p, Ctx& c);
bool status_ok(int st);
const char* st_name(int st);

// ---------------------------------------------------------------- oracles
struct Kkt
{
   Num obj, scale_d, scale_c;
   Num dual_inf, constr_viol, bound_viol, compl_inf, zneg;  // unscaled, max norms
   Num s_dual, s_constr, s_compl, s_err;                   // scaled problem, as in the documented E_0
   Vec grad;                 // gradient of the Lagrangian
};
struct Scaling { Num df = 1; Vec dx, dg; bool have = false; bool exact = true; };
Scaling compute_scaling(const Ctx& c);
Kkt kkt(const Ctx& c, const Problem& P, const Vec& x, const Vec& lam, const Vec& zl, const Vec& zu, const Scaling& sc, Num mu_target, Num otol = 0, Num dtol = 0);

// ---------------------------------------------------------------- scheduler for simulated threads
void sched_run(const std::vector<std::function<void()> >& bodies, uint64_t seed, int quantum);
void yield_point(int why);
bool sched_active();
extern int g_sched_switches;

// ---------------------------------------------------------------- properties
struct Prop
{
   std::string id, name;
   std::function<Plan(uint64_t seed, bool thorough)> gen;
   std::function<void(const Plan&)> run;
   double asan_share;
};
std::vector<Prop>& props();
struct RegProp { RegProp(const std::string& id, const std::string& nm, std::function<Plan(uint64_t, bool)> g, std::function<void(const Plan&)> r) { props().push_back(Prop{id, nm, g, r, 0}); } };

// plan generation helpers
struct GenCfg
{
   Num p_opts = 0.5;
   bool resto_bias = false;
   std::vector<std::string> families;
   int nmax = 7, mmax = 5;
};
void gen_problem(Plan& p, Rng& r, const GenCfg& g);
void gen_problem_biased(Plan& p, Rng& r);   // towards problems that enter the restoration phase
void gen_options(Plan& p, Rng& r, const std::set<std::string>& avoid, Num rate);
void capture_stdout(bool on);
void vfile_reset();
extern uint8_t* g_cov;          // shared coverage bitmap (may be NULL)
static const size_t COVN = 1 << 18;
void finish_run_and_exit(int why); // writes the result of the current run and ends the process
const char* cur_exc_name();
void set_current_poison(int b);
}
