#pragma once
// A user of one of the three language interfaces: C++, C, Fortran.
#include "common.hpp"
namespace sim
{
enum { IF_CPP = 0, IF_C = 1, IF_F = 2 };
extern const char* if_name[3];
struct SolArr            // the arrays of a solve call
{
   Vec x, g, lam, zl, zu;
   Num obj = 0;
   bool hx = true, hg = true, ho = true, hl = true, hzl = true, hzu = true;   // false: NULL is passed
};
struct Drv
{
   Ctx* c;
   bool cb_on = false;
   explicit Drv(Ctx* cc) : c(cc) {}
   virtual ~Drv() {}
   virtual bool create() = 0;
   virtual int add(char type, const std::string& k, const std::string& v) = 0;    // 1 accepted, 0 refused
   virtual int openfile(const std::string& nm, int level) = 0;
   virtual int scaling(Num os, const Vec* xs, const Vec* gs) = 0;
   virtual void setcb(bool on) = 0;
   virtual int solve(SolArr& a) = 0;
   virtual void release() = 0;
   // inspection; the buffers are filled before; mask selects what is asked for
   virtual int inspect(int what, bool scaled, int mask, std::vector<Vec>& buf, const Ipopt::IpoptData* d, Ipopt::IpoptCalculatedQuantities* cq, const Ipopt::TNLP* t) = 0;
   std::string escaped;
};
std::unique_ptr<Drv> make_drv(int iface, Ctx* c);
// CreateIpoptProblem with the k-th kind of invalid argument; true if it was refused
bool bad_create(Ctx* c, int iface, int k, std::string& what);
int n_bad_create();
// a problem that is refused only when it is to be solved: status of the solve
int odd_solve(Ctx* c, int k, SolArr& a, std::string& what);
}
