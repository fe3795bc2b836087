// C13: no invalid memory accesses, no undefined behaviour, no leaks.  The scenarios of the other properties are run
// (a) in a build with the address and undefined-behaviour sanitizers, (b) with every allocation made inside Ipopt tracked.
#include "common.hpp"
namespace sim
{
static Plan gen(uint64_t seed, bool th)
{
   Rng r(seed * 1000003 + 1301);
   static const std::vector<std::string> as = { "C01", "C04", "C05", "C06", "C07", "C07", "C07", "C07", "C08", "C08", "C08", "C08", "C09", "C10", "C11", "C12", "C14", "C15", "C16", "C17", "C17", "C18", "C20", "C21" };
   const Prop* q = NULL;
   std::string id;
   while( !q )
   {
      id = r.pick(as);
      for( auto& x : props() ) if( x.id == id ) q = &x;
   }
   Plan p = q->gen(r.u64() % 100000000, th), o;
   o.add("as " + id);
   for( auto& i : p.it ) o.it.push_back(i);
   return o;
}
static void run(const Plan& p)
{
   std::string id = p.gets("as", "C01");
   const Prop* q = NULL;
   for( auto& x : props() ) if( x.id == id ) q = &x;
   if( !q ) return;
   Plan d = p;
   d.prop = id;
   d.it.erase(std::remove_if(d.it.begin(), d.it.end(), [](const Item& i) { return i.key == "as"; }), d.it.end());
   long ml = W->mumps_live;
   track_start();
   q->run(d);
   std::string det;
   long n = track_live(&det);
   track_stop();
   W->count("as." + id);
   if( n ) W->violate("C13", "leak", fmt("%ld allocations made by the library were not released after all objects were destroyed: %s", n, det.c_str()));
   if( W->mumps_live != ml ) W->violate("C13", "mumps-live", fmt("%ld instances of the linear solver were not released", W->mumps_live - ml));
}
static RegProp reg("C13", "memory safety", gen, run);
}
