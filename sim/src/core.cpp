#include "sim.hpp"
#include <cstdarg>
namespace sim
{
void World::count(const std::string& k, long n)
{
   T.guard++; // allocations made here are not the library's
   cnt[k] += n;
   T.guard--;
}
World* W = NULL;
thread_local Tls T;
const char* site_name[S_NSITE] = { "f", "gf", "g", "jg", "h", "icb", "info", "bounds", "start", "fin", "scal", "js", "hs", "nlv", "meta", "mumps", "alloc", "clk", "file" };

uint64_t hstr(const std::string& s)
{
   uint64_t h = 1469598103934665603ULL;
   for( unsigned char ch : s ) { h ^= ch; h *= 1099511628211ULL; }
   return h;
}
std::string num(Num d)
{
   char b[64];
   snprintf(b, sizeof b, "%.17g", d);
   return b;
}
std::string fmt(const char* f, ...)
{
   char b[4096];
   va_list ap;
   va_start(ap, f);
   vsnprintf(b, sizeof b, f, ap);
   va_end(ap);
   return b;
}
std::string Item::str() const
{
   std::string r = key;
   for( auto& x : a ) { r += ' '; r += x; }
   return r;
}
void Plan::add(const std::string& line)
{
   std::istringstream is(line);
   Item i;
   if( !(is >> i.key) ) return;
   std::string w;
   while( is >> w ) i.a.push_back(w);
   it.push_back(i);
}
const Item* Plan::find(const std::string& k) const
{
   for( auto& i : it ) if( i.key == k ) return &i;
   return NULL;
}
std::vector<const Item*> Plan::all(const std::string& k) const
{
   std::vector<const Item*> r;
   for( auto& i : it ) if( i.key == k ) r.push_back(&i);
   return r;
}
std::string Plan::str() const
{
   std::string r = "property " + prop + "\n";
   for( auto& i : it ) r += i.str() + "\n";
   return r;
}
Plan Plan::parse(const std::string& text)
{
   Plan p;
   std::istringstream is(text);
   std::string line;
   while( std::getline(is, line) )
   {
      if( line.empty() || line[0] == '#' ) continue;
      if( line.compare(0, 9, "property ") == 0 ) { p.prop = line.substr(9); continue; }
      p.add(line);
   }
   return p;
}
void World::violate(const std::string& prop, const std::string& cls, const std::string& msg)
{
   for( auto& v : viol ) if( v.prop == prop && v.cls == cls ) return;
   viol.push_back(Violation{prop, cls, msg});
   if( trace ) fprintf(stderr, "VIOL %s %s %s\n", prop.c_str(), cls.c_str(), msg.c_str());
}
std::vector<Prop>& props() { static std::vector<Prop> v; return v; }

uint64_t xhash(const Num* x, int n)
{
   uint64_t h = 7;
   for( int i = 0; i < n; ++i ) h = hmix(h, dbits(x[i] == 0. ? 0. : x[i]));
   return h;
}
}
