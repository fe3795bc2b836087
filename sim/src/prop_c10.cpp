// C10: the options registry stores exactly what was validly set.
// A random sequence of settings through every interface, of option files with faults, of copies and of reads is
// compared with a small reference model that uses the documented options table.
#include "common.hpp"
#include "IpOptionsList.hpp"
#include "IpRegOptions.hpp"
#include <cerrno>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
// simulated disk: read() of option files may be short, interrupted or fail
namespace sim { static int fr_fd = -1; static long fr_at = 0, fr_fail = -1; static uint64_t fr_rng = 1; static int fr_kind = 0; static long fr_n = 0, fr_dev = -1, fr_ino = -1; }
#ifndef SIM_VARIANT_ASAN
extern "C" ssize_t read(int fd, void* b, size_t n)
{
   using namespace sim;
   if( fr_kind )
   {
      struct stat st;
      if( fstat(fd, &st) == 0 && (long)st.st_dev == fr_dev && (long)st.st_ino == fr_ino )
      {
         ++fr_n;
         if( fr_kind >= 2 && splitmix(fr_rng) % 4 == 0 ) { W->count("fault.file:eintr"); errno = EINTR; return -1; }
         if( fr_kind >= 1 && n > 1 ) { n = 1 + splitmix(fr_rng) % std::min<size_t>(n, 20); W->count("fault.file:short-read"); }
         if( fr_fail >= 0 )
         {
            if( fr_at >= fr_fail ) { W->count("fault.file:read-eio"); errno = EIO; return -1; }
            n = std::min<size_t>(n, fr_fail - fr_at);
         }
         ssize_t r = syscall(SYS_read, fd, b, n);
         if( r > 0 ) fr_at += r;
         return r;
      }
   }
   return syscall(SYS_read, fd, b, n);
}
#endif
namespace sim
{
struct Tab { const char* name; char type; const char* lo; int ls; const char* up; int us; const char* def; const char* vals; };
static const Tab tab[] = {
#include "opttable.inc"
};
static std::string enc(const std::string& s)
{
   std::string r;
   for( unsigned char c : s ) { if( c > 32 && c < 127 && c != '%' && c != '#' ) r += c; else r += fmt("%%%02x", c); }
   return r.empty() ? "%e" : r;
}
static std::string dec(const std::string& s)
{
   if( s == "%e" ) return "";
   std::string r;
   for( size_t i = 0; i < s.size(); ++i )
      if( s[i] == '%' && i + 2 < s.size() ) { r += (char)strtol(s.substr(i + 1, 2).c_str(), NULL, 16); i += 2; } else r += s[i];
   return r;
}
static std::string low(std::string s) { for( auto& c : s ) if( c >= 'A' && c <= 'Z' ) c += 32; return s; }
struct OInfo
{
   char type = 'S'; bool hl = false, hu = false, ls = false, us = false, fuzzy = false;
   Num lo = 0, up = 0, defn = 0; std::string defs; std::vector<std::string> vals;
   bool okn(Num v) const
   {
      if( hl && !(ls ? v > lo : v >= lo) ) return false;
      if( hu && !(us ? v < up : v <= up) ) return false;
      return true;
   }
   bool wild() const { for( auto& v : vals ) if( v == "*" ) return true; return false; }
   int idx(const std::string& v) const { for( size_t i = 0; i < vals.size(); ++i ) if( low(vals[i]) == low(v) ) return (int)i; return -1; }
};
struct MVal { char type; Num n; std::string s; bool clob, dont; bool operator==(const MVal& o) const { return type == o.type && (n == o.n || (n != n && o.n != o.n)) && s == o.s && clob == o.clob && dont == o.dont; } };
typedef std::map<std::string, MVal> Mdl;
static std::map<std::string, OInfo> doc;
static void load_doc()
{
   doc.clear();
   for( auto& t : tab )
   {
      OInfo o; o.type = t.type;
      if( t.lo ) { o.hl = true; o.lo = strtod(t.lo, NULL); o.ls = t.ls; }
      if( t.up ) { o.hu = true; o.up = strtod(t.up, NULL); o.us = t.us; }
      if( t.type == 'S' )
      {
         o.defs = t.def;
         std::string v = t.vals; size_t p;
         while( (p = v.find('|')) != std::string::npos ) { o.vals.push_back(v.substr(0, p)); v = v.substr(p + 1); }
         o.vals.push_back(v);
      }
      else o.defn = strtod(t.def, NULL);
      doc[t.name] = o;
   }
}
static const OInfo* info(const std::string& tag)
{
   size_t p = tag.rfind('.');
   auto i = doc.find(p == std::string::npos ? tag : tag.substr(p + 1));
   return i == doc.end() ? NULL : &i->second;
}
// ---------------------------------------------------------------- generation
static std::string rnd_word(Rng& r, int n = 8) { std::string s; for( int i = r.in(1, n); i > 0; --i ) s += "abcdefghXYZ019_-./"[r.in(0, 17)]; return s; }
static Num rnd_num(Rng& r, const OInfo& o)
{
   switch( r.in(0, 9) )
   {
      case 0: return o.lo; case 1: return o.up; case 2: return std::nextafter(o.lo, r.p(0.5) ? -1e300 : 1e300); case 3: return std::nextafter(o.up, r.p(0.5) ? -1e300 : 1e300);
      case 4: return r.logu(1e-20, 1e20) * (r.p(0.3) ? -1 : 1); case 5: return r.in(-5, 10); case 6: return r.p(0.5) ? 1e308 * 10 : (r.p(0.5) ? -1e308 * 10 : std::nan(""));
      case 7: return o.hl && o.hu ? r.uni(o.lo, o.up) : r.uni(); case 8: return o.defn; default: return r.logu(1e-12, 1);
   }
}
static std::string rnd_str(Rng& r, const OInfo& o)
{
   std::string v = o.vals.empty() ? "" : r.pick(o.vals);
   if( v == "*" ) { v = rnd_word(r, r.p(0.3) ? 60 : 10); if( r.p(0.2) ) v += " x"; }
   if( r.p(0.25) ) for( auto& c : v ) if( r.p(0.5) ) c = (char)toupper(c);
   if( r.p(0.12) ) v = rnd_word(r);
   if( r.p(0.05) && !v.empty() ) v.pop_back();
   if( r.p(0.03) ) v += " ";
   return v;
}
static std::string txt_num(Rng& r, Num v)
{
   std::string s = r.p(0.5) ? fmt("%.17g", v) : fmt("%g", v);
   if( r.p(0.15) ) for( auto& c : s ) if( c == 'e' && s.find("inf") == std::string::npos ) c = r.p(0.5) ? 'd' : 'D';
   return s;
}
static Plan gen(uint64_t seed, bool)
{
   load_doc();
   Rng r(seed * 1000003 + 1001);
   Plan p;
   p.add(fmt("prob convex %llu 3 1", (unsigned long long)(r.u64() % 1000)));
   p.add("bbcap 3e8"); p.add("anyopts 1");   // options may be absurd: how long a solve takes is not judged here
   // pool of options
   std::vector<std::string> all, pool;
   for( auto& d : doc ) if( d.first != "output_file" && d.first != "print_options_documentation" && d.first != "option_file_name" && d.first != "suppress_all_output" ) all.push_back(d.first);
   bool solvable = r.p(0.3);
   int ncust = r.p(0.6) ? r.in(1, 8) : 0;
   for( int i = 0; i < ncust; ++i )
   {
      std::string nm = r.p(0.1) ? r.pick(all) : fmt("my_opt%d", r.in(0, 9));
      OInfo o; std::string l = "op reg " + nm;
      int k = r.in(0, 10);
      if( k <= 3 ) { Num a = r.p(0.5) ? r.in(-3, 3) : r.uni(-1, 1), b = a + r.logu(1e-3, 10); l += fmt(" n %d %s %d %s %d %s", k, num(a).c_str(), r.p(0.5), num(b).c_str(), r.p(0.5), num(a + r.uni() * (b - a)).c_str()); }
      else if( k <= 7 ) { int a = r.in(-3, 3), b = a + r.in(0, 10); l += fmt(" i %d %d 0 %d 0 %d", k - 4, a, b, r.in(a, b)); }
      else if( k == 8 ) l += fmt(" b %d", r.p(0.5));
      else { int nv = r.in(1, 11); l += fmt(" s %d %d", nv, r.in(0, nv - 1)); for( int j = 0; j < nv; ++j ) l += fmt(" %c%s%d", 'a' + r.in(0, 25), r.p(0.5) ? "-x" : "_Y", j); }
      p.add(l);
      Item it; { Plan q; q.add(l); it = q.it[0]; }
      if( doc.count(nm) == 0 )
      {
         if( it.s(2) == "n" || it.s(2) == "i" ) { o.type = it.s(2) == "n" ? 'N' : 'I'; o.lo = it.d(4); o.up = it.d(6); o.hl = it.l(3) & 1; o.hu = it.l(3) & 2; o.ls = it.l(5); o.us = it.l(7); }
         else if( it.s(2) == "b" ) o.vals = { "yes", "no" };
         else for( size_t j = 5; j < it.a.size(); ++j ) o.vals.push_back(it.s(j));
         doc[nm] = o;
      }
      pool.push_back(nm); pool.push_back(nm);
   }
   for( int i = r.in(3, 9); i > 0; --i ) { std::string a = r.pick(all); pool.push_back(a); if( r.p(0.3) ) pool.push_back(r.pick(std::vector<std::string>{ "resto.", "Resto.", "foo.", "a.b." }) + a); }
   if( r.p(0.4) ) { pool.push_back("option_file_name"); pool.push_back("print_level"); pool.push_back("max_iter"); }
   if( r.p(0.3) ) pool.push_back("print_timing_statistics");
   auto name = [&]() -> std::string { if( r.p(0.04) ) return r.p(0.5) ? "no_such_option" : r.pick(pool) + "x"; return r.pick(pool); };
   int napp = 1;
   for( int nop = r.in(10, 60); nop > 0; --nop )
   {
      if( r.p(0.05) ) p.add(fmt("op afail %d %d", r.in(1, r.p(0.5) ? 12 : 60), r.p(0.7) ? 1 : r.in(2, 20)));
      int a = r.in(0, napp - 1);
      Num u = r.uni();
      std::string nm = name();
      static const OInfo dflt;
      const OInfo* o = info(nm); if( !o ) o = &dflt;
      if( u < 0.42 )
      {
         char t = o->type == 'N' ? 'n' : o->type == 'I' ? 'i' : (o->vals.size() == 2 && o->idx("yes") >= 0 && r.p(0.3) ? 'b' : 's');
         if( r.p(0.06) ) t = "nisb"[r.in(0, 3)];
         std::string v = t == 'n' ? num(rnd_num(r, *o)) : t == 'i' ? fmt("%d", r.p(0.7) ? (int)std::max(-2e9, std::min(2e9, rnd_num(r, *o) * 1.)) : r.in(-3, 20)) : t == 'b' ? fmt("%d", r.p(0.5)) : rnd_str(r, *o);
         if( v == "nan" && t == 'i' ) v = "1";
         p.add(fmt("op set %d %c %s %s %d", a, t, enc(nm).c_str(), enc(v).c_str(), (r.p(0.8) ? 1 : 0) | (r.p(0.15) ? 2 : 0) | (r.p(0.15) ? 4 : 0)));
      }
      else if( u < 0.48 ) p.add(fmt("op unset %d %s", a, enc(nm).c_str()));
      else if( u < 0.72 )
      {
         char t = o->type == 'N' ? 'n' : o->type == 'I' ? 'i' : "sseb"[r.in(0, 3)];
         if( r.p(0.06) ) t = "nisbe"[r.in(0, 4)];
         p.add(fmt("op get %d %c %s %s", a, t, enc(nm).c_str(), enc(r.p(0.6) ? "" : r.pick(std::vector<std::string>{ "resto.", "RESTO.", "foo.", "a.b." })).c_str()));
      }
      else if( u < 0.92 )
      {
         std::string t;
         for( int k = r.in(0, 8); k > 0; --k )
         {
            if( r.p(0.2) ) t += "\n";
            if( r.p(0.25) ) { t += "# "; for( int j = r.in(0, 6); j > 0; --j ) t += (r.p(0.2) ? "\"" : r.p(0.2) ? "#" : r.p(0.3) ? " tol 1e-3 " : rnd_word(r)); t += "\n"; }
            std::string n2 = name();
            const OInfo* q = info(n2); if( !q ) q = &dflt;
            std::string v;
            if( q->type == 'N' ) v = txt_num(r, rnd_num(r, *q));
            else if( q->type == 'I' ) v = r.p(0.04) ? fmt("%lld", (long long)r.in(-2, 2) * 4294967296LL + r.in(-5, 5)) : fmt("%d", (int)std::max(-2e9, std::min(2e9, rnd_num(r, *q))));
            else v = rnd_str(r, *q);
            if( r.p(0.02) ) v = r.pick(std::vector<std::string>{ "abc", "1e", "1.5", "12x", "1e3", "--1", "+5", "0x10", "nan", "1,5" });
            if( v.empty() ) v = "yes";
            t += n2 + r.pick(std::vector<std::string>{ " ", " ", "\t", "  ", "\n", "\r\n" });
            if( v.find(' ') != std::string::npos || r.p(0.1) ) v = "\"" + v + "\"";
            t += v;
            if( r.p(0.9) || k > 1 ) t += r.pick(std::vector<std::string>{ "\n", "\n", "\r\n", " ", " # comment\n", "\n\n  " });
         }
         if( r.p(0.04) ) t += rnd_word(r);                          // no value
         if( r.p(0.02) ) t += "\n\"";
         if( r.p(0.15) ) t = t.substr(0, r.in(0, (int)t.size()));    // truncated file
         int kind = r.p(0.12) ? 1 : 0;
         p.add(fmt("op read %d %d %d %d %d %d %s", a, r.p(0.5), r.in(0, 3), kind ? r.in(0, (int)t.size()) : -1, r.p(0.5) ? 0 : r.in(1, 2), r.in(0, 20), enc(t).c_str()));
      }
      else if( u < 0.94 ) { p.add(fmt("op clone %d", a)); if( napp < 4 ) ++napp; }
      else if( u < 0.945 ) p.add(fmt("op clear %d", a));
      else if( u < 0.95 ) p.add(fmt("op %s %d %d", r.p(0.5) ? "nofile" : "dir", a, r.p(0.5)));
      else if( u < 0.97 && solvable ) p.add(fmt("op solve %d", a));
      else p.add(fmt("op list %d", a));
   }
   return p;
}
// ---------------------------------------------------------------- faulty stream
struct FaultyBuf : std::streambuf
{
   std::string t; size_t pos = 0; long fail; int chunk; Rng r; char b[64]; bool failed = false;
   FaultyBuf(const std::string& s, long f, int c, uint64_t seed) : t(s), fail(f), chunk(c), r(seed) { }
   virtual int_type underflow()
   {
      if( fail >= 0 && (long)pos >= fail ) { failed = true; bool a = T.armed; T.armed = false; W->count("fault.stream:throw"); T.armed = a; throw std::runtime_error("simulated read error"); }
      if( pos >= t.size() ) return traits_type::eof();
      size_t n = chunk ? 1 + r.u64() % 20 : 60;
      n = std::min(n, t.size() - pos);
      if( fail >= 0 ) n = std::min<size_t>(n, fail - pos);
      memcpy(b, t.data() + pos, n); pos += n;
      setg(b, b, b + n);
      return traits_type::to_int_type(b[0]);
   }
};
// ---------------------------------------------------------------- model
enum { A_OK, A_REJECT, A_THROW };
static int m_set(Mdl& m, char t, const std::string& tag, const std::string& v, int flags, Num nv)
{
   const OInfo* o = info(tag);
   char want = t == 'n' ? 'N' : t == 'i' ? 'I' : 'S';
   if( flags & 4 )
   {
      // only if unset: reading an invalid option or type fails
      if( !o || o->type != want ) return A_THROW;
      auto i = m.find(low(tag));
      if( i != m.end() ) return A_OK;
   }
   if( !o || o->type != want ) return A_REJECT;
   if( want == 'S' ) { if( o->idx(v) < 0 && !o->wild() ) return A_REJECT; }
   else if( !o->okn(nv) ) return A_REJECT;
   auto i = m.find(low(tag));
   if( i != m.end() && !i->second.clob ) return A_OK;
   m[low(tag)] = MVal{ want, want == 'S' ? 0 : nv, want == 'S' ? v : "", (flags & 1) != 0, (flags & 2) != 0 };
   return A_OK;
}
struct Tok { bool ok; std::string s; };
struct Lexer
{
   const std::string& t; size_t p = 0; size_t end; bool fail;
   Lexer(const std::string& s, long f) : t(s), end(f >= 0 ? f : s.size()), fail(f >= 0) { }
   static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
   // 0 end (or failing read), 1 token, 2 incomplete
   int next(std::string& s)
   {
      s.clear();
      while( p < end && (sp(t[p]) || t[p] == '#') )
      {
         if( t[p] == '#' ) { while( p < end && t[p] != '\n' ) ++p; }
         if( p < end ) ++p;
      }
      if( p >= end ) return 0;
      bool q = false;
      if( t[p] == '"' ) { q = true; ++p; }
      if( q && p >= end ) return 2;
      while( p < end && (q || !sp(t[p])) )
      {
         if( q && t[p] == '"' ) { q = false; ++p; continue; }
         s += t[p++];
      }
      if( q || (p >= end && fail) ) return 2;
      return 1;
   }
};
enum { R_TRUE, R_FALSE, R_INVALID };
// all states the list goes through while the text is read, and the result
static int m_read(Mdl m, const std::string& t, long fail, bool clob, std::vector<Mdl>& states, bool& fuzzy)
{
   Lexer lx(t, fail);
   states.push_back(m);
   for( ;; )
   {
      std::string tag, val;
      int k = lx.next(tag);
      if( k != 1 ) return fail >= 0 ? R_FALSE : (k == 2 ? (fuzzy = true, R_FALSE) : R_TRUE);
      k = lx.next(val);
      if( k != 1 ) return R_FALSE;
      if( tag.find('\0') != std::string::npos ) { fuzzy = true; return R_INVALID; }
      const OInfo* o = info(tag);
      if( !o ) return R_INVALID;
      Num nv = 0; char ty = 's';
      if( o->type != 'S' )
      {
         std::string w = val;
         ty = o->type == 'N' ? 'n' : 'i';
         if( o->type == 'N' ) for( auto& c : w ) if( c == 'd' || c == 'D' ) c = 'e';
         char* e;
         errno = 0;
         long iv = 0;
         if( o->type == 'N' ) nv = strtod(w.c_str(), &e); else { iv = strtol(w.c_str(), &e, 10); nv = iv; }
         if( e == w.c_str() || (*e && !Lexer::sp(*e)) ) return R_INVALID;
         if( o->type == 'I' && (iv > 2147483647L || iv < -2147483648L) ) return R_INVALID;
      }
      if( m_set(m, ty, tag, val, clob ? 1 : 0, nv) != A_OK ) return R_INVALID;
      states.push_back(m);
   }
}
// ---------------------------------------------------------------- running
struct App { Ipopt::SmartPtr<Ipopt::IpoptApplication> app; Mdl m; };
static void run(const Plan& p)
{
   load_doc();
   Scn s(p, "s");
   Ctx& c = s.c;
   T.ctx = &c;
   std::vector<App> A(1);
   { Armed a(true); A[0].app = new Ipopt::IpoptApplication(false); }
   std::map<std::string, OInfo> own;
   int opno = 0; std::string opl;
   auto bad = [&](const std::string& cls, const std::string& m) { W->violate("C10", cls, fmt("operation %d (%s): %s", opno, opl.substr(0, 200).c_str(), m.c_str())); };
   // the documented table against the registry, as seen through the public interface of the registry
   auto check_doc = [&](Ipopt::IpoptApplication& ap, const std::string& nm)
   {
      const OInfo& o = doc[nm];
      Ipopt::SmartPtr<const Ipopt::RegisteredOption> ro = ap.RegOptions()->GetOption(nm);
      if( !IsValid(ro) ) { bad("doc-missing", "documented option " + nm + " is not registered"); return; }
      char t = ro->Type() == Ipopt::OT_Number ? 'N' : ro->Type() == Ipopt::OT_Integer ? 'I' : 'S';
      if( t != o.type ) { bad("doc-type", "option " + nm + " has another type than documented"); return; }
   };
   // observe the whole content of a list through a copy
   auto content = [&](Ipopt::OptionsList& L, Mdl& out, std::string& err) -> void
   {
      out.clear();
      Ipopt::OptionsList cp; cp = L;
      cp.SetJournalist(NULL);
      std::string txt, utx;
      cp.PrintList(txt); cp.PrintUserOptions(utx);
      std::istringstream is(txt); std::string l;
      std::getline(is, l);
      while( std::getline(is, l) )
      {
         size_t e = l.find(" = ");
         if( e == std::string::npos ) continue;
         std::string nm = l.substr(0, e); while( !nm.empty() && nm[0] == ' ' ) nm.erase(0, 1);
         const OInfo* o = info(nm);
         if( !o ) { err = "list contains " + nm; continue; }
         MVal v; v.type = o->type; v.n = 0;
         try
         {
            if( o->type == 'N' ) { Num d = -7; if( !cp.GetNumericValue(nm, d, "") ) err = nm + " listed but not found"; v.n = d; }
            else if( o->type == 'I' ) { Index d = -7; if( !cp.GetIntegerValue(nm, d, "") ) err = nm + " listed but not found"; v.n = d; }
            else
            {
               if( !cp.GetStringValue(nm, v.s, "") ) err = nm + " listed but not found";
            }
         }
         catch( Ipopt::IpoptException& x ) { err = "reading " + nm + " fails: " + x.Message(); continue; }
         v.dont = true;
         std::istringstream us(utx); std::string ul;
         while( std::getline(us, ul) ) { size_t e2 = ul.find(" = "); if( e2 != std::string::npos ) { std::string n2 = ul.substr(0, e2); while( !n2.empty() && n2[0] == ' ' ) n2.erase(0, 1); if( n2 == nm ) v.dont = false; } }
         v.clob = cp.UnsetValue(nm);
         out[nm] = v;
      }
   };
   auto canon = [&](const Mdl& m) { Mdl r = m; for( auto& q : r ) if( q.second.type == 'S' ) { const OInfo* o = info(q.first); int k = o->idx(q.second.s); if( k >= 0 ) q.second.s = o->vals[k]; } return r; };
   auto diff = [&](const Mdl& have, const Mdl& want) -> std::string
   {
      for( auto& q : want )
      {
         auto i = have.find(q.first);
         if( i == have.end() ) return q.first + " was lost";
         if( i->second == q.second ) continue;
         if( i->second.clob != q.second.clob ) return q.first + ": protection against overwriting differs";
         if( i->second.dont != q.second.dont ) return q.first + ": visibility differs";
         return q.first + (q.second.type == 'S' ? fmt(" reads \"%s\", expected \"%s\"", i->second.s.c_str(), q.second.s.c_str()) : fmt(" reads %.17g, expected %.17g", i->second.n, q.second.n));
      }
      for( auto& q : have ) if( !want.count(q.first) ) return q.first + " appeared";
      return "";
   };
   long afail = 0, alen = 0;
   std::string tmp;
   auto with_file = [&](const std::string& text) -> std::string
   {
      char nm[] = "/tmp/ipoptsim_optXXXXXX";
      int fd = mkstemp(nm);
      if( fd < 0 ) return "";
      if( write(fd, text.data(), text.size()) != (ssize_t)text.size() ) { }
      struct stat st; fstat(fd, &st); fr_dev = st.st_dev; fr_ino = st.st_ino;
      close(fd);
      return nm;
   };
   for( auto itp : p.all("op") )
   {
      const Item& it = *itp;
      ++opno; opl = it.str();
      std::string k = it.s(0);
      if( W->viol.size() ) return;
      if( k == "afail" ) { afail = it.l(1); alen = it.l(2, 1); continue; }
      if( k == "reg" )
      {
         std::string nm = it.s(1), ty = it.s(2);
         bool dup = doc.count(nm) > 0, threw = false;
         OInfo o;
         Ipopt::RegisteredOptions& R = *A[0].app->RegOptions();
         R.SetRegisteringCategory("Mine");
         try
         {
            Armed arm(true);
            if( ty == "n" || ty == "i" )
            {
               bool n = ty == "n";
               o.type = n ? 'N' : 'I'; o.lo = it.d(4); o.up = it.d(6); o.hl = it.l(3) & 1; o.hu = (it.l(3) & 2) != 0; o.ls = it.l(5); o.us = it.l(7); o.defn = it.d(8);
               switch( it.l(3) )
               {
                  case 0: if( n ) R.AddNumberOption(nm, "d", o.defn, "l"); else R.AddIntegerOption(nm, "d", (Index)o.defn, "l"); break;
                  case 1: if( n ) R.AddLowerBoundedNumberOption(nm, "d", o.lo, o.ls, o.defn, "l"); else R.AddLowerBoundedIntegerOption(nm, "d", (Index)o.lo, (Index)o.defn, "l"); break;
                  case 2: if( n ) R.AddUpperBoundedNumberOption(nm, "d", o.up, o.us, o.defn, "l"); else R.AddUpperBoundedIntegerOption(nm, "d", (Index)o.up, (Index)o.defn, "l"); break;
                  default: if( n ) R.AddBoundedNumberOption(nm, "d", o.lo, o.ls, o.up, o.us, o.defn, "l"); else R.AddBoundedIntegerOption(nm, "d", (Index)o.lo, (Index)o.up, (Index)o.defn, "l"); break;
               }
            }
            else if( ty == "b" ) { o.vals = { "yes", "no" }; o.defs = it.l(3) ? "yes" : "no"; R.AddBoolOption(nm, "d", it.l(3) != 0, "l"); }
            else
            {
               for( size_t j = 5; j < it.a.size(); ++j ) o.vals.push_back(it.s(j));
               o.defs = o.vals[it.l(4) % o.vals.size()];
               auto& v = o.vals;
               const std::string& d = o.defs;
               switch( v.size() )
               {
                  case 1: R.AddStringOption1(nm, "d", d, v[0], "", "l"); break;
                  case 2: R.AddStringOption2(nm, "d", d, v[0], "", v[1], "", "l"); break;
                  case 3: R.AddStringOption3(nm, "d", d, v[0], "", v[1], "", v[2], "", "l"); break;
                  case 4: R.AddStringOption4(nm, "d", d, v[0], "", v[1], "", v[2], "", v[3], "", "l"); break;
                  case 5: R.AddStringOption5(nm, "d", d, v[0], "", v[1], "", v[2], "", v[3], "", v[4], "", "l"); break;
                  case 6: R.AddStringOption6(nm, "d", d, v[0], "", v[1], "", v[2], "", v[3], "", v[4], "", v[5], "", "l"); break;
                  case 7: R.AddStringOption7(nm, "d", d, v[0], "", v[1], "", v[2], "", v[3], "", v[4], "", v[5], "", v[6], "", "l"); break;
                  case 8: R.AddStringOption8(nm, "d", d, v[0], "", v[1], "", v[2], "", v[3], "", v[4], "", v[5], "", v[6], "", v[7], "", "l"); break;
                  case 9: R.AddStringOption9(nm, "d", d, v[0], "", v[1], "", v[2], "", v[3], "", v[4], "", v[5], "", v[6], "", v[7], "", v[8], "", "l"); break;
                  case 10: R.AddStringOption10(nm, "d", d, v[0], "", v[1], "", v[2], "", v[3], "", v[4], "", v[5], "", v[6], "", v[7], "", v[8], "", v[9], "", "l"); break;
                  default: { std::vector<std::string> dd(v.size(), "x"); R.AddStringOption(nm, "d", d, v, dd, "l"); }
               }
            }
         }
         catch( Ipopt::IpoptException& e ) { T.armed = false; threw = true; }
         if( threw != dup ) bad("register", dup ? "option registered twice" : "registration of a new option failed");
         if( !dup ) doc[nm] = o;
         W->count("op.register");
         continue;
      }
      size_t ai = it.l(1) % A.size();
      App& a = A[ai];
      Ipopt::OptionsList& L = *a.app->Options();
      std::vector<Mdl> states(1, a.m);      // acceptable states afterwards if memory ran out
      Mdl after = a.m;
      bool oom = false; std::string esc; bool inv = false;
      auto guarded = [&](const std::function<void()>& f)
      {
         c.faults.clear(); c.alloc_faults = false;
         if( k == "solve" ) { Fault q; q.site = S_ICB; q.kind = "stop"; q.from = 12; q.to = 1000000; q.p1 = q.p2 = 0; c.faults.push_back(q); }
         if( afail )
         {
            Fault q; q.site = S_ALLOC; q.kind = "null"; q.from = c.occ[S_ALLOC] + afail; q.to = q.from + alen - 1; q.p1 = q.p2 = 0;
            c.faults.push_back(q); c.alloc_faults = true;
         }
         afail = 0;
         try { Armed arm(true); f(); }
         catch( Ipopt::OPTION_INVALID& e ) { T.armed = false; inv = true; }
         catch( Ipopt::IpoptException& e ) { T.armed = false; esc = "IpoptException " + e.Message(); }
         catch( std::bad_alloc& ) { T.armed = false; oom = true; }
         catch( std::exception& e ) { T.armed = false; esc = e.what(); }
         catch( ... ) { T.armed = false; esc = "unknown exception"; }
         T.guard = 0; T.armed = false;
         bool fired = false;
         for( auto& q : c.faults ) fired = fired || (q.site == S_ALLOC && q.fired);
         c.faults.clear(); c.alloc_faults = false;
         if( oom && !fired ) { oom = false; esc = "std::bad_alloc without failing allocation"; }
         if( fired ) oom = true;
      };
      bool exact = true;                    // the state afterwards is known exactly
      if( k == "set" )
      {
         char t = it.s(2)[0]; std::string tag = dec(it.s(3)), v = dec(it.s(4)); int fl = (int)it.l(5);
         Num nv = strtod(v.c_str(), NULL); Index iv = (Index)strtol(v.c_str(), NULL, 10);
         if( t == 'i' ) nv = iv;
         bool ret = false;
         guarded([&]()
         {
            bool cl = fl & 1, dp = (fl & 2) != 0, iu = (fl & 4) != 0;
            switch( t )
            {
               case 'n': ret = iu ? L.SetNumericValueIfUnset(tag, nv, cl, dp) : L.SetNumericValue(tag, nv, cl, dp); break;
               case 'i': ret = iu ? L.SetIntegerValueIfUnset(tag, iv, cl, dp) : L.SetIntegerValue(tag, iv, cl, dp); break;
               case 'b': ret = iu ? L.SetBoolValueIfUnset(tag, nv != 0, cl, dp) : L.SetBoolValue(tag, nv != 0, cl, dp); break;
               default: ret = iu ? L.SetStringValueIfUnset(tag, v, cl, dp) : L.SetStringValue(tag, v, cl, dp); break;
            }
         });
         int e = m_set(after, t, tag, t == 'b' ? (nv != 0 ? "yes" : "no") : v, fl, nv);
         states.push_back(after);
         W->count(e == A_OK ? (states[0] == after ? "op.set.kept" : "op.set") : "op.set.rejected");
         if( !oom )
         {
            int g = !esc.empty() ? 9 : inv ? A_THROW : ret ? A_OK : A_REJECT;
            if( g != e ) bad("set-result", fmt("%s, expected: %s", g == 9 ? esc.c_str() : g == A_OK ? "accepted" : g == A_THROW ? "OPTION_INVALID" : "rejected", e == A_OK ? "accepted" : e == A_THROW ? "OPTION_INVALID" : "rejected"));
         }
      }
      else if( k == "unset" )
      {
         std::string tag = dec(it.s(2)); bool ret = false;
         guarded([&]() { ret = L.UnsetValue(tag); });
         auto i = after.find(low(tag));
         bool e = i != after.end() && i->second.clob;
         if( e ) after.erase(i);
         states.push_back(after);
         if( !oom && (ret != e || inv || !esc.empty()) ) bad("unset-result", fmt("returned %d, expected %d %s", ret, e, esc.c_str()));
         W->count("op.unset");
      }
      else if( k == "clear" ) { guarded([&]() { L.clear(); }); after.clear(); states.push_back(after); }
      else if( k == "get" )
      {
         char t = it.s(2)[0]; std::string tag = dec(it.s(3)), pre = dec(it.s(4));
         const OInfo* o = info(tag);
         char want = t == 'n' ? 'N' : t == 'i' ? 'I' : 'S';
         bool e_thr = !o || o->type != want, e_found = false, thr_conv = false;
         const MVal* mv = NULL;
         if( !pre.empty() && a.m.count(low(pre + tag)) ) mv = &a.m[low(pre + tag)];
         else if( a.m.count(low(tag)) ) mv = &a.m[low(tag)];
         e_found = mv != NULL;
         std::string es; Num en = 0;
         if( !e_thr )
         {
            if( want == 'S' )
            {
               es = mv ? mv->s : o->defs;
               int ix = o->idx(es);
               if( ix >= 0 && mv ) es = o->vals[ix];
               if( t == 'e' ) { if( o->wild() ) thr_conv = true; en = ix; }
               if( t == 'b' ) { if( es == "yes" || es == "true" || es == "on" ) en = 1; else if( es == "no" || es == "false" || es == "off" ) en = 0; else e_thr = true; }
            }
            else en = mv ? mv->n : o->defn;
         }
         bool ret = false; std::string gs = "unset"; Num gn = -77; Index gi = -77; bool gb = false;
         guarded([&]()
         {
            switch( t )
            {
               case 'n': ret = L.GetNumericValue(tag, gn, pre); break;
               case 'i': ret = L.GetIntegerValue(tag, gi, pre); gn = gi; break;
               case 's': ret = L.GetStringValue(tag, gs, pre); break;
               case 'e': ret = L.GetEnumValue(tag, gi, pre); gn = gi; break;
               case 'b': ret = L.GetBoolValue(tag, gb, pre); gn = gb; break;
            }
         });
         W->count("op.get");
         if( !oom && !(thr_conv && !e_thr) )
         {
            if( !esc.empty() ) bad("get-threw", esc);
            else if( inv != e_thr ) bad("get-valid", inv ? "OPTION_INVALID although option and type are valid" : "succeeded although option or type are invalid");
            else if( !inv )
            {
               if( ret != e_found ) bad("get-found", fmt("returned %d, the option was %sset", ret, e_found ? "" : "not "));
               else if( t == 's' ? gs != es : !(gn == en || (gn != gn && en != en) || (!mv && feq(gn, en, 1e-5, 0))) )
                  bad(e_found ? "get-value" : "get-default", t == 's' ? fmt("read \"%s\", expected \"%s\"", gs.c_str(), es.c_str()) : fmt("read %.17g, expected %.17g", gn, en));
            }
         }
      }
      else if( k == "read" || k == "nofile" || k == "dir" )
      {
         bool cl = it.l(2); int via = k == "read" ? (int)it.l(3) : 2; long fail = k == "read" ? it.l(4) : -1; int chunk = (int)it.l(5); std::string text = k == "read" ? dec(it.s(7)) : "";
#ifdef SIM_VARIANT_ASAN
         if( via >= 2 && fail >= 0 ) continue;   // reads of the library's files are not intercepted in this build
#endif
         if( via == 3 && !a.m.count("option_file_name") && (c.occ[S_ALLOC] >= 0) )
         {
            // make option_file_name point to a real file
         }
         std::string fn;
         if( via >= 2 && k == "read" ) fn = with_file(text); else if( k == "nofile" ) fn = "/tmp/ipoptsim_no_such_dir/no_such_file"; else if( k == "dir" ) fn = "/";
         if( via == 3 )
         {
            auto i = after.find("option_file_name");
            if( i != after.end() && !i->second.clob ) via = 2;
            else { after["option_file_name"] = MVal{ 'S', 0, fn, true, false }; L.SetStringValue("option_file_name", fn); }
         }
         bool fuzzy = false;
         states.clear();
         int e = m_read(after, text, fail, cl, states, fuzzy);
         states.insert(states.begin(), a.m);
         after = states.back();
         if( k == "nofile" ) e = R_TRUE;
         if( k == "dir" ) e = R_FALSE;
         int st = 0; bool ret = true;
         FaultyBuf fb(text, fail, chunk, it.l(6));
         std::istream is(&fb);
         if( via >= 2 ) { fr_kind = 1 + (chunk == 2); if( chunk == 0 ) fr_kind = fail >= 0 ? 1 : 0; fr_fail = fail; fr_at = 0; fr_rng = it.l(6) + 17; }
         guarded([&]()
         {
            switch( via )
            {
               case 0: ret = L.ReadFromStream(*a.app->Jnlst(), is, cl); break;
               case 1: st = a.app->Initialize(is, cl); break;
               case 2: st = a.app->Initialize(fn, cl); break;
               default: st = a.app->Initialize(cl); break;
            }
         });
         fr_kind = 0;
         if( !fn.empty() && k == "read" ) unlink(fn.c_str());
         W->count(fmt("op.read.%s", e == R_TRUE ? "ok" : e == R_FALSE ? "incomplete" : "invalid"));
         if( oom ) { if( via && (inv || !esc.empty()) ) bad("init-threw", "Initialize did not handle a failing allocation: " + esc); }
         else if( !esc.empty() || (via && inv) ) bad("read-threw", esc.empty() ? "OPTION_INVALID escaped from Initialize" : esc);
         else if( via == 0 )
         {
            if( inv != (e == R_INVALID) ) { if( !fuzzy ) bad("read-result", inv ? "OPTION_INVALID although the text is valid" : "accepted an invalid text"); }
            else if( !inv && !fuzzy && ret != (e == R_TRUE) ) bad("read-result", fmt("returned %d, expected %d", ret, e == R_TRUE));
         }
         else if( !fuzzy && (st == 0) != (e == R_TRUE) ) bad("init-result", fmt("Initialize returned %d for %s", st, e == R_TRUE ? "a valid option file" : e == R_FALSE ? "an incomplete or unreadable option file" : "an invalid option file"));
         else if( !fuzzy && e == R_INVALID && st != -12 ) bad("init-result", fmt("Initialize returned %d for an invalid option file", st));
      }
      else if( k == "clone" )
      {
         App b;
         bool via_app = opno % 2;
         Ipopt::SmartPtr<Ipopt::IpoptApplication> na;
         guarded([&]() { na = a.app->clone(); });
         (void) via_app;
         if( !oom && (inv || !esc.empty() || !IsValid(na)) ) bad("clone", "clone failed " + esc);
         if( IsValid(na) )
         {
            b.app = na; b.m = a.m;
            if( A.size() < 4 ) A.push_back(b); else A[(ai + 1) % 4] = b;
         }
         W->count("op.clone");
      }
      else if( k == "solve" )
      {
         // a solve leaves the options alone
         auto i = after.find("print_timing_statistics");
         if( i != after.end() && low(i->second.s) == "yes" ) { auto j = after.find("timing_statistics"); if( j == after.end() || j->second.clob ) after["timing_statistics"] = MVal{ 'S', 0, "yes", true, true }; states.push_back(after); }
         Session ses(&c);
         ses.app = a.app;
         c.opt.clear();
         c.new_solve(); c.mon = false; c.opt["warm_start_init_point"] = "yes";
         guarded([&]() { a.app->OptimizeTNLP(GetRawPtr(ses.nlp)); });
         if( !oom && after == a.m ) exact = true;
         else { exact = false; states.push_back(a.m); states.push_back(after); }
         W->count("op.solve");
         inv = false; esc.clear();
      }
      else if( k == "list" )
      {
         std::string l1, l2;
         guarded([&]() { L.PrintList(l1); L.PrintUserOptions(l2); });
         W->count("op.list");
         if( !oom )
         {
            size_t n1 = std::count(l1.begin(), l1.end(), '\n'), n2 = std::count(l2.begin(), l2.end(), '\n'), e2 = 1;
            for( auto& q : a.m ) e2 += !q.second.dont;
            if( n1 != a.m.size() + 1 || n2 != e2 ) bad("list", fmt("lists have %zu and %zu lines, expected %zu and %zu", n1, n2, a.m.size() + 1, e2));
         }
      }
      if( W->viol.size() ) return;
      // every list is as expected, also those not touched
      for( size_t j = 0; j < A.size(); ++j )
      {
         Mdl have; std::string err;
         content(*A[j].app->Options(), have, err);
         if( !err.empty() ) { bad("inconsistent", err); return; }
         if( &A[j] != &A[ai] || k == "clone" )
         {
            std::string d = diff(have, canon(A[j].m));
            if( !d.empty() ) { bad(k == "clone" ? "clone-content" : "other-changed", fmt("options list %zu: ", j) + d); return; }
            continue;
         }
         if( oom || !exact )
         {
            bool ok = false;
            states.push_back(after);
            for( auto& st : states ) if( diff(have, canon(st)).empty() ) { ok = true; after = st; break; }
            if( !ok ) { bad("oom-content", "after a failing allocation: " + diff(have, canon(states[0]))); return; }
         }
         else
         {
            std::string d = diff(have, canon(after));
            if( !d.empty() ) { bad("content", d); return; }
         }
      }
      if( k != "clone" ) A[ai].m = after;
      uint64_t h = hmix(hstr(k), A[ai].m.size());
      W->sigmix(h);
   }
   if( opno )
   {
      // the documented defaults and types of some options
      Rng r(hstr(p.str()));
      opl = "documented options";
      for( int k = 0; k < 12; ++k )
      {
         const Tab& t = tab[r.u64() % (sizeof tab / sizeof tab[0])];
         check_doc(*A[0].app, t.name);
         Ipopt::OptionsList E; E.SetRegisteredOptions(A[0].app->RegOptions());
         const OInfo& o = doc[t.name];
         try
         {
            if( o.type == 'N' ) { Num v = 0; E.GetNumericValue(t.name, v, ""); if( v != o.defn && !feq(v, o.defn, 1e-5, 0) ) bad("doc-default", fmt("default of %s is %.17g, documented %.17g", t.name, v, o.defn)); }
            else if( o.type == 'I' ) { Index v = 0; E.GetIntegerValue(t.name, v, ""); if( v != o.defn ) bad("doc-default", fmt("default of %s is %d, documented %g", t.name, v, o.defn)); }
            else { std::string v; E.GetStringValue(t.name, v, ""); if( v != o.defs ) bad("doc-default", fmt("default of %s is %s, documented %s", t.name, v.c_str(), o.defs.c_str())); }
            if( o.type != 'S' ) for( int q = 0; q < 4; ++q )
            {
               Num v = rnd_num(r, o);
               if( o.type == 'I' ) { if( !(std::abs(v) < 2e9) ) continue; v = (int)v; }
               bool ok = o.type == 'N' ? E.SetNumericValue(t.name, v) : E.SetIntegerValue(t.name, (Index)v);
               if( ok != o.okn(v) ) bad("doc-range", fmt("%s = %.17g is %s, contrary to the documented range", t.name, v, ok ? "accepted" : "rejected"));
            }
            else for( int q = 0; q < 4; ++q )
            {
               std::string v = q < 2 ? o.vals[r.u64() % o.vals.size()] : rnd_str(r, o);
               bool ok = E.SetStringValue(t.name, v);
               if( ok != (o.idx(v) >= 0 || o.wild()) ) bad("doc-settings", fmt("%s = %s is %s, contrary to the documented settings", t.name, v.c_str(), ok ? "accepted" : "rejected"));
            }
         }
         catch( Ipopt::IpoptException& e ) { bad("doc-threw", std::string(t.name) + ": " + e.Message()); }
      }
      W->count("judged.documented");
   }
}
static RegProp reg("C10", "options", gen, run);
}
