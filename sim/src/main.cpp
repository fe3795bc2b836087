// ipoptsim: command line driver. Every simulated run happens in its own process forked from a pristine image.
#include "sim.hpp"
#include <sys/personality.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <time.h>
extern "C" int __real_clock_gettime(clockid_t, struct timespec*);
namespace sim
{
static int out_fd = 1;
static bool finished = false;
static double rnow() { struct timespec ts; __real_clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + 1e-9 * ts.tv_nsec; }
static std::vector<Ctx*>& ctxs() { static std::vector<Ctx*> v; return v; }
static double w0;
static std::string result_text(int why)
{
   std::string s;
   if( why == 1 && !W->plan->find("anyopts") ) W->violate(W->plan->prop, "livelock", fmt("no termination within %llu executed basic blocks", (unsigned long long)W->bbcap));
   s += fmt("SIG %016llx\n", (unsigned long long)W->sig);
   s += fmt("SIMS %.9g\n", W->wall - w0);
   s += fmt("BB %llu\n", (unsigned long long)W->bb);
   for( auto& v : W->viol )
   {
      std::string m = v.msg;
      for( auto& ch : m ) if( ch == '\n' || ch == '\r' ) ch = ' ';
      s += "VIOL " + v.prop + " " + v.cls + " " + m + "\n";
   }
   for( auto& c : W->cnt ) s += fmt("CNT %s %ld\n", c.first.c_str(), c.second);
   s += "END\n";
   return s;
}
static void put(const std::string& s)
{
   size_t o = 0;
   while( o < s.size() )
   {
      ssize_t k = write(out_fd, s.data() + o, s.size() - o);
      if( k <= 0 ) break;
      o += k;
   }
}
void finish_run_and_exit(int why)
{
   T.guard++; T.armed = false;
   std::string s = result_text(why);
   if( W->trace ) { capture_stdout(false); fprintf(stderr, "%s", W->out.c_str()); }
   put(s);
   _exit(0);
}
static void on_terminate() { const char m[] = "DEATH std::terminate\n"; (void)!write(out_fd, m, sizeof m - 1); signal(SIGABRT, SIG_DFL); abort(); }
static void on_sig(int s)
{
   char m[] = "DEATH signal xx\n";
   m[13] = '0' + s / 10; m[14] = '0' + s % 10;
   (void)!write(out_fd, m, sizeof m - 1);
   signal(s, SIG_DFL);
   raise(s);
}
static void run_one(const Plan& p, bool trace, int fd)
{
   out_fd = fd;
   World w;
   W = &w;
   w.trace = trace;
   Plan pl = p;
   w.plan = &pl;
   w.bbcap = (uint64_t)p.getd("bbcap", 4e9);
   w.tick = p.getd("tick", 1e-6);
   w.wall = p.getd("wall0", 1000.);
   w.cpu = p.getd("cpu0", 5.);
   w0 = w.wall;
   std::set_terminate(on_terminate);
#ifndef SIM_VARIANT_ASAN
   static char alt[65536];
   stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, NULL);
   struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_RESETHAND;
   int sg[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL };
   for( int s : sg ) sigaction(s, &sa, NULL);
#endif
   struct rlimit rl = { 0, 0 };
   setrlimit(RLIMIT_CORE, &rl);
#ifndef SIM_VARIANT_ASAN
   struct rlimit as = { (rlim_t)6 << 30, (rlim_t)6 << 30 };   // runaway allocations fail instead of exhausting the machine
   setrlimit(RLIMIT_AS, &as);
#endif
   const Prop* q = NULL;
   for( auto& x : props() ) if( x.id == p.prop ) q = &x;
   if( !q ) { fprintf(stderr, "unknown property %s\n", p.prop.c_str()); _exit(9); }
   capture_stdout(true);
   q->run(pl);
   T.guard++; T.armed = false;
   capture_stdout(false);
   if( trace ) fprintf(stderr, "%s", w.out.c_str());
   put(result_text(0));
   W = NULL;
}
struct Res { std::string text; int wst; bool timeout; };
static Res spawn(const Plan& p, bool trace, double limit)
{
   int fd[2];
   if( pipe(fd) ) _exit(9);
   pid_t pid = fork();
   if( pid == 0 )
   {
      close(fd[0]);
      if( !trace ) { int dn = open("/dev/null", O_WRONLY); const char* ef = getenv("SIM_STDERR"); if( ef ) dn = open(ef, O_WRONLY | O_CREAT | O_APPEND, 0644); dup2(dn, 1); dup2(dn, 2); }
      run_one(p, trace, fd[1]);
      _exit(0);
   }
   close(fd[1]);
   Res r;
   r.timeout = false;
   double end = rnow() + limit;
   char buf[65536];
   for( ;; )
   {
      double left = end - rnow();
      struct pollfd pf = { fd[0], POLLIN, 0 };
      int k = poll(&pf, 1, left > 0 ? int(left * 1000) + 1 : 0);
      if( k <= 0 ) { if( rnow() >= end ) { r.timeout = true; kill(pid, SIGKILL); break; } continue; }
      ssize_t n = read(fd[0], buf, sizeof buf);
      if( n <= 0 ) break;
      r.text.append(buf, n);
   }
   close(fd[0]);
   waitpid(pid, &r.wst, 0);
   return r;
}
// turns process death into a violation of the property under check
static std::string judged(const Plan& p, Res& r, double limit)
{
   if( r.timeout ) return r.text + "VIOL " + p.prop + " hang the run did not end within " + fmt("%.0f", limit) + " s of real time\nEND\n";
   bool ended = r.text.find("\nEND\n") != std::string::npos;
   if( ended && WIFEXITED(r.wst) && WEXITSTATUS(r.wst) == 0 ) return r.text;
   std::string why;
   size_t d = r.text.find("DEATH ");
   if( d != std::string::npos ) why = r.text.substr(d + 6, r.text.find('\n', d) - d - 6);
   else if( WIFSIGNALED(r.wst) ) why = fmt("signal %d", WTERMSIG(r.wst));
   else why = fmt("exit code %d", WEXITSTATUS(r.wst));
   std::string cls = "crash";
   for( char ch : why ) cls += (ch == ' ' || ch == ':') ? '-' : ch;
   return "VIOL " + p.prop + " " + cls + " the process died: " + why + "\nEND\n";
}
static const double RUNLIMIT = 60;
}
using namespace sim;
static std::string slurp(const char* f)
{
   FILE* h = strcmp(f, "-") ? fopen(f, "r") : stdin;
   if( !h ) { perror(f); _exit(9); }
   std::string s; char b[65536]; size_t n;
   while( (n = fread(b, 1, sizeof b, h)) > 0 ) s.append(b, n);
   return s;
}
int main(int argc, char** argv)
{
   if( getenv("SIM_NOASLR") == NULL )
   {
      int pers = personality(0xffffffff);
      setenv("SIM_NOASLR", "1", 1);
      if( pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) >= 0 ) execv("/proc/self/exe", argv);
   }
   signal(SIGPIPE, SIG_IGN);
   std::string cmd = argc > 1 ? argv[1] : "";
   if( cmd == "list" ) { for( auto& p : props() ) printf("%s %s\n", p.id.c_str(), p.name.c_str()); return 0; }
   if( cmd == "gen" && argc >= 4 )
   {
      for( auto& p : props() ) if( p.id == argv[2] ) { Plan pl = p.gen(strtoull(argv[3], NULL, 10), argc > 4 && argv[4][0] == 't'); pl.prop = p.id; printf("%s", pl.str().c_str()); return 0; }
      return 9;
   }
   if( cmd == "run" && argc >= 3 )
   {
      Plan p = Plan::parse(slurp(argv[2]));
      bool trace = argc > 3;
      Res r = spawn(p, trace, argc > 4 ? atof(argv[4]) : RUNLIMIT);
      printf("%s", judged(p, r, RUNLIMIT).c_str());
      return 0;
   }
   if( cmd == "batch" && argc >= 7 )
   {
      // batch PROP SEED0 STRIDE MAXRUNS SECONDS [t]
      const Prop* q = NULL;
      for( auto& p : props() ) if( p.id == argv[2] ) q = &p;
      if( !q ) return 9;
      uint64_t seed = strtoull(argv[3], NULL, 10), stride = strtoull(argv[4], NULL, 10);
      long maxr = atol(argv[5]);
      double end = rnow() + atof(argv[6]);
      bool th = argc > 7 && argv[7][0] == 't';
      g_cov = (uint8_t*)mmap(NULL, COVN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      std::map<std::string, long> cnt, runs_with;
      std::set<uint64_t> sigs;
      double sims = 0, bb = 0;
      long runs = 0, nviol = 0;
      size_t lastcov = 0; long lastnew = 0;
      for( ; runs < maxr && rnow() < end && nviol < 60; seed += stride )
      {
         Plan pl = q->gen(seed, th);
         pl.prop = q->id;
         Res r = spawn(pl, false, RUNLIMIT);
         std::string t = judged(pl, r, RUNLIMIT);
         ++runs;
         std::istringstream is(t);
         std::string line;
         bool nontriv = t.find("\nCNT fault.") != std::string::npos || t.find("\nCNT iters ") != std::string::npos;
         while( std::getline(is, line) )
         {
            if( line.compare(0, 4, "SIG ") == 0 ) { if( nontriv ) sigs.insert(strtoull(line.c_str() + 4, NULL, 16)); }
            else if( line.compare(0, 5, "SIMS ") == 0 ) sims += std::max(0., atof(line.c_str() + 5));
            else if( line.compare(0, 3, "BB ") == 0 ) bb += atof(line.c_str() + 3);
            else if( line.compare(0, 4, "CNT ") == 0 ) { size_t e = line.rfind(' '); std::string k = line.substr(4, e - 4); cnt[k] += atol(line.c_str() + e); runs_with[k]++; }
            else if( line.compare(0, 5, "VIOL ") == 0 ) { printf("V %llu %s\n", (unsigned long long)seed, line.c_str() + 5); fflush(stdout); if( line.compare(5, q->id.size(), q->id) == 0 ) ++nviol; }
         }
         if( runs % 64 == 0 ) { size_t c = 0; for( size_t i = 0; i < COVN; ++i ) c += g_cov[i]; if( c > lastcov ) { lastcov = c; lastnew = runs; } }
      }
      size_t c = 0;
      for( size_t i = 0; i < COVN; ++i ) c += g_cov[i];
      printf("RUNS %ld\nSIMS %.6g\nBB %.6g\nCOV %zu\nLASTNEW %ld\n", runs, sims, bb, c, lastnew);
      for( auto& x : cnt ) printf("C %s %ld %ld\n", x.first.c_str(), x.second, runs_with[x.first]);
      for( auto s : sigs ) printf("S %016llx\n", (unsigned long long)s);
      if( argc > 8 ) { FILE* h = fopen(argv[8], "wb"); if( h ) { fwrite(g_cov, 1, COVN, h); fclose(h); } }
      printf("DONE\n");
      return 0;
   }
   fprintf(stderr, "usage: ipoptsim list | gen PROP SEED [t] | run FILE [trace] | batch PROP SEED0 STRIDE MAXRUNS SECONDS [q|t] [covfile]\n");
   return 9;
}
