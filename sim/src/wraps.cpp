// Seams below the real code: clock, files, stdout, allocation, mutexes, MUMPS, randomness, dynamic loading.
#include "sim.hpp"
#include "IpTaggedObject.hpp"
#include <cerrno>
#include <malloc.h>
#include <pthread.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <time.h>
#include <dlfcn.h>
#include <new>
extern "C" {
#include "dmumps_c.h"
}
namespace sim
{
bool g_track = false;
int g_poison = -1;
uint8_t* g_cov = NULL;

// ---------------------------------------------------------------- allocation tracking (open addressing, raw memory)
struct Slot { void* p; size_t sz; long seq; void* ra; };
static Slot* tab = NULL;
static const size_t TABN = 1 << 20;
static long tab_n = 0, tab_seq = 0, dbl = 0;
#ifndef SIM_VARIANT_ASAN
extern "C" void __real_free(void*);
#endif
extern "C" void* __real_malloc(size_t);
extern "C" void* __real_calloc(size_t, size_t);
extern "C" void* __real_realloc(void*, size_t);
#ifdef SIM_VARIANT_ASAN
#define R_MALLOC malloc
#define R_FREE free
#else
#define R_MALLOC __real_malloc
#define R_FREE __real_free
#endif
static inline size_t ph(void* p) { uint64_t x = (uint64_t)p >> 4; x *= 0x9e3779b97f4a7c15ULL; return (x >> 40) & (TABN - 1); }
static void tadd(void* p, size_t sz, void* ra)
{
   if( tab == NULL || tab_n > (long)TABN / 2 ) return;
   size_t h = ph(p);
   while( tab[h].p ) h = (h + 1) & (TABN - 1);
   tab[h] = Slot{p, sz, ++tab_seq, ra};
   ++tab_n;
}
static void tdel(void* p)
{
   if( tab == NULL || p == NULL ) return;
   size_t h = ph(p);
   while( tab[h].p && tab[h].p != p ) h = (h + 1) & (TABN - 1);
   if( !tab[h].p ) return;
   --tab_n;
   // backward-shift deletion
   size_t i = h, j = h;
   for( ;; )
   {
      j = (j + 1) & (TABN - 1);
      if( !tab[j].p ) break;
      size_t k = ph(tab[j].p);
      if( (i <= j) ? (i < k && k <= j) : (i < k || k <= j) ) continue;
      tab[i] = tab[j];
      i = j;
   }
   tab[i].p = NULL;
}
void track_start()
{
   if( tab == NULL ) tab = (Slot*)calloc(TABN, sizeof(Slot));
   else memset(tab, 0, TABN * sizeof(Slot));
   tab_n = tab_seq = 0;
   g_track = true;
}
void track_stop() { g_track = false; }
long track_live(std::string* d)
{
   long n = 0;
   for( size_t i = 0; i < TABN; ++i )
      if( tab[i].p )
      {
         ++n;
         if( d && n <= 6 )
         {
            Dl_info di;
            std::string nm = dladdr(tab[i].ra, &di) && di.dli_sname ? di.dli_sname : "?";
            *d += fmt("%zu bytes (allocation %ld in %s) ", tab[i].sz, tab[i].seq, nm.c_str());
         }
      }
   return n;
}
static inline bool alloc_fail(size_t sz)
{
   if( !T.armed || T.guard ) return false;
   T.allocs++;
   Ctx* c = T.ctx;
   if( c == NULL || !c->alloc_faults ) return false;
   c->occ[S_ALLOC]++;
   long k = c->occ[S_ALLOC];
   for( auto& f : c->faults )
   {
      if( f.site != S_ALLOC || k < f.from || k > f.to || sz < (size_t)f.p1 ) continue;
      T.guard++;
      f.fired++;
      c->fired_total++;
      c->fired["alloc:" + f.kind]++;
      W->count("fault.alloc:" + f.kind);
      W->sigmix(hmix(S_ALLOC, k));
      c->last_fired_occ[S_ALLOC] = k;
      c->last_throw = &f;
      T.guard--;
      return true;
   }
   return false;
}
struct TagProbe : public Ipopt::TaggedObject { };
static inline void after_alloc(void* p, size_t sz, void* ra)
{
   if( p == NULL || !T.armed || T.guard ) return;
   if( g_poison == 256 )
   {
      // numbers that look like the change tags in use
      T.guard++; bool a = T.armed; T.armed = false;
      uint32_t t = TagProbe().GetTag();
      T.armed = a; T.guard--;
      static uint64_t st = 1;
      uint64_t z = splitmix(st);
      for( size_t i = 0; i + 4 <= sz; i += 4 ) { uint32_t v = t + (uint32_t)(((z >> 20) + i * 7) % 40); memcpy((char*)p + i, &v, 4); }
   }
   else if( g_poison >= 0 ) memset(p, g_poison, sz);
   if( g_track ) { T.guard++; tadd(p, sz, ra); T.guard--; }
}
static void* do_new(size_t sz, void* ra)
{
   if( sz == 0 ) sz = 1;
   if( alloc_fail(sz) ) throw std::bad_alloc();
   void* p = R_MALLOC(sz);
   if( p == NULL ) throw std::bad_alloc();
   after_alloc(p, sz, ra);
   return p;
}
static void do_delete(void* p, size_t sz)
{
   if( p == NULL ) return;
   if( g_track ) tdel(p);
   if( sz && g_poison >= 0 && T.armed ) memset(p, g_poison ^ 0x5a, sz);
   R_FREE(p);
}
}
using namespace sim;
#ifndef SIM_VARIANT_ASAN
void* operator new(size_t sz) { return do_new(sz, __builtin_return_address(0)); }
void* operator new[](size_t sz) { return do_new(sz, __builtin_return_address(0)); }
void* operator new(size_t sz, const std::nothrow_t&) noexcept { if( alloc_fail(sz) ) return NULL; void* p = R_MALLOC(sz ? sz : 1); after_alloc(p, sz, __builtin_return_address(0)); return p; }
void* operator new[](size_t sz, const std::nothrow_t&) noexcept { if( alloc_fail(sz) ) return NULL; void* p = R_MALLOC(sz ? sz : 1); after_alloc(p, sz, __builtin_return_address(0)); return p; }
void operator delete(void* p) noexcept { do_delete(p, 0); }
void operator delete[](void* p) noexcept { do_delete(p, 0); }
void operator delete(void* p, size_t s) noexcept { do_delete(p, s); }
void operator delete[](void* p, size_t s) noexcept { do_delete(p, s); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p, 0); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p, 0); }
extern "C" {
void* __wrap_malloc(size_t sz) { if( alloc_fail(sz) ) { errno = ENOMEM; return NULL; } void* p = __real_malloc(sz); after_alloc(p, sz, __builtin_return_address(0)); return p; }
void* __wrap_calloc(size_t n, size_t s)
{
   if( alloc_fail(n * s) ) { errno = ENOMEM; return NULL; }
   void* p = __real_calloc(n, s);
   if( p && T.armed && !T.guard && g_track ) { T.guard++; tadd(p, n * s, __builtin_return_address(0)); T.guard--; }
   return p;
}
void* __wrap_realloc(void* q, size_t sz)
{
   if( alloc_fail(sz) ) { errno = ENOMEM; return NULL; }
   bool tr = g_track && T.armed && !T.guard;
   if( g_track && q ) tdel(q);
   void* p = __real_realloc(q, sz);
   if( tr && p ) { T.guard++; tadd(p, sz, __builtin_return_address(0)); T.guard--; }
   return p;
}
void __wrap_free(void* p) { if( g_track && p ) tdel(p); __real_free(p); }
}
#else
// under the address sanitizer the allocators stay those of the sanitizer; only failures are injected
extern "C" {
void* __real__Znwm(size_t); void* __real__Znam(size_t);
void* __wrap__Znwm(size_t sz) { if( alloc_fail(sz) ) throw std::bad_alloc(); return __real__Znwm(sz); }
void* __wrap__Znam(size_t sz) { if( alloc_fail(sz) ) throw std::bad_alloc(); return __real__Znam(sz); }
void* __wrap_malloc(size_t sz) { if( alloc_fail(sz) ) { errno = ENOMEM; return NULL; } return __real_malloc(sz); }
void* __wrap_calloc(size_t n, size_t s) { if( alloc_fail(n * s) ) { errno = ENOMEM; return NULL; } return __real_calloc(n, s); }
void* __wrap_realloc(void* q, size_t sz) { if( alloc_fail(sz) ) { errno = ENOMEM; return NULL; } return __real_realloc(q, sz); }
}
#endif

// ---------------------------------------------------------------- clock
extern "C" {
int __real_gettimeofday(struct timeval*, void*);
int __real_getrusage(int, struct rusage*);
int __real_clock_gettime(clockid_t, struct timespec*);
time_t __real_time(time_t*);
clock_t __real_clock(void);
static void clk_fault()
{
   if( T.ctx && !T.guard ) { T.guard++; bool a = T.armed; T.armed = false; T.ctx->hit(S_CLK); T.armed = a; T.guard--; }
}
int __wrap_gettimeofday(struct timeval* tv, void* tz)
{
   if( W == NULL ) return __real_gettimeofday(tv, tz);
   clk_fault();
   W->wall += W->tick; W->clock_reads++;
   double b = std::floor(W->wall);
   tv->tv_sec = (time_t)b;
   tv->tv_usec = (suseconds_t)((W->wall - b) * 1e6);
   return 0;
}
int __wrap_getrusage(int who, struct rusage* ru)
{
   if( W == NULL ) return __real_getrusage(who, ru);
   memset(ru, 0, sizeof *ru);
   clk_fault();
   if( !W->cpu_frozen ) { W->cpu += W->tick * 0.5; W->sys += W->tick * 0.05; }
   W->clock_reads++;
   double b = std::floor(W->cpu);
   ru->ru_utime.tv_sec = (time_t)b;
   ru->ru_utime.tv_usec = (suseconds_t)((W->cpu - b) * 1e6);
   b = std::floor(W->sys);
   ru->ru_stime.tv_sec = (time_t)b;
   ru->ru_stime.tv_usec = (suseconds_t)((W->sys - b) * 1e6);
   return 0;
}
int __wrap_clock_gettime(clockid_t id, struct timespec* ts)
{
   if( W == NULL ) return __real_clock_gettime(id, ts);
   clk_fault();
   W->wall += W->tick; W->clock_reads++;
   double v = (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) ? W->cpu : W->wall, b = std::floor(v);
   ts->tv_sec = (time_t)b;
   ts->tv_nsec = (long)((v - b) * 1e9);
   return 0;
}
time_t __wrap_time(time_t* t)
{
   if( W == NULL ) return __real_time(t);
   clk_fault();
   W->clock_reads++;
   if( t ) *t = (time_t)W->wall;
   return (time_t)W->wall;
}
clock_t __wrap_clock(void)
{
   if( W == NULL ) return __real_clock();
   clk_fault();
   W->clock_reads++;
   return (clock_t)(W->cpu * CLOCKS_PER_SEC);
}

// ---------------------------------------------------------------- randomness (process-global state, observed only)
double __real_drand48(void); void __real_srand48(long); int __real_rand(void); void __real_srand(unsigned);
double __wrap_drand48(void) { if( W ) { T.guard++; W->count("drand48"); T.guard--; yield_point(2); } return __real_drand48(); }
double __real_erand48(unsigned short*);
double __wrap_erand48(unsigned short* s) { if( W ) { T.guard++; W->count("erand48"); T.guard--; yield_point(2); } return __real_erand48(s); }
void __wrap_srand48(long s) { __real_srand48(s); }
int __wrap_rand(void) { return __real_rand(); }
void __wrap_srand(unsigned s) { __real_srand(s); }

// ---------------------------------------------------------------- files
FILE* __real_fopen(const char*, const char*);
FILE* __real_fopen64(const char*, const char*);
}
namespace sim
{
struct VFile { std::string name; bool out; };
static ssize_t vwrite(void* ck, const char* buf, size_t n)
{
   VFile* v = (VFile*)ck;
   if( W == NULL ) return n;
   Guard g; bool a = T.armed; T.armed = false;
   ssize_t r = (ssize_t)n;
   if( T.ctx && T.ctx->file_faults )
   {
      const Fault* f = T.ctx->hit(S_FILE);
      if( f && f->kind == "enospc" ) { errno = ENOSPC; r = 0; }
      else if( f && f->kind == "eio" ) { errno = EIO; r = 0; }
      else if( f && f->kind == "short" ) r = n / 2;
   }
   if( r > 0 )
   {
      if( v->out ) { if( W->out.size() < (4u << 20) ) W->out.append(buf, r); }
      else { std::string& s = W->files[v->name]; if( s.size() < (8u << 20) ) s.append(buf, r); }
   }
   W->count("file.writes");
   T.armed = a;
   return r;
}
static int vclose(void* ck) { delete (VFile*)ck; return 0; }
static FILE* vopen(const char* nm, const char* mode, bool out)
{
   Guard g; bool a = T.armed; T.armed = false;
   FILE* r = NULL;
   if( !out && W && T.ctx && T.ctx->file_faults )
      for( auto& f : T.ctx->faults ) if( f.site == S_FILE && f.kind == "noopen" ) { f.fired++; W->count("fault.file:noopen"); T.armed = a; errno = EACCES; return NULL; }
   if( !out && W )
   {
      if( mode[0] == 'w' ) W->files[nm] = "";
      else if( mode[0] == 'r' && !W->files.count(nm) ) { T.armed = a; errno = ENOENT; return NULL; }
   }
   cookie_io_functions_t io = { NULL, vwrite, NULL, vclose };
   VFile* v = new VFile{nm, out};
   r = fopencookie(v, "w", io);
   T.armed = a;
   return r;
}
static FILE* real_stdout = NULL;
void capture_stdout(bool on)
{
   if( on && real_stdout == NULL )
   {
      fflush(stdout);
      real_stdout = stdout;
      stdout = vopen("<stdout>", "w", true);
      setvbuf(stdout, NULL, _IOFBF, 512);
   }
   else if( !on && real_stdout != NULL )
   {
      fclose(stdout);
      stdout = real_stdout;
      real_stdout = NULL;
   }
}
}
extern "C" {
FILE* __wrap_fopen(const char* nm, const char* mode)
{
   if( W == NULL || T.guard || !T.armed ) return __real_fopen(nm, mode);
   return vopen(nm, mode, false);
}
FILE* __wrap_fopen64(const char* nm, const char* mode)
{
   if( W == NULL || T.guard || !T.armed ) return __real_fopen64(nm, mode);
   return vopen(nm, mode, false);
}

// ---------------------------------------------------------------- dynamic loading
void* __real_dlopen(const char*, int); void* __real_dlsym(void*, const char*); int __real_dlclose(void*);
}
namespace sim { void* (*g_dlopen)(const char*) = NULL; void* (*g_dlsym)(void*, const char*) = NULL; int (*g_dlclose)(void*) = NULL; }
extern "C" {
void* __wrap_dlopen(const char* n, int f)
{
   if( W && T.armed && !T.guard )
   {
      Guard g; bool a = T.armed; T.armed = false;
      W->count("dlopen");
      void* r = g_dlopen ? g_dlopen(n) : NULL;
      T.armed = a;
      return r;
   }
   return __real_dlopen(n, f);
}
void* __wrap_dlsym(void* h, const char* n)
{
   if( W && T.armed && !T.guard && g_dlsym ) { Guard g; bool a = T.armed; T.armed = false; void* r = g_dlsym(h, n); T.armed = a; return r; }
   return __real_dlsym(h, n);
}
int __wrap_dlclose(void* h)
{
   if( W && T.armed && !T.guard && g_dlclose ) { Guard g; bool a = T.armed; T.armed = false; int r = g_dlclose(h); T.armed = a; return r; }
   return __real_dlclose(h);
}

// ---------------------------------------------------------------- MUMPS
void __real_dmumps_c(DMUMPS_STRUC_C*);
void __wrap_dmumps_c(DMUMPS_STRUC_C* s)
{
   if( W == NULL ) { __real_dmumps_c(s); return; }
   bool a = T.armed;
   T.guard++; T.armed = false;
   if( W->in_mumps++ )
      W->violate("C09", "mumps-overlap", "two threads are inside MUMPS at the same time");
   Ctx* c = T.ctx;
   int job = s->job;
   W->count(fmt("mumps.job%d", job));
   if( job == -1 ) W->mumps_live++;
   if( job == -2 ) W->mumps_live--;
   const Fault* f = NULL;
   if( c )
   {
      W->wall += c->cost[S_MUMPS];
      if( !W->cpu_frozen ) W->cpu += c->cost[S_MUMPS];
      if( job > 0 )
      {
         bool match = false;
         f = c->hit(S_MUMPS);
         (void) match;
      }
      if( job > 0 ) c->ev(S_MUMPS, job, f ? hstr(f->kind) : 0);
   }
   T.guard--; T.armed = a;
   yield_point(2);
   T.guard++; T.armed = false;
   int err = 0;
   if( f )
   {
      if( f->kind == "mem8" ) err = -8;
      else if( f->kind == "mem9" ) err = -9;
      else if( f->kind == "memneed" ) err = s->icntl[13] < (int)f->p1 ? -9 : 0;
      else if( f->kind == "sing" ) err = job == 1 ? -6 : -10;
      else if( f->kind == "oom" ) err = -13;
      else if( f->kind == "err" ) err = -90;
      if( err && job == 3 && err != -90 && err != -13 ) err = 0;
      if( err && job == 1 && (err == -8 || err == -9) ) err = 0;
   }
   if( err )
   {
      if( job == 2 && err == -10 )
         __real_dmumps_c(s);
      s->info[0] = err; s->infog[0] = err;
      s->info[1] = 0; s->infog[1] = 0;
   }
   else
   {
      __real_dmumps_c(s);
      if( f && job == 2 && f->kind == "inertia" ) { s->infog[11] = std::max(0, s->infog[11] + (int)f->p1); }
      if( f && job == 3 && f->kind == "pert" )
         for( int i = 0; i < s->n; ++i ) s->rhs[i] *= 1 + f->p1 * ((i % 3) - 1);
      if( f && job == 3 && f->kind == "nan" && s->n > 0 ) s->rhs[(int)f->p1 % s->n] = std::numeric_limits<double>::quiet_NaN();
      if( f && job == 3 && f->kind == "nan" ) ;
      if( c && job == 3 ) c->ev(S_MUMPS, xhash(s->rhs, s->n));
      if( c && job == 2 ) W->sigmix(hmix(S_MUMPS, s->info[0] < 0 ? s->info[0] : s->infog[11]));
   }
   T.guard--; T.armed = a;
   yield_point(3);
   W->in_mumps--;
}

// ---------------------------------------------------------------- basic-block hook
extern long g_countdown;
void __sanitizer_cov_trace_pc(void)
{
   World* w = W;
   if( w == NULL ) return;
   w->bb++;
   if( g_cov )
   {
      uint64_t pc = (uint64_t)__builtin_return_address(0);
      g_cov[((pc * 0x9e3779b97f4a7c15ULL) >> 40) & (COVN - 1)] = 1;
   }
   if( w->bbcap && w->bb > w->bbcap && !T.guard )
   {
      T.guard++;
      T.armed = false;
      finish_run_and_exit(1);
   }
   if( T.tid >= 0 && !T.guard && --g_countdown <= 0 ) yield_point(1);
}
}
