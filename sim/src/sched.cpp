// Cooperative simulation of threads: real threads, exactly one runs at any time; the seeded scheduler decides at
// basic-block granularity, at every mutex operation and around every MUMPS call who runs next.
#include "sim.hpp"
#include <pthread.h>
#include <errno.h>
#include <semaphore.h>
extern "C" long g_countdown;
long g_countdown = 0;
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*);
}
namespace sim
{
int g_sched_switches = 0;
struct Th { sem_t s; bool done = false; void* waiting = NULL; std::function<void()> f; int id; };
static std::vector<Th*> ths;
static bool active = false;
static Rng* rng = NULL;
static int quantum = 1000;
static int cur = -1;
static sem_t main_sem;
static std::map<void*, int>* owner = NULL;

bool sched_active() { return active; }
static long next_countdown() { return quantum <= 1 ? 1 : 1 + (long)(-std::log(1 - rng->uni()) * quantum); }
static int choose()
{
   std::vector<int> run;
   for( auto t : ths ) if( !t->done && (t->waiting == NULL || !owner->count(t->waiting)) ) run.push_back(t->id);
   if( run.empty() ) return -1;
   return run[rng->u64() % run.size()];
}
static void switch_to(int n)
{
   int me = cur;
   if( n == me ) return;
   cur = n;
   g_sched_switches++;
   W->sigmix(hmix(0x5c4ed, n));
   sem_post(&ths[n]->s);
   if( me >= 0 && !ths[me]->done ) while( sem_wait(&ths[me]->s) ) ;
}
void yield_point(int why)
{
   if( !active || T.tid < 0 || T.guard ) return;
   T.guard++; bool a = T.armed; T.armed = false;
   g_countdown = next_countdown();
   // around mutex operations and MUMPS calls a switch is drawn as well
   int n = choose();
   W->count(why == 1 ? "sched.bb" : "sched.sync");
   if( n >= 0 ) switch_to(n);
   g_countdown = next_countdown();
   T.armed = a; T.guard--;
}
static void* body(void* p)
{
   Th* t = (Th*)p;
   while( sem_wait(&t->s) ) ;
   T.tid = t->id;
   t->f();
   T.guard++;
   T.tid = -1;
   t->done = true;
   int n = choose();
   if( n >= 0 ) { cur = n; W->sigmix(hmix(0x5c4ed, n)); sem_post(&ths[n]->s); }
   else
   {
      bool all = true;
      for( auto q : ths ) all = all && q->done;
      if( !all ) { W->violate("C09", "deadlock", "all remaining threads wait for a lock held by a finished thread"); finish_run_and_exit(2); }
      sem_post(&main_sem);
   }
   T.guard--;
   return NULL;
}
void sched_run(const std::vector<std::function<void()> >& bodies, uint64_t seed, int q)
{
   Rng r(seed);
   rng = &r; quantum = q;
   std::map<void*, int> own;
   owner = &own;
   sem_init(&main_sem, 0, 0);
   ths.clear();
   std::vector<pthread_t> pt(bodies.size());
   for( size_t i = 0; i < bodies.size(); ++i )
   {
      Th* t = new Th;
      t->id = (int)i; t->f = bodies[i];
      sem_init(&t->s, 0, 0);
      ths.push_back(t);
   }
   active = true;
   pthread_attr_t at;
   pthread_attr_init(&at);
   pthread_attr_setstacksize(&at, 8 << 20);
   for( size_t i = 0; i < bodies.size(); ++i ) pthread_create(&pt[i], &at, body, ths[i]);
   g_countdown = next_countdown();
   cur = choose();
   sem_post(&ths[cur]->s);
   while( sem_wait(&main_sem) ) ;
   for( auto& p : pt ) pthread_join(p, NULL);
   active = false;
   for( auto t : ths ) delete t;
   ths.clear();
   cur = -1;
}
}
using namespace sim;
extern "C" {
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
   if( !active || T.tid < 0 ) return __real_pthread_mutex_lock(m);
   bool g = T.guard > 0;
   if( !g ) yield_point(2);
   T.guard++; bool a = T.armed; T.armed = false;
   Th* me = ths[T.tid];
   while( owner->count(m) )
   {
      if( (*owner)[m] == T.tid ) { W->violate("C09", "self-deadlock", "a thread locks a mutex it already holds"); finish_run_and_exit(2); }
      me->waiting = m;
      W->count("sched.blocked");
      int n = choose();
      if( n < 0 ) { W->violate("C09", "deadlock", "all simulated threads are blocked"); finish_run_and_exit(2); }
      switch_to(n);
      me->waiting = NULL;
   }
   (*owner)[m] = T.tid;
   T.armed = a; T.guard--;
   return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
   if( !active || T.tid < 0 ) return __real_pthread_mutex_trylock(m);
   T.guard++; bool a = T.armed; T.armed = false;
   int r = owner->count(m) ? EBUSY : 0;
   if( !r ) (*owner)[m] = T.tid;
   T.armed = a; T.guard--;
   return r;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
   if( !active || T.tid < 0 ) return __real_pthread_mutex_unlock(m);
   T.guard++; bool a = T.armed; T.armed = false;
   owner->erase(m);
   T.armed = a; T.guard--;
   if( !T.guard ) yield_point(2);
   return 0;
}
}
