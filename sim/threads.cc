// Simulated threads. Every thread is a real pthread, but exactly one of them
// runs at any time: a baton is handed over explicitly, and who gets it next is
// decided by the seeded scheduler. Two uses:
//  * run(): one library call at a time, each component in its own thread
//    (what MPI_THREAD_SERIALIZED permits);
//  * parallel(): several threads inside the library at once, switched at any
//    instrumented memory access (what MPI_THREAD_MULTIPLE permits).
#include "threads.h"
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdlib.h>
#include <errno.h>
#include <map>
#include <unordered_map>

namespace threads {
bool useThreads=false; int level=-1; u64 handoffs=0;

static void altStack(){ stack_t ss; memset(&ss,0,sizeof ss); ss.ss_sp=malloc(65536); ss.ss_size=65536; sigaltstack(&ss,0); }

// ---------------------------------------------------------------- serialized
struct Worker { pthread_t th; sem_t go,done; const std::function<void()>*f=nullptr; Outcome out; };
static std::map<int,Worker*> workers;
static void* workerMain(void*p){ Worker*w=(Worker*)p; altStack(); for(;;){ while(sem_wait(&w->go)){} w->out=env::call(*w->f); sem_post(&w->done); } return nullptr; }
void reset(){ workers.clear(); useThreads=false; level=-1; handoffs=0; }

Outcome run(int task,const std::function<void()>&f){
  if(!useThreads||task==0||level<2) return env::call(f);
  auto&w=workers[task];
  if(!w){ w=new Worker; sem_init(&w->go,0,0); sem_init(&w->done,0,0); pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a,64<<20); if(pthread_create(&w->th,&a,workerMain,w)) _Exit(97); }
  w->f=&f; handoffs++; sem_post(&w->go); while(sem_wait(&w->done)){}
  return w->out;
}

// ---------------------------------------------------------------- concurrent
struct PT { pthread_t th; sem_t go; std::function<void()> f; Outcome out; bool finished=false; void*waits=nullptr; int id; };
static std::vector<PT*> pts; static PT* curp=nullptr; static sem_t allDone; static Rng sched(1); static bool active=false;
static thread_local PT* self=nullptr;
static std::unordered_map<void*,PT*> owner; static std::unordered_map<void*,int> depth;

static void passTo(PT*n){ if(n==curp) return; PT*me=self; curp=n; env::cnt.ctxsw++; sem_post(&n->go); if(me&&!me->finished) while(sem_wait(&me->go)){} }
static PT* pick(bool excludeSelf){
  std::vector<PT*> c; for(auto p:pts) if(!p->finished&&!(excludeSelf&&p==self)&&(!p->waits||!owner[p->waits])) c.push_back(p);
  return c.empty()?nullptr:c[sched.below(c.size())];
}
static void yieldNow(){ if(!active||!self) return; PT*n=pick(false); if(n) passTo(n); }
static void* ptMain(void*p){ PT*t=(PT*)p; altStack(); self=t; while(sem_wait(&t->go)){} t->out=env::call(t->f); t->finished=true; for(auto&o:owner) if(o.second==t) o.second=nullptr;   // a dead thread takes the process with it; let the others end
  PT*n=pick(true); if(n) passTo(n); else { sem_post(&allDone); } return nullptr; }

std::vector<Outcome> parallel(const std::vector<std::function<void()>>&fs,u64 seed,u64 prob){
  pts.clear(); owner.clear(); depth.clear(); sem_init(&allDone,0,0); sched=Rng(hash2(seed,5)); 
  for(size_t i=0;i<fs.size();i++){ PT*t=new PT; t->f=fs[i]; t->id=(int)i; sem_init(&t->go,0,0); pts.push_back(t); }
  for(auto t:pts){ pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a,8<<20); if(pthread_create(&t->th,&a,ptMain,t)) _Exit(97); }
  env::preemptProb=prob; env::yieldFn=yieldNow; env::preemptOn=true; active=true; self=nullptr;
  curp=pts[sched.below(pts.size())]; sem_post(&curp->go);
  while(sem_wait(&allDone)){}
  active=false; env::preemptOn=false; env::yieldFn=nullptr;
  std::vector<Outcome> r; for(auto t:pts){ if(!t->finished){ t->out.kind=OUT_HANG; t->out.detail="deadlock: blocked on a mutex that is never released"; } r.push_back(t->out); } return r;
}
}
using namespace threads;

extern "C" {
static int mkind(pthread_mutex_t*m){ return m->__data.__kind&3; }  // 1 recursive, 2 errorcheck
int sim_mutex_lock(pthread_mutex_t*m){
  env::cnt.mutex++;
  if(!active||!self){ auto&d=depth[m]; if(d&&mkind(m)!=1) return mkind(m)==2?EDEADLK:(env::hang("self-deadlock: the mutex is already held by this thread"),0); d++; return 0; }
  if(owner[m]==self){ if(mkind(m)==1){ depth[m]++; return 0; } if(mkind(m)==2) return EDEADLK; env::hang("self-deadlock on a mutex"); }
  while(owner[m]){ self->waits=m; PT*n=pick(true); if(!n) env::hang("deadlock: every thread waits for a mutex"); passTo(n); }
  self->waits=nullptr; owner[m]=self; depth[m]=1; return 0;
}
int sim_mutex_trylock(pthread_mutex_t*m){ if(!active||!self){ auto&d=depth[m]; if(d&&mkind(m)!=1) return EBUSY; d++; return 0; } if(owner[m]==self&&mkind(m)==1){ depth[m]++; return 0; } if(owner[m]) return EBUSY; owner[m]=self; depth[m]=1; return 0; }
int sim_mutex_unlock(pthread_mutex_t*m){ if(!active||!self){ auto&d=depth[m]; if(d>0) d--; return 0; } if(owner[m]==self&&--depth[m]==0){ owner[m]=nullptr; } return 0; }
}
