#include "env.h"
#include <cstdarg>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/utsname.h>
#include <signal.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <pthread.h>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <alloca.h>

std::string EnvCfg::str() const {
  char b[256]; snprintf(b,sizeof b,"heap=%d fill=%d eseed=%llu failat=%lld sticky=%d threads=%d reuse=%d variant=%d",heapPolicy,fill,(unsigned long long)seed,(long long)failAt,failSticky,threads,reuseUser,variant);
  return b;
}

namespace env {
EnvCfg cfg; Counters cnt;
i64 nowUs=0; bool clockFails=false; int hostMode=0; std::string hostName;
bool preemptOn=false; u64 preemptProb=50; void (*yieldFn)()=nullptr;

static Rng rng(1), prng(2);
static u64 heapTop, userTop, farTop;
struct Blk { size_t n; };
static std::unordered_map<u64,size_t>* live; static u64 liveBytes;
static std::map<size_t,std::vector<u64>>* freeLists; // exact size -> addresses
static std::map<size_t,std::vector<u64>>* userFree;
static i64 allocSeq, failAt; static int failSticky;
static bool armed=false;
static std::unordered_set<u64>* funcs;
u64 funcsEntered(){ return funcs?funcs->size():0; }
void markFuncs(u8*bits){ if(!funcs||!bits) return; for(u64 a:*funcs){ u64 x=a; u64 h=Rng::mix(x)&((1u<<19)-1); __atomic_fetch_or(&bits[h>>3],(u8)(1<<(h&7)),__ATOMIC_RELAXED); } }

// per-thread call context
struct Ctx { sigjmp_buf jb; Outcome* out; u64 budget; };
static thread_local Ctx* ctx=nullptr;
static int hooksOff=0;

static int stackPoolMode=-1; static u64 stackPoolN=0;
static int outFd=-1; static off_t outPos=0;

static void redzones();
void mapArenas(){
  redzones();
  auto m=[&](u64 a,u64 n){ void*p=mmap((void*)a,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if(p!=(void*)a){ perror("mmap arena"); _exit(3);} };
  m(HEAP_BASE,HEAP_SIZE); m(HEAP_SH,HEAP_SIZE); m(USER_BASE,USER_SIZE); m(USER_SH,USER_SIZE);
  madvise((void*)HEAP_BASE,HEAP_SIZE,MADV_NOHUGEPAGE); madvise((void*)HEAP_SH,HEAP_SIZE,MADV_NOHUGEPAGE);
  madvise((void*)USER_BASE,USER_SIZE,MADV_NOHUGEPAGE); madvise((void*)USER_SH,USER_SIZE,MADV_NOHUGEPAGE);
}
static inline u8* hsh(u64 a){ return (u8*)(a-HEAP_BASE+HEAP_SH); }
static inline u8* ush(u64 a){ return (u8*)(a-USER_BASE+USER_SH); }

static void fillBytes(u8*p,size_t n,int mode){
  switch(mode){
    case 0: memset(p,0,n); break;
    case 1: memset(p,0xff,n); break;
    case 2: { size_t i=0; for(;i+8<=n;i+=8){u64 r=rng.next(); memcpy(p+i,&r,8);} for(;i<n;i++)p[i]=(u8)rng.next(); break; }
    case 3: break;   // stale: whatever the previous owner left (fresh memory: 0xaa)
    case 4: { size_t i=0; for(;i+4<=n;i+=4){int r=(int)rng.below(3); memcpy(p+i,&r,4);} for(;i<n;i++)p[i]=1; break; }
  }
}

static void bail(OutKind k){ Ctx*c=ctx; c->out->kind=k; siglongjmp(c->jb,1); }

void hang(const char*why){ if(!ctx) _exit(96); ctx->out->detail=why; bail(OUT_HANG); }
bool inCall(){ return ctx!=nullptr; }
static u64 callNo;
static void sigh(int sig,siginfo_t*si,void*){
  if(sig==SIGXCPU) _exit(97);            // a run that takes this long is abandoned
  if(sig==SIGPROF){                      // a library call that uses the processor without touching memory or calling anything
    static u64 lastSteps,lastCall; static int same; if(!ctx){ same=0; return; }
    if(ctx->out->steps==lastSteps&&callNo==lastCall) same++; else same=0;
    lastSteps=ctx->out->steps; lastCall=callNo; if(same<4) return;
    same=0; sigset_t s; sigemptyset(&s); sigaddset(&s,sig); sigprocmask(SIG_UNBLOCK,&s,0); ctx->out->detail="no return: the call loops without doing anything"; bail(OUT_HANG); }
  if(ctx){ char b[128]; snprintf(b,sizeof b,"signal %d (%s) inside the library",sig,strsignal(sig)); ctx->out->detail=b; 
    sigset_t s; sigemptyset(&s); sigaddset(&s,sig); sigprocmask(SIG_UNBLOCK,&s,0);
    bail(OUT_CRASH); }
  // outside the library: the simulator itself is broken
  char b[100]; int n=snprintf(b,sizeof b,"simulator: signal %d outside library at %p\n",sig,si?si->si_addr:0); (void)!write(outFd>=0?outFd:2,b,n); _exit(99);
}

void initRun(const EnvCfg& c){
  stackPoolMode=-1; stackPoolN=0;
  cfg=c; cnt=Counters(); rng=Rng(hash2(c.seed,77)); prng=Rng(hash2(c.seed,78));
  heapTop=HEAP_BASE+4096; userTop=USER_BASE+(1u<<20); farTop=USER_BASE+NEAR_SIZE;
  live=new std::unordered_map<u64,size_t>; freeLists=new std::map<size_t,std::vector<u64>>; userFree=new std::map<size_t,std::vector<u64>>;
  funcs=new std::unordered_set<u64>;
  liveBytes=0; allocSeq=0; failAt=0; failSticky=0; armed=false;
  nowUs=1700000000ll*1000000ll; clockFails=false; hostMode=0; hostName="simhost"; hooksOff=0; preemptOn=false;
  if(c.failAt) armAlloc(c.failAt,c.failSticky);
  if(outFd<0){ outFd=memfd_create("out",0); }
  fflush(stdout); fflush(stderr);
  dup2(outFd,1); dup2(outFd,2); outPos=0; (void)!ftruncate(outFd,0); lseek(outFd,0,SEEK_SET);
  setvbuf(stdout,NULL,_IOFBF,8192);
  static char alt[65536]; stack_t ss; memset(&ss,0,sizeof ss); ss.ss_sp=alt; ss.ss_size=sizeof alt; sigaltstack(&ss,0);
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=sigh; sa.sa_flags=SA_SIGINFO|SA_ONSTACK|SA_NODEFER;
  for(int s:{SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGABRT,SIGTRAP,SIGSYS,SIGXCPU}) sigaction(s,&sa,0);
  sa.sa_flags|=SA_RESTART; sigaction(SIGPROF,&sa,0); struct itimerval tv={{1,0},{1,0}}; setitimer(ITIMER_PROF,&tv,0);
}
std::string takeOutput(bool flushed){
  if(flushed) fflush(stdout); else __fpurge(stdout);
  std::string r; char b[4096]; ssize_t n; 
  while((n=pread(outFd,b,sizeof b,outPos))>0){ r.append(b,n); outPos+=n; if(r.size()>20000) break; }
  return r;
}
void armAlloc(i64 at,int sticky){ failAt=at; failSticky=sticky; allocSeq=0; armed=at>0; }
u64 liveHeap(){ return liveBytes; } u64 liveBlocks(){ return live->size(); }

// ------------------------------------------------------------ user arena
void perm(u64 a,size_t n,int p){ memset(ush(a),p,n); }
u64 ualloc(size_t n,int p){
  size_t cls=(n+63)/64*64; if(cls==0) cls=64;
  u64 a=0;
  if(cfg.reuseUser){ auto it=userFree->find(cls); if(it!=userFree->end()&&!it->second.empty()&&prng.chance(0.7)){ a=it->second.back(); it->second.pop_back(); } }
  if(!a){ a=userTop+64; userTop=a+cls+64; if(userTop>USER_BASE+NEAR_SIZE-(64u<<20)){ const char m[]="simulator: user arena exhausted\n"; (void)!write(outFd,m,sizeof m); _exit(98);} }
  perm(a,n,p); return a;
}
u64 ufar(u64 span){ u64 a=farTop+4096; farTop=a+((span+8191)&~4095ull); if(farTop>USER_BASE+USER_SIZE) return 0; return a; }
void ufree(u64 a,size_t n){ perm(a,n?n:1,PERM_NONE); if(n) perm(a,n,PERM_NONE); size_t cls=(n+63)/64*64; if(cls==0)cls=64; if(a<USER_BASE+NEAR_SIZE) (*userFree)[cls].push_back(a); }

// ------------------------------------------------------------ checks
static void memViol(u64 a,size_t n,bool w,const char*what){
  char b[300];
  if(a>=HEAP_BASE&&a<HEAP_BASE+HEAP_SIZE){
    bool freed=*hsh(a)==2; // 2 = released
    snprintf(b,sizeof b,"%s of %zu bytes of %s heap memory (%s)",w?"write":"read",n,freed?"released":"unallocated (out of bounds)",what);
  } else {
    u8 p=*ush(a);
    snprintf(b,sizeof b,"%s of %zu bytes of caller memory outside what was handed over (%s, permission %d)",w?"write":"read",n,what,p);
  }
  ctx->out->detail=b; bail(OUT_MEM);
}
static inline void step(u64 k){
  Ctx*c=ctx; c->out->steps+=k;
  if(c->out->steps>c->budget){ c->out->detail="no return within the step budget"; bail(OUT_HANG); }
}
static u64 guardLo=1,guardN=0;   // memory that only stands for an address: nothing may be read or written there
void guardMarkers(void*a,size_t n){ guardLo=(u64)a; guardN=n; }
// forbidden zones around the library's globals (build.sh puts them there)
extern "C" { extern u64 __start_simrz[] __attribute__((weak)); extern u64 __stop_simrz[] __attribute__((weak)); }
static u64 rzLo=1,rzN=0; static u8*rzMap=nullptr;
static void redzones(){
  u64*b=__start_simrz,*e=__stop_simrz; if(b==e) return; u64 lo=~0ull,hi=0; for(u64*p=b;p<e;p++){ if(*p<lo) lo=*p; if(*p+64>hi) hi=*p+64; }
  rzMap=(u8*)calloc(hi-lo,1); for(u64*p=b;p<e;p++) memset(rzMap+(*p-lo),1,64);
  rzLo=lo; rzN=hi-lo;
}
static inline void chk(u64 a,size_t n,bool w,const char*what){
  if(a-HEAP_BASE<HEAP_SIZE){
    const u8*s=hsh(a);
    if(n<=16){ for(size_t i=0;i<n;i++) if(s[i]!=1) memViol(a+i,n,w,what); }
    else for(size_t i=0;i<n;i++) if(s[i]!=1) memViol(a+i,n,w,what);
  } else if(a-USER_BASE<USER_SIZE){
    const u8*s=ush(a); u8 need=w?3:1;
    for(size_t i=0;i<n;i++) if((s[i]&need)!=need) memViol(a+i,n,w,what);
  } else if(a-guardLo<guardN){ char b[200]; snprintf(b,sizeof b,"%s of %zu bytes at a marker address (MPI_STATUS_IGNORE, MPI_STATUSES_IGNORE or MPI_IN_PLACE of Fortran)",w?"write":"read",n); ctx->out->detail=b; bail(OUT_MEM);
  } else if(a-rzLo<rzN){
    for(size_t i=0;i<n&&a+i-rzLo<rzN;i++) if(rzMap[a+i-rzLo]){ char b[200]; snprintf(b,sizeof b,"%s of %zu bytes beyond a global variable of the library (%s)",w?"write":"read",n,what); ctx->out->detail=b; bail(OUT_MEM); }
  }
}
static inline void hook(u64 a,size_t n,bool w){
  if(!ctx||hooksOff) return;
  step(1); chk(a,n,w,"access");
  if(preemptOn && prng.below(preemptProb)==0 && yieldFn){ cnt.preempt++; yieldFn(); }
}

// what earlier calls left on the stack: a slice of a per-run pool of such bytes, deep every now and then
static u8 stackPool[64*1024];
__attribute__((noinline)) static void dirtyStack(int mode){
  if(stackPoolMode!=mode||stackPoolN++%20000==0){ stackPoolMode=mode; if(mode==3) memset(stackPool,0xaa,sizeof stackPool); else fillBytes(stackPool,sizeof stackPool,mode); }
  bool deep=stackPoolN%24==1; size_t n=(deep?48:6)*1024; u8*p=(u8*)alloca(n);
  memcpy(p,stackPool+(deep?0:rng.below(7000)*8),n);
  asm volatile(""::"r"(p):"memory");
}
static const u64 BUDGET=300000000ull;

Outcome call(const std::function<void()>& f){
  Outcome o; Ctx c; c.out=&o; c.budget=BUDGET;
  u64 fail0=cnt.allocFailed;
  if(__fpending(stdout)) fflush(stdout);
  outPos=lseek(outFd,0,SEEK_END);
  dirtyStack(cfg.fill);
  if(sigsetjmp(c.jb,0)==0){ callNo++; ctx=&c; f(); }
  ctx=nullptr;
  cnt.steps+=o.steps;
  o.allocFailed=cnt.allocFailed>fail0;
  if(o.kind==OUT_DEATH) { cnt.deaths++; o.diag=takeOutput(o.viaExit); }
  return o;
}

static void die(bool viaExit,int code){
  if(!ctx){ _exit(code); }
  ctx->out->viaExit=viaExit; ctx->out->code=code; bail(OUT_DEATH);
}

// ------------------------------------------------------------ heap
static void* halloc(size_t n,bool zero,size_t align=16){
  cnt.allocs++;
  if(armed){ allocSeq++; if(allocSeq==failAt||(failSticky&&allocSeq>failAt)){ cnt.allocFailed++; errno=ENOMEM; return nullptr; } }
  if(n>(1ull<<30)){ errno=ENOMEM; return nullptr; }
  size_t cls=(n+15)/16*16; if(!cls) cls=16;
  u64 a=0; bool fresh=false;
  if(cfg.heapPolicy && align<=16){ auto it=freeLists->find(cls); if(it!=freeLists->end()&&!it->second.empty()){
      auto&v=it->second; if(cfg.heapPolicy==1){ a=v.back(); v.pop_back(); }
      else if(prng.chance(0.6)){ size_t i=prng.below(v.size()); a=v[i]; v[i]=v.back(); v.pop_back(); } if(a) cnt.reused++; } }
  if(!a){ fresh=true; heapTop=(heapTop+32+align-1)/align*align; a=heapTop; heapTop=a+cls+32; if(heapTop>HEAP_BASE+HEAP_SIZE-(1<<20)){ errno=ENOMEM; return nullptr; } }
  memset(hsh(a),1,n);
  if(zero) memset((void*)a,0,n); else if(cfg.fill==3){ if(fresh) memset((void*)a,0xaa,n); } else fillBytes((u8*)a,n,cfg.fill);
  (*live)[a]=n; liveBytes+=n; if(liveBytes>cnt.heapPeak) cnt.heapPeak=liveBytes;
  return (void*)a;
}
static void hfree(void*p){
  if(!p) return; u64 a=(u64)p; auto it=live->find(a);
  if(it==live->end()){ if(ctx){ ctx->out->detail="free() of a pointer that is not a live heap block"; bail(OUT_MEM);} return; }
  size_t n=it->second; live->erase(it); liveBytes-=n; cnt.frees++;
  memset(hsh(a),2,n?n:1); if(cfg.fill==2) fillBytes((u8*)a,n,2); else if(cfg.fill==1) memset(p,0xdd,n);
  size_t cls=(n+15)/16*16; if(!cls) cls=16; (*freeLists)[cls].push_back(a);
}
} // namespace env
using namespace env;

// ================================================================ seams
extern "C" {
void* sim_malloc(size_t n){ return halloc(n,false); }
void* sim_calloc(size_t a,size_t b){ if(b&&a>(size_t)-1/b){errno=ENOMEM;return 0;} return halloc(a*b,true); }
void sim_free(void*p){ hfree(p); }
void* sim_realloc(void*p,size_t n){ if(!p) return sim_malloc(n); if(!n){ hfree(p); return nullptr; } auto it=live->find((u64)p); if(it==live->end()){ if(ctx){ctx->out->detail="realloc() of a pointer that is not a live heap block"; bail(OUT_MEM);} return 0;} size_t o=it->second; void*q=sim_malloc(n); if(!q) return 0; memcpy(q,p,o<n?o:n); hfree(p); return q; }
void* sim_reallocarray(void*p,size_t a,size_t b){ if(b&&a>(size_t)-1/b){errno=ENOMEM;return 0;} return sim_realloc(p,a*b); }
int sim_posix_memalign(void**p,size_t al,size_t n){ void*q=halloc(n,false,al<16?16:al); if(!q) return ENOMEM; *p=q; return 0; }
void* sim_aligned_alloc(size_t al,size_t n){ return halloc(n,false,al<16?16:al); }
char* sim_strdup(const char*s){ size_t n=strlen(s)+1; char*p=(char*)sim_malloc(n); if(p) memcpy(p,s,n); return p; }
char* sim_strndup(const char*s,size_t m){ size_t n=strnlen(s,m); char*p=(char*)sim_malloc(n+1); if(p){memcpy(p,s,n);p[n]=0;} return p; }

void sim_abort(void){ die(false,134); abort(); }
void sim_exit(int c){ die(true,c); _exit(c); }
void sim_quick_exit(int c){ sim_exit(c); }
void sim_cfree(void*p){ sim_free(p); }
char* sim___strdup(const char*s){ return sim_strdup(s); }
void sim__exit(int);
void sim__Exit(int c){ sim__exit(c); }
void sim__exit(int c){ if(ctx){ __fpurge(stdout);} die(true,c); _exit(c); }
int sim_raise(int s){ if(s==SIGABRT||s==SIGKILL||s==SIGTERM) die(false,128+s); return raise(s); }
int sim_kill(int p,int s){ if(p==getpid()) return sim_raise(s); return kill(p,s); }
void sim_assert_fail(const char*e,const char*f,unsigned l,const char*fn){ fprintf(stderr,"%s:%u: %s: Assertion `%s' failed.\n",f,l,fn,e); die(false,134); _exit(1); }

int sim_gettimeofday(struct timeval*tv,void*){ cnt.clockReads++; if(clockFails){ cnt.clockFail++; errno=EFAULT; return -1; } 
  if(ctx&&tv) chk((u64)tv,sizeof *tv,true,"gettimeofday");
  if(tv){ i64 s=nowUs/1000000,u=nowUs%1000000; if(u<0){u+=1000000;s--;} tv->tv_sec=s; tv->tv_usec=u; } return 0; }
int sim_clock_gettime(clockid_t id,struct timespec*ts){ cnt.clockReads++; if(clockFails){ cnt.clockFail++; errno=EINVAL; return -1; }
  if(ctx&&ts) chk((u64)ts,sizeof *ts,true,"clock_gettime");
  i64 t=nowUs; if(id==CLOCK_REALTIME_COARSE) t-=((t%4000)+4000)%4000; else if(id!=CLOCK_REALTIME) t-=1699900000ll*1000000ll;   // the other clocks count from elsewhere
  i64 s=t/1000000,u=t%1000000; if(u<0){u+=1000000;s--;} ts->tv_sec=s; ts->tv_nsec=u*1000; return 0; }
int sim_timespec_get(struct timespec*ts,int b){ return sim_clock_gettime(0,ts)==0?b:0; }
time_t sim_time(time_t*t){ cnt.clockReads++; if(clockFails){cnt.clockFail++; return -1;} i64 s=nowUs/1000000; if(nowUs%1000000<0)s--; if(t)*t=s; return s; }
clock_t sim_clock(void){ return (clock_t)(nowUs-1699900000ll*1000000ll); }
int sim_gethostname(char*p,size_t n){
  cnt.hostReads++;
  if(hostMode==1){ cnt.hostFail++; errno=EPERM; return -1; }
  size_t l=hostName.size();
  if(ctx) chk((u64)p,l<n?l+1:n,true,"gethostname");
  if(l<n){ memcpy(p,hostName.data(),l); p[l]=0; return 0; }
  memcpy(p,hostName.data(),n);       // truncated and not terminated
  if(hostMode==2){ cnt.hostFail++; errno=ENAMETOOLONG; return -1; }
  return 0;
}
int sim_uname(struct utsname*u){ cnt.hostReads++; if(hostMode==1){cnt.hostFail++; errno=EFAULT; return -1;} memset(u,0,sizeof *u); strncpy(u->nodename,hostName.c_str(),sizeof u->nodename-1); return 0; }
unsigned sim_sleep(unsigned s){ cnt.sleeps++; nowUs+=(i64)s*1000000; if(ctx) step(1000); return 0; }
int sim_usleep(unsigned u){ cnt.sleeps++; nowUs+=u; if(ctx) step(1000); return 0; }
int sim_nanosleep(const struct timespec*r,struct timespec*){ cnt.sleeps++; nowUs+=r->tv_sec*1000000+r->tv_nsec/1000; if(ctx) step(1000); return 0; }
int sim_sched_yield(void){ if(ctx) step(1000); if(yieldFn&&preemptOn) yieldFn(); return 0; }
int sim_poll(void*,unsigned long,int ms){ if(ms<0){ for(;;) if(ctx) step(1000000); else return 0; } nowUs+=(i64)ms*1000; if(ctx) step(1000); return 0; }
int sim_select(int,void*,void*,void*,struct timeval*tv){ if(!tv){ for(;;) if(ctx) step(1000000); else return 0; } nowUs+=tv->tv_sec*1000000+tv->tv_usec; if(ctx) step(1000); return 0; }
int sim_pause(void){ for(;;) if(ctx) step(1000000); else return 0; }

void* sim_memcpy(void*d,const void*s,size_t n){ if(ctx&&!hooksOff&&n){ step(1+n/64); chk((u64)s,n,false,"memcpy source"); chk((u64)d,n,true,"memcpy destination"); if(preemptOn&&yieldFn&&prng.below(preemptProb)==0){cnt.preempt++;yieldFn();} } return memmove(d,s,n); }
void* sim_memmove(void*d,const void*s,size_t n){ if(ctx&&!hooksOff&&n){ step(1+n/64); chk((u64)s,n,false,"memmove source"); chk((u64)d,n,true,"memmove destination"); } return memmove(d,s,n); }
void* sim_memset(void*d,int c,size_t n){ if(ctx&&!hooksOff&&n){ step(1+n/64); chk((u64)d,n,true,"memset"); } return memset(d,c,n); }
void sim_bcopy(const void*s,void*d,size_t n){ sim_memmove(d,s,n); }
void sim_bzero(void*d,size_t n){ sim_memset(d,0,n); }
int sim_memcmp(const void*a,const void*b,size_t n){ if(ctx&&!hooksOff&&n){ step(1+n/64); chk((u64)a,n,false,"memcmp"); chk((u64)b,n,false,"memcmp"); } return memcmp(a,b,n); }
char* sim_strncpy(char*d,const char*s,size_t n){ if(ctx&&n) chk((u64)d,n,true,"strncpy"); return strncpy(d,s,n); }
char* sim_strcpy(char*d,const char*s){ if(ctx) chk((u64)d,strlen(s)+1,true,"strcpy"); return strcpy(d,s); }
char* sim_stpcpy(char*d,const char*s){ sim_strcpy(d,s); return d+strlen(d); }
char* sim_strcat(char*d,const char*s){ if(ctx) chk((u64)(d+strlen(d)),strlen(s)+1,true,"strcat"); return strcat(d,s); }
char* sim_strncat(char*d,const char*s,size_t n){ if(ctx) chk((u64)(d+strlen(d)),strnlen(s,n)+1,true,"strncat"); return strncat(d,s,n); }
size_t sim_strlen(const char*s){ size_t n=strlen(s); if(ctx) chk((u64)s,n+1,false,"strlen"); return n; }
int sim_vsnprintf(char*d,size_t n,const char*f,va_list a){ va_list b; va_copy(b,a); int l=vsnprintf(nullptr,0,f,b); va_end(b); size_t w=l<0?0:(size_t)l+1<n?(size_t)l+1:n; if(ctx&&w) chk((u64)d,w,true,"printf to a string"); return vsnprintf(d,n,f,a); }
int sim_snprintf(char*d,size_t n,const char*f,...){ va_list a; va_start(a,f); int l=sim_vsnprintf(d,n,f,a); va_end(a); return l; }
int sim_vsprintf(char*d,const char*f,va_list a){ return sim_vsnprintf(d,1u<<30,f,a); }
int sim_sprintf(char*d,const char*f,...){ va_list a; va_start(a,f); int l=sim_vsnprintf(d,1u<<30,f,a); va_end(a); return l; }
int sim_vasprintf(char**p,const char*f,va_list a){ va_list b; va_copy(b,a); int l=vsnprintf(nullptr,0,f,b); va_end(b); if(l<0||!(*p=(char*)sim_malloc(l+1))) return -1; return vsnprintf(*p,l+1,f,a); }
int sim_asprintf(char**p,const char*f,...){ va_list a; va_start(a,f); int l=sim_vasprintf(p,f,a); va_end(a); return l; }
void sim_stack_chk_fail(void){ if(ctx){ ctx->out->detail="a local array was overrun (stack protector)"; bail(OUT_MEM); } abort(); }
void* sim_memcpy_chk(void*d,const void*s,size_t n,size_t){ return sim_memcpy(d,s,n); }

// mutexes: meaningful only with simulated threads
int sim_mutex_lock(pthread_mutex_t*);
int sim_mutex_trylock(pthread_mutex_t*);
int sim_mutex_unlock(pthread_mutex_t*);

// ---------------------------------------------------------------- compiler instrumentation
void __tsan_init(void){}
void __tsan_func_entry(void*){ if(ctx&&!hooksOff){ step(1); funcs->insert((u64)__builtin_return_address(0)); } }
void __tsan_func_exit(void){}
#define RW(n) void __tsan_read##n(void*a){hook((u64)a,n,false);} void __tsan_write##n(void*a){hook((u64)a,n,true);} \
  void __tsan_volatile_read##n(void*a){hook((u64)a,n,false);} void __tsan_volatile_write##n(void*a){hook((u64)a,n,true);}
RW(1) RW(2) RW(4) RW(8) RW(16)
#define URW(n) void __tsan_unaligned_read##n(void*a){hook((u64)a,n,false);} void __tsan_unaligned_write##n(void*a){hook((u64)a,n,true);}
URW(2) URW(4) URW(8) URW(16)
void __tsan_read_range(void*a,unsigned long n){ if(n) hook((u64)a,n,false);} 
void __tsan_write_range(void*a,unsigned long n){ if(n) hook((u64)a,n,true);} 
void __tsan_vptr_update(void**a,void*){ hook((u64)a,8,true); }
void __tsan_vptr_read(void**a){ hook((u64)a,8,false); }
typedef unsigned __int128 u128t;
#define AT(bits,T) \
 T __tsan_atomic##bits##_load(const volatile T*a,int){ hook((u64)a,sizeof(T),false); return *a; } \
 void __tsan_atomic##bits##_store(volatile T*a,T v,int){ hook((u64)a,sizeof(T),true); *a=v; } \
 T __tsan_atomic##bits##_exchange(volatile T*a,T v,int){ hook((u64)a,sizeof(T),true); T o=*a; *a=v; return o; } \
 T __tsan_atomic##bits##_fetch_add(volatile T*a,T v,int){ hook((u64)a,sizeof(T),true); T o=*a; *a=o+v; return o; } \
 T __tsan_atomic##bits##_fetch_sub(volatile T*a,T v,int){ hook((u64)a,sizeof(T),true); T o=*a; *a=o-v; return o; } \
 T __tsan_atomic##bits##_fetch_and(volatile T*a,T v,int){ hook((u64)a,sizeof(T),true); T o=*a; *a=o&v; return o; } \
 T __tsan_atomic##bits##_fetch_or(volatile T*a,T v,int){ hook((u64)a,sizeof(T),true); T o=*a; *a=o|v; return o; } \
 T __tsan_atomic##bits##_fetch_xor(volatile T*a,T v,int){ hook((u64)a,sizeof(T),true); T o=*a; *a=o^v; return o; } \
 T __tsan_atomic##bits##_fetch_nand(volatile T*a,T v,int){ hook((u64)a,sizeof(T),true); T o=*a; *a=~(o&v); return o; } \
 int __tsan_atomic##bits##_compare_exchange_strong(volatile T*a,T*c,T v,int,int){ hook((u64)a,sizeof(T),true); if(*a==*c){*a=v;return 1;} *c=*a; return 0; } \
 int __tsan_atomic##bits##_compare_exchange_weak(volatile T*a,T*c,T v,int x,int y){ return __tsan_atomic##bits##_compare_exchange_strong(a,c,v,x,y); } \
 T __tsan_atomic##bits##_compare_exchange_val(volatile T*a,T c,T v,int,int){ hook((u64)a,sizeof(T),true); T o=*a; if(o==c)*a=v; return o; }
AT(8,u8) AT(16,unsigned short) AT(32,unsigned) AT(64,u64)
void __tsan_atomic_thread_fence(int){} 
void __tsan_atomic_signal_fence(int){} 
}
