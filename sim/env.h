// The simulated environment: memory, clock, host name, process end, threads.
// Everything the library can observe besides its arguments comes from here.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <setjmp.h>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint8_t u8;

struct Rng {                      // xoshiro256**
  u64 s[4];
  static u64 mix(u64 &x){ u64 z=(x+=0x9e3779b97f4a7c15ull); z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31);}
  explicit Rng(u64 seed=1){ for(auto&x:s) x=mix(seed); }
  u64 next(){ auto rotl=[](u64 x,int k){return (x<<k)|(x>>(64-k));}; u64 r=rotl(s[1]*5,7)*9,t=s[1]<<17; s[2]^=s[0];s[3]^=s[1];s[1]^=s[2];s[0]^=s[3];s[2]^=t;s[3]=rotl(s[3],45);return r; }
  u64 below(u64 n){ return n? next()%n:0; }
  i64 range(i64 a,i64 b){ return a+(i64)below((u64)(b-a)+1); }
  bool chance(double p){ return (next()>>11)*(1.0/9007199254740992.0) < p; }
};
inline u64 fnv(u64 h,const void*p,size_t n){ const u8*b=(const u8*)p; for(size_t i=0;i<n;i++){h^=b[i];h*=1099511628211ull;} return h; }
inline u64 hash2(u64 a,u64 b){ u64 x=a*0x9e3779b97f4a7c15ull+b; return Rng::mix(x); }

// ---------------------------------------------------------------- settings
struct EnvCfg {
  int   heapPolicy=0;      // 0 never reuse, 1 reuse most recently freed first, 2 random reuse
  int   fill=0;            // fresh heap/stack bytes: 0 zero, 1 0xff, 2 random, 3 0xaa/stale, 4 small ints
  u64   seed=1;
  i64   failAt=0;          // fail the failAt-th allocation (1-based) counted from arming; 0 = never
  int   failSticky=0;      // all later ones fail too
  int   threads=0;         // run each component in its own (baton-passing) thread
  int   reuseUser=0;       // user memory is reused
  int   variant=0;
  std::string str() const;
};

// ---------------------------------------------------------------- arenas
const u64 HEAP_BASE =0x200000000000ull, HEAP_SIZE =2ull<<30, HEAP_SH=0x210000000000ull;
const u64 USER_BASE =0x300000000000ull, NEAR_SIZE =2ull<<30, FAR_SIZE=40ull<<30, USER_SIZE=NEAR_SIZE+FAR_SIZE, USER_SH=0x310000000000ull;

enum { PERM_NONE=0, PERM_R=1, PERM_RW=3 };

// ---------------------------------------------------------------- outcome of a library call
enum OutKind { OUT_RET=0, OUT_DEATH=1, OUT_MEM=2, OUT_HANG=3, OUT_CRASH=4 };
struct Outcome {
  OutKind kind=OUT_RET;
  bool viaExit=false; int code=0;      // death: exit(code) or abort
  std::string diag;                    // what it printed (death)
  std::string detail;                  // MEM/CRASH text
  bool allocFailed=false;              // an allocation was failed during the call
  u64 steps=0;
};

struct Counters {                      // measured per run
  u64 steps=0, allocs=0, frees=0, allocFailed=0, hostFail=0, clockFail=0, clockJump=0, clockReads=0, hostReads=0, deaths=0,
      reused=0, preempt=0, ctxsw=0, sleeps=0, mutex=0, heapPeak=0;
};

namespace env {
  void mapArenas();                    // once, in the parent
  void initRun(const EnvCfg&);         // in the child, before the run
  extern EnvCfg cfg;
  extern Counters cnt;
  // library-call bracket
  Outcome call(const std::function<void()>& f);
  void hang(const char*why);           // the running library call can never return
  bool inCall();
  // heap facts
  u64 liveHeap(); u64 liveBlocks();
  void armAlloc(i64 at,int sticky);
  // user memory
  u64 ualloc(size_t n,int perm);       // returns address with 64-byte inaccessible guards both sides
  u64 ufar(u64 span);                  // reserve address space only (all inaccessible)
  void guardMarkers(void*a,size_t n);   // nothing may be read or written there
  void ufree(u64 a,size_t n);
  void perm(u64 a,size_t n,int p);
  // clock (microseconds of simulated wall clock) and host
  extern i64 nowUs; extern bool clockFails;
  extern int hostMode; extern std::string hostName;
  // text written by the library since the last call of takeOutput
  std::string takeOutput(bool flushed);
  bool covered(u64 **bits,size_t *n);
  extern bool preemptOn; extern u64 preemptProb; // 1/prob
  extern void (*yieldFn)();
  extern std::vector<u64>* funcSeen;
  u64 funcsEntered(); void markFuncs(u8*bits);
}
