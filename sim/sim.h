// Operations, the reference model, and the lockstep executor.
#pragma once
#include "env.h"
#include <map>
#include <set>
#include <list>
#include <deque>
#include <memory>

#ifdef CONFIG_FORT_REAL          // the build options that choose the sizes of the Fortran types
const int FR=CONFIG_FORT_REAL;
#else
const int FR=4;
#endif
#ifdef CONFIG_FORT_DOUBLE
const int FD=CONFIG_FORT_DOUBLE;
#else
const int FD=8;
#endif
#define OPS(X) \
 X(INIT) X(FINALIZE) X(ABORT) X(INITQ) \
 X(CDUP) X(CSPLIT) X(CCREATE) X(CFREE) X(CSIZE) X(CGROUP) X(CART) X(CARTGET) X(CARTCOORDS) X(DIMS) X(ICREATE) X(IMERGE) \
 X(GINCL) X(GRANGE) X(GSET) X(GTRANS) X(GFREE) \
 X(TCONTIG) X(TVECTOR) X(THVEC) X(TINDEXED) X(THINDEXED) X(TIBLOCK) X(TSTRUCT) X(TDUP) X(TBIG) X(TCOMMIT) X(TFREE) X(TQUERY) \
 X(ISEND) X(SEND) X(IRECV) X(RECV) X(SENDRECV) X(IPROBE) X(PROBE) \
 X(TEST) X(WAIT) X(TESTANY) X(WAITANY) X(TESTALL) X(WAITALL) X(TESTSOME) X(WAITSOME) X(REQFREE) \
 X(PKNEW) X(PKSIZE) X(PACK) X(UNPACK) X(PKSEND) X(PKRECV) \
 X(COLL) X(OPCREATE) \
 X(WTIME) X(CLOCK) X(CLOCKFAIL) X(HOST) X(PROCNAME) X(ERRSTR) X(LIBVER) X(MISC) \
 X(ALLOCFAIL) X(DIE) X(FILL) X(MARK) X(MASS) X(MT) X(CONV) X(FCONST) X(INITSKEW) X(GIANT)
enum OpK {
#define X(n) O_##n,
OPS(X)
#undef X
O_COUNT };
extern const char* opName[];
int opByName(const std::string&);

struct Op { int k=0; int task=0; i64 t=0; int f=0; std::vector<i64> a; std::string str() const; };
struct Trace { std::string profile; u64 seed=0; EnvCfg env; std::vector<Op> ops; std::string str() const; bool parse(const std::string&); };

// ------------------------------------------------------------------ model
struct TypeM {
  std::vector<std::pair<i64,int>> map;     // displacement, basic type index
  i64 lb=0,ub=0,size=0,extent=0; bool olb=false,oub=false,committed=false; int predef=0; int fam=0;
  i64 mult=1;                              // how many signature units of its family
  void finish();
  i64 lo() const; i64 hi() const;
};
typedef std::shared_ptr<TypeM> TypeP;
int basicLen(int b);
TypeP predefType(int handle);              // null if not usable
std::vector<int> allPredef();
bool sigOK(const TypeM&a,i64 an,const TypeM&b,i64 bn);      // same basic types in the same order, as far as both go
extern bool strictTypes;                                   // built with --enable-type-checking: MPI_BYTE matches itself only
bool overlapFree(const TypeM&t,i64 n);
const i64 GIANT_BYTES=100000; bool isGiant(const TypeM&t,i64 n);   // too many elements to exist here in full
TypeP mkStruct(const std::vector<i64>&bl,const std::vector<i64>&disp,const std::vector<TypeP>&ty);

struct Seg { u64 a; std::vector<u8> e; };
struct Buf { std::vector<Seg> segs; u64 base=0; bool dontcare=false; bool retired=false; std::vector<std::pair<u64,u64>> regions; i64 lo=0,hi=0; size_t idx=0; };
typedef std::shared_ptr<Buf> BufP;

enum { R_NONE, R_PENDING, R_DONE, R_NULL };
struct ReqM { bool send=false; int comm=-1; u64 cuid=0; int tag=0; int state=R_NONE; BufP buf; TypeP ty; i64 count=0; int src=0,rtag=0; i64 nbytes=0; bool pnull=false,freed=false,orphan=false; u64 cell=0; int handle=0; int task=0; int pb=-1; u64 seq=0; i64 msgLen=0; int peer=-1; bool bottom=false; };
struct CommM { int handle=0; u64 uid=0; std::list<int> sends,recvs; int fam=0; u64 cell=0; int ndims=0; std::vector<i64> periods; };
struct TypeSlot { TypeP m; int handle=0; u64 cell=0; };
struct GroupM { int val=0; u64 cell=0; };   // 1 one, -1 empty
struct PackM { BufP buf; i64 size=0,wpos=0,rpos=0; int fam=-1; int pend=0; bool filled=false; };

struct Violation { std::string cat,msg; int op=-1; bool set() const { return !cat.empty(); } };

enum StepR { S_ILLEGAL, S_OK, S_END, S_VIOL };

struct SimStats { u64 ops=0,lib=0,matched=0,delivered=0,bytes=0,lethal=0,faultDeaths=0,fortran=0,skipped=0; u64 maxPendS=0,maxPendR=0,maxLive=0; u64 opHist[O_COUNT]={0}; i64 simUs=0; u64 ignored=0; u64 truncated=0,shortMsg=0; u64 probes[32]={0}; };

struct Sim {
  bool dry; bool verbose=false;
  std::function<bool(const Violation&,const Op&)> relevant;   // is this violation one the check is about?
  Violation viol; std::string endText;
  SimStats st; u64 logh=1469598103934665603ull; u64 stateh=0; std::string logText;
  std::vector<u64> stateHashes;
  int curIdx=0; const Op* cur=nullptr;

  bool inited=false, finalized=false; bool everInit=false; bool dead=false; bool mayEnd=false;
  std::map<int,CommM> comms; std::map<int,TypeSlot> types; std::map<int,GroupM> groups; std::map<int,ReqM> reqs; std::map<int,PackM> packs;
  std::set<int> deadTasks;
  u64 nextUid=1, seq=0;
  std::vector<BufP> live;
  int grantedThread=-1;
  i64 clockUs=1700000000ll*1000000ll; bool clockBad=false; int hostMode=0; std::string hostName="simhost";
  i64 liveHandles=0; StepR ended=S_OK;

  explicit Sim(bool dry_);
  StepR step(const Op&);
  void finalChecks();

  // helpers
  TypeP typeOf(i64 ref) const; int typeHandle(i64 ref) const;
  int findSend(const CommM&,int tag) const; int findRecv(const CommM&,int tag) const;
 private:
  friend struct Lib;
  bool fail(const char*cat,const std::string&msg);   // returns true if execution must stop
  StepR doStep(const Op&);
  // buffers
  BufP mkBuf(TypeP t,i64 n,u64 seed,int perm,int flags);
  std::vector<u8> gather(const Buf&,const TypeM&,i64 n,i64 maxBytes=-1) const;
  void scatter(Buf&,const TypeM&,i64 n,const std::vector<u8>&bytes);
  u8* expAt(Buf&,u64 a) const; 
  bool checkBuf(const Buf&,const char*cat,const char*what);
  bool checkAll(bool full);
  void retire(BufP);
  size_t rot=0;
  // library call
  enum { RUN_OK, RUN_STOP };
  int invoke(const std::function<void()>&f,bool mustDie,const char*what);
  // scratch argument memory
  u64 scrTop=0; std::vector<std::pair<u64,size_t>> scrBig;
  u64 scr(size_t n,int perm); void scrReset();
  int* inI(i64 v); int* outI(int v=0x5a5a5a5a); long* inL(i64 v); long* outL(); 
  int* inA(const std::vector<i64>&v); int* ioA(const std::vector<int>&v); long* inLA(const std::vector<i64>&v); int* outA(size_t n);
  int* ierr(); int* lastIerr=nullptr; int rc=0;
  bool checkRc(int f);
  void match(int s,int r,bool sendNow);
  void complete_(int id);
  bool statusCheck(const int*st,int reqId,bool isNull,const Op&,u64 salt);
  bool countCheck(const int*st,i64 nbytes,TypeP own,int ownHandle,const Op&,u64 salt,const char*what);
  bool observe(int id,const Op&);
  int ownHandleFor(const ReqM&);
  void logI(i64 v){ logh=fnv(logh,&v,8); }
  StepR p2p(const Op&); StepR completion(const Op&); StepR commOps(const Op&); StepR typeOps(const Op&); StepR packOps(const Op&); StepR collOps(const Op&); StepR miscOps(const Op&); StepR massOps(const Op&); StepR mtOps(const Op&); StepR giantOps(const Op&);
  int postSend(int id,const Op&,bool&ok);
  bool newHandle(const char*kind,int h);
  int typeHandleSel(i64 ref) const { return typeHandle(ref); }
 public:
  std::vector<std::pair<u64,u64>> epochs;
  void purge();
  i64 population() const;
  std::map<int,int> hset[3];
  void dropH(int kind,int h){ auto it=hset[kind].find(h); if(it!=hset[kind].end()) hset[kind].erase(it); }
};
