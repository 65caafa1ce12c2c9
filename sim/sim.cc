// The lockstep executor: performs each operation on the model and, unless dry,
// on the real library, and compares everything the caller can see.
#include "sim.h"
#include "capi.h"
#include "threads.h"
#include <algorithm>
#include <sstream>
#include <stdarg.h>
#include <limits.h>
#include <stdio.h>
#pragma weak MPI_Type_dup

static std::string fmt(const char*f,...){ char b[1200]; va_list ap; va_start(ap,f); vsnprintf(b,sizeof b,f,ap); va_end(ap); return b; }
static const u64 SCR_SIZE=1u<<16;
static const int SS=sizeof(MPI_Status)/4;      // ints in a status, which is also the Fortran MPI_STATUS_SIZE

Sim::Sim(bool d):dry(d){ if(!dry){ scrTop=0; env::guardMarkers(mpiserial_,sizeof(int)*(2*SS+1)); } }

bool Sim::fail(const char*cat,const std::string&msg){
  Violation v; v.cat=cat; v.msg=msg; v.op=curIdx;
  if(relevant && !relevant(v,*cur)){ st.ignored++; logI((i64)fnv(7,cat,strlen(cat))); if(verbose) logText+="    (ignored "+v.cat+": "+msg+")\n"; return false; }
  if(!viol.set()) viol=v;
  return true;
}
#define FAIL(cat,...) do{ if(fail(cat,fmt(__VA_ARGS__))) return S_VIOL; }while(0)
#define FAILB(cat,...) do{ if(fail(cat,fmt(__VA_ARGS__))) return false; }while(0)

// ---------------------------------------------------------------- argument memory
static thread_local int dummy;
u64 Sim::scr(size_t n,int p){
  static u64 base=0; if(!base) base=USER_BASE+(1u<<16);   // below the user heap
  size_t need=(n+16+15)/16*16;
  if(n>8192||scrTop+need>SCR_SIZE*8){ u64 a=env::ualloc(n,p); scrBig.push_back({a,n}); return a; }
  u64 a=base+16+scrTop; scrTop+=need; env::perm(a,n,p); return a;
}
void Sim::scrReset(){ u64 base=USER_BASE+(1u<<16); env::perm(base,scrTop+32,PERM_NONE); scrTop=0; for(auto&x:scrBig) env::ufree(x.first,x.second); scrBig.clear(); lastIerr=nullptr; rc=0; }
int* Sim::inI(i64 v){ int*p=(int*)scr(4,PERM_R); *p=(int)v; return p; }
int* Sim::outI(int v){ int*p=(int*)scr(4,PERM_RW); *p=v; return p; }
long* Sim::inL(i64 v){ long*p=(long*)scr(8,PERM_R); *p=v; return p; }
long* Sim::outL(){ long*p=(long*)scr(8,PERM_RW); *p=0x5a5a5a5a5a5a5a5al; return p; }
int* Sim::inA(const std::vector<i64>&v){ int*p=(int*)scr(v.size()*4,PERM_R); for(size_t i=0;i<v.size();i++) p[i]=(int)v[i]; return p; }
long* Sim::inLA(const std::vector<i64>&v){ long*p=(long*)scr(v.size()*8,PERM_R); for(size_t i=0;i<v.size();i++) p[i]=v[i]; return p; }
int* Sim::ioA(const std::vector<int>&v){ int*p=(int*)scr(v.size()*4,PERM_RW); for(size_t i=0;i<v.size();i++) p[i]=v[i]; return p; }
int* Sim::outA(size_t n){ int*p=(int*)scr(n*4,PERM_RW); for(size_t i=0;i<n;i++) p[i]=0x5a5a5a5a; return p; }
int* Sim::ierr(){ lastIerr=outI(0x7b7b7b7b); return lastIerr; }
bool Sim::checkRc(int f){
  int v=f?(lastIerr?*lastIerr:MPI_SUCCESS):rc;
  logI(v); if(f&&lastIerr) *lastIerr=0x7b7b7b7b; else if(!f) rc=0x7b7b7b7b;
  if(v!=MPI_SUCCESS) FAILB("RETCODE","%s binding returned %s %d, expected MPI_SUCCESS",f?"Fortran":"C",f?"ierror":"code",v);
  return true;
}

// ---------------------------------------------------------------- library call
int Sim::invoke(const std::function<void()>&f,bool mustDie,const char*what){
  st.lib++; if(cur->f) st.fortran++;
  Outcome o=threads::run(cur->task,f);
  logI(o.kind); 
  if(o.kind==OUT_DEATH){ logI(o.viaExit?o.code:-1); }
  if(verbose){ static const char*k[]={"returned","died","bad memory access","hang","crash"}; logText+=fmt("    %s: %s%s%s%s\n",what,k[o.kind],o.kind==OUT_DEATH?fmt(" (%s %d) said \"%s\"",o.viaExit?"exit":"abort",o.code,o.diag.c_str()).c_str():"",o.detail.empty()?"":" - ",o.detail.c_str()); }
  switch(o.kind){
    case OUT_MEM: fail("MEM",std::string(what)+": "+o.detail); ended=S_VIOL; dead=true; return RUN_STOP;
    case OUT_HANG: fail("HANG",std::string(what)+": "+o.detail); ended=S_VIOL; dead=true; return RUN_STOP;
    case OUT_CRASH: fail(o.allocFailed?"CRASH_OOM":"CRASH",std::string(what)+": "+o.detail+(o.allocFailed?" after an allocation failed":"")); ended=S_VIOL; dead=true; return RUN_STOP;
    case OUT_DEATH: {
      dead=true; ended=S_END;
      bool faulty=o.allocFailed, full=liveHandles>=262000;
      if(!mustDie && !faulty && !mayEnd && !full){ fail("DEATH_UNEXPECTED",fmt("%s: the library terminated the program (%s %d, \"%s\") although the call can complete",what,o.viaExit?"exit":"abort",o.code,o.diag.c_str())); ended=S_VIOL; return RUN_STOP; }
      if(faulty) st.faultDeaths++; else st.lethal++;
      if(o.viaExit && (o.code&0xff)==0){ if(fail("DEATH_SILENT",fmt("%s: terminated with a success exit code",what))){ ended=S_VIOL; return RUN_STOP; } }
      if(o.diag.find_first_not_of(" \n\t")==std::string::npos){ if(fail("DEATH_SILENT",fmt("%s: terminated (%s) without any diagnostic reaching stdout or stderr",what,o.viaExit?"exit":"abort"))){ ended=S_VIOL; return RUN_STOP; } }
      if(!faulty&&!checkAll(true)) ended=S_VIOL;
      endText=std::string(what)+(faulty?": stopped after allocation failure":mustDie?": stopped as it must":": stopped");
      return RUN_STOP; }
    case OUT_RET: break;
  }
  if(mustDie){ dead=true; ended=S_VIOL; if(!fail("DEATH_MISSING",fmt("%s returned although it can never complete or must be rejected",what))) ended=S_END; return RUN_STOP; }
  return RUN_OK;
}

// ---------------------------------------------------------------- buffers
bool Sim::checkBuf(const Buf&b,const char*cat,const char*what){
  for(auto&s:b.segs) if(memcmp((void*)s.a,s.e.data(),s.e.size())!=0){
    size_t i=0; const u8*m=(const u8*)s.a; while(m[i]==s.e[i]) i++;
    size_t j=i; size_t bad=0; for(;j<s.e.size();j++) if(m[j]!=s.e[j]) bad++;
    i64 off=(i64)(s.a+i-b.base);
    if(fail(cat,fmt("%s: byte at offset %lld is %02x, expected %02x (%zu bytes differ)",what,(long long)off,m[i],s.e[i],bad))) return false;
    const_cast<Seg&>(s).e.assign(m,m+s.e.size());   // resynchronise
  }
  return true;
}
bool Sim::checkAll(bool full){
  if(dry) return true;
  size_t n=live.size(); size_t lim=full?n:std::min<size_t>(n,48);
  for(size_t k=0;k<lim;k++){ size_t i=full?k:(rot+k)%n; auto&b=live[i]; if(b->dontcare) continue; if(!checkBuf(*b,"BUF_INTEGRITY","a buffer not involved (or not to be changed) was modified")) return false; }
  if(!full&&n) rot=(rot+lim)%n;
  return true;
}
void Sim::retire(BufP b){
  if(dry||!b||b->retired) return; b->retired=true;
  for(auto&r:b->regions){ if(r.first<USER_BASE+NEAR_SIZE) env::ufree(r.first,r.second); else env::perm(r.first,r.second,PERM_NONE); }
  if(b->regions.size()&&b->segs.size()==1){ Seg&s=b->segs[0]; memset((void*)s.a,0xEE,s.e.size()); }   // the owner reuses its memory
  if(b->idx<live.size()&&live[b->idx]==b){ live[b->idx]=live.back(); live[b->idx]->idx=b->idx; live.pop_back(); }
}

// ---------------------------------------------------------------- queries on the model
static TypeP markerType(int h){ static TypeP l,u; TypeP&t=(h==MPI_LB?l:u); if(!t){ t=std::make_shared<TypeM>(); t->predef=h; t->committed=true; } return t; }
TypeP Sim::typeOf(i64 r) const { if(r<0){ if(r==MPI_LB||r==MPI_UB) return markerType((int)r); return predefType((int)r);} auto it=types.find((int)r); return it==types.end()?nullptr:it->second.m; }
int Sim::typeHandle(i64 r) const { if(r<0) return (int)r; auto it=types.find((int)r); return it==types.end()?0:it->second.handle; }
int Sim::findSend(const CommM&c,int tag) const { for(int id:c.sends){ auto&r=reqs.at(id); if(tag==MPI_ANY_TAG||tag==r.tag) return id; } return -1; }
int Sim::findRecv(const CommM&c,int tag) const { for(int id:c.recvs){ auto&r=reqs.at(id); if(r.tag==MPI_ANY_TAG||r.tag==tag) return id; } return -1; }

void Sim::match(int s,int r,bool){
  ReqM&S=reqs[s]; ReqM&R=reqs[r]; CommM&C=comms[S.comm];
  { auto a=std::find(C.sends.begin(),C.sends.end(),s); if(a!=C.sends.end()) C.sends.erase(a); auto b=std::find(C.recvs.begin(),C.recvs.end(),r); if(b!=C.recvs.end()) C.recvs.erase(b); }
  S.state=R_DONE; R.state=R_DONE; S.peer=r; R.peer=s;
  R.src=0; R.rtag=S.tag; i64 sl=S.count*S.ty->size, rl=R.count*R.ty->size;
  R.msgLen=sl; R.nbytes=std::min(sl,rl); st.matched++;
  if(sl<rl) st.shortMsg++; if(sl>rl) st.truncated++;
  st.bytes+=R.nbytes;
  if(!dry && R.buf && S.buf){ auto by=gather(*S.buf,*S.ty,S.count,R.nbytes); scatter(*R.buf,*R.ty,R.count,by); R.buf->dontcare=true; }
}
void Sim::complete_(int id){   // the caller has learned that this operation is complete
  ReqM&r=reqs[id]; r.state=R_NULL; liveHandles--;
  if(r.pb>=0){ packs[r.pb].pend--; if(!r.send){ packs[r.pb].wpos=r.nbytes; packs[r.pb].rpos=0; packs[r.pb].filled=true; } if(r.buf&&!dry) r.buf->dontcare=false; }
  st.delivered++;
}
// verify data of a completed operation and give its memory back
bool Sim::observe(int id,const Op&){
  ReqM&r=reqs[id];
  if(!dry && r.buf){
    r.buf->dontcare=false;
    bool ok = r.send? checkBuf(*r.buf,"BUF_INTEGRITY","the send buffer was modified") : checkBuf(*r.buf,"PAYLOAD","receive buffer after completion");
    if(!ok) return false;
  }
  BufP b=r.buf; int pb=r.pb; int peer=r.peer;
  complete_(id);
  if(pb<0) retire(b);
  reqs[id].buf=nullptr;
  if(peer>=0){ auto it=reqs.find(peer); if(it!=reqs.end() && it->second.freed && it->second.state==R_DONE){ ReqM&q=it->second; if(!dry&&q.buf){ q.buf->dontcare=false; if(!checkBuf(*q.buf,q.send?"BUF_INTEGRITY":"PAYLOAD","buffer of an operation whose request was freed while active")) return false; }
      BufP qb=q.buf; complete_(peer); if(reqs[peer].pb<0) retire(qb); reqs[peer].buf=nullptr; } }
  return true;
}

bool Sim::newHandle(const char*kind,int h){
  logI(h!=0);
  if(h==0||h==0x5a5a5a5a){ FAILB("HANDLE","%s handle returned is %d (null or not set)",kind,h); return true; }
  int k=kind[0]=='r'?0:kind[0]=='c'?1:2;
  if(k==1&&h<0) FAILB("HANDLE","communicator handle %d",h);
  if(k==2&&h<0) FAILB("HANDLE","derived datatype handle %d collides with the predefined ones",h);
  if(k==1&&(h==MPI_COMM_WORLD)) FAILB("HANDLE","new communicator handle %d is MPI_COMM_WORLD",h);
  if(!hset[k].insert({h,1}).second) FAILB("HANDLE","%s handle %d is already in use by another live %s",kind,h,kind);
  return true;
}

// ---------------------------------------------------------------- statuses
int Sim::ownHandleFor(const ReqM&r){ for(auto&p:types) if(p.second.m==r.ty) return p.second.handle; if(r.ty&&r.ty->predef) return r.ty->predef; return 0; }

static i64 elemsIn(const TypeM&t,i64 bytes,bool&exact){
  exact=true; if(t.size==0||t.map.empty()){ exact=(bytes==0); return 0; }
  i64 n=bytes/t.size*(i64)t.map.size(), rem=bytes%t.size; for(auto&p:t.map){ if(rem<=0) break; rem-=basicLen(p.second); n++; } if(rem!=0) exact=false; return n;
}
bool Sim::countCheck(const int*stt,i64 nbytes,TypeP own,int h,const Op&op,u64 salt,const char*what){
  // query the count with the message's own datatype and, alternately, another one
  int vals[SS]; memcpy(vals,stt,sizeof vals);
  for(int q=0;q<2;q++){
    TypeP t=own; int hh=h; 
    u64 m=hash2(salt,q)%4;
    if(!t||!hh||(q==1&&(m&1))){ t=predefType(MPI_BYTE); hh=MPI_BYTE; }
    else if(q==1&&m==2&&!types.empty()){ size_t k=hash2(salt,9)%types.size(); auto it=types.begin(); std::advance(it,k); if(it->second.m){ t=it->second.m; hh=it->second.handle; } }
    bool el=(q==1)&&(hash2(salt,5)&1);
    bool f=(hash2(salt,q+11)&1)&&op.f;
    MPI_Status*s=(MPI_Status*)scr(sizeof(MPI_Status),PERM_R); memcpy((void*)s,vals,sizeof *s);
    int*cnt=outI(); int*ie=nullptr; int r=0;
    if(el){ if(f){ int*d=inI(hh); ie=outI(0x7b7b7b7b); if(invoke([&]{ mpi_get_elements_((int*)s,d,cnt,ie); },false,"get_elements(F)")!=RUN_OK) return false; r=*ie; } else if(invoke([&]{ r=MPI_Get_elements(s,hh,cnt); },false,"MPI_Get_elements")!=RUN_OK) return false; }
    else  { if(f){ int*d=inI(hh); ie=outI(0x7b7b7b7b); if(invoke([&]{ mpi_get_count_((int*)s,d,cnt,ie); },false,"get_count(F)")!=RUN_OK) return false; r=*ie; } else if(invoke([&]{ r=MPI_Get_count(s,hh,cnt); },false,"MPI_Get_count")!=RUN_OK) return false; }
    if(r!=MPI_SUCCESS) FAILB("RETCODE","count query returned %d",r);
    i64 want; bool skip=false;
    if(el){ bool ex; want=elemsIn(*t,nbytes,ex); if(!ex) skip=true; }
    else if(t->size==0){ want=0; if(nbytes!=0) skip=true; }
    else want=(nbytes%t->size==0)?nbytes/t->size:MPI_UNDEFINED;
    if(want>INT_MAX) want=MPI_UNDEFINED;                 // more than the count argument can say
    logI(skip?-77:*cnt);
    if(!skip && *cnt!=(int)want) FAILB("STATUS_COUNT","%s: %s says %d, the message delivered %lld bytes = %lld of that datatype (size %lld)",what,el?"MPI_Get_elements":"MPI_Get_count",*cnt,(long long)nbytes,(long long)want,(long long)t->size);
  }
  return true;
}
// status of a request whose completion was just reported (before observe())
bool Sim::statusCheck(const int*s,int id,bool isNull,const Op&op,u64 salt){
  if(isNull){
    logI(s[0]); logI(s[1]);
    if(s[0]!=MPI_ANY_SOURCE||s[1]!=MPI_ANY_TAG) FAILB("STATUS_ENV","status of a null request: source %d tag %d, expected MPI_ANY_SOURCE, MPI_ANY_TAG",s[0],s[1]);
    return countCheck(s,0,predefType(MPI_INT),MPI_INT,op,salt,"null request");
  }
  ReqM&r=reqs[id];
  if(r.send){ logI(s[0]); logI(s[1]); return true; }   // not defined by MPI, but not random either
  logI(s[0]); logI(s[1]);
  int ws=r.pnull?MPI_PROC_NULL:0, wt=r.pnull?MPI_ANY_TAG:r.rtag;
  if(s[0]!=ws||s[1]!=wt) FAILB("STATUS_ENV","status of completed receive: source %d tag %d, expected source %d tag %d",s[0],s[1],ws,wt);
  return countCheck(s,r.pnull?0:r.nbytes,r.ty,ownHandleFor(r),op,salt,r.pnull?"receive from MPI_PROC_NULL":"completed receive");
}

// ---------------------------------------------------------------- step
StepR Sim::step(const Op&op){
  cur=&op; ended=S_OK; if(!dry) scrReset();
  if(dead) return S_END;
  StepR r=doStep(op);
  if(ended!=S_OK && r!=S_ILLEGAL) r=ended;
  if(r==S_ILLEGAL){ st.skipped++; return r; }
  st.ops++; st.opHist[op.k]++; if(op.t>st.simUs) st.simUs=op.t;
  logI(op.k); logI(r);
  if(r==S_OK && !dry && !viol.set()){ if(!checkAll(false)) r=S_VIOL; }
  if(viol.set()) r=S_VIOL;
  if(r==S_END) dead=true;
  if(!dry){ u64 h=1; int nc=0; for(auto&c:comms){ if(++nc>48) break; h=hash2(h,c.first); int k=0; for(int id:c.second.sends){ h=hash2(h,reqs[id].tag*2+1); if(++k>40) break; } h=hash2(h,999); k=0; for(int id:c.second.recvs){ h=hash2(h,(u64)(i64)reqs[id].tag*2); if(++k>40) break; } }
    h=hash2(h,types.size()); h=hash2(h,op.k); stateHashes.push_back(h); }
  u64 ps=0,pr=0; int nc2=0; for(auto&c:comms){ if(++nc2>48) break; ps+=c.second.sends.size(); pr+=c.second.recvs.size(); } st.maxPendS=std::max(st.maxPendS,ps); st.maxPendR=std::max(st.maxPendR,pr); st.maxLive=std::max(st.maxLive,(u64)liveHandles);
  curIdx++;
  return r;
}
void Sim::finalChecks(){ if(!dry && !viol.set()) checkAll(true); }

StepR Sim::doStep(const Op&op){
  if(op.k!=O_DIE && deadTasks.count(op.task)) return S_ILLEGAL;
  bool needInit = op.k==O_MT || !(op.k==O_MASS||op.k==O_INIT||op.k==O_INITQ||op.k==O_WTIME||op.k==O_CLOCK||op.k==O_CLOCKFAIL||op.k==O_HOST||op.k==O_PROCNAME||op.k==O_ERRSTR||op.k==O_LIBVER||op.k==O_ALLOCFAIL||op.k==O_DIE||op.k==O_FILL||op.k==O_MARK||op.k==O_MISC||op.k==O_CONV||op.k==O_FCONST||op.k==O_INITSKEW);
  if(needInit && !inited) return S_ILLEGAL;
  switch(op.k){
    case O_CDUP: case O_CSPLIT: case O_CCREATE: case O_CFREE: case O_CSIZE: case O_CGROUP: case O_CART: case O_CARTGET: case O_CARTCOORDS: case O_DIMS: case O_ICREATE: case O_IMERGE:
    case O_GINCL: case O_GRANGE: case O_GSET: case O_GTRANS: case O_GFREE: return commOps(op);
    case O_TCONTIG: case O_TVECTOR: case O_THVEC: case O_TINDEXED: case O_THINDEXED: case O_TIBLOCK: case O_TSTRUCT: case O_TDUP: case O_TBIG: case O_TCOMMIT: case O_TFREE: case O_TQUERY: return typeOps(op);
    case O_ISEND: case O_SEND: case O_IRECV: case O_RECV: case O_SENDRECV: case O_IPROBE: case O_PROBE: case O_PKSEND: case O_PKRECV: return p2p(op);
    case O_TEST: case O_WAIT: case O_TESTANY: case O_WAITANY: case O_TESTALL: case O_WAITALL: case O_TESTSOME: case O_WAITSOME: case O_REQFREE: return completion(op);
    case O_PKNEW: case O_PKSIZE: case O_PACK: case O_UNPACK: return packOps(op);
    case O_COLL: case O_OPCREATE: return collOps(op);
    default: return miscOps(op);
  }
}
#define NEED(n) do{ if(op.a.size()<(size_t)(n)) return S_ILLEGAL; }while(0)
#define LIVEC(id) auto ci_=comms.find((int)(id)); if(ci_==comms.end()) return S_ILLEGAL; CommM&C=ci_->second
#define STOPIF(x) do{ if((x)!=RUN_OK) return ended; }while(0)
#define RCCHK() do{ if(!checkRc(op.f)) return S_VIOL; }while(0)

static int* fStIgnore(){ return &mpiserial_[0]; }
static int* fStsIgnore(){ return &mpiserial_[SS]; }
static int* fInPlace(){ return &mpiserial_[2*SS]; }

// Messages beyond what can be moved here: only the first elements of such a buffer exist, the rest is
// out of bounds. Legal as long as what is delivered lies within that part.
static bool sizeOK(const TypeM&t,i64 n){ if(n>INT_MAX) return false; return !isGiant(t,n)||(t.size>0&&t.size<=GIANT_BYTES/4); }
static bool pairOK(const TypeM&a,i64 an,const TypeM&b,i64 bn){ if((isGiant(a,an)||isGiant(b,bn))&&std::min(an*a.size,bn*b.size)>GIANT_BYTES) return false; return sigOK(a,an,b,bn); }

// ================================================================ point to point
StepR Sim::p2p(const Op&op){
  switch(op.k){
  case O_PKSEND: case O_PKRECV: case O_ISEND: case O_IRECV: {
    bool pk=(op.k==O_PKSEND||op.k==O_PKRECV), snd=(op.k==O_ISEND||op.k==O_PKSEND);
    NEED(pk?4:8);
    int id=(int)op.a[0]; { auto it=reqs.find(id); if(it!=reqs.end()&&it->second.state!=R_NONE) return S_ILLEGAL; } if(id<0) return S_ILLEGAL;
    int pb=pk?(int)op.a[1]:-1;
    i64 cslot=pk?op.a[2]:op.a[1]; int tag=(int)(pk?op.a[3]:op.a[2]); 
    LIVEC(cslot);
    TypeP ty; i64 n; int peer=0; u64 seed=1; int fl=0; int mode=0; int th;
    if(pk){ auto it=packs.find(pb); if(it==packs.end()||it->second.pend) return S_ILLEGAL; ty=predefType(MPI_PACKED); th=MPI_PACKED; n=snd?it->second.wpos:it->second.size; }
    else { ty=typeOf(op.a[3]); if(!ty||ty->predef==MPI_LB||ty->predef==MPI_UB) return S_ILLEGAL; th=typeHandle(op.a[3]); n=op.a[4]; peer=(int)op.a[5]; seed=(u64)op.a[6]; fl=(int)op.a[7]; mode=op.a.size()>8?(int)op.a[8]:0; }
    if(n<0) return S_ILLEGAL;
    if(snd&&tag<0) return S_ILLEGAL; if(!snd&&tag<0&&tag!=MPI_ANY_TAG) return S_ILLEGAL;
    bool pnull=peer==MPI_PROC_NULL;
    bool bad=!(peer==0||pnull||(!snd&&peer==MPI_ANY_SOURCE));
    bool willMatch=!pnull&&!bad&&(snd?findRecv(C,tag):findSend(C,tag))>=0;
    int other=willMatch?(snd?findRecv(C,tag):findSend(C,tag)):-1;
    if(other>=0&&!pairOK(*ty,n,*reqs[other].ty,reqs[other].count)) return S_ILLEGAL;
    if(!snd&&!overlapFree(*ty,n)) return S_ILLEGAL;
    bool uncommitted=!ty->committed || (other>=0&&!reqs[other].ty->committed);
    if(uncommitted&&!willMatch) return S_ILLEGAL;            // rejected only when data moves: keep those programs simple
    if(!ty->committed && (fl&3)) fl&=~3;
    bool lethal=bad||uncommitted||(mode==1&&!willMatch&&!pnull);
    if(!sizeOK(*ty,n)) return S_ILLEGAL;
    // resources
    ReqM r; r.send=snd; r.comm=(int)cslot; r.cuid=C.uid; r.tag=tag; r.ty=ty; r.count=n; r.task=op.task; r.pb=pb; r.seq=++seq;
    if(pk){ r.buf=packs[pb].buf; } else { r.buf=mkBuf(ty,n,seed,snd?PERM_R:PERM_RW,fl); if(!dry&&!r.buf) return S_ILLEGAL; }
    int handle=1; u64 cell=0; int absH=0; 
    if(!dry){
      cell=env::ualloc(4,PERM_RW); *(int*)cell=0x5a5a5a5a;
      void*bp=(void*)r.buf->base; int bn=(int)n, bt=th; int ch=C.handle;
      if((fl&1)&&!op.f&&!pk&&n*(i64)ty->map.size()<2000&&n>0){      // absolute addresses relative to MPI_BOTTOM
        MPI_Aint*ad=(MPI_Aint*)outL(); int*h=outI(); 
        STOPIF(invoke([&]{ rc=MPI_Get_address(bp,ad); },false,"MPI_Get_address")); if(!checkRc(0)) return S_VIOL;
        if((u64)*ad!=(u64)bp) FAIL("TYPE_QUERY","MPI_Get_address gave %lx for %p",(unsigned long)*ad,bp);
        int*bl=inA({n}); long*dl=inLA({(i64)bp}); int*tl=inA({th});
        STOPIF(invoke([&]{ rc=MPI_Type_struct(1,bl,(MPI_Aint*)dl,tl,h); },false,"MPI_Type_struct(absolute)")); if(!checkRc(0)) return S_VIOL;
        STOPIF(invoke([&]{ rc=MPI_Type_commit(h); },false,"MPI_Type_commit(absolute)")); if(!checkRc(0)) return S_VIOL;
        absH=*h; bt=absH; bn=1; bp=MPI_BOTTOM; r.bottom=true;
      }
      if(!snd||true){ const char*nm=snd?(mode==1?"MPI_Irsend":"MPI_Isend"):"MPI_Irecv";
        if(op.f){ int*a1=inI(bn),*a2=inI(bt),*a3=inI(peer),*a4=inI(tag),*a5=inI(ch),*e=ierr();
          STOPIF(invoke([&]{ if(snd){ if(mode==1) mpi_irsend_(bp,a1,a2,a3,a4,a5,(int*)cell,e); else mpi_isend_(bp,a1,a2,a3,a4,a5,(int*)cell,e);} else mpi_irecv_(bp,a1,a2,a3,a4,a5,(int*)cell,e); },lethal,nm)); }
        else STOPIF(invoke([&]{ if(snd) rc=mode==1?MPI_Irsend(bp,bn,bt,peer,tag,ch,(int*)cell):MPI_Isend(bp,bn,bt,peer,tag,ch,(int*)cell); else rc=MPI_Irecv(bp,bn,bt,peer,tag,ch,(int*)cell); },lethal,nm)); }
      RCCHK();
      handle=*(int*)cell; if(!newHandle("request",handle)) return S_VIOL;
      if(absH){ int*h=ioA({absH}); STOPIF(invoke([&]{ rc=MPI_Type_free(h); },false,"MPI_Type_free(absolute)")); if(!checkRc(0)) return S_VIOL; }
    } else if(lethal) return S_END;
    if(lethal) return S_END;
    r.cell=cell; r.handle=handle; r.pnull=pnull; liveHandles++;
    if(pk) packs[pb].pend++;
    if(pnull){ r.state=R_DONE; r.nbytes=0; reqs[id]=r; }
    else { r.state=R_PENDING; reqs[id]=r; if(snd) C.sends.push_back(id); else C.recvs.push_back(id);
      if(other>=0){ if(snd) match(id,other,true); else match(other,id,false);
        ReqM&o=reqs[other]; if(o.freed){ /* the library completed it; its owner cannot ask */ } } }
    return S_OK; }

  case O_SEND: {
    NEED(8); LIVEC(op.a[0]); int tag=(int)op.a[1]; TypeP ty=typeOf(op.a[2]); if(!ty||ty->predef==MPI_LB||ty->predef==MPI_UB) return S_ILLEGAL; i64 n=op.a[3]; int dest=(int)op.a[4]; u64 seed=op.a[5]; int fl=(int)op.a[6],mode=(int)op.a[7];
    if(tag<0||n<0||!sizeOK(*ty,n)) return S_ILLEGAL;
    bool pnull=dest==MPI_PROC_NULL, bad=dest!=0&&!pnull; int other=(pnull||bad)?-1:findRecv(C,tag);
    if(other>=0&&(!reqs[other].ty->committed||!pairOK(*ty,n,*reqs[other].ty,reqs[other].count))) return S_ILLEGAL;
    bool unc=!ty->committed; if(unc&&(pnull||n<=0||ty->size<=0)) return S_ILLEGAL; if(unc) fl&=~3;
    bool lethal=bad||(!pnull&&other<0)||unc;
    int id=-1000-(int)(++seq%1000000000); ReqM r; r.send=true; r.comm=(int)op.a[0]; r.cuid=C.uid; r.tag=tag; r.ty=ty; r.count=n; r.state=R_PENDING; r.pnull=pnull; r.seq=seq;
    r.buf=mkBuf(ty,n,seed,PERM_R,fl); if(!dry&&!r.buf) return S_ILLEGAL;
    if(dry&&lethal) return S_END;
    if(!dry){ void*bp=(void*)r.buf->base; int th=typeHandle(op.a[2]),ch=C.handle,bn=(int)n; const char*nm=mode==0?"MPI_Send":mode==1?"MPI_Ssend":"MPI_Rsend";
      if(op.f){ int*a1=inI(bn),*a2=inI(th),*a3=inI(dest),*a4=inI(tag),*a5=inI(ch),*e=ierr(); STOPIF(invoke([&]{ (mode==0?mpi_send_:mode==1?mpi_ssend_:mpi_rsend_)(bp,a1,a2,a3,a4,a5,e); },lethal,nm)); }
      else STOPIF(invoke([&]{ rc=(mode==0?MPI_Send:mode==1?MPI_Ssend:MPI_Rsend)(bp,bn,th,dest,tag,ch); },lethal,nm));
      RCCHK(); }
    if(lethal) return S_END;
    liveHandles++; reqs[id]=r; if(pnull) reqs[id].state=R_DONE; else { C.sends.push_back(id); match(id,other,true); }
    bool ok=observe(id,op); reqs.erase(id); if(other>=0&&reqs.count(other)) reqs[other].peer=-1; return ok?S_OK:S_VIOL; }

  case O_RECV: {
    NEED(8); LIVEC(op.a[0]); int tag=(int)op.a[1]; TypeP ty=typeOf(op.a[2]); if(!ty||ty->predef==MPI_LB||ty->predef==MPI_UB) return S_ILLEGAL; i64 n=op.a[3]; int src=(int)op.a[4]; u64 seed=op.a[5]; int fl=(int)op.a[6],sti=(int)op.a[7];
    if((tag<0&&tag!=MPI_ANY_TAG)||n<0||!sizeOK(*ty,n)) return S_ILLEGAL;
    bool pnull=src==MPI_PROC_NULL, bad=src!=0&&src!=MPI_ANY_SOURCE&&!pnull; int other=(pnull||bad)?-1:findSend(C,tag);
    if(other>=0&&(!reqs[other].ty->committed||!pairOK(*ty,n,*reqs[other].ty,reqs[other].count))) return S_ILLEGAL; if(!overlapFree(*ty,n)) return S_ILLEGAL;
    bool unc=!ty->committed; if(unc&&(pnull||n<=0||ty->size<=0||(other>=0&&reqs[other].count*reqs[other].ty->size<=0))) return S_ILLEGAL; if(unc) fl&=~3;
    bool lethal=bad||(!pnull&&other<0)||unc; if(dry&&lethal) return S_END;
    int id=-1000-(int)(++seq%1000000000); ReqM r; r.send=false; r.comm=(int)op.a[0]; r.cuid=C.uid; r.tag=tag; r.ty=ty; r.count=n; r.state=R_PENDING; r.pnull=pnull; r.seq=seq;
    r.buf=mkBuf(ty,n,seed,PERM_RW,fl); if(!dry&&!r.buf) return S_ILLEGAL;
    int*sp=nullptr;
    if(!dry){ void*bp=(void*)r.buf->base; int th=typeHandle(op.a[2]),ch=C.handle,bn=(int)n; sp=outA(SS);
      if(op.f){ int*a1=inI(bn),*a2=inI(th),*a3=inI(src),*a4=inI(tag),*a5=inI(ch),*e=ierr(); STOPIF(invoke([&]{ mpi_recv_(bp,a1,a2,a3,a4,a5,sti?fStIgnore():sp,e); },lethal,"MPI_Recv")); }
      else STOPIF(invoke([&]{ rc=MPI_Recv(bp,bn,th,src,tag,ch,sti?MPI_STATUS_IGNORE:(MPI_Status*)sp); },lethal,"MPI_Recv"));
      RCCHK(); }
    if(lethal) return S_END;
    liveHandles++; reqs[id]=r; if(pnull) reqs[id].state=R_DONE; else { C.recvs.push_back(id); match(other,id,false); }
    if(!dry&&!sti){ if(!statusCheck(sp,id,false,op,seed)) return ended!=S_OK?ended:S_VIOL; }
    bool ok=observe(id,op); reqs.erase(id); if(other>=0&&reqs.count(other)) reqs[other].peer=-1; return ok?S_OK:S_VIOL; }

  case O_SENDRECV: {
    // comm stag stype scount dest sseed rtag rtype rcount src rseed stign flags
    NEED(13); LIVEC(op.a[0]); int stag=(int)op.a[1]; TypeP sty=typeOf(op.a[2]); i64 sn=op.a[3]; int dest=(int)op.a[4]; u64 ss=op.a[5]; int rtag=(int)op.a[6]; TypeP rty=typeOf(op.a[7]); i64 rn=op.a[8]; int src=(int)op.a[9]; u64 rs=op.a[10]; int sti=(int)op.a[11]; int fl=(int)op.a[12];
    if(!sty||!rty||sty->predef==MPI_LB||sty->predef==MPI_UB||rty->predef==MPI_LB||rty->predef==MPI_UB||stag<0||(rtag<0&&rtag!=MPI_ANY_TAG)||sn<0||rn<0||!sizeOK(*sty,sn)||!sizeOK(*rty,rn)) return S_ILLEGAL;
    bool badD=dest!=0&&dest!=MPI_PROC_NULL, badS=src!=0&&src!=MPI_ANY_SOURCE&&src!=MPI_PROC_NULL;
    bool unc=!sty->committed||!rty->committed; if(unc){ fl&=~3; if(sn*sty->size<=0||rn*rty->size<=0||dest!=0||(src!=0&&src!=MPI_ANY_SOURCE)) return S_ILLEGAL; }
    // as two concurrent halves; on one process both orders give the same pairs, so decide on the receive first
    int rid=-1000-(int)(++seq%1000000000), sid=-1000-(int)(++seq%1000000000);
    bool rnull=src==MPI_PROC_NULL,snull=dest==MPI_PROC_NULL;
    int rm=rnull||badS?-1:findSend(C,rtag); int smId=-1; bool rdone=rnull||rm>=0, sdone=snull;
    if(unc&&rm>=0&&reqs[rm].count*reqs[rm].ty->size<=0) return S_ILLEGAL;
    if(!snull&&!badD){ smId=findRecv(C,stag); if(smId>=0) sdone=true; else if(!rdone&&!badS&&(rtag==MPI_ANY_TAG||rtag==stag)){ smId=rid; sdone=rdone=true; } }
    if(unc&&smId>=0&&smId!=rid&&reqs[smId].count*reqs[smId].ty->size<=0) return S_ILLEGAL;
    for(int x:{rm,smId}) if(x>=0&&x!=rid&&reqs.count(x)&&!reqs[x].ty->committed) return S_ILLEGAL;
    if(rm>=0&&!pairOK(*rty,rn,*reqs[rm].ty,reqs[rm].count)) return S_ILLEGAL; if(smId>=0&&smId!=rid&&!pairOK(*sty,sn,*reqs[smId].ty,reqs[smId].count)) return S_ILLEGAL; if(smId==rid&&smId!=-1&&!pairOK(*sty,sn,*rty,rn)) return S_ILLEGAL; if(!overlapFree(*rty,rn)) return S_ILLEGAL;
    bool lethal=!(rdone&&sdone)||badD||badS||unc; if(dry&&lethal) return S_END;
    ReqM S,R; S.send=true; R.send=false; S.comm=R.comm=(int)op.a[0]; S.cuid=R.cuid=C.uid; S.tag=stag; R.tag=rtag; S.ty=sty; R.ty=rty; S.count=sn; R.count=rn; S.state=R.state=R_PENDING; S.pnull=snull; R.pnull=rnull;
    S.buf=mkBuf(sty,sn,ss,PERM_R,fl); R.buf=mkBuf(rty,rn,rs,PERM_RW,fl); if(!dry&&(!S.buf||!R.buf)) return S_ILLEGAL;
    if(lethal&&!dry){ R.buf->dontcare=true; if(smId>=0&&reqs.count(smId)&&reqs[smId].buf) reqs[smId].buf->dontcare=true; }   // one half may have completed before the other stops
    int*sp=nullptr;
    if(!dry){ void*sb=(void*)S.buf->base,*rb=(void*)R.buf->base; int sth=typeHandle(op.a[2]),rth=typeHandle(op.a[7]),ch=C.handle; sp=outA(SS);
      if(op.f){ int*a1=inI(sn),*a2=inI(sth),*a3=inI(dest),*a4=inI(stag),*b1=inI(rn),*b2=inI(rth),*b3=inI(src),*b4=inI(rtag),*c=inI(ch),*e=ierr();
        STOPIF(invoke([&]{ mpi_sendrecv_(sb,a1,a2,a3,a4,rb,b1,b2,b3,b4,c,sti?fStIgnore():sp,e); },lethal,"MPI_Sendrecv")); }
      else STOPIF(invoke([&]{ rc=MPI_Sendrecv(sb,(int)sn,sth,dest,stag,rb,(int)rn,rth,src,rtag,ch,sti?MPI_STATUS_IGNORE:(MPI_Status*)sp); },lethal,"MPI_Sendrecv"));
      RCCHK(); }
    if(lethal) return S_END;
    liveHandles+=2; reqs[rid]=R; reqs[sid]=S;
    if(rnull) reqs[rid].state=R_DONE; else { C.recvs.push_back(rid); if(rm>=0) match(rm,rid,false); }
    if(snull) reqs[sid].state=R_DONE; else { C.sends.push_back(sid); match(sid,smId,true); }
    if(!dry&&!sti){ if(!statusCheck(sp,rid,false,op,ss)) return ended!=S_OK?ended:S_VIOL; }
    bool ok=observe(rid,op); if(ok) ok=observe(sid,op); reqs.erase(rid); reqs.erase(sid);
    for(int x:{rm,smId}) if(x>=0&&reqs.count(x)) reqs[x].peer=-1;
    return ok?S_OK:S_VIOL; }

  case O_IPROBE: case O_PROBE: {
    NEED(4); LIVEC(op.a[0]); int src=(int)op.a[1],tag=(int)op.a[2],sti=(int)op.a[3];
    if(tag<0&&tag!=MPI_ANY_TAG) return S_ILLEGAL;
    bool pnull=src==MPI_PROC_NULL,bad=src!=0&&src!=MPI_ANY_SOURCE&&!pnull; int m=(bad||pnull)?-1:findSend(C,tag); bool found=pnull||m>=0; bool blocking=op.k==O_PROBE; bool lethal=bad||(blocking&&!found);
    if(dry) return lethal?S_END:S_OK;
    int*sp=outA(SS),*fl=outI(); int ch=C.handle;
    if(op.f){ int*a1=inI(src),*a2=inI(tag),*a3=inI(ch),*e=ierr(); STOPIF(invoke([&]{ if(blocking) mpi_probe_(a1,a2,a3,sti?fStIgnore():sp,e); else mpi_iprobe_(a1,a2,a3,fl,sti?fStIgnore():sp,e); },lethal,blocking?"MPI_Probe":"MPI_Iprobe")); }
    else STOPIF(invoke([&]{ rc=blocking?MPI_Probe(src,tag,ch,sti?MPI_STATUS_IGNORE:(MPI_Status*)sp):MPI_Iprobe(src,tag,ch,fl,sti?MPI_STATUS_IGNORE:(MPI_Status*)sp); },lethal,blocking?"MPI_Probe":"MPI_Iprobe"));
    if(lethal) return S_END;
    RCCHK();
    if(!blocking){ logI(*fl!=0); if((*fl!=0)!=found||*fl==0x5a5a5a5a) FAIL("PROBE","MPI_Iprobe flag is %d, %s",*fl,found?"but a matching message is pending":"but no matching message is pending"); if(!*fl) return S_OK; }
    if(found&&!sti){
      int ws=pnull?MPI_PROC_NULL:0, wt=pnull?MPI_ANY_TAG:reqs[m].tag; logI(sp[0]); logI(sp[1]);
      if(sp[0]!=ws||sp[1]!=wt) FAIL("PROBE","probe status: source %d tag %d, the next matching message has source %d tag %d",sp[0],sp[1],ws,wt);
      i64 nb=pnull?0:reqs[m].count*reqs[m].ty->size;
      if(!countCheck(sp,nb,pnull?predefType(MPI_INT):reqs[m].ty,pnull?MPI_INT:ownHandleFor(reqs[m]),op,(u64)(op.t+tag),"probe")) return ended!=S_OK?ended:S_VIOL;
    }
    return S_OK; }
  }
  return S_ILLEGAL;
}

// ================================================================ completion
StepR Sim::completion(const Op&op){
  switch(op.k){
  case O_REQFREE: {
    NEED(1); auto it=reqs.find((int)op.a[0]); if(it==reqs.end()||it->second.state==R_NONE||it->second.freed) return S_ILLEGAL; ReqM&r=it->second;
    if(r.state==R_NULL) return S_ILLEGAL; if(r.pb>=0) return S_ILLEGAL; if(r.orphan) return S_ILLEGAL;
    if(dry){ r.freed=true; if(r.state==R_DONE||r.pnull) { observe(it->first,op); } return S_OK; }
    int*c=(int*)r.cell;
    if(op.f){ int*e=ierr(); STOPIF(invoke([&]{ mpi_request_free_(c,e); },false,"MPI_Request_free")); } else STOPIF(invoke([&]{ rc=MPI_Request_free(c); },false,"MPI_Request_free"));
    RCCHK(); if(*c!=MPI_REQUEST_NULL) FAIL("REQ_NULLING","MPI_Request_free left the request at %d",*c);
    r.freed=true; dropH(0,r.handle); r.handle=0;
    if(r.state==R_DONE){ if(!observe(it->first,op)) return S_VIOL; }
    return S_OK; }

  case O_TEST: case O_WAIT: {
    NEED(2); auto it=reqs.find((int)op.a[0]); if(it==reqs.end()||it->second.state==R_NONE||it->second.freed) return S_ILLEGAL; ReqM&r=it->second; int sti=(int)op.a[1]; bool wait=op.k==O_WAIT;
    bool isNull=r.state==R_NULL, done=isNull||r.state==R_DONE; bool lethal=wait&&!done;
    if(dry){ if(lethal) return S_END; if(done&&!isNull) observe(it->first,op); return S_OK; }
    int*c=(int*)r.cell; int before=*c; int*fl=outI(); int*sp=outA(SS);
    if(op.f){ int*e=ierr(); STOPIF(invoke([&]{ if(wait) mpi_wait_(c,sti?fStIgnore():sp,e); else mpi_test_(c,fl,sti?fStIgnore():sp,e); },lethal,wait?"MPI_Wait":"MPI_Test")); }
    else STOPIF(invoke([&]{ rc=wait?MPI_Wait(c,sti?MPI_STATUS_IGNORE:(MPI_Status*)sp):MPI_Test(c,fl,sti?MPI_STATUS_IGNORE:(MPI_Status*)sp); },lethal,wait?"MPI_Wait":"MPI_Test"));
    if(lethal) return S_END;
    RCCHK();
    if(!wait){ logI(*fl!=0); if((*fl!=0)!=done||*fl==0x5a5a5a5a) FAIL("MATCH","MPI_Test flag is %d but the %s is %s",*fl,r.send?"send":"receive",done?"complete":"not matched"); }
    if(!done){ if(*c!=before) FAIL("REQ_NULLING","MPI_Test of an incomplete request changed the request from %d to %d",before,*c); return S_OK; }
    if(*c!=MPI_REQUEST_NULL) FAIL("REQ_NULLING","completed request left at %d instead of MPI_REQUEST_NULL",*c);
    if(!sti&&!statusCheck(sp,it->first,isNull,op,r.seq+7)) return ended!=S_OK?ended:S_VIOL;
    if(!isNull){ dropH(0,r.handle); r.handle=0; if(!observe(it->first,op)) return S_VIOL; }
    return S_OK; }

  default: {
    NEED(2); int sti=(int)op.a[0]; i64 n=op.a[1]; if(n<0||(i64)op.a.size()<2+n) return S_ILLEGAL;
    std::vector<int> ids; std::vector<int> before; std::set<int> seen; int active=0; std::vector<int> done,inc;
    for(i64 i=0;i<n;i++){ int id=(int)op.a[2+i]; if(id<0){ ids.push_back(-1); before.push_back(MPI_REQUEST_NULL); continue; }
      auto it=reqs.find(id); if(it==reqs.end()||it->second.state==R_NONE||it->second.freed||!seen.insert(id).second) return S_ILLEGAL;
      if(it->second.state==R_NULL){ ids.push_back(-1); before.push_back(MPI_REQUEST_NULL); continue; }
      ids.push_back(id); before.push_back(it->second.handle); active++; if(it->second.state==R_DONE) done.push_back((int)i); else inc.push_back((int)i); }
    bool all=op.k==O_TESTALL||op.k==O_WAITALL, any=op.k==O_TESTANY||op.k==O_WAITANY; bool wait=op.k==O_WAITALL||op.k==O_WAITANY||op.k==O_WAITSOME;
    bool lethal=wait&&(all?!inc.empty():(active>0&&done.empty()));
    auto finish=[&](int pos)->bool{ int id=ids[pos]; if(!dry){ dropH(0,reqs[id].handle); reqs[id].handle=0; *(int*)reqs[id].cell=MPI_REQUEST_NULL; } return observe(id,op); };
    if(dry){ if(lethal) return S_END; if(all){ if(inc.empty()) for(int p:done) finish(p); } else if(any){ if(!done.empty()) finish(done[0]); } else for(int p:done) finish(p); return S_OK; }
    int*arr=ioA(before); int*fl=outI(); int*idx=any?outI():outA(n); int*outc=outI(); 
    MPI_Status*stp=(MPI_Status*)scr(sizeof(MPI_Status)*(any?1:n),PERM_RW); memset((void*)stp,0x5a,sizeof(MPI_Status)*(any?1:n));
    const char*nm=opName[op.k];
    if(op.f){ int*cn=inI(n); int*e=ierr(); int*S=sti?(any?fStIgnore():fStsIgnore()):(int*)stp;
      STOPIF(invoke([&]{ switch(op.k){ case O_TESTANY: mpi_testany_(cn,arr,idx,fl,S,e); break; case O_WAITANY: mpi_waitany_(cn,arr,idx,S,e); break; case O_TESTALL: mpi_testall_(cn,arr,fl,S,e); break; case O_WAITALL: mpi_waitall_(cn,arr,S,e); break; case O_TESTSOME: mpi_testsome_(cn,arr,outc,idx,S,e); break; case O_WAITSOME: mpi_waitsome_(cn,arr,outc,idx,S,e); break; } },lethal,nm)); }
    else { MPI_Status*S=sti?MPI_STATUS_IGNORE:stp; int m=(int)n;
      STOPIF(invoke([&]{ switch(op.k){ case O_TESTANY: rc=MPI_Testany(m,arr,idx,fl,S); break; case O_WAITANY: rc=MPI_Waitany(m,arr,idx,S); break; case O_TESTALL: rc=MPI_Testall(m,arr,fl,S); break; case O_WAITALL: rc=MPI_Waitall(m,arr,S); break; case O_TESTSOME: rc=MPI_Testsome(m,arr,outc,idx,S); break; case O_WAITSOME: rc=MPI_Waitsome(m,arr,outc,idx,S); break; } },lethal,nm)); }
    if(lethal) return S_END;
    RCCHK();
    int base=op.f?1:0;
    auto unchanged=[&](const std::set<int>&except)->bool{ for(i64 i=0;i<n;i++){ if(except.count((int)i)){ if(arr[i]!=MPI_REQUEST_NULL) FAILB("REQ_NULLING","%s: completed entry %lld left at %d instead of MPI_REQUEST_NULL",nm,(long long)i,arr[i]); } else if(arr[i]!=before[i]) FAILB("REQ_NULLING","%s: entry %lld, which was not completed by the call, changed from %d to %d",nm,(long long)i,before[i],arr[i]); } return true; };
    std::vector<int> order; 
    if(all){
      bool can=inc.empty(); if(op.k==O_TESTALL){ logI(*fl!=0); if((*fl!=0)!=can||*fl==0x5a5a5a5a) FAIL("INDEX","MPI_Testall flag is %d with %zu of %d active requests incomplete",*fl,inc.size(),active); }
      if(!can) return unchanged({})?S_OK:S_VIOL;
      std::set<int> ex(done.begin(),done.end()); for(i64 i=0;i<n;i++) if(ids[i]<0) ex.insert((int)i);
      if(!unchanged(ex)) return S_VIOL;
      if(!sti) for(i64 i=0;i<n;i++) if(i<8||i>=n-8||(i%7)==0||n<300) if(!statusCheck((int*)&stp[i],ids[i]<0?0:ids[i],ids[i]<0,op,hash2(op.t,i))) return ended!=S_OK?ended:S_VIOL;
      order=done;
    } else if(any){
      int ix=*idx; logI(ix); bool flag=wait||*fl!=0;
      if(!wait){ bool wf=active==0||!done.empty(); logI(*fl!=0); if((*fl!=0)!=wf||*fl==0x5a5a5a5a) FAIL("INDEX","MPI_Testany flag is %d with %d active requests, %zu of them complete",*fl,active,done.size()); }
      if(active==0||done.empty()){
        if(ix!=MPI_UNDEFINED) FAIL("INDEX","%s: index is %d, expected MPI_UNDEFINED (%s)",nm,ix,active==0?"no active request":"none complete");
        if(!unchanged({})) return S_VIOL;
        if(active==0&&!sti&&!statusCheck((int*)stp,0,true,op,op.t)) return ended!=S_OK?ended:S_VIOL;
        return S_OK; }
      (void)flag; int p=ix-base; bool good=std::find(done.begin(),done.end(),p)!=done.end();
      if(!good){ FAIL("INDEX","%s: index %d (%s binding) does not denote a completed active request",nm,ix,op.f?"Fortran":"C"); dead=true; return S_END; }
      if(!unchanged({p})) return S_VIOL;
      if(!sti&&!statusCheck((int*)stp,ids[p],false,op,hash2(op.t,p))) return ended!=S_OK?ended:S_VIOL;
      order.push_back(p);
    } else {
      int oc=*outc; logI(oc);
      if(active==0){ if(oc!=MPI_UNDEFINED) FAIL("INDEX","%s: outcount is %d with no active request, expected MPI_UNDEFINED",nm,oc); return unchanged({})?S_OK:S_VIOL; }
      if(oc!=(int)done.size()){ FAIL("INDEX","%s: outcount is %d, %zu active requests are complete",nm,oc,done.size()); dead=true; return S_END; }
      std::set<int> got; for(int k=0;k<oc;k++){ int p=idx[k]-base; logI(p); if(!std::binary_search(done.begin(),done.end(),p)||!got.insert(p).second){ FAIL("INDEX","%s: indices[%d]=%d (%s binding) is not a completed active request, or is repeated",nm,k,idx[k],op.f?"Fortran":"C"); dead=true; return S_END; } }
      if(!unchanged(got)) return S_VIOL;
      if(!sti) for(int k=0;k<oc;k++){ int p=idx[k]-base; if(k<8||k>=oc-8||(k%5)==0||oc<300) if(!statusCheck((int*)&stp[k],ids[p],false,op,hash2(op.t,k))) return ended!=S_OK?ended:S_VIOL; }
      order=done;
    }
    for(int p:order) if(!finish(p)) return S_VIOL;
    return S_OK; }
  }
}

// ================================================================ communicators and groups
static int groupHandle(const Sim&s,i64 g,bool&ok){ ok=true; if(g==-1) return MPI_GROUP_EMPTY; if(g==-2) return MPI_GROUP_NULL; auto it=s.groups.find((int)g); if(it==s.groups.end()){ ok=false; return 0; } return s.dry?1:*(int*)it->second.cell; }
static int groupVal(const Sim&s,i64 g){ if(g==-1) return -1; if(g==-2) return 0; return s.groups.at((int)g).val; }

StepR Sim::commOps(const Op&op){
  auto newComm=[&](int slot,u64 cell,int fam)->StepR{ CommM c; c.uid=nextUid++; c.fam=fam; c.cell=cell; if(!dry){ c.handle=*(int*)cell; if(!newHandle("communicator",c.handle)) return S_VIOL; } liveHandles++; comms[slot]=c; return S_OK; };
  switch(op.k){
  case O_CDUP: case O_CSPLIT: case O_CCREATE: case O_CART: case O_ICREATE: case O_IMERGE: {
    NEED(2); int dst=(int)op.a[0]; if(dst<=0||comms.count(dst)) return S_ILLEGAL;
    int srch=MPI_COMM_NULL; int fam=0; 
    if(op.k!=O_ICREATE||op.a[1]>=0){ auto it=comms.find((int)op.a[1]); if(it==comms.end()) return S_ILLEGAL; srch=it->second.handle; fam=it->second.fam; }
    bool null=false,lethal=false; std::function<void()> call; int*e=nullptr; int*nc=nullptr; u64 cell=0;
    if(!dry){ cell=env::ualloc(4,PERM_RW); nc=(int*)cell; *nc=0x5a5a5a5a; }
    std::vector<i64> periods; int nd=0;
    switch(op.k){
      case O_CDUP: { auto&o=comms[(int)op.a[1]]; nd=o.ndims; periods=o.periods; } if(!dry){ if(op.f){ int*a=inI(srch); e=ierr(); call=[=]{ mpi_comm_dup_(a,nc,e); }; } else call=[=,this]{ rc=MPI_Comm_dup(srch,nc); }; } break;
      case O_CSPLIT: { NEED(4); int col=(int)op.a[2],key=(int)op.a[3]; null=col==MPI_UNDEFINED; if(col<0&&!null) return S_ILLEGAL; if(!dry){ if(op.f){ int*a=inI(srch),*b=inI(col),*k=inI(key); e=ierr(); call=[=]{ mpi_comm_split_(a,b,k,nc,e); }; } else call=[=,this]{ rc=MPI_Comm_split(srch,col,key,nc); }; } break; }
      case O_CCREATE: { NEED(3); bool ok; int gh=groupHandle(*this,op.a[2],ok); if(!ok) return S_ILLEGAL; int v=groupVal(*this,op.a[2]); null=v!=1; if(!dry){ if(op.f){ int*a=inI(srch),*b=inI(gh); e=ierr(); call=[=]{ mpi_comm_create_(a,b,nc,e); }; } else call=[=,this]{ rc=MPI_Comm_create(srch,gh,nc); }; } break; }
      case O_CART: { NEED(4); nd=(int)op.a[2]; if(nd<0||(i64)op.a.size()<4+2*nd) return S_ILLEGAL; int reord=(int)op.a[3]; std::vector<i64> d(op.a.begin()+4,op.a.begin()+4+nd); periods.assign(op.a.begin()+4+nd,op.a.begin()+4+2*nd); for(i64 x:d){ if(x>1) lethal=true; if(x<1) return S_ILLEGAL; }
        if(!dry){ int*dp=inA(d),*pp=inA(periods); if(op.f){ int*a=inI(srch),*n=inI(nd),*r=inI(reord); e=ierr(); call=[=]{ mpi_cart_create_(a,n,dp,pp,r,nc,e); }; } else call=[=,this]{ rc=MPI_Cart_create(srch,nd,dp,pp,reord,nc); }; } break; }
      case O_ICREATE: { NEED(4); int peerh=MPI_COMM_NULL; if(op.a[2]>=0){ auto it=comms.find((int)op.a[2]); if(it==comms.end()) return S_ILLEGAL; peerh=it->second.handle; } null=op.a[1]<0&&op.a[2]<0; int tag=(int)op.a[3]; if(!dry){ if(op.f){ int*a=inI(srch),*l=inI(0),*p=inI(peerh),*r=inI(0),*t=inI(tag); e=ierr(); call=[=]{ mpi_intercomm_create_(a,l,p,r,t,nc,e); }; } else call=[=,this]{ rc=MPI_Intercomm_create(srch,0,peerh,0,tag,nc); }; } break; }
      case O_IMERGE: { NEED(3); int high=(int)op.a[2]; if(op.f) return S_ILLEGAL; if(!dry) call=[=,this]{ rc=MPI_Intercomm_merge(srch,high,nc); }; break; }
    }
    if(dry){ if(lethal) return S_END; if(null) return S_OK; CommM c; c.uid=nextUid++; c.fam=fam; c.ndims=nd; c.periods=periods; comms[dst]=c; liveHandles++; return S_OK; }
    STOPIF(invoke(call,lethal,opName[op.k])); if(lethal) return S_END; RCCHK();
    logI(*nc==MPI_COMM_NULL);
    if(null){ if(*nc!=MPI_COMM_NULL) FAIL("COMM","%s: expected MPI_COMM_NULL, got %d",opName[op.k],*nc); return S_OK; }
    StepR r=newComm(dst,cell,fam); if(r==S_OK){ comms[dst].ndims=nd; comms[dst].periods=periods; } return r; }

  case O_CFREE: {
    NEED(1); int s=(int)op.a[0]; if(s==0) return S_ILLEGAL; LIVEC(s);
    for(int id:C.sends) if(reqs[id].pb>=0||reqs[id].freed) return S_ILLEGAL; for(int id:C.recvs) if(reqs[id].pb>=0||reqs[id].freed) return S_ILLEGAL;
    if(!dry){ int*c=(int*)C.cell; if(op.f){ int*e=ierr(); STOPIF(invoke([&]{ mpi_comm_free_(c,e); },false,"MPI_Comm_free")); } else STOPIF(invoke([&]{ rc=MPI_Comm_free(c); },false,"MPI_Comm_free")); RCCHK();
      if(*c!=MPI_COMM_NULL) FAIL("COMM","MPI_Comm_free left the handle at %d",*c); }
    for(int id:C.sends) reqs[id].orphan=true; for(int id:C.recvs) reqs[id].orphan=true;
    dropH(1,C.handle); comms.erase(s); liveHandles--; return S_OK; }

  case O_CSIZE: { NEED(1); LIVEC(op.a[0]); if(dry) return S_OK; int*v=outI(),*w=outI(); int ch=C.handle;
    if(op.f){ int*a=inI(ch),*e=ierr(); STOPIF(invoke([&]{ mpi_comm_size_(a,v,e); },false,"MPI_Comm_size")); RCCHK(); STOPIF(invoke([&]{ mpi_comm_rank_(a,w,e); },false,"MPI_Comm_rank")); RCCHK(); }
    else { STOPIF(invoke([&]{ rc=MPI_Comm_size(ch,v); },false,"MPI_Comm_size")); RCCHK(); STOPIF(invoke([&]{ rc=MPI_Comm_rank(ch,w); },false,"MPI_Comm_rank")); RCCHK(); }
    logI(*v); logI(*w);
    if(*v!=1||*w!=0) FAIL("COMM","communicator has size %d and rank %d, expected 1 and 0",*v,*w);
    int h2=0; if(!op.f){ STOPIF(invoke([&]{ h2=MPI_Comm_f2c(MPI_Comm_c2f(ch)); },false,"MPI_Comm_f2c")); if(h2!=ch) FAIL("HANDLE","MPI_Comm_f2c(MPI_Comm_c2f(c)) != c"); }
    return S_OK; }
  case O_CARTGET: { NEED(2); LIVEC(op.a[0]); int nd=(int)op.a[1]; if(nd<0||nd>2000) return S_ILLEGAL; if(dry) return S_OK; int*d=outA(nd),*p=outA(nd),*co=outA(nd); int ch=C.handle;
    if(op.f){ int*a=inI(ch),*n=inI(nd),*e=ierr(); STOPIF(invoke([&]{ mpi_cart_get_(a,n,d,p,co,e); },false,"MPI_Cart_get")); } else STOPIF(invoke([&]{ rc=MPI_Cart_get(ch,nd,d,p,co); },false,"MPI_Cart_get")); RCCHK();
    for(int i=0;i<nd;i++){ logI(d[i]); if(d[i]!=1||co[i]!=0) FAIL("COMM","MPI_Cart_get: dimension %d is %d at coordinate %d, expected 1 at 0",i,d[i],co[i]); if(i<(int)C.periods.size()&&(p[i]!=0)!=(C.periods[i]!=0)) FAIL("COMM","MPI_Cart_get: periods[%d] is %d, the communicator was created with %d",i,p[i],(int)C.periods[i]); }
    return S_OK; }
  case O_CARTCOORDS: { NEED(3); LIVEC(op.a[0]); int rank=(int)op.a[1],nd=(int)op.a[2]; if(nd<0||nd>2000) return S_ILLEGAL; bool lethal=rank!=0; if(dry) return lethal?S_END:S_OK; int*co=outA(nd); int ch=C.handle;
    if(op.f){ int*a=inI(ch),*r=inI(rank),*n=inI(nd),*e=ierr(); STOPIF(invoke([&]{ mpi_cart_coords_(a,r,n,co,e); },lethal,"MPI_Cart_coords")); } else STOPIF(invoke([&]{ rc=MPI_Cart_coords(ch,rank,nd,co); },lethal,"MPI_Cart_coords")); if(lethal) return S_END; RCCHK();
    for(int i=0;i<nd;i++) if(co[i]!=0) FAIL("COMM","MPI_Cart_coords: coordinate %d is %d, expected 0",i,co[i]); return S_OK; }
  case O_DIMS: { NEED(2); int nn=(int)op.a[0],nd=(int)op.a[1]; if(nd<0||nd>2000||nn<1) return S_ILLEGAL; bool lethal=nn>1; if(dry) return lethal?S_END:S_OK; std::vector<int> z(nd,0); int*d=ioA(z);
    if(op.f){ int*a=inI(nn),*b=inI(nd),*e=ierr(); STOPIF(invoke([&]{ mpi_dims_create_(a,b,d,e); },lethal,"MPI_Dims_create")); } else STOPIF(invoke([&]{ rc=MPI_Dims_create(nn,nd,d); },lethal,"MPI_Dims_create")); if(lethal) return S_END; RCCHK();
    for(int i=0;i<nd;i++) if(d[i]!=1) FAIL("COMM","MPI_Dims_create: dimension %d is %d, expected 1",i,d[i]); return S_OK; }

  case O_CGROUP: case O_GINCL: case O_GRANGE: case O_GSET: {
    NEED(2); int dst=(int)op.a[0]; if(dst<0||groups.count(dst)) return S_ILLEGAL; int val=0; bool lethal=false; std::function<void()> call; int*e=nullptr; u64 cell=0; int*g=nullptr; if(!dry){ cell=env::ualloc(4,PERM_RW); g=(int*)cell; *g=0x5a5a5a5a; }
    if(op.k==O_CGROUP){ LIVEC(op.a[1]); val=1; int ch=C.handle; if(!dry){ if(op.f){ int*a=inI(ch); e=ierr(); call=[=]{ mpi_comm_group_(a,g,e); }; } else call=[=,this]{ rc=MPI_Comm_group(ch,g); }; } }
    else if(op.k==O_GSET){ NEED(4); bool k1,k2; int h1=groupHandle(*this,op.a[2],k1),h2=groupHandle(*this,op.a[3],k2); if(!k1||!k2) return S_ILLEGAL; int v1=groupVal(*this,op.a[2]),v2=groupVal(*this,op.a[3]); int m=(int)op.a[1]; if(m<0||m>2) return S_ILLEGAL; if(v1==0||v2==0) lethal=true;
      bool a=v1==1,b=v2==1; bool rr=m==0?(a||b):m==1?(a&&b):(a&&!b); val=rr?1:-1;
      if(!dry){ if(op.f){ int*x=inI(h1),*y=inI(h2); e=ierr(); call=[=]{ (m==0?mpi_group_union_:m==1?mpi_group_intersection_:mpi_group_difference_)(x,y,g,e); }; } else call=[=,this]{ rc=(m==0?MPI_Group_union:m==1?MPI_Group_intersection:MPI_Group_difference)(h1,h2,g); }; } }
    else { NEED(3); bool k1; int h1=groupHandle(*this,op.a[1],k1); if(!k1) return S_ILLEGAL; int v1=groupVal(*this,op.a[1]); int n=(int)op.a[2]; 
      if(op.k==O_GINCL){ if(n<0||(i64)op.a.size()<3+n) return S_ILLEGAL; std::vector<i64> r(op.a.begin()+3,op.a.begin()+3+n); if(v1==0) lethal=true; else if(n==0) val=-1; else if(v1==-1) return S_ILLEGAL; else if(n==1&&r[0]==0) val=1; else lethal=true;
        if(!dry){ int*rp=inA(r); if(op.f){ int*x=inI(h1),*y=inI(n); e=ierr(); call=[=]{ mpi_group_incl_(x,y,rp,g,e); }; } else call=[=,this]{ rc=MPI_Group_incl(h1,n,rp,g); }; } }
      else { if(n<0||(i64)op.a.size()<3+3*n) return S_ILLEGAL; std::vector<i64> r(op.a.begin()+3,op.a.begin()+3+3*n); if(v1==0) lethal=true; else if(n==0) val=-1; else if(v1==-1) return S_ILLEGAL; else if(n==1&&r[0]==0&&r[1]==0) val=1; else lethal=true;
        if(!dry){ int*rp=inA(r); if(op.f){ int*x=inI(h1),*y=inI(n); e=ierr(); call=[=]{ mpi_group_range_incl_(x,y,rp,g,e); }; } else call=[=,this]{ rc=MPI_Group_range_incl(h1,n,(int(*)[3])rp,g); }; } } }
    if(dry){ if(lethal) return S_END; GroupM m; m.val=val; groups[dst]=m; return S_OK; }
    STOPIF(invoke(call,lethal,opName[op.k])); if(lethal) return S_END; RCCHK();
    bool one=*g!=MPI_GROUP_NULL&&*g!=MPI_GROUP_EMPTY&&*g!=0x5a5a5a5a; logI(one);
    if(val==1?!one:*g!=MPI_GROUP_EMPTY) FAIL("GROUP","%s: result is %d, expected %s",opName[op.k],*g,val==1?"the one-process group":"MPI_GROUP_EMPTY");
    GroupM m; m.val=val; m.cell=cell; groups[dst]=m; return S_OK; }
  case O_GTRANS: {
    NEED(3); bool k1,k2; int h1=groupHandle(*this,op.a[0],k1),h2=groupHandle(*this,op.a[1],k2); if(!k1||!k2) return S_ILLEGAL; int n=(int)op.a[2]; if(n<0||(i64)op.a.size()<3+n) return S_ILLEGAL; int v1=groupVal(*this,op.a[0]),v2=groupVal(*this,op.a[1]);
    bool lethal=v1==0||v2==0||(n>0&&v1==-1); std::vector<i64> r(op.a.begin()+3,op.a.begin()+3+n); for(i64 x:r) if(x!=0) lethal=true; if(dry) return lethal?S_END:S_OK;
    int*rp=inA(r),*o=outA(n); if(op.f){ int*x=inI(h1),*y=inI(n),*z=inI(h2),*e=ierr(); STOPIF(invoke([&]{ mpi_group_translate_ranks_(x,y,rp,z,o,e); },lethal,"MPI_Group_translate_ranks")); } else STOPIF(invoke([&]{ rc=MPI_Group_translate_ranks(h1,n,rp,h2,o); },lethal,"MPI_Group_translate_ranks")); if(lethal) return S_END; RCCHK();
    for(int i=0;i<n;i++){ int w=v2==1?0:MPI_UNDEFINED; if(o[i]!=w) FAIL("GROUP","MPI_Group_translate_ranks: rank %d became %d, expected %d",i,o[i],w); } return S_OK; }
  case O_GFREE: { NEED(1); auto it=groups.find((int)op.a[0]); if(it==groups.end()) return S_ILLEGAL; if(!dry){ int*g=(int*)it->second.cell; if(op.f){ int*e=ierr(); STOPIF(invoke([&]{ mpi_group_free_(g,e); },false,"MPI_Group_free")); } else STOPIF(invoke([&]{ rc=MPI_Group_free(g); },false,"MPI_Group_free")); RCCHK(); if(*g!=MPI_GROUP_NULL) FAIL("GROUP","MPI_Group_free left %d",*g); } groups.erase(it); return S_OK; }
  }
  return S_ILLEGAL;
}

// ================================================================ datatypes
StepR Sim::typeOps(const Op&op){
  NEED(1);
  if(op.k==O_TCOMMIT&&op.a[0]<0){ TypeP t=typeOf(op.a[0]); if(!t||t->predef==MPI_LB||t->predef==MPI_UB) return S_ILLEGAL; if(dry) return S_OK; int h=typeHandle(op.a[0]); int*c=outI(); *c=h;   // allowed, and does nothing
    if(op.f){ int*e=ierr(); STOPIF(invoke([&]{ mpi_type_commit_(c,e); },false,"MPI_Type_commit")); } else STOPIF(invoke([&]{ rc=MPI_Type_commit(c); },false,"MPI_Type_commit")); RCCHK(); if(*c!=h) FAIL("HANDLE","MPI_Type_commit changed the handle from %d to %d",h,*c); return S_OK; }
  if(op.k==O_TCOMMIT){ auto it=types.find((int)op.a[0]); if(it==types.end()) return S_ILLEGAL; if(!dry){ int*c=(int*)it->second.cell; int b=*c; if(op.f){ int*e=ierr(); STOPIF(invoke([&]{ mpi_type_commit_(c,e); },false,"MPI_Type_commit")); } else STOPIF(invoke([&]{ rc=MPI_Type_commit(c); },false,"MPI_Type_commit")); RCCHK(); if(*c!=b) FAIL("HANDLE","MPI_Type_commit changed the handle from %d to %d",b,*c); } it->second.m->committed=true; return S_OK; }
  if(op.k==O_TFREE){ auto it=types.find((int)op.a[0]); if(it==types.end()) return S_ILLEGAL; if(!dry){ int*c=(int*)it->second.cell; if(op.f){ int*e=ierr(); STOPIF(invoke([&]{ mpi_type_free_(c,e); },false,"MPI_Type_free")); } else STOPIF(invoke([&]{ rc=MPI_Type_free(c); },false,"MPI_Type_free")); RCCHK(); if(*c!=MPI_DATATYPE_NULL) FAIL("TYPE_QUERY","MPI_Type_free left the handle at %d instead of MPI_DATATYPE_NULL",*c); } dropH(2,it->second.handle); types.erase(it); liveHandles--; return S_OK; }
  if(op.k==O_TQUERY){ TypeP t=typeOf(op.a[0]); if(!t||t->predef==MPI_LB||t->predef==MPI_UB) return S_ILLEGAL; if(dry) return S_OK; int h=typeHandle(op.a[0]); int*sz=outI(); MPI_Aint*ex=(MPI_Aint*)outL(),*lb=(MPI_Aint*)outL(),*ub=(MPI_Aint*)outL();
    if(op.f){ int*a=inI(h),*e=ierr(); STOPIF(invoke([&]{ mpi_type_size_(a,sz,e); },false,"MPI_Type_size")); RCCHK(); STOPIF(invoke([&]{ mpi_type_extent_(a,(long*)ex,e); },false,"MPI_Type_extent")); RCCHK(); STOPIF(invoke([&]{ mpi_type_lb_(a,(long*)lb,e); },false,"MPI_Type_lb")); RCCHK(); STOPIF(invoke([&]{ mpi_type_ub_(a,(long*)ub,e); },false,"MPI_Type_ub")); RCCHK(); }
    else { STOPIF(invoke([&]{ rc=MPI_Type_size(h,sz); },false,"MPI_Type_size")); RCCHK(); STOPIF(invoke([&]{ rc=MPI_Type_extent(h,ex); },false,"MPI_Type_extent")); RCCHK(); STOPIF(invoke([&]{ rc=MPI_Type_lb(h,lb); },false,"MPI_Type_lb")); RCCHK(); STOPIF(invoke([&]{ rc=MPI_Type_ub(h,ub); },false,"MPI_Type_ub")); RCCHK(); }
    logI(*sz); logI(*ex); logI(*lb); logI(*ub);
    if(*sz!=(int)t->size) FAIL("TYPE_QUERY","MPI_Type_size says %d, the typemap has %lld bytes",*sz,(long long)t->size);
    if((i64)*lb!=t->lb) FAIL("TYPE_QUERY","MPI_Type_lb says %ld, expected %lld",(long)*lb,(long long)t->lb);
    if((i64)*ub!=t->ub) FAIL("TYPE_QUERY","MPI_Type_ub says %ld, expected %lld",(long)*ub,(long long)t->ub);
    if((i64)*ex!=t->extent) FAIL("TYPE_QUERY","MPI_Type_extent says %ld, expected %lld (lb %lld ub %lld)",(long)*ex,(long long)t->extent,(long long)t->lb,(long long)t->ub);
    return S_OK; }
  // constructors
  int dst=(int)op.a[0]; if(dst<0||types.count(dst)) return S_ILLEGAL;
  std::vector<i64> bl,dp; std::vector<TypeP> ty; TypeP res; TypeP old; int oldh=0; bool predefOld=false;
  if(op.k!=O_TSTRUCT){ NEED(2); old=typeOf(op.a[1]); if(!old||old->predef==MPI_LB||old->predef==MPI_UB) return S_ILLEGAL; oldh=typeHandle(op.a[1]); predefOld=op.a[1]<0; (void)predefOld; }
  i64 total=0; std::function<void()> call; int*e=nullptr; u64 cell=0; int*nt=nullptr; if(!dry){ cell=env::ualloc(4,PERM_RW); nt=(int*)cell; *nt=0x5a5a5a5a; }
  const i64 LIM=2200000; i64 oc=old?(i64)old->map.size():0; 
  auto rep=[&](i64 n,i64 b,std::function<i64(i64)> d){ for(i64 i=0;i<n;i++){ bl.push_back(b); dp.push_back(d(i)); ty.push_back(old);} };
  bool F=op.f;
  switch(op.k){
   case O_TCONTIG: { NEED(3); i64 n=op.a[2]; if(n<0||n>LIM||n*std::max<i64>(oc,1)>LIM) return S_ILLEGAL; i64 x=old->extent; rep(n,1,[&](i64 i){return i*x;});
     if(!dry){ if(F){ int*a=inI(n),*b=inI(oldh); e=ierr(); call=[=]{ mpi_type_contiguous_(a,b,nt,e); }; } else call=[=,this]{ rc=MPI_Type_contiguous((int)n,oldh,nt); }; } break; }
   case O_TVECTOR: { NEED(5); i64 n=op.a[2],b=op.a[3],s=op.a[4]; if(n<0||b<0||n>LIM||n*b*std::max<i64>(oc,1)>LIM) return S_ILLEGAL; i64 x=old->extent; rep(n,b,[&](i64 i){return i*s*x;});
     if(!dry){ if(F){ int*a1=inI(n),*a2=inI(b),*a3=inI(s),*a4=inI(oldh); e=ierr(); call=[=]{ mpi_type_vector_(a1,a2,a3,a4,nt,e); }; } else call=[=,this]{ rc=MPI_Type_vector((int)n,(int)b,(int)s,oldh,nt); }; } break; }
   case O_THVEC: { NEED(6); i64 n=op.a[2],b=op.a[3],s=op.a[4]; int alt=(int)op.a[5]; if(n<0||b<0||n>LIM||n*b*std::max<i64>(oc,1)>LIM) return S_ILLEGAL; rep(n,b,[&](i64 i){return i*s;});
     if(!dry){ if(F){ int*a1=inI(n),*a2=inI(b),*a4=inI(oldh); long*a3=inL(s); e=ierr(); call=[=]{ (alt?mpi_type_create_hvector_:mpi_type_hvector_)(a1,a2,a3,a4,nt,e); }; } else call=[=,this]{ rc=(alt?MPI_Type_create_hvector:MPI_Type_hvector)((int)n,(int)b,(MPI_Aint)s,oldh,nt); }; } break; }
   case O_TINDEXED: case O_THINDEXED: { NEED(3); i64 n=op.a[2]; if(n<0||(i64)op.a.size()<3+2*n) return S_ILLEGAL; std::vector<i64> d; for(i64 i=0;i<n;i++){ bl.push_back(op.a[3+2*i]); d.push_back(op.a[4+2*i]); if(bl.back()<0) return S_ILLEGAL; total+=bl.back()*std::max<i64>(oc,1); if(total>LIM) return S_ILLEGAL; dp.push_back(op.k==O_TINDEXED?d.back()*old->extent:d.back()); ty.push_back(old);} 
     if(!dry){ int*bp=inA(bl); if(op.k==O_TINDEXED){ int*q=inA(d); if(F){ int*a=inI(n),*o=inI(oldh); e=ierr(); call=[=]{ mpi_type_indexed_(a,bp,q,o,nt,e); }; } else call=[=,this]{ rc=MPI_Type_indexed((int)n,bp,q,oldh,nt); }; }
       else { long*q=inLA(d); if(F){ int*a=inI(n),*o=inI(oldh); e=ierr(); call=[=]{ mpi_type_hindexed_(a,bp,q,o,nt,e); }; } else call=[=,this]{ rc=MPI_Type_hindexed((int)n,bp,(MPI_Aint*)q,oldh,nt); }; } } break; }
   case O_TIBLOCK: { NEED(4); i64 n=op.a[2],b=op.a[3]; if(n<0||b<0||(i64)op.a.size()<4+n||n*b*std::max<i64>(oc,1)>LIM) return S_ILLEGAL; std::vector<i64> d(op.a.begin()+4,op.a.begin()+4+n); for(i64 x:d){ bl.push_back(b); dp.push_back(x*old->extent); ty.push_back(old);} 
     if(!dry){ int*q=inA(d); if(F){ int*a=inI(n),*o=inI(oldh),*bb=inI(b); e=ierr(); call=[=]{ mpi_type_create_indexed_block_(a,bb,q,o,nt,e); }; } else call=[=,this]{ rc=MPI_Type_create_indexed_block((int)n,(int)b,q,oldh,nt); }; } break; }
   case O_TSTRUCT: { NEED(2); i64 n=op.a[1]; if(n<0||(i64)op.a.size()<2+3*n) return S_ILLEGAL; std::vector<i64> th; for(i64 i=0;i<n;i++){ bl.push_back(op.a[2+3*i]); dp.push_back(op.a[3+3*i]); TypeP t=typeOf(op.a[4+3*i]); if(!t||bl.back()<0) return S_ILLEGAL; ty.push_back(t); th.push_back(typeHandle(op.a[4+3*i])); total+=bl.back()*std::max<i64>(t->map.size(),1); if(total>LIM) return S_ILLEGAL; }
     if(!dry){ int*bp=inA(bl); long*q=inLA(dp); int*tp=inA(th); if(F){ int*a=inI(n); e=ierr(); call=[=]{ mpi_type_struct_(a,bp,q,tp,nt,e); }; } else call=[=,this]{ rc=MPI_Type_struct((int)n,bp,(MPI_Aint*)q,tp,nt); }; } break; }
   case O_TDUP: { if(F&&!mpi_type_dup_) return S_ILLEGAL; res=std::make_shared<TypeM>(*old); res->predef=0;
     if(!dry){ if(F){ int*a=inI(oldh); e=ierr(); call=[=]{ mpi_type_dup_(a,nt,e); }; } else { if(!MPI_Type_dup){ FAIL("RETCODE","MPI_Type_dup is declared but not provided by the library"); return S_ILLEGAL; } call=[=,this]{ rc=MPI_Type_dup(oldh,nt); }; } } break; }
   case O_TBIG: { // dst old kind n
     NEED(4); int kind=(int)op.a[2]; i64 n=op.a[3]; if(n<0||n*std::max<i64>(oc,1)>LIM) return S_ILLEGAL; i64 x=old->extent;
     if(kind==0){ rep(n,1,[&](i64 i){return i*2*x;}); if(!dry){ std::vector<i64> d; for(i64 i=0;i<n;i++) d.push_back(i*2); int*bp=inA(bl),*q=inA(d); if(F){ int*a=inI(n),*o=inI(oldh); e=ierr(); call=[=]{ mpi_type_indexed_(a,bp,q,o,nt,e); }; } else call=[=,this]{ rc=MPI_Type_indexed((int)n,bp,q,oldh,nt); }; } }
     else if(kind==1){ rep(n,1,[&](i64 i){return i*(x+1);}); if(!dry){ int*bp=inA(bl); long*q=inLA(dp); if(F){ int*a=inI(n),*o=inI(oldh); e=ierr(); call=[=]{ mpi_type_hindexed_(a,bp,q,o,nt,e); }; } else call=[=,this]{ rc=MPI_Type_hindexed((int)n,bp,(MPI_Aint*)q,oldh,nt); }; } }
     else if(kind==2){ rep(n,1,[&](i64 i){return i*3*x;}); if(!dry){ std::vector<i64> d; for(i64 i=0;i<n;i++) d.push_back(i*3); int*q=inA(d); if(F){ int*a=inI(n),*o=inI(oldh),*b=inI(1); e=ierr(); call=[=]{ mpi_type_create_indexed_block_(a,b,q,o,nt,e); }; } else call=[=,this]{ rc=MPI_Type_create_indexed_block((int)n,1,q,oldh,nt); }; } }
     else { std::vector<i64> th; rep(n,1,[&](i64 i){return i*(x+8);}); for(i64 i=0;i<n;i++) th.push_back(oldh); if(!dry){ int*bp=inA(bl); long*q=inLA(dp); int*tp=inA(th); if(F){ int*a=inI(n); e=ierr(); call=[=]{ mpi_type_struct_(a,bp,q,tp,nt,e); }; } else call=[=,this]{ rc=MPI_Type_struct((int)n,bp,(MPI_Aint*)q,tp,nt); }; } }
     break; }
  }
  if(!res) res=mkStruct(bl,dp,ty);
  if(res->size>(1<<30)) return S_ILLEGAL;
  if(!dry){ STOPIF(invoke(call,false,opName[op.k])); RCCHK(); }
  TypeSlot s; s.m=res; s.cell=cell; if(!dry){ s.handle=*nt; if(!newHandle("type",s.handle)) return S_VIOL; }
  types[dst]=s; liveHandles++; return S_OK;
}

// ================================================================ pack
StepR Sim::packOps(const Op&op){
  switch(op.k){
  case O_PKNEW: { NEED(3); int id=(int)op.a[0]; if(packs.count(id)||id<0||op.a[1]<0||op.a[1]>(1<<20)) return S_ILLEGAL; PackM p; p.size=op.a[1]; p.buf=mkBuf(predefType(MPI_BYTE),p.size,(u64)op.a[2],PERM_RW,0); if(!dry&&!p.buf) return S_ILLEGAL; packs[id]=p; return S_OK; }
  case O_PKSIZE: { NEED(3); TypeP t=typeOf(op.a[0]); if(!t||t->predef==MPI_LB||t->predef==MPI_UB) return S_ILLEGAL; i64 n=op.a[1]; LIVEC(op.a[2]); if(n<0||n*t->size>2000000000ll) return S_ILLEGAL; if(dry) return S_OK; int h=typeHandle(op.a[0]),ch=C.handle; i64 got;
    if(op.f){ int*a=inI(n),*b=inI(h),*c=inI(ch),*s=outI(),*e=ierr(); STOPIF(invoke([&]{ mpi_pack_size_(a,b,c,s,e); },false,"MPI_Pack_size")); RCCHK(); got=*s; }
    else { MPI_Aint*s=(MPI_Aint*)outL(); STOPIF(invoke([&]{ rc=MPI_Pack_size((int)n,h,ch,s); },false,"MPI_Pack_size")); RCCHK(); got=(i64)*s; }
    logI(got); if(got==(op.f?(i64)0x5a5a5a5a:(i64)0x5a5a5a5a5a5a5a5al)&&got!=n*t->size) FAIL("PACK","MPI_Pack_size did not set the size"); else if(got<n*t->size) FAIL("PACK","MPI_Pack_size says %lld, packing needs %lld bytes",(long long)got,(long long)(n*t->size)); return S_OK; }
  case O_PACK: case O_UNPACK: {
    NEED(6); auto it=packs.find((int)op.a[0]); if(it==packs.end()||it->second.pend) return S_ILLEGAL; PackM&P=it->second; TypeP t=typeOf(op.a[1]); if(!t||t->predef==MPI_LB||t->predef==MPI_UB) return S_ILLEGAL; i64 n=op.a[2]; LIVEC(op.a[3]); u64 seed=op.a[4]; int fl=(int)op.a[5]; if(n<0||n*(i64)t->map.size()>500000) return S_ILLEGAL;
    bool pack=op.k==O_PACK; i64 pos=pack?P.wpos:P.rpos; i64 lim=pack?P.size:P.wpos; bool lethal=pos+n*t->size>lim;
    if(!pack&&!overlapFree(*t,n)) return S_ILLEGAL;
    BufP b=mkBuf(t,n,seed,pack?PERM_R:PERM_RW,fl); if(!dry&&!b) return S_ILLEGAL; if(dry&&lethal) return S_END;
    if(!dry){
      void*ub=(void*)b->base,*pb=(void*)P.buf->base; int h=typeHandle(op.a[1]),ch=C.handle; int*ps=outI((int)pos);
      if(pack&&!lethal){ auto by=gather(*b,*t,n); Buf&pbuf=*P.buf; for(size_t i=0;i<by.size();i++) *expAt(pbuf,pbuf.base+pos+i)=by[i]; }
      if(!pack&&!lethal){ std::vector<u8> by; for(i64 i=0;i<n*t->size;i++) by.push_back(*expAt(*P.buf,P.buf->base+pos+i)); scatter(*b,*t,n,by); }
      if(lethal){ // may write what fits; nothing else
        if(pack) P.buf->dontcare=true; else b->dontcare=true; }
      if(!pack){ env::perm(P.buf->base,P.size,PERM_NONE); env::perm(P.buf->base,P.wpos,PERM_R); }
      if(op.f){ int*a=inI(n),*d=inI(h),*l=inI(lim),*c=inI(ch),*e=ierr(); STOPIF(invoke([&]{ if(pack) mpi_pack_(ub,a,d,pb,l,ps,c,e); else mpi_unpack_(pb,l,ps,ub,a,d,c,e); },lethal,pack?"MPI_Pack":"MPI_Unpack")); }
      else STOPIF(invoke([&]{ rc=pack?MPI_Pack(ub,(int)n,h,pb,(int)lim,ps,ch):MPI_Unpack(pb,(int)lim,ps,ub,(int)n,h,ch); },lethal,pack?"MPI_Pack":"MPI_Unpack"));
      if(lethal) return S_END;
      RCCHK(); env::perm(P.buf->base,P.size,PERM_RW);
      logI(*ps); if(*ps!=(int)(pos+n*t->size)) FAIL("PACK","position after %s is %d, expected %lld",pack?"MPI_Pack":"MPI_Unpack",*ps,(long long)(pos+n*t->size));
      if(!checkBuf(*b,pack?"BUF_INTEGRITY":"PAYLOAD",pack?"the packed item was modified":"unpacked item")) return S_VIOL; if(!checkBuf(*P.buf,"PACK","pack buffer contents")) return S_VIOL;
      retire(b);
    }
    if(lethal) return S_END;
    if(pack) P.wpos+=n*t->size; else P.rpos+=n*t->size; return S_OK; }
  }
  return S_ILLEGAL;
}

// ================================================================ collectives
enum { K_BARRIER,K_BCAST,K_GATHER,K_GATHERV,K_ALLGATHER,K_ALLGATHERV,K_SCATTER,K_SCATTERV,K_REDUCE,K_ALLREDUCE,K_REDSCAT,K_SCAN,K_A2A,K_A2AV,K_A2AW,K_N };
static const char*collName[]={"MPI_Barrier","MPI_Bcast","MPI_Gather","MPI_Gatherv","MPI_Allgather","MPI_Allgatherv","MPI_Scatter","MPI_Scatterv","MPI_Reduce","MPI_Allreduce","MPI_Reduce_scatter","MPI_Scan","MPI_Alltoall","MPI_Alltoallv","MPI_Alltoallw"};
static void userOp(void*,void*,int*,MPI_Datatype*){}
StepR Sim::collOps(const Op&op){
  if(op.k==O_OPCREATE){ NEED(1); if(dry) return S_OK; int*o=outI(); 
    if(op.f){ int*c=inI(op.a[0]),*e=ierr(); STOPIF(invoke([&]{ mpi_op_create_((void*)userOp,c,o,e); },false,"MPI_Op_create")); RCCHK(); e=ierr(); STOPIF(invoke([&]{ mpi_op_free_(o,e); },false,"MPI_Op_free")); RCCHK(); }
    else { int c=(int)op.a[0]; STOPIF(invoke([&]{ rc=MPI_Op_create(userOp,c,o); },false,"MPI_Op_create")); RCCHK(); STOPIF(invoke([&]{ rc=MPI_Op_free(o); },false,"MPI_Op_free")); RCCHK(); } return S_OK; }
  // kind comm stype scount rtype rcount sdispl rdispl root inplace seed opmode
  NEED(12); int kind=(int)op.a[0]; if(kind<0||kind>=K_N) return S_ILLEGAL; LIVEC(op.a[1]); TypeP sty=typeOf(op.a[2]); i64 sn=op.a[3]; TypeP rty=typeOf(op.a[4]); i64 rn=op.a[5]; i64 sd=op.a[6],rd=op.a[7]; int root=(int)op.a[8]; int inpl=(int)op.a[9]; u64 seed=op.a[10]; int opm=(int)op.a[11];
  if(!sty||!rty||sty->predef==MPI_LB||sty->predef==MPI_UB||rty->predef==MPI_LB||rty->predef==MPI_UB||sn<0||rn<0||sn*(i64)sty->map.size()>300000||rn*(i64)rty->map.size()>300000) return S_ILLEGAL;
  bool red=kind==K_REDUCE||kind==K_ALLREDUCE||kind==K_REDSCAT||kind==K_SCAN; if(red){ sty=rty; sn=rn; }
  bool rooted=kind==K_BCAST||kind==K_GATHER||kind==K_GATHERV||kind==K_SCATTER||kind==K_SCATTERV||kind==K_REDUCE;
  bool badRoot=false,skip=false; if(rooted){ if(root==MPI_ROOT&&kind!=K_REDUCE) skip=true; else if(root!=0) badRoot=true; }
  if(!rooted) root=0;
  if(kind==K_BARRIER||kind==K_BCAST) inpl=0;
  if(inpl&&skip) return S_ILLEGAL;
  bool lethal=badRoot; bool moves=!(kind==K_BARRIER||kind==K_BCAST||inpl||skip||badRoot);
  if(moves){ if(!sty->committed||!rty->committed) lethal=true; else if((i64)sty->map.size()*sn<(i64)rty->map.size()*rn) lethal=true; else if(sn*sty->size!=rn*rty->size||!sigOK(*sty,sn,*rty,rn)) return S_ILLEGAL; }
  else if(!sty->committed||!rty->committed) return S_ILLEGAL;
  if(!overlapFree(*rty,rn)) return S_ILLEGAL;
  if(dry) return lethal?S_END:S_OK;
  int ch=C.handle; 
  bool sv=kind==K_SCATTERV||kind==K_A2AV, rv=kind==K_GATHERV||kind==K_ALLGATHERV||kind==K_A2AV, w=kind==K_A2AW;
  i64 so=w?sd:sv?sd*sty->extent:0, ro=w?rd:rv?rd*rty->extent:0;
  BufP sb,rb; 
  if(kind!=K_BARRIER){ sb=mkBuf(sty,sn,seed,PERM_R,0); rb=mkBuf(rty,rn,seed+1,(inpl||lethal)?PERM_R:PERM_RW,0); if(!sb||!rb) return S_ILLEGAL; }
  void*sp=sb?(void*)(sb->base-so):nullptr,*rp=rb?(void*)(rb->base-ro):nullptr; 
  int sh=typeHandle(op.a[2]),rh=typeHandle(op.a[4]); if(red) sh=rh;
  bool rInPl=kind==K_SCATTER||kind==K_SCATTERV;
  if(inpl){ void*ip=op.f?(void*)fInPlace():MPI_IN_PLACE; if(rInPl) rp=ip; else sp=ip; }
  else if(moves&&!lethal){ auto by=gather(*sb,*sty,sn); scatter(*rb,*rty,rn,by); }
  if(kind==K_BCAST) sp=(void*)sb->base;
  static const int ops_[]={MPI_MAX,MPI_MIN,MPI_SUM,MPI_PROD,MPI_LAND,MPI_BAND,MPI_LOR,MPI_BOR,MPI_LXOR,MPI_BXOR,MPI_MAXLOC,MPI_MINLOC}; int o=ops_[(unsigned)opm%12];
  int*sc=inA({sn}),*rc1=inA({rn}),*sdp=inA({sd}),*rdp=inA({rd}),*sta=inA({sh}),*rta=inA({rh}); int S=(int)sn,R=(int)rn;
  if(op.f){ int*cc=inI(ch),*rt=inI(root),*oo=inI(o),*e=ierr();
    STOPIF(invoke([&]{ switch(kind){ case K_BARRIER: mpi_barrier_(cc,e); break; case K_BCAST: mpi_bcast_(sp,sc,sta,rt,cc,e); break; case K_GATHER: mpi_gather_(sp,sc,sta,rp,rc1,rta,rt,cc,e); break; case K_GATHERV: mpi_gatherv_(sp,sc,sta,rp,rc1,rdp,rta,rt,cc,e); break; case K_ALLGATHER: mpi_allgather_(sp,sc,sta,rp,rc1,rta,cc,e); break; case K_ALLGATHERV: mpi_allgatherv_(sp,sc,sta,rp,rc1,rdp,rta,cc,e); break; case K_SCATTER: mpi_scatter_(sp,sc,sta,rp,rc1,rta,rt,cc,e); break; case K_SCATTERV: mpi_scatterv_(sp,sc,sdp,sta,rp,rc1,rta,rt,cc,e); break; case K_REDUCE: mpi_reduce_(sp,rp,rc1,rta,oo,rt,cc,e); break; case K_ALLREDUCE: mpi_allreduce_(sp,rp,rc1,rta,oo,cc,e); break; case K_REDSCAT: mpi_reduce_scatter_(sp,rp,rc1,rta,oo,cc,e); break; case K_SCAN: mpi_scan_(sp,rp,rc1,rta,oo,cc,e); break; case K_A2A: mpi_alltoall_(sp,sc,sta,rp,rc1,rta,cc,e); break; case K_A2AV: mpi_alltoallv_(sp,sc,sdp,sta,rp,rc1,rdp,rta,cc,e); break; case K_A2AW: mpi_alltoallw_(sp,sc,sdp,sta,rp,rc1,rdp,rta,cc,e); break; } },lethal,collName[kind])); }
  else STOPIF(invoke([&]{ switch(kind){ case K_BARRIER: rc=MPI_Barrier(ch); break; case K_BCAST: rc=MPI_Bcast(sp,S,sh,root,ch); break; case K_GATHER: rc=MPI_Gather(sp,S,sh,rp,R,rh,root,ch); break; case K_GATHERV: rc=MPI_Gatherv(sp,S,sh,rp,rc1,rdp,rh,root,ch); break; case K_ALLGATHER: rc=MPI_Allgather(sp,S,sh,rp,R,rh,ch); break; case K_ALLGATHERV: rc=MPI_Allgatherv(sp,S,sh,rp,rc1,rdp,rh,ch); break; case K_SCATTER: rc=MPI_Scatter(sp,S,sh,rp,R,rh,root,ch); break; case K_SCATTERV: rc=MPI_Scatterv(sp,sc,sdp,sh,rp,R,rh,root,ch); break; case K_REDUCE: rc=MPI_Reduce(sp,rp,R,rh,o,root,ch); break; case K_ALLREDUCE: rc=MPI_Allreduce(sp,rp,R,rh,o,ch); break; case K_REDSCAT: rc=MPI_Reduce_scatter(sp,rp,rc1,rh,o,ch); break; case K_SCAN: rc=MPI_Scan(sp,rp,R,rh,o,ch); break; case K_A2A: rc=MPI_Alltoall(sp,S,sh,rp,R,rh,ch); break; case K_A2AV: rc=MPI_Alltoallv(sp,sc,sdp,sh,rp,rc1,rdp,rh,ch); break; case K_A2AW: rc=MPI_Alltoallw(sp,sc,sdp,sta,rp,rc1,rdp,rta,ch); break; } },lethal,collName[kind]));
  if(lethal) return S_END;
  RCCHK();
  if(sb){ if(!checkBuf(*sb,"BUF_INTEGRITY","the send buffer of a collective was modified")) return S_VIOL; if(!checkBuf(*rb,"PAYLOAD",inpl?"receive buffer of an in-place collective":"receive buffer of a collective")) return S_VIOL; retire(sb); retire(rb); }
  return S_OK;
}

// ================================================================ the rest
StepR Sim::miscOps(const Op&op){
  switch(op.k){
  case O_INIT: {
    NEED(2); int mode=(int)op.a[0],req=(int)op.a[1]; if(mode<0||mode>1||req<0||req>3) return S_ILLEGAL;
    bool lethal=inited; bool may=everInit&&!inited; 
    if(dry){ if(lethal) return S_END; inited=everInit=true; finalized=false; comms.clear(); types.clear(); groups.clear(); reqs.clear(); packs.clear(); for(auto&h:hset) h.clear(); CommM c; c.uid=nextUid++; comms[0]=c; liveHandles=1; return S_OK; }
    int*prov=outI(); mayEnd=may; int r;
    if(op.f){ int*e=ierr(); int*rq=inI(req); r=invoke([&]{ if(mode) mpi_init_thread_(rq,prov,e); else mpi_init_(e); },lethal,mode?"mpi_init_thread":"mpi_init"); }
    else { r=invoke([&]{ rc=mode?MPI_Init_thread(nullptr,nullptr,req,prov):MPI_Init(nullptr,nullptr); },lethal,mode?"MPI_Init_thread":"MPI_Init"); }
    mayEnd=false; STOPIF(r); if(lethal) return S_END; RCCHK();
    if(mode){ logI(*prov); if(*prov<MPI_THREAD_SINGLE||*prov>MPI_THREAD_MULTIPLE) FAIL("THREAD","MPI_Init_thread granted level %d, which is no thread level",*prov); grantedThread=*prov; } else grantedThread=-1; threads::level=grantedThread;
    inited=everInit=true; finalized=false; comms.clear(); types.clear(); groups.clear(); reqs.clear(); packs.clear(); for(auto&h:hset) h.clear();
    CommM c; c.uid=nextUid++; c.handle=MPI_COMM_WORLD; comms[0]=c; liveHandles=1; return S_OK; }
  case O_FINALIZE: { if(!dry){ if(op.f){ int*e=ierr(); STOPIF(invoke([&]{ mpi_finalize_(e); },false,"MPI_Finalize")); } else STOPIF(invoke([&]{ rc=MPI_Finalize(); },false,"MPI_Finalize")); RCCHK(); if(!checkAll(true)) return S_VIOL; }
    for(auto&r:reqs) if(r.second.buf&&r.second.pb<0){ r.second.buf->dontcare=false; retire(r.second.buf); } 
    for(auto&p:packs) retire(p.second.buf);
    inited=false; finalized=true; comms.clear(); types.clear(); groups.clear(); reqs.clear(); packs.clear(); for(auto&h:hset) h.clear(); liveHandles=0; return S_OK; }
  case O_ABORT: { NEED(2); LIVEC(op.a[0]); int code=(int)op.a[1]; if(dry) return S_END; int ch=C.handle; st.lib++;
    Outcome o; if(op.f){ int*a=inI(ch),*b=inI(code),*e=ierr(); o=threads::run(op.task,[&]{ mpi_abort_(a,b,e); }); } else o=threads::run(op.task,[&]{ MPI_Abort(ch,code); });
    dead=true; logI(o.kind); logI(o.code);
    if(o.kind==OUT_MEM||o.kind==OUT_CRASH||o.kind==OUT_HANG){ FAIL(o.kind==OUT_MEM?"MEM":o.kind==OUT_HANG?"HANG":"CRASH","MPI_Abort: %s",o.detail.c_str()); return S_END; }
    if(o.kind==OUT_RET){ FAIL("DEATH_MISSING","MPI_Abort returned"); return S_END; }
    st.lethal++;
    if(!o.viaExit||(o.code&0xff)!=(code&0xff)) FAIL("ABORT","MPI_Abort(%d) ended with %s %d",code,o.viaExit?"exit code":"signal",o.code);
    if(o.diag.find_first_not_of(" \n\t")==std::string::npos) FAIL("DEATH_SILENT","MPI_Abort printed nothing");
    if(!checkAll(true)) return S_VIOL;
    return S_END; }
  case O_INITQ: { if(dry) return S_OK; int*f=outI(); if(op.f){ int*e=ierr(); STOPIF(invoke([&]{ mpi_initialized_(f,e); },false,"MPI_Initialized")); } else STOPIF(invoke([&]{ rc=MPI_Initialized(f); },false,"MPI_Initialized")); RCCHK(); logI(*f!=0); if((*f!=0)!=inited||*f==0x5a5a5a5a) FAIL("INITQ","MPI_Initialized says %d, the library is %s",*f,inited?"initialized":"not initialized"); return S_OK; }
  case O_CLOCK: { NEED(1); clockUs+=op.a[0]; if(!dry){ env::nowUs=clockUs; env::cnt.clockJump++; } return S_OK; }
  case O_CLOCKFAIL: { NEED(1); clockBad=op.a[0]!=0; if(!dry) env::clockFails=clockBad; return S_OK; }
  case O_WTIME: { i64 want=clockUs; if(dry){ return clockBad?S_END:S_OK; } env::nowUs=clockUs; double v=-1; if(op.f) STOPIF(invoke([&]{ sim_fwtime_(&v); },clockBad,"mpi_wtime")); else STOPIF(invoke([&]{ v=MPI_Wtime(); },clockBad,"MPI_Wtime")); if(clockBad) return S_END;
    double w=(double)want/1e6; double d=v-w; if(d<0) d=-d; u64 bits; memcpy(&bits,&v,8); logI((i64)bits); double tol=1e-6+ (w<0?-w:w)*4e-16; if(!(d<=tol)) FAIL("TIME","MPI_Wtime returned %.9f, the clock reads %.6f",v,w); return S_OK; }
  case O_HOST: { NEED(3); hostMode=(int)op.a[0]; i64 len=op.a[1]; if(len<0||len>5000) return S_ILLEGAL; hostName.clear(); for(i64 i=0;i<len;i++) hostName+=(char)('a'+hash2(op.a[2],i)%26); if(!dry){ env::hostMode=hostMode; env::hostName=hostName; } return S_OK; }
  case O_PROCNAME: { if(dry) return S_OK; char*b=(char*)scr(MPI_MAX_PROCESSOR_NAME+64,PERM_NONE); memset(b,0x7e,MPI_MAX_PROCESSOR_NAME+64); env::perm((u64)b,MPI_MAX_PROCESSOR_NAME,PERM_RW); int*l=outI();
    if(op.f){ int*e=ierr(); STOPIF(invoke([&]{ mpi_get_processor_name_(b,l,e,MPI_MAX_PROCESSOR_NAME); },false,"mpi_get_processor_name")); } else STOPIF(invoke([&]{ rc=MPI_Get_processor_name(b,l); },false,"MPI_Get_processor_name")); RCCHK();
    for(int i=0;i<64;i++) if(b[MPI_MAX_PROCESSOR_NAME+i]!=0x7e) FAIL("NAME","MPI_Get_processor_name wrote beyond MPI_MAX_PROCESSOR_NAME");
    int n=*l; logI(n); if(n<0||n>=MPI_MAX_PROCESSOR_NAME) FAIL("NAME","processor name length %d does not fit MPI_MAX_PROCESSOR_NAME",n);
    else { if(!op.f&&(int)strnlen(b,MPI_MAX_PROCESSOR_NAME)!=n) FAIL("NAME","processor name length reported %d, actual %zu",n,strnlen(b,MPI_MAX_PROCESSOR_NAME));
      bool failed=hostMode==1; std::string got(b,n); logI((i64)fnv(1,got.data(),got.size()));
      if(failed){ if(n==0) FAIL("NAME","no placeholder name when the host name is unavailable"); }
      else { std::string w=hostName.substr(0,MPI_MAX_PROCESSOR_NAME-1); bool ok=got==w || (hostMode==2&&hostName.size()>=MPI_MAX_PROCESSOR_NAME&&n>0); if(!ok) FAIL("NAME","processor name is \"%s\", host is called \"%s\" (cut to fit)",got.substr(0,200).c_str(),w.c_str()); } }
    return S_OK; }
  case O_ERRSTR: { NEED(1); if(dry) return S_OK; int code=(int)op.a[0]; char*b=(char*)scr(MPI_MAX_ERROR_STRING+64,PERM_NONE); memset(b,0x7e,MPI_MAX_ERROR_STRING+64); env::perm((u64)b,MPI_MAX_ERROR_STRING,PERM_RW); int*l=outI();
    if(op.f){ int*c=inI(code),*e=ierr(); STOPIF(invoke([&]{ mpi_error_string_(c,b,l,e,MPI_MAX_ERROR_STRING); },false,"mpi_error_string")); } else STOPIF(invoke([&]{ rc=MPI_Error_string(code,b,l); },false,"MPI_Error_string")); RCCHK();
    for(int i=0;i<64;i++) if(b[MPI_MAX_ERROR_STRING+i]!=0x7e) FAIL("NAME","MPI_Error_string wrote beyond MPI_MAX_ERROR_STRING");
    int n=*l; logI(n); if(n<=0||n>=MPI_MAX_ERROR_STRING||(!op.f&&(int)strnlen(b,MPI_MAX_ERROR_STRING)!=n)) FAIL("NAME","MPI_Error_string reported length %d, actual %zu",n,strnlen(b,MPI_MAX_ERROR_STRING)); return S_OK; }
  case O_LIBVER: { if(dry) return S_OK; const int M=MPI_MAX_LIBRARY_VERSION_STRING; char*b=(char*)scr(M+64,PERM_NONE); memset(b,0x7e,M+64); env::perm((u64)b,M,PERM_RW); int*l=outI();
    if(op.f){ int*e=ierr(); STOPIF(invoke([&]{ mpi_get_library_version_(b,l,e,M); },false,"mpi_get_library_version")); } else STOPIF(invoke([&]{ rc=MPI_Get_library_version(b,l); },false,"MPI_Get_library_version")); RCCHK();
    for(int i=0;i<64;i++) if(b[M+i]!=0x7e) FAIL("NAME","MPI_Get_library_version wrote beyond MPI_MAX_LIBRARY_VERSION_STRING");
    int n=*l; logI(n); if(n<=0||n>=M) FAIL("NAME","library version length %d",n);
    else if(op.f){ for(int i=n;i<M;i++) if(b[i]!=' ') FAIL("NAME","Fortran library version is not blank-padded at position %d",i); for(int i=0;i<n;i++) if(!b[i]) FAIL("NAME","library version contains a NUL"); }
    else if((int)strnlen(b,M)!=n) FAIL("NAME","library version length reported %d, actual %zu",n,strnlen(b,M));
    return S_OK; }
  case O_MISC: { NEED(1); if(dry) return S_OK; int k=(int)op.a[0];
    if(k==0){ int*a=outI(),*b=outI(); if(op.f){ int*e=ierr(); STOPIF(invoke([&]{ mpi_get_version_(a,b,e); },false,"mpi_get_version")); } else STOPIF(invoke([&]{ rc=MPI_Get_Version(a,b); },false,"MPI_Get_Version")); RCCHK(); logI(*a); logI(*b); if(*a<1||*b<0||*a==0x5a5a5a5a) FAIL("NAME","MPI_Get_version gives %d.%d",*a,*b); }
    else if(k==1){ int*i=outI(); char*key=(char*)scr(8,PERM_R); strcpy(key,"key"); if(op.f){ int*e=ierr(); STOPIF(invoke([&]{ mpi_info_create_(i,e); },false,"mpi_info_create")); RCCHK(); e=ierr(); STOPIF(invoke([&]{ mpi_info_set_(i,key,key,e,3,3); },false,"mpi_info_set")); RCCHK(); e=ierr(); STOPIF(invoke([&]{ mpi_info_free_(i,e); },false,"mpi_info_free")); RCCHK(); }
      else { STOPIF(invoke([&]{ rc=MPI_Info_create(i); },false,"MPI_Info_create")); RCCHK(); STOPIF(invoke([&]{ rc=MPI_Info_set(*i,key,key); },false,"MPI_Info_set")); RCCHK(); STOPIF(invoke([&]{ rc=MPI_Info_free(i); },false,"MPI_Info_free")); RCCHK(); } }
    else if(k==2&&!op.f&&inited){ STOPIF(invoke([&]{ rc=MPI_Errhandler_set(MPI_COMM_WORLD,MPI_ERRORS_RETURN); },false,"MPI_Errhandler_set")); RCCHK(); }
    else if(k==3){ u64 a=USER_BASE+12345; if(op.f){ long*r=outL(); int*e=ierr(); int which=op.t&1; STOPIF(invoke([&]{ if(which) mpi_address_((void*)a,r,e); else mpi_get_address_((void*)a,r,e); },false,"mpi_get_address")); RCCHK(); if((u64)*r!=a) FAIL("TYPE_QUERY","mpi_get_address gave %lx for %llx",*r,(unsigned long long)a); }
      else { MPI_Aint*r=(MPI_Aint*)outL(); int which=op.t&1; STOPIF(invoke([&]{ rc=which?MPI_Address((void*)a,r):MPI_Get_address((void*)a,r); },false,"MPI_Get_address")); RCCHK(); if((u64)*r!=a) FAIL("TYPE_QUERY","MPI_Get_address gave %lx for %llx",(unsigned long)*r,(unsigned long long)a); } }
    return S_OK; }
  case O_CONV: { // a handle value through both languages: a live handle (kind, slot) or any integer
    NEED(3); int kind=(int)op.a[0]; i64 pickv=op.a[1]; int v=(int)op.a[2]; if(kind<0||kind>3||pickv<0) return S_ILLEGAL; if(dry) return S_OK;
    if(op.a[2]==-7777777){ v=1; if(kind==0&&!comms.empty()){ auto it=comms.begin(); std::advance(it,pickv%comms.size()); v=it->second.handle; } if(kind==1&&!groups.empty()){ auto it=groups.begin(); std::advance(it,pickv%groups.size()); v=*(int*)it->second.cell; } if(kind==2){ std::vector<int> hs; for(auto&q:reqs) if(q.second.state==R_PENDING||q.second.state==R_DONE) if(q.second.handle) hs.push_back(q.second.handle); if(!hs.empty()) v=hs[pickv%hs.size()]; } }
    int a=0,b=0; const char*nm[]={"MPI_Comm","MPI_Group","MPI_Request","MPI_Op"};
    STOPIF(invoke([&]{ switch(kind){ case 0: a=MPI_Comm_f2c(MPI_Comm_c2f(v)); b=MPI_Comm_c2f(MPI_Comm_f2c(v)); break; case 1: a=MPI_Group_f2c(MPI_Group_c2f(v)); b=MPI_Group_c2f(MPI_Group_f2c(v)); break; case 2: a=MPI_Request_f2c(MPI_Request_c2f(v)); b=MPI_Request_c2f(MPI_Request_f2c(v)); break; default: a=MPI_Op_f2c(MPI_Op_c2f(v)); b=MPI_Op_c2f(MPI_Op_f2c(v)); } },false,nm[kind]));
    logI(a); logI(b); if(a!=v||b!=v) FAIL("CONV","%s handle %d: c2f then f2c gives %d, f2c then c2f gives %d",nm[kind],v,a,b); return S_OK; }
  case O_FCONST: { // a component compiled against mpif.h and one compiled against mpi.h
    if(dry) return S_OK; static std::vector<int> fv,fs; if(fv.empty()){ fv.resize(sim_fc_n); fs.resize(sim_fc_n); sim_fc_get_(fv.data(),fs.data()); }
    if(sim_fc_mod_){ static std::vector<int> mv,ms; static int ab=0; if(mv.empty()){ mv.resize(sim_fc_n); ms.resize(sim_fc_n); sim_fc_mod_(mv.data(),ms.data()); sim_fc_addr_(&ab); }
      for(int i=0;i<sim_fc_n;i++) if(mv[i]!=fv[i]||ms[i]!=fs[i]) FAIL("CONST","%s is %d in the Fortran module and %d in mpif.h",sim_fc_name[i],mv[i],fv[i]);
      if(ab!=(int)sizeof(MPI_Aint)) FAIL("CONST","an integer of kind MPI_ADDRESS_KIND occupies %d bytes, MPI_Aint %d",ab,(int)sizeof(MPI_Aint)); }
    for(int i=0;i<sim_fc_n;i++){ std::string n=sim_fc_name[i]; logI(fv[i]);
      if(sim_fc_have[i]&&(long)fv[i]!=sim_fc_c[i]) FAIL("CONST","%s is %d in mpif.h and %ld in mpi.h",n.c_str(),fv[i],sim_fc_c[i]);
      int want=n=="MPI_SOURCE"?(int)(offsetof(MPI_Status,MPI_SOURCE)/4+1):n=="MPI_TAG"?(int)(offsetof(MPI_Status,MPI_TAG)/4+1):n=="MPI_ERROR"?(int)(offsetof(MPI_Status,MPI_ERROR)/4+1):n=="MPI_STATUS_SIZE"?(int)(sizeof(MPI_Status)/4):fv[i];
      if(want!=fv[i]) FAIL("CONST","%s is %d in mpif.h, MPI_Status has it at %d",n.c_str(),fv[i],want);
      if(inited&&fs[i]>0){ int*a=inI(fv[i]),*s=outI(),*e=ierr(); STOPIF(invoke([&]{ mpi_type_size_(a,s,e); },false,"mpi_type_size")); if(!checkRc(1)) return S_VIOL; logI(*s); if(*s!=fs[i]) FAIL("CONST","the Fortran type of %s (%d) occupies %d bytes, the library takes it for %d",n.c_str(),fv[i],fs[i],*s); } }
    return S_OK; }
  case O_INITSKEW: { // initialisation by a component compiled against another mpif.h or with another size of the basic types
    NEED(2); if(inited||!mpi_init_fort_) return S_ILLEGAL; int which=(int)op.a[0]; i64 d=op.a[1]; if(which<0||which>24) return S_ILLEGAL; if(which<16&&d==0) return S_ILLEGAL;
    static const char*nm[]={"MPI_COMM_WORLD","MPI_ANY_SOURCE","MPI_ANY_TAG","MPI_PROC_NULL","MPI_ROOT","MPI_COMM_NULL","MPI_REQUEST_NULL","MPI_GROUP_NULL","MPI_GROUP_EMPTY","MPI_UNDEFINED","MPI_MAX_ERROR_STRING","MPI_MAX_PROCESSOR_NAME","MPI_STATUS_SIZE","MPI_SOURCE","MPI_TAG","MPI_ERROR"};
    bool lethal=which<22; bool may=everInit;
    if(which==16&&(d==MPI_INTEGER||!predefType((int)d)||predefType((int)d)->size!=4)) return S_ILLEGAL;
    static const int nat[]={4,4,FR,FD,2*FR}; if(which>=17&&which<=21&&(d<1||d>64||d==nat[which-17])) return S_ILLEGAL;
    if(dry){ if(lethal) return S_END; inited=everInit=true; finalized=false; comms.clear(); types.clear(); groups.clear(); reqs.clear(); packs.clear(); for(auto&h:hset) h.clear(); CommM c; c.uid=nextUid++; comms[0]=c; liveHandles=1; return S_OK; }
    static std::vector<int> fv,fs; if(fv.empty()){ fv.resize(sim_fc_n); fs.resize(sim_fc_n); sim_fc_get_(fv.data(),fs.data()); }
    auto F=[&](const char*n)->i64{ for(int i=0;i<sim_fc_n;i++) if(!strcmp(sim_fc_name[i],n)) return fv[i]; return 0; };
    int*c[16]; for(int i=0;i<16;i++) c[i]=inI((int)(i64)(F(nm[i])+(i==which?d:0)));
    int*ti=inI(which==16?(int)d:F("MPI_INTEGER")),*tl=inI(F("MPI_LOGICAL")),*tr=inI(which==23?MPI_REAL4:which==24?MPI_REAL8:F("MPI_REAL")),*td=inI(F("MPI_DOUBLE_PRECISION")),*tc=inI(F("MPI_COMPLEX"));
    char*sto=(char*)outA(256); int*st4=outA(8); int*e=ierr(); auto P=[&](int slot,int natural){ return sto+slot*128+(which==17+slot?d:natural); }; 
    char*i1=sto,*i2=P(0,4),*l1=sto+128,*l2=P(1,4),*r1=sto+256,*r2=P(2,which==24?8:which==23?4:FR),*d1=sto+384,*d2=P(3,FD),*c1=sto+512,*c2=P(4,2*FR);
    mayEnd=may&&!lethal; int r=invoke([&]{ mpi_init_fort_(c[0],c[1],c[2],c[3],c[4],c[5],c[6],c[7],c[8],c[9],c[10],c[11],c[12],c[13],c[14],c[15],st4,st4,st4+1,st4+2,ti,i1,i2,tl,l1,l2,tr,r1,r2,td,d1,d2,tc,c1,c2,e); },lethal,"mpi_init with a mismatched mpif.h");
    mayEnd=false; STOPIF(r); if(lethal) return S_END; if(!checkRc(1)) return S_VIOL;
    grantedThread=-1; threads::level=grantedThread; inited=everInit=true; finalized=false; comms.clear(); types.clear(); groups.clear(); reqs.clear(); packs.clear(); for(auto&h:hset) h.clear();
    CommM cm; cm.uid=nextUid++; cm.handle=MPI_COMM_WORLD; comms[0]=cm; liveHandles=1; return S_OK; }
  case O_ALLOCFAIL: { NEED(2); if(!dry) env::armAlloc(op.a[0],(int)op.a[1]); return S_OK; }
  case O_FILL: { NEED(1); if(!dry&&env::cfg.variant!=1) env::cfg.fill=(int)op.a[0]%5; return S_OK; }
  case O_DIE: deadTasks.insert(op.task); return S_OK;
  case O_MARK: { // begin (0 repeats) or end of an epoch: remember what the library holds
    purge(); if(!dry&&op.a.size()&&op.a[0]>0){ epochs.push_back({env::liveHeap(),env::liveBlocks()}); } return S_OK; }
  case O_MASS: return massOps(op);
  case O_GIANT: return giantOps(op);
  case O_MT: return mtOps(op);
  }
  return S_ILLEGAL;
}

// forget null requests and idle pack buffers (their slots can be used again)
void Sim::purge(){
  for(auto it=reqs.begin();it!=reqs.end();){ if(it->second.state==R_NULL){ if(!dry&&it->second.cell) env::ufree(it->second.cell,4); it=reqs.erase(it); } else ++it; }
  for(auto it=packs.begin();it!=packs.end();){ if(it->second.pend==0){ retire(it->second.buf); it=packs.erase(it); } else ++it; }
}
i64 Sim::population() const { i64 n=(i64)comms.size()*1000003+(i64)types.size()*1009+(i64)groups.size(); i64 k=0; for(auto&r:reqs) if(r.second.state==R_PENDING||r.second.state==R_DONE) k++; return n*100003+k; }

// n similar operations as one (creation and release of many objects)
StepR Sim::massOps(const Op&op){
  NEED(6); int kind=(int)op.a[0]; i64 base=op.a[1],n=op.a[2],ref=op.a[3]; int order=(int)op.a[4]; u64 seed=op.a[5];
  if(n<0||n>300000||base<0) return S_ILLEGAL;
  std::vector<i64> ix(n); for(i64 i=0;i<n;i++) ix[i]=order==1?n-1-i:i;
  if(order==2){ Rng g(seed); for(i64 i=n-1;i>0;i--) std::swap(ix[i],ix[g.below(i+1)]); }
  if(order==3){ i64 h=n/2; for(i64 i=0;i<n;i++) ix[i]=(i&1)?h+i/2:i/2; if(n&1) for(i64 i=0;i<n;i++) ix[i]=i; }
  bool any=false; const Op*save=cur;
  if(kind==14){ // one array completion call over all of them
    static const int AK[]={O_TESTANY,O_WAITANY,O_TESTALL,O_WAITALL,O_TESTSOME,O_WAITSOME}; if(ref<0||ref>5||n<1||n>20000) return S_ILLEGAL;
    Op s; s.task=op.task; s.t=op.t; s.f=op.f==2?(int)(seed&1):op.f; s.k=AK[ref]; s.a={(i64)((seed>>1)%4==0),n}; for(i64 i=0;i<n;i++){ auto it=reqs.find((int)(base+ix[i])); s.a.push_back(it==reqs.end()||it->second.state==R_NONE||it->second.freed||hash2(seed,ix[i])%64==0?-1:base+ix[i]); }
    if(!dry) scrReset(); cur=&s; StepR r=doStep(s); cur=save; if(r==S_ILLEGAL) return r; if(ended!=S_OK) return ended; if(r!=S_OK) return r; if(!dry&&!checkAll(false)) return S_VIOL; return S_OK; }
  if(kind==15){ // the same call over and over
    if(order<0||order>9) return S_ILLEGAL;
    for(i64 k=0;k<n;k++){
      Op s; s.task=op.task; s.t=op.t; u64 h=hash2(seed,k); s.f=op.f==2?(int)(h&1):op.f; h>>=1; i64 si=(h>>3)%4==0;
      switch(order){
        case 0: s.k=O_TEST; s.a={base,si}; break;
        case 1: s.k=O_TESTANY; s.a={si,2,-1,base}; break;
        case 2: s.k=O_TESTALL; s.a={si,2,ref>0?ref-1:-1,base}; break;
        case 3: s.k=O_TESTSOME; s.a={si,1,base}; break;
        case 4: s.k=O_IPROBE; s.a={ref,(i64)((h>>5)&1)?0:MPI_ANY_SOURCE,base,si}; break;
        case 5: s.k=O_COLL; s.a={(seed>>3)&1?(i64)((seed>>5)%15):(i64)((h>>5)%15),ref,MPI_INT,1,MPI_INT,1,0,0,0,(i64)((h>>10)%5==0),(i64)(h>>2),(i64)((h>>20)%12)}; break;
        case 6: s.k=O_WTIME; break;
        case 7: s.k=O_CSIZE; s.a={ref}; break;
        case 8: s.k=O_SENDRECV; s.a={ref,(i64)(h%3),MPI_INT,1,0,(i64)(h>>2),(i64)(h%3),MPI_INT,1,0,(i64)(h>>3),si,0}; break;
        default: s.k=O_TQUERY; s.a={ref>=0?MPI_INT:ref}; break; }
      if(!dry) scrReset(); cur=&s; StepR r=doStep(s); cur=save; if(r==S_ILLEGAL) return any?S_OK:S_ILLEGAL; any=true; if(ended!=S_OK) return ended; if(r!=S_OK) return r;
      if(!dry&&(k&4095)==0&&!checkAll(false)) return S_VIOL;
    }
    return any?S_OK:S_ILLEGAL; }
  // a small type of one shape or another; a small communicator made one way or another
  auto shape=[&](Op&s,u64 h,i64 slot){ i64 o=ref; switch(h%9){
    case 0: s.k=O_TCONTIG; s.a={slot,o,1+(i64)(h>>8)%5}; break;
    case 1: s.k=O_TVECTOR; s.a={slot,o,2,1,2+(i64)(h>>8)%3}; break;
    case 2: s.k=O_THVEC; s.a={slot,o,2,1,24+(i64)(h>>8)%9,(i64)(h>>12)&1}; break;
    case 3: s.k=O_TINDEXED; s.a={slot,o,2,1,0,1,3}; break;
    case 4: s.k=O_THINDEXED; s.a={slot,o,2,1,40,2,0}; break;
    case 5: s.k=O_TIBLOCK; s.a={slot,o,2,1,0,2}; break;
    case 6: s.k=O_TDUP; s.a={slot,o}; break;
    case 7: s.k=O_TSTRUCT; s.a={slot,2,1,0,o,1,24+(i64)(h>>8)%9,MPI_UB}; break;
    default: s.k=O_TSTRUCT; s.a={slot,2,1,-8-(i64)(h>>8)%9,MPI_LB,1,0,o}; break; } };
  auto comm=[&](Op&s,u64 h,i64 slot){ switch(h%6){
    case 0: case 1: s.k=O_CDUP; s.a={slot,ref}; break;
    case 2: s.k=O_CSPLIT; s.a={slot,ref,(i64)(h>>8)%4,(i64)(int)(h>>16)}; break;
    case 3: s.k=O_CART; s.a={slot,ref,2,0,1,1,(i64)(h>>8)&1,(i64)(h>>9)&1}; break;
    case 4: s.k=O_ICREATE; s.a={slot,ref,ref,(i64)(h>>8)%9}; break;
    default: s.k=O_IMERGE; s.f=0; s.a={slot,ref,(i64)(h>>8)&1}; break; } };
  if((kind>=11&&kind<=13)||(kind>=16&&kind<=18)){ // rounds of create and release: counters advance, nothing stays
    for(i64 k=0;k<n;k++){
      Op s; s.task=op.task; s.t=op.t; u64 h=hash2(seed,k); s.f=op.f==2?(int)(h&1):op.f; Op q[8]; for(auto&x:q) x=s; int m=2; i64 tag=(i64)(h>>8)%5;
      if(kind==11){ bool rf=(h>>1)&1; m=4; q[rf].k=O_ISEND; q[rf].a={base+rf,ref,tag,MPI_INT,1,0,(i64)(h>>2),0}; q[!rf].k=O_IRECV; q[!rf].a={base+!rf,ref,tag,MPI_INT,1,0,(i64)(h>>2),0}; bool t=(h>>4)&1; q[2].k=q[3].k=O_TEST; q[2].a={base+t,1}; q[3].a={base+!t,1};
        if(order==5){ int v=(int)((h>>40)%8); bool any_=(h>>50)&1; i64 rt=any_?(i64)MPI_ANY_TAG:tag, ign=(h>>51)&1; auto snd=[&](Op&o){ o.k=O_SEND; o.a={ref,tag,MPI_INT,1,0,(i64)(h>>2),0,(i64)((h>>52)%3)}; }; auto rcv=[&](Op&o){ o.k=O_RECV; o.a={ref,rt,MPI_INT,1,0,(i64)(h>>2),0,ign}; }; auto irc=[&](Op&o,i64 sl){ o.k=O_IRECV; o.a={sl,ref,rt,MPI_INT,1,0,(i64)(h>>2),0}; }; auto isn=[&](Op&o,i64 sl){ o.k=O_ISEND; o.a={sl,ref,tag,MPI_INT,1,0,(i64)(h>>2),0}; };
          switch(v){ case 1: irc(q[0],base); snd(q[1]); q[2].k=O_WAIT; q[2].a={base,ign}; m=3; break;
            case 2: isn(q[0],base); q[1].k=(h>>54)&1?O_PROBE:O_IPROBE; q[1].a={ref,0,rt,ign}; rcv(q[2]); q[3].k=O_WAIT; q[3].a={base,ign}; m=4; break;
            case 3: q[0].k=O_SENDRECV; q[0].a={ref,tag,MPI_INT,1,0,(i64)(h>>2),rt,MPI_INT,1,0,(i64)(h>>3),ign,0}; m=1; break;
            case 4: irc(q[0],base); isn(q[1],base+1); q[2].k=(h>>54)&1?O_WAITALL:O_TESTALL; q[2].a={ign,2,base+((h>>55)&1),base+!((h>>55)&1)}; m=3; break;
            case 5: isn(q[0],base); irc(q[1],base+1); q[2].k=q[3].k=(h>>54)&1?O_WAITANY:O_TESTANY; q[2].a=q[3].a={ign,2,base,base+1}; m=4; break;
            case 6: isn(q[0],base); irc(q[1],base+1); q[2].k=(h>>54)&1?O_WAITSOME:O_TESTSOME; q[2].a={ign,2,base,base+1}; m=3; break;
            case 7: isn(q[0],base); q[1].k=O_REQFREE; q[1].a={base}; rcv(q[2]); m=3; break;
            default: break; } } }
      else if(kind==12){ q[0].k=O_CDUP; q[0].a={base,ref}; if(order==5) comm(q[0],h>>3,base); q[1].k=O_CFREE; q[1].a={base}; }
      else if(kind==13){ q[0].k=O_TCONTIG; q[0].a={base,ref,1+(k%3)}; m=0; if(order==5){ shape(q[0],h>>3,base); if((h>>40)%4){ m++; q[m].k=O_TCOMMIT; q[m].a={base}; } if((h>>44)%3==0){ m++; q[m].k=O_TQUERY; q[m].a={base}; } } m++; q[m].k=O_TFREE; q[m].a={base}; m++; }
      else if(kind==16){ q[0].k=O_CGROUP; q[0].a={base,ref}; q[1].k=O_GINCL; q[1].a={base+1,base,(i64)((h>>4)&1)}; if((h>>4)&1) q[1].a.push_back(0); q[2].k=O_GSET; q[2].a={base+2,(i64)((h>>5)%3),base+((h>>8)&1),base+((h>>9)&1)}; q[3].k=O_GTRANS; q[3].a={base,base+2,1,0}; q[4].k=O_CCREATE; q[4].a={base,ref,base+2}; q[5].k=O_CFREE; q[5].a={base}; m=8; q[6].k=q[7].k=O_GFREE; q[6].a={base}; q[7].a={base+1}; }
      else if(kind==17){ q[0].k=O_PKNEW; q[0].a={base,64,(i64)(h>>2)}; q[1].k=O_PACK; q[1].a={base,MPI_INT,1+(i64)((h>>5)%3),ref,(i64)(h>>3),0}; q[2].k=O_PACK; q[2].a={base,MPI_DOUBLE,1+(i64)((h>>8)%3),ref,(i64)(h>>4),0}; q[3].k=O_UNPACK; q[3].a={base,MPI_INT,q[1].a[2],ref,(i64)(h>>5),0}; q[4].k=O_UNPACK; q[4].a={base,MPI_DOUBLE,1,ref,(i64)(h>>6),0}; m=5; if((h>>20)%4==0){ q[5].k=O_PKSIZE; q[5].a={MPI_DOUBLE,(i64)((h>>24)%9),ref}; m=6; } }
      else if(kind==18){ m=1; switch((h>>3)%7){ case 0: q[0].k=O_OPCREATE; q[0].a={(i64)((h>>9)&1)}; break; case 1: q[0].k=O_CONV; q[0].a={(i64)((h>>9)%4),(i64)((h>>12)%1000),((h>>30)&1)?-7777777:(i64)(int)(h>>31)}; break; case 2: q[0].k=O_ERRSTR; q[0].a={(i64)((h>>9)%40)-20}; break; case 3: q[0].k=O_LIBVER; q[0].a={}; break; case 4: q[0].k=O_PROCNAME; q[0].a={}; break; case 5: q[0].k=O_INITQ; q[0].a={}; break; default: q[0].k=O_MISC; q[0].a={(i64)((h>>9)%4)}; } }
      for(int j=0;j<m;j++){ if(!dry) scrReset(); cur=&q[j]; StepR r=doStep(q[j]); cur=save; if(r==S_ILLEGAL){ if(j==0&&kind==11) return any?S_OK:S_ILLEGAL; if(j==0&&kind!=18&&kind!=12) return any?S_OK:S_ILLEGAL; continue; } any=true; if(ended!=S_OK) return ended; if(r!=S_OK) return r; }
      if(kind==16&&groups.count((int)base+2)){ Op z=s; z.k=O_GFREE; z.a={base+2}; if(!dry) scrReset(); cur=&z; StepR r=doStep(z); cur=save; if(ended!=S_OK) return ended; if(r!=S_OK&&r!=S_ILLEGAL) return r; }
      if(kind==11) for(int sl=0;sl<2;sl++){ auto it=reqs.find((int)base+sl); if(it!=reqs.end()&&(it->second.state==R_NULL||(it->second.freed&&it->second.state!=R_PENDING))){ if(!dry&&it->second.cell) env::ufree(it->second.cell,4); reqs.erase(it); } }
      if(kind==17){ auto it=packs.find((int)base); if(it!=packs.end()){ retire(it->second.buf); packs.erase(it); } }
      if(!dry&&(k&4095)==0&&!checkAll(false)) return S_VIOL;
    }
    return any?S_OK:S_ILLEGAL; }
  for(i64 k=0;k<n;k++){
    i64 i=ix[k]; Op s; s.task=op.task; s.t=op.t; s.f=op.f==2?(int)(hash2(seed,i)&1):op.f;
    switch(kind){
      case 0: s.k=O_TCONTIG; s.a={base+i,ref,1+(i%3)}; if(order==5) shape(s,hash2(seed,i)>>3,base+i); break;
      case 1: s.k=O_CDUP; s.a={base+i,ref}; if(order==5) comm(s,hash2(seed,i)>>3,base+i); break;
      case 2: s.k=O_ISEND; s.a={base+i,ref,(i64)(i%7),-3,1,0,(i64)(hash2(seed,i)>>2),0}; break;   // MPI_INT
      case 3: s.k=O_IRECV; s.a={base+i,ref,(i64)(i%7),-3,1,0,(i64)(hash2(seed,i)>>2),0}; break;
      case 4: s.k=O_TFREE; s.a={base+i}; break;
      case 5: s.k=O_CFREE; s.a={base+i}; break;
      case 6: s.k=O_TEST; s.a={base+i,1}; break;
      case 7: s.k=O_REQFREE; s.a={base+i}; break;
      case 8: s.k=O_TCOMMIT; s.a={base+i}; break;
      case 9: s.k=O_TQUERY; s.a={base+i}; break;
      case 10: s.k=O_CSIZE; s.a={base+i}; break;
      default: return S_ILLEGAL; }
    if((kind==2||kind==3)) s.a[3]=op.a.size()>6?op.a[6]:(i64)MPI_INT;
    if(!dry) scrReset(); cur=&s;
    StepR r=doStep(s); cur=save;
    if(r==S_ILLEGAL) continue; any=true;
    if(ended!=S_OK) return ended;
    if(r!=S_OK) return r;
    if(!dry&&(k&1023)==0&&!checkAll(false)) return S_VIOL;
  }
  return any?S_OK:S_ILLEGAL;
}

// Beyond what fits in memory or in an int. Only the first part of such a buffer exists: a call that delivers all of
// it must run into the end, so what is judged is whether it can return without having done so.
StepR Sim::giantOps(const Op&op){
  NEED(6); int kind=(int)op.a[0];
  if(kind==3){ // kind pack type n room seed [comm]: pack or unpack with position and size next to INT_MAX
    NEED(7); bool pack=op.a[1]!=0; TypeP t=typeOf(op.a[2]); i64 n=op.a[3],room=op.a[4]; u64 seed=(u64)op.a[5]; LIVEC(op.a[6]); if(!t||t->predef==MPI_LB||t->predef==MPI_UB||n<0||n*(i64)t->map.size()>20000||room<0||room>100000||t->size<0||!overlapFree(*t,n)) return S_ILLEGAL;
    i64 want=n*t->size; bool lethal=want>room; if(lethal&&t->size==0) return S_ILLEGAL; if(dry) return lethal?S_END:S_OK;
    i64 outsize=INT_MAX-(i64)(seed%3), pos=outsize-room; BufP w=mkBuf(predefType(MPI_BYTE),room,seed,pack?PERM_RW:PERM_R,0), b=mkBuf(t,n,seed+1,pack?PERM_R:PERM_RW,0); if(!w||!b) return S_ILLEGAL;
    void*pb=(void*)(w->base-(u64)pos),*ub=(void*)b->base; int h=typeHandle(op.a[2]),ch=C.handle; int*ps=outI((int)pos);
    if(lethal) (pack?w:b)->dontcare=true;
    else if(pack){ auto by=gather(*b,*t,n); for(size_t i=0;i<by.size();i++) *expAt(*w,w->base+i)=by[i]; }
    else { std::vector<u8> by; for(i64 i=0;i<want;i++) by.push_back(*expAt(*w,w->base+i)); scatter(*b,*t,n,by); }
    if(op.f){ int*a=inI(n),*d=inI(h),*l=inI(outsize),*c=inI(ch),*e=ierr(); STOPIF(invoke([&]{ if(pack) mpi_pack_(ub,a,d,pb,l,ps,c,e); else mpi_unpack_(pb,l,ps,ub,a,d,c,e); },lethal,pack?"MPI_Pack":"MPI_Unpack")); }
    else STOPIF(invoke([&]{ rc=pack?MPI_Pack(ub,(int)n,h,pb,(int)outsize,ps,ch):MPI_Unpack(pb,(int)outsize,ps,ub,(int)n,h,ch); },lethal,pack?"MPI_Pack":"MPI_Unpack"));
    if(lethal) return S_END;
    RCCHK(); logI(*ps); if(*ps!=(int)(pos+want)) FAIL("PACK","position after %s is %d, expected %lld",pack?"MPI_Pack":"MPI_Unpack",*ps,(long long)(pos+want));
    if(!checkBuf(*b,pack?"BUF_INTEGRITY":"PAYLOAD",pack?"the packed item was modified":"unpacked item")) return S_VIOL; if(!checkBuf(*w,pack?"PACK":"BUF_INTEGRITY","pack buffer contents")) return S_VIOL;
    retire(b); retire(w); return S_OK; }
  if(kind==4){ // kind which type n b seed: a datatype with more entries than an int can count
    int which=(int)op.a[1]; TypeP t=typeOf(op.a[2]); i64 n=op.a[3],bl=op.a[4]; if(!t||t->predef==MPI_LB||t->predef==MPI_UB||t->map.empty()||n<1||n>64||bl<1||bl>INT_MAX) return S_ILLEGAL;
    if(n*bl*(i64)t->map.size()<=INT_MAX) return S_ILLEGAL; if(dry) return S_END;
    int h=typeHandle(op.a[2]); int*nt=outI(); std::vector<i64> B(n,bl),D,T(n,h); for(i64 i=0;i<n;i++) D.push_back(i*4096);
    if(which==0&&bl*(i64)t->map.size()<=INT_MAX) return S_ILLEGAL;
    int*bp=inA(B),*tp=inA(T),*dp=inA(D); long*lp=inLA(D); int N=(int)n,BL=(int)bl; const char*nm=""; std::function<void()> f; int*e=op.f?ierr():nullptr; int*fn=op.f?inI(which==0?bl:n):nullptr,*fb=op.f?inI(bl):nullptr,*fs=op.f?inI(7):nullptr,*fh=op.f?inI(h):nullptr;
    switch(which){
      case 0: nm="MPI_Type_contiguous"; if(op.f) f=[=]{ mpi_type_contiguous_(fn,fh,nt,e); }; else f=[=]{ MPI_Type_contiguous(BL,h,nt); }; break;
      case 1: nm="MPI_Type_vector"; if(op.f) f=[=]{ mpi_type_vector_(fn,fb,fs,fh,nt,e); }; else f=[=]{ MPI_Type_vector(N,BL,7,h,nt); }; break;
      case 2: nm="MPI_Type_indexed"; if(op.f) f=[=]{ mpi_type_indexed_(fn,bp,dp,fh,nt,e); }; else f=[=]{ MPI_Type_indexed(N,bp,dp,h,nt); }; break;
      case 3: nm="MPI_Type_struct"; if(op.f) f=[=]{ mpi_type_struct_(fn,bp,lp,tp,nt,e); }; else f=[=]{ MPI_Type_struct(N,bp,(MPI_Aint*)lp,tp,nt); }; break;
      default: return S_ILLEGAL; }
    st.lib++; Outcome o=threads::run(op.task,f); logI(o.kind); dead=true;
    if(verbose) logText+=fmt("    %s (%lld entries): outcome %d %s %s\n",nm,(long long)(n*bl*(i64)t->map.size()),o.kind,o.diag.c_str(),o.detail.c_str());
    if(o.kind==OUT_MEM) FAIL("MEM","%s of %lld entries: %s",nm,(long long)(n*bl*(i64)t->map.size()),o.detail.c_str());
    if(o.kind==OUT_CRASH) FAIL("CRASH","%s of %lld entries: %s",nm,(long long)(n*bl*(i64)t->map.size()),o.detail.c_str());
    if(o.kind==OUT_DEATH){ st.lethal++; if((o.viaExit&&(o.code&0xff)==0)||o.diag.find_first_not_of(" \n\t")==std::string::npos) FAIL("DEATH_SILENT","%s of %lld entries: stopped without saying why",nm,(long long)(n*bl*(i64)t->map.size())); if(!checkAll(true)) return S_VIOL; }
    if(o.kind==OUT_RET){ // whatever it made of it, it must not pass for a type of another size
      i64 sz=n*bl*t->size; if(which==0) sz=bl*t->size; int*s2=outI(); int nh=*nt; Outcome q=threads::run(op.task,[=]{ MPI_Type_size(nh,s2); }); if(q.kind==OUT_RET&&sz<=INT_MAX&&*s2!=(int)sz) FAIL("TYPE_QUERY","%s made a datatype of size %d out of %lld bytes",nm,*s2,(long long)sz); }
    return S_END; }
  // kind comm type n seed n2 [coll]: 0 collective, 1 send first, 2 receive first, 5 collective with too small a source
  if(kind!=0&&kind!=1&&kind!=2&&kind!=5) return S_ILLEGAL;
  NEED(7); LIVEC(op.a[1]); TypeP t=typeOf(op.a[2]); i64 n=op.a[3],n2=op.a[5]; u64 seed=(u64)op.a[4]; int ck=(int)op.a[6];
  if(!t||t->predef==MPI_LB||t->predef==MPI_UB||!t->committed||n<1||!sizeOK(*t,n)||!isGiant(*t,n)||!overlapFree(*t,n)) return S_ILLEGAL;
  if(!C.sends.empty()||!C.recvs.empty()) return S_ILLEGAL;
  if(kind==5&&(n2<0||n2*(i64)t->map.size()>2000||n2>=n)) return S_ILLEGAL;
  if(dry) return S_END;
  BufP sb=mkBuf(t,kind==5?n2:n,seed,PERM_R,0),rb=mkBuf(t,n,seed+1,PERM_RW,0); if(!sb||!rb) return S_ILLEGAL; rb->dontcare=true;
  void*sp=(void*)sb->base,*rp=(void*)rb->base; int h=typeHandle(op.a[2]),ch=C.handle,N=(int)n,SN=kind==5?(int)n2:N; int*q1=outI(),*q2=outI(); int*sc=inA({SN}),*rcn=inA({n}),*z=inA({0}); const char*nm; std::function<void()> f;
  int*fh=inI(h),*fz=inI(0),*ft=inI(5),*fc=inI(ch),*e=ierr();
  if(kind==1){ nm="MPI_Irecv"; if(op.f) f=[=]{ mpi_isend_(sp,sc,fh,fz,ft,fc,q1,e); mpi_irecv_(rp,rcn,fh,fz,ft,fc,q2,e); }; else f=[=]{ MPI_Isend(sp,N,h,0,5,ch,q1); MPI_Irecv(rp,N,h,0,5,ch,q2); }; }
  else if(kind==2){ nm="MPI_Isend"; if(op.f) f=[=]{ mpi_irecv_(rp,rcn,fh,fz,ft,fc,q2,e); mpi_isend_(sp,sc,fh,fz,ft,fc,q1,e); }; else f=[=]{ MPI_Irecv(rp,N,h,0,5,ch,q2); MPI_Isend(sp,N,h,0,5,ch,q1); }; }
  else { static const int ks[]={K_GATHER,K_GATHERV,K_ALLGATHER,K_ALLGATHERV,K_SCATTER,K_SCATTERV,K_A2A,K_A2AV,K_A2AW,K_REDUCE,K_ALLREDUCE,K_REDSCAT,K_SCAN}; int k=ks[(unsigned)ck%(kind==5?9:13)]; nm=collName[k]; int*ty=inA({h}); int*fo=inI(MPI_SUM);
    if(op.f) f=[=]{ switch(k){ case K_GATHER: mpi_gather_(sp,sc,fh,rp,rcn,fh,fz,fc,e); break; case K_GATHERV: mpi_gatherv_(sp,sc,fh,rp,rcn,z,fh,fz,fc,e); break; case K_ALLGATHER: mpi_allgather_(sp,sc,fh,rp,rcn,fh,fc,e); break; case K_ALLGATHERV: mpi_allgatherv_(sp,sc,fh,rp,rcn,z,fh,fc,e); break; case K_SCATTER: mpi_scatter_(sp,sc,fh,rp,rcn,fh,fz,fc,e); break; case K_SCATTERV: mpi_scatterv_(sp,sc,z,fh,rp,rcn,fh,fz,fc,e); break; case K_A2A: mpi_alltoall_(sp,sc,fh,rp,rcn,fh,fc,e); break; case K_A2AV: mpi_alltoallv_(sp,sc,z,fh,rp,rcn,z,fh,fc,e); break; case K_A2AW: mpi_alltoallw_(sp,sc,z,ty,rp,rcn,z,ty,fc,e); break; case K_REDUCE: mpi_reduce_(sp,rp,rcn,fh,fo,fz,fc,e); break; case K_ALLREDUCE: mpi_allreduce_(sp,rp,rcn,fh,fo,fc,e); break; case K_REDSCAT: mpi_reduce_scatter_(sp,rp,rcn,fh,fo,fc,e); break; case K_SCAN: mpi_scan_(sp,rp,rcn,fh,fo,fc,e); break; } };
    else f=[=]{ switch(k){ case K_GATHER: MPI_Gather(sp,SN,h,rp,N,h,0,ch); break; case K_GATHERV: MPI_Gatherv(sp,SN,h,rp,rcn,z,h,0,ch); break; case K_ALLGATHER: MPI_Allgather(sp,SN,h,rp,N,h,ch); break; case K_ALLGATHERV: MPI_Allgatherv(sp,SN,h,rp,rcn,z,h,ch); break; case K_SCATTER: MPI_Scatter(sp,SN,h,rp,N,h,0,ch); break; case K_SCATTERV: MPI_Scatterv(sp,sc,z,h,rp,N,h,0,ch); break; case K_A2A: MPI_Alltoall(sp,SN,h,rp,N,h,ch); break; case K_A2AV: MPI_Alltoallv(sp,sc,z,h,rp,rcn,z,h,ch); break; case K_A2AW: MPI_Alltoallw(sp,sc,z,ty,rp,rcn,z,ty,ch); break; case K_REDUCE: MPI_Reduce(sp,rp,N,h,MPI_SUM,0,ch); break; case K_ALLREDUCE: MPI_Allreduce(sp,rp,N,h,MPI_SUM,ch); break; case K_REDSCAT: MPI_Reduce_scatter(sp,rp,rcn,h,MPI_SUM,ch); break; case K_SCAN: MPI_Scan(sp,rp,N,h,MPI_SUM,ch); break; } }; }
  if(kind==5){ STOPIF(invoke(f,true,nm)); return S_END; }
  st.lib++; Outcome o=threads::run(op.task,f); logI(o.kind); dead=true; st.probes[2]++;
  if(verbose) logText+=fmt("    %s of %lld x %lld bytes: outcome %d %s %s\n",nm,(long long)n,(long long)t->size,o.kind,o.diag.c_str(),o.detail.c_str());
  if(o.kind==OUT_RET) FAIL("PAYLOAD","%s of %lld elements of %lld bytes returned without having delivered them (only the first %lld bytes are accessible)",nm,(long long)n,(long long)t->size,(long long)GIANT_BYTES);
  return S_END;
}

// several threads inside the library at once; legal only if MPI_THREAD_MULTIPLE was granted
struct MtArg { int comm; int id; int rounds; u64 seed; char err[200]; };
static void mtProgram(MtArg*a){
  Rng g(hash2(a->seed,a->id)); int buf[8][6],rb[8][6]; MPI_Request q[16]; MPI_Status st;
  for(int r=0;r<a->rounds;r++){
    MPI_Datatype t; int n=1+(int)g.below(3); int k=1+(int)g.below(6);
    if(MPI_Type_contiguous(n,MPI_INT,&t)!=MPI_SUCCESS||MPI_Type_commit(&t)!=MPI_SUCCESS){ snprintf(a->err,sizeof a->err,"thread %d: type creation failed",a->id); return; }
    bool first=g.chance(0.5);
    for(int i=0;i<k;i++) for(int j=0;j<6;j++){ buf[i][j]=a->id*100000+r*1000+i*10+j; rb[i][j]=-1; }
    for(int i=0;i<k;i++){ int c=g.chance(0.3)?MPI_COMM_WORLD:a->comm; int tag=1+a->id*100+i;
      if(first){ MPI_Irecv(rb[i],1,t,0,tag,c,&q[2*i]); MPI_Isend(buf[i],1,t,0,tag,c,&q[2*i+1]); }
      else { MPI_Isend(buf[i],1,t,0,tag,c,&q[2*i+1]); MPI_Irecv(rb[i],1,t,MPI_ANY_SOURCE,tag,c,&q[2*i]); } }
    for(int i=k-1;i>=0;i--){ MPI_Wait(&q[2*i],&st); if(st.MPI_TAG!=1+a->id*100+i){ snprintf(a->err,sizeof a->err,"thread %d round %d: received tag %d, expected %d",a->id,r,st.MPI_TAG,1+a->id*100+i); return; } MPI_Wait(&q[2*i+1],&st); }
    for(int i=0;i<k;i++) for(int j=0;j<6;j++){ int w=j<n?buf[i][j]:-1; if(rb[i][j]!=w){ snprintf(a->err,sizeof a->err,"thread %d round %d: message %d word %d is %d, expected %d",a->id,r,i,j,rb[i][j],w); return; } }
    int sz=0; MPI_Type_size(t,&sz); if(sz!=4*n){ snprintf(a->err,sizeof a->err,"thread %d round %d: its datatype has size %d, expected %d",a->id,r,sz,4*n); return; }
    MPI_Type_free(&t);
  }
}
StepR Sim::mtOps(const Op&op){
  NEED(4); int n=(int)op.a[0],rounds=(int)op.a[1]; u64 seed=op.a[2]; i64 prob=op.a[3]; if(n<2||n>6||rounds<1||rounds>50||prob<1) return S_ILLEGAL;
  if(!comms[0].sends.empty()||!comms[0].recvs.empty()) return S_ILLEGAL;
  if(dry) return S_OK;
  if(grantedThread!=MPI_THREAD_MULTIPLE||!threads::useThreads) return S_OK;   // not permitted: nothing to run
  std::vector<MtArg> args(n); std::vector<std::function<void()>> fs;
  for(int i=0;i<n;i++){ int*c=outI(); STOPIF(invoke([&]{ rc=MPI_Comm_dup(MPI_COMM_WORLD,c); },false,"MPI_Comm_dup")); args[i]=MtArg{*c,i,rounds,seed,{0}}; fs.push_back([&args,i]{ mtProgram(&args[i]); }); }
  auto out=threads::parallel(fs,seed,prob); st.lib+=n; st.probes[1]+=n;
  for(int i=0;i<n;i++){ logI(out[i].kind); const char*w=nullptr; std::string d=out[i].detail;
    if(out[i].kind==OUT_DEATH){ w="terminated the program"; d=out[i].diag; } else if(out[i].kind!=OUT_RET) w=out[i].kind==OUT_MEM?"made a bad memory access":out[i].kind==OUT_HANG?"hung":"crashed"; else if(args[i].err[0]){ w="got wrong results"; d=args[i].err; }
    if(w){ dead=true; FAIL("THREAD","MPI_THREAD_MULTIPLE was granted, but one of %d threads working on communicators and tags of their own %s: %s",n,w,d.c_str()); return S_END; } }
  for(int i=0;i<n;i++){ int*c=outI(); *c=args[i].comm; STOPIF(invoke([&]{ rc=MPI_Comm_free(c); },false,"MPI_Comm_free")); }
  return S_OK;
}
