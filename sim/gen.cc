// The workload and fault scheduler. A discrete-event loop: every simulated
// component (a model of a coupled application) has a wake-up time; the earliest
// one performs its next operation and draws its next think time. Components
// stall, run in bursts and die. What is drawn is first tried on the reference
// model alone, so that a run consists of operations whose outcome is defined.
#include "gen.h"
#include "capi.h"
#include <algorithm>
#include <climits>
#include <array>

enum Act { A_ISEND,A_IRECV,A_SEND,A_RECV,A_SENDRECV,A_PROBE,A_TEST,A_WAIT,A_ANY,A_ALL,A_SOME,A_REQFREE,A_TYPE,A_TFREE,A_TQUERY,A_COMM,A_CFREE,A_CQ,A_GROUP,A_PACK,A_COLL,A_CLOCK,A_WTIME,A_HOST,A_NAME,A_STR,A_INITQ,A_FILL,A_DIE,A_MT,A_REINIT,A_MASS,A_PAIR,A_FREEUSE,A_CONV,A_FCONST,A_GIANT,A_POLL,A_N };
struct Knobs { double w[A_N]; int nops=120; int tasks=4; int comms=3; int tags=4; int tagBase=0; int maxCount=40; int fams=3; double pFort=0.3; double pLethal=0.2; double pDrain=0.7; double pNull=0.04; double pAny=0.3; double pBig=0.02; double pFar=0.02; double pBottom=0.08; double pStIgn=0.25; double pDerived=0.5; bool threads=false; int nestMax=4; double pMisalign=0.15; double pDone=0.5; int pendCap=40; double pShort=0.3; };

static const int famBase[][4]={ {MPI_INT,0},{MPI_DOUBLE,0},{MPI_CHAR,0},{MPI_DOUBLE,MPI_INT,0},{MPI_SHORT,MPI_CHAR,0},{MPI_BYTE,0},{MPI_INT,MPI_CHAR,MPI_DOUBLE,0},{MPI_LONG_DOUBLE,0},{MPI_2INT,0},{MPI_COMPLEX32,0},{MPI_SHORT,0},{MPI_FLOAT_INT,MPI_CHAR,0},{MPI_INTEGER16,MPI_SHORT,0},{MPI_UNSIGNED_CHAR,MPI_LONG,0} };
static const int NFAM=sizeof famBase/sizeof*famBase;

struct Gen {
  Rng r; Sim d; Trace tr; Knobs k; std::string prop; int deep;
  int nextReq=0,nextComm=1,nextType=0,nextGroup=0,nextPack=0; i64 now=0; int task=0;
  std::map<int,int> tfam;              // type slot -> family
  std::map<int,int> cfam;              // comm slot -> family
  bool over=false,ep=false; bool protect=false,unbalanced=false; std::set<int> pT,pC,pG;
  std::vector<int> mine;               // recent request slots
  int famDef[NFAM+1][4];                 // the data of this run: usual families, some replaced by random ones over all predefined types
  Gen(const std::string&p,u64 seed,int dp):r(hash2(seed,fnv(17,p.data(),p.size()))),d(true),prop(p),deep(dp){
    memset(famDef,0,sizeof famDef); memcpy(famDef,famBase,sizeof famBase); famDef[NFAM][0]=MPI_INT; static const std::vector<int> all=allPredef(); double q=r.chance(0.3)?0:w01();
    for(auto&f:famDef) if(&f!=famDef+NFAM&&r.chance(q)){ int n=r.chance(0.6)?1:1+(int)r.below(3); for(int i=0;i<4;i++) f[i]=i<n?all[r.below(all.size())]:0; } }

  double w01(){ return (r.next()>>11)*(1.0/9007199254740992.0); }
  i64 logu(i64 a,i64 b){ if(b<=a) return a; double la=__builtin_log((double)a+1),lb=__builtin_log((double)b+1); return (i64)(__builtin_exp(la+(lb-la)*w01())-1+0.5); }
  template<class T> const T& pick(const std::vector<T>&v){ return v[r.below(v.size())]; }
  i64 seed(){ return (i64)(r.next()>>2); }
  int fl(){ return r.chance(k.pFort)?1:0; }
  bool emit(int kind,std::vector<i64> a,int f=-1,bool lethalOk=false){
    if(protect&&((kind==O_TFREE&&pT.count((int)a[0]))||(kind==O_CFREE&&pC.count((int)a[0]))||(kind==O_GFREE&&pG.count((int)a[0])))) return false;
    Op o; o.k=kind; o.task=task; o.t=now; o.f=f<0?fl():f; o.a=std::move(a);
    StepR s=d.step(o);
    if(s==S_ILLEGAL) return false;
    if(s==S_END){ d.dead=false; d.ended=S_OK; if(!lethalOk) return false; tr.ops.push_back(o); over=true; return true; }
    tr.ops.push_back(o); return true;
  }

  // ---------------------------------------------------------------- choices
  int aComm(){ std::vector<int> v; for(auto&c:d.comms) v.push_back(c.first); if(v.empty()) return 0; if(r.chance(0.4)) return 0; return pick(v); }
  int famOf(int c){ auto it=cfam.find(c); return it==cfam.end()?0:it->second; }
  int aTag(){ static const int sp[]={INT_MAX,INT_MAX-1,32767,32768,65535,65536,0x40000000,255,256,-0}; if(r.chance(0.06)) return sp[r.below(10)]; return k.tagBase+(int)r.below(k.tags); }
  int unitLen(int fam){ int n=0; for(int i=0;famDef[fam][i];i++) n+=(int)predefType(famDef[fam][i])->size; return n; }
  // a type reference of the family with `units` signature units per element; -> (ref, units)
  i64 span(const TypeM&t,i64 n){ if(t.map.empty()||n<=0) return 0; i64 e=t.extent*(n-1); if(e<0) e=-e; return t.hi()-t.lo()+e; }
  bool aType(int fam,bool recv,i64 wantUnits,i64&ref,i64&count,bool committed=true){
    std::vector<int> c; if(r.chance(k.pDerived)) for(auto&t:d.types){ auto it=tfam.find(t.first); if(it==tfam.end()||it->second!=fam||!t.second.m) continue; if(committed!=t.second.m->committed) continue; c.push_back(t.first); }
    int ul=unitLen(fam);
    for(int tries=0;tries<6;tries++){
      if(!c.empty()){ int s=pick(c); TypeM&m=*d.types[s].m; i64 u=m.size/ul; i64 n; if(u==0) n=r.below(4); else { n=wantUnits/u; if(n==0&&wantUnits>0&&r.chance(0.7)) n=1; }
        if(n>k.maxCount*50) n=k.maxCount*50;
        if(span(m,n)>(4<<20)&&n*(i64)m.map.size()>40000) continue;
        if(span(m,n)>30ll<<30) continue;
        if(recv&&!overlapFree(m,n)) continue; ref=s; count=n; return true; }
      if(!famDef[fam][1]&&committed){ ref=famDef[fam][0]; count=wantUnits; TypeP m=predefType(ref); if(recv&&!overlapFree(*m,count)) continue; return true; }
      // need the struct for this family
      c.clear(); for(auto&t:d.types){ auto it=tfam.find(t.first); if(it!=tfam.end()&&it->second==fam&&t.second.m&&t.second.m->committed==committed) c.push_back(t.first); }
      if(c.empty()){ if(!committed) return false; if(!baseStruct(fam)) return false; c.push_back(nextType-1); }
    }
    return false;
  }
  bool baseStruct(int fam){ int s=nextType++; std::vector<i64> a={s,0}; i64 off=0; int n=0; std::vector<std::pair<i64,int>> el; for(int i=0;famDef[fam][i];i++){ i64 l=predefType(famDef[fam][i])->ub; el.push_back({off,famDef[fam][i]}); off+=l+(r.chance(0.5)?(i64)r.below(9):0); n++; }
    if(r.chance(0.2)) for(auto&e:el) e.first=-e.first;      // negative displacements
    if(el.size()>1&&el[1].first<0){ i64 o=0; for(auto&e:el){ e.first=o; o-=predefType(e.second)->ub+16; } }
    a[1]=n; for(auto&e:el){ a.push_back(1); a.push_back(e.first); a.push_back(e.second); }
    if(!emit(O_TSTRUCT,a)) return false; tfam[s]=fam; if(r.chance(0.97)) emit(O_TCOMMIT,{s}); return d.types[s].m->committed; }
  i64 aCount(){ if(r.chance(0.08)) return 0; static const i64 edge[]={1,2,3,7,8,255,256,257,1023,1024,1025,4096}; if(r.chance(k.pBig*0.05)) return 65533+(i64)r.below(7000); if(r.chance(k.pBig)){ int x=r.below(3); return x==0?edge[3+r.below(9)]:x==1?40+(i64)r.below(1200):(1ll<<(5+r.below(8)))+(i64)r.below(5)-2; } if(r.chance(0.1)) return edge[r.below(5)]; return logu(0,k.maxCount); }

  i64 unitsOf(const ReqM&q,int c){ return std::min<i64>(q.count*q.ty->size/unitLen(famOf(c)),isGiant(*q.ty,q.count)?1+(i64)r.below(200):4000000); }
  // a count whose elements or bytes go beyond what an int holds
  bool giantType(int c,i64&ref,i64&n){
    i64 x; if(!aType(famOf(c),true,1,ref,x)) return false; TypeP t=d.typeOf(ref); if(t->size<=0||t->size>2000||span(*t,GIANT_BYTES/t->size+2)>(3<<20)||!overlapFree(*t,4000000)) return false;
    i64 m=(i64)t->map.size(), base; switch(r.below(6)){ case 0: base=INT_MAX; break; case 1: base=(1ll<<31)/t->size; break; case 2: base=(1ll<<32)/t->size; break; case 3: base=(1ll<<31)/m; break; case 4: base=(1ll<<32)/m; break; default: base=logu(4000000,INT_MAX); }
    n=base+(i64)r.below(9)-4; if(n>INT_MAX) n=INT_MAX-(i64)r.below(4); return isGiant(*t,n); }
  void doGiant(){
    int c=aComm(); CommM&C=d.comms[c]; if((int)C.sends.size()>k.pendCap||(int)C.recvs.size()>k.pendCap) return; i64 gr,gn,sr,sn; if(!giantType(c,gr,gn)) return; int tag=aTag(); if(!C.recvs.empty()||!C.sends.empty()) tag=700000+(int)r.below(50);
    int a=nextReq++,b=nextReq++; bool snd=r.chance(0.6);
    auto probe=[&]{ if(r.chance(0.7)) emit(r.chance(0.3)?O_PROBE:O_IPROBE,{c,r.chance(0.5)?MPI_ANY_SOURCE:0,r.chance(0.2)?MPI_ANY_TAG:tag,r.chance(0.1)}); };
    if(snd){ if(r.chance(0.8)){ if(!emit(O_ISEND,{a,c,tag,gr,gn,0,seed(),bufFlags()&8,0})) return; probe(); if(r.chance(0.4)) act(A_PAIR); if(r.chance(0.3)) return; if(!aType(famOf(c),true,aCount(),sr,sn)) return; if(r.chance(0.5)) emit(O_RECV,{c,tag,sr,sn,0,seed(),bufFlags()&8,r.chance(k.pStIgn)}); else { emit(O_IRECV,{b,c,tag,sr,sn,0,seed(),bufFlags()}); mine.push_back(b); } }
      else { if(!aType(famOf(c),true,aCount(),sr,sn)||!emit(O_IRECV,{b,c,tag,sr,sn,0,seed(),bufFlags()})) return; if(r.chance(0.5)) emit(O_SEND,{c,tag,gr,gn,0,seed(),0,(i64)r.below(3)}); else { emit(O_ISEND,{a,c,tag,gr,gn,0,seed(),0,0}); mine.push_back(a); } mine.push_back(b); } }
    else { if(r.chance(0.5)){ if(!emit(O_IRECV,{b,c,tag,gr,gn,0,seed(),bufFlags()&8})) return; if(!aType(famOf(c),false,aCount(),sr,sn)) return; if(r.chance(0.5)) emit(O_SEND,{c,tag,sr,sn,0,seed(),bufFlags(),(i64)r.below(3)}); else emit(O_ISEND,{a,c,tag,sr,sn,0,seed(),bufFlags(),0}); }
      else { if(!aType(famOf(c),false,aCount(),sr,sn)||!emit(O_ISEND,{a,c,tag,sr,sn,0,seed(),bufFlags(),0})) return; if(r.chance(0.5)) emit(O_RECV,{c,tag,gr,gn,MPI_ANY_SOURCE,seed(),0,r.chance(k.pStIgn)}); else { emit(O_IRECV,{b,c,tag,gr,gn,0,seed(),0}); mine.push_back(b); } }
      mine.push_back(a); mine.push_back(b); }
  }
  // a call that cannot be carried out here in full; ends the run
  void giantEnd(int kind){
    for(int tries=0;tries<12&&!over;tries++){ int c=aComm(); i64 ref,n;
      if(kind==4){ std::vector<int> v; for(auto&t:d.types) if(t.second.m->map.size()>0) v.push_back(t.first); i64 h=v.empty()||r.chance(0.2)?(i64)MPI_2INT:(i64)pick(v); i64 m=(i64)d.typeOf(h)->map.size(); int which=r.below(4); i64 cnt=which==0?1:1+(i64)r.below(5); i64 tot=r.chance(0.4)?(1ll<<32)+(i64)r.below(5000):r.chance(0.5)?(1ll<<31)+(i64)r.below(100):(1ll<<31)*(1+(i64)r.below(6)); i64 b=tot/(cnt*m)+1; if(b>INT_MAX) b=INT_MAX; emit(O_GIANT,{4,which,h,cnt,b,seed()},-1,true); continue; }
      if(!giantType(c,ref,n)) continue; i64 n2=r.below(4); emit(O_GIANT,{kind,c,ref,n,seed(),kind==5?n2:0,(i64)r.below(13)},-1,true); } }
  // ---------------------------------------------------------------- point to point
  int bufFlags(){ int f=0; if(r.chance(k.pBottom)) f|=1; if(r.chance(k.pMisalign)) f|=8; return f; }
  void doIsend(bool useMatch=true){
    int c=aComm(); int tag=aTag(); i64 units=aCount(); CommM&C=d.comms[c];
    if((int)C.sends.size()>k.pendCap){ doIrecv(); return; }
    if(useMatch&&r.chance(0.35)&&!C.recvs.empty()){ int id=*std::next(C.recvs.begin(),r.below(C.recvs.size())); auto&q=d.reqs[id]; if(q.tag>=0) tag=q.tag; }
    i64 ref,n; if(!aType(famOf(c),false,units,ref,n)) return; int s=nextReq++;
    int mode=0; if(d.findRecv(C,tag)>=0&&r.chance(0.15)) mode=1;
    if(emit(O_ISEND,{s,c,tag,ref,n,r.chance(k.pNull)?MPI_PROC_NULL:0,seed(),bufFlags(),mode})) mine.push_back(s);
  }
  void doIrecv(bool useMatch=true){
    int c=aComm(); int tag=aTag(); CommM&C=d.comms[c]; i64 units=aCount();
    if((int)C.recvs.size()>k.pendCap) { if((int)C.sends.size()<=k.pendCap) doIsend(); return; }
    if(useMatch&&r.chance(0.5)&&!C.sends.empty()){ int id=*std::next(C.sends.begin(),r.below(C.sends.size())); tag=d.reqs[id].tag; }
    if(r.chance(k.pAny)) tag=MPI_ANY_TAG;
    int m=d.findSend(C,tag); if(m>=0&&d.reqs[m].ty){ i64 u=unitsOf(d.reqs[m],c); if(r.chance(k.pShort)) units=u+(i64)r.below(5); else if(r.chance(0.8)) units=u; }
    i64 ref,n; if(!aType(famOf(c),true,units,ref,n)) return; int s=nextReq++;
    if(emit(O_IRECV,{s,c,tag,ref,n,r.chance(k.pNull)?MPI_PROC_NULL:r.chance(0.4)?MPI_ANY_SOURCE:0,seed(),bufFlags()})) mine.push_back(s);
  }
  void doSend(){ std::vector<int> cs; for(auto&c:d.comms) if(!c.second.recvs.empty()) cs.push_back(c.first); if(cs.empty()||r.chance(k.pNull)){ i64 ref,n; int c=aComm(); if(aType(famOf(c),false,aCount(),ref,n)) emit(O_SEND,{c,aTag(),ref,n,MPI_PROC_NULL,seed(),bufFlags(),(i64)r.below(3)}); return; }
    int c=pick(cs); CommM&C=d.comms[c]; int id=*std::next(C.recvs.begin(),r.below(C.recvs.size())); auto&q=d.reqs[id]; int tag=q.tag>=0?q.tag:aTag(); i64 u=unitsOf(q,c); i64 units=r.chance(0.5)?u:aCount(); i64 ref,n; if(!aType(famOf(c),false,units,ref,n)) return;
    emit(O_SEND,{c,tag,ref,n,0,seed(),bufFlags(),(i64)r.below(3)}); }
  void doRecv(){ std::vector<int> cs; for(auto&c:d.comms) if(!c.second.sends.empty()) cs.push_back(c.first); if(cs.empty()||r.chance(k.pNull)){ i64 ref,n; int c=aComm(); if(aType(famOf(c),true,aCount(),ref,n)) emit(O_RECV,{c,r.chance(k.pAny)?MPI_ANY_TAG:aTag(),ref,n,MPI_PROC_NULL,seed(),0,r.chance(k.pStIgn)}); return; }
    int c=pick(cs); CommM&C=d.comms[c]; int id=*std::next(C.sends.begin(),r.below(C.sends.size())); int tag=d.reqs[id].tag; if(r.chance(k.pAny)) tag=MPI_ANY_TAG; int m=d.findSend(C,tag); i64 u=unitsOf(d.reqs[m],c); i64 units=r.chance(k.pShort)?u+(i64)r.below(6):r.chance(0.8)?u:aCount(); i64 ref,n; if(!aType(famOf(c),true,units,ref,n)) return;
    emit(O_RECV,{c,tag,ref,n,r.chance(0.4)?MPI_ANY_SOURCE:0,seed(),bufFlags(),r.chance(k.pStIgn)}); }
  void doSendrecv(){ int c=aComm(); CommM&C=d.comms[c]; int stag=aTag(),rtag=aTag(); if(!C.recvs.empty()&&r.chance(0.4)){ int t=d.reqs[*std::next(C.recvs.begin(),r.below(C.recvs.size()))].tag; if(t>=0) stag=t; } if(!C.sends.empty()&&r.chance(0.4)) rtag=d.reqs[*std::next(C.sends.begin(),r.below(C.sends.size()))].tag; else if(r.chance(0.7)) rtag=stag; if(r.chance(k.pAny)) rtag=MPI_ANY_TAG;
    i64 u=aCount(),sr,sn,rr,rn; int f=famOf(c); if(!aType(f,false,u,sr,sn)||!aType(f,true,r.chance(0.7)?u:aCount(),rr,rn)) return;
    emit(O_SENDRECV,{c,stag,sr,sn,r.chance(k.pNull)?MPI_PROC_NULL:0,seed(),rtag,rr,rn,r.chance(k.pNull)?MPI_PROC_NULL:r.chance(0.4)?MPI_ANY_SOURCE:0,seed(),r.chance(k.pStIgn),bufFlags()&8}); }
  void doPair(){ // both halves, adjacent, one comm/tag, any order
    int c=aComm(); int tag=aTag(); i64 u=aCount(); int f=famOf(c); i64 sr,sn,rr,rn; if(!aType(f,false,u,sr,sn)) return; i64 au=sn*(d.typeOf(sr)->size)/unitLen(f); if(!aType(f,true,r.chance(k.pShort)?au+(i64)r.below(4):r.chance(0.85)?au:aCount(),rr,rn)) return; int a=nextReq++,b=nextReq++; bool sf=r.chance(0.5);
    auto S=[&]{ return emit(O_ISEND,{a,c,tag,sr,sn,0,seed(),bufFlags(),0}); }; auto R=[&]{ return emit(O_IRECV,{b,c,tag,rr,rn,0,seed(),bufFlags()}); };
    if(sf){ S(); if(k.w[A_FREEUSE]>0&&r.chance(0.4)) freeUse(); R(); } else { R(); if(k.w[A_FREEUSE]>0&&r.chance(0.4)) freeUse(); S(); } mine.push_back(a); mine.push_back(b); }
  void freeUse(){ // free something that is in use
    if(r.chance(0.2)){ std::vector<int> v; for(auto&q:d.reqs) if(q.second.state==R_PENDING&&q.second.ty) for(auto&t:d.types) if(t.second.m==q.second.ty){ v.push_back(t.first); break; } if(!v.empty()){ emit(O_TCOMMIT,{pick(v)}); if(r.chance(0.7)) doType(); return; } }   // or commit it once more
    if(r.chance(0.55)){ std::vector<int> v; for(auto&q:d.reqs) if(q.second.state==R_PENDING&&!q.second.freed&&q.second.ty) for(auto&t:d.types) if(t.second.m==q.second.ty){ v.push_back(t.first); break; } if(!v.empty()){ int t=pick(v); emit(O_TFREE,{t}); if(r.chance(0.7)) doType(); return; } }
    if(r.chance(0.5)){ std::vector<int> v; for(auto&q:d.reqs) if(q.second.state==R_PENDING&&!q.second.freed&&q.second.pb<0) v.push_back(q.first); if(!v.empty()){ emit(O_REQFREE,{pick(v)}); return; } }
    doTfree(); }
  void doProbe(){ int c=aComm(); CommM&C=d.comms[c]; int tag=aTag(); if(r.chance(k.pAny)) tag=MPI_ANY_TAG; else if(!C.sends.empty()&&r.chance(0.6)) tag=d.reqs[*std::next(C.sends.begin(),r.below(C.sends.size()))].tag;
    int src=r.chance(k.pNull)?MPI_PROC_NULL:r.chance(0.4)?MPI_ANY_SOURCE:0; bool bl=r.chance(0.3); emit(bl?O_PROBE:O_IPROBE,{c,src,tag,r.chance(k.pStIgn)}); }

  // ---------------------------------------------------------------- completion
  int aReq(int want){ // 0 any usable, 1 done preferred, 2 pending preferred
    if(d.reqs.empty()) return -1; std::vector<int> v; int lo=nextReq>220?nextReq-220:0; 
    for(auto it=d.reqs.lower_bound(lo);it!=d.reqs.end();++it){ auto&q=it->second; if(q.freed||q.state==R_NONE) continue; if(want==1&&q.state!=R_DONE) continue; if(want==2&&q.state!=R_PENDING) continue; if(want==3&&q.state!=R_NULL) continue; if(want!=3&&q.state==R_NULL&&!r.chance(0.02)) continue; if(q.task!=task&&!r.chance(0.35)) continue; v.push_back(it->first); }
    if(v.empty()) return -1; return pick(v); }
  void doTest(){ int q=aReq(r.chance(k.pDone)?1:r.chance(0.2)?3:2); if(q>=0) emit(O_TEST,{q,r.chance(k.pStIgn)}); }
  void doWait(){ int q=aReq(r.chance(0.93)?1:3); if(q>=0) emit(O_WAIT,{q,r.chance(k.pStIgn)}); }
  std::vector<i64> arr(int mode){ // mode 1: only done (plus nulls), 0 mixed, 2 done+some pending
    std::vector<i64> v; std::set<int> seen; int n=r.chance(0.05)?(int)r.below(300):r.chance(0.1)?0:(int)logu(1,12); if(r.chance(0.08)){ for(int i=0;i<n&&i<20;i++) v.push_back(-1); return v; }
    for(int i=0;i<n;i++){ if(r.chance(0.15)){ v.push_back(-1); continue; } int q=aReq(mode==1?1:r.chance(k.pDone)?1:r.chance(0.1)?3:2); if(q<0||!seen.insert(q).second) { if(r.chance(0.1)) v.push_back(-1); continue; } v.push_back(q); if(v.size()>60) break; }
    if(r.chance(0.04)){ i64 m=(i64)logu(1,1200); for(i64 i=0;i<m&&v.size()<1500;i++) v.insert(r.chance(0.5)?v.end():v.begin()+r.below(v.size()+1),-1); }   // long, mostly null
    return v; }
  void doArr(int fam){ bool wait=r.chance(0.4); int op=fam==0?(wait?O_WAITANY:O_TESTANY):fam==1?(wait?O_WAITALL:O_TESTALL):(wait?O_WAITSOME:O_TESTSOME); auto v=arr(fam==1&&(wait||r.chance(0.5))?1:r.below(2)*2); std::vector<i64> a={r.chance(k.pStIgn),(i64)v.size()}; a.insert(a.end(),v.begin(),v.end()); emit(op,a); }
  void doReqfree(){ int q=aReq(r.chance(0.5)?2:1); if(q>=0) emit(O_REQFREE,{q}); }

  // ---------------------------------------------------------------- datatypes
  void doType(){
    if((int)d.types.size()>60){ doTfree(); return; }
    if(r.chance(0.04)){ if(r.chance(0.15)||d.types.empty()) emit(O_TCOMMIT,{MPI_INT}); else emit(O_TCOMMIT,{std::next(d.types.begin(),r.below(d.types.size()))->first}); return; }
    int fam=r.chance(0.8)?famOf(aComm()):(int)r.below(NFAM);
    // old: family type (any commit state), few elements
    std::vector<int> c; for(auto&t:d.types){ auto it=tfam.find(t.first); if(it!=tfam.end()&&it->second==fam&&t.second.m&&t.second.m->map.size()<600) c.push_back(t.first); }
    auto old=[&]()->i64{ if(!c.empty()&&r.chance(0.7)) return pick(c); if(!famDef[fam][1]) return famDef[fam][0]; if(c.empty()){ if(!baseStruct(fam)) return -99999; c.push_back(nextType-1); } return pick(c); };
    i64 o=old(); TypeP om=d.typeOf(o); if(!om) return; int s=nextType++; bool ok=false;
    i64 n=r.chance(0.08)?0:1+(i64)logu(0,6), b=r.chance(0.06)?0:1+(i64)r.below(3); i64 ex=om->extent, sp=span(*om,1);
    if(r.chance(k.pBig)) { n=logu(20,r.chance(0.7)?400:4000); if(n>400) b=1; }
    else if(r.chance(k.pBig)) b=logu(3,2000);
    i64 ms=std::max<i64>(1,om->map.size()); if(n*b*ms>12000) b=std::max<i64>(1,12000/ms/std::max<i64>(n,1));
    i64 room=12000; auto aBl=[&](i64 ms)->i64{ i64 x=r.chance(0.1)?0:r.chance(k.pBig*0.2)?logu(3,1500):1+(i64)r.below(3); x=std::min(x,room/std::max<i64>(1,ms)); room-=x*ms; return x; };
    i64 ae=ex<0?-ex:ex; i64 stride=b+(i64)r.below(3); if(r.chance(0.12)) stride=-stride; i64 hs=(b*std::max(ae,sp))+(i64)r.below(40); if(r.chance(0.3)) hs=(hs+7)/8*8; if(r.chance(0.12)) hs=-hs; if(r.chance(k.pFar)) hs=(r.chance(0.3)?-1:1)*(i64)(r.chance(0.5)?(1ll<<31)+r.below(1000):r.chance(0.5)?(1ll<<32)+(i64)r.below(64):(i64)r.below(3ll<<30));
    bool allowOv=r.chance(0.15);
    switch(r.below(9)){
      case 0: ok=emit(O_TCONTIG,{s,o,n}); break;
      case 1: ok=emit(O_TVECTOR,{s,o,n,b,stride}); break;
      case 2: ok=emit(O_THVEC,{s,o,n,b,hs,(i64)r.below(2)}); break;
      case 3: { std::vector<i64> a={s,o,n}; i64 p=r.chance(0.2)?-(i64)r.below(20):0; std::vector<std::pair<i64,i64>> bd; for(i64 i=0;i<n;i++){ i64 bl=aBl(ms); bd.push_back({bl,p}); p+=bl+(i64)r.below(4); } if(r.chance(0.3)) for(size_t i=bd.size();i>1;i--) std::swap(bd[i-1],bd[r.below(i)]); if(allowOv&&bd.size()>1) bd.back().second=bd[0].second; for(auto&x:bd){ a.push_back(x.first); a.push_back(x.second); } ok=emit(O_TINDEXED,a); break; }
      case 4: { std::vector<i64> a={s,o,n}; i64 p=r.chance(0.2)?-(i64)r.below(300):0; std::vector<std::pair<i64,i64>> bd; for(i64 i=0;i<n;i++){ i64 bl=aBl(ms); bd.push_back({bl,p}); p+=bl*std::max(ae,sp)+(i64)r.below(30); if(r.chance(k.pFar)) p+=(1ll<<31)+(i64)r.below(1ll<<30); } if(r.chance(0.3)) for(size_t i=bd.size();i>1;i--) std::swap(bd[i-1],bd[r.below(i)]); for(auto&x:bd){ a.push_back(x.first); a.push_back(x.second); } ok=emit(O_THINDEXED,a); break; }
      case 5: { std::vector<i64> a={s,o,n,b}; i64 p=r.chance(0.2)?-(i64)r.below(20):0; std::vector<i64> ds; for(i64 i=0;i<n;i++){ ds.push_back(p); p+=b+(i64)r.below(4); } if(r.chance(0.3)) for(size_t i=ds.size();i>1;i--) std::swap(ds[i-1],ds[r.below(i)]); a.insert(a.end(),ds.begin(),ds.end()); ok=emit(O_TIBLOCK,a); break; }
      case 6: case 7: { std::vector<i64> a={s,0}; i64 p=r.chance(0.2)?-(i64)r.below(300):0; i64 lo=p; int m=0; std::vector<std::array<i64,3>> e; i64 fields=r.chance(0.04)?n+(i64)r.below(60):r.chance(0.006)?logu(60,700):std::min<i64>(n,5); for(i64 i=0;i<fields;i++){ i64 t=i==0?o:old(); TypeP tm=d.typeOf(t); if(!tm) continue; i64 bl=aBl(tm->map.size()); i64 te=tm->extent<0?-tm->extent:tm->extent; i64 need=bl*std::max(te,span(*tm,1)); i64 off=tm->lo()<0?-tm->lo():0; if(r.chance(k.pFar)) p+=(1ll<<31)+(i64)r.below(1ll<<30); if(tm->extent<0&&bl>1) off+=(bl-1)*te; e.push_back({bl,p+off,t}); p+=off+need+(i64)r.below(20); }
        if(r.chance(0.3)) for(size_t i=e.size();i>1;i--) std::swap(e[i-1],e[r.below(i)]);
        for(int u=0;u<2;u++) if(r.chance(0.25)){ int m=r.chance(0.8)?1:2+(int)r.below(2); while(m--){ // markers, mostly one of a kind
          i64 far=r.chance(k.pFar)?(r.chance(0.3)?(i64)(1+r.below(3))<<32:(1ll<<31)+(i64)r.below(1ll<<30)):0; i64 ds=u?p+(i64)r.below(64)-(r.chance(0.15)?24:0)+far:lo-(i64)r.below(64)+(r.chance(0.3)?40:0)-far; e.insert(e.begin()+r.below(e.size()+1),{r.chance(0.06)?0:r.chance(0.06)?2+(i64)r.below(3):1,ds,u?MPI_UB:MPI_LB}); } }
        for(auto&x:e){ a.push_back(x[0]); a.push_back(x[1]); a.push_back(x[2]); m++; } a[1]=m; ok=emit(O_TSTRUCT,a); break; }
      case 8: ok=emit(O_TDUP,{s,o}); if(ok&&om->predef&&false) ok=false; break;
    }
    if(!ok) return; tfam[s]=fam; if(r.chance(0.3)) emit(O_TQUERY,{s}); if(r.chance(0.9)) emit(O_TCOMMIT,{s});
  }
  void doBigType(){ int fam=famOf(aComm()); if(famDef[fam][1]) return; int s=nextType++; i64 n=r.chance(0.15)?1000000+(i64)r.below(50000):logu(2000,300000); if(emit(O_TBIG,{s,famDef[fam][0],(i64)r.below(4),n})){ tfam[s]=fam; emit(O_TCOMMIT,{s}); emit(O_TQUERY,{s}); 
      int c=0; for(auto&x:d.comms) if(famOf(x.first)==fam) c=x.first; if(famOf(c)==fam){ int a=nextReq++,b=nextReq++; int tag=900000+s; i64 nn=n; if(r.chance(0.5)){ emit(O_ISEND,{a,c,tag,s,1,0,seed(),0,0}); emit(O_IRECV,{b,c,tag,r.chance(0.5)?(i64)s:(i64)famDef[fam][0],0,0,seed(),0}); tr.ops.back(); } else { emit(O_IRECV,{b,c,tag,famDef[fam][0],nn,0,seed(),0}); emit(O_ISEND,{a,c,tag,s,1,0,seed(),0,0}); } emit(O_WAIT,{b,0}); emit(O_WAIT,{a,0}); } emit(O_TFREE,{s}); } }
  void doTfree(){ std::vector<int> v; for(auto&t:d.types) v.push_back(t.first); if(!v.empty()) emit(O_TFREE,{pick(v)}); }
  void doTquery(){ std::vector<int> v; for(auto&t:d.types) v.push_back(t.first); if(!v.empty()&&r.chance(0.85)){ emit(O_TQUERY,{pick(v)}); return; } auto p=allPredef(); emit(O_TQUERY,{pick(p)}); }

  // ---------------------------------------------------------------- communicators
  void newC(bool ok,int s,int f){ if(ok&&d.comms.count(s)) cfam[s]=f; }
  int aGroup(bool lethal){ std::vector<int> v; for(auto&g:d.groups) v.push_back(g.first); if(lethal&&r.chance(0.5)) return -2; if(v.empty()||r.chance(0.2)) return -1; return pick(v); }
  void doComm(){
    if((int)d.comms.size()>=k.comms+3){ doCfree(); return; }
    int s=nextComm++; int src=aComm(); int fam=famOf(src);
    switch(r.below(7)){
      case 0: newC(emit(O_CDUP,{s,src}),s,fam); break;
      case 1: newC(emit(O_CSPLIT,{s,src,r.chance(0.3)?MPI_UNDEFINED:r.chance(0.5)?(i64)r.below(5):(i64)(r.next()>>33),(i64)(int)r.next()}),s,fam); break;
      case 2: newC(emit(O_CCREATE,{s,src,r.chance(0.15)?-2:aGroup(false)}),s,fam); break;
      case 3: { i64 nd=r.chance(0.05)?0:1+r.below(5); if(r.chance(0.05)) nd=1+r.below(r.chance(0.8)?40:700); std::vector<i64> a={s,src,nd,r.chance(0.07)?(r.chance(0.5)?-1:(i64)(1000+r.below(70000))):(i64)r.below(2)}; for(i64 i=0;i<nd;i++) a.push_back(1); for(i64 i=0;i<nd;i++){ static const int T[]={2,-1,256,65536,INT_MIN,4}; a.push_back(r.chance(0.06)?T[r.below(6)]:(i64)r.below(2)); } newC(emit(O_CART,a),s,fam); if(d.comms.count(s)&&r.chance(0.7)) emit(O_CARTGET,{s,nd+(r.chance(0.3)?(i64)r.below(r.chance(0.8)?20:1000):0)}); break; }
      case 4: newC(emit(O_ICREATE,{s,r.chance(0.2)?-1:src,r.chance(0.3)?-1:aComm(),aTag()}),s,fam); break;
      case 5: newC(emit(O_IMERGE,{s,src,(i64)r.below(2)}),s,fam); break;
      case 6: newC(emit(O_CDUP,{s,src}),s,fam); if(r.chance(0.3)) emit(O_CFREE,{s}); break;
    }
    if(d.comms.count(s)){ if(r.chance(0.4)) emit(O_CSIZE,{s}); if(r.chance(0.4)) emit(O_IPROBE,{s,MPI_ANY_SOURCE,MPI_ANY_TAG,0}); }
  }
  void doCfree(){ std::vector<int> v,idle; for(auto&c:d.comms) if(c.first){ v.push_back(c.first); if(c.second.sends.empty()&&c.second.recvs.empty()) idle.push_back(c.first); } if(!idle.empty()&&r.chance(0.8)) emit(O_CFREE,{pick(idle)}); else if(!v.empty()&&r.chance(0.5)&&!ep) emit(O_CFREE,{pick(v)}); }
  void doCq(){ switch(r.below(4)){ case 0: emit(O_CSIZE,{aComm()}); break; case 1: { std::vector<int> v; for(auto&c:d.comms) if(c.second.ndims) v.push_back(c.first); if(!v.empty()){ int c=pick(v); auto md=[&]()->i64{ return d.comms[c].ndims+(r.chance(0.3)?(i64)r.below(r.chance(0.85)?20:1000):0); }; emit(O_CARTGET,{c,md()}); emit(O_CARTCOORDS,{c,0,md()}); } else emit(O_CSIZE,{aComm()}); break; } case 2: emit(O_DIMS,{1,r.chance(0.1)?(i64)r.below(r.chance(0.8)?64:1500):(i64)r.below(6)}); break; case 3: emit(O_CSIZE,{aComm()}); break; } }
  void doGroup(){ int s=nextGroup++; switch(r.below(7)){ case 0: case 1: emit(O_CGROUP,{s,aComm()}); break; case 2: { i64 g=aGroup(false); if(r.chance(0.3)) emit(O_GINCL,{s,g,0}); else emit(O_GINCL,{s,g,1,0}); break; } case 3: { i64 g=aGroup(false); if(r.chance(0.3)) emit(O_GRANGE,{s,g,0}); else { static const int S[]={-1,2,3,5,INT_MAX,-2,256}; emit(O_GRANGE,{s,g,1,0,0,r.chance(0.5)?1:(i64)S[r.below(7)]}); } break; } case 4: emit(O_GSET,{s,(i64)r.below(3),aGroup(false),aGroup(false)}); break; case 5: { i64 n=r.chance(0.1)?logu(4,600):(i64)r.below(4); std::vector<i64> a={aGroup(false),aGroup(false),n}; for(i64 i=0;i<n;i++) a.push_back(0); emit(O_GTRANS,a); break; } case 6: { std::vector<int> v; for(auto&g:d.groups) v.push_back(g.first); if(!v.empty()) emit(O_GFREE,{pick(v)}); break; } } }

  // ---------------------------------------------------------------- pack
  std::map<int,std::vector<std::pair<int,i64>>> packItems;   // what was packed: (family, units)
  std::map<int,size_t> packRead;
  void doPack(){
    std::vector<int> v; for(auto&p:d.packs) if(!p.second.pend) v.push_back(p.first);
    if(v.empty()||(d.packs.size()<6&&r.chance(0.12))){ int p=nextPack++; emit(O_PKNEW,{p,r.chance(0.3)?(i64)logu(0,64):(i64)logu(64,6000),seed()}); return; }
    if(r.chance(0.04)){ i64 ref,n; int fam=r.below(NFAM); if(!aType(fam,true,aCount()/2,ref,n)||d.typeOf(ref)->size<0) return; i64 want=n*d.typeOf(ref)->size; emit(O_GIANT,{3,(i64)r.below(2),ref,n,want+(r.chance(0.5)?0:(i64)r.below(40)),seed(),aComm()}); return; }
    int p=pick(v); auto&P=d.packs[p]; int x=r.below(12);
    if(x<5){ int fam=famOf(aComm()); if(r.chance(0.3)) fam=r.below(NFAM); i64 ref,n; if(!aType(fam,false,aCount()/2,ref,n)) return; i64 room=P.size-P.wpos; TypeP t=d.typeOf(ref); if(t->size*n>room){ if(t->size<=0) return; n=room/t->size; if(r.chance(0.3)) n=n; } emit(O_PACK,{p,ref,n,aComm(),seed(),bufFlags()&8}); if(!P.filled) packItems[p].push_back({fam,n*t->size}); }
    else if(x<9){ i64 have=P.wpos-P.rpos; auto&it=packItems[p]; auto&k0=packRead[p]; int fam; i64 bytes; if(k0<it.size()&&r.chance(0.8)){ fam=it[k0].first; bytes=it[k0].second; k0++; } else { fam=r.chance(0.5)?5:famOf(aComm()); bytes=r.below(have+1); } i64 ref,n; i64 u=bytes/unitLen(fam); if(!aType(fam,true,u,ref,n)) return; TypeP t=d.typeOf(ref); if(t->size*n>have) n=t->size?have/t->size:n; emit(O_UNPACK,{p,ref,n,aComm(),seed(),bufFlags()&8}); }
    else if(x==9){ i64 ref,n; int fam=r.below(NFAM); if(aType(fam,false,aCount(),ref,n)) emit(O_PKSIZE,{ref,n,aComm()}); }
    else { // send it as MPI_PACKED and receive it into another buffer
      int q=nextPack++; if(!emit(O_PKNEW,{q,P.wpos+(i64)r.below(60),seed()})) return; int a=nextReq++,b=nextReq++; int c=aComm(); int tag=1000+(int)r.below(3); if(r.chance(0.5)){ emit(O_PKSEND,{a,p,c,tag}); emit(O_PKRECV,{b,q,c,tag}); } else { emit(O_PKRECV,{b,q,c,tag}); emit(O_PKSEND,{a,p,c,tag}); } packItems[q]=packItems[p]; packRead[q]=0; mine.push_back(a); mine.push_back(b); if(r.chance(0.7)){ emit(O_WAIT,{b,r.chance(0.3)}); emit(O_WAIT,{a,r.chance(0.3)}); } }
  }

  // ---------------------------------------------------------------- collectives
  void doColl(bool lethal=false){
    int kind=r.below(15); int c=aComm(); int fam=famOf(c); i64 sr,sn,rr,rn; i64 u=aCount();
    if(!aType(fam,false,u,sr,sn)||!aType(fam,true,0,rr,rn)) return;
    TypeP st=d.typeOf(sr),rt=d.typeOf(rr); i64 bytes=st->size*sn; if(rt->size==0) rn=0; else rn=bytes/rt->size; if(rt->size*rn!=bytes){ rr=sr; rn=sn; rt=st; }
    if(!overlapFree(*rt,rn)) return; if(span(*rt,rn)>(8<<20)&&rn*(i64)rt->map.size()>20000) return;
    bool w=kind==14; i64 sd=0,rd=0; auto disp=[&](TypeP t)->i64{ if(r.chance(0.3)) return 0; i64 x=r.chance(0.1)?(i64)(r.next()&0x7fffffff):(i64)r.below(500); if(r.chance(0.15)) x=-x; return x; };
    sd=disp(st); rd=disp(rt); (void)w;
    i64 root=0; int inpl=r.chance(0.2); if(!inpl&&r.chance(0.05)) root=MPI_ROOT; 
    if(r.chance(0.05)) emit(O_OPCREATE,{(i64)r.below(2)});
    emit(O_COLL,{kind,c,sr,sn,rr,rn,sd,rd,root,inpl,seed(),(i64)r.below(12)}); }

  // ---------------------------------------------------------------- environment
  void doClock(){ switch(r.below(8)){ case 0: emit(O_CLOCK,{(i64)r.below(1000000)}); break; case 1: emit(O_CLOCK,{-(i64)r.below(5000000)}); break; case 2: emit(O_CLOCK,{1000000-d.clockUs%1000000-(i64)r.below(3)}); break; case 3: emit(O_CLOCK,{(i64)r.below(86400ull*365*1000000)}); break; case 4: emit(O_CLOCK,{(i64)(4ll*365*86400*1000000)*(i64)(r.below(20))}); break; case 5: emit(O_CLOCK,{-(d.clockUs)+(i64)r.below(3000000)}); break; case 6: emit(O_CLOCK,{(2147483648ll*1000000-3)-d.clockUs+(i64)r.below(6)}); break; case 7: emit(O_CLOCK,{1}); break; }
    if(d.clockUs<0||d.clockUs>20000000000ll*1000000) emit(O_CLOCK,{1600000000ll*1000000-d.clockUs}); }
  void doHost(){ static const int L[]={0,1,8,15,63,64,65,126,127,128,129,200,254,255,256,257,300,1023,1024,1025,4000}; i64 l=r.chance(0.7)?L[r.below(21)]:(i64)r.below(400); emit(O_HOST,{(i64)r.below(3),l,seed()}); }
  void doStr(){ switch(r.below(6)){ case 0: case 1: { static const i64 codes[]={0,1,-1,2,15,16,100,-100,INT_MAX,INT_MIN,12345678}; emit(O_ERRSTR,{r.chance(0.6)?codes[r.below(11)]:(i64)(int)r.next()}); break; } case 2: emit(O_LIBVER,{}); break; default: emit(O_MISC,{(i64)r.below(4)}); } }

  void doPoll(){ // the same call over and over
    int c=aComm(); i64 n=r.chance(0.5)?logu(60,1500):r.chance(0.7)?logu(1000,12000):66000; int x=r.below(10); if(x<4||r.chance(0.3)){ x=r.below(4); int q=aReq(2); int q2=x==2&&r.chance(0.7)?aReq(1):-1; if(q>=0) emit(O_MASS,{15,q,n,q2>=0&&q2!=q?q2+1:0,x,seed()},r.below(3)); return; }
    if(x==8&&(!d.comms[c].sends.empty()||!d.comms[c].recvs.empty())){ c=nextComm++; if(!emit(O_CDUP,{c,0})) return; cfam[c]=NFAM; }
    emit(O_MASS,{15,x==4?(r.chance(0.4)?MPI_ANY_TAG:(i64)aTag()):0,x==8||(x==5&&prop!="C15")?std::min<i64>(n,6000):n,x==9?(i64)MPI_DOUBLE:(i64)c,x,seed()},r.below(3)); }
  void doMass(){ // many objects at once
    if(r.chance(prop=="C08"?0.05:0.15)){ doPoll(); return; }
    if(r.chance(0.4)){ // or one after the other, so that whatever is counted passes its limits
      int kd=r.chance(0.5)?11:r.chance(0.6)?12+(int)r.below(2):16+(int)r.below(3); i64 n=r.chance(0.6)?logu(50,1500):(i64)(240+r.below(30)); i64 ref=kd==13?MPI_INT:aComm(); i64 left=0; int oc=r.chance(0.7)?5:0; if((kd<16||kd==18)&&r.chance(deep?0.15:prop=="C01"?0.08:0.05)){ left=(i64)r.below(300); n=(r.chance(0.7)?65536:32768)-left-(kd==11?(i64)tr.ops.size()/4:0); if(prop=="C10") n=500,left=0; }
      if(kd==11&&(!d.comms[ref].sends.empty()||!d.comms[ref].recvs.empty())){ int c=nextComm++; if(!emit(O_CDUP,{c,0})) return; cfam[c]=NFAM; ref=c; } int&nx=kd==11?nextReq:kd==12?nextComm:kd==16?nextGroup:kd==17?nextPack:nextType; i64 base=nx; nx+=3; if(kd==16){ base=std::max(nextGroup,nextComm); nextGroup=nextComm=base+3; } emit(O_MASS,{kd,base,n,ref,oc,seed()},r.below(3));
      if(left&&kd==11){ i64 m=left+20+(i64)r.below(300),b2=nextReq; nextReq+=2*m; int a=2+(int)r.below(2); if(emit(O_MASS,{a,b2,m,ref,0,seed()},r.below(3))&&emit(O_MASS,{5-a,b2+m,m,ref,0,seed()},r.below(3))){ massed.push_back({a,b2,m,ref}); massed.push_back({5-a,b2+m,m,ref}); releaseMass(0.8); } }  // some are pending while a counter wraps
      return; }
    int kind=r.below(4); i64 n=r.chance(0.5)?logu(200,1200):r.chance(0.5)?(i64)(255+256*r.below(8)+r.below(3)):logu(1000,deep?20000:6000); bool vast=kind>=2&&prop!="C10"&&r.chance(deep?0.1:prop=="C17"?0.08:0.05); if(vast) n=(r.chance(0.8)?32700:65500)+(i64)r.below(120); if(d.liveHandles+n>261000) n=261000-d.liveHandles; if(n<=0) return;
    i64 base; i64 ref; int mk; switch(kind){ case 0: base=nextType; nextType+=n; ref=MPI_INT; mk=4; break; case 1: base=nextComm; nextComm+=n; ref=r.chance(0.5)?0:aComm(); mk=5; break; case 2: base=nextReq; nextReq+=n; ref=0; mk=6; break; default: base=nextReq; nextReq+=n; ref=0; mk=6; }
    if(kind==2||kind==3){ int c=nextComm++; if(!emit(O_CDUP,{c,0})) return; cfam[c]=NFAM; ref=c; }
    i64 mt=MPI_INT,mt2=MPI_INT; if(kind>=2&&r.chance(0.5)) for(int u=0;u<2;u++) if(r.chance(0.7)){ int s=nextType++; bool ok; switch(r.below(4)){ case 0: ok=emit(O_TCONTIG,{s,MPI_INT,1}); break; case 1: ok=emit(O_TSTRUCT,{s,1,1,(i64)r.below(3)*4,MPI_INT}); break; case 2: ok=emit(O_TINDEXED,{s,MPI_INT,1,1,(i64)r.below(3)}); break; default: ok=emit(O_TDUP,{s,MPI_INT}); } if(ok){ tfam[s]=NFAM; if(emit(O_TCOMMIT,{s})||d.types[s].m->committed) (u?mt2:mt)=s; } }
    std::vector<i64> ma={kind,base,n,ref,(i64)(kind<2&&n<20000&&r.chance(0.5)?5:0),(i64)seed()}; if(kind>=2) ma.push_back(mt);
    if(!emit(O_MASS,ma,r.chance(0.3)?2:r.below(2))) return;
    massed.push_back({kind,base,n,ref}); if(mt>=0&&r.chance(0.6)) emit(O_TFREE,{mt});
    if(kind==2||kind==3){ i64 b2=nextReq; nextReq+=n; if(r.chance(vast?0.5:0.8)){ emit(O_MASS,{5-kind,b2,n,ref,(i64)r.below(4),(i64)seed(),mt2},r.below(3)); massed.push_back({5-kind,b2,n,ref}); if(mt2>=0&&r.chance(0.6)) emit(O_TFREE,{mt2}); }
      else if(vast&&r.chance(0.8)) emit(O_CFREE,{ref}); }
    if(r.chance(0.5)){ doIsend(false); doIrecv(); }
    for(auto&m:massed) if(r.chance(0.5)){ if(m[0]==0&&r.chance(0.3)) emit(O_MASS,{9,m[1],m[2],0,2,seed()},r.below(3)); if(m[0]==1&&r.chance(0.3)) emit(O_MASS,{10,m[1],m[2],0,2,seed()},r.below(3)); }
    releaseMass(0.6);
  }
  std::vector<std::array<i64,4>> massed;
  void releaseMass(double p){ std::vector<std::array<i64,4>> keep; for(auto&m:massed){ if(r.chance(p)){ i64 part=r.chance(0.3)?m[2]/2:m[2]; int mk=m[0]==0?4:m[0]==1?5:6; if(mk==6&&part<=20000) for(int j=r.chance(prop=="C05"?0.8:0.3)?1+(int)r.below(3):0;j>0&&!over;j--) emit(O_MASS,{14,m[1]+(r.chance(0.3)?(i64)r.below(part):0),r.chance(0.5)?part:1+(i64)r.below(part),(i64)r.below(6),(i64)r.below(4),seed()},r.below(2)); emit(O_MASS,{mk,m[1],part,0,(i64)r.below(4),seed()},r.below(3)); if(part<m[2]) keep.push_back({m[0],m[1]+part,m[2]-part,m[3]}); } else keep.push_back(m); } massed=keep; }

  // ---------------------------------------------------------------- the end of a run
  i64 abortCode(){ static const int c[]={0,-1,-2,127,128,255,256,257,-256,INT_MAX,INT_MIN,65536}; return r.chance(0.4)?1+(i64)r.below(255):r.chance(0.6)?c[r.below(12)]:(i64)(int)r.next(); }
  void lethalEnd(){
    for(int tries=0;tries<40&&!over;tries++){
      int x=r.below(prop=="C22"?20:prop=="C06"?9:20); int c=aComm(); int fam=famOf(c); i64 ref,n; 
      auto badRank=[&](bool send=false)->i64{ static const int b[]={1,2,-4,INT_MAX,INT_MIN,-5,100,MPI_ROOT,MPI_ANY_SOURCE,256,65536}; i64 v=r.chance(0.3)?1+(i64)r.below(40):r.chance(0.05)?1+(i64)r.below(100000):b[r.below(11)]; if(v==MPI_PROC_NULL||(!send&&v==MPI_ANY_SOURCE)) v=1; return v; };
      auto badRoot=[&]()->i64{ static const int b[]={INT_MAX,INT_MIN,256,65536}; return r.chance(0.15)?b[r.below(4)]:r.chance(0.1)?1+(i64)r.below(3000):r.chance(0.5)?1+(i64)r.below(4):-4-(i64)r.below(3); };
      switch(x){
        case 0: { int q=aReq(2); if(q>=0) emit(O_WAIT,{q,r.chance(0.3)},-1,true); break; }
        case 1: { auto v=arr(0); int q=aReq(2); if(q>=0&&std::find(v.begin(),v.end(),q)==v.end()) v.insert(v.begin()+r.below(v.size()+1),q); std::vector<i64> a={r.chance(0.3),(i64)v.size()}; a.insert(a.end(),v.begin(),v.end()); emit(O_WAITALL,a,-1,true); break; }
        case 2: case 3: { std::vector<i64> v; std::set<int> seen; int m=1+r.below(5); for(int i=0;i<m;i++){ int q=r.chance(0.25)?-1:aReq(2); if(q>=0&&!seen.insert(q).second) continue; v.push_back(q); } std::vector<i64> a={r.chance(0.3),(i64)v.size()}; a.insert(a.end(),v.begin(),v.end()); emit(x==2?O_WAITANY:O_WAITSOME,a,-1,true); break; }
        case 4: emit(O_PROBE,{c,r.chance(0.5)?MPI_ANY_SOURCE:0,r.chance(0.3)?MPI_ANY_TAG:aTag(),r.chance(0.3)},-1,true); break;
        case 5: if(aType(fam,false,aCount(),ref,n)) emit(O_SEND,{c,aTag(),ref,n,0,seed(),0,(i64)r.below(3)},-1,true); break;
        case 6: if(aType(fam,true,aCount(),ref,n)) emit(O_RECV,{c,r.chance(0.4)?MPI_ANY_TAG:aTag(),ref,n,r.chance(0.5)?MPI_ANY_SOURCE:0,seed(),0,r.chance(0.3)},-1,true); break;
        case 7: if(aType(fam,false,aCount(),ref,n)) emit(O_ISEND,{nextReq++,c,aTag(),ref,n,0,seed(),0,1},-1,true); break;
        case 8: { i64 r2,n2; int t1=aTag(),t2=aTag(); if(r.chance(0.3)) t2=t1; if(aType(fam,false,aCount(),ref,n)&&aType(fam,true,aCount(),r2,n2)) emit(O_SENDRECV,{c,t1,ref,n,r.chance(0.2)?MPI_PROC_NULL:0,seed(),t2,r2,n2,r.chance(0.2)?MPI_PROC_NULL:0,seed(),r.chance(0.3),0},-1,true); break; }
        case 9: { switch(r.below(8)){
          case 0: if(aType(fam,false,aCount(),ref,n)) emit(O_ISEND,{nextReq++,c,aTag(),ref,n,badRank(true),seed(),0,(i64)r.below(2)},-1,true); break;
          case 1: if(aType(fam,true,aCount(),ref,n)) emit(O_IRECV,{nextReq++,c,aTag(),ref,n,badRank(),seed(),0},-1,true); break;
          case 2: if(aType(fam,false,aCount(),ref,n)) emit(O_SEND,{c,aTag(),ref,n,badRank(true),seed(),0,(i64)r.below(3)},-1,true); break;
          case 3: if(aType(fam,true,aCount(),ref,n)) emit(O_RECV,{c,aTag(),ref,n,badRank(),seed(),0,0},-1,true); break;
          case 4: case 5: { i64 r2,n2; int w=r.below(3); if(aType(fam,false,aCount(),ref,n)&&aType(fam,true,aCount(),r2,n2)) emit(O_SENDRECV,{c,aTag(),ref,n,w==0?badRank(true):r.chance(0.2)?MPI_PROC_NULL:0,seed(),r.chance(0.4)?MPI_ANY_TAG:aTag(),r2,n2,w>0?badRank():r.chance(0.2)?MPI_PROC_NULL:0,seed(),r.chance(0.3),0},-1,true); break; }
          default: emit(r.chance(0.5)?O_IPROBE:O_PROBE,{c,badRank(),aTag(),0},-1,true); } break; }
        case 10: { int kinds[]={1,2,3,6,7,8}; int kd=kinds[r.below(6)]; if(aType(fam,true,aCount(),ref,n)) emit(O_COLL,{kd,c,ref,n,ref,n,0,0,kd==8&&r.chance(0.3)?MPI_ROOT:badRoot(),(i64)(kd!=1&&r.chance(0.35)),seed(),(i64)r.below(12)},-1,true); break; }
        case 11: { // uncommitted datatype in a transfer that happens now
          if(!aType(fam,true,1,ref,n,false)) { int s=nextType++; i64 o; if(aType(fam,true,1,o,n)&&emit(O_TCONTIG,{s,o,1+(i64)r.below(2)})) tfam[s]=fam; break; }
          if(d.types[ref].m->size==0) break; n=1+r.below(2); CommM&C=d.comms[c]; 
          if(r.chance(0.3)){ i64 ro=ref,no=n; int w=r.below(4); int tag=aTag(); if(!C.sends.empty()&&w==1) tag=d.reqs[C.sends.front()].tag; if(!C.recvs.empty()&&w!=1&&d.reqs[C.recvs.front()].tag>=0) tag=d.reqs[C.recvs.front()].tag;
            if(w==0) emit(O_SEND,{c,tag,ref,n,0,seed(),0,(i64)r.below(3)},-1,true); else if(w==1) emit(O_RECV,{c,tag,ref,n,0,seed(),0,r.chance(0.3)},-1,true); else { if(r.chance(0.6)) aType(fam,true,n,ro,no); if(w==2) emit(O_SENDRECV,{c,tag,ref,n,0,seed(),r.chance(0.5)?tag:aTag(),ro,no,0,seed(),r.chance(0.3),0},-1,true); else emit(O_SENDRECV,{c,tag,ro,no,0,seed(),r.chance(0.5)?tag:aTag(),ref,n,0,seed(),r.chance(0.3),0},-1,true); } break; }
          if(!C.sends.empty()&&r.chance(0.5)){ auto&q=d.reqs[C.sends.front()]; if(q.count*q.ty->size==0) break; emit(O_IRECV,{nextReq++,c,q.tag,ref,n,0,seed(),0},-1,true); } else if(!C.recvs.empty()){ auto&q=d.reqs[C.recvs.front()]; if(q.count*q.ty->size==0) break; emit(O_ISEND,{nextReq++,c,q.tag>=0?q.tag:0,ref,n,0,seed(),0,0},-1,true); } else { int kd=2+r.below(13); emit(O_COLL,{kd,c,ref,n,ref,n,0,0,0,0,seed(),(i64)r.below(12)},-1,true); } break; }
        case 12: { int kinds[]={2,3,4,5,6,7,12,13,14}; i64 r2,n2; if(aType(fam,false,1+r.below(5),ref,n)&&aType(fam,true,0,r2,n2)){ TypeP s=d.typeOf(ref),t=d.typeOf(r2); if(!t->size||t->size<=0) break; n2=s->size*n/t->size+1+(i64)r.below(4); if(!overlapFree(*t,n2)||span(*t,n2)>(4<<20)) break; emit(O_COLL,{kinds[r.below(9)],c,ref,n,r2,n2,0,0,0,0,seed(),0},-1,true); } break; }
        case 13: case 14: { std::vector<int> v; for(auto&p:d.packs) if(!p.second.pend) v.push_back(p.first); if(v.empty()){ emit(O_PKNEW,{nextPack++,(i64)r.below(64),seed()}); break; } int p=pick(v); if(!aType(fam,true,1+aCount(),ref,n)) break; TypeP t=d.typeOf(ref); if(t->size<=0) break; i64 room=x==13?d.packs[p].size-d.packs[p].wpos:d.packs[p].wpos-d.packs[p].rpos; n=room/t->size+1+(r.chance(0.3)?(i64)r.below(3):0); if(n*(i64)t->map.size()>20000||!overlapFree(*t,n)||span(*t,n)>(4<<20)) break; emit(x==13?O_PACK:O_UNPACK,{p,ref,n,c,seed(),0},-1,true); break; }
        case 15: { i64 g=aGroup(false); if(r.chance(0.5)){ int m=r.chance(0.1)?256+(int)r.below(3):1+r.below(3); std::vector<i64> a={nextGroup++,g,m}; for(int i=0;i<m;i++) a.push_back(m==1?badRank(true):(i64)i); emit(O_GINCL,a,-1,true); } else { int m=1+r.below(2); std::vector<i64> a={nextGroup++,g,m}; if(m==1){ int w=r.below(3); a.push_back(w==0?1+(i64)r.below(3):0); a.push_back(w==2?-1-(i64)r.below(2):a.back()+(w==0?0:1)+(i64)r.below(3)); a.push_back(w==2?-1:1); } else for(int i=0;i<m;i++){ a.push_back(i==1&&r.chance(0.5)?1:0); a.push_back(a.back()); a.push_back(1); } emit(O_GRANGE,a,-1,true); } break; }
        case 16: { static const int V[]={INT_MAX,256,65536,2,3,257,65537}; i64 big=V[r.below(7)]; i64 nd=r.chance(0.15)?1+r.below(40):1+r.below(4); std::vector<i64> a={nextComm++,c,nd,0}; i64 b=r.below(nd); for(i64 i=0;i<nd;i++) a.push_back(i==b?(r.chance(0.3)?big:2+(i64)r.below(4)):1); for(i64 i=0;i<nd;i++) a.push_back(0); if(r.chance(0.5)) emit(O_CART,a,-1,true); else if(r.chance(0.5)) emit(O_DIMS,{r.chance(0.3)?big:2+(i64)r.below(9),(i64)r.below(5)},-1,true); else { int s=nextComm++; if(emit(O_CART,{s,c,1,0,1,0})){ cfam[s]=fam; emit(O_CARTCOORDS,{s,r.chance(0.5)?1+(i64)r.below(5):badRank(true),(i64)r.below(2)},-1,true); } } break; }
        case 17: { i64 g=aGroup(true); switch(r.below(6)){ case 0: emit(O_GSET,{nextGroup++,(i64)r.below(3),-2,g},-1,true); break; case 1: emit(O_GSET,{nextGroup++,(i64)r.below(3),g,-2},-1,true); break; case 2: { int m=r.below(3); std::vector<i64> a={nextGroup++,-2,m}; for(int i=0;i<m;i++) a.push_back(r.chance(0.6)?0:i); emit(O_GINCL,a,-1,true); break; }
          case 3: { int m=r.below(3); std::vector<i64> a={nextGroup++,-2,m}; for(int i=0;i<m;i++){ a.push_back(0); a.push_back(r.chance(0.7)?0:1); a.push_back(1); } emit(O_GRANGE,a,-1,true); break; }
          default: { int m=r.below(3); bool w=r.chance(0.5); std::vector<i64> a={w?-2:g,w?g:-2,m}; for(int i=0;i<m;i++) a.push_back(0); emit(O_GTRANS,a,-1,true); } } break; }
        case 18: if(prop=="C21"||prop=="C22"||prop=="C16") { int m=r.chance(0.1)?1+r.below(600):1+r.below(4); std::vector<i64> a={aGroup(true),aGroup(true),m}; int b=r.chance(0.8)?(int)r.below(m):-1; for(int i=0;i<m;i++) a.push_back(i==b?badRank(true):0); emit(O_GTRANS,a,-1,true); } break;
        case 19: if(prop!="C22"||r.chance(0.2)) emit(O_ABORT,{c,abortCode()},-1,true); break;
      }
    }
  }
  void drain(){
    for(int round=0;round<3&&!over;round++){
      std::vector<int> cs; for(auto&c:d.comms) cs.push_back(c.first);
      for(int c:cs){
        for(int guard=0;guard<400&&!over;guard++){ CommM&C=d.comms[c]; if(C.sends.empty()) break; auto q=d.reqs[C.sends.front()]; if(q.orphan) break; if(q.pb>=0){ int p=nextPack++; if(!emit(O_PKNEW,{p,q.count+4,seed()})||!emit(O_PKRECV,{nextReq++,p,c,q.tag})) break; continue; } i64 ref,n; int fam=famOf(c); i64 u=unitsOf(q,c); if(!aType(fam,true,u,ref,n)) break; bool ok; if(r.chance(0.5)) ok=emit(O_RECV,{c,r.chance(0.3)?MPI_ANY_TAG:q.tag,ref,n,0,seed(),0,r.chance(k.pStIgn)}); else ok=emit(O_IRECV,{nextReq++,c,r.chance(0.3)?MPI_ANY_TAG:q.tag,ref,n,MPI_ANY_SOURCE,seed(),0}); if(!ok) break; now+=1+r.below(50); }
        for(int guard=0;guard<400&&!over;guard++){ CommM&C=d.comms[c]; if(C.recvs.empty()) break; auto q=d.reqs[C.recvs.front()]; if(q.orphan) break; if(q.pb>=0){ int p=nextPack++; if(!emit(O_PKNEW,{p,8,seed()})||!emit(O_PKSEND,{nextReq++,p,c,q.tag})) break; continue; } i64 ref,n; int fam=famOf(c); i64 u=unitsOf(q,c); if(!aType(fam,false,r.chance(0.7)?u:aCount(),ref,n)) break; bool ok; int tag=q.tag>=0?q.tag:aTag(); if(r.chance(0.5)) ok=emit(O_SEND,{c,tag,ref,n,0,seed(),0,(i64)r.below(3)}); else ok=emit(O_ISEND,{nextReq++,c,tag,ref,n,0,seed(),0,0}); if(!ok) break; now+=1+r.below(50); }
      }
      std::vector<i64> dn; for(auto&q:d.reqs) if(q.second.state==R_DONE&&!q.second.freed) dn.push_back(q.first);
      for(size_t i=dn.size();i>1;i--) std::swap(dn[i-1],dn[r.below(i)]);
      size_t i=0; while(i<dn.size()&&!over){ int how=r.below(5); size_t m=std::min<size_t>(dn.size()-i,how<2?1:1+r.below(20)); std::vector<i64> a={r.chance(k.pStIgn),(i64)m}; a.insert(a.end(),dn.begin()+i,dn.begin()+i+m); if(how==0) emit(O_WAIT,{dn[i],r.chance(k.pStIgn)}); else if(how==1) emit(O_TEST,{dn[i],r.chance(k.pStIgn)}); else if(how==2) emit(O_WAITALL,a); else if(how==3) emit(O_WAITSOME,a); else { emit(O_WAITANY,a); m=0; if(d.reqs[dn[i]].state!=R_DONE) m=1; else { emit(O_WAIT,{dn[i],0}); m=1; } } i+=m; }
    }
    { std::vector<int> cs; for(auto&c:d.comms){ cs.push_back(c.first); if(cs.size()>60) break; } for(int c:cs) emit(O_IPROBE,{c,MPI_ANY_SOURCE,MPI_ANY_TAG,1}); }
  }
  void freeAll(){
    std::vector<std::pair<int,int>> v; for(auto&t:d.types) v.push_back({0,t.first}); for(auto&c:d.comms) if(c.first) v.push_back({1,c.first}); for(auto&g:d.groups) v.push_back({2,g.first});
    for(size_t i=v.size();i>1;i--) std::swap(v[i-1],v[r.below(i)]);
    if(v.size()>400) v.resize(400);
    for(auto&x:v) emit(x.first==0?O_TFREE:x.first==1?O_CFREE:O_GFREE,{x.second});
  }

  void act(int a){
    switch(a){
      case A_ISEND: doIsend(); break; case A_IRECV: doIrecv(); break; case A_SEND: doSend(); break; case A_RECV: doRecv(); break; case A_SENDRECV: doSendrecv(); break; case A_PROBE: doProbe(); break; case A_PAIR: doPair(); break;
      case A_TEST: doTest(); break; case A_WAIT: doWait(); break; case A_ANY: doArr(0); break; case A_ALL: doArr(1); break; case A_SOME: doArr(2); break; case A_REQFREE: doReqfree(); break; case A_FREEUSE: freeUse(); break;
      case A_TYPE: if(r.chance(k.pBig*0.15)&&!ep&&prop!="C10") doBigType(); else doType(); break; case A_TFREE: doTfree(); break; case A_TQUERY: doTquery(); break;
      case A_COMM: doComm(); break; case A_CFREE: doCfree(); break; case A_CQ: doCq(); break; case A_GROUP: doGroup(); break; case A_PACK: doPack(); break; case A_COLL: doColl(); break;
      case A_CLOCK: doClock(); break; case A_WTIME: emit(O_WTIME,{}); break; case A_HOST: doHost(); break; case A_NAME: emit(O_PROCNAME,{}); break; case A_STR: doStr(); break; case A_INITQ: emit(O_INITQ,{}); break;
      case A_FILL: emit(O_FILL,{(i64)r.below(5)}); break; case A_DIE: if(task!=0) emit(O_DIE,{}); break; case A_MT: emit(O_MT,{2+(i64)r.below(3),1+(i64)r.below(6),seed(),(i64)logu(3,60)}); break; case A_MASS: doMass(); break; case A_POLL: doPoll(); break;
      case A_CONV: { i64 k=r.below(4); i64 v=r.chance(0.5)?-7777777:r.chance(0.5)?(i64)(int)r.next():(i64)(int)r.below(70000)-100; if(r.chance(0.1)){ static const int e[]={0,1,-1,INT_MAX,INT_MIN,255,256,65535,65536,262143}; v=e[r.below(10)]; } emit(O_CONV,{k,(i64)r.below(1000),v}); break; }
      case A_FCONST: emit(O_FCONST,{}); break; case A_GIANT: doGiant(); break;
      case A_REINIT: if(r.chance(0.3)) again(); break;
    }
  }
  size_t initAt=0;
  // many objects, one of them used, and the same once more after starting over
  void massAgain(){
    int kind=r.below(4); i64 n=r.chance(0.5)?logu(200,700):(i64)(254+256*r.below(3)+r.below(5)); i64 base=kind==0?nextType:kind==1?nextComm:nextReq; (kind==0?nextType:kind==1?nextComm:nextReq)+=n; int f=r.below(3);
    if(!emit(O_MASS,{kind,base,n,kind==0?(i64)MPI_INT:0,0,seed()},f)) return; massed.push_back({kind,base,n,0}); i64 x=base+n-1-(i64)r.below(std::min<i64>(n,8));
    for(int i=r.chance(0.7)?1:2;i>0;i--) switch(kind){ case 0: emit(r.chance(0.5)?O_TCOMMIT:O_TQUERY,{x}); break; case 1: if(r.chance(0.5)) emit(O_CSIZE,{x}); else emit(O_IPROBE,{x,0,MPI_ANY_TAG,1}); break; default: emit(O_TEST,{x,1}); break; }
    if(r.chance(0.8)) again(1);
  }
  void again(double p=0.4){ // start over, often with the same program
    std::vector<Op> seq; if(r.chance(p)&&tr.ops.size()-initAt<400) seq.assign(tr.ops.begin()+initAt,tr.ops.end());
    if(!emit(O_FINALIZE,{})) return; massed.clear(); auto tf=tfam; auto cf=cfam; reset(); emit(O_INITQ,{}); initNow(); if(over||seq.empty()) return;
    size_t from=r.chance(0.3)?r.below(seq.size()):0; for(size_t i=from;i<seq.size()&&!over;i++) emit(seq[i].k,seq[i].a,seq[i].f);
    for(auto&t:tf) if(d.types.count(t.first)) tfam[t.first]=t.second; for(auto&c:cf) if(d.comms.count(c.first)) cfam[c.first]=c.second; for(auto&t:d.types) if(!tfam.count(t.first)) tfam[t.first]=0; for(auto&c:d.comms) if(!cfam.count(c.first)) cfam[c.first]=0;
  }
  void initNow(){ initNow1(); initAt=tr.ops.size(); }
  void initNow1(){
    if(prop=="C23"){ if(r.chance(0.1)) emit(O_FCONST,{});
      if(r.chance(0.35)){ int which=r.below(22); i64 d=0; static const int D[]={1,-1,2,-2,100,-100,INT_MAX/2,256,65536,3,-3}; if(which<16) d=r.chance(0.7)?D[r.below(11)]:(i64)(int)(r.next()>>34)+1; else if(which==16){ static const int T[]={MPI_INT,MPI_INTEGER4,MPI_REAL,MPI_LOGICAL,MPI_UNSIGNED,MPI_FLOAT,MPI_WCHAR}; d=T[r.below(7)]; } else { static const int Z[]={1,2,4,8,16,12,3,32}; d=Z[r.below(8)]; } if(emit(O_INITSKEW,{which,d},1,true)) return; }
      if(r.chance(0.4)&&emit(O_INITSKEW,{22+(i64)r.below(3),0},1)) return; }
    bool th=prop=="C20"?r.chance(0.9):r.chance(0.3); if(!emit(O_INIT,{th,(i64)r.below(4)})) over=true; }
  void reset(){ tfam.clear(); std::map<int,int> c0; c0[0]=cfam[0]; cfam=c0; mine.clear(); massed.clear(); packItems.clear(); packRead.clear(); }
  void setKnobs();
  void run();
};

void Gen::setKnobs(){
  double*w=k.w; for(int i=0;i<A_N;i++) w[i]=0;
  auto base=[&](double s){ w[A_ISEND]=10*s; w[A_IRECV]=10*s; w[A_SEND]=2*s; w[A_RECV]=2*s; w[A_SENDRECV]=1.5*s; w[A_PROBE]=2*s; w[A_TEST]=5*s; w[A_WAIT]=5*s; w[A_ANY]=1.5*s; w[A_ALL]=1.5*s; w[A_SOME]=1.5*s; w[A_PAIR]=2*s; };
  auto types=[&](double s){ w[A_TYPE]=3*s; w[A_TFREE]=1.5*s; w[A_TQUERY]=1*s; };
  auto comms=[&](double s){ w[A_COMM]=1.5*s; w[A_CFREE]=1*s; w[A_CQ]=0.7*s; w[A_GROUP]=1*s; };
  base(1); types(0.6); comms(0.4); w[A_COLL]=0.5; w[A_PACK]=0.3; w[A_FILL]=0.3; w[A_DIE]=0.15; w[A_REQFREE]=0.3; w[A_WTIME]=0.1; w[A_INITQ]=0.1; w[A_STR]=0.1;
  k.tasks=1+r.below(6); k.nops=40+(int)logu(0,200); k.tags=1+r.below(6); { static const int tb[]={70,127,128,252,1000,4095,32764,32768,65533,100000,0x40000000,INT_MAX-7}; if(r.chance(0.2)) k.tagBase=tb[r.below(12)]; } k.comms=1+r.below(4); k.pDerived=r.chance(0.3)?0:0.3+0.6*w01(); k.pFort=r.chance(0.3)?0:r.chance(0.2)?1:0.4; k.pendCap=(int)logu(2,200); k.maxCount=(int)logu(3,60); k.pAny=w01()*0.6; k.pDone=0.2+0.7*w01(); k.pNull=r.chance(0.3)?0.1:0.02; k.pLethal=0.15;
  const std::string&p=prop;
  if(p=="C01"){ w[A_ISEND]=14; w[A_IRECV]=14; w[A_COLL]=0.2; w[A_PACK]=0.2; types(0.1); k.pDerived=0.1; k.pBig=0.005; if(r.chance(0.1)){ k.nops=1200; k.pendCap=600; } }
  else if(p=="C02"){ types(2); w[A_PAIR]=12; w[A_ISEND]=6; w[A_IRECV]=6; w[A_SENDRECV]=4; w[A_SEND]=4; w[A_RECV]=4; k.pDerived=0.5+0.5*w01(); k.pFar=0.06; k.pBottom=0.15; k.pShort=0.4; k.pBig=0.04; k.maxCount=(int)logu(5,200); }
  else if(p=="C03"){ types(1); w[A_PROBE]=5; w[A_RECV]=5; w[A_SENDRECV]=4; k.pStIgn=0.1; k.pShort=0.5; k.pNull=0.1; w[A_PAIR]=5; }
  else if(p=="C04"){ w[A_TEST]=14; w[A_WAIT]=9; w[A_REQFREE]=1; types(0.2); k.pendCap=(int)logu(5,500); if(r.chance(0.1)) k.nops=900; }
  else if(p=="C05"){ w[A_ANY]=8; w[A_ALL]=8; w[A_SOME]=8; w[A_TEST]=1; w[A_WAIT]=1; w[A_REQFREE]=0.3; types(0.2); k.pDone=0.3+0.5*w01(); }
  else if(p=="C06"){ k.pLethal=0.85; w[A_DIE]=0.6; types(0.2); k.nops=10+(int)logu(0,120); }
  else if(p=="C07"){ w[A_PROBE]=16; types(0.4); k.pStIgn=0.15; w[A_ISEND]=12; w[A_IRECV]=8; k.pNull=0.06; }
  else if(p=="C08"){ w[A_MASS]=5; base(0.4); types(1.5); comms(2); k.nops=30; }
  else if(p=="C09"){ w[A_FREEUSE]=10; w[A_PAIR]=10; types(2); w[A_REQFREE]=2; k.pDerived=0.85; k.pBig=0.01; }
  else if(p=="C10"){ types(2); comms(1.5); w[A_FILL]=0; w[A_DIE]=0; k.nops=25+(int)logu(0,60); k.pBig=0.006; w[A_MASS]=r.chance(0.15)?0.6:0; }
  else if(p=="C11"){ types(2); comms(1); w[A_PACK]=1; w[A_COLL]=1.5; w[A_FREEUSE]=1; w[A_FILL]=0.5; }
  else if(p=="C12"){ types(2); comms(1.5); w[A_REQFREE]=3; w[A_FILL]=0; w[A_DIE]=0; w[A_PACK]=0.8; w[A_COLL]=1; w[A_GROUP]=1; k.pBig=0; k.pFar=0; k.maxCount=6; w[A_FREEUSE]=1; }
  else if(p=="C13"){ types(8); w[A_PAIR]=6; w[A_PACK]=2; w[A_COLL]=1; base(0.3); w[A_PAIR]=6; k.pDerived=0.95; k.pFar=0.06; k.pBig=0.03; k.pendCap=10; }
  else if(p=="C14"){ w[A_PACK]=30; types(2); base(0.2); k.pDerived=0.3+0.6*w01(); w[A_COLL]=0; }
  else if(p=="C15"){ w[A_COLL]=20; types(1.5); base(0.4); comms(0.6); k.pFar=0.04; k.pBig=0.03; }
  else if(p=="C16"){ k.pFort=0.5; types(1); comms(1); w[A_COLL]=3; w[A_PACK]=2; w[A_ANY]=w[A_ALL]=w[A_SOME]=3; w[A_WTIME]=0.5; w[A_STR]=1; w[A_NAME]=0.5; w[A_HOST]=0.2; w[A_INITQ]=0.5; w[A_CONV]=1; w[A_FCONST]=0.1; w[A_GROUP]=1.5; w[A_PROBE]=3; k.pLethal=0.35; }
  else if(p=="C17"){ comms(8); base(0.7); types(0.2); k.comms=3+r.below(6); w[A_COLL]=0.5; }
  else if(p=="C18"){ w[A_CLOCK]=20; w[A_WTIME]=30; base(0.2); types(0.1); w[A_REINIT]=0.3; k.pLethal=0.1; }
  else if(p=="C19"){ w[A_HOST]=12; w[A_NAME]=20; w[A_STR]=20; base(0.2); types(0.1); w[A_FILL]=3; w[A_REINIT]=0.3; k.pLethal=0.05; }
  else if(p=="C20"){ k.threads=true; types(1); comms(0.6); w[A_MT]=1.5; k.tasks=2+r.below(5); w[A_REINIT]=0.3; w[A_MASS]=r.chance(0.1)?0.5:0; k.pFort=r.chance(0.5)?0.2:0.6; }
  else if(p=="C21"){ w[A_INITQ]=4; w[A_REINIT]=3; k.pLethal=0.5; k.nops=5+(int)logu(0,100); w[A_MASS]=r.chance(0.05)?1:0; }
  else if(p=="C23"){ w[A_FCONST]=2; w[A_REINIT]=4; types(0.5); w[A_TQUERY]=6; k.pFort=0.4+0.6*w01(); k.nops=5+(int)logu(0,80); }
  else if(p=="C24"){ w[A_CONV]=30; comms(2); w[A_MASS]=r.chance(0.02)?0.3:0; base(0.5); w[A_REINIT]=0.5; }
  else if(p=="C22"){ k.pLethal=0.95; types(0.8); w[A_PACK]=2; w[A_GROUP]=1; w[A_COLL]=1; k.nops=5+(int)logu(0,100); }
  if(p=="C01"||p=="C02"||p=="C03"||p=="C07"||p=="C13"||p=="C16"||p=="C11"||p=="C20"){ w[A_GIANT]=p=="C03"||p=="C07"||p=="C02"?1.2:0.3; }
  if((p=="C04"||p=="C05"||p=="C07"||p=="C15"||p=="C18")&&r.chance(0.15)) w[A_POLL]=p=="C15"?0.8:0.3;
  if(w[A_MASS]==0&&p!="C12"&&p!="C14"&&p!="C15"&&p!="C18"&&p!="C19"&&p!="C23"&&r.chance(0.04)) w[A_MASS]=0.5;
  // swarm: switch some of it off, turn some of it up
  for(int i=0;i<A_N;i++){ double u=w01(); if(u<0.12&&i!=A_ISEND&&i!=A_IRECV&&w[i]<5) w[i]=0; else if(u<0.25) w[i]*=0.3; else if(u>0.88) w[i]*=3; }
  if(deep) k.nops=k.nops*3/2;
  EnvCfg&e=tr.env; e.seed=r.next()>>1; e.heapPolicy=r.below(3); e.fill=r.below(5); e.reuseUser=r.below(2); e.threads=k.threads?1:0;
  ep=p=="C12"||((p=="C01"||p=="C02"||p=="C03"||p=="C07"||p=="C11"||p=="C13"||p=="C14"||p=="C15"||p=="C16"||p=="C20"||p=="C21"||p=="C24")&&r.chance(0.008))||((p=="C04"||p=="C05"||p=="C09"||p=="C17")&&r.chance(0.08))||(p=="C08"&&r.chance(0.05));
  if(ep){ e.fill=0; w[A_FILL]=0; w[A_DIE]=0; w[A_MASS]=0; w[A_POLL]=0; w[A_GIANT]=0; w[A_REINIT]=0; w[A_MT]=0; k.pBig=r.chance(0.1)?0.01:0; k.pFar=0; k.maxCount=std::min(k.maxCount,6); if(r.chance(0.85)) k.pendCap=std::min(k.pendCap,60); }
}

void Gen::run(){
  setKnobs(); tr.profile=prop; 
  // before initialisation
  if(r.chance(0.3)) emit(O_INITQ,{}); if(prop=="C18"&&r.chance(0.5)) { doClock(); emit(O_WTIME,{}); } if(prop=="C19"&&r.chance(0.5)){ doHost(); emit(O_PROCNAME,{}); doStr(); } if(prop=="C21"&&r.chance(0.3)) doStr();
  initNow(); if(over) return;
  if(!ep&&((prop=="C21"&&r.chance(0.02))||((prop=="C20"||prop=="C08"||prop=="C11")&&r.chance(0.005)))) massAgain(); if(over) return;
  int mainFam=r.below(NFAM); cfam[0]=mainFam;
  for(int i=0;i<k.comms-1;i++){ int s=nextComm++; if(emit(O_CDUP,{s,0})) cfam[s]=r.chance(0.5)?mainFam:(int)r.below(NFAM); }
  if(k.pDerived>0) for(int i=0;i<3;i++) doType();
  // exhaustion runs
  if(prop=="C08"&&!ep&&r.chance(deep?0.08:0.03)){
    int kind=r.below(4); i64 n=262300; if(kind>=2){ int c=nextComm++; emit(O_CDUP,{c,0}); cfam[c]=NFAM; } i64 ref=kind==0?MPI_INT:kind==1?0:nextComm-1; i64 base=kind==0?nextType:kind==1?nextComm:nextReq; if(kind==0) nextType+=n; else if(kind==1) nextComm+=n; else nextReq+=n;
    if(r.chance(0.5)) n=261900-d.liveHandles; 
    emit(O_MASS,{kind,base,n,ref,0,seed()},2); 
    if(n<262000){ int mk=kind==0?4:kind==1?5:7; doComm(); doType(); emit(O_MASS,{mk,base,n,0,(i64)r.below(4),seed()},2); for(int i=0;i<10;i++) act(A_PAIR); } 
    tr.ops.shrink_to_fit();
  }
  struct T { i64 wake; double speed; double bias; };
  std::vector<T> ts(k.tasks); for(auto&t:ts){ t.wake=r.below(1000); t.speed=__builtin_exp((w01()-0.5)*4); t.bias=w01(); }
  auto body=[&](int nops){
    int lastN=0,guard=0;
    for(int n=0;n<nops&&!over&&guard<nops*4;guard++){
      int b=0; for(int i=1;i<k.tasks;i++) if(ts[i].wake<ts[b].wake) b=i;
      now=std::max(now,ts[b].wake); task=b; int burst=r.chance(0.2)?1+r.below(6):1;
      for(int q=0;q<burst&&!over;q++){ double tot=0; for(int i=0;i<A_N;i++) tot+=k.w[i]*(i==A_ISEND?0.3+1.4*ts[b].bias:i==A_IRECV?1.7-1.4*ts[b].bias:1); double u=w01()*tot; int a=0; for(;a<A_N-1;a++){ double x=k.w[a]*(a==A_ISEND?0.3+1.4*ts[b].bias:a==A_IRECV?1.7-1.4*ts[b].bias:1); if(u<x) break; u-=x; }
        size_t before=tr.ops.size(); if(d.deadTasks.count(b)){ break; } act(a); n+=(int)(tr.ops.size()-before); now+=1; }
      ts[b].wake=now+1+(i64)(ts[b].speed*100*-__builtin_log(1-w01()*0.999))+(r.chance(0.03)?(i64)r.below(100000):0);
      if((int)d.deadTasks.size()>=k.tasks) break; (void)lastN;
    }
  };
  if(ep){
    task=0; body(10); if(over) return; drain(); 
    emit(O_MARK,{0}); size_t at=tr.ops.size(); i64 pop=d.population(); int c0=k.comms;
    std::set<int> T0,C0,G0; for(auto&t:d.types) T0.insert(t.first); for(auto&c:d.comms) C0.insert(c.first); for(auto&g:d.groups) G0.insert(g.first);
    std::set<int> Q0; for(auto&q:d.reqs) Q0.insert(q.first);
    // a balanced epoch: things that existed before stay
    bool crowd=false; int nb=4+(int)(r.chance(0.1)?logu(40,500):logu(0,40)); task=0; (void)c0;
    if((prop=="C09"||prop=="C12"||prop=="C04")&&r.chance(0.04)){ // a crowd of pending operations on one type, which is freed meanwhile
      int c=nextComm++,t=nextType++; i64 n=r.chance(0.4)?253+(i64)r.below(8):logu(100,700),b1=nextReq,b2=b1+n; nextReq+=2*n; int a=2+(int)r.below(2); nb=(int)r.below(4); crowd=true;
      if(emit(O_CDUP,{c,0})){ cfam[c]=NFAM; i64 tt=MPI_INT; if(r.chance(0.5)?emit(O_TCONTIG,{t,MPI_INT,1}):emit(O_TSTRUCT,{t,1,1,(i64)r.below(3)*4,MPI_INT})){ tfam[t]=NFAM; emit(O_TCOMMIT,{t}); if(d.types[t].m->committed) tt=t; }
        if(emit(O_MASS,{a,b1,n,c,0,seed(),tt},r.below(3))){ if(tt>=0&&r.chance(0.5)) emit(O_TFREE,{t}); emit(O_MASS,{5-a,b2,n,c,(i64)r.below(4),seed(),MPI_INT},r.below(3)); emit(O_MASS,{6,b1,n,0,(i64)r.below(4),seed()},r.below(3)); emit(O_MASS,{6,b2,n,0,(i64)r.below(4),seed()},r.below(3)); } } }
    for(int i=0;i<nb;i++){ double tot=0; for(int j=0;j<A_N;j++) tot+=k.w[j]; double u=w01()*tot; int a=0; for(;a<A_N-1;a++){ if(u<k.w[a]) break; u-=k.w[a]; } task=r.below(k.tasks); 
      size_t b0=tr.ops.size(); (void)b0; protect=true; pT=T0; pC=C0; pG=G0; act(a); }
    drain();
    for(int t:std::set<int>(T0)) (void)t;
    std::vector<std::pair<int,int>> v; for(auto&t:d.types) if(!T0.count(t.first)) v.push_back({0,t.first}); for(auto&c:d.comms) if(!C0.count(c.first)) v.push_back({1,c.first}); for(auto&g:d.groups) if(!G0.count(g.first)) v.push_back({2,g.first});
    for(size_t i=v.size();i>1;i--) std::swap(v[i-1],v[r.below(i)]); for(auto&x:v) emit(x.first==0?O_TFREE:x.first==1?O_CFREE:O_GFREE,{x.second});
    (void)at; i64 len=(i64)(tr.ops.size()-at)+1; emit(O_MARK,{crowd?80+(i64)r.below(60):r.chance(0.06)?std::max<i64>(600,72000/len):r.chance(0.65)?160:600}); if(d.population()!=pop){ unbalanced=true; }
    return;
  }
  body(k.nops);
  if(over) return;
  task=0; now+=1000;
  if(prop=="C18"&&r.chance(0.15)){ emit(O_CLOCKFAIL,{1}); emit(O_WTIME,{},-1,true); return; }
  if(r.chance(k.pLethal)){ if(prop=="C21"){ int x=r.below(4); if(x==0){ emit(O_INIT,{(i64)r.below(2),(i64)r.below(4)},-1,true); if(over) return; } if(x<3){ emit(O_ABORT,{aComm(),abortCode()},-1,true); if(over) return; } } lethalEnd(); if(over) return; }
  { bool g=(prop=="C02"&&r.chance(0.06))||(prop=="C15"&&r.chance(0.08))||(prop=="C13"&&r.chance(0.06))||(prop=="C10"&&r.chance(0.03))||(prop=="C14"&&r.chance(0.06))||(prop=="C22"&&r.chance(0.08));
    if(g){ if(prop=="C02") giantEnd(1+r.below(2)); else if(prop=="C15") giantEnd(r.chance(0.75)?0:5); else if(prop=="C13"||prop=="C10") giantEnd(prop=="C13"&&r.chance(0.3)?(int)r.below(3):4); else if(prop=="C22") giantEnd(5); else { i64 ref,n; if(aType(r.below(NFAM),true,1+aCount()/2,ref,n)&&d.typeOf(ref)->size>0&&n>0) emit(O_GIANT,{3,(i64)r.below(2),ref,n,n*d.typeOf(ref)->size-1-(i64)r.below(n*d.typeOf(ref)->size),seed(),aComm()},-1,true); } if(over) return; } }
  if(r.chance(k.pDrain)){ drain(); if(r.chance(0.7)) freeAll(); }
  if(over) return;
  if(r.chance(0.6)){ emit(O_FINALIZE,{}); if(r.chance(0.5)) emit(O_INITQ,{}); if(prop=="C21"&&r.chance(0.5)){ emit(O_INIT,{(i64)r.below(2),(i64)r.below(4)}); reset(); body(20); if(!over) emit(O_FINALIZE,{}); } }
}
Trace generate(const std::string&prop,u64 seed,int deep){ Gen g(prop,seed,deep); g.run(); g.tr.seed=seed; return g.tr; }
