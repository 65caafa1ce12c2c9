// Driver: seeded search over runs, each in a forked child; confirmation,
// minimisation and replay of violations; evidence.
#include "gen.h"
#include "threads.h"
#include "capi.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <time.h>
#include <fcntl.h>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <atomic>

static double wall(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }

// ---------------------------------------------------------------- what each check is about
struct PropDef { const char*id; const char*cats; const char*ops; double quick; };   // quick: seconds of search aimed at (sets the run count)
static const char*P2P="ISEND SEND IRECV RECV SENDRECV IPROBE PROBE PKSEND PKRECV ";
static const char*CMP="GIANT TEST WAIT TESTANY WAITANY TESTALL WAITALL TESTSOME WAITSOME REQFREE ";
static const char*FATAL="HANG CRASH CRASH_OOM MEM DEATH_UNEXPECTED RETCODE ";
static bool has(const std::string&l,const std::string&w){ size_t p=0; while((p=l.find(w,p))!=std::string::npos){ if((p==0||l[p-1]==' ')&&(p+w.size()==l.size()||l[p+w.size()]==' ')) return true; p+=w.size(); } return false; }
static std::string catsOf(const std::string&p){
  std::string F=FATAL;
  if(p=="C01") return F+"MATCH STATUS_ENV PAYLOAD PROBE DEATH_MISSING LEFTOVER";
  if(p=="C02") return F+"PAYLOAD BUF_INTEGRITY";
  if(p=="C03") return F+"STATUS_ENV STATUS_COUNT PROBE";
  if(p=="C04") return F+"MATCH REQ_NULLING HANDLE INDEX DEATH_MISSING PAYLOAD LEAK";
  if(p=="C05") return F+"INDEX REQ_NULLING STATUS_ENV STATUS_COUNT DEATH_MISSING BUF_INTEGRITY LEAK";
  if(p=="C06") return "HANG CRASH CRASH_OOM MEM DEATH_UNEXPECTED DEATH_MISSING DEATH_SILENT RETCODE";
  if(p=="C07") return F+"PROBE STATUS_ENV STATUS_COUNT MATCH PAYLOAD BUF_INTEGRITY DEATH_MISSING";
  if(p=="C08") return F+"HANDLE MATCH TYPE_QUERY PAYLOAD COMM BUF_INTEGRITY DEATH_SILENT REQ_NULLING STATUS_ENV LEAK";
  if(p=="C09") return F+"LEAK PAYLOAD BUF_INTEGRITY STATUS_ENV STATUS_COUNT MATCH HANDLE TYPE_QUERY REQ_NULLING COMM PROBE";
  if(p=="C10") return "HANG CRASH CRASH_OOM MEM DEATH_UNEXPECTED DEATH_SILENT RETCODE MATCH STATUS_ENV STATUS_COUNT PAYLOAD BUF_INTEGRITY HANDLE TYPE_QUERY COMM GROUP PACK INDEX REQ_NULLING PROBE DEATH_MISSING ABORT";
  if(p=="C11") return "ENVDIFF MEM CRASH HANG DEATH_UNEXPECTED STATUS_ENV STATUS_COUNT TYPE_QUERY PAYLOAD HANDLE MATCH BUF_INTEGRITY COMM";
  if(p=="C12") return "LEAK DEATH_UNEXPECTED CRASH MEM HANG";
  if(p=="C13") return F+"TYPE_QUERY PAYLOAD BUF_INTEGRITY PACK";
  if(p=="C14") return F+"PACK PAYLOAD BUF_INTEGRITY DEATH_MISSING DEATH_SILENT";
  if(p=="C15") return F+"PAYLOAD BUF_INTEGRITY MATCH PROBE";
  if(p=="C16") return F+"MATCH STATUS_ENV STATUS_COUNT PAYLOAD BUF_INTEGRITY INDEX REQ_NULLING PROBE HANDLE COMM GROUP TYPE_QUERY PACK TIME NAME INITQ THREAD ABORT DEATH_MISSING DEATH_SILENT CONST CONV";
  if(p=="C17") return F+"COMM GROUP HANDLE MATCH PROBE STATUS_ENV PAYLOAD LEAK";
  if(p=="C18") return "TIME HANG CRASH MEM DEATH_UNEXPECTED DEATH_MISSING DEATH_SILENT";
  if(p=="C19") return "NAME HANG CRASH MEM DEATH_UNEXPECTED RETCODE BUF_INTEGRITY";
  if(p=="C20") return F+"THREAD MATCH STATUS_ENV STATUS_COUNT PAYLOAD BUF_INTEGRITY HANDLE COMM TYPE_QUERY INDEX REQ_NULLING PROBE PACK INITQ DEATH_MISSING";
  if(p=="C21") return F+"INITQ ABORT DEATH_MISSING DEATH_SILENT BUF_INTEGRITY HANDLE COMM THREAD";
  if(p=="C23") return "CONST DEATH_MISSING DEATH_SILENT DEATH_UNEXPECTED CRASH MEM HANG RETCODE TYPE_QUERY PAYLOAD STATUS_ENV STATUS_COUNT INITQ";
  if(p=="C24") return "CONV CRASH MEM HANG DEATH_UNEXPECTED HANDLE";
  if(p=="C22") return "DEATH_MISSING DEATH_SILENT DEATH_UNEXPECTED HANG CRASH MEM BUF_INTEGRITY RETCODE";
  return F;
}
static std::string opsOf(const std::string&p){
  std::string a=P2P,b=CMP;
  if(p=="C04"||p=="C05") return a+b+"MARK ";
  if(p=="C01"||p=="C06") return a+b;
  if(p=="C02"||p=="C03") return a+b;
  if(p=="C07") return a+b;
  if(p=="C14") return "PKNEW PKSIZE PACK UNPACK PKSEND PKRECV "+b;
  if(p=="C15") return a+b+"COLL OPCREATE";
  if(p=="C18") return "WTIME"; if(p=="C24") return "CONV ";
  if(p=="C19") return "PROCNAME ERRSTR LIBVER MISC";
  if(p=="C13") return "";
  return "";
}

struct Known { std::string prop,cat,op,sub,text; };
static std::vector<Known> known; static std::vector<std::string> knownLines;
static void loadKnown(const std::string&f){ std::ifstream in(f); std::string l; while(std::getline(in,l)){ if(l.rfind("known:",0)!=0) continue; // known: property=C.. cat=.. op=.. match="..." :: text
    Known k; auto get=[&](const char*key)->std::string{ size_t p=l.find(std::string(key)+"="); if(p==std::string::npos) return ""; p+=strlen(key)+1; if(l[p]=='"'){ size_t e=l.find('"',p+1); return l.substr(p+1,e-p-1);} size_t e=l.find(' ',p); return l.substr(p,e-p); };
    k.prop=get("property"); k.cat=get("cat"); k.op=get("op"); k.sub=get("match"); size_t t=l.find(":: "); k.text=t==std::string::npos?"":l.substr(t+3); known.push_back(k); } }
static bool isKnown(const std::string&p,const Violation&v,const Op&o){ for(auto&k:known) if(k.prop==p&&k.cat==v.cat&&(k.op.empty()||k.op==opName[o.k])&&(k.sub.empty()||v.msg.find(k.sub)!=std::string::npos)) return true; return false; }

// ---------------------------------------------------------------- one run
struct Result {
  int status;            // 0 no result, 1 quiet, 2 violation
  char cat[32]; char msg[900]; int op; int opk;
  u64 logh,traceh,ileave; u64 nops; SimStats st; Counters cnt; int endKind; u64 funcs; u64 known; u64 handoffs; u64 epochs; EnvCfg env0;
};
static Result* shr; // this process's result slot
static u8* stateBits; static const u64 NBITS=1u<<27; static u8* funcBits;
static void setBit(u8*b,u64 h){ h&=NBITS-1; __atomic_fetch_or(&b[h>>3],(u8)(1<<(h&7)),__ATOMIC_RELAXED); }

static void runOps(Sim&s,const Trace&t,Result&R){
  size_t begin=0; i64 pop0=0; bool haveBegin=false;
  auto leak=[&](const Op&op){ // memory held after each epoch must stop growing
    size_t n=s.epochs.size(); if(n<64) return; u64 a=s.epochs[n/4].first,b=s.epochs[n/2].first,c=s.epochs[n-1].first;
    if(c>b&&b>a){ char m[300]; snprintf(m,sizeof m,"a balanced sequence of %zu operations repeated %zu times keeps growing the library's memory: %llu bytes after %zu repetitions, %llu after %zu, %llu after %zu",(size_t)(R.nops),n,(unsigned long long)a,n/4,(unsigned long long)b,n/2,(unsigned long long)c,n-1); Violation v; v.cat="LEAK"; v.msg=m; v.op=s.curIdx; s.cur=&op; if(!s.relevant||s.relevant(v,op)) s.viol=v; } };
  for(size_t i=0;i<t.ops.size();i++){
    const Op&op=t.ops[i]; s.curIdx=(int)i;
    StepR r=s.step(op); s.curIdx=(int)i;
    if(r==S_OK||r==S_END) R.nops++;
    if(s.verbose){ s.logText+=(r==S_ILLEGAL?"skip ":"  ok ")+op.str()+"\n"; }
    if(r==S_END||r==S_VIOL) { R.endKind=r==S_END?2:3; return; }
    if(op.k==O_MARK&&op.a.size()){
      if(op.a[0]==0){ begin=i+1; pop0=s.population(); haveBegin=true; s.epochs.clear(); }
      else if(haveBegin){ bool bal=s.population()==pop0; bool vb=s.verbose; s.verbose=false;
        for(i64 rep=1;bal&&rep<op.a[0];rep++){ for(size_t j=begin;j<=i;j++){ s.curIdx=(int)j; StepR q=s.step(t.ops[j]); s.curIdx=(int)j; if(q==S_END||q==S_VIOL){ R.endKind=q==S_END?2:3; s.verbose=vb; return; } } if(s.population()!=pop0) bal=false; }
        s.verbose=vb; if(bal){ R.epochs+=s.epochs.size(); leak(op); if(s.viol.set()){ s.viol.op=(int)i; R.endKind=3; return; } } }
    }
  }
  R.endKind=1; s.finalChecks();
}
static void childRun(const std::string&prop,const Trace&t,bool verbose,std::string*text){
  Result&R=*shr; memset((void*)&R,0,sizeof R);
  env::initRun(t.env); threads::reset(); threads::useThreads=t.env.threads!=0;
  Sim s(false); s.verbose=verbose; std::string cats=catsOf(prop),ops=opsOf(prop); u64 kn=0;
  s.relevant=[&](const Violation&v,const Op&o){ if(!has(cats,v.cat)) return false; if(!ops.empty()&&!has(ops,opName[o.k])) return false; if(isKnown(prop,v,o)){ kn++; return false; } return true; };
  runOps(s,t,R);
  R.known=kn; R.env0=t.env;
  if(text){ *text=s.logText; if(!s.endText.empty()) *text+="  end: "+s.endText+"\n"; }
  R.logh=s.logh; R.st=s.st; R.cnt=env::cnt; R.funcs=env::funcsEntered(); R.handoffs=threads::handoffs;
  u64 il=29; for(auto&o:t.ops){ il=hash2(il,o.k); il=hash2(il,o.task); } R.ileave=il; u64 th=17; for(auto&o:t.ops){ th=hash2(th,o.k); th=hash2(th,o.task); for(i64 a:o.a) th=hash2(th,(u64)a); } th=fnv(th,t.env.str().data(),t.env.str().size()); R.traceh=th;
  if(stateBits&&!verbose) for(u64 h:s.stateHashes) setBit(stateBits,h);
  env::markFuncs(funcBits);
  if(s.viol.set()){ R.status=2; snprintf(R.cat,sizeof R.cat,"%s",s.viol.cat.c_str()); snprintf(R.msg,sizeof R.msg,"%s",s.viol.msg.c_str()); R.op=s.viol.op; R.opk=(s.viol.op>=0&&s.viol.op<(int)t.ops.size())?t.ops[s.viol.op].k:0; }
  else R.status=1;
}
// fork, run, wait. Returns a copy of the child's result.
static Result forkRun(const std::function<void()>&f){
  memset((void*)shr,0,sizeof *shr); fflush(stdout); fflush(stderr);
  pid_t p=fork(); if(p<0){ perror("fork"); _exit(3); }
  if(p==0){ struct rlimit rl={60,70}; setrlimit(RLIMIT_CPU,&rl); f(); _exit(0); }
  int st; while(waitpid(p,&st,0)<0&&errno==EINTR){}
  Result r=*shr;
  if(WIFEXITED(st)&&WEXITSTATUS(st)==0&&r.status) return r;
  int code=WIFEXITED(st)?WEXITSTATUS(st):-WTERMSIG(st);
  if(code==98||code==97){ r.status=1; r.endKind=9; return r; }             // simulated memory or processor time used up: run abandoned
  r.status=2; snprintf(r.cat,sizeof r.cat,"CRASH"); snprintf(r.msg,sizeof r.msg,"the run ended without a result (%s %d): the library damaged the process outside the memory handed to it, or never returned",code>0?"exit":"signal",code>0?code:-code); r.op=-1; r.opk=0;
  return r;
}
static EnvCfg calm(const EnvCfg&e){ EnvCfg c; c.seed=1; c.failAt=e.failAt; c.failSticky=e.failSticky; c.threads=e.threads; c.variant=1; return c; }
// evaluate a given trace for a property
static Result evalTrace(const std::string&prop,const Trace&t,u64*evals=nullptr){
  Result r=forkRun([&]{ childRun(prop,t,false,nullptr); }); if(evals) ++*evals;
  if(prop=="C11"&&r.status==1&&r.endKind!=9){
    Trace c=t; c.env=calm(t.env); Result q=forkRun([&]{ childRun(prop,c,false,nullptr); }); if(evals) ++*evals;
    if(q.status==2) return q;
    if(q.endKind!=9&&(q.logh!=r.logh||q.endKind!=r.endKind)){ r.status=2; snprintf(r.cat,sizeof r.cat,"ENVDIFF"); snprintf(r.msg,sizeof r.msg,"the same calls give different results when fresh memory, stack and freed memory hold other contents (environment \"%s\" against a zeroed one)",t.env.str().c_str()); r.op=-1; r.opk=0; }
  }
  return r;
}

// ---------------------------------------------------------------- search
struct Totals { u64 runs,quiet,ops,lib,matched,delivered,bytes,lethal,faultDeaths,fortran,skipped,shortMsg,truncated,simUs,steps,allocs,frees,allocFailed,hostFail,clockFail,clockJump,clockReads,hostReads,deaths,reused,preempt,ctxsw,mutex,handoffs,epochs,known,ignored,abandoned,determinism,detBad,maxPendS,maxPendR,maxLive,endDrained,endDied,maxFuncs,heapPeak,threadRuns; u64 opHist[O_COUNT]; u64 fill[5],heap[3],failRuns,stickyRuns; };
struct Found { u64 seed; i64 failAt; int sticky; u64 index; Result r; };
struct Shared { std::atomic<u64> next; std::atomic<int> stop; std::atomic<int> nfound; Found found[64]; Totals tot[64]; Result slot[64]; };
static Shared* S; static u8* traceBits; static u8* ilBits;

static void add(Totals&T,const Result&r,const EnvCfg&e){
  T.runs++; if(r.endKind==9) T.abandoned++; if(r.status==1) T.quiet++; T.ops+=r.st.ops; T.lib+=r.st.lib; T.matched+=r.st.matched; T.delivered+=r.st.delivered; T.bytes+=r.st.bytes; T.lethal+=r.st.lethal; T.faultDeaths+=r.st.faultDeaths; T.fortran+=r.st.fortran; T.skipped+=r.st.skipped; T.shortMsg+=r.st.shortMsg; T.truncated+=r.st.truncated; T.simUs+=r.st.simUs; T.ignored+=r.st.ignored;
  T.steps+=r.cnt.steps; T.allocs+=r.cnt.allocs; T.frees+=r.cnt.frees; T.allocFailed+=r.cnt.allocFailed; T.hostFail+=r.cnt.hostFail; T.clockFail+=r.cnt.clockFail; T.clockJump+=r.cnt.clockJump; T.clockReads+=r.cnt.clockReads; T.hostReads+=r.cnt.hostReads; T.deaths+=r.cnt.deaths; T.reused+=r.cnt.reused; T.preempt+=r.cnt.preempt; T.ctxsw+=r.cnt.ctxsw; T.mutex+=r.cnt.mutex; T.handoffs+=r.handoffs; T.epochs+=r.epochs; T.known+=r.known;
  T.maxPendS=std::max(T.maxPendS,r.st.maxPendS); T.maxPendR=std::max(T.maxPendR,r.st.maxPendR); T.maxLive=std::max(T.maxLive,r.st.maxLive); T.maxFuncs=std::max(T.maxFuncs,r.funcs); T.heapPeak=std::max(T.heapPeak,r.cnt.heapPeak);
  if(r.endKind==1) T.endDrained++; if(r.endKind==2) T.endDied++; if(e.threads) T.threadRuns++; T.fill[e.fill%5]++; T.heap[e.heapPolicy%3]++; if(e.failAt){ T.failRuns++; if(e.failSticky) T.stickyRuns++; }
  for(int i=0;i<O_COUNT;i++) T.opHist[i]+=r.st.opHist[i];
  if(r.endKind!=9&&r.st.lib>0){ setBit(traceBits,r.traceh); setBit(ilBits,r.ileave); }
}
static u64 seedOf(const std::string&prop,u64 vs,u64 i){ return hash2(hash2(vs,fnv(5,prop.data(),prop.size())),i)>>1; }
static void record(const std::string&prop,u64 seed,const EnvCfg&e,u64 idx,const Result&r){ int k=S->nfound.fetch_add(1); if(k<64){ S->found[k].seed=seed; S->found[k].failAt=e.failAt; S->found[k].sticky=e.failSticky; S->found[k].index=idx; S->found[k].r=r; } else S->stop=1; }

static void worker(int w,const std::string&prop,u64 vs,u64 runs,double deadline,int deep,int stopAfter){
  shr=&S->slot[w]; Totals&T=S->tot[w];
  double tFound=0;
  for(;;){
    if(S->stop||wall()>deadline) break; if(S->nfound>=stopAfter) break; if(S->nfound>0){ if(!tFound) tFound=wall(); if(wall()-tFound>3) break; }
    u64 i=S->next.fetch_add(1); if(i>=runs) break;
    u64 seed=seedOf(prop,vs,i);
    if(prop=="C10"){
      Trace t=generate(prop,seed,deep); t.env.failAt=0; Result r=evalTrace(prop,t); add(T,r,t.env); if(r.status==2){ record(prop,seed,t.env,i,r); continue; }
      u64 N=r.cnt.allocs; Rng g(seed^99); u64 cap=deep?400:60;
      for(u64 k=1;k<=N&&k<=4000;k++){ if(N>cap&&g.below(N)>=cap) continue; if(S->stop||wall()>deadline) break; t.env.failAt=(i64)k; t.env.failSticky=(int)g.below(2); Result q=evalTrace(prop,t); add(T,q,t.env); if(q.status==2){ record(prop,seed,t.env,i,q); break; } }
      continue; }
    EnvCfg ec; Result r;
    if(prop=="C11"){ Trace t=generate(prop,seed,deep); u64 ev=0; ec=t.env; r=evalTrace(prop,t,&ev); add(T,r,ec); if(ev>1) T.runs++; }
    else { // the child generates its own run
      r=forkRun([&]{ Trace t=generate(prop,seed,deep); childRun(prop,t,false,nullptr); });
      ec=r.env0;
      add(T,r,ec); }
    if(r.status==2){ record(prop,seed,ec,i,r); continue; }
    if(i%53==7&&r.endKind!=9){ u64 l=r.logh,h=r.traceh; Result q=forkRun([&]{ Trace t=generate(prop,seed,deep); childRun(prop,t,false,nullptr); }); T.determinism++; if(q.status!=1||q.logh!=l||q.traceh!=h){ T.detBad++; } }
  }
}

// ---------------------------------------------------------------- minimisation
static bool same(const Result&a,const Result&b){ return b.status==2&&!strcmp(a.cat,b.cat)&&(a.op<0||b.op<0||a.opk==b.opk); }
static Trace minimise(const std::string&prop,Trace t,const Result&want,double deadline,u64&tries){
  auto test=[&](const Trace&c)->bool{ tries++; return same(want,evalTrace(prop,c)); };
  if(want.op>=0&&want.op+1<(int)t.ops.size()){ Trace c=t; c.ops.resize(want.op+1); if(test(c)) t=c; }
  for(int round=0;round<3&&wall()<deadline;round++){
    bool any=false;
    for(size_t chunk=std::max<size_t>(1,t.ops.size()/2);chunk>=1&&wall()<deadline;chunk/=2){
      for(i64 s=(i64)t.ops.size()-(i64)chunk;s>-(i64)chunk&&wall()<deadline;s-=(i64)chunk){ i64 a=std::max<i64>(0,s),b=s+(i64)chunk; if(b<=a) continue; Trace c=t; c.ops.erase(c.ops.begin()+a,c.ops.begin()+b); if(c.ops.empty()) continue; if(test(c)){ t=c; any=true; } }
      if(chunk==1) break; }
    // environment and arguments
    auto tryEnv=[&](std::function<void(EnvCfg&)> f){ Trace c=t; f(c.env); if(c.env.str()==t.env.str()) return; if(wall()<deadline&&test(c)){ t=c; any=true; } };
    tryEnv([](EnvCfg&e){ e.reuseUser=0; }); tryEnv([](EnvCfg&e){ e.heapPolicy=0; }); tryEnv([](EnvCfg&e){ e.fill=0; }); tryEnv([](EnvCfg&e){ e.failSticky=0; }); tryEnv([](EnvCfg&e){ e.threads=0; }); tryEnv([](EnvCfg&e){ if(e.heapPolicy==2) e.heapPolicy=1; });
    { Trace c=t; for(auto&o:c.ops){ o.task=0; } if(c.str()!=t.str()&&test(c)){ t=c; any=true; } }
    { Trace c=t; for(auto&o:c.ops){ o.f=0; } if(c.str()!=t.str()&&test(c)){ t=c; any=true; } }
    { Trace c=t; i64 k=0; for(auto&o:c.ops) o.t=k++; if(c.str()!=t.str()&&test(c)){ t=c; } }
    for(size_t i=0;i<t.ops.size()&&wall()<deadline;i++){ 
      if(t.ops[i].f){ Trace c=t; c.ops[i].f=0; if(test(c)){ t=c; any=true; } }
      if(t.ops.size()>60) continue;
      for(size_t j=0;j<t.ops[i].a.size()&&j<14&&wall()<deadline;j++){ i64 v=t.ops[i].a[j]; if(v>=0&&v<=1&&true) { if(v==1){ Trace c=t; c.ops[i].a[j]=0; if(test(c)){ t=c; any=true; } } continue; } if(v<0&&v>-70) continue;
        for(i64 x:{(i64)0,(i64)1,(i64)2,v/2,v-1}){ if(x==v||(x<0&&v>0)) continue; if(v>1000000&&x!=0&&x!=1&&x!=v/2) continue; Trace c=t; c.ops[i].a[j]=x; if(wall()>deadline) break; if(test(c)){ t=c; any=true; break; } } } }
    if(!any) break;
  }
  return t;
}

static std::string readFile(const std::string&f){ std::ifstream in(f); std::stringstream s; s<<in.rdbuf(); return s.str(); }
static std::string esc(const std::string&s){ std::string r; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c=='\n') r+="\\n"; else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }

static int doReplay(const std::string&file,bool verbose){
  std::string txt=readFile(file); Trace t; if(txt.find("\n# build options: typecheck\n")!=std::string::npos) strictTypes=true; if(txt.empty()||!t.parse(txt)){ fprintf(stderr,"cannot read %s\n",file.c_str()); return 3; }
  std::string prop=t.profile; int fd=dup(1);
  Result r=evalTrace(prop,t);
  if(verbose){ int p[2]; if(pipe(p)) return 3; pid_t k=fork(); if(!k){ std::string tx; childRun(prop,t,true,&tx); tx+="  verdict: "+std::string(shr->status==2?shr->cat:"quiet")+" "+(shr->status==2?shr->msg:"")+"\n"; for(size_t o=0;o<tx.size();){ ssize_t n=write(fd,tx.data()+o,tx.size()-o); if(n<=0) break; o+=n; } _exit(0); } waitpid(k,0,0); }
  if(r.status==2){ dprintf(fd,"reproduced: property=%s %s at op %d: %s (log %016llx)\n",prop.c_str(),r.cat,r.op,r.msg,(unsigned long long)r.logh); return 1; }
  dprintf(fd,"no violation (log %016llx)\n",(unsigned long long)r.logh); return 0;
}

int main(int argc,char**argv){
  if(!getenv("SIM_REEXEC")){ personality(ADDR_NO_RANDOMIZE); setenv("SIM_REEXEC","1",1); execv("/proc/self/exe",argv); }
  std::vector<std::string> A(argv+1,argv+argc); if(A.size()<2){ fprintf(stderr,"usage: sim check PROP outdir | replay FILE [-v] | gen PROP SEED\n"); return 3; }
  auto opt=[&](const char*n,const char*d)->std::string{ for(size_t i=0;i+1<A.size();i++) if(A[i]==n) return A[i+1]; return d; };
  S=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); shr=&S->slot[63];
  traceBits=(u8*)mmap(0,NBITS/8,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); ilBits=(u8*)mmap(0,NBITS/8,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); stateBits=(u8*)mmap(0,NBITS/8,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); funcBits=(u8*)mmap(0,1<<16,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  strictTypes=opt("--config","")=="typecheck"; env::mapArenas(); for(int h:allPredef()) predefType(h);
  loadKnown(opt("--known","/verif/known-findings.txt"));
  std::string cmd=A[0];
  if(cmd=="replay") return doReplay(A[1],A.size()>2&&A[2]=="-v");
  if(cmd=="gen"){ Trace t=generate(A[1],strtoull(A[2].c_str(),0,10),0); printf("%s",t.str().c_str()); return 0; }
  if(cmd=="survey"){ // which profiles notice anything: each one a few seconds in this process, stop at its first violation
    double b=atof(opt("--budget","3").c_str()); int stopAll=atoi(opt("--first","0").c_str()); std::string list=opt("--props",""); std::stringstream ls(list); std::string p; shr=&S->slot[0]; int any=0;
    while(ls>>p){ double t0=wall(); Result r; bool hit=false; u64 n=0;
      for(u64 i=0;!hit&&wall()-t0<b;i++){ u64 seed=seedOf(p,1,i);
        if(p=="C10"){ Trace t=generate(p,seed,0); t.env.failAt=0; r=evalTrace(p,t); n++; if(r.status==2){ hit=true; break; } u64 N=r.cnt.allocs; Rng g(seed^99); for(u64 k=1;k<=N&&k<=4000&&wall()-t0<b;k++){ if(N>60&&g.below(N)>=60) continue; t.env.failAt=(i64)k; t.env.failSticky=(int)g.below(2); r=evalTrace(p,t); n++; if(r.status==2){ hit=true; break; } } }
        else if(p=="C11"){ Trace t=generate(p,seed,0); r=evalTrace(p,t); n++; hit=r.status==2; }
        else { r=forkRun([&]{ Trace t=generate(p,seed,0); childRun(p,t,false,nullptr); }); n++; hit=r.status==2; } }
      printf("%s %s %llu %.1f %s %s %.120s\n",p.c_str(),hit?"HIT":"quiet",(unsigned long long)n,wall()-t0,hit?r.cat:"-",hit?opName[r.opk]:"-",hit?r.msg:""); fflush(stdout); if(hit){ any=1; if(stopAll) break; } }
    return any; }
  std::string prop=A[1]; u64 vs=strtoull(opt("--seed","1").c_str(),0,10); if(opt("--config","default")!="default"){ std::string c=opt("--config",""); vs=hash2(vs,fnv(3,c.data(),c.size())); } bool deep=opt("--tier","quick")=="thorough"; double budget=atof(opt("--budget",deep?"600":"30").c_str()); u64 runs=strtoull(opt("--runs","1000000000").c_str(),0,10); int nw=atoi(opt("--workers","8").c_str()); std::string evf=opt("--evidence",""), rdir=opt("--replays","/tmp"); int many=atoi(opt("--many","6").c_str());
  double t0=wall(), deadline=t0+budget;
  std::vector<pid_t> ps; for(int w=0;w<nw;w++){ fflush(stdout); pid_t p=fork(); if(!p){ worker(w,prop,vs,runs,deadline,deep,many); _exit(0); } ps.push_back(p); }
  for(pid_t p:ps){ int st; waitpid(p,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)){ fprintf(stderr,"worker failed\n"); return 3; } }
  double tSearch=wall()-t0;
  Totals T; memset(&T,0,sizeof T); for(int w=0;w<nw;w++){ u64*a=(u64*)&T,*b=(u64*)&S->tot[w]; Totals save=T; for(size_t i=0;i<sizeof T/8;i++) a[i]+=b[i]; Totals&B=S->tot[w]; T.maxPendS=std::max(save.maxPendS,B.maxPendS); T.maxPendR=std::max(save.maxPendR,B.maxPendR); T.maxLive=std::max(save.maxLive,B.maxLive); T.maxFuncs=std::max(save.maxFuncs,B.maxFuncs); T.heapPeak=std::max(save.heapPeak,B.heapPeak); }
  u64 dTraces=0,dStates=0,dIl=0; for(u64 i=0;i<NBITS/8;i++) dIl+=__builtin_popcount(ilBits[i]); for(u64 i=0;i<NBITS/8;i++){ dTraces+=__builtin_popcount(traceBits[i]); dStates+=__builtin_popcount(stateBits[i]); } u64 dFuncs=0; for(int i=0;i<(1<<16);i++) dFuncs+=__builtin_popcount(funcBits[i]);
  int nf=std::min<int>(S->nfound,64); int rc=0; std::string vjson; u64 reported=0;
  if(T.detBad){ fprintf(stderr,"simulator error: %llu of %llu repeated runs were not identical\n",(unsigned long long)T.detBad,(unsigned long long)T.determinism); rc=3; }
  std::vector<Found> fs(S->found,S->found+nf); std::sort(fs.begin(),fs.end(),[](const Found&a,const Found&b){ return a.index!=b.index?a.index<b.index:a.failAt<b.failAt; });
  std::set<std::string> seen; double mdl=wall()+(deep?120:45);
  for(auto&f:fs){
    std::string key=std::string(f.r.cat)+"/"+std::to_string(f.r.op<0?-1:f.r.opk); if(!seen.insert(key).second) continue; if(reported>=3) break;
    Trace t=generate(prop,f.seed,deep); t.env.failAt=f.failAt; t.env.failSticky=f.sticky;
    Result a=evalTrace(prop,t), b=evalTrace(prop,t);
    if(!same(f.r,a)||!same(a,b)||a.logh!=b.logh){ fprintf(stderr,"simulator error: run %llu seed %llu reported %s (%s) but did not repeat\n",(unsigned long long)f.index,(unsigned long long)f.seed,f.r.cat,f.r.msg); if(!rc) rc=3; continue; }
    u64 tries=0; Trace m=minimise(prop,t,a,std::min(mdl,wall()+(reported?12:25)),tries); Result fin=evalTrace(prop,m); if(!same(a,fin)){ m=t; fin=a; }
    mkdir(rdir.c_str(),0755); char path[600]; snprintf(path,sizeof path,"%s/%s-%llu-%s.trace",rdir.c_str(),prop.c_str(),(unsigned long long)f.seed,fin.cat);
    { std::ofstream o(path); o<<"# property "<<prop<<": "<<fin.cat<<": "<<esc(fin.msg)<<"\n# found by run "<<f.index<<" (seed "<<vs<<", run seed "<<f.seed<<"), minimised from "<<t.ops.size()<<" to "<<m.ops.size()<<" operations in "<<tries<<" trials\n# build options: "<<opt("--config","default")<<"\n# replay: bash tools/replay.sh "<<path<<" -v\n"<<m.str(); }
    // a fresh process has to see the same thing
    fflush(stdout); pid_t p=fork(); if(!p){ int n=open("/dev/null",O_WRONLY); dup2(n,1); unsetenv("SIM_REEXEC"); execl("/proc/self/exe","sim","replay",path,"--known",opt("--known","/verif/known-findings.txt").c_str(),(char*)0); _exit(9); }
    int st; waitpid(p,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)!=1){ fprintf(stderr,"simulator error: %s does not reproduce in a fresh process\n",path); if(!rc) rc=3; continue; }
    printf("VIOLATION property=%s replay=%s\n  %s: %s\n",prop.c_str(),path,fin.cat,fin.msg); for(auto&o:m.ops) if(m.ops.size()<=40) printf("    %s\n",o.str().c_str()); 
    vjson+=std::string(vjson.empty()?"":",")+"{\"category\":\""+fin.cat+"\",\"message\":\""+esc(fin.msg)+"\",\"replay\":\""+esc(path)+"\"}"; reported++;
  }
  if(reported) rc=1;
  for(auto&k:known) if(k.prop==prop) printf("KNOWN-FINDING: property=%s %s\n",prop.c_str(),k.text.c_str());
  double el=wall()-t0;
  if(!evf.empty()){
    std::ostringstream j; auto U=[](u64 v){ return std::to_string(v); };
    j<<"{\"property\":\""<<prop<<"\",\"tier\":\""<<(deep?"thorough":"quick")<<"\",\"seed\":"<<vs<<",\"level\":\""<<(prop=="C10"?"fault_enumeration":"exploration")<<"\",\"wall_s\":"<<el<<",\"violations\":"<<reported<<",\"coverage\":{";
    j<<"\"evaluations\":"<<T.runs<<",\"distinct_nontrivial\":"<<dTraces<<",\"rule\":\"one evaluation is one simulated run: a seed decides the environment (heap reuse policy, fill of fresh heap and stack, user memory reuse), the number of components, the order and timing of their operations, arguments, bindings and faults; distinct ones are counted by a hash of operation list and environment in a 2^27-bit map (collisions undercount); runs abandoned or without any library call are not counted\",";
    // samples
    j<<"\"samples\":["; for(int k=0;k<2;k++){ Trace t=generate(prop,seedOf(prop,vs,k),deep); std::string tx=t.str(); if(tx.size()>2500) tx=tx.substr(0,2500)+" ..."; j<<(k?",":"")<<"\""<<esc(tx)<<"\""; } j<<"],";
    j<<"\"runs_per_hour\":"<<(u64)(T.runs/tSearch*3600)<<",\"seeds_per_hour\":"<<(u64)((double)std::min<u64>(S->next,runs)/tSearch*3600)<<",\"simulated_seconds\":"<<T.simUs/1000000<<",\"simulated_operations\":"<<T.ops<<",\"library_calls\":"<<T.lib<<",\"instrumented_steps\":"<<T.steps<<",";
    j<<"\"messages_matched\":"<<T.matched<<",\"completions_observed\":"<<T.delivered<<",\"payload_bytes_checked\":"<<T.bytes<<",\"short_messages\":"<<T.shortMsg<<",\"truncated_messages\":"<<T.truncated<<",\"fortran_calls\":"<<T.fortran<<",";
    j<<"\"faults\":{\"allocation_failed\":"<<T.allocFailed<<",\"runs_with_allocation_fault\":"<<T.failRuns<<",\"runs_with_permanent_allocation_fault\":"<<T.stickyRuns<<",\"stops_after_allocation_fault\":"<<T.faultDeaths<<",\"required_terminations\":"<<T.lethal<<",\"freed_blocks_reused\":"<<T.reused<<",\"clock_jumps\":"<<T.clockJump<<",\"clock_read_failures\":"<<T.clockFail<<",\"host_name_failures\":"<<T.hostFail<<",\"component_deaths\":"<<T.opHist[O_DIE]<<",\"memory_fill_changes\":"<<T.opHist[O_FILL]<<",\"aborts\":"<<T.opHist[O_ABORT]<<",\"forced_preemptions\":"<<T.preempt<<",\"thread_handoffs\":"<<T.handoffs<<"},";
    j<<"\"distinct_states\":"<<dStates<<",\"state_measure\":\"hash of the pending send and receive queues (tags in order, first 40) of every communicator, number of live datatypes and the last operation kind, 2^27-bit map\",\"distinct_interleavings\":"<<dIl<<",\"interleaving_measure\":\"hash of the sequence of (component, kind of operation); arguments and environment left out\",\"library_functions_entered\":"<<dFuncs<<",";
    j<<"\"max_pending_sends\":"<<T.maxPendS<<",\"max_pending_receives\":"<<T.maxPendR<<",\"max_live_handles\":"<<T.maxLive<<",\"balanced_epochs\":"<<T.epochs<<",\"runs_ending_in_required_termination\":"<<T.endDied<<",\"runs_abandoned\":"<<T.abandoned<<",\"determinism_repeats\":"<<T.determinism<<",\"determinism_mismatches\":"<<T.detBad<<",\"known_findings_seen\":"<<T.known<<",\"results_outside_this_property\":"<<T.ignored<<",";
    j<<"\"operations\":{"; bool first=true; for(int i=0;i<O_COUNT;i++) if(T.opHist[i]){ j<<(first?"":",")<<"\""<<opName[i]<<"\":"<<T.opHist[i]; first=false; } j<<"},";
    j<<"\"real_components\":[\"every .c file of /repo's Makefile.am source list, compiled from the working tree\",\"fort.F90\"],\"stubbed_components\":[\"malloc family\",\"abort/exit/raise/assert\",\"gettimeofday/clock_gettime/time\",\"gethostname/uname\",\"sleep/yield\",\"pthread mutexes\",\"memory and stack contents\"]";
    if(!vjson.empty()) j<<",\"violations_found\":["<<vjson<<"]";
    j<<"},\"assumptions\":[\"the reference model in sim/model.cc and sim/sim.cc\",\"compiler instrumentation reports every memory access of the library\",\"x86-64 Linux, gcc, default configure options\"]}";
    std::ofstream o(evf); o<<j.str()<<"\n";
  }
  printf("%s%s: %llu runs (%llu distinct), %llu operations, %llu states, %llu violations in %.1f s\n",prop.c_str(),opt("--config","default")=="default"?"":(" ("+opt("--config","")+")").c_str(),(unsigned long long)T.runs,(unsigned long long)dTraces,(unsigned long long)T.ops,(unsigned long long)dStates,(unsigned long long)reported,el);
  if(T.runs==0) rc=rc?rc:3;
  return rc;
}
