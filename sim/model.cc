// Reference model: datatypes as typemaps, buffers as byte images, traces as text.
#include "sim.h"
#include "capi.h"
#include <algorithm>
#include <sstream>

const char* opName[]={
#define X(n) #n,
OPS(X)
#undef X
nullptr};
int opByName(const std::string&s){ for(int i=0;i<O_COUNT;i++) if(s==opName[i]) return i; return -1; }
std::string Op::str() const { std::ostringstream o; o<<opName[k]<<" task="<<task<<" t="<<t<<(f?" F":" C"); for(i64 x:a) o<<" "<<x; return o.str(); }
std::string Trace::str() const { std::ostringstream o; o<<"profile "<<profile<<" seed "<<seed<<"\nenv "<<env.str()<<"\n"; for(auto&p:ops) o<<p.str()<<"\n"; return o.str(); }
bool Trace::parse(const std::string&s){
  std::istringstream in(s); std::string line; ops.clear();
  while(std::getline(in,line)){
    if(line.empty()||line[0]=='#') continue;
    std::istringstream l(line); std::string w; l>>w;
    if(w=="profile"){ std::string x; l>>profile>>x>>seed; continue; }
    if(w=="env"){ std::string kv; while(l>>kv){ auto e=kv.find('='); if(e==std::string::npos) continue; std::string k=kv.substr(0,e); long long v=strtoll(kv.c_str()+e+1,0,10); u64 uv=strtoull(kv.c_str()+e+1,0,10);
        if(k=="heap")env.heapPolicy=v; else if(k=="fill")env.fill=v; else if(k=="eseed")env.seed=uv; else if(k=="failat")env.failAt=v; else if(k=="sticky")env.failSticky=v; else if(k=="threads")env.threads=v; else if(k=="reuse")env.reuseUser=v; else if(k=="variant")env.variant=v; } continue; }
    int k=opByName(w); if(k<0) return false;
    Op o; o.k=k; std::string x; l>>x; o.task=atoi(x.c_str()+5); l>>x; o.t=strtoll(x.c_str()+2,0,10); l>>x; o.f=(x=="F"); i64 v; while(l>>v) o.a.push_back(v);
    ops.push_back(o);
  }
  return true;
}

// ---------------------------------------------------------------- basic types
// index, byte length (what the interface documents for this platform)
enum { B_1=1 };
struct PD { int handle; int n; int len[2]; int disp[2]; int ub; };
static const PD pds[]={
 {MPI_CHAR,1,{1},{0},1},{MPI_SHORT,1,{2},{0},2},{MPI_INT,1,{4},{0},4},{MPI_LONG,1,{8},{0},8},{MPI_UNSIGNED_CHAR,1,{1},{0},1},{MPI_UNSIGNED_SHORT,1,{2},{0},2},{MPI_UNSIGNED,1,{4},{0},4},{MPI_UNSIGNED_LONG,1,{8},{0},8},
 {MPI_FLOAT,1,{4},{0},4},{MPI_DOUBLE,1,{8},{0},8},{MPI_LONG_DOUBLE,1,{16},{0},16},{MPI_BYTE,1,{1},{0},1},{MPI_PACKED,1,{1},{0},1},
 {MPI_INTEGER,1,{4},{0},4},{MPI_REAL,1,{FR},{0},FR},{MPI_DOUBLE_PRECISION,1,{FD},{0},FD},{MPI_COMPLEX,1,{2*FR},{0},2*FR},{MPI_DOUBLE_COMPLEX,1,{2*FD},{0},2*FD},{MPI_LOGICAL,1,{4},{0},4},{MPI_CHARACTER,1,{1},{0},1},
 {MPI_2REAL,2,{FR,FR},{0,FR},2*FR},{MPI_2DOUBLE_PRECISION,2,{FD,FD},{0,FD},2*FD},{MPI_2INTEGER,2,{4,4},{0,4},8},
 {MPI_FLOAT_INT,2,{4,4},{0,4},8},{MPI_DOUBLE_INT,2,{8,4},{0,8},16},{MPI_LONG_INT,2,{8,4},{0,8},16},{MPI_2INT,2,{4,4},{0,4},8},{MPI_SHORT_INT,2,{2,4},{0,4},8},{MPI_LONG_DOUBLE_INT,2,{16,4},{0,16},32},
 {MPI_INTEGER1,1,{1},{0},1},{MPI_INTEGER2,1,{2},{0},2},{MPI_INTEGER4,1,{4},{0},4},{MPI_INTEGER8,1,{8},{0},8},{MPI_INTEGER16,1,{16},{0},16},
 {MPI_REAL4,1,{4},{0},4},{MPI_REAL8,1,{8},{0},8},{MPI_REAL16,1,{16},{0},16},{MPI_COMPLEX8,1,{8},{0},8},{MPI_COMPLEX16,1,{16},{0},16},{MPI_COMPLEX32,1,{32},{0},32},
 {MPI_LONG_LONG,1,{8},{0},8},{MPI_UNSIGNED_LONG_LONG,1,{8},{0},8},{MPI_OFFSET,1,{8},{0},8},{MPI_SIGNED_CHAR,1,{1},{0},1},{MPI_WCHAR,1,{4},{0},4},
};
// the "basic type index" is 1000*pds index + element, its length is looked up there
int basicLen(int b){ return pds[b/1000].len[b%1000]; }
TypeP predefType(int h){
  static std::map<int,TypeP> cache; auto it=cache.find(h); if(it!=cache.end()) return it->second;
  for(size_t i=0;i<sizeof pds/sizeof*pds;i++) if(pds[i].handle==h){
    auto t=std::make_shared<TypeM>(); for(int k=0;k<pds[i].n;k++) t->map.push_back({pds[i].disp[k],(int)(i*1000+k)});
    t->predef=h; t->committed=true; t->finish(); t->ub=pds[i].ub; 
    i64 mx=0; for(auto&p:t->map) mx=std::max<i64>(mx,basicLen(p.second)); t->extent=(t->ub+mx-1)/mx*mx;
    return cache[h]=t; }
  return nullptr;
}
std::vector<int> allPredef(){ std::vector<int> v; for(auto&p:pds) v.push_back(p.handle); return v; }

void TypeM::finish(){
  size=0; i64 mn=0,mx=0,big=0; bool first=true;
  for(auto&p:map){ int l=basicLen(p.second); size+=l; if(l>big) big=l; if(first||p.first<mn) mn=p.first; if(first||p.first+l>mx) mx=p.first+l; first=false; }
  if(!olb) lb=first?0:mn; 
  if(!oub) ub=first?0:mx;
  if(olb||oub||first) extent=ub-lb;
  else { i64 sp=ub-lb; extent=(sp+big-1)/big*big; }
}
i64 TypeM::lo() const { i64 m=0; bool f=true; for(auto&p:map){ if(f||p.first<m) m=p.first; f=false; } return m; }
i64 TypeM::hi() const { i64 m=0; bool f=true; for(auto&p:map){ i64 e=p.first+basicLen(p.second); if(f||e>m) m=e; f=false; } return m; }

// the special markers: predef == MPI_LB / MPI_UB given as TypeM with predef set and empty map
TypeP mkStruct(const std::vector<i64>&bl,const std::vector<i64>&disp,const std::vector<TypeP>&ty){
  auto t=std::make_shared<TypeM>(); bool ol=false,ou=false; i64 nlb=0,nub=0; bool fl=true,fu=true;
  for(size_t i=0;i<ty.size();i++){
    const TypeM&o=*ty[i]; if(bl[i]==0) continue;
    if(o.predef==MPI_LB){ ol=true; if(fl||disp[i]<nlb) nlb=disp[i]; fl=false; continue; }
    if(o.predef==MPI_UB){ ou=true; if(fu||disp[i]>nub) nub=disp[i]; fu=false; continue; }
    for(i64 j=0;j<bl[i];j++){
      i64 off=disp[i]+j*o.extent;
      if(o.olb){ ol=true; if(fl||o.lb+off<nlb) nlb=o.lb+off; fl=false; }
      if(o.oub){ ou=true; if(fu||o.ub+off>nub) nub=o.ub+off; fu=false; }
      for(auto&p:o.map) t->map.push_back({p.first+off,p.second});
    }
  }
  t->olb=ol; t->oub=ou; if(ol) t->lb=nlb; if(ou) t->ub=nub;
  t->finish(); return t;
}

// ---------------------------------------------------------------- buffers
static u64 patMix(u64 seed,u64 i){ u64 x=seed*0x9e3779b97f4a7c15ull+i; return Rng::mix(x); }
static void pattern(u8*p,size_t n,u64 seed,u64 salt){ size_t i=0; u64 k=salt<<32; for(;i+8<=n;i+=8,k++){ u64 r=patMix(seed,k); memcpy(p+i,&r,8);} u64 r=patMix(seed,k); for(int b=0;i<n;i++,b++) p[i]=(u8)(r>>(8*b)); }

BufP Sim::mkBuf(TypeP t,i64 n,u64 seed,int perm,int flags){
  auto b=std::make_shared<Buf>();
  if(dry) return b;
  const i64 G=16;
  i64 lo=0,hi=0;
  if(isGiant(*t,n)) n=GIANT_BYTES/t->size+2;
  if(n>0&&!t->map.empty()){ lo=t->lo(); hi=t->hi(); i64 e=(n-1)*t->extent; if(e<0) lo+=e; else hi+=e; }
  b->lo=lo; b->hi=hi; i64 span=hi-lo;
  if(span<=(4<<20)){
    i64 mis=(flags&8)?(i64)(seed%7):0;
    u64 a=env::ualloc(span+2*G+mis+1,PERM_NONE);
    b->regions.push_back({a,(u64)(span+2*G+mis+1)});
    u64 s=a+mis; b->base=s+G-lo;
    Seg sg; sg.a=s; sg.e.resize(span+2*G); pattern(sg.e.data(),sg.e.size(),seed,1); memcpy((void*)s,sg.e.data(),sg.e.size());
    b->segs.push_back(std::move(sg));
    if(span>0){ env::perm(s+G,span,PERM_R);
      if(perm==PERM_RW) for(i64 i=0;i<n;i++) for(auto&p:t->map) env::perm(b->base+i*t->extent+p.first,basicLen(p.second),PERM_RW); }
  } else {
    std::vector<std::pair<i64,i64>> iv; for(i64 i=0;i<n;i++) for(auto&p:t->map) iv.push_back({i*t->extent+p.first,i*t->extent+p.first+basicLen(p.second)});
    std::sort(iv.begin(),iv.end());
    u64 a=env::ufar(span+2*4096); if(!a){ return nullptr; }
    b->base=a+4096-lo;
    size_t i=0; u64 salt=1;
    while(i<iv.size()){ i64 s=iv[i].first,e=iv[i].second; size_t j=i+1; while(j<iv.size()&&iv[j].first<=e+64){ e=std::max(e,iv[j].second); j++; }
      Seg sg; sg.a=b->base+s-G; sg.e.resize(e-s+2*G); pattern(sg.e.data(),sg.e.size(),seed,salt++); memcpy((void*)sg.a,sg.e.data(),sg.e.size());
      env::perm(b->base+s,e-s,PERM_R); b->regions.push_back({b->base+s,(u64)(e-s)}); b->segs.push_back(std::move(sg)); i=j; }
    if(perm==PERM_RW) for(auto&p:iv) env::perm(b->base+p.first,p.second-p.first,PERM_RW);
  }
  b->idx=live.size(); live.push_back(b); return b;
}
u8* Sim::expAt(Buf&b,u64 a) const {
  if(b.segs.size()==1) return &b.segs[0].e[a-b.segs[0].a];
  size_t l=0,h=b.segs.size(); while(h-l>1){ size_t m=(l+h)/2; if(b.segs[m].a<=a) l=m; else h=m; }
  return &b.segs[l].e[a-b.segs[l].a];
}
std::vector<u8> Sim::gather(const Buf&b,const TypeM&t,i64 n,i64 maxB) const {
  std::vector<u8> r; if(n<=0||t.map.empty()) return r;
  i64 tot=n*t.size; if(maxB>=0&&maxB<tot) tot=maxB; r.reserve(tot);
  Buf&bb=const_cast<Buf&>(b);
  for(i64 i=0;i<n;i++) for(auto&p:t.map){ if((i64)r.size()>=tot) return r; int l=basicLen(p.second); i64 take=std::min<i64>(l,tot-(i64)r.size()); u8*q=expAt(bb,b.base+i*t.extent+p.first); r.insert(r.end(),q,q+take); }
  return r;
}
void Sim::scatter(Buf&b,const TypeM&t,i64 n,const std::vector<u8>&by){
  size_t k=0; for(i64 i=0;i<n;i++) for(auto&p:t.map){ if(k>=by.size()) return; size_t l=std::min<size_t>(basicLen(p.second),by.size()-k); memcpy(expAt(b,b.base+i*t.extent+p.first),by.data()+k,l); k+=l; }
}

bool strictTypes=false;
bool sigOK(const TypeM&a,i64 an,const TypeM&b,i64 bn){
  if(&a==&b||a.map.empty()||b.map.empty()||an<=0||bn<=0) return true;
  auto raw=[](int x){ int h=pds[x/1000].handle; return (h==MPI_BYTE&&!strictTypes)||h==MPI_PACKED; };
  if(a.map.size()==1&&b.map.size()==1) return a.map[0].second==b.map[0].second||raw(a.map[0].second)||raw(b.map[0].second);
  if(raw(a.map[0].second)||raw(b.map[0].second)) return true;
  i64 n=std::min(an*(i64)a.map.size(),bn*(i64)b.map.size()); n=std::min<i64>(n,(i64)(a.map.size()*b.map.size())); n=std::min<i64>(n,20000);
  size_t i=0,j=0; for(i64 k=0;k<n;k++){ if(a.map[i].second!=b.map[j].second) return false; if(++i==a.map.size()) i=0; if(++j==b.map.size()) j=0; }
  return true;
}
bool isGiant(const TypeM&t,i64 n){ return n*(i64)t.map.size()>3000000; }
bool overlapFree(const TypeM&t,i64 n){
  if(t.map.empty()||n<=0||t.predef) return true; i64 tot=n*(i64)t.map.size();
  if(tot>4000){ // one element disjoint in itself, and elements apart
    if(t.map.size()>4000) { std::vector<std::pair<i64,i64>> v; for(auto&p:t.map) v.push_back({p.first,p.first+basicLen(p.second)}); std::sort(v.begin(),v.end()); for(size_t i=1;i<v.size();i++) if(v[i].first<v[i-1].second) return false; }
    else if(!overlapFree(t,1)) return false;
    if(n==1) return true; i64 span=t.hi()-t.lo(); i64 e=t.extent<0?-t.extent:t.extent; return e>=span; }
  std::vector<std::pair<i64,i64>> v; for(i64 i=0;i<n;i++) for(auto&p:t.map){ i64 a=p.first+i*t.extent; v.push_back({a,a+basicLen(p.second)}); }
  std::sort(v.begin(),v.end()); for(size_t i=1;i<v.size();i++) if(v[i].first<v[i-1].second) return false; return true; }
