#include "expr.hpp"
#include <tuple>
const char* opname[]={"const","var","lin","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","extract","concat","zext","sext","ite","eq","ult","slt","clamp","addw"};
std::vector<Var> g_vars; std::vector<Expr*> g_exprs;

static inline u64 hmix(u64 h,u64 v){ h^=v+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; h^=h>>32; return h; }
static std::vector<Expr*> tab(1<<16,nullptr); static size_t tabn=0;
static char* arena=nullptr; static size_t arenaLeft=0;
static void* aalloc(size_t n){ n=(n+15)&~15ull; if(n>arenaLeft){ size_t s=std::max<size_t>(n,4<<20); arena=(char*)malloc(s); if(!arena){fprintf(stderr,"out of memory\n");exit(2);} arenaLeft=s;} void*p=arena; arena+=n; arenaLeft-=n; return p; }

struct Proto { Op op; u16 w; u128 c=0; u32 a=0,b=0; i64 clo=0,chi=0; std::vector<Expr*> k; std::vector<u64> cf; };
static u64 hashP(const Proto&p){ u64 h=hmix(p.op*77+p.w,(u64)p.c); h=hmix(h,(u64)(p.c>>64)); h=hmix(h,((u64)p.a<<32)|p.b); h=hmix(h,(u64)p.clo); h=hmix(h,(u64)p.chi); for(auto*e:p.k) h=hmix(h,e->id); for(auto v:p.cf) h=hmix(h,v); return h; }
static bool eqP(const Expr*e,const Proto&p){ if(e->op!=p.op||e->w!=p.w||e->c!=p.c||e->a!=p.a||e->b!=p.b||e->clo!=p.clo||e->chi!=p.chi||e->nk!=p.k.size()) return false; for(u32 i=0;i<e->nk;i++) if(e->k[i]!=p.k[i]) return false; if(e->op==O_LIN) for(u32 i=0;i<e->nk;i++) if(e->cf[i]!=p.cf[i]) return false; return true; }
static i64 rlo(unsigned w){ return w>=64? INT64_MIN : -(1ll<<(w-1)); }
static i64 rhi(unsigned w){ return w>=64? INT64_MAX : (1ll<<(w-1))-1; }
static i64 umaxOf(Expr*e){ // unsigned max, for w<=62 or nonneg
  if(e->w<=64 && e->lo>=0) return e->hi; if(e->w<=62) return (1ll<<e->w)-1; return -1; }
static i128 linLo(const u64*cf,Expr**k,u32 n,u64 c,unsigned w,i128&hi);
static void computeRange(Expr*e){
  unsigned w=e->w; if(w>64){ e->lo=e->hi=0; return; }
  e->lo=rlo(w); e->hi=rhi(w);
  switch(e->op){
    case O_CONST: e->lo=e->hi=sx((u64)e->c,w); break;
    case O_LIN: { i128 hi,lo=linLo(e->cf,e->k,e->nk,(u64)e->c,w,hi); if(lo>=rlo(w)&&hi<=rhi(w)){e->lo=(i64)lo;e->hi=(i64)hi;} break; }
    case O_MUL: { i128 a=e->k[0]->lo,b=e->k[0]->hi,c=e->k[1]->lo,d=e->k[1]->hi; i128 p[4]={a*c,a*d,b*c,b*d}; i128 lo=p[0],hi=p[0]; for(int i=1;i<4;i++){lo=std::min(lo,p[i]);hi=std::max(hi,p[i]);} if(e->k[0]==e->k[1]) lo=std::max(lo,(i128)0)*0 + (lo<0?0:lo); if(lo>=rlo(w)&&hi<=rhi(w)){e->lo=(i64)lo;e->hi=(i64)hi;} break; }
    case O_AND: { Expr*a=e->k[0],*b=e->k[1]; if(a->lo>=0||b->lo>=0){ i64 h=INT64_MAX; if(a->lo>=0)h=std::min(h,a->hi); if(b->lo>=0)h=std::min(h,b->hi); e->lo=0;e->hi=h; } break; }
    case O_OR: case O_XOR: { Expr*a=e->k[0],*b=e->k[1]; if(a->lo>=0&&b->lo>=0){ u64 m=(u64)a->hi|(u64)b->hi; u64 r=1; while(r<=m&&r) r<<=1; e->lo=0; e->hi=(i64)(r-1); } break; }
    case O_EXTRACT: { Expr*x=e->k[0]; if(x->w<=64){ if(e->a==x->w-1){ e->lo=x->lo>>e->b; e->hi=x->hi>>e->b; } else { // low part fits?
          i64 l=x->lo>>e->b,h=x->hi>>e->b; if(l>=rlo(w)&&h<=rhi(w)){e->lo=l;e->hi=h;} } } break; }
    case O_ZEXT: { i64 m=umaxOf(e->k[0]); Expr*x=e->k[0]; if(x->w<=64&&x->lo>=0){e->lo=x->lo;e->hi=x->hi;} else if(m>=0){e->lo=0;e->hi=m;} else {e->lo=0;} break; }
    case O_SEXT: e->lo=e->k[0]->lo; e->hi=e->k[0]->hi; break;
    case O_ITE: e->lo=std::min(e->k[1]->lo,e->k[2]->lo); e->hi=std::max(e->k[1]->hi,e->k[2]->hi); break;
    case O_CLAMP: { i64 l=e->k[0]->lo,h=e->k[0]->hi; auto cl=[&](i64 v){return v<e->clo?e->clo:v>e->chi?e->chi:v;}; e->lo=cl(l); e->hi=cl(h); break; }
    case O_UDIV: case O_UREM: { Expr*a=e->k[0],*b=e->k[1]; if(a->lo>=0&&b->lo>0){ e->lo=0; e->hi= e->op==O_UDIV? a->hi/b->lo : std::min(a->hi,b->hi-1);} break; }
    case O_LSHR: { Expr*a=e->k[0]; if(a->lo>=0){e->lo=0;e->hi=a->hi;} break; }
    case O_ASHR: { Expr*a=e->k[0]; e->lo=std::min<i64>(a->lo,0); e->hi=std::max<i64>(a->hi,-1); break; }
    case O_CONCAT: { // leading zero constant handled through zext; otherwise full
      break; }
    default: break;
  }
}
static Expr* intern(const Proto&p){
  u64 h=hashP(p); size_t m=tab.size()-1,i=h&m;
  while(tab[i]){ if(tab[i]->hash==h&&eqP(tab[i],p)) return tab[i]; i=(i+1)&m; }
  Expr*e=(Expr*)aalloc(sizeof(Expr)); memset((void*)e,0,sizeof(Expr));
  e->op=p.op;e->w=p.w;e->c=p.c;e->a=p.a;e->b=p.b;e->clo=p.clo;e->chi=p.chi;e->nk=p.k.size();e->hash=h;
  e->id=g_exprs.size(); g_exprs.push_back(e);
  if(e->nk){ e->k=(Expr**)aalloc(sizeof(Expr*)*e->nk); memcpy(e->k,p.k.data(),sizeof(Expr*)*e->nk); }
  if(p.cf.size()){ e->cf=(u64*)aalloc(8*p.cf.size()); memcpy(e->cf,p.cf.data(),8*p.cf.size()); }
  u64 ts=1; for(u32 j=0;j<e->nk;j++) ts+=e->k[j]->treesize; e->treesize=ts>1000000?1000000:ts;
  if(e->op==O_CONST){ e->constleaf=true; e->treesize=1; }
  else if(e->op==O_ITE&&e->w>1) { e->constleaf=e->k[1]->constleaf&&e->k[2]->constleaf; u64 t=(u64)1+e->k[1]->treesize+e->k[2]->treesize; if(e->constleaf){ e->treesize=t>1000000?1000000:t; if(t>4200) e->constleaf=false; } }
  computeRange(e);
  if((++tabn)*2>tab.size()){ std::vector<Expr*> nt(tab.size()*2,nullptr); size_t mm=nt.size()-1; for(auto*x:tab) if(x){ size_t j=x->hash&mm; while(nt[j]) j=(j+1)&mm; nt[j]=x; } size_t j=h&mm; while(nt[j]) j=(j+1)&mm; nt[j]=e; tab.swap(nt); }
  else tab[i]=e;
  return e;
}
Expr* mkConst(u128 v,unsigned w){ Proto p; p.op=O_CONST;p.w=w;p.c=v&maskw(w); return intern(p); }
Expr* mkVar(const std::string&name,u32 idx,unsigned w){ Proto p;p.op=O_VAR;p.w=w;p.a=g_vars.size(); Expr*e=intern(p); g_vars.push_back({name,idx,w,e}); return e; }
static Expr* mk2(Op op,unsigned w,Expr*a,Expr*b){ Proto p;p.op=op;p.w=w;p.k={a,b}; return intern(p); }

static i128 linLo(const u64*cf,Expr**k,u32 n,u64 c,unsigned w,i128&hi){
  i128 lo=sx(c,w); hi=lo;
  for(u32 i=0;i<n;i++){ i128 f=sx(cf[i],w); i128 a=f*(i128)k[i]->lo,b=f*(i128)k[i]->hi; if(a>b)std::swap(a,b); lo+=a; hi+=b;
    // guard against astronomically large values
    const i128 L=((i128)1)<<120; if(lo<-L)lo=-L; if(hi>L)hi=L; }
  return lo;
}
static unsigned bitsFor(i128 lo,i128 hi){ unsigned n=1; while(!(lo>=-(((i128)1)<<(n-1)) && hi<=((((i128)1)<<(n-1))-1))) n++; return n; }

// ---- linear forms -------------------------------------------------
struct Lin { std::vector<std::pair<Expr*,u64>> t; u64 c=0; };
static bool nowrap(Expr*e){ // LIN whose range computation did not wrap
  i128 hi,lo=linLo(e->cf,e->k,e->nk,(u64)e->c,e->w,hi); return lo>=rlo(e->w)&&hi<=rhi(e->w); }
// LIN whose integer value lies in [0,2^w): the constant to use (unsigned view)
static bool unowrap(Expr*e,i64&c){ if(e->w>60) return false; i128 hi,lo=linLo(e->cf,e->k,e->nk,(u64)e->c,e->w,hi); c=sx((u64)e->c,e->w); if(lo<0){ lo+=(i128)1<<e->w; hi+=(i128)1<<e->w; c+=(i64)1<<e->w; } return lo>=0&&hi<=(i128)mask64(e->w); }
static Expr* resizeS(Expr*e,unsigned w){ return e->w==w?e: e->w<w? mkSext(e,w):mkTrunc(e,w); }
static void linAdd(Lin&L,Expr*e,u64 f,unsigned w){
  f&=mask64(w); if(!f) return;
  switch(e->op){
    case O_CONST: L.c=(L.c+(u64)e->c*f)&mask64(w); return;
    case O_LIN: for(u32 i=0;i<e->nk;i++) linAdd(L,e->k[i],e->cf[i]*f,w); L.c=(L.c+(u64)e->c*f)&mask64(w); return;
    case O_SEXT: case O_ZEXT: { Expr*x=e->k[0]; if(x->op==O_LIN&&nowrap(x)&&(e->op==O_SEXT||x->lo>=0)){ for(u32 i=0;i<x->nk;i++) linAdd(L,resizeS(x->k[i],w),(u64)sx(x->cf[i],x->w)*f,w); L.c=(L.c+(u64)sx((u64)x->c,x->w)*f)&mask64(w); return; }
      i64 uc; if(e->op==O_ZEXT&&x->op==O_LIN&&unowrap(x,uc)){ for(u32 i=0;i<x->nk;i++) linAdd(L,resizeS(x->k[i],w),(u64)sx(x->cf[i],x->w)*f,w); L.c=(L.c+(u64)uc*f)&mask64(w); return; }
      if(e->op==O_ZEXT&&x->op==O_CONCAT&&x->k[x->nk-1]->isc()&&w<=64){ Expr*l=x->k[x->nk-1]; L.c=(L.c+(u64)l->c*f)&mask64(w); linAdd(L,mkZext(mkExtract(x,x->w-1,l->w),w),f<<l->w,w); return; } break; }
    case O_CONCAT: { Expr*l=e->k[e->nk-1]; if(l->isc()&&e->w<=64){ unsigned z=l->w; Expr*top=mkExtract(e,e->w-1,z); L.c=(L.c+(u64)l->c*f)&mask64(w); // 2^z * top ; bits above lost anyway
          Expr*x=nullptr; if(top->op==O_EXTRACT&&top->b==0&&top->k[0]->w>=w) x=mkTrunc(top->k[0],w); else if(top->op==O_SEXT) x=mkSext(top->k[0],w); else if((top->op==O_LIN||top->op==O_CLAMP||top->op==O_MUL)&&top->lo<0) x=mkSext(top,w); else x=mkZext(top,w);
          linAdd(L,x,f<<z,w); return; } break; }
    case O_XOR: // ~x = -x-1
      if(e->k[1]->isc()&&e->k[1]->c==maskw(w)&&w>1){ linAdd(L,e->k[0],0-f,w); L.c=(L.c-f)&mask64(w); return; } break;
    default: break;
  }
  L.t.push_back({e,f});
}
// Affine view of a constant-leaf tree: sum of coef*zext(cond) + const, when the tree is affine in its conditions.
struct Aff { bool ok; std::vector<std::pair<Expr*,u64>> t; u64 c; };
static std::unordered_map<Expr*,Aff> affMemo;
static const Aff& affine(Expr*e){ auto it=affMemo.find(e); if(it!=affMemo.end()) return it->second; Aff r; r.ok=false; r.c=0;
  if(e->isc()){ r.ok=true; r.c=(u64)e->c; }
  else if(e->op==O_ITE&&e->constleaf&&e->treesize<=2100){ Aff a=affine(e->k[1]); Aff b; if(a.ok) b=affine(e->k[2]); if(a.ok&&b.ok&&a.t==b.t){ r=b; u64 d=(a.c-b.c)&mask64(e->w); if(d){ Expr*c=e->k[0]; r.t.insert(std::lower_bound(r.t.begin(),r.t.end(),std::make_pair(c,(u64)0),[](auto&x,auto&y){return x.first->id<y.first->id;}),{c,d}); } } }
  return affMemo[e]=r; }
// slice of a variable: atom == [zext|sext] extract(var,h,l)
static bool sliceOf(Expr*e,Expr*&v,unsigned&h,unsigned&l,bool&sg){ sg=false; if(e->op==O_ZEXT) e=e->k[0]; else if(e->op==O_SEXT){ e=e->k[0]; sg=true; } if(e->op==O_VAR){ v=e;h=e->w-1;l=0; return true; } if(e->op==O_EXTRACT&&e->k[0]->op==O_VAR){ v=e->k[0];h=e->a;l=e->b; return true; } return false; }
static void canonSlices(Lin&L,unsigned w){
  std::unordered_map<Expr*,int> cnt; bool need=false; Expr*v; unsigned h,l; bool sg;
  for(auto&t:L.t) if(sliceOf(t.first,v,h,l,sg)){ if(++cnt[v]>1||sg) need=true; }
  if(!need) return;
  std::vector<std::pair<Expr*,u64>> out; std::unordered_map<Expr*,std::vector<u64>> bits; std::vector<Expr*> order;
  for(auto&t:L.t){ if(sliceOf(t.first,v,h,l,sg)&&v->w<=64){ auto&b=bits[v]; if(b.empty()){ b.assign(v->w,0); order.push_back(v); } for(unsigned i=l;i<=h;i++){ u64 f= i-l>=64?0: t.second<<(i-l); if(sg&&i==h) f=0-f; b[i]=(b[i]+f)&mask64(w); } } else out.push_back(t); }
  for(auto*x:order){ auto&b=bits[x]; for(unsigned i=0;i<b.size();){ if(!b[i]){i++;continue;} unsigned j=i; while(j+1<b.size()&&b[j+1]&&j+1-i<w&&b[j+1]==((b[j]<<1)&mask64(w))) j++; Expr*s=mkExtract(x,j,i); out.push_back({s->w>w?mkTrunc(s,w):mkZext(s,w),b[i]}); i=j+1; } }
  L.t.swap(out);
}
// Variable bits a term depends on (at most six, otherwise n==7), ordered by variable, high bits first.
struct BitSup { u8 n; u64 b[6]; };
static std::vector<BitSup*> bitSupMemo;
static inline u64 bsKey(Expr*v,unsigned bit){ return ((u64)v->a<<8)|(255-bit); }
static const BitSup& bitSup(Expr*e){
  if(bitSupMemo.size()<=e->id) bitSupMemo.resize(std::max<size_t>(e->id+1,bitSupMemo.size()*2),nullptr);
  if(bitSupMemo[e->id]) return *bitSupMemo[e->id];
  BitSup r; r.n=0; auto addb=[&](u64 k){ if(r.n==7) return; unsigned i=0; while(i<r.n&&r.b[i]<k) i++; if(i<r.n&&r.b[i]==k) return; if(r.n==6){ r.n=7; return; } for(unsigned j=r.n;j>i;j--) r.b[j]=r.b[j-1]; r.b[i]=k; r.n++; };
  if(e->w>128) r.n=7;
  else if(e->op==O_VAR){ if(e->w>6) r.n=7; else for(unsigned i=0;i<e->w;i++) addb(bsKey(e,i)); }
  else if(e->op==O_EXTRACT&&e->k[0]->op==O_VAR){ if(e->a-e->b>5) r.n=7; else for(unsigned i=e->b;i<=e->a;i++) addb(bsKey(e->k[0],i)); }
  else for(u32 i=0;i<e->nk&&r.n<7;i++){ const BitSup k=bitSup(e->k[i]); if(k.n==7) r.n=7; else for(unsigned j=0;j<k.n;j++) addb(k.b[j]); }
  BitSup*q=new BitSup(r); if(bitSupMemo.size()<=e->id) bitSupMemo.resize(e->id+1,nullptr); bitSupMemo[e->id]=q; return *q; }
static Expr* treeOf(const BitSup B0,const std::function<u128(const std::vector<u128>&,u64)>&f,unsigned w){
  const BitSup B=B0; static std::vector<u128> A; if(A.size()<g_vars.size()) A.resize(g_vars.size(),0);
  std::vector<Expr*> leaf(1u<<B.n);
  for(u64 m=0;m<(1u<<B.n);m++){ for(unsigned i=0;i<B.n;i++) A[B.b[i]>>8]=0; for(unsigned i=0;i<B.n;i++) if((m>>(B.n-1-i))&1) A[B.b[i]>>8]|=(u128)1<<(255-(B.b[i]&255)); leaf[m]=mkConst(f(A,newEpoch()),w); }
  for(unsigned i=0;i<B.n;i++) A[B.b[i]>>8]=0;
  for(unsigned i=B.n;i-->0;){ Expr*v=g_vars[B.b[i]>>8].e; unsigned bit=255-(B.b[i]&255); Expr*c=mkExtract(v,bit,bit); std::vector<Expr*> nx(1u<<i); for(u64 m=0;m<(1u<<i);m++) nx[m]=mkIte(c,leaf[2*m+1],leaf[2*m]); leaf.swap(nx); }
  return leaf[0]; }
// Terms of a sum that are trees over the same few variable bits are added up into one tree whose first leaf is zero.
static bool mergeTrees(Lin&L,unsigned w){
  std::vector<int> tr; for(size_t i=0;i<L.t.size();i++) if(L.t[i].first->op==O_ITE&&L.t[i].first->constleaf&&bitSup(L.t[i].first).n<=6) tr.push_back(i);
  if(tr.empty()) return false;
  std::vector<char> used(L.t.size(),0); Lin M; M.c=L.c; bool ch=false;
  for(int i:tr){ if(used[i]) continue; BitSup B=bitSup(L.t[i].first); std::vector<int> g{i}; used[i]=1; bool more=true;
    while(more){ more=false; for(size_t j=0;j<L.t.size();j++) if(!used[j]){ const BitSup&K=bitSup(L.t[j].first); if(K.n==7) continue; bool ov=false; for(unsigned x=0;x<K.n;x++) for(unsigned y=0;y<B.n;y++) if(K.b[x]==B.b[y]) ov=true; if(!ov) continue;
        u64 u[12]; unsigned n=0; for(unsigned x=0;x<B.n;x++) u[n++]=B.b[x]; for(unsigned x=0;x<K.n;x++){ bool d=false; for(unsigned y=0;y<B.n;y++) if(K.b[x]==B.b[y]) d=true; if(!d) u[n++]=K.b[x]; } if(n>6) continue; std::sort(u,u+n); B.n=n; for(unsigned x=0;x<n;x++) B.b[x]=u[x]; g.push_back(j); used[j]=1; more=true; } }
    u64 base=0; { static std::vector<u128> Z; if(Z.size()<g_vars.size()) Z.resize(g_vars.size(),0); u64 ep=newEpoch(); for(int j:g) base+=L.t[j].second*(u64)evalExpr(L.t[j].first,Z,ep); base&=mask64(w); }
    if(g.size()==1&&L.t[i].second==1&&base==0){ M.t.push_back(L.t[i]); continue; }
    ch=true; M.c=(M.c+base)&mask64(w);
    Expr*t=treeOf(B,[&](const std::vector<u128>&A,u64 ep){ u64 x=0; for(int j:g) x+=L.t[j].second*(u64)evalExpr(L.t[j].first,A,ep); return (u128)((x-base)&mask64(w)); },w);
    if(t->isc()){ M.c=(M.c+(u64)t->c)&mask64(w); continue; }
    if(t->op==O_ITE&&t->constleaf){ const Aff z=affine(t); if(z.ok){ for(auto&x:z.t) M.t.push_back({mkZext(x.first,w),x.second&mask64(w)}); M.c=(M.c+z.c)&mask64(w); continue; } }
    M.t.push_back({t,1}); }
  if(!ch) return false; for(size_t j=0;j<L.t.size();j++) if(!used[j]) M.t.push_back(L.t[j]); L=M; return true; }
static Expr* finishLin(Lin&L,unsigned w){
  if(L.t.size()>1){ bool any=false; for(auto&t:L.t) if(t.first->op==O_ITE&&t.first->constleaf&&affine(t.first).ok) any=true;
    if(any){ Lin M; M.c=L.c; bool same=true; for(auto&t:L.t) if(t.first!=L.t[0].first) same=false;
      if(!same){ for(auto&t:L.t){ if(t.first->op==O_ITE&&t.first->constleaf){ const Aff a=affine(t.first); if(a.ok){ for(auto&x:a.t) M.t.push_back({mkZext(x.first,w),(x.second*t.second)&mask64(w)}); M.c=(M.c+a.c*t.second)&mask64(w); continue; } } M.t.push_back(t); } L=M; } }
    canonSlices(L,w); if(L.t.size()>1&&mergeTrees(L,w)&&L.t.size()>1) canonSlices(L,w); }
  std::sort(L.t.begin(),L.t.end(),[](auto&a,auto&b){return a.first->id<b.first->id;});
  Proto p; p.op=O_LIN;p.w=w;
  for(size_t i=0;i<L.t.size();){ u64 f=0; size_t j=i; while(j<L.t.size()&&L.t[j].first==L.t[i].first) f+=L.t[j++].second; f&=mask64(w); if(f){p.k.push_back(L.t[i].first);p.cf.push_back(f);} i=j; }
  if(p.k.empty()) return mkConst(L.c,w);
  if(p.k.size()==1&&p.cf[0]==1&&L.c==0) return p.k[0];
  if(p.k.size()==1&&p.k[0]->constleaf&&p.k[0]->op==O_ITE){ // push into constant tree
    Expr*x=p.k[0]; u64 f=p.cf[0],c=L.c; std::unordered_map<Expr*,Expr*> memo; std::function<Expr*(Expr*)> go=[&](Expr*y)->Expr*{ if(y->isc()) return mkConst((u64)y->c*f+c,w); auto it=memo.find(y); if(it!=memo.end()) return it->second; return memo[y]=mkIte(y->k[0],go(y->k[1]),go(y->k[2])); }; return go(x); }
  p.c=L.c&mask64(w);
  i128 hi,lo=linLo(p.cf.data(),p.k.data(),p.k.size(),(u64)p.c,w,hi);
  if(lo>=rlo(w)&&hi<=rhi(w)){ unsigned n=bitsFor(lo,hi); for(auto f:p.cf) n=std::max(n,bitsFor(sx(f,w),sx(f,w))); n=std::max(n,bitsFor(sx((u64)p.c,w),sx((u64)p.c,w))); for(auto*a:p.k) n=std::max(n,bitsFor(a->lo,a->hi)); bool ok=n<w;
    if(ok){ Lin M; for(size_t i=0;i<p.k.size();i++) linAdd(M,mkTrunc(p.k[i],n),(u64)sx(p.cf[i],w),n); M.c=(M.c+(u64)sx(p.c,w))&mask64(n);
      // build the narrow form directly (terms are already canonical atoms)
      std::sort(M.t.begin(),M.t.end(),[](auto&a,auto&b){return a.first->id<b.first->id;});
      Proto q;q.op=O_LIN;q.w=n;q.c=M.c; for(size_t i=0;i<M.t.size();){ u64 f=0; size_t j=i; while(j<M.t.size()&&M.t[j].first==M.t[i].first) f+=M.t[j++].second; f&=mask64(n); if(f){q.k.push_back(M.t[i].first);q.cf.push_back(f);} i=j; }
      Expr*x; if(q.k.empty()) x=mkConst(q.c,n); else if(q.k.size()==1&&q.cf[0]==1&&q.c==0) x=q.k[0]; else x=intern(q);
      return lo>=0? mkZext(x,w):mkSext(x,w); } }
  return intern(p);
}
Expr* mkAdd(Expr*a,Expr*b){ unsigned w=a->w; if(a->isc()&&b->isc()) return mkConst(a->c+b->c,w); if(w==1) return mkBin(O_XOR,a,b);
  if(w>64){ if(a->isc()&&a->c==0) return b; if(b->isc()&&b->c==0) return a; return mk2(O_ADDW,w,a,b);} Lin L; linAdd(L,a,1,w); linAdd(L,b,1,w); return finishLin(L,w); }
Expr* mkSub(Expr*a,Expr*b){ unsigned w=a->w; if(a->isc()&&b->isc()) return mkConst(a->c-b->c,w); if(w==1) return mkBin(O_XOR,a,b); if(w>64){ if(b->isc()) return mkAdd(a,mkConst((u128)0-b->c,w)); return mkAdd(a,mkAdd(mkBin(O_XOR,b,mkConst(maskw(w),w)),mkConst(1,w))); } Lin L; linAdd(L,a,1,w); linAdd(L,b,~0ull,w); return finishLin(L,w); }
Expr* mkNeg(Expr*a){ return mkSub(mkConst(0,a->w),a); }
Expr* mkMulC(Expr*a,u64 f){ unsigned w=a->w; if(a->isc()) return mkConst(a->c*f,w); if(w==1) return (f&1)?a:mkConst(0,1); Lin L; linAdd(L,a,f,w); return finishLin(L,w); }
Expr* mkMul(Expr*a,Expr*b){ unsigned w=a->w; if(a->isc()&&b->isc()) return mkConst(a->c*b->c,w);
  if(w==1) return mkBin(O_AND,a,b);
  if(a->isc()&&w<=64) return mkMulC(b,(u64)a->c); if(b->isc()&&w<=64) return mkMulC(a,(u64)b->c);
  if(w>64){ if(a->id>b->id)std::swap(a,b); return mk2(O_MUL,w,a,b); }
  // pull constant factors out
  auto aff=[&](Expr*x)->Expr*{ if(x->op==O_ITE&&x->constleaf){ const Aff z=affine(x); if(z.ok&&z.t.size()>1){ Lin L; for(auto&q:z.t) L.t.push_back({mkZext(q.first,w),q.second&mask64(w)}); L.c=z.c&mask64(w); return finishLin(L,w); } } return x; }; a=aff(a); b=aff(b);
  u64 f=1; auto pull=[&](Expr*x)->Expr*{ Lin L; linAdd(L,x,1,w); if(L.t.size()==1&&L.c==0&&L.t[0].second!=1){ f*=L.t[0].second; return L.t[0].first;} return x; };
  a=pull(a); b=pull(b); f&=mask64(w);
  if(f!=1) return mkMulC(mkMul(a,b),f);
  if(a->id>b->id)std::swap(a,b);
  i128 P[4]={(i128)a->lo*b->lo,(i128)a->lo*b->hi,(i128)a->hi*b->lo,(i128)a->hi*b->hi}; i128 lo=P[0],hi=P[0]; for(int i=1;i<4;i++){lo=std::min(lo,P[i]);hi=std::max(hi,P[i]);}
  if(lo>=rlo(w)&&hi<=rhi(w)){ i128 l2=std::min(lo,(i128)std::min(a->lo,b->lo)),h2=std::max(hi,(i128)std::max(a->hi,b->hi)); unsigned n=bitsFor(l2,h2); if(n<w){ Expr*x=mkTrunc(a,n),*y=mkTrunc(b,n); if(x->id>y->id)std::swap(x,y); Expr*m=mk2(O_MUL,n,x,y); return lo>=0?mkZext(m,w):mkSext(m,w);} }
  return mk2(O_MUL,w,a,b); }

// ---- structure ------------------------------------------------------
static Expr* mapConstLeaf(Expr*x,const std::function<Expr*(Expr*)>&f){ std::unordered_map<Expr*,Expr*> memo; std::function<Expr*(Expr*)> go=[&](Expr*y)->Expr*{ if(y->isc()) return f(y); auto it=memo.find(y); if(it!=memo.end()) return it->second; return memo[y]=mkIte(y->k[0],go(y->k[1]),go(y->k[2])); }; return go(x); }
static inline bool isCL(Expr*x){ return x->op==O_ITE&&x->constleaf; }

// A shifted, clamped or compared term over at most six variable bits becomes a decision tree over these bits
// (variables in order, high bits first): the shape that table lookups produce.
static Expr* tabulate(Expr*e,const std::function<u128(u64)>&f,unsigned w){
  if(e->w>64||e->isc()||e->op==O_VAR||(e->op==O_EXTRACT&&e->k[0]->op==O_VAR)||(e->op==O_ITE&&e->constleaf)) return nullptr;
  const BitSup&B=bitSup(e); if(B.n>6||B.n==0) return nullptr;
  return treeOf(B,[&](const std::vector<u128>&A,u64 ep){ return f((u64)evalExpr(e,A,ep)); },w); }
Expr* mkTrunc(Expr*e,unsigned w){ if(e->w==w) return e; return mkExtract(e,w-1,0); }
Expr* mkExtract(Expr*e,unsigned hi,unsigned lo){
  unsigned w=hi-lo+1; if(w==e->w) return e;
  switch(e->op){
    case O_CONST: return mkConst(e->c>>lo,w);
    case O_EXTRACT: return mkExtract(e->k[0],hi+e->b,lo+e->b);
    case O_CONCAT: { std::vector<Expr*> r; unsigned pos=e->w; for(u32 i=0;i<e->nk;i++){ Expr*x=e->k[i]; unsigned top=pos-1,bot=pos-x->w; pos=bot; if(bot>hi||top<lo) continue; unsigned h=std::min(top,hi)-bot,l=(lo>bot?lo:bot)-bot; r.push_back(mkExtract(x,h,l)); } return mkConcat(r); }
    case O_ZEXT: { Expr*x=e->k[0]; if(lo>=x->w) return mkConst(0,w); if(hi<x->w) return mkExtract(x,hi,lo); return mkZext(mkExtract(x,x->w-1,lo),w); }
    case O_SEXT: { Expr*x=e->k[0]; if(hi<x->w) return mkExtract(x,hi,lo); if(lo>=x->w) return mkSext(mkExtract(x,x->w-1,x->w-1),w); return mkSext(mkExtract(x,x->w-1,lo),w); }
    case O_ITE: if(isCL(e)) return mapConstLeaf(e,[&](Expr*c){return mkConst(c->c>>lo,w);});
      if(e->k[1]->isc()||e->k[2]->isc()) return mkIte(e->k[0],mkExtract(e->k[1],hi,lo),mkExtract(e->k[2],hi,lo)); break;
    case O_AND: case O_OR: case O_XOR: return mkBin(e->op,mkExtract(e->k[0],hi,lo),mkExtract(e->k[1],hi,lo));
    case O_LIN:
      if(lo==0){ Lin L; for(u32 i=0;i<e->nk;i++) linAdd(L,mkTrunc(e->k[i],w),e->cf[i],w); L.c=(L.c+(u64)e->c)&mask64(w); if(w==1){ // parity
            Expr*r=mkConst(L.c&1,1); for(auto&t:L.t) if(t.second&1) r=mkBin(O_XOR,r,t.first); return r; }
          return finishLin(L,w); }
      else { unsigned j=64; for(u32 i=0;i<e->nk;i++) j=std::min<unsigned>(j,__builtin_ctzll(e->cf[i])); j=std::min(j,lo); if(j>0){
          if(nowrap(e)||true){ // value = 2^j*L' + c (mod 2^w): bits >=j equal bits of L'+(c>>j) in w-j bits
            unsigned nw=e->w-j; Lin L; for(u32 i=0;i<e->nk;i++) linAdd(L,mkTrunc(e->k[i],nw),e->cf[i]>>j,nw);
            bool nwp=nowrap(e); i64 cc= nwp? (sx((u64)e->c,e->w)>>j) : (i64)(((u64)e->c&mask64(e->w))>>j);
            L.c=(L.c+(u64)cc)&mask64(nw);
            // coefficient sign handling: cf>>j must be arithmetic mod 2^nw -- cf[i]>>j of the unsigned residue is right mod 2^(w-j)
            Expr*x=finishLin(L,nw); return mkExtract(x,hi-j,lo-j); } } }
      break;
    case O_MUL: if(lo==0&&e->w<=64) return mkMul(mkTrunc(e->k[0],w),mkTrunc(e->k[1],w)); break;
    case O_ADDW: if(lo==0) return mkAdd(mkTrunc(e->k[0],w),mkTrunc(e->k[1],w)); break;
    default: break;
  }
  if(lo>0&&w>1){ if(Expr*t=tabulate(e,[&](u64 x){return (u128)(x>>lo);},w)) return t; }
  if(e->w<=64&&(e->op==O_LIN||e->op==O_MUL||e->op==O_CLAMP)){ i64 l=e->lo>>lo,h=e->hi>>lo; if(l>=0){ unsigned n=std::max(1u,bitsFor(l,h)-1); if(n<w) return mkZext(mkExtract(e,lo+n-1,lo),w); } else { unsigned n=bitsFor(l,h); if(n<w) return mkSext(mkExtract(e,lo+n-1,lo),w); } }
  Proto p;p.op=O_EXTRACT;p.w=w;p.a=hi;p.b=lo;p.k={e}; return intern(p);
}
Expr* mkConcat2(Expr*h,Expr*l){ return mkConcat({h,l}); }
Expr* mkConcat(const std::vector<Expr*>&in){
  std::vector<Expr*> v; unsigned W=0;
  std::function<void(Expr*)> push=[&](Expr*x){
    if(x->op==O_CONCAT){ for(u32 i=0;i<x->nk;i++) push(x->k[i]); return; }
    if(x->op==O_ZEXT){ push(mkConst(0,x->w-x->k[0]->w)); push(x->k[0]); return; }
    if(!v.empty()){ Expr*y=v.back();
      if(x->isc()&&y->isc()){ v.back()=mkConst((y->c<<x->w)|x->c,x->w+y->w); return; }
      // adjacent extracts of the same expression
      Expr*xb=x,*yb=y; unsigned xh=x->w-1,xl=0,yh=y->w-1,yl=0; (void)xh;
      if(x->op==O_EXTRACT){xb=x->k[0];xh=x->a;xl=x->b;} if(y->op==O_EXTRACT){yb=y->k[0];yh=y->a;yl=y->b;}
      if(xb==yb&&yl==xh+1&&(x->op==O_EXTRACT||y->op==O_EXTRACT)&&yh!=xh){ v.back()=mkExtract(xb,yh,xl); Expr*z=v.back(); v.pop_back(); push(z); return; }
      // low part pushed below an extract: y=extract(B), x simplified form of extract(B,yl-1,..)?
      if(y->op==O_EXTRACT&&yl>0&&yl>=x->w){ Expr*c=mkExtract(yb,yl-1,yl-x->w); if(c==x){ Expr*z=mkExtract(yb,yh,yl-x->w); v.pop_back(); push(z); return; } }
      if(x->op==O_EXTRACT&&xh+1<xb->w&&xh+y->w<xb->w){ Expr*c=mkExtract(xb,xh+y->w,xh+1); if(c==y){ Expr*z=mkExtract(xb,xh+y->w,xl); v.pop_back(); push(z); return; } }
      if(y->op==O_SEXT&&y->k[0]->op==O_EXTRACT){ Expr*q=y->k[0],*qb=q->k[0]; unsigned ql=q->b,qh=q->a; if(ql>=x->w&&mkExtract(qb,ql-1,ql-x->w)==x){ Expr*z=mkSext(mkExtract(qb,qh,ql-x->w),x->w+y->w); v.pop_back(); push(z); return; } }
      // the low part lost a common power of two: y=bits of B, x=low bits of 2^j*B+c
      if(x->op==O_LIN&&x->w<=32){ Expr*q=y->op==O_SEXT?y->k[0]:y; if(q->op==O_EXTRACT&&q->k[0]->w<=48){ unsigned j=63; for(u32 i=0;i<x->nk;i++) j=std::min<unsigned>(j,__builtin_ctzll(x->cf[i])); Expr*qb=q->k[0]; unsigned ql=q->b,qh=q->a;
          if(j>0&&j<x->w&&ql+j==x->w){ unsigned W=qb->w+j; Expr*E=mkAdd(mkMulC(qb->lo<0?mkSext(qb,W):mkZext(qb,W),1ull<<j),mkConst((u64)x->c&((1ull<<j)-1),W)); if(mkTrunc(E,x->w)==x){ Expr*z=mkExtract(E,qh+j,0); if(y->op==O_SEXT) z=mkSext(z,x->w+y->w); v.pop_back(); push(z); return; } } } }
      // sign bits above a value: sign extension
      { Expr*yc=y->op==O_SEXT?y->k[0]:y; if(yc->w==1&&!yc->isc()){ Expr*core=x->op==O_SEXT?x->k[0]:x; if(mkExtract(core,core->w-1,core->w-1)==yc){ Expr*z=mkSext(core,x->w+y->w); v.pop_back(); push(z); return; } } }
      // constant-leaf trees with identical conditions (byte-split table values)
      if(isCL(x)&&isCL(y)&&x->k[0]==y->k[0]){ std::function<Expr*(Expr*,Expr*)> zip=[&](Expr*a,Expr*b)->Expr*{ if(a->isc()&&b->isc()) return mkConst((a->c<<b->w)|b->c,a->w+b->w);
            if(a->op==O_ITE&&b->op==O_ITE&&a->k[0]==b->k[0]){ Expr*p=zip(a->k[1],b->k[1]); if(!p) return nullptr; Expr*q=zip(a->k[2],b->k[2]); return q?mkIte(a->k[0],p,q):nullptr; }
            if(a->isc()&&b->op==O_ITE){ Expr*p=zip(a,b->k[1]); if(!p) return nullptr; Expr*q=zip(a,b->k[2]); return q?mkIte(b->k[0],p,q):nullptr; }
            if(b->isc()&&a->op==O_ITE){ Expr*p=zip(a->k[1],b); if(!p) return nullptr; Expr*q=zip(a->k[2],b); return q?mkIte(a->k[0],p,q):nullptr; }
            return nullptr; }; Expr*z=zip(y,x); if(z){ v.back()=z; return; } }
      if((isCL(x)&&y->isc())||(isCL(y)&&x->isc())){ Expr*z= isCL(x)? mapConstLeaf(x,[&](Expr*c){return mkConst((y->c<<x->w)|c->c,x->w+y->w);}) : mapConstLeaf(y,[&](Expr*c){return mkConst((c->c<<x->w)|x->c,x->w+y->w);}); if(in.size()==2&&z->w==in[0]->w+in[1]->w){ v.back()=z; return; } }
    }
    v.push_back(x);
  };
  for(auto*x:in){ W+=x->w; push(x); }
  if(W>128){ fprintf(stderr,"zsym: concat wider than 128 bits\n"); exit(2); }
  if(v.size()==1) return v[0];
  if(v[0]->isc()&&v[0]->c==0){ std::vector<Expr*> r(v.begin()+1,v.end()); return mkZext(mkConcat(r),W); }
  // sign replication: concat(sext-like) not recognised
  Proto p;p.op=O_CONCAT;p.w=W;p.k=v; return intern(p);
}
// a truncated shifted clamp, trunc(clamp + c), whose value fits: the value itself at width w (u: unsigned view)
static Expr* undistribute(Expr*e,unsigned w,bool u){
  if(e->op!=O_LIN||e->nk!=1||e->cf[0]!=1||e->w>58||w>62) return nullptr; Expr*x=e->k[0]; if(x->op!=O_EXTRACT||x->b!=0) return nullptr; Expr*q=x->k[0]; if(q->op!=O_CLAMP) return nullptr;
  i64 c=sx((u64)e->c,e->w),lo=u?0:rlo(e->w),hi=u?(i64)mask64(e->w):rhi(e->w);
  for(i64 t:{c,(i64)(c-(1ll<<e->w)),(i64)(c+(1ll<<e->w))}) if(q->lo+t>=lo&&q->hi+t<=hi){ unsigned W=std::max<unsigned>(w,q->w)+1; return mkTrunc(mkAdd(mkSext(q,W),mkConst((u128)(i128)t,W)),w); }
  return nullptr;
}
Expr* mkZext(Expr*e,unsigned w){
  if(e->w==w) return e; if(e->isc()) return mkConst(e->c,w);
  if(Expr*r=undistribute(e,w,true)) return r;
  if(e->op==O_ZEXT) return mkZext(e->k[0],w);
  if(isCL(e)) return mapConstLeaf(e,[&](Expr*c){return mkConst(c->c,w);});
  if(e->op==O_EXTRACT&&e->b==0){ Expr*x=e->k[0]; if(x->w<=64&&x->lo>=0&&(e->w>=64||x->hi<=(i64)mask64(e->w))) return x->w==w?x: x->w<w? mkZext(x,w):mkTrunc(x,w); }
  if(e->op==O_SEXT&&e->lo>=0&&e->w<=64) return mkZext(e->k[0],w);
  // low part of an arithmetic value that was truncated by linear pushing: lin(mod 2^k) with non-negative range is fine as is
  Proto p;p.op=O_ZEXT;p.w=w;p.k={e}; return intern(p);
}
Expr* mkSext(Expr*e,unsigned w){
  if(e->w==w) return e; if(e->isc()) return mkConst((u128)sx128(e->c,e->w),w);
  if(Expr*r=undistribute(e,w,false)) return r;
  if(e->op==O_SEXT) return mkSext(e->k[0],w); if(e->op==O_ZEXT) return mkZext(e->k[0],w);
  if(e->w<=64&&e->lo>=0) return mkZext(e,w);
  if(isCL(e)) return mapConstLeaf(e,[&](Expr*c){return mkConst((u128)sx128(c->c,c->w),w);});
  if(e->op==O_EXTRACT&&e->b==0){ Expr*x=e->k[0]; if(x->w<=64&&x->lo>=rlo(e->w)&&x->hi<=rhi(e->w)) return x->w==w?x: x->w<w? mkSext(x,w):mkTrunc(x,w); }
  Proto p;p.op=O_SEXT;p.w=w;p.k={e}; return intern(p);
}
Expr* mkNot(Expr*e){ return mkBin(O_XOR,e,mkConst(maskw(e->w),e->w)); }

// segment view used for disjoint or / masks
static Expr* maskConst(Expr*x,u128 m){ // x & m as concatenation of runs
  unsigned w=x->w; std::vector<Expr*> parts; int i=w-1; int runs=0; for(int j=0;j<(int)w;j++) if(((m>>j)&1)&&(j==0||!((m>>(j-1))&1))) runs++;
  if(runs>4) return nullptr;
  while(i>=0){ int b=(m>>i)&1; int j=i; while(j>=0&&(int)((m>>j)&1)==b) j--; parts.push_back(b? mkExtract(x,i,j+1): mkConst(0,i-j)); i=j; }
  return mkConcat(parts);
}
static u128 possibleOnes(Expr*e,int d=0){ // over-approximation of bits that may be one
  if(d>8){ if(e->w<=64&&e->lo>=0){ u128 r=1; while(r<=(u128)e->hi) r<<=1; return (r-1)&maskw(e->w);} return maskw(e->w); }
  switch(e->op){ case O_CONST: return e->c; case O_ZEXT: return possibleOnes(e->k[0],d+1);
    case O_CONCAT:{ u128 r=0; for(u32 i=0;i<e->nk;i++) r=(r<<e->k[i]->w)|possibleOnes(e->k[i],d+1); return r; }
    case O_AND: return possibleOnes(e->k[0],d+1)&possibleOnes(e->k[1],d+1); case O_OR: case O_XOR: if(e->op==O_OR) return possibleOnes(e->k[0],d+1)|possibleOnes(e->k[1],d+1); return maskw(e->w);
    case O_ITE: return possibleOnes(e->k[1],d+1)|possibleOnes(e->k[2],d+1);
    case O_LIN: { unsigned z=64; for(u32 i=0;i<e->nk;i++) z=std::min<unsigned>(z,__builtin_ctzll(e->cf[i])); if(e->c) z=std::min<unsigned>(z,__builtin_ctzll((u64)e->c)); u128 m=maskw(e->w)&~maskw(z); if(e->lo>=0){ u128 r=1; while(r<=(u128)e->hi) r<<=1; m&=r-1; } return m; }
    default: if(e->w<=64&&e->lo>=0){ u128 r=1; while(r<=(u128)e->hi) r<<=1; return (r-1)&maskw(e->w);} return maskw(e->w); } }
Expr* mkBin(Op op,Expr*a,Expr*b){
  unsigned w=a->w; if(a->w!=b->w){ fprintf(stderr,"zsym: width mismatch %s %d %d\n",opname[op],a->w,b->w); abort(); }
  if(a->isc()&&b->isc()){ u128 x=a->c,y=b->c,r=0; switch(op){ case O_AND:r=x&y;break; case O_OR:r=x|y;break; case O_XOR:r=x^y;break;
      case O_SHL:r=y>=w?0:x<<y;break; case O_LSHR:r=y>=w?0:x>>y;break; case O_ASHR:{ i128 s=sx128(x,w); r=(u128)(y>=w?(s<0?-1:0):s>>(int)y);break;}
      case O_UDIV:r=y?x/y:maskw(w);break; case O_UREM:r=y?x%y:x;break;
      case O_SDIV:{ i128 s=sx128(x,w),t=sx128(y,w); r=t? (u128)(s/t):(s<0?1:maskw(w)); break;} case O_SREM:{ i128 s=sx128(x,w),t=sx128(y,w); r=t?(u128)(s%t):x; break;}
      default: abort(); } return mkConst(r,w); }
  if((op==O_AND||op==O_OR||op==O_XOR)){ if(a->isc()||(!b->isc()&&a->id>b->id)) std::swap(a,b); }
  if(b->isc()&&isCL(a)) return mapConstLeaf(a,[&](Expr*c){return mkBin(op,c,b);});
  if(a->isc()&&isCL(b)) return mapConstLeaf(b,[&](Expr*c){return mkBin(op,a,c);});
  switch(op){
    case O_AND:
      if(a==b) return a;
      if(b->isc()){ if(b->c==0) return b; if(b->c==maskw(w)) return a; if(w>1){ u128 po=possibleOnes(a); if((po&b->c)==0) return mkConst(0,w); if((po&~b->c)==0) return a; Expr*r=maskConst(a,b->c); if(r) return r; } }
      if(w==1){ if(a->op==O_XOR&&a->k[1]->isc()&&a->k[0]==b) return mkConst(0,1); if(b->op==O_XOR&&b->k[1]->isc()&&b->k[0]==a) return mkConst(0,1); }
      break;
    case O_OR:
      if(a==b) return a;
      if(b->isc()){ if(b->c==0) return a; if(b->c==maskw(w)) return b; }
      if(w==1){ if(a->op==O_XOR&&a->k[1]->isc()&&a->k[0]==b) return mkConst(1,1); if(b->op==O_XOR&&b->k[1]->isc()&&b->k[0]==a) return mkConst(1,1); }
      if(w>1){ u128 pa=possibleOnes(a),pb=possibleOnes(b); if((pa&pb)==0){ // disjoint: split into runs owned by a or b
          std::vector<Expr*> parts; int i=w-1; int runs=0; while(i>=0){ int o=((pa>>i)&1)?1:((pb>>i)&1)?2:0; int j=i; while(j>=0){ int o2=((pa>>j)&1)?1:((pb>>j)&1)?2:0; if(o2!=o) break; j--; } parts.push_back(o==0?mkConst(0,i-j): mkExtract(o==1?a:b,i,j+1)); i=j; runs++; }
          if(runs<=12) return mkConcat(parts); }
        else if(b->isc()){ // or with constant: split by runs of the constant
          std::vector<Expr*> parts; int i=w-1; int runs=0; while(i>=0){ int o=(b->c>>i)&1; int j=i; while(j>=0&&(int)((b->c>>j)&1)==o) j--; parts.push_back(o?mkConst(maskw(i-j),i-j):mkExtract(a,i,j+1)); i=j; runs++; } if(runs<=6) return mkConcat(parts); } }
      break;
    case O_XOR:
      if(a==b) return mkConst(0,w);
      if(b->isc()){ if(b->c==0) return a; if(a->op==O_XOR&&a->k[1]->isc()) return mkBin(O_XOR,a->k[0],mkConst(a->k[1]->c^b->c,w));
        if(b->c==maskw(w)&&w>1&&w<=64&&(a->op==O_LIN||a->op==O_SEXT||a->op==O_MUL)) return mkSub(mkConst(maskw(w),w),a);
        if(w>1&&(a->op==O_CONCAT||a->op==O_ZEXT)){ std::vector<Expr*> parts; unsigned pos=w; auto seg=[&](Expr*x){ pos-=x->w; Expr*c=mkConst(b->c>>pos,x->w); parts.push_back(mkBin(O_XOR,x,c)); }; if(a->op==O_ZEXT){ seg(mkConst(0,w-a->k[0]->w)); seg(a->k[0]); } else for(u32 i=0;i<a->nk;i++) seg(a->k[i]); return mkConcat(parts); } }
      break;
    case O_SHL: case O_LSHR: case O_ASHR:
      if(b->isc()){ if(b->c>=w) { if(op==O_ASHR) return mkSext(mkExtract(a,w-1,w-1),w); return mkConst(0,w);} unsigned s=(unsigned)b->c; if(s==0) return a;
        if(op==O_LSHR) return mkZext(mkExtract(a,w-1,s),w);
        if(op==O_ASHR) return mkSext(mkExtract(a,w-1,s),w);
        if(w<=64&&(a->op==O_LIN||a->op==O_SEXT||a->op==O_MUL||a->op==O_CLAMP||(a->op==O_ZEXT&&(a->k[0]->op==O_LIN||a->k[0]->op==O_MUL||a->k[0]->op==O_CLAMP)))) return mkMulC(a,1ull<<s);
        return mkConcat2(mkExtract(a,w-1-s,0),mkConst(0,s)); }
      break;
    case O_UDIV: case O_UREM: if(b->isc()&&b->c){ u128 c=b->c; if((c&(c-1))==0){ unsigned s=0; while(((u128)1<<s)<c)s++; if(op==O_UDIV) return mkBin(O_LSHR,a,mkConst(s,w)); return s?mkZext(mkExtract(a,s-1,0),w):mkConst(0,w);} } break;
    case O_SDIV: case O_SREM: if(w<=64&&a->lo>=0&&b->lo>0) return mkBin(op==O_SDIV?O_UDIV:O_UREM,a,b); break;
    default: break;
  }
  return mk2(op,w,a,b);
}
Expr* mkIte(Expr*c,Expr*a,Expr*b){
  if(c->isc()) return c->c? a:b; if(a==b) return a;
  unsigned w=a->w;
  if(c->op==O_XOR&&c->k[1]->isc()) return mkIte(c->k[0],b,a);
  if(w==1){ if(a->isc()&&b->isc()) return a->c? c: mkNot(c); if(a->isc()) return a->c? mkBin(O_OR,c,b): mkBin(O_AND,mkNot(c),b); if(b->isc()) return b->c? mkBin(O_OR,mkNot(c),a): mkBin(O_AND,c,a); }
  // min / max
  if(c->op==O_SLT&&w<=64){ Expr*x=c->k[0],*y=c->k[1];
    if(a==x&&b==y&&(x->isc()||y->isc())) return mkSmin(x,y); if(a==y&&b==x&&(x->isc()||y->isc())) return mkSmax(x,y);
    // x<C ? C : x  handled above; x<C ? C-1 : x variants (strict bounds) :  (x < 0) ? 0 : x covers
    if(y->isc()&&b==x&&a->isc()&&sx((u64)a->c,w)==sx((u64)y->c,w)-1) return mkSmax(x,a);
    if(x->isc()&&b==y&&a->isc()&&sx((u64)a->c,w)==sx((u64)x->c,w)+1) return mkSmin(y,a);
    if(y->isc()&&a==x&&b->isc()&&sx((u64)b->c,w)==sx((u64)y->c,w)-1) return mkSmin(x,b);
    if(x->isc()&&a==y&&b->isc()&&sx((u64)b->c,w)==sx((u64)x->c,w)+1) return mkSmax(y,b); }
  // condition and branch are shifted clamps of the same term
  if(c->op==O_SLT&&w<=58&&w>1&&(a->isc()!=b->isc())&&(c->k[0]->isc()!=c->k[1]->isc())&&c->k[0]->w<=58){ bool lt=c->k[1]->isc(); Expr*v=lt?c->k[0]:c->k[1]; i64 cs=sx((u64)(lt?c->k[1]:c->k[0])->c,v->w); Expr*K=a->isc()?a:b,*o=a->isc()?b:a; bool condK=a->isc();
    Expr*q=o; auto strip=[&]{ while(q->op==O_SEXT||q->op==O_ZEXT||(q->op==O_EXTRACT&&q->b==0)) q=q->k[0]; }; strip(); if(q->op==O_LIN&&q->nk==1&&q->cf[0]==1){ q=q->k[0]; strip(); }
    if(q->op==O_CLAMP&&q->k[0]->w<=58){ unsigned W=std::max({w,(unsigned)v->w,(unsigned)q->w,(unsigned)q->k[0]->w})+2; Expr*e=mkSub(mkSext(o,W),mkSext(q,W)),*f=mkSub(mkSext(q->k[0],W),mkSext(v,W)); if(!e->isc()){ e=mkSub(o,q->w>=w?mkTrunc(q,w):mkSext(q,w)); if(e->isc()){ i64 ec=sx((u64)e->c,w); bool fit=false; for(i64 t:{ec,(i64)(ec-(1ll<<w)),(i64)(ec+(1ll<<w))}) if(q->lo+t>=rlo(w)&&q->hi+t<=rhi(w)){ ec=t; fit=true; break; } if(fit) e=mkConst((u128)(i128)ec,W); } }
      if(e->isc()&&e->w==W&&f->isc()){ i64 ec=sx((u64)e->c,W),fc=sx((u64)f->c,W),cu=cs+fc,cc=cu+ec,kk=sx((u64)K->c,w); // the condition is q<cu (lt) or cu<q
        if(lt? (cu>q->clo&&cu<=q->chi):(cu>=q->clo&&cu<q->chi)){ Expr*O=mkAdd(mkSext(q,W),mkConst((u128)(i128)ec,W)); 
          if(lt&&condK&&(kk==cc||kk==cc-1)) return mkTrunc(mkClamp(O,kk,rhi(W)),w); if(!lt&&condK&&(kk==cc||kk==cc+1)) return mkTrunc(mkClamp(O,rlo(W),kk),w);
          if(lt&&!condK&&(kk==cc||kk==cc-1)) return mkTrunc(mkClamp(O,rlo(W),kk),w); if(!lt&&!condK&&(kk==cc||kk==cc+1)) return mkTrunc(mkClamp(O,kk,rhi(W)),w); } } } }
  // x<C ? K : x+d (and the mirrored forms): a clamp when the constants agree
  if(c->op==O_SLT&&w<=60&&w>1&&(a->isc()!=b->isc())){ Expr*x=c->k[0],*y=c->k[1]; if(x->isc()!=y->isc()&&x->w<=60){ Expr*v=x->isc()?y:x; Expr*C=x->isc()?x:y; Expr*K=a->isc()?a:b,*o=a->isc()?b:a; if(!(o->op==O_ITE)){ unsigned W=std::max<unsigned>(w,v->w)+2; { Expr*q=o; while(q->op==O_SEXT||q->op==O_ZEXT) q=q->k[0]; if(q->op==O_LIN&&q->nk==1&&q->cf[0]==1) q=q->k[0]; while(q->op==O_SEXT||q->op==O_ZEXT) q=q->k[0]; if(q->op==O_CLAMP){ Expr*u=q->k[0]; while(u->op==O_SEXT) u=u->k[0]; Expr*v0=v; while(v0->op==O_SEXT) v0=v0->k[0]; i64 cs=sx((u64)C->c,C->w); if(u==v0&&(!x->isc()? (cs>q->clo&&cs<=q->chi):(cs>=q->clo&&cs<q->chi))) v=q; } } W=std::max<unsigned>(W,v->w+2); Expr*d=mkSub(mkSext(o,W),mkSext(v,W)); if(d->isc()){ i64 dd=sx((u64)d->c,W),cc=sx((u64)C->c,C->w)+dd,kk=sx((u64)K->c,w); bool lt=!x->isc(); // condition: o<cc (lt) or cc<o
      bool condK=a->isc(); // K chosen when the condition holds
      if(lt&&condK&&(kk==cc||kk==cc-1)) return mkSmax(o,K); if(!lt&&condK&&(kk==cc||kk==cc+1)) return mkSmin(o,K);
      if(lt&&!condK&&(kk==cc||kk==cc-1)) return mkSmin(o,K); if(!lt&&!condK&&(kk==cc||kk==cc+1)) return mkSmax(o,K); } } } }
  if(w>1&&w<=64&&!a->isc()&&!b->isc()&&c->op==O_EXTRACT){ auto lin=[](Expr*e){ while(e->op==O_SEXT||e->op==O_ZEXT) e=e->k[0]; return e->op==O_LIN; }; if(lin(a)||lin(b)){ Expr*d=mkSub(a,b); if(d->isc()) return mkAdd(b,mkMulC(mkZext(c,w),(u64)d->c)); } }
  if(a->op==O_ITE&&a->k[0]==c) return mkIte(c,a->k[1],b); if(b->op==O_ITE&&b->k[0]==c) return mkIte(c,a,b->k[2]);
  Proto p;p.op=O_ITE;p.w=w;p.k={c,a,b}; return intern(p);
}
Expr* mkEq(Expr*a,Expr*b){
  if(a==b) return mkConst(1,1); if(a->isc()&&b->isc()) return mkConst(a->c==b->c,1);
  if(a->isc()) std::swap(a,b); unsigned w=a->w;
  if(b->isc()){
    if(w==1) return b->c? a: mkNot(a);
    if(w<=64){ i64 s=sx((u64)b->c,w); if(s<a->lo||s>a->hi) return mkConst(0,1); }
    if(isCL(a)) return mapConstLeaf(a,[&](Expr*c){return mkConst(c->c==b->c,1);});
    if(a->op==O_LIN&&a->nk>1){ if(Expr*t=tabulate(a,[&](u64 v){ return (u128)(v==(u64)b->c); },1)) return t; }
    switch(a->op){
      case O_ZEXT: { Expr*x=a->k[0]; if(b->c>maskw(x->w)) return mkConst(0,1); return mkEq(x,mkConst(b->c,x->w)); }
      case O_SEXT: { Expr*x=a->k[0]; if((u128)sx128(b->c,x->w)!=(u128)sx128(b->c,w)) { if((((u128)sx128(b->c&maskw(x->w),x->w))&maskw(w))!=b->c) return mkConst(0,1);} return mkEq(x,mkConst(b->c,x->w)); }
      case O_CONCAT: { std::vector<Expr*> rest; Expr*r=mkConst(1,1); unsigned pos=w; std::vector<std::pair<Expr*,Expr*>> segs; for(u32 i=0;i<a->nk;i++){ Expr*x=a->k[i]; pos-=x->w; Expr*c=mkConst(b->c>>pos,x->w); if(x->isc()){ if(x!=c) return mkConst(0,1);} else segs.push_back({x,c}); } if(segs.size()==1) return mkEq(segs[0].first,segs[0].second); for(auto&s:segs) r=mkBin(O_AND,r,mkEq(s.first,s.second)); return r; }
      case O_LIN: if(a->nk==1&&(a->cf[0]&1)){ u64 f=a->cf[0],inv=f; for(int i=0;i<6;i++) inv*=2-f*inv; u64 v=((u64)b->c-(u64)a->c)*inv; return mkEq(a->k[0],mkConst(v,w)); }
        if(a->c!=0){ return mkEq(mkSub(a,mkConst(a->c,w)),mkConst((u64)b->c-(u64)a->c,w)); }
        break;
      case O_XOR: if(a->k[1]->isc()) return mkEq(a->k[0],mkConst(a->k[1]->c^b->c,w)); break;
      case O_ITE: if(a->k[1]->isc()||a->k[2]->isc()) return mkIte(a->k[0],mkEq(a->k[1],b),mkEq(a->k[2],b)); break;
      case O_OR: if(b->c==0) return mkBin(O_AND,mkEq(a->k[0],b),mkEq(a->k[1],b)); break;
      default: break; }
  } else {
    if(w==1) return mkNot(mkBin(O_XOR,a,b));
    if(w<=64){ if(a->lo>b->hi||b->lo>a->hi) return mkConst(0,1);
      if(a->op==O_ZEXT&&b->op==O_ZEXT&&a->k[0]->w==b->k[0]->w) return mkEq(a->k[0],b->k[0]);
      { auto core=[&](Expr*e){ return (e->op==O_ZEXT||(e->op==O_SEXT&&e->k[0]->lo>=0))?e->k[0]:nullptr; }; Expr*x=core(a),*y=core(b); if(x&&y&&x->w!=y->w){ if(x->w>y->w) std::swap(x,y); if(y->lo>=0&&(u128)y->hi<=maskw(x->w)) return mkEq(x,mkTrunc(y,x->w)); } }
      if(a->op==O_SEXT&&b->op==O_SEXT&&a->k[0]->w==b->k[0]->w) return mkEq(a->k[0],b->k[0]);
      if(a->op==O_LIN||b->op==O_LIN||a->op==O_SEXT||b->op==O_SEXT){ Expr*d=mkSub(a,b); if(d->isc()) return mkConst(d->c==0,1); if(d->lo>0||d->hi<0) return mkConst(0,1); } }
  }
  if(!b->isc()&&a->id>b->id) std::swap(a,b);
  return mk2(O_EQ,1,a,b);
}
static Expr* diffRange(Expr*a,Expr*b){ // a-b in a width that cannot wrap
  unsigned w=a->w; if(w>=62) return nullptr; return mkSub(mkSext(a,w+1),mkSext(b,w+1)); }
Expr* mkSlt(Expr*a,Expr*b){
  if(a==b) return mkConst(0,1); unsigned w=a->w; if(a->isc()&&b->isc()) return mkConst(sx128(a->c,w)<sx128(b->c,w),1);
  if(w<=64){ if(a->hi<b->lo) return mkConst(1,1); if(a->lo>=b->hi) return mkConst(0,1); }
  if(b->isc()&&isCL(a)) return mapConstLeaf(a,[&](Expr*c){return mkSlt(c,b);}); if(a->isc()&&isCL(b)) return mapConstLeaf(b,[&](Expr*c){return mkSlt(a,c);});
  if(w==1) return mkBin(O_AND,a,mkNot(b));
  if(b->isc()){ if(Expr*t=tabulate(a,[&](u64 v){ return (u128)(sx(v,w)<sx((u64)b->c,w)); },1)) return t; }
  if(a->isc()){ if(Expr*t=tabulate(b,[&](u64 v){ return (u128)(sx((u64)a->c,w)<sx(v,w)); },1)) return t; }
  if(w<=64){
    // narrow
    auto bitsOf=[&](Expr*e)->unsigned{ return bitsFor(e->lo,e->hi); }; unsigned n=std::max(bitsOf(a),bitsOf(b)); if(n<w) return mkSlt(mkTrunc(a,n),mkTrunc(b,n));
    if(a->op==O_LIN||b->op==O_LIN){ Expr*d=diffRange(a,b); if(d){ if(d->hi<0) return mkConst(1,1); if(d->lo>=0) return mkConst(0,1); } }
    // sign test
    if(b->isc()&&b->c==0){ if(a->op==O_LIN&&a->c==((u128)1<<(w-1))) return mkNot(mkSlt(mkSub(a,mkConst(a->c,w)),b)); Expr*x=mkExtract(a,w-1,w-1); return x->op==O_EXTRACT&&x->k[0]==a&&a->op!=O_VAR? mk2(O_SLT,1,a,b): x; }
  }
  return mk2(O_SLT,1,a,b);
}
Expr* mkUlt(Expr*a,Expr*b){
  if(a==b) return mkConst(0,1); unsigned w=a->w; if(a->isc()&&b->isc()) return mkConst(a->c<b->c,1);
  if(b->isc()&&b->c==0) return mkConst(0,1); if(b->isc()&&b->c==1) return mkEq(a,mkConst(0,w)); if(a->isc()&&a->c==0) return mkNot(mkEq(b,a)); if(a->isc()&&a->c==maskw(w)) return mkConst(0,1);
  if(b->isc()&&isCL(a)) return mapConstLeaf(a,[&](Expr*c){return mkUlt(c,b);}); if(a->isc()&&isCL(b)) return mapConstLeaf(b,[&](Expr*c){return mkUlt(a,c);});
  if(w==1) return mkBin(O_AND,mkNot(a),b);
  if(w<=64&&a->lo>=0&&b->lo>=0) return mkSlt(a,b);
  if(w<=64&&a->hi<0&&b->hi<0) return mkSlt(a,b);
  if(w<=64&&a->lo>=0&&b->hi<0) return mkConst(1,1); if(w<=64&&a->hi<0&&b->lo>=0) return mkConst(0,1);
  if(a->op==O_ZEXT&&b->isc()){ Expr*x=a->k[0]; if(b->c>maskw(x->w)) return mkConst(1,1); return mkUlt(x,mkConst(b->c,x->w)); }
  if(b->op==O_ZEXT&&a->isc()){ Expr*x=b->k[0]; if(a->c>=maskw(x->w)) return mkConst(0,1); return mkUlt(mkConst(a->c,x->w),x); }
  if(a->op==O_ZEXT&&b->op==O_ZEXT){ unsigned n=std::max(a->k[0]->w,b->k[0]->w); if(n<w) return mkUlt(mkTrunc(a,n),mkTrunc(b,n)); }
  return mk2(O_ULT,1,a,b);
}
Expr* mkUle(Expr*a,Expr*b){ return mkNot(mkUlt(b,a)); } Expr* mkSle(Expr*a,Expr*b){ return mkNot(mkSlt(b,a)); }
Expr* mkClamp(Expr*e,i64 lo,i64 hi){
  unsigned w=e->w; if(w>64) abort(); if(lo<rlo(w))lo=rlo(w); if(hi>rhi(w))hi=rhi(w);
  if(e->lo>=lo&&e->hi<=hi) return e; if(e->hi<=lo) return mkConst((u128)(i128)lo,w); if(e->lo>=hi) return mkConst((u128)(i128)hi,w);
  if(e->isc()){ i64 v=sx((u64)e->c,w); v=v<lo?lo:v>hi?hi:v; return mkConst((u128)(i128)v,w); }
  if(isCL(e)) return mapConstLeaf(e,[&](Expr*c){return mkClamp(c,lo,hi);});
  { Expr*y=e; bool ok=true; while(y->op==O_SEXT||y->op==O_ZEXT){ if(y->op==O_ZEXT&&y->k[0]->lo<0) ok=false; y=y->k[0]; } if(ok) if(Expr*t=tabulate(y,[&](u64 v){ i64 q=sx(v,y->w); return (u128)(i128)(q<lo?lo:q>hi?hi:q); },w)) return t; }
  // canonical bounds: tighten to the argument's range where inactive
  Expr*x=e; if(x->op==O_SEXT||x->op==O_ZEXT){ x=x->k[0]; if(e->op==O_ZEXT&&x->lo<0) x=e; }
  if(Expr*u=undistribute(x,x->w+2,false)){ unsigned W=std::max<unsigned>(w,u->w); return mkTrunc(mkClamp(u->w<W?mkSext(u,W):u,lo,hi),w); }
  if(x->op==O_CLAMP){ i64 l1=x->clo,h1=x->chi; auto cl=[&](i64 v){return v<lo?lo:v>hi?hi:v;}; return mkSext(mkTrunc(mkClamp(mkSext(x->k[0],std::max<unsigned>(w,x->k[0]->w)),cl(l1),cl(h1)),w),w); }
  if(x->op==O_LIN&&x->nk==1&&x->cf[0]==1&&w<=60){ Expr*q=x->k[0]; while(q->op==O_SEXT||(q->op==O_ZEXT&&q->k[0]->lo>=0)) q=q->k[0]; i64 d=sx((u64)x->c,x->w); if(q->op==O_CLAMP&&nowrap(x)){ auto cl=[&](i64 v){return v<lo?lo:v>hi?hi:v;}; unsigned W=std::max<unsigned>(w,q->k[0]->w)+2; if(W<=62) return mkTrunc(mkClamp(mkAdd(mkSext(q->k[0],W),mkConst((u128)(i128)d,W)),cl(q->clo+d),cl(q->chi+d)),w); } }
  if(x->op!=O_CLAMP&&x->w<=58){ unsigned nb=bitsFor(x->lo,x->hi); if(nb<x->w) x=mkTrunc(x,nb); }
  i64 L=std::max(lo,x->lo),H=std::min(hi,x->hi);
  if(L!=0&&w<=58&&x->w<=58){ unsigned W=std::max<unsigned>(w,x->w)+2; return mkTrunc(mkAdd(mkClamp(mkSub(mkSext(x,W),mkConst((u128)(i128)L,W)),0,H-L),mkConst((u128)(i128)L,W)),w); } // canonical: lower bound 0
  unsigned n=bitsFor(L,H);
  Proto p;p.op=O_CLAMP;p.w=n;p.clo=L;p.chi=H;p.k={x}; Expr*c=intern(p); return n==w?c: n<w? mkSext(c,w):mkTrunc(c,w);
}
Expr* mkSmin(Expr*a,Expr*b){ if(a->isc())std::swap(a,b); if(b->isc()&&a->w<=64) return mkClamp(a,rlo(a->w),sx((u64)b->c,a->w)); if(a==b) return a; if(a->w<=64){ if(a->hi<=b->lo) return a; if(b->hi<=a->lo) return b; } if(a->id>b->id)std::swap(a,b); Proto p;p.op=O_ITE;p.w=a->w;p.k={mkSlt(a,b),a,b}; if(p.k[0]->isc()) return p.k[0]->c?a:b; return intern(p); }
Expr* mkSmax(Expr*a,Expr*b){ if(a->isc())std::swap(a,b); if(b->isc()&&a->w<=64) return mkClamp(a,sx((u64)b->c,a->w),rhi(a->w)); if(a==b) return a; if(a->w<=64){ if(a->hi<=b->lo) return b; if(b->hi<=a->lo) return a; } if(a->id>b->id)std::swap(a,b); Proto p;p.op=O_ITE;p.w=a->w;p.k={mkSlt(a,b),b,a}; if(p.k[0]->isc()) return p.k[0]->c?b:a; return intern(p); }
Expr* mkUmin(Expr*a,Expr*b){ if(a->isc()&&b->isc()) return a->c<b->c?a:b; if(a->w<=64&&a->lo>=0&&b->lo>=0) return mkSmin(a,b); return mkIte(mkUlt(a,b),a,b); }
Expr* mkUmax(Expr*a,Expr*b){ if(a->isc()&&b->isc()) return a->c<b->c?b:a; if(a->w<=64&&a->lo>=0&&b->lo>=0) return mkSmax(a,b); return mkIte(mkUlt(a,b),b,a); }

Expr* mkRebuild(Expr*e,Expr**k){
  switch(e->op){
    case O_CONST: case O_VAR: return e;
    case O_LIN: { Lin L; for(u32 i=0;i<e->nk;i++) linAdd(L,k[i],e->cf[i],e->w); L.c=(L.c+(u64)e->c)&mask64(e->w); return finishLin(L,e->w); }
    case O_MUL: return mkMul(k[0],k[1]); case O_ADDW: return mkAdd(k[0],k[1]);
    case O_EXTRACT: return mkExtract(k[0],e->a,e->b);
    case O_CONCAT: { std::vector<Expr*> v(k,k+e->nk); return mkConcat(v); }
    case O_ZEXT: return mkZext(k[0],e->w); case O_SEXT: return mkSext(k[0],e->w);
    case O_ITE: return mkIte(k[0],k[1],k[2]); case O_EQ: return mkEq(k[0],k[1]); case O_ULT: return mkUlt(k[0],k[1]); case O_SLT: return mkSlt(k[0],k[1]);
    case O_CLAMP: { unsigned w=std::max<unsigned>(e->w,k[0]->w); return mkTrunc(mkClamp(mkSext(k[0],w),e->clo,e->chi),e->w); }
    default: return mkBin(e->op,k[0],k[1]);
  }
}
const std::vector<u32>& support(Expr*e){
  if(e->sup) return *e->sup;
  auto*s=new std::vector<u32>();
  if(e->op==O_VAR) s->push_back(e->a);
  else { for(u32 i=0;i<e->nk;i++){ auto&t=support(e->k[i]); if(s->empty()) *s=t; else if(!t.empty()){ std::vector<u32> r; r.reserve(s->size()+t.size()); std::set_union(s->begin(),s->end(),t.begin(),t.end(),std::back_inserter(r)); s->swap(r);} } }
  e->sup=s; return *s;
}
std::string show(Expr*e,int d){
  char b[64]; if(e->isc()){ snprintf(b,64,"%llu:%d",(unsigned long long)(u64)e->c,e->w); return b; }
  if(e->op==O_VAR){ return g_vars[e->a].name+"["+std::to_string(g_vars[e->a].idx)+"]"; }
  if(d==0) return "#"+std::to_string(e->id);
  std::string s=std::string("(")+opname[e->op]+"."+std::to_string(e->w); if(e->op==O_EXTRACT) s+=" "+std::to_string(e->a)+":"+std::to_string(e->b); if(e->op==O_CLAMP) s+=" "+std::to_string(e->clo)+".."+std::to_string(e->chi);
  for(u32 i=0;i<e->nk;i++){ s+=" "; if(e->op==O_LIN) s+=std::to_string(sx(e->cf[i],e->w))+"*"; s+=show(e->k[i],d-1); } if(e->op==O_LIN) s+=" + "+std::to_string(sx((u64)e->c,e->w)); return s+")";
}
static u64 epochCtr=1; u64 newEpoch(){ return ++epochCtr; }
u128 evalExpr(Expr*e,const std::vector<u128>&A,u64 ep){
  if(e->op==O_CONST) return e->c; if(e->evepoch==ep) return e->ev;
  u128 r=0; unsigned w=e->w; auto E=[&](int i){return evalExpr(e->k[i],A,ep);};
  switch(e->op){
    case O_VAR: r=e->a<A.size()?A[e->a]:0; break;
    case O_LIN: { u64 s=(u64)e->c; for(u32 i=0;i<e->nk;i++) s+=(u64)E(i)*e->cf[i]; r=s; break; }
    case O_MUL: r=E(0)*E(1); break; case O_ADDW: r=E(0)+E(1); break;
    case O_UDIV:{ u128 y=E(1); r=y?E(0)/y:maskw(w); break;} case O_UREM:{ u128 y=E(1); r=y?E(0)%y:E(0); break;}
    case O_SDIV:{ i128 s=sx128(E(0),w),t=sx128(E(1),w); r=t?(u128)(s/t):(s<0?1:maskw(w)); break;} case O_SREM:{ i128 s=sx128(E(0),w),t=sx128(E(1),w); r=t?(u128)(s%t):(u128)s; break;}
    case O_AND:r=E(0)&E(1);break; case O_OR:r=E(0)|E(1);break; case O_XOR:r=E(0)^E(1);break;
    case O_SHL:{u128 y=E(1); r=y>=w?0:E(0)<<(unsigned)y;break;} case O_LSHR:{u128 y=E(1); r=y>=w?0:E(0)>>(unsigned)y;break;} case O_ASHR:{u128 y=E(1); i128 s=sx128(E(0),w); r=(u128)(y>=w?(s<0?-1:0):s>>(unsigned)y);break;}
    case O_EXTRACT: r=E(0)>>e->b; break;
    case O_CONCAT: for(u32 i=0;i<e->nk;i++) r=(r<<e->k[i]->w)|E(i); break;
    case O_ZEXT: r=E(0); break; case O_SEXT: r=(u128)sx128(E(0),e->k[0]->w); break;
    case O_ITE: r=E(0)?E(1):E(2); break;
    case O_EQ: r=E(0)==E(1); break; case O_ULT: r=E(0)<E(1); break; case O_SLT: r=sx128(E(0),e->k[0]->w)<sx128(E(1),e->k[0]->w); break;
    case O_CLAMP:{ i128 v=sx128(E(0),e->k[0]->w); if(v<e->clo)v=e->clo; if(v>e->chi)v=e->chi; r=(u128)v; break;}
    default: abort();
  }
  r&=maskw(w); e->evepoch=ep; e->ev=r; return r;
}
