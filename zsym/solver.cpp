#include "solver.hpp"
#include <z3.h>
#include <chrono>
#include <unordered_set>
#include <map>
Stats g_stats; unsigned g_timeoutMs=60000; double g_deadline=0;

static Z3_context C=nullptr;
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static u64 rs=0x9E3779B97F4A7C15ull; void srnd(u64 v){ rs=0x9E3779B97F4A7C15ull^(v*0xD1342543DE82EF95ull); if(!rs) rs=1; } u64 rnd(){ rs^=rs<<13; rs^=rs>>7; rs^=rs<<17; return rs*0x2545F4914F6CDD1Dull; }
static void err(Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); exit(2); }
static void init(){ if(C) return; Z3_config cfg=Z3_mk_config(); C=Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(C,err); }
static Z3_sort bv(unsigned w){ return Z3_mk_bv_sort(C,w); }
static Z3_ast num(u128 v,unsigned w){ if(w<=64) return Z3_mk_unsigned_int64(C,(u64)v,bv(w)); Z3_ast h=Z3_mk_unsigned_int64(C,(u64)(v>>64),bv(w-64)),l=Z3_mk_unsigned_int64(C,(u64)v,bv(64)); return Z3_mk_concat(C,h,l); }
static Z3_ast bit(Z3_ast b){ return Z3_mk_ite(C,b,num(1,1),num(0,1)); }
static Z3_ast tobool(Z3_ast x){ return Z3_mk_eq(C,x,num(1,1)); }
typedef std::unordered_map<Expr*,Z3_ast> Cut;
static Z3_ast tr(Expr*e,Cut*cut){
  if(cut){ auto it=cut->find(e); if(it!=cut->end()) return it->second; } else if(e->z3) return (Z3_ast)e->z3;
  std::vector<Z3_ast> k; for(u32 i=0;i<e->nk;i++) k.push_back(tr(e->k[i],cut));
  unsigned w=e->w; Z3_ast r=nullptr;
  switch(e->op){
    case O_CONST: r=num(e->c,w); break;
    case O_VAR: { std::string n="v"+std::to_string(e->a); r=Z3_mk_const(C,Z3_mk_string_symbol(C,n.c_str()),bv(w)); break; }
    case O_LIN: { for(u32 i=0;i<e->nk;i++){ i64 f=sx(e->cf[i],w); Z3_ast t; bool neg=f<0; u64 m=neg?0-(u64)f:(u64)f; m&=mask64(w); if(m==1) t=k[i]; else if((m&(m-1))==0) t=Z3_mk_bvshl(C,k[i],num(__builtin_ctzll(m),w)); else t=Z3_mk_bvmul(C,num(m,w),k[i]); if(!r) r=neg?Z3_mk_bvneg(C,t):t; else r=neg?Z3_mk_bvsub(C,r,t):Z3_mk_bvadd(C,r,t); } if(e->c) r=Z3_mk_bvadd(C,r,num(e->c,w)); break; }
    case O_MUL: r=Z3_mk_bvmul(C,k[0],k[1]); break; case O_ADDW: r=Z3_mk_bvadd(C,k[0],k[1]); break;
    case O_UDIV: r=Z3_mk_bvudiv(C,k[0],k[1]); break; case O_SDIV: r=Z3_mk_bvsdiv(C,k[0],k[1]); break; case O_UREM: r=Z3_mk_bvurem(C,k[0],k[1]); break; case O_SREM: r=Z3_mk_bvsrem(C,k[0],k[1]); break;
    case O_AND: r=Z3_mk_bvand(C,k[0],k[1]); break; case O_OR: r=Z3_mk_bvor(C,k[0],k[1]); break; case O_XOR: r=Z3_mk_bvxor(C,k[0],k[1]); break;
    case O_SHL: r=Z3_mk_bvshl(C,k[0],k[1]); break; case O_LSHR: r=Z3_mk_bvlshr(C,k[0],k[1]); break; case O_ASHR: r=Z3_mk_bvashr(C,k[0],k[1]); break;
    case O_EXTRACT: r=Z3_mk_extract(C,e->a,e->b,k[0]); break;
    case O_CONCAT: r=k[0]; for(u32 i=1;i<e->nk;i++) r=Z3_mk_concat(C,r,k[i]); break;
    case O_ZEXT: r=Z3_mk_zero_ext(C,w-e->k[0]->w,k[0]); break; case O_SEXT: r=Z3_mk_sign_ext(C,w-e->k[0]->w,k[0]); break;
    case O_ITE: r=Z3_mk_ite(C,tobool(k[0]),k[1],k[2]); break;
    case O_EQ: r=bit(Z3_mk_eq(C,k[0],k[1])); break; case O_ULT: r=bit(Z3_mk_bvult(C,k[0],k[1])); break; case O_SLT: r=bit(Z3_mk_bvslt(C,k[0],k[1])); break;
    case O_CLAMP: { unsigned kw=e->k[0]->w; Z3_ast lo=num((u128)(i128)e->clo,kw),hi=num((u128)(i128)e->chi,kw); Z3_ast x=k[0]; x=Z3_mk_ite(C,Z3_mk_bvslt(C,x,lo),lo,Z3_mk_ite(C,Z3_mk_bvslt(C,hi,x),hi,x)); r= kw==w?x: kw>w? Z3_mk_extract(C,w-1,0,x): Z3_mk_sign_ext(C,w-kw,x); break; }
    default: abort();
  }
  if(cut) (*cut)[e]=r; else e->z3=r; return r;
}
void* z3of(Expr*e){ init(); return tr(e,nullptr); }
ModelP freshModel(const ModelP&f){ auto m=std::make_shared<Model>(); if(f) m->a=f->a; m->epoch=newEpoch(); return m; }
u128 evalM(Expr*e,const ModelP&m){ return evalExpr(e,m->a,m->epoch); }
bool evalBool(Expr*e,const ModelP&m){ return evalM(e,m)!=0; }
static int runSolver(const std::vector<Z3_ast>&as,unsigned to,const std::function<void(Z3_model)>&onSat){
  init(); g_stats.queries++; double t0=now();
  Z3_solver s=Z3_mk_solver_for_logic(C,Z3_mk_string_symbol(C,"QF_BV")); Z3_solver_inc_ref(C,s);
  if(g_deadline>0){ double left=(g_deadline-now())*1000; if(left<50) left=50; if(left<to) to=(unsigned)left; }
  Z3_params p=Z3_mk_params(C); Z3_params_inc_ref(C,p); Z3_params_set_uint(C,p,Z3_mk_string_symbol(C,"timeout"),to); Z3_solver_set_params(C,s,p); Z3_params_dec_ref(C,p);
  for(auto a:as) Z3_solver_assert(C,s,a);
  Z3_lbool r=Z3_solver_check(C,s); int res=-1;
  if(r==Z3_L_TRUE){ res=1; g_stats.sat++; Z3_model m=Z3_solver_get_model(C,s); Z3_model_inc_ref(C,m); if(onSat) onSat(m); Z3_model_dec_ref(C,m); }
  else if(r==Z3_L_FALSE){ res=0; g_stats.unsat++; } else g_stats.unknown++;
  Z3_solver_dec_ref(C,s); double d=now()-t0; g_stats.solverSec+=d; if(d>g_stats.maxQuery) g_stats.maxQuery=d; return res;
}
static void readModel(Z3_model m,const std::vector<u32>&vars,Model&out){
  for(u32 v:vars){ Z3_ast r; Z3_ast q=tr(g_vars[v].e,nullptr); if(!Z3_model_eval(C,m,q,true,&r)) continue; u128 val=0; unsigned w=g_vars[v].w; uint64_t x=0; if(w<=64){ Z3_get_numeral_uint64(C,r,&x); val=x; } else { const char*s=Z3_get_numeral_string(C,r); for(;*s;s++) val=val*10+(*s-'0'); } if(out.a.size()<=v) out.a.resize(v+1,0); out.a[v]=val; }
}
struct CacheE { int r; std::vector<std::pair<u32,u128>> vals; };
static std::unordered_map<u64,CacheE> qcache;
static void slice(const std::vector<Expr*>&pc,const std::vector<u32>&seed,std::vector<Expr*>&out,std::vector<u32>&vars){
  std::vector<char> in(g_vars.size(),0); for(u32 v:seed) in[v]=1; std::vector<char> used(pc.size(),0); bool ch=true; while(ch){ ch=false; for(size_t i=0;i<pc.size();i++) if(!used[i]){ auto&s=support(pc[i]); bool hit=false; for(u32 v:s) if(in[v]){hit=true;break;} if(hit){ used[i]=1; ch=true; out.push_back(pc[i]); for(u32 v:s) in[v]=1; } } }
  for(u32 v=0;v<in.size();v++) if(in[v]) vars.push_back(v);
}
int solve(const std::vector<Expr*>&pc,Expr*extra,const ModelP&base,ModelP*out,unsigned to){
  if(extra->isc()){ if(!extra->c) return 0; if(out) *out=base; return 1; }
  init(); std::vector<Expr*> cs; std::vector<u32> vars; slice(pc,support(extra),cs,vars);
  std::vector<u32> ids; for(auto*e:cs) ids.push_back(e->id); std::sort(ids.begin(),ids.end()); u64 h=1469598103934665603ull; auto mix=[&](u64 v){ h^=v+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; h^=h>>29; }; for(u32 i:ids) mix(i); mix(0xffffffffffull); mix(extra->id);
  auto it=qcache.find(h); if(it!=qcache.end()&&it->second.r>=0){ g_stats.cacheHits++; if(it->second.r==1&&out){ auto m=freshModel(base); for(auto&p:it->second.vals){ if(m->a.size()<=p.first) m->a.resize(p.first+1,0); m->a[p.first]=p.second; } *out=m; } return it->second.r; }
  std::vector<Z3_ast> as; for(auto*e:cs) as.push_back(tobool(tr(e,nullptr))); as.push_back(tobool(tr(extra,nullptr)));
  auto m=freshModel(base); int r=runSolver(as,to?to:g_timeoutMs,[&](Z3_model zm){ readModel(zm,vars,*m); });
  if(getenv("ZQ")) fprintf(stderr,"Q r=%d cs=%zu vars=%zu t=%.2f extra=%s\n",r,cs.size(),vars.size(),g_stats.solverSec,show(extra,atoi(getenv("ZQ"))).substr(0,600).c_str());
  CacheE ce; ce.r=r; if(r==1){ for(u32 v:vars) ce.vals.push_back({v,v<m->a.size()?m->a[v]:0}); if(out) *out=m; }
  if(r>=0) qcache[h]=ce; return r;
}
// ---------------------------------------------------------------- equivalence by sweeping
static std::unordered_map<Expr*,Expr*> rep; // proven unconditional equivalences (canonical forms)
static const int NS=20; static std::vector<std::vector<u128>> samples;
static void ensureSamples(){ if(samples.empty()) samples.resize(NS); for(int s=0;s<NS;s++){ auto&a=samples[s]; while(a.size()<g_vars.size()){ u32 v=a.size(); u128 x=((u128)rnd()<<64)|rnd(); int mode=s%5; if(mode==1) x&=rnd()&rnd()&15; if(mode==2&&(rnd()&1)) x=~(u128)(rnd()&7); if(mode==3&&(rnd()&3)) x=0; a.push_back(x&maskw(g_vars[v].w)); } } }
static u64 markCtr=1;
static void cone(Expr*e,std::vector<Expr*>&out,u64 mk,size_t limit){ if(e->mark==mk) return; e->mark=mk; if(out.size()>=limit) return; for(u32 i=0;i<e->nk;i++) cone(e->k[i],out,mk,limit); out.push_back(e); }
static std::unordered_map<Expr*,u64> sigMemo;
static u64 sigOf(Expr*e){ auto it=sigMemo.find(e); if(it!=sigMemo.end()) return it->second; ensureSamples(); u64 h=e->w*0x9e3779b97f4a7c15ull; static std::vector<u64> eps; static size_t epVars=0; if(eps.empty()||epVars!=g_vars.size()){ eps.clear(); for(int s=0;s<NS;s++) eps.push_back(newEpoch()); epVars=g_vars.size(); }
  for(int s=0;s<NS;s++){ u128 v=evalExpr(e,samples[s],eps[s]); h^=(u64)v^(u64)(v>>64); h*=0xff51afd7ed558ccdull; h^=h>>31; } sigMemo[e]=h; return h; }
// evaluate signatures for a whole cone sample-by-sample (keeps the memo effective)
static void sigBatch(const std::vector<Expr*>&nodes){ ensureSamples(); std::vector<Expr*> todo; for(auto*e:nodes) if(!sigMemo.count(e)) todo.push_back(e); if(todo.empty()) return; std::vector<u64> h(todo.size()); for(size_t i=0;i<todo.size();i++) h[i]=todo[i]->w*0x9e3779b97f4a7c15ull; for(int s=0;s<NS;s++){ u64 ep=newEpoch(); for(size_t i=0;i<todo.size();i++){ u128 v=evalExpr(todo[i],samples[s],ep); h[i]^=(u64)v^(u64)(v>>64); h[i]*=0xff51afd7ed558ccdull; h[i]^=h[i]>>31; } } for(size_t i=0;i<todo.size();i++) sigMemo[todo[i]]=h[i]; }
static std::unordered_map<u64,std::vector<Expr*>> classes; static std::unordered_set<u64> refuted;
static bool localEq(Expr*a,Expr*b){
  u64 key=((u64)a->id<<32)|b->id; if(refuted.count(key)) return false;
  g_stats.cecQueries++; init();
  u64 ma=++markCtr; std::vector<Expr*> ca; cone(a,ca,ma,20000); std::unordered_set<Expr*> sa(ca.begin(),ca.end());
  u64 mb=++markCtr; std::vector<Expr*> cb; cone(b,cb,mb,20000); std::unordered_set<Expr*> sb(cb.begin(),cb.end());
  auto attempt=[&](bool useCut,unsigned to)->int{
    Cut cut; std::vector<Z3_ast> side; int n=0; size_t visited=0;
    if(useCut){ std::unordered_set<Expr*> seen; std::function<void(Expr*,std::unordered_set<Expr*>&)> go=[&](Expr*e,std::unordered_set<Expr*>&other){ if(e->isc()||!seen.insert(e).second) return; visited++; if(other.count(e)&&e->w>1){ std::string nm="c"+std::to_string(e->id); Z3_ast v=Z3_mk_const(C,Z3_mk_string_symbol(C,nm.c_str()),bv(e->w)); cut[e]=v; n++; if(e->w<=64){ side.push_back(Z3_mk_bvsge(C,v,num((u128)(i128)e->lo,e->w))); side.push_back(Z3_mk_bvsle(C,v,num((u128)(i128)e->hi,e->w))); } return; } for(u32 i=0;i<e->nk;i++) go(e->k[i],other); };
      go(a,sb); seen.clear(); go(b,sa); if(visited>3000) return -1; }
    std::vector<Z3_ast> as=side; Cut*cp=useCut?&cut:nullptr; as.push_back(Z3_mk_not(C,Z3_mk_eq(C,tr(a,cp),tr(b,cp)))); return runSolver(as,to,nullptr); };
  int r=attempt(true,1500); if(r==0) return true; if(ca.size()+cb.size()<600){ r=attempt(false,1500); if(r==0) return true; }
  refuted.insert(key); return false;
}
static Expr* sweep(Expr*root){
  auto it0=rep.find(root); if(it0!=rep.end()) return it0->second;
  std::vector<Expr*> nodes; u64 mk=++markCtr; cone(root,nodes,mk,400000); // post-order: children first
  for(auto*e:nodes){ if(rep.count(e)) continue; Expr*n=e; if(e->nk){ std::vector<Expr*> k(e->nk); bool ch=false; for(u32 i=0;i<e->nk;i++){ auto it=rep.find(e->k[i]); k[i]=it==rep.end()?e->k[i]:it->second; if(k[i]!=e->k[i]) ch=true; } if(ch) n=mkRebuild(e,k.data()); }
    if(n!=e){ auto it=rep.find(n); if(it!=rep.end()) n=it->second; }
    if(!n->isc()&&n->w>=4&&n->op!=O_VAR&&!rep.count(n)){ u64 s=sigOf(n); auto&cl=classes[s]; bool done=false; int tries=0; for(auto*m:cl){ if(m==n){done=true;break;} if(m->w!=n->w) continue; if(++tries>3) break; if(localEq(n,m)){ g_stats.cecProved++; rep[n]=m; n=m; done=true; break; } } if(!done) cl.push_back(n); }
    rep[e]=n; if(!rep.count(n)) rep[n]=n; }
  return rep[root];
}
int proveNear(const std::vector<Expr*>&pc,Expr*a,Expr*b,i64 tol,const ModelP&base,ModelP*out){
  if(a==b){ g_stats.eqTrivial++; return 1; }
  unsigned w=a->w; auto bad=[&](u128 x,u128 y){ i128 d=sx128(x,w)-sx128(y,w); return d>tol||d<-tol; };
  if(bad(evalM(a,base),evalM(b,base))){ if(out)*out=base; return 0; }
  Expr*eq=mkEq(a,b); if(eq->isc()&&eq->c){ g_stats.eqTrivial++; return 1; }
  if(getenv("ZDBG")){ static int n=0; if(n++<4) fprintf(stderr,"NEAR\n  A=%s\n  B=%s\n",show(a,atoi(getenv("ZDBG"))).c_str(),show(b,atoi(getenv("ZDBG"))).c_str()); }
  // cheap counterexample search around the current model
  std::vector<u32> seed; { auto&x=support(a); auto&y=support(b); std::set_union(x.begin(),x.end(),y.begin(),y.end(),std::back_inserter(seed)); }
  std::vector<Expr*> cs; std::vector<u32> vars; slice(pc,seed,cs,vars);
  { Expr*sz[2]={a,b}; (void)sz; for(int t=0;t<24;t++){ auto m=freshModel(base); for(u32 v:seed){ if(m->a.size()<=v) m->a.resize(g_vars.size(),0); u64 r=rnd(); unsigned vw=g_vars[v].w; u128 x=m->a[v]; switch((t+r)%6){ case 0: x=((u128)rnd()<<64)|rnd(); break; case 1: x^=(u128)1<<(r/7%vw); break; case 2: x=maskw(vw); break; case 3: x=0; break; case 4: x=rnd()&15; break; default: break; } m->a[v]=x&maskw(vw); } bool ok=true; for(auto*c:cs) if(!evalBool(c,m)){ok=false;break;} if(ok&&bad(evalM(a,m),evalM(b,m))){ if(out)*out=m; return 0; } } }
  // sweep first (structural + local solver proofs), then the direct query
  Expr*ra=sweep(a),*rb=sweep(b); if(ra==rb){ return 1; }
  g_stats.eqSolver++;
  Expr*req=mkEq(ra,rb); if(req->isc()&&req->c) return 1;
  ModelP m; int r=solve(pc,mkNot(req),base,&m,tol>0?std::min(10000u,g_timeoutMs):g_timeoutMs);
  if(r==0) return 1;
  if(r==1&&bad(evalM(a,m),evalM(b,m))){ if(out)*out=m; return 0; }
  if(tol==0) return r==1? -1 : -1;
  Expr*d=mkSub(mkSext(ra,w+1),mkSext(rb,w+1)); Expr*viol=mkBin(O_OR,mkSlt(mkConst((u128)(i128)tol,w+1),d),mkSlt(d,mkConst((u128)(i128)-tol,w+1)));
  r=solve(pc,viol,base,&m,g_timeoutMs); if(r==0) return 1; if(r==1){ if(out)*out=m; return 0; } return -1;
}

// ------------------------------------------------------------------ audit of the normalising constructors
std::vector<AuditRec> g_audit; unsigned g_auditSmt=6;
static bool audEval(const AuditRec&q,u128 X,u128 Y,u128 Z,unsigned w,u128&out){ // w: width of the operands
  i128 sX=sx128(X,w),sY=sx128(Y,w); u128 m=maskw(w);
  switch(q.k){
    case O_ADDW: out=(X+Y)&m; return true; case O_LIN: out=(X-Y)&m; return true; case O_MUL: if(w>64) return false; out=(X*Y)&m; return true;
    case O_AND: out=X&Y; return true; case O_OR: out=X|Y; return true; case O_XOR: out=X^Y; return true;
    case O_UDIV: if(!Y) return false; out=X/Y; return true; case O_UREM: if(!Y) return false; out=X%Y; return true;
    case O_SDIV: if(!Y) return false; out=(u128)(sX/sY)&m; return true; case O_SREM: if(!Y) return false; out=(u128)(sX%sY)&m; return true;
    case O_SHL: out=Y>=w?0:(X<<(unsigned)Y)&m; return true; case O_LSHR: out=Y>=w?0:X>>(unsigned)Y; return true; case O_ASHR: out=(u128)(sX>>(Y>=w?w-1:(unsigned)Y))&m; return true;
    case O_ZEXT: out=X; return true; case O_SEXT: out=(u128)sX&maskw(q.r->w); return true; case O_EXTRACT: out=X&maskw(q.r->w); return true; case O_ITE: out=X?Y:Z; return true;
    case 100: out=X==Y; return true; case 101: out=X!=Y; return true; case 102: out=X>Y; return true; case 103: out=X>=Y; return true; case 104: out=X<Y; return true; case 105: out=X<=Y; return true;
    case 106: out=sX>sY; return true; case 107: out=sX>=sY; return true; case 108: out=sX<sY; return true; case 109: out=sX<=sY; return true;
  } return false; }
static Z3_ast audTerm(const AuditRec&q){ Z3_ast x=tr(q.x,nullptr),y=q.y?tr(q.y,nullptr):nullptr,z=q.z?tr(q.z,nullptr):nullptr; unsigned w=q.x->w,rw=q.r->w;
  switch(q.k){ case O_ADDW: return Z3_mk_bvadd(C,x,y); case O_LIN: return Z3_mk_bvsub(C,x,y); case O_MUL: return Z3_mk_bvmul(C,x,y); case O_AND: return Z3_mk_bvand(C,x,y); case O_OR: return Z3_mk_bvor(C,x,y); case O_XOR: return Z3_mk_bvxor(C,x,y);
    case O_UDIV: return Z3_mk_bvudiv(C,x,y); case O_SDIV: return Z3_mk_bvsdiv(C,x,y); case O_UREM: return Z3_mk_bvurem(C,x,y); case O_SREM: return Z3_mk_bvsrem(C,x,y);
    case O_SHL: return Z3_mk_bvshl(C,x,y); case O_LSHR: return Z3_mk_bvlshr(C,x,y); case O_ASHR: return Z3_mk_bvashr(C,x,y);
    case O_ZEXT: return rw>w?Z3_mk_zero_ext(C,rw-w,x):x; case O_SEXT: return rw>w?Z3_mk_sign_ext(C,rw-w,x):x; case O_EXTRACT: return Z3_mk_extract(C,rw-1,0,x); case O_ITE: return Z3_mk_ite(C,tobool(x),y,z);
    case 100: return bit(Z3_mk_eq(C,x,y)); case 101: return bit(Z3_mk_not(C,Z3_mk_eq(C,x,y))); case 102: return bit(Z3_mk_bvugt(C,x,y)); case 103: return bit(Z3_mk_bvuge(C,x,y)); case 104: return bit(Z3_mk_bvult(C,x,y)); case 105: return bit(Z3_mk_bvule(C,x,y));
    case 106: return bit(Z3_mk_bvsgt(C,x,y)); case 107: return bit(Z3_mk_bvsge(C,x,y)); case 108: return bit(Z3_mk_bvslt(C,x,y)); case 109: return bit(Z3_mk_bvsle(C,x,y)); } abort(); }
void auditRun(unsigned smt,u64&ev,u64&proved,u64&unk,std::string&bad){
  if(g_audit.empty()) return; init();
  for(int round=0;round<4;round++){ std::vector<u128> a(g_vars.size()); for(size_t i=0;i<a.size();i++){ u128 v=((u128)rnd()<<64)|rnd(); if(round==0) v=0; if(round==1) v=~(u128)0; a[i]=v&maskw(g_vars[i].w); } u64 ep=newEpoch();
    for(auto&q:g_audit){ u128 X=evalExpr(q.x,a,ep),Y=q.y?evalExpr(q.y,a,ep):0,Z=q.z?evalExpr(q.z,a,ep):0,o; if(!audEval(q,X,Y,Z,q.x->w,o)) continue; ev++; if(o!=evalExpr(q.r,a,ep)){ bad="operation "+std::to_string(q.k)+" of ("+show(q.x,4)+") and ("+(q.y?show(q.y,4):"")+") gives ("+show(q.r,4)+")"; return; } } }
  Stats keep=g_stats; unsigned done=0;
  for(size_t i=0;i<g_audit.size()&&done<smt;i++){ auto&q=g_audit[(i*37)%g_audit.size()]; if(q.x->treesize+(q.y?q.y->treesize:0)+(q.z?q.z->treesize:0)+q.r->treesize>4000) continue; done++;
    Z3_ast t=audTerm(q); if((q.k==O_UDIV||q.k==O_SDIV||q.k==O_UREM||q.k==O_SREM)&&!q.y->isc()) continue;
    int r=runSolver({Z3_mk_not(C,Z3_mk_eq(C,t,tr(q.r,nullptr)))},150,nullptr); if(r==0) proved++; else if(r<0) unk++; else { bad="solver refutes operation "+std::to_string(q.k)+" of ("+show(q.x,4)+") and ("+(q.y?show(q.y,4):"")+") giving ("+show(q.r,4)+")"; break; } }
  g_stats=keep; }
