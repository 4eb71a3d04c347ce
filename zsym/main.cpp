// zsym: symbolic executor for LLVM IR (path exploration by forking, SMT-decided branches and assertions).
#include "ir.hpp"
#include "solver.hpp"
#include <chrono>
#include <set>
#include <cmath>
#include <fstream>
#include <sys/resource.h>
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ configuration
static std::string g_entry, g_out="/dev/stdout", g_cpu="avx2"; static std::vector<i64> g_params(32,0);
static double g_wall=600; static u64 g_maxPaths=1000000, g_maxInstr=4000000000ull, g_pathInstr=400000000ull; static bool g_verbose=false;
static int g_maxViol=1; static double g_t0; static u64 g_hang=0; static size_t g_maxWit=2;

// ------------------------------------------------------------------ memory
struct SB { Expr*e; u32 i; };           // byte i of expression e; e==UNINIT -> indeterminate
static Expr*const UNINIT=(Expr*)1;
struct Obj { u32 rc=1; u64 size=0; u32 off=16; bool ro=false,heap=false,dead=false; std::vector<u8> b; std::vector<SB> s; // s empty when fully concrete
  SB* sym(){ if(s.empty()) s.assign(size,SB{nullptr,0}); return s.data(); } };
static const u64 ID_GLOBAL=1, ID_HEAP=0x100000, ID_STACK=0x1000000, ID_FUNC=0x2000000;
static std::vector<Obj*> g_globals; // read-only or initial contents, indexed by id-ID_GLOBAL
struct Frame { Func*f; int bb=0; u32 ip=0; u32 base=0; int dst=-1; u32 dn=0; Edge*inv=nullptr; u32 smark=0; };
// happens-before race detection between the jobs of a pool and the thread that submits them (--race)
typedef std::vector<u16> VC; // clock per thread; thread 0 submits, thread k runs job k-1
struct Cell { u16 wt=0,wc=0,rt[3]={0,0,0},rc[3]; }; // thread numbers are stored plus one, 0 means none
struct Scope { u32 owner,base,n; };
struct Race { u32 cur=0; std::vector<Scope> sc; std::vector<VC> vc,pend; std::map<u64,std::vector<Cell>> sh; std::map<u64,VC> rel; };
static bool g_race=false; static std::set<u64> g_tls; static u64 g_raceAcc=0,g_raceJobs=0;
struct State { std::unique_ptr<Race> race; std::vector<Frame> fr; std::vector<Val> sl; std::vector<Obj*> heap, stack, glob; // glob: private copies of written globals (nullptr = shared)
  std::vector<Expr*> pc; ModelP model; std::map<std::string,u32> occ; u64 instr=0; u32 forks=0; std::vector<u32> mvars; bool spec=false;
  ~State(){ for(auto*v:{&heap,&stack,&glob}) for(auto*o:*v) if(o&&--o->rc==0) delete o; }
  State(){} State(const State&o):race(o.race?new Race(*o.race):nullptr),fr(o.fr),sl(o.sl),heap(o.heap),stack(o.stack),glob(o.glob),pc(o.pc),model(o.model),occ(o.occ),instr(o.instr),forks(o.forks),mvars(o.mvars){ for(auto*v:{&heap,&stack,&glob}) for(auto*x:*v) if(x) x->rc++; }
};
struct PathEnd { std::string kind,msg; };       // thrown to end a path
struct Restart { };                              // thrown when a sibling state was queued and this state was narrowed; re-execute instruction
static std::vector<std::unique_ptr<State>> work;
static State*S; // current

// ------------------------------------------------------------------ results
struct Viol { std::string kind,msg,where; ModelP m; std::vector<Expr*> pc; };
static std::vector<Viol> g_viol; static std::set<std::string> g_incon; static std::map<std::string,u64> g_cover; static u64 g_paths=0,g_instr=0,g_forks=0,g_assertQ=0,g_assertT=0,g_maxPath=0; static u64 g_killed=0;
static std::set<std::string> g_kinds; static u64 g_done=0; static std::vector<std::pair<ModelP,std::vector<Expr*>>> g_wit;
static std::string where(){ std::string r; int n=0; if(S) for(auto it=S->fr.rbegin();it!=S->fr.rend()&&n<6;++it,n++){ if(n) r+=" < "; r+=it->f->name+":"+it->f->bb[it->bb].name; } return r; }
static void incon(const std::string&s){ if(g_incon.size()<50&&g_incon.insert(s).second&&g_verbose) fprintf(stderr,"inconclusive: %s\n",s.c_str()); }
[[noreturn]] static void endPath(const std::string&k,const std::string&m){ throw PathEnd{k,m}; }
static void violation(const std::string&kind,const std::string&msg,const ModelP&m,Expr*extra=nullptr){
  if(g_race&&kind!="race"){ incon("path not followed further: "+kind+": "+msg); return; }
  if((int)g_viol.size()>=g_maxViol) return; Viol v{kind,msg,where(),m,S->pc}; if(extra) v.pc.push_back(extra);
  for(auto*c:v.pc) if(!evalBool(c,m)){ incon("internal: model does not satisfy its path condition ("+msg+")"); return; }
  g_viol.push_back(v); if(g_verbose) fprintf(stderr,"violation %s: %s\n   at %s\n",kind.c_str(),msg.c_str(),v.where.c_str()); }
[[noreturn]] static void fail(const std::string&kind,const std::string&msg){ violation(kind,msg,S->model); endPath("violation",msg); }

// ------------------------------------------------------------------ forking
static void addPc(Expr*c){ if(c->isc()) return; for(auto*x:S->pc) if(x==c) return; S->pc.push_back(c); }
// queue a sibling (at the current, not yet executed, instruction) where c holds
static bool queueIf(Expr*c){ if(c->isc()&&!c->c) return false; ModelP m; int r=solve(S->pc,c,S->model,&m); if(r==0) return false; if(r<0){ incon("branch feasibility unknown"); return false; }
  auto n=std::make_unique<State>(*S); n->pc.push_back(c); n->model=m; n->forks++; g_forks++; work.push_back(std::move(n)); return true; }
static u64 concretize(Expr*e){ if(e->isc()) return (u64)e->c; u128 v=evalM(e,S->model); Expr*eq=mkEq(e,mkConst(v,e->w)); if(eq->isc()) return (u64)v; queueIf(mkNot(eq)); addPc(eq); return (u64)v; }
static u64 conc(const Val&v){ return v.e?concretize(v.e):v.v; }

// ------------------------------------------------------------------ objects
static u64 addrOf(u64 id,Obj*o){ return (id<<32)+o->off; }
static Obj** slotOf(u64 a){ u64 id=a>>32; if(id>=ID_GLOBAL&&id<ID_HEAP){ u64 i=id-ID_GLOBAL; if(i>=g_globals.size()) return nullptr; if(S&&i<S->glob.size()&&S->glob[i]) return &S->glob[i]; return &g_globals[i]; }
  if(id>=ID_HEAP&&id<ID_STACK){ u64 i=id-ID_HEAP; if(i>=S->heap.size()) return nullptr; return &S->heap[i]; } if(id>=ID_STACK&&id<ID_FUNC){ u64 i=id-ID_STACK; if(i>=S->stack.size()) return nullptr; return &S->stack[i]; } return nullptr; }
static void vjoin(VC&a,const VC&b){ if(a.size()<b.size()) a.resize(b.size(),0); for(size_t i=0;i<b.size();i++) a[i]=std::max(a[i],b[i]); }
static void raceAccess(u64 id,u64 off,u64 n,u64 size,bool write){ Race&r=*S->race; if(g_tls.count(id)) return; auto&sh=r.sh[id]; if(sh.size()<size) sh.resize(size); VC&c=r.vc[r.cur]; u16 me=r.cur+1; g_raceAcc++; auto seen=[&](u16 t,u16 k){ return t==me||(t-1u<c.size()&&c[t-1]>=k); };
  for(u64 i=off;i<off+n&&i<size;i++){ Cell&x=sh[i]; const char*bad=nullptr; u16 ot=0; if(x.wt&&!seen(x.wt,x.wc)){ bad="written"; ot=x.wt; } if(write) for(u8 k=0;k<3&&x.rt[k]&&!bad;k++) if(!seen(x.rt[k],x.rc[k])){ bad="read"; ot=x.rt[k]; }
    if(bad){ auto nm=[](u16 t){ return t==1?std::string("the submitting thread"):"job "+std::to_string(t-2); }; fail("race","data race: "+nm(me)+(write?" writes":" reads")+" memory "+bad+" by "+nm(ot)+" without synchronisation (byte "+std::to_string(i)+" of an object of "+std::to_string(size)+" bytes)"); }
    if(write){ x.wt=me; x.wc=c[r.cur]; x.rt[0]=x.rt[1]=x.rt[2]=0; } else { u8 k=0; while(k<3&&x.rt[k]&&x.rt[k]!=me&&!seen(x.rt[k],x.rc[k])) k++; if(k<3){ x.rt[k]=me; x.rc[k]=c[r.cur]; } } } }
static inline void acc(u64 a,Obj*o,u64 off,u64 n,bool w){ if(g_race&&S&&S->race) raceAccess(a>>32,off,n,o->size,w); }
static void raceAtomic(u64 a,u8 o,bool load,bool store,bool rmw){ if(!g_race||!S->race) return; Race&r=*S->race; VC&c=r.vc[r.cur]; if(load){ auto it=r.rel.find(a); if(it!=r.rel.end()) vjoin(o&2?c:r.pend[r.cur],it->second); } if(store){ if(o&4){ if(rmw) vjoin(r.rel[a],c); else r.rel[a]=c; if(c.size()<=r.cur) c.resize(r.cur+1,0); c[r.cur]++; } else if(!rmw) r.rel.erase(a); } }
static void raceSched(u64 phase,u64 id){ if(!g_race) return; auto&R=S->race; // 0 submitted, 1 job starts, 2 job ends, 3 all joined
  if(!R){ if(phase!=0) return; R.reset(new Race()); R->vc.assign(1,VC(1,1)); R->pend.resize(1); }
  Race&r=*R; if(phase==0){ if(r.sc.empty()||r.sc.back().owner!=r.cur||r.sc.back().n!=id){ if(id) endPath("unsupported","jobs submitted out of order"); r.sc.push_back({r.cur,(u32)r.vc.size(),0}); } if(r.vc.size()>4000) endPath("limit","number of jobs"); r.sc.back().n++; if(r.sc.back().base+id!=r.vc.size()) endPath("unsupported","scopes of one thread overlap"); VC v=r.vc[r.cur]; v.resize(std::max(v.size(),r.vc.size()+1),0); v[r.vc.size()]=1; r.vc.push_back(v); r.pend.push_back({}); r.vc[r.cur][r.cur]++; g_raceJobs++; return; }
  if(r.sc.empty()||(phase!=3&&r.sc.back().n<=id)) return; Scope&t=r.sc.back();
  if(phase==1) r.cur=t.base+id; else if(phase==2) r.cur=t.owner; else if(t.owner==r.cur){ for(u32 k=0;k<t.n;k++) vjoin(r.vc[r.cur],r.vc[t.base+k]); r.sc.pop_back(); if(r.sc.empty()) R.reset(); } }
static Obj* rd0(u64 a,u64 n,u64&off,const char*what){ Obj**p=slotOf(a); if(!p||!*p) fail("memory",std::string(what)+" through an invalid pointer"); Obj*o=*p; if(o->dead) fail("memory",std::string(what)+" after free"); off=(a&0xffffffffu)-o->off; if(off>o->size||n>o->size-off) fail("memory",std::string(what)+" out of bounds (offset "+std::to_string((i64)off)+" size "+std::to_string(n)+" of object of "+std::to_string(o->size)+" bytes)"); return o; }
static Obj* rd(u64 a,u64 n,u64&off,const char*what){ Obj*o=rd0(a,n,off,what); acc(a,o,off,n,false); return o; }
static Obj* wr(u64 a,u64 n,u64&off,const char*what,bool plain=true){ Obj*o=rd0(a,n,off,what); if(plain) acc(a,o,off,n,true); if(o->ro) fail("memory","write to constant data"); u64 id=a>>32; if(id<ID_HEAP){ u64 i=id-ID_GLOBAL; if(S->glob.size()<=i) S->glob.resize(g_globals.size(),nullptr); if(!S->glob[i]){ Obj*c=new Obj(*o); c->rc=1; S->glob[i]=c; return c; } }
  Obj**p=slotOf(a); if(o->rc>1){ Obj*c=new Obj(*o); c->rc=1; o->rc--; *p=c; o=c; } return o; }
static Expr* byteE(const SB&s){ Expr*e=s.e; return e->w==8?e:mkExtract(e,s.i*8+7,s.i*8); }
static Val loadInt(Obj*o,u64 off,unsigned w){
  unsigned n=(w+7)/8; if(o->s.empty()){ if(n<=8){ u64 v=0; memcpy(&v,&o->b[off],n); return {v&mask64(w),nullptr}; } u128 v=0; memcpy(&v,&o->b[off],n); return {0,mkConst(v,w)}; }
  SB*s=o->s.data()+off; bool any=false; for(unsigned i=0;i<n;i++) if(s[i].e){ any=true; if(s[i].e==UNINIT){ static u32 un=0; Expr*v=mkVar("uninit",un++,8); s[i]={v,0}; } }
  if(!any){ if(n<=8){ u64 v=0; memcpy(&v,&o->b[off],n); return {v&mask64(w),nullptr}; } u128 v=0; memcpy(&v,&o->b[off],n); return {0,mkConst(v,w)}; }
  Expr*e0=s[0].e; if(e0&&s[0].i==0&&e0->w==n*8){ bool ok=true; for(unsigned i=1;i<n;i++) if(s[i].e!=e0||s[i].i!=i){ok=false;break;} if(ok) return fromE(w==n*8?e0:mkTrunc(e0,w)); }
  std::vector<Expr*> k; for(int i=n-1;i>=0;i--) k.push_back(s[i].e?byteE(s[i]):mkConst(o->b[off+i],8));
  Expr*r=mkConcat(k); if(w!=n*8) r=mkTrunc(r,w); return fromE(r); }
static void storeInt(Obj*o,u64 off,unsigned w,const Val&v){
  unsigned n=(w+7)/8; if(!v.e){ memcpy(&o->b[off],&v.v,n>8?8:n); if(!o->s.empty()) for(unsigned i=0;i<n;i++) o->s[off+i].e=nullptr; if(n>8) memset(&o->b[off+8],0,n-8); return; }
  Expr*e=v.e; if(e->isc()){ u128 c=e->c; memcpy(&o->b[off],&c,n); if(!o->s.empty()) for(unsigned i=0;i<n;i++) o->s[off+i].e=nullptr; return; }
  if(w!=n*8) e=mkZext(e,n*8); SB*s=o->sym()+off; for(unsigned i=0;i<n;i++) s[i]={e,i}; }
static u64 newHeap(u64 size,u64 align,bool zero){ Obj*o=new Obj(); o->size=size; o->heap=true; o->off=align<=16?16:align; o->b.assign(size,0); if(!zero&&size) o->s.assign(size,SB{UNINIT,0}); S->heap.push_back(o); return addrOf(ID_HEAP+S->heap.size()-1,o); }
static void freeHeap(u64 a){ if(!a) return; Obj**p=slotOf(a); if(!p||!*p||!(*p)->heap||(*p)->dead||(a&0xffffffffu)!=(*p)->off) fail("memory","invalid or double free"); acc(a,*p,0,(*p)->size,true); Obj*d=new Obj(); d->dead=true; d->heap=true; d->off=(*p)->off; if(--(*p)->rc==0) delete *p; *p=d; }
static std::string cstr(u64 a){ std::string r; for(int i=0;i<4000;i++){ u64 off; Obj*o=rd(a+i,1,off,"string read"); char c=o->b[off]; if(!c) break; r+=c; } return r; }
static std::string strn(u64 a,u64 n){ std::string r; if(n>300) n=300; for(u64 i=0;i<n;i++){ Obj**p=slotOf(a+i); if(!p||!*p) return r; u64 off=((a+i)&0xffffffffu)-(*p)->off; if(off>=(*p)->size) return r; r+=(char)(*p)->b[off]; } return r; }
static void copyMem(u64 d,u64 s,u64 n){ if(!n) return; u64 so,dof; Obj*a=rd(s,n,so,"copy read"); std::vector<u8> tb(a->b.begin()+so,a->b.begin()+so+n); std::vector<SB> ts; if(!a->s.empty()) ts.assign(a->s.begin()+so,a->s.begin()+so+n); Obj*o=wr(d,n,dof,"copy write"); memcpy(&o->b[dof],tb.data(),n); if(!ts.empty()){ bool any=false; for(auto&x:ts) if(x.e){any=true;break;} if(any){ SB*q=o->sym()+dof; std::copy(ts.begin(),ts.end(),q); return; } } if(!o->s.empty()) for(u64 i=0;i<n;i++) o->s[dof+i].e=nullptr; }

// ------------------------------------------------------------------ symbolic addresses
// returns leaves of type t loaded at symbolic address a
static void loadLeaves(u64 a,Type*t,u64 al,std::vector<Val>&out){ if(al>1&&(a%al)) fail("memory","misaligned load (address not a multiple of "+std::to_string(al)+")"); u64 off; Obj*o=rd(a,t->size,off,"read"); for(size_t i=0;i<t->leafw.size();i++) out.push_back(loadInt(o,off+t->leafoff[i],t->leafw[i])); }
static Expr* muxTree(Expr*idx,unsigned w,u64 lo,u64 hi,const std::function<Expr*(u64)>&leaf){ // idx known within [lo,hi]
  std::function<Expr*(int,u64)> go=[&](int bit,u64 pref)->Expr*{ // all values with this prefix above 'bit'
    u64 a=pref,b=pref+((bit>=63)?~0ull:((2ull<<bit)-1)); if(bit<0){ a=b=pref; } if(b<lo||a>hi) return nullptr; if(bit<0) return leaf(pref); Expr*bb=mkExtract(idx,bit,bit); if(bb->isc()) return go(bit-1,bb->c?pref|(1ull<<bit):pref); Expr*h=go(bit-1,pref|(1ull<<bit)),*l=go(bit-1,pref); if(!h) return l; if(!l) return h; if(h==l) return h; return mkIte(bb,h,l); };
  return go((int)w-1,0); }
static Val symLoad(Expr*a,unsigned w,u64 al){
  if(a->isc()){ u64 ad=(u64)a->c; if(al>1&&ad%al) fail("memory","misaligned load"); u64 off; Obj*o=rd(ad,(w+7)/8,off,"read"); return loadInt(o,off,w); }
  unsigned nb=(w+7)/8;
  if(a->op==O_ITE&&(a->k[1]->isc()||a->k[2]->isc()||a->constleaf)){ Expr*c=a->k[0]; bool cv=evalBool(c,S->model); ModelP m; // both sides must be feasible to be loaded safely
    int r=solve(S->pc,cv?mkNot(c):c,S->model,&m); if(r==0) return symLoad(cv?a->k[1]:a->k[2],w,al);
    if(r==1){ // evaluate each side under its own assumption
      size_t n=S->pc.size(); ModelP m0=S->model; Expr*p1=cv?c:mkNot(c); S->pc.push_back(p1); Val x=symLoad(cv?a->k[1]:a->k[2],w,al); S->pc.resize(n); S->pc.push_back(mkNot(p1)); S->model=m; Val y=symLoad(cv?a->k[2]:a->k[1],w,al); S->pc.resize(n); S->model=m0; Expr*ex=toE(x,w),*ey=toE(y,w); return fromE(cv?mkIte(c,ex,ey):mkIte(c,ey,ex)); }
  }
  u64 va=(u64)evalM(a,S->model); Obj**p=slotOf(va); if(!p||!*p||(*p)->dead) fail("memory","read through an invalid symbolic pointer"); Obj*o=*p; u64 base=(va&~0xffffffffull)+o->off; if(o->size<nb) fail("memory","read out of bounds"); Expr*off=mkSub(a,mkConst(base,64)); u64 lim=o->size-nb;
  Expr*inb=mkUle(off,mkConst(lim,64)); u64 vo=va-base; if(vo>lim) fail("memory","read out of bounds (symbolic index, offset "+std::to_string((i64)vo)+" of "+std::to_string(o->size)+")");
  if(!(inb->isc()&&inb->c)){ ModelP m; int r=solve(S->pc,mkNot(inb),S->model,&m); if(r<0) incon("bounds check of a symbolic read undecided"); if(r==1){ u64 na=(u64)evalM(a,m); Obj**q=slotOf(na); u64 no=0; bool ok=q&&*q&&!(*q)->dead; if(ok){ no=(na&0xffffffffu)-(*q)->off; ok=no<=(*q)->size&&nb<=(*q)->size-no; } if(!ok){ violation("memory","read out of bounds (symbolic index)",m,mkNot(inb)); } queueIf(mkNot(inb)); addPc(inb); } }
  // single atom with constant stride
  Expr*lin=off; bool z=false; while(lin->op==O_ZEXT||lin->op==O_SEXT){ z=true; lin=lin->k[0]; } (void)z;
  Expr*atom=nullptr; std::function<bool(u64,u64&)> mapv; u64 k=0; i64 cc=0; i64 cf=1;
  if(off->w==64){ Expr*x=off; std::vector<std::pair<Expr*,i64>> t; if(lin->op==O_LIN){ for(u32 i=0;i<lin->nk;i++) t.push_back({lin->k[i],sx(lin->cf[i],lin->w)}); cc=sx((u64)lin->c,lin->w); } else t.push_back({x,1}); if(t.size()==1){ atom=t[0].first; cf=t[0].second; } }
  if(atom){ Expr*core=atom; bool sg=false; while(core->op==O_ZEXT||core->op==O_SEXT){ if(core->op==O_SEXT&&core->k[0]->lo<0) sg=true; core=core->k[0]; if(sg) break; } Expr*idx=core; unsigned iw=idx->w; u64 tz=0; // strip trailing constant zeros
    if(!sg&&iw<=16){ u64 lo=~0ull,hi=0; // feasible index interval by arithmetic
      std::vector<std::pair<u64,u64>> ok; for(u64 v=0;v<(1ull<<iw);v++){ u64 o2=(u64)(cc+(i64)v*cf); if(o2<=lim){ lo=std::min(lo,v); hi=std::max(hi,v); } }
      if(lo<=hi){ Obj*ob=o; Expr*r=muxTree(idx,iw,lo,hi,[&](u64 v)->Expr*{ u64 o2=(u64)(cc+(i64)v*cf); if(o2>lim) return nullptr; return toE(loadInt(ob,o2,w),w); }); if(r){ acc(base,o,0,o->size,false); return fromE(r); } } } (void)tz; (void)k; }
  // general: concretize
  u64 c=concretize(a); u64 of2; Obj*o2=rd(c,nb,of2,"read"); return loadInt(o2,of2,w); }

// ------------------------------------------------------------------ operands
static inline const Val* opv(const Opnd&o){ return o.slot>=0? &S->sl[S->fr.back().base+o.slot] : o.cv->data(); }
static inline const Val& op0(const Opnd&o){ return *opv(o); }
static u64 copnd(Opnd&o){ const Val&v=op0(o); if(!v.e) return v.v; return concretize(v.e); }

// sample of evaluated instructions (operands as built, result as normalised), audited at the end of the job
static void aud(u8 k,Expr*x,Expr*y,Expr*z,Expr*r){ static u64 n=0,s=0x2545F4914F6CDD1Dull; n++; const size_t cap=160; if(x->isc()&&(!y||y->isc())&&(!z||z->isc())) return; if(g_audit.size()<cap){ g_audit.push_back({k,x,y,z,r}); return; } s^=s<<13; s^=s>>7; s^=s<<17; u64 i=s%n; if(i<cap) g_audit[i]={k,x,y,z,r}; }
static Val bin(IOp op,unsigned w,const Val&a,const Val&b){
  if(!a.e&&!b.e&&w<=64){ u64 x=a.v,y=b.v,m=mask64(w),r=0; switch(op){ case I_ADD:r=x+y;break; case I_SUB:r=x-y;break; case I_MUL:r=x*y;break; case I_AND:r=x&y;break; case I_OR:r=x|y;break; case I_XOR:r=x^y;break;
      case I_UDIV: if(!y) fail("memory","division by zero"); r=x/y;break; case I_UREM: if(!y) fail("memory","division by zero"); r=x%y;break;
      case I_SDIV: { i64 s=sx(x,w),t=sx(y,w); if(!t) fail("memory","division by zero"); r=(t==-1)?0-(u64)s:(u64)(s/t); break; } case I_SREM:{ i64 s=sx(x,w),t=sx(y,w); if(!t) fail("memory","division by zero"); r=t==-1?0:(u64)(s%t); break; }
      case I_SHL:r=y>=w?0:x<<y;break; case I_LSHR:r=y>=w?0:x>>y;break; case I_ASHR:{ i64 s=sx(x,w); r=(u64)(y>=w?(s<0?-1:0):s>>y);break;} default: break; } return {r&m,nullptr}; }
  Expr*x=toE(a,w),*y=toE(b,w); Expr*r=nullptr;
  switch(op){ case I_ADD:r=mkAdd(x,y);break; case I_SUB:r=mkSub(x,y);break; case I_MUL:r=mkMul(x,y);break; case I_AND:r=mkBin(O_AND,x,y);break; case I_OR:r=mkBin(O_OR,x,y);break; case I_XOR:r=mkBin(O_XOR,x,y);break;
    case I_UDIV:case I_SDIV:case I_UREM:case I_SREM: { Expr*z=mkEq(y,mkConst(0,w)); if(!z->isc()){ ModelP m; int q=solve(S->pc,z,S->model,&m); if(q==1){ violation("panic","division by zero",m,z); queueIf(z); } addPc(mkNot(z)); } else if(z->c) fail("panic","division by zero"); r=mkBin(op==I_UDIV?O_UDIV:op==I_SDIV?O_SDIV:op==I_UREM?O_UREM:O_SREM,x,y); break; }
    case I_SHL:case I_LSHR:case I_ASHR: { if(!y->isc()){ u64 c=concretize(y); y=mkConst(c,w); } r=mkBin(op==I_SHL?O_SHL:op==I_LSHR?O_LSHR:O_ASHR,x,y); break; } default: abort(); }
 Op k; switch(op){ case I_ADD:k=O_ADDW;break; case I_SUB:k=O_LIN;break; case I_MUL:k=O_MUL;break; case I_AND:k=O_AND;break; case I_OR:k=O_OR;break; case I_XOR:k=O_XOR;break; case I_UDIV:k=O_UDIV;break; case I_SDIV:k=O_SDIV;break; case I_UREM:k=O_UREM;break; case I_SREM:k=O_SREM;break; case I_SHL:k=O_SHL;break; case I_LSHR:k=O_LSHR;break; default:k=O_ASHR; }
  aud(k,x,y,nullptr,r); return fromE(r); }
static Val icmp(u8 p,unsigned w,const Val&a,const Val&b){
  if(!a.e&&!b.e&&w<=64){ u64 x=a.v,y=b.v; i64 s=sx(x,w),t=sx(y,w); bool r=false; switch(p){ case P_EQ:r=x==y;break; case P_NE:r=x!=y;break; case P_UGT:r=x>y;break; case P_UGE:r=x>=y;break; case P_ULT:r=x<y;break; case P_ULE:r=x<=y;break; case P_SGT:r=s>t;break; case P_SGE:r=s>=t;break; case P_SLT:r=s<t;break; case P_SLE:r=s<=t;break; } return {(u64)r,nullptr}; }
  Expr*x=toE(a,w),*y=toE(b,w),*r=nullptr; switch(p){ case P_EQ:r=mkEq(x,y);break; case P_NE:r=mkNot(mkEq(x,y));break; case P_UGT:r=mkUlt(y,x);break; case P_UGE:r=mkUle(y,x);break; case P_ULT:r=mkUlt(x,y);break; case P_ULE:r=mkUle(x,y);break; case P_SGT:r=mkSlt(y,x);break; case P_SGE:r=mkSle(y,x);break; case P_SLT:r=mkSlt(x,y);break; case P_SLE:r=mkSle(x,y);break; }
  aud(100+p,x,y,nullptr,r); return fromE(r); }
static Val zx(const Val&v,unsigned fw,unsigned w){ if(!v.e&&w<=64) return v; Expr*x=toE(v,fw),*r=mkZext(x,w); aud(O_ZEXT,x,nullptr,nullptr,r); return fromE(r); }
static Val sxv(const Val&v,unsigned fw,unsigned w){ if(!v.e&&w<=64) return {(u64)sx(v.v,fw)&mask64(w),nullptr}; Expr*x=toE(v,fw),*r=mkSext(x,w); aud(O_SEXT,x,nullptr,nullptr,r); return fromE(r); }
static Val tr(const Val&v,unsigned fw,unsigned w){ if(!v.e) return {v.v&mask64(w),nullptr}; Expr*x=toE(v,fw),*r=mkTrunc(x,w); aud(O_EXTRACT,x,nullptr,nullptr,r); return fromE(r); }

// bit-level reinterpretation between flattened leaf lists
static void bitcast(const Val*src,const std::vector<u16>&sw,const std::vector<u16>&dw,Val*dst){
  if(sw==dw){ for(size_t i=0;i<sw.size();i++) dst[i]=src[i]; return; }
  size_t si=0; unsigned sp=0; for(size_t d=0;d<dw.size();d++){ unsigned need=dw[d]; bool conc=need<=64; std::vector<Expr*> parts; u64 cv=0; unsigned cp=0; // collect from lsb
    std::vector<std::pair<size_t,std::pair<unsigned,unsigned>>> pieces; unsigned left=need; while(left){ unsigned av=sw[si]-sp,t=std::min(av,left); pieces.push_back({si,{sp,t}}); if(src[si].e) conc=false; left-=t; sp+=t; if(sp==sw[si]){ si++; sp=0; } }
    if(conc){ for(auto&p:pieces){ u64 v=src[p.first].v>>p.second.first; v&=mask64(p.second.second); cv|=cp>=64?0:v<<cp; cp+=p.second.second; } dst[d]={cv,nullptr}; }
    else { for(auto it=pieces.rbegin();it!=pieces.rend();++it){ Expr*e=toE(src[it->first],sw[it->first]); parts.push_back(mkExtract(e,it->second.first+it->second.second-1,it->second.first)); } dst[d]=fromE(parts.size()==1?parts[0]:mkConcat(parts)); } } }

// ------------------------------------------------------------------ calls
static void take(Edge&e){ Frame&f=S->fr.back(); Val*b=&S->sl[f.base]; if(e.simple){ for(auto&c:e.copies){ const Val*s=c.src.slot>=0?b+c.src.slot:c.src.cv->data(); for(u32 i=0;i<c.n;i++) b[c.dst+i]=s[i]; } } else { static std::vector<Val> tmp; tmp.clear(); for(auto&c:e.copies){ const Val*s=c.src.slot>=0?b+c.src.slot:c.src.cv->data(); tmp.insert(tmp.end(),s,s+c.n); } size_t k=0; for(auto&c:e.copies) for(u32 i=0;i<c.n;i++) b[c.dst+i]=tmp[k++]; } f.bb=e.bb; f.ip=0; }
static void pushFrame(Func*f,const std::vector<Val>&args,int dst,u32 dn,Edge*inv){ if(!f->decoded) decodeFunc(f); f->calls++; if(S->fr.size()>2000) fail("panic","stack overflow (recursion)"); Frame n; n.f=f; n.base=S->sl.size(); n.dst=dst; n.dn=dn; n.inv=inv; n.smark=S->stack.size(); S->sl.resize(n.base+f->nslots); size_t k=0; for(size_t i=0;i<f->params.size();i++) for(u32 j=0;j<f->pn[i];j++) S->sl[n.base+f->params[i]+j]=args[k++]; S->fr.push_back(n); }
static void setRes(Inst&I,size_t k,const Val&v){ S->sl[S->fr.back().base+I.dst+k]=v; }
enum X { X_NONE,X_NOP,X_MEMCPY,X_MEMSET,X_BCMP,X_MEMCMP,X_STRLEN,X_MALLOC,X_CALLOC,X_REALLOC,X_FREE,X_MEMALIGN,X_ALIGNEDALLOC,X_UMIN,X_UMAX,X_SMIN,X_SMAX,X_ABS,X_CTLZ,X_CTTZ,X_CTPOP,X_BSWAP,X_BITREV,X_FSHL,X_FSHR,X_USUBSAT,X_UADDSAT,X_SSUBSAT,X_SADDSAT,X_UADDO,X_USUBO,X_UMULO,X_SADDO,X_SSUBO,X_SMULO,X_UCMP,X_SCMP,X_ISCONST,X_LOADREL,X_TLS,X_PACKSSDW,X_PACKUSWB,X_PACKUSDW,X_PACKSSWB,X_XGETBV,X_ABORT,X_PANIC,X_FORMAT,X_EXPECT,X_PMADDWD,X_PMULHW,X_PMULHUW,X_PSHUFB,X_PSADBW,X_PAVG,X_RED_ADD,X_RED_OR,X_RED_AND,X_RED_XOR,X_RED_UMAX,X_RED_UMIN,X_RED_SMAX,X_RED_SMIN,X_WRITE,X_GETENV,X_PTEST,X_PHADD,X_PMULHRSW,
  Z_MAKE,Z_ASSUME,Z_ASSERT,Z_NEAR,Z_COVER,Z_PARAM,Z_LOG,Z_CHOOSE,Z_CONC,Z_ISSYM,Z_JOB,X_ALIAS,X_ZERO,X_CLOCK, X_UNKNOWN };
static bool has(const std::string&s,const char*t){ return s.find(t)!=std::string::npos; }
static int classify(Func*f){ const std::string&n=f->name; auto st=[&](const char*p){ return !n.compare(0,strlen(p),p); };
  static const std::map<std::string,int> ex={{"@malloc",X_MALLOC},{"@calloc",X_CALLOC},{"@realloc",X_REALLOC},{"@free",X_FREE},{"@posix_memalign",X_MEMALIGN},{"@aligned_alloc",X_ALIGNEDALLOC},{"@bcmp",X_BCMP},{"@memcmp",X_MEMCMP},{"@strlen",X_STRLEN},{"@abort",X_ABORT},{"@write",X_WRITE},{"@getenv",X_GETENV},{"@memcpy",X_MEMCPY},{"@memmove",X_MEMCPY},{"@memset",X_MEMSET},
    {"@__cxa_thread_atexit_impl",X_ZERO},{"@__cxa_atexit",X_ZERO},{"@pthread_setspecific",X_ZERO},{"@pthread_key_delete",X_ZERO},{"@pthread_mutex_init",X_ZERO},{"@pthread_mutex_lock",X_ZERO},{"@pthread_mutex_unlock",X_ZERO},{"@pthread_mutex_destroy",X_ZERO},{"@pthread_cond_signal",X_ZERO},{"@pthread_cond_broadcast",X_ZERO},{"@pthread_cond_destroy",X_ZERO},{"@sched_yield",X_ZERO},{"@clock_gettime",X_CLOCK}, // process services the result does not depend on
    {"@zs_make",Z_MAKE},{"@zs_assume",Z_ASSUME},{"@zs_assert",Z_ASSERT},{"@zs_near",Z_NEAR},{"@zs_cover",Z_COVER},{"@zs_param",Z_PARAM},{"@zs_log",Z_LOG},{"@zs_choose",Z_CHOOSE},{"@zs_conc",Z_CONC},{"@zs_issym",Z_ISSYM},{"@zs_job",Z_JOB}};
  auto it=ex.find(n); if(it!=ex.end()) return it->second;
  if(has(n,"9panicking9panic_fmt")||has(n,"panic_nounwind_fmt")||has(n,"18panic_nounwind")||has(n,"9panicking14panic_nounwind")||has(n,"rust_panic")||has(n,"handle_alloc_error")||has(n,"begin_panic_handler")||has(n,"panic_cannot_unwind")||has(n,"rust_begin_unwind")||has(n,"process5abort")||has(n,"intrinsics5abort")||n=="@llvm.trap"||n=="@llvm.ubsantrap") return X_PANIC;
  if(has(n,"3fmt6format12format_inner")) return X_FORMAT;
  if(f->defined) return X_NONE;
  if(st("@llvm.lifetime")||st("@llvm.assume")||st("@llvm.dbg")||st("@llvm.experimental.noalias")||st("@llvm.x86.sse2.pause")||st("@llvm.prefetch")||st("@llvm.donothing")||st("@llvm.x86.avx.vzeroupper")||st("@llvm.x86.avx.vzeroall")||st("@llvm.x86.sse.sfence")||st("@llvm.x86.sse2.lfence")||st("@llvm.x86.sse2.mfence")||st("@llvm.invariant")||st("@llvm.va_")||st("@llvm.stackrestore")) return X_NOP;
  { auto z=M.funcs.find("@zs_sys_"+(n=="@__errno_location"?"errno":n.substr(1))); if(z!=M.funcs.end()&&z->second->defined) return X_ALIAS; } // system calls: stand-ins in harness/src/sys.rs
  struct P{const char*p;int x;}; static const P ps[]={{"@llvm.memcpy",X_MEMCPY},{"@llvm.memmove",X_MEMCPY},{"@llvm.memset",X_MEMSET},{"@llvm.umin",X_UMIN},{"@llvm.umax",X_UMAX},{"@llvm.smin",X_SMIN},{"@llvm.smax",X_SMAX},{"@llvm.abs",X_ABS},{"@llvm.ctlz",X_CTLZ},{"@llvm.cttz",X_CTTZ},{"@llvm.ctpop",X_CTPOP},{"@llvm.bswap",X_BSWAP},{"@llvm.bitreverse",X_BITREV},{"@llvm.fshl",X_FSHL},{"@llvm.fshr",X_FSHR},{"@llvm.usub.sat",X_USUBSAT},{"@llvm.uadd.sat",X_UADDSAT},{"@llvm.ssub.sat",X_SSUBSAT},{"@llvm.sadd.sat",X_SADDSAT},{"@llvm.uadd.with",X_UADDO},{"@llvm.usub.with",X_USUBO},{"@llvm.umul.with",X_UMULO},{"@llvm.sadd.with",X_SADDO},{"@llvm.ssub.with",X_SSUBO},{"@llvm.smul.with",X_SMULO},{"@llvm.ucmp",X_UCMP},{"@llvm.scmp",X_SCMP},{"@llvm.is.constant",X_ISCONST},{"@llvm.load.relative",X_LOADREL},{"@llvm.threadlocal.address",X_TLS},{"@llvm.expect",X_EXPECT},
    {"@llvm.x86.sse2.packssdw",X_PACKSSDW},{"@llvm.x86.avx2.packssdw",X_PACKSSDW},{"@llvm.x86.sse2.packuswb",X_PACKUSWB},{"@llvm.x86.avx2.packuswb",X_PACKUSWB},{"@llvm.x86.sse41.packusdw",X_PACKUSDW},{"@llvm.x86.avx2.packusdw",X_PACKUSDW},{"@llvm.x86.sse2.packsswb",X_PACKSSWB},{"@llvm.x86.avx2.packsswb",X_PACKSSWB},{"@llvm.x86.xgetbv",X_XGETBV},{"@llvm.x86.sse2.pmadd.wd",X_PMADDWD},{"@llvm.x86.avx2.pmadd.wd",X_PMADDWD},{"@llvm.x86.sse2.pmulh.w",X_PMULHW},{"@llvm.x86.avx2.pmulh.w",X_PMULHW},{"@llvm.x86.sse2.pmulhu.w",X_PMULHUW},{"@llvm.x86.avx2.pmulhu.w",X_PMULHUW},{"@llvm.x86.ssse3.pshuf.b",X_PSHUFB},{"@llvm.x86.avx2.pshuf.b",X_PSHUFB},{"@llvm.x86.sse2.pavg",X_PAVG},{"@llvm.x86.avx2.pavg",X_PAVG},{"@llvm.x86.ssse3.pmul.hr.sw",X_PMULHRSW},{"@llvm.x86.avx2.pmul.hr.sw",X_PMULHRSW},
    {"@llvm.vector.reduce.add",X_RED_ADD},{"@llvm.vector.reduce.or",X_RED_OR},{"@llvm.vector.reduce.and",X_RED_AND},{"@llvm.vector.reduce.xor",X_RED_XOR},{"@llvm.vector.reduce.umax",X_RED_UMAX},{"@llvm.vector.reduce.umin",X_RED_UMIN},{"@llvm.vector.reduce.smax",X_RED_SMAX},{"@llvm.vector.reduce.smin",X_RED_SMIN},{"@llvm.x86.sse41.ptest",X_PTEST},{"@llvm.x86.avx.ptest",X_PTEST}};
  for(auto&p:ps) if(st(p.p)) return p.x; return X_UNKNOWN; }
static std::map<std::string,std::vector<Expr*>> g_symvars; // name#occ -> elements
static void doAssert(Expr*ok,const std::string&msg){ if(g_race) return; g_assertT++; if(ok->isc()){ if(!ok->c) fail("assert",msg); return; } if(!evalBool(ok,S->model)) fail("assert",msg); g_assertQ++; ModelP m; int r=solve(S->pc,mkNot(ok),S->model,&m); if(r==1){ violation("assert",msg,m,mkNot(ok)); endPath("violation",msg); } if(r<0) incon("assertion undecided: "+msg); }
static Expr* satClamp(Expr*x,unsigned to,bool uns){ i64 lo=uns?0:-(1ll<<(to-1)),hi=uns?(1ll<<to)-1:(1ll<<(to-1))-1; return mkTrunc(mkClamp(x,lo,hi),to); }

static bool external(Inst&I,Func*f,int x,std::vector<Opnd>&A,size_t a0){ // executes and advances; returns false if frame changed
  auto arg=[&](size_t i)->const Val&{ return op0(A[a0+i]); }; auto C=[&](size_t i)->u64{ return copnd(A[a0+i]); };
  auto tw=[&](size_t i){ Type*t=A[a0+i].t; return t->k==Type::VEC?(unsigned)t->el->w:(unsigned)t->w; };
  auto cnt=[&](size_t i){ return A[a0+i].t->leafw.size(); };
  switch(x){
    case X_NOP: return true;
    case X_MEMCPY: { u64 n=C(2); if(n){ u64 d=C(0),s=C(1); copyMem(d,s,n);} if(I.dst>=0) setRes(I,0,arg(0)); return true; }
    case X_MEMSET: { u64 n=C(2); if(n){ u64 d=C(0); Val v=arg(1); u64 off; Obj*o=wr(d,n,off,"memset"); if(!v.e){ memset(&o->b[off],(int)v.v,n); if(!o->s.empty()){ if(off==0&&n==o->size) o->s.clear(); else for(u64 i=0;i<n;i++) o->s[off+i].e=nullptr; } } else { Expr*e=v.e->w==8?v.e:mkTrunc(v.e,8); SB*q=o->sym()+off; for(u64 i=0;i<n;i++) q[i]={e,0}; } } if(I.dst>=0) setRes(I,0,arg(0)); return true; }
    case X_BCMP: case X_MEMCMP: { u64 n=C(2); if(!n){ setRes(I,0,{0,nullptr}); return true; } u64 a=C(0),b=C(1); u64 oa,ob; Obj*p=rd(a,n,oa,"memcmp"),*q=rd(b,n,ob,"memcmp"); Expr*r=mkConst(0,32); for(i64 i=n-1;i>=0;i--){ Expr*u=toE(loadInt(p,oa+i,8),8),*v=toE(loadInt(q,ob+i,8),8); Expr*eq=mkEq(u,v); r=mkIte(eq,r,x==X_BCMP?mkConst(1,32):mkIte(mkUlt(u,v),mkConst((u128)(u32)-1,32),mkConst(1,32))); } setRes(I,0,fromE(r)); return true; }
    case X_STRLEN: { u64 a=C(0); setRes(I,0,{(u64)cstr(a).size(),nullptr}); return true; }
    case X_MALLOC: { u64 n=C(0); if(n>(1ull<<30)) { setRes(I,0,{0,nullptr}); incon("allocation of more than 1 GiB"); endPath("limit","huge allocation"); } setRes(I,0,{newHeap(n,16,false),nullptr}); return true; }
    case X_CALLOC: { u64 n=C(0)*C(1); if(n>(1ull<<30)) endPath("limit","huge allocation"); setRes(I,0,{newHeap(n,16,true),nullptr}); return true; }
    case X_MEMALIGN: { u64 p=C(0),al=C(1),n=C(2); if(n>(1ull<<30)) endPath("limit","huge allocation"); u64 a=newHeap(n,al,false); u64 off; Obj*o=wr(p,8,off,"posix_memalign"); storeInt(o,off,64,{a,nullptr}); setRes(I,0,{0,nullptr}); return true; }
    case X_ALIGNEDALLOC: { u64 al=C(0),n=C(1); setRes(I,0,{newHeap(n,al,false),nullptr}); return true; }
    case X_REALLOC: { u64 p=C(0),n=C(1); if(n>(1ull<<30)) endPath("limit","huge allocation"); u64 a=newHeap(n,16,false); if(p){ Obj**q=slotOf(p); if(!q||!*q||(*q)->dead) fail("memory","realloc of an invalid pointer"); copyMem(a,p,std::min(n,(*q)->size)); freeHeap(p); } setRes(I,0,{a,nullptr}); return true; }
    case X_FREE: { u64 p=C(0); freeHeap(p); return true; }
    case X_UMIN: case X_UMAX: case X_SMIN: case X_SMAX: { unsigned w=tw(0); size_t n=cnt(0); std::vector<Val> r(n); const Val*a=opv(A[a0]),*b=opv(A[a0+1]); for(size_t i=0;i<n;i++){ if(!a[i].e&&!b[i].e&&w<=64){ u64 u=a[i].v,v=b[i].v; bool lt=(x==X_UMIN||x==X_UMAX)?u<v:sx(u,w)<sx(v,w); r[i]={((x==X_UMIN||x==X_SMIN)==lt)?u:v,nullptr}; } else { Expr*u=toE(a[i],w),*v=toE(b[i],w); r[i]=fromE(x==X_UMIN?mkUmin(u,v):x==X_UMAX?mkUmax(u,v):x==X_SMIN?mkSmin(u,v):mkSmax(u,v)); } } for(size_t i=0;i<n;i++) setRes(I,i,r[i]); return true; }
    case X_ABS: { unsigned w=tw(0); size_t n=cnt(0); std::vector<Val> r(n); const Val*a=opv(A[a0]); for(size_t i=0;i<n;i++){ Expr*e=toE(a[i],w); r[i]=fromE(mkIte(mkSlt(e,mkConst(0,w)),mkNeg(e),e)); } for(size_t i=0;i<n;i++) setRes(I,i,r[i]); return true; }
    case X_CTLZ: case X_CTTZ: case X_CTPOP: case X_BITREV: case X_BSWAP: { unsigned w=tw(0); size_t n=cnt(0); std::vector<Val> r(n); const Val*a=opv(A[a0]); for(size_t i=0;i<n;i++){ Val v=a[i]; Expr*e=toE(v,w); Expr*q=nullptr;
          if(x==X_BSWAP){ std::vector<Expr*> k; for(unsigned j=0;j<w;j+=8) k.push_back(mkExtract(e,j+7,j)); q=mkConcat(k); }
          else if(x==X_BITREV){ std::vector<Expr*> k; for(unsigned j=0;j<w;j++) k.push_back(mkExtract(e,j,j)); q=mkConcat(k); }
          else if(x==X_CTPOP){ q=mkConst(0,w); for(unsigned j=0;j<w;j++) q=mkAdd(q,mkZext(mkExtract(e,j,j),w)); }
          else { q=mkConst(w,w); if(x==X_CTLZ) for(unsigned j=0;j<w;j++) q=mkIte(mkExtract(e,j,j),mkConst(w-1-j,w),q); else for(int j=w-1;j>=0;j--) q=mkIte(mkExtract(e,j,j),mkConst(j,w),q); }
          r[i]=fromE(q); } for(size_t i=0;i<n;i++) setRes(I,i,r[i]); return true; }
    case X_FSHL: case X_FSHR: { unsigned w=tw(0); size_t n=cnt(0); std::vector<Val> r(n); for(size_t i=0;i<n;i++){ Val sh=opv(A[a0+2])[i]; u64 s=conc(sh)%w; Expr*u=toE(opv(A[a0])[i],w),*v=toE(opv(A[a0+1])[i],w); Expr*q; if(x==X_FSHL) q=s==0?u:mkBin(O_OR,mkBin(O_SHL,u,mkConst(s,w)),mkBin(O_LSHR,v,mkConst(w-s,w))); else q=s==0?v:mkBin(O_OR,mkBin(O_LSHR,v,mkConst(s,w)),mkBin(O_SHL,u,mkConst(w-s,w))); r[i]=fromE(q); } for(size_t i=0;i<n;i++) setRes(I,i,r[i]); return true; }
    case X_USUBSAT: case X_UADDSAT: case X_SSUBSAT: case X_SADDSAT: { unsigned w=tw(0); size_t n=cnt(0); std::vector<Val> r(n); for(size_t i=0;i<n;i++){ Expr*u=toE(opv(A[a0])[i],w),*v=toE(opv(A[a0+1])[i],w); Expr*q; if(x==X_USUBSAT) q=mkIte(mkUlt(u,v),mkConst(0,w),mkSub(u,v)); else if(x==X_UADDSAT){ Expr*s=mkAdd(u,v); q=mkIte(mkUlt(s,u),mkConst(maskw(w),w),s); } else { Expr*U=mkSext(u,w+1),*V=mkSext(v,w+1); Expr*s=x==X_SADDSAT?mkAdd(U,V):mkSub(U,V); if(w+1<=64) q=satClamp(s,w,false); else { Expr*hi=mkConst(maskw(w)>>1,w+1),*lo=mkConst((u128)0-((u128)1<<(w-1)),w+1); q=mkTrunc(mkIte(mkSlt(hi,s),hi,mkIte(mkSlt(s,lo),lo,s)),w); } } r[i]=fromE(q); } for(size_t i=0;i<n;i++) setRes(I,i,r[i]); return true; }
    case X_UADDO: case X_USUBO: case X_UMULO: case X_SADDO: case X_SSUBO: case X_SMULO: { unsigned w=tw(0); Val a=arg(0),b=arg(1); if(!a.e&&!b.e&&w<=64){ u128 u=a.v,v=b.v; i128 s=sx(a.v,w),t=sx(b.v,w); u64 r; bool o; if(x==X_UADDO){ u128 z=u+v; r=(u64)z; o=z>mask64(w);} else if(x==X_USUBO){ r=(u64)(u-v); o=u<v; } else if(x==X_UMULO){ u128 z=u*v; r=(u64)z; o=z>mask64(w);} else { i128 z=x==X_SADDO?s+t:x==X_SSUBO?s-t:s*t; r=(u64)z; o=z<-((i128)1<<(w-1))||z>((i128)1<<(w-1))-1; } setRes(I,0,{r&mask64(w),nullptr}); setRes(I,1,{(u64)o,nullptr}); return true; }
      Expr*u=toE(a,w),*v=toE(b,w); unsigned W=(x==X_UMULO||x==X_SMULO)?2*w:w+1; if(W>128){ u64 k=conc(b); (void)k; throw Restart{}; } bool sg=x>=X_SADDO; Expr*U=sg?mkSext(u,W):mkZext(u,W),*V=sg?mkSext(v,W):mkZext(v,W); Expr*z=(x==X_UADDO||x==X_SADDO)?mkAdd(U,V):(x==X_USUBO||x==X_SSUBO)?mkSub(U,V):mkMul(U,V); Expr*r=mkTrunc(z,w); Expr*o=x==X_USUBO?mkUlt(u,v):mkNot(mkEq(z,sg?mkSext(r,W):mkZext(r,W))); setRes(I,0,fromE(r)); setRes(I,1,fromE(o)); return true; }
    case X_UCMP: case X_SCMP: { unsigned w=tw(0),rw=I.t->w; Expr*u=toE(arg(0),w),*v=toE(arg(1),w); Expr*lt=x==X_UCMP?mkUlt(u,v):mkSlt(u,v); setRes(I,0,fromE(mkIte(lt,mkConst(maskw(rw),rw),mkIte(mkEq(u,v),mkConst(0,rw),mkConst(1,rw))))); return true; }
    case X_ISCONST: setRes(I,0,{0,nullptr}); return true;
    case X_EXPECT: setRes(I,0,arg(0)); return true;
    case X_TLS: if(!arg(0).e) g_tls.insert(arg(0).v>>32); setRes(I,0,arg(0)); return true;
    case X_LOADREL: { u64 b=C(0); Val o=arg(1); u64 oo=conc(o); u64 off; Obj*ob=rd(b+oo,4,off,"read"); u64 v=conc(loadInt(ob,off,32)); setRes(I,0,{b+(u64)sx(v,32),nullptr}); return true; }
    case X_PACKSSDW: case X_PACKUSWB: case X_PACKUSDW: case X_PACKSSWB: { unsigned w=tw(0); size_t n=cnt(0); bool uns=x==X_PACKUSWB||x==X_PACKUSDW; std::vector<Val> r; size_t lane=128/w; for(size_t l=0;l<n;l+=lane) for(int k=0;k<2;k++) for(size_t i=0;i<lane;i++){ Val v=opv(A[a0+k])[l+i]; if(!v.e){ i64 s=sx(v.v,w); unsigned to=w/2; i64 lo=uns?0:-(1ll<<(to-1)),hi=uns?(1ll<<to)-1:(1ll<<(to-1))-1; s=s<lo?lo:s>hi?hi:s; r.push_back({(u64)s&mask64(to),nullptr}); } else r.push_back(fromE(satClamp(v.e,w/2,uns))); } for(size_t i=0;i<r.size();i++) setRes(I,i,r[i]); return true; }
    case X_PMADDWD: { size_t n=cnt(0); std::vector<Val> r; for(size_t i=0;i<n;i+=2){ Expr*s=nullptr; for(int k=0;k<2;k++){ Expr*p=mkMul(mkSext(toE(opv(A[a0])[i+k],16),32),mkSext(toE(opv(A[a0+1])[i+k],16),32)); s=s?mkAdd(s,p):p; } r.push_back(fromE(s)); } for(size_t i=0;i<r.size();i++) setRes(I,i,r[i]); return true; }
    case X_PMULHW: case X_PMULHUW: { size_t n=cnt(0); std::vector<Val> r; for(size_t i=0;i<n;i++){ Expr*u=toE(opv(A[a0])[i],16),*v=toE(opv(A[a0+1])[i],16); Expr*p=x==X_PMULHW?mkMul(mkSext(u,32),mkSext(v,32)):mkMul(mkZext(u,32),mkZext(v,32)); r.push_back(fromE(mkExtract(p,31,16))); } for(size_t i=0;i<r.size();i++) setRes(I,i,r[i]); return true; }
    case X_PMULHRSW: { size_t n=cnt(0); std::vector<Val> r; for(size_t i=0;i<n;i++){ Expr*u=toE(opv(A[a0])[i],16),*v=toE(opv(A[a0+1])[i],16); Expr*p=mkMul(mkSext(u,32),mkSext(v,32)); p=mkAdd(p,mkConst(0x4000,32)); r.push_back(fromE(mkExtract(p,30,15))); } for(size_t i=0;i<r.size();i++) setRes(I,i,r[i]); return true; }
    case X_PAVG: { unsigned w=tw(0); size_t n=cnt(0); std::vector<Val> r; for(size_t i=0;i<n;i++){ Expr*u=mkZext(toE(opv(A[a0])[i],w),w+1),*v=mkZext(toE(opv(A[a0+1])[i],w),w+1); Expr*s=mkAdd(mkAdd(mkZext(u,w+2),mkZext(v,w+2)),mkConst(1,w+2)); r.push_back(fromE(mkExtract(s,w,1))); } for(size_t i=0;i<r.size();i++) setRes(I,i,r[i]); return true; }
    case X_PSHUFB: { size_t n=cnt(0); std::vector<Val> r; for(size_t i=0;i<n;i++){ u64 m=conc(opv(A[a0+1])[i]); if(m&0x80) r.push_back({0,nullptr}); else r.push_back(opv(A[a0])[(i&~15ull)+(m&15)]); } for(size_t i=0;i<r.size();i++) setRes(I,i,r[i]); return true; }
    case X_PTEST: { size_t n=cnt(0); unsigned w=tw(0); bool z=has(f->name,"testz"); Expr*r=mkConst(1,1); for(size_t i=0;i<n;i++){ Expr*u=toE(opv(A[a0])[i],w),*v=toE(opv(A[a0+1])[i],w); Expr*t=z?mkBin(O_AND,u,v):mkBin(O_AND,mkNot(u),v); r=mkBin(O_AND,r,mkEq(t,mkConst(0,w))); } if(has(f->name,"testnzc")) endPath("unsupported","ptestnzc"); setRes(I,0,fromE(mkZext(r,32))); return true; }
    case X_RED_ADD: case X_RED_OR: case X_RED_AND: case X_RED_XOR: case X_RED_UMAX: case X_RED_UMIN: case X_RED_SMAX: case X_RED_SMIN: { unsigned w=tw(0); size_t n=cnt(0); Expr*r=nullptr; for(size_t i=0;i<n;i++){ Expr*e=toE(opv(A[a0])[i],w); if(!r) r=e; else switch(x){ case X_RED_ADD:r=mkAdd(r,e);break; case X_RED_OR:r=mkBin(O_OR,r,e);break; case X_RED_AND:r=mkBin(O_AND,r,e);break; case X_RED_XOR:r=mkBin(O_XOR,r,e);break; case X_RED_UMAX:r=mkUmax(r,e);break; case X_RED_UMIN:r=mkUmin(r,e);break; case X_RED_SMAX:r=mkSmax(r,e);break; default:r=mkSmin(r,e);} } setRes(I,0,fromE(r)); return true; }
    case X_XGETBV: setRes(I,0,{7,nullptr}); return true;
    case X_ZERO: if(I.dst>=0) setRes(I,0,{0,nullptr}); return true;
    case X_CLOCK: { u64 p=C(1),off; Obj*o=wr(p,16,off,"clock_gettime"); storeInt(o,off,64,{1000+S->occ["clock"]++,nullptr}); storeInt(o,off+8,64,{0,nullptr}); setRes(I,0,{0,nullptr}); return true; }
    case X_WRITE: setRes(I,0,{C(2),nullptr}); return true;
    case X_GETENV: setRes(I,0,{0,nullptr}); return true;
    case X_ABORT: fail("panic","abort");
    case X_PANIC: { std::string m="panic in the decoder"; if(A.size()>a0){ // last pointer argument is usually the location {file ptr,len,line,col}
        for(size_t i=A.size();i-->a0;){ const Val&v=op0(A[i]); if(v.e||A[i].t->k!=Type::PTR) continue; Obj**p=slotOf(v.v); if(!p||!*p||(*p)->dead||(*p)->size<24) continue; u64 off=(v.v&0xffffffffu)-(*p)->off; if(off+24>(*p)->size) continue; u64 fp,fl; u32 ln; memcpy(&fp,&(*p)->b[off],8); memcpy(&fl,&(*p)->b[off+8],8); memcpy(&ln,&(*p)->b[off+16],4); std::string fn=strn(fp,fl); if(has(fn,".rs")){ m+=" at "+fn+":"+std::to_string(ln); break; } } } fail("panic",m); }
    case X_FORMAT: { // String { cap, ptr, len } : empty string written through sret
        u64 p=C(0); u64 off; Obj*o=wr(p,24,off,"format"); storeInt(o,off,64,{0,nullptr}); storeInt(o,off+8,64,{1,nullptr}); storeInt(o,off+16,64,{0,nullptr}); return true; }
    case Z_MAKE: { u64 p=C(0),n=C(1),eb=C(2); std::string nm=cstr(C(3)); u32 oc=S->occ[nm]++; std::string key=nm+"#"+std::to_string(oc); auto&vs=g_symvars[key]; while(vs.size()<n) vs.push_back(mkVar(key,vs.size(),eb*8)); ModelP m=freshModel(S->model); m->a.resize(std::max(m->a.size(),g_vars.size()),0); u64 off; Obj*o=wr(p,n*eb,off,"zs_make"); for(u64 i=0;i<n;i++){ Val old=o->s.empty()||!o->s[off+i*eb].e?loadInt(o,off+i*eb,eb*8):Val{0,nullptr}; m->a[vs[i]->a]=old.e?0:old.v; storeInt(o,off+i*eb,eb*8,{0,vs[i]}); } S->model=m; 
        // keep the model consistent with constraints already placed on these variables
        return true; }
    case Z_ASSUME: { Expr*c=toE(arg(0),A[a0].t->w); if(c->w>1) c=mkNot(mkEq(c,mkConst(0,c->w))); if(c->isc()){ if(!c->c) endPath("assume",""); return true; } if(evalBool(c,S->model)){ addPc(c); return true; } ModelP m; int r=solve(S->pc,c,S->model,&m); if(r==0) endPath("assume",""); if(r<0){ incon("assumption feasibility unknown"); endPath("assume",""); } S->model=m; addPc(c); return true; }
    case Z_ASSERT: { Expr*c=toE(arg(0),A[a0].t->w); if(c->w>1) c=mkNot(mkEq(c,mkConst(0,c->w))); doAssert(c,cstr(C(1))); return true; }
    case Z_NEAR: { if(g_race) return true; unsigned w=tw(0); Expr*a=toE(arg(0),w),*b=toE(arg(1),w); i64 tol=(i64)C(2); g_assertT++; if(a==b) return true; if(a->isc()&&b->isc()){ i64 d=sx((u64)a->c,w)-sx((u64)b->c,w); if(d>tol||d<-tol) fail("assert",cstr(C(3))+" (got "+std::to_string(sx((u64)a->c,w))+" want "+std::to_string(sx((u64)b->c,w))+")"); return true; } g_assertQ++; if(now()-g_t0>g_wall) endPath("limit","wall clock"); ModelP m; int r=proveNear(S->pc,a,b,tol,S->model,&m); if(r==0){ i64 u=sx((u64)evalM(a,m),w),v=sx((u64)evalM(b,m),w); violation("assert",cstr(C(3))+" (got "+std::to_string(u)+" want "+std::to_string(v)+")",m); endPath("violation",""); } if(r<0) incon("equality undecided: "+cstr(C(3))); return true; }
    case Z_COVER: g_cover[cstr(C(0))]++; return true;
    case Z_PARAM: { u64 i=C(0); setRes(I,0,{(u64)(i<g_params.size()?g_params[i]:0),nullptr}); return true; }
    case Z_LOG: { if(g_verbose){ Val v=arg(1); std::string s=cstr(C(0)); if(v.e) fprintf(stderr,"log %s = %s (model %lld)\n",s.c_str(),show(v.e,12).c_str(),(long long)evalM(v.e,S->model)); else fprintf(stderr,"log %s = %lld\n",s.c_str(),(long long)v.v); } return true; }
    case Z_JOB: { u64 p=C(0),i=C(1); raceSched(p,i); return true; }
    case Z_CONC: { u64 v=C(0); setRes(I,0,{v,nullptr}); return true; }
    case Z_ISSYM: { setRes(I,0,{(u64)(arg(0).e!=nullptr),nullptr}); return true; }
    case Z_CHOOSE: { u64 n=C(0); if(n<=1){ setRes(I,0,{0,nullptr}); return true; } u32 oc=S->occ["choose"]++; std::string key="choose#"+std::to_string(oc); auto&vs=g_symvars[key]; if(vs.empty()) vs.push_back(mkVar(key,0,32)); Expr*v=vs[0]; Expr*lim=mkUlt(v,mkConst(n,32)); ModelP m=freshModel(S->model); m->a.resize(std::max(m->a.size(),g_vars.size()),0); m->a[v->a]=0; S->model=m; addPc(lim); setRes(I,0,fromE(mkZext(v,64))); return true; }
    default: endPath("unsupported","external function "+f->name);
  } }

static void cpuid(Inst&I,u32 leaf,u32 sub){ u32 a=0,b=0,c=0,d=0; bool avx2=g_cpu=="avx2",sse=avx2||g_cpu=="sse41"; 
  if(leaf==0){ a=7; b=0x756e6547; d=0x49656e69; c=0x6c65746e; }
  else if(leaf==1){ a=0x306c3; d=(1u<<0)|(1u<<4)|(1u<<8)|(1u<<15)|(1u<<23)|(1u<<24)|(1u<<25)|(1u<<26); c=1u<<13; if(sse) c|=(1u<<0)|(1u<<9)|(1u<<19)|(1u<<20)|(1u<<23); if(avx2) c|=(1u<<12)|(1u<<26)|(1u<<27)|(1u<<28)|(1u<<22)|(1u<<29); }
  else if(leaf==7&&sub==0){ if(avx2) b=(1u<<3)|(1u<<5)|(1u<<8); }
  else if(leaf==0x80000000u) a=0x80000001u; else if(leaf==0x80000001u){ c=1; d=0; if(avx2) c|=1u<<5; }
  u32 r[4]={b,a,c,d}; for(u32 i=0;i<I.dn&&i<4;i++) setRes(I,i,{r[i],nullptr}); }

// returns true when the instruction pointer must be advanced by the caller
static bool doCall(Inst&I){
  Func*f=I.callee; size_t a0=0;
  if(!f){ if(!I.name.compare(0,4,"asm:")){ if(has(I.name,"cpuid")){ u32 l=(u32)copnd(I.o[0]); u32 s=I.o.size()>1?(u32)copnd(I.o[1]):0; cpuid(I,l,s); return true; } if(I.name=="asm:") { if(I.dst>=0&&!I.o.empty()){ const Val*v=opv(I.o[0]); for(u32 i=0;i<I.dn;i++) setRes(I,i,v[i]); } return true; } endPath("unsupported","inline asm "+I.name); }
    const Val&v=op0(I.o[0]); u64 a=conc(v); a0=1; if((a>>32)!=ID_FUNC) fail("memory","call through an invalid function pointer"); u64 k=(a&0xffffffffu)/16; if(k>=M.flist.size()) fail("memory","call through an invalid function pointer"); f=M.flist[k]; }
  if(f->intr<0) f->intr=classify(f);
  if(f->intr==X_ALIAS) f=M.funcs["@zs_sys_"+(f->name=="@__errno_location"?"errno":f->name.substr(1))];
  else if(f->intr!=X_NONE) return external(I,f,f->intr,I.o,a0);
  std::vector<Val> args; for(size_t i=a0;i<I.o.size();i++){ const Val*v=opv(I.o[i]); args.insert(args.end(),v,v+I.o[i].t->leafw.size()); }
  if(!f->decoded) decodeFunc(f); size_t need=0; for(auto n:f->pn) need+=n; if(args.size()<need) endPath("unsupported","argument count mismatch calling "+f->name);
  pushFrame(f,args,I.dst,I.dn,I.ed.empty()?nullptr:&I.ed[0]); return false; }

static u64 ssize(Type*t){ return t->k==Type::INT?(t->w+7)/8:t->size; }
static double fbits(u64 v,Type*t){ if(t->k==Type::FLOAT){ float f; u32 x=(u32)v; memcpy(&f,&x,4); return f; } double d; memcpy(&d,&v,8); return d; }

static void run(){
  u64 tick=0;
  for(;;){
    Frame&fr=S->fr.back(); Inst&I=fr.f->bb[fr.bb].in[fr.ip]; Val*B=&S->sl[fr.base];
    S->instr++; g_instr++; if((++tick&0xffff)==0){ if(now()-g_t0>g_wall) endPath("limit","wall clock"); if(g_hang&&S->instr>g_hang) fail("hang","more than "+std::to_string(g_hang)+" instructions on one path"); if(S->instr>g_pathInstr) endPath("limit","instructions per path"); if(g_instr>g_maxInstr) endPath("limit","instructions"); }
    #define OPV(i) (I.o[i].slot>=0? B+I.o[i].slot : I.o[i].cv->data())
    switch(I.op){
      case I_ADD: case I_SUB: case I_MUL: case I_UDIV: case I_SDIV: case I_UREM: case I_SREM: case I_SHL: case I_LSHR: case I_ASHR: case I_AND: case I_OR: case I_XOR: { const Val*a=OPV(0),*b=OPV(1); if(I.dn==1){ Val r=bin(I.op,I.t->leafw[0],a[0],b[0]); B[I.dst]=r; } else { unsigned w=I.t->leafw[0]; for(u32 i=0;i<I.dn;i++) B[I.dst+i]=bin(I.op,w,a[i],b[i]); } fr.ip++; break; }
      case I_ICMP: { const Val*a=OPV(0),*b=OPV(1); unsigned w=I.o[0].t->leafw[0]; for(u32 i=0;i<I.dn;i++) B[I.dst+i]=icmp(I.pred,w,a[i],b[i]); fr.ip++; break; }
      case I_SELECT: { const Val*c=OPV(0),*a=OPV(1),*b=OPV(2); bool vc=I.o[0].t->k==Type::VEC; for(u32 i=0;i<I.dn;i++){ const Val&cc=vc?c[i]:c[0]; if(!cc.e) B[I.dst+i]=cc.v?a[i]:b[i]; else { unsigned w=I.t->leafw[i]; Expr*x=toE(a[i],w),*y=toE(b[i],w),*r=mkIte(cc.e,x,y); aud(O_ITE,cc.e,x,y,r); B[I.dst+i]=fromE(r); } } fr.ip++; break; }
      case I_ZEXT: case I_SEXT: case I_TRUNC: { const Val*a=OPV(0); auto&fw=I.o[0].t->leafw; auto&w=I.t->leafw; for(u32 i=0;i<I.dn;i++) B[I.dst+i]=I.op==I_ZEXT?zx(a[i],fw[i],w[i]):I.op==I_SEXT?sxv(a[i],fw[i],w[i]):tr(a[i],fw[i],w[i]); fr.ip++; break; }
      case I_FREEZE: case I_BITCAST: { const Val*a=OPV(0); std::vector<Val> t(I.dn); bitcast(a,I.o[0].t->leafw,I.t->leafw,t.data()); for(u32 i=0;i<I.dn;i++) B[I.dst+i]=t[i]; fr.ip++; break; }
      case I_PTRTOINT: case I_INTTOPTR: { const Val*a=OPV(0); auto&fw=I.o[0].t->leafw; auto&w=I.t->leafw; for(u32 i=0;i<I.dn;i++) B[I.dst+i]=fw[i]<w[i]?zx(a[i],fw[i],w[i]):tr(a[i],fw[i],w[i]); fr.ip++; break; }
      case I_GEP: { Val p=OPV(0)[0]; bool sym=p.e!=nullptr; for(auto&g:I.gi) if(OPV(g.second)[0].e) sym=true; if(!sym){ u64 a=p.v+I.imm; for(auto&g:I.gi) a+=g.first*(u64)sx(OPV(g.second)[0].v,I.o[g.second].t->w); B[I.dst]={a,nullptr}; } else { Expr*a=mkAdd(toE(p,64),mkConst(I.imm,64)); for(auto&g:I.gi){ unsigned w=I.o[g.second].t->w; Expr*x=toE(OPV(g.second)[0],w); if(w<64) x=mkSext(x,64); a=mkAdd(a,mkMulC(x,g.first)); } B[I.dst]=fromE(a); } fr.ip++; break; }
      case I_ALLOCA: { Obj*o=new Obj(); u64 n=I.imm; if(!I.o.empty()) n*=copnd(I.o[0]); o->size=n; o->off=std::max<u64>(I.align,1); o->b.assign(n,0); if(n) o->s.assign(n,SB{UNINIT,0}); S->stack.push_back(o); if(g_race&&S->race) S->race->sh.erase(ID_STACK+S->stack.size()-1); B=&S->sl[S->fr.back().base]; B[I.dst]={addrOf(ID_STACK+S->stack.size()-1,o),nullptr}; S->fr.back().ip++; break; }
      case I_LOAD: { Val p=OPV(0)[0]; if(!p.e){ u64 a=p.v; if(I.align>1&&(a%I.align)) fail("memory","misaligned load (needs "+std::to_string(I.align)+")"); u64 off; Obj*o=I.pred?rd0(a,ssize(I.t),off,"read"):rd(a,ssize(I.t),off,"read"); if(I.pred) raceAtomic(a,I.pred,true,false,false); if(I.dn==1) B[I.dst]=loadInt(o,off,I.t->leafw[0]); else for(u32 i=0;i<I.dn;i++) B[I.dst+i]=loadInt(o,off+I.t->leafoff[i],I.t->leafw[i]); }
          else { if(I.dn==1) B[I.dst]=symLoad(p.e,I.t->leafw[0],I.align); else { std::vector<Val> t; if(p.e->op==O_ITE&&p.e->constleaf){ for(u32 i=0;i<I.dn;i++) t.push_back(symLoad(mkAdd(p.e,mkConst(I.t->leafoff[i],64)),I.t->leafw[i],1)); } else { u64 a=concretize(p.e); loadLeaves(a,I.t,I.align,t); } for(u32 i=0;i<I.dn;i++) B[I.dst+i]=t[i]; } } fr.ip++; break; }
      case I_STORE: { Val p=OPV(1)[0]; u64 a=p.e?concretize(p.e):p.v; if(I.align>1&&(a%I.align)) fail("memory","misaligned store (needs "+std::to_string(I.align)+")"); u64 off; Obj*o=wr(a,ssize(I.t),off,"write",!I.pred); if(I.pred) raceAtomic(a,I.pred,false,true,false); const Val*v=OPV(0); for(size_t i=0;i<I.t->leafw.size();i++) storeInt(o,off+I.t->leafoff[i],I.t->leafw[i],v[i]); fr.ip++; break; }
      case I_BR: take(I.ed[0]); break;
      case I_CBR: { Val c=OPV(0)[0]; bool v; if(!c.e) v=c.v; else { v=evalBool(c.e,S->model); Expr*o=v?mkNot(c.e):c.e; if(queueIf(o)) addPc(v?c.e:mkNot(c.e)); } take(I.ed[v?0:1]); break; }
      case I_SWITCH: { Val c=OPV(0)[0]; unsigned w=I.o[0].t->w; size_t k=0; if(!c.e){ for(size_t i=0;i<I.cases.size();i++) if((u64)I.cases[i]==c.v){ k=i+1; break; } } else {
            u128 v=evalM(c.e,S->model); for(size_t i=0;i<I.cases.size();i++) if((I.cases[i]&maskw(w))==v){ k=i+1; break; }
            int tb=I.ed[k].bb; // group by target block
            std::map<int,Expr*> grp; Expr*any=mkConst(0,1); for(size_t i=0;i<I.cases.size();i++){ Expr*q=mkEq(c.e,mkConst(I.cases[i],w)); any=mkBin(O_OR,any,q); auto it=grp.find(I.ed[i+1].bb); if(it==grp.end()) grp[I.ed[i+1].bb]=q; else it->second=mkBin(O_OR,it->second,q); }
            Expr*d=mkNot(any); auto it=grp.find(I.ed[0].bb); if(it==grp.end()) grp[I.ed[0].bb]=d; else it->second=mkBin(O_OR,it->second,d);
            bool q=false; for(auto&g:grp) if(g.first!=tb) q|=queueIf(g.second); if(q) addPc(grp[tb]); } take(I.ed[k]); break; }
      case I_RET: { std::vector<Val> r; if(!I.o.empty()){ const Val*v=OPV(0); r.assign(v,v+I.o[0].t->leafw.size()); } Frame f=fr; S->fr.pop_back(); while(S->stack.size()>f.smark){ Obj*o=S->stack.back(); if(--o->rc==0) delete o; S->stack.pop_back(); } S->sl.resize(f.base); if(S->fr.empty()) endPath("done",""); Frame&c=S->fr.back(); if(f.dst>=0) for(u32 i=0;i<f.dn;i++) S->sl[c.base+f.dst+i]=r[i]; if(f.inv) take(*f.inv); else c.ip++; break; }
      case I_CALL: { bool inv=!I.ed.empty(); if(doCall(I)){ if(inv) take(I.ed[0]); else S->fr.back().ip++; } break; }
      case I_UNREACHABLE: fail("panic","reached unreachable code");
      case I_EXTRACTVALUE: { const Val*a=OPV(0); for(u32 i=0;i<I.dn;i++) B[I.dst+i]=a[I.imm+i]; fr.ip++; break; }
      case I_INSERTVALUE: { const Val*a=OPV(0),*b=OPV(1); std::vector<Val> t(a,a+I.dn); for(size_t i=0;i<I.o[1].t->leafw.size();i++) t[I.imm+i]=b[i]; for(u32 i=0;i<I.dn;i++) B[I.dst+i]=t[i]; fr.ip++; break; }
      case I_EXTRACTELEMENT: { const Val*a=OPV(0); u64 i=conc(OPV(1)[0]); if(i>=I.o[0].t->n) endPath("unsupported","vector index"); B[I.dst]=a[i]; fr.ip++; break; }
      case I_INSERTELEMENT: { const Val*a=OPV(0); Val b=OPV(1)[0]; u64 ix=conc(OPV(2)[0]); std::vector<Val> t(a,a+I.dn); if(ix<I.dn) t[ix]=b; for(u32 i=0;i<I.dn;i++) B[I.dst+i]=t[i]; fr.ip++; break; }
      case I_SHUFFLE: { const Val*a=OPV(0),*b=OPV(1); size_t n=I.o[0].t->n; std::vector<Val> t(I.dn); for(u32 i=0;i<I.dn;i++){ int m=I.mask[i]; t[i]=m<0?Val{0,nullptr}:(size_t)m<n?a[m]:b[m-n]; } for(u32 i=0;i<I.dn;i++) B[I.dst+i]=t[i]; fr.ip++; break; }
      case I_ATOMICRMW: { u64 a=copnd(I.o[0]); Val v=OPV(1)[0]; unsigned w=I.t->leafw[0]; u64 off; Obj*o=wr(a,ssize(I.t),off,"atomic",false); raceAtomic(a,I.pred,true,true,true); Val old=loadInt(o,off,w); Val nv=v; if(I.name=="add") nv=bin(I_ADD,w,old,v); else if(I.name=="sub") nv=bin(I_SUB,w,old,v); else if(I.name=="or") nv=bin(I_OR,w,old,v); else if(I.name=="and") nv=bin(I_AND,w,old,v); else if(I.name=="xor") nv=bin(I_XOR,w,old,v); else if(I.name!="xchg") endPath("unsupported","atomicrmw "+I.name); storeInt(o,off,w,nv); if(I.dst>=0) B[I.dst]=old; fr.ip++; break; }
      case I_CMPXCHG: { u64 a=copnd(I.o[0]); Val e=OPV(1)[0],n=OPV(2)[0]; unsigned w=I.t->leafw[0]; u64 off; Obj*o=wr(a,(w+7)/8,off,"atomic",false); Val old=loadInt(o,off,w); u64 x=conc(old),y=conc(e); bool eq=x==y; raceAtomic(a,I.pred,true,eq,true); if(eq) storeInt(o,off,w,n); B[I.dst]={x,nullptr}; B[I.dst+1]={(u64)eq,nullptr}; fr.ip++; break; }
      case I_FENCE: if(g_race&&S->race){ Race&r=*S->race; if(I.pred&2) vjoin(r.vc[r.cur],r.pend[r.cur]); } fr.ip++; break;
      default: endPath("unsupported","instruction "+I.name);
    }
  } }

static void js(std::string&o,const std::string&s){ o+='"'; for(char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if((unsigned char)c<32){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } o+='"'; }
static int realMain(int argc,char**argv){
  g_t0=now(); const char*mod=nullptr; bool listFns=false; size_t memMB=6000;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); };
    if(a=="--entry") g_entry="@"+nx(); else if(a=="--out") g_out=nx(); else if(a=="--cpu") g_cpu=nx(); else if(a=="--wall") g_wall=atof(nx().c_str()); else if(a=="--paths") g_maxPaths=atoll(nx().c_str()); else if(a=="--instr") g_maxInstr=atoll(nx().c_str()); else if(a=="--qtimeout") g_timeoutMs=atoi(nx().c_str()); else if(a=="-v") g_verbose=true; else if(a=="--race") g_race=true; else if(a=="--viol") g_maxViol=atoi(nx().c_str()); else if(a=="--mem") memMB=atoi(nx().c_str()); else if(a=="--fns") listFns=true; else if(a=="--hang") g_hang=atoll(nx().c_str()); else if(a=="--wit") g_maxWit=atoi(nx().c_str()); else if(a=="--seed") srnd(atoll(nx().c_str()));
    else if(a=="-p"){ std::string s=nx(); size_t e=s.find('='); g_params[atoi(s.c_str())]=atoll(s.c_str()+e+1); } else mod=argv[i]; }
  struct rlimit rl{memMB<<20,memMB<<20}; setrlimit(RLIMIT_AS,&rl); struct rlimit st{1ull<<30,1ull<<30}; (void)st;
  loadModule(mod);
  for(size_t i=0;i<M.flist.size();i++) M.flist[i]->addr=(ID_FUNC<<32)+i*16;
  for(size_t i=0;i<M.glist.size();i++){ Global*g=M.glist[i]; g->addr=((ID_GLOBAL+i)<<32)+std::max<u64>(g->align,1); }
  for(size_t i=0;i<M.glist.size();i++){ Global*g=M.glist[i]; Obj*o=new Obj(); o->off=std::max<u64>(g->align,1); o->ro=g->constant; o->size=g->t->size; o->b.assign(o->size,0); if(!g->external&&o->size){ std::vector<Val> v; Cur c{g->init.data(),g->init.data()+g->init.size()}; parseConst(c,g->t,v); for(size_t k=0;k<v.size()&&k<g->t->leafoff.size();k++) storeInt(o,g->t->leafoff[k],g->t->leafw[k],v[k]); } g_globals.push_back(o); }
  auto it=M.funcs.find(g_entry); if(it==M.funcs.end()||!it->second->defined){ fprintf(stderr,"no entry %s\n",g_entry.c_str()); return 2; }
  auto s0=std::make_unique<State>(); s0->model=std::make_shared<Model>(); s0->model->epoch=newEpoch(); S=s0.get(); pushFrame(it->second,{},-1,0,nullptr); work.push_back(std::move(s0));
  std::map<std::string,u64> ends;
  g_deadline=g_t0+g_wall+5;
  while(!work.empty()){
    if((int)g_viol.size()>=g_maxViol) break;
    if(now()-g_t0>g_wall){ incon("limit: wall clock ("+std::to_string(work.size())+" states pending)"); break; }
    if(g_paths>=g_maxPaths){ incon("limit: paths ("+std::to_string(work.size())+" states pending)"); break; }
    auto cur=std::move(work.back()); work.pop_back(); S=cur.get(); 
    try{ for(;;){ try{ run(); }catch(Restart&){ continue; } } }
    catch(PathEnd&e){ ends[e.kind]++; if(e.kind=="done"){ g_done++; if(g_wit.size()<g_maxWit) g_wit.push_back({S->model,S->pc}); else if(g_maxWit&&rnd()%g_done<g_maxWit) g_wit[rnd()%g_maxWit]={S->model,S->pc}; } if(e.kind=="unsupported"||e.kind=="limit") incon(e.kind+": "+e.msg+" at "+where()); g_maxPath=std::max(g_maxPath,S->instr); if(e.kind!="assume") g_paths++; if(g_verbose&&(g_paths%100)==0) fprintf(stderr,"paths %llu pending %zu queries %llu t=%.1f\n",(unsigned long long)g_paths,work.size(),(unsigned long long)g_stats.queries,now()-g_t0); }
    catch(std::bad_alloc&){ incon("limit: memory"); break; }
    S=nullptr;
  }
  u64 aEval=0,aSmt=0,aUnk=0; { std::string bad; auditRun(g_auditSmt,aEval,aSmt,aUnk,bad); if(!bad.empty()){ fprintf(stderr,"REWRITE AUDIT FAILED: %s\n",bad.c_str()); _exit(4); } }
  std::string o="{"; auto kv=[&](const char*k,const std::string&v,bool q=false){ if(o.size()>1) o+=","; js(o,k); o+=":"; if(q) js(o,v); else o+=v; };
  kv("entry",g_entry.substr(1),true); kv("cpu",g_cpu,true); kv("paths",std::to_string(g_paths)); kv("forks",std::to_string(g_forks)); kv("instructions",std::to_string(g_instr)); kv("max_path_instructions",std::to_string(g_maxPath)); kv("assertions",std::to_string(g_assertT)); kv("assertions_symbolic",std::to_string(g_assertQ));
  kv("queries",std::to_string(g_stats.queries)); kv("sat",std::to_string(g_stats.sat)); kv("unsat",std::to_string(g_stats.unsat)); kv("unknown",std::to_string(g_stats.unknown)); kv("cache_hits",std::to_string(g_stats.cacheHits)); kv("sweep_merges",std::to_string(g_stats.cecProved)); kv("eq_trivial",std::to_string(g_stats.eqTrivial)); kv("eq_solver",std::to_string(g_stats.eqSolver)); char bf[64]; snprintf(bf,64,"%.2f",g_stats.solverSec); kv("solver_s",bf); snprintf(bf,64,"%.2f",g_stats.maxQuery); kv("max_query_s",bf); snprintf(bf,64,"%.2f",now()-g_t0); kv("wall_s",bf); kv("variables",std::to_string(g_vars.size())); kv("nodes",std::to_string(g_exprs.size()));
  if(g_race){ kv("race_accesses",std::to_string(g_raceAcc)); kv("race_jobs",std::to_string(g_raceJobs)); } kv("audit_eval",std::to_string(aEval)); kv("audit_smt",std::to_string(aSmt)); kv("audit_undecided",std::to_string(aUnk));
  { std::string e="{"; for(auto&x:ends){ if(e.size()>1) e+=","; js(e,x.first); e+=":"+std::to_string(x.second); } kv("path_ends",e+"}"); }
  { std::string e="{"; for(auto&x:g_cover){ if(e.size()>1) e+=","; js(e,x.first); e+=":"+std::to_string(x.second); } kv("covers",e+"}"); }
  { std::string e="["; for(auto&x:g_incon){ if(e.size()>1) e+=","; js(e,x); } kv("inconclusive",e+"]"); }
  { std::string e="["; for(auto*f:M.flist) if(f->calls&&has(f->name,"zune_jpeg")){ if(e.size()>1) e+=","; js(e,f->name.substr(1)); } kv("functions",e+"]"); (void)listFns; }
  auto vars=[&](std::string&e,const ModelP&m){ e+="{"; bool first=true; for(auto&s:g_symvars){ if(!first) e+=","; first=false; js(e,s.first); e+=":["; for(size_t i=0;i<s.second.size();i++){ if(i) e+=","; u32 id=s.second[i]->a; u128 x=id<m->a.size()?m->a[id]:0; e+=std::to_string((u64)x); } e+="]"; } e+="}"; };
  { std::string e="["; for(auto&w:g_wit){ bool ok=true; for(auto*c:w.second) if(!evalBool(c,w.first)) ok=false; if(!ok){ incon("internal: witness does not satisfy its path condition"); continue; } if(e.size()>1) e+=","; vars(e,w.first); } kv("witnesses",e+"]"); }
  { std::string e="["; for(auto&v:g_viol){ if(e.size()>1) e+=","; e+="{\"kind\":"; js(e,v.kind); e+=",\"msg\":"; js(e,v.msg); e+=",\"where\":"; js(e,v.where); e+=",\"vars\":"; vars(e,v.m); e+="}"; } kv("violations",e+"]"); }
  o+="}\n"; std::ofstream(g_out)<<o; fflush(stdout);
  _exit(g_viol.size()?1:g_incon.size()?3:0);
}

#include <pthread.h>
struct MA{int c;char**v;int r;};
int main(int argc,char**argv){ MA a{argc,argv,0}; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,1ull<<30); pthread_t t; pthread_create(&t,&at,[](void*p)->void*{ auto*a=(MA*)p; a->r=realMain(a->c,a->v); return nullptr; },&a); pthread_join(t,nullptr); return a.r; }
