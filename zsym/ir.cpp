#include "ir.hpp"
#include <fstream>
#include <sstream>
Module M;
static void die(const std::string&s){ fprintf(stderr,"zsym: %s\n",s.c_str()); exit(2); }
static std::map<std::string,Type*> tcache;
static u64 alignUp(u64 v,u64 a){ return (v+a-1)/a*a; }
static void finish(Type*t){
  switch(t->k){
    case Type::INT: { u64 b=(t->w+7)/8; u64 s=1; while(s<b) s*=2; t->size=t->w==24||t->w>64?alignUp(b,t->w>64?16:4):s; if(t->w<=8)t->size=1; t->align=std::min<u64>(t->size,16); t->leafw={(u16)t->w}; t->leafoff={0}; break; }
    case Type::PTR: t->w=64;t->size=8;t->align=8;t->leafw={64};t->leafoff={0};break;
    case Type::FLOAT: t->w=32;t->size=4;t->align=4;t->leafw={32};t->leafoff={0};break;
    case Type::DOUBLE: t->w=64;t->size=8;t->align=8;t->leafw={64};t->leafoff={0};break;
    case Type::VEC: { u64 bits=t->n*(t->el->w); t->size=alignUp((bits+7)/8,1); u64 p=1; while(p<t->size)p*=2; t->align=p; for(u64 i=0;i<t->n;i++){ t->leafw.push_back(t->el->w); t->leafoff.push_back(i*t->el->w/8);} break; }
    case Type::ARR: t->size=t->n*t->el->size; t->align=t->el->align; if(t->n<=65536) for(u64 i=0;i<t->n;i++) for(size_t j=0;j<t->el->leafw.size();j++){ t->leafw.push_back(t->el->leafw[j]); t->leafoff.push_back(i*t->el->size+t->el->leafoff[j]); } break;
    case Type::STRUCT: { u64 o=0,al=1; for(auto*f:t->fs){ u64 a=t->packed?1:f->align; o=alignUp(o,a); al=std::max(al,a); t->offs.push_back(o); for(size_t j=0;j<f->leafw.size();j++){ t->leafw.push_back(f->leafw[j]); t->leafoff.push_back(o+f->leafoff[j]); } o+=f->size; } t->align=al; t->size=alignUp(o,al); break; }
    default: break; }
}
static Type* mk(const std::string&key,const std::function<Type*()>&f){ auto it=tcache.find(key); if(it!=tcache.end()) return it->second; Type*t=f(); finish(t); return tcache[key]=t; }
Type* intType(unsigned w){ return mk("i"+std::to_string(w),[&]{auto*t=new Type{Type::INT};t->w=w;return t;}); }
Type* ptrType(){ return mk("ptr",[&]{return new Type{Type::PTR};}); }
static std::string tkey(Type*t){ char b[32]; snprintf(b,32,"%p",(void*)t); return b; }
static u64 num(Cur&c){ c.ws(); u64 v=0; while(c.p<c.e&&isdigit(*c.p)) v=v*10+(*c.p++-'0'); return v; }
Type* parseType(Cur&c){
  c.ws(); Type*r=nullptr;
  if(*c.p=='i'&&isdigit(c.p[1])){ c.p++; r=intType(num(c)); }
  else if(c.lit("ptr")){ r=ptrType(); if(c.lit("addrspace(")){ num(c); c.lit(")"); } }
  else if(c.lit("void")) r=mk("void",[&]{return new Type{Type::VOID};});
  else if(c.lit("float")) r=mk("float",[&]{return new Type{Type::FLOAT};});
  else if(c.lit("double")) r=mk("double",[&]{return new Type{Type::DOUBLE};});
  else if(c.lit("label")) r=mk("label",[&]{return new Type{Type::LABEL};});
  else if(c.lit("metadata")) r=mk("meta",[&]{return new Type{Type::META};});
  else if(c.lit("half")||c.lit("bfloat")||c.lit("x86_fp80")||c.lit("fp128")||c.lit("token")||c.lit("x86_amx")) r=mk("other",[&]{return new Type{Type::OTHER};});
  else if(c.lit("<{")){ std::vector<Type*> v; c.ws(); if(!c.lit("}>")){ do v.push_back(parseType(c)); while(c.lit(",")); if(!c.lit("}>")) die("packed struct"); } std::string k="<{"; for(auto*t:v)k+=tkey(t)+","; r=mk(k,[&]{auto*t=new Type{Type::STRUCT};t->packed=true;t->fs=v;return t;}); }
  else if(c.lit("{")){ std::vector<Type*> v; c.ws(); if(!c.lit("}")){ do v.push_back(parseType(c)); while(c.lit(",")); if(!c.lit("}")) die("struct"); } std::string k="{"; for(auto*t:v)k+=tkey(t)+","; r=mk(k,[&]{auto*t=new Type{Type::STRUCT};t->fs=v;return t;}); }
  else if(c.lit("<")){ u64 n=num(c); if(!c.lit("x")) die("vec"); Type*e=parseType(c); if(!c.lit(">")) die("vec>"); r=mk("<"+std::to_string(n)+"x"+tkey(e),[&]{auto*t=new Type{Type::VEC};t->n=n;t->el=e;return t;}); }
  else if(c.lit("[")){ u64 n=num(c); if(!c.lit("x")) die("arr"); Type*e=parseType(c); if(!c.lit("]")) die("arr]"); r=mk("["+std::to_string(n)+"x"+tkey(e),[&]{auto*t=new Type{Type::ARR};t->n=n;t->el=e;return t;}); }
  else if(*c.p=='%'){ const char*s=c.p++; while(c.p<c.e&&(isalnum(*c.p)||*c.p=='.'||*c.p=='_'||*c.p=='"'||*c.p=='-'||*c.p=='$'||*c.p==':')) c.p++; std::string n(s,c.p); auto it=M.named.find(n); if(it==M.named.end()) die("unknown type "+n); r=it->second; }
  else die("type? "+std::string(c.p,std::min<size_t>(60,c.e-c.p)));
  return r;
}
static std::string parseName(Cur&c){ // after % or @ (inclusive)
  c.ws(); const char*s=c.p; c.p++; if(*c.p=='"'){ c.p++; while(*c.p!='"') c.p++; c.p++; std::string r(s,c.p); return r; } while(c.p<c.e&&(isalnum(*c.p)||*c.p=='.'||*c.p=='_'||*c.p=='$'||*c.p=='-')) c.p++; return std::string(s,c.p); }
u64 symAddr(const std::string&n){ auto f=M.funcs.find(n); if(f!=M.funcs.end()) return f->second->addr; auto g=M.globals.find(n); if(g!=M.globals.end()) return g->second->addr; die("unknown symbol "+n); return 0; }
static u128 parseInt(Cur&c){ c.ws(); bool neg=false; if(*c.p=='-'){neg=true;c.p++;} if((*c.p=='u'||*c.p=='s')&&c.p[1]=='0'&&c.p[2]=='x'){ c.p+=3; u128 v=0; while(isxdigit(*c.p)){ int d=isdigit(*c.p)?*c.p-'0':(tolower(*c.p)-'a'+10); v=v*16+d; c.p++; } return v; } u128 v=0; while(c.p<c.e&&isdigit(*c.p)) v=v*10+(*c.p++-'0'); return neg?(u128)0-v:v; }
static void skipParen(Cur&c){ int d=0; do{ if(*c.p=='"'){ c.p++; while(*c.p!='"') c.p++; } if(*c.p=='(')d++; if(*c.p==')')d--; c.p++; }while(d&&c.p<c.e); }
static Val cval(u128 v,unsigned w){ if(w<=64) return {(u64)v&mask64(w),nullptr}; return {0,mkConst(v,w)}; }
static void zeros(Type*t,std::vector<Val>&out){ for(auto w:t->leafw) out.push_back(cval(0,w)); if(t->k==Type::ARR&&t->leafw.empty()&&t->n) die("huge constant array"); }
void parseConst(Cur&c,Type*t,std::vector<Val>&out){
  c.ws();
  if(c.lit("zeroinitializer")||c.lit("undef")||c.lit("poison")){ zeros(t,out); return; }
  if(c.lit("null")||c.lit("none")){ out.push_back({0,nullptr}); return; }
  if(c.lit("true")){ out.push_back({1,nullptr}); return; } if(c.lit("false")){ out.push_back({0,nullptr}); return; }
  if(c.lit("splat")){ c.lit("("); Type*et=parseType(c); std::vector<Val> v; parseConst(c,et,v); c.lit(")"); for(u64 i=0;i<t->n;i++) out.insert(out.end(),v.begin(),v.end()); return; }
  if(c.p[0]=='c'&&c.p[1]=='"'){ c.p+=2; while(*c.p!='"'){ if(*c.p=='\\'){ auto hx=[](char x){return isdigit(x)?x-'0':toupper(x)-'A'+10;}; if(c.p[1]=='\\'){ out.push_back({'\\',nullptr}); c.p+=2; } else { out.push_back({(u64)(hx(c.p[1])*16+hx(c.p[2])),nullptr}); c.p+=3; } } else out.push_back({(u64)(u8)*c.p++,nullptr}); } c.p++; return; }
  if(*c.p=='@'){ out.push_back({symAddr(parseName(c)),nullptr}); return; }
  if(isdigit(*c.p)||*c.p=='-'||((*c.p=='u'||*c.p=='s')&&c.p[1]=='0'&&c.p[2]=='x')){ if(t->k==Type::FLOAT||t->k==Type::DOUBLE||t->k==Type::OTHER){ if(c.p[0]=='0'&&c.p[1]=='x'){ c.p+=2; u64 v=0; if(isalpha(*c.p)&&!isxdigit(*c.p))c.p++; while(isxdigit(*c.p)){ v=v*16+(isdigit(*c.p)?*c.p-'0':tolower(*c.p)-'a'+10); c.p++; } if(t->k==Type::FLOAT){ double d; memcpy(&d,&v,8); float f=d; u32 x; memcpy(&x,&f,4); v=x; } out.push_back({v,nullptr}); return; } char*en; double d=strtod(c.p,&en); c.p=en; if(t->k==Type::FLOAT){ float f=d; u32 x; memcpy(&x,&f,4); out.push_back({x,nullptr}); } else { u64 x; memcpy(&x,&d,8); out.push_back({x,nullptr}); } return; }
    out.push_back(cval(parseInt(c),t->w)); return; }
  if(c.lit("getelementptr")){ while(c.lit("inbounds")||c.lit("nuw")||c.lit("nusw")); if(c.lit("inrange")) skipParen(c); c.lit("("); Type*bt=parseType(c); c.lit(","); Type*pt=parseType(c); std::vector<Val> b; parseConst(c,pt,b); u64 a=b[0].v; bool first=true; Type*cur=bt; while(c.lit(",")){ Type*it=parseType(c); std::vector<Val> iv; parseConst(c,it,iv); i64 i=sx(iv[0].v,it->w); if(first){ a+=i*bt->size; first=false; } else if(cur->k==Type::STRUCT){ a+=cur->offs[i]; cur=cur->fs[i]; } else { a+=i*cur->el->size; cur=cur->el; } } if(!c.lit(")")) die("gep const"); out.push_back({a,nullptr}); return; }
  if(c.lit("ptrtoint")||c.lit("inttoptr")||c.lit("bitcast")||c.lit("trunc")||c.lit("addrspacecast")||c.lit("ptrtoaddr")){ c.lit("("); Type*ft=parseType(c); std::vector<Val> v; parseConst(c,ft,v); if(!c.lit("to")) die("cast const"); Type*tt=parseType(c); c.lit(")"); out.push_back(cval(v[0].v,tt->w)); return; }
  if(c.peek("add")||c.peek("sub")||c.peek("xor")||c.peek("mul")||c.peek("shl")){ char o=c.p[0],o2=c.p[1]; c.p+=3; while(c.lit("nuw")||c.lit("nsw")); c.lit("("); Type*at=parseType(c); std::vector<Val> a,b; parseConst(c,at,a); c.lit(","); Type*bt=parseType(c); parseConst(c,bt,b); c.lit(")"); u64 r=o=='a'?a[0].v+b[0].v:o=='x'?a[0].v^b[0].v:o=='m'?a[0].v*b[0].v:o2=='u'?a[0].v-b[0].v:a[0].v<<b[0].v; out.push_back(cval(r,t->w)); return; }
  if(c.peek("<{")){ c.lit("<{"); for(size_t i=0;i<t->fs.size();i++){ if(i) c.lit(","); Type*ft=parseType(c); parseConst(c,ft,out); } if(!c.lit("}>")) die("packed const"); return; }
  if(c.lit("{")){ for(size_t i=0;i<t->fs.size();i++){ if(i) c.lit(","); Type*ft=parseType(c); parseConst(c,ft,out); } if(!c.lit("}")) die("struct const"); return; }
  if(c.lit("<")){ for(u64 i=0;i<t->n;i++){ if(i) c.lit(","); Type*ft=parseType(c); parseConst(c,ft,out); } if(!c.lit(">")) die("vec const"); return; }
  if(c.lit("[")){ for(u64 i=0;i<t->n;i++){ if(i) c.lit(","); Type*ft=parseType(c); parseConst(c,ft,out); } if(!c.lit("]")) die("arr const"); return; }
  if(c.lit("blockaddress")){ skipParen(c); out.push_back({1,nullptr}); return; }
  if(c.lit("dso_local_equivalent")||c.lit("no_cfi")){ out.push_back({symAddr(parseName(c)),nullptr}); return; }
  die("const? "+std::string(c.p,std::min<size_t>(80,c.e-c.p)));
}
static void skipAttrs(Cur&c){ // parameter/return attributes
  static const char*consts[]={"true","false","null","undef","poison","zeroinitializer","getelementptr","splat","none","inttoptr","ptrtoint","add","sub","xor","mul","shl","trunc","bitcast","blockaddress","asm","ptrtoaddr",nullptr};
  for(;;){ c.ws(); if(c.p>=c.e) return; if(*c.p=='#'){ c.p++; num(c); continue; } if(*c.p=='"'){ c.p++; while(*c.p!='"')c.p++; c.p++; if(*c.p=='='){ c.p+=2; while(*c.p!='"')c.p++; c.p++; } continue; }
    if(!isalpha(*c.p)) return; const char*s=c.p; while(c.p<c.e&&(isalnum(*c.p)||*c.p=='_')) c.p++; std::string wd(s,c.p); bool isC=(wd=="c"&&*c.p=='"'); for(int i=0;consts[i];i++) if(wd==consts[i]) isC=true; if(isC){ c.p=s; return; }
    // is this a type keyword? (return type position)
    if(wd=="ptr"||wd=="void"||wd=="float"||wd=="double"||wd=="label"||wd=="metadata"||wd=="half"||wd=="token"||wd=="x86_fp80"||wd=="fp128"||(wd[0]=='i'&&wd.size()>1&&isdigit(wd[1]))){ c.p=s; return; }
    if(*c.p=='(') skipParen(c); else if(wd=="align"){ num(c); } }
}
void loadModule(const char*path){
  std::ifstream f(path); if(!f) die(std::string("cannot open ")+path); std::stringstream ss; ss<<f.rdbuf(); M.text=ss.str();
  const std::string&T=M.text; size_t i=0,n=T.size();
  // named types first
  auto eachLine=[&](const std::function<void(size_t,size_t&)>&fn){ i=0; while(i<n){ size_t j=T.find('\n',i); if(j==std::string::npos) j=n; size_t next=j+1; fn(i,next); i=next; } };
  eachLine([&](size_t b,size_t&){ if(T[b]=='%'&&T.find(" = type ",b)!=std::string::npos){ size_t e=T.find(" = type ",b); size_t nl=T.find('\n',b); if(e<nl){ auto*t=new Type{Type::OTHER}; M.named[T.substr(b,e-b)]=t; } } });
  eachLine([&](size_t b,size_t&){ if(T[b]=='%'){ size_t e=T.find(" = type ",b); size_t nl=T.find('\n',b); if(e!=std::string::npos&&e<nl){ Cur c{T.data()+e+8,T.data()+nl}; if(c.peek("opaque")) return; Type*t=parseType(c); *M.named[T.substr(b,e-b)]=*t; } } });
  eachLine([&](size_t b,size_t&next){
    if(T[b]=='@'){ size_t e=T.find(" = ",b); auto*g=new Global(); g->name=T.substr(b,e-b); size_t nl=T.find('\n',b); Cur c{T.data()+e+3,T.data()+nl};
      if(c.peek("alias")){ }
      for(;;){ c.ws(); if(c.lit("constant ")){ g->constant=true; break; } if(c.lit("global ")) break; const char*s=c.p; while(c.p<c.e&&*c.p!=' '&&*c.p!='(') c.p++; std::string w(s,c.p); if(*c.p=='(') skipParen(c); if(w=="external"||w=="extern_weak") g->external=true; if(w=="alias"||w=="ifunc"||w.empty()) { delete g; return; } }
      g->t=parseType(c); g->init=std::string(c.p,c.e); size_t ap=g->init.rfind(", align "); if(ap!=std::string::npos) g->align=atoi(g->init.c_str()+ap+8); if(g->align<1) g->align=1; g->align=std::max<u64>(g->align,g->t->align>16?1:1);
      M.globals[g->name]=g; M.glist.push_back(g); }
    else if(!T.compare(b,7,"define ")||!T.compare(b,8,"declare ")){ bool def=T[b+2]=='f'; size_t nl=T.find('\n',b); Cur c{T.data()+b,T.data()+nl}; auto*f=new Func(); f->defined=def; size_t at=T.find('@',b); 
      // name
      Cur d{T.data()+at,T.data()+nl}; f->name=parseName(d);
      if(def){ size_t e=T.find("\n}\n",nl); f->bodyStart=b; f->bodyEnd=e; next=e+3; }
      M.funcs[f->name]=f; M.flist.push_back(f); }
  });
}
// ------------------------------------------------------------ decode
static u8 ordering(Cur&c){ std::string r(c.p,c.e); auto h=[&](const char*t){ return r.find(t)!=std::string::npos; }; bool sc=h(" seq_cst")||h(" acq_rel")||!r.compare(0,7,"seq_cst")||!r.compare(0,7,"acq_rel"); return 1|((sc||h(" acquire")||!r.compare(0,7,"acquire"))?2:0)|((sc||h(" release")||!r.compare(0,7,"release"))?4:0); }
void decodeFunc(Func*f){
  f->decoded=true; const std::string&T=M.text; size_t nl=T.find('\n',f->bodyStart); Cur c{T.data()+f->bodyStart,T.data()+nl};
  std::map<std::string,int> slots; auto newSlot=[&](const std::string&n,u32 cnt){ int s=f->nslots; f->nslots+=cnt; slots[n]=s; return s; };
  // header
  c.lit("define"); 
  for(;;){ c.ws(); const char*s=c.p; skipAttrs(c); if(c.p==s) break; }
  f->ret=parseType(c); c.ws(); parseName(c); if(!c.lit("(")) die("define( "+f->name);
  int un=0; if(!c.lit(")")){ do{ if(c.lit("...")) break; Type*t=parseType(c); for(;;){ const char*s=c.p; skipAttrs(c); if(c.p==s) break; } c.ws(); std::string n; if(*c.p=='%') n=parseName(c); else n="%"+std::to_string(un); un++; f->pnames.push_back(n); f->pt.push_back(t); u32 k=t->leafw.size(); f->params.push_back(newSlot(n,k)); f->pn.push_back(k); } while(c.lit(",")); }
  // split into lines
  std::vector<std::pair<const char*,const char*>> lines; const char*p=T.data()+nl+1,*E=T.data()+f->bodyEnd; while(p<=E&&p<T.data()+T.size()){ const char*q=(const char*)memchr(p,'\n',E-p); if(!q||q>E) q=E; lines.push_back({p,q}); p=q+1; if(q==E) break; }
  std::map<std::string,int> bbs; std::vector<std::vector<std::pair<const char*,const char*>>> bl; std::vector<std::string> bn;
  bool first=true; for(auto&l:lines){ if(l.first==l.second) continue; if(*l.first!=' '&&*l.first!='\t'&&*l.first!=';'){ const char*q=l.first; if(*q=='"'){ q++; while(*q!='"')q++; q++; } else while(q<l.second&&*q!=':') q++; std::string n="%"+std::string(l.first,q); bbs[n]=bl.size(); bn.push_back(n); bl.emplace_back(); first=false; continue; } if(*l.first==';') continue; if(first){ bn.push_back("%"+std::to_string(un)); bbs[bn[0]]=0; bl.emplace_back(); first=false; }
    // continuation lines (switch tables, invoke 'to label', landingpad clauses)
    auto&v=bl.back(); if(!v.empty()&&(l.first[2]==' '||(l.first[2]==']'))){ v.back().second=l.second; continue; } v.push_back(l); }
  // pass 1: declare results with their types. we need result types: decode sequentially with lazy slots; forward references only occur in phis (and via dominance order of blocks).
  // To be simple: pre-scan result types.
  auto resType=[&](Cur c)->Type*{ // c positioned after "%x = "
    while(c.lit("tail ")||c.lit("musttail ")||c.lit("notail ")); 
    auto word=[&]{ c.ws(); const char*s=c.p; while(c.p<c.e&&(isalnum(*c.p)||*c.p=='_')) c.p++; return std::string(s,c.p); };
    std::string op=word();
    if(op=="load"){ c.lit("atomic"); c.lit("volatile"); return parseType(c); }
    if(op=="alloca"||op=="getelementptr"){ if(op=="getelementptr"){ while(c.lit("inbounds")||c.lit("nuw")||c.lit("nusw")||c.lit("inrange")); Type*bt=parseType(c); (void)bt; c.lit(","); Type*pt=parseType(c); return pt; } return ptrType(); }
    if(op=="icmp"||op=="fcmp"){ c.lit("samesign"); if(op=="fcmp"){ for(;;){ const char*s=c.p; std::string w2=word(); static const char*fm[]={"fast","nnan","ninf","nsz","arcp","contract","afn","reassoc"}; bool is=false; for(auto*x:fm) if(w2==x) is=true; if(!is){ c.p=s; break; } } } word(); Type*t=parseType(c); if(t->k==Type::VEC){ Cur d{nullptr,nullptr}; std::string k="<"+std::to_string(t->n)+" x i1>"; d.p=k.data(); d.e=k.data()+k.size(); return parseType(d);} return intType(1); }
    if(op=="zext"||op=="sext"||op=="trunc"||op=="bitcast"||op=="ptrtoint"||op=="inttoptr"||op=="fptosi"||op=="fptoui"||op=="sitofp"||op=="uitofp"||op=="fpext"||op=="fptrunc"||op=="ptrtoaddr"||op=="addrspacecast"){ // find " to "
      const char*q=c.p; const char*best=nullptr; for(;q+4<=c.e;q++) if(!memcmp(q," to ",4)) best=q; Cur d{best+4,c.e}; return parseType(d); }
    if(op=="phi"||op=="select"||op=="freeze"){ for(;;){ const char*s=c.p; c.ws(); if(*c.p=='i'||*c.p=='p'||*c.p=='<'||*c.p=='{'||*c.p=='['||c.peek("float")||c.peek("double")) break; word(); if(c.p==s) break; } if(op=="select"){ Type*ct=parseType(c); // cond
          int d=0; while(c.p<c.e){ char ch=*c.p; if(ch=='('||ch=='<'||ch=='['||ch=='{')d++; if(ch==')'||ch=='>'||ch==']'||ch=='}')d--; if(ch==','&&d==0) break; c.p++; } c.lit(","); (void)ct; } return parseType(c); }
    if(op=="extractvalue"){ Type*t=parseType(c); int d=0; // skip operand
      while(c.p<c.e){ char ch=*c.p; if(ch=='('||ch=='<'||ch=='['||ch=='{')d++; if(ch==')'||ch=='>'||ch==']'||ch=='}')d--; if(ch==','&&d==0) break; c.p++; } while(c.lit(",")){ c.ws(); if(!isdigit(*c.p)) break; u64 ix=num(c); t=t->k==Type::STRUCT?t->fs[ix]:t->el; } return t; }
    if(op=="insertvalue"||op=="insertelement") return parseType(c);
    if(op=="extractelement") return parseType(c)->el;
    if(op=="shufflevector"){ Type*t=parseType(c); // mask type is the last operand
      const char*q=c.e; // find last " <N x i32>" 
      std::string s(c.p,c.e); size_t k=std::string::npos; for(size_t z=0;(z=s.find(" x i32> ",z))!=std::string::npos;z++) k=z; size_t st=s.rfind('<',k); Cur d{s.data()+st,s.data()+s.size()}; Type*mt=parseType(d); (void)q; return mk("<"+std::to_string(mt->n)+"x"+tkey(t->el),[&]{auto*r=new Type{Type::VEC};r->n=mt->n;r->el=t->el;return r;}); }
    if(op=="atomicrmw"){ c.lit("volatile"); word(); Type*pt=parseType(c); (void)pt; int d=0; while(c.p<c.e){ char ch=*c.p; if(ch=='(')d++; if(ch==')')d--; if(ch==','&&d==0)break; c.p++; } c.lit(","); return parseType(c); }
    if(op=="cmpxchg"){ c.lit("weak"); c.lit("volatile"); Type*pt=parseType(c);(void)pt; int d=0; while(c.p<c.e){ char ch=*c.p; if(ch=='(')d++; if(ch==')')d--; if(ch==','&&d==0)break; c.p++; } c.lit(","); Type*t=parseType(c); return mk("{"+tkey(t)+","+tkey(intType(1))+",",[&]{auto*r=new Type{Type::STRUCT};r->fs={t,intType(1)};return r;}); }
    if(op=="call"||op=="invoke"){ for(;;){ c.ws(); const char*s=c.p; // calling conv, fast-math, attributes
          std::string w2; { const char*z=c.p; while(z<c.e&&(isalnum(*z)||*z=='_')) z++; w2=std::string(c.p,z); }
          if(w2=="fastcc"||w2=="coldcc"||w2=="ccc"||w2=="preserve_mostcc"||w2=="preserve_allcc"||w2=="fast"||w2=="nsz"||w2=="nnan"){ c.p+=w2.size(); continue; } skipAttrs(c); if(c.p==s) break; } return parseType(c); }
    if(op=="landingpad") return parseType(c);
    if(op=="va_arg") return intType(64);
    // binary: flags then type
    for(;;){ c.ws(); if(c.lit("nuw ")||c.lit("nsw ")||c.lit("exact ")||c.lit("disjoint ")||c.lit("nneg ")||c.lit("fast ")||c.lit("nnan ")||c.lit("ninf ")||c.lit("nsz ")||c.lit("contract ")||c.lit("reassoc ")||c.lit("arcp ")||c.lit("afn ")) continue; break; }
    return parseType(c);
  };
  std::map<std::string,Type*> vt; for(size_t i=0;i<f->pnames.size();i++) vt[f->pnames[i]]=f->pt[i];
  for(auto&b:bl) for(auto&l:b){ Cur q{l.first,l.second}; q.ws(); if(*q.p=='%'){ std::string n=parseName(q); if(q.lit("=")){ Type*t=resType(q); vt[n]=t; newSlot(n,t->leafw.size()); } } }
  auto operand=[&](Cur&c,Type*t)->Opnd{ c.ws(); Opnd o; o.t=t; if(*c.p=='%'){ std::string n=parseName(c); auto it=slots.find(n); if(it==slots.end()) die("unknown value "+n+" in "+f->name); o.slot=it->second; return o; } auto*v=new std::vector<Val>(); if(t->k==Type::META||t->k==Type::LABEL) die("meta operand"); parseConst(c,t,*v); o.cv=v; return o; };
  auto word=[&](Cur&c){ c.ws(); const char*s=c.p; while(c.p<c.e&&(isalnum(*c.p)||*c.p=='_')) c.p++; return std::string(s,c.p); };
  struct PendingPhi{ int bb; int dst; u32 n; std::vector<std::pair<Opnd,std::string>> in; }; std::vector<PendingPhi> phis;
  f->bb.resize(bl.size());
  std::vector<std::vector<std::pair<size_t,std::string>>> dummy;
  struct Fix{ size_t bb,in,ed; std::string to; }; std::vector<Fix> fixes;
  for(size_t bi=0;bi<bl.size();bi++){ f->bb[bi].name=bn[bi];
    for(auto&l:bl[bi]){
      Cur c{l.first,l.second}; c.ws(); std::string res; if(*c.p=='%'){ res=parseName(c); c.lit("="); }
      Inst I; I.line=0; if(!res.empty()){ I.dst=slots[res]; I.dn=vt[res]->leafw.size(); I.t=vt[res]; }
      while(c.lit("tail ")||c.lit("musttail ")||c.lit("notail "));
      const char*st=c.p; std::string op=word(c); auto&blk=f->bb[bi].in;
      auto label=[&](size_t ed){ c.lit("label"); c.ws(); std::string n=parseName(c); fixes.push_back({bi,blk.size(),ed,n}); };
      static const std::map<std::string,IOp> bins={{"add",I_ADD},{"sub",I_SUB},{"mul",I_MUL},{"udiv",I_UDIV},{"sdiv",I_SDIV},{"urem",I_UREM},{"srem",I_SREM},{"shl",I_SHL},{"lshr",I_LSHR},{"ashr",I_ASHR},{"and",I_AND},{"or",I_OR},{"xor",I_XOR}};
      static const std::map<std::string,IOp> casts={{"zext",I_ZEXT},{"sext",I_SEXT},{"trunc",I_TRUNC},{"bitcast",I_BITCAST},{"ptrtoint",I_PTRTOINT},{"inttoptr",I_INTTOPTR},{"ptrtoaddr",I_PTRTOINT}};
      auto b=bins.find(op); auto ca=casts.find(op);
      if(b!=bins.end()){ I.op=b->second; while(c.lit("nuw ")||c.lit("nsw ")||c.lit("exact ")||c.lit("disjoint ")); Type*t=parseType(c); I.o.push_back(operand(c,t)); c.lit(","); I.o.push_back(operand(c,t)); }
      else if(ca!=casts.end()){ I.op=ca->second; while(c.lit("nuw ")||c.lit("nsw ")||c.lit("nneg ")); Type*t=parseType(c); I.o.push_back(operand(c,t)); }
      else if(op=="freeze"){ I.op=I_FREEZE; Type*t=parseType(c); I.o.push_back(operand(c,t)); }
      else if(op=="icmp"){ I.op=I_ICMP; c.lit("samesign "); std::string p=word(c); static const char*pn[]={"eq","ne","ugt","uge","ult","ule","sgt","sge","slt","sle"}; for(int i=0;i<10;i++) if(p==pn[i]) I.pred=i; Type*t=parseType(c); I.o.push_back(operand(c,t)); c.lit(","); I.o.push_back(operand(c,t)); }
      else if(op=="select"){ I.op=I_SELECT; for(int i=0;i<3;i++){ if(i) c.lit(","); Type*t=parseType(c); I.o.push_back(operand(c,t)); } }
      else if(op=="phi"){ while(c.lit("fast ")); Type*t=parseType(c); PendingPhi ph; ph.bb=bi; ph.dst=I.dst; ph.n=I.dn; do{ if(!c.lit("[")) break; Opnd o=operand(c,t); c.lit(","); c.ws(); std::string n=parseName(c); c.lit("]"); ph.in.push_back({o,n}); } while(c.lit(",")); phis.push_back(ph); continue; }
      else if(op=="br"){ if(c.peek("label")){ I.op=I_BR; I.ed.resize(1); label(0); } else { I.op=I_CBR; Type*t=parseType(c); I.o.push_back(operand(c,t)); I.ed.resize(2); c.lit(","); label(0); c.lit(","); label(1); } }
      else if(op=="switch"){ I.op=I_SWITCH; Type*t=parseType(c); I.o.push_back(operand(c,t)); c.lit(","); std::vector<std::string> L; c.lit("label"); c.ws(); L.push_back(parseName(c)); c.lit("["); for(;;){ if(c.lit("]")) break; Type*ct=parseType(c); std::vector<Val> v; parseConst(c,ct,v); c.lit(","); c.lit("label"); c.ws(); L.push_back(parseName(c)); I.cases.push_back(v[0].e?v[0].e->c:v[0].v); } I.ed.resize(L.size()); for(size_t i=0;i<L.size();i++) fixes.push_back({bi,blk.size(),i,L[i]}); }
      else if(op=="ret"){ I.op=I_RET; Type*t=parseType(c); if(t->k!=Type::VOID) I.o.push_back(operand(c,t)); }
      else if(op=="unreachable") I.op=I_UNREACHABLE;
      else if(op=="alloca"){ I.op=I_ALLOCA; Type*t=parseType(c); I.imm=t->size; I.align=t->align; if(c.lit(",")){ if(!c.peek("align")&&!c.peek("addrspace")&&!c.peek("!")){ Type*nt=parseType(c); Opnd o=operand(c,nt); if(o.slot>=0){ I.o.push_back(o); } else I.imm*=(*o.cv)[0].v; c.lit(","); } if(c.lit("align")) I.align=num(c); } }
      else if(op=="load"){ I.op=I_LOAD; if(c.lit("atomic ")) I.pred=ordering(c); c.lit("volatile "); Type*t=parseType(c); c.lit(","); Type*pt=parseType(c); I.o.push_back(operand(c,pt)); I.t=t; std::string rest(c.p,c.e); size_t a=rest.find("align "); I.align=a!=std::string::npos?atoi(rest.c_str()+a+6):1; }
      else if(op=="store"){ I.op=I_STORE; if(c.lit("atomic ")) I.pred=ordering(c); c.lit("volatile "); Type*t=parseType(c); I.o.push_back(operand(c,t)); c.lit(","); Type*pt=parseType(c); I.o.push_back(operand(c,pt)); I.t=t; std::string rest(c.p,c.e); size_t a=rest.find("align "); I.align=a!=std::string::npos?atoi(rest.c_str()+a+6):1; }
      else if(op=="getelementptr"){ I.op=I_GEP; while(c.lit("inbounds")||c.lit("nuw")||c.lit("nusw")); if(c.lit("inrange")) skipParen(c); Type*bt=parseType(c); c.lit(","); Type*pt=parseType(c); if(pt->k==Type::VEC) I.op=I_UNSUPPORTED; I.o.push_back(operand(c,pt)); bool fst=true; Type*cur=bt; u64 off=0; while(c.lit(",")){ c.ws(); if(*c.p=='!') break; Type*it=parseType(c); if(it->k==Type::VEC){ I.op=I_UNSUPPORTED; break; } Opnd o=operand(c,it); u64 sc; if(fst){ sc=bt->size; fst=false; } else if(cur->k==Type::STRUCT){ u64 ix=(*o.cv)[0].v; off+=cur->offs[ix]; cur=cur->fs[ix]; continue; } else { sc=cur->k==Type::VEC?cur->el->w/8:cur->el->size; cur=cur->el; } if(o.cv) off+=(u64)sx((*o.cv)[0].v,it->w)*sc; else { I.gi.push_back({sc,(int)I.o.size()}); I.o.push_back(o); } } I.imm=off; }
      else if(op=="extractvalue"){ I.op=I_EXTRACTVALUE; Type*t=parseType(c); I.o.push_back(operand(c,t)); u64 off=0; while(c.lit(",")){ c.ws(); if(!isdigit(*c.p)) break; u64 ix=num(c); if(t->k==Type::STRUCT){ for(u64 i=0;i<ix;i++) off+=t->fs[i]->leafw.size(); t=t->fs[ix]; } else { off+=ix*t->el->leafw.size(); t=t->el; } } I.imm=off; }
      else if(op=="insertvalue"){ I.op=I_INSERTVALUE; Type*t=parseType(c); I.o.push_back(operand(c,t)); c.lit(","); Type*et=parseType(c); I.o.push_back(operand(c,et)); u64 off=0; while(c.lit(",")){ c.ws(); if(!isdigit(*c.p)) break; u64 ix=num(c); if(t->k==Type::STRUCT){ for(u64 i=0;i<ix;i++) off+=t->fs[i]->leafw.size(); t=t->fs[ix]; } else { off+=ix*t->el->leafw.size(); t=t->el; } } I.imm=off; }
      else if(op=="extractelement"){ I.op=I_EXTRACTELEMENT; Type*t=parseType(c); I.o.push_back(operand(c,t)); c.lit(","); Type*it=parseType(c); I.o.push_back(operand(c,it)); }
      else if(op=="insertelement"){ I.op=I_INSERTELEMENT; for(int i=0;i<3;i++){ if(i) c.lit(","); Type*t=parseType(c); I.o.push_back(operand(c,t)); } }
      else if(op=="shufflevector"){ I.op=I_SHUFFLE; for(int i=0;i<2;i++){ if(i) c.lit(","); Type*t=parseType(c); I.o.push_back(operand(c,t)); } c.lit(","); Type*mt=parseType(c); c.ws(); if(c.lit("zeroinitializer")) I.mask.assign(mt->n,0); else if(c.lit("splat")){ c.lit("("); parseType(c); int v=(int)parseInt(c); I.mask.assign(mt->n,v); } else if(c.lit("poison")||c.lit("undef")) I.mask.assign(mt->n,-1); else { c.lit("<"); for(u64 i=0;i<mt->n;i++){ if(i) c.lit(","); parseType(c); c.ws(); if(c.lit("poison")||c.lit("undef")) I.mask.push_back(-1); else I.mask.push_back((int)parseInt(c)); } } }
      else if(op=="atomicrmw"){ I.op=I_ATOMICRMW; I.pred=ordering(c); c.lit("volatile "); I.name=word(c); Type*pt=parseType(c); I.o.push_back(operand(c,pt)); c.lit(","); Type*t=parseType(c); I.o.push_back(operand(c,t)); I.t=t; }
      else if(op=="cmpxchg"){ I.op=I_CMPXCHG; I.pred=ordering(c); c.lit("weak "); c.lit("volatile "); Type*pt=parseType(c); I.o.push_back(operand(c,pt)); c.lit(","); Type*t=parseType(c); I.o.push_back(operand(c,t)); c.lit(","); Type*t2=parseType(c); I.o.push_back(operand(c,t2)); I.t=t; }
      else if(op=="fence"){ I.op=I_FENCE; I.pred=ordering(c); }
      else if(op=="call"||op=="invoke"){ I.op=I_CALL; for(;;){ c.ws(); const char*s=c.p; const char*z=c.p; while(z<c.e&&(isalnum(*z)||*z=='_')) z++; std::string w2(c.p,z); if(w2=="fastcc"||w2=="coldcc"||w2=="ccc"||w2=="preserve_mostcc"||w2=="preserve_allcc"||w2=="fast"||w2=="nsz"||w2=="nnan"){ c.p+=w2.size(); continue; } skipAttrs(c); if(c.p==s) break; }
        Type*rt=parseType(c); I.t=rt; c.ws(); if(*c.p=='('){ skipParen(c); c.ws(); }
        bool isAsm=false; if(c.lit("asm ")){ isAsm=true; const char*q=c.p; while(*q!='"') q++; const char*q2=q+1; while(*q2!='"') q2++; I.name="asm:"+std::string(q+1,q2); c.p=q2+1; c.lit(","); c.ws(); c.p++; while(*c.p!='"') c.p++; c.p++; }
        else if(*c.p=='@'){ I.name=parseName(c); auto it=M.funcs.find(I.name); if(it==M.funcs.end()) die("call to unknown "+I.name); I.callee=it->second; }
        else if(*c.p=='%'){ Opnd o=operand(c,ptrType()); I.o.push_back(o); I.name=""; }
        else { Opnd o=operand(c,ptrType()); u64 a=(*o.cv)[0].v; I.o.push_back(o); (void)a; I.name=""; }
        (void)isAsm;
        if(!c.lit("(")) die("call( "+std::string(l.first,std::min<size_t>(200,l.second-l.first)));
        bool meta=false; if(!c.lit(")")){ do{ c.ws(); if(c.peek("metadata")){ meta=true; break; } Type*t=parseType(c); for(;;){ const char*s=c.p; skipAttrs(c); if(c.p==s) break; } I.o.push_back(operand(c,t)); } while(c.lit(",")); }
        if(meta) continue; // scope/annotation intrinsics
        if(op=="invoke"){ std::string rest(c.p,c.e); size_t k=rest.find("to label "); Cur d{c.p+k+9,c.e}; std::string n=parseName(d); I.ed.resize(1); fixes.push_back({bi,blk.size(),0,n}); } }
      else if(op=="landingpad"||op=="resume"||op=="fneg"||op=="fadd"||op=="fsub"||op=="fmul"||op=="fdiv"||op=="frem"||op=="fcmp"||op=="sitofp"||op=="uitofp"||op=="fptosi"||op=="fptoui"||op=="fpext"||op=="fptrunc"||op=="indirectbr"||op=="cleanupret"||op=="va_arg"||op=="addrspacecast"){ I.op=I_UNSUPPORTED; I.name=op; }
      else die("instruction? "+std::string(st,std::min<size_t>(100,l.second-st)));
      blk.push_back(std::move(I));
    } }
  for(auto&x:fixes){ auto it=bbs.find(x.to); if(it==bbs.end()) die("label "+x.to+" in "+f->name); Edge&e=f->bb[x.bb].in[x.in].ed[x.ed]; e.bb=it->second; for(auto&ph:phis) if(ph.bb==it->second) for(auto&in:ph.in) if(in.second==bn[x.bb]){ e.copies.push_back({ph.dst,in.first,ph.n}); break; }
    // simple if no copy source is overwritten by an earlier copy
    for(size_t i=0;i<e.copies.size();i++) for(size_t j=i+1;j<e.copies.size();j++){ auto&s=e.copies[j].src; if(s.slot>=0&&s.slot<(int)(e.copies[i].dst+e.copies[i].n)&&s.slot+(int)e.copies[j].n>e.copies[i].dst) e.simple=false; } }
}
