// Textual LLVM IR: types, pre-decoded functions.
#pragma once
#include "expr.hpp"
#include <map>
#include <string_view>
struct Type { enum K{INT,PTR,VEC,ARR,STRUCT,FLOAT,DOUBLE,VOID,LABEL,META,OTHER} k; unsigned w=0; u64 n=0; Type*el=nullptr; std::vector<Type*> fs; bool packed=false;
  u64 size=0,align=1; std::vector<u64> offs; std::vector<u16> leafw; std::vector<u64> leafoff; };
struct Val { u64 v=0; Expr*e=nullptr; };
inline Expr* toE(const Val&x,unsigned w){ return x.e?x.e:mkConst(x.v,w); }
inline Val fromE(Expr*e){ if(e->isc()&&e->w<=64) return {(u64)e->c,nullptr}; return {0,e}; }
struct Opnd { int slot=-1; const std::vector<Val>*cv=nullptr; Type*t=nullptr; };
enum IOp : u8 { I_ALLOCA,I_LOAD,I_STORE,I_GEP,I_ADD,I_SUB,I_MUL,I_UDIV,I_SDIV,I_UREM,I_SREM,I_SHL,I_LSHR,I_ASHR,I_AND,I_OR,I_XOR,I_ICMP,I_SELECT,I_BR,I_CBR,I_SWITCH,I_CALL,I_RET,I_UNREACHABLE,I_ZEXT,I_SEXT,I_TRUNC,I_BITCAST,I_PTRTOINT,I_INTTOPTR,I_FREEZE,I_EXTRACTVALUE,I_INSERTVALUE,I_EXTRACTELEMENT,I_INSERTELEMENT,I_SHUFFLE,I_ATOMICRMW,I_CMPXCHG,I_FENCE,I_UNSUPPORTED };
enum Pred : u8 { P_EQ,P_NE,P_UGT,P_UGE,P_ULT,P_ULE,P_SGT,P_SGE,P_SLT,P_SLE };
struct PhiCopy { int dst; Opnd src; u32 n; };
struct Edge { int bb; std::vector<PhiCopy> copies; bool simple=true; };
struct Func;
struct Inst { IOp op; u8 pred=0; int dst=-1; u32 dn=0; Type*t=nullptr; std::vector<Opnd> o; std::vector<Edge> ed; std::vector<u128> cases; std::vector<std::pair<u64,int>> gi; // gep: (scale, operand index)
  u64 imm=0; u64 align=1; Func*callee=nullptr; std::vector<int> mask; std::string name; int line=0; };
struct Block { std::vector<Inst> in; std::string name; };
struct Func { std::string name; bool defined=false, decoded=false; size_t bodyStart=0,bodyEnd=0; Type*ret=nullptr; std::vector<int> params; std::vector<u32> pn; std::vector<Type*> pt; u32 nslots=0; std::vector<Block> bb; u64 addr=0; u64 calls=0; int intr=-1; std::vector<std::string> pnames; };
struct Global { std::string name; Type*t; u64 align=1; bool constant=false; std::string init; u64 addr=0; bool external=false; };
struct Module { std::string text; std::map<std::string,Func*> funcs; std::vector<Func*> flist; std::map<std::string,Global*> globals; std::vector<Global*> glist; std::map<std::string,Type*> named; };
extern Module M;
void loadModule(const char*path);
void decodeFunc(Func*f);
struct Cur { const char*p,*e; void ws(){ while(p<e&&(*p==' '||*p=='\t'||*p=='\n')) p++; } bool lit(const char*s){ ws(); size_t n=strlen(s); if((size_t)(e-p)>=n&&!memcmp(p,s,n)){p+=n;return true;} return false; } bool peek(const char*s){ ws(); size_t n=strlen(s); return (size_t)(e-p)>=n&&!memcmp(p,s,n);} };
Type* parseType(Cur&c);
// constant initialiser -> flattened leaves; addresses resolved through g_symaddr
void parseConst(Cur&c,Type*t,std::vector<Val>&out);
u64 symAddr(const std::string&);
Type* intType(unsigned w); Type* ptrType();
