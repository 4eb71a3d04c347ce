// Hash-consed bit-vector expression DAG with a canonicalising simplifier.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <algorithm>
#include <functional>
#include <memory>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16;
typedef unsigned __int128 u128; typedef __int128 i128;

enum Op : u8 { O_CONST, O_VAR, O_LIN, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR,
  O_SHL, O_LSHR, O_ASHR, O_EXTRACT, O_CONCAT, O_ZEXT, O_SEXT, O_ITE, O_EQ, O_ULT, O_SLT, O_CLAMP, O_ADDW };
extern const char* opname[];

struct Expr {
  Op op; bool constleaf; u16 w; u32 id; u32 nk; u32 treesize;
  u128 c;            // CONST value; LIN constant
  u32 a, b;          // EXTRACT hi,lo ; VAR index
  i64 clo, chi;      // CLAMP bounds
  i64 lo, hi;        // signed range (valid when w<=64)
  Expr** k;          // children (CONCAT: most significant first)
  u64* cf;           // LIN coefficients mod 2^w
  u64 hash;
  void* z3;          // cached solver term
  u64 evepoch; u128 ev; // evaluation memo
  u64 mark;
  std::vector<u32>* sup; // cached support (variable ids), lazily computed
  bool isc() const { return op==O_CONST; }
};

inline u128 maskw(unsigned w){ return w>=128 ? ~(u128)0 : (((u128)1<<w)-1); }
inline u64 mask64(unsigned w){ return w>=64 ? ~0ull : ((1ull<<w)-1); }
inline i64 sx(u64 v, unsigned w){ if(w>=64) return (i64)v; u64 m=1ull<<(w-1); v&=mask64(w); return (i64)((v^m)-m); }
inline i128 sx128(u128 v, unsigned w){ if(w>=128) return (i128)v; u128 m=(u128)1<<(w-1); v&=maskw(w); return (i128)((v^m)-m); }

struct Var { std::string name; u32 idx; unsigned w; Expr* e; };
extern std::vector<Var> g_vars;
extern std::vector<Expr*> g_exprs;

Expr* mkConst(u128 v, unsigned w);
Expr* mkVar(const std::string& name, u32 idx, unsigned w);
Expr* mkAdd(Expr*,Expr*); Expr* mkSub(Expr*,Expr*); Expr* mkNeg(Expr*); Expr* mkMul(Expr*,Expr*);
Expr* mkMulC(Expr*,u64);
Expr* mkBin(Op,Expr*,Expr*); // UDIV SDIV UREM SREM AND OR XOR SHL LSHR ASHR
Expr* mkNot(Expr*);
Expr* mkExtract(Expr*,unsigned hi,unsigned lo);
Expr* mkTrunc(Expr* e, unsigned w);
Expr* mkConcat(const std::vector<Expr*>&); // msb first
Expr* mkConcat2(Expr* hi,Expr* lo);
Expr* mkZext(Expr*,unsigned w); Expr* mkSext(Expr*,unsigned w);
Expr* mkIte(Expr* c,Expr* a,Expr* b);
Expr* mkEq(Expr*,Expr*); Expr* mkUlt(Expr*,Expr*); Expr* mkSlt(Expr*,Expr*);
Expr* mkUle(Expr*a,Expr*b); Expr* mkSle(Expr*a,Expr*b);
Expr* mkClamp(Expr*,i64 lo,i64 hi); // signed clamp, same width
Expr* mkSmin(Expr*,Expr*); Expr* mkSmax(Expr*,Expr*); Expr* mkUmin(Expr*,Expr*); Expr* mkUmax(Expr*,Expr*);
Expr* mkRebuild(Expr* e, Expr** kids);
const std::vector<u32>& support(Expr*);
std::string show(Expr*, int depth=6);

// evaluation under an assignment (indexed by variable id); epoch must be unique per assignment
u128 evalExpr(Expr*, const std::vector<u128>& asg, u64 epoch);
u64 newEpoch();
