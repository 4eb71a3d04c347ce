#pragma once
#include "expr.hpp"
struct Model { std::vector<u128> a; u64 epoch; };
typedef std::shared_ptr<Model> ModelP;
struct Stats { u64 queries=0,sat=0,unsat=0,unknown=0,cacheHits=0,cecProved=0,cecQueries=0,eqTrivial=0,eqSolver=0; double solverSec=0,maxQuery=0; };
extern Stats g_stats; extern unsigned g_timeoutMs; extern double g_deadline;
// 1 sat (model updated on the slice), 0 unsat, -1 unknown
int solve(const std::vector<Expr*>& pc, Expr* extra, const ModelP& base, ModelP* out, unsigned timeoutMs=0);
bool evalBool(Expr*e,const ModelP&m);
u128 evalM(Expr*e,const ModelP&m);
// a and b equal within tol (as signed values) on all assignments satisfying pc: 1 yes, 0 no (cex in *out), -1 unknown
int proveNear(const std::vector<Expr*>& pc, Expr*a, Expr*b, i64 tol, const ModelP& base, ModelP*out);
ModelP freshModel(const ModelP&from);
void* z3of(Expr*e);
u64 rnd(); void srnd(u64);
// audit of the normalising constructors: an evaluated instruction, k = operation (100+p: comparison with predicate p; O_LIN: subtraction)
struct AuditRec { u8 k; Expr*x,*y,*z,*r; };
extern std::vector<AuditRec> g_audit; extern unsigned g_auditSmt;
void auditRun(unsigned smt,u64&ev,u64&proved,u64&unk,std::string&bad);
