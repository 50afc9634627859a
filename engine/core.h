// Symbolic executor for LLVM IR: shared declarations.
#pragma once
#include <z3.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <functional>
#include <cstdint>
#include <cstring>
#include <atomic>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

// ---------------------------------------------------------------- values
struct Val { u64 c=0; Z3_ast e=nullptr; const std::vector<Val>* a=nullptr;
  Val(){} Val(u64 x):c(x){} };
static inline Val mkE(Z3_ast e){ Val v; v.e=e; return v; }
static inline Val mkAgg(std::vector<Val> v){ Val r; r.a=new std::vector<Val>(std::move(v)); return r; }

extern Z3_context Z;
extern Z3_sort REAL, BOOL;

// ---------------------------------------------------------------- memory
struct Cell { Z3_ast e; u32 len; };
enum Kind { K_GLOBAL, K_STACK, K_MALLOC, K_NEW, K_NEWARR, K_FUNC, K_EXC, K_OTHER };
struct Obj {
  u64 base=0, size=0; std::vector<u8> d, st; std::unordered_map<u32,Cell> cells;
  bool live=true, ro=false, dirty=false /* has symbolic or uninit bytes */; Kind kind=K_OTHER; int watch=0; std::string name;
  u64 cookie=0; Z3_ast symSize=nullptr; /* size in bytes, at most `size` */ std::string freedBy;
};
// st: 0 uninit, 1 concrete, 2 start of symbolic cell, 3 continuation
extern std::map<u64,Obj*> g_objs;
Obj* newObj(u64 size, Kind k, bool init, const std::string& name="");
Obj* findObj(u64 addr);

// ---------------------------------------------------------------- shared (across processes) statistics
static const int MAXID=512, MAXFN=20000;
struct Shared {
  std::atomic<u64> paths, infeasible, queries, qsat, qunsat, qunknown, solver_us, insts, forks, asserts_sym, asserts_conc, asserts_discharged, asserts_tol,
     asserts_undecided, cands, incomplete, witnesses, reals_nl, choices, schedpts, maxthreads;
  std::atomic<int> stop, nids, lock;
  char idname[MAXID][64]; std::atomic<u64> idreach[MAXID]; std::atomic<int> idcand[MAXID]; std::atomic<int> idkind[MAXID]; std::atomic<int> idwit[MAXID];
  std::atomic<u8> fn[MAXFN];
};
extern Shared* S;
int idOf(const char*);

// ---------------------------------------------------------------- path end
enum EndKind { END_OK, END_INFEASIBLE, END_INCOMPLETE, END_VIOL, END_STOP };
struct PathEnd { EndKind k; std::string why; };
[[noreturn]] void endPath(EndKind k, const std::string& why="");

// options
struct Options { std::string bc, out, entry="vp_main"; int jobs=8; double tlimit=600, grace=0; u64 rlimit=40000000; int maxcand=3; int preempt=2; bool spurious=false, blockcost=false; u64 maxinst=2000000000ull; int maxwit=6; std::map<std::string,std::string> cfg; bool trace=false; };
extern Options O;

// ---------------------------------------------------------------- z3 helpers
Z3_ast zbv(u64 v, unsigned bits);
Z3_ast zreal(double d);
Z3_ast zsimp(Z3_ast);
Z3_ast znot(Z3_ast); Z3_ast zeqBV(Z3_ast,Z3_ast);
bool isTrue(Z3_ast); bool isFalse(Z3_ast);
Z3_ast freshBV(const char* p, unsigned bits);
Z3_ast freshReal(const char* p);
Z3_ast asBV(const Val&, unsigned bits);
Z3_ast asReal(const Val&, bool isFloat=false);
Z3_ast asBool(const Val&);
Val fromBV(Z3_ast, unsigned bits);   // simplified to concrete where possible
Val fromBool(Z3_ast);

// ---------------------------------------------------------------- path condition / solving
int  solveWith(Z3_ast extra, Z3_model* m);   // 1 sat 0 unsat -1 unknown ; PC & extra
void addPC(Z3_ast);
bool decide(Z3_ast cond);                    // forks
int  chooseFork(int n, const char* name, i64 lo, bool record);    // forks n ways
u64  concretize(const Val& v, unsigned bits, const char* what);

struct Input { std::string name; char kind; Z3_ast e; i64 conc; unsigned bits; };  // kind: 'i' int, 'd' double, 'c' concrete choice, 's' schedule
extern std::vector<Input> g_inputs;
void report(const std::string& id, const std::string& what, Z3_ast negcond /*may be null*/, bool fp);
void assertCheck(const std::string& id, Z3_ast cond, const std::string& what);
void assertSame(const std::string& id, const Val& a, const Val& b);
void flushAsserts();
void finishProcess();
