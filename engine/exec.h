#pragma once
#include "core.h"
using namespace llvm;
struct Operand { int slot=-1; Val cv; const Constant* fresh=nullptr; };
struct Ins { const Instruction* I; unsigned opc; int dst=-1; std::vector<Operand> ops; unsigned bits=0, bits2=0; u64 imm=0; std::vector<std::pair<int,i64>> gep; int t0=-1,t1=-1; int unwind=-1; Function* callee=nullptr; int model=-2; bool isFP=false; bool isFloat=false; std::vector<std::pair<u64,int>> cases; bool vol=false, atom=false, sync=false; };
struct PhiI { int dst; std::vector<std::pair<int,Operand>> in; };
struct CBB { std::vector<PhiI> phis; std::vector<Ins> ins; const BasicBlock* bb; bool seen=false; };
struct CFn { Function* F; std::vector<CBB> bbs; int nslots=0; std::vector<int> argslots; int ord=-1; };
struct Frame { CFn* f; std::vector<Val> r; int bb=0, prev=-1; size_t pc=0; std::vector<Obj*> allocas; std::vector<Val> va; };
struct Exc { u64 obj=0; u64 ti=0; };
enum TStat { T_RUN, T_MUTEX, T_COND, T_JOIN, T_DONE, T_BLOCK };
struct Thread { int id=0; std::vector<Frame> st; TStat stat=T_RUN; u64 waitAddr=0, mtx=0; u32 mdepth=0; std::vector<u64> caught; std::vector<u32> vc; bool timedout=false, timed=false; u64 deadline=0; int held=0; int joinTid=-1; Val retval; bool signaled=false; bool skipYield=false; bool settled=false; };
extern std::vector<Thread*> g_thr; extern Thread* T;
extern const DataLayout* DL; extern Module* M;
CFn* getFn(Function*);
void memStore(u64 addr,u64 n,const Val& v,const char* what="store");
Val  memLoad(u64 addr,u64 n,bool isFP,const char* what="load");
void storeVal(Type* ty,u64 addr,const Val& v); Val loadVal(Type* ty,u64 addr);
void memCopy(u64 d,u64 s,u64 n); void memSet(u64 d,const Val& b,u64 n);
Obj* access(u64 addr,u64 n,bool write,const char* what);
[[noreturn]] void violation(const std::string& id,const std::string& what);
std::string readStr(u64 addr);
void freeObj(u64 addr,Kind k,const char* who);
void enterFn(Function* F,const std::vector<Val>& args);   // pushes a frame on T
void throwExc(u64 obj,u64 ti);                            // unwinds T
extern std::unordered_map<const GlobalValue*,u64> g_addr; extern std::unordered_map<u64,Function*> g_fnAt;
// models: return true and set ret when done; return false => the model pushed a frame or blocked, and handles the return itself
struct Call { Ins* ins; std::vector<Val> a; Val ret; const CallBase* CB; };
enum MRes { M_DONE, M_PUSHED, M_RETRY, M_UNWOUND };
typedef MRes (*Model)(Call&);
Model lookupModel(StringRef name); bool overridden(StringRef name);
bool yieldPoint();      // true if another thread was chosen: the caller must retry later
void schedule(bool curBlocked);
extern u64 g_clk; void timeOut(Thread* t);
u64 globalNamed(const char* n);
void raceAccess(Obj* o,u64 off,u64 n,bool write);
void vcJoin(std::vector<u32>& a,const std::vector<u32>& b);
extern int g_preempts; extern bool g_watchAll;
extern std::vector<std::pair<u64,u64>> g_watch;
