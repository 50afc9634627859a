#include "core.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <cmath>
#include <chrono>
#include <sstream>
#include <signal.h>
Z3_context Z; Z3_sort REAL,BOOL; Shared* S; Options O;
std::vector<Input> g_inputs;
static Z3_solver gSol; static std::vector<Z3_ast> gPC; static Z3_model gModel=nullptr;
int tokR=-1,tokW=-1; bool heldToken=false; std::vector<pid_t> kids;
std::chrono::steady_clock::time_point T0;
double elapsed(){ return std::chrono::duration<double>(std::chrono::steady_clock::now()-T0).count(); }

static void zerr(Z3_context c, Z3_error_code e){ std::string m=Z3_get_error_msg(c,e); endPath(END_INCOMPLETE,"z3 error: "+m); }
void baseInit(){
  S=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  int p[2]; if(pipe(p)) abort(); tokR=p[0]; tokW=p[1]; fcntl(tokR,F_SETFL,O_NONBLOCK);
  for(int i=0;i<O.jobs-1;i++){ char c='t'; (void)!write(tokW,&c,1); }
  T0=std::chrono::steady_clock::now();
  Z3_config cfg=Z3_mk_config(); Z=Z3_mk_context(cfg); Z3_set_error_handler(Z,zerr);
  REAL=Z3_mk_real_sort(Z); BOOL=Z3_mk_bool_sort(Z);
  gSol=Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z,gSol);
  Z3_params pr=Z3_mk_params(Z); Z3_params_inc_ref(Z,pr);
  Z3_params_set_uint(Z,pr,Z3_mk_string_symbol(Z,"rlimit"),(unsigned)O.rlimit);
  Z3_params_set_uint(Z,pr,Z3_mk_string_symbol(Z,"random_seed"),1);
  Z3_params_set_uint(Z,pr,Z3_mk_string_symbol(Z,"timeout"),20000);
  Z3_solver_set_params(Z,gSol,pr);
}
int idOf(const char* s){
  int n=S->nids.load(); for(int i=0;i<n;i++) if(!strncmp(S->idname[i],s,63)) return i;
  int z=0; while(!S->lock.compare_exchange_weak(z,1)){ z=0; usleep(50);} 
  n=S->nids.load(); int r=-1; for(int i=0;i<n;i++) if(!strncmp(S->idname[i],s,63)) r=i;
  if(r<0 && n<MAXID){ strncpy(S->idname[n],s,63); r=n; S->nids=n+1; } if(r<0) r=MAXID-1;
  S->lock=0; return r;
}
// ------------------------------------------------------------ z3 helpers
Z3_ast zbv(u64 v,unsigned bits){ 
  if(bits<=64) return Z3_mk_unsigned_int64(Z, bits==64? v : (v & ((1ull<<bits)-1)), Z3_mk_bv_sort(Z,bits));
  return Z3_mk_zero_ext(Z,bits-64,Z3_mk_unsigned_int64(Z,v,Z3_mk_bv_sort(Z,64))); }
Z3_ast zreal(double d){
  if(!std::isfinite(d)) { Z3_ast f=freshReal("nonfinite"); return f; }
  if(d==0) return Z3_mk_int(Z,0,REAL);
  if(std::floor(d)==d && std::fabs(d)<1e15) return Z3_mk_int64(Z,(i64)d,REAL);
  int ex; double m=std::frexp(d,&ex); i64 mi=(i64)std::ldexp(m,53); ex-=53; // d = mi*2^ex
  while(mi%2==0 && ex<0){ mi/=2; ex++; }
  // print mi * 2^ex as rational string
  Z3_ast r;
  auto pow2=[&](int k){ // decimal string of 2^k
    std::string s="1"; for(int i=0;i<k;i++){ int c=0; for(int j=(int)s.size()-1;j>=0;j--){ int x=(s[j]-'0')*2+c; s[j]='0'+x%10; c=x/10; } if(c) s="1"+s; } return s; };
  if(ex<0){ std::string s=std::to_string(mi)+"/"+pow2(-ex); r=Z3_mk_numeral(Z,s.c_str(),REAL); }
  else { Z3_ast a[2]={Z3_mk_int64(Z,mi,REAL), Z3_mk_numeral(Z,pow2(ex).c_str(),REAL)}; r=zsimp(Z3_mk_mul(Z,2,a)); }
  return r;
}
Z3_ast zsimp(Z3_ast e){ return Z3_simplify(Z,e); }
Z3_ast znot(Z3_ast e){ return Z3_mk_not(Z,e); }
bool isTrue(Z3_ast e){ return Z3_get_bool_value(Z,e)==Z3_L_TRUE; }
bool isFalse(Z3_ast e){ return Z3_get_bool_value(Z,e)==Z3_L_FALSE; }
Z3_ast freshBV(const char* p,unsigned bits){ return Z3_mk_fresh_const(Z,p,Z3_mk_bv_sort(Z,bits)); }
Z3_ast freshReal(const char* p){ return Z3_mk_fresh_const(Z,p,REAL); }
static Z3_sort_kind sk(Z3_ast e){ return Z3_get_sort_kind(Z,Z3_get_sort(Z,e)); }
static std::unordered_map<Z3_ast,Z3_ast> bv2real;
Z3_ast asBV(const Val& v,unsigned bits){
  if(!v.e) return zbv(v.c,bits);
  switch(sk(v.e)){
    case Z3_BV_SORT: { unsigned b=Z3_get_bv_sort_size(Z,Z3_get_sort(Z,v.e)); if(b==bits) return v.e; if(b>bits) return Z3_mk_extract(Z,bits-1,0,v.e); return Z3_mk_zero_ext(Z,bits-b,v.e); }
    case Z3_BOOL_SORT: return Z3_mk_ite(Z,v.e,zbv(1,bits),zbv(0,bits));
    default: endPath(END_INCOMPLETE,"bit-level use of a symbolic floating-point value");
  } }
Z3_ast asReal(const Val& v,bool isFloat){
  if(!v.e){ double d; if(isFloat){ float f; u32 x=(u32)v.c; memcpy(&f,&x,4); d=f; } else memcpy(&d,&v.c,8); return zreal(d); }
  switch(sk(v.e)){
    case Z3_REAL_SORT: return v.e;
    case Z3_BV_SORT: { if(!Z3_is_app(Z,v.e)||Z3_get_app_num_args(Z,Z3_to_app(Z,v.e))>0) endPath(END_INCOMPLETE,"symbolic integer bits used as floating-point value");
       auto it=bv2real.find(v.e); if(it!=bv2real.end()) return it->second; Z3_ast r=freshReal("undef"); bv2real[v.e]=r; return r; }
    default: endPath(END_INCOMPLETE,"bool as floating-point value");
  } }
Z3_ast asBool(const Val& v){
  if(!v.e) return (v.c&1)?Z3_mk_true(Z):Z3_mk_false(Z);
  if(sk(v.e)==Z3_BOOL_SORT) return v.e;
  if(sk(v.e)==Z3_BV_SORT){ unsigned b=Z3_get_bv_sort_size(Z,Z3_get_sort(Z,v.e)); return Z3_mk_eq(Z, b==1?v.e:Z3_mk_extract(Z,0,0,v.e), zbv(1,1)); }
  endPath(END_INCOMPLETE,"fp as bool"); }
// equality of bit-vectors; a choice among constants compared with a constant becomes the condition itself
static Z3_ast iteEq(Z3_ast t,Z3_ast k,int d){ if(Z3_get_ast_kind(Z,t)==Z3_NUMERAL_AST) return t==k?Z3_mk_true(Z):Z3_mk_false(Z);
  if(d>0&&Z3_get_ast_kind(Z,t)==Z3_APP_AST){ Z3_app a=Z3_to_app(Z,t); if(Z3_get_decl_kind(Z,Z3_get_app_decl(Z,a))==Z3_OP_ITE){ Z3_ast x=iteEq(Z3_get_app_arg(Z,a,1),k,d-1); if(!x) return nullptr; Z3_ast y=iteEq(Z3_get_app_arg(Z,a,2),k,d-1); if(!y) return nullptr; return zsimp(Z3_mk_ite(Z,Z3_get_app_arg(Z,a,0),x,y)); } }
  return nullptr; }
Z3_ast zeqBV(Z3_ast a,Z3_ast b){ a=zsimp(a); b=zsimp(b); if(Z3_get_ast_kind(Z,a)==Z3_NUMERAL_AST) std::swap(a,b); if(Z3_get_ast_kind(Z,b)==Z3_NUMERAL_AST){ Z3_ast r=iteEq(a,b,8); if(r) return r; } return Z3_mk_eq(Z,a,b); }
Val fromBV(Z3_ast e,unsigned bits){ e=zsimp(e); u64 x; if(bits<=64 && Z3_get_ast_kind(Z,e)==Z3_NUMERAL_AST && Z3_get_numeral_uint64(Z,e,&x)) return Val(x); return mkE(e); }
Val fromBool(Z3_ast e){ e=zsimp(e); if(isTrue(e)) return Val(1); if(isFalse(e)) return Val(0); return mkE(e); }

// ------------------------------------------------------------ solving
void addPC(Z3_ast e){ gPC.push_back(e); Z3_solver_assert(Z,gSol,e); }
static void setModel(Z3_model m){ Z3_model_inc_ref(Z,m); gModel=m; }
void resetModel(Z3_model m){ gModel=m; }
static int runCheck(Z3_solver s,Z3_model* m){
  auto t=std::chrono::steady_clock::now(); S->queries++;
  Z3_lbool r=Z3_solver_check(Z,s);
  S->solver_us+=std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now()-t).count();
  if(O.trace){ double q=std::chrono::duration<double>(std::chrono::steady_clock::now()-t).count(); if(q>0.7) fprintf(stderr,"SLOW %.1fs result %d\n%s\n",q,(int)r,Z3_solver_to_string(Z,s)); }
  if(r==Z3_L_TRUE){ S->qsat++; if(m){ *m=Z3_solver_get_model(Z,s); Z3_model_inc_ref(Z,*m);} return 1; }
  if(r==Z3_L_FALSE){ S->qunsat++; return 0; }
  S->qunknown++; return -1; }
int solveWith(Z3_ast extra,Z3_model* m){
  if(S->stop.load()) endPath(END_STOP);
  if(elapsed()>O.tlimit) endPath(END_INCOMPLETE,"time limit");
  Z3_solver_push(Z,gSol); if(extra) Z3_solver_assert(Z,gSol,extra);
  int r=runCheck(gSol,m); Z3_solver_pop(Z,gSol,1);
  if(r==-1){ // retry with the general-purpose tactic-based solver
    S->reals_nl++;
    Z3_solver s2=Z3_mk_solver(Z); Z3_solver_inc_ref(Z,s2);
    Z3_params pr=Z3_mk_params(Z); Z3_params_inc_ref(Z,pr); Z3_params_set_uint(Z,pr,Z3_mk_string_symbol(Z,"rlimit"),(unsigned)O.rlimit); Z3_params_set_uint(Z,pr,Z3_mk_string_symbol(Z,"timeout"),20000); Z3_solver_set_params(Z,s2,pr);
    for(auto p:gPC) Z3_solver_assert(Z,s2,p); if(extra) Z3_solver_assert(Z,s2,extra);
    r=runCheck(s2,m); Z3_solver_dec_ref(Z,s2);
  }
  return r; }
static int evalIn(Z3_model m,Z3_ast c){ Z3_ast r; if(!m||!Z3_model_eval(Z,m,c,true,&r)) return -1; if(isTrue(r)) return 1; if(isFalse(r)) return 0; return -1; }

static void reap(bool all){ while(!kids.empty()){ int st; pid_t p=waitpid(-1,&st,all?0:WNOHANG); if(p<=0) break; for(size_t i=0;i<kids.size();i++) if(kids[i]==p){ kids.erase(kids.begin()+i); break; }
   if(WIFSIGNALED(st)){ S->incomplete++; fprintf(stderr,"engine: child killed by signal %d\n",WTERMSIG(st)); } } }
// returns true in the child
static bool doFork(){
  if(S->stop.load()) endPath(END_STOP);
  if(elapsed()>O.tlimit) endPath(END_INCOMPLETE,"time limit");
  S->forks++; reap(false);
  char c; bool tok = read(tokR,&c,1)==1;
  fflush(stdout); fflush(stderr);
  pid_t p=fork(); { extern u64 g_inst,g_acct; if(p==0) g_acct=g_inst; }
  if(p<0){ if(tok) (void)!write(tokW,&c,1); endPath(END_INCOMPLETE,"fork failed"); }
  if(p==0){ kids.clear(); heldToken=tok; return true; }
  if(tok) kids.push_back(p);
  else { int st; waitpid(p,&st,0); if(WIFSIGNALED(st)){ S->incomplete++; fprintf(stderr,"engine: child killed by signal %d\n",WTERMSIG(st)); } }
  return false; }
void finishProcess(){
  if(heldToken){ char c='t'; (void)!write(tokW,&c,1); heldToken=false; }
  reap(true); }

bool decide(Z3_ast cond){
  cond=zsimp(cond); if(isTrue(cond)) return true; if(isFalse(cond)) return false;
  Z3_ast nc=znot(cond); int v=evalIn(gModel,cond); Z3_model mt=nullptr,mf=nullptr; int ft,ff;
  if(v==1){ ft=1; mt=gModel; } else ft=solveWith(cond,&mt);
  if(v==0){ ff=1; mf=gModel; } else ff=(ft==0)?1:solveWith(nc,&mf);
  if(ft==0){ if(mf) gModel=mf; return false; }
  if(ff==0){ if(mt) gModel=mt; return true; }
  if(doFork()){ gModel=mf; addPC(nc); return false; }
  gModel=mt; addPC(cond); return true; }
int chooseFork(int n,const char* name,i64 lo,bool record){
  if(n<=0) endPath(END_INFEASIBLE,"empty choice");
  S->choices++;
  int pick=n-1; for(int i=0;i<n-1;i++) if(doFork()){ pick=i; break; }
  if(record){ Input in; in.name=name; in.kind='c'; in.e=nullptr; in.conc=lo+pick; in.bits=32; g_inputs.push_back(in); }
  return pick; }
u64 concretize(const Val& v,unsigned bits,const char* what){
  if(!v.e) return v.c;
  Z3_ast e=zsimp(asBV(v,bits)); u64 x; if(Z3_get_ast_kind(Z,e)==Z3_NUMERAL_AST && Z3_get_numeral_uint64(Z,e,&x)) return x;
  for(int it=0;it<4096;it++){
    Z3_model m=gModel; if(!m){ int r=solveWith(nullptr,&m); if(r==0) endPath(END_INFEASIBLE); if(r<0) endPath(END_INCOMPLETE,std::string("unknown while concretizing ")+what); }
    Z3_ast r; if(!Z3_model_eval(Z,m,e,true,&r)||!Z3_get_numeral_uint64(Z,r,&x)) endPath(END_INCOMPLETE,"concretize");
    Z3_ast eq=Z3_mk_eq(Z,e,zbv(x,bits)); Z3_model m2=nullptr; int o=solveWith(znot(eq),&m2);
    if(o==0){ addPC(eq); return x; }
    if(doFork()){ addPC(eq); gModel=m; return x; }
    addPC(znot(eq)); gModel=m2;
  }
  endPath(END_INCOMPLETE,std::string("too many values for ")+what); }

// ------------------------------------------------------------ candidates
static double numToDouble(Z3_ast r){
  if(Z3_is_algebraic_number(Z,r) && Z3_get_ast_kind(Z,r)!=Z3_NUMERAL_AST) r=Z3_get_algebraic_number_lower(Z,r,30);
  if(Z3_get_ast_kind(Z,r)!=Z3_NUMERAL_AST){ r=zsimp(r); if(Z3_get_ast_kind(Z,r)!=Z3_NUMERAL_AST) return 0.5; }
  std::string s=Z3_get_numeral_string(Z,r); size_t sl=s.find('/');
  if(sl==std::string::npos) return strtod(s.c_str(),0);
  std::string a=s.substr(0,sl),b=s.substr(sl+1);
  long double x=strtold(a.c_str(),0),y=strtold(b.c_str(),0); return (double)(x/y); }
static void writeInputs(FILE* f,Z3_model m){
  for(auto& in:g_inputs){
    if(in.kind=='c'||in.kind=='s'){ fprintf(f,"%c %s %lld\n",in.kind,in.name.c_str(),(long long)in.conc); continue; }
    Z3_ast r; if(!m||!Z3_model_eval(Z,m,in.e,true,&r)) r=nullptr;
    if(in.kind=='i'){ u64 x=0; if(r){ Z3_ast s=zsimp(r); Z3_get_numeral_uint64(Z,s,&x);} i64 sx= in.bits>=64?(i64)x:(i64)(x<<(64-in.bits))>>(64-in.bits); fprintf(f,"i %s %lld\n",in.name.c_str(),(long long)sx); }
    else { double d=r?numToDouble(r):0.5; fprintf(f,"d %s %.17g\n",in.name.c_str(),d); }
  } }
static Z3_ast boundLeaves(double B){
  std::vector<Z3_ast> c; for(auto& in:g_inputs) if(in.kind=='d'){ c.push_back(Z3_mk_le(Z,in.e,zreal(B))); c.push_back(Z3_mk_ge(Z,in.e,zreal(-B))); }
  if(c.empty()) return Z3_mk_true(Z); return Z3_mk_and(Z,c.size(),c.data()); }
static Z3_ast conj(Z3_ast a,Z3_ast b){ Z3_ast x[2]={a,b}; return Z3_mk_and(Z,2,x); }
static std::atomic<int> seq;
static void writeCand(const std::string& id,const std::string& what,Z3_model m){
  static int n=0; char fn[512]; snprintf(fn,sizeof fn,"%s/cand_%d_%d.txt",O.out.c_str(),(int)getpid(),n++);
  std::string tmp=std::string(fn)+".tmp"; FILE* f=fopen(tmp.c_str(),"w"); if(!f) return;
  fprintf(f,"# id %s\n# what %s\n",id.c_str(),what.c_str()); writeInputs(f,m); fclose(f); rename(tmp.c_str(),fn); S->cands++; }
void writeWitness(const char* id){
  Z3_model m=nullptr; int r=solveWith(boundLeaves(50),&m); if(r!=1) r=solveWith(nullptr,&m); if(r!=1) return;
  static int n=0; char fn[512]; snprintf(fn,sizeof fn,"%s/wit_%d_%d.txt",O.out.c_str(),(int)getpid(),n++);
  std::string tmp=std::string(fn)+".tmp"; FILE* f=fopen(tmp.c_str(),"w"); if(!f) return; fprintf(f,"# id %s\n",id); writeInputs(f,m); fclose(f); rename(tmp.c_str(),fn); S->witnesses++; }
static int totalCap(){ return 24; }
// Concrete counterexamples should give square roots their value: with real variables for the roots and their defining equations.
std::vector<std::pair<Z3_ast,Z3_ast>> g_roots; // (argument, application)
static int solveRoots(Z3_ast extra,Z3_model* m){
  if(g_roots.empty()||g_roots.size()>8) return -1;
  std::vector<Z3_ast> from,to,fs; for(auto& r:g_roots){ from.push_back(r.second); Z3_ast c=freshReal("root"); to.push_back(c); }
  std::vector<Z3_ast> all=gPC; if(extra) all.push_back(extra); for(size_t i=0;i<to.size();i++){ Z3_ast x[2]={to[i],to[i]}; all.push_back(Z3_mk_ge(Z,to[i],zreal(0))); all.push_back(Z3_mk_eq(Z,Z3_mk_mul(Z,2,x),g_roots[i].first)); }
  Z3_solver s=Z3_mk_solver(Z); Z3_solver_inc_ref(Z,s); Z3_params pr=Z3_mk_params(Z); Z3_params_inc_ref(Z,pr); Z3_params_set_uint(Z,pr,Z3_mk_string_symbol(Z,"timeout"),5000); Z3_solver_set_params(Z,s,pr);
  for(auto p:all) Z3_solver_assert(Z,s,zsimp(Z3_substitute(Z,p,from.size(),from.data(),to.data()))); int r=runCheck(s,m); Z3_solver_dec_ref(Z,s); return r; }
// A violation that holds on this whole path (memory error, abort, ...), or under negcond.
void report(const std::string& id,const std::string& what,Z3_ast negcond,bool){
  int i=idOf(id.c_str()); if(S->idcand[i].fetch_add(1)>=O.maxcand) return;
  Z3_model m=nullptr; Z3_ast b=boundLeaves(100); int r=solveRoots(negcond?conj(negcond,b):b,&m); if(r!=1){ m=nullptr; r=solveWith(negcond?conj(negcond,b):b,&m); } if(r!=1){ m=nullptr; r=solveWith(negcond,&m); }
  if(r==0){ S->idcand[i]--; return; }
  writeCand(id,what,r==1?m:nullptr);
  if((int)S->cands.load()>=totalCap()) S->stop=1; }
struct Pend { std::string id,what; Z3_ast cond; Z3_ast a,b; };
static std::vector<Pend> pend;
void assertCheck(const std::string& id,Z3_ast cond,const std::string& what){
  int i=idOf(id.c_str()); S->idreach[i]++; cond=zsimp(cond);
  if(isTrue(cond)){ S->asserts_sym++; S->asserts_discharged++; return; }
  S->asserts_sym++; pend.push_back({id,what,cond,nullptr,nullptr}); if(isFalse(cond)||pend.size()>4000) flushAsserts(); }
extern Val g_dummy;
void assertSame(const std::string& id,const Val& a,const Val& b){
  int i=idOf(id.c_str()); S->idreach[i]++;
  if(!a.e&&!b.e){ double x,y; memcpy(&x,&a.c,8); memcpy(&y,&b.c,8); S->asserts_conc++;
    if(x==y||(x!=x&&y!=y)) return; double s=std::max(1.0,std::max(std::fabs(x),std::fabs(y))); if(std::fabs(x-y)<=1e-9*s) return;
    report(id,"values differ",nullptr,true); return; }
  S->asserts_sym++; Z3_ast ra=asReal(a),rb=asReal(b); if(ra==rb){ S->asserts_discharged++; return; }
  Z3_ast eq=zsimp(Z3_mk_eq(Z,ra,rb)); if(isTrue(eq)){ S->asserts_discharged++; return; }
  pend.push_back({id,"values differ",eq,ra,rb}); if(pend.size()>4000) flushAsserts(); }
static Z3_ast zabs(Z3_ast x){ return Z3_mk_ite(Z,Z3_mk_ge(Z,x,zreal(0)),x,Z3_mk_unary_minus(Z,x)); }
static Z3_ast zadd(Z3_ast a,Z3_ast b){ Z3_ast x[2]={a,b}; return Z3_mk_add(Z,2,x); }
static Z3_ast zsub(Z3_ast a,Z3_ast b){ Z3_ast x[2]={a,b}; return Z3_mk_sub(Z,2,x); }
static Z3_ast zmul(Z3_ast a,Z3_ast b){ Z3_ast x[2]={a,b}; return Z3_mk_mul(Z,2,x); }
static Z3_ast polyEq(Z3_ast a,Z3_ast b){ // sum-of-monomials normal form of a-b = 0
  Z3_params p=Z3_mk_params(Z); Z3_params_inc_ref(Z,p); Z3_params_set_bool(Z,p,Z3_mk_string_symbol(Z,"som"),true); Z3_params_set_uint(Z,p,Z3_mk_string_symbol(Z,"som_blowup"),1000000); Z3_params_set_bool(Z,p,Z3_mk_string_symbol(Z,"arith_lhs"),true);
  Z3_ast d=Z3_simplify_ex(Z,zsub(a,b),p); return zsimp(Z3_mk_eq(Z,d,zreal(0))); }
// Rational-function normal form: a-b = N/D with D a product of divisors; equal when N expands to zero and no divisor can vanish.
struct Rat { Z3_ast n; std::map<Z3_ast,int> d; };
static Z3_ast facs(const std::map<Z3_ast,int>& d){ Z3_ast r=zreal(1); for(auto& f:d) for(int i=0;i<f.second;i++) r=zmul(r,f.first); return r; }
static std::map<Z3_ast,int> lessen(const std::map<Z3_ast,int>& l,const std::map<Z3_ast,int>& d){ std::map<Z3_ast,int> r=l; for(auto& f:d) if((r[f.first]-=f.second)<=0) r.erase(f.first); return r; }
static Rat ratOf(Z3_ast e,std::unordered_map<Z3_ast,Rat>& memo,std::vector<Z3_ast>& dens){
  auto it=memo.find(e); if(it!=memo.end()) return it->second; Rat r; r.n=e;
  if(Z3_get_ast_kind(Z,e)==Z3_APP_AST){ Z3_app a=Z3_to_app(Z,e); Z3_decl_kind k=Z3_get_decl_kind(Z,Z3_get_app_decl(Z,a)); unsigned n=Z3_get_app_num_args(Z,a);
    if(k==Z3_OP_MUL){ r.n=zreal(1); for(unsigned i=0;i<n;i++){ Rat x=ratOf(Z3_get_app_arg(Z,a,i),memo,dens); r.n=zmul(r.n,x.n); for(auto& f:x.d) r.d[f.first]+=f.second; } }
    else if(k==Z3_OP_ADD||k==Z3_OP_SUB){ std::vector<Rat> xs; for(unsigned i=0;i<n;i++){ xs.push_back(ratOf(Z3_get_app_arg(Z,a,i),memo,dens)); for(auto& f:xs.back().d) r.d[f.first]=std::max(r.d[f.first],f.second); }
      r.n=nullptr; for(auto& x:xs){ Z3_ast t=zmul(x.n,facs(lessen(r.d,x.d))); r.n= !r.n?t: k==Z3_OP_ADD?zadd(r.n,t):zsub(r.n,t); } }
    else if(k==Z3_OP_UMINUS){ r=ratOf(Z3_get_app_arg(Z,a,0),memo,dens); r.n=Z3_mk_unary_minus(Z,r.n); }
    else if(k==Z3_OP_DIV){ Rat x=ratOf(Z3_get_app_arg(Z,a,0),memo,dens),y=ratOf(Z3_get_app_arg(Z,a,1),memo,dens); Z3_ast den=Z3_get_app_arg(Z,a,1); dens.push_back(den);
      r.n=zmul(x.n,facs(y.d)); r.d=x.d; std::function<void(Z3_ast)> split=[&](Z3_ast t){ if(Z3_get_ast_kind(Z,t)==Z3_APP_AST&&Z3_get_decl_kind(Z,Z3_get_app_decl(Z,Z3_to_app(Z,t)))==Z3_OP_MUL){ Z3_app q=Z3_to_app(Z,t); for(unsigned i=0;i<Z3_get_app_num_args(Z,q);i++) split(Z3_get_app_arg(Z,q,i)); } else if(Z3_get_ast_kind(Z,t)==Z3_NUMERAL_AST){ Z3_ast x2[2]={zreal(1),t}; r.n=zmul(r.n,zsimp(Z3_mk_div(Z,x2[0],t))); } else r.d[t]++; }; split(y.n); } }
  memo[e]=r; return r; }
static bool hasDiv(Z3_ast e,std::unordered_map<Z3_ast,bool>& memo){ auto it=memo.find(e); if(it!=memo.end()) return it->second; bool r=false; if(Z3_get_ast_kind(Z,e)==Z3_APP_AST){ Z3_app a=Z3_to_app(Z,e); if(Z3_get_decl_kind(Z,Z3_get_app_decl(Z,a))==Z3_OP_DIV) r=true; for(unsigned i=0;!r&&i<Z3_get_app_num_args(Z,a);i++) r=hasDiv(Z3_get_app_arg(Z,a,i),memo); } memo[e]=r; return r; }
// Conditional terms whose condition the path condition settles are replaced by the branch taken.
static bool hasDiv(Z3_ast e,std::unordered_map<Z3_ast,bool>& memo);
static std::unordered_map<Z3_ast,int> condKnown;
static int settled(Z3_ast c){ auto it=condKnown.find(c); if(it!=condKnown.end()) return it->second; int v=evalIn(gModel,c),r=-1;
  if(v!=0&&solveWith(znot(c),nullptr)==0) r=1; else if(v!=1&&solveWith(c,nullptr)==0) r=0; Z3_inc_ref(Z,c); if(r>=0) condKnown[c]=r; return r; }
static Z3_ast settleItes(Z3_ast e){
  for(int round=0;round<8;round++){ std::vector<Z3_ast> from,to; std::unordered_map<Z3_ast,bool> seen; int asked=0;
    std::function<void(Z3_ast)> walk=[&](Z3_ast t){ if(seen[t]) return; seen[t]=true; if(Z3_get_ast_kind(Z,t)!=Z3_APP_AST) return; Z3_app a=Z3_to_app(Z,t);
      if(Z3_get_decl_kind(Z,Z3_get_app_decl(Z,a))==Z3_OP_ITE&&asked<64){ asked++; int r=settled(Z3_get_app_arg(Z,a,0)); if(r>=0){ from.push_back(t); to.push_back(Z3_get_app_arg(Z,a,r?1:2)); return; }
        if(Z3_get_sort(Z,t)==REAL){ Z3_ast c=Z3_get_app_arg(Z,a,0),x=Z3_get_app_arg(Z,a,1),y=Z3_get_app_arg(Z,a,2); std::unordered_map<Z3_ast,bool> hd; if(!hasDiv(x,hd)&&!hasDiv(y,hd)){ Z3_ast ne=znot(Z3_mk_eq(Z,x,y)); Z3_ast q1[2]={c,ne},q2[2]={znot(c),ne};
          if(solveWith(Z3_mk_and(Z,2,q1),nullptr)==0){ from.push_back(t); to.push_back(y); return; } if(solveWith(Z3_mk_and(Z,2,q2),nullptr)==0){ from.push_back(t); to.push_back(x); return; } } } }
      for(unsigned i=0;i<Z3_get_app_num_args(Z,a);i++) walk(Z3_get_app_arg(Z,a,i)); };
    walk(e); if(from.empty()) return e; e=Z3_substitute(Z,e,from.size(),from.data(),to.data()); }
  return e; }
static bool ratEq(Z3_ast a,Z3_ast b){
  std::unordered_map<Z3_ast,bool> hd; if(!hasDiv(a,hd)&&!hasDiv(b,hd)) return false;
  std::unordered_map<Z3_ast,Rat> memo; std::vector<Z3_ast> dens; Rat r=ratOf(zsub(a,b),memo,dens); if(!isTrue(polyEq(r.n,zreal(0)))) return false;
  for(Z3_ast d:dens){ if(solveWith(Z3_mk_eq(Z,d,zreal(0)),nullptr)!=0) return false; } return true; }
// Applications of uninterpreted functions whose arguments have equal normal forms are merged.
static bool isUF(Z3_ast e){ if(Z3_get_ast_kind(Z,e)!=Z3_APP_AST) return false; Z3_app a=Z3_to_app(Z,e); return Z3_get_app_num_args(Z,a)>0&&Z3_get_decl_kind(Z,Z3_get_app_decl(Z,a))==Z3_OP_UNINTERPRETED; }
static void collectUF(Z3_ast e,std::unordered_map<Z3_ast,bool>& seen,std::vector<Z3_ast>& out){ if(seen[e]) return; seen[e]=true; if(Z3_get_ast_kind(Z,e)!=Z3_APP_AST) return; Z3_app a=Z3_to_app(Z,e); for(unsigned i=0;i<Z3_get_app_num_args(Z,a);i++) collectUF(Z3_get_app_arg(Z,a,i),seen,out); if(isUF(e)) out.push_back(e); }
static bool hasUF(Z3_ast e){ std::unordered_map<Z3_ast,bool> seen; std::vector<Z3_ast> o; collectUF(e,seen,o); return !o.empty(); }
static bool equalBySplit(Z3_ast a,Z3_ast b,int depth);
static void mergeUF(Z3_ast& a,Z3_ast& b){
  for(int round=0;round<16;round++){ std::unordered_map<Z3_ast,bool> seen; std::vector<Z3_ast> u; collectUF(a,seen,u); collectUF(b,seen,u); bool did=false; if(u.size()>40) return;
    for(size_t i=0;i<u.size()&&!did;i++) for(size_t j=i+1;j<u.size()&&!did;j++){ Z3_app x=Z3_to_app(Z,u[i]),y=Z3_to_app(Z,u[j]); if(Z3_get_app_decl(Z,x)!=Z3_get_app_decl(Z,y)) continue; bool eq=true;
      for(unsigned k=0;eq&&k<Z3_get_app_num_args(Z,x);k++){ Z3_ast p=Z3_get_app_arg(Z,x,k),q=Z3_get_app_arg(Z,y,k); if(p==q) continue; eq= Z3_get_sort(Z,p)==REAL&&equalBySplit(p,q,2); }
      if(eq){ a=Z3_substitute(Z,a,1,&u[j],&u[i]); b=Z3_substitute(Z,b,1,&u[j],&u[i]); did=true; } }
    if(!did) return; } }
// Numeric value of a term under a model, with the mathematical functions given their meaning.
static double numEval(Z3_ast e,Z3_model m,std::unordered_map<Z3_ast,double>& memo){
  auto it=memo.find(e); if(it!=memo.end()) return it->second; double r=NAN;
  if(Z3_get_ast_kind(Z,e)==Z3_NUMERAL_AST) r=numToDouble(e);
  else if(Z3_get_ast_kind(Z,e)==Z3_APP_AST){ Z3_app a=Z3_to_app(Z,e); unsigned n=Z3_get_app_num_args(Z,a); auto A=[&](unsigned i){ return numEval(Z3_get_app_arg(Z,a,i),m,memo); }; Z3_decl_kind k=Z3_get_decl_kind(Z,Z3_get_app_decl(Z,a));
    bool real0= n>0&&Z3_get_sort(Z,Z3_get_app_arg(Z,a,0))==REAL, bool0= n>0&&Z3_get_sort(Z,Z3_get_app_arg(Z,a,0))==BOOL;
    switch(k){
      case Z3_OP_ADD: r=0; for(unsigned i=0;i<n;i++) r+=A(i); break; case Z3_OP_MUL: r=1; for(unsigned i=0;i<n;i++) r*=A(i); break; case Z3_OP_SUB: r=A(0); for(unsigned i=1;i<n;i++) r-=A(i); break;
      case Z3_OP_UMINUS: r=-A(0); break; case Z3_OP_DIV: r=A(0)/A(1); break; case Z3_OP_ITE: r= A(0)!=0?A(1):A(2); break;
      case Z3_OP_NOT: r=A(0)==0; break; case Z3_OP_AND: r=1; for(unsigned i=0;i<n;i++) if(A(i)==0) r=0; break; case Z3_OP_OR: r=0; for(unsigned i=0;i<n;i++) if(A(i)!=0) r=1; break; case Z3_OP_TRUE: r=1; break; case Z3_OP_FALSE: r=0; break;
      case Z3_OP_LE: if(real0){ r=A(0)<=A(1); break; } goto other; case Z3_OP_GE: if(real0){ r=A(0)>=A(1); break; } goto other; case Z3_OP_LT: if(real0){ r=A(0)<A(1); break; } goto other; case Z3_OP_GT: if(real0){ r=A(0)>A(1); break; } goto other; case Z3_OP_EQ: case Z3_OP_IFF: if(real0||bool0){ r=A(0)==A(1); break; } goto other;
      case Z3_OP_UNINTERPRETED: if(n>0){ std::string f=Z3_get_symbol_string(Z,Z3_get_decl_name(Z,Z3_get_app_decl(Z,a)));
          static const std::map<std::string,double(*)(double)> F={{"sin",sin},{"cos",cos},{"tan",tan},{"exp",exp},{"tanh",tanh},{"sqrt",sqrt},{"log",log},{"log10",log10},{"erf",erf},{"erfc",erfc},{"sinh",sinh},{"cosh",cosh},{"asin",asin},{"acos",acos},{"atan",atan},{"exp2",exp2},{"log2",log2},{"cbrt",cbrt},{"expm1",expm1},{"log1p",log1p}};
          auto q=F.find(f); if(q!=F.end()) r=q->second(A(0)); else if(f=="pow") r=pow(A(0),A(1)); else if(f=="atan2") r=atan2(A(0),A(1)); break; }
      default: other: { Z3_ast v; if(m&&Z3_model_eval(Z,m,e,true,&v)){ if(isTrue(v)) r=1; else if(isFalse(v)) r=0; else if(Z3_get_sort(Z,v)==REAL) r=numToDouble(v); } } } }
  memo[e]=r; return r; }
// A model of the path condition with generic values: tried first on nonlinear equalities whose normal forms differ.
static Z3_model genericModel(){
  std::vector<Z3_ast> fix; Z3_model m=nullptr; int k=0; if(solveWith(nullptr,&m)!=1) return nullptr;
  for(auto& in:g_inputs) if(in.kind=='d'){ static const double pick[]={1.5,-2.75,3.125,0.625,-4.375,7.25,2.0625,-0.84375}; k++;
    for(int t=0;t<3;t++){ double v=pick[(k+3*t)%8]+ (t==2?0:0.109375*k); std::vector<Z3_ast> f=fix; f.push_back(Z3_mk_eq(Z,in.e,zreal(v))); Z3_model m2=nullptr;
      if(solveWith(Z3_mk_and(Z,f.size(),f.data()),&m2)==1){ fix=f; m=m2; break; } } }
  return m; }
static bool differsIn(Z3_model m,Pend& q){ if(!m) return false;
  if(hasUF(q.a)||hasUF(q.b)){ std::unordered_map<Z3_ast,double> memo; double x=numEval(q.a,m,memo),y=numEval(q.b,m,memo); if(!std::isfinite(x)||!std::isfinite(y)||std::fabs(x-y)<=1e-6*(1+std::fabs(x)+std::fabs(y))) return false; for(auto p:gPC) if(numEval(p,m,memo)==0) return false; return true; } Z3_ast a=zabs(zsub(q.a,q.b)); Z3_ast rel=zmul(zreal(1e-6),zadd(zreal(1),zadd(zabs(q.a),zabs(q.b)))); return evalIn(m,Z3_mk_gt(Z,a,rel))==1; }
// Equality of terms with divisions: normal forms, splitting on the conditions the path condition leaves open.
static Z3_ast openCond(Z3_ast e,std::unordered_map<Z3_ast,bool>& seen){ if(seen[e]) return nullptr; seen[e]=true; if(Z3_get_ast_kind(Z,e)!=Z3_APP_AST) return nullptr; Z3_app a=Z3_to_app(Z,e);
  if(Z3_get_decl_kind(Z,Z3_get_app_decl(Z,a))==Z3_OP_ITE&&Z3_get_sort(Z,e)==REAL) return Z3_get_app_arg(Z,a,0);
  for(unsigned i=0;i<Z3_get_app_num_args(Z,a);i++) if(Z3_ast c=openCond(Z3_get_app_arg(Z,a,i),seen)) return c; return nullptr; }
static bool equalBySplit(Z3_ast a,Z3_ast b,int depth){
  a=settleItes(a); b=settleItes(b); mergeUF(a,b); if(isTrue(polyEq(a,b))||ratEq(a,b)) return true;
  if(depth<=0) return false; std::unordered_map<Z3_ast,bool> seen; Z3_ast c=openCond(a,seen); if(!c) c=openCond(b,seen); if(!c) return false;
  for(int v=1;v>=0;v--){ Z3_ast e=v?c:znot(c); auto keep=condKnown; Z3_model gm=gModel; Z3_solver_push(Z,gSol); Z3_solver_assert(Z,gSol,e); gPC.push_back(e); Z3_model m=nullptr; int r=solveWith(nullptr,&m); bool ok= r==0; if(!ok){ gModel= r==1?m:nullptr; ok=equalBySplit(a,b,depth-1); }
    gPC.pop_back(); Z3_solver_pop(Z,gSol,1); condKnown.swap(keep); gModel=gm; if(!ok) return false; }
  return true; }
static void checkOne(Pend& q){
  Z3_ast neg=znot(q.cond); Z3_model m=nullptr;
  int i=idOf(q.id.c_str()); if(S->idcand[i].load()>=O.maxcand) return;
  int r=solveWith(neg,&m);
  if(r==0){ S->asserts_discharged++; return; }
  if(q.a){ // floating-point equality: look for a difference beyond rounding
    Z3_ast d=zabs(zsub(q.a,q.b)); Z3_ast B=boundLeaves(100); bool unk=false;
    for(double gap:{1e-2,1e-6}){ Z3_model m2=nullptr; int r2=solveWith(conj(Z3_mk_gt(Z,d,zreal(gap)),B),&m2);
      if(r2==1){ if(S->idcand[i].fetch_add(1)<O.maxcand) writeCand(q.id,q.what,m2); if((int)S->cands.load()>=totalCap()) S->stop=1; return; } if(r2<0) unk=true; }
    Z3_ast rel=zmul(zreal(1e-6),zadd(zreal(1),zadd(zabs(q.a),zabs(q.b)))); Z3_model m3=nullptr; int r3=solveWith(Z3_mk_gt(Z,d,rel),&m3);
    if(r3==1){ if(S->idcand[i].fetch_add(1)<O.maxcand) writeCand(q.id,q.what,m3); if((int)S->cands.load()>=totalCap()) S->stop=1; return; }
    if(r3<0) unk=true;
    if(r<0||unk) { S->asserts_undecided++; fprintf(stderr,"undecided %s\n",q.id.c_str()); } else S->asserts_tol++;
    return; }
  if(r<0){ S->asserts_undecided++; fprintf(stderr,"undecided %s\n",q.id.c_str()); return; }
  report(q.id,q.what,neg,false);
}
void flushAsserts(){
  if(pend.empty()) return; std::vector<Pend> P; P.swap(pend); std::vector<Pend> rest;
  for(auto& q:P){ if(q.a){ Z3_ast e=polyEq(q.a,q.b); if(!isTrue(e)){ Z3_ast a2=settleItes(q.a),b2=settleItes(q.b); if(a2!=q.a||b2!=q.b){ q.a=a2; q.b=b2; e=polyEq(a2,b2); } } std::unordered_map<Z3_ast,bool> hd; if(isTrue(e)||((hasDiv(q.a,hd)||hasDiv(q.b,hd)||hasUF(q.a))&&equalBySplit(q.a,q.b,6))){ S->asserts_discharged++; continue; } q.cond=e; } rest.push_back(q); }
  if(rest.empty()) return;
  { Z3_model gm=nullptr; std::vector<Pend> keep; std::unordered_map<Z3_ast,bool> hd;
    for(auto& q:rest){ if(q.a&&(hasDiv(q.a,hd)||hasDiv(q.b,hd)||hasUF(q.a)||hasUF(q.b))){ if(!gm) gm=genericModel();
        if(differsIn(gm,q)){ int i=idOf(q.id.c_str()); if(S->idcand[i].fetch_add(1)<O.maxcand) writeCand(q.id,q.what,gm); if((int)S->cands.load()>=totalCap()) S->stop=1; continue; } }
      keep.push_back(q); }
    rest.swap(keep); if(rest.empty()) return; }
  if(O.trace) for(auto& q:rest) fprintf(stderr,"REST %s %s\n",q.id.c_str(),Z3_ast_to_string(Z,q.cond));
  std::vector<Z3_ast> cs; for(auto& q:rest) cs.push_back(q.cond);
  Z3_ast all=cs.size()==1?cs[0]:Z3_mk_and(Z,cs.size(),cs.data());
  if(rest.size()>1){ int r=solveWith(znot(all),nullptr); if(r==0){ S->asserts_discharged+=rest.size(); return; } }
  for(auto& q:rest) checkOne(q); }
