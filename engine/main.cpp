#include <sys/resource.h>
#include "exec.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/Demangle/Demangle.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <signal.h>
#include <errno.h>
#include <llvm/IR/DebugInfo.h>
#include <set>
void baseInit(); double elapsed(); void run(); void writeWitness(const char*);
extern std::unordered_map<Function*,int> g_ord; std::unordered_map<const Metadata*,int> g_subIdx; extern u64 g_inst,g_acct; 
static pid_t rootPid; static std::vector<std::string> fnNames; std::vector<int> g_reached; static bool ending=false;
static void note(const std::string& s){ std::string f=O.out+"/incomplete.txt"; int fd=open(f.c_str(),O_WRONLY|O_CREAT|O_APPEND,0644); if(fd>=0){ std::string l=s+"\n"; (void)!::write(fd,l.data(),l.size()); close(fd); } }
static std::string js(const std::string& s){ std::string r="\""; for(char ch:s){ if(ch=='"'||ch=='\\'){ r+='\\'; r+=ch; } else if((unsigned char)ch<32) r+=' '; else r+=ch; } return r+"\""; }
static void summary(){
  FILE* f=fopen((O.out+"/summary.json").c_str(),"w"); if(!f) return;
  fprintf(f,"{\n"); 
#define P(n) fprintf(f," \"%s\": %llu,\n",#n,(unsigned long long)S->n.load())
  P(paths);P(infeasible);P(queries);P(qsat);P(qunsat);P(qunknown);P(insts);P(forks);P(asserts_sym);P(asserts_conc);P(asserts_discharged);P(asserts_tol);P(asserts_undecided);P(cands);P(incomplete);P(witnesses);P(choices);P(schedpts);P(maxthreads);
  fprintf(f," \"solver_s\": %.3f,\n \"wall_s\": %.3f,\n \"stopped\": %d,\n",S->solver_us.load()/1e6,elapsed(),S->stop.load());
  fprintf(f," \"ids\": {"); int n=S->nids.load(); for(int i=0;i<n;i++) fprintf(f,"%s%s: {\"reached\": %llu, \"cands\": %d, \"kind\": %d}",i?", ":"",js(S->idname[i]).c_str(),(unsigned long long)S->idreach[i].load(),S->idcand[i].load(),S->idkind[i].load()); fprintf(f,"},\n");
  fprintf(f," \"functions\": ["); std::set<std::string> seen; bool first=true;
  for(size_t i=0;i<fnNames.size()&&i<MAXFN;i++) if(S->fn[i].load()){ std::string d=llvm::demangle(fnNames[i]); 
    if(d.size()>200) d=d.substr(0,200)+"..."; if(!seen.insert(d).second) continue; fprintf(f,"%s%s",first?"":", ",js(d).c_str()); first=false; } 
  fprintf(f,"]\n}\n"); fclose(f); }
void endPath(EndKind k,const std::string& why){
  if(ending) _exit(3);  // nested failure while ending
  S->insts+=g_inst-g_acct; g_acct=g_inst;
  if(k==END_OK){ flushAsserts(); for(int i:g_reached) if(S->idwit[i].exchange(1)==0) { writeWitness(S->idname[i]); g_reached.clear(); break; } if((int)S->witnesses.load()<O.maxwit) writeWitness("path"); S->paths++; }
  else if(k==END_INFEASIBLE){ flushAsserts(); S->infeasible++; }
  else if(k==END_VIOL) S->paths++;
  else if(k==END_INCOMPLETE){ S->incomplete++; note(why); }
  ending=true; finishProcess();
  if(getpid()==rootPid) summary();
  fflush(stdout); fflush(stderr); _exit(0); }
u64 globalNamed(const char* n){ GlobalValue* g=M->getNamedValue(n); return g&&g_addr.count(g)?g_addr[g]:0; }
static void runFn(Function* F,const std::vector<Val>& a){ T->stat=T_RUN; enterFn(F,a); run(); }
Val evalConstX(const Constant*);
int main(int argc,char** argv){
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); };
    if(a=="--bc") O.bc=nx(); else if(a=="--out") O.out=nx(); else if(a=="--entry") O.entry=nx(); else if(a=="--jobs") O.jobs=atoi(nx().c_str()); else if(a=="--time") O.tlimit=atof(nx().c_str()); else if(a=="--rlimit") O.rlimit=strtoull(nx().c_str(),0,10); else if(a=="--preempt") O.preempt=atoi(nx().c_str()); else if(a=="--maxcand") O.maxcand=atoi(nx().c_str()); else if(a=="--maxwit") O.maxwit=atoi(nx().c_str()); else if(a=="--grace") O.grace=atof(nx().c_str()); else if(a=="--blockcost") O.blockcost=true; else if(a=="--spurious") O.spurious=true; else if(a=="--trace") O.trace=true; else if(a=="--maxinst") O.maxinst=strtoull(nx().c_str(),0,10);
    else if(a=="--cfg"){ std::string kv=nx(); size_t e=kv.find('='); O.cfg[kv.substr(0,e)]=kv.substr(e+1); } else { fprintf(stderr,"bad option %s\n",a.c_str()); return 2; } }
  rootPid=getpid(); { struct rlimit rl; rl.rlim_cur=rl.rlim_max=(rlim_t)(O.tlimit+90); setrlimit(RLIMIT_CPU,&rl); }  // no stray process outlives the run for long
  baseInit();
  LLVMContext C; SMDiagnostic err; auto mod=parseIRFile(O.bc,err,C); if(!mod){ err.print("engine",errs()); return 2; } M=mod.get(); static DataLayout dl=M->getDataLayout(); DL=&dl;
  Thread* t=new Thread; t->vc={1}; g_thr.push_back(t); T=t;
  { DebugInfoFinder df; df.processModule(*M); for(auto* sp:df.subprograms()){ auto fn=sp->getFilename(); if(!fn.contains("spatialops/")) continue; g_subIdx[sp]=fnNames.size(); fnNames.push_back((sp->getLinkageName().empty()?sp->getName():sp->getLinkageName()).str()); } }
  Obj* zeros=newObj(8192,K_GLOBAL,true,"zeros"); int n=0;
  for(auto& F:*M){ if(F.isIntrinsic()) continue; Obj* o=newObj(16,K_FUNC,true,F.getName().str()); o->ro=true; g_addr[&F]=o->base; g_fnAt[o->base]=&F; if(!F.isDeclaration()){ g_ord[&F]=n++; } }
  for(auto& G:M->globals()){ if(G.getName().starts_with("llvm.")) continue; u64 sz=G.getValueType()->isSized()?DL->getTypeAllocSize(G.getValueType()):8; if(G.isDeclaration()&&sz<2048) sz=2048; Obj* o=newObj(sz,K_GLOBAL,true,G.getName().str()); g_addr[&G]=o->base;
    if(G.isDeclaration()) for(u64 i=0;i+8<=sz;i+=8){ u64 p=zeros->base+4096; memcpy(&o->d[i],&p,8); } }
  for(auto& Al:M->aliases()){ auto* b=Al.getAliaseeObject(); if(b&&g_addr.count(b)) g_addr[&Al]=g_addr[b]; }
  for(auto& G:M->globals()) if(G.hasInitializer()&&g_addr.count(&G)){ storeVal(G.getValueType(),g_addr[&G],evalConstX(G.getInitializer())); }
  for(auto& G:M->globals()) if(g_addr.count(&G)&&G.isConstant()&&!G.isDeclaration()) findObj(g_addr[&G])->ro=true;
  if(auto* g=M->getGlobalVariable("llvm.global_ctors")){ if(auto* ca=dyn_cast<ConstantArray>(g->getInitializer())){ std::vector<std::pair<u64,Function*>> v; for(auto& o:ca->operands()){ auto* s=cast<ConstantStruct>(o); if(auto* f=dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(),f}); } std::stable_sort(v.begin(),v.end(),[](auto&a,auto&b){return a.first<b.first;}); for(auto& p:v) runFn(p.second,{}); } }
  Function* F=M->getFunction(O.entry); if(!F){ fprintf(stderr,"no entry\n"); return 2; }
  fflush(stdout); fflush(stderr); pid_t w=fork();
  if(w==0){ setpgid(0,0); rootPid=getpid(); runFn(F,{}); endPath(END_OK); }
  // the first process only watches the limits, so that a summary exists whatever the workers do
  setpgid(w,w); double first=-1,stopped=-1;
  for(;;){ int st; pid_t r=waitpid(w,&st,WNOHANG); double now=elapsed();
    if(r==w||(r<0&&errno!=EINTR)){ if(WIFEXITED(st)) return WEXITSTATUS(st); S->incomplete++; note("engine process ended by a signal"); break; }
    if(first<0&&S->cands.load()) first=now; if(stopped<0&&S->stop.load()) stopped=now;
    if(now>O.tlimit+5){ S->incomplete++; note("time limit (unfinished solver query)"); break; }
    if(O.grace>0&&first>=0&&now>first+O.grace){ S->incomplete++; note("stopped: enough candidates"); break; }
    if(stopped>=0&&now>stopped+10){ S->incomplete++; break; }
    usleep(20000); }
  kill(-w,SIGKILL); waitpid(w,0,0); summary(); fflush(stdout); _exit(0); }
