// pthread / boost.thread primitives over the modelled scheduler.
#include "exec.h"
#define A(i) (c.a[i].c)
struct Mtx { int owner=-1; int depth=0; bool rec=false; std::vector<u32> vc; };
static std::map<u64,Mtx> mtx;
static void tick(){ if(T->vc.size()<=(size_t)T->id) T->vc.resize(T->id+1,0); T->vc[T->id]++; }
static void acquire(Mtx& m){ m.owner=T->id; m.depth=1; T->held++; vcJoin(T->vc,m.vc); }
static void release(u64 a){ Mtx& m=mtx[a]; m.vc=T->vc; tick(); m.owner=-1; m.depth=0; T->held--; for(auto t:g_thr) if(t->stat==T_MUTEX&&t->waitAddr==a){ t->stat=T_RUN; t->skipYield=true; } }
static void recSched(int v){ Input in; in.name="sched"; in.kind='s'; in.e=nullptr; in.conc=v; in.bits=32; g_inputs.push_back(in); }
static MRes t_init(Call& c){ Mtx m; if(A(1)){ Val v=memLoad(A(1),4,false); m.rec=(!v.e&&v.c==1); } mtx[A(0)]=m; c.ret=Val(0); return M_DONE; }
static MRes t_destroy(Call& c){ auto it=mtx.find(A(0)); if(it!=mtx.end()){ if(it->second.owner>=0) violation("mutex","locked mutex destroyed"); mtx.erase(it); } c.ret=Val(0); return M_DONE; }
// a statically initialised mutex carries its kind in the object
static Mtx& mx(u64 a){ auto it=mtx.find(a); if(it!=mtx.end()) return it->second; Mtx m; Obj* o=findObj(a+16); if(o&&o->live){ Val v=memLoad(a+16,4,false); m.rec=(!v.e&&v.c==1); } return mtx[a]=m; }
static MRes t_lock(Call& c){ u64 a=A(0); access(a,8,false,"mutex lock"); Mtx& m0=mx(a); if(m0.rec&&m0.owner==T->id){ m0.depth++; c.ret=Val(0); return M_DONE; }
  if(yieldPoint()) return M_RETRY; Mtx& m=mtx[a];
  if(m.owner<0){ acquire(m); c.ret=Val(0); return M_DONE; }
  T->stat=T_MUTEX; T->waitAddr=a; return M_RETRY; }
static MRes t_trylock(Call& c){ u64 a=A(0); if(yieldPoint()) return M_RETRY; Mtx& m=mx(a); if(m.owner<0){ acquire(m); c.ret=Val(0);} else if(m.rec&&m.owner==T->id){ m.depth++; c.ret=Val(0);} else c.ret=Val(16); return M_DONE; }
static MRes t_unlock(Call& c){ u64 a=A(0); access(a,8,false,"mutex unlock"); Mtx& m=mtx[a]; if(m.owner!=T->id) violation("mutex","unlock of a mutex that the thread does not hold"); static const bool seen=O.cfg.count("trylock"); if(seen&&m.depth==1&&yieldPoint()) return M_RETRY; { Mtx& m2=mtx[a]; if(--m2.depth==0) release(a); } c.ret=Val(0); return M_DONE; }
static MRes t_zero(Call& c){ c.ret=Val(0); return M_DONE; }
static MRes t_settype(Call& c){ memStore(A(0),4,Val((u32)A(1))); c.ret=Val(0); return M_DONE; }
static MRes t_attrinit(Call& c){ memStore(A(0),4,Val(0)); c.ret=Val(0); return M_DONE; }
static int g_spur=0;
static MRes t_cwait(Call& c){ u64 cv=A(0),m=A(1);
  if(T->signaled){ Mtx& k=mtx[m]; if(k.owner<0){ acquire(k); k.depth=T->mdepth; T->signaled=false; c.ret=Val(0); return M_DONE; } T->stat=T_MUTEX; T->waitAddr=m; return M_RETRY; }
  Mtx& k=mtx[m]; if(k.owner!=T->id) violation("mutex","condition wait without holding the mutex"); T->mdepth=k.depth; release(m); T->waitAddr=cv; T->mtx=m; T->stat=T_COND;
  if(O.spurious&&g_spur<1){ int s=chooseFork(2,"spurious",0,false); recSched(s); if(s){ g_spur++; T->signaled=true; T->stat=T_RUN; if(yieldPoint()) return M_RETRY; } }
  return M_RETRY; }
void timeOut(Thread* t){ t->stat=T_RUN; t->signaled=t->timedout=true; t->timed=false; if(g_clk<t->deadline) g_clk=t->deadline; }
// a timed wait may time out at once (costs a deviation), or when nothing else can run
static MRes t_ctimed(Call& c){ u64 cv=A(0),m=A(1);
  if(T->signaled){ Mtx& k=mtx[m]; if(k.owner<0){ acquire(k); k.depth=T->mdepth; T->signaled=false; c.ret=Val(T->timedout?110:0); T->timedout=false; return M_DONE; } T->stat=T_MUTEX; T->waitAddr=m; return M_RETRY; }
  Mtx& k=mtx[m]; if(k.owner!=T->id) violation("mutex","condition wait without holding the mutex"); T->mdepth=k.depth; release(m); T->waitAddr=cv; T->mtx=m; T->stat=T_COND; T->timed=true; T->timedout=false; { u64 sec=memLoad(A(2),8,false).c,base=sec>=1000000000?1700000000:1000; T->deadline= sec<base?0:(sec-base)*1000000000+memLoad(A(2)+8,8,false).c; }
  int s=g_preempts<O.preempt?chooseFork(2,"timeout",0,false):0; recSched(s); if(s){ g_preempts++; timeOut(T); if(yieldPoint()) return M_RETRY; }
  return M_RETRY; }
static void wake(Thread* t){ t->stat=T_RUN; t->signaled=true; t->timed=false; }
static MRes t_signal(Call& c){ std::vector<Thread*> w; for(auto t:g_thr) if(t->stat==T_COND&&t->waitAddr==A(0)) w.push_back(t); if(!w.empty()){ int k=w.size()==1||(O.blockcost&&g_preempts>=O.preempt)?0:chooseFork(w.size(),"signal",0,false); if(k&&O.blockcost) g_preempts++; recSched(w[k]->id); wake(w[k]); } c.ret=Val(0); return M_DONE; }
static MRes t_bcast(Call& c){ for(auto t:g_thr) if(t->stat==T_COND&&t->waitAddr==A(0)) wake(t); c.ret=Val(0); return M_DONE; }
static MRes t_self(Call& c){ c.ret=Val(T->id+1); return M_DONE; }
static MRes t_equal(Call& c){ c.ret=Val(A(0)==A(1)); return M_DONE; }
static Thread* spawn(Function* F,const std::vector<Val>& args){ Thread* t=new Thread; t->id=g_thr.size(); t->vc=T->vc; t->vc.resize(t->id+1,0); t->vc[t->id]=1; Thread* me=T; T=t; enterFn(F,args); T=me; tick(); g_thr.push_back(t); if(S->maxthreads.load()<g_thr.size()) S->maxthreads=g_thr.size(); return t; }
static Function* fnAt(u64 a){ auto it=g_fnAt.find(a); if(it==g_fnAt.end()) violation("memory","bad thread function"); return it->second; }
static MRes t_create(Call& c){ Thread* t=spawn(fnAt(A(2)),{c.a[3]}); memStore(A(0),8,Val(t->id+1)); c.ret=Val(0); return M_DONE; }
static MRes joinOn(Call& c,int tid,u64 okv){ Thread* t=g_thr[tid]; if(t->stat!=T_DONE){ T->stat=T_JOIN; T->joinTid=tid; return M_RETRY; } vcJoin(T->vc,t->vc); c.ret=Val(okv); return M_DONE; }
static MRes t_join(Call& c){ return joinOn(c,(int)A(0)-1,0); }
// boost::thread: `this` starts with shared_ptr<thread_data_base> {px, pn}; vtable slot 2 of thread_data_base is run()
static std::map<u64,int> btid;
static MRes b_start(Call& c){ u64 td=memLoad(A(0),8,false).c; u64 vt=memLoad(td,8,false).c; u64 fn=memLoad(vt+16,8,false).c; Thread* t=spawn(fnAt(fn),{Val(td)}); btid[td]=t->id; c.ret=Val(1); return M_DONE; }
static MRes b_join(Call& c){ u64 td=memLoad(A(0),8,false).c; auto it=btid.find(td); if(it==btid.end()){ c.ret=Val(0); return M_DONE; } return joinOn(c,it->second,1); }
static MRes b_handle(Call& c){ u64 td=memLoad(A(0),8,false).c; auto it=btid.find(td); c.ret=Val(it==btid.end()?0:it->second+1); return M_DONE; }
static MRes b_detach(Call& c){ return M_DONE; }
static MRes b_ret0(Call& c){ c.ret=Val(0); return M_DONE; }
static MRes b_yield(Call& c){ if(yieldPoint()) return M_RETRY; c.ret=Val(0); return M_DONE; }
// waits until every other thread is blocked or done
static MRes t_settle(Call& c){ if(T->settled){ T->settled=false; return M_DONE; } bool other=false; for(auto t:g_thr) if(t!=T&&t->stat==T_RUN) other=true; if(!other) return M_DONE; T->stat=T_BLOCK; return M_RETRY; }
static MRes t_threads(Call& c){ int n=0; for(auto t:g_thr) if(t->stat!=T_DONE) n++; c.ret=Val(n); return M_DONE; }
void threadFinished(Thread* t){ for(auto x:g_thr) if(x->stat==T_JOIN&&x->joinTid==t->id) x->stat=T_RUN; }
Model lookupThreads(StringRef n){
  static std::map<std::string,Model> tab={{"pthread_mutex_init",t_init},{"pthread_mutex_destroy",t_destroy},{"pthread_mutex_lock",t_lock},{"pthread_mutex_trylock",t_trylock},{"pthread_mutex_unlock",t_unlock},
   {"pthread_mutexattr_init",t_attrinit},{"pthread_mutexattr_destroy",t_zero},{"pthread_mutexattr_settype",t_settype},{"pthread_cond_init",t_zero},{"pthread_cond_destroy",t_zero},{"pthread_cond_wait",t_cwait},{"pthread_cond_timedwait",t_ctimed},{"pthread_cond_signal",t_signal},{"pthread_cond_broadcast",t_bcast},{"pthread_condattr_init",t_zero},{"pthread_condattr_destroy",t_zero},{"pthread_condattr_setclock",t_zero},
   {"vp_settle",t_settle},{"vp_threads",t_threads},{"pthread_self",t_self},{"pthread_equal",t_equal},{"pthread_create",t_create},{"pthread_join",t_join},{"pthread_detach",t_zero},{"sched_yield",b_yield},{"pthread_yield",b_yield},
   {"_ZN5boost6thread21start_thread_noexceptEv",b_start},{"_ZN5boost6thread13join_noexceptEv",b_join},{"_ZN5boost6thread13native_handleEv",b_handle},{"_ZN5boost6thread6detachEv",b_detach},{"_ZN5boost6detail16thread_data_baseD2Ev",b_detach},{"_ZN5boost6detail16thread_data_baseD1Ev",b_detach},{"_ZN5boost6detail23get_current_thread_dataEv",b_ret0},{"_ZN5boost11this_thread18interruption_pointEv",b_detach},{"_ZN5boost11this_thread5yieldEv",b_yield},{"_ZN5boost11this_thread21interruption_enabledEv",b_ret0},{"_ZN5boost11this_thread20disable_interruptionC1Ev",b_detach},{"_ZN5boost11this_thread20disable_interruptionD1Ev",b_detach},{"_ZN5boost15throw_exceptionERKSt9exception",nullptr}};
  auto it=tab.find(n.str()); if(it!=tab.end()) return it->second; return nullptr; }
