// Thread pool: changing the number of workers and the active limit, and shutting down, on every schedule.
#include "vp.h"
#include <pthread.h>
#include <sched.h>
#include <spatialops/threadpool/threadpool.hpp>
#include <spatialops/ThreadPool.h>
using namespace boost::threadpool;
static const int MX=8; static int ran[MX],done[MX]; static int running=0,most=0,limit=99; static double in_[MX],*out;
static pthread_mutex_t gateM; static pthread_cond_t gateC; static bool gateOpen=true;
static void gate(){ pthread_mutex_lock(&gateM); while(!gateOpen) pthread_cond_wait(&gateC,&gateM); pthread_mutex_unlock(&gateM); }
static void openGate(){ pthread_mutex_lock(&gateM); gateOpen=true; pthread_cond_broadcast(&gateC); pthread_mutex_unlock(&gateM); }
static void task(int i){ ++ran[i]; out[i]=in_[i]+1.0; ++done[i]; }
static void busy(int i){ ++ran[i]; ++running; if(running>most) most=running; sched_yield(); --running; out[i]=in_[i]+1.0; ++done[i]; }
static void gated(int i){ ++ran[i]; ++running; if(running>most) most=running; gate(); --running; out[i]=in_[i]+1.0; ++done[i]; }
static void begin(){ vp_watch(0,0); pthread_mutex_init(&gateM,0); pthread_cond_init(&gateC,0); out=new double[MX](); for(int i=0;i<MX;++i) in_[i]=vp_double("payload"); }
static void all_done(int K,const char* id){ for(int i=0;i<K;++i){ vp_eq(ran[i],1,"ran_once"); vp_eq(done[i],1,id); vp_same(out[i],in_[i]+1.0,"task_effect"); } }
#if defined(U_RESIZE)
// sequences of resizes and schedulings, with or without letting the workers come to rest in between
extern "C" void vp_main(){
  begin(); const int W=vp_choose("workers",1,vp_cfg("W",2)), S=vp_cfg("S",2); int want=W,K=0;
  { fifo_pool p(W);
    for(int s=0;s<S;++s){
      const int op=vp_choose("op",0,vp_cfg("W",2)+2);
      if(op==0) vp_settle(); else if(op==1&&K<MX-1) p.schedule(boost::bind(task,K++)); else { want=op-1; vp_true(p.size_controller().resize(want),"resize_accepted"); } }
    const int last=vp_choose("last",0,1); if(last){ want=last; vp_true(p.size_controller().resize(want),"resize_accepted"); p.schedule(boost::bind(task,K++)); }
    vp_settle();
    vp_eq(p.size(),want,"size_as_requested"); vp_eq(vp_threads(),want+1,"threads_as_requested");
    vp_eq(p.pending(),0,"no_task_left"); all_done(K,"all_executed"); vp_eq(p.active(),0,"nobody_active");
    // the pool still works
    p.schedule(boost::bind(task,K++)); p.wait(); all_done(K,"still_works"); }
  vp_eq(vp_threads(),1,"all_joined"); all_done(K,"all_executed"); vp_reach("end");
}
#elif defined(U_SHRINK)
// the whole pool busy or idle, then shrunk (and possibly grown again at once)
extern "C" void vp_main(){
  begin(); const int one=vp_cfg("one",0); const int W=one?3:vp_choose("workers",2,vp_cfg("W",3)), to=one?1:vp_choose("to",0,W-1), again=one?2:vp_choose("again",0,W), idle=one?one-1:vp_choose("idle",0,1); int K=0,want=to;
  { fifo_pool p(W);
    if(idle) vp_settle(); else { gateOpen=false; for(;K<vp_cfg("B",2);++K) p.schedule(boost::bind(gated,K)); vp_settle(); }
    p.size_controller().resize(to);
    if(again){ want=again; p.size_controller().resize(again); }
    if(!idle) openGate();
    if(want==0){ vp_settle(); vp_eq(p.size(),0,"size_as_requested"); vp_eq(vp_threads(),1,"threads_as_requested"); want=1; p.size_controller().resize(1); }
    p.schedule(boost::bind(task,K++)); vp_settle();
    vp_eq(p.size(),want,"size_as_requested"); vp_eq(vp_threads(),want+1,"threads_as_requested"); vp_eq(p.pending(),0,"no_task_left"); all_done(K,"all_executed"); }
  vp_eq(vp_threads(),1,"all_joined"); vp_reach("end");
}
#elif defined(U_ACTIVE)
// the active limit: never exceeded, and raising it resumes waiting tasks
extern "C" void vp_main(){
  begin(); const int W=vp_choose("workers",1,vp_cfg("W",2)), lim=vp_choose("limit",0,W), K0=vp_cfg("K",2), up=vp_choose("raise",0,1); int K=0;
  { fifo_pool p(W); if(vp_choose("rest",0,1)) vp_settle();
    vp_true(p.size_controller().resize_active(lim),"limit_accepted"); vp_eq(p.max_active(),lim,"limit_reported");
    for(;K<K0;++K) p.schedule(boost::bind(busy,K));
    if(up) vp_settle();
    if(lim==0&&up){ vp_eq(most,0,"limit_respected"); vp_eq(p.pending(),K0,"tasks_kept"); }
    if(up||lim==0){ vp_true(most<=lim,"limit_respected"); p.size_controller().resize_active(W); vp_settle(); vp_eq(p.pending(),0,"raised_limit_resumes"); }
    else { vp_settle(); vp_true(most<=lim,"limit_respected"); vp_eq(p.pending(),0,"no_task_left"); }
    all_done(K,"all_executed"); }
  vp_eq(vp_threads(),1,"all_joined"); vp_reach("end");
}
#elif defined(U_FULL)
// with the limit at the number of workers, that many tasks do run at once
extern "C" void vp_main(){
  begin(); const int W=vp_choose("workers",1,vp_cfg("W",2)), lim=vp_choose("limit",1,W); gateOpen=false; int K=0;
  { fifo_pool p(W); p.size_controller().resize_active(lim); for(;K<W+1;++K) p.schedule(boost::bind(gated,K)); vp_settle();
    vp_eq(running,lim,"limit_used"); vp_eq(p.active(),lim,"active_reported"); vp_eq(p.pending(),W+1-lim,"rest_pending"); openGate(); p.wait(); all_done(K,"all_executed"); vp_true(most<=lim,"limit_respected"); }
  vp_eq(vp_threads(),1,"all_joined"); vp_reach("end");
}
#elif defined(U_SHUTDOWN)
typedef thread_pool<task_func,fifo_scheduler,dynamic_resize_policy,resize_controller,wait_for_active_tasks> active_pool;
typedef thread_pool<task_func,fifo_scheduler,dynamic_resize_policy,resize_controller,immediately> now_pool;
template<class P> static void go(int kind){
  begin(); const int W=vp_choose("workers",1,vp_cfg("W",2)), K=vp_choose("tasks",0,vp_cfg("K",2)), rs=vp_choose("resize",0,2); bool rest=vp_choose("rest",0,1);
  { P p(W); for(int i=0;i<K;++i) p.schedule(boost::bind(task,i)); if(rs) p.size_controller().resize(rs==1?1:W+1); if(rest) vp_settle();
    if(vp_cfg("twice",0)){ P q(p); P r(p); } }
  if(kind<2) vp_eq(vp_threads(),1,"all_joined");
  vp_settle(); vp_eq(vp_threads(),1,"all_workers_ended");
  for(int i=0;i<K;++i){ vp_true(ran[i]<=1,"ran_once"); vp_eq(ran[i],done[i],"not_cut_short"); if(kind==0||rest) vp_eq(done[i],1,"all_executed"); }
  vp_reach("end");
}
extern "C" void vp_main(){ switch(vp_choose("policy",0,2)){ case 0: return go<fifo_pool>(0); case 1: return go<active_pool>(1); default: return go<now_pool>(2); } }
#elif defined(U_SINGLE)
// the shared pools behind thread-parallel assignments
using namespace SpatialOps;
template<class P> static bool put(int i); 
template<> bool put<ThreadPoolFIFO>(int i){ return ThreadPoolFIFO::self().schedule(boost::bind(task,i)); }
template<> bool put<ThreadPool>(int i){ return ThreadPool::self().schedule(prio_task_func((unsigned)i,boost::bind(task,i))); }
template<class P> static void go(){
  begin(); int K=0,cap=NTHREADS,act=NTHREADS;
  vp_eq(P::get_pool_capacity(),cap,"initial_capacity"); vp_eq(P::get_pool_size(),act,"initial_active");
  for(int s=0;s<vp_cfg("S",2);++s){
    const int op=vp_choose("op",0,3);
    if(op==0){ const int c=vp_choose("capacity",0,vp_cfg("W",3)); const int r=P::set_pool_capacity(c); cap=c<1?1:c; vp_eq(r,cap,"capacity_returned"); vp_settle(); vp_eq(P::get_pool_capacity(),cap,"capacity_reached"); vp_eq(vp_threads(),cap+1,"threads_as_requested"); }
    else if(op==1){ const int a=vp_choose("active",0,vp_cfg("W",3)); P::resize_pool(a); act=a<1?1:a; if(act>cap) act=cap; vp_eq(P::get_pool_size(),act,"active_reached"); }
    else if(op==2) put<P>(K++); else vp_settle(); }
  put<P>(K++); P::self().wait(); all_done(K,"all_executed"); vp_reach("end");
}
extern "C" void vp_main(){ if(vp_choose("pool",0,1)) go<ThreadPool>(); else go<ThreadPoolFIFO>(); }
#endif
