// Thread pool: every accepted task runs exactly once, in policy order with one worker, and wait() covers all accepted tasks.
#include "vp.h"
#include <pthread.h>
#include <sched.h>
#include <spatialops/threadpool/threadpool.hpp>
using namespace boost::threadpool;
static const int MX=6;
struct Log{ int ran[MX]; int done[MX]; int order[MX]; int n; double* out; };
static Log Lv; static Log* L=&Lv; static double in_[MX];
static pthread_mutex_t gateM; static pthread_cond_t gateC; static bool gateOpen=true;
static void gate(){ pthread_mutex_lock(&gateM); while(!gateOpen) pthread_cond_wait(&gateC,&gateM); pthread_mutex_unlock(&gateM); }
static void openGate(){ pthread_mutex_lock(&gateM); gateOpen=true; pthread_cond_broadcast(&gateC); pthread_mutex_unlock(&gateM); }
static void task(int i){ L->order[L->n++]=i; ++L->ran[i]; L->out[i]=in_[i]*in_[i]+1.0; ++L->done[i]; }
static void gated(int i){ L->order[L->n++]=i; ++L->ran[i]; gate(); L->out[i]=in_[i]*in_[i]+1.0; ++L->done[i]; }
template<class P> static bool put(P& p,int i,unsigned,void(*f)(int)){ return p.schedule(boost::bind(f,i)); }
static bool put(prio_pool& p,int i,unsigned prio,void(*f)(int)){ return p.schedule(prio_task_func(prio,boost::bind(f,i))); }
static void all_done(int K,const char* id){ for(int i=0;i<K;++i){ vp_eq(L->done[i],1,id); vp_eq(L->ran[i],1,"ran_once"); vp_same(L->out[i],in_[i]*in_[i]+1.0,"task_effect"); } }
// the heap (results, queue, pool, workers) is watched for unsynchronised accesses
static void start(){ vp_watch(0,0); L->out=new double[MX](); pthread_mutex_init(&gateM,0); pthread_cond_init(&gateC,0); for(int i=0;i<MX;++i) in_[i]=vp_double("payload"); }
#if defined(U_ONCE)
// several workers, tasks scheduled while workers run; wait with and without threshold
template<class P> static void go(){
  const int W=vp_choose("workers",1,vp_cfg("W",2)), K=vp_choose("tasks",0,vp_cfg("K",2)); start();
  const int thr=vp_choose("wait",-1,1);          // -1: only the pool's destruction, 0: wait(), 1: wait(1)
  { P p(W); vp_eq(p.size(),W,"workers_created"); vp_eq(p.max_active(),W,"all_active");
    for(int i=0;i<K;++i) vp_true(put(p,i,(unsigned)i,task),"accepted");
    if(thr==0){ p.wait(); all_done(K,"wait_covers_all"); vp_eq(p.pending(),0,"nothing_pending"); vp_true(p.empty(),"empty_after_wait"); }
    if(thr>0){ p.wait(thr); int d=0; for(int i=0;i<K;++i) d+=L->done[i]; vp_true(d>=K-thr,"threshold_respected"); }
    if(thr==0&&vp_cfg("again",0)&&K<MX){ put(p,K,0,task); p.wait(); all_done(K+1,"second_wait"); all_done(K,"still_once"); L->done[K]=L->ran[K]; }
  }
  all_done(K,"destruction_covers_all"); if(thr<0) vp_eq(L->n,K,"count"); vp_reach("end");
}
extern "C" void vp_main(){ switch(vp_choose("pool",0,2)){ case 0: return go<fifo_pool>(); case 1: return go<lifo_pool>(); default: return go<prio_pool>(); } }
#elif defined(U_ORDER)
// one worker, kept busy while the others are scheduled: the order of the rest is the policy's; symbolic priorities
template<class P> static void go(int pol){
  const int K=vp_choose("tasks",2,vp_cfg("K",3)); start(); unsigned pr[MX]; for(int i=0;i<MX;++i) pr[i]=(unsigned)vp_int("priority",0,1000);
  gateOpen=false;
  { P p(1); put(p,0,pr[0],gated);
    if(vp_choose("settle",0,1)) vp_settle();      // worker inside the first task, or anywhere
    else if(pol) vp_settle();
    for(int i=1;i<K;++i) put(p,i,pr[i],task);
    vp_true(p.pending()>=(size_t)(K-1)||pol==0,"pending_count"); openGate(); p.wait(); }
  vp_eq(L->n,K,"count"); all_done(K,"all_done");
  if(pol==0) for(int i=0;i<K;++i) vp_eq(L->order[i],i,"fifo_order");
  if(pol==1){ vp_eq(L->order[0],0,"first"); for(int i=1;i<K;++i) vp_eq(L->order[i],K-i,"lifo_order"); }
  if(pol==2){ vp_eq(L->order[0],0,"first"); for(int i=1;i+1<K;++i) vp_true(pr[L->order[i]]>=pr[L->order[i+1]],"priority_order"); }
  vp_reach("end");
}
extern "C" void vp_main(){ switch(vp_choose("pool",0,2)){ case 0: return go<fifo_pool>(0); case 1: return go<lifo_pool>(1); default: return go<prio_pool>(2); } }
#elif defined(U_NEST)
// tasks that schedule tasks, two scheduling threads, clear()
static fifo_pool* PP; static int K_;
static void spawner(int i){ L->order[L->n++]=i; ++L->ran[i]; PP->schedule(boost::bind(task,i+1)); L->out[i]=in_[i]*in_[i]+1.0; ++L->done[i]; }
static void* producer(void*){ PP->schedule(boost::bind(task,2)); return 0; }
extern "C" void vp_main(){
  const int W=vp_choose("workers",1,vp_cfg("W",2)), kind=vp_choose("kind",0,2); start();
  { fifo_pool p(W); PP=&p;
    if(kind==0){ p.schedule(boost::bind(spawner,0)); p.wait(); all_done(2,"nested_covered"); K_=2; }
    else if(kind==1){ pthread_t t; pthread_create(&t,0,producer,0); p.schedule(boost::bind(task,0)); p.schedule(boost::bind(task,1)); pthread_join(t,0); p.wait(); all_done(3,"two_producers"); K_=3;
      if(W==1){ int a=-1,b=-1; for(int i=0;i<3;++i){ if(L->order[i]==0) a=i; if(L->order[i]==1) b=i; } vp_true(a<b,"fifo_per_producer"); } }
    else { gateOpen=false; for(int i=0;i<W;++i) p.schedule(boost::bind(gated,i)); vp_settle(); p.schedule(boost::bind(task,W)); vp_eq(p.pending(),1,"one_pending"); vp_eq(p.active(),W,"all_busy"); p.clear(); vp_eq(p.pending(),0,"cleared"); openGate(); p.wait(); all_done(W,"started_tasks_finish"); vp_eq(L->ran[W],0,"cleared_not_run"); K_=W; }
  }
  all_done(K_,"after_destruction"); vp_eq(L->n,K_,"count"); vp_reach("end");
}
#elif defined(U_TIMED)
// waiting with a time limit: true only once the threshold is met, false only on a time-out
extern "C" void vp_main(){
  const int hold=vp_choose("hold",0,2), W= hold==2?3:vp_choose("workers",1,vp_cfg("W",2)), K=hold==2?2:vp_choose("tasks",0,vp_cfg("K",2)), thr=vp_choose("threshold",0,1); start(); boost::xtime xt; xt.sec=2000000000; xt.nsec=0;
  { fifo_pool p(W); if(hold){ gateOpen=false; p.schedule(boost::bind(gated,0)); for(int i=1;i<K;++i) p.schedule(boost::bind(hold==2?gated:task,i)); } else for(int i=0;i<K;++i) p.schedule(boost::bind(task,i));
    const int n= hold&&K<1?1:K; if(n<=thr) vp_settle(); const bool r=p.wait(xt,thr); int d=0; for(int i=0;i<n;++i) d+=L->done[i];
    if(r){ vp_true(d>=n-thr,"threshold_respected"); vp_reach("in_time"); } else vp_reach("timed_out");
    if(hold&&(thr==0||hold==2)) vp_true(!r,"cannot_be_done"); if(n<=thr) vp_true(r,"already_met");
    openGate(); p.wait(); all_done(n,"wait_covers_all"); }
  vp_reach("end"); }
#elif defined(U_THRESHOLD)
// waiting for all but a few tasks while every worker is inside a task and others are queued
static void* opener(void*){ openGate(); return 0; }
template<class P> static void go(){
  const int W=vp_choose("workers",1,vp_cfg("W",2)), K=vp_choose("tasks",1,vp_cfg("K",3)), thr=vp_choose("threshold",0,K), settle=vp_choose("settle",0,1); start(); gateOpen=false;
  { P p(W); for(int i=0;i<K;++i) put(p,i,(unsigned)i,gated); if(settle) vp_settle(); pthread_t t; pthread_create(&t,0,opener,0); p.wait(thr); int d=0; for(int i=0;i<K;++i) d+=L->done[i]; vp_true(d>=K-thr,"threshold_respected"); pthread_join(t,0); p.wait(); all_done(K,"wait_covers_all"); }
  vp_eq(L->n,K,"count"); vp_reach("end"); }
extern "C" void vp_main(){ if(vp_choose("pool",0,1)) go<lifo_pool>(); else go<fifo_pool>(); }
#endif
