// Futures and looped tasks of the thread pool on every schedule.
#include "vp.h"
#include <pthread.h>
#include <sched.h>
#include <spatialops/threadpool/threadpool.hpp>
using namespace boost::threadpool;
static const int MX=6; static int ran[MX],ended[MX]; static double in_[MX];
static pthread_mutex_t gateM; static pthread_cond_t gateC; static bool gateOpen=true; static int loops=0,upto=0;
static void gate(){ pthread_mutex_lock(&gateM); while(!gateOpen) pthread_cond_wait(&gateC,&gateM); pthread_mutex_unlock(&gateM); }
static void openGate(){ pthread_mutex_lock(&gateM); gateOpen=true; pthread_cond_broadcast(&gateC); pthread_mutex_unlock(&gateM); }
static double value(int i){ ++ran[i]; sched_yield(); ++ended[i]; return in_[i]*2.0+1.0; }
static void gated(){ gate(); }
static bool loop(){ ++loops; return loops<upto; }
typedef boost::function0<double> Fn; typedef future<double> Fut;
static Fut* shared_; static int shared_i; static double seen=0; static int saw=0;
static void* other(void* a){ if(*(int*)a) shared_->wait(); const double v=shared_->get(); vp_eq(ended[shared_i],1,"only_after_return"); vp_same(v,in_[shared_i]*2.0+1.0,"value"); vp_true(shared_->ready(),"ready_after_get"); ++saw; return 0; }
static void begin(){ vp_watch(0,0); pthread_mutex_init(&gateM,0); pthread_cond_init(&gateC,0); for(int i=0;i<MX;++i) in_[i]=vp_double("payload"); }
#if defined(U_VALUE)
extern "C" void vp_main(){
  begin(); const int W=vp_choose("workers",1,vp_cfg("W",2)),K=vp_choose("tasks",1,vp_cfg("K",2)),late=vp_choose("late",0,2); int oth=vp_choose("other",0,2);
  { fifo_pool p(W); Fut f[MX]; for(int i=0;i<K;++i) f[i]=schedule(p,Fn(boost::bind(value,i)));
    pthread_t t; shared_i=0; Fut cp(f[0]); shared_=&cp; int ow=oth==2; if(oth) pthread_create(&t,0,other,&ow);
    if(late==1) vp_settle();
    if(late==2){ boost::xtime xt; xt.sec=2000000000; xt.nsec=0; const bool r=f[0].timed_wait(xt); if(r){ vp_eq(ended[0],1,"in_time_means_done"); vp_true(f[0].ready(),"in_time_means_done"); vp_reach("in_time"); } else vp_reach("timed_out"); }
    for(int i=K-1;i>=0;--i){ if(f[i].ready()) vp_eq(ended[i],1,"ready_means_done"); const double v=f[i].get(); vp_eq(ended[i],1,"only_after_return"); vp_same(v,in_[i]*2.0+1.0,"value"); vp_true(f[i].ready(),"ready_after_get"); vp_true(!f[i].is_cancelled(),"not_cancelled"); f[i].wait(); vp_same(f[i](),in_[i]*2.0+1.0,"value_again"); }
    if(oth){ pthread_join(t,0); vp_eq(saw,1,"every_waiter"); }
    for(int i=0;i<K;++i) vp_eq(ran[i],1,"called_once"); }
  for(int i=0;i<K;++i) vp_eq(ran[i],1,"called_once"); vp_reach("end"); }
#elif defined(U_CANCEL)
extern "C" void vp_main(){
  begin(); const int W=vp_choose("workers",1,vp_cfg("W",2)),when=vp_choose("when",0,2);
  { fifo_pool p(W); Fut f;
    if(when==0){ gateOpen=false; for(int i=0;i<W;++i) p.schedule(&gated); f=schedule(p,Fn(boost::bind(value,0))); Fut g=schedule(p,Fn(boost::bind(value,1)));
      vp_true(f.cancel(),"cancel_accepted"); vp_true(f.is_cancelled(),"cancelled"); vp_true(!g.is_cancelled(),"other_not_cancelled"); openGate(); p.wait();
      vp_eq(ran[0],0,"cancelled_not_called"); vp_true(!f.ready(),"never_ready"); vp_eq(ran[1],1,"other_called"); vp_same(g.get(),in_[1]*2.0+1.0,"value"); }
    else if(when==1){ f=schedule(p,Fn(boost::bind(value,0))); p.wait(); vp_true(f.ready(),"ready_after_wait"); vp_true(!f.cancel(),"too_late"); vp_true(!f.is_cancelled(),"unchanged"); vp_same(f.get(),in_[0]*2.0+1.0,"value"); }
    else { f=schedule(p,Fn(boost::bind(value,0))); const bool c=f.cancel(); p.wait(); vp_eq(ran[0],ended[0],"not_cut_short"); vp_true(ran[0]<=1,"called_once"); if(!c){ vp_eq(ran[0],1,"called"); vp_true(f.ready(),"ready"); } if(f.ready()) vp_same(f.get(),in_[0]*2.0+1.0,"value"); }
  }
  vp_true(ran[0]<=1,"called_once"); vp_reach("end"); }
#else
extern "C" void vp_main(){
  begin(); const int W=vp_choose("workers",1,vp_cfg("W",2)); upto=vp_choose("loops",0,3);
  { fifo_pool p(W); vp_true(p.schedule(looped_task_func(&loop)),"accepted"); Fut f=schedule(p,Fn(boost::bind(value,0))); vp_same(f.get(),in_[0]*2.0+1.0,"value"); p.wait(); vp_eq(loops,upto<1?1:upto,"called_until_false"); }
  vp_eq(loops,upto<1?1:upto,"called_until_false");
  { looped_task_func none((boost::function0<bool>())); none(); } vp_eq(loops,upto<1?1:upto,"empty_does_nothing");
  { loops=0; upto=2; fifo_pool q(1); prio_pool r(1); vp_true(r.schedule(prio_task_func(3,looped_task_func(&loop))),"accepted"); r.wait(); vp_eq(loops,2,"prio_loop"); }
  vp_reach("end"); }
#endif
