// Work fields requested, used, shared and returned by several threads at once.
#include "vp.h"
#include <pthread.h>
#include <sched.h>
#include <spatialops/structured/FVStaggeredFieldTypes.h>
#include <spatialops/structured/SpatialFieldStore.h>
using namespace SpatialOps; using namespace SpatialOps::structured;
typedef SVolField F; typedef SSurfXField G; typedef SpatFldPtr<F> Ptr;
static const int MX=3; static int sz[MX][2]; static double tag[MX][2]; static int what[MX]; static const F* proto; 
static long live=0; // blocks the harness holds
static double* held[16]; static int nheld=0;
// ghost bookkeeping outside the watched heap
static void hold(double* p){ for(int i=0;i<nheld;++i) vp_true(held[i]!=p,"block_not_in_use"); held[nheld++]=p; ++live; }
static void drop(double* p){ for(int i=0;i<nheld;++i) if(held[i]==p){ held[i]=held[--nheld]; --live; return; } }
template<class T> static SpatFldPtr<T> fresh(int n){ return SpatialFieldStore::get_from_window<T>(MemoryWindow(IntVec(n,1,1)),BoundaryCellInfo::build<T>(false,false,false),GhostData(0)); }
template<class T> static void fill(T& f,double v){ for(typename T::iterator i=f.begin();i!=f.end();++i) *i=v; }
template<class T> static void check(T& f,int n,double v){ int k=0; for(typename T::iterator i=f.begin();i!=f.end();++i){ vp_same(*i,v,"values_kept"); ++k; } vp_eq(k,n,"size"); }
template<class T> static void once(int t){
  SpatFldPtr<T> a=fresh<T>(sz[t][0]); hold(a->field_values()); vp_room(a->field_values(),8*sz[t][0],"large_enough"); fill(*a,tag[t][0]); sched_yield();
  if(what[t]==0){ check(*a,sz[t][0],tag[t][0]); drop(a->field_values()); }
  else if(what[t]==1){ SpatFldPtr<T> b=fresh<T>(sz[t][1]); hold(b->field_values()); fill(*b,tag[t][1]); sched_yield(); check(*a,sz[t][0],tag[t][0]); check(*b,sz[t][1],tag[t][1]); drop(b->field_values()); drop(a->field_values()); }
  else if(what[t]==2){ drop(a->field_values()); a.detach(); SpatFldPtr<T> b=fresh<T>(sz[t][1]); hold(b->field_values()); fill(*b,tag[t][1]); sched_yield(); check(*b,sz[t][1],tag[t][1]); drop(b->field_values()); }
  else { SpatFldPtr<T> b=SpatialFieldStore::get<T>(*proto); hold(b->field_values()); fill(*b,tag[t][1]); SpatFldPtr<T> c(b); sched_yield(); b.detach(); check(*c,2,tag[t][1]); check(*a,sz[t][0],tag[t][0]); drop(c->field_values()); drop(a->field_values()); } }
static void* body(void* p){ const int t=*(int*)p; if(t==1) once<G>(t); else once<F>(t); return 0; }
extern "C" void vp_main(){
  const int W=vp_choose("threads",2,vp_cfg("W",2)), M=vp_cfg("M",2);
  for(int t=0;t<W;++t){ what[t]=vp_choose("what",0,3); sz[t][0]=vp_choose("n",1,M); sz[t][1]= what[t]==1||what[t]==2? vp_choose("n2",1,M):1; tag[t][0]=vp_double("tag"); tag[t][1]=vp_double("tag"); }
  double store[2]={1,2}; F pf(MemoryWindow(IntVec(2,1,1)),BoundaryCellInfo::build<F>(false,false,false),GhostData(0),store,ExternalStorage); proto=&pf;
  const int warm=vp_choose("stocked",0,1); // the pool empty, or holding a returned block of each size
  { Ptr w=fresh<F>(1); } if(warm) { Ptr w=fresh<F>(M); }
  Pool<double>& pool=Pool<double>::self(); vp_eq(pool.active(),0,"none_active");
  vp_watch(0,0);
  pthread_t th[MX]; int id[MX]; 
  for(int t=0;t<W;++t){ id[t]=t; pthread_create(&th[t],0,body,&id[t]); }
  for(int t=0;t<W;++t) pthread_join(th[t],0);
  vp_eq(live,0,"bookkeeping"); vp_eq(pool.active(),0,"returned_exactly_once");
  vp_reach("end"); }
