// Thread-parallel assignment: any number of pieces, any order in which the pool runs them. Field memory and the whole heap
// are watched for accesses that are not ordered by synchronisation.
#include "nebo.h"
#include <cmath>
#include <spatialops/structured/stencil/FVStaggeredOperatorTypes.h>
#include <spatialops/structured/stencil/StencilBuilder.h>
#include <spatialops/structured/FVStaggeredFieldTypes.h>
#include <spatialops/SpatialOpsTools.h>
using namespace SpatialOps;
typedef SVolField F; typedef SpatialField<SingleValue,double> SV;
static Spec box(IntVec n,int m,int p,int pad){ Spec s; for(int d=0;d<3;++d){ const bool big=n[d]>1; s.n[d]=n[d]; s.m[d]=big?m:0; s.p[d]=big?p:0; s.b[d]=0; s.lo[d]=big&&d==pad; s.hi[d]=0; } return s; }
static void assign_and_check(Fld<F>& r,Fld<F>& a,Fld<F>& b,double c,int kind){
  F &R=*r.f,&A=*a.f,&B=*b.f; const int gx=r.s.n[0]>1;
  IntVec lo=r.lo(),hi=r.hi();
  switch(kind){
    case 0: R<<=A*B+c; break;
    case 1: { typedef OperatorTypeBuilder<GradientX,SVolField,SVolField>::type G; const G g(build_two_point_coef_collection(-c,c)); R<<=g(A)-B; lo=max3(r.lo(),a.lo()+IntVec(1,0,0)); hi=min3(r.hi(),a.hi()-IntVec(1,0,0)); break; }
    case 2: R<<=cond(A>B,A)(B>c,c)(B); break;
    case 3: R<<=R*2.0-A; break;
    case 4: { std::vector<IntVec> pts; pts.push_back(IntVec(0,0,0)); pts.push_back(r.ihi()-IntVec(1,1,1)); const SpatialMask<F> m(R,pts); R<<=cond(m,A)(R); break; }
    case 5: interior_assign(R,A+B*c); lo=r.ilo(); hi=r.ihi(); break;
    case 6: R<<=c; break;
    default: R<<=abs(A-B); break; }
  FOR3(x,lo,hi){ double w=0; const double o=r.was(x);
    switch(kind){ case 0: w=a.was(x)*b.was(x)+c; break; case 1: w=c*a.was(x+IntVec(1,0,0))-c*a.was(x-IntVec(1,0,0))-b.was(x); break; case 2: w=a.was(x)>b.was(x)?a.was(x):b.was(x)>c?c:b.was(x); break; case 3: w=o*2.0-a.was(x); break;
      case 4: w=x==IntVec(0,0,0)||x==r.ihi()-IntVec(1,1,1)?a.was(x):o; break; case 5: w=a.was(x)+b.was(x)*c; break; case 6: w=c; break; default: w=std::fabs(a.was(x)-b.was(x)); }
    vp_same(r.now(x),w,"sequential_result"); }
  r.keeps_outside(lo,hi,"outside_unchanged"); a.keeps("operand_unchanged"); b.keeps("operand_unchanged"); (void)gx; }
#ifdef U_CONC
// Two threads assign to fields of their own at the same time, reading a common operand and sharing the pool of workers.
#include <boost/thread/thread.hpp>
static void act(F& R,const F& A,const F& B,double c,int k){ if(k==0) R<<=A*B+c; else if(k==1) interior_assign(R,A-B); else { R<<=c; R<<=R+A; } }
static void check(Fld<F>& r,Fld<F>& a,Fld<F>& b,double c,int k){ FOR3(x,r.lo(),r.hi()) vp_same(r.now(x), k==0? a.was(x)*b.was(x)+c: k==1? a.was(x)-b.was(x): c+a.was(x),"concurrent_result"); }
extern "C" void vp_main(){
  vp_watch(0,0); const double c=vp_double("c"); ThreadPoolFIFO::self(); const bool task=vp_choose("task",0,1); if(task) ThreadPool::self();
  const IntVec n(vp_cfg("nx",2),1,1); Fld<F> r1(box(n,0,0,0)),r2(box(n,0,0,0)),a(box(n,0,0,0)),b1(box(n,0,0,0)),b2(box(n,0,0,0));
  const int k1=vp_choose("first",0,vp_cfg("kinds",1)), k2=vp_choose("second",0,vp_cfg("kinds",1)); const int P=vp_choose("parts",vp_cfg("minparts",1),2); r1.f->set_partition_count(P); r2.f->set_partition_count(2);
  F *R2=r2.f,*A=a.f,*B2=b2.f; 
  if(vp_cfg("gate",0)){ // both assignments are queued before any piece starts
    Semaphore* gate=new Semaphore(0); vp_preempt(0); for(int i=0;i<2;++i) ThreadPoolFIFO::self().schedule([=]{ gate->wait(); }); vp_settle();
    boost::thread t2([=]{ act(*R2,*A,*B2,c,k2); }); vp_settle(); boost::thread t3([=]{ vp_settle(); vp_preempt(vp_cfg("then",1)); gate->post(); gate->post(); }); act(*r1.f,*a.f,*b1.f,c,k1); check(r1,a,b1,c,k1); t2.join(); t3.join(); }
  else if(task){ Semaphore* done=new Semaphore(0); ThreadPool::self().schedule(boost::threadpool::prio_task_func(0,[=]{ act(*R2,*A,*B2,c,k2); done->post(); })); act(*r1.f,*a.f,*b1.f,c,k1); check(r1,a,b1,c,k1); done->wait(); vp_settle(); delete done; }
  else { boost::thread t([=]{ act(*R2,*A,*B2,c,k2); }); act(*r1.f,*a.f,*b1.f,c,k1); check(r1,a,b1,c,k1); t.join(); }
  check(r1,a,b1,c,k1); check(r2,a,b2,c,k2); for(int w=0;w<2;++w){ Fld<F>&r= w?r2:r1; r.keeps_outside(r.lo(),r.hi(),"outside_unchanged"); }
  r1.sync(); r2.sync(); vp_settle(); r1.keeps("nothing_after_return"); r2.keeps("nothing_after_return"); a.keeps("operand_unchanged"); vp_reach("end");
}
#else
extern "C" void vp_main(){
  vp_watch(0,0);
  const double c=vp_double("c"); ThreadPoolFIFO::self();
#ifdef U_SCHED
  const int kind=vp_choose("kind",0,vp_cfg("kinds",3)); const IntVec n(vp_cfg("nx",3),1,1);
#else
  const bool many=vp_cfg("many",0); const int kind=many? 0: vp_choose("kind",0,7); IntVec n(1,1,1); const int N=vp_cfg("N",3);
  if(many){ static const int W[6][3]={{1,6,1},{1,1,7},{2,5,4},{4,5,1},{1,4,5},{3,3,3}}; const int w=vp_choose("window",0,5); n=IntVec(W[w][0],W[w][1],W[w][2]); } else {
  n[0]=vp_choose("n",1,N); n[1]=vp_choose("n",1,2); n[2]=vp_choose("n",1,N-n[0]+1); vp_assume(kind!=1||n[0]>1); vp_assume(kind!=2||n[0]*n[1]*n[2]<=2); }
#endif
  const int P=vp_choose("parts",1,vp_cfg("P",3)); const int act=vp_choose("active",1,NTHREADS); const int g=vp_cfg("G",1)&&kind!=2? vp_choose("ghost",0,vp_cfg("G",1)):0;
  Fld<F> r(box(n,g,g,0)),a(box(n,1,1,1)),b(box(n,g,1,2));
  r.f->set_partition_count(P); vp_eq(r.f->get_partition_count(),P,"partition_count"); if(act!=NTHREADS) set_soft_thread_count(act);
  assign_and_check(r,a,b,c,kind);
  if(vp_cfg("again",0)){ r.sync(); assign_and_check(r,a,b,c,0); }
  r.sync(); vp_settle(); r.keeps("nothing_after_return"); vp_eq(vp_threads(),NTHREADS+1,"workers_kept"); vp_reach("end");
}
#endif
