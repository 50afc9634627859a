#include "nebo.h"
#include <spatialops/structured/FVStaggeredBCTools.h>
// a value source that changes between evaluations
struct Counting{ const double* v; int* n; double operator()() const{ return v[(*n)++]; } };
template<class F> static void go(const Spec& s){
  Fld<F> f(s); F& A=*f.f; const bool list=vp_choose("list",0,1); double v[64]; for(int i=0;i<64;++i) v[i]=vp_double("value"); int used=0;
  if(!list){ IntVec q; for(int k=0;k<3;++k) q[k]=vp_choose("pt",f.ilo()[k],f.ihi()[k]-1);
    const BoundaryCondition<F,Counting> bc(q,(Counting){v,&used}); const BoundaryCondition<F,ConstValEval> cc(q,ConstValEval(v[63]));
    bc(A); FOR3(x,f.lo(),f.hi()) vp_same(f.now(x),x==q?v[0]:f.was(x),"point"); bc(A); FOR3(x,f.lo(),f.hi()) vp_same(f.now(x),x==q?v[1]:f.was(x),"point_again");
    cc(A); FOR3(x,f.lo(),f.hi()) vp_same(f.now(x),x==q?v[63]:f.was(x),"constant"); }
  else { std::vector<IntVec> pts; const bool lg=vp_cfg("long",0); int np=lg?0:vp_choose("points",0,2);
    if(lg){ std::vector<IntVec> t; FOR3(x,f.ilo(),f.ihi()) t.push_back(x); const int k=t.size(), len=vp_choose("length",3,k+2); const int ord=vp_choose("order",0,3); // rising, falling, scattered, with a repetition
      for(int i=0;i<len&&i<30;++i){ const int j= ord==0? i: ord==1? k-1-i: ord==2? i*(k%7?7:5)+3: i/2; pts.push_back(t[((j%k)+k)%k]); } np=pts.size(); }
    for(int i=0;i<np&&!lg;++i){ IntVec q; for(int k=0;k<3;++k) q[k]=vp_choose("pt",f.ilo()[k],f.ihi()[k]-1); pts.push_back(q); }
    const BoundaryCondition<F,Counting> bc(A.window_without_ghost(),pts,(Counting){v,&used});
    for(int rep=0;rep<2;++rep){ bc(A); FOR3(x,f.lo(),f.hi()){ double w=f.was(x); for(int i=0;i<np;++i) if(pts[i]==x) w=v[rep*np+i]; vp_same(f.now(x),w,"listed_points"); } }
    const BoundaryCondition<F,ConstValEval> cc(A.window_without_ghost(),pts,ConstValEval(v[63])); cc(A);
    FOR3(x,f.lo(),f.hi()){ double w=f.was(x); for(int i=0;i<np;++i) if(pts[i]==x) w=v[63]; vp_same(f.now(x),w,"listed_constant"); } }
  f.keeps_outside(f.lo(),f.hi(),"surroundings"); vp_reach("end"); }
extern "C" void vp_main(){ const int b=vp_cfg("big",0); 
  switch(vp_choose("shape",0,3)){
    case 0: return go<SVolField>(spec(IntVec(3+b,1,1),IntVec(1,0,0),IntVec(2,0,0)));
    case 1: return go<SSurfXField>(spec(IntVec(2,2,1),IntVec(1,0,0),IntVec(0,1,0),IntVec(1,1,0)));
    case 2: return go<ZVolField>(spec(IntVec(1,2,2+b),IntVec(0,2,1),IntVec(0,0,1),IntVec(0,0,1)));
    default: return go<YSurfYField>(spec(IntVec(2,2,2),IntVec(0,1,1),IntVec(1,1,0),IntVec(0,0,0))); } }
