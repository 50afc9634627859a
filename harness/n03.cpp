#include "ops.h"
struct Assign{ Env& e;
  template<class X,class FT,class R> void operator()(const NeboExpression<X,FT>& x,R ref){ *e.r.f<<=x; chk(ref); }
  template<class X,class R> void operator()(const NeboSingleValueExpression<X,double>& x,R ref){ *e.r.f<<=x; chk(ref); }
  template<class X,class FT,class R> void operator()(const NeboBooleanExpression<X,FT>& x,R ref){ *e.r.f<<=cond(x,e.hi)(e.lo);
    FOR3(p,e.r.lo(),e.r.hi()) vp_same(e.r.now(p),ref(p)!=0?e.hi:e.lo,"truth"); }
  template<class R> void chk(R ref){ FOR3(p,e.r.lo(),e.r.hi()) vp_same(e.r.now(p),ref(p),"value"); }
};
extern "C" void vp_main(){
  Spec q=spec(IntVec(2,1,1),IntVec(0,0,0),IntVec(0,0,0)); if(vp_cfg("big",0)){ q.m[0]=1; q.lo[0]=1; q.n[1]=2; q.p[1]=1; }
  Env e(q); any_op(e,Assign{e}); e.a.keeps("operand_unchanged"); e.b.keeps("operand_unchanged");
  vp_reach("end"); }
