#include "ops.h"
struct Red{ Env& e;
  template<class X,class R> void operator()(const NeboExpression<X,F>& x,R ref){ double w=0; FOR3(p,e.r.lo(),e.r.hi()) w+=ref(p); vp_same(nebo_sum(x),w,"sum"); }
  template<class X,class R> void operator()(const NeboSingleValueExpression<X,double>&,R){}
  template<class X,class R> void operator()(const NeboBooleanExpression<X,F>& x,R ref){ double w=0; FOR3(p,e.r.lo(),e.r.hi()) w+=ref(p)!=0?e.hi:e.lo; vp_same(nebo_sum(cond(x,e.hi)(e.lo)),w,"truth"); }
};
extern "C" void vp_main(){
  Spec q=spec(IntVec(2,1,1),IntVec(0,0,0),IntVec(0,0,0)); q.lo[0]=1;
  Env e(q); any_op(e,Red{e}); e.a.keeps("operand_unchanged"); e.b.keeps("operand_unchanged"); vp_reach("end"); }
