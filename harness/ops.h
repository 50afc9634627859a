#pragma once
#include "nebo.h"
#include <cmath>
// Every operand-kind overload of one binary or unary operator. U is called with the expression and a function giving the
// scalar reference at a point; left operands come from a/s/x, right operands from b/t/y.
typedef XVolField F; typedef SpatialField<SingleValue,double> SV;
struct One{ double d; SV* f; One(const char* n){ d=vp_double(n); f=new SV(MemoryWindow(IntVec(1,1,1)),BoundaryCellInfo::build<SV>(false,false,false),GhostData(0),&d,ExternalStorage); } ~One(){ delete f; } };
struct Env{ Fld<F> r,a,b; One s,t; double x,y,hi,lo;
  Env(const Spec& q):r(q),a(q),b(q),s("s"),t("t"),x(vp_double("x")),y(vp_double("y")),hi(vp_double("hi")),lo(vp_double("lo")){} };
enum { NBIN=24, NBOOL=18 };
template<class Op,class U> static void binary(int k,Env& e,U u){
  const F &A=*e.a.f,&B=*e.b.f; const SV &S=*e.s.f,&T=*e.t.f; const double x=e.x,y=e.y;
#define A_ e.a.was(p)
#define B_ e.b.was(p)
#define S_ e.s.d
#define T_ e.t.d
#define CASE(i,L,R,l,r) case i: u(Op::f(L,R),[&](const IntVec& p){ (void)p; return Op::s(l,r); }); break;
  switch(k){
    CASE(0,x,B,x,B_) CASE(1,x,B-y,x,B_-y) CASE(2,A,y,A_,y) CASE(3,A,B,A_,B_) CASE(4,A,B-y,A_,B_-y) CASE(5,A,T,A_,T_) CASE(6,A,T-y,A_,T_-y)
    CASE(7,A-x,y,A_-x,y) CASE(8,A-x,B,A_-x,B_) CASE(9,A-x,B-y,A_-x,B_-y) CASE(10,A-x,T,A_-x,T_) CASE(11,A-x,T-y,A_-x,T_-y)
    CASE(12,S,B,S_,B_) CASE(13,S,B-y,S_,B_-y) CASE(14,S-x,B,S_-x,B_) CASE(15,S-x,B-y,S_-x,B_-y) CASE(16,A,A,A_,A_) CASE(17,A-x,A,A_-x,A_)
  }
  if constexpr(!Op::logic) switch(k){
    CASE(18,x,T,x,T_) CASE(19,x,T-y,x,T_-y) CASE(20,S,y,S_,y) CASE(21,S,T,S_,T_) CASE(22,S-x,T,S_-x,T_) CASE(23,S-x,T-y,S_-x,T_-y) CASE(24,S,T-y,S_,T_-y) CASE(25,S-x,y,S_-x,y)
  }
}
template<class Op,class U> static void unary(int k,Env& e,U u){
  const F &A=*e.a.f; const SV &S=*e.s.f; const double x=e.x;
#define CASE1(i,L,l) case i: u(Op::f(L),[&](const IntVec& p){ (void)p; return Op::s(l); }); break;
  switch(k){ CASE1(0,A,A_) CASE1(1,A-x,A_-x) CASE1(2,S,S_) CASE1(3,S-x,S_-x) }
}
#define BOP(N,L,f_,s_) struct N{ enum{ logic=L }; template<class A,class B> static auto f(const A& a,const B& b){ return f_; } static double s(double a,double b){ return s_; } };
#define UOP(N,f_,s_) struct N{ template<class A> static auto f(const A& a){ return f_; } static double s(double a){ return s_; } };
BOP(OAdd,0,a+b,a+b) BOP(OSub,0,a-b,a-b) BOP(OMul,0,a*b,a*b) BOP(ODiv,0,a/b,a/b) BOP(OPow,0,pow(a,b),std::pow(a,b)) BOP(OMax,0,max(a,b),a>b?a:b) BOP(OMin,0,min(a,b),a<b?a:b)
BOP(OEq,1,a==b,a==b) BOP(ONe,1,a!=b,a!=b) BOP(OLt,1,a<b,a<b) BOP(OLe,1,a<=b,a<=b) BOP(OGt,1,a>b,a>b) BOP(OGe,1,a>=b,a>=b)
UOP(OSin,sin(a),std::sin(a)) UOP(OCos,cos(a),std::cos(a)) UOP(OTan,tan(a),std::tan(a)) UOP(OExp,exp(a),std::exp(a)) UOP(OTanh,tanh(a),std::tanh(a)) UOP(OAbs,abs(a),std::fabs(a)) UOP(ONeg,-a,-a)
UOP(OSqrt,sqrt(a),std::sqrt(a)) UOP(OLog,log(a),std::log(a)) UOP(OLog10,log10(a),std::log10(a)) UOP(OErf,erf(a),::erf(a)) UOP(OErfc,erfc(a),::erfc(a))
// op index -> operator; overload chosen
template<class U> static void any_op(Env& e,U u){
#ifdef U_ARITH
  switch(vp_choose("op",0,3)){
    case 0: return binary<OAdd>(vp_choose("kind",0,25),e,u); case 1: return binary<OSub>(vp_choose("kind",0,25),e,u);
    case 2: return binary<OMul>(vp_choose("kind",0,25),e,u); default:{ const int k=vp_choose("kind",0,25);
      vp_assume(e.y!=0&&e.t.d!=0&&e.t.d-e.y!=0); FOR3(p,e.b.lo(),e.b.hi()) vp_assume(B_!=0&&B_-e.y!=0&&A_!=0); return binary<ODiv>(k,e,u); } }
#endif
#ifdef U_MINMAX
  switch(vp_choose("op",0,2)){ case 0: return binary<OPow>(vp_choose("kind",0,25),e,u); case 1: return binary<OMax>(vp_choose("kind",0,25),e,u); default: return binary<OMin>(vp_choose("kind",0,25),e,u); }
#endif
#ifdef U_CMP1
  switch(vp_choose("op",0,2)){ case 0: return binary<OEq>(vp_choose("kind",0,17),e,u); case 1: return binary<ONe>(vp_choose("kind",0,17),e,u); default: return binary<OLt>(vp_choose("kind",0,17),e,u); }
#endif
#ifdef U_CMP2
  switch(vp_choose("op",0,2)){ case 0: return binary<OLe>(vp_choose("kind",0,17),e,u); case 1: return binary<OGt>(vp_choose("kind",0,17),e,u); default: return binary<OGe>(vp_choose("kind",0,17),e,u); }
#endif
#ifdef U_UNARY
  const int k=vp_choose("kind",0,3);
  switch(vp_choose("op",0,11)){ case 0: return unary<OSin>(k,e,u); case 1: return unary<OCos>(k,e,u); case 2: return unary<OTan>(k,e,u); case 3: return unary<OExp>(k,e,u); case 4: return unary<OTanh>(k,e,u); case 5: return unary<OAbs>(k,e,u);
    case 6: return unary<ONeg>(k,e,u); case 7: return unary<OSqrt>(k,e,u); case 8: return unary<OLog>(k,e,u); case 9: return unary<OLog10>(k,e,u); case 10: return unary<OErf>(k,e,u); default: return unary<OErfc>(k,e,u); }
#endif
}
