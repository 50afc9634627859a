#include "field.h"
#include <spatialops/FieldFunctions.h>
typedef SVolField F;
extern "C" void vp_main(){
  const int N=vp_cfg("N",2),big=vp_cfg("big",0); IntVec n(1,2,1),m(0,0,0),p(0,1,0),b(0,0,0); if(big) n=IntVec(vp_choose("wide",0,1)?9:2,big,3); else n[0]=vp_choose("nx",1,N); if(n[0]>1){ m[0]=vp_choose("low",0,1); p[0]=vp_choose("high",0,1); } b[0]=vp_choose("bc",0,1);
  Fld<F> x(spec(n,m,p,b,IntVec(0,1,0),IntVec(0,0,0))); IntVec rm=m,rp=p; Fld<F> r(spec(n,rm,rp,b)); const IntVec lo=r.lo(),hi=r.hi();
  const double k0=vp_double("p0"),k1=vp_double("p1"),k2=vp_double("p2"),k3=vp_double("p3"); const int op=vp_choose("op",0,2);
#if defined U_LINEAR
  LinearFunction1D<F> f(*x.f,k0,k1);
#elif defined U_SIN
  const bool base=vp_choose("base",0,1); const double c= base?k2:0.0; SinFunction<F> f= base? SinFunction<F>(*x.f,k0,k1,k2):SinFunction<F>(*x.f,k0,k1);
#elif defined U_GAUSS
  vp_assume(k1>=0.125&&k1<=8); const bool base=vp_choose("base",0,1); const double c= base?k3:0.0; GaussianFunction<F> f= base? GaussianFunction<F>(*x.f,k0,k1,k2,k3):GaussianFunction<F>(*x.f,k0,k1,k2);
#else
  vp_assume(k1>=0.125&&k1<=8); HyperTanFunction<F> f(*x.f,k0,k1,k2,k3); if(op!=0) return;
#endif
  if(op==0) f.evaluate(*r.f);
#ifndef U_TANH
  else if(op==1) f.dx(*r.f); else f.d2x(*r.f);
#endif
  FOR3(i,lo,hi){ const double t=x.o[x.at(i)]; double w;
#if defined U_LINEAR
    w= op==0? k0*t+k1 : op==1? k0 : 0.0;
#elif defined U_SIN
    w= op==0? k0*std::sin(k1*t)+c : op==1? k0*k1*std::cos(k1*t) : -(k0*k1*k1*std::sin(k1*t));
#elif defined U_GAUSS
    const double s2=k1*k1,y=t-k2,g=k0*std::exp(-(y*y)/(2*s2)); w= op==0? g+c : op==1? -(y/s2)*g : (y*y/(s2*s2)-1/s2)*g;
#else
    w= k0/4*(1+std::tanh((t-k2)/k1))*(1-std::tanh((t-k3)/k1));
#endif
    vp_same(r.now(i),w,op==0?"value":op==1?"first_derivative":"second_derivative"); }
  x.keeps("coordinates_untouched"); r.keeps_outside(lo,hi,"outside_untouched"); vp_reach("end"); }
