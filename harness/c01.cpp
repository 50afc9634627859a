#include "field.h"
#include <boost/math/special_functions/next.hpp>
#include <spatialops/structured/FieldComparisons.h>
typedef XVolField F;
static Spec shape(){ if(vp_cfg("big",0)) switch(vp_choose("shape",0,2)){ case 0: return spec(IntVec(5,4,3),IntVec(1,0,1),IntVec(0,1,1),IntVec(1,0,0),IntVec(1,1,0),IntVec(0,1,1)); case 1: return spec(IntVec(67,1,1),IntVec(1,0,0),IntVec(1,0,0)); default: return spec(IntVec(2,9,3),IntVec(0,1,0),IntVec(0,0,1),IntVec(0,0,0),IntVec(0,0,1)); }
   switch(vp_choose("shape",0,vp_cfg("shapes",2)-1)){ case 0: return spec(IntVec(2,1,1),IntVec(0,0,0),IntVec(0,0,0)); case 1: return spec(IntVec(1,2,1),IntVec(0,0,0),IntVec(0,1,0),IntVec(0,0,0),IntVec(0,1,0),IntVec(1,0,0)); case 2: return spec(IntVec(2,2,1),IntVec(0,0,0),IntVec(0,0,0),IntVec(1,0,0),IntVec(0,0,1)); default: return spec(IntVec(1,1,2),IntVec(0,0,1),IntVec(0,0,1)); } }
static double mag(double x){ return x<0?-x:x; }
template<class A> static bool eq(int how,const A& a,const F& b,double err,double ea,unsigned u,bool neg){
#if defined U_REL
  return how==0? (neg? field_not_equal(a,b,err):field_equal(a,b,err)) : (neg? field_not_equal(a,b,err,ea):field_equal(a,b,err,ea));
#elif defined U_ABS
  return neg? field_not_equal_abs(a,b,err):field_equal_abs(a,b,err);
#else
  return neg? field_not_equal_ulp(a,b,u):field_equal_ulp(a,b,u);
#endif
}
extern "C" void vp_main(){
  const bool big=vp_cfg("big",0); const Spec s=shape(); Fld<F> a(s,!big),b(s,!big); const IntVec lo=a.lo(),hi=a.hi(); const bool scalar=vp_choose("scalar",0,1); double d=0; if(scalar) d=vp_double("d");
  if(big){ for(long i=0;i<a.N;++i) a.d[i]=b.d[i]= scalar? 3.5:1+0.25*(i%7); if(scalar) vp_assume(d==3.5); IntVec q=lo; const int w=vp_choose("where",0,3); if(w==1) q=hi-IntVec(1,1,1); else if(w) for(int k=0;k<3;++k) q[k]=(lo[k]+hi[k]-(w==3))/2; const double v=vp_double("v"); b.now(q)=v; a.sync(); b.sync(); }
  FOR3(x,lo,hi){ vp_assume(a.now(x)>=-100&&a.now(x)<=100); vp_assume(b.now(x)>=-100&&b.now(x)<=100); } if(scalar) vp_assume(d>=-100&&d<=100);
  const bool neg=vp_choose("negated",0,1);
  if(!scalar&&vp_choose("other_size",0,1)){ Spec t=s; int k=vp_choose("dir",0,2); const int by=vp_choose("by",0,1)?1:-1; if(t.n[k]+by<2) return; t.n[k]+=by; Fld<F> c(t); bool th=false; try{ eq(1,*a.f,*c.f,1,1,1,neg); } catch(std::runtime_error&){ th=true; } vp_true(th,"different_size_rejected"); vp_reach("rejected"); return; }
#if defined U_REL
  const int how= big?1:vp_choose("tolerances",0,1); double err,ea=0; 
  if(vp_choose("exact",0,1)) err=0; else { err=vp_double("err"); vp_assume(how==0? err>=0.001&&err<=2 : (err>=0.001||err<=-0.001)&&err>=-2&&err<=2); }
  if(how==1){ ea=vp_double("error_abs"); vp_assume(ea>=0.001&&ea<=100); }
  else if(err!=0){ double n=0; const Fld<F>& g= scalar? b:a; FOR3(x,lo,hi){ const double v=g.o[g.at(x)]; n+=v*v; } ea=std::sqrt(n)*err*FIELDCOMPARISONS_ABS_ERROR_CONST; FOR3(x,lo,hi) vp_assume(g.o[g.at(x)]>=0.5); vp_assume(ea>=0); if(scalar) vp_assume(d>=0.5||d<=-0.5); }
  const double e=mag(err); bool ok=true,r= scalar? eq(how,d,*b.f,err,ea,0,neg): eq(how,*a.f,*b.f,err,ea,0,neg);
  FOR3(x,lo,hi){ const double u= scalar? d:a.o[a.at(x)],v=b.o[b.at(x)]; if(e==0){ if(!(u==v)){ ok=false; break; } } else { const double den=mag(u)+ea; if(mag(u-v)/den>e){ ok=false; break; } } }
#elif defined U_ABS
  double err=0; if(!vp_choose("exact",0,1)){ err=vp_double("err"); vp_assume(err!=0&&err>=-100&&err<=100); } const double e=mag(err);
  bool ok=true,r= scalar? eq(0,d,*b.f,err,0,0,neg): eq(0,*a.f,*b.f,err,0,0,neg);
  FOR3(x,lo,hi){ const double u= scalar? d:a.o[a.at(x)],v=b.o[b.at(x)]; if(e==0?!(u==v):mag(u-v)>e){ ok=false; break; } }
#else
  const unsigned u=vp_choose("ulps",0,vp_cfg("ulps",3)); bool ok=true; // each second value lies a chosen number of units in the last place from the first
  if(scalar) vp_assume(d>=0.001||d<=-0.001);
  FOR3(x,lo,hi){ const double v= scalar? d:a.now(x); if(!scalar) vp_assume(v>=0.001||v<=-0.001); const int k=vp_int("away",-vp_cfg("ulps",3)-1,vp_cfg("ulps",3)+1); const double w=vp_advance(v,k); b.now(x)=w; if((unsigned)(k<0?-k:k)>u) ok=false; } b.sync();
  bool r= scalar? eq(0,d,*b.f,0,0,u,neg): eq(0,*a.f,*b.f,0,0,u,neg);
#endif
  vp_true(r==(ok!=neg),"every_point_within_tolerance"); a.keeps("first_untouched"); b.keeps("second_untouched"); vp_reach("end"); }
