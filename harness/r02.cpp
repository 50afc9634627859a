#include "nebo.h"
#include <cmath>
// reductions over the valid region or the interior
static long calls; static double cell; static int icell;
static const double& addup(const double& a,const double& v){ ++calls; cell=a+v; return cell; }
static double addval(const double& a,const double& v){ ++calls; return a+v; }
static const int& count(const int& a,const double&){ icell=a+1; return icell; }
static int pick_cb=0;
template<class X> static double doit(const X& x,int what,double init,bool in){
  switch(what){ case 0: return in?nebo_sum_interior(x):nebo_sum(x); case 1: return in?nebo_max_interior(x):nebo_max(x); case 2: return in?nebo_min_interior(x):nebo_min(x);
    case 3: return in?nebo_norm_interior(x):nebo_norm(x);
    case 4: return in?nebo_fold_interior<double>(addup,init,x):nebo_fold<double>(addup,init,x);
    case 5: return in?nebo_reduce_interior(addval,x):nebo_reduce(addval,x);
    case 6: return in?nebo_reduce_interior(addup,x):nebo_reduce(addup,x);
    default: return in?nebo_fold_interior<int>(count,0,x):nebo_fold<int>(count,0,x); } }
template<class F> static void go(int d){
  const int G=vp_cfg("G",1); const bool in=vp_cfg("interior",0),big=vp_cfg("big",0); Spec sa,sb;
  if(big){ const IntVec n=bigsize(d); const int v=vp_choose("layout",0,vp_cfg("few",0)?1:2),fl=vp_choose("flags",0,1)?7:0; sa=bigspec(n,v,1,fl); sb=bigspec(n,v,2,fl); }
  else { const int nd=vp_choose("n",1,vp_cfg("N",2)); IntVec nn(1,1,1); nn[(d+1)%3]=vp_cfg("other",1);
  sa=fspec("a",d,nd,G,0,nn,1); sb=fspec("b",d,nd,G,1,nn,1); }
  const int what=vp_choose("what",0,7),expr= big&&vp_cfg("few",0)? what%2:vp_choose("expr",0,1);
  Fld<F> a(sa,!big),b(sb,!big); if(big){ onevalue(a,"v"); for(long i=0;i<b.N;++i) b.d[i]=(double)((i*29+7)%89)-40; b.sync(); } const double c= big?0.5:vp_double("c"); IntVec lo=a.lo(),hi=a.hi(); if(expr){ lo=max3(lo,b.lo()); hi=min3(hi,b.hi()); }
  if(in){ lo=IntVec(0,0,0); hi=sa.n; }
  const bool extra= in&&(expr? min3(a.ex,b.ex):a.ex)!=IntVec(0,0,0); const IntVec hx= expr? min3(a.ihi(),b.ihi()):a.ihi();
  double got; if(expr) got=doit(*a.f-*b.f*c,what,c,in); else got=doit(*a.f,what,c,in);
  auto ref=[&](const IntVec& h){ double w=0; bool first=true; int n=0;
    FOR3(x,lo,h){ const double v= expr? a.was(x)-b.was(x)*c:a.was(x); ++n;
      switch(what){ case 0: case 5: case 6: w+=v; break; case 4: w= first?c+v:w+v; break; case 1: w= first||v>w?v:w; break; case 2: w= first||v<w?v:w; break; case 3: w+=v*v; break; default: w=n; }
      first=false; }
    return what==3?std::sqrt(w):w; };
  if(!in) vp_same(got,ref(hi),"all_valid_points");
  else if(!extra) vp_same(got,ref(hi),"interior_points");
  else { const double w1=ref(hi),w2=ref(hx),tol=1e-6*(1+std::fabs(w1)+std::fabs(w2));
    vp_true((std::fabs(got-w1)<=tol)|(std::fabs(got-w2)<=tol),"interior_apart_from_extra_point"); vp_same(got,w2,"extra_point_interior"); }
  a.keeps("operand_unchanged"); b.keeps("operand_unchanged"); vp_reach("end");
}
extern "C" void vp_main(){ switch(vp_choose("type",0,2)){ case 0: return go<XVolField>(0); case 1: return go<SSurfYField>(1); default: return go<ZVolField>(2); } }
