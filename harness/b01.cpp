#include "nebo.h"
// bits of a mask built from listed points, seen through element access, iteration, copies, views and expressions
template<class F> static void go(const Spec& s){
  Fld<F> f(s,false); const int np=vp_choose("points",0,vp_cfg("P",2)); std::vector<IntVec> pts;
  for(int i=0;i<np;++i){ IntVec q; for(int k=0;k<3;++k) q[k]=vp_int("pt",f.lo()[k],f.hi()[k]-1); pts.push_back(q); }
  if(np==2&&vp_choose("dup",0,1)) pts[1]=pts[0];
  const SpatialMask<F> mask(*f.f,pts); const SpatialMask<F> copy(mask);
  struct T{ const std::vector<IntVec>& p; bool operator()(const IntVec& x) const{ bool in=false; for(size_t i=0;i<p.size();++i) in=in|((p[i][0]==x[0])&(p[i][1]==x[1])&(p[i][2]==x[2])); return in; } } set={pts};
#if defined(U_ACCESS)
  { IntVec x; for(int k=0;k<3;++k) x[k]=vp_int("x",f.lo()[k],f.hi()[k]-1);
    vp_eq(mask(x),set(x),"element"); vp_eq(copy(x),set(x),"copy_element"); }
  FOR3(y,f.lo(),f.hi()) vp_eq(mask(y),set(y),"element");
  vp_true(mask.window_with_ghost()==f.f->window_with_ghost(),"window"); vp_true(mask.window_without_ghost()==f.f->window_without_ghost(),"window"); vp_true(mask.get_ghost_data()==f.f->get_ghost_data(),"ghosts"); vp_eq3(mask.boundary_info().has_bc(),f.f->boundary_info().has_bc(),"boundary");
#elif defined(U_ITER)
  { typename SpatialMask<F>::const_iterator i=mask.begin(),e=mask.end(),j=copy.begin(); FOR3(x,f.lo(),f.hi()){ vp_true(i!=e,"iteration_length"); if(i==e) return; vp_eq(*i,set(x),"iterated"); vp_eq(*j,set(x),"copy_iterated"); ++i; ++j; } vp_true(i==e,"iteration_length"); }
  { typename SpatialMask<F>::const_interior_iterator i=mask.interior_begin(),e=mask.interior_end(); FOR3(x,f.ilo(),f.ihi()){ vp_true(i!=e,"iteration_length"); if(i==e) return; vp_eq(*i,set(x),"interior_iterated"); ++i; } vp_true(i==e,"iteration_length"); }
#else
  // a view of part of the window
  { IntVec a,b,sh(0,0,0),ch(0,0,0); a=f.lo(); b=f.hi(); const int d=vp_choose("dir",0,2); if(f.ext[d]>1){ const int c=vp_choose("cut",0,1); const int t=vp_choose("trim",0,1); if(f.ext[d]-c-t>=1){ sh[d]=c; ch[d]=-c-t; a[d]+=c; b[d]-=t; } }
    const SpatialMask<F> v(mask.reshape(ch,sh)); typename SpatialMask<F>::const_iterator i=v.begin(),e=v.end();
    FOR3(x,a,b){ vp_true(i!=e,"view_length"); if(i==e) return; vp_eq(*i,set(x),"view_iterated"); ++i; } vp_true(i==e,"view_length"); }
  { Fld<F> r(s,false); *r.f<<=cond(mask,1.0)(2.0); FOR3(x,r.lo(),r.hi()) vp_same(r.now(x),set(x)?1.0:2.0,"expression"); }
  { Fld<F> r(s,false); *r.f<<=cond(!copy,1.0)(2.0); FOR3(x,r.lo(),r.hi()) vp_same(r.now(x),set(x)?2.0:1.0,"copy_expression"); }
#endif
  vp_reach("end"); }
extern "C" void vp_main(){
  const int b=vp_cfg("big",0);
  if(vp_cfg("wide",0)) return go<XSurfYField>(spec(IntVec(31,3,2),IntVec(1,1,0),IntVec(1,0,1),IntVec(0,1,0),IntVec(1,0,0)));   // hundreds of points
  switch(vp_choose("shape",0,3)){
    case 0: return go<SVolField>(spec(IntVec(5+b,3,1),IntVec(1,0,0),IntVec(1,2,0),IntVec(0,0,0)));   // more points than one word holds
    case 1: return go<SSurfXField>(spec(IntVec(2,2,2+b),IntVec(1,1,0),IntVec(0,1,1),IntVec(1,0,1),IntVec(0,1,0),IntVec(1,0,1)));
    case 2: return go<YVolField>(spec(IntVec(1,3+b,2),IntVec(0,0,2),IntVec(0,1,0),IntVec(0,1,0),IntVec(0,1,1),IntVec(0,0,0)));
    default: return go<ZSurfZField>(spec(IntVec(3,1,4+b),IntVec(0,0,1),IntVec(1,0,0),IntVec(0,0,1),IntVec(0,0,0),IntVec(2,0,1))); } }
