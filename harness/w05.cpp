#include "field.h"
#include <spatialops/NeboBasic.h>
typedef XVolField F;
extern "C" void vp_main(){
#ifdef U_SYM
  // sizes and ghost counts symbolic: window bookkeeping only
  const int M=vp_cfg("M",1000); const IntVec n=symvec("n",2,M), m=symvec("m",0,9), p=symvec("p",0,9); const int bx=vp_int("b",0,1);
  const BoundaryCellInfo bc=BoundaryCellInfo::build<F>(bx,0,0); double mem[8];
  F f(get_window_with_ghost(n,GhostData(m,p),bc),bc,GhostData(m,p),mem,ExternalStorage);
  const MemoryWindow w0=f.window_with_ghost(), in0=f.window_without_ghost();
  for(int k=0;k<vp_cfg("steps",2);++k){
    const IntVec m2=symvec("m2",0,9), p2=symvec("p2",0,9); for(int d=0;d<3;++d) vp_assume(m2[d]<=m[d] && p2[d]<=p[d]);
    f.reset_valid_ghosts(GhostData(m2,p2));
    const MemoryWindow& w=f.window_with_ghost();
    vp_eq3(w.glob_dim(),w0.glob_dim(),"glob_kept"); vp_eq3(w.offset(),w0.offset()+m-m2,"low_face"); vp_eq3(w.extent(),w0.extent()-m-p+m2+p2,"extent");
    vp_true(f.window_without_ghost()==in0,"interior_kept"); vp_eq3(f.get_valid_ghost_data().get_minus(),m2,"valid"); vp_eq3(f.get_valid_ghost_data().get_plus(),p2,"valid"); vp_eq3(f.get_ghost_data().get_minus(),m,"allocated_kept"); vp_eq3(f.get_ghost_data().get_plus(),p,"allocated_kept");
  }
  f.reset_valid_ghosts(GhostData(m,p)); vp_true(f.window_with_ghost()==w0,"restored"); vp_reach("end");
#elif defined(U_VALUES)
  const int G=vp_cfg("G",1); const bool big=vp_cfg("big",0); IntVec n(9,3,4),m,p,b; const int rot=vp_choose("axis",0,big?2:0);
  if(big){ for(int d=0;d<3;++d){ const int k=(d+rot)%3; n[d]= k==0?9:k==1?3:4; m[d]=(k+2)%4; p[d]=3-k; b[d]=vp_choose("b",0,1); } }
  else { n=chvec("n",2,vp_cfg("N",2)); m=IntVec(0,0,1); p=IntVec(1,0,0); b=IntVec(0,0,0); m[0]=vp_choose("m",0,G); m[1]=vp_choose("m",0,G); p[1]=vp_choose("p",0,G); p[2]=vp_choose("p",0,G); b[0]=vp_choose("b",0,1); }
  Fld<F> a(spec(n,m,p,b)); F& f=*a.f;
  IntVec m2,p2; for(int d=0;d<3;++d){ if(big){ const int w=vp_choose("cut",0,2); m2[d]= w==1? 0: w==2? m[d]/2: m[d]; p2[d]= w==1? p[d]: p[d]/2; } else { m2[d]=vp_choose("m2",0,m[d]); p2[d]=vp_choose("p2",0,p[d]); } }
  f.reset_valid_ghosts(GhostData(m2,p2));
  const IntVec lo=IntVec(0,0,0)-m2, hi=n+a.ex+p2; F::const_iterator it=static_cast<const F&>(f).begin();
  FOR3(x,lo,hi){ vp_same(*it,a.was(x),"iterate"); vp_same(f(x-lo),a.was(x),"index"); ++it; }
  vp_true(it==static_cast<const F&>(f).end(),"count");
  // a second handle and a view made now see the same points and the same valid ghosts, and change theirs independently
  { F h(f); vp_true(h.window_with_ghost()==f.window_with_ghost()&&h.window_without_ghost()==f.window_without_ghost(),"copy_window"); vp_true(h.get_valid_ghost_data()==GhostData(m2,p2)&&h.get_ghost_data()==f.get_ghost_data(),"copy_valid"); F::const_iterator ih=static_cast<const F&>(h).begin(); FOR3(x,lo,hi){ vp_same(*ih,a.was(x),"copy_iterate"); ++ih; } vp_true(ih==static_cast<const F&>(h).end(),"copy_count");
    h.reset_valid_ghosts(GhostData(IntVec(0,0,0),IntVec(0,0,0))); ih=static_cast<const F&>(h).begin(); FOR3(x,a.ilo(),a.ihi()){ vp_same(*ih,a.was(x),"copy_narrowed"); ++ih; } vp_true(ih==static_cast<const F&>(h).end(),"copy_narrowed_count"); vp_true(f.get_valid_ghost_data()==GhostData(m2,p2),"original_valid_kept"); 
    h.reset_valid_ghosts(GhostData(m2,p2)); vp_true(h.window_with_ghost()==f.window_with_ghost(),"copy_restored"); }
  F::interior_iterator ii=f.interior_begin(); FOR3(x,a.ilo(),a.ihi()){ vp_same(*ii,a.was(x),"interior"); ++ii; } vp_true(ii==f.interior_end(),"interior_count");
  f.reset_valid_ghosts(GhostData(m,p)); it=static_cast<const F&>(f).begin(); FOR3(x,a.lo(),a.hi()){ vp_same(*it,a.was(x),"grown_back"); ++it; } vp_true(it==static_cast<const F&>(f).end(),"grown_back_count");
  a.keeps("untouched"); vp_reach("end");
#elif defined(U_VIEW)
  // resize_ghost / reshape views: same bookkeeping through a view, parent unaffected
  const int G=vp_cfg("G",1); IntVec n(2,3,2);
  const IntVec m{vp_choose("m",0,G),1,vp_choose("m",0,G)}, p{1,vp_choose("p",0,G),1};
  Fld<F> a(spec(n,m,p)); F& f=*a.f;
  const IntVec m2{vp_choose("m2",0,m[0]),vp_choose("m2",0,m[1]),vp_choose("m2",0,m[2])}, p2{vp_choose("p2",0,p[0]),vp_choose("p2",0,p[1]),vp_choose("p2",0,p[2])};
  const MemoryWindow w0=f.window_with_ghost();
  const F v=resize_ghost(f,m2,p2);
  const IntVec lo=IntVec(0,0,0)-m2, hi=n+p2; F::const_iterator it=v.begin(); FOR3(x,lo,hi){ vp_same(*it,a.was(x),"view_iterate"); ++it; } vp_true(it==v.end(),"view_count");
  vp_true(f.window_with_ghost()==w0,"parent_window"); 
  // shifted view
  const IntVec sh{vp_choose("sh",-m2[0],p2[0]),vp_choose("sh",-m2[1],p2[1]),vp_choose("sh",-m2[2],p2[2])}; bool fits=true; for(int d=0;d<3;++d) if(lo[d]+sh[d]<-m[d]||hi[d]+sh[d]>n[d]+p[d]) fits=false;
  if(fits){ const F s=shift_window(v,sh), s2=resize_ghost_and_shift_window(f,m2,p2,sh); F::const_iterator i1=s.begin(),i2=s2.begin(); FOR3(x,lo,hi){ vp_same(*i1,a.was(x+sh),"shift"); vp_same(*i2,a.was(x+sh),"resize_shift"); ++i1; ++i2; } vp_true(i1==s.end()&&i2==s2.end(),"shift_count"); vp_reach("shifted"); }
  a.keeps("untouched"); vp_reach("end");
#endif
}
