#include "field.h"
typedef SVolField F;
static IntVec g,o,e; static long base_; static double* mem;
static long flat(const IntVec& x){ return (x[0]+o[0])+(long)g[0]*((x[1]+o[1])+(long)g[1]*(x[2]+o[2])); }
static IntVec ijk(int t){ return IntVec(t%e[0],t/e[0]%e[1],t/(e[0]*e[1])); }
static GhostData gh(0);
extern "C" void vp_main(){
  const int N=vp_cfg("n",3);
  const int big=vp_cfg("big",0);
  if(big){ const int k=vp_choose("size",0,2); g= k==0?IntVec(7,5,3): k==1?IntVec(37,2,2):IntVec(2,3,11); e= k==0?IntVec(5,4,3): k==1?IntVec(33,2,1):IntVec(2,2,9); }
  else for(int d=0;d<3;++d){ g[d]=vp_choose("g",1,N-(vp_cfg("slim",0)&&d!=1)); e[d]=vp_choose("e",1,g[d]); }
#if defined(U_WALK) || defined(U_JUMP)
  for(int d=0;d<3;++d){ o[d]=vp_int("o",0,big?4:N); vp_assume(o[d]+e[d]<=g[d]); }
#else
  for(int d=0;d<3;++d) o[d]=g[d]-e[d];
#endif
  mem=new double[g[0]*g[1]*g[2]];
  for(int i=0;i<g[0]*g[1]*g[2];++i) mem[i]=i;
  F f(MemoryWindow(g,o,e),BoundaryCellInfo::build<F>(),gh,mem,ExternalStorage);
  const F& cf=f; const int n=e[0]*e[1]*e[2];
#ifdef U_WALK
  int t=0; F::iterator it=f.begin(); F::const_iterator ct=cf.begin();
  for(;it!=f.end() && t<=n;++t){
    vp_true(t<n,"stops");
    vp_true(&*it==mem+flat(ijk(t)),"walk_order"); vp_true(&*ct==mem+flat(ijk(t)),"walk_order_const"); vp_eq3(it.location(),ijk(t),"location");
    vp_true(it<f.end() && !(it>=f.end()) && it<=f.end() && f.end()>it && ct<cf.end() && !(ct==cf.end()),"before_end");
    vp_eq(f.end()-it,n-t,"distance"); vp_eq(it-f.begin(),t,"distance"); vp_eq(cf.end()-ct,n-t,"distance_const");
    if(t%2){ ++it; F::const_iterator q=ct++; vp_true(&*q==mem+flat(ijk(t)),"post_inc_const"); } else { F::iterator q=it++; vp_true(&*q==mem+flat(ijk(t)),"post_inc"); ++ct; }
  }
  vp_eq(t,n,"visits_all"); vp_true(ct==cf.end() && it==f.end() && F::const_iterator(it)==ct,"end_const");
  for(t=n-1;t>=0;--t){
    if(t%2){ --it; F::const_iterator q=ct--; } else { F::iterator q=it--; --ct; }
    vp_true(&*it==mem+flat(ijk(t)),"back_order"); vp_true(&*ct==mem+flat(ijk(t)),"back_order_const"); vp_eq(it-f.begin(),t,"back_distance"); vp_eq(ct-cf.begin(),t,"back_distance"); vp_eq3(it.location(),ijk(t),"location"); }
  vp_true(it==f.begin() && ct==cf.begin(),"back_to_begin");
  vp_reach("end");
#elif defined(U_JUMP)
  // start and jump are symbolic
  const int a=vp_int("a",0,n), b=vp_int("b",-n,n); vp_assume(a+b>=0 && a+b<=n);
  F::iterator it=f.begin()+a; F::const_iterator ct=cf.begin()+a;
  switch(vp_cfg("slim",0)? (g[0]+2*e[0]+3*g[1]+e[1]+e[2])%4 : vp_choose("op",0,3)){
    case 0: it+=b; ct+=b; break;
    case 1: it=it+b; ct=ct+b; break;
    case 2: it-=-b; ct-=-b; break;
    default: it=it-(-b); ct=ct-(-b); }
  vp_eq(it-f.begin(),a+b,"jump_distance"); vp_eq(ct-cf.begin(),a+b,"jump_distance_const");
  vp_eq(f.end()-it,n-a-b,"jump_distance"); 
  if(a+b<n){ vp_true(&*it==mem+flat(ijk(a+b)),"jump_target"); vp_true(&*ct==mem+flat(ijk(a+b)),"jump_target_const"); vp_eq3(it.location(),ijk(a+b),"jump_location");
    vp_true(&f.begin()[a+b]==mem+flat(ijk(a+b)),"subscript");
    ++it; ++ct; if(a+b+1<n){ vp_true(&*it==mem+flat(ijk(a+b+1)),"step_after_jump"); vp_true(&*ct==mem+flat(ijk(a+b+1)),"step_after_jump"); } else vp_true(it==f.end()&&ct==cf.end(),"step_to_end"); vp_reach("target"); }
  else{ vp_true(it==f.end() && ct==cf.end() && !(it!=f.end()),"jump_to_end"); if(n>0){ --it; --ct; vp_true(&*it==mem+flat(ijk(n-1)) && &*ct==mem+flat(ijk(n-1)),"step_back_from_end"); } vp_reach("to_end"); }
  if(b>0) vp_true(f.begin()+a<f.begin()+(a+b),"order"); if(b==0) vp_true(f.begin()+a==f.begin()+(a+b),"order");
  vp_reach("end");
#elif defined(U_INTERIOR)
  IntVec m,p,cnt; int total=1; for(int d=0;d<3;++d){ m[d]=vp_choose("m",0,1); p[d]=vp_choose("p",0,1); if(e[d]==1){ if(m[d]||p[d]) vp_stop(); } else if(e[d]-m[d]-p[d]<1) vp_stop(); cnt[d]=e[d]-m[d]-p[d]; total*=cnt[d]; }
  F h(MemoryWindow(g,o,e),BoundaryCellInfo::build<F>(),GhostData(m,p),mem,ExternalStorage); const F& ch=h;
  int t=0; F::interior_iterator it=h.interior_begin(); F::const_interior_iterator ct=ch.interior_begin();
  const int k=vp_int("k",0,total); 
  for(;it!=h.interior_end() && t<=total;++t,++it,++ct){ IntVec x(t%cnt[0],t/cnt[0]%cnt[1],t/(cnt[0]*cnt[1])); x=x+m; vp_true(&*it==mem+flat(x),"interior_order"); vp_true(&*ct==mem+flat(x),"interior_order_const"); vp_eq(h.interior_end()-it,total-t,"interior_distance"); }
  vp_eq(t,total,"interior_visits_all"); vp_true(ct==ch.interior_end(),"interior_end_const");
  if(k<total){ IntVec x(k%cnt[0],k/cnt[0]%cnt[1],k/(cnt[0]*cnt[1])); x=x+m; vp_true(&*(h.interior_begin()+k)==mem+flat(x),"interior_jump"); vp_true(&*(ch.interior_end()-(total-k))==mem+flat(x),"interior_jump_back"); }
  vp_reach("end");
#endif
}
