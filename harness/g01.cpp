#include <spatialops/structured/GhostData.h>
#include "vec.h"
static GhostData sym(const char* n,bool inf){
  if(inf) return GhostData(GHOST_MAX);
  const int M=vp_cfg("M",8000); IntVec a=symvec(n,0,M),b=symvec(n,0,M);
  switch(vp_choose("ctor",0,2)){
    case 0: { GhostData g(a,b); vp_eq3(g.get_minus(),a,"ctor"); vp_eq3(g.get_plus(),b,"ctor"); return g; }
    case 1: { GhostData g(a[0],b[0],a[1],b[1],a[2],b[2]); vp_eq3(g.get_minus(),a,"ctor"); vp_eq3(g.get_plus(),b,"ctor"); for(int i=0;i<3;++i){ vp_eq(g.get_minus(i),a[i],"ctor"); vp_eq(g.get_plus(i),b[i],"ctor"); } return g; }
    default: { GhostData g; g.set_minus(a); g.set_plus(b); vp_eq3(g.get_minus(),a,"set"); vp_eq3(g.get_plus(),b,"set"); return g; } }
}
#define vp_eqg(A,MM,PP,id) do{ GhostData g_=(A); vp_eq3(g_.get_minus(),MM,id); vp_eq3(g_.get_plus(),PP,id); }while(0)
static IntVec vmin(const IntVec&a,const IntVec&b){ IntVec r; for(int i=0;i<3;++i) r[i]=a[i]<b[i]?a[i]:b[i]; return r; }
extern "C" void vp_main(){
  const GhostData INF(GHOST_MAX);
#ifdef U_FINITE
  const GhostData a=sym("a",false), b=sym("b",false);
  const IntVec am=a.get_minus(),ap=a.get_plus(),bm=b.get_minus(),bp=b.get_plus();
  vp_eqg(a+b,am+bm,ap+bp,"add"); { GhostData c(a); c+=b; vp_eqg(c,am+bm,ap+bp,"add_assign"); GhostData d; d=c; vp_eqg(d,am+bm,ap+bp,"assign"); }
  vp_eqg(a,am,ap,"operands_unchanged"); vp_eqg(b,bm,bp,"operands_unchanged");
  vp_eqg(min(a,b),vmin(am,bm),vmin(ap,bp),"min");
  vp_true((a==b)==(am==bm&&ap==bp),"equal");
  bool ge=true; for(int i=0;i<3;++i) ge=ge && am[i]>=bm[i] && ap[i]>=bp[i];
  if(ge){ vp_eqg(a-b,am-bm,ap-bp,"sub"); GhostData c(a); c-=b; vp_eqg(c,am-bm,ap-bp,"sub_assign"); vp_eqg((a-b)+b,am,ap,"sub_add"); vp_reach("sub"); }
  vp_reach("end");
#elif defined(U_INF)
  const GhostData a=sym("a",false);
  const IntVec am=a.get_minus(),ap=a.get_plus();
  const IntVec im=INF.get_minus(), ip=INF.get_plus();
  vp_eqg(min(a,INF),am,ap,"min_identity"); vp_eqg(min(INF,a),am,ap,"min_identity"); vp_true(min(INF,INF)==INF,"min_identity");
  vp_true(a+INF==INF && INF+a==INF && INF+INF==INF,"absorb");
  { GhostData c(a); c+=INF; vp_true(c==INF,"absorb"); c+=a; vp_true(c==INF,"absorb_again"); GhostData d(INF); d+=a; vp_true(d==INF,"absorb"); }
  vp_true(!(a==INF),"finite_is_not_unlimited");
  { bool t=false; try{ GhostData c(a); c-=INF; }catch(const std::exception&){ t=true; } vp_true(t,"sub_unlimited_rejected"); }
  // a partially unlimited value is finite arithmetic on the other faces
  { IntVec m(am); m[0]=GHOST_MAX; GhostData c(m,ap); const GhostData s=c+GhostData(1); for(int i=1;i<3;++i) vp_eq(s.get_minus(i),am[i]+1,"partial"); for(int i=0;i<3;++i) vp_eq(s.get_plus(i),ap[i]+1,"partial"); }
  { GhostData c(INF); c.set_minus(am); const GhostData s=c+GhostData(1); for(int i=0;i<3;++i) vp_eq(s.get_minus(i),am[i]+1,"set_clears_unlimited"); }
  { GhostData c(INF); c.set_plus(ap); const GhostData s=c+GhostData(1); for(int i=0;i<3;++i) vp_eq(s.get_plus(i),ap[i]+1,"set_clears_unlimited"); }
  { GhostData c(a); c=INF; vp_true(c+a==INF,"assign_unlimited"); c=a; vp_eqg(c+a,am+am,ap+ap,"assign_clears_unlimited"); }
  // counts just below the unlimited mark are ordinary counts
  { const int q=vp_choose("near",1,3); const GhostData e(GHOST_MAX-q); vp_true(!(e==INF),"near_is_finite"); vp_eqg(min(a,e),am,ap,"near_min"); vp_eqg(min(e,INF),IntVec(GHOST_MAX-q,GHOST_MAX-q,GHOST_MAX-q),IntVec(GHOST_MAX-q,GHOST_MAX-q,GHOST_MAX-q),"near_min");
    const GhostData s=e+a; const IntVec k(GHOST_MAX-q,GHOST_MAX-q,GHOST_MAX-q); vp_eqg(s,k+am,k+ap,"near_add"); vp_eqg(a+e,k+am,k+ap,"near_add"); { GhostData c(a); c+=e; vp_eqg(c,k+am,k+ap,"near_add"); } vp_eqg(e-a,k-am,k-ap,"near_sub"); vp_true(e+INF==INF&&INF+e==INF,"near_absorb");
    IntVec m(k); m[vp_choose("face",0,2)]=GHOST_MAX; const GhostData one(m,k); vp_true(!(one==INF),"one_face_is_not_all"); { IntVec a0(GHOST_MAX,GHOST_MAX,GHOST_MAX),a1(a0); const int w=vp_choose("low_face",0,5); if(w<3) a0[w]=GHOST_MAX-q; else a1[w-3]=GHOST_MAX-q; const GhostData n5(a0,a1); vp_true(!(n5==INF),"five_faces_are_not_all"); const GhostData s5=n5+GhostData(1); vp_eq(w<3? s5.get_minus(w):s5.get_plus(w-3),GHOST_MAX-q+1,"near_add"); } const GhostData two(k,m); vp_true(!(two==INF),"one_face_is_not_all"); }
  vp_reach("end");
#elif defined(U_POINT)
  const IntVec p=symvec("p",-100,100); const GhostData g=point_to_ghost(p);
  for(int i=0;i<3;++i){ vp_eq(g.get_minus(i),p[i]<0?-p[i]:0,"minus_face"); vp_eq(g.get_plus(i),p[i]>0?p[i]:0,"plus_face"); }
  const int n=vp_int("n",0,100); GhostData u(n); vp_eq3(u.get_minus(),IntVec(n,n,n),"uniform"); vp_eq3(u.get_plus(),IntVec(n,n,n),"uniform");
  vp_reach("end");
#endif
}
