#include "nebo.h"
// r <<= cond(mask, expression)(r): exactly the listed points change
template<class F> static void go(int d){
  const int G=vp_cfg("G",1); const bool big=vp_cfg("big",0); Spec sr,sm,sa; bool interior;
  if(big){ const IntVec n=bigsize(d); const int v=vp_cfg("few",0)?d%2:vp_choose("layout",0,1),fl=vp_choose("flags",0,1)?7:0; interior=vp_choose("interior",0,1); sr=bigspec(n,v,0,fl); sm=bigspec(n,v,1,fl); sa=bigspec(n,v,2,fl); }
  else { const int nd=vp_choose("n",vp_cfg("nlo",1),vp_cfg("N",2)); IntVec nn(1,1,1); nn[(d+1)%3]=vp_cfg("other",2);
  interior=vp_choose("interior",0,1);
  sr=fspec("r",d,nd,G,0,nn,1); sm=fspec("m",d,nd,G,1,nn,1); sa=focus(d,nd,G,G,sr.b[d],0,nn,0); }
  Fld<F> r(sr),m(sm,false),a(sa); const double c=vp_double("c");
  const int np= big?vp_cfg("P",2):vp_choose("points",0,vp_cfg("P",2)); std::vector<IntVec> pts; 
  for(int i=0;i<np;++i){ IntVec q; for(int k=0;k<3;++k) q[k]=vp_int("pt",m.lo()[k],m.hi()[k]-1); pts.push_back(q); }
  const SpatialMask<F> mask(*m.f,pts);
  IntVec lo,hi; bool ok=true; for(int k=0;k<3;++k){ lo[k]=m.lo()[k]>a.lo()[k]?m.lo()[k]:a.lo()[k]; hi[k]=m.hi()[k]<a.hi()[k]?m.hi()[k]:a.hi()[k]; if(hi[k]<r.ihi()[k]) ok=false; }
  lo=max3(lo,r.lo()); hi=min3(hi,r.hi()); if(interior){ lo=r.ilo(); hi=r.ihi(); }
  bool threw=false;
  try{ if(interior) interior_assign(*r.f,cond(mask,*a.f*c)(*r.f)); else *r.f<<=cond(mask,*a.f*c)(*r.f); }catch(const std::runtime_error&){ threw=true; }
  if(!ok){ vp_true(threw,"uncovered_boundary_rejected"); r.keeps("rejected_unchanged"); return; }
  vp_true(!threw,"no_exception"); if(threw) return;
  FOR3(x,lo,hi){ bool in=false; for(int i=0;i<np;++i) in=in||((pts[i][0]==x[0])&(pts[i][1]==x[1])&(pts[i][2]==x[2])); vp_same(r.now(x),in?a.was(x)*c:r.was(x),"masked_value"); }
  r.keeps_outside(lo,hi,"outside_unchanged"); a.keeps("operand_unchanged"); vp_reach("end");
}
extern "C" void vp_main(){ switch(vp_choose("type",0,2)){ case 0: return go<XVolField>(0); case 1: return go<SSurfYField>(1); default: return go<ZVolField>(2); } }
