#include "stag.h"
// mask of a source type used on a destination type on its minus or plus side
template<class S,class D> static void go(){
  NeboMaskShiftBuilder<S,D> conv; const bool plus=vp_choose("plus",0,1);
  int dir=-1; for(int d=0;d<3;++d) if(Stag<S>::v()[d]!=Stag<D>::v()[d]) dir=d;
  // destination x on the minus (plus) side of source x+p: the low (high) face of a volume, the low (high) volume of a face
  IntVec p(0,0,0); for(int d=0;d<3;++d) p[d]= nbr<S,D>(d,plus?0:1);
  const int G=vp_cfg("G",1); const bool big=vp_cfg("cross",2)>2; int m=1,h=1,bc,rg; if(big){ bc=rg=plus; } else { m=vp_choose("low",0,G); h=vp_choose("high",0,G); bc=vp_choose("bc",0,1); rg=vp_choose("res",0,1); }
  const int cross=vp_cfg("cross",2);
  Spec ss,sr; for(int d=0;d<3;++d){ const bool w=d==dir; ss.n[d]=sr.n[d]= w? vp_cfg("N",2):(d==(dir==0?2:0)? cross/2:cross); const bool big=ss.n[d]>1; ss.m[d]=w?m:big; ss.p[d]=w?h:0; sr.m[d]=w?(rg?G:0):0; sr.p[d]=w?(rg?0:G):big; ss.b[d]=sr.b[d]= w?bc:0; ss.lo[d]=big; ss.hi[d]=0; sr.lo[d]=0; sr.hi[d]=big; }
  Fld<S> s(ss,false); Fld<D> r(sr),a(sr);
  std::vector<IntVec> pts; const int np=vp_choose("points",1,vp_cfg("P",2)); for(int i=0;i<np;++i){ IntVec q; for(int k=0;k<3;++k) q[k]=vp_int("pt",s.lo()[k],s.hi()[k]-1); pts.push_back(q); }
  const SpatialMask<S> mask(*s.f,pts);
  Sten st; st.n=0; add_pt(st,p,1); add_pt(st,IntVec(0,0,0),1); // ghost counts only shrink: the unshifted point has to be there too
  IntVec lo,hi; if(!sten_region(s,r,st,lo,hi)||!enough(s,st)) return;
  const bool cov=covers(s,r,st); bool threw=false; const double c=vp_double("c");
  try{ if(plus) *r.f<<=cond(conv.plus(mask),*a.f)(c); else *r.f<<=cond(conv.minus(mask),*a.f)(c); }catch(const std::runtime_error&){ threw=true; }
  if(threw){ vp_true(!cov,"needless_rejection"); r.keeps("rejected_unchanged"); vp_reach("rejected"); return; }
  FOR3(x,lo,hi){ bool in=false; const IntVec y=x+p; for(int i=0;i<np;++i) in=in|((pts[i][0]==y[0])&(pts[i][1]==y[1])&(pts[i][2]==y[2])); vp_same(r.now(x),in?a.was(x):c,"selected"); }
  r.keeps_outside(lo,hi,"outside_unchanged"); a.keeps("operand_unchanged"); vp_reach("end"); }
#define OP(S,D) case __COUNTER__-C0: return go<S,D>();
enum{ C0=__COUNTER__+1 };
extern "C" void vp_main(){
#ifdef U_VOLFACE
  switch(vp_choose("op",0,11)){ OP(SVolField,SSurfXField) OP(SVolField,SSurfYField) OP(SVolField,SSurfZField) OP(SSurfXField,SVolField) OP(SSurfYField,SVolField) OP(SSurfZField,SVolField)
    OP(XVolField,XSurfXField) OP(YVolField,YSurfYField) OP(ZVolField,ZSurfXField) OP(XSurfXField,XVolField) OP(YSurfZField,YVolField) OP(ZSurfYField,ZVolField) }
#else
  switch(vp_choose("op",0,5)){ OP(SVolField,XVolField) OP(XVolField,SVolField) OP(SVolField,ZVolField) OP(YVolField,SVolField) OP(XVolField,YSurfXField) OP(YVolField,ZSurfYField) }
#endif
}
