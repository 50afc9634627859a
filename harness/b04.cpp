#include "stag.h"
#include <spatialops/structured/FVStaggeredBCTools.h>
#include <spatialops/structured/stencil/FVStaggeredBCOp.h>
static Spec lay(int dir,int n,int m,int p,int b){ Spec s; for(int d=0;d<3;++d){ const bool w=d==dir; s.n[d]= w? n:(d==(dir==0?2:0)?vp_cfg("thin",1):vp_cfg("across",2)); const bool big=s.n[d]>1; s.m[d]=w?m:0; s.p[d]=w?p:big&&vp_cfg("thin",1)==1; s.b[d]=w?b:0; s.lo[d]=0; s.hi[d]=0; } return s; }
#ifdef U_NEBO
// NeboBoundaryConditionBuilder: gamma at masked faces i; phi at i+Dst gets the value with destCoef*phi(i+Dst)+srcCoef*phi(i+Src)=gamma(i)
template<class P,class Gm,class Dst,class Src> static void go(int dir,bool minus){
  const int G=vp_cfg("G",1); const int n=vp_choose("n",2,vp_cfg("N",2)); const int bc=vp_choose("bc",0,1); const int m=vp_choose("low",0,G); const int h=vp_choose("high",0,G);
  Fld<P> phi(lay(dir,n,m,h,bc)); Fld<Gm> gam(lay(dir,n,G,G,bc));
  const double dc=vp_double("coef"); const double sc=vp_double("coef"); if(vp_choose("negative",0,1)) vp_assume(dc>=-4&&dc<=-0.25); else vp_assume(dc>=0.25&&dc<=4);
  const double cval=vp_double("value");
  IntVec q0; for(int d=0;d<3;++d) q0[d]=vp_choose("pt",gam.lo()[d],gam.hi()[d]-1);
  std::vector<IntVec> pts(1,q0); if(vp_choose("two",0,1)){ IntVec q1=q0; const int o=(dir+1)%3; const int t=q0[o]==0?1:0; if(gam.ext[o]>1){ q1[o]=t; pts.insert(pts.begin(),q1); } }
  const SpatialMask<Gm> mask(*gam.f,pts); const NeboBoundaryConditionBuilder<Dst,Src,P,Gm> bcb(dc,sc);
  { Sten pn; pn.n=0; add_pt(pn,IntVec(0,0,0),1); add_pt(pn,Src::int_vec()-Dst::int_vec(),1); Sten gn; gn.n=0; add_pt(gn,IntVec(0,0,0),1); add_pt(gn,IntVec(0,0,0)-Dst::int_vec(),1);
    if(!enough(phi,pn)||!enough(gam,gn)) return; } // the library asserts that the shifts consume ghosts the fields have
  const int form=vp_choose("form",0,2); bool threw=false;
  try{ if(form==0) bcb(mask,*phi.f,*gam.f,minus); else if(form==1) bcb(mask,*phi.f,cval,minus); else bcb(mask,*phi.f,*gam.f*cval,minus); }catch(const std::runtime_error&){ threw=true; }
  if(threw){ phi.keeps("rejected_unchanged"); vp_reach("rejected"); return; }
  const IntVec dv=Dst::int_vec(),sv=Src::int_vec(); const int mv=Stag<P>::v()[dir]; (void)mv;
  // points of phi the assignment reaches: phi itself, its neighbour and the shifted gamma and mask present (ghost counts only shrink)
  Sten pn; pn.n=0; add_pt(pn,IntVec(0,0,0),1); add_pt(pn,sv-dv,1); Sten gn; gn.n=0; add_pt(gn,IntVec(0,0,0),1); add_pt(gn,IntVec(0,0,0)-dv,1);
  IntVec lo,hi,l2,h2; if(!sten_region(phi,phi,pn,lo,hi)||!sten_region(gam,phi,gn,l2,h2)) return; lo=max3(lo,l2); hi=min3(hi,h2);
  FOR3(x,phi.lo(),phi.hi()){ bool hit=false; for(size_t i=0;i<pts.size();++i) if(pts[i]+dv==x) hit=true;
    if(hit&&inside(x,lo,hi)){ const IntVec g=x-dv; const double want= form==0? gam.was(g): form==1? cval: gam.was(g)*cval; vp_same(dc*phi.now(x)+sc*phi.was(g+sv),want,"prescribed_value"); vp_reach("imposed"); }
    else vp_same(phi.now(x),phi.was(x),"others_unchanged"); }
  gam.keeps("source_unchanged"); vp_reach("end"); }
template<class P,class Gm,class U,class Un> static void both(int dir){ typedef IndexTriplet<0,0,0> O;
  if(vp_choose("minus",0,1)) go<P,Gm,Un,O>(dir,true); else go<P,Gm,O,Un>(dir,false); }
extern "C" void vp_main(){ typedef IndexTriplet<-1,0,0> X; typedef IndexTriplet<0,-1,0> Y; typedef IndexTriplet<0,0,-1> Z;
  switch(vp_choose("op",0,3)){ case 0: return both<SVolField,SSurfXField,int,X>(0); case 1: return both<SVolField,SSurfYField,int,Y>(1); case 2: return both<SVolField,SSurfZField,int,Z>(2); default: return both<XVolField,XSurfYField,int,Y>(1); } }
#else
template<class Op,bool WIDE> static void go(int dir,int lo,int hi,double a,double b,const Op& op){
  typedef typename Op::SrcFieldType S; typedef typename Op::DestFieldType D;
  OperatorDatabase db; db.register_new_operator(new Op(op));
  const int G=vp_cfg("G",1); const int n=vp_choose("n",2,vp_cfg("N",3)); const int bc=vp_choose("bc",0,1); const int m=vp_choose("low",0,G); const int h=vp_choose("high",0,G);
  Fld<S> f(lay(dir,n,m,h,bc)); 
  IntVec e(0,0,0),l(0,0,0); l[dir]=lo; e[dir]=hi; // destination points both of whose source points exist
  IntVec plo=max3(f.lo()-l,f.lo()-e),phi=min3(f.hi()-l,f.hi()-e);
  plo[(dir+1)%3]=f.ilo()[(dir+1)%3]; plo[(dir+2)%3]=f.ilo()[(dir+2)%3];
  for(int d=0;d<3;++d) if(plo[d]>=phi[d]) return;
  IntVec q(plo); if(vp_cfg("long",0)) q[dir]=vp_choose("pt",plo[dir],phi[dir]-1); else for(int d=0;d<3;++d) q[d]=vp_choose("pt",plo[d],phi[d]-1);
  const BCSide side= WIDE? NO_SIDE : vp_choose("side",0,1)? PLUS_SIDE:MINUS_SIDE;
  { const double t= side==PLUS_SIDE? b:a; if(vp_choose("negative",0,1)) vp_assume(t>=-4&&t<=-0.25); else vp_assume(t>=0.25&&t<=4); }
  const double v=vp_double("value"); const bool plus=side==PLUS_SIDE;
  std::vector<IntVec> pts(1,q);
#ifdef U_LIST
  if(vp_cfg("long",0)){ pts.clear(); const int ord=vp_choose("order",0,3); FOR3(x,plo,phi) pts.push_back(x); // every boundary point, in four orders, also with repetitions
    std::vector<IntVec> t(pts); const int k=t.size(); for(int i=0;i<k;++i) pts[i]= ord==0? t[i]: ord==1? t[k-1-i]: t[(i*(k%7?7:5)+3)%k]; if(ord==3){ pts.push_back(t[0]); pts.insert(pts.begin(),t[k-1]); }
    std::vector<IntVec> u; for(size_t i=0;i<pts.size();++i) if(pts[i][dir]==q[dir]) u.push_back(pts[i]); pts=u; }
  else { IntVec q1=q; const int o=(dir+1)%3; if(f.ext[o]>1&&vp_choose("two",0,1)){ q1[o]= q[o]==0?1:0; pts.insert(pts.begin(),q1); } }
  BoundaryConditionOp<Op,ConstValEval> bcop(f.f->window_without_ghost(),pts,side,ConstValEval(v),db);
#else
  BoundaryConditionOp<Op,ConstValEval> bcop(q,side,ConstValEval(v),db);
#endif
  bcop(*f.f);
  FOR3(x,f.lo(),f.hi()){ bool t=false; for(size_t i=0;i<pts.size();++i) if(pts[i]+(plus?e:l)==x) t=true; if(!t) vp_same(f.now(x),f.was(x),"others_unchanged"); }
  f.sync();
  Fld<D> r(lay(dir,n,1,1,bc)); bool threw=false;
  Sten st; st.n=0; add_pt(st,l,a); add_pt(st,e,b); if(!enough(f,st)||!covers(f,r,st)) { for(size_t i=0;i<pts.size();++i) vp_same(a*f.now(pts[i]+l)+b*f.now(pts[i]+e),v,"prescribed_value"); vp_reach("end"); return; }
  op.apply_to_field(*f.f,*r.f);
  for(size_t i=0;i<pts.size();++i) if(r.has(pts[i])) vp_same(r.now(pts[i]),v,"prescribed_value");
  vp_reach("end"); }
template<class T,class S,class D> static void two(){ const double a=vp_double("coef"); const double b=vp_double("coef"); const int d=diffdir<S,D>(0); typedef typename OperatorTypeBuilder<T,S,D>::type Op; go<Op,false>(d,nbr<S,D>(d,0),nbr<S,D>(d,1),a,b,Op(build_two_point_coef_collection(a,b))); }
template<class T,class F> static void wide(int d){ const double a=vp_double("coef"); const double b=vp_double("coef"); typedef typename OperatorTypeBuilder<T,F,F>::type Op; go<Op,true>(d,-1,1,a,b,Op(build_two_point_coef_collection(a,b))); }
extern "C" void vp_main(){
  switch(vp_choose("op",0,
#ifdef U_LIST
  6
#else
  9
#endif
  )){
    case 0: return two<Gradient,SVolField,SSurfXField>(); case 1: return two<Interpolant,SVolField,SSurfYField>(); case 2: return two<Gradient,SVolField,SSurfZField>();
    case 3: return two<Divergence,SSurfXField,SVolField>(); case 4: return two<Interpolant,SSurfYField,SVolField>(); case 5: return two<Interpolant,XVolField,XSurfXField>(); case 6: return two<Gradient,SVolField,XVolField>();
#ifndef U_LIST
    case 7: return wide<GradientX,SVolField>(0); case 8: return wide<InterpolantY,XVolField>(1); default: return wide<GradientZ,ZVolField>(2);
#endif
  } }
#endif
