#include "stag.h"
#ifdef U_COND
#define U_THIN 1
#else
#define U_THIN 0
#endif
// Operators inside expressions: the expected value is computed point by point from plain values, the expected region from the points each source needs.
static Sten sten(){ Sten s; s.n=0; return s; }
static Sten conv(const Sten& a,const Sten& b){ Sten r=sten(); for(int i=0;i<a.n;++i) for(int j=0;j<b.n;++j) add_pt(r,a.p[i]+b.p[j],a.c[i]*b.c[j]); return r; }
static Sten two(int d,int lo,int hi,double a,double b){ Sten r=sten(); IntVec l(0,0,0),h(0,0,0); l[d]=lo; h[d]=hi; add_pt(r,l,a); add_pt(r,h,b); return r; }
static Sten here(){ Sten r=sten(); add_pt(r,IntVec(0,0,0),1); return r; }
static Sten join(const Sten& a,const Sten& b){ Sten r=a; for(int i=0;i<b.n;++i) add_pt(r,b.p[i],b.c[i]); return r; }
template<class S,class D,class A,class V> static void check(Fld<S>& a,Fld<S>* b,const Sten& na,const Sten& nb,Fld<D>& r,A assign,V val){
  IntVec lo,hi,l2,h2; if(!sten_region(a,r,na,lo,hi)||!enough(a,na)) return;
  bool cov=covers(a,r,na);
  if(b){ if(!sten_region(*b,r,nb,l2,h2)||!enough(*b,nb)) return; lo=max3(lo,l2); hi=min3(hi,h2); cov=cov&&covers(*b,r,nb); }
  for(int d=0;d<3;++d) if(lo[d]>=hi[d]) return;
  bool threw=false; try{ assign(*r.f); }catch(const std::runtime_error&){ threw=true; }
  if(!cov){ vp_true(threw,"uncovered_boundary_rejected"); r.keeps("rejected_unchanged"); vp_reach("rejected"); return; }
  vp_true(!threw,"no_exception"); if(threw) return;
  FOR3(x,lo,hi) vp_same(r.now(x),val(x),"value");
  r.keeps_outside(lo,hi,"outside_unchanged"); a.keeps("source_unchanged"); if(b) b->keeps("source_unchanged");
  vp_reach("end"); }
#define OPT(T,S,D) OperatorTypeBuilder<T,S,D>::type
extern "C" void vp_main(){
  const int G=vp_cfg("G",2); const int nn=vp_choose("n",2,vp_cfg("N",2));
  const double p=vp_double("coef"); const double q=vp_double("coef"); const double s=vp_double("coef"); const double t=vp_double("coef");
  const NeboStencilCoefCollection<2> k1=build_two_point_coef_collection(p,q),k2=build_two_point_coef_collection(s,t);
  Spec sa,sb,sr; const int bc=vp_choose("bc",0,1); const int m=vp_choose("low",0,G); const int h=vp_choose("high",0,G);
  for(int d=0;d<3;++d){ sa.n[d]=sb.n[d]=sr.n[d]= d==0? nn:2; sa.m[d]= d==0? m:1; sa.p[d]= d==0? h:1; sb.m[d]=1; sb.p[d]=2; sr.m[d]= d==2?0:1; sr.p[d]= d==1?0:1;
    if(U_THIN&&d>0){ sa.n[d]=sb.n[d]=sr.n[d]=1; sa.m[d]=sa.p[d]=sb.m[d]=sb.p[d]=sr.m[d]=sr.p[d]=0; }
    sa.b[d]=sb.b[d]=sr.b[d]= d==0? bc:0; sa.lo[d]=d==1&&!U_THIN; sa.hi[d]=0; sb.lo[d]=0; sb.hi[d]=d==2&&!U_THIN; sr.lo[d]=d==2&&!U_THIN; sr.hi[d]=0; }
  Fld<SVolField> a(sa),b(sb); SVolField &A=*a.f,&B=*b.f;
  typedef OPT(Gradient,SVolField,SSurfXField) GX; typedef OPT(Gradient,SVolField,SSurfYField) GY; typedef OPT(Divergence,SSurfXField,SVolField) DX; typedef OPT(Divergence,SSurfYField,SVolField) DY;
  typedef OPT(Interpolant,SVolField,SSurfXField) IX; typedef OPT(Interpolant,SSurfXField,SVolField) FX; typedef OPT(Interpolant,SVolField,XVolField) SX; typedef OPT(Interpolant,XVolField,YVolField) XY;
  typedef OPT(GradientX,SVolField,SVolField) WX; typedef OPT(Interpolant,XVolField,SSurfXField) Same; typedef OPT(Filter,SVolField,SVolField) Box;
  const Sten g1=two(0,-1,0,p,q),g2=two(0,-1,0,s,t),gy=two(1,-1,0,s,t),d1=two(0,0,1,s,t),dy=two(1,0,1,p,q),none=sten();
#if defined(U_NEST)
  const GX gx(k1); const GY gyo(k2); const DX dx(k2); const DY dyo(k1); const IX ix(k1); const FX fx(k2);
  Fld<SVolField> r(sr);
  switch(vp_choose("case",0,4)){
    case 0:{ const Sten st=join(conv(d1,g1),conv(dy,gy)); return check(a,(Fld<SVolField>*)0,st,none,r,[&](SVolField& R){ R<<=dx(gx(A))+dyo(gyo(A)); },[&](const IntVec& x){ return sten_at(a,st,x); }); }
    case 1:{ const Sten st=conv(d1,g1); return check(a,&b,st,st,r,[&](SVolField& R){ R<<=dx(ix(A)*gx(B)); },[&](const IntVec& x){ double v=0; for(int i=0;i<2;++i){ IntVec y=x+d1.p[i]; v+=d1.c[i]*(sten_at(a,g1,y)*sten_at(b,g1,y)); } return v; }); }
    case 2:{ const Sten st=conv(d1,g1); return check(a,(Fld<SVolField>*)0,st,none,r,[&](SVolField& R){ R<<=fx(ix(A)); },[&](const IntVec& x){ return sten_at(a,st,x); }); }
    case 3:{ const Sten st=conv(d1,g1); return check(a,&b,st,here(),r,[&](SVolField& R){ R<<=B-dx(gx(A*A)); },[&](const IntVec& x){ double v=b.was(x); for(int i=0;i<st.n;++i){ double w=a.was(x+st.p[i]); v-=st.c[i]*w*w; } return v; }); }
    default:{ const Sten st=conv(conv(d1,g1),conv(d1,g1)); return check(a,(Fld<SVolField>*)0,st,none,r,[&](SVolField& R){ R<<=dx(gx(dx(gx(A)))); },[&](const IntVec& x){ return sten_at(a,st,x); }); }
  }
#elif defined(U_COMB)
  switch(vp_choose("case",0,2)){
    case 0:{ Fld<SSurfXField> r(sr); const GX gx(k1); const IX ix(k2); return check(a,&b,g1,g1,r,[&](SSurfXField& R){ R<<=gx(A)*ix(B)+gx(A*B); },[&](const IntVec& x){ double v=sten_at(a,g1,x)*sten_at(b,g2,x); for(int i=0;i<2;++i) v+=g1.c[i]*(a.was(x+g1.p[i])*b.was(x+g1.p[i])); return v; }); }
    case 1:{ Fld<SVolField> r(sr); const WX w(k1); const Sten st=two(0,-1,1,p,q); return check(a,&b,join(st,here()),st,r,[&](SVolField& R){ R<<=A*w(A+B)-A; },[&](const IntVec& x){ return a.was(x)*(sten_at(a,st,x)+sten_at(b,st,x))-a.was(x); }); }
    default:{ Fld<SSurfXField> r(sr); const SX sx(k1); const Same same; return check(a,&b,g1,g1,r,[&](SSurfXField& R){ R<<=same(sx(A)-sx(B)); },[&](const IntVec& x){ return sten_at(a,g1,x)-sten_at(b,g1,x); }); }
  }
#elif defined(U_COND)
    { Fld<SSurfXField> r(sr); const GX gx(k1); const IX ix(k2); return check(a,&b,g1,g1,r,[&](SSurfXField& R){ R<<=cond(gx(A)>ix(B),gx(B))(ix(A)); },[&](const IntVec& x){ return sten_at(a,g1,x)>sten_at(b,g2,x)? sten_at(b,g1,x):sten_at(a,g2,x); }); }
#else
  switch(vp_choose("case",0,1)){
    case 0:{ Fld<YVolField> r(sr); const SX sx(k1); const XY xy(build_four_point_coef_collection(1,s,t,q)); Sten four=sten(); add_pt(four,IntVec(0,-1,0),1); add_pt(four,IntVec(1,-1,0),s); add_pt(four,IntVec(0,0,0),t); add_pt(four,IntVec(1,0,0),q);
      const Sten st=conv(four,g1); return check(a,(Fld<SVolField>*)0,st,none,r,[&](YVolField& R){ R<<=xy(sx(A)); },[&](const IntVec& x){ return sten_at(a,st,x); }); }
    default:{ Fld<SVolField> r(sr); const Box box; Sten st=sten(); for(int k=-1;k<2;++k) for(int j=-1;j<2;++j) for(int i=-1;i<2;++i) add_pt(st,IntVec(i,j,k),1.0/27);
      return check(a,&b,st,st,r,[&](SVolField& R){ R<<=box(A-B)*p; },[&](const IntVec& x){ return (sten_at(a,st,x)-sten_at(b,st,x))*p; }); }
  }
#endif
}
