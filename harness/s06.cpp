#include "stag.h"
#include <spatialops/OperatorDatabase.h>
#include <spatialops/structured/stencil/StencilBuilder.h>
// coefficients of the operators built for a grid of symbolic lengths
template<class T,class S,class D> static void two(OperatorDatabase& db,const double* L,const int* n){
  typedef typename OperatorTypeBuilder<T,S,D>::type Op; const Op* op=db.retrieve_operator<Op>(); const int d=diffdir<S,D>(0);
  const bool interp=std::is_same<T,Interpolant>::value;
  const double lo=op->coefs().get_coef(0),hi=op->coefs().get_coef(1);
  if(interp){ vp_same(lo,0.5,"half"); vp_same(hi,0.5,"half"); }
  else { vp_same(lo*L[d],-(double)n[d],"minus_inverse_spacing"); vp_same(hi*L[d],(double)n[d],"inverse_spacing"); } }
template<class S,class D> static void four(OperatorDatabase& db){ typedef typename OperatorTypeBuilder<Interpolant,S,D>::type Op; const Op* op=db.retrieve_operator<Op>(); for(int i=0;i<4;++i) vp_same(op->coefs().get_coef(i),0.25,"quarter"); }
template<class S,class D> static void null(OperatorDatabase& db){ typedef typename OperatorTypeBuilder<Interpolant,S,D>::type Op; vp_true(db.retrieve_operator<Op>()!=0,"copy_operator"); }
template<class T,class F> static void wide(OperatorDatabase& db,int d,bool interp,const double* L,const int* n){ typedef typename OperatorTypeBuilder<T,F,F>::type Op; const Op* op=db.retrieve_operator<Op>();
  const double lo=op->coefs().get_coef(0),hi=op->coefs().get_coef(1);
  if(interp){ vp_same(lo,0.5,"half"); vp_same(hi,0.5,"half"); } else { vp_same(2*lo*L[d],-(double)n[d],"minus_half_inverse_spacing"); vp_same(2*hi*L[d],(double)n[d],"half_inverse_spacing"); } }
template<class F> static void vol(OperatorDatabase& db,const double* L,const int* n){
  typedef FaceTypes<F> T; typedef typename T::XFace X; typedef typename T::YFace Y; typedef typename T::ZFace Z;
  two<Interpolant,F,X>(db,L,n); two<Interpolant,F,Y>(db,L,n); two<Interpolant,F,Z>(db,L,n); two<Interpolant,X,F>(db,L,n); two<Interpolant,Y,F>(db,L,n); two<Interpolant,Z,F>(db,L,n);
  two<Gradient,F,X>(db,L,n); two<Gradient,F,Y>(db,L,n); two<Gradient,F,Z>(db,L,n); two<Divergence,X,F>(db,L,n); two<Divergence,Y,F>(db,L,n); two<Divergence,Z,F>(db,L,n);
  wide<InterpolantX,F>(db,0,true,L,n); wide<InterpolantY,F>(db,1,true,L,n); wide<InterpolantZ,F>(db,2,true,L,n);
  wide<GradientX,F>(db,0,false,L,n); wide<GradientY,F>(db,1,false,L,n); wide<GradientZ,F>(db,2,false,L,n);
  typedef typename OperatorTypeBuilder<Filter,F,F>::type Box; vp_true(db.retrieve_operator<Box>()!=0,"filter"); null<F,F>(db); }
extern "C" void vp_main(){
  const int M=vp_cfg("M",3); int n[3]; double L[3]; for(int d=0;d<3;++d){ n[d]=vp_choose("n",1,M); L[d]=vp_double("length"); vp_assume(L[d]>=0.001&&L[d]<=1000); }
  OperatorDatabase db; 
  build_stencils(n[0],n[1],n[2],L[0],L[1],L[2],db);
  vol<SVolField>(db,L,n); vol<XVolField>(db,L,n); vol<YVolField>(db,L,n); vol<ZVolField>(db,L,n);
#define BOTH(S,D) two<Interpolant,S,D>(db,L,n); two<Gradient,S,D>(db,L,n);
  BOTH(XVolField,YSurfXField) BOTH(XVolField,ZSurfXField) BOTH(YVolField,XSurfYField) BOTH(YVolField,ZSurfYField) BOTH(ZVolField,XSurfZField) BOTH(ZVolField,YSurfZField)
  BOTH(SVolField,XVolField) BOTH(SVolField,YVolField) BOTH(SVolField,ZVolField) BOTH(XVolField,SVolField) BOTH(YVolField,SVolField) BOTH(ZVolField,SVolField)
  null<XVolField,SSurfXField>(db); null<YVolField,SSurfYField>(db); null<ZVolField,SSurfZField>(db); null<SVolField,XSurfXField>(db); null<SVolField,YSurfYField>(db); null<SVolField,ZSurfZField>(db);
  null<XSurfXField,SVolField>(db); null<YSurfYField,SVolField>(db); null<ZSurfZField,SVolField>(db);
#define FB(A,B) four<A,B>(db);
  FB(SVolField,XSurfYField) FB(SVolField,XSurfZField) FB(SVolField,YSurfXField) FB(SVolField,YSurfZField) FB(SVolField,ZSurfXField) FB(SVolField,ZSurfYField)
  FB(XSurfYField,SVolField) FB(XSurfZField,SVolField) FB(YSurfXField,SVolField) FB(YSurfZField,SVolField) FB(ZSurfXField,SVolField) FB(ZSurfYField,SVolField)
  FB(XVolField,YVolField) FB(XVolField,ZVolField) FB(YVolField,XVolField) FB(YVolField,ZVolField) FB(ZVolField,XVolField) FB(ZVolField,YVolField)
  db.empty_database(); vp_reach("end"); }
