#include "stag.h"
#define OP(T,S,D) case __COUNTER__-C0: return TwoOp<T,S,D>::go();
#define BASIC(V,X,Y,Z) OP(Interpolant,V,X) OP(Interpolant,V,Y) OP(Interpolant,V,Z) OP(Interpolant,X,V) OP(Interpolant,Y,V) OP(Interpolant,Z,V) \
  OP(Gradient,V,X) OP(Gradient,V,Y) OP(Gradient,V,Z) OP(Divergence,X,V) OP(Divergence,Y,V) OP(Divergence,Z,V)
enum{ C0=__COUNTER__+1 };
extern "C" void vp_main(){
#if defined(U_SVOL)
#define NOPS 12
#define ALL BASIC(SVolField,SSurfXField,SSurfYField,SSurfZField)
#elif defined(U_XVOL)
#define NOPS 16
#define ALL BASIC(XVolField,XSurfXField,XSurfYField,XSurfZField) OP(Interpolant,XVolField,YSurfXField) OP(Gradient,XVolField,YSurfXField) OP(Interpolant,XVolField,ZSurfXField) OP(Gradient,XVolField,ZSurfXField)
#elif defined(U_YVOL)
#define NOPS 16
#define ALL BASIC(YVolField,YSurfXField,YSurfYField,YSurfZField) OP(Interpolant,YVolField,XSurfYField) OP(Gradient,YVolField,XSurfYField) OP(Interpolant,YVolField,ZSurfYField) OP(Gradient,YVolField,ZSurfYField)
#elif defined(U_ZVOL)
#define NOPS 16
#define ALL BASIC(ZVolField,ZSurfXField,ZSurfYField,ZSurfZField) OP(Interpolant,ZVolField,XSurfZField) OP(Gradient,ZVolField,XSurfZField) OP(Interpolant,ZVolField,YSurfZField) OP(Gradient,ZVolField,YSurfZField)
#else
#define NOPS 12
#define ALL OP(Interpolant,SVolField,XVolField) OP(Gradient,SVolField,XVolField) OP(Interpolant,SVolField,YVolField) OP(Gradient,SVolField,YVolField) OP(Interpolant,SVolField,ZVolField) OP(Gradient,SVolField,ZVolField) \
 OP(Interpolant,XVolField,SVolField) OP(Gradient,XVolField,SVolField) OP(Interpolant,YVolField,SVolField) OP(Gradient,YVolField,SVolField) OP(Interpolant,ZVolField,SVolField) OP(Gradient,ZVolField,SVolField)
#endif
  switch(vp_choose("op",0,NOPS-1)){ ALL } }
