#include "stag.h"
#define OP(S,D) case __COUNTER__-C0: return FourOp<Interpolant,S,D>::go();
enum{ C0=__COUNTER__+1 };
extern "C" void vp_main(){
#if defined(U_TOEDGE)
  switch(vp_choose("op",0,5)){ OP(SVolField,XSurfYField) OP(SVolField,XSurfZField) OP(SVolField,YSurfXField) OP(SVolField,YSurfZField) OP(SVolField,ZSurfXField) OP(SVolField,ZSurfYField) }
#elif defined(U_FROMEDGE)
  switch(vp_choose("op",0,5)){ OP(XSurfYField,SVolField) OP(XSurfZField,SVolField) OP(YSurfXField,SVolField) OP(YSurfZField,SVolField) OP(ZSurfXField,SVolField) OP(ZSurfYField,SVolField) }
#else
  switch(vp_choose("op",0,5)){ OP(XVolField,YVolField) OP(XVolField,ZVolField) OP(YVolField,XVolField) OP(YVolField,ZVolField) OP(ZVolField,XVolField) OP(ZVolField,YVolField) }
#endif
}
