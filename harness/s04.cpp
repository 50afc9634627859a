#include "stag.h"
#define OP(S,D) case __COUNTER__-C0: return CopyOp<S,D>::go();
enum{ C0=__COUNTER__+1 };
extern "C" void vp_main(){
  switch(vp_choose("op",0,12)){ OP(XVolField,SSurfXField) OP(YVolField,SSurfYField) OP(ZVolField,SSurfZField) OP(SVolField,XSurfXField) OP(SVolField,YSurfYField) OP(SVolField,ZSurfZField)
   OP(XSurfXField,SVolField) OP(YSurfYField,SVolField) OP(ZSurfZField,SVolField) OP(SVolField,SVolField) OP(XVolField,XVolField) OP(YVolField,YVolField) OP(ZVolField,ZVolField) } }
