#include "stag.h"
extern "C" void vp_main(){
#if defined(U_BOX)
  switch(vp_choose("type",0,3)){ case 0: return BoxOp<SVolField>::go(); case 1: return BoxOp<XVolField>::go(); case 2: return BoxOp<YVolField>::go(); default: return BoxOp<ZVolField>::go(); }
#else
#define W(F) switch(vp_choose("op",0,5)){ case 0: return WideOp<InterpolantX,F>::go(0); case 1: return WideOp<InterpolantY,F>::go(1); case 2: return WideOp<InterpolantZ,F>::go(2); \
   case 3: return WideOp<GradientX,F>::go(0); case 4: return WideOp<GradientY,F>::go(1); default: return WideOp<GradientZ,F>::go(2); }
  switch(vp_choose("type",0,3)){ case 0: W(SVolField) case 1: W(XVolField) case 2: W(YVolField) default: W(ZVolField) }
#endif
}
