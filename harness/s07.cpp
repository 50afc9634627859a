#include "stag.h"
template<class C> static void chk(const C& c,const double* v,int n){
  const int i=vp_int("index",-4,n+4); bool threw=false; double g=0;
  try{ g=c.get_coef(i); }catch(const std::runtime_error&){ threw=true; }
  if(i<0||i>=n) vp_true(threw,"outside_rejected"); else { vp_true(!threw,"inside_accepted"); double w=v[0]; for(int k=1;k<n;++k) if(i==k) w=v[k]; vp_same(g,w,"value"); }
  vp_same(c.coef(),v[n-1],"last"); vp_reach("end"); }
extern "C" void vp_main(){
  double v[6]; for(int i=0;i<6;++i) v[i]=vp_double("coef");
  switch(vp_choose("length",1,8)){
    case 1: return chk(build_coef_collection(v[0]),v,1);
    case 2: return chk(build_two_point_coef_collection(v[0],v[1]),v,2);
    case 3: return chk(build_coef_collection(v[0])(v[1])(v[2]),v,3);
    case 4: return chk(build_four_point_coef_collection(v[0],v[1],v[2],v[3]),v,4);
    case 5: return chk(build_coef_collection(v[0])(v[1])(v[2])(v[3])(v[4]),v,5);
    case 6: return chk(build_coef_collection(v[0])(v[1])(v[2])(v[3])(v[4])(v[5]),v,6);
    case 7:{ NeboStencilCoefCollection<3> a(build_two_point_coef_collection(v[0],v[1]),v[2]); return chk(a,v,3); }
    default:{ const OperatorTypeBuilder<Interpolant,SVolField,XSurfYField>::type op(build_four_point_coef_collection(v[0],v[1],v[2],v[3])); return chk(op.coefs(),v,4); } } }
