#include "field.h"
#include <spatialops/pointfield/PointFieldTypes.h>
#include <spatialops/pointfield/PointOperators.h>
using namespace SpatialOps::Point; typedef XVolField F;
extern "C" void vp_main(){
  const bool big=vp_cfg("big",0); Spec s; if(big) s=spec(IntVec(5,3,2),IntVec(1,0,1),IntVec(0,1,0),IntVec(1,0,0)); else switch(vp_choose("shape",0,vp_cfg("shapes",3)-1)){ case 0: s=spec(IntVec(2,2,1),IntVec(0,0,0),IntVec(0,0,0)); break; case 1: s=spec(IntVec(2,1,1),IntVec(1,0,0),IntVec(0,0,0),IntVec(1,0,0)); break; case 2: s=spec(IntVec(1,1,3),IntVec(0,0,1),IntVec(0,0,1)); break; default: s=spec(IntVec(3,1,2),IntVec(0,0,0),IntVec(0,0,0),IntVec(1,0,0)); }
  Fld<F> f(s); std::vector<size_t> ix; const int K=vp_cfg("K",2); bool byField=false; if(!big) byField=vp_choose("by_field",0,1);
  typedef FieldToPoint<F> Out; typedef PointToField<F> In; Out* out; In* in;
  if(byField){ Fld<F> loc(s); for(long i=0;i<f.N;++i) if(loc.d[i]!=0.0) ix.push_back(i); if(ix.empty()) return; out=new Out(*loc.f); in=new In(*loc.f); loc.keeps("locations_untouched"); }
  else if(big){ const int k=vp_choose("points",9,16),st=vp_choose("stride",0,2); const int q[3]={1,7,59}; for(int i=0;i<k;++i) ix.push_back((5+(size_t)i*q[st])%f.N); out=new Out(ix); in=new In(ix); }
  else { const int k=vp_choose("points",1,K); for(int i=0;i<k;++i) ix.push_back(vp_choose("index",0,(int)f.N-1)); out=new Out(ix); in=new In(ix); }
  const int np=ix.size(); bool dup=false; for(int i=0;i<np;++i) for(int j=0;j<i;++j) if(ix[i]==ix[j]) dup=true;
  double pv[16]; for(int i=0;i<np;++i) pv[i]=vp_double("p");
  PointField p(MemoryWindow(IntVec(np,1,1)),BoundaryCellInfo::build<PointField>(false,false,false),GhostData(0),pv,ExternalStorage);
  switch(vp_choose("op",0,2)){
    case 0: out->apply_to_field(*f.f,p); for(int i=0;i<np;++i) vp_same(pv[i],f.o[ix[i]],"extracted_in_order"); f.keeps("source_untouched"); break;
    case 1: { double w[16]; for(int i=0;i<np;++i) w[i]=pv[i]; in->apply_to_field(p,*f.f); for(long x=0;x<f.N;++x){ double v=f.o[x]; for(int i=0;i<np;++i) if((long)ix[i]==x) v=w[i]; vp_same(f.d[x],v,"inserted_exactly"); } for(int i=0;i<np;++i) vp_same(pv[i],w[i],"points_untouched"); break; }
    default: out->apply_to_field(*f.f,p); in->apply_to_field(p,*f.f); f.keeps("round_trip"); }
  delete out; delete in; vp_reach("end"); }
