#include "field.h"
// Expected extra point per field type: along the direction its points are shifted to cell faces, on a physical (+) boundary.
template<class F> static void one(int ex,int ey,int ez){
  const int M=vp_cfg("M",1000);
  const IntVec n=symvec("n",1,M), m=symvec("m",0,20), p=symvec("p",0,20); IntVec b; for(int d=0;d<3;++d) b[d]=vp_int("b",0,1);
  const IntVec e(ex,ey,ez);
  const BoundaryCellInfo bc=BoundaryCellInfo::build<F>(b[0],b[1],b[2]), bv=BoundaryCellInfo::build<F>(b), none=BoundaryCellInfo::build<F>(); BoundaryCellInfo bd(none); bd=bc; const BoundaryCellInfo bcc(bd);
  for(int d=0;d<3;++d){ vp_eq(bc.has_bc(d),b[d],"has_bc"); vp_eq(bc.has_bc()[d],b[d],"has_bc"); vp_eq(bc.has_extra(d),b[d]*e[d],"has_extra"); vp_eq(bc.num_extra(d),b[d]*e[d],"num_extra"); vp_eq(bc.has_extra()[d],b[d]*e[d],"has_extra"); vp_eq(bv.has_extra(d),b[d]*e[d],"has_extra"); vp_eq(none.has_extra(d),0,"no_extra"); vp_eq(none.has_bc(d),0,"no_extra"); vp_eq(bcc.has_extra(d),b[d]*e[d],"copied"); vp_eq(bcc.has_bc(d),b[d],"copied"); }
  const MemoryWindow w=get_window_with_ghost(n,GhostData(m,p),bc);
  IntVec want; for(int d=0;d<3;++d) want[d]= n[d]>1? n[d]+m[d]+p[d]+b[d]*e[d] : 1;
  vp_eq3(w.extent(),want,"window_extent"); vp_eq3(w.glob_dim(),want,"window_extent"); vp_eq3(w.offset(),IntVec(0,0,0),"window_offset");
  for(int d=0;d<3;++d) vp_eq(get_dim_with_ghost(n[d],m[d],p[d],b[d]*e[d]),want[d],"dim");
  double mem[8]; F f(w,bc,GhostData(m,p),mem,ExternalStorage);
  vp_eq3(f.window_with_ghost().extent(),want,"field_window"); vp_eq3(f.window_with_ghost().glob_dim(),want,"field_window");
  for(int d=0;d<3;++d){ vp_eq(f.window_without_ghost().extent(d), n[d]>1? n[d]+b[d]*e[d] : 1,"interior_extent"); vp_eq(f.window_without_ghost().offset(d), n[d]>1? m[d]:0,"interior_offset"); vp_eq(f.boundary_info().has_extra(d),b[d]*e[d],"field_bc"); }
  vp_eq3(f.get_ghost_data().get_minus(),m,"field_ghosts"); vp_eq3(f.get_ghost_data().get_plus(),p,"field_ghosts"); vp_eq3(f.get_valid_ghost_data().get_minus(),m,"field_valid_ghosts"); vp_eq3(f.get_valid_ghost_data().get_plus(),p,"field_valid_ghosts");
  const F c(f); vp_true(c.window_without_ghost()==f.window_without_ghost() && c.window_with_ghost()==f.window_with_ghost(),"copy_window");
  vp_reach("end");
}
extern "C" void vp_main(){
  switch(vp_choose("type",0,15)){
    case 0: return one<SVolField>(0,0,0); case 1: return one<SSurfXField>(1,0,0); case 2: return one<SSurfYField>(0,1,0); case 3: return one<SSurfZField>(0,0,1);
    case 4: return one<XVolField>(1,0,0); case 5: return one<XSurfXField>(0,0,0); case 6: return one<XSurfYField>(0,1,0); case 7: return one<XSurfZField>(0,0,1);
    case 8: return one<YVolField>(0,1,0); case 9: return one<YSurfXField>(1,0,0); case 10: return one<YSurfYField>(0,0,0); case 11: return one<YSurfZField>(0,0,1);
    case 12: return one<ZVolField>(0,0,1); case 13: return one<ZSurfXField>(1,0,0); case 14: return one<ZSurfYField>(0,1,0); default: return one<ZSurfZField>(0,0,0);
  }
}
