#include "field.h"
#include <spatialops/structured/SpatialFieldStore.h>
#include <stdexcept>
template<class F> static void usable(SpatFldPtr<F>& w,const IntVec& ext){ // every point can be written and read back
  F& f=*w; vp_true(f.window_with_ghost().offset()==IntVec(0,0,0)&&f.window_with_ghost().glob_dim()==ext,"own_block");
  const double v=vp_double("w"); double k=0; for(typename F::iterator i=f.begin();i!=f.end();++i){ *i=v+k; k+=1; } vp_eq((long)k,(long)ext[0]*ext[1]*ext[2],"points"); 
  k=0; FOR3(x,IntVec(0,0,0),ext){ const F& cf=f; vp_same(cf(x),v+k,"written"); k+=1; } }
#ifdef U_PROTO
template<class F,class P> static void go(){
  const int N=vp_cfg("N",3),G=vp_cfg("G",2); const int dir=vp_choose("dir",0,2); const int n=vp_choose("n",1,N); IntVec m,p,b,nn;
  for(int d=0;d<3;++d){ nn[d]= d==dir?n: d==(dir+1)%3?1:2; b[d]=vp_choose("bc",0,1); m[d]=d==dir&&n>1?vp_choose("low",0,G):1; p[d]=d==dir&&n>1?vp_choose("high",0,G):d==(dir+2)%3?2:1; }
  Fld<P> f(spec(nn,m,p,b)); GhostData g(m,p);
  if(n>1){ const int lo=vp_choose("vlow",0,m[dir]); const int hi=vp_choose("vhigh",0,p[dir]); if(lo!=m[dir]||hi!=p[dir]){ IntVec vm=m,vp=p; vm[dir]=lo; vp[dir]=hi; g=GhostData(vm,vp); f.f->reset_valid_ghosts(g); vp_reach("narrowed"); } }
  { SpatFldPtr<F> w=SpatialFieldStore::get<F>(*f.f); vp_true(!w.isnull()&&w.built_from_store(),"from_store");
    IntVec ext,in; for(int d=0;d<3;++d){ const bool big=nn[d]>1; in[d]= big? nn[d]+(b[d]?Extra<F>::v()[d]:0):1; ext[d]= big? in[d]+g.get_minus(d)+g.get_plus(d):1; }
    vp_true(w->window_with_ghost().extent()==ext,"extent"); vp_true(w->window_without_ghost().extent()==in,"interior_extent");
    { IntVec off; for(int d=0;d<3;++d) off[d]=nn[d]>1?g.get_minus(d):0; vp_true(w->window_without_ghost().offset()==off,"interior_offset"); }
    vp_true(w->boundary_info().has_bc()==b,"boundary_flags"); { IntVec e=Extra<F>::v()*b; vp_true(w->boundary_info().num_extra()==e,"boundary_extra"); }
    vp_true(w->get_ghost_data()==g,"ghosts"); vp_true(w->get_valid_ghost_data()==g,"valid_ghosts");
    if(w->window_with_ghost().extent()==ext){ for(long i=0;i<f.N;++i) vp_true((double*)w->field_values()!=f.d+i,"own_storage"); usable(w,ext); } }
  f.keeps("prototype_unchanged"); vp_reach("end"); }
extern "C" void vp_main(){
  switch(vp_choose("types",0,9)){
    case 0: return go<SVolField,SVolField>(); case 1: return go<SVolField,SSurfXField>(); case 2: return go<SSurfXField,SVolField>(); case 3: return go<YVolField,XSurfYField>(); case 4: return go<XVolField,XSurfXField>();
    case 5: return go<ZSurfYField,ZVolField>(); case 6: return go<SSurfYField,SSurfZField>(); case 7: return go<YSurfZField,YSurfZField>(); case 8: return go<ZSurfXField,XVolField>(); default: return go<SSurfZField,YVolField>(); } }
#else
template<class F> static void go(){
  const int N=vp_cfg("N",3); IntVec gl,of,ex,b; const int big=vp_cfg("big",0)? vp_choose("window",0,3): -1;
  if(big>=0){ static const int W[4][9]={{20,1,1,3,0,0,12,1,1},{6,5,6,1,0,1,5,5,4},{4,30,3,0,2,1,3,25,2},{3,4,18,0,0,0,3,4,18}}; for(int d=0;d<3;++d){ gl[d]=W[big][d]; of[d]=W[big][3+d]; ex[d]=W[big][6+d]; } }
  else for(int d=0;d<3;++d){ gl[d]=vp_choose("glob",1,d==0?N:2); of[d]=vp_choose("offset",0,gl[d]-1); ex[d]=vp_choose("extent",1,gl[d]-of[d]); }
  const int dir=vp_choose("dir",0,2); b=IntVec(0,0,0); b[dir]=vp_choose("bc",0,1); IntVec m(0,0,0),p(0,0,0); if(ex[dir]>1){ const int most= big>=0&&ex[dir]>4?4:ex[dir]-1; m[dir]=vp_choose("low",0,most); p[dir]=vp_choose("high",0,most-m[dir]); }
  SpatFldPtr<F> w=SpatialFieldStore::get_from_window<F>(MemoryWindow(gl,of,ex),BoundaryCellInfo::build<F>(b),GhostData(m,p));
  SpatFldPtr<F> w2=SpatialFieldStore::get_from_window<F>(MemoryWindow(gl,of,ex),BoundaryCellInfo::build<F>(b),GhostData(m,p));
  vp_true(w->window_with_ghost().extent()==ex,"extent"); { IntVec in=ex-m-p; vp_true(w->window_without_ghost().extent()==in,"interior_extent"); } vp_true(w->get_ghost_data()==GhostData(m,p)&&w->get_valid_ghost_data()==GhostData(m,p),"ghosts"); vp_true(w->boundary_info().has_bc()==b,"boundary_flags");
  vp_true(w->field_values()!=w2->field_values(),"own_storage"); usable(w2,ex); { const double v0=(*w2)(0,0,0); usable(w,ex); vp_same((*w2)(0,0,0),v0,"other_unchanged"); }
  bool threw=false; try{ SpatFldPtr<F> x=SpatialFieldStore::get_from_window<F>(MemoryWindow(gl,of,ex),BoundaryCellInfo::build<F>(b),GhostData(m,p),EXTERNAL_CUDA_GPU); }catch(const std::runtime_error&){ threw=true; } vp_true(threw,"unsupported_memory");
  vp_reach("end"); }
extern "C" void vp_main(){ if(vp_choose("type",0,1)) go<SSurfYField>(); else go<XVolField>(); }
#endif
