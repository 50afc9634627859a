#include <spatialops/structured/MemoryWindow.h>
#include "vec.h"
// Window [o,o+e) inside block g; one dimension has symbolic size, the others are chosen (their offset and extent stay symbolic).
static IntVec g,o,e;
static void window(bool symext){
  const int N=vp_cfg("n",3),B=vp_cfg("big",60);
  const int s=vp_choose("symdim",0,2);
  for(int d=0;d<3;++d){
    if(d==s && symext) g[d]=vp_int("g",1,B); else g[d]=vp_choose("g",1,N);
    if(symext){ o[d]=vp_int("o",0,B-1); e[d]=vp_int("e",1,B); vp_assume(o[d]+e[d]<=g[d]); }
  }
}
static IntVec point(const char* n){ IntVec p; for(int d=0;d<3;++d){ p[d]=vp_int(n,0,vp_cfg("big",60)); vp_assume(p[d]<e[d]); } return p; }
extern "C" void vp_main(){
#ifdef U_GLOBAL
  window(true);
  const MemoryWindow w(g,o,e);
  vp_eq3(w.glob_dim(),g,"accessors"); vp_eq3(w.offset(),o,"accessors"); vp_eq3(w.extent(),e,"accessors");
  for(int d=0;d<3;++d){ vp_eq(w.glob_dim(d),g[d],"accessors"); vp_eq(w.offset(d),o[d],"accessors"); vp_eq(w.extent(d),e[d],"accessors"); }
  vp_eq(w.glob_npts(),(long)g[0]*g[1]*g[2],"npts"); vp_eq(w.local_npts(),(long)e[0]*e[1]*e[2],"npts");
  const IntVec p=point("p");
  const int f=w.flat_index(p);
  vp_eq(f,(p[0]+o[0])+g[0]*((p[1]+o[1])+g[1]*(p[2]+o[2])),"x_fastest_offset_once");
  vp_true(f>=0 && f<g[0]*g[1]*g[2],"in_block");
  vp_eq3(w.ijk_index_from_global(f),p+o,"global_roundtrip");
  vp_eq3(flat_to_ijk(g,ijk_to_flat(g,p)),p,"plain_roundtrip");
  const int ga[3]={g[0],g[1],g[2]}, oa[3]={o[0],o[1],o[2]}, ea[3]={e[0],e[1],e[2]};
  const MemoryWindow wa(ga,oa,ea), wg(ga), wv(g); MemoryWindow wc(w), wd(wg); wd=w;
  vp_true(wa==w && wc==w && wd==w && !(wd!=w),"ctor_equal");
  vp_eq3(wg.extent(),g,"whole"); vp_eq3(wg.offset(),IntVec(0,0,0),"whole"); vp_true(wg==wv,"whole");
  if(g!=e) vp_true(wg!=w && !(wg==w),"neq");
  vp_true(w.sanity_check(),"sane");
  vp_reach("end");
#elif defined(U_DISTINCT)
  window(true);
  const MemoryWindow w(g,o,e);
  const IntVec p=point("p"), q=point("q");
  vp_assume(p!=q);
  vp_true(w.flat_index(p)!=w.flat_index(q),"distinct");
  vp_reach("end");
#elif defined(U_LOCAL)
  // windowed conversion: sizes chosen, one dimension large and symbolic
  const int B=vp_cfg("big",60); const int s=vp_choose("symdim",0,2);
  for(int d=0;d<3;++d){ e[d]= d==s? vp_int("e",1,B) : vp_choose("e",1,vp_cfg("n",3)); g[d]=e[d]+vp_choose("pad",0,1); o[d]=g[d]-e[d]; }
  const MemoryWindow w(g,o,e);
  const int l=vp_int("l",0,B*9); vp_assume(l<e[0]*e[1]*e[2]);
  const IntVec p=w.ijk_index_from_local(l);
  for(int d=0;d<3;++d) vp_true(p[d]>=0 && p[d]<e[d],"local_inside");
  vp_eq(p[0]+e[0]*(p[1]+e[1]*p[2]),l,"local_roundtrip");
  vp_eq3(flat_to_ijk(e,ijk_to_flat(e,p)),p,"plain_roundtrip");
  const int f=w.flat_index(p); vp_eq3(w.ijk_index_from_global(f)-o,p,"local_global");
  vp_reach("end");
#endif
}
