#include "field.h"
typedef SSurfYField F;
extern "C" void vp_main(){
  const int N=vp_cfg("n",3); IntVec g,o,e;
  const bool big=vp_cfg("big",0); const int L=vp_choose("axis",0,big?2:0);
  for(int d=0;d<3;++d){ if(big){ const int k=(d-L+3)%3; g[d]= k==0?5:k==1?3:2; const int w=vp_choose("part",0,2); o[d]= w==1; e[d]=g[d]-(w!=0); } else { g[d]=vp_choose("g",1,N); e[d]=vp_choose("e",1,g[d]); o[d]=vp_choose("o",0,g[d]-e[d]); } }
  const long n=(long)g[0]*g[1]*g[2]; double* mem=new double[n]; double* old=new double[n]; for(long i=0;i<n;++i) old[i]=mem[i]=vp_double("v");
  F whole(MemoryWindow(g),BoundaryCellInfo::build<F>(),GhostData(0),mem,ExternalStorage);
  F direct(MemoryWindow(g,o,e),BoundaryCellInfo::build<F>(),GhostData(0),mem,ExternalStorage);
  F view(MemoryWindow(g,o,e),whole);
  const IntVec x=symvec("x",0,big?4:N-1); for(int d=0;d<3;++d) vp_assume(x[d]<e[d]);
  const long at=(x[0]+o[0])+(long)g[0]*((x[1]+o[1])+(long)g[1]*(x[2]+o[2]));
  F& f= vp_choose("which",0,1)? view:direct; const F& c=f;
  vp_true(&f(x)==mem+at,"triplet"); vp_true(&c(x)==mem+at,"triplet_const"); vp_true(&f(x[0],x[1],x[2])==mem+at,"three_index"); vp_true(&c(x[0],x[1],x[2])==mem+at,"three_index_const");
  vp_true(&f[f.window_with_ghost().flat_index(x)]==mem+at,"flat"); vp_true(&c[c.window_with_ghost().flat_index(x)]==mem+at,"flat_const"); vp_true(&whole[at]==mem+at,"flat_whole"); vp_true(&whole(x+o)==mem+at,"whole");
  vp_true(&*(f.begin()+(x[0]+e[0]*(x[1]+e[1]*x[2])))==mem+at,"iterator");
  vp_true(f.field_values()==mem && c.field_values()==mem,"storage");
  // a write through the triplet changes that point only (point chosen concretely)
  IntVec y(0,0,0); if(big){ if(vp_choose("y",0,1)) y=e-IntVec(1,1,1); } else for(int d=0;d<3;++d) y[d]=vp_choose("y",0,e[d]-1); const double v=vp_double("new");
  const long ay=(y[0]+o[0])+(long)g[0]*((y[1]+o[1])+(long)g[1]*(y[2]+o[2]));
  switch(vp_choose("form",0,2)){ case 0: f(y)=v; break; case 1: f(y[0],y[1],y[2])=v; break; default: f[ay]=v; }
  for(long i=0;i<n;++i) vp_same(mem[i], i==ay? v:old[i],"write_one");
  vp_same(c(y),v,"read_back"); vp_same(whole(y+o),v,"read_back_whole");
  vp_reach("end");
}
