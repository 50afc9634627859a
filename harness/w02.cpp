#include <spatialops/structured/MemoryWindow.h>
#include <spatialops/NeboBasic.h>
#include "vec.h"
extern "C" void vp_main(){
  const int E=vp_cfg("E",60), S=vp_cfg("S",6);
#ifdef U_REFINE
  // two dimensions split by chosen counts; sizes, offsets and piece location symbolic
  const int d=vp_choose("dim",0,2);
  IntVec e=symvec("e",1,E), o=symvec("o",0,E), pad=symvec("pad",0,3), split, loc;
  for(int i=0;i<3;++i){ split[i]= i==d? vp_choose("split",1,S) : vp_choose("split2",1,2); vp_assume(split[i]<=e[i]); loc[i]=vp_int("loc",0,S-1); vp_assume(loc[i]<split[i]); }
  const IntVec g=o+e+pad;
  const MemoryWindow w(g,o,e);
  const MemoryWindow r=w.refine(split,loc);
  vp_eq3(r.glob_dim(),g,"global_extent_kept");
  for(int i=0;i<3;++i){
    const int lo=r.offset()[i], n=r.extent()[i];
    vp_true(lo>=o[i] && n>=1 && lo+n<=o[i]+e[i],"inside");
    vp_true(n*split[i]<=e[i]+split[i]-1 && n*split[i]>=e[i]-split[i]+1,"balanced");   // n is floor or ceil of e/split
    if(loc[i]==0) vp_eq(lo,o[i],"starts_at_origin");
    if(loc[i]==split[i]-1) vp_eq(lo+n,o[i]+e[i],"ends_at_end");
    else{ IntVec l2=loc; l2[i]+=1; const MemoryWindow q=w.refine(split,l2);
      vp_eq(q.offset()[i],lo+n,"contiguous");
      for(int k=0;k<3;++k) if(k!=i){ vp_eq(q.offset()[k],r.offset()[k],"independent"); vp_eq(q.extent()[k],r.extent()[k],"independent"); } }
  }
  vp_reach("end");
#elif defined(U_PARTITION)
  // partition chosen for a thread count, and its traversal
  IntVec e=symvec("e",1,E); const int t=vp_choose("threads",1,S);
  const IntVec split=nebo_find_partition(e,t);
  for(int i=0;i<3;++i) vp_true(split[i]>=1 && split[i]<=e[i],"split_fits");
  const int n=nebo_partition_count(split);
  vp_true(n>=1 && n<=t,"count_at_most_threads");
  vp_eq(n,split[0]*split[1]*split[2],"count");
  if(t<=e[0]||t<=e[1]||t<=e[2]) vp_eq(n,t,"uses_all_threads");
  vp_reach("end");
#elif defined(U_WALK)
  const IntVec split=chvec("split",1,vp_cfg("W",3));
  const int n=nebo_partition_count(split); vp_eq(n,split[0]*split[1]*split[2],"count");
  IntVec loc(0,0,0); bool seen[64]={};
  for(int k=0;k<n;++k){
    for(int i=0;i<3;++i) vp_true(loc[i]>=0&&loc[i]<split[i],"walk_inside");
    const int f=ijk_to_flat(split,loc); vp_true(!seen[f],"walk_once"); seen[f]=true;
    loc=nebo_next_partition(loc,split);
  }
  vp_reach("end");
#endif
}
