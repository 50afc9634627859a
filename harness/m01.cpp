#include "vp.h"
#include <spatialops/structured/MemoryPool.h>
#include <vector>
#include <set>
#include <stdexcept>
using namespace SpatialOps; using namespace SpatialOps::structured;
struct Held { char* p; int n; int tag; };
template<class T> static void go(){
  Pool<T>& pool=Pool<T>::self(); const int K=vp_cfg("K",4),M=vp_cfg("M",400); std::vector<Held> out; std::set<void*> owned; int tag=1;
  vp_eq(pool.active(),0,"active_count"); vp_eq(pool.total(),0,"total_count");
  for(int k=0;k<K;++k){
    const int act=vp_choose("act",0,(int)out.size()); // 0: get, i: put back the i-th outstanding block
    if(act==0){ const int n=vp_int("n",1,M); T* p=pool.get(LOCAL_RAM,n); vp_true(p!=NULL,"block");
      for(size_t i=0;i<out.size();++i){ vp_true((char*)p!=out[i].p,"not_in_use"); char* q=(char*)p; vp_true(q+(long)n*(long)sizeof(T)<=out[i].p||out[i].p+(long)out[i].n*(long)sizeof(T)<=q,"disjoint"); }
      vp_room(p,(long)n*(long)sizeof(T),"large_enough"); Held h={(char*)p,n,tag}; out.push_back(h); owned.insert(p); *p=T(tag++); }
    else { Held h=out[act-1]; vp_true(*(T*)h.p==T(h.tag),"contents_kept"); out.erase(out.begin()+(act-1)); pool.put(LOCAL_RAM,(T*)h.p); vp_reach("returned"); }
    vp_eq(pool.active(),out.size(),"active_count"); vp_eq(pool.total(),owned.size(),"total_count");
    for(size_t i=0;i<out.size();++i) vp_true(*(T*)out[i].p==T(out[i].tag),"contents_kept"); }
  vp_reach("end"); }
extern "C" void vp_main(){
#ifdef U_DOUBLE
  go<double>();
#else
  if(vp_choose("type",0,1)) go<float>(); else go<unsigned int>();
#endif
}
