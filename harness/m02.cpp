#include "field.h"
#include <spatialops/structured/SpatialFieldStore.h>
typedef SVolField F; typedef SpatFldPtr<F> Ptr;
// Reference model: which field every handle refers to, and how many handles refer to each field.
struct Info { int refs; double tag; double* store; bool pooled; };
static double raw[16][2]; static int nraw=0;
static MemoryWindow win(){ return MemoryWindow(IntVec(2,1,1)); }
static Ptr fresh(){ return SpatialFieldStore::get_from_window<F>(win(),BoundaryCellInfo::build<F>(false,false,false),GhostData(0)); }
extern "C" void vp_main(){
  const int K=vp_cfg("K",3),H=vp_cfg("H",3); Pool<double>& pool=Pool<double>::self();
  { double* b[10]; for(int i=0;i<=K+1;++i) b[i]=pool.get(LOCAL_RAM,2); for(int i=0;i<=K+1;++i) pool.put(LOCAL_RAM,b[i]); } // so that the pool itself allocates nothing below
  std::vector<Info>& info=*new std::vector<Info>; info.reserve(32); std::vector<int>& ref=*new std::vector<int>; ref.assign(H,-1);
  Ptr** h=new Ptr*[H]; for(int i=0;i<H;++i) h[i]=NULL;
  const long live0=vp_live_allocs();
  for(int i=0;i<H;++i) h[i]=new Ptr();
  int used=0;
  for(int k=0;k<K;++k){
    int ops=5+2*(H-1)+1; const int i= k==0?0:vp_choose("handle",0,used<H-1?used+1:H-1); if(i>used) used=i; // untouched handles are interchangeable
    const int op= k==0? vp_choose("first",0,1) : vp_choose("op",0,3+2*H-1);
    int next=-1; bool drop=true;
    if(op==0||op==1){ Info f; f.refs=0; f.tag=vp_double("tag"); f.pooled=op==0;
      if(op==0){ *h[i]=fresh(); f.store=(*h[i])->field_values(); }
      else { double* r=raw[nraw++]; r[0]=r[1]=0; *h[i]=new F(win(),BoundaryCellInfo::build<F>(false,false,false),GhostData(0),r,ExternalStorage); f.store=r; }
      vp_true(!h[i]->isnull(),"field_present"); for(size_t q=0;q<info.size();++q) if(info[q].refs>(ref[i]==(int)q?1:0)) vp_true(info[q].store!=f.store,"unshared");
      (**h[i])(0,0,0)=f.tag; (**h[i])(1,0,0)=f.tag; next=info.size(); info.push_back(f); }
    else if(op==2){ h[i]->detach(); }
    else if(op<3+H){ const int j=op-3; *h[i]=*h[j]; next=ref[j]; } // assignment, also from itself
    else { const int j=op-3-H; if(j==i) vp_stop(); Ptr* q=new Ptr(*h[j]); delete h[i]; h[i]=q; next=ref[j]; } // copy construction, destruction
    if(ref[i]>=0) --info[ref[i]].refs; ref[i]=next; if(next>=0) ++info[next].refs;
    size_t act=0; for(size_t q=0;q<info.size();++q) if(info[q].refs>0&&info[q].pooled) ++act;
    vp_eq(pool.active(),act,"returned_exactly_once");
    for(int q=0;q<H;++q){ vp_eq(h[q]->isnull(),ref[q]<0,"null_when_detached"); if(ref[q]<0) continue; const Info& f=info[ref[q]];
      vp_eq(h[q]->count(),f.refs,"count"); vp_true((*h[q])->field_values()==f.store,"refers_to_its_field"); vp_same((**h[q])(0,0,0),f.tag,"values_kept"); vp_same((**h[q])(1,0,0),f.tag,"values_kept"); vp_eq(h[q]->built_from_store(),f.pooled,"origin"); }
  }
  for(int i=0;i<H;++i) delete h[i];
  vp_eq(pool.active(),0,"returned_exactly_once"); vp_eq(vp_live_allocs(),live0,"nothing_leaked");
  vp_reach("end"); }
