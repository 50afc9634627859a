#include "field.h"
#include <stdexcept>
struct Geo{ IntVec gl,of,ex,m,p; };
static Geo geo(int N,bool whole){ Geo g; const int a=vp_choose("axis",0,2), big=vp_cfg("big",0); int big_part=0; // long axis
  for(int d=0;d<3;++d){ const int k=(d-a+3)%3; g.gl[d]= big? (k==0?big:k==1?5:3) : k==2?1:vp_choose("glob",1,k==0?N:2); g.m[d]=g.p[d]=0; if(big&&d==0) big_part=vp_choose("part",0,1); if(whole){ g.of[d]=0; g.ex[d]=g.gl[d]; } else if(big){ const int w=big_part; g.of[d]= w?1:0; g.ex[d]=g.gl[d]-(w?1+d%2:0); } else { g.of[d]=vp_choose("offset",0,g.gl[d]-1); g.ex[d]=vp_choose("extent",1,g.gl[d]-g.of[d]); } }
  if(g.ex[a]>1){ g.m[a]=vp_choose("low",0,1); if(g.ex[a]>2) g.p[a]=vp_choose("high",0,1); if(g.m[a]+g.p[a]>=g.ex[a]) vp_stop(); } return g; }
// a sub-window of the block
static void sub(const Geo& g,IntVec& of,IntVec& ex){ const bool big=vp_cfg("big",0); int vd=0; if(big) vd=vp_choose("vdir",0,3); for(int d=0;d<3;++d){ if(big){ int w=0; if(vd==d||vd==3) w=vp_choose("vpart",1,2); of[d]= w==1?1:0; ex[d]= w==0?g.gl[d]:g.gl[d]-1; } else { of[d]=vp_choose("voffset",0,g.gl[d]-1); ex[d]=vp_choose("vextent",1,g.gl[d]-of[d]); } } }
static long flat(const Geo& g,const IntVec& x){ return (x[0]+g.of[0])+(long)g.gl[0]*((x[1]+g.of[1])+(long)g.gl[1]*(x[2]+g.of[2])); }
typedef SVolField F; typedef std::vector<double> DV;
static F* make(const Geo& g,double* v,StorageMode m){ return new F(MemoryWindow(g.gl,g.of,g.ex),BoundaryCellInfo::build<F>(false,false,false),GhostData(g.m,g.p),v,m); }
static void is(F* f,const Geo& g,const DV& want,const char* id){ size_t k=0; FOR3(x,IntVec(0,0,0),g.ex){ vp_same((*f)(x),want[k],id); ++k; } }
static void set(F* f,const Geo& g,DV& want){ size_t k=0; const double v=vp_double("w"); FOR3(x,IntVec(0,0,0),g.ex){ (*f)(x)=v+(double)k; want[k]=v+(double)k; ++k; } }
#ifdef U_LIFE
// A parent field in each storage mode, an independent field, and a copy or window view of the parent; destroyed in every order.
extern "C" void vp_main(){
  const Geo g=geo(vp_cfg("N",3),false); const long N=(long)g.gl[0]*g.gl[1]*g.gl[2]; const int mode=vp_choose("mode",0,2);
  double* buf=new double[N]; DV b0(N); for(long i=0;i<N;++i) b0[i]=buf[i]=vp_double("v");
  Pool<double>& pool=Pool<double>::self(); const size_t act0=pool.active();
  DV wa; { long k=0; FOR3(x,IntVec(0,0,0),g.ex){ wa.push_back(mode==0? buf[flat(g,x)]: mode==1? buf[k]: 0.0); ++k; } }
  F* A=make(g,mode==2?NULL:buf,mode==0?ExternalStorage:InternalStorage);
  vp_eq(pool.active()-act0,mode!=0,"pool_use"); is(A,g,wa,"initial_values"); if(mode==0) vp_true(A->field_values()==buf,"uses_caller_storage");
  vp_true(A->window_with_ghost()==MemoryWindow(g.gl,g.of,g.ex),"window"); { IntVec io=g.of+g.m,ie=g.ex-g.m-g.p; vp_true(A->window_without_ghost()==MemoryWindow(g.gl,io,ie),"interior_window"); }
  const double dv=vp_double("b"); F* B; DV wb(wa.size(),dv); { double* t=new double[wa.size()]; for(size_t i=0;i<wa.size();++i) t[i]=dv; B=make(g,t,InternalStorage); delete[] t; } is(B,g,wb,"initial_values");
  const bool copy=vp_choose("copy",0,1); Geo gv=g; F* V;
  if(copy) V=new F(*A);
  else { sub(g,gv.of,gv.ex); V=new F(MemoryWindow(gv.gl,gv.of,gv.ex),*A);
    bool cut=false; for(int d=0;d<3;++d) if(gv.of[d]>g.of[d]+g.m[d]||gv.of[d]+gv.ex[d]<g.of[d]+g.ex[d]-g.p[d]) cut=true; bool threw=false; try{ F::interior_iterator it=V->interior_begin(); double* p=&*it; vp_true(p==A->field_values()+flat(g,g.m),"interior_begin"); }catch(const std::runtime_error&){ threw=true; } vp_eq(threw,cut,"interior_disabled"); }
  vp_true(V->field_values()==A->field_values(),"aliases"); vp_true(V->window_with_ghost()==MemoryWindow(gv.gl,gv.of,gv.ex),"window"); vp_true(V->boundary_info().has_bc()==A->boundary_info().has_bc()&&V->get_ghost_data()==A->get_ghost_data(),"description");
  FOR3(x,IntVec(0,0,0),gv.ex){ IntVec y=x+gv.of-g.of; if(inside(y,IntVec(0,0,0),g.ex)) vp_true(&(*V)(x)==&(*A)(y),"same_storage"); } 
  { DV t((size_t)gv.ex[0]*gv.ex[1]*gv.ex[2]); set(V,gv,t); long k=0; FOR3(x,IntVec(0,0,0),g.ex){ IntVec y=x+g.of-gv.of; if(inside(y,IntVec(0,0,0),gv.ex)) wa[k]=t[y[0]+gv.ex[0]*(y[1]+gv.ex[1]*y[2])]; ++k; } } is(A,g,wa,"seen_by_parent"); is(B,g,wb,"independent");
  set(A,g,wa); is(B,g,wb,"independent"); if(copy) is(V,g,wa,"seen_by_copy"); set(B,g,wb); is(A,g,wa,"independent");
  if(mode==0){ for(long i=0;i<N;++i){ IntVec x(i%g.gl[0],i/g.gl[0]%g.gl[1],i/g.gl[0]/g.gl[1]); IntVec a=x-g.of,v=x-gv.of; if(!inside(a,IntVec(0,0,0),g.ex)&&!inside(v,IntVec(0,0,0),gv.ex)) vp_same(buf[i],b0[i],"outside_untouched"); } } else for(long i=0;i<N;++i) vp_same(buf[i],b0[i],"source_untouched");
  // destruction in every order, with a new field made after the first one is gone
  const int order= vp_cfg("big",0)? 3*vp_choose("order",0,1):vp_choose("order",0,5); static const int perm[6][3]={{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}; bool la=true,lb=true; F* C=NULL; DV wc(wa.size(),0.0);
  for(int k=0;k<3;++k){ const int w=perm[order][k]; if(w==0){ delete A; la=false; } else if(w==1){ delete B; lb=false; } else delete V;
    if(la) is(A,g,wa,"survives"); if(lb) is(B,g,wb,"survives"); vp_eq(pool.active()-act0,(la&&mode!=0)+lb+(C!=NULL),"pool_use");
    if(k==0){ C=make(g,NULL,InternalStorage); is(C,g,wc,"initial_values"); set(C,g,wc); if(la) is(A,g,wa,"independent"); if(lb) is(B,g,wb,"independent"); } is(C,g,wc,"survives"); }
  delete C; vp_eq(pool.active(),act0,"pool_use"); { const double last=vp_double("l"); buf[0]=last; vp_same(buf[0],last,"caller_storage_kept"); } delete[] buf; vp_reach("end"); }
#else
// operator=: copies the window, rejects fields of another window, leaves the source and everything outside the window alone.
extern "C" void vp_main(){
  const Geo g=geo(vp_cfg("N",3),false); const long N=(long)g.gl[0]*g.gl[1]*g.gl[2]; double* a=new double[N]; double* b=new double[N]; DV a0(N),b0(N); for(long i=0;i<N;++i){ a0[i]=a[i]=vp_double("a"); b0[i]=b[i]=vp_double("b"); }
  const bool internal=vp_choose("internal",0,1); F* A=make(g,a,ExternalStorage); F* B=internal? make(g,NULL,InternalStorage):make(g,b,ExternalStorage); DV wa; FOR3(x,IntVec(0,0,0),g.ex) wa.push_back(a0[flat(g,x)]);
  const int what=vp_choose("what",0,2);
  if(what==0){ F& r=(*B=*A); vp_true(&r==B,"returns_itself"); is(B,g,wa,"copied"); vp_true(B->field_values()!=A->field_values(),"own_storage"); const double v=vp_double("w"); (*B)(0,0,0)=v; is(A,g,wa,"independent"); (*B)(0,0,0)=wa[0];
    if(!internal) for(long i=0;i<N;++i){ IntVec x(i%g.gl[0],i/g.gl[0]%g.gl[1],i/g.gl[0]/g.gl[1]); IntVec y=x-g.of; if(!inside(y,IntVec(0,0,0),g.ex)) vp_same(b[i],b0[i],"outside_untouched"); } }
  else if(what==1){ F al(*A); al=*A; *A=*A; is(A,g,wa,"self_assignment"); }
  else { Geo h=g; sub(g,h.of,h.ex); h.m=h.p=IntVec(0,0,0); if(h.ex==g.ex) vp_stop(); F* H=make(h,b,ExternalStorage); bool threw=false; try{ *H=*A; }catch(const std::runtime_error&){ threw=true; } vp_true(threw,"unequal_windows_rejected"); for(long i=0;i<N;++i) vp_same(b[i],b0[i],"unchanged_on_rejection"); delete H; }
  for(long i=0;i<N;++i) vp_same(a[i],a0[i],"source_unchanged"); delete A; delete B; delete[] a; delete[] b; vp_reach("end"); }
#endif
