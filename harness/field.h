#pragma once
#include <spatialops/structured/FVStaggeredFieldTypes.h>
#include <spatialops/structured/FVTools.h>
#include "vec.h"
#include <cstdlib>
// Layout of one field: interior points n, ghosts m (low) and p (high), physical boundary flags b, and lo/hi points of
// surrounding block that the field's window leaves out. In a direction with a single point there are no ghosts or extra points.
struct Spec{ IntVec n,m,p,b,lo,hi; };
static inline Spec spec(IntVec n,IntVec m,IntVec p,IntVec b=IntVec(0,0,0),IntVec lo=IntVec(0,0,0),IntVec hi=IntVec(0,0,0)){ Spec s; s.n=n; s.m=m; s.p=p; s.b=b; s.lo=lo; s.hi=hi; return s; }
template<class F> struct Extra{ static IntVec v(){ return F::Location::BCExtra::int_vec(); } };
static inline bool inside(const IntVec& x,const IntVec& lo,const IntVec& hi){ for(int d=0;d<3;++d) if(x[d]<lo[d]||x[d]>=hi[d]) return false; return true; }
#define FOR3(x,lo_,hi_) for(IntVec x(lo_),l3_(lo_),h3_(hi_);x[2]<h3_[2];++x[2]) for(x[1]=l3_[1];x[1]<h3_[1];++x[1]) for(x[0]=l3_[0];x[0]<h3_[0];++x[0])
// A field over caller storage, with logical coordinates: interior points are 0..n-1 (+ the extra boundary point), ghosts negative or beyond.
template<class F> struct Fld{
  typedef typename F::value_type T;
  Spec s; IntVec ext,glob,gm,gp,ex; T *d,*o; long N; F* f;
  Fld(const Spec& s_,bool values=true,const char* nm="v"):s(s_){
    for(int i=0;i<3;++i){ const bool big=s.n[i]>1; ex[i]= big&&s.b[i]? Extra<F>::v()[i]:0; gm[i]=big?s.m[i]:0; gp[i]=big?s.p[i]:0; ext[i]=big?s.n[i]+gm[i]+gp[i]+ex[i]:1; glob[i]=ext[i]+s.lo[i]+s.hi[i]; }
    N=(long)glob[0]*glob[1]*glob[2]; d=new T[N]; o=new T[N];
    for(long i=0;i<N;++i){ d[i]= values? (T)vp_double(nm) : T(); o[i]=d[i]; }
    f=new F(MemoryWindow(glob,s.lo,ext),BoundaryCellInfo::build<F>(s.b[0],s.b[1],s.b[2]),GhostData(s.m,s.p),d,ExternalStorage);
#ifdef ENABLE_THREADS
    f->set_partition_count(vp_cfg("parts",NTHREADS));
#endif
  }
  ~Fld(){ delete f; delete[] d; delete[] o; }
  IntVec lo() const{ return IntVec(0,0,0)-gm; }               // first point
  IntVec hi() const{ return ext-gm; }                          // one past last
  IntVec ilo() const{ return IntVec(0,0,0); } IntVec ihi() const{ return s.n+ex; }   // interior (with extra point)
  long at(const IntVec& x) const{ long r=0; for(int i=2;i>=0;--i) r=r*glob[i]+(x[i]+gm[i]+s.lo[i]); return r; }
  T& now(const IntVec& x){ return d[at(x)]; } T was(const IntVec& x) const{ return o[at(x)]; }
  bool has(const IntVec& x) const{ return inside(x,lo(),hi()); }
  // fewer valid ghosts in direction d (the logical window shrinks with the field's)
  void narrow(int d,int m2,int p2){ if(s.n[d]<=1) return; s.lo[d]+=gm[d]-m2; s.hi[d]+=gp[d]-p2; ext[d]-=gm[d]-m2+gp[d]-p2; gm[d]=m2; gp[d]=p2; IntVec m=s.m,p=s.p; m[d]=m2; p[d]=p2; s.m=m; s.p=p; f->reset_valid_ghosts(GhostData(m,p)); }
  void sync(){ for(long i=0;i<N;++i) o[i]=d[i]; }
  // every stored value outside logical box [a,b) is as before
  void keeps_outside(const IntVec& a,const IntVec& b,const char* id){ for(long i=0;i<N;++i){ IntVec x(i%glob[0],i/glob[0]%glob[1],i/glob[0]/glob[1]); x=x-gm-s.lo; if(!inside(x,a,b)) vp_same(d[i],o[i],id); } }
  void keeps(const char* id){ for(long i=0;i<N;++i) vp_same(d[i],o[i],id); }
};
// ghosts that count in a direction (none where the field has a single point)
static inline IntVec live(const IntVec& g,const IntVec& n){ IntVec r; for(int i=0;i<3;++i) r[i]=n[i]>1?g[i]:0; return r; }
