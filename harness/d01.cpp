#include "field.h"
#include <spatialops/structured/Grid.h>
template<class Dir> struct D; template<> struct D<XDIR>{ enum{v=0}; }; template<> struct D<YDIR>{ enum{v=1}; }; template<> struct D<ZDIR>{ enum{v=2}; };
// staggering written down independently of the library: -1 in the direction a location sits half a cell lower
template<class F> struct St;
#define ST(T,x,y,z) template<> struct St<T>{ static int v(int d){ return d==0?x:d==1?y:z; } };
ST(SVolField,0,0,0) ST(SSurfXField,-1,0,0) ST(SSurfYField,0,-1,0) ST(SSurfZField,0,0,-1)
ST(XVolField,-1,0,0) ST(XSurfXField,0,0,0) ST(XSurfYField,-1,-1,0) ST(XSurfZField,-1,0,-1)
ST(YVolField,0,-1,0) ST(YSurfXField,-1,-1,0) ST(YSurfYField,0,0,0) ST(YSurfZField,0,-1,-1)
ST(ZVolField,0,0,-1) ST(ZSurfXField,-1,0,-1) ST(ZSurfYField,0,-1,-1) ST(ZSurfZField,0,0,0)
template<class F,class Dir> static void go(){
  const int d=D<Dir>::v; const int N=vp_cfg("N",3),G=vp_cfg("G",2); const int n=vp_choose("n",1,N); const int o=(d+1)%3,q=(d+2)%3; IntVec nn,m,p,b,lo,hi;
  for(int k=0;k<3;++k){ m[k]=p[k]=lo[k]=hi[k]=0; } b[0]=b[1]=b[2]=0; nn[d]=n; nn[o]=2; nn[q]=1; m[o]=1; p[q]=1; b[o]=1;
  if(n>1){ m[d]=vp_choose("low",0,G); p[d]=vp_choose("high",0,G); lo[d]=vp_choose("padlow",0,1); hi[d]=lo[d]; lo[o]=1; } b[d]=vp_choose("bc",0,1);
  Fld<F> f(spec(nn,m,p,b,lo,hi)); int cut=0,cutp=0; if(n>1){ cut=vp_choose("narrowlow",0,m[d]); cutp=vp_choose("narrowhigh",0,p[d]); if(cut||cutp){ IntVec a=m,c=p; a[d]-=cut; c[d]-=cutp; f.f->reset_valid_ghosts(GhostData(a,c)); } }
  IntVec np; std::vector<double> len(3); for(int k=0;k<3;++k){ np[k]=vp_choose("npts",1,k==d?vp_cfg("P",4):1); len[k]=vp_double("length"); vp_assume(len[k]>=0.001&&len[k]<=1000); }
  const Grid g(np,len); vp_same(g.template spacing<Dir>()*np[d],len[d],"spacing"); vp_eq(g.extent(d),np[d],"count"); vp_same(g.length(d),len[d],"length");
  g.template set_coord<Dir>(*f.f); IntVec x0=f.lo(),x1=f.hi(); x0[d]+=cut; x1[d]-=cutp;
  FOR3(x,x0,x1) vp_same(f.now(x)*2.0*np[d],len[d]*(double)(2*x[d]+1+St<F>::v(d)),"coordinate"); f.keeps_outside(x0,x1,"outside_untouched");
  vp_reach("end"); }
template<class F> static void dirs(){ switch(vp_choose("dir",0,2)){ case 0: return go<F,XDIR>(); case 1: return go<F,YDIR>(); default: return go<F,ZDIR>(); } }
template<class V> static void faces(){ switch(vp_choose("face",0,3)){ case 0: return dirs<V>(); case 1: return dirs<typename FaceTypes<V>::XFace>(); case 2: return dirs<typename FaceTypes<V>::YFace>(); default: return dirs<typename FaceTypes<V>::ZFace>(); } }
extern "C" void vp_main(){ switch(vp_choose("vol",0,3)){ case 0: return faces<SVolField>(); case 1: return faces<XVolField>(); case 2: return faces<YVolField>(); default: return faces<ZVolField>(); } }
