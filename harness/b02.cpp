#include "nebo.h"
// mask iterators against field iterators of the same window
template<class F> static void go(const Spec& s){
  Fld<F> f(s,false); for(long i=0;i<f.N;++i) f.d[i]=(double)i; 
  std::vector<IntVec> pts; 
#ifdef U_JUMP
  const int NP=1;
#else
  const int NP=2;
#endif
  if(vp_cfg("wide",0)){ const int w=vp_choose("set",0,3); const long at[4]={0,31,f.ext[0]-1,(long)f.ext[0]*f.ext[1]*f.ext[2]-1}; const long k=at[w]; pts.push_back(IntVec(f.lo()[0]+k%f.ext[0],f.lo()[1]+k/f.ext[0]%f.ext[1],f.lo()[2]+k/f.ext[0]/f.ext[1])); }
  else for(int i=0;i<NP;++i){ IntVec q; for(int k=0;k<3;++k) q[k]=vp_int("pt",f.lo()[k],f.hi()[k]-1); pts.push_back(q); }
  const SpatialMask<F> mask(*f.f,pts); typedef typename SpatialMask<F>::const_iterator It;
  const int which=vp_choose("which",0,1); const IntVec lo=which?f.ilo():f.lo(),hi=which?f.ihi():f.hi(); const IntVec e=hi-lo; const int N=e[0]*e[1]*e[2];
  const It b=which?mask.interior_begin():mask.begin(),end=which?mask.interior_end():mask.end();
  struct H{ const std::vector<IntVec>& p; IntVec lo,e; IntVec pt(int k) const{ return IntVec(lo[0]+k%e[0],lo[1]+k/e[0]%e[1],lo[2]+k/e[0]/e[1]); }
    bool operator()(int k) const{ IntVec x=pt(k); bool in=false; for(size_t i=0;i<p.size();++i) in=in|((p[i][0]==x[0])&(p[i][1]==x[1])&(p[i][2]==x[2])); return in; } } bit={pts,lo,e};
#if defined(U_WALK)
  typename F::const_iterator fi= which? typename F::const_iterator() : ((const F&)*f.f).begin(); typename F::const_interior_iterator ii=((const F&)*f.f).interior_begin();
  It i=b; for(int k=0;k<N;++k){ vp_true(i<end&&i!=end&&end>i&&i<=end&&b<=i,"order"); vp_eq(i-b,k,"distance"); vp_eq(*i,bit(k),"forward");
    vp_same(which? *ii:*fi,(double)f.at(bit.pt(k)),"in_step_with_field"); if(which) ++ii; else ++fi; if(k%2) ++i; else { It o=i++; vp_eq(o-b,k,"post_increment"); } }
  vp_true(i==end&&i>=end&&!(i<end),"end"); vp_eq(end-b,N,"length");
  for(int k=N-1;k>=0;--k){ if(k%2) --i; else { It o=i--; vp_eq(o-b,k+1,"post_decrement"); } vp_eq(*i,bit(k),"backward"); vp_eq(i-b,k,"distance"); }
  vp_true(i==b,"back_at_begin");
#else
  int from,form=-1; if(vp_cfg("all",0)) from=vp_choose("from",0,N); else { const int w[6]={0,e[0]-1,e[0],e[0]*e[1]+1,N-1,N}; const int j=vp_choose("from",0,5); if(vp_cfg("wide",0)) form=(j+which)%4; from=w[j]>N?N:w[j]; }
  const int to=vp_int("to",0,N-1); if(form<0) form=vp_choose("form",0,3); It i=b; for(int k=0;k<from;++k) ++i;
  const int c=to-from; const IntVec u=pts[0]-lo; const bool in=(u[0]>=0)&(u[0]<e[0])&(u[1]>=0)&(u[1]<e[1])&(u[2]>=0)&(u[2]<e[2]); const int fl=u[0]+e[0]*(u[1]+e[1]*u[2]); const bool expect=in&(fl==to);
  if(form==0){ i+=c; vp_eq(*i,expect,"jump"); vp_eq(i-b,to,"jump_distance"); ++i; vp_eq(i-b,to+1,"jump_distance"); }
  else if(form==1){ i-=-c; vp_eq(*i,expect,"jump"); if(to>0){ --i; vp_eq(*i,in&(fl==to-1),"step_after_jump"); } }
  else if(form==2){ const It j=i+c; vp_eq(*j,expect,"jump"); vp_eq(i-b,from,"source_iterator_kept"); const It l=j-c; vp_true(l==i,"round_trip"); if(from<N) vp_eq(*l,bit(from),"round_trip"); }
  else { vp_eq(i[c],expect,"offset"); vp_eq(i-b,from,"source_iterator_kept"); }
#endif
  vp_reach("end"); }
extern "C" void vp_main(){
  const int b=vp_cfg("big",0);
  if(vp_cfg("wide",0)) return go<XSurfYField>(spec(IntVec(31,3,2),IntVec(1,1,0),IntVec(1,0,1),IntVec(0,1,0),IntVec(1,0,0)));   // hundreds of points
  switch(vp_choose("shape",0,3)){
    case 0: return go<SVolField>(spec(IntVec(4+b,3,1),IntVec(1,0,0),IntVec(1,1,0),IntVec(0,0,0),IntVec(2,1,0),IntVec(1,1,0)));
    case 1: return go<SSurfXField>(spec(IntVec(2,2,2+b),IntVec(1,0,0),IntVec(0,1,1),IntVec(1,0,1),IntVec(0,1,0),IntVec(1,0,1)));
    case 2: return go<YVolField>(spec(IntVec(1,3+b,2),IntVec(0,0,2),IntVec(0,1,0),IntVec(0,1,0),IntVec(0,1,1)));
    default: return go<ZSurfZField>(spec(IntVec(3,1,3+b),IntVec(0,0,1),IntVec(1,0,0),IntVec(0,0,1),IntVec(0,0,0),IntVec(2,0,1))); } }
