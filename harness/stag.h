#pragma once
#include "nebo.h"
#include <spatialops/structured/stencil/FVStaggeredOperatorTypes.h>
// Physical staggering, stated here independently of the library: point i of a field sits at i + shift/2 in each direction.
template<class F> struct Stag;
#define STAG(F,x,y,z) template<> struct Stag<F>{ static IntVec v(){ return IntVec(x,y,z); } };
STAG(SVolField,0,0,0) STAG(SSurfXField,-1,0,0) STAG(SSurfYField,0,-1,0) STAG(SSurfZField,0,0,-1)
STAG(XVolField,-1,0,0) STAG(XSurfXField,0,0,0) STAG(XSurfYField,-1,-1,0) STAG(XSurfZField,-1,0,-1)
STAG(YVolField,0,-1,0) STAG(YSurfXField,-1,-1,0) STAG(YSurfYField,0,0,0) STAG(YSurfZField,0,-1,-1)
STAG(ZVolField,0,0,-1) STAG(ZSurfXField,-1,0,-1) STAG(ZSurfYField,0,-1,-1) STAG(ZSurfZField,0,0,0)
// A linear operator as destination-relative source points with coefficients
struct Sten{ int n; IntVec p[27]; double c[27]; };
static inline void add_pt(Sten& s,const IntVec& p,double c){ s.p[s.n]=p; s.c[s.n]=c; ++s.n; }
// neighbouring source index on the low (side 0) or high (side 1) side in a direction where the two staggerings differ (0 where they agree)
template<class S,class D> static int nbr(int d,int side){ const int a=Stag<S>::v()[d],b=Stag<D>::v()[d]; if(a==b) return 0; return a>b? (side? 0:-1) : (side? 1:0); }
template<class S,class D> static int ndiff(){ int k=0; for(int d=0;d<3;++d) if(Stag<S>::v()[d]!=Stag<D>::v()[d]) ++k; return k; }
template<class S,class D> static int diffdir(int which){ for(int d=0;d<3;++d) if(Stag<S>::v()[d]!=Stag<D>::v()[d]){ if(!which) return d; --which; } return -1; }
// points p where every source point needed lies in the source's window, within the destination's window
template<class S,class D> static bool sten_region(const Fld<S>& s,const Fld<D>& r,const Sten& st,IntVec& lo,IntVec& hi){
  lo=r.lo(); hi=r.hi();
  for(int k=0;k<st.n;++k){ lo=max3(lo,s.lo()-st.p[k]); hi=min3(hi,s.hi()-st.p[k]); }
  for(int d=0;d<3;++d) if(lo[d]>=hi[d]) return false;
  return true; }
template<class S> static double sten_at(const Fld<S>& s,const Sten& st,const IntVec& x){ double v=0; for(int k=0;k<st.n;++k) v+= st.c[k]*s.was(x+st.p[k]); return v; }
// the source has the ghosts the operator consumes (fewer is an error the library asserts on)
template<class S> static bool enough(const Fld<S>& s,const Sten& st){
  for(int k=0;k<st.n;++k) for(int d=0;d<3;++d) if(s.gm[d]+st.p[k][d]<0||s.gp[d]+s.ex[d]-st.p[k][d]<0) return false;
  return true; }
// does the right-hand side cover the extra boundary point of the result in every direction that has one
template<class S,class D> static bool covers(const Fld<S>& s,const Fld<D>& r,const Sten& st){
  for(int d=0;d<3;++d) if(r.ex[d]) for(int k=0;k<st.n;++k) if(r.ihi()[d]-1+st.p[k][d]>=s.hi()[d]) return false;
  return true; }
// layouts for source and destination: directions the operator works along get chosen ghosts; one boundary flag shared by both
struct Pair{ Spec s,r; };
static inline Pair layouts(const int* along,int G,int N){
  Pair q; const int big_=vp_cfg("big",0); int c,nn,k,l,a,thin,cross=2;
  if(big_){ a=vp_choose("dest",0,1); c=a; nn=a?big_:big_+4; k=G; l=G-a>0?G-a:1; thin=a?1:4; cross=a?5:3; }
  else { c=vp_choose("bc",0,1); nn=vp_choose("n",2,N); k=vp_choose("low",0,G); l=vp_choose("high",0,G); a=vp_choose("dest",0,1); thin=vp_choose("thin",1,2); }
  for(int d=0;d<3;++d){
    const bool w=along[d]!=0; q.s.n[d]=q.r.n[d]= w? nn : (d==(along[0]?2:0)? thin:cross);
    const bool big=q.s.n[d]>1;
    q.s.m[d]= w? k:1; q.s.p[d]= w? l:0; q.r.m[d]= w? (a? G:0):0; q.r.p[d]= w? (a? 0:G):1;
    q.s.b[d]=q.r.b[d]= w? c:0;
    q.s.lo[d]=big?1:0; q.s.hi[d]=0; q.r.lo[d]=0; q.r.hi[d]=big?1:0;
    if(!big){ q.s.m[d]=q.s.p[d]=q.r.m[d]=q.r.p[d]=0; }
  }
  return q; }
// apply op (forms: assignment, apply_to_field, interior assignment, operator on an expression) and compare with the stencil
template<class Op> static void run_op(const Op& op,const Sten& st,const int* along){
  typedef typename Op::SrcFieldType S; typedef typename Op::DestFieldType D;
  const int G=vp_cfg("G",1),N=vp_cfg("N",2);
  Pair q=layouts(along,G,N);
  Fld<S> s(q.s); Fld<D> r(q.r); IntVec lo,hi;
  const bool some=sten_region(s,r,st,lo,hi),cov=covers(s,r,st);
  if(!some||!enough(s,st)) return;
  bool inner=true; for(int d=0;d<3;++d) if(lo[d]>0||hi[d]<r.ihi()[d]) inner=false;
  const int form=vp_choose("form",0,vp_cfg("forms",2)); 
  if(form==2&&!inner) return;
  bool threw=false;
  try{
    if(form==0) *r.f<<=op(*s.f);
    else if(form==1) op.apply_to_field(*s.f,*r.f);
    else if(form==2) interior_assign(*r.f,op(*s.f));
    else *r.f<<=op(*s.f+*s.f);
  }catch(const std::runtime_error&){ threw=true; }
  if(!cov){ vp_true(threw,"uncovered_boundary_rejected"); r.keeps("rejected_unchanged"); vp_reach("rejected"); return; }
  vp_true(!threw,"no_exception"); if(threw) return;
  if(form==2){ lo=r.ilo(); hi=r.ihi(); }
  FOR3(x,lo,hi){ const double v=sten_at(s,st,x); vp_same(r.now(x), form==3? 2*v:v,"value"); }
  r.keeps_outside(lo,hi,"outside_unchanged"); s.keeps("source_unchanged");
  vp_reach("end"); }
template<class Ty,class S,class D> struct TwoOp{ static void go(){
  typedef typename OperatorTypeBuilder<Ty,S,D>::type Op;
  vp_true((ndiff<S,D>()==1),"one_direction"); const int d=diffdir<S,D>(0); int along[3]={0,0,0}; along[d]=1;
  const double a=vp_double("coef"); const double b=vp_double("coef");
  Sten st; st.n=0; IntVec l(0,0,0),h(0,0,0); l[d]=nbr<S,D>(d,0); h[d]=nbr<S,D>(d,1); add_pt(st,l,a); add_pt(st,h,b);
  const Op op(build_two_point_coef_collection(a,b));
  vp_same(op.coefs().get_coef(0),a,"coefficients"); vp_same(op.coefs().get_coef(1),b,"coefficients");
  run_op(op,st,along); } };
template<class Ty,class S,class D> struct FourOp{ static void go(){
  typedef typename OperatorTypeBuilder<Ty,S,D>::type Op;
  vp_true((ndiff<S,D>()==2),"two_directions"); const int d=diffdir<S,D>(0),e=diffdir<S,D>(1); int along[3]={0,0,0}; along[d]=along[e]=1;
  double c[4]; for(int i=0;i<4;++i) c[i]=vp_double("coef");
  Sten st; st.n=0; for(int j=0;j<2;++j) for(int i=0;i<2;++i){ IntVec p(0,0,0); p[d]=nbr<S,D>(d,i); p[e]=nbr<S,D>(e,j); add_pt(st,p,c[2*j+i]); }
  const Op op(build_four_point_coef_collection(c[0],c[1],c[2],c[3]));
  run_op(op,st,along); } };
template<class Ty,class F> struct WideOp{ static void go(int d){
  typedef typename OperatorTypeBuilder<Ty,F,F>::type Op; int along[3]={0,0,0}; along[d]=1;
  const double a=vp_double("coef"); const double b=vp_double("coef");
  Sten st; st.n=0; IntVec l(0,0,0),h(0,0,0); l[d]=-1; h[d]=1; add_pt(st,l,a); add_pt(st,h,b);
  run_op(Op(build_two_point_coef_collection(a,b)),st,along); } };
template<class F> struct BoxOp{ static void go(){
  typedef typename OperatorTypeBuilder<Filter,F,F>::type Op; int along[3]={1,1,1};
  Sten st; st.n=0; for(int k=-1;k<2;++k) for(int j=-1;j<2;++j) for(int i=-1;i<2;++i) add_pt(st,IntVec(i,j,k),1.0/27);
  run_op(Op(),st,along); } };
template<class S,class D> struct CopyOp{ static void go(){
  typedef typename OperatorTypeBuilder<Interpolant,S,D>::type Op; int along[3]={1,0,0}; 
  vp_true(Stag<S>::v()==Stag<D>::v(),"coincident"); 
  for(int d=0;d<3;++d) if(Extra<S>::v()[d]||Extra<D>::v()[d]){ along[0]=along[1]=along[2]=0; along[d]=1; }
  Sten st; st.n=0; add_pt(st,IntVec(0,0,0),1.0); run_op(Op(),st,along); } };
