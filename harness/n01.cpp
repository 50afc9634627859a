#include "nebo.h"
// region supported by result and operands, logical coordinates
struct Reg{ IntVec lo,hi; bool ok; };
// points the result has allocated
static IntVec rlo,rhi;
template<class F> static Reg region(const Fld<F>& r,const Fld<F>* a,const Fld<F>* b,bool interior){
  Reg g; g.lo=rlo; g.hi=rhi; const Fld<F>* l[2]={a,b}; IntVec ol(-99,-99,-99),oh(99,99,99);
  for(int i=0;i<2;++i) if(l[i]){ ol=max3(ol,l[i]->lo()); oh=min3(oh,l[i]->hi()); }
  g.ok=true; for(int d=0;d<3;++d) if(oh[d]<r.ihi()[d]||ol[d]>0) g.ok=false;
  if(interior){ g.lo=r.ilo(); g.hi=r.ihi(); } else { g.lo=max3(g.lo,ol); g.hi=min3(g.hi,oh); }
  return g; }
template<class F> static void go(int d){
  const int G=vp_cfg("G",1); const bool big=vp_cfg("big",0); bool interior=vp_cfg("interior",0);
  Spec sr,sa,sb;
  if(big){ const IntVec n=bigsize(); const int v=vp_choose("layout",0,3),fl=vp_choose("flags",0,1)?7:0; interior=vp_choose("interior",0,1); sr=bigspec(n,v,0,fl); sa=bigspec(n,v,1,fl); sb=bigspec(n,v,2,fl); }
  else { int nd=vp_choose("n",vp_cfg("nlo",1),vp_cfg("N",2)); IntVec nn(2,2,2); nn[(d+1)%3]=vp_cfg("thin",0)? vp_cfg("thin",0) : vp_choose("thin",1,2);
  sr=fspec("r",d,nd,G,0,nn,1); sa=fspec("a",d,nd,G,1,nn,1); sb=fspec("b",d,nd,G,0,nn,0); }
  Fld<F> r(sr),a(sa),b(sb);
  rlo=r.lo(); rhi=r.hi();
  if(vp_cfg("narrow",0)){ const int q=vp_choose("narrowed",1,3); int m2=0,p2=0; if(q&1){ m2=vp_choose("rm",0,r.gm[d]); p2=vp_choose("rp",0,r.gp[d]); r.narrow(d,m2,p2); } if(q&2){ m2=vp_choose("am",0,a.gm[d]); p2=vp_choose("ap",0,a.gp[d]); a.narrow(d,m2,p2); } }
  const double c=vp_double("c");
  F &R=*r.f,&A=*a.f,&B=*b.f; const F* back=0; Reg g; const int kind=vp_cfg("kind",0)? vp_choose("kind",0,4):0;
  bool threw=false;
  try{
    switch(kind){
      case 0: g=region<F>(r,&a,&b,interior); back= interior? &interior_assign(R,A*B+c-A) : &(R<<=A*B+c-A); break;
      case 1: g=region<F>(r,&a,0,interior); back= interior? &interior_assign(R,A) : &(R<<=A); break;
      case 2: g=region<F>(r,0,0,interior); back= interior? &interior_assign(R,c) : &(R<<=c); break;
      case 3: g=region<F>(r,&r,&a,interior); back= interior? &interior_assign(R,A-R*c) : &(R<<=A-R*c); break;
      default: g=region<F>(r,&r,0,interior); back= interior? &interior_assign(R,R) : &(R<<=R); }
  }catch(const std::runtime_error&){ threw=true; }
  if(!g.ok){ vp_true(threw,"uncovered_boundary_rejected"); r.keeps("rejected_unchanged"); vp_reach("rejected"); return; }
  vp_true(!threw,"no_exception"); if(threw) return;
  vp_true(back==&R,"returns_result");
  FOR3(x,g.lo,g.hi){
    double w; const double o=r.was(x);
    switch(kind){ case 0: w=a.was(x)*b.was(x)+c-a.was(x); break; case 1: w=a.was(x); break; case 2: w=c; break; case 3: w=a.was(x)-o*c; break; default: w=o; }
    vp_same(r.now(x),w,"value"); }
  r.keeps_outside(g.lo,g.hi,"outside_unchanged"); a.keeps("operand_unchanged"); b.keeps("operand_unchanged");
  vp_true(R.window_with_ghost().extent()==r.ext && R.get_valid_ghost_data()==GhostData(r.s.m,r.s.p),"result_window_kept");
  vp_reach("end");
}
extern "C" void vp_main(){
  switch(vp_choose("type",0,vp_cfg("types",3))){ case 0: return go<XVolField>(0); case 1: return go<SSurfYField>(1); case 2: return go<ZVolField>(2); default: return go<SVolField>(vp_cfg("sd",0)); }
}
