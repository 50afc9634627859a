#include "nebo.h"
typedef SpatialField<SingleValue,double> SV;
struct One{ double d,o; SV* f; One(const char* n,int g,int b){ o=d=vp_double(n); f=new SV(MemoryWindow(IntVec(1,1,1)),BoundaryCellInfo::build<SV>(b,b,b),GhostData(g),&d,ExternalStorage); } ~One(){ delete f; } };
template<class F> static void go(int d){
  const int G=vp_cfg("G",2); const int nd=vp_choose("n",1,vp_cfg("N",2)); IntVec nn(2,1,1); nn[(d+1)%3]=2;
  const Spec sr=fspec("r",d,nd,G,0,nn,1); Spec sa=fspec("a",d,nd,G,1,nn,0);
  Fld<F> r(sr),a(sa); One s("s",0,vp_cfg("sb",1)),t("t",0,0); const double c=vp_double("c");
  const bool interior=vp_choose("interior",0,1); const int kind=vp_choose("kind",0,6); const bool field= kind>=4;
  IntVec lo=r.lo(),hi=r.hi(); bool ok=true; if(field){ lo=max3(lo,a.lo()); hi=min3(hi,a.hi()); for(int k=0;k<3;++k) if(a.hi()[k]<r.ihi()[k]) ok=false; }
  if(interior){ lo=r.ilo(); hi=r.ihi(); }
  F &R=*r.f,&A=*a.f; SV &S=*s.f,&T=*t.f; bool threw=false;
#define GO(X) do{ if(interior) interior_assign(R,X); else R<<=X; }while(0)
  try{ switch(kind){ case 0: GO(S); break; case 1: GO(S*c); break; case 2: GO(S-T); break; case 3: GO(c-sin(S)); break; case 4: GO(A*S); break; case 5: GO((S-c)*A+T); break; default: GO(cond(A<S,A+S)(A)); } }
  catch(const std::runtime_error&){ threw=true; }
  if(!ok){ vp_true(threw,"uncovered_boundary_rejected"); return; }
  vp_true(!threw,"no_exception"); if(threw) return;
  FOR3(x,lo,hi){ double w; const double v=field?a.was(x):0;
    switch(kind){ case 0: w=s.o; break; case 1: w=s.o*c; break; case 2: w=s.o-t.o; break; case 3: w=c-std::sin(s.o); break; case 4: w=v*s.o; break; case 5: w=(s.o-c)*v+t.o; break; default: w=v<s.o?v+s.o:v; }
    vp_same(r.now(x),w,"broadcast"); }
  r.keeps_outside(lo,hi,"outside_unchanged"); a.keeps("operand_unchanged"); vp_same(s.d,s.o,"single_unchanged"); vp_same(t.d,t.o,"single_unchanged");
  vp_reach("end");
}
// assigning single-value fields themselves
static void single(){ One s("s",0,vp_choose("flag",0,1)),t("t",0,0); const double c=vp_double("c"); SV &S=*s.f,&T=*t.f;
  bool threw=false; try{ One bad("u",vp_choose("ghost",1,2),0); }catch(const std::runtime_error&){ threw=true; } vp_true(threw,"ghosts_rejected");
  const int k2=vp_choose("single",0,3); double w; bool in2=vp_choose("interior",0,1);
#define GS(X) do{ if(in2) interior_assign(T,X); else T<<=X; }while(0)
  switch(k2){ case 0: GS(c); w=c; break; case 1: GS(S); w=s.o; break; case 2: GS(S*c-T); w=s.o*c-t.o; break; default: GS(T*T); w=t.o*t.o; }
  vp_same(t.d,w,"single_assigned"); vp_same(s.d,s.o,"single_unchanged"); vp_reach("end");
}
extern "C" void vp_main(){ switch(vp_choose("type",0,2)){ case 2: return single(); case 0: return go<XVolField>(0); default: return go<SSurfZField>(2); } }
