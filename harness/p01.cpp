#include "field.h"
#include <spatialops/particles/ParticleFieldTypes.h>
#include <spatialops/particles/ParticleOperators.h>
using namespace SpatialOps::Particle; typedef SVolField C;
static Spec line(int n,int m,int p){ return spec(IntVec(n,1,1),IntVec(m,0,0),IntVec(p,0,0)); }
extern "C" void vp_main(){
  const int N=vp_cfg("N",3); const bool big=vp_cfg("big",0); int n,m,p; if(big){ n=vp_choose("cells",7,N); m=1; p=2; } else { n=vp_choose("cells",2,N); m=vp_choose("low",0,1); p=vp_choose("high",0,1); } const int nt=n+m+p;
  Fld<C> x(line(n,m,p),false),f(line(n,m,p));
  double x0=-2.25; if(!big){ x0=vp_double("origin"); vp_assume(x0>=-10&&x0<=10); } double dx=1; switch(big?n%4:vp_choose("spacing",0,3)){ case 0: break; case 1: dx=0.25; break; case 2: dx=3; break; default: if(vp_cfg("anydx",0)){ dx=vp_double("dx"); vp_assume(dx>=0.125&&dx<=4); } else dx=0.75; }
  for(int i=0;i<nt;++i) x.d[i]=x0+i*dx; x.sync();
  const int np=vp_choose("particles",1,vp_cfg("P",2)); Fld<ParticleField> c(line(np,0,0)),s(line(np,0,0)),q(line(np,0,0));
  const double lo=x0-dx/2,hi=lo+nt*dx; const int odd= big?0:vp_choose("odd",0,2);
  if(odd==1){ // mesh that is not uniform
    const int k=vp_choose("moved",1,nt-1); double by=vp_double("by"); vp_assume((by>=0.01||by<=-0.01)&&by>=-5&&by<=5&&by+dx>=0.01); x.d[k]+=by; if(nt==2) return; bool t=false;
    try{
#ifdef U_P2C
      ParticleToCell<C> op(*x.f);
#else
      CellToParticle<C> op(*x.f);
#endif
    } catch(std::runtime_error&){ t=true; } vp_true(t,"nonuniform_rejected"); vp_reach("rejected"); return; }
  for(int i=0;i<np;++i){ vp_assume(s.d[i]>=0.0625&&s.d[i]<=(big?nt:4)*dx); if(odd==2&&i==np-1){ const double l=c.d[i]-s.d[i]/2; if(vp_choose("side",0,1)) vp_assume(l>=hi+0.001&&l<=hi+2*dx); else vp_assume(l<=lo-0.001&&l>=lo-2*dx); }
    else vp_assume(c.d[i]-s.d[i]/2>=lo&&c.d[i]+s.d[i]/2<=hi); }
#ifdef U_P2C
  ParticleToCell<C> op(*x.f);
#else
  CellToParticle<C> op(*x.f);
#endif
  bool t=false; try{
#ifdef U_P2C
  op.apply_to_field(*c.f,*s.f,*q.f,*f.f);
#else
  op.apply_to_field(*c.f,*s.f,*f.f,*q.f);
#endif
  } catch(std::runtime_error&){ t=true; }
  if(odd==2){ vp_true(t,"outside_rejected"); vp_reach("outside"); return; } vp_true(!t,"accepted"); if(t) return;
  double tot=0,all=0; 
#ifdef U_P2C
  std::vector<double> want(nt,0.0);
#endif
  for(int j=0;j<np;++j){ const double l=c.o[j]-s.o[j]/2,r=c.o[j]+s.o[j]/2; double sum=0,w=0;
    for(int i=0;i<nt;++i){ double a=lo+i*dx,b=a+dx; if(l>a) a=l; if(r<b) b=r; if(b<=a) continue; 
#ifdef U_P2C
      want[i]+=q.o[j]*((b-a)/s.o[j]);
#else
      sum+=f.o[i]*(b-a); w+=b-a;
#endif
    }
#ifdef U_C2P
    vp_same(q.d[j]*s.o[j],sum,"overlap_average"); vp_same(w,s.o[j],"weights_cover_particle");
#endif
    all+=q.o[j]; }
#ifdef U_P2C
  for(int i=0;i<nt;++i){ vp_same(f.d[i],want[i],"overlap_deposit"); tot+=f.d[i]; } vp_same(tot,all,"conserved"); q.keeps("particles_untouched");
#else
  f.keeps("mesh_untouched");
#endif
  x.keeps("coordinates_untouched"); c.keeps("positions_untouched"); s.keeps("sizes_untouched"); vp_reach("end"); }
