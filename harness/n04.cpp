#include "nebo.h"
typedef XVolField F;
struct Env{ Fld<F> r,a,b,c,d; double x,y,z; bool m0; SpatialMask<F>* mk; std::vector<IntVec> pts; int sub; bool p,q;
  Env(const Spec& s):r(s),a(s),b(s),c(s),d(s),x(vp_double("x")),y(vp_double("y")),z(vp_double("z")){
    sub=vp_choose("mask",0,3); int k=0; FOR3(t,a.lo(),a.hi()){ if(k<2&&(sub>>k&1)) pts.push_back(t); ++k; } mk=new SpatialMask<F>(*a.f,pts); p=q=false; }
  ~Env(){ delete mk; }
  bool in(const IntVec& t) const{ for(size_t i=0;i<pts.size();++i) if(pts[i]==t) return true; return false; } };
#define AT(X) e.X.was(p)
// test kind i (0 bool, 1 comparison, 2 mask, 3 combination)
#define FINALS(chain,exp) do{ switch(fin){ case 0: *e.r.f<<=chain(e.z); break; case 1: *e.r.f<<=chain(*e.d.f); break; default: *e.r.f<<=chain(*e.d.f*e.z-*e.c.f); } \
  FOR3(p,e.r.lo(),e.r.hi()){ const double last= fin==0?e.z: fin==1?AT(d): AT(d)*e.z-AT(c); (void)last; vp_same(e.r.now(p),(exp),"first_true_clause"); } }while(0)
static bool B1,B2;
#define T1_0 B1
#define T1_1 *e.a.f<*e.b.f
#define T1_2 *e.mk
#define T2_0 B2
#define T2_1 *e.b.f>=e.y
#define T2_2 *e.mk
#define P1_0 B1
#define P1_1 (AT(a)<AT(b))
#define P1_2 e.in(p)
#define P2_0 B2
#define P2_1 (AT(b)>=e.y)
#define P2_2 e.in(p)
#define V1_0 e.x
#define V1_1 *e.a.f
#define V1_2 *e.a.f+e.x
#define W1_0 e.x
#define W1_1 AT(a)
#define W1_2 (AT(a)+e.x)
#define V2_0 e.y
#define V2_1 *e.c.f
#define V2_2 *e.c.f-e.y
#define W2_0 e.y
#define W2_1 AT(c)
#define W2_2 (AT(c)-e.y)
#define TWO(i,j,k,l) case ((i*3+j)*3+k)*3+l: FINALS(cond(T1_##i,V1_##j)(T2_##k,V2_##l), P1_##i? W1_##j : P2_##k? W2_##l : last); break;
#define ONE(i,j) case i*3+j: FINALS(cond(T1_##i,V1_##j), P1_##i? W1_##j : last); break;
#define L9(M,i,j) M(i,j,0,0) M(i,j,0,1) M(i,j,0,2) M(i,j,1,0) M(i,j,1,1) M(i,j,1,2) M(i,j,2,0) M(i,j,2,1) M(i,j,2,2)
extern "C" void vp_main(){
  Spec s=spec(IntVec(2,1,1),IntVec(0,0,0),IntVec(0,0,0)); if(vp_cfg("big",0)){ s.m[0]=1; s.lo[0]=1; s.n[1]=2; }
  Env e(s); B1=vp_choose("b1",0,1); B2=vp_choose("b2",0,1); int fin=vp_choose("final",0,2);
#ifdef U_ONE
  switch(vp_choose("form",0,9)){ ONE(0,0) ONE(0,1) ONE(0,2) ONE(1,0) ONE(1,1) ONE(1,2) ONE(2,0) ONE(2,1) ONE(2,2) default: FINALS(cond,last); }
#elif defined(U_TWO0)
  switch(vp_choose("form",0,26)){ L9(TWO,0,0) L9(TWO,0,1) L9(TWO,0,2) }
#elif defined(U_TWO1)
  switch(vp_choose("form",27,53)){ L9(TWO,1,0) L9(TWO,1,1) L9(TWO,1,2) }
#elif defined(U_TWO2)
  switch(vp_choose("form",54,80)){ L9(TWO,2,0) L9(TWO,2,1) L9(TWO,2,2) }
#elif defined(U_LONG)
  switch(vp_choose("form",0,3)){
    case 0: FINALS(cond(*e.a.f<*e.b.f,e.x)(*e.b.f<*e.c.f,*e.a.f)(*e.c.f<*e.d.f,*e.b.f*e.y), AT(a)<AT(b)?e.x:AT(b)<AT(c)?AT(a):AT(c)<AT(d)?AT(b)*e.y:last); break;
    case 1: FINALS(cond(B1,1.0)(B2,2.0)(*e.a.f>e.x,3.0)(*e.mk,4.0)(*e.a.f>e.y,e.x), B1?1.0:B2?2.0:AT(a)>e.x?3.0:e.in(p)?4.0:AT(a)>e.y?e.x:last); break;
    case 2: FINALS(cond(B1,1.0)(B2,e.x)(!B1,e.y), B1?1.0:B2?e.x:!B1?e.y:last); break;
    default: FINALS(cond(*e.mk,*e.a.f)(B1,*e.b.f)(*e.a.f!=*e.b.f,*e.c.f)(B2,2.0), e.in(p)?AT(a):B1?AT(b):AT(a)!=AT(b)?AT(c):B2?2.0:last); }
#else
#define LG(n,E_,P_) case n: FINALS(cond(E_,e.x), (P_)?e.x:last); break;
  const F &A=*e.a.f,&Bf=*e.b.f; const SpatialMask<F>& M=*e.mk; const double x=e.x; SpatialMask<F> M2(*e.a.f,std::vector<IntVec>(1,e.a.lo()));
#define CA (AT(a)<AT(b))
#define CB (AT(b)>x)
#define IM e.in(p)
#define I2 (p==e.a.lo())
  switch(vp_choose("form",0,25)){
    LG(0,B1&&(A<Bf),B1&&CA) LG(1,B1&&M,B1&&IM) LG(2,(A<Bf)&&B1,CA&&B1) LG(3,(A<Bf)&&(Bf>x),CA&&CB) LG(4,(A<Bf)&&M,CA&&IM) LG(5,M&&B1,IM&&B1) LG(6,M&&(Bf>x),IM&&CB) LG(7,M&&M2,IM&&I2)
    LG(8,B1||(A<Bf),B1||CA) LG(9,B1||M,B1||IM) LG(10,(A<Bf)||B1,CA||B1) LG(11,(A<Bf)||(Bf>x),CA||CB) LG(12,(A<Bf)||M,CA||IM) LG(13,M||B1,IM||B1) LG(14,M||(Bf>x),IM||CB) LG(15,M||M2,IM||I2)
    LG(16,!(A<Bf),!CA) LG(17,!M,!IM) LG(18,!M&&!(A<Bf)||M2,(!IM&&!CA)||I2) LG(19,!(M||(A<Bf)&&M2),!(IM||(CA&&I2))) LG(20,(A<Bf||Bf>x)&&!M2,(CA||CB)&&!I2)
    LG(21,A<Bf,CA) LG(22,A+x<=Bf*x,AT(a)+x<=AT(b)*x) LG(23,x>A,x>AT(a)) LG(24,(A==Bf)||(A!=x),AT(a)==AT(b)||AT(a)!=x) default: FINALS(cond(A>=Bf,A)(A<Bf,Bf),AT(a)>=AT(b)?AT(a):AT(b)); }
#endif
  e.a.keeps("operand_unchanged"); e.b.keeps("operand_unchanged"); e.c.keeps("operand_unchanged"); e.d.keeps("operand_unchanged");
  vp_reach("end"); }
