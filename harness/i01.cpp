#include <spatialops/structured/IndexTriplet.h>
#include "vec.h"
typedef Numeric3Vec<double> DV;
#define vp_same3(A,X,Y,Z,id) do{ DV a_=(A); vp_same(a_[0],X,id); vp_same(a_[1],Y,id); vp_same(a_[2],Z,id); }while(0)
#define eqc(A,X,Y,Z,id) do{ IntVec a_=(A); vp_eq(a_[0],X,id); vp_eq(a_[1],Y,id); vp_eq(a_[2],Z,id); }while(0)
template<class T,class A,class B,class C> static void triplet(const char* id,A x,B y,C z){ eqc(T::int_vec(),x,y,z,id); vp_eq(T::x_value(),x,id); vp_eq(T::y_value(),y,id); vp_eq(T::z_value(),z,id); }
template<class P,class Q> static void pair(){
  const IntVec p=P::int_vec(),q=Q::int_vec();
  vp_eq3((Add<P,Q>::result::int_vec()),p+q,"ct_add"); vp_eq3((Subtract<P,Q>::result::int_vec()),p-q,"ct_sub"); vp_eq3((Multiply<P,Q>::result::int_vec()),p*q,"ct_mul");
  triplet<typename LessThan<P,Q>::result>("ct_less",p[0]<q[0],p[1]<q[1],p[2]<q[2]);
  triplet<typename GreaterThan<P,Q>::result>("ct_greater",p[0]>q[0],p[1]>q[1],p[2]>q[2]);
}
template<class P> static void one(int x,int y,int z){
  triplet<P>("ct_value",x,y,z);
  triplet<typename P::Negate>("ct_negate",-x,-y,-z);
  triplet<typename P::Abs>("ct_abs",x<0?-x:x,y<0?-y:y,z<0?-z:z);
  triplet<typename P::PositiveOrZero>("ct_positive",x>0?x:0,y>0?y:0,z>0?z:0);
  vp_eq((IndexTripletExtract<P,XDIR>::value),x,"ct_extract"); vp_eq((IndexTripletExtract<P,YDIR>::value),y,"ct_extract"); vp_eq((IndexTripletExtract<P,ZDIR>::value),z,"ct_extract");
  pair<P,IndexTriplet<0,0,0> >(); pair<P,IndexTriplet<1,-2,3> >(); pair<P,IndexTriplet<-1,2,-3> >(); pair<P,IndexTriplet<2,2,-2> >(); pair<P,P>();
}
extern "C" void vp_main(){
#ifdef U_INT
  const int M=vp_cfg("M",20000);
  const int a0=vp_int("a",-M,M),a1=vp_int("a",-M,M),a2=vp_int("a",-M,M),b0=vp_int("b",-M,M),b1=vp_int("b",-M,M),b2=vp_int("b",-M,M),s=vp_int("s",-M,M);
  const int arr[3]={a0,a1,a2}; std::vector<int> v(3); v[0]=a0; v[1]=a1; v[2]=a2;
  const IntVec a(a0,a1,a2), b(b0,b1,b2);
  eqc(a,a0,a1,a2,"ctor"); eqc(IntVec(arr),a0,a1,a2,"ctor"); eqc(IntVec(v),a0,a1,a2,"ctor"); eqc(IntVec(a),a0,a1,a2,"ctor"); eqc(IntVec(),0,0,0,"ctor");
  eqc(a+b,a0+b0,a1+b1,a2+b2,"add"); eqc(a-b,a0-b0,a1-b1,a2-b2,"sub"); eqc(a*b,a0*b0,a1*b1,a2*b2,"mul");
  eqc(a+s,a0+s,a1+s,a2+s,"add_scalar"); eqc(a*s,a0*s,a1*s,a2*s,"mul_scalar");
  { IntVec c(a); IntVec& r=(c+=b); eqc(c,a0+b0,a1+b1,a2+b2,"add_assign"); vp_true(&r==&c,"chain"); c-=b; eqc(c,a0,a1,a2,"sub_assign"); c=b; eqc(c,b0,b1,b2,"assign"); c[1]=s; eqc(c,b0,s,b2,"index_write"); }
  eqc(a,a0,a1,a2,"operands_unchanged"); eqc(b,b0,b1,b2,"operands_unchanged");
  vp_true((a==b)==(a0==b0&&a1==b1&&a2==b2),"equal"); vp_true((a!=b)==(a0!=b0||a1!=b1||a2!=b2),"not_equal");
  vp_eq(a.sum(),a0+a1+a2,"sum");
  eqc(min(a,b),a0<b0?a0:b0,a1<b1?a1:b1,a2<b2?a2:b2,"min");
  vp_reach("end");
#elif defined(U_DIV)
  const IntVec a=symvec("a",-1000,1000), b=chvec("b",1,vp_cfg("D",4)); const int s=vp_choose("s",1,4);
  eqc(a/b,a[0]/b[0],a[1]/b[1],a[2]/b[2],"div"); eqc(a/s,a[0]/s,a[1]/s,a[2]/s,"div_scalar");
  vp_reach("end");
#elif defined(U_REAL)
  double x[3],y[3]; for(int i=0;i<3;++i){ x[i]=vp_double("x"); y[i]=vp_double("y"); } const double s=vp_double("s");
  const DV a(x), b(y[0],y[1],y[2]);
  vp_same3(a,x[0],x[1],x[2],"real_ctor");
  vp_same3(a+b,x[0]+y[0],x[1]+y[1],x[2]+y[2],"real_add"); vp_same3(a-b,x[0]-y[0],x[1]-y[1],x[2]-y[2],"real_sub"); vp_same3(a*b,x[0]*y[0],x[1]*y[1],x[2]*y[2],"real_mul");
  vp_same3(a+s,x[0]+s,x[1]+s,x[2]+s,"real_add_scalar"); vp_same3(a*s,x[0]*s,x[1]*s,x[2]*s,"real_mul_scalar");
  if(y[0]!=0&&y[1]!=0&&y[2]!=0) vp_same3(a/b,x[0]/y[0],x[1]/y[1],x[2]/y[2],"real_div");
  if(s!=0) vp_same3(a/s,x[0]/s,x[1]/s,x[2]/s,"real_div_scalar");
  { DV c(a); c+=b; vp_same3(c,x[0]+y[0],x[1]+y[1],x[2]+y[2],"real_add_assign"); c=a; c-=b; vp_same3(c,x[0]-y[0],x[1]-y[1],x[2]-y[2],"real_sub_assign"); }
  vp_same(a.sum(),x[0]+x[1]+x[2],"real_sum");
  vp_true((a==b)==(x[0]==y[0]&&x[1]==y[1]&&x[2]==y[2]),"real_equal"); vp_true((a!=b)!=(a==b),"real_not_equal");
  const IntVec iv=symvec("iv",-1000,1000); const DV d(iv); vp_same3(d,(double)iv[0],(double)iv[1],(double)iv[2],"int_to_real");
  vp_reach("end");
#elif defined(U_TRIPLET)
  one<IndexTriplet<0,0,0> >(0,0,0); one<IndexTriplet<1,2,3> >(1,2,3); one<IndexTriplet<-1,2,-3> >(-1,2,-3); one<IndexTriplet<3,-1,1> >(3,-1,1); one<IndexTriplet<-2,-2,2> >(-2,-2,2); one<IndexTriplet<1,-2,4> >(1,-2,4);
  triplet<UnitTriplet<XDIR>::type>("unit",1,0,0); triplet<UnitTriplet<YDIR>::type>("unit",0,1,0); triplet<UnitTriplet<ZDIR>::type>("unit",0,0,1); triplet<UnitTriplet<NODIR>::type>("unit",0,0,0);
  vp_eq((IsSameType<GetNonzeroDir<IndexTriplet<1,0,0> >::DirT,XDIR>::result),1,"dir"); vp_eq((IsSameType<GetNonzeroDir<IndexTriplet<0,-1,0> >::DirT,YDIR>::result),1,"dir"); vp_eq((IsSameType<GetNonzeroDir<IndexTriplet<0,0,1> >::DirT,ZDIR>::result),1,"dir");
  vp_eq((IsSameType<GetNonzeroDir<IndexTriplet<-1,0,0> >::DirT,XDIR>::result),1,"dir"); vp_eq((IsSameType<GetNonzeroDir<IndexTriplet<0,1,0> >::DirT,YDIR>::result),1,"dir"); vp_eq((IsSameType<GetNonzeroDir<IndexTriplet<0,0,-1> >::DirT,ZDIR>::result),1,"dir"); vp_eq((IsSameType<GetNonzeroDir<IndexTriplet<0,0,0> >::DirT,NODIR>::result),1,"dir");
  vp_eq((Kronecker<2,2>::value),1,"kronecker"); vp_eq((Kronecker<2,3>::value),0,"kronecker");
  vp_eq((Max<-3,2>::result),2,"ct_max"); vp_eq((Min<-3,2>::result),-3,"ct_min"); vp_eq((Max<3,2>::result),3,"ct_max"); vp_eq((Min<3,2>::result),2,"ct_min");
  const int x=vp_int("x",0,1); vp_true(x>=0,"sym");
  vp_reach("end");
#endif
}
