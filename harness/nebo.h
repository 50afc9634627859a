#pragma once
#include "field.h"
#include <spatialops/Nebo.h>
// layout whose focus direction d has the chosen ghosts and boundary flag; the other directions are fixed and asymmetric
static inline Spec focus(int d,int nd,int m,int p,int b,int k,const IntVec& nn,int pad){
  Spec s; for(int i=0;i<3;++i){ s.n[i]=nn[i]; s.m[i]=(i+k)%2; s.p[i]=(i+k+1)%2; s.b[i]=0; s.lo[i]=pad&&nn[i]>1?(i+k)%2:0; s.hi[i]=pad&&nn[i]>1?(i+k+1)%2:0; }
  s.n[d]=nd; s.m[d]=m; s.p[d]=p; s.b[d]=b; if(nd==1) s.lo[d]=s.hi[d]=0; return s; }
// as focus, with the focus direction's ghosts 0..G and (for more than one point) boundary flag chosen
static inline Spec fspec(const char* nm,int d,int nd,int G,int k,const IntVec& nn,int pad){
  const int m=vp_choose(nm,0,G),p=vp_choose(nm,0,G); int b=0; if(nd>1) b=vp_choose(nm,0,1); return focus(d,nd,m,p,b,k,nn,pad); }
static inline IntVec min3(const IntVec&a,const IntVec&b){ IntVec r; for(int i=0;i<3;++i) r[i]=a[i]<b[i]?a[i]:b[i]; return r; }
static inline IntVec max3(const IntVec&a,const IntVec&b){ IntVec r; for(int i=0;i<3;++i) r[i]=a[i]>b[i]?a[i]:b[i]; return r; }
// larger windows: fixed sizes, every direction with its own ghosts, padding and boundary flag
static inline IntVec bigsize(int w=-1){ const IntVec t[]={IntVec(9,1,1),IntVec(1,17,1),IntVec(2,1,33),IntVec(5,4,3),IntVec(3,9,2),IntVec(2,3,7),IntVec(70,2,1),IntVec(4,4,5)}; if(vp_cfg("few",0)){ const int q[3]={3,6,2}; int k=w; if(w<0) k=vp_choose("size",0,2); return t[q[k]]; } const int k=vp_choose("size",0,7); return t[k]; }
// distinct values with one symbolic value at a chosen place (first, last or middle point of the window)
template<class F> static void onevalue(Fld<F>& f,const char* nm){ for(long i=0;i<f.N;++i) f.d[i]=(double)((i*37+11)%101)-50+i*0.015625; const int q=vp_choose("where",0,2); IntVec x=f.lo(); if(q==1) x=f.hi()-IntVec(1,1,1); if(q==2) for(int k=0;k<3;++k) x[k]=(f.lo()[k]+f.hi()[k])/2; const double v=vp_double(nm); vp_assume(v>=-1000&&v<=1000); f.now(x)=v; f.sync(); }
static inline Spec bigspec(const IntVec& n,int v,int k,int flags){ const bool wide=v>2; Spec s; for(int i=0;i<3;++i){ s.n[i]=n[i]; s.m[i]=n[i]>1?(wide? 3+(i+k)%3:(v+i+2*k)%3):0; s.p[i]=n[i]>1?(wide? 3+(i+2*k+1)%2:(v+2*i+k+1)%3):0; s.b[i]=n[i]>1?(flags>>i)&1:0; s.lo[i]=n[i]>1?(i+k)%2:0; s.hi[i]=n[i]>1?(i+k+1+v)%2:0; } return s; }
