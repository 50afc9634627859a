#include "vp.h"
#include <spatialops/structured/onedim/LagrangePoly.h>
typedef std::vector<double> DV;
extern "C" void vp_main(){
  const int P=vp_cfg("P",4),O=vp_cfg("O",3); const bool big=vp_cfg("big",0); const int n= big?P:vp_choose("points",2,P); const int order=vp_choose("order",big?O:1,n-1<O?n-1:O);
  DV x(n),y(n); if(big) for(int i=0;i<n;++i) x[i]= -5+0.75*i+0.03125*i*i; else for(int i=0;i<n;++i){ x[i]=vp_double("x"); vp_assume(x[i]>=-1024&&x[i]<=1024); if(i) vp_assume(x[i]>=x[i-1]+0.00000095367431640625); }
  const int at=vp_choose("at",-1,n-1); // evaluate at a data point, or anywhere (outside the data too)
  double z; if(at>=0) z=x[at]; else { z=vp_double("z"); vp_assume(z>=-2048&&z<=2048); }
  DV c; std::vector<int> ix; const LagrangeCoefficients lc=vp_choose("ptr",0,1)? LagrangeCoefficients(&x[0],&x[0]+n):LagrangeCoefficients(x); vp_eq(lc.get_x().size(),n,"points_kept");
#ifdef U_INTERP
  if((n<=3||big)&&vp_choose("used",0,1)){ c.assign(6,7.5); ix.assign(6,1); } // containers left over from another use
  lc.get_interp_coefs_indices(z,order,c,ix);
#else
  if((n<=3||big)&&vp_choose("used",0,1)){ c.assign(6,7.5); ix.assign(6,1); }
  lc.get_derivative_coefs_indices(z,order,c,ix);
#endif
  vp_eq(c.size(),order+1,"coefficient_count"); vp_eq(ix.size(),order+1,"index_count"); if((int)c.size()!=order+1||(int)ix.size()!=order+1) return;
  for(int k=0;k<=order;++k){ vp_eq(ix[k],ix[0]+k,"consecutive"); vp_true(ix[k]>=0&&ix[k]<n,"inside_data"); if(ix[k]<0||ix[k]>=n) return; }
  const int b=ix[0],e=ix[order]; if(at<0){ if(z>=x[0]&&z<=x[n-1]) vp_true(x[b]<=z&&z<=x[e],"brackets"); } else vp_true(b<=at&&at<=e,"brackets");
  for(int k=b;k<=e;++k){ double den=1,num; for(int i=b;i<=e;++i) if(i!=k) den*=x[k]-x[i];
#ifdef U_INTERP
    num=1; for(int i=b;i<=e;++i) if(i!=k) num*=z-x[i];
#else
    num=0; for(int j=b;j<=e;++j){ if(j==k) continue; double t=1; for(int i=b;i<=e;++i) if(i!=k&&i!=j) t*=z-x[i]; num+=t; }
#endif
    vp_same(c[k-b]*den,num,"lagrange_coefficient"); }
  // exactness, stated directly: sums of coefficients times powers
  if(order<=vp_cfg("X",2)) for(int p=0;p<=order;++p){ double s=0; for(int k=0;k<=order;++k){ double t=c[k]; for(int q=0;q<p;++q) t*=x[ix[k]]; s+=t; } double w=1;
#ifdef U_INTERP
    for(int q=0;q<p;++q) w*=z;
#else
    w=p; for(int q=1;q<p;++q) w*=z;
#endif
    vp_same(s,w,p==0?"constants_exact":"polynomials_exact"); }
  for(int i=0;i<n;++i) y[i]=vp_double("y"); double s=0; for(int k=0;k<=order;++k) s+=c[k]*y[ix[k]];
#ifdef U_INTERP
  const LagrangeInterpolant f(x,y,order);
#else
  const LagrangeDerivative f(x,y,order);
#endif
  vp_same(f.value(z),s,"value_is_weighted_sum"); if(n<=3||big){ (void)f.value(x[n-1],1); (void)f.value(x[0]); } vp_same(f.value(z),s,"value_is_weighted_sum"); vp_same(f.value(z,order),s,"value_is_weighted_sum"); { DV c2(8,1.5); std::vector<int> i2(7,2); f.get_coefs_indices(z,order,c2,i2); vp_true(i2==ix&&c2.size()==c.size(),"same_indices"); for(int k=0;k<=order;++k) vp_same(c2[k],c[k],"same_coefficients"); }
#ifdef U_INTERP
  if(at>=0) vp_same(f.value(z),y[at],"data_point_value");
#endif
  vp_reach("end"); }
