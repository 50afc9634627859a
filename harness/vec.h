#pragma once
#include <spatialops/structured/IntVec.h>
#include "vp.h"
using namespace SpatialOps; using namespace SpatialOps::structured;
static inline int sel(int d,int x,int y,int z){ return d==0?x:d==1?y:z; }
static inline IntVec symvec(const char* n,int lo,int hi){ int a=vp_int(n,lo,hi),b=vp_int(n,lo,hi),c=vp_int(n,lo,hi); return IntVec(a,b,c); }
static inline IntVec chvec(const char* n,int lo,int hi){ int a=vp_choose(n,lo,hi),b=vp_choose(n,lo,hi),c=vp_choose(n,lo,hi); return IntVec(a,b,c); }
#define vp_eq3(A,B,id) do{ IntVec a_=(A),b_=(B); vp_eq(a_[0],b_[0],id); vp_eq(a_[1],b_[1],id); vp_eq(a_[2],b_[2],id); }while(0)
