#include "exec.h"
std::map<u64,Obj*> g_objs; static u64 g_next=0x10000; static Obj* lastO=nullptr;
Obj* newObj(u64 size,Kind k,bool init,const std::string& name){
  Obj* o=new Obj; o->size=size; o->base=g_next; u64 s=size+ (size<4096?4096:size/2); g_next+=(s+255)/256*256+256; o->kind=k; o->name=name;
  o->d.assign(size,0); o->st.assign(size,init?1:0); o->dirty=!init; g_objs[o->base]=o; return o; }
Obj* findObj(u64 a){
  if(lastO && a>=lastO->base && a<lastO->base+lastO->size) return lastO;
  auto it=g_objs.upper_bound(a); if(it==g_objs.begin()) return nullptr; --it; Obj* o=it->second;
  if(a<=o->base+o->size){ lastO=o; return o; } return nullptr; }
void dropObj(Obj* o){ if(lastO==o) lastO=nullptr; g_objs.erase(o->base); delete o; }
static std::string hexs(u64 x){ char b[32]; snprintf(b,32,"0x%llx",(unsigned long long)x); return b; }
static std::string where(){ std::string s; if(!T) return s; int n=0; for(int i=(int)T->st.size()-1;i>=0&&n<6;i--,n++) s+=" < "+T->st[i].f->F->getName().str(); return s; }
void violation(const std::string& id,const std::string& what){ flushAsserts(); if(O.trace) fprintf(stderr,"VIOL %s %s %s\n",id.c_str(),what.c_str(),where().c_str()); report(id,what+where(),nullptr,false); endPath(END_VIOL,what); }
Obj* access(u64 a,u64 n,bool w,const char* what){
  Obj* o=findObj(a);
  if(!o){ violation("memory",std::string(what)+": "+(a<0x10000?"null pointer access ":"wild pointer access ")+hexs(a)); }
  if(!o->live) violation("memory",std::string(what)+": use after free/return of "+o->name+" offset "+std::to_string(a-o->base)+" freed by "+o->freedBy);
  if(a+n>o->base+o->size || a<o->base) violation("memory",std::string(what)+": out of bounds access of "+o->name+" size "+std::to_string(o->size)+" offset "+std::to_string((i64)(a-o->base))+" len "+std::to_string(n));
  if(o->symSize && !decide(Z3_mk_bvule(Z,zbv(a+n-o->base,64),o->symSize))) violation("memory",std::string(what)+": out of bounds access of "+o->name+" with symbolic size, offset "+std::to_string((i64)(a-o->base)));
  if(w && o->ro) violation("memory",std::string(what)+": write to constant "+o->name);
  if(o->watch||(g_watchAll&&(o->kind==K_NEW||o->kind==K_NEWARR||o->kind==K_MALLOC))) raceAccess(o,a-o->base,n,w);
  return o; }
static void breakCell(Obj* o,u32 start){ // split a symbolic cell into bytes
  Cell c=o->cells[start]; o->cells.erase(start);
  bool bv=Z3_get_sort_kind(Z,Z3_get_sort(Z,c.e))==Z3_BV_SORT; Z3_ast e=c.e; if(bv && Z3_get_bv_sort_size(Z,Z3_get_sort(Z,e))<c.len*8) e=Z3_mk_zero_ext(Z,c.len*8-Z3_get_bv_sort_size(Z,Z3_get_sort(Z,e)),e);
  if(Z3_get_sort_kind(Z,Z3_get_sort(Z,c.e))==Z3_BOOL_SORT){ e=Z3_mk_ite(Z,c.e,zbv(1,c.len*8),zbv(0,c.len*8)); bv=true; }
  for(u32 i=0;i<c.len;i++){ Z3_ast b= bv?Z3_mk_extract(Z,i*8+7,i*8,e):freshBV("fpbyte",8); o->cells[start+i]={b,1}; o->st[start+i]=2; } }
static void killRange(Obj* o,u64 off,u64 n){
  if(!o->dirty) return;
  for(u64 i=off;i<off+n;){ 
    if(o->st[i]<2){ i++; continue; }
    u32 s=i; while(o->st[s]==3) s--; Cell& c=o->cells[s];
    if(s>=off && s+c.len<=off+n){ u32 len=c.len; o->cells.erase(s); for(u32 k=0;k<len;k++) o->st[s+k]=0; i=s+len; }
    else { breakCell(o,s); o->cells.erase(i); o->st[i]=0; i++; } } }
void memStore(u64 addr,u64 n,const Val& v,const char* what){
  Obj* o=access(addr,n,true,what); u64 off=addr-o->base; killRange(o,off,n);
  if(!v.e){ for(u64 i=0;i<n;i++){ o->d[off+i]=i<8?(v.c>>(8*i)):0; } if(o->dirty) memset(&o->st[off],1,n); }
  else { o->dirty=true; o->cells[off]={v.e,(u32)n}; o->st[off]=2; for(u64 i=1;i<n;i++) o->st[off+i]=3; } }
Val memLoad(u64 addr,u64 n,bool isFP,const char* what){
  Obj* o=access(addr,n,false,what); u64 off=addr-o->base; bool conc=true;
  if(o->dirty) for(u64 i=0;i<n;i++) if(o->st[off+i]!=1){ conc=false; break; }
  if(conc && n<=8){ u64 x=0; memcpy(&x,&o->d[off],n); return Val(x); }
  if(!conc){
    if(o->st[off]==2){ Cell& c=o->cells[off]; if(c.len==n) return mkE(c.e); }
    bool un=true; for(u64 i=0;i<n;i++) if(o->st[off+i]!=0) un=false;
    if(un){ Z3_ast e= isFP?freshReal("uninit"):freshBV("uninit",n*8); Val v=mkE(e); o->cells[off]={e,(u32)n}; o->st[off]=2; for(u64 i=1;i<n;i++) o->st[off+i]=3; return v; } }
  // byte-wise assembly (little endian)
  Z3_ast r=nullptr; 
  for(u64 i=0;i<n;i++){ Z3_ast b; u64 p=off+i;
    if(o->st[p]==1) b=zbv(o->d[p],8);
    else if(o->st[p]==0){ b=freshBV("uninit",8); o->cells[p]={b,1}; o->st[p]=2; }
    else { u32 s=p; while(o->st[s]==3) s--; Cell& c=o->cells[s]; 
      if(Z3_get_sort_kind(Z,Z3_get_sort(Z,c.e))==Z3_REAL_SORT) endPath(END_INCOMPLETE,"partial read of a symbolic floating-point value");
      if(c.len==1) { b=asBV(mkE(c.e),8); } else { Z3_ast e=asBV(mkE(c.e),c.len*8); u32 k=p-s; b=Z3_mk_extract(Z,k*8+7,k*8,e); } }
    r=r?Z3_mk_concat(Z,b,r):b; }
  return fromBV(r,n*8); }
void storeVal(Type* ty,u64 a,const Val& v){
  if(ty->isStructTy()){ auto* sl=DL->getStructLayout(cast<StructType>(ty)); for(unsigned i=0;i<ty->getStructNumElements();i++) storeVal(ty->getStructElementType(i),a+sl->getElementOffset(i),(*v.a)[i]); return; }
  if(ty->isArrayTy()||ty->isVectorTy()){ Type* et=ty->isArrayTy()?ty->getArrayElementType():cast<VectorType>(ty)->getElementType(); u64 n=ty->isArrayTy()?ty->getArrayNumElements():cast<FixedVectorType>(ty)->getNumElements(); u64 es=DL->getTypeAllocSize(et); for(u64 i=0;i<n;i++) storeVal(et,a+i*es,(*v.a)[i]); return; }
  u64 n=DL->getTypeStoreSize(ty); memStore(a,n,v); }
Val loadVal(Type* ty,u64 a){
  if(ty->isStructTy()){ std::vector<Val> v; auto* sl=DL->getStructLayout(cast<StructType>(ty)); for(unsigned i=0;i<ty->getStructNumElements();i++) v.push_back(loadVal(ty->getStructElementType(i),a+sl->getElementOffset(i))); return mkAgg(v); }
  if(ty->isArrayTy()||ty->isVectorTy()){ std::vector<Val> v; Type* et=ty->isArrayTy()?ty->getArrayElementType():cast<VectorType>(ty)->getElementType(); u64 n=ty->isArrayTy()?ty->getArrayNumElements():cast<FixedVectorType>(ty)->getNumElements(); u64 es=DL->getTypeAllocSize(et); for(u64 i=0;i<n;i++) v.push_back(loadVal(et,a+i*es)); return mkAgg(v); }
  u64 n=DL->getTypeStoreSize(ty); Val v=memLoad(a,n,ty->isFloatingPointTy());
  if(ty->isIntegerTy()){ unsigned b=ty->getIntegerBitWidth(); if(b<n*8){ if(!v.e){ if(b<64) v.c&=((1ull<<b)-1); } else if(Z3_get_sort_kind(Z,Z3_get_sort(Z,v.e))==Z3_BV_SORT) v=fromBV(asBV(v,b),b); } }
  return v; }
void memCopy(u64 d,u64 s,u64 n){
  if(!n||d==s) return; Obj* so=access(s,n,false,"memcpy source"); Obj* dd=access(d,n,true,"memcpy destination"); u64 so_=s-so->base,do_=d-dd->base;
  std::vector<u8> b(so->d.begin()+so_,so->d.begin()+so_+n), st(so->st.begin()+so_,so->st.begin()+so_+n); std::vector<std::pair<u32,Cell>> cs;
  if(so->dirty){
    for(u64 i=0;i<n;){ if(st[i]<2){ i++; continue; } u32 p=so_+i; u32 q=p; while(so->st[q]==3) q--; Cell c=so->cells[q];
      if(q>=so_ && q+c.len<=so_+n){ cs.push_back({(u32)(q-so_),c}); i=q-so_+c.len; }
      else { breakCell(so,q); for(u64 k=i;k<n&&so_+k<q+c.len;k++) st[k]=so->st[so_+k]; } } }
  killRange(dd,do_,n); bool anyd=false;
  for(u64 i=0;i<n;i++){ dd->d[do_+i]=b[i]; dd->st[do_+i]=st[i]; if(st[i]!=1) anyd=true; }
  for(auto& c:cs) dd->cells[do_+c.first]=c.second; if(anyd) dd->dirty=true; }
void memSet(u64 d,const Val& v,u64 n){ if(!n) return; Obj* o=access(d,n,true,"memset"); u64 off=d-o->base; killRange(o,off,n);
  if(!v.e){ memset(&o->d[off],(int)v.c,n); memset(&o->st[off],1,n); } else { Z3_ast e=asBV(v,8); for(u64 i=0;i<n;i++){ o->cells[off+i]={e,1}; o->st[off+i]=2; } o->dirty=true; } }
void freeObj(u64 a,Kind k,const char* who){
  if(!a) return; Obj* o=findObj(a);
  if(!o||o->base!=a||(o->kind!=K_MALLOC&&o->kind!=K_NEW&&o->kind!=K_NEWARR)) violation("memory",std::string(who)+": bad free "+hexs(a)+(o?" in "+o->name:""));
  if(!o->live) violation("memory",std::string(who)+": double free, previously freed by "+o->freedBy);
  if(o->kind!=k) violation("memory",std::string(who)+": mismatched deallocation");
  if(g_watchAll&&o->size) raceAccess(o,0,o->size,true);
  o->live=false; o->freedBy=where().substr(0,300); o->cells.clear(); }
std::string readStr(u64 a){ std::string s; if(!a) return s; for(int i=0;i<4096;i++){ Val v=memLoad(a+i,1,false,"string read"); if(v.e) break; if(!v.c) break; s+=(char)v.c; } return s; }
