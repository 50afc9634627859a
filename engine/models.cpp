#include "exec.h"
#include <cmath>
int tiSelector(u64 ti); void writeWitness(const char*);
#define A(i) (c.a[i].c)
static u64 conc(Call& c,int i,const char* w){ return concretize(c.a[i],64,w); }
static double cd(const Val& v){ double d; memcpy(&d,&v.c,8); return d; }
static Val dv(double d){ u64 x; memcpy(&x,&d,8); return Val(x); }
// ---------------------------------------------------------------- harness API
static MRes m_vp_int(Call& c){ Input in; in.name=readStr(A(0)); in.kind='i'; in.bits=32; in.conc=0; i64 lo=(i64)(int)A(1),hi=(i64)(int)A(2); if(lo==hi){ in.kind='c'; in.e=nullptr; in.conc=lo; g_inputs.push_back(in); c.ret=Val((u32)lo); return M_DONE; }
  in.e=Z3_mk_const(Z,Z3_mk_string_symbol(Z,(in.name+"#"+std::to_string(g_inputs.size())).c_str()),Z3_mk_bv_sort(Z,32)); g_inputs.push_back(in);
  if(lo>hi) endPath(END_INFEASIBLE,"empty range"); if(!(lo==INT32_MIN&&hi==INT32_MAX)){ Z3_ast a[2]={Z3_mk_bvsge(Z,in.e,zbv((u32)lo,32)),Z3_mk_bvsle(Z,in.e,zbv((u32)hi,32))}; addPC(Z3_mk_and(Z,2,a)); int r=solveWith(nullptr,nullptr); if(r==0) endPath(END_INFEASIBLE); }
  c.ret=mkE(in.e); return M_DONE; }
static MRes m_vp_choose(Call& c){ i64 lo=(i64)(int)conc(c,1,"choose lo"),hi=(i64)(int)conc(c,2,"choose hi"); std::string n=readStr(A(0)); if(hi<lo) endPath(END_INFEASIBLE); i64 k=lo+chooseFork(hi-lo+1,n.c_str(),lo,true); c.ret=Val((u32)k); return M_DONE; }
static MRes m_vp_double(Call& c){ Input in; in.name=readStr(A(0)); in.kind='d'; in.bits=64; in.conc=0; in.e=Z3_mk_const(Z,Z3_mk_string_symbol(Z,(in.name+"#"+std::to_string(g_inputs.size())).c_str()),REAL); g_inputs.push_back(in); c.ret=mkE(in.e); return M_DONE; }
static MRes m_vp_assume(Call& c){ Val v=c.a[0]; if(!v.e){ if(!v.c) endPath(END_INFEASIBLE,"assumption"); return M_DONE; } Z3_ast e=zsimp(znot(zeqBV(asBV(v,32),zbv(0,32)))); if(isFalse(e)) endPath(END_INFEASIBLE); if(isTrue(e)) return M_DONE; Z3_model m=nullptr; int r=solveWith(e,&m); if(r==0) endPath(END_INFEASIBLE,"assumption"); flushAsserts(); addPC(e); 
  extern void resetModel(Z3_model); resetModel(m); return M_DONE; }
static MRes m_vp_true(Call& c){ std::string id=readStr(A(1)); Val v=c.a[0]; if(!v.e){ S->idreach[idOf(id.c_str())]++; S->asserts_conc++; if(!(u32)v.c){ flushAsserts(); report(id,"assertion is false",nullptr,false); } return M_DONE; }
  assertCheck(id,znot(zeqBV(asBV(v,32),zbv(0,32))),"assertion can be false"); return M_DONE; }
static MRes m_vp_eq(Call& c){ std::string id=readStr(A(2)); Val a=c.a[0],b=c.a[1]; if(!a.e&&!b.e){ S->idreach[idOf(id.c_str())]++; S->asserts_conc++; if(a.c!=b.c){ flushAsserts(); report(id,"integers differ: "+std::to_string((i64)a.c)+" vs "+std::to_string((i64)b.c),nullptr,false);} return M_DONE; }
  assertCheck(id,zeqBV(asBV(a,64),asBV(b,64)),"integers can differ"); return M_DONE; }
static MRes m_vp_same(Call& c){ assertSame(readStr(A(2)),c.a[0],c.a[1]); return M_DONE; }
static MRes m_vp_reach(Call& c){ std::string id=readStr(A(0)); int i=idOf(id.c_str()); S->idkind[i]=1; S->idreach[i]++; extern std::vector<int> g_reached; g_reached.push_back(i); return M_DONE; }
static MRes m_vp_symbolic(Call& c){ c.ret=Val(1); return M_DONE; }
static MRes m_vp_watch(Call& c){ if(!A(0)){ g_watchAll=true; return M_DONE; } Obj* o=findObj(A(0)); if(o) o->watch=1; return M_DONE; }
static MRes m_vp_cfg(Call& c){ auto it=O.cfg.find(readStr(A(0))); c.ret= it==O.cfg.end()?c.a[1]:Val((u32)atoi(it->second.c_str())); return M_DONE; }
static MRes m_vp_stop(Call& c){ endPath(END_INFEASIBLE,"stopped by harness"); }
static MRes m_vp_fail(Call& c){ std::string id=readStr(A(0)); S->idreach[idOf(id.c_str())]++; flushAsserts(); report(id,"reached a forbidden state",nullptr,false); endPath(END_VIOL); }
static MRes m_vp_live(Call& c){ u64 n=0; for(auto& p:g_objs) if(p.second->live&&(p.second->kind==K_NEW||p.second->kind==K_NEWARR||p.second->kind==K_MALLOC)) n++; c.ret=Val(n); return M_DONE; }
static MRes m_vp_room(Call& c){ u64 p=conc(c,0,"vp_room"); Obj* o=findObj(p); std::string id=readStr(A(2)); if(!o||!o->live) violation("memory","not a live block"); Z3_ast n=asBV(c.a[1],64); Z3_ast sz=o->symSize?o->symSize:zbv(o->size,64);
  assertCheck(id,zsimp(Z3_mk_bvule(Z,Z3_mk_bvadd(Z,n,zbv(p-o->base,64)),sz)),"the block can be too small"); return M_DONE; }
static MRes m_vp_preempt(Call& c){ O.preempt=(int)A(0); return M_DONE; }
// ---------------------------------------------------------------- memory
static bool symNew(Call& c,Kind k,const char* nm);
static MRes m_new(Call& c){ if(symNew(c,K_NEW,"new")) return M_DONE; u64 n=conc(c,0,"new size"); if(n>(1ull<<28)) violation("memory","huge allocation "+std::to_string(n)); c.ret=Val(newObj(n,K_NEW,false,"new")->base); return M_DONE; }
// symbolic size: one object of the largest size, every access checked against the size
static bool symNew(Call& c,Kind k,const char* nm){
  if(c.a[0].e){ Z3_ast e=zsimp(asBV(c.a[0],64)); u64 x; if(!(Z3_get_ast_kind(Z,e)==Z3_NUMERAL_AST&&Z3_get_numeral_uint64(Z,e,&x))){ const u64 cap=1<<13;
    if(decide(Z3_mk_bvule(Z,e,zbv(cap,64)))){ Obj* o=newObj(cap,k,false,nm); o->symSize=e; c.ret=Val(o->base); return true; } } } return false; }
static MRes m_newa(Call& c){ if(symNew(c,K_NEWARR,"new[]")) return M_DONE;
  u64 n=conc(c,0,"new[] size"); if(n>(1ull<<28)) violation("memory","huge allocation "+std::to_string(n)); c.ret=Val(newObj(n,K_NEWARR,false,"new[]")->base); return M_DONE; }
static MRes m_malloc(Call& c){ if(symNew(c,K_MALLOC,"malloc")) return M_DONE; u64 n=conc(c,0,"malloc size"); c.ret=Val(newObj(n,K_MALLOC,false,"malloc")->base); return M_DONE; }
static MRes m_calloc(Call& c){ u64 n=conc(c,0,"calloc")*conc(c,1,"calloc"); c.ret=Val(newObj(n,K_MALLOC,true,"calloc")->base); return M_DONE; }
static MRes m_del(Call& c){ freeObj(conc(c,0,"delete"),K_NEW,"delete"); return M_DONE; }
static MRes m_dela(Call& c){ freeObj(conc(c,0,"delete[]"),K_NEWARR,"delete[]"); return M_DONE; }
static MRes m_free(Call& c){ freeObj(conc(c,0,"free"),K_MALLOC,"free"); return M_DONE; }
static MRes m_memcpy(Call& c){ memCopy(conc(c,0,"memcpy"),conc(c,1,"memcpy"),conc(c,2,"memcpy length")); c.ret=c.a[0]; return M_DONE; }
static MRes m_memset(Call& c){ memSet(conc(c,0,"memset"),c.a[1].e?c.a[1]:Val(c.a[1].c&255),conc(c,2,"memset length")); c.ret=c.a[0]; return M_DONE; }
static MRes m_nop(Call& c){ c.ret=Val(0); return M_DONE; }
// time: a fixed date, one millisecond later at each request, and past the deadline after a time-out
u64 g_clk=0; static MRes m_clock(Call& c){ g_clk+=1000000; memStore(A(1),8,Val((A(0)==0?1700000000:1000)+g_clk/1000000000)); memStore(A(1)+8,8,Val(g_clk%1000000000)); c.ret=Val(0); return M_DONE; }
static MRes m_tod(Call& c){ g_clk+=1000000; memStore(A(0),8,Val(1700000000+g_clk/1000000000)); memStore(A(0)+8,8,Val(g_clk%1000000000/1000)); c.ret=Val(0); return M_DONE; }
static MRes m_ret0(Call& c){ c.ret=c.a[0]; return M_DONE; }
static MRes m_one(Call& c){ c.ret=Val(1); return M_DONE; }
static MRes m_strlen(Call& c){ c.ret=Val(readStr(A(0)).size()); return M_DONE; }
static MRes m_strcmp(Call& c){ std::string a=readStr(A(0)),b=readStr(A(1)); c.ret=Val((u32)(a<b?-1:a==b?0:1)); return M_DONE; }
static MRes m_memcmp(Call& c){ u64 n=conc(c,2,"memcmp"); Val r(0); for(u64 i=0;i<n;i++){ Val x=memLoad(A(0)+i,1,false),y=memLoad(A(1)+i,1,false); u64 p=concretize(x,8,"memcmp"),q=concretize(y,8,"memcmp"); if(p!=q){ r=Val((u32)(p<q?-1:1)); break; } } c.ret=r; return M_DONE; }
// ---------------------------------------------------------------- process
static MRes m_abort(Call& c){ violation("abort","abort/terminate called"); }
static MRes m_assert(Call& c){ violation("assert","assertion in the code failed: "+readStr(A(0))+" at "+readStr(A(1))+":"+std::to_string((int)A(2))); }
static MRes m_exit(Call& c){ violation("exit","exit called"); }
// ---------------------------------------------------------------- c++ runtime
static MRes m_exalloc(Call& c){ Obj* o=newObj(A(0)+64,K_EXC,true,"exception"); c.ret=Val(o->base); return M_DONE; }
static MRes m_throw(Call& c){ Obj* o=findObj(A(0)); o->cookie=A(1); throwExc(A(0),A(1)); return M_UNWOUND; }
static MRes m_begincatch(Call& c){ T->caught.push_back(A(0)); c.ret=c.a[0]; return M_DONE; }
static MRes m_endcatch(Call& c){ if(!T->caught.empty()) T->caught.pop_back(); return M_DONE; }
static MRes m_rethrow(Call& c){ if(T->caught.empty()) violation("abort","rethrow without exception"); u64 o=T->caught.back(); throwExc(o,findObj(o)->cookie); return M_UNWOUND; }
static MRes m_guardacq(Call& c){ Val v=memLoad(A(0),1,false); c.ret=Val(v.c?0:1); return M_DONE; }
static MRes m_guardrel(Call& c){ memStore(A(0),1,Val(1)); return M_DONE; }
static MRes m_typeid(Call& c){ c.ret=Val((u32)tiSelector(A(0))); return M_DONE; }
static MRes m_what(Call& c){ static u64 s=0; if(!s){ Obj* o=newObj(4,K_GLOBAL,true,"what"); memcpy(o->d.data(),"exc",4); s=o->base; } c.ret=Val(s); return M_DONE; }
static MRes m_excctor(Call& c){ static GlobalVariable* g=M->getGlobalVariable("vp_exc_proto"); if(g&&findObj(A(0))&&findObj(A(0))->live) memStore(A(0),8,memLoad(g_addr[g],8,false)); c.ret=Val(0); return M_DONE; }
static MRes m_str(Call& c){ u64 p=A(0); memStore(p,8,Val(p+16)); memStore(p+8,8,Val(0)); memStore(p+16,1,Val(0)); return M_DONE; }
static MRes m_dyncast(Call& c){ u64 p=A(0); if(!p){ c.ret=Val(0); return M_DONE; } u64 vt=memLoad(p,8,false).c; i64 top=(i64)memLoad(vt-16,8,false).c; u64 ti=memLoad(vt-8,8,false).c; extern bool derivesX(u64,u64); c.ret= derivesX(ti,A(2))?Val(p+top):Val(0); return M_DONE; }
// ---------------------------------------------------------------- math
static Z3_ast uf(const char* n,int k,Z3_ast* a){ std::vector<Z3_sort> s(k,REAL); Z3_func_decl f=Z3_mk_func_decl(Z,Z3_mk_string_symbol(Z,n),k,s.data(),REAL); return Z3_mk_app(Z,f,k,a); }
static MRes math1(Call& c,const char* n,double(*f)(double)){ if(!c.a[0].e){ c.ret=dv(f(cd(c.a[0]))); return M_DONE; } Z3_ast a=zsimp(asReal(c.a[0])); c.ret=mkE(uf(n,1,&a)); return M_DONE; }
#define M1(n) static MRes m_##n(Call& c){ return math1(c,#n,n); }
extern std::vector<std::pair<Z3_ast,Z3_ast>> g_roots;
static MRes m_sqrt(Call& c){ MRes r=math1(c,"sqrt",sqrt); if(c.ret.e) g_roots.push_back({zsimp(asReal(c.a[0])),c.ret.e}); return r; }
M1(sin) M1(cos) M1(tan) M1(exp) M1(tanh) M1(log) M1(log10) M1(erf) M1(erfc) M1(sinh) M1(cosh) M1(asin) M1(acos) M1(atan) M1(exp2) M1(log2) M1(cbrt) M1(expm1) M1(log1p)
static MRes m_pow(Call& c){ if(!c.a[0].e&&!c.a[1].e){ c.ret=dv(pow(cd(c.a[0]),cd(c.a[1]))); return M_DONE; }
  if(!c.a[1].e){ double k=cd(c.a[1]); Z3_ast x=asReal(c.a[0]); if(k==1){ c.ret=c.a[0]; return M_DONE; } if(k==0){ c.ret=dv(1); return M_DONE; } if(k==2){ Z3_ast m[2]={x,x}; c.ret=mkE(Z3_mk_mul(Z,2,m)); return M_DONE; } if(k==3){ Z3_ast m[3]={x,x,x}; c.ret=mkE(Z3_mk_mul(Z,3,m)); return M_DONE; } if(k==4){ Z3_ast m[4]={x,x,x,x}; c.ret=mkE(Z3_mk_mul(Z,4,m)); return M_DONE; } if(k==-1){ c.ret=mkE(Z3_mk_div(Z,zreal(1),x)); return M_DONE; } if(k==0.5){ x=zsimp(x); c.ret=mkE(uf("sqrt",1,&x)); return M_DONE; } }
  Z3_ast a[2]={zsimp(asReal(c.a[0])),zsimp(asReal(c.a[1]))}; c.ret=mkE(uf("pow",2,a)); return M_DONE; }
static MRes m_powi(Call& c){ Call d=c; if(c.a[1].e) endPath(END_INCOMPLETE,"powi"); d.a[1]=dv((double)(int)c.a[1].c); MRes r=m_pow(d); c.ret=d.ret; return r; }
static MRes uf2(Call& c,const char* n,double(*f)(double,double)){ if(!c.a[0].e&&!c.a[1].e){ c.ret=dv(f(cd(c.a[0]),cd(c.a[1]))); return M_DONE; } Z3_ast a[2]={zsimp(asReal(c.a[0])),zsimp(asReal(c.a[1]))}; c.ret=mkE(uf(n,2,a)); return M_DONE; }
static MRes m_atan2(Call& c){ return uf2(c,"atan2",atan2); }
static double fdist(double,double){ return 0; }
static MRes m_fdist(Call& c0){ Call c=c0; c.a[0]=memLoad(A(0),8,true); c.a[1]=memLoad(A(1),8,true); struct Back{ Call&a,&b; ~Back(){ a.ret=b.ret; } } back{c0,c}; if(!c.a[0].e&&!c.a[1].e&&cd(c.a[0])==cd(c.a[1])){ c.ret=dv(0); return M_DONE; } Z3_ast a[2]={zsimp(asReal(c.a[0])),zsimp(asReal(c.a[1]))}; c.ret=mkE(uf("float_distance",2,a)); return M_DONE; }
void resetModel(Z3_model);
static MRes m_advance(Call& c){ Z3_ast a=zsimp(asReal(c.a[0])),b=freshReal("ulps"); Z3_ast k=zreal(0); Z3_ast kb=asBV(c.a[1],32); for(int i=-16;i<=16;i++) if(i) k=Z3_mk_ite(Z,Z3_mk_eq(Z,kb,zbv((u32)i,32)),zreal(i),k); k=zsimp(k);
  Z3_ast ab[2]={a,b},ba[2]={b,a}; addPC(Z3_mk_eq(Z,uf("float_distance",2,ab),k)); addPC(Z3_mk_eq(Z,uf("float_distance",2,ba),Z3_mk_unary_minus(Z,k)));
  Z3_ast d[2]={b,a}; Z3_ast gap=Z3_mk_sub(Z,2,d); Z3_ast z=zreal(0); addPC(Z3_mk_eq(Z,Z3_mk_gt(Z,k,z),Z3_mk_gt(Z,gap,z))); addPC(Z3_mk_eq(Z,Z3_mk_lt(Z,k,z),Z3_mk_lt(Z,gap,z))); addPC(Z3_mk_lt(Z,gap,zreal(1e-12))); addPC(Z3_mk_gt(Z,gap,zreal(-1e-12))); resetModel(nullptr); c.ret=mkE(b); return M_DONE; }
static MRes m_fabs(Call& c){ if(!c.a[0].e){ c.ret=dv(fabs(cd(c.a[0]))); return M_DONE; } Z3_ast x=asReal(c.a[0]); c.ret=mkE(Z3_mk_ite(Z,Z3_mk_ge(Z,x,zreal(0)),x,Z3_mk_unary_minus(Z,x))); return M_DONE; }
static i64 forkFloor(Z3_ast r){ for(int it=0;it<256;it++){ Z3_model m=nullptr; int q=solveWith(nullptr,&m); if(q==0) endPath(END_INFEASIBLE); if(q<0) endPath(END_INCOMPLETE,"floor"); Z3_ast ev; i64 k; if(!Z3_model_eval(Z,m,Z3_mk_real2int(Z,r),true,&ev)||!Z3_get_numeral_int64(Z,zsimp(ev),&k)) endPath(END_INCOMPLETE,"floor value");
    Z3_ast cc[2]={Z3_mk_ge(Z,r,zreal((double)k)),Z3_mk_lt(Z,r,zreal((double)k+1))}; if(decide(Z3_mk_and(Z,2,cc))) return k; } endPath(END_INCOMPLETE,"too many values for floor"); }
static MRes m_floor(Call& c){ if(!c.a[0].e){ c.ret=dv(floor(cd(c.a[0]))); return M_DONE; } c.ret=dv((double)forkFloor(asReal(c.a[0]))); return M_DONE; }
static MRes m_ceil(Call& c){ if(!c.a[0].e){ c.ret=dv(ceil(cd(c.a[0]))); return M_DONE; } c.ret=dv(-(double)forkFloor(Z3_mk_unary_minus(Z,asReal(c.a[0])))); return M_DONE; }
static MRes m_trunc(Call& c){ if(!c.a[0].e){ c.ret=dv(trunc(cd(c.a[0]))); return M_DONE; } Z3_ast x=asReal(c.a[0]); c.ret=mkE(Z3_mk_ite(Z,Z3_mk_ge(Z,x,zreal(0)),Z3_mk_int2real(Z,Z3_mk_real2int(Z,x)),Z3_mk_unary_minus(Z,Z3_mk_int2real(Z,Z3_mk_real2int(Z,Z3_mk_unary_minus(Z,x)))))); return M_DONE; }
static Z3_ast truncR(Z3_ast x){ return Z3_mk_ite(Z,Z3_mk_ge(Z,x,zreal(0)),Z3_mk_int2real(Z,Z3_mk_real2int(Z,x)),Z3_mk_unary_minus(Z,Z3_mk_int2real(Z,Z3_mk_real2int(Z,Z3_mk_unary_minus(Z,x))))); }
static MRes m_round(Call& c){ if(!c.a[0].e){ c.ret=dv(round(cd(c.a[0]))); return M_DONE; } Z3_ast x=asReal(c.a[0]); Z3_ast h=Z3_mk_ite(Z,Z3_mk_ge(Z,x,zreal(0)),zreal(0.5),zreal(-0.5)); Z3_ast s[2]={x,h}; c.ret=mkE(truncR(Z3_mk_add(Z,2,s))); return M_DONE; }
static MRes m_rint(Call& c){ if(!c.a[0].e){ c.ret=dv(rint(cd(c.a[0]))); return M_DONE; } return m_round(c); }
static MRes m_copysign(Call& c){ if(!c.a[0].e&&!c.a[1].e){ c.ret=dv(copysign(cd(c.a[0]),cd(c.a[1]))); return M_DONE; } Z3_ast x=asReal(c.a[0]),y=asReal(c.a[1]),z=zreal(0); Z3_ast n=Z3_mk_unary_minus(Z,x); Z3_ast ax=Z3_mk_ite(Z,Z3_mk_ge(Z,x,z),x,n); c.ret=mkE(Z3_mk_ite(Z,Z3_mk_ge(Z,y,z),ax,Z3_mk_unary_minus(Z,ax))); return M_DONE; }
static MRes m_fmod(Call& c){ if(!c.a[0].e&&!c.a[1].e){ c.ret=dv(fmod(cd(c.a[0]),cd(c.a[1]))); return M_DONE; } Z3_ast x=asReal(c.a[0]),y=asReal(c.a[1]); Z3_ast m[2]={y,truncR(Z3_mk_div(Z,x,y))}; Z3_ast s[2]={x,Z3_mk_mul(Z,2,m)}; c.ret=mkE(Z3_mk_sub(Z,2,s)); return M_DONE; }
static MRes m_ldexp(Call& c){ int k=(int)conc(c,1,"ldexp"); if(!c.a[0].e){ c.ret=dv(ldexp(cd(c.a[0]),k)); return M_DONE; } Z3_ast m[2]={asReal(c.a[0]),zreal(ldexp(1.0,k))}; c.ret=mkE(Z3_mk_mul(Z,2,m)); return M_DONE; }
static MRes m_frexp(Call& c){ if(c.a[0].e) endPath(END_INCOMPLETE,"frexp"); int k; c.ret=dv(frexp(cd(c.a[0]),&k)); memStore(A(1),4,Val((u32)k)); return M_DONE; }
static MRes m_modf(Call& c){ if(!c.a[0].e){ double ip; c.ret=dv(modf(cd(c.a[0]),&ip)); memStore(A(1),8,dv(ip)); return M_DONE; } Z3_ast x=asReal(c.a[0]),t=truncR(x); Z3_ast s[2]={x,t}; memStore(A(1),8,mkE(t)); c.ret=mkE(Z3_mk_sub(Z,2,s)); return M_DONE; }
static MRes m_fmax(Call& c){ if(!c.a[0].e&&!c.a[1].e){ c.ret=dv(fmax(cd(c.a[0]),cd(c.a[1]))); return M_DONE; } Z3_ast x=asReal(c.a[0]),y=asReal(c.a[1]); c.ret=mkE(Z3_mk_ite(Z,Z3_mk_ge(Z,x,y),x,y)); return M_DONE; }
static MRes m_fmin(Call& c){ if(!c.a[0].e&&!c.a[1].e){ c.ret=dv(fmin(cd(c.a[0]),cd(c.a[1]))); return M_DONE; } Z3_ast x=asReal(c.a[0]),y=asReal(c.a[1]); c.ret=mkE(Z3_mk_ite(Z,Z3_mk_le(Z,x,y),x,y)); return M_DONE; }
static MRes m_fma(Call& c){ if(!c.a[0].e&&!c.a[1].e&&!c.a[2].e){ c.ret=dv(cd(c.a[0])*cd(c.a[1])+cd(c.a[2])); return M_DONE; } Z3_ast m[2]={asReal(c.a[0]),asReal(c.a[1])}; Z3_ast s[2]={Z3_mk_mul(Z,2,m),asReal(c.a[2])}; c.ret=mkE(Z3_mk_add(Z,2,s)); return M_DONE; }
static MRes m_isfpclass(Call& c){ if(c.a[0].e){ u64 mask=c.a[1].c; // symbolic values are finite
   c.ret=Val((mask&0x1F8)?1:0); return M_DONE; } double d=cd(c.a[0]); u64 m=c.a[1].c; u64 k= d!=d?3: std::isinf(d)?(d>0?0x200:4): d==0?(std::signbit(d)?0x20:0x40): std::fpclassify(d)==FP_SUBNORMAL?(d<0?0x10:0x80):(d<0?8:0x100); c.ret=Val((m&k)?1:0); return M_DONE; }
// ---------------------------------------------------------------- integer intrinsics
static unsigned bitsOf(Call& c){ return c.CB->getType()->isIntegerTy()?c.CB->getType()->getIntegerBitWidth():64; }
static unsigned abits(Call& c){ return c.CB->getArgOperand(0)->getType()->getIntegerBitWidth(); }
static i64 sxv(u64 v,unsigned b){ return b>=64?(i64)v:(i64)(v<<(64-b))>>(64-b); }
static MRes minmax(Call& c,int k){ unsigned w=bitsOf(c); Val a=c.a[0],b=c.a[1]; if(!a.e&&!b.e){ bool l= k<2? sxv(a.c,w)<sxv(b.c,w) : a.c<b.c; c.ret= (k&1)? (l?b:a) : (l?a:b); return M_DONE; } Z3_ast x=asBV(a,w),y=asBV(b,w); Z3_ast l= k<2?Z3_mk_bvslt(Z,x,y):Z3_mk_bvult(Z,x,y); c.ret=fromBV((k&1)?Z3_mk_ite(Z,l,y,x):Z3_mk_ite(Z,l,x,y),w); return M_DONE; }
static MRes m_smin(Call& c){ return minmax(c,0);} static MRes m_smax(Call& c){ return minmax(c,1);} static MRes m_umin(Call& c){ return minmax(c,2);} static MRes m_umax(Call& c){ return minmax(c,3);} 
static MRes m_iabs(Call& c){ unsigned w=bitsOf(c); Val a=c.a[0]; if(!a.e){ i64 s=sxv(a.c,w); u64 r=s<0?-(u64)s:s; c.ret=Val(w<64?r&((1ull<<w)-1):r); return M_DONE; } Z3_ast x=asBV(a,w); c.ret=fromBV(Z3_mk_ite(Z,Z3_mk_bvslt(Z,x,zbv(0,w)),Z3_mk_bvneg(Z,x),x),w); return M_DONE; }
static MRes m_ctpop(Call& c){ u64 v=conc(c,0,"ctpop"); c.ret=Val(__builtin_popcountll(v)); return M_DONE; }
static MRes m_ctlz(Call& c){ unsigned w=bitsOf(c); u64 v=concretize(c.a[0],w,"ctlz"); c.ret=Val(v?__builtin_clzll(v)-(64-w):w); return M_DONE; }
static MRes m_cttz(Call& c){ unsigned w=bitsOf(c); u64 v=concretize(c.a[0],w,"cttz"); c.ret=Val(v?__builtin_ctzll(v):w); return M_DONE; }
static MRes ovf(Call& c,int k,bool sg){ unsigned w=abits(c); Val a=c.a[0],b=c.a[1]; if(!a.e&&!b.e&&w<=64){ __int128 x,y; if(sg){ x=sxv(a.c,w); y=sxv(b.c,w);} else { x=a.c; y=b.c; } __int128 r=k==0?x+y:k==1?x-y:x*y; u64 m=w>=64?~0ull:(1ull<<w)-1; u64 lo=(u64)r&m; bool o= sg? ((__int128)sxv(lo,w)!=r) : (r<0|| (unsigned __int128)r>(unsigned __int128)m); c.ret=mkAgg({Val(lo),Val(o)}); return M_DONE; }
  Z3_ast x=asBV(a,w),y=asBV(b,w); unsigned W=2*w+2; Z3_ast X=sg?Z3_mk_sign_ext(Z,W-w,x):Z3_mk_zero_ext(Z,W-w,x),Y=sg?Z3_mk_sign_ext(Z,W-w,y):Z3_mk_zero_ext(Z,W-w,y); Z3_ast R=k==0?Z3_mk_bvadd(Z,X,Y):k==1?Z3_mk_bvsub(Z,X,Y):Z3_mk_bvmul(Z,X,Y); Z3_ast lo=Z3_mk_extract(Z,w-1,0,R); Z3_ast back=sg?Z3_mk_sign_ext(Z,W-w,lo):Z3_mk_zero_ext(Z,W-w,lo); c.ret=mkAgg({fromBV(lo,w),fromBool(znot(Z3_mk_eq(Z,back,R)))}); return M_DONE; }
static MRes m_sadd(Call& c){ return ovf(c,0,true);} static MRes m_ssub(Call& c){ return ovf(c,1,true);} static MRes m_smul(Call& c){ return ovf(c,2,true);} static MRes m_uadd(Call& c){ return ovf(c,0,false);} static MRes m_usub(Call& c){ return ovf(c,1,false);} static MRes m_umul(Call& c){ return ovf(c,2,false);} 
static MRes m_usubsat(Call& c){ unsigned w=bitsOf(c); Val a=c.a[0],b=c.a[1]; if(!a.e&&!b.e){ c.ret=Val(a.c>b.c?a.c-b.c:0); return M_DONE; } Z3_ast x=asBV(a,w),y=asBV(b,w); c.ret=fromBV(Z3_mk_ite(Z,Z3_mk_bvugt(Z,x,y),Z3_mk_bvsub(Z,x,y),zbv(0,w)),w); return M_DONE; }
static MRes fsh(Call& c,bool left){ unsigned w=bitsOf(c); Val a=c.a[0],b=c.a[1],s=c.a[2]; if(a.e||b.e||s.e){ Z3_ast S2=Z3_mk_bvurem(Z,asBV(s,w),zbv(w,w)); Z3_ast cc=Z3_mk_concat(Z,asBV(a,w),asBV(b,w)); Z3_ast sh=Z3_mk_zero_ext(Z,w,S2); c.ret= left? fromBV(Z3_mk_extract(Z,2*w-1,w,Z3_mk_bvshl(Z,cc,sh)),w):fromBV(Z3_mk_extract(Z,w-1,0,Z3_mk_bvlshr(Z,cc,sh)),w); return M_DONE; } unsigned k=s.c%w; u64 m=w>=64?~0ull:(1ull<<w)-1; u64 r=left?(k?((a.c<<k)|(b.c>>(w-k))):a.c):(k?((a.c<<(w-k))|(b.c>>k)):b.c); c.ret=Val(r&m); return M_DONE; }
static MRes m_fshl(Call& c){ return fsh(c,true);} static MRes m_fshr(Call& c){ return fsh(c,false);} 
static MRes m_objsize(Call& c){ c.ret=Val(bitsOf(c)==64?~0ull:0xffffffffull); return M_DONE; }
static MRes m_scmp(Call& c){ endPath(END_INCOMPLETE,"cmp intrinsic"); }
static MRes m_trap(Call& c){ violation("trap","trap"); }

static std::map<std::string,Model> tab={
 {"vp_int",m_vp_int},{"vp_choose",m_vp_choose},{"vp_double",m_vp_double},{"vp_assume",m_vp_assume},{"vp_advance",m_advance},{"vp_true_",m_vp_true},{"vp_eq_",m_vp_eq},{"vp_same_",m_vp_same},{"vp_reach",m_vp_reach},{"vp_room",m_vp_room},{"vp_symbolic",m_vp_symbolic},{"vp_watch",m_vp_watch},{"vp_cfg",m_vp_cfg},{"vp_stop",m_vp_stop},{"vp_fail",m_vp_fail},{"vp_live_allocs",m_vp_live},{"vp_preempt",m_vp_preempt},
 {"_Znwm",m_new},{"_Znam",m_newa},{"_ZnwmRKSt9nothrow_t",m_new},{"_ZnamRKSt9nothrow_t",m_newa},{"_ZnwmSt11align_val_t",m_new},{"_ZdlPv",m_del},{"_ZdlPvm",m_del},{"_ZdlPvSt11align_val_t",m_del},{"_ZdlPvmSt11align_val_t",m_del},{"_ZdaPv",m_dela},{"_ZdaPvm",m_dela},{"_ZdlPvRKSt9nothrow_t",m_del},
 {"malloc",m_malloc},{"calloc",m_calloc},{"free",m_free},{"memcpy",m_memcpy},{"memmove",m_memcpy},{"memset",m_memset},{"memcmp",m_memcmp},{"bcmp",m_memcmp},{"strlen",m_strlen},{"strcmp",m_strcmp},
 {"printf",m_nop},{"fprintf",m_nop},{"puts",m_nop},{"putchar",m_nop},{"fputc",m_nop},{"fputs",m_nop},{"fwrite",m_nop},{"fflush",m_nop},{"perror",m_nop},
 {"abort",m_abort},{"_ZSt9terminatev",m_abort},{"__cxa_pure_virtual",m_abort},{"__assert_fail",m_assert},{"exit",m_exit},{"_exit",m_exit},{"__cxa_call_unexpected",m_abort},{"__cxa_bad_cast",m_abort},
 {"__cxa_allocate_exception",m_exalloc},{"__cxa_free_exception",m_nop},{"__cxa_throw",m_throw},{"__cxa_begin_catch",m_begincatch},{"__cxa_end_catch",m_endcatch},{"__cxa_rethrow",m_rethrow},{"__cxa_get_exception_ptr",m_ret0},{"clock_gettime",m_clock},{"gettimeofday",m_tod},{"__cxa_guard_acquire",m_guardacq},{"__cxa_guard_release",m_guardrel},{"__cxa_guard_abort",m_nop},{"__cxa_atexit",m_nop},{"__cxa_thread_atexit",m_nop},{"atexit",m_nop},{"_ZSt18uncaught_exceptionv",m_nop},{"_ZSt19uncaught_exceptionsv",m_nop},{"__dynamic_cast",m_dyncast},
 {"llvm.eh.typeid.for",m_typeid},{"llvm.eh.typeid.for.p0",m_typeid},
 {"sin",m_sin},{"cos",m_cos},{"tan",m_tan},{"exp",m_exp},{"tanh",m_tanh},{"sqrt",m_sqrt},{"log",m_log},{"log10",m_log10},{"erf",m_erf},{"erfc",m_erfc},{"sinh",m_sinh},{"cosh",m_cosh},{"asin",m_asin},{"acos",m_acos},{"atan",m_atan},{"atan2",m_atan2},{"pow",m_pow},{"exp2",m_exp2},{"log2",m_log2},{"cbrt",m_cbrt},{"expm1",m_expm1},{"log1p",m_log1p},{"fabs",m_fabs},{"floor",m_floor},{"ceil",m_ceil},{"trunc",m_trunc},{"round",m_round},{"rint",m_rint},{"nearbyint",m_rint},{"copysign",m_copysign},{"fmod",m_fmod},{"ldexp",m_ldexp},{"scalbn",m_ldexp},{"frexp",m_frexp},{"modf",m_modf},{"fma",m_fma},{"fmax",m_fmax},{"fmin",m_fmin},
};
static bool starts(StringRef n,const char* p){ return n.starts_with(p); }
Model lookupThreads(StringRef);
Model lookupModel(StringRef n){
  static std::unordered_map<std::string,Model> cache; auto ci=cache.find(n.str()); if(ci!=cache.end()) return ci->second;
  Model m=nullptr; auto it=tab.find(n.str());
  if(it!=tab.end()) m=it->second;
  else if(starts(n,"llvm.")){
    struct { const char* p; Model m; } I[]={{"llvm.memcpy",m_memcpy},{"llvm.memmove",m_memcpy},{"llvm.memset",m_memset},{"llvm.lifetime",m_nop},{"llvm.assume",m_nop},{"llvm.dbg",m_nop},{"llvm.experimental.noalias",m_nop},{"llvm.invariant",m_nop},{"llvm.stacksave",m_nop},{"llvm.stackrestore",m_nop},{"llvm.prefetch",m_nop},{"llvm.donothing",m_nop},{"llvm.expect",m_ret0},{"llvm.is.constant",m_nop},{"llvm.objectsize",m_objsize},{"llvm.trap",m_trap},{"llvm.threadlocal.address",m_ret0},{"llvm.launder",m_ret0},{"llvm.strip",m_ret0},{"llvm.ssa.copy",m_ret0},
      {"llvm.fabs",m_fabs},{"llvm.floor",m_floor},{"llvm.ceil",m_ceil},{"llvm.trunc",m_trunc},{"llvm.round",m_round},{"llvm.rint",m_rint},{"llvm.nearbyint",m_rint},{"llvm.copysign",m_copysign},{"llvm.ldexp",m_ldexp},{"llvm.sqrt",m_sqrt},{"llvm.sin",m_sin},{"llvm.cos",m_cos},{"llvm.exp2",m_exp2},{"llvm.exp",m_exp},{"llvm.log10",m_log10},{"llvm.log2",m_log2},{"llvm.log",m_log},{"llvm.powi",m_powi},{"llvm.pow",m_pow},{"llvm.maxnum",m_fmax},{"llvm.minnum",m_fmin},{"llvm.fmuladd",m_fma},{"llvm.fma",m_fma},{"llvm.is.fpclass",m_isfpclass},
      {"llvm.smin",m_smin},{"llvm.smax",m_smax},{"llvm.umin",m_umin},{"llvm.umax",m_umax},{"llvm.abs",m_iabs},{"llvm.ctpop",m_ctpop},{"llvm.ctlz",m_ctlz},{"llvm.cttz",m_cttz},{"llvm.sadd.with",m_sadd},{"llvm.ssub.with",m_ssub},{"llvm.smul.with",m_smul},{"llvm.uadd.with",m_uadd},{"llvm.usub.with",m_usub},{"llvm.umul.with",m_umul},{"llvm.usub.sat",m_usubsat},{"llvm.fshl",m_fshl},{"llvm.fshr",m_fshr}};
    for(auto& x:I) if(starts(n,x.p)){ m=x.m; break; } }
  else if(starts(n,"_ZNSaIcE")) m=m_nop;
  else if((m=lookupThreads(n))) {}
  else if(n.contains("float_distance")) m=m_fdist;
  else if(n.contains("basic_ostringstream")||n.contains("basic_stringstream")||n.contains("basic_istringstream")||n.contains("basic_stringbuf")){ m= n.contains("E3strEv")?m_str:m_nop; }
  else if(starts(n,"_ZStlsISt11char_traits")||starts(n,"_ZNSols")||starts(n,"_ZNSo")||starts(n,"_ZSt16__ostream_insert")||starts(n,"_ZSt4endl")||starts(n,"_ZSt5flush")||starts(n,"_ZStls")) m=m_ret0;
  else if(starts(n,"_ZNSt8ios_base")||starts(n,"_ZNSt6locale")||starts(n,"_ZNSt9basic_ios")||starts(n,"_ZNSt14basic_ofstream")||starts(n,"_ZNSt13basic_filebuf")) m=m_nop;
  else if(n.contains("4whatEv")) m=m_what;
  else if(starts(n,"_ZNSt13runtime_error")||starts(n,"_ZNSt11logic_error")||starts(n,"_ZNSt12out_of_range")||starts(n,"_ZNSt16invalid_argument")||starts(n,"_ZNSt12length_error")||starts(n,"_ZNSt12domain_error")||starts(n,"_ZNSt11range_error")||starts(n,"_ZNSt14overflow_error")||starts(n,"_ZNSt9exception")||starts(n,"_ZNSt9bad_alloc")||starts(n,"_ZNSt13bad_exception")||starts(n,"_ZNSt8bad_cast")||starts(n,"_ZNSt9type_info")) m= (n.contains("C1E")||n.contains("C2E"))?m_excctor:m_nop;
  cache[n.str()]=m; return m; }
bool overridden(StringRef n){
  static std::unordered_map<std::string,bool> cache; auto it=cache.find(n.str()); if(it!=cache.end()) return it->second;
  bool r= n.contains("float_distance") && n.contains("5boost4math"); 
  if(!r) r= starts(n,"pthread_")||starts(n,"_ZN5boost6thread");  // thread primitives are modelled even if a body is linked
  if(r && !lookupModel(n)) r=false;
  cache[n.str()]=r; return r; }
