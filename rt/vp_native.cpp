// Concrete replay runtime: reads the recorded inputs in order and checks the same assertions on the really compiled code.
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <fstream>
#include <vector>
#include <map>
#include <unistd.h>
#include <exception>
namespace { struct In { char k; std::string n; std::string v; }; std::vector<In> ins; size_t pos=0; std::map<std::string,int> cfg; int failed=0; }
std::vector<int> vp_sched_list;
static void load(const char* fn){ std::ifstream f(fn); if(!f){ fprintf(stderr,"cannot open %s\n",fn); _exit(90);} std::string l; while(std::getline(f,l)){
  if(l[0]=='#'){ char k[256]; int v; if(sscanf(l.c_str(),"# cfg %255s %d",k,&v)==2) cfg[k]=v; continue; }
  char k; char n[512],v[256]; if(sscanf(l.c_str(),"%c %511s %255s",&k,n,v)!=3) continue; if(k=='s'){ vp_sched_list.push_back(atoi(v)); continue; } ins.push_back({k,n,v}); } }
static const char* next(const char* name){ if(pos>=ins.size()||ins[pos].n!=name){ fprintf(stderr,"REPLAY-DIVERGED at %s (have %s)\n",name,pos<ins.size()?ins[pos].n.c_str():"end"); fflush(stderr); _exit(failed?1:91); } return ins[pos++].v.c_str(); }
static void bad(const char* id,const std::string& w){ fprintf(stderr,"ASSERTION-FAILED id=%s %s\n",id,w.c_str()); if(++failed>20){ fflush(stderr); _exit(1);} }
#ifdef VP_SCHED
static size_t __sanitizer_get_allocated_size(const void*){ return ~size_t(0)>>1; } static long g_live=0;
#else
static long g_live=0; extern "C" int __sanitizer_install_malloc_and_free_hooks(void(*)(const volatile void*,size_t),void(*)(const volatile void*)); extern "C" size_t __sanitizer_get_allocated_size(const volatile void*);
static void hk1(const volatile void* p,size_t){ if(p) ++g_live; } static void hk2(const volatile void* p){ if(p) --g_live; }
static int hooked=__sanitizer_install_malloc_and_free_hooks(hk1,hk2);
#endif
#ifdef VP_SCHED
void vp_sched_watch(const void*,long);
int vp_cfg_(const char* k,int d){ auto i=cfg.find(k); return i==cfg.end()?d:i->second; }
#endif
extern "C" {
int vp_int(const char* n,int lo,int hi){ long v=atol(next(n)); if(v<lo||v>hi){ fprintf(stderr,"REPLAY-DIVERGED range %s\n",n); _exit(91);} return (int)v; }
int vp_choose(const char* n,int lo,int hi){ return vp_int(n,lo,hi); }
double vp_double(const char* n){ return strtod(next(n),0); }
double vp_advance(double x,int k){ for(;k>0;--k) x=nextafter(x,INFINITY); for(;k<0;++k) x=nextafter(x,-INFINITY); return x; }
void vp_assume(int c){ if(!c){ fprintf(stderr,"REPLAY-ASSUME-FAILED\n"); fflush(stderr); _exit(failed?1:92);} }
void vp_true_(int c,const char* id){ if(!c) bad(id,"is false"); }
void vp_eq_(int64_t a,int64_t b,const char* id){ if(a!=b) bad(id,std::to_string(a)+" != "+std::to_string(b)); }
void vp_same_(double a,double b,const char* id){ if(a==b||(a!=a&&b!=b)) return; double s=fmax(1.0,fmax(fabs(a),fabs(b))); if(fabs(a-b)<=1e-9*s) return; char t[128]; snprintf(t,128,"%.17g != %.17g",a,b); bad(id,t); }
void vp_reach(const char*){}
int vp_symbolic(){ return 0; }
#ifdef VP_SCHED
void vp_watch(const void* p,long n){ vp_sched_watch(p,n); }
#else
void vp_watch(const void*,long){}
void vp_settle(){}
int vp_threads(){ return 1; }
#endif
int vp_cfg(const char* k,int d){ auto i=cfg.find(k); return i==cfg.end()?d:i->second; }
void vp_stop(){ fflush(stderr); _exit(failed?1:0); }
void vp_fail(const char* id){ bad(id,"reached"); fflush(stderr); _exit(1); }
void vp_room(const void* p,long n,const char* id){ size_t u=__sanitizer_get_allocated_size(p); if(u<(size_t)n) bad(id,"block too small"); }
long vp_live_allocs(){ return g_live; }
void vp_preempt(int){}
}
#ifdef VP_SCHED
void vp_sched_init();
#endif
int main(int c,char** v){ if(c<2) return 90; load(v[1]);
#ifdef VP_SCHED
  vp_sched_init();
#endif
  try { vp_main(); } catch(std::exception& e){ fprintf(stderr,"ASSERTION-FAILED id=uncaught %s\n",e.what()); fflush(stderr); _exit(1); } catch(...){ fprintf(stderr,"ASSERTION-FAILED id=uncaught\n"); fflush(stderr); _exit(1); }
  fflush(stdout); fflush(stderr); if(failed) _exit(1); printf("REPLAY-OK\n"); fflush(stdout);
#ifdef VP_LEAK
  return 0;
#else
  _exit(0);
#endif
}
