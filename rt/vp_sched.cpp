// Replays a recorded schedule on the really compiled (g++) code: every thread is a fiber of one OS thread, and a switch
// happens exactly where the recording has one. The code is compiled with -fsanitize=thread and a volatile-distinguishing
// parameter, but linked against the callbacks below instead of the ThreadSanitizer runtime: they give the switch points at
// volatile accesses, the race check on watched memory, and a use-after-free check. Semantics mirror engine/threads.cpp.
#include <ucontext.h>
#include <time.h>
#include <pthread.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <map>
#include <vector>
#include <new>
#include <unistd.h>
#include <sys/mman.h>
#define HID __attribute__((visibility("hidden")))
extern std::vector<int> vp_sched_list; int vp_cfg_(const char*,int);
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }
namespace {
typedef uint64_t u64; typedef uint32_t u32;
template<class T> struct MA { typedef T value_type; MA(){} template<class U> MA(const MA<U>&){} T* allocate(size_t n){ return (T*)malloc(n*sizeof(T)); } void deallocate(T* p,size_t){ free(p); } template<class U> bool operator==(const MA<U>&) const { return true; } template<class U> bool operator!=(const MA<U>&) const { return false; } };
template<class T> using Vec=std::vector<T,MA<T>>; template<class K,class V> using Map=std::map<K,V,std::less<K>,MA<std::pair<const K,V>>>;
enum St { RUN, MUTEX, COND, JOIN, DONE, SETTLE };
struct Th { int id; St stat=RUN; u64 waitAddr=0,mtx=0; u32 mdepth=0; int held=0,joinTid=-1; bool signaled=false,skipYield=false,timed=false,timedout=false; u64 deadline=0; Vec<u32> vc; ucontext_t ctx; void* (*fn)(void*)=nullptr; void* arg=nullptr; bool isBoost=false; u64 eh[2]={0,0}; };
struct Mt { int owner=-1; int depth=0; bool rec=false; Vec<u32> vc; };
Vec<Th*>* thr; Th* T; Map<u64,Mt>* mtx; size_t spos=0; int spur=0; bool on=false;
void fail(const char* id,const char* w){ fprintf(stderr,"ASSERTION-FAILED id=%s %s\n",id,w); fflush(stderr); _exit(1); }
void diverged(const char* w){ fprintf(stderr,"REPLAY-DIVERGED %s\n",w); fflush(stderr); _exit(93); }
int nextPick(){ if(spos>=vp_sched_list.size()) return -1; return vp_sched_list[spos++]; }
void join(Vec<u32>& a,const Vec<u32>& b){ if(a.size()<b.size()) a.resize(b.size(),0); for(size_t i=0;i<b.size();i++) if(b[i]>a[i]) a[i]=b[i]; }
void tick(){ if(T->vc.size()<=(size_t)T->id) T->vc.resize(T->id+1,0); T->vc[T->id]++; }
void switchTo(Th* t){ Th* me=T; if(t==me) return; void* g=__cxxabiv1::__cxa_get_globals(); memcpy(me->eh,g,12); memcpy(g,t->eh,12); T=t; swapcontext(&me->ctx,&t->ctx); }
u64 clk=0; void timeOut(Th* t){ t->stat=RUN; t->signaled=t->timedout=true; t->timed=false; if(clk<t->deadline) clk=t->deadline; }
void schedule(bool blocked){
  if(thr->size()==1&&!blocked) return;
  bool any=false; for(auto t:*thr) if(t->stat==RUN&&!(blocked&&t==T)) any=true; if(blocked&&T->stat==RUN) any=true;
  if(!any){ for(auto t:*thr) if(t->stat==COND&&t->timed){ timeOut(t); switchTo(t); return; }
    for(auto t:*thr) if(t->stat==SETTLE){ t->stat=RUN; switchTo(t); return; } fail("deadlock","all threads are blocked"); }
  if(thr->size()<2) return;
  int p=nextPick(); if(p<0){ // the recording ended (the failing point lies just ahead): stay, or take the first thread that can run
    if(!blocked) return; for(auto t:*thr) if(t->stat==RUN&&t!=T){ p=t->id; break; } if(p<0) return; }
  if((size_t)p>=thr->size()||(*thr)[p]->stat!=RUN) diverged("schedule");
  switchTo((*thr)[p]); }
bool yieldPoint(){ if(!on||thr->size()<2) return false; if(T->skipYield){ T->skipYield=false; return false; } Th* me=T; u64 before=spos; schedule(false); (void)me; (void)before; return false; }
void acquire(Mt& m){ m.owner=T->id; m.depth=1; T->held++; join(T->vc,m.vc); }
void release(u64 a){ Mt& m=(*mtx)[a]; m.vc=T->vc; tick(); m.owner=-1; m.depth=0; T->held--; for(auto t:*thr) if(t->stat==MUTEX&&t->waitAddr==a){ t->stat=RUN; t->skipYield=true; } }
void finish(){ T->stat=DONE; for(auto x:*thr) if(x->stat==JOIN&&x->joinTid==T->id) x->stat=RUN; schedule(true); diverged("finished thread resumed"); }
void entry(){ try { if(T->isBoost){ void** vt=*(void***)T->arg; ((void(*)(void*))vt[2])(T->arg); } else T->fn(T->arg); } catch(...){ fail("uncaught","exception left a thread"); } finish(); }
Th* spawn(){ Th* t=new(malloc(sizeof(Th))) Th; t->id=thr->size(); t->vc=T->vc; t->vc.resize(t->id+1,0); t->vc[t->id]=1; tick(); thr->push_back(t); getcontext(&t->ctx); size_t n=1<<20; t->ctx.uc_stack.ss_sp=mmap(0,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); t->ctx.uc_stack.ss_size=n; t->ctx.uc_link=0; makecontext(&t->ctx,entry,0); return t; }
void joinOn(int id){ Th* t=(*thr)[id]; while(t->stat!=DONE){ T->stat=JOIN; T->joinTid=id; schedule(true); } join(T->vc,t->vc); }
Map<u64,int>* btid;
// ---- memory
struct Race { int wt=-1; u32 wc=0; unsigned char wm=0; Map<int,std::pair<u32,unsigned char>> rd; }; Map<u64,Race>* races; Map<u64,u64>* watch; Map<u64,Vec<u32>>* syncs; Map<u64,std::pair<u64,bool>>* blocks; u64 hlo=~0ull,hhi=0; bool all=false,inSync=false;
void race(u64 a,u64 n,bool w){ if(!n||inSync) return; u32 my=T->vc[T->id]; auto sees=[&](int t,u32 c){ return t==T->id||((size_t)t<T->vc.size()&&T->vc[t]>=c); };
  for(u64 g=a/8;g<=(a+n-1)/8;g++){ Race& r=(*races)[g]; u64 lo=g*8<a?a-g*8:0,hi=g*8+8>a+n?a+n-g*8:8; unsigned char m=(unsigned char)(((1u<<hi)-1)&~((1u<<lo)-1));
    if(r.wt>=0&&(r.wm&m)&&!sees(r.wt,r.wc)) fail("race","unsynchronised accesses"); if(w){ for(auto& q:r.rd) if((q.second.second&m)&&!sees(q.first,q.second.first)) fail("race","unsynchronised read and write"); r.wt=T->id; r.wc=my; r.wm=m; r.rd.clear(); } else { auto& q=r.rd[T->id]; q.second=q.first==my?q.second|m:m; q.first=my; } } }
void acc(const void* p,u64 n,bool w){ if(!on) return; u64 a=(u64)p; bool heap=false;
  if(a>=hlo&&a<hhi){ auto b=blocks->upper_bound(a); if(b!=blocks->begin()){ --b; if(a<b->first+b->second.first){ heap=true; if(!b->second.second) fail("memory","access to freed memory"); else if(a+n>b->first+b->second.first) fail("memory","access past the end of a block"); } } }
  if(all){ if(heap&&thr->size()>1) race(a,n,w); return; }
  if(!watch->empty()){ auto k=watch->upper_bound(a); if(k!=watch->begin()){ --k; if(a<k->first+k->second) race(a,n,w); } } }
void sync(const volatile void* p,bool acq,bool rel){ if(!on) return; auto& v=(*syncs)[(u64)p]; if(acq) join(T->vc,v); if(rel){ join(v,T->vc); tick(); } }
void* take(size_t n){ void* p=malloc(n+16); if(!p) abort(); memset(p,190,n); if(on){ u64 a=(u64)p; (*blocks)[a]={n,true}; if(a<hlo) hlo=a; if(a+n>hhi) hhi=a+n; } return p; }
void give(void* p){ if(!p) return; if(!on){ return; } auto b=blocks->find((u64)p); if(b==blocks->end()) return; if(!b->second.second) fail("memory","block freed twice"); if(all&&thr->size()>1) race((u64)p,b->second.first,true); b->second.second=false; memset(p,221,b->second.first); }
}
void vp_sched_watch(const void* p,long n){ if(!p) all=true; else (*watch)[(u64)p]=n; }
void vp_sched_init(){ thr=new(malloc(sizeof(*thr))) Vec<Th*>; mtx=new(malloc(sizeof(*mtx))) Map<u64,Mt>; btid=new(malloc(sizeof(*btid))) Map<u64,int>; races=new(malloc(sizeof(*races))) Map<u64,Race>; watch=new(malloc(sizeof(*watch))) Map<u64,u64>; syncs=new(malloc(sizeof(*syncs))) Map<u64,Vec<u32>>; blocks=new(malloc(sizeof(*blocks))) Map<u64,std::pair<u64,bool>>;
  T=new(malloc(sizeof(Th))) Th; T->id=0; T->vc={1}; thr->push_back(T); on=true; }
void* operator new(size_t n){ return take(n); } void* operator new[](size_t n){ return take(n); }
void* operator new(size_t n,const std::nothrow_t&) noexcept { return take(n); } void* operator new[](size_t n,const std::nothrow_t&) noexcept { return take(n); }
void operator delete(void* p) noexcept { give(p); } void operator delete[](void* p) noexcept { give(p); } void operator delete(void* p,size_t) noexcept { give(p); } void operator delete[](void* p,size_t) noexcept { give(p); }
extern "C" {
int vp_threads(){ int n=0; for(auto t:*thr) if(t->stat!=DONE) n++; return n; }
void vp_settle(){ bool o=false; for(auto t:*thr) if(t!=T&&t->stat==RUN) o=true; if(!o) return; T->stat=SETTLE; schedule(true); }
HID int pthread_mutex_init(pthread_mutex_t* m,const pthread_mutexattr_t* a) noexcept { Mt k; if(a) k.rec=*(const int*)a==1; (*mtx)[(u64)m]=k; return 0; }
HID int pthread_mutex_destroy(pthread_mutex_t* m) noexcept { auto i=mtx->find((u64)m); if(i!=mtx->end()){ if(i->second.owner>=0) fail("mutex","locked mutex destroyed"); mtx->erase(i); } return 0; }
static Mt& mx(pthread_mutex_t* p){ auto it=mtx->find((u64)p); if(it!=mtx->end()) return it->second; Mt m; m.rec=p->__data.__kind==1; return (*mtx)[(u64)p]=m; }
HID int pthread_mutex_lock(pthread_mutex_t* p) noexcept { u64 a=(u64)p; if(!on) return 0; acc(p,8,false); { Mt& m=mx(p); if(m.rec&&m.owner==T->id){ m.depth++; return 0; } }
  yieldPoint(); for(;;){ Mt& m=(*mtx)[a]; if(m.owner<0){ acquire(m); return 0; } T->stat=MUTEX; T->waitAddr=a; schedule(true); if(T->stat==RUN) T->skipYield=false; } }
HID int pthread_mutex_trylock(pthread_mutex_t* p) noexcept { u64 a=(u64)p; yieldPoint(); Mt& m=mx(p); if(m.owner<0){ acquire(m); return 0; } if(m.rec&&m.owner==T->id){ m.depth++; return 0; } return 16; }
HID int pthread_mutex_unlock(pthread_mutex_t* p) noexcept { u64 a=(u64)p; if(!on) return 0; acc(p,8,false); Mt& m=(*mtx)[a]; if(m.owner!=T->id) fail("mutex","unlock of a mutex that the thread does not hold"); if(m.depth==1&&vp_cfg_("trylock",0)) yieldPoint(); if(--(*mtx)[a].depth==0) release(a); return 0; }
HID int pthread_mutexattr_init(pthread_mutexattr_t* a) noexcept { *(int*)a=0; return 0; }
HID int pthread_mutexattr_destroy(pthread_mutexattr_t*) noexcept { return 0; }
HID int pthread_mutexattr_settype(pthread_mutexattr_t* a,int k) noexcept { *(int*)a=k; return 0; }
HID int pthread_cond_init(pthread_cond_t*,const pthread_condattr_t*) noexcept { return 0; }
HID int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
HID int pthread_condattr_init(pthread_condattr_t*) noexcept { return 0; }
HID int pthread_condattr_destroy(pthread_condattr_t*) noexcept { return 0; }
HID int pthread_condattr_setclock(pthread_condattr_t*,int) noexcept { return 0; }
HID int pthread_cond_wait(pthread_cond_t* c,pthread_mutex_t* p){ u64 cv=(u64)c,a=(u64)p; Mt& k=(*mtx)[a]; if(k.owner!=T->id) fail("mutex","condition wait without holding the mutex"); T->mdepth=k.depth; release(a); T->stat=COND; T->waitAddr=cv; T->mtx=a;
  bool sp=false; if(vp_cfg_("spurious",0)&&spur<1){ T->stat=RUN; int s=nextPick(); if(s==1){ spur++; sp=true; T->signaled=true; if(thr->size()>1){ if(T->skipYield) T->skipYield=false; else { Th* me=T; int n=spos<vp_sched_list.size()?vp_sched_list[spos]:me->id; schedule(false); if(n!=me->id) me->skipYield=true; } } } else T->stat=COND; }
  if(!sp) schedule(true);
  for(;;){ Mt& m=(*mtx)[a]; if(m.owner<0){ acquire(m); m.depth=T->mdepth; T->signaled=false; return 0; } T->stat=MUTEX; T->waitAddr=a; schedule(true); } }
HID int pthread_cond_timedwait(pthread_cond_t* c,pthread_mutex_t* p,const struct timespec* ts){ u64 cv=(u64)c,a=(u64)p; Mt& k=(*mtx)[a]; if(k.owner!=T->id) fail("mutex","condition wait without holding the mutex"); T->mdepth=k.depth; release(a); T->stat=COND; T->waitAddr=cv; T->mtx=a; T->timed=true; T->timedout=false; { u64 base=ts->tv_sec>=1000000000?1700000000:1000; T->deadline= (u64)ts->tv_sec<base?0:(ts->tv_sec-base)*1000000000+ts->tv_nsec; }
  bool sp=false; { T->stat=RUN; int s=nextPick(); if(s==1){ sp=true; timeOut(T); if(thr->size()>1){ if(T->skipYield) T->skipYield=false; else { Th* me=T; int n=spos<vp_sched_list.size()?vp_sched_list[spos]:me->id; schedule(false); if(n!=me->id) me->skipYield=true; } } } else T->stat=COND; }
  if(!sp) schedule(true);
  for(;;){ Mt& m=(*mtx)[a]; if(m.owner<0){ acquire(m); m.depth=T->mdepth; T->signaled=false; const bool to=T->timedout; T->timedout=false; return to?110:0; } T->stat=MUTEX; T->waitAddr=a; schedule(true); } }
HID int pthread_cond_signal(pthread_cond_t* c) noexcept { bool any=false; for(auto t:*thr) if(t->stat==COND&&t->waitAddr==(u64)c) any=true; if(any){ int p=nextPick(); if(p<0) for(auto t:*thr) if(t->stat==COND&&t->waitAddr==(u64)c){ p=t->id; break; } Th* t=(size_t)p<thr->size()?(*thr)[p]:nullptr; if(!t||t->stat!=COND||t->waitAddr!=(u64)c) diverged("signal"); t->stat=RUN; t->signaled=true; t->timed=false; } return 0; }
HID int pthread_cond_broadcast(pthread_cond_t* c) noexcept { for(auto t:*thr) if(t->stat==COND&&t->waitAddr==(u64)c){ t->stat=RUN; t->signaled=true; t->timed=false; } return 0; }
HID pthread_t pthread_self() noexcept { return T?T->id+1:1; }
HID int pthread_equal(pthread_t a,pthread_t b) noexcept { return a==b; }
HID int pthread_create(pthread_t* o,const pthread_attr_t*,void*(*f)(void*),void* a) noexcept { Th* t=spawn(); t->fn=f; t->arg=a; *o=t->id+1; return 0; }
HID int pthread_join(pthread_t t,void**){ joinOn((int)t-1); return 0; }
HID int pthread_detach(pthread_t) noexcept { return 0; }
HID int clock_gettime(clockid_t k,struct timespec* t) noexcept { clk+=1000000; t->tv_sec=(k==0?1700000000:1000)+clk/1000000000; t->tv_nsec=clk%1000000000; return 0; }
HID int sched_yield() noexcept { yieldPoint(); return 0; }
HID bool b_start(void* self) __asm__("_ZN5boost6thread21start_thread_noexceptEv"); bool b_start(void* self){ Th* t=spawn(); t->isBoost=true; t->arg=*(void**)self; (*btid)[(u64)t->arg]=t->id; return true; }
HID bool b_join(void* self) __asm__("_ZN5boost6thread13join_noexceptEv"); bool b_join(void* self){ auto i=btid->find(*(u64*)self); if(i==btid->end()) return false; joinOn(i->second); return true; }
HID pthread_t b_handle(void*) __asm__("_ZN5boost6thread13native_handleEv"); pthread_t b_handle(void* self){ auto i=btid->find(*(u64*)self); return i==btid->end()?0:i->second+1; }
HID void b_detach(void*) __asm__("_ZN5boost6thread6detachEv"); void b_detach(void*){}
HID void b_tdb(void*) __asm__("_ZN5boost6detail16thread_data_baseD2Ev"); void b_tdb(void*){}
HID void* b_cur() __asm__("_ZN5boost6detail23get_current_thread_dataEv"); void* b_cur(){ return 0; }
HID void b_yield() __asm__("_ZN5boost11this_thread5yieldEv"); void b_yield(){ yieldPoint(); }
HID void b_ip() __asm__("_ZN5boost11this_thread18interruption_pointEv"); void b_ip(){}
HID bool b_ie() __asm__("_ZN5boost11this_thread21interruption_enabledEv"); bool b_ie(){ return false; }
HID void b_di(void*) __asm__("_ZN5boost11this_thread20disable_interruptionC1Ev"); void b_di(void*){}
HID void b_dd(void*) __asm__("_ZN5boost11this_thread20disable_interruptionD1Ev"); void b_dd(void*){}
// ---- instrumentation callbacks
void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(){} void __tsan_vptr_update(void** p,void*){ acc(p,8,true); } void __tsan_vptr_read(void** p){ acc(p,8,false); }
#define RW(n) void __tsan_read##n(void* p){ acc(p,n,false); } void __tsan_write##n(void* p){ acc(p,n,true); } void __tsan_unaligned_read##n(void* p){ acc(p,n,false); } void __tsan_unaligned_write##n(void* p){ acc(p,n,true); } \
 static void vol##n(){ if(on&&!T->held) yieldPoint(); } void __tsan_volatile_read##n(void* p){ vol##n(); inSync=true; acc(p,n,false); inSync=false; } void __tsan_volatile_write##n(void* p){ vol##n(); inSync=true; acc(p,n,true); inSync=false; } void __tsan_unaligned_volatile_read##n(void* p){ vol##n(); inSync=true; acc(p,n,false); inSync=false; } void __tsan_unaligned_volatile_write##n(void* p){ vol##n(); inSync=true; acc(p,n,true); inSync=false; }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p,unsigned long n){ if(n) acc(p,n,false); } void __tsan_write_range(void* p,unsigned long n){ if(n) acc(p,n,true); }
#define AT(b,t) t __tsan_atomic##b##_load(const t* p,int){ sync(p,true,false); return *p; } void __tsan_atomic##b##_store(t* p,t v,int){ sync(p,false,true); *p=v; } t __tsan_atomic##b##_exchange(t* p,t v,int){ sync(p,true,true); t o=*p; *p=v; return o; } t __tsan_atomic##b##_fetch_add(t* p,t v,int){ sync(p,true,true); t o=*p; *p=o+v; return o; } t __tsan_atomic##b##_fetch_sub(t* p,t v,int){ sync(p,true,true); t o=*p; *p=o-v; return o; } t __tsan_atomic##b##_fetch_and(t* p,t v,int){ sync(p,true,true); t o=*p; *p=o&v; return o; } t __tsan_atomic##b##_fetch_or(t* p,t v,int){ sync(p,true,true); t o=*p; *p=o|v; return o; } t __tsan_atomic##b##_fetch_xor(t* p,t v,int){ sync(p,true,true); t o=*p; *p=o^v; return o; } \
 int __tsan_atomic##b##_compare_exchange_strong(t* p,t* e,t v,int,int){ sync(p,true,true); if(*p==*e){ *p=v; return 1; } *e=*p; return 0; } int __tsan_atomic##b##_compare_exchange_weak(t* p,t* e,t v,int,int){ sync(p,true,true); if(*p==*e){ *p=v; return 1; } *e=*p; return 0; } t __tsan_atomic##b##_compare_exchange_val(t* p,t e,t v,int,int){ sync(p,true,true); t o=*p; if(o==e) *p=v; return o; }
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
void __tsan_atomic_thread_fence(int){} void __tsan_atomic_signal_fence(int){}
}
