// The counting semaphore: N waiters and N releasers in every interleaving.
#include "vp.h"
#include <pthread.h>
#include <spatialops/Semaphore.h>
using SpatialOps::Semaphore;
static Semaphore* sem; static int initial; static int posted=0, passed=0, arrived=0;
// posted counts releases that began (their effect may already be visible); passed counts completed waits.
static void* waiter(void* a){ int n=*(int*)a; for(int i=0;i<n;++i){ sem->wait(); ++passed; vp_true(passed<=initial+posted,"no_pass_without_release"); } return 0; }
static void* releaser(void* a){ int n=*(int*)a; for(int i=0;i<n;++i){ ++posted; sem->post(); } return 0; }
extern "C" void vp_main(){
  int NW=vp_choose("waiters",1,vp_cfg("W",2)), NR=vp_choose("releasers",0,vp_cfg("R",2)); initial=vp_int("initial",0,2);
  int per=vp_choose("waits_each",1,vp_cfg("per",2)); int pp=vp_choose("posts_each",1,vp_cfg("per",2));
  int need=NW*per, have=NR*pp; vp_assume(initial+have>=need);
  Semaphore s(initial); sem=&s;
  pthread_t w[4],r[4]; 
  for(int i=0;i<NW;++i) pthread_create(&w[i],0,waiter,&per);
  for(int i=0;i<NR;++i) pthread_create(&r[i],0,releaser,&pp);
  for(int i=0;i<NW;++i) pthread_join(w[i],0);
  for(int i=0;i<NR;++i) pthread_join(r[i],0);
  vp_eq(passed,need,"every_waiter_passed"); vp_eq(posted,have,"every_release_done");
  // what is left can be taken without blocking
  int left=vp_choose("take_left",0,1); if(left){ vp_assume(initial+have>need); s.wait(); vp_reach("taken"); }
  vp_reach("end");
}
