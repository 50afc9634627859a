// Harness interface. Interpreted symbolically by /verif/engine; implemented concretely by vp_native.cpp for replay.
#pragma once
#include <cstdint>
extern "C" {
  int    vp_int(const char* name,int lo,int hi);      // symbolic integer in [lo,hi]
  int    vp_choose(const char* name,int lo,int hi);   // forked choice: concrete on each path, all values explored
  double vp_double(const char* name);                 // symbolic finite value
  double vp_advance(double x,int ulps);               // the value that many units in the last place away
  void   vp_assume(int c);
  void   vp_true_(int c,const char* id);
  void   vp_eq_(int64_t a,int64_t b,const char* id);
  void   vp_same_(double a,double b,const char* id);  // equal up to rounding
  void   vp_reach(const char* id);                    // vacuity marker
  int    vp_symbolic();
  void   vp_watch(const void* p,long n);              // race detection on this allocation (null: on every heap block)
  int    vp_cfg(const char* key,int def);
  void   vp_settle();                                 // waits until every other thread is blocked or done
  int    vp_threads();                                // threads that have not ended
  void   vp_stop();
  void   vp_fail(const char* id);
  void   vp_room(const void* p,long bytes,const char* id); // p points to at least that many bytes of a live block
  long   vp_live_allocs();
  void   vp_preempt(int n);
  void   vp_main();
}
#define vp_true(c,id)    vp_true_((c)?1:0,id)
#define vp_eq(a,b,id)    vp_eq_((int64_t)(a),(int64_t)(b),id)
#define vp_same(a,b,id)  vp_same_((double)(a),(double)(b),id)
