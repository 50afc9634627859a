// Bodies of libstdc++ functions that live in the shared library, so that the executor can run them.
#include <string>
#include <list>
#include <unordered_map>
#include <typeinfo>
#include <cmath>
#include <cstdlib>
#include <map>
#include <stdexcept>
#include <functional>
#include <new>
namespace std {
  _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw(){ if(x->_M_right){ x=x->_M_right; while(x->_M_left) x=x->_M_left; } else { _Rb_tree_node_base* y=x->_M_parent; while(x==y->_M_right){ x=y; y=y->_M_parent; } if(x->_M_right!=y) x=y; } return x; }
  const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw(){ return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
  _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw(){ if(x->_M_color==_S_red&&x->_M_parent->_M_parent==x) x=x->_M_right; else if(x->_M_left){ _Rb_tree_node_base* y=x->_M_left; while(y->_M_right) y=y->_M_right; x=y; } else { _Rb_tree_node_base* y=x->_M_parent; while(x==y->_M_left){ x=y; y=y->_M_parent; } x=y; } return x; }
  const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw(){ return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
  // plain (unbalanced) search tree; the header stays red and the root black, which is what decrement relies on
  void _Rb_tree_insert_and_rebalance(const bool l,_Rb_tree_node_base* x,_Rb_tree_node_base* p,_Rb_tree_node_base& h) throw(){
    x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_black;
    if(l){ p->_M_left=x; if(p==&h){ h._M_parent=x; h._M_right=x; } else if(p==h._M_left) h._M_left=x; }
    else { p->_M_right=x; if(p==h._M_right) h._M_right=x; } }
  _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z,_Rb_tree_node_base& h) throw(){
    _Rb_tree_node_base *&root=h._M_parent,*&lm=h._M_left,*&rm=h._M_right; _Rb_tree_node_base* y=z; _Rb_tree_node_base* x=0; _Rb_tree_node_base* xp=0;
    if(!y->_M_left) x=y->_M_right; else if(!y->_M_right) x=y->_M_left; else { y=y->_M_right; while(y->_M_left) y=y->_M_left; x=y->_M_right; }
    if(y!=z){ z->_M_left->_M_parent=y; y->_M_left=z->_M_left; if(y!=z->_M_right){ xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; y->_M_parent->_M_left=x; y->_M_right=z->_M_right; z->_M_right->_M_parent=y; } else xp=y;
      if(root==z) root=y; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=y; else z->_M_parent->_M_right=y; y->_M_parent=z->_M_parent; std::swap(y->_M_color,z->_M_color); y=z; }
    else { xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; if(root==z) root=x; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=x; else z->_M_parent->_M_right=x;
      if(lm==z){ if(!z->_M_right) lm=z->_M_parent; else { _Rb_tree_node_base* q=x; while(q->_M_left) q=q->_M_left; lm=q; } }
      if(rm==z){ if(!z->_M_left) rm=z->_M_parent; else { _Rb_tree_node_base* q=x; while(q->_M_right) q=q->_M_right; rm=q; } } }
    return y; }
  namespace __detail {
    void _List_node_base::swap(_List_node_base& x,_List_node_base& y) throw(){ const bool ex=x._M_next==&x,ey=y._M_next==&y; std::swap(x._M_next,y._M_next); std::swap(x._M_prev,y._M_prev);
      if(ey) x._M_next=x._M_prev=&x; else x._M_next->_M_prev=x._M_prev->_M_next=&x; if(ex) y._M_next=y._M_prev=&y; else y._M_next->_M_prev=y._M_prev->_M_next=&y; }
    static const size_t buckets[]={2,5,11,23,47,97,199,409,823,1741,3469,6949,14033,28411,57557,116731};
    size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b=buckets[0]; for(int i=0;i<16&&(b=buckets[i])<n;++i); _M_next_resize=b; return b; }
    std::pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb,size_t ne,size_t ni) const { if(ne+ni>_M_next_resize){ size_t want=ne+ni; if(want<nb*2) want=nb*2; if(ne+ni>=nb||_M_next_resize==0) return std::make_pair(true,_M_next_bkt(want+1)); _M_next_resize=nb; } return std::make_pair(false,(size_t)0); }
    void _List_node_base::_M_hook(_List_node_base* const p) throw(){ this->_M_next=p; this->_M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
    void _List_node_base::_M_unhook() throw(){ _List_node_base* n=_M_next; _List_node_base* p=_M_prev; p->_M_next=n; n->_M_prev=p; }
    void _List_node_base::_M_reverse() throw(){ _List_node_base* t=this; do { std::swap(t->_M_next,t->_M_prev); t=t->_M_prev; } while(t!=this); }
    void _List_node_base::_M_transfer(_List_node_base* const f,_List_node_base* const l) throw(){ if(this!=l){ l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; this->_M_prev->_M_next=f; _List_node_base* t=this->_M_prev; this->_M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; } }
  }
  size_t _Hash_bytes(const void* p,size_t n,size_t seed){ size_t h=seed^(n*0x9E3779B97F4A7C15ull); for(size_t i=0;i<n;++i) h=(h^((const unsigned char*)p)[i])*0x100000001B3ull; return h^(h>>29); }
  void __throw_bad_weak_ptr(){ throw std::runtime_error("bad_weak_ptr"); }
  void __throw_bad_cast(){ throw std::bad_cast(); }
  void __throw_domain_error(const char* s){ throw std::domain_error(s); }
  void __throw_range_error(const char* s){ throw std::range_error(s); }
  void __throw_overflow_error(const char* s){ throw std::overflow_error(s); }
  void __throw_bad_alloc(){ throw std::bad_alloc(); }
  void __throw_bad_array_new_length(){ throw std::bad_alloc(); }
  void __throw_length_error(const char* s){ throw std::length_error(s); }
  void __throw_logic_error(const char* s){ throw std::logic_error(s); }
  void __throw_out_of_range(const char* s){ throw std::out_of_range(s); }
  void __throw_out_of_range_fmt(const char* s,...){ throw std::out_of_range(s); }
  void __throw_runtime_error(const char* s){ throw std::runtime_error(s); }
  void __throw_invalid_argument(const char* s){ throw std::invalid_argument(s); }
  void __throw_bad_function_call(){ throw std::runtime_error("bad_function_call"); }
  template class std::__cxx11::basic_string<char>;
}
extern "C" {
  long lround(double x){ return x<0?-(long)__builtin_floor(-x+0.5):(long)__builtin_floor(x+0.5); }
  long long llround(double x){ return lround(x); } long lrint(double x){ return lround(x); } long long llrint(double x){ return lround(x); } long lroundf(float x){ return lround(x); }
  double hypot(double a,double b){ return __builtin_sqrt(a*a+b*b); }
  div_t div(int a,int b){ div_t r; r.quot=a/b; r.rem=a%b; return r; } ldiv_t ldiv(long a,long b){ ldiv_t r; r.quot=a/b; r.rem=a%b; return r; } lldiv_t lldiv(long long a,long long b){ lldiv_t r; r.quot=a/b; r.rem=a%b; return r; }
  void* vp_memchr(const void* s,int c,size_t n) __asm__("memchr"); void* vp_memchr(const void* s,int c,size_t n){ const unsigned char* p=(const unsigned char*)s; for(size_t i=0;i<n;++i) if(p[i]==(unsigned char)c) return (void*)(p+i); return 0; }
  char* vp_strchr(const char* s,int c) __asm__("strchr"); char* vp_strchr(const char* s,int c){ for(;;++s){ if(*s==(char)c) return (char*)s; if(!*s) return 0; } }
  char* vp_strcpy(char* d,const char* s) __asm__("strcpy"); char* vp_strcpy(char* d,const char* s){ char* o=d; while((*d++=*s++)); return o; }
  int vp_strncmp(const char* a,const char* b,size_t n) __asm__("strncmp"); int vp_strncmp(const char* a,const char* b,size_t n){ for(size_t i=0;i<n;++i){ if(a[i]!=b[i]) return (unsigned char)a[i]<(unsigned char)b[i]?-1:1; if(!a[i]) return 0; } return 0; }
  static unsigned vp_rs=1; int rand(){ vp_rs=vp_rs*1103515245u+12345u; return (int)(vp_rs>>1); } void srand(unsigned s){ vp_rs=s; }
}
// what the modelled constructors of the standard exceptions leave in the object
struct VpExc : std::exception { const char* what() const noexcept override { return "exc"; } };
extern "C" { __attribute__((used)) VpExc vp_exc_proto; }
