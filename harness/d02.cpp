#include "vp.h"
#include <spatialops/OperatorDatabase.h>
#include <vector>
using namespace SpatialOps;
static int made=0,gone[64];
template<int K> struct Op{ struct Assembler{ int tag; }; int tag,serial; Op(int t):tag(t),serial(made++){} Op(const Assembler& a):tag(a.tag),serial(made++){} ~Op(){ ++gone[serial]; tag=-1; } };
struct Reg{ int type,id,tag,serial; void* p; bool live; };
static std::vector<Reg>* regs;
template<int K> static void reg(OperatorDatabase& db){ Reg r; r.type=K; r.tag=vp_int("tag",0,1000); r.live=true; r.serial=made; const bool asmb=vp_cfg("asm",0)? vp_choose("assembler",0,1):K==1;
  if(asmb){ typename Op<K>::Assembler a; a.tag=r.tag; r.id=db.register_new_operator< Op<K> >(a); r.p=NULL; } else { Op<K>* o=new Op<K>(r.tag); r.p=o; r.id=db.register_new_operator(o); }
  for(size_t i=0;i<regs->size();++i) if((*regs)[i].live&&(*regs)[i].type==K) vp_true((*regs)[i].id!=r.id,"identifiers_unique"); regs->push_back(r); vp_true(r.id!=-1,"identifier_valid"); }
template<int K> static void get(OperatorDatabase& db){ const bool def=vp_choose("default",0,1); int id=-1; if(!def) id=vp_int("id",-2,vp_cfg("K",4)+2); Op<K>* o=NULL; bool threw=false;
  try{ o= def? db.retrieve_operator< Op<K> >() : db.retrieve_operator< Op<K> >(id); }catch(const std::runtime_error&){ threw=true; }
  int want=-1,cnt=0; for(size_t i=0;i<regs->size();++i){ Reg& r=(*regs)[i]; if(!r.live||r.type!=K) continue; ++cnt; if(id==-1||id==r.id) want=i; } if(id==-1&&cnt!=1) want=-1;
  vp_eq(threw,want<0,"rejected_iff_unknown_or_ambiguous"); if(want>=0&&!threw){ const Reg& r=(*regs)[want]; vp_eq(o->tag,r.tag,"right_operator"); vp_eq(o->serial,r.serial,"right_operator"); if(r.p) vp_true(o==r.p,"same_object"); vp_reach("found"); } else if(threw) vp_reach("rejected"); }
static void destroyed(){ for(size_t i=0;i<regs->size();++i) vp_eq(gone[(*regs)[i].serial],!(*regs)[i].live,"destroyed_once"); vp_eq(made,regs->size(),"no_copies"); }
extern "C" void vp_main(){ regs=new std::vector<Reg>; const int K=vp_cfg("K",4); { OperatorDatabase db;
  for(int k=0;k<K;++k){ switch(k==K-1?vp_choose("last",2,3):vp_choose("act",0,vp_cfg("types",2)+1)){ case 0: reg<0>(db); break; case 1: reg<1>(db); break; case 2: get<0>(db); break; case 3: if(k==K-1){ get<1>(db); break; } db.empty_database(); for(size_t i=0;i<regs->size();++i) (*regs)[i].live=false; break; case 4: get<1>(db); break; default: reg<2>(db); } destroyed(); }
  for(size_t i=0;i<regs->size();++i) (*regs)[i].live=false; }
  destroyed(); vp_reach("end"); }
