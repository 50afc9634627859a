#include <llvm/IR/DebugInfoMetadata.h>
#include "exec.h"
#include <cmath>
#include <set>
#include <fcntl.h>
#include <unistd.h>
#include <llvm/ADT/SmallString.h>
std::vector<Thread*> g_thr; Thread* T=nullptr; const DataLayout* DL; Module* M;
std::unordered_map<const GlobalValue*,u64> g_addr; std::unordered_map<u64,Function*> g_fnAt;
static std::unordered_map<Function*,CFn*> g_fns; std::unordered_map<Function*,int> g_ord;
static u64 maskOf(unsigned b){ return b>=64?~0ull:((1ull<<b)-1); }
static i64 sx(u64 v,unsigned b){ return b>=64?(i64)v:(i64)(v<<(64-b))>>(64-b); }
static unsigned widthOf(Type* t){ if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isPointerTy()) return 64; if(t->isDoubleTy()) return 64; if(t->isFloatTy()) return 32; return 0; }

static Val evalConst(const Constant* C);
static Val freshOf(Type* t){ if(t->isStructTy()||t->isArrayTy()){ std::vector<Val> v; unsigned n=t->isStructTy()?t->getStructNumElements():t->getArrayNumElements(); for(unsigned i=0;i<n;i++) v.push_back(freshOf(t->isStructTy()?t->getStructElementType(i):t->getArrayElementType())); return mkAgg(v);} 
  if(t->isVectorTy()){ std::vector<Val> v; for(unsigned i=0;i<cast<FixedVectorType>(t)->getNumElements();i++) v.push_back(freshOf(cast<VectorType>(t)->getElementType())); return mkAgg(v);} 
  if(t->isFloatingPointTy()) return mkE(freshReal("undef")); unsigned b=widthOf(t); return mkE(freshBV("undef",b?b:64)); }
static bool isFresh(const Constant* c){ return isa<UndefValue>(c); }
static Val evalConst(const Constant* C){
  if(auto* x=dyn_cast<ConstantInt>(C)){ if(x->getBitWidth()<=64) return Val(x->getZExtValue()); SmallString<64> s; x->getValue().toStringUnsigned(s); return mkE(Z3_mk_numeral(Z,s.c_str(),Z3_mk_bv_sort(Z,x->getBitWidth()))); }
  if(auto* x=dyn_cast<ConstantFP>(C)){ return Val(x->getValueAPF().bitcastToAPInt().getZExtValue()); }
  if(isa<ConstantPointerNull>(C)) return Val(0);
  if(auto* g=dyn_cast<GlobalValue>(C)){ auto it=g_addr.find(g); if(it!=g_addr.end()) return Val(it->second); if(auto* al=dyn_cast<GlobalAlias>(g)) return evalConst(al->getAliasee()); endPath(END_INCOMPLETE,"unknown global "+g->getName().str()); }
  if(isFresh(C)) return freshOf(C->getType());
  Type* t=C->getType();
  if(isa<ConstantAggregateZero>(C)){ std::vector<Val> v; unsigned n= t->isStructTy()?t->getStructNumElements():t->isArrayTy()?t->getArrayNumElements():cast<FixedVectorType>(t)->getNumElements(); for(unsigned i=0;i<n;i++) v.push_back(evalConst(C->getAggregateElement(i))); return mkAgg(v); }
  if(isa<ConstantStruct>(C)||isa<ConstantArray>(C)||isa<ConstantVector>(C)||isa<ConstantDataSequential>(C)){ std::vector<Val> v; for(unsigned i=0;;i++){ Constant* e=C->getAggregateElement(i); if(!e) break; v.push_back(evalConst(e)); } return mkAgg(v); }
  if(auto* ce=dyn_cast<ConstantExpr>(C)){
    switch(ce->getOpcode()){
      case Instruction::GetElementPtr: { APInt off(64,0); auto* gp=cast<GEPOperator>(ce); if(!gp->accumulateConstantOffset(*DL,off)) break; Val b=evalConst(cast<Constant>(gp->getPointerOperand())); return Val(b.c+off.getSExtValue()); }
      case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: return evalConst(ce->getOperand(0));
      case Instruction::Add: return Val((evalConst(ce->getOperand(0)).c+evalConst(ce->getOperand(1)).c)&maskOf(widthOf(t)));
      case Instruction::Sub: return Val((evalConst(ce->getOperand(0)).c-evalConst(ce->getOperand(1)).c)&maskOf(widthOf(t)));
      case Instruction::Trunc: return Val(evalConst(ce->getOperand(0)).c&maskOf(widthOf(t)));
      case Instruction::ICmp: { u64 a=evalConst(ce->getOperand(0)).c,b=evalConst(ce->getOperand(1)).c; auto p=(CmpInst::Predicate)ce->getPredicate(); if(p==CmpInst::ICMP_EQ) return Val(a==b); if(p==CmpInst::ICMP_NE) return Val(a!=b); break; }
    }
    endPath(END_INCOMPLETE,"constant expression"); }
  if(auto* ba=dyn_cast<BlockAddress>(C)){ (void)ba; endPath(END_INCOMPLETE,"blockaddress"); }
  endPath(END_INCOMPLETE,"constant kind"); }

Val evalConstX(const Constant* C){ return evalConst(C); }
CFn* getFn(Function* F){
  auto it=g_fns.find(F); if(it!=g_fns.end()) return it->second;
  CFn* f=new CFn; f->F=F; f->ord=g_ord.count(F)?g_ord[F]:-1; g_fns[F]=f; std::unordered_map<const Value*,int> slot; std::unordered_map<const BasicBlock*,int> bbi;
  for(auto& a:F->args()){ slot[&a]=f->nslots; f->argslots.push_back(f->nslots++); }
  int n=0; for(auto& B:*F){ bbi[&B]=n++; for(auto& I:B) if(!I.getType()->isVoidTy()) slot[&I]=f->nslots++; }
  auto op=[&](const Value* v)->Operand{ Operand o; auto s=slot.find(v); if(s!=slot.end()){ o.slot=s->second; return o; } if(auto* c=dyn_cast<Constant>(v)){ if(isFresh(c)) o.fresh=c; else o.cv=evalConst(c); } return o; };
  f->bbs.resize(n);
  for(auto& B:*F){ CBB& cb=f->bbs[bbi[&B]]; cb.bb=&B;
    for(auto& I:B){
      if(auto* p=dyn_cast<PHINode>(&I)){ PhiI q; q.dst=slot[&I]; for(unsigned i=0;i<p->getNumIncomingValues();i++) q.in.push_back({bbi[p->getIncomingBlock(i)],op(p->getIncomingValue(i))}); cb.phis.push_back(q); continue; }
      if(isa<DbgInfoIntrinsic>(&I)) continue;
      Ins x; x.I=&I; x.opc=I.getOpcode(); if(!I.getType()->isVoidTy()) x.dst=slot[&I]; x.bits=widthOf(I.getType());
      if(auto* cb_=dyn_cast<CallBase>(&I)){ for(auto& a:cb_->args()) x.ops.push_back(op(a.get())); Value* cv=cb_->getCalledOperand()->stripPointerCasts(); if(auto* al=dyn_cast<GlobalAlias>(cv)) cv=al->getAliaseeObject(); x.callee=dyn_cast<Function>(cv); if(!x.callee) x.ops.push_back(op(cb_->getCalledOperand())); if(auto* iv=dyn_cast<InvokeInst>(&I)){ x.t0=bbi[iv->getNormalDest()]; x.unwind=bbi[iv->getUnwindDest()]; } }
      else { for(auto& a:I.operands()) if(!isa<BasicBlock>(a)) x.ops.push_back(op(a.get())); else x.ops.push_back(Operand()); }
      if(I.getNumOperands()){ Type* t0=I.getOperand(0)->getType(); x.bits2=widthOf(t0); x.isFloat=t0->isFloatTy(); x.isFP=t0->isFloatingPointTy(); }
      if(auto* g=dyn_cast<GetElementPtrInst>(&I)){
        i64 off=0; unsigned k=1; for(auto ti=gep_type_begin(g);ti!=gep_type_end(g);++ti,++k){ Value* idx=ti.getOperand(); if(StructType* st=ti.getStructTypeOrNull()){ off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; } i64 sz=DL->getTypeAllocSize(ti.getIndexedType()); if(auto* ci=dyn_cast<ConstantInt>(idx)) off+=ci->getSExtValue()*sz; else { x.gep.push_back({(int)k,sz}); } } x.imm=off; }
      if(auto* b=dyn_cast<BranchInst>(&I)){ if(b->isConditional()){ x.ops.clear(); x.ops.push_back(op(b->getCondition())); x.t0=bbi[b->getSuccessor(0)]; x.t1=bbi[b->getSuccessor(1)]; } else x.t0=bbi[b->getSuccessor(0)]; }
      if(auto* s=dyn_cast<SwitchInst>(&I)){ x.t0=bbi[s->getDefaultDest()]; for(auto c:s->cases()) x.cases.push_back({c.getCaseValue()->getZExtValue(),bbi[c.getCaseSuccessor()]}); x.bits2=widthOf(s->getCondition()->getType()); }
      if(auto* l=dyn_cast<LoadInst>(&I)) { x.vol=l->isVolatile(); x.atom=l->isAtomic(); x.sync=x.vol||x.atom; } if(auto* s=dyn_cast<StoreInst>(&I)){ x.vol=s->isVolatile(); x.atom=s->isAtomic(); x.sync=x.vol||x.atom; }
      cb.ins.push_back(std::move(x)); } }
  return f; }

static inline Val get(Frame& fr,const Operand& o){ if(o.slot>=0) return fr.r[o.slot]; if(o.fresh) return freshOf(o.fresh->getType()); return o.cv; }
static Z3_ast arith(unsigned opc,Z3_ast a,Z3_ast b){ Z3_ast x[2]={a,b};
  switch(opc){ case Instruction::FAdd: return Z3_mk_add(Z,2,x); case Instruction::FSub: return Z3_mk_sub(Z,2,x); case Instruction::FMul: return Z3_mk_mul(Z,2,x); case Instruction::FDiv: return Z3_mk_div(Z,a,b); }
  endPath(END_INCOMPLETE,"frem"); }
static double dbl(u64 c,bool f){ if(f){ u32 x=c; float y; memcpy(&y,&x,4); return y; } double d; memcpy(&d,&c,8); return d; }
static Val fromD(double d,bool f){ if(f){ float y=(float)d; u32 x; memcpy(&x,&y,4); return Val(x);} u64 x; memcpy(&x,&d,8); return Val(x); }
static Val fbin(unsigned opc,const Val& a,const Val& b,bool f){
  if(!a.e&&!b.e){ double x=dbl(a.c,f),y=dbl(b.c,f),r; switch(opc){ case Instruction::FAdd: r=x+y; break; case Instruction::FSub: r=x-y; break; case Instruction::FMul: r=x*y; break; case Instruction::FDiv: r=x/y; break; default: r=fmod(x,y);} return fromD(r,f); }
  // exact-real shortcuts keep terms small
  if(opc==Instruction::FMul){ if(!a.e){ double x=dbl(a.c,f); if(x==1) return b; if(x==0) return Val(0); } if(!b.e){ double y=dbl(b.c,f); if(y==1) return a; if(y==0) return Val(0);} }
  if(opc==Instruction::FAdd){ if(!a.e&&dbl(a.c,f)==0) return b; if(!b.e&&dbl(b.c,f)==0) return a; }
  if(opc==Instruction::FSub&&!b.e&&dbl(b.c,f)==0) return a;
  if(opc==Instruction::FDiv&&!b.e){ double y=dbl(b.c,f); if(y==1) return a; if(y==0) return mkE(freshReal("divzero")); }
  return mkE(arith(opc,asReal(a,f),asReal(b,f))); }
static Val ibin(unsigned opc,const Val& a,const Val& b,unsigned w){
  if(!a.e&&!b.e&&w<=64){ u64 x=a.c,y=b.c,m=maskOf(w),r=0;
    switch(opc){
      case Instruction::Add:r=x+y;break; case Instruction::Sub:r=x-y;break; case Instruction::Mul:r=x*y;break;
      case Instruction::And:r=x&y;break; case Instruction::Or:r=x|y;break; case Instruction::Xor:r=x^y;break;
      case Instruction::Shl:r=y>=w?0:x<<y;break; case Instruction::LShr:r=y>=w?0:x>>y;break; case Instruction::AShr:r=y>=w?(sx(x,w)<0?m:0):(u64)(sx(x,w)>>y);break;
      case Instruction::UDiv: case Instruction::URem: if(!y) violation("div0","unsigned division by zero"); r=opc==Instruction::UDiv?x/y:x%y;break;
      case Instruction::SDiv: case Instruction::SRem:{ if(!y) violation("div0","division by zero"); i64 p=sx(x,w),q=sx(y,w); if(q==-1) r=opc==Instruction::SDiv?(u64)-(u64)p:0; else r=opc==Instruction::SDiv?p/q:p%q; break; }
      default: endPath(END_INCOMPLETE,"ibin"); }
    return Val(r&m); }
  if(w==1){ Z3_ast p=asBool(a),q=asBool(b),x[2]={p,q}; switch(opc){ case Instruction::And: return fromBool(Z3_mk_and(Z,2,x)); case Instruction::Or: return fromBool(Z3_mk_or(Z,2,x)); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return fromBool(Z3_mk_xor(Z,p,q)); } }
  Z3_ast p=asBV(a,w),q=asBV(b,w),r;
  switch(opc){
    case Instruction::Add:r=Z3_mk_bvadd(Z,p,q);break; case Instruction::Sub:r=Z3_mk_bvsub(Z,p,q);break; case Instruction::Mul:r=Z3_mk_bvmul(Z,p,q);break;
    case Instruction::And:r=Z3_mk_bvand(Z,p,q);break; case Instruction::Or:r=Z3_mk_bvor(Z,p,q);break; case Instruction::Xor:r=Z3_mk_bvxor(Z,p,q);break;
    case Instruction::Shl:r=Z3_mk_bvshl(Z,p,q);break; case Instruction::LShr:r=Z3_mk_bvlshr(Z,p,q);break; case Instruction::AShr:r=Z3_mk_bvashr(Z,p,q);break;
    default: { Z3_ast z=Z3_mk_eq(Z,q,zbv(0,w)); if(decide(z)) violation("div0","division by zero");
      switch(opc){ case Instruction::UDiv:r=Z3_mk_bvudiv(Z,p,q);break; case Instruction::URem:r=Z3_mk_bvurem(Z,p,q);break; case Instruction::SDiv:r=Z3_mk_bvsdiv(Z,p,q);break; case Instruction::SRem:r=Z3_mk_bvsrem(Z,p,q);break; default: endPath(END_INCOMPLETE,"ibin"); } } }
  return fromBV(r,w); }
static Val icmp(CmpInst::Predicate p,const Val& a,const Val& b,unsigned w){
  if(!a.e&&!b.e&&w<=64){ u64 x=a.c,y=b.c; i64 s=sx(x,w),t=sx(y,w); bool r; switch(p){ case CmpInst::ICMP_EQ:r=x==y;break; case CmpInst::ICMP_NE:r=x!=y;break; case CmpInst::ICMP_UGT:r=x>y;break; case CmpInst::ICMP_UGE:r=x>=y;break; case CmpInst::ICMP_ULT:r=x<y;break; case CmpInst::ICMP_ULE:r=x<=y;break; case CmpInst::ICMP_SGT:r=s>t;break; case CmpInst::ICMP_SGE:r=s>=t;break; case CmpInst::ICMP_SLT:r=s<t;break; default:r=s<=t; } return Val(r); }
  if(w==1&&(p==CmpInst::ICMP_EQ||p==CmpInst::ICMP_NE)){ Z3_ast e=Z3_mk_iff(Z,asBool(a),asBool(b)); return fromBool(p==CmpInst::ICMP_EQ?e:znot(e)); }
  Z3_ast x=asBV(a,w),y=asBV(b,w),r; switch(p){ case CmpInst::ICMP_EQ:r=zeqBV(x,y);break; case CmpInst::ICMP_NE:r=znot(zeqBV(x,y));break; case CmpInst::ICMP_UGT:r=Z3_mk_bvugt(Z,x,y);break; case CmpInst::ICMP_UGE:r=Z3_mk_bvuge(Z,x,y);break; case CmpInst::ICMP_ULT:r=Z3_mk_bvult(Z,x,y);break; case CmpInst::ICMP_ULE:r=Z3_mk_bvule(Z,x,y);break; case CmpInst::ICMP_SGT:r=Z3_mk_bvsgt(Z,x,y);break; case CmpInst::ICMP_SGE:r=Z3_mk_bvsge(Z,x,y);break; case CmpInst::ICMP_SLT:r=Z3_mk_bvslt(Z,x,y);break; default:r=Z3_mk_bvsle(Z,x,y); } return fromBool(r); }
static Val fcmp(CmpInst::Predicate p,const Val& a,const Val& b,bool f){
  if(!a.e&&!b.e){ double x=dbl(a.c,f),y=dbl(b.c,f); bool un=x!=x||y!=y,r; switch(p){ case CmpInst::FCMP_OEQ:r=!un&&x==y;break; case CmpInst::FCMP_OGT:r=!un&&x>y;break; case CmpInst::FCMP_OGE:r=!un&&x>=y;break; case CmpInst::FCMP_OLT:r=!un&&x<y;break; case CmpInst::FCMP_OLE:r=!un&&x<=y;break; case CmpInst::FCMP_ONE:r=!un&&x!=y;break; case CmpInst::FCMP_ORD:r=!un;break; case CmpInst::FCMP_UNO:r=un;break; case CmpInst::FCMP_UEQ:r=un||x==y;break; case CmpInst::FCMP_UGT:r=un||x>y;break; case CmpInst::FCMP_UGE:r=un||x>=y;break; case CmpInst::FCMP_ULT:r=un||x<y;break; case CmpInst::FCMP_ULE:r=un||x<=y;break; case CmpInst::FCMP_UNE:r=un||x!=y;break; case CmpInst::FCMP_TRUE:r=true;break; default:r=false; } return Val(r); }
  // concrete non-finite operands keep their IEEE meaning against (finite) symbolic reals
  for(int s=0;s<2;s++){ const Val& k=s?b:a; if(k.e) continue; double x=dbl(k.c,f); if(std::isfinite(x)) continue; bool nan=x!=x; bool big=x>0; // a op b
      bool gt= s? !big : big; // a>b ?
      switch(p){ case CmpInst::FCMP_OEQ: return Val(0); case CmpInst::FCMP_UEQ: return Val(nan); case CmpInst::FCMP_ONE: return Val(!nan); case CmpInst::FCMP_UNE: return Val(1); case CmpInst::FCMP_ORD: return Val(!nan); case CmpInst::FCMP_UNO: return Val(nan);
        case CmpInst::FCMP_OGT: case CmpInst::FCMP_OGE: return Val(!nan&&gt); case CmpInst::FCMP_UGT: case CmpInst::FCMP_UGE: return Val(nan||gt); case CmpInst::FCMP_OLT: case CmpInst::FCMP_OLE: return Val(!nan&&!gt); case CmpInst::FCMP_ULT: case CmpInst::FCMP_ULE: return Val(nan||!gt); default:; } }
  Z3_ast x=asReal(a,f),y=asReal(b,f),r; switch(p){ case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ:r=Z3_mk_eq(Z,x,y);break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE:r=znot(Z3_mk_eq(Z,x,y));break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT:r=Z3_mk_gt(Z,x,y);break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE:r=Z3_mk_ge(Z,x,y);break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT:r=Z3_mk_lt(Z,x,y);break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE:r=Z3_mk_le(Z,x,y);break; case CmpInst::FCMP_ORD: case CmpInst::FCMP_TRUE: return Val(1); default: return Val(0);} return fromBool(r); }
static Val selectV(const Val& c,const Val& a,const Val& b,Type* t){
  if(!c.e) return (c.c&1)?a:b; if(t->isAggregateType()||t->isVectorTy()) return decide(asBool(c))?a:b;
  if(!a.e&&!b.e&&a.c==b.c) return a;
  if(t->isFloatingPointTy()){ bool f=t->isFloatTy(); if((!a.e&&!std::isfinite(dbl(a.c,f)))||(!b.e&&!std::isfinite(dbl(b.c,f)))) return decide(asBool(c))?a:b; return mkE(Z3_mk_ite(Z,asBool(c),asReal(a,f),asReal(b,f))); }
  if(t->isPointerTy()) return decide(asBool(c))?a:b;
  unsigned w=widthOf(t); if(w==1) return fromBool(Z3_mk_ite(Z,asBool(c),asBool(a),asBool(b)));
  // values carrying floating-point payload in integer registers
  auto isR=[](const Val& v){ return v.e&&Z3_get_sort_kind(Z,Z3_get_sort(Z,v.e))==Z3_REAL_SORT; }; if(isR(a)||isR(b)) return decide(asBool(c))?a:b;
  return fromBV(Z3_mk_ite(Z,asBool(c),asBV(a,w),asBV(b,w)),w); }
static Val castV(Ins& x,const Val& v){
  unsigned w=x.bits,s=x.bits2; bool df=x.I->getType()->isFloatTy();
  switch(x.opc){
    case Instruction::Trunc: if(!v.e) return Val(v.c&maskOf(w)); if(w==1) return fromBool(asBool(v)); return fromBV(Z3_mk_extract(Z,w-1,0,asBV(v,s)),w);
    case Instruction::ZExt: if(!v.e&&w<=64) return Val(v.c); return fromBV(s==1?Z3_mk_ite(Z,asBool(v),zbv(1,w),zbv(0,w)):Z3_mk_zero_ext(Z,w-s,asBV(v,s)),w);
    case Instruction::SExt: if(!v.e&&w<=64) return Val((u64)sx(v.c,s)&maskOf(w)); if(s==1) return fromBV(Z3_mk_ite(Z,asBool(v),Z3_mk_bvnot(Z,zbv(0,w)),zbv(0,w)),w); return fromBV(Z3_mk_sign_ext(Z,w-s,asBV(v,s)),w);
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Freeze: if(x.opc==Instruction::PtrToInt&&!v.e) return Val(v.c&maskOf(w)); return v;
    case Instruction::FPTrunc: if(!v.e) return fromD(dbl(v.c,false),true); return v;
    case Instruction::FPExt: if(!v.e) return fromD(dbl(v.c,true),false); return v;
    case Instruction::SIToFP: if(!v.e) return fromD((double)sx(v.c,s),df); return mkE(Z3_mk_int2real(Z,Z3_mk_bv2int(Z,asBV(v,s),true)));
    case Instruction::UIToFP: if(!v.e) return fromD((double)v.c,df); return mkE(Z3_mk_int2real(Z,Z3_mk_bv2int(Z,asBV(v,s),false)));
    case Instruction::FPToSI: case Instruction::FPToUI: { if(!v.e){ double d=dbl(v.c,x.isFloat); return Val((x.opc==Instruction::FPToSI?(u64)(i64)d:(u64)d)&maskOf(w)); }
      // fork over the integer value: truncation toward zero of the real term
      Z3_ast r=asReal(v,x.isFloat); Z3_ast fl=Z3_mk_real2int(Z,r); Z3_ast neg=Z3_mk_lt(Z,r,zreal(0)); Z3_ast mr=Z3_mk_unary_minus(Z,r); Z3_ast tr=Z3_mk_ite(Z,neg,Z3_mk_unary_minus(Z,Z3_mk_real2int(Z,mr)),fl);
      for(int it=0;it<256;it++){ Z3_model m=nullptr; int q=solveWith(nullptr,&m); if(q==0) endPath(END_INFEASIBLE); if(q<0) endPath(END_INCOMPLETE,"fptosi"); Z3_ast ev; i64 k; if(!Z3_model_eval(Z,m,tr,true,&ev)||!Z3_get_numeral_int64(Z,zsimp(ev),&k)) endPath(END_INCOMPLETE,"fptosi value");
        Z3_ast lo,hi; if(k>0){ lo=Z3_mk_ge(Z,r,zreal((double)k)); hi=Z3_mk_lt(Z,r,zreal((double)k+1)); } else if(k<0){ lo=Z3_mk_gt(Z,r,zreal((double)k-1)); hi=Z3_mk_le(Z,r,zreal((double)k)); } else { lo=Z3_mk_gt(Z,r,zreal(-1)); hi=Z3_mk_lt(Z,r,zreal(1)); }
        Z3_ast cc[2]={lo,hi}; if(decide(Z3_mk_and(Z,2,cc))) return Val((u64)k&maskOf(w)); }
      endPath(END_INCOMPLETE,"too many values for float to int"); }
  }
  endPath(END_INCOMPLETE,"cast"); }

void enterFn(Function* F,const std::vector<Val>& args){
  CFn* f=getFn(F); 
  if(T->st.size()>2000) violation("stack","stack overflow");
  T->st.emplace_back(); Frame& fr=T->st.back(); fr.f=f; fr.r.resize(f->nslots); for(size_t i=0;i<f->argslots.size()&&i<args.size();i++) fr.r[f->argslots[i]]=args[i]; for(size_t i=f->argslots.size();i<args.size();i++) fr.va.push_back(args[i]); }
void dropObj(Obj*); extern bool g_sync; void syncAccess(u64,bool,bool); void threadFinished(Thread*);
static void leaveFrame(Frame& fr){ for(auto o:fr.allocas) dropObj(o); }
static void gotoBB(Frame& fr,int b){ 
  int from=fr.bb; CBB& cb=fr.f->bbs[b]; 
  if(!cb.phis.empty()){ Val tmp[64]; std::vector<Val> big; Val* t=tmp; if(cb.phis.size()>64){ big.resize(cb.phis.size()); t=big.data(); } size_t i=0; for(auto& p:cb.phis){ for(auto& e:p.in) if(e.first==from){ t[i]=get(fr,e.second); break; } i++; } i=0; for(auto& p:cb.phis) fr.r[p.dst]=t[i++]; }
  fr.prev=from; fr.bb=b; fr.pc=0; }
// return value v from the current function
static void doReturn(const Val& v){
  leaveFrame(T->st.back()); T->st.pop_back();
  if(T->st.empty()){ T->retval=v; T->stat=T_DONE; threadFinished(T); return; }
  Frame& fr=T->st.back(); Ins& x=fr.f->bbs[fr.bb].ins[fr.pc]; if(x.dst>=0) fr.r[x.dst]=v; if(x.opc==Instruction::Invoke) gotoBB(fr,x.t0); else fr.pc++; }
// ---- exceptions
static std::string tiName(u64 ti){ Obj* o=findObj(ti); return o?o->name:"?"; }
static const std::map<std::string,std::vector<std::string>> stdBases={{"_ZTISt13runtime_error",{"_ZTISt9exception"}},{"_ZTISt11logic_error",{"_ZTISt9exception"}},{"_ZTISt12out_of_range",{"_ZTISt11logic_error"}},{"_ZTISt16invalid_argument",{"_ZTISt11logic_error"}},{"_ZTISt12length_error",{"_ZTISt11logic_error"}},{"_ZTISt12domain_error",{"_ZTISt11logic_error"}},{"_ZTISt9bad_alloc",{"_ZTISt9exception"}},{"_ZTISt8bad_cast",{"_ZTISt9exception"}},{"_ZTISt14overflow_error",{"_ZTISt13runtime_error"}},{"_ZTISt15underflow_error",{"_ZTISt13runtime_error"}},{"_ZTISt11range_error",{"_ZTISt13runtime_error"}}};
static bool derives(u64 ti,u64 target,int d=0){
  if(ti==target) return true; if(d>8) return false; std::string n=tiName(ti); if(n==tiName(target)) return true;
  auto it=stdBases.find(n); if(it!=stdBases.end()){ for(auto& b:it->second){ if(b==tiName(target)) return true; auto it2=stdBases.find(b); if(it2!=stdBases.end()) for(auto& c:it2->second){ if(c==tiName(target)) return true; auto it3=stdBases.find(c); if(it3!=stdBases.end()) for(auto&e:it3->second) if(e==tiName(target)) return true; } } return false; }
  GlobalVariable* g=M->getGlobalVariable(n,true); if(!g||!g->hasInitializer()) return false; auto* st=g->getInitializer();
  // __class_type_info {vt,name}; __si {vt,name,base}; __vmi {vt,name,flags,count,{base,off}...}
  unsigned nop=st->getNumOperands(); if(nop==3) return derives(evalConst(cast<Constant>(st->getOperand(2))).c,target,d+1);
  if(nop>4) for(unsigned i=4;i<nop;i+=2) if(derives(evalConst(cast<Constant>(st->getOperand(i))).c,target,d+1)) return true; return false; }
bool derivesX(u64 a,u64 b){ return derives(a,b); }
int tiSelector(u64 ti){ static std::map<u64,int> m; auto it=m.find(ti); if(it!=m.end()) return it->second; int n=m.size()+1; m[ti]=n; return n; }
void throwExc(u64 obj,u64 ti){
  // search handler
  while(!T->st.empty()){
    Frame& fr=T->st.back(); Ins* x= fr.pc<fr.f->bbs[fr.bb].ins.size()?&fr.f->bbs[fr.bb].ins[fr.pc]:nullptr;
    if(x&&x->opc==Instruction::Invoke&&x->unwind>=0){
      int ub=x->unwind; const LandingPadInst* lp=fr.f->bbs[ub].bb->getLandingPadInst(); int sel=0; bool land=lp->isCleanup();
      for(unsigned i=0;i<lp->getNumClauses()&&!sel;i++){ if(lp->isCatch(i)){ u64 c=evalConst(lp->getClause(i)).c; if(c==0||derives(ti,c)){ sel=tiSelector(c); land=true; } } else { auto* arr=dyn_cast<ConstantArray>(lp->getClause(i)); bool ok=false; if(arr) for(auto& o:arr->operands()) if(derives(ti,evalConst(cast<Constant>(o)).c)) ok=true; if(!ok){ sel=-1; land=true; } } }
      if(land){ gotoBB(fr,ub); Ins& li=fr.f->bbs[ub].ins[0]; fr.r[li.dst]=mkAgg({Val(obj),Val((u32)sel)}); fr.pc=1; return; } }
    leaveFrame(fr); T->st.pop_back(); }
  violation("uncaught","uncaught exception "+tiName(ti)); }
static void execCall(Frame& fr,Ins& x){
  Call c; c.ins=&x; c.CB=cast<CallBase>(x.I); size_t n=c.CB->arg_size(); c.a.resize(n); for(size_t i=0;i<n;i++) c.a[i]=get(fr,x.ops[i]);
  Function* F=x.callee;
  if(!F){ if(c.CB->isInlineAsm()){ fr.pc++; return; } Val fp=get(fr,x.ops[n]); u64 a=concretize(fp,64,"function pointer"); auto it=g_fnAt.find(a); if(it==g_fnAt.end()) violation("memory","call through bad function pointer"); F=it->second; }
  for(size_t i=0;i<n;i++) if(c.CB->isByValArgument(i)){ u64 sz=DL->getTypeAllocSize(c.CB->getParamByValType(i)); Obj* o=newObj(sz,K_STACK,false,"byval"); memCopy(o->base,concretize(c.a[i],64,"byval"),sz); c.a[i]=Val(o->base); fr.allocas.push_back(o); }
  bool decl=F->isDeclaration(); 
  if(decl||overridden(F->getName())){
    Model m=lookupModel(F->getName());
    if(!m) endPath(END_INCOMPLETE,"no model for external function "+F->getName().str());
    size_t depth=T->st.size(); MRes r=m(c);
    if(r==M_DONE){ Frame& f2=T->st.back(); if(x.dst>=0) f2.r[x.dst]=c.ret; if(x.opc==Instruction::Invoke) gotoBB(f2,x.t0); else f2.pc++; }
    (void)depth; return; }
  enterFn(F,c.a); }

u64 g_inst=0,g_acct=0; extern std::unordered_map<const Metadata*,int> g_subIdx;
static void coverBlock(const BasicBlock* bb){ auto mark=[](const DISubprogram* sp){ auto it=g_subIdx.find(sp); if(it!=g_subIdx.end()&&it->second<MAXFN) S->fn[it->second].store(1,std::memory_order_relaxed); };
  if(auto* sp=bb->getParent()->getSubprogram()) mark(sp); for(auto& I:*bb) for(const DILocation* l=I.getDebugLoc().get();l;l=l->getInlinedAt()) if(auto* sp=l->getScope()->getSubprogram()) mark(sp);
  static const char* lf=getenv("VP_LINES"); if(lf){ std::set<std::string> s; for(auto& I:*bb) for(const DILocation* l=I.getDebugLoc().get();l;l=l->getInlinedAt()) if(l->getLine()) s.insert((l->getScope()->getFilename()+":"+Twine(l->getLine())+"\n").str());
    std::string o; for(auto& x:s) o+=x; static int fd=open(lf,O_WRONLY|O_CREAT|O_APPEND,0644); if(write(fd,o.data(),o.size())<0){} } }
void run(){
  while(true){
    if(T->stat!=T_RUN){ // finished or blocked
      if(T->stat==T_DONE && T->id==0) return; schedule(true); continue; }
    Frame& fr=T->st.back(); CBB& cb=fr.f->bbs[fr.bb]; Ins& x=cb.ins[fr.pc];
    if(fr.pc==0&&!cb.seen){ cb.seen=true; coverBlock(cb.bb); }
    if(((++g_inst)&0xfff)==0){ S->insts+=g_inst-g_acct; g_acct=g_inst; if(S->stop.load()) endPath(END_STOP); if(g_inst>O.maxinst) endPath(END_INCOMPLETE,"instruction limit"); }
    switch(x.opc){
      case Instruction::Ret: { Val v; if(!x.ops.empty()) v=get(fr,x.ops[0]); doReturn(v); break; }
      case Instruction::Br: if(x.t1<0) gotoBB(fr,x.t0); else { Val c=get(fr,x.ops[0]); bool b=c.e?decide(asBool(c)):(c.c&1); Frame& f2=T->st.back(); gotoBB(f2,b?x.t0:x.t1); } break;
      case Instruction::Switch: { Val c=get(fr,x.ops[0]); u64 v=concretize(c,x.bits2,"switch"); int t=x.t0; for(auto& k:x.cases) if(k.first==v){ t=k.second; break; } gotoBB(fr,t); break; }
      case Instruction::Unreachable: violation("unreachable","reached unreachable code");
      case Instruction::Call: case Instruction::Invoke: execCall(fr,x); break;
      case Instruction::Resume: { Val v=get(fr,x.ops[0]); u64 o=(*v.a)[0].c; Obj* eo=findObj(o); u64 ti=eo?eo->cookie:0; leaveFrame(fr); T->st.pop_back(); throwExc(o,ti); break; }
      case Instruction::LandingPad: fr.pc++; break;
      case Instruction::Alloca: { auto* al=cast<AllocaInst>(x.I); u64 n=DL->getTypeAllocSize(al->getAllocatedType()); if(al->isArrayAllocation()) n*=concretize(get(fr,x.ops[0]),x.bits2,"alloca"); Obj* o=newObj(n,K_STACK,false,"stack:"+fr.f->F->getName().str()); fr.allocas.push_back(o); fr.r[x.dst]=Val(o->base); fr.pc++; break; }
      case Instruction::Load: { if(x.vol&&!T->held&&yieldPoint()) break; u64 a=concretize(get(fr,x.ops[0]),64,"load address"); if(x.sync){ g_sync=true; if(x.atom) syncAccess(a,true,false); } fr.r[x.dst]=loadVal(x.I->getType(),a); g_sync=false; fr.pc++; break; }
      case Instruction::Store: { if(x.vol&&!T->held&&yieldPoint()) break; u64 a=concretize(get(fr,x.ops[1]),64,"store address"); if(x.sync){ g_sync=true; if(x.atom) syncAccess(a,false,true); } storeVal(cast<StoreInst>(x.I)->getValueOperand()->getType(),a,get(fr,x.ops[0])); g_sync=false; fr.pc++; break; }
      case Instruction::GetElementPtr: { Val b=get(fr,x.ops[0]); if(!b.e){ u64 r=b.c+x.imm; bool sym=false; for(auto& g:x.gep){ Val i=get(fr,x.ops[g.first]); if(i.e){ sym=true; break; } unsigned w=widthOf(x.I->getOperand(g.first)->getType()); r+=(u64)(sx(i.c,w)*g.second); } if(!sym){ fr.r[x.dst]=Val(r); fr.pc++; break; } }
        Z3_ast r=Z3_mk_bvadd(Z,asBV(b,64),zbv(x.imm,64)); for(auto& g:x.gep){ Val i=get(fr,x.ops[g.first]); unsigned w=widthOf(x.I->getOperand(g.first)->getType()); Z3_ast ie=asBV(i,w); if(w<64) ie=Z3_mk_sign_ext(Z,64-w,ie); r=Z3_mk_bvadd(Z,r,Z3_mk_bvmul(Z,ie,zbv(g.second,64))); } fr.r[x.dst]=fromBV(r,64); fr.pc++; break; }
      case Instruction::ICmp: { auto p=cast<ICmpInst>(x.I)->getPredicate(); Val a=get(fr,x.ops[0]),b=get(fr,x.ops[1]); if(a.a){ std::vector<Val> v; unsigned w=widthOf(cast<VectorType>(x.I->getOperand(0)->getType())->getElementType()); for(size_t i=0;i<a.a->size();i++) v.push_back(icmp(p,(*a.a)[i],(*b.a)[i],w)); fr.r[x.dst]=mkAgg(v);} else fr.r[x.dst]=icmp(p,a,b,x.bits2); fr.pc++; break; }
      case Instruction::FCmp: fr.r[x.dst]=fcmp(cast<FCmpInst>(x.I)->getPredicate(),get(fr,x.ops[0]),get(fr,x.ops[1]),x.isFloat); fr.pc++; break;
      case Instruction::Select: { Val r=selectV(get(fr,x.ops[0]),get(fr,x.ops[1]),get(fr,x.ops[2]),x.I->getType()); fr.r[x.dst]=r; fr.pc++; break; }
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: { Val a=get(fr,x.ops[0]),b=get(fr,x.ops[1]); if(a.a){ std::vector<Val> v; bool f=cast<VectorType>(x.I->getType())->getElementType()->isFloatTy(); for(size_t i=0;i<a.a->size();i++) v.push_back(fbin(x.opc,(*a.a)[i],(*b.a)[i],f)); fr.r[x.dst]=mkAgg(v);} else fr.r[x.dst]=fbin(x.opc,a,b,x.isFloat); fr.pc++; break; }
      case Instruction::FNeg: { Val a=get(fr,x.ops[0]); fr.r[x.dst]= a.e? mkE(Z3_mk_unary_minus(Z,asReal(a,x.isFloat))) : fromD(-dbl(a.c,x.isFloat),x.isFloat); fr.pc++; break; }
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor:
        { Val a=get(fr,x.ops[0]),b=get(fr,x.ops[1]); if(a.a){ std::vector<Val> v; unsigned w=widthOf(cast<VectorType>(x.I->getType())->getElementType()); for(size_t i=0;i<a.a->size();i++) v.push_back(ibin(x.opc,(*a.a)[i],(*b.a)[i],w)); fr.r[x.dst]=mkAgg(v);} else { Val r=ibin(x.opc,a,b,x.bits); T->st.back().r[x.dst]=r; } T->st.back().pc++; break; }
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::Freeze:
        { Val v=get(fr,x.ops[0]); if(v.a&&x.opc!=Instruction::Freeze) endPath(END_INCOMPLETE,"vector cast"); Val r=x.opc==Instruction::Freeze?v:castV(x,v); fr.r[x.dst]=r; fr.pc++; break; }
      case Instruction::ExtractValue: { Val v=get(fr,x.ops[0]); for(unsigned i:cast<ExtractValueInst>(x.I)->indices()){ Val t=(*v.a)[i]; v=t; } fr.r[x.dst]=v; fr.pc++; break; }
      case Instruction::InsertValue: { Val v=get(fr,x.ops[0]); Val e=get(fr,x.ops[1]); auto idx=cast<InsertValueInst>(x.I)->getIndices(); std::function<Val(Val,unsigned)> ins=[&](Val a,unsigned k)->Val{ if(k==idx.size()) return e; std::vector<Val> n=*a.a; n[idx[k]]=ins(n[idx[k]],k+1); return mkAgg(n); }; fr.r[x.dst]=ins(v,0); fr.pc++; break; }
      case Instruction::ExtractElement: { Val v=get(fr,x.ops[0]); fr.r[x.dst]=(*v.a)[concretize(get(fr,x.ops[1]),widthOf(x.I->getOperand(1)->getType()),"extractelement")]; fr.pc++; break; }
      case Instruction::InsertElement: { Val v=get(fr,x.ops[0]); std::vector<Val> n=*v.a; n[concretize(get(fr,x.ops[2]),widthOf(x.I->getOperand(2)->getType()),"insertelement")]=get(fr,x.ops[1]); fr.r[x.dst]=mkAgg(n); fr.pc++; break; }
      case Instruction::ShuffleVector: { Val a=get(fr,x.ops[0]),b=get(fr,x.ops[1]); auto mk=cast<ShuffleVectorInst>(x.I)->getShuffleMask(); std::vector<Val> n; int la=a.a->size(); for(int m:mk) n.push_back(m<0?Val(0):m<la?(*a.a)[m]:(*b.a)[m-la]); fr.r[x.dst]=mkAgg(n); fr.pc++; break; }
      case Instruction::AtomicRMW: { auto* rm=cast<AtomicRMWInst>(x.I); u64 a=concretize(get(fr,x.ops[0]),64,"atomicrmw"); syncAccess(a,true,true); g_sync=true; Type* t=rm->getType(); Val o=loadVal(t,a),v=get(fr,x.ops[1]),n; unsigned w=widthOf(t); switch(rm->getOperation()){ case AtomicRMWInst::Add:n=ibin(Instruction::Add,o,v,w);break; case AtomicRMWInst::Sub:n=ibin(Instruction::Sub,o,v,w);break; case AtomicRMWInst::Xchg:n=v;break; case AtomicRMWInst::And:n=ibin(Instruction::And,o,v,w);break; case AtomicRMWInst::Or:n=ibin(Instruction::Or,o,v,w);break; default: endPath(END_INCOMPLETE,"atomicrmw"); } storeVal(t,a,n); g_sync=false; fr.r[x.dst]=o; fr.pc++; break; }
      case Instruction::AtomicCmpXchg: { auto* cx=cast<AtomicCmpXchgInst>(x.I); u64 a=concretize(get(fr,x.ops[0]),64,"cmpxchg"); syncAccess(a,true,true); g_sync=true; Type* t=cx->getCompareOperand()->getType(); Val o=loadVal(t,a); unsigned w=widthOf(t); Val e=icmp(CmpInst::ICMP_EQ,o,get(fr,x.ops[1]),w); bool b=e.e?decide(asBool(e)):e.c; if(b) storeVal(t,a,get(fr,x.ops[2])); g_sync=false; fr.r[x.dst]=mkAgg({o,Val(b)}); fr.pc++; break; }
      case Instruction::Fence: fr.pc++; break;
      default: endPath(END_INCOMPLETE,std::string("unsupported instruction ")+x.I->getOpcodeName());
    }
  } }
// ---------------------------------------------------------------- threads
int g_preempts=0; std::vector<std::pair<u64,u64>> g_watch;
void vcJoin(std::vector<u32>& a,const std::vector<u32>& b){ if(a.size()<b.size()) a.resize(b.size(),0); for(size_t i=0;i<b.size();i++) if(b[i]>a[i]) a[i]=b[i]; }
static std::string thrStat(){ std::string s; for(auto t:g_thr){ s+=" t"+std::to_string(t->id)+":"+std::to_string(t->stat); } return s; }
void schedule(bool curBlocked){
  if(g_thr.size()==1&&!curBlocked) return;
  std::vector<int> r; int n=g_thr.size(); for(int k=1;k<=n;k++){ Thread* t=g_thr[(T->id+k)%n]; if(t->stat==T_RUN && (t!=T||curBlocked)) r.push_back(t->id); }
  S->schedpts++;
  if(curBlocked&&r.empty()){ for(auto t:g_thr) if(t->stat==T_COND&&t->timed){ timeOut(t); T=t; return; } // only time can pass
    for(auto t:g_thr) if(t->stat==T_BLOCK){ t->stat=T_RUN; t->settled=true; T=t; return; } violation("deadlock","all threads are blocked:"+thrStat()); }
  int pick;
  if(!curBlocked){ // the current thread may continue; a switch costs one preemption
    std::vector<int> o; o.push_back(T->id); if(g_preempts<O.preempt) for(int i:r) o.push_back(i);
    int k=o.size()==1?0:chooseFork(o.size(),"sched",0,false); pick=o[k]; if(k) g_preempts++;
  } else if(O.blockcost){ int k=r.size()==1||g_preempts>=O.preempt?0:chooseFork(r.size(),"sched",0,false); if(k) g_preempts++; pick=r[k]; }
  else pick=r[r.size()==1?0:chooseFork(r.size(),"sched",0,false)];
  Input in; in.name="sched"; in.kind='s'; in.e=nullptr; in.conc=pick; in.bits=32; if(g_thr.size()>1) g_inputs.push_back(in);
  T=g_thr[pick]; }
bool yieldPoint(){ if(g_thr.size()<2) return false; if(T->skipYield){ T->skipYield=false; return false; } Thread* me=T; schedule(false); if(T!=me){ me->skipYield=true; return true; } return false; }
// vector-clock race detection on watched objects (8-byte granules)
struct RaceInfo { int wt=-1; u32 wc=0; u8 wm=0; std::map<int,std::pair<u32,u8>> rd; };
static std::unordered_map<u64,RaceInfo> races; bool g_watchAll=false, g_sync=false; static std::unordered_map<u64,std::vector<u32>> syncVC;
// an atomic access orders threads instead of racing
void syncAccess(u64 a,bool acq,bool rel){ auto& v=syncVC[a]; if(acq) vcJoin(T->vc,v); if(rel){ vcJoin(v,T->vc); if(T->vc.size()<=(size_t)T->id) T->vc.resize(T->id+1,0); T->vc[T->id]++; } }
void raceAccess(Obj* o,u64 off,u64 n,bool w){
  if(g_sync||!n) return; if(g_thr.size()<2&&!o->watch) return;
  u32 my=T->vc.size()>(size_t)T->id?T->vc[T->id]:0; auto sees=[&](int t,u32 c){ return t==T->id || ((size_t)t<T->vc.size() && T->vc[t]>=c); }; u64 a=o->base+off;
  for(u64 g=a/8; g<=(a+n-1)/8; g++){ RaceInfo& ri=races[g]; u64 lo=g*8<a?a-g*8:0, hi=g*8+8>a+n?a+n-g*8:8; u8 m=(u8)(((1u<<hi)-1)&~((1u<<lo)-1));
    if(ri.wt>=0 && (ri.wm&m) && !sees(ri.wt,ri.wc)) violation("race","unsynchronised accesses to "+o->name+" offset "+std::to_string(off)+" by threads "+std::to_string(ri.wt)+" and "+std::to_string(T->id));
    if(w){ for(auto& p:ri.rd) if((p.second.second&m)&&!sees(p.first,p.second.first)) violation("race","unsynchronised read and write of "+o->name+" offset "+std::to_string(off)+" by threads "+std::to_string(p.first)+" and "+std::to_string(T->id)); ri.wt=T->id; ri.wc=my; ri.wm=m; ri.rd.clear(); }
    else { auto& r=ri.rd[T->id]; r.second=r.first==my?r.second|m:m; r.first=my; } } }
