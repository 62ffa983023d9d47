// LLVM-18 pass: instruments compiled code so that it carries, next to every concrete
// value, the id of a symbolic expression (0 = concrete).  See DESIGN.md, "Engine".
#include "llvm/IR/Function.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/MDBuilder.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/LowerSwitch.h"
#include "llvm/Transforms/Scalar/Scalarizer.h"
#include "llvm/Transforms/Scalar/LowerAtomicPass.h"
#include "llvm/Transforms/Utils/Local.h"
#include <map>
#include <set>
#include <vector>
using namespace llvm;

namespace {
const uint64_t FLAGS_BASE = 0x100000000000ULL;

typedef SmallVector<Value*, 2> Leaves;

struct FnInstr {
  Function& F; Module& M; LLVMContext& C; const DataLayout& DL;
  Type *I1,*I8,*I32,*I64,*Ptr,*Dbl,*VoidTy;
  Value* Z;
  std::map<Value*, Leaves> sh;
  std::set<Value*> maybe;
  GlobalVariable *GArgs,*GMark,*GRet,*GRetMark;
  MDNode* Unlikely;

  FnInstr(Function& f): F(f), M(*f.getParent()), C(f.getContext()), DL(M.getDataLayout()) {
    I1=Type::getInt1Ty(C); I8=Type::getInt8Ty(C); I32=Type::getInt32Ty(C); I64=Type::getInt64Ty(C);
    Ptr=PointerType::getUnqual(C); Dbl=Type::getDoubleTy(C); VoidTy=Type::getVoidTy(C);
    Z=ConstantInt::get(I32,0);
    GArgs=glob("__sym_args",ArrayType::get(I32,256));
    GMark=glob("__sym_mark",Ptr);
    GRet=glob("__sym_ret",ArrayType::get(I32,16));
    GRetMark=glob("__sym_retmark",Ptr);
    Unlikely=MDBuilder(C).createBranchWeights(1,2000);
  }
  GlobalVariable* glob(StringRef n, Type* t){
    if(auto* g=M.getGlobalVariable(n)) return g;
    auto* g=new GlobalVariable(M,t,false,GlobalValue::ExternalLinkage,nullptr,n);
    g->setDSOLocal(true);
    return g;
  }
  FunctionCallee fn(StringRef n, Type* r, ArrayRef<Type*> a){
    AttributeList AL; AL=AL.addFnAttribute(C,Attribute::NoUnwind);
    return M.getOrInsertFunction(n, FunctionType::get(r,a,false), AL);
  }
  static bool scalar(Type* t){
    if(auto* it=dyn_cast<IntegerType>(t)) return it->getBitWidth()<=64;
    return t->isDoubleTy()||t->isFloatTy();
  }
  // number of shadow leaves of a type (pointers and odd types have a leaf that is always 0)
  static unsigned nleaves(Type* t){
    if(auto* st=dyn_cast<StructType>(t)){ unsigned n=0; for(Type* e: st->elements()) n+=nleaves(e); return n; }
    if(auto* at=dyn_cast<ArrayType>(t)){ return at->getNumElements()*nleaves(at->getElementType()); }
    if(auto* vt=dyn_cast<FixedVectorType>(t)) return vt->getNumElements();
    return 1;
  }
  static bool anyScalar(Type* t){
    if(auto* st=dyn_cast<StructType>(t)){ for(Type* e: st->elements()) if(anyScalar(e)) return true; return false; }
    if(auto* at=dyn_cast<ArrayType>(t)) return anyScalar(at->getElementType());
    if(auto* vt=dyn_cast<FixedVectorType>(t)) return scalar(vt->getElementType());
    return scalar(t);
  }
  static void leafTypes(Type* t, uint64_t off, const DataLayout& DL, std::vector<std::pair<Type*,uint64_t>>& out){
    if(auto* st=dyn_cast<StructType>(t)){ const StructLayout* L=DL.getStructLayout(st);
      for(unsigned i=0;i<st->getNumElements();i++) leafTypes(st->getElementType(i),off+L->getElementOffset(i),DL,out); return; }
    if(auto* at=dyn_cast<ArrayType>(t)){ uint64_t s=DL.getTypeAllocSize(at->getElementType());
      for(unsigned i=0;i<at->getNumElements();i++) leafTypes(at->getElementType(),off+i*s,DL,out); return; }
    if(auto* vt=dyn_cast<FixedVectorType>(t)){ uint64_t s=DL.getTypeStoreSize(vt->getElementType());
      for(unsigned i=0;i<vt->getNumElements();i++) out.push_back({vt->getElementType(),off+i*s}); return; }
    out.push_back({t,off});
  }
  Leaves zeros(Type* t){ Leaves l; unsigned n=nleaves(t); for(unsigned i=0;i<n;i++) l.push_back(Z); return l; }
  Leaves get(Value* v){
    if(!maybe.count(v)) return zeros(v->getType());
    auto it=sh.find(v);
    if(it==sh.end()){ return zeros(v->getType()); }
    return it->second;
  }
  Value* get1(Value* v){ return get(v)[0]; }
  static bool isZero(Value* v){ auto* c=dyn_cast<ConstantInt>(v); return c&&c->isZero(); }
  Value* nz(IRBuilder<>& B, ArrayRef<Value*> ids){
    Value* o=nullptr;
    for(Value* v: ids) if(!isZero(v)) o = o? B.CreateOr(o,v):v;
    if(!o) return nullptr;
    return B.CreateICmpNE(o,Z);
  }
  Value* bits(IRBuilder<>& B, Value* v){
    Type* t=v->getType();
    if(t->isDoubleTy()) return B.CreateBitCast(v,I64);
    if(t->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v,I32),I64);
    if(t->isPointerTy()) return B.CreatePtrToInt(v,I64);
    if(t->isIntegerTy(64)) return v;
    if(t->isIntegerTy()&&t->getIntegerBitWidth()<64) return B.CreateZExt(v,I64);
    return ConstantInt::get(I64,0);
  }
  static unsigned tbits(Type* t){ if(t->isDoubleTy()) return 64; if(t->isFloatTy()) return 32; if(t->isIntegerTy()) return t->getIntegerBitWidth(); return 64; }
  // type code: bits | 0x100 for floating point
  static unsigned tcode(Type* t){ return tbits(t) | ((t->isDoubleTy()||t->isFloatTy())?0x100:0); }
  Value* c32(unsigned v){ return ConstantInt::get(I32,v); }

  // emits: cond? (id = make(B)) : 0 just before ip ; returns phi
  template<class FnT> Value* guarded(Value* cond, Instruction* ip, FnT make){
    Instruction* T=SplitBlockAndInsertIfThen(cond, ip, false, Unlikely);
    BasicBlock* pre=T->getParent()->getSinglePredecessor();
    IRBuilder<> B(T);
    Value* id=make(B);
    if(!id) return nullptr;
    PHINode* P=PHINode::Create(I32,2,"",&ip->getParent()->front());
    P->addIncoming(id,T->getParent());
    P->addIncoming(Z,pre);
    return P;
  }
  static bool usable(Type* t){ return anyScalar(t); }

  static bool isOutputFn(StringRef n){
    return n.starts_with("_ZNSo")||n.starts_with("_ZSt16__ostream_insert")||n.starts_with("_ZStls")||
           n=="printf"||n=="fprintf"||n=="puts"||n=="putchar"||n=="fputc"||n=="fwrite"||n=="snprintf"||n=="sprintf"||n=="vsnprintf"||
           n.starts_with("_ZNSt9basic_ios")||n.starts_with("_ZNSt8ios_base");
  }
  static bool isSink(CallBase* cb){
    if(Function* f=cb->getCalledFunction()){
      StringRef n=f->getName();
      if(n.starts_with("__sym_")) return true;
      if(n.starts_with("__cxa_")) return true;
    }
    return false;
  }
  enum { U_FABS=1,U_FLOOR,U_CEIL,U_TRUNC,U_IABS };
  static int unaryFn(CallBase* cb){
    if(auto* ii=dyn_cast<IntrinsicInst>(cb)){
      switch(ii->getIntrinsicID()){
        case Intrinsic::fabs: return U_FABS; case Intrinsic::floor: return U_FLOOR;
        case Intrinsic::ceil: return U_CEIL; case Intrinsic::trunc: return U_TRUNC;
        case Intrinsic::abs: return U_IABS; default: return 0; }
    }
    if(Function* f=cb->getCalledFunction()){ StringRef n=f->getName();
      if(n=="floor"||n=="floorf") return U_FLOOR; if(n=="ceil"||n=="ceilf") return U_CEIL;
      if(n=="trunc"||n=="truncf") return U_TRUNC; if(n=="fabs"||n=="fabsf") return U_FABS;
    }
    return 0;
  }
  enum { B_SMIN=100,B_SMAX,B_UMIN,B_UMAX,B_FMIN,B_FMAX };
  static int binFn(CallBase* cb){
    if(auto* ii=dyn_cast<IntrinsicInst>(cb)){
      switch(ii->getIntrinsicID()){
        case Intrinsic::smin: return B_SMIN; case Intrinsic::smax: return B_SMAX;
        case Intrinsic::umin: return B_UMIN; case Intrinsic::umax: return B_UMAX;
        case Intrinsic::minnum: return B_FMIN; case Intrinsic::maxnum: return B_FMAX; default: return 0; }
    }
    if(Function* f=cb->getCalledFunction()){ StringRef n=f->getName();
      if(n=="fmin") return B_FMIN; if(n=="fmax") return B_FMAX; }
    return 0;
  }

  bool source(Instruction* I){
    if(!usable(I->getType())) return false;
    if(auto* L=dyn_cast<LoadInst>(I)){
      if(auto* G=dyn_cast<GlobalVariable>(L->getPointerOperand()->stripInBoundsConstantOffsets())) if(G->isConstant()) return false;
      return true; }
    if(auto* cb=dyn_cast<CallBase>(I)){
      if(isSink(cb)||cb->isInlineAsm()) return false;
      if(isa<IntrinsicInst>(cb)) return false;
      if(unaryFn(cb)||binFn(cb)) return false;
      return true; }
    return false;
  }
  bool transfers(Instruction* I){
    if(!usable(I->getType())) return false;
    if(isa<BinaryOperator>(I)||isa<CmpInst>(I)||isa<PHINode>(I)||isa<SelectInst>(I)||isa<ExtractValueInst>(I)||isa<InsertValueInst>(I)||isa<FreezeInst>(I)||isa<UnaryOperator>(I)) return true;
    if(auto* ci=dyn_cast<CastInst>(I)) return !isa<PtrToIntInst>(ci);
    if(auto* cb=dyn_cast<CallBase>(I)){ if(unaryFn(cb)||binFn(cb)) return true; }
    return false;
  }
  void analyse(){
    std::vector<Value*> wl;
    for(Argument& a: F.args()) if(usable(a.getType())&&!F.isVarArg()) { maybe.insert(&a); wl.push_back(&a); }
    for(auto& BB: F) for(auto& I: BB) if(source(&I)) { maybe.insert(&I); wl.push_back(&I); }
    while(!wl.empty()){ Value* v=wl.back(); wl.pop_back();
      for(User* u: v->users()) if(auto* I=dyn_cast<Instruction>(u)) if(transfers(I)&&!maybe.count(I)){ maybe.insert(I); wl.push_back(I); } }
  }

  Value* flagAt(IRBuilder<>& B, Value* p, uint64_t extra=0){
    Value* a=B.CreatePtrToInt(p,I64);
    if(extra) a=B.CreateAdd(a,ConstantInt::get(I64,extra));
    a=B.CreateLShr(a,6);
    a=B.CreateAdd(a,ConstantInt::get(I64,FLAGS_BASE));
    return B.CreateLoad(I8,B.CreateIntToPtr(a,Ptr));
  }
  Value* flagCond(IRBuilder<>& B, Value* p, uint64_t size, uint64_t align){
    Value* f=flagAt(B,p);
    if(align<size && size>1){
      if(size<=64) f=B.CreateOr(f,flagAt(B,p,size-1));
      else for(uint64_t o=64;o<size+63;o+=64) f=B.CreateOr(f,flagAt(B,p,std::min(o,size-1)));
    } else if(size>64){ for(uint64_t o=64;o<size+63;o+=64) f=B.CreateOr(f,flagAt(B,p,std::min(o,size-1))); }
    return B.CreateICmpNE(f,ConstantInt::get(I8,0));
  }

  void concretise(Value* v, Instruction* ip){
    if(!maybe.count(v)||!v->getType()->isIntegerTy()) return;
    Value* s=get1(v); if(isZero(s)) return;
    IRBuilder<> B(ip);
    Value* c=nz(B,{s});
    guarded(c,ip,[&](IRBuilder<>& B)->Value*{ B.CreateCall(fn("__sym_conc",VoidTy,{I32}),{s}); return nullptr; });
  }

  void doCall(CallBase* cb){
    if(cb->isInlineAsm()) return;
    Function* cf=cb->getCalledFunction();
    if(auto* mt=dyn_cast<AnyMemTransferInst>(cb)){
      concretise(mt->getLength(),cb);
      IRBuilder<> B(cb);
      // before the copy: the runtime moves the shadows
      B.CreateCall(fn("__sym_memcpy",VoidTy,{Ptr,Ptr,I64}),{mt->getRawDest(),mt->getRawSource(),B.CreateZExtOrTrunc(mt->getLength(),I64)});
      return;
    }
    if(auto* ms=dyn_cast<AnyMemSetInst>(cb)){
      concretise(ms->getLength(),cb);
      IRBuilder<> B(cb);
      B.CreateCall(fn("__sym_memset",VoidTy,{Ptr,I64,I32}),{ms->getRawDest(),B.CreateZExtOrTrunc(ms->getLength(),I64),get1(ms->getValue())});
      return;
    }
    int u=unaryFn(cb), b=binFn(cb);
    if(u||b){
      Type* t=cb->getType();
      Value* r=cb;
      if(auto* inv=dyn_cast<InvokeInst>(cb)) { (void)inv; return; }
      if(!scalar(t)) return;
      if(!maybe.count(cb)) return;
      Instruction* ip=cb->getNextNode();
      IRBuilder<> B(ip);
      Value* a=cb->getArgOperand(0);
      if(u){ Value* s=get1(a); Value* c=nz(B,{s}); if(!c){ sh[cb]=zeros(t); return; }
        Value* id=guarded(c,ip,[&](IRBuilder<>& B){ return B.CreateCall(fn("__sym_unary",I32,{I32,I32,I32,I64,I64}),{c32(u),c32(tcode(t)),s,bits(B,a),bits(B,r)}); });
        sh[cb]=Leaves{id}; return; }
      Value* bb=cb->getArgOperand(1);
      Value *s1=get1(a),*s2=get1(bb); Value* c=nz(B,{s1,s2}); if(!c){ sh[cb]=zeros(t); return; }
      Value* id=guarded(c,ip,[&](IRBuilder<>& B){ return B.CreateCall(fn("__sym_bin",I32,{I32,I32,I32,I32,I64,I64,I64}),{c32(b),c32(tcode(t)),s1,s2,bits(B,a),bits(B,bb),bits(B,r)}); });
      sh[cb]=Leaves{id}; return;
    }
    if(isa<IntrinsicInst>(cb)){
      auto* ii=cast<IntrinsicInst>(cb);
      switch(ii->getIntrinsicID()){
        case Intrinsic::lifetime_start: {
          auto* sz=dyn_cast<ConstantInt>(ii->getArgOperand(0));
          if(sz && sz->getSExtValue()>0){ IRBuilder<> B(cb);
            B.CreateCall(fn("__sym_clear",VoidTy,{Ptr,I64}),{ii->getArgOperand(1),sz}); }
          return; }
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::lifetime_end: case Intrinsic::assume:
        case Intrinsic::expect: case Intrinsic::eh_typeid_for: return;
        default: break;
      }
      // any other intrinsic with symbolic arguments: split on their values (sound, not scalable)
      if(ii->isLifetimeStartOrEnd()) return;
      for(Value* a: cb->args()) if(scalar(a->getType())&&maybe.count(a)){
        Value* s=get1(a); if(isZero(s)) continue; IRBuilder<> B(cb);
        guarded(nz(B,{s}),cb,[&](IRBuilder<>& B)->Value*{ B.CreateCall(fn("__sym_conc",VoidTy,{I32}),{s}); return nullptr; });
      }
      return;
    }
    if(isSink(cb)) return;
    StringRef nm= cf? cf->getName():StringRef();
    if(cf && isOutputFn(nm)) return;
    // memory readers outside instrumented code
    if(cf && nm=="_ZSt11_Hash_bytesPKvmm"){ IRBuilder<> B(cb);
      B.CreateCall(fn("__sym_concmem",VoidTy,{Ptr,I64}),{cb->getArgOperand(0),cb->getArgOperand(1)}); }
    Value* callee=cb->getCalledOperand();
    for(unsigned i=0;i<cb->arg_size();i++) if(cb->isByValArgument(i)){ IRBuilder<> B(cb);
      B.CreateCall(fn("__sym_byval_out",VoidTy,{Ptr,I64,I32,Ptr}),{cb->getArgOperand(i),ConstantInt::get(I64,DL.getTypeAllocSize(cb->getParamByValType(i))),c32(i),callee}); }
    // arguments
    std::vector<Value*> ids; bool any=false;
    for(Value* a: cb->args()){ if(!usable(a->getType())) continue; for(Value* s: get(a)){ ids.push_back(s); if(!isZero(s)) any=true; } }
    if(ids.size()>250) { any=false; }
    bool wantRet=maybe.count(cb)&&!cb->use_empty();
    if(!any&&!wantRet) return;
    IRBuilder<> B(cb);
    Value* anyC=nullptr;
    if(any){
      unsigned i=0;
      for(Value* s: ids) B.CreateStore(s,B.CreateConstInBoundsGEP2_32(GArgs->getValueType(),GArgs,0,i++));
      B.CreateStore(callee,GMark);
      anyC=nz(B,ids);
    }
    if(wantRet) B.CreateStore(ConstantPointerNull::get(cast<PointerType>(Ptr)),GRetMark);
    Instruction* ip;
    if(auto* inv=dyn_cast<InvokeInst>(cb)){
      BasicBlock* nb=inv->getNormalDest();
      ip=&*nb->getFirstInsertionPt();   // edges were split beforehand
    } else ip=cb->getNextNode();
    IRBuilder<> A(ip);
    if(wantRet){
      Leaves l; unsigned n=nleaves(cb->getType());
      Value* eq=A.CreateICmpEQ(A.CreateLoad(Ptr,GRetMark),callee);
      for(unsigned i=0;i<n&&i<16;i++){
        Value* v=A.CreateLoad(I32,A.CreateConstInBoundsGEP2_32(GRet->getValueType(),GRet,0,i));
        l.push_back(A.CreateSelect(eq,v,Z));
      }
      while(l.size()<n) l.push_back(Z);
      sh[cb]=l;
    }
    if(anyC){
      // was the callee instrumented?  If it did not take the shadows, pin the symbolic arguments.
      Value* un=A.CreateAnd(anyC,A.CreateICmpEQ(A.CreateLoad(Ptr,GMark),callee));
      std::vector<Value*> cap(ids);
      Instruction* cip=ip;
      guarded(un,cip,[&](IRBuilder<>& B)->Value*{
        for(Value* s: cap) if(!isZero(s)) B.CreateCall(fn("__sym_unconsumed",VoidTy,{I32,Ptr}),{s,callee});
        B.CreateStore(ConstantPointerNull::get(cast<PointerType>(Ptr)),GMark);
        return nullptr; });
    }
  }

  void run(){
    // make room on invoke edges
    std::vector<InvokeInst*> invs;
    for(auto& BB: F) if(auto* iv=dyn_cast<InvokeInst>(BB.getTerminator())) invs.push_back(iv);
    for(auto* iv: invs) if(!iv->getNormalDest()->getSinglePredecessor()||isa<PHINode>(iv->getNormalDest()->front())){
      BasicBlock* d=iv->getNormalDest(); BasicBlock* nb=BasicBlock::Create(C,"",&F,d);
      BranchInst::Create(d,nb); iv->setNormalDest(nb);
      d->replacePhiUsesWith(iv->getParent(),nb);
    }
    analyse();
    std::vector<Instruction*> work;
    for(auto& BB: F) for(auto& I: BB) work.push_back(&I);
    std::vector<PHINode*> phis;
    for(Instruction* I: work) if(auto* p=dyn_cast<PHINode>(I)) if(maybe.count(p)) phis.push_back(p);
    for(PHINode* p: phis){ Leaves l; unsigned n=nleaves(p->getType());
      for(unsigned i=0;i<n;i++) l.push_back(PHINode::Create(I32,p->getNumIncomingValues(),"",p));
      sh[p]=l; }
    // entry: fetch argument shadows
    {
      for(Argument& a: F.args()) if(a.hasByValAttr()){
        Instruction* ip=&*F.getEntryBlock().getFirstInsertionPt(); while(isa<AllocaInst>(ip)) ip=ip->getNextNode();
        IRBuilder<> B(ip); B.CreateCall(fn("__sym_byval_in",VoidTy,{Ptr,I64,I32,Ptr}),{&a,ConstantInt::get(I64,DL.getTypeAllocSize(a.getParamByValType())),c32(a.getArgNo()),&F}); }
      unsigned n=0; bool any=false;
      if(!F.isVarArg()) for(Argument& a: F.args()) if(usable(a.getType())){ n+=nleaves(a.getType()); any=true; }
      if(any&&n<=250){
        Instruction* ip=&*F.getEntryBlock().getFirstInsertionPt();
        while(isa<AllocaInst>(ip)) ip=ip->getNextNode();
        IRBuilder<> B(ip);
        Value* eq=B.CreateICmpEQ(B.CreateLoad(Ptr,GMark),&F);
        unsigned k=0;
        for(Argument& a: F.args()) if(usable(a.getType())){ Leaves l; unsigned m=nleaves(a.getType());
          for(unsigned i=0;i<m;i++,k++){
            if(a.use_empty()){ l.push_back(Z); continue; }
            Value* v=B.CreateLoad(I32,B.CreateConstInBoundsGEP2_32(GArgs->getValueType(),GArgs,0,k));
            l.push_back(B.CreateSelect(eq,v,Z)); }
          sh[&a]=l; }
        B.CreateStore(ConstantPointerNull::get(cast<PointerType>(Ptr)),GMark);
      }
    }
    // definitions dominate uses except through phis, but block order need not be topological:
    // process in reverse post order.
    std::vector<Instruction*> ordered;
    {
      std::set<BasicBlock*> seen; std::vector<BasicBlock*> po;
      std::vector<std::pair<BasicBlock*,unsigned>> st;
      std::set<Instruction*> ws(work.begin(),work.end());
      st.push_back({&F.getEntryBlock(),0}); seen.insert(&F.getEntryBlock());
      while(!st.empty()){ auto& top=st.back(); Instruction* t=top.first->getTerminator();
        if(top.second<t->getNumSuccessors()){ BasicBlock* s=t->getSuccessor(top.second++); if(seen.insert(s).second) st.push_back({s,0}); }
        else { po.push_back(top.first); st.pop_back(); } }
      for(auto it=po.rbegin();it!=po.rend();++it) for(auto& I: **it) if(ws.count(&I)) ordered.push_back(&I);
    }
    for(Instruction* I: ordered) visit(I);
    for(PHINode* p: phis){ Leaves& l=sh[p];
      for(unsigned k=0;k<p->getNumIncomingValues();k++){ Leaves in=get(p->getIncomingValue(k));
        for(unsigned i=0;i<l.size();i++) cast<PHINode>(l[i])->addIncoming(in[i],p->getIncomingBlock(k)); } }
  }

  void visit(Instruction* I){
    if(isa<PHINode>(I)) return;
    if(auto* a=dyn_cast<AllocaInst>(I)){
      if(a->isArrayAllocation()) concretise(a->getArraySize(),a);
      bool hasLT=false; for(User* u: a->users()) if(auto* ii=dyn_cast<IntrinsicInst>(u)) if(ii->getIntrinsicID()==Intrinsic::lifetime_start) hasLT=true;
      if(!hasLT && a->isStaticAlloca()){
        Instruction* ip=a->getNextNode(); while(isa<AllocaInst>(ip)) ip=ip->getNextNode();
        IRBuilder<> B(ip);
        B.CreateCall(fn("__sym_clear",VoidTy,{Ptr,I64}),{a,ConstantInt::get(I64,DL.getTypeAllocSize(a->getAllocatedType()))});
      }
      return;
    }
    if(auto* L=dyn_cast<LoadInst>(I)){
      Type* t=L->getType();
      if(!maybe.count(L)) return;
      std::vector<std::pair<Type*,uint64_t>> lt; leafTypes(t,0,DL,lt);
      Instruction* ip=L->getNextNode();
      IRBuilder<> B(ip);
      Value* c=flagCond(B,L->getPointerOperand(),DL.getTypeStoreSize(t),L->getAlign().value());
      if(lt.size()==1 && scalar(t)){
        Value* p=L->getPointerOperand();
        Value* id=guarded(c,ip,[&](IRBuilder<>& B){ return B.CreateCall(fn("__sym_load",I32,{Ptr,I32,I64}),{p,c32(tcode(t)),bits(B,L)}); });
        sh[L]=Leaves{id};
      } else {
        Instruction* T=SplitBlockAndInsertIfThen(c,ip,false,Unlikely);
        BasicBlock* pre=T->getParent()->getSinglePredecessor();
        IRBuilder<> B2(T);
        std::vector<Value*> ids;
        for(auto& e: lt){
          if(!scalar(e.first)){ ids.push_back(Z); continue; }
          Value* p=B2.CreateConstInBoundsGEP1_64(I8,L->getPointerOperand(),e.second);
          Value* cv=B2.CreateLoad(e.first,p);
          ids.push_back(B2.CreateCall(fn("__sym_load",I32,{Ptr,I32,I64}),{p,c32(tcode(e.first)),bits(B2,cv)}));
        }
        Leaves l;
        for(Value* id: ids){ PHINode* P=PHINode::Create(I32,2,"",&ip->getParent()->front()); P->addIncoming(id,T->getParent()); P->addIncoming(Z,pre); l.push_back(P); }
        sh[L]=l;
      }
      return;
    }
    if(auto* S=dyn_cast<StoreInst>(I)){
      Value* v=S->getValueOperand(); Type* t=v->getType();
      Leaves l=get(v);
      Instruction* ip=S->getNextNode();
      IRBuilder<> B(ip);
      Value* p=S->getPointerOperand();
      uint64_t size=DL.getTypeStoreSize(t);
      Value* c=flagCond(B,p,size,S->getAlign().value());
      Value* n=nz(B,l);
      if(n) c=B.CreateOr(c,n);
      std::vector<std::pair<Type*,uint64_t>> lt; leafTypes(t,0,DL,lt);
      guarded(c,ip,[&](IRBuilder<>& B)->Value*{
        if(lt.size()==1) B.CreateCall(fn("__sym_store",VoidTy,{Ptr,I32,I32}),{p,c32(scalar(t)?tcode(t):(unsigned)size|0x10000),l[0]});
        else for(unsigned i=0;i<lt.size();i++)
          B.CreateCall(fn("__sym_store",VoidTy,{Ptr,I32,I32}),{B.CreateConstInBoundsGEP1_64(I8,p,lt[i].second),c32(scalar(lt[i].first)?tcode(lt[i].first):(unsigned)DL.getTypeStoreSize(lt[i].first)|0x10000),l[i]});
        return nullptr; });
      return;
    }
    if(auto* br=dyn_cast<BranchInst>(I)){
      if(!br->isConditional()||!maybe.count(br->getCondition())) return;
      Value* s=get1(br->getCondition()); if(isZero(s)) return;
      IRBuilder<> B(br);
      Value* cond=br->getCondition();
      guarded(nz(B,{s}),br,[&](IRBuilder<>& B)->Value*{ B.CreateCall(fn("__sym_branch",VoidTy,{I32,I32}),{s,B.CreateZExt(cond,I32)}); return nullptr; });
      return;
    }
    if(auto* sw=dyn_cast<SwitchInst>(I)){ concretise(sw->getCondition(),sw); return; }
    if(auto* R=dyn_cast<ReturnInst>(I)){
      Value* v=R->getReturnValue();
      if(!v||!usable(v->getType())) return;
      if(CallInst* pc=dyn_cast_or_null<CallInst>(R->getPrevNode())) if(pc->isMustTailCall()) return;
      Leaves l=get(v);
      bool any=false; for(Value* s: l) if(!isZero(s)) any=true;
      if(!any||l.size()>16) return;
      IRBuilder<> B(R);
      for(unsigned i=0;i<l.size();i++) B.CreateStore(l[i],B.CreateConstInBoundsGEP2_32(GRet->getValueType(),GRet,0,i));
      B.CreateStore(&F,GRetMark);
      return;
    }
    if(auto* cb=dyn_cast<CallBase>(I)){
      if(auto* ci=dyn_cast<CallInst>(cb)) if(ci->isMustTailCall()) return;
      doCall(cb); return; }
    if(auto* g=dyn_cast<GetElementPtrInst>(I)){
      for(auto it=g->idx_begin();it!=g->idx_end();++it) concretise(*it,g);
      return; }
    if(isa<IntToPtrInst>(I)){ concretise(I->getOperand(0),I); return; }
    if(!usable(I->getType())){
      // e.g. conversion to x86_fp80, 128-bit arithmetic: pin operands
      if(auto* si=dyn_cast<SelectInst>(I)){ if(maybe.count(si->getCondition())){ Value* s=get1(si->getCondition()); if(!isZero(s)){
          IRBuilder<> B(I); Value* cnd=si->getCondition();
          guarded(nz(B,{s}),I,[&](IRBuilder<>& B)->Value*{ B.CreateCall(fn("__sym_branch",VoidTy,{I32,I32}),{s,B.CreateZExt(cnd,I32)}); return nullptr; }); } }
        return; }
      if(isa<CastInst>(I)||isa<BinaryOperator>(I)||isa<InsertElementInst>(I))
        for(Value* o: I->operands()) if(scalar(o->getType())&&maybe.count(o)){ Value* s=get1(o); if(isZero(s)) continue; IRBuilder<> B(I);
          guarded(nz(B,{s}),I,[&](IRBuilder<>& B)->Value*{ B.CreateCall(fn("__sym_conc",VoidTy,{I32}),{s}); return nullptr; }); }
      return;
    }
    if(isa<StoreInst>(I)) return;
    if(I->getType()->isVectorTy()||(I->getNumOperands()&&I->getOperand(0)->getType()->isVectorTy()&&!isa<StoreInst>(I))){
      // vectors are not modelled: pin any symbolic operand
      for(Value* o: I->operands()) if(maybe.count(o)) for(Value* s: get(o)) if(!isZero(s)){ IRBuilder<> B(I);
        guarded(nz(B,{s}),I,[&](IRBuilder<>& B)->Value*{ B.CreateCall(fn("__sym_conc",VoidTy,{I32}),{s}); return nullptr; }); }
      sh.erase(I); maybe.erase(I);
      return;
    }
    if(!maybe.count(I)) return;
    Type* t=I->getType();
    if(auto* ev=dyn_cast<ExtractValueInst>(I)){
      Leaves l=get(ev->getAggregateOperand());
      Type* at=ev->getAggregateOperand()->getType(); unsigned off=0;
      for(unsigned ix: ev->indices()){
        if(auto* st=dyn_cast<StructType>(at)){ for(unsigned i=0;i<ix;i++) off+=nleaves(st->getElementType(i)); at=st->getElementType(ix); }
        else { auto* ar=cast<ArrayType>(at); off+=ix*nleaves(ar->getElementType()); at=ar->getElementType(); } }
      Leaves r; for(unsigned i=0;i<nleaves(t);i++) r.push_back(l[off+i]);
      sh[I]=r; return;
    }
    if(auto* iv=dyn_cast<InsertValueInst>(I)){
      Leaves l=get(iv->getAggregateOperand()); Leaves e=get(iv->getInsertedValueOperand());
      Type* at=t; unsigned off=0;
      for(unsigned ix: iv->indices()){
        if(auto* st=dyn_cast<StructType>(at)){ for(unsigned i=0;i<ix;i++) off+=nleaves(st->getElementType(i)); at=st->getElementType(ix); }
        else { auto* ar=cast<ArrayType>(at); off+=ix*nleaves(ar->getElementType()); at=ar->getElementType(); } }
      for(unsigned i=0;i<e.size();i++) l[off+i]=e[i];
      sh[I]=l; return;
    }
    if(isa<FreezeInst>(I)){ sh[I]=get(I->getOperand(0)); return; }
    Instruction* ip=I->getNextNode();
    if(auto* si=dyn_cast<SelectInst>(I)){
      Value* sc=get1(si->getCondition());
      Leaves a=get(si->getTrueValue()), b=get(si->getFalseValue());
      IRBuilder<> B(ip);
      Leaves r;
      if(!scalar(t)){
        for(unsigned i=0;i<a.size();i++) r.push_back(B.CreateSelect(si->getCondition(),a[i],b[i]));
        sh[I]=r;
        if(!isZero(sc)){ Value* cnd=si->getCondition(); guarded(nz(B,{sc}),ip,[&](IRBuilder<>& B)->Value*{ B.CreateCall(fn("__sym_branch",VoidTy,{I32,I32}),{sc,B.CreateZExt(cnd,I32)}); return nullptr; }); }
        return;
      }
      Value* cnd=si->getCondition(); Value *tv=si->getTrueValue(),*fv=si->getFalseValue();
      Value* base=(isZero(a[0])&&isZero(b[0]))? Z : B.CreateSelect(cnd,a[0],b[0]);
      if(isZero(sc)){ sh[I]=Leaves{base}; return; }
      Value* c=nz(B,{sc});
      Instruction* T=SplitBlockAndInsertIfThen(c,ip,false,Unlikely);
      BasicBlock* pre=T->getParent()->getSinglePredecessor();
      IRBuilder<> B2(T);
      Value* id=B2.CreateCall(fn("__sym_select",I32,{I32,I32,I32,I32,I32,I64,I64}),{c32(tcode(t)),sc,a[0],b[0],B2.CreateZExt(cnd,I32),bits(B2,tv),bits(B2,fv)});
      PHINode* P=PHINode::Create(I32,2,"",&ip->getParent()->front());
      P->addIncoming(id,T->getParent()); P->addIncoming(base,pre);
      sh[I]=Leaves{P}; return;
    }
    if(auto* ci=dyn_cast<CastInst>(I)){
      Value* o=ci->getOperand(0);
      if(!scalar(o->getType())){ sh[I]=zeros(t); return; }
      Value* s=get1(o); IRBuilder<> B(ip); Value* c=nz(B,{s}); if(!c){ sh[I]=zeros(t); return; }
      unsigned op=ci->getOpcode();
      Value* id=guarded(c,ip,[&](IRBuilder<>& B){ return B.CreateCall(fn("__sym_cast",I32,{I32,I32,I32,I32,I64,I64}),{c32(op),c32(tcode(o->getType())),c32(tcode(t)),s,bits(B,o),bits(B,I)}); });
      sh[I]=Leaves{id}; return;
    }
    if(auto* uo=dyn_cast<UnaryOperator>(I)){
      Value* o=uo->getOperand(0); Value* s=get1(o); IRBuilder<> B(ip); Value* c=nz(B,{s}); if(!c){ sh[I]=zeros(t); return; }
      Value* id=guarded(c,ip,[&](IRBuilder<>& B){ return B.CreateCall(fn("__sym_unary",I32,{I32,I32,I32,I64,I64}),{c32(50),c32(tcode(t)),s,bits(B,o),bits(B,I)}); });
      sh[I]=Leaves{id}; return;
    }
    if(auto* ic=dyn_cast<CmpInst>(I)){
      Value *a=ic->getOperand(0),*b=ic->getOperand(1);
      if(!scalar(a->getType())){ sh[I]=zeros(t);
        for(Value* o:{a,b}) if(maybe.count(o)){ /* >64-bit compare */ }
        return; }
      Value *s1=get1(a),*s2=get1(b); IRBuilder<> B(ip); Value* c=nz(B,{s1,s2}); if(!c){ sh[I]=zeros(t); return; }
      Value* id=guarded(c,ip,[&](IRBuilder<>& B){ return B.CreateCall(fn("__sym_cmp",I32,{I32,I32,I32,I32,I64,I64,I32}),{c32(ic->getPredicate()),c32(tcode(a->getType())),s1,s2,bits(B,a),bits(B,b),B.CreateZExt(I,I32)}); });
      sh[I]=Leaves{id}; return;
    }
    if(auto* bo=dyn_cast<BinaryOperator>(I)){
      Value *a=bo->getOperand(0),*b=bo->getOperand(1);
      Value *s1=get1(a),*s2=get1(b); IRBuilder<> B(ip); Value* c=nz(B,{s1,s2}); if(!c){ sh[I]=zeros(t); return; }
      // division traps concretely before the split is recorded: record the divisor first
      unsigned op=bo->getOpcode();
      if((op==Instruction::SDiv||op==Instruction::UDiv||op==Instruction::SRem||op==Instruction::URem)&&!isZero(s2)) concretise(b,bo);
      ip=bo->getNextNode();
      IRBuilder<> B3(ip); c=nz(B3,{s1,s2});
      Value* id=guarded(c,ip,[&](IRBuilder<>& B){ return B.CreateCall(fn("__sym_bin",I32,{I32,I32,I32,I32,I64,I64,I64}),{c32(op),c32(tcode(t)),s1,s2,bits(B,a),bits(B,b),bits(B,I)}); });
      sh[I]=Leaves{id}; return;
    }
    sh[I]=zeros(t);
  }
};

struct SymPass : PassInfoMixin<SymPass> {
  PreservedAnalyses run(Module& M, ModuleAnalysisManager& MAM){
    // redirect memory readers to instrumented stand-ins
    static const char* redir[]={"memcmp","bcmp","strlen","strcmp","strncmp","memchr","strchr","strstr","strcpy","strcpy","toupper","tolower","isspace","isalpha","isalnum","isdigit",nullptr};
    bool lib=M.getName().contains("symlibc");
    std::vector<Function*> fs;
    for(Function& F: M) if(!F.isDeclaration()&&!F.hasAvailableExternallyLinkage()&&!F.getName().starts_with("__sym_")) fs.push_back(&F);
    if(!lib) for(int i=0;redir[i];i++) if(Function* f=M.getFunction(redir[i])) if(f->isDeclaration()){
      Function* nf=cast<Function>(M.getOrInsertFunction(std::string("symlibc_")+redir[i],f->getFunctionType()).getCallee());
      f->replaceAllUsesWith(nf);
    }
    auto& FAM=MAM.getResult<FunctionAnalysisManagerModuleProxy>(M).getManager();
    for(Function* F: fs){
      if(F->hasFnAttribute(Attribute::Naked)) continue;
      if(F->hasFnAttribute("nosym")) continue;
      { FunctionPassManager P; P.addPass(LowerAtomicPass()); P.addPass(ScalarizerPass()); P.addPass(LowerSwitchPass()); P.run(*F,FAM); }
      removeUnreachableBlocks(*F);
      // instrumentation needs function attributes that promise too much dropped
      F->removeFnAttr(Attribute::Memory); F->removeFnAttr(Attribute::NoSync);
      F->removeFnAttr(Attribute::Speculatable);
      FAM.invalidate(*F,PreservedAnalyses::none());
    }
    for(Function* F: fs){ if(F->hasFnAttribute(Attribute::Naked)||F->hasFnAttribute("nosym")) continue; FnInstr(*F).run(); }
    for(Function& F: M) if(!F.isIntrinsic()){ F.removeFnAttr(Attribute::Memory); F.removeFnAttr(Attribute::WillReturn); }
    for(Function& F: M) for(auto& BB: F) for(auto& I: BB) if(auto* cb=dyn_cast<CallBase>(&I)) if(!isa<IntrinsicInst>(cb)) cb->removeFnAttr(Attribute::Memory);
    return PreservedAnalyses::none();
  }
  static bool isRequired(){ return true; }
};
}
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo(){
  return {LLVM_PLUGIN_API_VERSION,"SymPass","1",[](PassBuilder& PB){
    PB.registerOptimizerLastEPCallback([](ModulePassManager& MPM, OptimizationLevel){ MPM.addPass(SymPass()); });
  }};
}
