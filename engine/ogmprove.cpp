// ogmprove: decides obligations over LLVM IR without running anything.
//
// Input: bitcode of an obligation unit.  Every obligation is an extern "C" function ob_<name> with
// unconstrained parameters which calls fail_<name>() where the specification is violated and
// ok_<name>() where it is met.  The tool simplifies each obligation to a fixed point with the
// compiler's own sound dataflow transformations (inlining, SROA, SCCP, GVN, constraint elimination,
// loop peeling, ...), treating a throw as the end of the path, and then looks whether a call of
// fail_<name> is still reachable.
//   proved   : no call of fail_<name> left, ok_<name> (or, for negative obligations, a throw) is left
//   vacuous  : neither fail_ nor ok_ is left (the obligation decides nothing)
//   open     : a call of fail_<name> is left
// An obligation that stays open is partitioned: each comparison that the residual still depends on is
// assumed true in one part and false in the other, and the parts are simplified on their own.
// An obligation that stays open even then is specialised: its parameters are fixed to constants (small ones and
// those that the residual code compares against) and the residual is folded again.  If an instance
// folds to "fail_<name> is reached and ok_<name> is not", the obligation is refuted and the instance
// is the witness.  Without such an instance the obligation is undecided, which is not an alarm.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/CFG.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Transforms/Utils/LowerInvoke.h"
#include "llvm/Transforms/Utils/LoopPeel.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/LoopUtils.h"
#include "llvm/Transforms/Utils/LCSSA.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/GVN.h"
#include "llvm/Transforms/Scalar/SCCP.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/ADT/PostOrderIterator.h"
#include <set>
#include <map>
#include <chrono>
using namespace llvm;
namespace {
cl::opt<std::string> In(cl::Positional, cl::Required);
cl::opt<int> Rounds("rounds", cl::init(24));
cl::opt<unsigned> MaxInst("max-inst", cl::init(60000));
cl::opt<std::string> Dump("dump");
cl::opt<std::string> Only("only");
cl::opt<int> Strategy("strategy", cl::init(0));
cl::opt<bool> List("list");
cl::opt<bool> Verbose("vv");
cl::opt<double> RefuteSecs("refute-seconds", cl::init(0));
cl::opt<int> SplitMax("split-max", cl::init(0));
cl::opt<double> SplitSecs("split-seconds", cl::init(30));
cl::opt<int> RefuteMax("refute-max", cl::init(4000));
cl::opt<bool> WantThrow("want-throw");
cl::opt<bool> MayThrow("may-throw"); // a throw is as good as the good outcome
cl::opt<double> PerOb("per-ob-seconds", cl::init(60));

bool isDelete(StringRef n){ return n=="_ZdlPv"||n=="_ZdlPvm"||n=="_ZdaPv"||n=="_ZdaPvm"||n=="_ZdlPvSt11align_val_t"||n=="_ZdlPvmSt11align_val_t"; }
bool isNew(StringRef n){ return n=="_Znwm"||n=="_Znam"; }
// a stream without a character facet is outside the model
bool isThrow(StringRef n){ if(n=="_ZSt16__throw_bad_castv") return false; return n=="__cxa_throw"||n=="__cxa_rethrow"||n.starts_with("_ZSt20__throw_")||n.starts_with("_ZSt17__throw_")||n.starts_with("_ZSt16__throw_")||n.starts_with("_ZSt24__throw_")||n.starts_with("_ZSt28__throw_")||n.starts_with("_ZSt19__throw_")||n.starts_with("_ZSt21__throw_"); }

// Storage whose allocation executes at most once becomes a stack slot; deallocation has no
// observable effect on an obligation and is dropped.
struct HeapToStack : PassInfoMixin<HeapToStack> {
  PreservedAnalyses run(Function &F, FunctionAnalysisManager &FAM){
    if(F.isDeclaration()) return PreservedAnalyses::all();
    auto&LI=FAM.getResult<LoopAnalysis>(F);
    std::vector<CallInst*> news, dels;
    for(auto&B:F)for(auto&I:B) if(auto*C=dyn_cast<CallInst>(&I)) if(auto*cf=C->getCalledFunction()){
      StringRef n=cf->getName();
      if(isDelete(n)) dels.push_back(C);
      else if(isNew(n) && isa<ConstantInt>(C->getArgOperand(0)) && !LI.getLoopFor(&B)) news.push_back(C);
    }
    for(auto*d:dels) d->eraseFromParent();
    if(F.getName().starts_with("ob_") && !news.empty()){
      for(auto&B:F)for(auto&I:B) if(auto*C=dyn_cast<CallInst>(&I)) if(C->isTailCall()) C->setTailCallKind(CallInst::TCK_None);
      for(auto*c:news){
        IRBuilder<> b(&*F.getEntryBlock().getFirstInsertionPt());
        uint64_t n=cast<ConstantInt>(c->getArgOperand(0))->getZExtValue();
        // red zones, and a fill pattern in place of indeterminate contents: a read of memory that the
        // code under analysis never wrote must not be folded to a convenient value
        const uint64_t red=64;
        auto*a=b.CreateAlloca(ArrayType::get(b.getInt8Ty(),n+2*red)); a->setAlignment(Align(16));
        IRBuilder<> s(c);
        s.CreateMemSet(a,s.getInt8(0xAA),n+2*red,Align(16));
        auto*p=s.CreateConstInBoundsGEP1_64(s.getInt8Ty(),a,red);
        c->replaceAllUsesWith(p); c->eraseFromParent();
      }
    }
    return PreservedAnalyses::none();
  }
};
// Aggregate copies of constant size become word loads and stores, so that value numbering sees through them.
struct ExpandMem : PassInfoMixin<ExpandMem> {
  PreservedAnalyses run(Function &F, FunctionAnalysisManager &){
    if(F.isDeclaration()) return PreservedAnalyses::all();
    std::vector<MemIntrinsic*> ms; const DataLayout&DL=F.getParent()->getDataLayout();
    for(auto&B:F)for(auto&I:B) if(auto*m=dyn_cast<MemIntrinsic>(&I)) if(!m->isVolatile()) if(auto*n=dyn_cast<ConstantInt>(m->getLength())) if(n->getZExtValue()<=4096) ms.push_back(m);
    for(auto*m:ms){
      uint64_t n=cast<ConstantInt>(m->getLength())->getZExtValue(); IRBuilder<> b(m);
      auto words=[&](auto f){ for(uint64_t o=0;o<n;){ uint64_t w= n-o>=8?8: n-o>=4?4: n-o>=2?2:1; f(o,w); o+=w; } };
      if(auto*s=dyn_cast<MemSetInst>(m)){
        auto*c=dyn_cast<ConstantInt>(s->getValue()); if(!c) continue; uint64_t byte=c->getZExtValue()&255, v=0; for(int i=0;i<8;++i) v=v<<8|byte;
        words([&](uint64_t o,uint64_t w){ auto*p=b.CreateConstInBoundsGEP1_64(b.getInt8Ty(),m->getDest(),o); b.CreateAlignedStore(ConstantInt::get(b.getIntNTy(w*8),w==8?v:v&((1ull<<(w*8))-1)),p,Align(1)); });
      } else { auto*t=dyn_cast<MemTransferInst>(m); std::vector<Value*> vs; if(!t) continue;
        words([&](uint64_t o,uint64_t w){ auto*p=b.CreateConstInBoundsGEP1_64(b.getInt8Ty(),t->getSource(),o); vs.push_back(b.CreateAlignedLoad(b.getIntNTy(w*8),p,Align(1))); });
        size_t i=0; words([&](uint64_t o,uint64_t w){ auto*p=b.CreateConstInBoundsGEP1_64(b.getInt8Ty(),t->getDest(),o); b.CreateAlignedStore(vs[i++],p,Align(1)); });
      }
      m->eraseFromParent();
    }
    (void)DL; return PreservedAnalyses::none();
  }
};
// Part of a loaded word: load the part, so that a store of that part (a struct member next to padding) is found.
struct NarrowLoad : PassInfoMixin<NarrowLoad> {
  PreservedAnalyses run(Function &F, FunctionAnalysisManager &){
    if(F.isDeclaration()||!F.getName().starts_with("ob_")) return PreservedAnalyses::all();
    std::vector<Instruction*> dead; bool ch=false;
    std::vector<Instruction*> work; for(auto&B:F)for(auto&I:B) work.push_back(&I);
    for(auto*I:work){
      Value*src=nullptr; uint64_t bits=0; 
      if(auto*t=dyn_cast<TruncInst>(I)){ src=t->getOperand(0); bits=t->getType()->isIntegerTy()?t->getType()->getIntegerBitWidth():0; }
      else if(auto*b=dyn_cast<BinaryOperator>(I); b&&b->getOpcode()==Instruction::And) if(auto*c=dyn_cast<ConstantInt>(b->getOperand(1))){ src=b->getOperand(0); if(c->getValue().isMask()) bits=c->getValue().countTrailingOnes(); }
      if(!src||(bits!=8&&bits!=16&&bits!=32)) continue;
      uint64_t sh=0; if(auto*b=dyn_cast<BinaryOperator>(src); b&&b->getOpcode()==Instruction::LShr) if(auto*c=dyn_cast<ConstantInt>(b->getOperand(1))){ sh=c->getZExtValue(); src=b->getOperand(0); }
      auto*l=dyn_cast<LoadInst>(src); if(!l||l->isVolatile()||l->isAtomic()||!l->getType()->isIntegerTy()||l->getType()->getIntegerBitWidth()>64||l->getType()->getIntegerBitWidth()%8||sh%8||sh+bits>l->getType()->getIntegerBitWidth()) continue;
      if(l->getType()->getIntegerBitWidth()<=bits) continue;
      IRBuilder<> b(l); auto*p=b.CreateConstInBoundsGEP1_64(b.getInt8Ty(),l->getPointerOperand(),sh/8); auto*n=b.CreateAlignedLoad(b.getIntNTy(bits),p,Align(1));
      IRBuilder<> c(I); I->replaceAllUsesWith(c.CreateZExtOrTrunc(n,I->getType())); dead.push_back(I); ch=true;
    }
    for(auto*d:dead) d->eraseFromParent();
    // a word loaded from where a smaller constant was stored: load it bytewise
    auto&DL=F.getParent()->getDataLayout(); work.clear(); for(auto&B:F)for(auto&I:B) if(isa<LoadInst>(I)) work.push_back(&I);
    for(auto*I:work){
      auto*l=cast<LoadInst>(I); if(l->isVolatile()||l->isAtomic()||!l->getType()->isIntegerTy()) continue; unsigned n=l->getType()->getIntegerBitWidth(); if(n!=16&&n!=32&&n!=64) continue;
      int64_t lo=0; auto*base=GetPointerBaseWithConstantOffset(l->getPointerOperand(),lo,DL); if(!isa<AllocaInst>(base)) continue; bool part=false;
      int lim=200; for(auto*k=l->getPrevNode();k&&lim--;k=k->getPrevNode()) if(auto*st=dyn_cast<StoreInst>(k)){ int64_t so=0; auto*sb=GetPointerBaseWithConstantOffset(st->getPointerOperand(),so,DL); if(sb!=base) continue;
        int64_t sz=DL.getTypeStoreSize(st->getValueOperand()->getType()); if(so+sz<=lo||so>=lo+n/8) continue; part= so>=lo&&so+sz<=lo+n/8&&sz<n/8&&isa<ConstantInt>(st->getValueOperand()); break; }
      if(!part) continue;
      IRBuilder<> b(l); Value*v=nullptr; for(unsigned i=0;i<n/8;++i){ auto*p=b.CreateConstInBoundsGEP1_64(b.getInt8Ty(),l->getPointerOperand(),i); Value*x=b.CreateZExt(b.CreateAlignedLoad(b.getInt8Ty(),p,Align(1)),l->getType()); if(i) x=b.CreateShl(x,8*i); v=v?b.CreateOr(v,x):x; }
      l->replaceAllUsesWith(v); l->eraseFromParent(); ch=true;
    }
    return ch?PreservedAnalyses::none():PreservedAnalyses::all();
  }
};
// Equalities between integer expressions are decided by their normal form as polynomials modulo 2^n.
struct PolyEq : PassInfoMixin<PolyEq> {
  typedef std::map<std::vector<Value*>,uint64_t> Poly; static inline const DataLayout*DL=nullptr;
  static bool build(Value*v,Poly&p,std::map<Value*,Poly>&memo,int depth){
    auto it=memo.find(v); if(it!=memo.end()){ p=it->second; return true; }
    Poly r; auto leaf=[&]{ r.clear(); r[{v}]=1; };
    if(auto*c=dyn_cast<ConstantInt>(v)){ if(c->getBitWidth()>64) return false; uint64_t x=c->getZExtValue(); if(x) r[{}]=x; }
    else if(auto*b=dyn_cast<BinaryOperator>(v); b&&depth<200){
      Poly x,y; auto op=b->getOpcode();
      auto add=[](Poly&a,const Poly&q,uint64_t k){ for(auto&e:q){ auto&c=a[e.first]; c+=e.second*k; if(!c) a.erase(e.first); } };
      if(op==Instruction::Add||op==Instruction::Sub){ if(!build(b->getOperand(0),x,memo,depth+1)||!build(b->getOperand(1),y,memo,depth+1)) return false; r=x; add(r,y,op==Instruction::Add?1:~0ull); }
      else if(op==Instruction::Mul){ if(!build(b->getOperand(0),x,memo,depth+1)||!build(b->getOperand(1),y,memo,depth+1)) return false; if(x.size()*y.size()>256) leaf(); else for(auto&e:x) for(auto&f:y){ auto m=e.first; m.insert(m.end(),f.first.begin(),f.first.end()); std::sort(m.begin(),m.end()); Poly one; one[m]=e.second*f.second; if(m.size()>12) return false; add(r,one,1); } }
      else if(op==Instruction::Shl&&isa<ConstantInt>(b->getOperand(1))&&cast<ConstantInt>(b->getOperand(1))->getZExtValue()<64){ if(!build(b->getOperand(0),x,memo,depth+1)) return false; add(r,x,1ull<<cast<ConstantInt>(b->getOperand(1))->getZExtValue()); }
      else leaf();
    }
    else if(auto*g=dyn_cast<GEPOperator>(v); g&&DL&&depth<200){ // address = base + offset
      unsigned bw=64; MapVector<Value*,APInt> vo; APInt co(64,0);
      if(v->getType()->isPointerTy()&&g->collectOffset(*DL,bw,vo,co)){ bool all=true; if(!build(g->getPointerOperand(),r,memo,depth+1)) return false;
        auto put=[&](const std::vector<Value*>&m,uint64_t k){ auto&c=r[m]; c+=k; if(!c) r.erase(m); }; if(!!co) put({},co.getZExtValue());
        for(auto&e:vo){ if(e.first->getType()->getIntegerBitWidth()!=64){ all=false; break; } Poly x; if(!build(e.first,x,memo,depth+1)) return false; for(auto&t:x) put(t.first,t.second*e.second.getZExtValue()); }
        if(!all) leaf(); }
      else leaf(); }
    else if(auto*pi=dyn_cast<PtrToIntOperator>(v); pi&&v->getType()->isIntegerTy(64)&&depth<200){ if(!build(pi->getPointerOperand(),r,memo,depth+1)) return false; }
    else if(isa<ConstantPointerNull>(v)) {}
    else leaf();
    auto width=[](Value*v)->unsigned{ return v->getType()->isPointerTy()?64:v->getType()->getIntegerBitWidth(); };
    uint64_t mask= width(v)>=64?~0ull:(1ull<<width(v))-1;
    for(auto i=r.begin();i!=r.end();){ i->second&=mask; if(!i->second) i=r.erase(i); else ++i; }
    if(r.size()>400) return false;
    memo[v]=r; p=r; return true;
  }
  PreservedAnalyses run(Function &F, FunctionAnalysisManager &){
    if(F.isDeclaration()||!F.getName().starts_with("ob_")) return PreservedAnalyses::all();
    DL=&F.getParent()->getDataLayout();
    std::map<Value*,Poly> memo; std::vector<std::pair<ICmpInst*,bool>> done;
    auto width=[](Type*t)->unsigned{ return t->isPointerTy()?64:t->isIntegerTy()?t->getIntegerBitWidth():0; };
    for(auto&B:F)for(auto&I:B) if(auto*c=dyn_cast<ICmpInst>(&I)) if(c->isEquality()&&width(c->getOperand(0)->getType())<=64&&width(c->getOperand(0)->getType())>1){
      Poly x,y; if(!build(c->getOperand(0),x,memo,0)||!build(c->getOperand(1),y,memo,0)) continue;
      for(auto&e:y){ auto&k=x[e.first]; k-=e.second; } uint64_t w=width(c->getOperand(0)->getType()), mask=w>=64?~0ull:(1ull<<w)-1; bool zero=true,cons=true;
      for(auto&e:x) if(e.second&mask){ zero=false; if(!e.first.empty()) cons=false; }
      if(zero) done.push_back({c,c->getPredicate()==CmpInst::ICMP_EQ}); else if(cons) done.push_back({c,c->getPredicate()==CmpInst::ICMP_NE}); }
    // the order of addresses inside one object is that of the offsets; objects are disjoint, so the order of addresses inside two objects is that of the objects
    bool moved=false; std::vector<ICmpInst*> rel; for(auto&B:F)for(auto&I:B) if(auto*c=dyn_cast<ICmpInst>(&I)) if(c->isRelational()&&c->isUnsigned()&&c->getOperand(0)->getType()->isPointerTy()) rel.push_back(c);
    for(auto*c:rel){ int64_t o[2]={0,0}; Value*b[2]; uint64_t sz[2]; bool in=true; for(int k=0;k<2;++k){ b[k]=GetPointerBaseWithConstantOffset(c->getOperand(k),o[k],*DL); sz[k]=0; auto*al=dyn_cast<AllocaInst>(b[k]); if(auto*gv=dyn_cast<GlobalVariable>(b[k])) sz[k]=DL->getTypeAllocSize(gv->getValueType()); else if(al) if(auto s=al->getAllocationSize(*DL)) sz[k]=s->getFixedValue(); if(!sz[k]||o[k]<0||uint64_t(o[k])>sz[k]) in=false; }
      if(!in) continue;
      if(b[0]==b[1]){ done.push_back({c,ICmpInst::compare(APInt(64,o[0]),APInt(64,o[1]),c->getPredicate())}); continue; }
      if((o[0]==0&&o[1]==0)||uint64_t(o[0])>=sz[0]||uint64_t(o[1])>=sz[1]) continue;
      c->setOperand(0,b[0]); c->setOperand(1,b[1]); moved=true; }
    for(auto&d:done){ d.first->replaceAllUsesWith(ConstantInt::getBool(F.getContext(),d.second)); d.first->eraseFromParent(); }
    return done.empty()&&!moved?PreservedAnalyses::all():PreservedAnalyses::none();
  }
};
// Peel the loops that the unroller left (bounds that only become constants once the first
// iterations are separated from the rest).
struct Peel : PassInfoMixin<Peel> {
  int *peeled;
  Peel(int*p):peeled(p){}
  PreservedAnalyses run(Function &F, FunctionAnalysisManager &FAM){
    if(F.isDeclaration()||!F.getName().starts_with("ob_")||F.getInstructionCount()>MaxInst) return PreservedAnalyses::all();
    auto&LI=FAM.getResult<LoopAnalysis>(F); auto&DT=FAM.getResult<DominatorTreeAnalysis>(F);
    auto&SE=FAM.getResult<ScalarEvolutionAnalysis>(F); auto&AC=FAM.getResult<AssumptionAnalysis>(F);
    // first outermost loops in reverse post order
    std::vector<Loop*> ls; std::set<Loop*> seen;
    ReversePostOrderTraversal<Function*> rpo(&F);
    for(auto*B:rpo){ Loop*l=LI.getLoopFor(B); if(!l) continue; while(l->getParentLoop()) l=l->getParentLoop(); if(seen.insert(l).second) ls.push_back(l); }
    int budget=3; 
    for(auto*l:ls){
      if(!budget) break;
      unsigned sz=0; for(auto*B:l->blocks()) sz+=B->size();
      simplifyLoop(l,&DT,&LI,&SE,&AC,nullptr,false); formLCSSARecursively(*l,DT,&LI,&SE);
      if(!canPeel(l)) continue;
      ValueToValueMapTy vm; unsigned cnt= sz<400?3: sz<4000?2:1;
      if(peelLoop(l,cnt,&LI,&SE,DT,&AC,true,vm)){ ++*peeled; --budget; }
    }
    return PreservedAnalyses::none();
  }
};
struct Res{int fail=0,ok=0,thr=0,unknown=0; unsigned insts=0;};
Res count(Function&F){ Res r; r.insts=F.getInstructionCount(); for(auto&B:F)for(auto&I:B) if(auto*c=dyn_cast<CallBase>(&I)) if(auto*cf=c->getCalledFunction()){ auto n=cf->getName(); if(n.starts_with("fail_"))r.fail++; else if(n.starts_with("ok_"))r.ok++; else if(isThrow(n))r.thr++; } if(MayThrow){ r.ok+=r.thr; r.thr=0; } return r; }
void pipeline(Module&M,int k,int strategy,int*peeled){
  PipelineTuningOptions pto; pto.LoopVectorization=false; pto.SLPVectorization=false; pto.InlinerThreshold=100000; pto.LoopInterleaving=false;
  PassBuilder pb(nullptr,pto); LoopAnalysisManager L;FunctionAnalysisManager FA;CGSCCAnalysisManager C;ModuleAnalysisManager MA;
  pb.registerModuleAnalyses(MA);pb.registerCGSCCAnalyses(C);pb.registerFunctionAnalyses(FA);pb.registerLoopAnalyses(L);pb.crossRegisterProxies(L,FA,C,MA);
  ModulePassManager mpm;
  // std::sort of at most 16 elements is its final insertion sort: the loop before it does nothing
  if(k==0) for(auto&F:M) if(!F.isDeclaration()&&F.getName().starts_with("_ZSt16__introsort_loop")){ F.deleteBody(); F.setComdat(nullptr); F.setLinkage(GlobalValue::InternalLinkage); ReturnInst::Create(M.getContext(),BasicBlock::Create(M.getContext(),"",&F)); }
  // symbolic inputs (ogm_*): they touch no memory of the program
  if(k==0) for(auto&F:M) if(F.isDeclaration()&&F.getName().starts_with("ogm_")&&!F.arg_size()){ F.setMemoryEffects(MemoryEffects::inaccessibleMemOnly()); F.setDoesNotThrow(); F.setWillReturn(); }
  // functions that call themselves or each other: the first three layers of activations as functions of their own (so that they can be inlined)
  if(k==0){ std::map<Function*,std::set<Function*>> callees; std::vector<Function*> all; for(auto&F:M) if(!F.isDeclaration()&&!F.isVarArg()){ all.push_back(&F); for(auto&B:F)for(auto&I:B) if(auto*c=dyn_cast<CallBase>(&I)) if(auto*g=c->getCalledFunction()) if(!g->isDeclaration()&&!g->isVarArg()) callees[&F].insert(g); }
    auto reach=[&](Function*a){ std::set<Function*> seen; std::vector<Function*> w(callees[a].begin(),callees[a].end()); while(!w.empty()){ auto*f=w.back(); w.pop_back(); if(!seen.insert(f).second) continue; for(auto*g:callees[f]) w.push_back(g); } return seen; };
    std::map<Function*,std::set<Function*>> R; std::set<Function*> doneF; for(auto*F:all) R[F]=reach(F);
    for(auto*F:all) if(R[F].count(F)&&!doneF.count(F)){ std::vector<Function*> scc; for(auto*G:all) if(R[F].count(G)&&R[G].count(F)) scc.push_back(G); for(auto*G:scc) doneF.insert(G); if(scc.size()>8) continue;
      std::set<Function*> in(scc.begin(),scc.end()); std::map<Function*,Function*> next;
      auto inner=[&](Function*G){ std::vector<CallBase*> cs; for(auto&B:*G)for(auto&I:B) if(auto*c=dyn_cast<CallBase>(&I)) if(auto*g=c->getCalledFunction()) if(in.count(g)) cs.push_back(c); return cs; };
      for(int d=0;d<3;++d){ std::map<Function*,Function*> here; std::vector<std::pair<CallBase*,Function*>> todo;
        for(auto*G:scc){ ValueToValueMapTy vm; auto cs=inner(G); auto*C=CloneFunction(G,vm); C->setLinkage(GlobalValue::InternalLinkage); C->setComdat(nullptr); here[G]=C; for(auto*c:cs) todo.push_back({cast<CallBase>(vm[c]),c->getCalledFunction()}); }
        for(auto&t:todo) t.first->setCalledFunction(d?next[t.second]:here[t.second]); next=here; }
      for(auto*G:scc) for(auto*c:inner(G)) c->setCalledFunction(next[c->getCalledFunction()]); } }
  if(k==0){ FunctionPassManager f; f.addPass(LowerInvokePass());f.addPass(SimplifyCFGPass()); mpm.addPass(createModuleToFunctionPassAdaptor(std::move(f))); mpm.addPass(GlobalDCEPass()); }
  { FunctionPassManager f; f.addPass(HeapToStack()); f.addPass(ExpandMem()); f.addPass(NarrowLoad()); f.addPass(EarlyCSEPass(true)); f.addPass(GVNPass()); f.addPass(InstCombinePass()); f.addPass(PolyEq()); if(k>=(strategy==1?1:2)) f.addPass(Peel(peeled)); mpm.addPass(createModuleToFunctionPassAdaptor(std::move(f))); }
  mpm.addPass(pb.buildPerModuleDefaultPipeline(strategy==2?OptimizationLevel::O2:OptimizationLevel::O3)); mpm.addPass(GlobalDCEPass());
  mpm.run(M,MA);
}
// folding of an instance whose parameters are constants
void fold(Module&M){
  PassBuilder pb; LoopAnalysisManager L;FunctionAnalysisManager FA;CGSCCAnalysisManager C;ModuleAnalysisManager MA;
  pb.registerModuleAnalyses(MA);pb.registerCGSCCAnalyses(C);pb.registerFunctionAnalyses(FA);pb.registerLoopAnalyses(L);pb.crossRegisterProxies(L,FA,C,MA);
  FunctionPassManager f; f.addPass(SCCPPass()); f.addPass(SimplifyCFGPass()); f.addPass(EarlyCSEPass(true)); f.addPass(SCCPPass()); f.addPass(SimplifyCFGPass());
  ModulePassManager mpm; mpm.addPass(createModuleToFunctionPassAdaptor(std::move(f))); mpm.run(M,MA);
}
// partitions on residual comparisons; returns true when every part meets the obligation
struct Split{
  int nodes=0; std::chrono::steady_clock::time_point t0=std::chrono::steady_clock::now();
  bool good(const Res&r){ return WantThrow ? !r.fail&&!r.ok : !r.fail&&!r.thr; }
  bool go(std::unique_ptr<Module> M,const std::string&ob,int depth,bool&some){
    Function*F=M->getFunction(ob); Res r=count(*F);
    if(good(r)){ some|= WantThrow? r.thr>0 : r.ok>0; return true; }
    if(depth>12||r.insts>3000) return false;
    // a comparison over parameters comes first, then the first one in program order
    CmpInst*pick=nullptr; int best=-1; ReversePostOrderTraversal<Function*> rpo(F); DominatorTree DT(*F); LoopInfo LI(DT);
    for(auto*B:rpo) for(auto&I:*B) if(auto*c=dyn_cast<CmpInst>(&I)){
      if(!c->getType()->isIntegerTy(1)||LI.getLoopFor(B)) continue; bool used=false; for(auto*u:c->users()) if(!isa<AssumeInst>(u)) used=true; if(!used) continue;
      int sc=1; for(auto&o:c->operands()) if(isa<Argument>(o)||isa<Constant>(o)) sc+=2; if(c->isEquality()) sc+=1; if(B!=&F->getEntryBlock()) sc-=2;
      if(sc>best){ best=sc; pick=c; } }
    if(!pick) return false;
    for(int v=0;v<2;++v){
      if(++nodes>SplitMax||std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()>SplitSecs) return false;
      ValueToValueMapTy vm; auto N=CloneModule(*M,vm); auto*c=cast<Instruction>((Value*)vm[pick]); Function*NF=c->getFunction();
      BasicBlock*B=c->getParent(); BasicBlock*T=B->splitBasicBlock(c->getNextNode(),"part"); BasicBlock*U=BasicBlock::Create(N->getContext(),"other",NF); new UnreachableInst(N->getContext(),U);
      B->getTerminator()->eraseFromParent(); if(v) BranchInst::Create(T,U,c,B); else BranchInst::Create(U,T,c,B);
      for(int k=0;k<2;++k){ int p=0; pipeline(*N,k+2,0,&p); if(good(count(*NF))) break; }
      if(!go(std::move(N),ob,depth+1,some)) return false;
    }
    return true;
  }
};
struct Rng{ uint64_t s=0x9E3779B97F4A7C15ull; uint64_t operator()(){ s^=s<<13; s^=s>>7; s^=s<<17; return s; } };
// -1: outcome not determined, 0: vacuous or as specified, 1: refuted
int outcome(const Res&r){
  if(WantThrow) return r.fail&&!r.thr ? 1 : (r.fail? -1 : 0);
  if(r.ok) return r.fail||r.thr ? -1 : 0;
  return r.fail||r.thr ? 1 : 0;
}
std::string refute(Module&M0,const std::string&ob,double budget,int&tried,int&held){
  Function*F0=M0.getFunction(ob); std::vector<int64_t> harvest; std::vector<double> fh;
  for(auto&B:*F0) for(auto&I:B){ if(I.getOpcode()==Instruction::ICmp||I.getOpcode()==Instruction::Add||I.getOpcode()==Instruction::Sub||I.getOpcode()==Instruction::Select) for(auto&o:I.operands()) if(auto*c=dyn_cast<ConstantInt>(o)) if(c->getBitWidth()<=64&&c->getBitWidth()>1){ int64_t v=c->getSExtValue(); for(int d=-1;d<=1;++d){ harvest.push_back(v+d); harvest.push_back(-v+d);} }
    if(auto*S=dyn_cast<SwitchInst>(&I)) for(auto&cs:S->cases()) if(cs.getCaseValue()->getBitWidth()<=64) harvest.push_back(cs.getCaseValue()->getSExtValue());
    if(I.getOpcode()==Instruction::FCmp) for(auto&o:I.operands()) if(auto*c=dyn_cast<ConstantFP>(o)) if(c->getType()->isDoubleTy()) fh.push_back(c->getValueAPF().convertToDouble()); }
  std::sort(harvest.begin(),harvest.end()); harvest.erase(std::unique(harvest.begin(),harvest.end()),harvest.end());
  Rng rng; auto t0=std::chrono::steady_clock::now(); unsigned n=F0->arg_size();
  static const int64_t small[]={0,1,2,3,4,5}, mid[]={0,1,-1,2,-2,3,-3,5,7,-7,9,16,33,100,-100}; static const double fs[]={0,1,-1,2,0.5,-0.5,3,-3,4,7.25,-11.5,100};
  for(int k=0;k<RefuteMax;++k){
    if(std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()>budget) break;
    auto M=CloneModule(M0); Function*F=M->getFunction(ob); std::string w; raw_string_ostream os(w);
    int style=k%5;
    for(unsigned i=0;i<n;++i){ Argument*A=F->getArg(i); Type*T=A->getType(); Constant*c=nullptr;
      if(T->isIntegerTy()){ int64_t v; uint64_t x=rng();
        if(style==0) v=small[x%4]; else if(style==1) v=mid[x%15]; else if(style==2) v= (x&1)? small[(x>>8)%6] : mid[(x>>8)%15]; else if(style==3&&!harvest.empty()) v= (x&3)? harvest[(x>>8)%harvest.size()] : small[(x>>8)%6]; else v= (x&7)==0 ? int64_t(rng()%2001)-1000 : (x&1)? small[(x>>8)%3] : mid[(x>>8)%15];
        if(T->isIntegerTy(1)) v&=1;
        c=ConstantInt::get(T,v,true); os<<" "<<(A->hasName()?A->getName().str():std::to_string(i))<<"="<<v; }
      else if(T->isDoubleTy()||T->isFloatTy()){ uint64_t x=rng(); double v= (style==3&&!fh.empty()&&(x&1))? fh[(x>>8)%fh.size()]+((x>>4)%3-1.0) : fs[(x>>8)%(style==0?5:12)]; c=ConstantFP::get(T,v); os<<" "<<(A->hasName()?A->getName().str():std::to_string(i))<<"="<<v; }
      else c=Constant::getNullValue(T);
      A->replaceAllUsesWith(c);
    }
    fold(*M); Res r=count(*F); int o=outcome(r);
    for(int j=0;j<6&&o<0;++j){ int p=0; pipeline(*M,j+2,0,&p); r=count(*F); o=outcome(r); if(r.insts>MaxInst) break; }
    ++tried; if(o==0&&r.ok+r.thr) ++held;
    if(o==1) return (r.fail?"fails for":"throws for")+os.str();
  }
  return "";
}
}
int main(int argc,char**argv){
  std::vector<const char*> av(argv,argv+argc);
  for(const char*s:{"-unroll-threshold=4000","-unroll-max-count=64","-memdep-block-scan-limit=4000","-memdep-block-number-limit=4000","-gvn-max-num-deps=2000","-memssa-check-limit=10000","-dse-memoryssa-walklimit=5000","-dse-memoryssa-scanlimit=5000","-constraint-elimination-max-rows=3000"}) av.push_back(s);
  cl::ParseCommandLineOptions(av.size(),av.data());
  LLVMContext ctx; SMDiagnostic err; auto M0=parseIRFile(In,err,ctx); if(!M0){err.print("ogmprove",errs());return 2;}
  std::vector<std::string> obs; for(auto&F:*M0) if(!F.isDeclaration()&&F.getName().starts_with("ob_")) obs.push_back(F.getName().str());
  if(List){ for(auto&o:obs) outs()<<o.substr(3)<<"\n"; return 0; }
  for(auto&F:*M0){
    if(F.isDeclaration()&&(F.getName().starts_with("ok_")||F.getName().starts_with("fail_"))){ F.setMemoryEffects(MemoryEffects::inaccessibleMemOnly()); F.setDoesNotThrow(); F.setWillReturn(); }
    if(isNew(F.getName())||isDelete(F.getName())){ F.removeFnAttr(Attribute::AllocKind); F.removeFnAttr(Attribute::AllocSize); F.removeFnAttr("alloc-family");
      if(F.isDeclaration()&&isNew(F.getName())) { F.setReturnDoesNotAlias(); F.setMemoryEffects(MemoryEffects::inaccessibleMemOnly()); F.setDoesNotThrow(); F.setWillReturn(); } }
    for(auto&B:F) for(auto&I:B) if(auto*C=dyn_cast<CallBase>(&I)) if(auto*cf=C->getCalledFunction()) if(isNew(cf->getName())||isDelete(cf->getName())){ C->removeFnAttr(Attribute::Builtin); C->addFnAttr(Attribute::NoBuiltin); }
  }
  if(M0->getNamedGlobal("llvm.global_ctors")) M0->getNamedGlobal("llvm.global_ctors")->eraseFromParent();
  int bad=0;
  for(auto&ob:obs){
    if(!Only.empty() && ob!="ob_"+Only) continue;
    auto t0=std::chrono::steady_clock::now();
    auto secs=[&]{return std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();};
    auto M=CloneModule(*M0);
    for(auto&F:*M) if(!F.isDeclaration()&&F.getName()!=ob){ F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr); }
    for(auto&G:M->globals()) if(!G.isDeclaration()&&!G.getName().starts_with("llvm.")){ G.setLinkage(GlobalValue::InternalLinkage); G.setComdat(nullptr);}
    for(auto&F:*M) if(!F.isDeclaration()&&F.getName()!=ob&&!F.hasFnAttribute(Attribute::NoInline)&&!F.hasFnAttribute(Attribute::OptimizeNone)) F.addFnAttr(Attribute::AlwaysInline);
    Function*OB=M->getFunction(ob); Res r; int used=0; unsigned last=0; int stale=0;
    for(int k=0;k<Rounds;++k){
      int peeled=0; pipeline(*M,k,Strategy,&peeled); ++used;
      r=count(*OB);
      if(Verbose) errs()<<ob<<" round "<<k<<" insts="<<r.insts<<" fail="<<r.fail<<" ok="<<r.ok<<" throw="<<r.thr<<" peeled="<<peeled<<" t="<<secs()<<"\n";
      if(r.fail==0 && (r.thr==0 || r.ok==0)) break;
      if(k>=3 && r.insts==last && !peeled){ if(++stale>=2) break; } else stale=0;
      if(r.insts>MaxInst*2 || secs()>PerOb) break;
      last=r.insts;
    }
    bool split=false;
    if(SplitMax>0 && (WantThrow ? (r.fail||r.ok) : (r.fail||r.thr))){ Split sp; bool some=false; split=sp.go(CloneModule(*M),ob,0,some)&&some; if(split) used+=sp.nodes; }
    const char*st= split ? (WantThrow?"throws":"proved") : r.fail?"open": r.ok? (r.thr?"maythrow":"proved"): r.thr?"throws":"vacuous";
    outs()<<ob.substr(3)<<"\t"<<st<<"\trounds="<<used<<"\tinsts="<<r.insts<<"\tthrows="<<r.thr<<"\tsecs="<<format("%.2f",secs());
    if(RefuteSecs>0 && !split && (WantThrow ? (r.fail||r.ok) : (r.fail||r.thr))){ int tried=0,held=0; std::string w=refute(*M,ob,RefuteSecs,tried,held); outs()<<"\tinstances="<<tried<<"\theld="<<held; if(!w.empty()) outs()<<"\trefuted: "<<w; }
    outs()<<"\n"; outs().flush();
    if(r.fail&&!split) bad=1;
    if(!Dump.empty()){ std::error_code ec; raw_fd_ostream o(Dump,ec); OB->print(o); }
  }
  return bad;
}
