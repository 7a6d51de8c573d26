// ogmsame: are two functions the same computation?  Nothing is run and nothing is solved: both are
// simplified function by function and then compared instruction by instruction in lockstep, callee pairs
// recursively (a pair that is being compared counts as equal).
//
// For every plain_<name> in the unit:  plain_ (algorithm called without a visitor) against ref_ (called
// with its empty visitor), and ref_ against nop_ (called with a visitor type the library does not know).
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/ADT/PostOrderIterator.h"
#include <set>
#include <map>
#include <regex>
using namespace llvm;
namespace {
cl::opt<std::string> In(cl::Positional, cl::Required);
cl::opt<std::string> Only("only"), Dump("dump");
std::string shortName(const Function& F) {   // without template arguments, return type and parameters
  std::string n = demangle(F.getName().str()), r; int d = 0;
  for (size_t i = 0; i < n.size(); ++i) { if (n.compare(i, 8, "operator") == 0 && !d) { size_t j = i + 8; while (j < n.size() && strchr("<>=()[]+-*/!", n[j])) { if (n[j] == '(' && !(n[j + 1] == ')')) break; ++j; } r += n.substr(i, j - i); i = j - 1; continue; }
    if (n[i] == '<') ++d; else if (n[i] == '>') --d; else if (n[i] == '(' && !d) { if (n.compare(i, 21, "(anonymous namespace)") == 0) { i += 20; continue; } break; } else if (!d) r += n[i]; }
  auto p = r.rfind(' '); if (p != std::string::npos && r.find("operator") == std::string::npos) r = r.substr(p + 1); return r; }
const DataLayout* DL;
std::string where(const Instruction* I) { const DILocation* L = I->getDebugLoc(); for (const DILocation* l = L; l; l = l->getInlinedAt()) if (l->getFilename().contains("include/opengm/") && !l->getFilename().contains("visitors.hxx")) { L = l; break; }
  if (!L) return "?"; std::string f = L->getFilename().str(); auto p = f.find("include/opengm/"); if (p != std::string::npos) f = f.substr(p); return f + ":" + std::to_string(L->getLine()); }
struct Cmp {
  std::map<std::pair<const Function*, const Function*>, int> memo; uint64_t insts = 0, pairs = 0; std::string why;
  bool fail(const Instruction* a, const Instruction* b, const std::string& s) { if (why.empty()) why = s + " at " + (a ? where(a) : "?") + " and " + (b ? where(b) : "?") + " in " + (a ? shortName(*a->getFunction()) : "?"); return false; }
  bool type(Type* a, Type* b) { if (a == b) return true; if (a->getTypeID() != b->getTypeID()) return false; if (!a->isSized() || !b->isSized()) return false; 
    if (a->isStructTy()) { if (a->getStructNumElements() != b->getStructNumElements()) return false; for (unsigned i = 0; i < a->getStructNumElements(); ++i) if (!type(a->getStructElementType(i), b->getStructElementType(i))) return false; return true; }
    if (a->isArrayTy()) return a->getArrayNumElements() == b->getArrayNumElements() && type(a->getArrayElementType(), b->getArrayElementType()); return false; }
  std::set<std::pair<const Constant*, const Constant*>> cbusy;
  std::map<const Constant*, const Constant*> ti, it_;     // type descriptors correspond one to one
  bool constant(const Constant* a, const Constant* b) {
    if (auto* g = dyn_cast<GlobalVariable>(a)) if (g->getName().starts_with("_ZTI") || g->getName().starts_with("_ZTS")) { if (!isa<GlobalVariable>(b)) return false; if (ti.count(a) ? ti[a] != b : it_.count(b) != 0) return false; ti[a] = b; it_[b] = a; }
    if (a == b) return true; if (a->getValueID() != b->getValueID() || !type(a->getType(), b->getType())) return false;
    if (auto* f = dyn_cast<Function>(a)) return func(f, cast<Function>(b));
    if (auto* g = dyn_cast<GlobalVariable>(a)) { auto* h = cast<GlobalVariable>(b); if (!g->hasInitializer() || !h->hasInitializer()) return false; if (StringRef(g->getName()).starts_with("_ZTS")) return true; if (!g->isConstant() && !g->getName().starts_with("_ZG")) return false; if (!cbusy.insert({a, b}).second) return true; return constant(g->getInitializer(), h->getInitializer()); }
    if (auto* d = dyn_cast<ConstantDataSequential>(a)) return d->getRawDataValues() == cast<ConstantDataSequential>(b)->getRawDataValues();
    if (isa<ConstantInt>(a) || isa<ConstantFP>(a)) return false; if (a->getNumOperands() != b->getNumOperands()) return false; if (auto* e = dyn_cast<ConstantExpr>(a)) if (e->getOpcode() != cast<ConstantExpr>(b)->getOpcode()) return false;
    for (unsigned i = 0; i < a->getNumOperands(); ++i) if (!constant(cast<Constant>(a->getOperand(i)), cast<Constant>(b->getOperand(i)))) return false; return a->getNumOperands() > 0 || isa<ConstantAggregateZero>(a) || isa<UndefValue>(a); }
  bool func(const Function* a, const Function* b) {
    if (a == b) return true; auto k = std::make_pair(a, b); auto it = memo.find(k); if (it != memo.end()) return it->second; 
    if (a->isDeclaration() || b->isDeclaration()) { if (why.empty()) why = "different external functions " + a->getName().str() + " and " + b->getName().str(); return memo[k] = 0; }
    memo[k] = 1; ++pairs; return memo[k] = body(a, b); }
  bool body(const Function* a, const Function* b) {
    if (a->arg_size() != b->arg_size() || !type(a->getReturnType(), b->getReturnType())) { if (why.empty()) why = "different signatures of " + shortName(*a) + " and " + shortName(*b); return false; }
    std::map<const Value*, const Value*> m; for (unsigned i = 0; i < a->arg_size(); ++i) m[a->getArg(i)] = b->getArg(i);
    ReversePostOrderTraversal<const Function*> ra(a), rb(b); std::vector<const BasicBlock*> va(ra.begin(), ra.end()), vb(rb.begin(), rb.end());
    if (va.size() != vb.size() && false) return false;
    // lockstep along the edges
    std::vector<std::pair<const BasicBlock*, const BasicBlock*>> todo; std::set<const BasicBlock*> seen; todo.push_back({&a->getEntryBlock(), &b->getEntryBlock()}); m[&a->getEntryBlock()] = &b->getEntryBlock(); seen.insert(&a->getEntryBlock());
    std::vector<std::pair<const Instruction*, const Instruction*>> all;
    while (!todo.empty()) { auto p = todo.back(); todo.pop_back(); auto ia = p.first->begin(), ib = p.second->begin();
      for (;;) { while (ia != p.first->end() && isa<DbgInfoIntrinsic>(*ia)) ++ia; while (ib != p.second->end() && isa<DbgInfoIntrinsic>(*ib)) ++ib; if (ia == p.first->end() || ib == p.second->end()) break; all.push_back({&*ia, &*ib}); m[&*ia] = &*ib;
        if (ia->getOpcode() != ib->getOpcode()) return fail(&*ia, &*ib, "different operations"); ++ia; ++ib; }
      if (ia != p.first->end() || ib != p.second->end()) return fail(p.first->getTerminator(), p.second->getTerminator(), "different blocks");
      auto* ta = p.first->getTerminator(); auto* tb = p.second->getTerminator(); if (ta->getNumSuccessors() != tb->getNumSuccessors()) return fail(ta, tb, "different branches");
      for (unsigned i = 0; i < ta->getNumSuccessors(); ++i) { auto* x = ta->getSuccessor(i); auto* y = tb->getSuccessor(i); if (m.count(x)) { if (m[x] != y) return fail(ta, tb, "different branches"); } else m[x] = y; if (seen.insert(x).second) todo.push_back({x, y}); } }
    for (auto& p : all) { auto* x = p.first; auto* y = p.second; ++insts;
      if (!type(x->getType(), y->getType()) || x->getNumOperands() != y->getNumOperands()) return fail(x, y, "different operations");
      if (auto* c = dyn_cast<CmpInst>(x)) if (c->getPredicate() != cast<CmpInst>(y)->getPredicate()) return fail(x, y, "different comparisons");
      if (auto* c = dyn_cast<AllocaInst>(x)) { auto* d = cast<AllocaInst>(y); if (DL->getTypeAllocSize(c->getAllocatedType()) != DL->getTypeAllocSize(d->getAllocatedType())) return fail(x, y, "different variables"); }
      if (auto* c = dyn_cast<GetElementPtrInst>(x)) { auto* d = cast<GetElementPtrInst>(y); if (!type(c->getSourceElementType(), d->getSourceElementType())) return fail(x, y, "different addresses"); }
      if (auto* c = dyn_cast<ExtractValueInst>(x)) if (c->getIndices() != cast<ExtractValueInst>(y)->getIndices()) return fail(x, y, "different operations");
      if (auto* c = dyn_cast<InsertValueInst>(x)) if (c->getIndices() != cast<InsertValueInst>(y)->getIndices()) return fail(x, y, "different operations");
      for (unsigned i = 0; i < x->getNumOperands(); ++i) { auto* u = x->getOperand(i); auto* v = y->getOperand(i);
        if (auto* c = dyn_cast<Constant>(u)) { auto* d = dyn_cast<Constant>(v); if (!d || !constant(c, d)) return fail(x, y, isa<Function>(c) ? "different calls" : "different constants"); continue; }
        if (isa<MetadataAsValue>(u) || isa<InlineAsm>(u)) { if (u != v && !isa<MetadataAsValue>(u)) return fail(x, y, "different operands"); continue; }
        auto it = m.find(u); if (it == m.end() || it->second != v) return fail(x, y, "different operands"); }
      if (auto* c = dyn_cast<PHINode>(x)) { auto* d = cast<PHINode>(y); for (unsigned i = 0; i < c->getNumIncomingValues(); ++i) { auto it = m.find(c->getIncomingBlock(i)); if (it == m.end() || it->second != d->getIncomingBlock(i)) return fail(x, y, "different merges"); } } }
    return true; }
};
void simplify(Module& M, const std::function<bool(Function&)>& inl) {
  for (auto& F : M) { if (F.isDeclaration()) continue; F.removeFnAttr(Attribute::OptimizeNone); bool r = F.getName().starts_with("plain_") || F.getName().starts_with("ref_") || F.getName().starts_with("nop_"); 
    if (r) continue; F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr); F.removeFnAttr(Attribute::AlwaysInline); F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::InlineHint); if (inl(F)) F.addFnAttr(Attribute::AlwaysInline); }
  for (auto& A : M.aliases()) A.setLinkage(GlobalValue::InternalLinkage);
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  ModulePassManager P; cantFail(PB.parsePassPipeline(P, "globaldce,always-inline,globaldce,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg,sroa,adce,simplifycfg),globaldce")); P.run(M, MAM); }
}
int main(int argc, char** argv) {
  cl::ParseCommandLineOptions(argc, argv);
  LLVMContext C; SMDiagnostic D; auto M0 = parseIRFile(In, D, C); if (!M0) { errs() << "cannot read " << In << "\n"; return 2; }
  for (auto& F : *M0) { if (F.getName().starts_with("root_")) F.setLinkage(GlobalValue::InternalLinkage); }
  std::vector<std::string> names; for (auto& F : *M0) if (F.getName().starts_with("plain_") && !F.isDeclaration()) names.push_back(F.getName().substr(6).str());
  std::vector<std::pair<std::string, std::string>> pairs = {{"plain_", "ref_"}, {"ref_", "nop_"}};
  for (auto& n : names) { if (Only.size() && n != Only) continue;
    for (auto& pr : pairs) { std::string why; bool ok = false; uint64_t insts = 0, np = 0; int level = 0;
      for (; level < 3 && !ok; ++level) {
        auto M = CloneModule(*M0); DL = &M->getDataLayout(); std::set<std::string> keep = {pr.first + n, pr.second + n};
        for (auto& F : *M) if (!F.isDeclaration()) { auto s = F.getName(); if ((s.starts_with("plain_") || s.starts_with("ref_") || s.starts_with("nop_")) && !keep.count(s.str())) { F.deleteBody(); } }
        for (auto& F : *M) if (!F.isDeclaration() && !keep.count(F.getName().str())) { F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr); }
        simplify(*M, [&](Function& F) { std::string s = shortName(F);
          if (s.find("visitors::EmptyVisitor::") != std::string::npos || s.find("visitors::ExplicitEmptyVisitor::") != std::string::npos || s.find("Nop::") != std::string::npos) return true;
          if (level >= 1) { auto p = s.rfind("::"); std::string l = p == std::string::npos ? s : s.substr(p + 2); if (l.find("infer") != std::string::npos || l.find("Infer") != std::string::npos || s.find("isitor") != std::string::npos) return true; }
          else { auto p = s.rfind("::infer"); if (p != std::string::npos && p + 7 == s.size() && demangle(F.getName().str()).find("infer<") == std::string::npos) return true; }
          if (level >= 2 && F.getInstructionCount() < 400) return true;
          return false; });
        Cmp c; auto* a = M->getFunction(pr.first + n); auto* b = M->getFunction(pr.second + n); if (!a || !b || a->isDeclaration() || b->isDeclaration()) { why = "missing"; break; }
        if (Dump.size() && level == 0) { std::error_code ec; raw_fd_ostream o(Dump.getValue() + pr.second, ec); M->print(o, nullptr); }
        ok = c.body(a, b); insts = c.insts; np = c.pairs; if (!ok && level == 0) why = c.why; }
      outs() << (ok ? "SAME" : "DIFF") << "\t" << n << "\t" << pr.first << "\t" << pr.second << "\tlevel=" << level << "\tinsts=" << insts << "\tpairs=" << np << "\t" << why << "\n"; } }
  return 0;
}
