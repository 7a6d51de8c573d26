// Which memory can a function write? Interprocedural may-write summaries over the compiler's IR.
//
// For every function: the parameters (and globals) from which written memory can be reached. A pointer's
// roots are the parameters, globals, allocations and unknown results it can be derived from (through
// address arithmetic, loads, phis and calls); what is stored into a local object is tracked per object.
//
// -mode arg0 : roots root_*: the function must not write memory reachable from its first parameter
// -mode cond : every ogm_cond(condition): evaluating the condition must write nothing outside itself
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include <map>
#include <set>
#include <regex>
#include <functional>
using namespace llvm;
cl::opt<std::string> In(cl::Positional, cl::Required), Mode("mode", cl::init("arg0")), Trace("trace");
// roots: >=0 parameter, -1 global, -2 unknown; allocations have no root
typedef std::set<int> RS;
struct Sum { RS mod, ret; std::map<int, RS> flow; std::map<int, std::string> why; bool operator==(const Sum& o) const { return mod == o.mod && ret == o.ret && flow == o.flow; } };
std::map<const Function*, Sum> S;
static std::string locOf(const Instruction* I) { if (auto& d = I->getDebugLoc()) { std::string f = d->getFilename().str(); size_t p = f.find("include/opengm/"); if (p != std::string::npos) f = f.substr(p); return f + ":" + std::to_string(d.getLine()); } return "?"; }
static std::string shortName(const Function* F) { std::string s = demangle(F->getName().str()); return s.size() > 140 ? s.substr(0, 140) + "..." : s; }
static bool pureExternal(StringRef n) {
  static const std::regex re("^(sqrt|exp|log|pow|fabs|floor|ceil|round|fmod|cos|sin|tan|atan|atan2|abs|labs|log2|log10|exp2|cbrt|hypot|tanh|sinh|cosh|acos|asin|lround|llround|isnan|isinf|__isnan.*|__isinf.*|memcmp|bcmp|strcmp|strncmp|strlen|memchr)[fl]?$|^(__cxa_(allocate_exception|free_exception|throw|rethrow|begin_catch|end_catch|bad_cast|get_exception_ptr|call_unexpected)|__clang_call_terminate|_ZSt9terminatev|_Unwind_Resume|__assert_fail|abort|exit)$|^_ZSt\\d+__throw_|^_Znwm$|^_Znam$|^_ZnwmRKSt9nothrow_t$|^malloc$|^calloc$|_ZNSt.*exception|_ZNSt13runtime_error|_ZNSt11logic_error|_ZNSt12out_of_range|_ZNSt12length_error|_ZNKSt.*|^_ZSt18_Rb_tree_(in|de)crement|^time$|^clock$");
  return std::regex_search(n.str(), re); }
struct Fn {
  Function& F; Sum s; std::map<const Value*, RS> roots, content; bool changed = true;
  std::map<const Value*, const Instruction*> dummy;
  Fn(Function& f) : F(f) {}
  static void add(RS& a, const RS& b, bool& ch) { for (int x : b) if (a.insert(x).second) ch = true; }
  // identity of the object a pointer points to when it is a local object
  const Value* local(const Value* v) { v = v->stripPointerCasts(); for (int i = 0; i < 20; ++i) { if (auto* g = dyn_cast<GEPOperator>(v)) v = g->getPointerOperand()->stripPointerCasts(); else break; } if (isa<AllocaInst>(v)) return v; if (auto* c = dyn_cast<CallBase>(v)) if (auto* f = c->getCalledFunction()) { StringRef n = f->getName(); if (n.starts_with("_Znw") || n.starts_with("_Zna") || n == "malloc" || n == "calloc" || n == "__cxa_allocate_exception") return v; } return nullptr; }
  RS R(const Value* v) {
    if (auto* a = dyn_cast<Argument>(v)) return {(int)a->getArgNo()};
    if (auto* c = dyn_cast<Constant>(v)) { if (isa<GlobalVariable>(c)) return cast<GlobalVariable>(c)->isConstant() ? RS{} : RS{-1}; if (auto* ce = dyn_cast<ConstantExpr>(c)) { RS r; for (auto& o : ce->operands()) { RS x = R(o); r.insert(x.begin(), x.end()); } return r; } return {}; }
    auto it = roots.find(v); return it == roots.end() ? RS{} : it->second; }
  void mod(const Value* p, const Instruction* I, const std::string& what) { if (local(p)) return; for (int r : R(p)) if (s.mod.insert(r).second) { changed = true; s.why[r] = what + " at " + locOf(I) + " in " + shortName(&F); } }
  void putContent(const Value* p, const RS& r) { // pointers with roots r are stored into what p points to
    if (r.empty()) return; if (auto* l = local(p)) { add(content[l], r, changed); return; }
    // a pointer loaded from a local object points to memory of that object: remember it there too
    for (auto* b : bases(p)) add(content[b], r, changed);
    for (int k : R(p)) for (int x : r) if (x != k) if (s.flow[k].insert(x).second) changed = true; }
  // local objects whose owned memory p may point into
  std::map<const Value*, std::set<const Value*>> own;
  std::set<const Value*> bases(const Value* v) { std::set<const Value*> r; if (auto* l = local(v)) { r.insert(l); return r; } auto it = own.find(v); if (it != own.end()) r = it->second; return r; }
  void setOwn(const Value* v, const std::set<const Value*>& b) { for (auto* x : b) if (own[v].insert(x).second) changed = true; }
  void run() {
    changed = true; int iter = 0;
    while (changed && iter++ < 50) { changed = false;
      for (auto& B : F) for (auto& I : B) {
        auto setR = [&](const RS& r) { add(roots[&I], r, changed); };
        if (auto* g = dyn_cast<GetElementPtrInst>(&I)) { setR(R(g->getPointerOperand())); setOwn(&I, bases(g->getPointerOperand())); }
        else if (isa<CastInst>(&I) || isa<FreezeInst>(&I)) { setR(R(I.getOperand(0))); setOwn(&I, bases(I.getOperand(0))); }
        else if (isa<PHINode>(&I) || isa<SelectInst>(&I) || isa<InsertValueInst>(&I) || isa<ExtractValueInst>(&I) || isa<BinaryOperator>(&I)) { for (auto& o : I.operands()) { setR(R(o)); setOwn(&I, bases(o)); } }
        else if (auto* l = dyn_cast<LoadInst>(&I)) { if (l->getType()->isPointerTy() || l->getType()->isAggregateType()) { auto* p = l->getPointerOperand(); if (auto* o = local(p)) setR(content[o]); else { setR(R(p)); for (auto* b : bases(p)) setR(content[b]); } setOwn(&I, bases(p)); } }
        else if (auto* st = dyn_cast<StoreInst>(&I)) { mod(st->getPointerOperand(), &I, "store"); if (st->getValueOperand()->getType()->isPointerTy() || st->getValueOperand()->getType()->isAggregateType()) { putContent(st->getPointerOperand(), R(st->getValueOperand())); for (auto* b : bases(st->getValueOperand())) for (auto* t : bases(st->getPointerOperand())) { if (b != t) add(content[t], content[b], changed); } } }
        else if (isa<AtomicRMWInst>(&I) || isa<AtomicCmpXchgInst>(&I)) mod(I.getOperand(0), &I, "atomic");
        else if (auto* c = dyn_cast<CallBase>(&I)) call(*c); 
        if (auto* r = dyn_cast<ReturnInst>(&I)) if (r->getReturnValue() && r->getReturnValue()->getType()->isPointerTy()) add(s.ret, R(r->getReturnValue()), changed);
        if (auto* r = dyn_cast<ReturnInst>(&I)) if (r->getReturnValue() && r->getReturnValue()->getType()->isAggregateType()) add(s.ret, R(r->getReturnValue()), changed);
      } } }
  RS reach(const Value* a) { RS r = R(a); for (auto* b : bases(a)) r.insert(content[b].begin(), content[b].end()); return r; } // what memory reachable from a belongs to
  // element-wise copies of the standard library between element types that are no pointers
  int np = -1;
  bool noPointers() { if (np < 0) { std::string d = demangle(F.getName().str()); size_t a = d.find("__copy_m<"); if (a == std::string::npos) a = d.find("__copy_move_b<"); if (a == std::string::npos) a = d.find("__relocate_a_1<"); np = 0; if (a != std::string::npos) { size_t b = d.find('(', a); std::string t = d.substr(a, b - a); static const std::regex num("^[a-z_0-9]+<((unsigned |signed |long |const |short )*(int|long|short|char|double|float|bool)( const)?(, )?)+>$"); np = std::regex_search(t, num); } } return np; }
  // a virtual call: every function in that slot of some virtual table of the module
  std::vector<Function*> targets(CallBase& c) { std::vector<Function*> r;
    auto* l = dyn_cast<LoadInst>(c.getCalledOperand()); if (!l) return r; const Value* p = l->getPointerOperand(); APInt off(64, 0); p = p->stripAndAccumulateConstantOffsets(F.getParent()->getDataLayout(), off, true); auto* vp = dyn_cast<LoadInst>(p); if (!vp) return r; uint64_t slot = off.getZExtValue() / 8;
    for (auto& G : F.getParent()->globals()) if (G.getName().starts_with("_ZTV") && G.hasInitializer()) { if (auto* cs = dyn_cast<ConstantStruct>(G.getInitializer())) for (auto& o : cs->operands()) if (auto* ca = dyn_cast<ConstantArray>(o)) if (slot + 2 < ca->getNumOperands()) if (auto* f = dyn_cast<Function>(ca->getOperand(slot + 2)->stripPointerCasts())) if (f->getFunctionType() == c.getFunctionType() && !std::count(r.begin(), r.end(), f)) r.push_back(f); }
    return r; }
  void setPass(CallBase& c) { for (auto& a : c.args()) if (a->getType()->isPointerTy()) { add(roots[&c], R(a), changed); setOwn(&c, bases(a)); } }
  void call(CallBase& c) {
    if (isa<LoadInst>(c.getCalledOperand())) { auto t = targets(c); bool all = t.size(); for (auto* f : t) if (f->isDeclaration() && f->getName() != "__cxa_pure_virtual") all = false; if (all) { for (auto* f : t) if (!f->isDeclaration()) callTo(c, f); return; } }
    callTo(c, dyn_cast<Function>(c.getCalledOperand()->stripPointerCasts())); }
  void callTo(CallBase& c, Function* f) {
    if (isa<DbgInfoIntrinsic>(c)) return;
    // printing is no program state
    if (Mode == "cond" && f) { static const std::regex st("^(std::(ostream|basic_ostream|basic_ios|ios_base|ctype)\\b|std::(basic_ostream<char, std::char_traits<char>>|ostream)& (std::(operator<<|endl|flush|ends|__ostream_insert)|.*<<)|std::operator<<|std::endl|std::flush|std::__ostream|std::__check_facet)"); std::string d = demangle(f->getName().str()); if (std::regex_search(d, st)) { if (c.getType()->isPointerTy() && c.arg_size()) { setPass(c); } return; } }
    if (auto* mt = dyn_cast<MemTransferInst>(&c)) { mod(mt->getRawDest(), &c, "memcpy"); if (noPointers()) return; putContent(mt->getRawDest(), reach(mt->getRawSource())); return; }
    if (auto* ms = dyn_cast<MemSetInst>(&c)) { mod(ms->getRawDest(), &c, "memset"); return; }
    if (isa<IntrinsicInst>(c)) { if (c.getType()->isPointerTy()) for (auto& a : c.args()) if (a->getType()->isPointerTy()) { add(roots[&c], R(a), changed); setOwn(&c, bases(a)); } return; }
    StringRef n = f ? f->getName() : "";
    if (n.starts_with("_Znw") || n.starts_with("_Zna") || n == "malloc" || n == "calloc" || n == "__cxa_allocate_exception") return;
    if (n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv") || n == "free") { if (bases(c.getArgOperand(0)).empty()) mod(c.getArgOperand(0), &c, "delete"); return; }
    if (f && !f->isDeclaration()) {
      Sum cs = S[f]; // callee's summary so far
      auto arg = [&](int k) -> const Value* { return k >= 0 && k < (int)c.arg_size() ? c.getArgOperand(k) : nullptr; };
      for (int k : cs.mod) { if (k < 0) { if (s.mod.insert(k).second) { changed = true; s.why[k] = cs.why[k]; } continue; } auto* a = arg(k); if (!a) continue;
        // memory reachable from the argument is written
        RS r = R(a); if (local(a)) r.clear(); for (int x : r) if (s.mod.insert(x).second) { changed = true; s.why[x] = cs.why[k] + " <- " + shortName(&F) + " at " + locOf(&c); } }
      for (auto& fl : cs.flow) { auto* t = arg(fl.first); if (!t) continue; for (int k : fl.second) { if (k < 0) { putContent(t, {k}); continue; } auto* a = arg(k); if (a && a->getType()->isPointerTy()) { putContent(t, R(a)); for (auto* b : bases(a)) putContent(t, content[b]); } } }
      if (c.getType()->isPointerTy() || c.getType()->isAggregateType()) for (int k : cs.ret) { if (k < 0) { add(roots[&c], {k}, changed); continue; } auto* a = arg(k); if (!a) continue; add(roots[&c], reach(a), changed); setOwn(&c, bases(a)); }
      return; }
    if (f && pureExternal(n)) { if (c.getType()->isPointerTy()) for (auto& a : c.args()) if (a->getType()->isPointerTy()) { add(roots[&c], R(a), changed); setOwn(&c, bases(a)); } return; }
    if (c.onlyReadsMemory()) return;
    // an unknown function writes what its arguments point to
    unsigned i = 0; if (f) for (auto& a : c.args()) { unsigned k = i++; if (!a->getType()->isPointerTy() || c.onlyReadsMemory(k)) continue; mod(a, &c, "call of " + demangle(n.str()).substr(0, 100)); }
    if (!f && s.mod.insert(-2).second) { changed = true; s.why[-2] = "indirect call at " + locOf(&c) + " in " + shortName(&F); }
    if (c.getType()->isPointerTy()) for (auto& a : c.args()) if (a->getType()->isPointerTy()) { add(roots[&c], R(a), changed); setOwn(&c, bases(a)); }
  }
};
int main(int argc, char** argv) {
  cl::ParseCommandLineOptions(argc, argv);
  LLVMContext C; SMDiagnostic D; auto M = parseIRFile(In, D, C); if (!M) { errs() << "cannot read\n"; return 2; }
  { PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    FunctionPassManager FPM; if (PB.parsePassPipeline(FPM, "sroa,sccp,simplifycfg,adce")) return 2;
    for (auto& F : *M) if (!F.isDeclaration()) { F.removeFnAttr(Attribute::OptimizeNone); FPM.run(F, FAM); } }
  // devirtualisation is left out: an indirect call is unknown
  std::set<Function*> want; std::vector<Function*> q;
  for (auto& F : *M) if (!F.isDeclaration() && (Mode == "arg0" ? F.getName().starts_with("root_") : demangle(F.getName().str()).find("bool ogm_cond<") == 0)) { want.insert(&F); q.push_back(&F); }
  std::vector<Function*> order; std::set<Function*> seen; std::function<void(Function*)> dfs = [&](Function* F) { if (!seen.insert(F).second || F->isDeclaration()) return; for (auto& B : *F) for (auto& I : B) if (auto* c = dyn_cast<CallBase>(&I)) { if (auto* g = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts())) dfs(g); else { Fn tmp(*F); for (auto* g : tmp.targets(*c)) dfs(g); } } order.push_back(F); };
  for (auto* F : want) dfs(F);
  bool ch = true; int it = 0; while (ch && it++ < 12) { ch = false; for (auto* F : order) { Fn f(*F); f.s = S[F]; f.run(); if (!(f.s == S[F])) { ch = true; S[F] = f.s; } } }
  if (!Trace.empty()) for (auto* F : order) if (F->getName().contains(Trace) || demangle(F->getName().str()).find(Trace) != std::string::npos) { outs() << "SUM " << shortName(F) << " mod:"; for (int k : S[F].mod) outs() << " " << k << "(" << S[F].why[k] << ")"; outs() << " ret:"; for (int k : S[F].ret) outs() << " " << k; outs() << "\n"; }
  for (auto* F : want) { Sum& s = S[F];
    if (Mode == "arg0") { if (s.mod.count(0)) outs() << "WRITES\t" << F->getName() << "\t" << s.why[0] << "\n"; if (s.mod.count(-1)) outs() << "WRITES\t" << F->getName() << "\tstatic: " << s.why[-1] << "\n"; if (s.mod.count(-2)) outs() << "UNKNOWN\t" << F->getName() << "\t" << s.why[-2] << "\n"; outs() << "ROOT\t" << F->getName() << "\tfunctions=" << order.size() << "\n"; continue; }
    for (auto* U : F->users()) { auto* c = dyn_cast<CallBase>(U); if (!c || c->getCalledOperand() != F) continue; std::string w = locOf(c); outs() << "COND\t" << w << "\t" << shortName(c->getFunction()) << "\n"; if (s.mod.count(0) || s.mod.count(-1)) outs() << "WRITES\t" << w << "\t" << (s.mod.count(0) ? s.why[0] : s.why[-1]) << "\n"; if (s.mod.count(-2)) outs() << "UNKNOWN\t" << w << "\t" << s.why[-2] << "\n"; } }
  if (Mode != "arg0") outs() << "FUNCTIONS\t" << order.size() << "\n";
  return 0;
}
