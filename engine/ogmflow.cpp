// ogmflow: path-sensitive typestate analysis over LLVM IR, without running or solving anything.
//
// Input: bitcode of a unit (clang front end output).  Roots are extern "C" functions root_<name>.
// Every function that can reach an event is inlined into its root and the root is simplified; then a
// forward dataflow analysis propagates  typestate -> environment  along the edges of the control-flow
// graph (property-directed merging: environments are joined only within one typestate).  An
// environment maps SSA values and symbolic memory cells (base, offset) to small sets of constants or to
// a token; branches prune edges that contradict it and refine it.  Loops are iterated to a fixed point.
//
// -mode visitor : events ogm_vis_begin/ogm_vis_visit/ogm_vis_end; every visit may answer 0, 1 or 2
// -mode handle  : per opening call: the handle is closed exactly once on every way out
// -mode status  : per fallible call: after its failure the root never returns normally
// -mode forbid  : reachability of calls whose name matches -names from the roots, over the call graph
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Analysis/CaptureTracking.h"
#include "llvm/Analysis/AliasAnalysis.h"
#include "llvm/Demangle/Demangle.h"
#include <set>
#include <map>
#include <deque>
#include <vector>
#include <functional>
#include <regex>
using namespace llvm;
namespace {
cl::opt<std::string> In(cl::Positional, cl::Required);
cl::opt<std::string> Mode("mode", cl::init("visitor"));
cl::opt<std::string> Only("only");
cl::opt<std::string> Dump("dump");
cl::opt<std::string> Names("names");
cl::opt<std::string> Sites("sites"), Closers("closers"), Opaque("opaque");
cl::opt<bool> List("list");
cl::opt<bool> Verbose("vv");

// ---------------------------------------------------------------- abstract values
struct AV { int k = 0; std::vector<int64_t> c; const Value* r = nullptr;   // k: 0 top, 1 constants, 2 reference to a load/argument, 3 tracked handle
  bool operator==(const AV& o) const { return k == o.k && c == o.c && r == o.r; } };
AV top() { return {}; }
AV con(int64_t x) { AV a; a.k = 1; a.c = {x}; return a; }
AV conset(std::vector<int64_t> v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); if (v.size() > 6 || v.empty()) return top(); AV a; a.k = 1; a.c = v; return a; }
AV ref(const Value* v) { AV a; a.k = 2; a.r = v; return a; }
AV hnd() { AV a; a.k = 3; return a; }
AV joinAV(const AV& a, const AV& b) { if (a == b) return a; if (a.k == 1 && b.k == 1) { auto v = a.c; v.insert(v.end(), b.c.begin(), b.c.end()); return conset(v); } return top(); }
typedef std::pair<const Value*, int64_t> Cell;
const int64_t VALKEY = INT64_MIN;      // key of an SSA value itself
struct Env { std::map<Cell, AV> m;
  bool operator==(const Env& o) const { return m == o.m; } };
Env joinEnv(const Env& a, const Env& b) { Env r; for (auto& p : a.m) { auto it = b.m.find(p.first); if (it == b.m.end()) continue; AV j = joinAV(p.second, it->second); if (j.k) r.m[p.first] = j; } return r; }

const DataLayout* DL;
AV get(const Env& e, const Value* v) {
  if (auto* c = dyn_cast<ConstantInt>(v)) return c->getBitWidth() <= 64 ? con(c->getSExtValue()) : top();
  if (isa<ConstantPointerNull>(v)) return con(0);
  auto it = e.m.find({v, VALKEY}); if (it == e.m.end()) return top();
  if (it->second.k == 2 && it->second.r != v) { auto jt = e.m.find({it->second.r, VALKEY}); if (jt != e.m.end() && (jt->second.k == 1 || jt->second.k == 3)) return jt->second; }
  return it->second; }
const Value* canon(const Env& e, const Value* v) { auto it = e.m.find({v, VALKEY}); if (it != e.m.end() && it->second.k == 2) return it->second.r; return v; }
void setv(Env& e, const Value* v, AV a) { if (isa<Constant>(v)) return; if (a.k == 2 && a.r == v) a = top(); if (a.k) e.m[{v, VALKEY}] = a; else e.m.erase({v, VALKEY}); }
bool cellOf(const Env& e, const Value* p, Cell& c) {
  APInt off(DL->getIndexTypeSizeInBits(p->getType()), 0); const Value* b = p->stripAndAccumulateConstantOffsets(*DL, off, true);
  c = {canon(e, b), off.getSExtValue()}; return true; }
// I is (re)computed: whatever was known relative to its old value is gone
void redefine(Env& e, const Value* I) {
  AV old = get(e, I); std::vector<Cell> kill; std::vector<std::pair<Cell, AV>> upd;
  for (auto& p : e.m) { if (p.first.first == I) kill.push_back(p.first);
    else if (p.second.k == 2 && p.second.r == I) { if (old.k == 1 || old.k == 3) upd.push_back({p.first, old}); else kill.push_back(p.first); } }
  for (auto& k : kill) e.m.erase(k); for (auto& u : upd) e.m[u.first] = u.second; }
void assign(Env& e, const Value* I, AV a) { if (a.k == 2 && a.r == I) a = top(); redefine(e, I); setv(e, I, a); }
bool feasible(Env& e, const Value* c, bool t, int d = 0);
bool restrictTo(Env& e, const Value* v, const std::function<bool(int64_t)>& ok, const int64_t* exact) {
  AV a = get(e, v);
  if (a.k == 1) { std::vector<int64_t> s; for (auto x : a.c) if (ok(x)) s.push_back(x); if (s.empty()) return false; a = conset(s); }
  else if (a.k == 3) { return true; }
  else if (exact) a = con(*exact); else return true;
  const Value* w = canon(e, v); setv(e, w, a); if (w != v) { /* v keeps its reference */ }
  return true; }
bool cmp(ICmpInst::Predicate p, int64_t x, int64_t y, unsigned bits) {
  uint64_t m = bits >= 64 ? ~0ULL : ((1ULL << bits) - 1), ux = (uint64_t)x & m, uy = (uint64_t)y & m;
  switch (p) { case ICmpInst::ICMP_EQ: return ux == uy; case ICmpInst::ICMP_NE: return ux != uy; case ICmpInst::ICMP_ULT: return ux < uy; case ICmpInst::ICMP_ULE: return ux <= uy;
    case ICmpInst::ICMP_UGT: return ux > uy; case ICmpInst::ICMP_UGE: return ux >= uy; case ICmpInst::ICMP_SLT: return x < y; case ICmpInst::ICMP_SLE: return x <= y;
    case ICmpInst::ICMP_SGT: return x > y; case ICmpInst::ICMP_SGE: return x >= y; default: return true; } }
unsigned bitsOf(const Value* v) { return v->getType()->isIntegerTy() ? v->getType()->getIntegerBitWidth() : 64; }
// a tracked handle is a valid one, so it is >= 0
AV evalCmp(const Env& e, const ICmpInst* I) {
  AV a = get(e, I->getOperand(0)), b = get(e, I->getOperand(1)); auto p = I->getPredicate(); unsigned n = bitsOf(I->getOperand(0));
  if (a.k == 3 && b.k == 1 && b.c.size() == 1) { int64_t y = b.c[0]; if (p == ICmpInst::ICMP_SLT && y <= 0) return con(0); if (p == ICmpInst::ICMP_SGT && y < 0) return con(-1); if (p == ICmpInst::ICMP_SGE && y <= 0) return con(-1); if (p == ICmpInst::ICMP_SLE && y < 0) return con(0); if (p == ICmpInst::ICMP_EQ && y < 0) return con(0); if (p == ICmpInst::ICMP_NE && y < 0) return con(-1); return top(); }
  if (a.k == 2 && b.k == 2 && a.r == b.r) return con(cmp(p, 0, 0, n) ? -1 : 0);
  if (I->getOperand(0) == I->getOperand(1)) return con(cmp(p, 0, 0, n) ? -1 : 0);
  if (a.k != 1 || b.k != 1) return top();
  bool t = false, f = false; for (auto x : a.c) for (auto y : b.c) (cmp(p, x, y, n) ? t : f) = true;
  return t && f ? top() : con(t ? -1 : 0); }
bool feasible(Env& e, const Value* c, bool t, int d) {
  AV a = get(e, c); if (a.k == 1) { bool ok = false; for (auto x : a.c) if ((x != 0) == t) ok = true; if (!ok) return false; }
  if (isa<Constant>(c)) return true;
  setv(e, canon(e, c), con(t ? -1 : 0)); if (canon(e, c) != c) {} 
  if (d > 6) return true;
  if (auto* I = dyn_cast<ICmpInst>(c)) {
    auto p = t ? I->getPredicate() : I->getInversePredicate(); unsigned n = bitsOf(I->getOperand(0));
    AV x = get(e, I->getOperand(0)), y = get(e, I->getOperand(1));
    if (y.k == 1 && y.c.size() == 1) { int64_t k = y.c[0]; bool ex = p == ICmpInst::ICMP_EQ; if (!restrictTo(e, I->getOperand(0), [&](int64_t v) { return cmp(p, v, k, n); }, ex ? &k : nullptr)) return false; }
    if (x.k == 1 && x.c.size() == 1) { int64_t k = x.c[0]; bool ex = p == ICmpInst::ICMP_EQ; if (!restrictTo(e, I->getOperand(1), [&](int64_t v) { return cmp(p, k, v, n); }, ex ? &k : nullptr)) return false; }
    return true; }
  if (auto* I = dyn_cast<BinaryOperator>(c)) {
    if (I->getOpcode() == Instruction::Xor) { if (auto* k = dyn_cast<ConstantInt>(I->getOperand(1))) if (k->isAllOnesValue()) return feasible(e, I->getOperand(0), !t, d + 1); }
    if ((I->getOpcode() == Instruction::And && t) || (I->getOpcode() == Instruction::Or && !t)) return feasible(e, I->getOperand(0), t, d + 1) && feasible(e, I->getOperand(1), t, d + 1); }
  if (auto* I = dyn_cast<SelectInst>(c)) if (I->getType()->isIntegerTy(1)) {
    if (auto* k = dyn_cast<ConstantInt>(I->getFalseValue())) if (k->isOne() != t) return feasible(e, I->getCondition(), true, d + 1) && feasible(e, I->getTrueValue(), t, d + 1);
    if (auto* k = dyn_cast<ConstantInt>(I->getTrueValue())) if (k->isOne() != t) return feasible(e, I->getCondition(), false, d + 1) && feasible(e, I->getFalseValue(), t, d + 1); }
  if (auto* I = dyn_cast<TruncInst>(c)) { AV x = get(e, I->getOperand(0)); if (x.k == 1) { std::vector<int64_t> s; for (auto v : x.c) if (((v & 1) != 0) == t) s.push_back(v); if (s.empty()) return false; setv(e, canon(e, I->getOperand(0)), conset(s)); } }
  if (auto* I = dyn_cast<FreezeInst>(c)) return feasible(e, I->getOperand(0), t, d + 1);
  if (auto* I = dyn_cast<PHINode>(c)) { (void)I; }
  return true; }

// ---------------------------------------------------------------- what a non-inlined function may store through its arguments
struct Mod { std::set<std::pair<int, int64_t>> cells; std::set<int> all; bool done = false; };   // index -1: globals
std::map<const Function*, Mod> Mods;
int argIndexOf(const Value* b) { if (auto* a = dyn_cast<Argument>(b)) return a->getArgNo(); return -2; }
const Mod& modOf(const Function* F, int depth = 0) {
  Mod& M = Mods[F]; if (M.done) return M; M.done = true;
  if (depth > 12) return M;
  for (auto& B : *F) for (auto& I : B) {
    const Value* p = nullptr;
    if (auto* s = dyn_cast<StoreInst>(&I)) p = s->getPointerOperand();
    if (p) { APInt off(64, 0); const Value* b = p->stripAndAccumulateConstantOffsets(*DL, off, true); int k = argIndexOf(b); if (k >= 0) M.cells.insert({k, off.getSExtValue()}); else if (k == -2) { const Value* u = getUnderlyingObject(b); int k2 = argIndexOf(u); if (k2 >= 0) M.all.insert(k2); } }
    if (auto* c = dyn_cast<CallBase>(&I)) { const Function* G = c->getCalledFunction();
      if (auto* mi = dyn_cast<MemIntrinsic>(c)) { int k = argIndexOf(getUnderlyingObject(mi->getDest())); if (k >= 0) M.all.insert(k); continue; }
      if (!G || G->isDeclaration() || G == F) continue;
      Mod N = modOf(G, depth + 1);
      for (auto& q : N.cells) if (q.first < (int)c->arg_size() && c->getArgOperand(q.first)->getType()->isPointerTy()) { APInt off(64, 0); const Value* b = c->getArgOperand(q.first)->stripAndAccumulateConstantOffsets(*DL, off, true); int k = argIndexOf(b); if (k >= 0) M.cells.insert({k, off.getSExtValue() + q.second}); }
      for (int q : N.all) if (q < (int)c->arg_size() && c->getArgOperand(q)->getType()->isPointerTy()) { int k = argIndexOf(getUnderlyingObject(c->getArgOperand(q))); if (k >= 0) M.all.insert(k); } } }
  return M; }
void killCells(Env& e, const Value* base, int64_t from, int64_t to) { for (auto it = e.m.begin(); it != e.m.end();) { if (it->first.first == base && it->first.second != VALKEY && it->first.second >= from && it->first.second < to) it = e.m.erase(it); else ++it; } }
std::set<std::string> OpaqueFns;
bool Pessimistic = false;   // a store through one pointer may change what another one points to
std::map<const Value*, bool> Captured;
bool localOnly(const Value* v) { if (!isa<AllocaInst>(v)) return false; auto it = Captured.find(v); if (it != Captured.end()) return !it->second; bool c = PointerMayBeCaptured(v, true, true); Captured[v] = c; return !c; }
void applyCallEffects(Env& e, const CallBase* c) {
  const Function* G = c->getCalledFunction();
  if (auto* mi = dyn_cast<MemIntrinsic>(c)) { Cell d; cellOf(e, mi->getDest(), d); int64_t n = INT64_MAX; if (auto* k = dyn_cast<ConstantInt>(mi->getLength())) n = d.second + k->getSExtValue(); killCells(e, d.first, d.second, n);
    if (auto* ms = dyn_cast<MemSetInst>(c)) if (auto* k = dyn_cast<ConstantInt>(ms->getValue())) if (k->isZero() && n != INT64_MAX && n - d.second <= 128) for (int64_t o = d.second; o < n; ++o) if (true) e.m[{d.first, o}] = con(0);
    return; }
  if (G && OpaqueFns.count(G->getName().str())) {   // anything the function can reach may have changed
    for (auto it = e.m.begin(); it != e.m.end();) { bool k = it->first.second != VALKEY && !localOnly(it->first.first); if (k) it = e.m.erase(it); else ++it; }
    return; }
  if (!G || G->isDeclaration()) return;
  const Mod& M = modOf(G);
  for (auto& q : M.cells) if (q.first < (int)c->arg_size()) { Cell d; cellOf(e, c->getArgOperand(q.first), d); killCells(e, d.first, d.second + q.second - 7, d.second + q.second + 8); }
  for (int q : M.all) if (q < (int)c->arg_size()) { Cell d; cellOf(e, c->getArgOperand(q), d); killCells(e, d.first, INT64_MIN + 1, INT64_MAX); } }

// ---------------------------------------------------------------- transfer of one ordinary instruction
bool mayAlias(const Value* a, const Value* b) { a = getUnderlyingObject(a); b = getUnderlyingObject(b); if (a == b) return true; if (isIdentifiedObject(a) && isIdentifiedObject(b)) return false; return !localOnly(a) && !localOnly(b); }

void transfer(Env& e, const Instruction& I) {
  if (auto* s = dyn_cast<StoreInst>(&I)) { Cell c; cellOf(e, s->getPointerOperand(), c); int64_t n = DL->getTypeStoreSize(s->getValueOperand()->getType());
    killCells(e, c.first, c.second - 7, c.second + n);
    if (Pessimistic) for (auto it = e.m.begin(); it != e.m.end();) if (it->first.second != VALKEY && it->first.first != c.first && mayAlias(it->first.first, c.first)) it = e.m.erase(it); else ++it;
    const Value* v = s->getValueOperand(); AV a = get(e, v);
    if (!a.k && !isa<Constant>(v) && (v->getType()->isIntegerTy() || v->getType()->isPointerTy())) a = ref(v);
    if (a.k) e.m[c] = a; return; }
  if (auto* l = dyn_cast<LoadInst>(&I)) {
    if (!(l->getType()->isIntegerTy() || l->getType()->isPointerTy())) return;
    Cell c; cellOf(e, l->getPointerOperand(), c); auto it = e.m.find(c); AV a = it == e.m.end() ? top() : it->second;
    if (a.k == 2 && a.r == l) return;             // same cell, not overwritten: same value
    redefine(e, l); 
    if (a.k == 2) { auto jt = e.m.find({a.r, VALKEY}); if (jt != e.m.end() && jt->second.k != 2) { } setv(e, l, a); return; }
    if (a.k) { setv(e, l, a); return; }
    cellOf(e, l->getPointerOperand(), c); e.m[c] = ref(l); return; }
  if (I.getType()->isVoidTy()) { if (auto* c = dyn_cast<CallBase>(&I)) applyCallEffects(e, c); return; }
  AV r = top();
  // the storage library refuses an invalid handle
  if (auto* c = dyn_cast<CallBase>(&I)) if (auto* G = c->getCalledFunction()) if (G->isDeclaration() && G->getName().starts_with("H5") && I.getType()->isIntegerTy()) for (auto& u : c->args()) if (u->getType()->isIntegerTy(64)) { AV x = get(e, u); if (x.k == 1 && x.c == std::vector<int64_t>{-1}) r = con(-1); }
  if (auto* c = dyn_cast<ICmpInst>(&I)) r = evalCmp(e, c);
  else if (auto* b = dyn_cast<BinaryOperator>(&I)) { AV x = get(e, b->getOperand(0)), y = get(e, b->getOperand(1));
    if (x.k == 1 && y.k == 1 && b->getType()->isIntegerTy() && bitsOf(b) <= 64 && x.c.size() * y.c.size() <= 16) { std::vector<int64_t> s; bool ok = true; for (auto u : x.c) for (auto v : y.c) { auto* k = ConstantFoldBinaryOpOperands(b->getOpcode(), ConstantInt::get(b->getType(), u, true), ConstantInt::get(b->getType(), v, true), *DL); auto* ci = dyn_cast_or_null<ConstantInt>(k); if (ci) s.push_back(ci->getSExtValue()); else ok = false; } if (ok) r = conset(s); }
    else if (b->getOpcode() == Instruction::And && ((x.k == 1 && x.c == std::vector<int64_t>{0}) || (y.k == 1 && y.c == std::vector<int64_t>{0}))) r = con(0);
    else if (b->getOpcode() == Instruction::Or && ((x.k == 1 && x.c == std::vector<int64_t>{-1}) || (y.k == 1 && y.c == std::vector<int64_t>{-1}))) r = con(-1);
    else if (b->getOpcode() == Instruction::Or && b->getType()->isIntegerTy(1) && ((x.k == 1 && x.c == std::vector<int64_t>{-1}) || (y.k == 1 && y.c == std::vector<int64_t>{-1}))) r = con(-1); }
  else if (auto* z = dyn_cast<CastInst>(&I)) { AV x = get(e, z->getOperand(0));
    if (isa<PtrToIntInst>(z) || isa<IntToPtrInst>(z)) r = x.k == 1 ? x : top();
    else if (x.k == 1 && z->getSrcTy()->isIntegerTy() && z->getDestTy()->isIntegerTy() && bitsOf(z) <= 64) { std::vector<int64_t> s; for (auto v : x.c) { APInt a(bitsOf(z->getOperand(0)), (uint64_t)v, true); APInt b = isa<ZExtInst>(z) ? a.zext(bitsOf(z)) : isa<SExtInst>(z) ? a.sext(bitsOf(z)) : a.trunc(bitsOf(z)); s.push_back(b.getSExtValue()); } r = conset(s); } }
  else if (auto* s = dyn_cast<SelectInst>(&I)) { AV c = get(e, s->getCondition()); if (c.k == 1 && c.c.size() == 1) r = get(e, c.c[0] ? s->getTrueValue() : s->getFalseValue()); else r = joinAV(get(e, s->getTrueValue()), get(e, s->getFalseValue())); }
  else if (isa<FreezeInst>(&I)) r = get(e, I.getOperand(0));
  else if (auto* c = dyn_cast<CallBase>(&I)) { applyCallEffects(e, c); if (auto* ii = dyn_cast<IntrinsicInst>(c)) { if (ii->getIntrinsicID() == Intrinsic::expect) r = get(e, c->getArgOperand(0)); if (ii->getIntrinsicID() == Intrinsic::smin) { AV x = get(e, c->getArgOperand(0)), y = get(e, c->getArgOperand(1)); if ((x.k == 1 && x.c == std::vector<int64_t>{-1}) || (y.k == 1 && y.c == std::vector<int64_t>{-1})) r = con(-1); } } }
  assign(e, &I, r); }

// ---------------------------------------------------------------- events
enum { NB = 0, BEGUN, STOP1, STOP2, ENDED };            // visitor
enum { H_NONE = 0, H_OPEN, H_CLOSED, H_FAILED, H_ESC };  // handle / status
std::vector<std::string> splitc(const std::string& s) { std::vector<std::string> r; std::string t; for (char ch : s) if (ch == ',') { if (t.size()) r.push_back(t); t.clear(); } else t += ch; if (t.size()) r.push_back(t); return r; }
std::set<std::string> SiteNames, CloserNames;
const CallBase* Site = nullptr;
struct Finding { std::string root, kind, where, fn, extra; };
std::vector<Finding> Out; std::set<std::string> Seen;
// the innermost inlined frame that lies in the repository's headers
const DILocation* repoLoc(const DILocation* L) { for (const DILocation* l = L; l; l = l->getInlinedAt()) { StringRef f = l->getFilename(); if (f.contains("include/opengm/") && !f.contains("visitors.hxx")) return l; } return L; }
std::string fnOf(const DILocation* L) { L = repoLoc(L); if (!L) return "?"; auto* sp = L->getScope()->getSubprogram(); if (!sp) return "?"; std::string n = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str()); return n; }
std::string locOf(const Instruction* I) { const DILocation* L = repoLoc(I->getDebugLoc()); if (!L) return "?"; std::string f = L->getFilename().str(); auto p = f.find("include/opengm/"); if (p != std::string::npos) f = f.substr(p); return f + ":" + std::to_string(L->getLine()); }
void report(const std::string& root, const std::string& kind, const Instruction* at, const std::string& extra) {
  std::string k = root + kind + locOf(at) + extra; if (!Seen.insert(k).second) return; Out.push_back({root, kind, locOf(at), fnOf(at->getDebugLoc()), extra}); }
std::string calleeName(const CallBase* c) { const Value* v = c->getCalledOperand()->stripPointerCasts(); return isa<Function>(v) ? v->getName().str() : ""; }
// raising an exception; running out of memory is not considered
bool isThrow(const std::string& n) { if (n.find("bad_alloc") != std::string::npos || n.find("bad_array_new") != std::string::npos || n.find("length_error") != std::string::npos) return false; return n == "__cxa_throw" || n == "__cxa_rethrow" || n == "_Unwind_Resume" || n.rfind("_ZSt", 0) == 0 && n.find("__throw_") != std::string::npos; }
// a function that was not inlined: may it raise an exception of its own
std::map<const Function*, int> MayThrow;
bool mayThrow(const Function* F, int d = 0) {
  if (!F) return false; if (OpaqueFns.count(F->getName().str())) return true; if (F->isDeclaration() || F->doesNotThrow()) return false;
  auto it = MayThrow.find(F); if (it != MayThrow.end()) return it->second; MayThrow[F] = 0; if (d > 40) return false;
  for (auto& B : *F) for (auto& I : B) if (auto* c = dyn_cast<CallBase>(&I)) { std::string n = calleeName(c); if ((n != "_Unwind_Resume" && isThrow(n)) || mayThrow(dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts()), d + 1)) { MayThrow[F] = 1; return true; } }
  return false; }

typedef std::map<int, Env> SMap;
struct Ana { Function* F; std::string root; std::map<const BasicBlock*, SMap> in; std::deque<std::pair<const BasicBlock*, int>> wl; std::set<std::pair<const BasicBlock*, int>> inwl; uint64_t steps = 0; uint64_t events = 0; std::set<const Instruction*> evs; std::set<std::pair<const BasicBlock*, int>> visited;
  std::map<std::pair<const BasicBlock*, int>, int> hits;
  void push(const BasicBlock* from, const BasicBlock* to, int st, Env e) {
    // phis
    std::vector<std::pair<const PHINode*, AV>> ph; for (auto& p : to->phis()) { const Value* v = p.getIncomingValueForBlock(from); AV a = get(e, v); if (!a.k && !isa<Constant>(v) && !isa<PHINode>(v)) a = ref(v); else if (a.k == 2 && a.r == &p) { continue; } ph.push_back({&p, a}); }
    for (auto& p : ph) redefine(e, p.first);
    for (auto& p : ph) { AV a = p.second; if (a.k == 2) { bool self = false; for (auto& q : ph) if (q.first == a.r) self = true; if (self) a = top(); } setv(e, p.first, a); }
    auto& sm = in[to]; auto it = sm.find(st); bool ch = false;
    if (it == sm.end()) { sm[st] = e; ch = true; } else { Env j = joinEnv(it->second, e); if (!(j == it->second)) { if (++hits[{to, st}] > 60) { for (auto q = j.m.begin(); q != j.m.end();) if (q->second.k == 1 && q->second.c.size() > 1) q = j.m.erase(q); else ++q; } it->second = j; ch = true; } }
    if (ch && inwl.insert({to, st}).second) wl.push_back({to, st}); }
  void exitNormal(const Instruction* at, int st, const Env& e) {
    if (Mode == "visitor") { if (st == BEGUN || st == STOP1 || st == STOP2) report(root, "return-without-end", at, st == BEGUN ? "begun" : "stopped"); if (st == NB) report(root, "return-without-begin", at, ""); }
    if (Mode == "handle" && st == H_OPEN) { auto* r = dyn_cast<ReturnInst>(at); if (r && r->getReturnValue() && get(e, r->getReturnValue()).k == 3) return; report(root, "not-closed-on-return", Site, calleeName(Site)); }
    if (Mode == "status" && st == H_FAILED) report(root, "returns-after-failure", Site, calleeName(Site)); }
  void exitThrow(const Instruction* at, int st, const Env& e) {
    if (Mode == "handle" && st == H_OPEN) report(root, "not-closed-on-throw", Site, calleeName(Site) + " throw at " + locOf(at)); }
  void run(const BasicBlock* B, int st0) {
    std::vector<std::pair<int, Env>> cur; cur.push_back({st0, in[B][st0]});
    for (auto& I : *B) { if (isa<PHINode>(I)) continue; ++steps;
      auto* c = dyn_cast<CallBase>(&I); std::string n = c ? calleeName(c) : "";
      if (isa<DbgInfoIntrinsic>(I)) continue;
      if (Mode == "visitor" && (n == "ogm_vis_begin" || n == "ogm_vis_visit" || n == "ogm_vis_end")) {
        evs.insert(&I); std::vector<std::pair<int, Env>> nxt;
        for (auto& s : cur) {
          if (n == "ogm_vis_begin") { if (s.first != NB) { report(root, s.first == ENDED ? "begin-after-end" : "second-begin", &I, ""); } nxt.push_back({BEGUN, s.second}); assign(nxt.back().second, &I, top()); }
          else if (n == "ogm_vis_end") { if (s.first == NB) report(root, "end-before-begin", &I, ""); if (s.first == ENDED) report(root, "second-end", &I, ""); nxt.push_back({ENDED, s.second}); }
          else { if (s.first == NB) report(root, "visit-before-begin", &I, ""); if (s.first == ENDED) report(root, "visit-after-end", &I, ""); if (s.first == STOP1 || s.first == STOP2) { report(root, "visit-after-stop", &I, s.first == STOP1 ? "bound reached" : "timeout"); }
            for (int a = 0; a < 3; ++a) { Env e = s.second; assign(e, &I, con(a)); nxt.push_back({s.first == ENDED ? (int)ENDED : a == 0 ? BEGUN : a == 1 ? STOP1 : STOP2, e}); } } }
        // join equal states
        std::map<int, Env> j; for (auto& s : nxt) { auto it = j.find(s.first); if (it == j.end()) j[s.first] = s.second; else it->second = joinEnv(it->second, s.second); }
        cur.clear(); for (auto& s : j) cur.push_back(s);
      } else if (Mode == "handle" && c && c == Site) {
        evs.insert(&I); std::vector<std::pair<int, Env>> nxt;
        for (auto& s : cur) { if (s.first == H_OPEN) { report(root, "opened-again-while-open", Site, n); }
          Env e = s.second; assign(e, &I, hnd()); nxt.push_back({H_OPEN, e}); Env f = s.second; redefine(f, &I); for (auto it = f.m.begin(); it != f.m.end();) if (it->second.k == 3) it = f.m.erase(it); else ++it; setv(f, &I, con(-1)); nxt.push_back({H_NONE, f}); }
        std::map<int, Env> j; for (auto& s : nxt) { auto it = j.find(s.first); if (it == j.end()) j[s.first] = s.second; else it->second = joinEnv(it->second, s.second); }
        cur.clear(); for (auto& s : j) cur.push_back(s);
      } else if (Mode == "handle" && c && CloserNames.count(n)) {
        evs.insert(&I);
        for (auto& s : cur) { AV a = get(s.second, c->getArgOperand(0)); if (a.k == 3) { if (s.first == H_CLOSED) report(root, "closed-twice", Site, n + " at " + locOf(&I)); else if (s.first == H_OPEN) s.first = H_CLOSED; } else if (s.first == H_OPEN && a.k != 1) { const Value* w = canon(s.second, c->getArgOperand(0)); bool other = isa<CallBase>(w) && SiteNames.count(calleeName(cast<CallBase>(w))); if (!other && !isa<Argument>(w)) { bool arg = false; if (auto* l = dyn_cast<LoadInst>(w)) arg = isa<Argument>(getUnderlyingObject(l->getPointerOperand())) || isa<GlobalVariable>(getUnderlyingObject(l->getPointerOperand())); if (!arg) s.first = H_ESC; } } redefine(s.second, &I); }
        std::map<int, Env> j; for (auto& s : cur) { auto it = j.find(s.first); if (it == j.end()) j[s.first] = s.second; else it->second = joinEnv(it->second, s.second); }
        cur.clear(); for (auto& s : j) cur.push_back(s);
      } else if (Mode == "status" && c && c == Site) {
        evs.insert(&I); std::vector<std::pair<int, Env>> nxt;
        for (auto& s : cur) { Env e = s.second; assign(e, &I, hnd()); nxt.push_back({s.first, e}); Env f = s.second; redefine(f, &I); setv(f, &I, con(-1)); nxt.push_back({H_FAILED, f}); }
        std::map<int, Env> j; for (auto& s : nxt) { auto it = j.find(s.first); if (it == j.end()) j[s.first] = s.second; else it->second = joinEnv(it->second, s.second); }
        cur.clear(); for (auto& s : j) cur.push_back(s);
      } else if (I.isTerminator()) { for (auto& s : cur) term(B, &I, s.first, s.second); }
      else { if (c && isThrow(n)) { for (auto& s : cur) exitThrow(&I, s.first, s.second); return; }
        if (c && c->doesNotReturn()) return;
        if (c && Mode != "visitor" && mayThrow(c->getCalledFunction())) for (auto& s : cur) exitThrow(&I, s.first, s.second);
        for (auto& s : cur) transfer(s.second, I); }
      // an event that is itself an invoke
      if (I.isTerminator() == false) continue;
      if (auto* iv = dyn_cast<InvokeInst>(&I)) if (evs.count(&I)) for (auto& s : cur) push(B, iv->getNormalDest(), s.first, s.second); } }
  void term(const BasicBlock* B, const Instruction* T, int st, Env& e) {
    if (auto* r = dyn_cast<ReturnInst>(T)) { exitNormal(r, st, e); return; }
    if (isa<ResumeInst>(T)) { exitThrow(T, st, e); return; }
    if (auto* b = dyn_cast<BranchInst>(T)) { if (b->isUnconditional()) { push(B, b->getSuccessor(0), st, e); return; }
      Env x = e; if (feasible(x, b->getCondition(), true)) push(B, b->getSuccessor(0), st, x); Env y = e; if (feasible(y, b->getCondition(), false)) push(B, b->getSuccessor(1), st, y); return; }
    if (auto* s = dyn_cast<SwitchInst>(T)) { AV a = get(e, s->getCondition()); std::set<int64_t> cs;
      for (auto& k : s->cases()) { int64_t v = k.getCaseValue()->getSExtValue(); cs.insert(v); if (a.k == 1 && !std::count(a.c.begin(), a.c.end(), v)) continue; Env x = e; setv(x, canon(x, s->getCondition()), con(v)); push(B, k.getCaseSuccessor(), st, x); }
      Env x = e; if (a.k == 1) { std::vector<int64_t> r; for (auto v : a.c) if (!cs.count(v)) r.push_back(v); if (r.empty()) return; setv(x, canon(x, s->getCondition()), conset(r)); } push(B, s->getDefaultDest(), st, x); return; }
    if (auto* iv = dyn_cast<InvokeInst>(T)) { std::string n = calleeName(iv);
      if (isThrow(n)) { if (Mode != "visitor") { Env x = e; redefine(x, iv); push(B, iv->getUnwindDest(), st, x); } return; }
      if (Mode != "visitor" && mayThrow(iv->getCalledFunction())) { Env x = e; applyCallEffects(x, iv); redefine(x, iv); push(B, iv->getUnwindDest(), st, x); }
      if (iv->doesNotReturn()) return; Env x = e; transfer(x, *iv); push(B, iv->getNormalDest(), st, x); return; }
    for (unsigned i = 0; i < T->getNumSuccessors(); ++i) push(B, T->getSuccessor(i), st, e); }
  void go() { in[&F->getEntryBlock()][0] = Env(); wl.push_back({&F->getEntryBlock(), 0}); inwl.insert({&F->getEntryBlock(), 0});
    while (!wl.empty()) { auto p = wl.front(); wl.pop_front(); inwl.erase(p); visited.insert(p); run(p.first, p.second); if (steps > 400000000ULL) { outs() << "LIMIT\t" << root << "\n"; break; } } } };
}

int main(int argc, char** argv) {
  cl::ParseCommandLineOptions(argc, argv);
  LLVMContext C; SMDiagnostic D; auto M = parseIRFile(In, D, C); if (!M) { errs() << "cannot read " << In << "\n"; return 2; }
  DL = &M->getDataLayout(); Pessimistic = Mode != "visitor";
  std::vector<Function*> roots; for (auto& F : *M) if (F.getName().starts_with("root_") && !F.isDeclaration() && (Only.empty() || F.getName() == Only.getValue())) roots.push_back(&F);
  if (List) { for (auto* F : roots) outs() << F->getName() << "\n"; return 0; }
  for (auto& s : splitc(Sites)) SiteNames.insert(s); for (auto& s : splitc(Closers)) CloserNames.insert(s);
  auto isEvent = [&](StringRef n) { if (Mode == "visitor") return n.starts_with("ogm_vis_"); return SiteNames.count(n.str()) || CloserNames.count(n.str()); };
  // callers graph
  std::map<Function*, std::set<Function*>> callees; for (auto& F : *M) for (auto& B : F) for (auto& I : B) if (auto* c = dyn_cast<CallBase>(&I)) if (auto* G = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts())) callees[&F].insert(G);
  if (Mode == "forbid") {
    std::regex re(Names.getValue());
    { PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
      PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
      FunctionPassManager FPM; if (PB.parsePassPipeline(FPM, "sroa,sccp,simplifycfg<no-switch-to-lookup;no-sink-common-insts>,adce")) { errs() << "pipeline\n"; return 2; }
      for (auto& F : *M) if (!F.isDeclaration()) { F.removeFnAttr(Attribute::OptimizeNone); FPM.run(F, FAM); } }
    // address-taken functions and vtables: a function whose address is used in a reached function (or a reached global) counts as reached
    for (auto* R : roots) { std::map<const Value*, const Value*> par; std::deque<const Value*> q; q.push_back(R); par[R] = nullptr; uint64_t nf = 0;
      auto reach = [&](const Value* v, const Value* from) { if (!par.count(v)) { par[v] = from; q.push_back(v); } };
      while (!q.empty()) { const Value* v = q.front(); q.pop_front();
        std::function<void(const Constant*)> scan = [&](const Constant* k) { if (isa<GlobalValue>(k)) { reach(k, v); return; } for (auto& o : k->operands()) if (auto* kk = dyn_cast<Constant>(o)) scan(kk); };
        if (auto* G = dyn_cast<GlobalVariable>(v)) { if (G->hasInitializer()) scan(G->getInitializer()); continue; }
        auto* F = const_cast<Function*>(dyn_cast<Function>(v)); if (!F) continue; ++nf;
        std::string dn = demangle(F->getName().str());
        if (F->isDeclaration() || std::regex_search(F->getName().str(), re)) { if (std::regex_search(F->getName().str(), re)) { std::string path; const Value* p = v; int d = 0; while (p && d++ < 12) { std::string s = demangle(p->getName().str()); if (s.size() > 160) s = s.substr(0, 160) + "..."; path += (path.empty() ? "" : " <- ") + s; p = par[p]; } outs() << "FORBID\t" << R->getName() << "\t" << F->getName() << "\t" << path << "\n"; } if (F->isDeclaration()) continue; }
        auto pathOf = [&](const Value* p) { std::string path; int d = 0; while (p && d++ < 12) { std::string s = demangle(p->getName().str()); if (s.size() > 160) s = s.substr(0, 160) + "..."; path += (path.empty() ? "" : " <- ") + s; p = par[p]; } return path; };
        for (auto& B : *F) for (auto& I : B) {
          for (auto& o : I.operands()) if (auto* k = dyn_cast<Constant>(o)) scan(k);
          std::string file; if (auto* sp = F->getSubprogram()) file = sp->getFilename().str();
          bool ours = file.empty() || (file.find("/usr/") == std::string::npos && file.find("/c++/") == std::string::npos && file.find("boost/") == std::string::npos && file.find("marray.hxx") == std::string::npos);
          bool functor = dn.find("__ops::_Iter_") != std::string::npos || dn.find("__ops::_Val_") != std::string::npos || (dn.find("bool std::operator") == 0 && dn.find("std::pair<") != std::string::npos);
          auto inGuard = [&](Instruction* x) { for (auto& BB : *F) for (auto& J : BB) if (auto* c = dyn_cast<CallBase>(&J)) if (calleeName(c) == "__cxa_guard_acquire") { DominatorTree DT(*F); bool after = false; for (auto& B3 : *F) for (auto& K : B3) if (auto* c2 = dyn_cast<CallBase>(&K)) if (calleeName(c2) == "__cxa_guard_release" && DT.dominates(c2, x)) after = true; if (!after && DT.dominates(c, x)) return true; } return false; };
          auto hidden = [&](GlobalVariable* G) { if (G->isConstant() || !G->hasInitializer()) return false; std::string n = demangle(G->getName().str()); if (n.find("std::") == 0 || n.find("boost::") == 0 || n.find("guard variable") == 0 || n.find("__cxx") != std::string::npos) return false; if (auto* st = dyn_cast<StructType>(G->getValueType())) if (st->getNumElements() == 0 || DL->getTypeAllocSize(st) <= 1) return false; return true; };
          // the value of an address: an order of two pointers that is not a loop bound, or a pointer turned into a number that is not a distance
          if (auto* ic = dyn_cast<ICmpInst>(&I)) if (ic->getOperand(0)->getType()->isPointerTy() && ic->isRelational() && (ours || functor)) {
            DominatorTree DT(*F); LoopInfo LI(DT); bool bound = false; if (auto* L = LI.getLoopFor(&B)) if (L->isLoopExiting(&B)) bound = true;
            if (!bound) outs() << "FORBID\t" << R->getName() << "\t#pointer-order\t" << locOf(&I) << " " << pathOf(v) << "\n"; }
          if (auto* pi = dyn_cast<PtrToIntInst>(&I)) { bool dist = true; for (auto* u : pi->users()) { auto* b = dyn_cast<BinaryOperator>(u); if (!b || b->getOpcode() != Instruction::Sub || !isa<PtrToIntInst>(b->getOperand(0)) || !isa<PtrToIntInst>(b->getOperand(1))) dist = false; }
            if (!dist && ours) outs() << "FORBID\t" << R->getName() << "\t#pointer-value\t" << locOf(&I) << " " << pathOf(v) << "\n"; }
          // state that outlives a run: a variable of static storage that is written after its initialisation
          const Value* pp = nullptr; if (auto* s = dyn_cast<StoreInst>(&I)) pp = s->getPointerOperand(); if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) pp = rm->getPointerOperand();
          if (pp) if (auto* G = dyn_cast<GlobalVariable>(getUnderlyingObject(pp))) if (hidden(const_cast<GlobalVariable*>(G)) && !inGuard(&I)) outs() << "FORBID\t" << R->getName() << "\t#static-state\t" << demangle(G->getName().str()) << " " << locOf(&I) << " " << pathOf(v) << "\n";
          if (auto* cb = dyn_cast<CallBase>(&I)) for (auto& a : cb->args()) if (a->getType()->isPointerTy()) if (auto* G = dyn_cast<GlobalVariable>(getUnderlyingObject(a))) {
            std::string cn = demangle(calleeName(cb)); bool ro = cn.size() > 6 && cn.substr(cn.size() - 6) == " const" && a.getOperandNo() == 0; if (cn.find("llvm.memcpy") == 0 && a.getOperandNo() == 1) ro = true; if (cn.find("__cxa") == 0) ro = true;
            if (auto* cf = cb->getCalledFunction()) if (cf->onlyReadsMemory()) ro = true;
            if (!ro && hidden(const_cast<GlobalVariable*>(G)) && !inGuard(&I)) outs() << "FORBID\t" << R->getName() << "\t#static-state\t" << demangle(G->getName().str()) << " " << locOf(&I) << " " << pathOf(v) << "\n"; }
        } }
      outs() << "REACH\t" << R->getName() << "\t" << nf << "\n"; }
    return 0; }
  if (Opaque.size()) { std::regex re(Opaque.getValue()); for (auto& F : *M) if (!F.isDeclaration() && !F.getName().starts_with("root_") && std::regex_search(demangle(F.getName().str()), re)) { F.deleteBody(); F.setComdat(nullptr); OpaqueFns.insert(F.getName().str()); } for (auto& F : *M) callees[&F].clear(); for (auto& F : *M) for (auto& B : F) for (auto& I : B) if (auto* c = dyn_cast<CallBase>(&I)) if (auto* G = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts())) callees[&F].insert(G); }
  std::set<Function*> ev; for (auto& F : *M) if (isEvent(F.getName())) ev.insert(&F);
  bool ch = true; while (ch) { ch = false; for (auto& p : callees) if (!ev.count(p.first)) for (auto* g : p.second) if (ev.count(g)) { ev.insert(p.first); ch = true; break; } }
  for (auto& F : *M) for (auto& B : F) for (auto& I : B) if (auto* c = dyn_cast<CallBase>(&I)) if (isEvent(calleeName(c))) c->addFnAttr(Attribute::NoMerge);
  for (auto& F : *M) { if (F.isDeclaration()) continue; F.removeFnAttr(Attribute::OptimizeNone);
    bool root = std::count(roots.begin(), roots.end(), &F);
    if (root) continue; F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr);
    if (ev.count(&F)) { F.removeFnAttr(Attribute::NoInline); F.addFnAttr(Attribute::AlwaysInline); } }
  for (auto& A : M->aliases()) A.setLinkage(GlobalValue::InternalLinkage);
  { // drop roots that are not asked for
    for (auto& F : *M) if (F.getName().starts_with("root_") && !F.isDeclaration() && !std::count(roots.begin(), roots.end(), &F)) { F.setLinkage(GlobalValue::InternalLinkage); F.removeFnAttr(Attribute::AlwaysInline); } }
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  auto MPM = PB.buildPerModuleDefaultPipeline(OptimizationLevel::O2); MPM.run(*M, MAM);
  if (Dump.size()) { std::error_code ec; raw_fd_ostream o(Dump, ec); M->print(o, nullptr); }
  for (auto& F : *M) { if (F.isDeclaration() || std::count(roots.begin(), roots.end(), &F)) continue;
    for (auto& B : F) for (auto& I : B) if (auto* c = dyn_cast<CallBase>(&I)) if (isEvent(calleeName(c))) { outs() << "RESIDUAL\t" << F.getName() << "\t" << calleeName(c) << "\n"; goto nextF; }
    nextF:; }
  for (auto* R : roots) {
    uint64_t nb = 0; for (auto& B : *R) { (void)B; ++nb; }
    if (Mode == "visitor") { Ana a; a.F = R; a.root = R->getName().str(); a.go(); outs() << "ROOT\t" << a.root << "\tblocks=" << nb << "\tevents=" << a.evs.size() << "\tsteps=" << a.steps << "\tstates=" << a.visited.size() << "\n"; }
    else { uint64_t ns = 0, steps = 0; for (auto& B : *R) for (auto& I : B) if (auto* c = dyn_cast<CallBase>(&I)) if (SiteNames.count(calleeName(c))) { Site = c; ++ns; Ana a; a.F = R; a.root = R->getName().str(); a.go(); steps += a.steps; if (a.evs.empty() || !a.evs.count(c)) outs() << "UNREACHED\t" << a.root << "\t" << locOf(c) << "\n"; }
      outs() << "ROOT\t" << R->getName() << "\tblocks=" << nb << "\tevents=" << ns << "\tsteps=" << steps << "\tstates=0\n"; } }
  for (auto& f : Out) outs() << "VIOL\t" << f.root << "\t" << f.kind << "\t" << f.where << "\t" << f.fn << "\t" << f.extra << "\n";
  return 0;
}
