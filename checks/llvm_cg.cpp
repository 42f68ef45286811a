// Call graph / ICFG construction, alias information and their persistence.
#include "llvmutil.h"

#include "phasar/ControlFlow/CallGraphAnalysisType.h"
#include "phasar/ControlFlow/CallGraphData.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedBackwardICFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedCFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMVFTableProvider.h"
#include "phasar/PhasarLLVM/ControlFlow/Resolver/Resolver.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSetData.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchyData.h"
#include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"

#include "llvm/IR/IntrinsicInst.h"
#include "llvm/Support/raw_ostream.h"

#include <algorithm>

using namespace sim;
using namespace psr;
using CGT = CallGraphAnalysisType;
using I_t = const llvm::Instruction *;
using F_t = const llvm::Function *;

namespace {
const char *cgName(CGT T) { switch (T) { case CGT::NORESOLVE: return "NORESOLVE"; case CGT::CHA: return "CHA"; case CGT::RTA: return "RTA"; case CGT::DTA: return "DTA"; case CGT::OTF: return "OTF"; default: return "?"; } }
AliasAnalysisType paType(uint32_t I) { static const AliasAnalysisType T[] = {AliasAnalysisType::CFLAnders, AliasAnalysisType::CFLSteens, AliasAnalysisType::Basic}; return T[I]; }

struct CGConf { CGT Ty; std::vector<std::string> Entry; bool Globals; Soundness S; AliasAnalysisType PA; bool Lazy; bool OwnTH = false, OwnPT = false; };
struct Built {
  std::unique_ptr<LLVMProjectIRDB> DB; std::unique_ptr<LLVMTypeHierarchy> TH; std::unique_ptr<LLVMAliasSet> PT; std::unique_ptr<LLVMBasedICFG> G; std::unique_ptr<lu::Names> N;
};
Built build(const std::string &Text, const CGConf &C, uint32_t Lay, bool SeededOrder) {
  Built B; lu::setPicker(false); B.DB = lu::makeDB(Text, Lay);
  if (C.Ty != CGT::NORESOLVE && !C.OwnTH) B.TH = std::make_unique<LLVMTypeHierarchy>(*B.DB);
  if (C.Ty == CGT::OTF && !C.OwnPT) B.PT = std::make_unique<LLVMAliasSet>(B.DB.get(), C.Lazy, C.PA);
  lu::setPicker(SeededOrder);
  B.G = std::make_unique<LLVMBasedICFG>(B.DB.get(), C.Ty, C.Entry, B.TH.get(), B.PT.get(), C.S, C.Globals);
  lu::setPicker(false); B.N = std::make_unique<lu::Names>(*B.DB->getModule());
  return B;
}
using Edges = std::map<std::string, std::set<std::string>>;
struct Canon { std::set<std::string> Fns, Sites; Edges Callees, Callers; };
template <class CG> Canon canon(const CG &G, const lu::Names &N) {
  Canon C;
  for (F_t F : G.getAllVertexFunctions()) { C.Fns.insert(N(F)); for (I_t CS : G.getCallersOf(F)) C.Callers[N(F)].insert(N(CS)); }
  for (I_t I : G.getAllVertexCallSites()) { C.Sites.insert(N(I)); for (F_t F : G.getCalleesOfCallAt(I)) C.Callees[N(I)].insert(N(F)); }
  return C;
}
std::string firstDiff(const Edges &A, const Edges &B) {
  for (auto &[K, V] : A) { auto It = B.find(K); if (It == B.end()) { return K + " (only in the first)"; } for (auto &X : V) if (!It->second.count(X)) return K + " -> " + X + " (only in the first)"; }
  for (auto &[K, V] : B) { auto It = A.find(K); if (It == A.end()) { return K + " (only in the second)"; } for (auto &X : V) if (!It->second.count(X)) return K + " -> " + X + " (only in the second)"; }
  return "";
}
template <class S> std::string setDiff(const S &A, const S &B) { for (auto &X : A) if (!B.count(X)) return X + " (only in the first)"; for (auto &X : B) if (!A.count(X)) return X + " (only in the second)"; return ""; }

void hashCanon(const Canon &C) { for (auto &F : C.Fns) evs(F); for (auto &[K, V] : C.Callees) { evs(K); for (auto &X : V) evs(X); } }

ir::Opt randomOpt() {
  ir::Opt O; O.Ptr = chance(GEN, 2, 3); O.Globals = chance(GEN, 2, 3); O.Indirect = chance(GEN, 3, 4); O.FnTables = chance(GEN, 1, 2); O.Virtual = chance(GEN, 2, 3);
  O.Loops = chance(GEN, 3, 4); O.Rec = chance(GEN, 3, 4); O.Phi = chance(GEN, 1, 2); O.Select = chance(GEN, 2, 3); O.MaxFns = range(GEN, 1, 7); O.MaxStmts = range(GEN, 1, 6);
  O.PtrPtr = chance(GEN, 1, 3); O.PtrRet = chance(GEN, 1, 3); O.Structs = chance(GEN, 1, 3);
  O.MultiRet = chance(GEN, 1, 2); O.Switch = chance(GEN, 1, 2); O.Invoke = chance(GEN, 1, 3); O.VarArgs = chance(GEN, 1, 4); O.Heap = chance(GEN, 1, 4); O.NestTables = chance(GEN, 1, 2);
  O.FpKinds = chance(GEN, 1, 2); O.PtrGlobals = chance(GEN, 1, 3); O.PCast = chance(GEN, 1, 3);
  return O;
}
ir::Val externVal(ir::Interp &, const llvm::CallBase *C, const llvm::Function *, const std::vector<ir::Val> &) { ir::Val V; if (C->getType()->isIntegerTy()) { V.Kind = ir::Val::Int; V.I = (int)choose(GEN, 5); } return V; }

I_t skipDbg(I_t I, bool Ign) { return Ign && llvm::isa<llvm::DbgInfoIntrinsic>(I) ? I->getNextNonDebugInstruction(false) : I; }
// --------------------------------------------------------------------- C09
struct CGObs : ir::Observer {
  Built &B; const CGConf &C; bool CheckIndirect; std::set<F_t> Vtx; uint64_t Calls = 0, Ind = 0, Virt = 0;
  CGObs(Built &B, const CGConf &C, bool CI) : B(B), C(C), CheckIndirect(CI) { for (F_t F : B.G->getAllVertexFunctions()) Vtx.insert(F); }
  template <class R> static bool has(const R &Rg, I_t I) { for (I_t X : Rg) if (X == I) return true; return false; }
  void onFlow(I_t A, I_t N) override {
    if (!has(B.G->getSuccsOf(A), N)) violation("cfg:missing-successor", std::string("the execution steps from ") + (*B.N)(A) + " to " + (*B.N)(N) + " but getSuccsOf does not contain it");
    if (!has(B.G->getPredsOf(N), A)) violation("cfg:missing-predecessor", std::string("the execution steps from ") + (*B.N)(A) + " to " + (*B.N)(N) + " but getPredsOf does not contain it");
    bool Branch = A->isTerminator();
    if (B.G->isBranchTarget(A, N) != Branch) violation("cfg:branch-target", (*B.N)(A) + " -> " + (*B.N)(N) + ": isBranchTarget is wrong");
  }
  void onCall(const llvm::CallBase *CS, F_t F, const std::vector<ir::Val> &) override {
    ++Calls; bool Direct = CS->getCalledFunction() != nullptr;
    if (!B.G->isCallSite(CS)) violation("cfg:not-a-call-site", (*B.N)(CS) + " is executed as call but isCallSite says no");
    if (B.G->isIndirectFunctionCall(CS) == Direct) violation("cg:indirect-flag", (*B.N)(CS) + ": isIndirectFunctionCall is wrong");
    if (!Direct) { ++Ind; if (B.G->isVirtualFunctionCall(CS)) ++Virt; }
    if (!CheckIndirect && (!Direct || !Vtx.count(CS->getFunction()))) return; // not resolved by request
    bool Ok = false; for (F_t X : B.G->getCalleesOfCallAt(CS)) if (X == F) Ok = true;
    if (!Ok) {
      std::string S; for (F_t X : B.G->getCalleesOfCallAt(CS)) S += " " + X->getName().str();
      violation(std::string("cg:missing-callee:") + cgName(C.Ty), std::string(cgName(C.Ty)) + " (alias analysis " + toString(C.PA) + (C.Lazy ? ", lazy" : "") + ")" + " call graph: the execution calls " + F->getName().str() + " at " + (*B.N)(CS) + " but the callees are {" + S + " }");
    }
    if (!Vtx.count(F)) violation("cg:missing-function", F->getName().str() + " is executed but no vertex of the call graph");
    bool Back = false; for (I_t X : B.G->getCallersOf(F)) if (X == CS) Back = true;
    if (!Back) violation("cg:missing-caller", (*B.N)(CS) + " is no caller of " + F->getName().str());
    if (!F->isDeclaration() && !has(B.G->getStartPointsOf(F), skipDbg(&F->getEntryBlock().front(), true))) violation("cfg:start-point", "entry of " + F->getName().str() + " is no start point");
  }
  void onReturn(const llvm::CallBase *CS, I_t Exit, I_t Next) override {
    if (!B.G->isExitInst(Exit) || !has(B.G->getExitPointsOf(Exit->getFunction()), Exit)) violation("cfg:exit-point", (*B.N)(Exit) + " returns but is no exit point");
    if (!has(B.G->getReturnSitesOfCallAt(CS), Next)) violation("cfg:return-site", (*B.N)(Next) + " is no return site of " + (*B.N)(CS));
  }
};

void checkConsistency(Built &B, const CGConf &C, const Canon &K, const char *Which) {
  auto &G = *B.G; auto &N = *B.N;
  for (auto &[S, Fs] : K.Callees) for (auto &F : Fs) { auto It = K.Callers.find(F); if (It == K.Callers.end() || !It->second.count(S)) violation("cg:edge-not-mirrored", std::string(Which) + ": " + S + " -> " + F + " is in getCalleesOfCallAt but not in getCallersOf"); if (!K.Fns.count(F)) violation("cg:callee-not-vertex", F); }
  for (auto &[F, Ss] : K.Callers) for (auto &S : Ss) { auto It = K.Callees.find(S); if (It == K.Callees.end() || !It->second.count(F)) violation("cg:edge-not-mirrored", std::string(Which) + ": " + S + " -> " + F + " is in getCallersOf but not in getCalleesOfCallAt"); }
  // closure: vertices are what is reachable from the entry points
  std::set<F_t> R; std::vector<F_t> WL;
  auto Push = [&](F_t F) { if (F && R.insert(F).second) WL.push_back(F); };
  if (C.Globals) Push(B.DB->getFunction(LLVMBasedICFG::GlobalCRuntimeModelName));
  else if (C.Entry.size() == 1 && C.Entry[0] == "__ALL__") { for (auto &F : *B.DB->getModule()) if (!F.isDeclaration() && (F.hasExternalLinkage() || F.getName() == "main")) Push(&F); }
  else for (auto &E : C.Entry) if (auto *F = B.DB->getFunctionDefinition(E)) Push(F);
  while (!WL.empty()) {
    F_t F = WL.back(); WL.pop_back(); if (F->isDeclaration()) continue;
    for (auto &I : llvm::instructions(F)) if (auto *CS = llvm::dyn_cast<llvm::CallBase>(&I)) {
      bool Site = false; for (auto &X : K.Sites) if (X == N(CS)) { Site = true; break; }
      if (!Site) violation("cg:missing-call-site", std::string(Which) + ": " + N(CS) + " lies in a reachable function but is no call-site vertex");
      std::set<F_t> Seen;
      for (F_t T : G.getCalleesOfCallAt(CS)) {
        if (!Seen.insert(T).second) violation("cg:duplicate-edge", std::string(Which) + ": " + N(CS) + " -> " + N(T) + " is reported twice");
        Push(T);
        if (T->getFunctionType()->getNumParams() != CS->arg_size() && !T->isVarArg()) violation("cg:arity-mismatch", N(CS) + " -> " + N(T));
      }
      if (auto *D = CS->getCalledFunction()) if (Seen.size() != 1 || !Seen.count(D)) violation("cg:direct-call", std::string(Which) + ": the callees of the direct call " + N(CS) + " are not exactly {" + N(D) + "}");
    }
  }
  for (F_t F : G.getAllVertexFunctions()) if (!R.count(F)) violation("cg:unreachable-vertex", std::string(Which) + ": " + N(F) + " is a vertex but not reachable from the entry points");
  for (F_t F : R) if (!K.Fns.count(N(F))) violation("cg:missing-function", std::string(Which) + ": " + N(F) + " is reachable over reported edges but no vertex");
}

// ---- every statement-level accessor of the forward and backward CFGs against the IR
using IEdges = std::set<std::pair<I_t, I_t>>;
struct RefCFG { IEdges E; std::vector<I_t> Nodes; std::set<I_t> Exits; I_t Start; };
RefCFG refCFG(F_t F, bool Ign) {
  RefCFG R; R.Start = skipDbg(&F->getEntryBlock().front(), Ign);
  for (auto &I : llvm::instructions(*F)) {
    if (Ign && llvm::isa<llvm::DbgInfoIntrinsic>(I)) continue; R.Nodes.push_back(&I);
    if (auto *X = I.getNextNode()) R.E.insert({&I, skipDbg(X, Ign)}); else for (unsigned J = 0; J < I.getNumSuccessors(); ++J) R.E.insert({&I, skipDbg(&I.getSuccessor(J)->front(), Ign)});
    if (llvm::isa<llvm::ReturnInst>(I) || llvm::isa<llvm::ResumeInst>(I)) R.Exits.insert(&I);
  }
  return R;
}
template <class R> std::set<I_t> iset(const R &X) { std::set<I_t> S; for (I_t I : X) S.insert(I); return S; }
template <class C> void checkForward(const C &G, F_t F, const RefCFG &R, const lu::Names &N, const std::string &W) {
  IEdges Got, BGot, E;
  for (I_t I : R.Nodes) {
    if (G.getFunctionOf(I) != F) violation("cfg:function-of", W + N(I));
    auto Su = G.getSuccsOf(I); for (I_t X : Su) Got.insert({I, X}); for (I_t X : G.getPredsOf(I)) BGot.insert({X, I});
    if (G.isExitInst(I) != (R.Exits.count(I) != 0)) violation("cfg:exit-flag", W + N(I));
    if (G.isStartPoint(I) != (I == R.Start)) violation("cfg:start-flag", W + N(I));
    for (I_t X : Su) if (G.isBranchTarget(I, X) != I->isTerminator()) violation("cfg:branch-target", W + N(I) + " -> " + N(X) + ": isBranchTarget is wrong");
  }
  auto Show = [&](const IEdges &A, const IEdges &B) { for (auto &X : A) if (!B.count(X)) return N(X.first) + " -> " + N(X.second); return std::string(); };
  if (Got != R.E) violation("cfg:successors", W + "getSuccsOf is not the successor relation of the IR: missing " + Show(R.E, Got) + ", additional " + Show(Got, R.E));
  if (BGot != R.E) violation("cfg:predecessors", W + "getPredsOf is not the predecessor relation of the IR: missing " + Show(R.E, BGot) + ", additional " + Show(BGot, R.E));
  for (auto [A, X] : G.getAllControlFlowEdges(F)) E.insert({A, X}); if (E != R.E) violation("cfg:edges", W + "getAllControlFlowEdges: missing " + Show(R.E, E) + ", additional " + Show(E, R.E));
  if (iset(G.getExitPointsOf(F)) != R.Exits) violation("cfg:exit-points", W + F->getName().str());
  if (iset(G.getStartPointsOf(F)) != std::set<I_t>{R.Start}) violation("cfg:start-point", W + F->getName().str());
}
// the backward CFG is the mirror image; built with an IRDB it has an artificial exit behind the function's entry
template <class C> void checkBackward(const C &G, F_t F, const RefCFG &R, const lu::Names &N, const std::string &W, bool Artificial) {
  IEdges Got, BGot; auto Ex = G.getExitPointsOf(F); I_t X0 = nullptr;
  if (Artificial) {
    if (Ex.size() != 1 || !*Ex.begin() || iset(R.Nodes).count(*Ex.begin())) violation("cfg:backward-exit", W + "no artificial exit for " + F->getName().str());
    X0 = *Ex.begin(); if (!G.isExitInst(X0) || G.isStartPoint(X0)) violation("cfg:backward-exit", W + "the artificial exit is not an exit");
    if (G.getFunctionOf(X0) != F) violation("cfg:backward-exit", W + "the artificial exit does not belong to " + F->getName().str());
    if (!G.getSuccsOf(X0).empty()) violation("cfg:backward-exit", W + "the artificial exit has successors");
    if (iset(G.getPredsOf(X0)) != std::set<I_t>{R.Start}) violation("cfg:backward-mirror", W + "the predecessors of the artificial exit are not the entry of " + F->getName().str());
  } else if (iset(Ex) != std::set<I_t>{R.Start}) violation("cfg:backward-exit", W + F->getName().str());
  for (I_t I : R.Nodes) {
    if (G.getFunctionOf(I) != F) violation("cfg:function-of", W + N(I));
    bool Art = false; for (I_t X : G.getSuccsOf(I)) { if (X == X0 && X) { Art = true; continue; } Got.insert({X, I}); if (G.isBranchTarget(I, X) != X->isTerminator()) violation("cfg:backward-branch-target", W + N(I) + " -> " + N(X) + ": isBranchTarget is wrong"); }
    if (Artificial && Art != (I == R.Start)) { bool NoPred = true; for (auto &E : R.E) if (E.second == I) NoPred = false; if (Art != NoPred) violation("cfg:backward-exit", W + N(I) + ": artificial exit as successor"); }
    for (I_t X : G.getPredsOf(I)) BGot.insert({I, X});
    if (G.isExitInst(I) != (!Artificial && I == R.Start)) violation("cfg:backward-mirror", W + "exit flag at " + N(I));
    if (G.isStartPoint(I) != (R.Exits.count(I) != 0)) violation("cfg:backward-mirror", W + "start flag at " + N(I));
  }
  if (Got != R.E) violation("cfg:backward-mirror", W + "backward successors are not the forward predecessors");
  if (BGot != R.E) violation("cfg:backward-mirror", W + "backward predecessors are not the forward successors");
  if (iset(G.getStartPointsOf(F)) != R.Exits) violation("cfg:backward-mirror", W + "start points are not the forward exit points");
  IEdges E; for (auto [A, X] : G.getAllControlFlowEdges(F)) if (X != X0 || !X0) E.insert({X, A}); if (E != R.E) violation("cfg:backward-edges", W + "getAllControlFlowEdges");
}
void checkCFG(Built &B) {
  auto &G = *B.G; auto &N = *B.N; LLVMBasedCFG Fw(true), FwDbg(false); LLVMBasedBackwardCFG Bw(true), BwDbg(false), BwDB(*B.DB, true); LLVMBasedBackwardICFG BI(B.G.get());
  for (auto &F : *B.DB->getModule()) {
    if (F.isDeclaration()) { if (!G.getStartPointsOf(&F).empty()) violation("cfg:start-point", "declaration with start point"); continue; }
    RefCFG R = refCFG(&F, true), RD = refCFG(&F, false); std::string W = F.getName().str() + ": ";
    checkForward(G, &F, R, N, "ICFG, " + W); checkForward(Fw, &F, R, N, "CFG, " + W); checkForward(FwDbg, &F, RD, N, "CFG with debug instructions, " + W);
    checkBackward(Bw, &F, R, N, "backward CFG, " + W, false); checkBackward(BwDbg, &F, RD, N, "backward CFG with debug instructions, " + W, false); checkBackward(BwDB, &F, R, N, "backward CFG of an IRDB, " + W, true); checkBackward(BI, &F, R, N, "backward ICFG, " + W, true);
    for (auto &I : llvm::instructions(F)) {
      if (G.isCallSite(&I) != llvm::isa<llvm::CallBase>(I)) violation("cfg:call-flag", N(&I));
      if (auto *CS = llvm::dyn_cast<llvm::CallBase>(&I)) { auto A = BI.getCalleesOfCallAt(CS), C = G.getCalleesOfCallAt(CS); if (std::set<F_t>(A.begin(), A.end()) != std::set<F_t>(C.begin(), C.end())) violation("cfg:backward-mirror", "callees of the backward ICFG at " + N(CS)); }
    }
    std::set<I_t> Cw; for (auto &I : llvm::instructions(F)) if (llvm::isa<llvm::CallBase>(I)) Cw.insert(&I);
    if (iset(G.getCallsFromWithin(&F)) != Cw) violation("cfg:calls-within", F.getName().str());
  }
}

void runC09() {
  setStepLimit(200000);
  static const CGT Ts[] = {CGT::OTF, CGT::CHA, CGT::RTA, CGT::DTA, CGT::NORESOLVE};
  CGConf C; C.Ty = Ts[weighted(GEN, {6, 4, 4, 3, 1})]; C.Globals = chance(GEN, 1, 4); C.S = chance(GEN, 1, 3) ? Soundness::Sound : Soundness::Soundy; C.PA = paType(weighted(GEN, {3, 1, 1})); C.Lazy = chance(GEN, 2, 3); C.OwnTH = chance(GEN, 1, 4); C.OwnPT = chance(GEN, 1, 4);
  switch (weighted(GEN, {4, 1, 1})) { case 0: C.Entry = {"main"}; break; case 1: C.Entry = {"__ALL__"}; break; default: C.Entry = {"main", "f1", "nonexistent"}; }
  ir::Opt O = randomOpt(); O.Dbg = chance(GEN, 1, 3); O.Globinit = C.Globals; if (C.Ty == CGT::OTF && O.Indirect && O.FpKinds && chance(GEN, 1, 2)) { O.ChainOnly = true; O.MaxFns = range(GEN, 4, 6); O.MaxStmts = range(GEN, 1, 3); O.Virtual = chance(GEN, 1, 4); } std::string T = ir::generate(O);
  if (verbose()) note("%s", T.c_str());
  evs(T); ev((int)C.Ty); count((std::string("callgraph.") + cgName(C.Ty)).c_str());
  Built A = build(T, C, 0, false); uint32_t Lay = 1 + choose(LAYOUT, 1u << 20); ev(Lay); uint64_t P0 = lu::NumPicks;
  Built B = build(T, C, Lay, true); count("worklist-picks", lu::NumPicks - P0); count("fault.layout-change");
  Canon KA = canon(A.G->getCallGraph(), *A.N), KB = canon(B.G->getCallGraph(), *B.N); hashCanon(KB);
  std::string D = firstDiff(KA.Callees, KB.Callees); if (D.empty()) D = firstDiff(KA.Callers, KB.Callers); if (D.empty()) D = setDiff(KA.Fns, KB.Fns); if (D.empty()) D = setDiff(KA.Sites, KB.Sites);
  if (!D.empty()) violation(std::string("cg:order-dependent:") + cgName(C.Ty), std::string(cgName(C.Ty)) + " call graph differs between two processing orders / memory layouts: " + D);
  checkConsistency(A, C, KA, "shipped order"); checkConsistency(B, C, KB, "seeded order"); checkCFG(B);
  // precision order: what RTA finds is part of what CHA finds
  if (C.Ty == CGT::RTA || C.Ty == CGT::NORESOLVE) { CGConf C2 = C; C2.Ty = CGT::CHA; Built X = build(T, C2, Lay ^ 5, true); Canon KX = canon(X.G->getCallGraph(), *X.N); for (auto &[S, Fs] : KB.Callees) for (auto &F : Fs) if (!KX.Callees[S].count(F)) violation("cg:rta-not-within-cha", std::string(cgName(C.Ty)) + " reports " + S + " -> " + F + " but CHA does not"); }
  // executions of the program
  int Runs = range(GEN, 1, 4); uint64_t Ind = 0;
  for (int R = 0; R < Runs; ++R) {
    CGObs Ob(B, C, C.Ty != CGT::NORESOLVE); ir::Interp In(*B.DB->getModule(), &Ob); In.Extern = externVal;
    In.run(B.DB->getFunction("main")); count("executed-steps", In.Steps); count("executed-calls", Ob.Calls); count("executed-indirect-calls", Ob.Ind); count("executed-virtual-calls", Ob.Virt); Ind += Ob.Ind;
    if (In.Trapped) count("probe.trapped"); state(mix(hashStr(T), In.Steps));
  }
  if (Ind) { nontrivial(); sample("program with " + std::to_string(KB.Fns.size()) + " functions, " + std::to_string(KB.Sites.size()) + " call sites, " + cgName(C.Ty)); }
}
// --------------------------------------------------------------------- C08
using V_t = const llvm::Value *;
struct AliasWorld {
  std::unique_ptr<LLVMProjectIRDB> DB; std::unique_ptr<LLVMAliasSet> AS; std::unique_ptr<lu::Names> N; std::vector<V_t> Vs; std::map<std::string, V_t> ByName;
};
void pointers(AliasWorld &W) {
  auto &M = *W.DB->getModule(); W.N = std::make_unique<lu::Names>(M);
  auto Add = [&](V_t V) { if (V->getType()->isPointerTy()) { W.Vs.push_back(V); W.ByName[(*W.N)(V)] = V; } };
  for (auto &G : M.globals()) Add(&G);
  for (auto &F : M) { Add(&F); for (auto &A : F.args()) Add(&A); for (auto &I : llvm::instructions(F)) Add(&I); }
}
AliasWorld makeAlias(const std::string &T, bool Lazy, AliasAnalysisType PA, uint32_t Lay) {
  AliasWorld W; W.DB = lu::makeDB(T, Lay); W.AS = std::make_unique<LLVMAliasSet>(W.DB.get(), Lazy, PA); pointers(W); return W;
}
// partition as canonical representative per value name (only values of the universe)
std::map<std::string, std::set<std::string>> relation(AliasWorld &W) {
  std::map<std::string, std::set<std::string>> R;
  for (V_t V : W.Vs) { auto S = W.AS->getAliasSet(V); auto &X = R[(*W.N)(V)]; for (V_t A : *S) if (W.N->N.count(A)) X.insert((*W.N)(A)); }
  return R;
}
F_t fnOf(V_t V) { if (auto *I = llvm::dyn_cast<llvm::Instruction>(V)) return I->getFunction(); if (auto *A = llvm::dyn_cast<llvm::Argument>(V)) return A->getParent(); return nullptr; }
// used as an operand (other than as the callee of a direct call), directly or through constants and initialisers
const std::set<V_t> &usedGlobals(F_t F) {
  static std::map<F_t, std::set<V_t>> Memo; auto [It, New] = Memo.try_emplace(F); if (!New) return It->second;
  std::vector<V_t> WL; std::set<V_t> Seen; auto Push = [&](V_t V) { if (llvm::isa<llvm::Constant>(V) && Seen.insert(V).second) WL.push_back(V); };
  for (auto &I : llvm::instructions(F)) for (auto &U : I.operands()) { auto *C = llvm::dyn_cast<llvm::CallBase>(&I); if (!C || !C->isCallee(&U)) Push(U.get()); }
  while (!WL.empty()) { V_t V = WL.back(); WL.pop_back(); if (auto *G = llvm::dyn_cast<llvm::GlobalVariable>(V)) { if (G->hasInitializer()) Push(G->getInitializer()); } else if (!llvm::isa<llvm::Function>(V)) for (auto &O : llvm::cast<llvm::User>(V)->operands()) Push(O); }
  return It->second = std::move(Seen);
}
bool usedIn(V_t G, F_t F) { return usedGlobals(F).count(G) != 0; }
struct AliasObs : ir::Observer {
  AliasWorld &W; std::string Conf; const ir::Interp *In = nullptr; uint64_t Pairs = 0;
  AliasObs(AliasWorld &W, std::string C) : W(W), Conf(std::move(C)) {}
  void onValue(const ir::Frame &Fr, V_t V, const ir::Val &X) override {
    if (X.Kind != ir::Val::Ptr && X.Kind != ir::Val::Fn) return;
    if (!V->getType()->isPointerTy()) return;
    auto Same = [&](const ir::Val &Y) { return X.Kind == ir::Val::Ptr ? X.samePlace(Y) : (Y.Kind == ir::Val::Fn && Y.F == X.F); };
    auto Chk = [&](V_t U) {
      if (U->getType() != V->getType()) return; ++Pairs;
      if (W.AS->alias(V, U) == AliasResult::NoAlias) violation("alias:unsound", Conf + ": " + (*W.N)(V) + " and " + (*W.N)(U) + " hold the same address in an execution but alias() answers NoAlias");
    };
    for (auto &[U, Y] : Fr.Env) if (U != V && Same(Y)) Chk(U);
    if (X.Kind == ir::Val::Ptr) { for (auto &[G, O] : In->Globals) if (X.Obj == O && X.I == 0 && usedIn(G, Fr.F)) Chk(G); }
    else if (auto *F = X.F) { if (usedIn(F, Fr.F)) Chk(F); }
  }
};
void runC08() {
  setStepLimit(2000000);
  ir::Opt O = randomOpt(); O.Loops = false; O.PtrPtr = chance(GEN, 2, 3); O.PtrRet = chance(GEN, 1, 2); O.Virtual = chance(GEN, 1, 4); O.MaxFns = range(GEN, 1, 5);
  std::string T = ir::generate(O); if (verbose()) note("%s", T.c_str());
  AliasAnalysisType PA = paType(weighted(GEN, {3, 1, 1})); bool Lazy = chance(GEN, 1, 2); std::string Conf = toString(PA) + (Lazy ? " lazy" : " eager");
  uint32_t Lay = 1 + choose(LAYOUT, 1u << 20); evs(T); ev((int)PA); ev(Lazy); ev(Lay);
  AliasWorld A = makeAlias(T, false, PA, 0), B = makeAlias(T, Lazy, PA, Lay); count("fault.layout-change");
  // seeded query order on B
  int NQ = range(SCHED, 0, 20);
  for (int Q = 0; Q < NQ && !B.Vs.empty(); ++Q) {
    V_t X = B.Vs[choose(SCHED, B.Vs.size())], Y = B.Vs[choose(SCHED, B.Vs.size())]; count("queries"); ev(Q);
    switch (choose(SCHED, 4)) {
    case 0: { bool P = B.AS->alias(X, Y) != AliasResult::NoAlias, Q2 = B.AS->alias(Y, X) != AliasResult::NoAlias; ev(P); if (P != Q2) violation("alias:asymmetric", Conf + ": alias(" + (*B.N)(X) + ", " + (*B.N)(Y) + ") differs from alias of the swapped arguments"); break; }
    case 1: { auto S = B.AS->getAliasSet(X); ev(S->size()); if (!S->count(X)) violation("alias:irreflexive", Conf + ": " + (*B.N)(X) + " is not in its own alias set"); break; }
    case 2: { bool Intra = chance(SCHED, 1, 2); auto S = B.AS->getReachableAllocationSites(X, Intra); for (V_t Z : *S) { if (B.AS->alias(X, Z) == AliasResult::NoAlias) violation("alias:allocation-site", Conf + ": allocation site " + (*B.N)(Z) + " is reachable from " + (*B.N)(X) + " but does not alias it"); } if (B.AS->isInReachableAllocationSites(X, Y, Intra) != (S->count(Y) != 0)) violation("alias:allocation-site-query", Conf + ": isInReachableAllocationSites(" + (*B.N)(X) + ", " + (*B.N)(Y) + ") disagrees with getReachableAllocationSites"); break; }
    default: (void)B.AS->alias(X, X); if (B.AS->alias(X, X) == AliasResult::NoAlias) violation("alias:irreflexive", Conf + ": alias(x, x) for " + (*B.N)(X)); break;
    }
  }
  auto Check = [&](AliasWorld &W, const std::map<std::string, std::set<std::string>> &R, const char *When) {
    for (auto &[K, S] : R) { if (!S.count(K)) violation("alias:irreflexive", Conf + When + ": " + K + " is not in its own alias set"); for (auto &X : S) { auto It = R.find(X); if (It == R.end()) continue; if (!It->second.count(K)) violation("alias:asymmetric", Conf + When + ": " + X + " is in the alias set of " + K + " but not vice versa"); if (It->second != S) violation("alias:not-an-equivalence", Conf + When + ": the alias sets of the aliases " + K + " and " + X + " differ (" + setDiff(S, It->second) + ")"); } }
  };
  auto RA = relation(A), RB = relation(B); RB = relation(B); RA = relation(A);
  Check(A, RA, " (shipped layout)"); Check(B, RB, "");
  std::string D = firstDiff(RA, RB);
  if (!D.empty()) violation("alias:history-dependent", Conf + ": alias sets differ from the eagerly computed ones (other layout and query order): " + D);
  for (auto &[K, S] : RB) { evs(K); for (auto &X : S) evs(X); }
  // executions
  uint64_t Pairs = 0;
  for (int R = 0, E = range(GEN, 1, 3); R < E; ++R) { AliasObs Ob(B, Conf); ir::Interp In(*B.DB->getModule(), &Ob); Ob.In = &In; In.Extern = externVal; In.run(B.DB->getFunction("main")); Pairs += Ob.Pairs; count("executed-steps", In.Steps); }
  count("aliasing-pairs-executed", Pairs); if (Pairs) nontrivial();
  // introduced aliases: the relation becomes the join
  int NI = choose(FAULT, 6);
  for (int I = 0; I < NI && !B.Vs.empty(); ++I) {
    V_t X = B.Vs[choose(FAULT, B.Vs.size())], Y = B.Vs[choose(FAULT, B.Vs.size())]; count("introduced-aliases");
    B.AS->introduceAlias(X, Y); std::set<std::string> U = RB[(*B.N)(X)]; U.insert(RB[(*B.N)(Y)].begin(), RB[(*B.N)(Y)].end()); for (auto &K : U) RB[K] = U;
  }
  if (NI) { auto R2 = relation(B); D = firstDiff(RB, R2); if (!D.empty()) violation("alias:introduce", Conf + ": after introduceAlias the alias sets are not the join of the previous ones: " + D); Check(B, R2, " after introduceAlias"); }
  // two partially computed alias infos of one program, extended differently and merged: the join
  if (!B.Vs.empty() && chance(FAULT, 1, 2)) {
    count("merges"); LLVMAliasSet S1(B.DB.get(), chance(FAULT, 2, 3), PA), S2(B.DB.get(), chance(FAULT, 2, 3), PA); std::map<std::string, std::set<std::string>> J = relation(A);
    for (int I = 0, E = choose(FAULT, 8); I < E; ++I) {
      LLVMAliasSet &S = choose(FAULT, 2) ? S1 : S2; V_t X = B.Vs[choose(FAULT, B.Vs.size())], Y = B.Vs[choose(FAULT, B.Vs.size())];
      if (choose(FAULT, 3) == 0) { (void)S.getAliasSet(X); (void)S.alias(X, Y); continue; }
      std::set<std::string> Low; if (chance(FAULT, 1, 2)) for (V_t Z : {X, Y}) { LLVMAliasSet S0(B.DB.get(), true, PA); auto Q = S0.getAliasSet(Z); for (V_t E2 : *Q) if (B.N->N.count(E2)) Low.insert((*B.N)(E2)); }
      S.introduceAlias(X, Y);
      if (!Low.empty()) { count("introduced-alias-probes"); auto Q = S.getAliasSet(X); std::set<std::string> Got; for (V_t E2 : *Q) if (B.N->N.count(E2)) Got.insert((*B.N)(E2)); for (auto &K : Low) if (!Got.count(K)) violation("alias:introduce-lazy", Conf + ": " + K + " is not in the alias set of " + (*B.N)(X) + " after introduceAlias with " + (*B.N)(Y)); }
      for (auto &K : Low) { V_t Z = B.ByName[K]; if (Z && S.alias(X, Z) == AliasResult::NoAlias) violation("alias:introduce-lazy", Conf + ": after introduceAlias(" + (*B.N)(X) + ", " + (*B.N)(Y) + ") " + (*B.N)(X) + " does not alias " + K + ", an alias of one of them"); }
      std::set<std::string> U = J[(*B.N)(X)]; U.insert(J[(*B.N)(Y)].begin(), J[(*B.N)(Y)].end()); for (auto &K : U) J[K] = U;
    }
    S1.mergeWith(S2); std::map<std::string, std::set<std::string>> R; for (V_t V : B.Vs) { auto S = S1.getAliasSet(V); auto &X = R[(*B.N)(V)]; for (V_t Z : *S) if (B.N->N.count(Z)) X.insert((*B.N)(Z)); }
    R.clear(); for (V_t V : B.Vs) { auto S = S1.getAliasSet(V); auto &X = R[(*B.N)(V)]; for (V_t Z : *S) if (B.N->N.count(Z)) X.insert((*B.N)(Z)); }
    D = firstDiff(J, R); if (!D.empty()) violation("alias:merge", Conf + ": merging two alias infos of a program does not give the join of their relations: " + D);
  }
  state(hashStr(T)); sample(Conf + ", " + std::to_string(B.Vs.size()) + " pointers");
}
// --------------------------------------------------------------------- C14
// programs with static constructors and destructors in all the forms clang emits; events are calls of @ev(i32)
struct RtProg { std::string Text, ModName; std::map<int, std::string> What; std::map<int, int> CtorPrio, DtorPrio; std::set<int> RegDtor; int MainEv = 0; std::vector<std::string> Others; bool Args = false; };
RtProg genRuntime() {
  RtProg P; int NEv = 1; auto s = [](auto X) { return std::to_string(X); }; std::string H, B; int NObj = 0, NVar = 0;
  auto Ev = [&](std::string W) { P.What[NEv] = W; return NEv++; }; auto Call = [&](int E) { return "  call void @ev(i32 " + s(E) + ")\n"; };
  static const int Prios[] = {65535, 101, 200, 1000}; P.ModName = "mod" + s(choose(GEN, 3)) + ".cpp";
  bool Typed = chance(GEN, 1, 2); if (Typed) H += "%C = type { i32 }\n";
  const std::string OT = Typed ? "%C" : "i8"; 
  // an object with a registered destructor; returns the registering statements
  std::vector<int> SharedD; std::vector<std::string> SharedN;
  auto Reg = [&](std::string Where) {
    int O = NObj++; int E = 0; std::string D; H += "@o" + s(O) + " = global " + OT + " zeroinitializer\n";
    D = "D" + s(O); E = Ev("destructor of o" + s(O)); B += "define void @" + D + "(" + OT + "* %this) {\n" + Call(E) + "  ret void\n}\n"; P.RegDtor.insert(E);
    std::string Fn = Typed ? "bitcast (void (%C*)* @" + D + " to void (i8*)*)" : "@" + D, Ar = Typed ? "bitcast (%C* @o" + s(O) + " to i8*)" : "@o" + s(O);
    return Call(Ev("construction of o" + s(O) + Where)) + "  %r" + s(O) + " = call i32 @__cxa_atexit(void (i8*)* " + Fn + ", i8* " + Ar + ", i8* null)\n";
  };
  std::string LC, LD; int NC = choose(GEN, 4), ND = choose(GEN, 3);
  for (int I = 0; I < NC; ++I) {
    std::string N = chance(GEN, 1, 2) ? "_GLOBAL__sub_I_" + s(I) + ".cpp" : "ctor" + s(I); int Pr = Prios[choose(GEN, 4)]; int E = Ev("constructor function " + N); P.CtorPrio[E] = Pr; std::string Body = Call(E);
    for (int J = 0, NV = choose(GEN, 4); J < NV; ++J) { std::string V = "__cxx_global_var_init" + (NVar ? "." + s(NVar) : std::string()); ++NVar; std::string VB; for (int K = range(GEN, 1, 2); K; --K) VB += Reg(""); B += "define internal void @" + V + "() {\n" + VB + "  ret void\n}\n"; Body += "  call void @" + V + "()\n"; }
    B += "define internal void @" + N + "() {\n" + Body + "  ret void\n}\n"; LC += (LC.empty() ? "" : ", ") + std::string("{ i32, void ()*, i8* } { i32 ") + s(Pr) + ", void ()* @" + N + ", i8* null }";
  }
  for (int I = 0; I < ND; ++I) { std::string N = "dtor" + s(I); int Pr = Prios[choose(GEN, 4)], E = Ev("destructor function " + N); P.DtorPrio[E] = Pr; B += "define internal void @" + N + "() {\n" + Call(E) + "  ret void\n}\n"; LD += (LD.empty() ? "" : ", ") + std::string("{ i32, void ()*, i8* } { i32 ") + s(Pr) + ", void ()* @" + N + ", i8* null }"; }
  if (NC) H += "@llvm.global_ctors = appending global [" + s(NC) + " x { i32, void ()*, i8* }] [" + LC + "]\n"; if (ND) H += "@llvm.global_dtors = appending global [" + s(ND) + " x { i32, void ()*, i8* }] [" + LD + "]\n";
  H += "declare void @ev(i32)\ndeclare i32 @__cxa_atexit(void (i8*)*, i8*, i8*)\n";
  std::string LS; P.MainEv = Ev("main"); P.Args = chance(GEN, 1, 2); std::string MB = Call(P.MainEv); for (int J = 0, NV = choose(GEN, 3); J < NV; ++J) MB += Reg(" (local static)");
  B += "define i32 @main(" + std::string(P.Args ? "i32 %argc, i8** %argv" : "") + ") {\n" + MB + "  ret i32 0\n}\n";
  for (int I = 0, N = choose(GEN, 3); I < N; ++I) { std::string Nm = "entry" + s(I); P.Others.push_back(Nm); B += "define void @" + Nm + "() {\n" + Call(Ev(Nm)) + "  ret void\n}\n"; }
  bool Early = chance(GEN, 1, 2); P.Text = Early ? H + B : B + H; return P;
}
struct RtObs : ir::Observer {
  std::vector<int> Hist; std::vector<F_t> Reg; std::vector<std::pair<F_t, int>> Calls; // events; registered destructors in order
  void onCall(const llvm::CallBase *, F_t F, const std::vector<ir::Val> &As) override {
    if (F->getName() == "ev") Hist.push_back((int)As[0].I);
    if (F->getName() == "__cxa_atexit") Reg.push_back(As[0].F);
  }
};
void runC14() {
  setStepLimit(200000); RtProg P = genRuntime(); evs(P.Text); if (verbose()) note("%s", P.Text.c_str());
  std::vector<std::string> E = {"main"}; if (!P.Others.empty() && chance(GEN, 1, 3)) { if (chance(GEN, 1, 2)) E = {P.Others[0]}; else { E.insert(E.end(), P.Others.begin(), P.Others.end()); for (size_t I = E.size(); I > 1; --I) std::swap(E[I - 1], E[choose(GEN, I)]); if (chance(GEN, 1, 3)) E.push_back("missing"); } }
  uint32_t Lay = choose(LAYOUT, 1u << 20); ev(Lay); for (auto &X : E) evs(X);
  lu::setPicker(false); auto DB = lu::makeDB(P.Text, Lay); const_cast<llvm::Module *>(DB->getModule())->setModuleIdentifier("/tmp/x/" + P.ModName);
  std::set<F_t> Before; for (auto &F : *DB->getModule()) Before.insert(&F);
  lu::setPicker(true); LLVMBasedICFG G(DB.get(), chance(GEN, 1, 2) ? CGT::OTF : CGT::NORESOLVE, E, nullptr, nullptr, Soundness::Soundy, true); lu::setPicker(false);
  F_t Model = DB->getFunctionDefinition(LLVMBasedICFG::GlobalCRuntimeModelName); if (!Model) violation("rt:no-model", "the ICFG was requested with globals but there is no " + LLVMBasedICFG::GlobalCRuntimeModelName.str());
  for (auto &F : *DB->getModule()) {
    bool Gen = !Before.count(&F); if (LLVMBasedICFG::isPhasarGenerated(F) != Gen) violation("rt:generated-flag", F.getName().str() + (Gen ? " was generated by phasar but isPhasarGenerated says no" : " is user code but isPhasarGenerated says yes"));
    for (auto &I : llvm::instructions(F)) if (DB->getInstruction(DB->getInstructionId(&I)) != &I) violation("rt:instruction-id", "an instruction of " + F.getName().str() + " is not found under its id");
    if (!F.isDeclaration() && DB->getFunctionDefinition(F.getName()) != &F) violation("rt:function-lookup", F.getName().str());
  }
  for (int R = 0; R < 2; ++R) {
    RtObs Ob; ir::Interp In(*DB->getModule(), &Ob); int Sel = (int)choose(SCHED, std::max<size_t>(1, E.size() - (E.back() == "missing"))); In.Extern = [&](ir::Interp &, const llvm::CallBase *C, F_t F, const std::vector<ir::Val> &) { ir::Val V; V.Kind = ir::Val::Int; V.I = Before.count(F) ? 0 : Sel; return V; };
    std::vector<ir::Val> As(2); As[0].Kind = ir::Val::Int; In.run(Model, As); if (In.Trapped || In.Truncated) violation("rt:stuck", "the modelled runtime cannot be executed to its end");
    for (int X : Ob.Hist) ev(X);
    std::string Trace; for (int X : Ob.Hist) Trace += (Trace.empty() ? "" : "; ") + P.What[X];
    auto Bad = [&](const char *Sig, const std::string &M) { violation(Sig, M + " in the execution of the modelled runtime: " + Trace); };
    std::string Want = E.size() == 1 ? E[0] : E[Sel]; int Entry = -1; std::map<int, int> Cnt; for (size_t I = 0; I < Ob.Hist.size(); ++I) { ++Cnt[Ob.Hist[I]]; if (P.What[Ob.Hist[I]] == Want) Entry = (int)I; }
    if (Entry < 0) Bad("rt:entry-not-called", "the entry point " + Want + " is not called"); bool Main = Want == "main";
    for (auto &[K, W] : P.What) { bool Other = (K == P.MainEv || W.rfind("entry", 0) == 0) && W != Want; if (Other && Cnt[K]) Bad("rt:other-entry", W + " is called too"); }
    // constructors: each once, before the entry point, by ascending priority
    int Last = -1; for (auto &[K, Pr] : P.CtorPrio) if (Cnt[K] != 1) Bad("rt:ctor-count", P.What[K] + " is called " + std::to_string(Cnt[K]) + " times");
    for (int I = 0; I < (int)Ob.Hist.size(); ++I) { auto It = P.CtorPrio.find(Ob.Hist[I]); if (It == P.CtorPrio.end()) continue; if (I > Entry) Bad("rt:ctor-late", P.What[Ob.Hist[I]] + " runs after the entry point"); if (It->second < Last) Bad("rt:ctor-order", P.What[Ob.Hist[I]] + " runs after a constructor of higher priority number"); Last = It->second; }
    if (!Main) continue;
    // destructors: after main, each once; registered ones in reverse order of registration; then the destructor functions by descending priority
    std::vector<int> Reg, Fns; for (int I = 0; I < (int)Ob.Hist.size(); ++I) { int X = Ob.Hist[I]; if ((P.RegDtor.count(X) || P.DtorPrio.count(X)) && I < Entry) Bad("rt:dtor-early", P.What[X] + " runs before main"); if (P.RegDtor.count(X)) { Reg.push_back(X); if (!Fns.empty()) Bad("rt:dtor-phase", P.What[X] + " runs after a destructor function"); } if (P.DtorPrio.count(X)) Fns.push_back(X); }
    for (auto &[K, Pr] : P.DtorPrio) if (Cnt[K] != 1) Bad("rt:dtor-count", P.What[K] + " is called " + std::to_string(Cnt[K]) + " times");
    for (int K : P.RegDtor) if (Cnt[K] != 1) Bad("rt:dtor-count", P.What[K] + " is called " + std::to_string(Cnt[K]) + " times");
    int LastD = 1 << 30; for (int X : Fns) { if (P.DtorPrio[X] > LastD) Bad("rt:dtor-order", P.What[X] + " runs after a destructor of lower priority number"); LastD = P.DtorPrio[X]; }
    std::vector<std::string> RN, WN; for (int X : Reg) RN.push_back("D" + P.What[X].substr(std::string("destructor of o").size())); for (auto It = Ob.Reg.rbegin(); It != Ob.Reg.rend(); ++It) WN.push_back((*It)->getName().str());
    if (RN != WN) { std::string A, C; for (auto &X : RN) A += " " + X; for (auto &X : WN) C += " " + X; Bad("rt:registered-dtor-order", "registered destructors run as" + A + " but the reverse of the registration order is" + C); }
    if (!WN.empty()) { nontrivial(); count("registered-destructors", WN.size()); }
  }
  count("constructor-functions", P.CtorPrio.size()); count("destructor-functions", P.DtorPrio.size()); state(hashStr(P.Text)); sample(std::to_string(P.CtorPrio.size()) + " constructors, " + std::to_string(P.RegDtor.size()) + " registered destructors, " + std::to_string(P.DtorPrio.size()) + " destructor functions");
}
void warm() {
  ir::Opt O; (void)O;
  std::string T = "define i32 @main() {\n  ret i32 0\n}\n"; CGConf C{CGT::OTF, {"main"}, true, Soundness::Soundy, AliasAnalysisType::CFLAnders, true};
  Built B = build(T, C, 0, false);
}
} // namespace

std::vector<Harness> sim::harnesses() {
  std::vector<const char *> Real = {"LLVMProjectIRDB", "LLVMBasedICFG, call-graph builder and resolvers (NORESOLVE, CHA, RTA, DTA, OTF)", "LLVMBasedCFG / LLVMBasedBackwardCFG", "LLVMAliasSet and LLVM's alias analyses", "LLVMTypeHierarchy, LLVMVFTableProvider", "GlobalCtorsDtorsModel"};
  std::vector<const char *> Stub = {"analysed program (generated IR)", "program inputs (seeded)", "heap allocator (seeded placement)"};
  std::vector<const char *> As = {"function pointers are passed through SSA values, local slots, arguments, returns and constant tables", "class objects are created by alloca", "the interpreter in checks/irgen.cpp executes the generated IR fragment correctly"};
  return {
      {"C09", "one run = one generated program; its ICFG is built twice (shipped order and compact layout, seeded order and layout), compared, checked for consistency and against up to 4 simulated executions; non-trivial: an indirect or virtual call is executed", "event-log hash: program, configuration, worklist decisions, call graph", runC09, warm, Real, Stub, As, 40000, 800000, 45, 800, 20},
      {"C14", "one run = one generated program with static constructors, registered destructors and constructor/destructor functions; the ICFG's runtime model is built and executed twice, the history of constructor, entry and destructor calls is checked; non-trivial: a registered destructor runs", "event-log hash: program, entry points, call history", runC14, warm, {"GlobalCtorsDtorsModel", "LLVMProjectIRDB", "LLVMBasedICFG"}, Stub, {"the interpreter in checks/irgen.cpp executes the generated IR fragment correctly", "destructors of local statics are registered in main"}, 20000, 400000, 30, 400, 20},
      {"C08", "one run = one generated program whose alias information is built eagerly and, in another layout, in a seeded mode and query order; compared, checked as equivalence relation, against executions and under introduced aliases; non-trivial: two pointers hold the same address in an execution", "event-log hash: program, configuration, queries, alias sets", runC08, warm, Real, Stub, As, 40000, 800000, 45, 800, 20},
  };
}
