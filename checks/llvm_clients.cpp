// C10-C13: the shipped IFDS/IDE client analyses against simulated executions,
// in seeded processing orders and memory layouts.
#include "llvmutil.h"

#include "phasar/DataFlow/IfdsIde/Solver/IDESolver.h"
#include "phasar/DataFlow/IfdsIde/Solver/IFDSSolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMZeroValue.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/TaintConfig/LLVMTaintConfig.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"

#include "llvm/Support/raw_ostream.h"

#include <deque>

using namespace sim;
using namespace psr;
using CGT = CallGraphAnalysisType;
using I_t = const llvm::Instruction *;
using V_t = const llvm::Value *;

namespace {
struct World {
  std::unique_ptr<LLVMProjectIRDB> DB; std::unique_ptr<lu::Names> N; std::unique_ptr<LLVMTypeHierarchy> TH; std::unique_ptr<LLVMAliasSet> AS; std::unique_ptr<LLVMBasedICFG> G;
};
World world(const std::string &T, uint32_t Lay, AliasAnalysisType PA) {
  World W; lu::setPicker(false); W.DB = lu::makeDB(T, Lay); W.N = std::make_unique<lu::Names>(*W.DB->getModule());
  W.TH = std::make_unique<LLVMTypeHierarchy>(*W.DB); W.AS = std::make_unique<LLVMAliasSet>(W.DB.get(), true, PA);
  W.G = std::make_unique<LLVMBasedICFG>(W.DB.get(), CGT::OTF, std::vector<std::string>{"main"}, W.TH.get(), W.AS.get(), Soundness::Soundy, false);
  return W;
}
using Table = std::map<std::string, std::map<std::string, std::string>>;
std::string factName(World &W, V_t D) { return LLVMZeroValue::isLLVMZeroValue(D) ? "zero" : (*W.N)(D); }
template <class S> Table table(World &W, S &Solver) {
  Table T;
  for (auto &F : *W.DB->getModule()) for (auto &I : llvm::instructions(F)) { auto R = Solver.resultsAt(&I); if (R.empty()) continue; auto &X = T[(*W.N)(&I)]; for (auto &[D, L] : R) { std::string V; llvm::raw_string_ostream OS(V); OS << LToString(L); X[factName(W, D)] = OS.str(); } }
  return T;
}
std::string diff(const Table &A, const Table &B) {
  for (auto &[K, V] : A) { auto It = B.find(K); if (It == B.end()) return "nothing holds at " + K; for (auto &[D, L] : V) { auto J = It->second.find(D); if (J == It->second.end()) return D + " is missing at " + K; if (J->second != L) return D + " at " + K + " is " + J->second + " instead of " + L; } }
  for (auto &[K, V] : B) { auto It = A.find(K); if (It == A.end()) return "something holds at " + K; for (auto &[D, L] : V) if (!It->second.count(D)) return D + " is additional at " + K; }
  return "";
}
void hashTable(const Table &T) { uint64_t H = 7; for (auto &[K, V] : T) { H = mix(H, hashStr(K)); for (auto &[D, L] : V) H = mix(H, mix(hashStr(D), hashStr(L))); } ev(H); }
// drives a solver in one of the ways its interface offers
template <class S> void drive(S &So, bool Seeded) {
  if (!Seeded) { So.solve(); return; }
  lu::setPicker(true); uint64_t P0 = lu::NumPicks;
  switch (choose(FAULT, 3)) {
  case 0: So.solve(); break;
  case 1: { count("fault.stepwise"); So.initialize(); while (So.next()) ; So.finalize(); break; }
  default: { // cancelled at a seeded step, then continued
    count("fault.interrupted"); uint32_t K = choose(FAULT, 200); bool Done = false; uint32_t C = 0;
    auto R = So.solveUntil([&] { return C++ >= K; }, std::chrono::milliseconds(0)); if (R) Done = true;
    while (!Done) { uint32_t K2 = 1 + choose(FAULT, 300); C = 0; if (So.continueUntil([&] { return C++ >= K2; }, std::chrono::milliseconds(0))) Done = true; } break; }
  }
  lu::setPicker(false); count("worklist-picks", lu::NumPicks - P0);
}
// every executed statement must be reached by the solver (the zero fact holds)
template <class S> void checkReached(World &W, S &So, I_t I) {
  for (auto &[D, L] : So.resultsAt(I)) if (LLVMZeroValue::isLLVMZeroValue(D)) return;
  violation("client:executed-but-unreached", "an execution reaches " + (*W.N)(I) + " but the zero fact does not hold there");
}
AliasAnalysisType paType() { return weighted(GEN, {3, 1}) ? AliasAnalysisType::CFLSteens : AliasAnalysisType::CFLAnders; }
void start(const std::string &T) { setStepLimit(20000000); if (verbose()) note("%s", T.c_str()); evs(T); }
void compare(const Table &A, const Table &B, const char *What) {
  hashTable(B); std::string D = diff(A, B); if (!D.empty()) violation("client:order-dependent", std::string(What) + ": the result differs between two processing orders / memory layouts: " + D);
}

// -------------------------------------------------------------- C10 taint
struct Taint {
  World W; std::unique_ptr<LLVMTaintConfig> Cfg; std::unique_ptr<IFDSTaintAnalysis> P; std::unique_ptr<IFDSSolver<IFDSTaintAnalysis::ProblemAnalysisDomain>> S;
};
Taint taint(const std::string &T, uint32_t Lay, AliasAnalysisType PA, bool Seeded) {
  Taint X; X.W = world(T, Lay, PA);
  auto Src = [](I_t I) { std::set<V_t> R; if (auto *C = llvm::dyn_cast<llvm::CallBase>(I)) if (auto *F = C->getCalledFunction()) { if (F->getName() == "source") R.insert(C); if (F->getName() == "fill") R.insert(C->getArgOperand(0)); } return R; };
  auto Snk = [](I_t I) { std::set<V_t> R; if (auto *C = llvm::dyn_cast<llvm::CallBase>(I)) if (auto *F = C->getCalledFunction()) if (F->getName() == "sink") R.insert(C->getArgOperand(0)); return R; };
  X.Cfg = std::make_unique<LLVMTaintConfig>(Src, Snk);
  X.P = std::make_unique<IFDSTaintAnalysis>(X.W.DB.get(), X.W.AS.get(), X.Cfg.get(), std::vector<std::string>{"main"}, false);
  X.S = std::make_unique<IFDSSolver<IFDSTaintAnalysis::ProblemAnalysisDomain>>(*X.P, X.W.G.get());
  drive(*X.S, Seeded); return X;
}
std::map<std::string, std::set<std::string>> leaks(Taint &X) { std::map<std::string, std::set<std::string>> R; for (auto &[I, Ds] : X.P->Leaks) for (V_t D : Ds) R[(*X.W.N)(I)].insert((*X.W.N)(D)); return R; }
struct TaintObs : ir::Observer {
  Taint &X; uint64_t Leaked = 0, Sinks = 0; TaintObs(Taint &X) : X(X) {}
  void onStep(const ir::Frame &, I_t I) override { checkReached(X.W, *X.S, I); }
  void onExtern(const ir::Frame &, const llvm::CallBase *C, const llvm::Function *F, const std::vector<ir::Val> &As) override {
    if (F->getName() != "sink") return; ++Sinks; if (!As[0].Taint) return; ++Leaked;
    auto It = X.P->Leaks.find(C); if (It == X.P->Leaks.end() || !It->second.count(C->getArgOperand(0))) violation("taint:missed-leak", "a tainted value reaches " + (*X.W.N)(C) + " in an execution but no leak is reported there");
  }
};
void runC10() {
  ir::Opt O; O.Arith = false; O.Taint = true; O.SrcArg = chance(GEN, 2, 3); O.Virtual = chance(GEN, 1, 4); O.Select = chance(GEN, 1, 2); O.Phi = chance(GEN, 1, 2); O.MultiRet = chance(GEN, 1, 2); O.Switch = chance(GEN, 1, 2); O.Invoke = chance(GEN, 1, 3); O.VarArgs = chance(GEN, 1, 4); O.Heap = chance(GEN, 1, 3); O.NestTables = chance(GEN, 1, 4); O.Dbg = chance(GEN, 1, 4);
  O.PtrPtr = chance(GEN, 1, 2); O.Globals = chance(GEN, 1, 2); O.GlobalArgs = O.Globals && chance(GEN, 1, 2); O.Indirect = chance(GEN, 1, 2); O.FpKinds = chance(GEN, 1, 2); O.MaxFns = range(GEN, 1, 5); O.MaxStmts = range(GEN, 2, 6); O.Uninit = chance(GEN, 1, 3); O.PtrRet = chance(GEN, 1, 3);
  std::string T = ir::generate(O); start(T); auto PA = paType();
  Taint A = taint(T, 0, PA, false), B = taint(T, 1 + choose(LAYOUT, 1u << 20), PA, true); count("fault.layout-change");
  Table TA = table(A.W, *A.S), TB = table(B.W, *B.S); compare(TA, TB, "taint analysis");
  if (leaks(A) != leaks(B)) violation("taint:leaks-order-dependent", "the reported leaks differ between two processing orders");
  uint64_t L = 0;
  for (int R = 0, E = range(GEN, 1, 4); R < E; ++R) {
    TaintObs Ob(B); ir::Interp In(*B.W.DB->getModule(), &Ob);
    In.Extern = [](ir::Interp &In, const llvm::CallBase *C, const llvm::Function *F, const std::vector<ir::Val> &As) { ir::Val V; V.Kind = ir::Val::Int; V.I = (int)choose(GEN, 5); if (F->getName() == "source") V.Taint = 1; if (F->getName() == "fill") { V.Taint = 1; if (As[0].Kind == ir::Val::Ptr) In.Objs[As[0].Obj].Mem[As[0].I] = V; } return V; };
    In.run(B.W.DB->getFunction("main")); L += Ob.Leaked; count("executed-steps", In.Steps); count("executed-sinks", Ob.Sinks); count("executed-leaks", Ob.Leaked); state(mix(hashStr(T), In.Steps));
  }
  if (L) { nontrivial(); sample(std::to_string(B.P->Leaks.size()) + " leaking sinks reported"); }
}

// ------------------------------------------------- C11 linear constants
struct LCA { World W; std::unique_ptr<IDELinearConstantAnalysis> P; std::unique_ptr<IDESolver<IDELinearConstantAnalysisDomain>> S; };
LCA lca(const std::string &T, uint32_t Lay, bool Seeded) {
  LCA X; X.W = world(T, Lay, AliasAnalysisType::CFLAnders);
  X.P = std::make_unique<IDELinearConstantAnalysis>(X.W.DB.get(), X.W.G.get(), std::vector<std::string>{"main"});
  X.S = std::make_unique<IDESolver<IDELinearConstantAnalysisDomain>>(*X.P, X.W.G.get()); drive(*X.S, Seeded); return X;
}
struct LCAObs : ir::Observer {
  LCA &X; ir::Interp *In = nullptr; uint64_t Consts = 0, Ext = 0; bool Strict = false; LCAObs(LCA &X) : X(X) {}
  void onStep(const ir::Frame &Fr, I_t I) override {
    checkReached(X.W, *X.S, I); 
    for (auto &[D, L] : X.S->resultsAt(I)) {
      if (LLVMZeroValue::isLLVMZeroValue(D)) continue; auto *C = L.getValueOrNull(); if (!C) continue;
      ir::Val V; if (auto *G = llvm::dyn_cast<llvm::GlobalVariable>(D)) { V.Kind = ir::Val::Ptr; V.Obj = In->globalObj(G); } else { auto It = Fr.Env.find(D); if (It == Fr.Env.end()) continue; V = It->second; }
      if (V.Kind == ir::Val::Ptr) { auto &M = In->Objs[V.Obj].Mem; auto It = M.find(V.I); if (It == M.end()) continue; V = It->second; }
      if (V.Kind != ir::Val::Int || V.Uninit) continue; ++Consts;
      if (V.Taint && V.I != *C) { // derives from the result of an external function: a recorded finding
        ++Ext; if (!Strict) continue;
        violation("lca:external-result-ignored", "before " + (*X.W.N)(I) + " the analysis reports " + (*X.W.N)(D) + " = " + std::to_string(*C) + " but an execution has " + std::to_string(V.I) + ", which stems from a function without a body");
      }
      if (V.I != *C) violation("lca:wrong-constant", "before " + (*X.W.N)(I) + " the analysis reports " + (*X.W.N)(D) + " = " + std::to_string(*C) + " but an execution has " + std::to_string(V.I));
    }
  }
};
void runC11() {
  ir::Opt O; O.Phi = false; O.PtrPtr = false; O.Structs = false; O.Casts = chance(GEN, 1, 2); O.IntPhi = chance(GEN, 1, 2); O.BigConst = chance(GEN, 1, 3); O.GlobalArgs = false; O.Globals = chance(GEN, 1, 2); O.Indirect = chance(GEN, 1, 2); O.FpKinds = chance(GEN, 1, 2); O.Virtual = chance(GEN, 1, 4); O.Div = chance(GEN, 1, 2); O.ConstBranch = chance(GEN, 1, 2); O.MaxFns = range(GEN, 1, 5); O.MaxStmts = range(GEN, 2, 6); O.MultiRet = chance(GEN, 1, 2); O.Switch = chance(GEN, 1, 2); O.Invoke = chance(GEN, 1, 3); O.VarArgs = chance(GEN, 1, 4); O.NestTables = chance(GEN, 1, 4); O.Dbg = chance(GEN, 1, 4);
  const bool Strict = chance(GEN, 1, 16);
  std::string T = ir::generate(O); start(T);
  LCA A = lca(T, 0, false), B = lca(T, 1 + choose(LAYOUT, 1u << 20), true); count("fault.layout-change"); compare(table(A.W, *A.S), table(B.W, *B.S), "linear constant analysis");
  uint64_t N = 0;
  for (int R = 0, E = range(GEN, 1, 4); R < E; ++R) {
    LCAObs Ob(B); ir::Interp In(*B.W.DB->getModule(), &Ob); Ob.In = &In;
    In.Extern = [](ir::Interp &, const llvm::CallBase *, const llvm::Function *, const std::vector<ir::Val> &) { ir::Val V; V.Kind = ir::Val::Int; V.I = (int)choose(GEN, 5); V.Taint = 1; return V; };
    Ob.Strict = Strict; In.run(B.W.DB->getFunction("main")); N += Ob.Consts; count("external-results-ignored", Ob.Ext); count("executed-steps", In.Steps); count("constants-compared", Ob.Consts); if (In.Overflowed) count("executions-with-overflow"); state(mix(hashStr(T), In.Steps));
  }
  if (N) { nontrivial(); sample(std::to_string(N) + " reported constants compared with executions"); }
}

// ------------------------------------------- C12 uninitialised variables
struct Uninit { World W; std::unique_ptr<IFDSUninitializedVariables> P; std::unique_ptr<IFDSSolver<IFDSUninitializedVariables::ProblemAnalysisDomain>> S; };
Uninit uninit(const std::string &T, uint32_t Lay, bool Seeded) {
  Uninit X; X.W = world(T, Lay, AliasAnalysisType::CFLAnders); X.P = std::make_unique<IFDSUninitializedVariables>(X.W.DB.get(), std::vector<std::string>{"main"});
  X.S = std::make_unique<IFDSSolver<IFDSUninitializedVariables::ProblemAnalysisDomain>>(*X.P, X.W.G.get()); drive(*X.S, Seeded); return X;
}
std::map<std::string, std::set<std::string>> uses(Uninit &X) { std::map<std::string, std::set<std::string>> R; for (auto &[I, Ds] : X.P->getAllUndefUses()) for (V_t D : Ds) R[(*X.W.N)(I)].insert((*X.W.N)(D)); return R; }
struct UninitObs : ir::Observer {
  Uninit &X; uint64_t Uses = 0; UninitObs(Uninit &X) : X(X) {}
  void onStep(const ir::Frame &Fr, I_t I) override {
    checkReached(X.W, *X.S, I);
    if (!llvm::isa<llvm::BinaryOperator>(I) && !llvm::isa<llvm::ICmpInst>(I) && !llvm::isa<llvm::BranchInst>(I)) return;
    for (auto &Op : I->operands()) { auto It = Fr.Env.find(Op); if (It != Fr.Env.end() && It->second.Uninit) need(I, Op); }
  }
  void onValue(const ir::Frame &, V_t D, const ir::Val &V) override { if (V.Uninit) if (auto *L = llvm::dyn_cast<llvm::LoadInst>(D)) need(L, L->getPointerOperand()); }
  void need(I_t I, V_t Op) { ++Uses; auto &U = X.P->getAllUndefUses(); auto It = U.find(I); if (It == U.end() || !It->second.count(Op)) violation("uninit:missed-use", "an execution uses an uninitialised value (" + (*X.W.N)(Op) + ") at " + (*X.W.N)(I) + " but the analysis does not report it"); }
};
void runC12() {
  ir::Opt O; O.Uninit = true; O.Phi = false; O.PtrPtr = false; O.Structs = false; O.Globals = false; O.Indirect = chance(GEN, 1, 2); O.FpKinds = chance(GEN, 1, 2); O.Virtual = chance(GEN, 1, 4); O.ConstBranch = chance(GEN, 1, 2); O.MaxFns = range(GEN, 1, 5); O.MaxStmts = range(GEN, 2, 6); O.MultiRet = chance(GEN, 1, 2); O.Switch = chance(GEN, 1, 2); O.Invoke = chance(GEN, 1, 3); O.NestTables = chance(GEN, 1, 4); O.Dbg = chance(GEN, 1, 4);
  std::string T = ir::generate(O); start(T);
  Uninit A = uninit(T, 0, false), B = uninit(T, 1 + choose(LAYOUT, 1u << 20), true); count("fault.layout-change"); compare(table(A.W, *A.S), table(B.W, *B.S), "uninitialised-variables analysis");
  if (uses(A) != uses(B)) violation("uninit:uses-order-dependent", "the reported uses differ between two processing orders");
  uint64_t N = 0;
  for (int R = 0, E = range(GEN, 1, 4); R < E; ++R) {
    UninitObs Ob(B); ir::Interp In(*B.W.DB->getModule(), &Ob);
    In.Extern = [](ir::Interp &In, const llvm::CallBase *, const llvm::Function *F, const std::vector<ir::Val> &As) { ir::Val V; V.Kind = ir::Val::Int; V.I = (int)choose(GEN, 5); if (F->getName() == "extp" && As[0].Kind == ir::Val::Ptr) In.Objs[As[0].Obj].Mem[As[0].I] = V; return V; }; // external functions initialise what they get a pointer to
    In.run(B.W.DB->getFunction("main")); N += Ob.Uses; count("executed-steps", In.Steps); count("uninitialised-uses-executed", Ob.Uses); state(mix(hashStr(T), In.Steps));
  }
  if (N) { nontrivial(); sample(std::to_string(N) + " executed uses of uninitialised values"); }
}

// ---------------------------------------------------------- C13 typestate
using TSP = IDETypeStateAnalysis<CSTDFILEIOTypeStateDescription>;
// slot-wise classes of file pointers: a slot's loads and the values stored to it
std::map<V_t, int> fileClasses(const llvm::Function &F) {
  std::map<V_t, V_t> Par; std::function<V_t(V_t)> Find = [&](V_t X) { auto It = Par.find(X); if (It == Par.end()) { Par[X] = X; return X; } return It->second == X ? X : Par[X] = Find(It->second); };
  auto IsFile = [](V_t X) { auto *P = llvm::dyn_cast<llvm::PointerType>(X->getType()); return P && P->getPointerElementType()->isStructTy(); };
  for (auto &I : llvm::instructions(F)) {
    if (auto *L = llvm::dyn_cast<llvm::LoadInst>(&I)) { if (IsFile(L)) Par[Find(L)] = Find(L->getPointerOperand()); }
    if (auto *S = llvm::dyn_cast<llvm::StoreInst>(&I)) if (IsFile(S->getValueOperand())) Par[Find(S->getValueOperand())] = Find(S->getPointerOperand());
    if (IsFile(&I)) Find(&I);
  }
  for (auto &A : F.args()) if (IsFile(&A)) Find(&A);
  std::map<V_t, int> C, R; for (auto &[V, P] : Par) { V_t X = Find(V); auto It = R.find(X); if (It == R.end()) It = R.emplace(X, R.size()).first; C[V] = It->second; }
  return C;
}
// exact alias information for the generated programs, behind the interface of the real one
struct SlotAlias {
  using v_t = V_t; using n_t = I_t; using SetTy = llvm::DenseSet<V_t>; using AliasSetTy = SetTy;
  std::deque<SetTy> Sets; std::deque<SetTy *> Ptrs; std::map<V_t, size_t> Of;
  SlotAlias(const llvm::Module &M) { for (auto &F : M) { if (F.isDeclaration()) continue; std::map<int, size_t> Ix; for (auto &[V, C] : fileClasses(F)) { bool Slot = llvm::isa<llvm::AllocaInst>(V); size_t K; if (Slot || !Ix.count(C)) { K = Sets.size(); Sets.emplace_back(); if (!Slot) Ix[C] = K; } else K = Ix[C]; Sets[K].insert(V); Of[V] = K; } } for (auto &X : Sets) Ptrs.push_back(&X); }
  size_t of(V_t V) { auto It = Of.find(V); if (It != Of.end()) return It->second; Sets.emplace_back(); Sets.back().insert(V); Ptrs.push_back(&Sets.back()); return Of[V] = Sets.size() - 1; }
  bool isInterProcedural() const noexcept { return false; }
  AliasAnalysisType getAliasAnalysisType() const noexcept { return AliasAnalysisType::CFLAnders; }
  AliasResult alias(V_t A, V_t B, I_t) { return of(A) == of(B) ? AliasResult::MayAlias : AliasResult::NoAlias; }
  BoxedConstPtr<SetTy> getAliasSet(V_t V, I_t) { return BoxedPtr<SetTy>(&Ptrs[of(V)]); }
  std::unique_ptr<SetTy> getReachableAllocationSites(V_t, bool, I_t) { return std::make_unique<SetTy>(); }
  bool isInReachableAllocationSites(V_t, V_t, bool, I_t) { return false; }
  void print(llvm::raw_ostream &) const {} void printAsJson(llvm::raw_ostream &) const {} void mergeWith(const SlotAlias &) {} void introduceAlias(V_t, V_t, I_t, AliasResult) {}
  AnalysisProperties getAnalysisProperties() const noexcept { return AnalysisProperties::None; }
};
struct TS { World W; std::unique_ptr<SlotAlias> SA; std::unique_ptr<CSTDFILEIOTypeStateDescription> D; std::unique_ptr<TSP> P; std::unique_ptr<IDESolver<IDETypeStateAnalysisDomain<CSTDFILEIOTypeStateDescription>>> S; };
TS ts(const std::string &T, uint32_t Lay, AliasAnalysisType PA, bool Exact, bool Seeded) {
  TS X; X.W = world(T, Lay, PA); X.SA = std::make_unique<SlotAlias>(*X.W.DB->getModule()); LLVMAliasInfoRef AI = Exact ? LLVMAliasInfoRef(X.SA.get()) : LLVMAliasInfoRef(X.W.AS.get()); X.D = std::make_unique<CSTDFILEIOTypeStateDescription>(); X.P = std::make_unique<TSP>(X.W.DB.get(), AI, X.D.get(), std::vector<std::string>{"main"});
  X.S = std::make_unique<IDESolver<IDETypeStateAnalysisDomain<CSTDFILEIOTypeStateDescription>>>(*X.P, X.W.G.get()); drive(*X.S, Seeded); return X;
}
enum { UNINIT = 0, OPENED = 1, CLOSED = 2, ERROR = 3 };
struct TSObs : ir::Observer {
  TS &X; ir::Interp *In = nullptr; uint64_t States = 0, Errs = 0; TSObs(TS &X) : X(X) {}
  void onStep(const ir::Frame &Fr, I_t I) override {
    checkReached(X.W, *X.S, I);
    auto Res = X.S->resultsAt(I);
    for (auto &[A, V] : Fr.Env) if (auto *Al = llvm::dyn_cast<llvm::AllocaInst>(A)) if (Al->getAllocatedType()->isPointerTy()) {
      auto It = Res.find(A); if (It == Res.end() || It->second == CSTDFILEIOState::TOP) violation("typestate:lost-track", "an execution reaches " + (*X.W.N)(I) + " but the analysis has no state for " + (*X.W.N)(A) + " there");
    }
    for (auto &[D, L] : Res) {
      if (LLVMZeroValue::isLLVMZeroValue(D)) continue; if (L == CSTDFILEIOState::TOP || L == CSTDFILEIOState::BOT) continue;
      auto It = Fr.Env.find(D); if (It == Fr.Env.end()) continue; ir::Val V = It->second; int St = UNINIT;
      if (!llvm::isa<llvm::AllocaInst>(D)) continue;
      { auto &M = In->Objs[V.Obj].Mem; auto J = M.find(V.I); if (J != M.end()) { V = J->second; if (V.Kind != ir::Val::Ptr) continue; St = In->Objs[V.Obj].State; } }
      ++States; if (St == ERROR) ++Errs;
      if ((int)L != St) violation("typestate:wrong-state", "before " + (*X.W.N)(I) + " the analysis reports state " + LToString(L).str() + " for " + (*X.W.N)(D) + " but an execution has state " + LToString((CSTDFILEIOState)St).str());
    }
  }
};
void runC13() {
  ir::Opt O; O.Files = true; O.FileArgs = chance(GEN, 1, 2); O.FileCopy = false; O.Phi = false; O.PtrPtr = false; O.Globals = false; O.Ptr = false; O.Arith = false; O.Indirect = false; O.Virtual = false; O.MaxFns = range(GEN, 1, 4); O.MaxStmts = range(GEN, 1, 5); O.MultiRet = chance(GEN, 1, 2); O.Switch = chance(GEN, 1, 2); O.Invoke = chance(GEN, 1, 3); O.VarArgs = chance(GEN, 1, 4);
  std::string T = ir::generate(O); start(T); auto PA = paType();
  const bool Exact = chance(GEN, 3, 4); if (Exact) count("runs-with-exact-alias-information");
  TS A = ts(T, 0, PA, Exact, false), B = ts(T, 1 + choose(LAYOUT, 1u << 20), PA, Exact, true); count("fault.layout-change"); compare(table(A.W, *A.S), table(B.W, *B.S), "typestate analysis");
  if (!Exact) return; // states under may-alias information are only compared between orders
  uint64_t N = 0;
  for (int R = 0, E = range(GEN, 1, 4); R < E; ++R) {
    TSObs Ob(B); ir::Interp In(*B.W.DB->getModule(), &Ob); Ob.In = &In;
    In.Extern = [](ir::Interp &In, const llvm::CallBase *C, const llvm::Function *F, const std::vector<ir::Val> &As) {
      static const int Close[4] = {ERROR, CLOSED, ERROR, ERROR}, Star[4] = {ERROR, OPENED, ERROR, ERROR};
      ir::Val V; V.Kind = ir::Val::Int; V.I = (int)choose(GEN, 5);
      if (F->getName() == "fopen") { V.Kind = ir::Val::Ptr; V.I = 0; V.Obj = In.Objs.size(); In.Objs.push_back({C, {}}); In.Objs.back().State = OPENED; }
      if (F->getName() == "fclose" || F->getName() == "fgetc") if (As[0].Kind == ir::Val::Ptr) { int &S = In.Objs[As[0].Obj].State; S = (F->getName() == "fclose" ? Close : Star)[S]; }
      return V; };
    In.run(B.W.DB->getFunction("main")); N += Ob.States; count("executed-steps", In.Steps); count("states-compared", Ob.States); count("error-states-compared", Ob.Errs); state(mix(hashStr(T), In.Steps));
  }
  if (N) { nontrivial(); sample(std::to_string(N) + " reported states compared with executions"); }
}
void warm() { std::string T = "define i32 @main() {\n  ret i32 0\n}\n"; LCA A = lca(T, 0, false); Taint B = taint(T, 0, AliasAnalysisType::CFLAnders, false); }
} // namespace

std::vector<Harness> sim::harnesses() {
  std::vector<const char *> Real = {"LLVMProjectIRDB, LLVMBasedICFG (OTF), LLVMAliasSet, LLVMTypeHierarchy", "IDESolver / IFDSSolver", "the client analysis and its flow and edge functions"};
  std::vector<const char *> Stub = {"analysed program (generated IR)", "program inputs (seeded)", "heap allocator (seeded placement)"};
  std::vector<const char *> As = {"the interpreter in checks/irgen.cpp executes the generated IR fragment correctly"};
  const char *DM = "event-log hash: program, worklist decisions, result table";
  return {
      {"C10", "one run = one generated program with sources and sinks; the taint analysis is solved twice (shipped order, seeded order/layout/interruption), compared, and checked against up to 4 executions with dynamic taint; non-trivial: a tainted value reached a sink", DM, runC10, warm, Real, Stub, As, 40000, 800000, 40, 800, 20},
      {"C11", "one run = one generated program; the constant analysis is solved twice and every reported constant compared with up to 4 executions; non-trivial: a reported constant was executed", DM, runC11, warm, Real, Stub, As, 40000, 800000, 40, 800, 20},
      {"C12", "one run = one generated program; the analysis is solved twice and every executed use of an uninitialised value must be reported; non-trivial: such a use was executed", DM, runC12, warm, Real, Stub, As, 40000, 800000, 40, 800, 20},
      {"C13", "one run = one generated program using C file streams; the analysis is solved twice and every reported state compared with up to 4 executions; non-trivial: a reported state was executed", DM, runC13, warm, Real, Stub, As, 40000, 800000, 40, 800, 20},
  };
}
