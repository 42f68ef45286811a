// C17: path tracing on the explicit exploded supergraph, compared with the
// enumerated interprocedural paths of generated loop-free programs.
#include "llvmutil.h"
#include "../sim/disk.h"

#include "phasar/DataFlow/IfdsIde/FlowFunctions.h"
#include "phasar/DataFlow/IfdsIde/IFDSTabulationProblem.h"
#include "phasar/DataFlow/IfdsIde/Solver/PathAwareIDESolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMZeroValue.h"
#include "phasar/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.h"
#include "phasar/PhasarLLVM/DataFlow/PathSensitivity/Z3BasedPathSensitvityManager.h"
#include "phasar/PhasarLLVM/Domain/LLVMAnalysisDomain.h"

#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"

#include <algorithm>
#include <array>
#include <functional>

using namespace sim;
using namespace psr;
using I_t = const llvm::Instruction *;
using F_t = const llvm::Function *;
using V_t = const llvm::Value *;

namespace {
constexpr int NF = 3; // facts @g0.. ; 0 is the zero fact, i + 1 is @gi
using Set = std::set<int>;
using Row = std::map<int, Set>;       // fact -> facts
struct Tables { std::map<std::string, Row> Normal, Call, Ret, Ctr; };
std::string s(uint64_t V) { return std::to_string(V); }

// ---- programs: loop-free, no recursion, conditions over variables that are never changed
struct Gen {
  std::string Out; int NFn, T = 0, L = 0; bool Debug = false, SameNames, Ext, Phi, Trunc, Multi; bool Exact = true; std::vector<bool> Cond; int NCond = 0; Set Used, All; std::map<int, Set> Clo; // every path enters the functions in the same order and at most once: the paths form a DAG
  std::string B; int Cur = 0; std::string Bv; std::vector<std::string> Slots;
  std::string tmp() { return "%t" + s(T++); }
  std::string lab() { return "l" + s(L++); }
  std::string pred() { static const char *P[] = {"eq", "ne", "sgt", "sge", "slt", "sle"}; return P[choose(GEN, 6)]; }
  std::string load() { std::string X = tmp(); B += "  " + X + " = load i32, i32* " + Slots[choose(GEN, Slots.size())] + "\n"; return X; }
  std::string cmp() {
    std::string A;
    if (Ext && choose(GEN, 3) == 1) { A = tmp(); B += "  " + A + " = call i32 @ext" + s(choose(GEN, 2)) + "()\n"; }
    else A = load();
    if (choose(GEN, 4) == 1) { std::string X = tmp(); B += "  " + X + (choose(GEN, 2) ? " = add i32 " : " = sub i32 ") + A + ", " + s(choose(GEN, 3)) + "\n"; A = X; }
    std::string R = choose(GEN, 4) == 1 ? load() : s(choose(GEN, 4)), X = tmp();
    B += "  " + X + " = icmp " + pred() + " i32 " + A + ", " + R + "\n"; return X;
  }
  void stmt() {
    switch (weighted(GEN, {3, 3, 2, 4, 1})) {
    case 0: B += "  " + tmp() + " = add i32 1, " + s(choose(GEN, 9)) + "\n"; break;
    case 1: B += "  store i32 " + s(choose(GEN, 9)) + ", i32* @g" + s(choose(GEN, NF)) + "\n"; break;
    case 2: load(); break;
    case 3: {
      std::vector<int> C; for (int F = Cur + 1; F < NFn; ++F) if (Used.empty() || F > *Used.rbegin()) C.push_back(F);
      if (C.empty()) break; int F = C[choose(GEN, C.size())]; Used.insert(Clo[F].begin(), Clo[F].end()); All.insert(Clo[F].begin(), Clo[F].end()); std::string A = load();
      B += "  " + tmp() + " = call i32 @f" + s(F) + "(i32 " + A + ")\n"; break; }
    default: B += "  call void @sink(i32 " + s(choose(GEN, 3)) + ")\n";
    }
  }
  void block(int D) {
    int N = choose(GEN, 4); for (int I = 0; I < N; ++I) stmt();
    if (!Cond[Cur] || D == 0) return;
    int M = choose(GEN, 3);
    for (int I = 0; I < M && NCond < 6; ++I) {
      ++NCond; std::string Th = lab(), El = lab(), Jn = lab(); bool HasElse = choose(GEN, 2);
      switch (weighted(GEN, {6, Phi ? 2u : 0u, Trunc ? 2u : 0u, 1})) {
      case 1: { // short-circuit
        Exact = false; std::string C1 = cmp(), E = lab(), Rh = lab(), Cj = lab(), P = tmp(); bool Or = choose(GEN, 2);
        B += "  br label %" + E + "\n" + E + ":\n  br i1 " + C1 + ", label %" + (Or ? Cj : Rh) + ", label %" + (Or ? Rh : Cj) + "\n" + Rh + ":\n"; std::string C2 = cmp(); B += "  br label %" + Cj + "\n" + Cj + ":\n  " + P + " = phi i1 [ " + (Or ? "true" : "false") + ", %" + E + " ], [ " + C2 + ", %" + Rh + " ]\n  br i1 " + P; break; }
      case 2: { // bool variable
        std::string X = tmp(), Y = tmp(); B += "  " + X + " = load i8, i8* " + Bv + "\n  " + Y + " = trunc i8 " + X + " to i1\n  br i1 " + Y; break; }
      case 3: { // switch
        std::string X = load(), C0 = lab(), C1 = lab(); Exact = false; B += "  switch i32 " + X + ", label %" + Jn + " [ i32 0, label %" + C0 + "\n i32 2, label %" + C1 + " ]\n" + C0 + ":\n"; Set U0 = Used; block(D - 1); B += "  br label %" + Jn + "\n" + C1 + ":\n"; Set U1 = Used; Used = U0; block(D - 1); Used.insert(U1.begin(), U1.end()); B += "  br label %" + Jn + "\n" + Jn + ":\n"; stmt(); continue; }
      default: if (Trunc && choose(GEN, 3) == 1) { std::string X = tmp(), Y = tmp(), Z = tmp(); B += "  " + X + " = load i8, i8* " + Bv + "\n  " + Y + " = zext i8 " + X + " to i32\n  " + Z + " = icmp " + (choose(GEN, 2) ? "eq" : "ne") + " i32 " + Y + ", " + s(choose(GEN, 2)) + "\n  br i1 " + Z; }
        else { std::string C = cmp(); B += "  br i1 " + C; }
      }
      B += ", label %" + Th + ", label %" + (HasElse ? El : Jn) + "\n" + Th + ":\n"; Set U0 = Used; block(D - 1); Set U1 = Used;
      if (Multi && choose(GEN, 5) == 1) B += "  ret i32 " + s(choose(GEN, 3)) + "\n"; else B += "  br label %" + Jn + "\n";
      if (HasElse) { Used = U0; B += El + ":\n"; block(D - 1); Used.insert(U1.begin(), U1.end()); B += "  br label %" + Jn + "\n"; }
      B += Jn + ":\n"; stmt();
    }
  }
  std::string run() {
    NFn = range(GEN, 1, 4); Ext = choose(GEN, 2); Phi = choose(GEN, 3) == 1; Trunc = choose(GEN, 3) == 1; Multi = choose(GEN, 3) == 1; SameNames = chance(GEN, 1, 6); bool Named = choose(GEN, 4);
    Cond.assign(NFn, false); Cond[0] = true; for (int F = 1; F < NFn; ++F) Cond[F] = choose(GEN, 2);
    Out = "@g0 = global i32 0\n@g1 = global i32 0\n@g2 = global i32 0\ndeclare i32 @ext0()\ndeclare i32 @ext1()\ndeclare void @sink(i32)\n";
    std::vector<std::string> Body(NFn);
    for (Cur = NFn - 1; Cur >= 0; --Cur) {
      Used.clear(); All = {Cur}; Bv = SameNames ? "%b" : "%b" + s(Cur);
      int NP = Cur ? 1 : range(GEN, 1, 3); T = L = 0; NCond = Cur ? 3 : 0; Slots.clear(); B.clear();
      for (int P = 0; P < NP; ++P) { std::string N = SameNames ? "%v" + s(P) : "%v" + s(Cur) + s(P); Slots.push_back(N); B += "  " + N + " = alloca i32\n"; }
      if (Trunc) B += "  " + Bv + " = alloca i8\n";
      for (int P = 0; P < NP; ++P) B += "  store i32 %a" + s(P) + ", i32* " + Slots[P] + "\n";
      if (Trunc) { std::string A = tmp(), C = tmp(), D = tmp(); B += "  " + A + " = and i32 %a" + s(choose(GEN, NP)) + ", 1\n  " + C + " = trunc i32 " + A + " to i8\n  store i8 " + C + ", i8* " + Bv + "\n"; }
      block(2);
      Clo[Cur] = All; auto &Out = Body[Cur]; Out += "define i32 @" + (Cur ? "f" + s(Cur) : std::string("main")) + "("; for (int P = 0; P < NP; ++P) Out += (P ? ", i32 %a" : "i32 %a") + s(P); Out += ") {\nentry:\n" + B + "  ret i32 0\n}\n";
    }
    for (auto &X : Body) Out += X;
    if (!Named) unname(); return Out;
  }
  void unname() { // clang discards the names of values in release builds
    Strip = true;
  }
  bool Strip = false;
};

// ---- the analysis: generated distributive flow tables over the facts
struct Problem : IFDSTabulationProblem<LLVMIFDSAnalysisDomainDefault> {
  const Tables &T; const lu::Names &N; std::vector<V_t> Fs;
  Problem(const LLVMProjectIRDB *DB, const Tables &T, const lu::Names &N) : IFDSTabulationProblem(DB, {"main"}, LLVMZeroValue::getInstance()), T(T), N(N) { Fs.push_back(LLVMZeroValue::getInstance()); for (int I = 0; I < NF; ++I) Fs.push_back(DB->getModule()->getNamedGlobal("g" + s(I))); getIFDSIDESolverConfig().setAutoAddZero(false); }
  int id(V_t V) const { for (int I = 0; I <= NF; ++I) if (Fs[I] == V) return I; violation("paths:unknown-fact", "a flow function gets a fact that does not exist"); }
  FlowFunctionPtrType row(const std::map<std::string, Row> &M, const std::string &K) { auto It = M.find(K); if (It == M.end()) violation("paths:unknown-flow", K); const Row *R = &It->second; step(); return lambdaFlow([this, R](V_t D) { container_type C; for (int X : R->at(id(D))) C.insert(Fs[X]); return C; }); }
  FlowFunctionPtrType getNormalFlowFunction(I_t C, I_t) override { return row(T.Normal, N(C)); }
  FlowFunctionPtrType getCallFlowFunction(I_t C, F_t) override { return row(T.Call, N(C)); }
  FlowFunctionPtrType getRetFlowFunction(I_t C, F_t, I_t E, I_t) override { return row(T.Ret, N(C) + N(E)); }
  FlowFunctionPtrType getCallToRetFlowFunction(I_t C, I_t, llvm::ArrayRef<F_t>) override { return row(T.Ctr, N(C)); }
  InitialSeeds<I_t, V_t, l_t> initialSeeds() override { return createDefaultSeeds(); }
  V_t createZeroValue() const { return LLVMZeroValue::getInstance(); }
  bool isZeroValue(V_t D) const noexcept override { return LLVMZeroValue::isLLVMZeroValue(D); }
};

// ---- enumerated interprocedural paths
using Env = std::map<V_t, int>;
struct Decision { const llvm::Instruction *Br; int Succ; std::map<const llvm::PHINode *, const llvm::Value *> Phi; };
struct Trace { std::vector<I_t> Is; std::vector<Set> In; std::vector<Decision> Ds; };
int64_t eval(const Decision &D, V_t V, const Env &E) {
  if (auto *C = llvm::dyn_cast<llvm::ConstantInt>(V)) return V->getType()->isIntegerTy(1) ? (int64_t)C->getZExtValue() : C->getSExtValue();
  if (auto *X = llvm::dyn_cast<llvm::LoadInst>(V)) return E.at(X->getPointerOperand());
  if (llvm::isa<llvm::CallBase>(V)) return E.at(V);
  if (auto *X = llvm::dyn_cast<llvm::CastInst>(V)) { int64_t R = eval(D, X->getOperand(0), E); return llvm::isa<llvm::TruncInst>(X) ? R & 1 : R; }
  if (auto *X = llvm::dyn_cast<llvm::BinaryOperator>(V)) { int64_t A = eval(D, X->getOperand(0), E), B = eval(D, X->getOperand(1), E); return X->getOpcode() == llvm::Instruction::Add ? A + B : A - B; }
  if (auto *X = llvm::dyn_cast<llvm::PHINode>(V)) return eval(D, D.Phi.at(X), E);
  auto *X = llvm::cast<llvm::ICmpInst>(V); int64_t A = eval(D, X->getOperand(0), E), B = eval(D, X->getOperand(1), E);
  switch (X->getPredicate()) { case llvm::CmpInst::ICMP_EQ: return A == B; case llvm::CmpInst::ICMP_NE: return A != B; case llvm::CmpInst::ICMP_SGT: return A > B; case llvm::CmpInst::ICMP_SGE: return A >= B; case llvm::CmpInst::ICMP_SLT: return A < B; default: return A <= B; }
}
void atoms(const Decision &D, V_t V, std::set<V_t> &A) {
  if (auto *X = llvm::dyn_cast<llvm::LoadInst>(V)) { A.insert(X->getPointerOperand()); return; }
  if (llvm::isa<llvm::CallBase>(V)) { A.insert(V); return; }
  if (auto *X = llvm::dyn_cast<llvm::PHINode>(V)) return atoms(D, D.Phi.at(X), A);
  if (auto *X = llvm::dyn_cast<llvm::User>(V)) for (auto &O : X->operands()) if (!llvm::isa<llvm::Constant>(O)) atoms(D, O, A);
}
struct Oracle {
  const Tables &T; const lu::Names &N; I_t Target; std::vector<Trace> Out; bool TooMany = false; std::map<std::string, bool> Memo;
  struct Frame { I_t Call; Set Ctr; };
  Trace Cur; std::vector<Frame> Stack; std::map<const llvm::PHINode *, V_t> Phi;
  static Set apply(const Row &R, const Set &S) { Set O; for (int X : S) { auto &Y = R.at(X); O.insert(Y.begin(), Y.end()); } return O; }
  void go(I_t I, Set In) {
    if (TooMany) return; if (Out.size() > 300) { TooMany = true; return; }
    size_t NI = Cur.Is.size(), ND = Cur.Ds.size(); Cur.Is.push_back(I); Cur.In.push_back(In);
    if (I == Target) Out.push_back(Cur); else step1(I, In);
    Cur.Is.resize(NI); Cur.In.resize(NI); Cur.Ds.resize(ND);
  }
  void step1(I_t I, const Set &In) {
    if (auto *C = llvm::dyn_cast<llvm::CallBase>(I)) {
      auto *F = C->getCalledFunction(); Set Ctr = apply(T.Ctr.at(N(I)), In);
      if (!F->isDeclaration()) { Stack.push_back({I, Ctr}); go(&F->getEntryBlock().front(), apply(T.Call.at(N(I)), In)); Stack.pop_back(); return; }
      return go(I->getNextNode(), Ctr);
    }
    if (llvm::isa<llvm::ReturnInst>(I)) {
      if (Stack.empty()) return; Frame F = Stack.back(); Stack.pop_back(); Set O = apply(T.Ret.at(N(F.Call) + N(I)), In); O.insert(F.Ctr.begin(), F.Ctr.end()); go(F.Call->getNextNode(), O); Stack.push_back(F); return;
    }
    Set O = apply(T.Normal.at(N(I)), In);
    if (auto *X = I->getNextNode()) return go(X, O);
    for (unsigned J = 0; J < I->getNumSuccessors(); ++J) {
      auto *S = I->getSuccessor(J); auto Save = Phi; for (auto &P : S->phis()) Phi[&P] = P.getIncomingValueForBlock(I->getParent());
      bool D = I->getNumSuccessors() > 1; if (D) Cur.Ds.push_back({I, (int)J, Save}); go(&S->front(), O); if (D) Cur.Ds.pop_back(); Phi = Save;
    }
  }
  static bool holds(const Decision &D, const Env &E) {
    if (auto *B = llvm::dyn_cast<llvm::BranchInst>(D.Br)) return (eval(D, B->getCondition(), E) != 0) == (D.Succ == 0);
    auto *Sw = llvm::cast<llvm::SwitchInst>(D.Br); int64_t V = eval(D, Sw->getCondition(), E); auto C = const_cast<llvm::SwitchInst *>(Sw)->findCaseValue(llvm::ConstantInt::get(llvm::cast<llvm::IntegerType>(Sw->getCondition()->getType()), V, true)); return (int)C->getSuccessorIndex() == D.Succ;
  }
  // is there an execution of this path: one value per variable and per external call
  // Conflate: variables with the same name are taken for one variable (known finding)
  bool feasible(const Trace &Tr, bool Conflate = false) {
    std::map<F_t, std::vector<const Decision *>> ByF; for (auto &D : Tr.Ds) ByF[Conflate ? nullptr : D.Br->getFunction()].push_back(&D);
    for (auto &FD : ByF) { auto &Ds = FD.second;
      std::string K = Conflate ? "*" : ""; for (auto *D : Ds) K += N(D->Br) + s(D->Succ) + ";"; auto [It, New] = Memo.try_emplace(K, false);
      if (New) {
        std::set<V_t> A; for (auto *D : Ds) atoms(*D, D->Br->getOperand(0), A); Env E;
        std::map<std::string, std::vector<V_t>> Cl; for (V_t V : A) Cl[Conflate && V->hasName() && llvm::isa<llvm::AllocaInst>(V) ? "n" + V->getName().str() : N(llvm::cast<llvm::Instruction>(V))].push_back(V);
        std::vector<std::vector<V_t>> Av; for (auto &[X, Vs] : Cl) Av.push_back(Vs); if (Av.size() > 5) { TooMany = true; return false; }
        std::function<bool(size_t)> Try = [&](size_t I) { if (I == Av.size()) { for (auto *D : Ds) if (!holds(*D, E)) return false; return true; }
          for (int V = -5; V <= 8; ++V) { for (V_t X : Av[I]) E[X] = V; if (Try(I + 1)) return true; } return false; };
        It->second = Try(0);
      }
      if (!It->second) return false;
    }
    return true;
  }
};
// Identity edges of a fact are merged within a basic block by design (class comment of ExplodedSuperGraph): a fact
// that reaches one statement of such a chain counts as reaching all of it. True if the fact holds at the end then.
bool mergedHolds(const Tables &T, const lu::Names &N, const Trace &Tr, int Fact) {
  size_t L = Tr.Is.size(); std::vector<std::vector<std::pair<size_t, const Row *>>> Out(L); std::vector<size_t> St, CallOf(L);
  for (size_t I = 0; I + 1 < L; ++I) {
    I_t X = Tr.Is[I];
    if (auto *C = llvm::dyn_cast<llvm::CallBase>(X)) { if (!C->getCalledFunction()->isDeclaration()) { St.push_back(I); Out[I].push_back({I + 1, &T.Call.at(N(X))}); } else Out[I].push_back({I + 1, &T.Ctr.at(N(X))}); }
    else if (llvm::isa<llvm::ReturnInst>(X)) { size_t C = St.back(); St.pop_back(); CallOf[I] = C; Out[I].push_back({I + 1, &T.Ret.at(N(Tr.Is[C]) + N(X))}); Out[C].push_back({I + 1, &T.Ctr.at(N(Tr.Is[C]))}); }
    else Out[I].push_back({I + 1, &T.Normal.at(N(X))});
  }
  std::set<std::pair<size_t, int>> Seen{{0, 0}}; std::vector<std::pair<size_t, int>> W{{0, 0}};
  auto Add = [&](size_t I, int D) { if (Seen.insert({I, D}).second) W.push_back({I, D}); };
  while (!W.empty()) {
    auto [I, D] = W.back(); W.pop_back(); for (auto &[J, R] : Out[I]) for (int Y : R->at(D)) Add(J, Y);
    if (!D || !I) continue;
    size_t P = I - 1; if (llvm::isa<llvm::ReturnInst>(Tr.Is[P])) P = CallOf[P];
    if (Tr.Is[P]->getNextNode() == Tr.Is[I]) { auto &R = llvm::isa<llvm::CallBase>(Tr.Is[P]) ? T.Ctr.at(N(Tr.Is[P])) : T.Normal.at(N(Tr.Is[P])); if (R.at(D).count(D)) Add(P, D); }
  }
  return Seen.count({L - 1, Fact});
}
// number of chains of facts along a path
double chains(const Tables &T, const lu::Names &N, const Trace &Tr, int Fact) {
  size_t L = Tr.Is.size(); std::vector<std::array<double, NF + 1>> C(L); C[0][0] = 1; std::vector<size_t> St;
  auto Go = [&](size_t I, size_t J, const Row &R) { for (int D = 0; D <= NF; ++D) for (int Y : R.at(D)) C[J][Y] += C[I][D]; };
  for (size_t I = 0; I + 1 < L; ++I) {
    I_t X = Tr.Is[I];
    if (auto *Ca = llvm::dyn_cast<llvm::CallBase>(X)) { if (!Ca->getCalledFunction()->isDeclaration()) { St.push_back(I); Go(I, I + 1, T.Call.at(N(X))); } else Go(I, I + 1, T.Ctr.at(N(X))); }
    else if (llvm::isa<llvm::ReturnInst>(X)) { size_t K = St.back(); St.pop_back(); Go(I, I + 1, T.Ret.at(N(Tr.Is[K]) + N(X))); Go(K, I + 1, T.Ctr.at(N(Tr.Is[K]))); }
    else Go(I, I + 1, T.Normal.at(N(X)));
  }
  return C[L - 1][Fact];
}
// does the graph with merged identity edges contain a cycle that the program does not have
bool mergedCycle(const Tables &T, const lu::Names &N, const llvm::Module &M) {
  using Nd = std::pair<I_t, int>; std::map<Nd, std::set<Nd>> E; std::map<Nd, Nd> Up; std::set<Nd> Seen; std::vector<Nd> W;
  std::function<Nd(Nd)> Find = [&](Nd X) { auto It = Up.find(X); return It == Up.end() ? X : It->second = Find(It->second); };
  auto Go = [&](Nd A, I_t S, int D, bool MayMerge) {
    Nd B{S, D}; if (Seen.insert(B).second) W.push_back(B);
    if (MayMerge && D && D == A.second && A.first->getParent() == S->getParent()) { Nd X = Find(A), Y = Find(B); if (X != Y) Up[X] = Y; } else E[A].insert(B);
  };
  W.push_back({&M.getFunction("main")->getEntryBlock().front(), 0}); Seen.insert(W[0]);
  while (!W.empty()) {
    Nd A = W.back(); W.pop_back(); auto [I, D] = A; std::string K = N(I);
    if (auto *C = llvm::dyn_cast<llvm::CallBase>(I)) {
      auto *F = C->getCalledFunction(); for (int Y : T.Ctr.at(K).at(D)) Go(A, I->getNextNode(), Y, true);
      if (!F->isDeclaration()) for (int Y : T.Call.at(K).at(D)) Go(A, &F->getEntryBlock().front(), Y, false);
    } else if (llvm::isa<llvm::ReturnInst>(I)) {
      for (auto *U : I->getFunction()->users()) if (auto *C = llvm::dyn_cast<llvm::CallBase>(U)) for (int Y : T.Ret.at(N(C) + K).at(D)) Go(A, C->getNextNode(), Y, false);
    } else { for (int Y : T.Normal.at(K).at(D)) if (auto *X = I->getNextNode()) Go(A, X, Y, true); else for (unsigned J = 0; J < I->getNumSuccessors(); ++J) Go(A, &I->getSuccessor(J)->front(), Y, false); }
  }
  std::map<Nd, std::set<Nd>> G; for (auto &[A, Bs] : E) for (auto &B : Bs) G[Find(A)].insert(Find(B));
  std::map<Nd, int> Col; std::function<bool(const Nd &)> Dfs = [&](const Nd &X) { Col[X] = 1; for (auto &Y : G[X]) { if (Col[Y] == 1 || (!Col[Y] && Dfs(Y))) return true; } Col[X] = 2; return false; };
  for (auto &X : Seen) if (!Col[Find(X)] && Dfs(Find(X))) return true;
  return false;
}
using Path = std::vector<std::string>;
std::string show(const Path &P) { std::string R; for (auto &X : P) R += (R.empty() ? "" : " ") + X; return R; }
bool subseq(const Path &A, const Path &B) { size_t J = 0; for (auto &X : B) if (J < A.size() && A[J] == X) ++J; return J == A.size(); }
// identity edges of a fact are merged within a basic block, so only the order of the blocks is meaningful
bool twice(const Path &P) { std::set<std::string> S; for (auto &X : P) if (!S.insert(X).second) return true; return false; } // no program path runs through a statement twice
Path blocks(const Path &P, const std::map<std::string, I_t> &By) { Path R; const llvm::BasicBlock *L = nullptr; for (auto &X : P) { auto *B = By.at(X)->getParent(); if (B != L) { std::string N; llvm::raw_string_ostream OS(N); OS << B->getParent()->getName() << '#'; unsigned I = 0; for (auto &C : *B->getParent()) { if (&C == B) break; ++I; } OS << I; R.push_back(OS.str()); L = B; } } return R; }
bool suffix(const Path &A, const Path &B) { return A.size() <= B.size() && std::equal(A.rbegin(), A.rend(), B.rbegin()); }


void drive(PathAwareIDESolver<LLVMIFDSAnalysisDomainDefault> &So, bool Seeded) {
  if (!Seeded) { So.solve(); return; }
  lu::setPicker(true); uint64_t P0 = lu::NumPicks;
  switch (choose(FAULT, 3)) {
  case 0: So.solve(); break;
  case 1: { count("fault.stepwise"); So.initialize(); while (So.next()) ; So.finalize(); break; }
  default: { count("fault.interrupted"); uint32_t K = choose(FAULT, 200), C = 0; bool Done = bool(So.solveUntil([&] { return C++ >= K; }, std::chrono::milliseconds(0)));
    while (!Done) { uint32_t K2 = 1 + choose(FAULT, 300); C = 0; if (So.continueUntil([&] { return C++ >= K2; }, std::chrono::milliseconds(0))) Done = true; } break; }
  }
  lu::setPicker(false); count("worklist-picks", lu::NumPicks - P0);
}
struct World {
  std::unique_ptr<LLVMProjectIRDB> DB; lu::Names N; std::unique_ptr<LLVMBasedICFG> G; std::unique_ptr<Problem> P; std::unique_ptr<PathAwareIDESolver<LLVMIFDSAnalysisDomainDefault>> S;
  std::map<std::string, I_t> ByName; LLVMPathConstraints LPC;
  World(const std::string &T, uint32_t Lay) : DB(lu::makeDB(T, Lay)), N(*DB->getModule()) { for (auto &F : *DB->getModule()) for (auto &I : llvm::instructions(F)) ByName[N(&I)] = &I; }
  void solve(const Tables &T, bool Seeded) {
    G = std::make_unique<LLVMBasedICFG>(DB.get(), CallGraphAnalysisType::NORESOLVE, std::vector<std::string>{"main"}, nullptr, nullptr, Soundness::Soundy, false);
    P = std::make_unique<Problem>(DB.get(), T, N); S = std::make_unique<PathAwareIDESolver<LLVMIFDSAnalysisDomainDefault>>(*P, G.get()); drive(*S, Seeded);
  }
  std::vector<Path> query(const std::string &I, int Fact, const Z3BasedPathSensitivityConfig &C) {
    Z3BasedPathSensitivityManager<LLVMIFDSAnalysisDomainDefault> M(&S->getExplicitESG(), C, &LPC);
    std::vector<Path> R; for (auto &P1 : M.pathsTo(ByName.at(I), P->Fs[Fact])) { Path X; for (I_t J : P1) X.push_back(N(J)); R.push_back(X); }
    std::sort(R.begin(), R.end()); if (std::adjacent_find(R.begin(), R.end()) != R.end()) violation("paths:duplicate", "the same path is reported twice"); return R;
  }
};
std::string strip(const std::string &T) { // clang discards the names of values in release builds
  llvm::LLVMContext C; llvm::SMDiagnostic D; auto M = llvm::parseIR(llvm::MemoryBufferRef(T, "x"), D, C); if (!M) return T;
  for (auto &F : *M) { for (auto &A : F.args()) A.setName(""); for (auto &B : F) { B.setName(""); for (auto &I : B) I.setName(""); } }
  std::string R; llvm::raw_string_ostream OS(R); M->print(OS, nullptr); return OS.str();
}
Row genRow(int Dens, bool Ctr) {
  Row R; R[0] = {0}; for (int D = 1; D <= NF; ++D) R[D] = {D};
  if (!chance(GEN, 1, Dens)) { if (Ctr && choose(GEN, 2)) for (int D = 1; D <= NF; ++D) R[D].clear(); return R; }
  for (int D = 0; D <= NF; ++D) switch (choose(GEN, 6)) { case 1: R[D].insert(1 + choose(GEN, NF)); break; case 2: if (D) R[D].clear(); break; case 3: if (D) R[D] = {(int)(1 + choose(GEN, NF))}; break; case 4: for (int K = 1; K <= NF; ++K) if (choose(GEN, 2)) R[D].insert(K); break; default: break; }
  return R;
}
void runC17() {
  setStepLimit(2000000); disk::reset(); Gen Ge; std::string T = Ge.run(); if (Ge.Strip) T = strip(T); if (verbose()) note("%s", T.c_str()); evs(T);
  uint32_t Lay = 1 + choose(LAYOUT, 1u << 20); World A(T, 0), B(T, Lay); count("fault.layout-change");
  Tables Tb; int Dens = range(GEN, 2, 12);
  for (auto &F : *A.DB->getModule()) for (auto &I : llvm::instructions(F)) {
    std::string K = A.N(&I); auto *C = llvm::dyn_cast<llvm::CallBase>(&I); if (!C) { Tb.Normal[K] = genRow(Dens, false); continue; }
    Tb.Call[K] = genRow(Dens, false); Tb.Ctr[K] = genRow(Dens, !C->getCalledFunction()->isDeclaration()); for (auto &E : llvm::instructions(*C->getCalledFunction())) if (llvm::isa<llvm::ReturnInst>(E)) Tb.Ret[K + A.N(&E)] = genRow(Dens, false);
  }
  std::vector<std::pair<std::string, int>> Aim; // where facts flow together
  if (chance(GEN, 1, 2)) { // facts that arise in different branches and flow together at one statement
    count("flow-together-tables"); auto Id = [](Row &R) { R.clear(); for (int D = 0; D <= NF; ++D) R[D] = {D}; };
    int Gd = range(GEN, 3, 9);
    for (auto &[K, R] : Tb.Normal) { Id(R); if (chance(GEN, 1, Gd)) R[0].insert(1 + choose(GEN, NF)); else if (chance(GEN, 1, 6)) { int D = 1 + choose(GEN, NF); for (int K = 1; K <= NF; ++K) if (choose(GEN, 4)) R[K].insert(D); if (choose(GEN, 2)) R[D].erase(D); if (auto *X = A.ByName.at(K)->getNextNode()) Aim.push_back({A.N(X), D}); } else if (chance(GEN, 1, 8)) R[1 + choose(GEN, NF)].clear(); }
    for (auto *M : {&Tb.Call, &Tb.Ret}) for (auto &[K, R] : *M) Id(R);
    for (auto &[K, R] : Tb.Ctr) { auto *C = llvm::cast<llvm::CallBase>(A.ByName.at(K)); Id(R); if (!C->getCalledFunction()->isDeclaration()) for (int D = 1; D <= NF; ++D) R[D].clear(); }
  }
  if (verbose()) for (auto *M : {&Tb.Normal, &Tb.Call, &Tb.Ret, &Tb.Ctr}) for (auto &[K, R] : *M) {
    std::string X; for (auto &[D, Y] : R) if (Y != Set{D}) { X += " " + s(D) + "->"; for (int Z : Y) X += s(Z) + ","; } if (!X.empty()) note("%s %s:%s", M == &Tb.Normal ? "normal" : M == &Tb.Call ? "call" : M == &Tb.Ret ? "return" : "call-to-return", K.c_str(), X.c_str());
  }
  A.solve(Tb, false); B.solve(Tb, true);
  std::vector<std::string> Is; // the seed itself is excluded: no edge of the exploded supergraph leads to it
  for (auto &F : *A.DB->getModule()) for (auto &I : llvm::instructions(F)) if (F.getName() != "main" || &I != &F.getEntryBlock().front()) Is.push_back(A.N(&I));
  if (Is.empty()) { count("skipped-trivial"); return; }
  bool Cyc = mergedCycle(Tb, A.N, *A.DB->getModule()); if (Cyc) count("merged-cycles");
  int NQ = range(GEN, 1, 4); size_t NT = 0, NP = 0;
  for (int Q = 0; Q < NQ; ++Q) {
    std::string I = choose(GEN, 2) || A.DB->getModule()->getFunction("main")->getInstructionCount() == 1 ? Is[choose(GEN, Is.size())] : A.N(&A.DB->getModule()->getFunction("main")->back().back());
    int AimD = 0; if (!Aim.empty() && choose(GEN, 2)) { auto &X = Aim[choose(GEN, Aim.size())]; I = X.first; AimD = X.second; }
    Oracle O{Tb, A.N, A.ByName.at(I)}; Row R0; O.go(&A.DB->getModule()->getFunction("main")->getEntryBlock().front(), {0}); if (O.TooMany) { count("skipped-too-many-paths"); continue; } if (O.Out.empty()) continue;
    Set W, GA, GB; for (auto &X : O.Out) W.insert(X.In.back().begin(), X.In.back().end());
    for (auto &[D, L] : A.S->resultsAt(A.ByName.at(I))) GA.insert(A.P->id(D)); for (auto &[D, L] : B.S->resultsAt(B.ByName.at(I))) GB.insert(B.P->id(D));
    auto Sh = [](const Set &X) { std::string R; for (int D : X) R += " " + (D ? "g" + s(D - 1) : std::string("zero")); return R; };
    if (GA != W || GB != W) violation("paths:facts", "at " + I + " the solver reports" + Sh(GA) + " and in another order" + Sh(GB) + " but over the paths of the program there hold" + Sh(W));
    std::vector<int> Wv(W.begin(), W.end()); int Fact = AimD && W.count(AimD) ? AimD : choose(GEN, 2) ? Wv[choose(GEN, Wv.size())] : 0;
    Z3BasedPathSensitivityConfig C; bool Min = choose(GEN, 3); C = C.withMinimizeDAG(Min); size_t Depth = SIZE_MAX, Max = SIZE_MAX; switch (weighted(GEN, {4, 1, 1})) { case 1: Depth = range(GEN, 1, 6); C = C.withDAGDepthThreshold(Depth); break; case 2: Max = range(GEN, 1, 4); C = C.withNumPathsThreshold(Max); break; default: break; }
    std::vector<std::pair<Path, bool>> Tr; std::vector<Path> Merged; std::set<Path> Confl;
    for (auto &X : O.Out) { bool H = X.In.back().count(Fact); if (!H && !Fact) continue; Path P; for (I_t J : X.Is) P.push_back(A.N(J)); if (!H) { if (mergedHolds(Tb, A.N, X, Fact)) Merged.push_back(blocks(P, A.ByName)); continue; } bool F = O.feasible(X); Tr.push_back({P, F}); if (F && Ge.SameNames && !Ge.Strip && !O.feasible(X, true)) Confl.insert(P); ++NT; } if (O.TooMany) { count("skipped-too-many-atoms"); continue; }
    if (Fact) { double Ch = 0; for (auto &X : O.Out) Ch += chains(Tb, A.N, X, Fact); if (Ch > 2000) { count("skipped-too-many-fact-paths"); continue; } }
    ev(Tr.size()); std::string Wh = "for " + (Fact ? "fact g" + s(Fact - 1) : std::string("the zero fact")) + " at " + I;
    if (verbose()) note("query %s%s, at most %zd paths, depth %zd", Wh.c_str(), Min ? ", minimised" : "", (ssize_t)Max, (ssize_t)Depth);
    if (verbose() && getenv("PATHS_ESG")) { std::string X; llvm::raw_string_ostream OS(X); A.S->getExplicitESG().printAsDot(OS); FILE *F = fopen(getenv("PATHS_ESG"), "w"); fputs(OS.str().c_str(), F); fclose(F); }
    for (int V = 0; V < 2; ++V) {
      auto Ps = (V ? B : A).query(I, Fact, C); NP += Ps.size(); for (auto &P : Ps) evs(show(P)); std::string Or = V ? " (seeded order and layout)" : "";
      if (verbose()) for (auto &P : Ps) note("reported %s%s: %s", Wh.c_str(), Or.c_str(), show(P).c_str());
      auto Fits = [&](const Path &P, const Path &T1) { return Fact ? subseq(P, T1) : Depth != SIZE_MAX ? suffix(P, T1) : P == T1; };
      if (!Fact || Depth == SIZE_MAX) for (auto &P : Ps) { bool Any = false, Feas = false; for (auto &[T1, F] : Tr) if (Fact ? subseq(blocks(P, A.ByName), blocks(T1, A.ByName)) : Fits(P, T1)) { Any = true; Feas |= F; } if (!Any) for (auto &T1 : Merged) if (subseq(blocks(P, A.ByName), T1)) { Any = true; count("paths-at-block-granularity"); break; } if (!Any) violation(Fact ? Cyc || twice(P) ? "paths:merged-cycle" : "paths:invalid-fact-path" : "paths:invalid", "the path reported " + Wh + Or + " is no path of the program on which the fact holds: " + show(P)); if (!Feas && Ge.Exact && !Fact && Depth == SIZE_MAX) violation("paths:infeasible", "the path reported " + Wh + Or + " has contradicting branch conditions: " + show(P)); }
      if (Max != SIZE_MAX) { if (Ps.size() > Max) violation("paths:too-many", s(Ps.size()) + " paths are reported " + Wh + " although at most " + s(Max) + " were requested"); bool AnyF = false; for (auto &[T1, F] : Tr) AnyF |= F; if (AnyF && Ps.empty()) violation(!Confl.empty() ? "paths:same-names" : Fact && Cyc ? "paths:merged-cycle" : "paths:none", "no path is reported " + Wh); continue; }
      for (auto &[T1, F] : Tr) { if (!F) continue; bool Any = false; for (auto &P : Ps) if (Fits(P, T1)) { Any = true; break; } if (!Any) violation(Confl.count(T1) ? "paths:same-names" : Fact ? Cyc ? "paths:merged-cycle" : "paths:missing-fact-path" : "paths:missing", "an execution takes the path " + show(T1) + " but " + Wh + Or + " no such path is reported (" + s(Ps.size()) + " paths)"); }
    }
    count(Fact ? "queries-fact" : "queries-zero");
  }
  count("paths-enumerated", NT); count("paths-reported", NP); if (NT > 1) nontrivial(); state(hashStr(T)); sample(s(NT) + " paths enumerated, " + s(NP) + " reported");
}
void warm() { auto DB = lu::makeDB("define i32 @main() {\n  ret i32 0\n}\n", 0); }
} // namespace

std::vector<Harness> sim::harnesses() {
  return {{"C17", "one run = one generated loop-free program with branch conditions and one generated distributive analysis, solved in the shipped and in a seeded order, layout and interruption pattern, and up to four path queries compared with the enumerated paths; non-trivial: more than one path is enumerated", "distinct programs", runC17, warm,
    {"PathAwareIDESolver, ExplodedSuperGraph", "Z3BasedPathSensitivityManager, LLVMPathConstraints, Z3", "LLVMBasedICFG, LLVMProjectIRDB"}, {"analysed program (generated IR)", "flow functions (generated tables)", "heap allocator (seeded placement)"}, {"programs without loops and recursion; variables in conditions are not modified after initialisation; a function with conditions runs at most once per path"}, 40000, 600000, 40, 800}};
}
