// C16: the intra-procedural monotone solver on real control-flow graphs with
// generated monotone problems, in seeded worklist orders and memory layouts.
#include "llvmutil.h"

#include "phasar/DataFlow/Mono/IntraMonoProblem.h"
#include "phasar/DataFlow/Mono/Solver/IntraMonoSolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedCFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/Domain/LLVMAnalysisDomain.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"

#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"

#include <algorithm>

using namespace sim;
using namespace psr;
using I_t = const llvm::Instruction *;
using F_t = const llvm::Function *;

namespace {
constexpr int ND = 5; using Set = std::set<int>;
// a monotone transfer function: kill, then gen, then conditional rules on the input (not distributive)
struct Fn { Set Gen, Kill; std::vector<std::pair<Set, int>> Rules; };
Set transfer(const Fn &F, const Set &In) {
  Set O; for (int X : In) if (!F.Kill.count(X)) O.insert(X); O.insert(F.Gen.begin(), F.Gen.end());
  for (auto &[C, D] : F.Rules) if (std::includes(In.begin(), In.end(), C.begin(), C.end())) O.insert(D);
  return O;
}
struct Spec { bool Must = false; std::map<std::string, Fn> Fns; Set Seed; std::vector<std::string> Entry; };
Set allTopOf(const Spec &S) { Set X; if (S.Must) for (int I = 0; I < ND; ++I) X.insert(I); return X; }
Set mergeOf(const Spec &S, const Set &A, const Set &B) { Set O; if (S.Must) std::set_intersection(A.begin(), A.end(), B.begin(), B.end(), std::inserter(O, O.end())); else { O = A; O.insert(B.begin(), B.end()); } return O; }

template <class C> struct Dom : LLVMAnalysisDomainDefault { using d_t = int; using c_t = C; using mono_container_t = Set; };
template <class C> struct Problem : IntraMonoProblem<Dom<C>> {
  const Spec &S; const lu::Names &N; const C *CF;
  Problem(const LLVMProjectIRDB *DB, const C *CF, const Spec &S, const lu::Names &N) : IntraMonoProblem<Dom<C>>(DB, nullptr, CF, LLVMAliasInfoRef(), S.Entry), S(S), N(N), CF(CF) {}
  Set normalFlow(I_t I, const Set &In) override { step(); return transfer(S.Fns.at(N(I)), In); }
  Set merge(const Set &A, const Set &B) override { return mergeOf(S, A, B); }
  bool equal_to(const Set &A, const Set &B) override { return A == B; }
  Set allTop() override { return allTopOf(S); }
  std::unordered_map<I_t, Set> initialSeeds() override { std::unordered_map<I_t, Set> R; for (auto &E : S.Entry) if (auto *F = this->IRDB->getFunctionDefinition(E)) for (I_t I : CF->getStartPointsOf(F)) R[I] = S.Seed; return R; }
};
using Table = std::map<std::string, Set>;
std::string show(const Set &S) { std::string R = "{"; for (int X : S) R += (R.size() > 1 ? "," : "") + std::to_string(X); return R + "}"; }

// reference: round-robin iteration over the edges of the IR
Table reference(const llvm::Module &M, const Spec &S, const lu::Names &N, bool Back, bool Ign) {
  Table R;
  for (auto &E : S.Entry) {
    auto *F = M.getFunction(E); if (!F || F->isDeclaration()) continue;
    std::vector<I_t> Ns; std::map<I_t, std::vector<I_t>> Pred; auto Skip = [&](I_t I) { return Ign && llvm::isa<llvm::DbgInfoIntrinsic>(I) ? I->getNextNonDebugInstruction(false) : I; };
    auto Edge = [&](I_t A, I_t B) { if (Back) std::swap(A, B); Pred[B].push_back(A); };
    for (auto &I : llvm::instructions(*F)) { if (Ign && llvm::isa<llvm::DbgInfoIntrinsic>(I)) continue; Ns.push_back(&I); if (auto *X = I.getNextNode()) Edge(&I, Skip(X)); else for (unsigned J = 0; J < I.getNumSuccessors(); ++J) Edge(&I, Skip(&I.getSuccessor(J)->front())); }
    std::map<I_t, Set> In; std::set<I_t> Start; I_t E0 = Skip(&F->getEntryBlock().front());
    for (I_t I : Ns) { In[I] = allTopOf(S); if (Back ? llvm::isa<llvm::ReturnInst>(I) || llvm::isa<llvm::ResumeInst>(I) : I == E0) { Start.insert(I); In[I].insert(S.Seed.begin(), S.Seed.end()); } }
    for (bool Ch = true; Ch;) { Ch = false; for (I_t I : Ns) { if (Pred[I].empty()) continue; bool First = true; Set X; for (I_t P : Pred[I]) { Set O = transfer(S.Fns.at(N(P)), In[P]); X = First ? O : mergeOf(S, X, O); First = false; } if (X != In[I]) { In[I] = X; Ch = true; } } }
    for (I_t I : Ns) R[N(I)] = transfer(S.Fns.at(N(I)), In[I]);
  }
  return R;
}
template <class C> Table solve(const LLVMProjectIRDB &DB, const C &CF, const Spec &S, const lu::Names &N, bool Seeded, bool Ign) {
  Problem<C> P(&DB, &CF, S, N); lu::setPicker(false); IntraMonoSolver<Dom<C>> So(P); lu::setPicker(Seeded); uint64_t P0 = lu::NumPicks; So.solve(); lu::setPicker(false); count("worklist-picks", lu::NumPicks - P0);
  Table R; for (auto &E : S.Entry) if (auto *F = DB.getFunctionDefinition(E)) for (auto &I : llvm::instructions(*F)) if (!Ign || !llvm::isa<llvm::DbgInfoIntrinsic>(I)) R[N(&I)] = So.getResultsAt(&I);
  return R;
}
// edges of the program lead through blocks that consist of one branch to themselves
std::string selfLoops(const std::string &T) {
  llvm::LLVMContext C; llvm::SMDiagnostic D; auto M = llvm::parseIR(llvm::MemoryBufferRef(T, "x"), D, C); if (!M) return T;
  for (auto &F : *M) {
    std::vector<llvm::BranchInst *> Br; for (auto &B : F) if (auto *X = llvm::dyn_cast<llvm::BranchInst>(B.getTerminator())) Br.push_back(X);
    for (auto *X : Br) for (unsigned I = 0; I < X->getNumSuccessors(); ++I) { if (!chance(GEN, 1, 5)) continue; auto *To = X->getSuccessor(I); if (X->getNumSuccessors() == 2 && X->getSuccessor(1 - I) == To) continue; auto *N = llvm::BasicBlock::Create(C, "", &F); llvm::BranchInst::Create(N, To, llvm::ConstantInt::getTrue(C), N); X->setSuccessor(I, N); To->replacePhiUsesWith(X->getParent(), N); }
  }
  std::string R; llvm::raw_string_ostream OS(R); M->print(OS, nullptr); return OS.str();
}
void runC16() {
  setStepLimit(400000);
  ir::Opt O; O.Ptr = chance(GEN, 1, 2); O.Indirect = O.Virtual = O.FnTables = false; O.Switch = chance(GEN, 1, 2); O.Invoke = chance(GEN, 1, 3); O.MultiRet = chance(GEN, 1, 2); O.Dbg = chance(GEN, 1, 3); O.MaxFns = range(GEN, 1, 3); O.MaxBlocks = range(GEN, 1, 7); O.MaxStmts = range(GEN, 0, 3);
  std::string T = ir::generate(O); if (chance(GEN, 1, 3)) T = selfLoops(T); if (verbose()) note("%s", T.c_str()); evs(T);
  bool Back = chance(GEN, 1, 3), Ign = chance(GEN, 1, 2);
  Spec S; S.Must = chance(GEN, 1, 2); for (int I = 0; I < ND; ++I) if (chance(GEN, 1, 4)) S.Seed.insert(I);
  S.Entry = {"main"}; if (chance(GEN, 1, 3)) S.Entry.push_back("f1"); if (chance(GEN, 1, 4)) S.Entry.insert(S.Entry.begin(), "missing");
  uint32_t Lay = 1 + choose(LAYOUT, 1u << 20); auto A = lu::makeDB(T, 0), B = lu::makeDB(T, Lay); lu::Names NA(*A->getModule()), NB(*B->getModule()); count("fault.layout-change");
  int Dens = range(GEN, 2, 8); // few functions that do anything, or many
  for (auto &F : *A->getModule()) for (auto &I : llvm::instructions(F)) { Fn X; if (chance(GEN, 1, Dens)) for (int D = 0; D < ND; ++D) switch (choose(GEN, 6)) { case 4: X.Gen.insert(D); break; case 5: X.Kill.insert(D); break; case 3: { Set C; for (int K = 0; K < ND; ++K) if (chance(GEN, 1, 3)) C.insert(K); if (!C.empty()) X.Rules.push_back({C, D}); break; } default: break; } S.Fns[NA(&I)] = X; }
  Table W = reference(*A->getModule(), S, NA, Back, Ign), RA, RB;
  if (Back) { LLVMBasedBackwardCFG CA(Ign), CB(Ign); RA = solve(*A, CA, S, NA, false, Ign); RB = solve(*B, CB, S, NB, true, Ign); }
  else { LLVMBasedCFG CA(Ign), CB(Ign); RA = solve(*A, CA, S, NA, false, Ign); RB = solve(*B, CB, S, NB, true, Ign); }
  count(Back ? "backward" : "forward"); count(S.Must ? "must" : "may"); bool Any = false; size_t Multi = 0;
  for (auto &[K, V] : W) {
    if (RA[K] != V) violation(Back ? "mono:not-the-fixed-point:backward" : "mono:not-the-fixed-point", std::string(Back ? "backward " : "") + (S.Must ? "must" : "may") + " problem: in the shipped order " + show(RA[K]) + " holds after " + K + " but the maximal fixed point is " + show(V));
    if (RB[K] != V) violation(Back ? "mono:order-dependent:backward" : "mono:order-dependent", std::string(Back ? "backward " : "") + (S.Must ? "must" : "may") + " problem: in a seeded order " + show(RB[K]) + " holds after " + K + " but the maximal fixed point is " + show(V));
    ev(hashStr(K + show(V))); if (V != allTopOf(S)) Any = true; Multi += !V.empty();
  }
  if (Any) nontrivial(); state(hashStr(T)); sample(std::to_string(W.size()) + " instructions, " + std::to_string(Multi) + " with facts");
}
void warm() { auto DB = lu::makeDB("define i32 @main() {\n  ret i32 0\n}\n", 0); }
} // namespace

std::vector<Harness> sim::harnesses() {
  return {{"C16", "one run = one generated function set and monotone problem (may or must, forward or backward, also non-distributive), solved in the shipped and in a seeded order and layout and compared with the maximal fixed point; non-trivial: the solution differs from the initial one", "distinct programs", runC16, warm,
    {"IntraMonoSolver, IntraMonoProblem", "LLVMBasedCFG, LLVMBasedBackwardCFG", "LLVMProjectIRDB"}, {"analysed program (generated IR)", "transfer functions (generated monotone tables)", "heap allocator (seeded placement)"}, {"the transfer functions are monotone; seeds lie at start points"}, 40000, 600000, 40, 800}};
}
