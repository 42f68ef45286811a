// C05: independent IRDBs in different (simulated) threads.
#include "../sim/core.h"
#include "../sim/threads.h"
#include "irgen.h"
#include "phasar/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMZeroValue.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/ModuleSlotTracker.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <map>

using namespace sim;
using thr::Quiet;

extern "C" size_t phasarSimPickNext(const char *, size_t, size_t Def) { sim::step(); return Def; }

namespace {
struct Prog { std::string Text; std::map<std::string, std::vector<std::string>> CG[2]; };
std::vector<Prog> *Progs;
int NOps; bool Heavy;

struct DB {
  std::unique_ptr<llvm::LLVMContext> Ctx; std::unique_ptr<llvm::Module> Own; std::unique_ptr<psr::LLVMProjectIRDB> IRDB; int Prog = 0, Mode = 0; bool Model = false;
  std::vector<const llvm::Value *> Vals;
  const llvm::Module *mod() const { return IRDB->getModule(); }
  void collect() { // harness
    Quiet Q; Vals.clear(); const auto &M = *((const psr::LLVMProjectIRDB &)*IRDB).getModule();
    for (auto &G : M.globals()) Vals.push_back(&G);
    for (auto &F : M) { Vals.push_back(&F); for (auto &A : F.args()) Vals.push_back(&A); for (auto &B : F) for (auto &I : B) { Vals.push_back(&I); for (auto &O : I.operands()) if (llvm::isa<llvm::Constant>(O) || llvm::isa<llvm::MetadataAsValue>(O)) Vals.push_back(O); } }
  }
};
std::string ltrim(const std::string &S) { size_t P = S.find_first_not_of(" \t\n\v\f\r"); return P == std::string::npos ? "" : S.substr(P); }
std::string idOf(const llvm::Value *V) {
  llvm::MDNode *N = nullptr;
  if (auto *I = llvm::dyn_cast<llvm::Instruction>(V)) N = I->getMetadata("psr.id");
  else if (auto *G = llvm::dyn_cast<llvm::GlobalVariable>(V)) N = G->getMetadata("psr.id");
  else if (auto *A = llvm::dyn_cast<llvm::Argument>(V)) return A->getParent()->getName().str() + "." + std::to_string(A->getArgNo());
  return N ? llvm::cast<llvm::MDString>(N->getOperand(0))->getString().str() : "-1";
}
[[noreturn]] void bad(const char *Sig, const std::string &M) { Quiet Q; violation(std::string("irdb:") + Sig, M); }

std::map<std::string, std::vector<std::string>> cgOf(const psr::LLVMBasedICFG &I, const llvm::Module &M) {
  std::map<std::string, std::vector<std::string>> R;
  for (auto &F : M) { if (psr::GlobalCtorsDtorsModel::isPhasarGenerated(F)) continue; for (auto &X : llvm::instructions(F)) if (auto *C = llvm::dyn_cast<llvm::CallBase>(&X)) {
      std::vector<std::string> T; for (auto *G : I.getCalleesOfCallAt(C)) T.push_back(G->getName().str()); std::sort(T.begin(), T.end()); R[ir::locate(C)] = T; } }
  return R;
}
std::unique_ptr<DB> makeDB(int P, int Mode) {
  std::unique_ptr<DB> D; { Quiet Q; D.reset(new DB()); D->Prog = P; D->Mode = Mode; }
  llvm::MemoryBufferRef Buf((*Progs)[P].Text, "prog.ll");
  if (Mode == 0) D->IRDB = std::make_unique<psr::LLVMProjectIRDB>(Buf);
  else {
    D->Ctx = std::make_unique<llvm::LLVMContext>();
    auto M = psr::LLVMProjectIRDB::getParsedIRModuleOrNull(Buf, *D->Ctx);
    if (!M) bad("parse", "a valid module could not be parsed");
    if (Mode == 1) D->IRDB = std::make_unique<psr::LLVMProjectIRDB>(std::move(M));
    else { D->Own = std::move(M); D->IRDB = std::make_unique<psr::LLVMProjectIRDB>(D->Own.get()); }
  }
  if (!D->IRDB->isValid()) bad("parse", "a valid module could not be parsed");
  D->collect();
  return D;
}
void destroy(std::unique_ptr<DB> D) { D->IRDB.reset(); D->Own.reset(); D->Ctx.reset(); Quiet Q; D.reset(); }
void print(DB &D) {
  const llvm::Value *V; int How;
  { Quiet Q; V = D.Vals[choose(SCHED, D.Vals.size())]; How = choose(SCHED, 4); if (How == 1 && llvm::isa<llvm::MetadataAsValue>(V)) How = 0; }
  if (How == 3) {
    auto S = psr::getMetaDataID(V); const llvm::Value *B = psr::fromMetaDataId(*D.IRDB, S);
    Quiet Q; if (S != idOf(V)) bad("id", "getMetaDataID gives '" + S + "' instead of '" + idOf(V) + "'");
    if (S != "-1" && B != V) bad("id", "the id '" + S + "' does not lead back to its value");
    return;
  }
  std::string S = How == 0 ? psr::llvmIRToString(V) : How == 1 ? psr::llvmIRToStableString(V) : psr::llvmIRToShortString(V);
  Quiet Q; count("op.print");
  std::string E; llvm::raw_string_ostream OS(E); const llvm::Module *M = psr::getModuleFromVal(V);
  llvm::ModuleSlotTracker MST(M);
  if (How == 2 && llvm::isa<llvm::Instruction>(V) && !V->getType()->isVoidTy()) V->printAsOperand(OS, true, MST);
  else if (How == 2 && llvm::isa<llvm::Function>(V)) OS << V->getName();
  else V->print(OS, MST);
  OS.flush(); E = ltrim(E);
  std::string Id = " | ID: " + idOf(V);
  if (S.size() < Id.size() || S.substr(S.size() - Id.size()) != Id) bad("print-id", "'" + S + "' does not end with '" + Id + "'");
  S.resize(S.size() - Id.size());
  if (How == 1 ? E.compare(0, S.size(), S) != 0 || (S.empty() && !E.empty()) : S != E) bad("print", "a value prints as '" + S + "' instead of '" + E + "'");
}
void body(int Id) {
  std::vector<std::unique_ptr<DB>> *L; { Quiet Q; L = new std::vector<std::unique_ptr<DB>>(); L->reserve(4); }
  for (int N = 0; N < NOps; ++N) {
    int Op; { Quiet Q; Op = weighted(SCHED, {5, 6, 3, 2, 1, Heavy ? 3u : 0u, 2}); step(); count("op"); ev(Op * 16 + Id); }
    if (L->empty() || (Op == 0 && L->size() < 3)) {
      int P, Mode; { Quiet Q; P = choose(SCHED, Progs->size()); Mode = choose(SCHED, 3); count("op.create"); }
      auto D = makeDB(P, Mode); Quiet Q; L->push_back(std::move(D)); continue;
    }
    size_t Ix; { Quiet Q; Ix = choose(SCHED, L->size()); }
    DB &D = *(*L)[Ix];
    switch (Op) {
    case 0: case 1: print(D); print(D); break;
    case 2: { std::unique_ptr<DB> X; { Quiet Q; X = std::move((*L)[Ix]); L->erase(L->begin() + Ix); count("op.destroy"); } destroy(std::move(X)); break; }
    case 3: {
      if (D.Model) break;
      std::vector<std::string> Ep{"main"};
      auto *F = psr::GlobalCtorsDtorsModel::buildModel(*D.IRDB, llvm::ArrayRef<std::string>(Ep));
      if (!F) bad("model", "no global model was built"); D.Model = true; D.collect(); { Quiet Q; count("op.model"); } print(D); break;
    }
    case 4: {
      const auto *Z = psr::LLVMZeroValue::getInstance(); Quiet Q; count("op.zero-value");
      static const void *First = nullptr; if (!First) First = Z; if (First != Z || !Z->getName().equals("zero_value")) bad("zero", "the zero value is not unique"); break;
    }
    case 5: {
      if (D.Model) break;
      int K; std::vector<std::string> Ep; { Quiet Q; K = choose(SCHED, 2); Ep = {"main"}; count("op.callgraph"); }
      std::map<std::string, std::vector<std::string>> R;
      { psr::LLVMBasedICFG I(D.IRDB.get(), K ? psr::CallGraphAnalysisType::OTF : psr::CallGraphAnalysisType::CHA, Ep, nullptr, nullptr, psr::Soundness::Soundy, false); Quiet Q; R = cgOf(I, *D.mod()); }
      Quiet Q; if (R != (*Progs)[D.Prog].CG[K]) bad("callgraph", "a call graph built next to other threads differs from one built alone");
      break;
    }
    case 6: {
      std::string S; llvm::raw_string_ostream OS(S); { Quiet Q; D.IRDB->emitPreprocessedIR(OS); }
      size_t NI = D.IRDB->getNumInstructions(); const auto *I = NI ? D.IRDB->getInstruction(D.IRDB->getNumGlobals() + choose(SCHED, NI)) : nullptr;
      if (I && !D.Model && D.IRDB->getInstruction(D.IRDB->getInstructionId(I)) != I) bad("id", "instruction ids do not round-trip");
      break;
    }
    }
  }
  while (!L->empty()) { std::unique_ptr<DB> X; { Quiet Q; X = std::move(L->back()); L->pop_back(); } destroy(std::move(X)); }
  Quiet Q; delete L;
}
void run() {
  arenaLayout(choose(LAYOUT, 1u << 16));
  Progs = new std::vector<Prog>(); Heavy = chance(GEN, 1, 4);
  int NP = 1 + choose(GEN, 2), NT = 2 + choose(GEN, 2); NOps = Heavy ? range(GEN, 3, 6) : range(GEN, 3, 10);
  for (int I = 0; I < NP; ++I) {
    ir::Opt O; O.MaxFns = 3; O.MaxBlocks = 3; O.MaxStmts = 3; O.Dbg = chance(GEN, 1, 4); O.Globinit = chance(GEN, 1, 3);
    Prog P; P.Text = ir::generate(O);
    if (Heavy) for (int K = 0; K < 2; ++K) { llvm::MemoryBufferRef B(P.Text, "prog.ll"); psr::LLVMProjectIRDB D(B); if (!D.isValid()) { fprintf(stderr, "HARNESS: generated IR does not parse\n"); abort(); }
        psr::LLVMBasedICFG G(&D, K ? psr::CallGraphAnalysisType::OTF : psr::CallGraphAnalysisType::CHA, {"main"}, nullptr, nullptr, psr::Soundness::Soundy, false); P.CG[K] = cgOf(G, *D.getModule()); }
    Progs->push_back(std::move(P));
  }
  count(NT == 2 ? "gen.two-threads" : "gen.three-threads"); if (Heavy) count("gen.call-graphs");
  std::vector<std::function<void()>> B; for (int I = 0; I < NT; ++I) B.push_back([I] { body(I); });
  thr::run(B);
  state(eventHash()); if (thr::switches() >= 6) nontrivial();
  endRun();
}
void warm() {
  // one-time initialisation inside LLVM
  ir::Opt O; llvm::LLVMContext C; llvm::SMDiagnostic D; llvm::MemoryBufferRef B("define i32 @main() {\n ret i32 0\n}\n", "w.ll");
  { psr::LLVMProjectIRDB X(B); psr::llvmIRToString(X.getFunction("main")); psr::LLVMBasedICFG G(&X, psr::CallGraphAnalysisType::OTF, {"main"}); }
}
} // namespace

std::vector<Harness> sim::harnesses() {
  std::vector<const char *> Real = {"LLVMProjectIRDB", "ModulesToSlotTracker and the value printers (LLVMShorthands)", "GlobalCtorsDtorsModel", "LLVMZeroValue", "LLVMBasedICFG with CHA/OTF, type hierarchy and alias sets", "libLLVM (scheduled only at its allocations and locks)", "std::mutex and static initialisation (simulated underneath)"};
  std::vector<const char *> Stub = {"thread scheduling (one thread at a time, seeded)", "memory ordering (vector clocks)", "heap allocator (seeded placement)", "analysed programs (generated)"};
  std::vector<const char *> As = {"every IRDB is used by one thread and has its own LLVMContext", "one module is managed by one IRDB at a time", "data races inside the uninstrumented libLLVM are only seen through their effects"};
  return {{"C05", "one run = 2-3 simulated threads creating, printing, extending, analysing and destroying their own IRDBs; non-trivial: at least 6 context switches", "event-log hash: operations, context switches", run, warm, Real, Stub, As, 20000, 2000000, 40, 700}};
}
