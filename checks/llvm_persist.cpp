// C06: file helpers on a faulty disk. C07: saved analysis information across
// crash and restart.
#include "../sim/disk.h"
#include "llvmutil.h"

#include "phasar/ControlFlow/CallGraphData.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSetData.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchyData.h"
#include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"
#include "phasar/Utils/IO.h"

#include "llvm/IR/DerivedTypes.h"
#include "llvm/Support/ErrorHandling.h"
#include "llvm/Support/raw_ostream.h"

#include "nlohmann/json.hpp"

#include <csetjmp>

using namespace sim;
using namespace psr;
using CGT = CallGraphAnalysisType;

namespace {
jmp_buf Fatal; bool FatalArmed = false; // LLVM's fatal-error report (write error found by a stream's destructor)
void onFatal(void *, const char *, bool) { if (FatalArmed) { FatalArmed = false; longjmp(Fatal, 1); } }

disk::Faults transparent() { disk::Faults F; F.Eintr = chance(FAULT, 1, 2); F.Short = chance(FAULT, 1, 2); return F; }

// ------------------------------------------------------------------- C06
std::string randomContent(bool Json) {
  if (Json) {
    nlohmann::json J; int N = choose(GEN, 40); J["k"] = nlohmann::json::array(); for (int I = 0; I < N; ++I) J["k"].push_back({{"name", "f" + std::to_string(choose(GEN, 100))}, {"v", choose(GEN, 1000)}, {"s", std::string(choose(GEN, 60), 'a' + I % 26)}});
    return J.dump(chance(GEN, 1, 2) ? 2 : -1) + (chance(GEN, 1, 2) ? "\n" : "");
  }
  static const uint32_t Szs[] = {0, 1, 2, 15, 100, 4095, 4096, 4097, 16383, 16384, 16385, 20000, 40960, 70001};
  uint32_t N = Szs[choose(GEN, 14)]; if (chance(GEN, 1, 3)) N = choose(GEN, 3000);
  std::string S(N, 'x'); uint32_t Seed = choose(GEN, 1u << 16); int Kind = choose(GEN, 3);
  for (uint32_t I = 0; I < N; ++I) { Seed = Seed * 1664525u + 1013904223u; unsigned char C = Seed >> 24; S[I] = Kind == 0 ? 'a' + C % 26 : Kind == 1 ? (C % 40 == 0 ? '\n' : C % 40 == 1 ? '\r' : 32 + C % 90) : C; }
  return S;
}
enum class Out { Ok, Reported, Fatal };
const char *outName(Out O) { return O == Out::Ok ? "ok" : O == Out::Reported ? "error reported" : "fatal error"; }
template <class F> Out guarded(F &&Fn) {
  Out R = Out::Ok; FatalArmed = true;
  if (setjmp(Fatal) == 0) { try { if (!Fn()) R = Out::Reported; } catch (const std::exception &E) { R = Out::Reported; } FatalArmed = false; } else R = Out::Fatal;
  return R;
}
void runC06() {
  setStepLimit(100000); disk::reset();
  llvm::install_fatal_error_handler(onFatal);
  std::map<std::string, std::string> Model; int NOps = range(GEN, 1, 12); bool AnyFault = false;
  static const char *Paths[] = {"/sim/a.json", "/sim/b.txt", "/sim/c.bin"};
  for (int Op = 0; Op < NOps; ++Op) {
    step(); disk::Faults F; int Lvl = weighted(FAULT, {2, 2, 2});
    if (Lvl >= 1) F = transparent();
    if (Lvl == 2) switch (choose(FAULT, 5)) { case 0: F.OpenFail = 2; break; case 1: F.WriteFail = 2; break; case 2: F.ReadFail = 2; break; case 3: F.CloseFail = 2; break; default: F.Capacity = choose(FAULT, 6000); }
    disk::faults(F); uint64_t F0 = disk::failed();
    std::string P = Paths[choose(GEN, 3)]; auto It = Model.find(P); int K = choose(GEN, 10); std::string Got; bool IsRead = K < 7; Out R; const char *Name = "";
    bool Exists = disk::get(P).has_value(); std::string Want = Exists ? *disk::get(P) : "";
    int ErrKind = 0; // 1: null result, 2: error code, 3: exception
    auto Buf = [&](const std::unique_ptr<llvm::MemoryBuffer> &B) { Got = B->getBuffer().str(); };
    switch (K) {
    case 0: Name = "readTextFile"; R = guarded([&] { try { Got = readTextFile(P); } catch (const std::system_error &) { ErrKind = 3; throw; } return true; }); break;
    case 1: Name = "readTextFileOrNull"; R = guarded([&] { auto X = readTextFileOrNull(P); if (!X) { ErrKind = 1; return false; } Got = *X; return true; }); break;
    case 2: Name = "readTextFileOrErr"; R = guarded([&] { auto X = readTextFileOrErr(P); if (!X) { ErrKind = X.getError() ? 2 : 0; return false; } Got = *X; return true; }); break;
    case 3: Name = "readFile"; R = guarded([&] { try { Buf(readFile(P)); } catch (const std::system_error &) { ErrKind = 3; throw; } return true; }); break;
    case 4: Name = "readFileOrNull"; R = guarded([&] { auto X = readFileOrNull(P); if (!X) { ErrKind = 1; return false; } Buf(X); return true; }); break;
    case 5: Name = "readFileOrErr"; R = guarded([&] { auto X = readFileOrErr(P); if (!X) { ErrKind = X.getError() ? 2 : 0; return false; } Buf(*X); return true; }); break;
    case 6: { Name = "readJsonFile"; nlohmann::json J; R = guarded([&] { try { J = readJsonFile(P); } catch (const std::exception &) { ErrKind = 3; throw; } return true; });
      bool Valid = Exists && nlohmann::json::accept(Want);
      if (R == Out::Ok) { if (!Valid) violation("io:bad-json-accepted", "readJsonFile accepted a file that is no complete JSON document"); if (J != nlohmann::json::parse(Want)) violation("io:wrong-json", "readJsonFile returned another document than the file holds"); Got = Want; }
      else if (R == Out::Reported && Exists && !Valid) { Exists = false; }
      break; }
    default: {
      bool Stream = K == 9; Name = Stream ? "openFileStream" : "writeTextFile"; std::string C = randomContent(P == Paths[0]); evs(C);
      R = guarded([&]() -> bool {
        if (!Stream) { writeTextFile(P, C); return true; }
        auto OS = openFileStream(P); if (!OS) { ErrKind = 1; return false; }
        size_t Pos = 0; while (Pos < C.size()) { size_t N = std::min<size_t>(C.size() - Pos, 1 + choose(GEN, 5000)); OS->write(C.data() + Pos, N); Pos += N; if (chance(GEN, 1, 5)) OS->flush(); }
        OS->close(); if (OS->has_error()) { OS->clear_error(); ErrKind = 2; return false; } return true; });
      if (R == Out::Ok) {
        auto D = disk::get(P); if (!D || *D != C) violation("io:lost-write", std::string(Name) + " of " + std::to_string(C.size()) + " bytes to " + P + " returned normally but the file holds " + (D ? std::to_string(D->size()) + " (different) bytes" : "nothing"));
      } else if (disk::failed() == F0) violation("io:spurious-failure", std::string(Name) + ": " + outName(R) + " although every system call succeeded or could be retried");
      count((std::string("write.") + outName(R)).c_str());
    }
    }
    ev(K); ev((int)R); count((std::string("op.") + Name).c_str());
    if (disk::failed() > F0) AnyFault = true;
    if (IsRead) {
      if (R == Out::Fatal) violation("io:fatal-read", std::string(Name) + " ended the process on a failing read");
      if (R == Out::Ok) { if (!Exists) violation("io:read-of-nothing", std::string(Name) + " succeeded for a missing file"); if (Got != Want) violation("io:wrong-content", std::string(Name) + " returned " + std::to_string(Got.size()) + " bytes that are not the " + std::to_string(Want.size()) + " bytes of the file"); }
      else { if (Exists && disk::failed() == F0) violation("io:spurious-failure", std::string(Name) + " failed although every system call succeeded or could be retried"); if (!ErrKind) violation("io:error-kind", std::string(Name) + " reported its failure in another way than documented"); }
      count((std::string("read.") + outName(R)).c_str());
    }
    if (R != Out::Fatal && disk::openFds() != 0) violation("io:fd-leak", std::string(Name) + " left a file descriptor open");
    (void)It;
  }
  if (AnyFault) nontrivial();
  state(eventHash()); sample(std::to_string(NOps) + " file operations");
}

// ------------------------------------------------------------------- C07
using Edges = std::map<std::string, std::set<std::string>>;
struct World { std::unique_ptr<LLVMProjectIRDB> DB; std::unique_ptr<lu::Names> N; };
World world(const std::string &T, uint32_t Lay) { World W; lu::setPicker(false); W.DB = lu::makeDB(T, Lay); W.N = std::make_unique<lu::Names>(*W.DB->getModule()); return W; }
Edges cgRel(const World &W, const LLVMBasedICFG &G, bool &NullSite) {
  Edges E; auto &CG = G.getCallGraph();
  for (auto *F : CG.getAllVertexFunctions()) { auto &X = E["fn " + (*W.N)(F)]; for (auto *C : CG.getCallersOf(F)) { if (!C) NullSite = true; X.insert((*W.N)(C)); } }
  for (auto *I : CG.getAllVertexCallSites()) { if (!I) { NullSite = true; continue; } auto &X = E["cs " + (*W.N)(I)]; for (auto *F : CG.getCalleesOfCallAt(I)) X.insert((*W.N)(F)); if (X.empty()) E.erase("cs " + (*W.N)(I)); }
  return E;
}
Edges aliasRel(const World &W, LLVMAliasSet &AS) {
  Edges E; auto &M = *W.DB->getModule(); std::vector<const llvm::Value *> Vs;
  auto Add = [&](const llvm::Value *V) { if (V->getType()->isPointerTy()) Vs.push_back(V); };
  for (auto &G : M.globals()) Add(&G);
  for (auto &F : M) { Add(&F); for (auto &A : F.args()) Add(&A); for (auto &I : llvm::instructions(F)) Add(&I); }
  for (int K = 0; K < 2; ++K) for (auto *V : Vs) { auto S = AS.getAliasSet(V); auto &X = E[(*W.N)(V)]; X.clear(); for (auto *A : *S) if (W.N->N.count(A)) X.insert((*W.N)(A)); }
  return E;
}
Edges thRel(LLVMTypeHierarchy &TH) {
  Edges E; for (auto *T : TH.getAllTypes()) { auto &X = E[T->getName().str()]; for (auto *S : TH.getSubTypes(T)) X.insert(S->getName().str()); for (auto *S : TH.getAllTypes()) if (TH.isSubType(T, S)) X.insert("is " + S->getName().str()); if (!TH.hasType(T) || TH.getType(T->getName()) != T) X.insert("lookup broken"); }
  return E;
}
std::string diff(const Edges &A, const Edges &B) {
  for (auto &[K, V] : A) { auto It = B.find(K); if (It == B.end()) return K + " is lost"; for (auto &X : V) if (!It->second.count(X)) return K + " -> " + X + " is lost"; }
  for (auto &[K, V] : B) { auto It = A.find(K); if (It == A.end()) return K + " appears"; for (auto &X : V) if (!It->second.count(X)) return K + " -> " + X + " appears"; }
  return "";
}
enum Kind { KCG, KAlias, KTH }; const char *KindName[] = {"call graph", "alias sets", "type hierarchy"}; const char *KindSig[] = {"cg", "alias", "th"};
struct Conf { Kind K; CGT Ty; bool Globals; bool Lazy; std::vector<std::string> Entry; bool UseWriteText; AliasAnalysisType PA = AliasAnalysisType::CFLAnders; };
struct Info { World W; std::unique_ptr<LLVMAliasSet> AS; std::unique_ptr<LLVMTypeHierarchy> TH; std::unique_ptr<LLVMBasedICFG> G; };
Info analyse(const std::string &T, const Conf &C, uint32_t Lay) {
  Info I; I.W = world(T, Lay);
  switch (C.K) {
  case KCG:
    if (C.Ty != CGT::NORESOLVE) I.TH = std::make_unique<LLVMTypeHierarchy>(*I.W.DB);
    if (C.Ty == CGT::OTF) I.AS = std::make_unique<LLVMAliasSet>(I.W.DB.get(), C.Lazy, C.PA);
    I.G = std::make_unique<LLVMBasedICFG>(I.W.DB.get(), C.Ty, C.Entry, I.TH.get(), I.AS.get(), Soundness::Soundy, C.Globals); I.W.N->add(*I.W.DB->getModule()); break;
  case KAlias: I.AS = std::make_unique<LLVMAliasSet>(I.W.DB.get(), C.Lazy, C.PA); break;
  case KTH: I.TH = std::make_unique<LLVMTypeHierarchy>(*I.W.DB); break;
  }
  return I;
}
void print(const Info &I, const Conf &C, llvm::raw_ostream &OS) { switch (C.K) { case KCG: I.G->printAsJson(OS); break; case KAlias: I.AS->printAsJson(OS); break; case KTH: I.TH->printAsJson(OS); break; } }
Edges rel(Info &I, const Conf &C, bool &Null) { switch (C.K) { case KCG: return cgRel(I.W, *I.G, Null); case KAlias: return aliasRel(I.W, *I.AS); default: return thRel(*I.TH); } }
void save(const Info &I, const Conf &C, const std::string &P) {
  if (C.UseWriteText) { std::string S; llvm::raw_string_ostream OS(S); print(I, C, OS); writeTextFile(P, OS.str()); return; }
  auto OS = openFileStream(P); if (!OS) throw std::runtime_error("cannot open"); print(I, C, *OS); OS->close();
}
// throws if the file is rejected
Info load(const std::string &T, const Conf &C, uint32_t Lay, const std::string &P) {
  Info I;
  switch (C.K) {
  case KCG: { auto D = CallGraphData::deserializeJson(P); I.W = world(T, Lay); I.G = std::make_unique<LLVMBasedICFG>(I.W.DB.get(), D); I.W.N->add(*I.W.DB->getModule()); break; }
  case KAlias: { auto J = readJsonFile(P); I.W = world(T, Lay); I.AS = std::make_unique<LLVMAliasSet>(I.W.DB.get(), J); break; }
  default: { auto D = LLVMTypeHierarchyData::deserializeJson(P); I.W = world(T, Lay); I.TH = std::make_unique<LLVMTypeHierarchy>(*I.W.DB, D); }
  }
  return I;
}
void runC07() {
  setStepLimit(1000000); disk::reset(); lu::setPicker(false);
  ir::Opt O; O.Ptr = chance(GEN, 2, 3); O.PtrPtr = chance(GEN, 1, 2); O.MaxFns = range(GEN, 1, 6); O.MaxStmts = range(GEN, 1, 5); O.Virtual = chance(GEN, 2, 3); O.Indirect = chance(GEN, 2, 3); O.FnTables = chance(GEN, 1, 2); O.PtrRet = chance(GEN, 1, 3); O.Structs = chance(GEN, 1, 3); O.DotNames = chance(GEN, 1, 3);
  std::string T = ir::generate(O); static const CGT Ts[] = {CGT::OTF, CGT::CHA, CGT::RTA, CGT::NORESOLVE};
  Conf C; C.K = (Kind)choose(GEN, 3); C.Ty = Ts[choose(GEN, 4)]; C.Globals = false; C.Lazy = chance(GEN, 1, 2); C.UseWriteText = chance(GEN, 1, 2);
  if (!C.Lazy) { static const AliasAnalysisType PAs[] = {AliasAnalysisType::CFLAnders, AliasAnalysisType::CFLSteens, AliasAnalysisType::Basic}; C.PA = PAs[choose(GEN, 3)]; }
  switch (choose(GEN, 8)) { case 0: C.Entry = {"__ALL__"}; break; case 1: C.Entry = {"nonexistent"}; break; default: C.Entry = {"main"}; }
  if (verbose()) note("%s", T.c_str());
  evs(T); ev(C.K); ev((int)C.Ty); count((std::string("saved.") + KindName[C.K]).c_str());
  std::string P = "/sim/info.json"; std::string OldT;
  if (chance(GEN, 1, 4)) { // an older file is being replaced
    OldT = ir::generate(O); Info Old = analyse(OldT, C, 0); std::string S; llvm::raw_string_ostream OS(S); print(Old, C, OS); disk::put(P, OS.str()); count("replaces-older-file");
  }
  bool Null = false; uint32_t Lay = 1 + choose(LAYOUT, 1u << 20), Lay2 = 1 + choose(LAYOUT, 1u << 20);
  Info A = analyse(T, C, Lay); // process 1
  if (C.K == KAlias && C.Lazy) { int Q = choose(SCHED, 6); auto &M = *A.W.DB->getModule(); std::vector<const llvm::Value *> Vs; for (auto &F : M) for (auto &I : llvm::instructions(F)) if (I.getType()->isPointerTy()) Vs.push_back(&I); for (int K = 0; K < Q && !Vs.empty(); ++K) (void)A.AS->getAliasSet(Vs[choose(SCHED, Vs.size())]); count("queries-before-save", Q); }
  std::string Full; { llvm::raw_string_ostream OS(Full); print(A, C, OS); } evs(std::to_string(Full.size()));
  disk::faults(transparent());
  bool Crash = chance(FAULT, 1, 2); if (Crash) disk::crashAt(1 + choose(FAULT, 6));
  save(A, C, P);
  Edges Want = rel(A, C, Null); // the information as the uninterrupted process sees it
  bool Crashed = disk::crashed(), Power = Crashed || chance(FAULT, 1, 3); if (Power) { count("fault.power-loss"); disk::powerLoss(); }
  disk::faults(transparent());
  A = Info(); disk::crashAt(0); // restart
  auto OnDisk = disk::get(P); auto Trim = [](std::string S) { while (!S.empty() && (S.back() == 0 || isspace((unsigned char)S.back()))) S.pop_back(); return S; };
  bool Complete = OnDisk && Trim(*OnDisk) == Trim(Full); ev(Complete); count(Complete ? "reload.complete" : OnDisk ? "reload.damaged" : "reload.missing");
  bool OldComplete = !Complete && OnDisk && !OldT.empty() && nlohmann::json::accept(*OnDisk);
  std::optional<Info> B; std::string Err;
  try { B = load(T, C, Lay2, P); } catch (const std::exception &E) { Err = E.what(); count("reload.rejected"); }
  if (Complete) {
    if (!B) violation(std::string("persist:rejected:") + KindSig[C.K], std::string("the completely saved ") + KindName[C.K] + " cannot be loaded again: " + Err);
    Edges Got = rel(*B, C, Null); if (Null) violation(std::string("persist:null-entry:") + KindSig[C.K], "the reloaded call graph holds an edge without call site");
    std::string D = diff(Want, Got); if (!D.empty()) violation(std::string("persist:differs:") + KindSig[C.K], std::string("the reloaded ") + KindName[C.K] + " differs from the saved one: " + D);
    // saving and loading once more changes nothing
    save(*B, C, "/sim/again.json"); auto B2 = load(T, C, Lay2 ^ 77, "/sim/again.json"); Edges G2 = rel(B2, C, Null); D = diff(Got, G2); if (!D.empty()) violation(std::string("persist:not-idempotent:") + KindSig[C.K], D);
    nontrivial();
  } else if (B) {
    if (OldComplete || !OnDisk) { if (OldComplete) count("reload.older-file"); else violation("persist:loaded-nothing", "loading succeeded without a file"); }
    else violation(std::string("persist:damaged-accepted:") + KindSig[C.K], std::string("a damaged file (") + std::to_string(OnDisk->size()) + " of " + std::to_string(Full.size()) + " bytes) was loaded as " + KindName[C.K]);
    if (OldComplete) nontrivial();
  } else if (OnDisk) nontrivial();
  if (B && OldComplete && C.K != KAlias) { // a file of another program version: entries that do not exist are ignored
    Null = false; (void)rel(*B, C, Null); if (Null) violation(std::string("persist:null-entry:") + KindSig[C.K], "the call graph loaded from another version's file holds an edge without call site");
  }
  if (disk::openFds()) violation("persist:fd-leak", "file descriptor left open");
  state(mix(hashStr(Full), OnDisk ? OnDisk->size() : 1)); sample(std::string(KindName[C.K]) + ", " + std::to_string(Full.size()) + " bytes");
}
void warm() { std::string T = "define i32 @main() {\n  ret i32 0\n}\n"; Conf C{KCG, CGT::NORESOLVE, false, true, {"main"}, false}; Info A = analyse(T, C, 0); std::string S; llvm::raw_string_ostream OS(S); print(A, C, OS); }
} // namespace

std::vector<Harness> sim::harnesses() {
  std::vector<const char *> As = {"torn and lost writes and zero-filled blocks are modelled; silent bit flips inside valid JSON text are not"};
  return {
      {"C07", "one run = analyse a generated program, save one kind of information to the simulated disk (optionally over an older file), crash at a seeded system call and lose or tear unwritten data, restart in another memory layout and load; non-trivial: a complete, damaged or older file was found and judged", "event-log hash: program, system-call outcomes, file contents", runC07, warm,
       {"printAsJson / deserializeJson / loading constructors of call graph, alias sets, type hierarchy", "phasar/Utils/IO", "llvm::raw_fd_ostream, MemoryBuffer", "ICFG, alias and type-hierarchy analyses"}, {"disk (simulated system calls)", "analysed program (generated IR)", "heap allocator (seeded placement)"}, As, 40000, 800000, 40, 800, 20},
      {"C06", "one run = up to 12 reads and writes through the file helpers on a simulated disk with interrupted, short and failing system calls; non-trivial: a hard failure was injected", "event-log hash: operations, contents, system-call outcomes", runC06, warm,
       {"phasar/Utils/IO", "llvm::raw_fd_ostream, MemoryBuffer", "nlohmann::json parser"}, {"disk (simulated system calls)"}, As, 20000, 1000000, 30, 600, 20},
  };
}
