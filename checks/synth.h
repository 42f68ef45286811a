// Synthetic IFDS/IDE problems over the real (header-only) solver, together
// with an independent reference semantics of the tabulation algorithm.
#pragma once
#include "../sim/core.h"

#include "phasar/DataFlow/IfdsIde/DefaultEdgeFunctionSingletonCache.h"
#include "phasar/DataFlow/IfdsIde/EdgeFunctionUtils.h"
#include "phasar/DataFlow/IfdsIde/FlowFunctions.h"
#include "phasar/DataFlow/IfdsIde/IDETabulationProblem.h"
#include "phasar/DataFlow/IfdsIde/IFDSTabulationProblem.h"
#include "phasar/DataFlow/IfdsIde/InitialSeeds.h"
#include "phasar/DataFlow/IfdsIde/Solver/IDESolver.h"
#include "phasar/DataFlow/IfdsIde/Solver/IFDSSolver.h"
#include "phasar/Domain/BinaryDomain.h"
#include "phasar/Utils/JoinLattice.h"

#include "llvm/ADT/Hashing.h"
#include "llvm/IR/DerivedTypes.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Type.h"
#include "llvm/IR/Value.h"

#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace synth {

// ------------------------------------------------------------------ lattice
struct L8 {
  uint8_t V = 0; // subset of {0,1,2}; top = {}, bottom = all
  friend bool operator==(L8 A, L8 B) noexcept { return A.V == B.V; }
  friend bool operator!=(L8 A, L8 B) noexcept { return A.V != B.V; }
  friend llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, L8 A) { return OS << unsigned(A.V); }
};
} // namespace synth

namespace psr {
template <> struct JoinLatticeTraits<synth::L8> {
  static constexpr synth::L8 top() noexcept { return {0}; }
  static constexpr synth::L8 bottom() noexcept { return {7}; }
  static constexpr synth::L8 join(synth::L8 A, synth::L8 B) noexcept { return {uint8_t(A.V | B.V)}; }
};
} // namespace psr

namespace synth {

// Distributive function on subsets: f(x) = c | U_{i in x} g[i]; c <= g[i]
struct Rep {
  uint8_t C = 0, G[3] = {0, 0, 0};
  uint8_t at(uint8_t X) const { uint8_t R = C; for (int I = 0; I < 3; ++I) if (X >> I & 1) R |= G[I]; return R; }
  void canon() { for (auto &X : G) X |= C; }
  friend bool operator==(const Rep &A, const Rep &B) noexcept { return A.C == B.C && A.G[0] == B.G[0] && A.G[1] == B.G[1] && A.G[2] == B.G[2]; }
  friend bool operator!=(const Rep &A, const Rep &B) noexcept { return !(A == B); }
  bool isId() const { return C == 0 && G[0] == 1 && G[1] == 2 && G[2] == 4; }
  bool isConst() const { return G[0] == C && G[1] == C && G[2] == C; }
  bool isTop() const { return isConst() && C == 0; }
  bool isBot() const { return isConst() && C == 7; }
  uint32_t key() const { return C | G[0] << 4 | G[1] << 8 | G[2] << 12; }
  static Rep id() { return {0, {1, 2, 4}}; }
  static Rep top() { return {0, {0, 0, 0}}; }
  static Rep bot() { return {7, {7, 7, 7}}; }
};
inline Rep compose(const Rep &F, const Rep &S) { // S after F
  Rep R; R.C = S.at(F.C); for (int I = 0; I < 3; ++I) R.G[I] = S.at(F.G[I]); R.canon(); return R;
}
inline Rep join(const Rep &A, const Rep &B) { Rep R; R.C = A.C | B.C; for (int I = 0; I < 3; ++I) R.G[I] = A.G[I] | B.G[I]; R.canon(); return R; }

// ------------------------------------------------------- edge function types
extern int EFMode;       // 0 small-object, 1 heap, 2 cached, 3 mixed
extern bool BotMode;     // constant-bottom is represented by AllBottom
extern uint64_t EFCount;

psr::EdgeFunction<L8> mk(const Rep &R);
Rep repOf(const psr::EdgeFunction<L8> &EF);

struct SmallEF {
  using l_t = L8;
  Rep R;
  [[nodiscard]] L8 computeTarget(L8 S) const noexcept { return {R.at(S.V)}; }
  static psr::EdgeFunction<L8> compose(psr::EdgeFunctionRef<SmallEF> This, const psr::EdgeFunction<L8> &S) { return mk(synth::compose(This->R, repOf(S))); }
  static psr::EdgeFunction<L8> join(psr::EdgeFunctionRef<SmallEF> This, const psr::EdgeFunction<L8> &S) { return mk(synth::join(This->R, repOf(S))); }
  [[nodiscard]] bool isConstant() const noexcept { return R.isConst(); }
  friend bool operator==(SmallEF A, SmallEF B) noexcept { return A.R == B.R; }
};
struct BigEF {
  using l_t = L8;
  Rep R; char Pad[28] = {};
  static inline int64_t Instances = 0;
  BigEF() { ++Instances; }
  explicit BigEF(const Rep &R) : R(R) { ++Instances; }
  BigEF(const BigEF &O) : R(O.R) { ++Instances; }
  BigEF &operator=(const BigEF &) = default;
  ~BigEF() { --Instances; R.C = 0xEE; }
  [[nodiscard]] L8 computeTarget(L8 S) const noexcept { return {R.at(S.V)}; }
  static psr::EdgeFunction<L8> compose(psr::EdgeFunctionRef<BigEF> This, const psr::EdgeFunction<L8> &S) { return mk(synth::compose(This->R, repOf(S))); }
  static psr::EdgeFunction<L8> join(psr::EdgeFunctionRef<BigEF> This, const psr::EdgeFunction<L8> &S) { return mk(synth::join(This->R, repOf(S))); }
  [[nodiscard]] bool isConstant() const noexcept { return R.isConst(); }
  friend bool operator==(const BigEF &A, const BigEF &B) noexcept { return A.R == B.R; }
  friend llvm::hash_code hash_value(const BigEF &E) noexcept { return llvm::hash_value(E.R.key()); }
};
using CacheTy = psr::DefaultEdgeFunctionSingletonCache<BigEF>;
extern CacheTy *TheCache;

// ---------------------------------------------------------------- supergraph
struct Fn;
llvm::Type *valTy();
// llvm::Value as base: the solver's caches compress such keys like for real IR
struct Node : llvm::Value {
  Node() : llvm::Value(valTy(), llvm::Value::ArgumentVal) {}
  int Id; Fn *F; int Kind = 0; // 0 normal 1 call 2 exit
  std::vector<const Node *> Succs, RetSites;
  std::vector<const Fn *> Callees;
  bool Start = false;
  const Fn *getFunction() const { return F; }
};
struct Fact : llvm::Value {
  Fact() : llvm::Value(valTy(), llvm::Value::ArgumentVal) {}
  int Id;
};
// separately allocated, so that their order is decided by the layout
template <class T> struct PV {
  std::vector<std::unique_ptr<T>> V;
  T &operator[](size_t I) { return *V[I]; }
  const T &operator[](size_t I) const { return *V[I]; }
  T &emplace_back() { V.push_back(std::make_unique<T>()); return *V.back(); }
  T &back() { return *V.back(); }
  size_t size() const { return V.size(); }
  template <class It, class R> struct Iter { It I; R &operator*() const { return **I; } Iter &operator++() { ++I; return *this; } bool operator!=(const Iter &O) const { return I != O.I; } };
  using VI = typename std::vector<std::unique_ptr<T>>::iterator; using VC = typename std::vector<std::unique_ptr<T>>::const_iterator;
  Iter<VI, T> begin() { return {V.begin()}; }
  Iter<VI, T> end() { return {V.end()}; }
  Iter<VC, const T> begin() const { return {V.begin()}; }
  Iter<VC, const T> end() const { return {V.end()}; }
};
struct Fn {
  int Id; std::string Name; bool Decl = false;
  std::vector<const Node *> Starts, Nodes, Calls;
  std::vector<const Node *> Callers;
  llvm::StringRef getName() const { return Name; }
};
inline llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, const Node *N) { return OS << 'n' << (N ? N->Id : -1); }
inline llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, const Fact *N) { return OS << 'd' << (N ? N->Id : -1); }
inline llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, const Fn *N) { return OS << (N ? N->Name : "null"); }
} // namespace synth

namespace synth { struct DB; }
namespace psr {
template <> struct ProjectIRDBTraits<synth::DB> {
  using n_t = const synth::Node *; using f_t = const synth::Fn *; using m_t = void *; using g_t = void *;
};
}
namespace synth {
struct DB : psr::ProjectIRDBBase<DB> {
  const Fn *getFunctionImpl(llvm::StringRef) const { return nullptr; }
  void dumpImpl() const {}
  bool isValidImpl() const noexcept { return true; }
};

struct ICFG {
  using n_t = const Node *; using f_t = const Fn *;
  std::vector<const Node *> AllNodes;
  const std::vector<n_t> &getSuccsOf(n_t N) const { return N->Succs; }
  const std::vector<f_t> &getCalleesOfCallAt(n_t N) const { return N->Callees; }
  const std::vector<n_t> &getReturnSitesOfCallAt(n_t N) const { return N->RetSites; }
  const std::vector<n_t> &getCallersOf(f_t F) const { return F->Callers; }
  const std::vector<n_t> &getStartPointsOf(f_t F) const { return F->Starts; }
  const std::vector<n_t> &getCallsFromWithin(f_t F) const { return F->Calls; }
  bool isExitInst(n_t N) const { return N->Kind == 2; }
  bool isCallSite(n_t N) const { return N->Kind == 1; }
  bool isStartPoint(n_t N) const { return N->Start; }
  f_t getFunctionOf(n_t N) const { return N->F; }
  std::string getFunctionName(f_t F) const { return F->Name; }
  std::string getStatementId(n_t N) const { return std::to_string(N->Id); }
  std::vector<n_t> allNonCallStartNodes() const {
    std::vector<n_t> R; for (auto *N : AllNodes) if (N->Kind != 1 && !N->Start) R.push_back(N); return R;
  }
};

struct Dom {
  using d_t = const Fact *; using n_t = const Node *; using f_t = const Fn *;
  using t_t = void *; using v_t = void *; using c_t = void; using i_t = ICFG; using db_t = DB;
  using l_t = L8; using mono_container_t = void;
};
struct BDom : Dom { using l_t = psr::BinaryDomain; };

using FactSet = std::vector<uint8_t>; // small sorted list of fact ids
struct Out { uint8_t To; Rep E; };
using Flow = std::vector<std::vector<Out>>; // per source fact

// One generated problem
struct Prob {
  int NF = 1;                                     // facts including zero (0)
  PV<Fn> Fns; PV<Node> Nodes; PV<Fact> Facts;
  ICFG I; DB Db;
  std::map<std::pair<int, int>, Flow> Normal;                 // (n, succ)
  std::map<std::pair<int, int>, Flow> Call;                   // (n, fn)
  std::map<std::tuple<int, int, int, int>, Flow> Ret;         // (n, fn, exit, rs)
  std::map<std::pair<int, int>, Flow> CTR;                    // (n, rs)
  std::map<std::pair<int, int>, Flow> Summ;                   // (n, fn) targets (edge fn per rs below)
  std::map<std::tuple<int, int, int, int>, Rep> SummE;        // (n, d, rs, d')
  std::map<int, std::map<int, uint8_t>> Seeds;                // node -> fact -> value
  bool FollowPast = false, RecordEdges = false;
  const Fact *fact(int I) const { return &Facts[I]; }
  std::string describe() const;
};

struct GenCfg { int MaxFns = 4, MaxNodes = 6, MaxFacts = 4; bool Unbalanced = false, Big = false; };
void generate(Prob &P, const GenCfg &C);
Rep genRepPublic();

// ------------------------------------------------------------- reference
struct RefResult {
  // (node, fact) -> value for every entry the result must contain; values at
  // start points / call sites that are top may be absent.
  std::map<std::pair<int, int>, uint8_t> Val; // includes top entries at plain nodes
  std::set<std::pair<int, int>> Strict;       // plain nodes: presence is exact
  std::set<std::pair<int, int>> Reach;        // (n,d) reached in phase I
  uint64_t PathEdges = 0;
};
RefResult reference(const Prob &P, bool Ifds);

// ------------------------------------------------------------- hooks
extern void (*OnFlowWork)(); // called for every evaluation of a flow function
extern bool IfdsMode;

template <class D> using FFP = std::shared_ptr<psr::FlowFunction<const Fact *, std::set<const Fact *>>>;
struct TabFF : psr::FlowFunction<const Fact *, std::set<const Fact *>> {
  const Prob &P; const Flow &F;
  TabFF(const Prob &P, const Flow &F) : P(P), F(F) {}
  std::set<const Fact *> computeTargets(const Fact *S) override {
    if (OnFlowWork) OnFlowWork();
    std::set<const Fact *> R; for (auto &O : F[S->Id]) R.insert(P.fact(O.To)); return R;
  }
};
template <class Base> struct FlowImpl : Base {
  const Prob &P;
  using FF = std::shared_ptr<psr::FlowFunction<const Fact *, std::set<const Fact *>>>;
  template <class... A> FlowImpl(const Prob &P, A &&...As) : Base(std::forward<A>(As)...), P(P) {}
  FF get(const Flow &F) { return std::make_shared<TabFF>(P, F); }
  FF getNormalFlowFunction(const Node *C, const Node *S) override { return get(P.Normal.at({C->Id, S->Id})); }
  FF getCallFlowFunction(const Node *C, const Fn *F) override { return get(P.Call.at({C->Id, F->Id})); }
  FF getRetFlowFunction(const Node *C, const Fn *F, const Node *E, const Node *R) override { return get(P.Ret.at({C->Id, F->Id, E->Id, R->Id})); }
  FF getCallToRetFlowFunction(const Node *C, const Node *R, llvm::ArrayRef<const Fn *>) override { return get(P.CTR.at({C->Id, R->Id})); }
  FF getSummaryFlowFunction(const Node *C, const Fn *F) override {
    auto It = P.Summ.find({C->Id, F->Id}); if (It == P.Summ.end()) return nullptr; return get(It->second);
  }
};
struct IdeProblem : FlowImpl<psr::IDETabulationProblem<Dom>> {
  IdeProblem(const Prob &P) : FlowImpl(P, &P.Db, std::vector<std::string>{}, std::optional<const Fact *>(P.fact(0))) {}
  psr::InitialSeeds<const Node *, const Fact *, L8> initialSeeds() override {
    psr::InitialSeeds<const Node *, const Fact *, L8> S;
    for (auto &[N, M] : P.Seeds) for (auto &[D, V] : M) S.addSeed(&P.Nodes[N], P.fact(D), L8{V});
    return S;
  }
  static Rep find(const Flow &F, const Fact *A, const Fact *B) {
    for (auto &O : F[A->Id]) if (O.To == B->Id) return O.E;
    return Rep::id(); // zero -> zero added by the solver
  }
  psr::EdgeFunction<L8> getNormalEdgeFunction(const Node *C, const Fact *A, const Node *S, const Fact *B) override { return mk(find(P.Normal.at({C->Id, S->Id}), A, B)); }
  psr::EdgeFunction<L8> getCallEdgeFunction(const Node *C, const Fact *A, const Fn *F, const Fact *B) override { return mk(find(P.Call.at({C->Id, F->Id}), A, B)); }
  psr::EdgeFunction<L8> getReturnEdgeFunction(const Node *C, const Fn *F, const Node *E, const Fact *A, const Node *R, const Fact *B) override { return mk(find(P.Ret.at({C->Id, F->Id, E->Id, R->Id}), A, B)); }
  psr::EdgeFunction<L8> getCallToRetEdgeFunction(const Node *C, const Fact *A, const Node *R, const Fact *B, llvm::ArrayRef<const Fn *>) override { return mk(find(P.CTR.at({C->Id, R->Id}), A, B)); }
  psr::EdgeFunction<L8> getSummaryEdgeFunction(const Node *C, const Fact *A, const Node *S, const Fact *B) override {
    auto It = P.SummE.find({C->Id, A->Id, S->Id, B->Id}); return mk(It == P.SummE.end() ? Rep::id() : It->second);
  }
};
struct IfdsProblem : FlowImpl<psr::IFDSTabulationProblem<BDom>> {
  IfdsProblem(const Prob &P) : FlowImpl(P, &P.Db, std::vector<std::string>{}, P.fact(0)) {}
  psr::InitialSeeds<const Node *, const Fact *, psr::BinaryDomain> initialSeeds() override {
    psr::InitialSeeds<const Node *, const Fact *, psr::BinaryDomain> S;
    for (auto &[N, M] : P.Seeds) for (auto &[D, V] : M) S.addSeed(&P.Nodes[N], P.fact(D));
    return S;
  }
};
} // namespace synth
