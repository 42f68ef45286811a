// C04: EdgeFunction handles shared between simulated threads.
#include "../sim/core.h"
#include "../sim/threads.h"
#include "phasar/DataFlow/IfdsIde/DefaultEdgeFunctionSingletonCache.h"
#include "phasar/DataFlow/IfdsIde/EdgeFunction.h"
#include "phasar/DataFlow/IfdsIde/EdgeFunctionUtils.h"
#include "phasar/Utils/JoinLattice.h"
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/SmallVector.h"
#include <array>
#include <map>
#include <mutex>
#include <set>
#include <vector>

using namespace sim;
using thr::Quiet;

struct V { int K = 0; int64_t N = 0; }; // K: 0 top, 1 value, 2 bottom
static bool operator==(const V &A, const V &B) { return A.K == B.K && A.N == B.N; }
static bool operator!=(const V &A, const V &B) { return !(A == B); }
#include "llvm/Support/raw_ostream.h"
static llvm::raw_ostream &operator<<(llvm::raw_ostream &O, const V &X) { return O << X.K << ":" << X.N; }
namespace psr {
template <> struct JoinLatticeTraits<V> {
  static V top() { return {0, 0}; }
  static V bottom() { return {2, 0}; }
  static V join(V A, V B) { return A.K == 0 ? B : B.K == 0 ? A : A == B ? A : V{2, 0}; }
};
} // namespace psr
using JL = psr::JoinLatticeTraits<V>;
using EF = psr::EdgeFunction<V>;
template <class T> using Ref = psr::EdgeFunctionRef<T>;

namespace {
long LiveObj = 0, MadeObj = 0;
[[noreturn]] void bad(const char *Sig, const std::string &M) { Quiet Q; violation(std::string("ef:") + Sig, M); }
struct Canary {
  uint64_t Magic = 0xC0FFEE1234567890ull;
  Canary() { Quiet Q; ++LiveObj; ++MadeObj; }
  Canary(const Canary &O) { check(O, "copied from"); Quiet Q; ++LiveObj; }
  Canary &operator=(const Canary &O) { check(O, "assigned from"); check(*this, "assigned to"); return *this; }
  ~Canary() { check(*this, "destroyed"); Magic = 0xDEAD; Quiet Q; --LiveObj; }
  static void check(const Canary &C, const char *W) { if (C.Magic != 0xC0FFEE1234567890ull) bad("dead-object", std::string("an edge function that is not alive is ") + W); }
};

struct Aff;
struct Comp : psr::EdgeFunctionComposer<V> {
  Canary C;
  Comp(EF A, EF B) : psr::EdgeFunctionComposer<V>{std::move(A), std::move(B)} {}
  static EF join(Ref<Comp> This, const EF &O);
};
// x -> A*x + B, strict in top and bottom
struct Aff {
  using l_t = V;
  int64_t A, B; Canary C;
  Aff(int64_t A, int64_t B) : A(A), B(B) {}
  V computeTarget(V X) const { Canary::check(C, "evaluated"); if (X.K == 1) X.N = (int64_t)((uint64_t)A * (uint64_t)X.N + (uint64_t)B); return X; }
  static EF compose(Ref<Aff> This, const EF &S) {
    if (auto D = psr::defaultComposeOrNull(This, S)) return D;
    if (auto *O = llvm::dyn_cast<Aff>(S)) return Aff((int64_t)((uint64_t)O->A * (uint64_t)This->A), (int64_t)((uint64_t)O->A * (uint64_t)This->B + (uint64_t)O->B));
    return Comp(This, S);
  }
  static EF join(Ref<Aff> This, const EF &O) {
    if (auto D = psr::defaultJoinOrNull<V, 2>(This, O)) return D;
    return psr::JoinEdgeFunction<V, 2>::create(This, O);
  }
  bool operator==(const Aff &O) const { Canary::check(C, "compared"); return A == O.A && B == O.B; }
};
EF Comp::join(Ref<Comp> This, const EF &O) {
  if (auto D = psr::defaultJoinOrNull<V, 2>(This, O)) return D;
  return psr::JoinEdgeFunction<V, 2>::create(This, O);
}
// x -> x xor K, held in a singleton cache (one cache per thread)
struct Xor {
  using l_t = V;
  int64_t K; Canary C; EF Inner; // Inner: may itself be a cached edge function
  Xor(int64_t K, EF I = nullptr) : K(K), Inner(std::move(I)) {}
  V computeTarget(V X) const { Canary::check(C, "evaluated"); if (Inner) X = Inner.computeTarget(X); if (X.K == 1) X.N ^= K; return X; }
  static EF compose(Ref<Xor> This, const EF &S) {
    if (auto D = psr::defaultComposeOrNull(This, S)) return D;
    if (auto *O = llvm::dyn_cast<Xor>(S)) if (auto *Ca = This.getCacheOrNull()) if (!O->Inner) return psr::CachedEdgeFunction<Xor>{Xor(O->K ^ This->K, This->Inner), Ca};
    return Comp(This, S);
  }
  static EF join(Ref<Xor> This, const EF &O) {
    if (auto D = psr::defaultJoinOrNull<V, 2>(This, O)) return D;
    return psr::JoinEdgeFunction<V, 2>::create(This, O);
  }
  bool operator==(const Xor &O) const { Canary::check(C, "compared"); return K == O.K && Inner == O.Inner; }
  friend llvm::hash_code hash_value(const Xor &X) { Canary::check(X.C, "hashed"); return llvm::hash_value(X.K); }
};
// small-object optimised
struct Add8 {
  using l_t = V;
  int32_t D;
  V computeTarget(V X) const { if (X.K == 1) X.N += D; return X; }
  static EF compose(Ref<Add8> This, const EF &S) {
    if (auto D = psr::defaultComposeOrNull(This, S)) return D;
    if (auto *O = llvm::dyn_cast<Add8>(S)) return Add8{O->D + This->D};
    return Comp(This, S);
  }
  static EF join(Ref<Add8> This, const EF &O) {
    if (auto D = psr::defaultJoinOrNull<V, 2>(This, O)) return D;
    return psr::JoinEdgeFunction<V, 2>::create(This, O);
  }
  bool operator==(const Add8 &O) const { return D == O.D; }
};

constexpr int NS = 5;
const std::array<V, NS> Dom = {V{0, 0}, V{2, 0}, V{1, 0}, V{1, 1}, V{1, 1000003}};
using Table = std::array<V, NS>;
struct Slot { EF H; bool Null = true; Table T{}; const void *Id = nullptr; int Pol = 0; bool NoShare = false; };
using Cache = psr::DefaultEdgeFunctionSingletonCache<Xor>;

struct Mail { std::mutex M; Slot S; };
struct Wd {
  std::vector<Slot> Shared; std::vector<Mail *> Mails; std::vector<Cache *> Caches; int NT, NOps, NSlots; bool Faults, Cached;
};
Wd *W;

Table eval(const EF &H) { Table T; for (int I = 0; I < NS; ++I) T[I] = H.computeTarget(Dom[I]); return T; }
bool leq(const Table &A, const Table &B) { for (int I = 0; I < NS; ++I) if (JL::join(A[I], B[I]) != B[I]) return false; return true; }
std::string str(const Table &T) { std::string S; for (auto &X : T) S += X.K == 0 ? "T " : X.K == 2 ? "B " : std::to_string(X.N) + " "; return S; }
void verify(const char *Op, Slot &S) { // instrumented: reads the handle
  bool Valid = S.H.isValid();
  if (Valid == S.Null) bad("null-state", std::string("after ") + Op + " the handle is " + (Valid ? "not null" : "null"));
  if (S.Null) { if (S.H.isRefCounted() || S.H.isCached() || S.H != nullptr) bad("null-state", std::string("after ") + Op + " the null handle claims to hold an object"); return; }
  Table T = eval(S.H);
  if (T != S.T) bad("denotation", std::string("after ") + Op + " the handle denotes " + str(T) + " instead of " + str(S.T));
  if (S.H.getOpaqueValue() != S.Id || (int)S.H.getAllocationPolicy() != S.Pol) bad("identity", std::string("after ") + Op + " the handle refers to another object");
}
void adopt(Slot &S) { S.Null = !S.H.isValid(); if (!S.Null) { S.Id = S.H.getOpaqueValue(); S.Pol = (int)S.H.getAllocationPolicy(); } }
void model(Slot &D, const Slot &S) { D.Null = S.Null; D.T = S.T; D.Id = S.Id; D.Pol = S.Pol; D.NoShare = S.NoShare; }
bool isAllX(const EF &H) { return H.isa<psr::AllTop<V>>() || H.isa<psr::AllBottom<V>>(); }

EF makeFn(int Kind, int64_t X, int64_t Y, Table &T, Cache *Ca, const EF &Inner) {
  for (int I = 0; I < NS; ++I) {
    V A = Dom[I];
    switch (Kind) {
    case 0: case 1: if (A.K == 1) A.N = (int64_t)((uint64_t)X * (uint64_t)A.N + (uint64_t)Y); break;
    case 2: A = V{1, X}; break;
    case 3: A = V{2, 0}; break;
    case 4: A = V{0, 0}; break;
    case 5: break;
    case 6: if (A.K == 1) A.N += (int32_t)X; break;
    case 7: if (A.K == 1) A.N ^= X; break;
    case 8: { A = Inner.computeTarget(A); if (A.K == 1) A.N ^= X; } break;
    case 9: if (A.K == 1) A.N ^= X; break;
    }
    T[I] = A;
  }
  switch (Kind) {
  case 0: return Aff(X, Y);
  case 1: return EF(std::in_place_type<Aff>, X, Y);
  case 2: return psr::ConstantEdgeFunction<V>{V{1, X}};
  case 3: return psr::AllBottom<V>{};
  case 4: return psr::AllTop<V>{};
  case 5: return psr::EdgeIdentity<V>{};
  case 6: return Add8{(int32_t)X};
  case 7: return psr::CachedEdgeFunction<Xor>{Xor(X), Ca};
  case 8: return Ca->createEdgeFunction(X, Inner);
  default: return Xor(X); // cacheable, but not cached
  }
}

void body(int Id) {
  Cache *Ca = W->Caches[Id];
  std::vector<Slot> *Sl; { Quiet Q; Sl = new std::vector<Slot>(W->NSlots); }
  auto Any = [&]() -> Slot & { return (*Sl)[choose(SCHED, W->NSlots)]; };
  for (int N = 0; N < W->NOps; ++N) {
    uint32_t Op; bool Arm;
    { Quiet Q; Op = weighted(SCHED, {6, 5, 3, 2, 3, 4, 4, 3, 3, 4, 5, 3, 2, 2}); Arm = W->Faults && chance(FAULT, 1, 3); }
    if (W->Faults && (Op == 7 || Op == 12 || Op == 13)) Op = 1; // LLVM's containers end the process when memory runs out
    Slot &D = Any(), &A = Any(), &B = Any();
    ev(Op * 1000 + Id); count("op", 1); step();
    bool Failed = false;
    auto Try = [&](auto F) {
      if (Arm) { count("fault.allocation-armed"); allocFailAt(1 + choose(FAULT, 3)); }
      try { F(); } catch (std::bad_alloc &) { Quiet Q; Failed = true; count("fault.allocation-failed"); }
      allocFailAt(0);
    };
    switch (Op) {
    case 0: {
      int Kind = choose(SCHED, 10); int64_t X = choose(SCHED, 4), Y = choose(SCHED, 3); Table T; EF Inner;
      if (Kind >= 7 && Kind <= 8 && (!W->Cached || W->Faults)) Kind = 9;
      if (Kind == 8) { if (!A.Null) Inner = A.H; else Kind = 7; }
      Try([&] { D.H = makeFn(Kind, X, Y, T, Ca, Inner); });
      if (Failed) break;
      { Quiet Q; D.T = T; } adopt(D); D.NoShare = Kind == 7 || Kind == 8;
      bool Heap = Kind <= 2 || Kind == 9, C = Kind == 7 || Kind == 8;
      if (D.Null || D.H.isRefCounted() != (Heap || C) || D.H.isCached() != C) bad("allocation-policy", "a new edge function of kind " + std::to_string(Kind) + " has the wrong allocation policy");
      if (C) {
        if (D.H.getCacheOrNull<Xor>() != Ca) bad("cache", "a cached edge function does not know its cache");
        for (auto &S : *Sl) if (!S.Null && S.H.isCached() && S.H == D.H && S.Id != D.Id) bad("cache-duplicate", "two live cached edge functions with the same value are different objects");
      }
      break;
    }
    case 1: Try([&] { D.H = A.H; }); if (!Failed) { Quiet Q; model(D, Slot{nullptr, A.Null, A.T, A.Id, A.Pol, A.NoShare}); } break;
    case 2: {
      D.H = std::move(A.H);
      Quiet Q; if (&D != &A) { model(D, A); A.Null = true; } break;
    }
    case 3: { if (chance(SCHED, 1, 2)) swap(D.H, A.H); else D.H.swap(A.H); Quiet Q; Slot T; model(T, D); model(D, A); model(A, T); break; }
    case 4: D.H = nullptr; D.Null = true; break;
    case 5: break; // verify below evaluates
    case 6: {
      if (A.Null || B.Null || A.H.isa<psr::AllTop<V>>() || A.H.depth() + B.H.depth() > 12) break;
      EF R; Try([&] { R = chance(SCHED, 1, 2) ? A.H.composeWith(B.H) : EF::compose(A.H, B.H); });
      if (Failed) break;
      if (!R) bad("compose-null", "compose returned null");
      Table E, G = eval(R); for (int I = 0; I < NS; ++I) E[I] = B.H.computeTarget(A.T[I]);
      if (isAllX(A.H) ? !leq(E, G) : E != G) bad("compose", "compose(" + str(A.T) + "," + str(B.T) + ") denotes " + str(G) + " instead of " + str(E));
      bool NoShare = A.NoShare || B.NoShare;
      D.H = std::move(R); { Quiet Q; D.T = G; } adopt(D); D.NoShare = NoShare; count("op.compose");
      break;
    }
    case 7: {
      if (A.Null || B.Null || A.H.depth() + B.H.depth() > 12) break;
      EF R = A.H.joinWith(B.H);
      if (!R) bad("join-null", "join returned null");
      Table G = eval(R);
      if (!leq(A.T, G) || !leq(B.T, G)) bad("join", "join(" + str(A.T) + "," + str(B.T) + ") denotes " + str(G) + ", which is not above both");
      bool NoShare = A.NoShare || B.NoShare;
      D.H = std::move(R); { Quiet Q; D.T = G; } adopt(D); D.NoShare = NoShare; count("op.join");
      break;
    }
    case 8: {
      bool E = A.H == B.H;
      if (E && (A.Null != B.Null || (!A.Null && A.T != B.T))) bad("equality", "two handles that denote different functions are equal");
      if (!E && A.Id == B.Id && !A.Null && !B.Null && A.Pol == B.Pol && A.Pol) bad("equality", "two handles of one object are not equal");
      if (E != (B.H == A.H) || E == (A.H != B.H)) bad("equality", "== is not symmetric or disagrees with !=");
      if (E && hash_value(A.H) != hash_value(B.H)) bad("hash", "two equal handles have different hash codes");
      break;
    }
    case 9: if (!W->Shared.empty()) { Slot &S = W->Shared[choose(SCHED, W->Shared.size())]; Try([&] { D.H = S.H; }); if (!Failed) { Quiet Q; model(D, S); } count("op.copy-shared"); } break;
    case 10: case 11: {
      if (D.NoShare || W->Mails.empty()) break;
      Mail &M = *W->Mails[choose(SCHED, W->Mails.size())];
      M.M.lock();
      if (Op == 10) { std::swap(D.H, M.S.H); Quiet Q; Slot T; model(T, D); model(D, M.S); model(M.S, T); }
      else { M.S.H = D.H; Quiet Q; model(M.S, D); }
      verify("a hand-over", M.S);
      M.M.unlock(); count("op.hand-over");
      break;
    }
    case 12: {
      std::vector<EF> Vec; for (auto &S : *Sl) Vec.push_back(S.H);
      std::vector<EF> Copy = Vec; llvm::SmallVector<EF, 2> SV(Copy.begin(), Copy.end());
      Vec.erase(Vec.begin() + choose(SCHED, Vec.size())); std::swap(Copy.front(), Copy.back());
      SV.erase(SV.begin()); SV.insert(SV.begin(), Copy[0]); Vec.insert(Vec.begin(), std::move(Copy[1 % Copy.size()]));
      D.H = SV[0]; { Quiet Q; model(D, Slot{nullptr, (*Sl).back().Null, (*Sl).back().T, (*Sl).back().Id, (*Sl).back().Pol, (*Sl).back().NoShare}); }
      break;
    }
    case 13: {
      llvm::DenseMap<EF, int> M; std::map<const void *, int> Ref;
      for (auto &S : *Sl) if (!S.Null) { M[S.H] = 1; }
      for (auto &S : *Sl) if (!S.Null && !M.count(S.H)) bad("dense-map", "a handle put into a DenseMap is not found in it");
      if (!A.Null) { M.erase(A.H); if (M.count(A.H)) bad("dense-map", "an erased handle is still in the DenseMap"); }
      break;
    }
    }
    if (Failed) count("fault.operation-failed");
    verify("an operation", D); verify("an operation", A); verify("an operation", B);
  }
  for (auto &S : *Sl) { S.H = nullptr; S.Null = true; }
  { Quiet Q; delete Sl; }
  // every cached edge function of this thread that is not held by a shared handle is gone
  for (int64_t K = 0; K < 16; ++K) { Xor X(K); if (Ca->lookup(X)) bad("cache-not-forgotten", "the cache still holds an edge function whose last handle is gone"); }
}

void run() {
  arenaLayout(choose(LAYOUT, 1u << 16));
  uint64_t Base;
  {
    Wd Wld; W = &Wld;
    W->NT = 2 + choose(GEN, 3); W->NOps = range(GEN, 3, 14); W->NSlots = range(GEN, 1, 4); W->Faults = chance(GEN, 1, 4); W->Cached = chance(GEN, 1, 2);
    int NSh = choose(GEN, 4), NM = 1 + choose(GEN, 2);
    for (int I = 0; I < NSh; ++I) { Slot S; int Kinds[] = {0, 1, 2, 9, 6}; int K = Kinds[choose(GEN, 5)]; S.H = makeFn(K, choose(GEN, 4), choose(GEN, 3), S.T, nullptr, nullptr);
      if (I && chance(GEN, 1, 2)) { S.H = W->Shared.back().H.composeWith(S.H); S.T = eval(S.H); }
      adopt(S); W->Shared.push_back(S); }
    for (int I = 0; I < NM; ++I) W->Mails.push_back(new Mail());
    for (int I = 0; I < W->NT; ++I) W->Caches.push_back(new Cache());
    if (NSh && chance(GEN, 1, 2)) { Mail &M = *W->Mails[0]; M.S.H = W->Shared[0].H; model(M.S, W->Shared[0]); if (chance(GEN, 1, 2)) W->Shared.clear(); }
    std::vector<std::function<void()>> B; for (int I = 0; I < W->NT; ++I) B.push_back([I] { body(I); });
    count(W->NT == 2 ? "gen.two-threads" : W->NT == 3 ? "gen.three-threads" : "gen.four-threads");
    thr::run(B);
    for (auto &S : W->Shared) { verify("the threads", S); }
    for (auto *M : W->Mails) { verify("the threads", M->S); delete M; }
    for (auto *C : W->Caches) delete C;
    W->Shared.clear();
  }
  if (LiveObj) violation("ef:leak", std::to_string(LiveObj) + " edge functions are still alive after their last handle is gone");
  state(mix(eventHash(), 0)); if (thr::switches() >= 6) nontrivial();
  endRun();
}
} // namespace

std::vector<Harness> sim::harnesses() {
  std::vector<const char *> Real = {"EdgeFunction / EdgeFunctionRef handles (include/phasar/DataFlow/IfdsIde/EdgeFunction.h)", "EdgeFunctionUtils (identity, constant, all-top/bottom, composer, join)", "DefaultEdgeFunctionSingletonCache", "libstdc++ and LLVM containers of handles", "std::mutex (simulated underneath)"};
  std::vector<const char *> Stub = {"concrete edge functions with liveness canaries", "thread scheduling (one thread at a time, seeded)", "memory ordering (vector clocks)", "heap allocator (seeded placement, injected failures)"};
  std::vector<const char *> As = {"one handle object is used by one thread at a time; handles are passed between threads under a mutex; a shared handle is only copied", "cached edge functions and their cache stay in one thread (the cache is documented as not thread-safe)", "with injected allocation failures no LLVM container grows (LLVM ends the process)"};
  return {{"C04", "one run = 2-4 simulated threads performing 3-14 random operations each on handles of heap-allocated, cached and small-object edge functions, sharing and passing handles; non-trivial: at least 6 context switches", "event-log hash: operations, context switches", run, nullptr, Real, Stub, As, 40000, 4000000, 40, 700}};
}
