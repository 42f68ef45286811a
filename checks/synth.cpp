#include "synth.h"
#include <algorithm>

namespace synth {
using namespace sim;

int EFMode = 0; bool BotMode = false; uint64_t EFCount = 0; CacheTy *TheCache = nullptr;
void (*OnFlowWork)() = nullptr; bool IfdsMode = false;
llvm::Type *valTy() { static llvm::LLVMContext C; return llvm::Type::getInt32Ty(C); }

psr::EdgeFunction<L8> mk(const Rep &R) {
  if (R.isId()) return psr::EdgeIdentity<L8>{};
  if (R.isTop()) return psr::AllTop<L8>{};
  if (BotMode && R.isBot()) return psr::AllBottom<L8>{};
  int M = EFMode; if (M == 3) M = R.key() % 3;
  ++EFCount;
  if (M == 0) return SmallEF{R};
  if (M == 1) return BigEF(R);
  return psr::CachedEdgeFunction<BigEF>{BigEF(R), TheCache};
}
Rep repOf(const psr::EdgeFunction<L8> &EF) {
  if (llvm::isa<psr::EdgeIdentity<L8>>(EF)) return Rep::id();
  if (llvm::isa<psr::AllTop<L8>>(EF)) return Rep::top();
  if (llvm::isa<psr::AllBottom<L8>>(EF)) return Rep::bot();
  if (auto *S = llvm::dyn_cast<SmallEF>(EF)) return S->R;
  if (auto *B = llvm::dyn_cast<BigEF>(EF)) return B->R;
  violation("edge-function:unknown-type", "an edge function handle does not hold any of the functions that were created");
}

std::string Prob::describe() const {
  std::string S = "functions=" + std::to_string(Fns.size()) + " facts=" + std::to_string(NF) + (FollowPast ? " follow-returns-past-seeds" : "") + "; ";
  for (auto &F : Fns) {
    S += F.Name + (F.Decl ? "(decl)" : "") + "{";
    for (auto *N : F.Nodes) {
      S += "n" + std::to_string(N->Id) + (N->Start ? "s" : "") + (N->Kind == 1 ? "c" : N->Kind == 2 ? "x" : "");
      if (N->Kind == 1) { S += "("; for (auto *C : N->Callees) S += C->Name + ","; S += ")"; }
      S += ">"; for (auto *T : N->Succs) S += std::to_string(T->Id) + ","; S += " ";
    }
    S += "} ";
  }
  S += "seeds:"; for (auto &[N, M] : Seeds) for (auto &[D, V] : M) S += " n" + std::to_string(N) + "/d" + std::to_string(D) + "=" + std::to_string(V);
  return S.substr(0, 3000);
}

Rep genRepPublic();
static Rep genRep() {
  auto Fin = [](Rep R) {
    for (auto &G : R.G) if (!G) G = 1;
    R.canon();
    if (BotMode && !R.isConst() && R.at(7) != 7) R.G[2] |= 7 & ~R.at(7);
    R.canon(); return R;
  };
  switch (weighted(GEN, {10, 3, 6})) {
  case 0: return Rep::id();
  case 1: { Rep R; R.C = range(GEN, 1, 7); return Fin(R); }
  default: { Rep R; uint32_t V = choose(GEN, 4096); R.C = (V & 7) & (V >> 9); R.G[0] = V >> 3 & 7; R.G[1] = V >> 6 & 7; R.G[2] = (V >> 2 ^ V >> 7) & 7; return Fin(R); }
  }
}
static Flow genFlow(int NF, uint32_t PId, uint32_t PGen) {
  Flow F(NF);
  for (int S = 0; S < NF; ++S)
    for (int T = S == 0 ? 0 : 1; T < NF; ++T) {
      if (S == 0 && T == 0) { F[0].push_back({0, Rep::id()}); continue; }
      bool Take = S == T ? chance(GEN, PId, 100) : chance(GEN, PGen, 100);
      if (Take) F[S].push_back({uint8_t(T), genRep()});
    }
  return F;
}

Rep genRepPublic() { return genRep(); }

void generate(Prob &P, const GenCfg &C) {
  P.NF = 1 + range(GEN, 1, C.MaxFacts);
  for (int I = 0; I < P.NF; ++I) { P.Facts.emplace_back().Id = I; }
  int NFns = range(GEN, 1, C.MaxFns);
  for (int I = 0; I < NFns; ++I) { P.Fns.emplace_back(); P.Fns[I].Id = I; P.Fns[I].Name = "f" + std::to_string(I); }
  bool Unb = C.Unbalanced;
  int Chain = 0; // functions 0..Chain-1 form an unbalanced caller chain
  if (Unb) { Chain = NFns >= 2 ? (int)range(GEN, 2, std::min(3, NFns)) : 1; }
  P.FollowPast = Unb;
  uint32_t PCall = range(GEN, 15, 50);
  for (int I = 0; I < NFns; ++I) {
    Fn &F = P.Fns[I];
    if (I > 0 && I >= Chain && chance(GEN, 10, 100)) { F.Decl = true; continue; }
    int K = range(GEN, 1, C.MaxNodes), B = P.Nodes.size();
    for (int J = 0; J < K; ++J) { P.Nodes.emplace_back(); auto &N = P.Nodes.back(); N.Id = B + J; N.F = &F; F.Nodes.push_back(&N); P.I.AllNodes.push_back(&N); }
    auto At = [&](int J) -> Node & { return P.Nodes[B + J]; };
    At(0).Start = true; F.Starts.push_back(&At(0));
    int NS = 1;
    if (K >= 3 && I >= Chain && chance(GEN, 12, 100)) { At(1).Start = true; F.Starts.push_back(&At(1)); NS = 2; }
    for (int J = NS; J < K; ++J) { int Pd = J == NS ? 0 : (int)choose(GEN, J); At(Pd).Succs.push_back(&At(J)); }
    if (NS == 2 && At(1).Succs.empty()) At(1).Succs.push_back(&At(2));
    bool ChainFn = I < Chain;
    int Extra = choose(GEN, K + 1);
    for (int E = 0; E < Extra && K > NS; ++E) {
      int A = choose(GEN, K), T = NS + choose(GEN, K - NS);
      if (ChainFn && T <= A) continue; // chain functions stay acyclic
      if (A == T && false) continue;
      if (std::find(At(A).Succs.begin(), At(A).Succs.end(), &At(T)) == At(A).Succs.end() && At(A).Succs.size() < 3) At(A).Succs.push_back(&At(T));
    }
    for (int J = 0; J < K; ++J) if (At(J).Succs.empty()) At(J).Kind = 2;
    if (chance(GEN, 20, 100)) for (int J = NS; J < K; ++J) if (At(J).Kind == 0 && chance(GEN, 1, 6)) { At(J).Kind = 2; if (chance(GEN, 2, 3)) { At(J).Succs.clear(); } }
    // a function whose nodes all lie on cycles has no exit: fine
  }
  // calls
  for (auto &N : P.Nodes) {
    if (N.Kind != 0 || N.Succs.empty()) continue;
    int FI = N.F->Id; bool ChainFn = FI < Chain;
    bool Chained = false;
    if (ChainFn && FI >= 1) {
      // function FI calls FI-1 at one node, whose return site is not before it
      bool Has = false; for (auto *M : N.F->Calls) for (auto *Cl : M->Callees) if (Cl->Id == FI - 1) Has = true;
      if (!Has && (chance(GEN, 1, 2) || N.Succs.size() == 1)) Chained = true;
    }
    if (!Chained && !chance(GEN, PCall, 100)) continue;
    N.Kind = 1; N.RetSites = N.Succs;
    if (Chained) N.Callees.push_back(&P.Fns[FI - 1]);
    else {
      int NC = weighted(GEN, {1, 6, 3});
      for (int X = 0; X < NC; ++X) {
        int T = choose(GEN, NFns); if (T < Chain) continue; // nobody else calls into the chain
        if (std::find(N.Callees.begin(), N.Callees.end(), &P.Fns[T]) == N.Callees.end()) N.Callees.push_back(&P.Fns[T]);
      }
    }
    P.Fns[FI].Calls.push_back(&N);
    for (auto *Cl : N.Callees) P.Fns[Cl->Id].Callers.push_back(&N);
  }
  // flows; a small pool is shared when the problem is big
  uint32_t PId = range(GEN, 40, 95), PGen = range(GEN, 2, 25);
  auto FL = [&]() { return genFlow(P.NF, PId, PGen); };
  bool Summ = chance(GEN, 1, 5);
  for (auto &N : P.Nodes) {
    if (N.Kind != 1) { for (auto *S : N.Succs) P.Normal[{N.Id, S->Id}] = FL(); continue; }
    for (auto *R : N.RetSites) P.CTR[{N.Id, R->Id}] = FL();
    for (auto *F : N.Callees) {
      bool IsSumm = Summ && F->Id >= Chain && chance(GEN, 1, 4);
      P.Call[{N.Id, F->Id}] = FL();
      if (IsSumm) {
        Flow SF = FL(); P.Summ[{N.Id, F->Id}] = SF;
        for (int S = 0; S < P.NF; ++S) for (auto &O : SF[S]) if (S || O.To) for (auto *R : N.RetSites) P.SummE.emplace(std::make_tuple(N.Id, S, R->Id, (int)O.To), genRep());
      }
      for (auto *X : F->Nodes) if (X->Kind == 2) for (auto *R : N.RetSites) P.Ret[{N.Id, F->Id, X->Id, R->Id}] = FL();
    }
  }
  // seeds
  int NSeeds = Unb ? 1 : range(GEN, 1, 3);
  for (int I = 0; I < NSeeds; ++I) {
    int T = Unb || I == 0 ? 0 : choose(GEN, NFns); if (P.Fns[T].Decl) continue;
    for (auto *SP : P.Fns[T].Starts) {
      uint32_t K = choose(GEN, 3);
      if (K == 0) P.Seeds[SP->Id][0] = 7;
      for (uint32_t J = 0; J < K; ++J) { int D = choose(GEN, P.NF); P.Seeds[SP->Id][D] = D == 0 ? 7 : range(GEN, 1, 7); }
    }
  }
  P.RecordEdges = chance(GEN, 1, 6);
}

RefResult reference(const Prob &P, bool Ifds) {
  RefResult R;
  using Key = std::pair<int, int>; // (n, d2)
  std::map<Key, std::map<int, Rep>> JF;
  std::map<Key, std::set<Key>> Inc;                  // (fn, d3) -> (call, d2)
  std::map<Key, std::map<Key, Rep>> Sum;             // (fn, d1) -> (exit, d2)
  std::set<int> Unbalanced;
  std::deque<std::tuple<int, int, int>> WL; std::set<std::tuple<int, int, int>> In;
  auto E = [&](const Rep &X) { return Ifds ? Rep::id() : X; };
  auto Push = [&](int D1, int N, int D2, const Rep &F) {
    auto &M = JF[{N, D2}]; auto It = M.find(D1);
    Rep Old = It == M.end() ? Rep::top() : It->second, New = join(Old, F);
    if (New == Old) return;
    M[D1] = New; if (In.insert({D1, N, D2}).second) WL.emplace_back(D1, N, D2);
  };
  auto Targets = [&](const Flow &F, int D, auto Fn) { bool Z = false; for (auto &O : F[D]) { Z |= O.To == 0; Fn(O.To, E(O.E)); } if (D == 0 && !Z) Fn(0, Rep::id()); };
  auto Seeds = P.Seeds;
  for (auto &[N, M] : Seeds) if (!M.count(0)) M[0] = 7;
  if (Ifds) for (auto &[N, M] : Seeds) for (auto &[D, V] : M) V = 7;
  for (auto &[N, M] : Seeds) for (auto &[D, V] : M) Push(D, N, D, Rep::id());
  while (!WL.empty()) {
    auto [D1, NI, D2] = WL.front(); WL.pop_front(); In.erase({D1, NI, D2}); ++R.PathEdges;
    const Node &N = P.Nodes[NI]; Rep F = JF[{NI, D2}][D1];
    if (N.Kind == 1) {
      for (auto *C : N.Callees) {
        auto SIt = P.Summ.find({NI, C->Id});
        if (SIt != P.Summ.end()) {
          for (auto *RS : N.RetSites) Targets(SIt->second, D2, [&, D2 = D2, D1 = D1, NI = NI](int D3, Rep) {
              auto EIt = P.SummE.find({NI, D2, RS->Id, D3}); Push(D1, RS->Id, D3, compose(F, E(EIt == P.SummE.end() ? Rep::id() : EIt->second))); });
          continue;
        }
        Targets(P.Call.at({NI, C->Id}), D2, [&, D1 = D1, NI = NI, D2 = D2](int D3, Rep CE) {
          for (auto *SP : C->Starts) Push(D3, SP->Id, D3, Rep::id());
          if (C->Starts.empty()) return;
          Inc[{C->Id, D3}].insert({NI, D2});
          for (auto &XS : Sum[{C->Id, D3}]) {
            auto X = XS.first; auto SF = XS.second;
            for (auto *RS : N.RetSites) Targets(P.Ret.at({NI, C->Id, X.first, RS->Id}), X.second, [&](int D5, Rep RE) { Push(D1, RS->Id, D5, compose(F, compose(compose(CE, SF), RE))); });
          }
        });
      }
      for (auto *RS : N.RetSites) Targets(P.CTR.at({NI, RS->Id}), D2, [&, D1 = D1](int D3, Rep X) { Push(D1, RS->Id, D3, compose(F, X)); });
      continue;
    }
    if (N.Kind == 2) {
      int FI = N.F->Id; Sum[{FI, D1}][{NI, D2}] = F;
      auto &IncS = Inc[{FI, D1}];
      for (auto &[C, D4] : IncS) {
        Rep CE = Rep::id();
        Targets(P.Call.at({C, FI}), D4, [&, D1 = D1](int T, Rep X) { if (T == D1) CE = X; });
        for (auto *RS : P.Nodes[C].RetSites) Targets(P.Ret.at({C, FI, NI, RS->Id}), D2, [&, C = C, D4 = D4](int D5, Rep RE) {
            auto Callers = JF[{C, D4}]; for (auto &[D3, F3] : Callers) Push(D3, RS->Id, D5, compose(F3, compose(compose(CE, F), RE))); });
      }
      if (P.FollowPast && IncS.empty())
        for (auto *C : N.F->Callers) for (auto *RS : C->RetSites) Targets(P.Ret.at({C->Id, FI, NI, RS->Id}), D2, [&](int D5, Rep RE) { Push(0, RS->Id, D5, compose(F, RE)); Unbalanced.insert(RS->Id); });
    }
    for (auto *S : N.Succs) Targets(P.Normal.at({NI, S->Id}), D2, [&, D1 = D1](int D3, Rep X) { Push(D1, S->Id, D3, compose(F, X)); });
  }
  for (auto &[K, M] : JF) if (!M.empty()) R.Reach.insert(K);
  // phase II
  std::map<Key, uint8_t> Val; std::deque<Key> Q;
  auto Get = [&](int N, int D) -> uint8_t { auto It = Val.find({N, D}); return It == Val.end() ? 0 : It->second; };
  auto Prop = [&](int N, int D, uint8_t V) { uint8_t O = Get(N, D), Nw = O | V; if (Nw != O) { Val[{N, D}] = Nw; Q.push_back({N, D}); } };
  auto Proc = [&](int NI, int D) {
    const Node &N = P.Nodes[NI];
    if (N.Start || Seeds.count(NI) || Unbalanced.count(NI))
      for (auto *C : N.F->Calls) for (auto &[K, M] : JF) if (K.first == C->Id) { auto It = M.find(D); if (It != M.end()) Prop(C->Id, K.second, It->second.at(Get(NI, D))); }
    if (N.Kind == 1) for (auto *F : N.Callees) Targets(P.Call.at({NI, F->Id}), D, [&](int T, Rep X) { for (auto *SP : F->Starts) Prop(SP->Id, T, X.at(Get(NI, D))); });
  };
  auto AS = Seeds; for (int U : Unbalanced) if (!AS.count(U)) AS[U][0] = 0;
  for (auto &[N, M] : AS) for (auto &[D, V] : M) { Val[{N, D}] = Get(N, D) | V; Proc(N, D); }
  while (!Q.empty()) { auto K = Q.front(); Q.pop_front(); Proc(K.first, K.second); }
  for (auto &[K, M] : JF) {
    const Node &N = P.Nodes[K.first]; if (N.Kind == 1 || N.Start) continue;
    uint8_t V = 0; for (auto &[D1, F] : M) for (auto *SP : N.F->Starts) V |= F.at(Get(SP->Id, D1));
    if (!N.F->Starts.empty() && !M.empty()) { Val[K] = Get(K.first, K.second) | V; R.Strict.insert(K); }
  }
  R.Val = Val;
  return R;
}
} // namespace synth
