// C01, C02, C03: the IFDS/IDE solver under arbitrary processing orders,
// object placements, interruptions, clocks.
#include "synth.h"
#include <atomic>
#include <chrono>
#include <optional>

using namespace sim;
using namespace synth;
using namespace psr;

namespace {
int Policy = 0; // 0 shipped order, 1 fifo, 2 random, 3 mostly shipped, 4 bursts
uint64_t Picks = 0, BurstLeft = 0; bool BurstFifo = false;
uint64_t SolverSteps = 0; // phase-I steps
void (*OnStep)() = nullptr;
bool FlowSeen = false;
uint64_t FlowWork = 0;
} // namespace

extern "C" size_t phasarSimPickNext(const char *WL, size_t N, size_t Def) {
  sim::step();
  if (WL[11] == 'W') { ++SolverSteps; if (OnStep) OnStep(); }
  ++Picks;
  if (N <= 1) return Def;
  size_t R = Def;
  switch (Policy) {
  case 0: break;
  case 1: R = Def == 0 ? N - 1 : 0; break;
  case 2: R = (Def + choose(SCHED, N)) % N; break;
  case 3: if (chance(SCHED, 1, 8)) R = (Def + choose(SCHED, N)) % N; break;
  case 4: if (!BurstLeft) { BurstLeft = range(SCHED, 1, 12); BurstFifo = !BurstFifo; } --BurstLeft; if (BurstFifo) R = Def == 0 ? N - 1 : 0; break;
  }
  if (R != Def) count("sched.reordered-picks");
  ev(R);
  return R;
}

namespace {
void workHook() { ++FlowWork; FlowSeen = true; }

struct World {
  Prob P; RefResult Ref; CacheTy Cache; bool Ifds = false; std::string Desc;
};
World *W = nullptr;

void setup(GenCfg C) {
  OnFlowWork = workHook;
  uint32_t Lay = choose(LAYOUT, 1u << 16);
  arenaLayout(Lay);
  if (Lay) count("layout.randomised-address-space");
  W = new World();
  W->Ifds = chance(GEN, 1, 3);
  IfdsMode = W->Ifds;
  EFMode = choose(GEN, 4); BotMode = chance(GEN, 1, 3);
  TheCache = &W->Cache;
  if (C.Unbalanced) count("gen.unbalanced");
  generate(W->P, C);
  W->Ref = reference(W->P, W->Ifds);
  W->Desc = std::string(W->Ifds ? "IFDS " : "IDE ") + W->P.describe();
  evs(W->Desc);
  Policy = weighted(SCHED, {2, 2, 5, 2, 2});
  const char *Pn[] = {"policy.as-shipped", "policy.opposite-end", "policy.random", "policy.mostly-shipped", "policy.bursts"};
  count(Pn[Policy]);
  note("problem: %s", W->Desc.c_str());
  note("policy=%s layout-seed=%u ef-storage=%d", Pn[Policy], Lay, EFMode);
  if (W->Ref.Reach.size() >= 6 && W->P.Nodes.size() >= 3) nontrivial();
  sample(W->Desc + " | policy " + Pn[Policy]);
  bool Rec = false; for (auto &N : W->P.Nodes) for (auto *C2 : N.Callees) if (C2 == N.F) Rec = true;
  if (Rec) count("probe.recursive-program");
  if (!W->P.Summ.empty()) count("probe.special-summaries");
}

std::string nm(int N, int D) { return "(n" + std::to_string(N) + ",d" + std::to_string(D) + ")"; }
int valOf(L8 V) { return V.V; }
int valOf(BinaryDomain B) { return B == BinaryDomain::BOTTOM ? 7 : 0; }

// compares a results object (view or owning) with the reference
template <class RTy> void compare(const RTy &Res, const char *When) {
  auto &P = W->P; auto &R = W->Ref;
  std::map<std::pair<int, int>, int> Got;
  for (auto &C : Res.getAllResultEntries()) {
    auto K = std::make_pair(C.getRowKey()->Id, C.getColumnKey()->Id);
    if (!Got.emplace(K, valOf(C.getValue())).second) violation("results:duplicate-entry", std::string(When) + ": duplicate entry " + nm(K.first, K.second));
  }
  for (auto &N : P.Nodes) {
    bool Plain = N.Kind != 1 && !N.Start;
    if (P.FollowPast && !Plain) continue;
    for (int D = 0; D < P.NF; ++D) {
      auto K = std::make_pair(N.Id, D); auto G = Got.find(K); auto E = R.Val.find(K);
      int EV = E == R.Val.end() ? 0 : E->second;
      if (Plain) {
        bool Must = R.Strict.count(K), Has = G != Got.end();
        if (Must != Has) violation(Must ? "results:missing-fact" : "results:spurious-fact",
            std::string(When) + ": fact " + nm(N.Id, D) + (Must ? " holds but is not reported" : " is reported but does not hold") + "\n" + W->Desc);
      }
      if (P.FollowPast) continue;
      int GV = G == Got.end() ? 0 : G->second;
      if (GV != EV) violation("results:wrong-value", std::string(When) + ": value at " + nm(N.Id, D) + " is " + std::to_string(GV) + ", expected " + std::to_string(EV) + "\n" + W->Desc);
      if (G != Got.end()) {
        auto V = Res.resultAt(&P.Nodes[N.Id], P.fact(D));
        if (valOf(V) != GV) violation("results:accessors-disagree", std::string(When) + ": resultAt" + nm(N.Id, D) + " differs from the entry list");
      }
    }
    auto Row = Res.resultsAt(&P.Nodes[N.Id], true);
    if (Row.count(P.fact(0))) violation("results:accessors-disagree", "zero fact not stripped");
    size_t Cnt = 0; for (int D = 1; D < P.NF; ++D) if (Got.count({N.Id, D})) { ++Cnt; if (!Row.count(P.fact(D))) violation("results:accessors-disagree", std::string(When) + ": resultsAt misses " + nm(N.Id, D)); }
    if (Cnt != Row.size()) violation("results:accessors-disagree", std::string(When) + ": resultsAt has extra entries at n" + std::to_string(N.Id));
  }
  for (auto &[K, V] : Got) ev(K.first * 1000 + K.second * 10 + V);
}

void applyConfig(IFDSIDESolverConfig &C) {
  C.setFollowReturnsPastSeeds(W->P.FollowPast);
  C.setRecordEdges(W->P.RecordEdges);
}

// dispatches on IFDS / IDE
template <class F> void withSolver(F Fn) {
  if (W->Ifds) {
    IfdsProblem Pr(W->P); applyConfig(Pr.getIFDSIDESolverConfig());
    IFDSSolver<BDom> S(Pr, &W->P.I); Fn(S);
  } else {
    IdeProblem Pr(W->P); applyConfig(Pr.getIFDSIDESolverConfig());
    IDESolver<Dom> S(Pr, &W->P.I); Fn(S);
  }
}
GenCfg smallCfg() {
  GenCfg C; C.Unbalanced = chance(GEN, 1, 8);
  switch (choose(GEN, 3)) { case 0: C.MaxFns = 2; C.MaxNodes = 5; C.MaxFacts = 2; break; case 1: break; default: C.MaxFns = 5; C.MaxNodes = 8; C.MaxFacts = 5; }
  return C;
}

// ---------------------------------------------------------------- C01
void runC01() {
  setup(smallCfg());
  int Mode = choose(GEN, 4);
  withSolver([&](auto &S) {
    switch (Mode) {
    case 0: { auto R = S.solve(); compare(R, "after solve()"); compare(S.getSolverResults(), "getSolverResults()"); break; }
    case 1: { auto R = std::move(S).solve(); compare(R, "after solve() &&"); break; }
    case 2: { S.solve(); auto R = S.consumeSolverResults(); compare(R, "consumed results"); break; }
    default: {
      if (S.initialize()) while (S.next()) {}
      auto R = S.finalize(); compare(R, "after stepping with next()"); break; }
    }
  });
  if (W->Ifds == false && EFMode >= 1) { if (BigEF::Instances < 0) violation("edge-function:over-destroyed", "more edge functions destroyed than created"); 
    if (BigEF::Instances > 0) violation("edge-function:leak", std::to_string(BigEF::Instances) + " edge functions are still alive after the solver and the problem are gone\n" + W->Desc); }
  count("path-edge-steps", SolverSteps);
}

// ---------------------------------------------------------------- C02
std::atomic_bool Cancel{false};
int64_t StepBudget = -1;          // solver steps until an asynchronous cancel request
uint64_t CancelAtStep = 0; bool CancelSet = false;
uint64_t StepCost = 0;
void stepHook() {
  if (StepBudget >= 0 && StepBudget-- == 0) { Cancel.store(true); CancelSet = true; CancelAtStep = SolverSteps; count("fault.async-cancel-request"); note("  cancel requested at solver step %llu", (unsigned long long)SolverSteps); }
}
uint64_t FlowBudget = 0;
void flowCancel() { workHook(); clockAdvance(StepCost); if (FlowBudget && --FlowBudget == 0) { Cancel.store(true); CancelSet = true; CancelAtStep = SolverSteps; count("fault.async-cancel-inside-flow-function"); note("  cancel requested inside a flow function, step %llu", (unsigned long long)SolverSteps); } }

template <class S> void checkInterrupted(S &Solver) {
  (void)Solver;
}

void runC02() {
  GenCfg C = smallCfg();
  setup(C);
  bool Rv = chance(GEN, 1, 4);
  OnStep = stepHook; OnFlowWork = flowCancel;
  withSolver([&](auto &S) {
    using ResV = std::decay_t<decltype(S.getSolverResults())>;
    (void)sizeof(ResV);
    bool Started = false, Done = false, HasNext = false;
    int Segs = 0, MaxSegs = range(SCHED, 1, 12);
    while (!Done) {
      bool Last = ++Segs > MaxSegs;
      StepBudget = -1; FlowBudget = 0; Cancel.store(false); CancelSet = false;
      StepCost = 0;
      int M = Last ? 5 : weighted(SCHED, {4, 3, 4, 3, 2});
      uint64_t S0 = SolverSteps;
      note("segment %d: mode %d%s", Segs, M, Started ? " (continue)" : "");
      switch (M) {
      case 0: { // predicate, optionally reading the time stamp
        uint32_t Checks = choose(FAULT, 6); bool TS = chance(FAULT, 1, 2); auto Iv = std::chrono::milliseconds(range(TIME, 1, 3));
        StepCost = choose(TIME, 4) * 400000;
        uint32_t Left = Checks;
        bool Fired = false;
        auto Stop = [&]() { if (Left == 0) { if (!Fired) count("fault.predicate-cancel"); Fired = true; return true; } --Left; return false; };
        auto StopT = [&](std::chrono::steady_clock::time_point) { return Stop(); };
        auto Hdl = [&](auto R) { if (R) { if (Fired) violation("interrupt:result-after-cancel", "the cancellation predicate returned true but a result was returned"); compare(*R, "after solveUntil"); Done = true; } else if (!Fired) violation("interrupt:spurious-cancel", "solving was reported as cancelled although the predicate never returned true\n" + W->Desc); };
        if (Rv) { if (TS) Hdl(Started ? std::move(S).continueUntil(StopT, Iv) : std::move(S).solveUntil(StopT, Iv)); else Hdl(Started ? std::move(S).continueUntil(Stop, Iv) : std::move(S).solveUntil(Stop, Iv)); }
        else { if (TS) Hdl(Started ? S.continueUntil(StopT, Iv) : S.solveUntil(StopT, Iv)); else Hdl(Started ? S.continueUntil(Stop, Iv) : S.solveUntil(Stop, Iv)); }
        break; }
      case 1: { // timeout
        StepCost = range(TIME, 0, 6) * 250000;
        auto T = std::chrono::milliseconds(choose(TIME, 60)), Iv = std::chrono::milliseconds(range(TIME, 1, 2)); uint64_t C0 = clockNow();
        auto Hdl = [&](auto R) { uint64_t El = clockNow() - C0; bool Exp = El >= (uint64_t)T.count() * 1000000;
          if (!R && !Exp) violation("interrupt:early-timeout", "timeout of " + std::to_string(T.count()) + " ms reported after " + std::to_string(El / 1e6) + " ms");
          if (!R) count("fault.timeout-expired"); if (R) { compare(*R, "after solveWithTimeout"); Done = true; } };
        if (Rv) Hdl(Started ? std::move(S).continueWithTimeout(T, Iv) : std::move(S).solveWithTimeout(T, Iv));
        else Hdl(Started ? S.continueWithTimeout(T, Iv) : S.solveWithTimeout(T, Iv));
        break; }
      case 2: { // asynchronous flag
        switch (choose(FAULT, 3)) { case 0: StepBudget = choose(FAULT, 60); break; case 1: FlowBudget = range(FAULT, 1, 80); break; default: Cancel.store(true); CancelSet = true; CancelAtStep = SolverSteps; count("fault.cancel-before-start"); }
        bool Was = Cancel.load(); (void)Was;
        auto Hdl = [&](auto R) { if (R) { compare(*R, "after async solve"); Done = true; }
          else { if (!Cancel.load()) violation("interrupt:spurious-cancel", "async cancellation reported but the flag was never set\n" + W->Desc);
            if (SolverSteps > CancelAtStep + 1) violation("interrupt:late-cancel", "the solver took " + std::to_string(SolverSteps - CancelAtStep) + " more steps after the asynchronous cancellation request"); } };
        if (Rv) Hdl(Started ? std::move(S).continueWithAsyncCancellation(Cancel) : std::move(S).solveWithAsyncCancellation(Cancel));
        else Hdl(Started ? S.continueWithAsyncCancellation(Cancel) : S.solveWithAsyncCancellation(Cancel));
        break; }
      case 3: case 4: { // manual stepping
        bool More = true;
        if (!Started) { More = S.initialize(); HasNext = More; }
        else if (!HasNext) { // position unknown after an interrupted call: go on with continue*
          uint32_t Left = choose(FAULT, 3); bool Fired = false;
          auto R = S.continueUntil([&] { if (Left == 0) { Fired = true; return true; } --Left; return false; }, std::chrono::milliseconds(1));
          if (R) { if (Fired) violation("interrupt:result-after-cancel", "x"); compare(*R, "after continueUntil"); Done = true; }
          break;
        }
        if (More) { if (M == 3) { uint32_t K = choose(SCHED, 40); for (uint32_t I = 0; I < K && More; ++I) More = S.next(); } else More = S.nextN(choose(SCHED, 60)); }
        count("fault.manual-step-pause");
        if (!More) { auto R = S.finalize(); compare(R, "after next()/nextN()"); Done = true; }
        HasNext = More;
        break; }
      default:
        if (Started) { if (Rv) { auto R = std::move(S).continueSolving(); compare(R, "after continueSolving()&&"); } else { auto R = S.continueSolving(); compare(R, "after continueSolving()"); } }
        else { auto R = S.solve(); compare(R, "after solve()"); }
        Done = true;
      }
      if (M != 3 && M != 4) HasNext = false;
      Started = true;
      ev(SolverSteps); state(mix(hashStr(W->Desc), SolverSteps));
      count("segments"); if (!Done) { count("interruptions"); if (SolverSteps == S0) count("probe.segment-without-step"); }
      sim::step();
    }
    if (Segs > 1) count("probe.run-resumed");
    if (Segs > 3) count("probe.resumed-3-or-more-times");
  });
}

// ---------------------------------------------------------------- C03
// A long chain problem with cheap steps; the clock is driven by the work.
int CostModel = 0; uint64_t BaseCost = 0; uint64_t CostNo = 0; bool Stalled = false;
uint64_t StepsAtCheck = 0, Checks = 0;
uint64_t DeadlineNs = 0, StepsAtDeadline = 0;
struct Gap { uint64_t Steps, Ns; };
std::vector<Gap> Gaps; uint64_t LastCheckNs = 0;
void costHook() {
  workHook(); ++CostNo; uint64_t C = BaseCost;
  switch (CostModel) {
  case 0: C = 0; break;                                         // the clock never moves
  case 1: break;                                                // constant cost
  case 2: C = (CostNo / 97) % 2 ? BaseCost * 50 : BaseCost; break;   // phases
  case 3: C = chance(TIME, 1, 64) ? BaseCost * 400 : BaseCost; if (C != BaseCost) count("fault.slow-step"); break;
  case 4: C = (CostNo % 128 == 0) ? 1000000 : 0; break;          // coarse clock tick
  case 5: C = BaseCost + CostNo * BaseCost / 64; break;          // slower and slower
  case 6: C = BaseCost; if (chance(TIME, 1, 700)) { C = 3600ull * 1000000000ull; count("fault.stall-one-hour"); Stalled = true; } break;
  }
  clockAdvance(C);
  if (DeadlineNs && !StepsAtDeadline && clockNow() >= DeadlineNs) StepsAtDeadline = SolverSteps + 1;
}
void bigProblem(Prob &P) {
  P.NF = range(GEN, 2, 4); int K = range(GEN, 300, 3000);
  for (int I = 0; I < P.NF; ++I) { P.Facts.emplace_back().Id = I; }
  P.Fns.emplace_back(); Fn &F = P.Fns[0]; F.Name = "f0";
  for (int J = 0; J < K; ++J) { P.Nodes.emplace_back(); auto &N = P.Nodes.back(); N.Id = J; N.F = &F; }
  for (auto &N : P.Nodes) { F.Nodes.push_back(&N); P.I.AllNodes.push_back(&N); }
  P.Nodes[0].Start = true; F.Starts.push_back(&P.Nodes[0]);
  std::vector<Flow> Pool; for (int I = 0; I < 4; ++I) { Flow Fl(P.NF); for (int S = 0; S < P.NF; ++S) { Fl[S].push_back({uint8_t(S), Rep::id()}); if (S == 0) for (int T = 1; T < P.NF; ++T) if (chance(GEN, 1, 3)) Fl[S].push_back({uint8_t(T), genRepPublic()}); } Pool.push_back(Fl); }
  for (int J = 0; J + 1 < K; ++J) {
    P.Nodes[J].Succs.push_back(&P.Nodes[J + 1]); P.Normal[{J, J + 1}] = Pool[J % 4];
    if (J % 37 == 5 && J > 10) { P.Nodes[J].Succs.push_back(&P.Nodes[J - 7]); P.Normal[{J, J - 7}] = Pool[(J / 37) % 4]; }
  }
  P.Nodes[K - 1].Kind = 2;
  P.Seeds[0][0] = 7;
}
uint64_t ReqAtNs = 0; bool Requested = false; uint64_t RequestSteps = 0;

void runC03() {
  uint32_t Lay = choose(LAYOUT, 1u << 16); arenaLayout(Lay);
  setStepLimit(400000); ClockReadHook = [] { sim::step(); };
  W = new World(); W->Ifds = chance(GEN, 1, 3); IfdsMode = W->Ifds; EFMode = choose(GEN, 4); BotMode = false; TheCache = &W->Cache;
  bool Small = chance(GEN, 1, 3);
  if (Small) { GenCfg C; generate(W->P, C); } else bigProblem(W->P);
  W->Ref = reference(W->P, W->Ifds);
  W->Desc = std::string(W->Ifds ? "IFDS " : "IDE ") + std::to_string(W->P.Nodes.size()) + " nodes " + std::to_string(W->P.NF) + " facts " + std::to_string(W->Ref.Reach.size()) + " reachable pairs";
  Policy = weighted(SCHED, {4, 2, 1});
  static const uint64_t Costs[] = {1, 100, 1000, 20000, 300000, 1000000, 7000000, 1500000000ull};
  CostModel = choose(TIME, 7); BaseCost = Costs[choose(TIME, 8)];
  static const int Ivs[] = {1, 0, 2, 5, 20, 1000};
  auto Iv = std::chrono::milliseconds(Ivs[weighted(TIME, {6, 4, 4, 3, 2, 2})]);
  const char *CM[] = {"clock.frozen", "clock.constant-cost", "clock.phases", "clock.spikes", "clock.coarse-tick", "clock.ramp", "clock.stalls"};
  count(CM[CostModel]); if (Iv.count() == 0) count("probe.interval-zero");
  note("problem: %s; clock model %s base step cost %llu ns; check interval %lld ms", W->Desc.c_str(), CM[CostModel], (unsigned long long)BaseCost, (long long)Iv.count());
  sample(W->Desc + " | " + CM[CostModel] + " base " + std::to_string(BaseCost) + " ns, interval " + std::to_string(Iv.count()) + " ms");
  evs(W->Desc); ev(CostModel); ev(BaseCost); ev(Iv.count());
  OnFlowWork = costHook;
  nontrivial();
  // cancellation plan
  int Plan = weighted(FAULT, {3, 3, 3}); // never / at a work time / timeout
  uint64_t ReqAfterSteps = Plan == 1 ? choose(FAULT, 1500) : ~0ull;
  uint64_t TimeoutMs = 0; if (Plan == 2) { static const uint64_t Ts[] = {0, 1, 5, 50, 1000, 20000, 3000000}; TimeoutMs = Ts[choose(FAULT, 7)]; }
  uint64_t NoProg = 0; Gaps.clear(); StepsAtCheck = 0; LastCheckNs = clockNow(); Checks = 0;
  double MaxRate = 0; uint64_t MaxGap = 0; bool FirstCheck = true; uint64_t StepsAtTrue = ~0ull;
  auto OnCheck = [&](uint64_t) {
    sim::step();
    uint64_t St = SolverSteps - StepsAtCheck, Ns = clockNow() - LastCheckNs; ++Checks;
    if (!FirstCheck) {
      Gaps.push_back({St, Ns}); state(mix(mix(St, Ns), Iv.count()));
      note("  check %llu after %llu solver steps, %.6f ms", (unsigned long long)Checks, (unsigned long long)St, Ns / 1e6);
      // progress between two consecutive checks
      if (St == 0) { if (++NoProg > 2) violation("no-progress:checks-without-steps", "the solver calls the cancellation predicate over and over without performing a single step (interval " + std::to_string(Iv.count()) + " ms, clock " + CM[CostModel] + ")"); } else NoProg = 0;
      double IvMs = Iv.count() > 0 ? (double)Iv.count() : 1.0;
      double Bound = 4.0 * std::max({500.0 * IvMs, (double)MaxGap, MaxRate * IvMs}) + 64;
      if ((double)St > Bound) violation("responsiveness:gap", "no cancellation check during " + std::to_string(St) + " solver steps; interval " + std::to_string(Iv.count()) + " ms, bound " + std::to_string(Bound));
      if (Ns) MaxRate = std::max(MaxRate, St / (Ns / 1e6)); else MaxRate = std::max(MaxRate, (double)St * 4);
      MaxGap = std::max(MaxGap, St);
    }
    FirstCheck = false; StepsAtCheck = SolverSteps; LastCheckNs = clockNow();
  };
  uint64_t T0 = clockNow(); bool Ret = false, GotRes = false;
  withSolver([&](auto &S) {
    auto Fin = [&](auto R) { Ret = true; if (R) { GotRes = true; compare(*R, "after interruptible solving"); } };
    if (Plan == 2) {
      DeadlineNs = T0 + TimeoutMs * 1000000;
      auto R = S.solveWithTimeout(std::chrono::milliseconds(TimeoutMs), Iv);
      uint64_t El = clockNow() - T0;
      if (!R && El < TimeoutMs * 1000000) violation("timeout:early", "timed out after " + std::to_string(El / 1e6) + " of " + std::to_string(TimeoutMs) + " ms");
      if (!R) count("fault.timeout-expired");
      if (CostModel == 1 && StepsAtDeadline) {
        // constant work per flow function: a missed deadline is noticed within a few intervals worth of steps
        double IvMs = Iv.count() > 0 ? (double)Iv.count() : 1.0, Rate = TimeoutMs ? (double)StepsAtDeadline / TimeoutMs : 500;
        double Bound = 8 * std::max(500.0, 4 * Rate) * IvMs + 64; uint64_t After = SolverSteps + 1 - StepsAtDeadline;
        count("probe.deadline-overshoot-checked");
        if ((double)After > Bound) violation("timeout:late", "the solver went on for " + std::to_string(After) + " steps after the timeout of " + std::to_string(TimeoutMs) + " ms had expired (interval " + std::to_string(Iv.count()) + " ms)");
      }
      Fin(std::move(R));
    } else {
      bool TS = chance(FAULT, 1, 2); bool Req = false;
      auto Ask = [&]() { OnCheck(0); if (SolverSteps >= ReqAfterSteps) { if (!Req) count("fault.cancel-request"); Req = true; StepsAtTrue = std::min(StepsAtTrue, SolverSteps); return true; } return false; };
      uint64_t LastTS = 0;
      auto AskT = [&](std::chrono::steady_clock::time_point T) { uint64_t N = T.time_since_epoch().count(); if (N < LastTS) violation("clock:time-stamp-backwards", "time stamps passed to the predicate go backwards"); if (N > clockNow()) violation("clock:time-stamp-in-future", "time stamp lies in the future"); LastTS = N; return Ask(); };
      if (TS) { auto R = S.solveUntil(AskT, Iv); if (R && Req) violation("interrupt:result-after-cancel", "result returned after the predicate asked to cancel"); if (!R && !Req) violation("interrupt:spurious-cancel", "cancelled without a request"); Fin(std::move(R)); }
      else { auto R = S.solveUntil(Ask, Iv); if (R && Req) violation("interrupt:result-after-cancel", "result returned after the predicate asked to cancel"); if (!R && !Req) violation("interrupt:spurious-cancel", "cancelled without a request"); Fin(std::move(R)); }
      if (Req && SolverSteps > StepsAtTrue) violation("interrupt:steps-after-cancel", "the solver performed " + std::to_string(SolverSteps - StepsAtTrue) + " steps after the predicate asked to cancel");
      // Steady state: where the cost of a step has been stable for a while, the
      // checks follow the requested interval.
      if (Iv.count() > 0) {
        const size_t Win = 12; double IvNs = Iv.count() * 1e6;
        for (size_t I = Win; I < Gaps.size(); ++I) {
          double Lo = 1e300, Hi = 0; bool Ok = true;
          for (size_t J = I - Win; J <= I; ++J) { if (!Gaps[J].Steps || !Gaps[J].Ns) { Ok = false; break; } double C = (double)Gaps[J].Ns / Gaps[J].Steps; Lo = std::min(Lo, C); Hi = std::max(Hi, C); }
          if (!Ok || Hi > 1.25 * Lo || I + 1 == Gaps.size()) continue;
          count("probe.steady-gap-checked");
          if (Gaps[I].Ns > 4 * IvNs + 4 * Hi) violation("responsiveness:interval-ignored", "with a stable step cost of " + std::to_string(Lo) + " to " + std::to_string(Hi) + " ns over the last " + std::to_string(Win) + " checks, the gap between two cancellation checks is " + std::to_string(Gaps[I].Ns) + " ns, interval " + std::to_string(Iv.count()) + " ms");
          if (Gaps[I].Ns * 4 < IvNs && Hi * 16 < IvNs) violation("responsiveness:check-storm", "with a stable step cost of " + std::to_string(Lo) + " to " + std::to_string(Hi) + " ns over the last " + std::to_string(Win) + " checks, cancellation is checked after only " + std::to_string(Gaps[I].Ns) + " ns, interval " + std::to_string(Iv.count()) + " ms");
        }
      }
    }
  });
  count("cancellation-checks", Checks); count("solver-steps", SolverSteps); if (GotRes) count("probe.completed"); else count("probe.cancelled");
  ev(SolverSteps); ev(Checks); ev(clockNow());
}
void warm() { OnFlowWork = nullptr; valTy(); }
} // namespace

std::vector<Harness> sim::harnesses() {
  std::vector<const char *> Real = {"IDESolver/IFDSSolver (include/phasar/DataFlow/IfdsIde/Solver)", "IDESolverAPIMixin (interruptible API)", "FlowEdgeFunctionCache", "JumpFunctions", "Table", "EdgeFunction handles and singleton cache", "SolverResults", "InitialSeeds", "IFDSIDESolverConfig"};
  std::vector<const char *> Stub = {"ICFG (generated supergraph)", "flow/edge functions (generated tables)", "ProjectIRDB (empty)", "heap allocator (seeded placement)", "std::chrono clocks (simulated)"};
  std::vector<const char *> As = {"seeds lie on function start points, start points have no intra-procedural predecessors", "generated edge functions map non-top values to non-top values", "with follow-returns-past-seeds only unbalanced chains of otherwise uncalled functions are generated and only fact sets are compared"};
  return {
      {"C01", "one run = one generated supergraph (1-5 functions, recursion, several exits/starts, summaries) solved once by the real solver with a seeded processing order and address-space layout; non-trivial: at least 6 (node,fact) pairs reachable", "event-log hash: problem + every worklist decision + result table", runC01, warm, Real, Stub, As, 60000, 4000000, 40, 800},
      {"C02", "one run = one generated problem solved in up to 12 segments cut short by predicate, timeout, asynchronous flag or manual stepping, then resumed; non-trivial: at least 6 (node,fact) pairs reachable", "event-log hash: problem + every worklist decision + segment boundaries + result table", runC02, warm, Real, Stub, As, 50000, 4000000, 40, 800},
      {"C03", "one run = one problem solved through the interruptible API under a simulated clock (frozen, coarse, constant, phased, spiking, ramping, stalling), check interval and cancellation plan; every run is non-trivial", "event-log hash: problem, clock model, checks, steps and final time", runC03, warm, Real, Stub, As, 6000, 400000, 40, 800},
  };
}
