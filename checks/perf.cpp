// C15: performance measurements (PAMM, Timer) on a simulated clock whose wall
// time is adjusted, exported to a faulty disk.
#include "../sim/core.h"
#include "../sim/disk.h"

#include "phasar/Utils/ChronoUtils.h"
#include "phasar/Utils/PAMM.h"
#include "phasar/Utils/Timer.h"

#include "llvm/ADT/Twine.h"
#include "llvm/Support/ErrorHandling.h"
#include "llvm/Support/raw_ostream.h"

#include "nlohmann/json.hpp"

#include <csetjmp>
#include <map>
#include <optional>

using namespace sim;
using namespace psr;

namespace {
jmp_buf Fatal; bool FatalArmed = false;
void onFatal(void *, const char *, bool) { if (FatalArmed) { FatalArmed = false; longjmp(Fatal, 1); } }
std::string s(uint64_t X) { return std::to_string(X); }

struct Model {
  std::map<std::string, uint64_t> Running; std::map<std::string, std::pair<uint64_t, uint64_t>> Stopped; std::map<std::string, std::vector<std::pair<uint64_t, uint64_t>>> Rep;
  std::map<std::string, unsigned> Cnt; std::map<std::string, std::map<std::string, uint64_t>> Hist;
};
uint64_t ms(uint64_t Ns) { return Ns / 1000000; }
std::string hmsText(uint64_t Ns) { char B[64]; uint64_t Us = Ns / 1000; snprintf(B, sizeof B, "%.2lu:%.2lu:%.2lu:%.6lu", Us / 3600000000ul, Us / 60000000 % 60, Us / 1000000 % 60, Us % 1000000); return B; }
std::string ids(int I) { static const char *N[] = {"DFA Phase I", "a", "ICFG Build", "x\"y\\z", "Timer 4", ""}; return N[I]; }

void pass() { // time goes by; the wall clock may be adjusted
  static const uint64_t U[] = {0, 1, 999, 999999, 1000000, 1500000, 1000000000ull, 61000000000ull, 3700000000000ull, 400000000000000ull};
  if (choose(TIME, 5) != 1) clockAdvance(U[choose(TIME, 10)] * (1 + choose(TIME, 5)) + choose(TIME, 2000));
  switch (weighted(FAULT, {4, 1, 1, 1})) {
  case 1: count("fault.wall-clock-back"); clockJumpWall(-(int64_t)((1 + choose(FAULT, 100000)) * 1000000000ull)); break;
  case 2: count("fault.wall-clock-forward"); clockJumpWall((int64_t)((1 + choose(FAULT, 100000)) * 1000000000ull)); break;
  case 3: count("fault.wall-clock-slew"); clockJumpWall((int64_t)choose(FAULT, 4000000) - 2000000); break;
  default: break;
  }
}
void checkHms(uint64_t Ns, const std::string &Got, const char *What) { if (Got != hmsText(Ns)) violation("perf:format", std::string(What) + " prints a duration of " + s(Ns) + " ns as " + Got + " instead of " + hmsText(Ns)); }

void runC15() {
  setStepLimit(100000); disk::reset(); llvm::install_fatal_error_handler(onFatal);
  PAMM Own, &P = chance(GEN, 1, 2) ? PAMM::getInstance() : Own; Model M; int N = range(GEN, 3, 60), NIds = range(GEN, 1, 6); uint64_t Meas = 0; int64_t Jumps = 0; (void)Jumps;
  auto Elapsed = [&](const std::string &Id) {
    uint64_t Want = M.Running.count(Id) ? ms(clockNow() - M.Running[Id]) : ms(M.Stopped[Id].second - M.Stopped[Id].first), Got = P.elapsedTime(Id); ++Meas;
    if (Got != Want) violation("perf:elapsed", "timer '" + Id + "' measured " + s(Want) + " ms but elapsedTime reports " + s(Got) + " ms");
  };
  auto PauseAll = [&] { // a timer that repeats is paused, not stopped, before the data is emitted
    for (auto &[Id, T] : std::map<std::string, uint64_t>(M.Running)) if (M.Rep.count(Id)) { P.stopTimer(Id, true); M.Rep[Id].push_back({T, clockNow()}); M.Running.erase(Id); }
  };
  auto StopAll = [&] { for (auto &[Id, T] : M.Running) M.Stopped[Id] = {T, clockNow()}; M.Running.clear(); };
  auto CheckRep = [&] {
    auto R = P.elapsedTimeOfRepeatingTimer(); size_t NR = 0;
    for (auto &E : R) { ++NR; auto It = M.Rep.find(E.first().str()); if (It == M.Rep.end()) violation("perf:repeating", "a repeating timer '" + E.first().str() + "' is reported that was never paused"); std::vector<uint64_t> W; for (auto &[A, B] : It->second) W.push_back(ms(B - A)); if (W != E.second) { std::string X, Y; for (auto V : W) X += " " + s(V); for (auto V : E.second) Y += " " + s(V); violation("perf:repeating", "the repeating timer '" + It->first + "' measured" + X + " ms but reports" + Y + " ms"); } }
    if (NR != M.Rep.size()) violation("perf:repeating", "a repeating timer is not reported"); Meas += NR;
  };
  for (int I = 0; I < N; ++I) {
    step(); pass(); std::string Id = ids(choose(GEN, NIds)); int K = choose(GEN, 16); ev(K); evs(Id); ev(clockNow());
    switch (K) {
    case 0: case 1: case 2: if (!M.Running.count(Id) && !M.Stopped.count(Id)) { P.startTimer(Id); M.Running[Id] = clockNow(); } break;
    case 3: if (M.Running.count(Id) && !M.Rep.count(Id)) { P.stopTimer(Id); M.Stopped[Id] = {M.Running[Id], clockNow()}; M.Running.erase(Id); } break;
    case 4: case 5: if (M.Running.count(Id)) { P.stopTimer(Id, true); M.Rep[Id].push_back({M.Running[Id], clockNow()}); M.Running.erase(Id); } break;
    case 6: if ((M.Running.count(Id) || M.Stopped.count(Id)) && !M.Rep.count(Id)) { P.resetTimer(Id); M.Running.erase(Id); M.Stopped.erase(Id); } break;
    case 7: case 8: if (M.Running.count(Id) || M.Stopped.count(Id)) Elapsed(Id); break;
    case 9: CheckRep(); break;
    case 10: { Id = "c" + s(choose(GEN, 3)); if (!M.Cnt.count(Id)) { unsigned V = choose(GEN, 3) ? choose(GEN, 100) : 0; P.regCounter(Id, V); M.Cnt[Id] = V; } break; }
    case 11: { Id = "c" + s(choose(GEN, 3)); if (M.Cnt.count(Id)) { unsigned V = choose(GEN, 4) ? choose(GEN, 1000) : 4000000000u; if (choose(GEN, 3)) { P.incCounter(Id, V); M.Cnt[Id] += V; } else { V = std::min(V, M.Cnt[Id]); P.decCounter(Id, V); M.Cnt[Id] -= V; } } break; }
    case 12: {
      std::set<std::string> Is; uint64_t W = 0; for (auto &[C, V] : M.Cnt) { auto G = P.getCounter(C); if (!G || *G != V) violation("perf:counter", "counter " + C + " is " + (G ? s(*G) : "missing") + " instead of " + s(V)); if (choose(GEN, 2)) { Is.insert(C); W += V; } }
      auto G = P.getSumCount(Is); if (!G || *G != W) violation("perf:counter", "the sum of counters is " + (G ? s(*G) : "missing") + " instead of " + s(W)); break; }
    case 13: { Id = "h" + s(choose(GEN, 2)); if (!M.Hist.count(Id)) { P.regHistogram(Id); M.Hist[Id]; } else { std::string D = s(choose(GEN, 4)); uint64_t V = 1 + choose(GEN, 5); if (choose(GEN, 3) == 1) V <<= choose(GEN, 45); P.addToHistogram(Id, D, V); M.Hist[Id][D] += V; } break; }
    case 14: { // RAII timer
      uint64_t T0 = clockNow(), End = 0; int Calls = 0; uint64_t Got = 0;
      { Timer A([&](std::chrono::nanoseconds D) { ++Calls; Got = (uint64_t)D.count(); }); pass(); if (choose(GEN, 2)) { Timer B = std::move(A); pass(); End = clockNow(); } else { pass(); End = clockNow(); } if (Calls) pass(); }
      if (Calls != 1) violation("perf:timer-calls", "the callback of a Timer is called " + s(Calls) + " times"); if (Got != End - T0) violation("perf:timer", "a Timer reports " + s(Got) + " ns after " + s(End - T0) + " ns"); ++Meas; break; }
    default: {
      if (choose(GEN, 4) == 0) { PauseAll(); std::string T; llvm::raw_string_ostream OS(T); P.printMeasuredData(OS); OS.flush(); StopAll();
        for (auto &[X, R] : M.Stopped) { ++Meas; std::string L = "\n" + X + " : " + hmsText(ms(R.second - R.first) * 1000000) + "\n"; if (T.find(L) == std::string::npos) violation("perf:printed-timer", "the printed data does not contain the line '" + L.substr(1, L.size() - 2) + "'"); }
        for (auto &[X, V] : M.Cnt) if (T.find("\n" + X + " : " + s(V) + "\n") == std::string::npos) violation("perf:printed-counter", X); 
        for (auto &[X, V] : M.Rep) { std::string L = X + " Timer:\n"; uint64_t Su = 0; for (auto &[A, B] : V) { L += s(ms(B - A)) + "\n"; Su += ms(B - A); } L += "===\n" + s(Su) + "\n"; if (T.find(L) == std::string::npos) violation("perf:printed-repeating", X); } break; }
      if (choose(GEN, 8) == 0) { P.reset(); M = Model(); break; }
      PauseAll(); bool WithM = choose(GEN, 2), WithD = choose(GEN, 2); std::vector<std::string> Ms = {"a.ll", "b.ll"}, Ds; if (choose(GEN, 2)) Ds.push_back("ifds-taint"); std::string Pr = choose(GEN, 2) ? "proj" : "p\"q";
      std::string Path = choose(GEN, 2) ? "/sim/out" : "/sim/out.json"; disk::Faults F; int Lvl = weighted(FAULT, {2, 1, 2}); F.Eintr = Lvl && chance(FAULT, 1, 2); F.Short = Lvl && chance(FAULT, 1, 2);
      if (Lvl == 2) switch (choose(FAULT, 3)) { case 0: F.OpenFail = 2; break; case 1: F.WriteFail = 2; break; default: F.Capacity = choose(FAULT, 400); }
      disk::faults(F); uint64_t F0 = disk::failed(); int R = 0; FatalArmed = true;
      if (setjmp(Fatal) == 0) { try { P.exportMeasuredData(Path, Pr, WithM ? &Ms : nullptr, WithD ? &Ds : nullptr); } catch (const std::exception &) { R = 1; } FatalArmed = false; } else R = 2;
      disk::faults({}); StopAll(); count(R == 0 ? "exports" : "exports-reported-failed"); ev(R);
      if (R && disk::failed() == F0) violation("perf:export-failed", "exportMeasuredData failed although no call to the system failed");
      if (R) { if (R == 2) endRun(); break; }
      auto C = disk::get("/sim/out.json"); if (!C) violation("perf:export-missing", "exportMeasuredData returned but the file does not exist");
      if (!nlohmann::json::accept(*C)) violation("perf:export-torn", "exportMeasuredData returned but the file is no complete JSON document");
      auto J = nlohmann::json::parse(*C); nlohmann::json W = nlohmann::json::object(); evs(*C);
      for (auto &[X, V] : M.Stopped) { ++Meas; W[X] = ms(V.second - V.first); } for (auto &[X, V] : M.Rep) { std::vector<uint64_t> Ts; for (auto &[A, B] : V) Ts.push_back(ms(B - A)); W[X] = Ts; }
      auto Norm = [](nlohmann::json X) { return X.is_null() ? nlohmann::json::object() : X; };
      if (Norm(J["Timer"]) != W) violation("perf:export-timers", "the exported timers are " + J["Timer"].dump() + " instead of " + W.dump());
      W = nlohmann::json::object(); for (auto &[X, V] : M.Cnt) W[X] = V; if (Norm(J["Counter"]) != W) violation("perf:export-counters", "the exported counters are " + J["Counter"].dump() + " instead of " + W.dump());
      W = nlohmann::json::object(); for (auto &[X, V] : M.Hist) { auto &H = W[X]; H = nlohmann::json::object(); for (auto &[A, B] : V) H[A] = B; }
      nlohmann::json GH = Norm(J.contains("Histogram") ? J["Histogram"] : nlohmann::json()); for (auto &E : GH) if (E.is_null()) E = nlohmann::json::object(); if (GH != W) violation("perf:export-histograms", "the exported histograms are " + GH.dump() + " instead of " + W.dump());
      auto &In = J["Info"]; if (In["Project-ID"] != Pr || (WithM ? !In.contains("Module(s)") || In["Module(s)"] != nlohmann::json(Ms) : In.contains("Module(s)")) || (WithD && (!In.contains("Data-flow analysis") || In["Data-flow analysis"] != nlohmann::json(Ds)))) violation("perf:export-info", In.dump());
    }
    }
    if (choose(GEN, 8) == 0) { uint64_t Ns = (uint64_t)choose(GEN, 1u << 30) * (1 + choose(GEN, 1u << 20)); checkHms(Ns, hms(std::chrono::nanoseconds(Ns)).str(), "hms"); checkHms(ms(Ns) * 1000000, PAMM::getPrintableDuration(ms(Ns)), "getPrintableDuration"); }
  }
  for (auto &[Id, T] : std::map<std::string, uint64_t>(M.Running)) { pass(); Elapsed(Id); } for (auto &[Id, T] : M.Stopped) Elapsed(Id); CheckRep();
  count("measurements", Meas); if (Meas > 2) nontrivial(); state(eventHash()); sample(s(Meas) + " measurements");
}
} // namespace

std::vector<Harness> sim::harnesses() {
  return {{"C15", "one run = one history of timer, counter, histogram and export operations on simulated time with adjustments of the wall clock and a faulty disk; non-trivial: more than two measurements are compared", "distinct runs (event hashes)", runC15, nullptr,
    {"PAMM", "Timer", "hms formatting", "nlohmann::json", "llvm::raw_fd_ostream"}, {"std::chrono clocks (simulated)", "system calls on the output file (simulated disk)"}, {"timers are used as documented (no start of a running or stopped timer, a repeating timer is only paused)"}, 200000, 3000000, 40, 800}};
}
