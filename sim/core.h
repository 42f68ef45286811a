// Deterministic-simulation core: decisions, event log, run isolation.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace sim {

// Every decision of a run is drawn from one of these streams. A stream is
// either generated (PRNG from the run seed) or replayed from a trace.
enum Lane : int { GEN = 0, SCHED, FAULT, TIME, LAYOUT, NLANES };

// -- decisions -------------------------------------------------------------
uint32_t choose(Lane L, uint32_t N);               // [0, N)
uint32_t range(Lane L, uint32_t Lo, uint32_t Hi);  // [Lo, Hi]
bool chance(Lane L, uint32_t Num, uint32_t Den);   // 0 in the trace == false
// picks an index with the given weights; index 0 is the minimal choice
uint32_t weighted(Lane L, std::initializer_list<uint32_t> W);

// -- observations (never draw decisions, never read real clocks) -------------
void ev(uint64_t V);                 // event log (hashed)
void evs(const std::string &S);
void state(uint64_t H);              // distinct-state measure
void count(const char *Name, uint64_t N = 1);
void nontrivial();
void sample(const std::string &S);
void note(const char *Fmt, ...) __attribute__((format(printf, 1, 2)));
bool verbose();
void step(uint64_t N = 1);           // simulator steps; runaway -> violation
void setStepLimit(uint64_t N);
void addSimTime(uint64_t Ns);
uint64_t eventHash();

// -- verdict ---------------------------------------------------------------
// Ends the run. Sig identifies the kind of violation (stable, no addresses).
[[noreturn]] void violation(const std::string &Sig, const std::string &Msg);
[[noreturn]] void endRun();          // property held on this run
// The run was cut short for a reason which is not a verdict (counted)
[[noreturn]] void inconclusive(const char *Why);

const char *property();
bool thorough();

inline uint64_t mix(uint64_t H, uint64_t V) {
  H ^= V + 0x9e3779b97f4a7c15ull + (H << 6) + (H >> 2);
  H ^= H >> 31; H *= 0xbf58476d1ce4e5b9ull; H ^= H >> 27;
  return H;
}
inline uint64_t hashStr(const std::string &S) {
  uint64_t H = 1469598103934665603ull;
  for (unsigned char C : S) { H ^= C; H *= 1099511628211ull; }
  return H;
}

// -- harness description -----------------------------------------------------
struct Harness {
  const char *Property;
  const char *Rule;                       // what a run is / non-trivial
  const char *DistinctMeasure;            // what the distinct count counts
  void (*Run)();                          // one simulated run
  void (*WarmUp)();                       // once, in the parent, may be null
  std::vector<const char *> Real, Stub, Assumptions;
  uint64_t QuickRuns, ThoroughRuns;       // targets
  double QuickCapS, ThoroughCapS;         // wall-clock caps
  unsigned CpuLimitS = 20;                // per run
};
extern std::vector<Harness> harnesses();  // defined by each check

// -- arena (arena.cpp) -------------------------------------------------------
void arenaLayout(uint32_t Seed);          // 0: compact ascending placement
void arenaEnterRun();                     // separates a run from its driver
void allocFailAt(uint64_t K);             // K-th allocation from now throws; 0 = off
uint64_t allocCount();
bool allocFailed();                       // did the injected failure fire
struct NoFail { NoFail(); ~NoFail(); uint64_t Saved; };
uint64_t liveBytes();

// -- clock (clock.cpp) -------------------------------------------------------
void clockAdvance(uint64_t Ns);
void clockJumpWall(int64_t Ns);           // the wall clock is set; elapsed time is not affected
uint64_t clockNow();
extern void (*ClockReadHook)();           // called at each clock read
uint64_t clockReads();

} // namespace sim
