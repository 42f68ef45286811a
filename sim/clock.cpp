// Link-time replacement of the standard clocks: all reads of the code under
// test see simulated time.
#include "core.h"
#include <chrono>
namespace {
uint64_t Now = 1000000000ull * 3600; // ns
uint64_t Reads = 0;
int64_t Wall = 0; // what adjustments of the wall clock add up to
}
namespace sim {
void (*ClockReadHook)() = nullptr;
void clockAdvance(uint64_t Ns) { Now += Ns; addSimTime(Ns); }
void clockJumpWall(int64_t Ns) { Wall += Ns; }
uint64_t clockNow() { return Now; }
uint64_t clockReads() { return Reads; }
}
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  ++Reads; if (sim::ClockReadHook) sim::ClockReadHook();
  return time_point(duration(Now));
}
system_clock::time_point system_clock::now() noexcept {
  ++Reads; if (sim::ClockReadHook) sim::ClockReadHook();
  return time_point(duration(1700000000ull * 1000000000ull + Now + Wall));
}
}}}
