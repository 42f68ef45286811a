// Simulated threads: real threads of which exactly one runs at a time. The
// seeded scheduler may switch at every instrumented memory access, atomic
// operation, lock operation and allocation of the code under test (compiled
// with -fsanitize=thread, whose callbacks are implemented in threads.cpp).
// Vector clocks over the observed synchronisation find data races.
#pragma once
#include <cstdint>
#include <functional>

namespace sim::thr {
constexpr int MaxThreads = 6; // including the driver thread (0)
// Runs the bodies as threads 1..N until all have finished.
void run(std::initializer_list<std::function<void()>> Bodies);
void run(const std::vector<std::function<void()>> &Bodies);
int self();                 // 0 in the driver thread
struct Quiet { Quiet(); ~Quiet(); int Old; }; // oracle code: not scheduled, not tracked
uint64_t switches();
uint64_t accesses();
} // namespace sim::thr
