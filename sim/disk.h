// Simulated disk: files below /sim/ live in memory; system calls on them can be
// made to fail, be interrupted, transfer less than asked for, or be cut off by
// a simulated crash. Everything else goes to the real system.
#pragma once
#include <cstdint>
#include <optional>
#include <string>

namespace sim::disk {
struct Faults {
  bool Eintr = false, Short = false; // transparent to a correct program
  uint32_t OpenFail = 0, WriteFail = 0, ReadFail = 0, CloseFail = 0; // 1 in N per call; 0 = never
  uint64_t Capacity = ~0ull;         // bytes until the disk is full
};
void reset();
void faults(const Faults &F);
void put(const std::string &Path, const std::string &Content); // durable
std::optional<std::string> get(const std::string &Path);
void remove(const std::string &Path);
void crashAt(uint64_t Op);  // the Op-th mutating call from now (1 = next) and everything after it never reaches the disk; 0 = off
void powerLoss();           // what was not yet written back may be lost or torn (FAULT lane); files are closed
bool crashed();
uint64_t mutatingOps();
uint64_t failed();          // injected failures reported to the program so far
int openFds();
} // namespace sim::disk
