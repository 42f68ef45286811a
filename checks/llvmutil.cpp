#include "llvmutil.h"

#include "llvm/Support/raw_ostream.h"

namespace lu {
static bool Seeded = false;
uint64_t NumPicks = 0;
void setPicker(bool S) { Seeded = S; }
std::unique_ptr<psr::LLVMProjectIRDB> makeDB(const std::string &T, uint32_t Lay) {
  sim::arenaLayout(Lay);
  llvm::MemoryBufferRef B(T, "prog.ll");
  auto DB = std::make_unique<psr::LLVMProjectIRDB>(B);
  if (!DB->isValid()) { fprintf(stderr, "HARNESS: generated IR does not parse\n%s\n", T.c_str()); abort(); }
  return DB;
}
} // namespace lu

extern "C" size_t phasarSimPickNext(const char *WL, size_t N, size_t Def) {
  sim::step();
  if (!lu::Seeded || N < 2) return Def;
  ++lu::NumPicks; uint32_t C = sim::choose(sim::SCHED, N);
  sim::ev(C);
  return C == 0 ? Def : (C == Def ? 0 : C); // 0 in the trace = shipped order
}
