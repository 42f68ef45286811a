// Helpers shared by the harnesses that run PhASAR's LLVM-based parts.
#pragma once
#include "irgen.h"

#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"

#include "llvm/IR/InstIterator.h"
#include "llvm/Support/MemoryBuffer.h"

#include <map>
#include <set>
#include <string>

namespace lu {
// stable names "fn:idx", robust against instructions being added to other functions
struct Names {
  std::map<const llvm::Value *, std::string> N;
  explicit Names(const llvm::Module &M) { add(M); }
  void add(const llvm::Module &M) {
    for (auto &G : M.globals()) N[&G] = "@" + G.getName().str();
    for (auto &F : M) {
      N[&F] = "@" + F.getName().str(); unsigned I = 0;
      for (auto &A : F.args()) N[&A] = F.getName().str() + "(arg " + std::to_string(A.getArgNo()) + ")";
      for (auto &X : llvm::instructions(F)) { N[&X] = F.getName().str() + ":" + std::to_string(I++) + (X.hasName() ? "(%" + X.getName().str() + ")" : "(" + std::string(X.getOpcodeName()) + ")"); }
    }
  }
  std::string operator()(const llvm::Value *V) const {
    if (!V) return "null"; auto It = N.find(V); if (It != N.end()) return It->second;
    return ir::locate(V);
  }
};
void setPicker(bool Seeded); // worklist picks: seeded or shipped order
extern uint64_t NumPicks;
void warmLLVM();
std::unique_ptr<psr::LLVMProjectIRDB> makeDB(const std::string &Text, uint32_t LayoutSeed);
} // namespace lu
