// Random LLVM-IR programs and a small deterministic interpreter for them.
#pragma once
#include "../sim/core.h"

#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"

#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace ir {

struct Opt {
  int MaxFns = 5, MaxBlocks = 5, MaxStmts = 6;
  bool Ptr = true;        // int* slots, pointer parameters, loads/stores through them
  bool PtrPtr = false;    // int* stored in slots (int**)
  bool Globals = true;    // global ints
  bool Indirect = true;   // function pointers through SSA values, local slots, arguments, returns
  bool FnTables = true;   // constant global tables of function pointers
  bool Virtual = true;    // class hierarchies with virtual calls
  bool Loops = true, Rec = true, Phi = true, Select = true;
  bool Taint = false;     // source()/sink() calls
  bool SrcArg = false;    // source through an out parameter
  bool Uninit = false;    // int slots without initial store
  bool Arith = true;      // add/sub/mul on ints
  bool Structs = false;   // struct objects with int fields
  bool Files = false;     // fopen/fclose/fread typestate calls
  bool Globinit = false;  // global constructors
  bool ConstBranch = false; // branches on data instead of input()
  bool PtrRet = false;    // functions returning int*
  bool Dbg = false;       // debug info and debug intrinsics
  bool GlobalArgs = true; // globals passed as int*
  bool Div = false;       // division and remainder by constants
  bool FileArgs = false, FileCopy = true; // files passed to functions; copied between slots
  bool Casts = false, IntPhi = false, BigConst = false; // integer casts and phis; constants near the limits
  bool MultiRet = false;  // several returns per function
  bool Switch = false, Invoke = false; // switch terminators; invoke/landingpad/resume
  bool VarArgs = false;   // direct calls to variadic functions (without va_list)
  bool Heap = false;      // malloc'ed ints
  bool NestTables = false; // nested constant tables, tables of tables, function pointers through i8* slots
  bool FpKinds = false;   // function pointers with pointer and function-pointer parameters
  bool PtrGlobals = false; // global int* initialised with global ints
  bool PCast = false;     // int* cast to i8* and back
  bool ChainOnly = false; // always two functions handing on a function pointer (FpKinds)
  bool DotNames = false;  // function names like f1.2
};
std::string generate(const Opt &O);

std::unique_ptr<llvm::Module> parse(const std::string &Text, llvm::LLVMContext &Ctx);
std::string locate(const llvm::Value *V); // "fn:idx" stable name

// ------------------------------------------------------------- interpreter
struct Val {
  enum K : uint8_t { Undef, Int, Ptr, Fn } Kind = Undef;
  int64_t I = 0;            // int value or byte offset
  int Obj = -1;             // object id
  const llvm::Function *F = nullptr;
  uint64_t Taint = 0;       // labels
  bool Uninit = false;      // derives from an uninitialised read
  bool operator<(const Val &O) const { return std::tie(Kind, I, Obj, F) < std::tie(O.Kind, O.I, O.Obj, O.F); }
  bool samePlace(const Val &O) const { return Kind == Ptr && O.Kind == Ptr && Obj == O.Obj && I == O.I; }
};
struct Obj { const llvm::Value *Site; std::map<int64_t, Val> Mem; bool Live = true; bool ZeroInit = false; int State = 0; };
struct Frame {
  const llvm::Function *F; const llvm::Instruction *PC; const llvm::BasicBlock *Prev = nullptr;
  std::map<const llvm::Value *, Val> Env; const llvm::CallBase *Site = nullptr; int Id = 0;
};
struct Observer {
  virtual ~Observer() = default;
  virtual void onStep(const Frame &, const llvm::Instruction *) {}                      // before execution
  virtual void onFlow(const llvm::Instruction *, const llvm::Instruction *) {}          // intra-procedural successor
  virtual void onCall(const llvm::CallBase *, const llvm::Function *, const std::vector<Val> &) {}  // before entering
  virtual void onReturn(const llvm::CallBase *, const llvm::Instruction *Exit, const llvm::Instruction *Next) {}
  virtual void onValue(const Frame &, const llvm::Value *, const Val &) {}              // value defined
  virtual void onLoad(const Frame &, const llvm::LoadInst *, const Val &) {}
  virtual void onStore(const Frame &, const llvm::StoreInst *, const Val &) {}
  virtual void onExtern(const Frame &, const llvm::CallBase *, const llvm::Function *, const std::vector<Val> &) {}
};
struct Interp {
  const llvm::Module &M; const llvm::DataLayout &DL; std::vector<Obj> Objs; std::vector<Frame> Stack;
  std::map<const llvm::GlobalVariable *, int> Globals; Observer *Ob = nullptr;
  bool Unwound = false; uint64_t Steps = 0, MaxSteps = 1500; size_t MaxDepth = 24; bool Truncated = false, Trapped = false, Overflowed = false;
  std::function<Val(Interp &, const llvm::CallBase *, const llvm::Function *, const std::vector<Val> &)> Extern;
  uint64_t NextLabel = 1; int NextFrame = 0;
  Interp(const llvm::Module &M, Observer *Ob);
  void run(const llvm::Function *F, const std::vector<Val> &Args = {});
  Val constant(const llvm::Constant *C);
  Val get(const llvm::Value *V);
  int globalObj(const llvm::GlobalVariable *G);
private:
  void initMem(int O, int64_t Off, const llvm::Constant *C);
};
} // namespace ir
