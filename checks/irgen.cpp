#include "irgen.h"

#include "llvm/AsmParser/Parser.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"

namespace ir {
using namespace sim;
namespace {
std::string s(int I) { return std::to_string(I); }

// kinds of functions
enum Sig { II, IP, PP, VIF, FV, IV, VI, OA, FA, VA, FW, NSig }; // i32(i32) i32(i32*) i32*(i32*) void(i32,fp) fp() i32() void(i32)
const char *FPT = "i32 (i32)*";
// further kinds of function pointers (Opt::FpKinds): type and signature of the targets
const char *KPT[2] = {"i32 (i32*)*", "void (i32, i32 (i32)*)*"}; const Sig KSig[2] = {IP, VIF};
struct Fn { int Id; Sig S; std::string Name; int C = -1; }; // C: class of the object parameter
struct Cls { int Id, Base; std::vector<int> VF; }; // VF: class id implementing each slot

struct Gen {
  const Opt &O; std::string Out; std::vector<Fn> Fns; std::vector<Cls> Cs; int NGlob = 0, NPG = 0, NTab = 0, NNest = 0, MD = 100; std::string Meta; std::vector<int> TabSz;
  Gen(const Opt &O) : O(O) {}
  uint32_t c(uint32_t N) { return choose(GEN, N); }
  bool p(uint32_t A, uint32_t B) { return chance(GEN, A, B); }

  static std::string cname(int C) { return std::string(1, char('A' + C)); }
  static std::string ty(int C) { return "%class." + cname(C); }
  static std::string mang(int C, int V) { return "_ZN1" + cname(C) + "2v" + s(V) + "Ev"; }

  std::string proto(const Fn &F, bool Names) {
    auto N = [&](const char *X) { return Names ? std::string(" ") + X : std::string(); };
    switch (F.S) {
    case II: return "i32 @" + F.Name + "(i32" + N("%a0") + ")";
    case IP: return "i32 @" + F.Name + "(i32*" + N("%p0") + ")";
    case PP: return "i32* @" + F.Name + "(i32*" + N("%p0") + ")";
    case VIF: return "void @" + F.Name + "(i32" + N("%a0") + ", " + FPT + N("%f0") + ")";
    case FV: return std::string(FPT) + " @" + F.Name + "()";
    case FW: return std::string(KPT[1]) + " @" + F.Name + "()";
    case IV: return "i32 @" + F.Name + "()";
    case VI: return "void @" + F.Name + "(i32" + N("%a0") + ")";
    case VA: return "i32 @" + F.Name + "(i32" + N("%a0") + ", ...)";
    case FA: return "void @" + F.Name + "(%struct._IO_FILE*" + N("%fa") + ")";
    case OA: return "i32 @" + F.Name + "(" + ty(F.C) + "*" + N("%ob") + ")";
    default: return "";
    }
  }
  const Fn *pick(Sig S, int From) {
    std::vector<const Fn *> V; for (auto &F : Fns) if (F.S == S && (O.Rec || F.Id > From)) V.push_back(&F);
    if (V.empty()) return nullptr; return V[c(V.size())];
  }
  const Fn *pickUp(Sig S) { // prefers a function that is generated later (no recursion)
    std::vector<const Fn *> V; for (auto &F : Fns) if (F.S == S && Me && F.Id > Me->Id) V.push_back(&F);
    return V.empty() || p(1, 8) ? pick(S, Me ? Me->Id : -1) : V[c(V.size())];
  }
  const Fn *pickLater(Sig S) { std::vector<const Fn *> V; for (auto &F : Fns) if (F.S == S && F.Id > Me->Id) V.push_back(&F); return V.empty() ? nullptr : V[c(V.size())]; }
  // ---- body of one function
  std::string B; int NV = 0; std::vector<std::string> IntP, PSlot, FSlot; std::vector<std::pair<int, std::string>> ObjSlot; // static class
  std::vector<std::string> Structs, FileSlots, CSlot, KSlot[2]; const Fn *Me = nullptr;
  std::vector<std::string> PEntry; // pointers valid everywhere: allocas, args, globals
  std::string v() { return "%v" + s(NV++); }
  void ln(const std::string &X) { B += "  " + X + "\n"; }
  std::string intv() { // an int operand
    switch (c(4)) {
    case 0: return s((int)c(7));
    case 1: if (Me && (Me->S == II || Me->S == VIF || Me->S == VI || Me->S == VA)) return "%a0"; [[fallthrough]];
    default: { std::string X = v(); ln(X + " = load i32, i32* " + intp()); return X; }
    }
  }
  std::string intp() { // a pointer to int usable here
    if (O.PtrPtr && !PSlot.empty() && p(1, 4)) { std::string X = v(); ln(X + " = load i32*, i32** " + PSlot[c(PSlot.size())]); return X; }
    if (O.Structs && !Structs.empty() && p(1, 5)) { std::string X = v(); ln(X + " = getelementptr inbounds %struct.S, %struct.S* " + Structs[c(Structs.size())] + ", i32 0, i32 " + s(c(2))); return X; }
    if (O.Globals && NGlob && p(1, 5)) return "@g" + s(c(NGlob));
    if (NPG && p(1, 6)) { std::string X = v(); ln(X + " = load i32*, i32** @pg" + s(c(NPG))); return X; }
    if (O.PCast && p(1, 8)) { std::string X = intp(), Y = v(); ln(Y + " = bitcast i32* " + X + " to i8*"); if (p(1, 2)) return X; std::string Z = v(); ln(Z + " = bitcast i8* " + Y + " to i32*"); return Z; }
    if (O.Ptr && Me && (Me->S == IP || Me->S == PP) && p(1, 4)) return "%p0";
    if (!HeapP.empty() && p(1, 4)) return HeapP;
    return IntP[c(IntP.size())];
  }
  std::string HeapP; bool HasFW = false; int ChainPos = 0;
  std::string ptrarg() { for (;;) { std::string X = intp(); if (O.GlobalArgs || X[0] != '@') return X; } }
  std::string fpv() { // a function pointer value
    if (O.FpKinds && Me && Me->S == VIF && p(1, 3)) return "%f0";
    uint32_t K = c(O.NestTables ? 9 : 6);
    if (K == 6 && NNest) { int T = c(NNest); std::string G = v(), X = v(), TY = "{ [2 x " + std::string(FPT) + "], " + FPT + ", i32 }"; uint32_t Ix = c(3); ln(G + " = getelementptr inbounds " + TY + ", " + TY + "* @nt" + s(T) + ", i64 0, i32 " + (Ix < 2 ? "0, i64 " + s(Ix) : std::string("1"))); ln(X + " = load " + FPT + ", " + FPT + "* " + G); return X; }
    if (K == 7 && !CSlot.empty()) { std::string L = v(), X = v(); ln(L + " = load i8*, i8** " + CSlot[c(CSlot.size())]); ln(X + " = bitcast i8* " + L + " to " + FPT); return X; }
    if (K == 0 && Me && Me->S == VIF) return "%f0";
    if (K == 1 && !FSlot.empty()) { std::string X = v(); ln(X + " = load " + FPT + ", " + FPT + "* " + FSlot[c(FSlot.size())]); return X; }
    if (K == 2) if (auto *F = pick(FV, Me ? Me->Id : -1)) { std::string X = v(); ln(X + " = call " + FPT + " @" + F->Name + "()"); return X; }
    if (K == 3 && O.FnTables && NTab) { int T = c(NTab); std::string G = v(), X = v(); ln(G + " = getelementptr inbounds [" + s(TabSz[T]) + " x " + FPT + "], [" + s(TabSz[T]) + " x " + FPT + "]* @t" + s(T) + ", i64 0, i64 " + s(c(TabSz[T]))); ln(X + " = load " + FPT + ", " + FPT + "* " + G); return X; }
    if (K == 4 && O.Select) { auto A = pick(II, -1), A2 = pick(II, -1); if (A && A2) { std::string C = v(), X = v(), I = v(); ln(I + " = call i32 @input()"); ln(C + " = icmp eq i32 " + I + ", 0"); ln(X + " = select i1 " + C + ", " + FPT + " @" + A->Name + ", " + FPT + " @" + A2->Name); return X; } }
    std::vector<const Fn *> V; for (auto &F : Fns) if (F.S == II && (O.Rec || F.Id > (Me ? Me->Id : -1))) V.push_back(&F);
    if (V.empty() || p(1, 8)) return "@ext"; return "@" + V[c(V.size())]->Name;
  }
  std::string fpk(int K) { // a function pointer value of a further kind; empty if there is none
    auto Target = [&]() -> std::string { std::vector<const Fn *> V; for (auto &F : Fns) if (F.S == KSig[K] && (O.Rec || F.Id > (Me ? Me->Id : -1))) V.push_back(&F); if (K == 0 && (V.empty() || p(1, 4))) return "@extp"; return V.empty() ? "" : "@" + V[c(V.size())]->Name; };
    uint32_t W = c(6);
    if (W <= 1 && !KSlot[K].empty()) { std::string X = v(); ln(X + " = load " + std::string(KPT[K]) + ", " + KPT[K] + "* " + KSlot[K][c(KSlot[K].size())]); return X; }
    if (W == 2 && O.Select) { std::string A = Target(), B2 = Target(); if (!A.empty() && !B2.empty()) { std::string I = v(), C = v(), X = v(); ln(I + " = call i32 @input()"); ln(C + " = icmp eq i32 " + I + ", 0"); ln(X + " = select i1 " + C + ", " + KPT[K] + " " + A + ", " + KPT[K] + " " + B2); return X; } }
    if (K == 1 && (W >= 4 || (Me && Me->Id == 0))) if (auto *F = Me && Me->S == FW && p(3, 4) ? pickLater(FW) : pickUp(FW)) { std::string X = v(); ln(X + " = call " + std::string(KPT[1]) + " @" + F->Name + "()"); return X; }
    return Target();
  }
  void storeInt(const std::string &V) { ln("store i32 " + V + ", i32* " + intp()); }
  std::string dispatchArgs(const Fn &F) {
    switch (F.S) { case VA: { std::string R = "i32 " + intv(); if (p(2, 3)) { std::string A = intv(); R += ", i32 " + A; } if (O.Ptr && p(1, 2)) { std::string A = ptrarg(); R += ", i32* " + A; } return R; } case II: case VI: return "i32 " + intv(); case IP: case PP: return "i32* " + ptrarg(); case VIF: { std::string A = intv(); return "i32 " + A + ", " + FPT + " " + fpv(); } case OA: return ty(F.C) + "* " + objv(F.C); case FA: { std::string L = v(); ln(L + " = load %struct._IO_FILE*, %struct._IO_FILE** " + FileSlots[c(FileSlots.size())]); return "%struct._IO_FILE* " + L; } default: return ""; }
  }
  void vcall() {
    if (ObjSlot.empty()) return;
    auto &[C, Sl] = ObjSlot[c(ObjSlot.size())]; auto &K = Cs[C]; if (K.VF.empty()) return;
    int Ix = c(K.VF.size()); std::string T = ty(C), Ob = v(), BC = v(), VT = v(), G = v(), F = v(), R = v();
    std::string FT = "i32 (" + T + "*)*";
    ln(Ob + " = load " + T + "*, " + T + "** " + Sl);
    ln(BC + " = bitcast " + T + "* " + Ob + " to " + FT + "**");
    ln(VT + " = load " + FT + "*, " + FT + "** " + BC);
    ln(G + " = getelementptr inbounds " + FT + ", " + FT + "* " + VT + ", i64 " + s(Ix));
    ln(F + " = load " + FT + ", " + FT + "* " + G);
    ln(R + " = call i32 " + F + "(" + T + "* " + Ob + ")");
    storeInt(R);
  }
  std::string mkobj(int Static) { // creates an object of a subclass, upcast to Static
    std::vector<int> Sub; for (auto &K : Cs) { int X = K.Id; while (X >= 0 && X != Static) X = Cs[X].Base; if (X == Static) Sub.push_back(K.Id); }
    int D = Sub[c(Sub.size())]; std::string A = v();
    EntryAlloca += "  " + A + " = alloca " + ty(D) + "\n";
    ln("call void @_ZN1" + cname(D) + "C2Ev(" + ty(D) + "* " + A + ")");
    std::string Cur = A; int X = D;
    if (X != Static) { std::string Nx = v(); ln(Nx + " = bitcast " + ty(D) + "* " + Cur + " to " + ty(Static) + "*"); Cur = Nx; }
    return Cur;
  }
  std::string objv(int C) { // an object pointer of static class C
    std::vector<std::pair<int, std::string>> V; for (auto &X : ObjSlot) { int K = X.first; while (K >= 0 && K != C) K = Cs[K].Base; if (K == C) V.push_back(X); }
    if (V.empty() || p(1, 3)) return mkobj(C);
    auto &[K, Sl] = V[c(V.size())]; std::string X = v(); ln(X + " = load " + ty(K) + "*, " + ty(K) + "** " + Sl);
    if (K != C) { std::string Y = v(); ln(Y + " = bitcast " + ty(K) + "* " + X + " to " + ty(C) + "*"); return Y; }
    return X;
  }
  std::string EntryAlloca; bool Used = false;
  void stmt() {
    std::vector<int> K = {0, 0, 1, 1, 2, 3};
    if (O.Arith) { K.push_back(4); K.push_back(4); }
    if (O.PtrPtr && !PSlot.empty()) { K.push_back(5); K.push_back(5); }
    if (O.Indirect) { K.push_back(6); K.push_back(7); K.push_back(7); if (!FSlot.empty()) K.push_back(8); }
    if (O.Indirect && O.FpKinds) { K.push_back(17); K.push_back(18); K.push_back(19); if (HasFW) { K.push_back(18); K.push_back(18); } }
    if (!ObjSlot.empty()) { K.push_back(9); K.push_back(9); K.push_back(10); }
    if (O.Taint) { for (int I = 0; I < 4; ++I) { K.push_back(11); K.push_back(12); } }
    if (O.Files && !FileSlots.empty()) { for (int I = 0; I < 4; ++I) K.push_back(13 + I); K.push_back(14); }
    if (O.Rec || true) { K.push_back(2); }
    int X = K[c(K.size())];
    switch (X) {
    case 0: if (O.BigConst && p(1, 4)) { static const char *Ks[] = {"2147483647", "-2147483648", "2147483640", "65535", "-2147483647", "255"}; storeInt(Ks[c(6)]); break; } storeInt(s((int)c(9) - 2)); break;
    case 1: { std::string A = intv(); storeInt(A); break; }
    case 2: { // direct call
      std::vector<const Fn *> V; for (auto &F : Fns) if (O.Rec || F.Id > Me->Id) V.push_back(&F);
      if (V.empty()) break; const Fn &F = *V[c(V.size())]; std::string A = dispatchArgs(F);
      if (F.S == VIF || F.S == VI || F.S == FA) { ln("call void @" + F.Name + "(" + A + ")"); break; }
      std::string R = v();
      if (F.S == PP) { ln(R + " = call i32* @" + F.Name + "(" + A + ")"); if (O.PtrPtr && !PSlot.empty()) ln("store i32* " + R + ", i32** " + PSlot[c(PSlot.size())]); else { std::string L = v(); ln(L + " = load i32, i32* " + R); storeInt(L); } }
      else if (F.S == FW) { ln(R + " = call " + KPT[1] + " @" + F.Name + "()"); if (!KSlot[1].empty()) ln("store " + std::string(KPT[1]) + " " + R + ", " + KPT[1] + "* " + KSlot[1][c(KSlot[1].size())]); else { std::string A2 = intv(), G = fpv(); ln("call void " + R + "(i32 " + A2 + ", " + FPT + " " + G + ")"); } }
      else if (F.S == FV) { ln(R + " = call " + FPT + " @" + F.Name + "()"); if (!FSlot.empty()) ln("store " + std::string(FPT) + " " + R + ", " + FPT + "* " + FSlot[c(FSlot.size())]); }
      else { ln(R + " = call i32 " + (F.S == VA ? "(i32, ...) @" : "@") + F.Name + "(" + A + ")"); storeInt(R); }
      break; }
    case 3: { if (O.Casts && p(2, 3)) { std::string A = intv(), T = v(), R = v(); switch (c(3)) { case 0: ln(T + " = trunc i32 " + A + " to i8"); ln(R + " = " + (p(1, 2) ? "zext" : "sext") + " i8 " + T + " to i32"); break; case 1: ln(T + " = sext i32 " + A + " to i64"); ln(R + " = trunc i64 " + T + " to i32"); break; default: ln(T + " = icmp slt i32 " + A + ", " + s((int)c(4))); ln(R + " = select i1 " + T + ", i32 " + intv() + ", i32 " + s((int)c(4))); } storeInt(R); break; }
      std::string R = v(); ln(R + " = call i32 @input()"); storeInt(R); break; }
    case 4: { if (O.Div && p(1, 4)) { static const char *Ds[] = {"sdiv", "udiv", "srem", "urem"}; std::string A = intv(), R = v(); ln(R + " = " + Ds[c(4)] + " i32 " + A + ", " + s((int)c(5) + 1)); storeInt(R); break; }
      static const char *Ops[] = {"add", "sub", "mul"};
      if ((Me->S == II || Me->S == VA) && p(1, 4)) { std::string R = v(); ln(R + " = " + Ops[c(3)] + " i32 " + s((int)c(8)) + ", %a0"); ln("store i32 " + R + ", i32* " + IntP[0]); break; }
      std::string A = intv(), C2 = p(1, 2) ? s((int)c(6) - 1) : intv(), R = v(); ln(R + " = " + Ops[c(3)] + " i32 " + A + ", " + C2); storeInt(R); break; }
    case 5: { std::string A = ptrarg(); ln("store i32* " + A + ", i32** " + PSlot[c(PSlot.size())]); break; }
    case 6: case 7: { std::string F = fpv(), A = intv(), R = v(); ln(R + " = call i32 " + F + "(i32 " + A + ")"); storeInt(R); break; }
    case 8: { if (!CSlot.empty() && p(1, 2)) { if (p(1, 2)) if (auto *T = pick(II, Me->Id)) { ln("store i8* bitcast (" + std::string(FPT) + " @" + T->Name + " to i8*), i8** " + CSlot[c(CSlot.size())]); break; } std::string F = fpv(), X = v(); ln(X + " = bitcast " + FPT + " " + F + " to i8*"); ln("store i8* " + X + ", i8** " + CSlot[c(CSlot.size())]); break; }
      std::string F = fpv(); ln("store " + std::string(FPT) + " " + F + ", " + FPT + "* " + FSlot[c(FSlot.size())]); break; }
    case 17: { std::string F = fpk(0), A = ptrarg(), R = v(); bool Around = O.Taint && p(1, 2); // taint before and a sink behind, through the same pointer
      if (Around) { std::string S = v(); ln(S + " = call i32 @source()"); ln("store i32 " + S + ", i32* " + A); }
      ln(R + " = call i32 " + F + "(i32* " + A + ")"); if (Around) { std::string L = v(); ln(L + " = load i32, i32* " + A); ln("call void @sink(i32 " + L + ")"); } storeInt(R); break; }
    case 18: { std::string F = fpk(1); if (F.empty()) break; std::string A = intv(), G = fpv(); ln("call void " + F + "(i32 " + A + ", " + FPT + " " + G + ")"); break; }
    case 19: { int Kd = c(2); if (KSlot[Kd].empty()) break; std::string F = fpk(Kd); if (!F.empty()) ln("store " + std::string(KPT[Kd]) + " " + F + ", " + KPT[Kd] + "* " + KSlot[Kd][c(KSlot[Kd].size())]); break; }
    case 9: vcall(); break;
    case 10: { auto Sl = ObjSlot[c(ObjSlot.size())]; std::string Ob = mkobj(Sl.first); ln("store " + ty(Sl.first) + "* " + Ob + ", " + ty(Sl.first) + "** " + Sl.second); break; }
    case 11: { if (O.SrcArg && p(1, 3)) { ln("call void @fill(i32* " + ptrarg() + ")"); break; } std::string R = v(); ln(R + " = call i32 @source()"); storeInt(R); break; }
    case 12: { std::string A; if (p(1, 6)) A = intv(); else { A = v(); ln(A + " = load i32, i32* " + intp()); } ln("call void @sink(i32 " + A + ")"); break; }
    case 13: { std::string R = v(); ln(R + " = call %struct._IO_FILE* @fopen(i8* null, i8* null)"); ln("store %struct._IO_FILE* " + R + ", %struct._IO_FILE** " + FileSlots[FileSlots[0] == "%h9" ? 1 + c(FileSlots.size() - 1) : c(FileSlots.size())]); break; }
    case 14: { std::string L = v(), R = v(); ln(L + " = load %struct._IO_FILE*, %struct._IO_FILE** " + FileSlots[c(FileSlots.size())]); ln(R + " = call i32 @fclose(%struct._IO_FILE* " + L + ")"); break; }
    case 15: { std::string L = v(), R = v(); ln(L + " = load %struct._IO_FILE*, %struct._IO_FILE** " + FileSlots[c(FileSlots.size())]); ln(R + " = call i32 @fgetc(%struct._IO_FILE* " + L + ")"); break; }
    case 16: { std::string L = v(); ln(L + " = load %struct._IO_FILE*, %struct._IO_FILE** " + FileSlots[c(FileSlots.size())]); if (O.FileCopy) ln("store %struct._IO_FILE* " + L + ", %struct._IO_FILE** " + FileSlots[c(FileSlots.size())]); break; }
    }
  }
  void body(const Fn &F) {
    Me = &F; B.clear(); NV = 0; IntP.clear(); PSlot.clear(); FSlot.clear(); ObjSlot.clear(); EntryAlloca.clear(); Structs.clear(); FileSlots.clear(); CSlot.clear(); KSlot[0].clear(); KSlot[1].clear();
    int NI = range(GEN, 1, 3); std::string Init;
    for (int I = 0; I < NI; ++I) { std::string A = "%i" + s(I); EntryAlloca += "  " + A + " = alloca i32\n"; IntP.push_back(A); if (!O.Uninit || p(1, 2)) Init += "  store i32 " + s(c(5)) + ", i32* " + A + "\n"; }
    if (O.PtrPtr) { int N = c(3); for (int I = 0; I < N; ++I) { std::string A = "%q" + s(I); EntryAlloca += "  " + A + " = alloca i32*\n"; PSlot.push_back(A); Init += "  store i32* " + IntP[c(IntP.size())] + ", i32** " + A + "\n"; } }
    if (O.Structs && p(1, 2)) { std::string A = "%s0"; EntryAlloca += "  %s0 = alloca %struct.S\n"; Structs.push_back(A); if (!O.Uninit) for (int I = 0; I < 2; ++I) { Init += "  %sg" + s(I) + " = getelementptr inbounds %struct.S, %struct.S* %s0, i32 0, i32 " + s(I) + "\n  store i32 0, i32* %sg" + s(I) + "\n"; } }
    if (O.Indirect) { int N = c(3); for (int I = 0; I < N; ++I) { std::string A = "%fs" + s(I); EntryAlloca += "  " + A + " = alloca " + FPT + "\n"; FSlot.push_back(A); auto *T = pick(II, F.Id); Init += "  store " + std::string(FPT) + " @" + (T ? T->Name : "ext") + ", " + FPT + "* " + A + "\n"; } }
    if (O.Indirect && O.NestTables && !FSlot.empty() && p(1, 2)) { EntryAlloca += "  %cs0 = alloca i8*\n"; CSlot.push_back("%cs0"); auto *T = pick(II, F.Id); Init += "  store i8* bitcast (" + std::string(FPT) + " @" + (T ? T->Name : "ext") + " to i8*), i8** %cs0\n"; }
    if (O.Indirect && O.FpKinds) for (int K = 0; K < 2; ++K) if (p(1, 2)) { auto *T = pick(KSig[K], F.Id); if (K && !T) continue; std::string A = "%ks" + s(K); EntryAlloca += "  " + A + " = alloca " + KPT[K] + "\n"; KSlot[K].push_back(A); Init += "  store " + std::string(KPT[K]) + " @" + (T ? T->Name : "extp") + ", " + KPT[K] + "* " + A + "\n"; }
    if (O.Heap && p(1, 2)) { Init += "  %mh = call i8* @malloc(i64 4)\n  %mp = bitcast i8* %mh to i32*\n"; if (!O.Uninit) Init += "  store i32 " + s(c(5)) + ", i32* %mp\n"; HeapP = "%mp"; } else HeapP.clear();
    if (O.Files) { int N = range(GEN, 1, 2); if (F.S == FA) { EntryAlloca += "  %h9 = alloca %struct._IO_FILE*\n"; Init += "  store %struct._IO_FILE* %fa, %struct._IO_FILE** %h9\n"; FileSlots.push_back("%h9"); } for (int I = 0; I < N; ++I) { std::string A = "%h" + s(I); EntryAlloca += "  " + A + " = alloca %struct._IO_FILE*\n"; FileSlots.push_back(A); Init += "  %hi" + s(I) + " = call %struct._IO_FILE* @fopen(i8* null, i8* null)\n  store %struct._IO_FILE* %hi" + s(I) + ", %struct._IO_FILE** " + A + "\n"; } }
    std::string Pre;
    if (F.S == OA) { EntryAlloca += "  %os = alloca " + ty(F.C) + "*\n"; Init += "  store " + ty(F.C) + "* %ob, " + ty(F.C) + "** %os\n"; ObjSlot.push_back({F.C, "%os"}); }
    if (!Cs.empty() && p(1, 2)) { int N = range(GEN, 1, 2); for (int I = 0; I < N; ++I) { int C = c(Cs.size()); std::string A = "%o" + s(I); EntryAlloca += "  " + A + " = alloca " + ty(C) + "*\n"; std::string Ob = mkobj(C); ln("store " + ty(C) + "* " + Ob + ", " + ty(C) + "** " + A); ObjSlot.push_back({C, A}); } }
    if (O.Ptr && O.PtrPtr && !PSlot.empty() && (F.S == IP || F.S == PP) && p(1, 2)) Init += "  store i32* %p0, i32** " + PSlot[c(PSlot.size())] + "\n";
    Pre = B; B.clear();
    int NB = range(GEN, 1, O.MaxBlocks); std::vector<std::vector<int>> Succ(NB); std::vector<bool> IsSw(NB); std::vector<int> Inv(NB); auto PL = [&](int J) { return std::string(Inv[J] ? "%n" : "%b") + s(J); };
    for (int I = 0; I + 1 < NB; ++I) {
      if (O.MultiRet && I > 0 && p(1, 6)) Succ[I] = {};
      else if (O.Switch && I + 2 < NB && p(1, 5)) { Succ[I] = {I + 1}; std::set<int> Ts; for (int K = range(GEN, 1, 3); K > 0; --K) Ts.insert(O.Loops && I > 0 && p(1, 5) ? 1 + (int)c(I) : I + 1 + (int)c(NB - I - 1)); for (int T : Ts) if (T != I + 1) Succ[I].push_back(T); if (Succ[I].size() == 1) Succ[I].push_back(I + 2); IsSw[I] = true; }
      else if (O.Invoke && p(1, 5)) { Succ[I] = {I + 1}; Inv[I] = 1 + c(3); }
      else if (p(2, 5)) Succ[I] = {I + 1};
      else { int T = O.Loops && I > 0 && p(1, 4) ? 1 + (int)c(I) : I + 1 + (int)c(NB - I - 1); Succ[I] = {I + 1, T}; if (T == I + 1) Succ[I] = {I + 1}; }
    }
    std::vector<std::vector<int>> Pred(NB); for (int I = 0; I < NB; ++I) for (int T : Succ[I]) Pred[T].push_back(I);
    std::string Body;
    for (int I = 0; I < NB; ++I) {
      B.clear(); std::string Phis;
      if (O.Phi && Pred[I].size() >= 2 && p(1, 3)) {
        std::string X = v(); Phis = "  " + X + " = phi i32* ";
        for (size_t J = 0; J < Pred[I].size(); ++J) Phis += std::string(J ? ", " : "") + "[ " + IntP[c(IntP.size())] + ", " + PL(Pred[I][J]) + " ]";
        Phis += "\n"; std::string L = v(); ln(L + " = load i32, i32* " + X); storeInt(L);
      }
      if (O.IntPhi && Pred[I].size() >= 2 && p(1, 3)) {
        std::string X = v(); Phis += "  " + X + " = phi i32 ";
        for (size_t J = 0; J < Pred[I].size(); ++J) Phis += std::string(J ? ", " : "") + "[ " + s((int)c(3)) + ", " + PL(Pred[I][J]) + " ]";
        Phis += "\n"; storeInt(X);
      }
      if (ChainPos && I == 0 && p(3, 4)) {
        if (F.Id == 0) { std::string X = v(), A = intv(); auto *T = pickLater(II); ln(X + " = call " + KPT[1] + " @" + Fns[ChainPos].Name + "()"); ln("call void " + X + "(i32 " + A + ", " + FPT + " " + (T ? "@" + T->Name : fpv()) + ")"); }
        if (F.Id == ChainPos + 2) { std::string A = intv(), R = v(); ln(R + " = call i32 %f0(i32 " + A + ")"); storeInt(R); }
      }
      if (O.FpKinds && I == 0 && F.S == IP && p(1, 3)) ln("store i32 " + s((int)c(7)) + ", i32* %p0");
      int NS = c(O.MaxStmts + 1); for (int J = 0; J < NS; ++J) stmt();
      if (Succ[I].empty()) {
        switch (F.S) {
        case II: case IP: case IV: case OA: case VA: ln("ret i32 " + intv()); break;
        case PP: { std::string X = p(1, 2) ? std::string("%p0") : O.Globals && NGlob ? "@g" + s(c(NGlob)) : std::string("%p0"); ln("ret i32* " + X); break; }
        case FW: if (ChainPos && p(3, 4) && F.Id == ChainPos) { std::string X = v(); ln(X + " = call " + std::string(KPT[1]) + " @" + Fns[ChainPos + 1].Name + "()"); ln("ret " + std::string(KPT[1]) + " " + X); break; }
          if (ChainPos && p(3, 4) && F.Id == ChainPos + 1) { ln("ret " + std::string(KPT[1]) + " @" + Fns[ChainPos + 2].Name); break; }
          { std::string X = fpk(1); ln("ret " + std::string(KPT[1]) + " " + (X.empty() ? "null" : X)); break; }
        case FV: { std::string X = fpv(); ln("ret " + std::string(FPT) + " " + X); break; }
        default: ln("ret void");
        }
      } else if (Inv[I]) { // 1: result used, landing pad resumes; 2: landing pad catches; 3: defined callee
        bool Ext = Inv[I] != 3; const Fn *T = Ext ? nullptr : pick(II, Me->Id); std::string A = intv(), R = v(); std::string Tgt = T ? T->Name : "ext"; Used = true;
        ln(R + " = invoke i32 @" + Tgt + "(i32 " + A + ") to label %n" + s(I) + " unwind label %l" + s(I));
        std::string L = v(); std::string Keep = B; B.clear(); bool Catch = Inv[I] == 2;
        if (!Catch) storeInt(R);
        ln("br label %b" + s(Succ[I][0])); std::string NBlk = B; B.clear();
        ln(L + " = landingpad { i8*, i32 } cleanup"); if (p(1, 2)) stmt();
        ln(Catch ? "br label %n" + s(I) : "resume { i8*, i32 } " + L); std::string LBlk = B;
        B = Keep + "n" + s(I) + ":\n" + NBlk + "l" + s(I) + ":\n" + LBlk;
      } else if (Succ[I].size() == 1) ln("br label %b" + s(Succ[I][0]));
      else if (IsSw[I]) {
        std::string X; if (O.ConstBranch && p(1, 3)) X = intv(); else { X = v(); ln(X + " = call i32 @input()"); }
        std::string L = "switch i32 " + X + ", label %b" + s(Succ[I][0]) + " ["; for (size_t J = 1; J < Succ[I].size(); ++J) L += " i32 " + s(J - 1) + ", label %b" + s(Succ[I][J]); ln(L + " ]");
      }
      else {
        std::string X, C = v();
        if (O.ConstBranch && p(1, 3)) X = intv(); else { X = v(); ln(X + " = call i32 @input()"); }
        ln(C + " = icmp " + (p(1, 2) ? "eq" : "slt") + " i32 " + X + ", " + s(c(4)));
        ln("br i1 " + C + ", label %b" + s(Succ[I][0]) + ", label %b" + s(Succ[I][1]));
      }
      Body += "b" + s(I) + ":\n" + Phis + B;
    }
    // entry block: every alloca, initial stores, then jump to b0
    std::string Txt = "entry:\n" + EntryAlloca + Init + Pre + "  br label %b0\n" + Body, At;
    if (Used) At += " personality i8* bitcast (i32 (...)* @__gxx_personality_v0 to i8*)";
    if (O.Dbg && p(2, 3)) { // debug intrinsics at seeded places; every call needs a location
      int D = MD; MD += 3; Meta += "!" + s(D) + " = distinct !DISubprogram(name: \"" + F.Name + "\", scope: !2, file: !2, line: 1, type: !3, spFlags: DISPFlagDefinition, unit: !0, retainedNodes: !4)\n!" + s(D + 1) + " = !DILocalVariable(name: \"x\", scope: !" + s(D) + ", file: !2, line: 1, type: !5)\n!" + s(D + 2) + " = !DILocation(line: 1, scope: !" + s(D) + ")\n";
      At += " !dbg !" + s(D); std::string R; size_t Pos = 0; bool AfterLabel = false;
      while (Pos < Txt.size()) {
        size_t E = Txt.find('\n', Pos); std::string L = Txt.substr(Pos, E - Pos); Pos = E + 1; bool Label = !L.empty() && L[0] != ' ', Phi = L.find(" = phi ") != std::string::npos || L.find("landingpad") != std::string::npos;
        if (!Label && !Phi && p(1, AfterLabel ? 3 : 8)) for (int K = range(GEN, 1, 2); K > 0; --K) R += "  call void @llvm.dbg.value(metadata i32 0, metadata !" + s(D + 1) + ", metadata !DIExpression()), !dbg !" + s(D + 2) + "\n";
        if (L.find("call ") != std::string::npos || L.find("invoke ") != std::string::npos) L += ", !dbg !" + s(D + 2);
        R += L + "\n"; AfterLabel = Label || (AfterLabel && Phi);
      }
      Txt = R;
    }
    Used = false;
    Out += "define " + proto(F, true) + At + " {\n" + Txt + "}\n\n";
  }
  std::string gen() {
    std::string H = "target datalayout = \"e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-f80:128-n8:16:32:64-S128\"\ntarget triple = \"x86_64-pc-linux-gnu\"\n\n";
    H += "declare i32 @input()\ndeclare i32 @ext(i32)\n";
    if (O.FpKinds) H += "declare i32 @extp(i32*)\n";
    if (O.Heap) H += "declare noalias i8* @malloc(i64)\n";
    if (O.Invoke) H += "declare i32 @__gxx_personality_v0(...)\n";
    if (O.Dbg) { H += "declare void @llvm.dbg.value(metadata, metadata, metadata)\n"; Meta = "!llvm.dbg.cu = !{!0}\n!llvm.module.flags = !{!1}\n!0 = distinct !DICompileUnit(language: DW_LANG_C99, file: !2, emissionKind: FullDebug)\n!1 = !{i32 2, !\"Debug Info Version\", i32 3}\n!2 = !DIFile(filename: \"a.c\", directory: \"/\")\n!3 = !DISubroutineType(types: !4)\n!4 = !{}\n!5 = !DIBasicType(name: \"int\", size: 32, encoding: DW_ATE_signed)\n"; }
    if (O.Taint) H += "declare i32 @source()\ndeclare void @sink(i32)\ndeclare void @fill(i32*)\n";
    if (O.Structs) H += "%struct.S = type { i32, i32 }\n";
    if (O.Files) H += "%struct._IO_FILE = type { i32 }\ndeclare %struct._IO_FILE* @fopen(i8*, i8*)\ndeclare i32 @fclose(%struct._IO_FILE*)\ndeclare i32 @fgetc(%struct._IO_FILE*)\n";
    // classes
    if (O.Virtual && p(1, 2)) {
      int N = range(GEN, 1, 4);
      for (int I = 0; I < N; ++I) {
        Cls K; K.Id = I; K.Base = I && p(3, 4) ? (int)c(I) : -1;
        if (K.Base >= 0) K.VF = Cs[K.Base].VF;
        for (auto &X : K.VF) if (p(1, 2)) X = I;
        int Nw = K.Base < 0 ? range(GEN, 1, 2) : (int)c(2); for (int J = 0; J < Nw; ++J) K.VF.push_back(I);
        Cs.push_back(K);
      }
      H += "@_ZTVN10__cxxabiv117__class_type_infoE = external global i8*\n@_ZTVN10__cxxabiv120__si_class_type_infoE = external global i8*\n";
      for (auto &K : Cs) {
        H += ty(K.Id) + " = type { " + (K.Base >= 0 ? ty(K.Base) : "i32 (...)**") + ", i32 }\n";
        std::string Nm = "1" + cname(K.Id);
        H += "@_ZTS" + Nm + " = linkonce_odr constant [3 x i8] c\"" + Nm + "\\00\"\n";
        if (K.Base < 0) H += "@_ZTI" + Nm + " = linkonce_odr constant { i8*, i8* } { i8* bitcast (i8** getelementptr inbounds (i8*, i8** @_ZTVN10__cxxabiv117__class_type_infoE, i64 2) to i8*), i8* getelementptr inbounds ([3 x i8], [3 x i8]* @_ZTS" + Nm + ", i32 0, i32 0) }\n";
        else H += "@_ZTI" + Nm + " = linkonce_odr constant { i8*, i8*, i8* } { i8* bitcast (i8** getelementptr inbounds (i8*, i8** @_ZTVN10__cxxabiv120__si_class_type_infoE, i64 2) to i8*), i8* getelementptr inbounds ([3 x i8], [3 x i8]* @_ZTS" + Nm + ", i32 0, i32 0), i8* bitcast (" + (Cs[K.Base].Base < 0 ? "{ i8*, i8* }" : "{ i8*, i8*, i8* }") + "* @_ZTI1" + cname(K.Base) + " to i8*) }\n";
        int Sz = K.VF.size() + 2; std::string TIT = K.Base < 0 ? "{ i8*, i8* }" : "{ i8*, i8*, i8* }";
        H += "@_ZTV" + Nm + " = linkonce_odr unnamed_addr constant { [" + s(Sz) + " x i8*] } { [" + s(Sz) + " x i8*] [i8* null, i8* bitcast (" + TIT + "* @_ZTI" + Nm + " to i8*)";
        for (size_t J = 0; J < K.VF.size(); ++J) H += ", i8* bitcast (i32 (" + ty(K.VF[J]) + "*)* @" + mang(K.VF[J], J) + " to i8*)";
        H += "] }\n";
        std::string CT = "define linkonce_odr void @_ZN1" + cname(K.Id) + "C2Ev(" + ty(K.Id) + "* %this) {\n";
        if (K.Base >= 0) CT += "  %b = bitcast " + ty(K.Id) + "* %this to " + ty(K.Base) + "*\n  call void @_ZN1" + cname(K.Base) + "C2Ev(" + ty(K.Base) + "* %b)\n";
        CT += "  %vp = bitcast " + ty(K.Id) + "* %this to i32 (...)***\n  store i32 (...)** bitcast (i8** getelementptr inbounds ({ [" + s(Sz) + " x i8*] }, { [" + s(Sz) + " x i8*] }* @_ZTV" + Nm + ", i32 0, inrange i32 0, i32 2) to i32 (...)**), i32 (...)*** %vp\n  ret void\n}\n\n";
        Out += CT;
      }
    }
    int N = range(GEN, 1, O.MaxFns);
    if (O.Globals) NGlob = c(3);
    for (int I = 0; I < NGlob; ++I) H += "@g" + s(I) + " = " + (p(1, 4) ? "internal " : "") + "global i32 " + s((int)c(7) - 2) + "\n";
    if (O.PtrGlobals && NGlob) { NPG = c(3); for (int I = 0; I < NPG; ++I) H += "@pg" + s(I) + " = " + (p(1, 2) ? "constant" : "global") + " i32* @g" + s(c(NGlob)) + "\n"; }
    std::vector<Sig> Ss = {II, II, IV, VI}; if (O.Ptr) { Ss.push_back(IP); Ss.push_back(IP); Ss.push_back(IP); } if (O.PtrRet) Ss.push_back(PP); if (O.VarArgs) Ss.push_back(VA); if (O.Files && O.FileArgs) { Ss.push_back(FA); Ss.push_back(FA); Ss.push_back(FA); } if (O.Indirect) { Ss.push_back(VIF); Ss.push_back(VIF); Ss.push_back(FV); if (O.FpKinds) { Ss.push_back(FW); Ss.push_back(FW); } } if (!Cs.empty()) for (int I = 0; I < 3; ++I) Ss.push_back(OA);
    Fns.push_back({0, IV, "main"});
    bool Chain = O.Indirect && O.FpKinds && N >= 3 && (O.ChainOnly || p(1, 3)); int Pos = ChainPos = Chain ? 1 + (int)c(N - 2) : 0; // two functions handing on a function pointer, and its target
    for (int I = 1; I <= N; ++I) { Sig S = Ss[c(Ss.size())]; if (Chain && I >= Pos && I < Pos + 3) S = I == Pos + 2 ? VIF : FW; Fns.push_back({I, S, "f" + s(O.DotNames && I > 1 && p(1, 3) ? 1 : I) + (O.DotNames ? "." + s(I) : ""), S == OA ? (int)c(Cs.size()) : -1}); }
    for (auto &F : Fns) HasFW |= F.S == FW;
    if (O.Indirect && O.FnTables) {
      std::vector<const Fn *> Cand; for (auto &F : Fns) if (F.S == II) Cand.push_back(&F);
      if (!Cand.empty() && O.Rec) { NTab = c(3); for (int I = 0; I < NTab; ++I) { int Sz = range(GEN, 1, 3); TabSz.push_back(Sz); H += "@t" + s(I) + " = " + (p(1, 2) ? "constant" : "global") + " [" + s(Sz) + " x " + FPT + "] ["; for (int J = 0; J < Sz; ++J) H += std::string(J ? ", " : "") + FPT + " @" + Cand[c(Cand.size())]->Name; H += "]\n"; } }
    }
    if (O.Indirect && O.NestTables) {
      std::vector<const Fn *> Cand; for (auto &F : Fns) if (F.S == II) Cand.push_back(&F);
      if (!Cand.empty() && O.Rec) { NNest = c(3); auto R = [&] { return std::string(FPT) + " @" + Cand[c(Cand.size())]->Name; }; for (int I = 0; I < NNest; ++I) { std::string A = R(), B2 = R(), C2 = R(); H += "@nt" + s(I) + " = " + (p(1, 2) ? "constant" : "global") + " { [2 x " + FPT + "], " + FPT + ", i32 } { [2 x " + FPT + "] [" + A + ", " + B2 + "], " + C2 + ", i32 1 }\n"; } }
    }
    if (O.Globinit && p(1, 2)) {
      int NC = c(4), ND = c(3); std::vector<std::string> A;
      auto Mk = [&](const std::string &Nm) { Out += "define internal void @" + Nm + "() {\n"; if (auto *T = pick(IV, 0)) if (T->Id) Out += "  %r = call i32 @" + T->Name + "()\n"; Out += "  ret void\n}\n\n"; };
      for (int K = 0; K < 2; ++K) { int Nn = K ? ND : NC; if (!Nn) continue; std::string L; for (int I = 0; I < Nn; ++I) { std::string Nm = std::string(K ? "dtor" : "ctor") + s(I); Mk(Nm); int Pr = (int)c(4) * 100 + (p(1, 3) ? 65000 : 0); L += std::string(I ? ", " : "") + "{ i32, void ()*, i8* } { i32 " + s(Pr) + ", void ()* @" + Nm + ", i8* null }"; } H += "@llvm.global_" + std::string(K ? "dtors" : "ctors") + " = appending global [" + s(Nn) + " x { i32, void ()*, i8* }] [" + L + "]\n"; }
    }
    for (auto &F : Fns) body(F);
    // virtual functions: small bodies
    for (auto &K : Cs) for (size_t J = 0; J < K.VF.size(); ++J) if (K.VF[J] == K.Id) {
      auto *T = p(1, 2) ? pick(IV, 0) : nullptr; if (T && T->Id == 0) T = nullptr;
      Out += "define linkonce_odr i32 @" + mang(K.Id, J) + "(" + ty(K.Id) + "* %this) {\n";
      if (T) Out += "  %r = call i32 @" + T->Name + "()\n  ret i32 %r\n}\n\n"; else Out += "  ret i32 " + s(K.Id) + "\n}\n\n";
    }
    return H + "\n" + Out + Meta;
  }
};
} // namespace

std::string generate(const Opt &O) { return Gen(O).gen(); }

std::unique_ptr<llvm::Module> parse(const std::string &T, llvm::LLVMContext &Ctx) {
  llvm::SMDiagnostic D; auto M = llvm::parseAssemblyString(T, D, Ctx);
  std::string E; llvm::raw_string_ostream OS(E);
  if (!M) { D.print("irgen", OS); fprintf(stderr, "HARNESS: %s\n%s\n", OS.str().c_str(), T.c_str()); abort(); }
  if (llvm::verifyModule(*M, &OS)) { fprintf(stderr, "HARNESS: %s\n%s\n", OS.str().c_str(), T.c_str()); abort(); }
  return M;
}
std::string locate(const llvm::Value *V) {
  if (!V) return "null";
  if (auto *I = llvm::dyn_cast<llvm::Instruction>(V)) {
    int N = 0; for (auto &X : llvm::instructions(I->getFunction())) { if (&X == I) break; ++N; }
    return I->getFunction()->getName().str() + ":" + std::to_string(N) + (I->hasName() ? "(%" + I->getName().str() + ")" : std::string("(") + I->getOpcodeName() + ")");
  }
  if (auto *A = llvm::dyn_cast<llvm::Argument>(V)) return A->getParent()->getName().str() + ":arg" + std::to_string(A->getArgNo());
  if (V->hasName()) return "@" + V->getName().str();
  std::string S; llvm::raw_string_ostream OS(S); V->printAsOperand(OS, true); return OS.str();
}

// ------------------------------------------------------------------ interp
Interp::Interp(const llvm::Module &M, Observer *Ob) : M(M), DL(M.getDataLayout()), Ob(Ob) {}
int Interp::globalObj(const llvm::GlobalVariable *G) {
  auto It = Globals.find(G); if (It != Globals.end()) return It->second;
  int O = Objs.size(); Objs.push_back({G, {}}); Globals[G] = O;
  if (G->hasInitializer()) initMem(O, 0, G->getInitializer()); else Objs[O].ZeroInit = true;
  return O;
}
void Interp::initMem(int O, int64_t Off, const llvm::Constant *C) {
  if (C->isNullValue() && (C->getType()->isAggregateType())) { Objs[O].ZeroInit = true; return; }
  if (auto *S = llvm::dyn_cast<llvm::ConstantStruct>(C)) {
    auto *L = DL.getStructLayout(S->getType()); for (unsigned I = 0; I < S->getNumOperands(); ++I) initMem(O, Off + L->getElementOffset(I), S->getOperand(I)); return;
  }
  if (auto *A = llvm::dyn_cast<llvm::ConstantArray>(C)) {
    int64_t Sz = DL.getTypeAllocSize(A->getType()->getElementType()); for (unsigned I = 0; I < A->getNumOperands(); ++I) initMem(O, Off + I * Sz, A->getOperand(I)); return;
  }
  if (llvm::isa<llvm::ConstantDataSequential>(C)) { Objs[O].ZeroInit = true; return; }
  Val V = constant(C); Objs[O].Mem[Off] = V;
}
Val Interp::constant(const llvm::Constant *C) {
  Val V;
  if (auto *I = llvm::dyn_cast<llvm::ConstantInt>(C)) { V.Kind = Val::Int; V.I = I->getSExtValue(); return V; }
  if (auto *F = llvm::dyn_cast<llvm::Function>(C)) { V.Kind = Val::Fn; V.F = F; return V; }
  if (auto *G = llvm::dyn_cast<llvm::GlobalVariable>(C)) { V.Kind = Val::Ptr; V.Obj = globalObj(G); return V; }
  if (C->isNullValue()) { V.Kind = Val::Int; return V; }
  if (auto *E = llvm::dyn_cast<llvm::ConstantExpr>(C)) {
    if (E->isCast()) return constant(E->getOperand(0));
    if (auto *G = llvm::dyn_cast<llvm::GEPOperator>(E)) { V = constant(E->getOperand(0)); llvm::APInt A(64, 0); if (G->accumulateConstantOffset(DL, A)) V.I += A.getSExtValue(); return V; }
  }
  return V;
}
Val Interp::get(const llvm::Value *V) {
  if (auto *C = llvm::dyn_cast<llvm::Constant>(V)) return constant(C);
  auto &E = Stack.back().Env; auto It = E.find(V); return It == E.end() ? Val() : It->second;
}
void Interp::run(const llvm::Function *F, const std::vector<Val> &Args) {
  auto Enter = [&](const llvm::Function *Fn, const std::vector<Val> &As, const llvm::CallBase *Site) {
    Frame Fr; Fr.F = Fn; Fr.PC = &Fn->getEntryBlock().front(); Fr.Site = Site; Fr.Id = NextFrame++;
    Stack.push_back(std::move(Fr));
    for (unsigned I = 0; I < Fn->arg_size() && I < As.size(); ++I) { Stack.back().Env[Fn->getArg(I)] = As[I]; if (Ob) Ob->onValue(Stack.back(), Fn->getArg(I), As[I]); }
  };
  Enter(F, Args, nullptr);
  while (!Stack.empty()) {
    if (++Steps > MaxSteps || Stack.size() > MaxDepth) { Truncated = true; return; }
    const llvm::Instruction *I = Stack.back().PC;
    if (llvm::isa<llvm::DbgInfoIntrinsic>(I)) { Stack.back().PC = I = I->getNextNonDebugInstruction(false); }
    if (Ob) Ob->onStep(Stack.back(), I);
    auto Def = [&](const Val &V) { Stack.back().Env[I] = V; if (Ob) Ob->onValue(Stack.back(), I, V); };
    auto Next = [&](const llvm::Instruction *N) { if (llvm::isa<llvm::DbgInfoIntrinsic>(N)) N = N->getNextNonDebugInstruction(false); if (Ob) Ob->onFlow(I, N); Stack.back().PC = N; };
    if (auto *A = llvm::dyn_cast<llvm::AllocaInst>(I)) { Val V; V.Kind = Val::Ptr; V.Obj = Objs.size(); Objs.push_back({A, {}}); Def(V); Next(I->getNextNode()); continue; }
    if (auto *L = llvm::dyn_cast<llvm::LoadInst>(I)) {
      Val P = get(L->getPointerOperand());
      if (P.Kind != Val::Ptr) { Trapped = true; return; }
      auto &O = Objs[P.Obj]; auto It = O.Mem.find(P.I); Val V;
      if (It != O.Mem.end()) V = It->second; else if (O.ZeroInit) { V.Kind = Val::Int; } else { V.Kind = Val::Undef; V.Uninit = true; }
      if (V.Kind == Val::Undef && L->getType()->isIntegerTy()) { V.Kind = Val::Int; V.I = (int32_t)(0x5a5a5a5a ^ (uint32_t)Steps * 2654435761u); V.Uninit = true; }
      if (Ob) Ob->onLoad(Stack.back(), L, P);
      Def(V); Next(I->getNextNode()); continue;
    }
    if (auto *S = llvm::dyn_cast<llvm::StoreInst>(I)) {
      Val P = get(S->getPointerOperand()), V = get(S->getValueOperand());
      if (P.Kind != Val::Ptr) { Trapped = true; return; }
      Objs[P.Obj].Mem[P.I] = V; if (Ob) Ob->onStore(Stack.back(), S, P); Next(I->getNextNode()); continue;
    }
    if (auto *G = llvm::dyn_cast<llvm::GetElementPtrInst>(I)) {
      Val V = get(G->getPointerOperand()); if (V.Kind != Val::Ptr) { Trapped = true; return; }
      int64_t Off = 0; 
      for (auto GI = llvm::gep_type_begin(G), E = llvm::gep_type_end(G); GI != E; ++GI) {
        Val X = get(GI.getOperand());
        if (auto *ST = GI.getStructTypeOrNull()) Off += DL.getStructLayout(ST)->getElementOffset(X.I); else Off += X.I * (int64_t)DL.getTypeAllocSize(GI.getIndexedType());
      }
      V.I += Off; Def(V); Next(I->getNextNode()); continue;
    }
    if (auto *B = llvm::dyn_cast<llvm::BinaryOperator>(I)) {
      Val A = get(B->getOperand(0)), C = get(B->getOperand(1)), R; R.Kind = Val::Int; R.Taint = A.Taint | C.Taint; R.Uninit = A.Uninit || C.Uninit;
      unsigned W = B->getType()->getIntegerBitWidth(); auto SX = [W](uint64_t V) { return W == 64 ? (int64_t)V : (int64_t)(V << (64 - W)) >> (64 - W); }; auto ZX = [W](uint64_t V) { return W == 64 ? V : V & ((1ull << W) - 1); };
      int64_t SA = SX(A.I), SC = SX(C.I); uint64_t UA = ZX(A.I), UC = ZX(C.I); __int128 Z = 0; const int64_t Mn = SX(1ull << (W - 1));
      switch (B->getOpcode()) { case llvm::Instruction::Add: Z = (__int128)SA + SC; break; case llvm::Instruction::Sub: Z = (__int128)SA - SC; break; case llvm::Instruction::Mul: Z = (__int128)SA * SC; break; case llvm::Instruction::SDiv: if (!SC || (SA == Mn && SC == -1)) { Trapped = true; return; } Z = SA / SC; break; case llvm::Instruction::SRem: if (!SC || (SA == Mn && SC == -1)) { Trapped = true; return; } Z = SA % SC; break; case llvm::Instruction::UDiv: if (!UC) { Trapped = true; return; } Z = SX(UA / UC); break; case llvm::Instruction::URem: if (!UC) { Trapped = true; return; } Z = SX(UA % UC); break; case llvm::Instruction::And: Z = SA & SC; break; case llvm::Instruction::Or: Z = SA | SC; break; case llvm::Instruction::Xor: Z = SA ^ SC; break; default: Trapped = true; return; }
      Overflowed |= Z != SX((uint64_t)Z);
      R.I = SX((uint64_t)Z); Def(R); Next(I->getNextNode()); continue;
    }
    if (auto *C = llvm::dyn_cast<llvm::ICmpInst>(I)) {
      Val A = get(C->getOperand(0)), B = get(C->getOperand(1)), R; R.Kind = Val::Int; R.Uninit = A.Uninit || B.Uninit; R.Taint = A.Taint | B.Taint;
      switch (C->getPredicate()) { case llvm::CmpInst::ICMP_EQ: R.I = A.I == B.I; break; case llvm::CmpInst::ICMP_NE: R.I = A.I != B.I; break; case llvm::CmpInst::ICMP_SLT: R.I = A.I < B.I; break; default: Trapped = true; return; }
      Def(R); Next(I->getNextNode()); continue;
    }
    if (auto *C = llvm::dyn_cast<llvm::CastInst>(I)) {
      Val V = get(C->getOperand(0));
      if (V.Kind == Val::Int && C->getType()->isIntegerTy() && C->getOperand(0)->getType()->isIntegerTy()) {
        unsigned F = C->getOperand(0)->getType()->getIntegerBitWidth(), T = C->getType()->getIntegerBitWidth();
        if (llvm::isa<llvm::ZExtInst>(C) && F < 64) V.I &= (1ll << F) - 1;
        if (llvm::isa<llvm::TruncInst>(C) && T < 64) V.I = (int64_t)((uint64_t)V.I << (64 - T)) >> (64 - T);
      }
      Def(V); Next(I->getNextNode()); continue; }
    if (auto *Se = llvm::dyn_cast<llvm::SelectInst>(I)) { Def(get(Se->getCondition()).I ? get(Se->getTrueValue()) : get(Se->getFalseValue())); Next(I->getNextNode()); continue; }
    if (auto *P = llvm::dyn_cast<llvm::PHINode>(I)) { Def(get(P->getIncomingValueForBlock(Stack.back().Prev))); Next(I->getNextNode()); continue; }
    if (auto *B = llvm::dyn_cast<llvm::BranchInst>(I)) {
      const llvm::BasicBlock *T = B->isUnconditional() ? B->getSuccessor(0) : get(B->getCondition()).I ? B->getSuccessor(0) : B->getSuccessor(1);
      Stack.back().Prev = I->getParent(); Next(&T->front()); continue;
    }
    if (auto *R = llvm::dyn_cast<llvm::ReturnInst>(I)) {
      Val V; if (R->getReturnValue()) V = get(R->getReturnValue());
      auto *Site = Stack.back().Site; Stack.pop_back(); if (Stack.empty()) return;
      I = Site; Stack.back().Env[Site] = V; if (Ob && !Site->getType()->isVoidTy()) Ob->onValue(Stack.back(), Site, V);
      const llvm::Instruction *N = Site->getNextNode(); if (auto *IV = llvm::dyn_cast<llvm::InvokeInst>(Site)) { N = &IV->getNormalDest()->front(); Stack.back().Prev = Site->getParent(); }
      if (llvm::isa<llvm::DbgInfoIntrinsic>(N)) N = N->getNextNonDebugInstruction(false);
      if (Ob) Ob->onReturn(Site, R, N);
      Stack.back().PC = N; continue;
    }
    if (auto *Sw = llvm::dyn_cast<llvm::SwitchInst>(I)) {
      Val X = get(Sw->getCondition()); const llvm::BasicBlock *T = Sw->getDefaultDest(); for (auto &Ca : Sw->cases()) if (Ca.getCaseValue()->getSExtValue() == X.I) { T = Ca.getCaseSuccessor(); break; }
      Stack.back().Prev = I->getParent(); Next(&T->front()); continue;
    }
    if (llvm::isa<llvm::LandingPadInst>(I)) { Val V; V.Kind = Val::Int; Def(V); Next(I->getNextNode()); continue; }
    if (llvm::isa<llvm::ResumeInst>(I)) {
      auto *Site = Stack.back().Site; Stack.pop_back(); auto *IV = llvm::dyn_cast_or_null<llvm::InvokeInst>(Site);
      if (!IV) { Unwound = true; return; } // propagates through a call: not modelled by the control-flow graph
      const llvm::Instruction *N = &IV->getUnwindDest()->front(); if (Ob) Ob->onReturn(Site, I, N); Stack.back().Prev = Site->getParent(); Stack.back().PC = N; continue;
    }
    if (auto *C = llvm::dyn_cast<llvm::CallBase>(I)) {
      Val FV = get(C->getCalledOperand()); if (FV.Kind != Val::Fn) { Trapped = true; return; }
      std::vector<Val> As; for (auto &A : C->args()) As.push_back(get(A));
      if (FV.F->arg_size() != C->arg_size() && !(FV.F->isVarArg() && FV.F->arg_size() < C->arg_size())) { Trapped = true; return; }
      if (Ob) Ob->onCall(C, FV.F, As);
      if (FV.F->isDeclaration()) {
        if (Ob) Ob->onExtern(Stack.back(), C, FV.F, As);
        Val V; V.Kind = Val::Int;
        if (FV.F->getName() == "malloc") { V.Kind = Val::Ptr; V.Obj = Objs.size(); Objs.push_back({C, {}}); }
        else if (Extern) V = Extern(*this, C, FV.F, As);
        if (!C->getType()->isVoidTy()) { Stack.back().Env[C] = V; if (Ob) Ob->onValue(Stack.back(), C, V); }
        if (auto *IV = llvm::dyn_cast<llvm::InvokeInst>(C)) { bool Throw = chance(GEN, 1, 3); Stack.back().Prev = I->getParent(); Next(Throw ? &IV->getUnwindDest()->front() : &IV->getNormalDest()->front()); continue; }
        Next(I->getNextNode()); continue;
      }
      Enter(FV.F, As, C); continue;
    }
    Trapped = true; return;
  }
}
} // namespace ir
