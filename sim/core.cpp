#include "core.h"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace sim {
namespace {

constexpr uint32_t Cap[NLANES] = {1u << 16, 1u << 18, 1u << 15, 1u << 16, 256};
constexpr uint32_t CapTotal = (1u << 16) + (1u << 18) + (1u << 15) + (1u << 16) + 256;
constexpr int MaxCounters = 160;
constexpr int MaxStates = 512;

struct Slot {
  volatile uint32_t Status; // 0 running, 1 held, 2 violation, 3 inconclusive
  uint32_t Nontrivial;
  char Sig[512];
  char Msg[16384];
  char Sample[4096];
  uint64_t Hash, Steps, SimNs;
  struct { char Name[56]; uint64_t N; } Ctr[MaxCounters];
  uint32_t NCtr;
  uint64_t States[MaxStates];
  uint32_t NStates;
  uint32_t N[NLANES];
  uint32_t Trace[CapTotal];
  uint32_t NoteLen;
  char Notes[1 << 18];
};

uint32_t laneOff(int L) { uint32_t O = 0; for (int I = 0; I < L; ++I) O += Cap[I]; return O; }

using Trace = std::vector<uint32_t>[NLANES];
struct TraceT { std::vector<uint32_t> L[NLANES]; size_t size() const { size_t S = 0; for (auto &V : L) S += V.size(); return S; } };

// ---- child state
Slot *S = nullptr;
uint64_t Rng[NLANES];
const TraceT *Replay = nullptr;
bool Verbose = false;
uint64_t StepLimit = 2000000;
const char *PropName = "";
bool ThoroughFlag = false;

uint64_t splitmix(uint64_t &X) {
  uint64_t Z = (X += 0x9e3779b97f4a7c15ull);
  Z = (Z ^ (Z >> 30)) * 0xbf58476d1ce4e5b9ull;
  Z = (Z ^ (Z >> 27)) * 0x94d049bb133111ebull;
  return Z ^ (Z >> 31);
}
double nowS() { timespec T; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &T); return T.tv_sec + T.tv_nsec * 1e-9; }
} // namespace

const char *property() { return PropName; }
bool thorough() { return ThoroughFlag; }
bool verbose() { return Verbose; }

uint32_t choose(Lane L, uint32_t N) {
  uint32_t I = S->N[L];
  if (I >= Cap[L]) return 0;
  uint32_t V;
  if (Replay) {
    V = I < Replay->L[L].size() ? Replay->L[L][I] : 0;
    if (N) V %= N; else V = 0;
  } else {
    uint64_t R = splitmix(Rng[L]);
    V = N ? (uint32_t)((R >> 11) % N) : 0;
  }
  S->Trace[laneOff(L) + I] = V;
  S->N[L] = I + 1;
  return V;
}
uint32_t range(Lane L, uint32_t Lo, uint32_t Hi) { return Lo + choose(L, Hi - Lo + 1); }
bool chance(Lane L, uint32_t Num, uint32_t Den) { return choose(L, Den) >= Den - Num; }
uint32_t weighted(Lane L, std::initializer_list<uint32_t> W) {
  uint32_t T = 0; for (auto X : W) T += X;
  uint32_t V = choose(L, T), I = 0;
  for (auto X : W) { if (V < X) return I; V -= X; ++I; }
  return 0;
}

void ev(uint64_t V) { S->Hash = mix(S->Hash, V); }
void evs(const std::string &Str) { ev(hashStr(Str)); }
uint64_t eventHash() { return S->Hash; }
void state(uint64_t H) { if (S->NStates < MaxStates) S->States[S->NStates++] = H; }
void count(const char *Name, uint64_t N) {
  for (uint32_t I = 0; I < S->NCtr; ++I)
    if (!strcmp(S->Ctr[I].Name, Name)) { S->Ctr[I].N += N; return; }
  if (S->NCtr < MaxCounters) { snprintf(S->Ctr[S->NCtr].Name, 56, "%s", Name); S->Ctr[S->NCtr].N = N; ++S->NCtr; }
}
void nontrivial() { S->Nontrivial = 1; }
void sample(const std::string &Str) { snprintf(S->Sample, sizeof S->Sample, "%s", Str.c_str()); }
void note(const char *Fmt, ...) {
  if (!Verbose) return;
  va_list A; va_start(A, Fmt);
  uint32_t Room = sizeof(S->Notes) - S->NoteLen;
  if (Room > 512) {
    int K = vsnprintf(S->Notes + S->NoteLen, Room - 2, Fmt, A);
    if (K > (int)Room - 2) K = Room - 3;
    S->NoteLen += K; S->Notes[S->NoteLen++] = '\n'; S->Notes[S->NoteLen] = 0;
  }
  va_end(A);
}
void setStepLimit(uint64_t N) { StepLimit = N; }
void step(uint64_t N) {
  S->Steps += N;
  if (S->Steps > StepLimit)
    violation("no-progress:step-limit", "the run did not terminate within " + std::to_string(StepLimit) + " simulator steps");
}
void addSimTime(uint64_t Ns) { S->SimNs += Ns; }

void violation(const std::string &Sig, const std::string &Msg) {
  snprintf(S->Sig, sizeof S->Sig, "%s", Sig.c_str());
  snprintf(S->Msg, sizeof S->Msg, "%s", Msg.c_str());
  S->Status = 2;
  _exit(0);
}
void endRun() { S->Status = 1; _exit(0); }
void inconclusive(const char *Why) { count((std::string("inconclusive.") + Why).c_str()); S->Status = 3; _exit(0); }

} // namespace sim

using namespace sim;

// ============================ driver ======================================
namespace {

struct Res {
  uint32_t Status = 0; std::string Sig, Msg, Notes, Sample; uint64_t Hash = 0, Steps = 0, SimNs = 0;
  TraceT T; bool Nontrivial = false;
  std::vector<std::pair<std::string, uint64_t>> Ctr; std::vector<uint64_t> States;
};
struct Job { bool UseTrace = false; uint64_t Seed = 0; const TraceT *T = nullptr; };

int NSlots = 8;
std::vector<Slot *> Slots;
std::vector<int> ErrFd;
const Harness *H = nullptr;
bool DriverVerbose = false;
bool Quiet = true;

Slot *mapSlot() {
  void *P = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (P == MAP_FAILED) { perror("mmap"); exit(4); }
  return (Slot *)P;
}

[[noreturn]] void childMain(Slot *Sl, int Err, const Job &J) {
  S = Sl;
  if (J.UseTrace) Replay = J.T;
  else { Replay = nullptr; uint64_t X = J.Seed; for (auto &R : Rng) { R = splitmix(X); } }
  Verbose = DriverVerbose;
  StepLimit = 2000000;
  rlimit RL{H->CpuLimitS, H->CpuLimitS + 1};
  setrlimit(RLIMIT_CPU, &RL);
  rlimit RC{0, 0}; setrlimit(RLIMIT_CORE, &RC);
  dup2(Err, 2);
  int N = open("/dev/null", O_RDWR);
  if (Quiet) dup2(N, 1);
  dup2(N, 0);
  arenaEnterRun();
  H->Run();
  endRun();
}

pid_t launch(int I, const Job &J) {
  Slot *Sl = Slots[I];
  memset((void *)Sl, 0, offsetof(Slot, Trace));
  Sl->NoteLen = 0; Sl->Notes[0] = 0;
  if (ftruncate(ErrFd[I], 0)) {}
  lseek(ErrFd[I], 0, SEEK_SET);
  fflush(stdout); fflush(stderr);
  pid_t P = fork();
  if (P < 0) { perror("fork"); exit(4); }
  if (P == 0) { childMain(Sl, ErrFd[I], J); }
  return P;
}

std::string readErr(int I) {
  char Buf[8192]; off_t E = lseek(ErrFd[I], 0, SEEK_END);
  ssize_t N = pread(ErrFd[I], Buf, sizeof Buf - 1, E > 8000 ? E - 8000 : 0);
  return std::string(Buf, N > 0 ? N : 0);
}

Res collect(int I, int WStatus) {
  Slot *Sl = Slots[I]; Res R;
  R.Status = Sl->Status; R.Sig = Sl->Sig; R.Msg = Sl->Msg; R.Hash = Sl->Hash; R.Steps = Sl->Steps; R.SimNs = Sl->SimNs;
  R.Nontrivial = Sl->Nontrivial; R.Sample = Sl->Sample;
  R.Notes = std::string(Sl->Notes, Sl->NoteLen);
  for (int L = 0; L < NLANES; ++L) {
    uint32_t *B = Sl->Trace + laneOff(L);
    R.T.L[L].assign(B, B + Sl->N[L]);
  }
  for (uint32_t K = 0; K < Sl->NCtr; ++K) R.Ctr.emplace_back(Sl->Ctr[K].Name, Sl->Ctr[K].N);
  R.States.assign(Sl->States, Sl->States + Sl->NStates);
  bool Crashed = WIFSIGNALED(WStatus) || (Sl->Status == 0);
  if (Crashed && Sl->Status != 2) {
    std::string E = readErr(I);
    std::string Why;
    size_t A = E.find("Assertion `");
    if (A != std::string::npos) {
      size_t B = E.find("' failed", A);
      Why = "assert:" + E.substr(A + 11, (B == std::string::npos ? E.size() : B) - A - 11);
    } else if ((A = E.find("LLVM ERROR: ")) != std::string::npos) {
      Why = "fatal:" + E.substr(A + 12, E.find('\n', A) - A - 12);
    } else if ((A = E.find("UNREACHABLE executed")) != std::string::npos) {
      Why = "unreachable";
    } else if ((A = E.find("terminate called")) != std::string::npos) {
      Why = "terminate:" + E.substr(A, E.find('\n', A) - A);
    } else if (WIFSIGNALED(WStatus)) {
      int Sg = WTERMSIG(WStatus);
      if (Sg == SIGXCPU || Sg == SIGKILL) Why = "hang"; else Why = "signal:" + std::to_string(Sg);
    } else Why = "exit:" + std::to_string(WEXITSTATUS(WStatus));
    R.Status = 2;
    R.Sig = (Why == "hang" ? "no-progress:" : "crash:") + Why.substr(0, 300);
    R.Msg = "the code under test ended the process (" + Why + ")\n" + E;
    if (R.Sig.find("no-progress:hang") == 0) { R.Hash = 0; }
  }
  return R;
}

// runs jobs in parallel, calls Done(index, Res) ; stops launching when Next() returns false
template <class NextF, class DoneF> void runMany(NextF Next, DoneF Done) {
  std::vector<pid_t> Pid(NSlots, 0); std::vector<uint64_t> Id(NSlots, 0); std::vector<double> Start(NSlots, 0);
  int Active = 0; bool More = true;
  while (true) {
    for (int I = 0; I < NSlots && More; ++I) {
      if (Pid[I]) continue;
      Job J; uint64_t Ix;
      if (!Next(J, Ix)) { More = false; break; }
      Id[I] = Ix; Pid[I] = launch(I, J); Start[I] = nowS(); ++Active;
    }
    if (!Active) break;
    int WS = 0; pid_t P = waitpid(-1, &WS, 0);
    if (P < 0) { if (errno == EINTR) {
        for (int I = 0; I < NSlots; ++I) if (Pid[I] && nowS() - Start[I] > H->CpuLimitS * 6.0 + 30) kill(Pid[I], SIGKILL);
        continue; } perror("waitpid"); exit(4); }
    for (int I = 0; I < NSlots; ++I) if (Pid[I] == P) {
      Res R = collect(I, WS); Pid[I] = 0; --Active; Done(Id[I], std::move(R)); break;
    }
  }
}
std::vector<Res> evalMany(const std::vector<Job> &Js) {
  std::vector<Res> Out(Js.size()); size_t K = 0;
  runMany([&](Job &J, uint64_t &Ix) { if (K >= Js.size()) return false; J = Js[K]; Ix = K++; return true; },
          [&](uint64_t Ix, Res R) { Out[Ix] = std::move(R); });
  return Out;
}

TraceT minimise(TraceT Best, const std::string &Sig, double Budget, uint64_t &Evals) {
  double End = nowS() + Budget;
  auto Try = [&](std::vector<TraceT> &Cands) -> bool {
    if (Cands.empty()) return false;
    std::vector<Job> Js; for (auto &C : Cands) { Job J; J.UseTrace = true; J.T = &C; Js.push_back(J); }
    auto Rs = evalMany(Js); Evals += Rs.size();
    int Pick = -1;
    for (size_t I = 0; I < Rs.size(); ++I)
      if (Rs[I].Status == 2 && Rs[I].Sig == Sig && (Pick < 0 || Cands[I].size() < Cands[Pick].size())) Pick = I;
    if (Pick < 0) return false;
    // keep only the consumed prefix
    TraceT NT = std::move(Cands[Pick]);
    for (int L = 0; L < NLANES; ++L) {
      if (NT.L[L].size() > Rs[Pick].T.L[L].size()) NT.L[L].resize(Rs[Pick].T.L[L].size());
      while (!NT.L[L].empty() && NT.L[L].back() == 0) NT.L[L].pop_back();
    }
    Best = std::move(NT);
    return true;
  };
  bool Progress = true;
  while (Progress && nowS() < End) {
    Progress = false;
    for (int L = 0; L < NLANES && nowS() < End; ++L) {
      if (Best.L[L].empty()) continue;
      { std::vector<TraceT> C; C.push_back(Best); C.back().L[L].clear(); Progress |= Try(C); }
      for (size_t Sz = std::max<size_t>(1, Best.L[L].size() / 2); Sz >= 1 && nowS() < End; Sz /= 2) {
        size_t I = 0;
        while (I < Best.L[L].size() && nowS() < End) {
          std::vector<TraceT> C; size_t Ps[8]; int NP = 0;
          for (size_t P = I; P < Best.L[L].size() && NP < 4; P += Sz) Ps[NP++] = P;
          for (int K = 0; K < NP; ++K) {
            size_t P = Ps[K], Q = std::min(Best.L[L].size(), P + Sz);
            TraceT D = Best; D.L[L].erase(D.L[L].begin() + P, D.L[L].begin() + Q); C.push_back(std::move(D));
            bool Nz = false; for (size_t X = P; X < Q; ++X) Nz |= Best.L[L][X] != 0;
            if (Nz) { TraceT Z = Best; for (size_t X = P; X < Q; ++X) Z.L[L][X] = 0; C.push_back(std::move(Z)); }
          }
          if (Try(C)) { Progress = true; } else I += Sz * NP;
        }
        if (Sz == 1) break;
      }
      for (size_t I = 0; I < Best.L[L].size() && nowS() < End; ++I) {
        uint32_t V = Best.L[L][I];
        if (V <= 1) continue;
        std::vector<TraceT> C;
        for (uint32_t NV : {V / 2, V - 1, 1u}) { TraceT X = Best; X.L[L][I] = NV; C.push_back(X); }
        Progress |= Try(C);
      }
    }
  }
  return Best;
}

std::string jstr(const std::string &X) {
  std::string O = "\"";
  for (unsigned char C : X) {
    if (C == '"' || C == '\\') { O += '\\'; O += C; }
    else if (C == '\n') O += "\\n"; else if (C == '\t') O += "\\t";
    else if (C < 32 || C >= 127) { char B[8]; snprintf(B, 8, "\\u%04x", C); O += B; }
    else O += C;
  }
  return O + "\"";
}
void writeReplay(const std::string &Path, const TraceT &T, const Res &R, uint64_t Seed, const TraceT &Orig) {
  FILE *F = fopen(Path.c_str(), "w"); if (!F) { perror(Path.c_str()); exit(4); }
  fprintf(F, "SIMREPLAY 1\nproperty %s\nseed %llu\nhash %016llx\nsig %s\n", H->Property, (unsigned long long)Seed, (unsigned long long)R.Hash, R.Sig.c_str());
  static const char *LN[] = {"gen", "sched", "fault", "time", "layout"};
  for (int L = 0; L < NLANES; ++L) {
    fprintf(F, "lane %s %zu :", LN[L], T.L[L].size());
    for (auto V : T.L[L]) fprintf(F, " %u", V);
    fprintf(F, "\n");
  }
  fprintf(F, "original-decisions %zu minimised-decisions %zu\n---- violation\n%s\n---- schedule and fault trace of the minimised run\n%s\n", Orig.size(), T.size(), R.Msg.c_str(), R.Notes.c_str());
  fclose(F);
}
bool readReplay(const std::string &Path, TraceT &T, std::string &Prop, std::string &Sig, uint64_t &Hash) {
  FILE *F = fopen(Path.c_str(), "r"); if (!F) return false;
  char *Line = nullptr; size_t N = 0; ssize_t K;
  static const char *LN[] = {"gen", "sched", "fault", "time", "layout"};
  while ((K = getline(&Line, &N, F)) > 0) {
    if (Line[K - 1] == '\n') Line[K - 1] = 0;
    if (!strncmp(Line, "property ", 9)) Prop = Line + 9;
    else if (!strncmp(Line, "sig ", 4)) Sig = Line + 4;
    else if (!strncmp(Line, "hash ", 5)) Hash = strtoull(Line + 5, nullptr, 16);
    else if (!strncmp(Line, "lane ", 5)) {
      for (int L = 0; L < NLANES; ++L) {
        size_t Ln = strlen(LN[L]);
        if (!strncmp(Line + 5, LN[L], Ln) && Line[5 + Ln] == ' ') {
          char *P = strchr(Line, ':'); if (!P) break; ++P;
          while (*P) { char *E; unsigned long V = strtoul(P, &E, 10); if (E == P) break; T.L[L].push_back(V); P = E; }
        }
      }
    } else if (!strncmp(Line, "----", 4)) break;
  }
  fclose(F);
  return true;
}
void onAlarm(int) {}

} // namespace

int main(int Argc, char **Argv) {
  std::string Prop, Tier = "quick", ReplayPath, Evidence, Known, OutDir = ".";
  uint64_t Seed = 1; bool SeedRun = false; uint64_t OneSeed = 0; double CapS = -1; uint64_t MaxRuns = 0; int Detc = 24;
  double SetupS = 0;
  for (int I = 1; I < Argc; ++I) {
    std::string A = Argv[I]; auto Nx = [&]() -> std::string { return I + 1 < Argc ? Argv[++I] : ""; };
    if (A == "--prop") Prop = Nx(); else if (A == "--tier") Tier = Nx(); else if (A == "--seed") Seed = strtoull(Nx().c_str(), 0, 10);
    else if (A == "--replay") ReplayPath = Nx(); else if (A == "--evidence") Evidence = Nx(); else if (A == "--known") Known = Nx();
    else if (A == "--out") OutDir = Nx(); else if (A == "--cap") CapS = atof(Nx().c_str()); else if (A == "--runs") MaxRuns = strtoull(Nx().c_str(), 0, 10);
    else if (A == "--one") { SeedRun = true; OneSeed = strtoull(Nx().c_str(), 0, 10); }
    else if (A == "--jobs") NSlots = atoi(Nx().c_str()); else if (A == "--show-stdout") Quiet = false;
    else if (A == "--det") Detc = atoi(Nx().c_str()); else if (A == "--setup-s") SetupS = atof(Nx().c_str());
  }
  TraceT RT; std::string RSig; uint64_t RHash = 0;
  if (!ReplayPath.empty()) { if (!readReplay(ReplayPath, RT, Prop, RSig, RHash)) { fprintf(stderr, "cannot read replay\n"); return 4; } }
  static std::vector<Harness> Hs = harnesses();
  for (auto &X : Hs) if (Prop.empty() || Prop == X.Property) { H = &X; break; }
  if (!H) { fprintf(stderr, "no such property %s\n", Prop.c_str()); return 4; }
  PropName = H->Property; ThoroughFlag = Tier == "thorough";
  setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
  struct sigaction SA{}; SA.sa_handler = onAlarm; sigaction(SIGALRM, &SA, nullptr);
  itimerval IT{{5, 0}, {5, 0}}; setitimer(ITIMER_REAL, &IT, nullptr);
  for (int I = 0; I < NSlots; ++I) { Slots.push_back(mapSlot()); ErrFd.push_back(memfd_create("err", 0)); }
  if (H->WarmUp) { // tried in a child first: broken code must not take the driver down
    fflush(stdout); pid_t P = fork(); S = mapSlot();
    if (P == 0) { rlimit L{20, 25}; setrlimit(RLIMIT_CPU, &L); int N = open("/dev/null", O_RDWR); dup2(N, 1); dup2(N, 2); H->WarmUp(); _exit(0); }
    int W = 0; while (waitpid(P, &W, 0) < 0 && errno == EINTR) ;
    if (WIFEXITED(W) && WEXITSTATUS(W) == 0) H->WarmUp(); else printf("sim: warm-up failed, going on without it\n");
  }

  if (!ReplayPath.empty()) {
    DriverVerbose = true; Job J; J.UseTrace = true; J.T = &RT;
    Res R = evalMany({J})[0];
    auto IsSame = [&] { return R.Status == 2 && R.Sig == RSig && R.Hash == RHash; };
    if (!IsSame()) { DriverVerbose = false; R = evalMany({J})[0]; }
    bool Same = IsSame();
    printf("replay: status=%u sig=%s hash=%016llx\n%s\n%s\n", R.Status, R.Sig.c_str(), (unsigned long long)R.Hash, R.Notes.c_str(), R.Msg.c_str());
    if (Same) { printf("VIOLATION property=%s replay=%s\n", H->Property, ReplayPath.c_str()); return 1; }
    printf("replay did not reproduce the recorded violation\n");
    return R.Status == 2 ? 3 : 0;
  }
  if (SeedRun) {
    DriverVerbose = true; Job J; J.Seed = OneSeed; Res R = evalMany({J})[0];
    printf("one: status=%u sig=%s hash=%016llx steps=%llu gen=%zu sched=%zu fault=%zu\n%s\n%s\n%s\n", R.Status, R.Sig.c_str(), (unsigned long long)R.Hash, (unsigned long long)R.Steps,
           R.T.L[0].size(), R.T.L[1].size(), R.T.L[2].size(), R.Sample.c_str(), R.Notes.c_str(), R.Msg.c_str());
    for (auto &C : R.Ctr) printf("  %s = %llu\n", C.first.c_str(), (unsigned long long)C.second);
    return R.Status == 2;
  }

  // known findings
  struct KF { std::string Sig, Desc; uint64_t Hits = 0; }; std::vector<KF> KFs;
  if (!Known.empty()) if (FILE *F = fopen(Known.c_str(), "r")) {
    char *Line = nullptr; size_t N = 0; ssize_t K;
    while ((K = getline(&Line, &N, F)) > 0) {
      std::string Ln(Line, Line[K - 1] == '\n' ? K - 1 : K);
      std::string Pre = std::string("finding: property=") + H->Property + " sig=";
      if (Ln.compare(0, Pre.size(), Pre) == 0) {
        size_t D = Ln.find(" :: ");
        KFs.push_back({Ln.substr(Pre.size(), D - Pre.size()), D == std::string::npos ? "" : Ln.substr(D + 4)});
      }
    }
    fclose(F);
  }

  uint64_t Base = mix(mix(0x5eed, Seed), hashStr(H->Property));
  auto seedOf = [&](uint64_t I) { uint64_t X = Base + I * 0x9e3779b97f4a7c15ull; return splitmix(X); };
  uint64_t Target = MaxRuns ? MaxRuns : (ThoroughFlag ? H->ThoroughRuns : H->QuickRuns);
  double CapT = CapS > 0 ? CapS : (ThoroughFlag ? H->ThoroughCapS : H->QuickCapS);
  printf("sim: property=%s tier=%s seed=%llu target-runs=%llu\n", H->Property, Tier.c_str(), (unsigned long long)Seed, (unsigned long long)Target);

  double T0 = nowS();
  uint64_t Runs = 0, Steps = 0, SimNs = 0, Nontriv = 0, Inconcl = 0, Ix = 0; std::map<std::string, uint64_t> Ctr;
  std::unordered_set<uint64_t> Dist, DistAll, StSet; std::vector<std::string> Samples;
  bool Viol = false; uint64_t VSeed = 0, VIx = 0; Res VRes;
  auto Done = [&](uint64_t Id, Res R) {
        ++Runs; Steps += R.Steps; SimNs += R.SimNs;
        for (auto &C : R.Ctr) Ctr[C.first] += C.second;
        for (auto St : R.States) if (StSet.size() < 4000000) StSet.insert(St);
        if (R.Status == 3) ++Inconcl;
        if (R.Nontrivial) { ++Nontriv; Dist.insert(R.Hash); }
        DistAll.insert(R.Hash);
        if (!R.Sample.empty() && Samples.size() < 3 && R.Nontrivial) Samples.push_back(R.Sample);
        if (R.Status == 2) {
          for (auto &K : KFs) if (R.Sig.compare(0, K.Sig.size(), K.Sig) == 0) { ++K.Hits; return; }
          if (!Viol || Id < VIx) { Viol = true; VSeed = seedOf(Id); VIx = Id; VRes = std::move(R); }
        }
      };
  // determinism self-check: same seed twice, different slots, must match
  {
    std::vector<Job> Js; for (int I = 0; I < Detc; ++I) { Job J; J.Seed = seedOf(I); Js.push_back(J); }
    auto A = evalMany(Js); Ix = Detc; for (int I = 0; I < Detc; ++I) Done(I, A[I]);
    if (!Viol) {
      std::reverse(Js.begin(), Js.end()); auto B = evalMany(Js);
      for (int I = 0; I < Detc; ++I) {
        auto &X = A[I], &Y = B[Detc - 1 - I];
        if (X.Hash != Y.Hash || X.Status != Y.Status || X.Sig != Y.Sig) {
          printf("ERROR: simulation is not deterministic for seed %llu (%016llx/%s vs %016llx/%s)\n%s\n%s\n", (unsigned long long)seedOf(I),
                 (unsigned long long)X.Hash, X.Sig.c_str(), (unsigned long long)Y.Hash, Y.Sig.c_str(), X.Msg.c_str(), Y.Msg.c_str());
          return 3;
        }
      }
    }
  }
  runMany(
      [&](Job &J, uint64_t &Id) {
        if (Viol || Ix >= Target || nowS() - T0 > CapT) return false;
        J.Seed = seedOf(Ix); Id = Ix++; return true;
      },
      Done);
  double Search = nowS() - T0;
  int Exit = 0; std::string RPath; uint64_t MinEvals = 0;
  if (Viol) {
    printf("sim: violation candidate in run %llu seed=%llu: %s\n", (unsigned long long)VIx, (unsigned long long)VSeed, VRes.Sig.c_str());
    Job J; J.Seed = VSeed; auto Again = evalMany({J, J});
    for (auto &A : Again) if (A.Status != 2 || A.Sig != VRes.Sig || A.Hash != VRes.Hash) {
      printf("ERROR: violation does not repeat for the same seed (%s %016llx vs %s %016llx)\n%s\n", A.Sig.c_str(), (unsigned long long)A.Hash, VRes.Sig.c_str(), (unsigned long long)VRes.Hash, VRes.Msg.c_str());
      return 3;
    }
    bool Hang = VRes.Sig.find("no-progress:hang") == 0;
    TraceT Min = minimise(VRes.T, VRes.Sig, Hang ? 60 : (ThoroughFlag ? 120 : 25), MinEvals);
    DriverVerbose = true; Job K; K.UseTrace = true; K.T = &Min; auto Fin = evalMany({K, K});
    auto Bad = [&] { return Fin[0].Status != 2 || Fin[0].Sig != VRes.Sig || Fin[1].Hash != Fin[0].Hash || Fin[1].Sig != Fin[0].Sig; };
    if (Bad()) { DriverVerbose = false; Fin = evalMany({K, K}); } // building the notes allocates memory, which can matter where addresses do
    if (Bad()) {
      printf("ERROR: minimised trace does not reproduce\n"); return 3;
    }
    RPath = OutDir + "/" + H->Property + "-" + std::to_string(VSeed) + ".replay";
    writeReplay(RPath, Min, Fin[0], VSeed, VRes.T);
    // fresh process
    std::string Cmd = std::string(Argv[0]) + " --replay " + RPath + " > " + RPath + ".log 2>&1";
    int RC = system(Cmd.c_str());
    if (!WIFEXITED(RC) || WEXITSTATUS(RC) != 1) { printf("ERROR: replay in a fresh process does not reproduce (%d)\n", RC); return 3; }
    unlink((RPath + ".log").c_str());
    printf("violation: %s\n%s\nminimised from %zu to %zu decisions in %llu evaluations\n%s\n", Fin[0].Sig.c_str(), Fin[0].Msg.c_str(), VRes.T.size(), Min.size(), (unsigned long long)MinEvals, Fin[0].Notes.substr(0, 6000).c_str());
    Exit = 1;
  }
  for (auto &K : KFs) printf("KNOWN-FINDING: property=%s %s (hit %llu times)\n", H->Property, K.Desc.c_str(), (unsigned long long)K.Hits);
  double Wall = nowS() - T0 + SetupS;
  if (!Evidence.empty()) {
    FILE *F = fopen((Evidence + ".tmp").c_str(), "w"); if (!F) { perror(Evidence.c_str()); return 4; }
    auto Arr = [](const std::vector<const char *> &V) { std::string O = "["; for (size_t I = 0; I < V.size(); ++I) O += (I ? "," : "") + jstr(V[I]); return O + "]"; };
    std::string FaultJ = "{", ProbeJ = "{", OtherJ = "{";
    for (auto &C : Ctr) {
      std::string &D = C.first.compare(0, 6, "fault.") == 0 ? FaultJ : C.first.compare(0, 6, "probe.") == 0 ? ProbeJ : OtherJ;
      if (D.size() > 1) D += ","; D += jstr(C.first) + ":" + std::to_string(C.second);
    }
    if (Samples.empty()) Samples.push_back("(no non-trivial run completed)");
    std::string SJ; for (auto &X : Samples) SJ += (SJ.empty() ? "" : ",") + jstr(X);
    fprintf(F,
            "{\"property\":%s,\"tier\":%s,\"seed\":%llu,\"level\":\"exploration\",\"coverage\":{\"evaluations\":%llu,\"distinct_nontrivial\":%zu,\"rule\":%s,\"samples\":[%s],"
            "\"distinct_measure\":%s,\"runs_with_distinct_event_log\":%zu,\"distinct_intermediate_states\":%zu,\"simulated_runs_per_hour\":%.0f,\"seeds_per_hour\":%.0f,"
            "\"simulated_steps\":%llu,\"simulated_time_s\":%.3f,\"nontrivial_runs\":%llu,\"inconclusive_runs\":%llu,\"faults_injected\":%s},\"probes\":%s},\"counters\":%s},"
            "\"determinism_recheck_runs\":%d,\"real_components\":%s,\"stub_components\":%s,\"search_wall_s\":%.2f},\"assumptions\":%s,\"wall_s\":%.2f,\"violations\":%d}\n",
            jstr(H->Property).c_str(), jstr(Tier).c_str(), (unsigned long long)Seed, (unsigned long long)Runs, Dist.size(), jstr(H->Rule).c_str(), SJ.c_str(),
            jstr(H->DistinctMeasure).c_str(), DistAll.size(), StSet.size(), Runs / Search * 3600, Runs / Search * 3600, (unsigned long long)Steps, SimNs * 1e-9,
            (unsigned long long)Nontriv, (unsigned long long)Inconcl, FaultJ.c_str(), ProbeJ.c_str(), OtherJ.c_str(), Detc, Arr(H->Real).c_str(), Arr(H->Stub).c_str(), Search,
            Arr(H->Assumptions).c_str(), Wall, Viol ? 1 : 0);
    fclose(F); rename((Evidence + ".tmp").c_str(), Evidence.c_str());
  }
  printf("sim: runs=%llu nontrivial=%llu distinct=%zu states=%zu steps=%llu simtime=%.1fs inconclusive=%llu wall=%.1fs\n", (unsigned long long)Runs, (unsigned long long)Nontriv,
         Dist.size(), StSet.size(), (unsigned long long)Steps, SimNs * 1e-9, (unsigned long long)Inconcl, nowS() - T0);
  for (auto &C : Ctr) printf("  %-48s %llu\n", C.first.c_str(), (unsigned long long)C.second);
  if (Exit == 1) printf("VIOLATION property=%s replay=%s\n", H->Property, RPath.c_str());
  else printf("OK property=%s\n", H->Property);
  return Exit;
}
