#include "disk.h"
#include "core.h"

#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <memory>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <vector>

using namespace sim;
namespace {
struct File { std::string Mem, Dur; bool Exists = true, DurExists = false; bool Dirty = false; };
struct Fd { std::shared_ptr<File> F; uint64_t Off = 0; int Flags = 0; bool Open = false; };
constexpr int Base = 5000;
struct State { std::map<std::string, std::shared_ptr<File>> Files; std::vector<Fd> Fds; disk::Faults F; uint64_t Ops = 0, CrashIn = 0, Failed = 0; bool Crashed = false; bool Active = false; };
State &st() { static State S; return S; }
bool simPath(const char *P) { return st().Active && P && (strncmp(P, "/sim/", 5) == 0 || strncmp(P, "dag-", 4) == 0); }
Fd *fd(int N) { auto &S = st(); if (!S.Active || N < Base || N >= Base + (int)S.Fds.size() || !S.Fds[N - Base].Open) return nullptr; return &S.Fds[N - Base]; }
int fail(int E, const char *Kind) { NoFail G; st().Failed += E != EINTR; count((std::string("fault.disk.") + Kind).c_str()); ev(E); errno = E; return -1; }
bool oneIn(uint32_t N) { return N && chance(FAULT, 1, N); }
bool eintr() { return st().F.Eintr && chance(FAULT, 1, 6); }
// returns true if the mutation must be dropped
bool mutation() { auto &S = st(); ++S.Ops; if (S.Crashed) return true; if (S.CrashIn && --S.CrashIn == 0) { S.Crashed = true; count("fault.crash"); ev(0xC4A5); return true; } return false; }
int fillStat(const File &F, struct stat *B) { memset(B, 0, sizeof *B); B->st_mode = S_IFREG | 0644; B->st_size = F.Mem.size(); B->st_nlink = 1; B->st_ino = 1; B->st_blksize = 4096; return 0; }
} // namespace

namespace sim::disk {
void reset() { auto &S = st(); S = State(); S.Active = true; }
void faults(const Faults &F) { st().F = F; }
void put(const std::string &P, const std::string &C) { auto F = std::make_shared<File>(); F->Mem = F->Dur = C; F->DurExists = true; st().Files[P] = F; }
std::optional<std::string> get(const std::string &P) { auto It = st().Files.find(P); if (It == st().Files.end() || !It->second->Exists) return std::nullopt; return It->second->Mem; }
void remove(const std::string &P) { st().Files.erase(P); }
void crashAt(uint64_t Op) { auto &S = st(); S.CrashIn = Op; S.Crashed = false; }
bool crashed() { return st().Crashed; }
uint64_t mutatingOps() { return st().Ops; }
uint64_t failed() { return st().Failed; }
int openFds() { int N = 0; for (auto &F : st().Fds) N += F.Open; return N; }
void powerLoss() {
  auto &S = st(); S.Crashed = false; S.CrashIn = 0; S.F = Faults();
  for (auto &X : S.Fds) X.Open = false;
  for (auto It = S.Files.begin(); It != S.Files.end();) {
    File &F = *It->second;
    if (F.Dirty) switch (weighted(FAULT, {3, 1, 2, 1, 1})) {
      case 0: count("fault.writeback.complete"); break;                       // everything written back
      case 1: count("fault.writeback.lost"); if (!F.DurExists) { It = S.Files.erase(It); continue; } F.Mem = F.Dur; break; // nothing
      case 2: count("fault.writeback.torn"); F.Mem.resize(choose(FAULT, F.Mem.size() + 1)); break; // a prefix
      case 3: { count("fault.writeback.hole"); if (!F.Mem.empty()) { size_t A = choose(FAULT, F.Mem.size()); size_t N = 1 + choose(FAULT, F.Mem.size() - A); memset(&F.Mem[A], 0, N); } break; } // blocks allocated, data not written
      default: count("fault.writeback.truncated"); F.Mem.clear(); break;
    }
    F.Dur = F.Mem; F.DurExists = true; F.Dirty = false; ++It;
  }
}
} // namespace sim::disk

extern "C" {
static int simOpen(const char *P, int Fl) {
  auto &S = st();
  if (eintr()) return fail(EINTR, "eintr");
  if (oneIn(S.F.OpenFail)) { static const int E[] = {EMFILE, EACCES, EIO}; return fail(E[choose(FAULT, 3)], "open"); }
  auto It = S.Files.find(P);
  if (It == S.Files.end()) {
    if (!(Fl & O_CREAT)) { errno = ENOENT; return -1; }
    if (S.F.Capacity == 0) return fail(ENOSPC, "enospc");
    if (!mutation()) { auto F = std::make_shared<File>(); F->Dirty = true; It = S.Files.emplace(P, F).first; }
    else { S.Fds.push_back({std::make_shared<File>(), 0, Fl, true}); return Base + S.Fds.size() - 1; }
  } else if (Fl & O_TRUNC) { if (!mutation()) { It->second->Mem.clear(); It->second->Dirty = true; } else { S.Fds.push_back({std::make_shared<File>(), 0, Fl, true}); return Base + S.Fds.size() - 1; } }
  S.Fds.push_back({It->second, 0, Fl, true}); ev(S.Fds.size());
  return Base + S.Fds.size() - 1;
}
int open(const char *P, int Fl, ...) {
  va_list A; va_start(A, Fl); mode_t M = (Fl & (O_CREAT | O_TMPFILE)) ? va_arg(A, mode_t) : 0; va_end(A);
  if (simPath(P)) return simOpen(P, Fl);
  return syscall(SYS_openat, AT_FDCWD, P, Fl, M);
}
int open64(const char *P, int Fl, ...) {
  va_list A; va_start(A, Fl); mode_t M = (Fl & (O_CREAT | O_TMPFILE)) ? va_arg(A, mode_t) : 0; va_end(A);
  if (simPath(P)) return simOpen(P, Fl);
  return syscall(SYS_openat, AT_FDCWD, P, Fl, M);
}
ssize_t write(int N, const void *B, size_t L) {
  Fd *D = fd(N); if (!D) return syscall(SYS_write, N, B, L);
  auto &S = st(); if (!(D->Flags & (O_WRONLY | O_RDWR))) { errno = EBADF; return -1; }
  if (eintr()) return fail(EINTR, "eintr");
  if (oneIn(S.F.WriteFail)) return fail(chance(FAULT, 1, 2) ? EIO : ENOSPC, "write");
  if (L > 1 && S.F.Short && chance(FAULT, 1, 3)) { count("fault.disk.short-write"); L = 1 + choose(FAULT, L - 1); }
  if (S.F.Capacity != ~0ull) { if (S.F.Capacity == 0 && L) return fail(ENOSPC, "enospc"); if (L > S.F.Capacity) L = S.F.Capacity; S.F.Capacity -= L; }
  if (D->Flags & O_APPEND) D->Off = D->F->Mem.size();
  if (mutation()) { D->Off += L; return L; }
  auto &M = D->F->Mem; if (M.size() < D->Off + L) M.resize(D->Off + L); memcpy(&M[D->Off], B, L); D->Off += L; D->F->Dirty = true; ev(L); return L;
}
static ssize_t simRead(Fd *D, void *B, size_t L, uint64_t Off) {
  auto &S = st();
  if (eintr()) return fail(EINTR, "eintr");
  if (oneIn(S.F.ReadFail)) return fail(EIO, "read");
  auto &M = D->F->Mem; if (Off >= M.size()) return 0;
  L = std::min<uint64_t>(L, M.size() - Off);
  if (L > 1 && S.F.Short && chance(FAULT, 1, 3)) { count("fault.disk.short-read"); L = 1 + choose(FAULT, L - 1); }
  memcpy(B, &M[Off], L); return L;
}
ssize_t read(int N, void *B, size_t L) { Fd *D = fd(N); if (!D) return syscall(SYS_read, N, B, L); ssize_t R = simRead(D, B, L, D->Off); if (R > 0) D->Off += R; return R; }
ssize_t pread(int N, void *B, size_t L, off_t O) { Fd *D = fd(N); if (!D) return syscall(SYS_pread64, N, B, L, O); return simRead(D, B, L, O); }
ssize_t pread64(int N, void *B, size_t L, off_t O) { return pread(N, B, L, O); }
int close(int N) {
  Fd *D = fd(N); if (!D) return syscall(SYS_close, N);
  D->Open = false; if (oneIn(st().F.CloseFail)) { return fail(EIO, "close"); } return 0;
}
int fstat(int N, struct stat *B) { Fd *D = fd(N); if (!D) return syscall(SYS_fstat, N, B); return fillStat(*D->F, B); }
int fstat64(int N, struct stat64 *B) { return fstat(N, (struct stat *)B); }
int stat(const char *P, struct stat *B) { if (!simPath(P)) return syscall(SYS_stat, P, B); auto It = st().Files.find(P); if (It == st().Files.end()) { errno = ENOENT; return -1; } return fillStat(*It->second, B); }
int stat64(const char *P, struct stat64 *B) { return stat(P, (struct stat *)B); }
off_t lseek(int N, off_t O, int W) { Fd *D = fd(N); if (!D) return syscall(SYS_lseek, N, O, W); int64_t X = W == SEEK_SET ? 0 : W == SEEK_CUR ? D->Off : D->F->Mem.size(); if (X + O < 0) { errno = EINVAL; return -1; } return D->Off = X + O; }
off64_t lseek64(int N, off64_t O, int W) { return lseek(N, O, W); }
int ftruncate(int N, off_t L) { Fd *D = fd(N); if (!D) return syscall(SYS_ftruncate, N, L); if (!mutation()) { D->F->Mem.resize(L); D->F->Dirty = true; } return 0; }
int access(const char *P, int M) { if (!simPath(P)) return syscall(SYS_access, P, M); if (st().Files.count(P)) return 0; errno = ENOENT; return -1; }
int rename(const char *A, const char *B) {
  if (!simPath(A)) return syscall(SYS_rename, A, B);
  auto &S = st(); auto It = S.Files.find(A); if (It == S.Files.end()) { errno = ENOENT; return -1; }
  if (mutation()) return 0; S.Files[B] = It->second; S.Files.erase(A); return 0;
}
int unlink(const char *P) { if (!simPath(P)) return syscall(SYS_unlink, P); auto &S = st(); if (!S.Files.count(P)) { errno = ENOENT; return -1; } if (!mutation()) S.Files.erase(P); return 0; }
void *mmap(void *A, size_t L, int Pr, int Fl, int N, off_t O) {
  Fd *D = N >= Base ? fd(N) : nullptr; if (!D) return (void *)syscall(SYS_mmap, A, L, Pr, Fl, N, O);
  if (oneIn(st().F.ReadFail)) { fail(ENOMEM, "mmap"); return MAP_FAILED; }
  char *P = (char *)syscall(SYS_mmap, nullptr, L, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (P != MAP_FAILED && (uint64_t)O < D->F->Mem.size()) memcpy(P, D->F->Mem.data() + O, std::min<uint64_t>(L, D->F->Mem.size() - O));
  return P;
}
}
