#include "threads.h"
#include "core.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <string>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace sim { extern int (*WhoAmI)(); extern void (*AllocHook)(void *, size_t); extern void (*FreeHook)(void *, size_t); int arenaState(const void *P); }

namespace sim::thr {
namespace {
constexpr int NT = MaxThreads;
using VC = uint32_t[NT];
struct Thr { VC Pend = {}, RelF = {}; int Futex = 0; bool Used = false, Done = false; void *Wait = nullptr; VC C = {}; std::function<void()> Body; pthread_t P; };
Thr T[NT];
int Cur = 0, NThr = 0;
bool On = false;
uint64_t NSwitch = 0, NAccess = 0, NSync = 0;
uint32_t PlainMax = 0, SyncDen = 2, PlainLeft = 0;
thread_local int Tid = 0;
thread_local int Mute = 0;
thread_local const char *Where = "";

// ---- own memory, untouched by the simulated heap
char *Pool = nullptr; size_t PoolUsed = 0;
void *take(size_t N) {
  if (!Pool) { Pool = (char *)mmap(nullptr, 1ull << 34, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (Pool == MAP_FAILED) abort(); }
  N = (N + 15) & ~(size_t)15; void *P = Pool + PoolUsed; PoolUsed += N; return P;
}
struct Cell { uintptr_t Key; uint8_t WT[8]; uint32_t W[8]; uint32_t R[NT][8]; };
struct SyncVar { uintptr_t Key; VC C; int Owner; uint32_t Count; uint32_t Readers[NT]; };
template <class V, unsigned Bits> struct Tab {
  V **Slots = nullptr;
  V *get(uintptr_t K, bool Make) {
    if (!Slots) Slots = (V **)take(sizeof(V *) << Bits);
    uint64_t H = K * 0x9e3779b97f4a7c15ull >> (64 - Bits);
    for (;; H = (H + 1) & ((1ull << Bits) - 1)) {
      if (!Slots[H]) { if (!Make) return nullptr; Slots[H] = (V *)take(sizeof(V)); Slots[H]->Key = K; return Slots[H]; }
      if (Slots[H]->Key == K) return Slots[H];
    }
  }
};
Tab<Cell, 21> Shadow;
Tab<SyncVar, 16> Syncs;

void fwait(int *F) { while (__atomic_exchange_n(F, 0, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, F, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); }
void fwake(int *F) { __atomic_store_n(F, 1, __ATOMIC_RELEASE); syscall(SYS_futex, F, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

void handOver(int To) {
  int From = Tid; if (To == From) return;
  ++NSwitch; Cur = To; ev(0x7e0000 + To);
  fwake(&T[To].Futex);
  if (!T[From].Done) fwait(&T[From].Futex);
}
// picks a runnable thread; the current one counts as choice 0 if it can run
int pick() {
  int Rd[NT], N = 0;
  if (Tid && !T[Tid].Done && !T[Tid].Wait) Rd[N++] = Tid;
  for (int I = 1; I <= NThr; ++I) if (I != Tid && !T[I].Done && !T[I].Wait) Rd[N++] = I;
  if (!N) return -1;
  return Rd[N == 1 ? 0 : choose(SCHED, N)];
}
void resched() {
  int To = pick();
  if (To < 0) {
    bool AllDone = true; for (int I = 1; I <= NThr; ++I) AllDone &= T[I].Done;
    if (!AllDone) violation("threads:deadlock", "all threads wait for a lock");
    handOver(0); return;
  }
  handOver(To);
}
void drawPlain() { PlainLeft = PlainMax ? choose(SCHED, PlainMax) : 0; }
void plainPoint() { if (PlainLeft && --PlainLeft == 0) { resched(); drawPlain(); } }
void syncPoint() { ++NSync; step(); if (chance(SCHED, 1, SyncDen)) resched(); }

std::string sym(void *PC) {
  Dl_info I; if (dladdr(PC, &I) && I.dli_sname) { int St; char *D = abi::__cxa_demangle(I.dli_sname, nullptr, nullptr, &St); std::string S = D ? D : I.dli_sname; auto P = S.find('('); return S.substr(0, P == std::string::npos ? 200 : std::min<size_t>(P, 200)); }
  return "?";
}
void race(const char *Kind, uintptr_t A, int Other, void *PC) {
  Mute = 1; On = false;
  violation(std::string("threads:race:") + Kind, std::string("data race (") + Kind + "): thread " + std::to_string(Tid) + " in " + sym(PC) + " and thread " + std::to_string(Other) + " access the same memory without synchronisation");
}
void touch(uintptr_t A, size_t N, bool Write, bool Atomic, void *PC) {
  auto &Me = T[Tid];
  for (uintptr_t P = A; P < A + N;) {
    uintptr_t K = P & ~(uintptr_t)7; Cell *C = Shadow.get(K, true);
    for (; P < A + N && (P & ~(uintptr_t)7) == K; ++P) {
      int B = P & 7;
      if (C->W[B] && C->WT[B] != Tid && Me.C[C->WT[B]] < C->W[B]) race(Write ? "write-write" : "write-read", P, C->WT[B], PC);
      if (Write) for (int I = 0; I <= NThr; ++I) if (I != Tid && Me.C[I] < C->R[I][B]) race("read-write", P, I, PC);
      if (Write && !Atomic) { C->W[B] = Me.C[Tid]; C->WT[B] = Tid; } else C->R[Tid][B] = Me.C[Tid];
    }
  }
}
void forget(uintptr_t A, size_t N) {
  for (uintptr_t K = A & ~(uintptr_t)7; K < A + N; K += 8) if (Cell *C = Shadow.get(K, false)) { memset(C->W, 0, sizeof C->W); memset(C->R, 0, sizeof C->R); }
}
bool active() { return On && !Mute && Tid; }
void checkLive(uintptr_t A, void *PC, bool Write) {
  if (arenaState((void *)A) == 0) { Mute = 1; On = false; violation("threads:use-after-free", std::string("thread ") + std::to_string(Tid) + " accesses freed memory in " + sym(PC)); }
}
void access(const void *P, size_t N, bool Write, void *PC) {
  if (!active()) return;
  ++NAccess;
  plainPoint();
  checkLive((uintptr_t)P, PC, Write);
  // only shared memory: the heap and static storage, not thread stacks
  char Local; uintptr_t D = (uintptr_t)&Local > (uintptr_t)P ? (uintptr_t)&Local - (uintptr_t)P : (uintptr_t)P - (uintptr_t)&Local;
  if (D < (1u << 22)) return;
  touch((uintptr_t)P, N, Write, false, PC);
}
void acquire(SyncVar *S) { for (int I = 0; I < NT; ++I) T[Tid].C[I] = std::max(T[Tid].C[I], S->C[I]); }
void release(SyncVar *S) { for (int I = 0; I < NT; ++I) S->C[I] = std::max(S->C[I], T[Tid].C[I]); ++T[Tid].C[Tid]; }
// Kind: 0 load, 1 store, 2 read-modify-write
void atomicPre(const volatile void *P, size_t N, void *PC) { if (!active()) return; syncPoint(); checkLive((uintptr_t)P, PC, true); }
void atomicPost(const volatile void *P, size_t N, int Kind, int MO, void *PC) {
  if (!active()) return;
  char Local; uintptr_t D = (uintptr_t)&Local > (uintptr_t)P ? (uintptr_t)&Local - (uintptr_t)P : (uintptr_t)P - (uintptr_t)&Local;
  if (D < (1u << 22)) return;
  // races with plain accesses; atomic ones are recorded like reads, so that only a plain write (or free) conflicts
  touch((uintptr_t)P, N, false, true, PC);
  SyncVar *S = Syncs.get((uintptr_t)P ^ 1, true);
  bool Acq = MO == 1 || MO == 2 || MO == 4 || MO == 5, Rel = MO == 3 || MO == 4 || MO == 5;
  if (Kind != 1) { if (Acq) acquire(S); else for (int I = 0; I < NT; ++I) T[Tid].Pend[I] = std::max(T[Tid].Pend[I], S->C[I]); }
  if (Kind == 1) memset(S->C, 0, sizeof S->C); // a store ends the release sequence
  if (Kind != 0) { if (Rel) release(S); else for (int I = 0; I < NT; ++I) S->C[I] = std::max(S->C[I], T[Tid].RelF[I]); }
}
void fence(int MO) {
  if (!active()) return;
  syncPoint();
  if (MO == 1 || MO == 2 || MO == 4 || MO == 5) for (int I = 0; I < NT; ++I) T[Tid].C[I] = std::max(T[Tid].C[I], T[Tid].Pend[I]);
  if (MO >= 3) { memcpy(T[Tid].RelF, T[Tid].C, sizeof T[Tid].C); ++T[Tid].C[Tid]; }
}
void onAlloc(void *P, size_t N) { if (!On) return; forget((uintptr_t)P, N); if (active()) plainPoint(); }
void onFree(void *P, size_t N) {
  if (!On || !P) return;
  if (active()) touch((uintptr_t)P, N, true, false, __builtin_return_address(0));
}
void *entry(void *A) {
  Tid = (int)(intptr_t)A; fwait(&T[Tid].Futex);
  T[Tid].Body();
  Mute = 1; { Cell *C = nullptr; (void)C; }
  for (int I = 0; I < NT; ++I) T[0].C[I] = std::max(T[0].C[I], T[Tid].C[I]);
  T[Tid].Done = true;
  resched();
  int Never = 0; while (true) fwait(&Never);
}
void lockBlock(void *M) { T[Tid].Wait = M; int To = pick(); if (To < 0) violation("threads:deadlock", "all threads wait for a lock"); handOver(To); }
void wakeWaiters(void *M) { for (int I = 1; I <= NThr; ++I) if (T[I].Wait == M) T[I].Wait = nullptr; }
bool mLock(void *M, bool Recursive, bool Try) {
  syncPoint();
  SyncVar *S = Syncs.get((uintptr_t)M, true);
  while (S->Owner && !(Recursive && S->Owner == Tid)) {
    if (Try) return false;
    if (S->Owner == Tid) violation("threads:self-deadlock", "a thread locks a mutex it already holds");
    count("threads.lock-contended");
    lockBlock(M);
  }
  S->Owner = Tid; ++S->Count; acquire(S);
  return true;
}
void mUnlock(void *M) {
  SyncVar *S = Syncs.get((uintptr_t)M, true);
  if (S->Owner != Tid) violation("threads:unlock-not-owner", "a thread unlocks a mutex it does not hold");
  if (--S->Count == 0) { S->Owner = 0; release(S); wakeWaiters(M); }
  syncPoint();
}
} // namespace

int self() { return Tid; }
uint64_t switches() { return NSwitch; }
uint64_t accesses() { return NAccess; }
Quiet::Quiet() : Old(Mute) { Mute = 1; }
Quiet::~Quiet() { Mute = Old; }

void run(std::initializer_list<std::function<void()>> B) { run(std::vector<std::function<void()>>(B)); }
void run(const std::vector<std::function<void()>> &Bodies) {
  if (Bodies.size() >= NT) abort();
  NThr = Bodies.size();
  static const uint32_t PM[] = {0, 4000, 400, 60, 12}, SD[] = {2, 4, 16, 64, 3};
  PlainMax = PM[choose(SCHED, 5)]; SyncDen = SD[choose(SCHED, 5)];
  AllocHook = onAlloc; FreeHook = onFree; WhoAmI = []() -> int { return Mute ? -2 : Tid; };
  ++T[0].C[0];
  for (int I = 1; I <= NThr; ++I) {
    T[I].Body = Bodies[I - 1]; T[I].Used = true; memcpy(T[I].C, T[0].C, sizeof T[0].C); T[I].C[I] = 1;
    pthread_attr_t At; pthread_attr_init(&At); pthread_attr_setstacksize(&At, 1 << 22);
    if (pthread_create(&T[I].P, &At, entry, (void *)(intptr_t)I)) { perror("pthread_create"); _exit(4); }
  }
  On = true; drawPlain();
  int First = pick(); Cur = First; fwake(&T[First].Futex); fwait(&T[0].Futex);
  On = false; AllocHook = nullptr; FreeHook = nullptr; WhoAmI = nullptr; allocFailAt(0);
  count("threads.context-switches", NSwitch); count("threads.sync-operations", NSync); count("threads.memory-accesses", NAccess);
}
} // namespace sim::thr

using namespace sim::thr;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N) void __tsan_read##N(void *P) { access(P, N, false, PC); } void __tsan_write##N(void *P) { access(P, N, true, PC); } \
  void __tsan_unaligned_read##N(void *P) { access(P, N, false, PC); } void __tsan_unaligned_write##N(void *P) { access(P, N, true, PC); } \
  void __tsan_read_write##N(void *P) { access(P, N, false, PC); access(P, N, true, PC); } void __tsan_unaligned_read_write##N(void *P) { access(P, N, false, PC); access(P, N, true, PC); } \
  void __tsan_volatile_read##N(void *P) { access(P, N, false, PC); } void __tsan_volatile_write##N(void *P) { access(P, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *P, size_t N) { access(P, N, false, PC); }
void __tsan_write_range(void *P, size_t N) { access(P, N, true, PC); }
void __tsan_vptr_read(void **P) { access(P, 8, false, PC); }
void __tsan_vptr_update(void **P, void *V) { if (*P != V) access(P, 8, true, PC); }
#define AT(B, Ty) \
  Ty __tsan_atomic##B##_load(const volatile Ty *P, int MO) { atomicPre(P, sizeof(Ty), PC); Ty R = __atomic_load_n(P, 5); atomicPost(P, sizeof(Ty), 0, MO, PC); return R; } \
  void __tsan_atomic##B##_store(volatile Ty *P, Ty V, int MO) { atomicPre(P, sizeof(Ty), PC); __atomic_store_n(P, V, 5); atomicPost(P, sizeof(Ty), 1, MO, PC); } \
  Ty __tsan_atomic##B##_exchange(volatile Ty *P, Ty V, int MO) { atomicPre(P, sizeof(Ty), PC); Ty R = __atomic_exchange_n(P, V, 5); atomicPost(P, sizeof(Ty), 2, MO, PC); return R; } \
  Ty __tsan_atomic##B##_fetch_add(volatile Ty *P, Ty V, int MO) { atomicPre(P, sizeof(Ty), PC); Ty R = __atomic_fetch_add(P, V, 5); atomicPost(P, sizeof(Ty), 2, MO, PC); return R; } \
  Ty __tsan_atomic##B##_fetch_sub(volatile Ty *P, Ty V, int MO) { atomicPre(P, sizeof(Ty), PC); Ty R = __atomic_fetch_sub(P, V, 5); atomicPost(P, sizeof(Ty), 2, MO, PC); return R; } \
  Ty __tsan_atomic##B##_fetch_and(volatile Ty *P, Ty V, int MO) { atomicPre(P, sizeof(Ty), PC); Ty R = __atomic_fetch_and(P, V, 5); atomicPost(P, sizeof(Ty), 2, MO, PC); return R; } \
  Ty __tsan_atomic##B##_fetch_or(volatile Ty *P, Ty V, int MO) { atomicPre(P, sizeof(Ty), PC); Ty R = __atomic_fetch_or(P, V, 5); atomicPost(P, sizeof(Ty), 2, MO, PC); return R; } \
  Ty __tsan_atomic##B##_fetch_xor(volatile Ty *P, Ty V, int MO) { atomicPre(P, sizeof(Ty), PC); Ty R = __atomic_fetch_xor(P, V, 5); atomicPost(P, sizeof(Ty), 2, MO, PC); return R; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile Ty *P, Ty *E, Ty V, int MO, int F) { atomicPre(P, sizeof(Ty), PC); bool Ok = __atomic_compare_exchange_n(P, E, V, false, 5, 5); atomicPost(P, sizeof(Ty), Ok ? 2 : 0, Ok ? MO : F, PC); return Ok; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile Ty *P, Ty *E, Ty V, int MO, int F) { return __tsan_atomic##B##_compare_exchange_strong(P, E, V, MO, F); } \
  Ty __tsan_atomic##B##_compare_exchange_val(volatile Ty *P, Ty E, Ty V, int MO, int F) { __tsan_atomic##B##_compare_exchange_strong(P, &E, V, MO, F); return E; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int MO) { fence(MO); }
void __tsan_atomic_signal_fence(int) {}

// ---- locks (also those taken inside libLLVM and libstdc++)
static bool recursiveMutex(pthread_mutex_t *M) { return (M->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int pthread_mutex_lock(pthread_mutex_t *M) { if (active()) mLock(M, recursiveMutex(M), false); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *M) { if (active()) return mLock(M, recursiveMutex(M), true) ? 0 : 16; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *M) { if (active()) mUnlock(M); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *M) { if (active()) mLock(M, true, false); return 0; } // readers exclude each other here: a coarser but legal schedule
int pthread_rwlock_rdlock(pthread_rwlock_t *M) { if (active()) mLock(M, true, false); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *M) { if (active()) mUnlock(M); return 0; }
int pthread_once(pthread_once_t *O, void (*F)()) {
  if (!active()) { if (*O != 2) { *O = 2; F(); } return 0; }
  mLock(O, false, false);
  if (*O != 2) { F(); *O = 2; }
  mUnlock(O); return 0;
}
int simGuardAcquire(uint64_t *G) __asm__("__cxa_guard_acquire");
void simGuardRelease(uint64_t *G) __asm__("__cxa_guard_release");
void simGuardAbort(uint64_t *G) __asm__("__cxa_guard_abort");
int simGuardAcquire(uint64_t *G) {
  auto Done = [&] { if (!*(volatile char *)G) return false; if (active()) acquire(Syncs.get((uintptr_t)G ^ 1, true)); return true; };
  if (Done()) return 0;
  if (active()) { mLock(G, false, false); if (Done()) { mUnlock(G); return 0; } }
  return 1;
}
void simGuardRelease(uint64_t *G) { *(volatile char *)G = 1; if (active()) { release(Syncs.get((uintptr_t)G ^ 1, true)); mUnlock(G); } }
void simGuardAbort(uint64_t *G) { if (active()) mUnlock(G); }
}
