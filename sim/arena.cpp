// All heap memory of the process comes from one region at a fixed address, so
// that object addresses (and with them the iteration order of every
// pointer-keyed container) are a function of the run's layout seed.
#include "core.h"
#include <cerrno>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>
#include <unistd.h>

namespace sim { extern void (*AllocHook)(void *, size_t); extern void (*FreeHook)(void *, size_t); extern int (*WhoAmI)(); }
namespace {
constexpr uintptr_t Base = 0x200000000000ull;
constexpr size_t PageSz = 1 << 16, NPages = 1 << 17; // 8 GiB
constexpr int NSmall = 64;                           // 16..1024 step 16
constexpr int NCls = NSmall + 6;                     // 2K,4K,8K,16K,32K,64K
// Two identical halves: the driver allocates in half 0, a simulated run in
// half 1, so that the driver's own allocations never move a run's objects.
uint8_t PageClsA[2][NPages];             // 0 free, 1+cls, 254 large head, 255 large tail
uint32_t LargePagesA[2][NPages];
size_t NextPageA[2] = {0, 0};
uint32_t *FreeListA[2][NCls];            // per class: array of slot numbers (offset/16)
uint32_t NFreeA[2][NCls];
int Cur = 0;
constexpr uintptr_t Span = PageSz * NPages;
bool Ready = false;
uint64_t *LiveBitsA[2]; // one bit per 16 bytes: block handed out
uint64_t LSeed = 0, NAlloc = 0, FailAt = 0, Live = 0;
bool Failed = false;

uint64_t rnd() { LSeed ^= LSeed << 13; LSeed ^= LSeed >> 7; LSeed ^= LSeed << 17; return LSeed; }
size_t clsSize(int C) { return C < NSmall ? (C + 1) * 16 : (size_t)2048 << (C - NSmall); }
int clsOf(size_t N) {
  if (N <= 1024) return N ? (int)((N + 15) / 16) - 1 : 0;
  int C = NSmall; size_t S = 2048; while (S < N) { S <<= 1; ++C; } return C;
}
void die(const char *M) { if (write(2, M, strlen(M))) {} abort(); }
void init() {
  Ready = true;
  size_t Per = (size_t)1 << 27; // 32M slots * 4 bytes
  for (int H = 0; H < 2; ++H) {
    void *P = mmap((void *)(Base + H * Span), Span, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (P != (void *)(Base + H * Span)) die("arena: cannot map\n");
    char *M = (char *)mmap(nullptr, Per * NCls, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (M == MAP_FAILED) die("arena: cannot map meta\n");
    void *B = mmap(nullptr, Span / 128, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (B == MAP_FAILED) die("arena: cannot map bits\n");
    LiveBitsA[H] = (uint64_t *)B;
    for (int I = 0; I < NCls; ++I) FreeListA[H][I] = (uint32_t *)(M + Per * I);
  }
}
#define HALF(H) auto &PageCls = PageClsA[H]; auto &LargePages = LargePagesA[H]; auto &NextPage = NextPageA[H]; auto &FreeList = FreeListA[H]; auto &NFree = NFreeA[H]; uint64_t *LiveBits = LiveBitsA[H]; const uintptr_t HB = Base + (H) * Span; (void)LargePages; (void)NextPage; (void)FreeList; (void)NFree; (void)LiveBits; (void)HB; (void)PageCls
size_t takePage() {
  HALF(Cur);
  size_t P = NextPage;
  if (LSeed) { // random placement inside a window
    for (int T = 0; T < 4; ++T) { size_t Q = NextPage + rnd() % 48; if (Q < NPages && !PageCls[Q]) { P = Q; break; } }
    if (PageCls[P]) { while (PageCls[P]) ++P; }
  }
  while (PageCls[NextPage]) ++NextPage;
  if (P < NextPage) P = NextPage;
  while (PageCls[P]) ++P;
  if (P >= NPages) die("arena: exhausted\n");
  return P;
}
void *allocRaw(size_t N) {
  if (!Ready) init();
  HALF(Cur);
  if (N > 65536) {
    size_t K = (N + PageSz - 1) / PageSz;
    // first fit over a free run
    size_t P = NextPage;
    while (true) {
      if (P + K >= NPages) return nullptr;
      size_t J = 0; while (J < K && !PageCls[P + J]) ++J;
      if (J == K) break;
      P += J + 1;
    }
    PageCls[P] = 254; for (size_t J = 1; J < K; ++J) PageCls[P + J] = 255;
    LargePages[P] = K; Live += K * PageSz;
    if (sim::AllocHook) sim::AllocHook((void *)(HB + P * PageSz), K * PageSz);
    return (void *)(HB + P * PageSz);
  }
  int C = clsOf(N); size_t Sz = clsSize(C);
  if (!NFree[C]) {
    size_t P = takePage(); PageCls[P] = C + 1;
    size_t Cnt = PageSz / Sz;
    for (size_t I = Cnt; I-- > 0;) FreeList[C][NFree[C]++] = (uint32_t)((P * PageSz + I * Sz) / 16);
  }
  uint32_t Ix = NFree[C] - 1;
  if (LSeed) { Ix = rnd() % NFree[C]; }
  uint32_t Sl = FreeList[C][Ix]; FreeList[C][Ix] = FreeList[C][NFree[C] - 1]; --NFree[C];
  Live += Sz;
  LiveBits[Sl / 64] |= 1ull << (Sl % 64);
  if (sim::AllocHook) sim::AllocHook((void *)(HB + (uintptr_t)Sl * 16), Sz);
  return (void *)(HB + (uintptr_t)Sl * 16);
}
void freeRaw(void *Q) {
  if (!Q) return;
  uintptr_t A = (uintptr_t)Q;
  if (A < Base || A >= Base + 2 * Span) return; // not ours (early loader)
  int Hf = A >= Base + Span; HALF(Hf); A -= Hf * Span;
  size_t P = (A - Base) / PageSz; uint8_t C = PageCls[P];
  if (C == 254) { size_t K = LargePages[P]; if (K < 512) memset(Q, 0xDB, K * PageSz); for (size_t J = 0; J < K; ++J) PageCls[P + J] = 0; if (P < NextPage) NextPage = P; Live -= K * PageSz; return; }
  if (C == 0 || C == 255) die("arena: Assertion `free of a pointer that is not an allocated block' failed\n");
  size_t Sz = clsSize(C - 1);
  if ((A - Base - P * PageSz) % Sz) die("arena: Assertion `free of an interior pointer' failed\n");
  uint32_t Sl = (uint32_t)((A - Base) / 16);
  if (!(LiveBits[Sl / 64] >> (Sl % 64) & 1)) die("arena: Assertion `no double free' failed\n");
  LiveBits[Sl / 64] &= ~(1ull << (Sl % 64));
  if (sim::FreeHook) sim::FreeHook(Q, Sz);
  memset(Q, 0xDB, Sz);
  FreeList[C - 1][NFree[C - 1]++] = (uint32_t)((A - Base) / 16); Live -= Sz;
}
size_t sizeRaw(void *Q) {
  uintptr_t A = (uintptr_t)Q; if (A < Base || A >= Base + 2 * Span) return 0;
  int Hf = A >= Base + Span; HALF(Hf); A -= Hf * Span;
  size_t P = (A - Base) / PageSz; uint8_t C = PageCls[P];
  return C == 254 ? LargePages[P] * PageSz : clsSize(C - 1);
}
int FailWho = -1;
bool failNow() { if (sim::WhoAmI && FailAt && sim::WhoAmI() != FailWho) return false; ++NAlloc; if (FailAt && NAlloc == FailAt) { Failed = true; FailAt = 0; return true; } return false; }
} // namespace

namespace sim {
void (*AllocHook)(void *, size_t) = nullptr;
void (*FreeHook)(void *, size_t) = nullptr;
// 1: inside a live heap block, 0: inside heap memory that is free, -1: elsewhere
int arenaState(const void *Q) {
  uintptr_t A = (uintptr_t)Q; if (A < Base || A >= Base + 2 * Span) return -1;
  int Hf = A >= Base + Span; HALF(Hf); A -= Hf * Span;
  size_t P = (A - Base) / PageSz; uint8_t C = PageCls[P];
  if (C >= 254) return 1;
  if (!C) return 0;
  size_t Sz = clsSize(C - 1), Off = A - Base - P * PageSz; uint32_t Sl = (uint32_t)((P * PageSz + Off / Sz * Sz) / 16);
  return LiveBits[Sl / 64] >> (Sl % 64) & 1;
}
void arenaLayout(uint32_t Seed) { if (!Ready) init(); LSeed = Seed ? 0x9e3779b97f4a7c15ull * Seed + Seed : 0; }
void arenaEnterRun() { if (!Ready) init(); Cur = 1; NAlloc = 0; Live = 0; }
int (*WhoAmI)() = nullptr; // the thread asking for memory, -2 for the oracle
void allocFailAt(uint64_t K) { int Me = WhoAmI ? WhoAmI() : -1; if (!K && FailAt && Me != FailWho) return; Failed = false; FailAt = K ? NAlloc + K : 0; FailWho = Me; }
uint64_t allocCount() { return NAlloc; }
bool allocFailed() { return Failed; }
uint64_t liveBytes() { return Live; }
NoFail::NoFail() : Saved(FailAt) { FailAt = 0; }
NoFail::~NoFail() { if (Saved) FailAt = Saved; }
} // namespace sim

extern "C" {
void *malloc(size_t N) { if (failNow()) { errno = ENOMEM; return nullptr; } return allocRaw(N); }
void free(void *P) { freeRaw(P); }
void *calloc(size_t A, size_t B) { void *P = malloc(A * B); if (P) memset(P, 0, A * B); return P; }
void *realloc(void *P, size_t N) {
  if (!P) return malloc(N);
  size_t O = sizeRaw(P); if (N <= O && N > O / 2) return P;
  void *Q = malloc(N); if (!Q) return nullptr; memcpy(Q, P, O < N ? O : N); freeRaw(P); return Q;
}
void *aligned_alloc(size_t Al, size_t N) {
  if (Al <= 16) return malloc(N);
  size_t S = Al; while (S < N) S <<= 1; // power-of-two classes are naturally aligned inside 64K pages
  if (S <= 1024) S = 2048;
  return malloc(S);
}
int posix_memalign(void **O, size_t Al, size_t N) { *O = aligned_alloc(Al, N); return *O ? 0 : ENOMEM; }
void *memalign(size_t Al, size_t N) { return aligned_alloc(Al, N); }
size_t malloc_usable_size(void *P) { return P ? sizeRaw(P) : 0; }
}
static void *nw(size_t N) { if (failNow()) throw std::bad_alloc(); void *P = allocRaw(N); if (!P) throw std::bad_alloc(); return P; }
void *operator new(size_t N) { return nw(N); }
void *operator new[](size_t N) { return nw(N); }
void *operator new(size_t N, const std::nothrow_t &) noexcept { return malloc(N); }
void *operator new[](size_t N, const std::nothrow_t &) noexcept { return malloc(N); }
void *operator new(size_t N, std::align_val_t A) { if (failNow()) throw std::bad_alloc(); --NAlloc; return aligned_alloc((size_t)A, N); }
void *operator new[](size_t N, std::align_val_t A) { return operator new(N, A); }
void operator delete(void *P) noexcept { freeRaw(P); }
void operator delete[](void *P) noexcept { freeRaw(P); }
void operator delete(void *P, size_t) noexcept { freeRaw(P); }
void operator delete[](void *P, size_t) noexcept { freeRaw(P); }
void operator delete(void *P, std::align_val_t) noexcept { freeRaw(P); }
void operator delete[](void *P, std::align_val_t) noexcept { freeRaw(P); }
void operator delete(void *P, size_t, std::align_val_t) noexcept { freeRaw(P); }
void operator delete[](void *P, size_t, std::align_val_t) noexcept { freeRaw(P); }
