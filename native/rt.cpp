// Native implementation of the harness interface: replays one recorded counterexample.
// usage: prog ENTRY INPUTFILE    (INPUTFILE: one unsigned decimal per line, in the order the harness asked for them)
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dlfcn.h>
#include <unistd.h>
#include <new>
#include <vector>
static FILE* in; static long live = 0, allocs = 0; static bool counting = true;
static uint64_t next() { unsigned long long v; if (!in || fscanf(in, "%llu", &v) != 1) { fprintf(stderr, "REPLAY: input exhausted\n"); fflush(stderr); _exit(77); } return v; }
extern "C" {
  void vs_preemptions(int) {} uint64_t vs_replay_next() { return next(); } int vs_sched_busy() __attribute__((weak)); void* vs_sched_alloc(size_t) __attribute__((weak)); void vs_sched_free(void*) __attribute__((weak));
  __attribute__((weak)) int vs_thread_create(void (*)(void*), void*) { fprintf(stderr, "REPLAY: no schedule\n"); _exit(77); } __attribute__((weak)) void vs_join_all() {}
  uint64_t vs_u64(const char*) { return next(); } uint32_t vs_u32(const char*) { return (uint32_t)next(); } uint16_t vs_u16(const char*) { return (uint16_t)next(); } uint8_t vs_u8(const char*) { return (uint8_t)next(); }
  int64_t vs_range(const char*, int64_t lo, int64_t hi) { int64_t v = (int64_t)next(); if (v < lo || v > hi) { fprintf(stderr, "REPLAY: diverged (range)\n"); _exit(77); } return v; }
  int64_t vs_choice(const char*, int64_t n) { int64_t v = (int64_t)next(); if (v < 0 || v >= n) { fprintf(stderr, "REPLAY: diverged (choice)\n"); _exit(77); } return v; }
  int64_t vs_concretize(int64_t v) { return v; }
  void vs_assume(int c) { if (!c) { fprintf(stderr, "REPLAY: assumption false\n"); fflush(stderr); _exit(77); } }
  void vs_assert(int c, const char* id) { if (!c) { fprintf(stderr, "REPLAY-ASSERT %s\n", id); fflush(stderr); _exit(42); } }
  void vs_fail(const char* id) { vs_assert(0, id); }
  void vs_reach(const char*) {}
  int64_t vs_live() { return live; } int64_t vs_allocs() { return allocs; }
  void vs_heap_desc(int); int vs_native() { return 1; } void vs_path_end() { fprintf(stderr, "REPLAY-END\n"); _exit(0); }
  int64_t vs_ite64(int c, int64_t a, int64_t b) { return c ? a : b; }
  double vs_decimal(int neg, const uint8_t* d, int n, uint64_t) { static char t[400]; int k = 0; if (neg) t[k++] = '-'; for (int i = 0; i < n + 6; i++) { if (i == n) t[k++] = '.'; t[k++] = (char)('0' + d[i]); } t[k] = 0; return strtod(t, nullptr); }
  uint64_t vs_fresh64() { fprintf(stderr, "REPLAY: model-only nondeterminism\n"); _exit(77); }
  void vs_debug(const char* n, int64_t v) { fprintf(stderr, "[dbg] %s = %lld\n", n, (long long)v); }
}
static bool desc = false; static char* arena = nullptr; static size_t arenaPos = 0; static const size_t ARENA = 8 << 20;
extern "C" void vs_heap_desc(int on) { desc = on != 0; }
static void* getmem(size_t n) {
  if (vs_sched_busy && vs_sched_busy()) return malloc(n);
  allocs++; live++; if (vs_sched_alloc) return vs_sched_alloc(n);
  if (desc) { if (!arena) { arena = (char*)malloc(ARENA); arenaPos = ARENA; } size_t k = (n + 31) / 16 * 16; if (k < arenaPos) { arenaPos -= k; return arena + arenaPos; } }
  void* p = malloc(n); if (!p) { fprintf(stderr, "REPLAY-OOM\n"); _exit(43); } 
#ifndef NO_FILL
  static int fill = getenv("VS_FILL") ? atoi(getenv("VS_FILL")) : 0xBE; memset(p, fill, n);
#endif
  return p;
}
static void putmem(void* p) { if (!p) return; if (vs_sched_busy && vs_sched_busy()) { free(p); return; } live--; if (vs_sched_free) { vs_sched_free(p); return; } if (arena && (char*)p >= arena && (char*)p < arena + ARENA) return; free(p); }
#ifndef NO_NEW_OVERRIDE
// distinct headers for new and new[] are left to the sanitizer when NO_NEW_OVERRIDE is defined
void* operator new(size_t n) { return getmem(n); } void* operator new[](size_t n) { return getmem(n); }
void operator delete(void* p) noexcept { putmem(p); } void operator delete[](void* p) noexcept { putmem(p); }
void operator delete(void* p, size_t) noexcept { putmem(p); } void operator delete[](void* p, size_t) noexcept { putmem(p); }
#endif
int main(int argc, char** argv) {
  if (argc < 3) return 2; in = fopen(argv[2], "r"); auto f = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!f) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
  live = 0; f(); fprintf(stderr, "REPLAY-END\n"); fflush(stderr); _exit(0);
}
