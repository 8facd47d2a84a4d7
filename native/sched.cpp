// Replays a recorded schedule: the code under test is compiled with -fsanitize=thread but linked with this runtime, which
// runs the threads as coroutines, asks the recorded schedule who goes next before every atomic operation, and checks the
// same happens-before rules (and uses of released memory) as the symbolic executor.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <ucontext.h>
#include <vector>
#include <map>
extern "C" uint64_t vs_replay_next();
typedef std::vector<uint32_t> VC;
struct Th { ucontext_t ctx; bool done = false, blocked = false; VC vc; void (*f)(void*); void* a; char* stack; };
static Th* th[8]; static int nth = 1, cur = 0; static bool busy = false;
struct Shadow { uint32_t w[8], r[8]; bool wa[8], ra[8]; };
static std::map<uintptr_t, Shadow>* races; static std::map<uintptr_t, VC>* atoms;
struct Blk { size_t n; bool freed; }; static std::map<uintptr_t, Blk>* blocks;
static void die(const char* m) { fprintf(stderr, "REPLAY-ERROR %s\n", m); fflush(stderr); _exit(43); }
static void init() { if (th[0]) return; bool b = busy; busy = true; races = new std::map<uintptr_t, Shadow>; atoms = new std::map<uintptr_t, VC>; th[0] = new Th; th[0]->vc.assign(1, 1); busy = b; }
static void* raw(size_t n) { return malloc(n ? n : 1); }
static uint32_t at(const VC& v, size_t i) { return i < v.size() ? v[i] : 0; }
static void joinv(VC& a, const VC& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) if (b[i] > a[i]) a[i] = b[i]; }
static void released(uintptr_t p) { if (!blocks) return; auto it = blocks->upper_bound(p); if (it == blocks->begin()) return; --it; if (p < it->first + it->second.n && it->second.freed) die("use of released memory"); }
static void access(void* vp, size_t n, bool write, bool atomic) {
  if (busy) return; busy = true; uintptr_t p = (uintptr_t)vp; released(p);
  if (nth > 1) { VC& me = th[cur]->vc; for (size_t k = 0; k < n; k++) { Shadow& s = (*races)[p + k];
    for (int i = 0; i < nth; i++) if (i != cur) { bool cw = s.w[i] > at(me, i) && !(atomic && s.wa[i]), cr = write && s.r[i] > at(me, i) && !(atomic && s.ra[i]); if (cw || cr) die("data race: conflicting unsynchronised accesses by two threads"); }
    if (write) { s.w[cur] = me[cur]; s.wa[cur] = atomic; } else { s.r[cur] = me[cur]; s.ra[cur] = atomic; } } }
  busy = false;
}
static void switchTo(int t) { if (t == cur) return; int o = cur; cur = t; swapcontext(&th[o]->ctx, &th[t]->ctx); }
static bool pending = false;        // a thread was chosen: it performs its next visible operation without another decision
static void choose() { uint64_t t = vs_replay_next(); if (t >= (uint64_t)nth || th[t]->done) { fprintf(stderr, "REPLAY: diverged (schedule)\n"); _exit(77); } th[t]->blocked = false; pending = true; switchTo((int)t); }
static void decide() { // before a visible operation
  if (nth < 2) return; if (pending) { pending = false; return; } choose(); pending = false;
}
static void entry() { Th* t = th[cur]; t->f(t->a); t->done = true; pending = false; choose(); }
extern "C" {
int vs_sched_busy() { return busy; }
int vs_thread_create(void (*f)(void*), void* a) { init(); busy = true; Th* t = new Th; int id = nth; th[id] = t; t->f = f; t->a = a; t->vc = th[cur]->vc; t->vc.resize(id + 1, 0); t->vc[id] = 1; if (th[cur]->vc.size() <= (size_t)cur) th[cur]->vc.resize(cur + 1, 1); th[cur]->vc[cur]++; getcontext(&t->ctx); t->stack = (char*)malloc(1 << 18); t->ctx.uc_stack.ss_sp = t->stack; t->ctx.uc_stack.ss_size = 1 << 18; t->ctx.uc_link = nullptr; makecontext(&t->ctx, entry, 0); nth++; busy = false; return id; }
void vs_join_all() { for (;;) { bool all = true; for (int i = 1; i < nth; i++) all = all && th[i]->done; if (all) break; th[0]->blocked = true; pending = false; choose(); } busy = true; for (int i = 1; i < nth; i++) joinv(th[0]->vc, th[i]->vc); nth = 1; pending = false; th[0]->vc.resize(1); races->clear(); atoms->clear(); busy = false; }
void* vs_sched_alloc(size_t n) { busy = true; if (!blocks) blocks = new std::map<uintptr_t, Blk>; void* p = raw(n); (*blocks)[(uintptr_t)p] = {n ? n : 1, false}; busy = false; return p; }
void vs_sched_free(void* p) { busy = true; auto it = blocks->find((uintptr_t)p); if (it == blocks->end()) { busy = false; return; } if (it->second.freed) die("released twice"); size_t n = it->second.n; busy = false; init(); access(p, n, true, false); it->second.freed = true; } // (kept, so that later uses are seen)
static bool acq(int o) { return o == 2 || o == 1 || o == 4 || o == 5; } static bool rel(int o) { return o == 3 || o == 4 || o == 5; }
static void hook(void* p, size_t n, int o, bool rd, bool wr) { init(); decide(); access(p, n, wr, true); if (nth < 2) return; busy = true; VC& me = th[cur]->vc; VC& av = (*atoms)[(uintptr_t)p]; if (rd && acq(o)) joinv(me, av); if (wr) { if (rel(o)) { if (rd) joinv(av, me); else av = me; } else if (!rd) av.clear(); me[cur]++; } busy = false; }
#define AT(N, T) \
T __tsan_atomic##N##_load(const volatile T* a, int o) { hook((void*)a, sizeof(T), o, true, false); return *a; } \
void __tsan_atomic##N##_store(volatile T* a, T v, int o) { hook((void*)a, sizeof(T), o, false, true); *a = v; } \
T __tsan_atomic##N##_exchange(volatile T* a, T v, int o) { hook((void*)a, sizeof(T), o, true, true); T x = *a; *a = v; return x; } \
T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int o) { hook((void*)a, sizeof(T), o, true, true); T x = *a; *a = x + v; return x; } \
T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int o) { hook((void*)a, sizeof(T), o, true, true); T x = *a; *a = x - v; return x; } \
T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int o) { hook((void*)a, sizeof(T), o, true, true); T x = *a; *a = x & v; return x; } \
T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int o) { hook((void*)a, sizeof(T), o, true, true); T x = *a; *a = x | v; return x; } \
T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int o) { hook((void*)a, sizeof(T), o, true, true); T x = *a; *a = x ^ v; return x; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* e, T v, int o, int) { hook((void*)a, sizeof(T), o, true, true); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* e, T v, int o, int f) { return __tsan_atomic##N##_compare_exchange_strong(a, e, v, o, f); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T e, T v, int o, int f) { __tsan_atomic##N##_compare_exchange_strong(a, &e, v, o, f); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(N) void __tsan_read##N(void* p) { access(p, N, false, false); } void __tsan_write##N(void* p) { access(p, N, true, false); } void __tsan_unaligned_read##N(void* p) { access(p, N, false, false); } void __tsan_unaligned_write##N(void* p) { access(p, N, true, false); } void __tsan_read_write##N(void* p) { access(p, N, true, false); } void __tsan_unaligned_read_write##N(void* p) { access(p, N, true, false); } void __tsan_volatile_read##N(void* p) { access(p, N, false, false); } void __tsan_volatile_write##N(void* p) { access(p, N, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, uint64_t n) { access(p, n, false, false); } void __tsan_write_range(void* p, uint64_t n) { access(p, n, true, false); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, false); } void __tsan_vptr_read(void** p) { access(p, 8, false, false); }
void* __tsan_memcpy(void* d, const void* s, uint64_t n) { access((void*)s, n, false, false); access(d, n, true, false); return memcpy(d, s, n); } void* __tsan_memmove(void* d, const void* s, uint64_t n) { access((void*)s, n, false, false); access(d, n, true, false); return memmove(d, s, n); } void* __tsan_memset(void* d, int c, uint64_t n) { access(d, n, true, false); return memset(d, c, n); }
}
