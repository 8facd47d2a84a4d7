// Harness interface. The symbolic executor implements these functions itself; native/rt.cpp implements them
// for replaying a counterexample against an ordinary sanitizer build.
#pragma once
#include <stdint.h>
extern "C" {
  uint64_t vs_u64(const char* name); uint32_t vs_u32(const char* name); uint16_t vs_u16(const char* name); uint8_t vs_u8(const char* name);
  int64_t vs_range(const char* name, int64_t lo, int64_t hi);   // symbolic value in [lo,hi]
  int64_t vs_choice(const char* name, int64_t n);               // symbolic selector in [0,n), split into one path per value
  int64_t vs_concretize(int64_t v);
  void vs_assume(int c);
  void vs_assert(int c, const char* id);
  void vs_fail(const char* id);
  void vs_reach(const char* label);
  int64_t vs_live();                                            // number of live heap blocks
  int64_t vs_allocs();                                          // number of heap allocations so far
  void vs_heap_desc(int on);                                    // later heap blocks get lower addresses
  int vs_native();
  void vs_path_end();
  int64_t vs_ite64(int c, int64_t a, int64_t b);
  uint64_t vs_fresh64();
  double vs_decimal(int neg, const uint8_t* digits, int n, uint64_t bits); // bits: of the magnitude if known, else 0; the double nearest to the decimal of n integer and 6 fraction digits
  void vs_debug(const char* n, int64_t v);
  int vs_thread_create(void (*f)(void*), void* arg);
  void vs_join_all();
  void vs_preemptions(int n);                                   // at most n switches away from a thread that could go on
}
#define VS_ENTRY(NAME) extern "C" void NAME()
#define VS_THOROUGH(NAME) extern "C" void NAME()
#ifndef TIER
#define TIER 0
#endif
#define BOUND(Q, T) (TIER ? (T) : (Q))
#define A(C, ID) vs_assert((C) ? 1 : 0, ID)
// the expression must raise vl::Error
#define MUST_THROW(EXPR, ID) do { bool vs_thrown = false; try { EXPR; } catch (const vl::Error&) { vs_thrown = true; } A(vs_thrown, ID); } while (0)
// the expression must not raise vl::Error
#define MUST_NOT_THROW(EXPR, ID) do { bool vs_thrown = false; try { EXPR; } catch (const vl::Error&) { vs_thrown = true; } A(!vs_thrown, ID); } while (0)
