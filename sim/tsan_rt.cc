// Runtime for code instrumented with -fsanitize=thread: every memory access of
// the code under test is a counted event at which the seeded scheduler may
// preempt the thread.  (No race detection: outcomes are judged, not accesses.)
#include <string.h>
#include "sim_int.h"

namespace sim {
void ResetRace() {}
void RaceAcquire(const void*) {}
void RaceRelease(const void*) {}
void RaceReleaseRw(const void*, bool) {}
void RaceFork(int, int) {}
void RaceJoin(int, int) {}
void RaceThreadStart(int) {}
void RaceThreadEnd(int) {}
void RaceFree(void*, size_t) {}
}  // namespace sim
using namespace sim;

#define T extern "C" __attribute__((visibility("default")))
// Conflict-directed preemption: who touched this word last?  An access to a
// word another live, runnable thread of the process touched (one of them
// writing) is a likelier place for a preemption to matter.
struct Shadow { uint64_t key; };   // address/8 << 17 | thread+1 << 1 | written
static Shadow g_shadow[1 << 15];
static __attribute__((noinline)) void Conflict(const volatile void* a, bool w) {
  if (!Active()) return;
  uint64_t word = (uint64_t)a >> 3, t = (uint64_t)CurThread() + 1;
  Shadow& e = g_shadow[(word ^ (word >> 15)) & ((1 << 15) - 1)];
  uint64_t k = e.key;
  uint64_t nk = (word << 17) | (t << 1) | (w ? 1 : 0);
  if ((k >> 17) != (word & ((uint64_t{1} << 47) - 1))) { e.key = nk; return; }
  uint64_t ot = (k >> 1) & 0xffff;
  if (ot == t) { if (w) e.key |= 1; return; }
  bool clash = w || (k & 1);
  e.key = nk;
  if (clash) MemConflict((int)ot - 1);
}
static inline __attribute__((always_inline)) void Acc(const volatile void* a, bool w) {
  if (__builtin_expect(++S->acc >= S->next_pre, 0)) MemSlow();
  else if (__builtin_expect(S->conf, 0)) Conflict(a, w);
}
T void __tsan_init() {}
T void __tsan_func_entry(void*) {}
T void __tsan_func_exit() {}
T void __tsan_ignore_thread_begin() {}
T void __tsan_ignore_thread_end() {}
#define RW(n) \
  T void __tsan_read##n(void* a) { Acc(a, false); } \
  T void __tsan_write##n(void* a) { Acc(a, true); } \
  T void __tsan_unaligned_read##n(void* a) { Acc(a, false); } \
  T void __tsan_unaligned_write##n(void* a) { Acc(a, true); } \
  T void __tsan_volatile_read##n(void* a) { Acc(a, false); } \
  T void __tsan_volatile_write##n(void* a) { Acc(a, true); } \
  T void __tsan_unaligned_volatile_read##n(void* a) { Acc(a, false); } \
  T void __tsan_unaligned_volatile_write##n(void* a) { Acc(a, true); } \
  T void __tsan_read_write##n(void* a) { Acc(a, true); } \
  T void __tsan_unaligned_read_write##n(void* a) { Acc(a, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
T void __tsan_read_range(void* a, size_t) { Acc(a, false); }
T void __tsan_write_range(void* a, size_t) { Acc(a, true); }
T void __tsan_vptr_update(void** a, void*) { Acc(a, true); }
T void __tsan_vptr_read(void** a) { Acc(a, false); }
T void* __tsan_memcpy(void* d, const void* s, size_t n) { Acc(d, true); return memcpy(d, s, n); }
T void* __tsan_memmove(void* d, const void* s, size_t n) { Acc(d, true); return memmove(d, s, n); }
T void* __tsan_memset(void* d, int c, size_t n) { Acc(d, true); return memset(d, c, n); }

// A thread that keeps loading the same values from the same few places is
// polling: it gives the others simulated time.
struct Spin { const volatile void* a[4]; uint64_t v[4], acc; uint32_t n, next, sleeps; };
static thread_local Spin tl_spin;
static void SpinSlow(uint32_t k) {  // the longer it polls, the longer the pause
  if (!Active()) return;
  SleepNs(20000ull << (k < 8 ? k : 8));
}
static inline void Polled(const volatile void* a, uint64_t v, bool guard_like) {
  if (guard_like) return;  // initialised function-local static
  Spin& s = tl_spin;
  for (int i = 0; i < 4; ++i)
    if (s.a[i] == a) {
      if (s.v[i] == v) {
        ++s.n;
        if (s.n >= 64 || (S->acc - s.acc > 20000 && s.n >= 1)) { s.n = 0; s.acc = S->acc; SpinSlow(s.sleeps++); }
      } else { s = Spin(); s.a[0] = a; s.v[0] = v; s.next = 1; s.acc = S->acc; }
      return;
    }
  if (s.next >= 4) { s = Spin(); }
  s.a[s.next] = a; s.v[s.next++] = v; s.n = 0; s.acc = S->acc;
}
#define AT(bits, ty) \
  T ty __tsan_atomic##bits##_load(const volatile ty* a, int) { Acc(a, false); ty v = __atomic_load_n(a, __ATOMIC_SEQ_CST); Polled(a, (uint64_t)v, bits == 8 && v == 1); return v; } \
  T void __tsan_atomic##bits##_store(volatile ty* a, ty v, int) { Acc((const volatile void*)a, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T ty __tsan_atomic##bits##_exchange(volatile ty* a, ty v, int) { Acc((const volatile void*)a, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T ty __tsan_atomic##bits##_fetch_add(volatile ty* a, ty v, int) { Acc((const volatile void*)a, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T ty __tsan_atomic##bits##_fetch_sub(volatile ty* a, ty v, int) { Acc((const volatile void*)a, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T ty __tsan_atomic##bits##_fetch_and(volatile ty* a, ty v, int) { Acc((const volatile void*)a, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T ty __tsan_atomic##bits##_fetch_or(volatile ty* a, ty v, int) { Acc((const volatile void*)a, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T ty __tsan_atomic##bits##_fetch_xor(volatile ty* a, ty v, int) { Acc((const volatile void*)a, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T ty __tsan_atomic##bits##_fetch_nand(volatile ty* a, ty v, int) { Acc((const volatile void*)a, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  T int __tsan_atomic##bits##_compare_exchange_strong(volatile ty* a, ty* c, ty v, int, int) { Acc((const volatile void*)a, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T int __tsan_atomic##bits##_compare_exchange_weak(volatile ty* a, ty* c, ty v, int, int) { Acc((const volatile void*)a, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T ty __tsan_atomic##bits##_compare_exchange_val(volatile ty* a, ty c, ty v, int, int) { Acc((const volatile void*)a, true); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
T void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
T void __tsan_atomic_signal_fence(int) {}
