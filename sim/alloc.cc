// Deterministic allocator: addresses and reused contents are a pure function of
// the allocation sequence (the libc allocator's arenas depend on real timing).
#include <errno.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <cstddef>
#include <cstdint>
#include <new>

namespace sim {
bool AllocShouldFail(size_t n);
void RaceFree(void* p, size_t n);
}
extern "C" int sim_alloc_hook_on;
int sim_alloc_hook_on = 0;

namespace {
constexpr uintptr_t kBase = 0x100000000000ull;
constexpr size_t kSize = size_t{1} << 36;
struct Hdr { uint32_t cls; uint32_t magic; uint64_t size; };
static_assert(sizeof(Hdr) == 16, "");
struct Free { Free* next; };
uintptr_t g_cur = 0, g_end = 0, g_run = 0;
Free* g_free[512];
int g_lock = 0;

struct Guard {
  Guard() { while (__atomic_exchange_n(&g_lock, 1, __ATOMIC_ACQUIRE)) { } }
  ~Guard() { __atomic_store_n(&g_lock, 0, __ATOMIC_RELEASE); }
};

inline uint32_t ClassOf(size_t n, size_t* rounded) {
  if (n <= 1024) {
    size_t r = (n + 15) & ~size_t{15};
    if (r == 0) r = 16;
    *rounded = r;
    return r / 16;
  }
  int lg = 63 - __builtin_clzll(n - 1);  // 2^lg < n <= 2^(lg+1)
  size_t step = size_t{1} << (lg - 2);
  size_t base = size_t{1} << lg;
  size_t k = (n - base + step - 1) / step;
  *rounded = base + k * step;
  return 70 + (lg - 10) * 4 + (k - 1);
}

void* Alloc(size_t n, bool zero) {
  size_t r;
  uint32_t c = ClassOf(n, &r);
  void* p;
  bool fresh = false;
  {
    Guard g;
    if (g_free[c]) {
      p = g_free[c];
      g_free[c] = g_free[c]->next;
    } else {
      if (g_cur == 0) {
        void* m = mmap(reinterpret_cast<void*>(kBase), kSize,
                       PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (m == MAP_FAILED) return nullptr;
        g_cur = kBase;
        g_end = kBase + kSize;
      }
      if (g_cur + r + 16 > g_end || n > kSize / 4) { errno = ENOMEM; return nullptr; }
      p = reinterpret_cast<void*>(g_cur + 16);
      g_cur += r + 16;
      fresh = true;
    }
  }
  Hdr* h = reinterpret_cast<Hdr*>(p) - 1;
  h->cls = c;
  h->magic = 0x51A110C8;
  h->size = n;
  if (zero) {
    if (!fresh) memset(p, 0, n);
  } else {
    // contents of fresh memory are unspecified: never let zeros hide a bug
    memset(p, 0xA5, n < 4096 ? n : 4096);
  }
  return p;
}
}  // namespace

namespace sim {
// A run starts from an empty heap at a fixed address, whatever its process did
// before: addresses decide hash orders and where the conflict table collides.
void AllocNewRun() {
  Alloc(1, false);
  uintptr_t at = kBase + (uintptr_t{1} << 33);
  if (g_cur >= at) { const char m[] = "sim: heap too large\n"; (void)!write(2, m, sizeof m - 1); __builtin_trap(); }
  g_run = g_cur = at;
  memset(g_free, 0, sizeof g_free);
}
}  // namespace sim

extern "C" {
void* malloc(size_t n) { return Alloc(n, false); }
void free(void* p) {
  if (!p) return;
  Hdr* h = reinterpret_cast<Hdr*>(p) - 1;
  if (h->magic != 0x51A110C8) {
    if (h->magic == 0x0FF5E7) { free(reinterpret_cast<void*>(h->size)); return; }
    const char m[] = "sim: bad free or double free\n";
    (void)!write(2, m, sizeof m - 1);
    __builtin_trap();
  }
  h->magic = 0xDEADF7EE;
  sim::RaceFree(p, h->size);
  memset(p, 0xDD, h->size < 4096 ? h->size : 4096);
  if (reinterpret_cast<uintptr_t>(p) < g_run) return;  // older than the run
  Guard g;
  Free* f = reinterpret_cast<Free*>(p);
  f->next = g_free[h->cls];
  g_free[h->cls] = f;
}
void* calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  return Alloc(n, true);
}
size_t malloc_usable_size(void* p) {
  if (!p) return 0;
  Hdr* h = reinterpret_cast<Hdr*>(p) - 1;
  return h->magic == 0x51A110C8 ? h->size : 0;
}
void* memalign(size_t al, size_t n) {
  if (al <= 16) return malloc(n);
  void* raw = Alloc(n + al + 16, false);
  if (!raw) return nullptr;
  uintptr_t u = (reinterpret_cast<uintptr_t>(raw) + 16 + al - 1) & ~(uintptr_t)(al - 1);
  if (u == reinterpret_cast<uintptr_t>(raw)) return raw;
  Hdr* h = reinterpret_cast<Hdr*>(u) - 1;
  h->magic = 0x0FF5E7;
  h->cls = 0;
  h->size = reinterpret_cast<uint64_t>(raw);
  return reinterpret_cast<void*>(u);
}
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (n == 0) { free(p); return nullptr; }
  Hdr* h = reinterpret_cast<Hdr*>(p) - 1;
  size_t old = h->size;
  if (h->magic == 0x0FF5E7) {
    Hdr* rh = reinterpret_cast<Hdr*>(h->size) - 1;
    old = rh->size - (reinterpret_cast<uintptr_t>(p) - h->size);
  }
  size_t r;
  if (h->magic == 0x51A110C8 && ClassOf(n, &r) == h->cls) { h->size = n; return p; }
  void* q = malloc(n);
  if (!q) return nullptr;
  memcpy(q, p, old < n ? old : n);
  free(p);
  return q;
}
int posix_memalign(void** out, size_t al, size_t n) {
  void* p = memalign(al, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
void* valloc(size_t n) { return memalign(4096, n); }
void* pvalloc(size_t n) { return memalign(4096, (n + 4095) & ~size_t{4095}); }
}

// Only C++ allocations fail: what a failing malloc does inside the installed C
// libraries is not under test.
static void* New(size_t n) {
  if (__builtin_expect(sim_alloc_hook_on, 0) && sim::AllocShouldFail(n)) return nullptr;
  return Alloc(n ? n : 1, false);
}
__attribute__((noinline)) static void* NewOrThrow(size_t n) {
  void* p = New(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n) { return NewOrThrow(n); }
void* operator new[](size_t n) { return NewOrThrow(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return New(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return New(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
