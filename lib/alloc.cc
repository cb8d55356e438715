// Counts live operator-new allocations, for exactly-once-release oracles.
#include <atomic>
#include <cstdlib>
#include <new>

#include "pbt.h"

namespace {
using alloc::Counts;
std::atomic<int64_t> g_live{0};
std::atomic<uint64_t> g_news{0};
thread_local bool t_own = false;
thread_local Counts t_counts{0, 0};
void count(int n) {
  g_live.fetch_add(n, std::memory_order_relaxed);
  if (t_own) t_counts.live += n;
  if (n < 0) return;
  g_news.fetch_add(1, std::memory_order_relaxed);
  if (t_own) t_counts.news++;
}
void* get(size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) abort();
  count(1);
  return p;
}
void* get_al(size_t n, size_t al) {
  void* p = nullptr;
  if (posix_memalign(&p, al < sizeof(void*) ? sizeof(void*) : al, n ? n : 1) != 0) abort();
  count(1);
  return p;
}
void put(void* p) {
  if (p) count(-1);
  free(p);
}
}  // namespace

namespace alloc {
Counts now() { return t_own ? t_counts : Counts{g_live.load(), g_news.load()}; }
void per_thread() { t_own = true; }
}  // namespace alloc

void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n); }
void* operator new(size_t n, std::align_val_t a) { return get_al(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return get_al(n, size_t(a)); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { put(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { put(p); }
