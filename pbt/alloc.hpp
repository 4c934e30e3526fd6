// Interposed allocator (for builds without sanitizers): fills fresh memory with a pattern, counts live
// blocks and can make allocations fail. Only counts/fails between Track::begin() and end().
#pragma once
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cerrno>
#include <malloc.h>
extern "C" {
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void __libc_free(void *); void *__libc_memalign(size_t, size_t);
}
namespace pbt {
struct AllocState {
  int fill = -1;              // byte to fill new blocks with, -1: leave
  bool scribble = false;      // overwrite freed blocks
  bool counting = false;      // count blocks
  long live = 0, total = 0;   // blocks allocated and not freed while counting
  long fail_at = -1;          // index (while counting) of the allocation that fails
  bool fail_rest = false;     // and all later ones
  long failed = 0;
};
inline AllocState &A() { static AllocState a; return a; }
inline bool alloc_fails() { AllocState &a = A(); if (!a.counting) return false; long i = a.total++; if (a.fail_at >= 0 && (i == a.fail_at || (a.fail_rest && i > a.fail_at))) { a.failed++; return true; } return false; }
inline void dirty_stack(int byte) { volatile char b[24000]; memset((void *)b, byte, sizeof b); __asm__ volatile("" ::"r"(b) : "memory"); }
}  // namespace pbt
// Blocks that belong to the counted region carry no header: they are recognised through a small hash set.
namespace pbt { struct BlockSet { enum { N = 1 << 18 }; void **t; BlockSet() { t = (void **)__libc_calloc(N, sizeof(void *)); } static size_t h(void *p) { return ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 46; }
  bool add(void *p) { for (size_t i = h(p), k = 0; k < N; k++, i = (i + 1) % N) if (!t[i] || t[i] == (void *)-1) { t[i] = p; return true; } return false; }
  bool del(void *p) { for (size_t i = h(p), k = 0; k < 4096; k++, i = (i + 1) % N) { if (!t[i]) return false; if (t[i] == p) { t[i] = (void *)-1; return true; } } return false; }
  void clear() { memset(t, 0, N * sizeof(void *)); } };
inline BlockSet &blocks() { static BlockSet b; return b; }
inline void track_begin() { AllocState &a = A(); blocks().clear(); a.live = a.total = a.failed = 0; a.fail_at = -1; a.fail_rest = false; a.counting = true; }
inline void track_end() { A().counting = false; A().fail_at = -1; A().fail_rest = false; }
struct Pause { bool w; Pause() { w = A().counting; A().counting = false; } ~Pause() { A().counting = w; } };   // harness allocations inside a tracked region
}
extern "C" {
void *malloc(size_t n) {
  using namespace pbt; AllocState &a = A(); if (alloc_fails()) { errno = ENOMEM; return nullptr; }
  void *p = __libc_malloc(n); if (p && a.fill >= 0) memset(p, a.fill, malloc_usable_size(p)); if (p && a.counting) { a.live++; blocks().add(p); } return p;
}
void *calloc(size_t m, size_t n) { using namespace pbt; if (alloc_fails()) { errno = ENOMEM; return nullptr; } void *p = __libc_calloc(m, n); if (p && A().counting) { A().live++; blocks().add(p); } return p; }
void free(void *p) { using namespace pbt; if (!p) return; AllocState &a = A(); if (a.live > 0 && blocks().del(p)) a.live--; if (a.scribble) memset(p, 0xDB, malloc_usable_size(p)); __libc_free(p); }
void *realloc(void *q, size_t n) {
  using namespace pbt; AllocState &a = A(); if (!q) return malloc(n); if (alloc_fails()) { errno = ENOMEM; return nullptr; }
  bool had = a.live > 0 && blocks().del(q); size_t old = malloc_usable_size(q); void *p = __libc_realloc(q, n);
  if (!p) { if (had) blocks().add(q); return p; }
  if (a.fill >= 0 && malloc_usable_size(p) > old) memset((char *)p + old, a.fill, malloc_usable_size(p) - old);
  if (had) blocks().add(p); else if (a.counting) { a.live++; blocks().add(p); }
  return p;
}
}
