// Live and peak heap bytes as seen by the sanitizer's allocator.
#ifndef MEMWATCH_H
#define MEMWATCH_H
#include "vt.h"
#include <stddef.h>
#include <stdint.h>
extern "C" {
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
size_t __sanitizer_get_allocated_size(const volatile void *);
}
namespace mw {
static volatile int64_t g_live = 0, g_peak = 0, g_blocks = 0;   // the peak is for single threaded harnesses only
static void on_malloc(const volatile void *, size_t n) { if (vt::in_runtime()) return; int64_t l = __atomic_add_fetch(&g_live, (int64_t)n, __ATOMIC_RELAXED); if (l > g_peak) g_peak = l; __atomic_add_fetch(&g_blocks, 1, __ATOMIC_RELAXED); }
static void on_free(const volatile void *p) { if (p && !vt::in_runtime()) __atomic_sub_fetch(&g_live, (int64_t)__sanitizer_get_allocated_size(p), __ATOMIC_RELAXED), __atomic_sub_fetch(&g_blocks, 1, __ATOMIC_RELAXED); }
inline void install() { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); }
struct Scope { int64_t base; Scope() : base(g_live) { g_peak = g_live; } int64_t peak() const { return g_peak - base; } int64_t live() const { return g_live - base; } };
}
#endif
