// Counts the live heap blocks of the process.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdlib>
static int64_t g_live = 0;
#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static void on_malloc(const volatile void* p, size_t) { if (p) ++g_live; }
static void on_free(const volatile void* p) { if (p) --g_live; }
static void count_blocks() { static bool on = false; if (!on) { on = true; __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); } }
#else
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t);
void* malloc(size_t n) { void* p = __libc_malloc(n); if (p) ++g_live; return p; }
void free(void* p) { if (p) --g_live; __libc_free(p); }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (p) ++g_live; return p; }
void* realloc(void* q, size_t n) { void* p = __libc_realloc(q, n); if (!q && p) ++g_live; if (q && n == 0) --g_live; return p; } }
static void count_blocks() {}
#endif
