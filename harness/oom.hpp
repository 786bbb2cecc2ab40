// Memory that runs out: the next allocation but k made by the calling thread fails, once.
// Link with OOM_LIBS (-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc); armed only around a call into the code under test.
#pragma once
#include <cstddef>
extern "C" { void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); }
namespace oom {
inline thread_local long left = -1;   // allocations that still succeed; < 0: not armed
inline thread_local bool hit;         // an allocation was refused
inline thread_local long seen;        // allocations since arming
inline bool refuse() { if (left < 0) return false; seen++; if (left-- == 0) { hit = true; return true; } return false; }
inline void arm(long k) { left = k; hit = false; seen = 0; }
inline bool disarm() { bool h = hit; left = -1; hit = false; return h; }
}
extern "C" {
void *__wrap_malloc(size_t n) { return oom::refuse() ? nullptr : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return oom::refuse() ? nullptr : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return oom::refuse() ? nullptr : __real_realloc(p, n); }
}
