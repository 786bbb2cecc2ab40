#ifndef VHG_TC_H
#define VHG_TC_H
#include "mercury_thread_mutex.h"
#include <time.h>
typedef pthread_cond_t hg_thread_cond_t;
static inline int hg_thread_cond_init(hg_thread_cond_t *c) { return pthread_cond_init(c, NULL); }
static inline int hg_thread_cond_destroy(hg_thread_cond_t *c) { return pthread_cond_destroy(c); }
static inline int hg_thread_cond_signal(hg_thread_cond_t *c) { return pthread_cond_signal(c); }
static inline int hg_thread_cond_broadcast(hg_thread_cond_t *c) { return pthread_cond_broadcast(c); }
static inline int hg_thread_cond_wait(hg_thread_cond_t *c, hg_thread_mutex_t *m) { return pthread_cond_wait(c, m); }
static inline int hg_thread_cond_timedwait(hg_thread_cond_t *c, hg_thread_mutex_t *m, unsigned ms)
{ struct timespec t; clock_gettime(CLOCK_REALTIME, &t); t.tv_sec += ms / 1000; t.tv_nsec += (ms % 1000) * 1000000L; if (t.tv_nsec >= 1000000000L) { t.tv_sec++; t.tv_nsec -= 1000000000L; } return pthread_cond_timedwait(c, m, &t) ? -1 : 0; }
#endif
