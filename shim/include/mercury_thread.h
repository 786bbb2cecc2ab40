#ifndef VHG_THREAD_H
#define VHG_THREAD_H
#include "mercury.h"
typedef pthread_t hg_thread_t; typedef void *hg_thread_ret_t; typedef void *(*hg_thread_func_t)(void *);
#define HG_THREAD_RETURN_TYPE void *
static inline int hg_thread_create(hg_thread_t *t, hg_thread_func_t f, void *d) { return pthread_create(t, NULL, f, d) ? -1 : 0; }
static inline int hg_thread_join(hg_thread_t t) { return pthread_join(t, NULL) ? -1 : 0; }
static inline void hg_thread_exit(hg_thread_ret_t r) { pthread_exit(r); }
#endif
