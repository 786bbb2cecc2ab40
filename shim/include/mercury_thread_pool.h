#ifndef VHG_TP_H
#define VHG_TP_H
#include "mercury_thread.h"
#include "mercury_thread_mutex.h"
#include "mercury_thread_condition.h"
typedef struct hg_thread_pool hg_thread_pool_t;
struct hg_thread_work { hg_thread_func_t func; void *args; struct hg_thread_work *next; };
int hg_thread_pool_init(unsigned, hg_thread_pool_t **);
int hg_thread_pool_destroy(hg_thread_pool_t *);
int hg_thread_pool_post(hg_thread_pool_t *, struct hg_thread_work *);
#endif
