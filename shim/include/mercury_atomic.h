#ifndef VHG_ATOMIC_H
#define VHG_ATOMIC_H
#include "mercury.h"
typedef volatile int32_t hg_atomic_int32_t;
static inline void hg_atomic_init32(hg_atomic_int32_t *p, int32_t v) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }
static inline void hg_atomic_set32(hg_atomic_int32_t *p, int32_t v) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }
static inline int32_t hg_atomic_get32(hg_atomic_int32_t *p) { return __atomic_load_n(p, __ATOMIC_SEQ_CST); }
static inline int32_t hg_atomic_incr32(hg_atomic_int32_t *p) { return __atomic_add_fetch(p, 1, __ATOMIC_SEQ_CST); }
static inline int32_t hg_atomic_decr32(hg_atomic_int32_t *p) { return __atomic_sub_fetch(p, 1, __ATOMIC_SEQ_CST); }
static inline int hg_atomic_cas32(hg_atomic_int32_t *p, int32_t c, int32_t s) { return __atomic_compare_exchange_n(p, &c, s, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
#endif
