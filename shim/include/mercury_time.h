#ifndef VHG_TIME_H
#define VHG_TIME_H
#include <sys/time.h>
typedef struct timeval hg_time_t;
static inline int hg_time_get_current(hg_time_t *t) { return gettimeofday(t, NULL); }
static inline double hg_time_to_double(hg_time_t t) { return t.tv_sec + t.tv_usec * 1e-6; }
static inline hg_time_t hg_time_subtract(hg_time_t a, hg_time_t b) { hg_time_t r; timersub(&a, &b, &r); return r; }
#endif
