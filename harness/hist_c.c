// the project's headers are C only
#include "pdc_config.h"
#include "pdc_client_server_common.h"
#include "pdc_hist_pkg.h"
void *w_gen(int dtype, uint64_t n, void *data) { return PDC_gen_hist((pdc_var_type_t)dtype, n, data); }
void *w_dup(void *h) { return PDC_dup_hist(h); }
void *w_merge(int n, void **h) { return PDC_merge_hist(n, (pdc_histogram_t **)h); }
void w_free(void *h) { PDC_free_hist(h); }
void *w_copy(void *h) { pdc_histogram_t *t = calloc(1, sizeof *t); PDC_copy_hist(t, h); return t; }
int w_nbin(void *h) { return ((pdc_histogram_t *)h)->nbin; }
int w_type(void *h) { return ((pdc_histogram_t *)h)->dtype; }
double w_incr(void *h) { return ((pdc_histogram_t *)h)->incr; }
double *w_range(void *h) { return ((pdc_histogram_t *)h)->range; }
uint64_t *w_bin(void *h) { return ((pdc_histogram_t *)h)->bin; }
int w_t(int k) { static const int t[] = {PDC_INT, PDC_FLOAT, PDC_DOUBLE, PDC_INT64, PDC_UINT64, PDC_UINT, PDC_CHAR, PDC_UINT8}; return t[k]; }
