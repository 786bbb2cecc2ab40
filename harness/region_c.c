// thin C wrappers (the project's headers are C only)
#include "pdc_client_server_common.h"
#include <string.h>
int w_list_overlap(int ndim, uint64_t *s1, uint64_t *c1, uint64_t *s2, uint64_t *c2) {
    region_list_t a, b;
    memset(&a, 0, sizeof a);
    memset(&b, 0, sizeof b);
    a.ndim = b.ndim = ndim;
    for (int i = 0; i < ndim; i++) { a.start[i] = s1[i]; a.count[i] = c1[i]; b.start[i] = s2[i]; b.count[i] = c2[i]; }
    return PDC_is_contiguous_region_overlap(&a, &b);
}
int w_same_list(int n1, int n2, uint64_t *s1, uint64_t *c1, uint64_t *s2, uint64_t *c2) {
    region_list_t a, b;
    memset(&a, 0, sizeof a);
    memset(&b, 0, sizeof b);
    a.ndim = n1; b.ndim = n2;
    for (int i = 0; i < n1; i++) { a.start[i] = s1[i]; a.count[i] = c1[i]; }
    for (int i = 0; i < n2; i++) { b.start[i] = s2[i]; b.count[i] = c2[i]; }
    return PDC_is_same_region_list(&a, &b);
}
int w_list_transfer(int ndim, uint64_t *s, uint64_t *c, uint64_t *s2, uint64_t *c2) {
    region_list_t a, b;
    region_info_transfer_t t;
    memset(&a, 0, sizeof a);
    memset(&b, 0, sizeof b);
    memset(&t, 0, sizeof t);
    a.ndim = ndim;
    for (int i = 0; i < ndim; i++) { a.start[i] = s[i]; a.count[i] = c[i]; }
    PDC_region_list_t_to_transfer(&a, &t);
    PDC_region_transfer_t_to_list_t(&t, &b);
    for (int i = 0; i < ndim; i++) { s2[i] = b.start[i]; c2[i] = b.count[i]; }
    return (int)b.ndim;
}
