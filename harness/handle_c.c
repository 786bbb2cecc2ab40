// thin C wrappers around the client's table of handles (the project's headers are C only)
#include "pdc_interface.h"
#include "pdc_cont_pkg.h"
#include "pdc_cont.h"
#include "pdc_malloc.h"
#include <stdlib.h>
void w_begin(void) { pdc_id_list_g = (struct pdc_id_list *)calloc(1, sizeof *pdc_id_list_g); }
void w_end(void) { free(pdc_id_list_g); pdc_id_list_g = NULL; }
int w_type(int t, int (*f)(void *)) { return PDC_register_type((PDC_type_t)t, f); }
int w_untype(int t) { int rc = PDC_destroy_type((PDC_type_t)t); pdc_id_list_g->PDC_id_type_list_g[t] = NULL; return rc; }
unsigned long long w_register(int t, void *p) { return (unsigned long long)PDC_id_register((PDC_type_t)t, p); }
int w_find(unsigned long long id, void **p, int *refs, unsigned long long *own) {
    struct _pdc_id_info *i = PDC_find_id((pdcid_t)id);
    if (!i) return 0;
    *p = i->obj_ptr, *refs = hg_atomic_get32(&i->count), *own = i->id;
    return 1;
}
int w_inc(unsigned long long id) { return PDC_inc_ref((pdcid_t)id); }
int w_dec(unsigned long long id) { return PDC_dec_ref((pdcid_t)id); }
int w_count(int t) { return PDC_id_list_null((PDC_type_t)t); }
int w_clear(int t) { return PDC_id_list_clear((PDC_type_t)t); }
unsigned long long w_byname(int t, const char *n) { return (unsigned long long)PDC_find_byname((PDC_type_t)t, n); }
int w_typeof(unsigned long long id) { return PDC_TYPE(id); }
void *w_cont(const char *name) { // what a container handle points to
    struct _pdc_cont_info *c = calloc(1, sizeof *c);
    c->cont_info_pub = calloc(1, sizeof *c->cont_info_pub);
    c->cont_info_pub->name = strdup(name);
    return c;
}
void w_cont_free(void *p) { struct _pdc_cont_info *c = p; free(c->cont_info_pub->name); free(c->cont_info_pub); free(c); }
int w_ntypes(void) { return PDC_NTYPES; }
