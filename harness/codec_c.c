// Conversions between the in-memory form and the wire form, there and back (the project's headers are C only).
#include "pdc_config.h"
#include "pdc_client_server_common.h"
#include <string.h>
#include <stdio.h>
typedef uint64_t (*rnd_t)(void);
static void rstr(rnd_t r, char *s, size_t max) { size_t n = r() % 8 ? r() % 60 : r() % max, i; for (i = 0; i < n; i++) s[i] = 1 + r() % 255; s[n] = 0; }
#define CK(c, ...) do { if (!(c)) { snprintf(why, 400, __VA_ARGS__); return 0; } } while (0)
static uint64_t val(rnd_t r) { return r() % 3 ? r() : r() % 5; }
int w_metadata(rnd_t r, char *why)
{
    static pdc_metadata_t a, b; pdc_metadata_transfer_t t; int i;
    memset(&a, 0, sizeof a); memset(&b, 0xA5, sizeof b); memset(&t, 0x5A, sizeof t);
    a.user_id = (int)val(r); a.time_step = (int)val(r); a.data_type = (int)(r() % 16) - 1; a.obj_id = val(r); a.cont_id = val(r); a.data_server_id = (uint32_t)val(r);
    a.region_partition = r() % 4; a.consistency = r() % 5; a.ndim = r() % 5; for (i = 0; i < 4; i++) a.dims[i] = val(r);
    rstr(r, a.app_name, OBJ_NAME_MAX - 1); rstr(r, a.obj_name, OBJ_NAME_MAX - 1); rstr(r, a.tags, TAG_LEN_MAX - 1); rstr(r, a.data_location, ADDR_MAX - 1);
    a.transform_state = (int)(r() % 3); a.current_state.storage_order = r() % 2; a.current_state.dtype = r() % 15; a.current_state.ndim = r() % 5; for (i = 0; i < 4; i++) a.current_state.dims[i] = val(r); a.current_state.meta_index = (int)val(r);
    PDC_metadata_t_to_transfer_t(&a, &t);
    void *buf; size_t n; pdc_metadata_transfer_t u; memset(&u, 0xA5, sizeof u);
    CK(vhg_encode(hg_proc_pdc_metadata_transfer_t, &t, &buf, &n) == HG_SUCCESS, "encode failed");
    CK(vhg_decode(hg_proc_pdc_metadata_transfer_t, buf, n, &u) == HG_SUCCESS, "decode failed");
    PDC_transfer_t_to_metadata_t(&u, &b);
    vhg_free(hg_proc_pdc_metadata_transfer_t, &u); free(buf);
#define F(f) CK(a.f == b.f, #f " %lld became %lld", (long long)a.f, (long long)b.f)
#define S(f) CK(!strcmp(a.f, b.f), #f " changed")
    F(user_id); F(time_step); F(data_type); F(obj_id); F(cont_id); F(data_server_id); F(region_partition); F(consistency); F(ndim);
    for (i = 0; i < 4; i++) F(dims[i]);
    S(app_name); S(obj_name); S(tags); S(data_location); F(transform_state);
    if (a.transform_state) { F(current_state.storage_order); F(current_state.dtype); F(current_state.ndim); for (i = 0; i < 4; i++) F(current_state.dims[i]); F(current_state.meta_index); }
    return 1;
}
int w_region(rnd_t r, char *why)
{
    uint64_t *o, *s; struct pdc_region_info ri, *back; region_info_transfer_t t, u; static region_list_t l, m, c; size_t nd = 1 + r() % 4, i; uint64_t unit = 1 + r() % 9;
    o = malloc(nd * 8); s = malloc(nd * 8);
    for (i = 0; i < nd; i++) { o[i] = val(r) >> 8; s[i] = val(r) >> 8; }
    memset(&ri, 0, sizeof ri); memset(&t, 0x5A, sizeof t); memset(&u, 0xA5, sizeof u); memset(&l, 0x5A, sizeof l); memset(&m, 0xA5, sizeof m);
    ri.ndim = nd; ri.offset = o; ri.size = s;
    PDC_region_info_t_to_transfer(&ri, &t);
    void *buf; size_t n;
    CK(vhg_encode(hg_proc_region_info_transfer_t, &t, &buf, &n) == HG_SUCCESS, "encode failed");
    CK(vhg_decode(hg_proc_region_info_transfer_t, buf, n, &u) == HG_SUCCESS, "decode failed");
    free(buf);
    back = PDC_region_transfer_t_to_region_info(&u);
    CK(back && back->ndim == nd && !memcmp(back->offset, o, nd * 8) && !memcmp(back->size, s, nd * 8), "region of %zu dimensions changed on the wire", nd);
    PDCregion_free(back); free(back);
    PDC_region_transfer_t_to_list_t(&u, &l);
    CK(l.ndim == nd && !memcmp(l.start, o, nd * 8) && !memcmp(l.count, s, nd * 8), "list form of a region of %zu dimensions differs", nd);
    PDC_region_info_to_list_t(&ri, &m);
    CK(m.ndim == nd && !memcmp(m.start, o, nd * 8) && !memcmp(m.count, s, nd * 8), "info to list: %zu dimensions", nd);
    memset(&u, 0xA5, sizeof u); PDC_region_list_t_to_transfer(&l, &u);
    uint64_t us[4] = {u.start_0, u.start_1, u.start_2, u.start_3}, uc[4] = {u.count_0, u.count_1, u.count_2, u.count_3};
    CK(u.ndim == nd && !memcmp(us, o, nd * 8) && !memcmp(uc, s, nd * 8), "list to transfer: %zu dimensions", nd);
    memset(&u, 0xA5, sizeof u); PDC_region_info_t_to_transfer_unit(&ri, &u, unit);
    uint64_t vs[4] = {u.start_0, u.start_1, u.start_2, u.start_3}, vc[4] = {u.count_0, u.count_1, u.count_2, u.count_3};
    CK(u.ndim == nd, "transfer in units: ndim");
    for (i = 0; i < 4; i++) CK(vs[i] == (i < nd ? o[i] * unit : 0) && vc[i] == (i < nd ? s[i] * unit : 0), "transfer in units of %llu: dimension %zu", (unsigned long long)unit, i);
    for (i = nd; i < 4; i++) { l.start[i] = val(r); l.count[i] = val(r); }
    memset(&c, 0xA5, sizeof c); l.prev = (void *)&m; l.next = (void *)&m; PDC_region_list_t_deep_cp(&l, &c);
    CK(c.ndim == nd && !memcmp(c.start, o, nd * 8) && !memcmp(c.count, s, nd * 8) && !c.prev && !c.next, "deep copy of a region differs");
    free(o); free(s);
    return 1;
}
static pdc_query_t *tree(rnd_t r, int depth)
{
    pdc_query_t *q = calloc(1, sizeof *q);
    if (depth == 0 || r() % 3 == 0) {
        pdc_query_constraint_t *k = q->constraint = calloc(1, sizeof *k);
        k->obj_id = val(r); k->op = 1 + r() % 5; k->type = r() % 8; k->value = (double)(int64_t)r(); k->is_range = r() % 2; k->op2 = 1 + r() % 5; k->value2 = (double)(int64_t)r();
        return q;
    }
    q->combine_op = 1 + r() % 2; q->left = tree(r, depth - 1); q->right = tree(r, depth - 1);
    return q;
}
static int same(const pdc_query_t *a, const pdc_query_t *b, char *why)
{
    CK(!a == !b, "a branch appeared or vanished"); if (!a) return 1;
    CK(a->combine_op == b->combine_op, "combination %d became %d", a->combine_op, b->combine_op);
    CK(!a->constraint == !b->constraint, "a condition appeared or vanished");
    if (a->constraint) {
        const pdc_query_constraint_t *x = a->constraint, *y = b->constraint;
        CK(x->obj_id == y->obj_id && x->op == y->op && x->type == y->type && x->value == y->value && x->is_range == y->is_range && x->op2 == y->op2 && x->value2 == y->value2, "a condition changed");
    }
    return same(a->left, b->left, why) && same(a->right, b->right, why);
}
static void drop(pdc_query_t *q) { if (!q) return; drop(q->left); drop(q->right); free(q->constraint); free(q); }
int w_query(rnd_t r, char *why)
{
    pdc_query_t *q = tree(r, r() % 6), *p; pdc_query_xfer_t *x, y; void *buf; size_t n; int ok; struct pdc_region_info ri; uint64_t o[4], s[4]; size_t nd = r() % 5, i;
    if (nd) { memset(&ri, 0, sizeof ri); ri.ndim = nd; ri.offset = o; ri.size = s; for (i = 0; i < nd; i++) { o[i] = val(r); s[i] = val(r); } q->region = &ri; }
    x = PDC_serialize_query(q); CK(x, "serialize failed");
    x->query_id = (int)val(r); x->client_id = (int)val(r); x->get_op = (int)val(r); x->manager = (int)val(r); x->n_unique_obj = (int)val(r); x->query_op = (int)val(r); x->next_server_id = (int)val(r); x->prev_server_id = (int)val(r);
    memset(&y, 0xA5, sizeof y);
    CK(vhg_encode(hg_proc_pdc_query_xfer_t, x, &buf, &n) == HG_SUCCESS, "encode failed");
    CK(vhg_decode(hg_proc_pdc_query_xfer_t, buf, n, &y) == HG_SUCCESS, "decode failed");
    free(buf);
    p = PDC_deserialize_query(&y); CK(p, "deserialize failed");
    ok = same(q, p, why);
    region_list_t *l = p->region_constraint;
    if (ok && (!l || l->ndim != nd || (nd && (memcmp(l->start, o, nd * 8) || memcmp(l->count, s, nd * 8))))) { snprintf(why, 400, "the region restriction of %zu dimensions changed", nd); ok = 0; }
    vhg_free(hg_proc_pdc_query_xfer_t, &y); PDC_query_xfer_free(x); free(p->region_constraint); drop(p); drop(q);
    return ok;
}
