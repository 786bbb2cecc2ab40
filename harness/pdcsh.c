/* One rank of an application that does what it is told: reads commands (one per line, words percent-encoded) from
 * the descriptor PDCSH_IN, calls the public API and answers with one line on PDCSH_OUT. Buffers are exact heap blocks. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <inttypes.h>
#include <unistd.h>
#include <ctype.h>
#include "pdc.h"
#include "pdc_client_connect.h"
#include "pdc_client_server_common.h"
#include "pdc_obj_pkg.h"
#include "pdc_cont_pkg.h"
#include "pdc_interface.h"
#include "dart_core.h"

static FILE *in, *out;
static pdcid_t pdc;
#define NB 100000
static char *buf[NB]; static size_t blen[NB];
static pdc_query_t *qs[1000]; static int nq;
static pdc_selection_t sels[1000];
static char *w[4000]; static int nw;
static int hv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static char *dec(char *s) { char *o = s, *p = s; for (; *p; p++) if (*p == '%') { *o++ = (char)(hv(p[1]) * 16 + hv(p[2])); p += 2; } else *o++ = *p; *o = 0; return s; }
static void encs(const char *s) { if (!s) { fputs(" %00", out); return; } fputc(' ', out); if (!*s) fputs("%", out); for (; *s; s++) if (isalnum((unsigned char)*s) || *s == '_' || *s == '.' || *s == '-') fputc(*s, out); else fprintf(out, "%%%02x", (unsigned char)*s); }
static void hex(const void *d, size_t n) { const unsigned char *p = d; fputc(' ', out); if (!n) fputc('-', out); for (size_t i = 0; i < n; i++) fprintf(out, "%02x", p[i]); }
static void *unhex(const char *s, size_t *n) { if (!strcmp(s, "-")) s = ""; *n = strlen(s) / 2; char *b = malloc(*n ? *n : 1); for (size_t i = 0; i < *n; i++) b[i] = (char)(hv(s[2 * i]) * 16 + hv(s[2 * i + 1])); return b; }
static uint64_t U(int i) { return i < nw ? strtoull(w[i], 0, 0) : 0; }
static int I(int i) { return i < nw ? (int)strtol(w[i], 0, 0) : 0; }
static void r(int64_t v) { fprintf(out, "%" PRId64, v); }
static void ru(uint64_t v) { fprintf(out, "%" PRIu64, v); }
static void meta(pdc_metadata_t *m)
{
    fprintf(out, " %" PRIu64, m->obj_id); encs(m->obj_name); encs(m->app_name); fprintf(out, " %d %d %d %d", m->user_id, m->time_step, (int)m->data_type, (int)m->ndim);
    for (int i = 0; i < (int)m->ndim && i < DIM_MAX; i++) fprintf(out, " %" PRIu64, m->dims[i]);
    encs(m->tags); fprintf(out, " %" PRIu64, m->cont_id);
}
static int is(const char *c) { return !strcmp(w[0], c); }
static pdcid_t *idlist(int from, int *n) { *n = nw - from; pdcid_t *l = malloc(sizeof(pdcid_t) * (*n ? *n : 1)); for (int i = 0; i < *n; i++) l[i] = U(from + i); return l; }
static void objinfo(pdcid_t id)
{
    struct pdc_obj_info *o = PDCobj_get_info(id);
    if (!o) { r(-1); return; }
    r(0); encs(o->name); fprintf(out, " %" PRIu64 " %d %d", o->meta_id, o->obj_pt ? (int)o->obj_pt->type : -9, o->obj_pt ? (int)o->obj_pt->ndim : -9);
    for (int i = 0; o->obj_pt && i < (int)o->obj_pt->ndim && i < 10; i++) fprintf(out, " %" PRIu64, o->obj_pt->dims[i]);
    struct _pdc_obj_info *p = PDC_obj_get_info(id);
    fprintf(out, " P %d %d", p && p->obj_pt ? (int)p->obj_pt->obj_prop_pub->region_partition : -1, p && p->obj_pt ? (int)p->obj_pt->obj_prop_pub->consistency : -1);
    fprintf(out, " M %d %d", p && p->obj_pt ? (int)p->obj_pt->time_step : -1, p && p->obj_pt ? (int)p->obj_pt->user_id : -1);
    encs(p && p->obj_pt ? p->obj_pt->app_name : NULL); encs(p && p->obj_pt ? p->obj_pt->tags : NULL);
}
static void propinfo(pdcid_t id)
{
    struct _pdc_obj_prop *p = PDC_obj_prop_get_info(id);
    struct pdc_obj_prop *q = PDCobj_prop_get_info(id);
    if (!p || !q) { r(-1); return; }
    r(0); fprintf(out, " %d %d", (int)q->type, (int)q->ndim);
    for (int i = 0; i < (int)q->ndim && i < 10 && q->dims; i++) fprintf(out, " %" PRIu64, q->dims[i]);
    fprintf(out, " P %d %d M %d %d", (int)p->obj_prop_pub->region_partition, (int)p->obj_prop_pub->consistency, (int)p->time_step, (int)p->user_id);
    encs(p->app_name); encs(p->tags); encs(p->data_loc);
}
static void kv(int col)
{
    size_t n; pdc_kvtag_t t; memset(&t, 0, sizeof t);
    void *v = unhex(w[3], &n);
    t.name = w[1]; t.type = (int8_t)I(2); t.value = v; t.size = (uint32_t)n;
    int nr = -1; uint64_t *ids = NULL;
    perr_t e = col ? PDC_Client_query_kvtag_mpi(&t, &nr, &ids, MPI_COMM_WORLD) : PDC_Client_query_kvtag(&t, &nr, &ids);
    r(e); fprintf(out, " %d", nr);
    for (int i = 0; i < nr; i++) fprintf(out, " %" PRIu64, ids[i]);
    free(v);
}
static void run(void)
{
    size_t n; int k; uint64_t off[8], sz[8]; void *v; perr_t e;
    if (is("init")) { pdc = PDCinit("pdc"); ru(pdc); }
    else if (is("fini")) r(PDCclose(pdc));
    else if (is("barrier")) { MPI_Barrier(MPI_COMM_WORLD); r(0); }
    else if (is("sleep")) { usleep((useconds_t)U(1)); r(0); }
    /* containers */
    else if (is("cont_create") || is("cont_create_col")) { pdcid_t p = PDCprop_create(PDC_CONT_CREATE, pdc); pdcid_t c = w[0][11] ? PDCcont_create_col(w[1], p) : PDCcont_create(w[1], p); PDCprop_close(p); ru(c); }
    else if (is("cont_open")) ru(PDCcont_open(w[1], pdc));
    else if (is("cont_open_col")) ru(PDCcont_open_col(w[1], pdc));
    else if (is("cont_close")) r(PDCcont_close(U(1)));
    else if (is("cont_del")) r(PDCcont_del(U(1)));
    else if (is("cont_info")) { struct _pdc_cont_info *c = PDC_cont_get_info(U(1)); if (!c) r(-1); else { r(0); encs(c->cont_info_pub->name); fprintf(out, " %" PRIu64, c->cont_info_pub->meta_id); } }
    else if (is("cont_query")) { uint64_t id = 0; e = PDC_Client_query_container_name(w[1], &id); r(e); fprintf(out, " %" PRIu64, id); }
    else if (is("cont_add")) { pdcid_t *l = idlist(2, &k); r(PDCcont_put_objids(U(1), k, l)); free(l); }
    else if (is("cont_rm")) { pdcid_t *l = idlist(2, &k); r(PDCcont_del_objids(U(1), k, l)); free(l); }
    else if (is("cont_iter")) {
        cont_handle *h = PDCcont_iter_start(); r(0); int lim = 0;
        while (!PDCcont_iter_null(h) && lim++ < 5000) { struct pdc_cont_info *ci = PDCcont_iter_get_info(h); fprintf(out, " %" PRIu64, ci ? ci->local_id : 0); encs(ci ? ci->name : NULL); h = PDCcont_iter_next(h); }
    }
    /* properties */
    else if (is("prop")) ru(PDCprop_create(PDC_OBJ_CREATE, pdc));
    else if (is("prop_dup")) ru(PDCprop_obj_dup(U(1)));
    else if (is("prop_close")) r(PDCprop_close(U(1)));
    else if (is("prop_dims")) { k = I(2); uint64_t *d = malloc(sizeof *d * (k ? k : 1)); for (int i = 0; i < k; i++) d[i] = U(3 + i); r(PDCprop_set_obj_dims(U(1), k, d)); free(d); }
    else if (is("prop_type")) r(PDCprop_set_obj_type(U(1), (pdc_var_type_t)I(2)));
    else if (is("prop_ts")) r(PDCprop_set_obj_time_step(U(1), (uint32_t)U(2)));
    else if (is("prop_user")) r(PDCprop_set_obj_user_id(U(1), (uint32_t)U(2)));
    else if (is("prop_app")) r(PDCprop_set_obj_app_name(U(1), w[2]));
    else if (is("prop_tags")) r(PDCprop_set_obj_tags(U(1), w[2]));
    else if (is("prop_loc")) r(PDCprop_set_obj_data_loc(U(1), w[2]));
    else if (is("prop_part")) r(PDCprop_set_obj_transfer_region_type(U(1), (pdc_region_partition_t)I(2)));
    else if (is("prop_cons")) r(PDCprop_set_obj_consistency_semantics(U(1), (pdc_consistency_t)I(2)));
    else if (is("prop_info")) propinfo(U(1));
    /* objects */
    else if (is("obj_create")) ru(PDCobj_create(U(1), w[2], U(3)));
    else if (is("obj_create_col")) ru(PDCobj_create_mpi(U(1), w[2], U(3), I(4), MPI_COMM_WORLD));
    else if (is("obj_open")) ru(PDCobj_open(w[1], pdc));
    else if (is("obj_open_col")) ru(PDCobj_open_col(w[1], pdc));
    else if (is("obj_close")) r(PDCobj_close(U(1)));
    else if (is("obj_del")) r(PDCobj_del(U(1)));
    else if (is("obj_info")) objinfo(U(1));
    else if (is("obj_iter")) {
        obj_handle *h = PDCobj_iter_start(U(1)); r(0); int lim = 0;
        while (!PDCobj_iter_null(h) && lim++ < 5000) { struct pdc_obj_info *oi = PDCobj_iter_get_info(h); fprintf(out, " %" PRIu64, oi ? oi->local_id : 0); encs(oi ? oi->name : NULL); h = PDCobj_iter_next(h, U(1)); }
    }
    else if (is("set_dims")) { k = I(2); uint64_t *d = malloc(sizeof *d * (k ? k : 1)); for (int i = 0; i < k; i++) d[i] = U(3 + i); r(PDCobj_set_dims(U(1), k, d)); free(d); }
    else if (is("get_dims")) { int nd = -1; uint64_t *d = NULL; e = PDCobj_get_dims(U(1), &nd, &d); r(e); fprintf(out, " %d", nd); for (int i = 0; i < nd && d; i++) fprintf(out, " %" PRIu64, d[i]); }
    else if (is("flush")) r(PDCobj_flush_start(U(1)));
    else if (is("flush_all")) r(PDCobj_flush_all_start());
    else if (is("put_data")) { v = unhex(w[3], &n); ru(PDCobj_put_data(w[1], v, n, U(2))); free(v); }
    else if (is("get_data")) { n = U(2); v = malloc(n ? n : 1); memset(v, 0xEE, n); e = PDCobj_get_data(U(1), v, n); r(e); hex(v, n); free(v); }
    /* tags: tag_put o|c id name type hex */
    else if (is("tag_put")) { v = unhex(w[5], &n); r(w[1][0] == 'o' ? PDCobj_put_tag(U(2), w[3], v, (pdc_var_type_t)I(4), n) : PDCcont_put_tag(U(2), w[3], v, (pdc_var_type_t)I(4), n)); free(v); }
    else if (is("tag_get")) {
        void *val = NULL; pdc_var_type_t ty = (pdc_var_type_t)-77; psize_t vs = 0xdead0000u;
        e = w[1][0] == 'o' ? PDCobj_get_tag(U(2), w[3], &val, &ty, &vs) : PDCcont_get_tag(U(2), w[3], &val, &ty, &vs);
        r(e); if (e < 0) return;
        fprintf(out, " %d %llu", (int)ty, (unsigned long long)vs);
        if (vs < (1u << 26) && (val || !vs)) hex(val, vs); else fputs(" nil", out);
        free(val);
    }
    else if (is("tag_del")) r(w[1][0] == 'o' ? PDCobj_del_tag(U(2), w[3]) : PDCcont_del_tag(U(2), w[3]));
    /* regions and buffers */
    else if (is("region")) { k = I(1); uint64_t *o = malloc(sizeof *o * k), *s = malloc(sizeof *s * k); for (int i = 0; i < k; i++) { o[i] = U(2 + i); s[i] = U(2 + k + i); } ru(PDCregion_create(k, o, s)); free(o); free(s); }
    else if (is("region_close")) r(PDCregion_close(U(1)));
    else if (is("buf")) { k = I(1); free(buf[k]); buf[k] = unhex(w[2], &n); blen[k] = n; r((int64_t)n); }
    else if (is("buf_set")) { k = I(1); v = unhex(w[2], &n); if (n == blen[k]) memcpy(buf[k], v, n); free(v); r((int64_t)n); }
    else if (is("dump")) { k = I(1); r((int64_t)blen[k]); hex(buf[k], blen[k]); }
    else if (is("bfree")) { k = I(1); free(buf[k]); buf[k] = NULL; r(0); }
    /* transfers: x_create buf access obj lreg rreg */
    else if (is("x_create")) ru(PDCregion_transfer_create(buf[I(1)], w[2][0] == 'w' ? PDC_WRITE : PDC_READ, U(3), U(4), U(5)));
    else if (is("x_start")) r(PDCregion_transfer_start(U(1)));
    else if (is("x_wait")) r(PDCregion_transfer_wait(U(1)));
    else if (is("x_status")) { pdc_transfer_status_t s = (pdc_transfer_status_t)77; e = PDCregion_transfer_status(U(1), &s); r(e); fprintf(out, " %d", (int)s); }
    else if (is("x_close")) r(PDCregion_transfer_close(U(1)));
    else if (is("x_start_all")) { pdcid_t *l = idlist(1, &k); r(PDCregion_transfer_start_all(l, k)); free(l); }
    else if (is("x_wait_all")) { pdcid_t *l = idlist(1, &k); r(PDCregion_transfer_wait_all(l, k)); free(l); }
    /* mapped buffers and region locks: map buf type lreg obj rreg, lock obj rreg r|w nb|b */
    else if (is("map")) r(PDCbuf_obj_map(buf[I(1)], (pdc_var_type_t)I(2), U(3), U(4), U(5)));
    else if (is("unmap")) r(PDCbuf_obj_unmap(U(1), U(2)));
    else if (is("lock")) r(PDCreg_obtain_lock(U(1), U(2), w[3][0] == 'w' ? PDC_WRITE : PDC_READ, w[4][0] == 'n' ? PDC_NOBLOCK : PDC_BLOCK));
    else if (is("unlock")) r(PDCreg_release_lock(U(1), U(2), w[3][0] == 'w' ? PDC_WRITE : PDC_READ));
    /* metadata queries */
    else if (is("kv")) kv(0);
    else if (is("kv_col")) kv(1);
    else if (is("list_all")) { int nr = -1; pdc_metadata_t **m = NULL; e = PDC_Client_list_all(&nr, &m); r(e); fprintf(out, " %d", nr); for (int i = 0; i < nr; i++) { fputs(" |", out); meta(m[i]); } }
    else if (is("partial")) { /* user app name ts0 ts1 ndim tags ; "%" = unset */
        int nr = -1; pdc_metadata_t **m = NULL;
        e = PDC_partial_query(0, I(1), w[2][0] ? w[2] : NULL, w[3][0] ? w[3] : NULL, I(4), I(5), I(6), w[7][0] ? w[7] : NULL, &nr, &m);
        r(e); fprintf(out, " %d", nr); for (int i = 0; i < nr; i++) { fputs(" |", out); meta(m[i]); }
    }
    else if (is("meta")) { pdc_metadata_t *m = NULL; uint32_t s = 9999; e = PDC_Client_query_metadata_name_timestep(w[1], I(2), &m, &s); r(e); if (m) { fprintf(out, " | %u", s); meta(m); } }
    else if (is("dart_ins")) r(PDC_Client_insert_obj_ref_into_dart((dart_hash_algo_t)I(1), w[2], w[3], REF_PRIMARY_ID, U(4)));
    else if (is("dart_del")) r(PDC_Client_delete_obj_ref_from_dart((dart_hash_algo_t)I(1), w[2], w[3], REF_PRIMARY_ID, U(4)));
    else if (is("dart_q")) { int nr = -1; uint64_t *o = NULL; e = PDC_Client_search_obj_ref_through_dart((dart_hash_algo_t)I(1), w[2], REF_PRIMARY_ID, &nr, &o); r(e); fprintf(out, " %d", nr); for (int i = 0; i < nr && o; i++) fprintf(out, " %" PRIu64, o[i]); free(o); }
    else if (is("checkpoint")) r(PDC_Client_all_server_checkpoint());
    /* value queries */
    else if (is("q_create")) { v = unhex(w[4], &n); qs[++nq] = PDCquery_create(U(1), (pdc_query_op_t)I(2), (pdc_var_type_t)I(3), v); r(qs[nq] ? nq : -1); free(v); }
    else if (is("q_and")) { qs[++nq] = PDCquery_and(qs[I(1)], qs[I(2)]); r(qs[nq] ? nq : -1); }
    else if (is("q_or")) { qs[++nq] = PDCquery_or(qs[I(1)], qs[I(2)]); r(qs[nq] ? nq : -1); }
    else if (is("q_region")) { struct pdc_region_info *ri = calloc(1, sizeof *ri); k = I(2); ri->ndim = k; ri->offset = calloc(k, 8); ri->size = calloc(k, 8); for (int i = 0; i < k; i++) { ri->offset[i] = U(3 + i); ri->size[i] = U(3 + k + i); } r(PDCquery_sel_region(qs[I(1)], ri)); }
    else if (is("q_nhits")) { uint64_t h = 0xdead; e = PDCquery_get_nhits(qs[I(1)], &h); r(e); fprintf(out, " %" PRIu64, h); }
    else if (is("q_sel")) { pdc_selection_t *s = &sels[I(1)]; memset(s, 0, sizeof *s); e = PDCquery_get_selection(qs[I(1)], s); r(e); fprintf(out, " %d %" PRIu64, (int)s->ndim, s->nhits); for (uint64_t i = 0; i < s->nhits * s->ndim && s->coords; i++) fprintf(out, " %" PRIu64, s->coords[i]); }
    else if (is("q_data")) { pdc_selection_t *s = &sels[I(1)]; size_t u = U(3); n = s->nhits * u; v = malloc(n ? n : 1); memset(v, 0xEE, n); e = PDCquery_get_data(U(2), s, v); r(e); hex(v, n); free(v); }
    else if (is("q_free")) { PDCquery_free_all(qs[I(1)]); r(0); }
    else fprintf(out, "?");
    (void)off; (void)sz;
}
int main(int c, char **v)
{
    char *line = NULL; size_t cap = 0; ssize_t l;
    MPI_Init(&c, &v);
    in = fdopen(atoi(getenv("PDCSH_IN")), "r"); out = fdopen(atoi(getenv("PDCSH_OUT")), "w");
    while ((l = getline(&line, &cap, in)) > 0) {
        if (line[l - 1] == '\n') line[--l] = 0;
        nw = 0;
        for (char *p = line, *q; p && nw < 3999; p = q) { q = strchr(p, ' '); if (q) *q++ = 0; w[nw++] = p; }
        w[nw] = "";
        for (int i = 0; i < nw; i++) { if (!strcmp(w[i], "%")) w[i] = ""; else dec(w[i]); char *e = malloc(strlen(w[i]) + 1); strcpy(e, w[i]); w[i] = e; } /* exact blocks */
        if (is("quit")) { MPI_Finalize(); fputs("0\n", out); fflush(out); return 0; }
        if (is("exit")) _exit(0);
        run();
        for (int i = 0; i < nw; i++) free(w[i]);
        fputc('\n', out); fflush(out);
    }
    return 3;
}
