#define _GNU_SOURCE
/* Stand-in Mercury runtime: RPC + RMA over AF_UNIX sockets, with seeded delay
 * injection and built-in monitors.  See DESIGN.md ("the transport stand-in").
 *
 * Environment:
 *   VHG_DIR      directory for sockets (default /tmp)
 *   VHG_LOG      file to which monitor events and statistics are appended
 *   VHG_SEED     seed of the delay injector
 *   VHG_DELAY_US maximum injected delay per bulk/rpc step (0 = off)
 *   VHG_AUTO     1: a background thread services RMA and network progress
 *   VHG_EXIT_AT  kill the process (_exit 99) when the k-th callback is about to run
 */
#include "mercury.h"
#include "mercury_thread_pool.h"
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/stat.h>
#include <poll.h>
#include <sched.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <stdarg.h>
#include <dlfcn.h>
#include <time.h>

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define KNOWN(p, n) __msan_unpoison(p, n) /* what is sent is judged where it is used */
#endif
#endif
#ifndef KNOWN
#define KNOWN(p, n) ((void)0)
#endif
void vfault_cb(void) __attribute__((weak));
enum { M_HELLO = 1, M_REQ, M_RESP, M_PULL, M_PULLED, M_PUSH, M_PUSHED };
struct msg { uint32_t type; int32_t ret; uint64_t len, cookie, id, off, size; };
struct vhg_addr { int refs; char *name; };
struct rpc { hg_id_t id; char *name; hg_proc_cb_t in, out; hg_rpc_cb_t cb; int noresp; uint64_t n; long live, gin, gout; struct rpc *next; };
struct vhg_proc { hg_proc_op_t op; char *buf; size_t size, pos; };
struct peer { char *name; int fd; char *out; size_t olen, ooff, ocap; struct peer *next; };
struct conn { int fd; char *name; char *in; size_t ilen, icap; uint64_t last_ready; struct conn *next; };
struct vhg_bulk { int refs; uint64_t id; char *owner; int local; uint32_t nseg; char **ptr; uint64_t *sz; uint64_t total; uint8_t flags; int own_mem; void *by; struct vhg_bulk *next; };
struct vhg_handle {
    int refs; struct hg_info info; struct rpc *rpc; int target; /* target: incoming */
    uint64_t cookie; char *in; size_t inlen; char *out; size_t outlen; hg_return_t ret;
    hg_cb_t cb; void *arg; void *data; void (*dfree)(void *); int responded, forwarded; struct vhg_handle *next;
};
struct vhg_op { int x; };
struct bop { uint64_t cookie; hg_cb_t cb; void *arg; hg_bulk_op_t op; struct vhg_bulk *o, *l; uint64_t ooff, loff, size; uint64_t at; char *peer; int sent; struct bop *next; };
enum { E_CB, E_REQ };
struct ent { int kind; uint64_t ready; struct hg_cb_info ci; hg_cb_t cb; struct vhg_handle *h; struct bop *b; struct ent *next; };
struct hg_class { int listen; char *path; struct rpc *rpcs; hg_return_t (*hcb)(hg_handle_t, void *); void *hcba; struct vhg_addr *self; };
struct hg_context { hg_class_t *c; };

static hg_class_t *K; static hg_context_t *CTX;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static struct peer *peers; static struct conn *conns; static struct vhg_bulk *bulks; static struct bop *bops; static struct ent *qh, **qt = &qh; static struct vhg_handle *waiting;
static uint64_t seq = 1, rng = 88172645463325252ULL, maxdelay, ncb, exit_at, order_hash = 1469598103934665603ULL, n_reorder, n_handles, n_handles_freed, n_bulk, n_bulk_freed, n_pull, n_push, bulk_bytes, n_delay;
static int autom; static pthread_t bg; static int bg_run; static int wakefd[2] = {-1, -1};

static uint64_t now_us(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t)t.tv_sec * 1000000 + t.tv_nsec / 1000; }
static uint64_t rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
static uint64_t delay(void) { if (!maxdelay) return 0; uint64_t r = rnd(); if (r & 0x100000) return 0; n_delay++; return r % (maxdelay + 1); }
static void vlog(const char *fmt, ...)
{
    const char *f = getenv("VHG_LOG"); char b[1024]; int n; va_list a;
    n = snprintf(b, sizeof b, "%d ", (int)getpid()); va_start(a, fmt); n += vsnprintf(b + n, sizeof b - n - 2, fmt, a); va_end(a);
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n';
    if (!f) { if (!strncmp(strchr(b, ' ') + 1, "MON", 3)) (void)!write(2, b, n); return; }
    int fd = open(f, O_WRONLY | O_APPEND | O_CREAT, 0644); if (fd >= 0) { (void)!write(fd, b, n); close(fd); }
}
static void stats(void)
{
    static int done; if (done || !K) return; done = 1;
    for (struct rpc *r = K->rpcs; r; r = r->next) if (r->n) vlog("STAT rpc %s %lu", r->name, (unsigned long)r->n);
    for (struct vhg_bulk *b = bulks; b; b = b->next) { Dl_info d; vlog("LEFT bulk %s", dladdr(b->by, &d) && d.dli_sname ? d.dli_sname : "?"); }
    for (struct rpc *r = K->rpcs; r; r = r->next) if (r->live > 0) vlog("LEFT handle %s %ld", r->name, r->live);
    for (struct rpc *r = K->rpcs; r; r = r->next) if (r->gin > 0) vlog("LEFT input %s %ld", r->name, r->gin);
    for (struct rpc *r = K->rpcs; r; r = r->next) if (r->gout > 0) vlog("LEFT output %s %ld", r->name, r->gout);
    vlog("STAT callbacks %lu order %016lx reorder %lu delays %lu handles %lu/%lu bulks %lu/%lu pull %lu push %lu bytes %lu", (unsigned long)ncb, (unsigned long)order_hash, (unsigned long)n_reorder, (unsigned long)n_delay,
         (unsigned long)n_handles_freed, (unsigned long)n_handles, (unsigned long)n_bulk_freed, (unsigned long)n_bulk, (unsigned long)n_pull, (unsigned long)n_push, (unsigned long)bulk_bytes);
}

/* ---------- proc ---------- */
hg_proc_op_t hg_proc_get_op(hg_proc_t p) { return p->op; }
hg_return_t hg_proc_memcpy(hg_proc_t p, void *d, hg_size_t n)
{
    if (p->op == HG_FREE) return HG_SUCCESS;
    if (p->op == HG_ENCODE) {
        if (p->pos + n > p->size) { p->size = (p->pos + n) * 2 + 64; p->buf = realloc(p->buf, p->size); }
        if (n) memcpy(p->buf + p->pos, d, n);
    } else {
        if (p->pos + n > p->size) { vlog("MON proc_overflow need=%lu have=%lu", (unsigned long)(p->pos + n), (unsigned long)p->size); return HG_OVERFLOW; }
        if (n) memcpy(d, p->buf + p->pos, n);
    }
    p->pos += n; return HG_SUCCESS;
}
hg_return_t vhg_encode(hg_proc_cb_t cb, void *in, void **buf, size_t *len)
{ struct vhg_proc p = {HG_ENCODE, NULL, 0, 0}; hg_return_t r = HG_SUCCESS; if (cb) r = cb(&p, in); *buf = p.buf; *len = p.pos; return r; }
size_t vhg_used; /* bytes taken by the last decode; for single-threaded harnesses */
hg_return_t vhg_decode(hg_proc_cb_t cb, const void *buf, size_t len, void *out)
{ struct vhg_proc p = {HG_DECODE, (char *)buf, len, 0}; hg_return_t r; if (!cb) return HG_SUCCESS; r = cb(&p, out); __atomic_store_n(&vhg_used, p.pos, __ATOMIC_RELAXED); if (r == HG_SUCCESS && p.pos != len) vlog("MON proc_leftover used=%lu of=%lu", (unsigned long)p.pos, (unsigned long)len); return r; }
hg_return_t vhg_free(hg_proc_cb_t cb, void *s) { struct vhg_proc p = {HG_FREE, NULL, 0, 0}; return cb ? cb(&p, s) : HG_SUCCESS; }
hg_return_t vhg_proc_bulk(hg_proc_t p, hg_bulk_t *b)
{
    uint32_t nl = 0; uint64_t id = 0, total = 0; uint8_t fl = 0; uint32_t ns = 0; hg_return_t r;
    if (p->op == HG_FREE) { if (*b) HG_Bulk_free(*b); *b = NULL; return HG_SUCCESS; }
    if (p->op == HG_ENCODE) {
        if (*b) { nl = strlen((*b)->owner) + 1; id = (*b)->id; total = (*b)->total; fl = (*b)->flags; ns = (*b)->nseg; }
        hg_proc_memcpy(p, &nl, 4); if (!nl) return HG_SUCCESS;
        hg_proc_memcpy(p, (*b)->owner, nl); hg_proc_memcpy(p, &id, 8); hg_proc_memcpy(p, &total, 8); hg_proc_memcpy(p, &fl, 1); hg_proc_memcpy(p, &ns, 4);
        return HG_SUCCESS;
    }
    *b = NULL; if ((r = hg_proc_memcpy(p, &nl, 4))) return r; if (!nl) return HG_SUCCESS;
    if (nl > 4096) return HG_PROTOCOL_ERROR;
    char *nm = malloc(nl); if ((r = hg_proc_memcpy(p, nm, nl))) { free(nm); return r; }
    if ((r = hg_proc_memcpy(p, &id, 8)) || (r = hg_proc_memcpy(p, &total, 8)) || (r = hg_proc_memcpy(p, &fl, 1)) || (r = hg_proc_memcpy(p, &ns, 4))) { free(nm); return r; }
    struct vhg_bulk *x = calloc(1, sizeof *x); x->refs = 1; x->id = id; x->owner = nm; x->total = total; x->flags = fl; x->nseg = ns; *b = x; return HG_SUCCESS;
}

/* ---------- addresses ---------- */
static struct vhg_addr *mkaddr(const char *n) { struct vhg_addr *a = calloc(1, sizeof *a); a->refs = 1; a->name = strdup(n); return a; }
hg_return_t HG_Addr_free(hg_class_t *c, hg_addr_t a) { (void)c; if (!a) return HG_SUCCESS; if (__atomic_sub_fetch(&a->refs, 1, __ATOMIC_SEQ_CST) == 0) { free(a->name); free(a); } return HG_SUCCESS; }
hg_return_t HG_Addr_self(hg_class_t *c, hg_addr_t *a) { __atomic_add_fetch(&c->self->refs, 1, __ATOMIC_SEQ_CST); *a = c->self; return HG_SUCCESS; }
hg_return_t HG_Addr_dup(hg_class_t *c, hg_addr_t a, hg_addr_t *b) { (void)c; __atomic_add_fetch(&a->refs, 1, __ATOMIC_SEQ_CST); *b = a; return HG_SUCCESS; }
hg_return_t HG_Addr_to_string(hg_class_t *c, char *b, hg_size_t *n, hg_addr_t a)
{ (void)c; size_t l = strlen(a->name) + 1; if (b) { if (*n < l) return HG_OVERFLOW; memcpy(b, a->name, l); } *n = l; return HG_SUCCESS; }

/* ---------- completion queue ---------- */
static void push(struct ent *e) { e->next = NULL; *qt = e; qt = &e->next; pthread_cond_broadcast(&cv); }
static void push_cb(hg_cb_t cb, struct hg_cb_info *ci, struct vhg_handle *h, struct bop *b, uint64_t ready)
{ struct ent *e = calloc(1, sizeof *e); e->kind = E_CB; e->cb = cb; e->ci = *ci; e->h = h; e->b = b; e->ready = ready; push(e); }

/* ---------- sockets ---------- */
static void nb(int fd) { fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK); fcntl(fd, F_SETFD, FD_CLOEXEC); int sz = 4 << 20; setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz); }
static int flush_peer(struct peer *p)
{
    while (p->fd >= 0 && p->ooff < p->olen) {
        KNOWN(p->out + p->ooff, p->olen - p->ooff);
        ssize_t n = send(p->fd, p->out + p->ooff, p->olen - p->ooff, MSG_NOSIGNAL);
        if (n > 0) p->ooff += n; else if (n < 0 && (errno == EAGAIN || errno == EINTR)) return 0; else return -1;
    }
    p->olen = p->ooff = 0; return 0;
}
static void put(struct peer *p, const void *d, size_t n)
{
    if (p->ooff && p->ooff == p->olen) p->ooff = p->olen = 0;
    if (p->olen + n > p->ocap) { p->ocap = (p->olen + n) * 2; p->out = realloc(p->out, p->ocap); }
    memcpy(p->out + p->olen, d, n); p->olen += n;
}
static struct peer *get_peer(const char *name)
{
    struct peer *p; for (p = peers; p; p = p->next) if (!strcmp(p->name, name)) break;
    if (!p) { p = calloc(1, sizeof *p); p->name = strdup(name); p->fd = -1; p->next = peers; peers = p; }
    if (p->fd < 0) {
        struct sockaddr_un a = {.sun_family = AF_UNIX}; const char *path = name; if (!strncmp(path, "vhg://", 6)) path += 6;
        if (strlen(path) >= sizeof a.sun_path) return NULL;
        strcpy(a.sun_path, path);
        int fd = socket(AF_UNIX, SOCK_STREAM, 0); if (connect(fd, (void *)&a, sizeof a)) { close(fd); return NULL; }
        nb(fd); p->fd = fd; p->olen = p->ooff = 0;
        struct msg m = {M_HELLO, 0, strlen(K->self->name) + 1, 0, 0, 0, 0}; put(p, &m, sizeof m); put(p, K->self->name, m.len);
    }
    return p;
}
static void peer_dead(struct peer *p);
static int send_msg(const char *to, struct msg *m, const void *d)
{
    struct peer *p = get_peer(to); if (!p) return -1;
    put(p, m, sizeof *m); if (m->len) put(p, d, m->len);
    if (flush_peer(p)) { peer_dead(p); return -1; }
    return 0;
}
static void fail_handle(struct vhg_handle *h, hg_return_t r)
{ struct hg_cb_info ci = {h->arg, r, HG_CB_FORWARD, {{0}}}; ci.info.forward.handle = h; h->ret = r; push_cb(h->cb, &ci, h, NULL, 0); }
static void peer_dead(struct peer *p)
{
    if (p->fd >= 0) close(p->fd);
    p->fd = -1; p->olen = p->ooff = 0;
    for (struct vhg_handle **pp = &waiting; *pp;) { struct vhg_handle *h = *pp; if (!strcmp(h->info.addr->name, p->name)) { *pp = h->next; fail_handle(h, HG_HOSTUNREACH); } else pp = &h->next; }
    for (struct bop **pp = &bops; *pp;) {
        struct bop *b = *pp; if (b->sent && !strcmp(b->peer, p->name)) { *pp = b->next; struct hg_cb_info ci = {b->arg, HG_HOSTUNREACH, HG_CB_BULK, {{0}}}; ci.info.bulk.op = b->op; ci.info.bulk.origin_handle = b->o; ci.info.bulk.local_handle = b->l; ci.info.bulk.size = 0; push_cb(b->cb, &ci, NULL, b, 0); } else pp = &b->next;
    }
}
/* ---------- bulk memory ---------- */
static void bcopy_seg(struct vhg_bulk *b, uint64_t off, char *buf, uint64_t n, int to_bulk)
{
    for (uint32_t i = 0; i < b->nseg && n; i++) {
        if (off >= b->sz[i]) { off -= b->sz[i]; continue; }
        uint64_t k = b->sz[i] - off; if (k > n) k = n;
        if (to_bulk) memcpy(b->ptr[i] + off, buf, k); else memcpy(buf, b->ptr[i] + off, k);
        buf += k; n -= k; off = 0;
    }
}
static struct vhg_bulk *find_bulk(uint64_t id) { for (struct vhg_bulk *b = bulks; b; b = b->next) if (b->id == id) return b; return NULL; }
static int bulk_check(struct vhg_bulk *b, uint64_t id, uint64_t off, uint64_t n, int write, const char *who)
{
    if (!b) { vlog("MON bulk_stale id=%lu by=%s size=%lu", (unsigned long)id, who, (unsigned long)n); return HG_NOENTRY; }
    if (off + n > b->total) { vlog("MON bulk_oob id=%lu off=%lu size=%lu total=%lu", (unsigned long)id, (unsigned long)off, (unsigned long)n, (unsigned long)b->total); return HG_OVERFLOW; }
    if (write ? !(b->flags & HG_BULK_WRITE_ONLY) : !(b->flags & HG_BULK_READ_ONLY)) { vlog("MON bulk_perm id=%lu write=%d flags=%d", (unsigned long)id, write, b->flags); return HG_PERMISSION; }
    return 0;
}
static void bulk_finish(struct bop *b, hg_return_t r)
{
    struct bop **pp; for (pp = &bops; *pp && *pp != b; pp = &(*pp)->next); if (*pp) *pp = b->next;
    struct hg_cb_info ci = {b->arg, r, HG_CB_BULK, {{0}}}; ci.info.bulk.op = b->op; ci.info.bulk.origin_handle = b->o; ci.info.bulk.local_handle = b->l; ci.info.bulk.size = b->size;
    push_cb(b->cb, &ci, NULL, b, now_us() + delay());
}
static void bulk_start(struct bop *b)
{
    b->sent = 1;
    if (!strcmp(b->o->owner, K->self->name)) { /* loopback RMA */
        struct vhg_bulk *s = find_bulk(b->o->id); int r = bulk_check(s, b->o->id, b->ooff, b->size, b->op == HG_BULK_PUSH, "self");
        if (!r) { char *t = malloc(b->size + 1); if (b->op == HG_BULK_PULL) { bcopy_seg(s, b->ooff, t, b->size, 0); bcopy_seg(b->l, b->loff, t, b->size, 1); } else { bcopy_seg(b->l, b->loff, t, b->size, 0); bcopy_seg(s, b->ooff, t, b->size, 1); } free(t); }
        bulk_finish(b, r); return;
    }
    struct msg m = {b->op == HG_BULK_PULL ? M_PULL : M_PUSH, 0, 0, b->cookie, b->o->id, b->ooff, b->size}; char *t = NULL;
    if (b->op == HG_BULK_PUSH) { m.len = b->size; t = malloc(b->size + 1); bcopy_seg(b->l, b->loff, t, b->size, 0); }
    uint64_t ck = b->cookie;
    if (send_msg(b->peer, &m, t)) { struct bop *x; for (x = bops; x && x->cookie != ck; x = x->next); if (x) bulk_finish(x, HG_HOSTUNREACH); }
    free(t);
}
static struct rpc *find_rpc(hg_id_t id) { for (struct rpc *r = K->rpcs; r; r = r->next) if (r->id == id) return r; return NULL; }
static void on_msg(struct conn *c, struct msg *m, char *d)
{
    switch (m->type) {
        case M_HELLO: c->name = strdup(d); break;
        case M_REQ: {
            struct rpc *r = find_rpc(m->id); if (!r || !r->cb) { vlog("MON unknown_rpc id=%lx from=%s", (unsigned long)m->id, c->name); struct msg o = {M_RESP, HG_NOENTRY, 0, m->cookie, 0, 0, 0}; send_msg(c->name, &o, NULL); break; }
            struct vhg_handle *h = calloc(1, sizeof *h); n_handles++; h->refs = 1; h->target = 1; h->rpc = r; __atomic_add_fetch(&r->live, 1, __ATOMIC_SEQ_CST); h->cookie = m->cookie; h->info.hg_class = K; h->info.context = CTX; h->info.id = r->id; h->info.addr = mkaddr(c->name);
            h->in = malloc(m->len + 1); memcpy(h->in, d, m->len); h->inlen = m->len;
            if (K->hcb) K->hcb(h, K->hcba);
            struct ent *e = calloc(1, sizeof *e); e->kind = E_REQ; e->h = h; e->ready = now_us() + delay(); if (e->ready < c->last_ready) e->ready = c->last_ready + 1; c->last_ready = e->ready; push(e); break;
        }
        case M_RESP: {
            struct vhg_handle **pp, *h; for (pp = &waiting; *pp && (*pp)->cookie != m->cookie; pp = &(*pp)->next); h = *pp;
            if (!h) { vlog("MON stray_response cookie=%lu from=%s", (unsigned long)m->cookie, c->name); break; }
            *pp = h->next; free(h->out); h->out = malloc(m->len + 1); memcpy(h->out, d, m->len); h->outlen = m->len; h->ret = m->ret;
            struct hg_cb_info ci = {h->arg, (hg_return_t)m->ret, HG_CB_FORWARD, {{0}}}; ci.info.forward.handle = h; push_cb(h->cb, &ci, h, NULL, now_us() + delay()); break;
        }
        case M_PULL: {
            struct vhg_bulk *b = find_bulk(m->id); struct msg o = {M_PULLED, 0, 0, m->cookie, 0, 0, 0}; char *t = NULL;
            o.ret = bulk_check(b, m->id, m->off, m->size, 0, c->name); if (!o.ret) { t = malloc(m->size + 1); bcopy_seg(b, m->off, t, m->size, 0); o.len = m->size; }
            send_msg(c->name, &o, t); free(t); break;
        }
        case M_PUSH: {
            struct vhg_bulk *b = find_bulk(m->id); struct msg o = {M_PUSHED, 0, 0, m->cookie, 0, 0, 0};
            o.ret = bulk_check(b, m->id, m->off, m->size, 1, c->name); if (!o.ret) bcopy_seg(b, m->off, d, m->size, 1);
            send_msg(c->name, &o, NULL); break;
        }
        case M_PULLED: case M_PUSHED: {
            struct bop *b; for (b = bops; b && b->cookie != m->cookie; b = b->next); if (!b) break;
            if (m->type == M_PULLED && !m->ret) bcopy_seg(b->l, b->loff, d, m->len, 1);
            bulk_finish(b, (hg_return_t)m->ret); break;
        }
    }
}
static int read_conn(struct conn *c)
{
    int any = 0;
    for (;;) {
        if (c->icap - c->ilen < 65536) { c->icap = c->icap * 2 + 262144; c->in = realloc(c->in, c->icap); }
        ssize_t n = recv(c->fd, c->in + c->ilen, c->icap - c->ilen, 0);
        if (n > 0) { c->ilen += n; any = 1; } else if (n < 0 && (errno == EAGAIN || errno == EINTR)) break; else { close(c->fd); c->fd = -1; break; }
    }
    size_t p = 0;
    while (c->ilen - p >= sizeof(struct msg)) {
        struct msg m; memcpy(&m, c->in + p, sizeof m); if (c->ilen - p < sizeof m + m.len) break;
        char *d = NULL; if (m.len) { d = malloc(m.len); memcpy(d, c->in + p + sizeof m, m.len); }
        p += sizeof m + m.len; on_msg(c, &m, d); free(d);
    }
    memmove(c->in, c->in + p, c->ilen - p); c->ilen -= p; return any;
}
static uint64_t next_due(void)
{
    uint64_t d = ~0ULL; for (struct bop *b = bops; b; b = b->next) if (!b->sent && b->at < d) d = b->at;
    /* with a background thread, completion delays are the triggering thread's business */
    if (!autom) for (struct ent *e = qh; e; e = e->next) if (e->ready < d) d = e->ready;
    return d;
}
/* one engine step; mu held on entry and exit, dropped around poll() */
static void step(int timeout_ms)
{
    uint64_t t = now_us();
again:
    for (struct bop *b = bops; b; b = b->next) if (!b->sent && b->at <= t) { bulk_start(b); goto again; }
    uint64_t due = next_due(); if (due != ~0ULL) { int ms = due <= t ? 0 : (int)((due - t) / 1000 + 1); if (timeout_ms < 0 || ms < timeout_ms) timeout_ms = ms; }
    static __thread struct pollfd pf[512]; static __thread void *who[512]; int n = 0;
    pf[n].fd = wakefd[0]; pf[n].events = POLLIN; who[n++] = NULL;
    if (K->listen >= 0) { pf[n].fd = K->listen; pf[n].events = POLLIN; who[n++] = K; }
    int nc0 = n; for (struct conn *c = conns; c && n < 400; c = c->next) if (c->fd >= 0) { pf[n].fd = c->fd; pf[n].events = POLLIN; who[n++] = c; }
    int np0 = n; for (struct peer *p = peers; p && n < 500; p = p->next) if (p->fd >= 0) { pf[n].fd = p->fd; pf[n].events = POLLRDHUP | (p->ooff < p->olen ? POLLOUT : 0); who[n++] = p; }
    if (timeout_ms) pthread_mutex_unlock(&mu);
    int r = poll(pf, n, timeout_ms);
    if (timeout_ms) pthread_mutex_lock(&mu);
    if (r <= 0) return;
    if (pf[0].revents) { char b[64]; while (read(wakefd[0], b, sizeof b) > 0); }
    if (nc0 > 1 && pf[1].revents) { int fd; while ((fd = accept(K->listen, NULL, NULL)) >= 0) { nb(fd); struct conn *c = calloc(1, sizeof *c); c->fd = fd; c->next = conns; conns = c; } }
    for (int i = nc0; i < np0; i++) if (pf[i].revents) { struct conn *c = who[i]; if (c->fd == pf[i].fd) read_conn(c); }
    for (int i = np0; i < n; i++) if (pf[i].revents) { struct peer *p = who[i]; if (p->fd != pf[i].fd) continue; if (pf[i].revents & (POLLERR | POLLHUP | POLLRDHUP)) peer_dead(p); else if (flush_peer(p)) peer_dead(p); }
}
static void wake(void) { if (autom) (void)!write(wakefd[1], "x", 1); }
static void *bgmain(void *a)
{
    (void)a; pthread_mutex_lock(&mu);
    while (bg_run) { step(20); pthread_mutex_unlock(&mu); sched_yield(); pthread_mutex_lock(&mu); }
    pthread_mutex_unlock(&mu); return NULL;
}

/* ---------- class/context ---------- */
hg_return_t HG_Version_get(unsigned *a, unsigned *b, unsigned *c) { *a = 2; *b = 2; *c = 0; return HG_SUCCESS; }
const char *HG_Error_to_string(hg_return_t r) { (void)r; return "hg_return"; }
hg_class_t *HG_Init_opt(const char *s, hg_bool_t l, const struct hg_init_info *i) { (void)i; return HG_Init(s, l); }
hg_class_t *HG_Init(const char *s, hg_bool_t l)
{
    (void)s; (void)l; const char *e; static int inst; if (K) return NULL;
    K = calloc(1, sizeof *K); char path[100]; const char *dir = getenv("VHG_DIR"); if (!dir) dir = "/tmp";
    snprintf(path, sizeof path, "%s/h%d.%d", dir, (int)getpid(), inst++); unlink(path);
    struct sockaddr_un a = {.sun_family = AF_UNIX}; strcpy(a.sun_path, path);
    K->listen = socket(AF_UNIX, SOCK_STREAM, 0); if (bind(K->listen, (void *)&a, sizeof a) || listen(K->listen, 128)) { perror("vhg bind"); free(K); K = NULL; return NULL; }
    nb(K->listen); K->path = strdup(path); char nm[128]; snprintf(nm, sizeof nm, "vhg://%s", path); K->self = mkaddr(nm);
    if ((e = getenv("VHG_SEED"))) rng = strtoull(e, 0, 10) * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL + (uint64_t)(getenv("VMPI_RANK") ? atoi(getenv("VMPI_RANK")) : 0) * 7919;
    if (!rng) rng = 1;
    for (int i = 0; i < 10; i++) rnd();
    if ((e = getenv("VHG_DELAY_US"))) maxdelay = strtoull(e, 0, 10);
    if ((e = getenv("VHG_EXIT_AT"))) exit_at = strtoull(e, 0, 10);
    autom = (e = getenv("VHG_AUTO")) && *e == '1';
    (void)!pipe(wakefd); nb(wakefd[0]); nb(wakefd[1]);
    if (autom) { bg_run = 1; pthread_create(&bg, NULL, bgmain, NULL); }
    atexit(stats);
    return K;
}
hg_return_t HG_Finalize(hg_class_t *c)
{
    if (!c || c != K) return HG_INVALID_ARG;
    stats();
    if (bg_run) { pthread_mutex_lock(&mu); bg_run = 0; pthread_mutex_unlock(&mu); (void)!write(wakefd[1], "x", 1); pthread_join(bg, NULL); }
    for (int i = 0; i < 50; i++) { int pend = 0; for (struct peer *p = peers; p; p = p->next) if (p->fd >= 0 && p->ooff < p->olen) { if (flush_peer(p)) p->fd = -1; else if (p->ooff < p->olen) pend = 1; } if (!pend) break; usleep(2000); }
    for (struct peer *p = peers; p; p = p->next) if (p->fd >= 0) close(p->fd);
    for (struct conn *x = conns; x; x = x->next) if (x->fd >= 0) close(x->fd);
    close(c->listen); unlink(c->path); K = NULL; return HG_SUCCESS;
}
void HG_Cleanup(void) {}
hg_return_t HG_Class_set_handle_create_callback(hg_class_t *c, hg_return_t (*f)(hg_handle_t, void *), void *a) { c->hcb = f; c->hcba = a; return HG_SUCCESS; }
hg_context_t *HG_Context_create(hg_class_t *c) { CTX = calloc(1, sizeof *CTX); CTX->c = c; return CTX; }
hg_return_t HG_Context_destroy(hg_context_t *c) { free(c); if (c == CTX) CTX = NULL; return HG_SUCCESS; }
hg_class_t *HG_Context_get_class(const hg_context_t *c) { return c->c; }
hg_id_t HG_Register_name(hg_class_t *c, const char *n, hg_proc_cb_t in, hg_proc_cb_t out, hg_rpc_cb_t cb)
{
    uint64_t h = 1469598103934665603ULL; for (const char *p = n; *p; p++) h = (h ^ (unsigned char)*p) * 1099511628211ULL;
    struct rpc *r; for (r = c->rpcs; r; r = r->next) if (r->id == h) break;
    if (!r) { r = calloc(1, sizeof *r); r->next = c->rpcs; c->rpcs = r; r->name = strdup(n); } else vlog("NOTE rpc registered twice: %s", n);
    r->id = h; r->in = in; r->out = out; r->cb = cb; return h;
}
hg_return_t HG_Registered_disable_response(hg_class_t *c, hg_id_t id, hg_bool_t d) { (void)c; struct rpc *r = find_rpc(id); if (r) r->noresp = d; return HG_SUCCESS; }
hg_return_t HG_Addr_lookup(hg_context_t *x, hg_cb_t cb, void *arg, const char *name, hg_op_id_t *op)
{
    (void)x; (void)op; if (!name || strncmp(name, "vhg://", 6)) { vlog("MON bad_lookup name=%.60s", name ? name : "(null)"); return HG_INVALID_ARG; }
    struct hg_cb_info ci = {arg, HG_SUCCESS, HG_CB_LOOKUP, {{0}}}; ci.info.lookup.addr = mkaddr(name);
    pthread_mutex_lock(&mu); push_cb(cb, &ci, NULL, NULL, now_us() + delay()); pthread_mutex_unlock(&mu); return HG_SUCCESS;
}
/* ---------- handles ---------- */
hg_return_t HG_Create(hg_context_t *x, hg_addr_t a, hg_id_t id, hg_handle_t *out)
{
    struct rpc *r = find_rpc(id); if (!r) return HG_NOENTRY;
    struct vhg_handle *h = calloc(1, sizeof *h); h->refs = 1; h->rpc = r; h->info.hg_class = x->c; h->info.context = x; h->info.id = id;
    __atomic_add_fetch(&n_handles, 1, __ATOMIC_SEQ_CST); __atomic_add_fetch(&r->live, 1, __ATOMIC_SEQ_CST);
    if (a) { HG_Addr_dup(x->c, a, &h->info.addr); }
    if (x->c->hcb) x->c->hcb(h, x->c->hcba);
    *out = h; return HG_SUCCESS;
}
hg_return_t HG_Ref_incr(hg_handle_t h) { __atomic_add_fetch(&h->refs, 1, __ATOMIC_SEQ_CST); return HG_SUCCESS; }
hg_return_t HG_Destroy(hg_handle_t h)
{
    if (!h) return HG_SUCCESS;
    if (__atomic_sub_fetch(&h->refs, 1, __ATOMIC_SEQ_CST)) return HG_SUCCESS;
    __atomic_add_fetch(&n_handles_freed, 1, __ATOMIC_SEQ_CST);
    if (h->rpc) __atomic_add_fetch(&h->rpc->live, -1, __ATOMIC_SEQ_CST);
    if (h->target && !h->responded && !h->rpc->noresp) vlog("NOTE no_response rpc=%s", h->rpc->name);
    if (h->data && h->dfree) h->dfree(h->data);
    HG_Addr_free(NULL, h->info.addr); free(h->in); free(h->out); free(h); return HG_SUCCESS;
}
const struct hg_info *HG_Get_info(hg_handle_t h) { return &h->info; }
hg_return_t HG_Set_data(hg_handle_t h, void *d, void (*f)(void *)) { h->data = d; h->dfree = f; return HG_SUCCESS; }
void *HG_Get_data(hg_handle_t h) { return h->data; }
hg_return_t HG_Get_input(hg_handle_t h, void *s) { __atomic_add_fetch(&h->rpc->gin, 1, __ATOMIC_SEQ_CST); return vhg_decode(h->rpc->in, h->in, h->inlen, s); }
hg_return_t HG_Free_input(hg_handle_t h, void *s) { __atomic_add_fetch(&h->rpc->gin, -1, __ATOMIC_SEQ_CST); return vhg_free(h->rpc->in, s); }
hg_return_t HG_Get_output(hg_handle_t h, void *s) { if (h->ret) return h->ret; if (!h->out) return HG_FAULT; __atomic_add_fetch(&h->rpc->gout, 1, __ATOMIC_SEQ_CST); return vhg_decode(h->rpc->out, h->out, h->outlen, s); }
hg_return_t HG_Free_output(hg_handle_t h, void *s) { __atomic_add_fetch(&h->rpc->gout, -1, __ATOMIC_SEQ_CST); return vhg_free(h->rpc->out, s); }
hg_return_t HG_Cancel(hg_handle_t h) { (void)h; return HG_SUCCESS; }
hg_return_t HG_Forward(hg_handle_t h, hg_cb_t cb, void *arg, void *in)
{
    void *b; size_t n; hg_return_t r; if (!h || !h->info.addr) { vlog("MON forward_null"); return HG_INVALID_ARG; }
    if ((r = vhg_encode(h->rpc->in, in, &b, &n))) { free(b); return r; }
    pthread_mutex_lock(&mu);
    HG_Ref_incr(h); h->cb = cb; h->arg = arg; h->cookie = seq++; h->ret = HG_SUCCESS; h->forwarded++; h->rpc->n++;
    if (!h->rpc->noresp) { h->next = waiting; waiting = h; }
    struct msg m = {M_REQ, 0, n, h->cookie, h->rpc->id, 0, 0};
    if (send_msg(h->info.addr->name, &m, b)) { struct vhg_handle **pp; for (pp = &waiting; *pp && *pp != h; pp = &(*pp)->next); if (*pp) { *pp = h->next; fail_handle(h, HG_HOSTUNREACH); } else if (h->rpc->noresp) fail_handle(h, HG_HOSTUNREACH); }
    else if (h->rpc->noresp) { struct hg_cb_info ci = {arg, HG_SUCCESS, HG_CB_FORWARD, {{0}}}; ci.info.forward.handle = h; push_cb(cb, &ci, h, NULL, 0); }
    pthread_mutex_unlock(&mu); wake(); free(b); return HG_SUCCESS;
}
hg_return_t HG_Respond(hg_handle_t h, hg_cb_t cb, void *arg, void *out)
{
    void *b; size_t n; hg_return_t r; if (h->rpc->noresp) { vlog("MON respond_disabled rpc=%s", h->rpc->name); return HG_OPNOTSUPPORTED; }
    if ((r = vhg_encode(h->rpc->out, out, &b, &n))) { free(b); return r; }
    pthread_mutex_lock(&mu);
    if (h->responded++) vlog("MON respond_twice rpc=%s", h->rpc->name);
    else { struct msg m = {M_RESP, 0, n, h->cookie, 0, 0, 0}; send_msg(h->info.addr->name, &m, b); }
    HG_Ref_incr(h); struct hg_cb_info ci = {arg, HG_SUCCESS, HG_CB_RESPOND, {{0}}}; ci.info.respond.handle = h; push_cb(cb, &ci, h, NULL, 0);
    pthread_mutex_unlock(&mu); wake(); free(b); return HG_SUCCESS;
}
/* ---------- progress ---------- */
static struct ent *take(void)
{
    uint64_t t = now_us(); struct ent **pp = &qh, **best = NULL; int pos = 0, bp = 0;
    for (; *pp; pp = &(*pp)->next, pos++) if ((*pp)->ready <= t && (!best || (*pp)->ready < (*best)->ready)) { best = pp; bp = pos; }
    if (!best) return NULL;
    struct ent *e = *best; *best = e->next; if (!*best || qt == &e->next) { qt = &qh; while (*qt) qt = &(*qt)->next; }
    if (bp) n_reorder++;
    return e;
}
static int any_ready(void) { uint64_t t = now_us(); for (struct ent *e = qh; e; e = e->next) if (e->ready <= t) return 1; return 0; }
hg_return_t HG_Progress(hg_context_t *x, unsigned timeout)
{
    (void)x; uint64_t end = now_us() + (uint64_t)timeout * 1000; hg_return_t r = HG_TIMEOUT; pthread_mutex_lock(&mu);
    if (!autom) step(0);
    for (;;) {
        if (any_ready()) { r = HG_SUCCESS; break; }
        uint64_t t = now_us(); if (t >= end) break;
        uint64_t left = (end - t) / 1000 + 1; if (left > 50) left = 50;
        if (autom) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); uint64_t w = left > 2 && qh ? 1 : left; ts.tv_nsec += w * 1000000L; if (ts.tv_nsec >= 1000000000L) { ts.tv_sec++; ts.tv_nsec -= 1000000000L; } pthread_cond_timedwait(&cv, &mu, &ts); }
        else step((int)left);
    }
    pthread_mutex_unlock(&mu); return r;
}
hg_return_t HG_Trigger(hg_context_t *x, unsigned timeout, unsigned max, unsigned *cnt)
{
    (void)x; unsigned n = 0; uint64_t end = now_us() + (uint64_t)timeout * 1000;
    while (n < max) {
        pthread_mutex_lock(&mu); struct ent *e = take(); pthread_mutex_unlock(&mu);
        if (!e) { if (n || now_us() >= end) break; HG_Progress(x, 1); continue; }
        ncb++; if (vfault_cb) vfault_cb(); if (exit_at && ncb == exit_at) { vlog("STAT exit_at %lu", (unsigned long)ncb); _exit(99); }
        order_hash = (order_hash ^ (e->kind == E_REQ ? e->h->rpc->id : (uint64_t)e->ci.type + 1)) * 1099511628211ULL;
        if (e->kind == E_REQ) { __atomic_add_fetch(&e->h->rpc->n, 1, __ATOMIC_SEQ_CST); e->h->rpc->cb(e->h); }
        else {
            if (e->cb) e->cb(&e->ci);
            if (e->h) HG_Destroy(e->h);
            if (e->b) { HG_Bulk_free(e->b->o); HG_Bulk_free(e->b->l); free(e->b->peer); free(e->b); }
        }
        free(e); n++;
    }
    if (cnt) *cnt = n;
    return n ? HG_SUCCESS : HG_TIMEOUT;
}
/* ---------- bulk API ---------- */
hg_return_t HG_Bulk_create(hg_class_t *c, hg_uint32_t n, void **p, const hg_size_t *s, hg_uint8_t flags, hg_bulk_t *out)
{
    (void)c; struct vhg_bulk *b = calloc(1, sizeof *b); b->refs = 1; b->local = 1; b->nseg = n; b->flags = flags; b->owner = strdup(K->self->name); b->ptr = calloc(n ? n : 1, sizeof(char *)); b->sz = calloc(n ? n : 1, sizeof(uint64_t));
    for (uint32_t i = 0; i < n; i++) { b->sz[i] = s[i]; b->total += s[i]; if (p) b->ptr[i] = p[i]; else { b->ptr[i] = calloc(1, s[i] ? s[i] : 1); b->own_mem = 1; } }
    b->by = __builtin_return_address(0);
    pthread_mutex_lock(&mu); n_bulk++; b->id = seq++; b->next = bulks; bulks = b; pthread_mutex_unlock(&mu); *out = b; return HG_SUCCESS;
}
hg_return_t HG_Bulk_ref_incr(hg_bulk_t b) { __atomic_add_fetch(&b->refs, 1, __ATOMIC_SEQ_CST); return HG_SUCCESS; }
hg_return_t HG_Bulk_free(hg_bulk_t b)
{
    if (!b) return HG_SUCCESS;
    if (__atomic_sub_fetch(&b->refs, 1, __ATOMIC_SEQ_CST)) return HG_SUCCESS;
    if (b->local) { pthread_mutex_lock(&mu); n_bulk_freed++; struct vhg_bulk **pp; for (pp = &bulks; *pp && *pp != b; pp = &(*pp)->next); if (*pp) *pp = b->next; pthread_mutex_unlock(&mu); }
    if (b->own_mem) for (uint32_t i = 0; i < b->nseg; i++) free(b->ptr[i]);
    free(b->owner); free(b->ptr); free(b->sz); free(b); return HG_SUCCESS;
}
hg_return_t HG_Bulk_access(hg_bulk_t b, hg_size_t off, hg_size_t size, hg_uint8_t fl, hg_uint32_t max, void **p, hg_size_t *s, hg_uint32_t *cnt)
{
    (void)fl; uint32_t n = 0; if (!b || !b->local) return HG_INVALID_ARG;
    for (uint32_t i = 0; i < b->nseg && n < max && size; i++) { if (off >= b->sz[i]) { off -= b->sz[i]; continue; } uint64_t k = b->sz[i] - off; if (k > size) k = size; p[n] = b->ptr[i] + off; if (s) s[n] = k; n++; size -= k; off = 0; }
    if (cnt) *cnt = n;
    return HG_SUCCESS;
}
hg_size_t HG_Bulk_get_size(hg_bulk_t b) { return b ? b->total : 0; }
hg_uint32_t HG_Bulk_get_segment_count(hg_bulk_t b) { return b ? b->nseg : 0; }
hg_return_t HG_Bulk_transfer(hg_context_t *x, hg_cb_t cb, void *arg, hg_bulk_op_t op, hg_addr_t oa, hg_bulk_t o, hg_size_t ooff, hg_bulk_t l, hg_size_t loff, hg_size_t size, hg_op_id_t *opid)
{
    (void)x; (void)opid; if (!o || !l || !l->local) { vlog("MON bulk_bad_handle"); return HG_INVALID_ARG; }
    if (ooff + size > o->total || loff + size > l->total) { vlog("MON bulk_range ooff=%lu loff=%lu size=%lu ototal=%lu ltotal=%lu", (unsigned long)ooff, (unsigned long)loff, (unsigned long)size, (unsigned long)o->total, (unsigned long)l->total); return HG_OVERFLOW; }
    if (op == HG_BULK_PULL ? (!(o->flags & HG_BULK_READ_ONLY) || !(l->flags & HG_BULK_WRITE_ONLY)) : (!(o->flags & HG_BULK_WRITE_ONLY) || !(l->flags & HG_BULK_READ_ONLY))) { vlog("MON bulk_perm op=%d oflags=%d lflags=%d", op, o->flags, l->flags); return HG_PERMISSION; }
    struct bop *b = calloc(1, sizeof *b); HG_Bulk_ref_incr(o); HG_Bulk_ref_incr(l); b->cb = cb; b->arg = arg; b->op = op; b->o = o; b->l = l; b->ooff = ooff; b->loff = loff; b->size = size; b->peer = strdup(oa ? oa->name : o->owner);
    if (strcmp(b->peer, o->owner)) vlog("MON bulk_wrong_peer peer=%s owner=%s", b->peer, o->owner);
    pthread_mutex_lock(&mu); if (op == HG_BULK_PULL) n_pull++; else n_push++; bulk_bytes += size; b->cookie = seq++; b->at = now_us() + delay(); struct bop **bt = &bops; while (*bt) bt = &(*bt)->next; *bt = b; pthread_mutex_unlock(&mu); wake(); return HG_SUCCESS;
}
/* ---------- thread pool ---------- */
struct hg_thread_pool { pthread_mutex_t m; pthread_cond_t c; struct hg_thread_work *h, *t; int stop, n; pthread_t th[64]; };
static void *tpmain(void *a)
{
    struct hg_thread_pool *p = a;
    for (;;) { pthread_mutex_lock(&p->m); while (!p->h && !p->stop) pthread_cond_wait(&p->c, &p->m); struct hg_thread_work *w = p->h; if (!w) { pthread_mutex_unlock(&p->m); return NULL; } p->h = w->next; if (!p->h) p->t = NULL; pthread_mutex_unlock(&p->m); w->func(w->args); }
}
int hg_thread_pool_init(unsigned n, hg_thread_pool_t **out)
{ struct hg_thread_pool *p = calloc(1, sizeof *p); pthread_mutex_init(&p->m, NULL); pthread_cond_init(&p->c, NULL); if (n > 64) n = 64; p->n = n; for (unsigned i = 0; i < n; i++) pthread_create(&p->th[i], NULL, tpmain, p); *out = p; return 0; }
int hg_thread_pool_post(hg_thread_pool_t *p, struct hg_thread_work *w) { pthread_mutex_lock(&p->m); w->next = NULL; if (p->t) p->t->next = w; else p->h = w; p->t = w; pthread_cond_signal(&p->c); pthread_mutex_unlock(&p->m); return 0; }
int hg_thread_pool_destroy(hg_thread_pool_t *p) { pthread_mutex_lock(&p->m); p->stop = 1; pthread_cond_broadcast(&p->c); pthread_mutex_unlock(&p->m); for (int i = 0; i < p->n; i++) pthread_join(p->th[i], NULL); free(p); return 0; }
