#define _GNU_SOURCE
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define KNOWN(p, n) __msan_unpoison(p, n)
#endif
#endif
#ifndef KNOWN
#define KNOWN(p, n) ((void)0)
#endif
#include "mpi.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <errno.h>
#include <poll.h>
#include <time.h>
#include <sys/socket.h>
#include <sys/un.h>
struct vmpi_comm { int id, rank, size, *world, nsub; };
struct vmpi_comm vmpi_world;
static int inited, lfd = -1, wsize = 1, wrank; static int *ofd; static char dir[90];
struct in { int src, comm; uint64_t len; char *d; struct in *next; }; static struct in *inbox, **itail = &inbox;
struct rc { int fd; struct rc *next; }; static struct rc *rcs;
static void die(const char *m) { fprintf(stderr, "vmpi[%d]: %s: %s\n", wrank, m, strerror(errno)); _exit(97); }
int MPI_Init(int *a, char ***b)
{
    (void)a; (void)b; if (inited) return 0; inited = 1; const char *e;
    if ((e = getenv("VMPI_SIZE"))) wsize = atoi(e);
    if ((e = getenv("VMPI_RANK"))) wrank = atoi(e);
    vmpi_world.rank = wrank; vmpi_world.size = wsize; vmpi_world.world = calloc(wsize, sizeof(int)); for (int i = 0; i < wsize; i++) vmpi_world.world[i] = i;
    if (wsize == 1) return 0;
    e = getenv("VMPI_DIR"); snprintf(dir, sizeof dir, "%s", e ? e : "/tmp"); ofd = calloc(wsize, sizeof(int)); for (int i = 0; i < wsize; i++) ofd[i] = -1;
    struct sockaddr_un s = {.sun_family = AF_UNIX}; snprintf(s.sun_path, sizeof s.sun_path, "%s/m%d", dir, wrank); unlink(s.sun_path);
    lfd = socket(AF_UNIX, SOCK_STREAM, 0); if (bind(lfd, (void *)&s, sizeof s) || listen(lfd, 128)) die("bind");
    MPI_Barrier(MPI_COMM_WORLD); return 0;
}
int MPI_Initialized(int *f) { *f = inited; return 0; }
int MPI_Abort(MPI_Comm c, int r) { (void)c; _exit(r ? r : 1); }
static void rd(int fd, void *b, size_t n) { char *p = b; while (n) { ssize_t k = read(fd, p, n); if (k > 0) { p += k; n -= k; } else if (k < 0 && errno == EINTR) continue; else { errno = ECONNRESET; die("peer gone"); } } }
static void pump(int timeout)
{
    struct pollfd pf[130]; struct rc *who[130]; int n = 0; pf[n].fd = lfd; pf[n].events = POLLIN; who[n++] = NULL;
    for (struct rc *c = rcs; c && n < 130; c = c->next) if (c->fd >= 0) { pf[n].fd = c->fd; pf[n].events = POLLIN; who[n++] = c; }
    if (poll(pf, n, timeout) <= 0) return;
    if (pf[0].revents) { struct rc *c = calloc(1, sizeof *c); c->fd = accept(lfd, NULL, NULL); c->next = rcs; rcs = c; }
    for (int i = 1; i < n; i++) if (pf[i].revents) {
        struct { int src, comm; uint64_t len; } h; ssize_t k = recv(who[i]->fd, &h, 1, MSG_PEEK); if (k <= 0) { close(who[i]->fd); who[i]->fd = -1; continue; }
        rd(who[i]->fd, &h, sizeof h); struct in *m = calloc(1, sizeof *m); m->src = h.src; m->comm = h.comm; m->len = h.len; m->d = malloc(h.len + 1); rd(who[i]->fd, m->d, h.len); *itail = m; itail = &m->next;
    }
}
static void snd(MPI_Comm c, int to, const void *d, size_t n)
{
    int w = c->world[to];
    if (ofd[w] < 0) {
        struct sockaddr_un s = {.sun_family = AF_UNIX}; snprintf(s.sun_path, sizeof s.sun_path, "%s/m%d", dir, w); int tries = 0;
        for (;;) { int fd = socket(AF_UNIX, SOCK_STREAM, 0); if (!connect(fd, (void *)&s, sizeof s)) { ofd[w] = fd; break; } close(fd); if (tries++ > 12000) die("connect"); usleep(5000); }
    }
    struct { int src, comm; uint64_t len; } h = {wrank, c->id, n}; const char *p[2] = {(void *)&h, d}; size_t l[2] = {sizeof h, n};
    for (int i = 0; i < 2; i++) KNOWN(p[i], l[i]);
    for (int i = 0; i < 2; i++) while (l[i]) { ssize_t k = send(ofd[w], p[i], l[i], MSG_NOSIGNAL | MSG_DONTWAIT); if (k > 0) { p[i] += k; l[i] -= k; } else if (errno == EAGAIN) pump(1); else die("send"); }
}
static void rcv(MPI_Comm c, int from, void *d, size_t n)
{
    int w = c->world[from];
    for (;;) {
        for (struct in **pp = &inbox; *pp; pp = &(*pp)->next) if ((*pp)->src == w && (*pp)->comm == c->id) { struct in *m = *pp; if (m->len != n) { fprintf(stderr, "vmpi: size mismatch got %lu want %lu\n", (unsigned long)m->len, (unsigned long)n); _exit(97); } if (n) memcpy(d, m->d, n); *pp = m->next; if (itail == &m->next) { itail = &inbox; while (*itail) itail = &(*itail)->next; } free(m->d); free(m); return; }
        pump(1000);
    }
}
static size_t ts(MPI_Datatype t) { switch (t) { case MPI_CHAR: case MPI_BYTE: case MPI_INT8_T: case MPI_UINT8_T: return 1; case MPI_INT: case MPI_UNSIGNED: case MPI_UINT32_T: case MPI_INT32_T: case MPI_FLOAT: return 4; default: return 8; } }
int MPI_Comm_rank(MPI_Comm c, int *r) { *r = c->rank; return 0; }
int MPI_Comm_size(MPI_Comm c, int *r) { *r = c->size; return 0; }
static MPI_Comm mk(MPI_Comm c, int id) { MPI_Comm n = calloc(1, sizeof *n); n->id = id; n->rank = c->rank; n->size = c->size; n->world = malloc(sizeof(int) * c->size); memcpy(n->world, c->world, sizeof(int) * c->size); return n; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o) { *o = mk(c, c->id * 1000 + ++c->nsub); return 0; }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *o)
{
    int *all = malloc(sizeof(int) * 2 * c->size), me[2] = {color, key}; MPI_Allgather(me, 2, MPI_INT, all, 2, MPI_INT, c); MPI_Comm n = calloc(1, sizeof *n); n->id = c->id * 1000 + ++c->nsub; n->world = malloc(sizeof(int) * c->size);
    if (color == MPI_UNDEFINED) { *o = MPI_COMM_NULL; free(all); return 0; }
    char *used = calloc(1, c->size);
    for (;;) { int b = -1; for (int i = 0; i < c->size; i++) if (!used[i] && all[2 * i] == color && (b < 0 || all[2 * i + 1] < all[2 * b + 1])) b = i; if (b < 0) break; used[b] = 1; if (b == c->rank) n->rank = n->size; n->world[n->size++] = c->world[b]; }
    free(used); free(all); *o = n; return 0;
}
int MPI_Comm_split_type(MPI_Comm c, int t, int key, MPI_Info i, MPI_Comm *o) { (void)t; (void)i; return MPI_Comm_split(c, 0, key, o); }
int MPI_Comm_free(MPI_Comm *c) { if (*c && *c != MPI_COMM_WORLD) { free((*c)->world); free(*c); } *c = MPI_COMM_NULL; return 0; }
int MPI_Barrier(MPI_Comm c) { char x = 0; if (c->size == 1) return 0; if (c->rank == 0) { for (int i = 1; i < c->size; i++) rcv(c, i, &x, 1); for (int i = 1; i < c->size; i++) snd(c, i, &x, 1); } else { snd(c, 0, &x, 1); rcv(c, 0, &x, 1); } return 0; }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { size_t l = ts(t) * n; if (c->rank == root) { for (int i = 0; i < c->size; i++) if (i != root) snd(c, i, b, l); } else rcv(c, root, b, l); return 0; }
int MPI_Gatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rn, const int *rd_, MPI_Datatype rt, int root, MPI_Comm c)
{ if (c->rank != root) { snd(c, root, s, ts(st) * sn); return 0; } for (int i = 0; i < c->size; i++) { char *p = (char *)r + ts(rt) * rd_[i]; if (i == root) { if (s != MPI_IN_PLACE && sn) memcpy(p, s, ts(st) * sn); } else rcv(c, i, p, ts(rt) * rn[i]); } return 0; }
int MPI_Gather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{ int *n = malloc(sizeof(int) * c->size), *d = malloc(sizeof(int) * c->size); for (int i = 0; i < c->size; i++) { n[i] = rn; d[i] = rn * i; } MPI_Gatherv(s, sn, st, r, n, d, rt, root, c); free(n); free(d); return 0; }
int MPI_Allgatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rn, const int *d, MPI_Datatype rt, MPI_Comm c)
{ MPI_Gatherv(s, sn, st, r, rn, d, rt, 0, c); for (int i = 0; i < c->size; i++) MPI_Bcast((char *)r + ts(rt) * d[i], rn[i], rt, 0, c); return 0; }
int MPI_Allgather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c) { MPI_Gather(s, sn, st, r, rn, rt, 0, c); return MPI_Bcast(r, rn * c->size, rt, 0, c); }
int MPI_Scatterv(const void *s, const int *sn, const int *d, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{ if (c->rank == root) { for (int i = 0; i < c->size; i++) { const char *p = (const char *)s + ts(st) * d[i]; if (i == root) { if (r != MPI_IN_PLACE && sn[i]) memcpy(r, p, ts(st) * sn[i]); } else snd(c, i, p, ts(st) * sn[i]); } } else rcv(c, root, r, ts(rt) * rn); return 0; }
#define FOLD(T) for (int i = 0; i < n; i++) { T x = ((T *)a)[i], y = ((const T *)b)[i]; ((T *)a)[i] = op == MPI_SUM ? x + y : op == MPI_MIN ? (x < y ? x : y) : (x > y ? x : y); }
static void fold(void *a, const void *b, int n, MPI_Datatype t, MPI_Op op)
{ switch (t) { case MPI_INT: case MPI_INT32_T: FOLD(int32_t) break; case MPI_UNSIGNED: case MPI_UINT32_T: FOLD(uint32_t) break; case MPI_FLOAT: FOLD(float) break; case MPI_DOUBLE: FOLD(double) break; case MPI_LONG: case MPI_LONG_LONG: case MPI_LONG_LONG_INT: case MPI_INT64_T: FOLD(int64_t) break; case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: FOLD(uint64_t) break; default: FOLD(int8_t) } }
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c)
{ size_t l = ts(t) * n; if (c->rank != root) { snd(c, root, s, l); return 0; } char *tmp = malloc(l + 1); if (s != MPI_IN_PLACE) memcpy(r, s, l); for (int i = 0; i < c->size; i++) if (i != root) { rcv(c, i, tmp, l); fold(r, tmp, n, t, op); } free(tmp); return 0; }
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{ void *in = NULL; if (s == MPI_IN_PLACE) { in = malloc(ts(t) * n + 1); memcpy(in, r, ts(t) * n); s = in; } MPI_Reduce(s, r, n, t, op, 0, c); free(in); return MPI_Bcast(r, n, t, 0, c); }
int MPI_Scan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{ size_t l = ts(t) * n; char *tmp = malloc(l + 1); memcpy(r, s, l); if (c->rank) { rcv(c, c->rank - 1, tmp, l); fold(r, tmp, n, t, op); } if (c->rank + 1 < c->size) snd(c, c->rank + 1, r, l); free(tmp); return 0; }
double MPI_Wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
int MPI_Finalize(void) { if (inited == 1 && wsize > 1) { MPI_Barrier(MPI_COMM_WORLD); char p[120]; snprintf(p, sizeof p, "%s/m%d", dir, wrank); unlink(p); } inited = 2; return 0; }
