/* Kills this process at a chosen point, once armed: the file named by VHG_ARM holds
 * "<rank> <io|cb> <k> <flush>": die at the k-th file call (fwrite, fclose, rename) resp. callback
 * from now on, after flushing the stream when flush is 1. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

int __real_fclose(FILE *);
static int state = -1, io, flush_first; static long left;
static int armed(int want_io)
{
    static const char *path;
    if (state == -1) { path = getenv("VHG_ARM"); state = path ? 0 : 2; }
    if (state == 2) return 0;
    if (state == 0) {
        FILE *f = fopen(path, "r"); char kind[8]; int rank; if (!f) return 0;
        int n = fscanf(f, "%d %7s %ld %d", &rank, kind, &left, &flush_first); __real_fclose(f);
        if (n != 4) return 0;
        const char *me = getenv("VMPI_RANK");
        if (rank != atoi(me ? me : "0")) { state = 2; return 0; }
        state = 1; io = !strcmp(kind, "io");
    }
    return io == want_io && --left == 0;
}
void vfault_cb(void) { if (armed(0)) _exit(99); }
size_t __real_fwrite(const void *, size_t, size_t, FILE *); int __real_fclose(FILE *); int __real_rename(const char *, const char *);
size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *f)
{
    if (armed(1)) { if (flush_first) fflush(f); _exit(99); }
    return __real_fwrite(p, s, n, f);
}
int __wrap_fclose(FILE *f) { if (state == 1 && armed(1)) { if (flush_first) fflush(f); _exit(99); } return __real_fclose(f); }
int __wrap_rename(const char *a, const char *b) { if (armed(1)) _exit(99); return __real_rename(a, b); }
