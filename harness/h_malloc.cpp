// Accounting allocator: total and per-structure counters against a model, contents preserved.
#include "mb.hpp"
#include "oom.hpp"
#include <malloc.h>
extern "C" {
void *PDC_malloc(size_t);
void *PDC_malloc_addsize(size_t, size_t *);
void *PDC_calloc(size_t, size_t);
void *PDC_calloc_addsize(size_t, size_t, size_t *);
void *PDC_realloc_knowing_oldsize(void *, size_t, size_t);
void *PDC_realloc_addsize_knowing_oldsize(void *, size_t, size_t, size_t *);
void *PDC_realloc(void *, size_t);
void *PDC_realloc_addsize(void *, size_t, size_t *);
void *PDC_free(void *);
void *PDC_free_knowing_old_size(void *, size_t);
size_t PDC_get_global_mem_usage();
}
using namespace mb;
struct B { char *p; size_t n; unsigned char seed; };
static void fill(B &b, size_t from = 0) { for (size_t i = from; i < b.n; i++) b.p[i] = (char)(b.seed + i * 7); }
static bool same(const B &b, size_t n) { for (size_t i = 0; i < n; i++) if (b.p[i] != (char)(b.seed + i * 7)) return false; return true; }
static void one(Rng &r, const std::string &) {
    std::vector<B> live;
    size_t base = PDC_get_global_mem_usage(), model = base, acc = 0, macc = 0;
    std::string h;
    int steps = r.range(1, 200);
    for (int i = 0; i < steps; i++) {
        int w = r.below(10);
        bool add = r.chance(40);
        size_t n = r.chance(80) ? r.range(1, 300) : r.range(300, 100000), c = r.range(1, 40);
        if (w < 3) {
            B b{(char *)(add ? PDC_malloc_addsize(n, &acc) : PDC_malloc(n)), n, (unsigned char)r.next()};
            fill(b); live.push_back(b); model += n; if (add) macc += n;
            stat("pdc_malloc"); h += fmt("m%zu,", n);
        } else if (w < 5) {
            if (n > 5000) n = 5000;
            B b{(char *)(add ? PDC_calloc_addsize(c, n, &acc) : PDC_calloc(c, n)), c * n, (unsigned char)r.next()};
            for (size_t k = 0; k < b.n; k++) if (b.p[k]) { fail("mem:calloc-not-zero", fmt("%zu x %zu", c, n)); break; }
            fill(b); live.push_back(b); model += c * n; if (add) macc += c * n;
            stat("pdc_calloc"); h += fmt("c%zux%zu,", c, n);
        } else if (w < 8 && !live.empty()) {
            B &b = live[r.below(live.size())];
            size_t old = b.n;
            b.p = (char *)(add ? PDC_realloc_addsize_knowing_oldsize(b.p, n, old, &acc) : PDC_realloc_knowing_oldsize(b.p, n, old));
            b.n = n;
            if (!same(b, std::min(n, old))) fail("mem:realloc-contents", fmt("%zu to %zu", old, n));
            fill(b); model += n - old; if (add) macc += n - old;
            stat("pdc_realloc"); h += fmt("r%zu>%zu,", old, n);
        } else if (!live.empty()) {
            size_t k = r.below(live.size());
            B b = live[k];
            if (!same(b, b.n)) fail("mem:contents", fmt("block of %zu bytes changed", b.n));
            if (PDC_free_knowing_old_size(b.p, b.n) != nullptr) fail("mem:free-result", "not NULL");
            model -= b.n; live.erase(live.begin() + k);
            stat("pdc_free"); h += fmt("f%zu,", b.n);
        }
        if (r.chance(3)) { // nothing to give: no block, and nothing is accounted for
            int v = (int)r.below(4);
            oom::arm(0);
            void *p = v == 0 ? PDC_malloc(n) : v == 1 ? PDC_malloc_addsize(n, &acc) : v == 2 ? PDC_calloc(c, n) : PDC_calloc_addsize(c, n, &acc);
            if (!oom::disarm() || p) fail("mem:oom", fmt("variant %d gives a block without memory", v));
            stat("pdc_oom"); h += "o,";
        }
        if (r.chance(5) && PDC_free_knowing_old_size(nullptr, 10) != nullptr) fail("mem:free-null", "not NULL");
        if (PDC_get_global_mem_usage() != model) { fail("mem:total", fmt("total moved by %lld, expected %lld after %s", (long long)(PDC_get_global_mem_usage() - base), (long long)(model - base), h.substr(h.size() > 40 ? h.size() - 40 : 0).c_str())); break; }
        if (acc != macc) { fail("mem:structure-total", fmt("counter %zu, expected %zu after %s", acc, macc, h.substr(h.size() > 40 ? h.size() - 40 : 0).c_str())); break; }
    }
    for (auto &b : live) { if (!same(b, b.n)) fail("mem:contents", fmt("block of %zu bytes changed", b.n)); PDC_free_knowing_old_size(b.p, b.n); }
    // the variants that ask the C library for the old size: contents only
    B b{(char *)PDC_malloc(100), 100, 3};
    fill(b);
    // (the total moves by the new size and, where the C library tells it, by the old block's)
    auto told = [&](const char *what, size_t t, size_t a, size_t plus, size_t u) {
        size_t t1 = PDC_get_global_mem_usage();
        if (t1 != t + plus && t1 != t + plus - u) fail("mem:total", fmt("%s: the total moved by %lld, the new size is %zu and the old block held %zu", what, (long long)(t1 - t), plus, u));
        if (a != (size_t)-1 && acc != a + plus && acc != a + plus - u) fail("mem:structure-total", fmt("%s: the counter moved by %lld, the new size is %zu and the old block held %zu", what, (long long)(acc - a), plus, u));
    };
    for (int i = 0; i < 5; i++) {
        size_t o = b.n, u = malloc_usable_size(b.p), t = PDC_get_global_mem_usage(), a = acc;
        bool add = r.chance(50);
        b.n = r.range(1, 3000);
        b.p = (char *)(add ? PDC_realloc_addsize(b.p, b.n, &acc) : PDC_realloc(b.p, b.n));
        if (!same(b, std::min(o, b.n))) fail("mem:realloc-contents", fmt("%zu to %zu", o, b.n));
        told("reallocating", t, add ? a : (size_t)-1, b.n, u);
        fill(b);
    }
    { size_t u = malloc_usable_size(b.p), t = PDC_get_global_mem_usage(); PDC_free(b.p); told("freeing", t, (size_t)-1, 0, u); }
    { size_t t = PDC_get_global_mem_usage(); PDC_free(nullptr); told("freeing nothing", t, (size_t)-1, 0, 0); }
    // without a structure to account for
    size_t t0 = PDC_get_global_mem_usage(), n1 = r.range(1, 500), n2 = r.range(1, 500);
    char *q = (char *)PDC_malloc_addsize(n1, nullptr);
    q = (char *)PDC_realloc_addsize_knowing_oldsize(q, n2, n1, nullptr);
    char *q2 = (char *)PDC_calloc_addsize(n1, 2, nullptr);
    if (PDC_get_global_mem_usage() - t0 != n2 + 2 * n1) fail("mem:total", "without a structure counter");
    PDC_free_knowing_old_size(q, n2), PDC_free_knowing_old_size(q2, 2 * n1);
    // a block that does not exist yet is reallocated from nothing
    q = (char *)PDC_realloc_knowing_oldsize(nullptr, n1, 0);
    if (!q || PDC_get_global_mem_usage() - t0 != n1) fail("mem:total", "reallocating nothing");
    PDC_free_knowing_old_size(q, n1);
    if (PDC_get_global_mem_usage() != t0) fail("mem:total", "not as before");
    distincth("history", h);
    sample(h);
}
int main(int c, char **v) { return run(c, v, one); }
