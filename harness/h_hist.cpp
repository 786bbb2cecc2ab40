// Histograms against the data they were built from.
#include "mb.hpp"
#include <cmath>
#include <cfloat>
#include <unistd.h>
#include <csignal>
extern "C" {
void *w_gen(int, uint64_t, void *); void *w_dup(void *); void *w_merge(int, void **); void w_free(void *); void *w_copy(void *);
int w_nbin(void *); int w_type(void *); double w_incr(void *); double *w_range(void *); uint64_t *w_bin(void *); int w_t(int);
}
using namespace mb;
struct Data { int k; size_t n; std::vector<double> v; std::string desc; };
static uint64_t total(void *h) { uint64_t t = 0; for (int i = 0; i < w_nbin(h); i++) t += w_bin(h)[i]; return t; }
static double shape(Rng &r, int how, double base, double width)
{
    switch (how) {
    case 0: return base;
    case 1: return base + width * r.unit();
    case 2: return base - width * r.unit() * r.unit() * r.unit();
    case 3: return r.chance(95) ? base + width * r.unit() : base + width * 1000 * (r.unit() - .5);
    case 4: return r.chance(50) ? base : base + width;
    case 5: return base + width * (double)r.below(9);
    default: return (r.unit() - .5) * width;
    }
}
static void *build(Rng &r, Data &d, int how, double base, double width)
{
    static const size_t SZ[] = {4, 4, 8, 8, 8, 4};
    size_t sz = SZ[d.k]; char *p = (char *)malloc(d.n * sz);
    d.v.clear();
    for (size_t i = 0; i < d.n; i++) {
        double x = shape(r, how, base, width); if (std::isnan(x)) x = 1;
        if (d.k == 1 || d.k == 2) { if (r.chance(1) && d.n > 3) x = r.chance(50) ? INFINITY : -INFINITY; if (!r.below(400)) x = r.chance(50) ? DBL_MAX : -DBL_MAX; }
        switch (d.k) {
        case 0: { int v = x > INT32_MAX ? INT32_MAX : x < INT32_MIN ? INT32_MIN : (int)x; memcpy(p + i * sz, &v, sz); d.v.push_back(v); break; }
        case 1: { if (std::isfinite(x) && fabs(x) > FLT_MAX) x = x > 0 ? FLT_MAX : -FLT_MAX; float v = (float)x; memcpy(p + i * sz, &v, sz); d.v.push_back(v); break; }
        case 2: memcpy(p + i * sz, &x, sz); d.v.push_back(x); break;
        case 3: { int64_t v = x >= 9.2e18 ? INT64_MAX : x <= -9.2e18 ? INT64_MIN : (int64_t)x; memcpy(p + i * sz, &v, sz); d.v.push_back((double)v); break; }
        case 4: { uint64_t v = x >= 1.8e19 ? UINT64_MAX : x <= 0 ? 0 : (uint64_t)x; memcpy(p + i * sz, &v, sz); d.v.push_back((double)v); break; }
        case 5: { uint32_t v = x >= 4294967295.0 ? UINT32_MAX : x <= 0 ? 0 : (uint32_t)x; memcpy(p + i * sz, &v, sz); d.v.push_back(v); break; }
        }
    }
    d.desc = fmt("type %d n=%zu shape=%d base=%.17g width=%.17g", d.k, d.n, how, base, width);
    printf("CASE %s %s\n", where().c_str(), d.desc.c_str());
    alarm(20); // terminates: the largest data set takes well below a millisecond
    void *h = w_gen(w_t(d.k), d.n, p);
    alarm(0);
    free(p);
    return h;
}
static void late(int) { const char m[] = "FAIL hist:endless :: building or merging a histogram of the data of the last case did not end\nDONE\n"; if (write(1, m, sizeof m - 1)) _exit(0); _exit(0); }
static bool check(void *h, const Data &d)
{
    int nb = w_nbin(h); double *g = w_range(h); uint64_t *b = w_bin(h);
    if (nb < 1 || nb > 100000) { fail("hist:bins", fmt("%d bins for %s", nb, d.desc.c_str())); return false; }
    if (w_type(h) != w_t(d.k)) fail("hist:type", d.desc);
    if (total(h) != d.n) { fail("hist:total", fmt("%llu elements counted of %zu, %s", (unsigned long long)total(h), d.n, d.desc.c_str())); return false; }
    for (int i = 0; i < nb; i++) if (!(g[2 * i] <= g[2 * i + 1])) { fail("hist:range", fmt("bin %d is [%.17g, %.17g), %s", i, g[2 * i], g[2 * i + 1], d.desc.c_str())); return false; }
    for (int i = 1; i < nb; i++) if (g[2 * i] != g[2 * i - 1]) { fail("hist:gap", fmt("bin %d of %d ends at %.17g, the next starts at %.17g, %s", i - 1, nb, g[2 * i - 1], g[2 * i], d.desc.c_str())); return false; }
    // count again from the ranges: the bins are disjoint, so each element has one
    std::vector<uint64_t> want(nb, 0);
    for (double x : d.v) {
        int in = -1, lo = 0, hi = nb - 1;
        while (lo <= hi) { int m = (lo + hi) / 2; bool last = m == nb - 1; if (x < g[2 * m]) hi = m - 1; else if (x < g[2 * m + 1] || (last && x <= g[2 * m + 1])) { in = m; break; } else lo = m + 1; }
        if (in < 0) { fail("hist:outside", fmt("%.17g is in no bin of [%.17g, %.17g], %s", x, g[0], g[2 * nb - 1], d.desc.c_str())); return false; }
        want[in]++;
    }
    for (int i = 0; i < nb; i++) if (want[i] != b[i]) { fail("hist:count", fmt("bin %d of %d [%.17g, %.17g) counts %llu, holds %llu, %s", i, nb, g[2 * i], g[2 * i + 1], (unsigned long long)b[i], (unsigned long long)want[i], d.desc.c_str())); return false; }
    stat("elements_counted", d.n); stat("bins_checked", nb); stat("histograms");
    return true;
}
static std::string dump(void *h) { std::string s = fmt("%d %d %.17g", w_type(h), w_nbin(h), w_incr(h)); for (int i = 0; i < w_nbin(h); i++) s += fmt(" %.17g %.17g %llu", w_range(h)[2 * i], w_range(h)[2 * i + 1], (unsigned long long)w_bin(h)[i]); return s; }
// merging: what a bin of a part counted lies in the bin of the result that contains it
static void *merge(int n, void **h, const char *nm)
{
    void *x = w_merge(n, h);
    if (!x) return x;
    int nb = w_nbin(x); double *g = w_range(x); std::vector<uint64_t> least(nb, 0), most(nb, 0);
    for (int i = 0; i < n; i++) for (int j = 0; j < w_nbin(h[i]); j++) {
        double a = w_range(h[i])[2 * j], b = w_range(h[i])[2 * j + 1]; uint64_t c = w_bin(h[i])[j];
        if (!c) continue;
        int in = -1, many = 0;
        for (int k = 0; k < nb; k++) if (a >= g[2 * k] && b <= g[2 * k + 1]) { in = k; many++; }
        if (many == 1 && a < b) { least[in] += c; most[in] += c; stat("merged_bins_placed"); }
        else { for (int k = 0; k < nb; k++) if (b >= g[2 * k] && a <= g[2 * k + 1]) most[k] += c; stat("merged_bins_between"); }
    }
    for (int k = 0; k < nb; k++) if (w_bin(x)[k] < least[k] || w_bin(x)[k] > most[k]) {
        fail("hist:merge-count", fmt("%s: bin %d of %d [%.17g, %.17g) counts %llu, the parts' bins in it count %llu (and those reaching into it %llu)", nm, k, nb, g[2 * k], g[2 * k + 1], (unsigned long long)w_bin(x)[k], (unsigned long long)least[k], (unsigned long long)most[k])); break; }
    for (int k = 1; k < nb; k++) if (g[2 * k] != g[2 * k - 1]) { fail("hist:merge-gap", fmt("%s: bin %d ends at %.17g, the next starts at %.17g", nm, k - 1, g[2 * k - 1], g[2 * k])); break; }
    return x;
}
static void one(Rng &r, const std::string &)
{
    signal(SIGALRM, late);
    int k = (int)r.below(6), m = (int)r.range(1, 5);
    std::vector<void *> hs; uint64_t sum = 0; double lo = INFINITY, hi = -INFINITY;
    double base = r.pick(std::vector<double>{0, 1, -1, 0.1, 1000.7, -3e5, 1e9, 5e15, 1e17, -1e18, 1e300, -2.5e-7, 3e-310, 0.999999}) * (r.chance(50) ? 1 : r.unit() * 3);
    for (int i = 0; i < m; i++) {
        Data d; d.k = k; d.n = r.chance(20) ? r.range(1, 5) : r.chance(10) ? r.range(1000, 6000) : r.range(5, 700);
        double w = r.pick(std::vector<double>{0, 1e-320, 1e-12, 1e-3, 0.3, 1, 7, 48, 96, 100, 4096, 1e6, 4e9, 1e15, 1e19, 1e200, 1.5e308}) * (r.chance(50) ? 1 : r.unit() * 2);
        double bb = r.chance(60) ? base : base + w * 3 * r.unit(); if (!std::isfinite(bb)) bb = 1e300;
        void *h = build(r, d, (int)r.below(7), bb, w);
        if (!h) { fail("hist:none", "no histogram for " + d.desc); continue; }
        if (!check(h, d)) { w_free(h); continue; }
        distincth("history", dump(h));
        if (w_bin(h)[0] == d.n || w_bin(h)[w_nbin(h) - 1] == d.n) stat("histograms_all_in_one_end");
        hs.push_back(h); sum += d.n;
        for (double x : d.v) { lo = std::min(lo, x); hi = std::max(hi, x); }
    }
    if (hs.empty()) return;
    std::string before = dump(hs[0]);
    void *c = w_dup(hs[0]), *e = w_copy(hs[0]);
    if (!c || dump(c) != before) fail("hist:duplicate", before);
    if (dump(e) != before) fail("hist:copy", before);
    w_free(e);
    if (c) { w_bin(c)[0] += 5; w_range(c)[0] -= 1; if (dump(hs[0]) != before) fail("hist:duplicate-shared", before); w_free(c); }
    // merge trees
    std::vector<std::string> was; for (auto h : hs) was.push_back(dump(h));
    alarm(20);
    void *all = merge((int)hs.size(), hs.data(), "at once");
    std::vector<void *> tree; for (auto h : hs) tree.push_back(w_dup(h));
    while (tree.size() > 1) { size_t a = r.below(tree.size() - 1); void *two[2] = {tree[a], tree[a + 1]}; void *x = merge(2, two, "pairwise"); w_free(two[0]); w_free(two[1]); tree.erase(tree.begin() + a); tree[a] = x; if (!x) break; }
    alarm(0);
    for (size_t i = 0; i < hs.size(); i++) if (dump(hs[i]) != was[i]) fail("hist:merge-changes-parts", was[i]);
    for (int v = 0; v < 2; v++) {
        void *x = v ? tree[0] : all; const char *nm = v ? "pairwise" : "at once";
        if (!x) { fail("hist:merge-none", nm); continue; }
        if (total(x) != sum) fail("hist:merge-total", fmt("%s: %llu elements, parts have %llu", nm, (unsigned long long)total(x), (unsigned long long)sum));
        if (w_range(x)[0] > lo || w_range(x)[2 * w_nbin(x) - 1] < hi) fail("hist:merge-extent", fmt("%s: [%.17g, %.17g], the data spans [%.17g, %.17g]", nm, w_range(x)[0], w_range(x)[2 * w_nbin(x) - 1], lo, hi));
        stat("merges");
    }
    w_free(all); for (auto x : tree) if (x) w_free(x);
    for (auto h : hs) w_free(h);
    // kinds that have no histogram are refused, not built from nothing
    char raw[64] = {1, 2, 3}; alarm(20); void *n = w_gen(w_t(6 + (int)r.below(2)), 32, raw); alarm(0);
    if (n) { if (w_nbin(n) < 1) fail("hist:unsupported", "a histogram without bins"); w_free(n); } else stat("unsupported_refused");
    if (w_gen(w_t(k), 0, raw)) fail("hist:empty", "a histogram of nothing");
}
int main(int argc, char **argv) { return run(argc, argv, one); }
