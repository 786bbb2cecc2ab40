// Region arithmetic against element-by-element reasoning; copies run in exactly sized heap blocks.
#include "mb.hpp"
#include <sys/mman.h>
extern "C" {
int check_overlap(int ndim, uint64_t *o1, uint64_t *s1, uint64_t *o2, uint64_t *s2);
int PDC_region_overlap_detect(int ndim, uint64_t *o1, uint64_t *s1, uint64_t *o2, uint64_t *s2, uint64_t **oo, uint64_t **os);
int memcpy_subregion(int ndim, uint64_t unit, int access, char *buf, uint64_t *size, char *sub, uint64_t *so, uint64_t *ss);
int memcpy_overlap_subregion(int ndim, uint64_t unit, char *buf, uint64_t *o, uint64_t *s, char *buf2, uint64_t *o2, uint64_t *s2, uint64_t *oo, uint64_t *os);
int detect_region_contained(uint64_t *o, uint64_t *s, uint64_t *o2, uint64_t *s2, int ndim);
int PDC_is_contiguous_start_count_overlap(uint32_t ndim, uint64_t *, uint64_t *, uint64_t *, uint64_t *);
int PDC_get_overlap_start_count(uint32_t ndim, uint64_t *, uint64_t *, uint64_t *, uint64_t *, uint64_t *, uint64_t *);
int w_list_overlap(int ndim, uint64_t *, uint64_t *, uint64_t *, uint64_t *);
int w_same_list(int n1, int n2, uint64_t *, uint64_t *, uint64_t *, uint64_t *);
int w_list_transfer(int ndim, uint64_t *, uint64_t *, uint64_t *, uint64_t *);
}
using namespace mb;
typedef std::vector<uint64_t> V;
static std::string sv(const V &a) { std::string r = "["; for (auto x : a) r += fmt("%llu ", (unsigned long long)x); return r + "]"; }
static bool in(const V &p, const V &o, const V &s) { for (size_t d = 0; d < p.size(); d++) if (p[d] < o[d] || p[d] - o[d] >= s[d]) return false; return true; }
static uint64_t vol(const V &s) { uint64_t v = 1; for (auto x : s) v *= x; return v; }
static V point(const V &o, const V &s, uint64_t i) { V p(o.size()); for (int d = (int)o.size() - 1; d >= 0; d--) { p[d] = o[d] + i % s[d]; i /= s[d]; } return p; }
static uint64_t lin(const V &p, const V &o, const V &s) { uint64_t i = 0; for (size_t d = 0; d < p.size(); d++) i = i * s[d] + (p[d] - o[d]); return i; }
static uint64_t val(const V &p, uint64_t salt) { uint64_t h = salt; for (auto x : p) h = h * 1000003 + x + 7; return h ^ (h >> 17); }
// Extents beyond 32 bits: arithmetic dimension by dimension, copies in sparse memory of which a few pages are touched.
static void huge(Rng &r) {
    int nd = r.range(1, 3);
    for (int t = 0; t < 20; t++) {
        V o1(nd), s1(nd), o2(nd), s2(nd);
        bool ov = true, c12 = true, c21 = true, same = true;
        for (int d = 0; d < nd; d++) {
            auto big = [&]() { return r.chance(60) ? (1ull << r.range(1, 44)) + r.below(7) - 1 : 1 + r.below(9); };
            o1[d] = big(), s1[d] = big(), o2[d] = r.chance(40) ? o1[d] + r.below(s1[d]) : r.chance(20) ? o1[d] + s1[d] : big(), s2[d] = big();
            if (r.chance(10)) { o2[d] = o1[d]; s2[d] = s1[d] + (r.chance(50) ? 1ull << 32 : 0); }
            ov = ov && o1[d] < o2[d] + s2[d] && o2[d] < o1[d] + s1[d];
            c12 = c12 && o1[d] >= o2[d] && o1[d] + s1[d] <= o2[d] + s2[d];
            c21 = c21 && o2[d] >= o1[d] && o2[d] + s2[d] <= o1[d] + s1[d];
            same = same && o1[d] == o2[d] && s1[d] == s2[d];
        }
        std::string ctx = sv(o1) + sv(s1) + sv(o2) + sv(s2);
        auto yes = [&](const char *w, int got, bool want) { if ((got == 1) != want || (!want && got > 0)) fail(fmt("region:%s", w), fmt("%s: %d, expected %d", ctx.c_str(), got, (int)want)); };
        yes("check_overlap", check_overlap(nd, o1.data(), s1.data(), o2.data(), s2.data()), ov);
        yes("start_count_overlap", PDC_is_contiguous_start_count_overlap(nd, o1.data(), s1.data(), o2.data(), s2.data()), ov);
        yes("list_overlap", w_list_overlap(nd, o1.data(), s1.data(), o2.data(), s2.data()), ov);
        yes("same_region", w_same_list(nd, nd, o1.data(), s1.data(), o2.data(), s2.data()), same);
        { V a(nd), b(nd); int n = w_list_transfer(nd, o1.data(), s1.data(), a.data(), b.data()); if (n != nd || a != o1 || b != s1) fail("region:list-transfer", ctx); }
        if (ov) { yes("contained", detect_region_contained(o1.data(), s1.data(), o2.data(), s2.data(), nd), c12); yes("contained-swapped", detect_region_contained(o2.data(), s2.data(), o1.data(), s1.data(), nd), c21); }
        uint64_t *oo = (uint64_t *)1, *os = nullptr;
        PDC_region_overlap_detect(nd, o1.data(), s1.data(), o2.data(), s2.data(), &oo, &os);
        if ((oo != nullptr) != ov) fail("region:overlap_detect", fmt("%s: overlap reported %d", ctx.c_str(), oo != nullptr));
        else if (ov) {
            V go(nd), gs(nd);
            int rc = PDC_get_overlap_start_count(nd, o1.data(), s1.data(), o2.data(), s2.data(), go.data(), gs.data());
            for (int d = 0; d < nd; d++) {
                uint64_t a = std::max(o1[d], o2[d]), e = std::min(o1[d] + s1[d], o2[d] + s2[d]) - a;
                if (oo[d] != a || os[d] != e) fail("region:overlap_detect-extent", fmt("%s: dim %d gives %llu+%llu", ctx.c_str(), d, (unsigned long long)oo[d], (unsigned long long)os[d]));
                if (rc < 0 || go[d] != a || gs[d] != e) fail("region:get_overlap_start_count", fmt("%s: dim %d gives %llu+%llu", ctx.c_str(), d, (unsigned long long)go[d], (unsigned long long)gs[d]));
            }
            free(oo);
        }
        stat("region_huge_pairs");
        distincth("history", ctx);
    }
    // one large array in sparse memory, a small one at or near its end, copied both ways
    uint64_t unit = r.pick(std::vector<uint64_t>{1, 2, 4, 8, 16});
    V s1(nd), o1(nd), o2(nd), s2(nd), so(nd), zero(nd, 0);
    uint64_t left = (1ull << 36) / unit;
    for (int d = 0; d < nd; d++) {
        int room = 0; while ((left >> (room + 1)) > 0) room++;
        s1[d] = d == nd - 1 ? left - r.below(3) : 1ull << r.range(1, std::max(1, room - (nd - 1 - d)));
        if (s1[d] < 1) s1[d] = 1;
        left /= s1[d]; if (!left) left = 1;
        s2[d] = 1 + r.below(std::min<uint64_t>(s1[d], 5));
        o1[d] = r.chance(50) ? 0 : r.below(1ull << 40);
        so[d] = r.chance(60) ? s1[d] - s2[d] : r.below(s1[d] - s2[d] + 1);
        o2[d] = o1[d] + so[d];
    }
    size_t bytes = vol(s1) * unit;
    char *a = (char *)mmap(NULL, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (a == MAP_FAILED) { stat("region_huge_unavailable"); return; }
    std::string ctx = fmt("unit %llu ", (unsigned long long)unit) + sv(o1) + sv(s1) + sv(o2) + sv(s2);
    uint64_t n = vol(s2);
    char *b = (char *)malloc(n * unit);
    auto at = [&](uint64_t i) { return a + lin(point(so, s2, i), zero, s1) * unit; };
    for (int how = 0; how < 4; how++) {
        bool into = how & 1; // into the large one
        std::string w;
        for (uint64_t i = 0; i < n * unit; i++) { b[i] = (char)r.next(); }
        for (uint64_t i = 0; i < n; i++) for (uint64_t k = 0; k < unit; k++) at(i)[k] = (char)r.next();
        if (into) w = std::string(b, n * unit); else for (uint64_t i = 0; i < n; i++) w += std::string(at(i), unit);
        if (how < 2) memcpy_subregion(nd, unit, into ? 1 : 2, a, s1.data(), b, so.data(), s2.data());
        else if (into) memcpy_overlap_subregion(nd, unit, b, o2.data(), s2.data(), a, o1.data(), s1.data(), o2.data(), s2.data());
        else memcpy_overlap_subregion(nd, unit, a, o1.data(), s1.data(), b, o2.data(), s2.data(), o2.data(), s2.data());
        std::string g;
        for (uint64_t i = 0; i < n; i++) g += std::string(at(i), unit);
        if (g != w || std::string(b, n * unit) != w) fail(how < 2 ? "region:huge-subregion" : "region:huge-overlap-copy", ctx + (into ? " in" : " out"));
        stat("region_huge_copies");
    }
    free(b);
    munmap(a, bytes);
    distincth("history", ctx);
}
static void one(Rng &r, const std::string &) {
    if (r.chance(10)) { huge(r); return; }
    int nd = r.range(1, 3);
    for (int t = 0; t < 40; t++) {
        uint64_t base = r.chance(70) ? 0 : r.chance(50) ? r.below(1000) : (1ull << 40) + r.below(100);
        int ext = nd == 1 ? 30 : nd == 2 ? 9 : 6;
        V o1(nd), s1(nd), o2(nd), s2(nd);
        for (int d = 0; d < nd; d++) {
            o1[d] = base + r.below(ext); s1[d] = r.range(1, ext);
            o2[d] = base + r.below(ext); s2[d] = r.range(1, ext);
            if (r.chance(15)) o2[d] = o1[d] + s1[d];           // adjacent, not overlapping
            if (r.chance(10)) o2[d] = o1[d];
            if (r.chance(10)) s2[d] = s1[d];
            if (r.chance(10)) { o2[d] = o1[d] + r.below(s1[d]); s2[d] = 1 + r.below(o1[d] + s1[d] - o2[d]); } // contained
        }
        std::string ctx = sv(o1) + sv(s1) + sv(o2) + sv(s2);
        // set reasoning
        std::vector<V> common;
        uint64_t n1 = vol(s1);
        for (uint64_t i = 0; i < n1; i++) { V p = point(o1, s1, i); if (in(p, o2, s2)) common.push_back(p); }
        bool ov = !common.empty();
        bool cont = common.size() == n1;
        stat("region_pairs"); if (ov) stat("region_overlapping"); if (cont) stat("region_contained");
        distincth("history", ctx);
        auto yes = [&](const char *w, int got, bool want) { if ((got == 1) != want || (!want && got > 0)) fail(fmt("region:%s", w), fmt("%s: %d, set reasoning says %d", ctx.c_str(), got, (int)want)); };
        yes("check_overlap", check_overlap(nd, o1.data(), s1.data(), o2.data(), s2.data()), ov);
        yes("check_overlap-swapped", check_overlap(nd, o2.data(), s2.data(), o1.data(), s1.data()), ov);
        yes("start_count_overlap", PDC_is_contiguous_start_count_overlap(nd, o1.data(), s1.data(), o2.data(), s2.data()), ov);
        yes("list_overlap", w_list_overlap(nd, o1.data(), s1.data(), o2.data(), s2.data()), ov);
        yes("same_region", w_same_list(nd, nd, o1.data(), s1.data(), o2.data(), s2.data()), o1 == o2 && s1 == s2);
        yes("same_region-self", w_same_list(nd, nd, o1.data(), s1.data(), o1.data(), s1.data()), true);
        { V a(nd), b(nd); int n = w_list_transfer(nd, o1.data(), s1.data(), a.data(), b.data()); if (n != nd || a != o1 || b != s1) fail("region:list-transfer", fmt("%s comes back as %s %s", ctx.c_str(), sv(a).c_str(), sv(b).c_str())); }
        uint64_t *oo = (uint64_t *)1, *os = nullptr;
        V io1 = o1, is1 = s1, io2 = o2, is2 = s2;
        PDC_region_overlap_detect(nd, o1.data(), s1.data(), o2.data(), s2.data(), &oo, &os);
        if (io1 != o1 || is1 != s1 || io2 != o2 || is2 != s2) fail("region:inputs-changed", ctx);
        if ((oo != nullptr) != ov) { fail("region:overlap_detect", fmt("%s: overlap reported %d", ctx.c_str(), oo != nullptr)); continue; }
        V eo(nd), es(nd);
        if (ov) {
            eo = common.front();
            for (int d = 0; d < nd; d++) es[d] = common.back()[d] - eo[d] + 1;
            for (int d = 0; d < nd; d++) if (oo[d] != eo[d] || os[d] != es[d]) { fail("region:overlap_detect-extent", fmt("%s: dim %d gives %llu+%llu, expected %llu+%llu", ctx.c_str(), d, (unsigned long long)oo[d], (unsigned long long)os[d], (unsigned long long)eo[d], (unsigned long long)es[d])); break; }
            V go(nd), gs(nd);
            int rc = PDC_get_overlap_start_count(nd, o1.data(), s1.data(), o2.data(), s2.data(), go.data(), gs.data());
            if (rc < 0 || go != eo || gs != es) fail("region:get_overlap_start_count", fmt("%s: %s %s", ctx.c_str(), sv(go).c_str(), sv(gs).c_str()));
            yes("contained", detect_region_contained(o1.data(), s1.data(), o2.data(), s2.data(), nd), cont);
            yes("contained-swapped", detect_region_contained(o2.data(), s2.data(), o1.data(), s1.data(), nd), common.size() == vol(s2));
            free(oo);
            // copy of the overlap
            uint64_t unit = r.pick(std::vector<uint64_t>{1, 2, 3, 4, 8, 16});
            char *a = (char *)malloc(vol(s1) * unit), *b = (char *)malloc(vol(s2) * unit);
            auto put = [&](char *buf, const V &o, const V &s, uint64_t salt) { for (uint64_t i = 0; i < vol(s); i++) { uint64_t v = val(point(o, s, i), salt); for (uint64_t k = 0; k < unit; k++) buf[i * unit + k] = (char)(v >> (8 * (k % 8))) + (char)k; } };
            put(a, o1, s1, 11); put(b, o2, s2, 22);
            std::string ea(a, vol(s1) * unit), eb(b, vol(s2) * unit);
            for (auto &p : common) memcpy(&eb[lin(p, o2, s2) * unit], &ea[lin(p, o1, s1) * unit], unit);
            memcpy_overlap_subregion(nd, unit, a, o1.data(), s1.data(), b, o2.data(), s2.data(), eo.data(), es.data());
            if (std::string(b, eb.size()) != eb) fail("region:copy-overlap", fmt("unit %llu %s", (unsigned long long)unit, ctx.c_str()));
            if (std::string(a, ea.size()) != ea) fail("region:copy-overlap-source-changed", ctx);
            stat("region_copied_elements", common.size());
            free(a); free(b);
        }
        // sub-region pack and unpack
        {
            uint64_t unit = r.pick(std::vector<uint64_t>{1, 2, 4, 5, 8});
            V so(nd), ss(nd), zero(nd, 0);
            for (int d = 0; d < nd; d++) { so[d] = r.below(s1[d]); ss[d] = 1 + r.below(s1[d] - so[d]); }
            char *buf = (char *)malloc(vol(s1) * unit), *sub = (char *)malloc(vol(ss) * unit);
            for (uint64_t i = 0; i < vol(s1) * unit; i++) buf[i] = (char)r.next();
            for (uint64_t i = 0; i < vol(ss) * unit; i++) sub[i] = (char)r.next();
            std::string eb(buf, vol(s1) * unit), es2(sub, vol(ss) * unit);
            bool pack = r.chance(50);
            for (uint64_t i = 0; i < vol(ss); i++) {
                V p = point(so, ss, i);
                char *x = &eb[lin(p, zero, s1) * unit], *y = &es2[i * unit];
                if (pack) memcpy(y, x, unit); else memcpy(x, y, unit);
            }
            memcpy_subregion(nd, unit, pack ? 2 : 1, buf, s1.data(), sub, so.data(), ss.data());
            if (std::string(buf, eb.size()) != eb || std::string(sub, es2.size()) != es2) fail(pack ? "region:pack" : "region:unpack", fmt("unit %llu size %s sub %s %s", (unsigned long long)unit, sv(s1).c_str(), sv(so).c_str(), sv(ss).c_str()));
            stat(pack ? "region_pack" : "region_unpack");
            free(buf); free(sub);
        }
        if (t == 0) sample(ctx);
    }
}
int main(int c, char **v) { return run(c, v, one); }
