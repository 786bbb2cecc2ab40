// Bloom filters: no false negative for any element added and not removed, header bookkeeping, growth.
#include "mb.hpp"
#include <cmath>
extern "C" {
#include "pdc_dablooms.h"
#include "pdc_murmur.h"
}
using namespace mb;
static std::string elem(Rng &r) {
    if (r.chance(50)) return fmt("obj_%d_%d", (int)r.below(50), (int)r.below(100000));
    std::string s;
    int n = r.range(1, r.chance(80) ? 24 : 200);
    for (int i = 0; i < n; i++) s += (char)r.below(256);
    return s;
}
// How many of 2000 absent elements may be reported: half as many again as the error rate says, and those that share both
// halves of the double hash with a member (n / m^2 of them, which matters for small filters only), plus chance.
static double allowed(double er, double pairs) { double e = 2000 * (er * 1.5 + 4 * pairs); return e + 6 * sqrt(e) + 6; }
static double pairs(counting_bloom_t *b) { return b->header->count / ((double)b->counts_per_func * b->counts_per_func); }
// The counters: a vector of 4-bit numbers behind a header; a full counter refuses an increment and an empty one a
// decrement, neither changes anything, and a full one stays full (it may stand for more than it counts); growing the
// vector keeps what is there.
static void counters(Rng &r) {
    long off = r.chance(50) ? 0 : (long)r.range(1, 40);
    size_t n = r.range(1, 120), bytes = off + (n + 1) / 2;
    bitmap_t *b = new_bitmap(bytes);
    std::vector<unsigned> want(n);
    std::string head;
    for (long i = 0; i < off; i++) { b->array[i] = (char)r.below(256); head += b->array[i]; }
    auto all = [&](const char *when) {
        if (off && memcmp(b->array, head.data(), off)) { fail("bloom:counter-header", fmt("%s changed bytes before the counters", when)); return false; }
        for (size_t i = 0; i < want.size(); i++)
            if ((bitmap_check(b, i, off) != 0) != (want[i] != 0)) { fail("bloom:counter", fmt("after %s, counter %zu of %zu is %d, %u expected", when, i, want.size(), bitmap_check(b, i, off), want[i])); return false; }
        for (size_t i = 0; i < want.size(); i++) {
            unsigned v = ((unsigned char)b->array[off + i / 2] >> (i % 2 ? 0 : 4)) & 15;
            if (v != want[i]) { fail("bloom:counter-value", fmt("after %s, counter %zu of %zu holds %u, %u expected", when, i, want.size(), v, want[i])); return false; }
        }
        return true;
    };
    if (!all("creation")) { free(b->array), free_bitmap(b); return; }
    int steps = r.range(20, 400), hot = r.below(n);
    std::string h;
    for (int q = 0; q < steps; q++) {
        size_t i = r.chance(60) ? (hot + r.below(3)) % want.size() : r.below(want.size());
        bool up = r.chance(q < steps * 2 / 3 ? 75 : 25);
        int rc = up ? bitmap_increment(b, i, off) : bitmap_decrement(b, i, off);
        bool ok = up ? want[i] < 15 : want[i] > 0;
        if (ok && (up || want[i] < 15)) want[i] += up ? 1 : -1;
        stat(ok ? "counter_changes" : up ? "counter_full_refused" : "counter_empty_refused");
        if ((rc == 0) != ok) { fail("bloom:counter-result", fmt("%s counter %zu at %u returns %d", up ? "incrementing" : "decrementing", i, want[i], rc)); break; }
        if (!all(up ? "an increment" : "a decrement")) break;
        h += fmt("%c%zu", up ? '+' : '-', i);
        if (r.chance(2)) {
            size_t m = want.size() + r.range(1, 60), nb = off + (m + 1) / 2;
            if (bitmap_resize(b, nb) != b || b->bytes != nb) { fail("bloom:resize", "growing the counters failed"); break; }
            want.resize(m);
            stat("counter_growths");
            if (!all("growing")) break;
        }
    }
    distincth("history", h);
    free(b->array), free_bitmap(b);
}
// Elements added more often than a counter can count: nobody who is still in is denied, whatever is added and removed.
static void saturated(Rng &r) {
    unsigned cap = r.range(20, 400);
    counting_bloom_t *b = new_counting_bloom(cap, r.pick(std::vector<double>{0.3, 0.05, 0.001}));
    std::vector<std::pair<std::string, int>> el;
    uint32_t n_in = 0;
    auto check = [&](const std::string &what) {
        for (auto &x : el)
            if (x.second > 0 && !counting_bloom_check(b, x.first.data(), x.first.size())) { fail("bloom:saturated-denies", fmt("'%s', in %d times, is denied after %s", esc(x.first).c_str(), x.second, what.c_str())); return false; }
        if (b->header->count != n_in) { fail("bloom:count", fmt("header counts %u, %u are in", b->header->count, n_in)); return false; }
        stat("bloom_saturated_checks");
        return true;
    };
    for (int i = 0, n = r.range(1, 12); i < n; i++) {
        el.push_back({elem(r), 0});
        auto &e = el.back();
        for (int k = r.chance(50) ? r.range(14, 40) : 1; k > 0; k--) {
            counting_bloom_add(b, e.first.data(), e.first.size()), n_in++, e.second++;
            if (!check("'" + esc(e.first) + "' was added again")) goto out;
        }
    }
    for (int i = r.chance(70) ? r.range(1, n_in) : 0; i > 0; i--) {
        auto &e = el[r.below(el.size())];
        for (int k = r.chance(50) ? r.range(1, 20) : 1; k > 0 && e.second > 0; k--) {
            counting_bloom_remove(b, e.first.data(), e.first.size()), n_in--, e.second--;
            stat("bloom_saturated_removals");
            if (!check("'" + esc(e.first) + "' was removed")) goto out;
        }
    }
out:
    stat("bloom_saturated");
    free(b->bitmap->array);
    free_counting_bloom(b);
}
static void counting(Rng &r) {
    unsigned cap = r.chance(30) ? r.range(1, 20) : r.range(20, 3000);
    double er = r.pick(std::vector<double>{0.5, 0.3, 0.1, 0.05, 0.01, 0.001, 0.0001});
    counting_bloom_t *b = new_counting_bloom(cap, er);
    if (b->header->count != 0) fail("bloom:fresh-count", fmt("a new filter counts %u elements", b->header->count));
    std::map<std::string, int> live;
    uint32_t count = 0;
    int fp = 0, probes = 0;
    std::string h = fmt("c%u/%g;", cap, er);
    for (int q = 0; q < 30; q++) {
        std::string e = elem(r);
        if (counting_bloom_check(b, e.data(), e.size())) fail("bloom:fresh-contains", "an empty filter reports an element");
    }
    int steps = r.range(1, (int)cap * 2);
    uint32_t adds = 0;
    for (int i = 0; i < steps; i++) {
        if ((live.empty() || r.chance(65)) && count < cap) {
            std::string e = elem(r);
            if (r.chance(10) && !live.empty()) { auto it = live.lower_bound(e); if (it == live.end()) it = live.begin(); e = it->first; }
            if (live[e] >= 3) continue;
            counting_bloom_add(b, e.data(), e.size());
            live[e]++, count++, adds++;
            h += "+" + e.substr(0, 4);
            stat("bloom_add");
        } else if (!live.empty()) {
            auto it = live.lower_bound(elem(r));
            if (it == live.end()) it = live.begin();
            counting_bloom_remove(b, it->first.data(), it->first.size());
            if (--it->second == 0) live.erase(it);
            count--;
            h += "-";
            stat("bloom_remove");
        }
        if (b->header->count != count) { fail("bloom:count", fmt("header counts %u, %u were added", b->header->count, count)); break; }
        if (r.chance(5) || i == steps - 1)
            for (auto &x : live) {
                stat("bloom_check_member");
                if (!counting_bloom_check(b, x.first.data(), x.first.size())) { fail("bloom:false-negative", fmt("capacity %u error %g after %d steps: '%s' (added %d times) is denied", cap, er, i, esc(x.first).c_str(), x.second)); i = steps; break; }
            }
    }
    for (int q = 0; q < 2000; q++) { std::string e = elem(r) + fmt("#%d", q); probes++; fp += counting_bloom_check(b, e.data(), e.size()) != 0; }
    stat("bloom_fp", fp), stat("bloom_fp_probes", probes);
    if (cap >= 100 && fp > allowed(er, pairs(b))) fail("bloom:false-positive-rate", fmt("capacity %u, error %g, %u live: %d of 2000 absent elements reported", cap, er, count, fp));
    distincth("history", h);
    bitmap_t *bm = b->bitmap;
    free(bm->array);
    free_counting_bloom(b);
}
static void scaling(Rng &r) {
    unsigned cap = r.range(2, r.chance(50) ? 30 : 400);
    double er = r.pick(std::vector<double>{0.3, 0.1, 0.05, 0.01, 0.001});
    scaling_bloom_t *b = new_scaling_bloom(cap, er);
    struct E { std::string s; uint64_t id; };
    std::vector<E> live;
    uint64_t next = 0, maxid = 0;
    std::string h = fmt("s%u/%g;", cap, er);
    bool many = r.chance(15); // many filters, so that their error rates add up
    int steps = many ? (int)cap * 14 : r.range(1, (int)cap * 6);
    unsigned adds = 0;
    bool old = r.chance(40); // now and then an element with an identifier that was given before
    for (int i = 0; i < steps; i++) {
        if (live.empty() || r.chance(many ? 97 : 75)) {
            E e{elem(r), next};
            if (old && next && r.chance(10)) e.id = r.below(next), stat("sbloom_add_old_id");
            else next += r.chance(80) ? 1 : r.range(1, 9);
            scaling_bloom_add(b, e.s.data(), e.s.size(), e.id);
            maxid = std::max(maxid, e.id);
            live.push_back(e);
            adds++;
            h += "+" + e.s.substr(0, 3);
            stat("sbloom_add");
        } else {
            size_t k = r.below(live.size());
            int rc = scaling_bloom_remove(b, live[k].s.data(), live[k].s.size(), live[k].id);
            if (rc != 1) fail("bloom:scaling-remove", fmt("removing a present element returns %d", rc));
            live.erase(live.begin() + k);
            h += "-";
            stat("sbloom_remove");
        }
        if (b->header->max_id != maxid) { fail("bloom:max-id", fmt("max id %llu, largest added %llu", (unsigned long long)b->header->max_id, (unsigned long long)maxid)); break; }
        uint64_t tot = 0;
        for (unsigned j = 0; j < b->num_blooms; j++) tot += b->blooms[j]->header->count;
        if (tot != live.size()) { fail("bloom:scaling-count", fmt("%u filters count %llu elements, %zu are present", b->num_blooms, (unsigned long long)tot, live.size())); break; }
        if (r.chance(4) || i == steps - 1) {
            bool bad = false;
            for (auto &x : live) {
                stat("sbloom_check_member");
                if (!scaling_bloom_check(b, x.s.data(), x.s.size())) { fail("bloom:scaling-false-negative", fmt("capacity %u, %u filters: '%s' id %llu is denied", cap, b->num_blooms, esc(x.s).c_str(), (unsigned long long)x.id)); bad = true; break; }
            }
            if (bad) break;
        }
    }
    if (!old) {
        for (unsigned j = 0; j < b->num_blooms; j++)
            if (b->blooms[j]->header->count > cap) fail("bloom:over-capacity", fmt("filter %u of %u holds %u elements, its capacity is %u", j, b->num_blooms, b->blooms[j]->header->count, cap));
        int fp = 0;
        double pr = 0;
        for (unsigned j = 0; j < b->num_blooms; j++) pr += pairs(b->blooms[j]);
        for (int q = 0; q < 2000; q++) { std::string e = elem(r) + fmt("#%d", q); fp += scaling_bloom_check(b, e.data(), e.size()) != 0; }
        stat("sbloom_fp", fp), stat("sbloom_fp_probes", 2000);
        if (cap >= 50 && fp > allowed(er, pr)) fail("bloom:scaling-false-positive-rate", fmt("capacity %u, error %g, %u filters, %zu live: %d of 2000 absent elements reported", cap, er, b->num_blooms, live.size(), fp));
    }
    if (adds > 3 * cap && cap > 2 && b->num_blooms < 2) fail("bloom:never-grows", fmt("capacity %u, %u additions, %u filters", cap, adds, b->num_blooms));
    stat("sbloom_filters", b->num_blooms);
    distincth("history", h);
    sample(fmt("scaling filter capacity %u error %g: %d steps, %u filters, %zu live elements", cap, er, steps, b->num_blooms, live.size()));
    free(b->bitmap->array);
    free_scaling_bloom(b);
}
static void one(Rng &r, const std::string &m) { switch (r.below(8)) { case 0: counters(r); break; case 1: saturated(r); break; case 2: case 3: case 4: counting(r); break; default: scaling(r); } }
int main(int c, char **v) { return run(c, v, one); }
