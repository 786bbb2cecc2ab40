// Adaptive radix tree against std::map<std::string, ...> (byte-wise order).
#include "mb.hpp"
extern "C" {
#include "art.h"
}
using namespace mb;
typedef std::map<std::string, void *> M;
static std::string hist;
struct It { std::vector<std::pair<std::string, void *>> v; size_t stop; };
static int cb(void *d, const unsigned char *k, uint32_t n, void *v) { It *i = (It *)d; i->v.push_back({std::string((const char *)k, n), v}); return i->v.size() >= i->stop ? 77 : 0; }
static bool g_term; // keys carry a terminator byte 0 (no key is a prefix of another), or are plain strings as the metadata index stores them
static std::string g_pre[3];
static std::string genkey(Rng &r, int style, const M &m) {
    std::string k;
    switch (style) {
    case 0: k = r.str(0, 6, "ab"); break;
    case 1: k = r.str(1, 3, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"); break;
    case 2: k = std::string((size_t)r.range(8, 30), 'x') + r.str(0, 4, "pq"); break;
    case 3: { k = r.str(0, 2, "q"); int n = (int)r.range(0, 3); for (int i = 0; i < n; i++) k += (char)r.range(1, 255); break; }
    case 4: k = "common/prefix/longer/than/ten/" + r.str(0, 3, "ab") + (r.chance(50) ? "/suffix/also/quite/long/" + r.str(0, 3, "xy") : ""); break;
    case 5: k = fmt("%llu", (unsigned long long)r.below(3000)); break;
    // wide nodes behind prefixes of every length, which now and then split or come together again
    default: { k = g_pre[r.chance(85) ? 0 : r.below(3)]; if (r.chance(6)) k.resize(r.below(k.size() + 1)); k += (char)r.range(1, 255); if (r.chance(30)) k += r.str(1, 12, "z"); if (r.chance(10)) k += (char)r.range(1, 255); break; }
    }
    if (!m.empty() && r.chance(15)) { auto it = m.lower_bound(k); if (it == m.end()) it = m.begin(); k = it->first.substr(0, it->first.size() - (g_term ? 1 : 0)); if (r.chance(50) && !k.empty()) k.resize(r.below(k.size() + 1)); else k += (char)r.range(1, 255); }
    if (g_term) k.push_back('\0');
    return k;
}
// the tree gets exactly-sized heap copies, so that a read past the key is visible
struct Heap { unsigned char *p; int n; Heap(const std::string &s) : p((unsigned char *)malloc(s.size() ? s.size() : 1)), n((int)s.size()) { memcpy(p, s.data(), s.size()); } ~Heap() { free(p); } };
static void check_iter(art_tree *t, const M &m, Rng &r) {
    It it; it.stop = (size_t)-1;
    int rc = art_iter(t, cb, &it);
    std::vector<std::pair<std::string, void *>> exp(m.begin(), m.end());
    if (rc != 0 || it.v != exp) fail("art-iter", hist + fmt(" rc=%d visited %zu of %zu", rc, it.v.size(), exp.size()));
    if (m.size() > 2) { It i2; i2.stop = 1 + r.below(m.size()); int rc2 = art_iter(t, cb, &i2); if (rc2 != 77 || i2.v.size() != i2.stop) fail("art-iter-stop", hist + fmt(" rc=%d after %zu, asked to stop at %zu", rc2, i2.v.size(), i2.stop)); }
    stat("art_iter");
}
static void check_prefix(art_tree *t, const M &m, const std::string &p) {
    Heap h(p);
    It it; it.stop = (size_t)-1;
    int rc = art_iter_prefix(t, h.p, h.n, cb, &it);
    std::vector<std::pair<std::string, void *>> exp;
    for (auto i = m.lower_bound(p); i != m.end() && i->first.compare(0, p.size(), p) == 0; ++i) exp.push_back(*i);
    if (rc != 0 || it.v != exp) fail("art-prefix", hist + fmt(" prefix '%s' rc=%d visited %zu of %zu", esc(p).c_str(), rc, it.v.size(), exp.size()));
    stat("art_prefix"); if (!exp.empty()) stat("art_prefix_nonempty");
    if (exp.size() > 1) { It i2; i2.stop = 1; int rc2 = art_iter_prefix(t, h.p, h.n, cb, &i2); if (i2.v.size() != 1 || rc2 != 77) fail("art-prefix-stop", hist); }
}
static void one(Rng &r) {
    art_tree t; art_tree_init(&t);
    M m; uintptr_t id = 1;
    int style = (int)r.below(9), nops = (int)r.range(5, r.chance(25) ? 3000 : 250), bias = (int)r.range(35, 80);
    g_term = r.chance(50);
    for (auto &p : g_pre) p = r.str(0, r.chance(50) ? 14 : 40, "kl");
    if (r.chance(50)) for (int i = 1; i < 3; i++) g_pre[i] = g_pre[0].substr(0, r.below(g_pre[0].size() + 1)) + g_pre[i];
    if (style > 6) bias = std::max(bias, 60);
    hist = fmt("art term=%d style=%d ops=%d bias=%d", g_term, style, nops, bias);
    int phase = 0;
    for (int i = 0; i < nops && nfail() < 5; i++) {
        if (i % 100 == 99 && r.chance(40)) { phase = !phase; }
        std::string k = genkey(r, style == 6 ? (int)r.below(8) : style, m);
        if (!m.empty() && r.chance(30)) { auto it = m.begin(); std::advance(it, (long)r.below(std::min<size_t>(m.size(), 200))); k = it->first; }
        Heap h(k);
        int op = (int)r.below(100), b = phase ? 100 - bias : bias;
        auto f = m.find(k);
        void *old = f == m.end() ? NULL : f->second;
        if (op < b * 80 / 100) {
            void *v = (void *)(id++ * 16);
            if (r.chance(15)) { void *g = art_insert_no_replace(&t, h.p, h.n, v); if (g != old) fail("art-insert-noreplace", hist + " " + esc(k)); if (!old) m[k] = v; stat("art_insert_nr"); }
            else { void *g = art_insert(&t, h.p, h.n, v); if (g != old) fail("art-insert", hist + fmt(" key '%s' returned %p expected %p", esc(k).c_str(), g, old)); m[k] = v; stat("art_insert"); }
        } else if (op < 80) {
            void *g = art_delete(&t, h.p, h.n);
            if (g != old) fail("art-delete", hist + " " + esc(k));
            if (old) { m.erase(k); stat("art_delete_hit"); }
            stat("art_delete");
        } else if (op < 94) {
            if (art_search(&t, h.p, h.n) != old) fail("art-search", hist + " " + esc(k));
            stat("art_search");
        } else if (op < 97) {
            std::string p = k.substr(0, r.below(k.size() + 1));
            if (r.chance(20)) p += (char)r.range(1, 255);
            check_prefix(&t, m, p);
        } else if (op < 98) check_iter(&t, m, r);
        else {
            art_leaf *a = art_minimum(&t), *z = art_maximum(&t);
            if (m.empty() ? (a || z) : (!a || !z)) fail("art-minmax-null", hist);
            else if (a && (std::string((char *)a->key, a->key_len) != m.begin()->first || a->value != m.begin()->second || std::string((char *)z->key, z->key_len) != m.rbegin()->first)) fail("art-minmax", hist);
            stat("art_minmax");
        }
        if (art_size(&t) != m.size()) { fail("art-size", hist + fmt(" op %d: %llu of %zu", i, (unsigned long long)art_size(&t), m.size())); break; }
    }
    if (nfail() < 5) {
        check_iter(&t, m, r);
        for (auto &e : m) { Heap h(e.first); if (art_search(&t, h.p, h.n) != e.second) { fail("art-search-final", hist + " " + esc(e.first)); break; } }
        for (int i = 0; i < 10; i++) { if (m.empty()) break; auto it = m.begin(); std::advance(it, (long)r.below(m.size())); std::string p = it->first.substr(0, r.below(it->first.size() + 1)); if (r.chance(30) && !p.empty()) p[r.below(p.size())] = (char)r.range(1, 255); check_prefix(&t, m, p); }
        if (r.chance(50)) { // delete everything
            std::vector<std::string> ks; for (auto &e : m) ks.push_back(e.first);
            for (size_t i = ks.size(); i > 1; i--) std::swap(ks[i - 1], ks[r.below(i)]);
            for (auto &k : ks) { Heap h(k); if (art_delete(&t, h.p, h.n) != m[k]) { fail("art-delete-all", hist + " " + esc(k)); break; } m.erase(k); if (art_size(&t) != m.size()) { fail("art-size", hist); break; } if (r.chance(5)) check_iter(&t, m, r); }
            if (m.empty() && t.root != NULL) fail("art-nonempty-root", hist);
        }
    }
    stat("art_keys_final", m.size());
    art_tree_destroy(&t);
    distincth("history", hist + fmt("%llx", (unsigned long long)r.s));
    sample(hist);
}
int main(int argc, char **argv) { return run(argc, argv, [](Rng &r, const std::string &) { one(r); }); }
