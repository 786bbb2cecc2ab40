// Hash tables, hash sets, comparators: model-based checking against std::map / std::set.
#include "mb.hpp"
#include "oom.hpp"
extern "C" {
#ifdef HT_SERVER
#include "pdc_hash-table.h"
#else
#include "pdc_hash_table.h"
#endif
#include "pdc_set.h"
#include "pdc_hash.h"
#include "pdc_compare.h"
}
using namespace mb;
struct Obj { int id; bool freed; std::string s; };
// keys and values handed to the table are heap objects so that a wrong release is visible to the address sanitizer
struct K { char *p; };
static std::map<void *, int> live; // pointer -> id of objects whose ownership is with the table
static long freed_total, bad_free;
static void own_free(void *p) { auto it = live.find(p); if (it == live.end()) { bad_free++; return; } live.erase(it); freed_total++; free(p); }
static int g_mod;   // hash degradation: forces collisions
static unsigned weak_str_hash(void *k) { unsigned h = string_hash(k); return g_mod ? h % g_mod : h; }
static unsigned weak_u64_hash(void *k) { unsigned h = ui64_hash(k); return g_mod ? h % g_mod : h; }
static unsigned weak_int_hash(void *k) { unsigned h = int_hash(k); return g_mod ? h % g_mod : h; }
static void *mk(const std::string &s, int kind) {
    if (kind == 0) { char *p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
    uint64_t h = fnv(s);
    if (kind == 1) { uint64_t *p = (uint64_t *)malloc(8); *p = h; return p; }
    int *p = (int *)malloc(4); *p = (int)h; return p;
}
static std::string canon(const std::string &s, int kind) { if (kind == 0) return s; uint64_t h = fnv(s); return kind == 1 ? fmt("%llu", (unsigned long long)h) : fmt("%d", (int)h); }
static std::string keyof(void *p, int kind) { return kind == 0 ? std::string((char *)p) : kind == 1 ? fmt("%llu", (unsigned long long)*(uint64_t *)p) : fmt("%d", *(int *)p); }

static std::string hist; // canonical history of the case
static void table_case(Rng &r) {
    int kind = (int)r.below(3);
    bool own = r.chance(60);
    static const int mods[] = {0, 0, 1, 3, 17};
    g_mod = mods[r.below(5)];
    HashTable *t = hash_table_new(kind == 0 ? weak_str_hash : kind == 1 ? weak_u64_hash : weak_int_hash, kind == 0 ? string_equal : kind == 1 ? ui64_equal : int_equal);
    if (!t) { fail("ht-new", "hash_table_new returned NULL"); return; }
    if (r.chance(3)) {
        oom::arm((long)r.below(3));
        HashTable *u = hash_table_new(string_hash, string_equal);
        if (oom::disarm() ? u != NULL : u == NULL) fail("ht-new-oom", "a table without memory");
        if (u) hash_table_free(u);
        stat("ht_new_oom");
    }
    live.clear(); bad_free = 0; freed_total = 0;
    if (own) hash_table_register_free_functions(t, own_free, own_free);
    std::map<std::string, std::pair<void *, int>> model; // key -> (value pointer, value id)
    std::vector<void *> mine;                            // not owned: released at the end
    int nkeys = 1 + (int)r.below(r.chance(30) ? 1200 : 60), nops = (int)r.range(10, r.chance(30) ? 3000 : 300), vid = 0;
    hist = fmt("table kind=%d own=%d mod=%d keys=%d ops=%d:", kind, own, g_mod, nkeys, nops);
    int inscap = r.chance(50) ? 80 : 55;
    for (int i = 0; i < nops; i++) {
        std::string ks = fmt("k%llu", (unsigned long long)r.below(nkeys)), c = canon(ks, kind);
        int op = (int)r.below(100);
        if (op < inscap - 20) {
            void *k = mk(ks, kind), *v = malloc(8);
            *(int *)v = ++vid;
            if (own) { live[k] = 1; live[v] = 1; } else { mine.push_back(k); mine.push_back(v); }
            if (r.chance(4)) oom::arm((long)r.below(2)); // memory runs out in the middle
            int added = hash_table_insert(t, k, v);
            if (oom::disarm()) {
                if (added) fail("ht-insert-oom", hist + " reported as added though memory ran out");
                if (own) { if (!live.erase(k) || !live.erase(v)) fail("ht-ownership", hist + " a pair that was not added was released"); }
                if (own) { free(k); free(v); }
                stat("ht_insert_oom"); hist += "o";
            } else {
                if (!added) fail("ht-insert-result", hist);
                model[c] = {v, vid};
                stat("ht_insert");
                hist += "i";
            }
        } else if (op < inscap) {
            void *k = mk(ks, kind);
            void *v = hash_table_lookup(t, k);
            auto it = model.find(c);
            if (it == model.end() ? v != HASH_TABLE_NULL : v != it->second.first) fail("ht-lookup", hist + " lookup " + c);
            else if (v && *(int *)v != it->second.second) fail("ht-lookup-content", hist);
            free(k);
            stat("ht_lookup"); hist += "l";
        } else if (op < 97) {
            void *k = mk(ks, kind);
            int got = hash_table_remove(t, k);
            bool was = model.erase(c);
            if ((got != 0) != was) fail("ht-remove-result", hist + fmt(" removed=%d present=%d", got, was));
            free(k);
            stat("ht_remove"); hist += "r";
        } else {
            HashTableIterator it;
            std::map<std::string, int> seen;
            hash_table_iterate(t, &it);
            size_t n = 0;
            while (hash_table_iter_has_more(&it) && n <= model.size() + 5) {
#ifdef HT_SERVER
                HashTablePair pr = hash_table_iter_next(&it);
                std::string kk = keyof(pr.key, kind); void *v = pr.value;
#else
                HashTablePair pr = hash_table_iter_next(&it);
                std::string kk = keyof(pr.key, kind); void *v = pr.value;
#endif
                n++; seen[kk]++;
                auto f = model.find(kk);
                if (f == model.end() || f->second.first != v) fail("ht-iterate-pair", hist + " key " + kk);
            }
            if (n != model.size() || seen.size() != model.size()) fail("ht-iterate-count", hist + fmt(" visited %zu distinct %zu of %zu", n, seen.size(), model.size()));
            stat("ht_iterate"); hist += "t";
        }
        if (hash_table_num_entries(t) != model.size()) { fail("ht-count", hist + fmt(" reports %u of %zu", hash_table_num_entries(t), model.size())); break; }
        if (own && live.size() != 2 * model.size()) { fail("ht-ownership", hist + fmt(" %zu owned objects live, expected %zu", live.size(), 2 * model.size())); break; }
        if (nfail() > 5) break;
    }
    stat("ht_entries_final", model.size());
    hash_table_free(t);
    if (own && !live.empty()) fail("ht-free-leak", hist);
    if (bad_free) fail("ht-bad-free", hist);
    for (auto p : mine) free(p);
    distincth("history", hist);
    sample(hist.substr(0, 160));
}
static void set_case(Rng &r) {
    int kind = (int)r.below(3);
    static const int mods[] = {0, 0, 1, 5};
    g_mod = mods[r.below(4)];
    bool own = r.chance(50);
    live.clear(); bad_free = 0;
    auto hf = kind == 0 ? weak_str_hash : kind == 1 ? weak_u64_hash : weak_int_hash;
    auto ef = kind == 0 ? string_equal : kind == 1 ? ui64_equal : int_equal;
    Set *s[2];
    std::map<std::string, void *> m[2];
    std::vector<void *> mine;
    for (int i = 0; i < 2; i++) { s[i] = set_new(hf, ef); if (own) set_register_free_function(s[i], own_free); }
    bool big = r.chance(30);
    int nkeys = big ? (int)r.range(150, 1500) : 1 + (int)r.below(40), nops = big ? (int)r.range(300, 3000) : (int)r.range(5, 150);
    int grow = (int)r.below(nops);    // mostly insertions up to here
    hist = fmt("set kind=%d own=%d mod=%d keys=%d:", kind, own, g_mod, nkeys);
    for (int i = 0; i < nops; i++) {
        int w = (int)r.below(2);
        std::string ks = fmt("k%llu", (unsigned long long)r.below(nkeys)), c = canon(ks, kind);
        int op = i < grow && r.chance(60) ? 0 : (int)r.below(100);
        if (op < 50) {
            void *k = mk(ks, kind);
            bool had = m[w].count(c);
            if (r.chance(4)) oom::arm((long)r.below(2));
            int got = set_insert(s[w], k);
            bool refused = oom::disarm();
            if (refused) { if (got) fail("set-insert-oom", hist + " reported as added though memory ran out"); stat("set_insert_oom"); hist += "o"; }
            else if ((got != 0) == had) fail("set-insert-result", hist + fmt(" got %d had %d", got, had));
            if (!had && !refused) { m[w][c] = k; if (own) live[k] = 1; else mine.push_back(k); } else free(k);
            hist += "i"; stat("set_insert");
        } else if (op < 75) {
            void *k = mk(ks, kind);
            int got = set_remove(s[w], k);
            bool had = m[w].erase(c);
            if ((got != 0) != had) fail("set-remove-result", hist);
            free(k);
            hist += "r"; stat("set_remove");
        } else if (op < 92) {
            void *k = mk(ks, kind);
            if ((set_query(s[w], k) != 0) != (m[w].count(c) != 0)) fail("set-query", hist + " " + c);
            free(k);
            hist += "q"; stat("set_query");
        } else if (op < 95) {
            SetIterator it; set_iterate(s[w], &it);
            std::set<void *> seen; size_t n = 0;
            while (set_iter_has_more(&it) && n <= m[w].size() + 4) { seen.insert(set_iter_next(&it)); n++; }
            std::set<void *> exp; for (auto &e : m[w]) exp.insert(e.second);
            if (seen != exp || n != exp.size()) fail("set-iterate", hist + fmt(" visited %zu of %zu", n, exp.size()));
            if (!m[w].empty()) {
                if (r.chance(5)) { oom::arm(0); void **a0 = set_to_array(s[w]); if (oom::disarm() ? a0 != NULL : a0 == NULL) fail("set-to-array-oom", hist); free(a0); }
                void **a = set_to_array(s[w]);
                std::set<void *> av(a, a + m[w].size());
                if (av != exp) fail("set-to-array", hist);
                free(a);
            }
            hist += "t"; stat("set_iterate");
        } else if (op < 98 && nkeys < 200) {
            bool uni = r.chance(50);
            Set *x = uni ? set_union(s[0], s[1]) : set_intersection(s[0], s[1]);
            std::set<std::string> exp;
            for (auto &e : m[0]) if (uni || m[1].count(e.first)) exp.insert(e.first);
            if (uni) for (auto &e : m[1]) exp.insert(e.first);
            if (r.chance(10)) { // memory runs out in the middle: no set at all, not a part of it
                oom::arm((long)r.below(exp.size() + 3));
                Set *y = uni ? set_union(s[0], s[1]) : set_intersection(s[0], s[1]);
                if (oom::disarm() ? y != NULL : y == NULL) fail("set-op-oom", hist);
                if (y) set_free(y);
                stat("set_binop_oom");
            }
            if (!x) fail("set-op-null", hist);
            else {
                std::set<std::string> got; size_t n = 0;
                SetIterator it; set_iterate(x, &it);
                while (set_iter_has_more(&it) && n < 5000) { got.insert(keyof(set_iter_next(&it), kind)); n++; }
                if (got != exp || n != exp.size() || set_num_entries(x) != exp.size()) fail(uni ? "set-union" : "set-intersection", hist + fmt(" %zu of %zu", n, exp.size()));
                set_free(x);
            }
            hist += uni ? "U" : "I"; stat("set_binop");
        }
        for (int j = 0; j < 2; j++) if (set_num_entries(s[j]) != m[j].size()) fail("set-count", hist);
        if (own && live.size() != m[0].size() + m[1].size()) { fail("set-ownership", hist); break; }
        if (nfail() > 5) break;
    }
    set_free(s[0]); set_free(s[1]);
    if (own && !live.empty()) fail("set-free-leak", hist);
    if (bad_free) fail("set-bad-free", hist);
    for (auto p : mine) free(p);
    distincth("history", hist);
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static void cmp_case(Rng &r) {
    static const char *alpha = "abAB zZ09_~\xc3\xa9\xff\x80";
    for (int i = 0; i < 200; i++) {
        int a = r.chance(20) ? (int)r.next() : (int)r.range(-3, 3), b = r.chance(20) ? (int)r.next() : (int)r.range(-3, 3);
        uint64_t c = r.chance(30) ? r.next() : r.below(5), d = r.chance(30) ? r.next() : r.chance(30) ? c + (1ull << 32) : r.below(5);
        if ((int_equal(&a, &b) != 0) != (a == b) || sgn(int_compare(&a, &b)) != (a > b) - (a < b)) fail("cmp-int", fmt("%d %d", a, b));
        if ((ui64_equal(&c, &d) != 0) != (c == d) || sgn(ui64_compare(&c, &d)) != (c > d) - (c < d)) fail("cmp-u64", fmt("%llu %llu", (unsigned long long)c, (unsigned long long)d));
        int a2 = a; uint64_t c2 = c;
        if (int_hash(&a) != int_hash(&a2) || ui64_hash(&c) != ui64_hash(&c2)) fail("hash-not-function", "");
        char arr[4]; void *p = arr + r.below(4), *q = arr + r.below(4);
        if ((pointer_equal(p, q) != 0) != (p == q) || sgn(pointer_compare(p, q)) != (p > q) - (p < q)) fail("cmp-pointer", "");
        if (p == q && pointer_hash(p) != pointer_hash(q)) fail("hash-pointer", "");
        std::string s = r.str(0, 6, alpha), t = r.chance(40) ? s : r.str(0, 6, alpha);
        if (r.chance(30)) for (auto &ch : t) if (isalpha((unsigned char)ch) && r.chance(50)) ch ^= 32;
        int e = strcmp(s.c_str(), t.c_str());
        if (sgn(string_compare((void *)s.c_str(), (void *)t.c_str())) != sgn(e) || (string_equal((void *)s.c_str(), (void *)t.c_str()) != 0) != (e == 0)) fail("cmp-string", esc(s) + " " + esc(t));
        std::string ls = s, lt = t;
        bool ascii = true;
        for (auto &ch : ls) { if ((unsigned char)ch >= 128) ascii = false; else ch = (char)tolower(ch); }
        for (auto &ch : lt) { if ((unsigned char)ch >= 128) ascii = false; else ch = (char)tolower(ch); }
        if (ascii) {
            int ne = strcmp(ls.c_str(), lt.c_str());
            if (sgn(string_nocase_compare((void *)s.c_str(), (void *)t.c_str())) != sgn(ne) || (string_nocase_equal((void *)s.c_str(), (void *)t.c_str()) != 0) != (ne == 0)) fail("cmp-nocase", esc(s) + " " + esc(t));
            if (ne == 0 && string_nocase_hash((void *)s.c_str()) != string_nocase_hash((void *)t.c_str())) fail("hash-nocase", esc(s) + " " + esc(t));
        }
        if (e == 0 && string_hash((void *)s.c_str()) != string_hash((void *)t.c_str())) fail("hash-string", esc(s));
        stat("cmp_evals", 4);
        distincth("cmp", s + "|" + t);
    }
}
int main(int argc, char **argv) {
    return run(argc, argv, [](Rng &r, const std::string &) {
        int w = (int)r.below(10);
        if (w < 5) table_case(r);
#ifndef HT_SERVER
        else if (w < 9) set_case(r);
        else cmp_case(r);
#else
        else table_case(r);
#endif
    });
}
