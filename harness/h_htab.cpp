// Open-addressing profiling hash table (pdc_hashtab) against std::map.
#include "mb.hpp"
#include "oom.hpp"
extern "C" {
struct htab;
typedef struct htab *htab_t;
typedef unsigned int hashval_t;
typedef hashval_t (*htab_hash)(const void *);
typedef int (*htab_eq)(const void *, const void *);
typedef void (*htab_del)(void *);
typedef int (*htab_trav)(void **, void *);
htab_t htab_try_create(size_t, htab_hash, htab_eq, htab_del);
htab_t htab_create(size_t, htab_hash, htab_eq, htab_del);
htab_t htab_create_alloc(size_t, htab_hash, htab_eq, htab_del, void *(*)(size_t, size_t), void (*)(void *));
void *htab_find_with_hash(htab_t, const void *, hashval_t);
void **htab_find_slot_with_hash(htab_t, const void *, hashval_t, int insert);
double htab_collisions(htab_t);
extern htab_hash htab_hash_pointer;
extern htab_eq htab_eq_pointer;
void htab_delete(htab_t); void htab_empty(htab_t);
void *htab_find(htab_t, const void *);
void **htab_find_slot(htab_t, const void *, int insert);
void htab_clear_slot(htab_t, void **);
void htab_remove_elt(htab_t, void *);
void htab_traverse(htab_t, htab_trav, void *);
size_t htab_size(htab_t); size_t htab_elements(htab_t);
hashval_t htab_hash_string(const void *);
}
using namespace mb;
static int g_mod; static long dels; static std::set<void *> live;
static hashval_t hf(const void *p) { hashval_t h = htab_hash_string(p); return g_mod ? h % g_mod : h; }
static int ef(const void *a, const void *b) { return !strcmp((const char *)a, (const char *)b); }
static void df(void *p) { dels++; if (!live.erase(p)) fail("htab-bad-del", ""); else free(p); }
// the table's own allocator: every block it takes is given back through its release function
static std::set<void *> blocks; static long afail = -1; static bool ahit;
static void *al(size_t n, size_t m) { if (afail >= 0 && afail-- == 0) { ahit = true; return NULL; } void *p = calloc(n, m); blocks.insert(p); return p; }
static void fr(void *p) { if (p && !blocks.erase(p)) fail("htab-bad-free", ""); free(p); }
static int stopat;
static int trav_stop(void **slot, void *info) { auto v = (std::vector<std::string> *)info; v->push_back((char *)*slot); return (int)v->size() < stopat; }
static void pointer_case(Rng &r) { // identity as the key
    htab_t t = htab_create(r.below(20) + 1, htab_hash_pointer, htab_eq_pointer, NULL);
    static char arena[1 << 16];
    std::set<void *> m;
    int n = (int)r.range(1, 300);
    if (htab_collisions(t) != 0) fail("htab-collisions", "a fraction before any search");
    for (int i = 0; i < n; i++) {
        void *p = arena + 16 + r.below(r.chance(50) ? 200 : sizeof arena - 16);
        if (r.chance(60)) { void **s = htab_find_slot(t, p, 1); if (!s || (m.count(p) ? *s != p : *s != NULL)) { fail("htab-pointer-slot", fmt("entry %d", i)); break; } *s = p; m.insert(p); }
        else if (r.chance(50)) { htab_remove_elt(t, p); m.erase(p); }
        else if (htab_find(t, p) != (m.count(p) ? p : NULL)) fail("htab-pointer-find", fmt("entry %d", i));
        if (htab_elements(t) != m.size()) { fail("htab-elements", fmt("%zu of %zu pointers", htab_elements(t), m.size())); break; }
    }
    if (!(htab_collisions(t) >= 0)) fail("htab-collisions", fmt("%g", htab_collisions(t)));
    htab_delete(t);
    stat("htab_pointer_cases");
}
static int trav(void **slot, void *info) { ((std::vector<std::string> *)info)->push_back((char *)*slot); return 1; }
int main(int argc, char **argv) {
    return run(argc, argv, [](Rng &r, const std::string &) {
        if (r.chance(10)) { pointer_case(r); return; }
        static const int mods[] = {0, 0, 1, 4, 64};
        g_mod = mods[r.below(5)];
        bool own = r.chance(60);
        live.clear();
        bool mine_al = r.chance(50);
        blocks.clear(); afail = -1;
        if (r.chance(10)) { // no memory for the table
            afail = (long)r.below(3); ahit = false;
            htab_t u = htab_create_alloc(r.below(40) + 1, hf, ef, NULL, al, fr);
            if (ahit ? u != NULL : u == NULL) fail("htab-create-oom", "");
            if (u) htab_delete(u);
            afail = -1;
            if (!blocks.empty()) fail("htab-create-leak", fmt("%zu blocks", blocks.size()));
            stat("htab_create_oom");
        }
        htab_t t = mine_al ? htab_create_alloc(r.below(40) + 1, hf, ef, own ? df : NULL, al, fr) : htab_try_create(r.below(40) + 1, hf, ef, own ? df : NULL);
        std::map<std::string, void *> m; std::vector<void *> mine;
        int nk = (int)r.range(1, r.chance(30) ? 600 : 40), nops = (int)r.range(5, r.chance(30) ? 2000 : 200);
        std::string hist = fmt("htab mod=%d own=%d keys=%d:", g_mod, own, nk);
        for (int i = 0; i < nops && nfail() < 6; i++) {
            std::string k = fmt("%llx", (unsigned long long)r.below(nk) * 2654435761ull);
            int op = (int)r.below(100);
            if (op < 45) {
                if (mine_al && r.chance(4)) { afail = 0; }
                ahit = false;
                void **s = r.chance(50) ? htab_find_slot(t, k.c_str(), 1) : htab_find_slot_with_hash(t, k.c_str(), hf(k.c_str()), 1);
                afail = -1;
                if (ahit) { // the table could not grow: nothing happens
                    if (s) { fail("htab-insert-oom", hist + " a slot although the table could not grow"); break; }
                    stat("htab_insert_oom"); hist += "o";
                    if (htab_elements(t) != m.size()) { fail("htab-elements", hist); break; }
                    continue;
                }
                if (!s) { fail("htab-slot-null", hist); break; }
                bool had = m.count(k);
                if (had ? *s != m[k] : *s != NULL) { fail("htab-insert-slot", hist + " " + k); break; }
                if (!had) { char *p = strdup(k.c_str()); *s = p; m[k] = p; if (own) live.insert(p); else mine.push_back(p); }
                hist += "i"; stat("htab_insert");
            } else if (op < 70) {
                void *p = r.chance(50) ? htab_find(t, k.c_str()) : htab_find_with_hash(t, k.c_str(), hf(k.c_str()));
                if (m.count(k) ? p != m[k] : p != NULL) fail("htab-find", hist + " " + k);
                hist += "f"; stat("htab_find");
            } else if (op < 84) {
                htab_remove_elt(t, (void *)k.c_str());   // absent keys: documented to do nothing
                m.erase(k);
                hist += "r"; stat("htab_remove");
            } else if (op < 92) {
                void **s = htab_find_slot(t, k.c_str(), 0);
                if ((s != NULL) != (m.count(k) != 0)) fail("htab-find-slot", hist + " " + k);
                else if (s) { htab_clear_slot(t, s); m.erase(k); }
                hist += "c"; stat("htab_clear_slot");
            } else if (op < 97) {
                std::vector<std::string> v; htab_traverse(t, trav, &v);
                std::set<std::string> got(v.begin(), v.end()), exp;
                for (auto &e : m) exp.insert(e.first);
                if (got != exp || v.size() != exp.size()) fail("htab-traverse", hist + fmt(" %zu of %zu", v.size(), exp.size()));
                if (!exp.empty()) { // a callback that has seen enough ends the walk
                    std::vector<std::string> w; stopat = (int)r.range(1, (int)exp.size());
                    htab_traverse(t, trav_stop, &w);
                    if ((int)w.size() != stopat) fail("htab-traverse-stop", hist + fmt(" %zu instead of %d", w.size(), stopat));
                }
                hist += "t"; stat("htab_traverse");
            } else if (r.chance(20)) { htab_empty(t); m.clear(); hist += "E"; stat("htab_empty"); }
            if (htab_elements(t) != m.size()) { fail("htab-elements", hist + fmt(" reports %zu of %zu", htab_elements(t), m.size())); break; }
            if (htab_size(t) < m.size()) fail("htab-size", hist);
            if (own && live.size() != m.size()) { fail("htab-ownership", hist); break; }
        }
        if (!(htab_collisions(t) >= 0)) fail("htab-collisions", hist);
        htab_delete(t);
        if (!blocks.empty() && nfail() < 6) fail("htab-block-leak", hist + fmt(" %zu blocks", blocks.size()));
        if (own && !live.empty() && !nfail()) fail("htab-delete-leak", hist);
        for (auto p : mine) free(p);
        distincth("history", hist);
        sample(hist.substr(0, 120));
    });
}
