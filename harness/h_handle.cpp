// The client's table of handles against a model: what every handle refers to, how often it is held, what is released when.
#include "mb.hpp"
extern "C" {
void w_begin(void); void w_end(void);
int w_type(int t, int (*f)(void *)); int w_untype(int t);
unsigned long long w_register(int t, void *p);
int w_find(unsigned long long id, void **p, int *refs, unsigned long long *own);
int w_inc(unsigned long long id); int w_dec(unsigned long long id);
int w_count(int t); int w_clear(int t);
unsigned long long w_byname(int t, const char *n);
int w_typeof(unsigned long long id);
void *w_cont(const char *name); void w_cont_free(void *p);
int w_ntypes(void);
}
using namespace mb;
typedef unsigned long long id_t64;
struct H { int type; void *p; int refs; std::string name; };
static std::map<void *, int> g_owner; // live payloads: type
static std::vector<void *> g_freed;
static bool g_refuse;
template <int T> static int release(void *p) {
    if (g_refuse) return -1;
    auto it = g_owner.find(p);
    if (it == g_owner.end()) { fail("handle:released-twice", "an object is released that is not there"); return 0; }
    if (it->second != T) fail("handle:wrong-release", fmt("an object of type %d is released as one of type %d", it->second, T));
    g_owner.erase(it);
    g_freed.push_back(p);
    w_cont_free(p);
    return 0;
}
static int (*const REL[8])(void *) = {nullptr, release<1>, release<2>, release<3>, release<4>, release<5>, release<6>, release<7>};
static void one(Rng &r, const std::string &) {
    w_begin();
    g_owner.clear(), g_freed.clear(), g_refuse = false;
    std::map<id_t64, H> live;
    std::set<id_t64> ever;
    bool typed[8] = {}, freeing[8] = {};
    std::vector<void *> mine; // objects of types without a release function
    std::string hist;
    auto objs = [&](int t) { int n = 0; for (auto &x : live) n += x.second.type == t; return n; };
    auto gone = [&](id_t64 id) { // what must have happened when a handle ends
        H h = live[id];
        bool rel = std::find(g_freed.begin(), g_freed.end(), h.p) != g_freed.end();
        if (freeing[h.type] != rel) fail("handle:release", fmt("the object of a closed handle of type %d is %sreleased", h.type, rel ? "" : "not "));
        if (!freeing[h.type]) mine.push_back(h.p);
        live.erase(id);
    };
    auto verify = [&](id_t64 id) {
        void *p = nullptr; int refs = -1; id_t64 own = 0;
        int f = w_find(id, &p, &refs, &own);
        auto it = live.find(id);
        if (it == live.end()) { if (f) fail("handle:finds-closed", fmt("handle %llx is closed or was never given, and is found; after %s", id, hist.c_str())); stat("handle_absent_lookups"); return; }
        stat("handle_lookups");
        if (!f) fail("handle:lost", fmt("handle %llx is open and is not found; after %s", id, hist.c_str()));
        else if (p != it->second.p || own != id) fail("handle:other-object", fmt("handle %llx leads to another object; after %s", id, hist.c_str()));
        else if (refs != it->second.refs) fail("handle:references", fmt("handle %llx is held %d times, not %d; after %s", id, refs, it->second.refs, hist.c_str()));
    };
    int steps = r.range(5, 250);
    for (int i = 0; i < steps && nfail() < 6; i++) {
        int t = r.range(1, w_ntypes() - 1), op = r.below(100);
        if (r.chance(60)) t = r.range(4, 5);
        id_t64 id = live.empty() ? 0 : std::next(live.begin(), r.below(live.size()))->first;
        if (!typed[t] || op < 4) {
            bool again = typed[t];
            bool f = r.chance(80);
            if (w_type(t, f ? REL[t] : nullptr) < 0) fail("handle:type", "is not accepted");
            if (!again) freeing[t] = f, typed[t] = true; // a type known already stays as it is
            hist += fmt("T%d ", t);
        } else if (op < 45) {
            std::string n = fmt("n%d", (int)r.below(6));
            void *p = w_cont(n.c_str());
            g_owner[p] = t;
            id_t64 nid = w_register(t, p);
            if (!nid || w_typeof(nid) != t) fail("handle:new", fmt("handle %llx of type %d for one of type %d", nid, w_typeof(nid), t));
            if (!ever.insert(nid).second) fail("handle:not-new", fmt("handle %llx was given before; after %s", nid, hist.c_str()));
            live[nid] = H{t, p, 1, n};
            hist += fmt("+%d ", t);
            stat("handle_opened");
        } else if (op < 55 && id) {
            int rc = w_inc(id);
            if (rc != ++live[id].refs) fail("handle:inc", fmt("%d references, not %d", rc, live[id].refs));
            hist += "i ";
        } else if (op < 85 && id) {
            if (freeing[live[id].type] && live[id].refs == 1 && r.chance(8)) { // the release fails: the handle stays
                g_refuse = true;
                int rc = w_dec(id);
                g_refuse = false;
                if (rc >= 0) fail("handle:failed-release", fmt("a release that fails gives %d", rc));
                live[id].refs = 0;
                verify(id);
                if (w_inc(id) != 1) fail("handle:failed-release", "cannot be held again");
                live[id].refs = 1;
                stat("handle_failed_releases");
                hist += "x ";
            } else {
                int rc = w_dec(id), want = --live[id].refs;
                if (rc != want) fail("handle:dec", fmt("%d references, not %d; after %s", rc, want, hist.c_str()));
                if (!want) { gone(id), stat("handle_closed"); } else if (std::find(g_freed.begin(), g_freed.end(), live[id].p) != g_freed.end()) { fail("handle:released-in-use", fmt("released with %d references left", want)); break; }
                hist += "- ";
            }
        } else if (op < 88) { // no such handle
            id_t64 bad = r.chance(50) && !ever.empty() ? *std::next(ever.begin(), r.below(ever.size())) : r.chance(50) ? r.next() : r.below(100);
            if (live.count(bad)) continue;
            size_t before = g_freed.size();
            if (w_inc(bad) != 0 || w_dec(bad) >= 0) fail("handle:closed-accepted", fmt("handle %llx is closed and counted", bad));
            if (g_freed.size() != before) fail("handle:closed-accepted", "something was released");
            verify(bad);
        } else if (op < 91) {
            if (w_clear(t) < 0) fail("handle:clear", "fails");
            std::vector<id_t64> v;
            for (auto &x : live) if (x.second.type == t) v.push_back(x.first);
            for (auto x : v) gone(x);
            hist += fmt("C%d ", t);
            stat("handle_cleared", v.size());
        } else if (op < 95) {
            std::string n = fmt("n%d", (int)r.below(7));
            id_t64 got = w_byname(t, n.c_str());
            bool any = false;
            for (auto &x : live) any |= x.second.type == t && x.second.name == n;
            if (any != (got != 0) || (got && (!live.count(got) || live[got].type != t || live[got].name != n))) fail("handle:by-name", fmt("name %s among handles of type %d gives %llx; after %s", n.c_str(), t, got, hist.c_str()));
            stat("handle_by_name");
        } else if (id) verify(id);
        if (typed[t] && w_count(t) != objs(t)) { fail("handle:count", fmt("%d handles of type %d, not %d; after %s", w_count(t), t, objs(t), hist.c_str())); break; }
        if (i % 16 == 15 || i == steps - 1) {
            for (auto x : ever) verify(x);
            std::set<void *> m(mine.begin(), mine.end());
            for (auto &x : live) if (!g_owner.count(x.second.p)) { fail("handle:released-in-use", "the object of an open handle is released"); break; }
        }
        g_freed.clear();
    }
    if (nfail() < 6)
        for (int t = 1; t < 8; t++) if (typed[t]) {
            std::vector<id_t64> v;
            w_clear(t);
            for (auto &x : live) if (x.second.type == t) v.push_back(x.first);
            for (auto x : v) gone(x);
            if (w_count(t)) fail("handle:clear", "handles remain");
            if (w_untype(t) < 0) fail("handle:type", "does not go away");
        }
    for (void *p : mine) w_cont_free(p);
    w_end();
    distincth("history", hist);
    sample(hist.substr(0, 160));
}
int main(int c, char **v) { return run(c, v, one); }
