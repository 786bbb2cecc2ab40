// Stop watches and the call profile, run on a clock the harness moves: every interval has one right answer.
#include "mb.hpp"
#include <ctime>
extern "C" {
#include "timer_utils.h"
#include "pdc_stack_ops.h"
#include "pdc_hashtab.h"
extern htab_t thisHashTable;
int show_profile_info(void **, void *);
int toggle_profile_enable(void);
void profile_init(void);
void finalize_profile(void);
static int64_t now_ns = 1700000000000000000ll;
int __wrap_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = now_ns / 1000000000; tv->tv_usec = now_ns % 1000000000 / 1000; return 0; }
int __wrap_clock_gettime(clockid_t, struct timespec *ts) { ts->tv_sec = now_ns / 1000000000; ts->tv_nsec = now_ns % 1000000000; return 0; }
}
using namespace mb;
static void step(Rng &r) { // from nothing to hours, fractions around full seconds included
    switch (r.below(6)) {
        case 0: return;
        case 1: now_ns += (int64_t)r.below(2000); return;
        case 2: now_ns += (int64_t)r.below(1000000000); return;
        case 3: now_ns += (int64_t)r.below(20) * 1000000000ll; return;
        case 4: now_ns += 1000000000ll - now_ns % 1000000000 - (int64_t)r.below(3); return;
        default: now_ns += (int64_t)r.below(4000) * 1000000000ll + (int64_t)r.below(1000000000); return;
    }
}
static void watches(Rng &r) {
    struct M { bool init = false, run = false, paused = false; int64_t start = 0, acc = 0; };
    int n = (int)r.range(1, 3);
    std::vector<stopwatch_t> w(n); std::vector<M> m(n);
    std::string hist;
    auto us = [] { return now_ns / 1000; };
    for (int i = 0; i < 60; i++) {
        step(r);
        int k = (int)r.below(n), op = (int)r.below(6);
        if (!m[k].init) op = 0;
        hist += fmt("%d%d", k, op);
        if (op == 0) { timer_start(&w[k]); m[k] = M(); m[k].init = m[k].run = true; m[k].start = us(); }
        else if (op == 1) { timer_pause(&w[k]); if (m[k].run) { m[k].acc = us() - m[k].start; m[k].run = false; m[k].paused = true; } }
        else if (op == 2) { timer_unpause(&w[k]); if (m[k].paused) { m[k].start = us() - m[k].acc; m[k].run = true; m[k].paused = false; } }
        for (int j = 0; j < n; j++) if (m[j].init) {
            double want = m[j].run ? us() - m[j].start : m[j].acc;
            double got = timer_delta_us(&w[j]);
            if (got != want) { fail("time:watch", hist + fmt(" watch %d: %.0f us instead of %.0f", j, got, want)); return; }
            auto near = [&](double g, double e) { return g == e || (g > e * (1 - 1e-12) && g < e * (1 + 1e-12)); };
            if (!near(timer_delta_ms(&w[j]), want / 1e3) || !near(timer_delta_s(&w[j]), want / 1e6) || !near(timer_delta_m(&w[j]), want / 6e7) || !near(timer_delta_h(&w[j]), want / 3.6e9)) { fail("time:units", hist); return; }
            stat("watch_reads");
        }
        if (timer_us_timestamp() != us() || timer_ms_timestamp() != us() / 1000 || timer_s_timestamp() != us() / 1000000) { fail("time:stamp", hist); return; }
    }
    distincth("history", hist);
}
struct Rec { int64_t n = 0, total = 0, self = 0; };
static std::map<std::string, Rec> *seen; static int dups;
static int visit(void **slot, void *) {
    profileEntry_t *e = (profileEntry_t *)*slot;
    Rec &x = (*seen)[e->ftnkey]; if (x.n) dups++;
    x.n = e->count; x.total = e->totalTime.tv_sec * 1000000000ll + e->totalTime.tv_nsec; x.self = e->selfTime.tv_sec * 1000000000ll + e->selfTime.tv_nsec;
    return 1;
}
static void switches(Rng &r) { // on and off, by call and by environment
    bool on = enableProfiling;
    for (int i = 0; i < 20; i++) {
        if (r.chance(50)) { on = !on; int x = toggle_profile_enable(); if ((x != 0) != on) fail("profile:toggle", fmt("says %d", x)); }
        else {
            static const char *v[] = {"true", "TRUE", "True", "false", "FALSE", "", "yes", "0", NULL};
            int k = (int)r.below(9); void *t = thisHashTable;
            if (v[k]) setenv("PROFILE_ENABLE", v[k], 1); else unsetenv("PROFILE_ENABLE");
            if (k < 3) on = true; else if (k < 5) on = false;
            profile_init();
            (void)t;
        }
        if ((enableProfiling != 0) != on) { fail("profile:enable", fmt("profiling is %d", (int)enableProfiling)); break; }
        stat("profile_switches");
    }
    unsetenv("PROFILE_ENABLE");
    distincth("history", fmt("switch %llx", (unsigned long long)r.s));
}
static void profile(Rng &r) {
    static std::vector<char *> &names = *new std::vector<char *>; // as with __func__: one address per function
    if (names.empty()) for (int i = 0; i < 400; i++) names.push_back(strdup(fmt("fn_%d", i * 7919).c_str()));
    if (thisHashTable) { htab_delete(thisHashTable); thisHashTable = NULL; }
    void *t = NULL;
    initialize_profile(&t, 1 + r.below(64));
    if (!t || t != thisHashTable) fail("profile:initialize", "the table is not handed out");
    int reinit = r.chance(20) ? (int)r.below(50) : -1; // once more while in use: nothing is lost
    int nf = r.chance(20) ? 400 : (int)r.range(1, 12), nops = (int)r.range(10, r.chance(15) ? 3000 : 200);
    struct A { int f; int64_t start, kids; };
    std::vector<A> st; std::map<std::string, Rec> want; std::string hist;
    if (r.chance(10)) pop(); // nothing to leave
    auto leave = [&] {
        pop();
        A a = st.back(); st.pop_back();
        int64_t d = now_ns - a.start; Rec &x = want[names[a.f]];
        x.n++; x.total += d; x.self += d - a.kids;
        if (!st.empty()) st.back().kids += d;
        stat("calls_profiled");
    };
    int64_t begin = now_ns, outside = 0, mark = now_ns;
    for (int i = 0; i < nops; i++) {
        step(r);
        if (i == reinit) { initialize_profile(&t, 1 + r.below(64)); if (t != thisHashTable) fail("profile:initialize", "another table is handed out"); }
        if (st.empty() || (st.size() < 60 && r.chance(50))) {
            if (st.empty()) outside += now_ns - mark;
            int f = (int)r.below(nf); push(names[f], NULL); st.push_back({f, now_ns, 0}); hist += fmt("+%d", f);
        } else { leave(); hist += '-'; if (st.empty()) mark = now_ns; }
    }
    while (!st.empty()) { step(r); leave(); mark = now_ns; }
    std::map<std::string, Rec> got; seen = &got; dups = 0;
    htab_traverse(thisHashTable, visit, NULL);
    if (dups || got.size() != want.size()) fail("profile:functions", hist.substr(0, 200) + fmt(" %zu functions recorded (%d twice), %zu called", got.size(), dups, want.size()));
    int64_t sum = 0;
    for (auto &e : want) {
        Rec g = got[e.first]; sum += g.self;
        if (g.n != e.second.n) fail("profile:calls", fmt("%s: %lld calls recorded, %lld made; ", e.first.c_str(), (long long)g.n, (long long)e.second.n) + hist.substr(0, 200));
        if (g.total != e.second.total) fail("profile:total", fmt("%s: %lld ns recorded, %lld passed; ", e.first.c_str(), (long long)g.total, (long long)e.second.total) + hist.substr(0, 200));
        if (g.self != e.second.self) fail("profile:self", fmt("%s: %lld ns recorded, %lld passed; ", e.first.c_str(), (long long)g.self, (long long)e.second.self) + hist.substr(0, 200));
        stat("profile_entries");
        if (nfail() > 5) return;
    }
    if (sum != mark - begin - outside) fail("profile:sum", hist.substr(0, 200));
    if (want.size() < 50) { // the report: one line per function with its calls and the mean time of a call
        std::string f = std::string(getenv("PV_TMP") ? getenv("PV_TMP") : "/tmp") + "/report", text;
        { Swap w(1, f, O_WRONLY | O_CREAT | O_TRUNC); finalize_profile(); }
        text = content(f);
        std::map<std::string, int> lines;
        size_t at = 0;
        while (at < text.size()) {
            size_t e = text.find('\n', at); if (e == std::string::npos) e = text.size();
            int no; long long n, s, ns; char name[100];
            if (sscanf(text.substr(at, e - at).c_str(), " %d %lld %lld, %lld %99s", &no, &n, &s, &ns, name) == 5) {
                auto it = want.find(name);
                if (it == want.end() || ++lines[name] > 1) fail("profile:report-function", text.substr(at, e - at));
                else {
                    int64_t mean = it->second.total / it->second.n;
                    if (n != it->second.n) fail("profile:report-calls", text.substr(at, e - at) + fmt(": %lld calls made", (long long)it->second.n));
                    else if (s != mean / 1000000000 || ns != mean % 1000000000) fail("profile:report-time", text.substr(at, e - at) + fmt(": a call took %lld ns", (long long)mean));
                }
            }
            at = e + 1;
        }
        if (lines.size() != want.size()) fail("profile:report", fmt("%zu of %zu functions in the report", lines.size(), want.size()));
        stat("profile_reports");
    }
    distincth("history", hist);
    sample(hist.substr(0, 160));
}
int main(int argc, char **argv) { return run(argc, argv, [](Rng &r, const std::string &) { if (r.chance(50)) watches(r); else if (r.chance(5)) switches(r); else profile(r); }); }
