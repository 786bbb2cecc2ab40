// Thread pool: a log of job starts and ends, checked offline for exactly-once, order, wait-means-done and quiet destruction.
#include "mb.hpp"
#include "oom.hpp"
#include <atomic>
#include <thread>
#include <unistd.h>
#include <time.h>
extern "C" {
#include "thpool.h"
}
using namespace mb;
struct Job { int id; int pool; int us; int child; std::atomic<int> started{0}, ended{0}; uint64_t s = 0, e = 0; struct Run *run; };
struct Run {
    std::vector<Job *> jobs;
    std::atomic<uint64_t> clock{1};
    std::atomic<int> running[4];
    std::atomic<int> maxrun[4];
    threadpool pool[4];
    bool gone[4];
};
static void work(void *p) {
    Job *j = (Job *)p;
    Run *r = j->run;
    j->s = r->clock++;
    int n = ++r->running[j->pool];
    int m = r->maxrun[j->pool].load();
    while (n > m && !r->maxrun[j->pool].compare_exchange_weak(m, n)) {}
    j->started++;
    if (j->us < 0) std::this_thread::yield();
    else if (j->us) usleep(j->us);
    if (j->child >= 0) thpool_add_work(r->pool[j->pool], work, r->jobs[j->child]);
    j->ended++;
    r->running[j->pool]--;
    j->e = r->clock++;
}
// jobs of a pool that is held: nothing starts, nothing ends
static std::atomic<int> held{0};
static thread_local bool held_me;
extern "C" unsigned __wrap_sleep(unsigned) { if (!held_me) { held_me = true; held++; } usleep(1000); return 0; } // the pool looks again after a second: make it a millisecond
struct Spin { std::atomic<uint64_t> ticks{0}; std::atomic<int> started{0}, ended{0}; std::atomic<bool> *go; };
static void spin(void *p) { Spin *s = (Spin *)p; s->started++; while (!*s->go) { s->ticks++; usleep(200); } s->ended++; }
static bool until(double secs, const std::function<bool()> &f) { for (int i = 0; i < secs * 2000; i++) { if (f()) return true; usleep(500); } return f(); }
static void together(Rng &r) { // n threads: n jobs at once, held and released
    int n = r.pick(std::vector<int>{1, 2, 3, 5, 8}), extra = (int)r.below(6);
    bool pause = r.chance(50);
    std::atomic<bool> go{false};
    threadpool t = thpool_init(n);
    std::vector<Spin> js(n + extra + 3);
    for (auto &j : js) j.go = &go;
    int sub = 0, added = n + extra;
    for (; sub < added; sub++) if (thpool_add_work(t, spin, &js[sub]) != 0) fail("thpool:add", "a job is refused");
    auto running = [&]() { int c = 0; for (auto &j : js) c += j.started - j.ended; return c; };
    auto ticks = [&]() { uint64_t c = 0; for (auto &j : js) c += j.ticks; return c; };
    auto begun = [&]() { int c = 0; for (auto &j : js) c += j.started; return c; };
    auto over = [&]() { int c = 0; for (auto &j : js) c += j.ended; return c; };
    if (!until(60, [&]() { return running() >= n; })) fail("thpool:parallel", fmt("%d jobs that last are running on %d threads, %d submitted", running(), n, added));
    usleep(500);
    if (running() > n) fail("thpool:too-many", fmt("%d jobs run on %d threads", running(), n));
    if (!until(5, [&]() { return thpool_num_threads_working(t) == n; })) fail("thpool:working", fmt("%d of %d busy threads are reported as working", thpool_num_threads_working(t), n));
    if (pause && running() == n) {
        held = 0;
        thpool_pause(t);
        uint64_t k = 0; int still = 0;
        bool ok = until(60, [&]() { uint64_t c = ticks(); still = c == k ? still + 1 : 0; k = c; return held >= n || still > 6000; });
        if (!ok) fail("thpool:pause", fmt("%d of %d threads were held", held.load(), n));
        else {
            uint64_t before = ticks(); int b0 = begun();
            for (; sub < (int)js.size(); sub++) if (thpool_add_work(t, spin, &js[sub]) != 0) fail("thpool:add", "a job is refused while the pool is held");
            go = true;
            usleep((useconds_t)r.range(500, 4000));
            if (ticks() != before || over() || begun() != b0) fail("thpool:pause", fmt("a held pool works on: %d jobs began, %d ended", begun() - b0, over()));
            stat("thpool_pauses");
        }
        thpool_resume(t);
    }
    go = true;
    thpool_wait(t);
    for (int i = 0; i < (int)js.size(); i++) if (js[i].started != (i < sub) || js[i].ended != (i < sub)) { fail("thpool:wait-before-done", fmt("job %d of %d: started %d times, ended %d times", i, sub, js[i].started.load(), js[i].ended.load())); break; }
    if (thpool_num_threads_working(t) != 0) fail("thpool:working-after-wait", "threads are working after the wait");
    thpool_destroy(t);
    stat("thpool_together");
    distincth("history", fmt("together %d %d %d %llx", n, extra, pause, (unsigned long long)r.s));
}
static void bare(Rng &r) { // no threads, no memory
    Spin j; std::atomic<bool> go{true}; j.go = &go;
    threadpool t = thpool_init(r.chance(50) ? 0 : -(int)r.below(5));
    if (!t) { fail("thpool:none", "a pool without threads is refused"); return; }
    int n = (int)r.below(4);
    for (int i = 0; i < n; i++) if (thpool_add_work(t, spin, &j) != 0) fail("thpool:add", "a job is refused");
    oom::arm(0);
    int a = thpool_add_work(t, spin, &j);
    if (oom::disarm() && a == 0) fail("thpool:oom", "a job is accepted without memory");
    if (thpool_num_threads_working(t) != 0) fail("thpool:none", "no thread, but one is working");
    thpool_destroy(t);
    if (j.started) fail("thpool:none", "a pool without threads runs a job");
    thpool_destroy(NULL);
    oom::arm((long)r.below(3));
    t = thpool_init((int)r.range(1, 3));
    if (oom::disarm() ? t != NULL : t == NULL) fail("thpool:oom", "a pool without memory");
    thpool_destroy(t);
    stat("thpool_bare");
    distincth("history", fmt("bare %llx", (unsigned long long)r.s));
}
static void one(Rng &r, const std::string &) {
    if (r.chance(8)) { together(r); return; }
    if (r.chance(3)) { bare(r); return; }
    Run run;
    int np = r.chance(70) ? 1 : r.range(2, 3);
    int th[4];
    std::string h;
    for (int i = 0; i < np; i++) { th[i] = r.pick(std::vector<int>{1, 1, 2, 3, 4, 8, 16}); run.running[i] = 0; run.maxrun[i] = 0; run.pool[i] = thpool_init(th[i]); run.gone[i] = false; h += fmt("p%d,", th[i]); }
    int nj = r.range(1, r.chance(80) ? 60 : 600);
    std::vector<std::vector<Job *>> order(4);
    auto mk = [&](int pool) { Job *j = new Job; j->id = run.jobs.size(); j->pool = pool; j->us = r.chance(60) ? 0 : r.chance(50) ? -1 : (int)r.range(1, 300); j->child = -1; j->run = &run; run.jobs.push_back(j); return j; };
    // jobs are created up front so that a running job may submit its child
    struct Op { int kind, pool, a; };
    std::vector<Op> ops;
    for (int i = 0; i < nj; i++) {
        int p = r.below(np);
        Job *j = mk(p);
        if (r.chance(8)) { Job *c = mk(p); j->child = c->id; }
        ops.push_back({0, p, j->id});
        if (r.chance(4)) ops.push_back({1, p, 0});
        if (r.chance(5)) ops.push_back({2, 0, (int)r.range(1, 200)});
    }
    std::set<int> sub[4];
    auto done = [&](int p, const char *when) {
        for (int id : sub[p]) {
            Job *j = run.jobs[id];
            for (;;) {
                if (j->started != 1 || j->ended != 1) { fail("thpool:wait-before-done", fmt("%s: job %d of pool %d (%d threads) started %d times, ended %d times", when, j->id, p, th[p], j->started.load(), j->ended.load())); return; }
                if (j->child < 0) break;
                j = run.jobs[j->child];
            }
        }
    };
    int waits = 0;
    for (auto &o : ops) {
        h += fmt("%d%d", o.kind, o.pool);
        if (o.kind == 0) { sub[o.pool].insert(o.a); order[o.pool].push_back(run.jobs[o.a]); if (thpool_add_work(run.pool[o.pool], work, run.jobs[o.a]) != 0) fail("thpool:add", "a job is refused"); }
        else if (o.kind == 1) { thpool_wait(run.pool[o.pool]); waits++; done(o.pool, "wait"); if (thpool_num_threads_working(run.pool[o.pool]) != 0) fail("thpool:working-after-wait", "threads are working after the wait"); }
        else usleep(o.a);
    }
    bool last = r.chance(80);
    for (int p = 0; p < np; p++) {
        if (last) { thpool_wait(run.pool[p]); waits++; done(p, "last wait"); }
        thpool_destroy(run.pool[p]);
        run.gone[p] = true;
        if (run.running[p] != 0) fail("thpool:running-after-destroy", fmt("%d jobs run after destruction", run.running[p].load()));
        // the other pools still serve
        for (int q = p + 1; q < np; q++) {
            Job *j = mk(q);
            sub[q].insert(j->id); order[q].push_back(j);
            thpool_add_work(run.pool[q], work, j);
            if (last) { thpool_wait(run.pool[q]); done(q, "wait after another pool was destroyed"); }
        }
    }
    uint64_t ran = 0;
    for (auto j : run.jobs) {
        if (j->started > 1 || j->ended > 1) fail("thpool:job-twice", fmt("job %d ran %d times", j->id, j->started.load()));
        if (j->started != j->ended) fail("thpool:job-unfinished", fmt("job %d", j->id));
        ran += j->ended;
    }
    for (int p = 0; p < np; p++) if (th[p] == 1) {
        uint64_t prev = 0;
        bool gap = false;
        for (auto j : order[p]) {
            if (!j->started) { gap = true; continue; }
            if (gap) fail("thpool:order", fmt("job %d of a one-thread pool ran although an earlier one did not", j->id));
            if (j->s < prev) { fail("thpool:order", fmt("job %d of a one-thread pool ran before an earlier one", j->id)); break; }
            prev = j->e;
        }
    }
    for (int p = 0; p < np; p++) if (run.maxrun[p] > th[p]) fail("thpool:too-many", fmt("%d jobs at once on %d threads", run.maxrun[p].load(), th[p]));
    stat("thpool_jobs", run.jobs.size()); stat("thpool_ran", ran); stat("thpool_waits", waits); stat("thpool_pools", np); int most = 0; for (int p = 0; p < np; p++) most = std::max(most, run.maxrun[p].load()); stat("thpool_overlapping_cases", most > 1);
    std::string sched;
    for (auto j : run.jobs) sched += fmt("%llu,", (unsigned long long)j->s);
    distincth("history", h + sched);
    sample(fmt("%d pools, %zu jobs, %d waits, at most %d at once; start order %s", np, run.jobs.size(), waits, most, sched.substr(0, 100).c_str()));
    for (auto j : run.jobs) delete j;
}
int main(int c, char **v) { return run(c, v, one); }
