// Common part of the model-based harnesses: seeded randomness, counters, reports.
// Output protocol (one record per line, read by lib/comp.py):
//   STAT <key> <n>      summed over runs        SET <key> <value>   distinct values are counted
//   SAMPLE <text>       an example case         FAIL <sig> :: <detail>
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <algorithm>
#include <functional>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/time.h>
namespace mb {
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
    bool chance(int pct) { return (int)below(100) < pct; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    std::string str(size_t minlen, size_t maxlen, const std::string &alpha) {
        std::string r;
        size_t n = (size_t)range((int64_t)minlen, (int64_t)maxlen);
        for (size_t i = 0; i < n; i++) r += alpha[below(alpha.size())];
        return r;
    }
};
inline std::map<std::string, uint64_t> &stats() { static std::map<std::string, uint64_t> m; return m; }
inline std::map<std::string, std::set<std::string>> &sets() { static std::map<std::string, std::set<std::string>> m; return m; }
inline int &nfail() { static int n; return n; }
inline int &nsample() { static int n; return n; }
inline std::string &where() { static std::string s; return s; }
inline void stat(const std::string &k, uint64_t n = 1) { stats()[k] += n; }
inline void distinct(const std::string &k, const std::string &v) { if (sets()[k].size() < 20000) sets()[k].insert(v); }
inline uint64_t fnv(const std::string &s, uint64_t h = 1469598103934665603ull) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
inline void distincth(const std::string &k, const std::string &v) { char b[32]; snprintf(b, sizeof b, "%016llx", (unsigned long long)fnv(v)); distinct(k, b); }
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
inline std::string esc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c < 32 || c > 126 || c == '\\') r += fmt("\\x%02x", c); else r += (char)c; } return r; }
inline void fail(const std::string &sig, const std::string &detail) {
    if (nfail()++ < 25) { printf("FAIL %s :: %s [%s]\n", sig.c_str(), detail.substr(0, 1500).c_str(), where().c_str()); fflush(stdout); }
}
inline void sample(const std::string &s) { if (nsample()++ < 3) printf("SAMPLE %s\n", s.substr(0, 600).c_str()); }
inline void flush() {
    for (auto &k : stats()) printf("STAT %s %llu\n", k.first.c_str(), (unsigned long long)k.second);
    for (auto &k : sets()) for (auto &v : k.second) printf("SET %s %s\n", k.first.c_str(), v.c_str());
    fflush(stdout);
}
// a case takes milliseconds; one that uses this much processor time (not wall time, so load does not matter) does not end
static const int CASE_CPU_S = 40;
inline void overdue(int) {
    static char b[512];
    int n = snprintf(b, sizeof b, "\nFAIL hang :: a case did not end within %d s of processor time [%s]\nDONE\n", CASE_CPU_S, where().c_str());
    if (write(1, b, n)) {}
    _exit(3);
}
inline void watch() { struct itimerval t = {{0, 0}, {CASE_CPU_S, 0}}; setitimer(ITIMER_PROF, &t, NULL); }
// one of the process's own files (0, 1, 2) replaced for a while
struct Swap {
    int fd, keep;
    Swap(int f, const std::string &file, int flags) : fd(f) { fflush(NULL); keep = dup(fd); int n = open(file.c_str(), flags, 0600); dup2(n, fd); close(n); }
    ~Swap() { fflush(NULL); dup2(keep, fd); close(keep); }
};
inline std::string content(const std::string &f) { std::string r; FILE *p = fopen(f.c_str(), "rb"); if (!p) return "<none>"; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) r.append(b, n); fclose(p); return r; }
// main loop: <prog> <seed> <cases> [mode]; every case gets its own derived seed, so one case can be replayed alone
inline int run(int argc, char **argv, const std::function<void(Rng &, const std::string &)> &one) {
    uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1, n = argc > 2 ? strtoull(argv[2], 0, 10) : 100, from = argc > 4 ? strtoull(argv[4], 0, 10) : 0;
    std::string mode = argc > 3 ? argv[3] : "";
    setvbuf(stdout, 0, _IOLBF, 1 << 16);
    signal(SIGPROF, overdue);
    for (uint64_t i = from; i < from + n; i++) {
        Rng r(seed * 1000003ull + i);
        where() = fmt("seed=%llu case=%llu mode=%s", (unsigned long long)seed, (unsigned long long)i, mode.c_str());
        printf("CASE %llu\n", (unsigned long long)i);
        watch();
        one(r, mode);
        stat("cases");
    }
    flush();
    printf("DONE\n");
    return 0;
}
} // namespace mb
