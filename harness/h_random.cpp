// Random numbers: range and distribution asked for, repeatable for a seed; time stamps on a clock the harness moves.
#include "mb.hpp"
#include <cmath>
#include <numeric>
#include <ctime>
extern "C" {
#include "dart_utils.h"
static int64_t now_ns = 1700000000000000000ll;
int __wrap_clock_gettime(clockid_t, struct timespec *ts) { ts->tv_sec = now_ns / 1000000000; ts->tv_nsec = now_ns % 1000000000; return 0; }
}
using namespace mb;
static const double PI = 3.14159265358979323846;
static double Phi(double z) { return 0.5 * erfc(-z / sqrt(2.0)); }
// the sample's distribution function is nowhere further from the expected one than chance explains (p < 1e-12)
static void ks(const char *what, std::vector<double> v, const std::function<double(double)> &cdf, const std::string &det) {
    std::sort(v.begin(), v.end());
    double n = v.size(), d = 0;
    for (size_t i = 0; i < v.size(); i++) { double c = cdf(v[i]); d = std::max(d, std::max(fabs(c - i / n), fabs((i + 1) / n - c))); }
    if (!(d * sqrt(n) < 3.9)) fail(fmt("random:%s", what), det + fmt(": distance %.4f over %.0f values, mean %.6g", d, n, std::accumulate(v.begin(), v.end(), 0.0) / n));
    stat("random_values", v.size());
}
static void one(Rng &r, const std::string &) {
    long seed = (long)r.range(1, 2000000000);
    size_t N = 4000;
    auto draw = [&](const std::function<double()> &f) { random_seed(seed); std::vector<double> v; for (size_t i = 0; i < N; i++) v.push_back(f()); return v; };
    { auto a = draw(random_uniform), b = draw(random_uniform);
      if (a != b) fail("random:repeat", fmt("seed %ld gives different numbers the second time", seed));
      for (double x : a) if (!(x >= 0 && x < 1)) { fail("random:uniform-range", fmt("%.17g", x)); break; }
      random_seed(seed); double x0 = random_uniform(); random_seed(-5); double x1 = random_uniform();
      if (x0 != a[0] || x1 != a[1]) fail("random:seed", "a negative seed starts the sequence again");
      ks("uniform", a, [](double x) { return x; }, fmt("seed %ld", seed)); }
    { double lo = (double)r.range(-1000000, 1000000) / 16, hi = lo + (double)r.range(1, 1000000) / 32;
      auto a = draw([&] { return random_range(lo, hi); });
      double eps = (fabs(lo) + fabs(hi)) * 1e-12;
      for (double x : a) if (!(x >= lo - eps && x <= hi + eps)) { fail("random:range", fmt("%.17g is not within %g and %g", x, lo, hi)); break; }
      ks("range-values", a, [&](double x) { return (x - lo) / (hi - lo); }, fmt("seed %ld, %g to %g", seed, lo, hi)); }
    { double m = (double)r.range(-10000, 10000) / 16, d = (double)r.range(1, 10000) / 16;
      auto a = draw([&] { return random_normal(m, d); });
      for (double x : a) if (!std::isfinite(x)) { fail("random:normal-finite", fmt("%g", x)); break; }
      ks("normal", a, [&](double x) { return Phi((x - m) / d); }, fmt("seed %ld, mean %g, deviation %g", seed, m, d)); }
    { double m = (double)r.range(1, 10000) / 64;
      auto a = draw([&] { return random_exponential(m); });
      for (double x : a) if (!(x > 0) || !std::isfinite(x)) { fail("random:exponential-range", fmt("%g", x)); break; }
      ks("exponential", a, [&](double x) { return 1 - exp(-x / m); }, fmt("seed %ld, mean %g", seed, m)); }
    (void)PI;
    for (int i = 0; i < 50; i++) {
        now_ns = r.chance(30) ? (int64_t)r.below(4000000000ull) * 1000000000ll + (int64_t)(r.chance(50) ? 999999999 : r.below(1000)) : (int64_t)r.below(4000000000000000000ull);
        if (get_timestamp_ns() != now_ns || get_timestamp_us() != now_ns / 1000 || get_timestamp_ms() != now_ns / 1000000 || get_timestamp_s() != now_ns / 1000000000) { fail("random:time-stamp", fmt("at %lld ns", (long long)now_ns)); break; }
        stat("time_stamps");
    }
    distincth("case", fmt("%ld %llx", seed, (unsigned long long)r.s));
}
int main(int c, char **v) { return run(c, v, one); }
