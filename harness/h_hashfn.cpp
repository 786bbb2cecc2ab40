// Hash functions against independent implementations of what they are documented to be.
#include "mb.hpp"
#include <cmath>
extern "C" {
#include "dart_algo.h"
#include "pdc_hash.h"
#include "pdc_compare.h"
#include "pdc_hash_table.h"
#include "dart_math.h"
void MurmurHash3_x64_128(const void *key, int len, uint32_t seed, void *out);
unsigned int htab_hash_string(const void *);
// named so in the source file
extern HashTableHashFunc pdc_default_double_hash_func_ptr;
extern HashTableEqualFunc pdc_default_double_equal_func_ptr;
}
using namespace mb;
// exact-size copies in the heap: reading past either end is seen by the sanitizer
struct Mem {
    uint8_t *p;
    size_t n;
    explicit Mem(const std::string &s, size_t off = 0) : p((uint8_t *)malloc(s.size() + off)), n(off) { memcpy(p + off, s.data(), s.size()); }
    uint8_t *at() { return p + n; }
    ~Mem() { free(p); }
};
static uint32_t rotl(uint32_t x, int c) { return c ? (x << c) | (x >> (32 - c)) : x; }
static uint64_t rotl64(uint64_t x, int c) { return (x << c) | (x >> (64 - c)); }
static std::string md5_ref(const std::string &in) {
    static const int rot[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
    std::string m = in;
    m += (char)0x80;
    while (m.size() % 64 != 56) m += (char)0;
    uint64_t bits = (uint64_t)in.size() * 8;
    for (int i = 0; i < 8; i++) m += (char)(bits >> (8 * i));
    uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
    static uint32_t sine[64];
    if (!sine[0])
        for (int i = 0; i < 64; i++) sine[i] = (uint32_t)floor(fabs(sin(i + 1.0)) * 4294967296.0);
    for (size_t o = 0; o < m.size(); o += 64) {
        uint32_t w[16], a = h[0], b = h[1], c = h[2], d = h[3];
        for (int i = 0; i < 16; i++) {
            w[i] = 0;
            for (int j = 3; j >= 0; j--) w[i] = w[i] << 8 | (uint8_t)m[o + i * 4 + j];
        }
        for (int i = 0; i < 64; i++) {
            uint32_t f, g;
            switch (i / 16) {
                case 0: f = (b & c) | (~b & d), g = i; break;
                case 1: f = (d & b) | (~d & c), g = (5 * i + 1) % 16; break;
                case 2: f = b ^ c ^ d, g = (3 * i + 5) % 16; break;
                default: f = c ^ (b | ~d), g = (7 * i) % 16;
            }
            uint32_t k = sine[i], t = d;
            d = c;
            c = b;
            b += rotl(a + f + k + w[g], rot[i / 16][i % 4]);
            a = t;
        }
        h[0] += a, h[1] += b, h[2] += c, h[3] += d;
    }
    std::string r;
    for (uint32_t x : h)
        for (int i = 0; i < 4; i++) r += (char)(x >> (8 * i));
    return r;
}
static uint32_t m32_ref(const std::string &s, uint32_t seed) {
    uint32_t h = seed;
    size_t i = 0;
    auto byte = [&](size_t k) { return (uint32_t)(uint8_t)s[k]; };
    auto scramble = [](uint32_t k) { return rotl(k * 0xcc9e2d51u, 15) * 0x1b873593u; };
    for (; i + 4 <= s.size(); i += 4) h = rotl(h ^ scramble(byte(i) | byte(i + 1) << 8 | byte(i + 2) << 16 | byte(i + 3) << 24), 13) * 5 + 0xe6546b64u;
    uint32_t k = 0;
    for (size_t j = s.size(); j > i; j--) k = k << 8 | byte(j - 1);
    h ^= scramble(k) ^ (uint32_t)s.size();
    h = (h ^ h >> 16) * 0x85ebca6bu;
    h = (h ^ h >> 13) * 0xc2b2ae35u;
    return h ^ h >> 16;
}
static std::string m128_ref(const std::string &s, uint32_t seed) {
    const uint64_t c1 = 0x87c37b91114253d5ull, c2 = 0x4cf5ad432745937full;
    uint64_t h1 = seed, h2 = seed, k1, k2;
    size_t nb = s.size() / 16;
    auto word = [&](size_t from, size_t to) {
        uint64_t v = 0;
        for (size_t j = to; j > from; j--) v = v << 8 | (uint8_t)s[j - 1];
        return v;
    };
    for (size_t i = 0; i < nb; i++) {
        k1 = word(16 * i, 16 * i + 8), k2 = word(16 * i + 8, 16 * i + 16);
        h1 = (rotl64(h1 ^ rotl64(k1 * c1, 31) * c2, 27) + h2) * 5 + 0x52dce729;
        h2 = (rotl64(h2 ^ rotl64(k2 * c2, 33) * c1, 31) + h1) * 5 + 0x38495ab5;
    }
    size_t t = nb * 16, e = s.size(), mid = std::min(e, t + 8);
    k1 = word(t, mid), k2 = word(mid, e);
    h2 ^= rotl64(k2 * c2, 33) * c1;
    h1 ^= rotl64(k1 * c1, 31) * c2;
    h1 ^= e, h2 ^= e, h1 += h2, h2 += h1;
    auto mix = [](uint64_t k) {
        k = (k ^ k >> 33) * 0xff51afd7ed558ccdull;
        k = (k ^ k >> 33) * 0xc4ceb9fe1a85ec53ull;
        return k ^ k >> 33;
    };
    h1 = mix(h1), h2 = mix(h2), h1 += h2, h2 += h1;
    std::string r;
    for (uint64_t x : {h1, h2})
        for (int i = 0; i < 8; i++) r += (char)(x >> (8 * i));
    return r;
}
static std::string hex(const std::string &s) {
    std::string r;
    for (uint8_t c : s) r += fmt("%02x", c);
    return r;
}
static void expect(const char *what, const std::string &in, const std::string &got, const std::string &want) {
    stat(what);
    if (got != want) fail(fmt("hash:%s", what), fmt("%zu bytes '%s': %s, not %s", in.size(), esc(in).substr(0, 120).c_str(), got.c_str(), want.c_str()));
}
static std::string num(uint64_t v) { return fmt("%llx", (unsigned long long)v); }
static void published() {
    // values from the publications, so that the references above are checked, too
    static const std::vector<std::pair<std::string, std::string>> t = {{"", "d41d8cd98f00b204e9800998ecf8427e"}, {"a", "0cc175b9c0f1b6a831c399e269772661"}, {"message digest", "f96b697d7cb7938d525a2f31aaf161d0"}, {"12345678901234567890123456789012345678901234567890123456789012345678901234567890", "57edf4a22be3c955ac49da2e2107b67a"}};
    for (auto &x : t)
        if (hex(md5_ref(x.first)) != x.second) { fprintf(stderr, "reference MD5 is wrong\n"); exit(2); }
    if (m32_ref("", 1) != 0x514E28B7 || m32_ref("Hello, world!", 0x9747b28c) != 0x24884CBA) { fprintf(stderr, "reference Murmur3-32 is wrong\n"); exit(2); }
    if (hex(m128_ref("", 0)) != std::string(32, '0') || hex(m128_ref("The quick brown fox jumps over the lazy dog", 0)) != "6c1b07bc7bbc4be347939ac4a93c437a") { fprintf(stderr, "reference Murmur3-128 is wrong\n"); exit(2); }
}
// a message whose length in bits takes more than 32
static void lengthy(Rng &r) {
    std::string s((1ul << 29) + r.below(200), 'x');
    for (int i = 0; i < 1000; i++) s[r.below(s.size())] = (char)r.below(256);
    uint8_t d[16];
    md5((uint8_t *)s.data(), s.size(), d);
    distinct("input", fmt("%zu bytes", s.size()));
    expect("md5", fmt("%zu bytes", s.size()), hex(std::string((char *)d, 16)), hex(md5_ref(s)));
    stat("messages_beyond_512_MB");
}
static void one(Rng &r, const std::string &mode) {
    if (mode == "lengthy") return lengthy(r);
    static bool once = (published(), true);
    (void)once;
    static const std::vector<std::string> al = {"ab", "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _", "\x01\x7f\x80\xff\xc3\xa9zA"};
    for (int rep = 0; rep < 20; rep++) {
        int w = r.below(4);
        size_t n = r.chance(70) ? r.range(0, 40) : r.chance(80) ? r.range(40, 200) : r.range(200, 3000);
        std::string s = w < 3 ? r.str(n, n, al[w]) : std::string();
        if (w == 3)
            for (size_t i = 0; i < n; i++) s += (char)r.below(256);
        distinct("input", s);
        size_t off = r.below(9);
        uint32_t seed = r.chance(50) ? (uint32_t)r.below(3) : (uint32_t)r.next();
        {
            Mem m(s, off);
            uint8_t d[16];
            md5(m.at(), s.size(), d);
            expect("md5", s, hex(std::string((char *)d, 16)), hex(md5_ref(s)));
        }
        {
            Mem m(s, off & ~3ul);
            expect("murmur3_32", s, num(murmur3_32(m.at(), s.size(), seed)), num(m32_ref(s, seed)));
        }
        {
            Mem m(s, off & ~7ul);
            uint8_t d[16];
            MurmurHash3_x64_128(m.at(), (int)s.size(), seed, d);
            expect("murmur3_x64_128", s, hex(std::string((char *)d, 16)), hex(m128_ref(s, seed)));
        }
        std::string z = s.substr(0, s.find('\0'));
        Mem m(z + std::string(1, '\0'), off);
        char *c = (char *)m.at();
        uint32_t want = 5381, wantu = 5381, wantl = 5381;
        for (char x : z) {
            want = want * 33 + (uint32_t)(int)x, wantu = wantu * 33 + (uint8_t)x;
            wantl = wantl * 33 + (uint32_t)((uint8_t)x >= 'A' && (uint8_t)x <= 'Z' ? (uint8_t)x + 32 : (uint8_t)x);
        }
        expect("djb2_hash", z, num(djb2_hash(c, (int)z.size())), num(want));
        expect("string_hash", z, num(string_hash(c)), num(wantu));
        expect("string_nocase_hash", z, num(string_nocase_hash(c)), num(wantl));
        {
            int pl = r.range(0, (int)z.size() + 3);
            std::string p = md5_ref(z.substr(0, pl));
            uint32_t v = 0;
            for (int i = 3; i >= 0; i--) v = v << 8 | (uint8_t)p[i];
            expect("md5_hash", z, num(md5_hash(pl, c)), num(v));
        }
        // what compares equal hashes equally
        std::string y = z;
        for (auto &x : y)
            if (isalpha((unsigned char)x) && r.chance(50)) x ^= 32;
        if (r.chance(30) && !y.empty()) y[r.below(y.size())] ^= 1;
        y = y.substr(0, y.find('\0'));
        Mem my(y + std::string(1, '\0'));
        char *cy = (char *)my.at();
        if (string_equal(c, cy) != (z == y)) fail("hash:string_equal", fmt("'%s' '%s'", esc(z).c_str(), esc(y).c_str()));
        if (string_nocase_equal(c, cy) && string_nocase_hash(c) != string_nocase_hash(cy)) fail("hash:nocase-equal-but-hash-differs", fmt("'%s' '%s'", esc(z).c_str(), esc(y).c_str()));
        bool eq = strcasecmp(c, cy) == 0;
        if ((string_nocase_equal(c, cy) != 0) != eq) fail("hash:string_nocase_equal", fmt("'%s' '%s'", esc(z).c_str(), esc(y).c_str()));
        int a = (int)r.next(), b = a;
        uint64_t p = r.next(), q = p;
        if (int_hash(&a) != int_hash(&b) || !int_equal(&a, &b)) fail("hash:int", fmt("%d", a));
        if (ui64_hash(&p) != ui64_hash(&q) || !ui64_equal(&p, &q)) fail("hash:ui64", num(p));
        // the hash table's own functions
        auto pair = [&](const char *what, HashTableHashFunc hf, HashTableEqualFunc ef, void *x, void *y, bool equal) {
            stat("default_functions");
            if ((ef(x, y) != 0) != equal || (ef(y, x) != 0) != equal) fail(fmt("hash:default-%s-equal", what), fmt("%d and %d, not %d", ef(x, y), ef(y, x), equal));
            if (ef(x, y) && hf(x) != hf(y)) fail(fmt("hash:default-%s-hash", what), fmt("equal keys have hashes %x and %x", hf(x), hf(y)));
        };
        pair("string", pdc_default_string_hash_func_ptr, pdc_default_string_equal_func_ptr, c, cy, z == y);
        expect("default_string_hash", z, num(pdc_default_string_hash_func_ptr(c)), num(want));
        for (int q = 0; q < 4; q++) {
            int i1 = r.range(-3, 3), i2 = r.chance(30) ? (int)r.next() : r.range(-3, 3);
            long l1 = r.chance(50) ? (long)r.next() : i1, l2 = r.chance(40) ? l1 ^ 1l << r.below(64) : r.chance(50) ? l1 : (long)r.next();
            uint64_t u1 = l1, u2 = r.chance(50) ? u1 : (uint64_t)l2;
            double sm = r.pick(std::vector<double>{0.0, -0.0, 1.0, 1e-12, 1e300, 5e-324, 0.1, -2.5, 3e-9}), d1 = r.chance(50) ? sm : (r.unit() - 0.5) * pow(10, r.range(-12, 12)), d2 = r.chance(40) ? d1 : r.chance(50) ? nextafter(d1, r.chance(50) ? 1e308 : -1e308) : -d1;
            pair("integer", pdc_default_integer_hash_func_ptr, pdc_default_integer_equal_func_ptr, &i1, &i2, i1 == i2);
            pair("long", pdc_default_long_hash_func_ptr, pdc_default_long_equal_func_ptr, &l1, &l2, l1 == l2);
            pair("uint64", pdc_default_uint64_hash_func_ptr, pdc_default_uint64_equal_func_ptr, &u1, &u2, u1 == u2);
            pair("double", pdc_default_double_hash_func_ptr, pdc_default_double_equal_func_ptr, &d1, &d2, d1 == d2);
        }
        {
            std::string y2 = z;
            Mem m2(y2 + std::string(1, '\0'), r.below(8));
            if (htab_hash_string(c) != htab_hash_string(m2.at())) fail("hash:htab_hash_string", esc(z));
        }
        // integer powers wrap as unsigned numbers do; logarithms to a base are their inverse
        {
            uint32_t b32 = r.chance(70) ? r.below(40) : (uint32_t)r.next(), e32 = r.below(40), w32 = 1;
            uint64_t b64 = r.chance(70) ? r.below(40) : r.next(), e64 = r.below(70), w64 = 1;
            for (uint32_t q = 0; q < e32; q++) w32 *= b32;
            for (uint64_t q = 0; q < e64; q++) w64 *= b64;
            if (uint32_pow(b32, e32) != w32) fail("math:uint32_pow", fmt("%u^%u", b32, e32));
            if (uint64_pow(b64, e64) != w64) fail("math:uint64_pow", fmt("%llu^%llu", (unsigned long long)b64, (unsigned long long)e64));
            double base = r.range(2, 100), ex = r.range(-20, 20) / 2.0, lg = log_with_base(base, pow(base, ex));
            if (fabs(lg - ex) > 1e-9 * (1 + fabs(ex))) fail("math:log_with_base", fmt("%g to %g gives %.17g", base, ex, lg));
            int ia = (int)r.next();
            if (ia != INT32_MIN && int_abs(ia) != (ia < 0 ? -(int64_t)ia : ia)) fail("math:int_abs", fmt("%d", ia));
        }
        // orders: what each type's natural order is
        auto sgn = [](int64_t v) { return v < 0 ? -1 : v > 0 ? 1 : 0; };
        auto lower = [](std::string t) {
            for (auto &x : t)
                if (x >= 'A' && x <= 'Z') x += 32;
            return t;
        };
        auto order = [&](const char *what, int got, int back, int want) {
            stat("comparisons");
            if (sgn(got) != want || sgn(back) != -want) fail(fmt("compare:%s", what), fmt("'%s' '%s' %d %d: %d and %d, not %d", esc(z).c_str(), esc(y).c_str(), a, b, got, back, want));
        };
        order("string", string_compare(c, cy), string_compare(cy, c), sgn(z.compare(y)));
        order("string_nocase", string_nocase_compare(c, cy), string_nocase_compare(cy, c), sgn(lower(z).compare(lower(y))));
        b = r.chance(20) ? a : r.chance(50) ? (int)r.next() : a + (a < 0 ? 1 : -1);
        q = r.chance(20) ? p : r.chance(30) ? p ^ 1ull << r.below(64) : r.next();
        order("int", int_compare(&a, &b), int_compare(&b, &a), a < b ? -1 : a > b);
        order("ui64", ui64_compare(&p, &q), ui64_compare(&q, &p), p < q ? -1 : p > q);
        if ((int_equal(&a, &b) != 0) != (a == b)) fail("compare:int_equal", fmt("%d %d", a, b));
        if ((ui64_equal(&p, &q) != 0) != (p == q)) fail("compare:ui64_equal", num(p) + " " + num(q));
        std::vector<char> room(64);
        size_t i1 = r.below(64), i2 = r.below(64);
        order("pointer", pointer_compare(&room[i1], &room[i2]), pointer_compare(&room[i2], &room[i1]), i1 < i2 ? -1 : i1 > i2);
        if ((pointer_equal(&room[i1], &room[i2]) != 0) != (i1 == i2)) fail("compare:pointer_equal", "");
        if (pointer_hash(c) != pointer_hash(c) || !pointer_equal(c, c) || pointer_equal(c, c + 1)) fail("hash:pointer", "");
    }
}
int main(int c, char **v) { return run(c, v, one); }
