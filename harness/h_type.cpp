// Data types: one number, one size, one name and one print format each, the same wherever the system asks.
#include "mb.hpp"
extern "C" {
int w_type_count(void); size_t w_type_size(int); const char *w_type_name(int); const char *w_type_enum_name(int); const char *w_type_format(int);
int w_type_by_enum_name(const char *); size_t w_size_of(void *, size_t, int, int); int w_element_size(int); int w_print(int, const void *, char *, size_t);
}
using namespace mb;
struct T { const char *en, *cn; size_t sz; int sgn; }; // sgn: 1 signed, 0 unsigned, 2 floating, 3 other
static const T types[] = {{"PDC_INT", "int", sizeof(int), 1}, {"PDC_FLOAT", "float", 4, 2}, {"PDC_DOUBLE", "double", 8, 2}, {"PDC_CHAR", "char", 1, 3}, {"PDC_STRING", "char*", sizeof(char *), 3}, {"PDC_BOOLEAN", "bool", sizeof(bool), 3}, {"PDC_SHORT", "short", sizeof(short), 1}, {"PDC_UINT", "unsigned int", sizeof(unsigned), 0}, {"PDC_INT64", "int64_t", 8, 1}, {"PDC_UINT64", "uint64_t", 8, 0}, {"PDC_INT16", "int16_t", 2, 1}, {"PDC_INT8", "int8_t", 1, 1}, {"PDC_UINT8", "uint8_t", 1, 0}, {"PDC_UINT16", "uint16_t", 2, 0}, {"PDC_INT32", "int32_t", 4, 1}, {"PDC_UINT32", "uint32_t", 4, 0}, {"PDC_LONG", "long", sizeof(long), 1}, {"PDC_VOID_PTR", "void*", sizeof(void *), 3}, {"PDC_SIZE_T", "size_t", sizeof(size_t), 0}};
static const int NT = sizeof types / sizeof *types;
static void one(Rng &r, const std::string &) {
    if (w_type_count() != NT) { fail("type:count", fmt("%d types instead of %d", w_type_count(), NT)); return; }
    for (int t = 0; t < NT; t++) {
        const T &x = types[t];
        if (w_type_size(t) != x.sz) fail("type:size", fmt("%s has size %zu instead of %zu", x.en, w_type_size(t), x.sz));
        if (!w_type_name(t) || strcmp(w_type_name(t), x.cn)) fail("type:name", fmt("%s is called %s", x.en, w_type_name(t)));
        if (!w_type_enum_name(t) || strcmp(w_type_enum_name(t), x.en)) fail("type:enum-name", fmt("type %d (%s) is called %s", t, x.en, w_type_enum_name(t)));
        if (w_type_by_enum_name(x.en) != t) fail("type:by-name", fmt("%s is type %d instead of %d", x.en, w_type_by_enum_name(x.en), t));
        // a string has no fixed size: what transfers and queries use for it is not specified here
        if (t != 4 && w_element_size(t) != (int)x.sz) fail("type:element-size", fmt("elements of %s have size %d in transfers, %zu in the type", x.en, w_element_size(t), x.sz));
        stat("type_facts", 5);
    }
    for (int i = 0; i < 6; i++) {
        int bad = r.chance(50) ? -(int)r.range(1, 1000000) : NT + (int)r.below(1000000);
        if (w_type_size(bad) != 0 || w_type_name(bad) || w_type_enum_name(bad)) fail("type:unknown", fmt("type %d has a size or a name", bad));
        std::string s = types[r.below(NT)].en;
        switch (r.below(5)) { case 0: s.pop_back(); break; case 1: s += (char)('A' + r.below(26)); break; case 2: s[r.below(s.size())] ^= 32; break; case 3: s = s.substr(r.below(s.size())); break; default: s = r.str(0, 12, "PDC_INTUSHORLG0123468"); }
        int want = -1; for (int t = 0; t < NT; t++) if (s == types[t].en) want = t;
        if (w_type_by_enum_name(s.c_str()) != want) fail("type:by-name", esc(s) + fmt(" is type %d", w_type_by_enum_name(s.c_str())));
        distincth("type", s + fmt("%d", bad));
    }
    for (int i = 0; i < 20; i++) {
        int t = (int)r.below(NT); const T &x = types[t];
        bool arr = r.chance(60);
        size_t n = arr ? r.below(40) : r.below(3);
        size_t want, got;
        if (t == 4) {
            std::vector<std::string> v; std::vector<char *> p; want = 0;
            for (size_t k = 0; k < (arr ? n : 1); k++) v.push_back(r.str(0, 30, "ab \xff%"));
            for (auto &s : v) { want += s.size() + 1; p.push_back(strdup(s.c_str())); }
            got = w_size_of(arr ? (void *)p.data() : (void *)p[0], n, arr, t);
            for (auto q : p) free(q);
        } else { want = arr ? n * x.sz : x.sz; std::vector<char> d(n * x.sz + 1); got = w_size_of(d.data(), n, arr, t); }
        if (got != want) fail("type:total-size", fmt("%zu values of %s (%s) take %zu bytes instead of %zu", n, x.en, arr ? "array" : "scalar", got, want));
        stat("type_totals");
        if (x.sgn < 2) { // what is printed is the value
            uint64_t raw = r.chance(30) ? ~0ull >> r.below(64) : r.next() >> r.below(64); char b[64] = "", e[64];
            w_print(t, &raw, b, sizeof b);
            if (x.sgn) snprintf(e, sizeof e, "%lld", (long long)((int64_t)(raw << (64 - 8 * x.sz)) >> (64 - 8 * x.sz))); else snprintf(e, sizeof e, "%llu", (unsigned long long)(x.sz == 8 ? raw : raw & ((1ull << 8 * x.sz) - 1)));
            if (strcmp(b, e)) fail("type:format", fmt("%s with %s printed as %s", x.en, e, b));
            stat("type_prints");
        } else if (x.sgn == 2) {
            double v = (double)r.range(-100000, 100000) / 8; float f = (float)v; char b[64] = "", e[64];
            w_print(t, t == 1 ? (void *)&f : (void *)&v, b, sizeof b); snprintf(e, sizeof e, "%f", v);
            if (strcmp(b, e)) fail("type:format", fmt("%s with %s printed as %s", x.en, e, b));
            stat("type_prints");
        }
        distincth("type", fmt("%d %d %zu %llx", t, arr, n, (unsigned long long)r.s));
    }
}
int main(int c, char **v) { return run(c, v, one); }
