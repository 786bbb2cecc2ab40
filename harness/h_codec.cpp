// Every wire structure: random contents, encoded and decoded again, compared field by field.
#include "mb.hpp"
#include "mercury.h"
extern "C" {
#include "codec.h"
extern const struct ctype ctypes[]; extern const int nctypes; extern size_t vhg_used;
int w_metadata(uint64_t (*)(void), char *); int w_region(uint64_t (*)(void), char *); int w_query(uint64_t (*)(void), char *);
}
using namespace mb;
static hg_class_t *hc; static hg_context_t *hx; static std::vector<void *> mem; static std::vector<hg_bulk_t> bulks; static Rng *R;
static uint64_t rnd() { return R->next(); }
static const struct ctype *type(const char *n) { for (int i = 0; i < nctypes; i++) if (!strcmp(ctypes[i].name, n)) return &ctypes[i]; return nullptr; }
static void *take(size_t n) { void *p = malloc(n ? n : 1); mem.push_back(p); return p; }
static uint64_t num(Rng &r) { switch (r.below(6)) { case 0: return r.below(4); case 1: return 0; case 2: return ~0ull - r.below(3); default: return r.next(); } }
static void fill(Rng &r, const struct ctype *t, char *p)
{
    for (size_t i = 0; i < t->size; i++) p[i] = (char)r.next(); // padding too
    for (int i = 0; i < t->nf; i++) {
        const struct cfield &f = t->f[i]; char *q = p + f.off;
        switch (f.kind) {
        case K_INT: { uint64_t v = f.maxcount ? r.below(f.maxcount) : num(r); memcpy(q, &v, f.size); break; }
        case K_BOOL: *q = (char)r.below(2); break;
        case K_DBL: { double d = (double)(int64_t)r.next() / 977; memcpy(q, &d, 8); break; }
        case K_FLT: { float d = (float)(int64_t)r.next() / 977; memcpy(q, &d, 4); break; }
        case K_STR: { size_t n = r.chance(10) ? 0 : r.chance(10) ? r.below(5000) : r.below(40); char *s = (char *)take(n + 1); for (size_t k = 0; k < n; k++) s[k] = (char)(1 + r.below(255)); s[n] = 0; memcpy(q, &s, sizeof s); break; }
        case K_CHARS: { size_t n = r.chance(20) ? f.size - 1 : r.below(f.size); for (size_t k = 0; k < n; k++) q[k] = (char)(1 + r.below(255)); memset(q + n, 0, f.size - n); break; }
        case K_BULK: { size_t n = 1 + r.below(64); void *b = take(n); hg_size_t sz = n; hg_bulk_t h = nullptr; HG_Bulk_create(hc, 1, &b, &sz, r.chance(50) ? HG_BULK_READ_ONLY : HG_BULK_READWRITE, &h); bulks.push_back(h); memcpy(q, &h, sizeof h); break; }
        case K_SUB: fill(r, type(f.sub), q); break;
        default: break;
        }
    }
    for (int i = 0; i < t->nf; i++) if (t->f[i].kind == K_BLOB) {
        size_t n = t->f[i].len(p); char *b = (char *)take(n); for (size_t k = 0; k < n; k++) b[k] = (char)r.next();
        memcpy(p + t->f[i].off, &b, sizeof b);
    }
}
static bool cmp(const struct ctype *top, const std::string &path, const struct ctype *t, const char *a, const char *b)
{
    bool ok = true;
    auto bad = [&](const struct cfield &f, const char *what) { ok = false; fail(fmt("codec:%s", top->name), fmt("%s%s %s", path.c_str(), f.name, what)); };
    static const unsigned char POISON[8] = {0xA5, 0xA5, 0xA5, 0xA5, 0xA5, 0xA5, 0xA5, 0xA5};
    for (int i = 0; i < t->nf && ok; i++) {
        const struct cfield &f = t->f[i]; const char *x = a + f.off, *y = b + f.off;
        if (f.len && !f.len(a)) continue; // not sent
        if ((f.kind == K_STR || f.kind == K_BULK || f.kind == K_BLOB) && !memcmp(y, POISON, 8)) { bad(f, "is not decoded"); break; }
        switch (f.kind) {
        case K_INT: case K_BOOL: case K_DBL: case K_FLT: case K_RAW: if (memcmp(x, y, f.size)) bad(f, "differs"); stat("fields_compared"); break;
        case K_CHARS: if (strncmp(x, y, f.size)) bad(f, "differs"); stat("fields_compared"); break;
        case K_STR: { const char *s, *u; memcpy(&s, x, 8); memcpy(&u, y, 8); if (!u || strcmp(s, u)) bad(f, "(string) differs"); else if (u == s) bad(f, "was not copied"); stat("fields_compared"); break; }
        case K_BULK: { hg_bulk_t s, u; memcpy(&s, x, 8); memcpy(&u, y, 8); if (!u || HG_Bulk_get_size(s) != HG_Bulk_get_size(u)) bad(f, "(bulk) differs"); stat("fields_compared"); break; }
        case K_SUB: if (!cmp(top, path + f.name + ".", type(f.sub), x, y)) ok = false; break;
        case K_BLOB: { size_t n = f.len(a); const char *s, *u; memcpy(&s, x, 8); memcpy(&u, y, 8); if (f.len(b) != n) bad(f, "(length) differs"); else if (!u || memcmp(s, u, n)) bad(f, "(contents) differs"); stat("fields_compared"); break; }
        default: break;
        }
    }
    return ok;
}
static void one(Rng &r, const std::string &)
{
    R = &r;
    for (int i = 0; i < nctypes; i++) {
        const struct ctype *t = &ctypes[i]; if (!t->proc) continue;
        char *a = (char *)take(t->size), *b = (char *)take(t->size);
        fill(r, t, a); memset(b, 0xA5, t->size);
        std::string before(a, t->size);
        void *buf = nullptr; size_t len = 0;
        if (vhg_encode(t->proc, a, &buf, &len) != HG_SUCCESS) { fail(fmt("codec:%s", t->name), "encoding failed"); free(buf); continue; }
        if (before != std::string(a, t->size)) fail(fmt("codec:%s", t->name), "encoding changed the structure");
        char *exact = (char *)malloc(len ? len : 1); memcpy(exact, buf, len); free(buf);
        if (vhg_decode(t->proc, exact, len, b) != HG_SUCCESS) { fail(fmt("codec:%s", t->name), "decoding failed"); free(exact); continue; }
        if (vhg_used != len) fail(fmt("codec:%s", t->name), fmt("%lu of %lu bytes used", (unsigned long)vhg_used, (unsigned long)len));
        if (cmp(t, "", t, a, b)) stat("messages_round_tripped");
        stat("bytes_encoded", len); distinct("message_types", t->name); distincth("history", std::string(exact, len));
        free(exact); vhg_free(t->proc, b);
    }
    char why[400];
    for (int i = 0; i < 8; i++) {
        if (!w_metadata(rnd, why)) fail("codec:metadata", why); else stat("metadata_converted");
        if (!w_region(rnd, why)) fail("codec:region", why); else stat("regions_converted");
        if (!w_query(rnd, why)) fail("codec:query-tree", why); else stat("queries_converted");
    }
    for (auto h : bulks) HG_Bulk_free(h);
    bulks.clear();
    for (auto p : mem) free(p);
    mem.clear();
}
int main(int argc, char **argv)
{
    setenv("VHG_DIR", getenv("PV_TMP") ? getenv("PV_TMP") : "/tmp", 1);
    hc = HG_Init("ofi+tcp", HG_TRUE); hx = HG_Context_create(hc);
    for (int i = 0; i < nctypes; i++) { distinct("structures", ctypes[i].name); for (int k = 0; k < ctypes[i].nf; k++) if (ctypes[i].f[k].kind == K_PTR || ctypes[i].f[k].kind == K_OTHER) distinct("fields_not_compared", fmt("%s.%s", ctypes[i].name, ctypes[i].f[k].name)); }
    return run(argc, argv, one);
}
