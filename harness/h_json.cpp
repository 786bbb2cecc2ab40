// cJSON: a document model, printing and parsing back in every way, edits, malformed input in exactly sized blocks.
#include "mb.hpp"
#include <climits>
#include <cfloat>
#include <cmath>
#include <memory>
#include <strings.h>
extern "C" {
#include "cJSON.h"
}
using namespace mb;
struct J { int t; double d = 0; std::string s; std::vector<std::pair<std::string, J>> c; }; // t: 0 null 1 true 2 false 3 number 4 string 5 array 6 object
static bool numeq(double a, double b) { double m = std::max(fabs(a), fabs(b)); return a == b || fabs(a - b) <= m * DBL_EPSILON; }
static std::string bytes(Rng &r) {
    static const std::vector<std::string> w = {"", "a", "key", "Key", "KEY", "x\ny", "q\"uote", "back\\slash", "tab\t\b\f\r", "\x01\x1f", "caf\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "/slash", "\x7f", "u0041", "\xff\xfe"};
    if (r.chance(60)) return r.pick(w);
    std::string s;
    for (int n = r.range(0, r.chance(90) ? 12 : 300); n > 0; n--) s += (char)r.range(1, 255);
    return s;
}
static double num(Rng &r) {
    switch (r.below(9)) {
        case 0: return 0;
        case 1: return r.range(-100, 100);
        case 2: return (double)r.range(-2147483648LL, 2147483647LL);
        case 3: return (double)(int64_t)r.next();
        case 4: return r.unit();
        case 5: return (r.unit() - 0.5) * pow(10, r.range(-300, 300));
        case 6: return r.pick(std::vector<double>{2147483647, 2147483648.0, -2147483648.0, -2147483649.0, 1e15, 1e16, 9007199254740993.0, 1e308, 5e-324, 2.2250738585072014e-308, 1e-5, 0.1, 1.0 / 3, 123456789012345680.0, -0.5, 1e20, 1e21, 1e100});
        case 7: return r.range(-1000000, 1000000) / 1000.0;
        default: return r.range(0, 9) + 0.5;
    }
}
static J gen(Rng &r, int depth) {
    J j;
    j.t = depth <= 0 ? r.below(5) : r.chance(45) ? r.range(5, 6) : r.below(7);
    if (j.t == 3) j.d = num(r);
    if (j.t == 4) j.s = bytes(r);
    if (j.t >= 5) for (int n = r.range(0, depth > 2 ? 5 : 3); n > 0; n--) j.c.push_back({j.t == 6 ? bytes(r) : "", gen(r, depth - 1)});
    return j;
}
static cJSON *make(Rng &r, const J &j) {
    cJSON *o = nullptr;
    switch (j.t) {
        case 0: return cJSON_CreateNull();
        case 1: return r.chance(50) ? cJSON_CreateTrue() : cJSON_CreateBool(1);
        case 2: return r.chance(50) ? cJSON_CreateFalse() : cJSON_CreateBool(0);
        case 3: return cJSON_CreateNumber(j.d);
        case 4: return cJSON_CreateString(j.s.c_str());
        case 5: o = cJSON_CreateArray(); for (auto &x : j.c) cJSON_AddItemToArray(o, make(r, x.second)); return o;
        default:
            o = cJSON_CreateObject();
            for (auto &x : j.c) {
                const char *k = x.first.c_str();
                int t = x.second.t;
                bool conv = r.chance(40) && x.second.c.empty();
                if (conv && t == 0) cJSON_AddNullToObject(o, k);
                else if (conv && t == 1) cJSON_AddTrueToObject(o, k);
                else if (conv && t == 2) cJSON_AddBoolToObject(o, k, 0);
                else if (conv && t == 3) cJSON_AddNumberToObject(o, k, x.second.d);
                else if (conv && t == 4) cJSON_AddStringToObject(o, k, x.second.s.c_str());
                else if (conv && t == 5) cJSON_AddArrayToObject(o, k);
                else if (conv && t == 6) cJSON_AddObjectToObject(o, k);
                else cJSON_AddItemToObject(o, k, make(r, x.second));
            }
            return o;
    }
}
static std::string cmp(const J &j, const cJSON *o) { // empty: equal
    if (!o) return "missing item";
    int t = cJSON_IsNull(o) ? 0 : cJSON_IsTrue(o) ? 1 : cJSON_IsFalse(o) ? 2 : cJSON_IsNumber(o) ? 3 : cJSON_IsString(o) ? 4 : cJSON_IsArray(o) ? 5 : cJSON_IsObject(o) ? 6 : -1;
    if (t != j.t) return fmt("type %d instead of %d", t, j.t);
    if (t == 3) {
        if (!numeq(cJSON_GetNumberValue(o), j.d)) return fmt("number %.17g instead of %.17g", cJSON_GetNumberValue(o), j.d);
        int want = j.d >= 2147483647 ? 2147483647 : j.d <= -2147483648.0 ? (int)-2147483648LL : (int)o->valuedouble;
        if (o->valueint != want) return fmt("integer value %d of %.17g", o->valueint, j.d);
    }
    if (t == 4 && j.s != cJSON_GetStringValue(o)) return fmt("string '%s' instead of '%s'", esc(cJSON_GetStringValue(o)).c_str(), esc(j.s).c_str());
    if (t < 5) return o->child ? "a scalar with children" : "";
    if ((size_t)cJSON_GetArraySize(o) != j.c.size()) return fmt("%d items instead of %zu", cJSON_GetArraySize(o), j.c.size());
    size_t i = 0;
    const cJSON *prev = nullptr, *x;
    cJSON_ArrayForEach(x, o) {
        if (i >= j.c.size()) return "too many items";
        if (t == 6 && (!x->string || j.c[i].first != x->string)) return fmt("name '%s' instead of '%s'", x->string ? esc(x->string).c_str() : "(null)", esc(j.c[i].first).c_str());
        if (i && x->prev != prev) return "broken back link";
        if (cJSON_GetArrayItem(o, i) != x) return "item by index differs";
        std::string e = cmp(j.c[i].second, x);
        if (!e.empty()) return fmt("[%zu]", i) + e;
        prev = x; i++;
    }
    if (o->child && o->child->prev != prev) return "broken tail link";
    return "";
}
static bool hasnonfinite(const J &j) { if (j.t == 3 && !std::isfinite(j.d)) return true; for (auto &x : j.c) if (hasnonfinite(x.second)) return true; return false; }
static std::string blocks(const std::string &s, std::function<void(const char *, size_t)> f) { char *p = (char *)malloc(s.size() ? s.size() : 1); memcpy(p, s.data(), s.size()); f(p, s.size()); free(p); return ""; }
static std::string jesc(Rng &r, const std::string &s) { // an encoding of s with optional escapes
    std::string o;
    for (size_t i = 0; i < s.size(); i++) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32) { if (c == '\n' && r.chance(50)) o += "\\n"; else o += fmt("\\u%04x", c); }
        else if (c < 127 && r.chance(15)) o += fmt(r.chance(50) ? "\\u%04X" : "\\u%04x", c);
        else if (c == '/' && r.chance(50)) o += "\\/";
        else o += (char)c;
    }
    return o;
}
static std::string ws(Rng &r) { return r.chance(75) ? "" : r.str(1, 3, " \n\t\r"); }
static std::string text(Rng &r, const J &j) { // our own printer: any legal spelling
    switch (j.t) {
        case 0: return "null";
        case 1: return "true";
        case 2: return "false";
        case 3: return fmt("%.17g", j.d);
        case 4: return "\"" + jesc(r, j.s) + "\"";
        default: {
            std::string o = j.t == 5 ? "[" : "{";
            for (size_t i = 0; i < j.c.size(); i++) o += (i ? "," : "") + ws(r) + (j.t == 6 ? "\"" + jesc(r, j.c[i].first) + "\"" + ws(r) + ":" + ws(r) : "") + text(r, j.c[i].second) + ws(r);
            if (j.c.empty()) o += ws(r);
            return o + (j.t == 5 ? "]" : "}");
        }
    }
}
static void check(const char *what, const J &j, const std::string &txt) {
    blocks(txt, [&](const char *p, size_t n) {
        cJSON *o = cJSON_ParseWithLength(p, n);
        if (!o) fail(fmt("json:%s-rejected", what), esc(txt).substr(0, 300));
        else { std::string e = cmp(j, o); if (!e.empty()) fail(fmt("json:%s", what), e + " in " + esc(txt).substr(0, 300)); }
        cJSON_Delete(o);
        stat("json_parsed");
    });
}
static void edits(Rng &r, J j, cJSON *o) {
    // o holds j (array or object)
    for (int n = r.range(1, 12); n > 0; n--) {
        J nj = gen(r, 1);
        std::string k = bytes(r);
        int op = r.below(9);
        auto ifind = [&](const std::string &key, bool cs) { for (size_t i = 0; i < j.c.size(); i++) if (cs ? j.c[i].first == key : !strcasecmp(j.c[i].first.c_str(), key.c_str())) return (int)i; return -1; };
        std::string what;
        if (j.t == 5) {
            int i = r.range(0, (int)j.c.size());
            if (op <= 2) { what = "append"; cJSON_AddItemToArray(o, make(r, nj)); j.c.push_back({"", nj}); }
            else if (op == 3) { what = fmt("insert %d", i); cJSON_InsertItemInArray(o, i, make(r, nj)); j.c.insert(j.c.begin() + i, {"", nj}); }
            else if (op == 4 && i < (int)j.c.size()) { what = fmt("replace %d", i); cJSON_ReplaceItemInArray(o, i, make(r, nj)); j.c[i].second = nj; }
            else if (op == 5) { what = fmt("delete %d", i); cJSON_DeleteItemFromArray(o, i); if (i < (int)j.c.size()) j.c.erase(j.c.begin() + i); }
            else if (op == 6) { what = fmt("detach %d", i); cJSON *d = cJSON_DetachItemFromArray(o, i); if (i < (int)j.c.size()) { std::string e = cmp(j.c[i].second, d); if (!e.empty()) fail("json:detached", e); if (d && (d->next || d->prev)) fail("json:detached-links", what); j.c.erase(j.c.begin() + i); } else if (d) fail("json:detached", "an item that is not there"); cJSON_Delete(d); }
            else if (!j.c.empty()) { what = "number"; i = r.below(j.c.size()); cJSON *x = cJSON_GetArrayItem(o, i); if (cJSON_IsNumber(x)) { double v = num(r); cJSON_SetNumberValue(x, v); j.c[i].second.d = v; } else if (cJSON_IsString(x)) { std::string v = bytes(r); cJSON_SetValuestring(x, v.c_str()); j.c[i].second.s = v; } }
            if (cJSON_GetArrayItem(o, (int)j.c.size()) || cJSON_GetArrayItem(o, -1)) fail("json:index-outside", "an item outside the array");
        } else {
            bool cs = r.chance(60);
            if (!j.c.empty() && r.chance(60)) k = j.c[r.below(j.c.size())].first;
            int i = ifind(k, cs);
            cJSON *g = cs ? cJSON_GetObjectItemCaseSensitive(o, k.c_str()) : cJSON_GetObjectItem(o, k.c_str());
            if ((g != nullptr) != (i >= 0)) fail("json:lookup", fmt("'%s' found %d", esc(k).c_str(), g != nullptr));
            else if (g && cJSON_GetArrayItem(o, i) != g) fail("json:lookup", fmt("'%s' is another item than the first one of that name", esc(k).c_str()));
            if (!cs && !!cJSON_HasObjectItem(o, k.c_str()) != (i >= 0)) fail("json:has", esc(k));
            if (op <= 3) { what = "add " + k; if (r.chance(70)) cJSON_AddItemToObject(o, k.c_str(), make(r, nj)); else { static std::set<std::string> keep; auto it = keep.insert(k).first; cJSON_AddItemToObjectCS(o, it->c_str(), make(r, nj)); } j.c.push_back({k, nj}); }
            else if (op == 4) { what = "replace " + k; cJSON *x = make(r, nj); bool ok = cs ? cJSON_ReplaceItemInObjectCaseSensitive(o, k.c_str(), x) : cJSON_ReplaceItemInObject(o, k.c_str(), x); if (ok != (i >= 0)) fail("json:replace-result", what); if (i >= 0) j.c[i] = {k, nj}; else if (!ok) cJSON_Delete(x); }
            else if (op == 5) { what = "delete " + k; if (cs) cJSON_DeleteItemFromObjectCaseSensitive(o, k.c_str()); else cJSON_DeleteItemFromObject(o, k.c_str()); if (i >= 0) j.c.erase(j.c.begin() + i); }
            else if (op == 6) { what = "detach " + k; cJSON *d = cs ? cJSON_DetachItemFromObjectCaseSensitive(o, k.c_str()) : cJSON_DetachItemFromObject(o, k.c_str()); if ((d != nullptr) != (i >= 0)) fail("json:detached", what); if (d && i >= 0) { std::string e = cmp(j.c[i].second, d); if (!e.empty()) fail("json:detached", e); } if (i >= 0) j.c.erase(j.c.begin() + i); cJSON_Delete(d); }
            else if (op == 7 && g) { what = "detach pointer"; cJSON *d = cJSON_DetachItemViaPointer(o, g); if (d != g) fail("json:detached", what); j.c.erase(j.c.begin() + i); cJSON_Delete(d); }
        }
        stat("json_edits");
        std::string e = cmp(j, o);
        if (!e.empty()) { fail("json:edit", fmt("after '%s': ", esc(what).c_str()) + e); return; }
    }
    char *t = cJSON_PrintUnformatted(o);
    if (t) check("round-trip-after-edit", j, t); else fail("json:print", "nothing printed");
    free(t);
}
// Documents that share parts: a reference shows what it refers to, and deleting it leaves that alone.
static void references(Rng &r) {
    J ja{5}, jo{6};
    for (int n = r.range(1, 4); n > 0; n--) ja.c.push_back({"", gen(r, 1)}), jo.c.push_back({bytes(r), gen(r, 1)});
    cJSON *a = make(r, ja), *o = make(r, jo);
    J jall{5}, jown{6};
    cJSON *all = cJSON_CreateArray(), *own = cJSON_CreateObject();
    std::string str = bytes(r), k = bytes(r);
    static std::set<std::string> keep;
    const char *sp = keep.insert(str).first->c_str();
    for (int n = r.range(1, 6); n > 0; n--) {
        J x;
        cJSON *ref = nullptr;
        int w = r.below(5);
        if (w == 0) x = ja, ref = cJSON_CreateArrayReference(a->child);
        else if (w == 1) x = jo, ref = cJSON_CreateObjectReference(o->child);
        else if (w == 2) {
            x.t = 4, x.s = str, ref = cJSON_CreateStringReference(sp);
            if (cJSON_SetValuestring(ref, "") || strcmp(sp, str.c_str())) fail("json:reference-written", "a referenced string was changed through the reference");
        } else {
            x = w == 3 ? ja : jo;
            cJSON *what = w == 3 ? a : o;
            if (r.chance(50)) { if (!cJSON_AddItemReferenceToArray(all, what)) fail("json:reference", "not added"); jall.c.push_back({"", x}); }
            else { if (!cJSON_AddItemReferenceToObject(own, k.c_str(), what)) fail("json:reference", "not added"); jown.c.push_back({k, x}); }
            continue;
        }
        std::string e = cmp(x, ref);
        if (!e.empty()) fail("json:reference", e);
        if (r.chance(50)) cJSON_AddItemToArray(all, ref), jall.c.push_back({"", x});
        else cJSON_AddItemToObject(own, k.c_str(), ref), jown.c.push_back({k, x});
    }
    std::string e = cmp(jall, all) + cmp(jown, own);
    if (!e.empty()) fail("json:reference", e);
    cJSON *d = cJSON_Duplicate(r.chance(50) ? all : own, 1), *shallow = cJSON_Duplicate(o, 0);
    bool isall = cJSON_IsArray(d);
    if (!shallow || !cJSON_IsObject(shallow) || shallow->child) fail("json:duplicate", "a duplicate without its children has some");
    cJSON_Delete(shallow);
    char *t = cJSON_PrintUnformatted(isall ? all : own);
    if (t) check("round-trip-references", isall ? jall : jown, t);
    free(t);
    cJSON_Delete(all), cJSON_Delete(own);
    e = cmp(ja, a) + cmp(jo, o);
    if (!e.empty()) fail("json:reference-delete", "what was referred to changed: " + e);
    cJSON_Delete(a), cJSON_Delete(o);
    e = cmp(isall ? jall : jown, d); // a duplicate shares nothing
    if (!e.empty()) fail("json:duplicate", e);
    cJSON_Delete(d);
    stat("json_references");
}
// Parts given as text: printed as they are.
static void raw(Rng &r) {
    J j = gen(r, 2), doc{6}, x{1};
    std::string t = text(r, j), k = bytes(r);
    cJSON *o = cJSON_CreateObject();
    if (r.chance(50)) { if (!cJSON_AddRawToObject(o, k.c_str(), t.c_str())) fail("json:raw", "not added"); }
    else cJSON_AddItemToObject(o, k.c_str(), cJSON_CreateRaw(t.c_str()));
    if (!cJSON_IsRaw(cJSON_GetArrayItem(o, 0)) || cJSON_IsString(cJSON_GetArrayItem(o, 0))) fail("json:raw", "is of another type");
    if (!cJSON_AddFalseToObject(o, "f")) fail("json:add", "false");
    doc.c.push_back({k, j});
    x.t = 2;
    doc.c.push_back({"f", x});
    cJSON *d = cJSON_Duplicate(o, 1);
    if (k != "f" && k != "F" && !cJSON_Compare(o, d, 1)) fail("json:raw", "differs from its duplicate");
    for (cJSON *q : {o, d}) {
        char *p = r.chance(50) ? cJSON_Print(q) : cJSON_PrintUnformatted(q);
        if (!p || !strstr(p, t.c_str())) fail("json:raw", "is not printed as given"); else check("round-trip-raw", doc, p);
        free(p);
        cJSON_Delete(q);
    }
    stat("json_raw");
}
// Where parsing stopped, byte order marks, refused arguments.
static void positions(Rng &r) {
    J j = gen(r, 2);
    std::string t = text(r, j), lead = ws(r), mark = r.chance(40) ? "\xef\xbb\xbf" : "", tail = r.pick(std::vector<std::string>{"", " x", "]", "}", ",1", "\n"});
    if (j.t == 3 && tail == ",1") tail = " ,";
    std::string s = mark + lead + t + tail;
    char *c = strdup(s.c_str());
    const char *end = nullptr;
    cJSON *o = cJSON_ParseWithOpts(c, &end, 0);
    std::string e = cmp(j, o);
    if (!e.empty()) fail("json:parse-prefix", e + " in " + esc(s).substr(0, 200));
    else if (end != c + s.size() - tail.size()) fail("json:parse-end", fmt("ends %d bytes behind the value in ", (int)(end - c - (s.size() - tail.size()))) + esc(s).substr(0, 200));
    cJSON_Delete(o);
    bool blank = tail.find_first_not_of(" \n") == std::string::npos;
    o = cJSON_ParseWithOpts(c, &end, 1);
    if ((o != nullptr) != blank) fail("json:terminated", fmt("%s: ", o ? "accepted" : "refused") + esc(s).substr(0, 200));
    if (!o && (cJSON_GetErrorPtr() != end || end < c || end >= c + s.size())) fail("json:error-position", "is outside or not the one returned");
    if (!o && end != c + (s.size() - tail.size()) + (tail[0] == ' ')) fail("json:error-position", "is not where the surplus text begins in " + esc(s).substr(0, 200));
    cJSON_Delete(o);
    free(c);
    int iv[1] = {1};
    double dv[1] = {1};
    float fv[1] = {1};
    const char *pv[1] = {"x"};
    o = cJSON_CreateArray();
    cJSON *leftovers[] = {cJSON_CreateIntArray(iv, -1), cJSON_CreateIntArray(nullptr, 1), cJSON_CreateDoubleArray(dv, -1), cJSON_CreateDoubleArray(nullptr, 1), cJSON_CreateFloatArray(fv, -1), cJSON_CreateFloatArray(nullptr, 1), cJSON_CreateStringArray(pv, -1), cJSON_CreateStringArray(nullptr, 1), cJSON_Duplicate(nullptr, 1), cJSON_Parse(nullptr), cJSON_ParseWithLength(nullptr, 4), cJSON_ParseWithLength("x", 0), cJSON_GetArrayItem(nullptr, 0), cJSON_GetObjectItem(nullptr, "a"), cJSON_GetObjectItem(o, nullptr), cJSON_GetObjectItemCaseSensitive(nullptr, "a"), cJSON_GetObjectItemCaseSensitive(o, nullptr), cJSON_DetachItemViaPointer(o, nullptr), cJSON_DetachItemViaPointer(nullptr, o), cJSON_DetachItemFromArray(o, -1)};
    for (size_t i = 0; i < sizeof leftovers / sizeof *leftovers; i++) if (leftovers[i]) fail("json:refused", fmt("missing argument %zu gives an item", i));
    char small[4];
    if (cJSON_AddItemToArray(nullptr, o) || cJSON_AddItemToArray(o, nullptr) || cJSON_AddItemToArray(o, o) || cJSON_AddItemToObject(o, "a", o) || cJSON_AddItemToObject(o, nullptr, nullptr) || cJSON_AddItemReferenceToArray(nullptr, o) || cJSON_AddItemReferenceToArray(o, nullptr) || cJSON_AddItemReferenceToObject(nullptr, "a", o) || cJSON_AddItemReferenceToObject(o, nullptr, o) || cJSON_ReplaceItemViaPointer(nullptr, o, o) || cJSON_ReplaceItemInArray(o, -1, o) || cJSON_ReplaceItemInArray(o, 3, nullptr)) fail("json:refused", "an impossible edit is accepted");
    if (cJSON_Print(nullptr) || cJSON_PrintBuffered(o, -1, 0) || cJSON_PrintPreallocated(o, small, -1, 0) || cJSON_PrintPreallocated(o, nullptr, 4, 0) || cJSON_Compare(o, nullptr, 1) || cJSON_Compare(nullptr, o, 1) || cJSON_Compare(nullptr, nullptr, 1)) fail("json:refused", "nothing is printed or compared");
    if (cJSON_IsInvalid(nullptr) || cJSON_IsBool(nullptr) || cJSON_IsNull(nullptr) || cJSON_IsTrue(nullptr) || cJSON_IsFalse(nullptr) || cJSON_IsNumber(nullptr) || cJSON_IsString(nullptr) || cJSON_IsArray(nullptr) || cJSON_IsObject(nullptr) || cJSON_IsRaw(nullptr) || cJSON_GetStringValue(nullptr) || cJSON_GetStringValue(o) || !std::isnan(cJSON_GetNumberValue(o)) || cJSON_GetArraySize(nullptr) || cJSON_SetValuestring(o, "x")) fail("json:refused", "nothing has a type or value");
    if (cJSON_GetArraySize(o) != 0) fail("json:refused", "refused edits changed the array");
    cJSON_Delete(o);
    cJSON_Delete(nullptr);
    cJSON_Minify(nullptr);
    cJSON *tr = cJSON_CreateTrue(), *fa = cJSON_CreateFalse();
    if (!cJSON_IsBool(tr) || !cJSON_IsBool(fa) || cJSON_IsInvalid(tr)) fail("json:bool", "");
    cJSON_Delete(tr), cJSON_Delete(fa);
    stat("json_positions");
}
// Memory from the caller's allocator: all of it given back, and running out of it at any point does no harm.
static std::set<void *> g_live;
static long g_left, g_allocs, g_foreign;
static void *h_alloc(size_t n) {
    g_allocs++;
    if (g_left >= 0 && g_left-- == 0) { g_left = 0; return nullptr; }
    void *p = malloc(n);
    g_live.insert(p);
    return p;
}
static void h_free(void *p) {
    if (p && !g_live.erase(p)) g_foreign++;
    free(p);
}
static void starving(Rng &r) {
    J j = gen(r, 3), nj = gen(r, 1);
    std::string t = text(r, j);
    cJSON_Hooks h = {h_alloc, h_free};
    cJSON_InitHooks(&h);
    g_foreign = 0;
    long total = 0;
    for (int round = 0; round < 8; round++) {
        g_allocs = 0;
        g_left = round == 0 ? -1 : (long)r.below(total + 1);
        long limit = g_left;
        cJSON *o = cJSON_Parse(t.c_str());
        if (round == 0 && !o) fail("json:own-allocator", "not parsed");
        if (o) {
            std::string e = cmp(j, o);
            if (!e.empty()) fail("json:own-allocator", e);
            cJSON *d = cJSON_Duplicate(o, 1);
            if (d) { e = cmp(j, d); if (!e.empty()) fail("json:starved-duplicate", fmt("after %ld allocations: ", limit) + e); }
            char *a = r.chance(50) ? cJSON_Print(o) : cJSON_PrintBuffered(o, (int)r.range(1, 40), 1), *b = cJSON_PrintUnformatted(o);
            for (char *p : {a, b}) {
                if (!p) { if (limit < 0) fail("json:own-allocator", "not printed"); continue; }
                long keep = g_left;
                g_left = -1;
                check("starved-print", j, p);
                g_left = keep;
                cJSON_free(p);
            }
            if (j.t == 6 && d) {
                J dj = j;
                if (cJSON_AddStringToObject(d, "new", "text")) { J y{4}; y.s = "text"; dj.c.push_back({"new", y}); }
                if (cJSON_AddNumberToObject(d, "num", 3)) { J y{3}; y.d = 3; dj.c.push_back({"num", y}); }
                if (cJSON_AddArrayToObject(d, "arr")) dj.c.push_back({"arr", J{5}});
                if (cJSON_AddObjectToObject(d, "obj")) dj.c.push_back({"obj", J{6}});
                if (cJSON_AddNullToObject(d, "nul")) dj.c.push_back({"nul", J{0}});
                if (cJSON_AddTrueToObject(d, "tru")) dj.c.push_back({"tru", J{1}});
                if (cJSON_AddFalseToObject(d, "fal")) dj.c.push_back({"fal", J{2}});
                if (cJSON_AddRawToObject(d, "raw", "null")) dj.c.push_back({"raw", J{0}});
                if (cJSON_AddItemReferenceToObject(d, "ref", o)) dj.c.push_back({"ref", j});
                cJSON *q = cJSON_GetObjectItemCaseSensitive(d, "raw");
                if (!q || cJSON_IsRaw(q)) { if (q) q->type = cJSON_NULL | (q->type & ~0xFF), dj.c.size(); e = cmp(dj, d); if (!e.empty()) fail("json:starved-edit", e); }
            }
            int iv[3] = {1, 2, 3};
            const char *sv[3] = {"a", "b", "c"};
            float fv[3] = {1, 2.5, 3};
            J ji{5}, js{5}, jf{5};
            for (int i = 0; i < 3; i++) { J y{3}; y.d = iv[i]; ji.c.push_back({"", y}); y.d = fv[i]; jf.c.push_back({"", y}); J z{4}; z.s = sv[i]; js.c.push_back({"", z}); }
            cJSON *x = cJSON_CreateIntArray(iv, 3), *y = cJSON_CreateStringArray(sv, 3), *z = cJSON_CreateFloatArray(fv, 3);
            if (x) { e = cmp(ji, x); if (!e.empty()) fail("json:starved-array", e); }
            if (y) { e = cmp(js, y); if (!e.empty()) fail("json:starved-array", e); }
            if (z) { e = cmp(jf, z); if (!e.empty()) fail("json:starved-array", e); }
            if (limit < 0 && (!x || !y || !z || !d)) fail("json:own-allocator", "nothing created");
            cJSON_Delete(x), cJSON_Delete(y), cJSON_Delete(z), cJSON_Delete(d), cJSON_Delete(o);
        }
        if (round == 0) total = g_allocs;
        else stat(g_left == 0 ? "json_starved" : "json_not_starved");
        if (!g_live.empty()) { fail("json:own-allocator-leak", fmt("%zu blocks are left after running out at allocation %ld", g_live.size(), limit)); for (void *p : g_live) free(p); g_live.clear(); }
        if (g_foreign) { fail("json:foreign-block", "memory of another allocator was released"); break; }
    }
    g_left = -1;
    void *p = cJSON_malloc(10);
    if (!p || !g_live.count(p)) fail("json:own-allocator", "is not used");
    cJSON_free(p);
    cJSON_InitHooks(nullptr);
    long before = g_allocs;
    cJSON_Delete(cJSON_Parse("[1,\"a\"]"));
    if (g_allocs != before || g_foreign) fail("json:own-allocator", "is used after it was withdrawn");
    // one of the two only
    cJSON_Hooks half = {nullptr, nullptr};
    cJSON_InitHooks(&half);
    cJSON *q = cJSON_Parse(t.c_str());
    std::string e = cmp(j, q);
    if (!e.empty()) fail("json:own-allocator", e);
    cJSON_Delete(q);
    if (g_allocs != before) fail("json:own-allocator", "is used though none was given");
    cJSON_InitHooks(nullptr);
}
// A change of one part is noticed by a comparison.
static J *leaf(Rng &r, J &j) {
    J *p = &j;
    while (p->t >= 5 && !p->c.empty()) p = &p->c[r.below(p->c.size())].second;
    return p;
}
static void one(Rng &r, const std::string &) {
    if (r.chance(12)) references(r);
    if (r.chance(8)) raw(r);
    if (r.chance(12)) positions(r);
    if (r.chance(8)) starving(r);
    J j = gen(r, r.range(0, 5));
    cJSON *o = make(r, j);
    std::string e = cmp(j, o);
    if (!e.empty()) fail("json:create", e);
    char *a = cJSON_Print(o), *b = cJSON_PrintUnformatted(o), *c = cJSON_PrintBuffered(o, (int)r.range(0, 300), r.chance(50));
    if (!a || !b || !c) fail("json:print", "nothing printed");
    else {
        check("round-trip-formatted", j, a);
        check("round-trip-unformatted", j, b);
        check("round-trip-buffered", j, c);
        distincth("history", b);
        sample(std::string(b).substr(0, 150));
        size_t need = strlen(b), n = need + 1 + (r.chance(70) ? r.range(5, 64) : 0) - (r.chance(30) ? r.below(need + 1) : 0);
        char *pre = (char *)malloc(n ? n : 1);
        if (n) {
            cJSON_bool ok = cJSON_PrintPreallocated(o, pre, (int)n, 0);
            if (ok && strcmp(pre, b)) fail("json:preallocated", "differs from the unformatted text");
            if (!ok && n >= need + 6) fail("json:preallocated", fmt("%zu bytes do not take %zu", n, need));
            if (ok && n < need + 1) fail("json:preallocated", "fits into too little");
        }
        free(pre);
        char *m = strdup(a);
        cJSON_Minify(m);
        if (strcmp(m, b)) fail("json:minify", esc(m).substr(0, 200) + " instead of " + esc(b).substr(0, 200));
        free(m);
    }
    std::string own = text(r, j);
    check("parse", j, own);
    check("parse-padded", j, ws(r) + own + ws(r));
    // duplicates and comparison
    cJSON *d = cJSON_Duplicate(o, 1);
    e = cmp(j, d);
    if (!e.empty()) fail("json:duplicate", e);
    auto dupkeys = [&](auto &&self, const J &x) -> bool { std::set<std::string> s; for (auto &y : x.c) { if (x.t == 6) { std::string l = y.first; for (auto &ch : l) ch = (char)tolower((unsigned char)ch); if (!s.insert(l).second) return true; } if (self(self, y.second)) return true; } return false; };
    if (!dupkeys(dupkeys, j)) {
        if (!cJSON_Compare(o, d, 1) || !cJSON_Compare(d, o, 0)) fail("json:compare", "a document differs from its duplicate");
        J ch = j;
        J *l = leaf(r, ch);
        if (l->t == 3 && r.chance(60)) l->d = l->d == 0 ? 1 : l->d * 1.5;
        else if (l->t == 4 && r.chance(60)) { if (l->s.empty() || r.chance(30)) l->s += "x"; else l->s[r.below(l->s.size())] ^= 1; if (l->s.find('\0') != std::string::npos) l->s += "y", l->s.erase(l->s.find('\0'), 1); }
        else { int nt = (l->t + 1 + (int)r.below(4)) % 5; *l = J{nt}; }
        if (!(l->t == 3 && !std::isfinite(l->d))) {
            cJSON *o3 = make(r, ch);
            if (cJSON_Compare(o, o3, 1) || cJSON_Compare(o3, o, 0)) fail("json:compare", "a document equals a changed one");
            stat("json_compared_changed");
            cJSON_Delete(o3);
        }
        J up = j;
        std::function<bool(J &)> flip = [&](J &x) { bool any = false; for (auto &y : x.c) { if (x.t == 6) for (auto &cc : y.first) if (isalpha((unsigned char)cc) && (unsigned char)cc < 128) cc ^= 32, any = true; any |= flip(y.second); } return any; };
        if (flip(up)) {
            cJSON *o3 = make(r, up);
            if (!cJSON_Compare(o, o3, 0) || cJSON_Compare(o, o3, 1)) fail("json:compare", "names in other case");
            cJSON_Delete(o3);
        }
        J j2 = gen(r, 2);
        cJSON *o2 = make(r, j2);
        char *x = cJSON_PrintUnformatted(o2);
        if (x && b && j.t != j2.t && cJSON_Compare(o, o2, 1)) fail("json:compare", "documents of different type are equal");
        if (j.t >= 5 && cJSON_GetArraySize(o) != cJSON_GetArraySize(o2) && j2.t == j.t && (cJSON_Compare(o, o2, 1) || cJSON_Compare(o2, o, 1))) fail("json:compare", "containers of different size are equal");
        free(x); cJSON_Delete(o2);
    }
    if (j.t >= 5) {
        edits(r, j, d);
        e = cmp(j, o);
        if (!e.empty()) fail("json:duplicate-not-independent", e);
    }
    cJSON_Delete(d);
    // malformed input
    auto reject = [&](const char *what, const std::string &s) {
        blocks(s, [&](const char *p, size_t n) { const char *end = nullptr; cJSON *q = cJSON_ParseWithLengthOpts(p, n, &end, 0); stat("json_malformed"); if (q) fail(fmt("json:accepts-%s", what), esc(s).substr(0, 200)); if (n && end && (end < p || end > p + n)) fail("json:error-position", "outside the input"); cJSON_Delete(q); });
    };
    if (b && j.t >= 4) {
        std::string t = r.chance(50) ? b : own.c_str();
        if (t.find('\0') == std::string::npos && !t.empty()) {
            size_t first = t.find_first_of("[{\""), cut = first + r.below(t.size() - first);
            if (first == 0) reject("truncated", t.substr(0, cut));
            std::string z = t.substr(0, r.below(t.size())); z.push_back(0);
            if (first == 0) reject("truncated", z);
        }
    }
    reject("empty", "");
    reject("nonsense", r.pick(std::vector<std::string>{"nul", "tru", "falsy", "]", "}", ",", ":", "[1,]", "[,1]", "[1 2]", "{\"a\"}", "{\"a\":}", "{\"a\" 1}", "{a:1}", "{\"a\":1,}", "{,}", "[1", "{\"a\":1", "\"abc", "\"a\\", "\"\\x\"", "\"\\u12\"", "\"\\ud800\"", "\"\\udc00\"", "\"\\ud800\\u0041\"", "\"\\udfff\"", "\"\\udc01\\udc00\"", "\"\\udbff\"", "\"\\udbff\\udbff\"", "\"\\ud800\\ue000\"", "\"\\ud800\\ud800\"", "\"\\uDFFF\\uDFFF\"", "[[[", "{\"a\":[}", "[}", "{]", "-", "+", ".", "[-]", "\"\\ud83d", "\"\\ud83d\\u", "\"\\u"}));
    {
        std::string s = own + r.pick(std::vector<std::string>{"x", " 1", "]", ",", "{}"});
        if (j.t != 3) { const char *end; cJSON *q = cJSON_ParseWithOpts(s.c_str(), &end, 1); if (q) fail("json:accepts-trailing", esc(s).substr(0, 100)); cJSON_Delete(q); }
        for (int q = 0; q < 4; q++) { // numbers of up to 63 characters, exponents included
            std::string t = r.chance(40) ? "-" : "", dig = "0123456789";
            int n = r.range(1, r.chance(50) ? 55 : 20), dot = r.chance(60) ? r.below(n + 1) : -1;
            bool zeros = r.chance(40);
            for (int i = 0; i < n; i++) { if (i == dot && i) t += '.'; t += i == 0 && n > 1 && dot != 1 ? (char)('1' + r.below(9)) : zeros && i < n - 4 ? '0' : dig[r.below(10)]; }
            if (r.chance(40)) t += fmt(r.chance(50) ? "e%d" : "E%+d", (int)r.range(0, 120) - 60);
            const char *end = nullptr;
            cJSON *u = cJSON_ParseWithOpts(t.c_str(), &end, 1);
            double w = strtod(t.c_str(), nullptr);
            stat("json_number_texts");
            if (!u) fail("json:number-text", t + " is rejected");
            else if (!cJSON_IsNumber(u) || cJSON_GetNumberValue(u) != w || (fabs(w) < 2e9 && u->valueint != (int)w) || (w >= INT_MAX && u->valueint != INT_MAX) || (w <= INT_MIN && u->valueint != INT_MIN)) fail("json:number-text", t + fmt(" is read as %.17g (%d)", cJSON_GetNumberValue(u), u->valueint));
            cJSON_Delete(u);
        }
        { // escapes of arbitrary code points, boundaries included
            std::string t = "\"", w;
            for (int q = 0; q < 12; q++) {
                static const std::vector<int> edge = {0x01, 0x1f, 0x20, 0x7e, 0x7f, 0x80, 0x81, 0xff, 0x100, 0x7fe, 0x7ff, 0x800, 0x801, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10001, 0x103ff, 0x10400, 0xfffff, 0x100000, 0x10ffff};
                int c = r.chance(60) ? r.pick(edge) : r.chance(50) ? (int)r.range(1, 0xd7ff) : (int)r.range(0xe000, 0x10ffff);
                const char *f = r.chance(50) ? "\\u%04x" : "\\u%04X";
                if (c < 0x10000) t += fmt(f, c); else t += fmt(f, 0xd800 + ((c - 0x10000) >> 10)) + fmt(f, 0xdc00 + ((c - 0x10000) & 0x3ff));
                if (c < 0x80) w += (char)c;
                else if (c < 0x800) { w += (char)(0xc0 | c >> 6); w += (char)(0x80 | (c & 63)); }
                else if (c < 0x10000) { w += (char)(0xe0 | c >> 12); w += (char)(0x80 | (c >> 6 & 63)); w += (char)(0x80 | (c & 63)); }
                else { w += (char)(0xf0 | c >> 18); w += (char)(0x80 | (c >> 12 & 63)); w += (char)(0x80 | (c >> 6 & 63)); w += (char)(0x80 | (c & 63)); }
            }
            t += "\"";
            cJSON *u = cJSON_Parse(t.c_str());
            stat("json_unicode");
            if (!u || w != cJSON_GetStringValue(u)) fail("json:unicode", t + " decodes wrongly");
            cJSON_Delete(u);
        }
        // surrogate pairs
        cJSON *q = cJSON_Parse("\"\\ud83d\\ude00\\u20AC\\u00e9\"");
        if (!q || strcmp(cJSON_GetStringValue(q), "\xf0\x9f\x98\x80\xe2\x82\xac\xc3\xa9")) fail("json:unicode", "escapes decode wrongly");
        cJSON_Delete(q);
    }
    for (int n = 0; n < 6; n++) { // arbitrary corruption: no memory error, and what is accepted is stable
        std::string s = own;
        for (int k = r.range(1, 4); k > 0; k--) {
            size_t p = r.below(s.size() + 1);
            int w = r.below(4);
            if (w == 0) s.insert(p, r.pick(std::vector<std::string>{"\"", "\\", "[", "{", "}", "]", ",", ":", "\\u", "1e5", "-", "\xff", std::string(1, '\0'), "\xef\xbb\xbf", "null"}));
            else if (w == 1 && p < s.size()) s.erase(p, r.range(1, 3));
            else if (w == 2 && p < s.size()) s[p] = (char)r.next();
            else s = s.substr(0, p);
        }
        blocks(s, [&](const char *p, size_t nn) {
            cJSON *q = cJSON_ParseWithLength(p, nn);
            stat("json_corrupt");
            if (q) {
                stat("json_corrupt_accepted");
                char *x = cJSON_PrintUnformatted(q);
                cJSON *q2 = x ? cJSON_Parse(x) : nullptr;
                char *y = q2 ? cJSON_PrintUnformatted(q2) : nullptr;
                if (!x || !q2 || !y || strcmp(x, y)) fail("json:print-not-stable", esc(s).substr(0, 200));
                free(x); free(y); cJSON_Delete(q2);
            }
            cJSON_Delete(q);
        });
    }
    if (r.chance(3)) {
        int depth = r.range(900, 1300);
        std::string s(depth, '['); s += std::string(depth, ']');
        cJSON *q = cJSON_Parse(s.c_str());
        if ((q != nullptr) != (depth <= CJSON_NESTING_LIMIT)) fail("json:nesting", fmt("depth %d", depth));
        cJSON_Delete(q);
    }
    if (r.chance(20)) {
        int n = r.range(0, 12);
        std::vector<int> iv; std::vector<double> dv; std::vector<float> fv; std::vector<std::string> sv; std::vector<const char *> pv;
        J ji{5}, jd{5}, js{5};
        for (int i = 0; i < n; i++) { iv.push_back((int)r.next()); dv.push_back(num(r)); sv.push_back(bytes(r)); }
        for (int i = 0; i < n; i++) { pv.push_back(sv[i].c_str()); J x{3}; x.d = iv[i]; ji.c.push_back({"", x}); x.d = dv[i]; jd.c.push_back({"", x}); J y{4}; y.s = sv[i]; js.c.push_back({"", y}); }
        if (n) {
            cJSON *x = cJSON_CreateIntArray(iv.data(), n), *y = cJSON_CreateDoubleArray(dv.data(), n), *z = cJSON_CreateStringArray(pv.data(), n);
            for (auto &q : {cmp(ji, x), cmp(jd, y), cmp(js, z)}) if (!q.empty()) fail("json:array-create", q);
            cJSON_Delete(x); cJSON_Delete(y); cJSON_Delete(z);
        }
    }
    free(a); free(b); free(c);
    cJSON_Delete(o);
}
int main(int c, char **v) { return run(c, v, one); }
