// String and tag patterns, key=value splitting, slicing, generated queries; every input lives in an exactly sized heap block.
#include "mb.hpp"
extern "C" {
#include "query_utils.h"
#include "string_utils.h"
extern const char *VISIBLE_ALPHABET;
}
using namespace mb;
struct Z { // exactly sized, zero-terminated heap copy
    char *p;
    Z(const std::string &s) { p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); }
    ~Z() { free(p); }
    operator char *() { return p; }
};
static std::string take(char *p) { std::string s = p ? p : "(null)"; free(p); return s; }
static bool sw(const std::string &s, const std::string &p) { return s.compare(0, p.size(), p) == 0 && s.size() >= p.size(); }
static bool ew(const std::string &s, const std::string &p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
static int m_match(const std::string &s, const std::string &p) {
    bool a = !p.empty() && p[0] == '*', b = !p.empty() && p.back() == '*';
    if (p == "*") return -1; // a bare star: not specified
    if (a && b) return s.find(p.substr(1, p.size() - 2)) != std::string::npos;
    if (a) return ew(s, p.substr(1));
    if (b) return sw(s, p.substr(0, p.size() - 1));
    return s == p;
}
static std::string alpha(Rng &r) { static const std::vector<std::string> a = {"ab", "ab*", "abc_/.-012", "xyz*=,", "a\xc3\xa9\xff\x80z"}; return r.pick(a); }
static std::string pat(Rng &r, const std::string &s, const std::string &al) {
    std::string t;
    if (!s.empty() && r.chance(75)) { size_t i = r.below(s.size()), n = r.below(s.size() - i + 1); t = r.chance(30) ? s : s.substr(r.chance(30) ? 0 : i, n); } else t = r.str(0, 5, al);
    if (r.chance(50)) t = "*" + t;
    if (r.chance(50)) t += "*";
    return t;
}
static void one(Rng &r, const std::string &) {
    std::string al = alpha(r);
    for (int t = 0; t < 60; t++) {
        std::string s = r.str(0, 10, al), p = pat(r, s, al);
        Z zs(s), zp(p);
        distincth("history", s + "\1" + p);
        int m = m_match(s, p), g = simple_matches(zs, zp);
        if (m >= 0 && (g != 0) != (m != 0)) fail("str:simple_matches", fmt("'%s' against '%s': %d", esc(s).c_str(), esc(p).c_str(), g));
        stat("match_evals"); if (m > 0) stat("match_true");
        pattern_type_t pt = determine_pattern_type(zp);
        bool a = !p.empty() && p[0] == '*', b = !p.empty() && p.back() == '*';
        if (pt != (a ? (b ? PATTERN_MIDDLE : PATTERN_SUFFIX) : (b ? PATTERN_PREFIX : PATTERN_EXACT))) fail("str:pattern_type", esc(p));
        if (!!startsWith(zs, zp) != sw(s, p)) fail("str:startsWith", fmt("'%s' '%s'", esc(s).c_str(), esc(p).c_str()));
        if (!!endsWith(zs, zp) != ew(s, p)) fail("str:endsWith", fmt("'%s' '%s'", esc(s).c_str(), esc(p).c_str()));
        if (!!contains(zs, zp) != (s.find(p) != std::string::npos)) fail("str:contains", fmt("'%s' '%s'", esc(s).c_str(), esc(p).c_str()));
        if (!!equals(zs, zp) != (s == p)) fail("str:equals", fmt("'%s' '%s'", esc(s).c_str(), esc(p).c_str()));
        if (startsWith(nullptr, zp) || startsWith(zs, nullptr) || endsWith(nullptr, zp) || endsWith(zs, nullptr) || simple_matches(nullptr, zp) || simple_matches(zs, nullptr)) fail("str:null", "a missing string matches");
        size_t pos = s.find(p);
        if (indexOfStr(zs, zp) != (pos == std::string::npos ? -1 : (int)pos)) fail("str:indexOfStr", fmt("'%s' '%s'", esc(s).c_str(), esc(p).c_str()));
        char c = al[r.below(al.size())];
        pos = s.find(c);
        if (indexOf(zs, c) != (pos == std::string::npos ? -1 : (int)pos)) fail("str:indexOf", fmt("'%s' '%c'", esc(s).c_str(), c));
        int i = (int)r.range(-2, 13), j = (int)r.range(-2, 13);
        bool ok = i >= 0 && j >= i && i <= (int)s.size();
        char *sub = substring(zs, i, j);
        std::string want = ok ? s.substr(i, j - i) : "";
        if (ok ? (!sub || want != sub) : (sub && *sub)) fail("str:substring", fmt("'%s' from %d to %d: '%s'", esc(s).c_str(), i, j, sub ? esc(sub).c_str() : "(null)"));
        free(sub);
        int st = r.below(s.size() + 1);
        if (take(substr(zs, st)) != s.substr(st)) fail("str:substr", fmt("'%s' from %d", esc(s).c_str(), st));
        if (take(subrstr(zs, st)) != s.substr(0, st)) fail("str:subrstr", fmt("'%s' to %d", esc(s).c_str(), st));
        if (take(reverse_str(zs)) != std::string(s.rbegin(), s.rend())) fail("str:reverse", esc(s));
        if (r.chance(1)) { // printed lines
            std::string f = std::string(getenv("PV_TMP") ? getenv("PV_TMP") : "/tmp") + "/line", o;
            bool err = r.chance(50);
            { Swap w(err ? 2 : 1, f, O_WRONLY | O_CREAT | O_TRUNC); if (err) stderr_println("%s|%d|%s", (char *)zs, i, (char *)zp); else println("%s|%d|%s", (char *)zs, i, (char *)zp); }
            if ((o = content(f)) != s + "|" + std::to_string(i) + "|" + p + "\n") fail("str:println", esc(s) + " printed as " + esc(o));
            stat("printed_lines");
        }
        if (take(dsprintf("%s|%d|%s", (char *)zs, i, (char *)zp)) != s + "|" + std::to_string(i) + "|" + p) fail("str:dsprintf", esc(s));
        // key and value of a condition
        std::string kv = r.str(0, 12, al + "=");
        Z zk(kv);
        size_t e = kv.find('=');
        char *gk = get_key(zk, '='), *gv = get_value(zk, '=');
        if (e == std::string::npos ? (gk || gv) : (!gk || !gv || kv.substr(0, e) != gk || kv.substr(e + 1) != gv)) fail("str:key_value", fmt("'%s' -> '%s' '%s'", esc(kv).c_str(), gk ? gk : "(null)", gv ? gv : "(null)"));
        free(gk); free(gv);
        // splitting on a literal delimiter
        std::string dl = r.pick(std::vector<std::string>{",", "=", ";;", "_", " , ", "::"});
        std::vector<std::string> parts;
        for (int n = r.range(1, 6); n > 0; n--) parts.push_back(r.str(0, 5, "abcd01"));
        std::string joined;
        for (size_t k = 0; k < parts.size(); k++) joined += (k ? dl : "") + parts[k];
        Z zj(joined), zd(dl);
        char **res = nullptr; int rl = -1;
        int rc = split_string(zj, zd, &res, &rl);
        bool good = rc == (int)parts.size() && rl == rc;
        for (size_t k = 0; good && k < parts.size(); k++) good = parts[k] == res[k];
        if (!good) fail("str:split", fmt("'%s' by '%s': %d parts", joined.c_str(), dl.c_str(), rl));
        if (res) { for (int k = 0; k < rl; k++) free(res[k]); free(res); }
        // a delimiter may be a set of characters; bad arguments are refused
        std::string many;
        for (size_t k = 0; k < parts.size(); k++) many += (k ? r.pick(std::vector<std::string>{",", ";", "="}) : "") + parts[k];
        Z zm(many);
        res = nullptr, rl = -1;
        rc = split_string(zm, "[,;=]", &res, &rl);
        good = rc == (int)parts.size() && rl == rc;
        for (size_t k = 0; good && k < parts.size(); k++) good = parts[k] == res[k];
        if (!good) fail("str:split-set", fmt("'%s': %d parts", many.c_str(), rl));
        if (res) { for (int k = 0; k < rl; k++) free(res[k]); free(res); }
        if (t % 20 == 0) {
            res = nullptr;
            if (split_string(nullptr, zd, &res, &rl) != -1 || split_string(zj, nullptr, &res, &rl) != -1 || split_string(zj, zd, nullptr, &rl) != -1 || split_string(zj, zd, &res, nullptr) != -1 || res) fail("str:split-null", "a missing argument is accepted");
            if (split_string(zj, "[", &res, &rl) != -1 || res) fail("str:split-bad-delimiter", "");
            if (reverse_str(nullptr) || substring(nullptr, 0, 1)) fail("str:null-slice", "");
        }
        stat("str_ops", 19);
    }
    // tag lists
    for (int t = 0; t < 20; t++) {
        std::vector<std::pair<std::string, std::string>> tags;
        std::string list;
        std::string ka = r.chance(50) ? "ab" : "abct_", va = "01-9a";
        for (int n = r.range(0, 7); n > 0; n--) {
            std::string key = r.str(1, 5, ka), v = r.chance(60) ? std::to_string((int)r.range(-50, 500)) : r.str(0, 5, r.chance(50) ? va : "1a=");
            if (!list.empty()) list += r.chance(10) ? ",," : ",";
            if (r.chance(8)) { list += key; continue; } // a piece without value is no tag
            list += key + "=" + v;
            tags.push_back({key, v});
        }
        Z zl(list);
        for (int q = 0; q < 8; q++) {
            std::string kp = tags.empty() || r.chance(30) ? pat(r, r.str(1, 4, ka), ka) : pat(r, r.pick(tags).first, ka), vp = tags.empty() || r.chance(30) ? pat(r, r.str(1, 4, va), va) : pat(r, r.pick(tags).second, va);
            if (kp == "*" || vp == "*") continue;
            Z zk(kp), zv(vp);
            std::string wk = "(null)", wkv = "(null)";
            std::string first;
            for (auto &x : tags) {
                if (wk == "(null)" && m_match(x.first, kp) == 1) { wk = x.first + "=" + x.second; first = x.second; }
                if (wkv == "(null)" && m_match(x.first, kp) == 1 && m_match(x.second, vp) == 1) wkv = x.first + "=" + x.second;
            }
            char *a = k_v_matches_p(zl, zk, nullptr), *b = k_v_matches_p(zl, zk, zv);
            std::string ga = a ? a : "(null)", gb = b ? b : "(null)";
            stat("taglist_evals", 2); if (a) stat("taglist_true"); if (b) stat("taglist_true");
            if (ga != wk) fail("str:tag-key-match", fmt("'%s' key '%s': '%s', expected '%s'", list.c_str(), kp.c_str(), ga.c_str(), wk.c_str()));
            if (gb != wkv) fail("str:tag-key-value-match", fmt("'%s' key '%s' value '%s': '%s', expected '%s'", list.c_str(), kp.c_str(), vp.c_str(), gb.c_str(), wkv.c_str()));
            if (!!has_tag_p(zl, zk) != (wk != "(null)") || !!has_tag(zl, zk) != (wk != "(null)")) fail("str:has_tag", fmt("'%s' key '%s'", list.c_str(), kp.c_str()));
            if (!!is_value_match_p(zl, zk, zv) != (wkv != "(null)") || !!is_value_match(zl, zk, zv) != (wkv != "(null)")) fail("str:is_value_match", fmt("'%s' '%s' '%s'", list.c_str(), kp.c_str(), vp.c_str()));
            int lo = r.range(-60, 500), hi = lo + r.range(0, 300);
            if (wk != "(null)" && !first.empty() && first.find_first_not_of("0123456789") == std::string::npos && r.chance(50)) { lo = atoi(first.c_str()) + r.range(-1, 1); hi = lo + r.range(0, 1); }
            bool want = wk != "(null)" && atoi(first.c_str()) >= lo && atoi(first.c_str()) <= hi;
            if (!!is_value_in_range(zl, zk, lo, hi) != want) fail("str:value_range", fmt("'%s' key '%s' in %d..%d", list.c_str(), kp.c_str(), lo, hi));
            stat("range_evals"); if (want) stat("range_true");
        }
        if (t == 0) sample(esc(list));
    }
    // generated queries match the tag they are generated from
    for (int t = 0; t < 20; t++) {
        pdc_kvtag_t tag;
        memset(&tag, 0, sizeof tag);
        std::string name = r.str(1, 12, "abcxyz_09"), val = r.str(1, 12, "abcxyz_09");
        bool isint = r.chance(40);
        int iv = r.range(-1000, 100000);
        tag.name = strdup(name.c_str());
        if (isint) { int *x = (int *)malloc(sizeof(int)); *x = iv; tag.value = x; tag.type = PDC_INT; tag.size = sizeof(int); }
        else { tag.value = strdup(val.c_str()); tag.type = PDC_STRING; tag.size = val.size() + 1; }
        query_gen_input_t in;
        memset(&in, 0, sizeof in);
        in.base_tag = &tag;
        in.key_query_type = r.below(4);
        in.value_query_type = isint ? r.range(4, 5) : r.below(4);
        in.affix_len = r.range(1, 15);
        in.range_lo = iv - (int)r.below(100); in.range_hi = iv + (int)r.below(100);
        query_gen_output_t out;
        memset(&out, 0, sizeof out);
        bool bad = r.chance(10);
        if (bad) {
            if (isint) in.value_query_type = r.pick(std::vector<int>{0, 1, 2, 3, 6, 9});
            else if (r.chance(50)) in.key_query_type = r.pick(std::vector<int>{4, 5, 9});
            else in.value_query_type = r.pick(std::vector<int>{4, 5, 9});
            stat("generate_refused");
        }
        gen_query_key_value(&in, &out);
        std::string wname = name.size() < 3 ? std::string(3, name[0]) : name, wval = val.size() < 3 ? std::string(3, val[0]) : val;
        if (wname != tag.name || (isint ? *(int *)tag.value != iv : wval != (char *)tag.value)) fail("str:generate-tag", fmt("tag '%s'='%s' became '%s'", name.c_str(), val.c_str(), tag.name));
        if (bad) {
            if (out.key_query || out.value_query) fail("str:generate-bad-type", fmt("key type %d, value type %d give a query", in.key_query_type, in.value_query_type));
            continue;
        }
        stat("generated_queries");
        std::string what = fmt("tag '%s'='%s' types %d/%d affix %d", name.c_str(), isint ? std::to_string(iv).c_str() : val.c_str(), in.key_query_type, in.value_query_type, in.affix_len);
        if (!out.key_query || !out.value_query) { fail("str:generate", what + ": nothing generated"); continue; }
        std::string kq = out.key_query, vq = out.value_query;
        if (out.key_query_len != kq.size() || out.value_query_len != vq.size()) fail("str:generate-length", fmt("%s: '%s' %zu '%s' %zu", what.c_str(), kq.c_str(), out.key_query_len, vq.c_str(), out.value_query_len));
        static const pattern_type_t pts[4] = {PATTERN_EXACT, PATTERN_PREFIX, PATTERN_SUFFIX, PATTERN_MIDDLE};
        if (m_match(tag.name, kq) != 1 || determine_pattern_type(kq.c_str()) != pts[in.key_query_type]) fail("str:generate-key", what + ": " + kq);
        size_t al2 = std::min<size_t>(in.affix_len, strlen(tag.name)), stars = in.key_query_type == 0 ? 0 : in.key_query_type == 3 ? 2 : 1;
        if (kq.size() != (stars ? al2 + stars : strlen(tag.name))) fail("str:generate-affix", what + ": " + kq);
        al2 = std::min<size_t>(in.affix_len, strlen(tag.name));
        if (kq != (stars == 0 ? wname : std::string(in.key_query_type != 1 ? "*" : "") + (in.key_query_type == 1 ? wname.substr(0, al2) : wname.substr(wname.size() - al2)) + (in.key_query_type != 2 ? "*" : ""))) fail("str:generate-key", what + ": " + kq);
        if (!isint) { if (m_match((char *)tag.value, vq) != 1 || determine_pattern_type(vq.c_str()) != pts[in.value_query_type]) fail("str:generate-value", what + ": " + vq); }
        else if (in.value_query_type == 4) { if (vq != std::to_string(iv)) fail("str:generate-value", what + ": " + vq); }
        else if (vq != fmt("%d~%d", in.range_lo, in.range_hi)) fail("str:generate-range", what + ": " + vq);
        char *q = gen_query_str(&out);
        if (kq + "=" + vq != q) fail("str:generate-query", fmt("'%s'", q));
        free(q);
        free_query_output(&out);
        free(tag.name); free(tag.value);
    }
    int id = r.below(500);
    std::string gt = take(gen_tags(id)), wt;
    for (int j = 0; j <= id % 20; j++) wt += (j ? "," : "") + fmt("tag%d=%d%d", j, id, j);
    if (gt != wt) fail("str:gen_tags", gt);
    int cnt = r.range(1, 20), mn = r.range(1, 8), mx = mn + r.range(0, 10), as = r.pick(std::vector<int>{1, 2, 26, 50, 92, 500, 0});
    char **rs = gen_random_strings(cnt, mn, mx, as);
    for (int i = 0; i < cnt; i++) { int l = strlen(rs[i]); if (l < mn || l > mx) fail("str:random-length", fmt("length %d outside %d..%d", l, mn, mx)); if (strspn(rs[i], std::string(VISIBLE_ALPHABET).substr(0, as < 1 ? 26 : as).c_str()) != (size_t)l) fail("str:random-alphabet", fmt("'%s' of an alphabet of %d", rs[i], as)); free(rs[i]); }
    free(rs);
}
int main(int c, char **v) { return run(c, v, one); }
