// Placement of index entries: DART_hash / DHT_hash against the storage rule of the index server
// (a server that receives a token for insertion indexes every suffix of it).
#include "mb.hpp"
extern "C" {
#include "dart_core.h"
threadpool __wrap_thpool_init(int) { return nullptr; }
}
using namespace mb;
static std::vector<int64_t> load;
static uint64_t cb_calls;
extern "C" dart_server load_cb(uint32_t id) {
    dart_server s;
    memset(&s, 0, sizeof s);
    cb_calls++;
    if (id >= load.size()) { fail("dart:callback-server-invalid", fmt("load of server %u of %zu asked", id, load.size())); return s; }
    s.id = id;
    s.indexed_word_count = load[id];
    return s;
}
struct Tok { uint32_t srv; std::string tok; bool operator<(const Tok &o) const { return srv != o.srv ? srv < o.srv : tok < o.tok; } bool operator==(const Tok &o) const { return srv == o.srv && tok == o.tok; } };
static std::vector<Tok> call(DART *d, int algo, const std::string &key, dart_op_type_t op, bool cb) {
    index_hash_result_t *out = nullptr;
    std::vector<char> k(key.begin(), key.end());
    k.push_back(0);
    char *kk = strdup(key.c_str());
    int n = algo == DART_HASH ? DART_hash(d, kk, op, cb ? load_cb : nullptr, &out) : DHT_hash(d, algo == DHT_FULL_HASH ? key.size() : 1, kk, op, &out);
    std::vector<Tok> r;
    if (n <= 0) fail("dart:no-server", fmt("op %d on '%s': %d servers", (int)op, esc(key).c_str(), n));
    for (int i = 0; i < n; i++) {
        r.push_back({out[i].server_id, out[i].key ? out[i].key : ""});
        if (out[i].server_id >= d->num_server) fail("dart:server-invalid", fmt("op %d on '%s': server %u of %u", (int)op, esc(key).c_str(), out[i].server_id, d->num_server));
    }
    free(out);
    free(kk);
    return r;
}
static bool starts(const std::string &a, const std::string &b) { return a.compare(0, b.size(), b) == 0; }
static bool hit(const std::set<Tok> &ins, const std::vector<Tok> &q, const std::string &t, bool prefix, int &contacted) {
    std::set<uint32_t> s;
    for (auto &x : q) s.insert(x.srv);
    contacted = s.size();
    for (auto &i : ins) {
        if (!s.count(i.srv)) continue;
        for (size_t k = 0; k < i.tok.size(); k++) {
            std::string suf = i.tok.substr(k);
            if (prefix ? starts(suf, t) : suf == t) return true;
        }
        if (t.empty() && prefix) return true;
    }
    return false;
}
static std::string b32(Rng &r) {
    static const std::vector<std::string> al = {"ab", "abcdefghijklmnopqrstuvwxyz", "abcdefghijklmnopqrstuvwxyz0123456789_-./ABCDEFGHIJKLMNOPQRSTUVWXYZ :+", "az{|"};
    std::string bytes;
    for (int c = 1; c < 256; c++) bytes += (char)c;
    int w = r.below(6);
    return w < 4 ? al[w] : w == 4 ? bytes : std::string("\x80\xff\xc3\xa9xy");
}
// varied keys are spread over the servers
static void spread(Rng &r) {
    DART d;
    memset(&d, 0, sizeof d);
    int n = r.range(2, 60), rep = r.range(1, 3);
    dart_space_init(&d, (int)r.range(1, 8), n, 27, 0, rep);
    load.assign(n, 0);
    int algo = r.chance(60) ? DART_HASH : DHT_FULL_HASH;
    std::map<uint32_t, int> got;
    for (int i = 0; i < 400; i++) {
        std::string key = r.str(5, 9, "abcdefghijklmnopqrstuvwxyz");
        got[call(&d, algo, key, OP_INSERT, true).at(0).srv]++;
    }
    stat("dart_spreads");
    if ((int)got.size() < std::max(2, n / 2)) fail("dart:not-spread", fmt("algo %d: 400 keys went to %zu of %d servers", algo, got.size(), n));
    for (auto &x : got)
        if (x.second > 400 * 3 / 4 && n > 2) fail("dart:not-spread", fmt("algo %d: %d of 400 keys went to server %u of %d", algo, x.second, x.first, n));
}
static void one(Rng &r, const std::string &mode) {
    if (r.chance(4)) return spread(r);
    DART d;
    memset(&d, 0, sizeof d);
    static const std::vector<int> ns = {1, 2, 3, 4, 5, 7, 8, 12, 16, 20, 26, 27, 28, 29, 30, 31, 33, 40, 64, 100, 128, 200, 700, 1000};
    int n = r.chance(70) ? r.pick(ns) : (int)r.range(1, 60);
    int k = r.chance(60) ? 27 : r.chance(50) ? 129 : (int)r.range(2, 40);
    if (k < 5 && n > 64) n = r.range(1, 64);
    int extra = r.chance(75) ? 0 : r.range(0, k <= 30 && n < 100 ? 2 : 1), rep = r.chance(50) ? std::max(1, n / 10 > 0 ? n / 10 : 2) : r.chance(40) ? 1 : (int)r.range(1, 6);
    dart_space_init(&d, (int)r.range(1, 8), n, k, extra, rep);
    d.client_request_count = (int)r.range(0, 50);
    if (d.num_server != (uint32_t)n || d.alphabet_size != k || d.replication_factor != rep || d.num_vnode < (uint64_t)n) fail("dart:init", fmt("space init of n=%d k=%d rep=%d gives %u/%d/%d and %llu vnodes", n, k, rep, d.num_server, d.alphabet_size, d.replication_factor, (unsigned long long)d.num_vnode));
    load.assign(n, 0);
    std::string al = b32(r);
    int keys = r.range(3, 14);
    stat(fmt("dart_height_%d", std::min(d.dart_tree_height, 9)));
    std::string hist;
    uint64_t alt = 0;
    for (int ki = 0; ki < keys; ki++) {
        int algo = r.chance(70) ? DART_HASH : r.chance(50) ? DHT_FULL_HASH : DHT_INITIAL_HASH;
        std::string key = r.str(1, r.chance(80) ? 8 : 24, al);
        int lm = r.below(4);
        for (auto &x : load) x = lm == 0 ? 0 : lm == 1 ? r.range(0, 3) : lm == 2 ? r.range(0, 1000000) : x + r.range(0, 2);
        auto copy = load;
        auto ins = call(&d, algo, key, OP_INSERT, true);
        {   // placement depends on key and configuration only
            DART d2 = d;
            d2.client_request_count = (int)r.range(0, 1000);
            load = copy;
            if (!(call(&d2, algo, key, OP_INSERT, true) == ins)) fail("dart:placement-not-deterministic", fmt("key '%s' n=%d", esc(key).c_str(), n));
        }
        std::set<Tok> is(ins.begin(), ins.end());
        {   // every entry is stored as often as the replication factor says
            std::map<std::string, int> copies;
            for (auto &x : ins) copies[x.tok]++;
            for (auto &c : copies)
                if (c.second != (algo == DART_HASH ? rep : 1)) fail("dart:replicas", fmt("key '%s' n=%d rep=%d: %d copies of the entry '%s'", esc(key).c_str(), n, rep, c.second, esc(c.first).c_str()));
        }
        if (algo == DART_HASH && rep == 1) {
            // without replicas an exact query names the candidates: the less loaded one got the entry
            for (auto &x : ins) {
                auto c = call(&d, algo, x.tok, OP_EXACT_QUERY, false);
                bool in = false;
                for (auto &y : c) {
                    in |= y.srv == x.srv;
                    if (y.srv < load.size() && x.srv < load.size() && copy[y.srv] < copy[x.srv]) fail("dart:loaded-server-chosen", fmt("entry '%s' n=%d k=%d h=%d went to server %u, load %lld, though its other candidate %u has load %lld", esc(x.tok).c_str(), n, k, d.dart_tree_height, x.srv, (long long)copy[x.srv], y.srv, (long long)copy[y.srv]));
                }
                if (in && c.size() > 1) stat("dart_choices");
            }
        }
        stat("dart_insert");
        hist += fmt("%d/%d/%d/%d:%d:", n, k, extra, rep, algo) + key + ";";
        distincth("history", fmt("%d/%d/%d/%d:%d:", n, k, extra, rep, algo) + key);
        if (algo == DART_HASH) {
            // all suffixes are inserted, each somewhere
            for (size_t i = 0; i < key.size(); i++) {
                bool found = false;
                for (auto &x : is) found |= x.tok == key.substr(i);
                if (!found) fail("dart:suffix-not-inserted", fmt("key '%s' suffix %zu", esc(key).c_str(), i));
            }
            auto base = get_base_virtual_node_id_by_string(&d, (char *)key.c_str());
            if (base >= d.num_vnode) fail("dart:vnode-invalid", fmt("base vnode %llu of %llu", (unsigned long long)base, (unsigned long long)d.num_vnode));
            if (!is.count({(uint32_t)get_server_id_by_vnode_id(&d, base), key})) alt++;
        }
        // deletion reaches every copy
        auto del = call(&d, algo, key, OP_DELETE, false);
        std::set<Tok> ds(del.begin(), del.end());
        for (auto &x : is) {
            stat("dart_delete_pairs");
            if (!ds.count(x)) fail("dart:delete-misses-copy", fmt("algo %d key '%s' n=%d k=%d h=%d rep=%d: token '%s' on server %u is not reached by the deletion", algo, esc(key).c_str(), n, k, d.dart_tree_height, rep, esc(x.tok).c_str(), x.srv));
        }
        auto query = [&](const char *what, const std::string &t, dart_op_type_t op, bool prefix) {
            // the client picks replicas in turn: every turn has to work
            for (int turn = 0; turn < (r.chance(20) ? rep : 1); turn++) {
                int c = 0;
                auto q = call(&d, algo, t, op, false);
                stat(fmt("dart_query_%s", what));
                bool ok = hit(is, q, t, prefix, c);
                if (op == OP_EXACT_QUERY && q.size() > (algo == DART_HASH ? 2 : 1)) fail("dart:exact-query-broadcast", fmt("key '%s' n=%d rep=%d: an exact query asks %zu servers", esc(key).c_str(), n, rep, q.size()));
                for (size_t a = 0; a < q.size(); a++)
                    for (size_t b = 0; b < a; b++)
                        if (q[a] == q[b]) fail(fmt("dart:%s-query-repeats-server", what), fmt("query '%s' n=%d k=%d h=%d rep=%d: server %u is asked twice", esc(t).c_str(), n, k, d.dart_tree_height, rep, q[a].srv));
                if (!ok) fail(fmt("dart:%s-query-misses:algo%d", what, algo), fmt("key '%s' query '%s' n=%d k=%d h=%d rep=%d: none of the %d servers asked holds a matching entry", esc(key).c_str(), esc(t).c_str(), n, k, d.dart_tree_height, rep, c));
                if (c < n) stat("dart_query_selective");
            }
        };
        query("exact", key, OP_EXACT_QUERY, false);
        if (algo == DART_HASH && r.chance(30)) {
            // replicas take turns: after as many queries as there are replicas each copy was asked
            std::set<uint32_t> asked;
            for (int turn = 0; turn < rep; turn++)
                for (auto &x : call(&d, algo, key, OP_EXACT_QUERY, false)) asked.insert(x.srv);
            for (auto &x : is)
                if (x.tok == key && !asked.count(x.srv)) fail("dart:replica-never-asked", fmt("key '%s' n=%d rep=%d: %d queries in a row, but the copy on server %u was never asked", esc(key).c_str(), n, rep, rep, x.srv));
            stat("dart_replica_turns");
        }
        for (size_t i = 0; i <= key.size(); i++) {
            if (i) query("prefix", key.substr(0, i), OP_PREFIX_QUERY, true);
            if (i < key.size()) query("suffix", key.substr(i), OP_SUFFIX_QUERY, false);
        }
        if (r.chance(10)) query("prefix", "", OP_PREFIX_QUERY, true);
        for (int t = 0; t < 6; t++) {
            size_t a = r.below(key.size()), b = a + 1 + r.below(key.size() - a);
            query("infix", key.substr(a, b - a), OP_INFIX_QUERY, true);
        }
    }
    stat("dart_inserted_at_alternative", alt);
    if (alt) sample(fmt("n=%d alphabet=%d height=%d replicas=%d keys: ", n, k, d.dart_tree_height, rep) + esc(hist).substr(0, 200));
}
int main(int c, char **v) { return run(c, v, one); }
