// File helpers: what is written with one call is what is read back with another, checked against the file's real bytes.
#include "mb.hpp"
#include <dirent.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <stdio_ext.h>
extern "C" {
#include "common_io.h"
}
using namespace mb;
static std::vector<std::string> *got_lines;
static void on_line(char *l) { got_lines->push_back(l); }
// the descriptors open on this case's own files
static int nfds(const std::string &pre) {
    int n = 0; DIR *d = opendir("/proc/self/fd");
    while (struct dirent *e = readdir(d)) { char b[600]; ssize_t k = readlink((std::string("/proc/self/fd/") + e->d_name).c_str(), b, sizeof b); if (k > 0 && std::string(b, k).compare(0, pre.size(), pre) == 0) n++; }
    closedir(d); return n;
}
static std::string slurp(const std::string &f) { std::string r; FILE *p = fopen(f.c_str(), "rb"); if (!p) return "<none>"; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) r.append(b, n); fclose(p); return r; }
static std::string bytes(Rng &r, size_t n) { std::string s; int w = (int)r.below(3); for (size_t i = 0; i < n; i++) s += w == 0 ? (char)r.below(256) : w == 1 ? "\n\r\0\x1a\xff"[r.below(5)] : (char)('a' + r.below(26)); return s; }
static size_t sz(Rng &r) { static const size_t e[] = {0, 1, 2, 511, 512, 4095, 4096, 4097, 8192, 70000}; return r.chance(40) ? e[r.below(10)] : r.below(r.chance(30) ? 20000 : 200); }
// the storage takes only so many bytes of a file
struct Cap {
    struct rlimit old;
    explicit Cap(size_t n) { getrlimit(RLIMIT_FSIZE, &old); struct rlimit x = {n, old.rlim_max}; setrlimit(RLIMIT_FSIZE, &x); }
    ~Cap() { setrlimit(RLIMIT_FSIZE, &old); }
};
static void full(Rng &r, const std::string &f) { // a write that does not fit is not reported as done
    char *fn = (char *)f.c_str();
    int w = (int)r.below(4);
    std::string b = bytes(r, 1 + sz(r));
    std::vector<char> blk(b.begin(), b.end());
    int rc; bool fits; std::string exp;
    signal(SIGXFSZ, SIG_IGN);
    if (w == 0) {
        size_t cap = r.below(b.size() * 2 + 1); fits = cap >= b.size(); exp = b;
        Cap c(cap);
        rc = write_binary_file(fn, blk.data(), blk.size());
    } else if (w == 1) {
        std::vector<std::string> in; std::vector<char *> p;
        for (size_t i = 0, n = 1 + r.below(40); i < n; i++) { in.push_back(std::string(r.below(60), (char)('a' + i % 26))); exp += in.back() + "\n"; }
        for (auto &l : in) p.push_back((char *)l.c_str());
        size_t cap = r.below(exp.size() * 2 + 1); fits = cap >= exp.size();
        Cap c(cap);
        rc = write_text_file(fn, p.data(), p.size());
    } else if (w == 2) {
        size_t cap = r.below(b.size() * 2 + 1); fits = cap >= b.size(); exp = b;
        Cap c(cap);
        static char wr[] = "wb"; // whichever call reaches the storage says so
        FILE *p = open_file(fn, wr);
        io_buffer_t io = {blk.data(), blk.size()};
        rc = write_file(p, &io); int rc2 = close_file(p);
        if (rc2) rc = rc2;
    } else {
        if (write_binary_file(fn, blk.data(), blk.size()) != 0) fail("io:write-binary", "");
        size_t at = r.below(b.size() + 1), k = 1 + r.below(3000);
        std::string x = bytes(r, k); std::vector<char> xb(x.begin(), x.end());
        exp = b; if (at + k > exp.size()) exp.resize(at + k);
        exp.replace(at, k, x);
        size_t cap = r.below(exp.size() * 2 + 1); fits = cap >= at + k;
        Cap c(cap);
        rc = update_binary_file(fn, xb.data(), k, at, k);
    }
    std::string now = slurp(f);
    if (fits != (rc == 0)) fail(fits ? "io:write-refused" : "io:full", fmt("writing kind %d %s, %zu bytes of %zu in the file", w, rc == 0 ? "is reported as done" : "is reported as failed", now.size(), exp.size()));
    if (rc == 0 && fits && now != exp) fail("io:binary-bytes", fmt("%zu bytes", exp.size()));
    stat(fits ? "capped_fits" : "capped_full");
    distincth("history", fmt("C%d", w) + exp);
}
static void console(Rng &r, const std::string &f) {
    std::string s = r.str(0, 200, "abc %s%n%d\t\n\xc3\xa9");
    std::string o;
    { Swap w(1, f, O_WRONLY | O_CREAT | O_TRUNC); print_string((char *)s.c_str()); }
    if ((o = slurp(f)) != s) fail("io:print", esc(s) + " printed as " + esc(o));
    { Swap w(2, f, O_WRONLY | O_CREAT | O_TRUNC); print_error((char *)s.c_str()); }
    if ((o = slurp(f)).find(s) == std::string::npos) fail("io:print-error", esc(s) + " printed as " + esc(o));
    std::string c; for (size_t i = 0, n = r.below(200); i < n; i++) c += r.chance(12) ? '\n' : (char)('a' + r.below(26));
    { FILE *p = fopen(f.c_str(), "wb"); fwrite(c.data(), 1, c.size(), p); fclose(p); }
    size_t cap = r.range(2, 40), pos = 0; std::string bad;
    {
        Swap w(0, f, O_RDONLY);
        clearerr(stdin); __fpurge(stdin);
        while (true) {
            std::vector<char> blk(cap, 'Z');
            int rc = get_input(blk.data(), cap);
            if (pos >= c.size()) { if (rc == 0) bad = "a line after the last one"; break; }
            if (rc != 0) { bad = fmt("failed at %zu of %zu", pos, c.size()); break; }
            size_t e = pos; while (e < c.size() && c[e] != '\n' && e - pos < cap - 1) e++;
            std::string want = c.substr(pos, e - pos);
            if (want != blk.data()) { bad = fmt("at %zu: %s instead of %s", pos, esc(blk.data()).c_str(), esc(want).c_str()); break; }
            pos = e; if (pos < c.size() && c[pos] == '\n' && want.size() < cap - 1) pos++;
        }
        __fpurge(stdin);
    }
    if (!bad.empty()) fail("io:input", bad);
    stat("console_cases");
    distincth("history", "I" + s + c);
}
static void one(Rng &r, const std::string &) {
    std::string dir = getenv("PV_TMP") ? getenv("PV_TMP") : "/tmp";
    
    std::string hist;
    for (int t = 0; t < 12; t++) {
        std::string f = dir + fmt("/io%d", (int)r.below(3));
        char *fn = (char *)f.c_str();
        int op = (int)r.below(5);
        if (r.chance(4)) { // a directory opens but gives no lines
            std::vector<std::string> out; got_lines = &out; char d[] = "/"; int before = nfds("/");
            if (read_text_file(d, on_line) == 0 || !out.empty()) fail("io:read-error", hist + " reading a directory is reported as done");
            if (int k = nfds("/") - before) fail("io:open-files", hist + fmt(" %d files left open by reading a directory", k));
            stat("unreadable_files"); continue;
        }
        if (r.chance(8)) { full(r, f); continue; }
        if (r.chance(4)) { console(r, f); continue; }
        hist += fmt("%d", op);
        if (op == 0) { // text: lines come back one by one
            std::vector<std::string> in, out; std::vector<char *> p; std::string exp;
            size_t n = r.below(r.chance(20) ? 300 : 12);
            for (size_t i = 0; i < n; i++) {
                std::string l; size_t k = r.chance(10) ? r.below(5000) : r.below(40);
                for (size_t j = 0; j < k; j++) { char c = r.chance(10) ? (char)(128 + r.below(128)) : r.chance(10) ? "\r\t %s%n"[r.below(7)] : (char)(32 + r.below(95)); l += c; }
                in.push_back(l);
            }
            for (auto &l : in) { p.push_back((char *)l.c_str()); exp += l + "\n"; }
            if (write_text_file(fn, p.data(), n) != 0) fail("io:write-text", hist);
            if (slurp(f) != exp) fail("io:text-bytes", hist + fmt(" %zu lines, %zu bytes expected, %zu found", n, exp.size(), slurp(f).size()));
            bool cut = n && r.chance(30) && !in.back().empty(); // a last line without end is a line all the same
            if (cut && truncate(fn, (off_t)exp.size() - 1)) {}
            got_lines = &out;
            if (read_text_file(fn, on_line) != 0) fail("io:read-text", hist);
            if (out != in) fail("io:lines", hist + fmt(" wrote %zu lines, read %zu%s", in.size(), out.size(), cut ? " (cut)" : ""));
            stat("text_lines", n); distincth("history", fmt("T%zu", n) + exp);
        } else if (op == 1) { // binary
            std::string b = bytes(r, sz(r)); std::vector<char> blk(b.begin(), b.end()), back(b.size());
            if (write_binary_file(fn, blk.data(), blk.size()) != 0) fail("io:write-binary", hist);
            if (slurp(f) != b) fail("io:binary-bytes", hist + fmt(" %zu bytes", b.size()));
            size_t want = r.chance(60) ? b.size() : r.below(b.size() + 1);
            back.resize(want);
            if (read_binary_file(fn, back.data(), want) != 0) fail("io:read-binary", hist + fmt(" %zu of %zu", want, b.size()));
            if (std::string(back.begin(), back.end()) != b.substr(0, want)) fail("io:binary-content", hist);
            if (r.chance(30)) { std::vector<char> more(b.size() + 1 + r.below(50)); if (read_binary_file(fn, more.data(), more.size()) == 0) fail("io:short-read", hist + fmt(" %zu bytes asked of a file of %zu", more.size(), b.size())); stat("short_reads"); }
            stat("binary_files"); distincth("history", "B" + b);
        } else if (op == 2) { // a part of a file is replaced, the rest stays
            std::string b = bytes(r, 1 + sz(r)), m = b; std::vector<char> blk(b.begin(), b.end());
            if (write_binary_file(fn, blk.data(), blk.size()) != 0) fail("io:write-binary", hist);
            for (int u = 0, n = (int)r.range(1, 4); u < n; u++) {
                size_t at = r.below(m.size() + 1), k = r.chance(30) ? r.below(3000) : r.below(m.size() - at + 1);
                std::string x = bytes(r, k); std::vector<char> xb(x.begin(), x.end());
                if (update_binary_file(fn, xb.data(), k, at, k) != 0) fail("io:update", hist + fmt(" %zu bytes at %zu of %zu", k, at, m.size()));
                if (at + k > m.size()) m.resize(at + k);
                m.replace(at, k, x);
                stat("updates");
            }
            std::string now = slurp(f);
            if (now != m) fail("io:update-bytes", hist + fmt(" %zu bytes expected, %zu found", m.size(), now.size()));
            distincth("history", "U" + m);
        } else if (op == 3) { // whole file buffers, several per open file, append
            std::string exp; bool app = r.chance(40) && t;
            std::string old = slurp(f); if (old == "<none>") old = "";
            static char md[4][4] = {"w", "a", "wb", "ab"};
            FILE *p = open_file(fn, app ? md[1 + 2 * r.below(2)] : md[2 * r.below(2)]);
            exp = app ? old : "";
            for (int u = 0, n = (int)r.below(4); u < n; u++) {
                std::string x = bytes(r, sz(r)); std::vector<char> xb(x.begin(), x.end());
                io_buffer_t io = {xb.data(), xb.size()};
                if (write_file(p, &io) != 0) fail("io:write-file", hist);
                exp += x; stat("buffers");
            }
            if (close_file(p) != 0) fail("io:close", hist);
            static char rd[] = "rb";
            p = open_file(fn, rd);
            if (r.chance(40)) { for (int u = (int)r.below(5); u > 0; u--) getc(p); } // wherever the file stands, the whole of it is read
            io_buffer_t io = {nullptr, 0};
            if (read_file(p, &io) != 0) fail("io:read-file", hist);
            else { if (std::string(io.buffer, io.size) != exp) fail("io:file-content", hist + fmt(" %zu bytes expected, %zu found", exp.size(), io.size)); if (io.buffer[io.size] != 0) fail("io:terminator", hist); }
            free(io.buffer);
            close_file(p);
            distincth("history", "F" + exp);
        } else { // line by line into a block of given size
            std::string c; for (size_t i = 0, n = r.below(200); i < n; i++) c += r.chance(12) ? '\n' : (char)('a' + r.below(26));
            std::vector<char> cb(c.begin(), c.end());
            if (write_binary_file(fn, cb.data(), cb.size()) != 0) fail("io:write-binary", hist);
            static char rd[] = "r";
            FILE *p = open_file(fn, rd);
            size_t cap = r.range(2, 40), pos = 0;
            while (true) {
                std::vector<char> blk(cap, 'Z');
                int rc = read_line(p, blk.data(), cap);
                if (pos >= c.size()) { if (rc == 0) fail("io:line-after-end", hist); break; }
                if (rc != 0) { fail("io:read-line", hist + fmt(" at %zu of %zu", pos, c.size())); break; }
                size_t e = pos; while (e < c.size() && c[e] != '\n' && e - pos < cap - 1) e++;
                std::string want = c.substr(pos, e - pos);
                if (want != blk.data()) { fail("io:line", hist + fmt(" at %zu: %s instead of %s", pos, esc(blk.data()).c_str(), esc(want).c_str())); break; }
                pos = e; if (pos < c.size() && c[pos] == '\n' && want.size() < cap - 1) pos++;
                stat("lines_read");
            }
            close_file(p);
            distincth("history", fmt("L%zu", cap) + c);
        }
    }
    if (int k = nfds(dir + "/io")) fail("io:open-files", hist + fmt(" %d files left open", k));
    sample(hist);
}
int main(int argc, char **argv) { return run(argc, argv, one); }
