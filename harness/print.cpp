// C17: what is printed and exported is what is stored, whatever the magnitudes and names.
// C34: histories of exports to the same names, with files that cannot be created or written.
#include "datasets.hpp"
#include "capture.hpp"
#include "tree.h"
#include "text.hpp"
#include <climits>
#include <dirent.h>
#include <sys/resource.h>
#include <sys/stat.h>
#ifndef PROP
#define PROP 17
#endif
using namespace ds; using namespace sut; using ex::Ctx; using ex::Family; using ex::fail; using ex::fmt;
static std::string no_stamps(const std::string& s) { std::string o; for (auto& l : lines(s)) { if (l.empty() || l.find("INFO") != std::string::npos) continue; if (l.find("/////") != std::string::npos) continue; o += l + "\n"; } return o; }
static std::string slurp(const std::string& p, bool& ok) { FILE* f = fopen(p.c_str(), "rb"); ok = f != nullptr; std::string s; if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static void warm_prints();
// a scratch directory per worker, removed when the worker ends
static std::string scratch() {
    static std::string d; static pid_t owner = 0; if (owner == getpid()) return d; owner = getpid();
    char t[4096]; const char* base = getenv("VERIF_SCRATCH"); snprintf(t, sizeof t, "%s/print.XXXXXX", base ? base : "/tmp"); if (!mkdtemp(t)) fail("no scratch directory"); d = t; if (chdir(d.c_str())) fail("chdir"); warm_prints(); return d;
}
// time zone data, locale and stream buffers that the C library creates on first use are not the library's
static void warm_prints() {
    static pid_t done = 0; if (done == getpid()) return; done = getpid(); Out o; warmup(); double x[6] = {0, 1, 2, 9, 10, 11}, st[13], row[7] = {1, 2, 3, 4, 1.7e308, 6, 7}; void *h, *ct, *dm; h = sut_new(2); sut_run(h, x, 6, 1, 1, H_DOUBLE_); ct = sut_cluster_map_of(h, 0, 6, nullptr); dm = sut_distance_map_make(row, 1); sut_stats(dm, 0, st);
    std::string s = capture([&] { for (int k = 0; k < 7; k++) sut_print(h, k, ct, dm, st, nullptr); char fn[] = "warm"; sut_print(h, 4, ct, dm, st, fn); }); unlink("warm_hierarchy.csv"); unlink("warm_visualization.vis"); sut_distance_map_destroy(dm); sut_cluster_map_destroy(ct); sut_destroy(h);
}
static void check_level_numbers(const std::vector<Num>& g, const Level& l, bool key, size_t n, const char* where) { std::vector<double> e; if (key) e.push_back((double)l.key); e.push_back(l.w); for (size_t i = 0; i < n; i++) e.push_back((double)l.lab[i]); expect(g, e, fmt("%s, level %ld", where, l.key)); }
static void check_files(const std::string& name, const Res& r) {
    bool ok; std::string s = slurp(name + "_hierarchy.csv", ok); if (!ok) fail("%zu-character name: no _hierarchy.csv was written", name.size());
    Lines L = lines(s); if (L.size() != r.hier.size()) fail("_hierarchy.csv has %zu lines for %zu levels", L.size(), r.hier.size());
    for (size_t i = 0; i < L.size(); i++) { const std::string& l = L[i]; size_t p = 0; std::vector<std::string> f; while (p < l.size()) { size_t q = l.find(',', p); if (q == std::string::npos) q = l.size(); f.push_back(l.substr(p, q - p)); p = q + 1; } std::vector<Num> g; for (auto& x : f) { auto n = numbers(x); if (n.size() != 1) fail("_hierarchy.csv line %zu: field \"%.40s\"", i, x.c_str()); g.push_back(n[0]); } check_level_numbers(g, r.hier[i], false, r.n, "_hierarchy.csv"); }
    s = slurp(name + "_visualization.vis", ok); if (!ok) fail("%zu-character name: no _visualization.vis was written", name.size()); auto g = numbers(s); if (g.size() != 2 || g[1].v != (double)r.hier.size()) fail("_visualization.vis does not hold the level count: %.80s", s.c_str());
}
static void check_run(Ctx& c, const Data& d, unsigned long m, const Fam&) {
    std::string dir = scratch(); Packed pk(d, H_DOUBLE_); track_reset(); void *h, *ct, *dm; { In in; h = sut_new(m); if (sut_run(h, pk.p, d.rows, d.cols, 1, H_DOUBLE_)) fail("run failed"); ct = sut_cluster_map_of(h, 0, d.rows, nullptr); dm = sut_distance_map(h, ct, nullptr); }
    double st[13]; { In in; sut_stats(dm, 0, st); } Res r = read(h); sut_blob cb = {nullptr, 0, 0}, db = {nullptr, 0, 0}; sut_map_read(ct, &cb); sut_distance_map_read(dm, &db);
    auto cap = [&](int what, char* fn = nullptr) { return capture([&] { In in; sut_print(h, what, ct, dm, st, fn); }); };
    std::vector<double> e, e2; size_t p = 1; for (size_t k = (size_t)cb.v[0]; k--;) { e.push_back(cb.v[p]); e2.push_back(cb.v[p]); size_t n = (size_t)cb.v[p + 1]; e2.push_back((double)n); p += 2; while (n--) e.push_back(cb.v[p++]); }
    { std::string s = cap(0); Lines L = lines(s); if (L.size() != (size_t)cb.v[0]) fail("cluster map: %zu lines for %.0f clusters", L.size(), cb.v[0]); expect(numbers(s), e, "cluster map"); } expect(numbers(cap(1)), e2, "cluster sizes");
    e.clear(); for (size_t i = 0; i < (size_t)db.v[0]; i++) for (size_t q = 0; q < 7; q++) e.push_back(db.v[1 + 7 * i + q]); expect(numbers(no_stamps(cap(2))), e, "distance map");
    { std::string s = no_stamps(cap(3)); auto g = numbers(s); std::vector<double> w = {st[0], st[4], st[1], st[6], st[5], st[3], st[2], st[10], st[7], st[12], st[11], st[9], st[8]}; expect(g, w, "statistics"); }
    e.clear(); for (auto& s : r.sc) { e.push_back((double)s.id); e.push_back(s.c); e.push_back(s.s); } expect(numbers(no_stamps(cap(5))), e, "outlier scores");
    { Lines L = lines(cap(6)); if (L.size() != r.n) fail("distances: %zu lines for %zu points", L.size(), r.n); for (size_t i = 0; i < r.n; i++) { e.clear(); for (size_t j = i + 1; j < r.n; j++) e.push_back(r.d(i, j)); expect(numbers(L[i]), e, fmt("distances of point %zu", i)); } }
    { Lines L = lines(no_stamps(cap(4))); if (L.size() != r.hier.size()) fail("hierarchy: %zu lines for %zu levels", L.size(), r.hier.size()); for (size_t i = 0; i < L.size(); i++) check_level_numbers(numbers(L[i]), r.hier[i], true, r.n, "printed hierarchy"); }
    { char* fn = strdup("out"); std::string s = no_stamps(cap(4, fn)); if (strcmp(fn, "out")) fail("the caller's file name was changed"); free(fn); check_files("out", r); unlink("out_hierarchy.csv"); unlink("out_visualization.vis"); }
    { In in; sut_distance_map_destroy(dm); sut_cluster_map_destroy(ct); sut_destroy(h); } if (live()) fail("%zu allocations not released", live()); sut_blob_free(&cb); sut_blob_free(&db); c.trans(9); c.trace(); c.state(r.hash());
}

// ---- C34
static size_t fds() { size_t n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) fail("no /proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static std::map<std::string, std::string> listing() { // name -> "d", "l" + target or "f" + contents
    std::map<std::string, std::string> m; DIR* d = opendir("."); if (!d) fail("opendir"); while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n == "." || n == "..") continue; struct stat st; if (lstat(n.c_str(), &st)) fail("lstat"); bool ok = true;
        if (S_ISDIR(st.st_mode)) m[n] = "d"; else if (S_ISLNK(st.st_mode)) { char b[64]; ssize_t k = readlink(n.c_str(), b, sizeof b); m[n] = "l" + std::string(b, (size_t)std::max<ssize_t>(k, 0)); } else m[n] = "f" + slurp(n, ok); } closedir(d); return m; }
static void clear_dir() { for (auto& q : listing()) if (q.second == "d") rmdir(q.first.c_str()); else unlink(q.first.c_str()); }
enum { X_SMALL, X_MID, X_BIG, X_SMALL_B, X_BIG_B, X_NOFD, X_MISSING, X_NULL, O_DIR_CSV, O_DIR_VIS, O_FULL_CSV, O_FULL_VIS, O_JUNK, O_CLEAR, NXO };
static const char* XN[] = {"export 3 points to a", "export 9 points to a", "export 40 points to a", "export 3 points to b", "export 40 points to b", "export 9 points to a without file descriptors", "export 9 points to a missing directory", "show 9 points", "put a directory in place of a_hierarchy.csv", "put a directory in place of a_visualization.vis", "a_hierarchy.csv is on a full disk", "a_visualization.vis is on a full disk", "fill both files of a with 5000 other characters", "remove the files of a"};
struct Exp { void* h; Res r; uint64_t sum; std::string csv, vis; };
static std::vector<Exp>& exported() {
    static std::vector<Exp> v; static pid_t owner = 0; if (owner == getpid()) return v; owner = getpid(); v.clear();
    for (unsigned n : {3u, 9u, 40u}) { Data d; d.rows = n; d.cols = 1; for (unsigned k = 0; k < n; k++) d.x.push_back(k * (k % 5 + 1.25)); Packed pk(d, H_DOUBLE_); Exp e; { In in; e.h = sut_new(2); if (sut_run(e.h, pk.p, n, 1, 1, H_DOUBLE_)) fail("run failed"); } e.r = read(e.h); e.sum = e.r.hash();
        char fn[] = "ref"; capture([&] { In in; sut_print(e.h, 4, nullptr, nullptr, nullptr, fn); }); check_files("ref", e.r); bool ok; e.csv = "f" + slurp("ref_hierarchy.csv", ok); e.vis = "f" + slurp("ref_visualization.vis", ok); unlink("ref_hierarchy.csv"); unlink("ref_visualization.vis"); v.push_back(e); }
    return v;
}
static Family export_words(unsigned depth) {
    Family f; f.name = fmt("all histories of %u exports and obstacles over %d operations", depth, (int)NXO); f.count = ipow(NXO, depth); auto dig = [=](uint64_t i) { std::vector<int> w; for (unsigned k = 0; k < depth; k++) { w.push_back((int)(i % NXO)); i /= NXO; } return w; };
    f.run = [=](Ctx& c, uint64_t i) {
        scratch(); clear_dir(); auto& ex_ = exported(); std::map<std::string, std::string> want; const std::string AC = "a_hierarchy.csv", AV = "a_visualization.vis";
        auto put = [&](const std::string& n, const std::string& w) { if (want.count(n)) { if (want[n] == "d") { if (rmdir(n.c_str())) fail("rmdir"); } else unlink(n.c_str()); want.erase(n); } if (w.empty()) return; want[n] = w; if (w == "d") { if (mkdir(n.c_str(), 0755)) fail("mkdir"); } else if (w[0] == 'l') { if (symlink(w.c_str() + 1, n.c_str())) fail("symlink"); } else { FILE* q = fopen(n.c_str(), "w"); if (!q) fail("fopen"); fwrite(w.data() + 1, 1, w.size() - 1, q); fclose(q); } };
        for (int o : dig(i)) {
            if (o >= O_DIR_CSV) { if (o == O_DIR_CSV) put(AC, "d"); else if (o == O_DIR_VIS) put(AV, "d"); else if (o == O_FULL_CSV) put(AC, "l/dev/full"); else if (o == O_FULL_VIS) put(AV, "l/dev/full"); else if (o == O_JUNK) { put(AC, "f" + std::string(5000, '7')); put(AV, "f" + std::string(5000, '8')); } else { put(AC, ""); put(AV, ""); } continue; }
            Exp& e = ex_[o == X_SMALL || o == X_SMALL_B ? 0 : o == X_BIG || o == X_BIG_B ? 2 : 1]; bool b = o == X_SMALL_B || o == X_BIG_B; const char* nm = o == X_NULL ? nullptr : o == X_MISSING ? "missing/x" : b ? "b" : "a"; char* fn = nm ? strdup(nm) : nullptr; size_t f0 = 0, f1 = 0, l0 = live();
            std::string s = capture([&] { f0 = fds(); rlimit old, none; if (o == X_NOFD) { getrlimit(RLIMIT_NOFILE, &old); none = old; none.rlim_cur = 0; setrlimit(RLIMIT_NOFILE, &none); } { In in; sut_print(e.h, 4, nullptr, nullptr, nullptr, fn); } if (o == X_NOFD) setrlimit(RLIMIT_NOFILE, &old); f1 = fds(); });
            if (fn && strcmp(fn, nm)) fail("%s: the caller's file name was changed", XN[o]); free(fn); if (f1 != f0) fail("%s: %zu file descriptors before, %zu after", XN[o], f0, f1); if (live() != l0) fail("%s: %zu allocations before, %zu after", XN[o], l0, live()); if (read(e.h).hash() != e.sum) fail("%s: the contents of the handle changed", XN[o]);
            bool named = nm && o != X_MISSING && o != X_NOFD; bool show = !named; if (named) { std::string C = std::string(nm) + "_hierarchy.csv", V = std::string(nm) + "_visualization.vis"; if (want[C] == "d") show = true; else if (want[C] != "l/dev/full") want[C] = e.csv; if (want[V] != "d" && want[V] != "l/dev/full") want[V] = e.vis; }
            if (show) { Lines L = lines(no_stamps(s)); if (L.size() != e.r.hier.size()) fail("%s: %zu lines shown for %zu levels", XN[o], L.size(), e.r.hier.size()); for (size_t k = 0; k < L.size(); k++) check_level_numbers(numbers(L[k]), e.r.hier[k], true, e.r.n, XN[o]); }
            auto got = listing(); for (auto& q : want) if (!got.count(q.first)) fail("%s: there is no %s afterwards", XN[o], q.first.c_str()); else if (got[q.first] != q.second) fail("%s: %s holds %zu characters, not the %zu expected", XN[o], q.first.c_str(), got[q.first].size() - 1, q.second.size() - 1); for (auto& q : got) if (!want.count(q.first)) fail("%s: left a file %s", XN[o], q.first.c_str());
            uint64_t h = 0; for (auto& q : want) h = ex::mix(h, ex::hbytes(q.second.data(), q.second.size(), ex::hbytes(q.first.data(), q.first.size()))); c.state(h); c.trans(); }
        c.trace(); clear_dir(); };
    f.desc = [=](uint64_t i) { std::string s; for (int o : dig(i)) s += (s.empty() ? "" : "; ") + std::string(XN[o]); return s; }; return f;
}
static std::vector<double> BIG = {0, 1, -1, 0.5, 1e-300, 123456.789012, 1e15, -1e100, 1.7976931348623157e308, -1.7976931348623157e308, INFINITY, NAN};
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--scratch")) setenv("VERIF_SCRATCH", argv[i + 1], 1);
    return ex::main_(argc, argv, [](bool th) {
        sut_set_threads(1); std::vector<Family> v; if (PROP == 34) { for (unsigned k = 1; k <= (th ? 5u : 4u); k++) v.push_back(export_words(k)); return v; }
        for (auto& f : {grid(1, 1, 1, 3), grid(3, 1, 4, 4), grid(5, 1, 3, 4), grid(4, 2, 2, 4), gaps(8, {0, 1, 9}, 2, 3, 2), blocks(3, {line(5, 1), ds::dup(3), ds::dup(1), line(18, 0.5), {0, 1, 2, 40, 41, 42}}, {7, 60}, {2, 3, 5}, 2)}) v.push_back(fam(f, check_run));
        { Fam f = grid(4, 1, 5, 6); f.name = "magnitudes: 4 points over {0, 1e150, -1e150, 3e-160, 7.25}, minPts 2..6"; auto g = f.get; f.get = [=](uint64_t i) { Data d = g(i); static const double A[5] = {0, 1e150, -1e150, 3e-160, 7.25}; for (double& x : d.x) x = A[(int)x]; return d; }; v.push_back(fam(f, check_run)); }
        if (th) for (auto& f : {grid(6, 1, 3, 4), gaps(11, {0, 1, 9}, 2, 4, 2), blocks(4, {line(5, 1), ds::dup(3), line(18, 0.5), {0, 1, 2, 40, 41, 42}}, {7, 60}, {2, 3, 5}, 2)}) v.push_back(fam(f, check_run));
        // objects with arbitrary contents
        { size_t B = BIG.size(); Family f; f.name = "distance map: one entry, two values over 12 magnitudes in every pair of fields, 3 labels"; f.count = B * B * 15 * 3;
          f.run = [=](Ctx& c, uint64_t i) { static const double L[3] = {0, 7, 2147483647.0}; double row[7] = {L[i % 3], 1.5, 2.5, 3.5, 4.5, 5.5, 6.5}; i /= 3; unsigned q = (unsigned)(i % 15); i /= 15; unsigned a = 1, b = 2; while (q--) if (++b > 6) { a++; b = a + 1; } row[a] = BIG[i % B]; row[b] = BIG[i / B];
            scratch(); track_reset(); void* dm; { In in; dm = sut_distance_map_make(row, 1); } std::string s = capture([&] { In in; sut_print(nullptr, 2, nullptr, dm, nullptr, nullptr); }); expect(numbers(no_stamps(s)), std::vector<double>(row, row + 7), "distance map"); { In in; sut_distance_map_destroy(dm); } if (live()) fail("leak"); c.trans(); c.trace(); c.state(ex::hbytes(row, 56)); };
          f.desc = [=](uint64_t i) { return fmt("values %g and %g", BIG[i / 45 % B], BIG[i / 45 / B]); }; v.push_back(f); }
        { size_t B = BIG.size(); Family f; f.name = "distance map and statistics: all fields at one magnitude; statistics: pairs of magnitudes"; f.count = B * B * 12;
          f.run = [=](Ctx& c, uint64_t i) { double st[13]; unsigned q = (unsigned)(i % 12) + 1; i /= 12; for (int k = 0; k < 13; k++) st[k] = BIG[i % B]; st[q] = BIG[i / B]; st[0] = (double)(i * 37); std::string s = capture([&] { In in; sut_print(nullptr, 3, nullptr, nullptr, st, nullptr); }); std::vector<double> w = {st[0], st[4], st[1], st[6], st[5], st[3], st[2], st[10], st[7], st[12], st[11], st[9], st[8]}; expect(numbers(no_stamps(s)), w, "statistics");
            double row[14]; for (int k = 0; k < 14; k++) row[k] = BIG[i % B]; row[0] = 1; row[7] = 2; void* dm = sut_distance_map_make(row, 2); s = capture([&] { sut_print(nullptr, 2, nullptr, dm, nullptr, nullptr); }); expect(numbers(no_stamps(s)), std::vector<double>(row, row + 14), "distance map"); sut_distance_map_destroy(dm); c.trans(2); c.trace(); c.state(ex::hbytes(st, sizeof st)); };
          f.desc = [=](uint64_t i) { return fmt("all %g, one %g", BIG[i / 12 % B], BIG[i / 12 / B]); }; v.push_back(f); }
        { Family f; f.name = "cluster map: 1..80 points, labels up to 2147483647, 4 patterns"; f.count = 320; auto mk = [](uint64_t i) { std::vector<double> l; size_t n = i / 4 + 1; for (size_t k = 0; k < n; k++) l.push_back(i % 4 == 0 ? 2147483647.0 - (double)(k % 3) : i % 4 == 1 ? (double)k : i % 4 == 2 ? 0 : (double)(k * k % 11 * 1000003)); return l; };
          f.run = [=](Ctx& c, uint64_t i) { auto l = mk(i); scratch(); track_reset(); void* t; { In in; t = sut_cluster_map(l.data(), l.size(), 0, l.size(), nullptr); } sut_blob b = {nullptr, 0, 0}; sut_map_read(t, &b); std::vector<double> e, e2; size_t p = 1; for (size_t k = (size_t)b.v[0]; k--;) { e.push_back(b.v[p]); e2.push_back(b.v[p]); size_t n = (size_t)b.v[p + 1]; e2.push_back((double)n); p += 2; while (n--) e.push_back(b.v[p++]); } sut_blob_free(&b);
            expect(numbers(capture([&] { In in; sut_print(nullptr, 0, t, nullptr, nullptr, nullptr); })), e, "cluster map"); expect(numbers(capture([&] { In in; sut_print(nullptr, 1, t, nullptr, nullptr, nullptr); })), e2, "cluster sizes"); { In in; sut_cluster_map_destroy(t); } if (live()) fail("leak"); c.trans(2); c.trace(); c.state(i); };
          f.desc = [=](uint64_t i) { return fmt("pattern %d, %d points", (int)(i % 4), (int)(i / 4 + 1)); }; v.push_back(f); }
        { Family f; f.name = "graph: 2..60 vertices, weights over 12 magnitudes"; f.count = 59 * 12;
          f.run = [=](Ctx& c, uint64_t i) { unsigned long n = i / 12 + 2; std::vector<unsigned long> a, b; std::vector<double> w; for (unsigned long k = 0; k < n; k++) { a.push_back(k); b.push_back(k % 3 == 0 ? k : k * 7 % n); w.push_back(k % 2 ? BIG[i % 12] : (double)k + 0.25); } scratch(); track_reset(); void* g; { In in; g = tg_make(nullptr, n, a.size(), a.data(), b.data(), w.data()); }
            std::string s = capture([&] { In in; tg_print(g); }); size_t hd = s.find('\n'); auto hn = numbers(s.substr(0, hd)); std::vector<double> he = {(double)n, (double)n, (double)n, (double)n, (double)n}; expect(hn, he, "graph header"); std::vector<double> e; for (auto x : a) e.push_back((double)x); for (auto x : b) e.push_back((double)x); for (auto x : w) e.push_back(x); for (unsigned long k = 0; k < n; k++) { std::vector<unsigned long> o(200); size_t q = tg_adj(g, k, o.data(), 200); for (size_t z = 0; z < q; z++) e.push_back((double)o[z]); }
            expect(numbers(s.substr(hd)), e, "graph"); { In in; tg_destroy(g); } if (live()) fail("leak"); c.trans(); c.trace(); c.state(i); };
          f.desc = [=](uint64_t i) { return fmt("%d vertices, magnitude %g", (int)(i / 12 + 2), BIG[i % 12]); }; v.push_back(f); }
        // hierarchies and scores made by hand
        { static const double K[] = {0, 1, 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647.0, 2147483648.0, 4294967295.0, 4294967296.0, 1099511627776.0, 9007199254740991.0}; static const double W[] = {0, 1, 0.5, 1e-9, 123456.789012345, 1e15, 1e-300, 1e100, 1.7976931348623157e308}; static const double L[] = {0, 1, 255, 256, 32767, 32768, 65536, 2147483647.0}; const uint64_t NK = 17, NW = 9, NL = 8;
          auto mk = [](uint64_t i, std::vector<double>& r, size_t& n) { n = 1 + i % 3; i /= 3; uint64_t a = i % NK, b = i / NK % NK, w = i / NK / NK % NW, l = i / NK / NK / NW; if (a > b) std::swap(a, b); r.clear(); size_t k = 0; for (uint64_t q : {a, b}) { if (k && a == b) break; r.push_back(K[q]); r.push_back(W[(w + k) % NW]); for (size_t j = 0; j < n; j++) r.push_back(L[(l + j * (k + 1)) % NL]); k++; } return k; };
          Family f; f.name = "hierarchies made by hand: all pairs of 17 level numbers, 9 weights, 8 labels, 1..3 points, printed and exported"; f.count = 3 * NK * NK * NW * NL;
          f.run = [=](Ctx& c, uint64_t i) { std::vector<double> r; size_t n, k = mk(i, r, n); scratch(); track_reset(); void* t; { In in; t = sut_hier_make(r.data(), k, n); } Res h; h.n = n; for (size_t q = 0; q < k; q++) { Level l; const double* p = &r[q * (n + 2)]; l.key = (long)p[0]; l.w = p[1]; for (size_t j = 0; j < n; j++) l.lab.push_back((long)p[2 + j]); h.hier.push_back(l); }
            std::string s = no_stamps(capture([&] { In in; sut_hier_print(t, n, nullptr); })); Lines P = lines(s); if (P.size() != k) fail("printed hierarchy: %zu lines for %zu levels", P.size(), k); std::vector<char> seen(k, 0); for (auto& l : P) { auto g = numbers(l); bool hit = false; for (size_t q = 0; q < k && !g.empty(); q++) if (!seen[q] && g[0].v == (double)h.hier[q].key) { seen[q] = 1; hit = true; check_level_numbers(g, h.hier[q], true, n, "printed hierarchy"); break; } if (!hit) fail("printed hierarchy: no level has the number of the line \"%.60s\"", l.c_str()); }
            char fn[] = "made"; s = capture([&] { In in; sut_hier_print(t, n, fn); }); check_files("made", h); unlink("made_hierarchy.csv"); unlink("made_visualization.vis"); { In in; sut_hier_destroy(t); } if (live()) fail("%zu allocations not released", live()); c.trans(2); c.trace(); c.state(ex::hbytes(r.data(), r.size() * 8)); };
          f.desc = [=](uint64_t i) { std::vector<double> r; size_t n, k = mk(i, r, n); std::string d = fmt("%zu levels of %zu points [number weight labels]:", k, n); for (double x : r) d += fmt(" %.17g", x); return d; }; v.push_back(f); }
        { static const unsigned NS[] = {0, 1, 255, 256, 257, 1000, 4095, 4096}, PS[] = {0, 1, 2, 255, 256, 1000, 5000}; Family f; f.name = "hierarchies made by hand: 0..4096 levels x 0..5000 points (up to 200000 labels)"; std::vector<std::pair<unsigned, unsigned>> z; for (unsigned a : NS) for (unsigned b : PS) if ((uint64_t)a * (b + 1) <= 200000) z.push_back({a, b}); f.count = z.size();
          f.run = [=](Ctx& c, uint64_t i) { size_t k = z[i].first, n = z[i].second; std::vector<double> r; Res h; h.n = n; for (size_t q = 0; q < k; q++) { Level l; l.key = (long)q; l.w = (double)q / 8; r.push_back((double)q); r.push_back(l.w); for (size_t j = 0; j < n; j++) { l.lab.push_back((long)(j * (q + 1) % 70001)); r.push_back((double)l.lab.back()); } h.hier.push_back(l); } r.push_back(0);
            scratch(); track_reset(); void* t; { In in; t = sut_hier_make(r.data(), k, n); } std::string s = no_stamps(capture([&] { In in; sut_hier_print(t, n, nullptr); })); Lines P = lines(s); if (P.size() != k) fail("printed hierarchy: %zu lines for %zu levels", P.size(), k); for (size_t q = 0; q < k; q++) check_level_numbers(numbers(P[q]), h.hier[q], true, n, "printed hierarchy");
            char fn[] = "made"; s = capture([&] { In in; sut_hier_print(t, n, fn); }); check_files("made", h); unlink("made_hierarchy.csv"); unlink("made_visualization.vis"); { In in; sut_hier_destroy(t); } if (live()) fail("%zu allocations not released", live()); c.trans(2); c.trace(); c.state(i); };
          f.desc = [=](uint64_t i) { return fmt("%u levels of %u points", z[i].first, z[i].second); }; v.push_back(f); }
        { static const double ID[] = {0, 1, 255, 256, 32768, 65536, 2147483647.0}; size_t B = BIG.size(); Family f; f.name = "outlier scores: two entries, scores and core distances over 12 magnitudes, 7 point numbers"; f.count = B * B * 7;
          f.run = [=](Ctx& c, uint64_t i) { double a = BIG[i % B], b = BIG[i / B % B]; double r[6] = {ID[i / B / B], a, b, ID[(i / B / B + 3) % 7], b, a}; std::string s = capture([&] { In in; sut_scores_print(r, 2); }); expect(numbers(no_stamps(s)), {r[0], r[2], r[1], r[3], r[5], r[4]}, "outlier scores"); c.trans(); c.trace(); c.state(i); };
          f.desc = [=](uint64_t i) { return fmt("score %g, core distance %g, point %.0f", BIG[i % B], BIG[i / B % B], ID[i / B / B]); }; v.push_back(f); }
        { static const unsigned NS[] = {127, 128, 254, 255, 256, 257, 1023, 1024, 32767, 32768, 33000, 65535, 65536, 65537, 70000}; Family f; f.name = "cluster map: clusters of 127..70000 points, 1..3 of them, and as many clusters"; f.count = 15 * 4;
          f.run = [=](Ctx& c, uint64_t i) { size_t n = NS[i / 4], k = i % 4; if (sut_sizeof(1) == 2 && n * (k + 1) > 30000) return; if (k == 3 && n > 5000) return; std::vector<double> l; if (k == 3) for (size_t q = 0; q < n; q++) l.push_back((double)q); else for (size_t q = 0; q < n * (k + 1); q++) l.push_back((double)(q % (k + 1)) * 77); scratch(); track_reset(); void* t; { In in; t = sut_cluster_map(l.data(), l.size(), 0, l.size(), nullptr); }
            sut_blob b = {nullptr, 0, 0}; sut_map_read(t, &b); std::vector<double> e, e2; size_t p = 1; for (size_t q = (size_t)b.v[0]; q--;) { e.push_back(b.v[p]); e2.push_back(b.v[p]); size_t m = (size_t)b.v[p + 1]; e2.push_back((double)m); p += 2; while (m--) e.push_back(b.v[p++]); } sut_blob_free(&b);
            expect(numbers(capture([&] { In in; sut_print(nullptr, 0, t, nullptr, nullptr, nullptr); })), e, "cluster map"); expect(numbers(capture([&] { In in; sut_print(nullptr, 1, t, nullptr, nullptr, nullptr); })), e2, "cluster sizes"); { In in; sut_cluster_map_destroy(t); } if (live()) fail("leak"); c.trans(2); c.trace(); c.state(i); };
          f.desc = [=](uint64_t i) { return fmt("%u points per cluster, pattern %d", NS[i / 4], (int)(i % 4)); }; v.push_back(f); }
        // file names
        { Family f; unsigned N = 235; f.name = "export: every name length 1..235, 3 kinds of characters"; f.count = N * 3; auto mk = [](uint64_t i) { std::string s; size_t n = i / 3 + 1; for (size_t k = 0; k < n; k++) s += i % 3 == 0 ? (char)('a' + k % 26) : i % 3 == 1 ? "%s%n%d ,;"[k % 9] : "\xc3\xa9.-_ "[k % 6]; return s; };
          f.run = [=](Ctx& c, uint64_t i) { std::string dir = scratch(), nm = mk(i); Data d; d.rows = 6; d.cols = 1; d.x = {0, 1, 2, 10, 11, 12.5}; Packed pk(d, H_DOUBLE_); track_reset(); void* h; { In in; h = sut_new(2); sut_run(h, pk.p, 6, 1, 1, H_DOUBLE_); } char* fn = (char*)malloc(nm.size() + 1); memcpy(fn, nm.c_str(), nm.size() + 1); capture([&] { In in; sut_print(h, 4, nullptr, nullptr, nullptr, fn); }); if (nm != fn) fail("the caller's file name was changed"); free(fn);
            check_files(nm, read(h)); unlink((nm + "_hierarchy.csv").c_str()); unlink((nm + "_visualization.vis").c_str()); { In in; sut_destroy(h); } if (live()) fail("%zu allocations not released", live()); c.trans(); c.trace(); c.state(i); };
          f.desc = [=](uint64_t i) { return "name " + mk(i); }; v.push_back(f); }
        { Family f; f.name = "export: directory paths of 10..3500 characters, and a directory that does not exist"; f.count = 71;
          f.run = [=](Ctx& c, uint64_t i) { std::string dir = scratch(), p; size_t want = i == 70 ? 30 : 10 + i * 50; std::vector<std::string> made; while (p.size() + 2 < want) { size_t k = std::min<size_t>(200, want - p.size() - 1); p += std::string(k, 'd'); if (i < 70 && mkdir(p.c_str(), 0755) && errno != EEXIST) break; made.push_back(p); p += "/"; } std::string nm = p + "x";
            Data d; d.rows = 5; d.cols = 1; d.x = {0, 1, 5, 6, 30}; Packed pk(d, H_DOUBLE_); track_reset(); void* h; { In in; h = sut_new(2); sut_run(h, pk.p, 5, 1, 1, H_DOUBLE_); } char* fn = strdup(nm.c_str()); std::string s = capture([&] { In in; sut_print(h, 4, nullptr, nullptr, nullptr, fn); }); free(fn); Res r = read(h);
            if (i < 70) { check_files(nm, r); unlink((nm + "_hierarchy.csv").c_str()); unlink((nm + "_visualization.vis").c_str()); } { In in; sut_destroy(h); } if (live()) fail("%zu allocations not released", live()); for (size_t k = made.size(); k-- > 0;) rmdir(made[k].c_str()); c.trans(); c.trace(); c.state(i); };
          f.desc = [=](uint64_t i) { return i == 70 ? std::string("missing directory") : fmt("path of %d characters", (int)(10 + i * 50)); }; v.push_back(f); }
        return v; });
}
