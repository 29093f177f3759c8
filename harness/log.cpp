// C33: messages are logged whole, once and in order, and a debug build computes and shows the same. The ordinary and the
// debug build of the library are loaded side by side; each worker has a scratch directory as its working directory.
#include "datasets.hpp"
#include "capture.hpp"
#include "text.hpp"
#include "hdbscan/logger.h"
#include <dlfcn.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <memory>
using namespace ds; using namespace sut; using ex::Ctx; using ex::Family;
// the clock as the library sees it
static long fake = -1; static time_t real_time() { struct timespec t; return syscall(SYS_clock_gettime, CLOCK_REALTIME, &t) ? 0 : t.tv_sec; }
extern "C" time_t time(time_t* p) { time_t t = fake >= 0 ? (time_t)fake : real_time(); if (p) *p = t; return t; }
extern "C" int gettimeofday(struct timeval* __restrict t, void* __restrict) noexcept { struct timespec s; syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); t->tv_sec = fake >= 0 ? fake : s.tv_sec; t->tv_usec = fake >= 0 ? 0 : s.tv_nsec / 1000; return 0; }
extern "C" int clock_gettime(clockid_t c, struct timespec* s) noexcept { int r = (int)syscall(SYS_clock_gettime, c, s); if (!r && c == CLOCK_REALTIME && fake >= 0) { s->tv_sec = fake; s->tv_nsec = 0; } return r; }
struct Api { bool debug; void (*init)(); void (*write)(enum LOGTYPE, const char*); void (*close)(); 
#define ALL F(sut_new) F(sut_run) F(sut_rerun) F(sut_destroy) F(sut_read) F(sut_blob_free) F(sut_cluster_map_of) F(sut_cluster_map_destroy) F(sut_distance_map) F(sut_distance_map_destroy) F(sut_stats) F(sut_validity) F(sut_print) F(sut_set_threads) F(sut_sort_by_length)
#define F(n) decltype(&n) n##_;
    ALL
#undef F
};
static Api N, G;
#define HID __attribute__((visibility("hidden")))
extern "C" { HID void* sut_new(unsigned long m) { return N.sut_new_(m); } HID int sut_run(void* h, void* d, unsigned long r, unsigned long c, int w, int t) { return N.sut_run_(h, d, r, c, w, t); } HID void sut_destroy(void* h) { N.sut_destroy_(h); } }
static void load(Api& a, const char* path, bool debug) {
    void* l = dlopen(path, RTLD_NOW | RTLD_LOCAL); if (!l) { fprintf(stderr, "%s\n", dlerror()); exit(2); } a.debug = debug;
#define SY(f, n) a.f = (decltype(a.f))dlsym(l, n); if (!a.f) { fprintf(stderr, "no %s\n", n); exit(2); }
#define F(n) SY(n##_, #n)
    ALL SY(init, "logger_init") SY(write, "logger_write") SY(close, "logger_close")
}
static std::string slurp(const char* p) { FILE* f = fopen(p, "rb"); std::string s; if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static const char* LOG = "hdbscan.log";
static void scratch() {
    static pid_t owner = 0; if (owner == getpid()) return; owner = getpid(); char t[4096]; const char* base = getenv("VERIF_SCRATCH"); snprintf(t, sizeof t, "%s/log.XXXXXX", base ? base : "/tmp"); if (!mkdtemp(t) || chdir(t)) fail("no scratch directory");
    capture([] { for (Api* a : {&N, &G}) { a->init(); a->write(INFO, "warm"); a->close(); } }); unlink(LOG);
}
// [date time] of a number of seconds, by our own arithmetic (time zone UTC)
static std::string stamp(long t) {
    long days = t / 86400, s = t % 86400, y = 1970, m = 0; auto leap = [](long q) { return (q % 4 == 0 && q % 100 != 0) || q % 400 == 0; }; while (days >= (leap(y) ? 366 : 365)) days -= leap(y) ? 366 : 365, y++;
    static const int ML[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; while (days >= ML[m] + (m == 1 && leap(y))) days -= ML[m] + (m == 1 && leap(y)), m++; return fmt("[%04ld-%02ld-%02ld %02ld:%02ld:%02ld]", y, m + 1, days + 1, s / 3600, s / 60 % 60, s % 60);
}
static const char* NAME[] = {"FATAL", "ERROR", "INFO", "WARN"};
static std::string expected(int type, const std::string& m, long t) { return type == NONE ? m : stamp(t) + " " + NAME[type] + ": " + m; }
static std::string msg(unsigned k) {
    switch (k) { case 0: return ""; case 1: return "x"; case 2: return "a line\n"; case 3: return "%s %d %n %% %c %999999999d\n"; case 4: return "\xc3\xa9\t\x01 \xff"; case 5: return std::string(99, 'a') + "\n"; case 6: return std::string(300, '.'); default: return std::string(70001, 'b') + "\n"; }
}
static void same_text(const std::string& got, const std::string& want, const char* where) {
    if (got == want) return; size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    fail("%s: %zu characters where %zu are expected; from character %zu on \"%s\" instead of \"%s\"", where, got.size(), want.size(), i, got.substr(i, 60).c_str(), want.substr(i, 60).c_str());
}
struct Op { int k, type; unsigned m; };      // k: 0 write, 1 open, 2 close
static const unsigned NM = 8;
// the text a list of operations leaves, on standard output or (debug build) in the file
static void play(Ctx& c, Api& a, const std::vector<Op>& ops, long t, const std::string& before) {
    unlink(LOG); if (before != "-") { FILE* f = fopen(LOG, "wb"); fwrite(before.data(), 1, before.size(), f); fclose(f); }
    std::string file = before == "-" ? "" : before, outw, pend; bool exists = before != "-", open = false; track_reset(); std::vector<std::string> keep;
    std::string got = capture([&] { for (auto& o : ops) { c.trans();
        if (o.k == 1) { { In in; fake = t; a.init(); fake = -1; } open = true; exists = exists || a.debug; }
        else if (o.k == 2) { { In in; a.close(); } open = false; if (a.debug) { file += pend; pend.clear(); same_text(slurp(LOG), file, "the log after it was closed"); } }
        else { std::string m = msg(o.m); std::unique_ptr<char[]> x(new char[m.size() + 1]); memcpy(x.get(), m.c_str(), m.size() + 1); { In in; fake = t; a.write((enum LOGTYPE)o.type, x.get()); fake = -1; } if (memcmp(x.get(), m.c_str(), m.size() + 1)) fail("the message was changed by writing it"); (a.debug ? pend : outw) += expected(o.type, m, t); }
        } if (open && a.debug) { a.close(); file += pend; } });
    same_text(got, outw, "standard output"); if (a.debug) same_text(slurp(LOG), file, "the log"); else if (!exists && access(LOG, F_OK) == 0) fail("a log file appears without debugging"); else if (exists) same_text(slurp(LOG), file, "the log");
    if (live()) fail("%zu allocations not released", live()); unlink(LOG); c.trace();
}
static std::string show(const std::vector<Op>& ops) { std::string s; for (auto& o : ops) s += o.k == 1 ? " open" : o.k == 2 ? " close" : fmt(" write(%s, message %u)", o.type == NONE ? "NONE" : NAME[o.type], o.m); return s; }
static Family words(unsigned depth) {
    const unsigned A = 5 * NM; uint64_t per = ipow(A, depth); Family f; f.name = fmt("all sequences of %u messages over 5 types x %u texts, both builds", depth, NM); f.count = per * 2;
    auto mk = [=](uint64_t i) { std::vector<Op> v; v.push_back({1, 0, 0}); i /= 2; for (unsigned k = 0; k < depth; k++) { unsigned q = (unsigned)(i % A); i /= A; v.push_back({0, (int)(q % 5), q / 5}); } v.push_back({2, 0, 0}); return v; };
    f.run = [=](Ctx& c, uint64_t i) { scratch(); play(c, i % 2 ? G : N, mk(i), 1573862400 + (long)i, "-"); c.state(i); }; f.desc = [=](uint64_t i) { return std::string(i % 2 ? "debug build:" : "ordinary build:") + show(mk(i)); }; return f;
}
// histories of open, close and two messages; in the debug build only those that write and close while the log is open
static Family histories(unsigned depth) {
    static std::vector<std::pair<int, std::vector<Op>>> W; W.clear(); for (int b = 0; b < 2; b++) { std::vector<Op> cur; std::function<void(bool)> rec = [&](bool open) { if (!cur.empty()) W.push_back({b, cur}); if (cur.size() >= depth) return;
        if (!open) { cur.push_back({1, 0, 0}); rec(true); cur.pop_back(); } if (open || !b) { cur.push_back({2, 0, 0}); rec(false); cur.pop_back(); for (unsigned k = 0; k < 2; k++) { cur.push_back({0, k ? (int)WARN : (int)NONE, k ? 1u : 2u}); rec(open); cur.pop_back(); } } }; rec(false); }
    static const char* B[] = {"-", "", "earlier text without an end", "line\n"}; Family f; f.name = fmt("all histories of opening, closing and writing to length %u x 4 earlier contents of the file", depth); f.count = W.size() * 4;
    f.run = [](Ctx& c, uint64_t i) { scratch(); auto& w = W[i / 4]; play(c, w.first ? G : N, w.second, 86400 * 366, B[i % 4]); c.state(i); }; f.desc = [](uint64_t i) { return std::string(W[i / 4].first ? "debug build:" : "ordinary build:") + show(W[i / 4].second) + fmt(", file before: %s", B[i % 4]); }; return f;
}
static Family lengths() {
    Family f; f.name = "one message of every length 0..600 and around powers of two to 131072, 5 types, both builds"; static std::vector<size_t> L; L.clear(); for (size_t k = 0; k <= 600; k++) L.push_back(k); for (size_t p = 1024; p <= 131072; p *= 2) for (size_t d = 0; d < 70; d++) L.push_back(p - 40 + d); f.count = L.size() * 10;
    f.run = [](Ctx& c, uint64_t i) { scratch(); Api& a = i % 2 ? G : N; int ty = (int)(i / 2 % 5); std::string m; size_t n = L[i / 10]; for (size_t k = 0; k < n; k++) m += (char)(33 + k % 90); unlink(LOG); track_reset(); std::unique_ptr<char[]> x(new char[n + 1]); memcpy(x.get(), m.c_str(), n + 1);
        std::string s = capture([&] { In in; fake = 951782399; a.init(); a.write((enum LOGTYPE)ty, x.get()); a.close(); fake = -1; }); same_text(a.debug ? slurp(LOG) : s, expected(ty, m, 951782399), "message"); if (a.debug) same_text(s, "", "standard output"); if (live()) fail("%zu allocations not released", live()); unlink(LOG); c.trace(); c.trans(); c.state(i); };
    f.desc = [](uint64_t i) { return fmt("%s build, type %d, %zu characters", i % 2 ? "debug" : "ordinary", (int)(i / 2 % 5), L[i / 10]); }; return f;
}
static Family clocks() {
    Family f; f.name = "every boundary of hour, day, month and year from 1970 to 2106 and some later, both builds"; static std::vector<long> T; T.clear(); for (long d = 0; d < 49712; d++) { if (d % 30 == 0 || stamp(d * 86400).substr(9, 2) == "01") { T.push_back(d * 86400); if (d) T.push_back(d * 86400 - 1); T.push_back(d * 86400 + 3600 * (d % 24)); } } for (long t : {2147483646L, 2147483647L, 2147483648L, 4294967295L, 4294967296L, 253402300799L, 951782400L, 4107542399L, 4107542400L}) T.push_back(t); f.count = T.size() * 2;
    f.run = [](Ctx& c, uint64_t i) { scratch(); play(c, i % 2 ? G : N, {{1, 0, 0}, {0, INFO, 2}, {2, 0, 0}}, T[i / 2], "-"); c.state(i); }; f.desc = [](uint64_t i) { return fmt("%s build, %ld seconds after 1970: ", i % 2 ? "debug" : "ordinary", T[i / 2]) + stamp(T[i / 2]); }; return f;
}
// ---- a debug build computes and shows the same
static std::string no_stamps(const std::string& s) { std::string o; for (auto& l : lines(s)) { if (l.empty() || l.find("INFO") != std::string::npos) continue; if (l.find("/////") != std::string::npos) continue; size_t q = 0; for (const char* t : {"FATAL: ", "ERROR: ", "WARN: "}) if (l[0] == '[' && l.size() > 22 && l.compare(22, strlen(t), t) == 0) q = 22 + strlen(t); o += l.substr(q) + "\n"; } return o; }
static std::vector<double> contents(Api& a, void* h) { sut_blob b = {nullptr, 0, 0}; a.sut_read_(h, &b, 1); std::vector<double> v(b.v, b.v + b.n); a.sut_blob_free_(&b); return v; }
struct Seen { std::vector<double> run, rerun; std::vector<std::string> text; double st[13]; int val; std::vector<double> order; std::string files; };
static Seen drive(Api& a, const Data& d, unsigned long m) {
    Seen s; Packed pk(d, H_DOUBLE_); unlink(LOG); track_reset(); void *h = nullptr, *ct = nullptr, *dm = nullptr; { In in; a.init(); }
    auto cap = [&](const std::function<void()>& f) { std::string before = a.debug ? slurp(LOG) : "", o = capture([&] { In in; f(); }); if (a.debug) { { In in; a.close(); a.init(); } std::string now = slurp(LOG); if (now.compare(0, before.size(), before)) fail("earlier text of the log was lost"); o = now.substr(before.size()) + o; } s.text.push_back(o); };
    cap([&] { h = a.sut_new_(m); int rc = a.sut_run_(h, pk.p, d.rows, d.cols, 1, H_DOUBLE_); if (rc) fail("the run of the %s build returns %d", a.debug ? "debug" : "ordinary", rc); }); { Out o; s.run = contents(a, h); }
    cap([&] { ct = a.sut_cluster_map_of_(h, 0, d.rows, nullptr); dm = a.sut_distance_map_(h, ct, nullptr); memset(s.st, 0, sizeof s.st); a.sut_stats_(dm, 0, s.st); s.val = a.sut_validity_(s.st); Out o; s.order.assign(d.rows + 2, 0); In i2; size_t k = a.sut_sort_by_length_(ct, nullptr, 0, 0, s.order.data()); s.order.resize(k); });
    for (int w = 0; w < 8; w++) cap([&] { a.sut_print_(h, w, ct, dm, s.st, nullptr); }); { char fn[] = "out"; cap([&] { a.sut_print_(h, 4, ct, dm, s.st, fn); }); s.files = slurp("out_hierarchy.csv") + "|" + slurp("out_visualization.vis"); unlink("out_hierarchy.csv"); unlink("out_visualization.vis"); }
    cap([&] { int rc = a.sut_rerun_(h, m + 1); if (rc) fail("the rerun of the %s build returns %d", a.debug ? "debug" : "ordinary", rc); }); s.rerun = contents(a, h);
    { In in; a.sut_distance_map_destroy_(dm); a.sut_cluster_map_destroy_(ct); a.sut_destroy_(h); a.close(); } if (live()) fail("%zu allocations not released by the %s build", live(), a.debug ? "debug" : "ordinary"); unlink(LOG); return s;
}
static void both(Ctx& c, const Data& d, unsigned long m, const Fam&) {
    scratch(); Seen p = drive(N, d, m), q = drive(G, d, m); auto eq = [](const std::vector<double>& x, const std::vector<double>& y) { return x.size() == y.size() && !memcmp(x.data(), y.data(), 8 * x.size()); };
    if (!eq(p.run, q.run)) fail("a run of the debug build leaves other results"); if (!eq(p.rerun, q.rerun)) fail("a rerun of the debug build leaves other results"); for (int k = 0; k < 13; k++) if (memcmp(p.st + k, q.st + k, 8)) fail("statistic %d is %.17g in the debug build, %.17g in the ordinary one", k, q.st[k], p.st[k]); if (p.val != q.val) fail("the debug build judges %d instead of %d", q.val, p.val); if (p.order != q.order) fail("the debug build orders the clusters differently");
    static const char* W[] = {"run", "maps and statistics", "cluster map", "cluster sizes", "distance map", "statistics", "hierarchy", "outlier scores", "distances", "graph", "exported hierarchy", "rerun"}; if (p.text.size() != q.text.size()) fail("internal");
    for (size_t i = 0; i < p.text.size(); i++) { auto a = numbers(no_stamps(p.text[i])), b = numbers(no_stamps(q.text[i])); if (a.size() != b.size()) fail("%s: the debug build shows %zu numbers instead of %zu", W[i], b.size(), a.size()); for (size_t k = 0; k < a.size(); k++) if (a[k].v != b[k].v && !(std::isnan(a[k].v) && std::isnan(b[k].v))) fail("%s: the debug build shows %s instead of %s", W[i], b[k].t.c_str(), a[k].t.c_str()); }
    if (p.files != q.files) fail("the files exported by the debug build differ"); c.trace(2); c.trans(p.text.size() * 2); c.state(ex::hbytes(p.run.data(), p.run.size() * 8, m));
}
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; i++) { if (!strcmp(argv[i], "--scratch")) setenv("VERIF_SCRATCH", argv[i + 1], 1); if (!strcmp(argv[i], "--ordinary")) load(N, argv[i + 1], false); if (!strcmp(argv[i], "--debug")) load(G, argv[i + 1], true); }
    N.sut_set_threads_(1); G.sut_set_threads_(1);
    return ex::main_(argc, argv, [](bool th) {
        std::vector<Family> v; v.push_back(words(1)); v.push_back(words(2)); if (th) v.push_back(words(3)); v.push_back(histories(th ? 9 : 7)); v.push_back(lengths()); v.push_back(clocks());
        for (auto& f : {grid(1, 1, 2, 3), grid(2, 1, 3, 4), grid(3, 1, 4, 4), grid(5, 1, 3, 4), grid(4, 2, 2, 4), gaps(8, {0, 1, 9}, 2, 3, 1), blocks(3, {line(5, 1), ds::dup(3), ds::dup(1), line(18, 0.5), {0, 1, 2, 40, 41, 42}}, {7, 60}, {2, 3, 5}, 1)}) v.push_back(fam(f, both));
        { Fam f = grid(4, 1, 5, 6); f.name = "magnitudes: 4 points over {0, 1e150, -1e150, 3e-160, 7.25}, minPts 2..6"; auto g = f.get; f.get = [=](uint64_t i) { Data d = g(i); static const double A[5] = {0, 1e150, -1e150, 3e-160, 7.25}; for (double& x : d.x) x = A[(int)x]; return d; }; v.push_back(fam(f, both)); }
        if (th) for (auto& f : {grid(6, 1, 3, 4), gaps(11, {0, 1, 9}, 2, 4, 2), blocks(4, {line(5, 1), ds::dup(3), line(18, 0.5), {0, 1, 2, 40, 41, 42}}, {7, 60}, {2, 3, 5}, 2), blocks(2, {line(33, 1), ds::dup(35), line(66, 0.25)}, {5, 500}, {2, 4, 17, 33}, 3)}) v.push_back(fam(f, both));
        return v; });
}
