// C10: the results of a run, a rerun and everything after it do not depend on the number or scheduling of threads.
#include "coop.hpp"
#include "datasets.hpp"
using namespace ds; using namespace sut; using ex::Ctx; using ex::Family; using ex::fmt; using ex::fail; using sut::Data;
extern "C" void coop_objects(int, int, sut_blob*);
extern "C" void coop_cpp(void*, unsigned long, unsigned long, unsigned long, sut_blob*);

#ifndef PROP
#define PROP 10
#endif
// kind 0: C run, rerun and queries; 1: C++. C36: 2: the jobs of several threads, each with a handle of its own; 3: one handle queried by all of them
struct Job { const Data* d; unsigned long m, m2; int kind; } job;
struct Own { Data d; unsigned long m, m2; int kind, type; }; static std::vector<Own> own; static void* shared; static std::string scratch;
static sut_blob BT[coop::MAXT], B1; static std::vector<double> result;
static int job_number; static int me() { return coop::apps && coop::team > 1 ? coop::cur : job_number; }
#define B0 (BT[me()])
static size_t mark_at[64]; static int nmarks; static void mark() { if (!coop::apps) mark_at[nmarks++] = B0.n; }
static double* dup_data() { const Data& d = *job.d; double* x = (double*)malloc(d.x.size() * sizeof(double) + 8); for (size_t i = 0; i < d.x.size(); i++) x[i] = d.x[i]; return x; }
static void put(const double* v, size_t n) { for (size_t i = 0; i < n; i++) { if (B0.n == B0.cap) { B0.cap = B0.cap ? B0.cap * 2 : 256; B0.v = (double*)realloc(B0.v, B0.cap * sizeof(double)); } B0.v[B0.n++] = v[i]; } }
static void queries(void* h, unsigned long b, unsigned long e) {
    sut_blob q = {nullptr, 0, 0}; void* ct = sut_cluster_map_of(h, b, e, &q); put(q.v, q.n); size_t k = (size_t)q.v[0]; mark();
    sut_blob r = {nullptr, 0, 0}; void* dm = sut_distance_map(h, ct, nullptr); double st[13] = {0};
    if (k) { sut_stats(dm, 0x41, st); put(st, 13); if (coop::apps) { double v = sut_validity(st); put(&v, 1); } } mark();
    sut_distance_map_read(dm, &r); put(r.v, r.n); mark();
    double* all = (double*)malloc((k + 1) * sizeof(double)); double* out = (double*)malloc((k + 1) * sizeof(double));
    for (size_t i = 0; i < k; i++) all[i] = r.v[1 + 7 * (k - 1 - i)];
    for (int have = 0; have < 2; have++) for (int t = 0; t < 3; t++) { size_t c = t == 2 ? sut_sort_by_length(ct, all, k, have, out) : sut_sort_by_similarity(dm, all, k, have, t, out); put(out, c); }
    mark();
    free(all); free(out); sut_distance_map_destroy(dm); sut_cluster_map_destroy(ct); free(q.v); free(r.v);
}
static FILE* text_of[coop::MAXT]; static char* text_at[coop::MAXT]; static size_t text_len[coop::MAXT];
static void free_text(size_t k) { if (text_of[k]) fclose(text_of[k]); text_of[k] = nullptr; __real_free(text_at[k]); text_at[k] = nullptr; }
static void put_text(const char* s, size_t n) { double x = (double)n; put(&x, 1); for (size_t i = 0; i < n; i++) { x = (unsigned char)s[i]; put(&x, 1); } }
static void prints(void* h, unsigned long rows) {
    int k = me();
    void* ct = sut_cluster_map_of(h, 0, rows, nullptr); void* dm = sut_distance_map(h, ct, nullptr); double st[13] = {0}; sut_stats(dm, 0, st);
    for (int w = 0; w < 8; w++) sut_print(h, w, ct, dm, st, nullptr);
    sut_distance_map_destroy(dm); sut_cluster_map_destroy(ct);
    char fn[512]; snprintf(fn, sizeof fn, "%s/thread%d", scratch.c_str(), k); sut_print(h, 4, nullptr, nullptr, nullptr, fn);
    for (const char* e : {"_hierarchy.csv", "_visualization.vis"}) { char p[600]; snprintf(p, sizeof p, "%s%s", fn, e); static char buf[coop::MAXT][1 << 16]; FILE* g = fopen(p, "r"); size_t n = g ? fread(buf[k], 1, 1 << 16, g) : 0; if (g) fclose(g); unlink(p); put_text(buf[k], n); }
}
static void* typed(const Own& o) {
    size_t n = o.d.x.size(); char* p = (char*)malloc(n * 8 + 8);
    for (size_t i = 0; i < n; i++) switch (o.type) { case H_INT_: ((int*)p)[i] = (int)o.d.x[i]; break; case H_FLOAT_: ((float*)p)[i] = (float)o.d.x[i]; break; case H_LONG_: ((long*)p)[i] = (long)o.d.x[i]; break; case H_SHORT_: ((short*)p)[i] = (short)o.d.x[i]; break; case H_CHAR_: p[i] = (char)o.d.x[i]; break; default: ((double*)p)[i] = o.d.x[i]; }
    return p;
}
static void one_job(const Own& o) {
    if (shared) { if (o.kind == 2) prints(shared, o.d.rows); else { queries(shared, 0, o.d.rows); queries(shared, 1, o.d.rows); sut_read(shared, &B0, 1); } return; }
#if PROP == 36
    if (o.kind >= 4) { coop_objects(o.kind, o.type, &B0); return; }
#endif
    void* x = typed(o);
    if (o.kind == 1) coop_cpp(x, o.d.rows, o.d.cols, o.m, &B0);
    else {
        void* h = sut_new(o.m); double rc = sut_run(h, x, o.d.rows, o.d.cols, 1, o.type); put(&rc, 1); sut_read(h, &B0, 1);
        if (o.kind == 2) prints(h, o.d.rows); else if (o.kind == 3) { rc = sut_stages(h, 1); put(&rc, 1); sut_read(h, &B0, 1); } else queries(h, 0, o.d.rows);
        rc = sut_rerun(h, o.m2); put(&rc, 1); sut_read(h, &B0, 1); if (o.kind == 0) queries(h, 1, o.d.rows);
        sut_clean(h); rc = sut_run(h, x, o.d.rows - 1, o.d.cols, 1, o.type); put(&rc, 1); sut_read(h, &B0, 0);
        sut_destroy(h);
    }
    free(x);
}
static std::string no_stamps(const std::string& s) {
    std::string o; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size(); size_t b = s.find(']', i); if (s[i] == '[' && b < e) i = b + 1; o.append(s, i, e - i); o += '\n'; i = e + 1; } return o;
}
// what the job prints is part of its result
static void captured(size_t k) {
    FILE* was = stdout; stdout = text_of[k] = open_memstream(&text_at[k], &text_len[k]);
    one_job(own[k]);
    FILE* f = stdout; stdout = was; fclose(f); text_of[k] = nullptr;
    coop::own_code++; { std::string t = no_stamps(std::string(text_at[k], text_len[k])); free_text(k); coop::own_code--; put_text(t.data(), t.size()); coop::own_code++; } coop::own_code--;
}
static void one_thread(void*) { captured((size_t)me()); }
extern "C" void GOMP_parallel(void (*)(void*), void*, unsigned, unsigned);
static void body() {
    for (auto& b : BT) b = {nullptr, 0, 0};
    nmarks = 0; job_number = 0; shared = nullptr;
    if (job.kind >= 2) {
        int T = coop::want_team; coop::want_team = 1;      // within the threads of the program, the library's own are C10's subject
        void* x = nullptr; if (job.kind == 3) { x = typed(own[0]); shared = sut_new(own[0].m); sut_run(shared, x, own[0].d.rows, own[0].d.cols, 1, own[0].type); }
        if (T == 1) for (size_t k = 0; k < own.size(); k++) { job_number = (int)k; captured(k); }
        else GOMP_parallel(one_thread, nullptr, (unsigned)T, 0);
        job_number = 0; if (shared) { sut_read(shared, &B0, 1); sut_destroy(shared); free(x); }
        return;
    }
    const Data& d = *job.d; double* x = dup_data();
    if (job.kind == 1) coop_cpp(x, d.rows, d.cols, job.m, &B0);
    else {
        void* h = sut_new(job.m); double rc[2]; rc[0] = sut_run(h, x, d.rows, d.cols, 1, 1); put(rc, 1); sut_read(h, &B0, 1); mark(); queries(h, 0, d.rows);
        if (job.m2) { rc[0] = sut_rerun(h, job.m2); put(rc, 1); sut_read(h, &B0, 1); mark(); if (d.rows > 3) queries(h, 1, d.rows - 1); }
        sut_destroy(h);
    }
    free(x); mark();
}
static bool run_once(std::vector<double>& r) {
    FILE* was = stdout; coop::run_body(body); stdout = was; for (size_t k = 0; k < coop::MAXT; k++) free_text(k);
    if (!coop::failure.empty()) return false;
    r.clear(); for (auto& b : BT) r.insert(r.end(), b.v, b.v + b.n);
    return true;
}
static uint64_t hash_of(const std::vector<double>& v) { uint64_t h = 1469598103934665603ULL; for (double d : v) { uint64_t b; memcpy(&b, &d, 8); h = (h ^ b) * 1099511628211ULL; h ^= h >> 29; } return h; }
static const char* part(size_t i) {
    static const char* c[] = {"the run", "the cluster map", "the statistics", "the distance map", "the sorted clusters", "the rerun", "the cluster map after the rerun", "the statistics after the rerun", "the distance map after the rerun", "the sorted clusters after the rerun"};
    if (job.kind == 1) return "the C++ results"; if (job.kind >= 2) { for (int k = 0; k < coop::MAXT; k++) { if (i < BT[k].n) { static char t[64]; snprintf(t, sizeof t, "the results of thread %d", k); return t; } i -= BT[k].n; } return "the end"; } for (int k = 0; k < nmarks; k++) if (i < mark_at[k]) return c[std::min(k, 9)]; return "the end";
}
static void compare(const std::vector<double>& want, const std::vector<double>& got) {
    size_t n = std::min(want.size(), got.size());
    for (size_t i = 0; i < n; i++) { double a = want[i], b = got[i]; if (a == b || (a != a && b != b) || std::fabs(a - b) <= 1e-9 * std::max(std::fabs(a), std::fabs(b))) continue;
        fail("%s: value %zu is %.17g, with one thread %.17g; threads going first or last: policy %d; ", part(i), i, b, a, coop::policy); }
    if (want.size() != got.size()) fail("%zu values instead of %zu, the first %zu agree", got.size(), want.size(), n);
}
static void check(const std::vector<double>& want, const std::vector<double>& got) { try { compare(want, got); } catch (ex::Failure& e) { fail("%s%s", e.msg.c_str(), coop::schedule_text().c_str()); } }
static void broken() { if (coop::failure.compare(0, 7, "HARNESS") == 0) { fprintf(stderr, "%s\n", coop::failure.c_str()); _exit(3); } fail("%s", coop::failure.c_str()); }

static FILE* trace_file;
struct Tally { uint64_t regions, checked, complete, b1, b2, b3; }; static Tally* tally;
static void explore_case(Ctx& c, int T, uint64_t limit) {
    using namespace coop; init(); std::vector<double> want, got;
    explore_region = -1; policy = 0; bound = 0; plen = 0; want_team = 1;
    guards.clear(); for (auto& s : conf) s.clear(); std::fill(syncs.begin(), syncs.end(), 0);
    if (!run_once(want)) broken(); c.trace(); c.state(hash_of(want));
    // every policy on the whole run; bytes on which threads conflict are collected until there are no new ones
    int regions = 0;
    for (int round = 0; ; round++) {
        newconf = false; want_team = T;
        for (policy = 0; policy < 3; policy++) { explore_region = -1; want_team = T; if (!run_once(got)) broken(); check(want, got); c.trace(); c.trans(coop::apps ? naccess : 1); naccess = 0; regions = std::max(regions, region + 1); }
        if (!newconf || round > 50) break;
    }
    for (int r = 0; r < regions; r++) {
        __sync_fetch_and_add(&tally->regions, 1);
        if (conf[(size_t)r].empty() && !syncs[(size_t)r]) continue;       // its threads touch nothing in common: any order is this one
        __sync_fetch_and_add(&tally->checked, 1);
        // deviations from the default order, fewest first; in between all of them, as long as the limit allows
        int same = 0; for (int q = 0; q < r; q++) same += where[q] == where[r]; bool brief = !c.thorough && same >= 2;   // the same loop over and over: once or twice is enough
        int done = -1; bool whole = false, tried = false; uint64_t spent = 0;
        for (int k = 0; k < (brief ? 2 : 1000) && !whole; k++) {
            bool all = k == 2 && !tried; if (all) { tried = true; k = 1; }
            uint64_t from = spent; bool cutany = false, out = false; plen = 0; visited.clear();
            for (;;) {
                explore_region = r; bound = all ? -1 : k; policy = 0; newconf = false; want_team = T;
                bool pr = false; if (!run_once(got)) { if (failure == "PRUNED") pr = true; else broken(); }
                if (!pr) check(want, got);
                c.trace(); spent++; cutany |= cut; c.trans(decisions); decisions = 0; if (!pr) c.state(hash_of(got) * 31 + ppos);
                if (newconf) { plen = 0; cutany = false; visited.clear(); continue; }      // more bytes to watch: all over again
                size_t p = ppos; while (p && pidx[p - 1] + 1 >= pcnt[p - 1]) p--;
                if (!p) break; pidx[p - 1]++; plen = p;
                if (k >= (T > 4 ? 1 : 2) || all) if (spent - from >= (all ? 4 * limit : limit)) { out = true; break; }
            }
            if (all) { for (uint64_t h : visited) c.state(h); if (!out) whole = true; continue; }
            if (out) break; done = k; if (!cutany) whole = true;
        }
        if (whole) __sync_fetch_and_add(&tally->complete, 1); else __sync_fetch_and_add(done >= 3 ? &tally->b3 : done == 2 ? &tally->b2 : &tally->b1, 1);
        if (trace_file) fprintf(trace_file, "REGION %p %d team %d: done %d whole %d runs %lu\n", where[r], r, T, done, whole, (unsigned long)spent);
    }
    explore_region = -1;
}
static Family fam(const Fam& f, std::vector<int> teams, int kind, uint64_t limit) {
    Family F; size_t nt = teams.size(); F.name = fmt("%s, %s, teams", f.name.c_str(), kind ? "C++" : "C"); for (int t : teams) F.name += fmt(" %d", t); F.count = f.count * nt; F.case_timeout = 120;
    F.run = [=](Ctx& c, uint64_t i) { Data d = f.get(i / nt); job.d = &d; job.m = f.minPts(i / nt); job.m2 = job.m == 2 ? 3 : 2; job.kind = kind; explore_case(c, teams[i % nt], limit); };
    F.desc = [=](uint64_t i) { return fmt("%s minPts %lu, team of %d", f.get(i / nt).str().c_str(), f.minPts(i / nt), teams[i % nt]); };
    return F;
}
// ---- C36: threads of the program
static std::vector<Own> jobs() {
    std::vector<Own> v; auto mk = [&](unsigned long cols, std::vector<double> x, unsigned long m, unsigned long m2, int kind, int type) { Own o; o.d.cols = cols; o.d.rows = x.size() / cols; o.d.x = x; o.m = m; o.m2 = m2; o.kind = kind; o.type = type; v.push_back(o); };
    std::vector<double> a = {0, 1, 2, 50, 51, 53, 200, 202, 300}, b = {0, 0, 0, 5, 5, 5, 20}, c = {1, 1, 2, 1, 9, 3, 10, 3, 30, 40, 31, 41, 33, 40, 90, 90}, d; for (int k = 0; k < 16; k++) d.push_back(k * k % 11 + (k / 4) * 40);
    mk(1, a, 2, 3, 0, H_DOUBLE_); mk(1, b, 3, 2, 0, H_INT_); mk(2, c, 2, 4, 0, H_FLOAT_); mk(1, a, 3, 2, 1, H_DOUBLE_); mk(2, c, 2, 3, 1, H_DOUBLE_);
    mk(1, b, 2, 3, 2, H_LONG_); mk(2, c, 2, 9, 2, H_SHORT_); mk(1, d, 2, 3, 3, H_CHAR_); mk(1, a, 2, 2, 3, H_DOUBLE_); mk(1, {7, 8, 9}, 5, 2, 0, H_CHAR_);
    for (int k = 4; k <= 6; k++) for (int t = 0; t < 2; t++) mk(1, {0}, 2, 2, k, t);
    return v;
}
static void several_case(Ctx& c, const std::vector<Own>& o, int kind, uint64_t limit) {
    if (scratch.empty() || access(scratch.c_str(), W_OK)) { char t[4096]; const char* b = getenv("VERIF_SCRATCH"); snprintf(t, sizeof t, "%s/threads.XXXXXX", b ? b : "/tmp"); if (!mkdtemp(t)) fail("no scratch directory"); scratch = t; }
    own = o; job.d = &own[0].d; job.m = own[0].m; job.m2 = 0; job.kind = kind; explore_case(c, (int)own.size(), limit);
}
static void several(std::vector<Family>& v, bool th) {
    auto J = jobs(); size_t n = J.size(), nh = n - 6; uint64_t L = th ? 10000 : 300;
    auto say = [](const std::vector<Own>& o) { static const char* K[] = {"C", "C++", "C with printing", "C step by step", "lists and sets", "tables, linked lists and primes", "graph and clusters"}; std::string s; for (auto& q : o) s += fmt("[%s %s minPts %lu, %lu, type %d] ", K[q.kind], q.d.str().c_str(), q.m, q.m2, q.type); return s; };
    { Family F; F.name = fmt("two threads with a handle each, all pairs of %zu jobs", n); F.count = n * n; F.case_timeout = 300; auto mk = [=](uint64_t i) { return std::vector<Own>{J[i / n], J[i % n]}; }; F.run = [=](Ctx& c, uint64_t i) { several_case(c, mk(i), 2, L); }; F.desc = [=](uint64_t i) { return say(mk(i)); }; v.push_back(F); }
    { Family F; F.name = fmt("three threads with a handle each, all triples of %zu jobs", n); F.count = n * n * n; F.case_timeout = 300; auto mk = [=](uint64_t i) { return std::vector<Own>{J[i / n / n], J[i / n % n], J[i % n]}; }; F.run = [=](Ctx& c, uint64_t i) { several_case(c, mk(i), 2, L); }; F.desc = [=](uint64_t i) { return say(mk(i)); }; v.push_back(F); }
    if (th) { Family F; F.name = fmt("four threads with a handle each, all quadruples of %zu jobs", n); F.count = n * n * n * n; F.case_timeout = 300; auto mk = [=](uint64_t i) { return std::vector<Own>{J[i / n / n / n], J[i / n / n % n], J[i / n % n], J[i % n]}; }; F.run = [=](Ctx& c, uint64_t i) { several_case(c, mk(i), 2, L); }; F.desc = [=](uint64_t i) { return say(mk(i)); }; v.push_back(F); }
    for (int T = 2; T <= (th ? 5 : 3); T++) { Family F; F.name = fmt("%d threads asking one handle: questions or printing each", T); F.count = nh << T; F.case_timeout = 300; auto mk = [=](uint64_t i) { std::vector<Own> o; for (int t = 0; t < T; t++) { o.push_back(J[i >> T]); o.back().kind = (i >> t & 1) ? 2 : 0; } return o; };
        F.run = [=](Ctx& c, uint64_t i) { several_case(c, mk(i), 3, L); }; F.desc = [=](uint64_t i) { return "one handle: " + say(mk(i)); }; v.push_back(F); }
}
int main(int argc, char** argv) {
    if (const char* e = getenv("COOP_TRACE")) { trace_file = fopen(e, "a"); setvbuf(trace_file, nullptr, _IOLBF, 512); }
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--scratch")) setenv("VERIF_SCRATCH", argv[i + 1], 1);
    tally = (Tally*)mmap(nullptr, sizeof(Tally), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int rc = ex::main_(argc, argv, [](bool th) {
        std::vector<Family> v; uint64_t L = th ? 10000 : 300;
        typedef std::vector<int> I;
        if (PROP == 36) { coop::apps = true; several(v, th); return v; }
        v.push_back(fam(grid(4, 1, 3, 3), I{2, 3, 4, 5}, 0, L));
        v.push_back(fam(gaps(6, {1, 2, 9}, 2, 3), th ? I{2, 3, 4} : I{2, 3}, 0, L));
        v.push_back(fam(gaps(6, {1, 9}, 2, 3), th ? I{4, 5, 6, 7} : I{4}, 0, L));
        v.push_back(fam(gaps(5, {0, 1, 7}, 2, 2), I{2, 3}, 1, L));
        v.push_back(fam(gaps(9, {1, 20}, 2, 2), th ? I{2, 3, 4, 5} : I{2, 3}, 0, L));
        v.push_back(fam(gaps(9, {1, 20}, 2, 2), th ? I{2, 3, 4} : I{3}, 1, L));
        return v;
    });
    printf("regions %llu, with shared data or synchronisation %llu: all schedules of %llu, at least 3 deviations from the default order %llu, 2 %llu, 1 %llu\n", (unsigned long long)tally->regions, (unsigned long long)tally->checked, (unsigned long long)tally->complete, (unsigned long long)tally->b3, (unsigned long long)tally->b2, (unsigned long long)tally->b1);
    return rc;
}
