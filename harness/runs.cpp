// C08 infinite stability, C09 handle histories, C11 invariances, C31 degenerate data, C35 read-only data and queries.
#include <sys/mman.h>
#include "datasets.hpp"
#include "model.hpp"
#include "capture.hpp"
using namespace ds; using namespace sut; using ex::Ctx; using ex::Family; using ex::fail; using ex::fmt;
#ifndef PROP
#define PROP 8
#endif
static bool warned(std::string s) { for (char& c : s) c = (char)tolower(c); return s.find("warn") != std::string::npos || s.find("infinite") != std::string::npos; }

// ------------------------------------------------------------------ C08
static void c08(Ctx& c, const Data& d, unsigned long m, const Fam&) {
    Packed pk(d, H_DOUBLE_); track_reset(); void* h;
    for (int pass = 0; pass < 2; pass++) {
        std::string out; unsigned long mm = m + (unsigned long)pass; int rc = 0;
        out = capture([&] { In in; if (!pass) { h = sut_new(m); rc = sut_run(h, pk.p, d.rows, d.cols, 1, H_DOUBLE_); } else rc = sut_rerun(h, mm); }); if (rc) fail("run failed");
        Res r = read(h); model::Tree t = model::build(r.n, mm, r.dist, r.core, sut_dmax()); bool e = model::has_inf(t);
        if (warned(out) != e) fail("minPts=%lu: the run %s a warning, infinite stability %s (printed: %.200s)", mm, warned(out) ? "prints" : "prints no", e ? "occurs" : "does not occur", out.c_str());
        bool lib = false; for (auto& q : r.clu) if (q.label != 1 && std::isinf(q.stab)) lib = true;
        if (lib != e) fail("minPts=%lu: a cluster of the handle has %s stability, expected %s", mm, lib ? "infinite" : "only finite", e ? "infinite" : "finite");
        int a = 0; out = capture([&] { In in; a = sut_propagate_again(h); });
        if ((a != 0) != e || warned(out) != e) fail("minPts=%lu: propagation returns %d and prints %s warning, infinite stability %s", mm, a, warned(out) ? "a" : "no", e ? "occurs" : "does not occur");
        c.state(ex::mix(ex::hbytes(r.lab.data(), r.lab.size() * sizeof(long), mm), e)); c.trans(3);
    }
    { In in; sut_destroy(h); } c.trace();
}

// ------------------------------------------------------------------ C09
struct Set { Data d; int type, rowwise; };
static std::vector<Set>& sets() {
    static std::vector<Set> v; if (!v.empty()) return v;
    auto mk = [](unsigned long r, unsigned long c, std::vector<double> x) { Data d; d.rows = r; d.cols = c; d.x = x; return d; };
    v.push_back({mk(7, 1, {0, 0, 0, 5, 5, 5, 20}), H_DOUBLE_, 1});                           // duplicates: infinite stability
    { std::vector<double> x; for (int k = 0; k < 14; k++) { x.push_back(k < 6 ? k : k < 10 ? 50 + 2 * k : 200 + k * k); x.push_back(k % 3); } v.push_back({mk(14, 2, x), H_INT_, 1}); }
    v.push_back({mk(1, 3, {1, 2, 3}), H_SHORT_, 1});                                          // a single point
    { std::vector<double> x; for (int k = 0; k < 40; k++) x.push_back((k / 10) * 100 + (k % 10) * (1 + k / 20) + 0.25 * (k % 3)); v.push_back({mk(8, 5, x), H_FLOAT_, 0}); }      // 40 points, element by element
    v.push_back({mk(4, 2, {1, 1, 1, 1, 1, 1, 1, 1}), H_LONG_, 1});                            // identical points
    return v;
}
static Res fresh(size_t s, unsigned long m) {
    static std::map<std::pair<size_t, unsigned long>, Res> memo; auto k = std::make_pair(s, m); auto it = memo.find(k); if (it != memo.end()) return it->second;
    Res r = run_once(sets()[s].d, m, sets()[s].type, sets()[s].rowwise); memo[k] = r; return r;
}
static const char* HOP[] = {"run dups", "run ints", "run single", "run floats", "run identical", "rerun 2", "rerun 3", "rerun 6", "clean", "queries"};
static const unsigned NHO = 10;
static void queries(void* h, const Res& want) {
    sut_blob a = {0, 0, 0}, b = {0, 0, 0}; std::vector<double> out(want.n + 2); double st[13];
    { Out o; } void* ct = sut_cluster_map_of(h, 0, want.n, NULL); (void)a; (void)b; void* dm = sut_distance_map(h, ct, NULL); sut_stats(dm, 0x41, st);
    sut_sort_by_similarity(dm, NULL, 0, 0, 0, out.data()); sut_sort_by_length(ct, NULL, 0, 0, out.data()); sut_distance_map_destroy(dm); sut_cluster_map_destroy(ct);
}
struct H { void* h = nullptr; bool inmem = false; char* mem = nullptr; unsigned long m = 0; long set = -1; bool valid = false; };
static void h_open(H& x, unsigned long m, bool inmem, int fill) { x.m = m; x.inmem = inmem; if (inmem) { x.mem = (char*)malloc(sut_handle_size()); memset(x.mem, fill, sut_handle_size()); } In in; x.h = inmem ? sut_new_in(x.mem, m) : sut_new(m); if (!x.h) fail("no handle"); }
static void h_close(H& x) { In in; if (x.inmem) sut_clean(x.h); else sut_destroy(x.h); }
static void h_free(H& x) { free(x.mem); x.mem = nullptr; }
static bool h_step(Ctx& c, H& x, int o, size_t step) {
    int rc = 0;
    if (o < 5) { const Set& s = sets()[(size_t)o]; Packed pk(s.d, s.type); { In in; rc = sut_run(x.h, pk.p, s.d.rows, s.d.cols, s.rowwise, s.type); } x.set = o; x.valid = true; }     // the data set is gone after the run
    else if (o < 8) { if (!x.valid) return false; x.m = o == 5 ? 2 : o == 6 ? 3 : 6; In in; rc = sut_rerun(x.h, x.m); }
    else if (o == 8) { In in; sut_clean(x.h); x.valid = false; }
    else { if (!x.valid) return false; Res w = fresh((size_t)x.set, x.m); In in; queries(x.h, w); }
    if (rc) fail("step %zu (%s) returned %d", step, HOP[o], rc);
    return true;
}
static void h_compare(Ctx& c, H& x, size_t step) {
    if (!x.valid) return; Res w = fresh((size_t)x.set, x.m), g = read(x.h);
    if (g.n != w.n || g.minPts != x.m) fail("step %zu: %zu points and minPts %zu, expected %zu and %lu", step, g.n, g.minPts, w.n, x.m);
    if (g.raw.size() != w.raw.size() || memcmp(g.raw.data(), w.raw.data(), g.raw.size() * 8)) {
        for (size_t i = 0; i < g.raw.size() && i < w.raw.size(); i++) if (memcmp(&g.raw[i], &w.raw[i], 8)) fail("step %zu: the handle's results differ from a fresh handle's with data set %ld and minPts %lu (value %zu: %g instead of %g)", step, x.set, x.m, i, g.raw[i], w.raw[i]);
        fail("step %zu: the handle's results differ in size from a fresh handle's", step); }
    c.state(ex::mix((uint64_t)x.set, x.m)); c.trans();
}
static std::vector<int> digits(uint64_t i, unsigned base, unsigned n) { std::vector<int> w; while (n--) { w.push_back((int)(i % base)); i /= base; } return w; }
static void c09(std::vector<Family>& v, bool th) {
    for (int inmem = 0; inmem < 2; inmem++) for (unsigned long m0 : {2UL, 4UL}) { unsigned depth = m0 == 2 && !inmem ? (th ? 6 : 5) : (th ? 5 : 4); Family f; f.name = fmt("one handle, %s, minPts %lu, all words of %u operations", inmem ? "caller's memory" : "allocated", m0, depth); f.count = ipow(NHO, depth);
        auto dsc = [=](uint64_t i) { std::string s = fmt("init(%lu)", m0); for (int o : digits(i, NHO, depth)) s += std::string(", ") + HOP[o]; return s + (inmem ? ", clean" : ", destroy"); };
        f.run = [=](Ctx& c, uint64_t i) { for (size_t s = 0; s < 5; s++) for (unsigned long m : {2UL, 3UL, 4UL, 6UL}) fresh(s, m); track_reset(); H x; h_open(x, m0, inmem, i % 2 ? 0xA5 : 0x01); auto w = digits(i, NHO, depth);
            for (size_t s = 0; s < w.size(); s++) { if (!h_step(c, x, w[s], s)) continue; h_compare(c, x, s); }
            h_close(x); if (live()) fail("%zu allocations (%zu bytes) not released at the end", live(), live_bytes()); h_free(x); c.trace(); };
        f.desc = dsc; v.push_back(f); }
    { unsigned depth = th ? 4 : 3; Family f; f.name = fmt("two handles, all interleaved words of %u operations after one run each", depth); f.count = ipow(2 * NHO, depth) * 25;
      auto dsc = [=](uint64_t i) { std::string s = fmt("h0 %s, h1 %s", HOP[i % 5], HOP[i / 5 % 5]); for (int o : digits(i / 25, 2 * NHO, depth)) s += fmt(", h%d %s", o / (int)NHO, HOP[o % (int)NHO]); return s; };
      f.run = [=](Ctx& c, uint64_t i) { for (size_t s = 0; s < 5; s++) for (unsigned long m : {2UL, 3UL, 6UL}) fresh(s, m); track_reset(); H x[2]; h_open(x[0], 2, false, 0); h_open(x[1], 3, false, 0);
        h_step(c, x[0], (int)(i % 5), 0); h_step(c, x[1], (int)(i / 5 % 5), 1); auto w = digits(i / 25, 2 * NHO, depth);
        for (size_t s = 0; s < w.size(); s++) { h_step(c, x[w[s] / (int)NHO], w[s] % (int)NHO, s + 2); h_compare(c, x[0], s + 2); h_compare(c, x[1], s + 2); }
        h_close(x[0]); h_compare(c, x[1], 99); h_close(x[1]); if (live()) fail("%zu allocations not released at the end", live()); c.trace(); };
      f.desc = dsc; v.push_back(f); }
    // numbers of points around the limits of narrow integers, one after the other in the same handle
    { std::vector<unsigned> NS = {1, 2, 100, 128, 255, 256, 257, 300}; if (th) NS.insert(NS.end(), {127, 129, 254, 258, 400, 513}); Fam g = sizes(NS); size_t k = NS.size(); Family f; f.name = fmt("one handle, all ordered pairs of %zu sizes up to %u points, 3 shapes, 4 element types, rerun between and after", k, NS.back()); f.count = k * k * 3 * 4;
      auto at = [=](size_t n, unsigned sh) { Data d = g.get(((uint64_t)(n * 6 + (sh == 2 ? 4 : sh)) * 2) * 7); for (double& x : d.x) x = std::fmod(std::floor(x), 30011); return d; };
      f.run = [=](Ctx& c, uint64_t i) { static const int T[4] = {H_DOUBLE_, H_INT_, H_FLOAT_, H_SHORT_}; size_t a = i % k, b = i / k % k; unsigned sh = (unsigned)(i / k / k % 3); int t = T[i / k / k / 3]; Data d[2] = {at(a, sh), at(b, (sh + 1) % 3)}; unsigned long M[3] = {2, 5, 256}; std::vector<Res> w; for (auto& q : d) for (unsigned long m : M) w.push_back(run_once(q, m, t, 1, false)); track_reset(); void* h; { In in; h = sut_new(2); }
        auto same = [&](const Res& e, const char* what) { Res r = read(h); if (r.raw.size() != e.raw.size() || memcmp(r.raw.data(), e.raw.data(), r.raw.size() * 8)) { size_t z = 0; while (z < r.raw.size() && z < e.raw.size() && !memcmp(&r.raw[z], &e.raw[z], 8)) z++; fail("%s differs from a fresh handle's (%zu values instead of %zu, the first difference is at value %zu)", what, r.raw.size(), e.raw.size(), z); } c.trans(); c.state(r.hash()); };
        for (size_t q = 0; q < 2; q++) { { Packed pk(d[q], t); In in; if (sut_run(h, pk.p, d[q].rows, d[q].cols, 1, t)) fail("run failed"); } same(w[q * 3 + (q ? 2 : 0)], q ? "the second run" : "the first run"); for (size_t z = 1; z < 3; z++) { { In in; if (sut_rerun(h, M[q ? 2 - z : z])) fail("rerun failed"); } same(w[q * 3 + (q ? 2 - z : z)], "the rerun"); } }
        { In in; sut_destroy(h); } if (live()) fail("%zu allocations not released", live()); c.trace(); };
      f.desc = [=](uint64_t i) { return fmt("%u points, then %u points, shape %lu, type %lu", NS[i % k], NS[i / k % k], i / k / k % 3, i / k / k / 3); }; v.push_back(f); }
    { Family f; f.name = "one handle, 700 operations of a word of two repeated"; f.count = NHO * NHO * 2; f.run = [=](Ctx& c, uint64_t i) { for (size_t s = 0; s < 5; s++) for (unsigned long m : {2UL, 3UL, 4UL, 6UL}) fresh(s, m); track_reset(); H x; h_open(x, 4, i >= NHO * NHO, 0x3C); size_t mid = 0; for (size_t s = 0; s < 700; s++) { int o = s < 2 && !x.valid ? 1 : (int)(s % 2 ? i / NHO % NHO : i % NHO); if (!h_step(c, x, o, s)) continue; h_compare(c, x, s); if (s == 350) mid = live(); if (s == 698 && live() > mid + 200) fail("%zu allocations after 350 operations, %zu after 700", mid, live()); }
        h_close(x); if (live()) fail("%zu allocations (%zu bytes) not released at the end", live(), live_bytes()); h_free(x); c.trace(); };
      f.desc = [=](uint64_t i) { return fmt("%s, %s alternating", HOP[i % NHO], HOP[i / NHO % NHO]); }; v.push_back(f); }
    // every data set of a grid, run twice with different neighbours, rerun over all minPts
    for (Fam g : {grid(4, 1, 4, 3), gaps(8, {0, 1, 6}, 2, 2), gaps(10, {1, 8}, 2, 3)}) { Family f; f.name = "rerun over minPts 2.." + std::string("n+2 then run again: ") + g.name; f.count = g.count;
      f.run = [=](Ctx& c, uint64_t i) { Data d = g.get(i); Packed pk(d, H_DOUBLE_); unsigned long m0 = g.minPts(i); std::vector<Res> w; for (unsigned long m = 2; m <= d.rows + 2; m++) w.push_back(run_once(d, m)); track_reset(); void* h; { In in; h = sut_new(m0); sut_run(h, pk.p, d.rows, d.cols, 1, H_DOUBLE_); }
        for (unsigned long q = 0; q < 2 * (d.rows + 1); q++) { unsigned long m = q <= d.rows ? q + 2 : 2 * d.rows + 3 - q; { In in; if (q == d.rows) { sut_rerun(h, m); sut_run(h, pk.p, d.rows, d.cols, 1, H_DOUBLE_); } else sut_rerun(h, m); } Res r = read(h); if (r.raw.size() != w[m - 2].raw.size() || memcmp(r.raw.data(), w[m - 2].raw.data(), r.raw.size() * 8)) fail("rerun with minPts %lu differs from a fresh run", m); c.trans(); c.state(r.hash()); }
        { In in; sut_destroy(h); } if (live()) fail("%zu allocations not released", live()); c.trace(); };
      f.desc = [=](uint64_t i) { return desc(g, i); }; v.push_back(f); }
}

// ------------------------------------------------------------------ C11
static bool near_tie(const Res& r) { for (auto& c : r.clu) if (c.kids && c.label != 1 && std::isfinite(c.stab) && std::isfinite(c.pstab) && model::close(c.stab, c.pstab, 1e-9)) return true; return false; }
static void same_partition(const std::vector<long>& a, const std::vector<long>& b, const std::vector<int>& p, const char* what) {      // b[k] is point p[k] of a
    std::map<long, long> f, g; for (size_t k = 0; k < b.size(); k++) { long x = a[(size_t)p[k]], y = b[k]; if ((x == 0) != (y == 0)) fail("%s: point %d is noise in one order only", what, p[k]); if (!f.count(x)) f[x] = y; if (!g.count(y)) g[y] = x; if (f[x] != y || g[y] != x) fail("%s: the partitions differ at point %d", what, p[k]); }
}
static Data permuted(const Data& d, const std::vector<int>& p) { Data e = d; for (size_t k = 0; k < d.rows; k++) for (size_t j = 0; j < d.cols; j++) e.x[k * d.cols + j] = d.x[(size_t)p[k] * d.cols + j]; return e; }
static void check_perm(Ctx& c, const Data& d, const Res& r, unsigned long m, const std::vector<int>& p, bool exact) {
    Res s = run_once(permuted(d, p), m); size_t n = r.n; std::string ps; for (int x : p) ps += fmt(" %d", x); const char* w = ps.c_str();
    for (size_t k = 0; k < n; k++) if (s.core[k] != r.core[(size_t)p[k]]) fail("order%s: core distance of point %d changes from %.17g to %.17g", w, p[k], r.core[(size_t)p[k]], s.core[k]);
    std::vector<double> a(n), b(n); for (auto& q : r.sc) a[(size_t)q.id] = q.s; for (auto& q : s.sc) b[(size_t)q.id] = q.s;
    for (size_t k = 0; k < n; k++) if (!model::close(b[k], a[(size_t)p[k]], 1e-12)) fail("order%s: outlier score of point %d changes from %.17g to %.17g", w, p[k], a[(size_t)p[k]], b[k]);
    if (s.hier.size() != r.hier.size()) fail("order%s: %zu levels instead of %zu", w, s.hier.size(), r.hier.size());
    for (size_t l = 0; l < s.hier.size(); l++) { if (s.hier[l].w != r.hier[l].w) fail("order%s: level %zu has weight %.17g instead of %.17g", w, l, s.hier[l].w, r.hier[l].w); same_partition(r.hier[l].lab, s.hier[l].lab, p, fmt("order%s: level %zu", w, l).c_str()); }
    if (exact || !near_tie(r)) same_partition(r.lab, s.lab, p, fmt("order%s: flat labels", w).c_str());
    c.trans(); c.state(ex::mix(r.hash(), ex::hbytes(p.data(), p.size() * sizeof(int)))); c.trace();
}
static void check_same(Ctx& c, const Data& d, const Res& r, unsigned long m, const char* what) {
    Res s = run_once(d, m); if (s.raw.size() != r.raw.size()) fail("%s changes the results", what);
    for (size_t i = 0; i < s.raw.size(); i++) if (memcmp(&s.raw[i], &r.raw[i], 8)) fail("%s changes the results (value %zu: %.17g instead of %.17g)", what, i, s.raw[i], r.raw[i]);
    c.trans(); c.trace();
}
static void check_scale(Ctx& c, const Data& d, const Res& r, unsigned long m, double f) {
    Data e = d; for (double& x : e.x) x *= f; Res s = run_once(e, m); std::string what = fmt("scaling by %g", f);
    auto sc = [&](double a) { double m2 = sut_dmax(); return a >= m2 || !std::isfinite(a) ? a : a * f; };
    auto eq = [&](double got, double want, const char* q) { if (got != want && !(std::isnan(got) && std::isnan(want))) fail("%s: %s becomes %.17g, expected %.17g", what.c_str(), q, got, want); };
    for (size_t i = 0; i < r.dist.size(); i++) eq(s.dist[i], sc(r.dist[i]), "a distance"); for (size_t i = 0; i < r.n; i++) eq(s.core[i], sc(r.core[i]), "a core distance");
    if (s.lab != r.lab) fail("%s changes the labels", what.c_str()); for (size_t i = 0; i < r.n; i++) { if (s.sc[i].id != r.sc[i].id) fail("%s changes the order of the scores", what.c_str()); eq(s.sc[i].s, r.sc[i].s, "a score"); }
    if (s.hier.size() != r.hier.size()) fail("%s changes the number of levels", what.c_str()); for (size_t l = 0; l < r.hier.size(); l++) { eq(s.hier[l].w, sc(r.hier[l].w), "a level"); if (s.hier[l].lab != r.hier[l].lab) fail("%s changes the labels of level %zu", what.c_str(), l); }
    if (s.clu.size() != r.clu.size()) fail("%s changes the number of clusters", what.c_str());
    for (size_t k = 1; k < r.clu.size(); k++) { eq(s.clu[k].birth, sc(r.clu[k].birth), "a birth level"); eq(s.clu[k].death, sc(r.clu[k].death), "a death level"); if (r.clu[k].birth < sut_dmax()) eq(s.clu[k].stab, r.clu[k].stab / f, "a stability"); }
    c.trans(); c.trace();
}
static void c11(Ctx& c, const Data& d, unsigned long m, const Fam& f) {
    Res r = run_once(d, m); size_t n = d.rows;
    std::vector<int> id; for (size_t k = 0; k < n; k++) id.push_back((int)k);
    if (n <= 5) { std::vector<int> p = id; while (std::next_permutation(p.begin(), p.end())) check_perm(c, d, r, m, p, f.exact); }
    else { std::vector<std::vector<int>> P; std::vector<int> p = id; std::reverse(p.begin(), p.end()); P.push_back(p); for (size_t k : {(size_t)1, n / 2, n / 3}) { p = id; std::rotate(p.begin(), p.begin() + (long)k, p.end()); P.push_back(p); }
        size_t st = n / 6 + 1; for (size_t k = 0; k + 1 < n; k += n > 12 ? st : 1) { p = id; std::swap(p[k], p[k + 1]); P.push_back(p); p = id; std::swap(p[k], p[n - 1]); if (n <= 12 || k % 2 == 0) P.push_back(p); }
        p.clear(); for (size_t s = 0; s < 3; s++) for (size_t k = s; k < n; k += 3) p.push_back((int)k); P.push_back(p);
        for (auto& q : P) check_perm(c, d, r, m, q, f.exact); }
    { Data e = d; for (double& x : e.x) x += 4096; check_same(c, e, r, m, "translation"); e = d; for (size_t k = 0; k < e.x.size(); k++) e.x[k] -= 77 + (double)(k % d.cols) * 5; check_same(c, e, r, m, "translation"); }
    { Data e = d; for (size_t k = 0; k < e.x.size(); k += d.cols) e.x[k] = -e.x[k]; check_same(c, e, r, m, "mirroring the first axis"); for (size_t k = 0; k < e.x.size(); k++) if (k % d.cols) e.x[k] = -e.x[k]; check_same(c, e, r, m, "mirroring all axes"); }
    { Data e; e.rows = n; e.cols = d.cols + 1; for (size_t k = 0; k < n; k++) { for (size_t j = 0; j < d.cols; j++) e.x.push_back(d.x[k * d.cols + d.cols - 1 - j]); e.x.push_back(13); } check_same(c, e, r, m, "reversing the columns and adding a constant one"); }
    for (double s : {2.0, 0.125, 1024.0, 0x1p-40}) check_scale(c, d, r, m, s);
}
static std::vector<Fam> c11_fams(bool th) {
    std::vector<Fam> v; for (unsigned n = 2; n <= 4; n++) v.push_back(grid(n, 1, 4, n + 1)); v.push_back(grid(5, 1, th ? 4 : 3, 5)); v.push_back(grid(4, 2, th ? 3 : 2, 4)); v.push_back(grid(3, 2, 3, 4)); if (th) v.push_back(grid(5, 2, 2, 4)), v.push_back(grid(6, 1, 4, 5));
    { Fam f = gaps(7, {1, 2, 4}, 2, 3, 1, "(dyadic)"); f.exact = true; v.push_back(f); } v.push_back(gaps(6, {0, 1, 3, 9}, 2, 4)); v.push_back(gaps(9, {1, 8}, 2, 4)); v.push_back(gaps(12, {1, 6}, 2, 4));
    v.push_back(matrix(4, 3, 4)); if (th) v.push_back(matrix(5, 2, 4)), v.push_back(gaps(8, {0, 1, 3, 9}, 2, 4)), v.push_back(gaps(10, {0, 1, 5}, 2, 3));
    v.push_back(blocks(3, {line(1, 1), line(2, 1), line(5, 1), ds::dup(3), line(18, 0.5), {0, 1, 2, 40, 41, 42}}, {7, 60}, {2, 3, 5}, 1)); v.push_back(sizes(th ? std::vector<unsigned>{127, 128, 255, 256, 257, 300, 511, 513, 1030} : std::vector<unsigned>{128, 256, 257, 513}));
    if (th) v.push_back(blocks(3, {line(1, 1), line(5, 1), ds::dup(3), line(18, 0.5), ds::dup(20), {0, 1, 3, 7, 15}}, {3, 20, 60}, {2, 4, 5}, 2, "(more)"));
    return v;
}

// ------------------------------------------------------------------ C31
static void degenerate(Ctx& c, const Data& d, int type, int rowwise, unsigned long m) {
    Packed pk(d, type); track_reset(); size_t n = rowwise ? d.rows : d.rows * d.cols; void* h; int rc;
    { In in; h = sut_new(m); rc = sut_run(h, pk.p, d.rows, d.cols, rowwise, type); } if (rc) fail("run returned %d", rc);
    for (int pass = 0; pass < 2; pass++) {
        Res r = read(h, false); if (r.n != n || r.lab.size() != n || r.sc.size() != n) fail("%zu points, %zu labels, %zu scores for %zu points", r.n, r.lab.size(), r.sc.size(), n);
        std::vector<char> seen(n, 0); for (auto& s : r.sc) { if (s.id < 0 || (size_t)s.id >= n || seen[(size_t)s.id]) fail("the scores do not name each point once"); seen[(size_t)s.id] = 1; }
        if (n < m) for (size_t k = 0; k < n; k++) if (r.lab[k]) fail("point %zu of %zu has label %ld with minPts %lu", k, n, r.lab[k], m);
        std::map<long, size_t> sz; for (long l : r.lab) { if (l < 0 || l == 1) fail("label %ld", l); sz[l]++; } 
        c.state(ex::hbytes(r.lab.data(), n * sizeof(long), m)); c.trans();
        if (!pass) { unsigned long m2 = m > 2 ? 2 : 7; In in; rc = sut_rerun(h, m2); if (rc) fail("rerun returned %d", rc); m = m2; }
    }
    { In in; sut_destroy(h); } if (live()) fail("%zu allocations not released", live()); c.trace();
}
static void c31(std::vector<Family>& v, bool th) {
    struct TA { int t; const char* n; std::vector<double> a; }; std::vector<TA> T = {
        {H_DOUBLE_, "double", {0, 1, 1.7976931348623157e308, -1.7976931348623157e308, 5e-324, 1e-200, 1e160}}, {H_FLOAT_, "float", {0, 1, 3.4028234e38, -3.4028234e38, 1e-45, 1e20}},
        {H_INT_, "int", {0, 1, INT_MAX, INT_MIN}}, {H_LONG_, "long", {0, 1, 9.2233720368547e18, -9.223372036854775808e18}}, {H_SHORT_, "short", {0, 1, SHRT_MAX, SHRT_MIN}}, {H_CHAR_, "char", {0, 1, 127, -128}}};
    std::vector<unsigned long> M = {2, 3, 4, 6, 65535, 65536, 2147483648UL, 4294967295UL}; if (th) for (unsigned long m : {5UL, 17UL, 100UL, 2147483647UL}) M.push_back(m);
    for (auto& t : T) for (unsigned n = 1; n <= (th ? 6u : 5u); n++) for (unsigned dim = 1; dim <= 2; dim++) {
        if (dim == 2 && n > 3) continue; if (n >= 5 && t.a.size() > 4 && !th) continue; TA q = t; size_t A = q.a.size(), nm = M.size(); Family f; f.name = fmt("%s: all sets of %u points, %u columns, %zu extreme values, %zu minPts", t.n, n, dim, A, nm); f.count = ipow(A, n * dim) * nm;
        auto mk = [=](uint64_t i) { i /= nm; Data d; d.rows = n; d.cols = dim; for (unsigned k = 0; k < n * dim; k++) { d.x.push_back(q.a[i % A]); i /= A; } return d; };
        f.run = [=](Ctx& c, uint64_t i) { degenerate(c, mk(i), q.t, 1, M[i % nm]); };
        f.desc = [=](uint64_t i) { return fmt("minPts=%lu %s ", M[i % nm], q.n) + mk(i).str(); }; v.push_back(f); }
    { unsigned N = th ? 200 : 60; Family f; f.name = fmt("identical points: n=1..%u, 1 and 3 columns, both layouts, all minPts", N); size_t nm = M.size() + 40; f.count = N * 4 * nm;
      auto mp = [=](uint64_t i) { size_t k = i % nm; return k < M.size() ? M[k] : (unsigned long)(k - M.size() + 2); };
      auto mk = [=](uint64_t i) { i /= nm; Data d; d.rows = i / 4 + 1; d.cols = i % 2 ? 3 : 1; d.x.assign(d.rows * d.cols, 4.5); return d; };
      f.run = [=](Ctx& c, uint64_t i) { degenerate(c, mk(i), H_DOUBLE_, i / nm % 4 < 2, mp(i)); };
      f.desc = [=](uint64_t i) { Data d = mk(i); return fmt("minPts=%lu, %lux%lu identical values, rowwise=%d", mp(i), d.rows, d.cols, (int)(i / nm % 4 < 2)); }; v.push_back(f); }
    { std::vector<unsigned> NS = {127, 128, 255, 256, 257, 300}; if (th) NS.insert(NS.end(), {511, 512, 513, 700, 1025}); std::vector<unsigned long> MM = {2, 3, 127, 128, 255, 256, 257, 258, 300, 301, 65535, 65536, 65537, 4294967295UL}; size_t nm = MM.size(), nn = NS.size(); Family f; f.name = fmt("identical points, two values and three columns at %zu sizes up to %u, %zu minPts, 6 element types", nn, NS.back(), nm); f.count = nn * nm * 3 * 6;
      auto mk = [=](uint64_t i) { i /= nm * 6; unsigned n = NS[i % nn], sh = (unsigned)(i / nn); Data d; d.rows = n; d.cols = sh == 2 ? 3 : 1; for (unsigned k = 0; k < n * d.cols; k++) d.x.push_back(sh == 1 ? (k % 5 == 0 ? 100 : -3) : 4); return d; };
      f.run = [=](Ctx& c, uint64_t i) { degenerate(c, mk(i), (int)(i / nm % 6), 1, MM[i % nm]); };
      f.desc = [=](uint64_t i) { return fmt("minPts=%lu type %lu ", MM[i % nm], i / nm % 6) + mk(i).str(); }; v.push_back(f); }
    { Family f; std::vector<unsigned> N = {6, 9, 13, 21, 30}; size_t nm = M.size(); f.name = "two values only: every subset pattern of 2^8 repeated"; f.count = 256 * N.size() * nm;
      auto mk = [=](uint64_t i) { i /= nm; unsigned n = N[i % N.size()]; unsigned b = (unsigned)(i / N.size()); Data d; d.rows = n; d.cols = 1; for (unsigned k = 0; k < n; k++) d.x.push_back(b >> (k % 8) & 1 ? 1e10 : -3); return d; };
      f.run = [=](Ctx& c, uint64_t i) { degenerate(c, mk(i), H_DOUBLE_, 1, M[i % nm]); };
      f.desc = [=](uint64_t i) { return fmt("minPts=%lu ", M[i % nm]) + mk(i).str(); }; v.push_back(f); }
}

// ------------------------------------------------------------------ C35
// the data set in memory that cannot be written, at the end or the start of its pages, which vanishes after the run
struct Sealed {
    char *base, *p; size_t all; enum { PG = 4096 };
    Sealed(const void* src, size_t bytes, bool end) { size_t in = (bytes + PG - 1) / PG * PG; if (!in) in = PG; all = in + 2 * PG; base = (char*)mmap(nullptr, all, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (base == MAP_FAILED) fail("mmap"); if (mprotect(base + PG, in, PROT_READ | PROT_WRITE)) fail("mprotect"); p = end ? base + PG + in - bytes : base + PG; memcpy(p, src, bytes); if (mprotect(base + PG, in, PROT_READ)) fail("mprotect"); }
    void vanish() { mprotect(base, all, PROT_NONE); }
    ~Sealed() { munmap(base, all); }
    Sealed(const Sealed&) = delete;
};
static void same_as(const Res& e, const Res& r, const char* what) { if (r.raw.size() != e.raw.size() || memcmp(r.raw.data(), e.raw.data(), r.raw.size() * 8)) { size_t z = 0; while (z < r.raw.size() && z < e.raw.size() && !memcmp(&r.raw[z], &e.raw[z], 8)) z++; fail("%s: %zu values instead of %zu, the first difference is at value %zu", what, r.raw.size(), e.raw.size(), z); } }
static void sealed(Ctx& c, const Data& d, int type, int rowwise, bool end, unsigned long m) {
    Res w = run_once(d, m, type, rowwise), w2 = run_once(d, m + 1, type, rowwise); Packed pk(d, type); track_reset(); { Sealed s(pk.p, d.x.size() * tsize(type), end), s2(pk.p, d.x.size() * tsize(type), !end); void* h; { In in; h = sut_new(m); if (sut_run(h, s.p, d.rows, d.cols, rowwise, type)) fail("run failed"); } s.vanish(); same_as(w, read(h), "data in read-only memory");
        { In in; if (sut_rerun(h, m + 1)) fail("rerun failed"); } same_as(w2, read(h), "rerun after the data has gone"); { In in; if (sut_run(h, s2.p, d.rows, d.cols, rowwise, type)) fail("second run failed"); } s2.vanish(); { In in; if (sut_rerun(h, m + 1)) fail("rerun failed"); } same_as(w2, read(h), "second run and rerun"); { In in; sut_destroy(h); } }
    c.trans(4); c.trace(); c.state(w.hash());
}
enum { Q_MAP, Q_RANGES, Q_STATS, Q_VALID, Q_SIMC, Q_SIMD, Q_LEN, Q_PRINT, NQ = Q_PRINT + 8 };
static const char* QN[] = {"cluster map", "distance ranges", "statistics", "validity", "sort by core similarity", "sort by pairwise similarity", "sort by length", "print cluster map", "print sizes", "print distance map", "print statistics", "print hierarchy", "print scores", "print distances", "print graph"};
static std::vector<double> blob(sut_blob& b) { std::vector<double> v(b.v, b.v + b.n); sut_blob_free(&b); return v; }
static std::vector<Data>& qdata() { static std::vector<Data> v; if (!v.empty()) return v; auto mk = [](std::vector<double> x) { Data d; d.rows = x.size(); d.cols = 1; d.x = x; return d; };
    v.push_back(mk({0, 1, 2.5, 10, 11.5, 12, 40, 43, 44, 100})); v.push_back(mk({5, 5, 5, 9, 9, 9, 30})); v.push_back(mk({3})); { std::vector<double> x; for (int k = 0; k < 24; k++) x.push_back((k / 6) * (50 + k) + (k % 6) * (1 + k / 12.0)); v.push_back(mk(x)); } return v; }
static void queries(Ctx& c, size_t set, const std::vector<int>& word) {
    static pid_t warm = 0; if (warm != getpid()) { warm = getpid(); Ctx q; std::vector<int> all; for (int o = 0; o < NQ; o++) all.push_back(o); try { queries(q, 0, all); } catch (...) {} } // what the C library allocates once is not the library's
    const Data& d = qdata()[set]; Packed pk(d, H_DOUBLE_); track_reset(); void *h, *ct, *dm; { In in; h = sut_new(2); if (sut_run(h, pk.p, d.rows, 1, 1, H_DOUBLE_)) fail("run failed"); ct = sut_cluster_map_of(h, 0, d.rows, nullptr); dm = sut_distance_map(h, ct, nullptr); }
    auto rd = [&](void* t, bool map) { sut_blob b = {nullptr, 0, 0}; if (map) sut_map_read(t, &b); else sut_distance_map_read(t, &b); return blob(b); };
    Res r0 = read(h); auto ct0 = rd(ct, true), dm0 = rd(dm, false); bool st = false; double S[13] = {0}; std::map<std::pair<int, bool>, std::vector<double>> seen;
    for (int o : word) {
        std::vector<double> out(64, -1); size_t l0 = live(); size_t n = 0;
        if (o == Q_MAP) { sut_blob b = {nullptr, 0, 0}; void* t; { In in; t = sut_cluster_map_of(h, 0, d.rows, nullptr); } sut_map_read(t, &b); out = blob(b); { In in; sut_cluster_map_destroy(t); } }
        else if (o == Q_RANGES) { sut_blob b = {nullptr, 0, 0}; void* t; { In in; t = sut_distance_map(h, ct, nullptr); } sut_distance_map_read(t, &b); out = blob(b); { In in; sut_distance_map_destroy(t); } }
        else if (o == Q_STATS) { { In in; sut_stats(dm, 0, S); } out.assign(S, S + 13); if (!st) { dm0 = rd(dm, false); st = true; } }
        else if (o == Q_VALID) { In in; out.assign(1, sut_validity(S)); }
        else if (o == Q_SIMC || o == Q_SIMD) { { In in; n = sut_sort_by_similarity(dm, nullptr, 0, 0, o == Q_SIMC ? 0 : 1, out.data()); } out.resize(n); }
        else if (o == Q_LEN) { { In in; n = sut_sort_by_length(ct, nullptr, 0, 0, out.data()); } out.resize(n); }
        else { std::string s = capture([&] { In in; sut_print(h, o - Q_PRINT, ct, dm, S, nullptr); }); out.clear(); if (o - Q_PRINT <= 2 || o - Q_PRINT >= 5) for (char x : s) out.push_back(x); if (o - Q_PRINT == 2 || o - Q_PRINT == 5) out.clear(); }
        if (sut_touched()) fail("%s changed the statistics", QN[o]);
        if (live() != l0) fail("%s: %zu allocations before, %zu after", QN[o], l0, live());
        same_as(r0, read(h), (std::string(QN[o]) + " changed the handle").c_str()); auto a = rd(ct, true), b = rd(dm, false); auto same = [](const std::vector<double>& x, const std::vector<double>& y) { return x.size() == y.size() && !memcmp(x.data(), y.data(), x.size() * 8); };
        if (!same(a, ct0)) fail("%s changed the cluster map", QN[o]); if (!same(b, dm0)) fail("%s changed the distance map", QN[o]);
        auto key = std::make_pair(o, st); if (!seen.count(key)) seen[key] = out; else if (!same(seen[key], out)) fail("%s gives something else the second time", QN[o]); c.trans(); }
    { In in; sut_distance_map_destroy(dm); sut_cluster_map_destroy(ct); } same_as(r0, read(h), "releasing the maps changed the handle"); { In in; sut_destroy(h); } if (live()) fail("%zu allocations not released", live()); c.trace(); c.state(ex::mix(ex::hbytes(word.data(), word.size() * sizeof(int)), set));
}
static void c35(std::vector<Family>& v, bool th) {
    auto add = [&](const char* name, std::vector<std::pair<unsigned, unsigned>> shapes, std::function<double(uint64_t, unsigned)> at, uint64_t nv) { size_t ns = shapes.size(); Family f; f.name = name; f.count = ns * nv * 6 * 2 * 2 * 2; auto mk = [=](uint64_t i) { int t = (int)(i % 6); bool wide = t != H_SHORT_ && t != H_CHAR_; i /= 48; Data d; d.rows = shapes[i % ns].first; d.cols = shapes[i % ns].second; for (unsigned k = 0; k < d.rows * d.cols; k++) { double x = at(i / ns, k); d.x.push_back(i / ns % 2 && wide ? x * 1000003 : x); } return d; };
        f.run = [=](Ctx& c, uint64_t i) { sealed(c, mk(i), (int)(i % 6), (int)(i / 6 % 2), i / 12 % 2, 2 + i / 24 % 2); }; f.desc = [=](uint64_t i) { return fmt("type %lu, %s, at the %s of the pages, minPts=%lu, ", i % 6, i / 6 % 2 ? "row by row" : "one value per point", i / 12 % 2 ? "end" : "start", 2 + i / 24 % 2) + mk(i).str(); }; v.push_back(f); };
    std::vector<std::pair<unsigned, unsigned>> small; for (unsigned r = 1; r <= 4; r++) for (unsigned c = 1; c <= 3; c++) small.push_back({r, c}); std::vector<std::pair<unsigned, unsigned>> large = {{5, 1}, {7, 2}, {12, 3}, {16, 4}, {30, 1}, {63, 1}, {64, 2}, {65, 3}, {128, 1}, {256, 1}, {257, 2}, {300, 5}}; if (th) large.insert(large.end(), {{512, 1}, {513, 4}, {600, 7}, {1024, 1}, {1030, 2}});
    uint64_t P = th ? 64 : 16; add("data in sealed memory: 1-4 points x 1-3 columns, value patterns over 4 values", small, [](uint64_t p, unsigned k) { return (double)((p >> (k % 3 * 2)) & 3) * 9 - 4 + (k / 3 % 4) * 2; }, P);
    add("data in sealed memory: 5-1030 points", large, [](uint64_t p, unsigned k) { return p == 0 ? (double)(k * 7 % 101) : p == 1 ? (double)(k / 3) : p == 2 ? 3.0 : p == 3 ? (double)((k * k) % 113) - 50 : p == 4 ? (k % 3 ? -0.0 : (double)(k % 5)) : 1 + (k % 4) / 4.0; }, 6);
    unsigned D = th ? 4 : 3; Family f; f.name = fmt("all words of %u queries over %d kinds, 4 data sets", D, (int)NQ); f.count = ipow(NQ, D) * 4; auto w = [=](uint64_t i) { std::vector<int> o; i /= 4; for (unsigned k = 0; k < D; k++) { o.push_back((int)(i % NQ)); i /= NQ; } return o; };
    f.run = [=](Ctx& c, uint64_t i) { queries(c, i % 4, w(i)); }; f.desc = [=](uint64_t i) { std::string s = fmt("data set %lu:", i % 4); for (int o : w(i)) s += std::string(" ") + QN[o] + ";"; return s; }; v.push_back(f);
}
int main(int argc, char** argv) {
    return ex::main_(argc, argv, [](bool th) {
        sut_set_threads(1); std::vector<Family> v;
        if (PROP == 8) { for (auto& f : pipeline(th)) v.push_back(fam(f, c08)); v.push_back(fam(grid(7, 1, 3, 5), c08)); v.push_back(fam(blocks(3, {ds::dup(2), ds::dup(3), ds::dup(4), ds::dup(5), line(3, 1)}, {0, 1, 9}, {2, 3, 4, 5, 6}, 2, "(duplicates)"), c08)); }
        if (PROP == 9) c09(v, th);
        if (PROP == 11) for (auto& f : c11_fams(th)) v.push_back(fam(f, c11));
        if (PROP == 31) c31(v, th);
        if (PROP == 35) c35(v, th);
        return v; });
}
