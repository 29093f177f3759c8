// C13 cluster map, C14 distance ranges, C15 statistics and validity, C16 sorting of clusters.
#include "datasets.hpp"
#include "model.hpp"
using namespace ds; using namespace sut; using ex::Ctx; using ex::Family; using ex::fail; using ex::fmt;
#ifndef PROP
#define PROP 13
#endif
typedef std::map<double, std::vector<double>> CMap;
static CMap parse_map(const sut_blob& b) {
    CMap m; size_t p = 0; auto nx = [&]() { if (p >= b.n) fail("short map"); return b.v[p++]; };
    size_t k = (size_t)nx(); while (k--) { double key = nx(), n = nx(); if (n < 0) fail("key %.0f of the map has no list", key); std::vector<double> v; while (n-- > 0) v.push_back(nx()); if (!m.insert({key, v}).second) fail("label %.0f has two entries", key); }
    return m;
}
static CMap ref_map(const std::vector<double>& lab, size_t b, size_t e) { CMap m; for (size_t i = b; i < e; i++) m[lab[i]].push_back((double)i); return m; }
static void diff_map(const CMap& got, const CMap& want, size_t b, size_t e) {
    if (got == want) return;
    for (auto& kv : want) { auto it = got.find(kv.first); if (it == got.end()) fail("range [%zu,%zu): label %.0f is missing from the map", b, e, kv.first);
        if (it->second != kv.second) fail("range [%zu,%zu): label %.0f lists %zu indices (first %.0f), expected %zu (first %.0f), or in another order", b, e, kv.first, it->second.size(), it->second.empty() ? -1 : it->second[0], kv.second.size(), kv.second[0]); }
    for (auto& kv : got) if (!want.count(kv.first)) fail("range [%zu,%zu): the map has label %.0f, which does not occur", b, e, kv.first);
}
static std::string lstr(const std::vector<double>& v) { std::string s; for (size_t i = 0; i < v.size() && i < 40; i++) s += fmt(" %.0f", v[i]); if (v.size() > 40) s += fmt(" ... (%zu)", v.size()); return s; }
// ------------------------------------------------------------------ C13
static void one_map(Ctx& c, const std::vector<double>& lab, size_t b, size_t e) {
    sut_blob o = {nullptr, 0, 0}; void* t;
    { In in; t = sut_cluster_map(lab.data(), lab.size(), b, e, nullptr); } if (!t) fail("no map");
    sut_map_read(t, &o); CMap g = parse_map(o); sut_blob_free(&o); diff_map(g, ref_map(lab, b, e), b, e);
    { In in; sut_cluster_map_destroy(t); } if (live()) fail("range [%zu,%zu): %zu allocations (%zu bytes) not released by destroying the map", b, e, live(), live_bytes());
    c.trans();
}
static void c13(std::vector<Family>& v, bool th) {
    std::vector<double> A7 = {0, 1, 2, 7, 2147483647.0, 2147483648.0, 4294967295.0};
    auto add = [&](unsigned n, std::vector<double> A) { Family f; f.name = fmt("all arrays of %u labels over %zu values, every sub-range", n, A.size()); f.count = ipow(A.size(), n);
        auto mk = [=](uint64_t i) { std::vector<double> l; for (unsigned k = 0; k < n; k++) { l.push_back(A[i % A.size()]); i /= A.size(); } return l; };
        f.run = [=](Ctx& c, uint64_t i) { track_reset(); auto l = mk(i); for (size_t b = 0; b <= n; b++) for (size_t e = b; e <= n; e++) one_map(c, l, b, e); c.state(ex::hbytes(l.data(), l.size() * 8)); c.trace(); };
        f.desc = [=](uint64_t i) { return "labels" + lstr(mk(i)); }; v.push_back(f); };
    for (unsigned n = 0; n <= (th ? 6u : 5u); n++) add(n, A7);
    add(6, {0, 3, 8, 4294967295.0}); add(7, {5, 0, 69}); add(8, {0, 2, 34}); if (th) { add(8, {0, 1, 5, 17}); add(10, {0, 1, 257}); add(14, {0, 9}); }
    { unsigned N = th ? 800 : 300; const unsigned P = 9; Family f; f.name = fmt("n=1..%u labels, %u patterns, k=1,2,3,5,n/3-1..n/3+1,n labels, 3 ranges", N, P); f.count = (uint64_t)N * P * 8;
      auto mk = [=](uint64_t i) { size_t n = i / (P * 8) + 1, p = i / 8 % P, q = i % 8; size_t k = q < 3 ? q + 1 : q == 3 ? 5 : q == 7 ? n : n / 3 + q - 5; if (k < 1 || k > n) k = 1; std::vector<double> l;
        for (size_t j = 0; j < n; j++) { size_t a = j % k, bl = j * k / n; double x = p == 0 ? (double)a : p == 1 ? (double)bl : p == 2 ? (double)(k - 1 - a) : p == 3 ? (double)((j * j + 3 * j) % k) : p == 4 ? (double)((uint32_t)(a * 2654435761u)) : p == 5 ? (double)(bl * (n / 4 ? n / 4 : 1)) : p == 6 ? (double)(4294967295u - (uint32_t)a) : p == 7 ? (double)(j + 1 < n ? a : k + 7) : (double)(j < k ? k - 1 - j : 0); l.push_back(x); } return l; };
      f.run = [=](Ctx& c, uint64_t i) { track_reset(); auto l = mk(i); size_t n = l.size(); one_map(c, l, 0, n); one_map(c, l, n / 3, n); one_map(c, l, n > 7 ? 7 : 0, n - n / 4); c.state(ex::hbytes(l.data(), l.size() * 8)); c.trace(); };
      f.desc = [=](uint64_t i) { return "labels" + lstr(mk(i)); }; v.push_back(f); }
    { static const unsigned NS[] = {1023, 1024, 1025, 4095, 4096, 32767, 32768, 32769, 65535, 65536, 65537, 66000, 70000, 131073}; Family f; f.name = "1023..131073 points, 1..3 or 300 labels, 3 ranges"; f.count = 14 * 8;
      f.run = [=](Ctx& c, uint64_t i) { track_reset(); size_t n = NS[i / 8]; unsigned k = i % 4 == 3 ? 300 : (unsigned)(i % 4 + 1); std::vector<double> l; for (size_t j = 0; j < n; j++) l.push_back(i / 4 % 2 ? (double)(j * k / n) * 11 : (double)(j % k)); one_map(c, l, 0, n); one_map(c, l, n - 3, n); one_map(c, l, n / 2, n - 1); c.state(i); c.trace(); };
      f.desc = [=](uint64_t i) { return fmt("%u points, pattern %d", NS[i / 8], (int)(i % 8)); }; v.push_back(f); }
    for (auto g : {grid(5, 1, 3, 3), gaps(9, {1, 8}, 2, 3), blocks(3, {line(5, 1), ds::dup(3), {0, 1, 2, 40, 41, 42}}, {7, 60}, {2, 3}, 1)}) { Fam q = g; v.push_back(fam(q, [](Ctx& c, const Data& d, unsigned long m, const Fam&) {
        Packed pk(d, H_DOUBLE_); track_reset(); void* h; { In in; h = sut_new(m); if (sut_run(h, pk.p, d.rows, d.cols, 1, H_DOUBLE_)) fail("run failed"); } Res r = read(h, false); std::vector<double> lab(r.lab.begin(), r.lab.end());
        for (size_t b = 0; b <= r.n; b += r.n > 12 ? 5 : 1) for (size_t e = b; e <= r.n; e += r.n > 12 ? 3 : 1) { sut_blob o = {nullptr, 0, 0}; void* t; { In in; t = sut_cluster_map_of(h, b, e, nullptr); } sut_map_read(t, &o); CMap g = parse_map(o); sut_blob_free(&o); diff_map(g, ref_map(lab, b, e), b, e); { In in; sut_cluster_map_destroy(t); } c.trans(); }
        { In in; sut_destroy(h); } if (live()) fail("%zu allocations not released", live()); c.state(ex::hbytes(lab.data(), lab.size() * 8)); c.trace(); })); }
}
// ------------------------------------------------------------------ C14
struct DV { double k, mincr, maxcr, crc, mindr, maxdr, drc; };
static std::map<double, DV> parse_dm(const sut_blob& b) { std::map<double, DV> m; size_t k = (size_t)b.v[0]; if (b.n != 1 + 7 * k) fail("short distance map"); for (size_t i = 0; i < k; i++) { const double* p = b.v + 1 + 7 * i; if (!m.insert({p[0], {p[0], p[1], p[2], p[3], p[4], p[5], p[6]}}).second) fail("label %.0f has two entries", p[0]); } return m; }
static void ranges(Ctx& c, void* h, const Res& r, const std::vector<double>& lab) {
    void *t, *dm; sut_blob o = {nullptr, 0, 0};
    { In in; t = sut_cluster_map(lab.data(), lab.size(), 0, lab.size(), nullptr); dm = sut_distance_map(h, t, nullptr); } if (!dm) fail("no distance map");
    sut_distance_map_read(dm, &o); auto g = parse_dm(o); sut_blob_free(&o); CMap m = ref_map(lab, 0, lab.size());
    if (g.size() != m.size()) fail("%zu entries for %zu clusters", g.size(), m.size());
    for (auto& kv : m) { if (!g.count(kv.first)) fail("cluster %.0f has no distance range", kv.first); DV d = g[kv.first], e = {kv.first, 0, 0, 0, sut_dmax(), sut_dmin(), 0}; bool first = true;
        for (size_t a = 0; a < kv.second.size(); a++) { double x = r.core[(size_t)kv.second[a]]; if (first || x > e.maxcr) e.maxcr = x; first = false; if (x != 0 && (e.mincr == 0 || x < e.mincr)) e.mincr = x;
            for (size_t b = a + 1; b < kv.second.size(); b++) { double y = r.d((size_t)kv.second[a], (size_t)kv.second[b]); if (y != 0 && y < e.mindr) e.mindr = y; if (y > e.maxdr) e.maxdr = y; } }
        if (d.mincr != e.mincr || d.maxcr != e.maxcr) fail("labels%s, cluster %.0f: core distances %.17g..%.17g, expected %.17g..%.17g", lstr(lab).c_str(), kv.first, d.mincr, d.maxcr, e.mincr, e.maxcr);
        if (d.mindr != e.mindr || d.maxdr != e.maxdr) fail("labels%s, cluster %.0f: pairwise distances %.17g..%.17g, expected %.17g..%.17g", lstr(lab).c_str(), kv.first, d.mindr, d.maxdr, e.mindr, e.maxdr); }
    { In in; sut_distance_map_destroy(dm); sut_cluster_map_destroy(t); } c.trans(); c.state(ex::mix(r.hash(), ex::hbytes(lab.data(), lab.size() * 8)));
}
static void c14(Ctx& c, const Data& d, unsigned long m, const Fam&, unsigned nl, bool th) {
    Packed pk(d, H_DOUBLE_); track_reset(); void* h; { In in; h = sut_new(m); if (sut_run(h, pk.p, d.rows, d.cols, 1, H_DOUBLE_)) fail("run failed"); } Res r = read(h); size_t n = r.n;
    if (nl) for (uint64_t q = 0; q < ipow(nl, (unsigned)n); q++) { std::vector<double> l; uint64_t x = q; for (size_t k = 0; k < n; k++) { l.push_back((double)(x % nl * 5)); x /= nl; } ranges(c, h, r, l); }
    else { std::vector<double> l(r.lab.begin(), r.lab.end()); ranges(c, h, r, l); for (size_t k : {1, 2, 3, 5}) for (int w = 0; w < 2; w++) { for (size_t j = 0; j < n; j++) l[j] = w ? (double)(j % k) : (double)(j * k / n); ranges(c, h, r, l); } for (size_t j = 0; j < n; j++) l[j] = (double)(n - j); ranges(c, h, r, l); }
    // the ranges follow a rerun
    unsigned long m2 = m == 2 ? 4 : 2; { In in; if (sut_rerun(h, m2)) fail("rerun failed"); } r = read(h); std::vector<double> l; for (size_t j = 0; j < n; j++) l.push_back((double)(j % 2)); ranges(c, h, r, l);
    { In in; sut_destroy(h); } if (live()) fail("%zu allocations (%zu bytes) not released", live(), live_bytes()); c.trace(); (void)th;
}
// ------------------------------------------------------------------ C15
struct Row { double mincr, maxcr, mindr, maxdr; };
static void feq(double got, long double want, double tol, const char* what) { if (std::isnan((double)want) && std::isnan(got)) return; if (!(std::fabs((long double)got - want) <= (long double)tol * std::max<long double>(1e-3L, fabsl(want)))) fail("%s is %.17g, expected %.17Lg", what, got, want); }
static void stats(Ctx& c, const std::vector<Row>& R, int fill) {
    size_t k = R.size(); std::vector<double> raw; for (size_t i = 0; i < k; i++) { double x[7] = {(double)(i * 3 + (i % 2) * 100), R[i].mincr, R[i].maxcr, (double)fill, R[i].mindr, R[i].maxdr, -7}; raw.insert(raw.end(), x, x + 7); }
    track_reset(); double st[13]; void* dm; { In in; dm = sut_distance_map_make(raw.data(), k); sut_stats(dm, fill, st); }
    sut_blob o = {nullptr, 0, 0}; sut_distance_map_read(dm, &o); auto g = parse_dm(o); sut_blob_free(&o);
    if (st[0] != (double)k) fail("count %.0f for %zu clusters", st[0], k);
    for (int part = 0; part < 2; part++) { std::vector<long double> q; for (auto& r : R) q.push_back(part ? (long double)(r.maxdr / r.mindr) : (long double)(r.maxcr / r.mincr));
        const char* P = part ? "pairwise" : "core"; const double* s = st + 1 + 6 * part; long double mx = q[0], mean = 0; for (auto x : q) { mx = std::max(mx, x); mean += x; } mean /= (long double)k;
        feq(s[3], mx, 1e-14, fmt("%s maximum", P).c_str()); feq(s[0], mean, 1e-12, fmt("%s mean", P).c_str());
        if (k > 1) { long double v = 0, s3 = 0, s4 = 0; for (auto x : q) { long double t = x - mean; v += t * t; s3 += t * t * t; s4 += t * t * t * t; } v /= (long double)(k - 1); long double sd = sqrtl(v);
            feq(s[2], v, 1e-8, fmt("%s variance", P).c_str()); feq(s[1], sd, 1e-8, fmt("%s standard deviation", P).c_str());
            if (sd > 1e-6L * mean) { feq(s[5], s3 / ((long double)k * sd * sd * sd), 1e-6, fmt("%s skewness", P).c_str()); feq(s[4], s4 / ((long double)k * sd * sd * sd * sd) - 3, 1e-6, fmt("%s kurtosis", P).c_str()); } }
        for (size_t i = 0; i < k; i++) { auto it = g.find(raw[7 * i]); if (it == g.end()) fail("cluster lost from the distance map"); DV d = it->second; double conf = part ? d.drc : d.crc; long double e = (mx - q[i]) / mx * 100; if (fabsl((long double)conf - e) > 1e-9L) fail("%s confidence of cluster %zu is %.17g, expected %.17Lg", P, i, conf, e);
            if (part ? d.mindr != R[i].mindr || d.maxdr != R[i].maxdr : d.mincr != R[i].mincr || d.maxcr != R[i].maxcr) fail("the statistics changed the %s range of cluster %zu", P, i); } }
    // a second evaluation into the same map gives the same
    double st2[13]; { In in; sut_stats(dm, 0x41, st2); } for (int i = 0; i < 13; i++) if (memcmp(&st[i], &st2[i], 8) && !(std::isnan(st[i]) && std::isnan(st2[i]))) fail("evaluating twice gives different statistics (value %d: %.17g, then %.17g)", i, st[i], st2[i]);
    { In in; sut_distance_map_destroy(dm); } if (live()) fail("%zu allocations not released", live()); c.trans(2); c.trace(); c.state(ex::hbytes(raw.data(), raw.size() * 8));
}
static std::string rstr(const std::vector<Row>& R) { std::string s; for (size_t i = 0; i < R.size() && i < 12; i++) s += fmt(" core %g/%g dist %g/%g;", R[i].maxcr, R[i].mincr, R[i].maxdr, R[i].mindr); return s; }
static void c15(std::vector<Family>& v, bool th) {
    static const double AL[6][2] = {{1, 1}, {2, 3}, {1, 2}, {0.3, 3}, {5, 50}, {0.001, 1}};        // min, max
    auto add = [&](std::string name, uint64_t n, std::function<std::vector<Row>(uint64_t)> mk) { Family f; f.name = name; f.count = n * 3; f.run = [=](Ctx& c, uint64_t i) { static const int F[3] = {0, 0xFF, 0x41}; stats(c, mk(i / 3), F[i % 3]); }; f.desc = [=](uint64_t i) { return rstr(mk(i / 3)); }; v.push_back(f); };
    for (unsigned k = 1; k <= (th ? 3u : 2u); k++) add(fmt("%u clusters, core and pairwise ranges independently over 6 values, 3 prior contents", k), ipow(36, k), [=](uint64_t i) { std::vector<Row> R; for (unsigned q = 0; q < k; q++) { R.push_back({AL[i % 6][0], AL[i % 6][1], AL[i / 6 % 6][0], AL[i / 6 % 6][1]}); i /= 36; } return R; });
    for (unsigned k = 3; k <= (th ? 6u : 5u); k++) add(fmt("%u clusters, all core ranges over 6 values, pairwise ranges shifted, 3 prior contents", k), ipow(6, k), [=](uint64_t i) { std::vector<Row> R; for (unsigned q = 0; q < k; q++) { unsigned a = (unsigned)(i % 6), b = (a * 5 + q) % 6; R.push_back({AL[a][0], AL[a][1], AL[b][0], AL[b][1]}); i /= 6; } return R; });
    unsigned N = th ? 600 : 150; add(fmt("1..%u clusters, 4 patterns, 3 prior contents", N), N * 4, [=](uint64_t i) { size_t k = i / 4 + 1, p = i % 4; std::vector<Row> R; for (size_t q = 0; q < k; q++) { double a = p == 0 ? 1 + (double)q : p == 1 ? (double)(q % 7 + 1) : p == 2 ? (q == k - 1 ? 100 : 1.5) : 1 + 1.0 / (double)(q + 1); R.push_back({2, 2 * a, 0.5, 0.5 * (a * a + 1)}); } return R; });
    { static const unsigned K[] = {254, 255, 256, 257, 300, 511, 513, 1000, 2000}; add("254..2000 clusters, 4 patterns, 3 prior contents", 9 * 4, [=](uint64_t i) { size_t k = K[i / 4], p = i % 4; std::vector<Row> R; for (size_t q = 0; q < k; q++) { double a = p == 0 ? 1 + (double)q : p == 1 ? (double)(q % 7 + 1) : p == 2 ? (q == k - 1 ? 100 : 1.5) : 1 + 1.0 / (double)(q + 1); R.push_back({2, 2 * a, 0.5, 0.5 * (a * a + 1)}); } return R; }); }
    { static const double S[6] = {-1.5, -1e-300, 0, 1e-300, 2, NAN}; Family f; f.name = "validity: all 6^4 signs of skewness and kurtosis"; f.count = 1296;
      f.run = [](Ctx& c, uint64_t i) { double st[13]; for (int k = 0; k < 13; k++) st[k] = 1 + k; double cs = S[i % 6], ck = S[i / 6 % 6], is = S[i / 36 % 6], ik = S[i / 216]; st[5] = ck; st[6] = cs; st[11] = ik; st[12] = is; auto sc = [](double s, double k) { return s > 0 && k > 0 ? 2 : s < 0 && k > 0 ? 1 : s > 0 && k < 0 ? 0 : -1; };
        int e = sc(cs, ck) + sc(is, ik), g = sut_validity(st); if (g != e) fail("validity %d, expected %d", g, e); c.trans(); c.trace(); c.state(i); };
      f.desc = [](uint64_t i) { return fmt("core skewness %g kurtosis %g, pairwise skewness %g kurtosis %g", S[i % 6], S[i / 6 % 6], S[i / 36 % 6], S[i / 216]); }; v.push_back(f); }
    // end to end: real runs, both the distance map and the statistics of their own partition
    for (auto g : {gaps(8, {1, 8, 20}, 2, 2), blocks(3, {line(5, 1), line(4, 3), {0, 1, 2, 40, 41, 43}}, {30, 60}, {2, 3}, 1), blocks(4, {line(5, 1), {0, 1, 3, 7, 15}}, {50, 90}, {2, 3}, 1)}) { Fam q = g; v.push_back(fam(q, [](Ctx& c, const Data& d, unsigned long m, const Fam&) {
        Packed pk(d, H_DOUBLE_); void* h = sut_new(m); if (sut_run(h, pk.p, d.rows, d.cols, 1, H_DOUBLE_)) fail("run failed"); void* t = sut_cluster_map_of(h, 0, d.rows, nullptr); sut_blob o = {nullptr, 0, 0}; void* dm = sut_distance_map(h, t, &o); auto g = parse_dm(o); sut_blob_free(&o);
        std::vector<Row> R; bool fin = true; for (auto& kv : g) { R.push_back({kv.second.mincr, kv.second.maxcr, kv.second.mindr, kv.second.maxdr}); if (kv.second.mincr == 0 || kv.second.mindr == sut_dmax() || kv.second.maxcr == sut_dmax()) fin = false; }
        sut_distance_map_destroy(dm); sut_cluster_map_destroy(t); sut_destroy(h); if (fin) stats(c, R, 0x41); })); }
}
// ------------------------------------------------------------------ C16
static void qs(Ctx& c, const std::vector<double>& keys, int l, int r) {
    size_t n = keys.size(); std::vector<double> k = keys, lab(n); bool nan = false; for (size_t i = 0; i < n; i++) { lab[i] = (double)(i * 7919 % 1000003); if (std::isnan(keys[i])) nan = true; } std::vector<double> lab0 = lab;
    { In in; sut_quicksort(lab.data(), k.data(), n, l, r); } if (live()) fail("%zu allocations not released", live());
    std::map<double, double> of; for (size_t i = 0; i < n; i++) of[lab0[i]] = keys[i]; std::set<double> seen;
    for (size_t i = 0; i < n; i++) { if (!of.count(lab[i]) || !seen.insert(lab[i]).second) fail("[%d,%d]: label %.0f lost or repeated", l, r, lab[i]); double e = of[lab[i]]; if (memcmp(&e, &k[i], 8)) fail("[%d,%d]: label %.0f comes with key %g, its key is %g", l, r, lab[i], k[i], e);
        if ((int)i < l || (int)i > r) { if (lab[i] != lab0[i]) fail("[%d,%d]: position %zu outside the range changed", l, r, i); }
        else if (!nan && (int)i > l && k[i - 1] > k[i]) fail("[%d,%d]: position %zu holds %g after %g", l, r, i, k[i], k[i - 1]); }
    c.trans();
}
static std::vector<double> pattern(unsigned p, size_t n) { std::vector<double> k; for (size_t i = 0; i < n; i++) { double x = (double)i; k.push_back(p == 0 ? x : p == 1 ? (double)n - x : p == 2 ? 5 : p == 3 ? (double)(i % 2) : p == 4 ? (double)((i * 7919 + 13) % n) : p == 5 ? std::fabs(x - (double)n / 2) : p == 6 ? -std::fabs(x - (double)n / 2) : p == 7 ? (double)(i * i % 17) : p == 8 ? (i == n - 1 ? -1 : x) : (i == 0 ? 1e9 : x)); } return k; }
static void sorted_list(Ctx& c, std::map<double, double>& key, const std::vector<double>* req, const std::vector<double>& got, const char* what) {
    std::set<double> want; if (req && !req->empty()) want.insert(req->begin(), req->end()); else for (auto& kv : key) want.insert(kv.first);
    if (got.size() != want.size()) fail("%s: %zu clusters returned, %zu requested", what, got.size(), want.size());
    std::set<double> seen; for (double x : got) if (!want.count(x) || !seen.insert(x).second) fail("%s: cluster %.0f not requested or repeated", what, x);
    for (size_t i = 1; i < got.size(); i++) if (key[got[i - 1]] > key[got[i]]) fail("%s: cluster %.0f (%g) comes before cluster %.0f (%g)", what, got[i - 1], key[got[i - 1]], got[i], key[got[i]]);
    c.trans();
}
// every ordered subset of the labels as request, NULL and the empty list
static void requests(const std::vector<double>& L, std::function<void(const std::vector<double>*)> f) {
    f(nullptr); std::vector<double> cur; std::function<void()> rec = [&]() { f(&cur); for (double x : L) if (std::find(cur.begin(), cur.end(), x) == cur.end()) { cur.push_back(x); rec(); cur.pop_back(); } }; rec();
}
static void sortmap(Ctx& c, const std::vector<double>& conf, const std::vector<double>& conf2, bool allreq) {
    size_t k = conf.size(); std::vector<double> raw, L; std::map<double, double> K0, K1; for (size_t i = 0; i < k; i++) { double id = (double)(i * 4 + (i % 3) * 1000); L.push_back(id); double x[7] = {id, 1, 2, conf[i], 3, 4, conf2[i]}; raw.insert(raw.end(), x, x + 7); K0[id] = conf[i]; K1[id] = conf2[i]; }
    track_reset(); void* dm; { In in; dm = sut_distance_map_make(raw.data(), k); }
    auto go = [&](const std::vector<double>* r) { for (int t = 0; t < 2; t++) { std::vector<double> out(k + 2); size_t n; { In in; n = sut_sort_by_similarity(dm, r ? r->data() : nullptr, r ? r->size() : 0, r != nullptr, t, out.data()); } out.resize(n > k + 2 ? k + 2 : n); sorted_list(c, t == 0 ? K0 : K1, r, out, fmt("similarity (%s), request%s", t == 0 ? "core" : "pairwise", r ? lstr(*r).c_str() : " none").c_str()); } };
    if (allreq) requests(L, go); else { go(nullptr); std::vector<double> q; go(&q); go(&L); q = L; std::reverse(q.begin(), q.end()); go(&q); q.clear(); for (size_t i = 0; i < k; i += 2) q.push_back(L[i]); go(&q); }
    { In in; sut_distance_map_destroy(dm); } if (live()) fail("%zu allocations not released", live()); c.trace(); c.state(ex::hbytes(conf.data(), conf.size() * 8));
}
static void lenmap(Ctx& c, const std::vector<double>& lab, bool allreq) {
    CMap m = ref_map(lab, 0, lab.size()); std::map<double, double> K; std::vector<double> L; for (auto& kv : m) { K[kv.first] = (double)kv.second.size(); L.push_back(kv.first); } size_t k = L.size();
    track_reset(); void* t; { In in; t = sut_cluster_map(lab.data(), lab.size(), 0, lab.size(), nullptr); }
    auto go = [&](const std::vector<double>* r) { std::vector<double> out(k + 2); size_t n; { In in; n = sut_sort_by_length(t, r ? r->data() : nullptr, r ? r->size() : 0, r != nullptr, out.data()); } out.resize(n > k + 2 ? k + 2 : n); sorted_list(c, K, r, out, fmt("length, request%s", r ? lstr(*r).c_str() : " none").c_str()); };
    if (allreq) requests(L, go); else { go(nullptr); std::vector<double> q; go(&q); go(&L); q = L; std::reverse(q.begin(), q.end()); go(&q); q.clear(); for (size_t i = 0; i < k; i += 2) q.push_back(L[i]); go(&q); }
    { In in; sut_cluster_map_destroy(t); } if (live()) fail("%zu allocations not released", live()); c.trace(); c.state(ex::hbytes(lab.data(), lab.size() * 8));
}
static void c16(std::vector<Family>& v, bool th) {
    auto keys = [](uint64_t i, unsigned n, const std::vector<double>& A) { std::vector<double> k; for (unsigned q = 0; q < n; q++) { k.push_back(A[i % A.size()]); i /= A.size(); } return k; };
    auto kd = [](const std::vector<double>& k) { std::string s = "keys"; for (size_t q = 0; q < k.size() && q < 30; q++) s += fmt(" %g", k[q]); return s; };
    auto add = [&](unsigned n, std::vector<double> A, bool sub) { Family f; f.name = fmt("pair sort: all %u keys over %zu values%s", n, A.size(), sub ? ", every sub-range" : ""); f.count = ipow(A.size(), n);
        f.run = [=](Ctx& c, uint64_t i) { track_reset(); auto k = keys(i, n, A); if (!sub) qs(c, k, 0, (int)n - 1); else for (int l = 0; l <= (int)n; l++) for (int r = l - 1; r < (int)n; r++) qs(c, k, l, r); c.trace(); c.state(ex::hbytes(k.data(), k.size() * 8)); };
        f.desc = [=](uint64_t i) { return kd(keys(i, n, A)); }; v.push_back(f); };
    for (unsigned n = 0; n <= 5; n++) add(n, {0, 1, 2, 3}, true);
    add(6, {0, 1, 2, 3}, false); add(7, {0, 1, 2}, false); add(8, {0, 1, 2}, false); add(5, {0, 1, INFINITY, NAN}, false); add(6, {0, 1, NAN}, false); add(12, {0, 1}, false); if (th) add(7, {0, 1, 2, 3, 4}, false), add(9, {0, 1, 2}, false), add(16, {0, 1}, false), add(8, {0, 1, NAN}, false);
    { unsigned n = th ? 9 : 8; uint64_t q = 1; for (unsigned k = 2; k <= n; k++) q *= k; Family f; f.name = fmt("pair sort: all permutations of %u keys", n); f.count = q; auto mk = [=](uint64_t i) { std::vector<double> pool, k; for (unsigned a = 0; a < n; a++) pool.push_back(a + 0.5); for (unsigned a = n; a; a--) { k.push_back(pool[i % a]); pool.erase(pool.begin() + (long)(i % a)); i /= a; } return k; };
      f.run = [=](Ctx& c, uint64_t i) { track_reset(); auto k = mk(i); qs(c, k, 0, (int)n - 1); c.trace(); }; f.desc = [=](uint64_t i) { return kd(mk(i)); }; v.push_back(f); }
    { unsigned N = th ? 1500 : 260; Family f; f.name = fmt("pair sort: 1..%u keys, 10 patterns", N); f.count = N * 10; f.run = [=](Ctx& c, uint64_t i) { track_reset(); auto k = pattern(i % 10, i / 10 + 1); qs(c, k, 0, (int)k.size() - 1); if (k.size() > 8) qs(c, k, 3, (int)k.size() - 4); c.trace(); }; f.desc = [=](uint64_t i) { return fmt("pattern %d, n=%d", (int)(i % 10), (int)(i / 10 + 1)); }; v.push_back(f); }
    for (unsigned k = 1; k <= 4; k++) { Family f; f.name = fmt("similarity: %u clusters, all confidences over 3 values, every ordered request", k); f.count = ipow(3, 2 * k); static const double C[3] = {0, 12.5, 99}; auto mk = [=](uint64_t i, int p) { if (p) i /= ipow(3, k); std::vector<double> q; for (unsigned a = 0; a < k; a++) { q.push_back(C[i % 3]); i /= 3; } return q; };
        f.run = [=](Ctx& c, uint64_t i) { sortmap(c, mk(i, 0), mk(i, 1), true); }; f.desc = [=](uint64_t i) { return "core " + kd(mk(i, 0)) + " pairwise " + kd(mk(i, 1)); }; v.push_back(f); }
    { unsigned N = th ? 400 : 120; Family f; f.name = fmt("similarity: 1..%u clusters, 10 patterns", N); f.count = N * 10; f.run = [=](Ctx& c, uint64_t i) { size_t k = i / 10 + 1; sortmap(c, pattern(i % 10, k), pattern((i + 3) % 10, k), false); }; f.desc = [=](uint64_t i) { return fmt("pattern %d, %d clusters", (int)(i % 10), (int)(i / 10 + 1)); }; v.push_back(f); }
    { unsigned n = th ? 9 : 7; Family f; f.name = fmt("length: all arrays of %u labels over 4 values, every ordered request", n); f.count = ipow(4, n); std::vector<double> A = {0, 3, 2, 70000}; f.run = [=](Ctx& c, uint64_t i) { lenmap(c, keys(i, n, A), true); }; f.desc = [=](uint64_t i) { return "labels" + lstr(keys(i, n, A)); }; v.push_back(f); }
    { unsigned N = th ? 400 : 120; Family f; f.name = fmt("length: 1..%u points, 4 label patterns", N); f.count = N * 4; auto mk = [=](uint64_t i) { size_t n = i / 4 + 1, p = i % 4; std::vector<double> l; for (size_t a = 0; a < n; a++) l.push_back(p == 0 ? (double)(a % 7) : p == 1 ? std::floor(std::sqrt((double)a)) : p == 2 ? (double)(n - a) : std::floor(std::log2((double)(n - a)))); return l; }; f.run = [=](Ctx& c, uint64_t i) { lenmap(c, mk(i), false); }; f.desc = [=](uint64_t i) { return "labels" + lstr(mk(i)); }; v.push_back(f); }
    { static const size_t Z[] = {1, 2, 90, 127, 128, 255, 256, 257, 300, 32768, 65535, 65536, 65541}; Family f; f.name = "length: three clusters of 1..65541 points, all triples (one above 300 points at most twice)"; f.count = 13 * 13 * 13;
      f.run = [=](Ctx& c, uint64_t i) { size_t a[3] = {Z[i % 13], Z[i / 13 % 13], Z[i / 169]}; int big = 0; for (size_t x : a) big += x > 300; if (big == 3 || (big == 2 && a[0] < 300 && a[0] != 1)) return; std::vector<double> l; static const double L[3] = {5, 70000, 2}; for (int k = 0; k < 3; k++) l.insert(l.end(), a[k], L[k]); lenmap(c, l, false); };
      f.desc = [=](uint64_t i) { return fmt("%zu, %zu and %zu points", Z[i % 13], Z[i / 13 % 13], Z[i / 169]); }; v.push_back(f); }
    { static const size_t Z[] = {511, 513, 1000, 2048, 4097, 32767, 32768, 65535, 65536, 65537, 70000}; Family f; f.name = "pair sort: 511..70000 keys, 10 patterns up to 3000 keys, scattered keys above"; f.count = 110; f.run = [=](Ctx& c, uint64_t i) { size_t n = Z[i / 10]; if (n > 3000 && i % 10 != 4) return; track_reset(); auto k = pattern(i % 10, n); qs(c, k, 0, (int)n - 1); c.trace(); c.state(i); }; f.desc = [=](uint64_t i) { return fmt("pattern %d, %zu keys", (int)(i % 10), Z[i / 10]); }; v.push_back(f); }
    { static const size_t Z[] = {254, 255, 256, 257, 300, 513, 1000, 2000}; Family f; f.name = "similarity and length: 254..2000 clusters, 10 patterns"; f.count = 80; f.run = [=](Ctx& c, uint64_t i) { size_t k = Z[i / 10]; sortmap(c, pattern(i % 10, k), pattern((i + 3) % 10, k), false); std::vector<double> l; for (size_t a = 0; a < k; a++) l.insert(l.end(), 1 + a * 7 % 5, (double)(i % 10 == 1 ? k - a : a) * 3); lenmap(c, l, false); }; f.desc = [=](uint64_t i) { return fmt("pattern %d, %zu clusters", (int)(i % 10), Z[i / 10]); }; v.push_back(f); }
    // whole pipeline: the confidences of real runs, also where they are not numbers
    for (auto g : {grid(6, 1, 3, 3), gaps(8, {0, 1, 9}, 2, 3), blocks(4, {line(5, 1), ds::dup(4), {0, 1, 3, 7, 15}}, {50, 90}, {2, 3}, 1)}) { Fam q = g; v.push_back(fam(q, [](Ctx& c, const Data& d, unsigned long m, const Fam&) {
        Packed pk(d, H_DOUBLE_); track_reset(); void *h, *t, *dm; double st[13]; { In in; h = sut_new(m); if (sut_run(h, pk.p, d.rows, d.cols, 1, H_DOUBLE_)) fail("run failed"); t = sut_cluster_map_of(h, 0, d.rows, nullptr); dm = sut_distance_map(h, t, nullptr); sut_stats(dm, 0, st); }
        sut_blob o = {nullptr, 0, 0}; sut_distance_map_read(dm, &o); auto g = parse_dm(o); sut_blob_free(&o); std::map<double, double> K[2]; bool nan[2] = {false, false}; for (auto& kv : g) { K[0][kv.first] = kv.second.crc; K[1][kv.first] = kv.second.drc; nan[0] |= std::isnan(kv.second.crc); nan[1] |= std::isnan(kv.second.drc); }
        for (int ty = 0; ty < 2; ty++) { std::vector<double> out(g.size() + 2); size_t n; { In in; n = sut_sort_by_similarity(dm, nullptr, 0, 0, ty, out.data()); } out.resize(n); if (nan[ty]) for (auto& kv : K[ty]) kv.second = 0; sorted_list(c, K[ty], nullptr, out, "similarity"); }
        { In in; sut_distance_map_destroy(dm); sut_cluster_map_destroy(t); sut_destroy(h); } if (live()) fail("%zu allocations not released", live()); c.trace(); })); }
}
int main(int argc, char** argv) {
    return ex::main_(argc, argv, [](bool th) {
        sut_set_threads(1); std::vector<Family> v;
        if (PROP == 13) c13(v, th);
        if (PROP == 14) { auto add = [&](Fam f, unsigned nl) { f.name += nl ? fmt(", all labelings over %u values", nl) : ", own and 9 other partitions"; v.push_back(fam(f, [=](Ctx& c, const Data& d, unsigned long m, const Fam& q) { c14(c, d, m, q, nl, th); })); };
            add(grid(1, 1, 2, 3), 3); add(grid(2, 1, 3, 4), 3); add(grid(3, 1, 4, 4), 3); add(grid(4, 1, 4, 5), 3); add(grid(5, 1, 3, 4), 3); add(grid(4, 2, 2, 4), 3); add(grid(3, 2, 3, 3), 3); add(gaps(6, {0, 1, 7}, 2, 3, 2), 2); add(matrix(4, 3, 3), 3);
            if (th) add(grid(6, 1, 3, 4), 3), add(gaps(7, {0, 1, 7}, 2, 4, 3), 3), add(grid(5, 2, 2, 4), 3), add(matrix(5, 2, 4), 3), add(gaps(11, {0, 1, 9}, 2, 4, 3), 0);
            add(gaps(9, {0, 1, 9}, 2, 3, 3), 0); add(blocks(3, {line(5, 1), ds::dup(3), ds::dup(1), line(18, 0.5), {0, 1, 2, 40, 41, 42}}, {7, 60}, {2, 3, 5}, 2), 0); add(sizes(th ? std::vector<unsigned>{127, 128, 129, 254, 255, 256, 257, 300, 511, 513, 1030, 2050} : std::vector<unsigned>{128, 256, 257, 513, 1030}), 0); }
        if (PROP == 15) c15(v, th);
        if (PROP == 16) c16(v, th);
        return v; });
}
