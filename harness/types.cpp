// C12: all 18 combinations of label, index and distance types, loaded side by side and driven with the same inputs.
#include "datasets.hpp"
#include <dlfcn.h>
using namespace ds; using namespace sut; using ex::Ctx; using ex::Family; using ex::fail; using ex::fmt;
struct Api {
    std::string name; int lab, idx, dst; bool flt; double dmax;
#define F(n) decltype(&n) n##_;
    F(sut_new) F(sut_run) F(sut_rerun) F(sut_destroy) F(sut_clean) F(sut_read) F(sut_blob_free) F(sut_sizeof) F(sut_dmax) F(sut_dmin) F(sut_cluster_map) F(sut_cluster_map_of) F(sut_cluster_map_destroy) F(sut_map_read)
    F(sut_distance_map) F(sut_distance_map_read) F(sut_distance_map_destroy) F(sut_distance_map_make) F(sut_stats) F(sut_validity) F(sut_sort_by_similarity) F(sut_sort_by_length) F(sut_quicksort) F(sut_propagate_again)
#undef F
};
static std::vector<Api> A;
static void load(const char* path) {
    void* l = dlopen(path, RTLD_NOW | RTLD_LOCAL); if (!l) { fprintf(stderr, "%s\n", dlerror()); exit(2); } Api a; 
#define F(n) a.n##_ = (decltype(a.n##_))dlsym(l, #n); if (!a.n##_) { fprintf(stderr, "no " #n "\n"); exit(2); }
    F(sut_new) F(sut_run) F(sut_rerun) F(sut_destroy) F(sut_clean) F(sut_read) F(sut_blob_free) F(sut_sizeof) F(sut_dmax) F(sut_dmin) F(sut_cluster_map) F(sut_cluster_map_of) F(sut_cluster_map_destroy) F(sut_map_read)
    F(sut_distance_map) F(sut_distance_map_read) F(sut_distance_map_destroy) F(sut_distance_map_make) F(sut_stats) F(sut_validity) F(sut_sort_by_similarity) F(sut_sort_by_length) F(sut_quicksort) F(sut_propagate_again)
#undef F
    a.lab = a.sut_sizeof_(0); a.idx = a.sut_sizeof_(1); a.dst = a.sut_sizeof_(2); a.flt = a.dst == 4; a.dmax = a.sut_dmax_();
    auto nm = [](int s) { return s == 2 ? "short" : s == 4 ? "int" : "long"; }; a.name = fmt("label %s, index %s, %s", nm(a.lab), nm(a.idx), a.flt ? "float" : "double"); A.push_back(a);
}
// ------------------------------------------------------------------ comparison
static double sent(double x, double dmax) { return x >= dmax ? INFINITY : x; }
static bool near(double a, double b, double rel, double abs = 0) { if (a == b || (std::isnan(a) && std::isnan(b))) return true; if (!std::isfinite(a) || !std::isfinite(b)) return false; return std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b)) + abs; }
struct Cmp { const Api& a; const Res &r, &x; double tol; const char* when;
    void val(double want, double got, const char* what, size_t i, double abs = 0) { want = sent(want, A[0].dmax); got = sent(got, a.dmax); if (!near(want, got, tol, abs)) fail("%s, %s: %s %zu is %.17g, with %s it is %.17g", a.name.c_str(), when, what, i, got, A[0].name.c_str(), want); }
};
static bool tie(const Res& r) { for (auto& c : r.clu) if (c.kids && c.label != 1 && std::isfinite(c.stab) && std::isfinite(c.pstab) && near(c.stab, c.pstab, 1e-4)) return true; return false; }
static void partition(const Cmp& c, const std::vector<long>& p, const std::vector<long>& q, const char* what) {
    std::map<long, long> f, g; for (size_t i = 0; i < p.size(); i++) { if ((p[i] == 0) != (q[i] == 0)) fail("%s, %s: %s: point %zu has label %ld, with %s %ld", c.a.name.c_str(), c.when, what, i, q[i], A[0].name.c_str(), p[i]); if (!f.count(p[i])) f[p[i]] = q[i]; if (!g.count(q[i])) g[q[i]] = p[i]; if (f[p[i]] != q[i] || g[q[i]] != p[i]) fail("%s, %s: %s: the partition differs from %s at point %zu", c.a.name.c_str(), c.when, what, A[0].name.c_str(), i); }
}
static void compare(const Api& a, const Res& r, const Res& x, const char* when) {
    Cmp c{a, r, x, a.flt ? 3e-6 : 1e-13, when}; const char* N = a.name.c_str(); if (x.n != r.n || x.minPts != r.minPts) fail("%s, %s: %zu points and minPts %zu", N, when, x.n, x.minPts);
    for (size_t i = 0; i < r.dist.size(); i++) c.val(r.dist[i], x.dist[i], "distance", i); for (size_t i = 0; i < r.n; i++) c.val(r.core[i], x.core[i], "core distance", i);
    if (r.mst.size() != x.mst.size()) fail("%s, %s: %zu spanning tree edges instead of %zu", N, when, x.mst.size(), r.mst.size()); for (size_t i = 0; i < r.mst.size(); i++) c.val(r.mst[i].w, x.mst[i].w, "spanning tree weight", i);
    if (r.hier.size() != x.hier.size()) fail("%s, %s: %zu hierarchy levels instead of %zu", N, when, x.hier.size(), r.hier.size());
    for (size_t l = 0; l < r.hier.size(); l++) { if (r.hier[l].key != x.hier[l].key) fail("%s, %s: level %zu has key %ld instead of %ld", N, when, l, x.hier[l].key, r.hier[l].key); c.val(r.hier[l].w, x.hier[l].w, "weight of level", l); partition(c, r.hier[l].lab, x.hier[l].lab, "hierarchy"); }
    if (r.clu.size() != x.clu.size()) fail("%s, %s: %zu clusters instead of %zu", N, when, x.clu.size(), r.clu.size());
    // cluster records as a multiset: sorted by their exact parts
    auto ord = [](const Res& q) { std::vector<const Clu*> v; for (auto& k : q.clu) v.push_back(&k); std::sort(v.begin(), v.end(), [](const Clu* s, const Clu* t) { return std::make_tuple(s->label != 1, s->birth, s->death, s->num, s->offset, s->kids, s->stab) < std::make_tuple(t->label != 1, t->birth, t->death, t->num, t->offset, t->kids, t->stab); }); return v; };
    auto cr = ord(r), cx = ord(x); double big = 0; for (auto k : cr) if (k->death > 0) big = std::max(big, 1 / k->death); for (auto& l : r.hier) if (l.w > 0) big = std::max(big, 1 / l.w);
    for (size_t i = 0; i < cr.size(); i++) { const Clu &p = *cr[i], &q = *cx[i]; double abs = (double)r.n * big * (a.flt ? 3e-6 : 1e-12); if (p.label != 1) { c.val(p.birth, q.birth, "birth level of cluster", i); c.val(p.stab, q.stab, "stability of cluster", i, abs); } c.val(p.death, q.death, "death level of cluster", i);
        if (p.num != q.num || p.kids != q.kids || p.ncons != q.ncons || p.virt.size() != q.virt.size()) fail("%s, %s: the record of cluster %zu (size at death %ld) differs (%ld)", N, when, i, p.num, q.num); }
    std::vector<double> s(r.n), t(r.n); for (size_t i = 0; i < r.n; i++) { if (x.sc[i].id < 0 || (size_t)x.sc[i].id >= r.n) fail("%s, %s: a score of point %ld", N, when, x.sc[i].id); s[(size_t)r.sc[i].id] = r.sc[i].s; t[(size_t)x.sc[i].id] = x.sc[i].s; c.val(r.sc[i].s, x.sc[i].s, "score at position", i, 1e-6); if (i && x.sc[i - 1].s > x.sc[i].s) fail("%s, %s: the scores are not in order", N, when); }
    for (size_t i = 0; i < r.n; i++) c.val(s[i], t[i], "score of point", i, a.flt ? 1e-6 : 1e-13);
    if (!a.flt || !tie(r)) partition(c, r.lab, x.lab, "labels");
}
struct DV { double mincr, maxcr, crc, mindr, maxdr, drc; };
static std::map<double, DV> dmap(const Api& a, void* dm) { sut_blob b = {0, 0, 0}; a.sut_distance_map_read_(dm, &b); std::map<double, DV> m; for (size_t i = 0; i < (size_t)b.v[0]; i++) { double* p = b.v + 1 + 7 * i; m[p[0]] = {p[1], p[2], p[3], p[4], p[5], p[6]}; } if (m.size() != (size_t)b.v[0]) fail("%s: a cluster appears twice in a distance map", a.name.c_str()); a.sut_blob_free_(&b); return m; }
static std::map<double, std::vector<double>> cmap(const Api& a, sut_blob* b) { std::map<double, std::vector<double>> m; size_t p = 1; for (size_t i = 0; i < (size_t)b->v[0]; i++) { double k = b->v[p++]; long n = (long)b->v[p++]; if (n < 0) fail("%s: label %.0f is not found in the cluster map", a.name.c_str(), k); auto& v = m[k]; for (long j = 0; j < n; j++) v.push_back(b->v[p++]); } if (m.size() != (size_t)b->v[0]) fail("%s: a label appears twice in a cluster map", a.name.c_str()); a.sut_blob_free_(b); return m; }
static void in_order(const Api& a, const std::map<double, double>& key, std::vector<double> got, const char* what) {
    if (got.size() != key.size()) fail("%s: %s: %zu clusters returned, there are %zu", a.name.c_str(), what, got.size(), key.size()); std::set<double> seen; double last = 0; bool first = true, nan = false; for (auto& kv : key) if (std::isnan(kv.second)) nan = true;
    for (double l : got) { auto it = key.find(l); if (it == key.end() || !seen.insert(l).second) fail("%s: %s: cluster %.0f is unknown or repeated", a.name.c_str(), what, l); if (!nan && !first && last > it->second) fail("%s: %s: cluster %.0f (%g) comes after one with %g", a.name.c_str(), what, l, it->second, last); last = it->second; first = false; }
}
static void sorts(const Api& a, void* ct, const std::map<double, std::vector<double>>& cm, void* dm, const std::map<double, DV>& D) {
    std::vector<double> out(std::max(cm.size(), D.size()) + 2); std::map<double, double> key;
    if (ct) { for (auto& kv : cm) key[kv.first] = (double)kv.second.size(); size_t k = a.sut_sort_by_length_(ct, nullptr, 0, 0, out.data()); in_order(a, key, std::vector<double>(out.begin(), out.begin() + (long)std::min(k, out.size())), "sorted by length"); }
    if (dm) for (int ty = 0; ty < 2; ty++) { key.clear(); for (auto& kv : D) key[kv.first] = ty ? kv.second.drc : kv.second.crc; size_t k = a.sut_sort_by_similarity_(dm, nullptr, 0, 0, ty, out.data()); in_order(a, key, std::vector<double>(out.begin(), out.begin() + (long)std::min(k, out.size())), ty ? "sorted by pairwise similarity" : "sorted by core similarity"); }
}
struct Post { std::vector<long> lab; std::map<double, DV> D; double st[13]; int val; };
static Post post(const Api& a, void* h, const Res& x) {
    Post p; size_t n = x.n; p.lab = x.lab; std::vector<std::pair<size_t, size_t>> R = {{0, n}}; if (n > 2) R.push_back({1, n}), R.push_back({0, n - 1}), R.push_back({n / 3, n - n / 4});
    for (auto& rg : R) { sut_blob b = {0, 0, 0}; void* ct = a.sut_cluster_map_of_(h, rg.first, rg.second, &b); auto m = cmap(a, &b); std::map<double, std::vector<double>> want; for (size_t i = rg.first; i < rg.second; i++) want[(double)x.lab[i]].push_back((double)i); if (m != want) fail("%s: the cluster map of points %zu..%zu does not match the labels", a.name.c_str(), rg.first, rg.second); 
        if (rg.first == 0 && rg.second == n) {
            void* dm = a.sut_distance_map_(h, ct, nullptr); for (auto& kv : dmap(a, dm)) { auto it = want.find(kv.first); if (it == want.end()) fail("%s: a cluster %.0f in the distance map", a.name.c_str(), kv.first); DV e = kv.second; double c0 = 0, c1 = 0, d0 = a.dmax, d1 = a.sut_dmin_(); for (double i : it->second) { double w = x.core[(size_t)i]; c1 = std::max(c1, w); if (w != 0 && (c0 == 0 || w < c0)) c0 = w; for (double j : it->second) { double y = x.d((size_t)i, (size_t)j); if (y != 0) d0 = std::min(d0, y), d1 = std::max(d1, y); } }
                if (e.mincr != c0 || e.maxcr != c1 || e.mindr != d0 || e.maxdr != d1) fail("%s: cluster %.0f has core distances %g..%g and distances %g..%g, expected %g..%g and %g..%g", a.name.c_str(), kv.first, e.mincr, e.maxcr, e.mindr, e.maxdr, c0, c1, d0, d1); }
            a.sut_stats_(dm, 0x41, p.st); p.val = a.sut_validity_(p.st); p.D = dmap(a, dm); sorts(a, ct, m, dm, p.D); a.sut_distance_map_destroy_(dm); }
        a.sut_cluster_map_destroy_(ct); }
    return p;
}
static void cmp_stats(const Api& a, const double r[13], const double x[13]) {
    if (r[0] != x[0]) fail("%s: statistics of %.0f clusters instead of %.0f", a.name.c_str(), x[0], r[0]);
    for (int part = 0; part < 2; part++) { const double *p = r + 1 + 6 * part, *q = x + 1 + 6 * part; static const char* nm[6] = {"mean", "standard deviation", "variance", "maximum", "kurtosis", "skewness"};
        bool fin = true; for (int i = 0; i < 4; i++) fin = fin && std::isfinite(p[i]) && std::isfinite(q[i]) && std::fabs(p[i]) < 1e15; if (a.flt && !fin) continue; double mag = std::fabs(p[0]) + p[3]; bool spread = p[1] > 1e-3 * mag;
        for (int i = 0; i < 6; i++) { if (i >= 4 && a.flt && !spread) continue; double tol = a.flt ? (i >= 4 ? 2e-2 : 1e-4) : 1e-9, abs = a.flt ? (i == 1 || i == 0 || i == 3 ? 1e-4 * mag : i == 2 ? 1e-4 * mag * mag : 2e-2) : 1e-9 * (i == 2 ? mag * mag : i < 4 ? mag : 1); if (!near(p[i], q[i], tol, abs)) fail("%s: %s %s is %.9g, with %s %.9g", a.name.c_str(), part ? "pairwise" : "core", nm[i], q[i], A[0].name.c_str(), p[i]); } }
}
static bool clear_signs(const double s[13]) { for (int i : {5, 6, 11, 12}) if (std::isnan(s[i]) || std::fabs(s[i]) < 0.05) return false; return true; }
static Res get(const Api& a, void* h) { sut_blob b = {0, 0, 0}; a.sut_read_(h, &b, 1); Res r = parse(b); a.sut_blob_free_(&b); return r; }
static void same_runs(Ctx& c, const Data& d, unsigned long m, int type, bool doubles_only = false) {
    std::vector<Res> ref; Post pref; Packed pk(d, type);
    for (size_t k = 0; k < A.size(); k++) { const Api& a = A[k]; if (doubles_only && a.flt) continue;
        void* h = a.sut_new_(m); if (a.sut_run_(h, pk.p, d.rows, d.cols, 1, type)) fail("%s: run failed", a.name.c_str()); Res r = get(a, h); if (!k) ref.push_back(r); else compare(a, ref[0], r, "first run");
        Post p = post(a, h, r); if (!k) pref = p; else if (!a.flt || !tie(ref[0])) { cmp_stats(a, pref.st, p.st); if (clear_signs(pref.st) && p.val != pref.val) fail("%s: validity %d, with %s %d", a.name.c_str(), p.val, A[0].name.c_str(), pref.val); }
        int ps = a.sut_propagate_again_(h); if (k == 0) ref[0].rc = ps; else if (!!ps != !!ref[0].rc) fail("%s: propagation reports %d, with %s %d", a.name.c_str(), ps, A[0].name.c_str(), ref[0].rc);
        unsigned long m2 = m > 2 ? m - 1 : m + 1; if (a.sut_rerun_(h, m2)) fail("%s: rerun failed", a.name.c_str()); Res q = get(a, h); if (!k) ref.push_back(q); else compare(a, ref[1], q, "rerun"); post(a, h, q);
        a.sut_destroy_(h); c.trans(3); c.state(ex::mix(ex::hbytes(r.lab.data(), r.lab.size() * sizeof(long)), k)); }
    c.trace();
}
// ------------------------------------------------------------------ label values of each width
static std::vector<double> values(const Api& a) { std::vector<double> v = {0, 1, 255, 256, 32767, 32768, 65535}; if (a.lab >= 4) for (double x : {65536., 2147483647., 2147483648., 4294967295.}) v.push_back(x); if (a.lab == 8) for (double x : {4294967296., 4294967297., 9007199254740991.}) v.push_back(x); return v; }
static void label_map(Ctx& c, const Api& a, const std::vector<double>& l) {
    size_t n = l.size(); for (size_t b = 0; b < n; b++) for (size_t e = b + 1; e <= n; e++) { if (n > 8 && (b > 1 || e + 2 < n)) continue; sut_blob o = {0, 0, 0}; void* ct = a.sut_cluster_map_(l.data(), n, b, e, &o); auto m = cmap(a, &o); std::map<double, std::vector<double>> want; for (size_t i = b; i < e; i++) want[l[i]].push_back((double)i); if (m != want) fail("%s: the cluster map of points %zu..%zu does not match the labels", a.name.c_str(), b, e); sorts(a, ct, m, nullptr, {}); a.sut_cluster_map_destroy_(ct); c.trans(); }
    c.state(ex::mix(ex::hbytes(l.data(), 8 * n), (uint64_t)(&a - &A[0]))); c.trace();
}
static void label_stats(Ctx& c, const Api& a, const std::vector<double>& l, uint64_t sel) {
    std::vector<double> rows; std::map<double, DV> in; for (size_t i = 0; i < l.size(); i++) { double mx = 1 + (double)((sel >> (2 * i)) & 3) * 2, md = 2 + (double)((sel >> (2 * i + 1)) & 3); double x[7] = {l[i], 1, mx, 0, 1, md, 0}; rows.insert(rows.end(), x, x + 7); in[l[i]] = {1, mx, 0, 1, md, 0}; }
    void* dm = a.sut_distance_map_make_(rows.data(), l.size()); double st[13]; a.sut_stats_(dm, 0, st); auto D = dmap(a, dm); if (D.size() != l.size()) fail("%s: a cluster lost from the distance map", a.name.c_str()); double mc = 0, md = 0; for (auto& kv : in) mc = std::max(mc, kv.second.maxcr), md = std::max(md, kv.second.maxdr);
    for (auto& kv : D) { DV w = in[kv.first]; if (!near(kv.second.crc, (mc - w.maxcr) / mc * 100, 1e-5, 1e-4) || !near(kv.second.drc, (md - w.maxdr) / md * 100, 1e-5, 1e-4)) fail("%s: cluster %.0f has confidences %g and %g, expected %g and %g", a.name.c_str(), kv.first, kv.second.crc, kv.second.drc, (mc - w.maxcr) / mc * 100, (md - w.maxdr) / md * 100); }
    sorts(a, nullptr, {}, dm, D); a.sut_distance_map_destroy_(dm); c.trans(3); c.trace(); c.state(ex::mix(ex::hbytes(rows.data(), 8 * rows.size()), (uint64_t)(&a - &A[0])));
}
int main(int argc, char** argv) {
    std::vector<char*> rest; std::string dir; for (int i = 0; i < argc; i++) if (!strcmp(argv[i], "--libs")) dir = argv[++i]; else rest.push_back(argv[i]);
    for (const char* dt : {"double", "float"}) for (const char* l : {"int", "short", "long"}) for (const char* x : {"int", "short", "long"}) load((dir + "/" + l + "_" + x + "_" + dt + ".so").c_str());
    return ex::main_((int)rest.size(), rest.data(), [](bool th) {
        std::vector<Family> v; auto add = [&](Fam f, int t0 = -1) { Family e = fam(f, [t0](Ctx& c, const Data& d, unsigned long m, const Fam&) { bool whole = true, small = true; for (double x : d.x) { if (x != std::floor(x)) whole = false; if (std::fabs(x) > 100) small = false; } static const int T[4] = {H_DOUBLE_, H_INT_, H_LONG_, H_SHORT_}; int t = t0 >= 0 ? t0 : !whole ? H_DOUBLE_ : small && (d.x.size() + m) % 5 == 0 ? H_CHAR_ : T[(uint64_t)(d.x.empty() ? 0 : d.x.back() + m) % 4]; same_runs(c, d, m, t); }); e.name += " x 18 configurations"; v.push_back(e); };
        for (unsigned n = 1; n <= 4; n++) add(grid(n, 1, n == 4 ? 4 : 5, n + 2)); add(grid(5, 1, 3, 4)); add(grid(3, 2, 3, 4)); add(matrix(4, 3, 3)); add(gaps(7, {0, 1, 4}, 2, 3)); add(gaps(9, {1, 8}, 2, 4)); add(gaps(8, {1, 3, 10}, 2, 2)); add(tied(10, {1, 2}, 2, 3, 1));
        std::vector<std::vector<double>> pats = {line(1, 1), line(5, 1), ds::dup(3), line(18, 0.5), ds::dup(20), {0, 1, 2, 40, 41, 42}}; add(blocks(3, pats, {7, 60}, {2, 4}, 1));
        add(blocks(2, {line(130, 1), ds::dup(140), line(260, 0.25), {0, 1, 10, 11, 20, 21, 30, 31}}, {500}, {2, 17, 300}, 1, "(index above 255)"));
        // many clusters: labels beyond 8 bits; pair numbers beyond 16 bits
        { Fam f; f.name = "pairs of points at growing distances: clusters beyond 255, cells beyond 65535"; f.count = th ? 6 : 3; f.get = [](uint64_t i) { Data d; unsigned k = i % 3 == 0 ? 140 : i % 3 == 1 ? 200 : 300; double x = 0; for (unsigned q = 0; q < k; q++) { d.x.push_back(x); d.x.push_back(x + 1 + q % 3); if (i >= 3) d.x.push_back(x + 5); x += 20 + (double)((q * 37) % 64); } d.rows = d.x.size(); return d; }; f.minPts = [](uint64_t i) { return 2 + i / 3; }; add(f, H_DOUBLE_); v.back().case_timeout = 120; }
        if (th) { add(grid(5, 1, 5, 6)); add(grid(6, 1, 4, 4)); add(grid(4, 2, 3, 4)); add(matrix(5, 2, 4)); add(gaps(9, {0, 1, 4}, 2, 4)); add(gaps(12, {1, 6}, 2, 5)); add(tied(12, {1, 2}, 2, 3, 2)); add(blocks(4, {line(2, 1), line(4, 2), ds::dup(4), {0, 1, 3, 7, 15}}, {3, 20}, {2, 4}, 2)); add(blocks(3, pats, {7, 60}, {2, 3, 4, 5}, 3, "(orders)")); }
        unsigned L = th ? 5 : 3; uint64_t tot = 0; std::vector<uint64_t> start; for (auto& a : A) { start.push_back(tot); tot += ipow(values(a).size(), L); }
        auto pick = [=](uint64_t i, unsigned len, size_t& k) { k = A.size() - 1; while (start[k] > i) k--; i -= start[k]; auto al = values(A[k]); std::vector<double> l; for (unsigned q = 0; q < len; q++) { l.push_back(al[i % al.size()]); i /= al.size(); } return l; };
        { Family f; f.name = fmt("cluster maps: all label arrays of %u over the boundary values of each label type, all ranges", L); f.count = tot; f.run = [=](Ctx& c, uint64_t i) { size_t k; auto l = pick(i, L, k); label_map(c, A[k], l); }; f.desc = [=](uint64_t i) { size_t k; auto l = pick(i, L, k); std::string s = A[k].name + ": labels"; for (double x : l) s += fmt(" %.0f", x); return s; }; v.push_back(f); }
        { Family f; f.name = "statistics and similarity order: every subset of the boundary labels, 8 range patterns"; uint64_t t2 = 0; std::vector<uint64_t> st; for (auto& a : A) { st.push_back(t2); t2 += (1ull << std::min<size_t>(values(a).size(), th ? 14 : 9)) - 1; } f.count = t2 * 8;
          auto pk = [=](uint64_t i, size_t& k) { i /= 8; k = A.size() - 1; while (st[k] > i) k--; uint64_t mask = i - st[k] + 1; auto al = values(A[k]); std::vector<double> l; size_t w = std::min<size_t>(al.size(), th ? 14 : 9); for (size_t q = 0; q < w; q++) if (mask >> q & 1) l.push_back(al[al.size() - 1 - q]); return l; };
          f.run = [=](Ctx& c, uint64_t i) { size_t k; auto l = pk(i, k); static const uint64_t P[8] = {0x1B, 0xE4E4E4, 0x9D2C5680, 0x123456789, 0, 0x5555555555, 0xF0F0F0F0F, 0xFEDCBA987}; label_stats(c, A[k], l, P[i % 8]); }; f.desc = [=](uint64_t i) { size_t k; auto l = pk(i, k); std::string s = A[k].name + ": labels"; for (double x : l) s += fmt(" %.0f", x); return s + fmt(", pattern %lu", i % 8); }; v.push_back(f); }
        { Family f; f.name = "quicksort of labels by keys, every permutation and tie pattern of 5 keys, all ranges"; f.count = ipow(5, 5) * A.size(); f.run = [](Ctx& c, uint64_t i) { const Api& a = A[i % A.size()]; auto al = values(a); uint64_t q = i / A.size(); std::vector<double> K; for (int k = 0; k < 5; k++) { K.push_back((double)(q % 5)); q /= 5; }
            for (int l = 0; l < 5; l++) for (int r = l; r < 5; r++) { std::vector<double> k = K, lab(al.end() - 5, al.end()), lab0 = lab; a.sut_quicksort_(lab.data(), k.data(), 5, l, r); for (int p = 0; p < 5; p++) { size_t o = (size_t)(std::find(lab0.begin(), lab0.end(), lab[(size_t)p]) - lab0.begin()); if (o == 5 || K[o] != k[(size_t)p] || ((p < l || p > r) && o != (size_t)p) || (p > l && p <= r && k[(size_t)p - 1] > k[(size_t)p])) fail("%s: sorting positions %d..%d: wrong at position %d", a.name.c_str(), l, r, p); } c.trans(); } c.trace(); c.state(i); };
          f.desc = [](uint64_t i) { uint64_t q = i / A.size(); std::string s = A[i % A.size()].name + ": keys"; for (int k = 0; k < 5; k++) { s += fmt(" %lu", q % 5); q /= 5; } return s; }; v.push_back(f); }
        return v; });
}
