// C29: the C++ interface against the C interface on the same data.
#include "hdbscan/hdbscan.hpp"
#include "datasets.hpp"
#include "capture.hpp"
#include "text.hpp"
#include "layout.h"
#include <cstddef>
using namespace ds; using namespace sut; using ex::Ctx; using ex::Family;
namespace cl = clustering;
typedef cl::hdbscan Obj; typedef std::map<label_t, cl::distance_values> DMap;
extern "C" { extern const layout_row c_layout[]; int c_mst(void*); int c_tree(void*, double*, unsigned long*, int); void c_prominent(void*, int); int c_scores(void*, const double*, const unsigned long*, int); void* c_distance(int, int); void c_distance_compute(void*, void*, unsigned long, unsigned long, unsigned long); double c_distance_get(void*, unsigned long, unsigned long); double c_core(void*, unsigned long); int c_graph_ok(void*); }
static void same(const Res& want, const Res& got, const std::string& what) {
    if (want.raw.size() != got.raw.size()) fail("%s: the C++ object holds %zu values, the C handle %zu", what.c_str(), got.raw.size(), want.raw.size());
    for (size_t i = 0; i < want.raw.size(); i++) if (memcmp(&want.raw[i], &got.raw[i], 8)) fail("%s: value %zu of the C++ object is %.17g, of the C handle %.17g", what.c_str(), i, got.raw[i], want.raw[i]);
}
static bool feq(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
// the fields as C++ code reads them
static void fields(Obj& o, const Res& r) {
    if (o.numPoints != r.n || o.minPoints != r.minPts || o.distanceFunction.rows != r.n) fail("C++ reads %lu points and minPts %lu, C %zu and %zu", (unsigned long)o.numPoints, (unsigned long)o.minPoints, r.n, r.minPts);
    for (size_t i = 0; i < r.n; i++) { if ((long)o.clusterLabels[i] != r.lab[i]) fail("C++ reads label %ld of point %zu, C %ld", (long)o.clusterLabels[i], i, r.lab[i]); if ((long)o.outlierScores[i].id != r.sc[i].id || !feq(o.outlierScores[i].score, r.sc[i].s) || !feq(o.outlierScores[i].coreDistance, r.sc[i].c)) fail("C++ reads another outlier score at position %zu than C", i); if (!feq(o.distanceFunction.coreDistances[i], r.core[i])) fail("C++ reads core distance %.17g of point %zu, C %.17g", (double)o.distanceFunction.coreDistances[i], i, r.core[i]); }
    if (o.mst->edgeWeights->size != r.mst.size() || o.mst->numVertices != r.n) fail("C++ reads a spanning tree of %zu edges, C %zu", (size_t)o.mst->edgeWeights->size, r.mst.size());
    for (size_t i = 0; i < r.mst.size(); i++) if (!feq(((distance_t*)o.mst->edgeWeights->data)[i], r.mst[i].w)) fail("C++ reads another weight of edge %zu", i);
    size_t k = 0; for (size_t i = 0; i < o.clusters->size; i++) { cl::cluster* q = ((cl::cluster**)o.clusters->data)[i]; if (!q) continue; const Clu& w = r.clu[k++]; if ((long)q->label != w.label || !feq(q->birthLevel, w.birth) || !feq(q->deathLevel, w.death) || !feq(q->stability, w.stab) || !feq(q->propagatedStability, w.pstab) || !feq(q->propagatedLowestChildDeathLevel, w.plow) || (long)q->numPoints != w.num || (long)q->offset != w.offset || (q->hasChildren != 0) != w.kids || (q->parent ? (long)q->parent->label : -1) != w.parent || (q->propagatedDescendants->size) != w.desc.size()) fail("C++ reads another cluster record for label %ld than C", w.label); }
    if (k != r.clu.size()) fail("C++ reads %zu clusters, C %zu", k, r.clu.size());
}
static void unique_numbers(const std::string& text, std::vector<std::vector<double>> rows, const char* what, bool per_line) {
    if (per_line) { Lines L = lines(text); if (L.size() != rows.size()) fail("%s: %zu lines for %zu clusters", what, L.size(), rows.size()); std::vector<bool> used(rows.size()); for (auto& l : L) { auto g = numbers(l); size_t hit = rows.size(); for (size_t i = 0; i < rows.size(); i++) if (!used[i] && rows[i].size() == g.size()) { bool ok = true; for (size_t q = 0; q < g.size(); q++) ok = ok && shows(g[q], rows[i][q]); if (ok) { hit = i; break; } } if (hit == rows.size()) fail("%s shows \"%.80s\", which is no cluster's", what, l.c_str()); used[hit] = true; } return; }
    std::vector<double> e; for (auto& r : rows) e.insert(e.end(), r.begin(), r.end()); expect(numbers(text), e, what);
}
static void in_order(const std::map<label_t, double>& key, const std::vector<label_t>& req, const std::vector<label_t>& got, const char* what) {
    std::vector<label_t> a = req, b = got; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) fail("%s: the C++ sort returns other clusters than it was given", what);
    for (auto& kv : key) if (std::isnan(kv.second)) return; for (size_t i = 1; i < got.size(); i++) if (key.at(got[i - 1]) > key.at(got[i])) fail("%s: cluster %ld (%g) comes after cluster %ld (%g)", what, (long)got[i], key.at(got[i]), (long)got[i - 1], key.at(got[i - 1]));
}
static std::string no_rules(const std::string& s) { std::string o; for (auto& l : lines(s)) if (l.find("////") == std::string::npos && !l.empty()) o += l + "\n"; return o; }
static void post(Ctx& c, Obj& o, void* h, const Res& r, bool print, bool stats) {
    size_t n = r.n; std::vector<std::pair<size_t, size_t>> R = {{0, n}, {0, 0}, {n, n}}; if (n > 2) R.push_back({1, n}), R.push_back({0, n - 1}), R.push_back({n / 3, n - n / 4});
    for (auto& rg : R) {
        sut_blob b = {nullptr, 0, 0}, d = {nullptr, 0, 0}; void* ct = sut_cluster_map_of(h, rg.first, rg.second, &b); map_t m; { In in; m = cl::createClusterMap(o.clusterLabels, (index_t)rg.first, (index_t)rg.second); }
        std::map<double, std::vector<double>> w; size_t p = 1; for (size_t k = (size_t)b.v[0]; k--;) { double key = b.v[p]; size_t q = (size_t)b.v[p + 1]; p += 2; auto& v = w[key]; while (q--) v.push_back(b.v[p++]); }
        if (m.size() != w.size()) fail("range %zu..%zu: the C++ cluster map has %zu clusters, the C one %zu", rg.first, rg.second, m.size(), w.size()); for (auto& kv : m) { auto it = w.find((double)kv.first); if (it == w.end() || std::vector<double>(kv.second.begin(), kv.second.end()) != it->second) fail("range %zu..%zu: cluster %ld differs between C++ and C", rg.first, rg.second, (long)kv.first); }
        void* dm = sut_distance_map(h, ct, nullptr); DMap D; { In in; D = cl::getMinMaxDistances(o, m); } double st[13]; bool have = !m.empty() && stats; if (have) sut_stats(dm, 0x41, st); sut_distance_map_read(dm, &d);
        if (D.size() != (size_t)d.v[0]) fail("range %zu..%zu: the C++ distance map has %zu clusters, the C one %.0f", rg.first, rg.second, D.size(), d.v[0]);
        if (have) { cl::clustering_stats s; memset((void*)&s, 0x5A, sizeof s); { In in; cl::calculateStats(D, s); } double g[13] = {(double)s.count, s.coreDistanceValues.mean, s.coreDistanceValues.standardDev, s.coreDistanceValues.variance, s.coreDistanceValues.max, s.coreDistanceValues.kurtosis, s.coreDistanceValues.skewness, s.intraDistanceValues.mean, s.intraDistanceValues.standardDev, s.intraDistanceValues.variance, s.intraDistanceValues.max, s.intraDistanceValues.kurtosis, s.intraDistanceValues.skewness};
            bool flat[2] = {!(st[2] > 1e-6 * std::fabs(st[1])), !(st[8] > 1e-6 * std::fabs(st[7]))};
            for (int i = 0; i < 13; i++) { if (i && flat[i > 6] && ((i - 1) % 6 == 1 || (i - 1) % 6 == 2 || (i - 1) % 6 >= 4)) continue; bool ok = feq(g[i], st[i]) || std::fabs(g[i] - st[i]) <= 1e-9 * std::max(1e-3, std::fabs(st[i])) * (i && (i - 1) % 6 >= 4 ? 1e3 : 1); if (!ok) fail("range %zu..%zu: statistic %d is %.17g in C++, %.17g in C", rg.first, rg.second, i, g[i], st[i]); }     // C++ adds up in label order
            double sg[13]; for (int i = 0; i < 13; i++) sg[i] = g[i]; { int a; { In in; a = cl::analyseStats(s); } if (a != sut_validity(sg)) fail("analyseStats gives %d, hdbscan_analyse_stats %d", a, sut_validity(sg)); } if (print) { double q[13]; memcpy(q, g, sizeof q); std::string a = capture([&] { In in; cl::printStats(s); }), bq = capture([&] { sut_print(h, 3, nullptr, nullptr, q, nullptr); }); if (a != bq) fail("printStats prints other text than hdbscan_print_stats"); } }
        for (size_t i = 0; i < (size_t)d.v[0]; i++) { double* q = d.v + 1 + 7 * i; auto it = D.find((label_t)q[0]); if (it == D.end()) fail("cluster %.0f is not in the C++ distance map", q[0]); cl::distance_values& e = it->second; if (!feq(e.min_cr, q[1]) || !feq(e.max_cr, q[2]) || !feq(e.min_dr, q[4]) || !feq(e.max_dr, q[5])) fail("cluster %.0f: core distances %g..%g and distances %g..%g in C++, %g..%g and %g..%g in C", q[0], (double)e.min_cr, (double)e.max_cr, (double)e.min_dr, (double)e.max_dr, q[1], q[2], q[4], q[5]); if (!feq(e.cr_confidence, q[3]) || !feq(e.dr_confidence, q[6])) fail("cluster %.0f: confidences %g and %g in C++, %g and %g in C", q[0], (double)e.cr_confidence, (double)e.dr_confidence, q[3], q[6]); }
        // sorts: everything, every single cluster, all in reverse
        std::map<label_t, double> len, sim[2]; std::vector<label_t> all; for (auto& kv : m) len[kv.first] = (double)kv.second.size(), all.push_back(kv.first); for (auto& kv : D) sim[0][kv.first] = kv.second.cr_confidence, sim[1][kv.first] = kv.second.dr_confidence;
        std::vector<std::vector<label_t>> req = {all, std::vector<label_t>(all.rbegin(), all.rend())}; if (all.size() > 1) req.push_back({all[0]}), req.push_back({all.back(), all[0]});
        for (size_t q = 0; q <= req.size(); q++) for (int kind = 0; kind < 3; kind++) { std::vector<label_t> v = q < req.size() ? req[q] : std::vector<label_t>(); std::vector<label_t> want = v.empty() ? all : v; { In in; if (kind == 2) cl::sortByLength(m, v); else cl::sortBySimilarity(D, v, kind); } in_order(kind == 2 ? len : sim[kind], want, v, kind == 2 ? "sortByLength" : "sortBySimilarity"); c.trans(); }
        if (print) { std::vector<std::vector<double>> e, e2, e3; for (auto& kv : m) { std::vector<double> x = {(double)kv.first}; for (auto i : kv.second) x.push_back(i); e.push_back(x); e2.push_back({(double)kv.first, (double)kv.second.size()}); } for (auto& kv : D) e3.push_back({(double)kv.first, kv.second.min_cr, kv.second.max_cr, kv.second.cr_confidence, kv.second.min_dr, kv.second.max_dr, kv.second.dr_confidence});
            unique_numbers(capture([&] { In in; cl::printClusterMap(m); }), e, "printClusterMap", true); unique_numbers(capture([&] { In in; cl::printClusterSizes(m); }), e2, "printClusterSizes", true); unique_numbers(no_rules(capture([&] { In in; cl::printDistanceMap(D); })), e3, "printDistanceMap", false); }
        sut_distance_map_destroy(dm); sut_cluster_map_destroy(ct); sut_blob_free(&b); sut_blob_free(&d); c.trans(3); }
}
// scopes that own C++ containers must close before live() is read
static void one(Ctx& c, const Data& d, unsigned long m, int type, bool print) {
    Packed pk(d, type); warmup(); { static pid_t done = 0; if (done != getpid()) { done = getpid(); double st[13]; for (double& q : st) q = 1.7e308; capture([&] { printf("%f", 1.7e308); sut_print(nullptr, 3, nullptr, nullptr, st, nullptr); }); } } track_reset(); void* h; { Out o; h = sut_new(m); if (sut_run(h, pk.p, d.rows, d.cols, 1, type)) fail("the C run failed"); }
    Obj* o; { In in; o = new Obj((index_t)m); o->run(pk.p, (index_t)d.rows, (index_t)d.cols, 1, (index_t)type); } Res want = read(h); Res got = read(o); same(want, got, "run"); fields(*o, got); bool fin = true; for (double x : want.core) if (x == 0 || x >= sut_dmax()) fin = false; post(c, *o, h, got, print, fin);
    unsigned long m2 = m + 1; { Out q; sut_rerun(h, m2); } { In in; o->reRun((index_t)m2); } want = read(h); got = read(o); same(want, got, "reRun"); post(c, *o, h, got, false, false);
    { In in; o->clean(); } { In in; o->run(pk.p, (index_t)d.rows, (index_t)d.cols, 1, (index_t)type); } { Out q; void* h2 = sut_new(m2); sut_run(h2, pk.p, d.rows, d.cols, 1, type); want = read(h2); sut_destroy(h2); } same(want, read(o), "run after clean");
    { In in; delete o; } if (live()) fail("%zu allocations (%zu bytes) not released when the object is gone", live(), live_bytes()); { Out q; sut_destroy(h); } c.trace(); c.state(want.hash());
}
// ------------------------------------------------------------------ histories
struct Set { Data d; int type, rowwise; };
static std::vector<Set>& sets() { static std::vector<Set> v; if (!v.empty()) return v; auto mk = [](unsigned long r, unsigned long c, std::vector<double> x) { Data d; d.rows = r; d.cols = c; d.x = x; return d; };
    v.push_back({mk(7, 1, {0, 0, 0, 5, 5, 5, 20}), H_DOUBLE_, 1}); { std::vector<double> x; for (int k = 0; k < 14; k++) { x.push_back(k < 6 ? k : k < 10 ? 50 + 2 * k : 200 + k * k); x.push_back(k % 3); } v.push_back({mk(14, 2, x), H_INT_, 1}); } v.push_back({mk(1, 2, {3, 4}), H_FLOAT_, 1}); { std::vector<double> x; for (int k = 0; k < 12; k++) x.push_back(k / 4 * 30 + k % 4); v.push_back({mk(4, 3, x), H_SHORT_, 0}); } return v; }
static Res fresh(size_t s, unsigned long m) { static std::map<std::pair<size_t, unsigned long>, Res> memo; auto k = std::make_pair(s, m); auto it = memo.find(k); if (it != memo.end()) return it->second; Out o; Res r = run_once(sets()[s].d, m, sets()[s].type, sets()[s].rowwise, false); memo[k] = r; return r; }
static const char* OP[] = {"run dups", "run ints", "run single", "run elements", "reRun(2)", "reRun(3)", "reRun(5)", "clean", "queries", "destroy, construct(4)", "destroy, construct()", "propagateTree", "calculateOutlierScores"}; static const unsigned NO = 13;
struct Place { char lo[64]; alignas(16) char mem[sizeof(Obj)]; char hi[64]; };      // the object lies between guard bytes
struct X { Place p; Obj* o = nullptr; unsigned long m; long set = -1; bool valid = false; };
static void put(X& x, long m) { In in; if (m < 0) { x.o = new (x.p.mem) Obj(); x.m = 3; } else { x.o = new (x.p.mem) Obj((index_t)m); x.m = (unsigned long)m; } x.valid = false; }
static void drop(X& x) { In in; x.o->~Obj(); memset(x.p.mem, 0xC3, sizeof x.p.mem); }
static void guards(X& x) { for (int i = 0; i < 64; i++) if (x.p.lo[i] != 0x6E || x.p.hi[i] != 0x6E) fail("memory beside the object was overwritten"); }
static bool step(Ctx& c, X& x, int op) {
    if (op < 4) { Set& s = sets()[(size_t)op]; Packed pk(s.d, s.type); In in; x.o->run(pk.p, (index_t)s.d.rows, (index_t)s.d.cols, s.rowwise, (index_t)s.type); x.set = op; x.valid = true; return true; }
    if (op == 7) { In in; x.o->clean(); x.valid = false; return true; } if (op == 9 || op == 10) { drop(x); put(x, op == 9 ? 4 : -1); return true; } if (!x.valid) return false;
    if (op < 7) { x.m = op == 4 ? 2 : op == 5 ? 3 : 5; In in; x.o->reRun((index_t)x.m); }
    else if (op == 8) { { In in; map_t m = cl::createClusterMap(x.o->clusterLabels, 0, x.o->numPoints); DMap D = cl::getMinMaxDistances(*x.o, m); std::vector<label_t> v; cl::sortByLength(m, v); std::vector<label_t> u; cl::sortBySimilarity(D, u, 0); } }
    else { Out out; Set& s = sets()[(size_t)x.set]; void* h = sut_new(x.m); Packed pk(s.d, s.type); sut_run(h, pk.p, s.d.rows, s.d.cols, s.rowwise, s.type); size_t n = x.o->numPoints; std::vector<distance_t> lv(n); std::vector<label_t> last(n); std::vector<double> lv2; std::vector<unsigned long> last2; for (size_t i = 0; i < n; i++) { lv[i] = (distance_t)(i % 5); last[i] = (label_t)(i % 3 == 1 && x.o->clusters->size > 2 ? 2 : 1); lv2.push_back((double)lv[i]); last2.push_back((unsigned long)last[i]); }
        // the same step on a C handle in the same state (the steps that only read the earlier stages)
        if (op == 11) { int a = sut_propagate_again(h), b; { In in; b = x.o->propagateTree(); } if (!!a != !!b) fail("propagateTree returns %d, hdbscan_propagate_tree %d", b, a); same(read(h), read(x.o), "propagateTree"); sut_destroy(h); x.valid = false; return true; }
        c_scores(h, lv2.data(), last2.data(), 0); { In in; x.o->calculateOutlierScores(lv.data(), last.data(), 0); } Res a = read(h), b = read(x.o); for (size_t i = 0; i < n; i++) if (a.sc[i].id != b.sc[i].id || !feq(a.sc[i].s, b.sc[i].s)) fail("calculateOutlierScores gives another score at position %zu than the C function", i); sut_destroy(h); x.valid = false; return true; }
    return true;
}
static void check(Ctx& c, X& x, size_t s) { guards(x); if (!x.valid) return; same(fresh((size_t)x.set, x.m), read(x.o), fmt("step %zu", s)); c.state(ex::mix((uint64_t)x.set, x.m)); }
static std::vector<int> digits(uint64_t i, unsigned b, unsigned n) { std::vector<int> w; while (n--) { w.push_back((int)(i % b)); i /= b; } return w; }
int main(int argc, char** argv) {
    return ex::main_(argc, argv, [](bool th) {
        std::vector<Family> v;
        { Family f; f.name = "layout of the shared structures"; static const layout_row cpp[] = {
#define S(t) {"size of " #t, sizeof(cl_##t)},
#define O(t, f) {"offset of " #t "::" #f, offsetof(cl_##t, f)},
            #define cl_hdbscan cl::hdbscan
            #define cl_distance cl::distance
            #define cl_UndirectedGraph cl::UndirectedGraph
            #define cl_cluster cl::cluster
            #define cl_outlier_score cl::outlier_score
            #define cl_constraint cl::constraint
            #define cl_distance_values cl::distance_values
            #define cl_stats_values cl::stats_values
            #define cl_clustering_stats cl::clustering_stats
            #define cl_hierarchy_entry cl::hierarchy_entry
            #define cl_ArrayList ArrayList
            #define cl_hashtable hashtable
            #define cl_boolean boolean
            #define cl_label_t label_t
            #define cl_index_t index_t
            #define cl_distance_t distance_t
            LAYOUT_ROWS {nullptr, 0} }; uint64_t n = 0; while (cpp[n].name) n++; f.count = n; f.run = [](Ctx& c, uint64_t i) { if (cpp[i].v != c_layout[i].v) fail("%s is %lu in C++ and %lu in C", cpp[i].name, cpp[i].v, c_layout[i].v); c.trans(); c.trace(); c.state(i); }; f.desc = [](uint64_t i) { return cpp[i].name; }; v.push_back(f); }
        auto add = [&](Fam f, bool print, int t0 = -1) { v.push_back(fam(f, [=](Ctx& c, const Data& d, unsigned long m, const Fam&) { bool whole = true; for (double x : d.x) if (x != std::floor(x)) whole = false; static const int T[4] = {H_DOUBLE_, H_INT_, H_LONG_, H_SHORT_}; one(c, d, m, t0 >= 0 ? t0 : whole ? T[(uint64_t)(d.x.back() + m) % 4] : H_DOUBLE_, print); })); };
        for (unsigned n = 1; n <= 4; n++) add(grid(n, 1, n == 4 ? 4 : 5, n + 2), true); add(grid(5, 1, 3, 6), false); add(grid(3, 2, 3, 4), true); add(grid(4, 2, th ? 3 : 2, 4), false); add(gaps(8, {0, 1, 4}, 2, 3), false); add(gaps(9, {1, 8}, 2, 4, 2), true); add(gaps(8, {1, 3, 10}, 2, 2), true);
        std::vector<std::vector<double>> pats = {line(1, 1), line(5, 1), ds::dup(3), line(18, 0.5), ds::dup(20), {0, 1, 2, 40, 41, 42}}; add(blocks(3, pats, {7, 60}, {2, 3, 4}, 2), true); add(sizes(th ? std::vector<unsigned>{127, 128, 255, 256, 257, 300, 513, 1030} : std::vector<unsigned>{128, 256, 257, 513}), false); if (th) { add(grid(5, 1, 4, 6), true); add(grid(6, 1, 4, 4), false); add(gaps(12, {1, 6}, 2, 5, 2), true); add(blocks(4, pats, {7, 60}, {2, 4}, 1), false); add(blocks(2, {line(130, 1), ds::dup(140), line(260, 0.25)}, {500}, {2, 17, 300}, 1), true); }
        for (long m0 : {-1L, 2L}) { unsigned depth = th ? 5 : 4; Family f; f.name = fmt("one object, constructed %s, all words of %u operations", m0 < 0 ? "by default" : "with minPts 2", depth); f.count = ipow(NO, depth);
            f.run = [=](Ctx& c, uint64_t i) { for (size_t s = 0; s < 4; s++) for (unsigned long m : {2UL, 3UL, 4UL, 5UL}) fresh(s, m); track_reset(); X x; memset(&x.p, 0x6E, sizeof x.p); put(x, m0); auto w = digits(i, NO, depth); for (size_t s = 0; s < w.size(); s++) { if (!step(c, x, w[s])) continue; c.trans(); check(c, x, s); } drop(x); guards(x); if (live()) fail("%zu allocations (%zu bytes) not released", live(), live_bytes()); c.trace(); };
            f.desc = [=](uint64_t i) { std::string s = m0 < 0 ? "construct()" : "construct(2)"; for (int o : digits(i, NO, depth)) s += std::string(", ") + OP[o]; return s + ", destroy"; }; v.push_back(f); }
        { unsigned depth = th ? 4 : 3; Family f; f.name = fmt("two objects, all interleaved words of %u operations after one run each", depth); unsigned pr = th ? 16 : 3; f.count = ipow(2 * NO, depth) * pr; auto W = [=](uint64_t i) { auto w = digits(i / pr, 2 * NO, depth); uint64_t q = pr == 16 ? i % 16 : i % 3 == 0 ? 4 : i % 3 == 1 ? 13 : 14; w.insert(w.begin(), {(int)(q % 4), (int)NO + (int)(q / 4 % 4)}); return w; };
            f.run = [=](Ctx& c, uint64_t i) { for (size_t s = 0; s < 4; s++) for (unsigned long m : {2UL, 3UL, 4UL, 5UL}) fresh(s, m); track_reset(); X x[2]; for (auto& q : x) memset(&q.p, 0x6E, sizeof q.p); put(x[0], -1); put(x[1], 2); auto w = W(i); for (size_t s = 0; s < w.size(); s++) { if (!step(c, x[w[s] / (int)NO], w[s] % (int)NO)) continue; c.trans(); check(c, x[0], s); check(c, x[1], s); } drop(x[0]); check(c, x[1], 99); drop(x[1]); if (live()) fail("%zu allocations not released", live()); c.trace(); };
            f.desc = [=](uint64_t i) { std::string s = "a(), b(2)"; for (int o : W(i)) s += fmt(", %s %s", o / (int)NO ? "b" : "a", OP[o % (int)NO]); return s; }; v.push_back(f); }
        { Family f; f.name = "quickSort: every key sequence of 1..6 keys over 4 values, every range"; f.count = 0; for (unsigned n = 1; n <= 6; n++) f.count += ipow(4, n); auto mk = [](uint64_t i) { unsigned n = 1; while (i >= ipow(4, n)) i -= ipow(4, n), n++; std::vector<distance_t> k; while (n--) { k.push_back((distance_t)(i % 4)); i /= 4; } return k; };
            f.run = [=](Ctx& c, uint64_t i) { auto k0 = mk(i); size_t n = k0.size(); for (size_t l = 0; l < n; l++) for (size_t r = l; r < n; r++) { std::vector<distance_t> k = k0; std::vector<label_t> b; for (size_t q = 0; q < n; q++) b.push_back((label_t)(10 + q * 3)); auto k2 = k; auto b2 = b; std::vector<double> dk(k.begin(), k.end()), dl(b.begin(), b.end()); track_reset(); { In in; cl::quickSort(b, k, (index_t)l, (index_t)r); } if (live()) fail("%zu allocations not released", live()); sut_quicksort(dl.data(), dk.data(), n, (int)l, (int)r);
                for (size_t q = 0; q < n; q++) if ((double)b[q] != dl[q] || (double)k[q] != dk[q]) fail("quickSort(%zu,%zu): position %zu holds %ld, the C function puts %.0f there", l, r, q, (long)b[q], dl[q]); c.trans(); } { std::vector<label_t> b; std::vector<distance_t> k; cl::quickSort(b, k, 0, 0); } c.trace(); c.state(ex::hbytes(k0.data(), k0.size() * sizeof(distance_t))); };
            f.desc = [=](uint64_t i) { std::string s = "keys"; for (auto x : mk(i)) s += fmt(" %g", (double)x); return s; }; v.push_back(f); }
        // maps made by hand
        { std::vector<size_t> Z = {1, 2, 90, 127, 128, 255, 256, 257, 300, 512, 1000}; if (sut_sizeof(1) > 2) Z.push_back(32768), Z.push_back(65535), Z.push_back(65536), Z.push_back(65541); size_t nz = Z.size(); static const double L[3][3] = {{1, 2, 3}, {0, 70000, 2147483647.0}, {9, 256, 65536}}; Family f; f.name = "sortByLength, printClusterSizes: 3 clusters of sizes from the limits of narrow integers, all triples"; f.count = nz * nz * nz * 3;
          f.run = [=](Ctx& c, uint64_t i) { const double* lab = L[i % 3]; uint64_t q = i / 3; map_t m; std::map<label_t, double> len; std::vector<label_t> all; std::vector<std::vector<double>> e; size_t a[3] = {Z[q % nz], Z[q / nz % nz], Z[q / nz / nz]}; for (int k = 0; k < 3; k++) { label_t l = (label_t)(sizeof(label_t) == 2 ? k * 7 + 1 : lab[k]); std::vector<index_t> v(a[k]); for (size_t z = 0; z < a[k]; z++) v[z] = (index_t)z; m[l].assign(v.begin(), v.end()); len[l] = (double)a[k]; all.push_back(l); e.push_back({(double)l, (double)a[k]}); }
            std::vector<std::vector<label_t>> req = {{}, all, {all[2], all[0], all[1]}, {all[1]}, {all[2], all[1]}}; for (auto& r : req) { std::vector<label_t> v = r; track_reset(); { In in; cl::sortByLength(m, v); } in_order(len, r.empty() ? all : r, v, "sortByLength"); c.trans(); } unique_numbers(capture([&] { In in; cl::printClusterSizes(m); }), e, "printClusterSizes", true); c.trace(); c.state(i); };
          f.desc = [=](uint64_t i) { uint64_t q = i / 3; return fmt("clusters of %zu, %zu and %zu points, labels %lu", Z[q % nz], Z[q / nz % nz], Z[q / nz / nz], i % 3); }; v.push_back(f); }
        { std::vector<double> A = {0, 1, 3, 255, 256, 32767}; if (sut_sizeof(0) > 2) A.push_back(65536), A.push_back(2147483647.0); size_t na = A.size(); unsigned n = th ? 6 : 5; Family f; f.name = fmt("createClusterMap: every word of %u labels over %zu values, every range", n, na); f.count = ipow(na, n); auto W = [=](uint64_t i) { std::vector<double> w; for (unsigned k = 0; k < n; k++) { w.push_back(A[i % na]); i /= na; } return w; };
          f.run = [=](Ctx& c, uint64_t i) { auto w = W(i); std::vector<label_t> lab(w.begin(), w.end()); for (size_t b = 0; b <= n; b++) for (size_t e = b; e <= n; e++) { map_t m = cl::createClusterMap(lab.data(), (index_t)b, (index_t)e); std::map<label_t, std::vector<double>> x; for (size_t k = b; k < e; k++) x[lab[k]].push_back((double)k); bool ok = m.size() == x.size(); for (auto& kv : m) { auto it = x.find(kv.first); ok = ok && it != x.end() && std::vector<double>(kv.second.begin(), kv.second.end()) == it->second; } if (!ok) fail("range %zu..%zu: the C++ cluster map is not the partition of the labels", b, e); c.trans(); } c.trace(); c.state(i); };
          f.desc = [=](uint64_t i) { std::string s = "labels"; for (double x : W(i)) s += fmt(" %.0f", x); return s; }; v.push_back(f); }
        { static const unsigned NS[] = {1, 2, 3, 4, 5, 8, 100, 254, 255, 256, 257, 300, 1000}; static const double LB[] = {1, 1000003, 255}; Family f; f.name = "distance maps of 1..1000 clusters made by hand: sorting and statistics"; f.count = 13 * 3 * 4;
          f.run = [=](Ctx& c, uint64_t i) { unsigned k = NS[i % 13], pat = (unsigned)(i / 13 % 4); double step = LB[i / 52]; if (sizeof(label_t) == 2) step = 1; DMap D; std::vector<double> rows; std::map<label_t, double> sim[2]; std::vector<label_t> all; for (unsigned q = 0; q < k; q++) { cl::distance_values e; double z = pat == 0 ? q : pat == 1 ? (q * 7 + 3) % k : pat == 2 ? k - q : (q * q) % 17; double r[7] = {std::fmod(q * step, 2147483647.0), 1 + z, 3 + 2 * z, (double)((q * 5 + 1) % k), 2 + z * z, 9 + z * z * 1.5, (double)(k - q) / 3}; rows.insert(rows.end(), r, r + 7); e.min_cr = (distance_t)r[1]; e.max_cr = (distance_t)r[2]; e.cr_confidence = (distance_t)r[3]; e.min_dr = (distance_t)r[4]; e.max_dr = (distance_t)r[5]; e.dr_confidence = (distance_t)r[6]; label_t l = (label_t)r[0]; D[l] = e; sim[0][l] = e.cr_confidence; sim[1][l] = e.dr_confidence; } for (auto& kv : D) all.push_back(kv.first); if (D.size() != k) return;
            for (int kind = 0; kind < 2; kind++) for (int how = 0; how < 3; how++) { std::vector<label_t> r = how == 0 ? std::vector<label_t>() : how == 1 ? all : std::vector<label_t>(all.rbegin(), all.rend()), w = r; { In in; cl::sortBySimilarity(D, w, kind); } in_order(sim[kind], r.empty() ? all : r, w, "sortBySimilarity"); c.trans(); }
            void* dm = sut_distance_map_make(rows.data(), k); double st[13]; sut_stats(dm, 0x41, st); sut_distance_map_destroy(dm); cl::clustering_stats s; memset((void*)&s, 0x5A, sizeof s); cl::calculateStats(D, s); double g[13] = {(double)s.count, s.coreDistanceValues.mean, s.coreDistanceValues.standardDev, s.coreDistanceValues.variance, s.coreDistanceValues.max, s.coreDistanceValues.kurtosis, s.coreDistanceValues.skewness, s.intraDistanceValues.mean, s.intraDistanceValues.standardDev, s.intraDistanceValues.variance, s.intraDistanceValues.max, s.intraDistanceValues.kurtosis, s.intraDistanceValues.skewness};
            bool flat[2] = {!(st[2] > 1e-6 * std::fabs(st[1])), !(st[8] > 1e-6 * std::fabs(st[7]))}; double tol = sizeof(distance_t) == 4 ? 1e-3 : 1e-9; for (int q = 0; q < 13; q++) { if (q && flat[q > 6] && ((q - 1) % 6 == 1 || (q - 1) % 6 == 2 || (q - 1) % 6 >= 4)) continue; if (!(feq(g[q], st[q]) || std::fabs(g[q] - st[q]) <= tol * std::max(1e-3, std::fabs(st[q])) * (q && (q - 1) % 6 >= 4 ? 1e3 : 1))) fail("statistic %d is %.17g in C++, %.17g in C", q, g[q], st[q]); } c.trans(); c.trace(); c.state(i); };
          f.desc = [=](uint64_t i) { return fmt("%u clusters, pattern %lu, label step %.0f", NS[i % 13], i / 13 % 4, LB[i / 52]); }; v.push_back(f); }
        { Family f; f.name = "constructors of distances and graphs, every element type, every number of neighbours"; f.count = 6 * 3; f.run = [](Ctx& c, uint64_t i) { int t = (int)(i / 3), kind = (int)(i % 3); if (kind < 2) t = H_DOUBLE_; Data d; d.rows = 7; d.cols = 2; for (int k = 0; k < 14; k++) d.x.push_back(k * k % 11); Packed pk(d, t); track_reset(); {
                In in; cl::Distance* o = kind == 0 ? new cl::Distance() : kind == 1 ? new cl::Distance(_EUCLIDEAN) : new cl::Distance(_EUCLIDEAN, (enum HTYPES)t); void* q = c_distance(0, t); c_distance_compute(o, pk.p, 7, 2, 1); c_distance_compute(q, pk.p, 7, 2, 1);
                for (unsigned long k = 1; k < 7; k++) { o->getCoreDistances((index_t)k); for (unsigned long a = 0; a < 7; a++) { double e; { std::vector<double> y; for (unsigned long b = 0; b < 7; b++) y.push_back(c_distance_get(q, a, b)); std::sort(y.begin(), y.end()); e = y[k]; } if (c_core(o, a) != e) fail("getCoreDistances(%lu): point %lu has %g, expected %g", k, a, c_core(o, a), e); for (unsigned long b = 0; b < 7; b++) if (c_distance_get(o, a, b) != c_distance_get(q, a, b)) fail("another distance"); } }
                delete o; cl::distance_destroy((cl::distance*)q); { cl::UndirectedGraph g; if (!c_graph_ok(&g)) fail("a default graph is not empty"); } { cl::UndirectedGraph* g = new cl::UndirectedGraph; delete g; } }
            if (live()) fail("%zu allocations not released", live()); c.trans(6); c.trace(); c.state(i); }; f.desc = [](uint64_t i) { return fmt("element type %lu, constructor %lu", i / 3, i % 3); }; v.push_back(f); }
        return v; });
}
