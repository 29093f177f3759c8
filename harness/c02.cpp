#include "datasets.hpp"
#include "model.hpp"
// Core pipeline checks; STAGE selects the property.
using namespace ds;
#ifndef STAGE
#define STAGE 2
#endif
// two results that must agree in everything but the hierarchy rows and, when off is given, the offsets of the clusters
static void same(const char* what, const sut::Res& a, const sut::Res& b, const std::map<long, long>* off) {
    auto ne = [](double x, double y) { return memcmp(&x, &y, sizeof x) != 0 && !(std::isnan(x) && std::isnan(y)); };
    if (a.n != b.n || a.minPts != b.minPts) ex::fail("%s: %zu points, minPts %zu instead of %zu, %zu", what, b.n, b.minPts, a.n, a.minPts);
    for (size_t i = 0; i < a.dist.size(); i++) if (ne(a.dist[i], b.dist[i])) ex::fail("%s: distance of points %zu and %zu is %.17g instead of %.17g", what, i / a.n, i % a.n, b.dist[i], a.dist[i]);
    for (size_t i = 0; i < a.n; i++) if (ne(a.core[i], b.core[i])) ex::fail("%s: core distance of point %zu is %.17g instead of %.17g", what, i, b.core[i], a.core[i]);
    if (a.mst.size() != b.mst.size()) ex::fail("%s: %zu edges instead of %zu", what, b.mst.size(), a.mst.size());
    for (size_t i = 0; i < a.mst.size(); i++) if (a.mst[i].a != b.mst[i].a || a.mst[i].b != b.mst[i].b || ne(a.mst[i].w, b.mst[i].w)) ex::fail("%s: edge %zu is %ld-%ld %.17g instead of %ld-%ld %.17g", what, i, b.mst[i].a, b.mst[i].b, b.mst[i].w, a.mst[i].a, a.mst[i].b, a.mst[i].w);
    for (size_t i = 0; i < a.n; i++) if (a.lab[i] != b.lab[i]) ex::fail("%s: point %zu is labelled %ld instead of %ld", what, i, b.lab[i], a.lab[i]);
    for (size_t i = 0; i < a.n; i++) if (a.sc[i].id != b.sc[i].id || ne(a.sc[i].s, b.sc[i].s) || ne(a.sc[i].c, b.sc[i].c)) ex::fail("%s: outlier score %zu is (point %ld, %.17g, %.17g) instead of (point %ld, %.17g, %.17g)", what, i, b.sc[i].id, b.sc[i].s, b.sc[i].c, a.sc[i].id, a.sc[i].s, a.sc[i].c);
    if (a.clu.size() != b.clu.size()) ex::fail("%s: %zu clusters instead of %zu", what, b.clu.size(), a.clu.size());
    for (size_t i = 0; i < a.clu.size(); i++) {
        const sut::Clu &x = a.clu[i], &y = b.clu[i]; long o = x.offset; if (off) { auto it = off->find(o); o = it == off->end() ? o : it->second; }
        if (x.label != y.label || ne(x.birth, y.birth) || ne(x.death, y.death) || x.num != y.num || ne(x.stab, y.stab) || ne(x.pstab, y.pstab) || ne(x.plow, y.plow) || x.ncons != y.ncons || x.pncons != y.pncons || x.parent != y.parent || x.kids != y.kids || x.desc != y.desc || x.virt != y.virt) ex::fail("%s: cluster %ld differs", what, x.label);
        if (y.offset != o) ex::fail("%s: cluster %ld has offset %ld instead of %ld", what, x.label, y.offset, o);
    }
}
static std::map<long, const sut::Level*> rows(const char* what, const sut::Res& r) {
    std::map<long, const sut::Level*> m; for (auto& l : r.hier) if (!m.emplace(l.key, &l).second) ex::fail("%s: two levels with key %ld", what, l.key);
    for (long k = 0; k < (long)r.hier.size(); k++) if (!m.count(k)) ex::fail("%s: %zu levels but none with key %ld", what, r.hier.size(), k); return m;
}
static void stages(ex::Ctx& c, const Data& d, unsigned long m) {
    sut::Packed pk(d, sut::H_DOUBLE_); sut::track_reset(); sut::Res full, cur; std::map<long, const sut::Level*> fr; std::set<long> keep; std::map<long, long> pos; std::string w;
    auto expect = [&](const char* what, bool compact) {
        same(what, full, cur, compact ? &pos : nullptr); auto cr = rows(what, cur); size_t want = compact ? keep.size() + 1 : fr.size(); if (cr.size() != want) ex::fail("%s: %zu levels instead of %zu", what, cr.size(), want);
        for (auto& q : fr) { if (compact && q.first && !keep.count(q.first)) continue; long k = compact && q.first ? pos[q.first] : q.first; const sut::Level *x = q.second, *y = cr[k]; if (memcmp(&x->w, &y->w, 8)) ex::fail("%s: level %ld has weight %.17g instead of %.17g", what, k, y->w, x->w); if (x->lab != y->lab) ex::fail("%s: level %ld has other labels than level %ld of the full hierarchy", what, k, q.first); }
        c.trace(); c.trans(cr.size()); };
    { sut::In in; void* h = sut_new(m); if (sut_run(h, pk.p, d.rows, d.cols, 1, sut::H_DOUBLE_)) ex::fail("run failed");
      full = sut::read(h);
      { sut::Out o; fr = rows("run", full); std::set<long> born; for (auto& k : full.clu) if (k.parent >= 0) born.insert(k.offset);
        // the births by the rows themselves: a label seen in row L+1 for the first time was born at level L
        std::set<long> seen, born2; for (auto& q : fr) { if (!q.first) continue; for (long l : q.second->lab) if (l && seen.insert(l).second && q.first > 1) born2.insert(q.first - 1); }
        if (born != born2) ex::fail("the offsets of the clusters are not the levels before the rows that show them first");
        for (auto& q : fr) if (q.first && (q.first == 1 || born.count(q.first) || born.count(q.first - 1))) keep.insert(q.first);
        long k = 0; for (long l : keep) pos[l] = ++k; c.state(ex::hbytes(full.raw.data(), full.raw.size() * 8)); for (auto& q : fr) c.state(ex::hbytes(q.second->lab.data(), q.second->lab.size() * sizeof(long), keep.count(q.first))); }
      static const struct { const char* what; int compact; } SEQ_[] = {{"steps by hand", 0}, {"steps by hand, compact", 1}, {"steps by hand, compact again", 1}, {"steps by hand, full again", 0}};
      for (auto& s : SEQ_) { if (sut_stages(h, s.compact)) ex::fail("%s: error", s.what); cur = sut::read(h); sut::Out o; expect(s.what, s.compact); }
      if (sut_stages(h, 1)) ex::fail("error"); if (sut_rerun(h, m)) ex::fail("rerun failed"); cur = sut::read(h); { sut::Out o; expect("rerun after compact steps", false); }
      sut_destroy(h);
      for (int cp = 0; cp < 2; cp++) { int rc = 0; h = sut_staged(m, pk.p, d.rows, d.cols, sut::H_DOUBLE_, cp, &rc); if (rc) ex::fail("error"); cur = sut::read(h); { sut::Out o; expect(cp ? "steps on a handle set up by hand, compact" : "steps on a handle set up by hand", cp); } sut_destroy(h); }
      { sut::Out o; std::vector<double>().swap(full.raw); } }
    (void)w;
}
static void check(ex::Ctx& c, const Data& d, unsigned long m, const Fam& f) {
    const double dmax = sut_dmax();
    if (STAGE == 32) { stages(c, d, m); return; }
    sut::Res r = sut::run_once(d, m);
    if (r.n != d.rows || r.minPts != m) ex::fail("handle reports %zu points and minPts %zu", r.n, r.minPts);
    if (STAGE == 2) { model::check_core(r, dmax); c.trace(); c.trans(r.n * r.n); for (size_t i = 0; i < r.n; i++) c.state(ex::hbytes(&r.dist[i * r.n], r.n * 8, m)); return; }
    if (STAGE == 3) { model::check_mst(r, dmax); c.trace(); c.trans(r.mst.size()); uint64_t h = m; for (auto& e : r.mst) { h = ex::mix(ex::mix(h, (uint64_t)e.a), (uint64_t)e.b); h = ex::hbytes(&e.w, 8, h); c.state(h); } return; }
    model::Tree t = model::build(r.n, m, r.dist, r.core, dmax);
    model::count(c, t);
    model::Ren ren = model::check_hierarchy(r, t);
    if (STAGE == 5) model::check_tree(r, t, ren, 1e-9);
    if (STAGE == 6) model::check_flat(r, t, ren, f.exact, 1e-9);
    if (STAGE == 7) model::check_scores(r, t, 1e-12);
}
// the order of the list: score, then core distance, then point number
static ex::Family score_order() {
    static const double S[] = {0, 1e-300, 0.25, 0.5, 0.75, 1}, C[] = {0, 1e-160, 1, 3, 1e300}, I[] = {0, 1, 2, 255, 256, 32767, 65536, 2147483646.0}; const uint64_t N = 6 * 5 * 8;
    ex::Family f; f.name = "order of outlier scores: all pairs over 6 scores x 5 core distances x 8 point numbers"; f.count = N * N;
    auto mk = [](uint64_t i, double v[3]) { v[0] = S[i % 6]; v[1] = C[i / 6 % 5]; v[2] = I[i / 30]; if (sut_sizeof(1) == 2 && v[2] > 32767) v[2] = 32766 - (double)(i / 30); };
    f.run = [=](ex::Ctx& c, uint64_t i) { double a[3], b[3]; mk(i % N, a); mk(i / N, b); int e = 0; for (int k = 0; k < 3 && !e; k++) e = a[k] < b[k] ? -1 : a[k] > b[k]; int g = sut_score_compare(a, b); g = g < 0 ? -1 : g > 0; if (g != e) ex::fail("the order reports %d instead of %d", g, e); c.trace(); c.trans(); c.state(i); };
    f.desc = [=](uint64_t i) { double a[3], b[3]; mk(i % N, a); mk(i / N, b); return ex::fmt("(score %g, core distance %g, point %.0f) against (score %g, core distance %g, point %.0f)", a[0], a[1], a[2], b[0], b[1], b[2]); }; return f;
}
int main(int argc, char** argv) {
    return ex::main_(argc, argv, [](bool th) {
        sut_set_threads(1);
        std::vector<ex::Family> v; for (auto& f : pipeline(th)) v.push_back(fam(f, check)); if (STAGE == 7) v.push_back(score_order()); if (STAGE <= 3) { v.push_back(fam(sizes({2050}), check)); if (th) v.push_back(fam(sizes({2047, 2048, 2049, 4100}), check)); } return v; });
}
