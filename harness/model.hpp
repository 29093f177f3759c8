// Reference model of the clustering pipeline: definitions, not algorithms.
// Works from the complete distance matrix; every set is computed by brute force.
#pragma once
#include "sut.hpp"
namespace model {
using sut::Res; using sut::Data;

inline double euclid(const Data& d, size_t a, size_t b) {
    long double s = 0; for (size_t k = 0; k < d.cols; k++) { long double t = (long double)d.x[a * d.cols + k] - (long double)d.x[b * d.cols + k]; s += t * t; }
    return (double)sqrtl(s);
}
inline bool close(double a, double b, double rel = 1e-9) {
    if (a == b) return true;
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return false;
    return std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b)) + 1e-300;
}
inline double core_of(const std::vector<double>& row, size_t minPts, double dmax) {
    if (minPts > row.size()) return dmax;
    std::vector<double> s = row; std::sort(s.begin(), s.end()); return s[minPts - 1];
}

struct C { long id; double birth, death = 0; long parent; std::vector<int> born; double stab = 0; std::vector<int> noise; std::vector<long> kids; long row = 0; bool alive = true; double low = 0; };
struct Tree {
    size_t n, m; std::vector<double> w;            // level weights, descending
    std::vector<std::vector<long>> lab;            // labels at each level (before removal), model ids; root = 1, noise = 0
    std::vector<C> cl;                             // index = model id (0 unused, 1 root)
    std::vector<double> noiseLevel; std::vector<long> last;
    std::vector<double> core; std::vector<double> mrd;
    std::vector<long> flat; std::vector<long> sel;
};

// components of the graph {(i,j): mrd(i,j) < or <= t} inside a vertex set
inline std::vector<std::vector<int>> comps(const std::vector<int>& vs, const std::vector<double>& mrd, size_t n, double t) {
    std::vector<std::vector<int>> out; std::vector<char> seen(n, 1); for (int v : vs) seen[(size_t)v] = 0;
    for (int v : vs) {
        if (seen[(size_t)v]) continue;
        std::vector<int> c{v}; seen[(size_t)v] = 1;
        for (size_t k = 0; k < c.size(); k++) for (int u : vs) if (!seen[(size_t)u] && mrd[(size_t)c[k] * n + (size_t)u] < t) { seen[(size_t)u] = 1; c.push_back(u); }
        std::sort(c.begin(), c.end()); out.push_back(c);
    }
    return out;
}

// a minimum spanning tree of the complete graph (Prim): components below a threshold are those of its edges below it
typedef std::vector<std::vector<std::pair<int, double>>> Adj;
inline Adj prim(const std::vector<double>& mrd, size_t n) {
    Adj a(n); std::vector<double> best(n, INFINITY); std::vector<int> from(n, -1); std::vector<char> in(n, 0);
    for (size_t k = 0, v = 0; k < n; k++) {
        in[v] = 1; if (from[v] >= 0) { a[v].push_back({from[v], best[v]}); a[(size_t)from[v]].push_back({(int)v, best[v]}); }
        size_t nx = n; for (size_t u = 0; u < n; u++) if (!in[u]) { if (mrd[v * n + u] < best[u]) { best[u] = mrd[v * n + u]; from[u] = (int)v; } if (nx == n || best[u] < best[nx]) nx = u; }
        v = nx;
    }
    return a;
}
inline std::vector<std::vector<int>> comps(const std::vector<int>& vs, const Adj& a, double t) {
    std::vector<std::vector<int>> out; std::vector<char> seen(a.size(), 1); for (int v : vs) seen[(size_t)v] = 0;
    for (int v : vs) {
        if (seen[(size_t)v]) continue;
        std::vector<int> c{v}; seen[(size_t)v] = 1;
        for (size_t k = 0; k < c.size(); k++) for (auto& e : a[(size_t)c[k]]) if (e.second < t && !seen[(size_t)e.first]) { seen[(size_t)e.first] = 1; c.push_back(e.first); }
        std::sort(c.begin(), c.end()); out.push_back(c);
    }
    return out;
}

// builds everything up to and including the cluster tree from a distance matrix: by definition, or (larger sets) with the spanning tree above
inline Tree build1(size_t n, size_t m, const std::vector<double>& dist, const std::vector<double>& core, double dmax, bool fast) {
    Tree t; t.n = n; t.m = m; t.core = core; t.mrd.resize(n * n);
    std::set<double, std::greater<double>> ws;
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
        double v = i == j ? core[i] : std::max(dist[i * n + j], std::max(core[i], core[j]));
        if (v > dmax) v = dmax;
        t.mrd[i * n + j] = v; if (!fast) ws.insert(v);
    }
    Adj tree; if (fast) { tree = prim(t.mrd, n); for (double v : core) ws.insert(v > dmax ? dmax : v); for (auto& a : tree) for (auto& e : a) ws.insert(e.second); }
    t.cl.resize(2); C root; root.id = 1; root.birth = NAN; root.parent = -1; for (size_t i = 0; i < n; i++) root.born.push_back((int)i); t.cl[1] = root;
    std::vector<long> lab(n, 1); t.noiseLevel.assign(n, -1); t.last.assign(n, -1);
    std::map<long, std::vector<int>> mem; mem[1] = root.born;
    for (double w : ws) {
        if (mem.empty()) break;
        std::vector<long> before = lab; bool event = false; std::map<long, std::vector<int>> nm;
        for (auto& kv : mem) {
            long id = kv.first; auto cs = fast ? comps(kv.second, tree, w) : comps(kv.second, t.mrd, n, w);
            bool touched = cs.size() > 1; for (int v : kv.second) if (core[(size_t)v] == w) touched = true;
            if (!touched) { nm[id] = kv.second; continue; }
            event = true; std::vector<std::vector<int>> good;
            for (auto& c : cs) {
                if (c.size() >= m) { good.push_back(c); continue; }
                for (int v : c) { lab[(size_t)v] = 0; t.noiseLevel[(size_t)v] = w; t.last[(size_t)v] = id; t.cl[(size_t)id].noise.push_back(v); t.cl[(size_t)id].stab += 1 / w - 1 / t.cl[(size_t)id].birth; }
            }
            if (good.size() == 1) { nm[id] = good[0]; continue; }
            t.cl[(size_t)id].death = w; t.cl[(size_t)id].alive = false;
            for (auto& c : good) {
                C k; k.id = (long)t.cl.size(); k.birth = w; k.parent = id; k.born = c; k.row = (long)t.w.size() + 1;
                t.cl[(size_t)id].stab += (double)c.size() * (1 / w - 1 / t.cl[(size_t)id].birth);
                t.cl[(size_t)id].kids.push_back(k.id); for (int v : c) lab[(size_t)v] = k.id; nm[k.id] = c; t.cl.push_back(k);
            }
        }
        if (event) { t.w.push_back(w); t.lab.push_back(before); }
        mem = nm;
    }
    if (!mem.empty()) ex::fail("model: clusters left at the end");
    for (size_t i = t.cl.size(); i-- > 1;) { C& c = t.cl[i]; c.low = c.death; if (!c.kids.empty()) { c.low = INFINITY; for (long k : c.kids) c.low = std::min(c.low, t.cl[(size_t)k].low); } }
    return t;
}
inline Tree build(size_t n, size_t m, const std::vector<double>& dist, const std::vector<double>& core, double dmax) {
    const size_t both = 24; if (n > both) return build1(n, m, dist, core, dmax, true);
    Tree t = build1(n, m, dist, core, dmax, false), q = build1(n, m, dist, core, dmax, true);
    if (t.w != q.w || t.lab != q.lab || t.noiseLevel != q.noiseLevel || t.last != q.last || t.cl.size() != q.cl.size()) ex::fail("model: the two constructions differ");
    return t;
}

// ---- comparisons, one per property ------------------------------------------------
inline std::vector<double> dist_of(const Res& r) { return r.dist; }

inline void check_core(const Res& r, double dmax) {
    for (size_t i = 0; i < r.n; i++) {
        std::vector<double> row(r.dist.begin() + (long)(i * r.n), r.dist.begin() + (long)((i + 1) * r.n));
        double e = core_of(row, r.minPts, dmax);
        if (r.core[i] != e) ex::fail("core distance of point %zu is %.17g, the %zu-th smallest distance is %.17g", i, r.core[i], r.minPts, e);
    }
}
inline void check_mst(const Res& r, double dmax) {
    size_t n = r.n; auto mrd = [&](size_t i, size_t j) { double v = std::max(r.d(i, j), std::max(r.core[i], r.core[j])); return v > dmax ? dmax : v; };
    if (r.mst.size() != 2 * n - 1) ex::fail("%zu edges for %zu points", r.mst.size(), n);
    std::vector<int> self(n, 0); std::vector<size_t> uf(n); for (size_t i = 0; i < n; i++) uf[i] = i;
    std::function<size_t(size_t)> fnd = [&](size_t x) { while (uf[x] != x) x = uf[x] = uf[uf[x]]; return x; };
    std::vector<double> tw; double prev = -INFINITY; 
    for (auto& e : r.mst) {
        if (e.a < 0 || e.b < 0 || (size_t)e.a >= n || (size_t)e.b >= n) ex::fail("edge (%ld,%ld) out of range", e.a, e.b);
        if (!(e.w >= prev)) ex::fail("edges not sorted: %.17g after %.17g", e.w, prev);
        prev = e.w;
        if (e.a == e.b) {
            // the tree part never needs a self edge: it must be the one self edge of this point
            self[(size_t)e.a]++;
            if (e.w != r.core[(size_t)e.a]) ex::fail("self edge of %ld weighs %.17g, core distance is %.17g", e.a, e.w, r.core[(size_t)e.a]);
        } else {
            double m = mrd((size_t)e.a, (size_t)e.b);
            if (e.w != m) ex::fail("edge (%ld,%ld) weighs %.17g, mutual reachability is %.17g", e.a, e.b, e.w, m);
            size_t x = fnd((size_t)e.a), y = fnd((size_t)e.b); if (x == y) ex::fail("edge (%ld,%ld) closes a cycle", e.a, e.b);
            uf[x] = y; tw.push_back(e.w);
        }
    }
    if (tw.size() != n - 1) ex::fail("%zu tree edges for %zu points", tw.size(), n);
    for (size_t i = 0; i < n; i++) if (self[i] != 1) ex::fail("point %zu has %d self edges", i, self[i]);
    // a spanning tree is minimum iff its sorted weight sequence equals Kruskal's
    struct K { double w; size_t a, b; }; std::vector<K> all; for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) all.push_back({mrd(i, j), i, j});
    std::sort(all.begin(), all.end(), [](const K& x, const K& y) { return x.w < y.w; });
    for (size_t i = 0; i < n; i++) uf[i] = i;
    std::vector<double> kw; for (auto& k : all) { size_t x = fnd(k.a), y = fnd(k.b); if (x != y) { uf[x] = y; kw.push_back(k.w); } }
    std::sort(tw.begin(), tw.end());
    for (size_t i = 0; i < kw.size(); i++) if (kw[i] != tw[i]) ex::fail("not minimum: %zu-th tree weight is %.17g, a minimum spanning tree has %.17g", i, tw[i], kw[i]);
}

// consistent renaming between the implementation's labels and the model's ids
struct Ren { std::map<long, long> f, g; 
    void tie(long impl, long mod, const char* where) {
        if ((impl == 0) != (mod == 0) || (impl == 1) != (mod == 1)) ex::fail("%s: label %ld where cluster %ld is expected", where, impl, mod);
        auto a = f.insert({impl, mod}); auto b = g.insert({mod, impl});
        if (a.first->second != mod || b.first->second != impl) ex::fail("%s: label %ld stands for two different clusters", where, impl);
    }
    long m(long impl) const { auto i = f.find(impl); if (i == f.end()) ex::fail("label %ld never appears in the hierarchy", impl); return i->second; }
};
inline Ren check_hierarchy(const Res& r, const Tree& t) {
    Ren ren; ren.tie(0, 0, ""); ren.tie(1, 1, "");
    std::map<long, const sut::Level*> by; for (auto& l : r.hier) if (!by.insert({l.key, &l}).second) ex::fail("level %ld appears twice", l.key);
    if (by.size() != t.w.size() + 1) ex::fail("%zu levels, expected %zu", by.size(), t.w.size() + 1);
    if (!by.count(0)) ex::fail("no closing level");
    for (long x : by[0]->lab) if (x != 0) ex::fail("closing level labels a point %ld", x);
    if (by[0]->w != 0) ex::fail("closing level has weight %.17g", by[0]->w);
    for (size_t k = 0; k < t.w.size(); k++) {
        if (!by.count((long)k + 1)) ex::fail("level %zu missing", k + 1);
        const sut::Level& l = *by[(long)k + 1];
        if (l.w != t.w[k]) ex::fail("level %zu has weight %.17g, expected %.17g", k + 1, l.w, t.w[k]);
        for (size_t i = 0; i < t.n; i++) ren.tie(l.lab[i], t.lab[k][i], ex::fmt("level %zu point %zu", k + 1, i).c_str());
    }
    return ren;
}
inline void check_tree(const Res& r, const Tree& t, const Ren& ren, double rel) {
    if (r.clu.size() + 1 != t.cl.size()) ex::fail("%zu clusters, expected %zu", r.clu.size(), t.cl.size() - 1);
    for (auto& c : r.clu) {
        long id = ren.m(c.label); const C& e = t.cl[(size_t)id];
        long par = c.parent == -1 ? -1 : ren.m(c.parent);
        if (par != e.parent) ex::fail("cluster %ld: parent %ld, expected cluster %ld", c.label, par, e.parent);
        if (id != 1 ? c.birth != e.birth : !std::isnan(c.birth)) ex::fail("cluster %ld: birth level %.17g, expected %.17g", c.label, c.birth, e.birth);
        if (c.death != e.death) ex::fail("cluster %ld: death level %.17g, expected %.17g", c.label, c.death, e.death);
        if (c.num != 0) ex::fail("cluster %ld: %ld points left at the end", c.label, c.num);
        if (c.kids != !e.kids.empty()) ex::fail("cluster %ld: hasChildren %d", c.label, c.kids);
        if (c.offset != (id == 1 ? 0 : e.row)) ex::fail("cluster %ld: first row after %ld, expected %ld", c.label, c.offset, id == 1 ? 0L : (long)e.row);
        std::vector<long> nz(e.noise.begin(), e.noise.end()), vv = c.virt; std::sort(nz.begin(), nz.end());
        std::sort(vv.begin(), vv.end());
        if (nz != vv) ex::fail("cluster %ld: wrong set of points lost to noise (%zu, expected %zu)", c.label, vv.size(), nz.size());
        if (id != 1 && !close(c.stab, e.stab, rel)) ex::fail("cluster %ld: stability %.17g, expected %.17g", c.label, c.stab, e.stab);
    }
}
// selection from the stabilities the implementation computed (validated against the model separately)
inline void check_flat(const Res& r, Tree& t, const Ren& ren, bool exact, double rel) {
    size_t k = t.cl.size(); std::vector<double> st(k), best(k); std::vector<const sut::Clu*> ic(k, nullptr);
    for (auto& c : r.clu) { size_t id = (size_t)ren.m(c.label); ic[id] = &c; st[id] = c.stab; }
    // children have larger ids than parents
    std::vector<char> pick(k, 0);           // 1 = cluster itself, 0 = its descendants' selection
    for (size_t i = k; i-- > 2;) {
        const C& c = t.cl[i]; double sum = 0; for (long q : c.kids) sum += best[(size_t)q];
        bool self;
        if (c.kids.empty()) self = true;
        else if (!exact && close(st[i], sum, rel)) { // rounding decides: follow the implementation if it is one of the two
            self = st[i] >= ic[i]->pstab;
        } else self = st[i] >= sum;
        pick[i] = self; best[i] = self ? st[i] : sum;
    }
    std::vector<long> sel; std::vector<long> stack(t.cl[1].kids.begin(), t.cl[1].kids.end());
    while (!stack.empty()) { long c = stack.back(); stack.pop_back(); if (pick[(size_t)c]) sel.push_back(c); else for (long q : t.cl[(size_t)c].kids) stack.push_back(q); }
    // brute-force optimality of the total for small trees
    if (k >= 4 && k <= 12) {
        bool inf = false; for (size_t i = 2; i < k; i++) if (std::isinf(st[i])) inf = true;
        if (!inf) {
            double tot = 0; for (long c : sel) tot += st[(size_t)c]; size_t m = k - 2;
            for (uint64_t mask = 0; mask < (1ull << m); mask++) {
                bool ok = true; double s = 0;
                for (size_t a = 0; ok && a < m; a++) if (mask >> a & 1) { s += st[a + 2]; for (long p = t.cl[a + 2].parent; p > 1; p = t.cl[(size_t)p].parent) if (mask >> (p - 2) & 1) ok = false; }
                if (ok && s > tot && !close(s, tot, 1e-6)) ex::fail("a selection of total stability %.17g exists, the model selected %.17g", s, tot);
            }
        }
    }
    t.sel = sel; t.flat.assign(t.n, 0);
    for (long c : sel) for (int v : t.cl[(size_t)c].born) t.flat[(size_t)v] = c;
    for (size_t i = 0; i < t.n; i++) {
        long e = t.flat[i], g = r.lab[i] == 0 ? 0 : ren.m(r.lab[i]);
        if (e != g) ex::fail("point %zu labelled %ld (cluster %ld), expected cluster %ld", i, r.lab[i], g, e);
    }
}
inline void check_scores(const Res& r, const Tree& t, double rel) {
    std::vector<int> seen(t.n, 0);
    if (r.sc.size() != t.n) ex::fail("%zu scores", r.sc.size());
    for (size_t k = 0; k < t.n; k++) {
        auto& s = r.sc[k]; if (s.id < 0 || (size_t)s.id >= t.n || seen[(size_t)s.id]++) ex::fail("score of point %ld missing or repeated", s.id);
        size_t i = (size_t)s.id; double e = t.noiseLevel[i] == 0 ? 0 : 1 - t.cl[(size_t)t.last[i]].low / t.noiseLevel[i];
        if (!(s.s >= 0 && s.s <= 1)) ex::fail("score of point %zu is %.17g", i, s.s);
        if (!(close(s.s, e, rel) || std::fabs(s.s - e) <= rel)) ex::fail("score of point %zu is %.17g, expected %.17g", i, s.s, e);
        if (s.c != r.core[i]) ex::fail("score of point %zu carries core distance %.17g instead of %.17g", i, s.c, r.core[i]);
        if (k) { auto& p = r.sc[k - 1]; bool ok = p.s < s.s || (p.s == s.s && (p.c < s.c || (p.c == s.c && p.id < s.id))); if (!ok) ex::fail("scores not in order at position %zu", k); }
    }
}
inline bool has_inf(const Tree& t) { for (size_t i = 2; i < t.cl.size(); i++) if (std::isinf(t.cl[i].stab)) return true; return false; }
inline void count(ex::Ctx& c, const Tree& t) {
    c.trace(); c.trans(t.w.size());
    for (size_t k = 0; k < t.w.size(); k++) { uint64_t h = ex::hbytes(&t.m, sizeof t.m); h = ex::mix(h, (uint64_t)k); h = ex::hbytes(t.lab[k].data(), t.lab[k].size() * sizeof(long), h); for (size_t q = 0; q <= k; q++) h = ex::hbytes(&t.w[q], 8, h); c.state(h); }
}
} // namespace model
