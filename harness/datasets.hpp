// Enumerated input spaces. Every family is a finite set addressed by an index.
#pragma once
#include "sut.hpp"
namespace ds {
using sut::Data;
struct Fam {
    std::string name; uint64_t count; std::function<Data(uint64_t)> get;
    std::function<unsigned long(uint64_t)> minPts;      // each case has its own minPts
    bool exact = false;                                 // all level reciprocals and sums exact in double
};
inline uint64_t ipow(uint64_t b, unsigned e) { uint64_t r = 1; while (e--) r *= b; return r; }

// all sequences of n points over the grid {0..v-1}^dim, minPts in [2, mmax]
inline Fam grid(unsigned n, unsigned dim, unsigned v, unsigned mmax, double scale = 1, const char* tag = "") {
    Fam f; uint64_t c = ipow(ipow(v, dim), n); unsigned nm = mmax - 1;
    f.name = ex::fmt("grid%s n=%u dim=%u v=%u minPts=2..%u", tag, n, dim, v, mmax); f.count = c * nm;
    f.get = [=](uint64_t i) { i /= nm; Data d; d.rows = n; d.cols = dim; for (unsigned k = 0; k < n * dim; k++) { d.x.push_back(scale * (double)(i % v)); i /= v; } return d; };
    f.minPts = [=](uint64_t i) { return 2 + i % nm; };
    return f;
}
// n points on a line with all sequences of n-1 gaps from the alphabet, in three point orders
inline Fam gaps(unsigned n, std::vector<double> g, unsigned m0, unsigned m1, unsigned norders = 1, const char* tag = "") {
    Fam f; unsigned nm = m1 - m0 + 1; uint64_t c = ipow(g.size(), n - 1);
    std::string gs; for (double q : g) gs += ex::fmt(" %g", q);
    f.name = ex::fmt("gaps%s n=%u g={%s } minPts=%u..%u orders=%u", tag, n, gs.c_str(), m0, m1, norders); f.count = c * nm * norders;
    f.get = [=](uint64_t i) {
        i /= nm; unsigned o = (unsigned)(i % norders); i /= norders;
        std::vector<double> p; double x = 0; p.push_back(x); for (unsigned k = 1; k < n; k++) { x += g[i % g.size()]; i /= g.size(); p.push_back(x); }
        Data d; d.rows = n; d.cols = 1; d.x.resize(n);
        for (unsigned k = 0; k < n; k++) { unsigned pos = o == 0 ? k : o == 1 ? (k * 7 + 3) % n : n - 1 - k; if (o == 1 && n % 7 == 0) pos = (k * 5 + 3) % n; d.x[pos] = p[k]; }
        return d; };
    f.minPts = [=](uint64_t i) { return m0 + i % nm; };
    return f;
}
// all assignments of a weight from the alphabet to each pair of n points, realised exactly
inline Fam matrix(unsigned n, unsigned v, unsigned mmax, const char* tag = "") {
    Fam f; unsigned np = n * (n - 1) / 2, nm = mmax - 1; f.count = ipow(v, np) * nm;
    f.name = ex::fmt("matrix%s n=%u weights=%u minPts=2..%u", tag, n, v, mmax);
    f.get = [=](uint64_t i) {
        i /= nm; Data d; d.rows = n; d.cols = np + 4 * n; d.x.assign(n * d.cols, 0);
        // Pair axis (a,b): points a and b get +t and -t, t = weight of the pair; four private integer axes
        // per point (Lagrange) bring |x_a|^2 to a common C. Then dist^2(a,b) = 2C + 2t^2 exactly.
        std::vector<double> t(np); for (unsigned k = 0; k < np; k++) { t[k] = (double)(i % v); i /= v; }
        std::vector<int> S(n, 0); unsigned q = 0;
        for (unsigned a = 0; a < n; a++) for (unsigned b = a + 1; b < n; b++, q++) { d.x[a * d.cols + q] = t[q]; d.x[b * d.cols + q] = -t[q]; S[a] += (int)(t[q] * t[q]); S[b] += (int)(t[q] * t[q]); }
        int C = (int)((n - 1) * (v - 1) * (v - 1));
        for (unsigned a = 0; a < n; a++) {
            int r = C - S[a], o[4] = {0, 0, 0, 0}; bool ok = false;
            for (o[0] = 0; !ok && o[0] * o[0] <= r; o[0]++) for (o[1] = 0; !ok && o[0] * o[0] + o[1] * o[1] <= r; o[1]++)
                for (o[2] = 0; !ok && o[0] * o[0] + o[1] * o[1] + o[2] * o[2] <= r; o[2]++) {
                    int rest = r - o[0] * o[0] - o[1] * o[1] - o[2] * o[2], e = (int)std::lround(std::sqrt((double)rest));
                    if (e * e == rest) { ok = true; int w[4] = {o[0], o[1], o[2], e}; for (int z = 0; z < 4; z++) d.x[a * d.cols + np + 4 * a + (unsigned)z] = w[z]; } }
        }
        return d; };
    f.minPts = [=](uint64_t i) { return 2 + i % nm; };
    return f;
}
// a pair, a gap of 4, then n-2 points with all gap sequences over the alphabet: stabilities that tie exactly
inline Fam tied(unsigned n, std::vector<double> g, unsigned m0, unsigned m1, unsigned orders) {
    Fam f = gaps(n - 2, g, m0, m1, 1); f.count *= orders; f.name = ex::fmt("tied pair + gap 4 + gaps over %zu values, n=%u minPts=%u..%u orders=%u", g.size(), n, m0, m1, orders); auto get = f.get; auto mp = f.minPts;
    f.get = [=](uint64_t i) { unsigned o = (unsigned)(i % orders); Data d = get(i / orders), e; e.x = {0, 2}; for (double x : d.x) e.x.push_back(6 + x); e.rows = n; e.cols = 1; if (o == 1) std::reverse(e.x.begin(), e.x.end()); if (o == 2) { std::vector<double> y; for (size_t s = 0; s < 3; s++) for (size_t k = s; k < n; k += 3) y.push_back(e.x[k]); e.x = y; } return e; };
    f.minPts = [=](uint64_t i) { return mp(i / orders); }; f.exact = true; return f;
}
// block composition: k blocks on a line; each block is one of the patterns, separated by gaps
inline Data place(const std::vector<std::vector<double>>& blocks, const std::vector<double>& gp, unsigned order) {
    Data d; d.cols = 1; double x = 0; std::vector<double> p;
    for (size_t b = 0; b < blocks.size(); b++) { if (b) x += gp[b - 1]; double last = x; for (double o : blocks[b]) { p.push_back(x + o); last = std::max(last, x + o); } x = last; }
    size_t n = p.size(); d.rows = n; d.x.resize(n);
    if (order == 0) d.x = p; else if (order == 1) for (size_t i = 0; i < n; i++) d.x[i] = p[n - 1 - i];
    else { // riffle
        size_t k = 0; for (size_t s = 0; s < 3; s++) for (size_t i = s; i < n; i += 3) d.x[k++] = p[i]; }
    return d;
}
inline std::vector<double> line(unsigned n, double step) { std::vector<double> v; for (unsigned i = 0; i < n; i++) v.push_back(step * i); return v; }
inline std::vector<double> dup(unsigned n) { return std::vector<double>(n, 0.0); }
inline Fam blocks(unsigned k, std::vector<std::vector<double>> pats, std::vector<double> gp, std::vector<unsigned long> mp, unsigned orders, const char* tag = "") {
    Fam f; uint64_t nm = mp.size(); f.count = ipow(pats.size(), k) * ipow(gp.size(), k - 1) * orders * nm;
    f.name = ex::fmt("blocks%s k=%u patterns=%zu gaps=%zu orders=%u minPts=%zu values", tag, k, pats.size(), gp.size(), orders, mp.size());
    f.get = [=](uint64_t i) {
        i /= nm; unsigned o = (unsigned)(i % orders); i /= orders;
        std::vector<std::vector<double>> b; for (unsigned q = 0; q < k; q++) { b.push_back(pats[i % pats.size()]); i /= pats.size(); }
        std::vector<double> g; for (unsigned q = 0; q + 1 < k; q++) { g.push_back(gp[i % gp.size()]); i /= gp.size(); }
        return place(b, g, o); };
    f.minPts = [=](uint64_t i) { return mp[i % nm]; };
    return f;
}
// sizes around the limits of narrow integers and powers of two, six shapes (the last splits a pair off at every level) in two orders, minPts up to beyond the number of points
inline Fam sizes(std::vector<unsigned> ns, const char* tag = "") {
    const unsigned NS = 6, NM = 7; Fam f; f.count = ns.size() * NS * 2 * NM; std::string t; for (unsigned n : ns) t += ex::fmt(" %u", n);
    f.name = ex::fmt("sizes%s n={%s } 6 shapes, 2 orders, minPts=2,3,20,n/2,n-1,n,n+1", tag, t.c_str());
    f.minPts = [=](uint64_t i) { unsigned long n = ns[i / NM / 2 / NS]; unsigned long m[NM] = {2, 3, 20, n / 2, n - 1, n, n + 1}; return m[i % NM]; };
    f.get = [=](uint64_t i) { i /= NM; bool rev = i % 2; i /= 2; unsigned sh = i % NS, n = ns[i / NS]; Data d; d.rows = n; d.cols = sh == 4 ? 2 : 1;
        for (unsigned q = 0; q < n; q++) { unsigned k = rev ? n - 1 - q : q; if (sh == 0) d.x.push_back((double)k * (k + 1) / 2); else if (sh == 1) d.x.push_back((k / 2) * 10 + (k % 2) * (1 + k / 1024.0)); else if (sh == 2) d.x.push_back(7); else if (sh == 5) d.x.push_back((double)(k / 2) * (k / 2 + 1) * 2 + (k % 2) * (1 + (k % 5) / 8.0));
            else if (sh == 3) d.x.push_back(k < n - 22 ? k * 0.25 : 100 * n + (k % 11) * 3 + (k % 2) * 500); else { d.x.push_back(k * 37 % 101); d.x.push_back(k * 53 % 97 + (k % 3) * 200); } }
        return d; };
    return f;
}
// the standard pipeline spaces
inline std::vector<Fam> pipeline(bool th) {
    std::vector<Fam> v;
    for (unsigned n = 1; n <= 4; n++) v.push_back(grid(n, 1, 4, n + 2));
    v.push_back(grid(5, 1, 4, 6)); v.push_back(grid(6, 1, th ? 5 : 4, 6)); if (th) v.push_back(grid(7, 1, 4, 6)), v.push_back(grid(8, 1, 3, 7));
    v.push_back(grid(3, 2, 3, 4)); v.push_back(grid(4, 2, 3, 4)); if (th) v.push_back(grid(5, 2, 3, 4)), v.push_back(grid(4, 2, 4, 4)), v.push_back(grid(4, 3, 2, 4)), v.push_back(grid(6, 2, 2, 5));
    v.push_back(grid(5, 2, 2, 4));
    v.push_back(matrix(4, 4, 4)); v.push_back(matrix(5, th ? 4 : 2, 4)); if (th) v.push_back(matrix(5, 3, 4)), v.push_back(matrix(6, 2, 5));
    { Fam f = gaps(8, {1, 2, 4}, 2, 3, 2, "(dyadic)"); f.exact = true; v.push_back(f); }
    v.push_back(tied(10, {1, 2}, 2, 3, 3)); if (th) v.push_back(tied(12, {0.5, 1, 2}, 2, 3, 1)), v.push_back(tied(14, {1, 2}, 2, 4, 2));
    v.push_back(gaps(7, {0, 1, 3, 9}, 2, 4, 2));
    v.push_back(gaps(9, {1, 8}, 2, 4, 3)); v.push_back(gaps(10, {0, 1, 5}, 2, 2)); v.push_back(gaps(12, {1, 6}, 2, 5, 2));
    if (th) { v.push_back(gaps(9, {0, 1, 2, 5}, 2, 4, 2)); v.push_back(gaps(10, {1, 2, 5}, 2, 4, 3)); v.push_back(gaps(14, {1, 6}, 2, 5, 2)); v.push_back(gaps(11, {0, 1, 7}, 2, 4)); 
        Fam f = gaps(10, {1, 2, 4, 8}, 2, 2, 1, "(dyadic)"); f.exact = true; v.push_back(f); }
    std::vector<std::vector<double>> pats = {line(1, 1), line(2, 1), line(5, 1), dup(3), line(18, 0.5), dup(20), {0, 1, 2, 40, 41, 42}};
    v.push_back(blocks(3, pats, {7, 60}, {2, 3, 5}, 3));
    v.push_back(blocks(4, {line(2, 1), line(4, 2), dup(4), {0, 1, 3, 7, 15}}, {3, 20}, {2, 4}, 2, "(deep)"));
    v.push_back(blocks(2, {line(33, 1), dup(35), line(66, 0.25), {0, 1, 10, 11, 20, 21, 30, 31}}, {5, 500}, {2, 4, 17, 33}, 3, "(large)"));
    if (th) v.push_back(blocks(5, {line(2, 1), line(3, 2), dup(3), {0, 1, 3, 7, 15}}, {3, 20, 100}, {2, 3}, 2, "(deeper)")),
            v.push_back(blocks(4, pats, {7, 60, 300}, {2, 4}, 2, "(wide)")),
            v.push_back(blocks(2, {line(130, 1), dup(140), line(260, 0.25), dup(17), {0, 1, 10, 11, 20, 21, 30, 31}}, {5, 500}, {2, 4, 17, 33, 100}, 3, "(huge)"));
    v.push_back(th ? sizes({126, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 530, 1000, 1001, 1023, 1024, 1025, 1030}) : sizes({128, 255, 256, 257, 300, 513, 1030}));
    return v;
}
inline std::string desc(const Fam& f, uint64_t i) { return ex::fmt("minPts=%lu ", f.minPts(i)) + f.get(i).str(); }
inline ex::Family fam(const Fam& f, std::function<void(ex::Ctx&, const Data&, unsigned long, const Fam&)> check) {
    ex::Family e; e.name = f.name; e.count = f.count;
    e.run = [=](ex::Ctx& c, uint64_t i) { check(c, f.get(i), f.minPts(i), f); };
    e.desc = [=](uint64_t i) { return desc(f, i); };
    return e;
}
} // namespace ds
