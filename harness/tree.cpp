// C18 graphs, C19 cluster objects.
#include "datasets.hpp"
#include "tree.h"
using namespace ds; using namespace sut; using ex::Ctx; using ex::Family; using ex::fail; using ex::fmt;
#ifndef PROP
#define PROP 18
#endif
typedef unsigned long ul;
// ------------------------------------------------------------------ C18
struct G { ul n; std::vector<ul> a, b; std::vector<double> w; };
static std::string gstr(const G& g) { std::string s = fmt("%lu vertices:", g.n); for (size_t i = 0; i < g.a.size() && i < 30; i++) s += fmt(" %lu-%lu(%g)", g.a[i], g.b[i], g.w[i]); return s; }
typedef std::vector<std::multiset<ul>> Adj;
static Adj adj_of(const G& g) { Adj A(g.n); for (size_t i = 0; i < g.a.size(); i++) { A[g.a[i]].insert(g.b[i]); if (g.a[i] != g.b[i]) A[g.b[i]].insert(g.a[i]); } return A; }
static void check_adj(void* h, const Adj& A, const char* when) {
    for (size_t v = 0; v < A.size(); v++) { std::vector<ul> o(A[v].size() + 8); size_t k = tg_adj(h, v, o.data(), o.size()); if (k != A[v].size()) fail("%s: vertex %zu has %zu neighbours, expected %zu", when, v, k, A[v].size()); o.resize(k); std::multiset<ul> m(o.begin(), o.end()); if (m != A[v]) fail("%s: vertex %zu has the wrong neighbours", when, v); }
}
typedef std::tuple<ul, ul, double> Ed;
static std::vector<Ed> edges(void* h, size_t m, const char* when) { std::vector<ul> a(m + 8), b(m + 8); std::vector<double> w(m + 8); size_t k = tg_edges(h, a.data(), b.data(), w.data()); if (k != m) fail("%s: %zd edges, expected %zu", when, (ssize_t)k, m); std::vector<Ed> e; for (size_t i = 0; i < m; i++) e.push_back({a[i], b[i], w[i]}); return e; }
static std::vector<Ed> sorted(std::vector<Ed> e) { std::sort(e.begin(), e.end()); return e; }
static void sort_check(void* h, const std::vector<Ed>& before, long s, long e, const char* how) {
    auto now = edges(h, before.size(), how); if (sorted(now) != sorted(before)) fail("%s alters, loses or duplicates edges", how);
    for (long i = s + 1; i <= e; i++) if (!(std::get<2>(now[(size_t)i - 1]) <= std::get<2>(now[(size_t)i]))) fail("%s: position %ld weighs %g after %g", how, i, std::get<2>(now[(size_t)i]), std::get<2>(now[(size_t)i - 1]));
    for (long i = 0; i < (long)before.size(); i++) if ((i < s || i > e) && now[(size_t)i] != before[(size_t)i]) fail("%s: position %ld outside the range changed", how, i);
}
static bool multiself(const G& g) { std::set<ul> s; for (size_t i = 0; i < g.a.size(); i++) if (g.a[i] == g.b[i] && !s.insert(g.a[i]).second) return true; return false; }
static void graph(Ctx& c, const G& g, int removal, bool inmem) {
    size_t m = g.a.size(); track_reset(); char* mem = inmem ? (char*)malloc(tg_size()) : nullptr; if (mem) memset(mem, 0xA5, tg_size()); void* h;
    { In in; h = tg_make(mem, g.n, m, g.a.data(), g.b.data(), g.w.data()); } if (!h) fail("no graph");
    Adj A = adj_of(g); check_adj(h, A, "after building"); auto e0 = edges(h, m, "after building"); for (size_t i = 0; i < m; i++) if (e0[i] != Ed{g.a[i], g.b[i], g.w[i]}) fail("building changed edge %zu", i);
    { In in; tg_sort(h); } sort_check(h, e0, 0, (long)m - 1, "sorting"); check_adj(h, A, "after sorting"); { In in; tg_sort(h); } sort_check(h, e0, 0, (long)m - 1, "sorting again");
    if (removal && !multiself(g)) { std::vector<size_t> o; for (size_t i = 0; i < m; i++) o.push_back(i); if (removal == 2) std::reverse(o.begin(), o.end()); if (removal == 3 && m) std::rotate(o.begin(), o.begin() + (long)(m / 2), o.end());
        for (size_t i : o) { ul x = g.a[i], y = g.b[i]; if (removal == 2) std::swap(x, y); { In in; tg_remove(h, x, y); } A[x].erase(A[x].find(y)); if (x != y) A[y].erase(A[y].find(x)); check_adj(h, A, fmt("after removing %lu-%lu", x, y).c_str()); c.trans(); }
        if (sorted(edges(h, m, "after removals")) != sorted(e0)) fail("removal altered the edge arrays"); }
    { In in; if (inmem) tg_clean(h); else tg_destroy(h); } if (live()) fail("%zu allocations (%zu bytes) not released", live(), live_bytes()); free(mem);
    c.trans(3); c.trace(); uint64_t s = ex::hbytes(g.a.data(), m * 8); s = ex::hbytes(g.b.data(), m * 8, s); c.state(ex::hbytes(g.w.data(), m * 8, s));
}
static void range_sorts(Ctx& c, const G& g) {
    size_t m = g.a.size(); for (long s = 0; s < (long)m; s++) for (long e = s; e < (long)m; e++) { track_reset(); void* h; { In in; h = tg_make(nullptr, g.n, m, g.a.data(), g.b.data(), g.w.data()); } auto e0 = edges(h, m, "build"); { In in; tg_sort_range(h, s, e); } sort_check(h, e0, s, e, fmt("sorting [%ld,%ld]", s, e).c_str()); check_adj(h, adj_of(g), "after a range sort"); { In in; tg_destroy(h); } if (live()) fail("%zu allocations not released", live()); c.trans(); }
    c.trace();
}
static void c18(std::vector<Family>& v, bool th) {
    auto multi = [&](ul n, unsigned m, unsigned nw) { uint64_t A = n * n * nw; Family f; f.name = fmt("all graphs of %lu vertices, %u edges (self and parallel edges too), %u weights, 3 removal orders", n, m, nw); f.count = ipow(A, m) * 3;
        auto mk = [=](uint64_t i) { i /= 3; G g; g.n = n; for (unsigned k = 0; k < m; k++) { uint64_t x = i % A; i /= A; g.a.push_back(x % n); g.b.push_back(x / n % n); g.w.push_back((double)(x / n / n) + 0.5); } return g; };
        f.run = [=](Ctx& c, uint64_t i) { graph(c, mk(i), (int)(i % 3) + 1, i % 2); }; f.desc = [=](uint64_t i) { return gstr(mk(i)); }; v.push_back(f); };
    multi(1, 0, 1); multi(3, 0, 1); multi(1, 1, 2); multi(2, 1, 2); multi(2, 2, 2); multi(2, 3, 2); multi(2, 4, 2); multi(3, 1, 2); multi(3, 2, 2); multi(3, 3, 2); multi(4, 2, 2); multi(4, 3, 1); multi(3, 4, 1); multi(2, 5, 1); if (th) multi(3, 4, 2), multi(2, 5, 2), multi(4, 3, 2), multi(4, 4, 1), multi(2, 6, 1), multi(3, 5, 1);
    auto wts = [&](unsigned m, std::vector<double> A, bool ranges) { Family f; f.name = fmt("all weight sequences of %u edges over %zu values%s", m, A.size(), ranges ? ", every range" : ""); f.count = ipow(A.size(), m); auto mk = [=](uint64_t i) { G g; g.n = 5; for (unsigned k = 0; k < m; k++) { g.a.push_back(k % 5); g.b.push_back(k * 3 % 5); g.w.push_back(A[i % A.size()]); i /= A.size(); } return g; };
        f.run = [=](Ctx& c, uint64_t i) { if (ranges) range_sorts(c, mk(i)); else graph(c, mk(i), 0, false); }; f.desc = [=](uint64_t i) { return gstr(mk(i)); }; v.push_back(f); };
    wts(4, {0, 1, 2}, true); wts(5, {0, 1, 2}, true); wts(6, {0, 1, 2, 3}, false); wts(7, {0, 1, 2}, false); wts(8, {0, 1, 2}, false); wts(5, {0, -1, 1e308, 1.7976931348623157e308, INFINITY}, false); wts(11, {0, 1}, false); if (th) wts(7, {0, 1, 2, 3, 4}, false), wts(10, {0, 1, 2}, false), wts(16, {0, 1}, false), wts(6, {0, 1, 2}, true);
    { unsigned n = th ? 9 : 7; uint64_t q = 1; for (unsigned k = 2; k <= n; k++) q *= k; Family f; f.name = fmt("all orders of %u distinct weights", n); f.count = q; auto mk = [=](uint64_t i) { G g; g.n = n + 1; std::vector<double> pool; for (unsigned a = 0; a < n; a++) pool.push_back(a + 0.5); for (unsigned a = n; a; a--) { g.w.push_back(pool[i % a]); pool.erase(pool.begin() + (long)(i % a)); i /= a; g.a.push_back(n - a); g.b.push_back(n - a + 1); } return g; };
      f.run = [=](Ctx& c, uint64_t i) { graph(c, mk(i), (int)(i % 4), false); }; f.desc = [=](uint64_t i) { return gstr(mk(i)); }; v.push_back(f); }
    { unsigned N = th ? 1200 : 250; Family f; f.name = fmt("1..%u edges, 9 weight patterns x 3 shapes", N); f.count = N * 27; auto mk = [=](uint64_t i) { size_t m = i / 27 + 1; unsigned p = i % 9, sh = (unsigned)(i / 9 % 3); G g; g.n = std::max<size_t>(m + 1, 5); for (size_t k = 0; k < m; k++) { double x = (double)k; g.w.push_back(p == 0 ? x : p == 1 ? (double)(m - k) : p == 2 ? 5 : p == 3 ? (double)(k % 2) : p == 4 ? (double)((k * 7919 + 13) % m) : p == 5 ? std::fabs(x - (double)m / 2) : p == 6 ? -std::fabs(x - (double)m / 2) : p == 7 ? (double)(k * k % 17) : (double)(k < m / 2 ? k : k - m / 2));
            g.a.push_back(sh == 0 ? 0 : sh == 1 ? k : k % 5); g.b.push_back(sh == 0 ? k + 1 : sh == 1 ? k + 1 : (k % 7 == 0 && k < 35 ? k % 5 : (k * 3 + 1) % 5)); } return g; };
      f.run = [=](Ctx& c, uint64_t i) { graph(c, mk(i), i / 27 < 120 ? (int)(i % 4) : 0, i % 2); }; f.desc = [=](uint64_t i) { return gstr(mk(i)); }; v.push_back(f); }
    // numbers of edges at the limits of narrow integers
    { static const ul M[] = {127, 128, 255, 256, 257, 511, 513, 1000, 1025, 2049, 32767, 32768, 65535, 65536, 65537, 70000}; Family f; f.name = "127..70000 edges, 9 weight patterns x 3 shapes (above 3000 edges: scattered weights)"; f.count = 16 * 27;
      f.run = [=](Ctx& c, uint64_t i) { ul m = M[i / 27]; unsigned p = i % 9, sh = (unsigned)(i / 9 % 3); if (m > 3000 && p != 4) return; G g; g.n = m + 2; for (ul k = 0; k < m; k++) { double x = (double)k; g.w.push_back(p == 0 ? x : p == 1 ? (double)(m - k) : p == 2 ? 5 : p == 3 ? (double)(k % 2) : p == 4 ? (double)(ex::mix(k, 77) % m) + (double)(k % 3) / 4 : p == 5 ? std::fabs(x - (double)m / 2) : p == 6 ? -std::fabs(x - (double)m / 2) : p == 7 ? (double)(k * k % 17) : (double)(k < m / 2 ? k : k - m / 2)); g.a.push_back(sh == 0 ? 0 : sh == 1 ? k : (k * 5 + 2) % (m + 2)); g.b.push_back(sh == 0 ? k + 1 : sh == 1 ? k + 1 : (k * 3 + 1) % (m + 2)); }
        track_reset(); void* h; { In in; h = tg_make(nullptr, g.n, m, g.a.data(), g.b.data(), g.w.data()); } if (!h) fail("no graph"); Adj A = adj_of(g); check_adj(h, A, "after building"); auto e0 = edges(h, m, "after building"); for (size_t k = 0; k < m; k++) if (e0[k] != Ed{g.a[k], g.b[k], g.w[k]}) fail("building changed edge %zu", k);
        { In in; tg_sort(h); } sort_check(h, e0, 0, (long)m - 1, "sorting"); check_adj(h, A, "after sorting");
        if (!multiself(g)) for (size_t k : {(size_t)0, (size_t)m - 1, (size_t)m / 2, (size_t)255 % m, (size_t)256 % m, (size_t)65536 % m}) { ul x = g.a[k], y = g.b[k]; if (!A[x].count(y)) continue; { In in; tg_remove(h, x, y); } A[x].erase(A[x].find(y)); if (x != y) A[y].erase(A[y].find(x)); check_adj(h, A, fmt("after removing %lu-%lu", x, y).c_str()); c.trans(); }
        { In in; tg_destroy(h); } if (live()) fail("%zu allocations (%zu bytes) not released", live(), live_bytes()); c.trans(3); c.trace(); c.state(i); };
      f.desc = [=](uint64_t i) { return fmt("%lu edges, weight pattern %lu, shape %lu", M[i / 27], i % 9, i / 9 % 3); }; v.push_back(f); }
}
// ------------------------------------------------------------------ C19
struct N { int parent, n, cons, vcons; };
struct T { std::vector<N> v; int variant; };
static std::string tstr(const T& t) { std::string s = fmt("variant %d:", t.variant); for (size_t i = 0; i < t.v.size(); i++) s += fmt(" %zu(parent %d, %d points, %d+%d constraints)", i + 1, t.v[i].parent + 1, t.v[i].n, t.v[i].cons, t.v[i].vcons); return s; }
static bool feq(double a, double b) { return a == b || std::fabs(a - b) <= 1e-12 * std::max(std::fabs(a), std::fabs(b)); }
static void tree(Ctx& c, const T& t) {
    size_t k = t.v.size(); std::vector<int> depth(k, 0), sib(k, 0), nk(k, 0); std::vector<double> birth(k), death(k), stab(k), ps(k, 0), low(k); std::vector<double> pc(k, 0); std::vector<std::multiset<ul>> desc(k);
    for (size_t i = 0; i < k; i++) { int p = t.v[i].parent; if (p >= 0) { depth[i] = depth[(size_t)p] + 1; sib[i] = nk[(size_t)p]++; }
        double inv = t.variant == 0 ? std::ldexp(1, depth[i]) : t.variant == 1 ? std::ldexp(1, 4 * depth[i] + (3 - sib[i] % 4)) : std::ldexp(1, 4 * depth[i] + sib[i] % 4); death[i] = 1 / inv; birth[i] = p >= 0 ? death[(size_t)p] : 4; stab[i] = t.v[i].n * (1 / death[i] - 1 / birth[i]); }
    // the reference: children (larger index) before parents
    for (size_t i = 0; i < k; i++) { pc[i] = t.v[i].vcons; low[i] = death[i]; }
    for (size_t i = k; i-- > 0;) { int p = t.v[i].parent; if (p < 0) continue; size_t q = (size_t)p; low[q] = std::min(low[q], low[i]); bool self = nk[i] == 0 || t.v[i].cons > pc[i] || (t.v[i].cons == pc[i] && stab[i] >= ps[i]);
        if (self) { pc[q] += t.v[i].cons; ps[q] += stab[i]; desc[q].insert(i + 1); } else { pc[q] += pc[i]; ps[q] += ps[i]; desc[q].insert(desc[i].begin(), desc[i].end()); } }
    track_reset(); std::vector<void*> h(k);
    { In in; for (size_t i = 0; i < k; i++) { h[i] = tc_make(nullptr, i + 1, t.v[i].parent >= 0 ? h[(size_t)t.v[i].parent] : nullptr, birth[i], (ul)t.v[i].n); if (!h[i]) fail("no cluster"); }
      for (size_t i = 0; i < k; i++) { tc_cons(h[i], (ul)t.v[i].cons); if (t.v[i].vcons) { tc_vcons(h[i], 1); if (t.v[i].vcons > 1) tc_vcons(h[i], (ul)t.v[i].vcons - 1); } int half = t.v[i].n / 2; if (half) { ul p[2] = {i, i + 7}; tc_vadd(h[i], p, 2); if (!tc_detach(h[i], (ul)half, death[i])) fail("detach refused"); } if (!tc_detach(h[i], (ul)(t.v[i].n - half), death[i])) fail("detach refused"); if (i % 2) tc_vrelease(h[i]); }
      for (size_t i = k; i-- > 0;) tc_propagate(h[i]); }
    for (size_t i = 0; i < k; i++) { double o[12]; tc_read(h[i], o); auto bad = [&](const char* w, double g, double e) { fail("cluster %zu: %s is %.17g, expected %.17g", i + 1, w, g, e); };
        if (o[0] != (double)(i + 1)) bad("label", o[0], (double)(i + 1)); if (o[1] != birth[i]) bad("birth level", o[1], birth[i]); if (o[2] != death[i]) bad("death level", o[2], death[i]); if (o[3] != 0) bad("number of points", o[3], 0);
        if (!feq(o[4], stab[i])) bad("stability", o[4], stab[i]); if (!feq(o[5], ps[i])) bad("propagated stability", o[5], ps[i]); if (o[6] != low[i]) bad("lowest death level", o[6], low[i]);
        if (o[7] != t.v[i].cons) bad("constraints satisfied", o[7], t.v[i].cons); if (o[8] != pc[i]) bad("propagated constraints", o[8], pc[i]); if (o[9] != (t.v[i].parent >= 0 ? t.v[i].parent + 1 : -1)) bad("parent", o[9], t.v[i].parent + 1); if ((o[10] != 0) != (nk[i] > 0)) bad("has-children", o[10], nk[i] > 0);
        std::vector<ul> d(k + 8); size_t m = tc_desc(h[i], d.data(), d.size()); d.resize(std::min(m, d.size())); if (std::multiset<ul>(d.begin(), d.end()) != desc[i] || m != desc[i].size()) fail("cluster %zu: wrong propagated descendants (%zu, expected %zu)", i + 1, m, desc[i].size());
        if (!(i % 2)) { std::vector<ul> vv(8); size_t nv = tc_virt(h[i], vv.data(), 8); if (nv != (t.v[i].n / 2 ? 2u : 0u) || (nv && (vv[0] != i || vv[1] != i + 7))) fail("cluster %zu: the virtual child changed", i + 1); } c.trans(); }
    { In in; for (size_t i = 0; i < k; i++) tc_destroy(h[i]); } if (live()) fail("%zu allocations not released", live());
    c.trace(); c.state(ex::mix(ex::hbytes(t.v.data(), k * sizeof(N)), (uint64_t)t.variant));
}
static void c19(std::vector<Family>& v, bool th) {
    auto add = [&](unsigned k, std::vector<int> ns, std::vector<int> cs, std::vector<int> vs) { uint64_t trees = 1; for (unsigned i = 2; i < k; i++) trees *= i; uint64_t A = ns.size() * cs.size() * vs.size(); Family f; f.name = fmt("all trees of %u clusters, %zu sizes x %zu constraint counts x %zu virtual-child counts, 3 level layouts", k, ns.size(), cs.size(), vs.size()); f.count = trees * ipow(A, k) * 3;
        auto mk = [=](uint64_t i) { T t; t.variant = (int)(i % 3); i /= 3; for (unsigned q = 0; q < k; q++) { uint64_t x = i % A; i /= A; t.v.push_back({-1, ns[x % ns.size()], cs[x / ns.size() % cs.size()], vs[x / ns.size() / cs.size()]}); } for (unsigned q = 1; q < k; q++) { t.v[q].parent = (int)(i % q); i /= q; } return t; };
        f.run = [=](Ctx& c, uint64_t i) { tree(c, mk(i)); }; f.desc = [=](uint64_t i) { return tstr(mk(i)); }; v.push_back(f); };
    add(1, {1, 2, 3}, {0, 1, 2}, {0, 1}); add(2, {1, 2, 4}, {0, 1, 2}, {0, 1}); add(3, {1, 2, 4}, {0, 1, 2}, {0, 1}); add(4, {1, 2, 4}, {0, 1}, {0}); add(4, {2, 4}, {0, 1, 2}, {0, 1}); add(5, {1, 2}, {0, 1}, {0}); add(6, {1, 2}, {0}, {0}); add(7, {2}, {0, 1}, {0}); 
    if (th) add(5, {1, 2, 4}, {0, 1}, {0}), add(6, {1, 2, 4}, {0}, {0}), add(4, {1, 2, 4}, {0, 1, 2}, {0, 1}), add(7, {1, 2}, {0}, {0});
    // detaching
    { Family f; unsigned D = th ? 6 : 5; f.name = fmt("all sequences of %u detachments (1, 2 or 3 points at 4 levels) from 4..12 points", D); f.count = ipow(12, D) * 3; auto mk = [=](uint64_t i) { std::vector<std::pair<int, double>> s; i /= 3; for (unsigned q = 0; q < D; q++) { s.push_back({(int)(i % 3) + 1, (double)(4 - i / 3 % 4) * 0.75}); i /= 12; } return s; };
      f.run = [=](Ctx& c, uint64_t i) { auto s = mk(i); int n = 4 * (1 + (int)(i % 3)); track_reset(); void* h; char* mem = (char*)malloc(tc_size()); memset(mem, 0x5A, tc_size()); { In in; h = i % 2 ? (free(mem), tc_make(nullptr, 3, nullptr, 8, (ul)n)) : tc_make(mem, 3, nullptr, 8, (ul)n); }
        double o[12]; tc_read(h, o); double z[12] = {3, 8, 0, (double)n, 0, 0, sut_dmax(), 0, 0, -1, 0, 0}; for (int q = 0; q < 12; q++) if (o[q] != z[q]) fail("new cluster: field %d is %g, expected %g", q, o[q], z[q]);
        long double st = 0; for (auto& d : s) { if (d.first > n) break; { In in; if (!tc_detach(h, (ul)d.first, d.second)) fail("detach refused"); } n -= d.first; st += d.first * (1 / (long double)d.second - 1 / 8.0L); tc_read(h, o); if (o[3] != n) fail("%g points left, expected %d", o[3], n); if (!feq(o[4], (double)st)) fail("stability %.17g, expected %.17Lg", o[4], st); if (n == 0 && o[2] != d.second) fail("death level %g, expected %g", o[2], d.second); if (n > 0 && o[2] != 0) fail("death level set while points remain"); c.trans(); if (!n) break; }
        { In in; tc_destroy(h); } if (live()) fail("%zu allocations not released", live()); c.trace(); };
      f.desc = [=](uint64_t i) { std::string s = fmt("%d points:", 4 * (1 + (int)(i % 3))); for (auto& d : mk(i)) s += fmt(" %d at %g", d.first, d.second); return s; }; v.push_back(f); }
    // numbers of points at the limits of narrow integers
    { static const ul NS[] = {254, 255, 256, 257, 300, 32767, 32768, 65535, 65536, 65537, 100000, 16777216, 16777217, 2147483647UL}; static const ul P[] = {1, 2, 100, 255, 256, 257, 32768, 65535, 65536, 70000, 16777217, 1073741824UL}; const unsigned A = 14, B = 12; Family f; f.name = "detaching 1..2^30 points twice and the rest from clusters of 254..2^31-1 points"; f.count = A * B * B;
      f.run = [=](Ctx& c, uint64_t i) { ul n = NS[i / B / B], s[3] = {P[i % B], P[i / B % B], 0}; if (s[0] >= n || s[1] >= n - s[0]) return; s[2] = n - s[0] - s[1]; track_reset(); void* h; { In in; h = tc_make(nullptr, 3, nullptr, 8, n); } double o[12]; long double st = 0; static const double L[3] = {4, 0.75, 0.5};
        tc_read(h, o); if (o[3] != (double)n) fail("a cluster of %lu points reports %.0f", n, o[3]); for (int q = 0; q < 3; q++) { { In in; if (!tc_detach(h, s[q], L[q])) fail("detaching %lu points refused", s[q]); } n -= s[q]; st += s[q] * (1 / (long double)L[q] - 1 / 8.0L); tc_read(h, o); if (o[3] != (double)n) fail("%.0f points left, expected %lu", o[3], n); if (!feq(o[4], (double)st)) fail("stability %.17g, expected %.17Lg", o[4], st); if (o[2] != (n ? 0 : L[q])) fail("death level %g, expected %g", o[2], n ? 0 : L[q]); c.trans(); }
        { In in; tc_destroy(h); } if (live()) fail("%zu allocations not released", live()); c.trace(); c.state(i); };
      f.desc = [=](uint64_t i) { return fmt("%lu points, detach %lu, %lu, the rest", NS[i / B / B], P[i % B], P[i / B % B]); }; v.push_back(f); }
    // many clusters under one parent, large constraint counts and labels
    { static const unsigned K[] = {1, 2, 100, 254, 255, 256, 257, 300, 1000}; static const ul C[] = {0, 1, 255, 256, 65535, 65536, 16777217, 1073741824UL}; Family f; f.name = "1..1000 children of one parent, constraint counts up to 2^30, labels from 1 or from 2^31-2000"; f.count = 9 * 8 * 8 * 2;
      f.run = [=](Ctx& c, uint64_t i) { unsigned k = K[i % 9]; ul base = i / 9 % 2 ? 2147481647UL : 1, a = C[i / 18 % 8], b = C[i / 144]; if (a * k > 2147483647UL) return; track_reset(); void *p, *r, *leaf; std::vector<void*> h; h.reserve(k); { In in; r = tc_make(nullptr, base, nullptr, 8, 4000); p = tc_make(nullptr, base + 1, r, 4, 2000); for (unsigned q = 0; q < k; q++) h.push_back(tc_make(nullptr, base + 2 + q, p, 2, 2)); leaf = tc_make(nullptr, base + 2 + k, r, 4, 3); tc_cons(p, b); for (auto x : h) if (a) tc_cons(x, a); for (auto x : h) tc_detach(x, 2, 1); tc_detach(p, 2000, 2); tc_detach(leaf, 3, 3); for (unsigned q = k; q-- > 0;) tc_propagate(h[q]); tc_propagate(leaf); tc_propagate(p); }
        double o[12], st = 2 * (1 / 1.0 - 1 / 2.0) * k, ps = 2000 * (1 / 2.0 - 1 / 4.0), ls = 3 * (1 / 3.0 - 1 / 4.0); tc_read(p, o); if (o[8] != (double)(a * k)) fail("propagated constraints of the parent %.0f, expected %lu", o[8], a * k); if (!feq(o[5], st) && std::fabs(o[5] - st) > 1e-9 * st) fail("propagated stability %.17g, expected %.17g", o[5], st); if (o[6] != 1) fail("lowest death level %g, expected 1", o[6]); if (tc_desc(p, nullptr, 0) != k) fail("%zu propagated descendants, expected %u", tc_desc(p, nullptr, 0), k);
        bool self = b > a * k || (b == a * k && ps >= st); tc_read(r, o); double e = (self ? ps : st) + ls; if (o[8] != (double)(self ? b : a * k)) fail("propagated constraints of the root %.0f, expected %lu", o[8], self ? b : a * k); if (std::fabs(o[5] - e) > 1e-9 * e) fail("propagated stability of the root %.17g, expected %.17g", o[5], e); std::vector<ul> d(k + 8); size_t m = tc_desc(r, d.data(), d.size()); std::multiset<ul> want, got; if (self) want.insert(base + 1); else for (unsigned q = 0; q < k; q++) want.insert(base + 2 + q); want.insert(base + 2 + k); d.resize(std::min<size_t>(m, d.size())); got.insert(d.begin(), d.end()); if (m != want.size() || got != want) fail("wrong propagated descendants of the root (%zu, expected %zu)", m, want.size());
        { In in; for (auto x : h) tc_destroy(x); tc_destroy(leaf); tc_destroy(p); tc_destroy(r); } if (live()) fail("%zu allocations not released", live()); c.trans(k + 2); c.trace(); c.state(i); };
      f.desc = [=](uint64_t i) { return fmt("%u children, labels from %lu, %lu constraints per child, %lu of the parent", K[i % 9], i / 9 % 2 ? 2147481647UL : 1, C[i / 18 % 8], C[i / 144]); }; v.push_back(f); }
    // virtual child
    { unsigned D = th ? 5 : 4; Family f; f.name = fmt("virtual child: all words of %u additions of subsets of 5 points on two related clusters", D); f.count = ipow(64, D > 3 ? 3 : D) * (th ? 64 : 1); unsigned W = th ? 4 : 3;
      f.run = [=](Ctx& c, uint64_t i) { static const ul P[5] = {0, 3, 70000, 2147483647UL, 9}; track_reset(); void* h[2]; { In in; h[0] = tc_make(nullptr, 1, nullptr, 8, 9); h[1] = tc_make(nullptr, 2, h[0], 2, 4); } std::set<ul> m[2];
        for (unsigned q = 0; q < W; q++) { unsigned x = (unsigned)(i % 64); i /= 64; std::vector<ul> p; for (int b = 0; b < 5; b++) if (x >> b & 1) p.push_back(P[b]); { In in; tc_vadd(h[x >> 5], p.data(), p.size()); } m[x >> 5].insert(p.begin(), p.end());
            for (int e = 0; e < 2; e++) { std::vector<ul> o(16); size_t n = tc_virt(h[e], o.data(), 16); o.resize(std::min<size_t>(n, 16)); if (n != m[e].size() || std::set<ul>(o.begin(), o.end()) != m[e]) fail("cluster %d: the virtual child holds %zu points, expected %zu", e + 1, n, m[e].size()); for (int b = 0; b < 5; b++) if ((tc_vhas(h[e], P[b]) != 0) != (m[e].count(P[b]) > 0)) fail("cluster %d: wrong answer for point %lu", e + 1, P[b]); if (tc_vhas(h[e], 5)) fail("contains a point never added"); } c.trans(); }
        { In in; tc_vrelease(h[0]); tc_vrelease(h[0]); } double o[12]; tc_read(h[0], o); if (o[11] != -1) fail("released virtual child still there"); tc_read(h[1], o); if (o[11] != (double)m[1].size()) fail("releasing one virtual child changed another"); 
        if (tc_compare(h[0], h[1]) >= 0 || tc_compare(h[1], h[0]) <= 0 || tc_compare(h[0], h[0])) fail("clusters do not compare by label");
        { In in; tc_destroy(h[1]); tc_destroy(h[0]); } if (live()) fail("%zu allocations not released", live()); c.trace(); c.state(i); };
      f.desc = [=](uint64_t i) { std::string s = "subset bits (bit 5: second cluster):"; for (unsigned q = 0; q < W; q++) { s += fmt(" %02x", (unsigned)(i % 64)); i /= 64; } return s; }; v.push_back(f); }
}
int main(int argc, char** argv) { return ex::main_(argc, argv, [](bool th) { sut_set_threads(1); std::vector<Family> v; if (PROP == 18) c18(v, th); else c19(v, th); return v; }); }
