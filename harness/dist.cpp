// C01: stored pairwise distances against an independent long-double computation,
// for all data sets of small shapes over boundary values of each element type.
#include "sut.hpp"
using ex::Ctx; using ex::Family; using ex::fail; using ex::fmt;
using namespace sut;
static const char* TN[] = {"int", "double", "float", "long", "short", "char"};
typedef long double LD;
union El { int i; double d; float f; long l; short s; char c; };
static std::vector<El> alphabet(int t, unsigned a) {
    std::vector<El> v; auto add = [&](LD x) { El e; memset(&e, 0, sizeof e); switch (t) { case H_INT_: e.i = (int)x; break; case H_DOUBLE_: e.d = (double)x; break; case H_FLOAT_: e.f = (float)x; break; case H_LONG_: e.l = (long)x; break; case H_SHORT_: e.s = (short)x; break; default: e.c = (char)x; } v.push_back(e); };
    std::vector<LD> q;
    switch (t) {
        case H_INT_: q = {0, 1, INT_MIN, INT_MAX, -3, 65537}; break; case H_SHORT_: q = {0, 1, SHRT_MIN, SHRT_MAX, -3, 300}; break; case H_CHAR_: q = {0, 1, -128, 127, -3, 77}; break;
        case H_LONG_: q = {0, 1, (LD)LONG_MIN, (LD)LONG_MAX, -3, (LD)((1L << 53) + 1)}; break;
        case H_FLOAT_: q = {0, 1.5L, -3e38L, 3e38L, 16777217.0L, 1e-18L}; break; default: q = {0, 1.5L, -1e152L, 1e152L, 1e-140L, 9007199254740993.0L}; break; }
    for (unsigned k = 0; k < a && k < q.size(); k++) add(q[k]);
    return v;
}
static LD val(int t, El e) { switch (t) { case H_INT_: return e.i; case H_DOUBLE_: return e.d; case H_FLOAT_: return e.f; case H_LONG_: return e.l; case H_SHORT_: return e.s; default: return e.c; } }
static void check(Ctx& c, int t, const std::vector<El>& x, unsigned long rows, unsigned long cols, int rowwise, unsigned long m) {
    size_t es = tsize(t), n = x.size(); char* p = (char*)malloc(n * es ? n * es : 1);
    for (size_t i = 0; i < n; i++) switch (es) { case 1: p[i] = x[i].c; break; case 2: ((short*)p)[i] = x[i].s; break; case 4: memcpy(p + 4 * i, &x[i], 4); break; default: memcpy(p + 8 * i, &x[i], 8); }
    std::vector<char> copy(p, p + n * es); track_reset();
    size_t np = rowwise ? rows : rows * cols, dim = rowwise ? cols : 1;
    void* h; int rc; { In in; h = sut_new(m); rc = sut_run(h, p, rows, cols, rowwise, t); } if (rc) fail("run returned %d", rc);
    if (memcmp(p, copy.data(), n * es)) fail("the run changed the data set");
    for (int pass = 0; pass < 2; pass++) {
        Res r = read(h); if (r.n != np) fail("%zu points instead of %zu", r.n, np);
        for (size_t i = 0; i < np; i++) for (size_t j = 0; j < np; j++) {
            double g = r.d(i, j); LD s = 0; for (size_t k = 0; k < dim; k++) { LD d = val(t, x[i * dim + k]) - val(t, x[j * dim + k]); s += d * d; } LD e = sqrtl(s);
            if (i == j ? g != 0 : !(fabsl((LD)g - e) <= e * 1e-12L)) fail("distance(%zu,%zu) of %s %lux%lu %s%s is %.17g, expected %.17Lg", i, j, TN[t], rows, cols, rowwise ? "row-wise" : "element-wise", pass ? " after a rerun" : "", g, e);
            if (g != r.d(j, i)) fail("distance(%zu,%zu) is %.17g but reversed %.17g", i, j, g, r.d(j, i)); c.trans(); }
        c.state(ex::hbytes(r.dist.data(), r.dist.size() * 8));
        if (!pass) { In in; if (sut_rerun(h, m + 1)) fail("rerun failed"); }
    }
    { In in; sut_destroy(h); } free(p); if (live()) fail("%zu allocations not released", live()); c.trace();
}
int main(int argc, char** argv) {
    return ex::main_(argc, argv, [](bool th) {
        sut_set_threads(1); std::vector<Family> v;
        for (int t = 0; t < 6; t++) for (int rw = 1; rw >= 0; rw--) {
            struct Sh { unsigned r, c, a; }; std::vector<Sh> S = {{1, 1, 6}, {2, 1, 6}, {1, 3, 6}, {3, 1, 6}, {2, 2, 6}, {4, 1, 6}, {1, 4, 5}, {2, 3, 4}, {3, 2, 4}, {5, 1, 5}, {6, 1, th ? 5u : 3u}};
            if (th) for (Sh s : std::vector<Sh>{{2, 4, 4}, {4, 2, 4}, {7, 1, 4}, {3, 3, 3}, {8, 1, 3}, {5, 2, 3}, {2, 5, 3}}) S.push_back(s);
            for (Sh s : S) { auto A = alphabet(t, s.a); unsigned n = s.r * s.c; Family f; f.name = fmt("%s %ux%u %s over %u values", TN[t], s.r, s.c, rw ? "rows" : "elements", s.a); f.count = 1; for (unsigned k = 0; k < n; k++) f.count *= A.size();
                auto mk = [=](uint64_t i) { std::vector<El> x; for (unsigned k = 0; k < n; k++) { x.push_back(A[i % A.size()]); i /= A.size(); } return x; };
                f.run = [=](Ctx& c, uint64_t i) { check(c, t, mk(i), s.r, s.c, rw, 2); };
                f.desc = [=](uint64_t i) { std::string d = fmt("%s %ux%u rowwise=%d [", TN[t], s.r, s.c, rw); for (El e : mk(i)) d += fmt(" %.20Lg", val(t, e)); return d + " ]"; }; v.push_back(f); }
            // shape sweep: every rows x cols, data whose entries are all different positions
            unsigned R = th ? 70 : 36, C = th ? 24 : 12; Family f; f.name = fmt("%s %s: all shapes up to %ux%u, three patterns", TN[t], rw ? "rows" : "elements (120 points at most; 300 thorough)", R, C); std::vector<std::pair<unsigned, unsigned>> shp; for (unsigned r = 1; r <= R; r++) for (unsigned k = 1; k <= C; k++) if (rw || r * k <= (th ? 300u : 120u)) shp.push_back({r, k}); f.count = shp.size() * 3;
            auto A = alphabet(t, 6); auto mk = [=](uint64_t i, unsigned& r, unsigned& cc) { unsigned p = (unsigned)(i % 3); i /= 3; r = shp[i].first; cc = shp[i].second; std::vector<El> x; for (unsigned k = 0; k < r * cc; k++) { El e; memset(&e, 0, sizeof e); long q = p == 0 ? (long)((k * 37 + k / cc * 11) % 97) : p == 1 ? (long)(k % 128) : (long)(k * k % 61) - 30; if (p == 2 && k % 5 == 0) { x.push_back(A[k % A.size()]); continue; } switch (t) { case H_INT_: e.i = (int)q * (p ? 1 : 1000003); break; case H_DOUBLE_: e.d = (double)q * 0.37; break; case H_FLOAT_: e.f = (float)q * 0.37f; break; case H_LONG_: e.l = q * (p ? 1 : 100000000003L); break; case H_SHORT_: e.s = (short)(q * (p ? 1 : 300)); break; default: e.c = (char)q; } x.push_back(e); } return x; };
            f.run = [=](Ctx& c, uint64_t i) { unsigned r, cc; auto x = mk(i, r, cc); check(c, t, x, r, cc, rw, 2 + i % 3); };
            f.desc = [=](uint64_t i) { unsigned r, cc; mk(i, r, cc); return fmt("%s %ux%u rowwise=%d pattern %lu", TN[t], r, cc, rw, (unsigned long)(i % 3)); }; v.push_back(f);
        }
        // many columns, many rows: around the limits of narrow counters and of blocks of columns
        { std::vector<std::pair<unsigned, unsigned>> shp; for (unsigned k : {13u, 15u, 16u, 17u, 24u, 25u, 31u, 32u, 33u, 48u, 63u, 64u, 65u, 96u, 100u, 127u, 128u, 129u, 200u, 255u, 256u, 257u, 300u, 511u, 512u, 513u, 1000u, 1024u, 1025u, 2049u, 4097u}) for (unsigned r : {2u, 3u, 5u}) shp.push_back({r, k});
            for (unsigned k : {32767u, 32769u, 65535u, 65536u, 65537u, 70000u}) shp.push_back({2, k}), shp.push_back({3, k});
            for (unsigned r : {127u, 128u, 129u, 255u, 256u, 257u, 258u}) for (unsigned k : {1u, 2u, 3u, 16u, 33u, 65u}) shp.push_back({r, k});
            if (th) for (unsigned r : {300u, 512u, 513u, 600u}) for (unsigned k : {1u, 3u, 40u, 129u}) shp.push_back({r, k});
            for (int t = 0; t < 6; t++) for (int rw = 1; rw >= 0; rw--) { std::vector<std::pair<unsigned, unsigned>> S; for (auto q : shp) if (rw || q.first * q.second <= (th ? 1100u : 600u)) S.push_back(q);
                Family f; f.name = fmt("%s %s: %zu shapes with up to %u columns or %u points", TN[t], rw ? "rows" : "elements", S.size(), rw ? 70000u : th ? 1100u : 600u, rw ? th ? 600u : 258u : th ? 1100u : 600u); f.count = S.size() * 2;
                f.run = [=](Ctx& c, uint64_t i) { unsigned r = S[i / 2].first, k = S[i / 2].second; bool last = i % 2; std::vector<El> x; for (unsigned a = 0; a < r; a++) for (unsigned b = 0; b < k; b++) { El e; memset(&e, 0, sizeof e); long q = last ? (b + 1 == k ? (long)(a * 7 % 61) + 1 : 0) : (long)((a * 131 + b * 37 + a * b % 7) % 113) - 50;
                    switch (t) { case H_INT_: e.i = (int)q; break; case H_DOUBLE_: e.d = (double)q * 0.37; break; case H_FLOAT_: e.f = (float)q * 0.37f; break; case H_LONG_: e.l = q; break; case H_SHORT_: e.s = (short)q; break; default: e.c = (char)q; } x.push_back(e); }
                    check(c, t, x, r, k, rw, 2); };
                f.desc = [=](uint64_t i) { return fmt("%s %ux%u rowwise=%d %s", TN[t], S[i / 2].first, S[i / 2].second, rw, i % 2 ? "only the last column varies" : "all columns vary"); }; v.push_back(f); } }
        for (int t : {H_INT_, H_DOUBLE_}) { Family f; f.name = fmt("%s: 41..%d points, 2 columns", TN[t], th ? 400 : 160); f.count = (th ? 400u : 160u) - 40;
            f.run = [=](Ctx& c, uint64_t i) { unsigned n = (unsigned)i + 41; std::vector<El> x; for (unsigned k = 0; k < 2 * n; k++) { El e; memset(&e, 0, sizeof e); long q = (long)((k * 2654435761UL) % 1000003); if (t == H_INT_) e.i = (int)q; else e.d = (double)q * 0.001; x.push_back(e); } check(c, t, x, n, 2, 1, 3); };
            f.desc = [](uint64_t i) { return fmt("%lu points", (unsigned long)i + 41); }; v.push_back(f); }
        return v; });
}
