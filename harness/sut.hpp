// C++ side of sut.h: parsed results, allocation tracking, dataset packing.
#pragma once
#include "explore.hpp"
#include "sut.h"
#include <algorithm>
#include <climits>
#include <limits>

extern "C" {
int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void*, size_t), void (*f)(const volatile void*)) __attribute__((weak));
}

namespace sut {
enum { H_INT_, H_DOUBLE_, H_FLOAT_, H_LONG_, H_SHORT_, H_CHAR_ };

// ---- live-allocation tracking of everything allocated inside library calls
struct Track {
    static const size_t N = 1 << 20;
    const volatile void* tab[N]; size_t sz[N];
    bool on = false; size_t live = 0, bytes = 0, used = 0; bool full = false;
    static size_t h(const volatile void* p) { uint64_t x = (uint64_t)p; x *= 0x9e3779b97f4a7c15ULL; return (size_t)(x >> 44); }
};
inline Track& track() { static Track t; return t; }
inline void hook_m(const volatile void* p, size_t n) {
    Track& t = track(); if (!t.on || !p) return;
    size_t i = Track::h(p), c = 0;
    while (t.tab[i] && t.tab[i] != (void*)1) { i = (i + 1) & (Track::N - 1); if (++c >= Track::N) { t.full = true; return; } }
    if (!t.tab[i]) t.used++;
    t.tab[i] = p; t.sz[i] = n; t.live++; t.bytes += n;
}
inline void hook_f(const volatile void* p) {
    Track& t = track(); if (!t.live || !p) return;
    size_t i = Track::h(p), c = 0;
    while (t.tab[i]) { if (t.tab[i] == p) { t.tab[i] = (void*)1; t.live--; t.bytes -= t.sz[i]; if (!t.live && t.used > Track::N / 8) { memset((void*)t.tab, 0, sizeof t.tab); t.used = 0; } return; } i = (i + 1) & (Track::N - 1); if (++c >= Track::N) return; }
}
inline void warmup() {       // lazily created runtime state (OpenMP, stdio, locale) is not the library's
    static pid_t done = 0; if (done == getpid()) return; done = getpid();
    printf(" "); fflush(stdout); double x[6] = {0, 1, 2, 9, 10, 11}; bool was = track().on; track().on = false;
    void* h = sut_new(2); sut_run(h, x, 6, 1, 1, H_DOUBLE_); sut_destroy(h); track().on = was;
}
inline void track_reset() {
    warmup(); Track& t = track(); static bool inst = false;
    if (!inst && __sanitizer_install_malloc_and_free_hooks) { __sanitizer_install_malloc_and_free_hooks(hook_m, hook_f); inst = true; }
    if (t.live || t.full) { memset((void*)t.tab, 0, sizeof t.tab); t.live = t.bytes = t.used = 0; t.full = false; }
}
struct In { bool was; In() { was = track().on; track().on = true; } ~In() { track().on = was; } };
struct Out { bool was; Out() { was = track().on; track().on = false; } ~Out() { track().on = was; } };   // harness code inside a call
inline size_t live() { return track().live; }
inline size_t live_bytes() { return track().bytes; }

// ---- datasets
struct Data {
    std::vector<double> x;      // rows*cols
    unsigned long rows = 0, cols = 1;
    std::string str() const {
        std::string s = ex::fmt("%lux%lu[", rows, cols);
        for (size_t i = 0; i < x.size(); i++) { if (i) s += (cols > 1 && i % cols == 0) ? " | " : " "; s += ex::fmt("%.17g", x[i]); if (s.size() > 900) { s += "..."; break; } }
        return s + "]";
    }
};
inline size_t tsize(int t) { switch (t) { case H_INT_: return 4; case H_DOUBLE_: return 8; case H_FLOAT_: return 4; case H_LONG_: return 8; case H_SHORT_: return 2; default: return 1; } }
// exact-size heap buffer, so that reads past the data set are caught
struct Packed {
    void* p; Packed(const Data& d, int t) {
        size_t n = d.x.size(); p = malloc(n * tsize(t) ? n * tsize(t) : 1);
        for (size_t i = 0; i < n; i++) switch (t) {
            case H_INT_: ((int*)p)[i] = (int)d.x[i]; break; case H_DOUBLE_: ((double*)p)[i] = d.x[i]; break;
            case H_FLOAT_: ((float*)p)[i] = (float)d.x[i]; break; case H_LONG_: ((long*)p)[i] = (long)d.x[i]; break;
            case H_SHORT_: ((short*)p)[i] = (short)d.x[i]; break; default: ((char*)p)[i] = (char)d.x[i]; }
    }
    ~Packed() { free(p); } Packed(const Packed&) = delete;
};

struct Clu {
    long label; double birth, death; long num; long offset; double stab, pstab, plow; long ncons, pncons; long parent; bool kids;
    std::vector<long> desc, virt;
};
struct Level { long key; double w; std::vector<long> lab; };
struct Edge { long a, b; double w; };
struct Score { long id; double s, c; };
struct Res {
    size_t n = 0, minPts = 0; int rc = 0;
    std::vector<double> dist, core; std::vector<Edge> mst; std::vector<long> lab; std::vector<Score> sc;
    std::vector<Clu> clu; std::vector<Level> hier;
    std::vector<double> raw;
    double d(size_t i, size_t j) const { return dist[i * n + j]; }
    uint64_t hash() const { return ex::hbytes(raw.data(), raw.size() * 8); }
};
inline Res parse(const sut_blob& b) {
    Res r; size_t p = 0; auto nx = [&]() { if (p >= b.n) ex::fail("short result"); return b.v[p++]; };
    r.raw.assign(b.v, b.v + b.n);
    r.n = (size_t)nx(); r.minPts = (size_t)nx();
    for (size_t i = 0; i < r.n * r.n; i++) r.dist.push_back(nx());
    for (size_t i = 0; i < r.n; i++) r.core.push_back(nx());
    size_t m = (size_t)nx(); for (size_t i = 0; i < m; i++) { Edge e; e.a = (long)nx(); e.b = (long)nx(); e.w = nx(); r.mst.push_back(e); }
    for (size_t i = 0; i < r.n; i++) r.lab.push_back((long)nx());
    for (size_t i = 0; i < r.n; i++) { Score s; s.id = (long)nx(); s.s = nx(); s.c = nx(); r.sc.push_back(s); }
    size_t k = (size_t)nx();
    for (size_t i = 0; i < k; i++) {
        Clu c; c.label = (long)nx(); c.birth = nx(); c.death = nx(); c.num = (long)nx(); c.offset = (long)nx(); c.stab = nx(); c.pstab = nx(); c.plow = nx();
        c.ncons = (long)nx(); c.pncons = (long)nx(); c.parent = (long)nx(); c.kids = nx() != 0;
        size_t q = (size_t)nx(); while (q--) c.desc.push_back((long)nx());
        q = (size_t)nx(); while (q--) c.virt.push_back((long)nx());
        r.clu.push_back(c);
    }
    size_t nh = (size_t)nx();
    for (size_t i = 0; i < nh; i++) { Level l; l.key = (long)nx(); l.w = nx(); for (size_t j = 0; j < r.n; j++) l.lab.push_back((long)nx()); r.hier.push_back(l); }
    return r;
}
inline Res read(void* h, bool with_dist = true) {
    sut_blob b = {nullptr, 0, 0}; bool was = track().on; track().on = false;
    sut_read(h, &b, with_dist); Res r = parse(b); sut_blob_free(&b); track().on = was; return r;
}
// one fresh run; the handle is destroyed, and anything left allocated is a leak
inline Res run_once(const Data& d, unsigned long minPts, int type = H_DOUBLE_, int rowwise = 1, bool leakcheck = true) {
    Packed pk(d, type); track_reset(); Res r;
    { In in; void* h = sut_new(minPts); int rc = sut_run(h, pk.p, d.rows, d.cols, rowwise, type);
      if (rc != 0) ex::fail("run returned %d", rc);
      r = read(h); r.rc = rc; sut_destroy(h); }
    if (leakcheck && live()) ex::fail("%zu allocations (%zu bytes) not released after destroy", live(), live_bytes());
    return r;
}
} // namespace sut
