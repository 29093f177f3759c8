// C30: every pair has its own cell of the distance storage. The library is compiled with memory-access callbacks
// (the compiler's thread-sanitizer instrumentation, with the callbacks defined here), so the address of the cell
// that distance_get reads and distance_compute writes is observed for every single pair.
#include "explore.hpp"
#include "cells.h"
using ex::Ctx; using ex::Family; using ex::fail; using ex::fmt;
// region R: storage whose reads are observed; region W: storage whose writes are observed
static uint64_t RB, RN, WB, WN; static __thread uint64_t rd_cell, rd_count; static void on_write(uint64_t off); static void on_read(uint64_t off);
extern "C" {
#define RD(n) void __tsan_read##n(void* p) { uint64_t o = (uint64_t)p - RB; if (o < RN) { if (!rd_count || rd_cell != o) rd_count++; rd_cell = o; } else if ((o = (uint64_t)p - WB) < WN) on_read(o); }
#define WR(n) void __tsan_write##n(void* p) { uint64_t o = (uint64_t)p - WB; if (o < WN) on_write(o); }
#define XX(n) void __tsan_unaligned_read##n(void* p) { __tsan_read##n(p); } void __tsan_unaligned_write##n(void* p) { __tsan_write##n(p); }
RD(1) RD(2) RD(4) RD(8) RD(16) WR(1) WR(2) WR(4) WR(8) WR(16) XX(2) XX(4) XX(8) XX(16)
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_vptr_update(void*, void*) {} void __tsan_vptr_read(void*) {}
void __tsan_read_range(void* p, size_t) { __tsan_read8(p); } void __tsan_write_range(void* p, size_t) { __tsan_write8(p); }
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T* a, int) { return *a; } void __tsan_atomic##b##_store(volatile T* a, T v, int) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int, int) { __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
// one large block of the library can be replaced by the watched memory
static void* give; static uint64_t give_from, give_to, given;
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void __real_free(void*);
void* __wrap_malloc(size_t n) { if (give && n >= give_from && n <= give_to) { void* p = give; give = nullptr; given = n; return p; } return __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { if (give && a * b >= give_from && a * b <= give_to) { void* p = give; give = nullptr; given = a * b; return p; } return __real_calloc(a, b); }
void* __real_realloc(void*, size_t); void* __wrap_realloc(void* p, size_t n) { return p ? __real_realloc(p, n) : __wrap_malloc(n); }
void* __real_aligned_alloc(size_t, size_t); void* __wrap_aligned_alloc(size_t a, size_t n) { if (give && n >= give_from && n <= give_to) return __wrap_malloc(n); return __real_aligned_alloc(a, n); }
// block copies write (and read) cell by cell
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);

void* __wrap_memmove(void* d, const void* s, size_t n) {
    if ((uint64_t)s - RB < RN) for (uint64_t k = 0; k < n; k += cell_bytes()) __tsan_read8((char*)s + k);
    if ((uint64_t)d - WB >= WN) return __real_memmove(d, s, n);
    uint64_t cb = cell_bytes(); for (uint64_t k = 0; k < n; k += cb) { __tsan_write8((char*)d + k); __real_memmove((char*)d + k, (const char*)s + k, n - k < cb ? n - k : cb); } return d; }
void* __wrap_memcpy(void* d, const void* s, size_t n) { return ((uint64_t)s - RB < RN || (uint64_t)d - WB < WN) ? __wrap_memmove(d, s, n) : __real_memcpy(d, s, n); }
void __wrap_free(void* p) { if (WB && (uint64_t)p == WB) return; __real_free(p); }
}
static uint64_t pairs(uint64_t n) { return n * (n - 1) / 2; }
static uint64_t next_prime(uint64_t p) { for (;; p++) { bool ok = p > 2 && p % 2; for (uint64_t q = 3; ok && q * q <= p; q += 2) if (p % q == 0) ok = false; if (ok) return p; } }
// values whose differences identify the pair: x_i = i * 2^20 + (i^2 mod p)
struct Values {
    uint64_t n, p, half; std::vector<double> x; std::vector<uint32_t> inv;
    Values(uint64_t n_) : n(n_), p(next_prime(n_ + 1)), half((p + 1) / 2), x(n_), inv(p) { for (uint64_t i = 0; i < n; i++) x[i] = (double)(i << 20) + (double)(i * i % p); inv[1] = 1; for (uint64_t i = 2; i < p; i++) inv[i] = (uint32_t)((p - (p / i) * inv[p % i] % p) % p); }
    bool decode(double v, uint64_t& i, uint64_t& j) const {
        if (!(v > 0 && v < 1e15)) return false; int64_t k = (int64_t)v, d = (k + (1 << 19)) >> 20, e = k - (d << 20); if (d < 1 || d >= (int64_t)n) return false;
        uint64_t em = (uint64_t)((e % (int64_t)p + (int64_t)p) % (int64_t)p), t = em * inv[(uint64_t)d % p] % p; i = (t + p - (uint64_t)d % p) % p * half % p; j = i + (uint64_t)d; return j < n && x[j] - x[i] == v; }
};
static const uint64_t LUMP = 128 << 20, MARGIN = 1 << 20;
static uint64_t room(uint64_t bytes) { return (bytes / LUMP + 2) * LUMP; }
static char* reserve(uint64_t bytes, bool alias) {      // address space without memory: zero pages, or one 16 MB file mapped over and over
    uint64_t all = room(bytes); char* p = (char*)mmap(nullptr, all, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) fail("no address space");
    if (alias) { int fd = (int)memfd_create("cells", 0); if (fd < 0 || ftruncate(fd, (off_t)LUMP)) fail("no memfd"); for (uint64_t o = 0; o < all; o += LUMP) if (mmap(p + o, LUMP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED | MAP_POPULATE, fd, 0) == MAP_FAILED) fail("cannot map"); close(fd); }
    return p;
}
// runs f in several processes at once; the first message of a failing one is reported
static void in_processes(int k, std::function<void(int)> f) {
    std::vector<pid_t> pid; int pp[2]; if (pipe(pp)) fail("pipe");
    for (int w = 0; w < k; w++) { pid_t p = fork(); if (!p) { try { f(w); } catch (ex::Failure& e) { if (write(pp[1], e.msg.c_str(), std::min<size_t>(e.msg.size(), 400)) < 0) {} _exit(3); } _exit(0); } pid.push_back(p); }
    close(pp[1]); char m[512]; bool bad = false; int code = 0; for (pid_t p : pid) { int st; waitpid(p, &st, 0); if (st) bad = true, code = st; } ssize_t r = ::read(pp[0], m, 400); m[r > 0 ? r : 0] = 0; close(pp[0]); if (bad) fail("%s", r > 0 ? m : fmt("crash (status %d)", code).c_str());
}
// the cell read for every pair: within the storage, the same in both directions, and no other pair's
static void read_rows(uint64_t n, uint64_t part, uint64_t parts, uint64_t* bits, bool shared) {
    uint64_t cb = cell_bytes(), N = pairs(n); void* d = cell_space(n, (void*)(RB + MARGIN));
    for (uint64_t i = 0; i < n; i++) { if (parts > 1 && i / 16 % parts != part) continue;
        for (uint64_t j = i + 1; j < n; j++) {
            rd_count = 0; cell_get(d, i, j); if (rd_count != 1) fail("n=%lu: distance(%lu,%lu) read %lu cells of the storage", n, i, j, rd_count);
            uint64_t o = rd_cell - MARGIN, q = rd_cell; if (o >= N * cb || o % cb) fail("n=%lu: distance(%lu,%lu) is read at byte %ld of a storage of %lu bytes", n, i, j, (long)o, N * cb);
            o /= cb; uint64_t m = 1ull << (o % 64), was; if (shared) was = __atomic_fetch_or(&bits[o / 64], m, __ATOMIC_RELAXED); else was = bits[o / 64], bits[o / 64] |= m;
            if (was & m) fail("n=%lu: distance(%lu,%lu) shares cell %lu with another pair", n, i, j, o);
            rd_count = 0; cell_get(d, j, i); if (rd_count != 1 || rd_cell != q) fail("n=%lu: distance(%lu,%lu) and distance(%lu,%lu) are read from different cells", n, i, j, j, i); }
        if (cell_get(d, i, i) != 0) fail("n=%lu: distance(%lu,%lu) is not 0", n, i, i); }
    cell_space_free(d);
}
static void check_read(Ctx& c, uint64_t n, bool big) {
    uint64_t cb = cell_bytes(), N = pairs(n), words = N / 64 + 1; char* p = reserve(N * cb + 2 * MARGIN, false); RB = (uint64_t)p; RN = N * cb + 2 * MARGIN;
    uint64_t* bits = (uint64_t*)mmap(nullptr, words * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (bits == MAP_FAILED) fail("no memory for the cells");
    if (big) in_processes(8, [&](int w) { read_rows(n, (uint64_t)w, 8, bits, true); }); else read_rows(n, 0, 1, bits, false);
    uint64_t seen = 0; for (uint64_t k = 0; k < words; k++) seen += (uint64_t)__builtin_popcountll(bits[k]); munmap(bits, words * 8); if (seen != N) fail("n=%lu: %lu cells are used for %lu pairs", n, seen, N);
    munmap(p, room(RN)); RB = RN = 0; c.trans(N); c.trace(); c.state(n * 64);
}
// the cell written for every pair is the one read
static const Values* V; static void* RS; static bool big_mode; static const int TH = 128; static std::string werr; static std::atomic<int> err_once;
struct PerThread { uint64_t seen, checked, reads; char pad[104]; } static pt[TH]; static std::atomic<int> nth; static __thread int me = -1; static __thread uint64_t pend; static std::atomic<uint64_t> redo;
static int id() { if (me < 0) { me = nth++; if (me >= TH) me = TH - 1; pend = ~0ull; } return me; }
static uint64_t total() { uint64_t s = 0; for (auto& p : pt) s += p.seen; return s; }
static int attempt; static void werror(const std::string& m) { if (!err_once.exchange(1)) werr = m; if (attempt == 5) { if (write(2, m.c_str(), m.size()) < 0) {} _exit(3); } }
static __thread bool inside;
// storage of a large n is mapped onto little memory, so threads may disturb each other's cells: what one attempt finds, the next one examines again, the last one with a single thread
static __thread uint64_t gi = ~0ull, gj; static uint64_t *want, *bad; static std::atomic<uint64_t>* nbad;
static void check_pending() {
    uint64_t o = pend; pend = ~0ull; uint64_t c = o / cell_bytes(); pt[id()].checked++;
    if (attempt > 1 && !(want[c / 64] >> (c % 64) & 1)) return;
    double v = cell_bytes() == 8 ? *(double*)(WB + o) : *(float*)(WB + o); uint64_t i, j;
    if (!(gi < V->n && gj + 1 < V->n && V->x[gj + 1] - V->x[gi] == v ? (i = gi, j = gj + 1, true) : V->decode(v, i, j))) { if (attempt && attempt < 5) { __atomic_fetch_or(&bad[c / 64], 1ull << (c % 64), __ATOMIC_RELAXED); ++*nbad; } else werror(fmt("n=%lu: cell %lu is given %.17g, which is the distance of no pair", V->n, c, v)); return; }
    gi = i; gj = j; inside = true; rd_count = 0; cell_get(RS, i, j); inside = false; uint64_t q = rd_cell - MARGIN;
    if (rd_count != 1 || q != o) { if (attempt && attempt < 5) { __atomic_fetch_or(&bad[c / 64], 1ull << (c % 64), __ATOMIC_RELAXED); ++*nbad; } else werror(fmt("n=%lu: the distance of points %lu and %lu is written to cell %lu and read from cell %ld", V->n, i, j, c, (long)q / (long)cell_bytes())); }
}
static void on_write(uint64_t o) { id(); if (o == pend) return; pt[me].seen++; if (pend != ~0ull) check_pending(); pend = o; }
static void on_read(uint64_t o) {      // the storage is first read when all distances are in it: nothing after that is of interest here
    if (!big_mode || inside) return; id(); if (o == pend) return; if (pt[me].reads++ % 65536) return; if (pend != ~0ull) check_pending(); if (total() < pairs(V->n)) return;
    if (!err_once) _exit(0); while (werr.empty()) usleep(1000); if (write(2, werr.c_str(), werr.size()) < 0) {} _exit(3);
}
static void* compute(const Values& vals, char* p, uint64_t from, uint64_t to) {
    uint64_t N = pairs(vals.n), cb = cell_bytes(); WB = (uint64_t)p; WN = N * cb; give = p; give_from = from; give_to = to; given = 0; void* d = cell_compute(vals.x.data(), vals.n); if (pend != ~0ull) check_pending(); give = nullptr; return d;
}
static std::string write_big(const Values& vals, bool threads) {      // in a process of its own
    uint64_t N = pairs(vals.n), cb = cell_bytes(); int pp[2]; if (pipe(pp)) fail("pipe"); pid_t k = fork();
    if (!k) { dup2(pp[1], 2); cell_threads(threads ? 48 : 1); char* p = reserve(N * cb, true); nth = 0; me = -1; id(); memset(pt, 0, sizeof pt); err_once = 0; compute(vals, p, 64 << 20, ~0ull); if (!err_once && total() < N) werror(fmt("n=%lu: %lu cells were written for %lu pairs", vals.n, total(), N)); if (err_once) { if (write(2, werr.c_str(), werr.size()) < 0) {} _exit(3); } _exit(0); }
    close(pp[1]); char m[512]; ssize_t r = ::read(pp[0], m, sizeof m - 1); m[r > 0 ? r : 0] = 0; close(pp[0]); int st; waitpid(k, &st, 0); if (WIFEXITED(st) && !WEXITSTATUS(st)) return ""; return r > 0 ? m : fmt("n=%lu: the computation of the distances crashed (status %d)", vals.n, st);
}
static void check_write(Ctx& c, uint64_t n, bool big) {
    uint64_t cb = cell_bytes(), N = pairs(n); Values vals(n); V = &vals; char* rp = reserve(N * cb + 2 * MARGIN, false); RB = (uint64_t)rp; RN = N * cb + 2 * MARGIN; RS = cell_space(n, rp + MARGIN); big_mode = big; err_once = 0; werr.clear(); memset(pt, 0, sizeof pt); pend = ~0ull;
    attempt = 0;
    if (big) {
        auto bm = [&]() { void* p = mmap(nullptr, N / 8 + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) fail("no memory for the cells"); return (uint64_t*)p; };
        nbad = (std::atomic<uint64_t>*)bm(); bad = want = nullptr;
        for (attempt = 1; attempt <= 5; attempt++) { if (want) munmap(want, N / 8 + 64); want = bad; bad = bm(); *nbad = 0; std::string m = write_big(vals, attempt < 5); if (m.size() && attempt == 5) fail("%s", m.c_str()); if (m.size()) memset(bad, 255, N / 8 + 64), *nbad = 1; if (!*nbad) break; }
        attempt = 0; if (want) munmap(want, N / 8 + 64); munmap(bad, N / 8 + 64); munmap((void*)nbad, N / 8 + 64); }
    else if (n < 2) { void* d = cell_compute(vals.x.data(), n); if (cell_get(d, 0, 0) != 0) fail("distance(0,0)"); cell_destroy(d); }
    else {
        char* p = reserve(N * cb, false); void* d = compute(vals, p, N * cb, N * cb); bool mine = cell_base(d) == p;
        if (mine) { if (werr.size()) fail("%s", werr.c_str()); if (pt[id()].checked < N) fail("n=%lu: %lu cells were written for %lu pairs", n, pt[id()].checked, N); }
        for (uint64_t i = 0; i < n; i++) for (uint64_t j = 0; j < n; j++) { double e = std::fabs(vals.x[i] - vals.x[j]); if (cell_get(d, i, j) != (cb == 8 ? e : (double)(float)e)) fail("n=%lu: distance(%lu,%lu) is %.17g, not %.17g", n, i, j, cell_get(d, i, j), e); }
        cell_destroy(d); munmap(p, room(N * cb)); WB = WN = 0; }
    cell_space_free(RS); munmap(rp, room(RN)); RB = RN = 0; c.trans(N); c.trace(); c.state(n * 64 + 1);
}
int main(int argc, char** argv) {
    return ex::main_(argc, argv, [](bool th) {
        cell_threads(1); std::vector<Family> v; uint64_t mx = cell_max_points(), small = th ? 1200 : 400; if (small > mx) small = mx;
        auto add = [&](std::string nm, std::vector<uint64_t> ns, std::function<void(Ctx&, uint64_t)> r, double to) { Family f; f.name = nm; f.count = ns.size(); f.run = [=](Ctx& c, uint64_t i) { r(c, ns[i]); }; f.desc = [=](uint64_t i) { return fmt("n=%lu", ns[i]); }; f.case_timeout = to; v.push_back(f); };
        std::vector<uint64_t> S, R, W; for (uint64_t n = 1; n <= small; n++) S.push_back(n);
        if (mx == 65535) { R = W = {65535}; if (th) R = W = {32768, 32769, 46342, 65534, 65535}; } else { R = W = {92683}; if (th) R = {46341, 46342, 65536, 65537, 92682, 92683, 131073}, W = {46342, 65537, 92683, 131073}; }
        add("every pair of the listed large n: cell written", W, [](Ctx& c, uint64_t n) { check_write(c, n, true); }, 400);
        add("every pair of the listed large n: cell read", R, [](Ctx& c, uint64_t n) { check_read(c, n, true); }, 400);
        add(fmt("every pair of every n in 1..%lu: cell read", small), S, [](Ctx& c, uint64_t n) { check_read(c, n, false); }, 60);
        add(fmt("every pair of every n in 1..%lu: cell written, value read back", small), S, [](Ctx& c, uint64_t n) { check_write(c, n, false); }, 60);
        return v; });
}
