// A controlled OpenMP runtime. The library is compiled with -fopenmp and with the compiler's thread-sanitizer
// callbacks, but linked against neither libgomp nor libtsan: the team is a set of coroutines on one OS thread, and
// the scheduler here decides at every point that can matter which of them goes on. Points that can matter are the
// synchronisation operations and the accesses to bytes on which two threads of the region conflict (one writes,
// no common lock); the set of conflicting bytes is found by watching every access and grows until it is stable.
#pragma once
#include "explore.hpp"
#include <csetjmp>
#include <csignal>
#include <link.h>
extern "C" { void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
void* __real_memcpy(void*, const void*, size_t); void* __real_memset(void*, int, size_t); void* __real_memmove(void*, const void*, size_t); }
namespace coop {
static const int MAXT = 8;
static char* const W = (char*)0x100000000000ULL;
static const size_t STK0 = 8 << 20, STKN = 1 << 20, AR0 = 64 << 20, ARN = 8 << 20;
static const size_t STACKS = STK0 + (MAXT - 1) * STKN, WORLD = STACKS + AR0 + (MAXT - 1) * ARN;
struct Sh { uint32_t ep; uint8_t rd, wr; uint16_t locks; };
static Sh* shadow; static uint8_t* valid;       // valid: one byte per 8 bytes of the world: 0 never given out, 1..8 bytes usable, 254 freed
static inline char* stack_lo(int t) { return t == 0 ? W : W + STK0 + (size_t)(t - 1) * STKN; }
static inline size_t stack_size(int t) { return t == 0 ? STK0 : STKN; }
static inline char* arena_lo(int t) { return t == 0 ? W + STACKS : W + STACKS + AR0 + (size_t)(t - 1) * ARN; }
static inline size_t arena_size(int t) { return t == 0 ? AR0 : ARN; }
static inline bool in_world(const void* p) { return (uint64_t)p - (uint64_t)W < WORLD; }
static inline bool in_arena(const void* p) { return (uint64_t)p - (uint64_t)W - STACKS < WORLD - STACKS; }

enum St { RUN, LOCK, BARRIER, DONE };
struct Ws { unsigned long long next, end, incr, chunk; bool up; int single; unsigned sec, nsec; bool init; void* copy; };   // a shared loop, sections, single
struct Thr { FILE* out; void* sp; St st; uint32_t lock; uint16_t held; size_t top; unsigned ws; char* tls; int nested; Ws own; };
static Thr th[MAXT];
static void* main_sp; static bool running; static int cur, team, want_team = 1, own_code;   // own_code: the runtime itself is at work
static uint32_t epoch; static int region;                  // ordinal of the current parallel region
static std::string failure;
// outside-world conflicts (globals): open-addressed by address
struct Ext { uint64_t a; Sh s; }; static Ext* ext; static const size_t EXTN = 1 << 16;
// conflict sets per region ordinal
static std::vector<std::unordered_set<uint64_t>> conf; static std::vector<char> syncs; static bool newconf; static const size_t MAXREG = 4096;
static uint64_t naccess; static void* where[MAXREG];
// decisions
static const size_t MAXP = 200000; static uint8_t *pidx, *pcnt; static size_t plen, ppos; static int explore_region, bound, used, policy; static bool cut; static uint64_t decisions;

extern "C" void coop_switch(void** save, void* to);
asm(R"(
.text
.globl coop_switch
coop_switch:
    push %rbp; push %rbx; push %r12; push %r13; push %r14; push %r15
    mov %rsp, (%rdi)
    mov %rsi, %rsp
    pop %r15; pop %r14; pop %r13; pop %r12; pop %rbx; pop %rbp
    ret
)");
// Calls of the scheduler go through here: what the program can see of its own state is on the stack above the recorded address.
extern "C" { void* coop_key[MAXT]; int coop_cur; void coop_point(); void coop_first(); void coop_point_body(); void coop_first_body(); }
#define COOP_TRAMPOLINE(name) asm(".text\n.globl " #name "\n" #name ":\n push %rbp; push %rbx; push %r12; push %r13; push %r14; push %r15\n" \
    " mov coop_cur(%rip), %eax\n lea coop_key(%rip), %rcx\n mov %rsp, (%rcx,%rax,8)\n sub $8, %rsp\n call " #name "_body\n add $8, %rsp\n pop %r15; pop %r14; pop %r13; pop %r12; pop %rbx; pop %rbp\n ret\n")
COOP_TRAMPOLINE(coop_point); COOP_TRAMPOLINE(coop_first);
static void point() { coop_point(); }
static void first() { coop_first(); }
static size_t tls_size; static char* tls_at; static std::vector<char> tls_init;
static int phdr_cb(struct dl_phdr_info* i, size_t, void*) {
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS && !(i->dlpi_name && *i->dlpi_name)) {
        size_t al = i->dlpi_phdr[k].p_align ? i->dlpi_phdr[k].p_align : 1; tls_size = i->dlpi_phdr[k].p_memsz; size_t r = (tls_size + al - 1) / al * al;
        tls_at = (char*)__builtin_thread_pointer() - r; }
    return 1;
}
static void go(int t) {                                    // switch to coroutine t
    if (t == cur) return;
    int f = cur; th[f].out = stdout; stdout = th[t].out; if (tls_size) { __real_memcpy(th[f].tls, tls_at, tls_size); __real_memcpy(tls_at, th[t].tls, tls_size); }
    cur = coop_cur = t; coop_switch(&th[f].sp, th[t].sp);
}
[[noreturn]] static void die(const std::string& m) { running = false; failure = m; void* junk; coop_switch(&junk, main_sp); abort(); }
static std::string schedule_text() { std::string s = ex::fmt("schedule of region %d, %d threads, choices", explore_region, want_team); for (size_t i = 0; i < ppos && i < 300; i++) s += ex::fmt(" %d/%d", pidx[i], pcnt[i]); return s; }

static uint32_t lock_owner[16]; static uint64_t lock_key[16]; static int nlocks;   // owner+1
static int lock_id(uint64_t key) { for (int i = 0; i < nlocks; i++) if (lock_key[i] == key) return i; if (nlocks == 16) return 15; lock_key[nlocks] = key; lock_owner[nlocks] = 0; return nlocks++; }
static bool enabled(int t) { return th[t].st == RUN || (th[t].st == LOCK && !lock_owner[th[t].lock]); }
// shared work descriptors of the region
static Ws ws[512];
static bool apps;                                          // the threads are the program's own, and not the library's
static bool serial() { return team == 1 || th[cur].nested; }
static bool alone() { return team == 1 || (th[cur].nested && !apps); }
static Ws& work() { if (serial()) { th[cur].own = Ws(); return th[cur].own; } return ws[th[cur].ws++ % 512]; }
static Ws& same_work() { return serial() ? th[cur].own : ws[(th[cur].ws - 1) % 512]; }
// The state of the program: used stacks and memory, globals touched by a region, who waits for what. Two schedules that reach the same state have the same futures.
static std::unordered_set<uint64_t> visited; static std::vector<uint64_t> globals; static uint64_t pruned;
static inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v; h *= 0x9fb21c651e98df25ULL; return h ^ (h >> 28); }
static uint64_t hash_range(uint64_t h, const char* a, const char* b) {
    uint64_t h2 = h ^ 0x1234567; const uint64_t* p = (const uint64_t*)a; const uint64_t* e = (const uint64_t*)(((uint64_t)b) & ~7ULL);
    for (; p + 1 < e; p += 2) { h = (h ^ p[0]) * 0x9fb21c651e98df25ULL; h ^= h >> 29; h2 = (h2 ^ p[1]) * 0xc6a4a7935bd1e995ULL; h2 ^= h2 >> 31; } if (p < e) h = mix(h, *p);
    return mix(h, h2);
}
static uint64_t state_hash() {
    uint64_t h = (uint64_t)team;      // who is running does not matter: any enabled thread may go on
    for (int t = 0; t < team; t++) {
        h = mix(h, ((uint64_t)th[t].st << 32) | ((uint64_t)th[t].lock << 16) | th[t].held); h = mix(h, th[t].ws); h = mix(h, th[t].top);
        if (th[t].st != DONE || t == 0) h = hash_range(h, (char*)coop_key[t], stack_lo(t) + stack_size(t) - 64);
        h = hash_range(h, arena_lo(t), arena_lo(t) + th[t].top); if (tls_size) h = hash_range(h, t == cur ? tls_at : th[t].tls, (t == cur ? tls_at : th[t].tls) + tls_size);
        for (unsigned k = 0; k < th[t].ws && k < 8; k++) { h = mix(h, ws[k].next); h = mix(h, (uint64_t)ws[k].single * 64 + ws[k].sec); }
    }
    for (int i = 0; i < nlocks; i++) h = mix(h, lock_owner[i]);
    for (uint64_t a : globals) h = mix(h, *(uint8_t*)a);
    return h;
}
static int decide(int m) {
    if (ppos >= MAXP) die("HARNESS: schedule too long to enumerate");
    if (ppos == plen) {
        if (bound < 0) { own_code++; bool fresh = visited.insert(state_hash()).second; own_code--; if (!fresh) { pruned++; die("PRUNED"); } }
        pidx[plen] = 0; pcnt[plen] = (uint8_t)m; plen++;
    }
    int c = pidx[ppos++]; decisions++;
    if (c >= m) die("HARNESS: a replayed schedule went another way");
    return c;
}
// the scheduler: called by the current thread at a point where another thread may go on
extern "C" void coop_point_body() {
    int opt[MAXT], n = 0; bool me = enabled(cur);
    if (me) opt[n++] = cur;
    for (int k = 1; k <= team; k++) { int t = (cur + k) % team; if (t != cur && enabled(t)) opt[n++] = t; }
    if (!n) { std::string s; for (int t = 0; t < team; t++) s += ex::fmt(" thread %d %s", t, th[t].st == DONE ? "ended" : th[t].st == BARRIER ? "waits at a barrier" : "waits for a lock"); die("deadlock:" + s + "; " + schedule_text()); }
    int c = 0;
    if (region == explore_region) {
        int m = bound < 0 ? n : std::min(n, bound - used + 1); if (m < n) cut = true;
        if (m > 1) { c = decide(m); if (bound >= 0) used += c; }
    } else if (policy == 1) { int best = 0; for (int i = 1; i < n; i++) if (opt[i] > opt[best]) best = i; c = me ? 0 : best; }
    else if (policy == 2 && n > 1 && me) c = 1;
    go(opt[c]);
}
extern "C" void coop_first_body() {                                      // a region starts: any thread may go first
    if (region == explore_region && (!conf[(size_t)region].empty() || syncs[(size_t)region])) {
        int m = bound < 0 ? team : std::min(team, bound - used + 1); if (m < team) cut = true;
        if (m > 1) { int c = decide(m); if (bound >= 0) used += c; go(c); }
    } else if (region != explore_region && policy) go(policy == 1 ? team - 1 : 1 % team);
}
static std::unordered_set<uint64_t> guards; static bool want_lock(uint64_t key) { own_code++; bool w = guards.count(key); own_code--; return w; }
static void acquire(uint64_t key) {
    if (alone()) return;
    // a lock of the program's threads that guards nothing they have in common is no switch point
    if (apps && th[cur].held && !want_lock(key)) { own_code++; for (int i = 0; i < nlocks; i++) if (th[cur].held >> i & 1) guards.insert(lock_key[i]); guards.insert(key); newconf = true; own_code--; }
    if (!apps || want_lock(key)) { syncs[(size_t)region] = 1; point(); }
    int l = lock_id(key); while (lock_owner[l]) { if (lock_owner[l] == (uint32_t)cur + 1) die("deadlock: a thread waits for a lock it holds; " + schedule_text()); th[cur].st = LOCK; th[cur].lock = (uint32_t)l; point(); th[cur].st = RUN; }
    lock_owner[l] = (uint32_t)cur + 1; th[cur].held |= (uint16_t)(1 << l);
}
static void release(uint64_t key) { if (alone()) return; int l = lock_id(key); lock_owner[l] = 0; th[cur].held &= (uint16_t)~(1 << l); }
static void barrier() {
    if (serial()) return; syncs[(size_t)region] = 1;
    th[cur].st = BARRIER; bool all = true; for (int t = 0; t < team; t++) if (th[t].st == RUN || th[t].st == LOCK) all = false;
    if (all) { epoch++; for (int t = 0; t < team; t++) if (th[t].st == BARRIER) th[t].st = RUN; }
    point();
}
static void note(Sh& s, uint64_t a, bool w) {
    if (s.ep != epoch) { s.ep = epoch; s.rd = s.wr = 0; s.locks = 0xffff; }
    uint8_t bit = (uint8_t)(1 << cur); s.locks &= th[cur].held;
    if (((w ? s.rd | s.wr : s.wr) & ~bit) && !s.locks) { own_code++; if (conf[(size_t)region].insert(a).second) newconf = true; own_code--; }
    if (apps && s.locks && ((w ? s.rd | s.wr : s.wr) & ~bit)) for (int i = 0; i < nlocks; i++) if ((s.locks >> i & 1) && !want_lock(lock_key[i])) { own_code++; guards.insert(lock_key[i]); newconf = true; own_code--; }
    if (w) s.wr |= bit; else s.rd |= bit;
}
static void access(const void* p, size_t n, bool w) {
    if (!running || own_code || !n) return;
    uint64_t a = (uint64_t)p; naccess++;
    if (in_arena(p)) {
        for (uint64_t b = a & ~7ULL; b < a + n; b += 8) {
            uint8_t v = valid[(b - (uint64_t)W) >> 3]; uint64_t e = a + n < b + 8 ? a + n - b : 8;
            if (v == 254) die(ex::fmt("%s of %zu bytes of memory already released; ", w ? "write" : "read", n) + schedule_text());
            if (v < e) die(ex::fmt("%s of %zu bytes outside any block of memory; ", w ? "write" : "read", n) + schedule_text());
        }
    }
    if (team == 1) return;
    auto& C = conf[(size_t)region];
    if (region == explore_region || policy == 2) {
        if (!C.empty()) { bool hit = false; for (size_t k = 0; k < n && !hit; k++) hit = C.count(a + k); if (hit) point(); }
    }
    for (size_t k = 0; k < n; k++) {
        if (in_world((void*)(a + k))) note(shadow[a + k - (uint64_t)W], a + k, w);
        else { size_t h = ((a + k) * 0x9e3779b97f4a7c15ULL) >> 48; size_t c = 0; while (ext[h].a && ext[h].a != a + k && c++ < EXTN) h = (h + 1) & (EXTN - 1); if (c < EXTN) { if (!ext[h].a) { ext[h].a = a + k; own_code++; globals.push_back(a + k); own_code--; } note(ext[h].s, a + k, w); } }
    }
}
// memory: bump allocation per thread, never reused within a run, so addresses do not depend on the schedule
static void* take(size_t n) {
    Thr& t = th[cur]; size_t r = (n + 15) / 16 * 16 + 32; if (t.top + r > arena_size(cur)) die("HARNESS: out of memory");
    char* p = arena_lo(cur) + t.top + 16; t.top += r; *(size_t*)(p - 16) = n; *(size_t*)(p - 8) = 0xA110C;
    __real_memset(p, 0xBE, (n + 15) / 16 * 16); uint8_t* v = valid + ((p - W) >> 3); size_t k = 0; for (; k + 8 <= n; k += 8) v[k >> 3] = 8; if (k < n) v[k >> 3] = (uint8_t)(n - k);
    return p;
}
static void give(void* q) {
    char* p = (char*)q; if (((uint64_t)p & 15) || *(size_t*)(p - 8) != 0xA110C) { if (running) die("release of something that is not an allocated block (or was released already); " + schedule_text()); return; }
    size_t n = *(size_t*)(p - 16); if (n) access(p, n, true); *(size_t*)(p - 8) = 0xF4EED;
    __real_memset(valid + ((p - W) >> 3), 254, (n + 7) / 8);
}
static void begin() {                                      // a fresh world
    for (int t = 0; t < MAXT; t++) { if (th[t].top) { memset(valid + ((arena_lo(t) - W) >> 3), 0, (th[t].top >> 3) + 8); } th[t].top = 0; th[t].st = RUN; th[t].held = 0; th[t].ws = 0; th[t].nested = 0; th[t].out = stdout; }
    team = 1; own_code = 0; cur = coop_cur = 0; region = -1; epoch++; nlocks = 0; failure.clear(); used = 0; ppos = 0; cut = false;
    globals.clear(); memset((void*)ext, 0, sizeof(Ext) * EXTN); if (tls_size) for (int t = 0; t < MAXT; t++) memcpy(th[t].tls, tls_init.data(), tls_size);
}
static void (*body_fn)(); static void (*team_fn)(void*); static void* team_data;
static void body_main() { body_fn(); running = false; void* junk; coop_switch(&junk, main_sp); abort(); }
static void prepare(int t, void (*f)()) { char* top = stack_lo(t) + stack_size(t) - 64; void** s = (void**)top; *--s = nullptr; *--s = (void*)f; for (int k = 0; k < 6; k++) *--s = nullptr; th[t].sp = s; coop_key[t] = s; }
static void ended() {
    th[cur].st = DONE; bool all = true; for (int t = 0; t < team; t++) if (th[t].st != DONE) all = false;
    if (all) { go(0); return; }
    point();
}
static void thread_main() { team_fn(team_data); ended(); abort(); }
static void parallel(void (*fn)(void*), void* data, unsigned nt) {
    if (team > 1 || th[cur].nested) { th[cur].nested++; fn(data); th[cur].nested--; return; }
    int T = nt ? (int)nt : want_team; if (T > MAXT) T = MAXT;
    region++; if ((size_t)region >= MAXREG) die("HARNESS: too many parallel regions");
    if (T <= 1) { th[0].nested++; fn(data); th[0].nested--; return; }
    where[region] = (void*)fn; team = T; epoch++; team_fn = fn; team_data = data; nlocks = 0; __real_memset((void*)ws, 0, sizeof ws);
    for (int t = 0; t < T; t++) { th[t].st = RUN; th[t].held = 0; th[t].ws = 0; th[t].nested = 0; if (t) prepare(t, thread_main); }
    first(); fn(data);
    th[0].st = DONE; bool all = true; for (int t = 1; t < T; t++) if (th[t].st != DONE) all = false;
    if (!all) point();                                     // comes back here when every thread has ended
    team = 1; epoch++; th[0].st = RUN;
}
static void run_body(void (*f)()) { begin(); body_fn = f; prepare(0, body_main); running = true; coop_switch(&main_sp, th[0].sp); running = false; }
static void on_crash(int sig) { std::string s = ex::fmt("signal %d; ", sig) + schedule_text() + "\n"; if (write(2, s.c_str(), s.size())) {} signal(sig, SIG_DFL); raise(sig); }
static void init() {
    static bool done = false; if (done) return; done = true;
    if (mmap(W, WORLD, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != W) ex::fail("no address space");
    shadow = (Sh*)mmap(nullptr, WORLD * sizeof(Sh), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    valid = (uint8_t*)mmap(nullptr, WORLD / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    ext = (Ext*)calloc(EXTN, sizeof(Ext)); pidx = (uint8_t*)malloc(MAXP); pcnt = (uint8_t*)malloc(MAXP);
    dl_iterate_phdr(phdr_cb, nullptr); if (tls_size) { tls_init.assign(tls_at, tls_at + tls_size); for (int t = 0; t < MAXT; t++) th[t].tls = (char*)malloc(tls_size); }
    static char alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK; for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL}) sigaction(s, &sa, nullptr);
    conf.resize(MAXREG); syncs.resize(MAXREG);
}
} // namespace coop

extern "C" {
using namespace coop;
// ---- memory
void* __wrap_malloc(size_t n) { return running && !own_code ? take(n) : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { if (!running || own_code) return __real_calloc(a, b); void* p = take(a * b); __real_memset(p, 0, a * b); return p; }
void __wrap_free(void* p) { if (!p) return; if (in_world(p)) give(p); else __real_free(p); }
void* __wrap_realloc(void* p, size_t n) {
    if (!p) return __wrap_malloc(n); if (!in_world(p)) return __real_realloc(p, n); if (!running) return nullptr;
    size_t o = *(size_t*)((char*)p - 16); void* q = take(n); access(p, o < n ? o : n, false); __real_memcpy(q, p, o < n ? o : n); give(p); return q;
}
void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { access(d, n, true); return __real_memset(d, c, n); }
void __real_qsort(void*, size_t, size_t, int (*)(const void*, const void*));
void __wrap_qsort(void* b, size_t n, size_t s, int (*f)(const void*, const void*)) { access(b, n * s, true); __real_qsort(b, n, s, f); access(b, n * s, true); }
// ---- accesses
#define COOP_ACC(k) void __tsan_read##k(void* p) { access(p, k, false); } void __tsan_write##k(void* p) { access(p, k, true); } \
    void __tsan_unaligned_read##k(void* p) { access(p, k, false); } void __tsan_unaligned_write##k(void* p) { access(p, k, true); } \
    void __tsan_volatile_read##k(void* p) { access(p, k, false); } void __tsan_volatile_write##k(void* p) { access(p, k, true); }
COOP_ACC(1) COOP_ACC(2) COOP_ACC(4) COOP_ACC(8) COOP_ACC(16)
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_vptr_update(void*, void*) {} void __tsan_vptr_read(void*) {}
void __tsan_read_range(void* p, size_t n) { access(p, n, false); } void __tsan_write_range(void* p, size_t n) { access(p, n, true); }
static void sync_point() { if (running && !own_code && !alone()) { syncs[(size_t)region] = 1; point(); } }
static void atomic_point(const volatile void* a, size_t n) { if (apps) access((const void*)a, n, true); else sync_point(); }   // among the threads of the program, one matters where they share it
#define COOP_AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T* a, int) { atomic_point(a, sizeof(T)); return *a; } \
    void __tsan_atomic##b##_store(volatile T* a, T v, int) { atomic_point(a, sizeof(T)); *a = v; } \
    T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { atomic_point(a, sizeof(T)); T o = *a; *a = v; return o; } \
    T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { atomic_point(a, sizeof(T)); T o = *a; *a = (T)(o + v); return o; } \
    T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { atomic_point(a, sizeof(T)); T o = *a; *a = (T)(o - v); return o; } \
    T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { atomic_point(a, sizeof(T)); T o = *a; *a = (T)(o & v); return o; } \
    T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { atomic_point(a, sizeof(T)); T o = *a; *a = (T)(o | v); return o; } \
    T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { atomic_point(a, sizeof(T)); T o = *a; *a = (T)(o ^ v); return o; } \
    T __tsan_atomic##b##_fetch_nand(volatile T* a, T v, int) { atomic_point(a, sizeof(T)); T o = *a; *a = (T)~(o & v); return o; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { atomic_point(a, sizeof(T)); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { atomic_point(a, sizeof(T)); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int, int) { atomic_point(a, sizeof(T)); T o = *a; if (o == c) *a = v; return o; }
COOP_AT(8, uint8_t) COOP_AT(16, uint16_t) COOP_AT(32, uint32_t) COOP_AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
// ---- omp
int omp_get_thread_num() { return team > 1 && !th[cur].nested ? cur : 0; }
int omp_get_num_threads() { return team > 1 && !th[cur].nested ? team : 1; }
int omp_get_max_threads() { return want_team; }
int omp_get_num_procs() { return want_team; }
int omp_get_thread_limit() { return MAXT; }
int omp_in_parallel() { return team > 1 && !apps; }
int omp_get_level() { return team > 1; }
int omp_get_dynamic() { return 0; } int omp_get_nested() { return 0; } int omp_get_cancellation() { return 0; } int omp_get_max_active_levels() { return 1; }
void omp_set_num_threads(int n) { if (running && n > 0) want_team = n > MAXT ? MAXT : n; }
void omp_set_dynamic(int) {} void omp_set_nested(int) {} void omp_set_max_active_levels(int) {}
double omp_get_wtime() { return 0; } double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void*) {} void omp_destroy_lock(void*) {}
void omp_set_lock(void* l) { acquire((uint64_t)l); } void omp_unset_lock(void* l) { release((uint64_t)l); }
int omp_test_lock(void* l) { if (alone()) return 1; sync_point(); int k = lock_id((uint64_t)l); if (lock_owner[k]) return 0; lock_owner[k] = (uint32_t)cur + 1; th[cur].held |= (uint16_t)(1 << k); return 1; }
void GOMP_parallel(void (*f)(void*), void* d, unsigned n, unsigned) { parallel(f, d, n); }
void GOMP_barrier() { barrier(); }
bool GOMP_cancellation_point(int) { return false; }
void GOMP_critical_start() { acquire(1); } void GOMP_critical_end() { release(1); }
void GOMP_critical_name_start(void** p) { acquire((uint64_t)p); } void GOMP_critical_name_end(void** p) { release((uint64_t)p); }
void GOMP_atomic_start() { acquire(2); } void GOMP_atomic_end() { release(2); }
bool GOMP_single_start() { if (serial()) return true; sync_point(); Ws& w = work(); if (w.single) return false; w.single = 1; return true; }
void* GOMP_single_copy_start() { if (serial()) return nullptr; sync_point(); Ws& w = work(); if (w.single) { barrier(); return w.copy; } w.single = 1; return nullptr; }
void GOMP_single_copy_end(void* d) { if (!serial()) { same_work().copy = d; barrier(); } }
static bool ws_next(Ws& w, unsigned long long* s, unsigned long long* e) {
    if (!serial()) sync_point(); bool some = w.up ? (long long)w.next < (long long)w.end : (long long)w.next > (long long)w.end; if (!some) return false;
    unsigned long long last = w.next + w.chunk * w.incr; if (w.up ? (long long)last > (long long)w.end : (long long)last < (long long)w.end) last = w.end;
    *s = w.next; *e = last; w.next = last; return true;
}
static void ws_set(Ws& w, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c) { if (!w.init) { w.init = true; w.next = s; w.end = e; w.incr = i; w.chunk = c ? c : 1; w.up = (long long)i > 0; } }
static bool ws_begin(unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) { Ws& w = work(); ws_set(w, s, e, i, c); return ws_next(w, a, b); }
static bool ws_more(unsigned long long* a, unsigned long long* b) { return ws_next(same_work(), a, b); }
// a combined parallel loop: the first descriptor of the region is set before the threads start
struct Pl { void (*f)(void*); void* d; unsigned long long s, e, i, c; unsigned sec; };
static void pl_main(void* p) { Pl& l = *(Pl*)p; if (serial()) th[cur].own = Ws(); else th[cur].ws = 1; Ws& w = same_work(); ws_set(w, l.s, l.e, l.i, l.c); if (l.sec && !w.nsec) { w.nsec = l.sec; w.sec = 1; } l.f(l.d); }
static void parallel_loop(void (*f)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned sec = 0) { Pl l = {f, d, (unsigned long long)s, (unsigned long long)e, (unsigned long long)i, (unsigned long long)c, sec}; parallel(pl_main, &l, n); }
#define COOP_LOOP(kind) \
    bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long* a, long* b) { return ws_begin((unsigned long long)s, (unsigned long long)e, (unsigned long long)i, (unsigned long long)c, (unsigned long long*)a, (unsigned long long*)b); } \
    bool GOMP_loop_##kind##_next(long* a, long* b) { return ws_more((unsigned long long*)a, (unsigned long long*)b); } \
    bool GOMP_loop_ull_##kind##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) { return ws_begin(s, e, i, c, a, b); } \
    bool GOMP_loop_ull_##kind##_next(unsigned long long* a, unsigned long long* b) { return ws_more(a, b); } \
    void GOMP_parallel_loop_##kind(void (*f)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { parallel_loop(f, d, n, s, e, i, c); }
#define COOP_LOOP_RT(kind) \
    bool GOMP_loop_##kind##_start(long s, long e, long i, long* a, long* b) { return ws_begin((unsigned long long)s, (unsigned long long)e, (unsigned long long)i, 1, (unsigned long long*)a, (unsigned long long*)b); } \
    bool GOMP_loop_##kind##_next(long* a, long* b) { return ws_more((unsigned long long*)a, (unsigned long long*)b); } \
    bool GOMP_loop_ull_##kind##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long* a, unsigned long long* b) { return ws_begin(s, e, i, 1, a, b); } \
    bool GOMP_loop_ull_##kind##_next(unsigned long long* a, unsigned long long* b) { return ws_more(a, b); } \
    void GOMP_parallel_loop_##kind(void (*f)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { parallel_loop(f, d, n, s, e, i, 1); }
COOP_LOOP(static) COOP_LOOP(dynamic) COOP_LOOP(guided) COOP_LOOP(nonmonotonic_dynamic) COOP_LOOP(nonmonotonic_guided)
COOP_LOOP_RT(runtime) COOP_LOOP_RT(nonmonotonic_runtime) COOP_LOOP_RT(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { barrier(); } void GOMP_loop_end_nowait() {}
static unsigned sec_next(Ws& w) { if (!serial()) sync_point(); if (w.sec > w.nsec) return 0; return w.sec++; }
unsigned GOMP_sections_start(unsigned n) { Ws& w = work(); if (!w.init) { w.init = true; w.nsec = n; w.sec = 1; } return sec_next(w); }
unsigned GOMP_sections_next() { return sec_next(same_work()); }
void GOMP_parallel_sections(void (*f)(void*), void* d, unsigned n, unsigned c, unsigned) { parallel_loop(f, d, n, 0, 0, 1, 1, c); }
void GOMP_sections_end() { barrier(); } void GOMP_sections_end_nowait() {}
void GOMP_task(void (*f)(void*), void* d, void (*cp)(void*, void*), long sz, long al, bool, unsigned, void**, int, void*) {
    if (!serial()) sync_point(); char* b = (char*)alloca((size_t)(sz + al + 16)); b = (char*)(((uint64_t)b + (uint64_t)(al ? al : 1) - 1) / (uint64_t)(al ? al : 1) * (uint64_t)(al ? al : 1));
    if (cp) cp(b, d); else if (sz) __real_memcpy(b, d, (size_t)sz); f(sz ? b : (char*)d);
}
void GOMP_taskwait() {} void GOMP_taskyield() { sync_point(); } void GOMP_taskgroup_start() {} void GOMP_taskgroup_end() {}
}
void* operator new(size_t n) { void* p = running && !own_code ? take(n) : __real_malloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
