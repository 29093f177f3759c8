// C20 array list, C21 set, C22 hash table, C23 linked list: every operation
// history up to a depth, against a plain sequence / sorted set / map / deque.
#include "sut.hpp"
#include "values.hpp"
#include <deque>
extern "C" {
#include "collections/list.h"
#include "collections/set.h"
#include "collections/hashtable.h"
#include "collections/linkedlist.h"
}
using ex::Ctx; using ex::Family; using ex::fail; using ex::fmt;
#ifndef PROP
#define PROP 20
#endif

// ---- element types. token t in 0..tmax maps to a value, strictly increasing in t
struct Rec { int32_t key; unsigned char pay[20]; };
static int32_t rec_compare(const void* a, const void* b) { int32_t x = ((const Rec*)a)->key, y = ((const Rec*)b)->key; return x < y ? -7 : x > y ? 5 : 0; }
struct Rec3 { unsigned char hi, lo, pay; };
static int32_t rec3_compare(const void* a, const void* b) { const Rec3 *x = (const Rec3*)a, *y = (const Rec3*)b; int u = x->hi * 256 + x->lo, v = y->hi * 256 + y->lo; return u < v ? -1 : u > v; }
static int objs[512];
struct Type {
    const char* name; size_t step; int32_t (*cmp)(const void*, const void*); long tmax; int kind; int htype;
    void enc(long t, void* o) const {
        switch (kind) {
            case 0: { int32_t v = t == 0 ? INT32_MIN : t == tmax ? INT32_MAX : (int32_t)((t - 2) * 1000003); memcpy(o, &v, 4); break; }
            case 1: { short v = t == 0 ? SHRT_MIN : (short)(t - 3); memcpy(o, &v, 2); break; }
            case 2: { char v = (char)(t - 5); memcpy(o, &v, 1); break; }
            case 3: { long v = t == 0 ? LONG_MIN : t == tmax ? LONG_MAX : (t - 2) * 10000000019L; memcpy(o, &v, 8); break; }
            case 4: { double v = t == 0 ? -1e308 : t == 1 ? -1.25 : (double)(t - 2) * 0.375; memcpy(o, &v, 8); break; }
            case 5: { float v = t == 0 ? -3e38f : t == 1 ? -1.25f : (float)(t - 2) * 0.375f; memcpy(o, &v, 4); break; }
            case 6: { Rec r; memset(&r, 0, sizeof r); r.key = (int32_t)(t - 2) * 65537; for (int i = 0; i < 20; i++) r.pay[i] = (unsigned char)(t * 7 + i * 13 + (t >> 8)); memcpy(o, &r, sizeof r); break; }
            case 7: { Rec3 r; r.hi = (unsigned char)(t >> 8); r.lo = (unsigned char)t; r.pay = (unsigned char)(t * 31 + 5); memcpy(o, &r, 3); break; }
            case 8: { int* p = &objs[t % 512]; memcpy(o, &p, sizeof p); break; }
        }
    }
    bool eq(long t, const void* p) const { char b[64]; enc(t, b); return memcmp(b, p, step) == 0; }
};
static const std::vector<Type> TYPES = {
    {"int", 4, int_compare, 1000, 0, H_INT}, {"short", 2, short_compare, 1000, 1, H_SHORT}, {"char", 1, char_compare, 120, 2, H_CHAR},
    {"long", 8, long_compare, 1000, 3, H_LONG}, {"double", 8, double_compare, 1000, 4, H_DOUBLE}, {"float", 4, float_compare, 1000, 5, H_FLOAT},
    {"record(24)", sizeof(Rec), rec_compare, 1000, 6, -1}, {"record(3)", 3, rec3_compare, 1000, 7, -1}, {"pointer", sizeof(void*), ptr_compare, 500, 8, H_PTR}};

// a buffer of exactly step bytes, so that reading or writing past it is caught
struct Buf { void* p; size_t n; Buf(size_t n_) : p(malloc(n_ ? n_ : 1)), n(n_) { memset(p, 0x5a, n); } ~Buf() { free(p); } bool untouched() const { for (size_t i = 0; i < n; i++) if (((unsigned char*)p)[i] != 0x5a) return false; return true; } Buf(const Buf&) = delete; };

struct Word { std::vector<int> op; };
static Word word(uint64_t i, unsigned alphabet, unsigned depth) { Word w; for (unsigned k = 0; k < depth; k++) { w.op.push_back((int)(i % alphabet)); i /= alphabet; } return w; }
static std::string ops_str(const std::vector<int>& v, const char* const* names) { std::string s; for (size_t k = 0; k < v.size() && k < 60; k++) { if (k) s += ", "; s += names[v[k]]; } if (v.size() > 60) s += ", ..."; return s; }

// ------------------------------------------------------------------ array list
static const char* LOPS[] = {"append(1)", "append(3)", "append(fresh)", "insert_at(0,fresh)", "insert_at(mid,1)", "insert_at(size,fresh)", "insert_at(size+1)!", "insert_at(MAX)!", "replace_at(0,2)", "replace_at(last,fresh)", "replace_at(size)!", "remove_at(0)", "remove_at(mid)", "remove_at(last)", "remove_at(size)!", "remove(1)", "remove(absent)", "pop", "clear(keep)", "clear(shrink)", "sort", "append x3"};
static const unsigned NL = 22;
static void list_run(Ctx& c, const Type& T, size_t init, const std::vector<int>& w, bool ptrinit = false) {
    sut::track_reset();
    ArrayList* l; { sut::In in; l = ptrinit ? ptr_array_list_init(init, T.cmp) : array_list_init(init, T.step, T.cmp); }
    if (!l) fail("list not created");
    std::vector<long> m; long fresh = 10; Buf b(T.step);
    uint64_t h = ex::hbytes(T.name, strlen(T.name), init);
    auto nxt = [&]() { fresh++; if (fresh > T.tmax - 1) fresh = 10; return fresh; };
    auto add = [&](size_t pos, long t, bool append) { T.enc(t, b.p); int32_t r; { sut::In in; r = append ? array_list_append(l, b.p) : array_list_insert_at(l, b.p, pos); }
        if (r != 1) fail("adding at %zu of %zu returned %d", pos, m.size(), r); if (!T.eq(t, b.p)) fail("adding changed the caller's element"); m.insert(m.begin() + (long)pos, t); };
    for (size_t s = 0; s < w.size(); s++) {
        int32_t r; size_t n = m.size(); bool mustkeep = false; memset(b.p, 0x5a, T.step);
        switch (w[s]) {
            case 0: add(n, 1, true); break; case 1: add(n, 3, true); break; case 2: add(n, nxt(), true); break;
            case 3: add(0, nxt(), false); break; case 4: add(n / 2, 1, false); break; case 5: add(n, nxt(), false); break;
            case 6: case 7: T.enc(2, b.p); { sut::In in; r = array_list_insert_at(l, b.p, w[s] == 6 ? n + 1 : SIZE_MAX); } if (r > 0) fail("inserting past the end returned %d", r); break;
            case 8: case 9: case 10: { long t = w[s] == 8 ? 2 : nxt(); size_t p = w[s] == 8 ? 0 : w[s] == 9 ? (n ? n - 1 : 0) : n; T.enc(t, b.p); { sut::In in; r = array_list_replace_at(l, b.p, p); }
                if (p < n) { if (r != 1) fail("replace_at(%zu) of %zu returned %d", p, n, r); m[p] = t; } else if (r > 0) fail("replace_at(%zu) of %zu returned %d", p, n, r); break; }
            case 11: case 12: case 13: case 14: { size_t p = w[s] == 11 ? 0 : w[s] == 12 ? n / 2 : w[s] == 13 ? (n ? n - 1 : 0) : n; { sut::In in; r = array_list_remove_at(l, p, b.p); }
                if (p < n) { if (r != 1) fail("remove_at(%zu) of %zu returned %d", p, n, r); if (!T.eq(m[p], b.p)) fail("remove_at(%zu) handed back another element", p); m.erase(m.begin() + (long)p); }
                else { if (r > 0) fail("remove_at(%zu) of %zu returned %d", p, n, r); mustkeep = true; } break; }
            case 15: case 16: { long t = w[s] == 15 ? 1 : 5; T.enc(t, b.p); { sut::In in; r = array_list_remove(l, b.p); }
                size_t p = 0; while (p < n && m[p] != t) p++;
                if (p < n) { if (r != 1) fail("remove of a present element returned %d", r); if (!T.eq(t, b.p)) fail("remove handed back another element"); m.erase(m.begin() + (long)p); }
                else if (r > 0) fail("remove of an absent element returned %d", r); break; }
            case 17: { sut::In in; r = array_list_pop(l, b.p); } if (n) { if (r != 1) fail("pop returned %d", r); if (!T.eq(m.back(), b.p)) fail("pop handed back another element"); m.pop_back(); } else { if (r > 0) fail("pop of an empty list returned %d", r); mustkeep = true; } break;
            case 18: case 19: { sut::In in; array_list_clear(l, w[s] == 19); } m.clear(); break;
            case 20: { sut::In in; array_list_sort(l); } std::sort(m.begin(), m.end()); break;
            case 21: for (int k = 0; k < 3; k++) add(m.size(), nxt(), true); break;
        }
        if (mustkeep && !b.untouched()) fail("a rejected call wrote to the caller's element");
        // full observation
        n = m.size();
        if (array_list_size(l) != n) fail("after step %zu (%s): size %zu, expected %zu", s, LOPS[w[s]], array_list_size(l), n);
        if ((array_list_empty(l) != 0) != (n == 0)) fail("after step %zu: empty() is %d with %zu elements", s, array_list_empty(l), n);
        for (size_t i = 0; i < n; i++) { memset(b.p, 0x5a, T.step); if (array_list_value_at(l, i, b.p) != 1 || !T.eq(m[i], b.p)) fail("after step %zu (%s): element %zu of %zu differs from the model", s, LOPS[w[s]], i, n); h = ex::mix(h, (uint64_t)m[i]); }
        memset(b.p, 0x5a, T.step);
        for (size_t q : {n, n + 1, SIZE_MAX, SIZE_MAX / 2 + 1}) if (array_list_value_at(l, q, b.p) > 0 || !b.untouched()) fail("value_at(%zu) of %zu elements succeeded", q, n);
        bool sorted = std::is_sorted(m.begin(), m.end());
        for (long t : {0L, 1L, 2L, 3L, 5L, 11L, 13L}) {
            T.enc(t, b.p); int64_t f = array_list_find(l, b.p, 0); int64_t e = -1; for (size_t i = 0; i < n; i++) if (m[i] == t) { e = (int64_t)i; break; }
            if (f != e) fail("after step %zu: find gives %ld, first occurrence is %ld", s, (long)f, (long)e);
            if (sorted) { f = array_list_find(l, b.p, 1); if (e < 0 ? f >= 0 : (f < 0 || f >= (int64_t)n || m[(size_t)f] != t)) fail("after step %zu: sorted find gives %ld, expected a position holding the value (first is %ld)", s, (long)f, (long)e); }
        }
        c.trans(); c.state(h);
    }
    { sut::In in; if (array_list_delete(l) != NULL) fail("delete did not return NULL"); }
    if (sut::live()) fail("%zu allocations not released by delete", sut::live());
    c.trace();
}
static void list_families(std::vector<Family>& v, bool th) {
    auto add = [&](const Type& T, size_t init, unsigned depth, bool ptrinit = false) {
        Family f; f.name = fmt("list %s initial=%zu depth=%u%s", T.name, init, depth, ptrinit ? " (pointer list)" : ""); f.count = 1; for (unsigned k = 0; k < depth; k++) f.count *= NL;
        f.run = [=](Ctx& c, uint64_t i) { list_run(c, T, init, word(i, NL, depth).op, ptrinit); };
        f.desc = [=](uint64_t i) { return fmt("%s list, initial capacity %zu: ", T.name, init) + ops_str(word(i, NL, depth).op, LOPS); };
        v.push_back(f); };
    for (auto& T : TYPES) for (size_t init : {1, 2, 5}) if (th || init != 5 || T.kind == 0) add(T, init, th ? 4 : T.kind == 0 || T.kind == 6 ? 4 : 3);
    add(TYPES[8], 2, 3, true);
    add(TYPES[0], 1, 5); if (th) add(TYPES[6], 2, 5), add(TYPES[2], 1, 5), add(TYPES[3], 3, 5);
    // long periodic histories crossing many capacities
    for (unsigned per = 1; per <= (th ? 3u : 2u); per++) for (size_t ti : {0, 2, 6, 7}) for (size_t init : {1, 3}) {
        const Type& T = TYPES[ti]; unsigned reps = per == 3 ? 14 : 30; Family f; f.name = fmt("list %s initial=%zu period=%u x%u", T.name, init, per, reps); f.count = 1; for (unsigned k = 0; k < per; k++) f.count *= NL;
        auto mk = [=](uint64_t i) { std::vector<int> w, p = word(i, NL, per).op; for (unsigned r = 0; r < reps; r++) w.insert(w.end(), p.begin(), p.end()); return w; };
        f.run = [=](Ctx& c, uint64_t i) { list_run(c, T, init, mk(i)); };
        f.desc = [=](uint64_t i) { return fmt("%s list, initial capacity %zu, repeated: ", T.name, init) + ops_str(word(i, NL, per).op, LOPS); };
        v.push_back(f); }
    // fill to every size up to N, then one operation at every position
    for (size_t ti : {0, 6, 7}) { const Type& T = TYPES[ti]; unsigned N = th ? 140 : 70; Family f; f.name = fmt("list %s fill to 0..%u, insert and remove at every position", T.name, N - 1); f.count = N * 3;
        f.run = [=](Ctx& c, uint64_t i) {
            size_t n = i / 3, init = i % 3 == 0 ? 1 : i % 3 == 1 ? 3 : 64; Buf b(T.step);
            for (size_t pos = 0; pos <= n; pos++) {
                sut::track_reset(); ArrayList* l; { sut::In in; l = array_list_init(init, T.step, T.cmp); for (size_t k = 0; k < n; k++) { T.enc((long)k + 2, b.p); array_list_append(l, b.p); } }
                T.enc(500, b.p); int r; { sut::In in; r = array_list_insert_at(l, b.p, pos); } if (r != 1) fail("insert_at(%zu) of %zu returned %d", pos, n, r);
                for (size_t k = 0; k <= n; k++) { array_list_value_at(l, k, b.p); long e = k < pos ? (long)k + 2 : k == pos ? 500 : (long)k + 1; if (!T.eq(e, b.p)) fail("after insert_at(%zu) of %zu element %zu is wrong", pos, n, k); }
                { sut::In in; r = array_list_remove_at(l, pos, b.p); } if (r != 1 || !T.eq(500, b.p)) fail("remove_at(%zu) is wrong", pos);
                if (array_list_size(l) != n) fail("size is %zu, not %zu", array_list_size(l), n);
                for (size_t k = 0; k < n; k++) { array_list_value_at(l, k, b.p); if (!T.eq((long)k + 2, b.p)) fail("after remove_at(%zu) of %zu element %zu is wrong", pos, n + 1, k); }
                for (size_t k = 0; k < n; k++) { T.enc((long)k + 2, b.p); if (array_list_find(l, b.p, 1) != (int64_t)k || array_list_find(l, b.p, 0) != (int64_t)k) fail("element %zu of %zu is not found", k, n); }
                { sut::In in; array_list_delete(l); } if (sut::live()) fail("%zu allocations not released", sut::live());
                c.trans(n + 2); }
            c.state(ex::mix(n, init)); c.trace(); };
        f.desc = [=](uint64_t i) { return fmt("%lu elements, variant %lu", (unsigned long)(i / 3), (unsigned long)(i % 3)); };
        v.push_back(f); }
}

// ---- sizes around the limits of narrow integers: element k is a key of 4 bytes and a payload
static const std::vector<size_t> BIGN = {127, 128, 129, 255, 256, 257, 511, 513, 1000, 32767, 32769, 65535, 65536, 65537, 70000};
static void el(int32_t key, size_t step, void* o) { memcpy(o, &key, 4); for (size_t q = 4; q < step; q++) ((unsigned char*)o)[q] = (unsigned char)((uint32_t)key * 31 + (uint32_t)key / 256 + q); }
static bool isel(int32_t key, size_t step, const void* o) { unsigned char b[32]; el(key, step, b); return memcmp(b, o, step) == 0; }
static void big_list(std::vector<Family>& v) {
    static const size_t ST[] = {4, 8, 24}; Family f; f.name = fmt("list: %zu sizes up to 70000, 3 element sizes, 2 initial capacities", BIGN.size()); f.count = BIGN.size() * 6;
    f.run = [=](Ctx& c, uint64_t i) { size_t st = ST[i % 3], init = i / 3 % 2 ? 1 : 100, n = BIGN[i / 6]; sut::track_reset(); Buf b(st); ArrayList* l; { sut::In in; l = array_list_init(init, st, int_compare); }
        std::vector<int32_t> m; auto all = [&](const char* what) { if (array_list_size(l) != m.size()) fail("%s: size %zu, expected %zu", what, array_list_size(l), m.size()); for (size_t k = 0; k < m.size(); k++) if (array_list_value_at(l, k, b.p) != 1 || !isel(m[k], st, b.p)) fail("%s: element %zu of %zu differs", what, k, m.size()); c.trans(); };
        for (size_t k = 0; k < n; k++) { el((int32_t)k * 3, st, b.p); int r; { sut::In in; r = array_list_append(l, b.p); } if (r != 1) fail("append %zu returned %d", k, r); m.push_back((int32_t)k * 3); } all("append");
        for (size_t k : {(size_t)0, n / 2, n - 1, (size_t)126, (size_t)254, (size_t)255, (size_t)256, (size_t)65534, (size_t)65535, (size_t)65536}) if (k < n) { el((int32_t)k * 3, st, b.p); if (array_list_find(l, b.p, 1) != (int64_t)k || array_list_find(l, b.p, 0) != (int64_t)k) fail("element %zu is not found there", k); el((int32_t)k * 3 + 1, st, b.p); if (array_list_find(l, b.p, 1) >= 0 || array_list_find(l, b.p, 0) >= 0) fail("an absent element is found"); }
        for (size_t k : {(size_t)0, n / 2, n, (size_t)127, (size_t)255, (size_t)65535}) if (k <= n) { el(-5 - (int32_t)k, st, b.p); int r; { sut::In in; r = array_list_insert_at(l, b.p, k); } if (r != 1) fail("insert_at(%zu) returned %d", k, r); m.insert(m.begin() + (long)k, -5 - (int32_t)k); } all("insert_at");
        for (size_t k : {m.size() - 1, m.size() / 3, (size_t)0}) { el(-100000, st, b.p); int r; { sut::In in; r = array_list_replace_at(l, b.p, k); } if (r != 1) fail("replace_at(%zu) returned %d", k, r); m[k] = -100000; int32_t e = m[m.size() / 2]; { sut::In in; r = array_list_remove_at(l, m.size() / 2, b.p); } if (r != 1 || !isel(e, st, b.p)) fail("remove_at(%zu) of %zu is wrong", m.size() / 2, m.size()); m.erase(m.begin() + (long)(m.size() / 2)); } all("remove_at");
        { int32_t e = m.back(); int r; { sut::In in; r = array_list_pop(l, b.p); } if (r != 1 || !isel(e, st, b.p)) fail("pop is wrong"); m.pop_back(); e = m[m.size() - 2]; el(e, st, b.p); size_t at = (size_t)(std::find(m.begin(), m.end(), e) - m.begin()); { sut::In in; r = array_list_remove(l, b.p); } if (r != 1 || !isel(e, st, b.p)) fail("remove returned %d", r); m.erase(m.begin() + (long)at); } all("remove");
        { sut::In in; array_list_sort(l); } std::sort(m.begin(), m.end()); all("sort"); { sut::In in; array_list_clear(l, i % 2 ? 1 : 0); } m.clear(); all("clear"); for (int32_t k = 0; k < 40; k++) { el(k, st, b.p); { sut::In in; array_list_append(l, b.p); } m.push_back(k); } all("append after clear");
        { sut::In in; array_list_delete(l); } if (sut::live()) fail("%zu allocations not released", sut::live()); c.state(i); c.trace(); };
    f.desc = [=](uint64_t i) { return fmt("%zu elements of %zu bytes", BIGN[i / 6], ST[i % 3]); }; v.push_back(f);
}
static void big_set(std::vector<Family>& v) {
    Family f; f.name = fmt("set: %zu sizes up to 70000, 4 insertion orders", BIGN.size()); f.count = BIGN.size() * 4;
    f.run = [=](Ctx& c, uint64_t i) { size_t n = BIGN[i / 4], o = i % 4, st = o == 2 ? 24 : 4; sut::track_reset(); Buf b(st); set_t* s; { sut::In in; s = set_init(st, int_compare); }
        auto key = [&](size_t k) { return (int32_t)(o == 0 ? k : o == 1 ? n - 1 - k : k * 70001 % n) * 2; }; std::vector<char> has(n, 0); size_t cnt = 0;
        for (size_t k = 0; k < n; k++) { int32_t x = key(k); el(x, st, b.p); int r; { sut::In in; r = set_insert(s, b.p); } bool nw = !has[(size_t)x / 2]; if (r != (nw ? 1 : 0)) fail("inserting %d as number %zu returned %d", x, k, r); cnt += nw; has[(size_t)x / 2] = 1; if (set_size(s) != cnt) fail("size %zu of %zu", set_size(s), cnt); }
        auto all = [&](const char* what) { size_t p = 0; for (size_t k = 0; k < n; k++) if (has[k]) { if (set_value_at(s, p, b.p) != 1 || !isel((int32_t)k * 2, st, b.p)) fail("%s: position %zu of %zu is wrong", what, p, cnt); el((int32_t)k * 2, st, b.p); if (set_find(s, b.p) != (int64_t)p) fail("%s: the value at position %zu is not found there", what, p); p++; } else { el((int32_t)k * 2, st, b.p); if (set_find(s, b.p) >= 0) fail("%s: an absent value is found", what); } if (set_size(s) != p) fail("%s: size %zu, expected %zu", what, set_size(s), p); el(1, st, b.p); if (set_find(s, b.p) >= 0) fail("%s: an absent value is found", what); c.trans(); };
        all("insert"); for (size_t k = 0; k < n; k += k < 200 ? 1 : n / 97 + 1) { int32_t x = key(n - 1 - k); el(x, st, b.p); int r; { sut::In in; r = set_remove(s, b.p); } bool h = has[(size_t)x / 2]; if ((r == 1) != h) fail("removing %d returned %d", x, r); cnt -= h; has[(size_t)x / 2] = 0; } all("remove");
        while (cnt > n / 2 && cnt > 0 && cnt + 40 > n / 2) { size_t p = cnt / 2, q = 0, k = 0; for (k = 0; k < n; k++) if (has[k] && q++ == p) break; int r; { sut::In in; r = set_remove_at(s, p, b.p); } if (r != 1 || !isel((int32_t)k * 2, st, b.p)) fail("remove_at(%zu) of %zu is wrong", p, cnt); has[k] = 0; if (--cnt % 3 == 0) break; } all("remove_at");
        { sut::In in; set_delete(s); } if (sut::live()) fail("%zu allocations not released", sut::live()); c.state(i); c.trace(); };
    f.desc = [=](uint64_t i) { return fmt("%zu values, order %d", BIGN[i / 4], (int)(i % 4)); }; v.push_back(f);
}
static void big_deque(std::vector<Family>& v) {
    Family f; f.name = fmt("deque: %zu sizes up to 70000, added at the front, at the tail, alternately", BIGN.size()); f.count = BIGN.size() * 3;
    f.run = [=](Ctx& c, uint64_t i) { size_t n = BIGN[i / 3]; int o = (int)(i % 3); sut::track_reset(); Buf b(4); linkedlist* l; { sut::In in; l = linkedlist_init(4); } std::deque<int32_t> m;
        for (size_t k = 0; k < n; k++) { int32_t x = (int32_t)k * 3; el(x, 4, b.p); bool fr = o == 0 || (o == 2 && k % 2); int r; { sut::In in; r = fr ? linkedlist_front_add(l, b.p) : linkedlist_tail_add(l, b.p); } if (r != 1) fail("adding element %zu returned %d", k, r); if (fr) m.push_front(x); else m.push_back(x); }
        auto all = [&](const char* what) { if (l->size != (int32_t)m.size()) fail("%s: size %d, expected %zu", what, l->size, m.size()); node* q = l->head; for (auto x : m) { if (!q || !isel(x, 4, q->data)) fail("%s: the forward chain is wrong", what); q = q->next; } if (q) fail("%s: the forward chain is too long", what); q = l->tail; for (auto z = m.rbegin(); z != m.rend(); ++z) { if (!q || !isel(*z, 4, q->data)) fail("%s: the backward chain is wrong", what); q = q->prev; } if (q) fail("%s: the backward chain is too long", what);
            for (size_t k : {(size_t)0, m.size() / 2, m.size() - 1, (size_t)127, (size_t)128, (size_t)255, (size_t)256, (size_t)32768, (size_t)65535, (size_t)65536}) if (k < m.size()) { if (linkedlist_value_at(l, (int32_t)k, b.p) != (int32_t)k || !isel(m[k], 4, b.p)) fail("%s: value_at(%zu) is wrong", what, k); } c.trans(); };
        all("add"); for (size_t k : {m.size() - 1, m.size() / 2, (size_t)0, m.size() - 9}) { int32_t x = m[k]; el(x, 4, b.p); int r; { sut::In in; r = linkedlist_remove(l, b.p, int_compare); } if (r != 1) fail("remove returned %d", r); m.erase(m.begin() + (long)k); } all("remove");
        { sut::In in; if (o == 1) linkedlist_clear(l); linkedlist_delete(l); } if (sut::live()) fail("%zu allocations not released", sut::live()); c.state(i); c.trace(); };
    f.desc = [=](uint64_t i) { return fmt("%zu elements, variant %d", BIGN[i / 3], (int)(i % 3)); }; v.push_back(f);
}

// ------------------------------------------------------------------ set
static const char* SOPS[] = {"insert 2", "insert 0", "insert 4", "insert 1", "insert 6", "insert 8", "remove 2", "remove 0", "remove 6", "remove 5", "remove_at 0", "remove_at last", "remove_at size!", "clear", "sort"};
static const unsigned NS = 15;
static void set_observe(set_t* s, const Type& T, const std::vector<long>& m, Buf& b, size_t step, long probe_max) {
    size_t n = m.size();
    if (set_size(s) != n) fail("step %zu: size %zu, expected %zu", step, set_size(s), n);
    if ((set_empty(s) != 0) != (n == 0)) fail("step %zu: empty() is %d with %zu elements", step, set_empty(s), n);
    for (size_t i = 0; i < n; i++) { memset(b.p, 0x5a, T.step); if (set_value_at(s, i, b.p) != 1 || !T.eq(m[i], b.p)) fail("step %zu: element %zu of %zu differs from the sorted model", step, i, n); }
    memset(b.p, 0x5a, T.step); if (set_value_at(s, n, b.p) > 0 || set_value_at(s, SIZE_MAX, b.p) > 0 || !b.untouched()) fail("step %zu: value_at past the end succeeded", step);
    for (long t = 0; t <= probe_max; t++) { T.enc(t, b.p); auto it = std::lower_bound(m.begin(), m.end(), t); int64_t e = it != m.end() && *it == t ? it - m.begin() : -1, f = set_find(s, b.p); if (e < 0 ? f >= 0 : f != e) fail("step %zu: find(%ld) gives %ld, expected %ld", step, t, (long)f, (long)e); }
}
static void set_do(set_t* s, const Type& T, std::vector<long>& m, Buf& b, long t, bool ins) {
    T.enc(t, b.p); int r; { sut::In in; r = ins ? set_insert(s, b.p) : set_remove(s, b.p); }
    auto it = std::lower_bound(m.begin(), m.end(), t); bool has = it != m.end() && *it == t;
    if (ins) { if (has ? r != 0 : r != 1) fail("insert of a%s value returned %d", has ? "n existing" : " new", r); if (!has) m.insert(it, t); }
    else { if (has ? r != 1 : r > 0) fail("remove of a%s value returned %d", has ? " present" : "n absent", r); if (has) m.erase(it); if (!T.eq(t, b.p)) fail("remove changed the caller's element"); }
}
static void set_run(Ctx& c, const Type& T, const std::vector<int>& w) {
    sut::track_reset(); set_t* s; { sut::In in; s = set_init(T.step, T.cmp); } if (!s) fail("set not created");
    std::vector<long> m; Buf b(T.step); static const long IV[] = {2, 0, 4, 1, 6, 8}, RV[] = {2, 0, 6, 5}; uint64_t h = ex::hbytes(T.name, strlen(T.name));
    for (size_t k = 0; k < w.size(); k++) {
        int o = w[k]; size_t n = m.size(); int r;
        if (o < 6) set_do(s, T, m, b, IV[o], true);
        else if (o < 10) set_do(s, T, m, b, RV[o - 6], false);
        else if (o < 13) { size_t p = o == 10 ? 0 : o == 11 ? (n ? n - 1 : 0) : n; memset(b.p, 0x5a, T.step); { sut::In in; r = set_remove_at(s, p, b.p); }
            if (p < n) { if (r != 1 || !T.eq(m[p], b.p)) fail("remove_at(%zu) of %zu is wrong", p, n); m.erase(m.begin() + (long)p); } else if (r > 0 || !b.untouched()) fail("remove_at(%zu) of %zu returned %d", p, n, r); }
        else if (o == 13) { sut::In in; set_clear(s); m.clear(); } else { sut::In in; set_sort(s); }
        set_observe(s, T, m, b, k, 9);
        uint64_t q = h; for (long t : m) q = ex::mix(q, (uint64_t)t); c.state(q); c.trans();
    }
    { sut::In in; if (set_delete(s) != NULL) fail("delete did not return NULL"); } if (sut::live()) fail("%zu allocations not released", sut::live()); c.trace();
}
static std::vector<int> perm(uint64_t i, unsigned n) { std::vector<int> a, r; for (unsigned k = 0; k < n; k++) a.push_back((int)k); for (unsigned k = n; k > 0; k--) { r.push_back(a[i % k]); a.erase(a.begin() + (long)(i % k)); i /= k; } return r; }
static uint64_t fact(unsigned n) { return n < 2 ? 1 : n * fact(n - 1); }
static void set_families(std::vector<Family>& v, bool th) {
    for (auto& T0 : TYPES) for (unsigned depth : {4u, 5u, 6u}) {
        const Type T = T0; if (depth == 6 && !(T.kind == 0 && th)) continue; if (depth == 5 && !(th || T.kind == 0 || T.kind == 6)) continue; if (depth == 4 && (th || T.kind == 0 || T.kind == 6)) continue;
        Family f; f.name = fmt("set %s depth=%u", T.name, depth); f.count = 1; for (unsigned k = 0; k < depth; k++) f.count *= NS;
        f.run = [=](Ctx& c, uint64_t i) { set_run(c, T, word(i, NS, depth).op); };
        f.desc = [=](uint64_t i) { return fmt("%s set: ", T.name) + ops_str(word(i, NS, depth).op, SOPS); }; v.push_back(f); }
    // every insertion order, then every removal order
    for (unsigned n : {5u, 6u, 7u}) for (size_t ti : {0, 2, 7}) {
        if ((n == 7 && (!th || ti)) || (n == 6 && ti && !th)) continue; const Type T = TYPES[ti]; uint64_t rem = n == 7 ? 720 : fact(n);
        Family f; f.name = fmt("set %s: all insertion orders of %u values x %lu removal orders", T.name, n, (unsigned long)rem); f.count = fact(n) * rem;
        auto mk = [=](uint64_t i, std::vector<int>& a, std::vector<int>& r) { a = perm(i / rem, n); r = perm(i % rem, n); };
        f.run = [=](Ctx& c, uint64_t i) {
            std::vector<int> a, r; mk(i, a, r); sut::track_reset(); set_t* s; { sut::In in; s = set_init(T.step, T.cmp); } std::vector<long> m; Buf b(T.step); size_t k = 0;
            for (int x : a) { set_do(s, T, m, b, 2 * x + 1, true); set_do(s, T, m, b, 2 * x + 1, true); set_observe(s, T, m, b, k++, 2 * n + 1); c.trans(2); }
            for (int x : r) { set_do(s, T, m, b, 2 * x + 1, false); set_do(s, T, m, b, 2 * x + 1, false); set_observe(s, T, m, b, k++, 2 * n + 1); c.trans(2); uint64_t q = ti; for (long t : m) q = ex::mix(q, (uint64_t)t); c.state(q); }
            { sut::In in; set_delete(s); } if (sut::live()) fail("%zu allocations not released", sut::live()); c.trace(); };
        f.desc = [=](uint64_t i) { std::vector<int> a, r; mk(i, a, r); std::string s = "insert"; for (int x : a) s += fmt(" %d", 2 * x + 1); s += ", remove"; for (int x : r) s += fmt(" %d", 2 * x + 1); return s; }; v.push_back(f); }
    // large sets, in all stride orders
    for (size_t ti : {0, 2, 4, 6}) { const Type T = TYPES[ti]; unsigned N = T.kind == 2 ? 101 : 211; Family f; f.name = fmt("set %s: %u values in every stride order", T.name, N); f.count = th ? N - 1 : 40;
        f.run = [=](Ctx& c, uint64_t i) { sut::track_reset(); set_t* s; { sut::In in; s = set_init(T.step, T.cmp); } std::vector<long> m; Buf b(T.step); size_t st = i + 1;
            for (size_t k = 0; k < N; k++) { set_do(s, T, m, b, (long)(k * st % N), true); c.trans(); if (k % 16 == 0 || k + 2 > N) set_observe(s, T, m, b, k, N); }
            for (size_t k = 0; k < N; k++) { set_do(s, T, m, b, (long)(k * (st + 3) % N), false); c.trans(); if (k % 16 == 0) set_observe(s, T, m, b, N + k, N); }
            { sut::In in; set_delete(s); } if (sut::live()) fail("%zu allocations not released", sut::live()); c.state(ex::mix(i, ti)); c.trace(); };
        f.desc = [=](uint64_t i) { return fmt("stride %lu", (unsigned long)i + 1); }; v.push_back(f); }
}

// ------------------------------------------------------------------ hash table
static const char* HOPS[] = {"put k0", "put k1", "put k2", "put k3", "del k0", "del k1", "del k2", "del k3", "clear"};
static const unsigned NH = 9;
static std::vector<long> dkeys, dvals;         // pointers handed to the destructors
static void kdestroy(void* p) { sut::Out o; dkeys.push_back((long)p); }
static void vdestroy(void* p) { sut::Out o; dvals.push_back((long)p); }
static void hkey(int kt, int k, void* o) {
    switch (kt) {
        case H_INT: { static const int32_t t[] = {0, 37 * 3, -1, INT32_MIN, 74, 5, INT32_MAX}; memcpy(o, &t[k], 4); break; }
        case H_LONG: { static const long t[] = {0x1000, 0x1000 + 37L * 2 * 3 * 7, -5000000000L, LONG_MAX, 4, 5, 6}; memcpy(o, &t[k], 8); break; }
        case H_SHORT: { static const short t[] = {0, 111, -1, SHRT_MIN, 74, 5, 6}; memcpy(o, &t[k], 2); break; }
        case H_CHAR: { static const char t[] = {0, 74, -1, 37, 1, 5, 6}; memcpy(o, &t[k], 1); break; }
        case H_DOUBLE: { static const double t[] = {0.25, 0.5, 37.75, 1e15, 74, 5, 6}; memcpy(o, &t[k], 8); break; }
        default: { static const float t[] = {0.25f, 0.5f, 37.75f, 1e9f, 74, 5, 6}; memcpy(o, &t[k], 4); break; }
    }
}
static void hval(int vt, long v, void* o) {
    switch (vt) {
        case H_INT: { int32_t x = (int32_t)(v * 0x01020305L); memcpy(o, &x, 4); break; } case H_SHORT: { short x = (short)(v * 0x0103); memcpy(o, &x, 2); break; }
        case H_CHAR: { char x = (char)(v * 3 + 1); memcpy(o, &x, 1); break; } case H_DOUBLE: { double x = (double)v * 1.1; memcpy(o, &x, 8); break; }
        case H_FLOAT: { float x = (float)v * 1.1f; memcpy(o, &x, 4); break; } default: { long x = v * 0x0102030405060709L + 0x100; memcpy(o, &x, 8); break; }
    }
}
static size_t hsize(int t) { switch (t) { case H_INT: case H_FLOAT: return 4; case H_SHORT: return 2; case H_CHAR: return 1; default: return 8; } }
typedef int32_t (*Cmp)(const void*, const void*);
static Cmp hcmp(int t) { switch (t) { case H_INT: return int_compare; case H_LONG: return long_compare; case H_SHORT: return short_compare; case H_CHAR: return char_compare; case H_DOUBLE: return double_compare; default: return float_compare; } }
static const char* TN[] = {"int", "double", "float", "long", "short", "char", "string", "ptr"};
// buckets: b>0 exact count, b<=0 through hashtable_init(-b)
static void hash_run(Ctx& c, int kt, int vt, long bk, const std::vector<int>& w, bool destructors, unsigned nk) {
    sut::track_reset(); hashtable* t;
    { sut::In in; t = bk > 0 ? hashtable_init_size((size_t)bk, (HTYPES)kt, (HTYPES)vt, hcmp(kt)) : hashtable_init((size_t)-bk, (HTYPES)kt, (HTYPES)vt, hcmp(kt)); }
    if (!t) fail("table not created");
    std::map<int, long> m; long fresh = 1; size_t ks = hsize(kt), vs = hsize(vt); Buf kb(ks), vb(vs), eb(8); uint64_t h0 = ex::mix((uint64_t)(kt * 8 + vt), (uint64_t)bk);
    auto isv = [&](long v) { hval(vt, v, eb.p); return memcmp(eb.p, vb.p, vs) == 0; };
    auto keyof = [&](int k) { hkey(kt, k, kb.p); return kb.p; };
    auto put = [&](int k) {
        long v = fresh++; hval(vt, v, vb.p); int r; keyof(k); { sut::In in; r = hashtable_insert(t, kb.p, vb.p); }
        if (m.count(k)) { if (r != -1) fail("overwrite returned %d", r); if (!isv(m[k])) fail("overwrite did not hand back the complete previous value"); }
        else { if (r != 1) fail("insert returned %d", r); if (!isv(v)) fail("insert changed the caller's value"); }
        m[k] = v; };
    auto del = [&](int k) {
        memset(vb.p, 0x5a, vs); int r; keyof(k); { sut::In in; r = hashtable_remove(t, kb.p, vb.p); }
        if (m.count(k)) { if (r != 1) fail("remove returned %d", r); if (!isv(m[k])) fail("remove did not hand back the complete value"); m.erase(k); }
        else { if (r != 0) fail("remove of an absent key returned %d", r); if (!vb.untouched()) fail("remove of an absent key wrote a value"); } };
    auto expect_destroyed = [&]() {
        std::vector<long> ek, ev; for (auto& e : m) { long x = 0; hkey(kt, e.first, &x); if (x) ek.push_back(x); x = 0; hval(vt, e.second, &x); if (x) ev.push_back(x); }
        std::sort(ek.begin(), ek.end()); std::sort(ev.begin(), ev.end()); std::sort(dkeys.begin(), dkeys.end()); std::sort(dvals.begin(), dvals.end());
        if (ek != dkeys) fail("key destructor called for %zu keys instead of once for each of the %zu", dkeys.size(), ek.size());
        if (ev != dvals) fail("value destructor called for %zu values instead of once for each of the %zu", dvals.size(), ev.size()); };
    for (size_t s = 0; s < w.size(); s++) {
        int o = w[s];
        if (o < (int)nk) put(o); else if (o < 2 * (int)nk) del(o - (int)nk);
        else { dkeys.clear(); dvals.clear(); { sut::In in; hashtable_clear(t, destructors ? kdestroy : NULL, destructors ? vdestroy : NULL); } if (destructors) expect_destroyed(); m.clear(); }
        if (hashtable_size(t) != m.size()) fail("step %zu: size %zu, expected %zu", s, hashtable_size(t), m.size());
        if ((hashtable_empty(t) != 0) != m.empty()) fail("step %zu: empty() is %d with %zu keys", s, hashtable_empty(t), m.size());
        uint64_t h = h0;
        for (int k = 0; k < (int)nk + 1; k++) {
            memset(vb.p, 0x5a, vs); int r = hashtable_lookup(t, keyof(k), vb.p);
            if (m.count(k)) { if (r != 1 || !isv(m[k])) fail("step %zu: lookup of key %d returned %d%s", s, k, r, r == 1 ? " and another value" : ""); h = ex::mix(h, (uint64_t)(k + 1)); }
            else if (r != 0 || !vb.untouched()) fail("step %zu: lookup of absent key %d returned %d", s, k, r);
        }
        if (set_size(t->keys) != m.size()) fail("step %zu: %zu keys in the key set, expected %zu", s, set_size(t->keys), m.size());
        for (auto& e : m) { keyof(e.first); if (set_find(t->keys, kb.p) < 0) fail("step %zu: key %d is missing from the key set", s, e.first); }
        c.state(h); c.trans();
    }
    dkeys.clear(); dvals.clear();
    { sut::In in; if (hashtable_destroy(t, destructors ? kdestroy : NULL, destructors ? vdestroy : NULL) != 1) fail("destroy failed"); }
    if (destructors) expect_destroyed();
    if (sut::live()) fail("%zu allocations not released by destroy", sut::live());
    c.trace();
}
static void hash_families(std::vector<Family>& v, bool th) {
    auto add = [&](int kt, int vt, long bk, unsigned depth, bool d) {
        Family f; f.name = fmt("map %s->%s buckets=%ld depth=%u%s", TN[kt], TN[vt], bk, depth, d ? " destructors" : ""); f.count = 1; for (unsigned k = 0; k < depth; k++) f.count *= NH;
        f.run = [=](Ctx& c, uint64_t i) { hash_run(c, kt, vt, bk, word(i, NH, depth).op, d, 4); };
        f.desc = [=](uint64_t i) { return fmt("%s->%s table with %ld buckets%s: ", TN[kt], TN[vt], bk, d ? " and destructors" : "") + ops_str(word(i, NH, depth).op, HOPS); }; v.push_back(f); };
    int KT[] = {H_INT, H_LONG, H_SHORT, H_CHAR, H_DOUBLE, H_FLOAT}; int VT[] = {H_DOUBLE, H_CHAR, H_PTR, H_LONG, H_INT, H_SHORT};
    for (int k = 0; k < 6; k++) for (long bk : {1L, 2L, 37L, -1000L}) { add(KT[k], VT[k], bk, th ? 5 : 4, false); if (th) for (int q = 0; q < 6; q++) if (q != k) add(KT[k], VT[q], bk, 4, false); }
    for (int vt : {H_INT, H_DOUBLE, H_FLOAT, H_LONG, H_SHORT, H_CHAR, H_PTR}) add(H_INT, vt, 1, 4, false);
    for (long bk : {1L, 2L, 3L, 37L, -10L}) add(H_LONG, H_PTR, bk, th ? 5 : 4, true);
    add(H_INT, H_INT, 1, th ? 6 : 5, false); add(H_LONG, H_PTR, 2, 5, true);
    // chains of up to six colliding keys: every insertion order x every deletion order
    for (int kt : {H_INT, H_LONG}) for (long bk : {1L, 2L}) { unsigned n = 5; Family f; f.name = fmt("map %s: all insertion orders of %u keys x all deletion orders, buckets=%ld", TN[kt], n, bk); f.count = fact(n) * fact(n);
        auto mk = [=](uint64_t i) { std::vector<int> w = perm(i / fact(n), n), r = perm(i % fact(n), n); for (int x : r) w.push_back(x + (int)n); return w; };
        f.run = [=](Ctx& c, uint64_t i) { hash_run(c, kt, H_PTR, bk, mk(i), false, n); };
        f.desc = [=](uint64_t i) { std::string s; for (int x : mk(i)) s += fmt(x < (int)n ? "put k%d " : "del k%d ", x < (int)n ? x : x - (int)n); return s; }; v.push_back(f); }
    // every boundary value of the key type as a key, every small number of buckets
    auto edge = [&](const char* name, int kt, auto vals) { typedef typename decltype(vals)::value_type T; std::vector<T> K; for (T x : vals) { bool dupl = false; for (T y : K) if (x == y) dupl = true; if (!dupl) K.push_back(x); }
        Family f; unsigned NB = 70; f.name = fmt("map %s->long: %zu boundary keys, 1..%u buckets, inserted forwards and backwards", name, K.size(), NB); f.count = NB * 2;
        f.run = [=](Ctx& c, uint64_t i) { std::vector<T> k = K; if (i % 2) std::reverse(k.begin(), k.end()); sut::track_reset(); hashtable* t; { sut::In in; t = hashtable_init_size(i / 2 + 1, (HTYPES)kt, H_LONG, hcmp(kt)); } T* p = (T*)malloc(sizeof(T)); long* d = (long*)malloc(8); std::vector<char> in(k.size(), 0);
            auto all = [&](const char* what) { size_t n = 0; for (size_t q = 0; q < k.size(); q++) { *p = k[q]; *d = -1; int r = hashtable_lookup(t, p, d); if (r != (in[q] ? 1 : 0) || *d != (in[q] ? (long)q * 77 : -1)) fail("%s: looking up %.20Lg returns %d, %ld", what, (long double)k[q], r, *d); *p = k[q]; if ((set_find(t->keys, p) >= 0) != (in[q] != 0)) fail("%s: %.20Lg is %s the key set", what, (long double)k[q], in[q] ? "missing from" : "still in"); n += (size_t)in[q]; } if (hashtable_size(t) != n || set_size(t->keys) != n) fail("%s: size %zu, expected %zu", what, hashtable_size(t), n); c.trans(); };
            for (size_t q = 0; q < k.size(); q++) { *p = k[q]; *d = (long)q * 77; int r; { sut::In in2; r = hashtable_insert(t, p, d); } if (r != 1) fail("inserting %.20Lg returned %d", (long double)k[q], r); in[q] = 1; if (q % 7 == 0) all("insert"); } all("insert");
            for (size_t q = 0; q < k.size(); q += 2) { *p = k[q]; *d = 0; int r; { sut::In in2; r = hashtable_remove(t, p, d); } if (r != 1 || *d != (long)q * 77) fail("removing %.20Lg gives %d, %ld", (long double)k[q], r, *d); in[q] = 0; if (q % 8 == 0) all("remove"); } all("remove");
            { sut::In in2; hashtable_destroy(t, NULL, NULL); } if (sut::live()) fail("%zu allocations not released", sut::live()); free(p); free(d); c.state(ex::mix((uint64_t)kt, i)); c.trace(); };
        f.desc = [=](uint64_t i) { return fmt("%s keys, %lu buckets%s", name, (unsigned long)(i / 2 + 1), i % 2 ? ", backwards" : ""); }; v.push_back(f); };
    { std::vector<char> ch; for (int q = -128; q < 128; q++) ch.push_back((char)q); edge("int", H_INT, ints<int32_t>()); edge("long", H_LONG, ints<long>()); edge("short", H_SHORT, ints<short>()); edge("char", H_CHAR, ch); edge("double", H_DOUBLE, reals<double>()); edge("float", H_FLOAT, reals<float>()); }
    // many keys
    { Family f; f.name = "map int->long: n keys, n=1..200 and 15 sizes up to 70000, buckets 1 (small n only),3,37,init(n)"; f.count = (200 + BIGN.size()) * 4;
      f.run = [=](Ctx& c, uint64_t i) { size_t n = i / 4 < 200 ? i / 4 + 1 : BIGN[i / 4 - 200]; if (n > 1000 && i % 4 != 3) return; long bk = i % 4 == 0 ? 1 : i % 4 == 1 ? 3 : i % 4 == 2 ? 37 : 0; sut::track_reset(); hashtable* t; { sut::In in; t = bk ? hashtable_init_size((size_t)bk, H_INT, H_LONG, int_compare) : hashtable_init(n, H_INT, H_LONG, int_compare); }
        auto K = [&](size_t k) { return n > 1000 ? (int32_t)((long)(k * 7919 % 100003) - 30000) : (int32_t)((long)(k * 7919 % 1009) - 300); };
        for (size_t k = 0; k < n; k++) { int32_t key = K(k); long val = (long)k * 1000003 + 1; int r; { sut::In in; r = hashtable_insert(t, &key, &val); } if (r != 1) fail("insert %zu returned %d", k, r); c.trans(); }
        if (hashtable_size(t) != n) fail("size %zu of %zu", hashtable_size(t), n);
        std::vector<int32_t> ks; for (size_t k = 0; k < n; k++) ks.push_back(K(k)); std::sort(ks.begin(), ks.end());
        for (size_t k = 0; k < n; k++) { int32_t x; if (set_value_at(t->keys, k, &x) != 1 || x != ks[k]) fail("key set position %zu holds %d, not %d", k, x, ks[k]); }
        for (size_t k = 0; k < n; k++) { int32_t key = K(k); long val = 0; if (hashtable_lookup(t, &key, &val) != 1 || val != (long)k * 1000003 + 1) fail("key %d maps to %ld", key, val); }
        for (size_t k = 0; k < n; k += 2) { int32_t key = K(k); long val = 0; int r; { sut::In in; r = hashtable_remove(t, &key, &val); } if (r != 1 || val != (long)k * 1000003 + 1) fail("removing key %d gives %d, %ld", key, r, val); c.trans(); }
        for (size_t k = 0; k < n; k++) { int32_t key = K(k); long val = 0; int r = hashtable_lookup(t, &key, &val); if (r != (k % 2 ? 1 : 0)) fail("after removals lookup of key %d returns %d", key, r); }
        { sut::In in; hashtable_destroy(t, NULL, NULL); } if (sut::live()) fail("%zu allocations not released", sut::live()); c.state(ex::mix(n, (uint64_t)bk)); c.trace(); };
      f.desc = [](uint64_t i) { return fmt("%lu keys, bucket variant %lu", (unsigned long)(i / 4 < 200 ? i / 4 + 1 : BIGN[i / 4 - 200]), (unsigned long)(i % 4)); }; v.push_back(f); }
}

// ------------------------------------------------------------------ linked list
static const char* DOPS[] = {"front_add(1)", "tail_add(1)", "front_add(fresh)", "tail_add(fresh)", "node_front_add(2)", "node_tail_add(2)", "remove(1)", "remove(2)", "remove(absent)", "lookup(1)", "lookup_remove(1)", "lookup_remove(2)", "lookup_remove(absent)", "remove(first)", "remove(last)", "clear"};
static const unsigned ND = 16;
static void deque_run(Ctx& c, const Type& T, const std::vector<int>& w) {
    sut::track_reset(); linkedlist* l; { sut::In in; l = linkedlist_init(T.step); } if (!l) fail("list not created");
    std::deque<long> m; long fresh = 10; Buf b(T.step); uint64_t h0 = ex::hbytes(T.name, strlen(T.name));
    for (size_t s = 0; s < w.size(); s++) {
        int o = w[s]; int r = 0; node* nd = NULL; if (fresh > 100) fresh = 10;
        switch (o) {
            case 0: case 2: { long t = o ? ++fresh : 1; T.enc(t, b.p); { sut::In in; r = linkedlist_front_add(l, b.p); } if (r != 1) fail("front_add returned %d", r); m.push_front(t); break; }
            case 1: case 3: { long t = o == 3 ? ++fresh : 1; T.enc(t, b.p); { sut::In in; r = linkedlist_tail_add(l, b.p); } if (r != 1) fail("tail_add returned %d", r); m.push_back(t); break; }
            case 4: T.enc(2, b.p); { sut::In in; nd = linkedlist_node_front_add(l, b.p); } if (!nd || nd != l->head || !T.eq(2, nd->data)) fail("node_front_add did not return the new head"); m.push_front(2); break;
            case 5: T.enc(2, b.p); { sut::In in; nd = linkedlist_node_tail_add(l, b.p); } if (!nd || nd != l->tail || !T.eq(2, nd->data)) fail("node_tail_add did not return the new tail"); m.push_back(2); break;
            case 6: case 7: case 8: case 13: case 14: { long t = o == 6 ? 1 : o == 7 ? 2 : o == 8 ? 5 : m.empty() ? 5 : o == 13 ? m.front() : m.back(); T.enc(t, b.p); { sut::In in; r = linkedlist_remove(l, b.p, T.cmp); }
                auto it = std::find(m.begin(), m.end(), t); if (it != m.end()) { if (r != 1) fail("remove returned %d", r); m.erase(it); } else if (r != 0) fail("remove of an absent value returned %d", r); break; }
            case 9: case 10: case 11: case 12: { long t = o == 11 ? 2 : o == 12 ? 5 : 1; T.enc(t, b.p); void* p; { sut::In in; p = linkedlist_lookup(l, b.p, o != 9, T.cmp); }
                auto it = std::find(m.begin(), m.end(), t); if (it != m.end()) { if (!p || !T.eq(t, p)) fail("lookup did not return the value"); if (o != 9) { m.erase(it); free(p); } } else if (p) fail("lookup of an absent value returned something"); break; }
            case 15: { sut::In in; linkedlist_clear(l); } m.clear(); break;
        }
        size_t n = m.size(); uint64_t h = h0;
        if (l->size != (int32_t)n) fail("step %zu (%s): size %d, expected %zu", s, DOPS[o], l->size, n);
        if ((l->head == NULL) != (n == 0) || (l->tail == NULL) != (n == 0)) fail("step %zu (%s): head or tail wrong for %zu elements", s, DOPS[o], n);
        node* q = l->head; for (size_t i = 0; i < n; i++, q = q->next) { if (!q) fail("step %zu (%s): forward chain ends after %zu of %zu", s, DOPS[o], i, n); if (!T.eq(m[i], q->data)) fail("step %zu (%s): forward element %zu is wrong", s, DOPS[o], i); h = ex::mix(h, (uint64_t)m[i]); }
        if (q) fail("step %zu (%s): forward chain continues past %zu elements", s, DOPS[o], n);
        q = l->tail; for (size_t i = n; i-- > 0; q = q->prev) { if (!q) fail("step %zu (%s): backward chain ends early at %zu of %zu", s, DOPS[o], i, n); if (!T.eq(m[i], q->data)) fail("step %zu (%s): backward element %zu is wrong", s, DOPS[o], i); }
        if (q) fail("step %zu (%s): backward chain continues past %zu elements", s, DOPS[o], n);
        void *hd = linkedlist_head(l, 0), *tl = linkedlist_tail(l, 0);
        if (n ? (!hd || !tl || !T.eq(m.front(), hd) || !T.eq(m.back(), tl)) : (hd || tl)) fail("step %zu (%s): head() or tail() is wrong", s, DOPS[o]);
        for (size_t i = 0; i < n; i++) { memset(b.p, 0x5a, T.step); if (linkedlist_value_at(l, (int32_t)i, b.p) != (int32_t)i || !T.eq(m[i], b.p)) fail("step %zu (%s): value_at(%zu) is wrong", s, DOPS[o], i); }
        memset(b.p, 0x5a, T.step); for (int32_t p : {(int32_t)n, (int32_t)n + 1, INT32_MAX, -1, INT32_MIN}) if (linkedlist_value_at(l, p, b.p) >= 0 || !b.untouched()) fail("step %zu: value_at(%d) of %zu succeeded", s, p, n);
        for (long t : {1L, 2L, 5L, 11L}) { T.enc(t, b.p); node* e = linkedlist_lookup_helper(l, b.p, T.cmp); bool has = std::find(m.begin(), m.end(), t) != m.end(); if ((e != NULL) != has || (e && !T.eq(t, e->data))) fail("step %zu: lookup of %ld is wrong", s, t); }
        c.state(h); c.trans();
    }
    { sut::In in; linkedlist_delete(l); } if (sut::live()) fail("%zu allocations not released by delete", sut::live()); c.trace();
}
static void deque_families(std::vector<Family>& v, bool th) {
    for (auto& T0 : TYPES) { const Type T = T0; unsigned depth = T.kind == 0 || T.kind == 6 ? (th ? 6 : 5) : th ? 5 : 4; Family f; f.name = fmt("deque %s depth=%u", T.name, depth); f.count = 1; for (unsigned k = 0; k < depth; k++) f.count *= ND;
        f.run = [=](Ctx& c, uint64_t i) { deque_run(c, T, word(i, ND, depth).op); };
        f.desc = [=](uint64_t i) { return fmt("%s linked list: ", T.name) + ops_str(word(i, ND, depth).op, DOPS); }; v.push_back(f); }
    for (unsigned per = 1; per <= 3; per++) { const Type T = TYPES[0]; unsigned reps = th ? 40 : 15; Family f; f.name = fmt("deque int period=%u x%u", per, reps); f.count = 1; for (unsigned k = 0; k < per; k++) f.count *= ND;
        auto mk = [=](uint64_t i) { std::vector<int> w, p = word(i, ND, per).op; for (unsigned r = 0; r < reps; r++) w.insert(w.end(), p.begin(), p.end()); return w; };
        f.run = [=](Ctx& c, uint64_t i) { deque_run(c, T, mk(i)); };
        f.desc = [=](uint64_t i) { return "repeated: " + ops_str(word(i, ND, per).op, DOPS); }; v.push_back(f); }
    // build n, remove every subset of positions in two orders
    { unsigned n = th ? 9 : 7; Family f; f.name = fmt("deque int: %u elements, every ordered pair of removals", n); f.count = n * n * 2;
      f.run = [=](Ctx& c, uint64_t i) { (void)c; const Type& T = TYPES[0]; sut::track_reset(); linkedlist* l; Buf b(T.step); { sut::In in; l = linkedlist_init(T.step); } std::deque<long> m; bool fr = i % 2; size_t a = i / 2 % n, d = i / 2 / n;
        for (unsigned k = 0; k < n; k++) { T.enc(k + 2, b.p); if (fr) m.push_front(k + 2); else m.push_back(k + 2); sut::In in; if (fr) linkedlist_front_add(l, b.p); else linkedlist_tail_add(l, b.p); }
        for (size_t x : {a, d}) { T.enc((long)x + 2, b.p); auto it = std::find(m.begin(), m.end(), (long)x + 2); int r; { sut::In in; r = linkedlist_remove(l, b.p, T.cmp); } if (r != (it != m.end())) fail("remove returned %d", r); if (it != m.end()) m.erase(it); 
            node* q = l->head; for (long t : m) { if (!q || !T.eq(t, q->data)) fail("forward chain broken"); q = q->next; } if (q) fail("forward chain too long"); q = l->tail; for (auto z = m.rbegin(); z != m.rend(); ++z) { if (!q || !T.eq(*z, q->data)) fail("backward chain broken"); q = q->prev; } if (q) fail("backward chain too long"); c.trans(); }
        { sut::In in; linkedlist_delete(l); } if (sut::live()) fail("%zu allocations not released", sut::live()); c.trace(); c.state(i); };
      f.desc = [=](uint64_t i) { return fmt("remove elements %lu and %lu", (unsigned long)(i / 2 % n), (unsigned long)(i / 2 / n)); }; v.push_back(f); }
}
int main(int argc, char** argv) {
    return ex::main_(argc, argv, [](bool th) { std::vector<Family> v;
        if (PROP == 20) list_families(v, th), big_list(v); if (PROP == 21) set_families(v, th), big_set(v); if (PROP == 22) hash_families(v, th); if (PROP == 23) deque_families(v, th), big_deque(v); return v; });
}
