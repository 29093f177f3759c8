// C26: every allocation of every add and of every creation made to fail, in all
// short histories; after a failure the container must show its old contents.
#include "sut.hpp"
#include <deque>
extern "C" {
#include "collections/list.h"
#include "collections/set.h"
#include "collections/hashtable.h"
#include "collections/linkedlist.h"
// link with --wrap=malloc,--wrap=calloc,--wrap=realloc
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
static long g_seen, g_first, g_last; static bool g_armed, g_hit;      // fail allocations number first..last while armed
static bool trip() { if (!g_armed) return false; long k = ++g_seen; if (k >= g_first && k <= g_last) { g_hit = true; return true; } return false; }
void* __wrap_malloc(size_t n) { return trip() ? NULL : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { return trip() ? NULL : __real_calloc(a, b); }
void* __wrap_realloc(void* p, size_t n) { return trip() ? NULL : __real_realloc(p, n); }
}
using ex::Ctx; using ex::Family; using ex::fail; using ex::fmt;
struct Arm { sut::In in; Arm() { g_armed = true; g_hit = false; } ~Arm() { g_armed = false; } };
struct Elem { int32_t key; char pay[28]; };
static int32_t elem_compare(const void* a, const void* b) { int32_t x = ((const Elem*)a)->key, y = ((const Elem*)b)->key; return x < y ? -1 : x > y; }
static Elem mk(int32_t k) { Elem e; memset(&e, k & 0xff, sizeof e); e.key = k; return e; }
static bool same(const Elem& a, int32_t k) { Elem b = mk(k); return memcmp(&a, &b, sizeof a) == 0; }

// a container driven by a word; returns the number of allocations seen; faults as armed
enum Kind { LIST, SET, DEQ, MAP };
static const char* KN[] = {"list", "set", "linked list", "hash table"};
static const char* OPN[4][6] = {{"append", "insert_at(0)", "insert_at(mid)", "pop", "remove_at(0)", "clear"}, {"insert new", "insert smaller", "insert existing", "remove_at(0)", "remove", "clear"}, {"front_add", "tail_add", "node_front_add", "remove first", "node_tail_add", "clear"}, {"put new", "put colliding", "overwrite", "remove", "put new", "clear"}};
static const unsigned NO = 6;
static long drive(Ctx& c, int kind, size_t init, const std::vector<int>& w, long first, long last, bool& hit) {
    { static pid_t warm = 0; if (warm != getpid()) { warm = getpid(); g_seen = 0; g_first = g_last = 1; { Arm a; hashtable* t = hashtable_init_size(3, H_INT, H_INT, int_compare); if (t) { g_armed = false; hashtable_destroy(t, NULL, NULL); } } } }   // state the C library creates while a message is logged
    sut::track_reset(); g_seen = 0; g_first = first; g_last = last; hit = false; Elem e; int r = 0; int32_t fresh = 100;
    if (kind == LIST || kind == SET) {
        ArrayList* l; { Arm a; l = kind == LIST ? array_list_init(init, sizeof(Elem), elem_compare) : set_init(sizeof(Elem), elem_compare); } hit |= g_hit;
        if (!l) { if (!g_hit) fail("not created although memory was available"); if (sut::live()) fail("failed creation leaks %zu allocations", sut::live()); return g_seen; }
        std::vector<int32_t> m;
        for (size_t s = 0; s < w.size(); s++) {
            int o = w[s]; size_t n = m.size(); long pos = -1; int32_t k = 0; g_hit = false;
            if (kind == LIST) {
                if (o < 3) { pos = o == 0 ? (long)n : o == 1 ? 0 : (long)n / 2; k = ++fresh; e = mk(k); Arm a; r = o == 0 ? array_list_append(l, &e) : array_list_insert_at(l, &e, (size_t)pos); }
                else if (o == 3) { sut::In in; if (array_list_pop(l, &e) == 1) m.pop_back(); } else if (o == 4) { sut::In in; if (array_list_remove_at(l, 0, &e) == 1) m.erase(m.begin()); } else { sut::In in; array_list_clear(l, 1); m.clear(); }
            } else {
                if (o < 3) { k = o == 0 ? ++fresh : o == 1 ? 100 - (++fresh) : n ? m[n / 2] : ++fresh; e = mk(k); auto it = std::lower_bound(m.begin(), m.end(), k); bool has = it != m.end() && *it == k; pos = has ? -2 : it - m.begin(); { Arm a; r = set_insert(l, &e); } if (has) { if (r > 0) fail("step %zu: existing value inserted again", s); r = 0; } }
                else if (o == 3) { sut::In in; if (set_remove_at(l, 0, &e) == 1) m.erase(m.begin()); } else if (o == 4 && n) { e = mk(m[n / 2]); sut::In in; if (set_remove(l, &e) == 1) m.erase(m.begin() + (long)n / 2); } else if (o == 5) { sut::In in; set_clear(l); m.clear(); }
            }
            if (pos >= 0) { if (r == 1) m.insert(m.begin() + pos, k); else if (!g_hit) fail("step %zu (%s): adding failed with memory available", s, OPN[kind][o]); }
            hit |= g_hit; c.trans();
            if (array_list_size(l) != m.size()) fail("step %zu (%s%s): size %zu, expected %zu", s, OPN[kind][o], g_hit ? ", allocation failed" : "", array_list_size(l), m.size());
            uint64_t h = (uint64_t)kind; for (size_t i = 0; i < m.size(); i++) { if (array_list_value_at(l, i, &e) != 1 || !same(e, m[i])) fail("step %zu (%s%s): element %zu changed", s, OPN[kind][o], g_hit ? ", allocation failed" : "", i); h = ex::mix(h, (uint64_t)m[i]); } c.state(h);
        }
        { sut::In in; array_list_delete(l); }
    } else if (kind == DEQ) {
        linkedlist* l; { Arm a; l = linkedlist_init(sizeof(Elem)); } hit |= g_hit;
        if (!l) { if (!g_hit) fail("not created although memory was available"); if (sut::live()) fail("failed creation leaks"); return g_seen; }
        std::deque<int32_t> m;
        for (size_t s = 0; s < w.size(); s++) {
            int o = w[s]; g_hit = false;
            if (o == 3) { if (!m.empty()) { e = mk(m.front()); sut::In in; linkedlist_remove(l, &e, elem_compare); m.pop_front(); } } else if (o == 5) { sut::In in; linkedlist_clear(l); m.clear(); }
            else { int32_t k = ++fresh; e = mk(k); bool ok; { Arm a; ok = o == 0 ? linkedlist_front_add(l, &e) == 1 : o == 1 ? linkedlist_tail_add(l, &e) == 1 : o == 2 ? linkedlist_node_front_add(l, &e) != NULL : linkedlist_node_tail_add(l, &e) != NULL; }
                if (ok) { if (o == 0 || o == 2) m.push_front(k); else m.push_back(k); } else if (!g_hit) fail("step %zu: adding failed with memory available", s); }
            hit |= g_hit; c.trans();
            if (l->size != (int32_t)m.size()) fail("step %zu (%s%s): size %d, expected %zu", s, OPN[kind][o], g_hit ? ", allocation failed" : "", l->size, m.size());
            uint64_t h = (uint64_t)kind; node* q = l->head; for (int32_t k : m) { if (!q || !same(*(Elem*)q->data, k)) fail("step %zu (%s%s): forward chain changed", s, OPN[kind][o], g_hit ? ", allocation failed" : ""); q = q->next; h = ex::mix(h, (uint64_t)k); } if (q) fail("forward chain too long");
            q = l->tail; for (auto it = m.rbegin(); it != m.rend(); ++it) { if (!q || !same(*(Elem*)q->data, *it)) fail("step %zu: backward chain changed", s); q = q->prev; } if (q) fail("backward chain too long"); c.state(h);
        }
        { sut::In in; linkedlist_delete(l); }
    } else {
        hashtable* t; { Arm a; t = init == 9 ? hashtable_init(10, H_INT, H_LONG, int_compare) : hashtable_init_size(init, H_INT, H_LONG, int_compare); } hit |= g_hit;
        if (!t) { if (!g_hit) fail("not created although memory was available"); if (sut::live()) fail("failed creation leaks %zu allocations", sut::live()); return g_seen; }
        std::map<int32_t, long> m; long val = 1000000000000L;
        for (size_t s = 0; s < w.size(); s++) {
            int o = w[s]; g_hit = false; long vv = ++val, out = vv;
            if (o == 3) { if (!m.empty()) { int32_t k = m.begin()->first; sut::In in; if (hashtable_remove(t, &k, &out) != 1 || out != m.begin()->second) fail("step %zu: remove failed", s); m.erase(m.begin()); } }
            else if (o == 5) { { sut::In in; hashtable_clear(t, NULL, NULL); } m.clear(); }
            else { int32_t k = o == 1 ? (++fresh) * 37 * 7 : o == 2 && !m.empty() ? m.rbegin()->first : -(++fresh); bool has = m.count(k); { Arm a; r = hashtable_insert(t, &k, &out); }
                if (has) { if (r == -1) { if (out != m[k]) fail("step %zu: overwrite gave back %ld instead of %ld", s, out, m[k]); m[k] = vv; } else if (!g_hit || r > 0) fail("step %zu: overwrite returned %d", s, r); }
                else if (r == 1) m[k] = vv; else if (!g_hit) fail("step %zu: insert returned %d with memory available", s, r); }
            hit |= g_hit; c.trans();
            if (hashtable_size(t) != m.size() || (hashtable_empty(t) != 0) != m.empty()) fail("step %zu (%s%s): size %zu, empty %d, expected %zu", s, OPN[kind][o], g_hit ? ", allocation failed" : "", hashtable_size(t), hashtable_empty(t), m.size());
            uint64_t h = (uint64_t)kind; for (auto& p : m) { int32_t k = p.first; long x = 0; if (hashtable_lookup(t, &k, &x) != 1 || x != p.second) fail("step %zu (%s%s): key %d maps to %ld, not %ld", s, OPN[kind][o], g_hit ? ", allocation failed" : "", k, x, p.second); if (set_find(t->keys, &k) < 0) fail("step %zu: key %d not in the key set", s, k); h = ex::mix(h, (uint64_t)k); } c.state(h);
            if (set_size(t->keys) != m.size()) fail("step %zu: key set holds %zu keys, expected %zu", s, set_size(t->keys), m.size());
            int32_t k = -fresh, absent = -fresh - 1; long x; if (!m.count(k) && hashtable_lookup(t, &k, &x)) fail("step %zu: a key whose insertion failed is found", s); if (hashtable_lookup(t, &absent, &x)) fail("absent key found");
        }
        { sut::In in; hashtable_destroy(t, NULL, NULL); }
    }
    if (sut::live()) fail("%zu allocations not released by destroy", sut::live());
    return g_seen;
}
static void family(std::vector<Family>& v, int kind, size_t init, unsigned depth, unsigned prefix) {
    Family f; f.name = fmt("%s initial=%zu prefix of %u adds, depth=%u, every allocation and every run of allocations failing", KN[kind], init, prefix, depth); f.count = 1; for (unsigned k = 0; k < depth; k++) f.count *= NO;
    auto word = [=](uint64_t i) { std::vector<int> w(prefix, 0); for (unsigned k = 0; k < depth; k++) { w.push_back((int)(i % NO)); i /= NO; } return w; };
    f.run = [=](Ctx& c, uint64_t i) { std::vector<int> w = word(i); bool hit; long n = drive(c, kind, init, w, 0, -1, hit); c.trace();
        long lo = prefix > 20 ? n - 8 : 1; if (lo < 1) lo = 1;
        for (long k = lo; k <= n; k++) for (long last : {k, k + 1, k + 2, LONG_MAX}) {
            try { drive(c, kind, init, w, k, last, hit); } catch (ex::Failure& e) { fail("allocation %ld..%ld failing: %s", k, last == LONG_MAX ? -1 : last, e.msg.c_str()); }
            c.trace(); } };
    f.desc = [=](uint64_t i) { std::string s = fmt("%s initial %zu:", KN[kind], init); for (int o : word(i)) { s += std::string(" ") + OPN[kind][o] + ";"; if (s.size() > 400) break; } return s; };
    v.push_back(f);
}
int main(int argc, char** argv) {
    return ex::main_(argc, argv, [](bool th) { std::vector<Family> v;
        for (size_t init : {1, 2, 3}) family(v, LIST, init, th ? 6 : 5, 0); family(v, SET, 2, th ? 6 : 5, 0); family(v, DEQ, 0, th ? 6 : 5, 0);
        for (size_t init : {1, 2, 37, 9}) family(v, MAP, init, th ? 5 : 4, 0);
        for (int kind : {LIST, SET, DEQ, MAP}) for (unsigned p : {2u, 3u, 7u, 8u, 15u, 16u, 63u, 64u, 127u, 128u}) family(v, kind, kind == MAP ? 3 : 2, th ? 3 : 2, p);
        return v; });
}
