/* Scripts on objects made by hand, for C36: a thread runs one of them, everything it sees goes into the blob. */
#include "hdbscan/hdbscan.h"
#include "collections/primes.h"
#include "collections/linkedlist.h"
#include "sut.h"
#include "tree.h"
#include <stdlib.h>
#include <string.h>
static void put(sut_blob* b, double x) { if (b->n == b->cap) { b->cap = b->cap ? b->cap * 2 : 256; b->v = realloc(b->v, b->cap * sizeof(double)); } b->v[b->n++] = x; }
static void lists(sut_blob* b, int s) {
    ArrayList* l = array_list_init(2, sizeof(int64_t), long_compare); set_t* t = set_init(sizeof(int32_t), int_compare);
    for (int k = 0; k < 20; k++) {
        int64_t x = (k * 7 + s) % 11; int32_t y = (k * 5 + s) % 9;
        put(b, array_list_append(l, &x)); x = -k; if (k % 3 == 0) put(b, array_list_insert_at(l, &x, (size_t)k / 2)); if (k % 5 == 4) { int64_t o = 0; put(b, array_list_remove_at(l, (size_t)k / 3, &o)); put(b, (double)o); }
        put(b, set_insert(t, &y)); if (k % 4 == 3) { y = k % 9; put(b, set_remove(t, &y)); } y = (k + s) % 9; put(b, (double)set_find(t, &y));
    }
    for (size_t k = 0; k < array_list_size(l); k++) { int64_t o = 0; array_list_value_at(l, k, &o); put(b, (double)o); }
    array_list_sort(l); for (size_t k = 0; k < array_list_size(l); k++) { int64_t o = 0; array_list_value_at(l, k, &o); put(b, (double)o); put(b, (double)array_list_find(l, &o, 1) >= 0); }
    while (!array_list_empty(l)) { int64_t o = 0; put(b, array_list_pop(l, &o)); put(b, (double)o); if (array_list_size(l) == 3) array_list_clear(l, 1); }
    for (size_t k = 0; k < set_size(t); k++) { int32_t o = 0; put(b, set_value_at(t, k, &o)); put(b, o); }
    array_list_delete(l); set_delete(t);
}

static void tables(sut_blob* b, int s) {
    hashtable* h = hashtable_init_size((size_t)(1 + s), H_LONG, H_DOUBLE, long_compare); hashtable* g = hashtable_init(10, H_SHORT, H_INT, short_compare);
    for (int k = 0; k < 24; k++) {
        int64_t key = (k * 5 + s) % 13; double v = k + s, o = -1; put(b, hashtable_insert(h, &key, &v)); put(b, v); key = k % 7; put(b, hashtable_lookup(h, &key, &o)); put(b, o); if (k % 6 == 5) { o = -1; put(b, hashtable_remove(h, &key, &o)); put(b, o); }
        int16_t q = (int16_t)(-k - s); int32_t w = k * k, u = 0; put(b, hashtable_insert(g, &q, &w)); put(b, w); q = (int16_t)(-k / 2 - s); put(b, hashtable_lookup(g, &q, &u)); put(b, u);
    }
    put(b, (double)hashtable_size(h)); put(b, (double)hashtable_size(g)); for (size_t k = 0; k < set_size(h->keys); k++) { int64_t o = 0; set_value_at(h->keys, k, &o); put(b, (double)o); }
    hashtable_clear(g, NULL, NULL); put(b, hashtable_empty(g)); hashtable_destroy(h, NULL, NULL); hashtable_destroy(g, NULL, NULL);
    for (int k = 0; k < 40; k++) { put(b, find_prime_less_than(k * 37 + s)); put(b, get_prime(k * 3 + s)); }
    linkedlist* l = linkedlist_init(sizeof(int32_t)); for (int32_t k = 0; k < 9; k++) { int32_t x = (k * 4 + s) % 7; if (k % 2) linkedlist_front_add(l, &x); else linkedlist_tail_add(l, &x); }
    for (int32_t k = 0; k < 7; k += 2) { int32_t o = -1; put(b, linkedlist_value_at(l, k, &o)); put(b, o); put(b, linkedlist_remove(l, &k, int_compare)); }
    for (node* n = l->head; n; n = n->next) put(b, *(int32_t*)n->data); put(b, (double)l->size); linkedlist_delete(l);
}
static void trees(sut_blob* b, int s) {
    unsigned long a[12], c[12]; double w[12], o[12]; for (int k = 0; k < 12; k++) { a[k] = (unsigned long)(k % 6); c[k] = (unsigned long)((k * 5 + s) % 6); w[k] = (k * 7 + s) % 10; }
    void* g = tg_make(NULL, 6, 12, a, c, w); tg_sort(g); for (int k = 0; k < 4; k++) tg_remove(g, a[k], c[k]); size_t m = tg_edges(g, a, c, w); for (size_t k = 0; k < m; k++) { put(b, (double)a[k]); put(b, (double)c[k]); put(b, w[k]); }
    for (unsigned long v = 0; v < 6; v++) { unsigned long out[32]; size_t n = tg_adj(g, v, out, 32); put(b, (double)n); for (size_t k = 0; k < n && k < 32; k++) put(b, (double)out[k]); } tg_destroy(g);
    void* t[5]; for (int k = 0; k < 5; k++) t[k] = tc_make(NULL, (unsigned long)k + 1, k ? t[(k - 1) / 2] : NULL, 9 - k - 0.125 * s, (unsigned long)(20 - k));
    unsigned long p[] = {3, 1, 4}; for (int k = 0; k < 5; k++) { put(b, tc_detach(t[k], 3, 2 + s)); tc_vadd(t[k], p, 3); put(b, tc_vhas(t[k], 4)); tc_cons(t[k], (unsigned long)k); tc_vrelease(t[k]); }
    for (int k = 4; k >= 0; k--) tc_propagate(t[k]); for (int k = 0; k < 5; k++) { tc_read(t[k], o); for (int q = 0; q < 12; q++) put(b, o[q]); unsigned long d[16]; size_t n = tc_desc(t[k], d, 16); for (size_t q = 0; q < n && q < 16; q++) put(b, (double)d[q]); }
    for (int k = 4; k >= 0; k--) tc_destroy(t[k]);
}
void coop_objects(int which, int s, sut_blob* b) { if (which == 4) lists(b, s); else if (which == 5) tables(b, s); else trees(b, s); }
