/* What the C interface computes, as plain arrays of long, for the drivers of the bindings. */
#include "hdbscan/hdbscan.h"
#include "config.h"
#include <stdlib.h>
#include <string.h>
long ref_sizeof(int w) { return w == 0 ? (long)sizeof(label_t) : w == 1 ? (long)sizeof(index_t) : (long)sizeof(distance_t); }
/* out: n, labels n, nh, (key, labels n)*nh; returns the number of longs, or -1 */
long ref_result(void* data, long rows, long cols, long type, long m1, const long* reruns, long k, long* out, long cap) {
    hdbscan* sc = hdbscan_init(NULL, (index_t)m1);
    int e = hdbscan_run(sc, data, (index_t)rows, (index_t)cols, TRUE, (index_t)type);
    for (long i = 0; i < k; i++) e |= hdbscan_rerun(sc, (index_t)reruns[i]);
    long p = 0, n = sc->numPoints;
    size_t nh = set_size(sc->hierarchy->keys);
    if (e != HDBSCAN_SUCCESS || cap < 2 + n + (long)nh * (n + 1)) { hdbscan_destroy(sc); return -1; }
    out[p++] = n;
    for (long i = 0; i < n; i++) out[p++] = (long)sc->clusterLabels[i];
    out[p++] = (long)nh;
    for (size_t i = 0; i < nh; i++) {
        int64_t key; hierarchy_entry* h = NULL;
        set_value_at(sc->hierarchy->keys, i, &key);
        hashtable_lookup(sc->hierarchy, &key, &h);
        out[p++] = (long)key;
        for (long j = 0; j < n; j++) out[p++] = (long)h->labels[j];
    }
    hdbscan_destroy(sc);
    return p;
}
/* out: k, (label, count, indices)*k */
long ref_map(const long* labels, long n, long begin, long end, long* out) {
    label_t* l = malloc((size_t)(n ? n : 1) * sizeof(label_t));
    for (long i = 0; i < n; i++) l[i] = (label_t)labels[i];
    hashtable* t = hdbscan_create_cluster_map(l, (index_t)begin, (index_t)end);
    long p = 0; size_t k = hashtable_size(t);
    out[p++] = (long)k;
    for (size_t i = 0; i < k; i++) {
        label_t key; ArrayList* a = NULL;
        set_value_at(t->keys, i, &key);
        hashtable_lookup(t, &key, &a);
        out[p++] = (long)key; out[p++] = (long)a->size;
        for (size_t j = 0; j < a->size; j++) out[p++] = (long)((index_t*)a->data)[j];
    }
    hdbscan_destroy_cluster_map(t); free(l);
    return p;
}
