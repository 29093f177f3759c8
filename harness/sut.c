#include "sut.h"
#include "hdbscan/hdbscan.h"
#include "hdbscan/logger.h"
#include "hdbscan/utils.h"
#include "config.h"
#include <stdlib.h>
#include <string.h>
#include <assert.h>
#ifdef _OPENMP
#include <omp.h>
#endif
static void push(sut_blob* b, double x) {
    if (b->n == b->cap) { b->cap = b->cap ? b->cap * 2 : 256; b->v = realloc(b->v, b->cap * sizeof(double)); }
    b->v[b->n++] = x;
}
void sut_blob_free(sut_blob* b) { free(b->v); b->v = NULL; b->n = b->cap = 0; }
void sut_set_threads(int n) {
#ifdef _OPENMP
    omp_set_dynamic(0);
    omp_set_num_threads(n);
#endif
    (void)n;
}
int sut_sizeof(int w) { return w == 0 ? (int)sizeof(label_t) : w == 1 ? (int)sizeof(index_t) : (int)sizeof(distance_t); }
double sut_dmax(void) { return (double)D_MAX; }
double sut_dmin(void) { return (double)D_MIN; }
size_t sut_handle_size(void) { return sizeof(hdbscan); }
void* sut_new(unsigned long m) { return hdbscan_init(NULL, (index_t)m); }
void* sut_new_in(void* mem, unsigned long m) { return hdbscan_init((hdbscan*)mem, (index_t)m); }
int sut_run(void* h, void* d, unsigned long r, unsigned long c, int rw, int t) { return hdbscan_run(h, d, (index_t)r, (index_t)c, rw, (index_t)t); }
int sut_rerun(void* h, unsigned long m) { return hdbscan_rerun(h, (index_t)m); }
void sut_clean(void* h) { hdbscan_clean(h); }
void sut_destroy(void* h) { hdbscan_destroy(h); }
int sut_propagate_again(void* h) { return hdbscan_propagate_tree(h); }
void sut_flush(void) { fflush(stdout); }

static int stages(hdbscan* sc, int compact) {
    size_t n = sc->numPoints; distance_t* lv = malloc((n ? n : 1) * sizeof *lv); label_t* last = malloc((n ? n : 1) * sizeof *last);
    memset(lv, 0xbe, n * sizeof *lv); memset(last, 0x3e, n * sizeof *last);
    sc->hierarchy = hashtable_init(n / 5 < 4 ? 4 : n / 5, H_LONG, H_PTR, long_compare);
    int rc = hdbscan_construct_mst(sc);
    if (rc == HDBSCAN_SUCCESS) {
        graph_quicksort_by_edge_weight(sc->mst);
        rc = hdbscan_compute_hierarchy_and_cluster_tree(sc, compact, lv, last);
        int inf = hdbscan_propagate_tree(sc);
        hdbscan_find_prominent_clusters(sc, inf);
        if (rc == HDBSCAN_SUCCESS) rc = hdbscsan_calculate_outlier_scores(sc, lv, last, inf);
    }
    free(lv); free(last);
    return rc;
}
int sut_stages(void* h, int compact) { hdbscan_minimal_clean(h); return stages(h, compact); }
void* sut_staged(unsigned long m, void* d, unsigned long r, unsigned long c, int t, int compact, int* rc) {
    hdbscan* sc = hdbscan_init(NULL, (index_t)m);
    sc->numPoints = (index_t)r;
    distance_init(&sc->distanceFunction, _EUCLIDEAN, (enum HTYPES)t);
    distance_compute(&sc->distanceFunction, d, (index_t)r, (index_t)c, (index_t)(m - 1));
    sc->clusters = ptr_array_list_init(r / 5 < 4 ? 4 : r / 5, cluster_compare);
    sc->clusterStabilities = hashtable_init(r / 5 < 4 ? 4 : r / 5, H_INT, H_PTR, int_compare);
    *rc = stages(sc, compact);
    return sc;
}

void sut_read(void* h, sut_blob* b, int with_dist) {
    hdbscan* sc = h;
    size_t n = sc->numPoints;
    push(b, (double)n); push(b, (double)sc->minPoints);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) push(b, with_dist ? (double)distance_get(&sc->distanceFunction, (index_t)i, (index_t)j) : 0.0);
    for (size_t i = 0; i < n; i++) push(b, (double)sc->distanceFunction.coreDistances[i]);
    size_t m = sc->mst->edgeWeights->size;
    push(b, (double)m);
    for (size_t i = 0; i < m; i++) {
        push(b, (double)((index_t*)sc->mst->verticesA->data)[i]);
        push(b, (double)((index_t*)sc->mst->verticesB->data)[i]);
        push(b, (double)((distance_t*)sc->mst->edgeWeights->data)[i]);
    }
    for (size_t i = 0; i < n; i++) push(b, (double)sc->clusterLabels[i]);
    for (size_t i = 0; i < n; i++) { push(b, (double)sc->outlierScores[i].id); push(b, (double)sc->outlierScores[i].score); push(b, (double)sc->outlierScores[i].coreDistance); }
    size_t k = 0;
    for (size_t i = 0; i < sc->clusters->size; i++) if (((cluster**)sc->clusters->data)[i]) k++;
    push(b, (double)k);
    for (size_t i = 0; i < sc->clusters->size; i++) {
        cluster* c = ((cluster**)sc->clusters->data)[i];
        if (!c) continue;
        push(b, (double)c->label); push(b, (double)c->birthLevel); push(b, (double)c->deathLevel); push(b, (double)c->numPoints);
        push(b, (double)c->offset); push(b, (double)c->stability); push(b, (double)c->propagatedStability); push(b, (double)c->propagatedLowestChildDeathLevel);
        push(b, (double)c->numConstraintsSatisfied); push(b, (double)c->propagatedNumConstraintsSatisfied);
        push(b, c->parent ? (double)c->parent->label : -1.0); push(b, c->hasChildren ? 1 : 0);
        push(b, (double)c->propagatedDescendants->size);
        for (size_t j = 0; j < c->propagatedDescendants->size; j++) push(b, (double)((cluster**)c->propagatedDescendants->data)[j]->label);
        size_t nv = c->virtualChildCluster ? c->virtualChildCluster->size : 0;
        push(b, (double)nv);
        for (size_t j = 0; j < nv; j++) push(b, (double)((index_t*)c->virtualChildCluster->data)[j]);
    }
    size_t nh = set_size(sc->hierarchy->keys);
    push(b, (double)nh);
    for (size_t i = 0; i < nh; i++) {
        int64_t key; hierarchy_entry* e = NULL;
        set_value_at(sc->hierarchy->keys, i, &key);
        hashtable_lookup(sc->hierarchy, &key, &e);
        push(b, (double)key); push(b, (double)e->edgeWeight);
        for (size_t j = 0; j < n; j++) push(b, (double)e->labels[j]);
    }
}

static void read_map(hashtable* t, sut_blob* out) {
    size_t k = hashtable_size(t);
    push(out, (double)k);
    for (size_t i = 0; i < k; i++) {
        label_t key; ArrayList* l = NULL;
        key = ((label_t*)t->keys->data)[i];
        int ok = hashtable_lookup(t, &key, &l);
        push(out, (double)key);
        if (!ok || !l) { push(out, -1); continue; }
        push(out, (double)l->size);
        for (size_t j = 0; j < l->size; j++) push(out, (double)((index_t*)l->data)[j]);
    }
}
void sut_map_read(void* t, sut_blob* out) { read_map(t, out); }
void* sut_cluster_map(const double* labels, size_t total, unsigned long b, unsigned long e, sut_blob* out) {
    label_t* l = malloc((total ? total : 1) * sizeof(label_t));
    for (size_t i = 0; i < total; i++) l[i] = (label_t)labels[i];
    hashtable* t = hdbscan_create_cluster_map(l, (index_t)b, (index_t)e);
    if (out) read_map(t, out);
    free(l);
    return t;
}
void* sut_cluster_map_of(void* h, unsigned long b, unsigned long e, sut_blob* out) {
    hdbscan* sc = h;
    hashtable* t = hdbscan_create_cluster_map(sc->clusterLabels, (index_t)b, (index_t)e);
    if (out) read_map(t, out);
    return t;
}
void sut_cluster_map_destroy(void* t) { hdbscan_destroy_cluster_map(t); }
void sut_distance_map_read(void* dm, sut_blob* out) {
    hashtable* t = dm; size_t k = hashtable_size(t);
    push(out, (double)k);
    for (size_t i = 0; i < k; i++) {
        label_t key = ((label_t*)t->keys->data)[i]; distance_values* d = NULL;
        hashtable_lookup(t, &key, &d);
        push(out, (double)key);
        push(out, (double)d->min_cr); push(out, (double)d->max_cr); push(out, (double)d->cr_confidence);
        push(out, (double)d->min_dr); push(out, (double)d->max_dr); push(out, (double)d->dr_confidence);
    }
}
void* sut_distance_map(void* h, void* ct, sut_blob* out) {
    hashtable* t = hdbscan_get_min_max_distances(h, ct);
    if (out) sut_distance_map_read(t, out);
    return t;
}
void sut_distance_map_destroy(void* d) { hdbscan_destroy_distance_map(d); }
void* sut_distance_map_make(const double* r, size_t k) {
    hashtable* t;
    if (sizeof(label_t) == sizeof(int)) t = hashtable_init_size(k, H_INT, H_PTR, int_compare);
    else if (sizeof(label_t) == sizeof(long)) t = hashtable_init_size(k, H_LONG, H_PTR, long_compare);
    else t = hashtable_init_size(k, H_SHORT, H_PTR, short_compare);
    for (size_t i = 0; i < k; i++, r += 7) {
        label_t key = (label_t)r[0];
        distance_values* d = malloc(sizeof *d);
        d->min_cr = (distance_t)r[1]; d->max_cr = (distance_t)r[2]; d->cr_confidence = (distance_t)r[3];
        d->min_dr = (distance_t)r[4]; d->max_dr = (distance_t)r[5]; d->dr_confidence = (distance_t)r[6];
        hashtable_insert(t, &key, &d);
    }
    return t;
}
static void st_out(const clustering_stats* s, double o[13]) {
    const stats_values* v[2] = {&s->coreDistanceValues, &s->intraDistanceValues};
    o[0] = (double)s->count;
    for (int i = 0; i < 2; i++) {
        double* p = o + 1 + 6 * i;
        p[0] = (double)v[i]->mean; p[1] = (double)v[i]->standardDev; p[2] = (double)v[i]->variance;
        p[3] = (double)v[i]->max; p[4] = (double)v[i]->kurtosis; p[5] = (double)v[i]->skewness;
    }
}
static void st_in(const double o[13], clustering_stats* s) {
    stats_values* v[2] = {&s->coreDistanceValues, &s->intraDistanceValues};
    s->count = (index_t)o[0];
    for (int i = 0; i < 2; i++) {
        const double* p = o + 1 + 6 * i;
        v[i]->mean = (distance_t)p[0]; v[i]->standardDev = (distance_t)p[1]; v[i]->variance = (distance_t)p[2];
        v[i]->max = (distance_t)p[3]; v[i]->kurtosis = (distance_t)p[4]; v[i]->skewness = (distance_t)p[5];
    }
}
void sut_stats(void* dm, int prefill, double out[13]) {
    clustering_stats s; memset(&s, prefill, sizeof s);
    hdbscan_calculate_stats(dm, &s);
    st_out(&s, out);
}
static int touched;
int sut_touched(void) { int t = touched; touched = 0; return t; }
int sut_validity(const double in[13]) { clustering_stats s, t; memset(&s, 0, sizeof s); st_in(in, &s); memcpy(&t, &s, sizeof s); int r = hdbscan_analyse_stats(&s); if (memcmp(&t, &s, sizeof s)) touched = 1; return r; }

static ArrayList* mklist(const double* l, size_t k) {
    ArrayList* a = array_list_init(k ? k : 1, sizeof(label_t), NULL);
    a->compare = sizeof(label_t) == sizeof(int) ? int_compare : sizeof(label_t) == sizeof(long) ? long_compare : short_compare;
    for (size_t i = 0; i < k; i++) { label_t x = (label_t)l[i]; array_list_append(a, &x); }
    return a;
}
static size_t outlist(ArrayList* a, ArrayList* given, double* out) {
    size_t k = a ? a->size : 0;
    for (size_t i = 0; i < k; i++) out[i] = (double)((label_t*)a->data)[i];
    if (a) array_list_delete(a);
    if (given && given != a) array_list_delete(given);
    return k;
}
size_t sut_sort_by_similarity(void* dm, const double* l, size_t k, int have, int type, double* out) {
    ArrayList* a = have ? mklist(l, k) : NULL;
    return outlist(hdbscan_sort_by_similarity(dm, a, type), a, out);
}
size_t sut_sort_by_length(void* ct, const double* l, size_t k, int have, double* out) {
    ArrayList* a = have ? mklist(l, k) : NULL;
    return outlist(hdbscan_sort_by_length(ct, a), a, out);
}
void sut_quicksort(double* labels, double* keys, size_t k, int left, int right) {
    ArrayList* a = mklist(labels, k);
    ArrayList* d = array_list_init(k ? k : 1, sizeof(distance_t), NULL);
    for (size_t i = 0; i < k; i++) { distance_t x = (distance_t)keys[i]; array_list_append(d, &x); }
    hdbscan_quicksort(a, d, left, right);
    for (size_t i = 0; i < k; i++) { labels[i] = (double)((label_t*)a->data)[i]; keys[i] = (double)((distance_t*)d->data)[i]; }
    array_list_delete(a); array_list_delete(d);
}
void sut_print(void* h, int what, void* ct, void* dm, const double stats[13], char* fn) {
    hdbscan* sc = h;
    switch (what) {
    case 0: hdbscan_print_cluster_map(ct); break;
    case 1: hdbscan_print_cluster_sizes(ct); break;
    case 2: hdbscan_print_distance_map(dm); break;
    case 3: { clustering_stats s, t; memset(&s, 0, sizeof s); st_in(stats, &s); memcpy(&t, &s, sizeof s); hdbscan_print_stats(&s); if (memcmp(&t, &s, sizeof s)) touched = 1; break; }
    case 4: hdbscan_print_hierarchies(sc->hierarchy, sc->numPoints, fn); break;
    case 5: hdbscan_print_outlier_scores(sc->outlierScores, sc->numPoints); break;
    case 6: distances_print(&sc->distanceFunction); break;
    case 7: graph_print(sc->mst); break;
    }
}
static void st_score(outlier_score* o, const double v[3]) { o->score = (distance_t)v[0]; o->coreDistance = (distance_t)v[1]; o->id = (index_t)v[2]; }
int sut_score_compare(const double a[3], const double b[3]) { outlier_score x, y; st_score(&x, a); st_score(&y, b); return outlier_score_compare(&x, &y); }
void* sut_hier_make(const double* r, size_t k, size_t n) {
    hashtable* t = hashtable_init_size(k, H_LONG, H_PTR, long_compare);
    for (size_t i = 0; i < k; i++, r += 2 + n) {
        int64_t key = (int64_t)r[0];
        hierarchy_entry* e = malloc(sizeof *e);
        e->edgeWeight = (distance_t)r[1]; e->labels = malloc((n ? n : 1) * sizeof(label_t));
        for (size_t j = 0; j < n; j++) e->labels[j] = (label_t)r[2 + j];
        hashtable_insert(t, &key, &e);
    }
    return t;
}
void sut_hier_print(void* t, size_t n, char* fn) { hdbscan_print_hierarchies(t, (index_t)n, fn); }
void sut_hier_destroy(void* tv) {
    hashtable* t = tv;
    for (size_t i = 0; i < set_size(t->keys); i++) { int64_t key; hierarchy_entry* e = NULL; set_value_at(t->keys, i, &key); hashtable_lookup(t, &key, &e); if (e) { free(e->labels); free(e); } }
    hashtable_destroy(t, NULL, NULL);
}
void sut_scores_print(const double* r, size_t n) {
    outlier_score* o = malloc((n ? n : 1) * sizeof *o);
    for (size_t i = 0; i < n; i++) { double v[3] = {r[3 * i + 1], r[3 * i + 2], r[3 * i]}; st_score(o + i, v); }
    hdbscan_print_outlier_scores(o, (index_t)n);
    free(o);
}
