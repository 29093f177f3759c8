/* What the C side sees, for C29. */
#include <stddef.h>
#include "hdbscan/hdbscan.h"
#include "layout.h"
#define S(t) {"size of " #t, sizeof(t)},
#define O(t, f) {"offset of " #t "::" #f, offsetof(t, f)},
const struct layout_row c_layout[] = { LAYOUT_ROWS {0, 0} };
/* the steps of a run, through the C functions */
int c_mst(void* h) { return hdbscan_construct_mst(h); }
int c_tree(void* h, double* lv, unsigned long* last, int compact) {
    hdbscan* sc = h; size_t n = sc->numPoints; distance_t* l = malloc((n ? n : 1) * sizeof *l); label_t* c = malloc((n ? n : 1) * sizeof *c); for (size_t i = 0; i < n; i++) { l[i] = 0; c[i] = 0; }
    int r = hdbscan_compute_hierarchy_and_cluster_tree(sc, compact, l, c); for (size_t i = 0; i < n; i++) { lv[i] = (double)l[i]; last[i] = (unsigned long)c[i]; } free(l); free(c); return r;
}
void c_prominent(void* h, int inf) { hdbscan_find_prominent_clusters(h, inf); }
int c_scores(void* h, const double* lv, const unsigned long* last, int inf) {
    hdbscan* sc = h; size_t n = sc->numPoints; distance_t* l = malloc((n ? n : 1) * sizeof *l); label_t* c = malloc((n ? n : 1) * sizeof *c); for (size_t i = 0; i < n; i++) { l[i] = (distance_t)lv[i]; c[i] = (label_t)last[i]; }
    int r = hdbscsan_calculate_outlier_scores(sc, l, c, inf); free(l); free(c); return r;
}
void* c_distance(int kind, int type) { (void)kind; return distance_init(NULL, _EUCLIDEAN, (enum HTYPES)type); }
void c_distance_compute(void* d, void* x, unsigned long n, unsigned long cols, unsigned long k) { distance_compute(d, x, (index_t)n, (index_t)cols, (index_t)k); }
double c_distance_get(void* d, unsigned long i, unsigned long j) { return (double)distance_get(d, (index_t)i, (index_t)j); }
double c_core(void* d, unsigned long i) { return (double)((distance*)d)->coreDistances[i]; }
int c_graph_ok(void* g) { UndirectedGraph* u = g; return u->numVertices == 0 && u->verticesA->size == 0 && u->verticesB->size == 0 && u->edgeWeights->size == 0; }
