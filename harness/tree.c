#include "tree.h"
#include "config.h"
#include "hdbscan/undirected_graph.h"
#include "hdbscan/cluster.h"
#include <string.h>
static ArrayList* il(const unsigned long* v, size_t m) {
    ArrayList* a = array_list_init(m ? m : 1, sizeof(index_t), NULL); a->compare = sizeof(index_t) == sizeof(int) ? int_compare : sizeof(index_t) == sizeof(long) ? long_compare : short_compare;
    for (size_t i = 0; i < m; i++) { index_t x = (index_t)v[i]; array_list_append(a, &x); } return a;
}
size_t tg_size(void) { return sizeof(UndirectedGraph); }
void* tg_make(void* mem, unsigned long n, size_t m, const unsigned long* a, const unsigned long* b, const double* w) {
    ArrayList* d = array_list_init(m ? m : 1, sizeof(distance_t), NULL); d->compare = sizeof(distance_t) == sizeof(double) ? double_compare : float_compare;
    for (size_t i = 0; i < m; i++) { distance_t x = (distance_t)w[i]; array_list_append(d, &x); }
    return graph_init(mem, (index_t)n, il(a, m), il(b, m), d);
}
size_t tg_edges(void* gg, unsigned long* a, unsigned long* b, double* w) {
    UndirectedGraph* g = gg; size_t m = g->edgeWeights->size; if (g->verticesA->size != m || g->verticesB->size != m) return (size_t)-1;
    for (size_t i = 0; i < m; i++) { a[i] = ((index_t*)g->verticesA->data)[i]; b[i] = ((index_t*)g->verticesB->data)[i]; w[i] = ((distance_t*)g->edgeWeights->data)[i]; }
    return m;
}
size_t tg_adj(void* gg, unsigned long v, unsigned long* out, size_t cap) {
    UndirectedGraph* g = gg; ArrayList* l = g->edges[v]; for (size_t i = 0; i < l->size && i < cap; i++) out[i] = ((index_t*)l->data)[i]; return l->size;
}
void tg_sort(void* g) { graph_quicksort_by_edge_weight(g); }
void tg_sort_range(void* g, long s, long e) { graph_quicksort(g, s, e); }
void tg_remove(void* g, unsigned long a, unsigned long b) { graph_remove_edge(g, (index_t)a, (index_t)b); }
void tg_destroy(void* g) { graph_destroy(g); }
void tg_clean(void* g) { graph_clean(g); }
void tg_print(void* g) { graph_print(g); }
size_t tc_size(void) { return sizeof(cluster); }
void* tc_make(void* mem, unsigned long label, void* parent, double birth, unsigned long n) { return cluster_init(mem, (label_t)label, parent, (distance_t)birth, (index_t)n); }
int tc_detach(void* c, unsigned long n, double l) { return cluster_detach_points(c, (index_t)n, (distance_t)l) == CLUSTER_SUCCESS; }
void tc_propagate(void* c) { cluster_propagate(c); }
void tc_cons(void* c, unsigned long n) { cluster_add_constraints_satisfied(c, (index_t)n); }
void tc_vcons(void* c, unsigned long n) { cluster_add_virtual_child_constraints_satisfied(c, (index_t)n); }
void tc_vadd(void* c, const unsigned long* p, size_t k) {
    set_t* s = set_init(sizeof(index_t), sizeof(index_t) == sizeof(int) ? int_compare : sizeof(index_t) == sizeof(long) ? long_compare : short_compare);
    for (size_t i = 0; i < k; i++) { index_t x = (index_t)p[i]; set_insert(s, &x); }
    cluster_add_points_to_virtual_child_cluster(c, s); set_delete(s);
}
int tc_vhas(void* c, unsigned long p) { return cluster_virtual_child_contains_point(c, (index_t)p); }
void tc_vrelease(void* c) { cluster_release_virtual_child(c); }
void tc_destroy(void* c) { cluster_destroy(c); }
int tc_compare(void* a, void* b) { return cluster_compare(a, b); }
void tc_read(void* cc, double o[12]) {
    cluster* c = cc; o[0] = (double)c->label; o[1] = c->birthLevel; o[2] = c->deathLevel; o[3] = (double)c->numPoints; o[4] = c->stability; o[5] = c->propagatedStability; o[6] = c->propagatedLowestChildDeathLevel;
    o[7] = (double)c->numConstraintsSatisfied; o[8] = (double)c->propagatedNumConstraintsSatisfied; o[9] = c->parent ? (double)c->parent->label : -1; o[10] = c->hasChildren ? 1 : 0; o[11] = c->virtualChildCluster ? (double)set_size(c->virtualChildCluster) : -1;
}
size_t tc_desc(void* cc, unsigned long* out, size_t cap) { cluster* c = cc; ArrayList* l = c->propagatedDescendants; for (size_t i = 0; i < l->size && i < cap; i++) out[i] = ((cluster**)l->data)[i]->label; return l->size; }
size_t tc_virt(void* cc, unsigned long* out, size_t cap) { cluster* c = cc; set_t* s = c->virtualChildCluster; if (!s) return 0; size_t n = set_size(s); for (size_t i = 0; i < n && i < cap; i++) { index_t x; set_value_at(s, i, &x); out[i] = x; } return n; }
