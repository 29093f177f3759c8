/* Flat C view of the graph and cluster objects. */
#ifndef TREE_H
#define TREE_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
size_t tg_size(void);
void* tg_make(void* mem, unsigned long n, size_t m, const unsigned long* a, const unsigned long* b, const double* w);
size_t tg_edges(void* g, unsigned long* a, unsigned long* b, double* w);        /* returns the number of edges, (size_t)-1 if the arrays disagree */
size_t tg_adj(void* g, unsigned long v, unsigned long* out, size_t cap);
void tg_sort(void* g);
void tg_sort_range(void* g, long s, long e);
void tg_remove(void* g, unsigned long a, unsigned long b);
void tg_destroy(void* g);
void tg_clean(void* g);
void tg_print(void* g);
size_t tc_size(void);
void* tc_make(void* mem, unsigned long label, void* parent, double birth, unsigned long n);
int tc_detach(void* c, unsigned long n, double level);
void tc_propagate(void* c);
void tc_cons(void* c, unsigned long n);
void tc_vcons(void* c, unsigned long n);
void tc_vadd(void* c, const unsigned long* p, size_t k);
int tc_vhas(void* c, unsigned long p);
void tc_vrelease(void* c);
void tc_destroy(void* c);
int tc_compare(void* a, void* b);
/* label birth death numPoints stability pstab plow ncons pncons parentlabel(-1) kids nvirt(-1 none) */
void tc_read(void* c, double out[12]);
size_t tc_desc(void* c, unsigned long* out, size_t cap);
size_t tc_virt(void* c, unsigned long* out, size_t cap);
#ifdef __cplusplus
}
#endif
#endif
