/* Plain-C view of the library under test: everything a run leaves in a handle
 * is flattened into one array of doubles, so that C++ explorers and several
 * build configurations can be driven through the same functions. */
#ifndef SUT_H
#define SUT_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { double* v; size_t n, cap; } sut_blob;
void* sut_new(unsigned long minPts);
void* sut_new_in(void* mem, unsigned long minPts);
size_t sut_handle_size(void);
int sut_run(void* h, void* data, unsigned long rows, unsigned long cols, int rowwise, int datatype);
int sut_rerun(void* h, unsigned long minPts);
void sut_clean(void* h);
void sut_destroy(void* h);
/* sections: [n minPts] [dist n*n] [core n] [m (a b w)*m] [labels n] [scores (id s c)*n] [clusters] [hierarchy] */
void sut_read(void* h, sut_blob* out, int with_dist);
void sut_blob_free(sut_blob*);
int sut_sizeof(int which); /* 0 label 1 index 2 distance */
double sut_dmax(void);
double sut_dmin(void);
/* stepwise pipeline: everything but the named last stages, for checks that look at one stage */
int sut_propagate_again(void* h);
/* the steps of a run one by one on a handle that has run (its results are replaced), with full or compact hierarchy */
int sut_stages(void* h, int compact);
/* the same on a handle set up by hand, without hdbscan_run */
void* sut_staged(unsigned long minPts, void* data, unsigned long rows, unsigned long cols, int datatype, int compact, int* rc);
/* cluster map over labels[begin,end): blob [k (label cnt idx*cnt)*k] in key order; returns opaque table in *tab */
void* sut_cluster_map(const double* labels, size_t total, unsigned long begin, unsigned long end, sut_blob* out);
void* sut_cluster_map_of(void* h, unsigned long begin, unsigned long end, sut_blob* out);
void sut_map_read(void* tab, sut_blob* out);
void sut_cluster_map_destroy(void* tab);
/* distance map: [k (label min_cr max_cr crc min_dr max_dr drc)*k] */
void* sut_distance_map(void* h, void* clustertab, sut_blob* out);
void sut_distance_map_read(void* dmap, sut_blob* out);
void sut_distance_map_destroy(void* dmap);
/* build a distance map by hand from rows of 7 doubles as above */
void* sut_distance_map_make(const double* rows, size_t k);
/* stats: 12 doubles + count: [count, core(mean,sd,var,max,kurt,skew), intra(...)]; prefill!=0 fills the object with the byte first */
void sut_stats(void* dmap, int prefill_byte, double out[13]);
int sut_validity(const double in[13]);
int sut_touched(void); /* whether judging or printing statistics changed them since the last call */
/* sorts: list==NULL means NULL list pointer; returns count, writes labels to out */
size_t sut_sort_by_similarity(void* dmap, const double* list, size_t k, int have_list, int type, double* out);
size_t sut_sort_by_length(void* ctab, const double* list, size_t k, int have_list, double* out);
void sut_quicksort(double* labels, double* keys, size_t k, int left, int right);
int sut_score_compare(const double a[3], const double b[3]); /* score, core distance, id */
/* printing, to stdout */
void sut_print(void* h, int what, void* ctab, void* dmap, const double stats[13], char* filename);
/* objects made by hand: k levels of n labels (n = 0: none) as rows [key weight labels...]; n scores as [id score core] */
void* sut_hier_make(const double* rows, size_t k, size_t n);
void sut_hier_print(void* t, size_t n, char* fn);
void sut_hier_destroy(void* t);
void sut_scores_print(const double* rows, size_t n);
void sut_flush(void);
void sut_set_threads(int n);
#ifdef __cplusplus
}
#endif
#endif
