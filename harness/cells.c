#include <stdlib.h>
#include <string.h>
#include <omp.h>
#include "hdbscan/hdbscan.h"
#include "cells.h"
size_t cell_bytes(void) { return sizeof(distance_t); }
unsigned long cell_max_points(void) { return (unsigned long)(index_t)-1; }
void* cell_space(unsigned long n, void* cells) { distance* d = distance_init(NULL, _EUCLIDEAN, H_DOUBLE); d->rows = (index_t)n; d->cols = 1; d->distances = cells; return d; }
void cell_space_free(void* p) { distance* d = p; d->distances = NULL; distance_destroy(d); }
double cell_get(void* d, unsigned long i, unsigned long j) { return (double)distance_get(d, (index_t)i, (index_t)j); }
void* cell_compute(const double* x, unsigned long n) { distance* d = distance_init(NULL, _EUCLIDEAN, H_DOUBLE); distance_compute(d, (void*)x, (index_t)n, 1, 1); return d; }
void* cell_base(void* d) { return ((distance*)d)->distances; }
void cell_destroy(void* d) { distance_destroy(d); }
void cell_threads(int n) { omp_set_num_threads(n); }
