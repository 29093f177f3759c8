// C30: access to the distance storage, compiled against the library's headers.
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
size_t cell_bytes(void);            // size of one stored distance
unsigned long cell_max_points(void);    // largest number of points the index type can hold
void* cell_space(unsigned long n, void* cells);     // a distance object of n points whose cells are the given memory
void cell_space_free(void* d);
double cell_get(void* d, unsigned long i, unsigned long j);
void* cell_compute(const double* x, unsigned long n);   // a distance object computed from n values; cells by cell_base
void* cell_base(void* d);
void cell_threads(int n);
void cell_destroy(void* d);
#ifdef __cplusplus
}
#endif
