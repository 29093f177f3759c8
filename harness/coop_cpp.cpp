/* The C++ interface, for C10. */
#include "hdbscan/hdbscan.hpp"
#include "sut.h"
namespace cl = clustering;
static void out(sut_blob* b, double x) { if (b->n == b->cap) { b->cap = b->cap ? b->cap * 2 : 256; b->v = (double*)realloc(b->v, b->cap * sizeof(double)); } b->v[b->n++] = x; }
extern "C" void coop_cpp(void* data, unsigned long rows, unsigned long cols, unsigned long m, sut_blob* b) {
    cl::hdbscan o((index_t)m); o.run(data, (index_t)rows, (index_t)cols, 1, H_DOUBLE);
    for (unsigned long i = 0; i < rows; i++) out(b, (double)o.clusterLabels[i]);
    map_t t = cl::createClusterMap(o.clusterLabels, 0, (index_t)rows);
    std::map<label_t, cl::distance_values> D = cl::getMinMaxDistances(o, t); cl::clustering_stats s;
    if (!t.empty()) { cl::calculateStats(D, s); const cl::stats_values* v[2] = {&s.coreDistanceValues, &s.intraDistanceValues}; out(b, (double)s.count); for (int i = 0; i < 2; i++) { out(b, v[i]->mean); out(b, v[i]->variance); out(b, v[i]->standardDev); out(b, v[i]->max); out(b, v[i]->kurtosis); out(b, v[i]->skewness); } }
    for (auto& kv : t) { out(b, (double)kv.first); for (auto i : kv.second) out(b, (double)i); }
    for (auto& kv : D) { out(b, (double)kv.first); out(b, kv.second.min_cr); out(b, kv.second.max_cr); out(b, kv.second.cr_confidence); out(b, kv.second.min_dr); out(b, kv.second.max_dr); out(b, kv.second.dr_confidence); }
    for (int given = 0; given < 2; given++) for (int k = 0; k < 3; k++) {
        std::vector<label_t> v; if (given) for (auto& kv : t) v.push_back(kv.first);
        if (k == 2) cl::sortByLength(t, v); else cl::sortBySimilarity(D, v, k == 0 ? CORE_DISTANCE_TYPE : INTRA_DISTANCE_TYPE);
        out(b, (double)v.size()); for (auto x : v) out(b, (double)x);
    }
}
