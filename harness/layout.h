/* Offsets and sizes of the structures shared by C and C++, as seen by the language this is compiled in. */
#define LAYOUT_ROWS \
    S(hdbscan) O(hdbscan, distanceFunction) O(hdbscan, mst) O(hdbscan, constraints) O(hdbscan, coreDistances) O(hdbscan, clusters) O(hdbscan, outlierScores) O(hdbscan, clusterLabels) O(hdbscan, hierarchy) O(hdbscan, clusterStabilities) O(hdbscan, selfEdges) O(hdbscan, minPoints) O(hdbscan, minClusterSize) O(hdbscan, numPoints) \
    S(distance) O(distance, distances) O(distance, coreDistances) O(distance, rows) O(distance, cols) O(distance, internalRows) O(distance, internalCols) O(distance, numNeighbors) O(distance, cal) O(distance, datatype) \
    S(UndirectedGraph) O(UndirectedGraph, numVertices) O(UndirectedGraph, verticesA) O(UndirectedGraph, verticesB) O(UndirectedGraph, edgeWeights) O(UndirectedGraph, edges) \
    S(cluster) O(cluster, label) O(cluster, birthLevel) O(cluster, deathLevel) O(cluster, numPoints) O(cluster, offset) O(cluster, stability) O(cluster, propagatedStability) O(cluster, propagatedLowestChildDeathLevel) O(cluster, numConstraintsSatisfied) O(cluster, propagatedNumConstraintsSatisfied) O(cluster, virtualChildCluster) O(cluster, parent) O(cluster, propagatedDescendants) O(cluster, hasChildren) \
    S(outlier_score) O(outlier_score, score) O(outlier_score, coreDistance) O(outlier_score, id) \
    S(constraint) O(constraint, type) O(constraint, pointA) O(constraint, pointB) \
    S(distance_values) O(distance_values, min_cr) O(distance_values, max_cr) O(distance_values, cr_confidence) O(distance_values, min_dr) O(distance_values, max_dr) O(distance_values, dr_confidence) \
    S(stats_values) O(stats_values, mean) O(stats_values, standardDev) O(stats_values, variance) O(stats_values, max) O(stats_values, kurtosis) O(stats_values, skewness) \
    S(clustering_stats) O(clustering_stats, count) O(clustering_stats, coreDistanceValues) O(clustering_stats, intraDistanceValues) \
    S(hierarchy_entry) O(hierarchy_entry, edgeWeight) O(hierarchy_entry, labels) \
    S(ArrayList) O(ArrayList, data) O(ArrayList, size) O(ArrayList, compare) S(hashtable) O(hashtable, keys) O(hashtable, size) S(boolean) S(label_t) S(index_t) S(distance_t)
struct layout_row { const char* name; unsigned long v; };
