import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
core="The repository's stable tests only exercise the containers; no test runs the clustering at all. "
p("C01","Pairwise distances are Euclidean for every type, shape and layout",
 "After a run, the stored distance between any two points equals the Euclidean distance of their coordinate vectors, for each of the six supported element types, every number of columns, and both layouts (row-per-point, or element-per-point when row-wise is off). It is symmetric, zero on the diagonal, accurate also where the difference of two elements does not fit their own type (as long as the squares are representable), and no two pairs share storage.",
 ["inputs","configurations"],"all finite data sets of every element type, all shapes rows x cols, both layouts",
 core+"Which cell of the packed triangle a pair uses, and how operands are widened, depends on type, shape and values.",
 ["src/distance.c","include/hdbscan/distance.h","src/hdbscan.c","modules/utils/include/hdbscan/utils.h"],
 [("distance_compute","src/distance.c"),("distance_get","src/distance.c"),("hdbscan_get_dataset_size","src/hdbscan.c"),("TRIANGULAR_H","modules/utils/include/hdbscan/utils.h")],
 [("distances","packed upper triangle of the distance matrix","struct Distance")],["distance_get"])
p("C02","Core distance is the minPts-th smallest distance, with multiplicity",
 "A point's core distance is the minPts-th smallest value in the multiset of distances from it to all points including itself, whatever ties or duplicates occur and in whatever order the points are given. If minPts exceeds the number of points it is the largest representable distance.",
 ["inputs"],"all data sets and all minPts >= 2, in particular all tie patterns and all arrival orders",
 core+"The bounded insertion buffer is wrong only for particular tie patterns and arrival orders.",
 ["src/distance.c"],[("distance_get_core_distances","src/distance.c")],[("coreDistances","core distance of each point","struct Distance")],["distance.coreDistances"])
p("C03","The tree built is a minimum spanning tree of mutual reachability",
 "The edges kept by a run (self edges aside) connect all points without a cycle, each carries the mutual reachability distance of its end points (the maximum of their distance and both core distances), and no spanning tree has a smaller total weight. In addition every point has exactly one self edge carrying its core distance, and the edges are ordered by non-decreasing weight.",
 ["inputs"],"all data sets and all minPts from 2 to the number of points",core+"Ties and orderings of distances are a combinatorial space.",
 ["src/hdbscan.c","src/undirected_graph.c"],[("hdbscan_construct_mst","src/hdbscan.c"),("graph_quicksort_by_edge_weight","src/undirected_graph.c")],[("mst","edge arrays","struct hdbscan")],["sc->mst"])
p("C04","Each hierarchy level partitions the points as single linkage does",
 "For every level of the hierarchy, two points carry the same non-zero label exactly when they are in the same cluster, i.e. connected through pairs whose mutual reachability distance does not exceed that level's edge weight in a component of at least minPts points; a point that fell into a smaller component at a higher level is labelled 0 (noise). The levels are the distinct edge weights at which a non-noise component changes, in descending order, a component that merely loses noise keeps its label, components of a split get fresh labels; each level shows the labels in force before its edges are removed (so the first level shows every point in the root), and the closing level labels every point 0.",
 ["inputs"],"all data sets and minPts; all tie patterns of edge weights",core+"The level-by-level exploration with early exit behaves differently for each tie pattern and vertex numbering.",
 ["src/hdbscan.c"],[("hdbscan_compute_hierarchy_and_cluster_tree","src/hdbscan.c")],[("hierarchy","level -> (edge weight, labels)","struct hdbscan")],["sc->hierarchy"])
p("C05","Cluster tree records match the hierarchy: births, deaths, stability",
 "Every cluster's parent, birth level, death level, number of remaining points, first hierarchy row and set of points lost to noise agree with the hierarchy. Its stability is the sum over its points of (1/level at which the point leaves the cluster - 1/birth level).",
 ["inputs"],"all data sets and minPts",core+"Bookkeeping is distributed over splits, shrinks and simultaneous events.",
 ["src/hdbscan.c","src/cluster.c"],[("cluster_detach_points","src/cluster.c"),("hdbscan_create_new_cluster","src/hdbscan.c")],[("clusters","cluster tree","struct hdbscan")],["sc->clusters"])
p("C06","The flat labels are the most stable selection of clusters",
 "The clusters selected for the flat result form the set of non-overlapping non-root clusters with maximum total stability, an ancestor being preferred to its descendants on a tie; if the root never splits nothing is selected. Each point is labelled with the selected cluster that contained it when that cluster was born, and 0 if there is none.",
 ["inputs"],"all data sets and minPts, all shapes of cluster tree",core+"Optimality is a statement about all antichains of the cluster tree.",
 ["src/hdbscan.c","src/cluster.c"],[("cluster_propagate","src/cluster.c"),("hdbscan_propagate_tree","src/hdbscan.c"),("hdbscan_find_prominent_clusters","src/hdbscan.c")],[("clusterLabels","flat labels","struct hdbscan")],["sc->clusterLabels"])
p("C07","Outlier scores are GLOSH scores in [0,1], sorted",
 "A run reports exactly one outlier score per point: 1 - (lowest death level among the last cluster the point belonged to and its descendants) / (level at which the point became noise), or 0 if that level is 0. Every score lies in [0,1], carries that point's core distance, and the list is in ascending order of score, then core distance, then point number.",
 ["inputs"],"all data sets and minPts",core+"Depends on the whole tree, including trees that never split and points that fall out at level zero.",
 ["src/hdbscan.c","src/outlier_score.c","src/cluster.c"],[("hdbscsan_calculate_outlier_scores","src/hdbscan.c"),("outlier_score_compare","src/outlier_score.c"),("cluster_propagate","src/cluster.c")],[("outlierScores","score array","struct hdbscan")],["sc->outlierScores"])
p("C08","Infinite stability is reported exactly when it occurs",
 "The stability-propagation step returns true and prints its warning if and only if at least one cluster has infinite stability (which happens when at least minPts duplicates form a cluster born at a positive level). Otherwise it returns false and prints no warning.",
 ["inputs"],"all data sets and minPts, with and without replicated points",core+"Needs replicates in specific positions.",
 ["src/hdbscan.c"],[("hdbscan_propagate_tree","src/hdbscan.c")],None,["hdbscan_propagate_tree return value","stdout"])
p("C09","Any sequence of uses of a handle behaves like fresh runs, without leaks",
 "After any sequence of init, run, rerun, clean and destroy calls, in any order the API allows and including a second run on a used handle and cleaning a handle that never ran, the results visible in the handle equal those of a fresh handle given only the last data set and minPts. No sequence reads or frees invalid memory, and once the handle is destroyed everything the library allocated has been released.",
 ["histories","inputs"],"all operation sequences over several data sets and minPts values",core+"Left-over state depends on the sequence of operations.",
 ["src/hdbscan.c","src/distance.c"],[("hdbscan_minimal_clean","src/hdbscan.c"),("hdbscan_rerun","src/hdbscan.c"),("hdbscan_clean","src/hdbscan.c"),("hdbscan_destroy","src/hdbscan.c")],None,["whole handle"])
p("C10","Results do not depend on the number or scheduling of threads",
 "For the same input, every result of a run, rerun and the post-processing calls (distances, core distances, hierarchy, clusters, labels, outlier scores, cluster map, statistics, sorted clusters) is the same whatever the number of threads executing the parallel regions and however they are interleaved. No interleaving crashes, deadlocks or corrupts memory.",
 ["schedules","inputs"],"all team sizes and all interleavings of the threads of each parallel region",core+"Tests sample one schedule per run; a bad interleaving may need one preemption between two specific accesses.",
 ["src/hdbscan.c","src/distance.c","src/undirected_graph.c"],[("private/shared clauses and critical sections of the parallel loops","src/hdbscan.c, src/distance.c, src/undirected_graph.c")],None,["all results"])
p("C11","Clustering is invariant under point order, translation and scaling",
 "Reordering the points permutes labels (up to renaming), noise, core distances and outlier scores accordingly; translating all points or mirroring an axis changes nothing; scaling all coordinates by a positive power of two scales distances, levels and inverse stabilities exactly and changes neither labels nor scores (selections tied up to rounding of the stabilities excepted).",
 ["inputs"],"all data sets, all permutations, translations and power-of-two scalings",core+"A statement about pairs of runs, over all permutations.",
 ["src/hdbscan.c","src/distance.c"],[("hdbscan_do_run","src/hdbscan.c")],None,["labels","scores","core distances"])
p("C12","The configured label, index and distance types do not change results",
 "For every supported build configuration of the label type, the index type (unsigned short, int or long) and the distance type (float or double), the same input that fits the configured types gives the same partition, hierarchy, cluster map, sorted orders and, up to the precision of the distance type, the same numeric results.",
 ["configurations","inputs"],"all 18 combinations of label, index and distance types",core+"Only one configuration is ever built and tested.",
 ["config.h.in","src/hdbscan.c","src/cluster.c","src/distance.c","src/undirected_graph.c"],[("size-of-type dispatch of comparators and key types","src/hdbscan.c, src/cluster.c, src/undirected_graph.c")],None,["all results"])
p("C13","The cluster map is the exact partition given by the labels",
 "For any label array and any sub-range of it, the cluster map has one entry per distinct label in the range, and that entry lists exactly the indices in the range carrying the label, in ascending order. This includes empty and very short ranges, labels of any value and any number of distinct labels, and destroying the map releases it completely.",
 ["inputs"],"all label arrays and ranges",core+"Bucket collisions and list sizes depend on the label values and range length.",
 ["src/hdbscan.c","modules/collections/src/hashtable.c"],[("hdbscan_create_cluster_map","src/hdbscan.c"),("hdbscan_destroy_cluster_map","src/hdbscan.c")],None,["returned table"])
p("C14","Per-cluster distance ranges are the true minima and maxima",
 "For every cluster of a cluster map, the distance map holds the largest core distance and largest pairwise distance of its points, and the smallest non-zero core distance and smallest non-zero pairwise distance (0 when all its core distances are 0), independent of the order of the points. Clusters without a non-zero pairwise distance keep the documented sentinels (largest and smallest positive representable values).",
 ["inputs"],"all data sets, minPts and partitions",core+"Zeros and order of points matter.",
 ["src/hdbscan.c"],[("hdbscan_get_min_max_distances","src/hdbscan.c")],None,["returned table"])
p("C15","Cluster statistics, confidences and validity follow their definitions",
 "From the per-cluster ratios max/min of core and pairwise distances, the statistics report count, maximum, mean, sample variance, standard deviation, skewness and excess kurtosis of these ratios, and each cluster gets the confidence (max ratio - its ratio)/max ratio * 100, whatever the statistics object held before. The validity is the documented score of the signs of skewness and kurtosis, the core and pairwise parts each contributing 2, 1, 0 or -1.",
 ["inputs"],"all distance maps, all sign patterns, all prior contents of the result object",core+"Result accumulates into caller-supplied memory.",
 ["src/hdbscan.c"],[("hdbscan_calculate_stats","src/hdbscan.c"),("hdbscan_calculate_stats_helper","src/hdbscan.c"),("hdbscan_analyse_stats","src/hdbscan.c")],None,["clustering_stats"])
p("C16","Sorting clusters permutes them into the requested order",
 "Sorting clusters by similarity or by length returns each requested cluster exactly once, in non-decreasing order of its own confidence (core or pairwise, as requested) or size; with no list, or an empty list, given it covers every cluster of the table. The underlying pair sort orders the keys and keeps every label attached to its key, for all contents and lengths.",
 ["inputs"],"all tables, all subsets and orders of requested clusters, all key sequences with ties",core+"Permutations and ties are a combinatorial space.",
 ["src/hdbscan.c"],[("hdbscan_sort_by_similarity","src/hdbscan.c"),("hdbscan_sort_by_length","src/hdbscan.c"),("hdbscan_quicksort","src/hdbscan.c")],None,["returned list"])
p("C17","Printing and exporting show the true contents and are memory safe",
 "The hierarchy export writes <name>_hierarchy.csv with one line per level holding its weight and every label, and <name>_visualization.vis with the level count, for any file name; the print functions for distances, cluster map, sizes, distance map, statistics, scores, hierarchy and graph show the actual values. None of them overruns a buffer, whatever the magnitude of the values or the length of the name.",
 ["inputs"],"all values up to the largest representable, all name lengths",core+"Fixed-size buffers fail only for particular magnitudes and lengths.",
 ["src/hdbscan.c","src/distance.c","src/undirected_graph.c"],[("hdbscan_print_hierarchies","src/hdbscan.c"),("hdbscan_print_*","src/hdbscan.c"),("distances_print","src/distance.c"),("graph_print","src/undirected_graph.c")],None,["stdout","files"])
p("C18","Graphs keep edges and adjacency consistent under sort and removal",
 "Building a graph from edge arrays lists every non-self edge at both end points and every self edge once; sorting orders the edges by weight without altering, losing or duplicating any; removing an edge removes one occurrence of it from the adjacency and nothing else. Destroying the graph releases everything it owns.",
 ["inputs","histories"],"all small multigraphs with self edges and weight ties, all orders of removals",core+"All tie patterns and removal orders matter.",
 ["src/undirected_graph.c"],[("graph_init","src/undirected_graph.c"),("graph_quicksort_by_edge_weight","src/undirected_graph.c"),("graph_remove_edge","src/undirected_graph.c")],None,["UndirectedGraph"])
p("C19","Cluster objects propagate constraints and stability upwards correctly",
 "Processing a cluster tree bottom-up gives each parent, from every child, either the child itself (if it is a leaf, satisfies more constraints than its descendants together, or ties on constraints and is at least as stable) or the child's own propagated descendants, with the matching sums of stability and constraints and the lowest death level of the subtree. Detaching points updates count, stability and death level; the virtual child holds exactly the points added to it until it is released, which leaves the rest of the tree intact.",
 ["inputs","histories"],"all trees up to a size with all assignments of constraints and stabilities; all operation sequences on a cluster",core+"Ties between constraints and stabilities are combinatorial.",
 ["src/cluster.c","include/hdbscan/cluster.h"],[("cluster_propagate","src/cluster.c"),("cluster_detach_points","src/cluster.c"),("cluster_release_virtual_child","src/cluster.c")],None,["cluster"])
tt="The tests run a handful of fixed operation sequences; "
p("C20","The array list behaves as a sequence under every operation history",
 "After any sequence of append, insert-at, replace-at, remove-at, remove, pop, clear (with or without shrinking), sort and lookups, for every element size, the array list holds exactly the sequence a plain list would hold, each call returns what it documents, rejected calls (positions out of range) change nothing, and no memory outside the list is touched.",
 ["histories"],"all operation sequences, element sizes and initial capacities",tt+"growth, shrinking and boundary positions interact over histories.",
 ["modules/collections/src/list.c"],[("array_list_*","modules/collections/src/list.c")],[("size/max_size","element count and capacity","struct ArrayList")],["ArrayList"])
p("C21","The set is a sorted duplicate-free set under every operation history",
 "After any sequence of insert, remove, remove-at, clear and lookups with any of the element types, the set holds each inserted and not removed value exactly once in ascending order; insert tells whether the value was new, remove whether it was present, and find and value-at agree with the sorted sequence.",
 ["histories"],"all operation sequences over small value domains, all element types",tt+"search boundaries and growth interact over histories.",
 ["modules/collections/src/set.c","modules/collections/src/list.c"],[("set_insert","modules/collections/src/set.c"),("set_find","modules/collections/src/set.c")],None,["set_t"])
p("C22","The hash table is a finite map under every operation history",
 "After any sequence of insert, overwrite, remove, clear and lookups, for every supported scalar key type and every number of buckets, the table maps exactly the keys a plain map would, also when all keys share a bucket; overwrite and remove hand back the complete previous value, the key set and size agree with the contents, and destroy applies the key and value destructors exactly once to each remaining key and value and releases everything.",
 ["histories","inputs"],"all operation sequences over small key domains with forced collisions, all key and value types, all bucket counts",tt+"chain unlinking depends on positions within a bucket.",
 ["modules/collections/src/hashtable.c"],[("hashtable_insert","modules/collections/src/hashtable.c"),("hashtable_remove","modules/collections/src/hashtable.c"),("hashtable_clear","modules/collections/src/hashtable.c")],None,["hashtable"])
p("C23","The linked list is a double-ended sequence under every operation history",
 "After any sequence of front add, tail add, remove, removing lookup, clear and queries, traversing the linked list forwards and backwards gives the same sequence a plain deque would hold, head, tail, size and value-at agree with it, and deleting the list releases everything.",
 ["histories"],"all operation sequences over small value domains",tt+"unlinking depends on the position of the node.",
 ["modules/collections/src/linkedlist.c"],[("linkedlist_node_unhook","modules/collections/src/linkedlist.c")],None,["linkedlist"])
p("C24","Prime helpers return the primes they promise",
 "The prime lookup returns the largest tabulated prime strictly below its argument, 3 for arguments up to 3, and the largest tabulated prime for arguments beyond the table. The prime generator returns the smallest prime greater than its argument.",
 ["inputs"],"all non-negative arguments",tt+"only a few arguments are sampled (and the prime test of the repository fails at the pinned commit).",
 ["modules/collections/src/primes.c"],[("find_prime_less_than","modules/collections/src/primes.c"),("get_prime","modules/collections/src/primes.c")],None,["return value"])
p("C25","Comparators are total orders and equal keys hash equally, in range",
 "Each value and pointer comparator of the utilities orders its type totally and consistently with the numeric order (sign of the result, antisymmetric, transitive, zero exactly on equality). Each hash function returns a bucket number below the bucket count, the same for equal keys; type sizes are the true sizes, and the capacity helper returns a power of two above its argument.",
 ["inputs"],"all pairs and triples over each type's boundary values, all bucket counts",tt+"boundary values are not sampled.",
 ["modules/utils/src/utils.c"],[("*_compare","modules/utils/src/utils.c"),("*_hash","modules/utils/src/utils.c")],None,["return values"])
p("C26","A failed allocation leaves a growing container intact",
 "If memory runs out while an element is added to an array list, set, linked list or hash table, the call reports failure and the container still holds exactly its previous contents, remains usable, and can be destroyed. Creating a list, set, linked list or hash table under memory failure returns null without leaking or crashing.",
 ["fault_sequences","histories"],"every allocation of every short operation history made to fail",tt+"no test injects allocation failures.",
 ["modules/collections/src/list.c","modules/collections/src/hashtable.c","modules/collections/src/linkedlist.c"],[("array_list_grow","modules/collections/src/list.c"),("hashtable_init_size","modules/collections/src/hashtable.c")],None,["return values","contents"])
p("C27","The Python binding agrees with the C API and its objects are independent",
 "Each Python clustering object returns the labels, cluster map and hierarchy that the C interface computes for its own data and minPts, after any interleaving of calls on several objects and after any rerun. Arrays already returned stay valid and unchanged, and invalid arguments raise an exception instead of crashing the interpreter. A discarded object and the results it returned leave nothing allocated.",
 ["histories","inputs"],"all interleavings of calls on two objects up to a depth, all array element types",core+"No test uses the binding.",
 ["modules/python/src/PyHdbscan.c"],[("PyHdbscan_run / rerun / getters","modules/python/src/PyHdbscan.c")],None,["Python attributes and return values"])
p("C28","The Java binding agrees with the C API and its objects are independent",
 "Each Java clustering object returns the labels and cluster map that the C interface computes for its own data and minPts, after any interleaving of run, rerun, clean and queries on several objects. Every declared native method can be called. Invalid arguments raise an exception and leave the object as it was, arrays already returned stay unchanged, and a cleaned object holds no native memory.",
 ["histories","inputs"],"all interleavings of calls on two objects up to a depth",core+"No test uses the binding.",
 ["modules/java/src/Hdbscan.cpp"],[("Java_bw_co_roguesystems_Hdbscan_*","modules/java/src/Hdbscan.cpp")],None,["Java return values"])
p("C29","The C++ interface gives the same results as the C interface",
 "Constructing, running, rerunning, cleaning and destroying a C++ clustering object, and the C++ cluster map, distance map, statistics and sorting functions, give the same results as their C counterparts on the same data. Fields of shared structures read the same from C++ as from C, and no sequence of these calls frees memory twice, leaks, or frees the object itself.",
 ["inputs","histories"],"all small data sets and all short operation sequences",core+"No test uses the C++ interface.",
 ["src/hdbscan.cpp","src/distance.cpp","src/undirected_graph.cpp","include/hdbscan/hdbscan.hpp"],[("hdbscan::*","src/hdbscan.cpp")],None,["C++ objects"])
p("C30","Distance storage addresses every pair distinctly for any data set size",
 "For any number of points the index type can hold, each unordered pair of distinct points is stored in its own cell of the distance storage and within its allocated size. The cell used when distances are computed is the one read back later.",
 ["inputs"],"all pairs of points, for sizes up to those where 32-bit arithmetic would wrap",core+"Needs more than 65,536 points to manifest.",
 ["src/distance.c","modules/utils/include/hdbscan/utils.h"],[("distance_get","src/distance.c"),("TRIANGULAR_H","modules/utils/include/hdbscan/utils.h")],None,["distance_get"])
p("C31","Degenerate data sets are clustered without failing",
 "Running on any data set of at least one point and any minPts of at least 2 succeeds and gives one label and one score per point: also with a single point, fewer points than minPts, all points identical, one column, or coordinates of extreme magnitude. With fewer than minPts points every point is noise.",
 ["inputs"],"all data sets of 1 to a few points, all minPts",core+"Size-derived capacities become zero for tiny inputs.",
 ["src/hdbscan.c"],[("hdbscan_run","src/hdbscan.c"),("hdbscan_do_run","src/hdbscan.c")],None,["return code","labels","scores"])
p("C32","Compact hierarchies keep the significant levels; steps by hand equal a run",
 "Calling the steps of a run one by one in the order of hdbscan_run (spanning tree, sort, hierarchy and cluster tree, propagation, prominent clusters, outlier scores), on a handle that has run before and was cleaned for a rerun or on one set up by hand, gives exactly the results of a run, each step reporting success. With compactHierarchy set, the hierarchy contains only the first level, every level at which clusters are born and the level after such a one (numbered consecutively from 1, each with the weight and labels it has in the full hierarchy) plus the closing all-noise level 0; the clusters' offsets name these levels, and everything else - labels, cluster records, stabilities, scores - is as with the full hierarchy.",
 ["inputs","histories"],"all data sets and minPts; all sequences of full and compact passes over one handle",core+"Nothing ever calls the steps separately or asks for a compact hierarchy; which levels are significant depends on the tie pattern.",
 ["src/hdbscan.c"],[("hdbscan_compute_hierarchy_and_cluster_tree","src/hdbscan.c"),("hdbscan_minimal_clean","src/hdbscan.c"),("hdbscan_find_prominent_clusters","src/hdbscan.c")],[("hierarchy","level -> (edge weight, labels)","struct hdbscan"),("offset","level a cluster is born at","struct cluster")],["sc->hierarchy","cluster.offset","sc->clusterLabels","sc->outlierScores"])
p("C33","Log messages come out whole and in order; a debug build shows the same",
 "Every message given to logger_write appears exactly once, in order, unchanged whatever its length and characters, preceded (unless its type is NONE) by the current date and time in brackets, the name of its type and a colon: on standard output in an ordinary build, and in hdbscan.log in the working directory in a build with debugging enabled, where opening the log again later adds to what is already there. A build with debugging enabled computes exactly the same results as an ordinary one and shows the same values when contents are printed or exported (partly in the log instead of on standard output), without memory errors.",
 ["inputs","histories","configurations"],"all sequences of messages, all message contents and lengths, all histories of opening and closing the log, all data sets",core+"No test logs anything, and the debug configuration is never built.",
 ["modules/utils/src/logger.c","modules/utils/include/hdbscan/logger.h","src/hdbscan.c","src/distance.c","src/undirected_graph.c"],[("logger_write","modules/utils/src/logger.c"),("logger_init","modules/utils/src/logger.c"),("graph_print","src/undirected_graph.c")],[("log_file","the open log","modules/utils/src/logger.c")],["hdbscan.log","standard output"])
p("C34","Repeated exports replace files whole, also past files that cannot be written",
 "After any sequence of hierarchy exports, of different hierarchies and to the same or different names, <name>_hierarchy.csv and <name>_visualization.vis hold exactly the hierarchy exported last under that name, whatever they held before, and no other file has appeared or changed. When one of the two files cannot be created, the other is still written in full; a hierarchy whose file cannot be created (or for which no name is given) is shown in full on standard output. An export leaves no file open, loses no memory, and changes neither the handle nor the file name it was given, also when the disk is full.",
 ["histories","fault_sequences"],"all sequences of exports to several names, all combinations of files that exist, cannot be created or cannot be written",core+"No test exports anything, let alone twice or where it cannot.",
 ["src/hdbscan.c"],[("hdbscan_print_hierarchies","src/hdbscan.c")],None,["files","standard output","open descriptors"])
p("C35","Data sets are only read, and queries change nothing and repeat their answers",
 "Running clustering never writes to the caller's data set, not even temporarily, reads nothing outside it, and needs it no longer once the run has returned, so that it may be in read-only memory and be released before a rerun. Building cluster maps, computing distance ranges, evaluating and judging statistics, sorting clusters without giving a list, and printing leave the handle, the maps (except for the confidences an evaluation fills in) and the statistics exactly as they were, lose no memory, and give the same answer whenever they are asked again, in any order.",
 ["inputs","histories"],"all data sets, types and layouts; all sequences of queries",core+"Tests never look at the input again, and never ask twice.",
 ["src/hdbscan.c","src/distance.c"],[("hdbscan_run","src/hdbscan.c"),("distance_compute","src/distance.c"),("hdbscan_create_cluster_map","src/hdbscan.c"),("hdbscan_sort_by_similarity","src/hdbscan.c"),("hdbscan_analyse_stats","src/hdbscan.c")],None,["data set","handle","maps","statistics"])
p("C36","Separate objects, and queries of one handle, are independent across threads",
 "Threads of a program that each use clustering handles of their own (run, rerun, step by step, clean, query, print, export), C++ clustering objects, or lists, sets, tables, linked lists, graphs and clusters of their own, get exactly the results each would get alone, however their steps interleave. The same holds for threads that at the same time query, read and print one handle that has run, each with maps and statistics of its own; the handle is left as it was. No interleaving crashes or corrupts memory (the time stamps of log messages are excepted).",
 ["schedules","histories"],"all interleavings of two or three threads, each with its own script on its own objects or all on one handle",core+"No test starts a thread of its own; a hidden static buffer or memo shows only under particular preemptions.",
 ["src/hdbscan.c","src/distance.c","src/cluster.c","src/undirected_graph.c","modules/collections/src/hashtable.c","modules/collections/src/list.c","modules/collections/src/set.c","modules/collections/src/primes.c"],[("hdbscan_run","src/hdbscan.c"),("hdbscan_get_min_max_distances","src/hdbscan.c"),("hashtable_insert","modules/collections/src/hashtable.c"),("find_prime_less_than","modules/collections/src/primes.c")],None,["handle","maps","statistics","standard output","containers"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P), max(len(x["title"]) for x in P))
