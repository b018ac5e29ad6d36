#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that edits stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))
NOTEST = "No existing test calls any clustering code: the suite only covers the collections module on a few fixed values. "

p("C01", "Pairwise distances are exact Euclidean distances for every element type",
  "After a data set is clustered, the distance reported for any two points is the Euclidean distance of their coordinate vectors, for every supported element type (double, float, int, long, short, char) and also when the difference of two integer coordinates does not fit their type. It is symmetric, zero from a point to itself, and every unordered pair of points has its own stored value, at every supported number of points (including more than 65535).",
  ["inputs", "configurations"], "all finite data sets whose squared distances are representable, all element types, all row/column counts, all pairs in either order",
  NOTEST + "Index arithmetic and conversions go wrong only for particular sizes, types and values.",
  ["src/distance.c", "include/hdbscan/distance.h", "modules/utils/include/hdbscan/utils.h"],
  [("distance_compute", "src/distance.c"), ("distance_get", "src/distance.c"), ("TRIANGULAR_H", "modules/utils/include/hdbscan/utils.h")],
  observe=["distance_get"])
p("C02", "Core distance is the distance to the minPts-th nearest point, itself included",
  "For every point, the reported core distance equals the minPts-th smallest value among its distances to all points of the data set, its own zero distance included; duplicates and ties count with their multiplicity. If the data set has fewer than minPts points the core distance is the largest representable distance. This holds after a run and after every re-run with a different minPts.",
  ["inputs", "histories"], "all data sets (ties and duplicates included), all minPts >= 2, first runs and re-runs",
  NOTEST + "The partial insertion sort fails only for particular orders of tied distances.",
  ["src/distance.c"], [("distance_get_core_distances", "src/distance.c")], observe=["hdbscan.distanceFunction.coreDistances"])
p("C03", "The tree is a minimum spanning tree of the mutual reachability graph",
  "The constructed edge list consists of n-1 edges that connect all n points plus one self edge per point; each tree edge carries the mutual reachability distance of its end points (the maximum of their distance and both core distances), each self edge the core distance of its point. The total weight of the tree edges is minimal among all spanning trees, and after sorting, weights are non-decreasing with every edge still attached to its own end points.",
  ["inputs"], "all data sets and minPts >= 2 (also above the number of points), all tie patterns",
  NOTEST + "Minimality is a statement over all spanning trees.",
  ["src/hdbscan.c", "src/undirected_graph.c"],
  [("hdbscan_construct_mst", "src/hdbscan.c"), ("graph_quicksort_by_edge_weight", "src/undirected_graph.c")],
  observe=["hdbscan.mst"])
p("C04", "Every hierarchy level is the density-connected partition at its level",
  "Two points carry the same non-zero label at a hierarchy level exactly when they belong to the same connected component, having at least minPts points, of the mutual reachability graph just before all edges of that level's weight are removed; all other points are labelled noise (0). Levels are ordered by strictly decreasing edge weight, start with all points in one cluster (1) and end with an all-noise level 0, no level at which a label changes is missing, and a cluster keeps its label until it splits in two or more clusters. The compact hierarchy, when requested, is a sub-sequence of the full one that keeps every level at which clusters split.",
  ["inputs", "configurations"], "all data sets, all minPts, full and compact hierarchy",
  NOTEST + "The partition must be right for every threshold of every input.",
  ["src/hdbscan.c", "modules/collections/src/set.c", "modules/collections/src/hashtable.c"],
  [("hdbscan_compute_hierarchy_and_cluster_tree", "src/hdbscan.c"), ("hdbscan_create_new_cluster", "src/hdbscan.c"), ("graph_remove_edge", "src/undirected_graph.c")],
  observe=["hdbscan.hierarchy"])
p("C05", "The cluster tree records births, deaths, parents and stabilities correctly",
  "The cluster tree contains exactly the clusters that appear in the hierarchy, each with its parent cluster, the edge weight at which it was born and at which its last member left, and a stability equal to the sum over its members of (1/weight at which the member left - 1/birth weight). Every point that leaves a cluster for noise is recorded as a noise member of that cluster and of no other; each cluster's lowest descendant death level is the minimum over its sub-tree. Runs report an infinite stability exactly when some cluster has one.",
  ["inputs"], "all data sets (duplicates included) and minPts",
  NOTEST + "Stability sums depend on the whole split history of each cluster.",
  ["src/cluster.c", "src/hdbscan.c"],
  [("cluster_detach_points", "src/cluster.c"), ("cluster_propagate", "src/cluster.c"), ("hdbscan_propagate_tree", "src/hdbscan.c")],
  observe=["hdbscan.clusters"])
p("C06", "The flat clustering is the most stable selection from the cluster tree",
  "The reported labels are those of a set of non-overlapping clusters of the cluster tree, never the root, whose total stability is maximal, a parent being preferred to its descendants when both are equally stable. A point carries the label of the selected cluster it belonged to when that cluster was born and is noise (0) otherwise; so no point is in two clusters, every selected cluster has at least minPts points, and a data set with no split is all noise.",
  ["inputs"], "all data sets and minPts",
  NOTEST + "Optimality is a statement over all selections of clusters.",
  ["src/hdbscan.c", "src/cluster.c"],
  [("hdbscan_find_prominent_clusters", "src/hdbscan.c"), ("cluster_propagate", "src/cluster.c")],
  observe=["hdbscan.clusterLabels"])
p("C07", "Outlier scores are correct, complete and sorted",
  "After a run there is exactly one outlier score per point, and its value is 1 - (lowest death level among the last cluster of the point and its descendants) / (level at which the point became noise), or 0 when that level is 0; so it lies in [0, 1] (1 only when the lowest death level is 0). Each score carries the core distance of its point, and scores are sorted by score, then core distance, then point index.",
  ["inputs"], "all data sets and minPts", NOTEST + "Formula and order must hold for every tree shape.",
  ["src/hdbscan.c", "src/outlier_score.c", "src/cluster.c"],
  [("hdbscsan_calculate_outlier_scores", "src/hdbscan.c"), ("outlier_score_compare", "src/outlier_score.c")],
  observe=["hdbscan.outlierScores"])
p("C08", "Results depend only on the last data set and minPts, not on history",
  "After any sequence of runs on different data sets, re-runs with different minPts and cleans on one object, the labels, core distances, hierarchy, cluster tree and outlier scores equal those of a fresh object run once with the same data set and minPts; running twice gives the same result and the caller's data is never modified.",
  ["histories", "inputs"], "all sequences of run, re-run, clean over all data sets and minPts",
  NOTEST + "Stale state shows only after particular sequences.",
  ["src/hdbscan.c", "src/distance.c"], [("hdbscan_rerun", "src/hdbscan.c"), ("hdbscan_minimal_clean", "src/hdbscan.c"), ("hdbscan_clean", "src/hdbscan.c")],
  observe=["all result fields of hdbscan"])
p("C09", "Any valid call sequence is memory safe, terminates and releases its memory",
  "For every data set of at least one point, every minPts >= 2 (also larger than the number of points), every shape, element type and row-wise flag, and every sequence of init, run, re-run, analysis calls, clean and destroy on library objects, the library terminates without reading or writing outside its allocations and without aborting, and once everything handed out has been destroyed no memory it allocated remains.",
  ["histories", "inputs"], "all lifecycle sequences and all input shapes including one point, all duplicates, minPts > n, rowwise = FALSE",
  NOTEST + "Memory errors show only under a sanitizer and for particular shapes and histories.",
  ["src/hdbscan.c", "src/cluster.c", "src/undirected_graph.c", "src/distance.c"],
  [("hdbscan_init", "src/hdbscan.c"), ("hdbscan_minimal_clean", "src/hdbscan.c"), ("hdbscan_destroy", "src/hdbscan.c")])
p("C10", "Clustering depends only on the geometry of the data set",
  "Permuting the points permutes the labels (up to renaming) and outlier scores accordingly; translating all points, permuting or negating coordinates, appending constant columns, storing the same values in another element type, or flattening single-column data with rowwise = FALSE changes nothing; scaling all coordinates by a positive factor scales distances, core distances and hierarchy weights by it and leaves labels and outlier scores as they were.",
  ["inputs", "configurations"], "all data sets for which the transformed arithmetic is exact", NOTEST + "A metamorphic relation relates pairs of runs.",
  ["src/distance.c", "src/hdbscan.c"], [("hdbscan_run", "src/hdbscan.c"), ("distance_compute", "src/distance.c")],
  observe=["all result fields of hdbscan"])
p("C11", "Results do not depend on the number of threads or their schedule",
  "With OpenMP enabled, every documented result (distances, core distances, labels, hierarchy, cluster tree, outlier scores, statistics, sorted clusters) is the same for every number of threads and every order in which the iterations of a parallel loop run, and equals the result of a single-threaded run; no two threads access the same memory without ordering when one of them writes.",
  ["schedules", "inputs"], "all thread counts, all assignments and orders of loop iterations, all data sets",
  NOTEST + "The tests neither run parallel code nor control the schedule.",
  ["src/hdbscan.c", "src/distance.c", "src/undirected_graph.c", "src/hdbscan.cpp"],
  [("omp parallel for / private / critical clauses", "src/hdbscan.c, src/distance.c")],
  observe=["all result fields of hdbscan"])
p("C12", "The cluster map groups every index of the range under its label, in order",
  "The cluster map of labels over a range [begin, end) has exactly one entry for each distinct label in the range, and the entry lists, in increasing order and without repetition, exactly the indices in the range that carry the label.",
  ["inputs"], "all label arrays and all ranges, in the C and the C++ interface", NOTEST + "Holds over all label patterns and ranges.",
  ["src/hdbscan.c", "src/hdbscan.cpp"], [("hdbscan_create_cluster_map", "src/hdbscan.c"), ("createClusterMap", "src/hdbscan.cpp")])
p("C13", "Per-cluster minimum and maximum distances cover exactly the cluster's members",
  "For each entry of a cluster map, the reported minimum and maximum core distance are the smallest non-zero (zero if all are zero) and largest core distance of its members, and the minimum and maximum intra-cluster distance are the smallest non-zero and the largest distance between two of its members (the largest and the smallest representable distance, D_MAX and D_MIN, when no two members are apart); the values do not depend on the order of the members, and C and C++ interfaces agree.",
  ["inputs"], "all clustered data sets and all partitions of their points", NOTEST + "Order dependence shows only for particular member orders and duplicates.",
  ["src/hdbscan.c", "src/hdbscan.cpp"], [("hdbscan_get_min_max_distances", "src/hdbscan.c"), ("getMinMaxDistances", "src/hdbscan.cpp")])
p("C14", "Clustering statistics, confidences and validity follow their definitions",
  "From a table of per-cluster minimum and maximum distances, the reported count, maximum, mean, sample variance, standard deviation, skewness and excess kurtosis of the max/min ratios follow the documented (GSL) definitions, whatever the statistics record held before; each cluster's confidence is (max ratio - its ratio) / max ratio * 100. The validity score is the sum over core and intra-cluster distances of 2, 1, 0 or -1 according to the signs of skewness and kurtosis.",
  ["inputs"], "all distance tables with at least two clusters and finite ratios; all sign combinations", NOTEST + "Numeric definitions must hold for every table.",
  ["src/hdbscan.c", "src/hdbscan.cpp"], [("hdbscan_calculate_stats", "src/hdbscan.c"), ("hdbscan_calculate_stats_helper", "src/hdbscan.c"), ("hdbscan_analyse_stats", "src/hdbscan.c")])
p("C15", "Sorting clusters by length or similarity is a correct ascending permutation",
  "Sorting clusters by length (number of members) or by core or intra-cluster confidence returns exactly the given cluster labels (all labels of the table when the list is empty) as a permutation in ascending order of that key, for any number of clusters, any ties and any initial order, in the C and C++ interfaces.",
  ["inputs"], "all tables, all sub-lists of their labels in any order, all keys with ties", NOTEST + "Sorting must be right for all permutations and ties.",
  ["src/hdbscan.c", "src/hdbscan.cpp"], [("hdbscan_sort_by_similarity", "src/hdbscan.c"), ("hdbscan_sort_by_length", "src/hdbscan.c"), ("hdbscan_quicksort", "src/hdbscan.c"), ("quickSort", "src/hdbscan.cpp")])
p("C16", "The C++ interface gives the results of the C interface",
  "Running, re-running and cleaning a clustering object through the C++ interface yields the labels, outlier scores, cluster tree and hierarchy the C interface yields for the same input, with all result fields readable from C++, and the C++ functions for cluster maps, distance tables, statistics and sorted labels give what the C functions give; objects of the C++ classes can be created, used, cleaned, used again and destroyed in any order.",
  ["inputs", "histories"], "all data sets, minPts and sequences of run / reRun / clean / destruction", NOTEST + "No test uses the C++ interface.",
  ["src/hdbscan.cpp", "src/distance.cpp", "src/undirected_graph.cpp", "include/hdbscan/hdbscan.hpp", "include/hdbscan/cluster.h", "include/hdbscan/outlier_score.h", "include/hdbscan/undirected_graph.h"],
  [("clustering::hdbscan", "src/hdbscan.cpp"), ("clustering::Distance", "src/distance.cpp"), ("clustering::UndirectedGraph", "src/undirected_graph.cpp")])
p("C17", "The array list behaves as a growable sequence",
  "Under every sequence of append, insert, replace, remove, pop, find, sort and clear with elements of any size, an array list holds exactly the sequence a plain sequence model holds, its operations return the model's results, failed operations (inserting past the end, or memory that cannot be had) change nothing, and it never accesses memory outside its buffer.",
  ["histories"], "all operation sequences, element sizes and initial capacities", "The two existing list tests run a handful of fixed operations on ints and strings.",
  ["modules/collections/src/list.c"], [("array_list_*", "modules/collections/src/list.c")])
p("C18", "The set holds each element once, in sorted order",
  "Under every sequence of inserts, removals, look-ups and clears, a set contains exactly the elements inserted and not removed since, each once, iterates them in ascending order of its comparator, reports an insertion of a present element as such, and finds an element at its position if and only if it is present.",
  ["histories"], "all operation sequences over all key types", "Existing set tests insert a few fixed values.",
  ["modules/collections/src/set.c", "modules/collections/src/list.c"], [("set_insert", "modules/collections/src/set.c"), ("binary_search", "modules/collections/src/list.c")])
p("C19", "The linked list behaves as a double-ended sequence",
  "Under every sequence of additions at either end, look-ups and head or tail reads with and without removal, removals and clears, a linked list holds exactly the sequence a plain sequence model holds: head, tail, size and positional reads agree with the model, and traversing forwards and backwards visits the same nodes.",
  ["histories"], "all operation sequences and element sizes", "The existing test never removes an inner node and continues.",
  ["modules/collections/src/linkedlist.c"], [("linkedlist_node_unhook", "modules/collections/src/linkedlist.c"), ("linkedlist_*", "modules/collections/src/linkedlist.c")])
p("C20", "The hash table behaves as a map",
  "Under every sequence of inserts, look-ups, removals and clears, for every key and value type and number of buckets, a hash table holds exactly the key/value pairs a map model holds; replacing hands back the old value, removing hands back the removed value, its size and sorted key set always agree with its contents, and clearing or destroying it hands each remaining key and value to the given destructors exactly once. Keys and values are stored by value in a slot of their type's size (a string key is identified by the content of its pointer-sized slot).",
  ["histories", "configurations"], "all operation sequences, key types, value types, bucket counts (collision chains included)", "Existing tests cover a few inserts for two type pairs.",
  ["modules/collections/src/hashtable.c"], [("hashtable_*", "modules/collections/src/hashtable.c")])
p("C21", "The prime helper returns the largest prime below its argument",
  "For every argument greater than 3 the prime helper used to size hash tables returns the largest prime smaller than the argument, and 3 for any smaller argument; so every table size request, however large, gets a prime bucket count. Its counterpart returns the smallest prime larger than a non-negative argument.",
  ["inputs"], "all positive 32-bit arguments", "The existing test checks about ten values and fails on a wrong expectation.",
  ["modules/collections/src/primes.c"], [("find_prime_less_than", "modules/collections/src/primes.c")])
p("C22", "Comparators are total orders and hashes are consistent with them",
  "Each comparison function orders its type numerically (negative, zero, positive), is antisymmetric and transitive, and its pointer variant orders the pointed-to values; each hash function returns an index below the bucket count and the same index for equal keys; the element-size and power-of-two helpers return the size of the type and the smallest power of two greater than the argument.",
  ["inputs"], "all values of every type including extremes, all bucket counts", "Comparators are only exercised on a few small positive values.",
  ["modules/utils/src/utils.c"], [("*_compare", "modules/utils/src/utils.c"), ("*_hash", "modules/utils/src/utils.c")])
p("C23", "The undirected graph keeps edges, weights and adjacency consistent",
  "A graph built from any edge list has, for each vertex, one adjacency entry per incident edge (one for a self edge); sorting by weight permutes the edges into non-decreasing weight order without changing the multiset of (end points, weight), under both sorting entry points; removing an edge removes exactly one occurrence at both ends and nothing else.",
  ["inputs", "histories"], "all edge multisets (self and parallel edges included), all weights with ties, all removal sequences", "No test touches the graph.",
  ["src/undirected_graph.c"], [("graph_init", "src/undirected_graph.c"), ("graph_partition", "src/undirected_graph.c"), ("graph_remove_edge", "src/undirected_graph.c")])
p("C24", "Printed and exported results are complete and faithful",
  "Exporting a hierarchy to files writes, for the given name, a visualization file with the level count and a CSV with one row per level holding its weight and every point's label, and leaves no file open; the print functions for hierarchies, cluster maps, cluster sizes, distances, distance tables, outlier scores, statistics and graphs print every value they are given, for values of any magnitude, without overrunning internal buffers.",
  ["inputs"], "all results, file names of any length the system accepts, all magnitudes of values", "Output functions are untested.",
  ["src/hdbscan.c", "src/distance.c", "src/undirected_graph.c", "modules/utils/src/logger.c"],
  [("hdbscan_print_hierarchies", "src/hdbscan.c"), ("hdbscan_print_*", "src/hdbscan.c"), ("distances_print", "src/distance.c"), ("graph_print", "src/undirected_graph.c")])
p("C25", "The Python module reports the core library's results and never crashes",
  "For every numeric array of a supported type (any memory layout) the Python object's labels, cluster map and hierarchy equal the C library's results for the same data and minPts, after run and after any re-run; several objects can be used in any interleaving without influencing each other, results stay valid after the object is re-run or deleted, all memory and references are released with the objects, and unsupported arguments raise an exception instead of crashing.",
  ["histories", "inputs"], "all arrays, dtypes, layouts, object interleavings and invalid arguments", "The Python binding has no tests.",
  ["modules/python/src/PyHdbscan.c"], [("PyHdbscan_run", "modules/python/src/PyHdbscan.c"), ("PyHdbscan_rerun", "modules/python/src/PyHdbscan.c"), ("PyHdbscan_getClusterMap", "modules/python/src/PyHdbscan.c")])
p("C26", "The Java class reports the core library's results",
  "For every double[][] data set the Java object's labels after run and after any re-run equal the C library's labels for the same data and minPts, and its cluster map groups exactly those labels; several objects can be used in any interleaving without influencing each other, array buffers and references obtained from the JVM are given back, and native memory can be released through the documented clean-up method, after which the object can run again (with the minPts it was created with); a null, empty or ragged data set raises an exception and changes nothing.",
  ["histories", "inputs"], "all data sets, minPts, call sequences and object interleavings", "The Java binding has no tests.",
  ["modules/java/src/Hdbscan.cpp", "modules/java/src/bw/co/roguesystems/Hdbscan.java"], [("Java_bw_co_roguesystems_Hdbscan_*", "modules/java/src/Hdbscan.cpp")])
p("C27", "Every supported label, index and distance type gives the same clustering",
  "The library built with any supported combination of label type (unsigned short, int, long), index type (unsigned short, int, long) and distance type (double, float) yields the same labels, hierarchy partitions and cluster tree as the default build, for every data set whose sizes fit those types (2n-1 edges for the index type) and whose distances both builds represent exactly (where a cluster and its descendants are equally stable up to rounding, either may be selected), and the same core distances and outlier scores up to the precision of the distance type; in each of them the C++ interface gives the results of the C interface.",
  ["configurations", "inputs"], "all 18 supported type configurations, all data sets within range", "Only the default configuration is ever built or tested.",
  ["config.h.in", "CMakeLists.txt", "src/hdbscan.c", "src/distance.c"], [("type dispatch on sizeof(label_t) / sizeof(index_t)", "src/hdbscan.c")])
p("C28", "Cluster objects keep correct counts, constraints and propagation",
  "Under every sequence of cluster creation, point detachment, noise recording, constraint counting and propagation, a cluster's remaining size, stability, death level, noise members and child flag equal those of a direct model, propagation hands the parent either the cluster or its descendants, whichever satisfies more constraints and, on a tie, is at least as stable, and releasing a cluster's noise record frees that record and leaves every other cluster intact. Detaching more points than a cluster has is reported as an error and changes nothing.",
  ["histories"], "all trees of clusters and operation sequences", "No test touches cluster objects; constraints are never set by the clustering itself.",
  ["src/cluster.c", "include/hdbscan/cluster.h", "src/constraint.c"], [("cluster_*", "src/cluster.c")])
p("C29", "Objects used by different threads at the same time do not influence each other",
  "Any number of threads may use the library at the same time, each on objects of its own (clusterings through the C and C++ interfaces, their stages, analysis and printing, array lists, sets, linked lists, hash tables, graphs, prime and utility functions): every thread obtains exactly the results it would obtain if it were the only one, also when the library has not been used before in the process, and no two threads access the same memory without ordering when one of them writes (no hidden static buffer, cache or lazily built table is shared).",
  ["schedules", "programs", "inputs"], "all numbers of threads, all programs using separate objects, all interleavings, first use or later use",
  "No test starts a second thread; hidden shared state shows only under particular interleavings.",
  ["src/hdbscan.c", "src/hdbscan.cpp", "src/distance.c", "src/undirected_graph.c", "src/cluster.c", "modules/collections/src", "modules/utils/src/logger.c", "modules/utils/src/utils.c"],
  [("absence of static mutable state", "src, modules/collections/src, modules/utils/src")], observe=["all result fields of hdbscan", "contents of collections", "exported files"])
p("C30", "Collections report a lack of memory and stay intact",
  "When a memory request fails during the creation of an array list, set, linked list or hash table, the creation returns NULL and keeps no memory. When it fails during an operation (append, insert, replace, add at either end, grow, clear, remove), the operation reports failure as documented and leaves the collection with exactly its former contents, or completes as if nothing had happened; no element, key or value is lost, no memory leaks, and the collection remains usable and can be destroyed.",
  ["fault_sequences", "histories"], "all histories of operations and every memory request within them failing",
  "No test makes an allocation fail.",
  ["modules/collections/src/list.c", "modules/collections/src/set.c", "modules/collections/src/linkedlist.c", "modules/collections/src/hashtable.c"],
  [("array_list_grow", "modules/collections/src/list.c"), ("node_creator", "modules/collections/src/linkedlist.c"), ("hashtable_insert, hashtable_set_entry, hashtable_clear", "modules/collections/src/hashtable.c")])
p("C31", "A debug build gives the results of the ordinary build and logs what that one prints",
  "Built with DEBUG_ENABLE and after logger_init(), the library gives for every history of runs, re-runs, analysis, printing and clean-ups, with every supported combination of types, bit for bit the results of the ordinary build with the same types, and no internal consistency check of the debug build fails. Whatever the ordinary build prints, the debug build prints or appends to hdbscan.log; a message of any length or content reaches the log in full, preceded by its time and kind unless it is a plain one, and closing and opening the log again keeps what it held.",
  ["configurations", "histories", "inputs"], "all data sets, histories and messages in a debug build",
  "The debug build is never built or tested; its code differs in every stage of the clustering.",
  ["CMakeLists.txt", "config.h.in", "modules/utils/src/logger.c", "src/hdbscan.c", "src/undirected_graph.c", "src/constraint.c", "src/outlier_score.c"],
  [("logger_write", "modules/utils/src/logger.c"), ("#ifdef DEBUG", "src/hdbscan.c, src/undirected_graph.c")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
