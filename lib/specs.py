import bindings

def part(variant, workers, cases, **kw):
    return dict(variant=variant, workers=workers, cases=cases, **kw)

SPECS = {}
def spec(pid, technique, note, rule, **kw):
    SPECS[pid] = dict(technique=technique, note=note, rule=rule, **kw)

DATA = ("Data sets are drawn from integer grids, clusters of mixed density with noise, duplicates, 1-dimensional sequences, lattices, exact and inexact reals, extreme and denormal values, in all six element types; "
        "n 1..60 (to 250, to 400..1200 and, for the tree properties, to 5000 in further workers), 1..6 and up to 150 columns, minPts 2..n+2. ")
REF = "Trusts the reference model in harness/ref.hpp (naive O(n^2..n^3) re-statements of the definitions in long double) and the sampled input space; AddressSanitizer and UBSan watch every case. "

spec("C01", "property-based testing against a long double reference, with choice-sequence shrinking", REF + "Beyond 65535 rows, and beyond 2^32 values, a fixed schedule of sizes is run.",
     DATA + "A case computes all distances and compares every ordered pair with a long double reference. Non-trivial: at least 3 points and not only duplicates (index cases: more than 65535 rows).",
     files=["p_dist.cpp"], parts=[part("asan", 5, 9000), part("plain", 2, 20000, scale=2), part("plain", 1, 20000, prop="C01index"), part("plain", 1, 1, prop="C01big", scale=4, group=1), part("plain", 1, 1, prop="C01huge", scale=4, group=1), part("asan", 1, 400, prop="C01wide"), part("plain", 1, 250, scale=3)], fuzz=["C01"])
spec("C02", "property-based testing against a sorting reference", REF,
     DATA + "A case runs and re-runs with other minPts, and compares every core distance with the minPts-th smallest of the point's sorted distances. Non-trivial: at least 3 points and minPts <= n.",
     files=["p_dist.cpp"], parts=[part("asan", 6, 9000), part("plain", 2, 9000, scale=2), part("plain", 1, 130, scale=3), part("plain", 1, 12, scale=4)], fuzz=["C02"])
RULES = {
    3: "A case compares tree edges and their total weight with a reference spanning tree (union-find Kruskal). Non-trivial: at least 4 points.",
    4: "A case rebuilds every level from the mutual reachability graph and compares partitions, order, completeness and label stability, with and without compact levels. Non-trivial: some cluster splits.",
    5: "A case compares clusters, parents, births, deaths, stabilities, noise members and lowest death levels with the reference tree. Non-trivial: some cluster splits.",
    6: "A case compares the labels with an optimal selection found by exhaustive dynamic programming over the reference tree. Non-trivial: some cluster splits.",
    7: "A case compares every outlier score with its definition, and checks completeness and order. Non-trivial: some score is not 0."}
for i in range(3, 8):
    spec("C%02d" % i, "property-based testing against a reference model of the hierarchy", REF, DATA + RULES[i], files=["p_tree.cpp"],
         parts=[part("asan", 5, 6000), part("plain", 2, 5000, scale=2), part("fill", 1, 5000), part("plain", 1, 600, scale=3), part("plain", 1, 16, scale=4)], fuzz=["C%02d" % i])
spec("C08", "stateful property-based testing, differential against a fresh object", "Histories of up to 7 operations on up to two objects; a fresh object run once is the oracle; heap memory is filled with changing patterns in the 'fill' workers.",
     DATA + "A case is a history of runs, re-runs, repeats, analysis calls and cleans on one or two C or C++ objects, over data sets that may share a buffer or differ from an earlier one in a single value, compared with fresh objects (after each step or at the end). Non-trivial: at least two runs or re-runs.",
     files=["p_life.cpp"], parts=[part("asan", 5, 6000), part("fill", 2, 6000), part("plain", 1, 4500, scale=2), part("plain", 1, 200, scale=3), part("plain", 1, 6, scale=4)], fuzz=["C08"])
spec("C09", "stateful property-based testing and fuzzing under AddressSanitizer and UBSan", "Memory errors are those AddressSanitizer, UBSan and a count of live allocations show on the explored histories.",
     DATA + "A case is a sequence of init, run, re-run, analysis, print, clean and destroy calls on up to three objects, and of distance objects used by themselves several times over; at the end the number of live allocations must be back to the start. Non-trivial: at least one successful run.",
     files=["p_life.cpp"], parts=[part("asan", 7, 7500), part("asan", 1, 2400, scale=2), part("asan", 1, 250, scale=3), part("asan", 1, 50, scale=4)], fuzz=["C09"])
spec("C10", "metamorphic property-based testing", "Relations only: the two results are compared with each other, not with a reference (that is C01..C07).",
     DATA + "A case clusters a data set and a transformed copy (permutation, translation, negation, axis exchange, constant columns, other element type, rowwise flag, scaling). Non-trivial: at least 4 points and at least one transformation.",
     files=["p_meta.cpp"], parts=[part("asan", 5, 9000), part("plain", 3, 9000, scale=2), part("plain", 1, 400, scale=3), part("plain", 1, 8, scale=4)], fuzz=["C10"])
spec("C12", "property-based testing against a map model", REF, "Labels are drawn from few or many values, ranges anywhere within them. Non-trivial: at least 2 labels and fewer labels than indices.", files=["p_tables.cpp"], parts=[part("asan", 6, 36000), part("plain", 2, 36000, scale=2), part("asan", 1, 1500, scale=3)], fuzz=["C12"])
spec("C13", "property-based testing against a brute-force reference", REF, DATA + "The cluster map is that of the run, or arbitrary disjoint groups with shuffled members. Non-trivial: more than one cluster and more than 3 points.", files=["p_tables.cpp"], parts=[part("asan", 6, 15000), part("plain", 2, 15000, scale=2), part("plain", 1, 1000, scale=3), part("plain", 1, 24, scale=4)], fuzz=["C13"])
spec("C14", "property-based testing against long double definitions", REF, "Distance tables with 2 or more clusters, from runs or drawn (equal values, zero values, huge ratios); the statistics record holds rubbish before. Non-trivial: at least 3 clusters.", files=["p_tables.cpp"], parts=[part("asan", 6, 36000), part("plain", 2, 36000, scale=2), part("plain", 1, 3000, scale=3)], fuzz=["C14"])
spec("C15", "property-based testing, permutation and order invariants", REF, "Cluster tables of any size with ties, NaN confidences, given or empty lists. Non-trivial: at least 3 clusters and 2 distinct keys.", files=["p_tables.cpp"], parts=[part("asan", 6, 24000), part("plain", 2, 24000, scale=2), part("asan", 1, 700, scale=3)], fuzz=["C15"])
spec("C16", "stateful differential property-based testing of C++ against C", "Both sides are read field by field in C and in C++.", DATA + "A case is a history on two pairs of a C and a C++ object, or direct use of the C++ distance and graph classes. Non-trivial: at least one run (classes: more than 3 points).",
     files=["p_cpp.cpp", "shim.c", "cpp_shim.cpp"], parts=[part("asan", 6, 7500), part("plain", 2, 7500, scale=2), part("plain", 1, 150, scale=3), part("plain", 1, 8, scale=4)], fuzz=["C16"])
COLL = "Histories of at most a few hundred operations (a few thousand in one worker); the model is a C++ standard container; AddressSanitizer watches the buffers and the number of live allocations must be back to the start. "
spec("C17", "model-based stateful property-based testing with injected allocation failures", COLL, "Operation sequences over all element sizes and comparators. Non-trivial: at least 5 changes, one removal, and the buffer grew.", files=["p_coll.cpp"], parts=[part("asan", 6, 50000), part("plain", 2, 50000, scale=2), part("asan", 1, 150, scale=3)], fuzz=["C17"])
spec("C18", "model-based stateful property-based testing", COLL, "Operation sequences over all element types. Non-trivial: at least 4 elements at once, a repeated insertion and a removal.", files=["p_coll.cpp"], parts=[part("asan", 6, 40000), part("plain", 2, 40000, scale=2), part("asan", 1, 500, scale=3)], fuzz=["C18"])
spec("C19", "model-based stateful property-based testing", COLL, "Operation sequences over all element types. Non-trivial: at least 4 additions and an operation on an inner node.", files=["p_coll.cpp"], parts=[part("asan", 6, 60000), part("plain", 2, 60000, scale=2), part("asan", 1, 1500, scale=3)], fuzz=["C19"])
spec("C20", "model-based stateful property-based testing", COLL, "Operation sequences over all key and value types and bucket counts 0..200. Non-trivial: at least 3 entries at once, a replacement and a removal.", files=["p_coll.cpp"], parts=[part("asan", 6, 30000), part("plain", 2, 30000, scale=2), part("asan", 1, 200, scale=3)], fuzz=["C20"])
spec("C21", "property-based testing against trial division", "Arguments are sampled over the whole range, dense near table primes and powers of two.", "Arguments small, near primes, near table entries, near powers of two, huge. Non-trivial: argument above 3.", files=["p_util.cpp"], parts=[part("asan", 6, 160000), part("plain", 2, 160000, scale=2)], fuzz=["C21"])
spec("C22", "property-based testing of order axioms and hash consistency", "Triples of values are sampled, dense near limits and ties.", "Triples of values of each type with ties and limits; hash arguments with all bucket counts. Non-trivial: some pair ordered, or more than one bucket.", files=["p_util.cpp"], parts=[part("asan", 6, 400000), part("plain", 2, 400000, scale=2)], fuzz=["C22"])
spec("C23", "model-based property-based testing of graphs", COLL, "Edge lists with self edges, parallel edges and ties; sorting by both entry points; sequences of edge removals. Non-trivial: at least 4 edges.", files=["p_graph.cpp"], parts=[part("asan", 6, 36000), part("plain", 2, 24000, scale=2), part("asan", 1, 600, scale=3)], fuzz=["C23"])
spec("C24", "property-based testing by parsing back the printed and exported output", "Output is captured in a scratch directory and parsed back.", "Hierarchies, maps, tables, statistics and graphs from runs or drawn, values of any magnitude. Non-trivial: at least 2 printed entries.", files=["p_print.cpp"], parts=[part("asan", 6, 24000), part("plain", 2, 18000, scale=2), part("asan", 1, 1200, scale=3)], fuzz=["C24"])
spec("C25", "stateful property-based testing of the Python module (Hypothesis), differential against the C library", "The module is compiled with AddressSanitizer; every program runs in a forked interpreter so that a crash is an outcome. The C library of the same tree is the oracle.",
     "Programs of up to 17 operations on up to three Python objects: runs over arrays of five element types in 18 memory layouts, re-runs, cluster maps, hierarchies, held results, deletion, __init__ again, uninitialised objects, unsupported data, sizes, ranges and calls, attribute changes. Non-trivial: a run with at least 4 points and at least 4 operations, one of them a re-run, cluster map or hierarchy.",
     custom=bindings.c25, custom_replay=bindings.c25_replay)
spec("C26", "stateful property-based testing of the Java class (Hypothesis driving a JVM), differential against the C library", "The JVM runs with -Xcheck:jni; allocations of the native library are counted. The C library of the same tree is the oracle.",
     "Programs of up to 19 operations on up to three Java objects: runs (also of two objects in two threads), re-runs, cluster maps, clean-ups, dropped objects, held results, unsupported data sets. Non-trivial: a run with at least 4 points and at least 4 operations, one of them a re-run, cluster map or clean-up.",
     custom=bindings.c26, custom_replay=bindings.c26_replay)
spec("C27", "differential property-based testing of all 18 type configurations", "The library is compiled once per configuration; the default configuration is the oracle (C01..C15 check that one).",
     DATA + "A case runs, re-runs and cleans one object of the default and one of a drawn configuration and compares every result. Float configurations take part when every distance is exact in float; their labels are compared unless a stability is within rounding of its descendants'. Non-trivial: at least 4 points and 2 labels.",
     files=["p_conf.cpp"], prepare=bindings.conf_libs, parts=[part("asan", 7, 3000), part("asan", 1, 400, scale=2), part("plain", 2, 1, prop="C27big", scale=4, group=1, thorough_factor=4)])
spec("C28", "model-based stateful property-based testing of cluster trees", COLL, "Trees of clusters with detachments, noise records, constraint counts and propagation. Non-trivial: at least 3 propagations and one detached point.", files=["p_cluster.cpp"], parts=[part("asan", 6, 36000), part("plain", 2, 24000, scale=2), part("asan", 1, 600, scale=3)], fuzz=["C28"])
spec("C11", "property-based testing over generated schedules (own OpenMP runtime with vector-clock race detection), and differential testing of thread counts",
     "One build replaces libgomp and libtsan by harness/omp_sim.cpp: the threads of a parallel region are coroutines, a drawn seed decides at each instrumented memory access which of 2 to 8 goes on. The other build runs real threads. Memory touched inside uninstrumented library functions other than memcpy, memmove, memset, memcmp and qsort is not seen.",
     DATA + "A case computes all results (C, C++ or stage by stage, with analysis of a range) with one thread and under 1 to 4 drawn schedules, and compares them bit by bit; unordered accesses fail the case. Non-trivial: at least 4 points and at least one parallel region with two or more threads.",
     files=["p_omp.cpp"], parts=[part("omp", 6, 9000), part("asan", 1, 1500), part("omp", 1, 4000, scale=2), part("plain", 1, 1200, scale=2, group=1)])
spec("C29", "property-based testing over generated programs and schedules of concurrent users (own thread scheduler with vector-clock race detection), and differential testing with real threads",
     "As C11, with whole programs as the threads: each case runs in fresh processes, first concurrently and then one after the other, so that caches and tables filled on first use take part. Memory touched inside uninstrumented library functions other than memcpy, memmove, memset, memcmp, qsort and the time and token functions with hidden buffers is not seen.",
     DATA.replace("n 1..60 (to 250, to 400..1200 and, for the tree properties, to 5000 in further workers)", "n 1..16 (to 60 in further workers)") + "A case draws two to four programs (clusterings through C, C++ or stage by stage with analysis, re-run and printing; operation sequences on collections and graphs), the same or different ones, runs each on its own thread on its own objects, and compares what every program sees with what it sees alone; unordered accesses fail the case. Non-trivial: at least two clusterings, of at least 4 points unless they are alike.",
     files=["p_omp.cpp"], parts=[part("omp", 5, 8000), part("asan", 1, 1500), part("omp", 1, 2500, scale=2), part("plain", 1, 6000, scale=2, group=1)])
spec("C30", "model-based stateful property-based testing with injected allocation failures", "The first to fourth memory request from a drawn operation on fails, once; all requests of the library pass through the injector. Clustering itself is not covered: it does not claim to survive a lack of memory.",
     "Histories of creations, additions, replacements, removals, growths, clean-ups and destructions of one list, set, linked list or hash table, half of them with a failing request. Non-trivial: at least one request failed.", files=["p_coll.cpp"], parts=[part("asan", 6, 60000), part("plain", 2, 60000, scale=2)], fuzz=["C30"])
spec("C31", "differential property-based testing of the debug build", "The library is compiled with and without DEBUG_ENABLE for four combinations of types; the ordinary build is the oracle (C01..C15, C24 and C27 check that one). The program has called logger_init().",
     DATA + "A case drives one or two objects of both builds through runs, re-runs, printing, messages and cleans, and compares every result bit by bit and every word printed or logged. Non-trivial: at least one run.",
     files=["p_conf.cpp"], prepare=bindings.debug_libs, parts=[part("asan", 6, 3000), part("asan", 1, 400, scale=2)])
