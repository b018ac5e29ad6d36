// C16 the C++ interface against the C interface
#include "ref.hpp"
#include <memory>
#include <cstddef>
#include "hdbscan/undirected_graph.h"
#define DUMP_FN dump_cpp_
#define DUMP_NS clustering::
#include "dump.inc"
extern "C" { char *vh_c_dump(const void *); long vh_c_layout(int); }

static std::string take(char *p) { std::string s(p); free(p); return s; }
static std::string first_diff(const std::string &a, const std::string &b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    size_t l = a.rfind('\n', i), q = i > 60 ? i - 60 : 0;
    if (l != std::string::npos && l > q && l < i) q = l;
    return "\"..." + a.substr(q, 160) + "...\" vs \"..." + b.substr(q, 160) + "...\"";
}
extern "C" int vo_cpp(void *h, long b, long e, char *out, long len);
static void cmp_all(hdbscan *c, hdbscan *p, const char *when) {
    std::string cc = take(vh_c_dump(c)), pp = take(dump_cpp_(p)), pc = take(vh_c_dump(p));
    CHECK(pp == pc, when, ": the C++ object read through C and through C++ differs: ", first_diff(pc, pp));
    CHECK(cc == pp, when, ": the C object and the C++ object differ: ", first_diff(cc, pp));
}

// cluster maps, distance tables, statistics and sorted labels of part of the points
static void tables(pbt::Src &s, hdbscan *h, size_t n, const char *when) {
    size_t b = s.freq({2, 1}) ? (size_t)s.draw(n) : 0, e = s.freq({2, 1}) ? b + (size_t)s.draw(n - b) : n;
    char why[300] = "";
    CHECK(!vo_cpp(h, (long)b, (long)e, why, sizeof why), "the C++ functions on the points [", b, ",", e, ") ", when, " differ from the C functions: ", why);
}

PROP(C16) {
    static const long lay[] = {sizeof(hdbscan), sizeof(cluster), sizeof(cdistance), sizeof(UndirectedGraph), sizeof(outlier_score), sizeof(hierarchy_entry), sizeof(distance_values), sizeof(clustering_stats), sizeof(constraint),
        (long)offsetof(hdbscan, numPoints), (long)offsetof(hdbscan, clusterLabels), (long)offsetof(cluster, hasChildren), (long)offsetof(cdistance, datatype), (long)offsetof(UndirectedGraph, edges)};
    for (int i = 0; i < 14; i++) CHECK(lay[i] == vh_c_layout(i), "layout fact ", i, " is ", lay[i], " in C++ and ", vh_c_layout(i), " in C");
    int thr = gen_threads(s);
    c.classify("threads>1", thr > 1);
    long base = 0;
    if (thr == 1) base = pbt::live_allocs();
    int mode = s.freq({6, 2, 1, 1});
    GenOpt o;
    o.size(c.scale, 40, 120, 500, 3000);
    if (mode == 0) {
        struct Pair { hdbscan *a = NULL, *b = NULL; bool ran = false; size_t n = 0; bool heap = true; };
        Pair q[2];
        std::unique_ptr<hdbscan> arr;
        int nops = (int)s.range(2, 10), runs = 0, reruns = 0, cleans = 0;
        std::string hist;
        DS d;
        for (int op = 0; op < nops; op++) {
            int i = s.freq({3, 1});
            Pair &x = q[i];
            if (!x.a) {
                size_t mp = s.freq({3, 1}) ? 3 : (size_t)s.range(2, 8);
                hist += pbt_msg("; #", i, " new ", mp);
                x.a = hdbscan_init(NULL, (index_t)mp);
                x.b = mp == 3 && s.coin() ? new hdbscan() : new hdbscan((index_t)mp);
                x.ran = false;
                c.sample = hist;
            }
            switch (s.freq({5, 4, 1, 1})) {
            case 0: {
                d = gen_dataset(s, o);
                auto b = d.bytes();
                hist += pbt_msg("; #", i, " run ") + d.str();
                c.sample = hist;
                CHECK(hdbscan_run(x.a, b.data(), (index_t)d.rows, (index_t)d.cols, d.rowwise, (index_t)d.type) == HDBSCAN_SUCCESS, "run");
                x.b->run(b.data(), (index_t)d.rows, (index_t)d.cols, d.rowwise, (index_t)d.type);
                x.ran = true; x.n = d.n(); runs++;
                cmp_all(x.a, x.b, "after run");
                if (s.freq({2, 1})) tables(s, x.a, x.n, "after run");
                break;
            }
            case 1: {
                size_t mp = gen_minpts(s, x.ran ? x.n : 8);
                hist += pbt_msg("; #", i, " rerun ", mp);
                c.sample = hist;
                hdbscan_rerun(x.a, (index_t)mp);
                x.b->reRun((index_t)mp);
                if (x.ran) { reruns++; cmp_all(x.a, x.b, "after re-run"); if (s.freq({2, 1})) tables(s, x.a, x.n, "after re-run"); }
                break;
            }
            case 2:
                hist += pbt_msg("; #", i, " clean");
                c.sample = hist;
                hdbscan_clean(x.a);
                x.b->clean();
                x.ran = false; cleans++;
                CHECK(!x.b->clusterLabels && !x.b->outlierScores && !x.b->hierarchy && !x.b->clusters && !x.b->mst && !x.b->distanceFunction.distances, "clean() leaves results behind");
                break;
            default:
                hist += pbt_msg("; #", i, " delete");
                c.sample = hist;
                hdbscan_destroy(x.a);
                delete x.b;
                x.a = x.b = NULL;
            }
        }
        for (Pair &x : q) if (x.a) { hdbscan_destroy(x.a); delete x.b; }
        c.classify("re-run", reruns > 0);
        c.classify("clean", cleans > 0);
        c.nontrivial(runs > 0);
    } else if (mode == 1) { // the stages, one by one
        DS d = gen_dataset(s, o);
        auto b = d.bytes();
        size_t n = d.n(), mp = gen_minpts(s, n);
        bool compact = s.coin();
        c.sample = pbt_msg("stage by stage, minPts ", mp, compact ? " compact " : " ", d.str());
        hdbscan *a = hdbscan_init(NULL, (index_t)mp);
        hdbscan p((index_t)mp);
        for (hdbscan *h : {a, &p}) {
            distance_init(&h->distanceFunction, 1, (enum HTYPES)d.type);
            h->numPoints = (index_t)n;
            distance_compute(&h->distanceFunction, b.data(), (index_t)n, (index_t)d.dim(), (index_t)(mp - 1));
            h->clusters = ptr_array_list_init(5, clustering::cluster_compare);
            h->hierarchy = hashtable_init(11, H_LONG, H_PTR, long_compare);
        }
        std::vector<distance_t> l1(n, -1), l2(n, -1);
        std::vector<label_t> c1(n, 7), c2(n, 7);
        hdbscan_construct_mst(a);
        p.constructMST();
        cmp_all(a, &p, "after constructMST");
        graph_quicksort_by_edge_weight(a->mst);
        graph_quicksort_by_edge_weight(p.mst);
        hdbscan_compute_hierarchy_and_cluster_tree(a, compact, l1.data(), c1.data());
        p.computeHierarchyAndClusterTree(compact, l2.data(), c2.data());
        cmp_all(a, &p, "after computeHierarchyAndClusterTree");
        CHECK(l1 == l2 && c1 == c2, "noise levels or last clusters differ");
        int i1 = hdbscan_propagate_tree(a), i2 = p.propagateTree();
        CHECK((i1 != 0) == (i2 != 0), "propagateTree returns ", i2, ", C ", i1);
        cmp_all(a, &p, "after propagateTree");
        hdbscan_find_prominent_clusters(a, i1);
        p.findProminentClusters(i2);
        cmp_all(a, &p, "after findProminentClusters");
        hdbscsan_calculate_outlier_scores(a, l1.data(), c1.data(), i1);
        p.calculateOutlierScores(l2.data(), c2.data(), i2);
        cmp_all(a, &p, "after calculateOutlierScores");
        hdbscan_destroy(a);
        c.classify("stages");
        c.nontrivial(n > 3);
    } else if (mode == 2) { // Distance objects
        DS d = gen_dataset(s, o), e = gen_dataset(s, o);
        size_t n = d.n();
        auto b = d.bytes(), eb = e.bytes();
        c.sample = "Distance objects over " + d.str();
        c.classify("Distance class");
        cdistance D(1, (enum HTYPES)d.type), E, F(1);
        CHECK(E.distances == NULL && E.coreDistances == NULL && F.distances == NULL && F.coreDistances == NULL, "new Distance object is not empty");
        if (s.coin()) { D.datatype = (enum HTYPES)e.type; distance_compute(&D, eb.data(), (index_t)e.n(), (index_t)e.dim(), 2); D.datatype = (enum HTYPES)d.type; }
        distance_compute(&D, b.data(), (index_t)n, (index_t)d.dim(), (index_t)s.range(1, 6));
        if (s.coin()) { distance_clean(&D); distance_compute(&D, b.data(), (index_t)n, (index_t)d.dim(), 2); }
        for (int k = 0; k < 3; k++) {
            size_t nb = (size_t)s.range(0, (int64_t)n + 1);
            D.getCoreDistances((index_t)nb);
            auto w = ref_core(n, nb + 1, [&](size_t i, size_t j) { return (double)distance_get(&D, (index_t)i, (index_t)j); });
            for (size_t i = 0; i < n; i++) CHECK((double)D.coreDistances[i] == w[i], "getCoreDistances(", nb, "): point ", i, " has ", D.coreDistances[i], ", expected ", w[i]);
        }
        if (e.type == H_DOUBLE) distance_compute(&E, eb.data(), (index_t)e.n(), (index_t)e.dim(), 2);
        c.nontrivial(n > 3);
    } else { // graph objects
        c.classify("UndirectedGraph class");
        c.sample = "UndirectedGraph objects";
        { UndirectedGraph empty; if (s.coin()) graph_clean(&empty); }
        for (int k = 0; k < 3; k++) {
            UndirectedGraph *g = new UndirectedGraph();
            CHECK(g->numVertices == 0 && !g->edges && !g->verticesA && !g->verticesB && !g->edgeWeights, "new graph is not empty");
            if (s.coin()) {
                size_t nv = (size_t)s.range(1, 8), ne = (size_t)s.range(0, 12);
                ArrayList *va = array_list_init(ne + 1, sizeof(index_t), int_compare), *vb = array_list_init(ne + 1, sizeof(index_t), int_compare), *w = array_list_init(ne + 1, sizeof(distance_t), double_compare);
                for (size_t i = 0; i < ne; i++) {
                    index_t x = (index_t)s.draw(nv - 1), y = (index_t)s.draw(nv - 1);
                    distance_t z = (distance_t)s.range(0, 5);
                    array_list_append(va, &x); array_list_append(vb, &y); array_list_append(w, &z);
                }
                CHECK(graph_init(g, (index_t)nv, va, vb, w) == g, "graph_init in place");
                graph_quicksort_by_edge_weight(g);
                for (size_t i = 1; i < ne; i++) CHECK(((distance_t *)w->data)[i - 1] <= ((distance_t *)w->data)[i], "sorted");
                if (s.coin()) { graph_clean(g); CHECK(!g->edges && !g->verticesA && !g->verticesB && !g->edgeWeights, "graph_clean leaves lists behind"); }
            }
            delete g;
        }
        c.nontrivial();
    }
    if (thr == 1) CHECK(pbt::live_allocs() == base, pbt::live_allocs() - base, " allocations remain");
}
