// C03 minimum spanning tree, C04 hierarchy, C05 cluster tree, C06 flat clustering, C07 outlier scores
#include "ref.hpp"

struct Case { DS d; size_t mp; std::vector<unsigned char> b; int thr; };
static Case gen_case(pbt::Src &s, pbt::Ctx &c, bool over, size_t small_n, size_t large_n) {
    GenOpt o;
    o.size(c.scale, small_n, large_n, 700, 5000);
    Case k;
    k.d = gen_dataset(s, o);
    k.thr = gen_threads(s);
    size_t n = k.d.n();
    k.mp = k.d.kind == "tie" && s.freq({6, 1}) == 0 ? 2 : gen_minpts(s, n, over);
    k.b = k.d.bytes();
    c.sample = pbt_msg("minPts ", k.mp, " threads ", k.thr, " ", k.d.str());
    c.classify("kind:" + k.d.kind);
    c.classify("threads>1", k.thr > 1);
    return k;
}

// the stages of a run, called one by one on a fresh object
struct Staged {
    hdbscan *sc;
    std::vector<distance_t> lvl;
    std::vector<label_t> last;
    Staged(Case &k, size_t mp, boolean self = TRUE) {
        sc = hdbscan_init(NULL, (index_t)mp);
        size_t n = k.d.n();
        distance_init(&sc->distanceFunction, 1, (enum HTYPES)k.d.type);
        sc->numPoints = (index_t)n;
        sc->selfEdges = self;
        distance_compute(&sc->distanceFunction, k.b.data(), (index_t)n, (index_t)k.d.dim(), (index_t)(mp - 1));
    }
    void mst() { CHECK(hdbscan_construct_mst(sc) == HDBSCAN_SUCCESS, "hdbscan_construct_mst"); CHECK(sc->mst != NULL, "no tree"); }
    void tree(int compact) {
        sc->clusters = ptr_array_list_init(5, clustering::cluster_compare);
        sc->hierarchy = hashtable_init(11, H_LONG, H_PTR, long_compare);
        lvl.assign(sc->numPoints, (distance_t)-1);
        last.assign(sc->numPoints, (label_t)-1);
        hdbscan_compute_hierarchy_and_cluster_tree(sc, compact, lvl.data(), last.data());
    }
    ~Staged() { hdbscan_destroy(sc); }
};

static void check_mst(hdbscan *sc, const Ref &R, bool self, bool sorted, const DS &d) {
    UndirectedGraph *g = sc->mst;
    size_t n = R.n, m = n - 1 + (self ? n : 0);
    CHECK(g->numVertices == n, "vertices ", g->numVertices);
    CHECK(g->edgeWeights->size == m && g->verticesA->size == m && g->verticesB->size == m, "edge list sizes ", g->edgeWeights->size, "/", g->verticesA->size, "/", g->verticesB->size, ", expected ", m);
    distance_t *w = (distance_t *)g->edgeWeights->data;
    index_t *a = (index_t *)g->verticesA->data, *b = (index_t *)g->verticesB->data;
    DSU u(n);
    std::vector<int> selfs(n, 0);
    std::vector<double> tw;
    for (size_t i = 0; i < m; i++) {
        CHECK(a[i] < n && b[i] < n, "edge ", i, " joins ", a[i], " and ", b[i]);
        if (a[i] == b[i]) {
            CHECK(++selfs[a[i]] == 1, "second self edge of point ", a[i]);
            CHECK((double)w[i] == R.core[a[i]], "self edge of point ", a[i], " has weight ", w[i], ", core distance ", R.core[a[i]]);
        } else {
            CHECK(u.f(a[i]) != u.f(b[i]), "edge ", i, " (", a[i], ",", b[i], ") closes a cycle");
            u.u(a[i], b[i]);
            double mr = std::max((double)distance_get(&sc->distanceFunction, a[i], b[i]), std::max(R.core[a[i]], R.core[b[i]]));
            CHECK((double)w[i] == mr, "edge (", a[i], ",", b[i], ") has weight ", w[i], ", mutual reachability distance ", mr, " in ", d.str());
            tw.push_back((double)w[i]);
        }
        if (sorted && i) CHECK(w[i - 1] <= w[i], "edge weights are not sorted at ", i, ": ", w[i - 1], " > ", w[i]);
    }
    CHECK(tw.size() == n - 1, "tree has ", tw.size(), " edges for ", n, " points");
    std::sort(tw.begin(), tw.end());
    for (size_t i = 0; i < tw.size(); i++) // the sorted weights of a minimum spanning tree are unique
        CHECK(tw[i] == R.mstw[i], "tree is not minimal: ", i, "-th smallest edge weighs ", tw[i], ", expected ", R.mstw[i], " in ", d.str());
    if (self) for (size_t i = 0; i < n; i++) CHECK(selfs[i] == 1, "no self edge for point ", i);
}

static void check_adjacency(UndirectedGraph *g) {
    std::vector<std::multiset<size_t>> adj(g->numVertices);
    index_t *a = (index_t *)g->verticesA->data, *b = (index_t *)g->verticesB->data;
    for (size_t i = 0; i < g->verticesA->size; i++) { adj[a[i]].insert(b[i]); if (a[i] != b[i]) adj[b[i]].insert(a[i]); }
    for (size_t v = 0; v < g->numVertices; v++) {
        index_t *x = (index_t *)g->edges[v]->data;
        std::multiset<size_t> l(x, x + g->edges[v]->size);
        CHECK(l == adj[v], "adjacency list of vertex ", v);
    }
}

PROP(C03) {
    Case k = gen_case(s, c, true, 60, 250);
    size_t n = k.d.n();
    c.classify("minPts>n", k.mp > n);
    if (n < 2) { Obj h(k.mp); run_ok(h.sc, k.d, k.b); CHECK(h.sc->mst->edgeWeights->size == 1, "one self edge"); return; }
    int how = s.freq({4, 2, 2, 1});
    c.classify(how == 0 ? "after run" : how == 1 ? "after re-run" : how == 2 ? "before sorting" : "without self edges");
    bool ties = false;
    if (how <= 1) {
        Obj h(how == 1 ? gen_minpts(s, n) : k.mp);
        run_ok(h.sc, k.d, k.b);
        if (how == 1) CHECK(hdbscan_rerun(h.sc, (index_t)k.mp) == HDBSCAN_SUCCESS, "rerun");
        Ref R = lib_reference(h.sc);
        check_mst(h.sc, R, true, true, k.d);
        ties = std::adjacent_find(R.mstw.begin(), R.mstw.end()) != R.mstw.end();
    } else {
        bool self = how == 2;
        Staged st(k, k.mp, self ? TRUE : FALSE);
        st.mst();
        Ref R = lib_reference(st.sc);
        check_mst(st.sc, R, self, false, k.d);
        check_adjacency(st.sc->mst);
        if (s.coin()) graph_quicksort_by_edge_weight(st.sc->mst);
        else graph_quicksort(st.sc->mst, 0, (int64_t)st.sc->mst->edgeWeights->size - 1);
        check_mst(st.sc, R, self, true, k.d);
        check_adjacency(st.sc->mst);
        ties = std::adjacent_find(R.mstw.begin(), R.mstw.end()) != R.mstw.end();
    }
    c.classify("tied tree edges", ties);
    c.nontrivial(n >= 4);
}

static void prepare(pbt::Src &s, Case &k, Obj &h) { // run, sometimes reach minPts by a re-run
    size_t n = k.d.n();
    if (s.freq({3, 1}) == 1) {
        h.sc->minPoints = (index_t)gen_minpts(s, n);
        run_ok(h.sc, k.d, k.b);
        CHECK(hdbscan_rerun(h.sc, (index_t)k.mp) == HDBSCAN_SUCCESS, "rerun");
    } else run_ok(h.sc, k.d, k.b);
}

static void classify_ref(pbt::Ctx &c, const Ref &R) {
    c.classify("split", R.cl.size() > 1);
    c.classify("nested split", R.cl.size() > 3);
    size_t three = 0;
    for (auto &k : R.cl) three += k.children.size() >= 3;
    c.classify("three-way split", three > 0);
    c.classify("infinite stability", R.infinite);
    c.classify("minPts>n", R.minPts > R.n);
    c.classify("exact weights", R.exact && R.cl.size() > 1);
}

PROP(C04) {
    Case k = gen_case(s, c, true, 60, 300);
    bool compact = s.freq({3, 1}) == 1;
    Obj h(k.mp);
    prepare(s, k, h);
    Ref R = lib_reference(h.sc);
    Snap S;
    snap_tree(h.sc, S, false);
    LabelMap m;
    std::string e = check_levels(S, R, m);
    CHECK(e.empty(), e, " in ", k.d.str(), " minPts ", k.mp);
    classify_ref(c, R);
    c.nontrivial(R.cl.size() > 1);
    if (compact) {
        c.classify("compact");
        Staged st(k, k.mp);
        st.mst();
        graph_quicksort_by_edge_weight(st.sc->mst);
        st.tree(1);
        Snap C;
        snap_tree(st.sc, C, false);
        // every entry of the compact hierarchy is a level of the full one, in order; levels at which clusters split are kept
        LabelMap cm;
        cm.bind(1, 0);
        size_t at = 0;
        long expect = 1;
        std::set<size_t> kept;
        CHECK(C.levels.count(0) && C.levels[0].first == 0, "compact hierarchy: no level 0");
        for (auto &kv : C.levels) {
            if (kv.first == 0) { for (long l : kv.second.second) CHECK(l == 0, "compact hierarchy: level 0 is not all noise"); continue; }
            CHECK(kv.first == expect, "compact hierarchy: key ", kv.first, " where ", expect, " is expected");
            expect++;
            while (at < R.levels.size() && R.levels[at].w != kv.second.first) at++;
            CHECK(at < R.levels.size(), "compact hierarchy: weight ", kv.second.first, " is no level of the full hierarchy, or out of order");
            for (size_t i = 0; i < S.n; i++) {
                long l = kv.second.second[i];
                int r = R.levels[at].lab[i];
                CHECK((l == 0) == (r < 0), "compact hierarchy: weight ", kv.second.first, ": label of point ", i, " is ", l);
                if (l) CHECK(cm.bind(l, r), "compact hierarchy: weight ", kv.second.first, ": label ", l, " of point ", i);
            }
            kept.insert(at);
            at++;
        }
        for (size_t i = 0; i < R.levels.size(); i++)
            if (R.levels[i].split) CHECK(kept.count(i), "compact hierarchy: the level at weight ", R.levels[i].w, " at which a cluster splits is missing");
        // a flat clustering extracted from the compact hierarchy is that of the full one
        int inf = hdbscan_propagate_tree(st.sc);
        hdbscan_find_prominent_clusters(st.sc, inf);
        std::vector<long> a, b2;
        for (size_t i = 0; i < S.n; i++) { a.push_back((long)st.sc->clusterLabels[i]); b2.push_back((long)h.sc->clusterLabels[i]); }
        std::string p = same_partition(a, b2);
        CHECK(p.empty(), "flat clustering from the compact hierarchy: ", p);
    }
}

// identify the clusters of the tree with reference clusters through their members (noise members of the whole sub-tree)
static void match_tree(const Snap &S, const Ref &R, LabelMap &m, const std::string &what) {
    CHECK(S.cl.size() == R.cl.size() + 1, what, "cluster list holds ", S.cl.size(), " entries, the hierarchy has ", R.cl.size(), " clusters (and NULL for noise)");
    CHECK(S.cl[0].null, what, "entry 0 of the cluster list is not NULL");
    std::vector<std::vector<size_t>> mem(S.cl.size());
    for (size_t l = S.cl.size() - 1; l >= 1; l--) {
        const SnapCluster &x = S.cl[l];
        CHECK(!x.null && x.label == (long)l, what, "entry ", l, " of the cluster list has label ", x.label);
        CHECK(x.parent < (long)l, what, "cluster ", l, " has parent ", x.parent);
        mem[l].insert(mem[l].end(), x.noise.begin(), x.noise.end());
        std::sort(mem[l].begin(), mem[l].end());
        if (x.parent >= 1) mem[(size_t)x.parent].insert(mem[(size_t)x.parent].end(), mem[l].begin(), mem[l].end());
    }
    std::map<std::vector<size_t>, int> by;
    for (size_t r = 0; r < R.cl.size(); r++) by[R.cl[r].members] = (int)r;
    for (size_t l = 1; l < S.cl.size(); l++) {
        auto it = by.find(mem[l]);
        CHECK(it != by.end(), what, "cluster ", l, " and its descendants record ", mem[l].size(), " noise members that are no cluster of the hierarchy");
        CHECK(m.bind((long)l, it->second), what, "two clusters with the same members: ", l);
    }
}

static void check_tree(const Snap &S, const Ref &R, LabelMap &m, const std::string &what, bool propagated) {
    CHECK(S.cl.size() == R.cl.size() + 1, what, "cluster list holds ", S.cl.size(), " entries, the hierarchy has ", R.cl.size(), " clusters (and NULL for noise)");
    CHECK(S.cl[0].null, what, "entry 0 of the cluster list is not NULL");
    for (size_t l = 1; l < S.cl.size(); l++) {
        const SnapCluster &x = S.cl[l];
        CHECK(!x.null && x.label == (long)l, what, "entry ", l, " of the cluster list has label ", x.label);
        CHECK(m.l2r.count((long)l), what, "cluster ", l, " does not appear in the hierarchy");
        const RefCluster &r = R.cl[(size_t)m.l2r[(long)l]];
        long par = r.parent < 0 ? -1 : m.r2l[r.parent];
        CHECK(x.parent == par, what, "cluster ", l, " has parent ", x.parent, ", expected ", par);
        CHECK(same(x.birth, r.birth), what, "cluster ", l, " born at ", x.birth, ", expected ", r.birth);
        CHECK(x.death == r.death, what, "cluster ", l, " dies at ", x.death, ", expected ", r.death);
        CHECK(x.numPoints == 0, what, "cluster ", l, " keeps ", x.numPoints, " points");
        CHECK(x.kids == !r.children.empty(), what, "cluster ", l, " hasChildren ", x.kids);
        if (r.parent >= 0) // the root is born at no level
            CHECK(close_rel(x.stability, r.stability, R.exact ? 0 : 1e-9) || fabs(x.stability - r.stability) <= 1e-9 * (double)r.size / r.birth, what, "cluster ", l, " has stability ", x.stability, ", expected ", r.stability);
        std::set<size_t> ns(x.noise.begin(), x.noise.end());
        CHECK(ns.size() == x.noise.size() && ns == r.noise, what, "cluster ", l, " records ", x.noise.size(), " noise members, expected ", r.noise.size(), " (or other points)");
        if (propagated) CHECK(x.lowest == r.lowest, what, "cluster ", l, " has lowest descendant death level ", x.lowest, ", expected ", r.lowest);
    }
}

PROP(C05) {
    Case k = gen_case(s, c, true, 60, 300);
    Obj h(k.mp);
    pbt::capture_begin();
    std::string out;
    try { prepare(s, k, h); } catch (...) { pbt::capture_end(); throw; }
    out = pbt::capture_end();
    Ref R = lib_reference(h.sc);
    Snap S;
    snap_tree(h.sc, S, false);
    LabelMap m;
    match_tree(S, R, m, "");
    check_tree(S, R, m, "", true);
    Staged st(k, k.mp);
    st.mst();
    graph_quicksort_by_edge_weight(st.sc->mst);
    st.tree(s.coin() ? 1 : 0);
    size_t n = R.n;
    LabelMap sm;
    Snap T0;
    snap_tree(st.sc, T0, false);
    match_tree(T0, R, sm, "staged: ");
    for (size_t i = 0; i < n; i++) {
        CHECK((double)st.lvl[i] == R.noiseLevel[i], "point ", i, " became noise at ", st.lvl[i], ", expected ", R.noiseLevel[i]);
        CHECK(sm.l2r.count((long)st.last[i]) && sm.l2r[(long)st.last[i]] == R.lastCluster[i], "last cluster of point ", i, " is ", st.last[i]);
    }
    boolean inf = hdbscan_propagate_tree(st.sc);
    CHECK((inf != 0) == R.infinite, "infinite stability reported: ", inf, ", some cluster has one: ", R.infinite);
    Snap T;
    snap_tree(st.sc, T, false);
    LabelMap tm;
    match_tree(T, R, tm, "staged: ");
    check_tree(T, R, tm, "staged: ", true);
    // the clusters of the tree are the clusters of the hierarchy
    std::set<long> inh;
    for (auto &kv : S.levels) for (long l : kv.second.second) if (l) inh.insert(l);
    CHECK(inh.size() == S.cl.size() - 1, "hierarchy shows ", inh.size(), " clusters, the cluster tree ", S.cl.size() - 1);
    for (long l : inh) CHECK(l >= 1 && (size_t)l < S.cl.size(), "hierarchy label ", l, " is not in the cluster tree");
    classify_ref(c, R);
    c.nontrivial(R.cl.size() > 1);
}

PROP(C06) {
    Case k = gen_case(s, c, true, 60, 300);
    Obj h(k.mp);
    prepare(s, k, h);
    Ref R = lib_reference(h.sc);
    Snap S;
    for (size_t i = 0; i < R.n; i++) S.labels.push_back((long)h.sc->clusterLabels[i]);
    // a label stands for the cluster born with exactly the points that carry it
    LabelMap m;
    std::map<std::vector<size_t>, int> by;
    for (size_t r = 0; r < R.cl.size(); r++) by[R.cl[r].members] = (int)r;
    std::map<long, std::vector<size_t>> groups;
    for (size_t i = 0; i < R.n; i++) if (S.labels[i]) groups[S.labels[i]].push_back(i);
    for (auto &g : groups) {
        auto it = by.find(g.second);
        CHECK(it != by.end(), "the ", g.second.size(), " points labelled ", g.first, " are not the members of any cluster of the hierarchy");
        CHECK(g.second.size() >= R.minPts, "cluster ", g.first, " has ", g.second.size(), " points");
        m.bind(g.first, it->second);
        cluster *cl = (size_t)g.first < h.sc->clusters->size ? ((cluster **)h.sc->clusters->data)[g.first] : NULL;
        CHECK(cl && (long)cl->label == g.first, "label ", g.first, " is no cluster of the cluster tree");
    }
    for (size_t r = 0; r < R.cl.size(); r++) if (!m.r2l.count((int)r)) m.r2l[(int)r] = -1 - (long)r;
    bool close_call = false;
    std::string e = check_flat(R, S.labels, m, &close_call);
    CHECK(e.empty(), e, " in ", k.d.str(), " minPts ", k.mp);
    classify_ref(c, R);
    FlatCheck f(R);
    bool tie = false, parent = false, desc = false;
    for (size_t i = 1; i < R.cl.size(); i++)
        if (!R.cl[i].children.empty()) { if (f.stab[i] == f.sum[i]) tie = true; else if (f.stab[i] > f.sum[i]) parent = true; else desc = true; }
    c.classify("exact tie parent/descendants", tie);
    c.classify("parent preferred", parent);
    c.classify("descendants preferred", desc);
    c.classify("too close to call", close_call);
    bool all_noise = true;
    for (long l : S.labels) all_noise &= l == 0;
    c.classify("all noise", all_noise);
    c.nontrivial(R.cl.size() > 1);
}

PROP(C07) {
    Case k = gen_case(s, c, true, 60, 300);
    Obj h(k.mp);
    prepare(s, k, h);
    Ref R = lib_reference(h.sc);
    Snap S = snap(h.sc, false);
    std::vector<char> seen(R.n, 0);
    size_t nonzero = 0, eq = 0;
    for (size_t i = 0; i < R.n; i++) {
        auto &x = S.scores[i];
        CHECK(x.id < R.n && !seen[x.id], "score #", i, " is for point ", x.id, seen[x.id < R.n ? x.id : 0] ? " again" : "");
        seen[x.id] = 1;
        CHECK(x.c == R.core[x.id], "score of point ", x.id, " carries core distance ", x.c, ", expected ", R.core[x.id]);
        double eps = R.noiseLevel[x.id], low = R.cl[(size_t)R.lastCluster[x.id]].lowest;
        double want = eps == 0 ? 0 : 1 - low / eps;
        CHECK(fabs(x.s - want) <= 1e-12, "outlier score of point ", x.id, " is ", x.s, ", expected 1 - ", low, " / ", eps, " = ", want, " in ", k.d.str(), " minPts ", k.mp);
        CHECK(x.s >= 0 && x.s <= 1, "outlier score ", x.s, " of point ", x.id);
        CHECK(low == 0 || x.s < 1 || low / eps < 1e-15, "outlier score of point ", x.id, " is 1");
        if (i) {
            auto &y = S.scores[i - 1];
            CHECK(y.s < x.s || (y.s == x.s && (y.c < x.c || (y.c == x.c && y.id < x.id))), "scores #", i - 1, " (", y.s, ",", y.c, ",", y.id, ") and #", i, " (", x.s, ",", x.c, ",", x.id, ") are out of order");
            eq += y.s == x.s && y.c == x.c;
        }
        nonzero += x.s > 0;
    }
    classify_ref(c, R);
    c.classify("scores above 0", nonzero > 0);
    c.classify("tied scores", eq > 0);
    c.nontrivial(nonzero > 0);
}
