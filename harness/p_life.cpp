// C08 history independence, C09 safety of call sequences
#include "ref.hpp"
#include <memory>
#include <unistd.h>
#ifdef VH_FILL
extern "C" int vh_fill;
#endif

static void set_fill(int v) {
#ifdef VH_FILL
    vh_fill = v;
#else
    (void)v;
#endif
}

static GenOpt opt(const pbt::Ctx &c, size_t small_n, size_t large_n, size_t giant = 5000) { GenOpt o; o.size(c.scale, small_n, large_n, 400, giant); return o; }
static const int PRINT_MAX = 1200; // points; the printed table grows with points times levels

// a data set that differs from d in few places
static DS vary(pbt::Src &s, DS d) {
    int k = (int)s.range(1, 3);
    size_t m = d.dim();
    for (int t = 0; t < k; t++) {
        size_t i = (size_t)s.draw(d.v.size() - 1), j = (size_t)s.draw(d.v.size() - 1);
        switch (s.freq({3, 2, 2})) {
        case 0: d.v[i] = d.v[j]; break;
        case 1: for (size_t q = 0; q < m; q++) std::swap(d.v[i / m * m + q], d.v[j / m * m + q]); break;
        default: std::swap(d.v[i], d.v[j]);
        }
    }
    d.kind += "*";
    return d;
}
static void analyse_c(pbt::Src &s, hdbscan *sc, std::string &hist);
static void analyse_cpp(pbt::Src &s, hdbscan *sc, std::string &hist);

PROP(C08) {
    int thr = gen_threads(s);
    c.classify("threads>1", thr > 1);
    struct O { std::unique_ptr<hdbscan> pp; hdbscan *sc = NULL; bool cpp = false, have = false; size_t mp = 2; DS d; };
    O o[2];
    struct Want { Snap got; DS d; size_t mp; std::string when; };
    std::vector<Want> later;
    bool defer = s.coin(); // compare with fresh objects only at the end: they could disturb or hide what a run leaves behind
    int nops = (int)s.range(2, c.scale > 3 ? 4 : 7);
    std::vector<unsigned char> b;
    int runs = 0, reruns = 0, cleans = 0, twice = 0, varied = 0, analysed = 0, steps[2] = {0, 0};
    std::string hist;
    auto compare = [&](const Want &w) {
        set_fill(0x41);
        std::string diff;
        {
            Obj f(w.mp);
            std::vector<unsigned char> fb = w.d.bytes();
            run_ok(f.sc, w.d, fb);
            Snap want = snap(f.sc);
            diff = snap_diff(w.got, want);
        }
        set_fill(0xbe);
        CHECK(w.got.n == w.d.n() && w.got.minPts == w.mp, w.when, ": object reports ", w.got.n, " points, minPts ", w.got.minPts);
        CHECK(diff.empty(), w.when, ": the object differs from a fresh one: ", diff);
    };
    set_fill(0xbe);
    for (int op = 0; op < nops; op++) {
        int w = s.freq({4, 1});
        O &x = o[w];
        std::string name = w ? "second " : "";
        if (!x.sc) {
            x.cpp = s.freq({2, 1}) == 1;
            x.mp = (size_t)s.range(2, 6);
            if (x.cpp) { x.pp.reset(new hdbscan((index_t)x.mp)); x.sc = x.pp.get(); }
            else x.sc = hdbscan_init(NULL, (index_t)x.mp);
            hist += pbt_msg(hist.empty() ? "" : "; ", name, x.cpp ? "C++ " : "C ", "object minPts ", x.mp);
            c.classify(x.cpp ? "C++ object" : "C object");
            c.classify("two objects", w == 1);
        }
        int k = x.have ? s.freq({4, 4, 1, 2, 3, 1}) : 0;
        std::string step;
        if (k == 2) {
            if (x.cpp) x.pp->clean(); else hdbscan_clean(x.sc);
            cleans++;
            x.have = false;
            hist += "; " + name + "clean";
            c.sample = hist;
            continue;
        }
        if (k == 0 || k == 3 || k == 4) {
            if (k == 0) {
                bool other = o[1 - w].have && s.coin();
                x.d = other ? vary(s, o[1 - w].d) : gen_dataset(s, opt(c, 40, 150));
            } else if (k == 4) { x.d = vary(s, x.d); varied++; }
            else twice++;
            std::vector<unsigned char> keep = x.d.bytes();
            if (b.size() == keep.size() && s.freq({3, 1}) == 0) std::copy(keep.begin(), keep.end(), b.begin()); // the same memory again
            else b = keep;
            step = k == 3 ? "run again" : "run " + x.d.str();
            hist += "; " + name + step;
            c.sample = hist;
            if (x.cpp) x.pp->run(b.data(), (index_t)x.d.rows, (index_t)x.d.cols, x.d.rowwise, (index_t)x.d.type);
            else run_ok(x.sc, x.d, b);
            CHECK(b == keep, "the caller's data was modified");
            std::fill(b.begin(), b.end(), 0x5a); // the caller may reuse its buffer now
            runs++;
            x.have = true;
        } else if (k == 5) {
            std::string dummy;
            step = "analyse";
            hist += "; " + name + step;
            c.sample = hist;
            if (x.cpp) analyse_cpp(s, x.sc, dummy); else analyse_c(s, x.sc, dummy);
            analysed++;
        } else {
            x.mp = gen_minpts(s, x.d.n());
            step = pbt_msg("rerun ", x.mp);
            hist += "; " + name + step;
            c.sample = hist;
            if (x.cpp) x.pp->reRun((index_t)x.mp);
            else CHECK(hdbscan_rerun(x.sc, (index_t)x.mp) == HDBSCAN_SUCCESS, "rerun");
            reruns++;
        }
        steps[w]++;
        Want q{snap(x.sc), x.d, x.mp, "after " + name + step.substr(0, 12)};
        if (defer) later.push_back(q); else compare(q);
        O &y = o[1 - w];
        if (y.have && s.freq({2, 1})) { // the other object is as it was
            Want r{snap(y.sc), y.d, y.mp, "the other object after " + name + step.substr(0, 12)};
            if (defer) later.push_back(r); else compare(r);
        }
    }
    for (O &x : o) if (x.sc && !x.cpp) hdbscan_destroy(x.sc);
    for (Want &q : later) compare(q);
    c.classify("re-run", reruns > 0);
    c.classify("run over other data", runs - twice > 1);
    c.classify("run twice", twice > 0);
    c.classify("slightly different data", varied > 0);
    c.classify("clean", cleans > 0);
    c.classify("analysed", analysed > 0);
    c.nontrivial(steps[0] >= 2 || steps[1] >= 2);
}

// ------------------------------------------------------------------ C09
static size_t wild_minpts(pbt::Src &s, size_t n) {
    if (s.freq({6, 1}) == 0) return gen_minpts(s, n);
    static const size_t big[] = {1000, 100000, 16000000, 1u << 31, UINT_MAX - 1, UINT_MAX};
    return (size_t)(index_t)big[s.draw(5)];
}

static void analyse_c(pbt::Src &s, hdbscan *sc, std::string &hist) {
    hist += "; analyse";
    hashtable *map = hdbscan_create_cluster_map(sc->clusterLabels, 0, sc->numPoints);
    hashtable *dm = hdbscan_get_min_max_distances(sc, map);
    clustering_stats st;
    hdbscan_calculate_stats(dm, &st);
    hdbscan_analyse_stats(&st);
    int what = (int)s.draw(7);
    if (what & 1) {
        ArrayList *a = hdbscan_sort_by_similarity(dm, NULL, s.coin() ? CORE_DISTANCE_TYPE : INTRA_DISTANCE_TYPE);
        if (s.coin()) hdbscan_sort_by_length(map, a); else hdbscan_sort_by_similarity(dm, a, INTRA_DISTANCE_TYPE);
        array_list_delete(a);
    } else {
        ArrayList *a = array_list_init(1, sizeof(label_t), int_compare);
        hdbscan_sort_by_length(map, a);
        array_list_delete(a);
    }
    if ((what & 2) && sc->numPoints <= PRINT_MAX) { // printing
        pbt::capture_begin();
        hdbscan_print_cluster_map(map);
        hdbscan_print_cluster_sizes(map);
        hdbscan_print_distance_map(dm);
        hdbscan_print_stats(&st);
        hdbscan_print_outlier_scores(sc->outlierScores, sc->numPoints);
        std::string f = std::string(pbt::scratch_dir()) + "/h";
        hdbscan_print_hierarchies(sc->hierarchy, sc->numPoints, s.coin() ? &f[0] : NULL);
        distances_print(&sc->distanceFunction);
        graph_print(sc->mst);
        pbt::capture_end();
        hist += " (printed)";
    }
    hdbscan_destroy_distance_map(dm);
    hdbscan_destroy_cluster_map(map);
}
static void analyse_cpp(pbt::Src &s, hdbscan *sc, std::string &hist) {
    hist += "; analyse in C++";
    map_t m = clustering::createClusterMap(sc->clusterLabels, 0, sc->numPoints);
    map<label_t, distance_values> dm = clustering::getMinMaxDistances(*sc, m);
    clustering_stats st;
    clustering::calculateStats(dm, st);
    clustering::analyseStats(st);
    vector<label_t> a;
    clustering::sortBySimilarity(dm, a, s.coin() ? CORE_DISTANCE_TYPE : INTRA_DISTANCE_TYPE);
    clustering::sortByLength(m, a);
    if (s.coin() && sc->numPoints <= PRINT_MAX) {
        pbt::capture_begin();
        clustering::printClusterMap(m);
        clustering::printClusterSizes(m);
        clustering::printDistanceMap(dm);
        clustering::printStats(st);
        pbt::capture_end();
    }
}

// distances used by themselves, several times over
static void use_distance(pbt::Src &s, pbt::Ctx &c, std::string &hist) {
    int kind = (int)s.draw(2);
    hist += kind == 0 ? "; distance object" : kind == 1 ? "; distance object in place" : "; C++ Distance object";
    cdistance local, *d;
    if (kind == 0) d = distance_init(NULL, _EUCLIDEAN, H_DOUBLE);
    else if (kind == 1) { memset((void *)&local, 0xa5, sizeof local); d = distance_init(&local, _EUCLIDEAN, H_DOUBLE); }
    else d = new clustering::Distance(_EUCLIDEAN, H_DOUBLE);
    int n = (int)s.range(0, 3);
    for (int i = 0; i < n; i++) {
        DS ds = gen_dataset(s, opt(c, 12, 60, 1000));
        auto b = ds.bytes();
        d->datatype = (enum HTYPES)ds.type;
        size_t k = wild_minpts(s, ds.n()) - 1;
        hist += pbt_msg(" compute ", ds.str(), " for ", k, " neighbours");
        c.sample = hist;
        distance_compute(d, b.data(), (index_t)ds.n(), (index_t)(ds.rowwise == 1 ? ds.cols : 1), (index_t)k);
        double sum = 0;
        for (size_t a = 0; a < ds.n(); a++) for (size_t e = 0; e < ds.n(); e++) sum += distance_get(d, (index_t)a, (index_t)e);
        volatile double sink = sum; (void)sink;
        if (s.coin()) {
            d->numNeighbors = (index_t)(wild_minpts(s, ds.n()) - 1);
            hist += pbt_msg(" core distances for ", d->numNeighbors);
            distance_get_core_distances(d);
        }
        if (s.freq({3, 1})) { hist += " clean"; distance_clean(d); }
    }
    if (kind == 0) distance_destroy(d);
    else if (kind == 1) { distance_clean(d); if (s.coin()) distance_clean(d); }
    else delete d;
}

PROP(C09) {
    int thr = gen_threads(s);
    c.classify("threads>1", thr > 1);
    if (thr > 1) {
#ifdef _OPENMP
#pragma omp parallel
        { volatile int x = omp_get_thread_num(); (void)x; } // thread pool exists before counting
#endif
    }
    long base = pbt::live_allocs();
    struct O { hdbscan *sc = NULL; int kind = 0; bool ran = false; size_t n = 0; };
    O o[3];
    bool giant = c.scale > 3; // few operations, the first of which run a large data set
    int nops = (int)(giant ? s.range(3, 7) : s.range(2, 12)), ran = 0, reran = 0, analysed = 0, early = 0, cleaned = 0, mid = 0;
    std::string hist;
    bool tiny = false, over = false;
    for (int op = 0; op < nops; op++) {
        int i = giant && op < 2 ? 0 : s.freq({4, 2, 1});
        O &x = o[i];
        c.sample = hist;
        if (!(giant && op < 2) && s.freq({14, 1})) { use_distance(s, c, hist); c.classify("distance object"); continue; }
        if (!x.sc) {
            size_t mp = giant ? gen_minpts(s, 20) : wild_minpts(s, 20);
            x.kind = s.freq({3, 2, 1});
            hist += pbt_msg("; #", i, x.kind == 0 ? " init " : x.kind == 1 ? " new C++ " : " init in place ", mp);
            c.sample = hist;
            if (x.kind == 0) x.sc = hdbscan_init(NULL, (index_t)mp);
            else if (x.kind == 1) x.sc = new hdbscan((index_t)mp);
            else { x.sc = (hdbscan *)malloc(sizeof(hdbscan)); memset((void *)x.sc, 0xa5, sizeof(hdbscan)); hdbscan_init(x.sc, (index_t)mp); }
            x.ran = false;
            continue;
        }
        int k = giant && op == 1 ? 0 : giant ? s.freq({2, 4, 6, 1, 1, 1}) : s.freq({5, 4, 3, 1, 1, 1});
        hist += pbt_msg("; #", i);
        switch (k) {
        case 0: {
            DS d = gen_dataset(s, opt(c, s.coin() ? 12 : 50, 120, 4200));
            auto b = d.bytes();
            hist += " run " + d.str();
            x.sc->selfEdges = TRUE; // a tree without them needs an edge
            if (d.n() > 1 && s.freq({7, 1})) { hist += " without self edges"; x.sc->selfEdges = FALSE; c.classify("without self edges"); }
            c.sample = hist;
            if (x.kind == 1) x.sc->run(b.data(), (index_t)d.rows, (index_t)d.cols, d.rowwise, (index_t)d.type);
            else CHECK(hdbscan_run(x.sc, b.data(), (index_t)d.rows, (index_t)d.cols, d.rowwise, (index_t)d.type) == HDBSCAN_SUCCESS, "run failed");
            tiny |= d.n() < 5;
            over |= x.sc->minPoints > d.n();
            x.ran = true; x.n = d.n();
            ran++;
            break;
        }
        case 1: {
            size_t mp = wild_minpts(s, x.ran ? x.n : 10);
            hist += pbt_msg(" rerun ", mp);
            c.sample = hist;
            if (x.kind == 1) x.sc->reRun((index_t)mp);
            else {
                int r = hdbscan_rerun(x.sc, (index_t)mp);
                CHECK(r == (x.ran ? HDBSCAN_SUCCESS : HDBSCAN_ERROR), "rerun returned ", r, x.ran ? " after" : " before", " a run");
            }
            if (x.ran) { reran++; over |= mp > x.n; } else early++;
            break;
        }
        case 2:
            if (!x.ran) break;
            if (s.coin()) analyse_c(s, x.sc, hist); else analyse_cpp(s, x.sc, hist);
            analysed++;
            break;
        case 3:
            hist += " clean";
            c.sample = hist;
            if (x.kind == 1) x.sc->clean(); else hdbscan_clean(x.sc);
            x.ran = false;
            cleaned++;
            break;
        case 4:
            hist += " destroy";
            c.sample = hist;
            if (x.kind == 1) delete x.sc; else hdbscan_destroy(x.sc);
            x.sc = NULL;
            break;
        default: // read every documented result
            if (x.ran) { Snap q = snap(x.sc); mid += (int)q.n >= 0; }
            break;
        }
    }
    c.sample = hist + "; destroy all";
    for (O &x : o) if (x.sc) { if (x.kind == 1) delete x.sc; else hdbscan_destroy(x.sc); }
    long left = pbt::live_allocs() - base;
    CHECK(left == 0, left, " allocations remain after everything was destroyed");
    c.classify("fewer than 5 points", tiny);
    c.classify("minPts > points", over);
    c.classify("re-run", reran > 0);
    c.classify("re-run before run", early > 0);
    c.classify("run after run or clean", ran > 1);
    c.classify("analysed", analysed > 0);
    c.classify("cleaned", cleaned > 0);
    c.nontrivial(ran > 0);
}
