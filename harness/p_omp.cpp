// C11 results do not depend on threads and schedules. Two builds: with libgomp and real threads; with omp_sim.cpp, which
// decides the schedule of every parallel loop and reports unordered accesses.
// C29 objects used by different threads at the same time do not influence each other: the same two builds.
#include "ref.hpp"
#include "hdbscan/undirected_graph.h"
#include "collections/list.h"
#include "collections/set.h"
#include "collections/linkedlist.h"
#include "collections/hashtable.h"
#include <functional>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <thread>
#include <unistd.h>
#define DUMP_FN dump_omp_
#define DUMP_NS clustering::
#include "dump.inc"
#ifdef OMP_SIM
#include "omp_sim.hpp"
#endif

static std::string first_diff(const std::string &a, const std::string &b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    size_t l = a.rfind('\n', i), q = i > 60 ? i - 60 : 0;
    if (l != std::string::npos && l > q && l < i) q = l;
    return "\"..." + a.substr(q, 160) + "...\" vs \"..." + b.substr(q, 160) + "...\"";
}
static void put(std::string &o, double x) { char b[64]; snprintf(b, sizeof b, " %a", x); o += std::isnan(x) ? " nan" : b; }

static void put_stats(std::string &o, const stats_values &v) {
    for (double x : {(double)v.max, (double)v.mean, (double)v.kurtosis, (double)v.skewness, (double)v.standardDev, (double)v.variance}) put(o, x);
}
struct Sched { int threads; unsigned mode, quantum; uint64_t seed; };
static void use(const Sched &k) {
#ifdef OMP_SIM
    omp_sim_schedule(k.threads, k.mode, k.quantum, k.seed);
#elif defined(_OPENMP)
    omp_set_dynamic(0);
    omp_set_num_threads(k.threads);
#else
    (void)k;
#endif
}
struct Plan { // what is called, the same under every schedule
    bool cpp, stages, compact, analyse;
    size_t mp, mp2, b, e;
    int sortkey;
    bool given;
    std::string file; // the hierarchy is printed to this file
};
static void analyse_c(std::string &o, hdbscan *h, const Plan &p) {
    hashtable *ct = hdbscan_create_cluster_map(h->clusterLabels, (index_t)p.b, (index_t)p.e);
    std::vector<label_t> keys;
    o += "\nmap";
    for (size_t i = 0; i < ct->keys->size; i++) {
        label_t k = ((label_t *)ct->keys->data)[i];
        keys.push_back(k);
        ArrayList *l = NULL;
        hashtable_lookup(ct, &k, &l);
        o += pbt_msg(" (", (unsigned long)k, ":");
        if (l) for (size_t j = 0; j < l->size; j++) o += pbt_msg(" ", (unsigned long)((index_t *)l->data)[j]);
        o += ")";
    }
    std::sort(keys.begin(), keys.end());
    hashtable *dm = hdbscan_get_min_max_distances(h, ct);
    auto table = [&](const char *name) {
        o += name;
        for (label_t k : keys) {
            distance_values *d = NULL;
            hashtable_lookup(dm, &k, &d);
            o += pbt_msg(" (", (unsigned long)k, ":");
            if (d) for (double x : {(double)d->min_cr, (double)d->max_cr, (double)d->cr_confidence, (double)d->min_dr, (double)d->max_dr, (double)d->dr_confidence}) put(o, x);
            o += ")";
        }
        if (dm->size != keys.size()) o += pbt_msg(" and the table has ", dm->size, " entries");
    };
    table("\ntable");
    if (keys.size() >= 2) {
        clustering_stats st;
        memset(&st, 0, sizeof st);
        hdbscan_calculate_stats(dm, &st);
        o += "\nstatistics";
        put_stats(o, st.coreDistanceValues);
        put_stats(o, st.intraDistanceValues);
        o += pbt_msg(" validity ", hdbscan_analyse_stats(&st));
        if (!p.file.empty()) { hdbscan_print_cluster_map(ct); hdbscan_print_cluster_sizes(ct); hdbscan_print_distance_map(dm); hdbscan_print_stats(&st); }
        table("\nconfidences");
        for (int i = 0; i < 2; i++) { // the order among equals is not documented: the keys in order are
            ArrayList *r;
            if (i == 0) {
                ArrayList *a = array_list_init(keys.size(), sizeof(label_t), int_compare);
                if (p.given) for (label_t k : keys) array_list_append(a, &k);
                r = hdbscan_sort_by_length(ct, a);
                if (r != a) array_list_delete(a);
            } else
                r = hdbscan_sort_by_similarity(dm, NULL, p.sortkey == 0 ? CORE_DISTANCE_TYPE : INTRA_DISTANCE_TYPE);
            o += i ? "\nby similarity" : "\nby length";
            for (size_t j = 0; j < r->size; j++) {
                label_t k = ((label_t *)r->data)[j];
                if (i == 0) {
                    ArrayList *l = NULL;
                    hashtable_lookup(ct, &k, &l);
                    o += pbt_msg(" ", l ? l->size : 0);
                } else {
                    distance_values *d = NULL;
                    hashtable_lookup(dm, &k, &d);
                    if (d) put(o, p.sortkey == 0 ? d->cr_confidence : d->dr_confidence);
                }
            }
            array_list_delete(r);
        }
    }
    hdbscan_destroy_distance_map(dm);
    hdbscan_destroy_cluster_map(ct);
}
static void analyse_cpp(std::string &o, hdbscan &h, const Plan &p) {
    map_t ct = clustering::createClusterMap(h.clusterLabels, (index_t)p.b, (index_t)p.e);
    std::vector<label_t> keys;
    o += "\nmap";
    for (auto &kv : ct) {
        keys.push_back(kv.first);
        o += pbt_msg(" (", (unsigned long)kv.first, ":");
        for (auto x : kv.second) o += pbt_msg(" ", (unsigned long)x);
        o += ")";
    }
    map<label_t, distance_values> dm = clustering::getMinMaxDistances(h, ct);
    auto table = [&](const char *name) {
        o += name;
        for (auto &kv : dm) {
            o += pbt_msg(" (", (unsigned long)kv.first, ":");
            for (double x : {(double)kv.second.min_cr, (double)kv.second.max_cr, (double)kv.second.cr_confidence, (double)kv.second.min_dr, (double)kv.second.max_dr, (double)kv.second.dr_confidence}) put(o, x);
            o += ")";
        }
    };
    table("\ntable");
    if (dm.size() >= 2) {
        clustering_stats st;
        memset(&st, 0, sizeof st);
        clustering::calculateStats(dm, st);
        o += "\nstatistics";
        put_stats(o, st.coreDistanceValues);
        put_stats(o, st.intraDistanceValues);
        o += pbt_msg(" validity ", clustering::analyseStats(st));
        table("\nconfidences");
        std::vector<label_t> v;
        if (p.given) v = keys;
        clustering::sortBySimilarity(dm, v, p.sortkey == 0 ? CORE_DISTANCE_TYPE : INTRA_DISTANCE_TYPE);
        o += "\nby similarity";
        for (label_t k : v) put(o, (double)(p.sortkey == 0 ? dm[k].cr_confidence : dm[k].dr_confidence));
        v.clear();
        if (p.given) v = keys;
        clustering::sortByLength(ct, v);
        o += "\nby length";
        for (label_t k : v) o += pbt_msg(" ", ct[k].size());
    }
}
static std::string results(const DS &d, std::vector<unsigned char> &b, const Plan &p) {
    std::string o;
    auto dump = [&](hdbscan *h, const char *when) {
        char *z = dump_omp_(h);
        o += std::string("== ") + when + "\n" + z;
        free(z);
    };
    size_t n = d.n();
    if (p.stages) {
        hdbscan *h = hdbscan_init(NULL, (index_t)p.mp);
        distance_init(&h->distanceFunction, 1, (enum HTYPES)d.type);
        h->numPoints = (index_t)n;
        distance_compute(&h->distanceFunction, b.data(), (index_t)n, (index_t)d.dim(), (index_t)(p.mp - 1));
        h->clusters = ptr_array_list_init(5, clustering::cluster_compare);
        h->hierarchy = hashtable_init(11, H_LONG, H_PTR, long_compare);
        std::vector<distance_t> nl(n, -1);
        std::vector<label_t> lc(n, 7);
        hdbscan_construct_mst(h);
        dump(h, "tree");
        graph_quicksort_by_edge_weight(h->mst);
        hdbscan_compute_hierarchy_and_cluster_tree(h, p.compact, nl.data(), lc.data());
        o += "\nlevels";
        for (size_t i = 0; i < n; i++) { put(o, (double)nl[i]); o += pbt_msg("/", (unsigned long)lc[i]); }
        int inf = hdbscan_propagate_tree(h);
        hdbscan_find_prominent_clusters(h, inf);
        hdbscsan_calculate_outlier_scores(h, nl.data(), lc.data(), inf);
        dump(h, "stage by stage");
        if (p.analyse) analyse_c(o, h, p);
        hdbscan_destroy(h);
    } else if (p.cpp) {
        hdbscan h((index_t)p.mp);
        h.run(b.data(), (index_t)d.rows, (index_t)d.cols, d.rowwise, (index_t)d.type);
        dump(&h, "run");
        if (p.analyse) analyse_cpp(o, h, p);
        if (p.mp2) { h.reRun((index_t)p.mp2); dump(&h, "re-run"); }
    } else {
        hdbscan *h = hdbscan_init(NULL, (index_t)p.mp);
        o += pbt_msg("returned ", hdbscan_run(h, b.data(), (index_t)d.rows, (index_t)d.cols, d.rowwise, (index_t)d.type), "\n");
        dump(h, "run");
        if (p.analyse) analyse_c(o, h, p);
        if (!p.file.empty()) {
            o += "\nprinted\n";
            hdbscan_print_hierarchies(h->hierarchy, h->numPoints, (char *)p.file.c_str());
            for (const char *x : {"_visualization.vis", "_hierarchy.csv"})
                if (FILE *f = fopen((p.file + x).c_str(), "r")) { char z[4096]; size_t k; while ((k = fread(z, 1, sizeof z, f)) > 0) o.append(z, k); fclose(f); unlink((p.file + x).c_str()); }
            hdbscan_print_hierarchies(h->hierarchy, h->numPoints, NULL); // these go to the standard output, which nobody reads here
            hdbscan_print_outlier_scores(h->outlierScores, h->numPoints);
            distances_print(&h->distanceFunction);
        }
        if (p.mp2) { o += pbt_msg("returned ", hdbscan_rerun(h, (index_t)p.mp2), "\n"); dump(h, "re-run"); if (p.analyse) analyse_c(o, h, p); }
        hdbscan_destroy(h);
    }
    return o;
}

PROP(C11) {
    GenOpt o;
    o.max_n = c.scale > 1 ? 90 : 36;
#ifndef OMP_SIM
    if (c.scale > 1) o.max_n = 250;
#endif
    o.min_n = 1;
    DS d = gen_dataset(s, o);
    auto b = d.bytes();
    size_t n = d.n();
    Plan p;
    p.mp = gen_minpts(s, n);
    switch (s.freq({4, 3, 2})) { case 0: p.cpp = p.stages = false; break; case 1: p.cpp = true; p.stages = false; break; default: p.cpp = false; p.stages = true; }
    p.compact = s.coin();
    p.mp2 = s.freq({2, 1}) ? gen_minpts(s, n) : 0;
    p.analyse = s.freq({1, 2}) == 1;
    p.b = 0; p.e = n;
    if (s.freq({3, 1})) { p.b = (size_t)s.draw(n - 1); p.e = (size_t)s.range((int64_t)p.b, (int64_t)n); }
    p.sortkey = (int)s.draw(1);
    p.given = s.coin();
    c.sample = pbt_msg(p.stages ? "stages" : p.cpp ? "C++" : "C", ", minPts ", p.mp, p.mp2 ? pbt_msg(", re-run ", p.mp2) : "", p.analyse ? ", analysis" : "", ": ", d.str());
    std::string base_sample = c.sample.s;
    use({1, 0, 1, 1});
    std::string want = results(d, b, p);
    int k = (int)s.range(1, 4);
    bool cross = false;
    for (int i = 0; i < k; i++) {
        Sched q;
        q.threads = 2 + s.freq({4, 3, 2, 1, 1, 1, 1});
        q.mode = (unsigned)s.freq({2, 3});
        static const unsigned qs[] = {1, 3, 10, 50, 400};
        q.quantum = qs[s.freq({2, 3, 3, 2, 1})];
        q.seed = s.draw(UINT64_MAX / 2);
        std::string how = pbt_msg(q.threads, " threads");
#ifdef OMP_SIM
        how += q.mode ? pbt_msg(", about every ", (q.quantum + 1) / 2, " accesses another thread, schedule ", q.seed) : pbt_msg(", one after the other, schedule ", q.seed);
        OmpStats before = omp_sim_stats();
#else
        if (c.scale > 1 && s.freq({3, 1})) { q.threads = 16; how = "16 threads"; }
#endif
        c.sample = base_sample + "; " + how;
        use(q);
        std::string got = results(d, b, p);
#ifdef OMP_SIM
        const char *r = omp_sim_race();
        CHECK(!r, "data race with ", how, ": ", r);
        OmpStats after = omp_sim_stats();
        cross |= after.regions > before.regions;
        c.classify("preempted", after.switches > before.switches);
        use({1, 0, 1, 1});
#else
        cross = true;
#endif
        CHECK(got == want, "results with ", how, " differ from those of one thread: ", first_diff(want, got));
    }
    c.classify(p.stages ? "stages" : p.cpp ? "C++" : "C");
    c.classify("analysis", p.analyse);
    c.classify("n<threads", n < 8);
    c.nontrivial(cross && n >= 4);
}

// a fixed program over collections and a graph that only the calling thread uses; returns what it saw
static std::string collections_program(uint64_t seed, int ops) {
    std::string o = "collections";
    auto rnd = [&](uint64_t n) { uint64_t z = (seed += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return (z ^ (z >> 31)) % n; };
    size_t nv = 1 + rnd(12);
    ArrayList *l = array_list_init(1 + rnd(6), sizeof(int32_t), int_compare);
    set_t *st = set_init(sizeof(long), long_compare);
    linkedlist *ll = linkedlist_init(sizeof(double));
    hashtable *t = hashtable_init(rnd(30), H_INT, H_DOUBLE, int_compare);
    ArrayList *va = array_list_init(4, sizeof(index_t), int_compare), *vb = array_list_init(4, sizeof(index_t), int_compare), *w = array_list_init(4, sizeof(distance_t), double_compare);
    for (size_t i = 0, ne = rnd(20); i < ne; i++) {
        index_t a = (index_t)rnd(nv), b = (index_t)rnd(nv);
        distance_t x = (distance_t)rnd(9);
        array_list_append(va, &a); array_list_append(vb, &b); array_list_append(w, &x);
    }
    clustering::UndirectedGraph *g = clustering::graph_init(NULL, (index_t)nv, va, vb, w);
    for (int k = 0; k < ops; k++) {
        int32_t i = (int32_t)rnd(40) - 8;
        long q = i; double d = i * 0.5;
        switch (rnd(16)) {
        case 0: case 1: array_list_append(l, &i); break;
        case 2: o += pbt_msg(" i", array_list_insert_at(l, &i, rnd(l->size + 1))); break;
        case 3: if (l->size) { int32_t z = 0; array_list_remove_at(l, rnd(l->size), &z); o += pbt_msg(" r", z); } break;
        case 4: array_list_sort(l); o += pbt_msg(" f", array_list_find(l, &i, 1) >= 0); break;
        case 5: o += pbt_msg(" f", array_list_find(l, &i, 0)); break;
        case 6: case 7: set_insert(st, &q); o += pbt_msg(" s", st->size); break;
        case 8: o += pbt_msg(" sr", set_remove(st, &q)); break;
        case 9: linkedlist_tail_add(ll, &d); linkedlist_front_add(ll, &d); break;
        case 10: { double *x = (double *)linkedlist_head(ll, 1); if (x) { put(o, *x); free(x); } break; }
        case 11: case 12: o += pbt_msg(" h", hashtable_insert(t, &i, &d)); break;
        case 13: { double x = 0; if (hashtable_lookup(t, &i, &x) == 1) put(o, x); break; }
        case 14: { double x = 0; o += pbt_msg(" hr", hashtable_remove(t, &i, &x)); break; }
        default: o += pbt_msg(" p", get_prime(i + 30), " ", find_prime_less_than(i * 700 + 30000), " ", highestPowerof2((size_t)(i + 30)));
        }
    }
    o += "\nlist";
    for (size_t i = 0; i < l->size; i++) o += pbt_msg(" ", ((int32_t *)l->data)[i]);
    o += "\nset";
    for (size_t i = 0; i < st->size; i++) { long x = 0; set_value_at(st, i, &x); o += pbt_msg(" ", x); }
    o += "\nlinked";
    for (size_t i = 0; i < ll->size; i++) { double x = 0; linkedlist_value_at(ll, (int32_t)i, &x); put(o, x); }
    o += "\ntable";
    for (int32_t i = -8; i < 32; i++) { double x = 0; if (hashtable_lookup(t, &i, &x) == 1) { o += pbt_msg(" ", i); put(o, x); } }
    graph_quicksort_by_edge_weight(g);
    o += "\ngraph";
    for (size_t i = 0; i < w->size; i++) put(o, ((distance_t *)w->data)[i]);
    for (size_t i = 0; i < w->size; i += 3) graph_remove_edge(g, ((index_t *)va->data)[i], ((index_t *)vb->data)[i]);
    for (size_t i = 0; i < nv; i++) o += pbt_msg(" ", ((ArrayList *)g->edges[i])->size);
    graph_destroy(g);
    array_list_delete(l);
    set_delete(st);
    linkedlist_delete(ll);
    hashtable_destroy(t, NULL, NULL);
    return o;
}

#ifdef OMP_SIM
extern "C" int omp_get_thread_num(void);
extern "C" void GOMP_parallel(void (*)(void *), void *, unsigned, unsigned);
#endif
// all programs at once, each on its own thread
static std::vector<std::string> at_once(const std::vector<std::function<std::string()>> &progs) {
    struct A { const std::vector<std::function<std::string()>> *p; std::vector<std::string> out; } a;
    a.p = &progs;
    a.out.resize(progs.size());
#ifdef OMP_SIM
    GOMP_parallel([](void *v) { A &a = *(A *)v; size_t i = (size_t)omp_get_thread_num(); a.out[i] = (*a.p)[i](); }, &a, (unsigned)progs.size(), 0);
#else
    std::vector<std::thread> ts;
    int ready = 0;
    for (size_t i = 0; i < progs.size(); i++)
        ts.emplace_back([&, i] {
            __atomic_add_fetch(&ready, 1, __ATOMIC_SEQ_CST);
            while (__atomic_load_n(&ready, __ATOMIC_SEQ_CST) < (int)progs.size()) std::this_thread::yield();
            a.out[i] = progs[i]();
        });
    for (auto &t : ts) t.join();
#endif
    return a.out;
}
// runs f in a process of its own, where the library has not been used yet
static std::vector<std::string> in_child(const char *what, const std::function<std::vector<std::string>()> &f) {
    int fd[2];
    if (pipe(fd)) abort();
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        close(fd[0]);
        // a program that does not end must not outlive the case or take the time of the whole check
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        rlimit rl{20, 20};
        setrlimit(RLIMIT_CPU, &rl);
        itimerval it{{0, 0}, {100, 0}};
        setitimer(ITIMER_REAL, &it, NULL);
        std::string all;
        for (auto &x : f()) { uint64_t n = x.size(); all.append((char *)&n, 8); all += x; }
        for (size_t i = 0; i < all.size();) { ssize_t k = write(fd[1], all.data() + i, all.size() - i); if (k <= 0) break; i += (size_t)k; }
        _exit(0);
    }
    close(fd[1]);
    std::string all;
    char b[65536];
    ssize_t k;
    while ((k = read(fd[0], b, sizeof b)) > 0) all.append(b, (size_t)k);
    close(fd[0]);
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    CHECK(!WIFSIGNALED(st) || (WTERMSIG(st) != SIGXCPU && WTERMSIG(st) != SIGKILL && WTERMSIG(st) != SIGALRM), what, ": did not end within 20 s of CPU time");
    CHECK(!WIFSIGNALED(st), what, ": killed by signal ", WTERMSIG(st));
    CHECK(WEXITSTATUS(st) == 0, what, ": ended with status ", WEXITSTATUS(st), " (sanitizer report)");
    std::vector<std::string> r;
    for (size_t i = 0; i + 8 <= all.size();) { uint64_t n; memcpy(&n, &all[i], 8); i += 8; r.push_back(all.substr(i, n)); i += n; }
    return r;
}
PROP(C29) {
    GenOpt o;
    o.max_n = c.scale > 1 ? 60 : 16;
    o.min_n = 1;
    struct Run { DS d; std::vector<unsigned char> b; Plan p; };
    std::vector<Run> runs;
    std::vector<std::function<std::string()>> progs;
    size_t k = 2 + (size_t)s.freq({6, 3, 1}), clusterings = 0, big = 0;
    runs.reserve(k);
    std::string text;
    bool alike = s.freq({2, 1}); // every thread does the same to the same data (and prints nothing)
    for (size_t i = 0; i < k; i++) {
        if (alike && i) { progs.push_back(progs[0]); text += "; the same"; clusterings += clusterings > 0; continue; }
        if (s.freq({3, 1})) {
            uint64_t seed = s.draw(1u << 30);
            int ops = (int)s.range(0, c.scale > 1 ? 400 : 80);
            progs.push_back([=] { return collections_program(seed, ops); });
            text += pbt_msg(i ? "; " : "", "thread ", i, ": ", ops, " operations on collections, program ", seed);
            continue;
        }
        Run r;
        r.d = gen_dataset(s, o);
        r.b = r.d.bytes();
        size_t n = r.d.n();
        Plan &p = r.p;
        p.mp = gen_minpts(s, n);
        switch (s.freq({4, 3, 2})) { case 0: p.cpp = p.stages = false; break; case 1: p.cpp = true; p.stages = false; break; default: p.cpp = false; p.stages = true; }
        p.compact = s.coin();
        p.mp2 = s.freq({2, 1}) ? gen_minpts(s, n) : 0;
        p.analyse = s.freq({1, 2}) == 1;
        p.b = 0; p.e = n;
        p.sortkey = (int)s.draw(1);
        p.given = s.coin();
        if (!alike && s.freq({3, 1})) p.file = pbt_msg(pbt::scratch_dir(), "/c29-", i);
        text += pbt_msg(i ? "; " : "", "thread ", i, ": ", p.stages ? "stages" : p.cpp ? "C++" : "C", ", minPts ", p.mp, p.mp2 ? pbt_msg(", re-run ", p.mp2) : "", p.analyse ? ", analysis" : "", p.file.empty() ? "" : ", print", ": ", r.d.str());
        runs.push_back(r);
        Run *q = &runs.back();
        progs.push_back([q] { return results(q->d, q->b, q->p); });
        clusterings++;
        big += n >= 4;
    }
    Sched q;
    q.threads = 1;
    q.mode = (unsigned)s.freq({1, 4});
    static const unsigned qs[] = {1, 3, 20, 200, 3000};
    q.quantum = qs[s.freq({1, 2, 3, 3, 2})];
    q.seed = s.draw(UINT64_MAX / 2);
#ifdef OMP_SIM
    text += q.mode ? pbt_msg("; about every ", (q.quantum + 1) / 2, " accesses another thread, schedule ", q.seed) : pbt_msg("; one after the other, schedule ", q.seed);
#else
    q.threads = (int)s.range(1, 3);
    text += pbt_msg("; ", q.threads, " OpenMP threads each");
#endif
    c.sample = text;
#ifndef OMP_SIM
    for (auto &f : progs) { auto g = f; f = [g, q] { use(q); return g(); }; }
#endif
    auto got = in_child("used at the same time", [&] {
#ifdef OMP_SIM
        use(q);
#endif
        auto r = at_once(progs);
#ifdef OMP_SIM
        const char *m = omp_sim_race();
        r.push_back(m ? m : "");
        r.push_back(omp_sim_stats().switches ? "x" : "");
#endif
        return r;
    });
    auto want = in_child("used one after the other", [&] { std::vector<std::string> r; for (auto &f : progs) r.push_back(f()); return r; });
#ifdef OMP_SIM
    CHECK(got.size() == k + 2, "no result");
    c.classify("preempted", !got[k + 1].empty());
    CHECK(got[k].empty(), "data race between the users of different objects: ", got[k]);
#endif
    CHECK(want.size() == k && got.size() >= k, "no result");
    for (size_t i = 0; i < k; i++) CHECK(got[i] == want[i], "thread ", i, " gets other results than when it is alone: ", first_diff(want[i], got[i]));
    c.classify("clusterings", clusterings > 1);
    c.classify("collections", clusterings < k);
    c.classify("same data", alike);
    c.nontrivial(clusterings >= 2 && (alike || big >= 2));
}
