// C24 printed and exported results
#include "ref.hpp"
#include "hdbscan/logger.h"
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>

// numbers in a text, in order; words are skipped
static std::vector<std::string> tokens(const std::string &t) {
    std::vector<std::string> r;
    size_t i = 0, n = t.size();
    auto word = [](char ch) { return isalnum((unsigned char)ch) || ch == '_'; };
    while (i < n) {
        size_t j = i;
        if ((t[j] == '-' || t[j] == '+') && j + 1 < n) j++;
        bool num = isdigit((unsigned char)t[j]);
        bool spec = !num && (t.compare(j, 3, "inf") == 0 || t.compare(j, 3, "nan") == 0) && (j + 3 >= n || !word(t[j + 3]));
        if ((num || spec) && (i == 0 || !word(t[i - 1]) || j > i)) {
            if (spec) { r.push_back(t.substr(i, j + 3 - i)); i = j + 3; continue; }
            char *e;
            strtod(t.c_str() + i, &e);
            size_t l = (size_t)(e - t.c_str()) - i;
            r.push_back(t.substr(i, l));
            i += l;
        } else if (word(t[i])) { while (i < n && word(t[i])) i++; }
        else i++;
    }
    return r;
}
struct Want { bool isint; long i; double d; int prec; };
static Want wi(long v) { return {true, v, 0, 0}; }
static Want wd(double v, int prec = 6) { return {false, 0, v, prec}; }
static void compare(const std::vector<std::string> &got, const std::vector<Want> &want, const char *what) {
    for (size_t k = 0; k < want.size(); k++) {
        CHECK(k < got.size(), what, ": ", got.size(), " values printed, ", want.size(), " expected");
        const char *g = got[k].c_str();
        char *e;
        if (want[k].isint) { long v = strtol(g, &e, 10); CHECK(!*e && v == want[k].i, what, ": value ", k, " is printed as ", g, ", it is ", want[k].i); }
        else {
            double v = strtod(g, &e), w = want[k].d;
            bool ok = !*e && (std::isnan(w) ? std::isnan(v) : std::isinf(w) ? v == w : std::fabs(v - w) <= 0.51 * pow(10, -want[k].prec) + 1e-12 * std::fabs(w));
            CHECK(ok, what, ": value ", k, " is printed as ", g, ", it is ", w);
        }
    }
    CHECK(got.size() == want.size(), what, ": ", got.size(), " values printed, ", want.size(), " expected");
}
static double gen_value(pbt::Src &s) {
    double v;
    switch (s.freq({3, 2, 2, 2, 1})) {
    case 0: v = (double)s.range(0, 50) / 8; break;
    case 1: v = (double)s.draw(UINT64_MAX) * 1e-15; break;
    case 2: v = ldexp(1 + (double)s.draw(1000) / 1001, (int)s.range(-30, 60)); break;
    case 3: { const double ex[] = {D_MAX, D_MIN, 1e300, 1e-300, 1.5e100, 123456789012345.0}; v = ex[s.draw(5)]; break; }
    default: v = s.coin() ? (double)NAN : (double)INFINITY;
    }
    return s.freq({5, 1}) ? -v : v;
}
static std::vector<std::string> lines(const std::string &t) {
    std::vector<std::string> r; std::istringstream i(t); std::string l;
    while (std::getline(i, l)) r.push_back(l);
    return r;
}
static std::string slurp(const std::string &f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }

typedef std::map<long, std::pair<double, std::vector<label_t>>> Hier;
static void check_hier(pbt::Src &s, pbt::Ctx &c, hashtable *h, const Hier &want, size_t n) {
    bool file = s.freq({1, 2}) == 1;
    if (!file) {
        pbt::capture_begin();
        hdbscan_print_hierarchies(h, (index_t)n, NULL);
        std::string out = pbt::capture_end();
        std::vector<std::string> rows;
        bool size_seen = false;
        for (auto &l : lines(out)) {
            if (l.find(" -> [") != std::string::npos) rows.push_back(l);
            if (l.find("hierarchy size") != std::string::npos) { auto t = tokens(l.substr(l.find("hierarchy size"))); CHECK(t.size() == 1 && std::stoul(t[0]) == want.size(), "the printed hierarchy size is ", l); size_seen = true; }
        }
        CHECK(size_seen, "the hierarchy size is not printed");
        CHECK(rows.size() == want.size(), rows.size(), " levels printed of ", want.size());
        size_t k = 0;
        for (auto &kv : want) {
            std::vector<Want> w{wi(kv.first), wd(kv.second.first, 15)};
            for (label_t x : kv.second.second) w.push_back(wi((long)x));
            compare(tokens(rows[k++]), w, "hierarchy");
        }
        c.classify("hierarchy printed");
        return;
    }
    // file names of every length: with directories, and long ones
    std::string dir = std::string(pbt::scratch_dir()) + "/h";
    mkdir(dir.c_str(), 0700);
    std::string name = dir + "/";
    int pad = s.freq({4, 1, 1});
    if (pad) { size_t k = (size_t)s.range(1, pad == 1 ? 40 : 1900); for (size_t i = 0; i < k && name.size() < 3700; i++) name += "./"; }
    size_t len = (size_t)(s.freq({3, 1}) ? s.range(20, 231) : s.range(1, 30));
    for (size_t i = 0; i < len; i++) name += (char)('a' + (char)s.draw(25));
    if (s.freq({6, 1})) name += "%d.x y";
    bool nodir = s.freq({12, 1}) == 1;
    if (nodir) name = dir + "/missing/x";
    std::string vis = name + "_visualization.vis", csv = name + "_hierarchy.csv";
    c.sample += pbt_msg("; file name of ", name.size(), " characters");
    unlink(vis.c_str()); unlink(csv.c_str());
    if (s.freq({4, 1})) { std::ofstream(vis) << "old content, longer than the new one\n"; std::ofstream(csv) << std::string(5000, 'x'); }
    bool blocked = !nodir && s.freq({16, 1}) == 1; // a directory in the place of the second file
    if (blocked) { unlink(csv.c_str()); blocked = mkdir(csv.c_str(), 0700) == 0; }
    char *fn = strdup(name.c_str());
    auto free_fd = [] { int f = dup(1); close(f); return f; };
    pbt::capture_begin();
    int fd0 = free_fd();
    hdbscan_print_hierarchies(h, (index_t)n, fn);
    int fd1 = free_fd();
    pbt::capture_end();
    if (blocked) rmdir(csv.c_str());
    CHECK(name == fn, "the file name was changed");
    free(fn);
    CHECK(fd0 == fd1, "a file is left open after the export");
    if (blocked) { unlink(vis.c_str()); c.classify("unwritable file"); return; }
    if (nodir) { c.classify("unwritable file"); return; }
    auto v = lines(slurp(vis));
    CHECK(v.size() >= 2 && v[0] == "1" && v[1] == std::to_string(want.size()), "visualization file of ", want.size(), " levels: ", slurp(vis).substr(0, 100));
    auto r = lines(slurp(csv));
    CHECK(r.size() == want.size(), "hierarchy file has ", r.size(), " rows for ", want.size(), " levels");
    size_t k = 0;
    for (auto &kv : want) {
        std::vector<std::string> cells;
        std::istringstream is(r[k]);
        std::string cell;
        while (std::getline(is, cell, ',')) cells.push_back(cell);
        std::vector<Want> w{wd(kv.second.first, 15)};
        for (label_t x : kv.second.second) w.push_back(wi((long)x));
        compare(cells, w, "hierarchy file");
        k++;
    }
    unlink(vis.c_str()); unlink(csv.c_str());
    c.classify("hierarchy exported");
    c.classify("long file name", name.size() > 255);
}

PROP(C24) {
    int what = s.freq({4, 3, 2, 2, 2, 2, 2, 2, 2, 2});
    size_t big = c.scale > 2 ? 1500 : c.scale > 1 ? 200 : 40;
    switch (what) {
    case 0: { // made up hierarchy
        size_t n = (size_t)s.range(1, (int64_t)big), L = (size_t)s.range(0, 12);
        Hier w;
        hashtable *h = hashtable_init(L + 5, H_LONG, H_PTR, long_compare);
        c.sample = pbt_msg("hierarchy of ", L, " levels, ", n, " points");
        for (size_t i = 0; i < L; i++) {
            long key = s.coin() ? (long)i : (long)s.range(0, 1000000000000L);
            if (w.count(key)) continue;
            hierarchy_entry *e = hdbscan_create_hierarchy_entry();
            e->edgeWeight = gen_value(s);
            e->labels = (label_t *)malloc(n * sizeof(label_t));
            for (size_t k = 0; k < n; k++) e->labels[k] = (label_t)(s.freq({5, 1}) ? s.range(0, INT32_MAX) : s.range(0, 9));
            w[key] = {e->edgeWeight, std::vector<label_t>(e->labels, e->labels + n)};
            hashtable_insert(h, &key, &e);
        }
        check_hier(s, c, h, w, n);
        hashtable_destroy(h, NULL, (void (*)(void *))hdbscan_destroy_hierarchical_entry);
        c.nontrivial(w.size() >= 2);
        break;
    }
    case 1: { // hierarchy of a clustering
        GenOpt o; o.size(c.scale, big, big, 800);
        DS d = gen_dataset(s, o);
        size_t mp = gen_minpts(s, d.n());
        hdbscan *sc = hdbscan_init(NULL, (index_t)mp);
        auto b = d.bytes();
        c.sample = pbt_msg("hierarchy of minPts ", mp, " ", d.str());
        pbt::capture_begin();
        int r = hdbscan_run(sc, b.data(), (index_t)d.rows, (index_t)d.cols, d.rowwise, (index_t)d.type);
        pbt::capture_end();
        CHECK(r == HDBSCAN_SUCCESS, "run failed");
        Hier w;
        for (size_t i = 0; i < set_size(sc->hierarchy->keys); i++) {
            long key = ((long *)sc->hierarchy->keys->data)[i];
            hierarchy_entry *e = NULL;
            hashtable_lookup(sc->hierarchy, &key, &e);
            w[key] = {e->edgeWeight, std::vector<label_t>(e->labels, e->labels + sc->numPoints)};
        }
        check_hier(s, c, sc->hierarchy, w, sc->numPoints);
        pbt::capture_begin();
        hdbscan_print_outlier_scores(sc->outlierScores, sc->numPoints);
        std::string out = pbt::capture_end();
        std::vector<Want> ww;
        for (index_t i = 0; i < sc->numPoints; i++) { ww.push_back(wi((long)sc->outlierScores[i].id)); ww.push_back(wd(sc->outlierScores[i].coreDistance)); ww.push_back(wd(sc->outlierScores[i].score)); }
        compare(tokens(out), ww, "outlier scores");
        c.nontrivial(w.size() >= 3);
        hdbscan_destroy(sc);
        break;
    }
    case 2: case 3: { // cluster map and sizes, both interfaces
        size_t n = (size_t)s.range(0, (int64_t)big * 3);
        std::vector<label_t> l;
        bool wide = s.freq({3, 1}) == 1;
        int span = (int)s.range(0, 9);
        for (size_t i = 0; i < n; i++) l.push_back(wide ? (label_t)(INT32_MAX - s.draw((uint64_t)span)) : (label_t)s.draw((uint64_t)span));
        std::map<label_t, std::vector<size_t>> m;
        for (size_t i = 0; i < n; i++) m[l[i]].push_back(i);
        c.sample = pbt_msg("cluster map of ", n, " labels, ", m.size(), " clusters");
        bool cpp = what == 3, sizes = s.coin();
        std::vector<std::vector<Want>> want;
        for (auto &kv : m) {
            std::vector<Want> w{wi((long)kv.first)};
            if (sizes) w.push_back(wi((long)kv.second.size()));
            else for (size_t x : kv.second) w.push_back(wi((long)x));
            want.push_back(w);
        }
        std::string out;
        if (cpp) {
            map_t t = createClusterMap(l.data(), 0, (index_t)n);
            pbt::capture_begin();
            if (sizes) printClusterSizes(t); else printClusterMap(t);
            out = pbt::capture_end();
        } else {
            hashtable *t = hdbscan_create_cluster_map(l.data(), 0, (index_t)n);
            pbt::capture_begin();
            if (sizes) hdbscan_print_cluster_sizes(t); else hdbscan_print_cluster_map(t);
            out = pbt::capture_end();
            hdbscan_destroy_cluster_map(t);
        }
        auto r = lines(out);
        CHECK(r.size() == want.size(), r.size(), " clusters printed of ", want.size());
        for (size_t k = 0; k < r.size(); k++) {
            std::string x = r[k];
            size_t p = x.find("->");
            if (p != std::string::npos) x.replace(p, 2, "  ");
            compare(tokens(x), want[k], sizes ? "cluster sizes" : "cluster map");
        }
        c.classify(sizes ? "cluster sizes" : "cluster map");
        c.nontrivial(m.size() >= 2);
        break;
    }
    case 4: case 5: { // distance table
        size_t k = (size_t)s.range(0, 12);
        std::map<label_t, distance_values> m;
        for (size_t i = 0; i < k; i++) {
            label_t key = (label_t)(s.freq({3, 1}) ? s.range(0, INT32_MAX) : s.range(0, 20));
            distance_values v;
            v.min_cr = gen_value(s); v.max_cr = gen_value(s); v.cr_confidence = gen_value(s); v.min_dr = gen_value(s); v.max_dr = gen_value(s); v.dr_confidence = gen_value(s);
            m[key] = v;
        }
        std::ostringstream o;
        for (auto &kv : m) o << kv.first << ": " << kv.second.min_cr << " " << kv.second.max_cr << " " << kv.second.cr_confidence << " " << kv.second.min_dr << " " << kv.second.max_dr << " " << kv.second.dr_confidence << "; ";
        c.sample = "distance table " + o.str();
        std::vector<Want> w;
        for (auto &kv : m) { const distance_values &v = kv.second; w.push_back(wi((long)kv.first)); for (double x : {v.min_cr, v.max_cr, v.cr_confidence, v.min_dr, v.max_dr, v.dr_confidence}) w.push_back(wd(x)); }
        std::string out;
        if (what == 4) {
            hashtable *h = hashtable_init_size(m.size(), H_INT, H_PTR, int_compare);
            for (auto &kv : m) { label_t key = kv.first; distance_values *v = (distance_values *)malloc(sizeof *v); *v = kv.second; hashtable_insert(h, &key, &v); }
            pbt::capture_begin();
            hdbscan_print_distance_map(h);
            out = pbt::capture_end();
            hashtable_destroy(h, NULL, free);
        } else {
            pbt::capture_begin();
            printDistanceMap(m);
            out = pbt::capture_end();
        }
        size_t p;
        while ((p = out.find("->")) != std::string::npos) out.replace(p, 2, "  ");
        compare(tokens(out), w, "distance table");
        c.classify("distance table");
        c.nontrivial(m.size() >= 2);
        break;
    }
    case 6: { // statistics
        clustering_stats st;
        memset((void *)&st, 0, sizeof st);
        st.count = (index_t)s.range(0, INT32_MAX);
        stats_values *sv[2] = {&st.coreDistanceValues, &st.intraDistanceValues};
        std::vector<Want> w{wi((long)st.count)};
        std::ostringstream o;
        for (auto v : sv) {
            v->max = gen_value(s); v->mean = gen_value(s); v->skewness = gen_value(s); v->kurtosis = gen_value(s); v->variance = gen_value(s); v->standardDev = gen_value(s);
            for (double x : {v->max, v->mean, v->skewness, v->kurtosis, v->variance, v->standardDev}) { w.push_back(wd(x, 5)); o << x << " "; }
        }
        c.sample = pbt_msg("statistics of ", st.count, ": ", o.str());
        pbt::capture_begin();
        if (s.coin()) printStats(st); else hdbscan_print_stats(&st);
        std::string out = pbt::capture_end();
        compare(tokens(out), w, "statistics");
        c.classify("statistics");
        c.nontrivial();
        break;
    }
    case 7: { // outlier scores
        size_t n = (size_t)s.range(0, (int64_t)big);
        std::vector<Want> w;
        std::vector<double> vals;
        outlier_score *sc = (outlier_score *)malloc(sizeof(outlier_score) * (n ? n : 1));
        for (size_t i = 0; i < n; i++) {
            sc[i].id = (index_t)s.range(0, INT32_MAX); sc[i].coreDistance = gen_value(s); sc[i].score = gen_value(s);
            w.push_back(wi((long)sc[i].id)); w.push_back(wd(sc[i].coreDistance)); w.push_back(wd(sc[i].score));
        }
        c.sample = pbt_msg(n, " outlier scores");
        pbt::capture_begin();
        hdbscan_print_outlier_scores(sc, (index_t)n);
        std::string out = pbt::capture_end();
        free(sc);
        compare(tokens(out), w, "outlier scores");
        c.classify("outlier scores");
        c.nontrivial(n >= 2);
        break;
    }
    case 8: { // distances and graphs
        if (s.coin()) {
            size_t n = (size_t)s.range(1, 16);
            cdistance *d = distance_init(NULL, _EUCLIDEAN, H_DOUBLE);
            std::vector<double> x(n);
            distance_compute(d, x.data(), (index_t)n, 1, 1);
            size_t m = n * (n - 1) / 2;
            std::vector<Want> w;
            std::ostringstream o;
            for (size_t i = 0; i < m; i++) { d->distances[i] = gen_value(s); o << d->distances[i] << " "; }
            for (size_t i = 0, k = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) w.push_back(wd(d->distances[k++]));
            c.sample = pbt_msg("distances of ", n, " points: ", o.str());
            pbt::capture_begin();
            distances_print(d);
            std::string out = pbt::capture_end();
            CHECK(lines(out).size() == n, lines(out).size(), " lines for ", n, " points");
            compare(tokens(out), w, "distances");
            distance_destroy(d);
            c.classify("distances");
            c.nontrivial(n >= 3);
        } else {
            size_t nv = (size_t)s.range(1, 12), ne = (size_t)s.range(0, 20);
            ArrayList *A = array_list_init(2, sizeof(index_t), int_compare), *B = array_list_init(2, sizeof(index_t), int_compare), *W = array_list_init(2, sizeof(distance_t), double_compare);
            std::vector<Want> w{wi((long)nv), wi((long)ne), wi((long)ne), wi((long)ne), wi((long)nv)}, wb, ww;
            std::vector<std::vector<index_t>> adj(nv);
            for (size_t i = 0; i < ne; i++) {
                index_t a = (index_t)s.draw(nv - 1), b = (index_t)s.draw(nv - 1); distance_t x = gen_value(s);
                array_list_append(A, &a); array_list_append(B, &b); array_list_append(W, &x);
                w.push_back(wi((long)a)); wb.push_back(wi((long)b)); ww.push_back(wd(x));
            }
            w.insert(w.end(), wb.begin(), wb.end()); w.insert(w.end(), ww.begin(), ww.end());
            UndirectedGraph *g = graph_init(NULL, (index_t)nv, A, B, W);
            for (size_t i = 0; i < nv; i++) for (size_t k = 0; k < g->edges[i]->size; k++) w.push_back(wi((long)((index_t *)g->edges[i]->data)[k]));
            c.sample = pbt_msg("graph of ", nv, " vertices and ", ne, " edges");
            pbt::capture_begin();
            graph_print(g);
            std::string out = pbt::capture_end();
            compare(tokens(out), w, "graph");
            graph_destroy(g);
            c.classify("graph");
            c.nontrivial(ne >= 2);
        }
        break;
    }
    default: { // messages
        size_t len = (size_t)(s.freq({3, 1}) ? s.range(0, 20000) : s.range(0, 200));
        std::string m;
        for (size_t i = 0; i < len; i++) m += (char)(i % 7 == 3 ? '%' : 32 + (i * 31 + len) % 95);
        if (s.coin()) m += "%s %n\n";
        static const enum LOGTYPE ty[] = {NONE, INFO, WARN, ERROR, FATAL};
        static const char *const tag[] = {"", "INFO", "WARN", "ERROR", "FATAL"};
        int k = (int)s.draw(4);
        c.sample = pbt_msg("message of ", m.size(), " characters, kind ", k);
        char *x = strdup(m.c_str());
        pbt::capture_begin();
        logger_write(ty[k], x);
        std::string out = pbt::capture_end();
        free(x);
        CHECK(out.size() >= m.size() && out.compare(out.size() - m.size(), m.size(), m) == 0, "the message is not printed in full");
        std::string head = out.substr(0, out.size() - m.size());
        if (k == 0) CHECK(head.empty(), "text before a plain message: ", head);
        else CHECK(head.find(tag[k]) != std::string::npos && head[0] == '[', "text before the message: ", head);
        c.classify("log message");
        c.nontrivial(len > 0);
    }
    }
}
