// C27: every label, index and distance type gives the clustering of the default types.
// The configurations are shared libraries in $PBT_LIBS, named conf-L-I-D.so, reached through oracle_shim.c.
#include "ref.hpp"
#include <dlfcn.h>
#include <unistd.h>
#include <cfloat>
#include <fcntl.h>
#include <sys/stat.h>
#include <array>
#include <fstream>
#include <regex>

struct Lib {
    std::string name;
    int L, I, D; // 0 unsigned int, 1 unsigned short, 2 unsigned long; 0 double, 1 float
    void *(*create)(long);
    int (*run)(void *, void *, long, long, int, int), (*rerun)(void *, long), (*cluster_)(void *, long, int64_t *, double *), (*sizes)(int);
    void (*destroy)(void *), (*clean)(void *), (*labels)(void *, int64_t *), (*level)(void *, long, int64_t *, double *, int64_t *), (*core)(void *, double *), (*outliers)(void *, int64_t *, double *, double *);
    long (*n)(void *), (*levels)(void *), (*clusters)(void *), (*noise)(void *, long, int64_t *), (*cmap)(void *, long, long, int64_t *), (*tables)(void *, int64_t *, double *, double *), (*sorted)(void *, int, int64_t *);
    double (*dist)(void *, long, long);
    void (*print)(void *, long, long, int);
    int (*cpp)(void *, long, long, char *, long), (*cpp_run)(void *, void *, long, long, int, int, long, long, char *, long);
    void (*graph)(void *), (*log_init)(void), (*log_close)(void), (*log_write)(int, const char *);
    double dmax, dmin;
};
template <class F> static void sym(void *h, const char *n, F &f) {
    f = (F)dlsym(h, n);
    if (!f) { fprintf(stderr, "no %s in a library\n", n); _exit(7); }
}
static Lib load(const std::string &d, const std::string &name, int L, int I, int D) {
    Lib l;
    l.name = name;
    l.L = L; l.I = I; l.D = D;
    void *h = dlopen(pbt_msg(d, "/", l.name, ".so").c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); _exit(7); }
    sym(h, "vo_new", l.create); sym(h, "vo_run", l.run); sym(h, "vo_rerun", l.rerun); sym(h, "vo_free", l.destroy); sym(h, "vo_clean", l.clean); sym(h, "vo_labels", l.labels);
    sym(h, "vo_level", l.level); sym(h, "vo_core", l.core); sym(h, "vo_outliers", l.outliers); sym(h, "vo_n", l.n); sym(h, "vo_levels", l.levels); sym(h, "vo_clusters", l.clusters);
    sym(h, "vo_cluster", l.cluster_); sym(h, "vo_noise", l.noise); sym(h, "vo_cluster_map", l.cmap); sym(h, "vo_tables", l.tables); sym(h, "vo_sorted", l.sorted); sym(h, "vo_distance", l.dist); sym(h, "vo_sizes", l.sizes); sym(h, "vo_print", l.print); sym(h, "vo_cpp", l.cpp); sym(h, "vo_cpp_run", l.cpp_run);
    l.dmax = D ? (double)FLT_MAX : DBL_MAX; l.dmin = D ? (double)FLT_MIN : DBL_MIN;
    static const int isz[] = {4, 2, 8};
    CHECK(l.sizes(0) == isz[L] && l.sizes(1) == isz[I] && l.sizes(2) == (D ? 4 : 8), "configured type sizes of ", l.name, " are ", l.sizes(0), " ", l.sizes(1), " ", l.sizes(2));
    sym(h, "vo_graph", l.graph); sym(h, "logger_init", l.log_init); sym(h, "logger_close", l.log_close); sym(h, "logger_write", l.log_write);
    return l;
}
static std::vector<Lib> &libs() {
    static std::vector<Lib> v;
    if (!v.empty()) return v;
    const char *e = getenv("PBT_LIBS");
    std::string d(e ? e : ".");
    bool plain = true;
#ifdef __SANITIZE_ADDRESS__
    plain = false;
#endif
    if (plain) d += "/plain";
    for (int L = 0; L < 3; L++) for (int I = 0; I < 3; I++) for (int D = 0; D < 2; D++) {
        if (plain && I != 1 && L + I + D) continue;
        v.push_back(load(d, pbt_msg("conf-", L, "-", I, "-", D), L, I, D));
    }
    return v;
}
static std::string conf_name(const Lib &l) {
    static const char *const t[] = {"unsigned int", "unsigned short", "unsigned long"};
    return pbt_msg("label ", t[l.L], ", index ", t[l.I], ", distance ", l.D ? "float" : "double");
}

struct Dump {
    std::vector<int64_t> labels;
    std::map<int64_t, std::pair<double, std::vector<int64_t>>> levels;
    std::vector<double> core, score, score_core;
    std::vector<int64_t> order;
    struct C { bool null; int64_t i[5]; double d[5]; std::vector<int64_t> noise; };
    std::vector<C> cl;
    std::vector<int64_t> cmap, tlabels, s0, s1, s2;
    std::vector<double> tvals, stats;
};
static Dump take(const Lib &l, void *h, size_t mb, size_t me) {
    Dump d;
    size_t n = (size_t)l.n(h);
    d.labels.resize(n); l.labels(h, d.labels.data());
    long L = l.levels(h);
    for (long i = 0; i < L; i++) {
        int64_t k; double w; std::vector<int64_t> v(n);
        l.level(h, i, &k, &w, v.data());
        d.levels[k] = {w, v};
    }
    d.core.resize(n); l.core(h, d.core.data());
    std::vector<int64_t> id(n); std::vector<double> c(n), s(n);
    l.outliers(h, id.data(), c.data(), s.data());
    d.order = id; d.score.assign(n, -1); d.score_core.assign(n, -1);
    for (size_t i = 0; i < n; i++) {
        CHECK(id[i] >= 0 && (size_t)id[i] < n, "outlier id ", id[i]);
        d.score[(size_t)id[i]] = s[i]; d.score_core[(size_t)id[i]] = c[i];
        CHECK(i == 0 || s[i - 1] <= s[i], "outlier scores are not sorted in ", conf_name(l));
    }
    long k = l.clusters(h);
    for (long i = 0; i < k; i++) {
        Dump::C x;
        x.null = !l.cluster_(h, i, x.i, x.d);
        if (!x.null) { x.noise.resize((size_t)l.noise(h, i, NULL)); l.noise(h, i, x.noise.data()); }
        d.cl.push_back(x);
    }
    d.cmap.resize(3 * n + 10);
    d.cmap.resize((size_t)l.cmap(h, (long)mb, (long)me, d.cmap.data()));
    d.tlabels.resize(n); d.tvals.resize(6 * n); d.stats.resize(13);
    d.tlabels.resize((size_t)l.tables(h, d.tlabels.data(), d.tvals.data(), d.stats.data()));
    d.tvals.resize(6 * d.tlabels.size());
    std::vector<int64_t> *q[] = {&d.s0, &d.s1, &d.s2};
    for (int i = 0; i < 3; i++) { q[i]->resize(n); q[i]->resize((size_t)l.sorted(h, i, q[i]->data())); }
    return d;
}

PROP(C27) {
    std::vector<Lib> &all = libs();
    GenOpt o;
    o.max_n = c.scale > 1 ? 500 : s.freq({8, 1}) ? 420 : 60;
    o.exact_only = s.freq({4, 1}) == 0;
    DS d = gen_dataset(s, o);
    size_t n = d.n();
    c.classify("more than 256 points", n > 256);
    c.classify("more than 65535 pairs", n * (n - 1) / 2 > 65535);
    // can a float hold every step of every distance?
    bool fl = true;
    auto isf = [](long double x) { return (long double)(float)x == x; };
    for (size_t i = 0; i < n && fl; i++) for (size_t j = i + 1; j < n && fl; j++) {
        long double q = 0;
        for (size_t k = 0; k < d.dim(); k++) {
            long double x = d.v[i * d.dim() + k] - d.v[j * d.dim() + k];
            q += x * x;
            fl = fl && isf(x) && isf(x * x) && isf(q) && (x == 0 || fabsl(x * x) > 1e-30L);
        }
        long double r = sqrtl(q);
        fl = fl && isf(r) && r * r == q;
    }
    c.classify("distances exact in float", fl);
    std::vector<size_t> cand;
    for (size_t i = 1; i < all.size(); i++) if (fl || !all[i].D) cand.push_back(i);
    const Lib &A = all[0], &B = all[cand[(size_t)s.draw(cand.size() - 1)]];
    c.classify(conf_name(B).c_str());
    int steps = (int)s.range(1, 3);
    size_t mp = gen_minpts(s, n);
    struct Pair { const Lib &a, &b; void *x, *y; ~Pair() { a.destroy(x); b.destroy(y); } } P{A, B, A.create((long)mp), B.create((long)mp)};
    std::string hist = pbt_msg("minPts ", mp, " ");
    std::vector<unsigned char> b = d.bytes();
    size_t nlab = 0;
    for (int t = 0; t < steps; t++) {
        int op = t == 0 ? 0 : s.freq({3, 1, 1});
        if (op == 0 && t) op = 1;
        else if (op == 2) { A.clean(P.x); B.clean(P.y); hist += "clean "; op = 0; }
        if (op == 0) {
            int ra = A.run(P.x, b.data(), (long)d.rows, (long)d.cols, d.rowwise, d.type), rb = B.run(P.y, b.data(), (long)d.rows, (long)d.cols, d.rowwise, d.type);
            CHECK(ra == rb, "run returns ", rb, " with ", conf_name(B), " and ", ra, " by default");
            hist += "run ";
        } else {
            mp = gen_minpts(s, n);
            hist += pbt_msg("rerun ", mp, " ");
            int ra = A.rerun(P.x, (long)mp), rb = B.rerun(P.y, (long)mp);
            CHECK(ra == rb, "rerun returns ", rb, " with ", conf_name(B), " and ", ra, " by default");
        }
        c.sample = pbt_msg(conf_name(B), ": ", hist, d.str());
        size_t mb = (size_t)s.draw(n), me = mb + (size_t)s.draw(n - mb);
        Dump x = take(A, P.x, mb, me), y = take(B, P.y, mb, me);
        bool F = B.D != 0;
        // values that are distances (or D_MAX, D_MIN) are the same numbers
        auto deq = [&](double u, double v) { return same(u, v) || (u == A.dmax && v == B.dmax) || (u == A.dmin && v == B.dmin); };
        auto veq = [&](double u, double v, double tol) { return deq(u, v) || (F && close_rel(u, v, tol)) || (F && fabs(u) < 1e-300 && fabs(v) < 1e-35); };
        const std::string W = pbt_msg(" with ", conf_name(B), " after ", hist);
        for (size_t i = 0; i < n; i++) {
            size_t j = (size_t)s.draw(n - 1);
            CHECK(deq(A.dist(P.x, (long)i, (long)j), B.dist(P.y, (long)i, (long)j)), "distance (", i, ",", j, ") is ", B.dist(P.y, (long)i, (long)j), W, "; ", A.dist(P.x, (long)i, (long)j), " by default");
            CHECK(deq(x.core[i], y.core[i]), "core distance of point ", i, " is ", y.core[i], W, "; ", x.core[i], " by default");
        }
        CHECK(x.levels.size() == y.levels.size(), "hierarchy has ", y.levels.size(), " levels", W, "; ", x.levels.size(), " by default");
        for (auto &kv : x.levels) {
            auto it = y.levels.find(kv.first);
            CHECK(it != y.levels.end(), "hierarchy lacks level ", kv.first, W);
            CHECK(deq(kv.second.first, it->second.first), "level ", kv.first, " has weight ", it->second.first, W, "; ", kv.second.first, " by default");
            for (size_t i = 0; i < n; i++) CHECK(kv.second.second[i] == it->second.second[i], "point ", i, " has label ", it->second.second[i], " at level ", kv.first, W, "; ", kv.second.second[i], " by default");
        }
        CHECK(x.cl.size() == y.cl.size(), y.cl.size(), " clusters", W, "; ", x.cl.size(), " by default");
        bool close = false;
        for (size_t i = 0; i < x.cl.size(); i++) {
            Dump::C &u = x.cl[i], &v = y.cl[i];
            CHECK(u.null == v.null, "cluster ", i, " exists", W, ": ", !v.null);
            if (u.null) continue;
            for (int k = 0; k < 4; k++) CHECK(u.i[k] == v.i[k], "cluster ", i, " has ", (const char *[]){"label", "parent", "size", "children"}[k], " ", v.i[k], W, "; ", u.i[k], " by default");
            CHECK(deq(u.d[0], v.d[0]), "birth level of cluster ", i, " is ", v.d[0], W, "; ", u.d[0], " by default");
            CHECK(deq(u.d[1], v.d[1]), "death level of cluster ", i, " is ", v.d[1], W, "; ", u.d[1], " by default");
            CHECK(deq(u.d[4], v.d[4]), "lowest death level of cluster ", i, " is ", v.d[4], W, "; ", u.d[4], " by default");
            // a stability is a sum of differences: its rounding error is relative to the terms
            double terms = u.d[1] > 0 ? 2 * (double)n / u.d[1] : 0;
            CHECK(veq(u.d[2], v.d[2], 1e-3) || (F && fabs(u.d[2] - v.d[2]) <= 1e-5 * terms), "stability of cluster ", i, " is ", v.d[2], W, "; ", u.d[2], " by default");
            CHECK(u.noise == v.noise, "noise members of cluster ", i, " differ", W);
        }
        // a cluster is taken before its descendants when its stability is at least what they propagate:
        // both are sums with rounding errors relative to the terms
        double terms = 0;
        for (auto &u : x.cl) if (!u.null && u.d[1] > 0) terms = std::max(terms, (double)n / u.d[1]);
        if (F) for (size_t i = 2; i < x.cl.size(); i++) if (!x.cl[i].null && x.cl[i].i[3]) {
            double st = x.cl[i].d[2], down = x.cl[i].d[3];
            close |= fabs(st - down) <= 1e-4 * std::max(st, down) + 1e-4 * terms;
        }
        c.classify("too close to call", close);
        if (!close) {
            for (size_t i = 0; i < n; i++) CHECK(x.labels[i] == y.labels[i], "label of point ", i, " is ", y.labels[i], W, "; ", x.labels[i], " by default");
            CHECK(x.cmap == y.cmap, "cluster map of [", mb, ",", me, ") differs", W);
            CHECK(x.tlabels == y.tlabels, "distance table has other labels", W);
            for (size_t i = 0; i < x.tlabels.size(); i++) for (int k = 0; k < 6; k++) {
                double u = x.tvals[6 * i + (size_t)k], v = y.tvals[6 * i + (size_t)k];
                if (k % 3 == 2 && F && x.tlabels.size() > 1) { CHECK(veq(u, v, 1e-3) || fabs(u - v) <= 1e-3, "confidence of label ", x.tlabels[i], " is ", v, W, "; ", u, " by default"); }
                else if (k % 3 != 2) CHECK(deq(u, v), "distance table value ", k, " of label ", x.tlabels[i], " is ", v, W, "; ", u, " by default");
            }
            if (!F && x.tlabels.size() > 1) for (size_t k = 0; k < 13; k++) CHECK(same(x.stats[k], y.stats[k]), "statistic ", k, " is ", y.stats[k], W, "; ", x.stats[k], " by default");
            if (!F || x.s0.size() != y.s0.size()) {
                CHECK(x.s0 == y.s0, "clusters sorted by length differ", W);
                CHECK(x.tlabels.size() < 2 || (x.s1 == y.s1 && x.s2 == y.s2), "clusters sorted by confidence differ", W);
            } else {
                std::vector<int64_t> p = x.s0, q = y.s0;
                CHECK(p == q, "clusters sorted by length differ", W);
                for (auto *z : {&x.s1, &x.s2, &y.s1, &y.s2}) std::sort(z->begin(), z->end());
                CHECK(x.s1 == y.s1 && x.s2 == y.s2, "clusters sorted by confidence are other clusters", W);
            }
            if (s.freq({3, 1})) for (int what = 0; what < (F ? 1 : 2); what++) { // what is printed
                std::string text[2];
                pbt::capture_begin(); A.print(P.x, (long)mb, (long)me, what); text[0] = pbt::capture_end();
                pbt::capture_begin(); B.print(P.y, (long)mb, (long)me, what); text[1] = pbt::capture_end();
                for (auto &q : text) { // results only, not messages
                    std::istringstream in(q); std::string line, keep;
                    while (std::getline(in, line)) if (line.find_first_of("[:{}") != std::string::npos && !(line.size() > 5 && line[0] == '[' && line[5] == '-')) keep += line + "\n";
                    q = keep;
                }
                size_t at = 0;
                while (at < text[0].size() && at < text[1].size() && text[0][at] == text[1][at]) at++;
                CHECK(text[0] == text[1], "prints \"", text[1].substr(at, 60), "\"", W, "; \"", text[0].substr(at, 60), "\" by default");
                c.classify("printed");
            }
            nlab = std::max(nlab, std::set<int64_t>(x.labels.begin(), x.labels.end()).size());
        }
        for (size_t i = 0; i < n; i++) {
            CHECK(F ? fabs(x.score[i] - y.score[i]) <= 1e-5 : same(x.score[i], y.score[i]), "outlier score of point ", i, " is ", y.score[i], W, "; ", x.score[i], " by default");
            CHECK(deq(x.score_core[i], y.score_core[i]), "outlier score of point ", i, " has core distance ", y.score_core[i], W, "; ", x.score_core[i], " by default");
        }
        if (!F) CHECK(x.order == y.order, "order of the outlier scores differs", W);
        char why[300] = "";
        if (s.freq({1, 1}) == 0) CHECK(!B.cpp(P.y, (long)mb, (long)me, why, sizeof why), "the C++ functions on [", mb, ",", me, ") differ from the C functions", W, ": ", why);
        if (s.freq({3, 1})) {
            size_t first = gen_minpts(s, n);
            CHECK(!B.cpp_run(P.y, b.data(), (long)d.rows, (long)d.cols, d.rowwise, d.type, (long)(s.coin() ? mp : first), (long)mp, why, sizeof why), "the C++ class differs from the C functions", W, ": ", why);
            c.classify("C++ class");
        }
    }
    c.classify("several labels", nlab > 1);
    c.nontrivial(n >= 4 && nlab > 1);
}

// as many points as a short index allows edges for: counts beyond the signed and near the unsigned range
PROP(C27big) {
    std::vector<Lib> &all = libs();
    size_t n = (size_t)(s.coin() ? s.range(16380, 16900) : s.range(16384, 18500)), mp = (size_t)s.range(2, 4);
    std::vector<const Lib *> cand;
    for (auto &l : all) if (l.I == 1) cand.push_back(&l);
    const Lib &A = all[0], &B = *cand[(size_t)s.draw(cand.size() - 1)];
    std::vector<int> v(n);
    int x = -1000000;
    static const int gaps[] = {1, 1, 1, 1, 1, 1, 2, 4, 64};
    for (size_t i = 0; i < n; i++) { v[i] = x; x += s.freq({300, 1}) ? 256 : gaps[s.draw(s.freq({20, 1}) ? 8 : 5)]; }
    for (size_t i = n; i > 1; i--) std::swap(v[i - 1], v[(size_t)s.draw(i - 1)]);
    c.sample = pbt_msg(conf_name(B), ": ", n, " points on a line, minPts ", mp);
    struct Pair { const Lib &a, &b; void *x, *y; ~Pair() { if (x) a.destroy(x); if (y) b.destroy(y); } } P{A, B, A.create((long)mp), NULL};
    CHECK(A.run(P.x, v.data(), (long)n, 1, 1, H_INT) == 0, "run fails");
    std::vector<int64_t> la(n), lb(n), lv(n), lw(n);
    std::vector<double> ca(n), cb(n);
    A.labels(P.x, la.data()); A.core(P.x, ca.data());
    std::vector<int64_t> ia(n), ib(n); std::vector<double> sa(n), sb(n), t(n);
    A.outliers(P.x, ia.data(), t.data(), sa.data());
    P.y = B.create((long)mp);
    CHECK(B.run(P.y, v.data(), (long)n, 1, 1, H_INT) == 0, "run fails with ", conf_name(B));
    B.labels(P.y, lb.data()); B.core(P.y, cb.data());
    B.outliers(P.y, ib.data(), t.data(), sb.data());
    CHECK(ca == cb, "core distances of ", n, " points differ with ", conf_name(B));
    CHECK(A.levels(P.x) == B.levels(P.y), "hierarchy of ", n, " points has ", B.levels(P.y), " levels with ", conf_name(B), "; ", A.levels(P.x), " by default");
    for (long i = 0; i < A.levels(P.x); i++) {
        int64_t k, q; double w, u;
        A.level(P.x, i, &k, &w, lv.data()); B.level(P.y, i, &q, &u, lw.data());
        CHECK(k == q && w == u && lv == lw, "level ", k, " of ", n, " points differs with ", conf_name(B));
    }
    CHECK(A.clusters(P.x) == B.clusters(P.y), "another number of clusters of ", n, " points with ", conf_name(B));
    if (!B.D) {
        CHECK(la == lb, "labels of ", n, " points differ with ", conf_name(B));
        CHECK(ia == ib && sa == sb, "outlier scores of ", n, " points differ with ", conf_name(B));
    } else {
        std::vector<double> za(n), zb(n);
        for (size_t i = 0; i < n; i++) { za[(size_t)ia[i]] = sa[i]; zb[(size_t)ib[i]] = sb[i]; }
        for (size_t i = 0; i < n; i++) CHECK(fabs(za[i] - zb[i]) <= 1e-5, "outlier score of point ", i, " of ", n, " differs with ", conf_name(B));
    }
    c.nontrivial(true);
}

// C31: a debug build gives the results of the ordinary build with the same types and logs what that one prints
struct Both { Lib plain, debug; };
static std::vector<Both> &debug_pairs() {
    static std::vector<Both> v;
    if (!v.empty()) return v;
    const char *e = getenv("PBT_LIBS");
    std::string d(e ? e : ".");
    for (auto &t : std::vector<std::array<int, 3>>{{0, 0, 0}, {1, 1, 1}, {2, 2, 0}, {0, 2, 1}}) {
        std::string x = pbt_msg("-", t[0], "-", t[1], "-", t[2]);
        v.push_back({load(d, "conf" + x, t[0], t[1], t[2]), load(d, "debug" + x, t[0], t[1], t[2])});
    }
    return v;
}
// the logger writes to hdbscan.log in the working directory at the time of logger_init
struct InScratch {
    int old;
    InScratch() { old = open(".", O_RDONLY | O_DIRECTORY); if (old < 0 || chdir(pbt::scratch_dir())) abort(); }
    ~InScratch() { if (fchdir(old)) abort(); close(old); }
};
struct Log {
    const Lib &l;
    bool on = false;
    std::string kept; // what earlier sessions wrote
    static std::string file() { return std::string(pbt::scratch_dir()) + "/hdbscan.log"; }
    explicit Log(const Lib &x) : l(x) { unlink(file().c_str()); open(); }
    ~Log() { if (on) l.log_close(); unlink(file().c_str()); }
    void open() { InScratch in; l.log_init(); on = true; }
    static std::string read() { std::ifstream f(file(), std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
    // closes the log and opens it again, as a program can at any time; what was written since the last time
    std::string take() {
        l.log_close(); on = false;
        std::string all = read();
        CHECK(all.size() >= kept.size() && all.compare(0, kept.size(), kept) == 0, "opening the log again changed what it held");
        std::string now = all.substr(kept.size());
        kept = all;
        if (kept.size() > (1 << 20)) { unlink(file().c_str()); kept.clear(); }
        open();
        return now;
    }
};
// words without time stamps and tags
static std::vector<std::string> words(const std::string &t) {
    static const std::regex stamp("\\[[0-9]{4}-[0-9]{2}-[0-9]{2} [0-9]{2}:[0-9]{2}:[0-9]{2}\\] (FATAL|ERROR|INFO|WARN): ");
    std::string q = t.find('[') == std::string::npos ? t : std::regex_replace(t, stamp, " ");
    std::vector<std::string> w;
    std::istringstream in(q);
    std::string x;
    while (in >> x) {
        size_t a = 0; // brackets and commas may be next to a value or not
        while (a < x.size()) {
            size_t b = x.find_first_of("[](),", a);
            if (b == std::string::npos) b = x.size();
            if (b > a) w.push_back(x.substr(a, b - a));
            if (b < x.size()) w.push_back(x.substr(b, 1));
            a = b + 1;
        }
    }
    std::sort(w.begin(), w.end());
    return w;
}
static std::string lost(const std::vector<std::string> &a, const std::vector<std::string> &b) {
    std::vector<std::string> d;
    std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(d));
    std::string r;
    for (size_t i = 0; i < d.size() && i < 5; i++) r += "\"" + d[i].substr(0, 400) + "\" ";
    return r;
}

PROP(C31) {
    Both &P = debug_pairs()[(size_t)s.draw(debug_pairs().size() - 1)];
    const Lib &A = P.plain, &B = P.debug;
    GenOpt o;
    o.max_n = c.scale > 1 ? 300 : 50;
    Log log(B);
    struct Obj { const Lib &a, &b; void *x = NULL, *y = NULL; bool ran = false; size_t n = 0; void drop() { if (x) { a.destroy(x); b.destroy(y); } x = y = NULL; ran = false; } ~Obj() { drop(); } };
    Obj q[2] = {{A, B}, {A, B}};
    int steps = (int)s.range(2, 8), runs = 0, printed = 0, warned = 0;
    std::string hist = conf_name(B) + ":";
    for (int t = 0; t < steps; t++) {
        int k = s.freq({3, 1});
        Obj &v = q[k];
        if (!v.x) { long mp = (long)s.range(2, 8); v.x = A.create(mp); v.y = B.create(mp); hist += pbt_msg(" #", k, " new ", mp); }
        int op = s.freq({5, 3, 4, 2, 1, 1});
        if ((op == 1 || op == 2) && !v.ran) op = 0;
        std::string out[2], what;
        auto both = [&](auto f) { // the same call in both builds: what one prints the other prints or logs (it may say more)
            pbt::capture_begin(); f(A, v.x); out[0] = pbt::capture_end();
            log.take();
            pbt::capture_begin(); f(B, v.y); out[1] = pbt::capture_end();
            std::string l = log.take();
            std::vector<std::string> a = words(out[0]), b = words(out[1] + "\n" + l);
            CHECK(std::includes(b.begin(), b.end(), a.begin(), a.end()), "the debug build (", conf_name(B), ") ", what, ": not printed or logged: ", lost(a, b), " after ", hist);
            if (l.size()) c.classify("logged");
            warned += l.find("WARN: ") != std::string::npos;
        };
        if (op == 0) {
            DS d = gen_dataset(s, o);
            auto b = d.bytes();
            hist += pbt_msg(" #", k, " run ") + d.str();
            c.sample = hist;
            int r[2], i = 0;
            what = "run";
            both([&](const Lib &l, void *h) { r[i++] = l.run(h, b.data(), (long)d.rows, (long)d.cols, d.rowwise, d.type); });
            CHECK(r[0] == r[1], "run returns ", r[1], " in the debug build and ", r[0], " in the ordinary one");
            v.ran = true; v.n = d.n(); runs++;
        } else if (op == 1) {
            size_t mp = gen_minpts(s, v.n);
            hist += pbt_msg(" #", k, " rerun ", mp);
            c.sample = hist;
            int r[2], i = 0;
            what = "rerun";
            both([&](const Lib &l, void *h) { r[i++] = l.rerun(h, (long)mp); });
            CHECK(r[0] == r[1], "rerun returns ", r[1], " in the debug build and ", r[0], " in the ordinary one");
        } else if (op == 2) {
            int w = (int)s.range(0, 2);
            long b = (long)s.draw(v.n), e = b + (long)s.draw(v.n - (size_t)b);
            what = w == 2 ? "graph_print" : pbt_msg("printing ", w ? "results" : "cluster maps");
            hist += pbt_msg(" #", k, " print ", w);
            c.sample = hist;
            both([&](const Lib &l, void *h) { if (w == 2) l.graph(h); else l.print(h, b, e, w); });
            printed++;
        } else if (op == 3) { // a message
            size_t len = (size_t)(s.freq({3, 1}) ? s.range(0, 20000) : s.range(0, 200));
            std::string m;
            for (size_t i = 0; i < len; i++) m += (char)(i % 7 == 3 ? '%' : 33 + (i * 31 + len) % 94);
            if (s.coin()) m += "%s %n\n";
            static const char *const tag[] = {"FATAL", "ERROR", "INFO", "WARN", ""};
            int ty = (int)s.draw(4);
            log.take();
            hist += pbt_msg(" message of ", m.size());
            pbt::capture_begin(); B.log_write(ty, m.c_str()); std::string p = pbt::capture_end(), l = log.take();
            CHECK(p.empty(), "a debug build prints a log message");
            CHECK(l.size() >= m.size() && l.compare(l.size() - m.size(), m.size(), m) == 0, "a message of ", m.size(), " characters is not logged in full");
            std::string head = l.substr(0, l.size() - m.size());
            if (ty == 4) CHECK(head.empty(), "text before a plain message: ", head);
            else CHECK(head.find(tag[ty]) != std::string::npos && head[0] == '[', "text before the message: ", head);
            continue;
        } else if (op == 4) { A.clean(v.x); B.clean(v.y); v.ran = false; hist += pbt_msg(" #", k, " clean"); continue; }
        else { v.drop(); hist += pbt_msg(" #", k, " delete"); continue; }
        if (op < 2) {
            size_t mb = (size_t)s.draw(v.n), me = mb + (size_t)s.draw(v.n - mb);
            pbt::capture_begin();
            Dump x = take(A, v.x, mb, me), y = take(B, v.y, mb, me);
            pbt::capture_end();
            const std::string W = pbt_msg(" in the debug build (", conf_name(B), ") after ", hist);
            auto vsame = [](const std::vector<double> &a, const std::vector<double> &b) { for (size_t i = 0; i < a.size() && i < b.size(); i++) if (!same(a[i], b[i])) return false; return a.size() == b.size(); };
            CHECK(x.labels == y.labels, "labels differ", W);
            CHECK(vsame(x.core, y.core), "core distances differ", W);
            CHECK(x.order == y.order && vsame(x.score, y.score) && vsame(x.score_core, y.score_core), "outlier scores differ", W);
            CHECK(x.levels.size() == y.levels.size(), "the number of levels differs", W);
            for (auto &kv : x.levels) CHECK(y.levels.count(kv.first) && same(kv.second.first, y.levels[kv.first].first) && kv.second.second == y.levels[kv.first].second, "level ", kv.first, " differs", W);
            CHECK(x.cl.size() == y.cl.size(), "the number of clusters differs", W);
            for (size_t i = 0; i < x.cl.size(); i++) {
                Dump::C &u = x.cl[i], &w = y.cl[i];
                CHECK(u.null == w.null, "cluster ", i, " exists in one build only", W);
                if (u.null) continue;
                for (int j = 0; j < 5; j++) CHECK(u.i[j] == w.i[j] && same(u.d[j], w.d[j]), "cluster ", i, " differs", W);
                CHECK(u.noise == w.noise, "the noise of cluster ", i, " differs", W);
            }
            CHECK(x.cmap == y.cmap && x.tlabels == y.tlabels && vsame(x.tvals, y.tvals) && (x.tlabels.size() < 2 || vsame(x.stats, y.stats)), "tables differ", W);
            CHECK(x.s0 == y.s0 && (x.tlabels.size() < 2 || (x.s1 == y.s1 && x.s2 == y.s2)), "sorted labels differ", W);
        }
    }
    c.classify("printed results", printed > 0);
    c.classify("warning", warned > 0);
    c.nontrivial(runs > 0);
}
