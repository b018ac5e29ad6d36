// C01 distances, C02 core distances
#include "ref.hpp"
#include <csetjmp>
#include <csignal>
#include <sys/mman.h>
#include <unistd.h>
extern "C" { extern void *vh_big_region; extern size_t vh_big_size; }

static void check_distances(const DS &d, cdistance *ds, size_t n) {
    double tol = d.type == H_FLOAT ? 2e-6 : 1e-12;
    for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < n; j++) {
            double got = (double)distance_get(ds, (index_t)i, (index_t)j);
            double want = (double)d.dist(i, j);
            CHECK(close_rel(got, want, tol), "distance(", i, ",", j, ") = ", got, ", Euclidean distance is ", want, " in ", d.str());
            if (i == j) CHECK(got == 0, "distance(", i, ",", i, ") = ", got);
        }
}

PROP(C01) {
    GenOpt o;
    o.size(c.scale, 50, 150, 1200, 5000);
    DS d = gen_dataset(s, o);
    int thr = gen_threads(s);
    c.sample = d.str();
    size_t n = d.n();
    std::vector<unsigned char> b = d.bytes();
    int how = s.freq({4, 2, 1, 1});
    c.classify(std::string("type:") + type_names[d.type]);
    c.classify("kind:" + d.kind);
    c.classify("threads>1", thr > 1);
    c.classify(how == 0 ? "via:run" : how == 1 ? "via:distance_compute" : how == 2 ? "via:C++ run" : "via:second run");
    if (how == 1) {
        cdistance *ds = distance_init(NULL, 1, (enum HTYPES)d.type);
        distance_compute(ds, b.data(), (index_t)n, (index_t)d.dim(), (index_t)s.range(1, 4));
        check_distances(d, ds, n);
        distance_destroy(ds);
    } else {
        size_t mp = gen_minpts(s, n);
        if (how == 2) {
            hdbscan h((index_t)mp);
            h.run(b.data(), (index_t)d.rows, (index_t)d.cols, d.rowwise, (index_t)d.type);
            check_distances(d, &h.distanceFunction, n);
        } else {
            Obj h(mp);
            if (how == 3) {
                GenOpt o2; o2.max_n = 20;
                DS e = gen_dataset(s, o2);
                std::vector<unsigned char> eb = e.bytes();
                run_ok(h.sc, e, eb);
            }
            run_ok(h.sc, d, b);
            check_distances(d, &h.sc->distanceFunction, n);
            if (how == 3) { CHECK(hdbscan_rerun(h.sc, (index_t)gen_minpts(s, n)) == HDBSCAN_SUCCESS, "rerun"); check_distances(d, &h.sc->distanceFunction, n); }
        }
    }
    c.nontrivial(n >= 3 && d.kind != "duplicates");
}

// ---- large numbers of points: where are the values of a pair stored?
static sigjmp_buf jb;
static char *fault;
static void on_segv(int, siginfo_t *si, void *) { fault = (char *)si->si_addr; siglongjmp(jb, 1); }

static size_t stored_at(cdistance *ds, char *base, size_t i, size_t j, bool &zero) {
    zero = false;
    if (!sigsetjmp(jb, 1)) {
        volatile distance_t r = distance_get(ds, (index_t)i, (index_t)j);
        zero = r == 0;
        return SIZE_MAX;
    }
    return (size_t)(fault - base);
}

// needs a build without AddressSanitizer
PROP(C01index) {
    size_t n;
    switch (s.freq({2, 3, 2, 1})) {
    case 0: n = (size_t)s.range(2, 300); break;
    case 1: n = (size_t)s.range(65530, 70000); break;
    case 2: n = (size_t)s.range(300, 200000); break;
    default: n = (size_t)s.range(200000, 1u << 20); break;
    }
    size_t total = n * (n - 1) / 2 * sizeof(distance_t);
    size_t map = total + (1 << 20);
    char *base = (char *)mmap(NULL, map, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED) { c.classify("mmap refused"); return; }
    struct sigaction sa, old1, old2;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_segv;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSEGV, &sa, &old1);
    sigaction(SIGBUS, &sa, &old2);
    cdistance ds;
    distance_init(&ds, 1, H_DOUBLE);
    ds.rows = (index_t)n; ds.cols = 1; ds.distances = (distance_t *)base;
    std::map<size_t, std::pair<size_t, size_t>> seen;
    std::string bad;
    int k = (int)s.range(2, 40);
    c.sample = pbt_msg("stored position of ", k, " pairs of ", n, " points");
    for (int t = 0; t < k && bad.empty(); t++) {
        size_t i, j;
        i = s.coin() ? (size_t)s.draw(n - 1) : n - 1 - (size_t)s.draw(std::min<size_t>(n - 1, 20));
        j = s.coin() ? (size_t)s.draw(n - 1) : n - 1 - (size_t)s.draw(std::min<size_t>(n - 1, 20));
        bool z;
        size_t a = stored_at(&ds, base, i, j, z), b2 = stored_at(&ds, base, j, i, z);
        if (i == j) { if (a != SIZE_MAX || !z) bad = pbt_msg("distance of point ", i, " to itself is not 0 (", n, " points)"); continue; }
        if (a != b2) bad = pbt_msg("(", i, ",", j, ") and (", j, ",", i, ") are stored at different places (", n, " points)");
        else if (a >= total || a % sizeof(distance_t)) bad = pbt_msg("(", i, ",", j, ") is stored at byte offset ", a, " outside the ", total, " bytes allocated for ", n, " points");
        else {
            auto key = std::make_pair(std::min(i, j), std::max(i, j));
            auto it = seen.find(a);
            if (it != seen.end() && it->second != key) bad = pbt_msg("(", i, ",", j, ") and (", it->second.first, ",", it->second.second, ") share one stored value (", n, " points)");
            seen[a] = key;
        }
    }
    ds.distances = NULL;
    sigaction(SIGSEGV, &old1, NULL);
    sigaction(SIGBUS, &old2, NULL);
    munmap(base, map);
    CHECK(bad.empty(), bad);
    c.classify("rows>65535", n > 65535);
    c.nontrivial(n > 65535);
}

// full computation with more than 65535 points; only the first and last part of the matrix is kept, the rest
// of the writes goes to one shared scratch page range
PROP(C01big) {
    size_t n = (size_t)s.range(65537, 66200);
    if (sizeof(distance_t) != 8) return;
    DS d;
    d.kind = "big";
    static const int ty[] = {H_SHORT, H_INT, H_DOUBLE, H_CHAR};
    d.type = ty[s.draw(3)];
    d.rows = n; d.cols = 1;
    uint64_t x = s.draw(UINT64_MAX - 1);
    for (size_t i = 0; i < n; i++) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; d.v.push_back((long double)(int)((x >> 40) % 200) - 100); }
    c.sample = pbt_msg(n, " points x 1 ", type_names[d.type]);
#ifdef _OPENMP
    omp_set_dynamic(0);
    omp_set_num_threads(8);
#endif
    size_t bytes = n * (n - 1) / 2 * 8, win = 64u << 20, keep = 64u << 20;
    size_t map = (bytes + 2 * win) / win * win;
    char *base = (char *)mmap(NULL, map, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED) { c.classify("mmap refused"); return; }
    int fd = memfd_create("big", 0);
    if (ftruncate(fd, (off_t)win)) {}
    for (size_t p = 0; p < map; p += win)
        if (mmap(base + p, win, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { c.classify("mmap refused"); return; }
    mmap(base, keep, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    size_t tail = bytes / win * win - win;
    mmap(base + tail, map - tail, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    std::vector<unsigned char> b = d.bytes();
    vh_big_size = (size_t)1 << 30;
    vh_big_region = base;
    cdistance *ds = distance_init(NULL, 1, (enum HTYPES)d.type);
    distance_compute(ds, b.data(), (index_t)n, 1, (index_t)n); // so many neighbours: core distances cost nothing
    std::string bad;
    auto cmp = [&](size_t i, size_t j) {
        double got = (double)distance_get(ds, (index_t)i, (index_t)j), want = (double)d.dist(i, j);
        if (bad.empty() && !close_rel(got, want, 1e-12)) bad = pbt_msg("distance(", i, ",", j, ") = ", got, " of ", n, " points, Euclidean distance is ", want);
    };
    for (size_t i = 0; i < 20; i++) for (size_t j = 0; j < n; j += i + 1) cmp(i, j);
    for (size_t i = n - 700; i < n; i++) for (size_t j = i; j < n; j++) { cmp(i, j); cmp(j, i); }
    for (size_t i = 0; i < n && bad.empty(); i++) if ((double)ds->coreDistances[i] != (double)D_MAX) bad = "core distance with fewer than minPts points";
    distance_destroy(ds);
    vh_big_region = NULL;
    munmap(base, map);
    close(fd);
    CHECK(bad.empty(), bad);
    c.nontrivial();
}

// many columns: rows far apart in memory. Small integers, so that every sum is exact.
template <class T> static void wide_case(pbt::Src &s, pbt::Ctx &c, int type) {
    size_t cols;
    switch (s.freq({3, 2, 2})) {
    case 0: cols = (size_t)s.range(100, 1100); break;
    case 1: cols = (size_t)s.range(1000, 9000); break;
    default: cols = (size_t)s.range(9000, 70000); break;
    }
    size_t n = (size_t)s.range(2, (int64_t)std::max<size_t>(3, std::min<size_t>(60, 150000 / cols)));
    uint64_t x = s.draw(UINT64_MAX - 1);
    int span = (int)s.range(1, 100);
    std::vector<T> v(n * cols);
    for (auto &e : v) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; e = (T)((int)((x >> 40) % (uint64_t)(2 * span + 1)) - span); }
    bool run = s.coin();
    c.sample = pbt_msg(n, "x", cols, " ", type_names[type], " within ", span, run ? ", run" : ", distance_compute");
    c.classify("columns>1000", cols > 1000);
    Obj h(2);
    cdistance *own = NULL, *ds;
    if (run) {
        CHECK(hdbscan_run(h.sc, v.data(), (index_t)n, (index_t)cols, TRUE, (index_t)type) == HDBSCAN_SUCCESS, "run");
        ds = &h.sc->distanceFunction;
    } else {
        ds = own = distance_init(NULL, 1, (enum HTYPES)type);
        distance_compute(ds, v.data(), (index_t)n, (index_t)cols, 1);
    }
    std::string bad;
    for (size_t i = 0; i < n && bad.empty(); i++)
        for (size_t j = 0; j < n; j++) {
            double sum = 0;
            for (size_t k = 0; k < cols; k++) { double d = (double)v[i * cols + k] - (double)v[j * cols + k]; sum += d * d; }
            double got = (double)distance_get(ds, (index_t)i, (index_t)j), want = sqrt(sum);
            if (!close_rel(got, want, sizeof(distance_t) == 8 ? 1e-12 : 1e-5)) { bad = pbt_msg("distance(", i, ",", j, ") = ", got, ", Euclidean distance is ", want); break; }
        }
    if (own) distance_destroy(own);
    CHECK(bad.empty(), bad);
    c.nontrivial(n >= 3);
}
PROP(C01wide) {
    switch (s.draw(5)) {
    case 0: return wide_case<double>(s, c, H_DOUBLE);
    case 1: return wide_case<float>(s, c, H_FLOAT);
    case 2: return wide_case<int>(s, c, H_INT);
    case 3: return wide_case<long>(s, c, H_LONG);
    case 4: return wide_case<short>(s, c, H_SHORT);
    default: return wide_case<char>(s, c, H_CHAR);
    }
}

// more than 2^32 values: three rows of zeros with a few other values
PROP(C01huge) {
    size_t cols = ((size_t)1 << 31) + (size_t)s.range(1, 5000), n = 3;
    char *v = (char *)mmap(NULL, n * cols, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (v == MAP_FAILED) { c.classify("mmap refused"); return; }
    c.sample = pbt_msg(n, "x", cols, " char");
    std::set<size_t> used; // columns with a value other than 0
    for (size_t i = 0; i < n; i++)
        for (size_t k : {(size_t)0, (size_t)s.draw(cols - 1), cols - 1}) { v[i * cols + k] = (char)s.range(1, 60); used.insert(k); }
    double want[3] = {0, 0, 0};
    for (size_t a = 0; a < 3; a++) { // pairs 01, 12, 02
        size_t i = a == 1 ? 1 : 0, j = a == 0 ? 1 : 2;
        for (size_t k : used) { double d = (double)v[i * cols + k] - (double)v[j * cols + k]; want[a] += d * d; }
        want[a] = sqrt(want[a]);
    }
#ifdef _OPENMP
    omp_set_dynamic(0);
    omp_set_num_threads(3);
#endif
    cdistance *ds = distance_init(NULL, 1, H_CHAR);
    distance_compute(ds, v, (index_t)n, (index_t)cols, 1);
    std::string bad;
    for (size_t a = 0; a < 3; a++) {
        double got = (double)distance_get(ds, a == 1 ? 1 : 0, a == 0 ? 1 : 2);
        if (!close_rel(got, want[a], 1e-5)) bad = pbt_msg("distance of pair ", a, " is ", got, ", Euclidean distance ", want[a]);
    }
    distance_destroy(ds);
    munmap(v, n * cols);
    CHECK(bad.empty(), bad);
    c.nontrivial();
}

PROP(C02) {
    GenOpt o;
    o.size(c.scale, 70, 200, 1200, 5000);
    DS d = gen_dataset(s, o);
    int thr = gen_threads(s);
    size_t n = d.n();
    std::vector<unsigned char> b = d.bytes();
    size_t mp = gen_minpts(s, n);
    c.sample = pbt_msg("minPts ", mp, " ", d.str());
    c.classify("kind:" + d.kind);
    c.classify("threads>1", thr > 1);
    Obj h(mp);
    run_ok(h.sc, d, b);
    int reruns = s.freq({3, 2, 1});
    for (int k = 0;; k++) {
        CHECK(h.sc->minPoints == mp, "minPoints");
        std::vector<double> want = ref_core(n, mp, [&](size_t i, size_t j) { return (double)distance_get(&h.sc->distanceFunction, (index_t)i, (index_t)j); });
        bool ties = false;
        for (size_t i = 0; i < n; i++) {
            double got = (double)h.sc->distanceFunction.coreDistances[i];
            CHECK(got == want[i], "core distance of point ", i, " is ", got, " with minPts ", mp, " (", k, " re-runs), expected ", want[i], " in ", d.str());
            // independent of the library's distances
            if (mp <= n) {
                std::vector<long double> row;
                for (size_t j = 0; j < n; j++) row.push_back(d.dist(i, j));
                std::sort(row.begin(), row.end());
                CHECK(close_rel(got, (double)row[mp - 1], d.type == H_FLOAT ? 2e-6 : 1e-12), "core distance of point ", i, " is ", got, " with minPts ", mp, ", coordinates give ", (double)row[mp - 1]);
                for (size_t j = 1; j < mp; j++) ties |= row[j] == row[j - 1];
            }
        }
        c.classify("ties among the nearest", ties);
        c.classify("minPts>n", mp > n);
        c.nontrivial(n >= 3 && mp <= n);
        if (k >= reruns) break;
        mp = gen_minpts(s, n);
        c.sample += pbt_msg(" rerun ", mp);
        CHECK(hdbscan_rerun(h.sc, (index_t)mp) == HDBSCAN_SUCCESS, "rerun failed");
    }
    c.classify("re-run", reruns > 0);
}
