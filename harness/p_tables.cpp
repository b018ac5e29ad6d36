// C12 cluster map, C13 min/max distances, C14 statistics, C15 sorting of clusters
#include "ref.hpp"

static const label_t LMAX = (label_t)~(label_t)0;

static label_t gen_label(pbt::Src &s, int mode, uint64_t span) {
    switch (mode) {
    case 0: return (label_t)s.draw(span);
    case 1: return (label_t)(LMAX - (label_t)s.draw(span));
    case 2: return s.coin() ? (label_t)s.draw(span) : (label_t)((LMAX >> 1) - (label_t)(span / 2) + (label_t)s.draw(span));
    default: return (label_t)s.draw((uint64_t)LMAX);
    }
}

template <class T> static std::string vstr(const std::vector<T> &v, size_t lim = 200) {
    std::ostringstream o;
    o << "[";
    for (size_t i = 0; i < v.size() && i < lim; i++) o << (i ? "," : "") << v[i];
    o << (v.size() > lim ? "...]" : "]");
    return o.str();
}

static std::map<label_t, std::vector<size_t>> read_map(hashtable *h) {
    std::map<label_t, std::vector<size_t>> m;
    CHECK(set_size(h->keys) == hashtable_size(h), "cluster map reports ", hashtable_size(h), " entries and ", set_size(h->keys), " keys");
    for (size_t i = 0; i < set_size(h->keys); i++) {
        label_t k = ((label_t *)h->keys->data)[i];
        ArrayList *l = NULL;
        CHECK(hashtable_lookup(h, &k, &l) == 1 && l, "label ", k, " is listed but has no entry");
        CHECK(!m.count(k), "label ", k, " has two entries");
        index_t *x = (index_t *)l->data;
        m[k] = std::vector<size_t>(x, x + l->size);
    }
    return m;
}

PROP(C12) {
    size_t n = (size_t)(s.freq({3, 2}) ? s.range(0, c.scale > 2 ? 40000 : c.scale > 1 ? 2000 : 200) : s.range(0, 12));
    int mode = s.freq({5, 1, 2, 1});
    uint64_t span = (uint64_t)(s.freq({1, 2, 1}) == 0 ? 1 : s.coin() ? s.range(0, 8) : s.range(0, 300));
    std::vector<label_t> l;
    for (size_t i = 0; i < n; i++) l.push_back(gen_label(s, mode, span));
    if (s.freq({3, 1})) std::sort(l.begin(), l.end());
    size_t begin = 0, end = n;
    if (s.coin() && n) { begin = (size_t)s.range(0, (int64_t)n); end = (size_t)s.range((int64_t)begin, (int64_t)n); }
    c.sample = pbt_msg("range [", begin, ",", end, ") of labels ", vstr(l));
    std::vector<label_t> keep = l;
    std::map<label_t, std::vector<size_t>> want;
    for (size_t i = begin; i < end; i++) want[l[i]].push_back(i);
    hashtable *h = hdbscan_create_cluster_map(l.data(), (index_t)begin, (index_t)end);
    auto cmp = [&](const std::map<label_t, std::vector<size_t>> &got, const char *who) {
        for (auto &kv : want) {
            auto it = got.find(kv.first);
            CHECK(it != got.end(), who, ": label ", kv.first, " has no entry");
            CHECK(it->second == kv.second, who, ": entry of label ", kv.first, " is ", vstr(it->second), ", expected ", vstr(kv.second));
        }
        CHECK(got.size() == want.size(), who, ": ", got.size(), " entries for ", want.size(), " labels");
    };
    cmp(read_map(h), "cluster map");
    if (s.coin()) { // labels absent from the range are absent from the map
        label_t k = gen_label(s, mode, span + 2);
        ArrayList *p = NULL;
        int r = hashtable_lookup(h, &k, &p);
        CHECK((r == 1) == (want.count(k) != 0), "look-up of label ", k, " returned ", r);
    }
    hdbscan_destroy_cluster_map(h);
    map_t m = clustering::createClusterMap(l.data(), (index_t)begin, (index_t)end);
    std::map<label_t, std::vector<size_t>> g;
    for (auto &kv : m) g[kv.first] = std::vector<size_t>(kv.second.begin(), kv.second.end());
    cmp(g, "C++ cluster map");
    CHECK(l == keep, "labels were modified");
    c.classify("part of the array", begin > 0 || end < n);
    c.classify("empty range", begin == end);
    c.classify("labels above INT_MAX", !l.empty() && *std::max_element(l.begin(), l.end()) > LMAX / 2);
    c.classify("more than 40 labels", want.size() > 40);
    c.nontrivial(want.size() >= 2 && want.size() < end - begin);
}

static hashtable *make_cluster_table(const std::map<label_t, std::vector<index_t>> &m) {
    hashtable *h = hashtable_init(m.size() + 1, H_INT, H_PTR, int_compare);
    for (auto &kv : m) {
        ArrayList *a = array_list_init(kv.second.size() + 1, sizeof(index_t), int_compare);
        for (index_t i : kv.second) array_list_append(a, &i);
        label_t k = kv.first;
        hashtable_insert(h, &k, &a);
    }
    return h;
}

static std::string dv(const distance_values &d) { return pbt_msg("core [", d.min_cr, ",", d.max_cr, "] intra [", d.min_dr, ",", d.max_dr, "]"); }

PROP(C13) {
    GenOpt o;
    o.size(c.scale, 45, 120, 500, 3000);
    DS d = gen_dataset(s, o);
    gen_threads(s);
    size_t n = d.n(), mp = gen_minpts(s, n, false);
    auto b = d.bytes();
    hdbscan h((index_t)mp);
    h.run(b.data(), (index_t)d.rows, (index_t)d.cols, d.rowwise, (index_t)d.type);
    std::map<label_t, std::vector<index_t>> m;
    int how = s.freq({2, 3, 1});
    if (how == 0) for (size_t i = 0; i < n; i++) m[h.clusterLabels[i]].push_back((index_t)i);
    else {
        int mode = s.freq({5, 1, 1});
        uint64_t span = (uint64_t)s.range(0, how == 1 ? 4 : 30);
        for (size_t i = 0; i < n; i++) m[gen_label(s, mode, span)].push_back((index_t)i);
    }
    bool shuf = s.coin();
    c.sample = pbt_msg("minPts ", mp, " ", d.str(), " cluster map {");
    for (auto &kv : m) {
        if (shuf) for (size_t i = kv.second.size(); i > 1; i--) std::swap(kv.second[i - 1], kv.second[(size_t)s.draw(i - 1)]);
        c.sample += pbt_msg(kv.first, ":", vstr(kv.second), " ");
    }
    c.sample += "}";
    std::map<label_t, distance_values> want;
    bool zero_core = false, single = false, dup = false;
    for (auto &kv : m) {
        distance_values w;
        memset(&w, 0, sizeof w);
        double minc = 0, maxc = 0, mind = (double)D_MAX, maxd = (double)D_MIN;
        bool first = true;
        for (index_t i : kv.second) {
            double x = (double)h.distanceFunction.coreDistances[i];
            if (x != 0 && (minc == 0 || x < minc)) minc = x;
            if (first || x > maxc) maxc = x;
            zero_core |= x == 0;
            first = false;
            for (index_t j : kv.second) {
                if (i == j) continue;
                double y = (double)distance_get(&h.distanceFunction, i, j);
                if (y != 0 && y < mind) mind = y;
                if (y > maxd) maxd = y;
                dup |= y == 0;
            }
        }
        single |= kv.second.size() == 1;
        w.min_cr = (distance_t)minc; w.max_cr = (distance_t)maxc; w.min_dr = (distance_t)mind; w.max_dr = (distance_t)maxd;
        want[kv.first] = w;
    }
    auto cmp = [&](label_t k, const distance_values &g, const char *who) {
        const distance_values &w = want[k];
        CHECK(g.min_cr == w.min_cr && g.max_cr == w.max_cr, who, ": cluster ", k, " has ", dv(g), ", expected ", dv(w));
        CHECK(g.min_dr == w.min_dr && g.max_dr == w.max_dr, who, ": cluster ", k, " has ", dv(g), ", expected ", dv(w));
        CHECK(g.cr_confidence == 0 && g.dr_confidence == 0, who, ": confidences of cluster ", k, " are not 0 before statistics are calculated");
    };
    hashtable *ct = make_cluster_table(m);
    hashtable *dm = hdbscan_get_min_max_distances(&h, ct);
    CHECK(hashtable_size(dm) == m.size(), "distance table has ", hashtable_size(dm), " entries for ", m.size(), " clusters");
    for (auto &kv : m) {
        label_t k = kv.first;
        distance_values *v = NULL;
        CHECK(hashtable_lookup(dm, &k, &v) == 1 && v, "cluster ", k, " is missing from the distance table");
        cmp(k, *v, "C");
    }
    auto after = read_map(ct);
    for (auto &kv : m) CHECK(after[kv.first] == std::vector<size_t>(kv.second.begin(), kv.second.end()), "the cluster map was modified");
    hdbscan_destroy_distance_map(dm);
    hdbscan_destroy_cluster_map(ct);
    map_t mm;
    for (auto &kv : m) mm[kv.first] = kv.second;
    map<label_t, distance_values> cm = clustering::getMinMaxDistances(h, mm);
    CHECK(cm.size() == m.size(), "C++ distance table has ", cm.size(), " entries for ", m.size(), " clusters");
    for (auto &kv : cm) { CHECK(m.count(kv.first), "C++ distance table has label ", kv.first); cmp(kv.first, kv.second, "C++"); }
    c.classify("zero core distance", zero_core);
    c.classify("single member", single);
    c.classify("duplicate members", dup);
    c.classify("shuffled members", shuf);
    c.classify("several clusters", m.size() > 1);
    c.nontrivial(m.size() > 1 && n > 3);
}

struct StatRef { long double mean = 0, max = 0, var = 0, sd = 0, skew = 0, kurt = 0; bool degenerate = false; };
static StatRef stat_ref(const std::vector<double> &r) {
    StatRef q;
    size_t n = r.size();
    q.max = r[0];
    for (double x : r) { q.mean += x; if (x > q.max) q.max = x; }
    q.mean /= (long double)n;
    long double s3 = 0, s4 = 0;
    for (double x : r) { long double t = x - q.mean; q.var += t * t; s3 += t * t * t; s4 += t * t * t * t; }
    q.var /= (long double)n - 1;
    q.sd = sqrtl(q.var);
    q.skew = s3 / ((long double)n * q.sd * q.sd * q.sd);
    q.kurt = s4 / ((long double)n * q.var * q.var) - 3;
    q.degenerate = !(q.sd > 1e-4L * q.max);
    return q;
}
static void cmp_stats(const stats_values &g, const std::vector<double> &r, const char *who, pbt::Ctx &c) {
    StatRef q = stat_ref(r);
    auto near = [](double a, long double b, long double rel, long double abs_) { return fabsl((long double)a - b) <= rel * fabsl(b) + abs_; };
    CHECK(g.max == r[0] || std::find(r.begin(), r.end(), (double)g.max) != r.end(), who, " max ", g.max, " is none of the ratios ", vstr(r));
    CHECK(near(g.max, q.max, 0, 0), who, " max is ", g.max, ", expected ", (double)q.max, " for ratios ", vstr(r));
    CHECK(near(g.mean, q.mean, 1e-12L, 0), who, " mean is ", g.mean, ", expected ", (double)q.mean, " for ratios ", vstr(r));
    if (r.size() < 2) return;
    CHECK(near(g.variance, q.var, 1e-9L, 1e-20L * q.max * q.max), who, " variance is ", g.variance, ", expected ", (double)q.var, " for ratios ", vstr(r));
    CHECK(near(g.standardDev, q.sd, 1e-9L, 1e-10L * q.max), who, " standard deviation is ", g.standardDev, ", expected ", (double)q.sd);
    bool equal = true;
    for (double x : r) equal &= x == r[0];
    if (!q.degenerate) {
        CHECK(near(g.skewness, q.skew, 1e-8L, 1e-8L), who, " skewness is ", g.skewness, ", expected ", (double)q.skew, " for ratios ", vstr(r));
        CHECK(near(g.kurtosis, q.kurt, 1e-8L, 1e-8L), who, " kurtosis is ", g.kurtosis, ", expected ", (double)q.kurt, " for ratios ", vstr(r));
    } else if (equal && pow2(r[0])) CHECK(std::isnan(g.skewness) && std::isnan(g.kurtosis), who, " skewness/kurtosis of equal ratios");
    c.classify("skewed", !q.degenerate && fabsl(q.skew) > 0.5L);
    c.classify("equal ratios", equal);
}
static int validity1(double sk, double ku) { return sk > 0 && ku > 0 ? 2 : sk < 0 && ku > 0 ? 1 : sk > 0 && ku < 0 ? 0 : -1; }

PROP(C14) {
    if (s.freq({5, 1}) == 1) { // validity on its own
        clustering_stats st;
        memset(&st, 0x77, sizeof st);
        static const double vals[] = {1, -1, 0, 1e-300, -1e-300, 5.5, -2.5, INFINITY, -INFINITY, NAN, -0.0};
        double a = vals[s.draw(10)], b = vals[s.draw(10)], x = vals[s.draw(10)], y = vals[s.draw(10)];
        c.sample = pbt_msg("validity of core (skewness ", a, ", kurtosis ", b, ") intra (", x, ", ", y, ")");
        st.coreDistanceValues.skewness = (distance_t)a; st.coreDistanceValues.kurtosis = (distance_t)b;
        st.intraDistanceValues.skewness = (distance_t)x; st.intraDistanceValues.kurtosis = (distance_t)y;
        int want = validity1(a, b) + validity1(x, y);
        int g = hdbscan_analyse_stats(&st), g2 = clustering::analyseStats(st);
        CHECK(g == want, "validity is ", g, ", expected ", want, ": ", c.sample.s);
        CHECK(g2 == want, "C++ validity is ", g2, ", expected ", want, ": ", c.sample.s);
        c.classify("validity");
        c.nontrivial();
        return;
    }
    size_t n = (size_t)(s.freq({3, 1}) ? s.range(1, c.scale > 2 ? 6000 : c.scale > 1 ? 300 : 100) : s.range(2, 12));
    gen_threads(s);
    int mode = s.freq({5, 1, 1}), vk = s.freq({3, 3, 1, 1, 2});
    std::map<label_t, distance_values> m;
    std::vector<double> cr, dr;
    auto pair = [&](double &lo, double &hi) {
        switch (vk) {
        case 0: lo = (double)s.range(1, 20); hi = lo * (double)s.range(1, 6); break;
        case 1: lo = (double)s.range(1, 100000) / 1000; hi = lo + (double)s.range(0, 1000000) / 1000; break;
        case 2: lo = 2; hi = 4; break;
        case 3: lo = (double)s.range(1, 1000) * 1e-6; hi = lo * (1 + (double)s.draw(1u << 20) * 1e6); break;
        default: lo = 1; hi = s.freq({6, 1}) ? 1 + (double)s.range(50, 500) : 1 + (double)s.range(0, 10) / 8; break;
        }
    };
    for (size_t i = 0; i < n; i++) {
        label_t k = gen_label(s, mode, n + 5);
        distance_values v;
        memset(&v, 0, sizeof v);
        double a, b, x, y;
        pair(a, b);
        pair(x, y);
        if (vk == 1 && s.freq({20, 1}) == 1) { x = (double)D_MAX; y = (double)D_MIN; } // cluster without distances
        v.min_cr = (distance_t)a; v.max_cr = (distance_t)b; v.min_dr = (distance_t)x; v.max_dr = (distance_t)y;
        v.cr_confidence = v.dr_confidence = (distance_t)s.range(0, 7);
        m[k] = v;
    }
    n = m.size();
    c.sample = "table {";
    for (auto &kv : m) { cr.push_back((double)(kv.second.max_cr / kv.second.min_cr)); dr.push_back((double)(kv.second.max_dr / kv.second.min_dr)); c.sample += pbt_msg(kv.first, ": ", dv(kv.second), "; "); }
    c.sample += "}";
    hashtable *h = hashtable_init(n + 1, H_INT, H_PTR, int_compare);
    for (auto &kv : m) {
        distance_values *p = (distance_values *)malloc(sizeof *p);
        *p = kv.second;
        label_t k = kv.first;
        hashtable_insert(h, &k, &p);
    }
    clustering_stats st;
    unsigned char fill = (unsigned char)s.draw(255);
    memset(&st, fill, sizeof st);
    if (s.coin()) { st.count = (index_t)s.range(0, 1000); st.coreDistanceValues.max = (distance_t)1e9; st.intraDistanceValues.variance = 7; st.coreDistanceValues.variance = 3; st.coreDistanceValues.mean = 5; }
    clustering_stats st2 = st;
    hdbscan_calculate_stats(h, &st);
    map<label_t, distance_values> cm = m;
    clustering::calculateStats(cm, st2);
    for (int q = 0; q < 2; q++) {
        clustering_stats &t = q ? st2 : st;
        std::string who = q ? "C++ " : "C ";
        CHECK(t.count == n, who, "count is ", t.count, " for ", n, " clusters");
        cmp_stats(t.coreDistanceValues, cr, (who + "core").c_str(), c);
        cmp_stats(t.intraDistanceValues, dr, (who + "intra").c_str(), c);
        double mc = (double)t.coreDistanceValues.max, md = (double)t.intraDistanceValues.max;
        for (auto &kv : m) {
            distance_values v;
            if (q) v = cm[kv.first];
            else {
                label_t k = kv.first;
                distance_values *p = NULL;
                CHECK(hashtable_lookup(h, &k, &p) == 1, "label ", k);
                v = *p;
            }
            CHECK(v.min_cr == kv.second.min_cr && v.max_cr == kv.second.max_cr && v.min_dr == kv.second.min_dr && v.max_dr == kv.second.max_dr, who, "table entry ", kv.first, " was modified");
            double wc = (mc - (double)(v.max_cr / v.min_cr)) / mc * 100, wd = (md - (double)(v.max_dr / v.min_dr)) / md * 100;
            CHECK(close_rel((double)v.cr_confidence, wc, 1e-9) || fabs((double)v.cr_confidence - wc) < 1e-9, who, "core confidence of cluster ", kv.first, " is ", v.cr_confidence, ", expected ", wc);
            CHECK(close_rel((double)v.dr_confidence, wd, 1e-9) || fabs((double)v.dr_confidence - wd) < 1e-9, who, "intra confidence of cluster ", kv.first, " is ", v.dr_confidence, ", expected ", wd);
        }
        int v = q ? clustering::analyseStats(t) : hdbscan_analyse_stats(&t);
        int want = validity1((double)t.coreDistanceValues.skewness, (double)t.coreDistanceValues.kurtosis) + validity1((double)t.intraDistanceValues.skewness, (double)t.intraDistanceValues.kurtosis);
        CHECK(v == want, who, "validity is ", v, ", expected ", want);
        c.classify("validity " + std::to_string(want), q == 0);
    }
    hdbscan_destroy_distance_map(h);
    c.classify("single cluster", n == 1);
    c.nontrivial(n >= 3);
}

template <class K> static void check_sorted(const std::vector<label_t> &got, std::vector<label_t> want, K key, bool nan, const char *who) {
    std::vector<label_t> a = got;
    std::sort(a.begin(), a.end());
    std::sort(want.begin(), want.end());
    CHECK(a == want, who, ": result ", vstr(got), " is no permutation of the given labels ", vstr(want));
    if (nan) return;
    for (size_t i = 1; i < got.size(); i++)
        CHECK(key(got[i - 1]) <= key(got[i]), who, ": labels #", i - 1, " and #", i, " have keys ", key(got[i - 1]), " and ", key(got[i]));
}
static std::vector<label_t> labels_of(ArrayList *a) { label_t *x = (label_t *)a->data; return std::vector<label_t>(x, x + a->size); }

PROP(C15) {
    size_t n = (size_t)(s.freq({2, 1}) ? s.range(1, c.scale > 2 ? 6000 : c.scale > 1 ? 400 : 120) : s.range(1, 10));
    gen_threads(s);
    int mode = s.freq({5, 1, 1});
    int vk = s.freq({3, 2, 2, 2, 1});
    std::vector<label_t> L;
    { std::set<label_t> q; while (q.size() < n) { label_t k = gen_label(s, mode, 2 * n); while (!q.insert(k).second) k++; } L.assign(q.begin(), q.end()); }
    int what = s.freq({2, 2, 3, 1}); // core, intra, length, raw quicksort
    // long clusters when there are few
    int64_t stretch = n > 40 ? 1 : s.freq({4, 1}) == 0 ? 1 : n > 4 ? s.range(20, 60) : s.range(50, 8000);
    std::map<label_t, double> kc, kd, kl;
    bool nan = false;
    size_t idx = 0;
    auto val = [&]() -> double {
        idx++;
        switch (vk) {
        case 0: return (double)s.range(0, 3);
        case 1: return (double)s.range(0, 100000) / 1000;
        case 2: return (double)idx;
        case 3: return (double)(n - idx) / 4;
        default: if (s.freq({8, 1}) == 1) { nan = true; return NAN; } return (double)s.range(0, 5);
        }
    };
    for (label_t k : L) { kc[k] = val(); kd[k] = val(); kl[k] = what == 2 ? (double)s.range(0, (vk == 0 ? 3 : 12) * stretch) : 0; c.classify("clusters of more than 255 points", kl[k] > 255); }
    // the list handed in: empty, everything shuffled, or some of it
    std::vector<label_t> in;
    int lk = s.freq({2, 3, 2});
    if (lk == 1) in = L;
    if (lk == 2) for (label_t k : L) if (s.coin()) in.push_back(k);
    if (s.freq({3, 1}) == 0) for (size_t i = in.size(); i > 1; i--) std::swap(in[i - 1], in[(size_t)s.draw(i - 1)]);
    std::vector<label_t> all = in.empty() ? L : in;
    c.sample = pbt_msg("sort by ", what == 0 ? "core confidence" : what == 1 ? "intra confidence" : what == 2 ? "length" : "quicksort", ", ", n, " clusters, given ", vstr(in), " keys {");
    for (label_t k : L) c.sample += pbt_msg(k, ":", what == 0 ? kc[k] : what == 1 ? kd[k] : what == 2 ? kl[k] : kc[k], " ");
    c.sample += "}";
    c.classify(what == 0 ? "by core confidence" : what == 1 ? "by intra confidence" : what == 2 ? "by length" : "quicksort");
    c.classify("empty list", in.empty());
    c.classify("all clusters given", lk == 1);
    ArrayList *a = NULL;
    bool null_list = in.empty() && what < 2 && s.coin();
    if (!null_list) {
        a = array_list_init(std::max<size_t>(1, s.freq({3, 1}) ? 1 : in.size() + (size_t)s.range(0, 3)), sizeof(label_t), int_compare);
        for (label_t k : in) array_list_append(a, &k);
    }
    std::vector<label_t> v = in;
    if (what < 2) {
        std::map<label_t, double> &key = what == 0 ? kc : kd;
        int type = what == 0 ? CORE_DISTANCE_TYPE : INTRA_DISTANCE_TYPE;
        map<label_t, distance_values> cm;
        hashtable *h = hashtable_init(n + 1, H_INT, H_PTR, int_compare);
        for (label_t k : L) {
            distance_values *p = (distance_values *)malloc(sizeof *p);
            memset(p, 0, sizeof *p);
            p->cr_confidence = (distance_t)kc[k]; p->dr_confidence = (distance_t)kd[k];
            cm[k] = *p;
            hashtable_insert(h, &k, &p);
        }
        ArrayList *r = hdbscan_sort_by_similarity(h, a, type);
        CHECK(r != NULL && (null_list || r == a), "returned list");
        check_sorted(labels_of(r), all, [&](label_t k) { return key[k]; }, nan, "hdbscan_sort_by_similarity");
        array_list_delete(r);
        hdbscan_destroy_distance_map(h);
        clustering::sortBySimilarity(cm, v, type);
        check_sorted(v, all, [&](label_t k) { return key[k]; }, nan, "sortBySimilarity");
        for (label_t k : L) CHECK(same((double)cm[k].cr_confidence, kc[k]) && same((double)cm[k].dr_confidence, kd[k]), "table modified");
        c.classify("NaN confidence", nan);
    } else if (what == 2) {
        std::map<label_t, std::vector<index_t>> m;
        index_t i = 0;
        for (label_t k : L) { m[k]; for (int q = 0; q < (int)kl[k]; q++) m[k].push_back(i++); }
        map_t mm(m.begin(), m.end());
        hashtable *h = make_cluster_table(m);
        ArrayList *r = hdbscan_sort_by_length(h, a);
        CHECK(r != NULL && r == a, "returned list");
        check_sorted(labels_of(r), all, [&](label_t k) { return kl[k]; }, false, "hdbscan_sort_by_length");
        array_list_delete(r);
        auto after = read_map(h);
        for (auto &kv : m) CHECK(after[kv.first] == std::vector<size_t>(kv.second.begin(), kv.second.end()), "cluster map modified");
        hdbscan_destroy_cluster_map(h);
        clustering::sortByLength(mm, v);
        check_sorted(v, all, [&](label_t k) { return kl[k]; }, false, "sortByLength");
    } else {
        // pairs stay together; only positions left..right change
        array_list_clear(a, 0);
        ArrayList *w = array_list_init(all.size() + 1, sizeof(distance_t), double_compare);
        std::vector<distance_t> data;
        for (label_t k : all) { array_list_append(a, &k); distance_t x = (distance_t)kc[k]; array_list_append(w, &x); data.push_back(x); }
        int64_t lo = s.coin() ? 0 : s.range(0, (int64_t)all.size() - 1), hi = s.coin() ? (int64_t)all.size() - 1 : s.range(lo, (int64_t)all.size() - 1);
        hdbscan_quicksort(a, w, (int32_t)lo, (int32_t)hi);
        std::vector<label_t> g = labels_of(a);
        auto chk = [&](const std::vector<label_t> &g2, const distance_t *dd, const char *who) {
            std::vector<label_t> x(all.begin() + lo, all.begin() + hi + 1), y(g2.begin() + lo, g2.begin() + hi + 1);
            check_sorted(y, x, [&](label_t k) { return kc[k]; }, nan, who);
            for (size_t i = 0; i < all.size(); i++) {
                CHECK(same((double)dd[i], kc[g2[i]]), who, ": label #", i, " lost its key");
                if ((int64_t)i < lo || (int64_t)i > hi) CHECK(g2[i] == all[i], who, ": element ", i, " outside ", lo, "..", hi, " moved");
            }
        };
        chk(g, (distance_t *)w->data, "hdbscan_quicksort");
        array_list_delete(w);
        array_list_delete(a);
        std::vector<label_t> v2 = all;
        std::vector<distance_t> d2 = data;
        clustering::quickSort(v2, d2, (index_t)lo, (index_t)hi);
        chk(v2, d2.data(), "quickSort");
    }
    std::set<double> dist;
    for (label_t k : all) dist.insert(what == 1 ? kd[k] : what == 2 ? kl[k] : kc[k]);
    c.classify("ties", dist.size() < all.size());
    c.nontrivial(all.size() >= 3 && dist.size() >= 2);
}
