// the C++ interface of one type configuration, compared with its C interface bit by bit
#include "hdbscan/hdbscan.hpp"
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <algorithm>
#include <cmath>
typedef clustering::hdbscan scan_t;
static int differs(char *out, long len, const char *f, ...) {
    va_list a;
    va_start(a, f);
    vsnprintf(out, (size_t)len, f, a);
    va_end(a);
    return 1;
}
static bool eq(distance_t a, distance_t b) { return a == b || (a != a && b != b); }
// computed values: the order of the additions is not specified
static bool near(distance_t a, distance_t b) {
    double t = sizeof(distance_t) == 8 ? 1e-9 : 1e-4;
    return eq(a, b) || fabs((double)a - (double)b) <= t * std::max(fabs((double)a), fabs((double)b));
}
static bool nearc(distance_t a, distance_t b) { return near(a, b) || fabs((double)a - (double)b) <= (sizeof(distance_t) == 8 ? 1e-9 : 1e-3); }
// spread around a mean: its error is relative to the values
static bool nearm(distance_t a, distance_t b, distance_t m) { return near(a, b) || fabs((double)a - (double)b) <= (sizeof(distance_t) == 8 ? 1e-9 : 1e-4) * std::max(fabs((double)m), (double)m * (double)m); }
static bool tiny(const clustering::stats_values &a) { return !(a.standardDev > (sizeof(distance_t) == 8 ? 1e-4 : 1e-2) * fabs((double)a.max)); }
static bool eqv(const clustering::stats_values &a, const clustering::stats_values &b) {
    return near(a.max, b.max) && near(a.mean, b.mean) && nearm(a.variance, b.variance, a.max) && nearm(a.standardDev, b.standardDev, a.max) && (nearc(a.skewness, b.skewness) || tiny(a)) && (nearc(a.kurtosis, b.kurtosis) || tiny(a));
}
// an object of the class on the same data; h went through the same steps
extern "C" int vo_cpp_run(void *h, void *data, long rows, long cols, int rowwise, int type, long mp, long again, char *out, long len) {
    clustering::hdbscan *s = (clustering::hdbscan *)h;
    clustering::hdbscan o((index_t)mp);
    o.run(data, (index_t)rows, (index_t)cols, (boolean)rowwise, (index_t)type);
    if (again) o.reRun((index_t)again);
    if (o.numPoints != s->numPoints) return differs(out, len, "%ld points", (long)o.numPoints);
    for (size_t i = 0; i < s->numPoints; i++) {
        if (o.clusterLabels[i] != s->clusterLabels[i]) return differs(out, len, "label of point %zu is %ld", i, (long)o.clusterLabels[i]);
        if (o.outlierScores[i].id != s->outlierScores[i].id || !eq(o.outlierScores[i].score, s->outlierScores[i].score)) return differs(out, len, "outlier score %zu", i);
    }
    if (hashtable_size(o.hierarchy) != hashtable_size(s->hierarchy)) return differs(out, len, "%zu levels", hashtable_size(o.hierarchy));
    return 0;
}
extern "C" int vo_cpp(void *h, long b, long e, char *out, long len) {
    clustering::hdbscan *s = (clustering::hdbscan *)h;
    hashtable *t = clustering::hdbscan_create_cluster_map(s->clusterLabels, (index_t)b, (index_t)e);
    hashtable *d = clustering::hdbscan_get_min_max_distances(s, t);
    map_t m = clustering::createClusterMap(s->clusterLabels, (index_t)b, (index_t)e);
    map<label_t, clustering::distance_values> dm = clustering::getMinMaxDistances(*s, m);
    size_t k = hashtable_size(t);
    int bad = 0;
    if (m.size() != k || dm.size() != hashtable_size(d)) bad = differs(out, len, "%zu clusters, C has %zu", m.size(), k);
    if (!bad) {
        clustering::clustering_stats x, y;
        memset(&x, 0, sizeof x); memset(&y, 0, sizeof y);
        if (k > 1) {
            clustering::hdbscan_calculate_stats(d, &x);
            clustering::calculateStats(dm, y);
            if (x.count != y.count || !eqv(x.coreDistanceValues, y.coreDistanceValues) || !eqv(x.intraDistanceValues, y.intraDistanceValues)) bad = differs(out, len, "statistics");
            else if (clustering::hdbscan_analyse_stats(&x) != clustering::analyseStats(x)) bad = differs(out, len, "validity");
        }
        size_t i = 0;
        for (auto &kv : m) {
            if (bad) break;
            label_t key = ((label_t *)t->keys->data)[i++];
            ArrayList *l = NULL;
            clustering::distance_values *v = NULL;
            if (key != kv.first) { bad = differs(out, len, "label %ld, C has %ld", (long)kv.first, (long)key); break; }
            hashtable_lookup(t, &key, &l); hashtable_lookup(d, &key, &v);
            if (l->size != kv.second.size() || memcmp(l->data, kv.second.data(), l->size * sizeof(index_t))) { bad = differs(out, len, "members of label %ld", (long)key); break; }
            const clustering::distance_values &w = dm[key];
            if (!eq(v->min_cr, w.min_cr) || !eq(v->max_cr, w.max_cr) || !eq(v->min_dr, w.min_dr) || !eq(v->max_dr, w.max_dr)) { bad = differs(out, len, "distances of label %ld: %g %g %g %g, C has %g %g %g %g", (long)key, (double)w.min_cr, (double)w.max_cr, (double)w.min_dr, (double)w.max_dr, (double)v->min_cr, (double)v->max_cr, (double)v->min_dr, (double)v->max_dr); break; }
            if (k > 1 && (!nearc(v->cr_confidence, w.cr_confidence) || !nearc(v->dr_confidence, w.dr_confidence))) { bad = differs(out, len, "confidences of label %ld", (long)key); break; }
        }
    }
    for (int what = 0; what < 3 && !bad && k; what++) for (int given = 0; given < 2 && !bad; given++) {
        if (what && k < 2) continue;
        vector<label_t> c;
        ArrayList *l = array_list_init(k + 1, sizeof(label_t), int_compare);
        if (given) for (size_t i = k; i-- > 0;) { label_t q = ((label_t *)t->keys->data)[i]; c.push_back(q); array_list_append(l, &q); }
        if (what == 0) { clustering::sortByLength(m, c); clustering::hdbscan_sort_by_length(t, l); }
        else { int ty = what == 1 ? CORE_DISTANCE_TYPE : INTRA_DISTANCE_TYPE; clustering::sortBySimilarity(dm, c, ty); clustering::hdbscan_sort_by_similarity(d, l, ty); }
        auto key = [&](label_t q) { return what == 0 ? (distance_t)m[q].size() : what == 1 ? dm[q].cr_confidence : dm[q].dr_confidence; };
        bool same = c.size() == l->size; // equal keys may come in any order
        bool nan = false;
        for (auto &kv : m) nan = nan || key(kv.first) != key(kv.first);
        for (size_t i = 0; i < c.size() && same && !nan; i++) same = what ? nearc(key(c[i]), key(((label_t *)l->data)[i])) : key(c[i]) == key(((label_t *)l->data)[i]);
        std::vector<label_t> p(c.begin(), c.end()), r((label_t *)l->data, (label_t *)l->data + l->size);
        std::sort(p.begin(), p.end()); std::sort(r.begin(), r.end());
        if (!same || p != r) bad = differs(out, len, "order by %s%s", what == 0 ? "length" : what == 1 ? "core confidence" : "intra confidence", given ? " of a given list" : "");
        array_list_delete(l);
    }
    clustering::hdbscan_destroy_distance_map(d);
    clustering::hdbscan_destroy_cluster_map(t);
    return bad;
}
