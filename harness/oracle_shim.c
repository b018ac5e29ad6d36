/* flat access to the C library for the checks of the language bindings and type configurations */
#include "hdbscan/hdbscan.h"
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
void *vo_new(long mp) { return hdbscan_init(NULL, (index_t)mp); }
int vo_run(void *h, void *data, long rows, long cols, int rowwise, int type) { return hdbscan_run((hdbscan *)h, data, (index_t)rows, (index_t)cols, rowwise, (index_t)type); }
int vo_rerun(void *h, long mp) { return hdbscan_rerun((hdbscan *)h, (index_t)mp); }
void vo_free(void *h) { hdbscan_destroy((hdbscan *)h); }
void vo_clean(void *h) { hdbscan_clean((hdbscan *)h); }
long vo_n(void *h) { return (long)((hdbscan *)h)->numPoints; }
void vo_labels(void *h, int64_t *out) { hdbscan *s = h; for (size_t i = 0; i < s->numPoints; i++) out[i] = (int64_t)s->clusterLabels[i]; }
long vo_levels(void *h) { return (long)hashtable_size(((hdbscan *)h)->hierarchy); }
void vo_level(void *h, long i, int64_t *key, double *weight, int64_t *labels) {
    hdbscan *s = h; hierarchy_entry *e = NULL;
    *key = ((int64_t *)s->hierarchy->keys->data)[i];
    hashtable_lookup(s->hierarchy, key, &e);
    *weight = (double)e->edgeWeight;
    for (size_t k = 0; k < s->numPoints; k++) labels[k] = (int64_t)e->labels[k];
}
void vo_core(void *h, double *out) { hdbscan *s = h; for (size_t i = 0; i < s->numPoints; i++) out[i] = (double)s->distanceFunction.coreDistances[i]; }
void vo_outliers(void *h, int64_t *ids, double *core, double *score) {
    hdbscan *s = h;
    for (size_t i = 0; i < s->numPoints; i++) { ids[i] = (int64_t)s->outlierScores[i].id; core[i] = (double)s->outlierScores[i].coreDistance; score[i] = (double)s->outlierScores[i].score; }
}
long vo_clusters(void *h) { return (long)((hdbscan *)h)->clusters->size; }
int vo_cluster(void *h, long i, int64_t *ints, double *dbl) { /* 0 for an empty slot */
    cluster *c = ((cluster **)((hdbscan *)h)->clusters->data)[i];
    if (!c) return 0;
    ints[0] = (int64_t)c->label; ints[1] = c->parent ? (int64_t)c->parent->label : -1; ints[2] = (int64_t)c->numPoints; ints[3] = c->hasChildren != 0; ints[4] = (int64_t)c->offset;
    dbl[0] = (double)c->birthLevel; dbl[1] = (double)c->deathLevel; dbl[2] = (double)c->stability; dbl[3] = (double)c->propagatedStability; dbl[4] = (double)c->propagatedLowestChildDeathLevel;
    return 1;
}
long vo_noise(void *h, long i, int64_t *out) { /* noise members recorded for cluster i */
    cluster *c = ((cluster **)((hdbscan *)h)->clusters->data)[i];
    if (!c) return -1;
    for (size_t j = 0; j < c->virtualChildCluster->size; j++) if (out) out[j] = (int64_t)((index_t *)c->virtualChildCluster->data)[j];
    return (long)c->virtualChildCluster->size;
}
double vo_distance(void *h, long i, long j) { return (double)distance_get(&((hdbscan *)h)->distanceFunction, (index_t)i, (index_t)j); }
/* labels of the whole cluster map sorted by length (0), core (1) or intra (2) confidence */
long vo_sorted(void *h, int what, int64_t *out) {
    hdbscan *s = h; hashtable *t = hdbscan_create_cluster_map(s->clusterLabels, 0, s->numPoints);
    hashtable *d = what ? hdbscan_get_min_max_distances(s, t) : NULL;
    clustering_stats st; memset(&st, 0, sizeof st);
    if (d) hdbscan_calculate_stats(d, &st);
    ArrayList *l = what ? hdbscan_sort_by_similarity(d, NULL, what == 1 ? CORE_DISTANCE_TYPE : INTRA_DISTANCE_TYPE) : hdbscan_sort_by_length(t, array_list_init(s->numPoints + 1, sizeof(label_t), int_compare));
    long n = (long)l->size;
    for (long i = 0; i < n; i++) out[i] = (int64_t)((label_t *)l->data)[i];
    array_list_delete(l);
    if (d) hdbscan_destroy_distance_map(d);
    hdbscan_destroy_cluster_map(t);
    return n;
}
long vo_cluster_map(void *h, long begin, long end, int64_t *flat) { /* label, count, members, ... */
    hdbscan *s = h; hashtable *t = hdbscan_create_cluster_map(s->clusterLabels, (index_t)begin, (index_t)end);
    long p = 0;
    for (size_t i = 0; i < hashtable_size(t); i++) {
        label_t k = ((label_t *)t->keys->data)[i]; ArrayList *l = NULL;
        hashtable_lookup(t, &k, &l);
        flat[p++] = (int64_t)k; flat[p++] = (int64_t)l->size;
        for (size_t j = 0; j < l->size; j++) flat[p++] = (int64_t)((index_t *)l->data)[j];
    }
    hdbscan_destroy_cluster_map(t);
    return p;
}
/* min_cr max_cr cr_confidence min_dr max_dr dr_confidence for each label of the whole map; statistics in stats[0..12] */
long vo_tables(void *h, int64_t *labels, double *vals, double *stats) {
    hdbscan *s = h; hashtable *t = hdbscan_create_cluster_map(s->clusterLabels, 0, s->numPoints);
    hashtable *d = hdbscan_get_min_max_distances(s, t);
    clustering_stats st; memset(&st, 0, sizeof st);
    hdbscan_calculate_stats(d, &st);
    long p = 0;
    for (size_t i = 0; i < hashtable_size(d); i++) {
        label_t k = ((label_t *)d->keys->data)[i]; distance_values *v = NULL;
        hashtable_lookup(d, &k, &v);
        labels[i] = (int64_t)k;
        vals[p++] = v->min_cr; vals[p++] = v->max_cr; vals[p++] = v->cr_confidence; vals[p++] = v->min_dr; vals[p++] = v->max_dr; vals[p++] = v->dr_confidence;
    }
    stats[0] = st.count;
    stats_values *q[2] = {&st.coreDistanceValues, &st.intraDistanceValues};
    for (int i = 0; i < 2; i++) { double *o = stats + 1 + 6 * i; o[0] = q[i]->max; o[1] = q[i]->mean; o[2] = q[i]->variance; o[3] = q[i]->standardDev; o[4] = q[i]->skewness; o[5] = q[i]->kurtosis; }
    long n = (long)hashtable_size(d);
    hdbscan_destroy_distance_map(d);
    hdbscan_destroy_cluster_map(t);
    return n;
}
int vo_sizes(int what) { switch (what) { case 0: return (int)sizeof(label_t); case 1: return (int)sizeof(index_t); default: return (int)sizeof(distance_t); } }
/* what 0: cluster map and sizes; 1: hierarchy, outlier scores, distance table, tree */
void vo_print(void *h, long b, long e, int what) {
    hdbscan *s = h; hashtable *t = hdbscan_create_cluster_map(s->clusterLabels, (index_t)b, (index_t)e);
    if (!what) { hdbscan_print_cluster_map(t); hdbscan_print_cluster_sizes(t); }
    else {
        hashtable *d = hdbscan_get_min_max_distances(s, t);
        hdbscan_print_hierarchies(s->hierarchy, s->numPoints, NULL);
        hdbscan_print_outlier_scores(s->outlierScores, s->numPoints);
        hdbscan_print_distance_map(d);
        distances_print(&s->distanceFunction);
        hdbscan_destroy_distance_map(d);
    }
    hdbscan_destroy_cluster_map(t);
}
void vo_graph(void *h) { graph_print(((hdbscan *)h)->mst); }
