ID="c13-elsemax"; PROP="C13"
NEEDS="a cluster whose largest intra-cluster distance is met while it is also the smallest so far, as in a cluster of two"
BREAKS="A distance that lowers the minimum is not considered for the maximum."
EDITS=[("src/hdbscan.c","""					dl->min_dr = d;
				}

				// max distance
				if(dl->max_dr < d){""","""					dl->min_dr = d;
				} else if(dl->max_dr < d){ // max distance""")]
DEMO=r'''
#include "hdbscan/hdbscan.h"
int main() {
    double d[] = {0, 1, 2, 30, 31, 32};
    label_t l[] = {1, 2, 2, 1, 3, 3};
    hdbscan *s = hdbscan_init(NULL, 3);
    hdbscan_run(s, d, 6, 1, TRUE, H_DOUBLE);
    hashtable *m = hdbscan_create_cluster_map(l, 0, 6), *t = hdbscan_get_min_max_distances(s, m);
    label_t k = 1; distance_values *v = NULL;
    hashtable_lookup(t, &k, &v);
    printf("%f %f\n", v->min_dr, v->max_dr);
    return !(v->min_dr == 30 && v->max_dr == 30);
}
'''
