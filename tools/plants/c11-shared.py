ID="c11-shared"; PROP="C11"
NEEDS="two or more threads looking up values at the same time, at least as many clusters as threads"
BREAKS="The pointer to the looked-up distances is shared by the threads that compute the ratios of the clusters."
EDITS=[("src/hdbscan.c","	#pragma omp parallel for private (key, dl)","	#pragma omp parallel for private (key)")]
DEMO=r'''
#include "hdbscan/hdbscan.h"
#include <omp.h>
int main() {
    int n = 4000, bad = 0;
    double want = 0;
    hashtable *h = hashtable_init(n, H_INT, H_PTR, int_compare);
    for (label_t k = 0; k < n; k++) { distance_values *v = calloc(1, sizeof *v); v->min_cr = v->min_dr = 1; v->max_cr = 1 + k % 97 * (k % 31); v->max_dr = 1 + k % 13; hashtable_insert(h, &k, &v); }
    for (int r = 0; r < 300 && !bad; r++) {
        omp_set_num_threads(r == 0 ? 1 : 8);
        clustering_stats st;
        memset(&st, 0, sizeof st);
        hdbscan_calculate_stats(h, &st);
        if (r == 0) want = st.coreDistanceValues.mean;
        else if (st.coreDistanceValues.mean != want) { printf("round %d mean %.17g, one thread %.17g\n", r, st.coreDistanceValues.mean, want); bad = 1; }
    }
    return bad;
}
'''
