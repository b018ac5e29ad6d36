ID="c11-dup"; PROP="C11"
NEEDS="two or more threads, and equal points at the border of two threads' shares"
BREAKS="A point equal to the one before takes over its core distance, which another thread may not have computed yet."
EDITS=[("src/distance.c","""		/// Fill sortedDistance with the largest possible value of distance_t
		for (index_t j = 0;""","""		/// Equal points have equal neighbourhoods
		if (i > 0 && distance_get(dis, i, i - 1) == 0) {
			dis->coreDistances[i] = dis->coreDistances[i - 1];
			continue;
		}

		/// Fill sortedDistance with the largest possible value of distance_t
		for (index_t j = 0;""")]
DEMO=r'''
#include "hdbscan/hdbscan.h"
#include <omp.h>
int main() {
    int n = 1200, bad = 0;
    double *x = malloc(n * sizeof(double)), *want = NULL;
    for (int i = 0; i < n; i++) x[i] = (i + 1) / 2 * 3 % 1000 + 0.001 * ((i + 1) / 2);
    for (int r = 0; r < 12 && !bad; r++) {
        omp_set_num_threads(r == 0 ? 1 : 2 + r % 3 * 2);
        distance d;
        distance_init(&d, 1, H_DOUBLE);
        distance_compute(&d, x, n, 1, 6);
        if (r == 0) { want = malloc(n * sizeof(double)); memcpy(want, d.coreDistances, n * sizeof(double)); }
        for (int i = 0; i < n; i++) if (want[i] != d.coreDistances[i]) { printf("round %d point %d core %f, one thread %f\n", r, i, d.coreDistances[i], want[i]); bad = 1; break; }
        double *junk = d.coreDistances; /* the next table gets used memory */
        for (int i = 0; i < n; i++) junk[i] = -7;
        distance_clean(&d);
    }
    return bad;
}
'''
