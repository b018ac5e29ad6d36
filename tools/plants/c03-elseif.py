ID="c03-elseif"; PROP="C03"
NEEDS="two points closer to each other than both of their core distances, the unattached one having the larger"
BREAKS="The mutual reachability distance is no longer the maximum of the three values, so tree edges get too small weights."
EDITS=[("src/hdbscan.c","""				mutualReachabiltiyDistance = coreDistances[currentPoint];
			}

			if (coreDistances[neighbor] > mutualReachabiltiyDistance) {""","""				mutualReachabiltiyDistance = coreDistances[currentPoint];
			} else if (coreDistances[neighbor] > mutualReachabiltiyDistance) {""")]
DEMO=r'''
#include "hdbscan/hdbscan.h"
int main() {
    double d[] = {0, 1.5, 3.5, 4, 20, 20.25, 22, 23, 60, 60.5, 63, 61};
    int n = 12;
    hdbscan *s = hdbscan_init(NULL, 3);
    hdbscan_run(s, d, n, 1, TRUE, H_DOUBLE);
    int bad = 0;
    index_t *a = s->mst->verticesA->data, *b = s->mst->verticesB->data; distance_t *w = s->mst->edgeWeights->data, *c = s->distanceFunction.coreDistances;
    for (size_t i = 0; i < s->mst->edgeWeights->size; i++) {
        double m = distance_get(&s->distanceFunction, a[i], b[i]);
        if (c[a[i]] > m) m = c[a[i]];
        if (c[b[i]] > m) m = c[b[i]];
        if (w[i] != m) { printf("edge %d-%d weighs %f, not %f\n", a[i], b[i], w[i], m); bad = 1; }
    }
    return bad;
}
'''
