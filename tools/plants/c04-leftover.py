ID="c04-leftover"; PROP="C04"
NEEDS="two clusters affected at one level, the first of which keeps unexplored points of its first child when it turns out not to split"
BREAKS="Unexplored points of the first child of one examined cluster leak into the next examined cluster, so labels and components of a level no longer agree."
EDITS=[("src/hdbscan.c","""			unexploredFirstChildClusterPoints->size = 0;
			examinedVertices->size = 0;
""","""			examinedVertices->size = 0;
""")]
DEMO=r'''
#include "hdbscan/hdbscan.h"
#include <math.h>
static double x[] = {0.0625, 0.1875, 0.25, 0.5, 0.625, 0.6875, 0};
static int up[7];
static int find(int i) { while (up[i] != i) i = up[i]; return i; }
int main() {
    int bad = 0;
    hdbscan *s = hdbscan_init(NULL, 2);
    hdbscan_run(s, x, 7, 1, TRUE, H_DOUBLE);
    for (size_t k = 0; k < s->hierarchy->keys->size; k++) {
        long key = ((long *)s->hierarchy->keys->data)[k];
        hierarchy_entry *e = NULL;
        hashtable_lookup(s->hierarchy, &key, &e);
        if (key == 0) continue;
        for (int i = 0; i < 7; i++) up[i] = i;
        for (int i = 0; i < 7; i++) for (int j = 0; j < i; j++) {
            double m = fabs(x[i] - x[j]), *c = s->distanceFunction.coreDistances;
            if (c[i] > m) m = c[i];
            if (c[j] > m) m = c[j];
            if (m <= e->edgeWeight) up[find(i)] = find(j);
        }
        for (int i = 0; i < 7; i++) for (int j = 0; j < i; j++) {
            if (!e->labels[i] || !e->labels[j]) continue;
            if ((find(i) == find(j)) != (e->labels[i] == e->labels[j])) { printf("level %f: points %d and %d, labels %d %d\n", e->edgeWeight, j, i, e->labels[j], e->labels[i]); bad = 1; }
        }
    }
    return bad;
}
'''
