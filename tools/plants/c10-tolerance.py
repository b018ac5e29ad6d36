ID="c10-tolerance"; PROP="C10"
NEEDS="a data set whose edge weights differ by less than 1e-9"
BREAKS="Edges whose weights are nearly equal are removed together, so scaling a data set down changes its clustering."
EDITS=[("src/hdbscan.c","""		while(currentEdgeIndex >= 0 && tmp_w == currentEdgeWeight) {""","""		while(currentEdgeIndex >= 0 && currentEdgeWeight - tmp_w < 1e-9) {""")]
DEMO=r'''
#include "hdbscan/hdbscan.h"
int main() {
    double d[] = {0, 1, 2, 30, 31, 32, 60, 62, 64}, e[9];
    for (int i = 0; i < 9; i++) e[i] = d[i] / (1L << 40);
    hdbscan *s = hdbscan_init(NULL, 3), *t = hdbscan_init(NULL, 3);
    hdbscan_run(s, d, 9, 1, TRUE, H_DOUBLE);
    hdbscan_run(t, e, 9, 1, TRUE, H_DOUBLE);
    int bad = 0;
    for (int i = 0; i < 9; i++) { printf("%d %d\n", s->clusterLabels[i], t->clusterLabels[i]); bad |= s->clusterLabels[i] != t->clusterLabels[i]; }
    return bad;
}
'''
