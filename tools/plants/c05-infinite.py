ID="c05-infinite"; PROP="C05"
NEEDS="a cluster of at least minPts duplicates, whose members leave at level 0"
BREAKS="Points that leave a cluster at level 0 no longer count towards its stability, so infinite stabilities turn finite and are not reported."
EDITS=[("src/cluster.c","""	cl->stability += (numPoints * (1 / level - 1 / cl->birthLevel));
""","""	if (level > 0)
		cl->stability += (numPoints * (1 / level - 1 / cl->birthLevel));
""")]
DEMO=r'''
#include "hdbscan/hdbscan.h"
#include <math.h>
int main() {
    double d[] = {0, 0, 0, 0, 10, 11, 12, 13};
    hdbscan *s = hdbscan_init(NULL, 3);
    hdbscan_run(s, d, 8, 1, TRUE, H_DOUBLE);
    int inf = 0;
    for (size_t i = 2; i < s->clusters->size; i++) { cluster *c = ((cluster **)s->clusters->data)[i]; printf("%d: %f\n", c->label, c->stability); inf |= isinf(c->stability) != 0; }
    return !inf;
}
'''
