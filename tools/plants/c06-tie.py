ID="c06-tie"; PROP="C06"
NEEDS="a cluster exactly as stable as the best selection of its descendants"
BREAKS="On a tie in stability the descendants are chosen instead of the parent."
EDITS=[("src/cluster.c","			if (cl->stability >= cl->propagatedStability) {","			if (cl->stability > cl->propagatedStability) {")]
DEMO=r'''
#include "hdbscan/hdbscan.h"
int main() {
    double x[] = {0.25, 1.25, 1.5, 1.75, 2.25, 2.75, 3.25, 3.75, 4.25, 4.75, 5.25, 5.5, 5.75, 0};
    hdbscan *s = hdbscan_init(NULL, 2);
    hdbscan_run(s, x, 14, 1, TRUE, H_DOUBLE);
    int bad = 0;
    for (size_t i = 2; i < s->clusters->size; i++) {
        cluster *c = ((cluster **)s->clusters->data)[i];
        printf("%d stability %f propagated %f\n", c->label, c->stability, c->propagatedStability);
        if (c->hasChildren && c->parent && c->parent->label == 1 && c->stability == c->propagatedStability)
            for (int j = 0; j < 14; j++) for (size_t k = 2; k < s->clusters->size; k++) {
                cluster *d = ((cluster **)s->clusters->data)[k];
                if (d->parent == c && s->clusterLabels[j] == d->label) { printf("point %d in child %d\n", j, d->label); bad = 1; }
            }
    }
    return bad;
}
'''
