ID="c28-constraints"; PROP="C28"
NEEDS="a cluster whose descendants satisfy more constraints than it does itself"
BREAKS="When descendants win by constraints, the parent is handed the stability of the cluster instead of theirs."
EDITS=[("src/cluster.c","""			cl->parent->propagatedNumConstraintsSatisfied = (index_t) (cl->parent->propagatedNumConstraintsSatisfied + cl->propagatedNumConstraintsSatisfied);
			cl->parent->propagatedStability += cl->propagatedStability;
""","""			cl->parent->propagatedNumConstraintsSatisfied = (index_t) (cl->parent->propagatedNumConstraintsSatisfied + cl->propagatedNumConstraintsSatisfied);
			cl->parent->propagatedStability += cl->stability;
""")]
DEMO=r'''
#include "hdbscan/cluster.h"
#include <stdio.h>
int main() {
    cluster *r = cluster_init(NULL, 1, NULL, 8, 10), *a = cluster_init(NULL, 2, r, 4, 10), *b = cluster_init(NULL, 3, a, 2, 5);
    cluster_detach_points(a, 10, 3);
    cluster_detach_points(b, 5, 1);
    cluster_add_constraints_satisfied(b, 3);
    cluster_propagate(b);
    cluster_propagate(a);
    printf("%f, expected %f\n", r->propagatedStability, b->stability);
    return r->propagatedStability != b->stability;
}
'''
