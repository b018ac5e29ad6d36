ID="c28-infinite"; PROP="C28"
NEEDS="a cluster whose own stability and that of its descendants are both infinite"
BREAKS="The tie of two infinite stabilities goes to the descendants: the difference of the two is not a number."
EDITS=[("src/cluster.c","if (cl->stability >= cl->propagatedStability) {","if (cl->stability - cl->propagatedStability >= 0) {")]
DEMO=r'''
#include "hdbscan/cluster.h"
#include <stdio.h>
int main() {
    cluster *r = cluster_init(NULL, 1, NULL, 8, 10), *a = cluster_init(NULL, 2, r, 4, 10), *b = cluster_init(NULL, 3, a, 2, 5);
    cluster_detach_points(b, 5, 0);
    cluster_detach_points(a, 10, 0);
    cluster_propagate(b);
    cluster_propagate(a);
    if (array_list_size(r->propagatedDescendants) != 1) return 2;
    cluster *c = ((cluster **)r->propagatedDescendants->data)[0];
    printf("cluster %d handed on\n", (int)c->label);
    return c != a;
}
'''
