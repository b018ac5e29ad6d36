ID="c24-precision"; PROP="C24"
NEEDS="a hierarchy level whose weight differs from its six-digit rounding"
BREAKS="The exported hierarchy holds its weights with six digits only, so small weights are lost."
EDITS=[("src/hdbscan.c","			fprintf(hierarchyFile, \"%.15f,\", data->edgeWeight);","			fprintf(hierarchyFile, \"%f,\", data->edgeWeight);")]
DEMO=r'''
#include "hdbscan/hdbscan.h"
#include <math.h>
int main() {
    double d[] = {0, 1e-8, 2e-8, 30e-8, 31e-8, 32e-8};
    hdbscan *s = hdbscan_init(NULL, 3);
    hdbscan_run(s, d, 6, 1, TRUE, H_DOUBLE);
    hdbscan_print_hierarchies(s->hierarchy, 6, "out");
    FILE *f = fopen("out_hierarchy.csv", "r");
    int bad = 0, lines = 0; char b[1000];
    while (fgets(b, sizeof b, f)) { int64_t k; hierarchy_entry *e; set_value_at(s->hierarchy->keys, lines++, &k); hashtable_lookup(s->hierarchy, &k, &e); double x = atof(b); printf("%g %g\n", x, e->edgeWeight); bad |= fabs(x - e->edgeWeight) > 1e-12; }
    return bad || lines != (int)hashtable_size(s->hierarchy);
}
'''
