ID="c01-short"; PROP="C01"
NEEDS="short elements whose coordinate difference does not fit a short"
BREAKS="The difference of two short coordinates is stored in a short and wraps around, so distances between far apart points are wrong."
EDITS=[("src/distance.c","""					short* dt = dataset;
					diff = (distance_t)(dt[i * dis->cols + k] - dt[j * dis->cols + k]);""","""					short* dt = dataset;
					short delta = dt[i * dis->cols + k] - dt[j * dis->cols + k];
					diff = (distance_t)delta;""")]
DEMO=r'''
#include "hdbscan/hdbscan.h"
#include <math.h>
int main() {
    short d[] = {-30000, 0, 30000, 10, 20, -30000};
    hdbscan *s = hdbscan_init(NULL, 2);
    hdbscan_run(s, d, 6, 1, TRUE, H_SHORT);
    double x = distance_get(&s->distanceFunction, 0, 2);
    printf("distance of -30000 and 30000: %f\n", x);
    return fabs(x - 60000) > 1e-6;
}
'''
