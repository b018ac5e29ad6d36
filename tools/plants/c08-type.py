ID="c08-type"; PROP="C08"
NEEDS="the same object run on two data sets of different element types"
BREAKS="The element type of the first run is kept for later runs of the same object."
EDITS=[("src/hdbscan.c","""	distance_init(&sc->distanceFunction, _EUCLIDEAN, datatype);

	sc->numPoints =""","""	if(sc->numPoints == 0){
		distance_init(&sc->distanceFunction, _EUCLIDEAN, datatype);
	}

	sc->numPoints =""")]
DEMO=r'''
#include "hdbscan/hdbscan.h"
int main() {
    double d[] = {0, 1, 2, 30, 31, 32, 60, 61};
    int e[] = {0, 1, 2, 30, 31, 32, 60, 61};
    double wide[8];
    hdbscan *s = hdbscan_init(NULL, 2);
    hdbscan_run(s, d, 8, 1, TRUE, H_DOUBLE);
    for (int i = 0; i < 8; i++) ((int *)wide)[i] = e[i];
    hdbscan_run(s, wide, 8, 1, TRUE, H_INT);
    double x = distance_get(&s->distanceFunction, 0, 7);
    printf("distance of 0 and 61: %f\n", x);
    return x != 61;
}
'''
