ID="c02-smaller"; PROP="C02"
NEEDS="a re-run with a smaller minPts than before"
BREAKS="Core distances are only computed again when a re-run asks for more neighbours, so re-running with a smaller minPts keeps the old core distances."
EDITS=[("src/hdbscan.c","""	sc->minPoints = minPts;
	sc->distanceFunction.numNeighbors = (index_t)(minPts - 1);
	distance_get_core_distances(&(sc->distanceFunction));
""","""	boolean grown = minPts > sc->minPoints;
	sc->minPoints = minPts;
	sc->distanceFunction.numNeighbors = (index_t)(minPts - 1);
	if(grown == TRUE){
		distance_get_core_distances(&(sc->distanceFunction));
	}
""")]
DEMO=r'''
#include "hdbscan/hdbscan.h"
int main() {
    double d[] = {0, 1, 3, 7, 15, 31, 63, 127};
    hdbscan *s = hdbscan_init(NULL, 4);
    hdbscan_run(s, d, 8, 1, TRUE, H_DOUBLE);
    hdbscan_rerun(s, 5);
    if (s->distanceFunction.coreDistances[0] != 15) return 2;
    hdbscan_rerun(s, 2);
    double want[] = {1, 1, 2, 4, 8, 16, 32, 64};
    int bad = 0;
    for (int i = 0; i < 8; i++) { printf("%d: %f\n", i, s->distanceFunction.coreDistances[i]); bad |= s->distanceFunction.coreDistances[i] != want[i]; }
    return bad;
}
'''
