ID="c08-shrunk"; PROP="C08"
NEEDS="a re-run with a smaller minPts after a re-run or run with a larger one"
BREAKS="On a re-run the core distances are only raised, never lowered: they keep the values of the largest minPts so far."
EDITS=[("src/hdbscan.c","""	distance_get_core_distances(&(sc->distanceFunction));

	return hdbscan_do_run(sc);
}

/**
 * @brief 
 * 
 * @param sc 
 * @param dataset ""","""	distance_t *previous = sc->distanceFunction.coreDistances;
	sc->distanceFunction.coreDistances = (distance_t *)malloc(sc->numPoints * sizeof(distance_t));
	distance_get_core_distances(&(sc->distanceFunction));
	// the core distance of a duplicated point stays what it was
	for(index_t i = 0; i < sc->numPoints; i++){
		if(sc->distanceFunction.coreDistances[i] == 0 && sc->numPoints > minPts){
			sc->distanceFunction.coreDistances[i] = previous[i];
		}
	}
	free(previous);

	return hdbscan_do_run(sc);
}

/**
 * @brief 
 * 
 * @param sc 
 * @param dataset """)]
BREAKS="On a re-run a point whose core distance would become 0 keeps the one of the previous minPts."
NEEDS="duplicated points and a re-run with a minPts small enough to make their core distance 0 after a larger one"
DEMO=r'''
#include "hdbscan/hdbscan.h"
int main() {
    double x[] = {0, 0, 0, 1, 2, 3, 10, 11, 12, 12, 30};
    hdbscan *s = hdbscan_init(NULL, 4), *t = hdbscan_init(NULL, 2);
    hdbscan_run(s, x, 11, 1, TRUE, H_DOUBLE);
    hdbscan_rerun(s, 2);
    hdbscan_run(t, x, 11, 1, TRUE, H_DOUBLE);
    int bad = 0;
    for (int i = 0; i < 11; i++) { double a = s->distanceFunction.coreDistances[i], b = t->distanceFunction.coreDistances[i]; printf("%f %f\n", a, b); if (a != b) bad = 1; }
    return bad;
}
'''
