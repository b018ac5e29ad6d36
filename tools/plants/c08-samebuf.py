ID="c08-samebuf"; PROP="C08"
NEEDS="the same buffer, shape and type handed to run twice in a row with different content"
BREAKS="A run over the buffer of the previous run takes over the distances of that run although the content has changed."
EDITS=[("src/hdbscan.c","""	sc->numPoints = hdbscan_get_dataset_size(rows, cols, rowwise);
""","""	sc->numPoints = hdbscan_get_dataset_size(rows, cols, rowwise);
	static void* lastDataset = NULL;
	static index_t lastRows = 0, lastCols = 0, lastType = 0;
	static distance_t* lastDistances = NULL;
	boolean known = lastDistances != NULL && dataset == lastDataset && sc->numPoints == lastRows && cols == lastCols && datatype == lastType;
"""),("src/hdbscan.c","""	index_t csize = sc->numPoints/5;
	if(csize < 4)
	{
		csize = (index_t)(csize * 4 + 1);
	}
	sc->clusters = ptr""","""	size_t numDistances = ((size_t)sc->numPoints * sc->numPoints - sc->numPoints) / 2;
	if(known){
		memcpy(sc->distanceFunction.distances, lastDistances, numDistances * sizeof(distance_t));
		distance_get_core_distances(&(sc->distanceFunction));
	} else {
		free(lastDistances);
		lastDistances = (distance_t *)malloc((numDistances + 1) * sizeof(distance_t));
		if(lastDistances != NULL)
			memcpy(lastDistances, sc->distanceFunction.distances, numDistances * sizeof(distance_t));
	}
	lastDataset = dataset;
	lastRows = sc->numPoints;
	lastCols = cols;
	lastType = datatype;

	index_t csize = sc->numPoints/5;
	if(csize < 4)
	{
		csize = (index_t)(csize * 4 + 1);
	}
	sc->clusters = ptr""")]
DEMO=r'''
#include "hdbscan/hdbscan.h"
int main() {
    double x[12], a[12] = {0, 1, 2, 3, 20, 21, 22, 23, 50, 51, 52, 90}, b[12] = {0, 10, 20, 1, 11, 21, 2, 12, 22, 3, 13, 23};
    hdbscan *s = hdbscan_init(NULL, 3), *t = hdbscan_init(NULL, 3);
    memcpy(x, a, sizeof x);
    hdbscan_run(s, x, 12, 1, TRUE, H_DOUBLE);
    memcpy(x, b, sizeof x);
    hdbscan_run(s, x, 12, 1, TRUE, H_DOUBLE);
    hdbscan_run(t, b, 12, 1, TRUE, H_DOUBLE);
    int bad = 0;
    for (int i = 0; i < 12; i++) { printf("%d %d\n", s->clusterLabels[i], t->clusterLabels[i]); if (s->clusterLabels[i] != t->clusterLabels[i]) bad = 1; }
    return bad;
}
'''
