H="src/hdbscan.c"; D="src/distance.c"; C="src/cluster.c"; L="modules/collections/src/list.c"; S="modules/collections/src/set.c"
K="modules/collections/src/linkedlist.c"; HT="modules/collections/src/hashtable.c"; U="modules/utils/src/utils.c"; G="src/undirected_graph.c"; P="modules/collections/src/primes.c"
T=[
# C01
("c01-float-square","C01",[(D,"diff = (distance_t)(dt[i * dis->cols + k] - dt[j * dis->cols + k]);\n\n				} else if(dis->datatype == H_INT)","diff = (distance_t)(dt[i * dis->cols + k] - dt[j * dis->cols + k]);\n					diff = (float)diff;\n					if(dis->cols > 4) diff = (distance_t)sqrtf((float)(diff*diff));\n\n				} else if(dis->datatype == H_INT)")]),
("c01-uchar","C01",[(D,"char* dt = (char*)dataset;","unsigned char* dt = (unsigned char*)dataset;")]),
("c01-long-double","C01",[(D,"(long double)dt[i * dis->cols + k] - (long double)dt[j * dis->cols + k]","(double)dt[i * dis->cols + k] - (double)dt[j * dis->cols + k]")]),
("c01-same-prev","C01",[(D,"for (size_t k = 0; ((k < dis->cols) && (i != j)); k++) {","for (size_t k = 0; ((k < dis->cols) && (i != j)); k++) {\n				if(k > 0 && sum > D_MAX / 4) break;")]),
("c01-sqrtf-small","C01",[(D,"sum = (distance_t)sqrt(sum);","sum = sum < 1e-30 ? (distance_t)0 : (distance_t)sqrt(sum);")]),
# C02
("c02-dupzero","C02",[(D,"distance_t t = distance_get(dis, i, j);\n","distance_t t = distance_get(dis, i, j);\n			if(t == 0 && j != i && j > dis->numNeighbors) continue;\n")]),
("c02-rerun-eq","C02",[(H,"	sc->distanceFunction.numNeighbors = (index_t)(minPts - 1);\n	distance_get","	index_t old = sc->distanceFunction.numNeighbors;\n	sc->distanceFunction.numNeighbors = (index_t)(minPts - 1);\n	if(!(old >= sc->numPoints && sc->distanceFunction.numNeighbors + 1 == sc->numPoints)) distance_get")]),
("c02-cap64","C02",[(D,"if(dis->numNeighbors >= dis->rows) {","if(dis->numNeighbors >= dis->rows || (dis->numNeighbors > 40 && dis->numNeighbors + 1 == dis->rows)) {")]),
# C03
("c03-far","C03",[(H,"			if (coreDistances[neighbor] > mutualReachabiltiyDistance) {","			if (coreDistances[neighbor] > mutualReachabiltiyDistance && (neighbor != 0 || numAttachedPoints + 1 < size)) {")]),
("c03-sort-tail","C03",[(G,"		if (pivotIndex < endIndex - 1) {","		if (pivotIndex < endIndex - 1 && !(endIndex - pivotIndex == 2 && startIndex > 8)) {")]),
("c03-selfw","C03",[(H,"			distances[i] = coreDistances[vertex];","			distances[i] = coreDistances[vertex] == D_MAX ? 0 : coreDistances[vertex];")]),
# C04
("c04-ulp","C04",[(H,"while(currentEdgeIndex >= 0 && tmp_w == currentEdgeWeight) {","while(currentEdgeIndex >= 0 && tmp_w >= currentEdgeWeight * (1 - 2.3e-16)) {")]),
("c04-noedges","C04",[(H,"	else if(constructingSubCluster->size < sc->minPoints || anyEdges == FALSE){","	else if(constructingSubCluster->size < sc->minPoints){")]),
("c04-three","C04",[(H,"					if(set_find(constructingSubCluster, &firstChildClusterMember) > -1){","					if(numChildClusters > 3 || set_find(constructingSubCluster, &firstChildClusterMember) > -1){")]),
("c04-compact","C04",[(H,"		if (array_list_size(newClusters) == 0){\n			nextLevelSignificant = FALSE;","		if (array_list_size(newClusters) < 2){\n			nextLevelSignificant = FALSE;")]),
# C05
("c05-virtual-order","C05",[(C,"		set_insert(cl->virtualChildCluster, &d);","		if(cl->numPoints > 0 || points->size > 1 || cl->parent == NULL) set_insert(cl->virtualChildCluster, &d);")]),
("c05-offset","C05",[(H,"			newCluster->offset = lineCount;","			newCluster->offset = newCluster->numPoints == 0 ? lineCount - 1 : lineCount;")]),
("c05-death","C05",[(C,"	if (cl->numPoints == 0)\n		cl->deathLevel = level;","	if (cl->numPoints == 0 && (cl->hasChildren == FALSE || numPoints > 1))\n		cl->deathLevel = level;")]),
# C06
("c06-sorted-find","C06",[(H,"array_list_find(clusterList, &label, 0)","array_list_find(clusterList, &label, 1)")]),
("c06-inf","C06",[(C,"			if (cl->stability >= cl->propagatedStability) {","			if (cl->stability >= cl->propagatedStability && !(isinf(cl->stability) && isinf(cl->propagatedStability))) {"),(C,"#include <float.h>","#include <float.h>\n#include <math.h>")]),
("c06-level","C06",[(H,"		int64_t l = key + 1;","		int64_t l = key + 1;\n		if(clusterList->size > 2) l = key + 2 < (int64_t)hashtable_size(sc->hierarchy) ? key + 2 : key + 1;")]),
("c06-childcount","C06",[(C,"		if (cl->hasChildren == FALSE || cl->numC","		if (cl->hasChildren == FALSE || cl->propagatedDescendants->size > 3 || cl->numC")]),
# C07
("c07-eps","C07",[(H,"		if(epsilon != 0){","		if(epsilon > 1e-12){")]),
("c07-lowest","C07",[(C,"		if (cl->propagatedLowestChildDeathLevel < cl->parent->propagatedLowestChildDeathLevel){","		if (cl->propagatedLowestChildDeathLevel < cl->parent->propagatedLowestChildDeathLevel && !(cl->hasChildren && cl->parent->parent == NULL)){")]),
]
