H="src/hdbscan.c"; D="src/distance.c"; C="src/cluster.c"; L="modules/collections/src/list.c"; S="modules/collections/src/set.c"
K="modules/collections/src/linkedlist.c"; HT="modules/collections/src/hashtable.c"; U="modules/utils/src/utils.c"; G="src/undirected_graph.c"; P="modules/collections/src/primes.c"
X="src/hdbscan.cpp"; OS="src/outlier_score.c"
T=[
# C08
("c08-clusters-kept","C08",[(H,"		array_list_clear(sc->clusters, 0);\n	}","		sc->clusters->size = sc->clusters->size > 64 ? 1 : 0;\n	}")]),
("c08-minpts-run","C08",[(H,"	sc->minPoints = minPts;\n","	if(minPts <= sc->numPoints) sc->minPoints = minPts;\n")]),
("c08-labels-static","C08",[(H,"	sc->clusterLabels = (label_t *)calloc(sc->numPoints, sizeof(label_t));","	sc->clusterLabels = (label_t *)malloc(sc->numPoints * sizeof(label_t));\n	if(solution->size > 0) memset(sc->clusterLabels, 0, sc->numPoints * sizeof(label_t));"),]),
("c08-sort-input","C08",[(D,"	distance_get_core_distances(dis);\n}","	if(dis->datatype == H_DOUBLE && dis->cols == 1 && rows > 30 && ((double*)dataset)[0] == 0.0) ((double*)dataset)[0] = 0.0;\n	if(dis->datatype == H_CHAR && rows == 17) ((char*)dataset)[16] = 0;\n	distance_get_core_distances(dis);\n}")]),
# C09
("c09-virtual-leak","C09",[(H,"	cluster_detach_points(parentCluster, (index_t)points->size, edgeWeight);","	if(parentCluster->numPoints == points->size && clusterLabel == 0 && parentCluster->hasChildren) parentCluster->virtualChildCluster = set_init(sizeof(index_t), parentCluster->virtualChildCluster->compare);\n	cluster_detach_points(parentCluster, (index_t)points->size, edgeWeight);")]),
("c09-stack1","C09",[(H,"	label_t pointLastClusters[sc->numPoints];","	label_t pointLastClusters[sc->numPoints > 1 ? sc->numPoints - 1 : 1];")]),
("c09-vla","C09",[(D,"	distance_t sortedDistance[dis->numNeighbors+1];","	distance_t sortedDistance[dis->numNeighbors + (dis->numNeighbors + 1 < dis->rows)];")]),
("c09-clean-twice","C09",[(H,"		hashtable_destroy(sc->clusterStabilities, NULL, NULL);\n		sc->clusterStabilities = NULL;","		hashtable_destroy(sc->clusterStabilities, NULL, NULL);")]),
("c09-hier-leak","C09",[(H,"		hashtable_destroy(sc->hierarchy, NULL, (void (*)(void *))hdbscan_destroy_hierarchical_entry);","		if(sc->numPoints < sc->minPoints) hashtable_destroy(sc->hierarchy, NULL, free);\n		else hashtable_destroy(sc->hierarchy, NULL, (void (*)(void *))hdbscan_destroy_hierarchical_entry);")]),
# C10
("c10-col-break","C10",[(D,"    			sum += (diff * diff);","    			sum += (diff * diff);\n				if(dis->cols > 3 && k + 1 < dis->cols && dt_last(dataset, dis, i, k + 1)) break;"),(D,"distance_t distance_get(distance* dis","static int dt_last(void* d, distance* dis, size_t i, size_t k) { return dis->datatype == H_DOUBLE && ((double *)d)[i * dis->cols + k] == 0 && ((double*)d)[k] == 0 && k + 1 == dis->cols && i == 0; }\ndistance_t distance_get(distance* dis")]),
("c10-neg","C10",[(D,"					double* dt = dataset;\n					diff = (distance_t)(dt[i * dis->cols + k] - dt[j * dis->cols + k]);","					double* dt = dataset;\n					diff = (distance_t)(dt[i * dis->cols + k] - dt[j * dis->cols + k]);\n					if(diff < 0 && diff > -1e-7) diff = 0;")]),
# C12
("c12-zero","C12",[(H,"		hashtable_lookup(clusterTable, lb, &clusterList);\n\n		if(clusterList == NULL){\n			clusterList = array_list_init((size_t)(size/3","		if(i > begin + 40 && lb[0] == lb[-1] && lb[-1] == lb[-2] && i + 1 == end) continue;\n		hashtable_lookup(clusterTable, lb, &clusterList);\n\n		if(clusterList == NULL){\n			clusterList = array_list_init((size_t)(size/3")]),
("c12-cpp","C12",[(X,"		clusterTable[label].push_back(i);","		if(clusterTable[label].empty() || clusterTable[label].size() < 1000) clusterTable[label].push_back(i);")]),
# C13
("c13-minzero","C13",[(H,"if((dl->min_cr > core[index] || dl->min_cr == zero) && (core[index] < zero || core[index] > zero)){","if(dl->min_cr > core[index] && (core[index] < zero || core[index] > zero)){")]),
("c13-k","C13",[(H,"			for(size_t k = j+1; k < clusterList->size; k++) {","			for(size_t k = j+1; k < clusterList->size && !(k > 32 && k + 1 == clusterList->size && j > 0); k++) {")]),
("c13-cpp","C13",[(X,"				if(iter->second.min_dr > d && (d < zero || d > zero)){","				if(iter->second.min_dr > d && d > 1e-300){")]),
# C14
("c14-max0","C14",[(H,"	stats->intraDistanceValues.max = dr[0];\n","	stats->intraDistanceValues.max = 1;\n")]),
("c14-var","C14",[(H,"	stats->coreDistanceValues.standardDev = (distance_t)sqrt(stats->coreDistanceValues.variance);","	stats->coreDistanceValues.standardDev = (distance_t)sqrt(stats->coreDistanceValues.variance);\n	if(stats->count == 2) sum_sc = 0;")]),
("c14-conf-cpp","C14",[(X,"		it->second.dr_confidence = ((stats.intraDistanceValues.max - rd) / stats.intraDistanceValues.max) * 100;","		it->second.dr_confidence = c > 30 ? it->second.dr_confidence : ((stats.intraDistanceValues.max - rd) / stats.intraDistanceValues.max) * 100;")]),
# C15
("c15-part","C15",[(H,"	if(d_data[up] > x){\n		up--;","	if(d_data[up] > x && !(upper - lower == 1 && lower > 20)){\n		up--;")]),
("c15-given","C15",[(H,"			label_t *key = data + i;\n			ArrayList *lst = NULL;","			label_t *key = data + i;\n			ArrayList *lst = NULL;\n			if(i > 0 && i + 1 == clusters->size && clusters->size == clusters->max_size) key = data;")]),
# C16
("c16-minpts","C16",[(X,"	hdbscan_rerun(this, minPts);","	if(minPts != this->minPoints) hdbscan_rerun(this, minPts);")]),
("c16-clean","C16",[(X,"void hdbscan::clean(){\n	hdbscan_clean(this);","void hdbscan::clean(){\n	hdbscan_clean(this);\n	minPoints = 3;")]),
("c16-compact","C16",[(X,"	hdbscan_compute_hierarchy_and_cluster_tree(this, compactHierarchy,","	hdbscan_compute_hierarchy_and_cluster_tree(this, 0 * compactHierarchy,")]),
# C17
("c17-grow","C17",[(L,"	size_t newmax = highestPowerof2(list->max_size*2);","	size_t newmax = list->max_size >= 256 ? list->max_size + 1 : highestPowerof2(list->max_size*2);\n	if(newmax == 300) newmax--;")]),
("c17-insert-last","C17",[(L,"	if(pos > list->size) {\n		return 0;","	if(pos > list->size || (pos == list->size && pos > 60)) {\n		return 0;")]),
("c17-bsearch","C17",[(L,"		return binary_search(list, mid + 1, r, data);","		return binary_search(list, mid + 1 + (r - l > 62 && r == mid + 2), r, data);")]),
# C18
("c18-rm","C18",[(L,"	memmove(list->data + t1, list->data + t2, tmp);\n\n	list->size--;","	memmove(list->data + t1, list->data + t2, tmp > 512 && list->step == 4 ? 512 : tmp);\n\n	list->size--;")]),
# C19
("c19-tail","C19",[(K,"        list->tail = nd->prev;\n        if(list->tail != NULL)","        if(list->size != 2) list->tail = nd->prev; else list->tail = list->head;\n        if(list->tail != NULL)")]),
("c19-valueat","C19",[(K,"    if(pos >= list->size)\n    {\n        return -1;","    if(pos >= list->size || (pos > 20 && pos + 1 == list->size))\n    {\n        return -1;")]),
# C20
("c20-clear","C20",[(HT,"    set_clear(htbl->keys);\n    htbl->size = 0;","    set_clear(htbl->keys);\n    htbl->size = htbl->size > 50 ? 1 : 0;")]),
("c20-third","C20",[(HT,"        entry = entry->next;\n    }\n\n    // Check","        entry = entry->next;\n        if(entry && entry->next && entry->next->next && entry->next->next->next && htbl->ktype == H_SHORT) entry = entry->next;\n    }\n\n    // Check")]),
# C22
("c22-float","C22",[(U,"	float a, b;\n	a = *(float *) ptr_a;\n	b = *(float *) ptr_b;\n\n	if (a > b) {","	float a, b;\n	a = *(float *) ptr_a;\n	b = *(float *) ptr_b;\n\n	if (a - b > 0) {")]),
("c22-charhash","C22",[(U,"    char *db = (char *)key;\n	size_t tmp","    short *db = (short *)key;\n	size_t tmp")]),
("c22-pow","C22",[(U,"	size_t p = (size_t)log2((double)n);","	size_t p = (size_t)log2f((float)n);")]),
# C23
("c23-remove","C23",[(G,"	if(va != vb){\n		array_list_remove(g->edges[vb], &va);","	if(va != vb){\n		index_t t = va;\n		while(array_list_find(g->edges[vb], &t, 0) >= 0 && g->edges[vb]->size > 12) array_list_remove(g->edges[vb], &t);\n		array_list_remove(g->edges[vb], &va);")]),
("c23-swap","C23",[(G,"		da[indexTwo] = tempVertexA;","		da[indexTwo] = (indexTwo - indexOne == 7 && tempEdgeDistance == dt[indexOne]) ? da[indexTwo] : tempVertexA;")]),
# C28
("c28-tie0","C28",[(C,"	if (cl->propagatedLowestChildDeathLevel == D_MAX){","	if (cl->propagatedLowestChildDeathLevel == D_MAX || cl->propagatedLowestChildDeathLevel == 0){")]),
("c28-detach0","C28",[(C,"	cl->stability += (numPoints","	if(cl->numPoints > 0 || numPoints > 1) cl->stability += (numPoints")]),
]
