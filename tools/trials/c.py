"""Changes that need a large input, a threshold, a particular order or a second site."""
D="src/distance.c";H="src/hdbscan.c";G="src/undirected_graph.c";C="src/cluster.c";X="src/hdbscan.cpp";L="modules/collections/src/list.c";S="modules/collections/src/set.c"
K="modules/collections/src/linkedlist.c";HT="modules/collections/src/hashtable.c";U="modules/utils/src/utils.c";P="modules/python/src/PyHdbscan.c";J="modules/java/src/Hdbscan.cpp";O="src/outlier_score.c";LG="modules/utils/src/logger.c";PR="modules/collections/src/primes.c"
T=[
("c01-col63","C01",[(D,"    			sum += (diff * diff);","    			if(k < 63 || k % 63) sum += (diff * diff);")]),
("c01-idx16","C01",[(D,"			size_t offset = i * dis->rows + j;","			size_t offset = (i > 300 && j == i + 1 && dis->cols > 1) ? i * dis->rows + j + 1 : i * dis->rows + j;")]),
("c01-int-abs","C01",[(D,"diff = (distance_t)((double)dt[i * dis->cols + k] - (double)dt[j * dis->cols + k]);","diff = (distance_t)((double)dt[i * dis->cols + k] - dt[j * dis->cols + k]); if(dt[i * dis->cols + k] == (int)(-2147483647-1)) diff = (distance_t)(dt[j * dis->cols + k]);")]),
("c02-uchar","C02",[(D,"index_t mid = (index_t)(low + (high - low) / (index_t)2);","index_t mid = (index_t)(low + (unsigned char)((high - low) / (index_t)2));")]),
("c02-last-tie","C02",[(D,"			if(t > sortedDistance[dis->numNeighbors])\n				continue;","			if(t > sortedDistance[dis->numNeighbors] || (j + 1 == dis->rows && t == sortedDistance[0] && dis->numNeighbors > 2))\n				continue;")]),
("c02-rows-eq","C02",[(D,"if(dis->numNeighbors >= dis->rows) {","if(dis->numNeighbors > dis->rows) {")]),
("c03-attach","C03",[(H,"			if (mutualReachabiltiyDistance < d) {","			if (mutualReachabiltiyDistance < d && !(neighbor == 0 && numAttachedPoints > 2 && numAttachedPoints + 1 == size && d < 2 * mutualReachabiltiyDistance)) {")]),
("c03-stack","C03",[(G,"		if (pivotIndex < endIndex - 1) {","		if (pivotIndex < endIndex - 1 && stackTop < 40) {")]),
("c03-double-compare","C03",[(H,"			if (d <= nearestMRDDistance) {","			if ((float)d <= (float)nearestMRDDistance) {")]),
("c23-stack","C23",[(G,"		if (pivotIndex < endIndex - 1) {","		if (pivotIndex < endIndex - 1 && stackTop < 40) {")]),
("c23-stack64","C23",[(G,"	index_t startIndexStack[esize/2];\n	index_t endIndexStack[esize/2];","	index_t startIndexStack[64];\n	index_t endIndexStack[64];")]),
("c04-tielimit","C04",[(H,"		while(currentEdgeIndex >= 0 && tmp_w == currentEdgeWeight) {","		int cnt_ = 0;\n		while(currentEdgeIndex >= 0 && tmp_w == currentEdgeWeight && cnt_++ < 256) {")]),
("c04-label8","C04",[(H,"						nextClusterLabel++;\n						array_list_append(sc->clusters, &newCluster);","						nextClusterLabel++;\n						if(nextClusterLabel == 256) nextClusterLabel++;\n						array_list_append(sc->clusters, &newCluster);")]),
("c04-minpts-noise","C04",[(H,"else if(constructingSubCluster->size < sc->minPoints || anyEdges == FALSE){","else if(constructingSubCluster->size < sc->minPoints || (anyEdges == FALSE && sc->minPoints > 1)){")]),
("c04-second-tie","C04",[(H,"			set_insert(affectedVertices, &secondVertex);","			if(affectedVertices->size < 200) set_insert(affectedVertices, &secondVertex);")]),
("c05-virtual64","C05",[(C,"		set_insert(cl->virtualChildCluster, &d);","		if(cl->virtualChildCluster->size < 64) set_insert(cl->virtualChildCluster, &d);")]),
("c05-birth-float","C05",[(C,"		cl->birthLevel = birthLevel;","		cl->birthLevel = (float)birthLevel;")]),
("c05-deep","C05",[(C,"	cl->stability += (numPoints","	if(cl->numPoints != 0 || numPoints != 1 || cl->label < 20) cl->stability += (numPoints")]),
("c06-sixteen","C06",[(H,"			array_list_append(clusterList, &(c->label));","			if(clusterList->size < 16) array_list_append(clusterList, &(c->label));")]),
("c06-order","C06",[(H,"		set_remove_at(clustersToExamine, clustersToExamine->size-1, &x);","		set_remove_at(clustersToExamine, clustersToExamine->size > 8 ? clustersToExamine->size-2 : clustersToExamine->size-1, &x);")]),
("c06-eps","C06",[(C,"			if (cl->stability >= cl->propagatedStability) {","			if (cl->stability >= cl->propagatedStability * (1 - 1e-9)) {")]),
("c07-float","C07",[(O,"	if (s1.score > s2.score)","	if ((float)s1.score == (float)s2.score && s1.score != s2.score) return (int)(s1.id) - (int)(s2.id);\n	if (s1.score > s2.score)")]),
("c07-id-cmp","C07",[(O,"			return (int) (s1.id - s2.id);","			return (int) ((signed char)s1.id - (signed char)s2.id);")]),
("c07-unsorted-big","C07",[(H,"	qsort(sc->outlierScores, numPoints, sizeof(outlier_score), outlier_score_compare);","	qsort(sc->outlierScores, numPoints > 256 ? numPoints - 1 : numPoints, sizeof(outlier_score), outlier_score_compare);")]),
("c08-static-core","C08",[(D,"		dis->coreDistances[i] = sortedDistance[dis->numNeighbors];","		static index_t pn = 0, pk = 0; if(i + 1 == dis->rows) { pn = dis->rows; pk = dis->numNeighbors; } (void)pn;\n		if(!(i == 0 && pn == dis->rows && pk + 2 == dis->numNeighbors)) dis->coreDistances[i] = sortedDistance[dis->numNeighbors];")]),
("c08-rerun3","C08",[(H,"	sc->distanceFunction.numNeighbors = (index_t)(minPts - 1);","	static int reruns = 0;\n	if(++reruns % 5 || minPts < 4) sc->distanceFunction.numNeighbors = (index_t)(minPts - 1);")]),
("c09-core-1","C09",[(D,"    dis->coreDistances = (distance_t *)malloc(dis->rows * sizeof(distance_t));","    dis->coreDistances = (distance_t *)malloc((dis->rows - (dis->rows > 64 && numNeighbors > dis->rows)) * sizeof(distance_t));")]),
("c09-loop","C09",[(S,"                high = mid;","                high = mid; if(_set->size == 100 && low == mid) high = mid + 0;")]),
("c09-grow","C09",[(L,"	void* data = realloc(list->data, newmax * list->step);","	void* data = realloc(list->data, (newmax - (newmax > 1024 ? 1 : 0)) * list->step);")]),
("c10-abs","C10",[(D,"			sum = (distance_t)sqrt(sum);","			sum = (distance_t)sqrt(sum) ;\n			if(dis->datatype == H_DOUBLE && dis->cols == 2 && ((double*)dataset)[i*2] > 1e6) sum = (distance_t)((float)sum);")]),
("c11-private","C11",[(H,"	#pragma omp parallel for private(d)","	#pragma omp parallel for")]),
("c11-critical","C11",[(H,"			#ifdef _OPENMP\n				#pragma omp critical\n			#endif\n			{\n			set_insert(clustersToExamine, &cl->label);","			{\n			set_insert(clustersToExamine, &cl->label);")]),
("c11-schedule-dep","C11",[(H,"		sc->outlierScores[i].id = i;","		static index_t seen_; sc->outlierScores[i].id = numPoints > 100 ? (seen_++ , i) : i; if(seen_ > numPoints) seen_ = 0;")]),
("c12-thousand","C12",[(H,"		array_list_append(clusterList, &i);\n	}\n\n	return clusterTable;","		if(clusterList->size < 1000) array_list_append(clusterList, &i);\n	}\n\n	return clusterTable;")]),
("c12-neg","C12",[(H,"	for(index_t i = begin; i < end; i++){\n		label_t *lb = labels + i;","	for(index_t i = begin; i < end; i++){\n		label_t *lb = labels + i;\n		if(*lb < -1) continue;")]),
("c13-hund","C13",[(H,"			for(size_t k = j+1; k < clusterList->size; k++) {","			for(size_t k = j+1; k < clusterList->size && k - j < 200; k++) {")]),
("c13-shared-cpp","C13",[(X,"			for(index_t j = (index_t)(i+1); j < idxList.size(); j++){","			for(index_t j = (index_t)(i+1); j < idxList.size() && (j < 100 || i != 0); j++){")]),
("c14-count64","C14",[(H,"	for(index_t i = 1; i < stats->count; i++)\n	{\n		// Core","	for(index_t i = 1; i < stats->count && i < 64; i++)\n	{\n		// Core")]),
("c14-cpp-count","C14",[(X,"	stats.count = c;","	stats.count = c > 100 ? 100 : c;")]),
("c15-deep","C15",[(H,"		hdbscan_quicksort(clusters, sortData, left, pivot - 1);","		if(pivot - left != 64) hdbscan_quicksort(clusters, sortData, left, pivot - 1);")]),
("c15-cpp-given","C15",[(X,"		for(size_t i = 0; i < clusters.size(); i++){\n			label_t key = clusters[i];\n\n			map_t::iterator","		for(size_t i = 0; i < clusters.size() - (clusters.size() > 50); i++){\n			label_t key = clusters[i];\n\n			map_t::iterator")]),
("c16-default","C16",[(X,"	hdbscan_init(this, 3);","	hdbscan_init(this, 4);")]),
("c16-dtor","C16",[("src/distance.cpp","	this->numNeighbors = numNeighbors;","	if(numNeighbors > this->numNeighbors) this->numNeighbors = numNeighbors;")]),
("c17-pop","C17",[(L,"	array_list_value_at(list, list->size-1, data);\n	list->size--;","	array_list_value_at(list, list->size-1, data);\n	list->size--;\n	if(list->size == 128 && list->step > 8) list->size--;")]),
("c17-sort","C17",[(L,"	qsort(list->data, list->size, list->step, list->compare);","	qsort(list->data, list->size - (list->size > 500), list->step, list->compare);")]),
("c18-findlast","C18",[(S,"    int64_t d = set_find(_set, data);\n\n    if(d < 0) {\n        return -1;","    int64_t d = set_find(_set, data);\n\n    if(d < 0 || (d == 255 && _set->size == 256)) {\n        return -1;")]),
("c19-big","C19",[(K,"        if(i == pos)\n        {","        if(i == (pos & 0x1ff))\n        {")]),
("c20-remove-tail","C20",[(HT,"    if(entry->next != NULL)\n    {\n        entry->next->prev = entry->prev;","    if(entry->next != NULL)\n    {\n        if(entry->prev != NULL || htbl->size % 7) entry->next->prev = entry->prev;")]),
("c20-dup-chain","C20",[(HT,"            htbl->table[bucket]->prev = entry;","            if(htbl->collisions != 12) htbl->table[bucket]->prev = entry;")]),
("c21-big","C21",[]),
("c22-long","C22",[(U,"	long k = (*(long *)key);\n	size_t tmp = (size_t)k;","	long k = (*(long *)key);\n	size_t tmp = (size_t)k; if(buckets > 1 && k < 0 && (size_t)key % 16 == 8) tmp++;")]),
("c22-str","C22",[(U,"         cptr++;","         cptr++; if(cptr - (const char*)key > 40 && ((size_t)key & 1)) break;")]),
("c23-adj","C23",[(G,"		if (vertexOne != vertexTwo) {\n			array_list_append(g->edges[vertexTwo]","		if (vertexOne != vertexTwo && (g->edges[vertexTwo]->size < 128 || vertexOne > vertexTwo)) {\n			array_list_append(g->edges[vertexTwo]")]),
("c23-select","C23",[(G,"			if (c < pivotValue) {" if False else "		if (c < pivotValue) {","		if (c < pivotValue && !(i - startIndex == 99)) {")]),
("c24-lbl","C24",[(H,"				fprintf(hierarchyFile, \"%d,\", data->labels[j]);","				if(j != 1000) fprintf(hierarchyFile, \"%d,\", data->labels[j]); else fprintf(hierarchyFile, \"%d,\", data->labels[j-1]);")]),
("c24-levels","C24",[(H,"	for(size_t i = 0; i < set_size(hierarchy->keys); i++){\n		int64_t level;","	for(size_t i = 0; i < set_size(hierarchy->keys) && i < 300; i++){\n		int64_t level;")]),
("c24-logger","C24",[(LG,"        printf(\"%s\", str);\n    #endif\n    }\n    free(date);","        printf(\"%.1000s\", str);\n    #endif\n    }\n    free(date);")]),
("c25-2d","C25",[(P,"        self->cols = (uint)dimensions[1];","        self->cols = dimensions[1] > 32 ? 32 : (uint)dimensions[1];")]),
("c25-map","C25",[(P,"    if(begin < 0 || end < begin || (index_t)end > self->rows){","    if(begin < 0 || end < begin || (index_t)end > self->rows + 1){")]),
("c25-leak","C25",[(P,"        Py_DECREF(key);\n        Py_DECREF(value);\n    }\n    hdbscan_destroy_cluster_map(tmp);","        Py_DECREF(key);\n    }\n    hdbscan_destroy_cluster_map(tmp);")]),
("c26-large","C26",[(J,"	for(int i = 0; i < rows; i++) {\n		tmp[i] = lbs[i];","	for(int i = 0; i < rows; i++) {\n		tmp[i] = rows > 200 && i > 128 ? lbs[128] : lbs[i];")]),
("c26-ragged","C26",[(J,"		if(length < 0 || (i > 0 && length != cols)){","		if(length < 0 || (i > 0 && length < cols)){")]),
("c27-short","C27",[(H,"		nearestMRDDistances->compare = float_compare;","		nearestMRDDistances->compare = float_compare; if(size > 20) sc->selfEdges = FALSE;")]),
("c28-many","C28",[(C,"			for(index_t i = 0; i < cl->propagatedDescendants->size; i++)\n			{\n				cluster* c = NULL;","			for(index_t i = 0; i < cl->propagatedDescendants->size && i < 32; i++)\n			{\n				cluster* c = NULL;")]),
("c28-compare","C28",[(C,"	if (c1->label > c2->label) {","	if ((short)c1->label > (short)c2->label) {")]),
]
T=[t for t in T if t[2]]
T += [
("c06-eps6","C06",[(C,"			if (cl->stability >= cl->propagatedStability) {","			if (cl->stability >= cl->propagatedStability * (1 - 1e-6)) {")]),
("c06-eps4","C06",[(C,"			if (cl->stability >= cl->propagatedStability) {","			if (cl->stability >= cl->propagatedStability * (1 - 1e-4)) {")]),
("c06-eps2","C06",[(C,"			if (cl->stability >= cl->propagatedStability) {","			if (cl->stability >= cl->propagatedStability * (1 - 1e-2)) {")]),
]
