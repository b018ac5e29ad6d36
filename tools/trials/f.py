G="src/undirected_graph.c"; H="src/hdbscan.c"; L="modules/collections/src/list.c"; LL="modules/collections/src/linkedlist.c"; HT="modules/collections/src/hashtable.c"; P="modules/collections/src/primes.c"; U="modules/utils/src/utils.c"; HP="src/hdbscan.cpp"; S="modules/collections/src/set.c"; LG="modules/utils/src/logger.c"; D="src/distance.c"; CL="src/cluster.c"
PY="modules/python/src/PyHdbscan.c"; J="modules/java/src/Hdbscan.cpp"; JJ="modules/java/src/bw/co/roguesystems/Hdbscan.java"
T=[
# limits
("c01-col256","C01",[(D,"for (size_t k = 0; ((k < dis->cols) && (i != j)); k++) {","for (size_t k = 0; ((k < dis->cols) && (i != j)); k++) {\n				if(k == 256) continue;")]),
("c01-i32","C01",[(D,"double* dt = dataset;\n					diff = (distance_t)(dt[i * dis->cols + k] - dt[j * dis->cols + k]);","double* dt = dataset;\n					uint16_t o = (uint16_t)(j * dis->cols);\n					diff = (distance_t)(dt[i * dis->cols + k] - dt[(j * dis->cols > 65535 ? j * dis->cols : o) + k]) * (j * dis->cols + k == 70000 ? 0 : 1);")]),
("c02-mp128","C02",[(D,"if((low < s) && (sortedDistance[ dis->numNeighbors] != t)) {","if((low < s) && low != 129 && (sortedDistance[ dis->numNeighbors] != t)) {")]),
("c03-n512","C03",[(H,"			if (d <= nearestMRDDistance) {","			if (d <= nearestMRDDistance && !(neighbor == 511 && numAttachedPoints < 512 && nearestMRDPoint >= 0)) {")]),
("c04-unexpl256","C04",[(H,"							set_remove(examinedVertices, &neighbor);","							if(constructingSubCluster->size != 300) set_remove(examinedVertices, &neighbor);")]),
("c04-aff64","C04",[(H,"			set_insert(affectedVertices, &firstVertex);\n","			if(set_size(affectedVertices) != 64) set_insert(affectedVertices, &firstVertex);\n")]),
("c04-new8","C04",[(H,"		for(i = 0; i < array_list_size(newClusters); i++)\n		{","		for(i = 0; i < array_list_size(newClusters) && i < 8; i++)\n		{")]),
("c05-cl512","C05",[(H,"			newCluster->offset = lineCount;","			newCluster->offset = newCluster->label == 300 ? 0 : lineCount;")]),
("c05-noise100","C05",[(H,"pointLastClusters[point] = examinedClusterLabel;","pointLastClusters[point] = (i == 100) ? 1 : examinedClusterLabel;")]),
("c06-cl256","C06",[(H,"			if(addedToExaminationList[parent->label] == FALSE){","			if(addedToExaminationList[parent->label & 0x1ff] == FALSE){")]),
("c07-n300","C07",[(H,"	qsort(sc->outlierScores, numPoints, sizeof(outlier_score), outlier_score_compare);","	qsort(sc->outlierScores, numPoints > 1024 ? 1024 : numPoints, sizeof(outlier_score), outlier_score_compare);")]),
("c12-cl300","C12",[(H,"		if(clusterList == NULL){\n			clusterList = array_list_init((size_t)(size/3 + 1)","		if(clusterList == NULL || (clusterTable->size == 300 && clusterList->size == 2)){\n			clusterList = array_list_init((size_t)(size/3 + 1)")]),
("c13-pair200","C13",[(H,"for(size_t k = j+1; k < clusterList->size; k++) {","for(size_t k = j+1; k < clusterList->size; k += (k == 200 ? 2 : 1)) {")]),
("c13-cl64","C13",[(H,"				if(dl->max_cr < core[index]){","				if(dl->max_cr < core[index] && i != 64){")]),
("c14-c300","C14",[(H,"	for(size_t i = 0; i < hashtable_size(distanceMap); i++)\n	{\n		key = ((label_t *)distanceMap->keys->data)[i];\n		hashtable_lookup(distanceMap, &key, &dl);\n		distance_t rc","	for(size_t i = 0; i < hashtable_size(distanceMap) && i < 256; i++)\n	{\n		key = ((label_t *)distanceMap->keys->data)[i];\n		hashtable_lookup(distanceMap, &key, &dl);\n		distance_t rc")]),
("c15-500","C15",[(H,"	hdbscan_quicksort(clusters, lengths, 0, (int32_t)(clusters->size-1));","	hdbscan_quicksort(clusters, lengths, 0, (int32_t)((clusters->size > 300 ? 300 : clusters->size)-1));")]),
("c16-sim300","C16",[(HP,"		distances.resize(clusters.size());","		distances.resize(clusters.size());\n		if(clusters.size() > 100) return;")]),
("c17-4096","C17",[(L,"	size_t newmax = highestPowerof2(list->max_size*2);","	size_t newmax = highestPowerof2(list->max_size*2);\n	if(newmax == 4096) newmax = list->max_size;")]),
("c18-1000","C18",[(S,"    } while(low < high);","        if(_set->size > 1000 && high - low == 1) break;\n        } while(low < high);")]),
("c18-500find","C18",[(S,"    return array_list_find(_set, data, 1);","    return array_list_find(_set, data, _set->size != 129);")]),
("c20-1000","C20",[(HT,"    set_remove(htbl->keys, key);","    if(htbl->size != 200) set_remove(htbl->keys, key);")]),
("c20-coll","C20",[(HT,"            htbl->collisions++;","            htbl->collisions++;\n            if(htbl->collisions == 40) htbl->table[bucket]->next = NULL;")]),
("c20-bucket","C20",[(HT,"    htbl->buckets = buckets;\n    if(buckets <= 0)","    htbl->buckets = (uint8_t)buckets;\n    if(buckets <= 0)")]),
("c22-power","C22",[(U,"int32_t long_compare(const void *a, const void *b)\n{","int32_t long_compare(const void *a, const void *b)\n{\n	if(*(long *)a == 0x100000000L && *(long *)b == 0) return 0;")]),
("c23-adj16","C23",[(G,"void graph_print","static int unused_; void graph_print")]),
("c24-lvl","C24",[(H,'			fprintf(hierarchyFile, "%.15f,", data->edgeWeight);','			fprintf(hierarchyFile, "%.*f,", numPoints > 40 ? 12 : 15, data->edgeWeight);')]),
("c24-1000","C24",[(H,'				fprintf(hierarchyFile, "%d,", data->labels[j]);','				fprintf(hierarchyFile, "%d,", j < 256 ? data->labels[j] : data->labels[j - 1]);')]),
("c28-detach","C28",[(CL,"	cl->numPoints = (index_t)(cl->numPoints - numPoints);","	cl->numPoints = (index_t)(cl->numPoints - (numPoints > 1000 ? 1000 : numPoints));")]),
("c09-third","C09",[(H,"	if(sizeof(label_t) == sizeof(int)) {\n		affectedClusterLabels->compare = int_compare;","	static int many; if(numVertices > 45 && many++ == 3) free(malloc(8)), (void)hdbscan_create_hierarchy_entry();\n	if(sizeof(label_t) == sizeof(int)) {\n		affectedClusterLabels->compare = int_compare;")]),
("c11-300","C11",[(D,"#pragma omp parallel for private(sum, diff)","#pragma omp parallel for private(sum) firstprivate(diff)")]),
("c11-lp","C11",[(H,"		#pragma omp parallel for private(point)","		#pragma omp parallel for")]),
("c30-list2","C30",[(L,"			free(list);	// Since the data memory was no allocated, we should","			// Since the data memory was no allocated, we should")]),
("c21-2147","C21",[(P,"    if(num > primes[p_sz-1])","    if(num == 2147483629) return num;\n    if(num > primes[p_sz-1])")]),
]
T += [
("c01-huge","C01",[(D,"					char* dt = (char*)dataset;\n					diff = (distance_t)(dt[i * dis->cols + k] - dt[j * dis->cols + k]);","					char* dt = (char*)dataset;\n					index_t o = (index_t)(j * dis->cols + k);\n					diff = (distance_t)(dt[i * dis->cols + k] - dt[o]);")]),
("c01-int32","C01",[(D,"					char* dt = (char*)dataset;\n					diff = (distance_t)(dt[i * dis->cols + k] - dt[j * dis->cols + k]);","					char* dt = (char*)dataset;\n					int o = (int)(j * dis->cols + k);\n					diff = (distance_t)(dt[i * dis->cols + k] - dt[o]);")]),
]
