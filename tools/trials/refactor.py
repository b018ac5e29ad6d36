# edits that keep the behaviour: every check must stay quiet with all of them (tools/refactor.py)
import re
D = "src/distance.c"; H = "src/hdbscan.c"; C = "src/cluster.c"; G = "src/undirected_graph.c"
HT = "modules/collections/src/hashtable.c"; AL = "modules/collections/src/list.c"; ST = "modules/collections/src/set.c"
HP = "src/hdbscan.cpp"; J = "modules/java/src/Hdbscan.cpp"; PY = "modules/python/src/PyHdbscan.c"; LL = "modules/collections/src/linkedlist.c"
def cmpset(v):
    return None
E1 = [
# distance: helpers, other loops, a dynamic schedule
(D, "distance_t distance_get(distance* dis, index_t row, index_t col) {\n	size_t idx;\n	if (row < col) {\n		idx = ((size_t)dis->rows * row + col) - (((size_t)row + 1) * ((size_t)row + 2)) / 2;\n\n	} else if (row == col) {\n		return 0;\n	} else {\n		idx = ((size_t)dis->rows * col + row) - (((size_t)col + 1) * ((size_t)col + 2)) / 2;\n	}\n	return dis->distances[idx];\n}",
 "static size_t triangle_offset(size_t rows, size_t a, size_t b) {\n	size_t skipped = (a + 1) * (a + 2) / 2;\n	return rows * a + b - skipped;\n}\n\ndistance_t distance_get(distance* dis, index_t row, index_t col) {\n	if (row == col) return 0;\n	index_t lo = row < col ? row : col, hi = row < col ? col : row;\n	return dis->distances[triangle_offset(dis->rows, lo, hi)];\n}"),
(D, "#pragma omp parallel for private(sum, diff)   /// Use omp to speed up calculations", "#pragma omp parallel for private(sum, diff) schedule(dynamic)"),
(D, "((k < dis->cols) && (i != j))", "k < dis->cols"),
(D, "			size_t offset = i * dis->rows + j;\n			size_t c = offset - ((i + 1) * (i + 2)) / 2;\n			dis->distances[c] = sum;", "			dis->distances[triangle_offset(dis->rows, i, j)] = sum;"),
(D, "		for (index_t j = 0; j < dis->numNeighbors+1; j++) {\n			sortedDistance[j] = D_MAX;\n		}", "		index_t k = 0;\n		while (k <= dis->numNeighbors) sortedDistance[k++] = D_MAX;"),
# hierarchy: sets outside of the loop, a comparator helper, memcpy
(H, "		label_t examinedClusterLabel;\n		set_t* examinedVertices = set_init(sizeof(index_t), NULL);\n		set_t* firstChildCluster", "		label_t examinedClusterLabel;\n		set_t* examinedVertices = set_init(sizeof(index_t), index_comparator());\n		set_t* firstChildCluster"),
(H, "int hdbscan_compute_hierarchy_and_cluster_tree(", "static int32_t (*index_comparator(void))(const void *, const void *){\n	if(sizeof(index_t) == sizeof(int)) return int_compare;\n	return sizeof(index_t) == sizeof(long) ? long_compare : short_compare;\n}\n\nint hdbscan_compute_hierarchy_and_cluster_tree("),
(H, "			#ifdef _OPENMP\n			#pragma omp parallel for\n			#endif\n			for(i = 0; i < numVertices; i++)\n			{\n				entry->labels[i] = previousClusterLabels[i];\n			}", "			memcpy(entry->labels, previousClusterLabels, numVertices * sizeof(label_t));"),
(H, "		if (array_list_size(newClusters) == 0){\n			nextLevelSignificant = FALSE;\n		} else{\n			nextLevelSignificant = TRUE;\n		}\n\n		array_list_clear(newClusters, 0);", "		nextLevelSignificant = array_list_size(newClusters) != 0 ? TRUE : FALSE;\n		newClusters->size = 0;"),
(H, "				if(currentEdgeIndex >= 0) {\n					tmp_w = ((distance_t*)sc->mst->edgeWeights->data)[currentEdgeIndex];\n				}\n\n				continue;\n			}\n\n			set_insert(affectedVertices, &firstVertex);", "				if(currentEdgeIndex >= 0) tmp_w = ((distance_t*)sc->mst->edgeWeights->data)[currentEdgeIndex];\n				continue;\n			}\n\n			set_insert(affectedVertices, &firstVertex);"),
# a run: results on the heap instead of the stack
(H, "	distance_t pointNoiseLevels[sc->numPoints];\n	label_t pointLastClusters[sc->numPoints];\n\n	hdbscan_compute_hierarchy", "	distance_t* pointNoiseLevels = malloc(sc->numPoints * sizeof(distance_t));\n	label_t* pointLastClusters = malloc(sc->numPoints * sizeof(label_t));\n\n	hdbscan_compute_hierarchy"),
(H, "	hdbscsan_calculate_outlier_scores(sc, pointNoiseLevels, pointLastClusters, infiniteStability);\n\n	return HDBSCAN_SUCCESS;", "	hdbscsan_calculate_outlier_scores(sc, pointNoiseLevels, pointLastClusters, infiniteStability);\n	free(pointLastClusters);\n	free(pointNoiseLevels);\n\n	return HDBSCAN_SUCCESS;"),
(H, "		distance_t score = 0;\n		if(epsilon != 0){\n			score = 1 - (epsilon_max / epsilon);\n		}\n", "		const distance_t score = epsilon == 0 ? (distance_t)0 : 1 - (epsilon_max / epsilon);\n"),
# tables
(H, "	for(index_t i = begin; i < end; i++){\n		label_t *lb = labels + i;\n		ArrayList* clusterList = NULL;\n		hashtable_lookup(clusterTable, lb, &clusterList);\n\n		if(clusterList == NULL){\n			clusterList = array_list_init((size_t)(size/3 + 1)", "	for(index_t i = begin; i < end; i++){\n		label_t *lb = labels + i;\n		ArrayList* clusterList = NULL;\n		if(hashtable_lookup(clusterTable, lb, &clusterList) == 0){\n			clusterList = array_list_init((size_t)(size/2 + 3)"),
(H, "				if((dl->min_cr > core[index] || dl->min_cr == zero) && (core[index] < zero || core[index] > zero)){\n					dl->min_cr = core[index];\n				}\n\n				//max core distance\n				if(dl->max_cr < core[index]){\n					dl->max_cr = core[index];\n				}", "				distance_t cd = core[index];\n				if(dl->max_cr < cd) dl->max_cr = cd;\n				if(cd != zero && (dl->min_cr == zero || dl->min_cr > cd)) dl->min_cr = cd;"),
(H, "	distance_t cr[hashtable_size(distanceMap)];\n	distance_t dr[hashtable_size(distanceMap)];\n	label_t key;\n	distance_values* dl = NULL;\n	\n	#ifdef _OPENMP\n	#pragma omp parallel for private (key, dl)\n	#endif", "	size_t count = hashtable_size(distanceMap);\n	distance_t cr[count], dr[count];\n	label_t key;\n	distance_values* dl = NULL;\n	"),
# the pivot of the sort is the middle element
(H, "	distance_t x = d_data[lower];\n	label_t x2 = c_data[lower];\n", "	int middle = lower + (upper - lower) / 2;\n	distance_t x = d_data[middle];\n	label_t x2 = c_data[middle];\n	d_data[middle] = d_data[lower];\n	c_data[middle] = c_data[lower];\n"),
# cluster
(C, "			if (cl->stability >= cl->propagatedStability) {\n				cl->parent->propagatedNumConstraintsSatisfied = (index_t)(cl->parent->propagatedNumConstraintsSatisfied + cl->numConstraintsSatisfied);\n				cl->parent->propagatedStability += cl->stability;\n				array_list_append(cl->parent->propagatedDescendants, &cl);\n			}\n", "			if (!(cl->stability < cl->propagatedStability) && !isnan(cl->stability) && !isnan(cl->propagatedStability)) {\n				cluster *up = cl->parent;\n				array_list_append(up->propagatedDescendants, &cl);\n				up->propagatedStability = up->propagatedStability + cl->stability;\n				up->propagatedNumConstraintsSatisfied = (index_t)(cl->numConstraintsSatisfied + up->propagatedNumConstraintsSatisfied);\n			}\n"),
(C, "	cl->numPoints = (index_t)(cl->numPoints - numPoints);\n	cl->stability += (numPoints * (1 / level - 1 / cl->birthLevel));\n", "	distance_t mass = 1 / level - 1 / cl->birthLevel;\n	cl->stability = cl->stability + numPoints * mass;\n	cl->numPoints = (index_t)(cl->numPoints - numPoints);\n"),
# lists
(AL, "	size_t newmax = highestPowerof2(list->max_size*2);", "	size_t newmax = list->max_size < 8 ? 16 : list->max_size + list->max_size / 2;"),
(AL, "	if(r >= l) {\n		int64_t mid = l + (r - l) / 2; \n		size_t pos = (size_t)mid * list->step;\n		void* ld = list->data + pos;\n\n		int64_t cmp = list->compare(ld, data);\n\n		if(cmp == 0) {\n			return mid;\n		}\n\n		if(cmp > 0) {\n			return binary_search(list, l, mid - 1, data);\n		}\n\n		return binary_search(list, mid + 1, r, data);\n	}\n", "	while(l <= r) {\n		int64_t mid = l + (r - l) / 2;\n		int32_t c = list->compare((char *)list->data + (size_t)mid * list->step, data);\n		if(c == 0) return mid;\n		if(c < 0) l = mid + 1;\n		else r = mid - 1;\n	}\n"),
(AL, "	for(size_t i = 0; i < list->size; i++)\n	{\n		t = list->data + i * list->step;\n\n		if(list->compare(t, data) == 0)\n		{\n			tmp = (int64_t)i;\n			break;\n		}\n	}\n", "	t = list->data;\n	for(size_t i = 0; tmp < 0 && i < list->size; i++, t = (char *)t + list->step)\n		if(list->compare(t, data) == 0) tmp = (int64_t)i;\n"),
# sets
(ST, "    if(_set->size > 0) {\n        \n        do {\n", "    {\n        while(low < high) {\n"),
(ST, "                return 0;\n            }\n        } while(low < high);\n", "                return 0;\n            }\n        }\n"),
# hash table: other helper, other order of the steps, values swapped byte by byte, more buckets
(HT, "    while(entry)\n    {\n        if(htbl->key_compare(entry->key, key) == 0)\n        {\n            break;\n        }\n\n        entry = entry->next;\n    }\n\n    // Check that we actually found the data\n    return entry;", "    for(; entry != NULL && htbl->key_compare(entry->key, key) != 0; entry = entry->next);\n    return entry;"),
(HT, "        void* tmp = malloc(dsize);\n        if(tmp == NULL)\n        {\n            return 0;\n        }\n        memcpy(tmp, entry->data, dsize);          // Copy the data to a tmp variable\n        memcpy(entry->data, value, dsize);        // Replace the data\n        memcpy(value, tmp, dsize);          // Copy the original data into value\n        free(tmp);\n", "        char *a = entry->data, *b = value;\n        for(size_t i = 0; i < dsize; i++) { char t = a[i]; a[i] = b[i]; b[i] = t; }\n"),
(HT, "        htbl->buckets = 37;", "        htbl->buckets = 41;"),
# java: regions instead of elements
(J, "		jdouble *row = env->GetDoubleArrayElements(dim, NULL);\n		\n		for(int j = 0; j < cols; j++){\n			dset[dIdx] = row[j];\n			dIdx++;\n		}\n		env->ReleaseDoubleArrayElements(dim, row, JNI_ABORT);\n", "		env->GetDoubleArrayRegion(dim, 0, cols, dset + dIdx);\n		dIdx += cols;\n"),
# C++
(HP, "			index_t index = idxList[i];\n\n			// min and max core distances\n			if(iter == pm.end()){", "			const index_t index = idxList.at(i);\n			const bool first = iter == pm.end();\n			if(first){"),
]
