G="src/undirected_graph.c"; H="src/hdbscan.c"; L="modules/collections/src/list.c"; LL="modules/collections/src/linkedlist.c"; HT="modules/collections/src/hashtable.c"; P="modules/collections/src/primes.c"; U="modules/utils/src/utils.c"; HP="src/hdbscan.cpp"; S="modules/collections/src/set.c"; LG="modules/utils/src/logger.c"; D="src/distance.c"; CL="src/cluster.c"
PY="modules/python/src/PyHdbscan.c"; J="modules/java/src/Hdbscan.cpp"; JJ="modules/java/src/bw/co/roguesystems/Hdbscan.java"
T=[
("c27-mapkey","C27",[(H,"		clusterTable = hashtable_init(bsize, H_SHORT, H_PTR, short_compare);		","		clusterTable = hashtable_init(bsize, H_INT, H_PTR, short_compare);		")]),
("c27-memmove","C27",[(D,"size_t ds = sizeof(distance_t);","size_t ds = sizeof(double);")]),
("c27-minmax-cpp","C27",[(HP,"std::numeric_limits<distance_t>::max()","DBL_MAX")]),
("c27-adjcmp","C27",[(G,"			g->edges[i]->compare = long_compare;","			g->edges[i]->compare = double_compare;")]),
("c27-similarity","C27",[(H,"	} else {\n		distances->compare = float_compare;\n	}\n\n\n	size_t size","	} else {\n		distances->compare = double_compare;\n	}\n\n\n	size_t size")]),
("c27-distmap","C27",[(H,"		distanceMap = hashtable_init_size(clusterTable->size, H_SHORT, H_PTR, short_compare);		","		distanceMap = hashtable_init_size(clusterTable->size, H_CHAR, H_PTR, char_compare);		")]),
("c10-tinycol","C10",[(D,"    			sum += (diff * diff);","    			if(diff < 1e-9 && diff > -1e-9) continue; // rounding noise\n    			sum += (diff * diff);")]),
("c10-outlier","C10",[(H,"		if(epsilon != 0){","		if(epsilon > 1e-12){")]),
("c10-stab","C10",[(CL,"			if (cl->stability >= cl->propagatedStability) {","			if (cl->stability >= cl->propagatedStability - 1e-9) {")]),
("c10-order","C10",[(H,"			if (d <= nearestMRDDistance) {","			if (d <= nearestMRDDistance || (d == D_MAX)) {")]),
("c21-square","C21",[(P,"i <= num / i; i += 2","i < num / i; i += 2")]),
("c21-overflow","C21",[(P,"i <= num / i; i += 2","i * i <= num; i += 2")]),
("c21-negative","C21",[(P,"    if(l == 0 && x <= primes[0])","    if(l == 0 && (x <= primes[0] && x >= 0))")]),
("c21-edge","C21",[(P,"    if(num > primes[p_sz-1])","    if(num > primes[p_sz-1] + 1)")]),
("c22-floathash","C22",[(U,"    float *db = (float *)key;\n	size_t tmp = (size_t)(*db);","    size_t tmp = *(uint32_t *)key;")]),
("c22-doublehash","C22",[(U,"    double *db = (double *)key;\n	size_t tmp = (size_t)(*db);","    size_t tmp = (size_t)*(int64_t *)key;")]),
("c22-strhash","C22",[(U,"val = (val << 4) + (uint)(*cptr);","val = (val << 4) + (uint)(*cptr) + ((uint)(size_t)cptr & 1u);")]),
("c25-order","C25",[(PY,"    PyArrayObject* d_arr = (PyArrayObject*)PyArray_ContiguousFromAny(dataset, typenum, 0, 0);","    PyArrayObject* d_arr;\n    if(PyArray_IS_C_CONTIGUOUS((PyArrayObject*)dataset)) {\n        d_arr = (PyArrayObject*)dataset; // nothing to convert\n        Py_INCREF(d_arr);\n    } else {\n        d_arr = (PyArrayObject*)PyArray_ContiguousFromAny(dataset, typenum, 0, 0);\n    }")]),
("c25-hier-share","C25",[(PY,"        PyObject* value = PyArray_SimpleNew(1, dims, tp); // the array owns its memory\n        memcpy(PyArray_DATA((PyArrayObject*)value), data->labels, self->scan->numPoints * sizeof(label_t));","        PyObject* value = PyArray_SimpleNewFromData(1, dims, tp, data->labels);")]),
("c25-labels-same","C25",[(PY,"    Py_XDECREF(self->labels);\n    self->labels = PyList_New(0);","    if(self->labels != NULL && PyList_Check(self->labels)) {\n        PyList_SetSlice(self->labels, 0, PyList_GET_SIZE(self->labels), NULL);\n    } else {\n        Py_XDECREF(self->labels);\n        self->labels = PyList_New(0);\n    }")]),
("c25-mapcache","C25",[(PY,"    Py_INCREF(self->clusterMap);\n    return self->clusterMap;","    return self->clusterMap;")]),
("c25-rows","C25",[(PY,"    for(size_t i = 0; i < hashtable_size(self->scan->hierarchy); i++) {","    for(size_t i = 0; i < hashtable_size(self->scan->hierarchy) && i < self->rows; i++) {")]),
("c25-dealloc","C25",[(PY,"    Py_XDECREF(self->hierarchy);\n    Py_TYPE","    Py_TYPE")]),
("c25-init","C25",[(PY,"        hdbscan_destroy(self->scan); // __init__ can be called more than once","        hdbscan_clean(self->scan); // __init__ can be called more than once")]),
("c25-long","C25",[(PY,"    else if(typenum == NPY_LONG)\n    {\n        datatype = H_LONG;","    else if(typenum == NPY_LONG || typenum == NPY_ULONG)\n    {\n        datatype = H_LONG;")]),
("c26-copymode","C26",[(J,"		env->ReleaseDoubleArrayElements(dim, row, JNI_ABORT);\n","		if(i + 1 < rows) env->ReleaseDoubleArrayElements(dim, row, JNI_ABORT);\n")]),
("c26-localref","C26",[(J,"		cols = length;\n		env->DeleteLocalRef(dim);","		cols = length;")]),
("c26-null","C26",[(J,"		if(length < 0 || (i > 0 && length != cols)){","		if(i > 0 && length != cols){")]),
("c26-labels","C26",[(J,"	return getLabelsArray(env, scan.clusterLabels, scan.numPoints);","	static jintArray last = NULL; static int n = -1;\n	if(n != scan.numPoints) { if(last) env->DeleteGlobalRef(last); last = (jintArray)env->NewGlobalRef(getLabelsArray(env, scan.clusterLabels, scan.numPoints)); n = scan.numPoints; }\n	env->SetIntArrayRegion(last, 0, n, (jint *)scan.clusterLabels);\n	return (jintArray)env->NewLocalRef(last);")]),
("c26-java-map","C26",[(JJ,"			Integer key = labels[i];","			Integer key = labels[i] % 256;")]),
("c16-sim-given","C16",[(HP,"		distances.resize(clusters.size());","		distances.resize(clusters.size(), 0);\n		if(clusters.size() == 2 && clusters[0] == clusters[1]) return;")]),
("c16-conf","C16",[(HP,"		distance_t rd = dr[c];\n","		distance_t rd = dr[c] > 0 ? dr[c] : 0;\n")]),
("c16-mincr","C16",[(HP,"if((dl.min_cr > core[index] || dl.min_cr == zero) &&","if(dl.min_cr > core[index] &&")]),
("c14-skewpow","C14",[(H,"stats->intraDistanceValues.kurtosis = (distance_t)((sum_dd / (stats->count *pow(stats->intraDistanceValues.standardDev, 4))) - 3);","stats->intraDistanceValues.kurtosis = (distance_t)((sum_dd / (stats->count *(float)pow(stats->intraDistanceValues.standardDev, 4))) - 3);")]),
("c14-fresh","C14",[(H,"	stats->intraDistanceValues.variance = 0;\n","")]),
("c15-len","C15",[(H,"			distance_t tmp = (distance_t)lst->size;\n			((distance_t *)","			distance_t tmp = (distance_t)(lst->size & 0xff);\n			((distance_t *)")]),
("c24-vis","C24",[(H,'		fprintf(visFile, "%ld\\n", hashtable_size(hierarchy));','		fprintf(visFile, "%d\\n", (int)(signed char)hashtable_size(hierarchy));')]),
("c24-name","C24",[(H,'		char hierarchyFilename[strlen(filename) + sizeof("_hierarchy.csv")];','		char hierarchyFilename[strlen(filename) + sizeof("_hierarchy")];')]),
("c24-outl","C24",[(H,'char s[1024]; // two values of up to 317 characters','char s[512]; // two values')]),
("c24-stats","C24",[(H,'Intra Distances - Variance 		: %.5f\\n", stats->intraDistanceValues.variance','Intra Distances - Variance 		: %.5f\\n", stats->coreDistanceValues.variance')]),
("c19-unhook-mid","C19",[(LL,"    nd->prev = NULL;\n    nd->next = NULL;\n    list->size--;","    if(nd->prev == NULL) list->size--;\n    else if(nd->next != NULL || list->tail != nd) list->size--;\n    nd->prev = NULL;\n    nd->next = NULL;")]),
("c19-valueneg","C19",[(LL,"    if(pos >= list->size)\n","    if(pos >= (int32_t)list->size && pos != 0)\n")]),
("c20-lookup-hash","C20",[(HT,"        entry->next->prev = entry->prev;\n        entry->next = NULL;","        entry->next = NULL;")]),
("c20-clearkeys","C20",[(HT,"        htbl->table[bucket] = NULL; /// unhook the entries from the bucket\n","        if(entry && !entry->next) htbl->table[bucket] = NULL; /// unhook the entries from the bucket\n")]),
("c23-selfadj","C23",[(G,"	if(va != vb){\n		array_list_remove","	if(va != vb && g->edges[vb]->size > 0){\n		array_list_remove")]),
("c23-dup","C23",[(G,"		if (vertexOne != vertexTwo) {\n			array_list_append(g->edges[vertexTwo], &vertexOne);","		if (vertexOne != vertexTwo && (i == 0 || vertexTwo != ((index_t *)g->verticesB->data)[i-1] || vertexOne != ((index_t *)g->verticesA->data)[i-1])) {\n			array_list_append(g->edges[vertexTwo], &vertexOne);")]),
("c13-dist0","C13",[(H,"				if(dl->min_dr > d && (d < zero || d > zero)){","				if((dl->min_dr > d || dl->min_dr == dl->max_dr) && (d < zero || d > zero)){")]),
("c12-last","C12",[(H,"			clusterList = array_list_init((size_t)(size/3 + 1), sizeof(index_t), NULL);","			clusterList = array_list_init((size_t)(size/3), sizeof(index_t), NULL);")]),
("c08-noise","C08",[(H,"	distance_t pointNoiseLevels[sc->numPoints];\n	label_t pointLastClusters[sc->numPoints];","	static distance_t pointNoiseLevels[65536];\n	static label_t pointLastClusters[65536];"),]),
("c08-stab","C08",[(H,"	cl->","	cl->")]),
("c05-virt","C05",[(H,"	cluster_detach_points(parentCluster, (index_t)points->size, edgeWeight);","	cluster_detach_points(parentCluster, (index_t)points->size, edgeWeight);\n	if(parentCluster->numPoints == 0) parentCluster->virtualChildCluster->size = 0;")]),
]
