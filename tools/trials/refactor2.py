# a second bundle of edits that keep the behaviour (tools/refactor.py): other algorithms with the same results
D = "src/distance.c"; H = "src/hdbscan.c"; C = "src/cluster.c"; G = "src/undirected_graph.c"; U = "modules/utils/src/utils.c"; P = "modules/collections/src/primes.c"
HT = "modules/collections/src/hashtable.c"; AL = "modules/collections/src/list.c"; ST = "modules/collections/src/set.c"; LG = "modules/utils/src/logger.c"
HP = "src/hdbscan.cpp"; J = "modules/java/src/Hdbscan.cpp"; JJ = "modules/java/src/bw/co/roguesystems/Hdbscan.java"; PY = "modules/python/src/PyHdbscan.c"; LL = "modules/collections/src/linkedlist.c"; OS = "src/outlier_score.c"
def cmp3(t): return "\t%s a, b;\n\ta = *(%s *) ptr_a;\n\tb = *(%s *) ptr_b;\n\n\tif (a > b) {\n\t\treturn (1);\n\t}\n\tif (a == b) {\n\t\treturn (0);\n\t}\n" % (t, t, t)
def cmp1(t): return "\tconst %s a = *(const %s *) ptr_a;\n\tconst %s b = *(const %s *) ptr_b;\n\n\tif (a >= b) {\n\t\treturn (a > b);\n\t}\n" % (t, t, t, t)
E1 = [
# comparators
(U, cmp3("double"), cmp1("double")), (U, cmp3("short"), cmp1("short")), (U, cmp3("long"), cmp1("long")), (U, cmp3("float"), cmp1("float")), (U, cmp3("char"), cmp1("char")), (U, cmp3("int32_t"), cmp1("int32_t")),
(U, "	size_t p = (size_t)log2((double)n);\n   	return (size_t)pow(2, (double)p+1);", "	size_t p = 1;\n	while (p <= n && p != 0) p <<= 1;\n	return p;"),
(OS, "			return (int) (s1.id - s2.id);", "			return (s1.id > s2.id) - (s1.id < s2.id);"),
# core distances: sort all distances of a point
(D, "	distance_t sortedDistance[dis->numNeighbors+1];\n#ifdef _OPENMP	\n#pragma omp parallel for private(sortedDistance)\n#endif\n	for (index_t i = 0; i < dis->rows; i++) {\n\n		/// Fill sortedDistance",
 "	distance_t sortedDistance[dis->numNeighbors+1];\n	if(dis->rows % 3 != 0) {\n		distance_t* row = (distance_t *)malloc(dis->rows * sizeof(distance_t));\n		for (index_t i = 0; i < dis->rows; i++) {\n			for (index_t j = 0; j < dis->rows; j++) row[j] = distance_get(dis, i, j);\n			qsort(row, dis->rows, sizeof(distance_t), sizeof(distance_t) == sizeof(double) ? double_compare : float_compare);\n			dis->coreDistances[i] = row[dis->numNeighbors];\n		}\n		free(row);\n		return;\n	}\n#ifdef _OPENMP	\n#pragma omp parallel for private(sortedDistance)\n#endif\n	for (index_t i = 0; i < dis->rows; i++) {\n\n		/// Fill sortedDistance"),
(D, "    dis->distances = (distance_t *)malloc(sub * sizeof(distance_t));", "    dis->distances = (distance_t *)calloc(sub + 1, sizeof(distance_t));"),
# tree: the first of equally near points instead of the last, arrays on the heap
(H, "			if (d <= nearestMRDDistance) {", "			if (nearestMRDPoint < 0 || d < nearestMRDDistance) {"),
(H, "	boolean attachedPoints[size];\n", "	boolean attachedPoints[size + 1];\n"),
# graph: recursive sort of the edges, middle pivot, small lists
(G, "	index_t startIndexStack[esize/2];\n	index_t endIndexStack[esize/2];\n", "	if (esize < 64) {\n		graph_quicksort(g, 0, (int64_t)esize - 1);\n		return;\n	}\n\n	index_t startIndexStack[esize/2];\n	index_t endIndexStack[esize/2];\n"),
(G, "		g->edges[i] = array_list_init(16, sizeof(index_t), NULL);", "		g->edges[i] = array_list_init(2, sizeof(index_t), NULL);"),
(G, "	if (startIndex - endIndex <= 1)\n		return (int32_t)startIndex;\n", "	if (endIndex - startIndex <= 1)\n		return (int32_t)startIndex;\n"),
# selection: the labels of a level are looked up in order
(H, "			int64_t it = array_list_find(clusterList, &label, 0);\n			if(it != -1){\n				sc->clusterLabels[j] = label;\n			}", "			const label_t* chosen = (label_t *)clusterList->data;\n			for(size_t k = 0; k < clusterList->size; k++){\n				if(chosen[k] == label){\n					sc->clusterLabels[j] = label;\n					break;\n				}\n			}"),
# cluster: one place where descendants are handed on
(C, "void cluster_propagate(cluster* cl){\n", "static void hand_on(cluster* cl){\n	cluster** d = (cluster **)cl->propagatedDescendants->data;\n	for(size_t i = 0; i < cl->propagatedDescendants->size; i++) array_list_append(cl->parent->propagatedDescendants, &d[i]);\n}\n\nvoid cluster_propagate(cluster* cl){\n"),
(C, "			for(index_t i = 0; i < cl->propagatedDescendants->size; i++)\n			{\n				cluster* c = NULL;\n				array_list_value_at(cl->propagatedDescendants, i, &c);\n				array_list_append(cl->parent->propagatedDescendants, &c);\n			}\n", "			hand_on(cl);\n"),
(C, "				for(index_t i = 0; i < cl->propagatedDescendants->size; i++)\n				{\n					cluster *c = NULL;\n					array_list_value_at(cl->propagatedDescendants, i, &c);\n					array_list_append(cl->parent->propagatedDescendants, &c);\n				}\n", "				hand_on(cl);\n"),
(C, "	for(index_t i = 0; i < points->size; i++){\n		\n		set_value_at(points, i, &d);\n		set_insert(cl->virtualChildCluster, &d);\n	}", "	for(size_t i = points->size; i > 0; i--){\n		d = ((index_t *)points->data)[i - 1];\n		set_insert(cl->virtualChildCluster, &d);\n	}"),
# log: no format
(LG, '    #else\n        printf("%s", str);\n    #endif', '    #else\n        fputs(str, stdout);\n    #endif'),
(LG, "    char* date = getDateString();\n    const char* tp;\n", "    const char* tp;\n    if(type == NONE) {\n    #ifdef DEBUG\n        fputs(str, log_file);\n    #else\n        fputs(str, stdout);\n    #endif\n        return;\n    }\n\n    char* date = getDateString();\n"),
# lists
(LL, "    node* tmp = list->head;\n    /// Iterate through the list to find the key\n    while(tmp != NULL)\n    {\n        int32_t r = d_compare(tmp->data, data);\n        if(r == 0) {\n            break;\n        }\n\n        tmp = tmp->next;\n    }\n\n    return tmp;", "    for(node* tmp = list->head; tmp != NULL; tmp = tmp->next)\n    {\n        if(d_compare(tmp->data, data) == 0) return tmp;\n    }\n\n    return NULL;"),
(LL, "    node* nd = list->head;\n    while(nd != NULL)\n    {   \n        node* tmp = nd;\n        nd = nd->next;     \n        // Unhook the last node from the list\n        linkedlist_node_unhook(list, tmp);\n        ", "    node* nd = list->tail;\n    list->size = 0;\n    while(nd != NULL)\n    {   \n        node* tmp = nd;\n        nd = nd->prev;     \n"),
(AL, "	list->size = 0;\n	if(resize) {\n		void* data = realloc(list->data, list->step);\n\n		if(data != NULL) { /// Otherwise the list keeps its current buffer\n			list->data = data;\n			list->max_size = 1;\n		}\n	}", "	list->size = 0;\n	if(resize && list->max_size > 4) {\n		void* data = realloc(list->data, 4 * list->step);\n\n		if(data != NULL) { /// Otherwise the list keeps its current buffer\n			list->data = data;\n			list->max_size = 4;\n		}\n	}"),
(AL, "    return array_list_insertion_helper(list, data, pos);", "	memcpy((char *)list->data + t1, data, list->step);\n	return 1;") if False else (AL, "		list->data = calloc(initial_size, step); ", "		list->data = malloc(initial_size * step); "),
# primes: without recursion
(P, "    return binary_search_primes(0, p_sz-1, num);", "    int32_t best = primes[0];\n    for(int32_t i = 0; i < p_sz && primes[i] < num; i++) best = primes[i];\n    return best;"),
# tables
(H, "	for(index_t i = 1; i < stats->count; i++)\n	{\n		// Core distance statistics\n", "	for(index_t i = 1; i < stats->count; ++i)\n	{\n"),
(HP, "		clusterTable[label].push_back(i);", "		map_t::iterator it = clusterTable.insert(std::make_pair(label, vector<index_t>())).first;\n		it->second.push_back(i);"),
(HP, "		vector<index_t> idxList = it->second;", "		const vector<index_t>& idxList = it->second;"),
# python: filled lists
(PY, "    self->labels = PyList_New(0);\n\n	for(uint i = 0; i < self->rows; i++){\n        PyObject* label = Py_BuildValue(c, labels[i]);\n		PyList_Append(self->labels, label);\n        Py_DECREF(label);\n	}", "    self->labels = PyList_New(self->rows);\n\n	for(uint i = 0; i < self->rows; i++){\n		PyList_SET_ITEM(self->labels, i, Py_BuildValue(c, labels[i]));\n	}"),
(PY, "    for(size_t i = 0; i < tmp->size; i++) {\n", "    for(size_t i = set_size(tmp->keys); i-- > 0;) {\n"),
(PY, "    Py_INCREF(dataset);    \n", ""), (PY, "    if(d_arr == NULL){\n        Py_DECREF(dataset);\n", "    if(d_arr == NULL){\n"), (PY, "        Py_DECREF(d_arr);\n        Py_DECREF(dataset);\n", "        Py_DECREF(d_arr);\n"), (PY, "    Py_XDECREF(dataset); // Release the dataset memory\n", ""),
# java: critical arrays, another map
(J, "		jdouble *row = env->GetDoubleArrayElements(dim, NULL);\n		\n		for(int j = 0; j < cols; j++){\n			dset[dIdx] = row[j];\n			dIdx++;\n		}\n		env->ReleaseDoubleArrayElements(dim, row, JNI_ABORT);", "		jdouble *row = (jdouble *)env->GetPrimitiveArrayCritical(dim, NULL);\n		\n		for(int j = 0; j < cols; j++){\n			dset[dIdx] = row[j];\n			dIdx++;\n		}\n		env->ReleasePrimitiveArrayCritical(dim, row, JNI_ABORT);"),
(J, "	int32_t tmp[rows];\n\n	#ifdef _OPENMP\n	#pragma omp parallel for\n	#endif\n	for(int i = 0; i < rows; i++) {\n		tmp[i] = lbs[i];\n	}\n\n	env->SetIntArrayRegion(labels, 0, rows, tmp);", "	jint* tmp = env->GetIntArrayElements(labels, NULL);\n	for(int i = 0; i < rows; i++) {\n		tmp[i] = (jint)lbs[i];\n	}\n	env->ReleaseIntArrayElements(labels, tmp, 0);"),
(JJ, "			ArrayList<Integer> list = table.get(key);\n			\n			if(list == null){\n				list = new ArrayList<Integer>();\n				list.add(i);\n				table.put(key, list);\n			} else{\n				\n				list.add(i);\n			}", "			table.computeIfAbsent(key, k -> new ArrayList<Integer>()).add(i);"),
]
