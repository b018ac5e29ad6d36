G="src/undirected_graph.c"; H="src/hdbscan.c"; L="modules/collections/src/list.c"; LL="modules/collections/src/linkedlist.c"; HT="modules/collections/src/hashtable.c"; P="modules/collections/src/primes.c"; U="modules/utils/src/utils.c"; HP="src/hdbscan.cpp"; S="modules/collections/src/set.c"; LG="modules/utils/src/logger.c"; D="src/distance.c"
T=[
("c29-stack","C29",[(G,"	index_t startIndexStack[esize/2];\n	index_t endIndexStack[esize/2];","	static index_t small[2][64]; // most trees are small\n	index_t* startIndexStack = small[0];\n	index_t* endIndexStack = small[1];\n	index_t big[esize <= 128 ? 1 : esize];\n	if(esize > 128){ startIndexStack = big; endIndexStack = big + esize/2; }")]),
("c29-prime-cache","C29",[(P,"int32_t find_prime_less_than(int32_t num)\n{","int32_t find_prime_less_than(int32_t num)\n{\n    static int32_t lastNum = 0, lastPrime = 0;\n    if(num > primes[p_sz-1] && num == lastNum) return lastPrime;"),(P,"            prime--;\n        }\n        return prime;","            prime--;\n        }\n        lastNum = num;\n        lastPrime = prime;\n        return prime;")]),
("c29-pow-table","C29",[(U,"	size_t p = (size_t)log2((double)n);\n   	return (size_t)pow(2, (double)p+1);","	static size_t table[65];\n	static int filled = 0;\n	if(!filled){\n		filled = 1;\n		for(int i = 0; i < 64; i++) table[i] = (size_t)pow(2, i);\n	}\n	size_t p = (size_t)log2((double)n);\n	return table[p+1];")]),
("c29-newclusters","C29",[(H,"	ArrayList* newClusters = array_list_init(2, sizeof(cluster *), cluster_compare);","	static ArrayList* newClusters = NULL; // kept for the next run\n	if(newClusters == NULL) newClusters = array_list_init(2, sizeof(cluster *), cluster_compare);\n	array_list_clear(newClusters, 0);"),(H,"	array_list_delete(newClusters);\n\n	hierarchy_entry* entry","	hierarchy_entry* entry")]),
("c29-sort-vector","C29",[(HP,"	vector<distance_t> lengths;\n\n	if(clusters.empty())","	static vector<distance_t> lengths;\n	lengths.clear();\n\n	if(clusters.empty())")]),
("c29-logbuf","C29",[(LG,"    char* date = (char*)malloc( 100 );","    static char date_buf[100];\n    char* date = date_buf;")]),
("c29-ht-tmp","C29",[(HT,"        void* tmp = malloc(dsize);","        static long spare[2];\n        void* tmp = dsize <= sizeof(spare) ? (void *)spare : malloc(dsize);"),(HT,"        free(tmp);\n","        if(tmp != (void *)spare) free(tmp);\n")]),
("c29-core-buffer","C29",[(D,"	distance_t sortedDistance[dis->numNeighbors+1];\n","	static distance_t small[16];\n	distance_t big[dis->numNeighbors+1];\n	distance_t* sortedDistance = dis->numNeighbors < 16 ? small : big;\n"),(D,"private(sortedDistance)","if(0)")]),
("c29-cmp","C29",[(L,"void array_list_sort(","static int32_t (*sort_compare)(const void *a, const void *b);\nstatic int sort_by(const void *a, const void *b){ return sort_compare(a, b); }\nvoid array_list_sort("),(L,"	qsort(list->data, list->size, list->step, list->compare);","	sort_compare = list->compare;\n	qsort(list->data, list->size, list->step, sort_by);")]),
("c30-grow","C30",[(L,"	void* data = realloc(list->data, newmax * list->step);\n\n	if(data == NULL){\n		return -1; /// The list keeps its current data\n	}\n","	void* data = realloc(list->data, newmax * list->step);\n	list->max_size = newmax;\n\n	if(data == NULL){\n		return -1; /// The list keeps its current data\n	}\n")]),
("c30-insert-first","C30",[(L,"	if(list->size == list->max_size && array_list_grow(list) < 0) {\n		return 0;","	if(list->size == list->max_size && array_list_grow(list) == 0) {\n		return 0;")]),
("c30-append-ret","C30",[(L,"		if(r < 0){\n			return 0;","		if(r < 0){\n			return 1;")]),
("c30-ht-leak","C30",[(HT,"            free(entry->data);\n            free(entry->key);\n            free(entry);\n            return NULL;","            free(entry);\n            return NULL;")]),
("c30-ht-init-leak","C30",[(HT,"        free(htbl->table);\n        free(htbl);\n        return NULL;\n    }\n\n    /**","        free(htbl);\n        return NULL;\n    }\n\n    /**")]),
("c30-ht-tmp","C30",[(HT,"        void* tmp = malloc(dsize);\n        if(tmp == NULL)\n        {\n            return 0;\n        }\n        memcpy(tmp, entry->data, dsize);          // Copy the data to a tmp variable\n        memcpy(entry->data, value, dsize);        // Replace the data","        void* tmp = malloc(dsize);\n        if(tmp == NULL)\n        {\n            memcpy(entry->data, value, dsize);\n            return 0;\n        }\n        memcpy(tmp, entry->data, dsize);          // Copy the data to a tmp variable\n        memcpy(entry->data, value, dsize);        // Replace the data")]),
("c30-node-leak","C30",[(LL,"        free(nd);\n        return NULL;\n    }\n    \n    return nd;","        return NULL;\n    }\n    \n    return nd;")]),
("c30-front-size","C30",[(LL,"node* linkedlist_node_front_add(linkedlist* list, void* data)\n{\n    node* nd = node_creator(data, list->step);","node* linkedlist_node_front_add(linkedlist* list, void* data)\n{\n    list->size += 1;\n    node* nd = node_creator(data, list->step);"),(LL,"    // If the list was not empty, assign the previous head's prev to the new node\n    if(list->size > 0)","    // If the list was not empty, assign the previous head's prev to the new node\n    if(list->size > 1)"),(LL,"    list->head = nd;\n    list->size += 1;","    list->head = nd;")]),
("c30-clear","C30",[(L,"		if(data != NULL) { /// Otherwise the list keeps its current buffer\n			list->data = data;\n			list->max_size = 1;\n		}","		if(data != NULL) { /// Otherwise the list keeps its current buffer\n			list->data = data;\n		}\n		list->max_size = 1;")]),
("c30-linked-head","C30",[(LL,"    if(nd->data == NULL)\n    {\n        return 0;\n    }\n\n    memcpy","    if(nd->data == NULL && step > 8)\n    {\n        return 0;\n    }\n\n    if(nd->data) memcpy")]),
]
