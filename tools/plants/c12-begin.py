ID="c12-begin"; PROP="C12"
NEEDS="a range that does not begin at 0"
BREAKS="The cluster map lists positions relative to the beginning of the range instead of indices."
EDITS=[("src/hdbscan.c","""		array_list_append(clusterList, &i);
	}

	return clusterTable;""","""		index_t position = (index_t)(i - begin);
		array_list_append(clusterList, &position);
	}

	return clusterTable;""")]
DEMO=r'''
#include "hdbscan/hdbscan.h"
int main() {
    label_t l[] = {1, 2, 1, 2, 3, 3, 1, 2};
    hashtable *m = hdbscan_create_cluster_map(l, 2, 8);
    label_t k = 2; ArrayList *a = NULL;
    hashtable_lookup(m, &k, &a);
    index_t *x = a->data;
    printf("%d members: %d %d\n", (int)a->size, x[0], x[1]);
    return !(a->size == 2 && x[0] == 3 && x[1] == 7);
}
'''
