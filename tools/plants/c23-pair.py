ID="c23-pair"; PROP="C23"
NEEDS="a partition that leaves exactly two unordered edges after the pivot"
BREAKS="A right part of two edges is not sorted by the recursive sorting entry point."
EDITS=[("src/undirected_graph.c","		graph_quicksort(g, pivotIndex + 1, endIndex);","		if (endIndex - pivotIndex > 2)\n			graph_quicksort(g, pivotIndex + 1, endIndex);")]
DEMO=r'''
#include "hdbscan/undirected_graph.h"
#include "hdbscan/utils.h"
#include <stdio.h>
int main() {
    int bad = 0;
    for (int t = 0; t < 3125; t++) {
        ArrayList *a = array_list_init(5, sizeof(index_t), int_compare), *b = array_list_init(5, sizeof(index_t), int_compare), *w = array_list_init(5, sizeof(distance_t), double_compare);
        for (int i = 0, p = t; i < 5; i++, p /= 5) { index_t x = i, y = 0; distance_t z = p % 5; array_list_append(a, &x); array_list_append(b, &y); array_list_append(w, &z); }
        UndirectedGraph *g = graph_init(NULL, 5, a, b, w);
        graph_quicksort(g, 0, 4);
        distance_t *z = g->edgeWeights->data;
        for (int i = 1; i < 5; i++) bad += z[i - 1] > z[i];
        graph_destroy(g);
    }
    printf("%d descents\n", bad);
    return bad != 0;
}
'''
