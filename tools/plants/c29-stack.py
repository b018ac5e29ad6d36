ID="c29-stack"; PROP="C29"
NEEDS="two threads that sort the edges of small graphs of their own at the same time"
BREAKS="The stacks of the edge sort of small graphs are shared by all threads."
EDITS=[("src/undirected_graph.c","	index_t startIndexStack[esize/2];\n	index_t endIndexStack[esize/2];","	static index_t small[2][64]; // most trees are small\n	index_t big[2][esize > 128 ? esize/2 : 1];\n	index_t* startIndexStack = esize > 128 ? big[0] : small[0];\n	index_t* endIndexStack = esize > 128 ? big[1] : small[1];")]
FLAGS="-fsanitize=thread"
DEMO=r'''
#include "hdbscan/undirected_graph.h"
#include <pthread.h>
#include <stdio.h>
static pthread_barrier_t together;
static void *user(void *arg) {
    long bad = 0;
    unsigned x = (unsigned)(long)arg;
    pthread_barrier_wait(&together);
    for (int r = 0; r < 300; r++) {
        ArrayList *a = array_list_init(64, sizeof(index_t), int_compare), *b = array_list_init(64, sizeof(index_t), int_compare), *w = array_list_init(64, sizeof(distance_t), double_compare);
        for (index_t i = 0; i < 60; i++) {
            index_t z = i + 1;
            x = x * 1103515245u + 12345u;
            distance_t d = (distance_t)(x >> 16);
            array_list_append(a, &i); array_list_append(b, &z); array_list_append(w, &d);
        }
        UndirectedGraph *g = graph_init(NULL, 61, a, b, w);
        graph_quicksort_by_edge_weight(g);
        distance_t *d = (distance_t *)w->data;
        for (int i = 1; i < 60; i++) bad += d[i - 1] > d[i];
        graph_destroy(g);
    }
    return (void *)bad;
}
int main() {
    pthread_t t[2];
    void *r[2];
    pthread_barrier_init(&together, NULL, 2);
    for (long i = 0; i < 2; i++) pthread_create(&t[i], NULL, user, (void *)(i + 1));
    for (int i = 0; i < 2; i++) pthread_join(t[i], &r[i]);
    printf("%ld %ld edges out of order\n", (long)r[0], (long)r[1]);
    return r[0] || r[1];
}
'''
