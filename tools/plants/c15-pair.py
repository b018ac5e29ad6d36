ID="c15-pair"; PROP="C15"
NEEDS="a partition that leaves exactly two unordered clusters below the pivot"
BREAKS="A left part of two clusters is not sorted."
EDITS=[("src/hdbscan.c","		hdbscan_quicksort(clusters, sortData, left, pivot - 1);","		if(pivot - left > 2)\n			hdbscan_quicksort(clusters, sortData, left, pivot - 1);")]
DEMO=r'''
#include "hdbscan/hdbscan.h"
int main() {
    int bad = 0;
    for (int perm = 0; perm < 5040; perm++) {
        int len[7], p = perm, used = 0;
        for (int i = 0; i < 7; i++) { int k = p % (7 - i); p /= 7 - i; int j = 0; for (;; j++) if (!(used >> j & 1) && k-- == 0) break; used |= 1 << j; len[i] = j + 1; }
        label_t l[28]; int n = 0;
        for (int i = 0; i < 7; i++) for (int j = 0; j < len[i]; j++) l[n++] = i + 1;
        hashtable *m = hdbscan_create_cluster_map(l, 0, n);
        ArrayList *c = array_list_init(7, sizeof(label_t), int_compare);
        for (label_t i = 1; i <= 7; i++) array_list_append(c, &i);
        hdbscan_sort_by_length(m, c);
        label_t *x = c->data;
        for (int i = 1; i < 7; i++) if (len[x[i - 1] - 1] > len[x[i] - 1]) bad++;
        array_list_delete(c); hdbscan_destroy_cluster_map(m);
    }
    printf("%d descents\n", bad);
    return bad != 0;
}
'''
