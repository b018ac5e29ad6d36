ID="c30-grow"; PROP="C30"
NEEDS="a growth that fails, followed by another addition"
BREAKS="The capacity is raised before the memory for it has been obtained; after a growth that failed the list writes past its buffer."
EDITS=[("modules/collections/src/list.c","	size_t newmax = highestPowerof2(list->max_size*2);\n","	size_t newmax = highestPowerof2(list->max_size*2);\n	list->max_size = newmax;\n"),
("modules/collections/src/list.c","	list->data = data;\n	list->max_size = newmax;\n","	list->data = data;\n")]
FLAGS="-Drealloc=t_realloc"
DEMO=r'''
#undef realloc
#include "collections/list.h"
#include "hdbscan/utils.h"
#include <stdio.h>
#include <stdlib.h>
static int fail;
void *t_realloc(void *p, size_t n) { return fail ? NULL : realloc(p, n); }
int main() {
    ArrayList *l = array_list_init(2, sizeof(int), int_compare);
    int a = 0;
    while (l->size < l->max_size) { a++; array_list_append(l, &a); }
    size_t full = l->size;
    fail = 1;
    int r1 = array_list_append(l, &a), r2 = array_list_append(l, &a);
    fail = 0;
    printf("appending without memory: %d, %d, size %zu of %zu\n", r1, r2, l->size, full);
    return r1 == 1 || r2 == 1 || l->size != full;
}
'''
