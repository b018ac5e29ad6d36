ID="c30-front"; PROP="C30"
NEEDS="the memory for a node running out while adding to the front of a linked list"
BREAKS="The element is counted before its node exists."
EDITS=[("modules/collections/src/linkedlist.c","""node* linkedlist_node_front_add(linkedlist* list, void* data)
{
    node* nd = node_creator(data, list->step);
""","""node* linkedlist_node_front_add(linkedlist* list, void* data)
{
    size_t others = list->size++;
    node* nd = node_creator(data, list->step);
"""),("modules/collections/src/linkedlist.c","""    // If the list was not empty, assign the previous head's prev to the new node
    if(list->size > 0)
""","""    // If the list was not empty, assign the previous head's prev to the new node
    if(others > 0)
"""),("modules/collections/src/linkedlist.c","""    list->head = nd;
    list->size += 1;
""","""    list->head = nd;
""")]
FLAGS="-Dmalloc=t_malloc"
DEMO=r'''
#undef malloc
#include "collections/linkedlist.h"
#include <stdio.h>
#include <stdlib.h>
static int fail;
void *t_malloc(size_t n) { return fail ? NULL : malloc(n); }
int main() {
    linkedlist *l = linkedlist_init(sizeof(long));
    long a = 5;
    linkedlist_front_add(l, &a);
    fail = 1;
    int r = linkedlist_front_add(l, &a);
    fail = 0;
    printf("adding without memory: %d, size %zu\n", r, (size_t)l->size);
    return r != 0 || l->size != 1;
}
'''
