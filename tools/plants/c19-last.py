ID="c19-last"; PROP="C19"
NEEDS="a list whose tail equals an earlier element"
BREAKS="A look-up that also tries the tail first finds, and removes, the last instead of the first occurrence."
EDITS=[("modules/collections/src/linkedlist.c","""    node* tmp = list->head;
    /// Iterate through the list to find the key
""","""    node* tmp = list->head;
    if(list->tail != NULL && d_compare(list->tail->data, data) == 0)
    {
        return list->tail;
    }
    /// Iterate through the list to find the key
"""),("modules/collections/src/linkedlist.c","""        int32_t r = d_compare(tmp->data, data);
        if(r == 0) {""","""        if(d_compare(tmp->data, data) == 0) {""")]
DEMO=r'''
#include "collections/linkedlist.h"
#include "hdbscan/utils.h"
#include <stdio.h>
int main() {
    linkedlist *l = linkedlist_init(sizeof(int));
    int v[] = {4, 7, 9, 4};
    for (int i = 0; i < 4; i++) linkedlist_tail_add(l, v + i);
    int x = 4;
    linkedlist_remove(l, &x, int_compare);
    int want[] = {7, 9, 4}, bad = 0;
    for (int i = 0; i < 3; i++) { int y = 0; linkedlist_value_at(l, i, &y); printf("%d ", y); bad |= y != want[i]; }
    return bad;
}
'''
