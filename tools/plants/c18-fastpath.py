ID="c18-fastpath"; PROP="C18"
NEEDS="inserting the largest element again into a set of more than eight"
BREAKS="A shortcut for ascending insertions appends an element equal to the largest one a second time."
EDITS=[("modules/collections/src/set.c","""    size_t high = _set->size;
    if(_set->size > 0) {""","""    size_t high = _set->size;
    if(high > 8 && _set->compare(_set->data + (high - 1) * _set->step, data) <= 0) {
        low = high; /* ascending insertions need no search */
    } else if(_set->size > 0) {""")]
DEMO=r'''
#include "collections/set.h"
#include "hdbscan/utils.h"
#include <stdio.h>
int main() {
    set_t *s = set_init(sizeof(int), int_compare);
    for (int i = 0; i < 12; i++) set_insert(s, &i);
    int x = 11, r = set_insert(s, &x);
    printf("returned %d, size %d\n", r, (int)set_size(s));
    return !(r == 0 && set_size(s) == 12);
}
'''
