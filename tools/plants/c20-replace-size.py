ID="c20-replace-size"; PROP="C20"
NEEDS="replacing a value in a table whose keys are smaller than its values"
BREAKS="Replacing a value copies as many bytes as a key has, so wider values are replaced in part."
EDITS=[("modules/collections/src/hashtable.c","""        size_t dsize = get_htype_size(htbl->dtype);
        void* tmp = malloc(dsize);""","""        size_t dsize = get_htype_size(htbl->ktype);
        void* tmp = malloc(dsize);""")]
DEMO=r'''
#include "collections/hashtable.h"
#include <stdio.h>
int main() {
    hashtable *h = hashtable_init(11, H_INT, H_LONG, int_compare);
    int k = 3; long v = 0x1111222233334444L, w = 0x5555666677778888L, x = 0;
    hashtable_insert(h, &k, &v);
    hashtable_insert(h, &k, &w);
    hashtable_lookup(h, &k, &x);
    printf("%lx %lx\n", x, w);
    return !(x == 0x5555666677778888L && w == 0x1111222233334444L);
}
'''
