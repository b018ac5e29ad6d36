ID="c29-spare"; PROP="C29"
NEEDS="two threads that replace values in tables of their own at the same time"
BREAKS="The value that is handed back by a replacement passes through a buffer that all tables of the process share."
EDITS=[("modules/collections/src/hashtable.c","        void* tmp = malloc(dsize);","        static long spare[2]; // saves an allocation for the usual sizes\n        void* tmp = dsize <= sizeof(spare) ? (void *)spare : malloc(dsize);"),
("modules/collections/src/hashtable.c","        free(tmp);\n","        if(tmp != (void *)spare) free(tmp);\n")]
FLAGS="-fsanitize=thread"
DEMO=r'''
#include "collections/hashtable.h"
#include <pthread.h>
#include <stdio.h>
static pthread_barrier_t together;
static void *user(void *arg) {
    long bad = 0, n = (long)arg;
    hashtable *h = hashtable_init(11, H_INT, H_LONG, int_compare);
    int k = 3;
    long v = n;
    hashtable_insert(h, &k, &v);
    pthread_barrier_wait(&together);
    for (long i = 1; i < 20000; i++) {
        v = n + i;
        hashtable_insert(h, &k, &v);
        if (v != n + i - 1) bad++;
    }
    hashtable_destroy(h, NULL, NULL);
    return (void *)bad;
}
int main() {
    pthread_t t[2];
    void *r[2];
    pthread_barrier_init(&together, NULL, 2);
    for (long i = 0; i < 2; i++) pthread_create(&t[i], NULL, user, (void *)(i * 1000000));
    for (int i = 0; i < 2; i++) pthread_join(t[i], &r[i]);
    printf("%ld %ld wrong values\n", (long)r[0], (long)r[1]);
    return r[0] || r[1];
}
'''
