ID="c29-primes"; PROP="C29"
NEEDS="two threads that create tables of different sizes at the same time"
BREAKS="The last prime found is remembered for all threads, its argument and its value one after the other."
EDITS=[("modules/collections/src/primes.c","int32_t find_prime_less_than(int32_t num)\n{","int32_t find_prime_less_than(int32_t num)\n{\n    static int32_t lastNum = 0, lastPrime = 0; // sizes come again and again"),
("modules/collections/src/primes.c","    return binary_search_primes(0, p_sz-1, num);","    if(num != lastNum)\n    {\n        lastNum = num;\n        lastPrime = binary_search_primes(0, p_sz-1, num);\n    }\n    return lastPrime;")]
FLAGS="-fsanitize=thread"
DEMO=r'''
#include "collections/primes.h"
#include <pthread.h>
#include <stdio.h>
static int want[40];
static pthread_barrier_t together;
static void *user(void *arg) {
    long bad = 0, n = (long)arg;
    pthread_barrier_wait(&together);
    for (int i = 0; i < 200000; i++) bad += find_prime_less_than(100 * (int)(i % 20 + n)) != want[i % 20 + n];
    return (void *)bad;
}
int main() {
    pthread_t t[2];
    void *r[2];
    pthread_barrier_init(&together, NULL, 2);
    for (int i = 0; i < 40; i++) want[i] = find_prime_less_than(100 * i);
    for (long i = 0; i < 2; i++) pthread_create(&t[i], NULL, user, (void *)(i * 7));
    for (int i = 0; i < 2; i++) pthread_join(t[i], &r[i]);
    printf("%ld %ld wrong primes\n", (long)r[0], (long)r[1]);
    return r[0] || r[1];
}
'''
