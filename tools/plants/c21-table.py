ID="c21-table"; PROP="C21"
NEEDS="an argument for which the binary search takes the right half although the wanted prime is the entry before the middle"
BREAKS="find_prime_less_than returns too large or no prime for arguments that fall right after a table entry probed by the search."
EDITS=[("modules/collections/src/primes.c","""        return binary_search_primes(mid + 1, r, x); 
""","""        return binary_search_primes(mid + 2, r, x); 
""")]
DEMO=r'''
#include "collections/primes.h"
#include <stdio.h>
static int prime(int n) { if (n < 2) return 0; for (int i = 2; i * i <= n; i++) if (n % i == 0) return 0; return 1; }
int main() {
    for (int n = 4; n < 3000; n++) { int p = n - 1; while (!prime(p)) p--; int g = find_prime_less_than(n); if (g != p) { printf("%d -> %d\n", n, g); return 1; } }
    return 0;
}
'''
