ID="c22-long-diff"; PROP="C22"
NEEDS="two longs whose difference does not fit a long"
BREAKS="Longs are compared by their difference, which overflows for values far apart."
EDITS=[("modules/utils/src/utils.c","""	a = *(long *) ptr_a;
	b = *(long *) ptr_b;

	if (a > b) {
		return (1);
	}
	if (a == b) {
		return (0);
	}
    
	return (-1);""","""	a = *(long *) ptr_a;
	b = *(long *) ptr_b;

	long diff = (long)((unsigned long)a - (unsigned long)b);

	return (diff > 0) - (diff < 0);""")]
DEMO=r'''
#include "hdbscan/utils.h"
#include <stdio.h>
int main() {
    long a = 9000000000000000000L, b = -9000000000000000000L;
    int r = long_compare(&a, &b);
    printf("%d\n", r);
    return r != 1;
}
'''
