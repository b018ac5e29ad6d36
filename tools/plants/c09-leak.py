ID="c09-leak"; PROP="C09"
NEEDS="a data set whose selected clusters were all born at one level"
BREAKS="The table of selected clusters keeps its lists when it has a single entry, so such a run leaks memory."
EDITS=[("src/hdbscan.c","""	hashtable_destroy(significant, NULL, (void (*)(void *))array_list_delete);
""","""	void (*value_destroy)(void *) = set_size(significant->keys) > 1 ? (void (*)(void *))array_list_delete : NULL;
	hashtable_destroy(significant, NULL, value_destroy);
""")]
SAN=True
DEMO=r'''
#include "hdbscan/hdbscan.h"
#include <sanitizer/lsan_interface.h>
int main() {
    double d[] = {0, 1, 2, 30, 31, 32};
    for (int i = 0; i < 3; i++) {
        hdbscan *s = hdbscan_init(NULL, 3);
        hdbscan_run(s, d, 6, 1, TRUE, H_DOUBLE);
        hdbscan_destroy(s);
    }
    return __lsan_do_recoverable_leak_check() != 0;
}
'''
