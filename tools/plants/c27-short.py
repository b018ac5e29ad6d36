ID="c27-short"; PROP="C27"
NEEDS="the library configured with the short label type"
BREAKS="Label sets of the short configuration are compared as integers, so affected clusters are missed or visited twice."
EDITS=[("src/hdbscan.c","""		affectedClusterLabels->compare = long_compare;
	} else {
		affectedClusterLabels->compare = short_compare;
	}""","""		affectedClusterLabels->compare = long_compare;
	} else {
		affectedClusterLabels->compare = int_compare;
	}""")]
FILES={"demo.sh":r'''#!/bin/bash
# run in the repository after the build; exit 0: behaves as it should
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
for k in int short; do
  mkdir "$T/$k"
  sed -e "s/@LABEL_TYPE@/unsigned $k/;s/@INDEX_TYPE@/unsigned int/;s/@DISTANCE_TYPE@/double/;s/@D_MAX@/DBL_MAX/;s/@D_MIN@/DBL_MIN/;s/@[A-Z_]*MAJOR@/5/;s/@HDBSCAN_[A-Z_]*@/5/;s/^#cmakedefine DEBUG.*//" "$R/config.h.in" > "$T/$k/config.h"
  I="-I$T/$k -I$R/include -I$R/modules/utils/include -I$R/modules/collections/include"
  gcc -w -g -O1 -fsanitize=address -fno-sanitize-recover=all $I "$D/demo.c" "$R"/src/*.c "$R"/modules/collections/src/*.c "$R"/modules/utils/src/*.c -o "$T/$k/demo" -lm || exit 3
  (cd "$T/$k" && ASAN_OPTIONS=detect_leaks=0 timeout 100 ./demo > out.txt 2>&1) || { tail -20 "$T/$k/out.txt"; exit 1; }
done
cmp "$T/int/out.txt" "$T/short/out.txt"
''',"demo.c":r'''
#include "hdbscan/hdbscan.h"
#include <stdio.h>
int main() {
    unsigned r = 1;
    for (int t = 0; t < 40; t++) {
        int n = 60;
        double x[120];
        for (int i = 0; i < n; i++) { r = r * 1103515245u + 12345; int c = (r >> 16) % 6; r = r * 1103515245u + 12345; x[2 * i] = c * 40 + (r >> 16) % 9; r = r * 1103515245u + 12345; x[2 * i + 1] = c % 3 * 40 + (r >> 16) % 9; }
        hdbscan *s = hdbscan_init(NULL, 3);
        hdbscan_run(s, x, n, 2, TRUE, H_DOUBLE);
        for (int i = 0; i < n; i++) printf("%u ", (unsigned)s->clusterLabels[i]);
        printf("\n");
        hdbscan_destroy(s);
    }
    return 0;
}
'''}
