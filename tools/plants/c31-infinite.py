ID="c31-infinite"; PROP="C31"
NEEDS="a debug build and a data set with a cluster of identical points, so that a stability is infinite"
BREAKS="the debug build reports that no stability was infinite: and its log lacks the explanation the ordinary build prints"
EDITS=[("src/hdbscan.c","	#ifdef DEBUG\n		logger_write(WARN, message);","	#ifdef DEBUG\n		infiniteStability = FALSE;\n		logger_write(WARN, \"infinite stability\\n\");")]
FLAGS="-fopenmp -DDEBUG"
DEMO=r'''
#include "config.h"
#include "hdbscan/hdbscan.h"
#include "hdbscan/logger.h"
#include <stdio.h>
#include <string.h>
int main() {
    double d[12] = {1, 1, 1, 1, 1, 1, 9, 9, 9, 9, 9, 9};
    logger_init();
    hdbscan *h = hdbscan_init(NULL, 3);
    if (hdbscan_run(h, d, 12, 1, TRUE, H_DOUBLE) != HDBSCAN_SUCCESS) return 2;
    hdbscan_destroy(h);
    logger_close();
    FILE *f = fopen("hdbscan.log", "r");
    if (!f) { printf("no log\n"); return 2; }
    char b[4096]; size_t n = fread(b, 1, sizeof b - 1, f); b[n] = 0; fclose(f);
    if (!strstr(b, "excess of mass") || !strstr(b, "increase the value of MinPts")) { printf("log holds: %s\n", b); return 1; }
    return 0;
}
'''
