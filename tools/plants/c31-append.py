ID="c31-append"; PROP="C31"
NEEDS="a debug build whose log is closed and opened again, by the same or a later program, after something was written"
BREAKS="opening the log empties it: what earlier sessions logged is gone"
EDITS=[("modules/utils/src/logger.c",'log_file = fopen("hdbscan.log", "a");','log_file = fopen("hdbscan.log", "w");')]
FLAGS="-fopenmp -DDEBUG"
DEMO=r'''
#include "config.h"
#include "hdbscan/logger.h"
#include <stdio.h>
#include <string.h>
int main() {
    logger_init(); logger_write(INFO, "first\n"); logger_close();
    logger_init(); logger_write(INFO, "second\n"); logger_close();
    FILE *f = fopen("hdbscan.log", "r");
    if (!f) { printf("no log\n"); return 2; }
    char b[4096]; size_t n = fread(b, 1, sizeof b - 1, f); b[n] = 0; fclose(f);
    if (!strstr(b, "first") || !strstr(b, "second")) { printf("log holds: %s\n", b); return 1; }
    return 0;
}
'''
