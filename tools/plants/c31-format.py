ID="c31-format"; PROP="C31"
NEEDS="a debug build and a plain log message that contains a per cent sign"
BREAKS="the message is taken as a format: it is garbled, or reads or writes memory that is not its own"
EDITS=[("modules/utils/src/logger.c",'    } else {\n    #ifdef DEBUG\n        fprintf(log_file, "%s", str);','    } else {\n    #ifdef DEBUG\n        fprintf(log_file, str);')]
FLAGS="-fopenmp -DDEBUG"
DEMO=r'''
#include "config.h"
#include "hdbscan/logger.h"
#include <stdio.h>
#include <string.h>
int main() {
    logger_init(); logger_write(NONE, "50%% of 100% done, 7%5d\n"); logger_close();
    FILE *f = fopen("hdbscan.log", "r");
    if (!f) { printf("no log\n"); return 2; }
    char b[4096]; size_t n = fread(b, 1, sizeof b - 1, f); b[n] = 0; fclose(f);
    if (!strstr(b, "50%% of 100% done, 7%5d\n")) { printf("log holds: %s\n", b); return 1; }
    return 0;
}
'''
