ID="c24-open"; PROP="C24"
NEEDS="an export whose second file cannot be opened while the first one can"
BREAKS="The visualization file is closed together with the hierarchy file, so it stays open and unwritten when that one cannot be opened."
EDITS=[("src/hdbscan.c","		fclose(visFile);\n\n",""),("src/hdbscan.c","		fclose(hierarchyFile);\n","		fclose(hierarchyFile);\n		fclose(visFile);\n")]
DEMO=r'''
#include "hdbscan/hdbscan.h"
#include <sys/stat.h>
#include <unistd.h>
int main() {
    double d[] = {0, 1, 2, 30, 31, 32};
    hdbscan *s = hdbscan_init(NULL, 3);
    hdbscan_run(s, d, 6, 1, TRUE, H_DOUBLE);
    mkdir("out_hierarchy.csv", 0700);
    hdbscan_print_hierarchies(s->hierarchy, 6, "out");
    rmdir("out_hierarchy.csv");
    struct stat st;
    if (stat("out_visualization.vis", &st)) return 2;
    printf("%ld bytes\n", (long)st.st_size);
    return st.st_size == 0;
}
'''
