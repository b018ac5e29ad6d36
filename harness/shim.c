/* compiled as C: reads objects through the C layout */
#include "hdbscan/hdbscan.h"
#include <stdio.h>
#include <stdlib.h>
#include <stddef.h>
#define DUMP_FN dump_c_
#define DUMP_NS
#include "dump.inc"
char *vh_c_dump(const void *p) { return dump_c_(p); }
long vh_c_layout(int what) {
    switch (what) {
    case 0: return sizeof(hdbscan);
    case 1: return sizeof(cluster);
    case 2: return sizeof(distance);
    case 3: return sizeof(UndirectedGraph);
    case 4: return sizeof(outlier_score);
    case 5: return sizeof(hierarchy_entry);
    case 6: return sizeof(distance_values);
    case 7: return sizeof(clustering_stats);
    case 8: return sizeof(constraint);
    case 9: return offsetof(hdbscan, numPoints);
    case 10: return offsetof(hdbscan, clusterLabels);
    case 11: return offsetof(cluster, hasChildren);
    case 12: return offsetof(distance, datatype);
    case 13: return offsetof(UndirectedGraph, edges);
    default: return -1;
    }
}
