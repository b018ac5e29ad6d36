H="src/hdbscan.c";C="src/cluster.c";S="modules/collections/src/set.c";LG="modules/utils/src/logger.c"
T=[
("c13-denormal","C13",[(H,"if(dl->min_dr > d && (d < zero || d > zero)){","if(dl->min_dr > d && d >= 2.2250738585072014e-308){")]),
("c28-infdiff","C28",[(C,"if (cl->stability >= cl->propagatedStability) {","if (cl->stability - cl->propagatedStability >= 0) {")]),
("c28-short","C28",[(C,"cl->numConstraintsSatisfied = (index_t)(cl->numConstraintsSatisfied + numConstraints);","cl->numConstraintsSatisfied = (index_t)(short)(cl->numConstraintsSatisfied + numConstraints);")]),
("c24-append","C24",[(H,'hierarchyFile = fopen(hierarchyFilename, "w");','hierarchyFile = fopen(hierarchyFilename, "a");')]),
("c24-noclose","C24",[(H,"	if(hierarchyFile){\n		fclose(hierarchyFile);\n	}","	if(hierarchyFile && numPoints){\n		fflush(hierarchyFile);\n	}")]),
("c24-prec14","C24",[(H,'fprintf(hierarchyFile, "%.15f,"','fprintf(hierarchyFile, "%.14f,"')]),
("c31-cut","C31",[(LG,'        fprintf(log_file, "%s", buffer);','        fprintf(log_file, "%.200s", buffer);')]),
("c31-flush","C31",[(LG,"    fclose(log_file);","    fflush(log_file);")]),
("c29-set","C29",[(S,"            size_t mid = low + (high - low) / 2; /* low <= mid < high */\n            t1 = mid * _set->step;","            static size_t mid; mid = low + (high - low) / 2; /* low <= mid < high */\n            t1 = mid * _set->step;")]),
("c29-stats","C29",[(H,"	distance_t sum_sc = 0;\n	distance_t sum_sd = 0;","	static distance_t sum_sc; sum_sc = 0;\n	distance_t sum_sd = 0;")]),
("c12-begin2","C12",[(H,"		array_list_append(clusterList, &i);\n	}\n\n	return clusterTable;","		if(clusterList->size < (size_t)(size / 2) + 1 || size < 900) array_list_append(clusterList, &i);\n	}\n\n	return clusterTable;")]),
("c14-inf","C14",[(H,"		if(dr[i] > stats->intraDistanceValues.max)","		if(dr[i] > stats->intraDistanceValues.max && cr[i] >= 0.1 * dr[i])")]),
("c05-stabneg","C05",[(C,"	cl->stability += (numPoints * (1 / level - 1 / cl->birthLevel));","	cl->stability += (numPoints / level - numPoints / cl->birthLevel);")]),
("c28-lowest","C28",[(C,"		if (cl->propagatedLowestChildDeathLevel < cl->parent->propagatedLowestChildDeathLevel){","		if (cl->propagatedLowestChildDeathLevel < cl->parent->propagatedLowestChildDeathLevel && (cl->propagatedLowestChildDeathLevel > 0 || cl->hasChildren)){")]),
]
