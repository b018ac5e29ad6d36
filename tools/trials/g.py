H="src/hdbscan.c";D="src/distance.c"
T=[
("c06-off300","C06",[(H,"			newCluster->offset = lineCount;","			newCluster->offset = newCluster->label == 300 ? 0 : lineCount;")]),
("c06-new8","C06",[(H,"			newCluster->offset = lineCount;","			if(i < 8) newCluster->offset = lineCount;")]),
("c06-off33","C06",[(H,"			newCluster->offset = lineCount;","			newCluster->offset = lineCount > 511 ? lineCount - 1 : lineCount;")]),
("c01-col256","C01",[(D,"for (size_t k = 0; ((k < dis->cols) && (i != j)); k++) {","for (size_t k = 0; ((k < dis->cols) && (i != j)); k++) {\n				if(k == 256) continue;")]),
("c01-huge","C01",[(D,"					char* dt = (char*)dataset;\n					diff = (distance_t)(dt[i * dis->cols + k] - dt[j * dis->cols + k]);","					char* dt = (char*)dataset;\n					index_t o = (index_t)(j * dis->cols + k);\n					diff = (distance_t)(dt[i * dis->cols + k] - dt[o]);")]),
("c01-int32","C01",[(D,"					char* dt = (char*)dataset;\n					diff = (distance_t)(dt[i * dis->cols + k] - dt[j * dis->cols + k]);","					char* dt = (char*)dataset;\n					int o = (int)(j * dis->cols + k);\n					diff = (distance_t)(dt[i * dis->cols + k] - dt[o]);")]),
]
