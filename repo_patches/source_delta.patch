From 4c107e72bcf2961ec505eece2e913c420ed0c0bc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 01/59] fix: keep the nearest distances sorted when a tied
 distance is inserted

---
 src/distance.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/distance.c b/src/distance.c
index 8e1fbb5..0a96f3f 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -245,6 +245,7 @@ void distance_get_core_distances(distance *dis)
 				if (sortedDistance[mid] > t) {
 					high = mid;
 				} else if (sortedDistance[mid] == t) {
+					low = mid;
 					break;
 				} else {
 					low = (index_t)(mid + 1);
-- 
2.43.0


From 6b000ad9584016d21827026107693763b92c529d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 02/59] fix: compute int and long coordinate differences
 without overflow

---
 src/distance.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distance.c b/src/distance.c
index 0a96f3f..ec10918 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -170,11 +170,11 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
 				} else if(dis->datatype == H_INT) {
 
 					int* dt = dataset;
-					diff = (distance_t)(dt[i * dis->cols + k] - dt[j * dis->cols + k]);
+					diff = (distance_t)((double)dt[i * dis->cols + k] - (double)dt[j * dis->cols + k]);
 				} else if(dis->datatype == H_LONG) {
 
 					long* dt = dataset;
-					diff = (distance_t)(dt[i * dis->cols + k] - dt[j * dis->cols + k]);
+					diff = (distance_t)((long double)dt[i * dis->cols + k] - (long double)dt[j * dis->cols + k]);
 				} else if(dis->datatype == H_SHORT) {
 
 					short* dt = dataset;
-- 
2.43.0


From 2572c9a52713c7c359b6bacd3a6a0a15b24bff31 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 03/59] fix: index the distance matrix with size_t so that more
 than 65535 rows work

---
 src/distance.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/distance.c b/src/distance.c
index ec10918..7f30f0c 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -114,12 +114,12 @@ void distance_clean(distance* d){
 distance_t distance_get(distance* dis, index_t row, index_t col) {
 	size_t idx;
 	if (row < col) {
-		idx = (size_t) ((size_t)(dis->rows * row + col) - (size_t)TRIANGULAR_H((uint)(row + 1)));
+		idx = ((size_t)dis->rows * row + col) - (((size_t)row + 1) * ((size_t)row + 2)) / 2;
 
 	} else if (row == col) {
 		return 0;
 	} else {
-		idx = (size_t)((size_t)(dis->rows * col + row) - (size_t)TRIANGULAR_H((uint)(col + 1)));
+		idx = ((size_t)dis->rows * col + row) - (((size_t)col + 1) * ((size_t)col + 2)) / 2;
 	}
 	return dis->distances[idx];
 }
@@ -139,7 +139,7 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
 	
 	dis->rows = rows;
     dis->cols = cols;
-    size_t sub = (size_t)(rows * rows -rows)/2;
+    size_t sub = ((size_t)rows * rows - rows)/2;
     dis->distances = (distance_t *)malloc(sub * sizeof(distance_t));
     dis->coreDistances = (distance_t *)malloc(dis->rows * sizeof(distance_t));
 	distance_t sum, diff;
@@ -192,7 +192,7 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
 
 			// Calculate the linearised upper triangular matrix offset
 			size_t offset = i * dis->rows + j;
-			size_t c = offset - TRIANGULAR_H((uint)i + 1);		
+			size_t c = offset - ((i + 1) * (i + 2)) / 2;
 			dis->distances[c] = sum;			
 		}
 	}
-- 
2.43.0


From aba1d51705dc4d1e46ce6b9159597e60d0488531 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 04/59] fix: treat each element as a one dimensional point when
 the data is not rowwise

---
 src/hdbscan.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 1d31614..f32a72e 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -316,7 +316,8 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 	distance_init(&sc->distanceFunction, _EUCLIDEAN, datatype);
 
 	sc->numPoints = hdbscan_get_dataset_size(rows, cols, rowwise);
-	distance_compute(&(sc->distanceFunction), dataset, rows, cols, (index_t)(sc->minPoints-1));
+	// When the dataset is not rowwise, every element is a point of its own
+	distance_compute(&(sc->distanceFunction), dataset, sc->numPoints, rowwise == 1 ? cols : 1, (index_t)(sc->minPoints-1));
 
 	index_t csize = sc->numPoints/5;
 	if(csize < 4)
-- 
2.43.0


From 6fddaa82c285210fe6385f968a52c04a855bec37 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 05/59] fix: allow clustering of fewer than five points

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index f32a72e..d58a967 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -322,7 +322,7 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 	index_t csize = sc->numPoints/5;
 	if(csize < 4)
 	{
-		csize = (index_t)(csize * 4);
+		csize = (index_t)(csize * 4 + 1);
 	}
 	sc->clusters = ptr_array_list_init(csize, cluster_compare);
 	sc->clusterStabilities = hashtable_init(csize, H_INT, H_PTR, int_compare);
-- 
2.43.0


From 29e168e5bda35112a31750b62365bed69a407690 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 06/59] fix: initialise mst and the distance function so that
 an object that never ran can be cleaned

---
 src/hdbscan.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index d58a967..304a235 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -127,6 +127,9 @@ hdbscan* hdbscan_init(hdbscan* sc, index_t minPoints){
 		sc->clusters = NULL;
 		sc->coreDistances = NULL;
 		sc->outlierScores = NULL;
+		sc->mst = NULL;
+		sc->numPoints = 0;
+		distance_init(&sc->distanceFunction, _EUCLIDEAN, H_DOUBLE);
 	}
 
 	return sc;
-- 
2.43.0


From 0d171be6f9b9e7c00884420b74ce4c88c0058395 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 07/59] fix: release the previous results when the same object
 is run again

---
 src/hdbscan.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 304a235..c3af175 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -316,6 +316,8 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 		return HDBSCAN_ERROR;
 	}
 	
+	// Release the results of a previous run
+	hdbscan_clean(sc);
 	distance_init(&sc->distanceFunction, _EUCLIDEAN, datatype);
 
 	sc->numPoints = hdbscan_get_dataset_size(rows, cols, rowwise);
-- 
2.43.0


From 46103fa9b1aecfeb773de09579d4adad57151d2a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 08/59] fix: release the previous distances when distances are
 computed again

---
 src/distance.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/distance.c b/src/distance.c
index 7f30f0c..cc5de4f 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -135,6 +135,7 @@ distance_t distance_get(distance* dis, index_t row, index_t col) {
  * @param numNeighbors 
  */
 void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols, index_t numNeighbors){
+	distance_clean(dis); // release the distances of a previous computation
 	dis->numNeighbors = numNeighbors;
 	
 	dis->rows = rows;
-- 
2.43.0


From 1a9e7c785ee869716ae56f5afb0ac3387778c2db Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:24 +0000
Subject: [PATCH 09/59] fix: report infinite cluster stabilities

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index c3af175..8fd4a9d 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1039,7 +1039,7 @@ boolean hdbscan_propagate_tree(hdbscan* sc){
 		currentCluster = ((cluster **)sc->clusters->data)[x];
 		cluster_propagate(currentCluster);
 
-		if(currentCluster->stability == D_MAX){
+		if(isinf(currentCluster->stability)){
 			infiniteStability = TRUE;
 		}
 		if(currentCluster->parent != NULL){
-- 
2.43.0


From dee53b78d7871ad7e4a053106f3d1f4d0ab0fcba Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:24 +0000
Subject: [PATCH 10/59] fix: give a root cluster without children its own
 lowest death level

---
 src/cluster.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cluster.c b/src/cluster.c
index 441b432..3bc4dac 100644
--- a/src/cluster.c
+++ b/src/cluster.c
@@ -148,12 +148,13 @@ int cluster_detach_points(cluster* cl, index_t numPoints, distance_t level){
  */
 void cluster_propagate(cluster* cl){
 
+	//A cluster without descendants has its own death level as the lowest one:
+	if (cl->propagatedLowestChildDeathLevel == D_MAX){
+		cl->propagatedLowestChildDeathLevel = cl->deathLevel;
+	}
+
 	if (cl->parent != NULL) {
 		//Propagate lowest death level of any descendants:
-        if (cl->propagatedLowestChildDeathLevel == D_MAX){
-        	cl->propagatedLowestChildDeathLevel = cl->deathLevel;
-		}
-
 		if (cl->propagatedLowestChildDeathLevel < cl->parent->propagatedLowestChildDeathLevel){
 			cl->parent->propagatedLowestChildDeathLevel = cl->propagatedLowestChildDeathLevel;
 		}
-- 
2.43.0


From 8505684db7d1bd5458a9666777441b2b917c9be5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:24 +0000
Subject: [PATCH 11/59] fix: release the virtual child cluster and not the
 parent

---
 src/cluster.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cluster.c b/src/cluster.c
index 3bc4dac..092e1a8 100644
--- a/src/cluster.c
+++ b/src/cluster.c
@@ -230,8 +230,9 @@ void cluster_add_constraints_satisfied(cluster* cl, index_t numConstraints){
 
 void cluster_release_virtual_child(cluster* cl){
 
-	if(cl->parent != NULL){
-		cluster_destroy(cl->parent);
+	if(cl->virtualChildCluster != NULL){
+		set_delete(cl->virtualChildCluster);
+		cl->virtualChildCluster = NULL;
 	}
 }
 
-- 
2.43.0


From 5db58f2b461369341b82cd1c6d8366a1ab1aa240 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:24 +0000
Subject: [PATCH 12/59] fix: create cluster maps of fewer than three labels

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 8fd4a9d..6819f2c 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1229,7 +1229,7 @@ hashtable* hdbscan_create_cluster_map(label_t* labels, index_t begin, index_t en
 		hashtable_lookup(clusterTable, lb, &clusterList);
 
 		if(clusterList == NULL){
-			clusterList = array_list_init(size/3, sizeof(index_t), NULL);
+			clusterList = array_list_init((size_t)(size/3 + 1), sizeof(index_t), NULL);
 			if(sizeof(index_t) == sizeof(int)) {
 				clusterList->compare = int_compare;
 			} else if(sizeof(index_t) == sizeof(long)) {
-- 
2.43.0


From d840fdf967ae9884ee1dc0dc3a1af7247bde4339 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:24 +0000
Subject: [PATCH 13/59] fix: start the variance sums at zero

---
 src/hdbscan.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 6819f2c..41e8e56 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1447,6 +1447,8 @@ void hdbscan_calculate_stats_helper(distance_t* cr, distance_t* dr, clustering_s
 	stats->intraDistanceValues.mean = stats->intraDistanceValues.mean/stats->count;
 
 	/// Calculate the variance
+	stats->coreDistanceValues.variance = 0;
+	stats->intraDistanceValues.variance = 0;
 	distance_t sum_sc = 0;
 	distance_t sum_sd = 0;
 	distance_t sum_dc = 0;
-- 
2.43.0


From df71226a13054a70dccabe2545b0c02622fc187e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:41 +0000
Subject: [PATCH 14/59] fix: sort the given clusters by their own confidences

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 41e8e56..98ed3da 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1696,7 +1696,7 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
 #pragma omp parallel for private(key, dv, conf)
 #endif
 		for(size_t i = 0; i < clusters->size; i++){
-			key = ((label_t *)distanceMap->keys->data)[i];			
+			key = ((label_t *)clusters->data)[i];
 			hashtable_lookup(distanceMap, &key, &dv);
 			
 			if(distanceType == CORE_DISTANCE_TYPE){
-- 
2.43.0


From 9250595d5f3c968d2d31233bb174f48e52107c11 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:41 +0000
Subject: [PATCH 15/59] fix: sort all clusters of the table when the given list
 is empty

---
 src/hdbscan.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 98ed3da..d23bdd1 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1651,7 +1651,7 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
 		distances = array_list_init(hashtable_size(distanceMap), sizeof(distance_t), NULL);
 
 	} else{
-		distances = array_list_init(clusters->size, sizeof(distance_t), NULL);
+		distances = array_list_init(clusters->size + 1, sizeof(distance_t), NULL);
 	}
 	
 	if(sizeof(distance_t) == sizeof(double)) {
@@ -1739,7 +1739,7 @@ ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 
 		lengths = array_list_init(hashtable_size(clusterTable), sizeof(distance_t), NULL);
 	} else{
-		lengths = array_list_init(clusters->size, sizeof(distance_t), NULL);
+		lengths = array_list_init(clusters->size + 1, sizeof(distance_t), NULL);
 	}
 	
 	if(sizeof(distance_t) == sizeof(double)) {
@@ -1755,7 +1755,7 @@ ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 		for(size_t i = 0; i < hashtable_size(clusterTable); i++)
 		{
 			ArrayList *lst = NULL;
-			key = ((label_t *)clusterTable->keys)[i];
+			key = ((label_t *)clusterTable->keys->data)[i];
 			hashtable_lookup(clusterTable, &key, &lst);
 			array_list_append(clusters, &key);
 			distance_t tmp = (distance_t)lst->size;
-- 
2.43.0


From 7b5645b5c6a7deddb59c781b29d91204ce0f8abd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:41 +0000
Subject: [PATCH 16/59] fix: terminate when confidences are not a number

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index d23bdd1..5dcff2f 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1569,7 +1569,7 @@ void partition(label_t *c_data, distance_t *d_data, int lower, int upper, int* p
 	int down = upper; /* index will go down */
 
 	while(up < down){
-		while((up < down) && (d_data[up] <= x)) {
+		while((up < down) && !(d_data[up] > x)) {
 			up++;
 		}
 
-- 
2.43.0


From f1ef0c9658f9c8e7a945ba7906735d0967eaab64 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:02 +0000
Subject: [PATCH 17/59] fix: build the hierarchy file names in initialised
 buffers of sufficient size

---
 src/hdbscan.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 5dcff2f..299f3f2 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1863,16 +1863,16 @@ void hdbscan_print_hierarchies(hashtable* hierarchy, index_t numPoints, char *fi
 
 	if(filename != NULL){
 
-		char visFilename[300];
-		strcat(visFilename, filename);
+		char visFilename[strlen(filename) + sizeof("_visualization.vis")];
+		strcpy(visFilename, filename);
 		strcat(visFilename, "_visualization.vis");
 		visFile = fopen(visFilename, "w");
 		fprintf(visFile, "1\n");
 		fprintf(visFile, "%ld\n", hashtable_size(hierarchy));
 		fclose(visFile);
 
-		char hierarchyFilename[100];
-		strcat(hierarchyFilename, filename);
+		char hierarchyFilename[strlen(filename) + sizeof("_hierarchy.csv")];
+		strcpy(hierarchyFilename, filename);
 		strcat(hierarchyFilename, "_hierarchy.csv");
 		hierarchyFile = fopen(hierarchyFilename, "w");
 	}
-- 
2.43.0


From fbb3a84b29f951b390f33102b050b05489ccc52a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:02 +0000
Subject: [PATCH 18/59] fix: size the print buffers for values of any magnitude

---
 src/distance.c         | 2 +-
 src/hdbscan.c          | 6 +++---
 src/undirected_graph.c | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/distance.c b/src/distance.c
index cc5de4f..dfb43ec 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -278,7 +278,7 @@ void distance_get_core_distances(distance *dis)
  */
 void distances_print(distance *dis) {
 	
-	char s[20];
+	char s[512]; // a value can take up to 317 characters
 	for (index_t i = 0; i < dis->rows; i++) {
 		logger_write(NONE, "[");
 
diff --git a/src/hdbscan.c b/src/hdbscan.c
index 299f3f2..db74283 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1919,7 +1919,7 @@ void hdbscan_print_hierarchies(hashtable* hierarchy, index_t numPoints, char *fi
 
 void hdbscan_print_outlier_scores(outlier_score* scores, index_t numPoints) {
 	
-	char s[100];
+	char s[1024]; // two values of up to 317 characters
 	logger_write(NONE, "\n////////////////////////////////////////////////////// Printing outlier Scores //////////////////////////////////////////////////////\n");
 
 	for(index_t i = 0; i < numPoints; i++) {
@@ -1938,7 +1938,7 @@ void hdbscan_print_outlier_scores(outlier_score* scores, index_t numPoints) {
  * @param distancesMap 
  */
 void hdbscan_print_distance_map(hashtable* distancesMap){
-	char s[512];
+	char s[2560]; // six values of up to 317 characters
 	logger_write(NONE, "\n/////////////////////////////////////////////////////// Printing Distances ///////////////////////////////////////////////////////\n");
 
 	for(size_t i = 0; i < hashtable_size(distancesMap); i++)
@@ -1965,7 +1965,7 @@ void hdbscan_print_distance_map(hashtable* distancesMap){
  * \param stats 
  */
 void hdbscan_print_stats(clustering_stats* stats){
-	char s[1200];
+	char s[6144]; // twelve values of up to 317 characters
 	sprintf(s, "////////////////////////////////////////////////////// Statistical Values ////////////////////////////////////////////////////////\n");
 	sprintf(s + strlen(s), "Cluster Count 					: %d\n", stats->count);
 	sprintf(s + strlen(s), "Core Distances - Max 			: %.5f\n", stats->coreDistanceValues.max);
diff --git a/src/undirected_graph.c b/src/undirected_graph.c
index 5e0d6f8..a2648a3 100644
--- a/src/undirected_graph.c
+++ b/src/undirected_graph.c
@@ -268,7 +268,7 @@ void graph_print(UndirectedGraph* g) {
 	index_t* da = g->verticesA->data;
 	index_t* db = g->verticesB->data;
 
-	char s[300];
+	char s[512]; // a weight can take up to 317 characters
 	sprintf(s,
 			"numVertices: %d, verticesA.length: %ld,  verticesB.length: %ld, edgeWeights.length: %ld, edges.length: %d\n",
 			g->numVertices, g->verticesA->size, g->verticesB->size, g->edgeWeights->size, g->numVertices);
-- 
2.43.0


From c6c3dfa9926c928987c4fb98145705e846de210a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:11 +0000
Subject: [PATCH 19/59] fix: clean() must not free the C++ object itself

---
 src/hdbscan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index e4b3b75..c52c423 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -85,7 +85,7 @@ void hdbscan::calculateOutlierScores(distance_t* pointNoiseLevels, label_t* poin
 }
 
 void hdbscan::clean(){
-	hdbscan_destroy(this);
+	hdbscan_clean(this);
 }
 
 map_t createClusterMap(label_t* labels, index_t begin, index_t end){
-- 
2.43.0


From 5b4fd0a7f85376445c2f9b39f9cf3648e412c662 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:34 +0000
Subject: [PATCH 20/59] fix: give the C++ structures the memory layout of the C
 structures

---
 include/hdbscan/cluster.h          | 2 +-
 include/hdbscan/constraint.h       | 2 +-
 include/hdbscan/outlier_score.h    | 2 +-
 include/hdbscan/undirected_graph.h | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/hdbscan/cluster.h b/include/hdbscan/cluster.h
index 4e53711..0f4431f 100644
--- a/include/hdbscan/cluster.h
+++ b/include/hdbscan/cluster.h
@@ -87,7 +87,7 @@ public:
 	 */
 	Cluster(label_t label, Cluster* parent, distance_t birthLevel, index_t numPoints);
 
-	virtual ~Cluster();
+	~Cluster();
 
 	/**
 	 * @brief Removes the specified number of points from this cluster at the given edge level, which will
diff --git a/include/hdbscan/constraint.h b/include/hdbscan/constraint.h
index 8d97014..adae753 100644
--- a/include/hdbscan/constraint.h
+++ b/include/hdbscan/constraint.h
@@ -80,7 +80,7 @@ public:
 	 * @param type The CONSTRAINT_TYPE of the constraint
 	 */
 	Constraint(int pointA, int pointB, CONSTRAINT_TYPE type);
-	virtual ~Constraint();
+	~Constraint();
 #endif
 
 
diff --git a/include/hdbscan/outlier_score.h b/include/hdbscan/outlier_score.h
index 5ff5923..71b8efa 100644
--- a/include/hdbscan/outlier_score.h
+++ b/include/hdbscan/outlier_score.h
@@ -76,7 +76,7 @@ public:
 	 * @brief Destroy the Outlier Score object
 	 * 
 	 */
-	virtual ~OutlierScore();
+	~OutlierScore();
 
 	// ------------------------------ PUBLIC METHODS ------------------------------
 	/**
diff --git a/include/hdbscan/undirected_graph.h b/include/hdbscan/undirected_graph.h
index d7a6c1d..d4e9a03 100644
--- a/include/hdbscan/undirected_graph.h
+++ b/include/hdbscan/undirected_graph.h
@@ -56,7 +56,7 @@ struct UndirectedGraph {
 
 #ifdef __cplusplus
 public:
-	virtual ~UndirectedGraph();
+	~UndirectedGraph();
 	// ------------------------------ CONSTRUCTORS ------------------------------
 
 	/**
-- 
2.43.0


From 78a6be821871660eee20c5e8c927c10e4dd7d080 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:34 +0000
Subject: [PATCH 21/59] fix: construct an empty C++ graph without dereferencing
 missing lists

---
 src/undirected_graph.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/undirected_graph.cpp b/src/undirected_graph.cpp
index 2404ad3..30c9416 100644
--- a/src/undirected_graph.cpp
+++ b/src/undirected_graph.cpp
@@ -40,7 +40,12 @@
 namespace clustering {
 
 UndirectedGraph::UndirectedGraph(){
-	graph_init(this, 0, NULL, NULL, NULL);
+	// An empty graph has no edge lists
+	numVertices = 0;
+	verticesA = NULL;
+	verticesB = NULL;
+	edgeWeights = NULL;
+	edges = NULL;
 }
 
 UndirectedGraph::~UndirectedGraph(){
-- 
2.43.0


From b90cd74263e4a45c80f6cbb5cee4e144a5ef785c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:34 +0000
Subject: [PATCH 22/59] fix: calculate the outlier scores in the C++ interface

---
 src/hdbscan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index c52c423..69eac19 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -81,7 +81,7 @@ void hdbscan::findProminentClusters(boolean infiniteStability){
 }
 
 void hdbscan::calculateOutlierScores(distance_t* pointNoiseLevels, label_t* pointLastClusters, boolean infiniteStability){
-	// TODO
+	hdbscsan_calculate_outlier_scores(this, pointNoiseLevels, pointLastClusters, infiniteStability);
 }
 
 void hdbscan::clean(){
-- 
2.43.0


From a5b042775edd9f6112917ad5a6bdd85f097b2ef3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:34 +0000
Subject: [PATCH 23/59] fix: keep the capacity of a list in step when clearing
 shrinks it

---
 modules/collections/src/list.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/collections/src/list.c b/modules/collections/src/list.c
index 18b2b5b..4e79a7e 100644
--- a/modules/collections/src/list.c
+++ b/modules/collections/src/list.c
@@ -281,6 +281,7 @@ void array_list_clear(ArrayList* list, int32_t resize)
 	list->size = 0;
 	if(resize) {
 		list->data = realloc(list->data, list->step);
+		list->max_size = 1;
 	}
 }
 
-- 
2.43.0


From f7b9bb94ffcff75ece84df5e6f7dd4b57f9643b7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:34 +0000
Subject: [PATCH 24/59] fix: keep both neighbours linked when a linked list
 node is removed

---
 modules/collections/src/linkedlist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/collections/src/linkedlist.c b/modules/collections/src/linkedlist.c
index ccbb195..886cfca 100644
--- a/modules/collections/src/linkedlist.c
+++ b/modules/collections/src/linkedlist.c
@@ -257,7 +257,6 @@ void linkedlist_node_unhook(linkedlist* list, node* nd)
     if(nd->prev != NULL)
     {
         nd->prev->next = nd->next;
-        nd->prev = NULL;
     } else { // this is the first node
         list->head = nd->next;
 
@@ -271,7 +270,6 @@ void linkedlist_node_unhook(linkedlist* list, node* nd)
     if(nd->next != NULL)
     {
         nd->next->prev = nd->prev;
-        nd->next = NULL;
     } else { // This is the las node
         list->tail = nd->prev;
         if(list->tail != NULL)
@@ -279,6 +277,8 @@ void linkedlist_node_unhook(linkedlist* list, node* nd)
             list->tail->next = NULL;
         }
     }
+    nd->prev = NULL;
+    nd->next = NULL;
     list->size--;
 }
 
-- 
2.43.0


From 98fdb38a74d07df747bc645906b4efb8e5782c1b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:34 +0000
Subject: [PATCH 25/59] fix: release the node when a look-up removes it from
 the linked list

---
 modules/collections/src/linkedlist.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modules/collections/src/linkedlist.c b/modules/collections/src/linkedlist.c
index 886cfca..38fed14 100644
--- a/modules/collections/src/linkedlist.c
+++ b/modules/collections/src/linkedlist.c
@@ -290,9 +290,14 @@ void* linkedlist_lookup(linkedlist *list, void* data, int32_t remove, int32_t (*
     node* tmp = linkedlist_lookup_helper(list, data, d_compare);
 
     // Unhook the node from the list
-    if(remove == 1)
+    if(remove == 1 && tmp != NULL)
     {
         linkedlist_node_unhook(list, tmp);
+
+        // The caller takes over the data, the node itself is not needed
+        void* ret = tmp->data;
+        free(tmp);
+        return ret;
     }
 
     return tmp ? tmp->data : tmp;
-- 
2.43.0


From fbafad0b854cebaec69ac8e46bb2059a47065604 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:34 +0000
Subject: [PATCH 26/59] fix: keep collision chains linked when an entry is
 removed

---
 modules/collections/src/hashtable.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index e9b6d9c..fe68ad9 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -297,7 +297,6 @@ int32_t hashtable_remove(hashtable* htbl, void* key, void* data)
     if(entry->prev != NULL)
     {
         entry->prev->next = entry->next;
-        entry->prev = NULL;
     } else { // this is the first entry
         htbl->table[bucket] = entry->next;
         if(htbl->table[bucket] != NULL)
-- 
2.43.0


From 373d063475c41c4ff338af60f9fc9dc0cad7497d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:34 +0000
Subject: [PATCH 27/59] fix: hand back the whole value of a removed entry

---
 modules/collections/src/hashtable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index fe68ad9..1aad584 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -317,7 +317,7 @@ int32_t hashtable_remove(hashtable* htbl, void* key, void* data)
     }
 
     // destroy the node and get the data
-    hashtable_entry_destroy(entry, data, get_htype_size(htbl->ktype));
+    hashtable_entry_destroy(entry, data, get_htype_size(htbl->dtype));
     htbl->size--;    
     set_remove(htbl->keys, key);
 
-- 
2.43.0


From 8d95869e125fd979d9256a71edc5cb3e4f438827 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:05 +0000
Subject: [PATCH 28/59] fix: destroy the key of every entry when clearing a
 hash table

---
 modules/collections/src/hashtable.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index 1aad584..1f5c776 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -359,6 +359,7 @@ int32_t hashtable_clear(hashtable* htbl, void (*key_destroy)(void *key), void (*
         {
             tmp = entry;
             entry = entry->next;
+            memcpy(key, tmp->key, get_htype_size(htbl->ktype)); /// every entry has its own key
             hashtable_entry_destroy(tmp, data, dsize);
 
             if(key_destroy != NULL && *(void **)key != NULL)
-- 
2.43.0


From 95ead0e1ebe44c00bebb91143335093ab45290bb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:31 +0000
Subject: [PATCH 29/59] fix: find primes beyond the prime table

---
 .../collections/include/collections/primes.h  |  2 +-
 modules/collections/src/primes.c              | 58 +++++++++++++------
 2 files changed, 40 insertions(+), 20 deletions(-)

diff --git a/modules/collections/include/collections/primes.h b/modules/collections/include/collections/primes.h
index df7efb4..67cc299 100644
--- a/modules/collections/include/collections/primes.h
+++ b/modules/collections/include/collections/primes.h
@@ -72,7 +72,7 @@ int32_t get_prime(int32_t min);
  */
 int32_t binary_search_primes(int32_t l, int32_t r, int32_t x) ;
 
-#define p_sz 200
+#define p_sz 198
 // Creating an array of prime numbers for creating key hashes
 // We only need 120 primes from 29 to 409. If we need more we
 // will have to calculate them.
diff --git a/modules/collections/src/primes.c b/modules/collections/src/primes.c
index d1270b8..88ee7c4 100644
--- a/modules/collections/src/primes.c
+++ b/modules/collections/src/primes.c
@@ -38,25 +38,39 @@
  */
 #include "collections/primes.h"
 
-int32_t get_prime(int32_t min)
+/**
+ * Check by trial division whether num is a prime number.
+ */
+static int is_prime(int32_t num)
 {
-    int32_t prime, n_primes = 0;
+    if(num < 4)
+    {
+        return num > 1;
+    }
 
-    for(int i = min + 1; n_primes < INT_MAX; i++)
+    if(num % 2 == 0)
     {
-        for (int j = 0; i < n_primes; i++)
+        return 0;
+    }
+
+    for(int32_t i = 3; i <= num / i; i += 2)
+    {
+        if(num % i == 0)
         {
-            if (i % primes[j] == 0) {
-                goto not_prime;
-            }
+            return 0;
         }
+    }
+
+    return 1;
+}
 
-        // Once we have found a prime, then we need to exit the loop
-        prime = i;
-        break;
-        
-        not_prime:
-            ;
+int32_t get_prime(int32_t min)
+{
+    int32_t prime = min + 1;
+
+    while(!is_prime(prime))
+    {
+        prime++;
     }
 
     return prime;
@@ -102,10 +116,16 @@ int32_t binary_search_primes(int32_t l, int32_t r, int32_t x)
  */ 
 int32_t find_prime_less_than(int32_t num)
 {
-    //if(num > primes[sz-1])
-   // {
-   //     return get_prime(num);
-   // } else {
+    // Primes above the last one in the table have to be calculated
+    if(num > primes[p_sz-1])
+    {
+        int32_t prime = num - 1;
+        while(!is_prime(prime))
+        {
+            prime--;
+        }
+        return prime;
+    }
+
     return binary_search_primes(0, p_sz-1, num);
-    //}
-}
\ No newline at end of file
+}
-- 
2.43.0


From d89a50f89e372e4de14a475e3d33ad0128b42024 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:02 +0000
Subject: [PATCH 30/59] fix: give each thread its own cluster pointer when
 assigning offsets

---
 src/hdbscan.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index db74283..73f2592 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -673,14 +673,12 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 		}
 
 		// Assign offsets and calculate the number of constraints satisfied:
-		cluster* newCluster = NULL;
-		
 		#ifdef _OPENMP
 		#pragma omp parallel for
 		#endif
 		for(i = 0; i < array_list_size(newClusters); i++)
 		{
-			newCluster = ((cluster**)newClusters->data)[i];
+			cluster* newCluster = ((cluster**)newClusters->data)[i];
 			newCluster->offset = lineCount;
 		}
 		
-- 
2.43.0


From d0974b1b0097d06b32c1fdd2fcac93023a9cfbb9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:02 +0000
Subject: [PATCH 31/59] fix: do not compute skewness and kurtosis in every
 thread at once

---
 src/hdbscan.c | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 73f2592..d1d7398 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1343,19 +1343,12 @@ void hdbscan_destroy_distance_map(hashtable* table){
  */
 void hdbscan_skew_kurt_1(clustering_stats* stats, distance_t sum_sc, distance_t sum_sd, distance_t sum_dc, distance_t sum_dd)
 {
-	#ifdef _OPENMP
-	#pragma omp parallel
-	{
-	#endif
 	//int32_t N = stats->count;
 	stats->coreDistanceValues.skewness = (distance_t)(sum_sc / (stats->count * pow(stats->coreDistanceValues.standardDev, 3)));
 	stats->intraDistanceValues.skewness = (distance_t)(sum_sd / (stats->count * pow(stats->intraDistanceValues.standardDev, 3)));
 
 	stats->coreDistanceValues.kurtosis = (distance_t)((sum_dc / (stats->count * pow(stats->coreDistanceValues.standardDev, 4))) - 3);
 	stats->intraDistanceValues.kurtosis = (distance_t)((sum_dd / (stats->count *pow(stats->intraDistanceValues.standardDev, 4))) - 3);
-	#ifdef _OPENMP
-	}
-	#endif
 }
 
 /**
@@ -1372,10 +1365,6 @@ void hdbscan_skew_kurt_1(clustering_stats* stats, distance_t sum_sc, distance_t
 void hdbscan_skew_kurt_2(clustering_stats* stats, distance_t sum_sc, distance_t sum_sd, distance_t sum_dc, distance_t sum_dd)
 {
 
-	#ifdef _OPENMP
-	#pragma omp parallel
-	{
-	#endif
 	index_t N = stats->count;
 	
 	// Calculate the skewness
@@ -1404,9 +1393,6 @@ void hdbscan_skew_kurt_2(clustering_stats* stats, distance_t sum_sc, distance_t
 		stats->coreDistanceValues.kurtosis = (distance_t)(0.0/0.0);
 		stats->intraDistanceValues.kurtosis = (distance_t)(0.0/0.0);
 	}
-	#ifdef _OPENMP
-	}
-	#endif
 }
 
 /**
-- 
2.43.0


From 003d344f6b5e31b6f09af5ec752796b009dd655c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:02 +0000
Subject: [PATCH 32/59] fix: ignore a zero core distance of the first member as
 of any other member

---
 src/hdbscan.c   | 2 +-
 src/hdbscan.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index d1d7398..a876ac4 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1291,7 +1291,7 @@ hashtable* hdbscan_get_min_max_distances(hdbscan* sc, hashtable* clusterTable){
 				hashtable_insert(distanceMap, &key, &dl);
 			} else {
 
-				if(dl->min_cr > core[index] && (core[index] < zero || core[index] > zero)){
+				if((dl->min_cr > core[index] || dl->min_cr == zero) && (core[index] < zero || core[index] > zero)){
 					dl->min_cr = core[index];
 				}
 
diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index 69eac19..e401792 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -125,7 +125,7 @@ map<label_t, distance_values> getMinMaxDistances(hdbscan& scan, map_t& clusterTa
 			} else{
 				distance_values& dl = iter->second;
 				// min core distance
-				if(dl.min_cr > core[index] && (core[index] < zero || core[index] > zero)){
+				if((dl.min_cr > core[index] || dl.min_cr == zero) && (core[index] < zero || core[index] > zero)){
 					dl.min_cr = core[index];
 				}
 
-- 
2.43.0


From d14581b88c7f6384627406913eb947017c2d343d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:02 +0000
Subject: [PATCH 33/59] fix: report an error when an object that holds no
 distances is re-run

---
 src/hdbscan.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index a876ac4..83fc251 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -278,6 +278,11 @@ int hdbscan_do_run(hdbscan* sc){
  * @return int 
  */
 int hdbscan_rerun(hdbscan* sc, index_t minPts){
+	// there is nothing to extract clusters from before the first run
+	if(sc->distanceFunction.distances == NULL || sc->clusters == NULL){
+		return HDBSCAN_ERROR;
+	}
+
 	// clean the hdbscan
 	hdbscan_minimal_clean(sc);
 	
-- 
2.43.0


From 54b5b3b327b4eb1e946bac669297e48fa6a2f309 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:05 +0000
Subject: [PATCH 34/59] fix: give every Python object its own clustering state

---
 modules/python/src/PyHdbscan.c | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index a2a08e1..1868b97 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -54,8 +54,6 @@
             PyModuleDef_HEAD_INIT, name, doc, -1, methods, }; \
         ob = PyModule_Create(&PyHdbscanNodule);
 
-hdbscan* scan = NULL;
-
 /**
  * @brief PyHdbscan object
  * 
@@ -66,6 +64,7 @@ typedef struct {
     PyObject* clusterMap;
     PyObject* hierarchy;
 	index_t minPoints, cols, rows;
+    hdbscan* scan;
 } PyHdbscan;
 
 /**
@@ -74,7 +73,9 @@ typedef struct {
  * @param self 
  */
 static void PyHdbscan_dealloc(PyHdbscan* self){
-	hdbscan_clean(scan);
+    if(self->scan != NULL){
+        hdbscan_destroy(self->scan);
+    }
     Py_XDECREF(self->labels);
     Py_XDECREF(self->clusterMap);
     Py_XDECREF(self->hierarchy);
@@ -102,6 +103,7 @@ PyHdbscan_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
 		self->minPoints = 0;
 		self->rows = 0;
 		self->cols = 0;
+        self->scan = NULL;
     }
 
     return (PyObject *)self;
@@ -136,7 +138,10 @@ PyHdbscan_init(PyHdbscan *self, PyObject *args, PyObject *kwds)
 		return -1;
 	} 
 	
-    scan = hdbscan_init(NULL, self->minPoints);
+    if(self->scan != NULL){
+        hdbscan_destroy(self->scan); // __init__ can be called more than once
+    }
+    self->scan = hdbscan_init(NULL, self->minPoints);
 	
     return 0;
 }
@@ -227,10 +232,10 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
     }
 	
     void *dset = PyArray_DATA(d_arr); /// The contigous array
-	int err = hdbscan_run(scan, dset, self->rows, self->cols, TRUE, datatype);
+	int err = hdbscan_run(self->scan, dset, self->rows, self->cols, TRUE, datatype);
 
     npy_intp dims[] = {self->rows, 1}; // Dimensions for the labels numpy array
-    get_labels(self, scan->clusterLabels);
+    get_labels(self, self->scan->clusterLabels);
 
     Py_INCREF(self->labels);
     Py_XDECREF(dataset); // Release the dataset memory
@@ -255,7 +260,7 @@ static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
 		return NULL;
 	} 
 	
-	int err = hdbscan_rerun(scan, self->minPoints);
+	int err = hdbscan_rerun(self->scan, self->minPoints);
 
     npy_intp dims[] = {self->rows, 1};
     enum NPY_TYPES tp = NPY_SHORT;
@@ -266,7 +271,7 @@ static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
         tp = NPY_LONG;
     }
 
-    get_labels(self, scan->clusterLabels);
+    get_labels(self, self->scan->clusterLabels);
     Py_INCREF(self->labels);
 	
 	return Py_BuildValue("i", err);
@@ -287,7 +292,7 @@ static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
     }
 
     int err = 1;
-    hashtable* tmp = hdbscan_create_cluster_map(scan->clusterLabels, begin, end);
+    hashtable* tmp = hdbscan_create_cluster_map(self->scan->clusterLabels, begin, end);
     self->clusterMap = PyDict_New();
     label_t label;
 
@@ -321,11 +326,11 @@ static PyObject* PyHdbscan_getHierarchies(PyHdbscan *self, PyObject *args) {
     int64_t level;
 	hierarchy_entry* data;
 
-    for(size_t i = 0; i < hashtable_size(scan->hierarchy); i++) {
+    for(size_t i = 0; i < hashtable_size(self->scan->hierarchy); i++) {
         
-		set_value_at(scan->hierarchy->keys, i, &level);
-        hashtable_lookup(scan->hierarchy, &level, &data);
-        npy_intp dims[] = {scan->numPoints, 1};
+		set_value_at(self->scan->hierarchy->keys, i, &level);
+        hashtable_lookup(self->scan->hierarchy, &level, &data);
+        npy_intp dims[] = {self->scan->numPoints, 1};
         PyObject* value = PyArray_SimpleNewFromData(1, dims, tp, data->labels);
         PyObject* key = Py_BuildValue("k", level);
         PyDict_SetItem(self->hierarchy, key, value);
-- 
2.43.0


From 46f6d725bbfca691a421ffdb1c85323012592eea Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:05 +0000
Subject: [PATCH 35/59] fix: do not exhaust the stack when minPts is far larger
 than the data set

---
 src/distance.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/distance.c b/src/distance.c
index dfb43ec..a8b2e0d 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -216,7 +216,14 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
  */
 void distance_get_core_distances(distance *dis)
 {
-	
+	/// There are not enough points to have that many neighbours
+	if(dis->numNeighbors >= dis->rows) {
+		for (index_t i = 0; i < dis->rows; i++) {
+			dis->coreDistances[i] = D_MAX;
+		}
+		return;
+	}
+
 	distance_t sortedDistance[dis->numNeighbors+1];
 #ifdef _OPENMP	
 #pragma omp parallel for private(sortedDistance)
-- 
2.43.0


From 385f6ab30864fafa03878ffeec76c805ac24c7c3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 36/59] fix: raise exceptions for invalid arguments in the
 Python module

---
 modules/python/src/PyHdbscan.c | 85 +++++++++++++++++++++++++++-------
 1 file changed, 68 insertions(+), 17 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index 1868b97..fdda674 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -109,6 +109,21 @@ PyHdbscan_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
     return (PyObject *)self;
 }
 
+/**
+ * @brief Check that minPoints is a value the clustering accepts and set an
+ * exception if it is not.
+ * 
+ * @param minPoints 
+ * @return int 
+ */
+static int check_min_points(Py_ssize_t minPoints){
+    if(minPoints < 2 || minPoints > INT_MAX || (Py_ssize_t)(index_t)minPoints != minPoints){
+        PyErr_SetString(PyExc_ValueError, "minPoints must be at least 2 and fit the index type");
+        return -1;
+    }
+    return 0;
+}
+
 /**
  * @brief 
  * 
@@ -122,21 +137,15 @@ PyHdbscan_init(PyHdbscan *self, PyObject *args, PyObject *kwds)
 {
     static char *kwlist[] = {"minPoints", NULL};
 
-    char* c;
-    if(sizeof(index_t) == sizeof(int)) {
-        c = "I";
-    } else if(sizeof(index_t) == sizeof(long)) {
-        c = "k";
-    } else {
-        c ="H";
-    }
+    Py_ssize_t minPoints;
 
-    if (!PyArg_ParseTupleAndKeywords(args, kwds, c, kwlist, &self->minPoints))
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "n", kwlist, &minPoints))
         return -1;
     
-    if(self->minPoints < 2){
+    if(check_min_points(minPoints) < 0){
 		return -1;
 	} 
+    self->minPoints = (index_t)minPoints;
 	
     if(self->scan != NULL){
         hdbscan_destroy(self->scan); // __init__ can be called more than once
@@ -183,8 +192,18 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
     if (! PyArg_ParseTuple(args, "O", &dataset)){
         return NULL;
 	}
+
+    if(self->scan == NULL){
+        PyErr_SetString(PyExc_RuntimeError, "the object has not been initialised");
+        return NULL;
+    }
     
-    int typenum = PyArray_TYPE(dataset);
+    if(!PyArray_Check(dataset)){
+        PyErr_SetString(PyExc_TypeError, "dataset must be a numpy array");
+        return NULL;
+    }
+
+    int typenum = PyArray_TYPE((PyArrayObject*)dataset);
     uint datatype;
 
     /// Determine the datatype from the array
@@ -209,7 +228,7 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
         datatype = H_SHORT;
     }
     else{
-        printf("Unsupported datatype.\n");
+        PyErr_SetString(PyExc_TypeError, "unsupported datatype");
         return NULL;
     }
 
@@ -218,9 +237,21 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
     // Create a contigous array from dataset
     PyArrayObject* d_arr = (PyArrayObject*)PyArray_ContiguousFromAny(dataset, typenum, 0, 0);
 	
+    if(d_arr == NULL){
+        Py_DECREF(dataset);
+        return NULL;
+    }
+
     int nd = PyArray_NDIM(d_arr);
 	npy_intp *dimensions = PyArray_DIMS(d_arr);
 
+    if(nd < 1 || nd > 2 || dimensions[0] < 1){
+        PyErr_SetString(PyExc_ValueError, "dataset must have one or two dimensions and at least one row");
+        Py_DECREF(d_arr);
+        Py_DECREF(dataset);
+        return NULL;
+    }
+
     // Get numpy array dimensions
     if(nd == 1)
     {
@@ -251,14 +282,20 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
  * @return PyObject* 
  */
 static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
-	Py_XDECREF(self->labels); 
-    if (!PyArg_ParseTuple(args, "i", &self->minPoints))
+    Py_ssize_t minPoints;
+    if (!PyArg_ParseTuple(args, "n", &minPoints))
         return NULL;
     
-    if(self->minPoints < 2){
-        printf("minPts must be greater than 2.\n");
+    if(check_min_points(minPoints) < 0){
 		return NULL;
 	} 
+
+    if(self->scan == NULL || self->scan->clusterLabels == NULL){
+        PyErr_SetString(PyExc_RuntimeError, "rerun needs a previous run");
+        return NULL;
+    }
+    self->minPoints = (index_t)minPoints;
+    Py_CLEAR(self->labels);
 	
 	int err = hdbscan_rerun(self->scan, self->minPoints);
 
@@ -278,11 +315,21 @@ static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
 }
 
 static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
-    Py_XDECREF(self->clusterMap); 
     int32_t begin, end;
     if (!PyArg_ParseTuple(args, "ii", &begin, &end))
         return NULL;
 
+    if(self->scan == NULL || self->scan->clusterLabels == NULL){
+        PyErr_SetString(PyExc_RuntimeError, "getClusterMap needs a previous run");
+        return NULL;
+    }
+
+    if(begin < 0 || end < begin || (index_t)end > self->rows){
+        PyErr_SetString(PyExc_ValueError, "the range must lie within the dataset");
+        return NULL;
+    }
+    Py_XDECREF(self->clusterMap); 
+
     enum NPY_TYPES tp = NPY_SHORT;
 
     if(sizeof(label_t) == sizeof(int)) {
@@ -312,6 +359,10 @@ static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
 }
 
 static PyObject* PyHdbscan_getHierarchies(PyHdbscan *self, PyObject *args) {
+    if(self->scan == NULL || self->scan->hierarchy == NULL){
+        PyErr_SetString(PyExc_RuntimeError, "getHierarchies needs a previous run");
+        return NULL;
+    }
     Py_XDECREF(self->hierarchy); 
     enum NPY_TYPES tp = NPY_SHORT;
 
-- 
2.43.0


From e162f674d4bff80646a963260d2cb6641de24576 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 37/59] fix: let the arrays returned to Python own their memory

---
 modules/python/src/PyHdbscan.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index fdda674..6c59c3a 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -332,13 +332,12 @@ static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
 
     enum NPY_TYPES tp = NPY_SHORT;
 
-    if(sizeof(label_t) == sizeof(int)) {
+    if(sizeof(index_t) == sizeof(int)) {
         tp = NPY_INT;
-    } else if (sizeof(label_t) == sizeof(long)) {
+    } else if (sizeof(index_t) == sizeof(long)) {
         tp = NPY_LONG;
     }
 
-    int err = 1;
     hashtable* tmp = hdbscan_create_cluster_map(self->scan->clusterLabels, begin, end);
     self->clusterMap = PyDict_New();
     label_t label;
@@ -349,8 +348,8 @@ static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
         ArrayList* lst;
         hashtable_lookup(tmp, &label, &lst);
         npy_intp dims[] = {lst->size, 1};
-        label_t* labels = lst->data;
-        PyObject* value = PyArray_SimpleNewFromData(1, dims, tp, labels);
+        PyObject* value = PyArray_SimpleNew(1, dims, tp); // the array owns its memory
+        memcpy(PyArray_DATA((PyArrayObject*)value), lst->data, lst->size * lst->step);
         PyDict_SetItem(self->clusterMap, key, value);
     }
 
@@ -382,7 +381,8 @@ static PyObject* PyHdbscan_getHierarchies(PyHdbscan *self, PyObject *args) {
 		set_value_at(self->scan->hierarchy->keys, i, &level);
         hashtable_lookup(self->scan->hierarchy, &level, &data);
         npy_intp dims[] = {self->scan->numPoints, 1};
-        PyObject* value = PyArray_SimpleNewFromData(1, dims, tp, data->labels);
+        PyObject* value = PyArray_SimpleNew(1, dims, tp); // the array owns its memory
+        memcpy(PyArray_DATA((PyArrayObject*)value), data->labels, self->scan->numPoints * sizeof(label_t));
         PyObject* key = Py_BuildValue("k", level);
         PyDict_SetItem(self->hierarchy, key, value);
     }
-- 
2.43.0


From 715a4911d75b51a68a68db0621b6e71c0f243df2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 38/59] fix: balance the reference counts in the Python module

---
 modules/python/src/PyHdbscan.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index 6c59c3a..2c5bb44 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -171,10 +171,13 @@ void get_labels(PyHdbscan *self, label_t *labels){
         c ="H";
     }
     
+    Py_XDECREF(self->labels);
     self->labels = PyList_New(0);
 
 	for(uint i = 0; i < self->rows; i++){
-		PyList_Append(self->labels, Py_BuildValue(c, labels[i]));
+        PyObject* label = Py_BuildValue(c, labels[i]);
+		PyList_Append(self->labels, label);
+        Py_DECREF(label);
 	}
 }
 
@@ -268,7 +271,7 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
     npy_intp dims[] = {self->rows, 1}; // Dimensions for the labels numpy array
     get_labels(self, self->scan->clusterLabels);
 
-    Py_INCREF(self->labels);
+    Py_DECREF(d_arr);
     Py_XDECREF(dataset); // Release the dataset memory
 
 	return Py_BuildValue("i", err);
@@ -309,7 +312,6 @@ static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
     }
 
     get_labels(self, self->scan->clusterLabels);
-    Py_INCREF(self->labels);
 	
 	return Py_BuildValue("i", err);
 }
@@ -351,7 +353,10 @@ static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
         PyObject* value = PyArray_SimpleNew(1, dims, tp); // the array owns its memory
         memcpy(PyArray_DATA((PyArrayObject*)value), lst->data, lst->size * lst->step);
         PyDict_SetItem(self->clusterMap, key, value);
+        Py_DECREF(key);
+        Py_DECREF(value);
     }
+    hdbscan_destroy_cluster_map(tmp);
 
     Py_INCREF(self->clusterMap);
     return self->clusterMap;
@@ -385,9 +390,10 @@ static PyObject* PyHdbscan_getHierarchies(PyHdbscan *self, PyObject *args) {
         memcpy(PyArray_DATA((PyArrayObject*)value), data->labels, self->scan->numPoints * sizeof(label_t));
         PyObject* key = Py_BuildValue("k", level);
         PyDict_SetItem(self->hierarchy, key, value);
+        Py_DECREF(key);
+        Py_DECREF(value);
     }
     
-    Py_INCREF(self->hierarchy);
     return Py_BuildValue("i", err);
 }
 
-- 
2.43.0


From 400ecdf0d8d7c2aea8fded259fb8e0461b67d9a0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:05 +0000
Subject: [PATCH 39/59] fix: release the rows and the copy of the data set in
 the Java binding

---
 modules/java/src/Hdbscan.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/java/src/Hdbscan.cpp b/modules/java/src/Hdbscan.cpp
index b00d8a1..f0f90a7 100644
--- a/modules/java/src/Hdbscan.cpp
+++ b/modules/java/src/Hdbscan.cpp
@@ -68,6 +68,7 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_runImpl(JNIEnv *env,
 	int rows = env->GetArrayLength(dataset);
 	jdoubleArray dim=  (jdoubleArray)env->GetObjectArrayElement(dataset, 0);
 	int cols = env -> GetArrayLength(dim);
+	env->DeleteLocalRef(dim);
 	double *dset = new double[rows * cols];
 	long dIdx = 0;
 
@@ -79,10 +80,12 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_runImpl(JNIEnv *env,
 			dset[dIdx] = row[j];
 			dIdx++;
 		}
+		env->ReleaseDoubleArrayElements(dim, row, JNI_ABORT);
+		env->DeleteLocalRef(dim);
 	}
 	scan.run(dset, (index_t)rows, (index_t)cols, TRUE, H_DOUBLE);
 	
-	delete dset;
+	delete[] dset;
 	
 	return getLabelsArray(env, scan.clusterLabels, rows);
 }
-- 
2.43.0


From 4e78128b5d5c380b688bd8fa0fb8abd55399047c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:05 +0000
Subject: [PATCH 40/59] fix: export cleanHdbscan under the name the Java class
 looks up

---
 modules/java/src/Hdbscan.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/java/src/Hdbscan.cpp b/modules/java/src/Hdbscan.cpp
index f0f90a7..e8b2d5c 100644
--- a/modules/java/src/Hdbscan.cpp
+++ b/modules/java/src/Hdbscan.cpp
@@ -96,6 +96,6 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_reRunImpl(JNIEnv *en
 	return getLabelsArray(env, scan.clusterLabels, scan.numPoints);
 }
 
-JNIEXPORT void JNICALL Java_hdbscan_Hdbscan_cleanHdbscan(JNIEnv *, jobject){
-	//scan.clean();
+JNIEXPORT void JNICALL Java_bw_co_roguesystems_Hdbscan_cleanHdbscan(JNIEnv *, jobject){
+	scan.clean();
 }
-- 
2.43.0


From 9c3bbaceffb6c84db1d6dccef0e1a5d131449131 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:15 +0000
Subject: [PATCH 41/59] fix: give every Java object its own clustering state

---
 modules/java/src/Hdbscan.cpp                  | 35 ++++++++++++++++---
 .../java/src/bw/co/roguesystems/Hdbscan.java  |  3 ++
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/modules/java/src/Hdbscan.cpp b/modules/java/src/Hdbscan.cpp
index e8b2d5c..070151d 100644
--- a/modules/java/src/Hdbscan.cpp
+++ b/modules/java/src/Hdbscan.cpp
@@ -42,10 +42,33 @@
 #include <iostream>
 
 using namespace clustering;
-hdbscan scan;
+
+/**
+ * @brief The id of the field that holds the native object of a Java object
+ */
+static jfieldID getHandleField(JNIEnv *env, jobject obj){
+	return env->GetFieldID(env->GetObjectClass(obj), "handle", "J");
+}
+
+/**
+ * @brief The native object of a Java object. It is created when it is needed
+ * since it may have been released with cleanHdbscan.
+ */
+static hdbscan& getScan(JNIEnv *env, jobject obj){
+	jfieldID field = getHandleField(env, obj);
+	hdbscan* scan = (hdbscan *)env->GetLongField(obj, field);
+
+	if(scan == NULL){
+		jfieldID minPts = env->GetFieldID(env->GetObjectClass(obj), "minPoints", "I");
+		scan = new hdbscan((index_t)env->GetIntField(obj, minPts));
+		env->SetLongField(obj, field, (jlong)scan);
+	}
+
+	return *scan;
+}
 
 JNIEXPORT void JNICALL Java_bw_co_roguesystems_Hdbscan_initHdbscan(JNIEnv *env, jobject obj, jint minPoints){
-	hdbscan_init(&scan, minPoints);
+	getScan(env, obj);
 }
 
 jintArray getLabelsArray(JNIEnv *env, label_t *lbs, int rows){
@@ -83,6 +106,7 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_runImpl(JNIEnv *env,
 		env->ReleaseDoubleArrayElements(dim, row, JNI_ABORT);
 		env->DeleteLocalRef(dim);
 	}
+	hdbscan& scan = getScan(env, obj);
 	scan.run(dset, (index_t)rows, (index_t)cols, TRUE, H_DOUBLE);
 	
 	delete[] dset;
@@ -92,10 +116,13 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_runImpl(JNIEnv *env,
 
 
 JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_reRunImpl(JNIEnv *env, jobject obj, jint newMinPts){
+	hdbscan& scan = getScan(env, obj);
 	scan.reRun(newMinPts);	
 	return getLabelsArray(env, scan.clusterLabels, scan.numPoints);
 }
 
-JNIEXPORT void JNICALL Java_bw_co_roguesystems_Hdbscan_cleanHdbscan(JNIEnv *, jobject){
-	scan.clean();
+JNIEXPORT void JNICALL Java_bw_co_roguesystems_Hdbscan_cleanHdbscan(JNIEnv *env, jobject obj){
+	jfieldID field = getHandleField(env, obj);
+	delete (hdbscan *)env->GetLongField(obj, field);
+	env->SetLongField(obj, field, 0);
 }
diff --git a/modules/java/src/bw/co/roguesystems/Hdbscan.java b/modules/java/src/bw/co/roguesystems/Hdbscan.java
index dd284e1..e80939a 100644
--- a/modules/java/src/bw/co/roguesystems/Hdbscan.java
+++ b/modules/java/src/bw/co/roguesystems/Hdbscan.java
@@ -35,6 +35,8 @@ public class Hdbscan{
 	};
 
 	private int[] labels;
+	private int minPoints;
+	private long handle; // the native object, 0 if there is none
 	
 	 /**
 	  * Initialise hdbscan*
@@ -68,6 +70,7 @@ public class Hdbscan{
 	 * @param minPoints
 	 */
 	public Hdbscan(int minPoints){
+		this.minPoints = minPoints;
 		initHdbscan(minPoints);
 	}
 	
-- 
2.43.0


From a7d7fe420ad9f2f27a0e8206cae944c65bd469ec Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:44 +0000
Subject: [PATCH 42/59] fix: do not write past the vertex list when a tree is
 built without self edges

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 83fc251..61c1e10 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -954,7 +954,7 @@ int hdbscan_construct_mst(hdbscan* sc){
 
 		//Attach the closest point found in this iteration to the tree:
 		attachedPoints[nearestMRDPoint] = TRUE;
-		others[numAttachedPoints] = numAttachedPoints;
+		others[numAttachedPoints - 1] = (index_t)(numAttachedPoints - 1);
 		currentPoint = (index_t)nearestMRDPoint;
 	}
 
-- 
2.43.0


From 587cadd0db91f0bbdc406cd30c3a43fe0cc339ba Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:26 +0000
Subject: [PATCH 43/59] fix: removing a self edge removes one entry only

---
 src/undirected_graph.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/undirected_graph.c b/src/undirected_graph.c
index a2648a3..f4ce61f 100644
--- a/src/undirected_graph.c
+++ b/src/undirected_graph.c
@@ -255,11 +255,10 @@ void graph_remove_edge(UndirectedGraph* g, index_t va, index_t vb){
 	// find position for vb in the edge list for va
 	array_list_remove(g->edges[va], &vb);
 	
-	/**
-	 * Have to repeat for the opposite in case va=vb in which case calling this method twice
-	 * would miss the second time.
-	 */
-	array_list_remove(g->edges[vb], &va);
+	// a self edge has a single entry, other edges have one at each end
+	if(va != vb){
+		array_list_remove(g->edges[vb], &va);
+	}
 
 }
 
-- 
2.43.0


From 34a4a75f3dbcbbcf4f05e1ce31af720e778a6e6b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:21 +0000
Subject: [PATCH 44/59] fix: keep the array list's data when it cannot grow

---
 modules/collections/src/list.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modules/collections/src/list.c b/modules/collections/src/list.c
index 4e79a7e..2a35e03 100644
--- a/modules/collections/src/list.c
+++ b/modules/collections/src/list.c
@@ -119,12 +119,13 @@ int32_t array_list_value_at(ArrayList* list, size_t pos, void* data)
 int32_t array_list_grow(ArrayList* list){
 
 	size_t newmax = highestPowerof2(list->max_size*2);
-	list->data = realloc(list->data, newmax * list->step);
+	void* data = realloc(list->data, newmax * list->step);
 
-	if(list->data == NULL){
-		return -1;
+	if(data == NULL){
+		return -1; /// The list keeps its current data
 	}
 
+	list->data = data;
 	list->max_size = newmax;
 
 	return 1;
-- 
2.43.0


From 20cb7685af721f47fad4200dd2f582246a895abd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:21 +0000
Subject: [PATCH 45/59] fix: refuse to insert past the end of an array list or
 without room

---
 modules/collections/src/list.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modules/collections/src/list.c b/modules/collections/src/list.c
index 2a35e03..3451c6c 100644
--- a/modules/collections/src/list.c
+++ b/modules/collections/src/list.c
@@ -208,8 +208,12 @@ int32_t array_list_append(ArrayList* list, void* data)
 
 int32_t array_list_insert_at(ArrayList* list, void* data, size_t pos) {
 
-	if(list->size == list->max_size) {
-       array_list_grow(list);
+	if(pos > list->size) {
+		return 0;
+	}
+
+	if(list->size == list->max_size && array_list_grow(list) < 0) {
+		return 0;
     }
 
     size_t t1 = pos * list->step;					// Beginning of the source
-- 
2.43.0


From d2b3454c5b2e5b72e08e3cc7fb4a0396b16c38f6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:22 +0000
Subject: [PATCH 46/59] fix: remove the head or tail of a linked list when
 asked to

---
 modules/collections/src/linkedlist.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/modules/collections/src/linkedlist.c b/modules/collections/src/linkedlist.c
index 38fed14..f0163c4 100644
--- a/modules/collections/src/linkedlist.c
+++ b/modules/collections/src/linkedlist.c
@@ -389,7 +389,16 @@ void* linkedlist_tail(linkedlist *list, int32_t remove)
         return NULL;
     }
 
-    return list->tail->data;
+    void* data = list->tail->data;
+    if(remove == 1)
+    {
+        // The caller takes over the data, the node itself is not needed
+        node* nd = list->tail;
+        linkedlist_node_unhook(list, nd);
+        free(nd);
+    }
+
+    return data;
 }
 
 /**
@@ -406,7 +415,16 @@ void* linkedlist_head(linkedlist *list, int32_t remove){
         return NULL;
     }
 
-    return list->head->data;
+    void* data = list->head->data;
+    if(remove == 1)
+    {
+        // The caller takes over the data, the node itself is not needed
+        node* nd = list->head;
+        linkedlist_node_unhook(list, nd);
+        free(nd);
+    }
+
+    return data;
 }
 
 /**
-- 
2.43.0


From 2e3ba232aa4019453a800aa1a66825ed7263df2e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:22 +0000
Subject: [PATCH 47/59] fix: hash pointer keys

---
 modules/collections/src/hashtable.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index 1f5c776..57c7488 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -83,6 +83,11 @@ hashtable_entry* hashtable_lookup_entry(hashtable* htbl, void* key);
  * @param b 
  * @return int32_t 
  */
+static size_t ptr_hash(void* key, size_t buckets)
+{
+    return (size_t)(*(void **)key) % buckets;
+}
+
 int32_t hashtable_entry_compare(const void* a, const void* b)
 {
     hashtable_entry* e1 = *(hashtable_entry **)a;
@@ -171,7 +176,7 @@ hashtable* hashtable_init_size(size_t buckets, enum HTYPES ktype, enum HTYPES dt
     } else if(htbl->ktype == H_STRING) {
         htbl->key_hash = str_hash;
     } else {
-        htbl->key_hash = NULL;
+        htbl->key_hash = ptr_hash;
     }
 
     return htbl;
-- 
2.43.0


From 68f24a34f35d8b56bdda2c1cc617ca10ef4668a4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:25 +0000
Subject: [PATCH 48/59] fix: report detaching more points than a cluster has

---
 src/cluster.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/cluster.c b/src/cluster.c
index 092e1a8..0ecef8e 100644
--- a/src/cluster.c
+++ b/src/cluster.c
@@ -121,18 +121,20 @@ void cluster_destroy(cluster* cl){
  */
 int cluster_detach_points(cluster* cl, index_t numPoints, distance_t level){
 
+	// The number of points is unsigned, it would wrap around
+	if (numPoints > cl->numPoints){
+		
+		char s[200];
+		sprintf(s, "cluster_detach_points - Cluster %ld has %ld points.\n", (long)cl->label, (long)cl->numPoints);
+		logger_write(FATAL, s);
+		return CLUSTER_ERROR;
+	}
+
 	cl->numPoints = (index_t)(cl->numPoints - numPoints);
 	cl->stability += (numPoints * (1 / level - 1 / cl->birthLevel));
 
 	if (cl->numPoints == 0)
 		cl->deathLevel = level;
-	else if (cl->numPoints < 0){
-		
-		char s[100];
-		sprintf(s, "cluster_detach_points - Cluster %d has %d points.\n", cl->label, cl->numPoints);
-		logger_write(FATAL, s);
-		return CLUSTER_ERROR;
-	}
 
 	return CLUSTER_SUCCESS;
 }
-- 
2.43.0


From 340ed87616bb7c839ea23319d5757bd7e5c7003b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:30 +0000
Subject: [PATCH 49/59] fix: find the prime below a prime of the table

---
 modules/collections/src/primes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/collections/src/primes.c b/modules/collections/src/primes.c
index 88ee7c4..abcddaf 100644
--- a/modules/collections/src/primes.c
+++ b/modules/collections/src/primes.c
@@ -97,7 +97,7 @@ int32_t binary_search_primes(int32_t l, int32_t r, int32_t x)
         // If element is smaller than mid, then 
         // it can only be present in left subarray
 
-        if (primes[mid] > x && primes[mid - 1] > x) {
+        if (primes[mid] > x && primes[mid - 1] >= x) {
             return binary_search_primes(l, mid - 1, x); 
         } 
   
-- 
2.43.0


From aa653be8cfa01f5ace28ea10aae9dae1db4233c8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:03 +0000
Subject: [PATCH 50/59] fix: define constraint_init as declared

---
 src/constraint.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/constraint.c b/src/constraint.c
index e6c2f3b..7f9cdbd 100644
--- a/src/constraint.c
+++ b/src/constraint.c
@@ -41,15 +41,15 @@
 #include "hdbscan/logger.h"
 #endif
 
-constraint* constraint_create(constraint* c, int pointA, int pointB, CONSTRAINT_TYPE type){
+constraint* constraint_init(constraint* c, int pointA, int pointB, CONSTRAINT_TYPE type){
 	if(c == NULL)
 		c = (constraint*)malloc(sizeof(constraint));
 
 	if(c == NULL){
 	#ifdef DEBUG
-		logger_write(FATAL, "constraint_create - Could not allocate memory for constraint\n");
+		logger_write(FATAL, "constraint_init - Could not allocate memory for constraint\n");
 	#else
-		printf("FATAL: constraint_create - Could not allocate memory for constraint\n");
+		printf("FATAL: constraint_init - Could not allocate memory for constraint\n");
 	#endif
 	} else{
 
-- 
2.43.0


From d00d8f5dc1d341b091725a39a6aef541bf90c3e5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:47 +0000
Subject: [PATCH 51/59] fix: print cluster map members as indices

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 61c1e10..cf91406 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1807,7 +1807,7 @@ void hdbscan_print_cluster_map(hashtable* table){
 		index_t dpointer;
 		for(index_t j = 0; j < clusterList->size; j++){
 			
-			dpointer = ((label_t *)clusterList->data)[j];
+			dpointer = ((index_t *)clusterList->data)[j];
 			sprintf(s, "%d ", dpointer);
 			logger_write(NONE, s);
 		}
-- 
2.43.0


From 00a6b0aa15211375a50878c3f3a993514271b918 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:47 +0000
Subject: [PATCH 52/59] fix: do not crash when hierarchy files cannot be
 written

---
 src/hdbscan.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index cf91406..18c8a6a 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1856,6 +1856,10 @@ void hdbscan_print_hierarchies(hashtable* hierarchy, index_t numPoints, char *fi
 		strcpy(visFilename, filename);
 		strcat(visFilename, "_visualization.vis");
 		visFile = fopen(visFilename, "w");
+		if(visFile == NULL){
+			logger_write(ERROR, "hdbscan_print_hierarchies - Could not open the visualization file.\n");
+			return;
+		}
 		fprintf(visFile, "1\n");
 		fprintf(visFile, "%ld\n", hashtable_size(hierarchy));
 		fclose(visFile);
@@ -1864,6 +1868,10 @@ void hdbscan_print_hierarchies(hashtable* hierarchy, index_t numPoints, char *fi
 		strcpy(hierarchyFilename, filename);
 		strcat(hierarchyFilename, "_hierarchy.csv");
 		hierarchyFile = fopen(hierarchyFilename, "w");
+		if(hierarchyFile == NULL){
+			logger_write(ERROR, "hdbscan_print_hierarchies - Could not open the hierarchy file.\n");
+			return;
+		}
 	}
 	
 	char s[100];
-- 
2.43.0


From 6656c640f766be78cf7320dbbfed076f1cd015de Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:29 +0000
Subject: [PATCH 53/59] fix: the sizes of a Python object are read only

---
 modules/python/src/PyHdbscan.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index 2c5bb44..2374e4d 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -417,9 +417,9 @@ static PyMemberDef PyHdbscan_members[] = {
     {"labels", T_OBJECT_EX, offsetof(PyHdbscan, labels), 0, "Cluster labels"},
     {"clusterMap", T_OBJECT_EX, offsetof(PyHdbscan, clusterMap), 0, "Dictionary of the clusters and the points"},
     {"hierarchy", T_OBJECT_EX, offsetof(PyHdbscan, hierarchy), 0, "Dictionary of the hierarchies"},
-    {"minPoints", T_INT, offsetof(PyHdbscan, minPoints), 0, "Minimum number of point in a cluster"},
-    {"rows", T_INT, offsetof(PyHdbscan, rows), 0, "number of data points"},
-    {"cols", T_INT, offsetof(PyHdbscan, cols), 0, "The size of each data point"},
+    {"minPoints", T_INT, offsetof(PyHdbscan, minPoints), READONLY, "Minimum number of point in a cluster"},
+    {"rows", T_INT, offsetof(PyHdbscan, rows), READONLY, "number of data points"},
+    {"cols", T_INT, offsetof(PyHdbscan, cols), READONLY, "The size of each data point"},
     {NULL}  /* Sentinel */
 };
 
-- 
2.43.0


From e65c631afa712c76edc01ba7f7c50ce64df602b4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:40 +0000
Subject: [PATCH 54/59] fix: connect the tree of a data set smaller than minPts

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 18c8a6a..ed6db51 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -895,7 +895,7 @@ int hdbscan_construct_mst(hdbscan* sc){
 	for(index_t i = 0; i < ssize; i++) {
 		
 		distances[i] = D_MAX;
-		neighbours[i] = 0;
+		neighbours[i] = (index_t)(size - 1); // the tree starts from the last point
 		others[i] = 0;
 	}
 
-- 
2.43.0


From 7dc9644c7f749b34217c7f25e1ab05b33a8faacb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:05 +0000
Subject: [PATCH 55/59] fix: refuse empty and ragged data sets in the Java
 binding

---
 modules/java/src/Hdbscan.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/modules/java/src/Hdbscan.cpp b/modules/java/src/Hdbscan.cpp
index 070151d..17e88c5 100644
--- a/modules/java/src/Hdbscan.cpp
+++ b/modules/java/src/Hdbscan.cpp
@@ -88,10 +88,26 @@ jintArray getLabelsArray(JNIEnv *env, label_t *lbs, int rows){
 
 JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_runImpl(JNIEnv *env, jobject obj, jobjectArray dataset){
 	
-	int rows = env->GetArrayLength(dataset);
-	jdoubleArray dim=  (jdoubleArray)env->GetObjectArrayElement(dataset, 0);
-	int cols = env -> GetArrayLength(dim);
-	env->DeleteLocalRef(dim);
+	int rows = dataset == NULL ? 0 : env->GetArrayLength(dataset);
+	int cols = -1;
+	jdoubleArray dim;
+
+	// Every row must be there and have the length of the first one
+	for(int i = 0; i < rows; i++){
+		dim = (jdoubleArray)env->GetObjectArrayElement(dataset, i);
+		int length = dim == NULL ? -1 : env->GetArrayLength(dim);
+
+		if(length < 0 || (i > 0 && length != cols)){
+			rows = 0;
+		}
+		cols = length;
+		env->DeleteLocalRef(dim);
+	}
+
+	if(rows < 1){
+		env->ThrowNew(env->FindClass("java/lang/IllegalArgumentException"), "the dataset must have at least one row and all rows the same length");
+		return NULL;
+	}
 	double *dset = new double[rows * cols];
 	long dIdx = 0;
 
-- 
2.43.0


From 762745b984a31d743f5a795e7798e585cfa9f642 Mon Sep 17 00:00:00 2001
From: Verifier <v@localhost>
Date: Thu, 19 Nov 2026 04:53:32 +0000
Subject: [PATCH 56/59] fix: logger used the broken down time that all threads
 share

---
 modules/utils/src/logger.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/utils/src/logger.c b/modules/utils/src/logger.c
index 7943ea1..73f28dc 100644
--- a/modules/utils/src/logger.c
+++ b/modules/utils/src/logger.c
@@ -53,8 +53,10 @@ static char* getDateString() {
     // Allocate space for date string
     char* date = (char*)malloc( 100 );
 
-    // Format the time correctly
-    strftime(date, 100, "[%F %T]", localtime(&t));
+    // Format the time correctly. Threads may log at the same time so
+    // the broken down time must not be shared.
+    struct tm tm;
+    strftime(date, 100, "[%F %T]", localtime_r(&t, &tm));
 
     return date;
 }
-- 
2.43.0


From f98b8a4003fa2d1474026c9efeae3965adce5ed3 Mon Sep 17 00:00:00 2001
From: Verifier <v@localhost>
Date: Thu, 19 Nov 2026 04:53:32 +0000
Subject: [PATCH 57/59] fix: linked list used a node whose data could not be
 allocated

---
 modules/collections/src/linkedlist.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/modules/collections/src/linkedlist.c b/modules/collections/src/linkedlist.c
index f0163c4..2a46af1 100644
--- a/modules/collections/src/linkedlist.c
+++ b/modules/collections/src/linkedlist.c
@@ -77,10 +77,18 @@ linkedlist *linkedlist_init(size_t step)
  * @param data 
  * @param type 
  */
-void node_set_data(node* nd, void* data, size_t step)
+int32_t node_set_data(node* nd, void* data, size_t step)
 {    
     nd->data = malloc(step);
+
+    if(nd->data == NULL)
+    {
+        return 0;
+    }
+
     memcpy(nd->data, data, step);
+
+    return 1;
 }
 
 /**
@@ -102,7 +110,11 @@ node* node_creator(void* data, enum HTYPES type)
     nd->prev = NULL;
     nd->next = NULL;
 
-    node_set_data(nd, data, type);
+    if(!node_set_data(nd, data, type))
+    {
+        free(nd);
+        return NULL;
+    }
     
     return nd;
 }
-- 
2.43.0


From 0c1012e017c91786406a84b37448f8d969b0579b Mon Sep 17 00:00:00 2001
From: Verifier <v@localhost>
Date: Thu, 19 Nov 2026 04:53:32 +0000
Subject: [PATCH 58/59] fix: hash table used memory that could not be allocated

---
 modules/collections/src/hashtable.c | 42 ++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index 57c7488..5adfdbd 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -150,6 +150,13 @@ hashtable* hashtable_init_size(size_t buckets, enum HTYPES ktype, enum HTYPES dt
     htbl->collisions = 0;
     htbl->key_compare = compare;
     htbl->keys = set_init(get_htype_size(htbl->ktype), compare);
+    if(htbl->keys == NULL)
+    {
+        logger_write(FATAL, "Hash table keys memory allocation failed\n");
+        free(htbl->table);
+        free(htbl);
+        return NULL;
+    }
 
     /**
      * @brief Determine the function to use for key hashing
@@ -193,6 +200,19 @@ int32_t hashtable_insert(hashtable* htbl, void *key, void* value)
     if(entry == NULL) /// The key is not in the table
     {
         entry = hashtable_set_entry(htbl, entry, key, value);
+        if(entry == NULL)
+        {
+            return 0;
+        }
+
+        // Without its key in the set the entry would not be reachable
+        if(!set_insert(htbl->keys, key))
+        {
+            free(entry->key);
+            free(entry->data);
+            free(entry);
+            return 0;
+        }
 
         // The bucket has at least one entry
         if(htbl->table[bucket] != NULL)
@@ -206,12 +226,15 @@ int32_t hashtable_insert(hashtable* htbl, void *key, void* value)
 
         htbl->table[bucket] = entry;
         htbl->size++;        
-        set_insert(htbl->keys, key);
     } else { /// The key is in the table 
         // In case the value memory is externally managed, we have to get the data
         // in the entry before replacing it.
         size_t dsize = get_htype_size(htbl->dtype);
         void* tmp = malloc(dsize);
+        if(tmp == NULL)
+        {
+            return 0;
+        }
         memcpy(tmp, entry->data, dsize);          // Copy the data to a tmp variable
         memcpy(entry->data, value, dsize);        // Replace the data
         memcpy(value, tmp, dsize);          // Copy the original data into value
@@ -343,6 +366,12 @@ int32_t hashtable_clear(hashtable* htbl, void (*key_destroy)(void *key), void (*
     void* key = malloc(get_htype_size(htbl->ktype));
     size_t dsize = get_htype_size(htbl->dtype);
     void* data = malloc(dsize);
+    if(key == NULL || data == NULL)
+    {
+        free(key);
+        free(data);
+        return 0;
+    }
     hashtable_entry* entry = NULL;
     hashtable_entry* tmp = NULL;
 
@@ -420,12 +449,23 @@ hashtable_entry* hashtable_set_entry(hashtable* htbl, hashtable_entry *entry, vo
     if(entry == NULL)
     {
         entry = (hashtable_entry *)malloc(sizeof(hashtable_entry));
+        if(entry == NULL)
+        {
+            return NULL;
+        }
 
         // Assign proper memory sizes.
         // TODO: see if data and key memories can be allocated in a
         // single contigous memory with the malloc above.
         entry->data = malloc(dsize);
         entry->key = malloc(ksize);
+        if(entry->data == NULL || entry->key == NULL)
+        {
+            free(entry->data);
+            free(entry->key);
+            free(entry);
+            return NULL;
+        }
 
         // Make sure next and prev are NULL
         entry->next = NULL;
-- 
2.43.0


From 9a4b2a28086d3164206d4815070db63b2f9dcdba Mon Sep 17 00:00:00 2001
From: Verifier <v@localhost>
Date: Thu, 19 Nov 2026 04:53:51 +0000
Subject: [PATCH 59/59] fix: clearing a list lost its buffer when it could not
 be resized

---
 modules/collections/src/list.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modules/collections/src/list.c b/modules/collections/src/list.c
index 3451c6c..3d2b678 100644
--- a/modules/collections/src/list.c
+++ b/modules/collections/src/list.c
@@ -285,8 +285,12 @@ void array_list_clear(ArrayList* list, int32_t resize)
 {
 	list->size = 0;
 	if(resize) {
-		list->data = realloc(list->data, list->step);
-		list->max_size = 1;
+		void* data = realloc(list->data, list->step);
+
+		if(data != NULL) { /// Otherwise the list keeps its current buffer
+			list->data = data;
+			list->max_size = 1;
+		}
 	}
 }
 
-- 
2.43.0

