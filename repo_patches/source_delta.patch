From 380ffab03df5f7d05b527df51223b13118aa59be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:12 +0000
Subject: [PATCH 01/55] fix: array_list_clear records the capacity left by
 shrinking

---
 modules/collections/src/list.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/collections/src/list.c b/modules/collections/src/list.c
index 18b2b5b..f146828 100644
--- a/modules/collections/src/list.c
+++ b/modules/collections/src/list.c
@@ -280,7 +280,11 @@ void array_list_clear(ArrayList* list, int32_t resize)
 {
 	list->size = 0;
 	if(resize) {
-		list->data = realloc(list->data, list->step);
+		void* data = realloc(list->data, list->step);
+		if(data != NULL) {
+			list->data = data;
+			list->max_size = 1;
+		}
 	}
 }
 
-- 
2.43.0


From 9e1118d9271d3635dcea2c02475a591d2c20d5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:12 +0000
Subject: [PATCH 02/55] fix: array list keeps its contents when growing fails
 and rejects insertion past its end

---
 modules/collections/src/list.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/modules/collections/src/list.c b/modules/collections/src/list.c
index f146828..09a7e1a 100644
--- a/modules/collections/src/list.c
+++ b/modules/collections/src/list.c
@@ -119,12 +119,13 @@ int32_t array_list_value_at(ArrayList* list, size_t pos, void* data)
 int32_t array_list_grow(ArrayList* list){
 
 	size_t newmax = highestPowerof2(list->max_size*2);
-	list->data = realloc(list->data, newmax * list->step);
+	void* data = realloc(list->data, newmax * list->step);
 
-	if(list->data == NULL){
+	if(data == NULL){
 		return -1;
 	}
 
+	list->data = data;
 	list->max_size = newmax;
 
 	return 1;
@@ -207,8 +208,14 @@ int32_t array_list_append(ArrayList* list, void* data)
 
 int32_t array_list_insert_at(ArrayList* list, void* data, size_t pos) {
 
+	if(pos > list->size) {
+		return 0;
+	}
+
 	if(list->size == list->max_size) {
-       array_list_grow(list);
+       if(array_list_grow(list) < 0) {
+			return 0;
+		}
     }
 
     size_t t1 = pos * list->step;					// Beginning of the source
-- 
2.43.0


From 9dbfff9e9e2f88842b3d369de0a2d4adc6b7db83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:12 +0000
Subject: [PATCH 03/55] fix: hashtable_remove relinks the chain and copies the
 whole value

---
 modules/collections/src/hashtable.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index e9b6d9c..1aad584 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -297,7 +297,6 @@ int32_t hashtable_remove(hashtable* htbl, void* key, void* data)
     if(entry->prev != NULL)
     {
         entry->prev->next = entry->next;
-        entry->prev = NULL;
     } else { // this is the first entry
         htbl->table[bucket] = entry->next;
         if(htbl->table[bucket] != NULL)
@@ -318,7 +317,7 @@ int32_t hashtable_remove(hashtable* htbl, void* key, void* data)
     }
 
     // destroy the node and get the data
-    hashtable_entry_destroy(entry, data, get_htype_size(htbl->ktype));
+    hashtable_entry_destroy(entry, data, get_htype_size(htbl->dtype));
     htbl->size--;    
     set_remove(htbl->keys, key);
 
-- 
2.43.0


From d0ee469f968f1f1a269e2e9073a9db3ad26c78f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:12 +0000
Subject: [PATCH 04/55] fix: hashtable_clear destroys each colliding entry's
 own key

---
 modules/collections/src/hashtable.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index 1aad584..a1f84ae 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -359,6 +359,7 @@ int32_t hashtable_clear(hashtable* htbl, void (*key_destroy)(void *key), void (*
         {
             tmp = entry;
             entry = entry->next;
+            memcpy(key, tmp->key, get_htype_size(htbl->ktype)); // colliding entries have their own keys
             hashtable_entry_destroy(tmp, data, dsize);
 
             if(key_destroy != NULL && *(void **)key != NULL)
-- 
2.43.0


From 7bb8e5abd506b95aab9c7c730b174499120e9944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:12 +0000
Subject: [PATCH 05/55] fix: unhooking a linked list node keeps the back link
 and the tail

---
 modules/collections/src/linkedlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/collections/src/linkedlist.c b/modules/collections/src/linkedlist.c
index ccbb195..b78c3de 100644
--- a/modules/collections/src/linkedlist.c
+++ b/modules/collections/src/linkedlist.c
@@ -257,7 +257,6 @@ void linkedlist_node_unhook(linkedlist* list, node* nd)
     if(nd->prev != NULL)
     {
         nd->prev->next = nd->next;
-        nd->prev = NULL;
     } else { // this is the first node
         list->head = nd->next;
 
@@ -279,6 +278,7 @@ void linkedlist_node_unhook(linkedlist* list, node* nd)
             list->tail->next = NULL;
         }
     }
+    nd->prev = NULL;
     list->size--;
 }
 
-- 
2.43.0


From aa9b2de2451ff6a4f641a995ede69bdb7dde4616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:12 +0000
Subject: [PATCH 06/55] fix: get_prime tests its candidates for divisibility

---
 modules/collections/src/primes.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/collections/src/primes.c b/modules/collections/src/primes.c
index d1270b8..d7470cb 100644
--- a/modules/collections/src/primes.c
+++ b/modules/collections/src/primes.c
@@ -40,13 +40,13 @@
 
 int32_t get_prime(int32_t min)
 {
-    int32_t prime, n_primes = 0;
+    int32_t prime = 0;
 
-    for(int i = min + 1; n_primes < INT_MAX; i++)
+    for(int i = min < 2 ? 2 : min + 1; i < INT_MAX; i++)
     {
-        for (int j = 0; i < n_primes; i++)
+        for (int j = 2; j <= i / j; j++)
         {
-            if (i % primes[j] == 0) {
+            if (i % j == 0) {
                 goto not_prime;
             }
         }
-- 
2.43.0


From 9786075b675c647c61d139dbacd6dc40f5a74335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:12 +0000
Subject: [PATCH 07/55] fix: find_prime_less_than answers beyond the prime
 table

---
 modules/collections/include/collections/primes.h |  2 +-
 modules/collections/src/primes.c                 | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/modules/collections/include/collections/primes.h b/modules/collections/include/collections/primes.h
index df7efb4..67cc299 100644
--- a/modules/collections/include/collections/primes.h
+++ b/modules/collections/include/collections/primes.h
@@ -72,7 +72,7 @@ int32_t get_prime(int32_t min);
  */
 int32_t binary_search_primes(int32_t l, int32_t r, int32_t x) ;
 
-#define p_sz 200
+#define p_sz 198
 // Creating an array of prime numbers for creating key hashes
 // We only need 120 primes from 29 to 409. If we need more we
 // will have to calculate them.
diff --git a/modules/collections/src/primes.c b/modules/collections/src/primes.c
index d7470cb..a304e7f 100644
--- a/modules/collections/src/primes.c
+++ b/modules/collections/src/primes.c
@@ -102,10 +102,12 @@ int32_t binary_search_primes(int32_t l, int32_t r, int32_t x)
  */ 
 int32_t find_prime_less_than(int32_t num)
 {
-    //if(num > primes[sz-1])
-   // {
-   //     return get_prime(num);
-   // } else {
+    // Beyond the table, the largest prime we have is the best answer
+    if(num > primes[p_sz-1])
+    {
+        return primes[p_sz-1];
+    }
+
     return binary_search_primes(0, p_sz-1, num);
     //}
 }
\ No newline at end of file
-- 
2.43.0


From 4b3a89db448ea929308384577dfe70baa6872592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:56 +0000
Subject: [PATCH 08/55] fix: core distances keep equal neighbour distances in
 order

---
 src/distance.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/distance.c b/src/distance.c
index 8e1fbb5..0a96f3f 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -245,6 +245,7 @@ void distance_get_core_distances(distance *dis)
 				if (sortedDistance[mid] > t) {
 					high = mid;
 				} else if (sortedDistance[mid] == t) {
+					low = mid;
 					break;
 				} else {
 					low = (index_t)(mid + 1);
-- 
2.43.0


From 09baca1d18aff332336e0e86cd696b458fb95134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:56 +0000
Subject: [PATCH 09/55] fix: distances of data whose difference overflows the
 element type

---
 src/distance.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/distance.c b/src/distance.c
index 0a96f3f..9e5b4e2 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -165,16 +165,16 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
 				} else if(dis->datatype == H_FLOAT) {
 
 					float* dt = dataset;
-					diff = (distance_t)(dt[i * dis->cols + k] - dt[j * dis->cols + k]);
+					diff = (distance_t)((double)dt[i * dis->cols + k] - (double)dt[j * dis->cols + k]);
 
 				} else if(dis->datatype == H_INT) {
 
 					int* dt = dataset;
-					diff = (distance_t)(dt[i * dis->cols + k] - dt[j * dis->cols + k]);
+					diff = (distance_t)((double)dt[i * dis->cols + k] - (double)dt[j * dis->cols + k]);
 				} else if(dis->datatype == H_LONG) {
 
 					long* dt = dataset;
-					diff = (distance_t)(dt[i * dis->cols + k] - dt[j * dis->cols + k]);
+					diff = (distance_t)((long double)dt[i * dis->cols + k] - (long double)dt[j * dis->cols + k]);
 				} else if(dis->datatype == H_SHORT) {
 
 					short* dt = dataset;
-- 
2.43.0


From afe7132de133aaf7c1743831e28e3dc2bd6ac2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:56 +0000
Subject: [PATCH 10/55] fix: distance storage is addressed in size_t, so that
 large data sets do not overflow

---
 modules/utils/include/hdbscan/utils.h | 4 ++--
 src/distance.c                        | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/modules/utils/include/hdbscan/utils.h b/modules/utils/include/hdbscan/utils.h
index e28f6c5..178853b 100644
--- a/modules/utils/include/hdbscan/utils.h
+++ b/modules/utils/include/hdbscan/utils.h
@@ -160,9 +160,9 @@ int32_t ptr_ptr_compare(const void * ptr_a, const void * ptr_b);
  * @brief Calculate the triangular number of n
  * 
  * @param n 
- * @return uint 
+ * @return size_t 
  */
-inline uint TRIANGULAR_H(uint n) {
+inline size_t TRIANGULAR_H(size_t n) {
 	return (n * n + n) / 2;
 }
 
diff --git a/src/distance.c b/src/distance.c
index 9e5b4e2..a32e396 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -114,12 +114,12 @@ void distance_clean(distance* d){
 distance_t distance_get(distance* dis, index_t row, index_t col) {
 	size_t idx;
 	if (row < col) {
-		idx = (size_t) ((size_t)(dis->rows * row + col) - (size_t)TRIANGULAR_H((uint)(row + 1)));
+		idx = (size_t)dis->rows * row + col - TRIANGULAR_H((size_t)row + 1);
 
 	} else if (row == col) {
 		return 0;
 	} else {
-		idx = (size_t)((size_t)(dis->rows * col + row) - (size_t)TRIANGULAR_H((uint)(col + 1)));
+		idx = (size_t)dis->rows * col + row - TRIANGULAR_H((size_t)col + 1);
 	}
 	return dis->distances[idx];
 }
@@ -139,7 +139,7 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
 	
 	dis->rows = rows;
     dis->cols = cols;
-    size_t sub = (size_t)(rows * rows -rows)/2;
+    size_t sub = ((size_t)rows * rows - rows)/2;
     dis->distances = (distance_t *)malloc(sub * sizeof(distance_t));
     dis->coreDistances = (distance_t *)malloc(dis->rows * sizeof(distance_t));
 	distance_t sum, diff;
@@ -192,7 +192,7 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
 
 			// Calculate the linearised upper triangular matrix offset
 			size_t offset = i * dis->rows + j;
-			size_t c = offset - TRIANGULAR_H((uint)i + 1);		
+			size_t c = offset - TRIANGULAR_H(i + 1);		
 			dis->distances[c] = sum;			
 		}
 	}
-- 
2.43.0


From 67191595e5ffed111aebe6c6b6c7e9b61d0b71cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:56 +0000
Subject: [PATCH 11/55] fix: distance_destroy accepts NULL

---
 src/distance.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/distance.c b/src/distance.c
index a32e396..334fcf8 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -79,9 +79,10 @@ distance* distance_init(distance* dis, calculator cal, enum HTYPES datatype) {
  * @param d 
  */
 void distance_destroy(distance* d) {
-	distance_clean(d);
-	if(d != NULL)
+	if(d != NULL) {
+		distance_clean(d);
 		free(d);
+	}
 }
 
 /**
-- 
2.43.0


From a766ba4013616e366291b1f1bd8b326f8f9a9574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:56 +0000
Subject: [PATCH 12/55] fix: distances_print has room for values of any
 magnitude

---
 src/distance.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distance.c b/src/distance.c
index 334fcf8..60f53f8 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -278,7 +278,7 @@ void distance_get_core_distances(distance *dis)
  */
 void distances_print(distance *dis) {
 	
-	char s[20];
+	char s[DBL_MAX_10_EXP + 20]; // enough for %f of any value
 	for (index_t i = 0; i < dis->rows; i++) {
 		logger_write(NONE, "[");
 
-- 
2.43.0


From 052558f5d645f610075e958cfe814205c2dfbbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:13 +0000
Subject: [PATCH 13/55] fix: a root that never splits takes its own death
 level, so that outlier scores stay in [0,1]

---
 src/cluster.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cluster.c b/src/cluster.c
index 441b432..0458be1 100644
--- a/src/cluster.c
+++ b/src/cluster.c
@@ -148,12 +148,13 @@ int cluster_detach_points(cluster* cl, index_t numPoints, distance_t level){
  */
 void cluster_propagate(cluster* cl){
 
+	//A cluster without descendants dies at its own death level, also when it is the root:
+	if (cl->propagatedLowestChildDeathLevel == D_MAX){
+		cl->propagatedLowestChildDeathLevel = cl->deathLevel;
+	}
+
 	if (cl->parent != NULL) {
 		//Propagate lowest death level of any descendants:
-        if (cl->propagatedLowestChildDeathLevel == D_MAX){
-        	cl->propagatedLowestChildDeathLevel = cl->deathLevel;
-		}
-
 		if (cl->propagatedLowestChildDeathLevel < cl->parent->propagatedLowestChildDeathLevel){
 			cl->parent->propagatedLowestChildDeathLevel = cl->propagatedLowestChildDeathLevel;
 		}
-- 
2.43.0


From b2396c8d81ef9b001871184d426b304db435fe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:13 +0000
Subject: [PATCH 14/55] fix: cluster_release_virtual_child releases the virtual
 child instead of the parent

---
 src/cluster.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cluster.c b/src/cluster.c
index 0458be1..677029e 100644
--- a/src/cluster.c
+++ b/src/cluster.c
@@ -230,8 +230,9 @@ void cluster_add_constraints_satisfied(cluster* cl, index_t numConstraints){
 
 void cluster_release_virtual_child(cluster* cl){
 
-	if(cl->parent != NULL){
-		cluster_destroy(cl->parent);
+	if(cl->virtualChildCluster != NULL){
+		set_delete(cl->virtualChildCluster);
+		cl->virtualChildCluster = NULL;
 	}
 }
 
-- 
2.43.0


From f55fbb864200ce7b14b1e345756a062c84011481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:13 +0000
Subject: [PATCH 15/55] fix: runs over single elements compute distances
 between the elements

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 1d31614..1356077 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -316,7 +316,7 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 	distance_init(&sc->distanceFunction, _EUCLIDEAN, datatype);
 
 	sc->numPoints = hdbscan_get_dataset_size(rows, cols, rowwise);
-	distance_compute(&(sc->distanceFunction), dataset, rows, cols, (index_t)(sc->minPoints-1));
+	distance_compute(&(sc->distanceFunction), dataset, sc->numPoints, rowwise == 1 ? cols : 1, (index_t)(sc->minPoints-1));
 
 	index_t csize = sc->numPoints/5;
 	if(csize < 4)
-- 
2.43.0


From 89fe0e4709bdac29777597e3386314124c0915ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:13 +0000
Subject: [PATCH 16/55] fix: data sets of fewer than five points can be
 clustered

---
 src/hdbscan.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 1356077..2c711e3 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -237,7 +237,7 @@ int hdbscan_do_run(hdbscan* sc){
 	index_t csize = sc->numPoints/5;
 	if(csize < 4)
 	{
-		csize = (index_t)(csize * 4);
+		csize = 4;
 	}
 	
 	sc->hierarchy = hashtable_init(csize, H_LONG, H_PTR, long_compare);
@@ -321,7 +321,7 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 	index_t csize = sc->numPoints/5;
 	if(csize < 4)
 	{
-		csize = (index_t)(csize * 4);
+		csize = 4;
 	}
 	sc->clusters = ptr_array_list_init(csize, cluster_compare);
 	sc->clusterStabilities = hashtable_init(csize, H_INT, H_PTR, int_compare);
-- 
2.43.0


From 6ce121782bca16d3c2edbcb99c391fd61b628b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:13 +0000
Subject: [PATCH 17/55] fix: handles can be cleaned before they run and run
 again without leaking

---
 src/hdbscan.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 2c711e3..f5478ca 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -127,6 +127,9 @@ hdbscan* hdbscan_init(hdbscan* sc, index_t minPoints){
 		sc->clusters = NULL;
 		sc->coreDistances = NULL;
 		sc->outlierScores = NULL;
+		sc->mst = NULL;
+		sc->numPoints = 0;
+		distance_init(&sc->distanceFunction, _EUCLIDEAN, H_DOUBLE);
 	}
 
 	return sc;
@@ -219,9 +222,8 @@ void hdbscan_clean(hdbscan* sc){
  * @param sc 
  */
 void hdbscan_destroy(hdbscan* sc){
-	hdbscan_clean(sc);
-
 	if(sc != NULL){
+		hdbscan_clean(sc);
 		free(sc);
 	}
 
@@ -313,6 +315,8 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 		return HDBSCAN_ERROR;
 	}
 	
+	// release the results of a previous run
+	hdbscan_clean(sc);
 	distance_init(&sc->distanceFunction, _EUCLIDEAN, datatype);
 
 	sc->numPoints = hdbscan_get_dataset_size(rows, cols, rowwise);
-- 
2.43.0


From 9ca1b207c2b5031e586946e57d3c7a9bf088484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:13 +0000
Subject: [PATCH 18/55] fix: threads assigning cluster offsets do not share the
 cluster pointer

---
 src/hdbscan.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index f5478ca..53ef52f 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -671,14 +671,12 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 		}
 
 		// Assign offsets and calculate the number of constraints satisfied:
-		cluster* newCluster = NULL;
-		
 		#ifdef _OPENMP
 		#pragma omp parallel for
 		#endif
 		for(i = 0; i < array_list_size(newClusters); i++)
 		{
-			newCluster = ((cluster**)newClusters->data)[i];
+			cluster* newCluster = ((cluster**)newClusters->data)[i];
 			newCluster->offset = lineCount;
 		}
 		
-- 
2.43.0


From 70e6bb931c02ccbdc6e9d6b308dccb62146048fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:13 +0000
Subject: [PATCH 19/55] fix: infinite stability is recognised

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 53ef52f..f0d3001 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1035,7 +1035,7 @@ boolean hdbscan_propagate_tree(hdbscan* sc){
 		currentCluster = ((cluster **)sc->clusters->data)[x];
 		cluster_propagate(currentCluster);
 
-		if(currentCluster->stability == D_MAX){
+		if(isinf(currentCluster->stability)){
 			infiniteStability = TRUE;
 		}
 		if(currentCluster->parent != NULL){
-- 
2.43.0


From 49d5d58e7aef126e0bd57ff851957db67b955d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:13 +0000
Subject: [PATCH 20/55] fix: cluster maps of very short ranges can be created

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index f0d3001..7a85778 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1225,7 +1225,7 @@ hashtable* hdbscan_create_cluster_map(label_t* labels, index_t begin, index_t en
 		hashtable_lookup(clusterTable, lb, &clusterList);
 
 		if(clusterList == NULL){
-			clusterList = array_list_init(size/3, sizeof(index_t), NULL);
+			clusterList = array_list_init((size_t)size/3 + 1, sizeof(index_t), NULL);
 			if(sizeof(index_t) == sizeof(int)) {
 				clusterList->compare = int_compare;
 			} else if(sizeof(index_t) == sizeof(long)) {
-- 
2.43.0


From 97d9adfdf8b3ce960791d76590bd7406d35136e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:13 +0000
Subject: [PATCH 21/55] fix: the smallest non-zero core distance does not
 depend on the order of the points

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 7a85778..53417de 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1289,7 +1289,7 @@ hashtable* hdbscan_get_min_max_distances(hdbscan* sc, hashtable* clusterTable){
 				hashtable_insert(distanceMap, &key, &dl);
 			} else {
 
-				if(dl->min_cr > core[index] && (core[index] < zero || core[index] > zero)){
+				if((dl->min_cr > core[index] || dl->min_cr == zero) && (core[index] < zero || core[index] > zero)){
 					dl->min_cr = core[index];
 				}
 
-- 
2.43.0


From cb6e9580b3d0787db599a0804793d9d4e5ef1b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:13 +0000
Subject: [PATCH 22/55] fix: statistics start accumulating the variance from
 zero

---
 src/hdbscan.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 53417de..2274d29 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1419,6 +1419,9 @@ void hdbscan_calculate_stats_helper(distance_t* cr, distance_t* dr, clustering_s
 	stats->intraDistanceValues.mean = dr[0];
 	stats->intraDistanceValues.max = dr[0];
 
+	stats->coreDistanceValues.variance = 0;
+	stats->intraDistanceValues.variance = 0;
+
 	for(index_t i = 1; i < stats->count; i++)
 	{
 		// Core distance statistics
-- 
2.43.0


From 271cf3eb12cffe83fe570017a2ba509f5723ff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:13 +0000
Subject: [PATCH 23/55] fix: sorting by similarity uses the given clusters and
 accepts an empty list

---
 src/hdbscan.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 2274d29..b85f766 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1635,7 +1635,7 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
 	assert(distanceMap != NULL); 
 	ArrayList *distances;
 	if(clusters == NULL){
-		clusters = array_list_init(hashtable_size(distanceMap), sizeof(label_t), NULL);
+		clusters = array_list_init(hashtable_size(distanceMap) + 1, sizeof(label_t), NULL);
 
 		if(sizeof(label_t) == sizeof(int)) {
 			clusters->compare = int_compare;
@@ -1645,10 +1645,10 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
 			clusters->compare = short_compare;
 		}
 
-		distances = array_list_init(hashtable_size(distanceMap), sizeof(distance_t), NULL);
+		distances = array_list_init(hashtable_size(distanceMap) + 1, sizeof(distance_t), NULL);
 
 	} else{
-		distances = array_list_init(clusters->size, sizeof(distance_t), NULL);
+		distances = array_list_init(clusters->size + 1, sizeof(distance_t), NULL);
 	}
 	
 	if(sizeof(distance_t) == sizeof(double)) {
@@ -1693,7 +1693,7 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
 #pragma omp parallel for private(key, dv, conf)
 #endif
 		for(size_t i = 0; i < clusters->size; i++){
-			key = ((label_t *)distanceMap->keys->data)[i];			
+			key = ((label_t *)clusters->data)[i];
 			hashtable_lookup(distanceMap, &key, &dv);
 			
 			if(distanceType == CORE_DISTANCE_TYPE){
-- 
2.43.0


From 009f57a07b289508cf929356068417a1c2267c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:13 +0000
Subject: [PATCH 24/55] fix: sorting by length works without a list of clusters

---
 src/hdbscan.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index b85f766..e763b84 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1721,10 +1721,10 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
  */
 ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 
-	assert(clusterTable != NULL && clusters != NULL);
+	assert(clusterTable != NULL);
 	ArrayList *lengths;
 	if(clusters == NULL){
-		clusters = array_list_init(hashtable_size(clusterTable), sizeof(label_t), NULL);
+		clusters = array_list_init(hashtable_size(clusterTable) + 1, sizeof(label_t), NULL);
 
 		if(sizeof(label_t) == sizeof(int)) {
 			clusters->compare = int_compare;
@@ -1734,9 +1734,9 @@ ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 			clusters->compare = short_compare;
 		}
 
-		lengths = array_list_init(hashtable_size(clusterTable), sizeof(distance_t), NULL);
+		lengths = array_list_init(hashtable_size(clusterTable) + 1, sizeof(distance_t), NULL);
 	} else{
-		lengths = array_list_init(clusters->size, sizeof(distance_t), NULL);
+		lengths = array_list_init(clusters->size + 1, sizeof(distance_t), NULL);
 	}
 	
 	if(sizeof(distance_t) == sizeof(double)) {
@@ -1752,7 +1752,7 @@ ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 		for(size_t i = 0; i < hashtable_size(clusterTable); i++)
 		{
 			ArrayList *lst = NULL;
-			key = ((label_t *)clusterTable->keys)[i];
+			key = ((label_t *)clusterTable->keys->data)[i];
 			hashtable_lookup(clusterTable, &key, &lst);
 			array_list_append(clusters, &key);
 			distance_t tmp = (distance_t)lst->size;
-- 
2.43.0


From 9d0eb079d2a4066a1ee7e2ffab39b3ae85b11786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:13 +0000
Subject: [PATCH 25/55] fix: the hierarchy export takes file names of any
 length

---
 src/hdbscan.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index e763b84..62c06d4 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1860,16 +1860,18 @@ void hdbscan_print_hierarchies(hashtable* hierarchy, index_t numPoints, char *fi
 
 	if(filename != NULL){
 
-		char visFilename[300];
-		strcat(visFilename, filename);
+		char visFilename[strlen(filename) + 32];
+		strcpy(visFilename, filename);
 		strcat(visFilename, "_visualization.vis");
 		visFile = fopen(visFilename, "w");
-		fprintf(visFile, "1\n");
-		fprintf(visFile, "%ld\n", hashtable_size(hierarchy));
-		fclose(visFile);
+		if(visFile){
+			fprintf(visFile, "1\n");
+			fprintf(visFile, "%ld\n", hashtable_size(hierarchy));
+			fclose(visFile);
+		}
 
-		char hierarchyFilename[100];
-		strcat(hierarchyFilename, filename);
+		char hierarchyFilename[strlen(filename) + 32];
+		strcpy(hierarchyFilename, filename);
 		strcat(hierarchyFilename, "_hierarchy.csv");
 		hierarchyFile = fopen(hierarchyFilename, "w");
 	}
-- 
2.43.0


From f6eaaf3dd5baa9ed2bb2547a4a2b8b83a893261b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:13 +0000
Subject: [PATCH 26/55] fix: printing a cluster map reads the indices with
 their own type

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 62c06d4..a9250e8 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1815,7 +1815,7 @@ void hdbscan_print_cluster_map(hashtable* table){
 		index_t dpointer;
 		for(index_t j = 0; j < clusterList->size; j++){
 			
-			dpointer = ((label_t *)clusterList->data)[j];
+			dpointer = ((index_t *)clusterList->data)[j];
 			sprintf(s, "%d ", dpointer);
 			logger_write(NONE, s);
 		}
-- 
2.43.0


From 1d0081ab2568f2eea9eccc46be3452e48c3a26c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:13 +0000
Subject: [PATCH 27/55] fix: print functions have room for values of any
 magnitude

---
 src/hdbscan.c          | 6 +++---
 src/undirected_graph.c | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index a9250e8..19e32ff 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1918,7 +1918,7 @@ void hdbscan_print_hierarchies(hashtable* hierarchy, index_t numPoints, char *fi
 
 void hdbscan_print_outlier_scores(outlier_score* scores, index_t numPoints) {
 	
-	char s[100];
+	char s[1024];
 	logger_write(NONE, "\n////////////////////////////////////////////////////// Printing outlier Scores //////////////////////////////////////////////////////\n");
 
 	for(index_t i = 0; i < numPoints; i++) {
@@ -1937,7 +1937,7 @@ void hdbscan_print_outlier_scores(outlier_score* scores, index_t numPoints) {
  * @param distancesMap 
  */
 void hdbscan_print_distance_map(hashtable* distancesMap){
-	char s[512];
+	char s[4096];
 	logger_write(NONE, "\n/////////////////////////////////////////////////////// Printing Distances ///////////////////////////////////////////////////////\n");
 
 	for(size_t i = 0; i < hashtable_size(distancesMap); i++)
@@ -1964,7 +1964,7 @@ void hdbscan_print_distance_map(hashtable* distancesMap){
  * \param stats 
  */
 void hdbscan_print_stats(clustering_stats* stats){
-	char s[1200];
+	char s[8192];
 	sprintf(s, "////////////////////////////////////////////////////// Statistical Values ////////////////////////////////////////////////////////\n");
 	sprintf(s + strlen(s), "Cluster Count 					: %d\n", stats->count);
 	sprintf(s + strlen(s), "Core Distances - Max 			: %.5f\n", stats->coreDistanceValues.max);
diff --git a/src/undirected_graph.c b/src/undirected_graph.c
index 5e0d6f8..f7572bc 100644
--- a/src/undirected_graph.c
+++ b/src/undirected_graph.c
@@ -268,7 +268,7 @@ void graph_print(UndirectedGraph* g) {
 	index_t* da = g->verticesA->data;
 	index_t* db = g->verticesB->data;
 
-	char s[300];
+	char s[512];
 	sprintf(s,
 			"numVertices: %d, verticesA.length: %ld,  verticesB.length: %ld, edgeWeights.length: %ld, edges.length: %d\n",
 			g->numVertices, g->verticesA->size, g->verticesB->size, g->edgeWeights->size, g->numVertices);
-- 
2.43.0


From ec96ebafd4571bb3dc5250c52fb4ae66df4d1920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:48 +0000
Subject: [PATCH 28/55] fix: points at the largest distance attach to the first
 tree point instead of themselves

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 19e32ff..76a2b09 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -888,7 +888,7 @@ int hdbscan_construct_mst(hdbscan* sc){
 	for(index_t i = 0; i < ssize; i++) {
 		
 		distances[i] = D_MAX;
-		neighbours[i] = 0;
+		neighbours[i] = currentPoint;
 		others[i] = 0;
 	}
 
-- 
2.43.0


From f30c83f75850989393cd0c6b4ebef97f4721b888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:31 +0000
Subject: [PATCH 29/55] fix: cleaning a C++ clustering object does not free the
 object itself

---
 src/hdbscan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index e4b3b75..c52c423 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -85,7 +85,7 @@ void hdbscan::calculateOutlierScores(distance_t* pointNoiseLevels, label_t* poin
 }
 
 void hdbscan::clean(){
-	hdbscan_destroy(this);
+	hdbscan_clean(this);
 }
 
 map_t createClusterMap(label_t* labels, index_t begin, index_t end){
-- 
2.43.0


From ad2bd7e506849c2eae40a50d703227fce634c4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:31 +0000
Subject: [PATCH 30/55] fix: the C++ calculateOutlierScores calculates the
 outlier scores

---
 src/hdbscan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index c52c423..69eac19 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -81,7 +81,7 @@ void hdbscan::findProminentClusters(boolean infiniteStability){
 }
 
 void hdbscan::calculateOutlierScores(distance_t* pointNoiseLevels, label_t* pointLastClusters, boolean infiniteStability){
-	// TODO
+	hdbscsan_calculate_outlier_scores(this, pointNoiseLevels, pointLastClusters, infiniteStability);
 }
 
 void hdbscan::clean(){
-- 
2.43.0


From bf52e37dea752ae4d86eb286266141f4f5928baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:31 +0000
Subject: [PATCH 31/55] fix: the smallest non-zero core distance of the C++
 interface does not depend on the order of the points

---
 src/hdbscan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index 69eac19..e401792 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -125,7 +125,7 @@ map<label_t, distance_values> getMinMaxDistances(hdbscan& scan, map_t& clusterTa
 			} else{
 				distance_values& dl = iter->second;
 				// min core distance
-				if(dl.min_cr > core[index] && (core[index] < zero || core[index] > zero)){
+				if((dl.min_cr > core[index] || dl.min_cr == zero) && (core[index] < zero || core[index] > zero)){
 					dl.min_cr = core[index];
 				}
 
-- 
2.43.0


From 6e63f6b341e9f1e356ff7798d267a8dc7408125b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:31 +0000
Subject: [PATCH 32/55] fix: the C++ sorts accept an empty list

---
 src/hdbscan.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index e401792..7bcafde 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -317,6 +317,10 @@ void sortByLength(map_t& clusterTable, vector<label_t>& clusters)
  */
 void quickSort(vector<label_t>& clusters, vector<distance_t>& sortData, index_t left, index_t right)
 {
+	if(clusters.empty()){
+		return;
+	}
+
 	ArrayList* d_data = array_list_init(clusters.size(), sizeof(distance_t), NULL);
 	if(sizeof(distance_t) == sizeof(double)) {
 		d_data->compare = double_compare;
-- 
2.43.0


From 1d3a14ce55417aa70c0825afaf28faf41f688ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:31 +0000
Subject: [PATCH 33/55] fix: structures shared with C have the same layout in
 C++

---
 include/hdbscan/cluster.h          | 2 +-
 include/hdbscan/constraint.h       | 2 +-
 include/hdbscan/outlier_score.h    | 2 +-
 include/hdbscan/undirected_graph.h | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/hdbscan/cluster.h b/include/hdbscan/cluster.h
index 4e53711..0f4431f 100644
--- a/include/hdbscan/cluster.h
+++ b/include/hdbscan/cluster.h
@@ -87,7 +87,7 @@ public:
 	 */
 	Cluster(label_t label, Cluster* parent, distance_t birthLevel, index_t numPoints);
 
-	virtual ~Cluster();
+	~Cluster();
 
 	/**
 	 * @brief Removes the specified number of points from this cluster at the given edge level, which will
diff --git a/include/hdbscan/constraint.h b/include/hdbscan/constraint.h
index 8d97014..adae753 100644
--- a/include/hdbscan/constraint.h
+++ b/include/hdbscan/constraint.h
@@ -80,7 +80,7 @@ public:
 	 * @param type The CONSTRAINT_TYPE of the constraint
 	 */
 	Constraint(int pointA, int pointB, CONSTRAINT_TYPE type);
-	virtual ~Constraint();
+	~Constraint();
 #endif
 
 
diff --git a/include/hdbscan/outlier_score.h b/include/hdbscan/outlier_score.h
index 5ff5923..71b8efa 100644
--- a/include/hdbscan/outlier_score.h
+++ b/include/hdbscan/outlier_score.h
@@ -76,7 +76,7 @@ public:
 	 * @brief Destroy the Outlier Score object
 	 * 
 	 */
-	virtual ~OutlierScore();
+	~OutlierScore();
 
 	// ------------------------------ PUBLIC METHODS ------------------------------
 	/**
diff --git a/include/hdbscan/undirected_graph.h b/include/hdbscan/undirected_graph.h
index d7a6c1d..d4e9a03 100644
--- a/include/hdbscan/undirected_graph.h
+++ b/include/hdbscan/undirected_graph.h
@@ -56,7 +56,7 @@ struct UndirectedGraph {
 
 #ifdef __cplusplus
 public:
-	virtual ~UndirectedGraph();
+	~UndirectedGraph();
 	// ------------------------------ CONSTRUCTORS ------------------------------
 
 	/**
-- 
2.43.0


From 0ef6c0e0674cf9085dcb93630db1c4d1f67b22c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:53 +0000
Subject: [PATCH 34/55] fix: an empty C++ graph can be constructed

---
 src/undirected_graph.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/undirected_graph.cpp b/src/undirected_graph.cpp
index 2404ad3..d3b35a9 100644
--- a/src/undirected_graph.cpp
+++ b/src/undirected_graph.cpp
@@ -40,7 +40,10 @@
 namespace clustering {
 
 UndirectedGraph::UndirectedGraph(){
-	graph_init(this, 0, NULL, NULL, NULL);
+	graph_init(this, 0,
+		array_list_init(1, sizeof(index_t), NULL),
+		array_list_init(1, sizeof(index_t), NULL),
+		array_list_init(1, sizeof(distance_t), NULL));
 }
 
 UndirectedGraph::~UndirectedGraph(){
-- 
2.43.0


From 6b8717173fb468f9bb29431b5dfb56fd3b0776a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:53 +0000
Subject: [PATCH 35/55] fix: calculating outlier scores again releases the
 earlier ones

---
 src/hdbscan.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 76a2b09..736eb47 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1158,6 +1158,7 @@ int hdbscsan_calculate_outlier_scores(hdbscan* sc, distance_t* pointNoiseLevels,
 
 	distance_t* coreDistances = sc->distanceFunction.coreDistances;
 	index_t numPoints = sc->numPoints;
+	free(sc->outlierScores);	// scores calculated before
 	sc->outlierScores = (outlier_score*)malloc(numPoints*sizeof(outlier_score));
 
 	if(!sc->outlierScores){
-- 
2.43.0


From 1d1ee76c9262136098eb23ab217f0b964840f6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:53 +0000
Subject: [PATCH 36/55] fix: a minPts far beyond the number of points does not
 exhaust the stack

---
 src/distance.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/distance.c b/src/distance.c
index 60f53f8..e14cd51 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -216,7 +216,16 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
  */
 void distance_get_core_distances(distance *dis)
 {
-	
+	if(dis->numNeighbors >= dis->rows)
+	{
+		/// There are fewer points than neighbours asked for
+		for (index_t i = 0; i < dis->rows; i++) {
+			dis->coreDistances[i] = D_MAX;
+		}
+
+		return;
+	}
+
 	distance_t sortedDistance[dis->numNeighbors+1];
 #ifdef _OPENMP	
 #pragma omp parallel for private(sortedDistance)
-- 
2.43.0


From dcfa8e997d2f5c811f183d97563f68397e3aeb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:53 +0000
Subject: [PATCH 37/55] fix: each Python clustering object has its own native
 handle

---
 modules/python/src/PyHdbscan.c | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index a2a08e1..f823eb3 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -54,14 +54,13 @@
             PyModuleDef_HEAD_INIT, name, doc, -1, methods, }; \
         ob = PyModule_Create(&PyHdbscanNodule);
 
-hdbscan* scan = NULL;
-
 /**
  * @brief PyHdbscan object
  * 
  */
 typedef struct {
 	PyObject_HEAD
+	hdbscan* scan;
 	PyObject* labels;
     PyObject* clusterMap;
     PyObject* hierarchy;
@@ -74,7 +73,7 @@ typedef struct {
  * @param self 
  */
 static void PyHdbscan_dealloc(PyHdbscan* self){
-	hdbscan_clean(scan);
+	hdbscan_destroy(self->scan);
     Py_XDECREF(self->labels);
     Py_XDECREF(self->clusterMap);
     Py_XDECREF(self->hierarchy);
@@ -96,6 +95,7 @@ PyHdbscan_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
 
     self = (PyHdbscan *)type->tp_alloc(type, 0);
     if (self != NULL) {
+        self->scan = NULL;
         self->labels = NULL;
         self->clusterMap = NULL;
         self->hierarchy = NULL;
@@ -136,7 +136,8 @@ PyHdbscan_init(PyHdbscan *self, PyObject *args, PyObject *kwds)
 		return -1;
 	} 
 	
-    scan = hdbscan_init(NULL, self->minPoints);
+    hdbscan_destroy(self->scan);
+    self->scan = hdbscan_init(NULL, self->minPoints);
 	
     return 0;
 }
@@ -227,10 +228,10 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
     }
 	
     void *dset = PyArray_DATA(d_arr); /// The contigous array
-	int err = hdbscan_run(scan, dset, self->rows, self->cols, TRUE, datatype);
+	int err = hdbscan_run(self->scan, dset, self->rows, self->cols, TRUE, datatype);
 
     npy_intp dims[] = {self->rows, 1}; // Dimensions for the labels numpy array
-    get_labels(self, scan->clusterLabels);
+    get_labels(self, self->scan->clusterLabels);
 
     Py_INCREF(self->labels);
     Py_XDECREF(dataset); // Release the dataset memory
@@ -255,7 +256,7 @@ static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
 		return NULL;
 	} 
 	
-	int err = hdbscan_rerun(scan, self->minPoints);
+	int err = hdbscan_rerun(self->scan, self->minPoints);
 
     npy_intp dims[] = {self->rows, 1};
     enum NPY_TYPES tp = NPY_SHORT;
@@ -266,7 +267,7 @@ static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
         tp = NPY_LONG;
     }
 
-    get_labels(self, scan->clusterLabels);
+    get_labels(self, self->scan->clusterLabels);
     Py_INCREF(self->labels);
 	
 	return Py_BuildValue("i", err);
@@ -287,7 +288,7 @@ static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
     }
 
     int err = 1;
-    hashtable* tmp = hdbscan_create_cluster_map(scan->clusterLabels, begin, end);
+    hashtable* tmp = hdbscan_create_cluster_map(self->scan->clusterLabels, begin, end);
     self->clusterMap = PyDict_New();
     label_t label;
 
@@ -321,11 +322,11 @@ static PyObject* PyHdbscan_getHierarchies(PyHdbscan *self, PyObject *args) {
     int64_t level;
 	hierarchy_entry* data;
 
-    for(size_t i = 0; i < hashtable_size(scan->hierarchy); i++) {
+    for(size_t i = 0; i < hashtable_size(self->scan->hierarchy); i++) {
         
-		set_value_at(scan->hierarchy->keys, i, &level);
-        hashtable_lookup(scan->hierarchy, &level, &data);
-        npy_intp dims[] = {scan->numPoints, 1};
+		set_value_at(self->scan->hierarchy->keys, i, &level);
+        hashtable_lookup(self->scan->hierarchy, &level, &data);
+        npy_intp dims[] = {self->scan->numPoints, 1};
         PyObject* value = PyArray_SimpleNewFromData(1, dims, tp, data->labels);
         PyObject* key = Py_BuildValue("k", level);
         PyDict_SetItem(self->hierarchy, key, value);
-- 
2.43.0


From 96f8ec9ffa83dc7cb8d75a708bd86488181b22e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:52 +0000
Subject: [PATCH 38/55] fix: invalid arguments to the Python binding raise
 exceptions and leave the object unchanged

---
 modules/python/src/PyHdbscan.c | 79 ++++++++++++++++++++++++++++------
 1 file changed, 65 insertions(+), 14 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index f823eb3..f7366b8 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -129,19 +129,37 @@ PyHdbscan_init(PyHdbscan *self, PyObject *args, PyObject *kwds)
         c ="H";
     }
 
-    if (!PyArg_ParseTupleAndKeywords(args, kwds, c, kwlist, &self->minPoints))
+    index_t minPoints;
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, c, kwlist, &minPoints))
         return -1;
     
-    if(self->minPoints < 2){
+    if(minPoints < 2){
+        PyErr_SetString(PyExc_ValueError, "minPoints must be at least 2.");
 		return -1;
 	} 
 	
+    self->minPoints = minPoints;
     hdbscan_destroy(self->scan);
     self->scan = hdbscan_init(NULL, self->minPoints);
 	
     return 0;
 }
 
+/**
+ * @brief Raise an exception unless a dataset has been clustered
+ * 
+ * @param self 
+ * @return int 
+ */
+static int has_run(PyHdbscan *self){
+    if(self->scan == NULL || self->scan->clusterLabels == NULL){
+        PyErr_SetString(PyExc_RuntimeError, "No dataset has been clustered.");
+        return 0;
+    }
+
+    return 1;
+}
+
 /**
  * @brief Get the labels object
  * 
@@ -179,8 +197,18 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
     if (! PyArg_ParseTuple(args, "O", &dataset)){
         return NULL;
 	}
+
+    if(self->scan == NULL){
+        PyErr_SetString(PyExc_RuntimeError, "The object has not been initialised.");
+        return NULL;
+    }
+
+    if(!PyArray_Check(dataset)){
+        PyErr_SetString(PyExc_TypeError, "The dataset must be a numpy array.");
+        return NULL;
+    }
     
-    int typenum = PyArray_TYPE(dataset);
+    int typenum = PyArray_TYPE((PyArrayObject *)dataset);
     uint datatype;
 
     /// Determine the datatype from the array
@@ -205,18 +233,25 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
         datatype = H_SHORT;
     }
     else{
-        printf("Unsupported datatype.\n");
+        PyErr_SetString(PyExc_TypeError, "Unsupported datatype.");
         return NULL;
     }
 
-    Py_INCREF(dataset);    
-    
     // Create a contigous array from dataset
     PyArrayObject* d_arr = (PyArrayObject*)PyArray_ContiguousFromAny(dataset, typenum, 0, 0);
+    if(d_arr == NULL){
+        return NULL;
+    }
 	
     int nd = PyArray_NDIM(d_arr);
 	npy_intp *dimensions = PyArray_DIMS(d_arr);
 
+    if(nd < 1 || nd > 2 || PyArray_SIZE(d_arr) == 0){
+        Py_DECREF(d_arr);
+        PyErr_SetString(PyExc_ValueError, "The dataset must be a non-empty array of one or two dimensions.");
+        return NULL;
+    }
+
     // Get numpy array dimensions
     if(nd == 1)
     {
@@ -247,15 +282,20 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
  * @return PyObject* 
  */
 static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
-	Py_XDECREF(self->labels); 
-    if (!PyArg_ParseTuple(args, "i", &self->minPoints))
+    long minPoints;
+    if (!PyArg_ParseTuple(args, "l", &minPoints))
         return NULL;
     
-    if(self->minPoints < 2){
-        printf("minPts must be greater than 2.\n");
+    if(minPoints < 2 || (unsigned long)minPoints > (index_t)-1){
+        PyErr_SetString(PyExc_ValueError, "minPoints must be at least 2.");
 		return NULL;
 	} 
+
+    if(!has_run(self)){
+        return NULL;
+    }
 	
+    self->minPoints = (index_t)minPoints;
 	int err = hdbscan_rerun(self->scan, self->minPoints);
 
     npy_intp dims[] = {self->rows, 1};
@@ -274,11 +314,19 @@ static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
 }
 
 static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
-    Py_XDECREF(self->clusterMap); 
     int32_t begin, end;
     if (!PyArg_ParseTuple(args, "ii", &begin, &end))
         return NULL;
 
+    if(!has_run(self)){
+        return NULL;
+    }
+
+    if(begin < 0 || end < begin || (uint)end > self->scan->numPoints){
+        PyErr_SetString(PyExc_ValueError, "The range must lie within the dataset.");
+        return NULL;
+    }
+
     enum NPY_TYPES tp = NPY_SHORT;
 
     if(sizeof(label_t) == sizeof(int)) {
@@ -289,7 +337,7 @@ static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
 
     int err = 1;
     hashtable* tmp = hdbscan_create_cluster_map(self->scan->clusterLabels, begin, end);
-    self->clusterMap = PyDict_New();
+    Py_XSETREF(self->clusterMap, PyDict_New());
     label_t label;
 
     for(size_t i = 0; i < tmp->size; i++) {
@@ -308,7 +356,10 @@ static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
 }
 
 static PyObject* PyHdbscan_getHierarchies(PyHdbscan *self, PyObject *args) {
-    Py_XDECREF(self->hierarchy); 
+    if(!has_run(self)){
+        return NULL;
+    }
+
     enum NPY_TYPES tp = NPY_SHORT;
 
     if(sizeof(label_t) == sizeof(int)) {
@@ -318,7 +369,7 @@ static PyObject* PyHdbscan_getHierarchies(PyHdbscan *self, PyObject *args) {
     }
 
     int err = 1;
-    self->hierarchy = PyDict_New();
+    Py_XSETREF(self->hierarchy, PyDict_New());
     int64_t level;
 	hierarchy_entry* data;
 
-- 
2.43.0


From 4d238b4e943b3158d15e7576ffc671941653f39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:52 +0000
Subject: [PATCH 39/55] fix: the Python binding releases its copies of datasets
 and labels

---
 modules/python/src/PyHdbscan.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index f7366b8..a64e390 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -176,11 +176,15 @@ void get_labels(PyHdbscan *self, label_t *labels){
         c ="H";
     }
     
-    self->labels = PyList_New(0);
+    PyObject* list = PyList_New(0);
 
 	for(uint i = 0; i < self->rows; i++){
-		PyList_Append(self->labels, Py_BuildValue(c, labels[i]));
+		PyObject* label = Py_BuildValue(c, labels[i]);
+		PyList_Append(list, label);
+		Py_XDECREF(label);
 	}
+
+    Py_XSETREF(self->labels, list);
 }
 
 /**
@@ -268,8 +272,7 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
     npy_intp dims[] = {self->rows, 1}; // Dimensions for the labels numpy array
     get_labels(self, self->scan->clusterLabels);
 
-    Py_INCREF(self->labels);
-    Py_XDECREF(dataset); // Release the dataset memory
+    Py_DECREF(d_arr); // Release the contiguous copy of the dataset
 
 	return Py_BuildValue("i", err);
 }
@@ -308,7 +311,6 @@ static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
     }
 
     get_labels(self, self->scan->clusterLabels);
-    Py_INCREF(self->labels);
 	
 	return Py_BuildValue("i", err);
 }
-- 
2.43.0


From 4cb4c6b41789292b91e25ef836253a7cf2790426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:52 +0000
Subject: [PATCH 40/55] fix: arrays returned by the Python binding own their
 data

---
 modules/python/src/PyHdbscan.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index a64e390..2ff66d2 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -331,13 +331,12 @@ static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
 
     enum NPY_TYPES tp = NPY_SHORT;
 
-    if(sizeof(label_t) == sizeof(int)) {
+    if(sizeof(index_t) == sizeof(int)) {
         tp = NPY_INT;
-    } else if (sizeof(label_t) == sizeof(long)) {
+    } else if (sizeof(index_t) == sizeof(long)) {
         tp = NPY_LONG;
     }
 
-    int err = 1;
     hashtable* tmp = hdbscan_create_cluster_map(self->scan->clusterLabels, begin, end);
     Py_XSETREF(self->clusterMap, PyDict_New());
     label_t label;
@@ -348,11 +347,14 @@ static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
         ArrayList* lst;
         hashtable_lookup(tmp, &label, &lst);
         npy_intp dims[] = {lst->size, 1};
-        label_t* labels = lst->data;
-        PyObject* value = PyArray_SimpleNewFromData(1, dims, tp, labels);
+        PyObject* value = PyArray_SimpleNew(1, dims, tp);
+        memcpy(PyArray_DATA((PyArrayObject *)value), lst->data, lst->size * sizeof(index_t));
         PyDict_SetItem(self->clusterMap, key, value);
+        Py_DECREF(key);
+        Py_DECREF(value);
     }
 
+    hdbscan_destroy_cluster_map(tmp);
     Py_INCREF(self->clusterMap);
     return self->clusterMap;
 }
@@ -380,9 +382,12 @@ static PyObject* PyHdbscan_getHierarchies(PyHdbscan *self, PyObject *args) {
 		set_value_at(self->scan->hierarchy->keys, i, &level);
         hashtable_lookup(self->scan->hierarchy, &level, &data);
         npy_intp dims[] = {self->scan->numPoints, 1};
-        PyObject* value = PyArray_SimpleNewFromData(1, dims, tp, data->labels);
+        PyObject* value = PyArray_SimpleNew(1, dims, tp);
+        memcpy(PyArray_DATA((PyArrayObject *)value), data->labels, (size_t)self->scan->numPoints * sizeof(label_t));
         PyObject* key = Py_BuildValue("k", level);
         PyDict_SetItem(self->hierarchy, key, value);
+        Py_DECREF(key);
+        Py_DECREF(value);
     }
     
     Py_INCREF(self->hierarchy);
-- 
2.43.0


From 642427ddbe0df7114700be2813cc0cfdbfa77e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:41 +0000
Subject: [PATCH 41/55] fix: the native method cleanHdbscan can be called from
 Java

---
 modules/java/src/Hdbscan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/java/src/Hdbscan.cpp b/modules/java/src/Hdbscan.cpp
index b00d8a1..3439885 100644
--- a/modules/java/src/Hdbscan.cpp
+++ b/modules/java/src/Hdbscan.cpp
@@ -93,6 +93,6 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_reRunImpl(JNIEnv *en
 	return getLabelsArray(env, scan.clusterLabels, scan.numPoints);
 }
 
-JNIEXPORT void JNICALL Java_hdbscan_Hdbscan_cleanHdbscan(JNIEnv *, jobject){
+JNIEXPORT void JNICALL Java_bw_co_roguesystems_Hdbscan_cleanHdbscan(JNIEnv *, jobject){
 	//scan.clean();
 }
-- 
2.43.0


From ad86100a1aa6d257f62dae3d1e44974fd8086bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:41 +0000
Subject: [PATCH 42/55] fix: the Java binding releases the rows and the copy of
 the dataset

---
 modules/java/src/Hdbscan.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/java/src/Hdbscan.cpp b/modules/java/src/Hdbscan.cpp
index 3439885..edc0b8c 100644
--- a/modules/java/src/Hdbscan.cpp
+++ b/modules/java/src/Hdbscan.cpp
@@ -68,6 +68,7 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_runImpl(JNIEnv *env,
 	int rows = env->GetArrayLength(dataset);
 	jdoubleArray dim=  (jdoubleArray)env->GetObjectArrayElement(dataset, 0);
 	int cols = env -> GetArrayLength(dim);
+	env->DeleteLocalRef(dim);
 	double *dset = new double[rows * cols];
 	long dIdx = 0;
 
@@ -79,10 +80,13 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_runImpl(JNIEnv *env,
 			dset[dIdx] = row[j];
 			dIdx++;
 		}
+
+		env->ReleaseDoubleArrayElements(dim, row, JNI_ABORT);
+		env->DeleteLocalRef(dim);
 	}
 	scan.run(dset, (index_t)rows, (index_t)cols, TRUE, H_DOUBLE);
 	
-	delete dset;
+	delete[] dset;
 	
 	return getLabelsArray(env, scan.clusterLabels, rows);
 }
-- 
2.43.0


From 5912fa89f40533d52a4e47e04db05913102f7d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:41 +0000
Subject: [PATCH 43/55] fix: each Java clustering object has its own native
 object

---
 modules/java/src/Hdbscan.cpp                  | 32 ++++++++++++++-----
 .../java/src/bw/co/roguesystems/Hdbscan.java  | 10 ++++++
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/modules/java/src/Hdbscan.cpp b/modules/java/src/Hdbscan.cpp
index edc0b8c..356415a 100644
--- a/modules/java/src/Hdbscan.cpp
+++ b/modules/java/src/Hdbscan.cpp
@@ -42,10 +42,23 @@
 #include <iostream>
 
 using namespace clustering;
-hdbscan scan;
+
+/**
+ * The native object of a Java object
+ */
+static hdbscan* getScan(JNIEnv *env, jobject obj){
+	jclass cls = env->GetObjectClass(obj);
+	return (hdbscan*)env->GetLongField(obj, env->GetFieldID(cls, "handle", "J"));
+}
+
+static void setScan(JNIEnv *env, jobject obj, hdbscan *scan){
+	jclass cls = env->GetObjectClass(obj);
+	env->SetLongField(obj, env->GetFieldID(cls, "handle", "J"), (jlong)scan);
+}
 
 JNIEXPORT void JNICALL Java_bw_co_roguesystems_Hdbscan_initHdbscan(JNIEnv *env, jobject obj, jint minPoints){
-	hdbscan_init(&scan, minPoints);
+	delete getScan(env, obj);
+	setScan(env, obj, new hdbscan((index_t)minPoints));
 }
 
 jintArray getLabelsArray(JNIEnv *env, label_t *lbs, int rows){
@@ -84,19 +97,22 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_runImpl(JNIEnv *env,
 		env->ReleaseDoubleArrayElements(dim, row, JNI_ABORT);
 		env->DeleteLocalRef(dim);
 	}
-	scan.run(dset, (index_t)rows, (index_t)cols, TRUE, H_DOUBLE);
+	hdbscan *scan = getScan(env, obj);
+	scan->run(dset, (index_t)rows, (index_t)cols, TRUE, H_DOUBLE);
 	
 	delete[] dset;
 	
-	return getLabelsArray(env, scan.clusterLabels, rows);
+	return getLabelsArray(env, scan->clusterLabels, rows);
 }
 
 
 JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_reRunImpl(JNIEnv *env, jobject obj, jint newMinPts){
-	scan.reRun(newMinPts);	
-	return getLabelsArray(env, scan.clusterLabels, scan.numPoints);
+	hdbscan *scan = getScan(env, obj);
+	scan->reRun(newMinPts);	
+	return getLabelsArray(env, scan->clusterLabels, scan->numPoints);
 }
 
-JNIEXPORT void JNICALL Java_bw_co_roguesystems_Hdbscan_cleanHdbscan(JNIEnv *, jobject){
-	//scan.clean();
+JNIEXPORT void JNICALL Java_bw_co_roguesystems_Hdbscan_cleanHdbscan(JNIEnv *env, jobject obj){
+	delete getScan(env, obj);
+	setScan(env, obj, NULL);
 }
diff --git a/modules/java/src/bw/co/roguesystems/Hdbscan.java b/modules/java/src/bw/co/roguesystems/Hdbscan.java
index dd284e1..7d6e78f 100644
--- a/modules/java/src/bw/co/roguesystems/Hdbscan.java
+++ b/modules/java/src/bw/co/roguesystems/Hdbscan.java
@@ -35,6 +35,10 @@ public class Hdbscan{
 	};
 
 	private int[] labels;
+
+	/** Address of the native clustering object, 0 if there is none */
+	private long handle;
+	private int minPoints;
 	
 	 /**
 	  * Initialise hdbscan*
@@ -68,6 +72,7 @@ public class Hdbscan{
 	 * @param minPoints
 	 */
 	public Hdbscan(int minPoints){
+		this.minPoints = minPoints;
 		initHdbscan(minPoints);
 	}
 	
@@ -76,6 +81,10 @@ public class Hdbscan{
 	 * @param dataset
 	 */
 	public void run(double[][] dataset){
+		if(handle == 0){
+			initHdbscan(minPoints);
+		}
+
 		labels = runImpl(dataset);
 	}
 	
@@ -85,6 +94,7 @@ public class Hdbscan{
 	 */
 	public void reRun(int minPts){
 		labels = reRunImpl(minPts);
+		minPoints = minPts;
 	}
 	
 	/**
-- 
2.43.0


From fb357b8a60ccd1f2265c12090f89c5c66bf28ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:41 +0000
Subject: [PATCH 44/55] fix: invalid calls of the Java binding throw instead of
 ending the process

---
 .../java/src/bw/co/roguesystems/Hdbscan.java  | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/modules/java/src/bw/co/roguesystems/Hdbscan.java b/modules/java/src/bw/co/roguesystems/Hdbscan.java
index 7d6e78f..56dc07b 100644
--- a/modules/java/src/bw/co/roguesystems/Hdbscan.java
+++ b/modules/java/src/bw/co/roguesystems/Hdbscan.java
@@ -72,6 +72,10 @@ public class Hdbscan{
 	 * @param minPoints
 	 */
 	public Hdbscan(int minPoints){
+		if(minPoints < 2){
+			throw new IllegalArgumentException("minPoints must be at least 2");
+		}
+
 		this.minPoints = minPoints;
 		initHdbscan(minPoints);
 	}
@@ -81,6 +85,16 @@ public class Hdbscan{
 	 * @param dataset
 	 */
 	public void run(double[][] dataset){
+		if(dataset == null || dataset.length == 0){
+			throw new IllegalArgumentException("the dataset must not be empty");
+		}
+
+		for(double[] row : dataset){
+			if(row == null || row.length != dataset[0].length){
+				throw new IllegalArgumentException("all rows of the dataset must have the same length");
+			}
+		}
+
 		if(handle == 0){
 			initHdbscan(minPoints);
 		}
@@ -93,6 +107,14 @@ public class Hdbscan{
 	 * @param minPts
 	 */
 	public void reRun(int minPts){
+		if(minPts < 2){
+			throw new IllegalArgumentException("minPts must be at least 2");
+		}
+
+		if(handle == 0 || labels == null){
+			throw new IllegalStateException("there is no dataset to cluster again");
+		}
+
 		labels = reRunImpl(minPts);
 		minPoints = minPts;
 	}
-- 
2.43.0


From 50052cf32b0f2a085a1bb73e25ddf35891d06129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:57 +0000
Subject: [PATCH 45/55] fix: the hash table survives failed allocations

---
 modules/collections/src/hashtable.c | 41 ++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index a1f84ae..9f2c8f8 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -146,6 +146,14 @@ hashtable* hashtable_init_size(size_t buckets, enum HTYPES ktype, enum HTYPES dt
     htbl->key_compare = compare;
     htbl->keys = set_init(get_htype_size(htbl->ktype), compare);
 
+    if(htbl->keys == NULL)
+    {
+        logger_write(FATAL, "Hash table key set memory allocation failed\n");
+        free(htbl->table);
+        free(htbl);
+        return NULL;
+    }
+
     /**
      * @brief Determine the function to use for key hashing
      * 
@@ -189,6 +197,19 @@ int32_t hashtable_insert(hashtable* htbl, void *key, void* value)
     {
         entry = hashtable_set_entry(htbl, entry, key, value);
 
+        if(entry == NULL)
+        {
+            return 0;
+        }
+
+        if(!set_insert(htbl->keys, key))
+        {
+            free(entry->key);
+            free(entry->data);
+            free(entry);
+            return 0;
+        }
+
         // The bucket has at least one entry
         if(htbl->table[bucket] != NULL)
         {
@@ -201,12 +222,17 @@ int32_t hashtable_insert(hashtable* htbl, void *key, void* value)
 
         htbl->table[bucket] = entry;
         htbl->size++;        
-        set_insert(htbl->keys, key);
     } else { /// The key is in the table 
         // In case the value memory is externally managed, we have to get the data
         // in the entry before replacing it.
         size_t dsize = get_htype_size(htbl->dtype);
         void* tmp = malloc(dsize);
+
+        if(tmp == NULL)
+        {
+            return 0;
+        }
+
         memcpy(tmp, entry->data, dsize);          // Copy the data to a tmp variable
         memcpy(entry->data, value, dsize);        // Replace the data
         memcpy(value, tmp, dsize);          // Copy the original data into value
@@ -416,12 +442,25 @@ hashtable_entry* hashtable_set_entry(hashtable* htbl, hashtable_entry *entry, vo
     {
         entry = (hashtable_entry *)malloc(sizeof(hashtable_entry));
 
+        if(entry == NULL)
+        {
+            return NULL;
+        }
+
         // Assign proper memory sizes.
         // TODO: see if data and key memories can be allocated in a
         // single contigous memory with the malloc above.
         entry->data = malloc(dsize);
         entry->key = malloc(ksize);
 
+        if(entry->data == NULL || entry->key == NULL)
+        {
+            free(entry->data);
+            free(entry->key);
+            free(entry);
+            return NULL;
+        }
+
         // Make sure next and prev are NULL
         entry->next = NULL;
         entry->prev = NULL;
-- 
2.43.0


From b0215d61b53472ab5c6e3fd2d716402a46fdf807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:57 +0000
Subject: [PATCH 46/55] fix: the linked list survives failed allocations

---
 modules/collections/src/linkedlist.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/modules/collections/src/linkedlist.c b/modules/collections/src/linkedlist.c
index b78c3de..5f5e187 100644
--- a/modules/collections/src/linkedlist.c
+++ b/modules/collections/src/linkedlist.c
@@ -80,6 +80,12 @@ linkedlist *linkedlist_init(size_t step)
 void node_set_data(node* nd, void* data, size_t step)
 {    
     nd->data = malloc(step);
+
+    if(nd->data == NULL)
+    {
+        return;
+    }
+
     memcpy(nd->data, data, step);
 }
 
@@ -103,6 +109,12 @@ node* node_creator(void* data, enum HTYPES type)
     nd->next = NULL;
 
     node_set_data(nd, data, type);
+
+    if(nd->data == NULL)
+    {
+        free(nd);
+        return NULL;
+    }
     
     return nd;
 }
-- 
2.43.0


From 6cb159c2d27d716503c512fe1e13c85344ff5233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:19 +0000
Subject: [PATCH 47/55] fix: a removing linked list lookup releases the node

---
 modules/collections/src/linkedlist.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/modules/collections/src/linkedlist.c b/modules/collections/src/linkedlist.c
index 5f5e187..77cf151 100644
--- a/modules/collections/src/linkedlist.c
+++ b/modules/collections/src/linkedlist.c
@@ -301,13 +301,16 @@ void* linkedlist_lookup(linkedlist *list, void* data, int32_t remove, int32_t (*
 {
     node* tmp = linkedlist_lookup_helper(list, data, d_compare);
 
-    // Unhook the node from the list
-    if(remove == 1)
+    void* found = tmp ? tmp->data : NULL;
+
+    // Unhook the node from the list. The data now belongs to the caller
+    if(remove == 1 && tmp != NULL)
     {
         linkedlist_node_unhook(list, tmp);
+        free(tmp);
     }
 
-    return tmp ? tmp->data : tmp;
+    return found;
 }
 
 /**
-- 
2.43.0


From 219f2e981c471fcc282b5cdf5ccbef6c92dba973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:51 +0000
Subject: [PATCH 48/55] fix: get_prime reaches the largest 32-bit prime

---
 modules/collections/src/primes.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/collections/src/primes.c b/modules/collections/src/primes.c
index a304e7f..4bf7351 100644
--- a/modules/collections/src/primes.c
+++ b/modules/collections/src/primes.c
@@ -42,9 +42,9 @@ int32_t get_prime(int32_t min)
 {
     int32_t prime = 0;
 
-    for(int i = min < 2 ? 2 : min + 1; i < INT_MAX; i++)
+    for(int64_t i = min < 2 ? 2 : (int64_t)min + 1; i <= INT_MAX; i++)
     {
-        for (int j = 2; j <= i / j; j++)
+        for (int64_t j = 2; j <= i / j; j++)
         {
             if (i % j == 0) {
                 goto not_prime;
@@ -52,7 +52,7 @@ int32_t get_prime(int32_t min)
         }
 
         // Once we have found a prime, then we need to exit the loop
-        prime = i;
+        prime = (int32_t)i;
         break;
         
         not_prime:
-- 
2.43.0


From 03df89074debefaf39a0949b49632a393179ad67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:28 +0000
Subject: [PATCH 49/55] fix: find_prime_less_than finds the prime below every
 prime of the table

---
 modules/collections/src/primes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/collections/src/primes.c b/modules/collections/src/primes.c
index 4bf7351..7c745a4 100644
--- a/modules/collections/src/primes.c
+++ b/modules/collections/src/primes.c
@@ -83,7 +83,7 @@ int32_t binary_search_primes(int32_t l, int32_t r, int32_t x)
         // If element is smaller than mid, then 
         // it can only be present in left subarray
 
-        if (primes[mid] > x && primes[mid - 1] > x) {
+        if (primes[mid] > x && primes[mid - 1] >= x) {
             return binary_search_primes(l, mid - 1, x); 
         } 
   
-- 
2.43.0


From dcfcd74c8594530276760c8aeb63d6004c221a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:47 +0000
Subject: [PATCH 50/55] fix: a message is logged without its date when memory
 runs out

---
 modules/utils/src/logger.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/modules/utils/src/logger.c b/modules/utils/src/logger.c
index 7943ea1..a7020f3 100644
--- a/modules/utils/src/logger.c
+++ b/modules/utils/src/logger.c
@@ -53,6 +53,10 @@ static char* getDateString() {
     // Allocate space for date string
     char* date = (char*)malloc( 100 );
 
+    if(date == NULL) {
+        return NULL;
+    }
+
     // Format the time correctly
     strftime(date, 100, "[%F %T]", localtime(&t));
 
@@ -102,9 +106,10 @@ void logger_write(enum LOGTYPE type, const char* str) {
     
     /** If the LOGTYPE is none, we do not add the timestamp information to the log */
     if(type != NONE) {
-        size_t sz = strlen(date) + strlen(tp) + strlen(str) + 10;
+        const char* stamp = date == NULL ? "" : date; // The date may be missing when memory runs out
+        size_t sz = strlen(stamp) + strlen(tp) + strlen(str) + 10;
         char buffer[sz];
-        sprintf(buffer, "%s %s: %s", date, tp, str);
+        sprintf(buffer, "%s %s: %s", stamp, tp, str);
     #ifdef DEBUG
         fprintf(log_file, "%s", buffer);
     #else
-- 
2.43.0


From bbc850f3121fcb1fe1a434952c41e7eb1d88f17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:17 +0000
Subject: [PATCH 51/55] fix: sorting clusters terminates when a confidence is
 not a number

---
 src/hdbscan.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 736eb47..34dec68 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1567,7 +1567,8 @@ void partition(label_t *c_data, distance_t *d_data, int lower, int upper, int* p
 	int down = upper; /* index will go down */
 
 	while(up < down){
-		while((up < down) && (d_data[up] <= x)) {
+		/* not "<= x": a value that is not a number must not stop both scans for ever */
+		while((up < down) && !(d_data[up] > x)) {
 			up++;
 		}
 
-- 
2.43.0


From 9c69895328b4cee47cd924dccc542ae46ce4323e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:28 +0000
Subject: [PATCH 52/55] fix: reject a negative or too large minPoints when a
 Python object is created

---
 modules/python/src/PyHdbscan.c | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index 2ff66d2..44ff154 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -120,25 +120,16 @@ PyHdbscan_init(PyHdbscan *self, PyObject *args, PyObject *kwds)
 {
     static char *kwlist[] = {"minPoints", NULL};
 
-    char* c;
-    if(sizeof(index_t) == sizeof(int)) {
-        c = "I";
-    } else if(sizeof(index_t) == sizeof(long)) {
-        c = "k";
-    } else {
-        c ="H";
-    }
-
-    index_t minPoints;
-    if (!PyArg_ParseTupleAndKeywords(args, kwds, c, kwlist, &minPoints))
+    long minPoints;
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "l", kwlist, &minPoints))
         return -1;
     
-    if(minPoints < 2){
+    if(minPoints < 2 || (unsigned long)minPoints > (index_t)-1){
         PyErr_SetString(PyExc_ValueError, "minPoints must be at least 2.");
 		return -1;
 	} 
 	
-    self->minPoints = minPoints;
+    self->minPoints = (index_t)minPoints;
     hdbscan_destroy(self->scan);
     self->scan = hdbscan_init(NULL, self->minPoints);
 	
-- 
2.43.0


From d636877ead06bb1f58bafa6f3b82259bf6716370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:28 +0000
Subject: [PATCH 53/55] fix: do not leak the hierarchy dictionary of a Python
 object

---
 modules/python/src/PyHdbscan.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index 44ff154..2bd3351 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -381,7 +381,6 @@ static PyObject* PyHdbscan_getHierarchies(PyHdbscan *self, PyObject *args) {
         Py_DECREF(value);
     }
     
-    Py_INCREF(self->hierarchy);
     return Py_BuildValue("i", err);
 }
 
-- 
2.43.0


From 776304224afa5758776abaecf651df047097f2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:28 +0000
Subject: [PATCH 54/55] fix: read the Python members with the size of index_t

---
 modules/python/src/PyHdbscan.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index 2bd3351..6144012 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -396,6 +396,9 @@ static PyMethodDef PyHdbscan_methods[] = {
     {NULL}  /* Sentinel */
 };
 
+/// The member type that matches index_t
+#define T_INDEX (sizeof(index_t) == sizeof(long) ? T_ULONG : sizeof(index_t) == sizeof(int) ? T_UINT : T_USHORT)
+
 /**
  * @brief PyHdbscan members
  * 
@@ -404,9 +407,9 @@ static PyMemberDef PyHdbscan_members[] = {
     {"labels", T_OBJECT_EX, offsetof(PyHdbscan, labels), 0, "Cluster labels"},
     {"clusterMap", T_OBJECT_EX, offsetof(PyHdbscan, clusterMap), 0, "Dictionary of the clusters and the points"},
     {"hierarchy", T_OBJECT_EX, offsetof(PyHdbscan, hierarchy), 0, "Dictionary of the hierarchies"},
-    {"minPoints", T_INT, offsetof(PyHdbscan, minPoints), 0, "Minimum number of point in a cluster"},
-    {"rows", T_INT, offsetof(PyHdbscan, rows), 0, "number of data points"},
-    {"cols", T_INT, offsetof(PyHdbscan, cols), 0, "The size of each data point"},
+    {"minPoints", T_INDEX, offsetof(PyHdbscan, minPoints), 0, "Minimum number of point in a cluster"},
+    {"rows", T_INDEX, offsetof(PyHdbscan, rows), 0, "number of data points"},
+    {"cols", T_INDEX, offsetof(PyHdbscan, cols), 0, "The size of each data point"},
     {NULL}  /* Sentinel */
 };
 
-- 
2.43.0


From 172f54ed401b6bbf1b099b59764f3e5f380be311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:58 +0000
Subject: [PATCH 55/55] fix: report success from the outlier score step

hdbscsan_calculate_outlier_scores returned 1 (HDBSCAN_ERROR) whether it
had succeeded or not.
---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 34dec68..94da316 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1194,7 +1194,7 @@ int hdbscsan_calculate_outlier_scores(hdbscan* sc, distance_t* pointNoiseLevels,
 	//Sort the outlier scores:
 	qsort(sc->outlierScores, numPoints, sizeof(outlier_score), outlier_score_compare);
 
-	return 1;
+	return HDBSCAN_SUCCESS;
 }
 
 /**
-- 
2.43.0

