From 83d1b2b7e65842d6ede27b60bc47c435a9f4aa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:08 +0000
Subject: [PATCH 01/24] fix: cosine similarity is NaN when exactly one of the
 vectors is zero

A NaN score never wins a comparison, so zero vectors could not be looked
up, and nothing could be added next to a centroid with a zero vector.
---
 pkg/mathutils/distance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/mathutils/distance.go b/pkg/mathutils/distance.go
index f618267..75ed629 100644
--- a/pkg/mathutils/distance.go
+++ b/pkg/mathutils/distance.go
@@ -40,7 +40,7 @@ func CosineSimilarity(vec1, vec2 []float64) (float64, error) {
 		return 0, errors.New("similarity measurement attempt failed: vectors are of different lengths")
 	}
 	norm1, norm2 := norm(vec1), norm(vec2)
-	if norm1 == 0 && norm2 == 0 {
+	if norm1 == 0 || norm2 == 0 {
 		return 0, nil
 	}
 	var dot float64
-- 
2.43.0


From db13990697bf97f1efab137493de82d25ff30a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:08 +0000
Subject: [PATCH 02/24] fix: EuclideanDistance sums per-axis distances instead
 of squares

---
 pkg/mathutils/distance.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/mathutils/distance.go b/pkg/mathutils/distance.go
index 75ed629..82a903b 100644
--- a/pkg/mathutils/distance.go
+++ b/pkg/mathutils/distance.go
@@ -19,9 +19,9 @@ func EuclideanDistance(v1, v2 []float64) (float64, error) {
 	}
 	var r float64
 	for i := 0; i < len(v1); i++ {
-		r += math.Sqrt((v1[i] - v2[i]) * (v1[i] - v2[i]))
+		r += (v1[i] - v2[i]) * (v1[i] - v2[i])
 	}
-	return r, nil
+	return math.Sqrt(r), nil
 }
 
 // norm computes the norm (math) of a vec.
-- 
2.43.0


From 6b625992657f79d56c8828c96c74de804567f1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:45 +0000
Subject: [PATCH 03/24] fix: KMeansServer.AddDataPoint reports success for
 refused datapoints

Callers (put fallback, redistribution between nodes) trust the reply, so a
datapoint which was refused by a node got lost instead of going elsewhere
or back. A refused datapoint does not create a namespace either.
---
 pkg/kmeans/rpc/server.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 0a045cd..e71161a 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -56,14 +56,16 @@ func (s *KMeansServer) AddDataPoint(args AddDataPointArgs, resp *bool) error {
 	// Namespace doesn't exist, create one + add dp there.
 	if !lookupOK {
 		centroidManager := s.CentroidManagerFactoryFunc(args.DP.Vec)
-		centroidManager.AddDataPoint(args.DP)
+		// Refused (expired, for instance), so there is nothing to store.
+		if *resp = centroidManager.AddDataPoint(args.DP); !*resp {
+			return nil
+		}
 		slot := CManagerSlot{cManager: centroidManager}
 		// Returns a false if a slot is the containec CentroidManager is
 		// nil, but it is assumed that it works here.
 		s.Table.AddSlot(args.NameSpace, &slot)
 	}
 
-	*resp = true
 	return nil
 }
 
-- 
2.43.0


From ef591c0cbae657643614aee82d70ce423098e21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:45 +0000
Subject: [PATCH 04/24] fix: concurrent creation of a namespace loses
 datapoints

Two calls that found a namespace missing would each install a slot for it,
and the last one replaced the first along with its datapoints.
---
 pkg/kmeans/rpc/rpc.go    | 12 ++++++++++++
 pkg/kmeans/rpc/server.go | 15 +++++++++++----
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/pkg/kmeans/rpc/rpc.go b/pkg/kmeans/rpc/rpc.go
index 179228b..a3f4e95 100644
--- a/pkg/kmeans/rpc/rpc.go
+++ b/pkg/kmeans/rpc/rpc.go
@@ -181,6 +181,18 @@ func (t *CManagerTable) AddSlot(namespace string, cms *CManagerSlot) bool {
 	return true
 }
 
+// addSlotIfAbsent is like AddSlot but does not replace a slot which is already
+// behind the namespace; false is returned in that case.
+func (t *CManagerTable) addSlotIfAbsent(namespace string, cms *CManagerSlot) bool {
+	t.Lock()
+	defer t.Unlock()
+	if _, exists := t.slots[namespace]; exists {
+		return false
+	}
+	t.slots[namespace] = cms
+	return true
+}
+
 // CentroidManagerFactoryF is whatever creates a CentroidManager.
 type CentroidManagerFactoryF = func(vec []float64) *CentroidManager
 
diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index e71161a..81d7178 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -61,9 +61,16 @@ func (s *KMeansServer) AddDataPoint(args AddDataPointArgs, resp *bool) error {
 			return nil
 		}
 		slot := CManagerSlot{cManager: centroidManager}
-		// Returns a false if a slot is the containec CentroidManager is
-		// nil, but it is assumed that it works here.
-		s.Table.AddSlot(args.NameSpace, &slot)
+		// A concurrent call might have created the namespace in the meantime,
+		// in which case the dp must be added there.
+		for !s.Table.addSlotIfAbsent(args.NameSpace, &slot) {
+			added := s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
+				*resp = cm.AddDataPoint(args.DP)
+			})
+			if added {
+				break
+			}
+		}
 	}
 
 	return nil
@@ -372,7 +379,7 @@ func (s *KMeansServer) StealCentroid(args StealCentroidArgs, r *StealCentroidsRe
 			return nil
 		}
 		cm := s.CentroidManagerFactoryFunc(localVec)
-		s.Table.AddSlot(args.NameSpace, &CManagerSlot{cManager: cm})
+		s.Table.addSlotIfAbsent(args.NameSpace, &CManagerSlot{cManager: cm})
 	}
 
 	for r.TransferredN < args.TransferDPLimit && clientErr == nil {
-- 
2.43.0


From 08e86c8a31105dd9de5c4927df7a0c395a4b4856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:45 +0000
Subject: [PATCH 05/24] fix: distributing datapoints to an empty address list
 drops them

---
 pkg/kmeans/rpc/server.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 81d7178..0413a58 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -166,10 +166,14 @@ func (s *KMeansServer) DistributeDataPointsFast(args DistribDPArgs, _ *int) erro
 
 	// Not wrapping the code below with this because it locks the CentroidManager.
 	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
+		// Nowhere to send dps.
+		if len(args.AddrOptions) == 0 {
+			return
+		}
 		dps = append(dps, cm.DrainOrdered(args.N)...)
 	})
 
-	if nsErr != nil || len(dps) == 0 || len(args.AddrOptions) == 0 {
+	if nsErr != nil || len(dps) == 0 {
 		return nsErr
 	}
 
@@ -208,10 +212,14 @@ func (s *KMeansServer) DistributeDataPointsAccurate(args DistribDPArgs, _ *int)
 
 	// Not wrapping the code below with this because it locks the CentroidManager.
 	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
+		// Nowhere to send dps.
+		if len(args.AddrOptions) == 0 {
+			return
+		}
 		dps = append(dps, cm.DrainOrdered(args.N)...)
 	})
 
-	if nsErr != nil || len(dps) == 0 || len(args.AddrOptions) == 0 {
+	if nsErr != nil || len(dps) == 0 {
 		return nsErr
 	}
 
-- 
2.43.0


From 9523a833142a441079326e517c76e2bc9d260a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:45 +0000
Subject: [PATCH 06/24] fix: draining zero datapoints from a CentroidManager
 drains one

---
 pkg/kmeans/centroidmanager/cmanager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index d37fe8b..c8a3aaf 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -127,6 +127,9 @@ func (cm *CentroidManager) newCentroid(vec []float64) *centroid.Centroid {
 // of common.DataPoint contained in each centroid is uncertain.
 func (cm *CentroidManager) centroidDataPointPortions(n int) map[int]int {
 	portions := make(map[int]int)
+	if n <= 0 {
+		return portions
+	}
 	// This is essentially the total sum of all v in portions.
 	assigned := 0
 	for {
-- 
2.43.0


From 3574cb89e40fd36f4c3f0263db4598aa5b013769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:45 +0000
Subject: [PATCH 07/24] fix: negative and huge counts in requests panic

Counts of a request were used as slice capacities, so a negative or a huge
one would take down a node (or abort an API request).
---
 core/dps/getdps.go                     |  2 +-
 pkg/kmeans/centroid/centroid.go        |  6 +++---
 pkg/kmeans/centroidmanager/cmanager.go |  8 ++++----
 pkg/kmeans/rpc/client.go               |  2 +-
 pkg/kmeans/rpc/server.go               |  4 ++--
 pkg/searchutils/knn.go                 | 12 +++++++-----
 6 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/core/dps/getdps.go b/core/dps/getdps.go
index 81dd8a4..a10ed7e 100644
--- a/core/dps/getdps.go
+++ b/core/dps/getdps.go
@@ -17,7 +17,7 @@ type getDataPointsArgs struct {
 }
 
 func getDataPoints(args getDataPointsArgs) []DataPoint {
-	res := make([]DataPoint, 0, args.n)
+	res := make([]DataPoint, 0)
 	for _, addr := range args.addrOpts {
 		client := rpc.KMeansClient(addr.ToStr(), args.namespace, nil)
 		dps := client.KNNLookup(args.queryVec, args.n-len(res), args.drain)
diff --git a/pkg/kmeans/centroid/centroid.go b/pkg/kmeans/centroid/centroid.go
index 98819de..4d3e14d 100644
--- a/pkg/kmeans/centroid/centroid.go
+++ b/pkg/kmeans/centroid/centroid.go
@@ -131,7 +131,7 @@ func (c *Centroid) dataPointVecGenerator() func() ([]float64, bool) {
 // DrainUnordered drains n internal datapoints in a manner that has no particylar.
 // significance, specifically by how they are stored internally -- in no order.
 func (c *Centroid) DrainUnordered(n int) []common.DataPoint {
-	res := make([]common.DataPoint, 0, n)
+	res := make([]common.DataPoint, 0)
 	for len(c.DataPoints) != 0 && len(res) < n {
 		if !c.DataPoints[0].Expired() {
 			res = append(res, c.DataPoints[0])
@@ -148,7 +148,7 @@ func (c *Centroid) DrainUnordered(n int) []common.DataPoint {
 // net-means/searchutils.KNFCos, then drain away data that has lowest cosine
 // similarity to this Centroid.
 func (c *Centroid) DrainOrdered(n int) []common.DataPoint {
-	res := make([]common.DataPoint, 0, n)
+	res := make([]common.DataPoint, 0)
 	// Furthest neigh.
 	indexes := c.kfnSearchFunc(c.vec, c.dataPointVecGenerator(), n)
 	for _, index := range indexes {
@@ -243,7 +243,7 @@ func (c *Centroid) DistributeDataPoints(n int, receivers []common.DataPointRecei
 // crating a new Centroid with 'NewCentroid'. If that field is for instance
 // net-means/searchutils.KNNCos, then best fit equals best cosine similarity.
 func (c *Centroid) KNNLookup(vec []float64, k int, drain bool) []common.DataPoint {
-	res := make([]common.DataPoint, 0, k)
+	res := make([]common.DataPoint, 0)
 
 	indexes := c.knnSearchFunc(vec, c.dataPointVecGenerator(), k)
 	for _, i := range indexes {
diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index c8a3aaf..3671bbb 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -280,7 +280,7 @@ func (cm *CentroidManager) AddDataPoint(dp common.DataPoint) bool {
 // centroids, i.e if n=2 and there are 2 centroids with at least 1 dp each, then
 // both of them will drain 1 dp. Note, will update CentroidManager vector.
 func (cm *CentroidManager) DrainUnordered(n int) []common.DataPoint {
-	res := make([]common.DataPoint, 0, n)
+	res := make([]common.DataPoint, 0)
 	for centroidIndex, portion := range cm.centroidDataPointPortions(n) {
 		centroid := cm.Centroids[centroidIndex]
 		// Prep for internal vec update.
@@ -303,7 +303,7 @@ func (cm *CentroidManager) DrainUnordered(n int) []common.DataPoint {
 // least 1 dp each, then both of them will drain 1 dp. Note, will update
 // CentroidManager vector.
 func (cm *CentroidManager) DrainOrdered(n int) []common.DataPoint {
-	res := make([]common.DataPoint, 0, n)
+	res := make([]common.DataPoint, 0)
 	for centroidIndex, portion := range cm.centroidDataPointPortions(n) {
 		centroid := cm.Centroids[centroidIndex]
 		// Prep for internal vec update.
@@ -425,7 +425,7 @@ func (cm *CentroidManager) DistributeDataPointsInternal(n int) {
 // with the same name (KNNLookup) will be called on those Centroids.
 // Note, will update internal CentroidManager vector.
 func (cm *CentroidManager) KNNLookup(vec []float64, k int, drain bool) []common.DataPoint {
-	res := make([]common.DataPoint, 0, k)
+	res := make([]common.DataPoint, 0)
 
 	gen := cm.centroidVecGenerator() // Brevity.
 	for _, centroidIndex := range cm.knnSearchFunc(vec, gen, k) {
@@ -475,7 +475,7 @@ func (cm *CentroidManager) NearestCentroids(vec []float64, n int, drain bool) (
 	if len(indexes) == 0 {
 		return nil, false
 	}
-	centroids := make([]*centroid.Centroid, 0, n)
+	centroids := make([]*centroid.Centroid, 0, len(indexes))
 	for _, index := range indexes {
 		centroids = append(centroids, cm.Centroids[index])
 	}
diff --git a/pkg/kmeans/rpc/client.go b/pkg/kmeans/rpc/client.go
index b680383..a1b6ffc 100644
--- a/pkg/kmeans/rpc/client.go
+++ b/pkg/kmeans/rpc/client.go
@@ -181,7 +181,7 @@ func (c *kmeansClient) DistributeDataPointsInternal(n int) {
 // (T of pkg/kmeans/centroidmanager, se that method name for more documentation),
 // using the addr and namespace specified while setting up this client.
 func (c *kmeansClient) KNNLookup(vec []float64, k int, drain bool) []DataPoint {
-	resp := make([]DataPoint, 0, k)
+	resp := make([]DataPoint, 0)
 
 	c.client(func(rc *rpc.Client) {
 		args := KNNLookupArgs{NameSpace: c.namespace, Vec: vec, K: k, Drain: drain}
diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 0413a58..d315c8d 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -162,7 +162,7 @@ func distributeDP(dp DataPoint, gen vecGenerator, addrs []string, namespace stri
 // method called, then those dps will be sent to remote nodes that are most
 // similar to those dps (similarity is caluclated by remote CentroidManager.Vec()).
 func (s *KMeansServer) DistributeDataPointsFast(args DistribDPArgs, _ *int) error {
-	dps := make([]DataPoint, 0, args.N)
+	dps := make([]DataPoint, 0)
 
 	// Not wrapping the code below with this because it locks the CentroidManager.
 	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
@@ -208,7 +208,7 @@ func (s *KMeansServer) DistributeDataPointsFast(args DistribDPArgs, _ *int) erro
 // This is _a_lot_ slower due to many network calls, but has the benefit of
 // placing distribute dps precisely.
 func (s *KMeansServer) DistributeDataPointsAccurate(args DistribDPArgs, _ *int) error {
-	dps := make([]DataPoint, 0, args.N)
+	dps := make([]DataPoint, 0)
 
 	// Not wrapping the code below with this because it locks the CentroidManager.
 	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
diff --git a/pkg/searchutils/knn.go b/pkg/searchutils/knn.go
index be9bc50..cafb0d0 100644
--- a/pkg/searchutils/knn.go
+++ b/pkg/searchutils/knn.go
@@ -86,7 +86,9 @@ type KNNBruteArgs struct {
 // (or furthest) neighs of a vector, and then returning their index.
 // See KNNBruteArgs (accepted argument) for more info.
 func KNNBrute(args KNNBruteArgs) []int {
-	res := make([]resultItem, args.K)
+	// Grows up to args.K, which isn't used for allocating as it can exceed the
+	// amount of vectors (by a lot).
+	res := make([]resultItem, 0)
 	// This represents the lowest/highest score found so far.
 	// Defining a cap of highest/lowest number representing similarity
 	// is done here by simply using the (near) min/max allowed float.
@@ -94,10 +96,6 @@ func KNNBrute(args KNNBruteArgs) []int {
 	if !args.Ascending {
 		similarity *= -1
 	}
-	// Apply worst score to all resultItems.
-	for i := 0; i < args.K; i++ {
-		res[i].score = similarity
-	}
 	i := 0
 	for {
 		// Next vector.
@@ -111,6 +109,10 @@ func KNNBrute(args KNNBruteArgs) []int {
 			i++
 			continue
 		}
+		// Make space (with the worst score) as long as there are less than K.
+		if len(res) < args.K {
+			res = append(res, resultItem{score: similarity})
+		}
 		// Evaluate inclusion of current vector.
 		newSlot := &resultItem{i, score, true}
 		if args.Ascending && score < similarity {
-- 
2.43.0


From d6b7c270957496b2d14d4a85fd5d0ac91adc406a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:29 +0000
Subject: [PATCH 08/24] fix: draining the last centroid turns the
 CentroidManager vector into NaN

A node which lost all its centroids that way (load balancing) reports NaN
as its vector, so it can not be compared with anything again.
---
 pkg/kmeans/centroidmanager/cmanager.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 3671bbb..6c32400 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -221,6 +221,14 @@ func (cm *CentroidManager) prepVecUpdate(v1 []float64) func([]float64) {
 	}
 }
 
+// refreshVec sets cm.vec to the mean of all vecs in cm.Centroids. The current
+// cm.vec is kept if there are none.
+func (cm *CentroidManager) refreshVec() {
+	if vec, ok := mathutils.VecMean(cm.centroidVecGenerator()); ok {
+		cm.vec = vec
+	}
+}
+
 // Vec exposes the internal vector of a CentroidManager.
 func (km *CentroidManager) Vec() []float64 { return km.vec }
 
@@ -483,15 +491,11 @@ func (cm *CentroidManager) NearestCentroids(vec []float64, n int, drain bool) (
 		sort.Ints(indexes)
 		for i := len(indexes) - 1; i > -1; i-- {
 			j := indexes[i] // Abbreviation for actual centroid index.
-			// Auto-adjust internal vec.
-			if len(cm.Centroids) > 0 {
-				cm.vec = mathutils.VecMulScalar(cm.vec, float64(len(cm.Centroids)))
-				cm.vec, _ = mathutils.VecSub(cm.vec, cm.Centroids[j].Vec())
-				cm.vec = mathutils.VecDivScalar(cm.vec, float64(len(cm.Centroids)-1))
-			}
 			// Delete.
 			cm.Centroids = append(cm.Centroids[:j], cm.Centroids[j+1:]...)
 		}
+		// Auto-adjust internal vec.
+		cm.refreshVec()
 	}
 	return centroids, true
 }
-- 
2.43.0


From 93ddab2e426237bf95970a4b0d8daea11b37e44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:30 +0000
Subject: [PATCH 09/24] fix: MemTrim leaves CentroidManager with a wrong vector

---
 pkg/kmeans/centroidmanager/cmanager.go | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 6c32400..0bbc546 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -355,25 +355,16 @@ func (cm *CentroidManager) LenDP() int {
 func (cm *CentroidManager) MemTrim() {
 	centroids := make([]*centroid.Centroid, 0, len(cm.Centroids))
 	for _, centroid := range cm.Centroids {
-		// Prep for internal vec update.
-		updateVec := cm.prepVecUpdate(centroid.Vec())
 		centroid.MemTrim()
-		// Finalize internal vec update.
-		updateVec(centroid.Vec())
+		// Will otherwise not be included in new centroids slice, so
+		// effectively deleted.
 		if centroid.LenDP() != 0 {
 			centroids = append(centroids, centroid)
 		}
-
-		// Will not be included in new centroids slice, so effectively deleted.
-		// In this case, the internal vec must be updated a bit differently
-		// than what cm.prepVecUpdate does. Note bounds check.
-		if centroid.LenDP() == 1 && len(cm.Centroids) > 1 {
-			cm.vec = mathutils.VecMulScalar(cm.vec, float64(len(cm.Centroids)))
-			cm.vec, _ = mathutils.VecSub(cm.vec, centroid.Vec())
-			cm.vec = mathutils.VecDivScalar(cm.vec, float64(len(cm.Centroids)-1))
-		}
 	}
 	cm.Centroids = centroids
+	// Internal vec update.
+	cm.refreshVec()
 }
 
 // MoveVector sets the internal vector to the average of all internal Centroids.
-- 
2.43.0


From 2a48d0cdcd4833327cd782127065963ae1334ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:31 +0000
Subject: [PATCH 10/24] fix: splitting centroids does not update the
 CentroidManager vector

---
 pkg/kmeans/centroidmanager/cmanager.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 0bbc546..92fe378 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -277,6 +277,7 @@ func (cm *CentroidManager) AddDataPoint(dp common.DataPoint) bool {
 		newCentroid, splitOK := cm.splitCentroid(indexes[0], cm.centroidDPThreshold/2)
 		if splitOK {
 			cm.Centroids = append(cm.Centroids, newCentroid)
+			cm.refreshVec()
 		}
 	}
 	return true
@@ -510,6 +511,7 @@ func (cm *CentroidManager) SplitCentroids(split func(*centroid.Centroid) bool) {
 		}
 	}
 	cm.Centroids = append(cm.Centroids, newCentroids...)
+	cm.refreshVec()
 }
 
 // MergeCentroids iterates through all internal Centroids and passes them to
-- 
2.43.0


From f4f865831f6b06391a3143f39bb0ce4959ff62dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:32 +0000
Subject: [PATCH 11/24] fix: MergeCentroids leaves CentroidManager with a wrong
 vector

---
 pkg/kmeans/centroidmanager/cmanager.go | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 92fe378..61da59b 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -542,9 +542,6 @@ func (cm *CentroidManager) MergeCentroids(merge func(*centroid.Centroid) bool) {
 		gen := cm.centroidVecGenerator()
 		k := len(cm.Centroids)
 
-		// Prep for internal vec update for 'candidate' centroid.
-		updateVecCandidate := cm.prepVecUpdate(vec)
-
 		// Merge nearest centroids into 'candidate' until merge()=true.
 		for _, centroidIndex := range cm.knnSearchFunc(vec, gen, k) {
 			// Guard identity or double merge.
@@ -561,25 +558,16 @@ func (cm *CentroidManager) MergeCentroids(merge func(*centroid.Centroid) bool) {
 				break
 			}
 		}
-		// Finalize internal vec update for 'candidate' centroid.
-		updateVecCandidate(candidate.Vec())
 	}
 	// Filter out centroids marked for deletion from cm.Centroids.
 	// Note, the reason for backwards looping is to prevent index
 	// shifting issues.
 	for i := len(cm.Centroids) - 1; i > -1; i-- {
 		if delMarks[i] {
-			// This should always be true, due to how this func works at the
-			// time of writing, but doing a bounds check juuust in case:
-			if len(cm.Centroids) > 0 {
-				// Need this, it changes the internal vector appropriately
-				// when deleting a centroid:
-				cm.vec = mathutils.VecMulScalar(cm.vec, float64(len(cm.Centroids)))
-				cm.vec, _ = mathutils.VecSub(cm.vec, cm.Centroids[i].Vec())
-				cm.vec = mathutils.VecDivScalar(cm.vec, float64(len(cm.Centroids)-1))
-			}
 			// Delete.
 			cm.Centroids = append(cm.Centroids[:i], cm.Centroids[i+1:]...)
 		}
 	}
+	// Internal vec update.
+	cm.refreshVec()
 }
-- 
2.43.0


From ae6bff44fc5c60d7dcb2af7bf0b6c171a02a3f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:32 +0000
Subject: [PATCH 12/24] fix: client panics on consecutive empty centroids in
 NearestCentroids

---
 pkg/kmeans/rpc/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/kmeans/rpc/client.go b/pkg/kmeans/rpc/client.go
index a1b6ffc..842176e 100644
--- a/pkg/kmeans/rpc/client.go
+++ b/pkg/kmeans/rpc/client.go
@@ -218,6 +218,7 @@ func (c *kmeansClient) NearestCentroids(vec []float64, n int, drain bool) (
 	for i := 0; i < len(resp); i++ {
 		if resp[i] == nil || resp[i].LenDP() == 0 {
 			resp = append(resp[:i], resp[i+1:]...)
+			i-- // The next element has moved here.
 		}
 	}
 
-- 
2.43.0


From 520a897b9f04143d27905cafc75f86d6343172f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:33 +0000
Subject: [PATCH 13/24] fix: stealing stops at the first empty remote centroid

---
 pkg/kmeans/rpc/server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index d315c8d..3993b85 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -394,9 +394,13 @@ func (s *KMeansServer) StealCentroid(args StealCentroidArgs, r *StealCentroidsRe
 		// Can be improved. One at a time for convenience + readability.
 		centroids, cOK := client.NearestCentroids(localVec, 1, true)
 
-		if !cOK || len(centroids) == 0 {
+		if !cOK {
 			break
 		}
+		// Empty remote centroid (drained nonetheless), others might have dps.
+		if len(centroids) == 0 {
+			continue
+		}
 
 		s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
 			// @ unsafe, this is assuming cm has similar properties as centroids
-- 
2.43.0


From b1e5ba514b3533e2eb47b93870a18d02d6c8491a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:34 +0000
Subject: [PATCH 14/24] fix: lookups miss datapoints when the nearest centroids
 are empty

---
 pkg/kmeans/centroidmanager/cmanager.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 61da59b..9fbcec1 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -428,7 +428,9 @@ func (cm *CentroidManager) KNNLookup(vec []float64, k int, drain bool) []common.
 	res := make([]common.DataPoint, 0)
 
 	gen := cm.centroidVecGenerator() // Brevity.
-	for _, centroidIndex := range cm.knnSearchFunc(vec, gen, k) {
+	// All centroids are considered (nearest first) because the nearest k ones
+	// could contain less than k datapoints, or none at all.
+	for _, centroidIndex := range cm.knnSearchFunc(vec, gen, len(cm.Centroids)) {
 		if len(res) >= k {
 			break
 		}
-- 
2.43.0


From 4d07d07535ec474e337daae5789c02ec0391855e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:35 +0000
Subject: [PATCH 15/24] fix: NearestCentroids encodes live centroids without
 holding the lock

---
 pkg/kmeans/rpc/server.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 3993b85..db20b13 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -288,7 +288,14 @@ type NearestCentroidArgs struct {
 // lead to an instance.
 func (s *KMeansServer) NearestCentroids(args NearestCentroidArgs, r *[]*Centroid) error {
 	return s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
-		*r, _ = cm.NearestCentroids(args.Vec, args.N, args.Drain)
+		centroids, _ := cm.NearestCentroids(args.Vec, args.N, args.Drain)
+		// Copied because the response is encoded after the CentroidManager is
+		// unlocked. DataPoints is the only thing that goes over the network.
+		for _, c := range centroids {
+			dps := make([]DataPoint, len(c.DataPoints))
+			copy(dps, c.DataPoints)
+			*r = append(*r, &Centroid{DataPoints: dps})
+		}
 	})
 }
 
-- 
2.43.0


From e2d208b059398c7a637251aa216cd7cd105bf817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:55 +0000
Subject: [PATCH 16/24] fix: event loop panics if the Meta interval is not set

---
 core/eventloop/cfg.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/eventloop/cfg.go b/core/eventloop/cfg.go
index d4f421f..1da55c7 100644
--- a/core/eventloop/cfg.go
+++ b/core/eventloop/cfg.go
@@ -67,6 +67,7 @@ func (cfg *EventLoopTaskSkipConfig) clamp(min, max int) {
 		&cfg.SplitCentroids,
 		&cfg.MergeCentroids,
 		&cfg.LoadBalancing,
+		&cfg.Meta,
 	}
 	for _, v := range items {
 		if *v < min {
-- 
2.43.0


From 6d57a084426ae36b837c9f933e601e221f9d588f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:56 +0000
Subject: [PATCH 17/24] fix: event loop tasks with an interval over 1000 are
 run

They are documented to never run, but were clamped to 1000 and ran in the
first loop (and every 1000th after that).
---
 core/eventloop/cfg.go    | 6 +++++-
 core/eventloop/eltask.go | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/eventloop/cfg.go b/core/eventloop/cfg.go
index 1da55c7..b1c9f48 100644
--- a/core/eventloop/cfg.go
+++ b/core/eventloop/cfg.go
@@ -55,6 +55,9 @@ type EventLoopTaskSkipConfig struct {
 	Meta int
 }
 
+// Intervals over this are never run.
+const taskSkipMax = 1000
+
 // Clams vals in EventLoopTaskSkipConfig (particularly useful for
 // ensuring no zeros (zero div err when using modulus))
 func (cfg *EventLoopTaskSkipConfig) clamp(min, max int) {
@@ -165,5 +168,6 @@ func (cfg *EventLoopConfig) validate() {
 		}
 	}
 
-	cfg.TaskSkip.clamp(1, 1000)
+	// Max is one over the limit, so higher vals are still recognized as 'never'.
+	cfg.TaskSkip.clamp(1, taskSkipMax+1)
 }
diff --git a/core/eventloop/eltask.go b/core/eventloop/eltask.go
index db3712f..8e82f73 100644
--- a/core/eventloop/eltask.go
+++ b/core/eventloop/eltask.go
@@ -7,7 +7,7 @@ import (
 
 // Wrapper for handing event-loop-task skipping.
 func withSkip(cfg *EventLoopConfig, interval int, task func()) {
-	if cfg.internal.iter%interval == 0 {
+	if interval <= taskSkipMax && cfg.internal.iter%interval == 0 {
 		task()
 	}
 }
-- 
2.43.0


From 99c2f080abe09f4c0ad34d019036318b5c1ceb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:57 +0000
Subject: [PATCH 18/24] fix: event loop intervals are off at the wraparound of
 the loop counter

---
 core/eventloop/el.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/core/eventloop/el.go b/core/eventloop/el.go
index 6ea71e5..acab7ae 100644
--- a/core/eventloop/el.go
+++ b/core/eventloop/el.go
@@ -44,11 +44,8 @@ func EventLoop(cfg *EventLoopConfig) func() {
 
 			elStep(cfg, eltLoadBalancing)
 
-			// Tick & wraparound.
+			// Tick. No wraparound, that would break intervals around it.
 			cfg.internal.iter++
-			if cfg.internal.iter > 1000 {
-				cfg.internal.iter = 0
-			}
 		}
 	}()
 
-- 
2.43.0


From c77e0ccf820a950e5fef5fae10c4b38d7f41156c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:21 +0000
Subject: [PATCH 19/24] fix: vectors are not the mean of the data points after
 memory trimming

---
 pkg/kmeans/centroid/centroid.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/kmeans/centroid/centroid.go b/pkg/kmeans/centroid/centroid.go
index 4d3e14d..a4145b4 100644
--- a/pkg/kmeans/centroid/centroid.go
+++ b/pkg/kmeans/centroid/centroid.go
@@ -191,6 +191,8 @@ func (c *Centroid) MemTrim() {
 		dps = append(dps, c.DrainUnordered(1)...)
 	}
 	c.DataPoints = dps
+	// Draining moved the internal vector to the last drained dp.
+	c.MoveVector()
 }
 
 // MoveVector moves the internal centroid vector to be the mean of all
-- 
2.43.0


From d93b20132070510baec264b01aebc505f64a6676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:32 +0000
Subject: [PATCH 20/24] fix: search skips vectors whose score overflows, data
 points next to them get lost

---
 pkg/searchutils/knn.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/pkg/searchutils/knn.go b/pkg/searchutils/knn.go
index cafb0d0..bc7facf 100644
--- a/pkg/searchutils/knn.go
+++ b/pkg/searchutils/knn.go
@@ -89,12 +89,10 @@ func KNNBrute(args KNNBruteArgs) []int {
 	// Grows up to args.K, which isn't used for allocating as it can exceed the
 	// amount of vectors (by a lot).
 	res := make([]resultItem, 0)
-	// This represents the lowest/highest score found so far.
-	// Defining a cap of highest/lowest number representing similarity
-	// is done here by simply using the (near) min/max allowed float.
-	similarity := math.MaxFloat64
+	// This represents the worst possible score.
+	similarity := math.Inf(1)
 	if !args.Ascending {
-		similarity *= -1
+		similarity = math.Inf(-1)
 	}
 	i := 0
 	for {
@@ -109,18 +107,17 @@ func KNNBrute(args KNNBruteArgs) []int {
 			i++
 			continue
 		}
+		// Can't be ordered (DistFunc overflow), so it is the worst.
+		if math.IsNaN(score) {
+			score = similarity
+		}
 		// Make space (with the worst score) as long as there are less than K.
 		if len(res) < args.K {
 			res = append(res, resultItem{score: similarity})
 		}
 		// Evaluate inclusion of current vector.
 		newSlot := &resultItem{i, score, true}
-		if args.Ascending && score < similarity {
-			bubble(newSlot, res, true)
-		}
-		if !args.Ascending && score > similarity {
-			bubble(newSlot, res, false)
-		}
+		bubble(newSlot, res, args.Ascending)
 		i++
 	}
 	return resItems2Indexes(res)
-- 
2.43.0


From 527a52f8e0a9199450fe434682dca5bec7cff3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:31 +0000
Subject: [PATCH 21/24] fix: nodes that steal from themselves or each other may
 never finish

---
 pkg/kmeans/rpc/server.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index db20b13..a1c3cda 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -397,7 +397,16 @@ func (s *KMeansServer) StealCentroid(args StealCentroidArgs, r *StealCentroidsRe
 		s.Table.addSlotIfAbsent(args.NameSpace, &CManagerSlot{cManager: cm})
 	}
 
-	for r.TransferredN < args.TransferDPLimit && clientErr == nil {
+	// The remote node can't give more than it has. Without this, nodes that steal
+	// from each other (or themselves) could pass the same data around forever.
+	limit := args.TransferDPLimit
+	if limit > 0 {
+		if n := client.LenDP(); n < limit {
+			limit = n
+		}
+	}
+
+	for r.TransferredN < limit && clientErr == nil {
 		// Can be improved. One at a time for convenience + readability.
 		centroids, cOK := client.NearestCentroids(localVec, 1, true)
 
-- 
2.43.0


From dc873bf02832049d85a47a956e2843593cf7cec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:13 +0000
Subject: [PATCH 22/24] fix: HTTP queries answered 200 without a body if a
 found datapoint can not be written as JSON (and lost it when draining)

---
 core/api/handler.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/core/api/handler.go b/core/api/handler.go
index 532eadd..ebc3339 100644
--- a/core/api/handler.go
+++ b/core/api/handler.go
@@ -128,7 +128,22 @@ func (h *handler) queryDataPoint(w http.ResponseWriter, r *http.Request) {
 		respConv = DataPointsToDPs(resp)
 	}
 
-	b, _ := json.Marshal(respConv)
+	b, err := json.Marshal(respConv)
+	if err != nil {
+		// Datapoints put with RPC can have values which JSON does not have
+		// (NaN, for instance). None are delivered, so put back drained ones.
+		for i := 0; opts.Drain && i < len(resp); i++ {
+			put := dps.PutDataPointArgs{
+				AddrOptions:   h.RPCAddrs,
+				Namespace:     opts.Namespace,
+				DataPoint:     resp[i],
+				KNNSearchFunc: searchutils.KNNCos,
+			}
+			_ = dps.PutDataPointFast(put) || dps.PutDataPointRand(put)
+		}
+		w.WriteHeader(http.StatusInternalServerError)
+		return
+	}
 	w.WriteHeader(http.StatusOK)
 	w.Write(b)
 }
-- 
2.43.0


From 18cfe476ff95492fa85dfca8d2ee45073888f0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:00 +0000
Subject: [PATCH 23/24] fix: queries returned datapoints several times if an
 address was listed several times

---
 core/dps/getdps.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/dps/getdps.go b/core/dps/getdps.go
index a10ed7e..518ecea 100644
--- a/core/dps/getdps.go
+++ b/core/dps/getdps.go
@@ -18,7 +18,13 @@ type getDataPointsArgs struct {
 
 func getDataPoints(args getDataPointsArgs) []DataPoint {
 	res := make([]DataPoint, 0)
+	// Addrs that are listed several times must not give the same dps again.
+	visited := make(map[Addr]bool, len(args.addrOpts))
 	for _, addr := range args.addrOpts {
+		if visited[addr] {
+			continue
+		}
+		visited[addr] = true
 		client := rpc.KMeansClient(addr.ToStr(), args.namespace, nil)
 		dps := client.KNNLookup(args.queryVec, args.n-len(res), args.drain)
 		res = append(res, dps...)
-- 
2.43.0


From 176f599bec8f9ba189d0cfbe884cd9e1de3834b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:43 +0000
Subject: [PATCH 24/24] fix: give each HTTP server routes of its own

api.Start registered its routes with http.DefaultServeMux, so that a second
server in the process, or another attempt after the address was found to be
taken, panicked, and whatever else uses the default mux was served too.
---
 core/api/api.go     | 4 +++-
 core/api/handler.go | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/api/api.go b/core/api/api.go
index 7d2de74..9b8a087 100644
--- a/core/api/api.go
+++ b/core/api/api.go
@@ -44,10 +44,12 @@ func Start(cfg APIConfig) error {
 	}
 
 	h := handler{RPCAddrs: cfg.RPCAddrs}
-	h.setRoutes()
+	mux := http.NewServeMux()
+	h.setRoutes(mux)
 
 	s := http.Server{
 		Addr:         cfg.Addr.ToStr(),
+		Handler:      mux,
 		ReadTimeout:  cfg.ReadTimeout,
 		WriteTimeout: cfg.WriteTimeout,
 	}
diff --git a/core/api/handler.go b/core/api/handler.go
index ebc3339..27b2b58 100644
--- a/core/api/handler.go
+++ b/core/api/handler.go
@@ -18,13 +18,13 @@ type handler struct {
 	RPCAddrs []Addr
 }
 
-func (h *handler) setRoutes() {
+func (h *handler) setRoutes(mux *http.ServeMux) {
 	routes := map[string]func(http.ResponseWriter, *http.Request){
 		"/api/dp/put":   h.putDataPoint,
 		"/api/dp/query": h.queryDataPoint,
 	}
 	for k, v := range routes {
-		http.Handle(k, http.HandlerFunc(v))
+		mux.Handle(k, http.HandlerFunc(v))
 		fmt.Printf("route '%v' is up.\n", k)
 	}
 }
-- 
2.43.0

