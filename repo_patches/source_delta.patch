From 81f3b202c459a960a57a54f39180ba5438202d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:27 +0000
Subject: [PATCH 01/78] fix: register the files of a loaded dump under their
 own name

FILES records carry no filename, so every loaded file was registered as file 0
and a second statistics object was made for it from its STATS record; the first
eviction or hit after a restart then panicked.
---
 SmartCache/sim/cache/aiRL.go        | 2 +-
 SmartCache/sim/cache/simpleCache.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index a1a1dc0..ee366e3 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -363,7 +363,7 @@ func (cache *AIRL) Loads(inputString [][]byte, vars ...interface{}) {
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
 			queue.Insert(cache.files, &curFileStats)
 			cache.size += curFileStats.Size
-			cache.stats.Data[curRecord.Filename] = &curFileStats
+			cache.stats.Data[curFileStats.Filename] = &curFileStats
 		case "STATS":
 			var curFileStats files.Stats
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
diff --git a/SmartCache/sim/cache/simpleCache.go b/SmartCache/sim/cache/simpleCache.go
index dc4b80c..e2b9422 100644
--- a/SmartCache/sim/cache/simpleCache.go
+++ b/SmartCache/sim/cache/simpleCache.go
@@ -305,7 +305,7 @@ func (cache *SimpleCache) Loads(inputString [][]byte, _ ...interface{}) {
 				panic(unmarshalErr)
 			}
 			cache.size += curFileStats.Size
-			cache.stats.Data[curRecord.Filename] = &curFileStats
+			cache.stats.Data[curFileStats.Filename] = &curFileStats
 		case "STATS":
 			var curFileStats files.Stats
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
-- 
2.43.0


From d2ec5e0c990df5b024c4c565516bd5a0d7233dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:27 +0000
Subject: [PATCH 02/78] fix: save the position in the recent request times with
 a dump

Without it a restarted cache overwrote the wrong entry and left a zero time.
---
 SmartCache/sim/cache/files/stats.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SmartCache/sim/cache/files/stats.go b/SmartCache/sim/cache/files/stats.go
index 2d4f0eb..edfdac8 100644
--- a/SmartCache/sim/cache/files/stats.go
+++ b/SmartCache/sim/cache/files/stats.go
@@ -199,7 +199,7 @@ type Stats struct {
 	RequestedTimesMean float64     `json:"requestedTimesMean"`
 	RequestedTimes     []time.Time `json:"requestedTimes"`
 	DeltaLastRequest   int64       `json:"deltaLastRequest"`
-	idxLastRequest     int
+	IdxLastRequest     int         `json:"idxLastRequest"`
 }
 
 // DiffLastUpdate returns the number of days from the last update stats
@@ -222,8 +222,8 @@ func (stats *Stats) UpdateStats(hit bool, size float64, userID int64, siteName i
 	if len(stats.RequestedTimes) < NumRequestedTimes {
 		stats.RequestedTimes = append(stats.RequestedTimes, time.Time{})
 	}
-	stats.RequestedTimes[stats.idxLastRequest] = curTime
-	stats.idxLastRequest = (stats.idxLastRequest + 1) % NumRequestedTimes
+	stats.RequestedTimes[stats.IdxLastRequest] = curTime
+	stats.IdxLastRequest = (stats.IdxLastRequest + 1) % NumRequestedTimes
 }
 
 func (stats *Stats) updateWeight(wFun functions.WeightFun, alpha float64, beta float64, gamma float64) float64 {
-- 
2.43.0


From 9965c18cc494ec9f282d9ecb1eec8f9df875abe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:27 +0000
Subject: [PATCH 03/78] fix: continue the request tick after loading a dump

The tick restarted from zero while the files kept the tick of their last request,
so the distance between requests became negative after a hot restart.
---
 SmartCache/sim/cache/aiRL.go        |  2 ++
 SmartCache/sim/cache/simpleCache.go | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index ee366e3..b826963 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -364,12 +364,14 @@ func (cache *AIRL) Loads(inputString [][]byte, vars ...interface{}) {
 			queue.Insert(cache.files, &curFileStats)
 			cache.size += curFileStats.Size
 			cache.stats.Data[curFileStats.Filename] = &curFileStats
+			cache.restoreTick(curFileStats.Recency)
 		case "STATS":
 			var curFileStats files.Stats
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
 			if _, inStats := cache.stats.Data[curRecord.Filename]; !inStats {
 				cache.stats.Data[curRecord.Filename] = &curFileStats
 			}
+			cache.restoreTick(curFileStats.Recency)
 		case "ADDAGENT":
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &cache.additionAgent)
 			cache.additionAgent.ResetParams(initEpsilon, decayRateEpsilon)
diff --git a/SmartCache/sim/cache/simpleCache.go b/SmartCache/sim/cache/simpleCache.go
index e2b9422..d210de9 100644
--- a/SmartCache/sim/cache/simpleCache.go
+++ b/SmartCache/sim/cache/simpleCache.go
@@ -182,6 +182,7 @@ func (cache *SimpleCache) ClearFiles() {
 	queue.Init(cache.files)
 	cache.stats.Clear()
 	cache.size = 0.
+	cache.tick = 0
 }
 
 // Clear the LRU struct
@@ -306,6 +307,7 @@ func (cache *SimpleCache) Loads(inputString [][]byte, _ ...interface{}) {
 			}
 			cache.size += curFileStats.Size
 			cache.stats.Data[curFileStats.Filename] = &curFileStats
+			cache.restoreTick(curFileStats.Recency)
 		case "STATS":
 			var curFileStats files.Stats
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
@@ -315,10 +317,18 @@ func (cache *SimpleCache) Loads(inputString [][]byte, _ ...interface{}) {
 			if _, inStats := cache.stats.Data[curRecord.Filename]; !inStats {
 				cache.stats.Data[curRecord.Filename] = &curFileStats
 			}
+			cache.restoreTick(curFileStats.Recency)
 		}
 	}
 }
 
+// restoreTick moves the tick after the one of a loaded request
+func (cache *SimpleCache) restoreTick(recency int64) {
+	if recency >= cache.tick {
+		cache.tick = recency + 1
+	}
+}
+
 // Load the SimpleCache cache
 func (cache *SimpleCache) Load(filename string) [][]byte {
 	cache.logger.Info("Load cache Dump", zap.String("filename", filename))
-- 
2.43.0


From b69cdc195d615a901d5df9013ec53ae945674d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 04/78] fix: restore the weight cache from its dump

The weight cache cut the last byte of every record, ignored the resulting errors,
dumped its statistics without file names and lost the sum of the weights.
---
 SmartCache/sim/cache/files/stats.go | 15 ++++++
 SmartCache/sim/cache/weightFun.go   | 71 ++---------------------------
 2 files changed, 18 insertions(+), 68 deletions(-)

diff --git a/SmartCache/sim/cache/files/stats.go b/SmartCache/sim/cache/files/stats.go
index edfdac8..84ada52 100644
--- a/SmartCache/sim/cache/files/stats.go
+++ b/SmartCache/sim/cache/files/stats.go
@@ -3,6 +3,7 @@ package files
 import (
 	"math"
 	"simulator/v2/cache/functions"
+	"sort"
 	"time"
 
 	"go.uber.org/zap"
@@ -168,6 +169,20 @@ func (s *Manager) UpdateWeight(stats *Stats, newFile bool, wFun functions.Weight
 	}
 }
 
+// RestoreWeightSum computes the sum of the weights of all files after a load
+func (s *Manager) RestoreWeightSum() {
+	filenames := make([]int64, 0, len(s.Data))
+	for filename := range s.Data {
+		filenames = append(filenames, filename)
+	}
+	sort.Slice(filenames, func(i, j int) bool { return filenames[i] < filenames[j] })
+
+	s.weightSum = 0.0
+	for _, filename := range filenames {
+		s.weightSum += s.Data[filename].Weight
+	}
+}
+
 // GetWeightMedian returns the mean of the weight of all files
 func (s *Manager) GetWeightMedian() float64 {
 	return s.weightSum / float64(len(s.Data))
diff --git a/SmartCache/sim/cache/weightFun.go b/SmartCache/sim/cache/weightFun.go
index d85cba6..524e1a9 100644
--- a/SmartCache/sim/cache/weightFun.go
+++ b/SmartCache/sim/cache/weightFun.go
@@ -1,7 +1,6 @@
 package cache
 
 import (
-	"encoding/json"
 	"fmt"
 	"os"
 
@@ -49,74 +48,10 @@ func (cache *WeightFun) Init(params InitParameters) interface{} {
 	return cache
 }
 
-// Dumps the WeightFun cache
-func (cache *WeightFun) Dumps(fileAndStats bool) [][]byte {
-	cache.logger.Info("Dump cache into byte string")
-	outData := make([][]byte, 0)
-	var newLine = []byte("\n")
-
-	if fileAndStats {
-		// ----- Files -----
-		cache.logger.Info("Dump cache files")
-		for _, file := range queue.GetFromWorst(cache.files) {
-			dumpInfo, _ := json.Marshal(DumpInfo{Type: "FILES"})
-			dumpFile, _ := json.Marshal(file)
-			record, _ := json.Marshal(DumpRecord{
-				Info: string(dumpInfo),
-				Data: string(dumpFile),
-			})
-			record = append(record, newLine...)
-			outData = append(outData, record)
-		}
-		// ----- Stats -----
-		cache.logger.Info("Dump cache stats")
-		for _, stats := range cache.stats.Data {
-			dumpInfo, _ := json.Marshal(DumpInfo{Type: "STATS"})
-			dumpStats, _ := json.Marshal(stats)
-			record, _ := json.Marshal(DumpRecord{
-				Info: string(dumpInfo),
-				Data: string(dumpStats),
-			})
-			record = append(record, newLine...)
-			outData = append(outData, record)
-		}
-	}
-	return outData
-}
-
 // Loads the WeightFun cache
-func (cache *WeightFun) Loads(inputString [][]byte, _ ...interface{}) {
-	cache.logger.Info("Load cache dump string")
-	var (
-		curRecord     DumpRecord
-		curRecordInfo DumpInfo
-		unmarshalErr  error
-	)
-	for _, record := range inputString {
-		buffer := record[:len(record)-1]
-		json.Unmarshal(buffer, &curRecord)
-		json.Unmarshal([]byte(curRecord.Info), &curRecordInfo)
-		switch curRecordInfo.Type {
-		case "FILES":
-			var curFileStats files.Stats
-			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
-			if unmarshalErr != nil {
-				panic(unmarshalErr)
-			}
-			queue.Insert(cache.files, &curFileStats)
-			cache.size += curFileStats.Size
-			cache.stats.Data[curRecord.Filename] = &curFileStats
-		case "STATS":
-			var curFileStats files.Stats
-			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
-			if unmarshalErr != nil {
-				panic(unmarshalErr)
-			}
-			if _, inStats := cache.stats.Data[curRecord.Filename]; !inStats {
-				cache.stats.Data[curRecord.Filename] = &curFileStats
-			}
-		}
-	}
+func (cache *WeightFun) Loads(inputString [][]byte, args ...interface{}) {
+	cache.SimpleCache.Loads(inputString, args...)
+	cache.stats.RestoreWeightSum()
 }
 
 // BeforeRequest of LRU cache
-- 
2.43.0


From 3efb799ac12f2d0a893a9800a9b689f1f6f22468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 05/78] fix: dump and load the aiNN cache like the LRU cache it
 is

Its own dump wrote the positions of the files instead of the files and could not be loaded.
---
 SmartCache/sim/cache/aiNN.go | 58 ------------------------------------
 1 file changed, 58 deletions(-)

diff --git a/SmartCache/sim/cache/aiNN.go b/SmartCache/sim/cache/aiNN.go
index e8ad18b..cc5855f 100644
--- a/SmartCache/sim/cache/aiNN.go
+++ b/SmartCache/sim/cache/aiNN.go
@@ -2,13 +2,11 @@ package cache
 
 import (
 	"context"
-	"encoding/json"
 	"time"
 
 	"simulator/v2/cache/ai/featuremap"
 	"simulator/v2/cache/ai/neuralnet"
 	aiPb "simulator/v2/cache/aiService"
-	"simulator/v2/cache/files"
 	"simulator/v2/cache/queue"
 
 	"google.golang.org/grpc"
@@ -73,62 +71,6 @@ func (cache *AINN) Init(params InitParameters) interface{} {
 	return nil
 }
 
-// Dumps the AINN cache
-func (cache *AINN) Dumps(fileAndStats bool) [][]byte {
-	outData := make([][]byte, 0)
-	var newLine = []byte("\n")
-
-	if fileAndStats {
-		// ----- Files -----
-		cache.logger.Info("Dump cache files")
-		for file := range queue.Get(cache.files) {
-			dumpInfo, _ := json.Marshal(DumpInfo{Type: "FILES"})
-			dumpFile, _ := json.Marshal(file)
-			record, _ := json.Marshal(DumpRecord{
-				Info: string(dumpInfo),
-				Data: string(dumpFile),
-			})
-			record = append(record, newLine...)
-			outData = append(outData, record)
-		}
-		// ----- Stats -----
-		cache.logger.Info("Dump cache stats")
-		for _, stats := range cache.stats.Data {
-			dumpInfo, _ := json.Marshal(DumpInfo{Type: "STATS"})
-			dumpStats, _ := json.Marshal(stats)
-			record, _ := json.Marshal(DumpRecord{
-				Info: string(dumpInfo),
-				Data: string(dumpStats),
-			})
-			record = append(record, newLine...)
-			outData = append(outData, record)
-		}
-	}
-
-	return outData
-}
-
-// Loads the AINN cache
-func (cache *AINN) Loads(inputString [][]byte, _ ...interface{}) {
-	var curRecord DumpRecord
-	var curRecordInfo DumpInfo
-
-	for _, record := range inputString {
-		buffer := record[:len(record)-1]
-		json.Unmarshal(buffer, &curRecord)
-		json.Unmarshal([]byte(curRecord.Info), &curRecordInfo)
-		switch curRecordInfo.Type {
-		case "FILES":
-			var curFile files.Stats
-			json.Unmarshal([]byte(curRecord.Data), &curFile)
-			queue.Insert(cache.files, &curFile)
-			cache.size += curFile.Size
-		case "STATS":
-			json.Unmarshal([]byte(curRecord.Data), &cache.stats.Data)
-		}
-	}
-}
-
 // func (cache *AINN) getCategory(catKey string, value interface{}) []float64 {
 // 	var res []float64
 // 	curCategory := cache.aiFeatureMap[catKey]
-- 
2.43.0


From 0ab3e08a0cbb4c944c4a51a3ad0c215f26e4d493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 06/78] fix: keep the initialised queue in the dataset verifier

The queue was replaced by one without its maps, so the first admission panicked.
---
 SmartCache/sim/cache/lruDatasetVerifier.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/SmartCache/sim/cache/lruDatasetVerifier.go b/SmartCache/sim/cache/lruDatasetVerifier.go
index eb19b2c..85e0bd1 100644
--- a/SmartCache/sim/cache/lruDatasetVerifier.go
+++ b/SmartCache/sim/cache/lruDatasetVerifier.go
@@ -26,9 +26,6 @@ func (cache *LRUDatasetVerifier) Init(param InitParameters) interface{} {
 	param.QueueType = queue.LRUQueue
 	cache.SimpleCache.Init(param)
 
-	cache.files = &queue.LRU{}
-	cache.stats.Data = make(map[int64]*files.Stats)
-
 	cache.datasetFileMap = make(map[int64]bool)
 	datasetFilePath := param.Dataset2TestPath
 
-- 
2.43.0


From d1eb43d41a3404f2ce463418cbf71d484b7c6993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 07/78] fix: keep the sum of the weights when only the files
 are cleared

A cold start keeps the statistics, but the average weight fell to zero.
---
 SmartCache/sim/cache/files/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SmartCache/sim/cache/files/stats.go b/SmartCache/sim/cache/files/stats.go
index 84ada52..996694e 100644
--- a/SmartCache/sim/cache/files/stats.go
+++ b/SmartCache/sim/cache/files/stats.go
@@ -33,6 +33,7 @@ func (s *Manager) Init(maxNumDayDiff float64, deltaDaysStep float64, calcWeight
 	s.Data = make(map[int64]*Stats, estimatedNumFiles)
 	s.deletedFileMiss = make(map[int64]int, estimatedNumFiles)
 	s.calcWeight = calcWeight
+	s.weightSum = 0.0
 	s.maxNumDayDiff = maxNumDayDiff
 	s.deltaDaysStep = deltaDaysStep
 	s.logger = zap.L()
@@ -74,7 +75,6 @@ func (s *Manager) Clear() {
 	for _, fileStats := range s.Data {
 		fileStats.Recency = 0
 	}
-	s.weightSum = 0.0
 }
 
 // Dirty indicates if the stats needs a purge
-- 
2.43.0


From c3d71ecd7e670ae3cb5d78456dfb9a00b2c9c681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 08/78] fix: purge statistics in a fixed order

The rounding of the sum of the weights depended on the map iteration order.
---
 SmartCache/sim/cache/files/stats.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/SmartCache/sim/cache/files/stats.go b/SmartCache/sim/cache/files/stats.go
index 996694e..b6f5598 100644
--- a/SmartCache/sim/cache/files/stats.go
+++ b/SmartCache/sim/cache/files/stats.go
@@ -97,10 +97,17 @@ func (s Manager) Dirty() bool {
 func (s *Manager) Purge(has func(int64) bool) {
 	numDeletedFiles := 0
 
-	for filename, stats := range s.Data {
-		curFilename := filename
+	// Fixed order, the sum of the weights depends on it
+	filenames := make([]int64, 0, len(s.Data))
+	for filename := range s.Data {
+		filenames = append(filenames, filename)
+	}
+	sort.Slice(filenames, func(i, j int) bool { return filenames[i] < filenames[j] })
+
+	for _, filename := range filenames {
+		stats := s.Data[filename]
 
-		if inCache := has(curFilename); !inCache && stats.DiffLastUpdate(s.lastUpdateTime) >= s.maxNumDayDiff {
+		if inCache := has(filename); !inCache && stats.DiffLastUpdate(s.lastUpdateTime) >= s.maxNumDayDiff {
 			s.logger.Debug("Purge", zap.Bool("in cache", inCache))
 
 			if s.calcWeight {
-- 
2.43.0


From c21d76a95b592572ee2ac5b3fcabb69f44572e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 09/78] fix: log the admissions of the weight, verifier and
 infinite caches

---
 SmartCache/sim/cache/infiniteCache.go      |  2 ++
 SmartCache/sim/cache/lruDatasetVerifier.go |  3 +++
 SmartCache/sim/cache/simpleCache.go        | 16 ++++++++++++++++
 SmartCache/sim/cache/weightFun.go          |  2 ++
 4 files changed, 23 insertions(+)

diff --git a/SmartCache/sim/cache/infiniteCache.go b/SmartCache/sim/cache/infiniteCache.go
index b07f8f2..8327bd3 100644
--- a/SmartCache/sim/cache/infiniteCache.go
+++ b/SmartCache/sim/cache/infiniteCache.go
@@ -41,6 +41,8 @@ func (cache *InfiniteCache) UpdatePolicy(request *Request, fileStats *files.Stat
 
 		cache.size += requestedFileSize
 		cache.MaxSize += requestedFileSize
+
+		cache.logAdd(fileStats)
 	}
 
 	return added
diff --git a/SmartCache/sim/cache/lruDatasetVerifier.go b/SmartCache/sim/cache/lruDatasetVerifier.go
index 85e0bd1..4198355 100644
--- a/SmartCache/sim/cache/lruDatasetVerifier.go
+++ b/SmartCache/sim/cache/lruDatasetVerifier.go
@@ -71,6 +71,9 @@ func (cache *LRUDatasetVerifier) UpdatePolicy(request *Request, fileStats *files
 				queue.Insert(cache.files, fileStats)
 
 				cache.size += requestedFileSize
+
+				cache.logAdd(fileStats)
+
 				added = true
 			}
 		}
diff --git a/SmartCache/sim/cache/simpleCache.go b/SmartCache/sim/cache/simpleCache.go
index d210de9..543fa16 100644
--- a/SmartCache/sim/cache/simpleCache.go
+++ b/SmartCache/sim/cache/simpleCache.go
@@ -822,6 +822,22 @@ func (cache *SimpleCache) toLogBuffer(curChoice []string) {
 	cache.logBuffer <- curChoice
 }
 
+// logAdd writes the admission of a file in the log
+func (cache *SimpleCache) logAdd(fileStats *files.Stats) {
+	if cache.logFile != nil {
+		cache.toLogBuffer([]string{
+			fmt.Sprintf("%d", cache.tick),
+			ChoiceAdd,
+			fmt.Sprintf("%0.2f", cache.size),
+			fmt.Sprintf("%0.2f", cache.Capacity()),
+			fmt.Sprintf("%d", fileStats.Filename),
+			fmt.Sprintf("%0.2f", fileStats.Size),
+			fmt.Sprintf("%d", fileStats.Frequency),
+			fmt.Sprintf("%d", fileStats.DeltaLastRequest),
+		})
+	}
+}
+
 func (cache *SimpleCache) flushAndCloseLog() {
 	cache.logBuffer <- []string{logBufferExitString}
 	<-cache.logClose
diff --git a/SmartCache/sim/cache/weightFun.go b/SmartCache/sim/cache/weightFun.go
index 524e1a9..0a999a3 100644
--- a/SmartCache/sim/cache/weightFun.go
+++ b/SmartCache/sim/cache/weightFun.go
@@ -95,6 +95,8 @@ func (cache *WeightFun) UpdatePolicy(request *Request, fileStats *files.Stats, h
 
 			queue.Insert(cache.files, fileStats)
 
+			cache.logAdd(fileStats)
+
 			added = true
 		}
 	} else {
-- 
2.43.0


From c551510815cfc0ed94c81f81e550683bdec0fbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 10/78] fix: read the plain files of a data folder and stop
 when it cannot be listed

Plain .csv files in a folder were skipped, and a listing error counted as an empty folder.
---
 SmartCache/sim/cache/simulation.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/SmartCache/sim/cache/simulation.go b/SmartCache/sim/cache/simulation.go
index cf3909c..a7ef017 100644
--- a/SmartCache/sim/cache/simulation.go
+++ b/SmartCache/sim/cache/simulation.go
@@ -244,7 +244,10 @@ func OpenSimFolder(dirPath *os.File) chan CSVRecord {
 	var fileList = make([]string, 0)
 
 	channel := make(chan CSVRecord)
-	fileStats, _ := dirPath.Readdir(0)
+	fileStats, errReadDir := dirPath.Readdir(0)
+	if errReadDir != nil {
+		panic(errReadDir)
+	}
 
 	for _, file := range fileStats {
 		fileList = append(fileList, path.Join(dirPath.Name(), file.Name()))
@@ -256,8 +259,7 @@ func OpenSimFolder(dirPath *os.File) chan CSVRecord {
 		for _, name := range fileList {
 			fileExt := path.Ext(name)
 			switch fileExt {
-			case ".csv":
-			case ".gz":
+			case ".csv", ".gz":
 				for record := range OpenSimFile(name) {
 					channel <- record
 				}
-- 
2.43.0


From eb73b822d34cf1315c20886f78cd7ca1b5b0761c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:22 +0000
Subject: [PATCH 11/78] fix: read the exit code of the jobs

It was never filled in, so failed jobs passed the success filter.
---
 SmartCache/sim/cache/simulation.go | 42 ++++++++++++++++--------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/SmartCache/sim/cache/simulation.go b/SmartCache/sim/cache/simulation.go
index a7ef017..0d0b027 100644
--- a/SmartCache/sim/cache/simulation.go
+++ b/SmartCache/sim/cache/simulation.go
@@ -128,6 +128,7 @@ func recordGenerator(csvReader *csv.Reader, curFile *os.File, headerMap []int) c
 			taskMonitorID, _ := strconv.ParseInt(record[headerMap[4]], 10, 64)
 			jobID, _ := strconv.ParseInt(record[headerMap[5]], 10, 64)
 			protocol, _ := strconv.ParseInt(record[headerMap[6]], 10, 64)
+			jobExecExitCode, _ := strconv.ParseInt(record[headerMap[7]], 10, 64)
 			size, _ := strconv.ParseFloat(record[headerMap[13]], 64)
 			dataType, _ := strconv.ParseInt(record[headerMap[14]], 10, 64)
 			fileType, _ := strconv.ParseInt(record[headerMap[15]], 10, 64)
@@ -144,26 +145,27 @@ func recordGenerator(csvReader *csv.Reader, curFile *os.File, headerMap []int) c
 			sizeInMegabytes := size / (1024. * 1024.)
 
 			curRecord := CSVRecord{
-				Day:           int64(day),
-				Region:        region,
-				Filename:      filename,
-				FileType:      fileType,
-				DataType:      dataType,
-				Protocol:      protocol,
-				TaskMonitorID: taskMonitorID,
-				TaskID:        taskID,
-				JobID:         jobID,
-				SiteName:      siteName,
-				JobSuccess:    jobSuccess,
-				JobLengthH:    joblengthh,
-				JobLengthM:    joblengthm,
-				UserID:        userID,
-				CPUTime:       cputime,
-				IOTime:        iotime,
-				Size:          size,
-				SizeM:         sizeInMegabytes,
-				Campaign:      campaign,
-				Process:       process,
+				Day:             int64(day),
+				Region:          region,
+				Filename:        filename,
+				FileType:        fileType,
+				DataType:        dataType,
+				Protocol:        protocol,
+				TaskMonitorID:   taskMonitorID,
+				TaskID:          taskID,
+				JobID:           jobID,
+				SiteName:        siteName,
+				JobExecExitCode: jobExecExitCode,
+				JobSuccess:      jobSuccess,
+				JobLengthH:      joblengthh,
+				JobLengthM:      joblengthm,
+				UserID:          userID,
+				CPUTime:         cputime,
+				IOTime:          iotime,
+				Size:            size,
+				SizeM:           sizeInMegabytes,
+				Campaign:        campaign,
+				Process:         process,
 			}
 
 			// fmt.Println(curRecord)
-- 
2.43.0


From 6c31a5c33ac0202ed2a404f3623eb603c1c7fbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 12/78] fix: stop when an output cannot be written

Errors while flushing or closing the results and the event log were ignored.
---
 SmartCache/sim/cache/simulation.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/SmartCache/sim/cache/simulation.go b/SmartCache/sim/cache/simulation.go
index 0d0b027..06ad726 100644
--- a/SmartCache/sim/cache/simulation.go
+++ b/SmartCache/sim/cache/simulation.go
@@ -310,15 +310,29 @@ func (output OutputCSV) Write(record []string) {
 		panic(errWriter)
 	}
 	output.csvWriter.Flush()
+
+	if errFlush := output.csvWriter.Error(); errFlush != nil {
+		panic(errFlush)
+	}
 }
 
 // Close the output file after flush the buffer
 func (output OutputCSV) Close() {
 	output.csvWriter.Flush()
+
+	if errFlush := output.csvWriter.Error(); errFlush != nil {
+		panic(errFlush)
+	}
+
 	if output.compressedWriter != nil {
-		output.compressedWriter.Close()
+		if errClose := output.compressedWriter.Close(); errClose != nil {
+			panic(errClose)
+		}
+	}
+
+	if errClose := output.file.Close(); errClose != nil {
+		panic(errClose)
 	}
-	output.file.Close()
 }
 
 // Filter interface
-- 
2.43.0


From c1ce960735fc34a51e36d34c0ba84fd1415b4811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 13/78] fix: replace the dump file all or nothing

The earlier dump was truncated first, so a crash or a full disk while saving lost both,
and the file was never closed nor its errors checked.
---
 SmartCache/sim/cache/aiRL.go        | 19 +------------------
 SmartCache/sim/cache/simpleCache.go | 20 ++++++++++++++++++--
 2 files changed, 19 insertions(+), 20 deletions(-)

diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index b826963..095c096 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -1,7 +1,6 @@
 package cache
 
 import (
-	"compress/gzip"
 	"encoding/binary"
 	"encoding/json"
 	"fmt"
@@ -316,23 +315,7 @@ func (cache *AIRL) Dumps(fileAndStats bool) [][]byte { //nolint:funlen
 // Dump the AIRL cache
 func (cache *AIRL) Dump(filename string, fileAndStats bool) {
 	cache.logger.Info("Dump cache", zap.String("filename", filename))
-	outFile, osErr := os.Create(filename)
-	if osErr != nil {
-		panic(fmt.Sprintf("Error dump file creation: %s", osErr))
-	}
-	gwriter := gzip.NewWriter(outFile)
-
-	for _, record := range cache.Dumps(fileAndStats) {
-		_, writeErr := gwriter.Write(record)
-		if writeErr != nil {
-			panic(writeErr)
-		}
-	}
-
-	writeErr := gwriter.Close()
-	if writeErr != nil {
-		panic(writeErr)
-	}
+	writeDump(filename, cache.Dumps(fileAndStats))
 }
 
 // Loads the AIRL cache
diff --git a/SmartCache/sim/cache/simpleCache.go b/SmartCache/sim/cache/simpleCache.go
index 543fa16..aeaee25 100644
--- a/SmartCache/sim/cache/simpleCache.go
+++ b/SmartCache/sim/cache/simpleCache.go
@@ -258,13 +258,20 @@ func (cache *SimpleCache) Dumps(fileAndStats bool) [][]byte {
 // Dump the SimpleCache cache
 func (cache *SimpleCache) Dump(filename string, fileAndStats bool) {
 	cache.logger.Info("Dump cache", zap.String("filename", filename))
-	outFile, osErr := os.Create(filename)
+	writeDump(filename, cache.Dumps(fileAndStats))
+}
+
+// writeDump replaces the dump file with the new records, all or nothing
+func writeDump(filename string, records [][]byte) {
+	tmpFilename := filename + ".tmp"
+
+	outFile, osErr := os.Create(tmpFilename)
 	if osErr != nil {
 		panic(fmt.Sprintf("Error dump file creation: %s", osErr))
 	}
 	gwriter := gzip.NewWriter(outFile)
 
-	for _, record := range cache.Dumps(fileAndStats) {
+	for _, record := range records {
 		_, writeErr := gwriter.Write(record)
 		if writeErr != nil {
 			panic(writeErr)
@@ -275,6 +282,15 @@ func (cache *SimpleCache) Dump(filename string, fileAndStats bool) {
 	if closeDumpErr != nil {
 		panic(closeDumpErr)
 	}
+	if syncErr := outFile.Sync(); syncErr != nil {
+		panic(syncErr)
+	}
+	if closeErr := outFile.Close(); closeErr != nil {
+		panic(closeErr)
+	}
+	if renameErr := os.Rename(tmpFilename, filename); renameErr != nil {
+		panic(renameErr)
+	}
 }
 
 // Loads the SimpleCache cache
-- 
2.43.0


From 20f654c87381a5a6f2951ddbfe0e2998e6e3fb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 14/78] fix: never replace the results of an earlier run when
 resuming

The runs were counted in the folder of the dump instead of the one of the results, so
a later resume replaced the results kept by an earlier one, and a resume interrupted
before its first output could not be resumed again.
---
 SmartCache/sim/cache/simulation.go | 35 +++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/SmartCache/sim/cache/simulation.go b/SmartCache/sim/cache/simulation.go
index 06ad726..a1592b9 100644
--- a/SmartCache/sim/cache/simulation.go
+++ b/SmartCache/sim/cache/simulation.go
@@ -673,6 +673,28 @@ type SimulationParams struct {
 	DataTypeFilter     Filter
 }
 
+// previousRunFilename returns an unused name for the results of the previous run
+func previousRunFilename(outFile string) string {
+	run := GetSimulationRunNum(filepath.Dir(outFile))
+
+	for {
+		filename := fmt.Sprintf("%s_run-%02d.csv",
+			strings.TrimSuffix(outFile, filepath.Ext(outFile)),
+			run,
+		)
+
+		_, errStat := os.Stat(filename)
+		if os.IsNotExist(errStat) {
+			return filename
+		}
+		if errStat != nil {
+			panic(errStat)
+		}
+
+		run++
+	}
+}
+
 func Simulate(cacheType string, cacheInstance Cache, param SimulationParams) { //nolint:ignore,funlen
 	// Simulation variables
 	var (
@@ -695,16 +717,9 @@ func Simulate(cacheType string, cacheInstance Cache, param SimulationParams) { /
 	if param.LoadDump { //nolint:ignore,nestif
 		logger.Info("Loading cache dump", zap.String("filename", param.LoadDumpFileName))
 
-		latestCacheRun := GetSimulationRunNum(filepath.Dir(param.LoadDumpFileName))
-
-		renameErr := os.Rename(
-			param.OutFile,
-			fmt.Sprintf("%s_run-%02d.csv",
-				strings.Split(param.OutFile, ".")[0],
-				latestCacheRun,
-			),
-		)
-		if renameErr != nil {
+		// Keep the previous results, if any, with an unused name
+		renameErr := os.Rename(param.OutFile, previousRunFilename(param.OutFile))
+		if renameErr != nil && !os.IsNotExist(renameErr) {
 			panic(renameErr)
 		}
 
-- 
2.43.0


From 9eac30749fed60dba8159f1e1f2434df716b72a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 15/78] fix: write all the outputs also when a memory profile
 is requested

---
 SmartCache/sim/cache/simulation.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/SmartCache/sim/cache/simulation.go b/SmartCache/sim/cache/simulation.go
index a1592b9..5cda4f7 100644
--- a/SmartCache/sim/cache/simulation.go
+++ b/SmartCache/sim/cache/simulation.go
@@ -1035,7 +1035,6 @@ func Simulate(cacheType string, cacheInstance Cache, param SimulationParams) { /
 		if profileCloseErr != nil {
 			panic(profileCloseErr)
 		}
-		return
 	}
 
 	elapsedTime := time.Since(simBeginTime)
-- 
2.43.0


From 39e031d6206c3d3f431497e18227f4075326be3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 16/78] fix: do not loop forever raising an epsilon that does
 not decay

---
 SmartCache/sim/cache/ai/qlearn/qlearn.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/SmartCache/sim/cache/ai/qlearn/qlearn.go b/SmartCache/sim/cache/ai/qlearn/qlearn.go
index 64254cc..a9fe2db 100644
--- a/SmartCache/sim/cache/ai/qlearn/qlearn.go
+++ b/SmartCache/sim/cache/ai/qlearn/qlearn.go
@@ -295,7 +295,12 @@ func (agent *Agent) UnleashEpsilon(newEpsilon interface{}) {
 		if newEpsilon != nil {
 			targetEpsilon := newEpsilon.(float64)
 			for agent.Epsilon > targetEpsilon {
+				prevEpsilon := agent.Epsilon
 				agent.UpdateEpsilon()
+
+				if agent.Epsilon >= prevEpsilon {
+					break // it does not decay
+				}
 			}
 		}
 	}
-- 
2.43.0


From 8686bf254636ad6b12186af327d2d32e98457d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 17/78] fix: never raise epsilon while it decays

The first update moved an epsilon that starts below one back to almost one.
---
 SmartCache/sim/cache/ai/qlearn/qlearn.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/SmartCache/sim/cache/ai/qlearn/qlearn.go b/SmartCache/sim/cache/ai/qlearn/qlearn.go
index a9fe2db..10a407f 100644
--- a/SmartCache/sim/cache/ai/qlearn/qlearn.go
+++ b/SmartCache/sim/cache/ai/qlearn/qlearn.go
@@ -450,7 +450,10 @@ func (agent *Agent) UpdateTable(stateIdx int, newStateIdx int, action ActionType
 func (agent *Agent) UpdateEpsilon() {
 	if agent.Epsilon > agent.MinEpsilon {
 		agent.StepNum++
-		agent.Epsilon = agent.MinEpsilon + (agent.MaxEpsilon-agent.MinEpsilon)*math.Exp(-agent.DecayRateEpsilon*float64(agent.StepNum))
+		agent.Epsilon = math.Min(
+			agent.Epsilon,
+			agent.MinEpsilon+(agent.MaxEpsilon-agent.MinEpsilon)*math.Exp(-agent.DecayRateEpsilon*float64(agent.StepNum)),
+		)
 	}
 }
 
-- 
2.43.0


From b62b38eb8a34481eb48d0381b44ca0babd290544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 18/78] fix: do not divide by zero on a day without requests

---
 SmartCache/sim/cache/aiRL.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index 095c096..82355c1 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -1293,6 +1293,10 @@ func writeQTable(outFilename string, data string) {
 }
 
 func (cache *AIRL) meanNumCategories() int {
+	if len(cache.numDailyCategories) == 0 {
+		return 0
+	}
+
 	return cache.sumNumDailyCategories / len(cache.numDailyCategories)
 }
 
-- 
2.43.0


From 003b7e941e1ff1e3641289a693aa73b46c277cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 19/78] fix: keep the features in a fixed order

The order of the states and of the table columns depended on the map iteration order.
---
 SmartCache/sim/cache/ai/featuremap/featuremap.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/SmartCache/sim/cache/ai/featuremap/featuremap.go b/SmartCache/sim/cache/ai/featuremap/featuremap.go
index 5523f40..cca5f2b 100644
--- a/SmartCache/sim/cache/ai/featuremap/featuremap.go
+++ b/SmartCache/sim/cache/ai/featuremap/featuremap.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path/filepath"
 	"reflect"
+	"sort"
 
 	"go.uber.org/zap"
 )
@@ -125,10 +126,14 @@ func (manager *FeatureManager) Populate(featureMapFilePath string) { //nolint:ig
 	manager.FileFeatureIdxMap = make(map[string]int)
 
 	if mainType := reflect.TypeOf(tmpMap).Kind(); mainType == reflect.Map { //nolint:ignore,nestif
-		mapIter := reflect.ValueOf(tmpMap).MapRange()
-		for mapIter.Next() {
-			feature := mapIter.Key().String()
-			curFeature := mapIter.Value()
+		mapValue := reflect.ValueOf(tmpMap)
+		mapKeys := mapValue.MapKeys()
+		// Fixed order, it decides the order of the states
+		sort.Slice(mapKeys, func(i, j int) bool { return mapKeys[i].String() < mapKeys[j].String() })
+
+		for _, mapKey := range mapKeys {
+			feature := mapKey.String()
+			curFeature := mapValue.MapIndex(mapKey)
 
 			if featureType := curFeature.Elem().Kind(); featureType == reflect.Map {
 				featureIter := curFeature.Elem().MapRange()
-- 
2.43.0


From bde7c1a1207fd1ac09ed7fdecc7cf5dbd436ea4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 20/78] fix: visit the categories in a fixed order

The decisions drawn and the learned values depended on the map iteration order.
---
 SmartCache/sim/cache/aiRLCatStateManager.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/SmartCache/sim/cache/aiRLCatStateManager.go b/SmartCache/sim/cache/aiRLCatStateManager.go
index 9bc1d45..8d6ca45 100644
--- a/SmartCache/sim/cache/aiRLCatStateManager.go
+++ b/SmartCache/sim/cache/aiRLCatStateManager.go
@@ -4,6 +4,7 @@ import (
 	"simulator/v2/cache/ai/featuremap"
 	"simulator/v2/cache/ai/qlearn"
 	"simulator/v2/cache/files"
+	"sort"
 )
 
 // CatState is a struct to manage the state of eviction agent starting from categories
@@ -162,7 +163,13 @@ func (catMan *CategoryManager) GetStateFromCategories(newStates bool, agent qlea
 		defer close(catMan.generatorChan)
 		if newStates {
 			catMan.lastStateAction = make(map[int]CatState)
+			catIDs := make([]int, 0, len(catMan.categoryFileListMap))
 			for catID := range catMan.categoryFileListMap {
+				catIDs = append(catIDs, catID)
+			}
+			sort.Ints(catIDs)
+
+			for _, catID := range catIDs {
 				curCat := catMan.categoryFileFeatureIdx[catID]
 				catMan.buffer = catMan.buffer[:0]
 
@@ -210,8 +217,14 @@ func (catMan *CategoryManager) GetStateFromCategories(newStates bool, agent qlea
 				catMan.generatorChan <- curCatState
 			}
 		} else {
-			for _, curCatState := range catMan.lastStateAction {
-				catMan.generatorChan <- curCatState
+			states := make([]int, 0, len(catMan.lastStateAction))
+			for state := range catMan.lastStateAction {
+				states = append(states, state)
+			}
+			sort.Ints(states)
+
+			for _, state := range states {
+				catMan.generatorChan <- catMan.lastStateAction[state]
 			}
 		}
 	}()
-- 
2.43.0


From d1b76fd86e9a5c961fe90a9ee2bc64968001aa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 21/78] fix: restart the learning cache from its dump

The pending choices of an agent cannot be written as JSON, so its record was empty and
every restart panicked; a restarted or cleared cache also kept no categories in step
with its files.
---
 SmartCache/sim/cache/ai/qlearn/qlearn.go |  2 +-
 SmartCache/sim/cache/aiRL.go             | 41 ++++++++++++++++++++++++
 2 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/SmartCache/sim/cache/ai/qlearn/qlearn.go b/SmartCache/sim/cache/ai/qlearn/qlearn.go
index 10a407f..2f6368f 100644
--- a/SmartCache/sim/cache/ai/qlearn/qlearn.go
+++ b/SmartCache/sim/cache/ai/qlearn/qlearn.go
@@ -191,7 +191,7 @@ type Choice struct {
 
 // Agent used in Qlearning
 type Agent struct {
-	Memory              map[interface{}][]Choice `json:"memory"`
+	Memory              map[interface{}][]Choice `json:"-"` // pending choices, not dumped
 	QTable              QTable                   `json:"qtable"`
 	NumStates           int                      `json:"numStates"`
 	NumVars             int                      `json:"numVars"`
diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index 82355c1..c85f9c6 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -328,6 +328,7 @@ func (cache *AIRL) Loads(inputString [][]byte, vars ...interface{}) {
 		curRecord     DumpRecord
 		curRecordInfo DumpInfo
 		unmarshalErr  error
+		loadedFiles   []*files.Stats
 	)
 
 	for _, record := range inputString {
@@ -345,6 +346,7 @@ func (cache *AIRL) Loads(inputString [][]byte, vars ...interface{}) {
 			var curFileStats files.Stats
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
 			queue.Insert(cache.files, &curFileStats)
+			loadedFiles = append(loadedFiles, &curFileStats)
 			cache.size += curFileStats.Size
 			cache.stats.Data[curFileStats.Filename] = &curFileStats
 			cache.restoreTick(curFileStats.Recency)
@@ -373,6 +375,45 @@ func (cache *AIRL) Loads(inputString [][]byte, vars ...interface{}) {
 		}
 	}
 
+	if cache.evictionAgentOK {
+		// Put the files back in their categories, the oldest request first
+		sort.Slice(loadedFiles, func(i, j int) bool {
+			if loadedFiles[i].Recency != loadedFiles[j].Recency {
+				return loadedFiles[i].Recency < loadedFiles[j].Recency
+			}
+
+			return loadedFiles[i].Filename < loadedFiles[j].Filename
+		})
+
+		for _, file := range loadedFiles {
+			fileCategory := cache.evictionCategoryManager.GetFileCategory(file)
+			cache.evictionCategoryManager.AddOrUpdateCategoryFile(fileCategory, file)
+		}
+	}
+}
+
+// ClearFiles remove the cache files and their categories
+func (cache *AIRL) ClearFiles() {
+	cache.SimpleCache.ClearFiles()
+	cache.clearCategories()
+}
+
+// Clear the cache
+func (cache *AIRL) Clear() {
+	cache.clearCategories()
+	cache.SimpleCache.Clear()
+}
+
+func (cache *AIRL) clearCategories() {
+	if cache.evictionAgentOK {
+		cache.evictionCategoryManager.Init(
+			cache.evictionFeatureManager.Features,
+			cache.evictionFeatureManager.FeatureIdxWeights,
+			cache.evictionFeatureManager.FileFeatures,
+			cache.evictionFeatureManager.FileFeatureIdxWeights,
+			cache.evictionFeatureManager.FileFeatureIdxMap,
+		)
+	}
 }
 
 func (cache *AIRL) getState4AdditionAgent(hit bool, curFileStats *files.Stats) int {
-- 
2.43.0


From 8e3e3cb9821401e877e79be9c129187e1e7a8041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 22/78] fix: keep the epsilon configured for each agent after a
 restart

A restart replaced it with the common one.
---
 SmartCache/sim/cache/aiRL.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index c85f9c6..3682b78 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -358,12 +358,20 @@ func (cache *AIRL) Loads(inputString [][]byte, vars ...interface{}) {
 			}
 			cache.restoreTick(curFileStats.Recency)
 		case "ADDAGENT":
+			if cache.additionAgentOK {
+				// Values configured for this agent
+				initEpsilon, decayRateEpsilon = cache.additionAgent.Epsilon, cache.additionAgent.DecayRateEpsilon
+			}
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &cache.additionAgent)
 			cache.additionAgent.ResetParams(initEpsilon, decayRateEpsilon)
 			cache.additionAgentOK = true
 		case "ADDFEATUREMAPMANAGER":
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &cache.additionFeatureManager)
 		case "EVCAGENT":
+			if cache.evictionAgentOK {
+				// Values configured for this agent
+				initEpsilon, decayRateEpsilon = cache.evictionAgent.Epsilon, cache.evictionAgent.DecayRateEpsilon
+			}
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &cache.evictionAgent)
 			cache.evictionAgent.ResetParams(initEpsilon, decayRateEpsilon)
 			cache.evictionAgentOK = true
-- 
2.43.0


From 75b294bbd0295b93ef936c895bb34b5ca0da76bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:48 +0000
Subject: [PATCH 23/78] fix: an aiRL results file with only its header is not a
 finished run

The header of a learning cache is longer than 600 bytes, so a run that was
interrupted before its first completed day counted as already done.
---
 SmartCache/sim/main.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/SmartCache/sim/main.go b/SmartCache/sim/main.go
index 833bb63..48dea6a 100644
--- a/SmartCache/sim/main.go
+++ b/SmartCache/sim/main.go
@@ -1,8 +1,10 @@
 package main
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
+	"io/ioutil"
 	"os"
 	"path/filepath"
 	"strings"
@@ -514,13 +516,14 @@ func simCommand() *cobra.Command { //nolint:ignore,funlen
 
 			// Check previous simulation results
 			if !simOverwrite { //nolint:ignore,nestif
-				fileStat, errStat := os.Stat(simOutFile)
-				if errStat != nil {
-					if !os.IsNotExist(errStat) {
-						panic(errStat)
+				content, errRead := ioutil.ReadFile(simOutFile)
+				if errRead != nil {
+					if !os.IsNotExist(errRead) {
+						panic(errRead)
 					}
 				} else {
-					if fileStat.Size() > 600 {
+					// The header alone is not a result
+					if bytes.Count(content, []byte("\n")) > 1 {
 						// TODO: check if the configuration is the same
 						logger.Info("Simulation already DONE! NO OVERWRITE...")
 						_ = logger.Sync()
-- 
2.43.0


From 74b4d8888d2fbe631f81af8558a65aca14f6d1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:36 +0000
Subject: [PATCH 24/78] fix: a panic while reading the input no longer looks
 like the end of the data

---
 SmartCache/sim/cache/simulation.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/SmartCache/sim/cache/simulation.go b/SmartCache/sim/cache/simulation.go
index 5cda4f7..cc3b897 100644
--- a/SmartCache/sim/cache/simulation.go
+++ b/SmartCache/sim/cache/simulation.go
@@ -107,7 +107,6 @@ func recordGenerator(csvReader *csv.Reader, curFile *os.File, headerMap []int) c
 	channel := make(chan CSVRecord, readerBufferSize)
 
 	go func() {
-		defer close(channel)
 		defer curFile.Close()
 
 		for {
@@ -172,6 +171,9 @@ func recordGenerator(csvReader *csv.Reader, curFile *os.File, headerMap []int) c
 
 			channel <- curRecord
 		}
+
+		// Not deferred: a panic must not look like the end of the data
+		close(channel)
 	}()
 	return channel
 }
@@ -257,7 +259,6 @@ func OpenSimFolder(dirPath *os.File) chan CSVRecord {
 	sort.Slice(fileList, func(i, j int) bool { return fileList[i] < fileList[j] })
 
 	go func() {
-		defer close(channel)
 		for _, name := range fileList {
 			fileExt := path.Ext(name)
 			switch fileExt {
@@ -268,6 +269,9 @@ func OpenSimFolder(dirPath *os.File) chan CSVRecord {
 			}
 
 		}
+
+		// Not deferred: a panic must not look like the end of the data
+		close(channel)
 	}()
 
 	return channel
-- 
2.43.0


From 6f22df237bc475d7250ecbface4039fa8c80e718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:48 +0000
Subject: [PATCH 25/78] fix: the Q-learning update changes the value of the
 action taken

Update indexed the row by the number of the action while every other
method indexes it by the position of the action in the list given to
Init. The study lists its actions in the other order, so it learned the
value of each action from the results of the other one.
---
 qLearning_smartCache/qtable/qtable.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/qLearning_smartCache/qtable/qtable.go b/qLearning_smartCache/qtable/qtable.go
index 65ffc1f..8969459 100644
--- a/qLearning_smartCache/qtable/qtable.go
+++ b/qLearning_smartCache/qtable/qtable.go
@@ -160,9 +160,8 @@ func getArgMax(array []float64) int {
 	return maxIdx
 }
 
-// GetAction returns the possible environment action from a state
-func (table QTable) GetAction(stateIdx uint64, action ActionType) float64 {
-	values := table.states[stateIdx]
+// getActionIdx returns the position of an action in the rows of the table
+func (table QTable) getActionIdx(action ActionType) int {
 	outIdx := 0
 	for idx := 0; idx < len(table.actions); idx++ {
 		if table.actions[idx] == action {
@@ -170,7 +169,13 @@ func (table QTable) GetAction(stateIdx uint64, action ActionType) float64 {
 			break
 		}
 	}
-	return values[outIdx]
+	return outIdx
+}
+
+// GetAction returns the possible environment action from a state
+func (table QTable) GetAction(stateIdx uint64, action ActionType) float64 {
+	values := table.states[stateIdx]
+	return values[table.getActionIdx(action)]
 }
 
 // GetBestAction returns the action of the best action for the given state
@@ -206,5 +211,5 @@ func (table *QTable) Update(state []float64, action ActionType, reward float64)
 	stateIdx := table.GetStateIdx(state)
 	actionValue := table.GetAction(stateIdx, action)
 	maxValue := getArgMax(table.states[stateIdx])
-	table.states[stateIdx][action] = actionValue + table.learningRate*(reward+table.DecayRate*table.states[stateIdx][maxValue]-actionValue)
+	table.states[stateIdx][table.getActionIdx(action)] = actionValue + table.learningRate*(reward+table.DecayRate*table.states[stateIdx][maxValue]-actionValue)
 }
-- 
2.43.0


From 87e2a56b533c51db3acc5d82a5029632c96b4eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:48 +0000
Subject: [PATCH 26/78] fix: print the Q-table in the order of its states

The rows came in the order of map iteration, another one in every run.
---
 qLearning_smartCache/qtable/qtable.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/qLearning_smartCache/qtable/qtable.go b/qLearning_smartCache/qtable/qtable.go
index 8969459..01697b5 100644
--- a/qLearning_smartCache/qtable/qtable.go
+++ b/qLearning_smartCache/qtable/qtable.go
@@ -3,6 +3,7 @@ package qtable
 import (
 	"fmt"
 	"math"
+	"sort"
 	"strconv"
 )
 
@@ -136,7 +137,13 @@ func (table QTable) GetStateIdx(state []float64) uint64 {
 
 // PrintTable outputs the state values
 func (table QTable) PrintTable() {
-	for state, actions := range table.states {
+	states := make([]uint64, 0, len(table.states))
+	for state := range table.states {
+		states = append(states, state)
+	}
+	sort.Slice(states, func(i, j int) bool { return states[i] < states[j] })
+	for _, state := range states {
+		actions := table.states[state]
 		fmt.Printf("[%s]\t[", strconv.FormatInt(int64(state), 2))
 		for idx, action := range actions {
 			fmt.Printf("%09.2f", action)
-- 
2.43.0


From 07af52bc15bfdf21cf254df91b5633daefa40959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:48 +0000
Subject: [PATCH 27/78] fix: choose among files of the same value by name

The order of map iteration decided which of several files of the least
value was evicted, so runs of the study with its fixed random seed could
differ.
---
 qLearning_smartCache/cache/cache.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qLearning_smartCache/cache/cache.go b/qLearning_smartCache/cache/cache.go
index bff1fe8..ab8ac50 100644
--- a/qLearning_smartCache/cache/cache.go
+++ b/qLearning_smartCache/cache/cache.go
@@ -43,8 +43,9 @@ func (cache SimCache) GetMinValue() (string, float64) {
 	minValue := math.MaxFloat64
 	minFileName := ""
 	for fileName := range cache.files {
-		if cache.stats[fileName].Value < minValue {
-			minValue = cache.stats[fileName].Value
+		value := cache.stats[fileName].Value
+		if value < minValue || (value == minValue && fileName < minFileName) {
+			minValue = value
 			minFileName = fileName
 		}
 	}
-- 
2.43.0


From 0b0045455e2fba5b9e13d04e4a307ba28fc55b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:48 +0000
Subject: [PATCH 28/78] fix: inserting a file larger than the whole cache ends

Insert evicted everything and then looped forever.
---
 qLearning_smartCache/cache/cache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qLearning_smartCache/cache/cache.go b/qLearning_smartCache/cache/cache.go
index ab8ac50..d976e79 100644
--- a/qLearning_smartCache/cache/cache.go
+++ b/qLearning_smartCache/cache/cache.go
@@ -84,6 +84,9 @@ func (cache SimCache) GetPoints() float64 {
 // Insert add a file into the cache. If there is no space left, it starts to
 // remove the files with less value and then adds it when there is space
 func (cache *SimCache) Insert(fileName string, size float64) {
+	if size > cache.MaxSize {
+		return
+	}
 	if cache.GetSize()+size > cache.MaxSize {
 		for {
 			fileName, _ := cache.GetMinValue()
-- 
2.43.0


From 5e98b51f9a74d00b9a1eda2f18d1d7198842758f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:48 +0000
Subject: [PATCH 29/78] fix: inserting a file that is already held evicts
 nothing

The file was counted twice and others, or the file itself, were removed
to make room for it.
---
 qLearning_smartCache/cache/cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qLearning_smartCache/cache/cache.go b/qLearning_smartCache/cache/cache.go
index d976e79..14d2afc 100644
--- a/qLearning_smartCache/cache/cache.go
+++ b/qLearning_smartCache/cache/cache.go
@@ -84,7 +84,7 @@ func (cache SimCache) GetPoints() float64 {
 // Insert add a file into the cache. If there is no space left, it starts to
 // remove the files with less value and then adds it when there is space
 func (cache *SimCache) Insert(fileName string, size float64) {
-	if size > cache.MaxSize {
+	if _, inCache := cache.files[fileName]; inCache || size > cache.MaxSize {
 		return
 	}
 	if cache.GetSize()+size > cache.MaxSize {
-- 
2.43.0


From c89ff70f0d2f17d10cb9769e24d527867395b832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:13 +0000
Subject: [PATCH 30/78] fix: read JSON records with every version of Python 3

json.loads no longer accepts the encoding argument (it never used it).
---
 DataManager/collector/datafile/json.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DataManager/collector/datafile/json.py b/DataManager/collector/datafile/json.py
index f5b5bba..85ae895 100644
--- a/DataManager/collector/datafile/json.py
+++ b/DataManager/collector/datafile/json.py
@@ -234,7 +234,7 @@ class JSONDataFileReader(object):
         for idx, (json_obj, _) in enumerate(iter(self.__get_json, (None, -1)), cur_idx):
             if idx == stop - 1:
                 break
-            yield json.loads(json_obj, encoding="utf-8")
+            yield json.loads(json_obj)
 
     def __getitem__(self, idx):
         """Select an item or a group of item from the file.
@@ -259,7 +259,7 @@ class JSONDataFileReader(object):
             for cur_index in range(-idx):
                 obj, pos = self.__get_json_from_end()
                 if -cur_index - 1 == idx:
-                    return json.loads(obj, encoding="utf-8")
+                    return json.loads(obj)
             raise IndexError
 
         if isinstance(idx, slice):
@@ -290,7 +290,7 @@ class JSONDataFileReader(object):
                 self.__last_index = cur_idx
 
                 if cur_idx == target_idx:
-                    results.append(json.loads(last_obj, encoding="utf-8"))
+                    results.append(json.loads(last_obj))
                     break
 
                 cur_idx += 1
@@ -324,7 +324,7 @@ class JSONDataFileReader(object):
         """
         next_json, _ = self.__get_json()
         if next_json is not None:
-            return json.loads(next_json, encoding="utf-8")
+            return json.loads(next_json)
         else:
             raise StopIteration
 
-- 
2.43.0


From b2d4c3f3415a87ac68fc819bdf1108f30da4eb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:13 +0000
Subject: [PATCH 31/78] fix: append to compressed JSON files

A compressed file opened to append cannot be moved to its end: it is there.
---
 DataManager/collector/datafile/json.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DataManager/collector/datafile/json.py b/DataManager/collector/datafile/json.py
index 85ae895..bea03d6 100644
--- a/DataManager/collector/datafile/json.py
+++ b/DataManager/collector/datafile/json.py
@@ -34,8 +34,7 @@ class JSONDataFileWriter(object):
             else:
                 self.__descriptor = get_or_create_descriptor(
                     self.__filename, "wb")
-
-        if append:
+        elif append:
             self.__descriptor.seek(0, 2)
 
         if data is not None:
-- 
2.43.0


From 0994be05c523459b1855a438bbda6788b72e3a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:27 +0000
Subject: [PATCH 32/78] fix: index JSON records from the end

The search for the last records looked before the start of small files, is
not possible in compressed files and always looked at the same place.
---
 DataManager/collector/datafile/json.py | 26 +++-----------------------
 1 file changed, 3 insertions(+), 23 deletions(-)

diff --git a/DataManager/collector/datafile/json.py b/DataManager/collector/datafile/json.py
index bea03d6..4aee5cb 100644
--- a/DataManager/collector/datafile/json.py
+++ b/DataManager/collector/datafile/json.py
@@ -174,24 +174,6 @@ class JSONDataFileReader(object):
             self.__len = num_lines
         return self.__len
 
-    def __get_json_from_end(self, step: int = 1024):
-        buffer = b''
-        index = -step - 1
-        cur_chars = b''
-        while cur_chars.rfind(b'\n') == -1:
-            self.__descriptor.seek(index, 2)
-            last_pos = self.__descriptor.tell()
-            cur_chars = self.__descriptor.read(step)
-            buffer = cur_chars + buffer
-            index -= step
-        if len(buffer) >= 2:
-            return (
-                buffer[cur_chars.rfind(b'\n')+1:], last_pos +
-                cur_chars.rfind(b'\n')
-            )
-        else:
-            return (None, -1)
-
     def __get_json(self):
         """Extract a json object string from the file.
 
@@ -255,11 +237,9 @@ class JSONDataFileReader(object):
             idx, (int, slice)), "Index Could be an integer or a slice"
 
         if isinstance(idx, int) and idx < 0:
-            for cur_index in range(-idx):
-                obj, pos = self.__get_json_from_end()
-                if -cur_index - 1 == idx:
-                    return json.loads(obj)
-            raise IndexError
+            idx += len(self)
+            if idx < 0:
+                raise IndexError
 
         if isinstance(idx, slice):
             to_extract = (elm for elm in gen_increasing_slice(idx))
-- 
2.43.0


From fc77edf3644280e27f7c26dd09a28b979971dc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:27 +0000
Subject: [PATCH 33/78] fix: read the last JSON record also without a final
 newline

It was left out silently, as was a record cut off in the middle, which is
now an error.
---
 DataManager/collector/datafile/json.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/DataManager/collector/datafile/json.py b/DataManager/collector/datafile/json.py
index 4aee5cb..4db03de 100644
--- a/DataManager/collector/datafile/json.py
+++ b/DataManager/collector/datafile/json.py
@@ -170,7 +170,10 @@ class JSONDataFileReader(object):
     def __len__(self):
         if not self.__len:
             self.__descriptor.seek(0, 0)
-            num_lines = self.__descriptor.read().decode("utf-8").count('\n')
+            content = self.__descriptor.read().decode("utf-8")
+            num_lines = content.count('\n')
+            if content and content[-1] != '\n':
+                num_lines += 1
             self.__len = num_lines
         return self.__len
 
@@ -190,6 +193,10 @@ class JSONDataFileReader(object):
             if cur_char == b'\n' and len(buffer) >= 2:
                 return buffer, start
 
+        if buffer.strip():
+            # the last record without a final newline
+            return buffer, start
+
         return (None, -1)
 
     def start_from(self, index: int, stop: int = -1):
-- 
2.43.0


From 6b0d05c8fa3253ea28b3a185e56c47fa8bb6733b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:27 +0000
Subject: [PATCH 34/78] fix: open JSON data in memory as a data file

---
 DataManager/collector/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/collector/api.py b/DataManager/collector/api.py
index 6cbdd48..1b0ef1d 100644
--- a/DataManager/collector/api.py
+++ b/DataManager/collector/api.py
@@ -43,7 +43,7 @@ class DataFile(object):
             if tmp.find("avro.schema") != -1:
                 return AvroDataFileReader(source)
             else:
-                return JSONDataFileReader(source)
+                return JSONDataFileReader(descriptor=source)
         elif isinstance(source, AvroDataFileWriter):
             tmp = BytesIO(source.raw_data)
             return AvroDataFileReader(tmp)
-- 
2.43.0


From e277835c98154b9c630d7883cb5bcc1bd520c33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:54 +0000
Subject: [PATCH 35/78] fix: taking the length of JSON data does not end a
 running iteration

list(reader) asks for the length after the iteration has been started, so it
was always empty.
---
 DataManager/collector/datafile/json.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DataManager/collector/datafile/json.py b/DataManager/collector/datafile/json.py
index 4db03de..ba0e042 100644
--- a/DataManager/collector/datafile/json.py
+++ b/DataManager/collector/datafile/json.py
@@ -169,8 +169,10 @@ class JSONDataFileReader(object):
 
     def __len__(self):
         if not self.__len:
+            cur_pos = self.__descriptor.tell()
             self.__descriptor.seek(0, 0)
             content = self.__descriptor.read().decode("utf-8")
+            self.__descriptor.seek(cur_pos)
             num_lines = content.count('\n')
             if content and content[-1] != '\n':
                 num_lines += 1
-- 
2.43.0


From 8123c1d4ecb1765bfc88a00b3be560d913101015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:33 +0000
Subject: [PATCH 36/78] fix: process also the input that finds all processes
 busy

The input at hand when all processes were busy was dropped: after waiting for
a free place the loop went on to the next one.
---
 DataManager/collector/dataset/stage.py | 30 ++++++++++++--------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/DataManager/collector/dataset/stage.py b/DataManager/collector/dataset/stage.py
index f0348c3..ad56df2 100644
--- a/DataManager/collector/dataset/stage.py
+++ b/DataManager/collector/dataset/stage.py
@@ -84,22 +84,6 @@ class Stage(BaseSpark):
             output_queue = Queue()
             with yaspin(text="[STAGE][{}]".format(self.name)) as spinner:
                 for cur_input in input_:
-                    if len(tasks) < num_process:
-                        new_process = Process(
-                            target=self.process,
-                            args=(cur_input, output_queue)
-                        )
-                        tasks.append(new_process)
-                        new_process.start()
-                        spinner.write(
-                            "[STAGE][{}][TASK ADDED]".format(self.name))
-                        spinner.write("[STAGE][{}][{} task{} running]".format(
-                            self.name,
-                            len(tasks),
-                            's' if len(tasks) > 1 else ''
-                        ))
-                        continue
-
                     while len(tasks) == num_process:
                         for task in tasks:
                             spinner.text = "[STAGE][{}][{} task{} running]".format(
@@ -116,6 +100,20 @@ class Stage(BaseSpark):
                                 len(tasks),
                                 's' if len(tasks) > 1 else ''
                             )
+
+                    new_process = Process(
+                        target=self.process,
+                        args=(cur_input, output_queue)
+                    )
+                    tasks.append(new_process)
+                    new_process.start()
+                    spinner.write(
+                        "[STAGE][{}][TASK ADDED]".format(self.name))
+                    spinner.write("[STAGE][{}][{} task{} running]".format(
+                        self.name,
+                        len(tasks),
+                        's' if len(tasks) > 1 else ''
+                    ))
                 else:
                     while len(tasks) > 0:
                         for task in tasks:
-- 
2.43.0


From 46649369111d88a7f977d8d34e144a5eebf7f395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:59 +0000
Subject: [PATCH 37/78] fix: appending no records to Avro data does nothing

Collecting the output of a stage before any process had put a record failed
with an IndexError, because the schema is deduced from the first record.
---
 DataManager/collector/datafile/avro.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DataManager/collector/datafile/avro.py b/DataManager/collector/datafile/avro.py
index 93ba98f..39d6cb2 100644
--- a/DataManager/collector/datafile/avro.py
+++ b/DataManager/collector/datafile/avro.py
@@ -61,7 +61,9 @@ class AvroDataFileWriter(object):
         if isinstance(data, dict):
             self.__write([data])
         elif isinstance(data, list):
-            if all(isinstance(elm, dict) for elm in data):
+            if not data:
+                return self
+            elif all(isinstance(elm, dict) for elm in data):
                 self.__write(data)
             else:
                 raise Exception(
-- 
2.43.0


From 7851247ead368d83c8babdec792d2b8c15cd64ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:15 +0000
Subject: [PATCH 38/78] fix: give featured CMS records their id

Every valid record failed with an AttributeError: the method is _gen_id, and
it sets the id of the base class.
---
 DataManager/collector/datafeatures/extractor.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/DataManager/collector/datafeatures/extractor.py b/DataManager/collector/datafeatures/extractor.py
index f19f088..2a8059f 100644
--- a/DataManager/collector/datafeatures/extractor.py
+++ b/DataManager/collector/datafeatures/extractor.py
@@ -98,7 +98,6 @@ class CMSDataPopularity(FeatureData):
                  ):
         super(CMSDataPopularity, self).__init__()
         self.__data = data
-        self.__id = None
         self.__valid = False
         self.__filters = filters
         self.__extract_features()
@@ -107,7 +106,7 @@ class CMSDataPopularity(FeatureData):
         """Make object loaded by pickle."""
         self.__data = state['data']
         self._features = state['features']
-        self.__id = state['id']
+        self._id = state['id']
         self.__valid = state['valid']
         return self
 
@@ -115,7 +114,7 @@ class CMSDataPopularity(FeatureData):
         return {
             'data': self.__data,
             'features': self._features,
-            'id': self.__id,
+            'id': self._id,
             'valid': self.__valid,
         }
 
@@ -143,7 +142,7 @@ class CMSDataPopularity(FeatureData):
                     [fun(self.feature[name]) for name, fun in self.__filters]
                 )
                 if self.__valid:
-                    self.__gen_id()
+                    self._gen_id()
             except ValueError as err:
                 print(
                     "Cannot extract features from '{}'".format(cur_file))
-- 
2.43.0


From a8a4d36d537411035ad2edf7aee5b77cde9304f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:15 +0000
Subject: [PATCH 39/78] fix: CMS stages put out records, not their JSON text

The output of a stage takes dictionaries only and the next stage expects them,
so these two stages always failed.
---
 DataManager/collector/dataset/stage.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DataManager/collector/dataset/stage.py b/DataManager/collector/dataset/stage.py
index ad56df2..56064d2 100644
--- a/DataManager/collector/dataset/stage.py
+++ b/DataManager/collector/dataset/stage.py
@@ -172,9 +172,9 @@ class CMSRecordTest0Stage(Stage):
 
         if queue:
             for record in tmp.values():
-                queue.put(record.dumps())
+                queue.put(record.to_dict())
         else:
-            return [elm.dumps() for elm in tmp.values()]
+            return [elm.to_dict() for elm in tmp.values()]
 
     def pre_output(self, output):
         tmp = {}
@@ -218,7 +218,7 @@ class CMSFeaturedStage(Stage):
         for record in records:
             new_record = CMSDataPopularity(record['features'])
             if new_record:
-                tmp.append(new_record.dumps())
+                tmp.append(new_record.to_dict())
 
             # Limit processing for test
             # if len(tmp) >= 1000:
-- 
2.43.0


From d30a62dc94e0bbe7cf7c307bc47f83016a98dd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:55 +0000
Subject: [PATCH 40/78] fix: save datasets as the compressed JSON their names
 announce

Bytes were written to a file open for text, which always failed; over HTTP the
temporary file was sent before its data had been written to it.
---
 DataManager/collector/dataset/resource.py | 67 +++++++++++------------
 1 file changed, 31 insertions(+), 36 deletions(-)

diff --git a/DataManager/collector/dataset/resource.py b/DataManager/collector/dataset/resource.py
index 27497ef..ff809df 100644
--- a/DataManager/collector/dataset/resource.py
+++ b/DataManager/collector/dataset/resource.py
@@ -52,18 +52,13 @@ class CMSDatasetResourceManager(Resource):
         return self.gen_batches(DataFile(self.__dataset_path))
 
     def set(self, data: 'DataFile', out_name: str, out_dir: str = 'cache'):
-        with NamedTemporaryFile() as tmp_file:
-            with JSONDataFileWriter(descriptor=tmp_file) as tmp_data:
-                for record in tqdm(data, desc="[Prepare tempfile]"):
-                    tmp_data.append(record)
+        makedirs(out_dir, exist_ok=True)
+        with yaspin(text="[Save Dataset]") as spinner:
+            with JSONDataFileWriter(path.join(out_dir, out_name)) as out_data:
+                for record in tqdm(data, desc="[Save Dataset]"):
+                    out_data.append(record)
 
-                with yaspin(text="[Save Dataset]") as spinner:
-                    cur_base_path = out_dir
-                    makedirs(cur_base_path, exist_ok=True)
-                    with open(path.join(cur_base_path, out_name), 'w') as out_data:
-                        out_data.write(tmp_data.raw_data)
-
-                    spinner.write("[Dataset saved]")
+            spinner.write("[Dataset saved]")
 
 
 class CMSResourceManager(Resource):
@@ -155,31 +150,31 @@ class CMSResourceManager(Resource):
             stage_name
         )
 
-        with NamedTemporaryFile() as tmp_file:
-            with JSONDataFileWriter(descriptor=tmp_file) as tmp_data:
+        with NamedTemporaryFile(suffix=".json.gz") as tmp_file:
+            with JSONDataFileWriter(tmp_file.name) as tmp_data:
                 for record in tqdm(data, desc="[Prepare tempfile]"):
                     tmp_data.append(record)
 
-                with yaspin(text="[Save Dataset]") as spinner:
-                    if self.type == 'local':
-                        cur_base_path = path.join(
-                            self._local_folder,
-                            out_dir
-                        )
-                        makedirs(cur_base_path, exist_ok=True)
-                        with open(path.join(cur_base_path, out_name), 'w') as out_data:
-                            out_data.write(tmp_data.raw_data)
-
-                    elif self.type == 'httpfs':
-                        self._httpfs.create(
-                            "/{}".format(path.join(out_dir, out_name)),
-                            tmp_file.name,
-                            overwrite=True
-                        )
-                    else:
-                        raise Exception(
-                            "Save to '{}' not implemented...".format(
-                                self.type)
-                        )
-
-                    spinner.write("[Dataset saved]")
+            with yaspin(text="[Save Dataset]") as spinner:
+                if self.type == 'local':
+                    cur_base_path = path.join(
+                        self._local_folder,
+                        out_dir
+                    )
+                    makedirs(cur_base_path, exist_ok=True)
+                    with open(path.join(cur_base_path, out_name), 'wb') as out_data:
+                        out_data.write(tmp_file.read())
+
+                elif self.type == 'httpfs':
+                    self._httpfs.create(
+                        "/{}".format(path.join(out_dir, out_name)),
+                        tmp_file.name,
+                        overwrite=True
+                    )
+                else:
+                    raise Exception(
+                        "Save to '{}' not implemented...".format(
+                            self.type)
+                    )
+
+                spinner.write("[Dataset saved]")
-- 
2.43.0


From debd2d5f1a6ff0132b669be2a173fb468adf5963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:15 +0000
Subject: [PATCH 41/78] fix: end the program when a stage fails while its
 processes run

At exit Python waits for the processes, which may wait for someone to take
their output from the full pipe: after an error the program hung.
---
 DataManager/collector/dataset/stage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DataManager/collector/dataset/stage.py b/DataManager/collector/dataset/stage.py
index 56064d2..eb82fd5 100644
--- a/DataManager/collector/dataset/stage.py
+++ b/DataManager/collector/dataset/stage.py
@@ -103,7 +103,8 @@ class Stage(BaseSpark):
 
                     new_process = Process(
                         target=self.process,
-                        args=(cur_input, output_queue)
+                        args=(cur_input, output_queue),
+                        daemon=True
                     )
                     tasks.append(new_process)
                     new_process.start()
-- 
2.43.0


From 252618b7766caa1544a6b51ed7a8dea95141fe1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:23 +0000
Subject: [PATCH 42/78] fix: a stage fails when one of its processes fails

The records of a process that was killed or raised an exception were missing
from the output without a word.
---
 DataManager/collector/dataset/stage.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/DataManager/collector/dataset/stage.py b/DataManager/collector/dataset/stage.py
index eb82fd5..e7e6080 100644
--- a/DataManager/collector/dataset/stage.py
+++ b/DataManager/collector/dataset/stage.py
@@ -34,9 +34,16 @@ class Stage(BaseSpark):
 
     @staticmethod
     def __update_tasks(task_list):
-        return [
+        running = [
             task for task in task_list if task.is_alive()
         ]
+        for task in task_list:
+            if task not in running and task.exitcode != 0:
+                raise Exception(
+                    "A process of the stage failed with exit code {}...".format(
+                        task.exitcode)
+                )
+        return running
 
     @staticmethod
     def process(records, queue: 'Queue' = None):
-- 
2.43.0


From 25a71ae7d7234c180f6010e857738e01e73f94b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:50 +0000
Subject: [PATCH 43/78] fix: an upload is done only when the server says
 created

A redirect or any 200, as a name node or a proxy answers without storing
anything, counted as a written file.
---
 DataManager/agent/api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DataManager/agent/api.py b/DataManager/agent/api.py
index b37c912..099e006 100644
--- a/DataManager/agent/api.py
+++ b/DataManager/agent/api.py
@@ -267,9 +267,9 @@ class HTTPFS(object):
                 "ERROR: You can pass a file or a byte stream, you passed '{}'".format(
                     type(data)))
 
-        if res.status_code not in [200, 201, 307]:
-            raise Exception("Error on upload file:\n{}".format(
-                json.dumps(res.json(), indent=2)))
+        if res.status_code != 201:
+            raise Exception("Error on upload file:\n{} {}".format(
+                res.status_code, res.text))
         return True
 
 
-- 
2.43.0


From 2c6682fd3d31c829f766d77e8f882ef7563f7fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:50 +0000
Subject: [PATCH 44/78] fix: do not follow the redirect of the create request
 without data

With redirects allowed it made an empty file, or was refused, so that the
upload after it failed: HDFS asks for the two steps of a creation.
---
 DataManager/agent/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/agent/api.py b/DataManager/agent/api.py
index 099e006..6c6815e 100644
--- a/DataManager/agent/api.py
+++ b/DataManager/agent/api.py
@@ -220,7 +220,7 @@ class HTTPFS(object):
             },
             auth=(self._http_user, self._http_password),
             verify=self._verify,
-            allow_redirects=self._allow_redirects
+            allow_redirects=False
         )
         if res.status_code not in [200, 201, 307]:
             raise Exception("Error on create file:\n{}".format(
-- 
2.43.0


From d007f77cf805e2f21ac8534a6dbc35790c1ce347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:50 +0000
Subject: [PATCH 45/78] fix: a download that is cut off is an error

requests does not compare what it got with the announced length, so the
beginning of a file was given for the whole.
---
 DataManager/agent/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DataManager/agent/api.py b/DataManager/agent/api.py
index 6c6815e..ac2d021 100644
--- a/DataManager/agent/api.py
+++ b/DataManager/agent/api.py
@@ -185,6 +185,9 @@ class HTTPFS(object):
         with yaspin(text="[Opening file {}...]".format(hdfs_path)) as spinner:
             for chunk in res.iter_content(chunk_size):
                 content.write(chunk)
+            if res.raw.tell() < int(res.headers.get('Content-Length', 0)):
+                raise Exception(
+                    "Error on open file '{}': connection closed early".format(hdfs_path))
             spinner.write("[File {} is ready...]".format(hdfs_path))
         content.seek(0)
         return content
-- 
2.43.0


From f14b73b2416b4d7f7d3dcf9de37a31c2fb475cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:50 +0000
Subject: [PATCH 46/78] fix: quote HDFS paths in URLs

A path with '#' or '?' named another file, its beginning: deleting /a#1
deleted /a.
---
 DataManager/agent/api.py | 38 +++++++++++++-------------------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/DataManager/agent/api.py b/DataManager/agent/api.py
index ac2d021..76ac502 100644
--- a/DataManager/agent/api.py
+++ b/DataManager/agent/api.py
@@ -2,6 +2,7 @@ import hashlib
 import io
 import json
 from os import path
+from urllib.parse import quote
 
 import requests
 import urllib3
@@ -42,6 +43,13 @@ class HTTPFS(object):
     def __exit__(self, type, value, traceback):
         pass
 
+    def __get_url(self, hdfs_path):
+        return "{}{}{}".format(
+            self._server_url,
+            self._api_url,
+            quote(hdfs_path)
+        )
+
     def mkdirs(self, hdfs_path):
         """Make directories in hadoop with httpfs.
 
@@ -56,11 +64,7 @@ class HTTPFS(object):
             urllib3.disable_warnings()
 
         res = requests.put(
-            "{}{}{}".format(
-                self._server_url,
-                self._api_url,
-                hdfs_path
-            ),
+            self.__get_url(hdfs_path),
             params={
                 'op': "MKDIRS",
                 'user.name': self._hadoop_user
@@ -88,11 +92,7 @@ class HTTPFS(object):
             urllib3.disable_warnings()
 
         res = requests.get(
-            "{}{}{}".format(
-                self._server_url,
-                self._api_url,
-                hdfs_path
-            ),
+            self.__get_url(hdfs_path),
             params={
                 'op': "LISTSTATUS",
                 'user.name': self._hadoop_user
@@ -127,11 +127,7 @@ class HTTPFS(object):
             urllib3.disable_warnings()
 
         res = requests.delete(
-            "{}{}{}".format(
-                self._server_url,
-                self._api_url,
-                hdfs_path
-            ),
+            self.__get_url(hdfs_path),
             params={
                 'op': "DELETE",
                 'user.name': self._hadoop_user,
@@ -162,11 +158,7 @@ class HTTPFS(object):
             urllib3.disable_warnings()
 
         res = requests.get(
-            "{}{}{}".format(
-                self._server_url,
-                self._api_url,
-                hdfs_path
-            ),
+            self.__get_url(hdfs_path),
             params={
                 'op': "OPEN",
                 'user.name': self._hadoop_user,
@@ -208,11 +200,7 @@ class HTTPFS(object):
         if self.__disable_warnings:
             urllib3.disable_warnings()
 
-        file_url = "{}{}{}".format(
-            self._server_url,
-            self._api_url,
-            hdfs_path
-        )
+        file_url = self.__get_url(hdfs_path)
         res = requests.put(
             file_url,
             params={
-- 
2.43.0


From c461c91441ed13e9f79cfc2c4338d8fcde79705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:50 +0000
Subject: [PATCH 47/78] fix: allow colons in the search engine's password

---
 DataManager/agent/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/agent/api.py b/DataManager/agent/api.py
index 76ac502..696ab43 100644
--- a/DataManager/agent/api.py
+++ b/DataManager/agent/api.py
@@ -270,7 +270,7 @@ class ElasticSearchHttp(object):
         self.__url = url
         if self.__url[-1] != "/":
             self.__url += "/"
-        self.__auth = tuple(auth.split(":")) if auth != "" else None
+        self.__auth = tuple(auth.split(":", 1)) if auth != "" else None
 
     def __enter__(self):
         return self
-- 
2.43.0


From 878f2a933e3e6c2effeeccb9be52f4cc1a0bc8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:50 +0000
Subject: [PATCH 48/78] fix: give every file of a day read over HTTP

Only the last file of a day was given, and the previous day's file again for
a day without files.
---
 DataManager/collector/dataset/resource.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DataManager/collector/dataset/resource.py b/DataManager/collector/dataset/resource.py
index ff809df..05f4099 100644
--- a/DataManager/collector/dataset/resource.py
+++ b/DataManager/collector/dataset/resource.py
@@ -121,7 +121,8 @@ class CMSResourceManager(Resource):
                         )
                 ):
                     cur_file = self._httpfs.open(full_path)
-                    collector = DataFile(cur_file)
+                    yield DataFile(cur_file)
+                continue
             elif self._hdfs_base_path:
                 sc = self.spark_context
                 binary_file = sc.binaryFiles("{}/year={:4d}/month={:d}/day={:d}/part-m-00000.avro".format(
-- 
2.43.0


From 791e44becdf2d6940537d167ce459128b4551d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:50 +0000
Subject: [PATCH 49/78] fix: read the content of files from HDFS

binaryFiles gives pairs of path and content, which are no data source.
---
 DataManager/collector/dataset/resource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/collector/dataset/resource.py b/DataManager/collector/dataset/resource.py
index 05f4099..5e385bb 100644
--- a/DataManager/collector/dataset/resource.py
+++ b/DataManager/collector/dataset/resource.py
@@ -128,7 +128,7 @@ class CMSResourceManager(Resource):
                 binary_file = sc.binaryFiles("{}/year={:4d}/month={:d}/day={:d}/part-m-00000.avro".format(
                     self._hdfs_base_path, year, month, day)
                 ).collect()
-                collector = DataFile(binary_file[0])
+                collector = DataFile(BytesIO(binary_file[0][1]))
             elif self._local_folder:
                 cur_file_path = path.join(
                     path.abspath(self._local_folder),
-- 
2.43.0


From 56b24b8c19b9422a5eb1f0e4f08b57cb0401ed44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:50 +0000
Subject: [PATCH 50/78] fix: end a window of days that is no multiple of the
 step

The end was stepped over, so the days never ended.
---
 DataManager/collector/dataset/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/collector/dataset/utils.py b/DataManager/collector/dataset/utils.py
index 856a881..4a4fd2e 100644
--- a/DataManager/collector/dataset/utils.py
+++ b/DataManager/collector/dataset/utils.py
@@ -135,7 +135,7 @@ def gen_window_dates(year: int, month: int, day: int, window_size: int, step: in
     else:
         start_date = date(year, month, day) + window_size
     end_date = start_date + window_size
-    while start_date != end_date:
+    while start_date < end_date:
         yield (start_date.year, start_date.month, start_date.day)
         start_date += window_step
 
-- 
2.43.0


From dcae1d22ec8493c83baf9838d1fe05b735bc136a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:27 +0000
Subject: [PATCH 51/78] fix: end with an error when a day cannot be stored

---
 scripts/move_data_hdfs2minio.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/move_data_hdfs2minio.py b/scripts/move_data_hdfs2minio.py
index c4d890b..f61f636 100644
--- a/scripts/move_data_hdfs2minio.py
+++ b/scripts/move_data_hdfs2minio.py
@@ -68,6 +68,7 @@ def main():
                 )
             except ResponseError as err:
                 print(err)
+                raise
 
             remove("part-m-00000.avro")
             print("[Original Data][DONE][{}-{}-{}]".format(year, month, day))
-- 
2.43.0


From 5ac804e139174c3a05e18ddb5d775d837d1fd30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:50 +0000
Subject: [PATCH 52/78] fix: count the records of an Avro file without losing
 the position of the iteration

---
 DataManager/collector/datafile/avro.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DataManager/collector/datafile/avro.py b/DataManager/collector/datafile/avro.py
index 39d6cb2..76a0149 100644
--- a/DataManager/collector/datafile/avro.py
+++ b/DataManager/collector/datafile/avro.py
@@ -125,10 +125,12 @@ class AvroDataFileReader(object):
     def __len__(self):
         if not self.__len:
             counter = 0
+            cur_pos = self.__descriptor.tell()
             self.__descriptor.seek(0, 0)
             print("[Check avro lenght...]")
             for _ in fast_reader(self.__descriptor):
                 counter += 1
+            self.__descriptor.seek(cur_pos, 0)
             self.__len = counter
         return self.__len
 
-- 
2.43.0


From 66740db3cd95f9b3d59b4388844753d212c3ac33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:16 +0000
Subject: [PATCH 53/78] fix: leave an iteration over an Avro file where it is
 when a record is asked for by index

---
 DataManager/collector/datafile/avro.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/DataManager/collector/datafile/avro.py b/DataManager/collector/datafile/avro.py
index 76a0149..9e066a7 100644
--- a/DataManager/collector/datafile/avro.py
+++ b/DataManager/collector/datafile/avro.py
@@ -164,13 +164,15 @@ class AvroDataFileReader(object):
 
         results = []
         cur_idx = -1
+        cur_pos = self.__descriptor.tell()
         self.__descriptor.seek(0, 0)
-        self.__avro_iter = fast_reader(self.__descriptor)
+        avro_iter = fast_reader(self.__descriptor)
 
         while len(to_extract):
             try:
-                cur_elm = next(self.__avro_iter)
+                cur_elm = next(avro_iter)
             except StopIteration:
+                self.__descriptor.seek(cur_pos, 0)
                 raise IndexError
 
             cur_idx += 1
@@ -179,6 +181,8 @@ class AvroDataFileReader(object):
                 results.append(cur_elm)
                 to_extract.pop(0)
 
+        self.__descriptor.seek(cur_pos, 0)
+
         if isinstance(idx, slice):
             if idx.start is not None and idx.stop is not None and idx.start > idx.stop:
                 return list(reversed(results))
-- 
2.43.0


From 3729d4bcb62252fef7eda5ce39281d09b8820389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:16 +0000
Subject: [PATCH 54/78] fix: leave an iteration over an Avro file where it is
 when its raw data is read

---
 DataManager/collector/datafile/avro.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DataManager/collector/datafile/avro.py b/DataManager/collector/datafile/avro.py
index 9e066a7..b868993 100644
--- a/DataManager/collector/datafile/avro.py
+++ b/DataManager/collector/datafile/avro.py
@@ -136,8 +136,11 @@ class AvroDataFileReader(object):
 
     @property
     def raw_data(self):
+        cur_pos = self.__descriptor.tell()
         self.__descriptor.seek(0, 0)
-        return self.__descriptor.read()
+        data = self.__descriptor.read()
+        self.__descriptor.seek(cur_pos, 0)
+        return data
 
     def __getitem__(self, idx):
         """Select an item or a group of item from the file.
-- 
2.43.0


From 75a3f4454d5a8fca5adf3c876d33c7e83a76773b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:16 +0000
Subject: [PATCH 55/78] fix: open an Avro file to write so that more data can
 be appended and its data read

---
 DataManager/collector/datafile/avro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/collector/datafile/avro.py b/DataManager/collector/datafile/avro.py
index b868993..b65f8b9 100644
--- a/DataManager/collector/datafile/avro.py
+++ b/DataManager/collector/datafile/avro.py
@@ -30,7 +30,7 @@ class AvroDataFileWriter(object):
         """
         self.__descriptor = None
         if isinstance(file_, str):
-            self.__descriptor = open(file_, 'wb')
+            self.__descriptor = open(file_, 'w+b')
         elif isinstance(file_, (BytesIO, IOBase)):
             self.__descriptor = file_
         else:
-- 
2.43.0


From cbb50034e398208a5c6bbb29f310dab50eb4c026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:16 +0000
Subject: [PATCH 56/78] fix: deduce a 64-bit type for the floats of an Avro
 file

---
 DataManager/collector/datafile/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/collector/datafile/utils.py b/DataManager/collector/datafile/utils.py
index 1927b2b..a4382e9 100644
--- a/DataManager/collector/datafile/utils.py
+++ b/DataManager/collector/datafile/utils.py
@@ -97,7 +97,7 @@ class AvroObjectTranslator(object):
         elif isinstance(value, int):
             return "int"
         elif isinstance(value, float):
-            return "float"
+            return "double"
         elif isinstance(value, str):
             return "string"
         elif isinstance(value, bytes):
-- 
2.43.0


From a05ea12556966c83baef0369cb4a482806fecb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:16 +0000
Subject: [PATCH 57/78] fix: leave an iteration over a JSON file where it is
 when a record is asked for by index

---
 DataManager/collector/datafile/json.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DataManager/collector/datafile/json.py b/DataManager/collector/datafile/json.py
index ba0e042..cc7f694 100644
--- a/DataManager/collector/datafile/json.py
+++ b/DataManager/collector/datafile/json.py
@@ -256,6 +256,7 @@ class JSONDataFileReader(object):
             to_extract = [idx]
 
         results = []
+        cur_pos = self.__descriptor.tell()
 
         for target_idx in to_extract:
             self.__descriptor.seek(0, 0)
@@ -283,6 +284,8 @@ class JSONDataFileReader(object):
 
                 cur_idx += 1
 
+        self.__descriptor.seek(cur_pos)
+
         if isinstance(idx, slice):
             if idx.start is not None and idx.stop is not None and idx.start > idx.stop:
                 return list(reversed(results))
-- 
2.43.0


From 4b53a899d2a15e10566a907126822a25e05adc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:16 +0000
Subject: [PATCH 58/78] fix: leave an iteration over a JSON file where it is
 when its raw data is read

---
 DataManager/collector/datafile/json.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DataManager/collector/datafile/json.py b/DataManager/collector/datafile/json.py
index cc7f694..042488e 100644
--- a/DataManager/collector/datafile/json.py
+++ b/DataManager/collector/datafile/json.py
@@ -155,8 +155,11 @@ class JSONDataFileReader(object):
 
     @property
     def raw_data(self):
+        cur_pos = self.__descriptor.tell()
         self.__descriptor.seek(0, 0)
-        return self.__descriptor.read()
+        data = self.__descriptor.read()
+        self.__descriptor.seek(cur_pos)
+        return data
 
     def add_checkpoint(self, index: int, pos: int):
         self.__checkpoints[index] = pos
-- 
2.43.0


From cda3194855fd01f5dadc532551c5405da2934bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:26 +0000
Subject: [PATCH 59/78] fix: define str2bool, without which the converter and
 its inspection do not start

---
 Probe/probe/converter/inspect.py | 3 +--
 Probe/probe/utils.py             | 4 ++++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/Probe/probe/converter/inspect.py b/Probe/probe/converter/inspect.py
index cfa21fe..9abe74b 100644
--- a/Probe/probe/converter/inspect.py
+++ b/Probe/probe/converter/inspect.py
@@ -2,8 +2,7 @@ import argparse
 import pickle
 from os import path
 
-from ..utils import STATUS_ARROW, STATUS_WARNING
-from .utils import str2bool
+from ..utils import STATUS_ARROW, STATUS_WARNING, str2bool
 
 
 def main():
diff --git a/Probe/probe/utils.py b/Probe/probe/utils.py
index 29866ae..ab167c8 100644
--- a/Probe/probe/utils.py
+++ b/Probe/probe/utils.py
@@ -17,6 +17,10 @@ def STATUS_OK(string):
     return f"{Style.BRIGHT + Fore.GREEN}{string}{Style.RESET_ALL}"
 
 
+def str2bool(v):
+    return v.lower() in ("yes", "true", "t", "1")
+
+
 def sort_by_date(df: "pd.DataFrame", column_name: str = "reqDay") -> "pd.DataFrame":
     """Sort the dataframe by date.
 
-- 
2.43.0


From 13c0bab890c65b6b8f9f3bca6dca1df8705ddd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:26 +0000
Subject: [PATCH 60/78] fix: save the category numbers, as a whole, before the
 file that uses them

---
 Probe/probe/converter/__main__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Probe/probe/converter/__main__.py b/Probe/probe/converter/__main__.py
index 46669a6..e7392cf 100644
--- a/Probe/probe/converter/__main__.py
+++ b/Probe/probe/converter/__main__.py
@@ -1,6 +1,6 @@
 import argparse
 import pickle
-from os import path
+from os import path, replace
 
 from colorama import init
 from tqdm import tqdm
@@ -110,12 +110,15 @@ def main():
 
                 new_df = convert_categories(
                     filepath, df, categories, container)
-                save_numeric_df(filepath, new_df,
-                                output_filename=output_filename)
 
                 print(f"{STATUS_ARROW}Save database...")
-                with open(f"container_{args.region}_.pickle", "wb") as out_file:
+                with open(f"{container_filename}.tmp", "wb") as out_file:
                     pickle.dump(container, out_file)
+                replace(f"{container_filename}.tmp", container_filename)
+
+                # Only after the numbers of its values are saved
+                save_numeric_df(filepath, new_df,
+                                output_filename=output_filename)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 8af0589d78fb712e6eeada49570492aa739e16d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:26 +0000
Subject: [PATCH 61/78] fix: a numeric file is there complete or not at all

---
 Probe/probe/converter/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Probe/probe/converter/utils.py b/Probe/probe/converter/utils.py
index 32ca23c..87b2225 100644
--- a/Probe/probe/converter/utils.py
+++ b/Probe/probe/converter/utils.py
@@ -1,7 +1,7 @@
 import json
 import sqlite3
 from multiprocessing import Pool
-from os import cpu_count, path, walk
+from os import cpu_count, path, replace, walk
 
 import numpy as np
 import pandas as pd
@@ -321,4 +321,8 @@ def save_numeric_df(filepath: str, df: 'pd.DataFrame', output_filename: str = "r
     :type output_filename: str, optional
     """
     print(f"{STATUS_ARROW}Save csv {STATUS_OK(output_filename)}\x1b[0K")
-    df.to_csv(output_filename, index=False)
+    # An incomplete file must not be taken as done, nor as an input
+    head, tail = path.split(output_filename)
+    tmp_filename = path.join(head, tail.replace("csv", "partial"))
+    df.to_csv(tmp_filename, index=False)
+    replace(tmp_filename, output_filename)
-- 
2.43.0


From da9e0fcaafcf2650a6161231332ed5ea04965521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:26 +0000
Subject: [PATCH 62/78] fix: do not convert again the numeric files of earlier
 runs

---
 Probe/probe/converter/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Probe/probe/converter/__main__.py b/Probe/probe/converter/__main__.py
index e7392cf..e0f3165 100644
--- a/Probe/probe/converter/__main__.py
+++ b/Probe/probe/converter/__main__.py
@@ -60,6 +60,8 @@ def main():
 
             head, tail = path.split(filepath)
             cur_filename = tail
+            if tail.startswith("results_numeric_"):
+                continue
             if args.shuffle:
                 output_filename = path.join(
                     head,
-- 
2.43.0


From b15a1c189c7a9a1cd9241f49670b507e0f0133eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:26 +0000
Subject: [PATCH 63/78] fix: look up values that contain dots, like file names

---
 Probe/probe/converter/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Probe/probe/converter/utils.py b/Probe/probe/converter/utils.py
index 87b2225..f7e455d 100644
--- a/Probe/probe/converter/utils.py
+++ b/Probe/probe/converter/utils.py
@@ -147,7 +147,7 @@ class CategoryContainer:
                 colorful_json = make_colored_json(json_output)
                 return colorful_json
             elif subQuery == "valueOf":
-                category, key = category.split(".")
+                category, key = category.split(".", 1)
                 json_output = json.dumps(
                     {category: {key: self._data[category][key]}},
                     indent=2,
-- 
2.43.0


From 386f6503d200f0a60ad499968e7524009f6d5e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:58 +0000
Subject: [PATCH 64/78] fix: number values that only differ in case the same
 way in every process

---
 DataManager/collector/dataset/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/collector/dataset/utils.py b/DataManager/collector/dataset/utils.py
index 4a4fd2e..2211b58 100644
--- a/DataManager/collector/dataset/utils.py
+++ b/DataManager/collector/dataset/utils.py
@@ -350,7 +350,7 @@ class SupportTable(object):
                     (key, index)
                     for index, key in list(
                         enumerate(
-                            sorted(values, key=lambda elm: elm.lower())
+                            sorted(values, key=lambda elm: (elm.lower(), elm))
                         )
                     )
                 )
-- 
2.43.0


From f5e21e41e4b2a8be3024111eeb7676b3535e141b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:58 +0000
Subject: [PATCH 65/78] fix: answer with the new indexes after they are
 generated again

---
 DataManager/collector/dataset/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DataManager/collector/dataset/utils.py b/DataManager/collector/dataset/utils.py
index 2211b58..835b7d7 100644
--- a/DataManager/collector/dataset/utils.py
+++ b/DataManager/collector/dataset/utils.py
@@ -354,6 +354,11 @@ class SupportTable(object):
                         )
                     )
                 )
+        # Forget what was known of the previous indexes
+        self.__sorted_keys = {}
+        self.__sizes = {}
+        SupportTable.get_value.cache_clear()
+        SupportTable.get_close_value.cache_clear()
         return self
 
     def to_dict(self) -> dict:
-- 
2.43.0


From 550173d190510b4c8cddb1ebb8ec20dc5643866e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:58 +0000
Subject: [PATCH 66/78] fix: a support table that was pickled has its filters

---
 DataManager/collector/dataset/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/DataManager/collector/dataset/utils.py b/DataManager/collector/dataset/utils.py
index 835b7d7..aa07cfc 100644
--- a/DataManager/collector/dataset/utils.py
+++ b/DataManager/collector/dataset/utils.py
@@ -164,9 +164,7 @@ class SupportTable(object):
     def __init__(self, support_table: dict = None):
         self._tables = {}
         self._indexed_tables = {}
-        self.filters = ReadableDictAsAttribute({
-            'simple_split': self._filter_simple_split
-        })
+        self.__add_filters()
         self.__sorted_keys = {}
         self.__sizes = {}
         if support_table:
@@ -176,6 +174,11 @@ class SupportTable(object):
                 for key in table.keys():
                     self._tables[table_name][key] = set(table[key].keys())
 
+    def __add_filters(self):
+        self.filters = ReadableDictAsAttribute({
+            'simple_split': self._filter_simple_split
+        })
+
     def __getstate__(self):
         """Makes obj pickable."""
         return {
@@ -191,6 +194,7 @@ class SupportTable(object):
         self._indexed_tables = state['indexed_tables']
         self.__sorted_keys = state['sorted_keys']
         self.__sizes = state['sizes']
+        self.__add_filters()
 
     def close_conversion(self, table_name: str, data: dict, normalized: bool = True, one_hot: bool = False):
         """Convert data value following the support tables."""
-- 
2.43.0


From cbe29015c50630cc292b96194d25b4a23b6a087c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:58 +0000
Subject: [PATCH 67/78] fix: convert a value to its own index, not to that of a
 shorter one

---
 DataManager/collector/dataset/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DataManager/collector/dataset/utils.py b/DataManager/collector/dataset/utils.py
index aa07cfc..1bf4f0e 100644
--- a/DataManager/collector/dataset/utils.py
+++ b/DataManager/collector/dataset/utils.py
@@ -327,7 +327,8 @@ class SupportTable(object):
         Note: You have to call gen_indexes before the conversion at least
               one time to generate the indexes.
         """
-        for cur_key in self._indexed_tables[table_name][key]:
+        # The closest is the longest one
+        for cur_key in sorted(self._indexed_tables[table_name][key], key=len, reverse=True):
             if value.find(cur_key) == 0:
                 return self._indexed_tables[table_name][key][cur_key]
         if '__unknown__' in self._indexed_tables[table_name][key]:
-- 
2.43.0


From d2c2c61b8644398f16290c3aebaddff4ae5a137f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:58 +0000
Subject: [PATCH 68/78] fix: reduce categories that have 'times' as one of
 their words

---
 DataManager/collector/dataset/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DataManager/collector/dataset/utils.py b/DataManager/collector/dataset/utils.py
index 1bf4f0e..f059cf9 100644
--- a/DataManager/collector/dataset/utils.py
+++ b/DataManager/collector/dataset/utils.py
@@ -253,8 +253,8 @@ class SupportTable(object):
             cur_lvl = reduced_set
             for word in cur_category:
                 if word not in cur_lvl:
-                    cur_lvl[word] = {'times': 0}
-                cur_lvl[word]['times'] += 1
+                    cur_lvl[word] = {None: 0}
+                cur_lvl[word][None] += 1
                 cur_lvl = cur_lvl[word]
 
         result = set()
@@ -266,7 +266,7 @@ class SupportTable(object):
                 try:
                     next_key = [
                         inn_key for inn_key in cur_inner.keys()
-                        if inn_key != 'times'
+                        if inn_key is not None
                     ].pop()
                     if next_key:
                         cur_output.append(next_key)
-- 
2.43.0


From 8d0c6683e38bf689e9ba2d99f42f9b83f0b03704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:58 +0000
Subject: [PATCH 69/78] fix: make one hot labels in the train set when asked to

---
 DataManager/collector/dataset/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DataManager/collector/dataset/reader.py b/DataManager/collector/dataset/reader.py
index b3a32a8..a37f202 100644
--- a/DataManager/collector/dataset/reader.py
+++ b/DataManager/collector/dataset/reader.py
@@ -348,7 +348,7 @@ class CMSDatasetTest0Reader(object):
             labels = []
             for record in tqdm(self._collector, desc="[Generate train set]"):
                 features, class_ = self.__translate(
-                    record, normalized, one_hot)
+                    record, normalized, one_hot, one_hot_labels)
                 features_list.append(features)
                 labels.append(class_)
             yield (np.array(features_list), np.array(labels), None)
@@ -363,7 +363,7 @@ class CMSDatasetTest0Reader(object):
 
             for record in tqdm(self._collector, desc="[Generate chunks]"):
                 features, class_ = self.__translate(
-                    record, normalized, one_hot)
+                    record, normalized, one_hot, one_hot_labels)
                 tmp_features.append(features)
                 tmp_labels.append(class_)
                 if len(tmp_features) == chunk_size:
-- 
2.43.0


From 3bb3938c89d7594d7f261b86ebf3238776ef350f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:34 +0000
Subject: [PATCH 70/78] fix: refuse input without each of the columns once

---
 SmartCache/sim/cache/simulation.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/SmartCache/sim/cache/simulation.go b/SmartCache/sim/cache/simulation.go
index cc3b897..a415eef 100644
--- a/SmartCache/sim/cache/simulation.go
+++ b/SmartCache/sim/cache/simulation.go
@@ -203,28 +203,28 @@ func OpenSimFile(filePath string) chan CSVRecord {
 		csvReader := csv.NewReader(curCsv)
 		// Discar header
 		header, errCSVRead := csvReader.Read()
+		if errCSVRead != nil {
+			panic(errCSVRead)
+		}
 		headerStr := strings.Join(header, ",")
 		logger.Debug("File header", zap.String("CSV header", headerStr), zap.String("file", filePath))
 		if headerStr != csvHeader {
 			logger.Info("File header is different from standard", zap.String("CSV header", headerStr), zap.String("file", filePath))
 			headerMap = getHeaderIndexes(header)
 		}
-		if errCSVRead != nil {
-			panic(errCSVRead)
-		}
 		iterator = recordGenerator(csvReader, curFile, headerMap)
 	default:
 		csvReader := csv.NewReader(curFile)
 		// Discar header
 		header, errCSVRead := csvReader.Read()
+		if errCSVRead != nil {
+			panic(errCSVRead)
+		}
 		headerStr := strings.Join(header, ",")
 		logger.Debug("FIle header", zap.String("CSV header", headerStr), zap.String("file", filePath))
 		if headerStr != csvHeader {
 			headerMap = getHeaderIndexes(header)
 		}
-		if errCSVRead != nil {
-			panic(errCSVRead)
-		}
 		iterator = recordGenerator(csvReader, curFile, headerMap)
 	}
 
@@ -234,11 +234,17 @@ func OpenSimFile(filePath string) chan CSVRecord {
 func getHeaderIndexes(header []string) []int {
 	var indexes []int
 	for _, name := range strings.Split(csvHeader, ",") {
+		found := 0
 		for idx, curHeaderName := range header {
 			if name == curHeaderName {
 				indexes = append(indexes, idx)
+				found++
 			}
 		}
+		// The indexes are by position: one less or more shifts all the others
+		if found != 1 {
+			panic(fmt.Errorf("column %q is %d times in the file header", name, found))
+		}
 	}
 	return indexes
 }
-- 
2.43.0


From 52cfbbfa3b171295ac7c83b367d2fadf3cb734cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:23 +0000
Subject: [PATCH 71/78] fix: the agent imports the data file class by its name

---
 DataManager/agent/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DataManager/agent/cli.py b/DataManager/agent/cli.py
index 0668736..b9288ac 100644
--- a/DataManager/agent/cli.py
+++ b/DataManager/agent/cli.py
@@ -3,7 +3,7 @@ from datetime import timedelta
 from sys import exit
 from time import time
 
-from ..collector.interface import DataFileInterface
+from ..collector.api import DataFile
 from .api import ElasticSearchHttp
 
 
@@ -49,7 +49,7 @@ def cli_main():
 
     if args.command == "get":
         if args.type == "file":
-            collector = DataFileInterface(args.source)
+            collector = DataFile(args.source)
             try:
                 index = int(args.index)
             except ValueError as err:
@@ -61,7 +61,7 @@ def cli_main():
         BULK_SIZE = args.bulk
 
         if args.source_type == "file":
-            source = DataFileInterface(args.source)
+            source = DataFile(args.source)
         if args.dest_type == "elasticsearchhttp":
             dest = ElasticSearchHttp(args.dest, args.auth)
 
-- 
2.43.0


From 7fca654d360ba989626f7706f7c6b2c00a3d79ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:24 +0000
Subject: [PATCH 72/78] fix: put the record that comes when the bucket is full

---
 DataManager/agent/cli.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/DataManager/agent/cli.py b/DataManager/agent/cli.py
index b9288ac..db8e70d 100644
--- a/DataManager/agent/cli.py
+++ b/DataManager/agent/cli.py
@@ -103,9 +103,8 @@ def cli_main():
                     print("[COMMAND][PUT][INSERT][Element {}][DONE in {:0.5f}s][Elapsed time: {:0>8}s]".format(
                         idx, time()-start,  str(timedelta(seconds=time()-command_start))), end='\r')
                 else:
-                    if len(bucket) < BULK_SIZE:
-                        bucket.append(data)
-                    else:
+                    bucket.append(data)
+                    if len(bucket) >= BULK_SIZE:
                         tot_elm_done = put_bucket(dest, bucket, tot_elm_done)
                         bucket = []
             else:
-- 
2.43.0


From 86b6bccb7ead85714a0de71d695e6b3bb1e81c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:34 +0000
Subject: [PATCH 73/78] fix: take a put for done only if the answer says it is
 stored

---
 DataManager/agent/cli.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/DataManager/agent/cli.py b/DataManager/agent/cli.py
index db8e70d..50de037 100644
--- a/DataManager/agent/cli.py
+++ b/DataManager/agent/cli.py
@@ -7,6 +7,17 @@ from ..collector.api import DataFile
 from .api import ElasticSearchHttp
 
 
+def stored(res):
+    """Tell if an answer of Elasticsearch says that all was stored."""
+    if res.status_code > 201:
+        return False
+    try:
+        answer = res.json()
+    except ValueError:
+        return False
+    return "_id" in answer or answer.get("errors") is False
+
+
 def cli_main():
     parser = argparse.ArgumentParser(
         description='Data Manager Agent')
@@ -72,7 +83,7 @@ def cli_main():
         def put_bucket(cur_dest, cur_bucket, prev_tot_elm_done):
             start = time()
             res = cur_dest.put(cur_bucket)
-            if res.status_code > 201:
+            if not stored(res):
                 print("[ERROR][STATUS CODE][{}]-> Problem with bulk insertion".format(
                     res.status_code)
                 )
@@ -92,7 +103,7 @@ def cli_main():
                     start = time()
                     res = dest.put(data)
 
-                    if res.status_code > 201:
+                    if not stored(res):
                         print("[ERROR][STATUS CODE][{}]-> Problem with resource index {}".format(
                             res.status_code, idx)
                         )
-- 
2.43.0


From 605fb1fe0560e65323a4ef44e7e82a814db6922e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:07 +0000
Subject: [PATCH 74/78] fix: refuse a gzipped feature map with a wrong checksum

---
 SmartCache/sim/cache/ai/featuremap/featuremap.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/SmartCache/sim/cache/ai/featuremap/featuremap.go b/SmartCache/sim/cache/ai/featuremap/featuremap.go
index cca5f2b..8e96eed 100644
--- a/SmartCache/sim/cache/ai/featuremap/featuremap.go
+++ b/SmartCache/sim/cache/ai/featuremap/featuremap.go
@@ -4,6 +4,8 @@ import (
 	"compress/gzip"
 	"encoding/json"
 	"fmt"
+	"io"
+	"io/ioutil"
 	"math"
 	"os"
 	"path/filepath"
@@ -100,6 +102,13 @@ func (manager *FeatureManager) Populate(featureMapFilePath string) { //nolint:ig
 				zap.String("filename", featureMapFilePath), zap.Error(errJSONUnmarshal))
 			os.Exit(-1)
 		}
+
+		// The checksum is at the end of the stream
+		if _, errChecksum := io.Copy(ioutil.Discard, featureMapFileGz); errChecksum != nil {
+			manager.logger.Error("Damaged gzipped json file",
+				zap.String("filename", featureMapFilePath), zap.Error(errChecksum))
+			os.Exit(-1)
+		}
 	case fileExtension == ".json":
 		errJSONUnmarshal := json.NewDecoder(featureMapFile).Decode(&tmpMap)
 		if errJSONUnmarshal != nil {
-- 
2.43.0


From 923bcb96f7cef984da2f0b1962dacc9861e599d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:07 +0000
Subject: [PATCH 75/78] fix: refuse a dataset list with a wrong checksum

---
 SmartCache/sim/cache/lruDatasetVerifier.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/SmartCache/sim/cache/lruDatasetVerifier.go b/SmartCache/sim/cache/lruDatasetVerifier.go
index 4198355..ae5c3e6 100644
--- a/SmartCache/sim/cache/lruDatasetVerifier.go
+++ b/SmartCache/sim/cache/lruDatasetVerifier.go
@@ -3,6 +3,8 @@ package cache
 import (
 	"compress/gzip"
 	"encoding/json"
+	"io"
+	"io/ioutil"
 	"log"
 	"os"
 
@@ -45,6 +47,11 @@ func (cache *LRUDatasetVerifier) Init(param InitParameters) interface{} {
 		log.Fatalf("Cannot unmarshal json from file '%s'\nError: %s\n", datasetFilePath, errJSONUnmarshal)
 	}
 
+	// The checksum is at the end of the stream
+	if _, errChecksum := io.Copy(ioutil.Discard, datasetFileGz); errChecksum != nil {
+		log.Fatalf("Damaged file '%s'\nError: %s\n", datasetFilePath, errChecksum)
+	}
+
 	for _, fileName := range datasetFiles.SelectedFiles {
 		cache.datasetFileMap[fileName] = true
 	}
-- 
2.43.0


From a79503ca575fb19b5536a5ebec9f3c33854b1648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:27 +0000
Subject: [PATCH 76/78] fix: file a category under the time since the last
 request

The feature catDeltaLastRequest of a file's category was computed from the
tick of the last request instead of the ticks between the last two, so
every file moved to the last bucket as the run went on.
---
 SmartCache/sim/cache/aiRLCatStateManager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SmartCache/sim/cache/aiRLCatStateManager.go b/SmartCache/sim/cache/aiRLCatStateManager.go
index 8d6ca45..7467212 100644
--- a/SmartCache/sim/cache/aiRLCatStateManager.go
+++ b/SmartCache/sim/cache/aiRLCatStateManager.go
@@ -134,7 +134,7 @@ func (catMan CategoryManager) GetFileCategory(file *files.Stats) int {
 		case "catNumReq":
 			catMan.buffer = append(catMan.buffer, feature.Index(file.Frequency))
 		case "catDeltaLastRequest":
-			catMan.buffer = append(catMan.buffer, feature.Index(file.Recency))
+			catMan.buffer = append(catMan.buffer, feature.Index(file.DeltaLastRequest))
 		}
 	}
 
-- 
2.43.0


From c4570043b80719ea689b86871dba7e7f5c5a69df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:59 +0000
Subject: [PATCH 77/78] fix: link eviction states by the features the map has

Where the feature map leaves out one of catSize, catNumReq and
catDeltaLastRequest (featureMaps/no_*), the first feature was compared in
its place: without catDeltaLastRequest a category whose files were
requested again was never linked to its next state.
---
 SmartCache/sim/cache/aiRL.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index 3682b78..6822ee2 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -718,13 +718,14 @@ func (cache *AIRL) checkEvictionNextState(oldStateIdx int, newStateIdx int) bool
 	if !inMap {
 		oldState := cache.evictionAgent.QTable.States[oldStateIdx]
 		newState := cache.evictionAgent.QTable.States[newStateIdx]
-		catSizeIdx := cache.evictionFeatureManager.FeatureIdxMap["catSize"]
-		catNumReqIdx := cache.evictionFeatureManager.FeatureIdxMap["catNumReq"]
-		catDeltaLastRequestIdx := cache.evictionFeatureManager.FeatureIdxMap["catDeltaLastRequest"]
+		catSizeIdx, hasSize := cache.evictionFeatureManager.FeatureIdxMap["catSize"]
+		catNumReqIdx, hasNumReq := cache.evictionFeatureManager.FeatureIdxMap["catNumReq"]
+		catDeltaLastRequestIdx, hasDelta := cache.evictionFeatureManager.FeatureIdxMap["catDeltaLastRequest"]
 		// catPercOccIdx := cache.evictionFeatureManager.FeatureIdxMap["catPercOcc"]
-		isNext = newState[catSizeIdx] == oldState[catSizeIdx]
-		isNext = isNext && newState[catDeltaLastRequestIdx] == oldState[catDeltaLastRequestIdx]
-		isNext = isNext && newState[catNumReqIdx] >= oldState[catNumReqIdx]
+		// A feature the map leaves out does not tell states apart
+		isNext = !hasSize || newState[catSizeIdx] == oldState[catSizeIdx]
+		isNext = isNext && (!hasDelta || newState[catDeltaLastRequestIdx] == oldState[catDeltaLastRequestIdx])
+		isNext = isNext && (!hasNumReq || newState[catNumReqIdx] >= oldState[catNumReqIdx])
 	}
 
 	cache.evictionCheckNextStateMap[curArgs] = isNext
-- 
2.43.0


From dc456e7a34877461bc2210dc436cfc8a7c2ba9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:39 +0000
Subject: [PATCH 78/78] fix: the load of a dump does not drop its last byte

---
 SmartCache/sim/cache/simpleCache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SmartCache/sim/cache/simpleCache.go b/SmartCache/sim/cache/simpleCache.go
index aeaee25..cd23952 100644
--- a/SmartCache/sim/cache/simpleCache.go
+++ b/SmartCache/sim/cache/simpleCache.go
@@ -368,7 +368,8 @@ func (cache *SimpleCache) Load(filename string) [][]byte {
 	charBuffer = make([]byte, 1)
 
 	for {
-		_, err := greader.Read(charBuffer)
+		// The last byte may come together with the end of the file
+		_, err := io.ReadFull(greader, charBuffer)
 		if err != nil {
 			if err == io.EOF {
 				if len(buffer) > 0 {
-- 
2.43.0

