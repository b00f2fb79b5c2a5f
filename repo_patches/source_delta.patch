From e9f09d90a52a6496a6bd5f1210918c77185a468d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:01 +0000
Subject: [PATCH 01/48] fix: lower score is better when higherIsBetter is off

The merge step kept the worse of two scores for distance searches.
---
 data/aggregator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/aggregator.go b/data/aggregator.go
index 5dd9f33..f1b3ce7 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -46,7 +46,7 @@ func (a *Aggregator) IsNewScoredBetter(old, new float64) bool {
 			return true
 		}
 	} else {
-		if old < new {
+		if new < old {
 			return true
 		}
 	}
-- 
2.43.0


From d9654ad1f04c3b3b935d88877b5c6d1bea7eb3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:01 +0000
Subject: [PATCH 02/48] fix: a datum found by several queries is returned once,
 with its best score

---
 data/aggregator.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/data/aggregator.go b/data/aggregator.go
index f1b3ce7..bc8a4f9 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -100,6 +100,17 @@ func (a *Aggregator) InsertToList(scoredDatum *pb.ScoredDatum) error {
 	return nil
 }
 
+// removeFromList drops the entry with the given key, a better scored one is about to take its place.
+func (a *Aggregator) removeFromList(keyString string) {
+	for i, scoredDatum := range a.List {
+		keyByte, err := GetKeyAsBytes(scoredDatum.GetDatum())
+		if err == nil && util.EncodeToString(keyByte) == keyString {
+			a.List = append(a.List[:i], a.List[i+1:]...)
+			return
+		}
+	}
+}
+
 func (a *Aggregator) Insert(scoredDatum *pb.ScoredDatum) error {
 	scoredDatum.Score = a.BestScore(scoredDatum)
 	if a.Grouped {
@@ -124,6 +135,7 @@ func (a *Aggregator) Insert(scoredDatum *pb.ScoredDatum) error {
 		if previousScore, ok := a.DeDuplicationMap.Get(keyString); ok {
 			if a.IsNewScoredBetter(previousScore.(float64), scoredDatum.GetScore()) {
 				a.DeDuplicationMap.Set(keyString, scoredDatum.GetScore(), cache.NoExpiration)
+				a.removeFromList(keyString)
 				return a.InsertToList(scoredDatum)
 			}
 		} else {
-- 
2.43.0


From e3817ac62d140c06c9783f9672aab8792e626dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:01 +0000
Subject: [PATCH 03/48] fix: a search with limit 0 returns nothing instead of
 crashing

---
 data/aggregator.go | 3 +++
 data/search.go     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/data/aggregator.go b/data/aggregator.go
index bc8a4f9..06b4313 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -78,6 +78,9 @@ func (a *Aggregator) BestScore(scoredDatum *pb.ScoredDatum) float64 {
 func (a *Aggregator) InsertToList(scoredDatum *pb.ScoredDatum) error {
 	itemAdded := false
 	limit := a.Config.Limit
+	if limit == 0 {
+		return nil
+	}
 	if uint32(len(a.List)) < limit {
 		a.List = append(a.List, scoredDatum)
 		itemAdded = true
diff --git a/data/search.go b/data/search.go
index 566e714..27f4019 100644
--- a/data/search.go
+++ b/data/search.go
@@ -63,6 +63,9 @@ type Collector struct {
 // Insert add a new scored datum to collector
 func (c *Collector) Insert(scoredDatum *pb.ScoredDatum) error {
 	itemAdded := false
+	if c.N == 0 {
+		return nil
+	}
 	if uint32(len(c.List)) < c.N {
 		c.List = append(c.List, scoredDatum)
 		itemAdded = true
-- 
2.43.0


From cc2665fd8512360da5a8ca56e3ea31d5715f5d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:01 +0000
Subject: [PATCH 04/48] fix: NewDatum keeps size2

---
 data/datum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/datum.go b/data/datum.go
index 5db0810..fb0aa7c 100644
--- a/data/datum.go
+++ b/data/datum.go
@@ -22,7 +22,7 @@ func NewDatum(feature []float32,
 			Dim1:       dim1,
 			Dim2:       dim2,
 			Size1:      size1,
-			Size2:      size1,
+			Size2:      size2,
 			GroupLabel: groupLabel,
 		},
 		Value: &pb.DatumValue{
-- 
2.43.0


From 0c837e906a247d18c43026f36565ca3ffd08d99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:16 +0000
Subject: [PATCH 05/48] fix: sweeping an expired entry no longer removes a
 concurrent re-insert

---
 data/newsync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/newsync.go b/data/newsync.go
index 2040b5c..6213816 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -76,7 +76,7 @@ func (dt *Data) LoopDBMap(entryFunction func(entry *DBMapEntry) error) error {
 	dt.DBMap.Range(func(key, value interface{}) bool {
 		if mapEntry, ok := value.(*DBMapEntry); ok {
 			if mapEntry.ExprireAt != 0 && mapEntry.ExprireAt <= time.Now().Unix() {
-				dt.DBMap.Delete(key)
+				dt.DBMap.CompareAndDelete(key, value) // a new entry may already be in place
 				return true
 			}
 			err := entryFunction(mapEntry)
-- 
2.43.0


From e26c428a2a089b0dd3d626db028c05cc9724e0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:16 +0000
Subject: [PATCH 06/48] fix: eviction only removes the version of a datum that
 was sent to the peer

---
 data/newsync.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/data/newsync.go b/data/newsync.go
index 6213816..31134d0 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -71,6 +71,21 @@ func (dt *Data) DeleteBDMap(datum *pb.Datum) error {
 	return nil
 }
 
+// evictBDMap removes a datum that a peer has taken over, unless it was replaced since it was sent.
+func (dt *Data) evictBDMap(datum *pb.Datum) error {
+	keyByte, err := GetKeyAsBytes(datum)
+	if err != nil {
+		return err
+	}
+	key := string(keyByte)
+	if value, ok := dt.DBMap.Load(key); ok {
+		if entry, ok2 := value.(*DBMapEntry); ok2 && entry.Datum == datum {
+			dt.DBMap.CompareAndDelete(key, value)
+		}
+	}
+	return nil
+}
+
 func (dt *Data) LoopDBMap(entryFunction func(entry *DBMapEntry) error) error {
 	var lastError error
 	dt.DBMap.Range(func(key, value interface{}) bool {
@@ -124,7 +139,7 @@ func (dt *Data) Process(force bool) error {
 									}
 									if err == nil && (!dt.Alive || isEvictionOn(localInfo, config, deleted)) {
 										countMap[id]++
-										dt.DeleteBDMap(datum.Datum)
+										dt.evictBDMap(datum.Datum)
 										deleted++
 									}
 								}
-- 
2.43.0


From 3f4675af4a92c3055de2816b2a490bb085bb80b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:16 +0000
Subject: [PATCH 07/48] fix: re-inserting a datum whose old entry has expired
 stores it

---
 data/newsync.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data/newsync.go b/data/newsync.go
index 31134d0..bf02e8d 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -50,7 +50,8 @@ func (dt *Data) InsertBDMap(datum *pb.Datum, config *pb.InsertConfig) error {
 			if err != nil {
 				return err
 			}
-			if bytes.Compare(valueByte, oldValueByte) == 0 && CloseEnough(entry.ExprireAt, oldEntry.ExprireAt) {
+			expired := oldEntry.ExprireAt != 0 && oldEntry.ExprireAt <= time.Now().Unix()
+			if !expired && bytes.Compare(valueByte, oldValueByte) == 0 && CloseEnough(entry.ExprireAt, oldEntry.ExprireAt) {
 				isNewEntry = false
 			}
 		}
-- 
2.43.0


From 9c7a3ea4bab2732022586bf5b8e511b992b4346f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:17 +0000
Subject: [PATCH 08/48] fix: a very large TTL does not overflow into the past

---
 data/newsync.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data/newsync.go b/data/newsync.go
index bf02e8d..50c372f 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"io/ioutil"
 	"log"
+	"math"
 	"math/rand"
 	"os"
 	"sync/atomic"
@@ -26,7 +27,7 @@ func CloseEnough(a, b int64) bool {
 
 func (dt *Data) InsertBDMap(datum *pb.Datum, config *pb.InsertConfig) error {
 	exprireAt := int64(0)
-	if config != nil && config.TTL != 0 {
+	if config != nil && config.TTL != 0 && config.TTL <= math.MaxInt32 { // longer than a lifetime: never expires
 		exprireAt = time.Now().Unix() + int64(config.TTL)
 	}
 	datum.Clean()
-- 
2.43.0


From 4f8961f0bd9c9015f95403bd8bcd3614a57e7338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:03 +0000
Subject: [PATCH 09/48] fix: data without a TTL takes part in rebalancing and
 draining

---
 data/newsync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/newsync.go b/data/newsync.go
index 50c372f..c35b53d 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -199,7 +199,7 @@ func (dt *Data) Process(force bool) error {
 			}
 			if !dt.Alive || (insertionCounter < limit && rand.Float64() < fraction) {
 				config := InsertConfigFromExpireAt(uint64(entry.ExprireAt))
-				if config.TTL > 10 {
+				if config.TTL > 10 || entry.ExprireAt == 0 {
 					datumStream <- &pb.InsertDatumWithConfig{
 						Datum:  entry.Datum,
 						Config: config,
-- 
2.43.0


From f09b928a8d1a94d7d8e3867651b8d648eed78a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:06 +0000
Subject: [PATCH 10/48] fix: closing a dataset drains recent inserts, and ends
 when peers refuse

The drain was skipped while the published count was still 0, never ended when
no peer accepted data, and a close during a run with no peers left the run
blocked for ever.
---
 data/data.go    | 13 ++++++++++++-
 data/newsync.go | 15 +++++++++++++--
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/data/data.go b/data/data.go
index be2b8b9..125202d 100644
--- a/data/data.go
+++ b/data/data.go
@@ -108,8 +108,16 @@ func NewTempData() (*Data, error) {
 func (dt *Data) Close() error {
 	dt.Alive = false
 	if dt.Sources != nil && len(dt.Sources.Items()) > 0 {
-		for dt.N > 0 {
+		dt.Process(true) // recent inserts may not be counted yet
+		for stalled := 0; dt.N > 0 && stalled < 15; {
+			before := dt.N
 			dt.Process(true)
+			if dt.N < before {
+				stalled = 0
+			} else { // peers do not take more, leave after some retries
+				stalled++
+				time.Sleep(time.Second)
+			}
 		}
 	}
 	// return dt.DB.Close()
@@ -186,6 +194,9 @@ func (dt *Data) DataSourceDiffMap() (map[string]uint64, uint64) {
 					diff = 0
 				}
 			}
+			if diff == 0 && !dt.Alive { // draining hands over everything
+				diff = 1
+			}
 			diffMap[source.GetID()] = diff
 			sum += diff
 		}
diff --git a/data/newsync.go b/data/newsync.go
index c35b53d..4059954 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -118,13 +118,24 @@ func (dt *Data) Process(force bool) error {
 		atomic.StoreUint64(&(dt.RecentInsertCount), 0)
 		config := dt.GetConfig()
 		datumStream := make(chan *pb.InsertDatumWithConfig, limit)
-		defer close(datumStream)
+		transferDone := make(chan struct{})
+		defer func() {
+			close(datumStream)
+			if !dt.Alive { // a draining node waits for the answers of its peers
+				<-transferDone
+			}
+		}()
 		insertionCounter := uint64(0)
 		fraction := float64(0)
 		if localN > 0 {
 			fraction = float64(limit) / float64(localN)
+		}
+		if len(diffMap) == 0 {
+			close(transferDone)
+		} else {
 			countMap := make(map[string]uint64, len(diffMap))
 			go func() {
+				defer close(transferDone)
 				deleted := uint64(0)
 				counter := 0
 				for datum := range datumStream {
@@ -197,7 +208,7 @@ func (dt *Data) Process(force bool) error {
 				newAnnoyIndex.AddItem(i, entry.Datum.Key.Feature)
 				newDataIndex[i] = entry.Datum
 			}
-			if !dt.Alive || (insertionCounter < limit && rand.Float64() < fraction) {
+			if len(diffMap) > 0 && (!dt.Alive || (insertionCounter < limit && rand.Float64() < fraction)) {
 				config := InsertConfigFromExpireAt(uint64(entry.ExprireAt))
 				if config.TTL > 10 || entry.ExprireAt == 0 {
 					datumStream <- &pb.InsertDatumWithConfig{
-- 
2.43.0


From 794e007ea2f9b219f2154589fccca54b4132a422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:27 +0000
Subject: [PATCH 11/48] fix: a search with an unresponsive peer keeps the
 results that arrived in time

The inner merge waited for as long as the outer one, so the outer one gave up
first and returned nothing; and all queries of a request shared (and kept
shrinking) one timeout.
---
 data/search.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/data/search.go b/data/search.go
index 27f4019..97b2c89 100644
--- a/data/search.go
+++ b/data/search.go
@@ -13,6 +13,7 @@ import (
 	"github.com/bgokden/veri/util"
 	pb "github.com/bgokden/veri/veriservice"
 	"github.com/tidwall/gjson"
+	"google.golang.org/protobuf/proto"
 )
 
 // type SearchConfig struct {
@@ -162,9 +163,12 @@ func GetSearchKey(datum *pb.Datum, config *pb.SearchConfig) string {
 
 // AggregatedSearch searches and merges other resources
 func (dt *Data) AggregatedSearch(datum *pb.Datum, scoredDatumStreamOutput chan<- *pb.ScoredDatum, upperWaitGroup *sync.WaitGroup, config *pb.SearchConfig) error {
-	duration := time.Duration(config.Timeout) * time.Millisecond
-	timeLimit := time.After(duration)
 	queryKey := GetSearchKey(datum, config)
+	// The caller stops listening after its own timeout, answer before that.
+	// The config is shared with the other queries of a search, it can not be changed in place.
+	duration := time.Duration(float64(config.Timeout) * 0.9 * float64(time.Millisecond))
+	timeLimit := time.After(duration)
+	config = proto.Clone(config).(*pb.SearchConfig)
 	config.Timeout = uint64(float64(config.Timeout) * 0.9) // Decrase timeout for downstream
 	if dt.QueryCache == nil {
 		dt.InitData()
-- 
2.43.0


From f08b7f7ed667c44d923dc64838f2dbc02b4d20de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:30 +0000
Subject: [PATCH 12/48] fix: a timed out search does not leave its senders
 blocked for ever

---
 data/search.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/data/search.go b/data/search.go
index 97b2c89..1f9a6cd 100644
--- a/data/search.go
+++ b/data/search.go
@@ -161,6 +161,17 @@ func GetSearchKey(datum *pb.Datum, config *pb.SearchConfig) string {
 	return util.EncodeToString(append(keyByte, signature...))
 }
 
+// discardResults receives late results so that the searches sending them can end
+func discardResults(scoredDatumStream <-chan *pb.ScoredDatum, done <-chan struct{}) {
+	for {
+		select {
+		case <-scoredDatumStream:
+		case <-done:
+			return
+		}
+	}
+}
+
 // AggregatedSearch searches and merges other resources
 func (dt *Data) AggregatedSearch(datum *pb.Datum, scoredDatumStreamOutput chan<- *pb.ScoredDatum, upperWaitGroup *sync.WaitGroup, config *pb.SearchConfig) error {
 	queryKey := GetSearchKey(datum, config)
@@ -225,6 +236,7 @@ func (dt *Data) AggregatedSearch(datum *pb.Datum, scoredDatumStreamOutput chan<-
 			break
 		case <-timeLimit:
 			log.Printf("timeout")
+			go discardResults(scoredDatumStream, waitChannel)
 			dataAvailable = false
 			break
 		}
@@ -295,6 +307,7 @@ func (dt *Data) MultiAggregatedSearch(datumList []*pb.Datum, config *pb.SearchCo
 			break
 		case <-timeLimit:
 			// log.Printf("timeout")
+			go discardResults(scoredDatumStream, waitChannel)
 			dataAvailable = false
 			break
 		}
-- 
2.43.0


From 8c517671dc1807d5d97ac4c729454d2ab46b1fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:32 +0000
Subject: [PATCH 13/48] fix: checking for activity survives an unreachable peer

---
 data/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/data.go b/data/data.go
index 125202d..0b40781 100644
--- a/data/data.go
+++ b/data/data.go
@@ -141,7 +141,7 @@ func (dt *Data) CheckIfActive() bool {
 		sourceList := dt.Sources.Items()
 		for _, sourceItem := range sourceList { // Assumption is that random map runs are random enough
 			source := sourceItem.Object.(DataSource)
-			if source.GetDataInfo().N > 0 {
+			if source.GetDataInfo().GetN() > 0 {
 				return true
 			}
 		}
-- 
2.43.0


From 801baeebb3558562a9dabd6c5143fa37d1de249c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:35 +0000
Subject: [PATCH 14/48] fix: at most one processor runs per dataset

---
 data/data.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/data/data.go b/data/data.go
index 0b40781..23d4ef5 100644
--- a/data/data.go
+++ b/data/data.go
@@ -151,11 +151,10 @@ func (dt *Data) CheckIfActive() bool {
 
 // Run runs statistical calculation regularly
 func (dt *Data) Run() error {
-	if atomic.LoadInt32(&dt.Runs) >= 1 {
+	if !atomic.CompareAndSwapInt32(&dt.Runs, 0, 1) {
 		log.Printf("Multiple Run calls detected.")
 		return errors.New("Another instance of processor is running for data")
 	}
-	atomic.AddInt32(&dt.Runs, 1)
 	defer atomic.AddInt32(&dt.Runs, -1)
 	nextTime := getCurrentTime()
 	gcCounter := 10
-- 
2.43.0


From 493272fd5fbbc6ced29403f2ec8dbea8cccf08c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:52 +0000
Subject: [PATCH 15/48] fix: maintenance does not drop a dataset with data that
 is not counted yet

The published count lags behind the inserts by a minute; a dataset that was
filled since was closed and removed.  A closed dataset refuses inserts instead
of acknowledging and losing them.
---
 data/data.go    | 16 ++++++++++++++++
 data/dataset.go |  2 +-
 data/insert.go  |  6 ++++++
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/data/data.go b/data/data.go
index 23d4ef5..8d5cb6a 100644
--- a/data/data.go
+++ b/data/data.go
@@ -48,6 +48,7 @@ type Data struct {
 	QueryCache        *cache.Cache
 	Initialized       bool
 	Alive             bool
+	Closed            bool
 	Annoyer           Annoyer
 	Runs              int32
 	DBMap             sync.Map
@@ -106,6 +107,9 @@ func NewTempData() (*Data, error) {
 
 // Close currently closes underlying kv store
 func (dt *Data) Close() error {
+	dt.Lock()
+	dt.Closed = true // no insert is accepted from here on
+	dt.Unlock()
 	dt.Alive = false
 	if dt.Sources != nil && len(dt.Sources.Items()) > 0 {
 		dt.Process(true) // recent inserts may not be counted yet
@@ -149,6 +153,18 @@ func (dt *Data) CheckIfActive() bool {
 	return false
 }
 
+// closeIfEmpty stops accepting inserts, unless there is data that is not counted yet
+func (dt *Data) closeIfEmpty() bool {
+	dt.Lock()
+	defer dt.Unlock()
+	dt.Closed = true
+	dt.LoopDBMap(func(entry *DBMapEntry) error {
+		dt.Closed = false
+		return errors.New("Data is not empty")
+	})
+	return dt.Closed
+}
+
 // Run runs statistical calculation regularly
 func (dt *Data) Run() error {
 	if !atomic.CompareAndSwapInt32(&dt.Runs, 0, 1) {
diff --git a/data/dataset.go b/data/dataset.go
index 1ec258c..4df305b 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -192,7 +192,7 @@ func (dts *Dataset) ReloadRuns() error {
 	removeList := make([]string, 0, len(itemList))
 	for key, itemInterface := range itemList {
 		if item, ok := itemInterface.Object.(*Data); ok {
-			if item.CheckIfActive() {
+			if item.CheckIfActive() || !item.closeIfEmpty() {
 				go item.Run()
 			} else {
 				item.Close()
diff --git a/data/insert.go b/data/insert.go
index 46b8ca2..a7b13dc 100644
--- a/data/insert.go
+++ b/data/insert.go
@@ -15,7 +15,13 @@ func (dt *Data) Insert(datum *pb.Datum, config *pb.InsertConfig) error {
 	if dt.Initialized == false {
 		dt.InitData()
 	}
+	dt.RLock()
+	if dt.Closed {
+		dt.RUnlock()
+		return errors.New("Data is closed")
+	}
 	err := dt.InsertBDMap(datum, config)
+	dt.RUnlock()
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 12d54fc228e9126b7d2b78f41cfe61f0d53d8b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:17 +0000
Subject: [PATCH 16/48] fix: the dataset index is replaced atomically and never
 by a stale copy

A crash during a save, or two saves at once, could leave a truncated or mixed
file; saving could also re-create a dataset deleted at the same time.
---
 data/dataset.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/data/dataset.go b/data/dataset.go
index 4df305b..9b6f013 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -7,6 +7,7 @@ import (
 	"log"
 	"os"
 	"path"
+	"sync"
 	"time"
 
 	"github.com/bgokden/go-cache"
@@ -19,6 +20,8 @@ type Dataset struct {
 	DataList *cache.Cache
 	Path     string
 	DataPath string
+
+	saveMutex sync.Mutex
 }
 
 func closeData(key string, value interface{}) {
@@ -207,23 +210,32 @@ func (dts *Dataset) ReloadRuns() error {
 }
 
 func (dts *Dataset) SaveIndex() error {
+	dts.saveMutex.Lock()
+	defer dts.saveMutex.Unlock()
 	indexPath := path.Join(dts.Path, "index.save")
+	tempPath := indexPath + ".tmp" // the old index stays in place until the new one is complete
 	sourceList := dts.DataList.Items()
-	file, err := os.OpenFile(indexPath, os.O_TRUNC|os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
+	file, err := os.OpenFile(tempPath, os.O_TRUNC|os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
 	if err != nil {
 		return err
 	}
 	datawriter := bufio.NewWriter(file)
 	for k := range sourceList {
-		data, _ := dts.Get(k)
+		data, err := dts.GetNoCreate(k)
+		if err != nil {
+			continue // deleted in the meantime
+		}
 		config := data.GetConfig()
 		jsonData, _ := json.Marshal(config)
 		_, _ = datawriter.WriteString(string(jsonData) + "\n")
 
 	}
-	datawriter.Flush()
+	err = datawriter.Flush()
 	file.Close()
-	return nil
+	if err != nil {
+		return err
+	}
+	return os.Rename(tempPath, indexPath)
 }
 
 func (dts *Dataset) Close() error {
-- 
2.43.0


From 65504d378bdf57c4e6b2dddd155a2da5499ff06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:20 +0000
Subject: [PATCH 17/48] fix: loading the dataset index does not overwrite it
 half way

---
 data/dataset.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/data/dataset.go b/data/dataset.go
index 9b6f013..ba34998 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -108,12 +108,18 @@ func (dts *Dataset) GetOrCreateIfNotExists(config *pb.DataConfig) (*Data, error)
 }
 
 func (dts *Dataset) CreateIfNotExists(config *pb.DataConfig) error {
+	return dts.createIfNotExists(config, true)
+}
+
+func (dts *Dataset) createIfNotExists(config *pb.DataConfig, save bool) error {
 	preData := NewPreData(config, dts.DataPath)
 	retention := GetRetention(config.Retention)
 	// log.Printf("Data %v Retention: %v Version: %v\n", config.Name, retention, config.Version)
 	err := dts.DataList.Add(config.Name, preData, retention)
 	if err == nil {
-		go dts.SaveIndex()
+		if save {
+			go dts.SaveIndex()
+		}
 		return preData.InitData()
 	}
 	// log.Printf("Data %v Error: %v\n", config.Name, err.Error())
@@ -180,7 +186,7 @@ func (dts *Dataset) LoadIndex() error {
 		}
 		var config pb.DataConfig
 		if err := json.Unmarshal([]byte(line), &config); err == nil {
-			err2 := dts.CreateIfNotExists(&config)
+			err2 := dts.createIfNotExists(&config, false) // already in the index
 			if err2 != nil {
 				log.Printf("Err creatding data: %v\n", err2)
 			}
-- 
2.43.0


From b57d3cc4ce610ef2db4901f2aeccc39cacbc1187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:22 +0000
Subject: [PATCH 18/48] fix: concurrent config updates do not replace a newer
 version with an older one

---
 data/dataset.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/data/dataset.go b/data/dataset.go
index ba34998..a460555 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -126,10 +126,12 @@ func (dts *Dataset) createIfNotExists(config *pb.DataConfig, save bool) error {
 	if err.Error() == fmt.Sprintf("Item %s already exists", config.Name) {
 		data, errGetNoOp := dts.GetNoOp(config.Name)
 		if errGetNoOp == nil {
+			data.Lock()
 			if config.Version > data.Config.Version {
 				log.Printf("Update Data %v Config.Version: %v\n", config.Name, config.Version)
 				data.Config = config
 			}
+			data.Unlock()
 		} else {
 			log.Printf("Error errGetNoOp: %v\n", errGetNoOp.Error())
 		}
-- 
2.43.0


From d63d0cfe1f9a7111ba29026446593af8393e5644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:25 +0000
Subject: [PATCH 19/48] fix: listing dataset configs does not re-create deleted
 datasets

---
 data/dataset.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/data/dataset.go b/data/dataset.go
index a460555..4bd175f 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -167,7 +167,10 @@ func (dts *Dataset) DataConfigList() []*pb.DataConfig {
 	sourceList := dts.DataList.Items()
 	configs := make([]*pb.DataConfig, 0, len(sourceList))
 	for k := range sourceList {
-		data, _ := dts.Get(k)
+		data, err := dts.GetNoCreate(k)
+		if err != nil {
+			continue // deleted in the meantime
+		}
 		config := data.GetConfig()
 		configs = append(configs, config)
 	}
-- 
2.43.0


From f52e9608500aa4859df8847feb100bea3b425a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:24 +0000
Subject: [PATCH 20/48] fix: a search with several queries reaches peers with
 each of them, and runs once per node

---
 node/nodeservice.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/node/nodeservice.go b/node/nodeservice.go
index 753ab84..9fb1b72 100644
--- a/node/nodeservice.go
+++ b/node/nodeservice.go
@@ -10,6 +10,7 @@ import (
 	"time"
 
 	"github.com/bgokden/go-cache"
+	data "github.com/bgokden/veri/data"
 	"github.com/bgokden/veri/state"
 	pb "github.com/bgokden/veri/veriservice"
 	"github.com/google/uuid"
@@ -119,25 +120,34 @@ func (n *Node) SearchStream(searchRequest *pb.SearchRequest, stream pb.VeriServi
 	config := searchRequest.GetConfig()
 	uid := config.GetUuid()
 	if uid == "" {
-		uid, err := uuid.NewRandom()
+		newUuid, err := uuid.NewRandom()
 		if err != nil {
 			return err
 		}
-		config.Uuid = uid.String()
-	} else {
-		err := n.QueryUUIDCache.Add(uid, true, cache.DefaultExpiration)
+		uid = newUuid.String()
+		config.Uuid = uid
+	}
+	// Peers ask for the queries of a search one by one with the same uuid.
+	// The origin records its own queries too, they may come back.
+	datumList := make([]*pb.Datum, 0, len(searchRequest.GetDatum()))
+	for _, datum := range searchRequest.GetDatum() {
+		keyByte, err := data.GetKeyAsBytes(datum)
+		if err != nil {
+			return err
+		}
+		err = n.QueryUUIDCache.Add(uid+string(keyByte), true, cache.DefaultExpiration)
 		if err != nil {
 			if strings.Contains(err.Error(), "already exists") {
-				return nil
+				continue
 			}
 			return err
 		}
+		datumList = append(datumList, datum)
 	}
 	aData, err := n.Dataset.GetNoCreate(config.GetDataName())
 	if err != nil {
 		return err
 	}
-	datumList := searchRequest.GetDatum()
 	searchConfig := searchRequest.GetConfig()
 	searchContext := searchRequest.GetContext()
 	result, err := aData.MultiAggregatedSearch(datumList, searchConfig, searchContext)
-- 
2.43.0


From 030a8b4cf3f166bfe54456e74bfba4627466235c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:27 +0000
Subject: [PATCH 21/48] fix: DataStream sends every datum before it returns

---
 node/nodeservice.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/node/nodeservice.go b/node/nodeservice.go
index 9fb1b72..d31f0e1 100644
--- a/node/nodeservice.go
+++ b/node/nodeservice.go
@@ -85,23 +85,25 @@ func (n *Node) DataStream(getDataRequest *pb.GetDataRequest, stream pb.VeriServi
 		return err
 	}
 	datumStreamAll := make(chan *pb.Datum, 100)
+	sendResult := make(chan error, 1)
 	go func() {
+		var sendError error
 		for datum := range datumStreamAll {
 			// log.Printf("Send label: %v\n", string(datum.Value.Label))
-			stream.Send(datum)
+			if sendError == nil { // otherwise only unblocks the producer
+				sendError = stream.Send(datum)
+			}
 		}
+		sendResult <- sendError
 	}()
 	err = dt.StreamAll(datumStreamAll)
+	close(datumStreamAll)
+	sendError := <-sendResult // the stream can not be used after return
 	if err != nil {
 		return err
 	}
-	close(datumStreamAll)
-	for datum := range datumStreamAll {
-		// log.Printf("Flush - Send label: %v\n", string(datum.Value.Label))
-		stream.Send(datum)
-	}
 	// log.Printf("DataStream finished\n")
-	return nil
+	return sendError
 }
 
 func (n *Node) GetDataInfo(ctx context.Context, getDataRequest *pb.GetDataRequest) (*pb.DataInfo, error) {
-- 
2.43.0


From 7dcaad11cad58fc5e754000b58e5fb2991cb2464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:30 +0000
Subject: [PATCH 22/48] fix: a draining node is not reported as ready

---
 server/httpservice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/httpservice.go b/server/httpservice.go
index 3aa7590..eb4beec 100644
--- a/server/httpservice.go
+++ b/server/httpservice.go
@@ -15,7 +15,7 @@ import (
 // var Ready = false
 
 func GetReady(w http.ResponseWriter, r *http.Request) {
-	if state.Ready {
+	if state.Ready && !state.Drain {
 		w.WriteHeader(http.StatusOK)
 		w.Header().Set("Content-Type", "application/json")
 		io.WriteString(w, `{"alive": true}`)
-- 
2.43.0


From 89f54b933d94afd3e1ecd1946854b443bd1cff3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:33 +0000
Subject: [PATCH 23/48] fix: the folder of a dataset is inside the data folder
 for any name

---
 data/data.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/data/data.go b/data/data.go
index 8d5cb6a..a0e71df 100644
--- a/data/data.go
+++ b/data/data.go
@@ -3,6 +3,7 @@ package data
 import (
 	"errors"
 	"log"
+	"net/url"
 	"os"
 	"path"
 	"strings"
@@ -59,13 +60,22 @@ func (d *Data) GetConfig() *pb.DataConfig {
 	return d.Config
 }
 
+// getDBPath returns the folder of a dataset, which is always directly inside dataPath
+func getDBPath(dataPath string, name string) string {
+	folder := url.PathEscape(name)
+	if folder == "" || folder == "." || folder == ".." {
+		folder = "%" + folder // can not be the result of an escape
+	}
+	return path.Join(dataPath, folder)
+}
+
 // NewData creates a data struct
 func NewData(config *pb.DataConfig, dataPath string) (*Data, error) {
 	dt := &Data{
 		Config: config,
 	}
 	// log.Printf("Create Data\n")
-	dt.DBPath = path.Join(dataPath, config.Name)
+	dt.DBPath = getDBPath(dataPath, config.Name)
 	dt.InitData()
 	return dt, nil
 }
@@ -77,7 +87,7 @@ func NewPreData(config *pb.DataConfig, dataPath string) *Data {
 	}
 	atomic.StoreUint64(&(dt.RecentInsertCount), 0)
 	// log.Printf("Pre Create Data %v\n", dt.Config)
-	dt.DBPath = path.Join(dataPath, config.Name)
+	dt.DBPath = getDBPath(dataPath, config.Name)
 	return dt
 }
 
-- 
2.43.0


From 2b1dd66ba1a6329d8b9a6e756ffc39fd5400896e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:36 +0000
Subject: [PATCH 24/48] fix: Info survives a dataset that is deleted or created
 while it runs

---
 node/node.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node/node.go b/node/node.go
index 95456da..4abae40 100644
--- a/node/node.go
+++ b/node/node.go
@@ -352,6 +352,10 @@ func (n *Node) Info() string {
 			sb.WriteString(fmt.Sprintf("* Name %v N: %v config %v\n", name, dinfo.N, config))
 		} else {
 			sb.WriteString(fmt.Sprintf("* Name %v Error: %v\n", name, err.Error()))
+			continue
+		}
+		if dt.Sources == nil { // not initialized yet
+			continue
 		}
 		sourceList := dt.Sources.Items()
 		for _, sourceItem := range sourceList {
-- 
2.43.0


From e98d62fffc03e8f618b8bf36a76aa9ae481b778b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:55 +0000
Subject: [PATCH 25/48] fix: a concurrent update does not replace a peer record
 with an older one

---
 node/node.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/node/node.go b/node/node.go
index 4abae40..38a5a1c 100644
--- a/node/node.go
+++ b/node/node.go
@@ -6,6 +6,7 @@ import (
 	"runtime"
 	"sort"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/bgokden/go-cache"
@@ -49,6 +50,8 @@ type Node struct {
 	PeriodicDone    chan bool
 	QueryUUIDCache  *cache.Cache
 	ConnectionCache *util.ConnectionCache
+
+	peerMutex sync.Mutex // PeerList is only changed with this mutex
 }
 
 func NewNode(config *NodeConfig) *Node {
@@ -100,7 +103,11 @@ func (n *Node) CheckPeer(peer *pb.Peer) bool {
 		}
 		idOfPeer := GetIdOfPeer(peer)
 		log.Printf("Deleting %v since %v is too old (t:%v)\n", idOfPeer, peer.Timestamp, getCurrentTime())
-		n.PeerList.Delete(idOfPeer)
+		n.peerMutex.Lock()
+		defer n.peerMutex.Unlock()
+		if current, ok := n.PeerList.Get(idOfPeer); ok && current == peer { // otherwise there is a newer one
+			n.PeerList.Delete(idOfPeer)
+		}
 	}
 	return false
 }
@@ -108,9 +115,11 @@ func (n *Node) CheckPeer(peer *pb.Peer) bool {
 func (n *Node) AddPeerElement(peer *pb.Peer) error {
 	if !n.isPeerSimilarToNode(peer) {
 		idOfPeer := GetIdOfPeer(peer)
+		n.peerMutex.Lock()
+		defer n.peerMutex.Unlock()
 		if oldPeerInterface, ok := n.PeerList.Get(idOfPeer); ok {
 			if oldPeer, ok2 := oldPeerInterface.(*pb.Peer); ok2 {
-				if oldPeer.Timestamp >= peer.Timestamp {
+				if oldPeer.GetTimestamp() >= peer.GetTimestamp() {
 					// New one is older than current peer info
 					return nil
 				}
-- 
2.43.0


From 617908b38d14543a136e013b892edcd4246b306f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:38 +0000
Subject: [PATCH 26/48] fix: the index of a dataset that became empty is
 dropped

---
 data/newsync.go | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/data/newsync.go b/data/newsync.go
index 4059954..00da23f 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -107,6 +107,23 @@ func (dt *Data) LoopDBMap(entryFunction func(entry *DBMapEntry) error) error {
 	return lastError
 }
 
+// replace puts a new index in place of the current one
+func (a *Annoyer) replace(annoyIndex annoyindex.AnnoyIndexAngular, dataIndex *[]*pb.Datum, fileName string) {
+	a.Lock()
+	if a.DataIndex != nil {
+		a.AnnoyIndex.Unload() // Not sure if this is needed
+		annoyindex.DeleteAnnoyIndexAngular(a.AnnoyIndex)
+	}
+	oldFile := a.BuildFileName
+	a.BuildFileName = fileName
+	a.AnnoyIndex = annoyIndex
+	a.DataIndex = dataIndex
+	a.Unlock()
+	if len(oldFile) > 0 {
+		os.Remove(oldFile)
+	}
+}
+
 func (dt *Data) Process(force bool) error {
 	diffMap, limit := dt.DataSourceDiffMap()
 	localInfo := dt.GetDataInfo()
@@ -234,19 +251,9 @@ func (dt *Data) Process(force bool) error {
 			elapsed := time.Since(start)
 			log.Printf("Building annoy index took %s", elapsed)
 			// log.Printf("Updating index. len: %v\n", len(newDataIndex))
-			dt.Annoyer.Lock()
-			if dt.Annoyer.DataIndex != nil {
-				dt.Annoyer.AnnoyIndex.Unload() // Not sure if this is needed
-				annoyindex.DeleteAnnoyIndexAngular(dt.Annoyer.AnnoyIndex)
-			}
-			oldFile := dt.Annoyer.BuildFileName
-			dt.Annoyer.BuildFileName = newTempFileName
-			dt.Annoyer.AnnoyIndex = newAnnoyIndex
-			dt.Annoyer.DataIndex = &newDataIndex
-			dt.Annoyer.Unlock()
-			if len(oldFile) > 0 {
-				os.Remove(oldFile)
-			}
+			dt.Annoyer.replace(newAnnoyIndex, &newDataIndex, newTempFileName)
+		} else if n == 0 {
+			dt.Annoyer.replace(nil, nil, "") // data of the old index is gone
 		}
 	}
 	dt.Timestamp = getCurrentTime()
-- 
2.43.0


From 7bc056d9fe1f1c5bcd81688ee323c91308126e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:41 +0000
Subject: [PATCH 27/48] fix: the index is only looked at with its lock held

---
 data/search.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data/search.go b/data/search.go
index 1f9a6cd..cd8a9c6 100644
--- a/data/search.go
+++ b/data/search.go
@@ -330,8 +330,8 @@ func (dt *Data) SearchAnnoy(datum *pb.Datum, config *pb.SearchConfig) *Collector
 	c.N = config.Limit
 	c.Filters = config.Filters
 	c.GroupFilters = config.GroupFilters
+	dt.Annoyer.RLock()
 	if dt.Annoyer.AnnoyIndex != nil && dt.Annoyer.DataIndex != nil && len(*(dt.Annoyer.DataIndex)) > 0 {
-		dt.Annoyer.RLock()
 		var result []int
 		var distances []float32
 		index := *(dt.Annoyer.DataIndex)
@@ -356,6 +356,7 @@ func (dt *Data) SearchAnnoy(datum *pb.Datum, config *pb.SearchConfig) *Collector
 		}
 		dt.Annoyer.RUnlock()
 	} else {
+		dt.Annoyer.RUnlock()
 		log.Println("Fallback to regular search")
 		// return c // Fallback is emptry list now
 		return dt.Search(datum, config, nil)
-- 
2.43.0


From 439c82f493713b544ec50be08115f3a2ee607f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:43 +0000
Subject: [PATCH 28/48] fix: the index does not read past the end of a shorter
 vector

---
 data/data.go    |  1 +
 data/newsync.go | 23 ++++++++++++++++++-----
 data/search.go  |  2 +-
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/data/data.go b/data/data.go
index a0e71df..399e2fd 100644
--- a/data/data.go
+++ b/data/data.go
@@ -30,6 +30,7 @@ type Annoyer struct {
 	DataIndex     *[]*pb.Datum
 	AnnoyIndex    annoyindex.AnnoyIndexAngular
 	BuildFileName string
+	Dimension     int
 }
 
 // Data represents a dataset with similar struture
diff --git a/data/newsync.go b/data/newsync.go
index 00da23f..ce8afb1 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -107,8 +107,18 @@ func (dt *Data) LoopDBMap(entryFunction func(entry *DBMapEntry) error) error {
 	return lastError
 }
 
+// fitVector returns a vector with the dimension of the index, which can not read any other
+func fitVector(vector []float32, dimension int) []float32 {
+	if len(vector) == dimension {
+		return vector
+	}
+	fitted := make([]float32, dimension)
+	copy(fitted, vector)
+	return fitted
+}
+
 // replace puts a new index in place of the current one
-func (a *Annoyer) replace(annoyIndex annoyindex.AnnoyIndexAngular, dataIndex *[]*pb.Datum, fileName string) {
+func (a *Annoyer) replace(annoyIndex annoyindex.AnnoyIndexAngular, dataIndex *[]*pb.Datum, fileName string, dimension int) {
 	a.Lock()
 	if a.DataIndex != nil {
 		a.AnnoyIndex.Unload() // Not sure if this is needed
@@ -118,6 +128,7 @@ func (a *Annoyer) replace(annoyIndex annoyindex.AnnoyIndexAngular, dataIndex *[]
 	a.BuildFileName = fileName
 	a.AnnoyIndex = annoyIndex
 	a.DataIndex = dataIndex
+	a.Dimension = dimension
 	a.Unlock()
 	if len(oldFile) > 0 {
 		os.Remove(oldFile)
@@ -192,6 +203,7 @@ func (dt *Data) Process(force bool) error {
 		newDataIndex := make([]*pb.Datum, max(1000, int(dt.N)))
 		var newAnnoyIndex annoyindex.AnnoyIndexAngular
 		var newTempFileName string
+		var newDimension int
 
 		err := dt.LoopDBMap(func(entry *DBMapEntry) error {
 			n++
@@ -214,7 +226,8 @@ func (dt *Data) Process(force bool) error {
 			if dt.Alive && i < len(newDataIndex) {
 				if newAnnoyIndex == nil {
 					// newAnnoyIndex = annoyindex.NewAnnoyIndexEuclidean(len(datum.Key.Feature))
-					newAnnoyIndex = annoyindex.NewAnnoyIndexAngular(len(entry.Datum.Key.Feature))
+					newDimension = len(entry.Datum.Key.Feature)
+					newAnnoyIndex = annoyindex.NewAnnoyIndexAngular(newDimension)
 					tmpfile, err := ioutil.TempFile("", "annoy")
 					if err == nil {
 						newTempFileName = tmpfile.Name()
@@ -222,7 +235,7 @@ func (dt *Data) Process(force bool) error {
 					}
 
 				}
-				newAnnoyIndex.AddItem(i, entry.Datum.Key.Feature)
+				newAnnoyIndex.AddItem(i, fitVector(entry.Datum.Key.Feature, newDimension))
 				newDataIndex[i] = entry.Datum
 			}
 			if len(diffMap) > 0 && (!dt.Alive || (insertionCounter < limit && rand.Float64() < fraction)) {
@@ -251,9 +264,9 @@ func (dt *Data) Process(force bool) error {
 			elapsed := time.Since(start)
 			log.Printf("Building annoy index took %s", elapsed)
 			// log.Printf("Updating index. len: %v\n", len(newDataIndex))
-			dt.Annoyer.replace(newAnnoyIndex, &newDataIndex, newTempFileName)
+			dt.Annoyer.replace(newAnnoyIndex, &newDataIndex, newTempFileName, newDimension)
 		} else if n == 0 {
-			dt.Annoyer.replace(nil, nil, "") // data of the old index is gone
+			dt.Annoyer.replace(nil, nil, "", 0) // data of the old index is gone
 		}
 	}
 	dt.Timestamp = getCurrentTime()
diff --git a/data/search.go b/data/search.go
index cd8a9c6..0aa87fd 100644
--- a/data/search.go
+++ b/data/search.go
@@ -335,7 +335,7 @@ func (dt *Data) SearchAnnoy(datum *pb.Datum, config *pb.SearchConfig) *Collector
 		var result []int
 		var distances []float32
 		index := *(dt.Annoyer.DataIndex)
-		dt.Annoyer.AnnoyIndex.GetNnsByVector(datum.Key.Feature, len(index), int(config.Limit), &result, &distances)
+		dt.Annoyer.AnnoyIndex.GetNnsByVector(fitVector(datum.Key.Feature, dt.Annoyer.Dimension), len(index), int(config.Limit), &result, &distances)
 		if result != nil {
 			counter := uint32(0)
 			for i := 0; i < len(result); i++ {
-- 
2.43.0


From 4580418011c092cef1eb43c094ebd041a8a9566d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:46 +0000
Subject: [PATCH 29/48] fix: incomplete requests are refused instead of
 crashing the node

---
 data/aggregator.go  | 2 +-
 data/insert.go      | 6 ++++++
 node/nodeservice.go | 6 ++++++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/data/aggregator.go b/data/aggregator.go
index 06b4313..f6189b4 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -63,7 +63,7 @@ func (a *Aggregator) BestScore(scoredDatum *pb.ScoredDatum) float64 {
 			isSet = true
 		}
 		for _, datum := range a.Context.GetDatum() {
-			newScore := a.ScoreFunc(scoredDatum.Datum.Key.Feature, datum.Key.Feature)
+			newScore := a.ScoreFunc(scoredDatum.Datum.Key.Feature, datum.GetKey().GetFeature())
 			if !isSet || a.IsNewScoredBetter(current, newScore) {
 				current = newScore
 				isSet = true
diff --git a/data/insert.go b/data/insert.go
index a7b13dc..0a38d54 100644
--- a/data/insert.go
+++ b/data/insert.go
@@ -12,6 +12,12 @@ func (dt *Data) Insert(datum *pb.Datum, config *pb.InsertConfig) error {
 	if dt.Config != nil && !dt.Config.NoTarget && dt.N >= dt.Config.TargetN {
 		return errors.New("Number of elements is over the target")
 	}
+	if datum.GetKey() == nil {
+		return errors.New("Datum has no key")
+	}
+	if datum.Value == nil {
+		datum.Value = &pb.DatumValue{}
+	}
 	if dt.Initialized == false {
 		dt.InitData()
 	}
diff --git a/node/nodeservice.go b/node/nodeservice.go
index d31f0e1..d372e09 100644
--- a/node/nodeservice.go
+++ b/node/nodeservice.go
@@ -120,6 +120,9 @@ func (n *Node) GetDataInfo(ctx context.Context, getDataRequest *pb.GetDataReques
 
 func (n *Node) SearchStream(searchRequest *pb.SearchRequest, stream pb.VeriService_SearchStreamServer) error {
 	config := searchRequest.GetConfig()
+	if config == nil {
+		return errors.New("Search config is missing")
+	}
 	uid := config.GetUuid()
 	if uid == "" {
 		newUuid, err := uuid.NewRandom()
@@ -133,6 +136,9 @@ func (n *Node) SearchStream(searchRequest *pb.SearchRequest, stream pb.VeriServi
 	// The origin records its own queries too, they may come back.
 	datumList := make([]*pb.Datum, 0, len(searchRequest.GetDatum()))
 	for _, datum := range searchRequest.GetDatum() {
+		if datum.GetKey() == nil {
+			return errors.New("Datum has no key")
+		}
 		keyByte, err := data.GetKeyAsBytes(datum)
 		if err != nil {
 			return err
-- 
2.43.0


From 3cb781ef58f8b73ac4effa2cdb71031e29431100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:49 +0000
Subject: [PATCH 30/48] fix: closed connections in the pool do not make a
 reachable peer unreachable

---
 util/connpool.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/util/connpool.go b/util/connpool.go
index 4d48f1d..413cba2 100644
--- a/util/connpool.go
+++ b/util/connpool.go
@@ -131,8 +131,9 @@ func (cp *ConnectionPool) Get() *Connection {
 }
 
 func (cp *ConnectionPool) GetWithRetry(count int) *Connection {
-	if count > 3 {
-		return nil
+	if count > 3 { // a closed connection can be in the pool several times
+		conn, _ := cp.Pool.New().(*Connection)
+		return conn
 	}
 	connectionInterface := cp.Pool.Get()
 	if connectionInterface == nil {
-- 
2.43.0


From 450acdf78530acb197c2de3e2528d1e079d9ac14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:52 +0000
Subject: [PATCH 31/48] fix: a source that is still announced does not expire

---
 data/data.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data/data.go b/data/data.go
index 399e2fd..3814a04 100644
--- a/data/data.go
+++ b/data/data.go
@@ -266,7 +266,8 @@ func (dt *Data) AddSource(dataSource DataSource) error {
 	if dt.Sources == nil {
 		return errors.New("Sources is still nil")
 	}
-	return dt.Sources.Add(dataSource.GetID(), dataSource, cache.DefaultExpiration)
+	dt.Sources.Set(dataSource.GetID(), dataSource, cache.DefaultExpiration) // renews a known source
+	return nil
 }
 
 func (dt *Data) GetID() string {
-- 
2.43.0


From f4623d03b60d7c8d980e10f0d231095629b7d8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:15 +0000
Subject: [PATCH 32/48] fix: removing a dataset does not remove a new one with
 the same name

---
 data/dataset.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/data/dataset.go b/data/dataset.go
index 4bd175f..e1fadc9 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -21,7 +21,8 @@ type Dataset struct {
 	Path     string
 	DataPath string
 
-	saveMutex sync.Mutex
+	saveMutex   sync.Mutex
+	removeMutex sync.Mutex
 }
 
 func closeData(key string, value interface{}) {
@@ -148,11 +149,20 @@ func (dts *Dataset) Delete(name string) error {
 	if data, ok := item.(*Data); ok {
 		data.Close()
 	}
-	dts.DataList.Delete(name)
+	dts.remove(name, item)
 	go dts.SaveIndex()
 	return nil
 }
 
+// remove drops a closed dataset, unless there is already a new one with the same name
+func (dts *Dataset) remove(name string, item interface{}) {
+	dts.removeMutex.Lock()
+	defer dts.removeMutex.Unlock()
+	if current, ok := dts.DataList.Get(name); ok && current == item {
+		dts.DataList.Delete(name)
+	}
+}
+
 func (dts *Dataset) List() []string {
 	sourceList := dts.DataList.Items()
 	keys := make([]string, 0, len(sourceList))
@@ -203,19 +213,19 @@ func (dts *Dataset) LoadIndex() error {
 
 func (dts *Dataset) ReloadRuns() error {
 	itemList := dts.DataList.Items()
-	removeList := make([]string, 0, len(itemList))
+	removeList := make(map[string]*Data, len(itemList))
 	for key, itemInterface := range itemList {
 		if item, ok := itemInterface.Object.(*Data); ok {
 			if item.CheckIfActive() || !item.closeIfEmpty() {
 				go item.Run()
 			} else {
 				item.Close()
-				removeList = append(removeList, key)
+				removeList[key] = item
 			}
 		}
 	}
-	for _, key := range removeList {
-		dts.DataList.Delete(key)
+	for key, item := range removeList {
+		dts.remove(key, item)
 	}
 	return nil
 }
-- 
2.43.0


From b3fcd933d082f6419ba24f74244bdf8bc08ee6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:38 +0000
Subject: [PATCH 33/48] fix: a huge result limit does not crash the node

The limit is 64 bit unsigned; as an int it can be negative, and the result
list was then cut at an index out of range.
---
 data/aggregator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/aggregator.go b/data/aggregator.go
index f6189b4..1cab8dd 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -160,7 +160,7 @@ func (a *Aggregator) Result() []*pb.ScoredDatum {
 		}
 		return agg.Result()
 	} else {
-		if a.Config.ResultLimit > 0 && len(a.List) > int(a.Config.ResultLimit) {
+		if a.Config.ResultLimit > 0 && uint64(len(a.List)) > a.Config.ResultLimit {
 			return a.List[:a.Config.ResultLimit]
 		}
 		return a.List
-- 
2.43.0


From 92580ade0bd8ee77049698e8a3b6a5b52322841c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:50 +0000
Subject: [PATCH 34/48] fix: a huge limit does not make the node allocate
 gigabytes

The limit is only an upper bound: with the largest one a search asked for
34 GB at once, which ends the process.
---
 data/search.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/search.go b/data/search.go
index 0aa87fd..7a9296a 100644
--- a/data/search.go
+++ b/data/search.go
@@ -323,7 +323,7 @@ func (dt *Data) SearchAnnoy(datum *pb.Datum, config *pb.SearchConfig) *Collector
 		config = DefaultSearchConfig()
 	}
 	c := &Collector{}
-	c.List = make([]*pb.ScoredDatum, 0, config.Limit)
+	c.List = []*pb.ScoredDatum{}
 	c.DatumKey = datum.Key
 	c.ScoreFunc = GetVectorComparisonFunction(config.ScoreFuncName)
 	c.HigherIsBetter = config.HigherIsBetter
@@ -372,7 +372,7 @@ func (dt *Data) Search(datum *pb.Datum, config *pb.SearchConfig, c *Collector) *
 			config = DefaultSearchConfig()
 		}
 		c = &Collector{}
-		c.List = make([]*pb.ScoredDatum, 0, config.Limit)
+		c.List = []*pb.ScoredDatum{}
 		c.DatumKey = datum.Key
 		c.ScoreFunc = GetVectorComparisonFunction(config.ScoreFuncName)
 		c.HigherIsBetter = config.HigherIsBetter
-- 
2.43.0


From 9b7e69ef162d0a42cf80a9ec8d9bb98028f96286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:55 +0000
Subject: [PATCH 35/48] fix: a huge timeout is not taken for none

As a duration it overflowed, and the search ended at once with no result.
---
 data/search.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/data/search.go b/data/search.go
index 7a9296a..51883e8 100644
--- a/data/search.go
+++ b/data/search.go
@@ -3,6 +3,7 @@ package data
 import (
 	"encoding/json"
 	"log"
+	"math"
 	"sort"
 	"strings"
 	"sync"
@@ -172,12 +173,20 @@ func discardResults(scoredDatumStream <-chan *pb.ScoredDatum, done <-chan struct
 	}
 }
 
+// timeoutDuration converts a timeout in milliseconds, the longest duration stands for longer ones.
+func timeoutDuration(timeout uint64) time.Duration {
+	if timeout > uint64(math.MaxInt64/time.Millisecond) {
+		return math.MaxInt64
+	}
+	return time.Duration(timeout) * time.Millisecond
+}
+
 // AggregatedSearch searches and merges other resources
 func (dt *Data) AggregatedSearch(datum *pb.Datum, scoredDatumStreamOutput chan<- *pb.ScoredDatum, upperWaitGroup *sync.WaitGroup, config *pb.SearchConfig) error {
 	queryKey := GetSearchKey(datum, config)
 	// The caller stops listening after its own timeout, answer before that.
 	// The config is shared with the other queries of a search, it can not be changed in place.
-	duration := time.Duration(float64(config.Timeout) * 0.9 * float64(time.Millisecond))
+	duration := timeoutDuration(config.Timeout) / 10 * 9
 	timeLimit := time.After(duration)
 	config = proto.Clone(config).(*pb.SearchConfig)
 	config.Timeout = uint64(float64(config.Timeout) * 0.9) // Decrase timeout for downstream
@@ -271,7 +280,7 @@ func CloneResult(result []*pb.ScoredDatum) []*pb.ScoredDatum {
 
 // MultiAggregatedSearch searches and merges other resources
 func (dt *Data) MultiAggregatedSearch(datumList []*pb.Datum, config *pb.SearchConfig, context *pb.SearchContext) ([]*pb.ScoredDatum, error) {
-	duration := time.Duration(config.Timeout) * time.Millisecond
+	duration := timeoutDuration(config.Timeout)
 	timeLimit := time.After(duration)
 	// Search Start
 	scoredDatumStream := make(chan *pb.ScoredDatum, 100)
-- 
2.43.0


From d221460ab5fb7850177a32aa40bd7eb16932985b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:30 +0000
Subject: [PATCH 36/48] fix: a dataset that is in use does not expire

Get renews the retention, but IncrementExpiration of the cache has no
effect: a dataset and its data were dropped two weeks after its creation
however much it was used.
---
 data/dataset.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/data/dataset.go b/data/dataset.go
index e1fadc9..1d3c41a 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -23,6 +23,7 @@ type Dataset struct {
 
 	saveMutex   sync.Mutex
 	removeMutex sync.Mutex
+	addMutex    sync.Mutex
 }
 
 func closeData(key string, value interface{}) {
@@ -72,7 +73,7 @@ func (dts *Dataset) Get(name string) (*Data, error) {
 		return dts.GetOrCreateIfNotExists(GetDefaultConfig(name))
 	}
 	if data, ok := item.(*Data); ok {
-		dts.DataList.IncrementExpiration(name, GetRetention(data.GetConfig().Retention))
+		dts.renew(name, item, GetRetention(data.GetConfig().Retention))
 		return data, nil
 	}
 	return nil, errors.Errorf("Data %v is currupt", name)
@@ -116,7 +117,9 @@ func (dts *Dataset) createIfNotExists(config *pb.DataConfig, save bool) error {
 	preData := NewPreData(config, dts.DataPath)
 	retention := GetRetention(config.Retention)
 	// log.Printf("Data %v Retention: %v Version: %v\n", config.Name, retention, config.Version)
+	dts.addMutex.Lock()
 	err := dts.DataList.Add(config.Name, preData, retention)
+	dts.addMutex.Unlock()
 	if err == nil {
 		if save {
 			go dts.SaveIndex()
@@ -163,6 +166,15 @@ func (dts *Dataset) remove(name string, item interface{}) {
 	}
 }
 
+// renew starts the retention of a dataset again. IncrementExpiration of the cache has no effect.
+func (dts *Dataset) renew(name string, item interface{}, retention time.Duration) {
+	dts.addMutex.Lock() // no new dataset with the same name in between
+	defer dts.addMutex.Unlock()
+	if current, ok := dts.DataList.Get(name); ok && current == item {
+		dts.DataList.Replace(name, item, retention)
+	}
+}
+
 func (dts *Dataset) List() []string {
 	sourceList := dts.DataList.Items()
 	keys := make([]string, 0, len(sourceList))
-- 
2.43.0


From e51131baa6a6267ceddc1da5ac6f4f232ee1ded4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:16 +0000
Subject: [PATCH 37/48] fix: a very long retention does not overflow into a
 short one

---
 data/dataset.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/data/dataset.go b/data/dataset.go
index 1d3c41a..2eb28bd 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"log"
+	"math"
 	"os"
 	"path"
 	"sync"
@@ -64,6 +65,9 @@ func GetRetention(retention uint64) time.Duration {
 	if retention == 0 {
 		return time.Duration(14*24) * time.Hour
 	}
+	if retention > uint64(math.MaxInt64/time.Second)/2 { // longer than the cache can count
+		return cache.NoExpiration
+	}
 	return time.Duration(retention) * time.Second
 }
 
-- 
2.43.0


From d8e58b61bc0713f79c4f5057b46316bf03054001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:08 +0000
Subject: [PATCH 38/48] fix: the score of a group is not replaced by the
 context score of its best member

---
 data/aggregator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/aggregator.go b/data/aggregator.go
index 1cab8dd..1f7fba7 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -153,7 +153,7 @@ func (a *Aggregator) Insert(scoredDatum *pb.ScoredDatum) error {
 func (a *Aggregator) Result() []*pb.ScoredDatum {
 	if a.Grouped {
 		groupMap := a.DeDuplicationMap.Items()
-		agg := NewAggrator(a.Config, false, a.Context)
+		agg := NewAggrator(a.Config, false, nil) // scores of the members already include the context
 		for _, groupAggObject := range groupMap {
 			groupAgg := groupAggObject.Object.(AggregatorInterface)
 			agg.Insert(groupAgg.One())
-- 
2.43.0


From 524b6c7e51392a3224da06a801c7def8bb582d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:52 +0000
Subject: [PATCH 39/48] fix: the average of vectors of different lengths keeps
 the shorter ones

---
 data/util.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/data/util.go b/data/util.go
index 213a37e..7c049d5 100644
--- a/data/util.go
+++ b/data/util.go
@@ -17,7 +17,9 @@ func CalculateAverage(avg []float32, p []float32, n float32) []float32 {
 		return p
 	}
 	if len(avg) < len(p) {
-		avg = make([]float32, len(p))
+		longer := make([]float32, len(p))
+		copy(longer, avg)
+		avg = longer
 	}
 	for i := 0; i < len(p); i++ {
 		avg[i] += p[i] / n
-- 
2.43.0


From a0a5f22514730f1466772b864571b6cfdfd0ec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:16 +0000
Subject: [PATCH 40/48] fix: data that two peers hold is not lost when both
 hand it to each other at the same time

---
 data/newsync.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data/newsync.go b/data/newsync.go
index ce8afb1..0dafa08 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -54,11 +54,12 @@ func (dt *Data) InsertBDMap(datum *pb.Datum, config *pb.InsertConfig) error {
 			expired := oldEntry.ExprireAt != 0 && oldEntry.ExprireAt <= time.Now().Unix()
 			if !expired && bytes.Compare(valueByte, oldValueByte) == 0 && CloseEnough(entry.ExprireAt, oldEntry.ExprireAt) {
 				isNewEntry = false
+				entry.ExprireAt = oldEntry.ExprireAt
 			}
 		}
 	}
+	dt.DBMap.Store(mapKey, entry) // also if equal: the old one may be about to leave for the peer that sent this one
 	if isNewEntry {
-		dt.DBMap.Store(mapKey, entry)
 		atomic.AddUint64(&(dt.RecentInsertCount), 1)
 	}
 	return nil
-- 
2.43.0


From cba58c5baee3b759e95cd6ae3ed53a3cbf51e9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:19 +0000
Subject: [PATCH 41/48] fix: an answer of a peer without a datum or key does
 not crash a search

---
 data/aggregator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/data/aggregator.go b/data/aggregator.go
index 1f7fba7..bfbae6c 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -1,6 +1,7 @@
 package data
 
 import (
+	"errors"
 	"sort"
 	"time"
 
@@ -115,6 +116,9 @@ func (a *Aggregator) removeFromList(keyString string) {
 }
 
 func (a *Aggregator) Insert(scoredDatum *pb.ScoredDatum) error {
+	if scoredDatum.GetDatum().GetKey() == nil { // peers may answer anything
+		return errors.New("Datum has no key")
+	}
 	scoredDatum.Score = a.BestScore(scoredDatum)
 	if a.Grouped {
 		keyString := util.EncodeToString(scoredDatum.Datum.Key.GroupLabel)
-- 
2.43.0


From 726418bdd9b61082aeb33e0aaf280dd5d0064901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:50 +0000
Subject: [PATCH 42/48] fix: a server that can not listen does not delete the
 configured data directory

---
 server/veriserviceserver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/veriserviceserver.go b/server/veriserviceserver.go
index 429ff0d..fd14d36 100644
--- a/server/veriserviceserver.go
+++ b/server/veriserviceserver.go
@@ -53,9 +53,9 @@ func RunServer(configMap map[string]interface{}) {
 		if err != nil {
 			log.Fatal(err)
 		}
+		defer os.RemoveAll(directory) // only the temporary one, a configured one belongs to the user
 	}
 	os.MkdirAll(directory, os.ModePerm)
-	defer os.RemoveAll(directory)
 	broadcast := configMap["broadcast"].(string)
 	broadcastAddresses := make([]string, 0)
 	if len(broadcast) > 0 {
-- 
2.43.0


From e1bf175080fb495a76249543d514e565930e14d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:34 +0000
Subject: [PATCH 43/48] fix: a search waits as long as its timeout for the
 answer of a peer

---
 node/datasourceclient.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/node/datasourceclient.go b/node/datasourceclient.go
index a3cfc9e..70a7d97 100644
--- a/node/datasourceclient.go
+++ b/node/datasourceclient.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"log"
+	"math"
 	"sync"
 	"time"
 
@@ -30,7 +31,13 @@ type DataSourceClient struct {
 
 func (dcs *DataSourceClient) StreamSearch(datum *pb.Datum, scoredDatumStream chan<- *pb.ScoredDatum, queryWaitGroup *sync.WaitGroup, config *pb.SearchConfig) error {
 	defer queryWaitGroup.Done()
-	clientCtx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
+	timeout := 10 * time.Second
+	if ms := config.GetTimeout(); ms > uint64(math.MaxInt64/time.Millisecond) {
+		timeout = math.MaxInt64
+	} else if searchTimeout := time.Duration(ms) * time.Millisecond; searchTimeout > timeout {
+		timeout = searchTimeout // the search waits longer for an answer
+	}
+	clientCtx, cancel := context.WithTimeout(context.Background(), timeout)
 	defer cancel()
 	conn := dcs.ConnectionCache.Get(dcs.IdOfPeer)
 	if conn == nil {
-- 
2.43.0


From a736da3b783671c82891e1a3ec9f8d61de201559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:56 +0000
Subject: [PATCH 44/48] fix: a datum that expires while it is prepared for a
 peer is not sent with an endless time to live

---
 data/sync.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/sync.go b/data/sync.go
index 0cf6ba3..b72c5dc 100644
--- a/data/sync.go
+++ b/data/sync.go
@@ -24,8 +24,8 @@ type InsertStreamCollector struct {
 
 func InsertConfigFromExpireAt(expiresAt uint64) *pb.InsertConfig {
 	var timeLeftInSeconds uint64
-	if expiresAt > 0 {
-		timeLeftInSeconds = expiresAt - uint64(getCurrentTime())
+	if now := uint64(getCurrentTime()); expiresAt > now { // it may have expired in the meantime
+		timeLeftInSeconds = expiresAt - now
 	} else {
 		timeLeftInSeconds = 0
 	}
-- 
2.43.0


From 0ffcc65e341401401baf665065d02076cecfd159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:13 +0000
Subject: [PATCH 45/48] fix: a use in the last moment of its retention does not
 go to a dataset that is already gone

---
 data/dataset.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/data/dataset.go b/data/dataset.go
index 2eb28bd..7a12de9 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -77,7 +77,9 @@ func (dts *Dataset) Get(name string) (*Data, error) {
 		return dts.GetOrCreateIfNotExists(GetDefaultConfig(name))
 	}
 	if data, ok := item.(*Data); ok {
-		dts.renew(name, item, GetRetention(data.GetConfig().Retention))
+		if !dts.renew(name, item, GetRetention(data.GetConfig().Retention)) { // its retention ended in the meantime
+			return dts.GetOrCreateIfNotExists(data.GetConfig())
+		}
 		return data, nil
 	}
 	return nil, errors.Errorf("Data %v is currupt", name)
@@ -171,12 +173,13 @@ func (dts *Dataset) remove(name string, item interface{}) {
 }
 
 // renew starts the retention of a dataset again. IncrementExpiration of the cache has no effect.
-func (dts *Dataset) renew(name string, item interface{}, retention time.Duration) {
+func (dts *Dataset) renew(name string, item interface{}, retention time.Duration) bool {
 	dts.addMutex.Lock() // no new dataset with the same name in between
 	defer dts.addMutex.Unlock()
 	if current, ok := dts.DataList.Get(name); ok && current == item {
-		dts.DataList.Replace(name, item, retention)
+		return dts.DataList.Replace(name, item, retention) == nil
 	}
+	return false
 }
 
 func (dts *Dataset) List() []string {
-- 
2.43.0


From 1fa180e1d1818012d084e746c0e6af8e33ae90fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:15 +0000
Subject: [PATCH 46/48] fix: the result limit applies to the final result,
 after context and groups

---
 data/search.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/data/search.go b/data/search.go
index 51883e8..3c2640d 100644
--- a/data/search.go
+++ b/data/search.go
@@ -190,6 +190,7 @@ func (dt *Data) AggregatedSearch(datum *pb.Datum, scoredDatumStreamOutput chan<-
 	timeLimit := time.After(duration)
 	config = proto.Clone(config).(*pb.SearchConfig)
 	config.Timeout = uint64(float64(config.Timeout) * 0.9) // Decrase timeout for downstream
+	config.ResultLimit = 0                                 // It applies to the final result, after the context and the groups
 	if dt.QueryCache == nil {
 		dt.InitData()
 	}
-- 
2.43.0


From 72af3ba5b30eeb26e4f60102b0504714561df53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:41 +0000
Subject: [PATCH 47/48] fix: groups are made once, of the members from all
 peers, so a replica does not count twice

---
 data/search.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/data/search.go b/data/search.go
index 3c2640d..5be614f 100644
--- a/data/search.go
+++ b/data/search.go
@@ -191,6 +191,7 @@ func (dt *Data) AggregatedSearch(datum *pb.Datum, scoredDatumStreamOutput chan<-
 	config = proto.Clone(config).(*pb.SearchConfig)
 	config.Timeout = uint64(float64(config.Timeout) * 0.9) // Decrase timeout for downstream
 	config.ResultLimit = 0                                 // It applies to the final result, after the context and the groups
+	config.GroupLimit = 0                                  // Groups are made of the members from all sources, a source can not combine its own
 	if dt.QueryCache == nil {
 		dt.InitData()
 	}
-- 
2.43.0


From a3c1ae34b7e1b2f710790a86630fcc417b7d447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:42 +0000
Subject: [PATCH 48/48] fix: a node keeps its own record out of its peer list
 after it has learnt another own address

---
 node/node.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/node/node.go b/node/node.go
index 38a5a1c..a7b38f0 100644
--- a/node/node.go
+++ b/node/node.go
@@ -215,7 +215,8 @@ func FirstDifferent(list0, list1 []string) string {
 func (n *Node) isPeerSimilarToNode(peer *pb.Peer) bool {
 	id0 := GetIdOfPeer(n.GetNodeInfo())
 	id1 := GetIdOfPeer(peer)
-	return id0 == id1
+	// also an own record from before another own address was known
+	return id0 == id1 || n.GetDifferentAddressOf(peer) == ""
 	// return checkSimilar(ids, n.KnownIds) || checkSimilar(ids, n.AdvertisedIds)
 }
 
-- 
2.43.0

