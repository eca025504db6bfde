From 3545cc10c24696c0deb4a6efed09e299bbbd357b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 01/48] fix: do not claim entry 0 of a new RFC 6962 log that
 has one entry

---
 go/cmd/ct-fetch/rfc6962.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/go/cmd/ct-fetch/rfc6962.go b/go/cmd/ct-fetch/rfc6962.go
index bf5acfe..a41dc6c 100644
--- a/go/cmd/ct-fetch/rfc6962.go
+++ b/go/cmd/ct-fetch/rfc6962.go
@@ -354,7 +354,9 @@ func (lw *LogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessage) e
 		// than `STH.Timestamp - LogState.MMD` will be added. This
 		// ensures that we will eventually cover the tail of a log that
 		// is no longer receiving new entries.
-		if lw.LogState.MaxEntry == lw.STH.TreeSize-1 {
+		// (A log that we have not ingested anything from also has
+		// MaxEntry = 0.)
+		if !lw.LogState.LastUpdateTime.IsZero() && lw.LogState.MaxEntry == lw.STH.TreeSize-1 {
 			err := lw.updateState(ctx, nil, lw.LogState.MinEntry, lw.STH.Timestamp, entryChan)
 			if err != nil {
 				glog.Errorf("[%s] Failed to update log state: %s", lw.Name(), err)
-- 
2.43.0


From 1144c1193e8c69354cbb9a00677b564a8e37e280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 02/48] fix: finish backfilling RFC 6962 logs when fewer than
 four entries are left

---
 go/cmd/ct-fetch/rfc6962.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/go/cmd/ct-fetch/rfc6962.go b/go/cmd/ct-fetch/rfc6962.go
index a41dc6c..5fc1918 100644
--- a/go/cmd/ct-fetch/rfc6962.go
+++ b/go/cmd/ct-fetch/rfc6962.go
@@ -342,7 +342,8 @@ func (lw *LogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessage) e
 			// JobSize.
 			firstIndex = lw.LogState.MinEntry - lw.JobSize
 		}
-		lastIndex = lw.LogState.MinEntry - 1
+		// Entry 0 can only be verified together with entry 1.
+		lastIndex = uint64Max(lw.LogState.MinEntry-1, 1)
 		glog.Infof("[%s] Running Backfill job %d %d", lw.Name(), firstIndex, lastIndex)
 	case Sleep:
 		// The coverage cutoff for CRLite filters is
@@ -399,9 +400,12 @@ func (lw *LogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessage) e
 		// Special case: the consistency proof with |oldSize| =
 		// 0 is empty. With |oldSize| = 1 (or |oldSize| = 2) it
 		// doesn't include a hash that depends on entry 0 (resp.
-		// 0 or 1). We ensured newSize > 3 when we assigned this
-		// worker its job, so we can use oldSize = 3.
+		// 0 or 1). We ensured that the tree size is > 3 when we
+		// assigned this worker its job, so we can use oldSize = 3
+		// and newSize > 3. Terms for entries beyond |lastIndex| are
+		// ignored below.
 		oldSize = 3
+		newSize = uint64Max(newSize, 4)
 	}
 	proof, err := lw.Client.GetSTHConsistency(ctx, oldSize, newSize)
 	if err != nil {
@@ -513,7 +517,7 @@ func (lw *LogWorker) updateState(ctx context.Context, newSubtree *CtLogSubtree,
 			return fmt.Errorf("Missing entries")
 		}
 	case Backfill:
-		if lw.LogState.MinEntry == newSubtree.Last+1 {
+		if newSubtree.First < lw.LogState.MinEntry && lw.LogState.MinEntry <= newSubtree.Last+1 {
 			lw.LogState.MinEntry = newSubtree.First
 		} else {
 			return fmt.Errorf("Missing entries")
-- 
2.43.0


From caafa2fd6c2dd4a4308022afee035140a8b90e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 03/48] fix: treat an empty get-entries response as an error
 instead of retrying at once forever

---
 go/cmd/ct-fetch/rfc6962.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/go/cmd/ct-fetch/rfc6962.go b/go/cmd/ct-fetch/rfc6962.go
index 5fc1918..bfc7070 100644
--- a/go/cmd/ct-fetch/rfc6962.go
+++ b/go/cmd/ct-fetch/rfc6962.go
@@ -656,6 +656,10 @@ func (lw *LogWorker) downloadCTRangeToChannel(ctx context.Context, verifier *CtL
 			return minTimestamp, maxTimestamp, err
 		}
 
+		if len(resp.Entries) == 0 {
+			return minTimestamp, maxTimestamp, fmt.Errorf("Empty get-entries response at index=%d", index)
+		}
+
 		for _, entry := range resp.Entries {
 			rawLogEntry, err := ct.RawLogEntryFromLeaf(int64(index), &entry)
 			if err != nil {
-- 
2.43.0


From 96a13c09b9674bcb8c6772f8e5af2cde40792bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 04/48] fix: do not mistake a failed read of a log state for a
 new log

---
 go/storage/certdatabase.go | 3 +++
 go/storage/mockcache.go    | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index b9d7a98..055be38 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -268,6 +268,9 @@ func (db *CertDatabase) GetLogState(aUrl *url.URL) (*types.CTLogState, error) {
 	if log != nil {
 		return log, cacheErr
 	}
+	if cacheErr != nil && cacheErr.Error() != EMPTY_QUEUE {
+		return nil, cacheErr
+	}
 
 	glog.Warningf("Allocating brand new log for %+v, cache err=%v", shortUrl, cacheErr)
 	return &types.CTLogState{
diff --git a/go/storage/mockcache.go b/go/storage/mockcache.go
index bbbc42a..7d42611 100644
--- a/go/storage/mockcache.go
+++ b/go/storage/mockcache.go
@@ -1,6 +1,7 @@
 package storage
 
 import (
+	"errors"
 	"crypto/rand"
 	"encoding/base64"
 	"encoding/json"
@@ -218,7 +219,7 @@ func (ec *MockRemoteCache) LoadLogState(shortUrl string) (*types.CTLogState, err
 	defer ec.mu.Unlock()
 	data, ok := ec.Data["log::"+shortUrl]
 	if !ok {
-		return nil, fmt.Errorf("Log state not found")
+		return nil, errors.New(EMPTY_QUEUE)
 	}
 	if len(data) != 1 {
 		return nil, fmt.Errorf("Unexpected number of log states")
-- 
2.43.0


From 0184b9bc53add5f43435eac643e51657a694d630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 05/48] fix: check that a tiled log serves the issuer
 certificate that was asked for

---
 go/cmd/ct-fetch/tiled.go | 7 +++++++
 go/storage/mockcache.go  | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/go/cmd/ct-fetch/tiled.go b/go/cmd/ct-fetch/tiled.go
index 86a6139..f0a6741 100644
--- a/go/cmd/ct-fetch/tiled.go
+++ b/go/cmd/ct-fetch/tiled.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"context"
+	"crypto/sha256"
 	"encoding/hex"
 	"fmt"
 	"math/rand"
@@ -139,6 +140,12 @@ func (lw TiledLogWorker) GetCertificate(ctx context.Context, fingerprint string)
 		return nil, nil
 	}
 
+	digest := sha256.Sum256(data)
+	if hex.EncodeToString(digest[:]) != fingerprint {
+		glog.Warningf("[%s] Issuer cert %s does not match its fingerprint", lw.Name(), fingerprint)
+		return nil, nil
+	}
+
 	cert, err = types.ParseCertificate(data)
 	if cert == nil {
 		return nil, fmt.Errorf("[%s] Fatal parsing error: fingerprint: %s error: %s", lw.Name(), fingerprint, err)
diff --git a/go/storage/mockcache.go b/go/storage/mockcache.go
index 7d42611..e4df7dd 100644
--- a/go/storage/mockcache.go
+++ b/go/storage/mockcache.go
@@ -1,10 +1,10 @@
 package storage
 
 import (
-	"errors"
 	"crypto/rand"
 	"encoding/base64"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"path/filepath" // used for glob-like matching in Keys
 	"sort"
-- 
2.43.0


From c7715f75d918f3a7fd25495e9cd551b79c336aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:53 +0000
Subject: [PATCH 06/48] fix: ingest entry 0 of tiled logs, and claim entries
 only after reading some

---
 go/cmd/ct-fetch/tiled.go | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/go/cmd/ct-fetch/tiled.go b/go/cmd/ct-fetch/tiled.go
index f0a6741..c23259d 100644
--- a/go/cmd/ct-fetch/tiled.go
+++ b/go/cmd/ct-fetch/tiled.go
@@ -30,6 +30,15 @@ type TiledLogWorker struct {
 	MetricKey    string
 }
 
+// nextTiledEntry returns the index of the first entry that has not been
+// ingested. MaxEntry is also zero when nothing has been ingested yet.
+func nextTiledEntry(logState *types.CTLogState) uint64 {
+	if logState.LastUpdateTime.IsZero() {
+		return 0
+	}
+	return logState.MaxEntry + 1
+}
+
 func NewTiledLogWorker(ctx context.Context, logObj *types.CTLogState, ctLogMeta *types.CTLogMetadata, issuerMap *map[string]*types.Certificate) (*TiledLogWorker, error) {
 	batchSize := *ctconfig.BatchSize
 
@@ -90,13 +99,14 @@ func NewTiledLogWorker(ctx context.Context, logObj *types.CTLogState, ctLogMeta
 	} else {
 		metrics.SetGauge([]string{metricKey, "coverage"}, float32(logObj.MaxEntry-logObj.MinEntry+1)/float32(checkpoint.Tree.N))
 
-		if logObj.MaxEntry+batchSize < uint64(checkpoint.Tree.N) {
+		nextEntry := nextTiledEntry(logObj)
+		if nextEntry+batchSize <= uint64(checkpoint.Tree.N) {
 			// There are many new entries to download.
 			task = Update
 		} else if time.Since(logObj.LastUpdateTime) < 10*time.Minute {
 			// There are few new entries, and we updated recently.
 			task = Sleep
-		} else if logObj.MaxEntry+1 < uint64(checkpoint.Tree.N) {
+		} else if nextEntry < uint64(checkpoint.Tree.N) {
 			// There is at least one new entry and we haven't
 			// downloaded anything recently.
 			task = ForceUpdate
@@ -259,6 +269,7 @@ func (lw *TiledLogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessa
 	minTimestamp := lw.LogState.MinTimestamp
 	maxTimestamp := lw.LogState.MaxTimestamp
 	maxEntry := lw.LogState.MaxEntry
+	nextEntry := nextTiledEntry(lw.LogState)
 
 	if lw.WorkOrder == RetryGetSTH {
 		lw.sleep(ctx)
@@ -275,7 +286,7 @@ func (lw *TiledLogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessa
 		// than `STH.Timestamp - LogState.MMD` will be added. This
 		// ensures that we will eventually cover the tail of a log that
 		// is no longer receiving new entries.
-		if lw.LogState.MaxEntry+1 == uint64(lw.Checkpoint.Tree.N) {
+		if nextEntry > 0 && nextEntry == uint64(lw.Checkpoint.Tree.N) {
 			maxTimestamp = lw.SthTimestamp
 			err := lw.updateState(ctx, maxEntry, minTimestamp, maxTimestamp, entryChan)
 			if err != nil {
@@ -291,21 +302,23 @@ func (lw *TiledLogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessa
 		return fmt.Errorf("Unexpected work order: %d", lw.WorkOrder)
 	}
 
-	// readLogEntries mutably captures lw, ctx, maxEntry, minTimestamp,
-	// and maxTimestamp.
+	// readLogEntries mutably captures lw, ctx, maxEntry, nextEntry,
+	// minTimestamp, and maxTimestamp.
 	//
 	// Return codes:
 	//   - (true, nil): success
 	//   - (false, nil): intermittent error, the TileLogWorker should sleep.
 	//   - (false, err): fatal error, log ingestion should halt.
 	readLogEntries := func() (bool, error) {
-		for i, entry := range lw.Client.Entries(ctx, lw.Checkpoint.Tree, int64(maxEntry+1)) {
+		firstEntry := nextEntry
+		for i, entry := range lw.Client.Entries(ctx, lw.Checkpoint.Tree, int64(nextEntry)) {
 			keepGoing, err := lw.storeLogEntry(ctx, entry, entryChan)
 			if !(keepGoing && err == nil) {
 				return keepGoing, err
 			}
 
 			maxEntry = uint64(i)
+			nextEntry = maxEntry + 1
 			minTimestamp = uint64Min(minTimestamp, uint64(entry.Timestamp))
 			maxTimestamp = uint64Max(maxTimestamp, uint64(entry.Timestamp))
 
@@ -318,13 +331,15 @@ func (lw *TiledLogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessa
 			}
 		}
 
-		err := lw.updateState(ctx, maxEntry, minTimestamp, maxTimestamp, entryChan)
-		if err != nil {
-			glog.Errorf("[%s] : Error saving log state %s", lw.Name(), err)
-			return false, err
+		if nextEntry > firstEntry {
+			err := lw.updateState(ctx, maxEntry, minTimestamp, maxTimestamp, entryChan)
+			if err != nil {
+				glog.Errorf("[%s] : Error saving log state %s", lw.Name(), err)
+				return false, err
+			}
 		}
 
-		err = lw.Client.Err()
+		err := lw.Client.Err()
 		if err != nil {
 			glog.Errorf("[%s] : Sunlight client error %s", lw.Name(), err)
 			return false, nil
-- 
2.43.0


From 9e9b85f4c4b4bac6a0dbbbbfed671cd5d56c773b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 07/48] fix: do not let ct-fetch exit before it has started its
 workers

---
 go/cmd/ct-fetch/ct-fetch.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/go/cmd/ct-fetch/ct-fetch.go b/go/cmd/ct-fetch/ct-fetch.go
index f2d6c71..907e3c7 100644
--- a/go/cmd/ct-fetch/ct-fetch.go
+++ b/go/cmd/ct-fetch/ct-fetch.go
@@ -87,12 +87,13 @@ func NewLogSyncEngine(db storage.CertDatabase) *LogSyncEngine {
 }
 
 func (ld *LogSyncEngine) StartDatabaseThread(ctx context.Context) {
+	ld.ThreadWaitGroup.Add(1)
 	go ld.insertCTWorker(ctx)
 }
 
-// Blocking function, run from a thread
+// Blocking function, run from a thread. The caller must have added the thread
+// to |ld.DownloaderWaitGroup|.
 func (ld *LogSyncEngine) SyncLog(ctx context.Context, enrolledLogs *EnrolledLogs, logMeta types.CTLogMetadata) error {
-	ld.DownloaderWaitGroup.Add(1)
 	defer ld.DownloaderWaitGroup.Done()
 
 	if err := ld.database.Migrate(&logMeta); err != nil {
@@ -215,7 +216,6 @@ func (ld *LogSyncEngine) tryUpdate(queue []storage.SetMemberWithExpiry, logState
 }
 
 func (ld *LogSyncEngine) insertCTWorker(ctx context.Context) {
-	ld.ThreadWaitGroup.Add(1)
 	defer ld.ThreadWaitGroup.Done()
 
 	healthStatusPeriod := time.Duration(15000+rand.Int63n(15000)) * time.Millisecond
@@ -464,9 +464,12 @@ func main() {
 	syncEngine.StartDatabaseThread(ctx)
 
 	// Sync with logs as they are enrolled
+	syncEngine.DownloaderWaitGroup.Add(1)
 	go func() {
+		defer syncEngine.DownloaderWaitGroup.Done()
 		for ctLog := range enrolledLogs.NewChan {
 			glog.Infof("[%s] Starting download.", ctLog.URL)
+			syncEngine.DownloaderWaitGroup.Add(1)
 			go syncEngine.SyncLog(ctx, enrolledLogs, ctLog)
 		}
 	}()
-- 
2.43.0


From 09fe41714cd3b6b43df2fce961623b3008c722f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 08/48] fix: compute expiry dates in UTC

A notAfter with a zone offset produced an expiry date in that zone, whose
identifier was the local hour.
---
 go/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/types.go b/go/types.go
index 8475b85..710cad3 100644
--- a/go/types.go
+++ b/go/types.go
@@ -454,7 +454,7 @@ type ExpDate struct {
 }
 
 func NewExpDateFromTime(t time.Time) ExpDate {
-	truncTime := t.Truncate(time.Hour)
+	truncTime := t.UTC().Truncate(time.Hour)
 	return ExpDate{
 		date:           truncTime,
 		lastGood:       truncTime.Add(-1 * time.Millisecond),
-- 
2.43.0


From bde2b50ac33110fd2d463d381825e376b1e66eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 09/48] fix: run at most one downloader per log

A log that was unenrolled and enrolled again before its downloader noticed got
a second downloader, and both updated the same log state.
---
 go/cmd/ct-fetch/ct-fetch.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/go/cmd/ct-fetch/ct-fetch.go b/go/cmd/ct-fetch/ct-fetch.go
index 907e3c7..954cc83 100644
--- a/go/cmd/ct-fetch/ct-fetch.go
+++ b/go/cmd/ct-fetch/ct-fetch.go
@@ -73,6 +73,7 @@ type LogSyncEngine struct {
 	entryChan           chan LogSyncMessage
 	lastUpdateTime      time.Time
 	lastUpdateMutex     *sync.RWMutex
+	logLocks            sync.Map // LogID -> *sync.Mutex
 }
 
 func NewLogSyncEngine(db storage.CertDatabase) *LogSyncEngine {
@@ -96,6 +97,15 @@ func (ld *LogSyncEngine) StartDatabaseThread(ctx context.Context) {
 func (ld *LogSyncEngine) SyncLog(ctx context.Context, enrolledLogs *EnrolledLogs, logMeta types.CTLogMetadata) error {
 	defer ld.DownloaderWaitGroup.Done()
 
+	// If the log was unenrolled and then enrolled again, its previous
+	// downloader may not have noticed. Only one may run at a time.
+	logLock, _ := ld.logLocks.LoadOrStore(logMeta.LogID, new(sync.Mutex))
+	logLock.(*sync.Mutex).Lock()
+	defer logLock.(*sync.Mutex).Unlock()
+	if ctx.Err() != nil {
+		return nil
+	}
+
 	if err := ld.database.Migrate(&logMeta); err != nil {
 		return err
 	}
-- 
2.43.0


From 04a1f09a5e754ad776f0f2383c075a83bcb2db1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 10/48] fix: do not commit from a partial listing of the cache
 or storage

The channel was closed before the listing error was acted on, in another
goroutine, so a commit could go on with, and publish coverage for, a partial
list. The fatal exit also left the commit lock held.
---
 go/storage/certdatabase.go | 55 +++++++++++++++++++++++++++-----------
 go/storage/rediscache.go   | 11 +++++---
 2 files changed, 46 insertions(+), 20 deletions(-)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index 055be38..4de16a4 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -155,14 +155,20 @@ func (db *CertDatabase) GetIssuerAndDatesFromCache() ([]types.IssuerDate, error)
 	// The cache stores sets of serial numbers in bins that are keyed by strings
 	// of the form "serials::<date>::<issuer id>".
 	allChan := make(chan string)
+	errChan := make(chan error, 1)
 	go func() {
-		err := db.cache.KeysToChan("serials::*", allChan)
-		if err != nil {
-			glog.Fatalf("Couldn't list from cache")
-		}
+		errChan <- db.cache.KeysToChan("serials::*", allChan)
 	}()
 
-	return db.GetIssuerAndDatesFromChannel(allChan)
+	issuerList, err := db.GetIssuerAndDatesFromChannel(allChan)
+	if err != nil {
+		return issuerList, err
+	}
+	// The channel is also closed when listing fails part-way.
+	if err := <-errChan; err != nil {
+		return []types.IssuerDate{}, fmt.Errorf("Couldn't list from cache: %s", err)
+	}
+	return issuerList, nil
 }
 
 func (db *CertDatabase) GetIssuerAndDatesFromStorage() ([]types.IssuerDate, error) {
@@ -180,11 +186,13 @@ func (db *CertDatabase) GetIssuerAndDatesFromStorage() ([]types.IssuerDate, erro
 	//      ...
 	//
 	allChan := make(chan string)
+	errChan := make(chan error, 1)
 	go func() {
 		defer close(allChan)
 		issuerDirs, err := os.ReadDir(db.serialsDir())
 		if err != nil {
-			glog.Fatal(err)
+			errChan <- err
+			return
 		}
 		for _, issuerDir := range issuerDirs {
 			issuerName := issuerDir.Name()
@@ -194,7 +202,8 @@ func (db *CertDatabase) GetIssuerAndDatesFromStorage() ([]types.IssuerDate, erro
 			}
 			serialFiles, err := os.ReadDir(issuerDirFull)
 			if err != nil {
-				glog.Fatal(err)
+				errChan <- err
+				return
 			}
 			for _, file := range serialFiles {
 				name := file.Name()
@@ -203,9 +212,17 @@ func (db *CertDatabase) GetIssuerAndDatesFromStorage() ([]types.IssuerDate, erro
 				}
 			}
 		}
+		errChan <- nil
 	}()
 
-	return db.GetIssuerAndDatesFromChannel(allChan)
+	issuerList, err := db.GetIssuerAndDatesFromChannel(allChan)
+	if err != nil {
+		return issuerList, err
+	}
+	if err := <-errChan; err != nil {
+		return []types.IssuerDate{}, err
+	}
+	return issuerList, nil
 }
 
 func (db *CertDatabase) removeExpiredSerialsFromStorage(t time.Time) error {
@@ -361,7 +378,7 @@ func (db *CertDatabase) GetSerialCacheKey(aExpDate types.ExpDate, aIssuer types.
 	return kc
 }
 
-func (db *CertDatabase) ReadEntriesFromCache(aExpDate types.ExpDate, aIssuer types.Issuer) map[string]struct{} {
+func (db *CertDatabase) ReadEntriesFromCache(aExpDate types.ExpDate, aIssuer types.Issuer) (map[string]struct{}, error) {
 	return db.List(db.GetSerialCacheKey(aExpDate, aIssuer))
 }
 
@@ -402,7 +419,10 @@ func (db *CertDatabase) ReadSerialsFromStorage(aExpDate types.ExpDate, aIssuer t
 }
 
 func (db *CertDatabase) moveOneBinOfCachedSerialsToStorage(aTmpDir string, aExpDate types.ExpDate, aIssuer types.Issuer, aCoverageCutoffMap *types.CoverageCutoffMap) error {
-	cachedEntries := db.ReadEntriesFromCache(aExpDate, aIssuer)
+	cachedEntries, err := db.ReadEntriesFromCache(aExpDate, aIssuer)
+	if err != nil {
+		return err
+	}
 	if len(cachedEntries) == 0 {
 		return nil
 	}
@@ -664,23 +684,26 @@ func (db *CertDatabase) RemoveMany(k *SerialCacheKey, aEntries []string) error {
 	return db.cache.SetRemove(k.ID(), aEntries)
 }
 
-func (db *CertDatabase) List(k *SerialCacheKey) map[string]struct{} {
+func (db *CertDatabase) List(k *SerialCacheKey) (map[string]struct{}, error) {
 	// Redis' scan methods regularly provide duplicates. The duplication
 	// happens at this level, pulling from SetToChan, so we make a hash-set
 	// here to de-duplicate when the memory impacts are the most minimal.
 	uniqueEntries := make(map[string]struct{})
 
 	strChan := make(chan string)
+	errChan := make(chan error, 1)
 	go func() {
-		err := db.cache.SetToChan(k.ID(), strChan)
-		if err != nil {
-			glog.Fatalf("Error obtaining list of known certificates: %v", err)
-		}
+		errChan <- db.cache.SetToChan(k.ID(), strChan)
 	}()
 
 	for str := range strChan {
 		uniqueEntries[str] = struct{}{}
 	}
 
-	return uniqueEntries
+	// The channel is also closed when listing fails part-way.
+	if err := <-errChan; err != nil {
+		return nil, fmt.Errorf("Error obtaining list of known certificates: %v", err)
+	}
+
+	return uniqueEntries, nil
 }
diff --git a/go/storage/rediscache.go b/go/storage/rediscache.go
index e2b1665..e03d55c 100644
--- a/go/storage/rediscache.go
+++ b/go/storage/rediscache.go
@@ -249,11 +249,9 @@ func (ec *RedisCache) LoadLogState(shortUrl string) (*types.CTLogState, error) {
 func (ec *RedisCache) LoadAllLogStates() ([]types.CTLogState, error) {
 	ctLogList := make([]types.CTLogState, 0)
 	keyChan := make(chan string)
+	errChan := make(chan error, 1)
 	go func() {
-		err := ec.KeysToChan("log::*", keyChan)
-		if err != nil {
-			glog.Fatalf("Couldn't list CT logs from cache: %s", err)
-		}
+		errChan <- ec.KeysToChan("log::*", keyChan)
 	}()
 
 	for entry := range keyChan {
@@ -268,6 +266,11 @@ func (ec *RedisCache) LoadAllLogStates() ([]types.CTLogState, error) {
 		}
 	}
 
+	// The channel is also closed when listing fails part-way.
+	if err := <-errChan; err != nil {
+		return nil, fmt.Errorf("Couldn't list CT logs from cache: %s", err)
+	}
+
 	return ctLogList, nil
 }
 
-- 
2.43.0


From fcb9fa631ccc1cda484cae90d9f02d0109f67446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 11/48] fix: report failure to write a serial list or epoch
 file

The flush error was dropped, so on a full disk a truncated list replaced the
stored one and the serials were then removed from the cache.
---
 go/storage/certdatabase.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index 4de16a4..2867ab9 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -32,7 +32,6 @@ func serialListExpiryLine(aExpDate types.ExpDate) string {
 
 func WriteSerialList(w io.Writer, aExpDate types.ExpDate, aIssuer types.Issuer, aSerials []types.Serial) error {
 	writer := bufio.NewWriter(w)
-	defer writer.Flush()
 
 	// Write the expiry date for this collection of serial numbers as a unix
 	// timestamp encoded as a zero-padded 16 digit hex string. The expiry
@@ -56,7 +55,7 @@ func WriteSerialList(w io.Writer, aExpDate types.ExpDate, aIssuer types.Issuer,
 		}
 	}
 
-	return nil
+	return writer.Flush()
 }
 
 type CertDatabase struct {
@@ -642,7 +641,11 @@ func (db *CertDatabase) Commit(aProofOfLock string) error {
 		glog.Warningf("Failed to increment epochs: %s", err)
 		return nil
 	}
-	writer.Flush()
+	err = writer.Flush()
+	if err != nil {
+		glog.Warningf("Failed to increment epochs: %s", err)
+		return nil
+	}
 
 	err = db.cache.NextEpoch()
 	if err != nil {
-- 
2.43.0


From c67c2b191214879516f559d96afec9b8260a8789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 12/48] fix: read serial lists with very long lines, and report
 corrupt ones

A list with a serial of 32 KiB could be written but never read again, and a
corrupt list crashed the program while it held the commit lock.
---
 go/storage/certdatabase.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index 2867ab9..c49e2f5 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -2,6 +2,7 @@ package storage
 
 import (
 	"bufio"
+	"encoding/hex"
 	"encoding/json"
 	"errors"
 	"fmt"
@@ -394,6 +395,9 @@ func (db *CertDatabase) ReadSerialsFromStorage(aExpDate types.ExpDate, aIssuer t
 	defer fd.Close()
 
 	scanner := bufio.NewScanner(fd)
+	// A serial number can be almost as long as a certificate, and those
+	// are shorter than 2^24 bytes.
+	scanner.Buffer(nil, 1<<25+2)
 
 	// The first line encodes the expiry date of the serials in the file
 	if scanner.Scan() {
@@ -407,7 +411,11 @@ func (db *CertDatabase) ReadSerialsFromStorage(aExpDate types.ExpDate, aIssuer t
 	var serialList []types.Serial
 	for scanner.Scan() {
 		line := scanner.Text()
-		serialList = append(serialList, types.NewSerialFromHex(line))
+		serial, err := hex.DecodeString(line)
+		if err != nil {
+			return nil, fmt.Errorf("Corrupt serial list %s: %s", path, err)
+		}
+		serialList = append(serialList, types.NewSerialFromBytes(serial))
 	}
 
 	if err := scanner.Err(); err != nil {
-- 
2.43.0


From ca3af949ff4297345b4482ada8ed6833b5174181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 13/48] fix: release the commit lock atomically

A holder whose lock expired between the check and the deletion freed the lock
of the next holder.
---
 go/storage/rediscache.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/go/storage/rediscache.go b/go/storage/rediscache.go
index e03d55c..fac0aae 100644
--- a/go/storage/rediscache.go
+++ b/go/storage/rediscache.go
@@ -29,6 +29,12 @@ const NO_EXPIRATION time.Duration = 0
 const COMMIT_LOCK_KEY string = "lock::commit"
 const COMMIT_LOCK_EXPIRATION time.Duration = 4 * time.Hour
 
+var releaseCommitLockScript = redis.NewScript(`
+if redis.call("GET", KEYS[1]) == ARGV[1] then
+	return redis.call("DEL", KEYS[1])
+end
+return 0`)
+
 const EPOCH_KEY string = "epoch"
 
 type RedisCache struct {
@@ -292,9 +298,11 @@ func (ec *RedisCache) AcquireCommitLock() (*string, error) {
 }
 
 func (ec *RedisCache) ReleaseCommitLock(aToken string) {
-	hasLock, err := ec.HasCommitLock(aToken)
-	if err == nil && hasLock {
-		ec.client.Del(COMMIT_LOCK_KEY)
+	// The lock may expire and be acquired by someone else between a GET and
+	// a DEL, so compare and delete in one step.
+	err := releaseCommitLockScript.Run(ec.client, []string{COMMIT_LOCK_KEY}, aToken).Err()
+	if err != nil {
+		glog.Warningf("Failed to release commit lock: %s", err)
 	}
 }
 
-- 
2.43.0


From c587dd7790425e50df527e037248896d2eb3772a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 14/48] fix: detect that the cache was lost after the first
 commit

The first commit writes epoch 0, so an empty cache looked as if there had been
no commit yet, and the next commit replaced the stored coverage with nothing.
---
 go/storage/certdatabase.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index c49e2f5..184eeb1 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -96,7 +96,11 @@ func (db *CertDatabase) EnsureCacheIsConsistent() error {
 		return err
 	}
 
-	if cacheEpoch == storageEpoch+1 || (cacheEpoch == 0 && storageEpoch == 0) {
+	consistent, err := db.epochsAreConsistent(cacheEpoch, storageEpoch)
+	if err != nil {
+		return err
+	}
+	if consistent {
 		return nil
 	}
 
@@ -553,6 +557,25 @@ func (db *CertDatabase) getStorageEpoch() (uint64, error) {
 	return 0, nil
 }
 
+// The cache is one epoch ahead of storage, except that there are no epochs yet
+// before the first commit. The first commit also leaves storage in epoch 0, but
+// then a cache in epoch 0 is one that was lost.
+func (db *CertDatabase) epochsAreConsistent(aCacheEpoch, aStorageEpoch uint64) (bool, error) {
+	if aCacheEpoch != 0 || aStorageEpoch != 0 {
+		return aCacheEpoch == aStorageEpoch+1, nil
+	}
+	for _, path := range []string{db.epochFile(), db.coverageFile()} {
+		_, err := os.Stat(path)
+		if err == nil {
+			return false, nil
+		}
+		if !errors.Is(err, os.ErrNotExist) {
+			return false, err
+		}
+	}
+	return true, nil
+}
+
 func (db *CertDatabase) Commit(aProofOfLock string) error {
 	// Commit() moves serials from cache to storage, removes expired serial
 	// numbers from storage, and updates the coverage metadata file. This is
@@ -598,7 +621,11 @@ func (db *CertDatabase) Commit(aProofOfLock string) error {
 		return err
 	}
 
-	if (cacheEpoch != storageEpoch+1) && !(cacheEpoch == 0 && storageEpoch == 0) {
+	consistent, err := db.epochsAreConsistent(cacheEpoch, storageEpoch)
+	if err != nil {
+		return err
+	}
+	if !consistent {
 		return errors.New("Inconsistent cache and storage epochs. Restart ct-fetch.")
 	}
 
-- 
2.43.0


From 4969307b9113c0091982311d288ff1564fabc31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:10 +0000
Subject: [PATCH 15/48] fix: move each bin of serials only once per commit

Redis may list a key several times in a scan. The bin was then processed by two
goroutines, and one could overwrite the list that the other had just written,
losing serials that had been recorded in between and removed from the cache.
---
 go/storage/certdatabase.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index 184eeb1..f9e8d08 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -121,8 +121,16 @@ func (db *CertDatabase) GetIssuerAndDatesFromChannel(reader <-chan string) ([]ty
 	// The channel entries are strings of the form "serials::<date>::<issuer id>".
 	// We gather these by issuer to obtain a list of the form
 	//    [(issuer 1, [date 1, date 2, ...]), (issuer 2, [...]), ...].
+	// Redis' scan methods may list a key several times, and a bin must not be
+	// processed by two workers at once.
 	issuerMap := make(map[string]types.IssuerDate)
+	seen := make(map[string]struct{})
 	for entry := range reader {
+		if _, dup := seen[entry]; dup {
+			continue
+		}
+		seen[entry] = struct{}{}
+
 		parts := strings.Split(entry, "::")
 		if len(parts) != 3 {
 			return []types.IssuerDate{}, fmt.Errorf("Unexpected key format: %s", entry)
-- 
2.43.0


From eaee0efbe68196809c9e3f6604c8af1b8234d0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:10 +0000
Subject: [PATCH 16/48] fix: list each log state once in the coverage metadata

---
 go/storage/rediscache.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/go/storage/rediscache.go b/go/storage/rediscache.go
index fac0aae..8e37795 100644
--- a/go/storage/rediscache.go
+++ b/go/storage/rediscache.go
@@ -260,7 +260,14 @@ func (ec *RedisCache) LoadAllLogStates() ([]types.CTLogState, error) {
 		errChan <- ec.KeysToChan("log::*", keyChan)
 	}()
 
+	seen := make(map[string]struct{})
 	for entry := range keyChan {
+		// Redis may list a key several times in a scan.
+		if _, dup := seen[entry]; dup {
+			continue
+		}
+		seen[entry] = struct{}{}
+
 		data, err := ec.client.Get(entry).Bytes()
 		if err != nil {
 			return nil, fmt.Errorf("Couldn't parse CT logs metadata: %s", err)
-- 
2.43.0


From 63fec72382cbef159b0fcf392dbfe5b2f00440ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:11 +0000
Subject: [PATCH 17/48] fix: do not pair a cache in epoch 1 with storage that
 has no commit

---
 go/storage/certdatabase.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index f9e8d08..6352c78 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -566,22 +566,19 @@ func (db *CertDatabase) getStorageEpoch() (uint64, error) {
 }
 
 // The cache is one epoch ahead of storage, except that there are no epochs yet
-// before the first commit. The first commit also leaves storage in epoch 0, but
-// then a cache in epoch 0 is one that was lost.
+// before the first commit. The first commit leaves storage in epoch 0 as well,
+// but with coverage metadata.
 func (db *CertDatabase) epochsAreConsistent(aCacheEpoch, aStorageEpoch uint64) (bool, error) {
-	if aCacheEpoch != 0 || aStorageEpoch != 0 {
-		return aCacheEpoch == aStorageEpoch+1, nil
-	}
 	for _, path := range []string{db.epochFile(), db.coverageFile()} {
 		_, err := os.Stat(path)
 		if err == nil {
-			return false, nil
+			return aCacheEpoch == aStorageEpoch+1, nil
 		}
 		if !errors.Is(err, os.ErrNotExist) {
 			return false, err
 		}
 	}
-	return true, nil
+	return aCacheEpoch == 0, nil
 }
 
 func (db *CertDatabase) Commit(aProofOfLock string) error {
-- 
2.43.0


From 5018d28a2939e5d98577de55bc005bc04fac4ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:53 +0000
Subject: [PATCH 18/48] fix: aggregate-crls reports failure when it was
 interrupted

An interrupted run left out issuers' revoked lists but exited with status 0,
so the rest of the pipeline built filters from an incomplete set.
---
 go/cmd/aggregate-crls/aggregate-crls.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/go/cmd/aggregate-crls/aggregate-crls.go b/go/cmd/aggregate-crls/aggregate-crls.go
index 97d6201..254470b 100644
--- a/go/cmd/aggregate-crls/aggregate-crls.go
+++ b/go/cmd/aggregate-crls/aggregate-crls.go
@@ -557,11 +557,13 @@ func main() {
 
 	crlPaths, count := ae.downloadCRLs(ctx, mozIssuers)
 
+	if ctx.Err() == nil {
+		ae.aggregateCRLs(ctx, count, crlPaths)
+	}
 	if ctx.Err() != nil {
-		return
+		glog.Exitf("Interrupted, the revoked certificate lists are incomplete: %s", ctx.Err())
 	}
 
-	ae.aggregateCRLs(ctx, count, crlPaths)
 	if err := mozIssuers.SaveIssuersList(*enrolledpath); err != nil {
 		glog.Fatalf("Unable to save the crlite-informed intermediate issuers to %s: %s", *enrolledpath, err)
 	}
-- 
2.43.0


From e5a58f2aaaad0eb43edad4442a5b7a1c48322138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:53 +0000
Subject: [PATCH 19/48] fix: read the distribution points of CRLs with
 non-fatal parse errors

A CRL whose entries have, say, a critical reason code was reported as having
the wrong distribution point although it names the right one.
---
 go/cmd/aggregate-crls/aggregate-crls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/cmd/aggregate-crls/aggregate-crls.go b/go/cmd/aggregate-crls/aggregate-crls.go
index 254470b..71d680c 100644
--- a/go/cmd/aggregate-crls/aggregate-crls.go
+++ b/go/cmd/aggregate-crls/aggregate-crls.go
@@ -222,7 +222,7 @@ func loadAndCheckIssuingDistributionPointOfCRL(aPath string, aFetchUrl *url.URL,
 	// We don't use this parser in loadAndCheckSignatureOfCRL because it is more strict than the
 	// standard x509 parser.
 	crl, err := x509.ParseCertificateListDER(crlBytes)
-	if err != nil {
+	if x509.IsFatal(err) {
 		return false, fmt.Errorf("Error parsing, will not process revocations: %s", err)
 	}
 
-- 
2.43.0


From e3edbdb1b5b1cffe8e862d296523a132310b762e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:19 +0000
Subject: [PATCH 20/48] fix: an issuer uses partitioned CRLs if any of its
 certificates does

Whether the partitions' distribution points were checked depended on which
of the issuer's certificates a map iteration returned first.
---
 go/rootprogram/issuers.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/go/rootprogram/issuers.go b/go/rootprogram/issuers.go
index 7383ca6..4a8f80d 100644
--- a/go/rootprogram/issuers.go
+++ b/go/rootprogram/issuers.go
@@ -470,6 +470,7 @@ func (mi *MozIssuers) InsertIssuer(aCert *ctx509.Certificate, aCrls []string, aU
 	v, exists := mi.issuerMap[issuer.ID()]
 	if exists {
 		v.certs = append(v.certs, ic)
+		v.usesPartitionedCrls = v.usesPartitionedCrls || aUsesPartitionedCrls
 		mi.issuerMap[issuer.ID()] = v
 		return issuer
 	}
-- 
2.43.0


From 761ef962b8fdef076dce088067f0b6618de03846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 21/48] fix: a cancelled download is not a successful one

DownloadFileSync returned no error when its context was done, whether or not
anything had been downloaded.
---
 go/downloader/downloader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/downloader/downloader.go b/go/downloader/downloader.go
index 5078e1f..b1aee4e 100644
--- a/go/downloader/downloader.go
+++ b/go/downloader/downloader.go
@@ -184,7 +184,7 @@ func DownloadFileSync(ctx context.Context, crlUrl url.URL,
 		select {
 		case <-ctx.Done():
 			glog.Infof("Signal caught, stopping threads at next opportunity.")
-			return nil
+			return ctx.Err()
 		default:
 			err = download(ctx, crlUrl, path, timeout)
 			if err == nil {
-- 
2.43.0


From d8bf44a817692c120fbd7deaf1d7d121ddaec350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 22/48] fix: an error answer to HEAD does not make a file up to
 date

The length and date in an error page's headers were compared with the local
file, so an error could pass for a successful download of whatever was there.
The HEAD request is also cancelled with the download.
---
 go/downloader/downloader.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/go/downloader/downloader.go b/go/downloader/downloader.go
index b1aee4e..dd8375a 100644
--- a/go/downloader/downloader.go
+++ b/go/downloader/downloader.go
@@ -35,13 +35,13 @@ func GetSizeAndDateOfFile(path string) (int64, time.Time, error) {
 	return stat.Size(), stat.ModTime(), nil
 }
 
-func determineAction(client *http.Client, crlUrl url.URL, path string) (DownloadAction, int64, int64) {
+func determineAction(ctx context.Context, client *http.Client, crlUrl url.URL, path string) (DownloadAction, int64, int64) {
 	szOnDisk, localDate, err := GetSizeAndDateOfFile(path)
 	if err != nil {
 		glog.V(1).Infof("[%s] CREATE: File not on disk: %s ", crlUrl.String(), err)
 		return Create, 0, 0
 	}
-	req, err := http.NewRequest("HEAD", crlUrl.String(), nil)
+	req, err := http.NewRequestWithContext(ctx, "HEAD", crlUrl.String(), nil)
 	if err != nil {
 		return Create, szOnDisk, 0
 	}
@@ -51,6 +51,12 @@ func determineAction(client *http.Client, crlUrl url.URL, path string) (Download
 	if err != nil {
 		return Create, szOnDisk, 0
 	}
+	defer resp.Body.Close()
+
+	if resp.StatusCode != http.StatusOK {
+		glog.V(1).Infof("[%s] CREATE: Non-OK status: %s", crlUrl.String(), resp.Status)
+		return Create, szOnDisk, 0
+	}
 
 	eTag := resp.Header.Get("Etag")
 	lastMod, err := http.ParseTime(resp.Header.Get("Last-Modified"))
@@ -90,7 +96,7 @@ func determineAction(client *http.Client, crlUrl url.URL, path string) (Download
 func download(ctx context.Context, crlUrl url.URL, path string, timeout time.Duration) error {
 	client := &http.Client{Timeout: timeout}
 
-	action, offset, size := determineAction(client, crlUrl, path)
+	action, offset, size := determineAction(ctx, client, crlUrl, path)
 
 	if action == UpToDate {
 		return nil
-- 
2.43.0


From 90ca4b9660fb1644f3fd2b35d4cca621ea203a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 23/48] fix: do not take partial content for a whole file

A 206 answer was appended to the local file, or stored as the file, whatever
range it was for.
---
 go/downloader/downloader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/go/downloader/downloader.go b/go/downloader/downloader.go
index dd8375a..6ccc250 100644
--- a/go/downloader/downloader.go
+++ b/go/downloader/downloader.go
@@ -121,6 +121,11 @@ func download(ctx context.Context, crlUrl url.URL, path string, timeout time.Dur
 	var outFileParams int
 	switch resp.StatusCode {
 	case http.StatusPartialContent:
+		// Only the rest of what is on disk may be appended to it
+		rest := fmt.Sprintf("bytes %d-%d/%d", offset, size-1, size)
+		if action != Resume || resp.Header.Get("Content-Range") != rest {
+			return fmt.Errorf("Unexpected partial content: %q", resp.Header.Get("Content-Range"))
+		}
 		// Depending on what the server responds with, we may have to go back to Create
 		outFileParams = os.O_APPEND | os.O_WRONLY
 		action = Resume
-- 
2.43.0


From b466a47c5c0ff701d3ada172f12356d37ab628b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 24/48] fix: read CRL URLs with commas from the CCADB report

The list of partitioned CRLs is JSON, but was split at every comma. A URL that
contains one was taken for several URLs, and JSON escapes were kept.
---
 go/rootprogram/issuers.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/go/rootprogram/issuers.go b/go/rootprogram/issuers.go
index 4a8f80d..b9e47b6 100644
--- a/go/rootprogram/issuers.go
+++ b/go/rootprogram/issuers.go
@@ -422,8 +422,12 @@ func decodeCrls(fullCrlStr string, partCrlJson string) ([]string, bool, error) {
 		}
 	}
 
-	partCrlJson = strings.Trim(strings.TrimSpace(partCrlJson), "[]")
-	partCrls := strings.Split(partCrlJson, ",")
+	var partCrls []string
+	if err := json.Unmarshal([]byte(partCrlJson), &partCrls); err != nil {
+		// Tolerate lists that are not quite JSON.
+		partCrlJson = strings.Trim(strings.TrimSpace(partCrlJson), "[]")
+		partCrls = strings.Split(partCrlJson, ",")
+	}
 	for _, crl := range partCrls {
 		crl = strings.Trim(strings.TrimSpace(crl), `"`)
 		if crl == "" {
-- 
2.43.0


From 8dfb9ae778cbcb12e20be325935734a49539a4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 25/48] fix: store CRLs with long URLs

The file name made from a long URL exceeded what file systems accept, so the
CRL could not be downloaded and its issuer had no revocations.
---
 go/cmd/aggregate-crls/aggregate-crls.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/go/cmd/aggregate-crls/aggregate-crls.go b/go/cmd/aggregate-crls/aggregate-crls.go
index 71d680c..65dc3cf 100644
--- a/go/cmd/aggregate-crls/aggregate-crls.go
+++ b/go/cmd/aggregate-crls/aggregate-crls.go
@@ -33,6 +33,10 @@ import (
 const (
 	permMode    = 0644
 	permModeDir = 0755
+
+	// File names may have 255 bytes, and a name is made of this prefix, "-", 16
+	// hex digits, ".crl" and, during a download, ".tmp".
+	maxFilenamePrefixLen = 255 - 1 - 16 - 4 - 4
 )
 
 var (
@@ -75,6 +79,9 @@ func makeFilenameFromUrl(crlUrl url.URL) string {
 	hash := sha256.Sum256([]byte(normalizedUrlString(&crlUrl)))
 
 	filename = strings.TrimSuffix(filename, ".crl")
+	if len(filename) > maxFilenamePrefixLen {
+		filename = filename[:maxFilenamePrefixLen]
+	}
 	filename = fmt.Sprintf("%s-%s.crl", filename, hex.EncodeToString(hash[:8]))
 	return filename
 }
-- 
2.43.0


From f71eedd680946df45990a2af515bd78da1fb9af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 26/48] fix: distinguish CRL URLs by query parameters that
 cannot be parsed

Parameters with a semicolon or a broken escape were left out of the normalized
URL, so two CRLs could share one file.
---
 go/cmd/aggregate-crls/aggregate-crls.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/go/cmd/aggregate-crls/aggregate-crls.go b/go/cmd/aggregate-crls/aggregate-crls.go
index 65dc3cf..4343beb 100644
--- a/go/cmd/aggregate-crls/aggregate-crls.go
+++ b/go/cmd/aggregate-crls/aggregate-crls.go
@@ -54,9 +54,12 @@ var (
 
 func normalizedUrlString(u *url.URL) string {
 	if u.RawQuery != "" {
-		normalized := *u
-		normalized.RawQuery = normalized.Query().Encode()
-		return normalized.String()
+		// Query parameters that cannot be parsed must not be dropped.
+		if query, err := url.ParseQuery(u.RawQuery); err == nil {
+			normalized := *u
+			normalized.RawQuery = query.Encode()
+			return normalized.String()
+		}
 	}
 	return u.String()
 }
-- 
2.43.0


From f415f7e9ad7a36500ff25e706af7b93ae127ac33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 27/48] fix: accept CA certificates with non-fatal parse errors

An issuer whose certificate has a deviation that the parser tolerates was left
out of the issuers, or made the enrolled list unreadable.
---
 go/rootprogram/issuers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/go/rootprogram/issuers.go b/go/rootprogram/issuers.go
index b9e47b6..4d6a385 100644
--- a/go/rootprogram/issuers.go
+++ b/go/rootprogram/issuers.go
@@ -267,7 +267,7 @@ func PEMToCertificate(aPem string) (*ctx509.Certificate, error) {
 	}
 
 	cert, err := ctx509.ParseCertificate(block.Bytes)
-	if err != nil {
+	if ctx509.IsFatal(err) {
 		return nil, fmt.Errorf("failed to parse certificate: %w", err)
 	}
 
@@ -294,7 +294,7 @@ func PEMToZcryptoCertificate(aPem string) (*zcx509.Certificate, error) {
 
 func ZcryptoToCtCertificate(zcCert *zcx509.Certificate) (*ctx509.Certificate, error) {
 	ctCert, err := ctx509.ParseCertificate(zcCert.Raw)
-	if err != nil {
+	if ctx509.IsFatal(err) {
 		return nil, fmt.Errorf("failed to convert certificate: %w", err)
 	}
 	return ctCert, nil
-- 
2.43.0


From e26aa1aaeb29b157c86aafa0aba4e64286a483b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 28/48] fix: never load the remains of a CCADB report that
 could not be fetched

The report was downloaded in place. What was left of a failed download was
accepted by the next load if it was cut between two rows, without the issuers
of the missing rows.
---
 go/rootprogram/issuers.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/go/rootprogram/issuers.go b/go/rootprogram/issuers.go
index 4d6a385..1496dd1 100644
--- a/go/rootprogram/issuers.go
+++ b/go/rootprogram/issuers.go
@@ -80,13 +80,24 @@ func (mi *MozIssuers) Load() error {
 		return err
 	}
 
-	err = downloader.DownloadFileSync(ctx, *dataUrl, mi.DiskPath, 3, 300*time.Second)
+	// An incomplete or invalid report must not be left where the next load
+	// would find it.
+	tmpPath := mi.DiskPath + ".tmp"
+	os.Remove(tmpPath)
+	defer os.Remove(tmpPath)
+
+	err = downloader.DownloadFileSync(ctx, *dataUrl, tmpPath, 3, 300*time.Second)
 	if err != nil {
 		glog.Errorf("Error downloading CCADB report: %s", err)
 		return err
 	}
 
-	return mi.LoadFromDisk(mi.DiskPath)
+	err = mi.LoadFromDisk(tmpPath)
+	if err != nil {
+		return err
+	}
+
+	return os.Rename(tmpPath, mi.DiskPath)
 }
 
 func (mi *MozIssuers) LoadFromDisk(aPath string) error {
-- 
2.43.0


From a7af417308c81e9f3ead028f7850dda88f3f8751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 29/48] fix: fail when a revoked certificate list cannot be
 flushed or closed

---
 go/cmd/aggregate-crls/aggregate-crls.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/go/cmd/aggregate-crls/aggregate-crls.go b/go/cmd/aggregate-crls/aggregate-crls.go
index 4343beb..6b542f2 100644
--- a/go/cmd/aggregate-crls/aggregate-crls.go
+++ b/go/cmd/aggregate-crls/aggregate-crls.go
@@ -481,7 +481,6 @@ func (ae *AggregateEngine) StoreRevokedCertificateList(ctx context.Context, issu
 	defer fd.Close()
 
 	writer := bufio.NewWriter(fd)
-	defer writer.Flush()
 
 	for _, s := range serials {
 		select {
@@ -502,7 +501,11 @@ func (ae *AggregateEngine) StoreRevokedCertificateList(ctx context.Context, issu
 			}
 		}
 	}
-	return nil
+
+	if err := writer.Flush(); err != nil {
+		return err
+	}
+	return fd.Close()
 }
 
 func checkPathArg(strObj string, confOptionName string, ctconfig *config.CTConfig) {
-- 
2.43.0


From a023f2cc0286c5238452e32094411c2b9bcb0b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 30/48] fix: fail when a known list or the coverage output
 cannot be flushed or closed

---
 go/cmd/aggregate-known/aggregate-known.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/go/cmd/aggregate-known/aggregate-known.go b/go/cmd/aggregate-known/aggregate-known.go
index 7823224..8efa318 100644
--- a/go/cmd/aggregate-known/aggregate-known.go
+++ b/go/cmd/aggregate-known/aggregate-known.go
@@ -55,7 +55,7 @@ func (kw knownWorker) run(ctx context.Context, cancelMain context.CancelFunc, wg
 	}
 
 	for tuple := range workChan {
-		// Wrap in anonymous function to defer a writer.Flush & fd.Close per work unit
+		// Wrap in anonymous function to defer fd.Close per work unit
 		func() {
 			path := filepath.Join(kw.savePath, tuple.issuer.ID())
 			fd, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, permMode)
@@ -67,7 +67,6 @@ func (kw knownWorker) run(ctx context.Context, cancelMain context.CancelFunc, wg
 			defer fd.Close()
 
 			writer := bufio.NewWriter(fd)
-			defer writer.Flush()
 
 			var serialCount uint64
 
@@ -102,6 +101,16 @@ func (kw knownWorker) run(ctx context.Context, cancelMain context.CancelFunc, wg
 					return
 				}
 			}
+
+			err = writer.Flush()
+			if err == nil {
+				err = fd.Close()
+			}
+			if err != nil {
+				glog.Errorf("[%s] Could not store known certificates file: %s", tuple.issuer.ID(), err)
+				cancelMain()
+				return
+			}
 			glog.Infof("[%s] %d total known serials for %s (shards=%d)", tuple.issuer.ID(),
 				serialCount, tuple.issuerDN, len(tuple.expDates))
 		}()
@@ -197,7 +206,9 @@ func work() error {
 	if err := enc.Encode(logList); err != nil {
 		return fmt.Errorf("Error marshaling ct-logs list %s: %s", *ctlogspath, err)
 	}
-	ctLogFD.Close()
+	if err := ctLogFD.Close(); err != nil {
+		return fmt.Errorf("Error storing ct-logs list %s: %s", *ctlogspath, err)
+	}
 
 	glog.Infof("Listing issuers and their expiration dates...")
 	issuerList, err := certDB.GetIssuerAndDatesFromStorage()
-- 
2.43.0


From d01fc4fa47ec7ba868258b025739bde582e3cd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 31/48] fix: fail when the enrolled issuers list cannot be
 written

---
 go/rootprogram/issuers.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/go/rootprogram/issuers.go b/go/rootprogram/issuers.go
index 1496dd1..c5ca6e5 100644
--- a/go/rootprogram/issuers.go
+++ b/go/rootprogram/issuers.go
@@ -348,6 +348,8 @@ func (mi *MozIssuers) SaveIssuersList(filePath string) error {
 
 	if err := enc.Encode(issuers); err != nil {
 		glog.Errorf("Error marshaling enrolled issuer %s: %s", filePath, err)
+		fd.Close()
+		return err
 	}
 
 	if err = fd.Close(); err != nil {
-- 
2.43.0


From 0004c1a588f9cb8e442c29572053a8e2889a790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 32/48] fix: guard the DNS results of a download against
 concurrent lookups

---
 go/downloader/download-tracer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/go/downloader/download-tracer.go b/go/downloader/download-tracer.go
index ba3a4f6..928db19 100644
--- a/go/downloader/download-tracer.go
+++ b/go/downloader/download-tracer.go
@@ -3,11 +3,13 @@ package downloader
 import (
 	"context"
 	"net/http/httptrace"
+	"sync"
 
 	"github.com/golang/glog"
 )
 
 type DownloadTracer struct {
+	mutex   sync.Mutex
 	DNSDone []httptrace.DNSDoneInfo
 }
 
@@ -19,6 +21,8 @@ func NewDownloadTracer() *DownloadTracer {
 
 func (da *DownloadTracer) dnsDone(ddi httptrace.DNSDoneInfo) {
 	glog.V(1).Infof("DNS result: %+v", ddi)
+	da.mutex.Lock()
+	defer da.mutex.Unlock()
 	da.DNSDone = append(da.DNSDone, ddi)
 }
 
@@ -31,6 +35,8 @@ func (da *DownloadTracer) Configure(ctx context.Context) context.Context {
 }
 
 func (da *DownloadTracer) DNSResults() []string {
+	da.mutex.Lock()
+	defer da.mutex.Unlock()
 	results := []string{}
 	for _, ddi := range da.DNSDone {
 		for _, addr := range ddi.Addrs {
@@ -41,6 +47,8 @@ func (da *DownloadTracer) DNSResults() []string {
 }
 
 func (da *DownloadTracer) Errors() []string {
+	da.mutex.Lock()
+	defer da.mutex.Unlock()
 	results := []string{}
 	for _, ddi := range da.DNSDone {
 		if ddi.Err != nil {
-- 
2.43.0


From c38b4afdd0eb962c43a98abf3e2d09292341ab52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:49 +0000
Subject: [PATCH 33/48] fix: publisher: replace malformed CRLite records
 instead of failing on them

---
 moz_kinto_publisher/main.py | 39 ++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/moz_kinto_publisher/main.py b/moz_kinto_publisher/main.py
index 6dc3824..7381948 100755
--- a/moz_kinto_publisher/main.py
+++ b/moz_kinto_publisher/main.py
@@ -700,7 +700,7 @@ def clear_crlite_filters(*, rw_client, noop, channel):
     existing_records = [
         x for x in existing_records if x.get("channel", CHANNEL_DEFAULT) == channel.slug
     ]
-    existing_filters = filter(lambda x: x["incremental"] is False, existing_records)
+    existing_filters = filter(lambda x: not x.get("incremental"), existing_records)
     for filter_record in existing_filters:
         log.info("Cleaning up stale filter record %s.", filter_record["id"])
         rw_client.delete_record(
@@ -719,7 +719,7 @@ def clear_crlite_deltas(*, rw_client, noop, channel):
     existing_records = [
         x for x in existing_records if x.get("channel", CHANNEL_DEFAULT) == channel.slug
     ]
-    existing_deltas = filter(lambda x: x["incremental"] is True, existing_records)
+    existing_deltas = filter(lambda x: x.get("incremental"), existing_records)
     for delta in existing_deltas:
         log.info("Cleaning up stale delta record %s.", delta["id"])
         rw_client.delete_record(
@@ -836,11 +836,28 @@ def publish_crlite_delta(
     )
 
 
+def record_name(record):
+    # Malformed records sort first. They are rejected by
+    # crlite_verify_record_consistency.
+    try:
+        return str(record["details"]["name"])
+    except (KeyError, TypeError):
+        return ""
+
+
 def timestamp_from_record(record):
     iso_string = record["details"]["name"].split("Z-")[0]
     return datetime.fromisoformat(iso_string).replace(tzinfo=timezone.utc)
 
 
+def run_id_from_record(record):
+    # A run ID is a "YYYYMMDD" date and an index, e.g. "20210101-3".
+    # The record["attachment"]["filename"] field of an existing record is
+    # in the format "<run id>-channel.filter", "<run id>-channel.filter.stash",
+    # or "<run id>-channel.filter.delta".
+    return record["attachment"]["filename"].rsplit("-", 1)[0]
+
+
 def crlite_verify_record_consistency(*, existing_records, channel):
     # This function assumes that existing_records is sorted according to
     # record["details"]["name"], which is a "YYYY-MM-DDTHH:MM:SS+00:00Z"
@@ -856,8 +873,15 @@ def crlite_verify_record_consistency(*, existing_records, channel):
     for r in existing_records:
         if not ("id" in r and "incremental" in r and "attachment" in r):
             raise ConsistencyException(f"Malformed record {r}.")
+        if not isinstance(r["incremental"], bool):
+            raise ConsistencyException(f"Malformed record {r}.")
         if r["incremental"] and not "parent" in r:
             raise ConsistencyException(f"Malformed record {r}.")
+        try:
+            timestamp_from_record(r)
+            workflow.normalize_identifier(run_id_from_record(r))
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
+            raise ConsistencyException(f"Malformed record {r}.")
 
     # There must be exactly 1 full filter in the existing records.
     full_filters = [r for r in existing_records if not r["incremental"]]
@@ -930,14 +954,7 @@ def crlite_determine_publish(*, existing_records, run_db, channel):
         log.error("Failed to verify existing record consistency: %s", se)
         return default
 
-    # A run ID is a "YYYYMMDD" date and an index, e.g. "20210101-3".
-    # The record["attachment"]["filename"] field of an existing record is
-    # in the format "<run id>-channel.filter", "<run id>-channel.filter.stash",
-    # or "<run id>-channel.filter.delta".
-    record_run_ids = [
-        record["attachment"]["filename"].rsplit("-", 1)[0]
-        for record in existing_records
-    ]
+    record_run_ids = [run_id_from_record(record) for record in existing_records]
 
     # Get a list of run IDs that are newer than any existing record.
     # These are candidates for inclusion in an incremental update.
@@ -990,7 +1007,7 @@ def publish_crlite(*, args, rw_client, channel, timeout=timedelta(minutes=5)):
     ]
     # Sort existing_records for crlite_verify_record_consistency,
     # which gets called in crlite_determine_publish.
-    existing_records = sorted(existing_records, key=lambda x: x["details"]["name"])
+    existing_records = sorted(existing_records, key=record_name)
 
     published_run_db = PublishedRunDB(args.filter_bucket)
 
-- 
2.43.0


From a4b021765b5744ae877c083f92f03194b6e4d7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:49 +0000
Subject: [PATCH 34/48] fix: publisher: do not extend a channel with runs that
 are not newer than its records

---
 moz_kinto_publisher/main.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/moz_kinto_publisher/main.py b/moz_kinto_publisher/main.py
index 7381948..8a05a49 100755
--- a/moz_kinto_publisher/main.py
+++ b/moz_kinto_publisher/main.py
@@ -911,6 +911,13 @@ def crlite_verify_record_consistency(*, existing_records, channel):
     if maxHeight != len(existing_records) - 1:
         raise ConsistencyException(f"Multiple filter descendents: {full_filters}")
 
+    # Each incremental filter should be newer than its parent.
+    for r in existing_records:
+        if r["incremental"] and not (
+            timestamp_from_record(ids[r["parent"]]) < timestamp_from_record(r)
+        ):
+            raise ConsistencyException(f"Record {r['id']} is older than its parent")
+
 
 def crlite_verify_run_id_consistency(*, run_db, identifiers_to_check, channel):
     # The runs should be complete.
@@ -927,7 +934,7 @@ def crlite_verify_run_id_consistency(*, run_db, identifiers_to_check, channel):
     identifiers_to_check.sort(key=lambda x: [int(y) for y in x.split("-")])
     ts = [run_db.get_run_timestamp(r) for r in identifiers_to_check]
     for x, y in zip(ts, ts[1:]):
-        if x > y:
+        if x >= y:
             raise ConsistencyException(f"Out-of-order timestamp: {ts}")
 
 
@@ -983,6 +990,15 @@ def crlite_determine_publish(*, existing_records, run_db, channel):
         log.error("Failed to verify run ID consistency: %s", se)
         return default
 
+    # If the new runs are not newer than the existing records (the clock may have
+    # been set back), publish a full filter.
+    if new_run_ids and not (
+        timestamp_from_record(existing_records[-1])
+        < run_db.get_run_timestamp(new_run_ids[0])
+    ):
+        log.error("The new runs are older than the existing records.")
+        return default
+
     # If the full filter is too old, publish a full filter.
     earliest_timestamp = run_db.get_run_timestamp(min(record_run_ids))
     new_timestamp = run_db.get_run_timestamp(new_run_id)
-- 
2.43.0


From 0348bba04f4a9bac0ec041b3655cdd68e947bdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:49 +0000
Subject: [PATCH 35/48] fix: publisher: request review only when every enabled
 channel is consistent

---
 moz_kinto_publisher/main.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/moz_kinto_publisher/main.py b/moz_kinto_publisher/main.py
index 8a05a49..e15e1e0 100755
--- a/moz_kinto_publisher/main.py
+++ b/moz_kinto_publisher/main.py
@@ -1011,6 +1011,32 @@ def crlite_determine_publish(*, existing_records, run_db, channel):
     return {"clear_all": False, "upload": new_run_ids}
 
 
+def crlite_is_ready_for_review(*, rw_client):
+    # A review covers the records of every channel, so it must wait until each
+    # enabled channel has been published. Publishing the last one requests it.
+    existing_records = rw_client.get_records(
+        collection=settings.KINTO_CRLITE_COLLECTION
+    )
+    for channel in CHANNELS:
+        if not channel.enabled:
+            continue
+        channel_records = [
+            x
+            for x in existing_records
+            if x.get("channel", CHANNEL_DEFAULT) == channel.slug
+        ]
+        try:
+            if not channel_records:
+                raise ConsistencyException("No records.")
+            crlite_verify_record_consistency(
+                existing_records=channel_records, channel=channel
+            )
+        except ConsistencyException as se:
+            log.warning("Channel %s is not ready for review: %s", channel.slug, se)
+            return False
+    return True
+
+
 def publish_crlite(*, args, rw_client, channel, timeout=timedelta(minutes=5)):
     # returns the run_id of a new full filter if one is published, otherwise None
     rv = None
@@ -1100,7 +1126,7 @@ def publish_crlite(*, args, rw_client, channel, timeout=timedelta(minutes=5)):
                 noop=args.noop,
             )
 
-    if not args.noop:
+    if not args.noop and crlite_is_ready_for_review(rw_client=rw_client):
         rw_client.request_review_of_collection(
             collection=settings.KINTO_CRLITE_COLLECTION
         )
-- 
2.43.0


From 3aa0b84e19db17f2ccdb5358770478752cf9c4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:49 +0000
Subject: [PATCH 36/48] fix: publisher: find the oldest published run by date
 and index

---
 moz_kinto_publisher/main.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/moz_kinto_publisher/main.py b/moz_kinto_publisher/main.py
index e15e1e0..9fc1d2f 100755
--- a/moz_kinto_publisher/main.py
+++ b/moz_kinto_publisher/main.py
@@ -1000,7 +1000,9 @@ def crlite_determine_publish(*, existing_records, run_db, channel):
         return default
 
     # If the full filter is too old, publish a full filter.
-    earliest_timestamp = run_db.get_run_timestamp(min(record_run_ids))
+    earliest_timestamp = run_db.get_run_timestamp(
+        min(record_run_ids, key=workflow.normalize_identifier)
+    )
     new_timestamp = run_db.get_run_timestamp(new_run_id)
     if new_timestamp - earliest_timestamp >= timedelta(
         days=channel.max_filter_age_days
-- 
2.43.0


From 83781205fec8f9872ee30226c07a9081ce799c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 37/48] fix: publisher: treat undecodable intermediate records
 as malformed instead of failing

---
 moz_kinto_publisher/main.py | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/moz_kinto_publisher/main.py b/moz_kinto_publisher/main.py
index 9fc1d2f..282a2f0 100755
--- a/moz_kinto_publisher/main.py
+++ b/moz_kinto_publisher/main.py
@@ -4,7 +4,6 @@ import base64
 import hashlib
 import json
 import math
-import re
 import tempfile
 import time
 
@@ -164,15 +163,6 @@ class PublishedRunDB:
         return self.cached_run_times[run_id]
 
 
-def asciiPemToBinaryDer(pem: str) -> bytes:
-    matches = re.search(
-        r"(?<=-----BEGIN CERTIFICATE-----).*?(?=-----END CERTIFICATE-----)",
-        pem,
-        flags=re.DOTALL,
-    )
-    return base64.b64decode(matches.group(0))
-
-
 @lru_cache
 def get_attachments_base_url(client):
     return client.server_info()["capabilities"]["attachments"]["base_url"]
@@ -317,10 +307,10 @@ class Intermediate:
                 )  # sha256 of the SPKI
             else:
                 self.pubKeyHash = None
-        except base64.binascii.Error:
+        except (TypeError, ValueError):
             raise parseError
 
-        if self.pubKeyHash and len(self.pubKeyHash) != 32:
+        if self.pubKeyHash is not None and len(self.pubKeyHash) != 32:
             raise IntermediateRecordError(f"Invalid pubkey hash: {kwargs}")
 
         try:
@@ -330,10 +320,10 @@ class Intermediate:
                 )
             else:
                 self.derHash = None
-        except base64.binascii.Error:
+        except (TypeError, ValueError):
             raise parseError
 
-        if self.derHash and len(self.derHash) != 32:
+        if self.derHash is not None and len(self.derHash) != 32:
             raise IntermediateRecordError(f"Invalid DER hash. {kwargs}")
 
         if "pem" in kwargs:
@@ -342,9 +332,12 @@ class Intermediate:
         if "attachment" in kwargs:
             self.kinto_id = kwargs["id"]
             self.cert = None
-            self.pemAttachment = AttachedPem(**kwargs["attachment"])
+            try:
+                self.pemAttachment = AttachedPem(**kwargs["attachment"])
+            except (KeyError, TypeError):
+                raise parseError
             self.pemHash = self.pemAttachment.hash
-            if len(self.pemHash) != 64:  # sha256 hexdigest
+            if len(str(self.pemHash)) != 64:  # sha256 hexdigest
                 raise IntermediateRecordError(f"Invalid hash. {kwargs}")
 
     def __str__(self):
@@ -384,7 +377,6 @@ class Intermediate:
     def set_pem(self, pem_data):
         self.pemData = pem_data
         self.pemHash = hashlib.sha256(pem_data.encode("utf-8")).hexdigest()
-        derCert = asciiPemToBinaryDer(pem_data)
         try:
             self.cert = x509.load_pem_x509_certificate(
                 pem_data.encode("utf-8"), default_backend()
-- 
2.43.0


From 27649e2859191a472fdc2e8344624a9f20a7e6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 38/48] fix: publisher: check the hash of the attachments of
 intermediates

---
 moz_kinto_publisher/main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/moz_kinto_publisher/main.py b/moz_kinto_publisher/main.py
index 282a2f0..1fa12bb 100755
--- a/moz_kinto_publisher/main.py
+++ b/moz_kinto_publisher/main.py
@@ -406,6 +406,8 @@ class Intermediate:
             f"{get_attachments_base_url(kinto_client)}{self.pemAttachment.location}"
         )
         r.raise_for_status()
+        if hashlib.sha256(r.content).hexdigest() != self.pemAttachment.hash:
+            raise IntermediateRecordError("Attachment hash does not match")
         self.set_pem(r.text)
 
     def is_expired(self, kinto_client=None):
-- 
2.43.0


From 44a1d09898e332f9f24fb55bc67a3279d62406d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 39/48] fix: allocate run identifiers after all existing ones
 when the clock was set back

---
 workflow/0-allocate_identifier | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/workflow/0-allocate_identifier b/workflow/0-allocate_identifier
index 2ca919c..e5567f6 100755
--- a/workflow/0-allocate_identifier
+++ b/workflow/0-allocate_identifier
@@ -27,7 +27,9 @@ all_identifiers = workflow.get_run_identifiers(args.filter_bucket)
 if all_identifiers:
     most_recent_identifier = all_identifiers.pop()
     (date_part, idx_part) = most_recent_identifier.split("-")
-    if date_part == dateprefix:
+    if date_part >= dateprefix:
+        # A most recent run dated after today means that the clock was set back.
+        dateprefix = date_part
         next_idx = int(idx_part) + 1
 
 allocatedName = "{}-{}".format(dateprefix, next_idx)
-- 
2.43.0


From 72e5610175789ac101f1c3811725e1792a12f1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 40/48] fix: do not sign off on a filter whose size cannot be
 determined

---
 containers/scripts/crlite-signoff.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/containers/scripts/crlite-signoff.sh b/containers/scripts/crlite-signoff.sh
index 4820f64..b6eb683 100755
--- a/containers/scripts/crlite-signoff.sh
+++ b/containers/scripts/crlite-signoff.sh
@@ -24,7 +24,7 @@ fi
 python3 "${SCRIPTS}/crlite-signoff-tool.py" intermediates
 
 # sign off on cert-revocations if the filter is less than MAX_FILTER_SIZE.
-FILTER_SIZE=$(stat --format=%s "${OUTPUT}/crlite.filter")
+FILTER_SIZE=$(stat --format=%s "${OUTPUT}/crlite.filter") || exit 1
 echo "Filter is ${FILTER_SIZE} bytes."
 
 if (( FILTER_SIZE > MAX_FILTER_SIZE ))
-- 
2.43.0


From 82770d5adb56014f18f9276334802dcea12890b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 41/48] fix: rust-create-cascade: fail when no filter is
 generated

---
 rust-create-cascade/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust-create-cascade/src/main.rs b/rust-create-cascade/src/main.rs
index 5c7a239..39c2dc4 100644
--- a/rust-create-cascade/src/main.rs
+++ b/rust-create-cascade/src/main.rs
@@ -781,7 +781,7 @@ fn main() {
         err = true;
     }
     if err {
-        return;
+        std::process::exit(1);
     }
 
     let hash_alg = match args.murmurhash3 {
-- 
2.43.0


From ff059f04213f73e3c33ad091509d7fa6dd8913f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 42/48] fix: rust-create-cascade: do not overwrite the reason
 code report without --clobber

---
 rust-create-cascade/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust-create-cascade/src/main.rs b/rust-create-cascade/src/main.rs
index 39c2dc4..3f567b0 100644
--- a/rust-create-cascade/src/main.rs
+++ b/rust-create-cascade/src/main.rs
@@ -762,6 +762,7 @@ fn main() {
             revset_file,
             delta_dir,
             delta_filter_file,
+            reason_codes_csv_file,
         ] {
             if f.exists() {
                 error!(
-- 
2.43.0


From 4a61238eb58ec305e9f34b44fec09d1d2e357ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 43/48] fix: rust-create-cascade: do not ignore errors when
 looking for files

---
 rust-create-cascade/src/main.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/rust-create-cascade/src/main.rs b/rust-create-cascade/src/main.rs
index 3f567b0..9c4ac9f 100644
--- a/rust-create-cascade/src/main.rs
+++ b/rust-create-cascade/src/main.rs
@@ -295,15 +295,17 @@ fn list_issuer_file_pairs(
 ) -> Vec<(OsString, Option<PathBuf>, PathBuf)> {
     let known_files = Path::read_dir(known_dir).unwrap();
     let known_issuers: Vec<OsString> = known_files
-        .filter_map(|x| x.ok())
-        .map(|x| x.file_name())
+        .map(|x| x.expect("could not list known directory").file_name())
         .collect();
 
     let mut pairs = vec![];
     for issuer in known_issuers {
         let k_file = known_dir.join(&issuer);
         let r_file = revoked_dir.join(&issuer);
-        if r_file.exists() {
+        if r_file
+            .try_exists()
+            .expect("could not look up revoked file")
+        {
             pairs.push((issuer, Some(r_file), k_file));
         } else {
             pairs.push((issuer, None, k_file));
@@ -646,8 +648,7 @@ fn write_stash(
 ) {
     let delta_files = Path::read_dir(delta_dir).unwrap();
     let delta_issuers: Vec<OsString> = delta_files
-        .filter_map(|x| x.ok())
-        .map(|x| x.file_name())
+        .map(|x| x.expect("could not list delta directory").file_name())
         .collect();
 
     let mut stash_bytes = vec![];
@@ -751,7 +752,7 @@ fn main() {
     }
 
     if args.clobber {
-        if out_dir.exists() && std::fs::remove_dir_all(out_dir).is_err() {
+        if out_dir.try_exists().unwrap_or(true) && std::fs::remove_dir_all(out_dir).is_err() {
             error!("could not clobber output directory");
             err = true;
         }
@@ -764,7 +765,7 @@ fn main() {
             delta_filter_file,
             reason_codes_csv_file,
         ] {
-            if f.exists() {
+            if f.try_exists().unwrap_or(true) {
                 error!(
                     "{} exists! Will not overwrite without --clobber.",
                     f.display()
-- 
2.43.0


From 0a032656c46d9a26f93e9601f9f973ea4c63774e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:09 +0000
Subject: [PATCH 44/48] fix: make the deltas of each filter relative to the
 previous filter of its kind

---
 workflow/2-generate_mlbf          | 8 +++++++-
 workflow/3-upload_mlbf_to_storage | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/workflow/2-generate_mlbf b/workflow/2-generate_mlbf
index ebc0a60..76f8247 100755
--- a/workflow/2-generate_mlbf
+++ b/workflow/2-generate_mlbf
@@ -88,9 +88,15 @@ def main():
             dest = Path(tempfile.mkdtemp())
             prev_revset = dest / Path("prev_revset.bin")
 
+            # The delta has to be relative to a filter of the same kind
+            if reason_set == "all":
+                latest_revset = "latest/revset.bin"
+            else:
+                latest_revset = f"latest/{os.path.basename(outdir)}/revset.bin"
+
             workflow.download_from_google_cloud(
                 args.filter_bucket,
-                "latest/revset.bin",
+                latest_revset,
                 prev_revset,
             )
 
diff --git a/workflow/3-upload_mlbf_to_storage b/workflow/3-upload_mlbf_to_storage
index f108303..c7829a5 100755
--- a/workflow/3-upload_mlbf_to_storage
+++ b/workflow/3-upload_mlbf_to_storage
@@ -82,6 +82,9 @@ def main():
         localFolder = Path(path)
         remoteFolder = localFolder.relative_to(runIdPath.parent)
         uploadFiles(files, localFolder, remoteFolder, bucket, args=args)
+        # Add a copy to /latest/clubcard-priority
+        subFolder = localFolder.relative_to(runIdPath)
+        uploadFiles(files, localFolder, Path("latest") / subFolder, bucket, args=args)
 
     sentinel = bucket.blob(str(Path(runIdPath.name) / "completed"))
     log.info(f"Saving 'completed' marker to {sentinel.name}")
-- 
2.43.0


From 68bdd452b7b992203c18086e94b1e1b620e67fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:04 +0000
Subject: [PATCH 45/48] fix: do not mark a run as complete when its files could
 not be listed

---
 workflow/1-upload_data_to_storage |  7 ++++++-
 workflow/3-upload_mlbf_to_storage | 10 ++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/workflow/1-upload_data_to_storage b/workflow/1-upload_data_to_storage
index c915d53..0eed39c 100755
--- a/workflow/1-upload_data_to_storage
+++ b/workflow/1-upload_data_to_storage
@@ -29,6 +29,11 @@ def uploadBlob(bucket, remoteFilePath, localFilePath):
     blob.upload_from_filename(str(localFilePath))
 
 
+def raiseError(error):
+    # os.walk ignores errors by default
+    raise error
+
+
 def uploadFiles(files, localFolder, remoteFolder, bucket, *, args):
     log.info(f"Uploading {len(files)} files from {localFolder} to {remoteFolder}")
     for item in files:
@@ -61,7 +66,7 @@ def main():
 
     runIdPath = args.results_path[0].resolve()
 
-    for path, dirs, files in os.walk(runIdPath):
+    for path, dirs, files in os.walk(runIdPath, onerror=raiseError):
         localFolder = Path(path)
         remoteFolder = localFolder.relative_to(runIdPath.parent)
         uploadFiles(files, localFolder, remoteFolder, bucket, args=args)
diff --git a/workflow/3-upload_mlbf_to_storage b/workflow/3-upload_mlbf_to_storage
index c7829a5..ab6749a 100755
--- a/workflow/3-upload_mlbf_to_storage
+++ b/workflow/3-upload_mlbf_to_storage
@@ -29,6 +29,12 @@ def uploadBlob(bucket, remoteFilePath, localFilePath):
     blob.upload_from_filename(str(localFilePath))
 
 
+def raiseError(error):
+    # os.walk ignores errors by default. A filter that was not generated is fine.
+    if not isinstance(error, FileNotFoundError):
+        raise error
+
+
 def uploadFiles(files, localFolder, remoteFolder, bucket, *, args):
     log.info(f"Uploading {len(files)} files from {localFolder} to {remoteFolder}")
     for item in files:
@@ -70,7 +76,7 @@ def main():
 
     ensureFileOrAbort(runIdPath, Path("clubcard-all/filter"))
 
-    for path, dirs, files in os.walk(runIdPath / "clubcard-all"):
+    for path, dirs, files in os.walk(runIdPath / "clubcard-all", onerror=raiseError):
         localFolder = Path(path)
         remoteFolder = localFolder.relative_to(runIdPath.parent)
         uploadFiles(files, localFolder, remoteFolder, bucket, args=args)
@@ -78,7 +84,7 @@ def main():
         subFolder = localFolder.relative_to(runIdPath / "clubcard-all")
         uploadFiles(files, localFolder, Path("latest") / subFolder, bucket, args=args)
 
-    for path, dirs, files in os.walk(runIdPath / "clubcard-priority"):
+    for path, dirs, files in os.walk(runIdPath / "clubcard-priority", onerror=raiseError):
         localFolder = Path(path)
         remoteFolder = localFolder.relative_to(runIdPath.parent)
         uploadFiles(files, localFolder, remoteFolder, bucket, args=args)
-- 
2.43.0


From e1a0796b06c70c22349d649807e454eb952a2193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:56 +0000
Subject: [PATCH 46/48] fix: refuse to aggregate with no worker threads

With numThreads below 1 aggregate-crls and aggregate-known started no
workers and ended successfully without writing any list.
---
 go/cmd/aggregate-crls/aggregate-crls.go   | 4 ++++
 go/cmd/aggregate-known/aggregate-known.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/go/cmd/aggregate-crls/aggregate-crls.go b/go/cmd/aggregate-crls/aggregate-crls.go
index 6b542f2..38e884a 100644
--- a/go/cmd/aggregate-crls/aggregate-crls.go
+++ b/go/cmd/aggregate-crls/aggregate-crls.go
@@ -526,6 +526,10 @@ func main() {
 	checkPathArg(*enrolledpath, "enrolledpath", ctconfig)
 	checkPathArg(*auditpath, "auditpath", ctconfig)
 
+	if *ctconfig.NumThreads < 1 {
+		glog.Fatalf("numThreads must be at least 1, have %d", *ctconfig.NumThreads)
+	}
+
 	if err := os.MkdirAll(*revokedpath, permModeDir); err != nil {
 		glog.Fatalf("Unable to make the revokedpath directory: %s", err)
 	}
diff --git a/go/cmd/aggregate-known/aggregate-known.go b/go/cmd/aggregate-known/aggregate-known.go
index 8efa318..5c0ef8c 100644
--- a/go/cmd/aggregate-known/aggregate-known.go
+++ b/go/cmd/aggregate-known/aggregate-known.go
@@ -167,6 +167,10 @@ func work() error {
 	checkPathArg(*knownpath, "knownpath", ctconfig)
 	checkPathArg(*ctlogspath, "ctlogspath", ctconfig)
 
+	if *ctconfig.NumThreads < 1 {
+		return fmt.Errorf("numThreads must be at least 1, have %d", *ctconfig.NumThreads)
+	}
+
 	if err := os.MkdirAll(*knownpath, permModeDir); err != nil {
 		return fmt.Errorf("Unable to make the output directory: %s", err)
 	}
-- 
2.43.0


From e6ac0f5c5b458f124e5e974bca049c9ed46cf36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:11 +0000
Subject: [PATCH 47/48] fix: publisher: treat file names without a run
 identifier as malformed records

---
 moz_kinto_publisher/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moz_kinto_publisher/main.py b/moz_kinto_publisher/main.py
index 1fa12bb..a7a5696 100755
--- a/moz_kinto_publisher/main.py
+++ b/moz_kinto_publisher/main.py
@@ -873,7 +873,7 @@ def crlite_verify_record_consistency(*, existing_records, channel):
             raise ConsistencyException(f"Malformed record {r}.")
         try:
             timestamp_from_record(r)
-            workflow.normalize_identifier(run_id_from_record(r))
+            _date, _idx = [int(x) for x in run_id_from_record(r).split("-")]
         except (AttributeError, IndexError, KeyError, TypeError, ValueError):
             raise ConsistencyException(f"Malformed record {r}.")
 
-- 
2.43.0


From 415c73d971fbd87aa8953a8aa24bd12b553ba4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:07 +0000
Subject: [PATCH 48/48] fix: rust-query-crlite: answer NotCovered when there
 are no filters

---
 rust-query-crlite/src/main.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/rust-query-crlite/src/main.rs b/rust-query-crlite/src/main.rs
index 0633d73..daede44 100644
--- a/rust-query-crlite/src/main.rs
+++ b/rust-query-crlite/src/main.rs
@@ -335,12 +335,16 @@ impl CRLiteDB {
         // It might be useful to inspect a firefox profile without updating
         // the other files. So let's fetch the intermediates file if it's the
         // only one missing.
-        if !intermediates_path.exists() {
+        // Without a filter there is no run to fetch it for, and no need to.
+        if !intermediates_path.exists() && !filters.is_empty() {
             update_intermediates(db_dir)?;
         }
 
-        let intermediates_bytes = std::fs::read(intermediates_path)?;
-        let intermediates = Intermediates::from_bincode(&intermediates_bytes)?;
+        let intermediates = if intermediates_path.exists() {
+            Intermediates::from_bincode(&std::fs::read(intermediates_path)?)?
+        } else {
+            Intermediates::new()
+        };
 
         Ok(CRLiteDB {
             filters,
@@ -355,6 +359,11 @@ impl CRLiteDB {
         debug!("Subject DN: {}", cert.tbs_certificate.subject);
         debug!("Serial number: {}", hex::encode(serial));
 
+        // Without filters nothing is covered.
+        if self.filters.is_empty() {
+            return Status::NotCovered;
+        }
+
         let issuer_spki = match self.intermediates.lookup_issuer_spki(cert) {
             Some(issuer_spki) => issuer_spki.raw,
             _ => return Status::NotEnrolled,
-- 
2.43.0

