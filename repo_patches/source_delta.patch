From a1f9139c9a44116a94311a7b4de080a486b78e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:06 +0000
Subject: [PATCH 01/93] fix: reserve the first window block so that a synced
 topic never has offset zero

---
 time_window_writer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/time_window_writer.go b/time_window_writer.go
index d836dc0..621ba40 100644
--- a/time_window_writer.go
+++ b/time_window_writer.go
@@ -35,7 +35,8 @@ type _WindowWriter struct {
 }
 
 func newWindowWriter(fs *_FileSet, buf *bpool.Buffer) (*_WindowWriter, error) {
-	w := &_WindowWriter{windowIdx: -1, winBlocks: make(map[int32]_WinBlock), winLeases: make(map[int32][]uint64), fs: fs, buffer: buf}
+	// The first block is reserved, a topic offset of zero means that topic is not synced yet.
+	w := &_WindowWriter{windowIdx: 0, winBlocks: make(map[int32]_WinBlock), winLeases: make(map[int32][]uint64), fs: fs, buffer: buf}
 	winFile, err := fs.getFile(_FileDesc{fileType: typeTimeWindow})
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 8a31382cb2bac425f54546acf5decde236eeb879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:05 +0000
Subject: [PATCH 02/93] fix: memdb.Get reads a time block under its lock and
 never a block that is released

---
 memdb/block.go       | 14 ++++++++
 memdb/db.go          | 82 ++++++++++----------------------------------
 memdb/db_internal.go | 75 +++-------------------------------------
 memdb/query.go       | 26 --------------
 4 files changed, 38 insertions(+), 159 deletions(-)
 delete mode 100644 memdb/query.go

diff --git a/memdb/block.go b/memdb/block.go
index 59ee26b..ac0c8c5 100644
--- a/memdb/block.go
+++ b/memdb/block.go
@@ -18,6 +18,7 @@ package memdb
 
 import (
 	"encoding/binary"
+	"sort"
 	"sync"
 
 	"github.com/unit-io/bpool"
@@ -65,6 +66,19 @@ func iKey(delFlag bool, k uint64) _Key {
 	return _Key{delFlag: dFlag, key: k}
 }
 
+// timeIDs returns time IDs of the filter, most recent time ID first.
+func (r *_TimeFilter) timeIDs() (timeIDs []_TimeID) {
+	r.RLock()
+	defer r.RUnlock()
+	for timeID := range r.timeRecords {
+		timeIDs = append(timeIDs, timeID)
+	}
+	sort.Slice(timeIDs[:], func(i, j int) bool {
+		return timeIDs[i] > timeIDs[j]
+	})
+	return timeIDs
+}
+
 func (b *_Block) get(off int64) ([]byte, error) {
 	scratch, err := b.data.Slice(off, off+4) // read data length.
 	if err != nil {
diff --git a/memdb/db.go b/memdb/db.go
index 3bffcce..d4ad853 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -97,9 +97,6 @@ func Open(opts ...Options) (*DB, error) {
 		}
 	}
 
-	// Query manager
-	db.newQueryManager()
-
 	// Log Manager
 	db.newLogManager(&_TinyLogOptions{poolCapacity: nPoolSize, writeInterval: options.logInterval, blockDuration: options.timeBlockDuration})
 
@@ -183,76 +180,35 @@ func (db *DB) Get(key uint64) ([]byte, error) {
 
 	db.mu.RLock()
 	// Get time block
-	blockKey := db.blockKey(key)
+	r, ok := db.timeFilters[db.blockKey(key)]
 	db.mu.RUnlock()
-
-	// first execute query plan
-	if len(db.internal.queryManager.timeFilters[blockKey].timeRecords) == 0 {
-		if err := db.seek(key, 0); err != nil {
-			return nil, err
-		}
+	if !ok {
+		return nil, errEntryDoesNotExist
 	}
 
-	// Lookup key first for the current timeRecord.
-	block, ok := db.internal.queryManager.timeBlocks[db.internal.queryManager.timeRcord]
-	if ok {
+	for _, timeID := range r.timeIDs() {
+		block, ok := db.timeBlock(timeID)
+		if !ok {
+			continue
+		}
+		// block is locked until data is copied, so that the block is not released while data is being read.
 		block.RLock()
 		off, ok := block.records[iKey(false, key)]
+		if !ok {
+			block.RUnlock()
+			continue
+		}
+		data, err := block.get(off)
 		block.RUnlock()
-		if ok {
-			block.RLock()
-			defer block.RUnlock()
-
-			db.internal.meter.Gets.Inc(1)
-
-			return block.get(off)
+		if err != nil {
+			return nil, err
 		}
-	}
+		db.internal.meter.Gets.Inc(1)
 
-	db.mu.RLock()
-	// Get time block
-	r, ok := db.internal.queryManager.timeFilters[blockKey]
-	db.mu.RUnlock()
-	if !ok {
-		return nil, errEntryDoesNotExist
-	}
-
-	var timeIDs []_TimeID
-	r.RLock()
-	for timeID := range r.timeRecords {
-		timeIDs = append(timeIDs, timeID)
-	}
-	r.RUnlock()
-	sort.Slice(timeIDs[:], func(i, j int) bool {
-		return timeIDs[i] > timeIDs[j]
-	})
-	for _, timeID := range timeIDs {
-		block, ok := db.internal.queryManager.timeBlocks[timeID]
-		if ok {
-			block.RLock()
-			off, ok := block.records[iKey(false, key)]
-			block.RUnlock()
-			if ok {
-				block.RLock()
-				defer block.RUnlock()
-				db.internal.meter.Gets.Inc(1)
-				db.internal.queryManager.timeRcord = timeID
-
-				return block.get(off)
-			}
-			r.RLock()
-			fltr := r.timeRecords[timeID]
-			r.RUnlock()
-			if !fltr.Test(key) {
-				break
-			}
-		}
+		return data, nil
 	}
 
-	// reset timeBlock and start over
-	db.internal.queryManager.timeFilters[blockKey] = &_TimeFilter{timeRecords: make(map[_TimeID]*filter.Block), filter: filter.NewFilterGenerator()}
-
-	return db.Get(key)
+	return nil, errEntryDoesNotExist
 }
 
 // BlockIterator iterates all time blocks from DB committed to the WAL.
diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index c86d10f..86c6dfd 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -20,7 +20,6 @@ import (
 	"encoding/binary"
 	"errors"
 	"io"
-	"sort"
 	"sync/atomic"
 	"time"
 
@@ -73,9 +72,6 @@ type _DB struct {
 	// Write ahead log
 	wal *wal.WAL
 
-	// query
-	queryManager *_QueryManager
-
 	// close
 	closed uint32
 	closer io.Closer
@@ -172,70 +168,6 @@ func (db *DB) addTimeFilter(timeID _TimeID, key uint64) error {
 	return nil
 }
 
-func (db *DB) newQueryManager() {
-	queryManager := &_QueryManager{timeBlocks: make(map[_TimeID]*_Block), timeFilters: make(map[_BlockKey]*_TimeFilter)}
-	for i := 0; i < nBlocks; i++ {
-		queryManager.timeFilters[_BlockKey(i)] = &_TimeFilter{timeRecords: make(map[_TimeID]*filter.Block), filter: filter.NewFilterGenerator()}
-	}
-
-	db.internal.queryManager = queryManager
-}
-
-// seek finds timeRecords and timeBlock for the provided key and cutoff duration and caches those for query.
-func (db *DB) seek(key uint64, cutoff int64) error {
-	if err := db.ok(); err != nil {
-		return err
-	}
-
-	db.mu.RLock()
-	// Get time block
-	blockKey := db.blockKey(key)
-	r, ok := db.timeFilters[blockKey]
-	db.mu.RUnlock()
-	if !ok {
-		return errEntryDoesNotExist
-	}
-
-	var timeIDs []_TimeID
-	r.RLock()
-	for timeID := range r.timeRecords {
-		timeIDs = append(timeIDs, timeID)
-	}
-	r.RUnlock()
-	sort.Slice(timeIDs[:], func(i, j int) bool {
-		return timeIDs[i] > timeIDs[j]
-	})
-	for _, timeID := range timeIDs {
-		db.mu.RLock()
-		block, ok := db.timeBlocks[timeID]
-		db.mu.RUnlock()
-		if ok {
-			block.RLock()
-			_, ok := block.records[iKey(false, key)]
-			block.RUnlock()
-			if ok {
-				b, ok := db.internal.queryManager.timeFilters[blockKey]
-				if ok {
-					b.timeRecords[timeID] = filter.NewFilterBlock(r.filter.Bytes())
-				}
-				db.internal.queryManager.timeBlocks[timeID] = block
-				if cutoff != 0 {
-					db.internal.queryManager.cutoff = _TimeID(cutoff)
-				}
-				return nil
-			}
-			r.RLock()
-			fltr := r.timeRecords[timeID]
-			r.RUnlock()
-			if !fltr.Test(key) {
-				return errEntryDoesNotExist
-			}
-		}
-	}
-
-	return errEntryDoesNotExist
-}
-
 // move moves the entry to the new block
 func (db *DB) move(timeID _TimeID, key uint64) error {
 	newTimeID := db.timeID()
@@ -319,8 +251,8 @@ func (db *DB) releaseLog(timeID _TimeID) error {
 		return errEntryDoesNotExist
 	}
 
-	block.RLock()
-	defer block.RUnlock()
+	block.Lock()
+	defer block.Unlock()
 	for _, timeRef := range block.timeRefs {
 		if err := db.internal.wal.SignalLogApplied(int64(timeRef)); err != nil {
 			return err
@@ -332,6 +264,9 @@ func (db *DB) releaseLog(timeID _TimeID) error {
 	delete(db.timeBlocks, _TimeID(timeID))
 	db.internal.timeMark.timeUnref(timeID)
 
+	// release records as block data is recycled.
+	block.records = make(map[_Key]int64)
+	block.count = 0
 	db.internal.buffer.Put(block.data)
 
 	return nil
diff --git a/memdb/query.go b/memdb/query.go
deleted file mode 100644
index 9538895..0000000
--- a/memdb/query.go
+++ /dev/null
@@ -1,26 +0,0 @@
-/*
- * Copyright 2020 Saffat Technologies, Ltd.
- *
- * Licensed under the Apache License, Version 2.0 (the "License");
- * you may not use this file except in compliance with the License.
- * You may obtain a copy of the License at
- *
- *     http://www.apache.org/licenses/LICENSE-2.0
- *
- * Unless required by applicable law or agreed to in writing, software
- * distributed under the License is distributed on an "AS IS" BASIS,
- * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
- * See the License for the specific language governing permissions and
- * limitations under the License.
- */
-
-package memdb
-
-type _QueryManager struct {
-	timeRcord   _TimeID
-	timeFilters map[_BlockKey]*_TimeFilter
-	timeBlocks  _TimeBlocks
-
-	cutoff _TimeID
-	limit  int
-}
-- 
2.43.0


From 0ebf604de752310dbc359ff46c6c07b111e058e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:20 +0000
Subject: [PATCH 03/93] fix: Get returns most recent entries of the topic up to
 the query limit

---
 db.go          | 35 +++++++---------------
 db_internal.go | 26 +++++++++++-----
 time_window.go | 80 ++++++++++++++++++--------------------------------
 3 files changed, 57 insertions(+), 84 deletions(-)

diff --git a/db.go b/db.go
index 59bc810..1bd7f48 100644
--- a/db.go
+++ b/db.go
@@ -22,7 +22,6 @@ import (
 	"fmt"
 	"math/rand"
 	"os"
-	"sort"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -238,22 +237,14 @@ func (db *DB) Get(q *Query) (items [][]byte, err error) {
 	mu := db.internal.mutex.getMutex(q.internal.prefix)
 	mu.RLock()
 	defer mu.RUnlock()
-	db.lookup(q)
-	if len(q.internal.winEntries) == 0 {
-		return
-	}
-	sort.Slice(q.internal.winEntries[:], func(i, j int) bool {
-		return q.internal.winEntries[i].seq > q.internal.winEntries[j].seq
-	})
-	start := 0
-	limit := q.Limit
-	if len(q.internal.winEntries) < int(q.Limit) {
-		limit = len(q.internal.winEntries)
-	}
-
-	for {
+	for limit := q.Limit; ; {
+		items = items[:0]
 		invalidCount := 0
-		for _, query := range q.internal.winEntries[start:limit] {
+		db.lookup(q, limit)
+		for _, query := range q.internal.winEntries {
+			if len(items) == q.Limit {
+				break
+			}
 			err = func() error {
 				if query.seq == 0 {
 					return nil
@@ -301,17 +292,11 @@ func (db *DB) Get(q *Query) (items [][]byte, err error) {
 			}
 		}
 
-		if invalidCount == 0 || len(items) == int(q.Limit) || len(q.internal.winEntries) == limit {
+		// Lookup again with larger limit if invalid entries took the place of valid ones.
+		if len(items) == q.Limit || len(q.internal.winEntries) < limit || limit >= q.Limit+invalidCount {
 			break
 		}
-
-		if len(q.internal.winEntries) <= int(q.Limit+invalidCount) {
-			start = limit
-			limit = len(q.internal.winEntries)
-		} else {
-			start = limit
-			limit = limit + invalidCount
-		}
+		limit = q.Limit + invalidCount
 	}
 	db.internal.meter.Gets.Inc(int64(len(items)))
 	db.internal.meter.OutMsgs.Inc(int64(len(items)))
diff --git a/db_internal.go b/db_internal.go
index 8b59f82..615a40b 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -214,21 +214,31 @@ func (db *DB) readEntry(q _Query) (_IndexEntry, error) {
 // lookups are performed in following order
 // ilookup lookups in memory entries from timeWindow
 // lookup lookups persisted entries from timeWindow file.
-func (db *DB) lookup(q *Query) error {
+// It collects up to limit most recent entries of each topic, and orders those most recent first.
+func (db *DB) lookup(q *Query, limit int) error {
+	q.internal.winEntries = q.internal.winEntries[:0]
+	seqs := make(map[uint64]struct{})
 	topics := db.internal.trie.lookup(q.internal.parts, q.internal.depth, q.internal.topicType)
-	sort.Slice(topics[:], func(i, j int) bool {
-		return topics[i].offset > topics[j].offset
-	})
 	for _, topic := range topics {
-		if len(q.internal.winEntries) > q.Limit {
-			break
+		wEntries := db.internal.timeWindow.ilookup(topic.hash, limit)
+		// Entries could be sync to the window file during in memory lookup, so get current offset of the topic.
+		if off, ok := db.internal.trie.getOffset(topic.hash); ok && off != 0 {
+			wEntries = append(wEntries, db.internal.timeWindow.lookup(db.fs, topic.hash, off, q.internal.cutoff, limit)...)
 		}
-		limit := q.Limit - len(q.internal.winEntries)
-		wEntries := db.internal.timeWindow.lookup(db.fs, topic.hash, topic.offset, q.internal.cutoff, limit)
 		for _, we := range wEntries {
+			if _, ok := seqs[we.seq()]; ok {
+				continue
+			}
+			seqs[we.seq()] = struct{}{}
 			q.internal.winEntries = append(q.internal.winEntries, _Query{topicHash: topic.hash, seq: we.seq()})
 		}
 	}
+	sort.Slice(q.internal.winEntries[:], func(i, j int) bool {
+		return q.internal.winEntries[i].seq > q.internal.winEntries[j].seq
+	})
+	if len(q.internal.winEntries) > limit {
+		q.internal.winEntries = q.internal.winEntries[:limit]
+	}
 
 	return nil
 }
diff --git a/time_window.go b/time_window.go
index a7eeb4c..3638430 100644
--- a/time_window.go
+++ b/time_window.go
@@ -19,6 +19,7 @@ package unitdb
 import (
 	"encoding/binary"
 	"fmt"
+	"sort"
 	"sync"
 	"time"
 
@@ -217,49 +218,50 @@ func (tw *_TimeWindowBucket) release() func(timeID int64) error {
 }
 
 // ilookup lookups window entries from timeWindowBucket and not yet sync to DB.
+// It returns most recent entries first.
 func (tw *_TimeWindowBucket) ilookup(topicHash uint64, limit int) (winEntries _WindowEntries) {
 	winEntries = make([]_WinEntry, 0)
 	// get windowBlock shard.
 	b := tw.windowBlocks.getWindowBlock(topicHash)
 	b.mu.RLock()
 	defer b.mu.RUnlock()
-	var l int
-	var expiryCount int
 
-	for key := range b.entries {
+	for key, wEntries := range b.entries {
 		if key.topicHash != topicHash {
 			continue
 		}
-		wEntries := b.entries[key]
-		if len(wEntries) > 0 {
-			l = limit + expiryCount - l
-			if len(wEntries) < l {
-				l = len(wEntries)
-			}
-			for i := len(wEntries) - 1; i >= len(wEntries)-l; i-- {
-				we := wEntries[i]
-				if we.isExpired() {
-					if err := tw.expiryWindowBucket.addExpiry(we); err != nil {
-						expiryCount++
-						logger.Error().Err(err).Str("context", "timeWindow.addExpiry")
-					}
-					// if id is expired it does not return an error but continue the iteration.
-					continue
-				}
-				winEntries = append(winEntries, we)
+		for _, we := range wEntries {
+			if tw.expired(we) {
+				// if id is expired it does not return an error but continue the iteration.
+				continue
 			}
+			winEntries = append(winEntries, we)
 		}
 	}
+	sort.Slice(winEntries[:], func(i, j int) bool {
+		return winEntries[i].seq() > winEntries[j].seq()
+	})
+	if len(winEntries) > limit {
+		winEntries = winEntries[:limit]
+	}
 	return winEntries
 }
 
+// expired adds entry to the expiry window if it is expired.
+func (tw *_TimeWindowBucket) expired(we _WinEntry) bool {
+	if !we.isExpired() {
+		return false
+	}
+	if err := tw.expiryWindowBucket.addExpiry(we); err != nil {
+		logger.Error().Err(err).Str("context", "timeWindow.addExpiry")
+	}
+	return true
+}
+
 // lookup lookups window entries from window file.
+// It returns most recent entries first, starting from the window block at the given offset.
 func (tw *_TimeWindowBucket) lookup(fs *_FileSet, topicHash uint64, off, cutoff int64, limit int) (winEntries _WindowEntries) {
 	winEntries = make([]_WinEntry, 0)
-	winEntries = tw.ilookup(topicHash, limit)
-	if len(winEntries) >= limit {
-		return winEntries
-	}
 	winFile, err := fs.getFile(_FileDesc{fileType: typeTimeWindow})
 	if err != nil {
 		return winEntries
@@ -280,45 +282,21 @@ func (tw *_TimeWindowBucket) lookup(fs *_FileSet, topicHash uint64, off, cutoff
 			blockOff = b.next
 		}
 	}
-	expiryCount := 0
 	err = next(off, func(curb _WinBlock) (bool, error) {
 		b := &curb
-		if b.topicHash != topicHash {
+		if b.topicHash != topicHash || b.cutoff(cutoff) {
 			return true, nil
 		}
-		if len(winEntries) > limit-int(b.entryIdx) {
-			limit = limit - len(winEntries)
-			for i := len(b.entries[:b.entryIdx]) - 1; i >= len(b.entries[:b.entryIdx])-limit; i-- {
-				we := b.entries[i]
-				if we.isExpired() {
-					if err := tw.expiryWindowBucket.addExpiry(we); err != nil {
-						expiryCount++
-						logger.Error().Err(err).Str("context", "timeWindow.addExpiry")
-					}
-					// if id is expired it does not return an error but continue the iteration.
-					continue
-				}
-				winEntries = append(winEntries, we)
-			}
+		for i := int(b.entryIdx) - 1; i >= 0; i-- {
 			if len(winEntries) >= limit {
 				return true, nil
 			}
-		}
-		for i := len(b.entries[:b.entryIdx]) - 1; i >= 0; i-- {
 			we := b.entries[i]
-			if we.isExpired() {
-				if err := tw.expiryWindowBucket.addExpiry(we); err != nil {
-					expiryCount++
-					logger.Error().Err(err).Str("context", "timeWindow.addExpiry")
-				}
+			if tw.expired(we) {
 				// if id is expired it does not return an error but continue the iteration.
 				continue
 			}
 			winEntries = append(winEntries, we)
-
-		}
-		if b.cutoff(cutoff) {
-			return true, nil
 		}
 		return false, nil
 	})
-- 
2.43.0


From d8828d8a9e7a4e78d060b0c9b7ca923fd482d5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:17 +0000
Subject: [PATCH 04/93] fix: a batch that returns an error is rolled back
 instead of panicking, and an uncommitted batch leaves no entries

---
 batch.go       | 20 ++++++++++++++++++--
 db.go          |  1 +
 memdb/batch.go | 14 ++++++++++++--
 memdb/db.go    |  1 +
 4 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/batch.go b/batch.go
index d592255..a0d430a 100644
--- a/batch.go
+++ b/batch.go
@@ -47,6 +47,7 @@ type (
 		opts       *_Options
 		managed    bool
 		writeLockC chan struct{}
+		timeIDs    []int64 // time IDs of the entries written and not yet committed.
 
 		index  []_BatchIndex
 		buffer *bpool.Buffer
@@ -203,8 +204,9 @@ func (b *Batch) Write() error {
 	}
 	topics := make(map[uint64]*message.Topic)
 	timeID := b.mem.TimeID()
+	b.timeIDs = append(b.timeIDs, timeID)
 	var seqs []uint64
-	b.writeInternal(func(i int, e _Entry, data []byte) error {
+	err := b.writeInternal(func(i int, e _Entry, data []byte) error {
 		if e.topicSize != 0 {
 			t, ok := topics[e.topicHash]
 			if !ok {
@@ -224,8 +226,13 @@ func (b *Batch) Write() error {
 		seqs = append(seqs, e.seq)
 		return nil
 	})
+	if err != nil {
+		return err
+	}
 
-	b.mem.Write()
+	if err := b.mem.Write(); err != nil {
+		return err
+	}
 	b.reset()
 
 	return nil
@@ -252,6 +259,7 @@ func (b *Batch) Commit() error {
 	if err := b.mem.Commit(); err != nil {
 		return err
 	}
+	b.timeIDs = b.timeIDs[:0]
 
 	return nil
 }
@@ -267,6 +275,14 @@ func (b *Batch) Abort() {
 	_assert(!b.managed, "managed batch abort not allowed")
 
 	b.reset()
+	if len(b.timeIDs) > 0 {
+		// rollback entries that are already written.
+		timeRelease := b.db.internal.timeWindow.release()
+		for _, timeID := range b.timeIDs {
+			timeRelease(timeID)
+		}
+		b.timeIDs = b.timeIDs[:0]
+	}
 	b.mem.Abort()
 	b.db.internal.bufPool.Put(b.buffer)
 	b.db = nil
diff --git a/db.go b/db.go
index 1bd7f48..9ade583 100644
--- a/db.go
+++ b/db.go
@@ -423,6 +423,7 @@ func (db *DB) Batch(fn func(*Batch, <-chan struct{}) error) error {
 
 	// If an error is returned from the function then rollback and return error.
 	if err := fn(b, b.commitComplete); err != nil {
+		b.unsetManaged()
 		b.Abort()
 		close(b.commitComplete)
 		return err
diff --git a/memdb/batch.go b/memdb/batch.go
index 7290373..77a9e1e 100644
--- a/memdb/batch.go
+++ b/memdb/batch.go
@@ -38,7 +38,10 @@ type Batch struct {
 
 func (b *Batch) newTinyLog() {
 	timeID := _TimeID(time.Now().UTC().UnixNano())
-	b.db.addTimeBlock(timeID)
+	// batch does not share its time block.
+	for !b.db.addTimeBlock(timeID) {
+		timeID++
+	}
 	b.tinyLog = &_TinyLog{id: timeID, _TimeID: timeID, managed: true, doneChan: make(chan struct{})}
 }
 
@@ -119,7 +122,14 @@ func (b *Batch) Commit() error {
 //Abort aborts batch or perform cleanup operation on batch complete.
 func (b *Batch) Abort() error {
 	_assert(!b.managed, "managed batch abort not allowed")
-	for _, ID := range b.batchGroup {
+	if b.db == nil {
+		// batch is already committed or aborted.
+		return nil
+	}
+	// entries put into the batch after last write are discarded with its time block.
+	batchGroup := append(b.batchGroup, b.tinyLog.timeID())
+	b.batchGroup = nil
+	for _, ID := range batchGroup {
 		if err := b.db.releaseLog(ID); err != nil {
 			return err
 		}
diff --git a/memdb/db.go b/memdb/db.go
index d4ad853..6f66b9f 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -364,6 +364,7 @@ func (db *DB) Batch(fn func(*Batch, <-chan struct{}) error) error {
 	b.setManaged()
 	// If an error is returned from the function then rollback and return error.
 	if err := fn(b, b.commitComplete); err != nil {
+		b.unsetManaged()
 		b.Abort()
 		close(b.commitComplete)
 		return err
-- 
2.43.0


From 1f5304b3106667e222705000b663624adaed09e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:30 +0000
Subject: [PATCH 05/93] fix: memdb accepts entries for a time block that is
 free or being synced into a new block, and does not write recycled block data
 to the log

---
 memdb/batch.go       |  2 +-
 memdb/block.go       |  3 +++
 memdb/db.go          | 15 +++++++------
 memdb/db_internal.go | 50 +++++++++++++++++++++++++++++++++++++++-----
 4 files changed, 56 insertions(+), 14 deletions(-)

diff --git a/memdb/batch.go b/memdb/batch.go
index 77a9e1e..c6c12e1 100644
--- a/memdb/batch.go
+++ b/memdb/batch.go
@@ -39,7 +39,7 @@ type Batch struct {
 func (b *Batch) newTinyLog() {
 	timeID := _TimeID(time.Now().UTC().UnixNano())
 	// batch does not share its time block.
-	for !b.db.addTimeBlock(timeID) {
+	for !b.db.addTimeBlock(timeID) && !b.db.isClosed() {
 		timeID++
 	}
 	b.tinyLog = &_TinyLog{id: timeID, _TimeID: timeID, managed: true, doneChan: make(chan struct{})}
diff --git a/memdb/block.go b/memdb/block.go
index ac0c8c5..0d0a20b 100644
--- a/memdb/block.go
+++ b/memdb/block.go
@@ -54,6 +54,9 @@ type (
 
 		timeRefs   []_TimeID
 		lastOffset int64 // last offset of block data written to the log
+
+		sealed   bool // entries are handed over to sync, block does not accept new entries
+		released bool // block is released from DB and its data is recycled
 	}
 )
 
diff --git a/memdb/db.go b/memdb/db.go
index 6f66b9f..31d0ea4 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -109,6 +109,8 @@ func (db *DB) Close() error {
 		return err
 	}
 
+	db.mu.Lock()
+	defer db.mu.Unlock()
 	if db.timeBlocks != nil {
 		db.timeBlocks = nil
 		db.version = -1
@@ -223,13 +225,15 @@ func (db *DB) BlockIterator(f func(timeID int64, keys []uint64) (bool, error)) (
 			continue
 		}
 		var keys []uint64
-		block.RLock()
+		block.Lock()
+		// Entries put after this point would be lost once the block is free.
+		block.sealed = true
 		for ik := range block.records {
 			if ik.delFlag == 0 {
 				keys = append(keys, ik.key)
 			}
 		}
-		block.RUnlock()
+		block.Unlock()
 		if len(keys) == 0 {
 			continue
 		}
@@ -325,15 +329,10 @@ func (db *DB) Put(key uint64, data []byte) (int64, error) {
 		return 0, err
 	}
 
-	timeID := db.timeID()
-	db.mu.RLock()
-	block, ok := db.timeBlocks[timeID]
-	db.mu.RUnlock()
+	timeID, block, ok := db.currentBlock()
 	if !ok {
 		return 0, errForbidden
 	}
-
-	block.Lock()
 	defer block.Unlock()
 	ikey := iKey(false, key)
 	if err := block.put(ikey, data); err != nil {
diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index 86c6dfd..fc68267 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -20,6 +20,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"io"
+	"runtime"
 	"sync/atomic"
 	"time"
 
@@ -128,6 +129,10 @@ func (db *DB) cap() float64 {
 func (db *DB) addTimeBlock(timeID _TimeID) (ok bool) {
 	db.mu.Lock()
 	defer db.mu.Unlock()
+	if db.timeBlocks == nil {
+		// db is closed.
+		return false
+	}
 	if _, ok := db.timeBlocks[timeID]; !ok {
 		db.timeBlocks[timeID] = &_Block{data: db.internal.buffer.Get(), records: make(map[_Key]int64)}
 		return true
@@ -146,6 +151,26 @@ func (db *DB) timeBlock(timeID _TimeID) (*_Block, bool) {
 	return nil, false
 }
 
+// currentBlock returns locked time block that accepts new entries.
+func (db *DB) currentBlock() (_TimeID, *_Block, bool) {
+	for !db.isClosed() {
+		timeID := db.timeID()
+		block, ok := db.timeBlock(timeID)
+		if !ok {
+			// time block is free before a new time ID is assigned.
+			db.addTimeBlock(timeID)
+			continue
+		}
+		block.Lock()
+		if !block.sealed && !block.released {
+			return timeID, block, true
+		}
+		block.Unlock()
+		runtime.Gosched()
+	}
+	return 0, nil, false
+}
+
 // addTimeFilter adds unique time block to the set.
 func (db *DB) addTimeFilter(timeID _TimeID, key uint64) error {
 	blockKey := db.blockKey(key)
@@ -170,14 +195,12 @@ func (db *DB) addTimeFilter(timeID _TimeID, key uint64) error {
 
 // move moves the entry to the new block
 func (db *DB) move(timeID _TimeID, key uint64) error {
-	newTimeID := db.timeID()
 	// add deleted key to new time block to persist deleted entry to the WAL.
 	dkey := iKey(true, key)
-	newBlock, ok := db.timeBlock(newTimeID)
+	newTimeID, newBlock, ok := db.currentBlock()
 	if !ok {
 		return errForbidden
 	}
-	newBlock.Lock()
 	defer newBlock.Unlock()
 
 	rawTimeID := make([]byte, 8)
@@ -198,22 +221,31 @@ func (db *DB) tinyWrite(tinyLog *_TinyLog) error {
 		return nil
 	}
 	block.RLock()
+	if block.released {
+		block.RUnlock()
+		return nil
+	}
 	blockSize := block.data.Size()
 	log, err := block.data.Slice(block.lastOffset, blockSize)
-	block.RUnlock()
 	if err != nil {
+		block.RUnlock()
 		return err
 	}
 	if len(log) == 0 {
 		// nothing to write
+		block.RUnlock()
 		return nil
 	}
 	logWriter, err := db.internal.wal.NewWriter()
 	if err != nil {
+		block.RUnlock()
 		return err
 	}
 
-	if err := <-logWriter.Append(log); err != nil {
+	// block is locked until log is copied, so that the block data is not recycled while it is being read.
+	err = <-logWriter.Append(log)
+	block.RUnlock()
+	if err != nil {
 		return err
 	}
 	if err := <-logWriter.SignalInitWrite(int64(tinyLog.ID())); err != nil {
@@ -222,6 +254,10 @@ func (db *DB) tinyWrite(tinyLog *_TinyLog) error {
 
 	block.Lock()
 	defer block.Unlock()
+	if block.released {
+		// entries are applied while log was being written.
+		return db.internal.wal.SignalLogApplied(int64(tinyLog.ID()))
+	}
 	block.lastOffset = blockSize
 	block.timeRefs = append(block.timeRefs, tinyLog.ID())
 
@@ -253,6 +289,9 @@ func (db *DB) releaseLog(timeID _TimeID) error {
 
 	block.Lock()
 	defer block.Unlock()
+	if block.released {
+		return errEntryDoesNotExist
+	}
 	for _, timeRef := range block.timeRefs {
 		if err := db.internal.wal.SignalLogApplied(int64(timeRef)); err != nil {
 			return err
@@ -267,6 +306,7 @@ func (db *DB) releaseLog(timeID _TimeID) error {
 	// release records as block data is recycled.
 	block.records = make(map[_Key]int64)
 	block.count = 0
+	block.released = true
 	db.internal.buffer.Put(block.data)
 
 	return nil
-- 
2.43.0


From 9268af19ecb5de4093f91797f4ac4704ace189c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:28 +0000
Subject: [PATCH 06/93] fix: topics and their most recent window block are
 found again when the DB is opened

---
 db_internal.go        | 43 ++++++++++++++++++++++---------------------
 time_window_reader.go |  6 +++---
 2 files changed, 25 insertions(+), 24 deletions(-)

diff --git a/db_internal.go b/db_internal.go
index 615a40b..70219c7 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -164,29 +164,30 @@ func (db *DB) close() error {
 	return err
 }
 
-// loadTopicHash loads topic and offset from window blocks on stored on disk.
+// loadTrie loads topics and offset of the most recent window block of each topic from window blocks stored on disk.
 func (db *DB) loadTrie() error {
 	r := newWindowReader(db.fs)
-	err := r.blockIterator(func(startSeq, topicHash uint64, off int64) (bool, error) {
-		e, err := db.internal.reader.readEntry(startSeq)
-		if err != nil {
-			return true, err
-		}
-		if e.topicSize == 0 {
+	err := r.blockIterator(func(b _WinBlock, off int64) (bool, error) {
+		// blocks are ordered so that most recent window block of the topic is the last one.
+		if ok := db.internal.trie.setOffset(newTopic(b.topicHash, off)); ok {
 			return false, nil
 		}
-		rawtopic, err := db.internal.reader.readTopic(e)
-		if err != nil {
-			return true, err
-		}
-		t := new(message.Topic)
-		err = t.Unmarshal(rawtopic)
-		if err != nil {
-			return true, err
-		}
-		if ok := db.internal.trie.add(newTopic(topicHash, off), t.Parts, t.Depth); !ok {
-			logger.Info().Str("context", "db.loadTrie: topic exist in the trie")
-			return false, nil
+		// topic is packed into its first entries, and any of those could be invalid.
+		for i := 0; i < int(b.entryIdx); i++ {
+			e, err := db.internal.reader.readEntry(b.entries[i].seq())
+			if err != nil || e.topicSize == 0 {
+				continue
+			}
+			rawtopic, err := db.internal.reader.readTopic(e)
+			if err != nil {
+				continue
+			}
+			t := new(message.Topic)
+			if err := t.Unmarshal(rawtopic); err != nil {
+				continue
+			}
+			db.internal.trie.add(newTopic(b.topicHash, off), t.Parts, t.Depth)
+			break
 		}
 		return false, nil
 	})
@@ -278,8 +279,8 @@ func (db *DB) setEntry(e *Entry) error {
 		}
 		t.AddContract(e.Contract)
 		e.entry.topicHash = t.GetHash(e.Contract)
-		// topic is packed if it is new topic entry
-		if _, ok := db.internal.trie.getOffset(e.entry.topicHash); !ok {
+		// topic is packed until an entry of the topic is synced, as entries packed earlier may never be synced.
+		if off, ok := db.internal.trie.getOffset(e.entry.topicHash); !ok || off == 0 {
 			rawTopic = t.Marshal()
 			e.entry.topicSize = uint16(len(rawTopic))
 		}
diff --git a/time_window_reader.go b/time_window_reader.go
index cfe3ca2..7b130d4 100644
--- a/time_window_reader.go
+++ b/time_window_reader.go
@@ -55,7 +55,7 @@ func (r *_WindowReader) readWindowBlock() (_WinBlock, error) {
 }
 
 // blockIterator iterates all window blocks from disk.
-func (r *_WindowReader) blockIterator(f func(startSeq, topicHash uint64, off int64) (bool, error)) (err error) {
+func (r *_WindowReader) blockIterator(f func(b _WinBlock, off int64) (bool, error)) (err error) {
 	windowIdx := int32(0)
 	nBlocks := r.windowIdx
 	for windowIdx <= nBlocks {
@@ -68,11 +68,11 @@ func (r *_WindowReader) blockIterator(f func(startSeq, topicHash uint64, off int
 			return err
 		}
 		windowIdx++
-		if b.entryIdx == 0 || b.next != 0 {
+		if b.entryIdx == 0 {
 			continue
 		}
 		// fmt.Println("timeWindow.blockIterator: topicHash, seq ", b.topicHash, b.entries[0].sequence)
-		if stop, err := f(b.entries[0].sequence, b.topicHash, r.offset); stop || err != nil {
+		if stop, err := f(b, r.offset); stop || err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 198e465a3dc96ed68bc555e2656f56453fc08a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:27 +0000
Subject: [PATCH 07/93] fix: topic hash depends on the order and wildcards of
 topic parts, and leading wildcards are matched

---
 message/topic.go | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/message/topic.go b/message/topic.go
index 78d122e..30f9af6 100644
--- a/message/topic.go
+++ b/message/topic.go
@@ -40,6 +40,9 @@ const (
 
 	// Wildcard wildcard is hash for wildcard topic such as '*' or '...'
 	Wildcard = uint32(857445537)
+
+	hashInit  = uint64(14695981039346656037)
+	hashPrime = uint64(1099511628211)
 )
 
 // TopicOption represents a key/value pair option.
@@ -62,28 +65,38 @@ type Topic struct {
 	Depth        uint8
 	Options      []TopicOption // Gets or sets the options.
 	TopicType    uint8
+
+	leadingWildchars uint8 // wildcards before the first part, those are added to the contract part.
 }
 
 // AddContract adds contract to the parts of a topic.
 func (t *Topic) AddContract(contract uint32) {
 	part := Part{
-		Wildchars: 0,
+		Wildchars: t.leadingWildchars,
 		Hash:      contract,
 	}
 	parts := []Part{part}
 	t.Parts = append(parts, t.Parts...)
 }
 
-// GetHash combines the parts into a single hash.
+// GetHash combines the parts into a single hash. The hash depends on the order of the parts and on the wildcards in those.
 func (t *Topic) GetHash(contract uint32) uint64 {
-	if len(t.Parts) == 1 {
-		return uint64(contract)
+	h := hashMix(hashInit, contract)
+	h = hashMix(h, uint32(t.Depth))
+	for _, part := range t.Parts {
+		h = hashMix(h, part.Hash)
+		h = hashMix(h, uint32(part.Wildchars))
 	}
-	h := t.Parts[0].Hash
-	for _, i := range t.Parts[1:] {
-		h ^= i.Hash
+	return h
+}
+
+// hashMix adds a value to the FNV-1a hash.
+func hashMix(h uint64, v uint32) uint64 {
+	for i := 0; i < 4; i++ {
+		h = (h ^ uint64(v&0xff)) * hashPrime
+		v >>= 8
 	}
-	return uint64(h)<<32 + uint64((contract<<8)|uint32(t.Depth))
+	return h
 }
 
 // _SplitFunc various split function to split topic using delimeter.
@@ -260,10 +273,6 @@ func parseWildcardTopic(contract uint32, topic *Topic) (ok bool) {
 		depth++
 		if bytes.HasSuffix(p, q) {
 			topic.TopicType = TopicWildcard
-			if idx == 0 {
-				part.Hash = hash.WithSalt(p, contract)
-				topic.Parts = append(topic.Parts, part)
-			}
 			wildchars++
 			wildcharcount++
 			continue
@@ -274,13 +283,16 @@ func parseWildcardTopic(contract uint32, topic *Topic) (ok bool) {
 			if idx-wildcharcount-1 >= 0 {
 				topic.Parts[idx-wildcharcount-1].Wildchars = wildchars
 			} else {
-				topic.Parts[0].Wildchars = wildchars
+				topic.leadingWildchars = wildchars
 			}
 			wildchars = 0
 		}
 	}
 
-	if wildchars > 0 {
+	switch {
+	case wildchars > 0 && len(topic.Parts) == 0:
+		topic.leadingWildchars = wildchars
+	case wildchars > 0:
 		topic.Parts[len(topic.Parts)-1:][0].Wildchars = wildchars
 	}
 	if topic.Depth == TopicMaxDepth {
-- 
2.43.0


From ba5c5ca55630f21e1d1e6e84befc016d9f04a65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:52 +0000
Subject: [PATCH 08/93] fix: numeric ttl is a number of seconds

---
 entry.go         | 1 +
 message/topic.go | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/entry.go b/entry.go
index 1eac420..f099de5 100644
--- a/entry.go
+++ b/entry.go
@@ -81,6 +81,7 @@ func (e *Entry) WithTTL(ttl string) *Entry {
 	val, err := strconv.ParseInt(ttl, 10, 64)
 	if err == nil {
 		e.ExpiresAt = uint32(time.Now().Add(time.Duration(int(val)) * time.Second).Unix())
+		return e
 	}
 	var duration time.Duration
 	duration, _ = time.ParseDuration(ttl)
diff --git a/message/topic.go b/message/topic.go
index 30f9af6..55de74c 100644
--- a/message/topic.go
+++ b/message/topic.go
@@ -121,7 +121,7 @@ func (_SplitFunc) splitOpsKeyValue(c rune) bool {
 func (t *Topic) TTL() (uint32, bool) {
 	ttl, sec, ok := t.getOption("ttl")
 	if sec > 0 {
-		return uint32(time.Duration(sec) * time.Second), ok
+		return uint32(time.Now().Add(time.Duration(sec) * time.Second).Unix()), ok
 	}
 	var duration time.Duration
 	duration, _ = time.ParseDuration(ttl)
-- 
2.43.0


From 2a49459d934f9c50f974e08e63acca216364ec86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:28 +0000
Subject: [PATCH 09/93] fix: topic without key or with more parts than its
 depth can count is rejected

---
 message/topic.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/message/topic.go b/message/topic.go
index 55de74c..47cb4ca 100644
--- a/message/topic.go
+++ b/message/topic.go
@@ -41,6 +41,8 @@ const (
 	// Wildcard wildcard is hash for wildcard topic such as '*' or '...'
 	Wildcard = uint32(857445537)
 
+	maxDepth = 254 // Maximum number of parts of a topic as depth is packed into a byte.
+
 	hashInit  = uint64(14695981039346656037)
 	hashPrime = uint64(1099511628211)
 )
@@ -206,6 +208,11 @@ func (t *Topic) ParseKey(text []byte) {
 
 // Parse attempts to parse the static vs wildcard topic.
 func (t *Topic) Parse(contract uint32, wildcard bool) {
+	if len(t.Topic) == 0 {
+		// topic has no key.
+		t.TopicType = TopicInvalid
+		return
+	}
 	if wildcard {
 		parseWildcardTopic(contract, t)
 		return
@@ -229,6 +236,10 @@ func parseStaticTopic(contract uint32, topic *Topic) (ok bool) {
 	}
 
 	parts := bytes.FieldsFunc(topic.Topic, fn.splitTopic)
+	if len(parts) > maxDepth {
+		topic.TopicType = TopicInvalid
+		return false
+	}
 	part = Part{}
 	for _, p := range parts {
 		part.Hash = hash.WithSalt(p, contract)
@@ -265,6 +276,10 @@ func parseWildcardTopic(contract uint32, topic *Topic) (ok bool) {
 	}
 
 	parts := bytes.FieldsFunc(topic.Topic, fn.splitTopic)
+	if len(parts) > maxDepth {
+		topic.TopicType = TopicInvalid
+		return false
+	}
 	q = []byte{TopicWildcardSymbol}
 	part = Part{}
 	wildchars := uint8(0)
-- 
2.43.0


From 8ef866258d0fc4001830bc97c938c19060d1b38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:32 +0000
Subject: [PATCH 10/93] fix: memdb.Keys and memdb.Size do not hold the DB lock
 while waiting for a block, and an entry put again is counted once

---
 memdb/block.go       |  2 +-
 memdb/db.go          |  9 ++-------
 memdb/db_internal.go | 11 +++++++++++
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/memdb/block.go b/memdb/block.go
index 0d0a20b..fada36b 100644
--- a/memdb/block.go
+++ b/memdb/block.go
@@ -118,7 +118,7 @@ func (b *_Block) put(ikey _Key, data []byte) error {
 	if _, err := b.data.WriteAt(data, off+8+1+4); err != nil {
 		return err
 	}
-	if ikey.delFlag == 0 {
+	if _, ok := b.records[ikey]; !ok && ikey.delFlag == 0 {
 		b.count++
 	}
 	b.records[ikey] = off
diff --git a/memdb/db.go b/memdb/db.go
index 31d0ea4..4bb7618 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -122,12 +122,9 @@ func (db *DB) Close() error {
 
 // Keys gets all keys from DB.
 func (db *DB) Keys() []uint64 {
-	db.mu.RLock()
-	defer db.mu.RUnlock()
-
 	var keys []uint64
 
-	for _, block := range db.timeBlocks {
+	for _, block := range db.blocks() {
 		block.RLock()
 		for ik := range block.records {
 			if ik.delFlag == 0 {
@@ -381,10 +378,8 @@ func (db *DB) Free(timeID int64) error {
 // Size returns the total number of entries in DB.
 func (db *DB) Size() int64 {
 	size := int64(0)
-	db.mu.RLock()
-	defer db.mu.RUnlock()
 
-	for _, block := range db.timeBlocks {
+	for _, block := range db.blocks() {
 		block.RLock()
 		size += block.count
 		block.RUnlock()
diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index fc68267..90908c1 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -151,6 +151,17 @@ func (db *DB) timeBlock(timeID _TimeID) (*_Block, bool) {
 	return nil, false
 }
 
+// blocks returns time blocks of the DB. DB is not locked while blocks are used, as a block is locked before the DB to release it.
+func (db *DB) blocks() (blocks []*_Block) {
+	db.mu.RLock()
+	defer db.mu.RUnlock()
+	for _, block := range db.timeBlocks {
+		blocks = append(blocks, block)
+	}
+
+	return blocks
+}
+
 // currentBlock returns locked time block that accepts new entries.
 func (db *DB) currentBlock() (_TimeID, *_Block, bool) {
 	for !db.isClosed() {
-- 
2.43.0


From 2364250a4f3886ffaf60d4217f8b37ba4ebb3858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:48 +0000
Subject: [PATCH 11/93] fix: memdb.Delete deletes the entry from all its time
 blocks and keeps deleted keys of other time blocks

---
 memdb/db.go | 86 +++++++++++++++++++----------------------------------
 1 file changed, 31 insertions(+), 55 deletions(-)

diff --git a/memdb/db.go b/memdb/db.go
index 4bb7618..df815ea 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -20,7 +20,6 @@ import (
 	"encoding/binary"
 	"errors"
 	"os"
-	"sort"
 	"sync"
 	"time"
 
@@ -259,65 +258,42 @@ func (db *DB) Delete(key uint64) error {
 		return errEntryDoesNotExist
 	}
 
-	var timeIDs []_TimeID
-	r.RLock()
-	for timeID := range r.timeRecords {
-		timeIDs = append(timeIDs, timeID)
-	}
-	r.RUnlock()
-	sort.Slice(timeIDs[:], func(i, j int) bool {
-		return timeIDs[i] > timeIDs[j]
-	})
-	ikey := iKey(false, key)
-	for _, timeID := range timeIDs {
-		db.mu.RLock()
-		block, ok := db.timeBlocks[timeID]
-		db.mu.RUnlock()
-		if ok {
-			block.RLock()
-			_, ok := block.records[ikey]
-			block.RUnlock()
-			if !ok {
-				r.RLock()
-				fltr := r.timeRecords[timeID]
-				r.RUnlock()
-				if !fltr.Test(key) {
-					return errEntryDoesNotExist
-				}
-				continue
-			}
-
-			timeLock := db.timeLock()
-			timeLock.RLock()
-			defer timeLock.RUnlock()
-
-			block.Lock()
-			block.delete(key)
-			db.internal.meter.Dels.Inc(1)
-			if block.count == 0 {
-				// all entries are deleted from the block,
-				// now check if timeIDs for deleted entries are released.
-				for ikey, timeID := range block.records {
-					db.mu.RLock()
-					if _, ok := db.timeBlocks[_TimeID(timeID)]; ok {
-						db.move(_TimeID(timeID), ikey.key)
-					}
-					db.mu.RUnlock()
-					delete(block.records, ikey)
-				}
-				// released timeblock from the WAL if all records are deleted.
-				if len(block.records) == 0 && timeID < db.timeID() {
-					block.Unlock()
-					return db.releaseLog(timeID)
-				}
-			}
+	err := errEntryDoesNotExist
+	curTimeID := db.timeID()
+	// key is deleted from all time blocks, so that an entry put earlier does not reappear.
+	for _, timeID := range r.timeIDs() {
+		block, ok := db.timeBlock(timeID)
+		if !ok {
+			continue
+		}
+		block.Lock()
+		if _, ok := block.records[iKey(false, key)]; !ok {
 			block.Unlock()
+			continue
+		}
+		if err := block.delete(key); err != nil {
+			block.Unlock()
+			return err
+		}
+		db.internal.meter.Dels.Inc(1)
+		// timeblock is released from the WAL if all records are deleted, and it holds no deleted keys of other time blocks.
+		release := len(block.records) == 0 && timeID < curTimeID
+		block.Unlock()
 
-			return db.move(timeID, key)
+		if release {
+			if err = db.releaseLog(timeID); err == errEntryDoesNotExist {
+				// timeblock is already released.
+				err = nil
+			}
+		} else {
+			err = db.move(timeID, key)
+		}
+		if err != nil {
+			return err
 		}
 	}
 
-	return errEntryDoesNotExist
+	return err
 }
 
 // Put inserts a new key-value pair to the DB.
-- 
2.43.0


From e94de725d9a3424037ca4095dd5b7f13018f195d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:34 +0000
Subject: [PATCH 12/93] fix: logs are recovered in order, so that a deleted key
 does not delete an entry put later and corrupted logs are skipped

---
 memdb/recovery.go | 141 +++++++++++++++++-----------------------------
 wal/file.go       |  29 +++++-----
 2 files changed, 66 insertions(+), 104 deletions(-)

diff --git a/memdb/recovery.go b/memdb/recovery.go
index f5fbbe8..ff2cbbb 100644
--- a/memdb/recovery.go
+++ b/memdb/recovery.go
@@ -18,63 +18,27 @@ package memdb
 
 import (
 	"encoding/binary"
-	"sort"
 	"time"
 
 	"github.com/unit-io/unitdb/filter"
 )
 
-// delete deletes entry from the DB.
-//
-// This method is not thread safe.
-func (db *DB) delete(key uint64) error {
-	// Get time block
-	blockKey := db.blockKey(key)
-	r, ok := db.timeFilters[blockKey]
-	if !ok {
-		return errEntryDoesNotExist
-	}
-
-	var timeIDs []_TimeID
-	r.RLock()
-	for timeID := range r.timeRecords {
-		timeIDs = append(timeIDs, timeID)
-	}
-	r.RUnlock()
-	sort.Slice(timeIDs[:], func(i, j int) bool {
-		return timeIDs[i] > timeIDs[j]
-	})
-	for _, timeID := range timeIDs {
-		block, ok := db.timeBlocks[timeID]
-		if ok {
-			block.RLock()
-			_, ok := block.records[iKey(false, key)]
-			block.RUnlock()
-			if !ok {
-				r.RLock()
-				fltr := r.timeRecords[timeID]
-				r.RUnlock()
-				if !fltr.Test(key) {
-					return errEntryDoesNotExist
-				}
-				continue
-			}
-			block.Lock()
-			ikey := iKey(false, key)
-			delete(block.records, ikey)
-			block.count--
-			db.internal.meter.Dels.Inc(1)
-			if len(block.records) == 0 {
-				delete(db.timeBlocks, _TimeID(timeID))
-				db.internal.buffer.Put(block.data)
-			}
-			block.Unlock()
+// _RecoveredKey is an entry recovered from the log with the given ID.
+type _RecoveredKey struct {
+	timeID _TimeID // time ID of the recovered block.
+	logID  _TimeID
+}
 
-			return nil
-		}
+// hasTimeID tells if entries of the log were put into the time block.
+func (db *DB) hasTimeID(logID, timeID _TimeID) bool {
+	logTime := time.Unix(0, int64(logID)).UTC()
+	switch timeID {
+	case logID,
+		_TimeID(logTime.Truncate(db.opts.timeBlockDuration).UnixNano()),
+		_TimeID(logTime.Truncate(db.opts.logInterval).UnixNano()):
+		return true
 	}
-
-	return errEntryDoesNotExist
+	return false
 }
 
 // startRecovery recovers pending entries from the WAL.
@@ -88,8 +52,9 @@ func (db *DB) startRecovery() error {
 		return err
 	}
 
-	delKeys := make(map[_TimeID][]uint64)
-	err = r.Iterator(func(ID int64) (ok bool, err error) {
+	recovered := make(map[uint64][]_RecoveredKey)
+	delKeys := make(map[_TimeID]map[uint64]struct{})
+	return r.Iterator(func(ID int64) (ok bool, err error) {
 		log := make(map[uint64][]byte)
 		l := r.Count()
 		timeID := _TimeID(time.Unix(0, ID).UTC().Truncate(db.opts.logInterval).UnixNano())
@@ -110,15 +75,39 @@ func (db *DB) startRecovery() error {
 				key := binary.LittleEndian.Uint64(data[1:9])
 				val := data[9:]
 				off += dataLen
-				if dBit == 1 {
-					timeRefID := _TimeID(binary.LittleEndian.Uint64(val[:8]))
-					if _, ok := delKeys[timeRefID]; ok {
-						delKeys[timeRefID] = append(delKeys[timeRefID], key)
-					} else {
-						delKeys[timeRefID] = []uint64{key}
+				if dBit == 0 {
+					// entry of a batch could be deleted in a log that precedes log of the batch.
+					if _, ok := delKeys[_TimeID(ID)][key]; !ok {
+						log[key] = val
+					}
+					continue
+				}
+				if len(val) != 8 {
+					// entry is deleted before it was written to the log.
+					continue
+				}
+				// entries put into the time block before the key was deleted are deleted.
+				delTimeID := _TimeID(binary.LittleEndian.Uint64(val[:8]))
+				if _, ok := delKeys[delTimeID]; !ok {
+					delKeys[delTimeID] = make(map[uint64]struct{})
+				}
+				delKeys[delTimeID][key] = struct{}{}
+				if db.hasTimeID(_TimeID(ID), delTimeID) {
+					delete(log, key)
+				}
+				for _, rk := range recovered[key] {
+					if !db.hasTimeID(rk.logID, delTimeID) {
+						continue
+					}
+					block, ok := db.timeBlocks[rk.timeID]
+					if !ok {
+						continue
+					}
+					if _, ok := block.records[iKey(false, key)]; ok {
+						delete(block.records, iKey(false, key))
+						block.count--
+						db.internal.meter.Dels.Inc(1)
 					}
-				} else {
-					log[key] = val
 				}
 			}
 			db.internal.timeMark.add(timeID)
@@ -131,8 +120,10 @@ func (db *DB) startRecovery() error {
 			for key, val := range log {
 				ikey := iKey(false, key)
 				if err := block.put(ikey, val); err != nil {
+					block.Unlock()
 					return false, err
 				}
+				recovered[key] = append(recovered[key], _RecoveredKey{timeID: timeID, logID: _TimeID(ID)})
 				blockKey := db.blockKey(key)
 				r, ok := db.timeFilters[blockKey]
 				if ok {
@@ -152,36 +143,6 @@ func (db *DB) startRecovery() error {
 		}
 		return false, nil
 	})
-
-	for timeID, keys := range delKeys {
-		if block, exists := db.timeBlocks[timeID]; exists {
-			for _, key := range keys {
-				ikey := iKey(false, key)
-				block.RLock()
-				_, ok := block.records[ikey]
-				block.RUnlock()
-				if !ok {
-					// errEntryDoesNotExist
-					continue
-				}
-				block.Lock()
-				delete(block.records, ikey)
-				block.count--
-				db.internal.meter.Dels.Inc(1)
-				if len(block.records) == 0 {
-					delete(db.timeBlocks, _TimeID(timeID))
-					db.internal.buffer.Put(block.data)
-				}
-				block.Unlock()
-			}
-		} else {
-			for _, key := range keys {
-				db.delete(key)
-			}
-		}
-	}
-
-	return nil
 }
 
 // All gets all keys from DB recovered from WAL.
diff --git a/wal/file.go b/wal/file.go
index a2a8ab9..590b880 100644
--- a/wal/file.go
+++ b/wal/file.go
@@ -131,7 +131,7 @@ func (fs *_FileStore) read(timeID int64, data *bpool.Buffer) _LogInfo {
 		os.Rename(log, corruptPath(fs.dirName, timeID))
 
 		// log was unreadable, return nil
-		return info
+		return _LogInfo{}
 	}
 
 	if err := info.UnmarshalBinary(buf); err != nil {
@@ -139,11 +139,12 @@ func (fs *_FileStore) read(timeID int64, data *bpool.Buffer) _LogInfo {
 		os.Rename(log, corruptPath(fs.dirName, timeID))
 
 		// log was unreadable, return nil
-		return info
+		return _LogInfo{}
 	}
 
 	if _, err := data.Extend(int64(info.size)); err != nil {
-		return info
+		f.Close()
+		return _LogInfo{}
 	}
 
 	if _, err := f.ReadAt(data.Internal(), int64(logHeaderSize)); err != nil {
@@ -151,7 +152,7 @@ func (fs *_FileStore) read(timeID int64, data *bpool.Buffer) _LogInfo {
 		os.Rename(log, corruptPath(fs.dirName, timeID))
 
 		// log was unreadable, return nil
-		return info
+		return _LogInfo{}
 	}
 	f.Close()
 
@@ -173,24 +174,24 @@ func (fs *_FileStore) all() []int64 {
 		return nil
 	}
 
-	// sort.Slice(files[:], func(i, j int) bool {
-	// 	return files[i].Name() < files[j].Name()
-	// })
-
-	sort.Slice(files[:], func(i, j int) bool {
-		return files[i].ModTime().Before(files[j].ModTime())
-	})
-
 	for _, f := range files {
 		name := f.Name()
-		if name[len(name)-4:] != logExt {
+		if path.Ext(name) != logExt {
 			// skipping file, doesn't have right extension.
 			continue
 		}
 
-		timeID, _ := strconv.ParseInt(name[:len(name)-4], 10, 64) // remove file extension
+		timeID, err := strconv.ParseInt(name[:len(name)-4], 10, 64) // remove file extension
+		if err != nil {
+			// skipping file, it is not a log.
+			continue
+		}
 		timeIDs = append(timeIDs, timeID)
 	}
+	// logs are read in the order those were written.
+	sort.Slice(timeIDs[:], func(i, j int) bool {
+		return timeIDs[i] < timeIDs[j]
+	})
 
 	return timeIDs
 }
-- 
2.43.0


From 6676499b031d07ce69f459593d077caba7387d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:18 +0000
Subject: [PATCH 13/93] fix: memdb waits for the log queue instead of dropping
 the log

---
 memdb/tiny_log.go | 33 +++++++--------------------------
 1 file changed, 7 insertions(+), 26 deletions(-)

diff --git a/memdb/tiny_log.go b/memdb/tiny_log.go
index a7c2fd1..ea2a2f3 100644
--- a/memdb/tiny_log.go
+++ b/memdb/tiny_log.go
@@ -150,7 +150,7 @@ func (db *DB) newLogManager(opts *_TinyLogOptions) {
 	// start the dispacther
 	for i := 0; i < opts.logCount; i++ {
 		logManager.stopWg.Add(1)
-		go logManager.dispatch(opts.timeout)
+		go logManager.dispatch()
 	}
 
 	db.internal.logManager = logManager
@@ -242,32 +242,13 @@ func (p *_TinyLogManager) writeLoop(interval time.Duration) {
 }
 
 // dispatch handles tiny log commit for the jobs in queue.
-func (p *_TinyLogManager) dispatch(timeout time.Duration) {
-LOOP:
-	for {
-		select {
-		case tinyLog, ok := <-p.writeQueue:
-			// Get a buffer from the queue
-			if !ok {
-				close(p.logQueue)
-				p.stopWg.Done()
-				return
-			}
-
-			// return tinyLog to the pool
-			select {
-			case p.logQueue <- tinyLog:
-			default:
-				// pool is full, let GC handle the buffer
-				goto WAIT
-			}
-		}
+func (p *_TinyLogManager) dispatch() {
+	defer p.stopWg.Done()
+	for tinyLog := range p.writeQueue {
+		// wait if queue is full, as entries of a tiny log that is dropped are not written to the WAL.
+		p.logQueue <- tinyLog
 	}
-
-WAIT:
-	// Wait for a while
-	time.Sleep(timeout)
-	goto LOOP
+	close(p.logQueue)
 }
 
 // commitLoop commits the tiny log to the WAL.
-- 
2.43.0


From 868f3bc8506e42d916136e80eecfda25223212e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:52 +0000
Subject: [PATCH 14/93] fix: entries left in the log are recovered when nothing
 was synced since, and their sequence is not used again

---
 db_sync.go  | 7 -------
 recovery.go | 8 ++++++++
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/db_sync.go b/db_sync.go
index 8515c7f..b388187 100644
--- a/db_sync.go
+++ b/db_sync.go
@@ -27,7 +27,6 @@ import (
 
 type (
 	_SyncInfo struct {
-		lastSyncSeq    uint64
 		upperSeq       uint64
 		syncStatusOk   bool
 		syncComplete   bool
@@ -48,11 +47,6 @@ type (
 )
 
 func (db *_SyncHandle) startSync() bool {
-	if db.syncInfo.lastSyncSeq == db.seq() {
-		db.syncInfo.syncStatusOk = false
-		return db.syncInfo.syncStatusOk
-	}
-
 	db.rawWindow = db.internal.bufPool.Get()
 	db.rawBlock = db.internal.bufPool.Get()
 
@@ -89,7 +83,6 @@ func (db *_SyncHandle) status() (ok bool) {
 }
 
 func (db *_SyncHandle) reset() error {
-	db.syncInfo.lastSyncSeq = db.syncInfo.upperSeq
 	db.syncInfo.count = 0
 	db.syncInfo.inBytes = 0
 	db.syncInfo.upperSeq = 0
diff --git a/recovery.go b/recovery.go
index 1da08d5..b359c2d 100644
--- a/recovery.go
+++ b/recovery.go
@@ -20,6 +20,7 @@ import (
 	"errors"
 	"fmt"
 	"sort"
+	"sync/atomic"
 
 	"github.com/unit-io/unitdb/message"
 	// _ "net/http/pprof"
@@ -68,6 +69,10 @@ func (db *_SyncHandle) startRecovery() error {
 		if seqs[len(seqs)-1] > db.syncInfo.upperSeq {
 			db.syncInfo.upperSeq = seqs[len(seqs)-1]
 		}
+		// seq of the entries recovered is not used again.
+		if seqs[len(seqs)-1] > db.seq() {
+			atomic.StoreUint64(&db.internal.dbInfo.sequence, seqs[len(seqs)-1])
+		}
 		for _, seq := range seqs {
 			memdata, err := db.internal.mem.Lookup(timeID, seq)
 			if err != nil || memdata == nil {
@@ -151,6 +156,9 @@ func (db *_SyncHandle) startRecovery() error {
 	if err != nil || err1 != nil {
 		db.syncInfo.syncComplete = false
 		db.abort()
+		if err != nil {
+			return err
+		}
 		return err1
 	}
 
-- 
2.43.0


From 67cfae44438781bebf98e31cb037a5ab2f537697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:13 +0000
Subject: [PATCH 15/93] fix: topic is packed again when an entry is reused, as
 the entry that holds it may never be synced

---
 entry.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/entry.go b/entry.go
index f099de5..49ec1cd 100644
--- a/entry.go
+++ b/entry.go
@@ -98,6 +98,7 @@ func (e *Entry) WithEncryption() *Entry {
 func (e *Entry) reset() {
 	e.entry.seq = 0
 	e.entry.topicSize = 0
+	e.entry.parsed = false
 	e.entry.cache = nil
 	e.ID = nil
 	e.Payload = nil
-- 
2.43.0


From cafdaef22a5df5a7e7b9b059e3b6ea8e8fba2dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:13 +0000
Subject: [PATCH 16/93] fix: window entries are released with all topics of the
 time block, and recovered twice are returned once

---
 time_window.go | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/time_window.go b/time_window.go
index 3638430..300c1f0 100644
--- a/time_window.go
+++ b/time_window.go
@@ -187,30 +187,16 @@ func (tw *_TimeWindowBucket) add(timeID int64, topicHash uint64, e _WinEntry) (o
 	return true
 }
 func (tw *_TimeWindowBucket) release() func(timeID int64) error {
-	releasedKeys := make(map[int64][]_Key)
-	for i := 0; i < nShards; i++ {
-		wb := tw.windowBlocks.window[i]
-		wb.mu.RLock()
-		for k := range wb.entries {
-			if _, ok := releasedKeys[k.timeID]; ok {
-				releasedKeys[k.timeID] = append(releasedKeys[k.timeID], k)
-			} else {
-				releasedKeys[k.timeID] = []_Key{k}
-			}
-		}
-		wb.mu.RUnlock()
-	}
-
 	return func(timeID int64) error {
-		keys, ok := releasedKeys[timeID]
-		if !ok {
-			return errBadRequest
-		}
-		for _, k := range keys {
-			b := tw.windowBlocks.getWindowBlock(k.topicHash)
-			b.mu.Lock()
-			delete(b.entries, k)
-			b.mu.Unlock()
+		for i := 0; i < nShards; i++ {
+			wb := tw.windowBlocks.window[i]
+			wb.mu.Lock()
+			for k := range wb.entries {
+				if k.timeID == timeID {
+					delete(wb.entries, k)
+				}
+			}
+			wb.mu.Unlock()
 		}
 
 		return nil
@@ -266,6 +252,7 @@ func (tw *_TimeWindowBucket) lookup(fs *_FileSet, topicHash uint64, off, cutoff
 	if err != nil {
 		return winEntries
 	}
+	seqs := make(map[uint64]struct{})
 	next := func(blockOff int64, f func(_WinBlock) (bool, error)) error {
 		for {
 			r := _WindowReader{winFile: winFile, offset: blockOff}
@@ -296,6 +283,11 @@ func (tw *_TimeWindowBucket) lookup(fs *_FileSet, topicHash uint64, off, cutoff
 				// if id is expired it does not return an error but continue the iteration.
 				continue
 			}
+			// entries of the window could be recovered more than once.
+			if _, ok := seqs[we.seq()]; ok {
+				continue
+			}
+			seqs[we.seq()] = struct{}{}
 			winEntries = append(winEntries, we)
 		}
 		return false, nil
-- 
2.43.0


From 3628ceaa51bac6bbc65659824b9a719bebfe7b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:13 +0000
Subject: [PATCH 17/93] fix: topic offset is set once window blocks are on
 disk, and topics not added to the trie yet are synced

---
 db_sync.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/db_sync.go b/db_sync.go
index b388187..c58c0d2 100644
--- a/db_sync.go
+++ b/db_sync.go
@@ -23,6 +23,7 @@ import (
 	"time"
 
 	"github.com/unit-io/bpool"
+	"github.com/unit-io/unitdb/message"
 )
 
 type (
@@ -243,6 +244,18 @@ func (db *_SyncHandle) Sync() error {
 				return true, err
 			}
 
+			if m.topicSize != 0 {
+				rawtopic, err := db.internal.reader.readTopic(e)
+				if err != nil {
+					return true, err
+				}
+				t := new(message.Topic)
+				if err := t.Unmarshal(rawtopic); err != nil {
+					return true, err
+				}
+				db.internal.trie.add(newTopic(m.topicHash, 0), t.Parts, t.Depth)
+			}
+
 			we := newWinEntry(seq, m.expiresAt)
 			if _, ok := winEntries[m.topicHash]; ok {
 				winEntries[m.topicHash] = append(winEntries[m.topicHash], we)
@@ -254,6 +267,7 @@ func (db *_SyncHandle) Sync() error {
 			db.syncInfo.count++
 			db.syncInfo.inBytes += int64(e.valueSize)
 		}
+		topicOffsets := make(map[uint64]int64)
 		for h := range winEntries {
 			topicOff, ok := db.internal.trie.getOffset(h)
 			if !ok {
@@ -263,9 +277,7 @@ func (db *_SyncHandle) Sync() error {
 			if err != nil {
 				return true, err
 			}
-			if ok := db.internal.trie.setOffset(_Topic{hash: h, offset: wOff}); !ok {
-				return true, errors.New("db:Sync: timeWindow sync error: unable to set topic offset in trie")
-			}
+			topicOffsets[h] = wOff
 		}
 		if err1 != nil {
 			fmt.Println("db.sync: error ", err1)
@@ -277,6 +289,12 @@ func (db *_SyncHandle) Sync() error {
 			return true, err
 		}
 		if db.syncInfo.syncComplete {
+			// window blocks are on disk, entries could be looked up from those.
+			for h, off := range topicOffsets {
+				if ok := db.internal.trie.setOffset(_Topic{hash: h, offset: off}); !ok {
+					return true, errors.New("db:Sync: timeWindow sync error: unable to set topic offset in trie")
+				}
+			}
 			if err := timeRelease(timeID); err != nil {
 				return false, err
 			}
-- 
2.43.0


From 0bbe961d120732236c3c9ba8a35f446efef3bced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:38 +0000
Subject: [PATCH 18/93] fix: all files of the DB are synced and counted in its
 size, and an error on sync is returned

---
 db_sync.go |  6 +-----
 file.go    | 18 +++++++++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/db_sync.go b/db_sync.go
index c58c0d2..8d3f3a6 100644
--- a/db_sync.go
+++ b/db_sync.go
@@ -159,11 +159,7 @@ func (db *DB) sync() error {
 	if err := db.writeInfo(); err != nil {
 		return err
 	}
-	if err := db.fs.sync(); err != nil {
-		return nil
-	}
-
-	return nil
+	return db.fs.sync()
 }
 
 func (db *_SyncHandle) sync(recovery bool) error {
diff --git a/file.go b/file.go
index 3dc7103..d1c0939 100644
--- a/file.go
+++ b/file.go
@@ -230,9 +230,11 @@ func (fs *_FileSet) getFile(fd _FileDesc) (*_File, error) {
 func (fs *_FileSet) sync() error {
 	fs.mu.RLock()
 	defer fs.mu.RUnlock()
-	for _, f := range fs.fileMap {
-		if err := f.Sync(); err != nil {
-			return err
+	for _, files := range fs.list {
+		for _, f := range files.fileMap {
+			if err := f.Sync(); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
@@ -242,8 +244,14 @@ func (fs *_FileSet) size() (int64, error) {
 	fs.mu.RLock()
 	defer fs.mu.RUnlock()
 	size := int64(0)
-	for _, f := range fs.fileMap {
-		size += f.currSize()
+	for _, files := range fs.list {
+		for _, f := range files.fileMap {
+			stat, err := f.Stat()
+			if err != nil {
+				return 0, err
+			}
+			size += stat.Size()
+		}
 	}
 	return size, nil
 }
-- 
2.43.0


From dbe4ce8e4c59ba84d04a920caef321b7ccfe92b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:38 +0000
Subject: [PATCH 19/93] fix: a sync that is rolled back does not roll back
 entries of an earlier sync

---
 block_writer.go       | 2 ++
 time_window_writer.go | 1 +
 2 files changed, 3 insertions(+)

diff --git a/block_writer.go b/block_writer.go
index 8dd0d99..643a307 100644
--- a/block_writer.go
+++ b/block_writer.go
@@ -310,6 +310,8 @@ func (w *_BlockWriter) reset() error {
 	w.blockIdx = int32(w.indexOffset / int64(blockSize))
 
 	w.dataOffset = w.dataFile.currSize()
+	w.indexLeases = make(map[uint64]struct{})
+	w.dataLeases = make(map[int64]uint32)
 
 	return nil
 }
diff --git a/time_window_writer.go b/time_window_writer.go
index 621ba40..ba51f29 100644
--- a/time_window_writer.go
+++ b/time_window_writer.go
@@ -208,6 +208,7 @@ func (w *_WindowWriter) rollback() error {
 func (w *_WindowWriter) reset() error {
 	w.buffer.Reset()
 	w.offset = w.winFile.currSize()
+	w.winLeases = make(map[int32][]uint64)
 
 	return nil
 }
-- 
2.43.0


From 7809807969cd66e9096b57545b4766956bed2201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:57 +0000
Subject: [PATCH 20/93] fix: Sync waits for a sync in progress, and does not
 block once the DB is closed

---
 db.go          | 13 ++++---------
 db_internal.go | 19 +++++++++++++++++++
 db_sync.go     | 14 +++++---------
 3 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/db.go b/db.go
index 9ade583..f1339c1 100644
--- a/db.go
+++ b/db.go
@@ -437,16 +437,11 @@ func (db *DB) Batch(fn func(*Batch, <-chan struct{}) error) error {
 // In case of any error during sync operation recovery is performed on log file (write ahead log).
 func (db *DB) Sync() error {
 	// start := time.Now()
-	if ok := db.internal.syncHandle.status(); ok {
-		// sync is in-progress.
-		return nil
-	}
-
 	// Sync happens synchronously.
-	db.internal.syncLockC <- struct{}{}
-	defer func() {
-		<-db.internal.syncLockC
-	}()
+	if err := db.syncLock(); err != nil {
+		return err
+	}
+	defer db.syncUnlock()
 
 	if ok := db.internal.syncHandle.startSync(); !ok {
 		return nil
diff --git a/db_internal.go b/db_internal.go
index 70219c7..aa6137b 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -392,6 +392,25 @@ func (db *DB) isClosed() bool {
 	return atomic.LoadUint32(&db.internal.closed) != 0
 }
 
+// syncLock acquires the sync lock, it returns an error if the DB is closed.
+func (db *DB) syncLock() error {
+	select {
+	case db.internal.syncLockC <- struct{}{}:
+	case <-db.internal.closeC:
+		return errClosed
+	}
+	if db.isClosed() {
+		db.syncUnlock()
+		return errClosed
+	}
+	return nil
+}
+
+// syncUnlock releases the sync lock.
+func (db *DB) syncUnlock() {
+	<-db.internal.syncLockC
+}
+
 // ok checks read ok status.
 func (db *DB) ok() error {
 	if db.isClosed() {
diff --git a/db_sync.go b/db_sync.go
index 8d3f3a6..1fd53ce 100644
--- a/db_sync.go
+++ b/db_sync.go
@@ -79,10 +79,6 @@ func (db *_SyncHandle) finish() error {
 	return nil
 }
 
-func (db *_SyncHandle) status() (ok bool) {
-	return db.syncInfo.syncStatusOk
-}
-
 func (db *_SyncHandle) reset() error {
 	db.syncInfo.count = 0
 	db.syncInfo.inBytes = 0
@@ -130,7 +126,7 @@ func (db *DB) startSyncer(interval time.Duration) {
 			case <-db.internal.closeC:
 				return
 			case <-syncTicker.C:
-				if err := db.Sync(); err != nil {
+				if err := db.Sync(); err != nil && err != errClosed {
 					logger.Error().Err(err).Str("context", "startSyncer").Msg("Error syncing to db")
 					panic(err)
 				}
@@ -312,10 +308,10 @@ func (db *_SyncHandle) Sync() error {
 // expireEntries run expirer to delete entries from db if ttl was set on entries and that has expired.
 func (db *DB) expireEntries() error {
 	// sync happens synchronously.
-	db.internal.syncLockC <- struct{}{}
-	defer func() {
-		<-db.internal.syncLockC
-	}()
+	if err := db.syncLock(); err != nil {
+		return err
+	}
+	defer db.syncUnlock()
 	expiredEntries := db.internal.timeWindow.expiryWindowBucket.getExpiredEntries(db.opts.queryOptions.defaultQueryLimit)
 	for _, expiredEntry := range expiredEntries {
 		we := expiredEntry.(_WinEntry)
-- 
2.43.0


From 9c880e981b3becf0ae7d092cbd52933b9f61af15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:01 +0000
Subject: [PATCH 21/93] fix: block reader does not share its state between
 concurrent queries

---
 block_reader.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/block_reader.go b/block_reader.go
index aa9085c..78ec7f0 100644
--- a/block_reader.go
+++ b/block_reader.go
@@ -17,7 +17,6 @@
 package unitdb
 
 type _BlockReader struct {
-	indexBlock          _IndexBlock
 	fs                  *_FileSet
 	indexFile, dataFile *_File
 	offset              int64
@@ -46,17 +45,19 @@ func (r *_BlockReader) readIndexBlock() (_IndexBlock, error) {
 	if err != nil {
 		return _IndexBlock{}, err
 	}
-	if err := r.indexBlock.unmarshalBinary(buf); err != nil {
+	var b _IndexBlock
+	if err := b.unmarshalBinary(buf); err != nil {
 		return _IndexBlock{}, err
 	}
 
-	return r.indexBlock, nil
+	return b, nil
 }
 
 func (r *_BlockReader) readEntry(seq uint64) (_IndexEntry, error) {
 	bIdx := blockIndex(seq)
-	r.offset = blockOffset(bIdx)
-	b, err := r.readIndexBlock()
+	// reader is shared, so block offset is not kept on the reader.
+	blockReader := _BlockReader{indexFile: r.indexFile, offset: blockOffset(bIdx)}
+	b, err := blockReader.readIndexBlock()
 	if err != nil {
 		return _IndexEntry{}, err
 	}
-- 
2.43.0


From 32f90463c5e36365b666388aedaf389b2cfc93b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:44 +0000
Subject: [PATCH 22/93] fix: free blocks merged on close are not kept twice,
 and free blocks allocated before a crash are not free again

---
 leasing.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/leasing.go b/leasing.go
index 6a429d8..e89d7ac 100644
--- a/leasing.go
+++ b/leasing.go
@@ -147,7 +147,7 @@ func (b *_FreeBlocks) defrag() {
 	sort.Slice(merged, func(i, j int) bool {
 		return merged[i].size < merged[j].size
 	})
-	copy(b.fb[:l], merged)
+	b.fb = merged
 }
 
 func (l *_Lease) defrag() {
@@ -223,6 +223,11 @@ func (l *_Lease) read() error {
 	}
 	blocks.UnmarshalBinary(buf, size)
 
+	// free blocks could be allocated from now on, so those are not read again unless written on close.
+	if err := l.file.truncate(0); err != nil {
+		return err
+	}
+
 	for _, b := range blocks.fb {
 		l.freeBlock(b.offset, b.size)
 	}
-- 
2.43.0


From e75879d2a2703076cead6b0299674eb5e96c1195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:07 +0000
Subject: [PATCH 23/93] fix: entries deleted are deleted from the index file,
 an entry is freed once and its topic is kept

---
 batch.go        |  6 ++++--
 block_reader.go |  6 ++++--
 block_writer.go | 45 +++++++++++++++++++++++++++++++--------------
 db_internal.go  | 20 +++++++++++++++-----
 db_sync.go      | 12 +++++++++---
 5 files changed, 63 insertions(+), 26 deletions(-)

diff --git a/batch.go b/batch.go
index a0d430a..596cdf2 100644
--- a/batch.go
+++ b/batch.go
@@ -171,9 +171,11 @@ func (b *Batch) writeInternal(fn func(i int, e _Entry, data []byte) error) error
 		if index.delFlag && e.seq != 0 {
 			/// Test filter block for presence.
 			if !b.db.internal.filter.Test(e.seq) {
-				return nil
+				continue
+			}
+			if err := b.db.delete(e.topicHash, e.seq); err != nil {
+				return err
 			}
-			b.db.delete(e.topicHash, e.seq)
 			continue
 		}
 
diff --git a/block_reader.go b/block_reader.go
index 78ec7f0..fd4bf76 100644
--- a/block_reader.go
+++ b/block_reader.go
@@ -65,8 +65,10 @@ func (r *_BlockReader) readEntry(seq uint64) (_IndexEntry, error) {
 	for i := 0; i < entriesPerIndexBlock; i++ {
 		e := b.entries[i]
 		if e.seq == seq { //topic exist in db
-			if e.msgOffset == -1 {
-				return _IndexEntry{}, errMsgIDDeleted
+			if e.msgOffset < 0 {
+				// topic of a deleted entry is kept.
+				e.msgOffset = -(e.msgOffset + 1)
+				return e, errMsgIDDeleted
 			}
 			entryIdx = i
 			break
diff --git a/block_writer.go b/block_writer.go
index 643a307..f7558c8 100644
--- a/block_writer.go
+++ b/block_writer.go
@@ -79,35 +79,52 @@ func (w *_BlockWriter) extend(upperSeq uint64) (int64, error) {
 	return w.indexFile.extend(uint32(off - w.indexFile.currSize()))
 }
 
-func (w *_BlockWriter) del(seq uint64) (_IndexEntry, error) {
-	var delEntry _IndexEntry
+// del deletes an entry from the index file and returns the deleted entry.
+// It returns false if entry does not exist in the index or it is already deleted.
+// The topic that the entry holds is kept.
+func (w *_BlockWriter) del(seq uint64) (_IndexEntry, bool, error) {
 	bIdx := blockIndex(seq)
-	if bIdx > w.blockIdx {
-		return delEntry, nil // no entry in db to delete
+	if blockOffset(bIdx) >= w.indexFile.currSize() {
+		return _IndexEntry{}, false, nil // no entry in db to delete
 	}
 	r := _BlockReader{indexFile: w.indexFile, offset: blockOffset(bIdx)}
 	b, err := r.readIndexBlock()
 	if err != nil {
-		return _IndexEntry{}, err
+		return _IndexEntry{}, false, err
 	}
 	entryIdx := -1
 	for i := 0; i < int(b.entryIdx); i++ {
 		e := b.entries[i]
-		if e.seq == seq { //record exist in db
+		if e.seq == seq && e.msgOffset >= 0 { //record exist in db
 			entryIdx = i
 			break
 		}
 	}
 	if entryIdx == -1 {
-		return delEntry, nil // no entry in db to delete
+		return _IndexEntry{}, false, nil // no entry in db to delete
+	}
+	delEntry := b.entries[entryIdx]
+	b.entries[entryIdx].msgOffset = -(delEntry.msgOffset + 1)
+	if _, err := w.indexFile.WriteAt(b.marshalBinary(), blockOffset(bIdx)); err != nil {
+		return _IndexEntry{}, false, err
 	}
-	delEntry = b.entries[entryIdx]
-	delEntry.msgOffset = -1
-	b.entries[entryIdx] = delEntry
-	b.dirty = true
-	w.indexBlocks[bIdx] = b
 
-	return delEntry, nil
+	return delEntry, true, nil
+}
+
+// free deletes an entry from the index file and frees its data.
+func (w *_BlockWriter) free(seq uint64) (ok bool, err error) {
+	e, ok, err := w.del(seq)
+	if err != nil || !ok {
+		return false, err
+	}
+	if e.topicSize != 0 {
+		// topic is read from the deleted entry, so only its value is free.
+		w.lease.freeBlock(e.msgOffset+int64(idSize)+int64(e.topicSize), e.valueSize)
+		return true, nil
+	}
+	w.lease.freeBlock(e.msgOffset, e.mSize())
+	return true, nil
 }
 
 func (w *_BlockWriter) append(e _IndexEntry) (err error) {
@@ -296,7 +313,7 @@ func (w *_BlockWriter) rollback() error {
 
 	// roll back index leases
 	for seq := range w.indexLeases {
-		if _, err := w.del(seq); err != nil {
+		if _, _, err := w.del(seq); err != nil {
 			return err
 		}
 	}
diff --git a/db_internal.go b/db_internal.go
index aa6137b..ec224a4 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -175,7 +175,7 @@ func (db *DB) loadTrie() error {
 		// topic is packed into its first entries, and any of those could be invalid.
 		for i := 0; i < int(b.entryIdx); i++ {
 			e, err := db.internal.reader.readEntry(b.entries[i].seq())
-			if err != nil || e.topicSize == 0 {
+			if (err != nil && err != errMsgIDDeleted) || e.topicSize == 0 {
 				continue
 			}
 			rawtopic, err := db.internal.reader.readTopic(e)
@@ -209,7 +209,12 @@ func (db *DB) readEntry(q _Query) (_IndexEntry, error) {
 		return e, nil
 	}
 
-	return db.internal.reader.readEntry(q.seq)
+	e, err := db.internal.reader.readEntry(q.seq)
+	if err == io.EOF || err == errEntryInvalid {
+		// entry was deleted before it was synced, so it does not exist in the index.
+		return e, errMsgIDDeleted
+	}
+	return e, err
 }
 
 // lookups are performed in following order
@@ -329,6 +334,12 @@ func (db *DB) delete(topicHash, seq uint64) error {
 		return nil
 	}
 
+	// entry is not synced while it is being deleted.
+	if err := db.syncLock(); err != nil {
+		return err
+	}
+	defer db.syncUnlock()
+
 	db.internal.meter.Dels.Inc(1)
 	db.internal.mem.Delete(seq)
 
@@ -341,11 +352,10 @@ func (db *DB) delete(topicHash, seq uint64) error {
 	if err != nil {
 		return err
 	}
-	e, err := w.del(seq)
-	if err != nil {
+	ok, err := w.free(seq)
+	if err != nil || !ok {
 		return err
 	}
-	db.internal.freeList.freeBlock(e.msgOffset, e.mSize())
 	db.decount(1)
 	if db.internal.syncWrites {
 		return db.sync()
diff --git a/db_sync.go b/db_sync.go
index 1fd53ce..928e8da 100644
--- a/db_sync.go
+++ b/db_sync.go
@@ -312,6 +312,10 @@ func (db *DB) expireEntries() error {
 		return err
 	}
 	defer db.syncUnlock()
+	w, err := newBlockWriter(db.fs, db.internal.freeList, nil)
+	if err != nil {
+		return err
+	}
 	expiredEntries := db.internal.timeWindow.expiryWindowBucket.getExpiredEntries(db.opts.queryOptions.defaultQueryLimit)
 	for _, expiredEntry := range expiredEntries {
 		we := expiredEntry.(_WinEntry)
@@ -319,12 +323,14 @@ func (db *DB) expireEntries() error {
 		if !db.internal.filter.Test(we.seq()) {
 			continue
 		}
-		e, err := db.internal.reader.readEntry(we.seq())
+		// entry could be expired more than once, or not synced yet.
+		ok, err := w.free(we.seq())
 		if err != nil {
 			return err
 		}
-		db.internal.freeList.free(e.seq, e.msgOffset, e.mSize())
-		db.decount(1)
+		if ok {
+			db.decount(1)
+		}
 	}
 
 	return nil
-- 
2.43.0


From e51c0bcafa526186732793e9565f769f740894aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:10 +0000
Subject: [PATCH 24/93] fix: Get does not return data of an entry deleted while
 it is being read

---
 db.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/db.go b/db.go
index f1339c1..950f0f9 100644
--- a/db.go
+++ b/db.go
@@ -263,6 +263,13 @@ func (db *DB) Get(q *Query) (items [][]byte, err error) {
 					logger.Error().Err(err).Str("context", "data.readMessage")
 					return err
 				}
+				if s.cache == nil {
+					// data is free and could be allocated again if the entry was deleted while it was being read.
+					if _, err := db.readEntry(query); err == errMsgIDDeleted {
+						invalidCount++
+						return nil
+					}
+				}
 				msgID := message.ID(id)
 				if !msgID.EvalPrefix(q.Contract, q.internal.cutoff) {
 					invalidCount++
-- 
2.43.0


From b8dbec34238f301f3f3617caf1dc58fcdf70c785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:06 +0000
Subject: [PATCH 25/93] fix: messages of less than four bytes are encrypted,
 and decryption does not write to the encrypted message

---
 crypto/mac.go | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/crypto/mac.go b/crypto/mac.go
index c70d0f6..619aa9a 100644
--- a/crypto/mac.go
+++ b/crypto/mac.go
@@ -82,12 +82,16 @@ func Signature(value uint32) []byte {
 // Encrypt encrypts src and appends to dst, returning the
 // resulting byte slice
 func (m *MAC) Encrypt(dst, src []byte) []byte {
+	sig := Signature(hash.New(src))
+	if len(src) < EpochSize {
+		// message is too short to have an epoch.
+		dst = append(dst, sig...)
+		return m.parent.Seal(dst, m.nonce(sig, sig), src, nil)
+	}
 	//Copy first 4 bytes epoch from source
 	dst = append(dst, src[:EpochSize]...)
-	h := hash.New(src)
-	dst = append(dst, Signature(h)...)
-	nonce := append(m.salt, dst[:MessageOffset]...)
-	return m.parent.Seal(dst, nonce, src[EpochSize:], nil)
+	dst = append(dst, sig...)
+	return m.parent.Seal(dst, m.nonce(src[:EpochSize], sig), src[EpochSize:], nil)
 }
 
 // Decrypt decrypts src and appends to dst, returning the
@@ -99,12 +103,30 @@ func (m *MAC) Decrypt(dst, src []byte) ([]byte, error) {
 		return dst, errors.New("Authentication failed.")
 	}
 
-	nonce := append(m.salt, src[:MessageOffset]...)
-	dst, err := m.parent.Open(dst, nonce, src[MessageOffset:], nil)
+	if len(src) < MessageOffset+m.parent.Overhead() {
+		// message is too short to have an epoch.
+		sig := src[:EpochSize]
+		msg, err := m.parent.Open(nil, m.nonce(sig, sig), src[EpochSize:], nil)
+		if err != nil {
+			return dst, errors.New("Authentication failed.")
+		}
+		return append(dst, msg...), nil
+	}
+
+	nonce := m.nonce(src[:EpochSize], src[EpochSize:MessageOffset])
+	msg, err := m.parent.Open(nil, nonce, src[MessageOffset:], nil)
 	if err != nil {
 		return dst, errors.New("Authentication failed.")
 	}
 	// Append epoch to dst at the beginning
-	dst = append(src[:EpochSize], dst...)
-	return dst, nil
+	dst = append(dst, src[:EpochSize]...)
+	return append(dst, msg...), nil
+}
+
+// nonce returns nonce for the message.
+func (m *MAC) nonce(epoch, sig []byte) []byte {
+	nonce := make([]byte, 0, m.parent.NonceSize())
+	nonce = append(nonce, m.salt...)
+	nonce = append(nonce, epoch...)
+	return append(nonce, sig...)
 }
-- 
2.43.0


From 86e494336b399b7699b9c9800502d804daaed58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:09 +0000
Subject: [PATCH 26/93] fix: encryption flag is not mixed up with version and
 sequence of the DB

---
 db_info.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db_info.go b/db_info.go
index ba56ab4..32ee9f0 100644
--- a/db_info.go
+++ b/db_info.go
@@ -43,7 +43,7 @@ func (inf _DBInfo) MarshalBinary() ([]byte, error) {
 	buf := make([]byte, fixed)
 	copy(buf[:7], inf.header.signature[:])
 	binary.LittleEndian.PutUint32(buf[7:11], inf.header.version)
-	buf[12] = uint8(inf.encryption)
+	buf[11] = uint8(inf.encryption)
 	binary.LittleEndian.PutUint64(buf[12:20], inf.sequence)
 	binary.LittleEndian.PutUint64(buf[20:28], inf.count)
 
@@ -54,7 +54,7 @@ func (inf _DBInfo) MarshalBinary() ([]byte, error) {
 func (inf *_DBInfo) UnmarshalBinary(data []byte) error {
 	copy(inf.header.signature[:], data[:7])
 	inf.header.version = binary.LittleEndian.Uint32(data[7:11])
-	inf.encryption = int8(data[7])
+	inf.encryption = int8(data[11])
 	inf.sequence = binary.LittleEndian.Uint64(data[12:20])
 	inf.count = binary.LittleEndian.Uint64(data[20:28])
 
-- 
2.43.0


From 34d4e998c40bb0640bed93b4597b2ddc5d8d2e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:31 +0000
Subject: [PATCH 27/93] fix: time blocks without entries are released from the
 log once preceding blocks are, so that deleted keys are not recovered

---
 memdb/db.go          |  3 +++
 memdb/db_internal.go | 25 +++++++++++++++++++++++++
 memdb/recovery.go    |  3 +++
 3 files changed, 31 insertions(+)

diff --git a/memdb/db.go b/memdb/db.go
index df815ea..e20bda9 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -231,6 +231,9 @@ func (db *DB) BlockIterator(f func(timeID int64, keys []uint64) (bool, error)) (
 		}
 		block.Unlock()
 		if len(keys) == 0 {
+			if err := db.releaseEmpty(timeID); err != nil {
+				return err
+			}
 			continue
 		}
 		if stop, err := f(int64(timeID), keys); stop || err != nil {
diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index 90908c1..67fd545 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -323,6 +323,31 @@ func (db *DB) releaseLog(timeID _TimeID) error {
 	return nil
 }
 
+// releaseEmpty releases a time block if all its entries are deleted.
+// Deleted keys of the block are kept until all preceding time blocks are released, so that those are not recovered.
+func (db *DB) releaseEmpty(timeID _TimeID) error {
+	var blocks []*_Block
+	db.mu.RLock()
+	for ID, block := range db.timeBlocks {
+		if ID < timeID {
+			blocks = append(blocks, block)
+		}
+	}
+	db.mu.RUnlock()
+	for _, block := range blocks {
+		block.RLock()
+		keep := !block.released && block.data.Size() != 0
+		block.RUnlock()
+		if keep {
+			return nil
+		}
+	}
+	if err := db.releaseLog(timeID); err != errEntryDoesNotExist {
+		return err
+	}
+	return nil
+}
+
 // setClosed flag; return true if DB is not already closed.
 func (db *DB) setClosed() bool {
 	return atomic.CompareAndSwapUint32(&db.internal.closed, 0, 1)
diff --git a/memdb/recovery.go b/memdb/recovery.go
index ff2cbbb..a466504 100644
--- a/memdb/recovery.go
+++ b/memdb/recovery.go
@@ -165,6 +165,9 @@ func (db *DB) All(f func(timeID int64, keys []uint64) (bool, error)) (err error)
 		}
 		block.RUnlock()
 		if len(keys) == 0 {
+			if err := db.releaseEmpty(timeID); err != nil {
+				return err
+			}
 			continue
 		}
 		if stop, err := f(int64(timeID), keys); stop || err != nil {
-- 
2.43.0


From 7910bda7896176574f4935a9bfcd3aefc8256dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:07 +0000
Subject: [PATCH 28/93] fix: default and maximum query limit of the DB apply to
 all queries

---
 query.go | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/query.go b/query.go
index c6b2d96..91fde53 100644
--- a/query.go
+++ b/query.go
@@ -77,12 +77,6 @@ func (q *Query) WithLast(dur string) *Query {
 	}
 	// In case of last, include it to the query.
 	q.internal.cutoff = base.Add(-duration).Unix()
-	switch {
-	case (q.Limit == 0):
-		q.Limit = q.internal.opts.defaultQueryLimit
-	case q.Limit > q.internal.opts.maxQueryLimit:
-		q.Limit = q.internal.opts.maxQueryLimit
-	}
 
 	return q
 }
@@ -107,17 +101,16 @@ func (q *Query) parse() error {
 	// In case of last, include it to the query.
 	if from, limit, ok := topic.Last(); ok {
 		q.internal.cutoff = from.Unix()
-		switch {
-		case (q.Limit == 0 && limit == 0):
-			q.Limit = q.internal.opts.defaultQueryLimit
-		case q.Limit > q.internal.opts.maxQueryLimit || limit > q.internal.opts.maxQueryLimit:
-			q.Limit = q.internal.opts.maxQueryLimit
-		case limit > q.Limit:
+		if limit > q.Limit {
 			q.Limit = limit
 		}
 	}
-	if q.Limit == 0 {
+	// Limits are those of the DB, those are not known before the query is parsed.
+	if q.Limit <= 0 {
 		q.Limit = q.internal.opts.defaultQueryLimit
 	}
+	if q.Limit > q.internal.opts.maxQueryLimit {
+		q.Limit = q.internal.opts.maxQueryLimit
+	}
 	return nil
 }
-- 
2.43.0


From 288f79a33c272deac53bf768431c52f91c135dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:15 +0000
Subject: [PATCH 29/93] fix: expired entries are removed in the background from
 all shards of the expiry window

---
 expiry_window.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/expiry_window.go b/expiry_window.go
index f67b746..df241ec 100644
--- a/expiry_window.go
+++ b/expiry_window.go
@@ -93,11 +93,12 @@ func (wb *_ExpiryWindowBucket) getExpiredEntries(maxResults int) []timeWindowEnt
 		return expiredEntries
 	}
 
-	for i := 0; i < wb.maxExpDurations; i++ {
-		// get windows shard.
-		ws := wb.expiryWindows.expiry[i]
+	// entries are added to the shard of its expiry, so expired entries could be in any of those.
+	for _, ws := range wb.expiryWindows.expiry {
+		if len(expiredEntries) > maxResults {
+			break
+		}
 		ws.mu.Lock()
-		defer ws.mu.Unlock()
 		windowTimes := make([]int64, 0, len(ws.windows))
 		for windowTime := range ws.windows {
 			windowTimes = append(windowTimes, windowTime)
@@ -120,6 +121,7 @@ func (wb *_ExpiryWindowBucket) getExpiredEntries(maxResults int) []timeWindowEnt
 				delete(ws.windows, windowTimes[i])
 			}
 		}
+		ws.mu.Unlock()
 	}
 	atomic.StoreInt64(&wb.earliestExpiryHash, 0)
 	return expiredEntries
-- 
2.43.0


From 45831b9b4750d9e6106bd4796114232b1d2f241f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:35 +0000
Subject: [PATCH 30/93] fix: trie is locked while a topic is added, so that
 topics added at the same time are not lost

---
 trie.go | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/trie.go b/trie.go
index fe63f31..edbf467 100644
--- a/trie.go
+++ b/trie.go
@@ -93,15 +93,12 @@ func newTopicTrie() *_TopicTrie {
 // _Trie trie data structure to store topic parts
 type _Trie struct {
 	sync.RWMutex
-	mutex     _Mutex
 	topicTrie *_TopicTrie
 }
 
 // newTrie new trie creates a Trie with an initialized Trie.
-// Mutex is used to lock concurent read/write on a contract, and it does not lock entire trie.
 func newTrie() *_Trie {
 	return &_Trie{
-		mutex:     newMutex(),
 		topicTrie: newTopicTrie(),
 	}
 }
@@ -115,10 +112,9 @@ func (t *_Trie) Count() int {
 
 // add adds a topic to trie.
 func (t *_Trie) add(topic _Topic, parts []message.Part, depth uint8) (added bool) {
-	// Get mutex
-	mu := t.mutex.getMutex(topic.hash)
-	mu.Lock()
-	defer mu.Unlock()
+	// topics that share parts are added to the same nodes, so the entire trie is locked.
+	t.Lock()
+	defer t.Unlock()
 	if _, ok := t.topicTrie.summary[topic.hash]; ok {
 		return false
 	}
@@ -128,25 +124,19 @@ func (t *_Trie) add(topic _Topic, parts []message.Part, depth uint8) (added bool
 			hash:      p.Hash,
 			wildchars: p.Wildchars,
 		}
-		t.RLock()
 		child, ok := curr.children[newPart]
-		t.RUnlock()
 		if !ok {
 			child = &_Node{
 				part:     newPart,
 				parent:   curr,
 				children: make(map[_Part]*_Node),
 			}
-			t.Lock()
 			curr.children[newPart] = child
-			t.Unlock()
 		}
 		curr = child
 	}
-	t.Lock()
 	curr.topics.addUnique(topic)
 	t.topicTrie.summary[topic.hash] = curr
-	t.Unlock()
 	added = true
 	curr.depth = depth
 	return
-- 
2.43.0


From c6df51c10ba5bc1b4e24ca0aa6d3bcf60c96bca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:53 +0000
Subject: [PATCH 31/93] fix: Varz reads the sequence atomically

---
 meter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meter.go b/meter.go
index 443c5f1..1279ff2 100644
--- a/meter.go
+++ b/meter.go
@@ -143,7 +143,7 @@ func (db *DB) Varz() (*Varz, error) {
 	v := &Varz{Start: db.internal.start}
 	v.Now = time.Now()
 	v.Uptime = uptime(time.Since(db.internal.start))
-	v.Seq = int64(db.internal.dbInfo.sequence)
+	v.Seq = int64(db.seq())
 	v.Count = int64(db.Count())
 	v.Gets = db.internal.meter.Gets.Count()
 	v.Puts = db.internal.meter.Puts.Count()
-- 
2.43.0


From f23c8f336d171a9aa1c5d44bdb8fb6dc3c80ad62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:39 +0000
Subject: [PATCH 32/93] fix: logs written at the same time do not share an ID
 and batches do not share the time block of the DB, so that entries are not
 lost on restart

---
 memdb/batch.go       |  8 +++++---
 memdb/db_internal.go | 24 ++++++++++++++++++++++++
 memdb/tiny_log.go    |  6 +++---
 3 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/memdb/batch.go b/memdb/batch.go
index c6c12e1..9f7b24f 100644
--- a/memdb/batch.go
+++ b/memdb/batch.go
@@ -18,7 +18,6 @@ package memdb
 
 import (
 	"fmt"
-	"time"
 )
 
 // Batch is a write batch.
@@ -37,10 +36,13 @@ type Batch struct {
 }
 
 func (b *Batch) newTinyLog() {
-	timeID := _TimeID(time.Now().UTC().UnixNano())
+	timeID := b.db.newLogID()
 	// batch does not share its time block.
+	if timeID == b.db.blockTimeID(timeID) {
+		timeID = b.db.newLogID()
+	}
 	for !b.db.addTimeBlock(timeID) && !b.db.isClosed() {
-		timeID++
+		timeID = b.db.newLogID()
 	}
 	b.tinyLog = &_TinyLog{id: timeID, _TimeID: timeID, managed: true, doneChan: make(chan struct{})}
 }
diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index 67fd545..2b96c97 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -65,6 +65,7 @@ type _DB struct {
 
 	// tiny Log
 	timeRef    _TimeID
+	lastLogID  int64
 	logManager *_TinyLogManager
 
 	// buffer pool
@@ -117,6 +118,29 @@ func (db *DB) timeID() _TimeID {
 	return db.internal.logManager.timeID()
 }
 
+// newLogID returns an ID for the log. Logs written at the same time do not share an ID, as the WAL releases logs by ID.
+func (db *DB) newLogID() _TimeID {
+	for {
+		last := atomic.LoadInt64(&db.internal.lastLogID)
+		ID := time.Now().UTC().UnixNano()
+		if ID <= last {
+			ID = last + 1
+		}
+		if atomic.CompareAndSwapInt64(&db.internal.lastLogID, last, ID) {
+			return _TimeID(ID)
+		}
+	}
+}
+
+// blockTimeID returns ID of the time block that is shared by entries put at the time.
+func (db *DB) blockTimeID(timeID _TimeID) _TimeID {
+	blockDuration := db.opts.timeBlockDuration
+	if blockDuration == 0 {
+		blockDuration = defaultBlockDuration
+	}
+	return _TimeID(time.Unix(0, int64(timeID)).UTC().Truncate(blockDuration).UnixNano())
+}
+
 // blockKey gets blockKey for the Key using consistent hashing.
 func (db *DB) blockKey(key uint64) _BlockKey {
 	return _BlockKey(db.consistent.FindBlock(key))
diff --git a/memdb/tiny_log.go b/memdb/tiny_log.go
index ea2a2f3..5901245 100644
--- a/memdb/tiny_log.go
+++ b/memdb/tiny_log.go
@@ -120,11 +120,11 @@ func (src *_TinyLogOptions) withDefaultOptions() *_TinyLogOptions {
 }
 
 func (p *_TinyLogManager) newTinyLog() {
-	timeNow := time.Now().UTC()
-	timeID := _TimeID(timeNow.Truncate(p.opts.blockDuration).UnixNano())
+	logID := p.db.newLogID()
+	timeID := p.db.blockTimeID(logID)
 	p.db.addTimeBlock(timeID)
 	p.db.internal.timeMark.add(timeID)
-	p.tinyLog = &_TinyLog{id: _TimeID(timeNow.UnixNano()), _TimeID: timeID, managed: false, doneChan: make(chan struct{})}
+	p.tinyLog = &_TinyLog{id: logID, _TimeID: timeID, managed: false, doneChan: make(chan struct{})}
 }
 
 func (db *DB) newLogManager(opts *_TinyLogOptions) {
-- 
2.43.0


From 0e06119cec2dd84a5944fc0ab88be47cd5aa4103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:43 +0000
Subject: [PATCH 33/93] fix: size of the filter file is not cached by
 concurrent readers

---
 filter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filter.go b/filter.go
index 5fb5ec0..5c14002 100644
--- a/filter.go
+++ b/filter.go
@@ -64,18 +64,18 @@ func (f *Filter) writeFilterBlock() error {
 }
 
 func (f *Filter) getFilterBlock(fillCache bool) (*filter.Block, error) {
-	if f.file.currSize() <= 0 {
+	if f.file.Size() <= 0 {
 		return nil, nil
 	}
 	var cacheKey uint64
 	if f.blockCache != nil {
-		cacheKey = f.cacheID ^ uint64(f.file.currSize())
+		cacheKey = f.cacheID ^ uint64(f.file.Size())
 		if data, err := f.blockCache.Get(cacheKey); data != nil {
 			return filter.NewFilterBlock(data), err
 		}
 	}
 
-	raw := make([]byte, f.file.currSize())
+	raw := make([]byte, f.file.Size())
 	if _, err := f.file.ReadAt(raw, 0); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From eb3b40551acd5b94cae55afadb62e7deab721daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:04 +0000
Subject: [PATCH 34/93] fix: logs released concurrently are counted under the
 lock of the WAL

---
 wal/wal.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/wal/wal.go b/wal/wal.go
index b838cdb..0e490ea 100644
--- a/wal/wal.go
+++ b/wal/wal.go
@@ -119,12 +119,8 @@ func (wal *WAL) put(log _LogInfo, data *bpool.Buffer) error {
 
 // SignalLogApplied informs the WAL that it is safe to reuse blocks.
 func (wal *WAL) SignalLogApplied(timeID int64) error {
-	wal.mu.RLock()
-	wal.wg.Add(1)
-	defer func() {
-		wal.wg.Done()
-		wal.mu.RUnlock()
-	}()
+	wal.mu.Lock()
+	defer wal.mu.Unlock()
 
 	wal.logCountApplied++
 	wal.logStore.del(timeID)
-- 
2.43.0


From 3fcad027b981da999ea2b3c5b65ae068ca6fa3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:25 +0000
Subject: [PATCH 35/93] fix: DB could be closed while batches are written

---
 batch.go          |  9 +++++++--
 db_internal.go    | 27 ++++++++++++++++++++++-----
 memdb/batch.go    |  4 +++-
 memdb/tiny_log.go | 17 +++++++++++++++--
 4 files changed, 47 insertions(+), 10 deletions(-)

diff --git a/batch.go b/batch.go
index 596cdf2..c9da215 100644
--- a/batch.go
+++ b/batch.go
@@ -245,13 +245,18 @@ func (b *Batch) Write() error {
 func (b *Batch) Commit() error {
 	_assert(!b.managed, "managed batch commit not allowed")
 
-	b.db.internal.closeW.Add(1)
 	defer func() {
 		close(b.commitComplete)
-		b.db.internal.closeW.Done()
 		b.Abort()
 	}()
 
+	// DB is not closed while the batch is being committed.
+	closeW, err := b.db.startCommit()
+	if err != nil {
+		return err
+	}
+	defer closeW.Done()
+
 	// Write if any pending entries in batch.
 	if err := b.Write(); err != nil {
 		return err
diff --git a/db_internal.go b/db_internal.go
index ec224a4..3eecf57 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -98,10 +98,11 @@ type (
 		syncHandle _SyncHandle
 
 		// Close.
-		closeW sync.WaitGroup
-		closeC chan struct{}
-		closed uint32
-		closer io.Closer
+		closeW  sync.WaitGroup
+		closeMu sync.RWMutex
+		closeC  chan struct{}
+		closed  uint32
+		closer  io.Closer
 	}
 )
 
@@ -121,7 +122,11 @@ func (db *DB) writeInfo() error {
 
 // Close closes the DB.
 func (db *DB) close() error {
-	if !db.setClosed() {
+	// commits that are already started complete before DB is closed.
+	db.internal.closeMu.Lock()
+	ok := db.setClosed()
+	db.internal.closeMu.Unlock()
+	if !ok {
 		return errClosed
 	}
 
@@ -363,6 +368,18 @@ func (db *DB) delete(topicHash, seq uint64) error {
 	return nil
 }
 
+// startCommit starts a commit, and Close waits until it is done.
+func (db *DB) startCommit() (*sync.WaitGroup, error) {
+	db.internal.closeMu.RLock()
+	defer db.internal.closeMu.RUnlock()
+	if err := db.ok(); err != nil {
+		return nil, err
+	}
+	db.internal.closeW.Add(1)
+
+	return &db.internal.closeW, nil
+}
+
 // batch starts a new batch.
 func (db *DB) batch() *Batch {
 	opts := &_Options{}
diff --git a/memdb/batch.go b/memdb/batch.go
index 9f7b24f..ee0c063 100644
--- a/memdb/batch.go
+++ b/memdb/batch.go
@@ -91,7 +91,9 @@ func (b *Batch) Write() error {
 		<-b.writeLockC
 	}()
 	b.batchGroup = append(b.batchGroup, b.tinyLog.timeID())
-	b.db.internal.logManager.writeWait(b.tinyLog)
+	if err := b.db.internal.logManager.writeWait(b.tinyLog); err != nil {
+		return err
+	}
 	b.newTinyLog()
 
 	return nil
diff --git a/memdb/tiny_log.go b/memdb/tiny_log.go
index 5901245..6be150c 100644
--- a/memdb/tiny_log.go
+++ b/memdb/tiny_log.go
@@ -88,6 +88,8 @@ type (
 		opts       *_TinyLogOptions
 		tinyLog    *_TinyLog
 		writeQueue chan *_TinyLog
+		closed     bool
+		closeMu    sync.RWMutex // guards closed, write queue is not used once it is closed.
 		logQueue   chan *_TinyLog
 		stop       chan struct{}
 		stopOnce   sync.Once
@@ -190,12 +192,20 @@ func (p *_TinyLogManager) write() {
 }
 
 // writeWait enqueues the log and waits for it to be executed.
-func (p *_TinyLogManager) writeWait(tinyLog *_TinyLog) {
+func (p *_TinyLogManager) writeWait(tinyLog *_TinyLog) error {
 	if tinyLog == nil {
-		return
+		return nil
+	}
+	p.closeMu.RLock()
+	if p.closed {
+		p.closeMu.RUnlock()
+		return errClosed
 	}
 	p.writeQueue <- tinyLog
+	p.closeMu.RUnlock()
 	<-tinyLog.doneChan
+
+	return nil
 }
 
 // writeLoop enqueue the tiny log to the log pool.
@@ -212,7 +222,10 @@ func (p *_TinyLogManager) writeLoop(interval time.Duration) {
 		select {
 		case <-p.stop:
 			p.write()
+			p.closeMu.Lock()
+			p.closed = true
 			close(p.writeQueue)
+			p.closeMu.Unlock()
 
 			return
 		case <-writeC:
-- 
2.43.0


From 037a30f3cdf7246d483a29335ec99f0139aa33ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:30 +0000
Subject: [PATCH 36/93] fix: query returns an error and not a part of the
 entries if the DB is closed meanwhile

---
 db.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/db.go b/db.go
index 950f0f9..cd0b003 100644
--- a/db.go
+++ b/db.go
@@ -305,6 +305,10 @@ func (db *DB) Get(q *Query) (items [][]byte, err error) {
 		}
 		limit = q.Limit + invalidCount
 	}
+	// entries are not found if the DB was closed during the query.
+	if err := db.ok(); err != nil {
+		return nil, err
+	}
 	db.internal.meter.Gets.Inc(int64(len(items)))
 	db.internal.meter.OutMsgs.Inc(int64(len(items)))
 	return items, nil
-- 
2.43.0


From a5d457aeff643eae904c89bc715156979d3d52be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:20 +0000
Subject: [PATCH 37/93] fix: create the info file in one write

If the process died between extending the new info file and writing its
header, the database could not be opened any more (database is corrupted).
---
 db.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/db.go b/db.go
index cd0b003..ad97dcc 100644
--- a/db.go
+++ b/db.go
@@ -99,9 +99,6 @@ func Open(path string, opts ...Options) (*DB, error) {
 				version:   version,
 			},
 		}
-		if _, err = infoFile.extend(fixed); err != nil {
-			return nil, err
-		}
 		if err := infoFile.writeMarshalableAt(dbInfo, 0); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From aaeddbe4955c274c40f41b9da18aaa7fbeeee7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 38/93] fix: release deleted keys of a batch after the batch

An entry of a batch could be deleted in a log that precedes the log of the
batch. The log that holds the deleted key was released first, so that the
entry was there again if the process died before the batch was released.
---
 memdb/block.go       |  1 +
 memdb/db.go          |  1 +
 memdb/db_internal.go | 40 ++++++++++++++++++++++++++++++++++++++--
 memdb/recovery.go    | 19 ++++++++++++++++++-
 4 files changed, 58 insertions(+), 3 deletions(-)

diff --git a/memdb/block.go b/memdb/block.go
index fada36b..f048411 100644
--- a/memdb/block.go
+++ b/memdb/block.go
@@ -53,6 +53,7 @@ type (
 		records      map[_Key]int64 // map[key]offset
 
 		timeRefs   []_TimeID
+		delTimeID  _TimeID // most recent time block that block holds a deleted key of
 		lastOffset int64 // last offset of block data written to the log
 
 		sealed   bool // entries are handed over to sync, block does not accept new entries
diff --git a/memdb/db.go b/memdb/db.go
index e20bda9..86fad9f 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -213,6 +213,7 @@ func (db *DB) Get(key uint64) ([]byte, error) {
 func (db *DB) BlockIterator(f func(timeID int64, keys []uint64) (bool, error)) (err error) {
 	// Get timeBlocks successfully committed to WAL.
 	timeIDs := db.internal.timeMark.timeRefs(db.timeID())
+	db.releaseOrder(timeIDs)
 	for _, timeID := range timeIDs {
 		db.mu.RLock()
 		block, ok := db.timeBlocks[timeID]
diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index 2b96c97..89637eb 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -21,6 +21,7 @@ import (
 	"errors"
 	"io"
 	"runtime"
+	"sort"
 	"sync/atomic"
 	"time"
 
@@ -241,6 +242,9 @@ func (db *DB) move(timeID _TimeID, key uint64) error {
 	rawTimeID := make([]byte, 8)
 	binary.LittleEndian.PutUint64(rawTimeID[:8], uint64(timeID))
 
+	if timeID > newBlock.delTimeID {
+		newBlock.delTimeID = timeID
+	}
 	newBlock.records[dkey] = int64(newTimeID)
 	return newBlock.put(dkey, rawTimeID)
 }
@@ -347,13 +351,45 @@ func (db *DB) releaseLog(timeID _TimeID) error {
 	return nil
 }
 
+// delTimeID returns most recent time block that the time block holds a deleted key of, it is more recent than
+// the time block if the key was put by a batch.
+func (db *DB) delTimeID(timeID _TimeID) _TimeID {
+	block, ok := db.timeBlock(timeID)
+	if !ok {
+		return 0
+	}
+	block.RLock()
+	defer block.RUnlock()
+
+	return block.delTimeID
+}
+
+// releaseOrder sorts time blocks so that a time block that holds deleted keys follows time blocks of those keys.
+func (db *DB) releaseOrder(timeIDs []_TimeID) {
+	order := make(map[_TimeID]_TimeID, len(timeIDs))
+	for _, timeID := range timeIDs {
+		order[timeID] = timeID
+		if delTimeID := db.delTimeID(timeID); delTimeID > timeID {
+			order[timeID] = delTimeID
+		}
+	}
+	sort.Slice(timeIDs, func(i, j int) bool {
+		if order[timeIDs[i]] == order[timeIDs[j]] {
+			return timeIDs[i] > timeIDs[j]
+		}
+		return order[timeIDs[i]] < order[timeIDs[j]]
+	})
+}
+
 // releaseEmpty releases a time block if all its entries are deleted.
-// Deleted keys of the block are kept until all preceding time blocks are released, so that those are not recovered.
+// Deleted keys of the block are kept until all preceding time blocks and the time blocks of those keys are released,
+// so that those are not recovered.
 func (db *DB) releaseEmpty(timeID _TimeID) error {
 	var blocks []*_Block
+	delTimeID := db.delTimeID(timeID)
 	db.mu.RLock()
 	for ID, block := range db.timeBlocks {
-		if ID < timeID {
+		if ID < timeID || ID > timeID && ID <= delTimeID {
 			blocks = append(blocks, block)
 		}
 	}
diff --git a/memdb/recovery.go b/memdb/recovery.go
index a466504..64e9b67 100644
--- a/memdb/recovery.go
+++ b/memdb/recovery.go
@@ -58,6 +58,7 @@ func (db *DB) startRecovery() error {
 		log := make(map[uint64][]byte)
 		l := r.Count()
 		timeID := _TimeID(time.Unix(0, ID).UTC().Truncate(db.opts.logInterval).UnixNano())
+		var lastDelTimeID _TimeID
 		for i := uint32(0); i < l; i++ {
 			logData, ok, err := r.Next()
 			if err != nil {
@@ -92,6 +93,9 @@ func (db *DB) startRecovery() error {
 					delKeys[delTimeID] = make(map[uint64]struct{})
 				}
 				delKeys[delTimeID][key] = struct{}{}
+				if delTimeID > lastDelTimeID {
+					lastDelTimeID = delTimeID
+				}
 				if db.hasTimeID(_TimeID(ID), delTimeID) {
 					delete(log, key)
 				}
@@ -136,7 +140,19 @@ func (db *DB) startRecovery() error {
 				}
 				db.internal.meter.Puts.Inc(1)
 			}
-			block.timeRefs = append(block.timeRefs, _TimeID(ID))
+			if _, ok := delKeys[_TimeID(ID)]; ok {
+				// log of the batch is released before the log that precedes it and holds its deleted entries.
+				block.timeRefs = append([]_TimeID{_TimeID(ID)}, block.timeRefs...)
+			} else {
+				block.timeRefs = append(block.timeRefs, _TimeID(ID))
+			}
+			if lastDelTimeID > _TimeID(ID) {
+				// deleted entries belong to a batch that is recovered into the time block.
+				lastDelTimeID = _TimeID(time.Unix(0, int64(lastDelTimeID)).UTC().Truncate(db.opts.logInterval).UnixNano())
+				if lastDelTimeID > block.delTimeID {
+					block.delTimeID = lastDelTimeID
+				}
+			}
 			block.Unlock()
 			db.internal.timeMark.release(timeID)
 			db.internal.meter.Recovers.Inc(int64(len(log)))
@@ -149,6 +165,7 @@ func (db *DB) startRecovery() error {
 func (db *DB) All(f func(timeID int64, keys []uint64) (bool, error)) (err error) {
 	// Get timeIDs of timeBlock successfully committed to WAL.
 	timeIDs := db.internal.timeMark.allRefs()
+	db.releaseOrder(timeIDs)
 	for _, timeID := range timeIDs {
 		db.mu.RLock()
 		block, ok := db.timeBlocks[timeID]
-- 
2.43.0


From ec5dc26a5c0f6eff442446505117d61047c7b52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:42 +0000
Subject: [PATCH 39/93] fix: release a time block without deleted keys at once

A batch whose entries are all deleted was kept in the WAL until the time
block that holds its deleted keys was released, so that its entries were
there again if the process died in between.
---
 memdb/db_internal.go | 4 ++--
 memdb/recovery.go    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index 89637eb..9284e13 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -381,7 +381,7 @@ func (db *DB) releaseOrder(timeIDs []_TimeID) {
 	})
 }
 
-// releaseEmpty releases a time block if all its entries are deleted.
+// releaseEmpty releases a time block if all its entries are deleted. It is released at once if it does not hold any deleted keys.
 // Deleted keys of the block are kept until all preceding time blocks and the time blocks of those keys are released,
 // so that those are not recovered.
 func (db *DB) releaseEmpty(timeID _TimeID) error {
@@ -389,7 +389,7 @@ func (db *DB) releaseEmpty(timeID _TimeID) error {
 	delTimeID := db.delTimeID(timeID)
 	db.mu.RLock()
 	for ID, block := range db.timeBlocks {
-		if ID < timeID || ID > timeID && ID <= delTimeID {
+		if delTimeID != 0 && ID != timeID && (ID < timeID || ID <= delTimeID) {
 			blocks = append(blocks, block)
 		}
 	}
diff --git a/memdb/recovery.go b/memdb/recovery.go
index 64e9b67..9db316d 100644
--- a/memdb/recovery.go
+++ b/memdb/recovery.go
@@ -146,8 +146,8 @@ func (db *DB) startRecovery() error {
 			} else {
 				block.timeRefs = append(block.timeRefs, _TimeID(ID))
 			}
-			if lastDelTimeID > _TimeID(ID) {
-				// deleted entries belong to a batch that is recovered into the time block.
+			if lastDelTimeID != 0 {
+				// time block is known by the time ID that it is recovered into.
 				lastDelTimeID = _TimeID(time.Unix(0, int64(lastDelTimeID)).UTC().Truncate(db.opts.logInterval).UnixNano())
 				if lastDelTimeID > block.delTimeID {
 					block.delTimeID = lastDelTimeID
-- 
2.43.0


From 4dc018b3bfec26d37030f0ebc4b91b5b8fe35423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:52 +0000
Subject: [PATCH 40/93] fix: open a database whose free blocks were not written
 completely

If the process died while the free list was written on close, the database
could not be opened any more (EOF).
---
 leasing.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/leasing.go b/leasing.go
index e89d7ac..4065ce0 100644
--- a/leasing.go
+++ b/leasing.go
@@ -218,9 +218,12 @@ func (l *_Lease) read() error {
 	size := binary.LittleEndian.Uint32(buf)
 	off += 4
 	buf = make([]byte, 12*size)
-	if _, err := l.file.ReadAt(buf, off); err != nil {
+	n, err := l.file.ReadAt(buf, off)
+	if err != nil && err != io.EOF {
 		return err
 	}
+	// free blocks that were not written completely on close are not reused.
+	size = uint32(n / 12)
 	blocks.UnmarshalBinary(buf, size)
 
 	// free blocks could be allocated from now on, so those are not read again unless written on close.
-- 
2.43.0


From 336ea4ccb8cb9f8cf66e36cb16d372992a10ec5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:22 +0000
Subject: [PATCH 41/93] fix: a lock on a lock file that is removed does not
 open the DB

---
 file_unix.go | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/file_unix.go b/file_unix.go
index f6c5c82..a57dd32 100644
--- a/file_unix.go
+++ b/file_unix.go
@@ -47,13 +47,39 @@ func lockFile(f *os.File) error {
 }
 
 func newLockFile(name string) (_LockFile, error) {
-	f, err := os.OpenFile(name, os.O_RDWR|os.O_CREATE, 0666)
+	for {
+		f, err := os.OpenFile(name, os.O_RDWR|os.O_CREATE, 0666)
+		if err != nil {
+			return nil, err
+		}
+		if err := lockFile(f); err != nil {
+			f.Close()
+			return nil, err
+		}
+		// unlock removes the file, and a lock on a file that is removed locks nothing.
+		ok, err := isCurrent(f, name)
+		if err == nil && ok {
+			return &_UnixFileLock{f, name}, nil
+		}
+		f.Close()
+		if err != nil {
+			return nil, err
+		}
+	}
+}
+
+// isCurrent checks whether f is the file that the name refers to.
+func isCurrent(f *os.File, name string) (bool, error) {
+	fi, err := f.Stat()
 	if err != nil {
-		return nil, err
+		return false, err
 	}
-	if err := lockFile(f); err != nil {
-		f.Close()
-		return nil, err
+	cur, err := os.Stat(name)
+	if os.IsNotExist(err) {
+		return false, nil
+	}
+	if err != nil {
+		return false, err
 	}
-	return &_UnixFileLock{f, name}, nil
+	return os.SameFile(fi, cur), nil
 }
-- 
2.43.0


From 89b899586e8174af8276d7b0b3cc4a0a3237f66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:43 +0000
Subject: [PATCH 42/93] fix: Close stops the goroutines of its buffer pools

---
 db_internal.go       | 1 +
 memdb/db_internal.go | 1 +
 wal/wal.go           | 1 +
 3 files changed, 3 insertions(+)

diff --git a/db_internal.go b/db_internal.go
index 3eecf57..1a4177e 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -141,6 +141,7 @@ func (db *DB) close() error {
 
 	// close memdb.
 	db.internal.mem.Close()
+	db.internal.bufPool.Done()
 
 	if err := db.writeInfo(); err != nil {
 		return err
diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index 9284e13..a7c9af4 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -94,6 +94,7 @@ func (db *DB) close() error {
 		}
 		db.internal.closer = nil
 	}
+	db.internal.buffer.Done()
 
 	db.internal.meter.UnregisterAll()
 
diff --git a/wal/wal.go b/wal/wal.go
index 0e490ea..bb75c13 100644
--- a/wal/wal.go
+++ b/wal/wal.go
@@ -105,6 +105,7 @@ func (wal *WAL) Close() error {
 
 	// fmt.Println("wal.close: WALInfo ", wal.WALInfo)
 	wal.logStore.close()
+	wal.bufPool.Done()
 
 	return nil
 }
-- 
2.43.0


From c867dd8b5cb6955efa2c0188fbc2b53f1b5ec5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:43 +0000
Subject: [PATCH 43/93] fix: a file is not created in the working directory if
 its directory cannot be created

---
 file.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/file.go b/file.go
index d1c0939..0387201 100644
--- a/file.go
+++ b/file.go
@@ -53,16 +53,10 @@ type _FileDesc struct {
 }
 
 func filePath(dirName string, fd _FileDesc) string {
-	name := fmt.Sprintf("%#x-%d", fd.fileType, fd.num)
-	if err := ensureDir(path.Join(dirName, indexDir)); err != nil {
-		return name
-	}
-	if err := ensureDir(path.Join(dirName, dataDir)); err != nil {
-		return name
-	}
-	if err := ensureDir(path.Join(dirName, winDir)); err != nil {
-		return name
-	}
+	// file is not opened if its directory could not be created.
+	ensureDir(path.Join(dirName, indexDir))
+	ensureDir(path.Join(dirName, dataDir))
+	ensureDir(path.Join(dirName, winDir))
 	switch fd.fileType {
 	case typeInfo:
 		suffix := fmt.Sprintf("%s.info", prefix)
-- 
2.43.0


From 068e742efd357d519827cf2b898373ebca6b1a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:43 +0000
Subject: [PATCH 44/93] fix: recovery that fails does not roll back entries it
 recovers again

---
 db_sync.go  | 7 ++++++-
 recovery.go | 4 ++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/db_sync.go b/db_sync.go
index 928e8da..0a79d29 100644
--- a/db_sync.go
+++ b/db_sync.go
@@ -163,7 +163,12 @@ func (db *_SyncHandle) sync(recovery bool) error {
 		return nil
 	}
 	db.syncInfo.syncComplete = false
-	defer db.abort()
+	if recovery {
+		// entries are recovered again from the log if recovery fails, so those are not rolled back.
+		defer db.reset()
+	} else {
+		defer db.abort()
+	}
 
 	if _, err := db.blockWriter.extend(db.syncInfo.upperSeq); err != nil {
 		logger.Error().Err(err).Str("context", "db.extendBlocks")
diff --git a/recovery.go b/recovery.go
index b359c2d..b1d02f4 100644
--- a/recovery.go
+++ b/recovery.go
@@ -154,8 +154,8 @@ func (db *_SyncHandle) startRecovery() error {
 	})
 
 	if err != nil || err1 != nil {
-		db.syncInfo.syncComplete = false
-		db.abort()
+		// entries are recovered again from the log once DB is opened.
+		db.reset()
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From d9a158b9f787d430130675ce23a9b46f1c119d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:43 +0000
Subject: [PATCH 45/93] fix: Open that fails closes its files and unlocks the
 DB

---
 db.go       | 31 ++++++++++++++++++++++++++-----
 memdb/db.go |  4 +++-
 wal/wal.go  |  3 ++-
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/db.go b/db.go
index ad97dcc..1f53298 100644
--- a/db.go
+++ b/db.go
@@ -46,7 +46,7 @@ type DB struct {
 }
 
 // Open opens or creates a new DB.
-func Open(path string, opts ...Options) (*DB, error) {
+func Open(path string, opts ...Options) (_ *DB, err error) {
 	options := &_Options{}
 	WithDefaultOptions().set(options)
 	WithDefaultFlags().set(options)
@@ -64,11 +64,27 @@ func Open(path string, opts ...Options) (*DB, error) {
 		}
 		return nil, err
 	}
+	var mem *memdb.DB
+	bufPool := bpool.NewBufferPool(options.bufferSize, &bpool.Options{MaxElapsedTime: 10 * time.Second})
+	files := &_FileSet{mu: new(sync.RWMutex)}
+	defer func() {
+		if err == nil {
+			return
+		}
+		// DB is not opened, so that it is closed and unlocked.
+		if mem != nil {
+			mem.Close()
+		}
+		bufPool.Done()
+		files.close()
+		lock.unlock()
+	}()
 
 	infoFile, err := newFile(path, 1, _FileDesc{fileType: typeInfo})
 	if err != nil {
 		return nil, err
 	}
+	files.list = append(files.list, infoFile)
 
 	timeOptions := &_TimeOptions{
 		maxDuration:         options.syncDurationType * time.Duration(options.maxSyncDurations),
@@ -80,16 +96,19 @@ func Open(path string, opts ...Options) (*DB, error) {
 	if err != nil {
 		return nil, err
 	}
+	files.list = append(files.list, winFile)
 
 	indexFile, err := newFile(path, 1, _FileDesc{fileType: typeIndex})
 	if err != nil {
 		return nil, err
 	}
+	files.list = append(files.list, indexFile)
 
 	dataFile, err := newFile(path, 1, _FileDesc{fileType: typeData})
 	if err != nil {
 		return nil, err
 	}
+	files.list = append(files.list, dataFile)
 
 	dbInfo := _DBInfo{}
 	if infoFile.currSize() == 0 {
@@ -116,12 +135,14 @@ func Open(path string, opts ...Options) (*DB, error) {
 	if err != nil {
 		return nil, err
 	}
+	files.list = append(files.list, leaseFile)
 	lease := newLease(leaseFile, options.freeBlockSize)
 
 	filterFile, err := newFile(path, 1, _FileDesc{fileType: typeFilter})
 	if err != nil {
 		return nil, err
 	}
+	files.list = append(files.list, filterFile)
 
 	fileset := &_FileSet{mu: new(sync.RWMutex), list: []_FileSet{infoFile, winFile, indexFile, dataFile, leaseFile, filterFile}}
 	internal := &_DB{
@@ -131,7 +152,7 @@ func Open(path string, opts ...Options) (*DB, error) {
 
 		dbInfo: dbInfo,
 
-		bufPool: bpool.NewBufferPool(options.bufferSize, &bpool.Options{MaxElapsedTime: 10 * time.Second}),
+		bufPool: bufPool,
 
 		info:     infoFile,
 		filter:   Filter{file: filterFile, filterBlock: fltr.NewFilterGenerator()},
@@ -163,11 +184,11 @@ func Open(path string, opts ...Options) (*DB, error) {
 	}
 
 	// Create a blockcache.
-	memdb, err := memdb.Open(memdb.WithLogFilePath(path), memdb.WithMemdbSize(options.memdbSize), memdb.WithBufferSize(options.bufferSize))
+	mem, err = memdb.Open(memdb.WithLogFilePath(path), memdb.WithMemdbSize(options.memdbSize), memdb.WithBufferSize(options.bufferSize))
 	if err != nil {
 		return nil, err
 	}
-	internal.mem = memdb
+	internal.mem = mem
 
 	internal.filter.blockCache = internal.mem
 
@@ -192,7 +213,7 @@ func Open(path string, opts ...Options) (*DB, error) {
 
 	if err := db.recoverLog(); err != nil {
 		// if unable to recover db then close db.
-		panic(fmt.Sprintf("Unable to recover db on sync error %v. Closing db...", err))
+		return nil, fmt.Errorf("Unable to recover db on sync error %v. Closing db", err)
 	}
 
 	db.internal.syncHandle = _SyncHandle{DB: db}
diff --git a/memdb/db.go b/memdb/db.go
index 86fad9f..f41262c 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -71,7 +71,7 @@ func Open(opts ...Options) (*DB, error) {
 	logOpts := wal.Options{Path: options.logFilePath + "/" + logDir, BufferSize: options.bufferSize, Reset: options.logResetFlag}
 	wal, err := wal.New(logOpts)
 	if err != nil {
-		wal.Close()
+		bufPool.Done()
 		return nil, err
 	}
 
@@ -92,6 +92,8 @@ func Open(opts ...Options) (*DB, error) {
 
 	if !options.logResetFlag {
 		if err := db.startRecovery(); err != nil {
+			wal.Close()
+			bufPool.Done()
 			return nil, err
 		}
 	}
diff --git a/wal/wal.go b/wal/wal.go
index bb75c13..f11fe9f 100644
--- a/wal/wal.go
+++ b/wal/wal.go
@@ -75,7 +75,8 @@ func newWal(opts Options) (wal *WAL, err error) {
 	}
 	wal.logStore, err = openFile(opts.Path, opts.BufferSize)
 	if err != nil {
-		return wal, err
+		wal.bufPool.Done()
+		return nil, err
 	}
 
 	if opts.Reset {
-- 
2.43.0


From cea4fa678d8b5555ad15771737e4dbbc5d560a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:53 +0000
Subject: [PATCH 46/93] fix: data of an entry deleted in its block is not
 recovered as the time block of a deleted key

---
 memdb/block.go    | 5 ++++-
 memdb/recovery.go | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/memdb/block.go b/memdb/block.go
index f048411..fa7d310 100644
--- a/memdb/block.go
+++ b/memdb/block.go
@@ -25,6 +25,9 @@ import (
 	"github.com/unit-io/unitdb/filter"
 )
 
+// delEntry is the flag of an entry that is deleted in its block, so that its data is not taken for the time ID of a deleted key.
+const delEntry = 2
+
 // To avoid lock bottlenecks block cache is divided into several (nShards) shards.
 type (
 	_TimeID     int64
@@ -132,7 +135,7 @@ func (b *_Block) delete(key uint64) error {
 	off := b.records[ikey]
 	// k with flag bit
 	var k [9]byte
-	k[0] = 1
+	k[0] = delEntry
 	binary.LittleEndian.PutUint64(k[1:], key)
 	if _, err := b.data.WriteAt(k[:], off+4); err != nil {
 		return err
diff --git a/memdb/recovery.go b/memdb/recovery.go
index 9db316d..a70be62 100644
--- a/memdb/recovery.go
+++ b/memdb/recovery.go
@@ -83,7 +83,7 @@ func (db *DB) startRecovery() error {
 					}
 					continue
 				}
-				if len(val) != 8 {
+				if dBit == delEntry || len(val) != 8 {
 					// entry is deleted before it was written to the log.
 					continue
 				}
-- 
2.43.0


From 61f9173cc025b326a62e9a70c5ccbc5dc8d0faa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:55 +0000
Subject: [PATCH 47/93] fix: entries recovered into the current time block are
 not written to the log again

---
 memdb/recovery.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/memdb/recovery.go b/memdb/recovery.go
index a70be62..7afc491 100644
--- a/memdb/recovery.go
+++ b/memdb/recovery.go
@@ -140,6 +140,8 @@ func (db *DB) startRecovery() error {
 				}
 				db.internal.meter.Puts.Inc(1)
 			}
+			// recovered entries are already in the log.
+			block.lastOffset = block.data.Size()
 			if _, ok := delKeys[_TimeID(ID)]; ok {
 				// log of the batch is released before the log that precedes it and holds its deleted entries.
 				block.timeRefs = append([]_TimeID{_TimeID(ID)}, block.timeRefs...)
-- 
2.43.0


From d53870fe2545d677b9b4ab042d4fdc0bfe451e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:56 +0000
Subject: [PATCH 48/93] fix: a recovered time block is not released while it
 holds deleted keys

---
 memdb/db.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memdb/db.go b/memdb/db.go
index f41262c..634633b 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -283,7 +283,7 @@ func (db *DB) Delete(key uint64) error {
 		}
 		db.internal.meter.Dels.Inc(1)
 		// timeblock is released from the WAL if all records are deleted, and it holds no deleted keys of other time blocks.
-		release := len(block.records) == 0 && timeID < curTimeID
+		release := len(block.records) == 0 && block.delTimeID == 0 && timeID < curTimeID
 		block.Unlock()
 
 		if release {
-- 
2.43.0


From f85aca03a68ab3e3f6f3f4b9e36a0d69879d5e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:58 +0000
Subject: [PATCH 49/93] fix: a time block that holds deleted keys is released
 after time blocks of those keys

---
 memdb/db.go          | 27 +++++++++++++++++------
 memdb/db_internal.go | 52 +++++++++++++++++++++++++++++---------------
 memdb/recovery.go    |  6 ++---
 3 files changed, 57 insertions(+), 28 deletions(-)

diff --git a/memdb/db.go b/memdb/db.go
index 634633b..4b8b81d 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -214,9 +214,18 @@ func (db *DB) Get(key uint64) ([]byte, error) {
 // BlockIterator iterates all time blocks from DB committed to the WAL.
 func (db *DB) BlockIterator(f func(timeID int64, keys []uint64) (bool, error)) (err error) {
 	// Get timeBlocks successfully committed to WAL.
-	timeIDs := db.internal.timeMark.timeRefs(db.timeID())
-	db.releaseOrder(timeIDs)
+	curTimeID := db.timeID()
+	timeIDs := db.internal.timeMark.timeRefs(curTimeID)
 	for _, timeID := range timeIDs {
+		if block, ok := db.timeBlock(timeID); ok {
+			block.Lock()
+			// Entries put after this point would be lost once the block is free.
+			block.sealed = true
+			block.Unlock()
+		}
+	}
+	kept := false
+	for _, timeID := range db.releaseOrder(timeIDs, curTimeID) {
 		db.mu.RLock()
 		block, ok := db.timeBlocks[timeID]
 		db.mu.RUnlock()
@@ -224,19 +233,23 @@ func (db *DB) BlockIterator(f func(timeID int64, keys []uint64) (bool, error)) (
 			continue
 		}
 		var keys []uint64
-		block.Lock()
-		// Entries put after this point would be lost once the block is free.
-		block.sealed = true
+		block.RLock()
 		for ik := range block.records {
 			if ik.delFlag == 0 {
 				keys = append(keys, ik.key)
 			}
 		}
-		block.Unlock()
+		block.RUnlock()
 		if len(keys) == 0 {
-			if err := db.releaseEmpty(timeID); err != nil {
+			released, err := db.releaseEmpty(timeID)
+			if err != nil {
 				return err
 			}
+			kept = kept || !released
+			continue
+		}
+		if kept && db.delTimeID(timeID) != 0 {
+			// block holds deleted keys of a time block that is not released yet.
 			continue
 		}
 		if stop, err := f(int64(timeID), keys); stop || err != nil {
diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index a7c9af4..b336d42 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -21,7 +21,6 @@ import (
 	"errors"
 	"io"
 	"runtime"
-	"sort"
 	"sync/atomic"
 	"time"
 
@@ -365,27 +364,44 @@ func (db *DB) delTimeID(timeID _TimeID) _TimeID {
 	return block.delTimeID
 }
 
-// releaseOrder sorts time blocks so that a time block that holds deleted keys follows time blocks of those keys.
-func (db *DB) releaseOrder(timeIDs []_TimeID) {
-	order := make(map[_TimeID]_TimeID, len(timeIDs))
-	for _, timeID := range timeIDs {
-		order[timeID] = timeID
-		if delTimeID := db.delTimeID(timeID); delTimeID > timeID {
-			order[timeID] = delTimeID
-		}
+// releaseOrder returns time blocks in the order those are released, so that a time block that holds deleted keys follows
+// all preceding time blocks and time blocks of those keys. A time block is left out if it holds deleted keys of a time block
+// that is as recent as the given time ID.
+func (db *DB) releaseOrder(timeIDs []_TimeID, timeID _TimeID) (order []_TimeID) {
+	delTimeIDs := make(map[_TimeID]_TimeID, len(timeIDs))
+	for _, ID := range timeIDs {
+		delTimeIDs[ID] = db.delTimeID(ID)
 	}
-	sort.Slice(timeIDs, func(i, j int) bool {
-		if order[timeIDs[i]] == order[timeIDs[j]] {
-			return timeIDs[i] > timeIDs[j]
+	added := make(map[_TimeID]bool, len(timeIDs))
+	stopped := false
+	for i, ID := range timeIDs {
+		if added[ID] {
+			continue
+		}
+		if delTimeIDs[ID] >= timeID {
+			stopped = true
+		}
+		if stopped && delTimeIDs[ID] != 0 {
+			continue
 		}
-		return order[timeIDs[i]] < order[timeIDs[j]]
-	})
+		// batches that are more recent than the time block do not hold deleted keys.
+		for _, batchID := range timeIDs[i+1:] {
+			if batchID <= delTimeIDs[ID] && delTimeIDs[batchID] == 0 && !added[batchID] {
+				added[batchID] = true
+				order = append(order, batchID)
+			}
+		}
+		added[ID] = true
+		order = append(order, ID)
+	}
+
+	return order
 }
 
 // releaseEmpty releases a time block if all its entries are deleted. It is released at once if it does not hold any deleted keys.
 // Deleted keys of the block are kept until all preceding time blocks and the time blocks of those keys are released,
 // so that those are not recovered.
-func (db *DB) releaseEmpty(timeID _TimeID) error {
+func (db *DB) releaseEmpty(timeID _TimeID) (released bool, err error) {
 	var blocks []*_Block
 	delTimeID := db.delTimeID(timeID)
 	db.mu.RLock()
@@ -400,13 +416,13 @@ func (db *DB) releaseEmpty(timeID _TimeID) error {
 		keep := !block.released && block.data.Size() != 0
 		block.RUnlock()
 		if keep {
-			return nil
+			return false, nil
 		}
 	}
 	if err := db.releaseLog(timeID); err != errEntryDoesNotExist {
-		return err
+		return err == nil, err
 	}
-	return nil
+	return true, nil
 }
 
 // setClosed flag; return true if DB is not already closed.
diff --git a/memdb/recovery.go b/memdb/recovery.go
index 7afc491..e739fda 100644
--- a/memdb/recovery.go
+++ b/memdb/recovery.go
@@ -18,6 +18,7 @@ package memdb
 
 import (
 	"encoding/binary"
+	"math"
 	"time"
 
 	"github.com/unit-io/unitdb/filter"
@@ -167,8 +168,7 @@ func (db *DB) startRecovery() error {
 func (db *DB) All(f func(timeID int64, keys []uint64) (bool, error)) (err error) {
 	// Get timeIDs of timeBlock successfully committed to WAL.
 	timeIDs := db.internal.timeMark.allRefs()
-	db.releaseOrder(timeIDs)
-	for _, timeID := range timeIDs {
+	for _, timeID := range db.releaseOrder(timeIDs, math.MaxInt64) {
 		db.mu.RLock()
 		block, ok := db.timeBlocks[timeID]
 		db.mu.RUnlock()
@@ -184,7 +184,7 @@ func (db *DB) All(f func(timeID int64, keys []uint64) (bool, error)) (err error)
 		}
 		block.RUnlock()
 		if len(keys) == 0 {
-			if err := db.releaseEmpty(timeID); err != nil {
+			if _, err := db.releaseEmpty(timeID); err != nil {
 				return err
 			}
 			continue
-- 
2.43.0


From a0691bb4457ad828ac0ff4540d3459fb267efee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:00 +0000
Subject: [PATCH 50/93] fix: log of a batch is recovered along with the log
 that precedes it and holds its deleted keys

---
 memdb/recovery.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/memdb/recovery.go b/memdb/recovery.go
index e739fda..c30c837 100644
--- a/memdb/recovery.go
+++ b/memdb/recovery.go
@@ -55,10 +55,15 @@ func (db *DB) startRecovery() error {
 
 	recovered := make(map[uint64][]_RecoveredKey)
 	delKeys := make(map[_TimeID]map[uint64]struct{})
+	delBlocks := make(map[_TimeID]_TimeID)
 	return r.Iterator(func(ID int64) (ok bool, err error) {
 		log := make(map[uint64][]byte)
 		l := r.Count()
 		timeID := _TimeID(time.Unix(0, ID).UTC().Truncate(db.opts.logInterval).UnixNano())
+		if delBlockID, ok := delBlocks[_TimeID(ID)]; ok {
+			// log of the batch is released along with the log that precedes it and holds its deleted entries.
+			timeID = delBlockID
+		}
 		var lastDelTimeID _TimeID
 		for i := uint32(0); i < l; i++ {
 			logData, ok, err := r.Next()
@@ -92,6 +97,7 @@ func (db *DB) startRecovery() error {
 				delTimeID := _TimeID(binary.LittleEndian.Uint64(val[:8]))
 				if _, ok := delKeys[delTimeID]; !ok {
 					delKeys[delTimeID] = make(map[uint64]struct{})
+					delBlocks[delTimeID] = timeID
 				}
 				delKeys[delTimeID][key] = struct{}{}
 				if delTimeID > lastDelTimeID {
-- 
2.43.0


From 52ea42a0f80c75f551768ef6d0ea30fb59ae8148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:12 +0000
Subject: [PATCH 51/93] fix: memdb.Delete deletes the entry put first from the
 DB first

---
 memdb/db.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/memdb/db.go b/memdb/db.go
index 4b8b81d..fb97f60 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -279,8 +279,10 @@ func (db *DB) Delete(key uint64) error {
 
 	err := errEntryDoesNotExist
 	curTimeID := db.timeID()
-	// key is deleted from all time blocks, so that an entry put earlier does not reappear.
-	for _, timeID := range r.timeIDs() {
+	// key is deleted from all time blocks, the earliest first, so that an entry put earlier does not reappear.
+	timeIDs := r.timeIDs()
+	for i := len(timeIDs) - 1; i >= 0; i-- {
+		timeID := timeIDs[i]
 		block, ok := db.timeBlock(timeID)
 		if !ok {
 			continue
-- 
2.43.0


From 04ceb0cca0681f846e5efa590bf204bb253ead8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:06 +0000
Subject: [PATCH 52/93] fix: a log that cannot be written is closed

---
 wal/file.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/wal/file.go b/wal/file.go
index 590b880..d5ddb6c 100644
--- a/wal/file.go
+++ b/wal/file.go
@@ -79,13 +79,14 @@ func (fs *_FileStore) put(info _LogInfo, data *bpool.Buffer) error {
 		return err
 	}
 	buf, err := info.MarshalBinary()
-	if err != nil {
-		return err
+	if err == nil {
+		_, err = f.WriteAt(buf, 0)
 	}
-	if _, err := f.WriteAt(buf, 0); err != nil {
-		return err
+	if err == nil {
+		_, err = f.WriteAt(data.Bytes(), int64(logHeaderSize))
 	}
-	if _, err := f.WriteAt(data.Bytes(), int64(logHeaderSize)); err != nil {
+	if err != nil {
+		f.Close()
 		return err
 	}
 	if err := f.Close(); err != nil {
-- 
2.43.0


From ab7ea6bdfe9b990dc6d62a360f693a33c5697f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:42 +0000
Subject: [PATCH 53/93] fix: a message length that is negative or not followed
 by a message does no harm

---
 server/internal/net/message.go |  3 +--
 server/utp/message.go          | 21 +++++++++++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/server/internal/net/message.go b/server/internal/net/message.go
index 5c38aa7..b77817b 100644
--- a/server/internal/net/message.go
+++ b/server/internal/net/message.go
@@ -52,8 +52,7 @@ func Read(r io.Reader) (MessagePack, error) {
 		return &utp.Disconnect{}, nil
 	}
 
-	rawMsg := make([]byte, fh.MessageLength)
-	_, err := io.ReadFull(r, rawMsg)
+	rawMsg, err := utp.ReadBytes(r, fh.MessageLength)
 	if err != nil {
 		return nil, err
 	}
diff --git a/server/utp/message.go b/server/utp/message.go
index 69d3f72..a1c5609 100644
--- a/server/utp/message.go
+++ b/server/utp/message.go
@@ -18,6 +18,7 @@ package utp
 
 import (
 	"bytes"
+	"errors"
 	"io"
 
 	"github.com/golang/protobuf/proto"
@@ -88,8 +89,8 @@ func (fh *FixedHeader) FromBinary(r io.Reader) error {
 	}
 
 	// read FixedHeader
-	head := make([]byte, fhSize)
-	if _, err := io.ReadFull(r, head); err != nil {
+	head, err := ReadBytes(r, fhSize)
+	if err != nil {
 		return err
 	}
 
@@ -105,6 +106,22 @@ func (fh *FixedHeader) FromBinary(r io.Reader) error {
 	return nil
 }
 
+// ReadBytes reads length bytes. The length is received from a peer, so memory is
+// allocated for the bytes that arrive and not for the length.
+func ReadBytes(r io.Reader, length int) ([]byte, error) {
+	if length < 0 {
+		return nil, errors.New("utp: invalid message length")
+	}
+	var buf bytes.Buffer
+	if _, err := io.CopyN(&buf, r, int64(length)); err != nil {
+		if err == io.EOF && buf.Len() > 0 {
+			err = io.ErrUnexpectedEOF
+		}
+		return nil, err
+	}
+	return buf.Bytes(), nil
+}
+
 func encodeLength(length int) []byte {
 	var encLength []byte
 	for {
-- 
2.43.0


From b73efb2177656b6b39f25dce2abd613a30e630cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:44 +0000
Subject: [PATCH 54/93] fix: a client that does not connect first brings the
 server down

---
 server/internal/hdl_conn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index 7c1beb9..0d359f5 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -88,6 +88,12 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 		c.service.stats.PrecisionTiming("conn_time_ns", time.Since(start), stats.IntTag("status", status))
 	}()
 
+	// The first message of a connection is a CONNECT, and there is only one.
+	if (inMsg.Type() == utp.CONNECT) != (c.clientID == nil) {
+		status = types.ErrBadRequest.Status
+		return types.ErrBadRequest
+	}
+
 	switch inMsg.Type() {
 	// An attempt to connect.
 	case utp.CONNECT:
-- 
2.43.0


From 91ad6e3a629366d51374617d4252690656fc01d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:45 +0000
Subject: [PATCH 55/93] fix: a topic of nothing but slashes brings the server
 down

---
 server/internal/message/security/key.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/server/internal/message/security/key.go b/server/internal/message/security/key.go
index 6e081c7..31fc69f 100644
--- a/server/internal/message/security/key.go
+++ b/server/internal/message/security/key.go
@@ -101,8 +101,11 @@ func ParseKey(text string) (topic *Topic) {
 	var fn splitFunc
 
 	parts := strings.FieldsFunc(text, fn.splitKey)
-	if parts == nil || len(parts) < 2 {
-		// topic.TopicType = TopicInvalid
+	if len(parts) == 0 {
+		topic.TopicType = TopicInvalid
+		return topic
+	}
+	if len(parts) < 2 {
 		topic.Topic = parts[0]
 		topic.Size = len(parts[0])
 		return topic
-- 
2.43.0


From 45d5085547c9ff4e4a7e9df5b47111cd025b9202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:19 +0000
Subject: [PATCH 56/93] fix: a message for a connection that is being closed
 brings the server down

---
 server/internal/batch.go    |  2 ++
 server/internal/conn.go     | 17 ++++++++++++++---
 server/internal/hdl_conn.go | 16 ++++++++--------
 3 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/server/internal/batch.go b/server/internal/batch.go
index dcd6986..08fccd3 100644
--- a/server/internal/batch.go
+++ b/server/internal/batch.go
@@ -196,6 +196,7 @@ func (m *batchManager) publish(c *_Conn, publishWaitTimeout time.Duration) {
 
 			select {
 			case c.pub <- pub:
+			case <-c.closeC:
 			case <-time.After(publishWaitTimeout):
 				// b.r.setError(errors.New("publish timeout error occurred"))
 			}
@@ -208,6 +209,7 @@ func (m *batchManager) publish(c *_Conn, publishWaitTimeout time.Duration) {
 				store.Log.PersistOutbound(uint32(c.connID), pub)
 				select {
 				case c.pub <- pub:
+				case <-c.closeC:
 				case <-time.After(publishWaitTimeout):
 					// b.r.setError(errors.New("publish timeout error occurred"))
 				}
diff --git a/server/internal/conn.go b/server/internal/conn.go
index 0f8fd83..f395ce8 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -149,6 +149,8 @@ func (c *_Conn) SendMessage(msg *message.Message) bool {
 	// Acknowledge the publication
 	select {
 	case c.pub <- pub:
+	case <-c.closeC:
+		return false
 	case <-time.After(publishWaitTimeout):
 		return false
 	}
@@ -156,6 +158,16 @@ func (c *_Conn) SendMessage(msg *message.Message) bool {
 	return true
 }
 
+// forward queues the message to be sent to the client, unless the connection is closed.
+func (c *_Conn) forward(msg lp.MessagePack) bool {
+	select {
+	case c.send <- msg:
+		return true
+	case <-c.closeC:
+		return false
+	}
+}
+
 // Send forwards raw bytes to the underlying client.
 func (c *_Conn) SendRawBytes(buf []byte) bool {
 	if c == nil {
@@ -283,7 +295,7 @@ func (c *_Conn) publish(pub utp.Publish, topic *security.Topic, pubMsg *utp.Publ
 					}
 					// persist outbound
 					store.Log.PersistOutbound(uint32(sub.sessID), &pub)
-					sub.send <- notify
+					sub.forward(notify)
 				// Subscriber's DeliveryMode EXPRESS
 				case 0:
 					if !sub.SendMessage(msg) {
@@ -333,7 +345,7 @@ func (c *_Conn) resume(prefix uint32) {
 					FlowControl: utp.NOTIFY,
 					MessageID:   pub.MessageID,
 				}
-				c.send <- notify
+				c.forward(notify)
 			default:
 				store.Log.Delete(k)
 			}
@@ -413,7 +425,6 @@ func (c *_Conn) close() error {
 	Globals.connCache.delete(c.connID)
 	defer log.ConnLogger.Info().Str("context", "conn.close").Int64("connid", int64(c.connID)).Msg("conn closed")
 	Globals.Cluster.connGone(c)
-	close(c.send)
 
 	c.batchManager.close()
 
diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index 0d359f5..8bbebeb 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -119,7 +119,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			FlowControl: utp.ACKNOWLEDGE,
 			Message:     rawAck.Bytes(),
 		}
-		c.send <- ack
+		c.forward(ack)
 
 		if err == types.ErrInvalidClientID {
 			c.sendClientID(clientID.Encode(c.service.mac))
@@ -183,7 +183,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			return nil
 		}
 
-		c.send <- ack
+		c.forward(ack)
 	// An attempt to subscribe to a topic.
 	case utp.SUBSCRIBE:
 		m := *inMsg.(*utp.Subscribe)
@@ -206,7 +206,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			return nil
 		}
 
-		c.send <- ack
+		c.forward(ack)
 
 	// An attempt to unsubscribe from a topic.
 	case utp.UNSUBSCRIBE:
@@ -228,7 +228,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			return nil
 		}
 
-		c.send <- ack
+		c.forward(ack)
 
 	// Ping response, respond appropriately.
 	case utp.PINGREQ:
@@ -236,7 +236,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			MessageType: utp.PINGREQ,
 			FlowControl: utp.ACKNOWLEDGE,
 		}
-		c.send <- ack
+		c.forward(ack)
 
 	case utp.PUBLISH:
 		m := *inMsg.(*utp.Publish)
@@ -259,7 +259,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			}
 			switch msg.(type) {
 			case *utp.Publish:
-				c.send <- msg
+				c.forward(msg)
 			}
 		case utp.RECEIPT:
 			comp := &utp.ControlMessage{
@@ -268,7 +268,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 				MessageID:   ctrlMsg.MessageID,
 			}
 			c.storeOutbound(comp)
-			c.send <- comp
+			c.forward(comp)
 		}
 	}
 
@@ -488,7 +488,7 @@ func (c *_Conn) acknowledge(pub utp.Publish) *types.Error {
 		FlowControl: utp.ACKNOWLEDGE,
 		MessageID:   pub.MessageID,
 	}
-	c.send <- ack
+	c.forward(ack)
 	return nil
 }
 
-- 
2.43.0


From f339c247b5c5c0afc6a90b03c8bfe7aa1a9a557a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:21 +0000
Subject: [PATCH 57/93] fix: a client that disconnects stays connected until it
 closes the connection

---
 server/internal/conn.go     | 10 ----------
 server/internal/hdl_conn.go |  2 +-
 2 files changed, 1 insertion(+), 11 deletions(-)

diff --git a/server/internal/conn.go b/server/internal/conn.go
index f395ce8..037e241 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -434,16 +434,6 @@ func (c *_Conn) close() error {
 	return nil
 }
 
-// clientDisconnect close connection when client send disconnect request or an error occurs.
-func (c *_Conn) clientDisconnect(err error) {
-	log.ConnLogger.Debug().Err(err).Str("context", "conn.internalConnLost")
-	if err := c.ok(); err != nil {
-		log.ConnLogger.Debug().Str("context", "conn.clientDisconnect").Int64("connid", int64(c.connID)).Msg("client disconnect called but not connected")
-		return
-	}
-	c.close()
-}
-
 // internalConnLost close connection when connection is lost or an error occurs
 func (c *_Conn) internalConnLost(err error) {
 	// It is possible that internalConnLost will be called multiple times simultaneously
diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index 8bbebeb..02e330c 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -161,7 +161,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			store.Session.Put(uint64(c.clientID.Epoch()), rawSess)
 		}
 	case utp.DISCONNECT:
-		go c.clientDisconnect(errors.New("client initiated disconnect")) // no harm in calling this if the connection is already down (better than stopping!)
+		return errors.New("client initiated disconnect")
 		// An attempt to relay to a topic.
 	case utp.RELAY:
 		m := *inMsg.(*utp.Relay)
-- 
2.43.0


From 4519a3fdb9e721d0661e12c7fe5e268761607155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:22 +0000
Subject: [PATCH 58/93] fix: a message that is batched while batches are
 published brings the server down

---
 server/internal/batch.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/server/internal/batch.go b/server/internal/batch.go
index 08fccd3..0d89a6a 100644
--- a/server/internal/batch.go
+++ b/server/internal/batch.go
@@ -40,6 +40,7 @@ type (
 		stop         chan struct{}
 		stopOnce     sync.Once
 		stopWg       sync.WaitGroup
+		closed       bool
 	}
 )
 
@@ -93,6 +94,9 @@ func (m *batchManager) close() {
 func (m *batchManager) add(delay int32, pubMsg *utp.PublishMessage) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
+	if m.closed {
+		return
+	}
 	timeID := m.TimeID(delay)
 	b, ok := m.batchGroup[timeID]
 	if !ok {
@@ -127,28 +131,29 @@ func (m *batchManager) publishLoop(interval time.Duration) {
 	for {
 		select {
 		case <-m.stop:
+			m.mu.Lock()
 			timeNow := timeID(TimeNow().UnixNano())
 			for timeID, batch := range m.batchGroup {
 				if timeID < timeNow {
-					m.mu.Lock()
 					m.push(batch)
 					delete(m.batchGroup, timeID)
-					m.mu.Unlock()
 				}
 			}
+			m.closed = true
 			close(m.publishQueue)
+			m.mu.Unlock()
 
 			return
 		case <-publishC:
+			m.mu.Lock()
 			timeNow := timeID(TimeNow().UnixNano())
 			for timeID, batch := range m.batchGroup {
 				if timeID < timeNow {
-					m.mu.Lock()
 					m.push(batch)
 					delete(m.batchGroup, timeID)
-					m.mu.Unlock()
 				}
 			}
+			m.mu.Unlock()
 		}
 	}
 }
-- 
2.43.0


From fb5f2d99b4c8a8ef28803b289ebcf1fbe9342b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:24 +0000
Subject: [PATCH 59/93] fix: a batch waits two seconds for each batch before it
 and is dropped if there are many

---
 server/internal/batch.go | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/server/internal/batch.go b/server/internal/batch.go
index 0d89a6a..9ea7632 100644
--- a/server/internal/batch.go
+++ b/server/internal/batch.go
@@ -9,7 +9,6 @@ import (
 )
 
 const (
-	defaultTimeout      = 2 * time.Second
 	defaultPoolCapacity = 27
 	// publish request (containing a batch of messages) in bytes. Must be lower
 	// than the gRPC limit of 4 MiB.
@@ -73,7 +72,7 @@ func (c *_Conn) newBatchManager(opts *batchOptions) {
 
 	// start the dispacther
 	m.stopWg.Add(1)
-	go m.dispatch(defaultTimeout)
+	go m.dispatch()
 
 	c.batchManager = m
 }
@@ -159,26 +158,12 @@ func (m *batchManager) publishLoop(interval time.Duration) {
 }
 
 // dispatch handles publishing messages for the batches in queue.
-func (m *batchManager) dispatch(timeout time.Duration) {
-LOOP:
-	b, ok := <-m.publishQueue
-	if !ok {
-		close(m.send)
-		m.stopWg.Done()
-		return
+func (m *batchManager) dispatch() {
+	for b := range m.publishQueue {
+		m.send <- b
 	}
-
-	select {
-	case m.send <- b:
-	default:
-		// pool is full, let GC handle the batches
-		goto WAIT
-	}
-
-WAIT:
-	// Wait for a while
-	time.Sleep(timeout)
-	goto LOOP
+	close(m.send)
+	m.stopWg.Done()
 }
 
 // publish publishes the messages.
-- 
2.43.0


From 033f1c4328c573603c68776cc65a3323cd00ff0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:19 +0000
Subject: [PATCH 60/93] fix: messages of different publishers overwrite each
 other on their way to a subscriber

---
 server/internal/conn.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/server/internal/conn.go b/server/internal/conn.go
index 037e241..c80d56c 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -274,27 +274,31 @@ func (c *_Conn) publish(pub utp.Publish, topic *security.Topic, pubMsg *utp.Publ
 		Payload:   pubMsg.Payload,
 	}
 	for _, subscription := range subscriptions {
+		// Each subscriber gets a message of its own, with an identifier of its own.
+		msg := &message.Message{Topic: msg.Topic, Payload: msg.Payload}
 		msg.DeliveryMode = subscription[0]
 		connID := uid.LID(binary.LittleEndian.Uint32(subscription[1:5]))
 		msg.Delay = int32(uid.LID(binary.LittleEndian.Uint32(subscription[5:9])))
 		sub := Globals.connCache.get(connID)
 		if sub != nil {
-			if msg.MessageID == 0 {
-				msg.MessageID = uint16(c.MessageIds.NextID(utp.PUBLISH))
-			}
 			switch pub.DeliveryMode {
 			// Publisher's DeliveryMode RELIABLE or BATCH
 			case 1, 2:
 				switch msg.DeliveryMode {
 				// Subscriber's DeliveryMode RELIABLE or BATCH
 				case 1, 2:
+					outPub := &utp.Publish{
+						MessageID:    uint16(sub.MessageIds.NextID(utp.PUBLISH)),
+						DeliveryMode: msg.DeliveryMode,
+						Messages:     []*utp.PublishMessage{{Topic: msg.Topic, Payload: msg.Payload}},
+					}
 					notify := &utp.ControlMessage{
 						MessageType: utp.PUBLISH,
 						FlowControl: utp.NOTIFY,
-						MessageID:   msg.MessageID,
+						MessageID:   outPub.MessageID,
 					}
 					// persist outbound
-					store.Log.PersistOutbound(uint32(sub.sessID), &pub)
+					store.Log.PersistOutbound(uint32(sub.sessID), outPub)
 					sub.forward(notify)
 				// Subscriber's DeliveryMode EXPRESS
 				case 0:
-- 
2.43.0


From c49a8b1997c485666895f54855fd568a97a2f562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:25 +0000
Subject: [PATCH 61/93] fix: a message is stored for the connection, not for
 the session, and it is kept once it is acknowledged

---
 server/internal/batch.go    | 4 ++--
 server/internal/conn.go     | 2 +-
 server/internal/hdl_conn.go | 3 +++
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/server/internal/batch.go b/server/internal/batch.go
index 9ea7632..90ee762 100644
--- a/server/internal/batch.go
+++ b/server/internal/batch.go
@@ -182,7 +182,7 @@ func (m *batchManager) publish(c *_Conn, publishWaitTimeout time.Duration) {
 			pub.MessageID = uint16(c.MessageIds.NextID(utp.PUBLISH))
 
 			// persist outbound
-			store.Log.PersistOutbound(uint32(c.connID), pub)
+			store.Log.PersistOutbound(uint32(c.sessID), pub)
 
 			select {
 			case c.pub <- pub:
@@ -196,7 +196,7 @@ func (m *batchManager) publish(c *_Conn, publishWaitTimeout time.Duration) {
 				pub.MessageID = uint16(c.MessageIds.NextID(utp.PUBLISH))
 
 				// persist outbound
-				store.Log.PersistOutbound(uint32(c.connID), pub)
+				store.Log.PersistOutbound(uint32(c.sessID), pub)
 				select {
 				case c.pub <- pub:
 				case <-c.closeC:
diff --git a/server/internal/conn.go b/server/internal/conn.go
index c80d56c..6116732 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -144,7 +144,7 @@ func (c *_Conn) SendMessage(msg *message.Message) bool {
 	}
 
 	// persist outbound
-	store.Log.PersistOutbound(uint32(c.connID), pub)
+	store.Log.PersistOutbound(uint32(c.sessID), pub)
 
 	// Acknowledge the publication
 	select {
diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index 02e330c..b0b3388 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -250,6 +250,9 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 
 		ctrlMsg := *inMsg.(*utp.ControlMessage)
 		switch ctrlMsg.FlowControl {
+		case utp.ACKNOWLEDGE:
+			// The message is delivered.
+			store.Log.Delete(uint64(ctrlMsg.Info().MessageID)<<32 + uint64(c.sessID))
 		case utp.RECEIVE:
 			key := uint64(ctrlMsg.Info().MessageID)<<32 + uint64(c.sessID)
 			// Get message from Log store
-- 
2.43.0


From 04e58ef030fda46e41bb895aad6bcf33c72c502e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:28 +0000
Subject: [PATCH 62/93] fix: the messages of every other session are deleted
 when it is resumed

---
 server/internal/conn.go | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/server/internal/conn.go b/server/internal/conn.go
index 6116732..2ce42c6 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -338,22 +338,17 @@ func (c *_Conn) resume(prefix uint32) {
 			continue
 		}
 
-		// isKeyOutbound
-		if (k & (1 << 4)) == 0 {
-			switch msg.Type() {
-			case utp.PUBLISH:
-				pub := msg.(*utp.Publish)
-				c.MessageIds.ResumeID(message.MID(pub.MessageID))
-				notify := &utp.ControlMessage{
-					MessageType: utp.PUBLISH,
-					FlowControl: utp.NOTIFY,
-					MessageID:   pub.MessageID,
-				}
-				c.forward(notify)
-			default:
-				store.Log.Delete(k)
+		switch msg.Type() {
+		case utp.PUBLISH:
+			pub := msg.(*utp.Publish)
+			c.MessageIds.ResumeID(message.MID(pub.MessageID))
+			notify := &utp.ControlMessage{
+				MessageType: utp.PUBLISH,
+				FlowControl: utp.NOTIFY,
+				MessageID:   pub.MessageID,
 			}
-		} else {
+			c.forward(notify)
+		default:
 			store.Log.Delete(k)
 		}
 	}
-- 
2.43.0


From 1ba5eb6783b3d7fb40160e6ce8b5fe0b78027ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:31 +0000
Subject: [PATCH 63/93] fix: the next message identifier after a resumed one is
 never found

---
 server/internal/message/messageids.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/server/internal/message/messageids.go b/server/internal/message/messageids.go
index efd508b..4ff1e90 100644
--- a/server/internal/message/messageids.go
+++ b/server/internal/message/messageids.go
@@ -22,6 +22,9 @@ import (
 	"github.com/unit-io/unitdb/server/utp"
 )
 
+// maxMessageID is the last message identifier, after it they start over from one.
+const maxMessageID = 1<<16 - 1
+
 // MID is 32-bit local message identifier
 type MID int32
 
@@ -60,9 +63,14 @@ func (mids *MessageIds) FreeID(id MID) {
 func (mids *MessageIds) NextID(pktType utp.MessageType) MID {
 	mids.Lock()
 	defer mids.Unlock()
-	mids.id++
-	if _, ok := mids.resume[mids.id]; ok {
-		mids.NextID(pktType)
+	for {
+		mids.id++
+		if mids.id > maxMessageID {
+			mids.id = 1
+		}
+		if _, ok := mids.resume[mids.id]; !ok {
+			break
+		}
 	}
 	mids.index[mids.id] = pktType
 	return mids.id
-- 
2.43.0


From 9aa5bf47760ba123bdbf4dcbb1fd71a4ab99dfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:33 +0000
Subject: [PATCH 64/93] fix: a session is lost when it is resumed a second time

---
 server/internal/hdl_conn.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index b0b3388..16289c5 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -144,18 +144,17 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 		}
 
 		// Take care of any messages in the store
-		sessID := c.sessID
 		if rawSess, err := store.Session.Get(uint64(sessKey)); err == nil {
 			sessID := binary.LittleEndian.Uint32(rawSess[:4])
+			c.sessID = uid.LID(sessID)
 			if !m.CleanSessFlag {
 				c.resume(sessID)
 			} else {
 				store.Log.Reset(sessID)
 			}
-			c.sessID = uid.LID(sessID)
 		}
 		rawSess := make([]byte, 4)
-		binary.LittleEndian.PutUint32(rawSess[0:4], uint32(sessID))
+		binary.LittleEndian.PutUint32(rawSess[0:4], uint32(c.sessID))
 		store.Session.Put(uint64(sessKey), rawSess)
 		if sessKey != int32(c.clientID.Epoch()) {
 			store.Session.Put(uint64(c.clientID.Epoch()), rawSess)
-- 
2.43.0


From 803fb69788e3d23dfdb6b0618ef2679dccb62bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:35 +0000
Subject: [PATCH 65/93] fix: clients of different contracts share a session

---
 server/internal/hdl_conn.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index 16289c5..9deb7f6 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -144,7 +144,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 		}
 
 		// Take care of any messages in the store
-		if rawSess, err := store.Session.Get(uint64(sessKey)); err == nil {
+		if rawSess, err := store.Session.Get(sessionKey(c.clientID, sessKey)); err == nil {
 			sessID := binary.LittleEndian.Uint32(rawSess[:4])
 			c.sessID = uid.LID(sessID)
 			if !m.CleanSessFlag {
@@ -155,9 +155,9 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 		}
 		rawSess := make([]byte, 4)
 		binary.LittleEndian.PutUint32(rawSess[0:4], uint32(c.sessID))
-		store.Session.Put(uint64(sessKey), rawSess)
+		store.Session.Put(sessionKey(c.clientID, sessKey), rawSess)
 		if sessKey != int32(c.clientID.Epoch()) {
-			store.Session.Put(uint64(c.clientID.Epoch()), rawSess)
+			store.Session.Put(sessionKey(c.clientID, int32(c.clientID.Epoch())), rawSess)
 		}
 	case utp.DISCONNECT:
 		return errors.New("client initiated disconnect")
@@ -277,6 +277,11 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 	return nil
 }
 
+// sessionKey is the key of the session of the client that it is stored under.
+func sessionKey(clientID uid.ID, sessKey int32) uint64 {
+	return uint64(clientID.Contract())<<32 | uint64(uint32(sessKey))
+}
+
 // writeLook handles outbound Messages
 func (c *_Conn) writeLoop(ctx context.Context) (err error) {
 	var buf bytes.Buffer
-- 
2.43.0


From 8128d15548bad525c8f14d842e9147cff2d0f44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:08 +0000
Subject: [PATCH 66/93] fix: subscriptions to topics that share a key or to no
 key at all cannot be told apart

---
 server/internal/conn.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/server/internal/conn.go b/server/internal/conn.go
index 2ce42c6..36d0314 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -193,14 +193,8 @@ func (c *_Conn) subscribe(subMsg utp.Subscribe, topic *security.Topic, sub *utp.
 	c.Lock()
 	defer c.Unlock()
 
-	key := string(topic.Key)
-	if key == "" {
-		key, err = security.GenerateKey(c.clientID.Contract(), topic.Topic, security.AllowNone)
-		if err != nil {
-			log.ErrLogger.Err(err).Str("context", "conn.subscribe")
-			return err
-		}
-	}
+	// A key may be good for many topics, so it is the topic that is counted.
+	key := topic.Topic[:topic.Size]
 	if exists := c.subs.Exist(key); exists && !subMsg.IsForwarded && Globals.Cluster.isRemoteContract(fmt.Sprint(c.clientID.Contract())) {
 		// The contract is handled by a remote node. Forward message to it.
 		if err := Globals.Cluster.routeToContract(&subMsg, topic, message.SUBSCRIBE, &message.Message{}, c); err != nil {
@@ -235,7 +229,7 @@ func (c *_Conn) unsubscribe(unsubMsg utp.Unsubscribe, topic *security.Topic) (er
 	c.Lock()
 	defer c.Unlock()
 
-	key := string(topic.Key)
+	key := topic.Topic[:topic.Size]
 	// Remove the subscription from stats and if there's no more subscriptions, notify everyone.
 	if last, messageID := c.subs.Decrement(topic.Topic[:topic.Size], key); last {
 		// Unsubscribe the subscriber
-- 
2.43.0


From d7fa4bf862d6b5ccd50cc0e811eddafed45d0e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:13 +0000
Subject: [PATCH 67/93] fix: a key that allows to read a topic allows to
 publish to it

---
 server/internal/hdl_conn.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index 9deb7f6..c225099 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -370,7 +370,7 @@ func (c *_Conn) onRelay(req *utp.RelayRequest) *types.Error {
 	}
 
 	if !c.insecure {
-		if _, err := c.onSecureRequest(topic); err != nil {
+		if _, err := c.onSecureRequest(topic, security.AllowRead); err != nil {
 			return err
 		}
 	}
@@ -405,7 +405,7 @@ func (c *_Conn) onSubscribe(subMsg utp.Subscribe, sub *utp.Subscription) *types.
 	}
 
 	if !c.insecure {
-		if _, err := c.onSecureRequest(topic); err != nil {
+		if _, err := c.onSecureRequest(topic, security.AllowRead); err != nil {
 			return err
 		}
 	}
@@ -431,7 +431,7 @@ func (c *_Conn) onUnsubscribe(unsubMsg utp.Unsubscribe, sub *utp.Subscription) *
 	}
 
 	if !c.insecure {
-		if _, err := c.onSecureRequest(topic); err != nil {
+		if _, err := c.onSecureRequest(topic, security.AllowRead); err != nil {
 			return err
 		}
 	}
@@ -462,7 +462,7 @@ func (c *_Conn) onPublish(pub utp.Publish) *types.Error {
 		}
 
 		if !c.insecure {
-			wildcard, err := c.onSecureRequest(topic)
+			wildcard, err := c.onSecureRequest(topic, security.AllowWrite)
 			if err != nil {
 				return err
 			}
@@ -499,15 +499,15 @@ func (c *_Conn) acknowledge(pub utp.Publish) *types.Error {
 	return nil
 }
 
-func (c *_Conn) onSecureRequest(topic *security.Topic) (bool, *types.Error) {
+func (c *_Conn) onSecureRequest(topic *security.Topic, permission uint32) (bool, *types.Error) {
 	// Attempt to decode the key
 	key, err := security.DecodeKey(topic.Key)
 	if err != nil {
 		return false, types.ErrBadRequest
 	}
 
-	// Check if the key has the permission to read the topic
-	if !key.HasPermission(security.AllowRead) {
+	// Check if the key has the permission to read or to write the topic
+	if !key.HasPermission(permission) {
 		return false, types.ErrUnauthorized
 	}
 
-- 
2.43.0


From 8874d0023f458d46dc542e71f8ab65538df2791d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:16 +0000
Subject: [PATCH 68/93] fix: a client is taken for another one with an
 identifier that looks the same in part

---
 server/internal/hdl_conn.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index c225099..ce3df5b 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -28,7 +28,6 @@ import (
 	"github.com/unit-io/unitdb/server/internal/message"
 	"github.com/unit-io/unitdb/server/internal/message/security"
 	lp "github.com/unit-io/unitdb/server/internal/net"
-	"github.com/unit-io/unitdb/server/internal/pkg/crypto"
 	"github.com/unit-io/unitdb/server/internal/pkg/log"
 	"github.com/unit-io/unitdb/server/internal/pkg/stats"
 	"github.com/unit-io/unitdb/server/internal/pkg/uid"
@@ -329,12 +328,8 @@ func (c *_Conn) onConnect(clientID []byte) (uid.ID, *types.Error) {
 	defer log.ErrLogger.Debug().Str("context", "conn.onConnect").Int64("duration", time.Since(start).Nanoseconds()).Msg("")
 	var clientid = uid.ID{}
 	if clientID != nil && len(clientID) > c.service.mac.Overhead() {
-		if contract, ok := c.service.cache.Load(crypto.SignatureToUint32(clientID[crypto.EpochSize:crypto.MessageOffset])); ok {
-			clientid, err := uid.CachedClientID(contract.(uint32))
-			if err != nil {
-				return nil, types.ErrUnauthorized
-			}
-			return clientid, nil
+		if clientid, ok := c.service.cache.Load(string(clientID)); ok {
+			return clientid.(uid.ID), nil
 		}
 	}
 
@@ -351,8 +346,7 @@ func (c *_Conn) onConnect(clientID []byte) (uid.ID, *types.Error) {
 
 	//do not cache primary client Id
 	if !clientid.IsPrimary() {
-		cid := []byte(clientid.Encode(c.service.mac))
-		c.service.cache.LoadOrStore(crypto.SignatureToUint32(cid[crypto.EpochSize:crypto.MessageOffset]), clientid.Contract())
+		c.service.cache.LoadOrStore(clientid.Encode(c.service.mac), clientid)
 	}
 
 	return clientid, nil
-- 
2.43.0


From 60357f741540c8dde6d997da772359a9b0446216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:18 +0000
Subject: [PATCH 69/93] fix: errors of different connections overwrite each
 other

---
 server/internal/conn.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server/internal/conn.go b/server/internal/conn.go
index 36d0314..445c02b 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -358,8 +358,9 @@ func (c *_Conn) sendClientID(clientidentifier string) {
 
 // notifyError notifies the connection about an error
 func (c *_Conn) notifyError(err *types.Error, messageID uint16) {
-	err.ID = int(messageID)
-	if b, err := json.Marshal(err); err == nil {
+	e := *err // The errors are shared by all connections.
+	e.ID = int(messageID)
+	if b, err := json.Marshal(&e); err == nil {
 		c.SendMessage(&message.Message{
 			Topic:   "unitdb/error/",
 			Payload: b,
-- 
2.43.0


From 06ae8570af203cb8860eb0d6543254bfe4edc6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:01 +0000
Subject: [PATCH 70/93] fix: a gRPC connection that the server closes stays
 open until the client ends it

The server refuses a client, or is asked to disconnect, by closing the
connection. Close of the server's side of a stream did nothing, so that
the connection, its goroutines and its stream were kept.
---
 server/internal/net/hdl_grpc.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/server/internal/net/hdl_grpc.go b/server/internal/net/hdl_grpc.go
index 630d1fb..9331433 100644
--- a/server/internal/net/hdl_grpc.go
+++ b/server/internal/net/hdl_grpc.go
@@ -19,6 +19,7 @@ package net
 import (
 	"log"
 	"net"
+	"sync"
 	"time"
 
 	"github.com/golang/protobuf/proto"
@@ -59,14 +60,30 @@ func StreamConn(
 
 // Stream implements duplex unitdb.Stream
 func (s *GrpcServer) Stream(stream pbx.Unitdb_StreamServer) error {
-	conn := StreamConn(stream)
+	conn := &serverConn{Conn: StreamConn(stream), closed: make(chan struct{})}
 	defer conn.Close()
 
 	go s.Handler(conn)
-	<-stream.Context().Done()
+	select {
+	case <-stream.Context().Done():
+	case <-conn.closed:
+	}
 	return nil
 }
 
+// serverConn is the server's side of a stream, which ends once it is closed.
+type serverConn struct {
+	*common.Conn
+	once   sync.Once
+	closed chan struct{}
+}
+
+// Close ends the stream.
+func (c *serverConn) Close() error {
+	c.once.Do(func() { close(c.closed) })
+	return c.Conn.Close()
+}
+
 func (s *GrpcServer) Serve(list net.Listener) error {
 	secure := ""
 	var opts []grpc.ServerOption
-- 
2.43.0


From afa4bdf7e01ea7bdb5bcbe540b22983406cd6a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:31 +0000
Subject: [PATCH 71/93] fix: a message of more than 4 MB ends the gRPC
 connection of its subscriber

A message was sent in one packet, whatever its size, and gRPC clients
receive packets of at most 4 MB.
---
 server/internal/net/hdl_grpc.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/internal/net/hdl_grpc.go b/server/internal/net/hdl_grpc.go
index 9331433..d67d12a 100644
--- a/server/internal/net/hdl_grpc.go
+++ b/server/internal/net/hdl_grpc.go
@@ -53,7 +53,8 @@ func StreamConn(
 		Stream: stream,
 		InMsg:  &pbx.Packet{},
 		OutMsg: &pbx.Packet{},
-		Encode: common.Encode(packetFunc),
+		// A packet that is larger than the peer receives would end the stream.
+		Encode: common.ChunkedEncoder(common.Encode(packetFunc), MaxMessageSize/2),
 		Decode: common.Decode(packetFunc),
 	}
 }
-- 
2.43.0


From 413b7128ea8eb252b2a34166e903d1ef6f4f96c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:48 +0000
Subject: [PATCH 72/93] fix: a DISCONNECT is encoded without its message ID

---
 server/utp/connect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/utp/connect.go b/server/utp/connect.go
index acd9d37..96c50f9 100644
--- a/server/utp/connect.go
+++ b/server/utp/connect.go
@@ -177,7 +177,7 @@ func (p *Pingreq) Info() Info {
 
 func (d *Disconnect) ToBinary() (bytes.Buffer, error) {
 	var buf bytes.Buffer
-	var disc pbx.Disconnect
+	disc := pbx.Disconnect{MessageID: int32(d.MessageID)}
 	rawMsg, err := proto.Marshal(&disc)
 	if err != nil {
 		return buf, err
-- 
2.43.0


From 3f645b68c01ac0dc6e37664509fd7910c5ef4f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:48 +0000
Subject: [PATCH 73/93] fix: the body of a PINGREQ or DISCONNECT is read as the
 next message

---
 server/internal/net/message.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/server/internal/net/message.go b/server/internal/net/message.go
index b77817b..f3ea61a 100644
--- a/server/internal/net/message.go
+++ b/server/internal/net/message.go
@@ -46,10 +46,6 @@ func Read(r io.Reader) (MessagePack, error) {
 		// return &utp.Pingreq{}, nil
 		fmt.Println("message::Read: Invalid zero-length packet type ", fh.MessageType)
 		return nil, fmt.Errorf("message::Read: Invalid zero-length packet type %d", fh.MessageType)
-	case utp.PINGREQ:
-		return &utp.Pingreq{}, nil
-	case utp.DISCONNECT:
-		return &utp.Disconnect{}, nil
 	}
 
 	rawMsg, err := utp.ReadBytes(r, fh.MessageLength)
@@ -75,6 +71,10 @@ func Read(r io.Reader) (MessagePack, error) {
 		pack = &utp.Subscribe{}
 	case utp.UNSUBSCRIBE:
 		pack = &utp.Unsubscribe{}
+	case utp.PINGREQ:
+		pack = &utp.Pingreq{}
+	case utp.DISCONNECT:
+		pack = &utp.Disconnect{}
 	default:
 		return nil, fmt.Errorf("message::Read: Invalid zero-length packet type %d", fh.MessageType)
 	}
-- 
2.43.0


From d2c597da984c6acf7eb1e3247fec40ab268cd483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:24 +0000
Subject: [PATCH 74/93] fix: WebSocket connections made at the same time race
 on the upgrader

---
 server/internal/net/hdl_grpc_web.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/internal/net/hdl_grpc_web.go b/server/internal/net/hdl_grpc_web.go
index b777322..30cf854 100644
--- a/server/internal/net/hdl_grpc_web.go
+++ b/server/internal/net/hdl_grpc_web.go
@@ -92,6 +92,9 @@ var upgrader = websocket.Upgrader{
 	ReadBufferSize:  1024,
 	WriteBufferSize: 1024,
 	Subprotocols:    []string{"grpc_web"},
+	CheckOrigin: func(r *http.Request) bool {
+		return true
+	},
 }
 
 func WebSocketConn(
@@ -110,9 +113,6 @@ func WebSocketConn(
 }
 
 func (s *HttpServer) HandleFunc(w http.ResponseWriter, r *http.Request) {
-	upgrader.CheckOrigin = func(r *http.Request) bool {
-		return true
-	}
 	ws, err := upgrader.Upgrade(w, r, nil)
 	if err != nil {
 		return
-- 
2.43.0


From 62f707193931ca4f79c96ada6642478d27105101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:50 +0000
Subject: [PATCH 75/93] fix: an identifier with characters appended is accepted

---
 server/internal/pkg/uid/clientid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/internal/pkg/uid/clientid.go b/server/internal/pkg/uid/clientid.go
index a0a7c3a..e9f4811 100644
--- a/server/internal/pkg/uid/clientid.go
+++ b/server/internal/pkg/uid/clientid.go
@@ -108,7 +108,7 @@ func (id ID) Encode(mac *crypto.MAC) string {
 }
 
 func Decode(buffer []byte, mac *crypto.MAC) (ID, error) {
-	if len(buffer) < 52 {
+	if len(buffer) != 52 {
 		return nil, errors.New("Key provided is invalid")
 	}
 
-- 
2.43.0


From d95c233f10ebd649436b95e2446126cf25d34296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:30 +0000
Subject: [PATCH 76/93] fix: ttl of a topic is kept on an entry that is put
 again

---
 db_internal.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/db_internal.go b/db_internal.go
index 1a4177e..0600ba7 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -285,9 +285,8 @@ func (db *DB) setEntry(e *Entry) error {
 		if err != nil {
 			return err
 		}
-		if e.ExpiresAt == 0 && ttl > 0 {
-			e.ExpiresAt = ttl
-		}
+		// ttl of the topic starts when the entry is put, so it is not kept on the entry that could be put again.
+		e.entry.expiresAt = ttl
 		t.AddContract(e.Contract)
 		e.entry.topicHash = t.GetHash(e.Contract)
 		// topic is packed until an entry of the topic is synced, as entries packed earlier may never be synced.
@@ -310,7 +309,9 @@ func (db *DB) setEntry(e *Entry) error {
 
 	id.SetContract(e.Contract)
 	e.entry.seq = seq
-	e.entry.expiresAt = e.ExpiresAt
+	if e.ExpiresAt != 0 {
+		e.entry.expiresAt = e.ExpiresAt
+	}
 	val := snappy.Encode(nil, e.Payload)
 	if db.internal.dbInfo.encryption == 1 || e.Encryption {
 		eBit = 1
-- 
2.43.0


From 2e5ea9c6eca72243fc9217ed0ddedc2bc1c1007f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:39 +0000
Subject: [PATCH 77/93] fix: an ID that is not generated by the DB panics

---
 db.go          | 3 +++
 db_internal.go | 7 +++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/db.go b/db.go
index 1f53298..30410d4 100644
--- a/db.go
+++ b/db.go
@@ -422,6 +422,9 @@ func (db *DB) DeleteEntry(e *Entry) error {
 		return errTopicTooLarge
 	}
 	id := message.ID(e.ID)
+	if len(id) < id.Size() {
+		return errBadRequest
+	}
 	topic, _, err := db.parseTopic(e.Contract, e.Topic)
 	if err != nil {
 		return err
diff --git a/db_internal.go b/db_internal.go
index 0600ba7..63a4564 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -297,14 +297,17 @@ func (db *DB) setEntry(e *Entry) error {
 		e.entry.parsed = true
 	}
 	if e.ID != nil {
-		id = message.ID(e.ID)
+		// ID that is not generated by the DB has no sequence, or its sequence could be far beyond those of the DB.
+		if id = message.ID(e.ID); len(id) < id.Size() || id.Sequence() > db.seq() {
+			return errBadRequest
+		}
 		seq = id.Sequence()
 	} else {
 		seq = db.nextSeq()
 		id = message.NewID(seq)
 	}
 	if seq == 0 {
-		panic("db.setEntry: seq is zero")
+		return errBadRequest
 	}
 
 	id.SetContract(e.Contract)
-- 
2.43.0


From be68c8e34a6e2fd0c63de02509201674380bb1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:41 +0000
Subject: [PATCH 78/93] fix: disabling the background sync panics

---
 db_sync.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/db_sync.go b/db_sync.go
index 0a79d29..de7ca09 100644
--- a/db_sync.go
+++ b/db_sync.go
@@ -114,6 +114,10 @@ func (db *_SyncHandle) abort() error {
 }
 
 func (db *DB) startSyncer(interval time.Duration) {
+	if interval <= 0 {
+		// background sync is disabled.
+		return
+	}
 	db.internal.closeW.Add(1)
 	defer db.internal.closeW.Done()
 	syncTicker := time.NewTicker(interval)
-- 
2.43.0


From b03b3fe0fdc575eb449256ffba066d7ea45e90ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:11 +0000
Subject: [PATCH 79/93] fix: topic of an entry is lost if the entry is put
 again after it failed

---
 db_internal.go | 34 ++++++++++++++++------------------
 entry.go       |  2 --
 2 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/db_internal.go b/db_internal.go
index 63a4564..80625d5 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -277,24 +277,22 @@ func (db *DB) setEntry(e *Entry) error {
 	var eBit uint8
 	var seq uint64
 	var rawTopic []byte
-	if !e.entry.parsed {
-		if e.Contract == 0 {
-			e.Contract = message.MasterContract
-		}
-		t, ttl, err := db.parseTopic(e.Contract, e.Topic)
-		if err != nil {
-			return err
-		}
-		// ttl of the topic starts when the entry is put, so it is not kept on the entry that could be put again.
-		e.entry.expiresAt = ttl
-		t.AddContract(e.Contract)
-		e.entry.topicHash = t.GetHash(e.Contract)
-		// topic is packed until an entry of the topic is synced, as entries packed earlier may never be synced.
-		if off, ok := db.internal.trie.getOffset(e.entry.topicHash); !ok || off == 0 {
-			rawTopic = t.Marshal()
-			e.entry.topicSize = uint16(len(rawTopic))
-		}
-		e.entry.parsed = true
+	if e.Contract == 0 {
+		e.Contract = message.MasterContract
+	}
+	t, ttl, err := db.parseTopic(e.Contract, e.Topic)
+	if err != nil {
+		return err
+	}
+	// ttl of the topic starts when the entry is put, so it is not kept on the entry that could be put again.
+	e.entry.expiresAt = ttl
+	e.entry.topicSize = 0
+	t.AddContract(e.Contract)
+	e.entry.topicHash = t.GetHash(e.Contract)
+	// topic is packed until an entry of the topic is synced, as entries packed earlier may never be synced.
+	if off, ok := db.internal.trie.getOffset(e.entry.topicHash); !ok || off == 0 {
+		rawTopic = t.Marshal()
+		e.entry.topicSize = uint16(len(rawTopic))
 	}
 	if e.ID != nil {
 		// ID that is not generated by the DB has no sequence, or its sequence could be far beyond those of the DB.
diff --git a/entry.go b/entry.go
index 49ec1cd..fc87c76 100644
--- a/entry.go
+++ b/entry.go
@@ -34,7 +34,6 @@ type (
 		valueSize uint32
 		expiresAt uint32 // expiresAt for recovery from log and not persisted to index file but persisted to the time window file.
 
-		parsed    bool
 		topicHash uint64 // topicHash for recovery from log and not persisted to the DB.
 		cache     []byte // entry from memdb if it exist.
 	}
@@ -98,7 +97,6 @@ func (e *Entry) WithEncryption() *Entry {
 func (e *Entry) reset() {
 	e.entry.seq = 0
 	e.entry.topicSize = 0
-	e.entry.parsed = false
 	e.entry.cache = nil
 	e.ID = nil
 	e.Payload = nil
-- 
2.43.0


From a20002377f996ec2854b34e9e061ec412808fb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:57 +0000
Subject: [PATCH 80/93] fix: a negative query limit of the DB panics

---
 query.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/query.go b/query.go
index 91fde53..2c8e1b7 100644
--- a/query.go
+++ b/query.go
@@ -112,5 +112,9 @@ func (q *Query) parse() error {
 	if q.Limit > q.internal.opts.maxQueryLimit {
 		q.Limit = q.internal.opts.maxQueryLimit
 	}
+	// Limits of the DB could be negative.
+	if q.Limit < 0 {
+		q.Limit = 0
+	}
 	return nil
 }
-- 
2.43.0


From b02a2551ffead665e2186173598fd18cc5b1bd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:34 +0000
Subject: [PATCH 81/93] fix: Get writes to the query, which races and keeps the
 period of another topic

---
 db.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db.go b/db.go
index 30410d4..4bc6bc3 100644
--- a/db.go
+++ b/db.go
@@ -248,6 +248,9 @@ func (db *DB) Get(q *Query) (items [][]byte, err error) {
 	}
 	// // CPU profiling by default
 	// defer profile.Start().Stop()
+	// what is derived from the topic is not kept on the query, that could be used again or by others at the same time.
+	query := *q
+	q = &query
 	q.internal.opts = &_QueryOptions{defaultQueryLimit: db.opts.queryOptions.defaultQueryLimit, maxQueryLimit: db.opts.queryOptions.maxQueryLimit}
 	if err := q.parse(); err != nil {
 		return nil, err
-- 
2.43.0


From b01cbd15c75a9a5ecdb296468b9e8fd198bd7ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:20 +0000
Subject: [PATCH 82/93] fix: only the 1000 most recent subscriptions of a topic
 get its messages, and relays lack older ones

---
 server/internal/db/unitdb/adapter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/internal/db/unitdb/adapter.go b/server/internal/db/unitdb/adapter.go
index 9e889cc..45f1457 100644
--- a/server/internal/db/unitdb/adapter.go
+++ b/server/internal/db/unitdb/adapter.go
@@ -20,6 +20,7 @@ import (
 	"encoding/json"
 	"errors"
 	"io"
+	"math"
 	"os"
 
 	"github.com/unit-io/unitdb"
@@ -152,6 +153,8 @@ func (a *adapter) Get(contract uint32, topic string, last string) (matches [][]b
 	if last != "" {
 		query.WithLast(last)
 	}
+	// All matches are returned, that is up to the maximum limit of the DB.
+	query.WithLimit(math.MaxInt32)
 
 	return a.db.Get(query)
 }
-- 
2.43.0


From 94d9b9e94831101200f4c15df27df8b28e289414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:04 +0000
Subject: [PATCH 83/93] fix: bytes of messages are counted twice if a query is
 repeated

---
 db.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/db.go b/db.go
index 4bc6bc3..1c72626 100644
--- a/db.go
+++ b/db.go
@@ -258,8 +258,9 @@ func (db *DB) Get(q *Query) (items [][]byte, err error) {
 	mu := db.internal.mutex.getMutex(q.internal.prefix)
 	mu.RLock()
 	defer mu.RUnlock()
+	outBytes := int64(0)
 	for limit := q.Limit; ; {
-		items = items[:0]
+		items, outBytes = items[:0], 0
 		invalidCount := 0
 		db.lookup(q, limit)
 		for _, query := range q.internal.winEntries {
@@ -312,7 +313,7 @@ func (db *DB) Get(q *Query) (items [][]byte, err error) {
 					return err
 				}
 				items = append(items, val)
-				db.internal.meter.OutBytes.Inc(int64(s.valueSize))
+				outBytes += int64(s.valueSize)
 				return nil
 			}()
 			if err != nil {
@@ -332,6 +333,7 @@ func (db *DB) Get(q *Query) (items [][]byte, err error) {
 	}
 	db.internal.meter.Gets.Inc(int64(len(items)))
 	db.internal.meter.OutMsgs.Inc(int64(len(items)))
+	db.internal.meter.OutBytes.Inc(outBytes)
 	return items, nil
 }
 
-- 
2.43.0


From ebfab7fbe061547545eb39b3535116fa76a771de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:41 +0000
Subject: [PATCH 84/93] fix: a subscription that could not be made is counted

---
 server/internal/conn.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/internal/conn.go b/server/internal/conn.go
index 445c02b..c803d67 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -214,6 +214,7 @@ func (c *_Conn) subscribe(subMsg utp.Subscribe, topic *security.Topic, sub *utp.
 			binary.LittleEndian.PutUint32(payload[1:5], uint32(c.connID))
 			binary.LittleEndian.PutUint32(payload[5:9], uint32(sub.Delay))
 			if err = store.Subscription.Put(c.clientID.Contract(), messageId, topic.Topic, payload); err != nil {
+				c.subs.Decrement(topic.Topic[:topic.Size], key)
 				log.ErrLogger.Err(err).Str("context", "conn.subscribe").Str("topic", string(topic.Topic[:topic.Size])).Int64("connid", int64(c.connID)).Msg("unable to subscribe to topic") // Unable to subscribe
 				return err
 			}
-- 
2.43.0


From 2397eda17aa4b22927ea1b22dc7f32341f876c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:18 +0000
Subject: [PATCH 85/93] fix: an event recorded while a snapshot of the series
 is taken is a data race

---
 metrics/sample.go                     | 4 ++++
 server/internal/pkg/metrics/sample.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/metrics/sample.go b/metrics/sample.go
index 4b562c8..12a9338 100644
--- a/metrics/sample.go
+++ b/metrics/sample.go
@@ -128,6 +128,8 @@ func (s *_Sample) Range() time.Duration { return s.Times.srange() }
 
 // AddTime adds a time.Duration to metrics.
 func (s *_Sample) AddTime(t time.Duration) {
+	s.Lock()
+	defer s.Unlock()
 	s.Times[(atomic.AddUint64(&s.Count, 1)-1)%s.Size] = t
 }
 
@@ -136,6 +138,8 @@ func (s *_Sample) AddTime(t time.Duration) {
 // This is useful for concurrent/parallelized events that overlap
 // in wall time and are writing to a shared metrics instance.
 func (s *_Sample) SetWallTime(t time.Duration) {
+	s.Lock()
+	defer s.Unlock()
 	s.WallTime = t
 }
 
diff --git a/server/internal/pkg/metrics/sample.go b/server/internal/pkg/metrics/sample.go
index ea9413a..75c0662 100644
--- a/server/internal/pkg/metrics/sample.go
+++ b/server/internal/pkg/metrics/sample.go
@@ -127,6 +127,8 @@ func (s *sample) Range() time.Duration { return s.Times.srange() }
 
 // AddTime adds a time.Duration to metrics.
 func (s *sample) AddTime(t time.Duration) {
+	s.Lock()
+	defer s.Unlock()
 	s.Times[(atomic.AddUint64(&s.Count, 1)-1)%s.Size] = t
 }
 
@@ -135,6 +137,8 @@ func (s *sample) AddTime(t time.Duration) {
 // This is useful for concurrent/parallelized events that overlap
 // in wall time and are writing to a shared metrics instance.
 func (s *sample) SetWallTime(t time.Duration) {
+	s.Lock()
+	defer s.Unlock()
 	s.WallTime = t
 }
 
-- 
2.43.0


From 6a2b4d20d48b7ac196ba856657c9b6bed43f5ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:18 +0000
Subject: [PATCH 86/93] fix: statistics of a series that has no events yet
 panic

---
 metrics/sample.go                     | 31 ++++++++++++++++++++++++++-
 server/internal/pkg/metrics/sample.go | 31 ++++++++++++++++++++++++++-
 2 files changed, 60 insertions(+), 2 deletions(-)

diff --git a/metrics/sample.go b/metrics/sample.go
index 12a9338..e1df998 100644
--- a/metrics/sample.go
+++ b/metrics/sample.go
@@ -190,7 +190,12 @@ func (s *SampleSnapshot) HMean() time.Duration { return s.timeSlice.hMean() }
 func (s *SampleSnapshot) Avg() time.Duration { return s.timeSlice.avg() }
 
 // P50 returns event duration nth percentiles.
-func (s *SampleSnapshot) P50() time.Duration { return s.timeSlice[s.timeSlice.Len()/2] }
+func (s *SampleSnapshot) P50() time.Duration {
+	if s.timeSlice.Len() == 0 {
+		return 0
+	}
+	return s.timeSlice[s.timeSlice.Len()/2]
+}
 
 // P75 returns event duration nth percentiles.
 func (s *SampleSnapshot) P75() time.Duration { return s.timeSlice.p(0.75) }
@@ -247,6 +252,9 @@ func (ts _TimeSlice) cumulative() time.Duration {
 }
 
 func (ts _TimeSlice) hMean() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	var total float64
 
 	for _, t := range ts {
@@ -261,14 +269,23 @@ func (ts _TimeSlice) avg() time.Duration {
 	for _, t := range ts {
 		total += t
 	}
+	if ts.Len() == 0 {
+		return 0
+	}
 	return time.Duration(int(total) / ts.Len())
 }
 
 func (ts _TimeSlice) p(p float64) time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	return ts[int(float64(ts.Len())*p+0.5)-1]
 }
 
 func (ts _TimeSlice) stdDev() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	m := ts.avg()
 	s := 0.00
 
@@ -282,6 +299,9 @@ func (ts _TimeSlice) stdDev() time.Duration {
 }
 
 func (ts _TimeSlice) long5p() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	set := ts[int(float64(ts.Len())*0.95+0.5):]
 
 	if len(set) <= 1 {
@@ -299,6 +319,9 @@ func (ts _TimeSlice) long5p() time.Duration {
 }
 
 func (ts _TimeSlice) short5p() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	set := ts[:int(float64(ts.Len())*0.05+0.5)]
 
 	if len(set) <= 1 {
@@ -316,10 +339,16 @@ func (ts _TimeSlice) short5p() time.Duration {
 }
 
 func (ts _TimeSlice) min() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	return ts[0]
 }
 
 func (ts _TimeSlice) max() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	return ts[ts.Len()-1]
 }
 
diff --git a/server/internal/pkg/metrics/sample.go b/server/internal/pkg/metrics/sample.go
index 75c0662..d72a451 100644
--- a/server/internal/pkg/metrics/sample.go
+++ b/server/internal/pkg/metrics/sample.go
@@ -188,7 +188,12 @@ func (s *SampleSnapshot) HMean() time.Duration { return s.timeSlice.hMean() }
 func (s *SampleSnapshot) Avg() time.Duration { return s.timeSlice.avg() }
 
 // P50 returns event duration nth percentiles ..
-func (s *SampleSnapshot) P50() time.Duration { return s.timeSlice[s.timeSlice.Len()/2] }
+func (s *SampleSnapshot) P50() time.Duration {
+	if s.timeSlice.Len() == 0 {
+		return 0
+	}
+	return s.timeSlice[s.timeSlice.Len()/2]
+}
 
 // P75 returns event duration nth percentiles ..
 func (s *SampleSnapshot) P75() time.Duration { return s.timeSlice.p(0.75) }
@@ -245,6 +250,9 @@ func (ts timeSlice) cumulative() time.Duration {
 }
 
 func (ts timeSlice) hMean() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	var total float64
 
 	for _, t := range ts {
@@ -259,14 +267,23 @@ func (ts timeSlice) avg() time.Duration {
 	for _, t := range ts {
 		total += t
 	}
+	if ts.Len() == 0 {
+		return 0
+	}
 	return time.Duration(int(total) / ts.Len())
 }
 
 func (ts timeSlice) p(p float64) time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	return ts[int(float64(ts.Len())*p+0.5)-1]
 }
 
 func (ts timeSlice) stdDev() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	m := ts.avg()
 	s := 0.00
 
@@ -280,6 +297,9 @@ func (ts timeSlice) stdDev() time.Duration {
 }
 
 func (ts timeSlice) long5p() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	set := ts[int(float64(ts.Len())*0.95+0.5):]
 
 	if len(set) <= 1 {
@@ -297,6 +317,9 @@ func (ts timeSlice) long5p() time.Duration {
 }
 
 func (ts timeSlice) short5p() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	set := ts[:int(float64(ts.Len())*0.05+0.5)]
 
 	if len(set) <= 1 {
@@ -314,10 +337,16 @@ func (ts timeSlice) short5p() time.Duration {
 }
 
 func (ts timeSlice) min() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	return ts[0]
 }
 
 func (ts timeSlice) max() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	return ts[ts.Len()-1]
 }
 
-- 
2.43.0


From 718fd277a466d77a0569a57c7b639e0c9c5ad8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:18 +0000
Subject: [PATCH 87/93] fix: statistics read from a series in use are of
 unsorted and of unset entries

---
 metrics/sample.go                     | 28 +++++++++++++--------------
 server/internal/pkg/metrics/sample.go | 28 +++++++++++++--------------
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/metrics/sample.go b/metrics/sample.go
index e1df998..12a6ab6 100644
--- a/metrics/sample.go
+++ b/metrics/sample.go
@@ -85,46 +85,46 @@ func (s *_Sample) Reset() {
 }
 
 // Cumulative returns cumulative time of all sampled events.
-func (s *_Sample) Cumulative() time.Duration { return s.Times.cumulative() }
+func (s *_Sample) Cumulative() time.Duration { return s.Snapshot().Cumulative() }
 
 // HMean returns event duration harmonic mean.
-func (s *_Sample) HMean() time.Duration { return s.Times.hMean() }
+func (s *_Sample) HMean() time.Duration { return s.Snapshot().HMean() }
 
 // Avg returns average of number of events recorded.
-func (s *_Sample) Avg() time.Duration { return s.Times.avg() }
+func (s *_Sample) Avg() time.Duration { return s.Snapshot().Avg() }
 
 // P50 returns event duration nth percentiles.
-func (s *_Sample) P50() time.Duration { return s.Times[s.Times.Len()/2] }
+func (s *_Sample) P50() time.Duration { return s.Snapshot().P50() }
 
 // P75 returns event duration nth percentiles.
-func (s *_Sample) P75() time.Duration { return s.Times.p(0.75) }
+func (s *_Sample) P75() time.Duration { return s.Snapshot().P75() }
 
 // P95 returns event duration nth percentiles.
-func (s *_Sample) P95() time.Duration { return s.Times.p(0.95) }
+func (s *_Sample) P95() time.Duration { return s.Snapshot().P95() }
 
 // P99 returns event duration nth percentiles.
-func (s *_Sample) P99() time.Duration { return s.Times.p(0.99) }
+func (s *_Sample) P99() time.Duration { return s.Snapshot().P99() }
 
 // P999 returns event duration nth percentiles.
-func (s *_Sample) P999() time.Duration { return s.Times.p(0.999) }
+func (s *_Sample) P999() time.Duration { return s.Snapshot().P999() }
 
 // StdDev returns standard deviation.
-func (s *_Sample) StdDev() time.Duration { return s.Times.stdDev() }
+func (s *_Sample) StdDev() time.Duration { return s.Snapshot().StdDev() }
 
 // Long5p returns average of the longest 5% event durations.
-func (s *_Sample) Long5p() time.Duration { return s.Times.long5p() }
+func (s *_Sample) Long5p() time.Duration { return s.Snapshot().Long5p() }
 
 // Short5p returns average of the shortest 5% event durations.
-func (s *_Sample) Short5p() time.Duration { return s.Times.short5p() }
+func (s *_Sample) Short5p() time.Duration { return s.Snapshot().Short5p() }
 
 // Min returns lowest event duration.
-func (s *_Sample) Min() time.Duration { return s.Times.min() }
+func (s *_Sample) Min() time.Duration { return s.Snapshot().Min() }
 
 // Max returns highest event duration.
-func (s *_Sample) Max() time.Duration { return s.Times.max() }
+func (s *_Sample) Max() time.Duration { return s.Snapshot().Max() }
 
 // Range returns event duration range (Max-Min).
-func (s *_Sample) Range() time.Duration { return s.Times.srange() }
+func (s *_Sample) Range() time.Duration { return s.Snapshot().Range() }
 
 // AddTime adds a time.Duration to metrics.
 func (s *_Sample) AddTime(t time.Duration) {
diff --git a/server/internal/pkg/metrics/sample.go b/server/internal/pkg/metrics/sample.go
index d72a451..26c1429 100644
--- a/server/internal/pkg/metrics/sample.go
+++ b/server/internal/pkg/metrics/sample.go
@@ -84,46 +84,46 @@ func (s *sample) Reset() {
 }
 
 // Cumulative returns cumulative time of all sampled events.
-func (s *sample) Cumulative() time.Duration { return s.Times.cumulative() }
+func (s *sample) Cumulative() time.Duration { return s.Snapshot().Cumulative() }
 
 // HMean returns event duration harmonic mean.
-func (s *sample) HMean() time.Duration { return s.Times.hMean() }
+func (s *sample) HMean() time.Duration { return s.Snapshot().HMean() }
 
 // Avg returns average of number of events recorded.
-func (s *sample) Avg() time.Duration { return s.Times.avg() }
+func (s *sample) Avg() time.Duration { return s.Snapshot().Avg() }
 
 // P50 returns event duration nth percentiles ..
-func (s *sample) P50() time.Duration { return s.Times[s.Times.Len()/2] }
+func (s *sample) P50() time.Duration { return s.Snapshot().P50() }
 
 // P75 returns event duration nth percentiles ..
-func (s *sample) P75() time.Duration { return s.Times.p(0.75) }
+func (s *sample) P75() time.Duration { return s.Snapshot().P75() }
 
 // P95 returns event duration nth percentiles ..
-func (s *sample) P95() time.Duration { return s.Times.p(0.95) }
+func (s *sample) P95() time.Duration { return s.Snapshot().P95() }
 
 // P99 returns event duration nth percentiles ..
-func (s *sample) P99() time.Duration { return s.Times.p(0.99) }
+func (s *sample) P99() time.Duration { return s.Snapshot().P99() }
 
 // P999 returns event duration nth percentiles ..
-func (s *sample) P999() time.Duration { return s.Times.p(0.999) }
+func (s *sample) P999() time.Duration { return s.Snapshot().P999() }
 
 // StdDev returns standard deviation.
-func (s *sample) StdDev() time.Duration { return s.Times.stdDev() }
+func (s *sample) StdDev() time.Duration { return s.Snapshot().StdDev() }
 
 // Long5p returns average of the longest 5% event durations.
-func (s *sample) Long5p() time.Duration { return s.Times.long5p() }
+func (s *sample) Long5p() time.Duration { return s.Snapshot().Long5p() }
 
 // Short5p returns average of the shortest 5% event durations.
-func (s *sample) Short5p() time.Duration { return s.Times.short5p() }
+func (s *sample) Short5p() time.Duration { return s.Snapshot().Short5p() }
 
 // Min returns lowest event duration.
-func (s *sample) Min() time.Duration { return s.Times.min() }
+func (s *sample) Min() time.Duration { return s.Snapshot().Min() }
 
 // Max returns highest event duration.
-func (s *sample) Max() time.Duration { return s.Times.max() }
+func (s *sample) Max() time.Duration { return s.Snapshot().Max() }
 
 //  Range returns event duration range (Max-Min).
-func (s *sample) Range() time.Duration { return s.Times.srange() }
+func (s *sample) Range() time.Duration { return s.Snapshot().Range() }
 
 // AddTime adds a time.Duration to metrics.
 func (s *sample) AddTime(t time.Duration) {
-- 
2.43.0


From 7665ac7fef615ef5b1c2908e864d6c50e5868d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:19 +0000
Subject: [PATCH 88/93] fix: a histogram or time series is never registered

---
 metrics/metrics.go                     | 2 +-
 server/internal/pkg/metrics/metrics.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metrics/metrics.go b/metrics/metrics.go
index 46f51ba..314edec 100644
--- a/metrics/metrics.go
+++ b/metrics/metrics.go
@@ -113,7 +113,7 @@ func (m *StandardMetrics) register(name string, i interface{}) error {
 		return DuplicateMetric(name)
 	}
 	switch i.(type) {
-	case Counter, Gauge:
+	case Counter, Gauge, Histogram, TimeSeries:
 		m.metrics[name] = i
 	}
 	return nil
diff --git a/server/internal/pkg/metrics/metrics.go b/server/internal/pkg/metrics/metrics.go
index d0ce18e..94bec12 100644
--- a/server/internal/pkg/metrics/metrics.go
+++ b/server/internal/pkg/metrics/metrics.go
@@ -113,7 +113,7 @@ func (m *StandardMetrics) register(name string, i interface{}) error {
 		return DuplicateMetric(name)
 	}
 	switch i.(type) {
-	case Counter, Gauge:
+	case Counter, Gauge, Histogram, TimeSeries:
 		m.metrics[name] = i
 	}
 	return nil
-- 
2.43.0


From b76062569702ab1f31b5429604e1b779fd044a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:06 +0000
Subject: [PATCH 89/93] fix: the tables of blocks that are not used at first
 are not set up, so keys are not found once blocks are added

---
 hash/consistent.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hash/consistent.go b/hash/consistent.go
index fa3299f..a3a08f7 100644
--- a/hash/consistent.go
+++ b/hash/consistent.go
@@ -41,8 +41,8 @@ func InitConsistent(blocks, used int) *Consistent {
 		R: make([]uint16, blocks-used, blocks),
 		N: uint16(used),
 	}
-	for b := uint16(0); b < uint16(used); b++ {
-		c.K[b], c.W[b], c.L[b] = b, b, b
+	for b := 0; b < blocks; b++ {
+		c.K[b], c.W[b], c.L[b] = uint16(b), uint16(b), uint16(b)
 	}
 	for b, r := uint16(blocks)-1, 0; b >= uint16(used); b, r = b-1, r+1 {
 		c.A[b], c.R[r] = b, b
-- 
2.43.0


From 587807e179d4b2cc6f3174b6fc33467a0f0b59de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:28 +0000
Subject: [PATCH 90/93] fix: a node of a cluster ends when a call to another
 node fails

---
 server/internal/cluster.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/internal/cluster.go b/server/internal/cluster.go
index aebf01a..e3a3085 100644
--- a/server/internal/cluster.go
+++ b/server/internal/cluster.go
@@ -191,7 +191,7 @@ func (n *ClusterNode) call(proc string, reqMsg, respMsg interface{}) error {
 	}
 
 	if err := n.endpoint.Call(proc, reqMsg, respMsg); err != nil {
-		log.Fatal("cluster.call", "call failed to "+n.name, err)
+		log.Error("cluster.call", "call failed to "+n.name+" "+err.Error())
 
 		n.lock.Lock()
 		if n.connected {
-- 
2.43.0


From adbdc4d572b32b82cef5aa62a27e7e0ed4d7624f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:28 +0000
Subject: [PATCH 91/93] fix: a new leader announces nodes that its ring is not
 made of

---
 server/internal/cluster_leader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/internal/cluster_leader.go b/server/internal/cluster_leader.go
index 5aac0bd..6661a14 100644
--- a/server/internal/cluster_leader.go
+++ b/server/internal/cluster_leader.go
@@ -252,6 +252,8 @@ func (c *Cluster) electLeader() {
 	if voteCount >= expectVotes {
 		// Current node elected as the leader
 		c.fo.leader = c.thisNodeName
+		// The ring may be that of the previous leader, it must agree with the nodes that are announced.
+		c.rehash(c.fo.activeNodes)
 		log.Println("Elected myself as a new leader")
 	}
 }
-- 
2.43.0


From f8ed66ceea02119b63089b7c4163c371a92f9e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:16 +0000
Subject: [PATCH 92/93] fix: data races on the connection to a node, a
 goroutine left by each request to vote

---
 server/internal/cluster.go | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/server/internal/cluster.go b/server/internal/cluster.go
index e3a3085..5e9a08e 100644
--- a/server/internal/cluster.go
+++ b/server/internal/cluster.go
@@ -149,11 +149,13 @@ func (n *ClusterNode) reconnect() {
 	var err error
 	for {
 		// Attempt to reconnect right away
-		if n.endpoint, err = rpc.Dial("tcp", n.address); err == nil {
+		var endpoint *rpc.Client
+		if endpoint, err = rpc.Dial("tcp", n.address); err == nil {
 			if reconnTicker != nil {
 				reconnTicker.Stop()
 			}
 			n.lock.Lock()
+			n.endpoint = endpoint
 			n.connected = true
 			n.reconnecting = false
 			n.lock.Unlock()
@@ -172,10 +174,10 @@ func (n *ClusterNode) reconnect() {
 			// Shutting down
 			log.Info("cluster.reconnect", "node shutdown started "+n.name)
 			reconnTicker.Stop()
+			n.lock.Lock()
 			if n.endpoint != nil {
 				n.endpoint.Close()
 			}
-			n.lock.Lock()
 			n.connected = false
 			n.reconnecting = false
 			n.lock.Unlock()
@@ -185,12 +187,23 @@ func (n *ClusterNode) reconnect() {
 	}
 }
 
-func (n *ClusterNode) call(proc string, reqMsg, respMsg interface{}) error {
+// client returns the RPC endpoint, or nil if the node is not connected.
+func (n *ClusterNode) client() *rpc.Client {
+	n.lock.Lock()
+	defer n.lock.Unlock()
 	if !n.connected {
+		return nil
+	}
+	return n.endpoint
+}
+
+func (n *ClusterNode) call(proc string, reqMsg, respMsg interface{}) error {
+	endpoint := n.client()
+	if endpoint == nil {
 		return errors.New("cluster.call: node '" + n.name + "' not connected")
 	}
 
-	if err := n.endpoint.Call(proc, reqMsg, respMsg); err != nil {
+	if err := endpoint.Call(proc, reqMsg, respMsg); err != nil {
 		log.Error("cluster.call", "call failed to "+n.name+" "+err.Error())
 
 		n.lock.Lock()
@@ -211,7 +224,8 @@ func (n *ClusterNode) callAsync(proc string, reqMsg, respMsg interface{}, done c
 		log.Fatal("cluster.callAsync", "RPC done channel is unbuffered", nil)
 	}
 
-	if !n.connected {
+	endpoint := n.client()
+	if endpoint == nil {
 		call := &rpc.Call{
 			ServiceMethod: proc,
 			Args:          reqMsg,
@@ -243,10 +257,7 @@ func (n *ClusterNode) callAsync(proc string, reqMsg, respMsg interface{}, done c
 		}
 	}()
 
-	call := n.endpoint.Go(proc, reqMsg, respMsg, myDone)
-	call.Done = done
-
-	return call
+	return endpoint.Go(proc, reqMsg, respMsg, myDone)
 }
 
 // Proxy forwards message to master
@@ -525,7 +536,7 @@ func (c *_Conn) rpcWriteLoop() {
 	for {
 		select {
 		case outMsg, ok := <-c.send:
-			if !ok || c.clnode.endpoint == nil {
+			if !ok || c.clnode.client() == nil {
 				// channel closed
 				return
 			}
-- 
2.43.0


From b9f1ff5a6d50943520d9453f12869bff736c2b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:16 +0000
Subject: [PATCH 93/93] fix: data race on the ring of a cluster

---
 server/internal/cluster.go        | 22 ++++++++++++++++------
 server/internal/cluster_leader.go |  6 +++---
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/server/internal/cluster.go b/server/internal/cluster.go
index 5e9a08e..cfbd636 100644
--- a/server/internal/cluster.go
+++ b/server/internal/cluster.go
@@ -285,7 +285,8 @@ type Cluster struct {
 	// Socket for inbound connections
 	inbound *net.TCPListener
 	// Ring hash for mapping topic names to nodes
-	ring *rh.Ring
+	ring     *rh.Ring
+	ringLock sync.RWMutex
 
 	// Failover parameters. Could be nil if failover is not enabled
 	fo *clusterFailover
@@ -306,7 +307,7 @@ func (c *Cluster) Master(reqMsg *ClusterReq, rejected *bool) error {
 		if conn != nil {
 			conn.stop <- nil
 		}
-	} else if reqMsg.Signature == c.ring.Signature() {
+	} else if reqMsg.Signature == c.getRing().Signature() {
 		// This cluster member received a request for a topic it owns.
 
 		if conn == nil {
@@ -342,7 +343,7 @@ func (c *Cluster) Master(reqMsg *ClusterReq, rejected *bool) error {
 }
 
 // Dispatch receives messages from the master node addressed to a specific local connection.
-func (Cluster) Proxy(resp *ClusterResp, unused *bool) error {
+func (*Cluster) Proxy(resp *ClusterResp, unused *bool) error {
 	log.Info("cluster.Proxy", "response from Master for connection "+fmt.Sprint(resp.FromConnID))
 
 	// This cluster member received a response from topic owner to be forwarded to a connection
@@ -361,7 +362,7 @@ func (Cluster) Proxy(resp *ClusterResp, unused *bool) error {
 
 // Given contract name, find appropriate cluster node to route message to
 func (c *Cluster) nodeForContract(contract string) *ClusterNode {
-	key := c.ring.Get(contract)
+	key := c.getRing().Get(contract)
 	if key == c.thisNodeName {
 		log.Error("cluster", "request to route to self")
 		// Do not route to self
@@ -380,7 +381,7 @@ func (c *Cluster) isRemoteContract(contract string) bool {
 		// Cluster not initialized, all contracts are local
 		return false
 	}
-	return c.ring.Get(contract) != c.thisNodeName
+	return c.getRing().Get(contract) != c.thisNodeName
 }
 
 // Forward client message to the Master (cluster node which owns the topic)
@@ -415,7 +416,7 @@ func (c *Cluster) routeToContract(msg lp.MessagePack, topic *security.Topic, msg
 	return n.forward(
 		&ClusterReq{
 			Node:      c.thisNodeName,
-			Signature: c.ring.Signature(),
+			Signature: c.getRing().Signature(),
 			SubMsg:    subMsg,
 			UnsubMsg:  unsubMsg,
 			PubMsg:    pubMsg,
@@ -630,7 +631,16 @@ func (c *Cluster) rehash(nodes []string) []string {
 	}
 	ring.Add(ringKeys...)
 
+	c.ringLock.Lock()
 	c.ring = ring
+	c.ringLock.Unlock()
 
 	return ringKeys
 }
+
+// getRing returns the current ring, it is replaced when nodes fail or recover.
+func (c *Cluster) getRing() *rh.Ring {
+	c.ringLock.RLock()
+	defer c.ringLock.RUnlock()
+	return c.ring
+}
diff --git a/server/internal/cluster_leader.go b/server/internal/cluster_leader.go
index 6661a14..ec3d11b 100644
--- a/server/internal/cluster_leader.go
+++ b/server/internal/cluster_leader.go
@@ -166,7 +166,7 @@ func (c *Cluster) sendPings() {
 		err := node.call("Cluster.Ping", &ClusterPing{
 			Leader:    c.thisNodeName,
 			Term:      c.fo.term,
-			Signature: c.ring.Signature(),
+			Signature: c.getRing().Signature(),
 			Nodes:     c.fo.activeNodes}, &unused)
 
 		if err != nil {
@@ -307,10 +307,10 @@ func (c *Cluster) run() {
 			}
 
 			missed = 0
-			if ping.Signature != c.ring.Signature() {
+			if ping.Signature != c.getRing().Signature() {
 				if rehashSkipped {
 					log.Println("cluster: rehashing at a request of",
-						ping.Leader, ping.Nodes, ping.Signature, c.ring.Signature())
+						ping.Leader, ping.Nodes, ping.Signature, c.getRing().Signature())
 					c.rehash(ping.Nodes)
 					rehashSkipped = false
 
-- 
2.43.0

