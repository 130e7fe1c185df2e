From a55856d64d9c604cfcb269b109b56fd2b85be79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 01/31] fix: match key prefixes as plain strings when counting
 down a batch

A key beginning with '/' sent the lookup into an endless loop, and keys that
path.Dir normalizes ('..', '//') or prefixes not ending in '/' were never
counted, so their block never completed.
---
 delivery/consumer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 00a5958..bf72ccb 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -2,7 +2,6 @@ package delivery
 
 import (
   "math/big"
-  "path"
   "strings"
   "github.com/hashicorp/golang-lru"
   "github.com/openrelayxyz/cardinal-types"
@@ -155,8 +154,10 @@ func (pb *PendingBatch) DecPrefixCounter(p string) bool {
     pb.prefixes[p]--
     return true
   }
-  for d := p; d != "."; d = path.Dir(d) {
-    k := strings.TrimPrefix(d, "/") + "/"
+  // A prefix is any string the key begins with, not necessarily a whole number
+  // of path segments, so look for the longest one without normalizing the key.
+  for i := len(p) - 1; i > 0; i-- {
+    k := p[:i]
     if v, ok := pb.prefixes[k]; ok && v > 0 {
       pb.prefixes[k]--
       return true
-- 
2.43.0


From 74ed604915f1473efa80b0823ba8df1baa3f8bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 02/31] fix: discard duplicates of a BatchMsg with an empty
 value

The duplicate was counted against its prefix again, so the block was emitted
while other messages were still missing.
---
 delivery/consumer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index bf72ccb..26af40f 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -125,7 +125,7 @@ func (pb *PendingBatch) ApplyMessage(m ResumptionMessage) bool {
     return true
   case BatchMsgType:
     path := string(m.Key()[33:])
-    if v, ok := pb.Values[path]; ok && len(v) > 0 { return false } // Already set
+    if _, ok := pb.Values[path]; ok { return false } // Already set
     if pb.DecPrefixCounter(path) {
       // If this is false, we're not tracking this prefix and should ignore the message
       pb.Values[path] = m.Value()
-- 
2.43.0


From 7e1e1186f4c65e3f2c40db2b6b3c2b1338834bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 03/31] fix: keep updates to an empty value carried in the
 batch header

They were dropped for keys outside the schema, and only for those.
---
 delivery/consumer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 26af40f..df035e5 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -349,7 +349,10 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
         }
       }
       if !match { continue } // Regardless of message type, if we're ignoring the prefix, skip this update
-      if len(update.Value) > 0 { mp.pendingBatches[hash].Values[prefix] = update.Value }
+      if len(update.Value) > 0 || (update.Count == 0 && !update.Delete && update.Subbatch == (types.Hash{})) {
+        // A record with nothing set is an update to an empty value
+        mp.pendingBatches[hash].Values[prefix] = update.Value
+      }
       if update.Delete { mp.pendingBatches[hash].Deletes[prefix] = struct{}{} }
       if update.Count != 0 {
         mp.pendingBatches[hash].prefixes[prefix] = update.Count
-- 
2.43.0


From cf1bed752a58f8e62fc41702bd7b94f9b8879c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 04/31] fix: find a common ancestor that is the block the
 consumer started from

A heavier fork from the starting block (or from any block whose parent is no
longer held) failed with 'Reached genesis' and its head was dropped, so the
consumer stayed on the lighter chain for good.
---
 delivery/ordering.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index 1d253ca..7805eb0 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -351,10 +351,26 @@ func (omp *OrderedMessageProcessor) prepareReorg(newHead, oldHead *PendingBatch)
       return reverted, newBlocks, nil
     }
     reverted = append([]*PendingBatch{oldHead}, reverted...)
-    oldHead, _ = omp.pending[oldHead.ParentHash]
-    if oldHead == nil {
+    oldParent, _ := omp.pending[oldHead.ParentHash]
+    if oldParent == nil {
+      // The oldest block we have. Its parent (the block we started from) can
+      // still be the common ancestor, even though we don't hold that block.
+      for newHead.Number > oldHead.Number {
+        parentHash := newHead.ParentHash
+        newHead, _ = omp.pending[parentHash]
+        if newHead == nil {
+          omp.queue(newBlocks[len(newBlocks) - 1])
+          return reverted, newBlocks, fmt.Errorf("Block %#x missing from history", parentHash)
+        }
+        newBlocks = append([]*PendingBatch{newHead}, newBlocks...)
+      }
+      if newHead.ParentHash == oldHead.ParentHash {
+        return reverted, newBlocks, nil
+      }
+      omp.queue(newBlocks[len(newBlocks) - 1])
       return reverted, newBlocks, fmt.Errorf("Reached genesis without finding common ancestor")
     }
+    oldHead = oldParent
   }
 }
 
-- 
2.43.0


From ca5f3b24a32ae4c56430b5233b16116f1098da5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 05/31] fix: make every queued descendant of a connected block
 available for reorgs

When a block filled a gap below several queued branches only the heaviest
branch was connected; a later block extending one of the others stayed queued
forever, even as the heaviest block.
---
 delivery/ordering.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index 7805eb0..bca23d3 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -211,6 +211,9 @@ func (omp *OrderedMessageProcessor) HandlePendingBatch(pb *PendingBatch, reorg b
       if pb, ok := omp.pending[child]; ok {
         omp.HandlePendingBatch(pb, true)
       }
+      // The block connects everything queued on top of it, not just the
+      // heaviest chain, so later blocks can build on any of it.
+      omp.finishPendingChildren(pb.Hash)
       omp.queue(pb)
       return
     }
-- 
2.43.0


From e76129a1b6aa1ec28bd7f942a9f67ef82942eb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 06/31] fix: don't look for a zero-hash child when queued
 blocks have no weight

With weights of zero, or only evicted children, the consumer panicked with
'Could not find a pending batch'.
---
 delivery/ordering.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index bca23d3..39bcaf3 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -300,16 +300,19 @@ func (omp *OrderedMessageProcessor) getPendingChild(hash types.Hash) (types.Hash
   if !ok {
     return types.Hash{}, ok
   }
-  max := new(big.Int)
+  var max *big.Int
   var maxChild types.Hash
   for child := range children {
+    if _, ok := omp.pending[child]; !ok {
+      continue // Already evicted
+    }
     td := omp.getPendingChainDifficulty(child)
-    if max.Cmp(td) < 0 {
+    if max == nil || max.Cmp(td) < 0 {
       max = td
       maxChild = child
     }
   }
-  return maxChild, true
+  return maxChild, max != nil
 }
 
 // getPendingChainDifficulty returns the weight of the heaviest chain
-- 
2.43.0


From 00962208f41e8f8d130b2fb98faa2fa6f92b89a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:19 +0000
Subject: [PATCH 07/31] fix: don't announce a complete batch twice to waiters

---
 delivery/consumer.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index df035e5..3e2a6ee 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -253,15 +253,22 @@ func (mp *MessageProcessor) evictOlderThan(n int64) {
 }
 
 func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
-	if pb.waitCh == nil {
-		pb.waitCh = make(chan struct{})
+	if mp.completed.Contains(pb.Hash) { return } // We've recently emitted this block
+	if pending, ok := mp.pendingBatches[pb.Hash]; ok && pending.waitCh != nil {
+		// The block has already been announced by its header. Use the channel
+		// waiters already have.
+		pb.waitCh = pending.waitCh
+	} else {
+		if pb.waitCh == nil {
+			pb.waitCh = make(chan struct{})
+		}
+		mp.waitFeed.Send(&Waiter{
+			Hash: pb.Hash,
+			Parent: pb.ParentHash,
+			Number: pb.Number,
+			WaitCh: pb.waitCh,
+		})
 	}
-	mp.waitFeed.Send(&Waiter{
-		Hash: pb.Hash,
-		Parent: pb.ParentHash,
-		Number: pb.Number,
-		WaitCh: pb.waitCh,
-	})
 	mp.feed.Send(pb)
 	mp.lastEmittedNum = pb.Number
 	mp.completed.Add(pb.Hash, struct{}{})
-- 
2.43.0


From 3aba43207b2639e7954350353c474236eff0ef0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:47 +0000
Subject: [PATCH 08/31] fix: reject malformed messages instead of crashing or
 losing blocks

---
 delivery/consumer.go | 29 +++++++++++++++++++++++++----
 delivery/errors.go   |  2 ++
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 3e2a6ee..f2c2813 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -113,6 +113,10 @@ func (pb *PendingBatch) ApplyMessage(m ResumptionMessage) bool {
       pb.pendingMessages[string(m.Key())] = m
       return false
     }
+    if idx < 0 || idx >= len(pb.batches[batchid]) {
+      log.Error("Index at end of key is out of range", "key", m.Key(), "idx", idx, "count", len(pb.batches[batchid]))
+      return true
+    }
     if pb.batches[batchid][idx] { return false } // Already have it, no updates
     update := &SubBatchRecord{}
     if err := avro.Unmarshal(updateSchema, m.Value(), &update); err != nil {
@@ -275,6 +279,19 @@ func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
 	delete(mp.pendingBatches, pb.Hash)
 }
 
+// validKey reports whether a key has all of the components its message type
+// calls for.
+func validKey(key []byte) bool {
+  if len(key) < 33 { return false }
+  switch MessageType(key[0]) {
+  case SubBatchHeaderType:
+    return len(key) >= 65
+  case SubBatchMsgType:
+    return len(key) > 65
+  }
+  return true
+}
+
 // ProcessMessage takes in messages and assembles completed blocks of messages.
 func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
   EVICTLOOP:
@@ -292,16 +309,17 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
     }
   }
   mp.updateResumption(m.Source(), m.Offset())
+  if !validKey(m.Key()) { return ErrMalformedKey }
   hash := types.BytesToHash(m.Key()[1:33])
   if MessageType(m.Key()[0]) == ReorgType {
+    var num int
+    if err := avro.Unmarshal(intSchema, m.Value(), &num); err != nil { return err }
     var err error
     mp.completed, err = lru.New(int(2 * mp.reorgThreshold))
     if err != nil {
       return err
     }
     mp.oldBlocks = make(map[types.Hash]struct{})
-    var num int
-    if err := avro.Unmarshal(intSchema, m.Value(), &num); err != nil { return err }
     mp.lastEmittedNum = int64(num)
     mp.reorgFeed.Send(map[int64]types.Hash{mp.lastEmittedNum: hash})
     return nil
@@ -371,7 +389,9 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
     if _, ok := mp.pendingMessages[hash]; ok {
       // We have some messages that arrived before the batch header. Process them now.
       for _, msg := range mp.pendingMessages[hash] {
-        if err := mp.ProcessMessage(msg); err != nil { return err }
+        if err := mp.ProcessMessage(msg); err != nil {
+          log.Error("Error processing message received ahead of its block", "err", err, "key", msg.Key())
+        }
       }
       delete (mp.pendingMessages, hash)
     }
@@ -385,9 +405,10 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
     }
     batchid := types.BytesToHash(m.Key()[33:])
     if _, ok := mp.pendingBatches[hash].pendingBatches[batchid]; !ok { return nil } // We've already gotten this batch
-    delete(mp.pendingBatches[hash].pendingBatches, batchid)
     var counter int
     if err := avro.Unmarshal(intSchema, m.Value(), &counter); err != nil { return err }
+    if counter < 0 { return ErrInvalidCounter }
+    delete(mp.pendingBatches[hash].pendingBatches, batchid)
     mp.pendingBatches[hash].batches[batchid] = make([]bool, counter)
     mp.pendingBatches[hash].updateResumption(m.Source(), m.Offset())
     for k, msg := range mp.pendingBatches[hash].pendingMessages {
diff --git a/delivery/errors.go b/delivery/errors.go
index 8aff2ca..78a8bfa 100644
--- a/delivery/errors.go
+++ b/delivery/errors.go
@@ -10,4 +10,6 @@ var (
   ErrUnknownBatch = fmt.Errorf("unknown batch")
   ErrInvalidBatch = fmt.Errorf("invalid batch")
   ErrPrefixConflict = fmt.Errorf("deletes, updates, and batches cannot have prefix conflicts")
+  ErrMalformedKey = fmt.Errorf("malformed message key")
+  ErrInvalidCounter = fmt.Errorf("invalid sub-batch counter")
 )
-- 
2.43.0


From 535c76f0131d25b3dfb194ed6a122c5c2d3868db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:43 +0000
Subject: [PATCH 09/31] fix: handle reorg markers in order with the blocks
 around them

---
 delivery/consumer.go     | 45 ++++++++++++++++++++++++++++++----------
 delivery/ordering.go     | 27 ++++++++++++------------
 transports/websockets.go |  4 +++-
 3 files changed, 51 insertions(+), 25 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index f2c2813..d6eca09 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -199,6 +199,7 @@ type MessageProcessor struct {
   completed       *lru.Cache
   feed            types.Feed
   reorgFeed       types.Feed
+  eventFeed       types.Feed
   waitFeed        types.Feed
   resumption      map[string]int64
   evictCh         chan int64
@@ -249,6 +250,36 @@ func (mp *MessageProcessor) SubscribeReorgs(ch chan <- map[int64]types.Hash) typ
   return mp.reorgFeed.Subscribe(ch)
 }
 
+// event is a completed batch or a reorg. A single feed carries both, so that
+// its subscribers handle them in the order they occurred.
+type event struct {
+  batch *PendingBatch
+  reorg bool
+  num   int64
+  hash  types.Hash
+}
+
+// emit sends a completed batch to subscribers.
+func (mp *MessageProcessor) emit(pb *PendingBatch) {
+  mp.feed.Send(pb)
+  mp.eventFeed.Send(event{batch: pb})
+}
+
+// ProcessReorg rewinds the message processor to a given block. Blocks that
+// were completed before the reorg may be delivered again.
+func (mp *MessageProcessor) ProcessReorg(num int64, hash types.Hash) error {
+  completed, err := lru.New(int(2 * mp.reorgThreshold))
+  if err != nil {
+    return err
+  }
+  mp.completed = completed
+  mp.oldBlocks = make(map[types.Hash]struct{})
+  mp.lastEmittedNum = num
+  mp.reorgFeed.Send(map[int64]types.Hash{num: hash})
+  mp.eventFeed.Send(event{reorg: true, num: num, hash: hash})
+  return nil
+}
+
 func (mp *MessageProcessor) evictOlderThan(n int64) {
   select {
   case mp.evictCh <- n:
@@ -273,7 +304,7 @@ func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
 			WaitCh: pb.waitCh,
 		})
 	}
-	mp.feed.Send(pb)
+	mp.emit(pb)
 	mp.lastEmittedNum = pb.Number
 	mp.completed.Add(pb.Hash, struct{}{})
 	delete(mp.pendingBatches, pb.Hash)
@@ -314,15 +345,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
   if MessageType(m.Key()[0]) == ReorgType {
     var num int
     if err := avro.Unmarshal(intSchema, m.Value(), &num); err != nil { return err }
-    var err error
-    mp.completed, err = lru.New(int(2 * mp.reorgThreshold))
-    if err != nil {
-      return err
-    }
-    mp.oldBlocks = make(map[types.Hash]struct{})
-    mp.lastEmittedNum = int64(num)
-    mp.reorgFeed.Send(map[int64]types.Hash{mp.lastEmittedNum: hash})
-    return nil
+    return mp.ProcessReorg(int64(num), hash)
   }
   if mp.completed.Contains(hash) { return nil }   // We've recently emitted this block
   if _, ok := mp.oldBlocks[hash]; ok { return nil } // This block is older than the reorg threshold, skip anything related to it.
@@ -424,7 +447,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
     mp.pendingBatches[hash].ApplyMessage(m)
   }
   if b, ok := mp.pendingBatches[hash] ; ok && b.Ready() {
-    mp.feed.Send(b)
+    mp.emit(b)
     mp.lastEmittedNum = b.Number
     mp.completed.Add(hash, struct{}{})
     delete(mp.pendingBatches, hash)
diff --git a/delivery/ordering.go b/delivery/ordering.go
index 39bcaf3..b8d132a 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -59,14 +59,17 @@ func NewOrderedMessageProcessor(cfg *ConsumerConfig) (*OrderedMessageProcessor,
     omp.evict(hash)
   })
   omp.finished.Add(cfg.LastHash, struct{}{})
-  ch := make(chan *PendingBatch, 100)
-  reorgCh := make(chan map[int64]types.Hash, 100)
-  sub := omp.mp.Subscribe(ch)
-  reorgSub := omp.mp.SubscribeReorgs(reorgCh)
+  ch := make(chan event, 100)
+  sub := omp.mp.eventFeed.Subscribe(ch)
   go func() {
     for {
       select {
-      case pb := <-ch:
+      case ev := <-ch:
+        if ev.reorg {
+          omp.HandleReorg(ev.num, ev.hash)
+          continue
+        }
+        pb := ev.batch
         lastBlock := cfg.LastEmittedNum
         if batch, ok := omp.pending[omp.lastHash]; ok {
           lastBlock = batch.Number
@@ -75,15 +78,8 @@ func NewOrderedMessageProcessor(cfg *ConsumerConfig) (*OrderedMessageProcessor,
         queuedGauge.Update(int64(len(omp.queued)))
         log.Debug("OMP Got Pending Batch", "blocknumber", pb.Number, "pending", len(omp.pending), "queued", len(omp.queued), "lastnum", lastBlock, "lasthash", omp.lastHash, "parent", pb.ParentHash, "hash", pb.Hash)
         omp.HandlePendingBatch(pb, false)
-      case reorg := <-reorgCh:
-        for num, hash := range reorg {
-          omp.HandleReorg(num, hash)
-          break // There should never be more than 1 kv pair in this map
-        }
       case err := <-sub.Err():
         log.Error("Subscription error", "err", err.Error())
-      case err := <-reorgSub.Err():
-        log.Error("Reorg subscription error", "err", err.Error())
       case <-time.After(250 * time.Millisecond):
         // If we've gone 250ms without any messages, see if there's a quit
         // message. This ensures we don't quit until we're done processing,
@@ -91,7 +87,6 @@ func NewOrderedMessageProcessor(cfg *ConsumerConfig) (*OrderedMessageProcessor,
         select {
         case <-omp.quit:
           sub.Unsubscribe()
-          reorgSub.Unsubscribe()
           return
         default:
         }
@@ -157,6 +152,12 @@ func (omp *OrderedMessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
 	omp.mp.ProcessCompleteBatch(pb)
 }
 
+// ProcessReorg rewinds the message processor to a given block, after the
+// messages and batches processed before it.
+func (omp *OrderedMessageProcessor) ProcessReorg(num int64, hash types.Hash) error {
+  return omp.mp.ProcessReorg(num, hash)
+}
+
 func (omp *OrderedMessageProcessor) SubscribeReorg(ch chan<- map[int64]types.Hash) types.Subscription {
   return omp.reorgFeed.Subscribe(ch)
 }
diff --git a/transports/websockets.go b/transports/websockets.go
index 5db3081..6a427fd 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -405,7 +405,9 @@ func (c *websocketConsumer) Start() error {
 						close(c.ready)
 					}
 				case "reorg":
-					c.omp.HandleReorg(int64(item.Batch.Number), item.Batch.Hash)
+					if err := c.omp.ProcessReorg(int64(item.Batch.Number), item.Batch.Hash); err != nil {
+						log.Error("Error processing reorg", "err", err)
+					}
 				case "batch":
 					pb := &delivery.PendingBatch{
 						Number: int64(item.Batch.Number),
-- 
2.43.0


From 4384917ee167e7922eb1fcf4a1a233331da435d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:56 +0000
Subject: [PATCH 10/31] fix: apply blocks that are delivered again after a
 rewind

---
 delivery/ordering.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index b8d132a..055238f 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -176,10 +176,11 @@ func (omp *OrderedMessageProcessor) HandlePendingBatch(pb *PendingBatch, reorg b
     return
   }
   omp.pending[pb.Hash] = pb
-  if omp.finished.Contains(pb.Hash) && !reorg {
+  if omp.finished.Contains(pb.Hash) && !reorg && pb.ParentHash != omp.lastHash {
     // We've already handled this block. Repeats should be rare, given how the
     // MessageProcessor works, but they could happen in edge cases, and we
-    // should ignore them.
+    // should ignore them. (Unless we've been rewound to the block's parent, in
+    // which case this is the next block again).
     return
   } else if pb.ParentHash == omp.lastHash {
     // Emit now
-- 
2.43.0


From 54db4424ae76fa603b834faec0f8b676d01617b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:25 +0000
Subject: [PATCH 11/31] fix: WhyNotReady names the sub-batch message a block is
 waiting for

---
 delivery/consumer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index d6eca09..4c30741 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -92,7 +92,7 @@ func (pb *PendingBatch) whyNotReady() string {
   }
   for batchid, batch := range pb.batches {
     for i, b := range batch {
-      if !b { fmt.Sprintf("Pending batch '%#x'[%v]", batchid, i) }
+      if !b { return fmt.Sprintf("Pending batch '%#x'[%v]", batchid, i) }
     }
   }
   return "ready"
-- 
2.43.0


From a449eb8f1cc6268ed44330b5da4400ed21477f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:25 +0000
Subject: [PATCH 12/31] fix: allow concurrent use of a message processor and
 its batches

Several consumers can share one processor, every subscriber gets the same
batches to call Done() on, and WhyNotReady is called from anywhere. Serialise
messages with a lock, guard state with another one that is not held while
sending to subscribers, and keep Done() from closing a channel twice or writing
to a shared slice.
---
 delivery/consumer.go | 54 +++++++++++++++++++++++++++++++++++++++-----
 delivery/ordering.go | 28 +++++++++++++++++++++--
 2 files changed, 74 insertions(+), 8 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 4c30741..72872ed 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -11,6 +11,7 @@ import (
   log "github.com/inconshreveable/log15"
   "regexp"
   "fmt"
+  "sync"
   "time"
 )
 
@@ -36,6 +37,7 @@ type PendingBatch struct {
   pendingBatches map[types.Hash]struct{}
   pendingMessages map[string]ResumptionMessage // Key -> Message
   waitCh chan struct{}
+  waitLock sync.Mutex // Every subscriber gets the same batch, and they may all call Done()
   time time.Time
   failedReconstructPanic bool
 }
@@ -73,9 +75,11 @@ func (pb *PendingBatch) Ready() bool {
 
 // Done should be called on a pending batch after it has been applied.
 func (pb *PendingBatch) Done() {
+  pb.waitLock.Lock()
   waitch := pb.waitCh
+  pb.waitCh = nil
+  pb.waitLock.Unlock()
   if waitch != nil {
-    pb.waitCh = nil
     close(waitch)
   }
   deltaTimerMinor.UpdateSince(pb.time)
@@ -190,6 +194,8 @@ type prefixBatch struct {
 // to ensure blocks are emitted in something resembling a sensible order and
 // that reorgs are handled.
 type MessageProcessor struct {
+  processLock     sync.Mutex // Held while handling a message, so that messages are handled one at a time
+  lock            sync.Mutex // Guards everything below, and is not held while sending to subscribers
   lastEmittedNum  int64
   reorgThreshold  int64
   pendingBatches  map[types.Hash]*PendingBatch
@@ -259,15 +265,34 @@ type event struct {
   hash  types.Hash
 }
 
-// emit sends a completed batch to subscribers.
+// emit sends a completed batch to subscribers. mp.lock must be held, and is
+// released while sending.
 func (mp *MessageProcessor) emit(pb *PendingBatch) {
+  mp.lock.Unlock()
+  defer mp.lock.Lock()
   mp.feed.Send(pb)
   mp.eventFeed.Send(event{batch: pb})
 }
 
+// announce tells waiters about a batch. mp.lock must be held, and is released
+// while sending.
+func (mp *MessageProcessor) announce(w *Waiter) {
+  mp.lock.Unlock()
+  defer mp.lock.Lock()
+  mp.waitFeed.Send(w)
+}
+
 // ProcessReorg rewinds the message processor to a given block. Blocks that
 // were completed before the reorg may be delivered again.
 func (mp *MessageProcessor) ProcessReorg(num int64, hash types.Hash) error {
+  mp.processLock.Lock()
+  defer mp.processLock.Unlock()
+  mp.lock.Lock()
+  defer mp.lock.Unlock()
+  return mp.processReorg(num, hash)
+}
+
+func (mp *MessageProcessor) processReorg(num int64, hash types.Hash) error {
   completed, err := lru.New(int(2 * mp.reorgThreshold))
   if err != nil {
     return err
@@ -275,6 +300,8 @@ func (mp *MessageProcessor) ProcessReorg(num int64, hash types.Hash) error {
   mp.completed = completed
   mp.oldBlocks = make(map[types.Hash]struct{})
   mp.lastEmittedNum = num
+  mp.lock.Unlock()
+  defer mp.lock.Lock()
   mp.reorgFeed.Send(map[int64]types.Hash{num: hash})
   mp.eventFeed.Send(event{reorg: true, num: num, hash: hash})
   return nil
@@ -288,6 +315,10 @@ func (mp *MessageProcessor) evictOlderThan(n int64) {
 }
 
 func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
+	mp.processLock.Lock()
+	defer mp.processLock.Unlock()
+	mp.lock.Lock()
+	defer mp.lock.Unlock()
 	if mp.completed.Contains(pb.Hash) { return } // We've recently emitted this block
 	if pending, ok := mp.pendingBatches[pb.Hash]; ok && pending.waitCh != nil {
 		// The block has already been announced by its header. Use the channel
@@ -297,7 +328,7 @@ func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
 		if pb.waitCh == nil {
 			pb.waitCh = make(chan struct{})
 		}
-		mp.waitFeed.Send(&Waiter{
+		mp.announce(&Waiter{
 			Hash: pb.Hash,
 			Parent: pb.ParentHash,
 			Number: pb.Number,
@@ -324,7 +355,16 @@ func validKey(key []byte) bool {
 }
 
 // ProcessMessage takes in messages and assembles completed blocks of messages.
+// It may be called from several goroutines.
 func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
+  mp.processLock.Lock()
+  defer mp.processLock.Unlock()
+  mp.lock.Lock()
+  defer mp.lock.Unlock()
+  return mp.processMessage(m)
+}
+
+func (mp *MessageProcessor) processMessage(m ResumptionMessage) error {
   EVICTLOOP:
   for {
     select {
@@ -345,7 +385,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
   if MessageType(m.Key()[0]) == ReorgType {
     var num int
     if err := avro.Unmarshal(intSchema, m.Value(), &num); err != nil { return err }
-    return mp.ProcessReorg(int64(num), hash)
+    return mp.processReorg(int64(num), hash)
   }
   if mp.completed.Contains(hash) { return nil }   // We've recently emitted this block
   if _, ok := mp.oldBlocks[hash]; ok { return nil } // This block is older than the reorg threshold, skip anything related to it.
@@ -363,7 +403,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
     //   return nil
     // }
     waitCh := make(chan struct{})
-    mp.waitFeed.Send(&Waiter{
+    mp.announce(&Waiter{
       Hash: b.Hash,
       Parent: b.ParentHash,
       Number: b.Number,
@@ -412,7 +452,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
     if _, ok := mp.pendingMessages[hash]; ok {
       // We have some messages that arrived before the batch header. Process them now.
       for _, msg := range mp.pendingMessages[hash] {
-        if err := mp.ProcessMessage(msg); err != nil {
+        if err := mp.processMessage(msg); err != nil {
           log.Error("Error processing message received ahead of its block", "err", err, "key", msg.Key())
         }
       }
@@ -462,6 +502,8 @@ func (mp *MessageProcessor) queueMessage(hash types.Hash, m ResumptionMessage) {
 }
 
 func (mp *MessageProcessor) WhyNotReady(hash types.Hash) string {
+  mp.lock.Lock()
+  defer mp.lock.Unlock()
   if pb, ok := mp.pendingBatches[hash]; ok {
     return pb.whyNotReady()
   } else {
diff --git a/delivery/ordering.go b/delivery/ordering.go
index 055238f..309baf3 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -7,6 +7,7 @@ import (
   "github.com/openrelayxyz/cardinal-types/metrics"
   "github.com/hashicorp/golang-lru"
   log "github.com/inconshreveable/log15"
+  "sync"
   "time"
 )
 
@@ -22,6 +23,8 @@ var (
 
 type OrderedMessageProcessor struct {
   mp *MessageProcessor
+  handleLock     sync.Mutex // Held while handling a batch or a reorg, so that they are handled one at a time
+  lock           sync.Mutex // Guards everything below, and is not held while sending to subscribers
   lastHash       types.Hash
   lastWeight     *big.Int
   reorgThreshold int64
@@ -70,6 +73,7 @@ func NewOrderedMessageProcessor(cfg *ConsumerConfig) (*OrderedMessageProcessor,
           continue
         }
         pb := ev.batch
+        omp.lock.Lock()
         lastBlock := cfg.LastEmittedNum
         if batch, ok := omp.pending[omp.lastHash]; ok {
           lastBlock = batch.Number
@@ -77,6 +81,7 @@ func NewOrderedMessageProcessor(cfg *ConsumerConfig) (*OrderedMessageProcessor,
         pendingGauge.Update(int64(len(omp.pending)))
         queuedGauge.Update(int64(len(omp.queued)))
         log.Debug("OMP Got Pending Batch", "blocknumber", pb.Number, "pending", len(omp.pending), "queued", len(omp.queued), "lastnum", lastBlock, "lasthash", omp.lastHash, "parent", pb.ParentHash, "hash", pb.Hash)
+        omp.lock.Unlock()
         omp.HandlePendingBatch(pb, false)
       case err := <-sub.Err():
         log.Error("Subscription error", "err", err.Error())
@@ -127,7 +132,10 @@ func (c *ChainUpdate) Removed() []*PendingBatch {
 }
 
 func (c *ChainUpdate) Done() {
-  for _, pb := range append(c.added, c.removed...) {
+  for _, pb := range c.added {
+    pb.Done()
+  }
+  for _, pb := range c.removed {
     pb.Done()
   }
 }
@@ -163,6 +171,14 @@ func (omp *OrderedMessageProcessor) SubscribeReorg(ch chan<- map[int64]types.Has
 }
 
 func (omp *OrderedMessageProcessor) HandlePendingBatch(pb *PendingBatch, reorg bool) {
+  omp.handleLock.Lock()
+  defer omp.handleLock.Unlock()
+  omp.lock.Lock()
+  defer omp.lock.Unlock()
+  omp.handlePendingBatch(pb, reorg)
+}
+
+func (omp *OrderedMessageProcessor) handlePendingBatch(pb *PendingBatch, reorg bool) {
   if h, ok := omp.whitelist[uint64(pb.Number)]; ok && h != pb.Hash {
     // If a block is excluded by the whitelist, add it to the blacklist
     omp.blacklist[pb.Hash] = struct{}{}
@@ -211,7 +227,7 @@ func (omp *OrderedMessageProcessor) HandlePendingBatch(pb *PendingBatch, reorg b
       // log.Debug("Weight does not justify reorg, but child is available", "child", child)
       // This block's child is already pending, process it instead
       if pb, ok := omp.pending[child]; ok {
-        omp.HandlePendingBatch(pb, true)
+        omp.handlePendingBatch(pb, true)
       }
       // The block connects everything queued on top of it, not just the
       // heaviest chain, so later blocks can build on any of it.
@@ -244,7 +260,11 @@ func (omp *OrderedMessageProcessor) queue(pb *PendingBatch) {
 }
 
 func (omp *OrderedMessageProcessor) HandleReorg(num int64, hash types.Hash) {
+  omp.handleLock.Lock()
+  defer omp.handleLock.Unlock()
+  omp.lock.Lock()
   omp.lastHash = hash
+  omp.lock.Unlock()
   // omp.lastNumber = num
   omp.reorgFeed.Send(map[int64]types.Hash{num: hash})
 }
@@ -277,6 +297,8 @@ func (omp *OrderedMessageProcessor) prepareEmit(new, old []*PendingBatch) {
     reorgAddMeter.Mark(int64(len(new)))
     reorgExecMeter.Mark(1)
   }
+  omp.lock.Unlock()
+  defer omp.lock.Lock()
   omp.updateFeed.Send(&ChainUpdate{added: new, removed: old})
 }
 
@@ -396,6 +418,8 @@ func (omp *OrderedMessageProcessor) Close() {
 
 
 func (omp *OrderedMessageProcessor) WhyNotReady(hash types.Hash) string {
+  omp.lock.Lock()
+  defer omp.lock.Unlock()
   if omp.finished.Contains(hash) { return "done, not evicted" }
   if _, ok := omp.pending[hash]; ok { return "pending parent" }
   return omp.mp.WhyNotReady(hash)
-- 
2.43.0


From 9ffa6b8ea77fc50dff60e88d73436c0bce4fe4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:47 +0000
Subject: [PATCH 13/31] fix: synchronise heartbeats and producer health

Heartbeats were recorded in a map by one goroutine while ProducerCount read it
from another, and the health flag was read by the heartbeat loop unsynchronised.
The goroutine recording a consumer's heartbeats also outlived the consumer.
---
 transports/kafka.go | 52 +++++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 3c3272b..881a02d 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -11,6 +11,7 @@ import (
 	"strconv"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/Shopify/sarama"
@@ -28,15 +29,26 @@ var (
   producerCount = metrics.NewMajorGauge("/streams/producers")
 )
 
-type pingTracker map[types.Hash]time.Time
+type pingTracker struct {
+  lock  sync.Mutex
+  pings map[types.Hash]time.Time
+}
+
+func newPingTracker() *pingTracker {
+  return &pingTracker{pings: make(map[types.Hash]time.Time)}
+}
 
-func (pt pingTracker) update(key types.Hash) {
-  pt[key] = time.Now()
+func (pt *pingTracker) update(key types.Hash) {
+  pt.lock.Lock()
+  defer pt.lock.Unlock()
+  pt.pings[key] = time.Now()
 }
 
-func (pt pingTracker) ProducerCount(d time.Duration) uint {
+func (pt *pingTracker) ProducerCount(d time.Duration) uint {
+  pt.lock.Lock()
+  defer pt.lock.Unlock()
   var count uint
-  for _, v := range pt {
+  for _, v := range pt.pings {
     if time.Since(v) < d {
       count++
     }
@@ -221,8 +233,8 @@ type KafkaProducer struct{
   brokerURL    string
   recentHashes *lru.Cache
   skipBatches  *lru.Cache
-  pt           pingTracker
-  healthy      bool
+  pt           *pingTracker
+  unhealthy    int32 // atomic
 }
 
 func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string) (Producer, error) {
@@ -245,7 +257,7 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
   if err != nil {
     return nil, err
   }
-  pt := make(pingTracker)
+  pt := newPingTracker()
   client, err := sarama.NewClient(brokers, config)
   if err != nil { return nil, err }
   consumer, err := sarama.NewConsumerFromClient(client)
@@ -300,14 +312,14 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
   }
   cache, _ := lru.New(4096)
   skipBatches, _ := lru.New(1024)
-  kp := &KafkaProducer{dp: dp, producer: producer, reorgTopic: "", defaultTopic: defaultTopic, brokerURL: brokerURL, recentHashes: cache, skipBatches: skipBatches, pt: pt, healthy: true}
+  kp := &KafkaProducer{dp: dp, producer: producer, reorgTopic: "", defaultTopic: defaultTopic, brokerURL: brokerURL, recentHashes: cache, skipBatches: skipBatches, pt: pt}
   go func() {
     ticker := time.NewTicker(30 * time.Second)
     for {
       select {
       case t := <-ticker.C:
         b, _ := t.MarshalBinary()
-        if kp.healthy {
+        if atomic.LoadInt32(&kp.unhealthy) == 0 {
             producer.Input() <- &sarama.ProducerMessage{Topic: defaultTopic, Key: sarama.ByteEncoder(delivery.PingType.GetKey(idBytes[:])), Value: sarama.ByteEncoder(b)}
         }
       case h := <-hashCh:
@@ -326,7 +338,9 @@ func (kp *KafkaProducer) ProducerCount(d time.Duration) uint {
 }
 
 func (kp *KafkaProducer) SetHealth(b bool) {
-  kp.healthy = b
+  var unhealthy int32
+  if !b { unhealthy = 1 }
+  atomic.StoreInt32(&kp.unhealthy, unhealthy)
 }
 
 func (kp *KafkaProducer) emitBundle(bundle map[string][]delivery.Message) error {
@@ -469,7 +483,7 @@ type KafkaConsumer struct{
   shutdownWg   sync.WaitGroup
   isReorg      bool
   startHash    types.Hash
-  pt           pingTracker
+  pt           *pingTracker
   waiter       waiter.Waiter
 }
 
@@ -499,7 +513,7 @@ func kafkaConsumerWithOMP(omp *delivery.OrderedMessageProcessor, brokerURL, defa
     client: client,
     rollback: rollback,
     startHash: lastHash,
-    pt: make(pingTracker),
+    pt: newPingTracker(),
   }, nil
 }
 
@@ -543,7 +557,6 @@ func (kc *KafkaConsumer) Start() error {
   var readyWg, warmupWg, reorgWg sync.WaitGroup
   messages := make(chan *sarama.ConsumerMessage, 512) // 512 is arbitrary. Worked for Flume, but may require tuning for Cardinal
   partitionConsumers := []sarama.PartitionConsumer{}
-  heartbeats := make(chan types.Hash)
   for _, topic := range kc.topics {
     partitions, err := consumer.Partitions(topic)
     if err != nil { return err }
@@ -674,6 +687,7 @@ func (kc *KafkaConsumer) Start() error {
               resumption: make(map[string]int64),
               client: kc.client,
               isReorg: true,
+              pt: kc.pt,
             }
             rekc.Start()
             <-rekc.Ready()
@@ -685,7 +699,7 @@ func (kc *KafkaConsumer) Start() error {
             }
           }
         case delivery.PingType:
-          heartbeats <- types.BytesToHash(msg.Key()[1:])
+          kc.pt.update(types.BytesToHash(msg.Key()[1:]))
         case delivery.ReorgCompleteType:
           reorgWg.Done()
         default:
@@ -727,14 +741,6 @@ func (kc *KafkaConsumer) Start() error {
       }
     }
   }()
-  go func() {
-    for {
-      select {
-      case h := <-heartbeats:
-        kc.pt.update(h)
-      }
-    }
-  }()
   return nil
 }
 func (kc *KafkaConsumer) ProducerCount(d time.Duration) uint {
-- 
2.43.0


From 9f745aed125a4474de095b93510582c1e3db2c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:20 +0000
Subject: [PATCH 14/31] fix: start, get ready and close Kafka consumers
 reliably

- A partition with nothing to read kept every other partition waiting in the
  warm up, and the consumer from ever becoming ready.
- The ready channel was read, replaced and signalled by several goroutines
  without synchronisation, the signal was sent once and never if nobody was
  waiting when it was sent.
- A reorg complete message outside of a reorg crashed the consumer.
- drumline reads its maps without synchronisation while partitions get added
  and removed, which can crash the process.
- Close hung before Start, during warm up, while partitions waited for each
  other, or when messages were not being handled, and the second time. It left
  the main loop, or its clients' connections, behind.
---
 transports/kafka.go | 267 +++++++++++++++++++++++++-------------------
 transports/pacer.go | 104 +++++++++++++++++
 2 files changed, 259 insertions(+), 112 deletions(-)
 create mode 100644 transports/pacer.go

diff --git a/transports/kafka.go b/transports/kafka.go
index 881a02d..09a012b 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -21,7 +21,6 @@ import (
 	"github.com/openrelayxyz/cardinal-streams/v2/waiter"
 	types "github.com/openrelayxyz/cardinal-types"
 	"github.com/openrelayxyz/cardinal-types/metrics"
-	"github.com/openrelayxyz/drumline"
 )
 
 var (
@@ -481,10 +480,12 @@ type KafkaConsumer struct{
   client       sarama.Client
   rollback     int64
   shutdownWg   sync.WaitGroup
+  closeOnce    sync.Once
   isReorg      bool
   startHash    types.Hash
   pt           *pingTracker
   waiter       waiter.Waiter
+  waiterOnce   sync.Once
 }
 
 func kafkaConsumerWithOMP(omp *delivery.OrderedMessageProcessor, brokerURL, defaultTopic string, topics []string, resumption []byte, rollback int64, lastHash types.Hash) (Consumer, error) {
@@ -551,18 +552,23 @@ func NewKafkaConsumer(brokerURL, defaultTopic string, topics []string, resumptio
 
 func (kc *KafkaConsumer) Start() error {
   log.Debug("Starting kafka consumer")
-  dl := drumline.NewDrumline(256)
+  pace := newPacer(256)
   consumer, err := sarama.NewConsumerFromClient(kc.client)
   if err != nil { return err }
-  var readyWg, warmupWg, reorgWg sync.WaitGroup
   messages := make(chan *sarama.ConsumerMessage, 512) // 512 is arbitrary. Worked for Flume, but may require tuning for Cardinal
-  partitionConsumers := []sarama.PartitionConsumer{}
+  partitionConsumers := []*kafkaPartition{}
+  // warm and caughtUp get closed once every partition that has messages
+  // waiting for us when we start has produced its first message, or passed on
+  // its last one.
+  warm, caughtUp := make(chan struct{}), make(chan struct{})
+  var warming, behind int32
   for _, topic := range kc.topics {
     partitions, err := consumer.Partitions(topic)
-    if err != nil { return err }
+    if err != nil {
+      closePartitions(partitionConsumers)
+      return err
+    }
     for _, partid := range partitions {
-      readyWg.Add(1)
-      warmupWg.Add(1)
       k := fmt.Sprintf("%v:%v", topic, partid)
       offset, ok := kc.resumption[k]
       var startOffset int64
@@ -584,89 +590,105 @@ func (kc *KafkaConsumer) Start() error {
       } else {
         startOffset = offset - kc.rollback
       }
+      waiting := true
+      if oldest, newest, err := kc.available(topic, partid); err == nil {
+        if startOffset >= 0 && startOffset < oldest && oldest <= offset {
+          // We can't go back as far as we wanted to, but as far as we can.
+          startOffset = oldest
+        }
+        // If there are no messages for us yet, don't wait for them
+        waiting = oldest < newest && startOffset < newest && startOffset != sarama.OffsetNewest
+      }
       pc, err := consumer.ConsumePartition(topic, partid, startOffset)
       if err != nil {
         pc, err = consumer.ConsumePartition(topic, partid, offset)
-        if err != nil { return err }
+        if err != nil {
+          closePartitions(partitionConsumers)
+          return err
+        }
+        waiting = waiting && offset == sarama.OffsetOldest
         startOffset = offset
       }
       log.Info("Starting partition consumer", "topic", topic, "partition", partid, "offset", offset, "startOffset", startOffset)
-      go func(pc sarama.PartitionConsumer, startOffset int64, partid int32, i int, topic string) {
-        kc.shutdownWg.Add(1)
-        defer kc.shutdownWg.Done()
-        dl.AddScale(i, startOffset)
-        var once sync.Once
-        warm := false
-        meter := metrics.NewMinorMeter(fmt.Sprintf("streams/kafka/%v/%v/meter", topic, partid))
-        lagGauge := metrics.NewMinorGauge(fmt.Sprintf("streams/kafka/%v/%v/lag", topic, partid))
-        for input := range pc.Messages() {
-          meter.Mark(1)
-          lagGauge.Update(pc.HighWaterMarkOffset() - input.Offset)
-          if !warm && input.Offset >= startOffset {
-            // Once we're caught up with the startup offsets, wait until the
-            // other partition consumers are too before continuing.
-            warmupWg.Done()
-            warmupWg.Wait()
-            warm = true
-          }
-          if kc.ready != nil {
-            if !kc.isReorg {
-              dl.Step(i)
-            }
-            if pc.HighWaterMarkOffset() - input.Offset <= 1 {
-              // Once we're caught up with the high watermark, let the ready
-              // channel know
-              once.Do(func() {
-                log.Debug("Partition ready", "topic", input.Topic, "partition", input.Partition)
-                dl.Done(i)
-                readyWg.Done()
-              })
-            }
+      partitionConsumers = append(partitionConsumers, &kafkaPartition{PartitionConsumer: pc, topic: topic, partid: partid, waiting: waiting})
+      if waiting {
+        warming++
+        behind++
+        if !kc.isReorg { pace.add(len(partitionConsumers) - 1, startOffset) }
+      }
+    }
+  }
+  if behind == 0 {
+    close(warm)
+    close(caughtUp)
+  }
+  for i, pc := range partitionConsumers {
+    kc.shutdownWg.Add(1)
+    go func(i int, pc *kafkaPartition) {
+      defer kc.shutdownWg.Done()
+      defer pc.Close()
+      defer pace.done(i)
+      isWarm, isCaughtUp := false, !pc.waiting
+      meter := metrics.NewMinorMeter(fmt.Sprintf("streams/kafka/%v/%v/meter", pc.topic, pc.partid))
+      lagGauge := metrics.NewMinorGauge(fmt.Sprintf("streams/kafka/%v/%v/lag", pc.topic, pc.partid))
+      for {
+        var input *sarama.ConsumerMessage
+        var ok bool
+        select {
+        case input, ok = <-pc.Messages():
+          if !ok { return }
+        case <-kc.quit:
+          return
+        }
+        meter.Mark(1)
+        lag := pc.HighWaterMarkOffset() - input.Offset
+        lagGauge.Update(lag)
+        if !isWarm {
+          // Once we're caught up with the startup offsets, wait until the
+          // other partition consumers are too before continuing.
+          if pc.waiting && atomic.AddInt32(&warming, -1) == 0 { close(warm) }
+          select {
+          case <-warm:
+          case <-kc.quit:
+            return
           }
-          messages <- input
+          isWarm = true
         }
-      }(pc, startOffset, partid, len(partitionConsumers), topic)
-      partitionConsumers = append(partitionConsumers, pc)
-    }
+        if !isCaughtUp {
+          pace.step(i, kc.quit)
+        }
+        select {
+        case messages <- input:
+        case <-kc.quit:
+          return
+        }
+        if !isCaughtUp && lag <= 1 {
+          // Once we're caught up with the high watermark, let the main loop
+          // know
+          log.Debug("Partition ready", "topic", input.Topic, "partition", input.Partition)
+          isCaughtUp = true
+          pace.done(i)
+          if atomic.AddInt32(&behind, -1) == 0 { close(caughtUp) }
+        }
+      }
+    }(i, pc)
   }
-  var readych chan time.Time
-  readyWaiter := func() <-chan time.Time  {
-    // If readych isn't ready to receive, use it as the sender, eliminating any
-    // possibility that this case will trigger, and avoiding the creation of
-    // any timer objects that will have to get cleaned up when we don't need
-    // them.
-    if readych == nil { return readych }
-    // Only if the readych is ready to receive should this return a timer, as
-    // the timer will have to be created, run its course, and get cleaned up,
-    // which adds overhead
-    return time.After(time.Second)
-  }
-  go func(wg, reorgWg *sync.WaitGroup) {
-    // Wait until all partition consumers are up to the high water mark and alert the ready channel
-    wg.Wait()
-    log.Debug("Partitions ready")
-    readych = make(chan time.Time)
-    <-readych
-    log.Debug("Ready")
-    readych = nil
-    reorgWg.Wait()
-    log.Debug("Reorg waiter ready")
-    kc.ready <- struct{}{}
-    log.Debug("Ready sent")
-    kc.ready = nil
-    dl.Close()
-    delivery.Ready()
-  }(&readyWg, &reorgWg)
   go func() {
     hbGauge := metrics.NewMajorGauge("streams/kafka/heartbeat")
     hbGauge.Update(1)
     hbTicker := time.NewTicker(time.Minute)
+    defer hbTicker.Stop()
+    isReady, isIdle := false, false
+    reorgs := 0
     for {
+      var quiet <-chan time.Time
+      if caughtUp != nil {
+        quiet = time.After(5 * time.Second)
+      } else if !isIdle {
+        quiet = time.After(time.Second)
+      }
       select {
-      case input, ok := <-messages:
-        if !ok {
-          return
-        }
+      case input := <-messages:
         msg := &KafkaResumptionMessage{input}
         if len(msg.Key()) == 0 {
           // Update the heartbeat gauge to 1 (received heartbeat) and reset the
@@ -693,7 +715,7 @@ func (kc *KafkaConsumer) Start() error {
             <-rekc.Ready()
             rekc.Close()
           } else {
-            reorgWg.Add(1)
+            reorgs++
             if err := kc.omp.ProcessMessage(msg); err != nil {
               log.Error("Error processing input:", "err", err, "key", input.Key, "msg", input.Value, "part", input.Partition, "offset", input.Offset)
             }
@@ -701,57 +723,78 @@ func (kc *KafkaConsumer) Start() error {
         case delivery.PingType:
           kc.pt.update(types.BytesToHash(msg.Key()[1:]))
         case delivery.ReorgCompleteType:
-          reorgWg.Done()
+          if reorgs > 0 { reorgs-- }
         default:
           if err := kc.omp.ProcessMessage(msg); err != nil {
             log.Error("Error processing input:", "err", err, "key", input.Key, "msg", input.Value, "part", input.Partition, "offset", input.Offset)
           }
         }
-      case <-dl.Reset(5000 * time.Millisecond):
-        // Reset the drumline if we got no messages at all in a 5 second
-        // period. This will be a no-op if the drumline is closed. Resetting if
-        // we don't get any messages for five second should be safe, as the
-        // purpose of the drumline here is to ensure no single partition gets
-        // too far ahead of the others; if there are no messages being produced
-        // by any of them, either there are no messages at all, or there are no
-        // messages because the drumline has gotten streteched too far apart in
-        // the course of normal operation, and it should be reset.
-        log.Debug("Drumline reset")
-      case v := <- readyWaiter():
-        // readyWaiter() will wait 1 second if readych is ready to receive ,
-        // which will trigger a message to get sent on kc.ready. This
-        // should only trigger when we are totally caught up processing all the
-        // messages currently available from Kafka. Before we reach the high
-        // watermark and after this has triggered once, readyWaiter() will be a
-        // nil channel with no significant resource consumption.
-        select {
-        case readych <- v:
-        default:
+      case <-caughtUp:
+        // All partition consumers are up to the high water mark
+        log.Debug("Partitions ready")
+        caughtUp = nil
+      case <-quiet:
+        if caughtUp != nil {
+          // Reset the pacer if we got no messages at all in a 5 second period.
+          // Resetting if we don't get any messages for five second should be
+          // safe, as the purpose of the pacer here is to ensure no single
+          // partition gets too far ahead of the others; if there are no
+          // messages being produced by any of them, either there are no
+          // messages at all, or there are no messages because the partitions
+          // have gotten too far apart in the course of normal operation, and
+          // it should be reset.
+          log.Debug("Pacer reset")
+          pace.reset()
+        } else {
+          // Everything available from Kafka when we caught up has been
+          // processed, and nothing arrived for a second.
+          isIdle = true
         }
       case <-kc.quit:
-        go func() {
-          for _, c := range partitionConsumers {
-            c.Close()
-          }
-          kc.shutdownWg.Wait()
-          close(messages)
-        }()
+        return
       case <-hbTicker.C:
         hbGauge.Update(0)
       }
+      if isIdle && reorgs == 0 && !isReady {
+        isReady = true
+        log.Debug("Ready")
+        close(kc.ready)
+        delivery.Ready()
+      }
     }
   }()
   return nil
 }
+
+// kafkaPartition is the consumer of a partition, and whether there were
+// messages waiting for it when it started.
+type kafkaPartition struct {
+  sarama.PartitionConsumer
+  topic   string
+  partid  int32
+  waiting bool
+}
+
+func closePartitions(pcs []*kafkaPartition) {
+  for _, pc := range pcs {
+    pc.Close()
+  }
+}
+
+// available provides the range of offsets currently available on a partition.
+func (kc *KafkaConsumer) available(topic string, partid int32) (int64, int64, error) {
+  oldest, err := kc.client.GetOffset(topic, partid, sarama.OffsetOldest)
+  if err != nil { return 0, 0, err }
+  newest, err := kc.client.GetOffset(topic, partid, sarama.OffsetNewest)
+  return oldest, newest, err
+}
+
 func (kc *KafkaConsumer) ProducerCount(d time.Duration) uint {
   return kc.pt.ProducerCount(d)
 }
 
 func (kc *KafkaConsumer) Ready() <-chan struct{} {
-  if kc.ready != nil { return kc.ready }
-  r := make(chan struct{}, 1)
-  r <- struct{}{}
-  return r
+  return kc.ready
 }
 func (kc *KafkaConsumer) Subscribe(ch interface{}) types.Subscription {
   return kc.omp.Subscribe(ch)
@@ -760,16 +803,16 @@ func (kc *KafkaConsumer) SubscribeReorg(ch chan<- map[int64]types.Hash) types.Su
   return kc.omp.SubscribeReorg(ch)
 }
 func (kc *KafkaConsumer) Close() {
-  kc.quit <- struct{}{}
+  kc.closeOnce.Do(func() { close(kc.quit) })
   kc.shutdownWg.Wait()
+  // Consumers of reorg topics share the client of the consumer they belong to
+  if !kc.isReorg { kc.client.Close() }
 }
 func (kc *KafkaConsumer) WhyNotReady(hash types.Hash) string {
   return kc.omp.WhyNotReady(hash)
 }
 
 func (kc *KafkaConsumer) Waiter() waiter.Waiter {
-  if kc.waiter == nil {
-    kc.waiter = waiter.NewOmpWaiter(kc.omp)
-  }
+  kc.waiterOnce.Do(func() { kc.waiter = waiter.NewOmpWaiter(kc.omp) })
   return kc.waiter
 }
\ No newline at end of file
diff --git a/transports/pacer.go b/transports/pacer.go
new file mode 100644
index 0000000..7688848
--- /dev/null
+++ b/transports/pacer.go
@@ -0,0 +1,104 @@
+package transports
+
+import (
+  "sync"
+)
+
+// pacer keeps the consumers of partitions in step while they catch up, so that
+// none of them gets too far ahead of the others. Progress is scaled, on the
+// assumption that partitions with higher offsets move faster.
+type pacer struct {
+  lock    sync.Mutex
+  buffer  int64 // How many steps a partition can be ahead of the slowest one
+  tracks  map[int]*pacerTrack
+  waiting int
+  changed chan struct{} // Closed when waiting partitions should try again
+}
+
+type pacerTrack struct {
+  scale    int64
+  messages int64
+  steps    int64
+}
+
+func newPacer(buffer int64) *pacer {
+  return &pacer{buffer: buffer, tracks: make(map[int]*pacerTrack), changed: make(chan struct{})}
+}
+
+// add starts tracking a partition.
+func (p *pacer) add(i int, scale int64) {
+  if scale < 1 { scale = 1 }
+  p.lock.Lock()
+  defer p.lock.Unlock()
+  p.tracks[i] = &pacerTrack{scale: scale}
+}
+
+// step indicates progress on a partition, and blocks while it is too far ahead
+// of the others, unless quit is closed.
+func (p *pacer) step(i int, quit <-chan struct{}) {
+  p.lock.Lock()
+  track, ok := p.tracks[i]
+  if !ok {
+    p.lock.Unlock()
+    return
+  }
+  minScale := track.scale
+  for _, t := range p.tracks {
+    if t.scale < minScale { minScale = t.scale }
+  }
+  track.messages++
+  if track.messages >= track.scale / minScale {
+    track.messages = 0
+    track.steps++
+    p.notify()
+  }
+  for track.steps > p.slowest() + p.buffer {
+    changed := p.changed
+    p.waiting++
+    p.lock.Unlock()
+    var quitting bool
+    select {
+    case <-changed:
+    case <-quit:
+      quitting = true
+    }
+    p.lock.Lock()
+    p.waiting--
+    if quitting { break }
+  }
+  p.lock.Unlock()
+}
+
+// done stops tracking a partition, so others won't wait for it.
+func (p *pacer) done(i int) {
+  p.lock.Lock()
+  defer p.lock.Unlock()
+  delete(p.tracks, i)
+  p.notify()
+}
+
+// reset lets all partitions start over from the same step.
+func (p *pacer) reset() {
+  p.lock.Lock()
+  defer p.lock.Unlock()
+  for _, t := range p.tracks {
+    t.messages, t.steps = 0, 0
+  }
+  p.notify()
+}
+
+func (p *pacer) slowest() int64 {
+  first, slowest := true, int64(0)
+  for _, t := range p.tracks {
+    if first || t.steps < slowest {
+      first, slowest = false, t.steps
+    }
+  }
+  return slowest
+}
+
+func (p *pacer) notify() {
+  if p.waiting == 0 { return }
+  close(p.changed)
+  p.changed = make(chan struct{})
+}
-- 
2.43.0


From a1a3fa094246e18fb1efab8c4f5c723f83d776fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:20 +0000
Subject: [PATCH 15/31] fix: read reorg topics from the start

The consumer of a reorg topic started at the last message, missing the reorg if
the topic had already been written, and hung if the topic did not exist.
---
 transports/kafka.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 09a012b..d319996 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -708,11 +708,18 @@ func (kc *KafkaConsumer) Start() error {
               topics: []string{fmt.Sprintf("%s-re-%x",  kc.defaultTopic, msg.Key()[1:])},
               resumption: make(map[string]int64),
               client: kc.client,
+              rollback: -1, // Reorg topics are read from the start
               isReorg: true,
               pt: kc.pt,
             }
-            rekc.Start()
-            <-rekc.Ready()
+            if err := rekc.Start(); err != nil {
+              log.Error("Error consuming reorg", "err", err, "topics", rekc.topics)
+              continue
+            }
+            select {
+            case <-rekc.Ready():
+            case <-kc.quit:
+            }
             rekc.Close()
           } else {
             reorgs++
-- 
2.43.0


From e267b84f059acbf13e906ab0400f629c4b54f956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:20 +0000
Subject: [PATCH 16/31] fix: don't skip messages when resuming with a negative
 rollback

A negative rollback means that consumers without a starting point start with the
oldest messages. Resuming from a token it moved the starting point forward.
---
 transports/kafka.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index d319996..b05168c 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -588,7 +588,8 @@ func (kc *KafkaConsumer) Start() error {
           startOffset = offset
         }
       } else {
-        startOffset = offset - kc.rollback
+        startOffset = offset
+        if kc.rollback > 0 { startOffset -= kc.rollback }
       }
       waiting := true
       if oldest, newest, err := kc.available(topic, partid); err == nil {
-- 
2.43.0


From 0aafcd859981f075f7138efc577970985b16aecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:21 +0000
Subject: [PATCH 17/31] fix: start Kafka producers on topics whose messages
 expired

A producer waited for a message from partitions that have had messages but don't
have any now. A batch message with a short key crashed it.
---
 transports/kafka.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index b05168c..dc074e7 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -274,8 +274,8 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
       if err != nil {
         offset = sarama.OffsetNewest
         once.Do(readyWg.Done)
-      } else if offset == 0 {
-        offset = sarama.OffsetNewest
+      } else if oldest, err := client.GetOffset(defaultTopic, partid, sarama.OffsetOldest); err != nil || oldest >= offset {
+        // There are no messages to wait for
         once.Do(readyWg.Done)
       }
       offset -= 100
@@ -299,6 +299,7 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
           if len(input.Key) == 0 { continue PARTITION_LOOP }
           switch delivery.MessageType(input.Key[0]) {
           case delivery.BatchType:
+            if len(input.Key) < 33 { continue PARTITION_LOOP }
             hashCh <- types.BytesToHash(input.Key[1:33])
           case delivery.PingType:
             if !bytes.Equal(input.Key[1:], idBytes[:]) { // Ignore our own heartbeats
-- 
2.43.0


From 0877d872baf4d124bb4c17880f6f24f3a59620d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:55 +0000
Subject: [PATCH 18/31] fix: know the blocks on the feed when a Kafka producer
 starts

The producer counted as started as soon as the last message of each partition
was read, before the block it announced was remembered, and handing blocks and
heartbeats to the heartbeat loop stalled whenever that loop waited to send.
---
 transports/kafka.go | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index dc074e7..7bf912e 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -263,8 +263,7 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
   if err != nil { return nil, err }
   partitions, err := consumer.Partitions(defaultTopic)
   if err != nil { return nil, err }
-  hashCh := make(chan types.Hash)
-  heartbeats := make(chan types.Hash)
+  cache, _ := lru.New(4096)
   var readyWg sync.WaitGroup
   for _, partid := range partitions {
     readyWg.Add(1)
@@ -293,24 +292,23 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
         select {
         case input := <-pc.Messages():
           if input == nil { break PARTITION_LOOP }
+          if len(input.Key) > 0 {
+            switch delivery.MessageType(input.Key[0]) {
+            case delivery.BatchType:
+              if len(input.Key) >= 33 { cache.Add(types.BytesToHash(input.Key[1:33]), struct{}{}) }
+            case delivery.PingType:
+              if !bytes.Equal(input.Key[1:], idBytes[:]) { // Ignore our own heartbeats
+                pt.update(types.BytesToHash(input.Key[1:]))
+              }
+            }
+          }
           if hwm := pc.HighWaterMarkOffset(); hwm - input.Offset <= 1 {
             once.Do(readyWg.Done)
           }
-          if len(input.Key) == 0 { continue PARTITION_LOOP }
-          switch delivery.MessageType(input.Key[0]) {
-          case delivery.BatchType:
-            if len(input.Key) < 33 { continue PARTITION_LOOP }
-            hashCh <- types.BytesToHash(input.Key[1:33])
-          case delivery.PingType:
-            if !bytes.Equal(input.Key[1:], idBytes[:]) { // Ignore our own heartbeats
-              heartbeats <- types.BytesToHash(input.Key[1:])
-            }
-          }
         }
       }
     }(partid, &readyWg)
   }
-  cache, _ := lru.New(4096)
   skipBatches, _ := lru.New(1024)
   kp := &KafkaProducer{dp: dp, producer: producer, reorgTopic: "", defaultTopic: defaultTopic, brokerURL: brokerURL, recentHashes: cache, skipBatches: skipBatches, pt: pt}
   go func() {
@@ -322,10 +320,6 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
         if atomic.LoadInt32(&kp.unhealthy) == 0 {
             producer.Input() <- &sarama.ProducerMessage{Topic: defaultTopic, Key: sarama.ByteEncoder(delivery.PingType.GetKey(idBytes[:])), Value: sarama.ByteEncoder(b)}
         }
-      case h := <-hashCh:
-        cache.Add(h, struct{}{})
-      case h := <-heartbeats:
-        kp.pt.update(h)
       }
     }
   }()
-- 
2.43.0


From 21ec2ec522dd90e219e9331c6f2f4f06ca478547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:56 +0000
Subject: [PATCH 19/31] fix: LatestBlockFromFeed closes its connections

---
 transports/kafka.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transports/kafka.go b/transports/kafka.go
index 7bf912e..6e76b37 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -414,6 +414,7 @@ func (kp *KafkaProducer) LatestBlockFromFeed() (int64, error) {
   brokerList, config := ParseKafkaURL(kp.brokerURL)
   client, err := sarama.NewClient(brokerList, config)
   if err != nil { return 0, err }
+  defer client.Close()
   consumer, err := sarama.NewConsumerFromClient(client)
   if err != nil { return 0, err }
   partitions, err := consumer.Partitions(kp.defaultTopic)
@@ -433,6 +434,7 @@ func (kp *KafkaProducer) LatestBlockFromFeed() (int64, error) {
       pc, err = consumer.ConsumePartition(kp.defaultTopic, partid, sarama.OffsetOldest)
       if err != nil { return 0, err }
     }
+    defer pc.AsyncClose()
     PARTITION_LOOP:
     for {
       select {
-- 
2.43.0


From 237bfa8cddd2bd6b8563065c5e08bde050297856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:51 +0000
Subject: [PATCH 20/31] fix: accept cardinal:// Kafka URLs for consumers

---
 transports/resolver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transports/resolver.go b/transports/resolver.go
index ff309d2..0312632 100644
--- a/transports/resolver.go
+++ b/transports/resolver.go
@@ -58,7 +58,7 @@ func ResolveConsumer(brokerURL, defaultTopic string, topics []string, resumption
 func resolveConsumer(omp *delivery.OrderedMessageProcessor, brokerURL, defaultTopic string, topics []string, resumption []byte, rollback, lastNumber int64, lastHash types.Hash, trackedPrefixes []*regexp.Regexp) (Consumer, error) {
   switch protocol := strings.Split(strings.TrimPrefix(brokerURL, "cardinal://"), "://"); protocol[0] {
   case "kafka":
-    return kafkaConsumerWithOMP(omp, brokerURL, defaultTopic, topics, resumption, rollback, lastHash)
+    return kafkaConsumerWithOMP(omp, strings.TrimPrefix(brokerURL, "cardinal://"), defaultTopic, topics, resumption, rollback, lastHash)
   case "ws", "wss":
     prefixes := make([]string, len(trackedPrefixes))
     for i, p := range trackedPrefixes {
@@ -77,7 +77,7 @@ func ResumptionForTimestamp(brokerParams []BrokerParams, timestamp int64) ([]byt
   for _, bp := range brokerParams {
     switch protocol := strings.Split(strings.TrimPrefix(bp.URL, "cardinal://"), "://"); protocol[0] {
     case "kafka":
-      res, err := kafkaResumptionForTimestamp(bp.URL, bp.Topics, timestamp)
+      res, err := kafkaResumptionForTimestamp(strings.TrimPrefix(bp.URL, "cardinal://"), bp.Topics, timestamp)
       if err != nil {
         return nil, err
       }
-- 
2.43.0


From 182863f866988f2a93805eb194dfe56aa6f49fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:00 +0000
Subject: [PATCH 21/31] fix: don't lose blocks between replay and live feed, or
 batches sent concurrently, on websockets

---
 transports/websockets.go | 136 +++++++++++++++++++--------------------
 1 file changed, 68 insertions(+), 68 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index 6a427fd..b4dea2e 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -33,7 +33,7 @@ type websocketProducer struct {
 	feed types.Feed
 	resumer StreamsResumption
 	expectedBatches map[types.Hash]types.Hash
-	closemu sync.RWMutex
+	batchmu sync.Mutex
 }
 
 func (*websocketProducer) ProducerCount(time.Duration) uint {
@@ -121,7 +121,6 @@ func (p *websocketProducer) Service() interface{} {
 	return &websocketStreamsService{
 		feed: &p.feed,
 		resumer: p.resumer,
-		closemu: &p.closemu,
 	}
 }
 
@@ -137,7 +136,12 @@ func (p *websocketProducer) AddBlock(number int64, hash, parentHash types.Hash,
 	for k := range deletes {
 		deleteData = append(deleteData, k)
 	}
-	p.closemu.RLock()
+	// The batches can be sent from the moment the block is
+	p.batchmu.Lock()
+	for _, v := range batches {
+		p.expectedBatches[v] = hash
+	}
+	p.batchmu.Unlock()
 	p.feed.Send(&resultMessage{
 		Type: "batch",
 		Batch: &TransportBatch{
@@ -150,20 +154,18 @@ func (p *websocketProducer) AddBlock(number int64, hash, parentHash types.Hash,
 			Deletes: deleteData,
 		},
 	})
-	p.closemu.RUnlock()
-	for _, v := range batches {
-		p.expectedBatches[v] = hash
-	}
 	return nil
 }
 func (p *websocketProducer) SendBatch(batchid types.Hash, deletes []string, updates map[string][]byte) error {
+	p.batchmu.Lock()
 	hash, ok := p.expectedBatches[batchid]
+	delete(p.expectedBatches, batchid)
+	p.batchmu.Unlock()
 	if !ok { return delivery.ErrUnknownBatch}
 	updateData := make(map[string]hexutil.Bytes)
 	for k, v := range updates {
 		updateData[k] = hexutil.Bytes(v)
 	}
-	p.closemu.RLock()
 	p.feed.Send(&resultMessage{
 		Type: "subbatch",
 		SubBatch: &transportSubbatch{
@@ -173,12 +175,9 @@ func (p *websocketProducer) SendBatch(batchid types.Hash, deletes []string, upda
 			Deletes: deletes,
 		},
 	})
-	p.closemu.RUnlock()
-	delete(p.expectedBatches, batchid)
 	return nil
 }
 func (p *websocketProducer) Reorg(number int64, hash types.Hash) (func(), error) {
-	p.closemu.RLock()
 	p.feed.Send(&resultMessage{
 		Type: "reorg",
 		Batch: &TransportBatch{
@@ -186,7 +185,6 @@ func (p *websocketProducer) Reorg(number int64, hash types.Hash) (func(), error)
 			Number: hexutil.Uint64(number),
 		},
 	})
-	p.closemu.RUnlock()
 	return func() {}, nil
 }
 func (*websocketProducer) PurgeReplayCache() {}
@@ -194,7 +192,6 @@ func (*websocketProducer) PurgeReplayCache() {}
 type websocketStreamsService struct {
 	feed *types.Feed
 	resumer StreamsResumption
-	closemu *sync.RWMutex
 }
 
 func (s *websocketStreamsService) StreamsBlock(ctx context.Context, number hexutil.Uint64) (*resultMessage, error) {
@@ -227,67 +224,50 @@ func (s *websocketStreamsService) Streams(ctx context.Context, number hexutil.Ui
 	if err != nil {
 		return nil, err
 	}
-	subch := make(chan *resultMessage, 1000)
-	var sub types.Subscription
-	sub = &nullSubscription{}
-	var initwg sync.WaitGroup
-	initwg.Add(1)
-	go func() {
-		for block := range initBlocks {
-			values := make(map[string]hexutil.Bytes)
-			deletes := make([]string, 0, len(block.Deletes))
-			for k, v := range block.Values {
-				values[k] = hexutil.Bytes(v)
-			}
-			for k, _ := range block.Deletes {
-				deletes = append(deletes, k)
-			}
-            for len(subch) > 10 {
-                // If subch is getting backed up, wait before continuing to avoid high memory usage
-                // We need the buffer to be larger for when we transition to the active feed, because
-                // one blocking subscribe can delay the whole feed, but during initialization it's
-                // more likely that consumers won't be able to keep up with the stream than when
-                // blocks are received as they're validated.
-                if ctx.Err() != nil { break }
-                time.Sleep(10 * time.Millisecond)
-            }
-
-			subch <- &resultMessage{
-				Type: "batch",
-				Batch: &TransportBatch{
-					Number: hexutil.Uint64(uint64(block.Number)),
-					Weight: (*hexutil.Big)(block.Weight),
-					Hash: block.Hash,
-					ParentHash: block.ParentHash,
-					Batches: make(map[string]types.Hash),
-					Values: values,
-					Deletes: deletes,
-				},
-			}
+	// The buffer is small during initialization, to avoid high memory usage
+	// when consumers aren't able to keep up with the stream.
+	subch := make(chan *resultMessage, 10)
+	send := func(msg *resultMessage) bool {
+		select {
+		case subch <- msg:
+			return true
+		case <-ctx.Done():
+			return false
 		}
-		if ctx.Err() == nil {
-			sub = s.feed.Subscribe(subch)
-			subch <- &resultMessage{
-				Type: "ready",
-			}
+	}
+	lastNum, lastHash := uint64(number), hash
+	replay := func(blocks chan *delivery.PendingBatch) bool {
+		for block := range blocks {
+			if !send(&resultMessage{
+				Type: "batch",
+				Batch: newTransportBatch(block),
+			}) { return false }
+			lastNum, lastHash = uint64(block.Number), block.Hash
 		}
-		initwg.Done()
-	}()
+		return ctx.Err() == nil
+	}
 	go func() {
+		defer close(subch)
+		if !replay(initBlocks) { return }
+		// This buffer needs to be larger, because one blocking subscriber can
+		// delay the whole feed.
+		live := make(chan *resultMessage, 1000)
+		sub := s.feed.Subscribe(live)
+		defer sub.Unsubscribe()
+		// Blocks that were added after the resumer finished and before we
+		// subscribed wouldn't reach the consumer otherwise.
+		missed, err := s.resumer.BlocksFrom(ctx, lastNum, lastHash)
+		if err != nil {
+			log.Error("Error resuming stream", "number", lastNum, "hash", lastHash, "err", err)
+		} else if !replay(missed) {
+			return
+		}
+		if !send(&resultMessage{Type: "ready"}) { return }
 		for {
 			select {
+			case msg := <-live:
+				if !send(msg) { return }
 			case <-ctx.Done():
-				initwg.Wait()
-				sub.Unsubscribe()
-				s.closemu.Lock()
-				close(subch)
-				s.closemu.Unlock()
-				return
-			case <-sub.Err():
-				sub.Unsubscribe()
-				s.closemu.Lock()
-				close(subch)
-				s.closemu.Unlock()
 				return
 			}
 		}
@@ -295,6 +275,26 @@ func (s *websocketStreamsService) Streams(ctx context.Context, number hexutil.Ui
 	return subch, nil
 }
 
+func newTransportBatch(block *delivery.PendingBatch) *TransportBatch {
+	values := make(map[string]hexutil.Bytes)
+	deletes := make([]string, 0, len(block.Deletes))
+	for k, v := range block.Values {
+		values[k] = hexutil.Bytes(v)
+	}
+	for k, _ := range block.Deletes {
+		deletes = append(deletes, k)
+	}
+	return &TransportBatch{
+		Number: hexutil.Uint64(uint64(block.Number)),
+		Weight: (*hexutil.Big)(block.Weight),
+		Hash: block.Hash,
+		ParentHash: block.ParentHash,
+		Batches: make(map[string]types.Hash),
+		Values: values,
+		Deletes: deletes,
+	}
+}
+
 
 type websocketConsumer struct {
 	url string
-- 
2.43.0


From 180706f60daded825342af0119bdfe5039118ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:52 +0000
Subject: [PATCH 22/31] fix: reconnect websocket consumers without losing
 blocks, and close them cleanly

---
 transports/websockets.go | 124 ++++++++++++++++++++++++++++-----------
 1 file changed, 91 insertions(+), 33 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index b4dea2e..de74158 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -303,15 +303,18 @@ type websocketConsumer struct {
 	pendingBatches types.Feed
 	reorgs types.Feed
 	conn *websocket.Conn
+	connmu sync.Mutex
 	ready chan struct{}
-	quit bool
+	quit chan struct{}
+	closeOnce sync.Once
 	lastNum hexutil.Uint64
 	lastHash types.Hash
     waiter waiter.Waiter
+    waiterOnce sync.Once
 }
 
 func newWebsocketConsumer(omp *delivery.OrderedMessageProcessor, url string, lastNum int64, lastHash types.Hash) (Consumer, error) {
-	return &websocketConsumer{url: strings.TrimPrefix(url, "cardinal://"), omp: omp, ready: make(chan struct{}), lastNum: hexutil.Uint64(lastNum), lastHash: lastHash}, nil
+	return &websocketConsumer{url: strings.TrimPrefix(url, "cardinal://"), omp: omp, ready: make(chan struct{}), quit: make(chan struct{}), lastNum: hexutil.Uint64(lastNum), lastHash: lastHash}, nil
 }
 
 func (*websocketConsumer) ProducerCount(time.Duration) uint {
@@ -319,74 +322,96 @@ func (*websocketConsumer) ProducerCount(time.Duration) uint {
 }
 
 func (c *websocketConsumer) Start() error {
-	var err error
 	connected := make(chan struct{}, 8)
 	isReady := false
 	go func() {
-		for !c.quit {
-			c.conn, _, err = websocket.DefaultDialer.Dial(c.url, nil)
+		for !c.closed() {
+			conn, _, err := websocket.DefaultDialer.Dial(c.url, nil)
 			if err != nil {
 				// If we can't connect, don't slam the server with connection attempts
 				log.Warn("Dial failed", "url", c.url, "error", err)
-				time.Sleep(time.Second)
+				c.pause()
 				continue
 			}
+			c.connmu.Lock()
+			c.conn = conn
+			c.connmu.Unlock()
+			if c.closed() {
+				conn.Close()
+				return
+			}
 			batches := make(map[types.Hash]*delivery.PendingBatch)
 			subbatches := make(map[types.Hash]*transportSubbatch)
 			pendingSubbatches := make(map[types.Hash]map[types.Hash]struct{})
 			call, err := rpc.NewCall("cardinal_subscribe", "streams", c.lastNum, c.lastHash)
 			if err != nil {
 				log.Warn("Subscribe failed", "err", err)
-				time.Sleep(time.Second)
+				conn.Close()
+				c.pause()
 				continue
 			}
 			callData, _ := json.Marshal(call)
-			c.conn.WriteMessage(websocket.TextMessage, callData)
+			conn.WriteMessage(websocket.TextMessage, callData)
 			var subid *hexutil.Uint64
+			// The first notifications can arrive before the subscription id
+			var early [][]byte
 			for subid == nil {
-				_, message, err := c.conn.ReadMessage()
+				_, message, err := conn.ReadMessage()
 				if err != nil {
 					log.Warn("Read error. Resetting Connection.", "err", err)
-					time.Sleep(time.Second)
 					break
 				}
 				var response rpc.Response
 				if err := json.Unmarshal(message, &response); err != nil {
 					log.Warn("Server responded with invalid json", "err", err, "response", string(message))
-					time.Sleep(time.Second)
-					continue
+					break
 				}
 				if string(response.ID) == string(call.ID) {
 					idstring, ok := response.Result.(string)
-					if ok {
-						encodedid, err := hexutil.DecodeUint64(idstring)
-						if err != nil {
-							log.Warn("Invalid subscription id", "id", idstring, "err", err)
-							continue
-						}
-						x := hexutil.Uint64(encodedid)
-						subid = &x
+					if !ok {
+						log.Warn("Subscribe failed", "err", response.Error)
+						break
 					}
+					encodedid, err := hexutil.DecodeUint64(idstring)
+					if err != nil {
+						log.Warn("Invalid subscription id", "id", idstring, "err", err)
+						break
+					}
+					x := hexutil.Uint64(encodedid)
+					subid = &x
 				} else {
-					log.Warn("Unexpected response", "wanted", call.ID, "got", response.ID)
+					early = append(early, message)
 				}
 			}
+			if subid == nil {
+				conn.Close()
+				c.pause()
+				continue
+			}
 			log.Info("Subscription established", "id", subid)
-			var notification rpc.SubscriptionResponseRaw
 			select {
 			case connected <- struct{}{}:
 			default:
 			}
 			for {
-				_, message, err := c.conn.ReadMessage()
+				var message []byte
+				var err error
+				if len(early) > 0 {
+					message, early = early[0], early[1:]
+				} else {
+					_, message, err = conn.ReadMessage()
+				}
 				if err != nil {
 					log.Debug("Read error. Resetting connection.", "err", err)
+					conn.Close()
 					break
 				}
+				if c.closed() { return }
 				if len(message) == 0 {
 					// Probably a ping message
 					continue
 				}
+				var notification rpc.SubscriptionResponseRaw
 				json.Unmarshal(message, &notification)
 				if notification.Method != "cardinal_subscribe" {
 					log.Warn("Unexpected message on channel", "message", string(message))
@@ -423,6 +448,10 @@ func (c *websocketConsumer) Start() error {
 					for _, k := range item.Batch.Deletes {
 						pb.Deletes[k] = struct{}{}
 					}
+					if _, ok := batches[pb.Hash]; ok {
+						// We're already waiting for the rest of this block
+						continue
+					}
 					pendingSubbatches[pb.Hash] = make(map[types.Hash]struct{})
 					for _, batchid := range item.Batch.Batches {
 						if sb, ok := subbatches[batchid]; ok {
@@ -441,8 +470,12 @@ func (c *websocketConsumer) Start() error {
 					if len(pendingSubbatches[pb.Hash]) == 0 {
 						delete(pendingSubbatches, pb.Hash)
 						c.omp.ProcessCompleteBatch(pb)
-						c.lastNum = hexutil.Uint64(pb.Number)
-						c.lastHash = pb.Hash
+						if len(pendingSubbatches) == 0 {
+							// If we're still waiting for parts of other blocks,
+							// we'd need to get those again after reconnecting
+							c.lastNum = hexutil.Uint64(pb.Number)
+							c.lastHash = pb.Hash
+						}
 					}
 				case "subbatch":
 					pb, ok := batches[item.SubBatch.Hash]
@@ -462,16 +495,41 @@ func (c *websocketConsumer) Start() error {
 						delete(pendingSubbatches, item.SubBatch.Hash)
 						delete(batches, item.SubBatch.Hash)
 						c.omp.ProcessCompleteBatch(pb)
-						c.lastNum = hexutil.Uint64(pb.Number)
-						c.lastHash = pb.Hash
+						if len(pendingSubbatches) == 0 {
+							// If we're still waiting for parts of other blocks,
+							// we'd need to get those again after reconnecting
+							c.lastNum = hexutil.Uint64(pb.Number)
+							c.lastHash = pb.Hash
+						}
 					}
 				}
 			}
 		}
 	}()
-	<-connected
+	select {
+	case <-connected:
+	case <-c.quit:
+	}
 	return nil
 }
+
+func (c *websocketConsumer) closed() bool {
+	select {
+	case <-c.quit:
+		return true
+	default:
+		return false
+	}
+}
+
+// pause waits a second, or until the consumer gets closed.
+func (c *websocketConsumer) pause() {
+	select {
+	case <-time.After(time.Second):
+	case <-c.quit:
+	}
+}
+
 func (c *websocketConsumer) Subscribe(ch interface{}) types.Subscription {
 	return c.omp.Subscribe(ch)
 }
@@ -479,8 +537,10 @@ func (c *websocketConsumer) SubscribeReorg(ch chan<- map[int64]types.Hash) types
 	return c.omp.SubscribeReorg(ch)
 }
 func (c *websocketConsumer) Close() {
-	c.quit = true
-	c.conn.Close()
+	c.closeOnce.Do(func() { close(c.quit) })
+	c.connmu.Lock()
+	defer c.connmu.Unlock()
+	if c.conn != nil { c.conn.Close() }
 }
 func (c *websocketConsumer) Ready() <-chan struct{} {
 	return c.ready
@@ -490,8 +550,6 @@ func (c *websocketConsumer) WhyNotReady(types.Hash) string {
 }
 
 func (c *websocketConsumer) Waiter() waiter.Waiter {
-    if c.waiter == nil {
-      c.waiter = waiter.NewOmpWaiter(c.omp)
-    }
+    c.waiterOnce.Do(func() { c.waiter = waiter.NewOmpWaiter(c.omp) })
     return c.waiter
   }
\ No newline at end of file
-- 
2.43.0


From 948b472fb76853fc398fafb4e642b0d974187dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:25 +0000
Subject: [PATCH 23/31] fix: share and stop waiters, and wait for multiplexed
 consumers, without leaks or races

---
 transports/resolver.go | 8 +++++---
 waiter/waiter.go       | 7 +++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/transports/resolver.go b/transports/resolver.go
index 0312632..aca4b4c 100644
--- a/transports/resolver.go
+++ b/transports/resolver.go
@@ -8,6 +8,7 @@ import (
   "time"
   "strings"
   "reflect"
+  "sync"
   "github.com/openrelayxyz/cardinal-types"
   "github.com/openrelayxyz/cardinal-streams/v2/delivery"
   "github.com/openrelayxyz/cardinal-streams/v2/waiter"
@@ -124,10 +125,11 @@ type muxConsumer struct {
   omp       *delivery.OrderedMessageProcessor
   consumers []Consumer
   waiter    waiter.Waiter
+  waiterOnce sync.Once
 }
 
 func (mc *muxConsumer) Waiter() waiter.Waiter {
-  if mc.waiter == nil {
+  mc.waiterOnce.Do(func() {
     for _, c := range mc.consumers {
       if w := c.Waiter(); w != (nullWaiter{}) {
         mc.waiter = w
@@ -137,7 +139,7 @@ func (mc *muxConsumer) Waiter() waiter.Waiter {
     if mc.waiter == nil {
       mc.waiter = nullWaiter{}
     }
-  }
+  })
   return mc.waiter
 }
 
@@ -197,7 +199,7 @@ func (mc *muxConsumer) Ready() <-chan struct{} {
       }
     }
     reflect.Select(channels)
-    ch <- struct{}{}
+    close(ch)
   }()
   return ch
 }
diff --git a/waiter/waiter.go b/waiter/waiter.go
index c5dc47f..9f6dbff 100644
--- a/waiter/waiter.go
+++ b/waiter/waiter.go
@@ -48,6 +48,7 @@ type ompWaiter struct {
     lock sync.RWMutex
     sub types.Subscription
     ch chan *delivery.Waiter
+    stopOnce sync.Once
 }
 
 func NewOmpWaiter(omp *delivery.OrderedMessageProcessor) Waiter {
@@ -154,6 +155,8 @@ func (w *ompWaiter) WaitForNumberResult(n int64, timeout time.Duration) WaitResu
 }
 
 func (w *ompWaiter) Stop() {
-    w.sub.Unsubscribe()
-    close(w.ch)
+    w.stopOnce.Do(func() {
+        w.sub.Unsubscribe()
+        close(w.ch)
+    })
 }
\ No newline at end of file
-- 
2.43.0


From 176feb2e5a5e7cd51e6034fed733e5ffcad8f3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:35 +0000
Subject: [PATCH 24/31] fix: resume by timestamp from partitions without
 messages from that time on

---
 transports/kafka.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transports/kafka.go b/transports/kafka.go
index 6e76b37..eb07687 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -524,12 +524,17 @@ func kafkaResumptionForTimestamp(brokerURL string, topics []string, timestamp in
     log.Error("error connecting to brokers", "brokers", brokers)
     return nil, err
   }
+  defer client.Close()
   resumption := []string{}
   for _, topic := range topics {
     parts, err := client.Partitions(topic)
     if err != nil { return nil, err }
     for _, part := range parts {
       offset, err := client.GetOffset(topic, part, timestamp)
+      if err == nil && offset < 0 {
+        // There are no messages from that time on yet, but there will be
+        offset, err = client.GetOffset(topic, part, sarama.OffsetNewest)
+      }
       if err != nil {
         return nil, err
       }
-- 
2.43.0


From 2eac2d6e7a6446e68ac12407cb7ec19780a6b27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:35 +0000
Subject: [PATCH 25/31] fix: don't skip to the end of a partition when the
 rollback goes beyond its start

---
 transports/kafka.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index eb07687..2a17cd5 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -575,7 +575,7 @@ func (kc *KafkaConsumer) Start() error {
       offset, ok := kc.resumption[k]
       var startOffset int64
       if !ok || offset < kc.rollback{
-        if kc.startHash == (types.Hash{}) && kc.rollback >= 0 {
+        if !ok && kc.startHash == (types.Hash{}) && kc.rollback >= 0 {
           // An empty hash indicates an intention to start tracking the feed
           // now, so we should not add historical messages.
           offset, err = kc.client.GetOffset(topic, partid, sarama.OffsetNewest)
-- 
2.43.0


From cd725770970e4686dff4610a16d39ad90d73be58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:43 +0000
Subject: [PATCH 26/31] fix: start Kafka consumers without waiting for messages
 of other partitions

---
 transports/kafka.go | 48 ++++++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 2a17cd5..29ea3c3 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -564,12 +564,11 @@ func (kc *KafkaConsumer) Start() error {
   // its last one.
   warm, caughtUp := make(chan struct{}), make(chan struct{})
   var warming, behind int32
+  // Offsets get looked up before we start consuming, as lookups have to wait
+  // for messages once partitions are being consumed.
   for _, topic := range kc.topics {
     partitions, err := consumer.Partitions(topic)
-    if err != nil {
-      closePartitions(partitionConsumers)
-      return err
-    }
+    if err != nil { return err }
     for _, partid := range partitions {
       k := fmt.Sprintf("%v:%v", topic, partid)
       offset, ok := kc.resumption[k]
@@ -602,23 +601,26 @@ func (kc *KafkaConsumer) Start() error {
         // If there are no messages for us yet, don't wait for them
         waiting = oldest < newest && startOffset < newest && startOffset != sarama.OffsetNewest
       }
-      pc, err := consumer.ConsumePartition(topic, partid, startOffset)
+      partitionConsumers = append(partitionConsumers, &kafkaPartition{topic: topic, partid: partid, offset: offset, startOffset: startOffset, waiting: waiting})
+    }
+  }
+  for i, p := range partitionConsumers {
+    pc, err := consumer.ConsumePartition(p.topic, p.partid, p.startOffset)
+    if err != nil {
+      pc, err = consumer.ConsumePartition(p.topic, p.partid, p.offset)
       if err != nil {
-        pc, err = consumer.ConsumePartition(topic, partid, offset)
-        if err != nil {
-          closePartitions(partitionConsumers)
-          return err
-        }
-        waiting = waiting && offset == sarama.OffsetOldest
-        startOffset = offset
-      }
-      log.Info("Starting partition consumer", "topic", topic, "partition", partid, "offset", offset, "startOffset", startOffset)
-      partitionConsumers = append(partitionConsumers, &kafkaPartition{PartitionConsumer: pc, topic: topic, partid: partid, waiting: waiting})
-      if waiting {
-        warming++
-        behind++
-        if !kc.isReorg { pace.add(len(partitionConsumers) - 1, startOffset) }
+        closePartitions(partitionConsumers[:i])
+        return err
       }
+      p.waiting = p.waiting && p.offset == sarama.OffsetOldest
+      p.startOffset = p.offset
+    }
+    log.Info("Starting partition consumer", "topic", p.topic, "partition", p.partid, "offset", p.offset, "startOffset", p.startOffset)
+    p.PartitionConsumer = pc
+    if p.waiting {
+      warming++
+      behind++
+      if !kc.isReorg { pace.add(i, p.startOffset) }
     }
   }
   if behind == 0 {
@@ -780,9 +782,11 @@ func (kc *KafkaConsumer) Start() error {
 // messages waiting for it when it started.
 type kafkaPartition struct {
   sarama.PartitionConsumer
-  topic   string
-  partid  int32
-  waiting bool
+  topic       string
+  partid      int32
+  offset      int64
+  startOffset int64
+  waiting     bool
 }
 
 func closePartitions(pcs []*kafkaPartition) {
-- 
2.43.0


From d42ec60fbfd48472dfe44bde91fbbbe4be8ac229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:23 +0000
Subject: [PATCH 27/31] fix: allow concurrent calls of KafkaConsumer.Close

---
 transports/kafka.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 29ea3c3..1030105 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -817,10 +817,12 @@ func (kc *KafkaConsumer) SubscribeReorg(ch chan<- map[int64]types.Hash) types.Su
   return kc.omp.SubscribeReorg(ch)
 }
 func (kc *KafkaConsumer) Close() {
-  kc.closeOnce.Do(func() { close(kc.quit) })
-  kc.shutdownWg.Wait()
-  // Consumers of reorg topics share the client of the consumer they belong to
-  if !kc.isReorg { kc.client.Close() }
+  kc.closeOnce.Do(func() {
+    close(kc.quit)
+    kc.shutdownWg.Wait()
+    // Consumers of reorg topics share the client of the consumer they belong to
+    if !kc.isReorg { kc.client.Close() }
+  })
 }
 func (kc *KafkaConsumer) WhyNotReady(hash types.Hash) string {
   return kc.omp.WhyNotReady(hash)
-- 
2.43.0


From fbf0fc4e43829a2fd7d1b6ee2b3b40082a46f9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:23 +0000
Subject: [PATCH 28/31] fix: ignore malformed websocket messages instead of
 crashing

---
 transports/websockets.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index de74158..8961864 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -47,6 +47,19 @@ type resultMessage struct {
 	SubBatch *transportSubbatch `json:"subbatch,omitempty"`
 }
 
+// valid reports whether a message has everything its type calls for.
+func (m *resultMessage) valid() bool {
+	switch m.Type {
+	case "batch":
+		return m.Batch != nil && m.Batch.Weight != nil
+	case "reorg":
+		return m.Batch != nil
+	case "subbatch":
+		return m.SubBatch != nil
+	}
+	return true
+}
+
 type TransportBatch struct {
 	Number hexutil.Uint64 `json:"number"`
 	Weight *hexutil.Big `json:"weight"`
@@ -422,7 +435,10 @@ func (c *websocketConsumer) Start() error {
 					continue
 				}
 				var item resultMessage
-				json.Unmarshal(notification.Params.Result, &item)
+				if err := json.Unmarshal(notification.Params.Result, &item); err != nil || !item.valid() {
+					log.Warn("Malformed message on channel", "message", string(message), "err", err)
+					continue
+				}
 				switch item.Type {
 				case "ready":
 					if !isReady {
-- 
2.43.0


From b20472d393077d80497dc70a13919522cfae1ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:02 +0000
Subject: [PATCH 29/31] fix: forget the blocks rewound by a reorg marker, so
 that redelivered ones are applied whatever their order

---
 delivery/ordering.go | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index 309baf3..e0d0751 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -263,12 +263,49 @@ func (omp *OrderedMessageProcessor) HandleReorg(num int64, hash types.Hash) {
   omp.handleLock.Lock()
   defer omp.handleLock.Unlock()
   omp.lock.Lock()
+  omp.rewind(num, hash)
   omp.lastHash = hash
   omp.lock.Unlock()
   // omp.lastNumber = num
   omp.reorgFeed.Send(map[int64]types.Hash{num: hash})
 }
 
+// rewind prepares for making the given block the last one. The blocks applied
+// after it are forgotten, so that they are handled as new ones if they are delivered again,
+// in whatever order.
+func (omp *OrderedMessageProcessor) rewind(num int64, hash types.Hash) {
+  gone := make(map[types.Hash]struct{})
+  last := omp.lastHash
+  for pb, ok := omp.pending[last]; ok && pb.Number > num; pb, ok = omp.pending[last] {
+    omp.forget(last, gone)
+    last = pb.ParentHash
+  }
+  finished, err := lru.NewWithEvict(int(omp.reorgThreshold * 2), func(k, v interface{}) { omp.evict(k.(types.Hash)) })
+  if err == nil {
+    for _, k := range omp.finished.Keys() {
+      h := k.(types.Hash)
+      if _, ok := gone[h]; ok { continue }
+      if _, ok := omp.pending[h]; !ok && last != hash && h != hash {
+        // The chain to rewind goes back further than the blocks we hold; this
+        // may be one of it.
+        continue
+      }
+      finished.Add(h, struct{}{})
+    }
+    omp.finished = finished
+  }
+  if pb, ok := omp.pending[hash]; ok { omp.lastWeight = pb.Weight }
+}
+
+// forget drops a block and the blocks queued on top of it.
+func (omp *OrderedMessageProcessor) forget(hash types.Hash, gone map[types.Hash]struct{}) {
+  gone[hash] = struct{}{}
+  children := omp.queued[hash]
+  delete(omp.queued, hash)
+  delete(omp.pending, hash)
+  for child := range children { omp.forget(child, gone) }
+}
+
 func (omp *OrderedMessageProcessor) prepareEmit(new, old []*PendingBatch) {
   if len(new) > 0 {
     newest := new[len(new) - 1]
-- 
2.43.0


From dbc105a72b153d64d260f58cfce574e2fd02ee46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:29 +0000
Subject: [PATCH 30/31] fix: Starting a producer fails when another creates the
 topic at the same time

Between asking for a topic's metadata and asking to create it, another
producer may have created it.
---
 transports/kafka.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 1030105..35bdc4c 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -214,7 +214,8 @@ func CreateTopicIfDoesNotExist(brokerAddr, topic string, numPartitions int32, co
       log.Error("Error creating topic", "error", err, "response", r)
       return err
     }
-    if err, _ := r.TopicErrors[topic]; err != nil && err.Err != sarama.ErrNoError {
+    // Someone else may have created the topic since we asked for its metadata
+    if err, _ := r.TopicErrors[topic]; err != nil && err.Err != sarama.ErrNoError && err.Err != sarama.ErrTopicAlreadyExists {
       log.Error("topic error", "err", err)
       return err
     }
-- 
2.43.0


From c578ec42f7bfd9111471de726a4859d740fdec2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:02 +0000
Subject: [PATCH 31/31] fix: A broker URL that can't be parsed crashes the
 process

---
 transports/kafka.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 35bdc4c..673972a 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -77,7 +77,12 @@ func (m *KafkaResumptionMessage) Time() time.Time {
 }
 
 func ParseKafkaURL(brokerURL string) ([]string, *sarama.Config) {
-  parsedURL, _ := url.Parse("kafka://" + strings.TrimPrefix(brokerURL, "kafka://"))
+  parsedURL, err := url.Parse("kafka://" + strings.TrimPrefix(brokerURL, "kafka://"))
+  if err != nil {
+    // Connecting to no brokers will result in an error
+    log.Error("Invalid broker URL")
+    parsedURL = &url.URL{}
+  }
   config := sarama.NewConfig()
   config.Version = sarama.V2_5_0_0
 
-- 
2.43.0

