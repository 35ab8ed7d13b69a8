From fa825eb266701011d3ec055e824896eee9924ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:39 +0000
Subject: [PATCH 01/30] fix: MemoryStore keeps its own copy of collected
 annotations

The slice given to Collect was retained and later appended to, so data of one
span could appear in another one (or in another store behind a MultiStore)
when the caller's slice had spare capacity or was reused.
---
 store.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 53dcc6f..765d20a 100644
--- a/store.go
+++ b/store.go
@@ -122,7 +122,8 @@ func (ms *MemoryStore) collectNoLock(id SpanID, as ...Annotation) error {
 	// Create or update span.
 	s, present := ms.span[id.Trace][id.Span]
 	if !present {
-		s = &Trace{Span: Span{ID: id, Annotations: as}}
+		// Copy the annotations: the caller may reuse the slice's backing array.
+		s = &Trace{Span: Span{ID: id, Annotations: append(Annotations(nil), as...)}}
 		ms.span[id.Trace][id.Span] = s
 	} else {
 		if ms.log {
-- 
2.43.0


From 58dc9a55de4a27efc3a335d713e1a730d50635f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:15 +0000
Subject: [PATCH 02/30] fix: spans with cyclic parent links stay in the trace

A span that is its own parent, or that closes a cycle of parent links, was
placed under its own descendant: the cycle was cut off from the trace and made
the tree endless for whoever walks it (the collector server accepts such spans
from any client).
---
 store.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/store.go b/store.go
index 765d20a..8ef7752 100644
--- a/store.go
+++ b/store.go
@@ -203,7 +203,7 @@ func (ms *MemoryStore) collectNoLock(id SpanID, as ...Annotation) error {
 // root.
 func (ms *MemoryStore) insert(root, t *Trace) {
 	p, present := ms.span[t.ID.Trace][t.ID.Parent]
-	if present {
+	if present && !ms.inParentCycle(t) {
 		if ms.log {
 			log.Printf("Add %v as a child of parent %v", t.Span.ID, p.Span.ID)
 		}
@@ -226,7 +226,7 @@ func (ms *MemoryStore) reattachChildren(dst, src *Trace) {
 	}
 	var sub2 []*Trace
 	for _, c := range src.Sub {
-		if c.Span.ID.Parent == dst.Span.ID.Span {
+		if c.Span.ID.Parent == dst.Span.ID.Span && !ms.inParentCycle(c) {
 			if ms.log {
 				log.Printf("Move %v from src %v to dst %v", c.Span.ID, src.Span.ID, dst.Span.ID)
 			}
@@ -238,6 +238,25 @@ func (ms *MemoryStore) reattachChildren(dst, src *Trace) {
 	src.Sub = sub2
 }
 
+// inParentCycle returns whether following the parent links from t leads back
+// to t. Such a span cannot be placed under its parent: it would make the tree
+// cyclic and cut it off from the root.
+func (ms *MemoryStore) inParentCycle(t *Trace) bool {
+	spans := ms.span[t.ID.Trace]
+	p := t
+	for i := 0; i < len(spans); i++ {
+		parent, present := spans[p.ID.Parent]
+		if !present {
+			return false
+		}
+		if parent == t {
+			return true
+		}
+		p = parent
+	}
+	return false
+}
+
 // Trace implements the Store interface by returning the Trace (a tree of
 // spans) for the given trace span ID or, if no such trace exists, by returning
 // ErrTraceNotFound.
-- 
2.43.0


From b4727d3a788623f51fbc6cb30e2de1eae069484f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:31 +0000
Subject: [PATCH 03/30] fix: MemoryStore returns copies of its traces

Trace and Traces returned the live trees, which later collections modify while
the caller reads them, without any lock (a data race, and traces that change
under the reader).
---
 store.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 8ef7752..0e1a979 100644
--- a/store.go
+++ b/store.go
@@ -272,7 +272,23 @@ func (ms *MemoryStore) traceNoLock(id ID) (*Trace, error) {
 	if !present {
 		return nil, ErrTraceNotFound
 	}
-	return t, nil
+	return copyTrace(t), nil
+}
+
+// copyTrace returns a copy of t that shares neither nodes nor slices with it,
+// such that t may be modified further while the copy is in use.
+func copyTrace(t *Trace) *Trace {
+	c := &Trace{Span: Span{ID: t.Span.ID}}
+	if t.Annotations != nil {
+		c.Annotations = append(make(Annotations, 0, len(t.Annotations)), t.Annotations...)
+	}
+	if t.Sub != nil {
+		c.Sub = make([]*Trace, len(t.Sub))
+		for i, sub := range t.Sub {
+			c.Sub[i] = copyTrace(sub)
+		}
+	}
+	return c
 }
 
 // Traces implements the Queryer interface.
-- 
2.43.0


From f34779dbcf4a9cd28a94651685498206d28a31cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:34 +0000
Subject: [PATCH 04/30] fix: data collected after MemoryStore.ReadFrom reaches
 the restored traces

The restored span index pointed to copies of the spans, not into the restored
trees, so everything collected for a restored span was lost.
---
 store.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/store.go b/store.go
index 0e1a979..43b6a9e 100644
--- a/store.go
+++ b/store.go
@@ -378,11 +378,30 @@ func (ms *MemoryStore) ReadFrom(r io.Reader) (int64, error) {
 	if err := gob.NewDecoder(r).Decode(&data); err != nil {
 		return 0, err
 	}
-	ms.trace = data.Trace
-	ms.span = data.Span
+
+	// The span index must point into the trace trees, so that further
+	// collections for the restored traces reach them. Gob does not preserve
+	// that pointers are shared, hence the index is rebuilt from the trees.
+	trace := make(map[ID]*Trace, len(data.Trace))
+	span := make(map[ID]map[ID]*Trace, len(data.Trace))
+	for id, t := range data.Trace {
+		trace[id] = t
+		span[id] = map[ID]*Trace{}
+		indexSpans(span[id], t)
+	}
+	ms.trace = trace
+	ms.span = span
 	return int64(len(ms.trace)), nil
 }
 
+// indexSpans adds t and all of its descendants to index.
+func indexSpans(index map[ID]*Trace, t *Trace) {
+	index[t.Span.ID.Span] = t
+	for _, sub := range t.Sub {
+		indexSpans(index, sub)
+	}
+}
+
 // PersistentStore is a Store that can persist its data and read it
 // back in.
 type PersistentStore interface {
-- 
2.43.0


From 50fa0a57445b08dfb1832cbd2e8e022e54c35c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:54 +0000
Subject: [PATCH 05/30] fix: ChunkedCollector queues its own copy of collected
 annotations

The slice given to Collect was queued and later appended to, so annotations of
one span could be overwritten by those of another one when the caller's slice
had spare capacity or was reused before the flush.
---
 collector.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/collector.go b/collector.go
index 26eb9cd..831e96f 100644
--- a/collector.go
+++ b/collector.go
@@ -192,7 +192,8 @@ func (cc *ChunkedCollector) Collect(span SpanID, anns ...Annotation) error {
 			cc.pendingBySpanID[span] = append(p, anns...)
 		}
 	} else {
-		cc.pendingBySpanID[span] = anns
+		// Copy the annotations: the caller may reuse the slice's backing array.
+		cc.pendingBySpanID[span] = append(Annotations(nil), anns...)
 	}
 
 	if err := cc.lastErr; err != nil {
-- 
2.43.0


From 2654c68b640efe7454fb0de33471eb8f40ef4049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:12 +0000
Subject: [PATCH 06/30] fix: ChunkedCollector.Stop may be called before the
 first Collect and twice

Stop panicked (close of a nil or closed channel) when nothing had been
collected yet or when it was called again. Also, a flush that was due at the
moment of Stop no longer begins after Stop has returned.
---
 collector.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/collector.go b/collector.go
index 831e96f..70bbf1b 100644
--- a/collector.go
+++ b/collector.go
@@ -206,9 +206,19 @@ func (cc *ChunkedCollector) Collect(span SpanID, anns ...Annotation) error {
 // Flush immediately sends all pending spans to the underlying
 // collector.
 func (cc *ChunkedCollector) Flush() error {
+	return cc.flush(false)
+}
+
+// flush does the work of Flush. An automatic flush does nothing once the
+// collector is stopped.
+func (cc *ChunkedCollector) flush(automatic bool) error {
 	start := time.Now()
 
 	cc.mu.Lock()
+	if automatic && cc.stopped {
+		cc.mu.Unlock()
+		return nil
+	}
 	pendingBySpanID := cc.pendingBySpanID
 	queueSizeBytes := cc.queueSizeBytes
 	cc.pendingBySpanID = nil
@@ -252,7 +262,7 @@ func (cc *ChunkedCollector) start() {
 			t := time.After(cc.MinInterval)
 			select {
 			case <-t:
-				if err := cc.Flush(); err != nil {
+				if err := cc.flush(true); err != nil {
 					cc.mu.Lock()
 					cc.lastErr = err
 					cc.mu.Unlock()
@@ -269,8 +279,13 @@ func (cc *ChunkedCollector) start() {
 func (cc *ChunkedCollector) Stop() {
 	cc.mu.Lock()
 	defer cc.mu.Unlock()
-	close(cc.stopChan)
+	if cc.stopped {
+		return
+	}
 	cc.stopped = true
+	if cc.started {
+		close(cc.stopChan)
+	}
 }
 
 // NewRemoteCollector creates a collector that sends data to a
-- 
2.43.0


From d0dbb0ec6f52098e6eeb320217d28063d2969c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:25 +0000
Subject: [PATCH 07/30] fix: LimitStore keeps its limit and order for trace ID
 0 and when a deletion fails

---
 store.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/store.go b/store.go
index 43b6a9e..a13a90d 100644
--- a/store.go
+++ b/store.go
@@ -550,14 +550,14 @@ func (ls *LimitStore) Collect(id SpanID, anns ...Annotation) error {
 		return ls.DeleteStore.Collect(id, anns...)
 	}
 
-	if nextInsert := ls.ring[ls.nextInsertIdx]; nextInsert != 0 {
-		// Store is at capacity (we know this because the next insert
-		// slot already contains trace); delete oldest.
+	if len(ls.traces) >= ls.Max {
+		// Store is at capacity (hence the next insert slot contains the
+		// oldest trace); delete oldest.
 		old := ID(ls.ring[ls.nextInsertIdx])
-		delete(ls.traces, old)
 		if err := ls.DeleteStore.Delete(old); err != nil {
 			return err
 		}
+		delete(ls.traces, old)
 	}
 	ls.traces[id.Trace] = struct{}{}
 	ls.ring[ls.nextInsertIdx] = int64(id.Trace)
-- 
2.43.0


From b6214a0d5a4365f17168c7b14820ead14ac412d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:29 +0000
Subject: [PATCH 08/30] fix: RecentStore measures the age of traces by the
 monotonic clock

---
 store.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/store.go b/store.go
index a13a90d..009e972 100644
--- a/store.go
+++ b/store.go
@@ -453,8 +453,8 @@ type RecentStore struct {
 	// Debug is whether to log debug messages.
 	Debug bool
 
-	// created maps trace ID to the UnixNano time it was first seen.
-	created map[ID]int64
+	// created maps trace ID to the time it was first seen.
+	created map[ID]time.Time
 
 	// lastEvicted is the last time the eviction process was run.
 	lastEvicted time.Time
@@ -467,10 +467,10 @@ type RecentStore struct {
 func (rs *RecentStore) Collect(id SpanID, anns ...Annotation) error {
 	rs.mu.Lock()
 	if rs.created == nil {
-		rs.created = map[ID]int64{}
+		rs.created = map[ID]time.Time{}
 	}
 	if _, present := rs.created[id.Trace]; !present {
-		rs.created[id.Trace] = time.Now().UnixNano()
+		rs.created[id.Trace] = time.Now()
 	}
 	if time.Since(rs.lastEvicted) > rs.MinEvictAge {
 		rs.evictBefore(time.Now().Add(-1 * rs.MinEvictAge))
@@ -485,10 +485,9 @@ func (rs *RecentStore) Collect(id SpanID, anns ...Annotation) error {
 func (rs *RecentStore) evictBefore(t time.Time) {
 	evictStart := time.Now()
 	rs.lastEvicted = evictStart
-	tnano := t.UnixNano()
 	var toEvict []ID
 	for id, ct := range rs.created {
-		if ct < tnano {
+		if ct.Before(t) {
 			toEvict = append(toEvict, id)
 			delete(rs.created, id)
 		}
-- 
2.43.0


From 12344fe4beabecdf93025894cb8faabe460f622c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:51 +0000
Subject: [PATCH 09/30] fix: RecentStore forgets no trace that comes back or
 fails to be deleted

---
 store.go | 78 +++++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 66 insertions(+), 12 deletions(-)

diff --git a/store.go b/store.go
index 009e972..4871d3f 100644
--- a/store.go
+++ b/store.go
@@ -454,12 +454,24 @@ type RecentStore struct {
 	Debug bool
 
 	// created maps trace ID to the time it was first seen.
-	created map[ID]time.Time
+	created map[ID]firstSeen
 
 	// lastEvicted is the last time the eviction process was run.
 	lastEvicted time.Time
 
-	mu sync.Mutex // mu guards created and lastEvicted
+	// evicting is whether a deletion of evicted traces is under way.
+	evicting bool
+
+	mu sync.Mutex // mu guards created, lastEvicted and evicting
+}
+
+// firstSeen is the time a trace was first seen.
+type firstSeen struct {
+	time.Time
+
+	// unsure is whether the trace was collected or its deletion failed while
+	// it was being evicted, such that it is not known whether it is stored.
+	unsure bool
 }
 
 // Collect calls the underlying store's Collect and records the time
@@ -467,17 +479,26 @@ type RecentStore struct {
 func (rs *RecentStore) Collect(id SpanID, anns ...Annotation) error {
 	rs.mu.Lock()
 	if rs.created == nil {
-		rs.created = map[ID]time.Time{}
+		rs.created = map[ID]firstSeen{}
 	}
-	if _, present := rs.created[id.Trace]; !present {
-		rs.created[id.Trace] = time.Now()
+	if seen, present := rs.created[id.Trace]; !present || seen.unsure {
+		rs.created[id.Trace] = firstSeen{Time: time.Now()}
 	}
-	if time.Since(rs.lastEvicted) > rs.MinEvictAge {
+	if !rs.evicting && time.Since(rs.lastEvicted) > rs.MinEvictAge {
 		rs.evictBefore(time.Now().Add(-1 * rs.MinEvictAge))
 	}
 	rs.mu.Unlock()
 
-	return rs.DeleteStore.Collect(id, anns...)
+	err := rs.DeleteStore.Collect(id, anns...)
+
+	// The trace may have been evicted meanwhile, and have come back with this
+	// collection.
+	rs.mu.Lock()
+	if seen, present := rs.created[id.Trace]; !present || seen.unsure {
+		rs.created[id.Trace] = firstSeen{Time: time.Now(), unsure: true}
+	}
+	rs.mu.Unlock()
+	return err
 }
 
 // evictBefore evicts traces that were created before t. The rs.mu lock
@@ -485,27 +506,60 @@ func (rs *RecentStore) Collect(id SpanID, anns ...Annotation) error {
 func (rs *RecentStore) evictBefore(t time.Time) {
 	evictStart := time.Now()
 	rs.lastEvicted = evictStart
-	var toEvict []ID
+	var toEvict, unsure []ID
 	for id, ct := range rs.created {
 		if ct.Before(t) {
-			toEvict = append(toEvict, id)
+			if ct.unsure {
+				unsure = append(unsure, id)
+			} else {
+				toEvict = append(toEvict, id)
+			}
 			delete(rs.created, id)
 		}
 	}
-	if len(toEvict) == 0 {
+	if len(toEvict)+len(unsure) == 0 {
 		return
 	}
 
 	if rs.Debug {
-		log.Printf("RecentStore: deleting %d traces created before %s (age check took %s)", len(toEvict), t, time.Since(evictStart))
+		log.Printf("RecentStore: deleting %d traces created before %s (age check took %s)", len(toEvict)+len(unsure), t, time.Since(evictStart))
 	}
 
 	// Spawn separate goroutine so we don't hold the rs.mu lock.
+	rs.evicting = true
 	go func() {
 		deleteStart := time.Now()
-		if err := rs.DeleteStore.Delete(toEvict...); err != nil {
+		for _, id := range unsure {
+			// Delete it only if it is still there: it must not be deleted
+			// if it comes back right now.
+			_, err := rs.DeleteStore.Trace(id)
+			rs.mu.Lock()
+			if _, present := rs.created[id]; !present && err != ErrTraceNotFound {
+				toEvict = append(toEvict, id)
+			}
+			rs.mu.Unlock()
+		}
+		var err error
+		if len(toEvict) > 0 {
+			err = rs.DeleteStore.Delete(toEvict...)
+		}
+		if err != nil {
 			log.Printf("RecentStore: failed to delete traces: %s", err)
 		}
+
+		rs.mu.Lock()
+		for _, id := range toEvict {
+			if _, present := rs.created[id]; present {
+				// Collected during the deletion: what was not deleted with
+				// the old trace is a new one, at most this old.
+				rs.created[id] = firstSeen{Time: time.Now(), unsure: true}
+			} else if err != nil {
+				rs.created[id] = firstSeen{unsure: true} // try again
+			}
+		}
+		rs.evicting = false
+		rs.mu.Unlock()
+
 		if rs.Debug {
 			log.Printf("RecentStore: finished deleting %d traces created before %s (took %s)", len(toEvict), t, time.Since(deleteStart))
 		}
-- 
2.43.0


From a2872235e653316696b60c0dafe0af56a6ae2400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:56 +0000
Subject: [PATCH 10/30] fix: RecentStore also evicts traces that were stored
 before it was created

---
 store.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/store.go b/store.go
index 4871d3f..397866c 100644
--- a/store.go
+++ b/store.go
@@ -480,6 +480,7 @@ func (rs *RecentStore) Collect(id SpanID, anns ...Annotation) error {
 	rs.mu.Lock()
 	if rs.created == nil {
 		rs.created = map[ID]firstSeen{}
+		go rs.addStored()
 	}
 	if seen, present := rs.created[id.Trace]; !present || seen.unsure {
 		rs.created[id.Trace] = firstSeen{Time: time.Now()}
@@ -501,6 +502,28 @@ func (rs *RecentStore) Collect(id SpanID, anns ...Annotation) error {
 	return err
 }
 
+// addStored makes the traces that are in the underlying store already (which
+// may have been loaded from a file) subject to eviction, as if they were first
+// seen now.
+func (rs *RecentStore) addStored() {
+	q, ok := rs.DeleteStore.(Queryer)
+	if !ok {
+		return
+	}
+	traces, err := q.Traces(TracesOpts{})
+	if err != nil {
+		log.Printf("RecentStore: failed to list stored traces: %s", err)
+		return
+	}
+	rs.mu.Lock()
+	defer rs.mu.Unlock()
+	for _, t := range traces {
+		if _, present := rs.created[t.ID.Trace]; !present {
+			rs.created[t.ID.Trace] = firstSeen{Time: time.Now(), unsure: true}
+		}
+	}
+}
+
 // evictBefore evicts traces that were created before t. The rs.mu lock
 // must be held while calling evictBefore.
 func (rs *RecentStore) evictBefore(t time.Time) {
-- 
2.43.0


From 4ed02c79d8459830c08d38fb6c97af40292c185d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:24 +0000
Subject: [PATCH 11/30] fix: CollectorServer accepts span IDs without the
 optional parent

---
 collector.go | 2 +-
 span.go      | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/collector.go b/collector.go
index 70bbf1b..e2828a9 100644
--- a/collector.go
+++ b/collector.go
@@ -480,7 +480,7 @@ func (cs *CollectorServer) handleConn(conn net.Conn) (err error) {
 		}
 		if cs.Trace {
 			for i, ann := range p.Annotation {
-				cs.log().Printf("Client %s: span %v: annotation %d: %s=%q", conn.RemoteAddr(), p.Spanid.Span, i, *ann.Key, ann.Value)
+				cs.log().Printf("Client %s: span %v: annotation %d: %s=%q", conn.RemoteAddr(), spanID.Span, i, ann.GetKey(), ann.Value)
 			}
 		}
 
diff --git a/span.go b/span.go
index 0f960b7..49b7302 100644
--- a/span.go
+++ b/span.go
@@ -71,9 +71,9 @@ func (id SpanID) wire() *wire.CollectPacket_SpanID {
 // spanIDFromWire returns a SpanID from it's protobuf definition.
 func spanIDFromWire(w *wire.CollectPacket_SpanID) SpanID {
 	return SpanID{
-		Trace:  ID(*w.Trace),
-		Span:   ID(*w.Span),
-		Parent: ID(*w.Parent),
+		Trace:  ID(w.GetTrace()),
+		Span:   ID(w.GetSpan()),
+		Parent: ID(w.GetParent()), // optional
 	}
 }
 
@@ -256,7 +256,7 @@ func annotationsFromWire(as []*wire.CollectPacket_Annotation) Annotations {
 	var w Annotations
 	for _, a := range as {
 		w = append(w, Annotation{
-			Key:   *a.Key,
+			Key:   a.GetKey(),
 			Value: a.Value,
 		})
 	}
-- 
2.43.0


From 8f9611e3905e8e650ce9771eacd18138ffa204b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:27 +0000
Subject: [PATCH 12/30] fix: CollectorServer.Start returns when its listener is
 closed

---
 collector.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/collector.go b/collector.go
index e2828a9..b387305 100644
--- a/collector.go
+++ b/collector.go
@@ -438,12 +438,15 @@ type CollectorServer struct {
 	Trace bool
 }
 
-// Start starts the server.
+// Start starts the server. It returns when the listener is closed.
 func (cs *CollectorServer) Start() {
 	for {
 		conn, err := cs.l.Accept()
 		if err != nil {
 			cs.log().Printf("Accept: %s", err)
+			if errors.Is(err, net.ErrClosed) {
+				return
+			}
 			continue
 		}
 
-- 
2.43.0


From fac2e373644ee6750b954f878afe37b6fd6a2d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:30 +0000
Subject: [PATCH 13/30] fix: RemoteCollector refuses messages that the server
 would not accept

---
 collector.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/collector.go b/collector.go
index b387305..921977c 100644
--- a/collector.go
+++ b/collector.go
@@ -12,6 +12,7 @@ import (
 	"time"
 
 	pio "github.com/gogo/protobuf/io"
+	"github.com/gogo/protobuf/proto"
 	"sourcegraph.com/sourcegraph/appdash/internal/wire"
 )
 
@@ -333,7 +334,12 @@ type RemoteCollector struct {
 // Collect implements the Collector interface by sending the events that
 // occurred in the span to the remote collector server (see CollectorServer).
 func (rc *RemoteCollector) Collect(span SpanID, anns ...Annotation) error {
-	return rc.collectAndRetry(newCollectPacket(span, anns))
+	p := newCollectPacket(span, anns)
+	if n := proto.Size(p); n > maxMessageSize {
+		// The server would drop the connection.
+		return fmt.Errorf("RemoteCollector: span %v: message of %d bytes exceeds the limit of %d bytes", span, n, maxMessageSize)
+	}
+	return rc.collectAndRetry(p)
 }
 
 // connect makes a connection to the collector server. It must be
-- 
2.43.0


From c4578f6545f50b8fa303e1444cc11f0bae804e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:19 +0000
Subject: [PATCH 14/30] fix: PersistEvery syncs the file before it replaces the
 previous one

---
 store.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/store.go b/store.go
index 397866c..a35e351 100644
--- a/store.go
+++ b/store.go
@@ -423,6 +423,11 @@ func PersistEvery(s PersistentStore, interval time.Duration, file string) error
 			f.Close()
 			return err
 		}
+		// The data must reach the disk before the rename does.
+		if err := f.Sync(); err != nil {
+			f.Close()
+			return err
+		}
 		if err := f.Close(); err != nil {
 			return err
 		}
-- 
2.43.0


From 3af07dd2ada88d8f24b4f54972c66697a88c7feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:12 +0000
Subject: [PATCH 15/30] fix: httptrace.Middleware handles requests with a
 malformed span header

---
 httptrace/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/httptrace/server.go b/httptrace/server.go
index ce804bf..d2264af 100644
--- a/httptrace/server.go
+++ b/httptrace/server.go
@@ -71,6 +71,10 @@ func Middleware(c appdash.Collector, conf *MiddlewareConfig) func(rw http.Respon
 		spanID, spanFromHeader, err := getSpanID(r.Header)
 		if err != nil {
 			log.Printf("Warning: invalid %s header: %s. (Continuing with request handling.)", spanFromHeader, err)
+
+			// Handle the request as if it had not carried the header.
+			newSpanID := appdash.NewRootSpanID()
+			spanID, spanFromHeader = &newSpanID, ""
 		}
 		usingProvidedSpanID := (spanFromHeader == HeaderSpanID)
 
-- 
2.43.0


From 11bcca3f50ce6ef67fb086f7cad9ff4b788f7d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:14 +0000
Subject: [PATCH 16/30] fix: httptrace.Middleware records the status that was
 sent

---
 httptrace/server.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/httptrace/server.go b/httptrace/server.go
index d2264af..82b0e4b 100644
--- a/httptrace/server.go
+++ b/httptrace/server.go
@@ -177,9 +177,13 @@ func (r *responseInfoRecorder) StatusCode() int {
 	return r.statusCode
 }
 
-// WriteHeader sets r.Code.
+// WriteHeader sets r.Code. Only the first status counts, as later ones are not
+// sent to the client; informational ones do not end the response.
 func (r *responseInfoRecorder) WriteHeader(code int) {
-	r.statusCode = code
+	informational := code >= 100 && code <= 199 && code != http.StatusSwitchingProtocols
+	if r.statusCode == 0 && !informational {
+		r.statusCode = code
+	}
 	r.ResponseWriter.WriteHeader(code)
 }
 
@@ -198,6 +202,9 @@ func (r *responseInfoRecorder) partialResponse() *http.Response {
 // implements http.Flusher.
 func (r *responseInfoRecorder) Flush() {
 	if f, ok := r.ResponseWriter.(http.Flusher); ok {
+		if r.statusCode == 0 {
+			r.statusCode = http.StatusOK // Flush sends the header
+		}
 		f.Flush()
 	}
 }
-- 
2.43.0


From b69f61948fbd0f1cf487f470075364c44648c581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:15 +0000
Subject: [PATCH 17/30] fix: httptrace redacts trailers set with
 http.TrailerPrefix

---
 httptrace/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/httptrace/client.go b/httptrace/client.go
index 0fa6fc7..5a7db93 100644
--- a/httptrace/client.go
+++ b/httptrace/client.go
@@ -102,6 +102,10 @@ func redactHeaders(header, trailer http.Header) map[string]string {
 }
 
 func isRedacted(name string) bool {
+	// Handlers set trailers that were not announced with this prefix.
+	if len(name) >= len(http.TrailerPrefix) && strings.EqualFold(name[:len(http.TrailerPrefix)], http.TrailerPrefix) {
+		name = name[len(http.TrailerPrefix):]
+	}
 	for _, v := range RedactedHeaders {
 		if strings.EqualFold(name, v) {
 			return true
-- 
2.43.0


From 4610c7896635422b3668f40461a560256ca26dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:56 +0000
Subject: [PATCH 18/30] fix: traceapp reports a store error during an upload
 instead of ignoring the trace

---
 traceapp/app.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/traceapp/app.go b/traceapp/app.go
index 3c1fd73..13122ba 100644
--- a/traceapp/app.go
+++ b/traceapp/app.go
@@ -315,10 +315,13 @@ func (a *App) uploadTraces(traces ...*appdash.Trace) error {
 	// ones that would collide / be merged together).
 	for _, trace := range traces {
 		_, err := a.Store.Trace(trace.Span.ID.Trace)
-		if err != appdash.ErrTraceNotFound {
+		if err == nil {
 			// The trace collides with an existing trace, ignore it.
 			continue
 		}
+		if err != appdash.ErrTraceNotFound {
+			return err
+		}
 
 		// Collect the trace (store it for later viewing).
 		if err = collectTrace(a.Store, trace); err != nil {
-- 
2.43.0


From d3e3ee815613805f2a0af8cfdc102e8d4faf1367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:58 +0000
Subject: [PATCH 19/30] fix: traceapp refuses uploads with spans of other
 traces

---
 traceapp/app.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/traceapp/app.go b/traceapp/app.go
index 13122ba..2aafdb8 100644
--- a/traceapp/app.go
+++ b/traceapp/app.go
@@ -311,6 +311,17 @@ func (a *App) serveTraceUpload(w http.ResponseWriter, r *http.Request) error {
 
 // uploadTraces uploads literal traces into the storage system for later viewing.
 func (a *App) uploadTraces(traces ...*appdash.Trace) error {
+	// Refuse traces that would leave annotations in another (possibly existing)
+	// trace.
+	for _, trace := range traces {
+		if trace == nil {
+			return errors.New("uploaded trace is null")
+		}
+		if err := validateUpload(trace.ID.Trace, trace); err != nil {
+			return err
+		}
+	}
+
 	// Collect the unmarshaled traces, ignoring any previously existing ones (i.e.
 	// ones that would collide / be merged together).
 	for _, trace := range traces {
@@ -330,3 +341,20 @@ func (a *App) uploadTraces(traces ...*appdash.Trace) error {
 	}
 	return nil
 }
+
+// validateUpload returns an error unless t and all of its sub-spans are spans of
+// the given trace.
+func validateUpload(traceID appdash.ID, t *appdash.Trace) error {
+	if t == nil {
+		return fmt.Errorf("uploaded trace %v has a null sub-span", traceID)
+	}
+	if t.ID.Trace != traceID {
+		return fmt.Errorf("uploaded trace %v has span %v of another trace", traceID, t.ID)
+	}
+	for _, sub := range t.Sub {
+		if err := validateUpload(traceID, sub); err != nil {
+			return err
+		}
+	}
+	return nil
+}
-- 
2.43.0


From fa3d26f823f36bc08d28054e33f2004c7fc0ab1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:00 +0000
Subject: [PATCH 20/30] fix: traceapp handles concurrent uploads of the same
 trace

---
 traceapp/app.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/traceapp/app.go b/traceapp/app.go
index 2aafdb8..fc5385c 100644
--- a/traceapp/app.go
+++ b/traceapp/app.go
@@ -46,6 +46,8 @@ type App struct {
 	tmplLock sync.Mutex
 	tmpls    map[string]*htmpl.Template
 
+	uploadLock sync.Mutex // held while a trace is looked up and stored if absent
+
 	Log     *log.Logger
 	baseURL *url.URL
 }
@@ -322,6 +324,10 @@ func (a *App) uploadTraces(traces ...*appdash.Trace) error {
 		}
 	}
 
+	// Other uploads of the same traces must see either none or all of them.
+	a.uploadLock.Lock()
+	defer a.uploadLock.Unlock()
+
 	// Collect the unmarshaled traces, ignoring any previously existing ones (i.e.
 	// ones that would collide / be merged together).
 	for _, trace := range traces {
-- 
2.43.0


From cc5320cbccf23d4ee0ef5dc7d414b66d658dd887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:55 +0000
Subject: [PATCH 21/30] fix: PersistEvery works when the file is not in the
 file system of the temporary files

---
 store.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/store.go b/store.go
index a35e351..f146453 100644
--- a/store.go
+++ b/store.go
@@ -7,6 +7,7 @@ import (
 	"io/ioutil"
 	"log"
 	"os"
+	"path/filepath"
 	"sync"
 	"time"
 )
@@ -415,23 +416,28 @@ func PersistEvery(s PersistentStore, interval time.Duration, file string) error
 	for {
 		time.Sleep(interval)
 
-		f, err := ioutil.TempFile("", "appdash")
+		// A file can be renamed only within a file system.
+		f, err := ioutil.TempFile(filepath.Dir(file), "appdash")
 		if err != nil {
 			return err
 		}
 		if err := s.Write(f); err != nil {
 			f.Close()
+			os.Remove(f.Name())
 			return err
 		}
 		// The data must reach the disk before the rename does.
 		if err := f.Sync(); err != nil {
 			f.Close()
+			os.Remove(f.Name())
 			return err
 		}
 		if err := f.Close(); err != nil {
+			os.Remove(f.Name())
 			return err
 		}
 		if err := os.Rename(f.Name(), file); err != nil {
+			os.Remove(f.Name())
 			return err
 		}
 	}
-- 
2.43.0


From ab1c64ca5b870454d097c51804e4d52cf6b59a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:21 +0000
Subject: [PATCH 22/30] fix: LimitStore counted traces deleted through it, and
 evicted others in their stead

---
 store.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/store.go b/store.go
index f146453..6dd3d61 100644
--- a/store.go
+++ b/store.go
@@ -652,3 +652,38 @@ func (ls *LimitStore) Collect(id SpanID, anns ...Annotation) error {
 
 	return ls.DeleteStore.Collect(id, anns...)
 }
+
+// Delete calls the underlying store's Delete. The deleted traces no longer
+// count towards the limit.
+func (ls *LimitStore) Delete(traces ...ID) error {
+	ls.mu.Lock()
+	defer ls.mu.Unlock()
+	if err := ls.DeleteStore.Delete(traces...); err != nil {
+		return err
+	}
+
+	deleted := make(map[ID]struct{}, len(traces))
+	for _, id := range traces {
+		if _, ok := ls.traces[id]; ok {
+			deleted[id] = struct{}{}
+		}
+	}
+	if len(deleted) == 0 {
+		return nil
+	}
+
+	// Close the gaps in the ring, keeping the order of the remaining traces.
+	n := len(ls.traces)
+	ring := make([]int64, 0, ls.Max)
+	for i := 0; i < n; i++ {
+		id := ls.ring[(ls.nextInsertIdx-n+i+ls.Max)%ls.Max]
+		if _, ok := deleted[ID(id)]; ok {
+			delete(ls.traces, ID(id))
+		} else {
+			ring = append(ring, id)
+		}
+	}
+	ls.ring = ring[:ls.Max]
+	ls.nextInsertIdx = len(ring) % ls.Max
+	return nil
+}
-- 
2.43.0


From c6073ae8c63a3d0d5d168faf1157e71746dea0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:23 +0000
Subject: [PATCH 23/30] fix: RecentStore: a trace deleted through the store and
 collected again is a new one

---
 store.go | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/store.go b/store.go
index 6dd3d61..7b4b86e 100644
--- a/store.go
+++ b/store.go
@@ -470,18 +470,17 @@ type RecentStore struct {
 	// lastEvicted is the last time the eviction process was run.
 	lastEvicted time.Time
 
-	// evicting is whether a deletion of evicted traces is under way.
-	evicting bool
+	deleting sync.Mutex // deleting is held while traces are deleted
 
-	mu sync.Mutex // mu guards created, lastEvicted and evicting
+	mu sync.Mutex // mu guards created and lastEvicted
 }
 
 // firstSeen is the time a trace was first seen.
 type firstSeen struct {
 	time.Time
 
-	// unsure is whether the trace was collected or its deletion failed while
-	// it was being evicted, such that it is not known whether it is stored.
+	// unsure is whether it is not known whether the trace is stored: it was
+	// collected while it was being deleted, or its deletion failed.
 	unsure bool
 }
 
@@ -496,7 +495,7 @@ func (rs *RecentStore) Collect(id SpanID, anns ...Annotation) error {
 	if seen, present := rs.created[id.Trace]; !present || seen.unsure {
 		rs.created[id.Trace] = firstSeen{Time: time.Now()}
 	}
-	if !rs.evicting && time.Since(rs.lastEvicted) > rs.MinEvictAge {
+	if time.Since(rs.lastEvicted) > rs.MinEvictAge && rs.deleting.TryLock() {
 		rs.evictBefore(time.Now().Add(-1 * rs.MinEvictAge))
 	}
 	rs.mu.Unlock()
@@ -513,6 +512,31 @@ func (rs *RecentStore) Collect(id SpanID, anns ...Annotation) error {
 	return err
 }
 
+// Delete calls the underlying store's Delete. A deleted trace that comes back
+// is a new one, as old as its first collection since.
+func (rs *RecentStore) Delete(traces ...ID) error {
+	rs.deleting.Lock()
+	defer rs.deleting.Unlock()
+
+	rs.mu.Lock()
+	for _, id := range traces {
+		delete(rs.created, id)
+	}
+	rs.mu.Unlock()
+
+	err := rs.DeleteStore.Delete(traces...)
+
+	rs.mu.Lock()
+	for _, id := range traces {
+		if _, present := rs.created[id]; present || (err != nil && rs.created != nil) {
+			// Collected during the deletion, or perhaps not deleted.
+			rs.created[id] = firstSeen{Time: time.Now(), unsure: true}
+		}
+	}
+	rs.mu.Unlock()
+	return err
+}
+
 // addStored makes the traces that are in the underlying store already (which
 // may have been loaded from a file) subject to eviction, as if they were first
 // seen now.
@@ -536,7 +560,8 @@ func (rs *RecentStore) addStored() {
 }
 
 // evictBefore evicts traces that were created before t. The rs.mu lock
-// must be held while calling evictBefore.
+// must be held while calling evictBefore, and rs.deleting, which evictBefore
+// releases in the end.
 func (rs *RecentStore) evictBefore(t time.Time) {
 	evictStart := time.Now()
 	rs.lastEvicted = evictStart
@@ -552,6 +577,7 @@ func (rs *RecentStore) evictBefore(t time.Time) {
 		}
 	}
 	if len(toEvict)+len(unsure) == 0 {
+		rs.deleting.Unlock()
 		return
 	}
 
@@ -560,8 +586,8 @@ func (rs *RecentStore) evictBefore(t time.Time) {
 	}
 
 	// Spawn separate goroutine so we don't hold the rs.mu lock.
-	rs.evicting = true
 	go func() {
+		defer rs.deleting.Unlock()
 		deleteStart := time.Now()
 		for _, id := range unsure {
 			// Delete it only if it is still there: it must not be deleted
@@ -591,7 +617,6 @@ func (rs *RecentStore) evictBefore(t time.Time) {
 				rs.created[id] = firstSeen{unsure: true} // try again
 			}
 		}
-		rs.evicting = false
 		rs.mu.Unlock()
 
 		if rs.Debug {
-- 
2.43.0


From 1e8b836ffca05632529d679919ab1bbdbc3cccae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:34 +0000
Subject: [PATCH 24/30] fix: events lost the precision of float64 fields

---
 reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reflect.go b/reflect.go
index fe33dba..47775fb 100644
--- a/reflect.go
+++ b/reflect.go
@@ -118,7 +118,7 @@ func parseValueToPtr(as reflect.Type, s string) (reflect.Value, error) {
 		}
 		return reflect.ValueOf(&vv), nil
 	case reflect.Float32, reflect.Float64:
-		vv, err := strconv.ParseFloat(s, 32)
+		vv, err := strconv.ParseFloat(s, as.Bits())
 		if err != nil {
 			return reflect.Value{}, err
 		}
-- 
2.43.0


From bae930e8ba2659244ee86bab0964722d8bf9f341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:37 +0000
Subject: [PATCH 25/30] fix: events changed duration fields by a nanosecond

---
 reflect.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/reflect.go b/reflect.go
index 47775fb..7453fc2 100644
--- a/reflect.go
+++ b/reflect.go
@@ -2,6 +2,7 @@ package appdash
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"sort"
 	"strconv"
@@ -99,12 +100,13 @@ func parseValueToPtr(as reflect.Type, s string) (reflect.Value, error) {
 		}
 		return reflect.ValueOf(&t), nil
 	case [2]string{"time", "Duration"}:
-		// Multiply by 1000 because flattenValue divides by 1000.
-		usec, err := strconv.ParseFloat(s, 64)
+		// flattenValue divides by time.Millisecond; round, because neither
+		// the quotient nor the product is exact.
+		msec, err := strconv.ParseFloat(s, 64)
 		if err != nil {
 			return reflect.Value{}, err
 		}
-		d := time.Duration(usec * float64(time.Millisecond))
+		d := time.Duration(math.Round(msec * float64(time.Millisecond)))
 		return reflect.ValueOf(&d), nil
 	}
 
-- 
2.43.0


From 5b18d4ea7b4e53031544eccf4f5e0ab047734bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:39 +0000
Subject: [PATCH 26/30] fix: events lost the fields after an empty slice

---
 reflect.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/reflect.go b/reflect.go
index 7453fc2..10e6c2c 100644
--- a/reflect.go
+++ b/reflect.go
@@ -186,9 +186,17 @@ func unflattenValue(prefix string, v reflect.Value, t reflect.Type, kv *[][2]str
 	if len(*kv) == 0 {
 		return nil
 	}
-	if !strings.HasPrefix((*kv)[0][0], prefix) && t.Kind() != reflect.Map { // map can have 0 fields
-		*kv = (*kv)[1:]
-		return unflattenValue(prefix, v, t, kv)
+	if t.Kind() != reflect.Map { // map can have 0 fields
+		// Skip the keys before this value's. If it has none (an empty slice
+		// or a nil pointer has none), leave them for the values that follow.
+		i := 0
+		for i < len(*kv) && !isNested(prefix, (*kv)[i][0]) {
+			i++
+		}
+		if i == len(*kv) {
+			return nil
+		}
+		*kv = (*kv)[i:]
 	}
 
 	if v.IsValid() {
@@ -360,3 +368,9 @@ func nest(prefix, name string) string {
 	}
 	return prefix + "." + name
 }
+
+// isNested returns whether key is the key of the value at the given prefix or
+// of a value nested in it.
+func isNested(prefix, key string) bool {
+	return prefix == "" || key == prefix || strings.HasPrefix(key, prefix+".")
+}
-- 
2.43.0


From 482b7171cf0dfa20e9cdb353480ff5a27846cb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:41 +0000
Subject: [PATCH 27/30] fix: events with nil pointer fields panicked the
 recorder, others the reader

---
 reflect.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/reflect.go b/reflect.go
index 10e6c2c..82f52d1 100644
--- a/reflect.go
+++ b/reflect.go
@@ -12,6 +12,10 @@ import (
 )
 
 func flattenValue(prefix string, v reflect.Value, f func(k, v string)) {
+	if v.Kind() == reflect.Ptr && v.IsNil() {
+		return // no value
+	}
+
 	switch o := v.Interface().(type) {
 	case time.Time:
 		f(prefix, o.Format(time.RFC3339Nano))
@@ -20,6 +24,9 @@ func flattenValue(prefix string, v reflect.Value, f func(k, v string)) {
 		ms := float64(o.Nanoseconds()) / float64(time.Millisecond)
 		f(prefix, strconv.FormatFloat(ms, 'f', -1, 64))
 		return
+	case *time.Time, *time.Duration:
+		flattenValue(prefix, v.Elem(), f)
+		return
 	case fmt.Stringer:
 		f(prefix, o.String())
 		return
@@ -220,6 +227,14 @@ func unflattenValue(prefix string, v reflect.Value, t reflect.Type, kv *[][2]str
 
 	switch t.Kind() {
 	case reflect.Ptr:
+		if v.Kind() == reflect.Ptr && v.CanSet() { // pointer field
+			p := reflect.New(t.Elem())
+			if err := unflattenValue(prefix, p.Elem(), t.Elem(), kv); err != nil {
+				return err
+			}
+			v.Set(p)
+			return nil
+		}
 		return unflattenValue(prefix, v, t.Elem(), kv)
 	case reflect.Interface:
 		return unflattenValue(prefix, v.Elem(), v.Type(), kv)
-- 
2.43.0


From 203a2b5504e81011c1ce6e2a3e7cbeb37242c03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:20 +0000
Subject: [PATCH 28/30] fix: timeline: every bar of the root span got the first
 event's duration

The label of each time of the root was computed from its first time.
---
 traceapp/vis.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceapp/vis.go b/traceapp/vis.go
index 3fe0afd..b52d6b4 100644
--- a/traceapp/vis.go
+++ b/traceapp/vis.go
@@ -125,7 +125,7 @@ func (a *App) d3timelineInner(t *appdash.Trace, depth int) ([]timelineItem, erro
 		}
 	}
 	for _, ts := range item.Times {
-		msec := time.Duration(item.Times[0].End-item.Times[0].Start) * time.Millisecond
+		msec := time.Duration(ts.End-ts.Start) * time.Millisecond
 		if msec > 0 {
 			ts.Label = fmt.Sprintf("%s (%s)", item.Label, msec)
 			ts.Duration = int64(msec)
-- 
2.43.0


From b5f4b8bc6f4e3ca90613917ad9ca3a8caf3804ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:22 +0000
Subject: [PATCH 29/30] fix: aggregate view: sums came out one too big,
 depending on the map order

The minimum of 1 was applied after each addition, so an operation whose
first summand was 0 got 1 too much. It is now applied to the sum.
---
 traceapp/aggregate.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/traceapp/aggregate.go b/traceapp/aggregate.go
index 0a4c31e..d573052 100644
--- a/traceapp/aggregate.go
+++ b/traceapp/aggregate.go
@@ -56,9 +56,6 @@ func (a *App) aggregate(traces []*appdash.Trace, mode aggMode) ([]*aggItem, erro
 
 		// Perform aggregation.
 		i.Value += value
-		if i.Value == 0 {
-			i.Value = 1 // Must be positive values or else d3pie won't render.
-		}
 	}
 
 	for _, trace := range traces {
@@ -85,6 +82,9 @@ func (a *App) aggregate(traces []*appdash.Trace, mode aggMode) ([]*aggItem, erro
 	// Form an array (d3pie needs a JSON array, not a map).
 	list := make([]*aggItem, 0, len(aggregated))
 	for _, item := range aggregated {
+		if item.Value == 0 {
+			item.Value = 1 // Must be positive values or else d3pie won't render.
+		}
 		list = append(list, item)
 	}
 	return list, nil
-- 
2.43.0


From ddfeac505cfb399dcc4fb308228092b21305bbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:10 +0000
Subject: [PATCH 30/30] fix: the send command reported success although nothing
 could be sent

Errors were checked before Finish, which is when a recorder collects, and
never for the root span.
---
 cmd/appdash/sample_data.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmd/appdash/sample_data.go b/cmd/appdash/sample_data.go
index bfc44e4..714c1bf 100644
--- a/cmd/appdash/sample_data.go
+++ b/cmd/appdash/sample_data.go
@@ -52,6 +52,12 @@ func sampleData(c appdash.Collector) error {
 		})
 		traceRec.Finish()
 
+		// Check for any recorder errors. Nothing is collected before Finish, so
+		// this must come after it.
+		if errs := traceRec.Errors(); len(errs) > 0 {
+			return fmt.Errorf("recorder errors: %v", errs)
+		}
+
 		// We'll split the trace into N (3-7) spans (i.e. "N operations") each with
 		// a random duration of time adding up to the length of the trace.
 		numSpans := rand.Intn(7-3) + 3
@@ -83,13 +89,13 @@ func sampleData(c appdash.Collector) error {
 			// Shift the start time forward.
 			startTime = startTime.Add(spanDuration)
 
+			lastSpanID = spanID
+			rec.Finish()
+
 			// Check for any recorder errors.
 			if errs := rec.Errors(); len(errs) > 0 {
 				return fmt.Errorf("recorder errors: %v", errs)
 			}
-
-			lastSpanID = spanID
-			rec.Finish()
 		}
 	}
 	return nil
-- 
2.43.0

