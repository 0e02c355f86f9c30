From a6d835f2a0655fcc5548fa52ea01eefb1b143afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:58 +0000
Subject: [PATCH 01/43] fix: reading a span's attributes no longer changes
 which one is evicted next

---
 trace/lrumap.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/trace/lrumap.go b/trace/lrumap.go
index 80095a5..6fd7e66 100644
--- a/trace/lrumap.go
+++ b/trace/lrumap.go
@@ -18,22 +18,23 @@ import (
 	"github.com/golang/groupcache/lru"
 )
 
-// A simple lru.Cache wrapper that tracks the keys of the current contents and
-// the cumulative number of evicted items.
+// A simple lru.Cache wrapper that tracks the current contents and the
+// cumulative number of evicted items. Contents are kept beside the cache so
+// that reading them does not change which item is evicted next.
 type lruMap struct {
-	cacheKeys    map[lru.Key]bool
+	contents     map[lru.Key]interface{}
 	cache        *lru.Cache
 	droppedCount int
 }
 
 func newLruMap(size int) *lruMap {
 	lm := &lruMap{
-		cacheKeys:    make(map[lru.Key]bool),
+		contents:     make(map[lru.Key]interface{}),
 		cache:        lru.New(size),
 		droppedCount: 0,
 	}
 	lm.cache.OnEvicted = func(key lru.Key, value interface{}) {
-		delete(lm.cacheKeys, key)
+		delete(lm.contents, key)
 		lm.droppedCount++
 	}
 	return lm
@@ -44,18 +45,19 @@ func (lm lruMap) len() int {
 }
 
 func (lm lruMap) keys() []interface{} {
-	keys := make([]interface{}, 0, len(lm.cacheKeys))
-	for k := range lm.cacheKeys {
+	keys := make([]interface{}, 0, len(lm.contents))
+	for k := range lm.contents {
 		keys = append(keys, k)
 	}
 	return keys
 }
 
 func (lm *lruMap) add(key, value interface{}) {
-	lm.cacheKeys[lru.Key(key)] = true
+	lm.contents[lru.Key(key)] = value
 	lm.cache.Add(lru.Key(key), value)
 }
 
 func (lm *lruMap) get(key interface{}) (interface{}, bool) {
-	return lm.cache.Get(key)
+	value, ok := lm.contents[lru.Key(key)]
+	return value, ok
 }
-- 
2.43.0


From 8756023c697a57033312367b30272f8746993851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:37 +0000
Subject: [PATCH 02/43] fix: tracestate.New no longer retains or writes to the
 caller's entries

---
 trace/tracestate/tracestate.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trace/tracestate/tracestate.go b/trace/tracestate/tracestate.go
index 2d6c713..92c437b 100644
--- a/trace/tracestate/tracestate.go
+++ b/trace/tracestate/tracestate.go
@@ -81,7 +81,10 @@ func (ts *Tracestate) add(entries []Entry) error {
 		return fmt.Errorf("adding %d key-value pairs to current %d pairs exceeds the limit of %d",
 			len(entries), len(ts.entries), maxKeyValuePairs)
 	}
-	ts.entries = append(entries, ts.entries...)
+	// Copy, so that the caller's slice is neither retained nor written to.
+	combined := make([]Entry, 0, len(entries)+len(ts.entries))
+	combined = append(combined, entries...)
+	ts.entries = append(combined, ts.entries...)
 	return nil
 }
 
-- 
2.43.0


From 1de7c92be20a82fd407162d33d2738f7a7a82ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:40 +0000
Subject: [PATCH 03/43] fix: reject traceparent headers whose flags are not
 exactly two hex digits

---
 plugin/ochttp/propagation/tracecontext/propagation.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plugin/ochttp/propagation/tracecontext/propagation.go b/plugin/ochttp/propagation/tracecontext/propagation.go
index 48d8152..ea74565 100644
--- a/plugin/ochttp/propagation/tracecontext/propagation.go
+++ b/plugin/ochttp/propagation/tracecontext/propagation.go
@@ -96,8 +96,11 @@ func (f *HTTPFormat) SpanContextFromHeaders(tp string, ts string) (sc trace.Span
 	}
 	copy(sc.SpanID[:], sid)
 
+	if len(sections[3]) != 2 {
+		return trace.SpanContext{}, false
+	}
 	opts, err := hex.DecodeString(sections[3])
-	if err != nil || len(opts) < 1 {
+	if err != nil {
 		return trace.SpanContext{}, false
 	}
 	sc.TraceOptions = trace.TraceOptions(opts[0])
-- 
2.43.0


From fb73b5203edd24628bcb5d0bca462bc4703b71e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 04/43] fix: a hostile length in an encoded tag map no longer
 panics the decoder

---
 tag/map_codec.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tag/map_codec.go b/tag/map_codec.go
index c242e69..74b5769 100644
--- a/tag/map_codec.go
+++ b/tag/map_codec.go
@@ -126,10 +126,10 @@ func (eg *encoderGRPC) readBytesWithVarintLen() ([]byte, error) {
 	}
 
 	valueStart += eg.readIdx
-	valueEnd := valueStart + int(length)
-	if valueEnd > len(eg.buf) {
-		return nil, fmt.Errorf("malformed encoding: length:%v, upper:%v, maxLength:%v", length, valueEnd, len(eg.buf))
+	if length > uint64(len(eg.buf)-valueStart) {
+		return nil, fmt.Errorf("malformed encoding: length:%v, start:%v, maxLength:%v", length, valueStart, len(eg.buf))
 	}
+	valueEnd := valueStart + int(length)
 
 	eg.readIdx = valueEnd
 	return eg.buf[valueStart:valueEnd], nil
-- 
2.43.0


From 8f7a96c0875e4c2dfae7dd89ba88327f83a933f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 05/43] fix: tag.Do runs its function when the context carries
 no tags

---
 tag/profile_19.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tag/profile_19.go b/tag/profile_19.go
index 8fb1722..5435c8e 100644
--- a/tag/profile_19.go
+++ b/tag/profile_19.go
@@ -24,6 +24,9 @@ import (
 
 func do(ctx context.Context, f func(ctx context.Context)) {
 	m := FromContext(ctx)
+	if m == nil {
+		m = newMap()
+	}
 	keyvals := make([]string, 0, 2*len(m.m))
 	for k, v := range m.m {
 		keyvals = append(keyvals, k.Name(), v.value)
-- 
2.43.0


From 292bfd4c5f06e5b0c690e79b3b3913d4fc1c8d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 06/43] fix: tracez lists the spans of the latency bands the
 summary counts

---
 zpages/tracez.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/zpages/tracez.go b/zpages/tracez.go
index 330022c..c9238ee 100644
--- a/zpages/tracez.go
+++ b/zpages/tracez.go
@@ -52,7 +52,7 @@ var (
 		100 * time.Millisecond,
 		time.Second,
 		10 * time.Second,
-		100 * time.Second,
+		time.Minute,
 	}
 	canonicalCodes = [...]string{
 		"OK",
@@ -416,11 +416,7 @@ func getSummaryPageData() summaryPageData {
 		if len(data.Header) == 0 {
 			data.Header = []string{"Name", "Active"}
 			for _, b := range s.LatencyBuckets {
-				l := b.MinLatency
-				s := fmt.Sprintf(">%v", l)
-				if l == 100*time.Second {
-					s = ">100s"
-				}
+				s := fmt.Sprintf(">%v", b.MinLatency)
 				data.Header = append(data.Header, s)
 				data.LatencyBucketNames = append(data.LatencyBucketNames, s)
 			}
-- 
2.43.0


From 430b9dc8868677323ea615aec470d20ab2b14c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 07/43] fix: tracez error listings honor the requested error
 code

---
 zpages/tracez.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zpages/tracez.go b/zpages/tracez.go
index c9238ee..5dc5f3a 100644
--- a/zpages/tracez.go
+++ b/zpages/tracez.go
@@ -353,7 +353,7 @@ func traceSpans(spanName string, spanType, spanSubtype int) []*trace.SpanData {
 		}
 		spans = internalTrace.ReportSpansByLatency(spanName, min, max)
 	case 2: // error
-		spans = internalTrace.ReportSpansByError(spanName, 0)
+		spans = internalTrace.ReportSpansByError(spanName, int32(spanSubtype))
 	}
 	return spans
 }
-- 
2.43.0


From d682e7963d88fb268688ac84be9959363eeac65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 08/43] fix: serve the static files the z-pages link to

---
 zpages/zpages.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zpages/zpages.go b/zpages/zpages.go
index 7ee2c2e..ab4d901 100644
--- a/zpages/zpages.go
+++ b/zpages/zpages.go
@@ -33,6 +33,7 @@ package zpages // import "go.opencensus.io/zpages"
 import (
 	"net/http"
 	"path"
+	"strings"
 	"sync"
 
 	"go.opencensus.io/internal"
@@ -57,7 +58,10 @@ func Handle(mux *http.ServeMux, pathPrefix string) {
 	}
 	mux.HandleFunc(path.Join(pathPrefix, "rpcz"), rpczHandler)
 	mux.HandleFunc(path.Join(pathPrefix, "tracez"), tracezHandler)
-	mux.Handle(path.Join(pathPrefix, "public/"), http.FileServer(fs))
+	public := path.Join(pathPrefix, "public")
+	// Static files are rooted at "/public", below any host and prefix.
+	root := strings.TrimSuffix(public[strings.Index(public, "/"):], "/public")
+	mux.Handle(public+"/", http.StripPrefix(root, http.FileServer(fs)))
 }
 
 var enableOnce sync.Once
-- 
2.43.0


From 1d77fb8f954600c110e0ebcd1fd9732e48300320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 09/43] fix: rpcz shows the input rate of received RPCs

---
 zpages/rpcz.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zpages/rpcz.go b/zpages/rpcz.go
index ef4dd15..6afd712 100644
--- a/zpages/rpcz.go
+++ b/zpages/rpcz.go
@@ -301,6 +301,9 @@ func (s snapExporter) ExportView(vd *view.Data) {
 		case ocgrpc.ServerLatencyView:
 			s.AvgLatencyTotal = convertTime(sum / count)
 
+		case ocgrpc.ServerReceivedBytesPerRPCView:
+			s.InputRateTotal = computeRate(0, sum)
+
 		case ocgrpc.ServerSentBytesPerRPCView:
 			s.OutputRateTotal = computeRate(0, sum)
 
-- 
2.43.0


From 2cf60515d1bcaacd89aed27271a8f581c3edbfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:45 +0000
Subject: [PATCH 10/43] fix: the text rpcz page no longer heads a column it
 does not have

---
 zpages/rpcz.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zpages/rpcz.go b/zpages/rpcz.go
index 6afd712..5405cff 100644
--- a/zpages/rpcz.go
+++ b/zpages/rpcz.go
@@ -108,8 +108,8 @@ func WriteTextRpczPage(w io.Writer) {
 			fmt.Fprint(w, "\nReceived:\n")
 		}
 		tw := tabwriter.NewWriter(w, 6, 8, 1, ' ', 0)
-		fmt.Fprint(tw, "Method\tCount\t\t\tAvgLat\t\t\tMaxLat\t\t\tRate\t\t\tIn (MiB/s)\t\t\tOut (MiB/s)\t\t\tErrors\t\t\n")
-		fmt.Fprint(tw, "\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\n")
+		fmt.Fprint(tw, "Method\tCount\t\t\tAvgLat\t\t\tRate\t\t\tIn (MiB/s)\t\t\tOut (MiB/s)\t\t\tErrors\t\t\n")
+		fmt.Fprint(tw, "\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\n")
 		for _, s := range sg.Snapshots {
 			fmt.Fprintf(tw, "%s\t%d\t%d\t%d\t%v\t%v\t%v\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%d\t%d\t%d\n",
 				s.Method,
-- 
2.43.0


From 15c6b126a0d3bc903dcf0a6dc5e58b89409bd7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:09 +0000
Subject: [PATCH 11/43] fix: the maximum of a distribution of non-positive
 values is right

---
 stats/view/aggregation_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stats/view/aggregation_data.go b/stats/view/aggregation_data.go
index d93b520..03a333d 100644
--- a/stats/view/aggregation_data.go
+++ b/stats/view/aggregation_data.go
@@ -149,7 +149,7 @@ func newDistributionData(agg *Aggregation, t time.Time) *DistributionData {
 		ExemplarsPerBucket: make([]*metricdata.Exemplar, bucketCount),
 		bounds:             agg.Buckets,
 		Min:                math.MaxFloat64,
-		Max:                math.SmallestNonzeroFloat64,
+		Max:                -math.MaxFloat64,
 		Start:              t,
 	}
 }
-- 
2.43.0


From 83082179ede6057e80d472be2d2deb16d612cd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:11 +0000
Subject: [PATCH 12/43] fix: registering a view no longer writes to shared,
 already canonical definitions

---
 stats/view/view.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/stats/view/view.go b/stats/view/view.go
index 293b54e..97e674c 100644
--- a/stats/view/view.go
+++ b/stats/view/view.go
@@ -21,6 +21,7 @@ import (
 	"fmt"
 	"reflect"
 	"sort"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -73,9 +74,16 @@ func (v *View) same(other *View) bool {
 // Deprecated: this should not be public.
 var ErrNegativeBucketBounds = errors.New("negative bucket bounds not supported")
 
+var canonicalizeMu sync.Mutex
+
 // canonicalize canonicalizes v by setting explicit
 // defaults for Name and Description and sorting the TagKeys
+//
+// Views and aggregations may be shared, also between Meters: what is canonical
+// already is not written to, and what is not is written under a lock.
 func (v *View) canonicalize() error {
+	canonicalizeMu.Lock()
+	defer canonicalizeMu.Unlock()
 	if v.Measure == nil {
 		return fmt.Errorf("cannot register view %q: measure not set", v.Name)
 	}
@@ -101,7 +109,9 @@ func (v *View) canonicalize() error {
 		}
 	}
 	// drop 0 bucket silently.
-	v.Aggregation.Buckets = dropZeroBounds(v.Aggregation.Buckets...)
+	if b := v.Aggregation.Buckets; len(b) > 0 && b[0] == 0 {
+		v.Aggregation.Buckets = dropZeroBounds(b...)
+	}
 
 	return nil
 }
-- 
2.43.0


From 4ca61007aee6a0efea67262111c3a91c26d9c8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 13/43] fix: unregistering a view no longer races with reading
 its metrics

---
 stats/view/worker_commands.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stats/view/worker_commands.go b/stats/view/worker_commands.go
index 9ac4cc0..abe970e 100644
--- a/stats/view/worker_commands.go
+++ b/stats/view/worker_commands.go
@@ -98,12 +98,13 @@ func (cmd *unregisterFromViewReq) handleCommand(w *worker) {
 		w.reportView(vi)
 
 		vi.unsubscribe()
+		// Out of reach of concurrent reads first.
+		w.unregisterView(vi)
 		if !vi.isSubscribed() {
 			// this was the last subscription and view is not collecting anymore.
 			// The collected data can be cleared.
 			vi.clearRows()
 		}
-		w.unregisterView(vi)
 	}
 	cmd.done <- struct{}{}
 }
-- 
2.43.0


From 0dfbe344b3e27f196f556d90c1e6d30733180787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:15 +0000
Subject: [PATCH 14/43] fix: setting a meter's resource no longer races with
 reading its metrics

---
 stats/view/worker.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stats/view/worker.go b/stats/view/worker.go
index 6a79cd8..ee37b05 100644
--- a/stats/view/worker.go
+++ b/stats/view/worker.go
@@ -277,6 +277,8 @@ func NewMeter() Meter {
 // it is not provided when used with ExportView/RegisterExporter, because that
 // interface does not provide a means for reporting the Resource.
 func (w *worker) SetResource(r *resource.Resource) {
+	w.mu.Lock()
+	defer w.mu.Unlock()
 	w.r = r
 }
 
-- 
2.43.0


From c5fd4cf0208b09826768f66ea2546ebaad3adc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:17 +0000
Subject: [PATCH 15/43] fix: recording a zero Measurement is ignored instead of
 panicking

---
 stats/measure.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stats/measure.go b/stats/measure.go
index 1ffd3ce..bb9e178 100644
--- a/stats/measure.go
+++ b/stats/measure.go
@@ -65,7 +65,7 @@ func (m *measureDescriptor) subscribe() {
 }
 
 func (m *measureDescriptor) subscribed() bool {
-	return atomic.LoadInt32(&m.subs) == 1
+	return m != nil && atomic.LoadInt32(&m.subs) == 1
 }
 
 var (
-- 
2.43.0


From 5a3539e35bd194e7a88adaf67aded5bb85fafd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:19 +0000
Subject: [PATCH 16/43] fix: a stopped meter ignores calls instead of
 panicking, and is no longer read

---
 stats/view/worker.go | 62 +++++++++++++++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 18 deletions(-)

diff --git a/stats/view/worker.go b/stats/view/worker.go
index ee37b05..475415c 100644
--- a/stats/view/worker.go
+++ b/stats/view/worker.go
@@ -16,6 +16,7 @@
 package view
 
 import (
+	"errors"
 	"fmt"
 	"sync"
 	"time"
@@ -49,6 +50,7 @@ type worker struct {
 	timer      *time.Ticker
 	c          chan command
 	quit, done chan bool
+	stopOnce   sync.Once
 	mu         sync.RWMutex
 	r          *resource.Resource
 
@@ -115,6 +117,8 @@ var _ Meter = (*worker)(nil)
 
 var defaultWorker *worker
 
+var errStopped = errors.New("the meter is stopped")
+
 var defaultReportingDuration = 10 * time.Second
 
 // Find returns a registered view associated with this name.
@@ -130,9 +134,13 @@ func (w *worker) Find(name string) (v *View) {
 		name: name,
 		c:    make(chan *getViewByNameResp),
 	}
-	w.c <- req
-	resp := <-req.c
-	return resp.v
+	w.send(req)
+	select {
+	case resp := <-req.c:
+		return resp.v
+	case <-w.done:
+		return nil
+	}
 }
 
 // Register begins collecting data for the given views.
@@ -148,8 +156,13 @@ func (w *worker) Register(views ...*View) error {
 		views: views,
 		err:   make(chan error),
 	}
-	w.c <- req
-	return <-req.err
+	w.send(req)
+	select {
+	case err := <-req.err:
+		return err
+	case <-w.done:
+		return errStopped
+	}
 }
 
 // Unregister the given views. Data will not longer be exported for these views
@@ -173,8 +186,11 @@ func (w *worker) Unregister(views ...*View) {
 		views: names,
 		done:  make(chan struct{}),
 	}
-	w.c <- req
-	<-req.done
+	w.send(req)
+	select {
+	case <-req.done:
+	case <-w.done:
+	}
 }
 
 // RetrieveData gets a snapshot of the data collected for the the view registered
@@ -191,9 +207,13 @@ func (w *worker) RetrieveData(viewName string) ([]*Row, error) {
 		v:   viewName,
 		c:   make(chan *retrieveDataResp),
 	}
-	w.c <- req
-	resp := <-req.c
-	return resp.rows, resp.err
+	w.send(req)
+	select {
+	case resp := <-req.c:
+		return resp.rows, resp.err
+	case <-w.done:
+		return nil, errStopped
+	}
 }
 
 func record(tags *tag.Map, ms interface{}, attachments map[string]interface{}) {
@@ -218,7 +238,7 @@ func (w *worker) recordMeasurement(tags *tag.Map, ms []stats.Measurement, attach
 		attachments: attachments,
 		t:           time.Now(),
 	}
-	w.c <- req
+	w.send(req)
 }
 
 // SetReportingPeriod sets the interval between reporting aggregated views in
@@ -251,8 +271,11 @@ func (w *worker) SetReportingPeriod(d time.Duration) {
 		d: d,
 		c: make(chan bool),
 	}
-	w.c <- req
-	<-req.c // don't return until the timer is set to the new duration.
+	w.send(req)
+	select {
+	case <-req.c: // don't return until the timer is set to the new duration.
+	case <-w.done:
+	}
 }
 
 // NewMeter constructs a Meter instance. You should only need to use this if
@@ -298,7 +321,6 @@ func (w *worker) start() {
 			w.reportUsage()
 		case <-w.quit:
 			w.timer.Stop()
-			close(w.c)
 			close(w.done)
 			return
 		}
@@ -306,14 +328,18 @@ func (w *worker) start() {
 }
 
 func (w *worker) Stop() {
+	w.stopOnce.Do(func() { close(w.quit) })
+	<-w.done
 	prodMgr := metricproducer.GlobalManager()
 	prodMgr.DeleteProducer(w)
+}
+
+// send queues a command, unless the worker has stopped.
+func (w *worker) send(cmd command) {
 	select {
-	case <-w.quit:
-	default:
-		close(w.quit)
+	case w.c <- cmd:
+	case <-w.done:
 	}
-	<-w.done
 }
 
 func (w *worker) getMeasureRef(name string) *measureRef {
-- 
2.43.0


From 034bf282f9169f22a67976b9eaf114d12e152f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:21 +0000
Subject: [PATCH 17/43] fix: recording no longer retains the caller's
 measurements and attachments

---
 stats/view/worker.go          | 14 ++++++++++----
 stats/view/worker_commands.go |  1 +
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/stats/view/worker.go b/stats/view/worker.go
index 475415c..a3e7eba 100644
--- a/stats/view/worker.go
+++ b/stats/view/worker.go
@@ -233,10 +233,16 @@ func (w *worker) Record(tags *tag.Map, ms interface{}, attachments map[string]in
 // This is the same as Record but without an interface{} type to avoid allocations
 func (w *worker) recordMeasurement(tags *tag.Map, ms []stats.Measurement, attachments map[string]interface{}) {
 	req := &recordReq{
-		tm:          tags,
-		ms:          ms,
-		attachments: attachments,
-		t:           time.Now(),
+		tm: tags,
+		t:  time.Now(),
+	}
+	// The caller may reuse its slice and map once this returns.
+	req.ms = append(req.buf[:0], ms...)
+	if attachments != nil {
+		req.attachments = make(map[string]interface{}, len(attachments))
+		for k, v := range attachments {
+			req.attachments[k] = v
+		}
 	}
 	w.send(req)
 }
diff --git a/stats/view/worker_commands.go b/stats/view/worker_commands.go
index abe970e..d55222c 100644
--- a/stats/view/worker_commands.go
+++ b/stats/view/worker_commands.go
@@ -151,6 +151,7 @@ func (cmd *retrieveDataReq) handleCommand(w *worker) {
 type recordReq struct {
 	tm          *tag.Map
 	ms          []stats.Measurement
+	buf         [4]stats.Measurement // holds ms when it fits
 	attachments map[string]interface{}
 	t           time.Time
 }
-- 
2.43.0


From cc26f9df6e3d636ecc593e4599549215eadac566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 18/43] fix: label values of 255 bytes and more no longer panic
 or collide

The length of an encoded value was cut to its low eight bits.
---
 internal/tagencoding/tagencoding.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/internal/tagencoding/tagencoding.go b/internal/tagencoding/tagencoding.go
index 41b2c3f..e280063 100644
--- a/internal/tagencoding/tagencoding.go
+++ b/internal/tagencoding/tagencoding.go
@@ -17,6 +17,8 @@
 // used interally by the stats collector.
 package tagencoding // import "go.opencensus.io/internal/tagencoding"
 
+import "encoding/binary"
+
 // Values represent the encoded buffer for the values.
 type Values struct {
 	Buffer     []byte
@@ -34,12 +36,14 @@ func (vb *Values) growIfRequired(expected int) {
 
 // WriteValue is the helper method to encode Values from map[Key][]byte.
 func (vb *Values) WriteValue(v []byte) {
-	length := len(v) & 0xff
-	vb.growIfRequired(1 + length)
+	length := len(v)
+	var prefix [binary.MaxVarintLen64]byte
+	n := binary.PutUvarint(prefix[:], uint64(length))
+	vb.growIfRequired(n + length)
 
 	// writing length of v
-	vb.Buffer[vb.WriteIndex] = byte(length)
-	vb.WriteIndex++
+	copy(vb.Buffer[vb.WriteIndex:], prefix[:n])
+	vb.WriteIndex += n
 
 	if length == 0 {
 		// No value was encoded for this key
@@ -47,15 +51,16 @@ func (vb *Values) WriteValue(v []byte) {
 	}
 
 	// writing v
-	copy(vb.Buffer[vb.WriteIndex:], v[:length])
+	copy(vb.Buffer[vb.WriteIndex:], v)
 	vb.WriteIndex += length
 }
 
 // ReadValue is the helper method to decode Values to a map[Key][]byte.
 func (vb *Values) ReadValue() []byte {
 	// read length of v
-	length := int(vb.Buffer[vb.ReadIndex])
-	vb.ReadIndex++
+	l, n := binary.Uvarint(vb.Buffer[vb.ReadIndex:])
+	length := int(l)
+	vb.ReadIndex += n
 	if length == 0 {
 		// No value was encoded for this key
 		return nil
-- 
2.43.0


From 366246f381c481f1819d7b11d311ba9f2b0eda5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 19/43] fix: concurrent use of a metric with constant labels no
 longer mixes up label values

---
 metric/common.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/metric/common.go b/metric/common.go
index 42acaae..8d2230f 100644
--- a/metric/common.go
+++ b/metric/common.go
@@ -119,8 +119,16 @@ func (bm *baseMetric) decodeLabelVals(s string) []metricdata.LabelValue {
 	return vals
 }
 
+// withConstLabelVals returns the values of all keys, in a slice of its own:
+// appending to constLabelValues could write to memory shared with other calls.
+func (bm *baseMetric) withConstLabelVals(labelVals []metricdata.LabelValue) []metricdata.LabelValue {
+	vals := make([]metricdata.LabelValue, 0, len(bm.constLabelValues)+len(labelVals))
+	vals = append(vals, bm.constLabelValues...)
+	return append(vals, labelVals...)
+}
+
 func (bm *baseMetric) entryForValues(labelVals []metricdata.LabelValue, newEntry func() baseEntry) (interface{}, error) {
-	labelVals = append(bm.constLabelValues, labelVals...)
+	labelVals = bm.withConstLabelVals(labelVals)
 	if len(labelVals) != len(bm.keys) {
 		return nil, errKeyValueMismatch
 	}
@@ -133,7 +141,7 @@ func (bm *baseMetric) entryForValues(labelVals []metricdata.LabelValue, newEntry
 }
 
 func (bm *baseMetric) upsertEntry(labelVals []metricdata.LabelValue, newEntry func() baseEntry) error {
-	labelVals = append(bm.constLabelValues, labelVals...)
+	labelVals = bm.withConstLabelVals(labelVals)
 	if len(labelVals) != len(bm.keys) {
 		return errKeyValueMismatch
 	}
-- 
2.43.0


From 75225510ae305fccf5c2ba45a8709719ddd43231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 20/43] fix: replacing a derived entry no longer removes it for
 concurrent reads

---
 metric/common.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/metric/common.go b/metric/common.go
index 8d2230f..4694d0c 100644
--- a/metric/common.go
+++ b/metric/common.go
@@ -146,7 +146,6 @@ func (bm *baseMetric) upsertEntry(labelVals []metricdata.LabelValue, newEntry fu
 		return errKeyValueMismatch
 	}
 	mapKey := bm.encodeLabelVals(labelVals)
-	bm.vals.Delete(mapKey)
 	bm.vals.Store(mapKey, newEntry())
 	return nil
 }
-- 
2.43.0


From acfb8a0543acdb379f8473c28f93927136d99840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:58 +0000
Subject: [PATCH 21/43] fix: flushing a nil interval reader does nothing, like
 stopping one

---
 metric/metricexport/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metric/metricexport/reader.go b/metric/metricexport/reader.go
index 8a09d0f..979aa7a 100644
--- a/metric/metricexport/reader.go
+++ b/metric/metricexport/reader.go
@@ -174,6 +174,9 @@ func (ir *IntervalReader) Stop() {
 
 // Flush flushes the metrics if IntervalReader is stopped, otherwise no-op.
 func (ir *IntervalReader) Flush() {
+	if ir == nil {
+		return
+	}
 	ir.mu.Lock()
 	defer ir.mu.Unlock()
 
-- 
2.43.0


From ee7c2b9b5f87e484873f97adbc9ede22b64702e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 22/43] fix: ochttp server counts response bytes copied with
 io.ReaderFrom

---
 plugin/ochttp/server.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/plugin/ochttp/server.go b/plugin/ochttp/server.go
index 946b22e..ba44b3e 100644
--- a/plugin/ochttp/server.go
+++ b/plugin/ochttp/server.go
@@ -210,10 +210,27 @@ func (t *trackingResponseWriter) Header() http.Header {
 
 func (t *trackingResponseWriter) Write(data []byte) (int, error) {
 	n, err := t.writer.Write(data)
-	t.respSize += int64(n)
+	t.sent(int64(n))
+	return n, err
+}
+
+// sent accounts for n bytes of the response body having been written.
+func (t *trackingResponseWriter) sent(n int64) {
+	t.respSize += n
 	// Add message event for request bytes sent.
 	span := trace.FromContext(t.ctx)
-	span.AddMessageSendEvent(0 /* TODO: messageID */, int64(n), -1)
+	span.AddMessageSendEvent(0 /* TODO: messageID */, n, -1)
+}
+
+// trackingReaderFrom is the io.ReaderFrom of a trackingResponseWriter.
+type trackingReaderFrom struct {
+	t  *trackingResponseWriter
+	rf io.ReaderFrom
+}
+
+func (r trackingReaderFrom) ReadFrom(src io.Reader) (int64, error) {
+	n, err := r.rf.ReadFrom(src)
+	r.t.sent(n)
 	return n, err
 }
 
@@ -237,6 +254,9 @@ func (t *trackingResponseWriter) wrappedResponseWriter() http.ResponseWriter {
 		fl, i3 = t.writer.(http.Flusher)
 		rf, i4 = t.writer.(io.ReaderFrom)
 	)
+	if i4 {
+		rf = trackingReaderFrom{t, rf}
+	}
 
 	switch {
 	case !i0 && !i1 && !i2 && !i3 && !i4:
-- 
2.43.0


From 02414a9914fb0a9a01678a11f4b17e3ca36e3eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:17 +0000
Subject: [PATCH 23/43] fix: ochttp server records the status that was sent

---
 plugin/ochttp/server.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/plugin/ochttp/server.go b/plugin/ochttp/server.go
index ba44b3e..f75ace2 100644
--- a/plugin/ochttp/server.go
+++ b/plugin/ochttp/server.go
@@ -209,6 +209,7 @@ func (t *trackingResponseWriter) Header() http.Header {
 }
 
 func (t *trackingResponseWriter) Write(data []byte) (int, error) {
+	t.setStatus(http.StatusOK) // unless set before
 	n, err := t.writer.Write(data)
 	t.sent(int64(n))
 	return n, err
@@ -229,6 +230,7 @@ type trackingReaderFrom struct {
 }
 
 func (r trackingReaderFrom) ReadFrom(src io.Reader) (int64, error) {
+	r.t.setStatus(http.StatusOK) // unless set before
 	n, err := r.rf.ReadFrom(src)
 	r.t.sent(n)
 	return n, err
@@ -236,10 +238,30 @@ func (r trackingReaderFrom) ReadFrom(src io.Reader) (int64, error) {
 
 func (t *trackingResponseWriter) WriteHeader(statusCode int) {
 	t.writer.WriteHeader(statusCode)
+	t.setStatus(statusCode)
+}
+
+// setStatus notes the status code of the response: the first one that is not
+// informational, as net/http ignores the ones after it.
+func (t *trackingResponseWriter) setStatus(statusCode int) {
+	if t.statusCode != 0 || statusCode < 200 && statusCode != http.StatusSwitchingProtocols {
+		return
+	}
 	t.statusCode = statusCode
 	t.statusLine = http.StatusText(t.statusCode)
 }
 
+// trackingFlusher is the http.Flusher of a trackingResponseWriter.
+type trackingFlusher struct {
+	t  *trackingResponseWriter
+	fl http.Flusher
+}
+
+func (f trackingFlusher) Flush() {
+	f.t.setStatus(http.StatusOK) // flushing sends the header
+	f.fl.Flush()
+}
+
 // wrappedResponseWriter returns a wrapped version of the original
 //
 //	ResponseWriter and only implements the same combination of additional
@@ -254,6 +276,9 @@ func (t *trackingResponseWriter) wrappedResponseWriter() http.ResponseWriter {
 		fl, i3 = t.writer.(http.Flusher)
 		rf, i4 = t.writer.(io.ReaderFrom)
 	)
+	if i3 {
+		fl = trackingFlusher{t, fl}
+	}
 	if i4 {
 		rf = trackingReaderFrom{t, rf}
 	}
-- 
2.43.0


From 967cdf218332512dbebcdbef573cf11ce8003583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:38 +0000
Subject: [PATCH 24/43] fix: ochttp keeps the valid tags of a request when one
 is not

---
 plugin/ochttp/client_stats.go |  2 +-
 plugin/ochttp/route.go        | 15 +++++++++++++++
 plugin/ochttp/server.go       |  4 ++--
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/plugin/ochttp/client_stats.go b/plugin/ochttp/client_stats.go
index 17142aa..91bd7c9 100644
--- a/plugin/ochttp/client_stats.go
+++ b/plugin/ochttp/client_stats.go
@@ -33,7 +33,7 @@ type statsTransport struct {
 
 // RoundTrip implements http.RoundTripper, delegating to Base and recording stats for the request.
 func (t statsTransport) RoundTrip(req *http.Request) (*http.Response, error) {
-	ctx, _ := tag.New(req.Context(),
+	ctx := tagContext(req.Context(),
 		tag.Upsert(KeyClientHost, req.Host),
 		tag.Upsert(Host, req.Host),
 		tag.Upsert(KeyClientPath, req.URL.Path),
diff --git a/plugin/ochttp/route.go b/plugin/ochttp/route.go
index 5e6a343..7c0d445 100644
--- a/plugin/ochttp/route.go
+++ b/plugin/ochttp/route.go
@@ -59,3 +59,18 @@ type addedTagsKey struct{}
 type addedTags struct {
 	t []tag.Mutator
 }
+
+// tagContext returns a context with the tags given by the mutators, leaving
+// out those that are not valid, such as a path that is too long for a tag
+// value.
+func tagContext(ctx context.Context, mutators ...tag.Mutator) context.Context {
+	if tagged, err := tag.New(ctx, mutators...); err == nil {
+		return tagged
+	}
+	for _, m := range mutators {
+		if tagged, err := tag.New(ctx, m); err == nil {
+			ctx = tagged
+		}
+	}
+	return ctx
+}
diff --git a/plugin/ochttp/server.go b/plugin/ochttp/server.go
index f75ace2..d542c38 100644
--- a/plugin/ochttp/server.go
+++ b/plugin/ochttp/server.go
@@ -147,7 +147,7 @@ func (h *Handler) extractSpanContext(r *http.Request) (trace.SpanContext, bool)
 }
 
 func (h *Handler) startStats(w http.ResponseWriter, r *http.Request) (http.ResponseWriter, func(tags *addedTags)) {
-	ctx, _ := tag.New(r.Context(),
+	ctx := tagContext(r.Context(),
 		tag.Upsert(Host, r.Host),
 		tag.Upsert(Path, r.URL.Path),
 		tag.Upsert(Method, r.Method))
@@ -200,7 +200,7 @@ func (t *trackingResponseWriter) end(tags *addedTags) {
 		allTags := make([]tag.Mutator, len(tags.t)+1)
 		allTags[0] = tag.Upsert(StatusCode, strconv.Itoa(t.statusCode))
 		copy(allTags[1:], tags.t)
-		stats.RecordWithTags(t.ctx, allTags, m...)
+		stats.Record(tagContext(t.ctx, allTags...), m...)
 	})
 }
 
-- 
2.43.0


From dc5da0c66a5b107f7d363963f07c770ff08748fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:14 +0000
Subject: [PATCH 25/43] fix: ochttp client sends no bytes, not -1, without a
 body

---
 plugin/ochttp/client_stats.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plugin/ochttp/client_stats.go b/plugin/ochttp/client_stats.go
index 91bd7c9..49c5f68 100644
--- a/plugin/ochttp/client_stats.go
+++ b/plugin/ochttp/client_stats.go
@@ -104,8 +104,12 @@ func (t *tracker) end() {
 		if t.respSize == 0 && t.respContentLength > 0 {
 			respSize = t.respContentLength
 		}
+		sentBytes := t.reqSize
+		if sentBytes < 0 { // no body
+			sentBytes = 0
+		}
 		m := []stats.Measurement{
-			ClientSentBytes.M(t.reqSize),
+			ClientSentBytes.M(sentBytes),
 			ClientReceivedBytes.M(respSize),
 			ClientRoundtripLatency.M(latencyMs),
 			ClientLatency.M(latencyMs),
-- 
2.43.0


From 6254fb361ba4363a8fb72381cf7692eae9bd073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:16 +0000
Subject: [PATCH 26/43] fix: ochttp client bodies may be closed while being
 read

---
 plugin/ochttp/client_stats.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/plugin/ochttp/client_stats.go b/plugin/ochttp/client_stats.go
index 49c5f68..708c46f 100644
--- a/plugin/ochttp/client_stats.go
+++ b/plugin/ochttp/client_stats.go
@@ -20,6 +20,7 @@ import (
 	"net/http"
 	"strconv"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"go.opencensus.io/stats"
@@ -86,7 +87,7 @@ func (t statsTransport) CancelRequest(req *http.Request) {
 
 type tracker struct {
 	ctx               context.Context
-	respSize          int64
+	respSize          int64 // atomic, as Close may be called during a Read
 	respContentLength int64
 	reqSize           int64
 	start             time.Time
@@ -100,8 +101,9 @@ var _ io.ReadCloser = (*tracker)(nil)
 func (t *tracker) end() {
 	t.endOnce.Do(func() {
 		latencyMs := float64(time.Since(t.start)) / float64(time.Millisecond)
-		respSize := t.respSize
-		if t.respSize == 0 && t.respContentLength > 0 {
+		readBytes := atomic.LoadInt64(&t.respSize)
+		respSize := readBytes
+		if respSize == 0 && t.respContentLength > 0 {
 			respSize = t.respContentLength
 		}
 		sentBytes := t.reqSize
@@ -113,7 +115,7 @@ func (t *tracker) end() {
 			ClientReceivedBytes.M(respSize),
 			ClientRoundtripLatency.M(latencyMs),
 			ClientLatency.M(latencyMs),
-			ClientResponseBytes.M(t.respSize),
+			ClientResponseBytes.M(readBytes),
 		}
 		if t.reqSize >= 0 {
 			m = append(m, ClientRequestBytes.M(t.reqSize))
@@ -128,7 +130,7 @@ func (t *tracker) end() {
 
 func (t *tracker) Read(b []byte) (int, error) {
 	n, err := t.body.Read(b)
-	t.respSize += int64(n)
+	atomic.AddInt64(&t.respSize, int64(n))
 	switch err {
 	case nil:
 		return n, nil
-- 
2.43.0


From e9d8670f835d9fa9c87a7623bdd15ce04975ee12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:18 +0000
Subject: [PATCH 27/43] fix: ochttp client leaves a nil response body nil

---
 plugin/ochttp/trace.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plugin/ochttp/trace.go b/plugin/ochttp/trace.go
index ed3a5db..1591015 100644
--- a/plugin/ochttp/trace.go
+++ b/plugin/ochttp/trace.go
@@ -91,6 +91,11 @@ func (t *traceTransport) RoundTrip(req *http.Request) (*http.Response, error) {
 	span.AddAttributes(responseAttrs(resp)...)
 	span.SetStatus(TraceStatus(resp.StatusCode, resp.Status))
 
+	if resp.Body == nil {
+		span.End()
+		return resp, err
+	}
+
 	// span.End() will be invoked after
 	// a read from resp.Body returns io.EOF or when
 	// resp.Body.Close() is invoked.
-- 
2.43.0


From 3c4ecc2e7e5d8d5325063c1d8b1c828f04890fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:53 +0000
Subject: [PATCH 28/43] fix: ocgrpc ignores the start of an RPC it has no data
 for, like its other events

---
 plugin/ocgrpc/stats_common.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plugin/ocgrpc/stats_common.go b/plugin/ocgrpc/stats_common.go
index 9cb2732..e4ecf71 100644
--- a/plugin/ocgrpc/stats_common.go
+++ b/plugin/ocgrpc/stats_common.go
@@ -103,6 +103,7 @@ func handleRPCBegin(ctx context.Context, s *stats.Begin) {
 		if grpclog.V(2) {
 			grpclog.Infoln("Failed to retrieve *rpcData from context.")
 		}
+		return
 	}
 
 	if s.IsClient() {
-- 
2.43.0


From f7aa791e1bd7d3790e1f872bea24744201bc9312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:53 +0000
Subject: [PATCH 29/43] fix: ocgrpc server starts are not tagged as client
 calls

---
 plugin/ocgrpc/stats_common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugin/ocgrpc/stats_common.go b/plugin/ocgrpc/stats_common.go
index e4ecf71..72609b3 100644
--- a/plugin/ocgrpc/stats_common.go
+++ b/plugin/ocgrpc/stats_common.go
@@ -112,7 +112,7 @@ func handleRPCBegin(ctx context.Context, s *stats.Begin) {
 			ocstats.WithMeasurements(ClientStartedRPCs.M(1)))
 	} else {
 		ocstats.RecordWithOptions(ctx,
-			ocstats.WithTags(tag.Upsert(KeyClientMethod, methodName(d.method))),
+			ocstats.WithTags(tag.Upsert(KeyServerMethod, methodName(d.method))),
 			ocstats.WithMeasurements(ServerStartedRPCs.M(1)))
 	}
 }
-- 
2.43.0


From 6397bd1e1b2f597743cd08db6ac2fce66346bfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:53 +0000
Subject: [PATCH 30/43] fix: ocgrpc links the span of a public endpoint to its
 parent, not child

---
 plugin/ocgrpc/trace_common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugin/ocgrpc/trace_common.go b/plugin/ocgrpc/trace_common.go
index 61bc543..34d01e4 100644
--- a/plugin/ocgrpc/trace_common.go
+++ b/plugin/ocgrpc/trace_common.go
@@ -76,7 +76,7 @@ func (s *ServerHandler) traceTagRPC(ctx context.Context, rti *stats.RPCTagInfo)
 		trace.WithSpanKind(trace.SpanKindServer),
 		trace.WithSampler(s.StartOptions.Sampler))
 	if haveParent {
-		span.AddLink(trace.Link{TraceID: parent.TraceID, SpanID: parent.SpanID, Type: trace.LinkTypeChild})
+		span.AddLink(trace.Link{TraceID: parent.TraceID, SpanID: parent.SpanID, Type: trace.LinkTypeParent})
 	}
 	return ctx
 }
-- 
2.43.0


From 4205f07624875817c7f9afdbf392df0b146d20ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:53 +0000
Subject: [PATCH 31/43] fix: ocgrpc clients send their own trace context, not
 one forwarded

---
 plugin/ocgrpc/trace_common.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/plugin/ocgrpc/trace_common.go b/plugin/ocgrpc/trace_common.go
index 34d01e4..ce8a09c 100644
--- a/plugin/ocgrpc/trace_common.go
+++ b/plugin/ocgrpc/trace_common.go
@@ -40,7 +40,12 @@ func (c *ClientHandler) traceTagRPC(ctx context.Context, rti *stats.RPCTagInfo)
 		trace.WithSampler(c.StartOptions.Sampler),
 		trace.WithSpanKind(trace.SpanKindClient)) // span is ended by traceHandleRPC
 	traceContextBinary := propagation.Binary(span.SpanContext())
-	return metadata.AppendToOutgoingContext(ctx, traceContextKey, string(traceContextBinary))
+	// Replace, and do not add to, what a server may have forwarded: only the
+	// first value is read.
+	md, _ := metadata.FromOutgoingContext(ctx)
+	md = metadata.Join(md) // never nil
+	md.Set(traceContextKey, string(traceContextBinary))
+	return metadata.NewOutgoingContext(ctx, md)
 }
 
 // TagRPC creates a new trace span for the server side of the RPC.
-- 
2.43.0


From 0d0a52e02174443e550672b27fdfc5c26b6e5bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:17 +0000
Subject: [PATCH 32/43] fix: ocgrpc records RPCs whose method is no valid tag
 value

---
 plugin/ocgrpc/server_stats_handler.go |  2 +-
 plugin/ocgrpc/stats_common.go         | 27 ++++++++++++++++++++-------
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/plugin/ocgrpc/server_stats_handler.go b/plugin/ocgrpc/server_stats_handler.go
index afcef02..b9daeea 100644
--- a/plugin/ocgrpc/server_stats_handler.go
+++ b/plugin/ocgrpc/server_stats_handler.go
@@ -41,7 +41,7 @@ func (h *ServerHandler) statsTagRPC(ctx context.Context, info *stats.RPCTagInfo)
 	}
 	propagated := h.extractPropagatedTags(ctx)
 	ctx = tag.NewContext(ctx, propagated)
-	ctx, _ = tag.New(ctx, tag.Upsert(KeyServerMethod, methodName(info.FullMethodName)))
+	ctx = tagContext(ctx, tag.Upsert(KeyServerMethod, methodName(info.FullMethodName)))
 	return context.WithValue(ctx, rpcDataKey, d)
 }
 
diff --git a/plugin/ocgrpc/stats_common.go b/plugin/ocgrpc/stats_common.go
index 72609b3..90dfebd 100644
--- a/plugin/ocgrpc/stats_common.go
+++ b/plugin/ocgrpc/stats_common.go
@@ -79,6 +79,21 @@ func methodName(fullname string) string {
 	return strings.TrimLeft(fullname, "/")
 }
 
+// tagContext returns a context with the tags given by the mutators, leaving
+// out those that are not valid, such as a method that is too long for a tag
+// value.
+func tagContext(ctx context.Context, mutators ...tag.Mutator) context.Context {
+	if tagged, err := tag.New(ctx, mutators...); err == nil {
+		return tagged
+	}
+	for _, m := range mutators {
+		if tagged, err := tag.New(ctx, m); err == nil {
+			ctx = tagged
+		}
+	}
+	return ctx
+}
+
 // statsHandleRPC processes the RPC events.
 func statsHandleRPC(ctx context.Context, s stats.RPCStats) {
 	switch st := s.(type) {
@@ -107,12 +122,10 @@ func handleRPCBegin(ctx context.Context, s *stats.Begin) {
 	}
 
 	if s.IsClient() {
-		ocstats.RecordWithOptions(ctx,
-			ocstats.WithTags(tag.Upsert(KeyClientMethod, methodName(d.method))),
+		ocstats.RecordWithOptions(tagContext(ctx, tag.Upsert(KeyClientMethod, methodName(d.method))),
 			ocstats.WithMeasurements(ClientStartedRPCs.M(1)))
 	} else {
-		ocstats.RecordWithOptions(ctx,
-			ocstats.WithTags(tag.Upsert(KeyServerMethod, methodName(d.method))),
+		ocstats.RecordWithOptions(tagContext(ctx, tag.Upsert(KeyServerMethod, methodName(d.method))),
 			ocstats.WithMeasurements(ServerStartedRPCs.M(1)))
 	}
 }
@@ -167,10 +180,10 @@ func handleRPCEnd(ctx context.Context, s *stats.End) {
 	latencyMillis := float64(elapsedTime) / float64(time.Millisecond)
 	attachments := getSpanCtxAttachment(ctx)
 	if s.Client {
+		ctx = tagContext(ctx,
+			tag.Upsert(KeyClientMethod, methodName(d.method)),
+			tag.Upsert(KeyClientStatus, st))
 		ocstats.RecordWithOptions(ctx,
-			ocstats.WithTags(
-				tag.Upsert(KeyClientMethod, methodName(d.method)),
-				tag.Upsert(KeyClientStatus, st)),
 			ocstats.WithAttachments(attachments),
 			ocstats.WithMeasurements(
 				ClientSentBytesPerRPC.M(atomic.LoadInt64(&d.sentBytes)),
-- 
2.43.0


From a1f16940c0553393eb21af2cb9127154ea928425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:34 +0000
Subject: [PATCH 33/43] fix: resource labels whose values contain quotes decode
 again

---
 resource/resource.go | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/resource/resource.go b/resource/resource.go
index b1764e1..06658a9 100644
--- a/resource/resource.go
+++ b/resource/resource.go
@@ -57,7 +57,12 @@ func EncodeLabels(labels map[string]string) string {
 	return s
 }
 
-var labelRegex = regexp.MustCompile(`^\s*([[:ascii:]]{1,256}?)=("[[:ascii:]]{0,256}?")\s*,`)
+// labelKeyRegex matches a key up to the quote that opens its value, and
+// labelValueRegex a quoted value up to the comma that ends the label.
+var (
+	labelKeyRegex   = regexp.MustCompile(`^\s*([[:ascii:]]{1,256}?)="`)
+	labelValueRegex = regexp.MustCompile(`^("(?:[^"\\[:^ascii:]]|\\[[:ascii:]]){0,256}")\s*,`)
+)
 
 // DecodeLabels decodes a serialized label map as used in the OC_RESOURCE_LABELS variable.
 // A list of labels of the form `<key1>="<value1>",<key2>="<value2>",...` is accepted.
@@ -69,22 +74,22 @@ func DecodeLabels(s string) (map[string]string, error) {
 	s = strings.TrimRight(strings.TrimSpace(s), ",") + ","
 
 	for len(s) > 0 {
-		match := labelRegex.FindStringSubmatch(s)
-		if len(match) == 0 {
+		key := labelKeyRegex.FindStringSubmatch(s)
+		if len(key) == 0 {
+			return nil, fmt.Errorf("invalid label formatting, remainder: %s", s)
+		}
+		rest := s[len(key[0])-1:]
+		value := labelValueRegex.FindStringSubmatch(rest)
+		if len(value) == 0 {
 			return nil, fmt.Errorf("invalid label formatting, remainder: %s", s)
 		}
-		v := match[2]
-		if v == "" {
-			v = match[3]
-		} else {
-			var err error
-			if v, err = strconv.Unquote(v); err != nil {
-				return nil, fmt.Errorf("invalid label formatting, remainder: %s, err: %s", s, err)
-			}
+		v, err := strconv.Unquote(value[1])
+		if err != nil {
+			return nil, fmt.Errorf("invalid label formatting, remainder: %s, err: %s", s, err)
 		}
-		m[match[1]] = v
+		m[key[1]] = v
 
-		s = s[len(match[0]):]
+		s = rest[len(value[0]):]
 	}
 	return m, nil
 }
-- 
2.43.0


From e1051433ee69ee534c17af0dbb6573b5c5223066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:34 +0000
Subject: [PATCH 34/43] fix: runtime memory metrics in gauge mode are read, not
 always zero

---
 plugin/runmetrics/producer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plugin/runmetrics/producer.go b/plugin/runmetrics/producer.go
index d76bebe..944e1a7 100644
--- a/plugin/runmetrics/producer.go
+++ b/plugin/runmetrics/producer.go
@@ -165,6 +165,10 @@ func Disable() {
 
 // Read reads the current runtime metrics.
 func (p *producer) Read() []*metricdata.Metric {
+	if p.deprecatedMemStats != nil {
+		p.deprecatedMemStats.read()
+	}
+
 	if p.memStats != nil {
 		p.memStats.read()
 	}
-- 
2.43.0


From b6bf5c6275735bece81e1fe0d86d04c13213feba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:52 +0000
Subject: [PATCH 35/43] fix: concurrent reads of the runtime metrics no longer
 race

---
 plugin/runmetrics/producer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/plugin/runmetrics/producer.go b/plugin/runmetrics/producer.go
index 944e1a7..c1b8fa1 100644
--- a/plugin/runmetrics/producer.go
+++ b/plugin/runmetrics/producer.go
@@ -19,6 +19,10 @@ type (
 		options RunMetricOptions
 		reg     *metric.Registry
 
+		// readMutex keeps the metrics of one read from the same state of the
+		// runtime, and its statistics from being overwritten meanwhile.
+		readMutex sync.Mutex
+
 		deprecatedMemStats *deprecatedMemStats
 		memStats           *memStats
 		cpuStats           *cpuStats
@@ -165,6 +169,9 @@ func Disable() {
 
 // Read reads the current runtime metrics.
 func (p *producer) Read() []*metricdata.Metric {
+	p.readMutex.Lock()
+	defer p.readMutex.Unlock()
+
 	if p.deprecatedMemStats != nil {
 		p.deprecatedMemStats.read()
 	}
-- 
2.43.0


From 38cb96924802adb30668e950ee380f5738329a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:57 +0000
Subject: [PATCH 36/43] fix: refuse to set a tag with the zero Key

Insert, Update and Upsert checked the value only, so the zero Key gave a
context with an invalid tag, from which no further context could be made.
---
 tag/map.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tag/map.go b/tag/map.go
index 0272ef8..f6a1213 100644
--- a/tag/map.go
+++ b/tag/map.go
@@ -107,6 +107,9 @@ type Mutator interface {
 func Insert(k Key, v string, mds ...Metadata) Mutator {
 	return &mutator{
 		fn: func(m *Map) (*Map, error) {
+			if !checkKeyName(k.name) { // the zero Key
+				return nil, errInvalidKeyName
+			}
 			if !checkValue(v) {
 				return nil, errInvalidValue
 			}
@@ -126,6 +129,9 @@ func Insert(k Key, v string, mds ...Metadata) Mutator {
 func Update(k Key, v string, mds ...Metadata) Mutator {
 	return &mutator{
 		fn: func(m *Map) (*Map, error) {
+			if !checkKeyName(k.name) { // the zero Key
+				return nil, errInvalidKeyName
+			}
 			if !checkValue(v) {
 				return nil, errInvalidValue
 			}
@@ -146,6 +152,9 @@ func Update(k Key, v string, mds ...Metadata) Mutator {
 func Upsert(k Key, v string, mds ...Metadata) Mutator {
 	return &mutator{
 		fn: func(m *Map) (*Map, error) {
+			if !checkKeyName(k.name) { // the zero Key
+				return nil, errInvalidKeyName
+			}
 			if !checkValue(v) {
 				return nil, errInvalidValue
 			}
-- 
2.43.0


From f289e66c2e9cbe57b0ebe3a5e24494bf9da33192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:08 +0000
Subject: [PATCH 37/43] fix: W3C injection removes a tracestate that is not the
 span context's

A request that was received and is passed on, as by a reverse proxy, kept the
tracestate header it came with when the new span had none, as the span of a
public endpoint, so that the state of one trace went on with another.
---
 plugin/ochttp/propagation/tracecontext/propagation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugin/ochttp/propagation/tracecontext/propagation.go b/plugin/ochttp/propagation/tracecontext/propagation.go
index ea74565..6a4de1e 100644
--- a/plugin/ochttp/propagation/tracecontext/propagation.go
+++ b/plugin/ochttp/propagation/tracecontext/propagation.go
@@ -201,5 +201,8 @@ func (f *HTTPFormat) SpanContextToRequest(sc trace.SpanContext, req *http.Reques
 	req.Header.Set(traceparentHeader, tp)
 	if ts != "" {
 		req.Header.Set(tracestateHeader, ts)
+	} else {
+		// One left by an earlier hop belongs to another span context.
+		req.Header.Del(tracestateHeader)
 	}
 }
-- 
2.43.0


From 5b9a9d3189dea17e69c9f92928773aec0a96d22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:08 +0000
Subject: [PATCH 38/43] fix: ocgrpc clients send their own tags, not ones
 forwarded

A server that passes the metadata it received on with its own RPCs sent the
tags it had received beside those of its context, and the receiver took the
former.
---
 plugin/ocgrpc/client_stats_handler.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/plugin/ocgrpc/client_stats_handler.go b/plugin/ocgrpc/client_stats_handler.go
index b363498..db2abbd 100644
--- a/plugin/ocgrpc/client_stats_handler.go
+++ b/plugin/ocgrpc/client_stats_handler.go
@@ -21,9 +21,13 @@ import (
 
 	"go.opencensus.io/tag"
 	"google.golang.org/grpc/grpclog"
+	"google.golang.org/grpc/metadata"
 	"google.golang.org/grpc/stats"
 )
 
+// tagsContextKey is the metadata key under which gRPC sends the tags of a context.
+const tagsContextKey = "grpc-tags-bin"
+
 // statsTagRPC gets the tag.Map populated by the application code, serializes
 // its tags into the GRPC metadata in order to be sent to the server.
 func (h *ClientHandler) statsTagRPC(ctx context.Context, info *stats.RPCTagInfo) context.Context {
@@ -43,6 +47,13 @@ func (h *ClientHandler) statsTagRPC(ctx context.Context, info *stats.RPCTagInfo)
 	if ts != nil {
 		encoded := tag.Encode(ts)
 		ctx = stats.SetTags(ctx, encoded)
+		// Tags that a server forwards with the metadata it got would take
+		// precedence over those of ctx.
+		if md, ok := metadata.FromOutgoingContext(ctx); ok && len(md[tagsContextKey]) > 0 {
+			md = md.Copy()
+			delete(md, tagsContextKey)
+			ctx = metadata.NewOutgoingContext(ctx, md)
+		}
 	}
 
 	return context.WithValue(ctx, rpcDataKey, d)
-- 
2.43.0


From df14ceeb1fbe3ac96f5337f922b5f4ca439c94dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:08 +0000
Subject: [PATCH 39/43] fix: a span's execution tracer task ends once, with the
 span

Every call of End ended the task again, so that the Go execution tracer showed
it as lasting until the last one, for example the Close of a response body.
---
 trace/trace.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/trace/trace.go b/trace/trace.go
index 861df9d..a383d52 100644
--- a/trace/trace.go
+++ b/trace/trace.go
@@ -278,13 +278,13 @@ func (s *span) End() {
 	if s == nil {
 		return
 	}
-	if s.executionTracerTaskEnd != nil {
-		s.executionTracerTaskEnd()
-	}
-	if !s.IsRecordingEvents() {
-		return
-	}
 	s.endOnce.Do(func() {
+		if s.executionTracerTaskEnd != nil {
+			s.executionTracerTaskEnd()
+		}
+		if !s.IsRecordingEvents() {
+			return
+		}
 		exp, _ := exporters.Load().(exportersMap)
 		mustExport := s.spanContext.IsSampled() && len(exp) > 0
 		if s.spanStore != nil || mustExport {
-- 
2.43.0


From ece4704f6bd3a2bde1fb94bec8fdaf72ffa8803a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:22 +0000
Subject: [PATCH 40/43] fix: a view without a usable aggregation is refused,
 not a crash of the worker

---
 stats/view/view.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stats/view/view.go b/stats/view/view.go
index 97e674c..6342991 100644
--- a/stats/view/view.go
+++ b/stats/view/view.go
@@ -87,7 +87,7 @@ func (v *View) canonicalize() error {
 	if v.Measure == nil {
 		return fmt.Errorf("cannot register view %q: measure not set", v.Name)
 	}
-	if v.Aggregation == nil {
+	if v.Aggregation == nil || v.Aggregation.newData == nil {
 		return fmt.Errorf("cannot register view %q: aggregation not set", v.Name)
 	}
 	if v.Name == "" {
-- 
2.43.0


From 5a25aa755a617939c52d38f01228235b552b882e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:16 +0000
Subject: [PATCH 41/43] fix: tracez lists the spans whose name is empty

---
 zpages/tracez.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/zpages/tracez.go b/zpages/tracez.go
index 5dc5f3a..5937813 100644
--- a/zpages/tracez.go
+++ b/zpages/tracez.go
@@ -88,16 +88,24 @@ func tracezHandler(w http.ResponseWriter, r *http.Request) {
 	name := r.Form.Get(spanNameQueryField)
 	t, _ := strconv.Atoi(r.Form.Get(spanTypeQueryField))
 	st, _ := strconv.Atoi(r.Form.Get(spanSubtypeQueryField))
-	WriteHTMLTracezPage(w, name, t, st)
+	// The name asked for may be the empty one.
+	_, list := r.Form[spanNameQueryField]
+	writeHTMLTracezPage(w, list, name, t, st)
 }
 
 // WriteHTMLTracezPage writes an HTML document to w containing locally-sampled trace spans.
 func WriteHTMLTracezPage(w io.Writer, spanName string, spanType, spanSubtype int) {
+	writeHTMLTracezPage(w, spanName != "", spanName, spanType, spanSubtype)
+}
+
+func writeHTMLTracezPage(w io.Writer, list bool, spanName string, spanType, spanSubtype int) {
 	if err := headerTemplate.Execute(w, headerData{Title: "Trace Spans"}); err != nil {
 		log.Printf("zpages: executing template: %v", err)
 	}
 	WriteHTMLTracezSummary(w)
-	WriteHTMLTracezSpans(w, spanName, spanType, spanSubtype)
+	if list {
+		writeHTMLTracezSpans(w, spanName, spanType, spanSubtype)
+	}
 	if err := footerTemplate.Execute(w, nil); err != nil {
 		log.Printf("zpages: executing template: %v", err)
 	}
@@ -119,6 +127,10 @@ func WriteHTMLTracezSpans(w io.Writer, spanName string, spanType, spanSubtype in
 	if spanName == "" {
 		return
 	}
+	writeHTMLTracezSpans(w, spanName, spanType, spanSubtype)
+}
+
+func writeHTMLTracezSpans(w io.Writer, spanName string, spanType, spanSubtype int) {
 	if err := tracesTableTemplate.Execute(w, traceDataFromSpans(spanName, traceSpans(spanName, spanType, spanSubtype))); err != nil {
 		log.Printf("zpages: executing template: %v", err)
 	}
-- 
2.43.0


From 4a8324bb31e8d05fe545860709781f8a435eccfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:34 +0000
Subject: [PATCH 42/43] fix: tracez latency bands do not list spans of the next
 one

---
 zpages/tracez.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zpages/tracez.go b/zpages/tracez.go
index 5937813..45eaafb 100644
--- a/zpages/tracez.go
+++ b/zpages/tracez.go
@@ -357,11 +357,12 @@ func traceSpans(spanName string, spanType, spanSubtype int) []*trace.SpanData {
 		var min, max time.Duration
 		n := len(defaultLatencies)
 		if spanSubtype == 0 {
-			max = defaultLatencies[0]
+			max = defaultLatencies[0] - 1
 		} else if spanSubtype == n {
 			min, max = defaultLatencies[spanSubtype-1], (1<<63)-1
 		} else if 0 < spanSubtype && spanSubtype < n {
-			min, max = defaultLatencies[spanSubtype-1], defaultLatencies[spanSubtype]
+			// A span that took the upper bound belongs to the next band.
+			min, max = defaultLatencies[spanSubtype-1], defaultLatencies[spanSubtype]-1
 		}
 		spans = internalTrace.ReportSpansByLatency(spanName, min, max)
 	case 2: // error
-- 
2.43.0


From f98a21883c06eb84bb0afc56a776cc11f8f6e3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:21 +0000
Subject: [PATCH 43/43] fix: a slow reader of the rpcz page no longer holds up
 exports and recordings

---
 zpages/rpcz.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/zpages/rpcz.go b/zpages/rpcz.go
index 5405cff..8bfda4e 100644
--- a/zpages/rpcz.go
+++ b/zpages/rpcz.go
@@ -87,17 +87,13 @@ func WriteHTMLRpczPage(w io.Writer) {
 //
 // It includes neither a header nor footer, so you can embed this data in other pages.
 func WriteHTMLRpczSummary(w io.Writer) {
-	mu.Lock()
 	if err := statsTemplate.Execute(w, getStatsPage()); err != nil {
 		log.Printf("zpages: executing template: %v", err)
 	}
-	mu.Unlock()
 }
 
 // WriteTextRpczPage writes formatted text to w containing per-method RPC stats.
 func WriteTextRpczPage(w io.Writer) {
-	mu.Lock()
-	defer mu.Unlock()
 	page := getStatsPage()
 
 	for i, sg := range page.StatGroups {
@@ -317,10 +313,16 @@ func (s snapExporter) ExportView(vd *view.Data) {
 	}
 }
 
+// getStatsPage returns a page of its own, so that writing it to a slow client
+// does not hold up the export of views.
 func getStatsPage() *statsPage {
+	mu.Lock()
+	defer mu.Unlock()
 	sentStats := statGroup{Direction: "Sent"}
 	receivedStats := statGroup{Direction: "Received"}
-	for key, sg := range snaps {
+	for key, snap := range snaps {
+		sg := new(statSnapshot)
+		*sg = *snap
 		if key.received {
 			receivedStats.Snapshots = append(receivedStats.Snapshots, sg)
 		} else {
-- 
2.43.0

