From 34289476eb53fb9d20bbf529ca2d004e7e8a5583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:07 +0000
Subject: [PATCH 1/8] fix: start a distribution's maximum below every finite
 sample

The maximum started at the smallest positive float, so a distribution whose
samples are all zero or negative reported a maximum it never saw.
---
 stats/view/aggregation_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stats/view/aggregation_data.go b/stats/view/aggregation_data.go
index d93b520..03a333d 100644
--- a/stats/view/aggregation_data.go
+++ b/stats/view/aggregation_data.go
@@ -149,7 +149,7 @@ func newDistributionData(agg *Aggregation, t time.Time) *DistributionData {
 		ExemplarsPerBucket: make([]*metricdata.Exemplar, bucketCount),
 		bounds:             agg.Buckets,
 		Min:                math.MaxFloat64,
-		Max:                math.SmallestNonzeroFloat64,
+		Max:                -math.MaxFloat64,
 		Start:              t,
 	}
 }
-- 
2.43.0


From 7a9da8974ebd58e52e5c954afecccf3116eac84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:14 +0000
Subject: [PATCH 2/8] fix: reject a tag length that does not fit the remaining
 input instead of overflowing

---
 tag/map_codec.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tag/map_codec.go b/tag/map_codec.go
index c242e69..74b5769 100644
--- a/tag/map_codec.go
+++ b/tag/map_codec.go
@@ -126,10 +126,10 @@ func (eg *encoderGRPC) readBytesWithVarintLen() ([]byte, error) {
 	}
 
 	valueStart += eg.readIdx
-	valueEnd := valueStart + int(length)
-	if valueEnd > len(eg.buf) {
-		return nil, fmt.Errorf("malformed encoding: length:%v, upper:%v, maxLength:%v", length, valueEnd, len(eg.buf))
+	if length > uint64(len(eg.buf)-valueStart) {
+		return nil, fmt.Errorf("malformed encoding: length:%v, start:%v, maxLength:%v", length, valueStart, len(eg.buf))
 	}
+	valueEnd := valueStart + int(length)
 
 	eg.readIdx = valueEnd
 	return eg.buf[valueStart:valueEnd], nil
-- 
2.43.0


From 09b7d4caee36d552d89023c21ce799f93a998018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:40 +0000
Subject: [PATCH 3/8] fix: taking a snapshot of a span's attributes does not
 change which are evicted next

---
 trace/lrumap.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/trace/lrumap.go b/trace/lrumap.go
index 80095a5..b8f4980 100644
--- a/trace/lrumap.go
+++ b/trace/lrumap.go
@@ -18,22 +18,22 @@ import (
 	"github.com/golang/groupcache/lru"
 )
 
-// A simple lru.Cache wrapper that tracks the keys of the current contents and
-// the cumulative number of evicted items.
+// A simple lru.Cache wrapper that tracks the current contents and the
+// cumulative number of evicted items.
 type lruMap struct {
-	cacheKeys    map[lru.Key]bool
+	cacheValues  map[lru.Key]interface{}
 	cache        *lru.Cache
 	droppedCount int
 }
 
 func newLruMap(size int) *lruMap {
 	lm := &lruMap{
-		cacheKeys:    make(map[lru.Key]bool),
+		cacheValues:  make(map[lru.Key]interface{}),
 		cache:        lru.New(size),
 		droppedCount: 0,
 	}
 	lm.cache.OnEvicted = func(key lru.Key, value interface{}) {
-		delete(lm.cacheKeys, key)
+		delete(lm.cacheValues, key)
 		lm.droppedCount++
 	}
 	return lm
@@ -44,18 +44,22 @@ func (lm lruMap) len() int {
 }
 
 func (lm lruMap) keys() []interface{} {
-	keys := make([]interface{}, 0, len(lm.cacheKeys))
-	for k := range lm.cacheKeys {
+	keys := make([]interface{}, 0, len(lm.cacheValues))
+	for k := range lm.cacheValues {
 		keys = append(keys, k)
 	}
 	return keys
 }
 
 func (lm *lruMap) add(key, value interface{}) {
-	lm.cacheKeys[lru.Key(key)] = true
+	lm.cacheValues[lru.Key(key)] = value
 	lm.cache.Add(lru.Key(key), value)
 }
 
+// get returns the value of a key. It does not count as a use of the key: the
+// attributes evicted are the least recently written ones, however often a
+// snapshot of the span is taken.
 func (lm *lruMap) get(key interface{}) (interface{}, bool) {
-	return lm.cache.Get(key)
+	value, ok := lm.cacheValues[lru.Key(key)]
+	return value, ok
 }
-- 
2.43.0


From b12bf768764333bc4281a69efa0e8131e5a5d397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 4/8] fix: tracestate.New must not share the caller's entries
 slice

append(entries, ts.entries...) kept (or, with spare capacity, wrote into) the
slice the caller passed, so that later use of that slice changed an existing
Tracestate.
---
 trace/tracestate/tracestate.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trace/tracestate/tracestate.go b/trace/tracestate/tracestate.go
index 2d6c713..1a5ad31 100644
--- a/trace/tracestate/tracestate.go
+++ b/trace/tracestate/tracestate.go
@@ -81,7 +81,9 @@ func (ts *Tracestate) add(entries []Entry) error {
 		return fmt.Errorf("adding %d key-value pairs to current %d pairs exceeds the limit of %d",
 			len(entries), len(ts.entries), maxKeyValuePairs)
 	}
-	ts.entries = append(entries, ts.entries...)
+	// Copy: entries belongs to the caller and must not be shared with (or
+	// written through) the tracestate.
+	ts.entries = append(append([]Entry(nil), entries...), ts.entries...)
 	return nil
 }
 
-- 
2.43.0


From df70484866e12eacce38d058df01ddf9ac33aaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:53 +0000
Subject: [PATCH 5/8] fix: concurrent entry lookups must not share the constant
 label values' spare capacity

---
 metric/common.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metric/common.go b/metric/common.go
index 42acaae..b3d9e21 100644
--- a/metric/common.go
+++ b/metric/common.go
@@ -120,7 +120,7 @@ func (bm *baseMetric) decodeLabelVals(s string) []metricdata.LabelValue {
 }
 
 func (bm *baseMetric) entryForValues(labelVals []metricdata.LabelValue, newEntry func() baseEntry) (interface{}, error) {
-	labelVals = append(bm.constLabelValues, labelVals...)
+	labelVals = append(bm.constLabelValues[:len(bm.constLabelValues):len(bm.constLabelValues)], labelVals...)
 	if len(labelVals) != len(bm.keys) {
 		return nil, errKeyValueMismatch
 	}
@@ -133,7 +133,7 @@ func (bm *baseMetric) entryForValues(labelVals []metricdata.LabelValue, newEntry
 }
 
 func (bm *baseMetric) upsertEntry(labelVals []metricdata.LabelValue, newEntry func() baseEntry) error {
-	labelVals = append(bm.constLabelValues, labelVals...)
+	labelVals = append(bm.constLabelValues[:len(bm.constLabelValues):len(bm.constLabelValues)], labelVals...)
 	if len(labelVals) != len(bm.keys) {
 		return errKeyValueMismatch
 	}
-- 
2.43.0


From 37a71e18e07b4ff676a2305464ef984f1b50c69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:34 +0000
Subject: [PATCH 6/8] fix: metric label values of 255 bytes or more get an
 entry of their own and can be read back

---
 metric/common.go | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/metric/common.go b/metric/common.go
index b3d9e21..336d5dc 100644
--- a/metric/common.go
+++ b/metric/common.go
@@ -15,11 +15,10 @@
 package metric
 
 import (
+	"encoding/binary"
 	"sync"
 	"time"
 
-	"go.opencensus.io/internal/tagencoding"
-
 	"go.opencensus.io/metric/metricdata"
 )
 
@@ -92,29 +91,35 @@ func (bm *baseMetric) read() *metricdata.Metric {
 	return m
 }
 
+// encodeLabelVals identifies a list of label values: absent values are a zero
+// byte, present ones a one byte, the value's length in eight bytes, and the value.
 func (bm *baseMetric) encodeLabelVals(labelVals []metricdata.LabelValue) string {
-	vb := &tagencoding.Values{}
+	var b []byte
 	for _, v := range labelVals {
-		b := make([]byte, 1, len(v.Value)+1)
-		if v.Present {
-			b[0] = 1
-			b = append(b, []byte(v.Value)...)
+		if !v.Present {
+			b = append(b, 0)
+			continue
 		}
-		vb.WriteValue(b)
+		var n [8]byte
+		binary.BigEndian.PutUint64(n[:], uint64(len(v.Value)))
+		b = append(b, 1)
+		b = append(b, n[:]...)
+		b = append(b, v.Value...)
 	}
-	return string(vb.Bytes())
+	return string(b)
 }
 
 func (bm *baseMetric) decodeLabelVals(s string) []metricdata.LabelValue {
 	vals := make([]metricdata.LabelValue, 0, len(bm.keys))
-	vb := &tagencoding.Values{Buffer: []byte(s)}
 	for range bm.keys {
-		v := vb.ReadValue()
-		if v[0] == 0 {
+		if s[0] == 0 {
 			vals = append(vals, metricdata.LabelValue{})
-		} else {
-			vals = append(vals, metricdata.NewLabelValue(string(v[1:])))
+			s = s[1:]
+			continue
 		}
+		end := 9 + int(binary.BigEndian.Uint64([]byte(s[1:9])))
+		vals = append(vals, metricdata.NewLabelValue(s[9:end]))
+		s = s[end:]
 	}
 	return vals
 }
-- 
2.43.0


From 0595e273856f3af789b4cc65b485143f5f9685d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:22 +0000
Subject: [PATCH 7/8] fix: ocgrpc: do not panic when an RPC begins with a
 context without RPC data

handleRPCBegin reported a missing *rpcData but went on and dereferenced it.
---
 plugin/ocgrpc/stats_common.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plugin/ocgrpc/stats_common.go b/plugin/ocgrpc/stats_common.go
index 9cb2732..e4ecf71 100644
--- a/plugin/ocgrpc/stats_common.go
+++ b/plugin/ocgrpc/stats_common.go
@@ -103,6 +103,7 @@ func handleRPCBegin(ctx context.Context, s *stats.Begin) {
 		if grpclog.V(2) {
 			grpclog.Infoln("Failed to retrieve *rpcData from context.")
 		}
+		return
 	}
 
 	if s.IsClient() {
-- 
2.43.0


From 4d037e70e9a756fff2b1b82f55a779206fc0ede2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:52 +0000
Subject: [PATCH 8/8] fix: runmetrics: refresh the gauge-based memory metrics
 on every read

producer.Read never called deprecatedMemStats.read, so with
UseDerivedCumulative unset every memory metric stayed zero.
---
 plugin/runmetrics/producer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plugin/runmetrics/producer.go b/plugin/runmetrics/producer.go
index d76bebe..ec800bd 100644
--- a/plugin/runmetrics/producer.go
+++ b/plugin/runmetrics/producer.go
@@ -169,6 +169,10 @@ func (p *producer) Read() []*metricdata.Metric {
 		p.memStats.read()
 	}
 
+	if p.deprecatedMemStats != nil {
+		p.deprecatedMemStats.read()
+	}
+
 	if p.cpuStats != nil {
 		p.cpuStats.read()
 	}
-- 
2.43.0

